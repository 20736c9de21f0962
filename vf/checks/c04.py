"""C04 - timestamps: exact time tags, consistent representations, order and arithmetic."""
RULE = ('time tags (196 MHz ticks since 1970) drawn from 2000-2036 at random and next to second, day, year, leap-second and '
        'float64-resolution boundaries are turned into timestamps and back through every representation; the oracle is integer '
        'arithmetic on the time tag; distinct = distinct (time tag, partner) pairs')
ASSUMPTIONS = ['astropy time scales are trusted; sums and differences are not judged on days that end in a leap second, which astropy stretches']
OPTS = {'scale': 3}
NEED = {'roundtrips': 5000, 'orders': 2000, 'sums': 2000}
FS = 196000000
DAY = 86400
LEAPS = [13149, 14245, 15522, 16617, 17167]     # days since 1970 that begin right after a leap second (2006...2017)


def tags(rng):
    import calendar
    day = rng.choice([rng.randrange(10957, 24000), rng.choice(LEAPS) + rng.choice([-1, 0, 1]), rng.randrange(10957, 24000)])
    sec = rng.choice([0, 1, 43199, 43200, 43201, 86399, rng.randrange(DAY), rng.randrange(DAY)])
    tick = rng.choice([0, 1, 2, FS // 2, FS - 1, FS - 2, rng.randrange(FS), rng.randrange(FS)])
    return (day * DAY + sec) * FS + tick


def stamps(m, n):
    import math
    from datetime import datetime, timedelta, timezone
    import numpy as np
    from lsl.reader.base import FrameTimestamp as T
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        tt = tags(rng)
        dt = rng.choice([0, 1, -1, 2, 40960, FS, -FS, FS * DAY, rng.randrange(-FS * 10, FS * 10), rng.randrange(-10**15, 10**15)])
        t2 = tt + dt if rng.random() < 0.7 else tags(rng)
        if t2 < 10957 * DAY * FS:
            t2 = 10957 * DAY * FS
        with m.case({'i': i, 'timetag': tt, 'other': t2}):
            a, b = T.from_dp_timetag(tt), T.from_dp_timetag(t2)
            m.event('roundtrips')
            m.equal(a.dp_timetag, tt, 'dp_timetag')
            off = rng.choice([0, 6660, 1, 65535])
            c = T.from_dp_timetag(rng.choice([int, np.int64, np.uint64])(tt), off)
            m.equal(c.dp_timetag, tt - off, 'dp_timetag-offset')
            day, rem = divmod(tt, DAY * FS)
            sec, tick = divmod(rem, FS)
            # floating point views, to the resolution of a double
            m.check(abs(a.unix - tt / FS) <= 3e-7 and float(a) == a.unix, 'unix', 'unix %r, expected %r' % (a.unix, tt / FS))
            m.check(abs(a.mjd - (40587 + rem / FS / DAY + day)) <= 2e-11, 'mjd', 'mjd %r' % a.mjd)
            m.check(abs(a.jd - (2440587.5 + day + rem / FS / DAY)) <= 1e-9, 'jd', 'jd %r' % a.jd)
            m.check(abs(a[0] + a[1] - tt / FS) <= 3e-7 and isinstance(a[0], int) and 0 <= a[1] < 1, 'index', '%r %r' % (a[0], a[1]))
            pm = a.pulsar_mjd
            m.check(0 <= pm[1] < DAY and 0 <= pm[2] < 1 and pm[1] == int(pm[1]) and pm[0] == int(pm[0]), 'pulsar_mjd-range', '%r' % (pm,))
            m.check(abs(((pm[0] - 40587) * DAY + pm[1] - tt // FS) + (pm[2] - tick / FS)) < 1e-9, 'pulsar_mjd', '%r for day %d s %d tick %d' % (pm, day, sec, tick))
            if abs(pm[2] - tick / FS) < 0.5:
                m.check(pm[0] == 40587 + day and pm[1] == sec, 'pulsar_mjd-day', '%r for day %d s %d tick %d' % (pm, day, sec, tick))
            leapday = (day + 1) in LEAPS
            if not leapday:
                m.check(abs(T.from_pulsar_mjd(*pm).dp_timetag - tt) <= 1, 'from_pulsar_mjd', 'off by %d ticks' % (T.from_pulsar_mjd(*pm).dp_timetag - tt))
                mpm = rem * 1000 // FS
                q = T.from_mjd_mpm(40587 + day, mpm)
                m.check(abs(q.dp_timetag - ((day * DAY * 1000 + mpm) * FS // 1000)) <= 1, 'from_mjd_mpm', 'mjd %d mpm %d off by %d ticks' % (40587 + day, mpm, q.dp_timetag - ((day * DAY * 1000 + mpm) * FS // 1000)))
                ref = datetime(1970, 1, 1) + timedelta(days=day, seconds=sec, microseconds=tick / 196.0)
                m.check(abs((a.datetime - ref).total_seconds()) <= 2e-6, 'datetime', '%s, expected %s' % (a.datetime, ref))
                m.check(a.utc_datetime == a.datetime.replace(tzinfo=timezone.utc), 'utc_datetime')
                m.equal(T.from_astropy(a.astropy).dp_timetag, tt, 'from_astropy')
                # TAI - UTC
                nl = 32 + sum(day >= L for L in LEAPS)
                m.check(abs((a.tai_mjd - a.mjd) * DAY - nl) < 5e-6, 'tai_mjd', 'TAI-UTC = %r, expected %d' % ((a.tai_mjd - a.mjd) * DAY, nl))
                # a plain number of seconds, split or not
                s, f = divmod(tt, FS)
                m.equal(T(s, f / FS).dp_timetag, tt, 'constructor')
                k = rng.choice([-3, -1, 1, 2, 5])
                m.check(abs(T(s - k, k + f / FS).dp_timetag - tt) <= 1, 'constructor-carry', 'T(%d, %r) off by %d ticks' % (s - k, k + f / FS, T(s - k, k + f / FS).dp_timetag - tt))
                m.check(abs(T(tt / FS).dp_timetag - tt) <= 60, 'constructor-float', 'off by %d ticks' % (T(tt / FS).dp_timetag - tt))
            # order is the order of the time tags
            m.event('orders')
            got = (a < b, a <= b, a > b, a >= b, a == b, a != b)
            want = (tt < t2, tt <= t2, tt > t2, tt >= t2, tt == t2, tt != t2)
            m.check(got == want, 'order', '%d vs %d (difference %d ticks): %s' % (tt, t2, t2 - tt, got))
            x = tt / FS
            m.check((a < x + 1) and (a > x - 1) and not (a == x + 1), 'order-number')
            # arithmetic
            day2 = t2 // (DAY * FS)
            if not leapday and (day2 + 1) not in LEAPS:
                m.event('sums')
                nl = sum(min(day, day2) < L <= max(day, day2) for L in LEAPS)
                d = (t2 - tt) / FS + (nl if t2 > tt else -nl)
                m.check(abs((b - a) - d) <= 1e-9 + 1e-14 * abs(d), 'difference', 'b-a = %r, expected %r' % (b - a, d))
                m.check((a - b) == -(b - a) or abs((a - b) + (b - a)) < 1e-10, 'difference-antisymmetric')
                lim = FS * 3600
                if abs(t2 - tt) < lim and nl == 0:
                    e = (t2 - tt) / FS
                    for s in (a + e, a - (-e)):
                        m.check(abs(s.dp_timetag - t2) <= 1, 'sum', 'off by %d ticks' % (s.dp_timetag - t2))
                    u = T.from_dp_timetag(tt)
                    v = u
                    keep = u.astropy
                    u += e
                    m.check(abs(u.dp_timetag - t2) <= 1 and abs(T.from_astropy(keep).dp_timetag - tt) == 0, 'in-place-sum')
                    u -= e
                    m.check(abs(u.dp_timetag - tt) <= 1, 'in-place-difference')
                    s = a + timedelta(seconds=7)
                    m.check(abs(s.dp_timetag - (tt + 7 * FS)) <= 1 or (tt + 7 * FS) // (DAY * FS) != day, 'sum-timedelta')
                    s = a - timedelta(milliseconds=5)
                    m.check(abs(s.dp_timetag - (tt - FS // 200)) <= 1 or (tt - FS // 200) // (DAY * FS) != day, 'difference-timedelta')
                m.equal(a.dp_timetag, tt, 'operand-changed')
            m.equal('{:.6f}'.format(a), '%.6f' % float(a), 'format')
            m.equal('{:d}'.format(a), '%d' % a[0], 'format')
            if not leapday:
                m.equal((str(a), '{}'.format(a)), (str(a.datetime), str(a.datetime)), 'format')
            y = rng.choice([float, np.float64])(float(a))
            m.check((a < y, a <= y, a > y, a >= y, a == y, a != y) == (False, True, False, True, True, False), 'order-number', 'against its own value as a number: %s' % ((a < y, a <= y, a > y, a >= y, a == y, a != y),))
            y = int(tt // FS) + 1 - (a[1] > 0.999999)
            m.check(a < y or a == y, 'order-number', 'against %d' % y)
            for bad in ('x', None, [1]):
                m.raises((TypeError,), lambda: a + bad, 'type-error')
                m.raises((TypeError,), lambda: a < bad, 'type-error')


def frames(m, n):
    """Frames sort by time, and a frame's time is its time tag less the time offset of the DRX and DR spectrometer formats."""
    import io
    import numpy as np
    from vf import frames as F
    from lsl.reader import drx, drx8, tbx, cor, drspec
    z = np.zeros(4096, int)
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        kind = rng.choice(['drx', 'drx8', 'tbx', 'cor', 'drspec'])
        base = tags(rng)
        tts = [base + rng.choice([0, 1, -1, 40960, rng.randrange(10**10)]) for _ in range(6)]
        off = rng.choice([0, 6660, 1]) if kind in ('drx', 'drx8', 'drspec') else 0
        with m.case({'i': i, 'kind': kind, 'timetags': tts, 'offset': off}):
            fr = []
            for t in tts:
                if kind == 'drx':
                    f = drx.read_frame(io.BytesIO(F.drx(z, z, timetag=t, time_offset=off)))
                elif kind == 'drx8':
                    f = drx8.read_frame(io.BytesIO(F.drx8(z, z, timetag=t, time_offset=off)))
                elif kind == 'tbx':
                    f = tbx.read_frame(io.BytesIO(F.tbx(np.zeros((4, 64, 2), int), np.zeros((4, 64, 2), int), 64, 4, timetag=t)))
                elif kind == 'cor':
                    f = cor.read_frame(io.BytesIO(F.cor(np.zeros((33, 2, 2)), 1, 2, timetag=t)))
                else:
                    f = drspec.read_frame(io.BytesIO(F.drspec(np.zeros((2, 32, 2)), timetag=t, time_offset=off)))
                m.equal(f.time.dp_timetag, t - off, kind + ':frame-time')
                fr.append(f)
            m.equal([f.payload.timetag for f in sorted(fr)], sorted(tts), kind + ':frame-sort')
            for x, tx in zip(fr, tts):
                for y, ty in zip(fr, tts):
                    m.event('orders')
                    m.check((x < y, x == y, x > y) == (tx < ty, tx == ty, tx > ty), kind + ':frame-order')


JOBS = {'stamps%d' % k: (stamps, 'plain', 1200) for k in range(6)}
JOBS.update({'frames%d' % k: (frames, 'plain', 150) for k in range(2)})
