"""C26 - angles, calendars, time scales and sky coordinates."""
import math
from datetime import datetime, timedelta
from fractions import Fraction

RULE = ('random and boundary angles, dates, time scales and positions through every conversion of lsl.astro and lsl.transform, compared with exact rational arithmetic, a leap second table, '
        'rotation matrices, closed-form geodesy and PyEphem, and with their inverses; random operation sequences on the value classes, which must refuse what is out of range and survive copying and pickling; '
        'rise, set and transit times judged by the altitude at them; distinct = distinct inputs')
OPTS = {'scale': 3}
NEED = {'angles': 4000, 'dates': 1500, 'scales': 1500, 'positions': 500, 'horizontal': 200, 'instants': 800, 'copies': 400, 'risings': 30, 'never_up': 5, 'refused': 500, 'planets': 40}
ASSUMPTIONS = ['dates from 1972 to 2024, for which the installed Earth orientation table is final', 'days that end in a leap second are left out where a float day cannot express them',
               'solar system bodies are computed with the builtin ephemeris of astropy, as the default one cannot be downloaded']
LEAP = [(1972, 1, 10), (1972, 7, 11), (1973, 1, 12), (1974, 1, 13), (1975, 1, 14), (1976, 1, 15), (1977, 1, 16), (1978, 1, 17), (1979, 1, 18), (1980, 1, 19), (1981, 7, 20), (1982, 7, 21), (1983, 7, 22),
        (1985, 7, 23), (1988, 1, 24), (1990, 1, 25), (1991, 1, 26), (1992, 7, 27), (1993, 7, 28), (1994, 7, 29), (1996, 1, 30), (1997, 7, 31), (1999, 1, 32), (2006, 1, 33), (2009, 1, 34), (2012, 7, 35), (2015, 7, 36), (2017, 1, 37)]
DAY = 86400
US = 10**6
E0 = datetime(1858, 11, 17)
LEAPD = {((datetime(y, mo, 1) - E0).days - 1) for y, mo, _ in LEAP}      # MJDs that end in a leap second
FS = 196000000


def tai_utc(mjd):
    n = None
    for y, mo, v in LEAP:
        if (datetime(y, mo, 1) - E0).days <= mjd:
            n = v
    return n


def instant(rng, lo=41317, hi=60400):
    """(mjd, microseconds of the day), with boundaries, not on a day that ends in a leap second"""
    while True:
        mjd = rng.choice([rng.randrange(lo, hi), rng.randrange(lo, hi), rng.choice(sorted(LEAPD)) + 1, rng.choice(sorted(LEAPD)) + 2])
        if lo <= mjd < hi and mjd not in LEAPD:
            break
    us = rng.choice([0, 1, 500, 500000, 999999, 86399999999, 86399999500, 43200000000, rng.randrange(DAY * US), rng.randrange(DAY) * US, rng.randrange(86400000) * 1000 + 999, rng.randrange(DAY) * US + 999700])
    return mjd, us


def vec(lng, lat):
    return (math.cos(lat) * math.cos(lng), math.cos(lat) * math.sin(lng), math.sin(lat))


def dvec(lng, lat):
    return vec(math.radians(lng), math.radians(lat))


def sep(a, b):
    c = (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
    return math.degrees(math.atan2(math.sqrt(sum(x * x for x in c)), sum(x * y for x, y in zip(a, b))))


def refuse(m, exc, fn, mech, msg=''):
    m.event('refused')
    return m.raises(exc, fn, mech, msg)


def near(m, got, want, tol, mech, msg=''):
    return m.check(abs(got - want) <= tol, mech, '%s: %r, not %r' % (msg, got, want))


def same(m, got, want, mech, msg=''):
    return m.check(got == want, mech, '%s: %r, not %r' % (msg, got, want))


def draw_dir(rng):
    return (rng.choice([0.0, 359.999999, 180.0, 90.0, rng.uniform(0, 360), rng.uniform(0, 360), rng.uniform(0, 360)]),
            rng.choice([-89.99, 89.99, 0.0, math.degrees(math.asin(rng.uniform(-1, 1))), math.degrees(math.asin(rng.uniform(-1, 1))), math.degrees(math.asin(rng.uniform(-1, 1)))]))


# ---------------------------------------------------------------------------------------------------------------------
def angles(m, n):
    from lsl import astro as A
    for i in range(m.n(n)):
        rng = m.rng(i)
        h, mi = rng.randrange(0, 24), rng.choice([0, 59, rng.randrange(60)])
        s = rng.choice([0.0, 59.999999999, 59.9996, rng.uniform(0, 60), float(rng.randrange(60))])
        d = rng.choice([0, 89, 359, rng.randrange(360)])
        neg = rng.random() < 0.5
        with m.case(('sexa', h, mi, s, d, neg)):
            exact = (Fraction(h) + Fraction(mi, 60) + Fraction(s) / 3600) * 15
            x = A.hms(h, mi, s)
            near(m, x.to_deg(), float(exact), 1e-12, 'hms-deg', 'hms(%r,%r,%r)' % (h, mi, s))
            near(m, x.to_rad(), math.radians(float(exact)), 1e-13, 'hms-rad', '')
            near(m, x.to_sec(), float(exact) / 15 * 3600, 1e-9, 'hms-sec', '')
            dx = Fraction(d) + Fraction(mi, 60) + Fraction(s) / 3600
            y = A.dms(neg, d, mi, s)
            val = float(-dx if neg else dx)
            near(m, y.to_deg(), val, 1e-12, 'dms-deg', 'dms(%r,%r,%r,%r)' % (neg, d, mi, s))
            near(m, y.to_rad(), math.radians(val), 1e-13, 'dms-rad', '')
            near(m, (-y).to_deg(), -val, 1e-12, 'dms-neg', '')
            # and back, also for angles a rounding error away from whole minutes and degrees
            for v in (val, math.nextafter(val, 1e9), math.nextafter(val, -1e9), d + mi / 60.0, math.nextafter(d + mi / 60.0, -1.0), math.nextafter(d + mi / 60.0, 1e9)):
                m.event('angles')
                z = A.deg_to_dms(v)
                ok = isinstance(z.degrees, int) and isinstance(z.minutes, int) and 0 <= z.minutes <= 59 and 0 <= z.seconds < 60.0001 and bool(z.neg) == (v < 0)
                m.check(ok and abs((-1 if z.neg else 1) * (z.degrees + z.minutes / 60.0 + z.seconds / 3600.0) - v) < 1e-10, 'deg-dms', 'deg_to_dms(%r) is %r' % (v, z))
                z = A.rad_to_dms(math.radians(v))
                m.check(abs((-1 if z.neg else 1) * (z.degrees + z.minutes / 60.0 + z.seconds / 3600.0) - v) < 1e-9, 'rad-dms', 'rad_to_dms of %r deg is %r' % (v, z))
            hv = float(exact)
            for v in (hv, math.nextafter(hv, -1.0), math.nextafter(hv, 1e9), (h + mi / 60.0) * 15, math.nextafter((h + mi / 60.0) * 15, -1.0)):
                if not 0 <= v < 360:
                    continue
                m.event('angles')
                z = A.deg_to_hms(v)
                m.check(0 <= z.hours <= 23 and 0 <= z.minutes <= 59 and 0 <= z.seconds < 60.0001, 'deg-hms-range', 'deg_to_hms(%r) is %r' % (v, z))
                e = (z.hours + z.minutes / 60.0 + z.seconds / 3600.0) * 15 - v
                m.check(abs(e) < 1e-9, 'deg-hms', 'deg_to_hms(%r) is %r' % (v, z))
                z = A.rad_to_hms(math.radians(v))
                e = ((z.hours + z.minutes / 60.0 + z.seconds / 3600.0) * 15 - v + 180) % 360 - 180
                m.check(abs(e) < 1e-9, 'rad-hms', 'rad_to_hms of %r deg is %r' % (v, z))
            # angles outside of one turn
            v = hv + 360.0 * rng.choice([-2, -1, 1, 2])
            z = A.deg_to_hms(v)
            e = ((z.hours + z.minutes / 60.0 + z.seconds / 3600.0) * 15 - v + 180) % 360 - 180
            m.check(abs(e) < 1e-9, 'deg-hms-wrap', 'deg_to_hms(%r) is %r' % (v, z))
            m.check(abs((x.to_dms().to_deg() - hv)) < 1e-9, 'hms-dms', 'hms.to_dms of %r is %r' % (x, x.to_dms()))
            sec = rng.choice([0.0, 1.0, -1.0, rng.uniform(-90000, 90000)])
            z = A.add_secs_hms(x, sec)
            m.check(abs((z.to_deg() - hv - sec / 240 + 180) % 360 - 180) < 1e-9 and x.to_deg() == A.hms(h, mi, s).to_deg(), 'add-seconds', '%r + %r s is %r' % (x, sec, z))
            o = A.hms(rng.randrange(24), rng.randrange(60), rng.uniform(0, 60))
            od = o.to_deg()
            z = A.hms(h, mi, s)
            z += o
            m.check(abs((z.to_deg() - hv - od + 180) % 360 - 180) < 1e-9 and o.to_deg() == od, 'add-hms', '%r += %r gives %r' % (x, o, z))
            z = A.hms(h, mi, s)
            w = A.add_hms(o, z)
            m.check(abs((w.to_deg() - hv - od + 180) % 360 - 180) < 1e-9 and o.to_deg() == od, 'add-hms-function', '%r + %r gives %r' % (x, o, w))
            # order
            y2 = A.dms(rng.random() < 0.5, rng.randrange(360), rng.randrange(60), rng.uniform(0, 60))
            for a, b in ((y, y2), (x, o), (x, y2), (y, 12.5), (x, 100)):
                bv = b.to_deg() if hasattr(b, 'to_deg') else b
                m.check((a < b) == (a.to_deg() < bv) and (a == b) == (a.to_deg() == bv) and (a >= b) == (a.to_deg() >= bv) and (a != b) == (a.to_deg() != bv), 'angle-order', '%r ? %r' % (a, b))
            for v in (rng.uniform(-1e4, 1e4), 360.0, -360.0, 0.0, 24.0, -24.0, -48.0, 23.999999999):
                q = A.range_degrees(v)
                m.check(0 <= q <= 360 and abs((q - v + 180) % 360 - 180) < 1e-9, 'range-degrees', 'range_degrees(%r) is %r' % (v, q))
                q = A.range_hours(v)
                m.check((0 <= q < 24 or abs(v) < 1e-12) and abs((q - v + 12) % 24 - 12) < 1e-9, 'range-hours', 'range_hours(%r) is %r' % (v, q))
            near(m, A.deg_to_sec(val), val * 240.0, 1e-8, 'deg-sec', '')
            near(m, A.rad_to_deg(A.deg_to_rad(val)), val, 1e-12, 'rad-deg', '')
            refuse(m, ValueError, lambda: A.hms(rng.choice([24, -1]), 0, 0.0), 'hms-hours')
            refuse(m, ValueError, lambda: A.hms(0, rng.choice([60, -1]), 0.0), 'hms-minutes')
            refuse(m, ValueError, lambda: A.hms(0, 0, rng.choice([60.0, -0.001])), 'hms-seconds')
            refuse(m, ValueError, lambda: A.dms(False, rng.choice([360, -1]), 0, 0.0), 'dms-degrees')
            refuse(m, ValueError, lambda: A.dms(False, 0, rng.choice([60, -1]), 0.0), 'dms-minutes')
            refuse(m, ValueError, lambda: A.dms(False, 0, 0, rng.choice([60.0, -0.001])), 'dms-seconds')


def dates(m, n):
    from lsl import astro as A
    for i in range(m.n(n)):
        rng = m.rng(i)
        mjd, us = instant(rng)
        t = E0 + timedelta(days=mjd, microseconds=us)
        sec = t.second + t.microsecond / 1e6
        D = lambda: A.date(t.year, t.month, t.day, t.hour, t.minute, sec)
        with m.case(('date', mjd, us)):
            m.event('dates')
            d = D()
            jd = 2400000.5 + mjd + us / 8.64e10
            near(m, d.to_jd(), jd, 2e-9, 'date-jd', str(d))
            near(m, A.get_julian_day(d), jd, 2e-9, 'date-jd', str(d))
            if us < DAY * US - 100:
              m.check(A.get_day_of_week(d) == (t.isoweekday() % 7), 'day-of-week', '%s is day %r' % (t, A.get_day_of_week(d)))
            b = A.get_date(jd)
            bt = datetime(b.years, b.months, b.days, b.hours, b.minutes) + timedelta(seconds=b.seconds)
            m.check(abs((bt - t).total_seconds()) < 1e-4 and 0 <= b.seconds < 60, 'jd-date', '%s came back as %r' % (t, b))
            off = rng.choice([0, 3600, -3600, 19800, -25200, 43200, -43200, rng.randrange(-43200, 43201)])
            z = d.to_zone(off)
            zt = datetime(z.years, z.months, z.days, z.hours, z.minutes) + timedelta(seconds=z.seconds)
            m.check(abs((zt - t).total_seconds() - off) < 2e-6 and z.gmtoff == off and 0 <= z.seconds < 60, 'to-zone', '%s at %+d s is %r' % (t, off, z))
            m.check(str(d) == str(D()), 'zone-changed-date', '')
            w = z.to_date()
            wt = datetime(w.years, w.months, w.days, w.hours, w.minutes) + timedelta(seconds=w.seconds)
            m.check(abs((wt - t).total_seconds()) < 4e-6 and 0 <= w.seconds < 60, 'zone-to-date', '%s came back from its zone as %r' % (t, w))
            near(m, z.to_jd(), jd, 2e-9, 'zone-jd', '%r' % z)
            # order
            mjd2, us2 = rng.choice([(mjd, us), (mjd, (us + 1000000) % (DAY * US)), instant(rng)])
            t2 = E0 + timedelta(days=mjd2, microseconds=us2)
            d2 = A.date(t2.year, t2.month, t2.day, t2.hour, t2.minute, t2.second + t2.microsecond / 1e6)
            if abs((t2 - t).total_seconds()) > 1e-4 or t2 == t:
                for b in (d2, d2.to_zone(off)) if t2 != t else (d2,):
                    m.check((d < b) == (t < t2) and (d > b) == (t > t2) and (d == b) == (t == t2), 'date-order', '%s ? %s' % (t, b))
                if t2 != t:
                    for b in (d2, d2.to_zone(-off // 2)):
                        m.check((z < b) == (t < t2) and (z > b) == (t > t2) and (z <= b) == (t < t2) and (z >= b) == (t > t2) and (z == b) is False and z != b, 'date-order', '%r ? %r' % (z, b))
            # strings
            e = A.date()
            e.load('%04d-%02d-%02d' % (t.year, t.month, t.day), '%02d:%02d:%09.6f' % (t.hour, t.minute, sec))
            m.check((e.years, e.months, e.days, e.hours, e.minutes) == (t.year, t.month, t.day, t.hour, t.minute) and abs(e.seconds - sec) < 1e-9, 'date-load', '%s loaded as %r' % (t, e))
            for ds, ts in (('2020-13-01', '00:00:00'), ('2020-01-32', '00:00:00'), ('2020-01-01', '24:00:00'), ('2020-01-01', '00:60:00'), ('2020-01-01', '00:00:60.0'), ('2020-01-01', '00:00:-1'), ('x', '00:00:00'), ('2020-01-01', 'y')):
                before = repr(e)
                refuse(m, ValueError, lambda: e.load(ds, ts), 'date-load-refuse', '%s %s' % (ds, ts))
                same(m, repr(e), before, 'date-load-half', '%s %s' % (ds, ts))
            ut = (mjd - 40587) * DAY + us / 1e6
            near(m, A.get_julian_from_timet(ut), jd, 2e-9, 'timet-jd', '')
            near(m, A.get_timet_from_julian(jd), ut, 1e-4, 'jd-timet', '')
            near(m, A.unix_to_utcjd(ut), jd, 2e-9, 'unix-jd', '')
            near(m, A.utcjd_to_unix(jd), ut, 1e-4, 'jd-unix', '')


def scales(m, n):
    from lsl import astro as A
    for i in range(m.n(n)):
        rng = m.rng(i)
        mjd, us = instant(rng)
        with m.case(('scale', mjd, us)):
            m.event('scales')
            jd = 2400000.5 + mjd + us / 8.64e10
            mj = mjd + us / 8.64e10
            L = tai_utc(mjd)
            eps = 2e-9
            if 1000 < us < DAY * US - 1000:          # a float day cannot tell the last 40 us of a day from the next day
                m.check(A.leap_secs(jd) == L, 'leap-seconds', 'leap_secs(%r) is %r, not %r' % (jd, A.leap_secs(jd), L))
                near(m, A.utc_to_tai(jd), jd + L / 86400.0, eps, 'utc-tai', '')
                near(m, A.utcjd_to_taimjd(jd), mj + L / 86400.0, eps, 'utc-taimjd', '')
                near(m, A.utc_to_tt(jd), jd + (L + 32.184) / 86400.0, eps, 'utc-tt', '')
            if 1000 < us < (DAY - 100) * US and mjd - 1 not in LEAPD:
                near(m, A.tai_to_utc(jd + L / 86400.0), jd, eps, 'tai-utc', '')
                near(m, A.taimjd_to_utcjd(mj + L / 86400.0), jd, eps, 'taimjd-utc', '')
                near(m, A.tt_to_utc(jd + (L + 32.184) / 86400.0), jd, eps, 'tt-utc', '')
                ut = (mjd - 40587) * DAY + us / 1e6
                near(m, A.unix_to_taimjd(ut), mj + L / 86400.0, eps, 'unix-taimjd', '')
                near(m, A.taimjd_to_unix(mj + L / 86400.0), ut, 1e-4, 'taimjd-unix', '')
            near(m, A.tai_to_tt(jd), jd + 32.184 / 86400, eps, 'tai-tt', '')
            near(m, A.tt_to_tai(jd), jd - 32.184 / 86400, eps, 'tt-tai', '')
            g = math.radians(357.53 + 0.98560028 * (jd - 2451545.0))
            near(m, A.tt_to_tdb(jd), jd + (0.001658 * math.sin(g) + 0.000014 * math.sin(2 * g)) / 86400, 3e-9, 'tt-tdb', 'tt_to_tdb is off by %.3f s' % ((A.tt_to_tdb(jd) - jd) * 86400))
            near(m, A.jd_to_mjd(jd), mj, 1e-9, 'jd-mjd', '')
            near(m, A.mjd_to_jd(mj), jd, 1e-9, 'mjd-jd', '')
            near(m, A.jd_to_sec(mj), mj * 86400, 1e-4, 'jd-sec', '')
            near(m, A.sec_to_jd(us / 1e6), us / 8.64e10, 1e-12, 'sec-jd', '')
            refuse(m, ValueError, lambda: A.jd_to_mjd(2400000.4 - rng.uniform(0, 1000)), 'jd-mjd-refuse')
            refuse(m, ValueError, lambda: A.mjd_to_jd(-rng.uniform(1e-6, 1000)), 'mjd-jd-refuse')
            refuse(m, ValueError, lambda: A.leap_secs(2441317.4 - rng.uniform(0, 1000)), 'leap-refuse')
            # sidereal time: GMST (IAU 1982) with UT1 = UTC to 1 s
            T = (math.floor(jd - 0.5) + 0.5 - 2451545.0) / 36525
            ut1 = (jd - 0.5) % 1.0
            gm = (24110.54841 + 8640184.812866 * T + 0.093104 * T * T + 1.00273790935 * ut1 * 86400) / 3600 % 24
            w = lambda a, b: abs((a - b + 12) % 24 - 12) * 3600
            m.check(w(A.get_mean_sidereal_time(jd), gm) < 1.5, 'gmst', '%r, not %r' % (A.get_mean_sidereal_time(jd), gm))
            m.check(w(A.get_apparent_sidereal_time(jd), gm) < 3.0, 'gast', '')
            lng = rng.uniform(-359.9, 359.9)
            l = A.get_local_sidereal_time(lng, jd)
            m.check(0 <= l < 24 and w(l, gm + lng / 15) < 3.0, 'lst', 'LST at %r is %r, not %r' % (lng, l, (gm + lng / 15) % 24))


# ---------------------------------------------------------------------------------------------------------------------
GAL = ((-0.0548755604162154, -0.8734370902348850, -0.4838350155487132), (0.4941094278755837, -0.4448296299600112, 0.7469822444972189), (-0.8676661490190047, -0.1980763734312015, 0.4559837761750669))


def rot(M, v):
    return tuple(sum(a * b for a, b in zip(r, v)) for r in M)


def prec(v, t0, t1):
    """IAU 1976 precession of a vector from Julian year t0 to t1."""
    T, t = (t0 - 2000.0) / 100, (t1 - t0) / 100
    s = math.pi / 180 / 3600
    ze = ((2306.2181 + 1.39656 * T - 0.000139 * T * T) * t + (0.30188 - 0.000344 * T) * t * t + 0.017998 * t**3) * s
    z = ((2306.2181 + 1.39656 * T - 0.000139 * T * T) * t + (1.09468 + 0.000066 * T) * t * t + 0.018203 * t**3) * s
    th = ((2004.3109 - 0.85330 * T - 0.000217 * T * T) * t - (0.42665 + 0.000217 * T) * t * t - 0.041833 * t**3) * s
    rz = lambda a: ((math.cos(a), math.sin(a), 0), (-math.sin(a), math.cos(a), 0), (0, 0, 1))
    ry = lambda a: ((math.cos(a), 0, -math.sin(a)), (0, 1, 0), (math.sin(a), 0, math.cos(a)))
    return rot(rz(-z), rot(ry(th), rot(rz(-ze), v)))


def positions(m, n):
    from lsl import astro as A
    import ephem
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        ra, dec = draw_dir(rng)
        mjd, us = instant(rng, 45000, 60300)
        jd = 2400000.5 + mjd + us / 8.64e10
        yr = 2000 + (jd - 2451545.0) / 365.25
        with m.case(('position', ra, dec, jd)):
            m.event('positions')
            p = A.equ_posn(ra, dec)
            v = dvec(ra, dec)
            chk = lambda q, w, tol, mech: m.check(sep(dvec(q[0], q[1]), w) < tol, mech, '%r of (%r, %r) is %.3g deg off' % (q, ra, dec, sep(dvec(q[0], q[1]), w)))
            g = A.get_gal_from_equ(p)
            chk(g, rot(GAL, v), 1e-4, 'equ-gal')
            chk(A.get_equ_from_gal(g), v, 1e-8, 'gal-equ-inverse')
            chk(A.get_equ_from_gal(A.gal_posn(g.l, g.b)), v, 1e-8, 'gal-equ')
            for _ in range(2):
                l2, b2 = draw_dir(rng)
                gp = A.gal_posn(rng.choice([l2, l2 - 360.0]) if l2 else l2, b2)
                q = A.get_gal_from_equ(A.get_equ_from_gal(gp))
                m.check(sep(dvec(q.l, q.b), dvec(l2, b2)) < 1e-8, 'gal-inverse', '%r' % q)
                m.check(0 <= q.l < 360, 'gal-range', '%r' % q)
            e = A.get_ecl_from_equ(p, jd)
            ob = math.radians(23.4392911)
            chk(e, rot(((1, 0, 0), (0, math.cos(ob), math.sin(ob)), (0, -math.sin(ob), math.cos(ob))), v), 0.02, 'equ-ecl')      # aberration and nutation
            chk(A.get_equ_from_ecl(e, jd), v, 1e-7, 'ecl-equ-inverse')
            chk(A.get_equ_from_ecl(A.ecl_posn(e.lng, e.lat), jd), v, 1e-7, 'ecl-equ')
            chk(A.get_equ_prec(p, jd), prec(v, 2000.0, yr), 2e-4, 'precess')
            chk(p.precess(jd), prec(v, 2000.0, yr), 2e-4, 'precess-method')
            y2 = rng.uniform(1985, 2024)
            j2 = 2451545.0 + (y2 - 2000) * 365.25
            chk(A.get_equ_prec2(A.equ_posn(ra, dec), jd, j2), prec(v, yr, y2), 2e-4, 'precess-two')
            chk(A.get_precession(jd, A.equ_posn(ra, dec), j2), prec(v, yr, y2), 2e-4, 'precession')
            q = A.get_equ_prec2(A.get_equ_prec2(A.equ_posn(ra, dec), jd, j2), j2, jd)
            chk(q, v, 1e-8, 'precess-inverse')
            gq = A.equ_posn(ra, dec).to_gal(jd)
            chk(gq, rot(GAL, prec(v, yr, 2000.0)), 4e-4, 'apparent-gal')
            chk(gq.to_equ(jd), v, 1e-7, 'gal-apparent-inverse')
            be = ephem.Equatorial(ephem.Equatorial(math.radians(ra), math.radians(dec), epoch=ephem.J2000), epoch=ephem.B1950)
            b = A.J2000_to_B1950(p)
            chk(b, vec(be.ra, be.dec), 0.012, 'b1950')
            chk(A.B1950_to_J2000(b), v, 1e-6, 'b1950-inverse')
            chk(A.B1950_to_J2000(A.equ_posn(b.ra, b.dec)), v, 1e-6, 'b1950-j2000')
            same(m, (p.ra, p.dec), (ra, dec), 'input-changed', '')
            # rectangular
            r = A.get_rect_from_equ(p)
            m.check(max(abs(a - b) for a, b in zip((r.X, r.Y, r.Z), v)) < 1e-12, 'equ-rect', repr(r))
            k = rng.uniform(0.1, 100)
            chk(A.get_equ_from_rect(A.rect_posn(v[0] * k, v[1] * k, v[2] * k)), v, 1e-8, 'rect-equ')
            chk(A.get_ecl_from_rect(A.rect_posn(v[0] * k, v[1] * k, v[2] * k)), v, 1e-8, 'rect-ecl')
            # separations and position angles
            ra2, dec2 = rng.choice([draw_dir(rng), ((ra + rng.uniform(-1e-3, 1e-3)) % 360, max(-90.0, min(90.0, dec + rng.uniform(-1e-3, 1e-3)))), (ra, dec)])
            p2 = A.equ_posn(ra2, dec2)
            want = sep(v, dvec(ra2, dec2))
            near(m, A.get_angular_separation(p, p2), want, 1e-7, 'separation', '(%r, %r) (%r, %r)' % (ra, dec, ra2, dec2))
            near(m, p.angular_separation(p2), want, 1e-7, 'separation', '')
            x = A.get_equ_from_gal(A.get_gal_from_equ(p2))
            near(m, A.get_angular_separation(p, x), want, 2e-7, 'separation-mixed', '(%r, %r) (%r, %r)' % (ra, dec, ra2, dec2))
            if 1e-4 < want < 179.99 and abs(dec) < 89.9:
                a1, d1, a2, d2 = map(math.radians, (ra, dec, ra2, dec2))
                pa = math.degrees(math.atan2(math.sin(a2 - a1) * math.cos(d2), math.cos(d1) * math.sin(d2) - math.sin(d1) * math.cos(d2) * math.cos(a2 - a1)))
                m.check(abs((A.get_rel_posn_angle(p, p2) - pa + 180) % 360 - 180) < 2e-3, 'position-angle', '%r, not %r' % (A.get_rel_posn_angle(p, p2), pa))
            # apparent places and proper motions
            o = ephem.FixedBody()
            o._ra, o._dec = math.radians(ra), math.radians(dec)
            o.compute(ephem.Date(jd - 2415020.0), epoch=ephem.Date(jd - 2415020.0))
            ap = A.get_apparent_posn(p, jd)
            chk(ap, vec(o.g_ra, o.g_dec), 0.02, 'apparent')
            if abs(dec) < 75:
                pm = (rng.uniform(-9000, 9000), rng.uniform(-9000, 9000))
                mv = ((ra + pm[0] * (yr - 2000) / 3.6e6) % 360, dec + pm[1] * (yr - 2000) / 3.6e6)
                want = A.get_apparent_posn(A.equ_posn(*mv), jd)
                got = A.get_apparent_posn(A.equ_posn(ra, dec), jd, proper_motion=pm)
                m.check(sep(dvec(got.ra, got.dec), dvec(want.ra, want.dec)) < 1e-4, 'proper-motion', 'proper motion %r over %.1f yr: off by %.3f arcsec' % (pm, yr - 2000, 3600 * sep(dvec(got.ra, got.dec), dvec(want.ra, want.dec))))
                from astropy import units as u
                from astropy.coordinates import SkyCoord
                sc = SkyCoord(ra * u.deg, dec * u.deg, pm_ra_cosdec=pm[0] * math.cos(math.radians(dec)) * u.mas / u.yr, pm_dec=pm[1] * u.mas / u.yr, frame='fk5', equinox='J2000')
                ep = A.equ_posn.from_astropy(sc)
                near(m, ep.pm_ra, pm[0], 1e-6 * max(1, abs(pm[0])), 'pm-ra', '')
                near(m, ep.pm_dec, pm[1], 1e-6 * max(1, abs(pm[1])), 'pm-dec', '')
                got = A.get_apparent_posn(ep, jd)
                m.check(sep(dvec(got.ra, got.dec), dvec(want.ra, want.dec)) < 1e-4, 'proper-motion-own', 'proper motion %r over %.1f yr: off by %.3f arcsec' % (pm, yr - 2000, 3600 * sep(dvec(got.ra, got.dec), dvec(want.ra, want.dec))))
            # geodesy
            lng, lat = draw_dir(rng)
            lng = rng.choice([lng, lng - 360.0]) if lng else lng
            h = rng.choice([0.0, 2133.0, rng.uniform(-400, 9000)])
            a_, f_ = 6378137.0, 1 / 298.257223563
            e2 = f_ * (2 - f_)
            la, lo = math.radians(lat), math.radians(lng)
            N = a_ / math.sqrt(1 - e2 * math.sin(la)**2)
            want = ((N + h) * math.cos(la) * math.cos(lo), (N + h) * math.cos(la) * math.sin(lo), (N * (1 - e2) + h) * math.sin(la))
            r = A.get_rect_from_geo(A.geo_posn(lng, lat, h))
            m.check(max(abs(a - b) for a, b in zip((r.X, r.Y, r.Z), want)) < 1e-5, 'geo-rect', 'geo_posn(%r, %r, %r)' % (lng, lat, h))
            gg = A.get_geo_from_rect(A.rect_posn(*want))
            m.check(abs(gg.lat - lat) < 1e-9 and abs((gg.lng - lng + 180) % 360 - 180) < 1e-8 / max(1e-3, math.cos(la)) and abs(gg.elv - h) < 1e-4, 'rect-geo', '(%r, %r, %r) gives %r' % (lng, lat, h, gg))


def horizontal(m, n):
    from lsl import astro as A, transform as T
    import ephem
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        ra, dec = draw_dir(rng)
        mjd, us = instant(rng, 45000, 60300)
        jd = 2400000.5 + mjd + us / 8.64e10
        lng, lat, elv = rng.uniform(-359, 359), rng.choice([34.07, rng.uniform(-80, 80)]), rng.uniform(0, 3000)
        with m.case(('horizontal', ra, dec, jd, lng, lat)):
            m.event('horizontal')
            geo = A.geo_posn(lng, lat, elv)
            o = ephem.Observer()
            o.lon, o.lat, o.elevation, o.pressure = math.radians(lng), math.radians(lat), elv, 0
            o.date = jd - 2415020.0
            b = ephem.FixedBody()
            b._ra, b._dec = math.radians(ra), math.radians(dec)
            b.compute(o)
            w = vec(b.az, b.alt)
            p = A.equ_posn(ra, dec)
            h = A.get_hrz_from_equ(p, geo, jd)
            m.check(sep(dvec(h.az, h.alt), w) < 0.02 and 0 <= h.az < 360, 'equ-hrz', '%r is %.4f deg off' % (h, sep(dvec(h.az, h.alt), w)))
            h2 = p.to_hrz(geo, jd)
            m.check(h2 == h, 'equ-hrz-method', '%r %r' % (h, h2))
            q = A.get_equ_from_hrz(A.hrz_posn(h.az, h.alt), geo, jd)
            m.check(sep(dvec(q.ra, q.dec), dvec(ra, dec)) < 1e-6, 'hrz-equ', '%r' % q)
            q = h.to_equ(geo, jd)
            m.check(sep(dvec(q.ra, q.dec), dvec(ra, dec)) < 1e-6, 'hrz-equ-own', '%r' % q)
            dc = h.dir_cos()
            want = (math.cos(math.radians(h.alt)) * math.sin(math.radians(h.az)), math.cos(math.radians(h.alt)) * math.cos(math.radians(h.az)), math.sin(math.radians(h.alt)))
            m.check(max(abs(a - b) for a, b in zip(dc, want)) < 1e-12, 'direction-cosines', '%r' % (dc,))
            az = rng.choice([0.0, 44.999, 45.0, 134.999, 135.0, 224.999, 225.0, 314.999, 315.0, 359.999, rng.uniform(0, 360)])
            same(m, A.hrz_to_nswe(A.hrz_posn(az, 10.0)), 'NESW'[int(((az + 45) % 360) // 90)], 'nswe', repr(az))
            near(m, A.hrz_posn(az, -20.0).zen(), 110.0, 1e-12, 'zenith-angle', '')
            # the objects of transform
            fmt = rng.choice(['EQU', 'GAL', 'ECL', 'B1950'])
            if fmt == 'EQU':
                c = T.CelestialPosition(rng.choice([(ra, dec), p]), name='x')
            elif fmt == 'GAL':
                g = A.get_gal_from_equ(p)
                c = T.CelestialPosition(rng.choice([(g.l, g.b), g]), format='GAL')
            elif fmt == 'ECL':
                g = A.get_ecl_from_equ(p, 2451545.0)
                c = T.CelestialPosition(rng.choice([(g.lng, g.lat), g]), format='ECL')
            else:
                g = A.J2000_to_B1950(p)
                c = T.CelestialPosition(rng.choice([(g.ra, g.dec), g]), epoch='B1950')
            ok = lambda x, y, tol, mech: m.check(sep(dvec(*x), dvec(*y)) < tol, mech, '%s: %r, not %r' % (fmt, x, y))
            xy = lambda q: (q[0], q[1])
            ok(xy(c.j2000_equ), (ra, dec), 1e-6, 'celestial-equ')
            ok(xy(c.j2000_gal), xy(A.get_gal_from_equ(p)), 1e-6, 'celestial-gal')
            ok(xy(c.j2000_ecl), xy(A.get_ecl_from_equ(p, 2451545.0)), 1e-6, 'celestial-ecl')
            ok(xy(c.b1950_equ), xy(A.J2000_to_B1950(p)), 1e-3, 'celestial-b1950')
            t = T.Time(jd, format='JD')
            ok(xy(c.apparent_equ(t)), xy(A.get_apparent_posn(p, jd)), 1e-6, 'celestial-apparent')
            site = T.GeographicalPosition(rng.choice([(lng, lat, elv), geo]))
            if rng.random() < 0.5:
                site = T.GeographicalPosition(A.get_rect_from_geo(geo), format='ECEF')
            ok(xy(site.geo), (lng, lat), 1e-7, 'site-geo')
            r, r2 = site.ecef, A.get_rect_from_geo(geo)
            m.check(max(abs(r[k] - r2[k]) for k in range(3)) < 1e-3, 'site-ecef', '%r %r' % (r, r2))
            m.check(abs((site.sidereal(t) - A.get_local_sidereal_time(lng, jd) + 12) % 24 - 12) < 1e-6, 'site-sidereal', '')
            d = T.PointingDirection(c, site)
            ok(xy(d.hrz(t)), (math.degrees(b.az), math.degrees(b.alt)), 0.02, 'pointing')
            ok(xy(d.hrz(t)), xy(h), 1e-3, 'pointing-hrz')
            l, mm, nn = d.dir_cos(t)
            m.check(sep((mm, l, nn), dvec(h.az, h.alt)) < 1e-3, 'pointing-cosines', '')
            refuse(m, TypeError, lambda: d.hrz(jd), 'pointing-time')
            refuse(m, TypeError, lambda: setattr(d, 'source', p), 'pointing-source')
            refuse(m, TypeError, lambda: setattr(d, 'site', geo), 'pointing-site')


def planets(m, n):
    from lsl import astro as A, transform as T
    import ephem
    A.SOLAR_SYSTEM_EPHEMERIS_TO_USE = 'builtin'
    F = {'Sun': ('solar', ephem.Sun), 'Moon': ('lunar', ephem.Moon), 'Venus': ('venus', ephem.Venus), 'Mars': ('mars', ephem.Mars), 'Jupiter': ('jupiter', ephem.Jupiter), 'Saturn': ('saturn', ephem.Saturn)}
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        name = rng.choice(sorted(F))
        mjd, us = instant(rng, 45000, 60300)
        jd = 2400000.5 + mjd + us / 8.64e10
        lng, lat, elv = rng.uniform(-180, 180), rng.choice([34.07, rng.uniform(0, 55)]), rng.uniform(0, 3000)
        with m.case(('planet', name, jd, lng, lat)):
            m.event('planets')
            fn, body = getattr(A, 'get_%s_equ_coords' % F[name][0]), F[name][1]()
            body.compute(ephem.Date(jd - 2415020.0), epoch=ephem.Date(jd - 2415020.0))
            q = fn(jd)
            tol = 0.05
            m.check(sep(dvec(q.ra, q.dec), vec(body.g_ra, body.g_dec)) < tol, 'planet', '%s: %.4f deg off' % (name, sep(dvec(q.ra, q.dec), vec(body.g_ra, body.g_dec))))
            pp = T.PlanetaryPosition(name)
            t = T.Time(jd, format='JD')
            q2 = pp.apparent_equ(t)
            m.check(sep(dvec(q.ra, q.dec), dvec(q2.ra, q2.dec)) < 1e-6, 'planet-object', name)
            o = ephem.Observer()
            o.lon, o.lat, o.elevation, o.pressure = math.radians(lng), math.radians(lat), elv, 0
            o.date = jd - 2415020.0
            body.compute(o)
            h = T.PointingDirection(pp, T.GeographicalPosition((lng, lat, elv))).hrz(t)
            m.check(sep(dvec(h.az, h.alt), vec(body.az, body.alt)) < (1.2 if name == 'Moon' else 0.06), 'planet-pointing', '%s: %.4f deg off' % (name, sep(dvec(h.az, h.alt), vec(body.az, body.alt))))
            if i % 3 == 0 and name != 'Moon':
                r = getattr(A, 'get_%s_rst' % F[name][0])(jd, A.geo_posn(lng, lat, elv))
                judge_rst(m, r, jd, o, body, name, 0.15)
    refuse(m, ValueError, lambda: T.PlanetaryPosition('Pluto'), 'planet-name')


def judge_rst(m, r, jd, o, body, what, tol):
    """Rise and set are crossings of the horizon, transit is the highest point, all within a day of jd."""
    import ephem

    def alt(t):
        o.date = t - 2415020.0
        body.compute(o)
        return math.degrees(body.alt)
    if r is None:
        m.violation('rst-none', '%s rises and sets, but None was returned' % what)
        return
    d = 2.0 / 1440
    for k, s in (('rise', 1), ('set', -1)):
        t = float(getattr(r, k))
        m.check(jd - 0.02 <= t <= jd + 1.03, 'rst-day', '%s %s at %+.3f d' % (what, k, t - jd))
        m.check(abs(alt(t)) < tol and s * (alt(t + d) - alt(t - d)) > 0, 'rst-' + k, '%s: altitude at %s is %.3f deg' % (what, k, alt(t)))
    t = float(r.transit)
    m.check(jd - 0.02 <= t <= jd + 1.03, 'rst-day', '%s transit at %+.3f d' % (what, t - jd))
    # the altitude is symmetric about the transit
    import ephem
    e = 8.0 / 1440
    a, b, c = alt(t - e), alt(t), alt(t + e)
    if b < 65:                            # the cubic the code fits is good to a few seconds away from the zenith
        off = (a - c) / (2 * (a - 2 * b + c)) * e * 86400 if abs(a - 2 * b + c) > 1e-9 else 1e9
        m.check(b > a - 1e-6 and b > c - 1e-6 and abs(off) < 8, 'rst-transit', '%s: transit is %.1f s off' % (what, off))


def risings(m, n):
    from lsl import astro as A
    import ephem
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        lat = rng.choice([34.07, rng.uniform(5, 60), -rng.uniform(5, 60)])
        kind = rng.choice(['up', 'up', 'up', 'never', 'always'])
        lim = 90 - abs(lat)
        s = 1 if lat > 0 else -1
        if kind == 'up':
            dec = rng.uniform(-lim + 8, lim - 4) * s
        elif kind == 'never':
            dec = -s * rng.uniform(lim + 2, 89.5)
        else:
            dec = s * rng.uniform(lim + 2, 89.5)
        ra = rng.uniform(0, 360)
        lng = rng.uniform(-180, 180)
        jd = 2400000.5 + rng.uniform(45000, 60300)
        with m.case(('rst', kind, ra, dec, jd, lng, lat)):
            geo = A.geo_posn(lng, lat, rng.uniform(0, 3000))
            r = A.get_object_rst(jd, geo, A.equ_posn(ra, dec))
            if kind != 'up':
                m.event('never_up')
                m.check(r is None, 'rst-' + kind, 'dec %.2f at latitude %.2f: %r' % (dec, lat, r))
                continue
            m.event('risings')
            o = ephem.Observer()
            o.lon, o.lat, o.elevation, o.pressure = math.radians(lng), math.radians(lat), geo.elv, 0
            b = ephem.FixedBody()
            b._ra, b._dec = math.radians(ra), math.radians(dec)
            judge_rst(m, r, jd, o, b, 'dec %.2f at latitude %.2f' % (dec, lat), 0.1)


# ---------------------------------------------------------------------------------------------------------------------
def instants(m, n):
    from lsl import transform as T
    from astropy.time import Time as AT
    import copy, pickle
    for i in range(m.n(n)):
        rng = m.rng(i)
        mjd, us = instant(rng)
        exact = (mjd - 40587) * DAY * US + us                # microseconds since 1970, UTC
        L = tai_utc(mjd)
        dt = E0 + timedelta(days=mjd, microseconds=us)
        form = rng.choice(['PY_DATE', 'STR', 'JD', 'MJD', 'DP', 'MCS', 'TIMET', 'ASTROPY', 'TAI_JD', 'TAI_MJD', 'TAI_TIMET'])
        if form.startswith('TAI') and (us < 1000 or us > (DAY - 100) * US):
            us = DAY * US // 2 + us % 1000
            exact = (mjd - 40587) * DAY * US + us
            dt = E0 + timedelta(days=mjd, microseconds=us)
        tol = 2.0                                            # microseconds
        ticks = exact * FS // US
        if form == 'PY_DATE':
            v = dt
        elif form == 'STR':
            v = dt.strftime('%Y-%m-%d %H:%M:%S.%f')
        elif form == 'JD':
            v, tol = 2400000.5 + mjd + us / 8.64e10, 60.0
        elif form == 'MJD':
            v = mjd + us / 8.64e10
        elif form == 'DP':
            v = ticks
        elif form == 'MCS':
            v = (mjd, us // 1000)
            exact -= us % 1000
            dt -= timedelta(microseconds=us % 1000)
        elif form == 'TIMET':
            v = rng.choice([exact / 1e6, exact // US]) if us % US == 0 else exact / 1e6
        elif form == 'ASTROPY':
            v = AT(dt, format='datetime', scale='utc')
        elif form == 'TAI_JD':
            v, tol = 2400000.5 + mjd + us / 8.64e10 + L / 86400.0, 60.0
        elif form == 'TAI_MJD':
            v = mjd + us / 8.64e10 + L / 86400.0
        else:
            v = exact / 1e6 + L                               # unix_tai: seconds since 1970-01-01 00:00:00 TAI
        with m.case(('instant', form, v if form != 'ASTROPY' else str(dt))):
            m.event('instants')
            t = T.Time(v, format=form.replace('TAI_', ''), timesys='TAI' if form.startswith('TAI') else 'UTC')

            def look(t, tol, mech=''):
                ee = exact / 1e6
                m.check(abs((t.utc_py_date - dt).total_seconds()) * 1e6 <= tol, 'time-datetime' + mech, '%s %r: %s, not %s' % (form, v, t.utc_py_date, dt))
                m.check(abs(t.utc_jd - (2440587.5 + exact / 8.64e10)) < 2e-9, 'time-jd' + mech, '%s %r' % (form, v))
                m.check(abs(t.utc_mjd - (40587 + exact / 8.64e10)) * 8.64e10 < tol, 'time-mjd' + mech, '%s %r' % (form, v))
                m.check(abs(t.utc_timet - ee) * 1e6 < tol, 'time-timet' + mech, '%s %r' % (form, v))
                want = exact * FS // US if form != 'DP' else ticks
                m.check(abs(t.utc_dp - want) <= (tol * 196 if form not in ('DP',) else 0) and isinstance(t.utc_dp, int), 'time-dp' + mech, '%s %r: utc_dp is %d ticks off' % (form, v, t.utc_dp - want))
                a, b = t.utc_mcs
                m.check(isinstance(a, int) and isinstance(b, int) and 0 <= b < 86400000 and abs((a - 40587) * 86400000 + b - exact / 1000) <= 0.5 + tol / 1000, 'time-mcs' + mech, '%s %r: %r' % (form, v, (a, b)))
                if 1000 < us < DAY * US - 1000:
                    m.check(abs(t.tai_mjd - (40587 + exact / 8.64e10 + L / 86400)) * 8.64e10 < tol, 'time-tai-mjd' + mech, '%s %r' % (form, v))
                    m.check(abs(t.tai_jd - (2440587.5 + exact / 8.64e10 + L / 86400)) < 2e-9, 'time-tai-jd' + mech, '%s %r' % (form, v))
                    m.check(abs(t.tai_timet - (ee + L)) * 1e6 < tol, 'time-tai-timet' + mech, '%s %r: %r' % (form, v, t.tai_timet - ee))
                s = datetime.strptime(t.utc_str, '%Y-%m-%d %H:%M:%S.%f')
                m.check(abs((s - dt).total_seconds()) <= 0.0005001 + tol / 1e6 and str(t) == t.utc_str, 'time-str' + mech, '%s %r: %s' % (form, v, t.utc_str))
            look(t, tol)
            m.event('copies')
            for c in (copy.copy(t), copy.deepcopy(t), pickle.loads(pickle.dumps(t))):
                m.check(c == t and hash(c) == hash(t) and not c < t and not c > t, 'time-copy', '%s %r' % (form, v))
            # setting any form later gives the same as making it from that form
            u = T.Time(rng.uniform(45000, 60000))
            name = {'PY_DATE': 'utc_py_date', 'STR': 'utc_str', 'JD': 'utc_jd', 'MJD': 'utc_mjd', 'DP': 'utc_dp', 'MCS': 'utc_mcs', 'TIMET': 'utc_timet', 'ASTROPY': 'astropy', 'TAI_JD': 'tai_jd', 'TAI_MJD': 'tai_mjd', 'TAI_TIMET': 'tai_timet'}[form]
            setattr(u, name, v)
            look(u, tol, '-set')
            # order
            k = rng.choice([-1, 1]) * rng.choice([1000000, 10**7, 10**12])
            w = T.Time((exact + k) / 1e6, format='TIMET')
            m.check((w < t) == (k < 0) and (w > t) == (k > 0) and w != t, 'time-order', '')
            for bad in ('x', None, [1]):
                before = t.utc_mjd
                for nm in ('utc_jd', 'utc_mjd', 'utc_dp', 'utc_timet', 'tai_jd', 'tai_mjd', 'tai_timet', 'utc_mcs', 'utc_py_date', 'astropy'):
                    refuse(m, (TypeError, ValueError), lambda: setattr(t, nm, bad), 'time-refuse', '%s = %r' % (nm, bad))
                same(m, t.utc_mjd, before, 'time-refuse-changed', '')
            refuse(m, ValueError, lambda: T.Time(50000.0, format='bad'), 'time-format')
            for f in ('PY_DATE', 'STR', 'DP', 'MCS'):
                refuse(m, ValueError, lambda: T.Time(v, format=f, timesys='TAI'), 'time-tai-format', f)


def values(m, n):
    """histories of operations on the position classes"""
    from lsl import astro as A
    import copy, pickle
    K = {'hrz': (A.hrz_posn, ('az', 'alt'), ((0, 360, True, False), (-90, 90, True, True))), 'equ': (A.equ_posn, ('ra', 'dec'), ((0, 360, True, False), (-90, 90, True, True))),
         'gal': (A.gal_posn, ('l', 'b'), ((-360, 360, True, None), (-90, 90, True, True))), 'ecl': (A.ecl_posn, ('lng', 'lat'), ((-360, 360, True, None), (-90, 90, True, True))),
         'geo': (A.geo_posn, ('lng', 'lat', 'elv'), ((-360, 360, False, False), (-90, 90, True, True), None)), 'rect': (A.rect_posn, ('X', 'Y', 'Z'), (None, None, None))}
    for i in range(m.n(n)):
        rng = m.rng(i)
        nm = rng.choice(sorted(K))
        cls, names, lim = K[nm]

        def draw(j):
            if lim[j] is None:
                return rng.uniform(-9999, 9999)
            lo, hi, a, b = lim[j]
            return rng.choice([rng.uniform(lo, hi), rng.uniform(lo, hi), lo if a else lo + 1e-9, hi if b else hi - 1e-9])
        with m.case(('values', nm, i)):
            model = [draw(j) for j in range(len(names))]
            p = cls(*model)
            log = []
            for _ in range(rng.randrange(2, 12)):
                op = rng.choice(['attr', 'item', 'bad-attr', 'bad-item', 'copy', 'pickle', 'index', 'sexa'])
                j = rng.randrange(len(names))
                log.append((op, j))
                if op in ('attr', 'item'):
                    model[j] = draw(j)
                    if op == 'attr':
                        setattr(p, names[j], model[j])
                    else:
                        p[j] = model[j]
                elif op in ('bad-attr', 'bad-item') and lim[j] is not None:
                    lo, hi, a, b = lim[j]
                    x = rng.choice([lo - 1e-6 if a else lo, hi + 1e-6 if (b or b is None) else hi, lo - 100, hi + 100])
                    refuse(m, ValueError, lambda: setattr(p, names[j], x) if op == 'bad-attr' else p.__setitem__(j, x), 'position-range', '%s.%s = %r' % (nm, names[j], x))
                elif op == 'index':
                    refuse(m, ValueError, lambda: p[len(names)], 'position-index')
                    refuse(m, ValueError, lambda: p.__setitem__(len(names), 0.0), 'position-index')
                elif op == 'sexa' and (nm, names[j]) in (('equ', 'dec'), ('gal', 'l'), ('gal', 'b'), ('ecl', 'lng'), ('ecl', 'lat'), ('geo', 'lng'), ('geo', 'lat')):
                    d = A.dms(rng.random() < 0.5, rng.randrange(90), rng.randrange(60), rng.uniform(0, 59))
                    model[j] = d.to_deg()
                    setattr(p, names[j], d)
                elif op in ('copy', 'pickle'):
                    m.event('copies')
                    q = rng.choice([copy.copy, copy.deepcopy])(p) if op == 'copy' else pickle.loads(pickle.dumps(p))
                    if nm != 'ecl':
                        m.check(q == p and not q != p, 'position-copy', '%r %r' % (p, q))
                    # independent of one another
                    old = [q[k] for k in range(len(names))]
                    v = draw(0)
                    p[0] = v
                    model[0] = v
                    same(m, [q[k] for k in range(len(names))], old, 'position-copy-shared', nm)
                same(m, [p[k] for k in range(len(names))], model, 'position-item', '%s after %r' % (nm, log))
                same(m, [getattr(p, k) for k in names], model, 'position-attr', '%s after %r' % (nm, log))
            if nm in ('hrz', 'equ', 'gal', 'geo', 'rect'):
                q = cls(*model)
                m.check(p == q and not p != q, 'position-equal', '')
                j = rng.randrange(len(names))
                q[j] = draw(j)
                eq = all(p[k] == q[k] for k in range(len(names)))
                m.check((p == q) == eq and (p != q) != eq, 'position-differ', '%r %r' % (p, q))
            if nm == 'equ':
                a, b = p.format()
                m.check(abs(a.to_deg() - p.ra) < 1e-9 and abs(b.to_deg() - p.dec) < 1e-9, 'format', '%r %r %r' % (p, a, b))
                same(m, A.equ_posn(A.hms(1, 2, 3.0), 0.0).ra, A.hms(1, 2, 3.0).to_deg(), 'ra-hms', '')
            # positions made by a conversion keep what they are when copied
            ra, dec = draw_dir(rng)
            jd = 2400000.5 + rng.uniform(45000, 60300)
            what = rng.choice(['b1950', 'prec', 'apparent', 'gal', 'ecl'])
            s = A.equ_posn(ra, dec)
            s = {'b1950': A.J2000_to_B1950, 'prec': lambda x: A.get_equ_prec(x, jd), 'apparent': lambda x: A.get_apparent_posn(x, jd), 'gal': A.get_gal_from_equ, 'ecl': lambda x: A.get_ecl_from_equ(x, jd)}[what](s)
            back = {'b1950': A.B1950_to_J2000, 'prec': lambda x: A.get_equ_prec(x, 2451545.0), 'apparent': lambda x: A.get_gal_from_equ(x), 'gal': A.get_equ_from_gal, 'ecl': lambda x: A.get_equ_from_ecl(x, jd)}[what]
            w = back(s)
            for c in (copy.copy(s), copy.deepcopy(s), pickle.loads(pickle.dumps(s))):
                m.event('copies')
                x = back(c)
                m.check(sep(dvec(x[0], x[1]), dvec(w[0], w[1])) < 1e-7, 'converted-copy', 'a copy of a %s position converts to %r, the original to %r' % (what, x, w))
            for k in (0, 1):
                old = (s[0], s[1])
                refuse(m, RuntimeError, lambda: s.__setitem__(k, 1.0), 'converted-set')
                same(m, (s[0], s[1]), old, 'converted-set-changed', '')


JOBS = {'angles': (angles, 'plain', 500), 'dates': (dates, 'plain', 700), 'scales': (scales, 'plain', 700), 'positions-0': (positions, 'plain', 130), 'positions-1': (positions, 'plain', 130), 'horizontal': (horizontal, 'plain', 100),
        'planets': (planets, 'plain', 30), 'risings': (risings, 'plain', 30), 'instants': (instants, 'plain', 350), 'values': (values, 'plain', 250)}
