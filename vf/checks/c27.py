"""C27 - beamforming, channelizing and dedispersion of voltage data."""
RULE = ('random arrays, pointings, frequencies and data of every type for the beamformer; random signals, taps and windows for the filter bank; random bands, DMs, sampling rates and block '
        'lengths for both dedispersers.  Judged against a plane wave built from the stand positions and cables, a direct sum for the filter bank, a per-channel shift for incoherent '
        'dedispersion, and, for coherent dedispersion, the arrival time of narrow pulses and the agreement of any cutting into blocks; distinct = distinct cases')
OPTS = {'scale': 30}
NEED = {'beams': 200, 'plane_waves': 200, 'filterbanks': 150, 'incoherent': 200, 'coherent': 60, 'pulses': 60, 'blocks': 60}
C0 = 299792458.0
DM_CONST = 4.148808e3


def _ants(rng, nst):
    from lsl.common.stations import Antenna, Stand, Cable
    ids = rng.sample(range(1, 257), nst)
    if nst > 2 and rng.random() < 0.4:
        ids[rng.randrange(nst)] = rng.choice([257, 258, 259, 260])
    out = []
    seq = [(s, p) for s in range(nst) for p in (0, 1)]
    if rng.random() < 0.4:
        rng.shuffle(seq)
    if rng.random() < 0.3:
        seq = seq[:rng.randint(1, len(seq))]
        if not any(ids[s] <= 256 for s, _ in seq):
            seq.append(([k for k in range(nst) if ids[k] <= 256][0], 0))
    one = rng.random()
    if one < 0.15:
        seq = [(s, 0) for s, _ in seq]
    elif one < 0.3:
        seq = [(s, 1) for s, _ in seq]
    stands = [Stand(ids[s], rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-3, 3)) for s in range(nst)]
    for k, (s, p) in enumerate(seq):
        c = Cable('C%i' % k, rng.uniform(20, 250), vf=rng.uniform(0.7, 0.9), dd=rng.choice([0.0, 2.4e-9]), stretch=rng.choice([1.0, 1.02]))
        c.clock_offset = rng.choice([0.0, rng.uniform(-50e-9, 50e-9)])
        a = Antenna(k + 1, stand=stands[s], pol=p, cable=c, digitizer=k + 1)
        a.fee.status, a.status = rng.choice([(3, 3)] * 6 + [(3, 2), (1, 3), (0, 0)])
        out.append(a)
    return out


def _cable(c, f):
    """Delay of a signal through a cable, from its description."""
    import math
    L = c.length * c.stretch
    return L / (c.vf * C0) + c.dd * (L / 100.0) / math.sqrt(f / c.ref_freq) + c.clock_offset


def _unit(az, alt):
    import math
    a, e = math.radians(az), math.radians(alt)
    return (math.cos(e) * math.sin(a), math.cos(e) * math.cos(a), math.sin(e))


def _pointing(rng):
    az = rng.choice([rng.uniform(0, 360), rng.uniform(0, 360), 0.0, 90.0, 180.0, 270.0, 360.0])
    alt = rng.choice([rng.uniform(0, 90), rng.uniform(0, 90), 0.0, 90.0, 45.0])
    return az, alt


def _angle(rng, deg):
    import ephem, math
    from astropy.coordinates import Angle
    how = rng.choice(['num', 'num', 'ephem', 'astropy'])
    if how == 'num':
        return deg
    if how == 'astropy':
        return Angle(deg, unit='deg')
    if not 0 < deg < 89.9999:
        return deg              # rounding in the conversion to radians could leave the range
    return ephem.degrees(math.radians(deg))


def beams(m, n):
    import numpy as np
    from lsl.misc import beamformer
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        nr = m.nprng(i)
        nst = rng.choice([1, 2, 3, 5, 9, 17])
        ants = _ants(rng, nst)
        na = len(ants)
        multi = rng.random() < 0.6
        nc = rng.choice([1, 2, 5]) if multi else 1
        freq = np.array(sorted(rng.uniform(10e6, 88e6) for _ in range(nc)))
        nt = rng.choice([1, 2, 31, 32, 33, 64, 100])
        az, alt = _pointing(rng)
        dt = rng.choice(['complex64', 'complex128', 'float32', 'float64', 'int8', 'int16'])
        with m.case({'i': i, 'nst': nst, 'na': na, 'nc': nc, 'multi': multi, 'nt': nt, 'az': az, 'alt': alt, 'dt': dt}):
            saz, salt = _angle(rng, az), _angle(rng, alt)
            u = _unit(az, alt)
            good = [a for a in ants if a.stand.id <= 256]
            cen = [sum(a.stand.xyz[k] for a in good) / len(good) for k in range(3)]
            want = np.array([[_cable(a.cable, f) - sum((a.stand.xyz[k] - cen[k]) * u[k] for k in range(3)) / C0 for f in freq] for a in ants])
            # delays
            d = beamformer.calc_delay(ants, freq=freq if multi else float(freq[0]), azimuth=saz, altitude=salt)
            m.close(d, want if multi else want[:, 0], 'delays', rtol=0, atol=1e-14)
            if multi and rng.random() < 0.4:
                m.close(beamformer.calc_delay(ants, freq=list(freq), azimuth=saz, altitude=salt), want, 'delays-list', rtol=0, atol=1e-14)
            # beam of arbitrary data
            shape = (na, nc, nt)
            if dt.startswith('complex'):
                x = (nr.normal(size=shape) + 1j * nr.normal(size=shape)).astype(dt)
            elif dt.startswith('float'):
                x = nr.normal(size=shape).astype(dt)
            else:
                x = nr.integers(-100, 100, size=shape).astype(dt)
            data = x if multi else x[:, 0, :]
            if rng.random() < 0.3:
                big = np.zeros(data.shape[:-1] + (2 * data.shape[-1],), dtype=data.dtype)
                big[..., ::2] = data
                data = big[..., ::2]
            keep = data.copy()
            cf = (list(freq) if rng.random() < 0.3 else freq.copy()) if multi else float(freq[0])
            got = beamformer.phase_and_sum(ants, data, central_freq=cf, azimuth=saz, altitude=salt)
            m.event('beams')
            m.check((data == keep).all() and (not multi or (np.array(cf) == freq).all()), 'beam-input', 'the beamformer changed its input')
            w = np.exp(2j * np.pi * freq[None, :] * (want - want.min()))
            ok = [a.combined_status == 33 for a in ants]
            rows = []
            for p in (0, 1):
                sel = [k for k in range(na) if ants[k].pol == p and ok[k]]
                if sel:
                    rows.append((w[sel][:, :, None] * x[sel]).mean(axis=0))
            if not rows:
                continue
            ref = np.array(rows)
            if not multi:
                ref = ref[:, 0, :]
            if m.check(got.shape == ref.shape, 'beam-shape', lambda: '%r for %r' % (got.shape, ref.shape)):
                m.close(got, ref, 'beam', rtol=0, atol=3e-5 * (1 + np.abs(x).max()))
            # a plane wave comes out of the beam pointed at it as it went in
            s = nr.normal(size=nt) + 1j * nr.normal(size=nt)
            pw = np.exp(-2j * np.pi * freq[None, :, None] * want[:, :, None]) * s
            got = beamformer.phase_and_sum(ants, pw if multi else pw[:, 0, :], central_freq=cf, azimuth=saz, altitude=salt)
            m.event('plane_waves')
            g = got if multi else got[:, None, :]
            for p in range(g.shape[0]):
                for c in range(nc):
                    # up to the phase of the common delay reference
                    ph = (g[p, c] * s.conj()).sum()
                    m.close(g[p, c], s * ph / abs(ph), 'beam-gain', rtol=0, atol=1e-4 * (1 + np.abs(s).max()))
            # one channel alone is that channel of all
            if multi and nc > 1:
                c = rng.randrange(nc)
                alone = beamformer.phase_and_sum(ants, x[:, c, :], central_freq=float(freq[c]), azimuth=saz, altitude=salt)
                full = beamformer.phase_and_sum(ants, x, central_freq=freq, azimuth=saz, altitude=salt)[:, c, :]
                ph = (full * alone.conj()).sum()
                if abs(ph) > 0:
                    m.close(full, alone * ph / abs(ph), 'beam-channel', rtol=0, atol=3e-4 * (1 + np.abs(x).max()))
    # outside the sky
    rng = m.rng('edges')
    ants = _ants(rng, 4)
    for az, alt in ((-0.1, 45), (360.1, 45), (10, -0.1), (10, 90.1)):
        m.raises(ValueError, lambda: beamformer.calc_delay(ants, azimuth=az, altitude=alt), 'pointing-range', '%r' % ((az, alt),))


def circular(m, n):
    import numpy as np
    from lsl.misc import beamformer
    for i in range(m.n(n)):
        rng, nr = m.rng(i), m.nprng(i)
        nt = rng.choice([1, 2, 50])
        with m.case({'i': i, 'nt': nt}):
            x = (nr.normal(size=nt) + 1j * nr.normal(size=nt)).astype(rng.choice(['complex64', 'complex128']))
            y = (nr.normal(size=nt) + 1j * nr.normal(size=nt)).astype(x.dtype)
            kx, ky = x.copy(), y.copy()
            l, r = beamformer.circularize(x, y)
            m.close(l, (x + 1j * y) / 2 ** 0.5, 'circular-left', rtol=1e-5, atol=1e-6)
            m.close(r, (x - 1j * y) / 2 ** 0.5, 'circular-right', rtol=1e-5, atol=1e-6)
            l2, r2 = beamformer.circularize(x, y, iau=False)
            m.close(l2, r, 'circular-iau', rtol=1e-5, atol=1e-6)
            m.close(r2, l, 'circular-iau', rtol=1e-5, atol=1e-6)
            m.check((x == kx).all() and (y == ky).all(), 'circular-input', '')


def filterbank(m, n):
    import numpy as np
    from lsl.correlator import filterbank as fb
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        N = rng.choice([1, 2, 3, 8, 15, 16, 64, 100])
        P = rng.choice([1, 2, 3, 4, 8, 16, 32])
        extra = rng.choice([0, 0, 1, 17])
        win = rng.choice([None, 'hanning', 'blackman', 'bartlett'])
        cplx = rng.random() < 0.5
        with m.case({'i': i, 'N': N, 'P': P, 'extra': extra, 'win': win, 'cplx': cplx}):
            s = nr.normal(size=N * P + extra)
            if cplx:
                s = s + 1j * nr.normal(size=s.size)
            elif rng.random() < 0.3:
                s = nr.integers(-8, 8, size=s.size).astype('int16')
            keep = s.copy()
            kw = {} if win is None else {'window': getattr(np, win)}
            sub = {2: fb.fft2, 4: fb.fft4, 8: fb.fft8, 16: fb.fft16, 32: fb.fft32}
            if P in sub and rng.random() < 0.6:
                got = sub[P](s, N, **kw)
            elif P == 1 and rng.random() < 0.5:
                got = fb.fft(s, N, **kw)
            else:
                got = fb.fft(s, N, P=P, **kw)
            m.event('filterbanks')
            t = np.arange(N * P)
            h = np.sinc((t - N * P / 2.0 + 0.5) / N) * (1.0 if win is None else getattr(np, win)(N * P))
            ref = np.exp(-2j * np.pi * np.outer(np.arange(N), t % N) / N) @ (s[:N * P] * h)
            if m.check(got.shape == ref.shape, 'filterbank-shape', lambda: '%r' % (got.shape,)):
                m.close(got, ref, 'filterbank', rtol=0, atol=1e-9 * (1 + np.abs(s).max()) * N * P)
            m.check((s == keep).all(), 'filterbank-input', '')


def incoherent(m, n):
    import numpy as np
    from lsl.misc import dedispersion as D
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        nc = rng.choice([1, 2, 3, 16, 50])
        nt = rng.choice([1, 2, 7, 64, 200])
        f0, bw = rng.uniform(12e6, 80e6), rng.choice([1e5, 1e6, 1.9e7])
        freq = np.sort(rng.uniform(f0, f0 + bw) + np.arange(nc) * bw / nc)
        order = rng.choice(['up', 'down', 'mixed'])
        if order == 'down':
            freq = freq[::-1].copy()
        elif order == 'mixed':
            freq = freq[nr.permutation(nc)]
        dm = rng.choice([0.0, rng.uniform(0, 1), rng.uniform(1, 60)])
        with m.case({'i': i, 'nc': nc, 'nt': nt, 'f': freq[0], 'bw': bw, 'order': order, 'dm': dm}):
            ref = dm * DM_CONST * ((1e6 / freq) ** 2 - (1e6 / freq.max()) ** 2)
            if nc == 1:
                m.close(D.delay(freq, dm), dm * DM_CONST * (1e6 / freq[0]) ** 2, 'delay-single', rtol=1e-12, atol=1e-15)
                m.close(D.delay(float(freq[0]), dm), dm * DM_CONST * (1e6 / freq[0]) ** 2, 'delay-single', rtol=1e-12, atol=1e-15)
                ref = np.array([dm * DM_CONST * (1e6 / freq[0]) ** 2])
            else:
                m.close(D.delay(freq, dm), ref, 'delay', rtol=1e-12, atol=1e-12 * max(ref.max(), 1e-12))
                m.close(D.delay(list(freq), dm), ref, 'delay', rtol=1e-12, atol=1e-12 * max(ref.max(), 1e-12))
            span = ref.max() or 1.0
            tint = span / rng.choice([0.3, 1, 3.3, nt / 2.0, nt * 0.9, nt * 1.5])
            sh = ref / tint
            if (np.abs(sh - np.floor(sh) - 0.5) < 1e-6).any():
                continue
            shift = np.floor(sh + 0.5).astype(int)
            wf = nr.normal(size=(nt, nc)).astype(rng.choice(['float32', 'float64']))
            if rng.random() < 0.2:
                wf = nr.integers(0, 100, size=(nt, nc))
            if rng.random() < 0.2 and wf.dtype.kind == 'f':
                wf[rng.randrange(nt), rng.randrange(nc)] = rng.choice([np.nan, np.inf])
            keep = wf.copy()
            got = D.incoherent(freq, wf, tint, dm)
            m.event('incoherent')
            idx = (np.arange(nt)[:, None] + shift[None, :])
            want = np.take_along_axis(wf, idx % nt, axis=0)
            m.array_equal(got, want.astype(got.dtype), 'dedisperse-wrap')
            fill = rng.choice([np.nan, 0.0, -7.5])
            got = D.incoherent(freq, wf, tint, dm, boundary='fill', fill_value=fill)
            m.array_equal(got, np.where(idx < nt, want, fill).astype(got.dtype), 'dedisperse-fill')
            m.array_equal(wf, keep, 'dedisperse-input')
            m.raises(ValueError, lambda: D.incoherent(freq, wf, tint, dm, boundary='drop'), 'dedisperse-boundary', '')
            # a dispersed pulse lines up
            if nc > 1 and shift.max() < nt:
                t0 = rng.randrange(nt - shift.max())
                wf = np.zeros((nt, nc))
                wf[t0 + shift, np.arange(nc)] = 1.0
                got = D.incoherent(freq, wf, tint, dm, boundary=rng.choice(['wrap', 'fill']), fill_value=0.0)
                m.check((got[t0] == 1).all() and got.sum() == nc, 'dedisperse-pulse', lambda: 'pulse at %d' % t0)


def _band(rng):
    """A band and DM with a dedispersion window that is not too long."""
    from lsl.misc import dedispersion as D
    while True:
        f0 = rng.uniform(20e6, 85e6)
        sr = rng.choice([2.5e3, 1e4, 2.5e4, 1e5, 2.5e5])
        dm = rng.choice([0.0, rng.uniform(1e-4, 0.1), rng.uniform(0.1, 5), rng.uniform(5, 80)])
        span = dm * DM_CONST * ((1e6 / (f0 - sr / 2)) ** 2 - (1e6 / (f0 + sr / 2)) ** 2)
        if span * sr < 2000:
            return f0, sr, dm, span


def _pulses(m, rng, D, f0, sr, dm, cdt, total):
    """Narrow pulses arrive early by what dispersion delayed them."""
    import numpy as np
    N = D.get_coherent_sample_size(f0, sr, dm)
    H = N // 2
    span = abs(dm * DM_CONST * ((1e6 / (f0 - sr / 2)) ** 2 - (1e6 / (f0 + sr / 2)) ** 2))
    t = 1000.0 + np.arange(total) / sr
    mid = slice(H, (total // N) * N - H)
    if N >= 256 and span * sr > 20:
        for k in range(2):
            off = rng.uniform(-0.4, 0.4) * sr
            w = N / 20.0 if k else 40.0
            c = total // 2 + rng.randrange(-H // 4, H // 4)
            want = dm * DM_CONST * ((1e6 / (f0 + off)) ** 2 - (1e6 / f0) ** 2) * sr
            slope = 2 * dm * DM_CONST * 1e12 / (f0 + off) ** 3 * sr / sr          # s per Hz
            spread = slope * sr * (sr / (2 * np.pi * w))                           # samples, dispersion within the pulse
            if w > H / 6 or spread > w or c < N or c > (total // N) * N - N:
                continue
            env = np.exp(-0.5 * ((np.arange(total) - c) / w) ** 2)
            p = (env * np.exp(2j * np.pi * off * np.arange(total) / sr)).astype(cdt)
            o = np.abs(D.coherent(t, p, f0, sr, dm)[1][mid].astype(complex)) ** 2
            ii = np.arange(total)[mid]
            if o.sum() == 0:
                m.violation('pulse-lost', '')
                continue
            cen = (o * ii).sum() / o.sum()
            m.event('pulses')
            m.check(abs(cen - (c - want)) < 0.6 + 0.01 * abs(want), 'pulse-arrival', lambda: 'at %.2f, want %.2f (delay %.2f samples)' % (cen, c - want, want))
            m.close(o.sum(), (env ** 2).sum(), 'pulse-energy', rtol=0.02)


def coherent(m, n):
    import numpy as np
    from lsl.misc import dedispersion as D
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        f0, sr, dm, span = _band(rng)
        cdt = rng.choice(['complex64', 'complex128'])
        with m.case({'i': i, 'f0': f0, 'sr': sr, 'dm': dm, 'dt': cdt}):
            N = D.get_coherent_sample_size(f0, sr, dm)
            m.check(isinstance(N, int) and N >= 2 * span * sr and N >= 2 and N & (N - 1) == 0 and (span * sr < 1 or N < 4.001 * span * sr), 'window-size', 'N=%r for %r samples' % (N, span * sr))
            eps = 3e-4 if cdt == 'complex64' else 1e-9
            # a long stream, and any cutting of it in blocks
            H = N // 2
            q = 4 if N < 4 else 1
            total = H * rng.randint(9, 16)
            x = (nr.normal(size=total) + 1j * nr.normal(size=total)).astype(cdt)
            t = 1000.0 + np.arange(total) / sr
            kx, kt = x.copy(), t.copy()
            taper = rng.random() < 0.3
            kw = {'taper': taper}
            if rng.random() < 0.4:
                kw['enable_caching'] = False
            m.event('coherent')
            wt, wd = D.coherent(t, x, f0, sr, dm, **kw)
            m.check(wd.dtype == x.dtype and wd.shape == x.shape and wt.shape == t.shape, 'coherent-shape', '%r %r' % (wd.dtype, wd.shape))
            m.array_equal(x, kx, 'coherent-input')
            m.array_equal(t, kt, 'coherent-input')
            mid = slice(H, (total // N) * N - H)
            m.array_equal(wt[mid], t[mid], 'coherent-time')
            if dm == 0 and not taper:
                m.close(wd[mid], x[mid], 'coherent-zero-dm', rtol=0, atol=eps * 10)
            # caches change nothing
            for k in range(2):
                a, b, c, _ = _band(rng)
                xx = x if D.get_coherent_sample_size(a, b, c) <= total else None
                if xx is not None:
                    D.coherent(t, xx, a, b, c, taper=rng.random() < 0.5)
            again = D.coherent(t, x, f0, sr, dm, taper=taper)
            m.array_equal(again[1], wd, 'coherent-cache')
            again = D.coherent(t, x, f0, sr, dm, taper=taper, enable_caching=False)
            m.array_equal(again[1], wd, 'coherent-cache')
            # blocks: any length of at least a window, cut at half windows
            pos, cuts = H, []
            while pos + N <= (total // N) * N - H:
                cuts.append(pos)
                pos += H * rng.randint(2, 4)
            cuts.append(min(pos, (total // N) * N - H) if cuts and min(pos, (total // N) * N - H) - cuts[-1] >= N else pos)
            for a, b in zip(cuts[:-1], cuts[1:]):
                if b > total - N or b - a < N:
                    continue
                ragged = rng.random() < 0.5
                if ragged:
                    b = min(b + rng.randrange(H), total - N)
                m.event('blocks')
                gt, gd = D.coherent(t[a:b], x[a:b], f0, sr, dm, previous_time=t[:a], previous_data=x[:a], next_time=t[b:], next_data=x[b:], **kw)
                hi = min(b, mid.stop)
                m.close(gd[:hi - a], wd[a:hi], 'coherent-block', rtol=0, atol=eps * 10)
                m.array_equal(gt[:hi - a], t[a:hi], 'coherent-block-time')
            if N > 8:
                m.raises(RuntimeError, lambda: D.coherent(t[N:3 * N], x[N:3 * N], f0, sr, dm, previous_time=t[N - 2:N], previous_data=x[N - 2:N], next_time=t[3 * N:], next_data=x[3 * N:]), 'coherent-short-previous', '')
                m.raises(RuntimeError, lambda: D.coherent(t[N:3 * N], x[N:3 * N], f0, sr, dm, previous_time=t[:N], previous_data=x[:N], next_time=t[3 * N:3 * N + 2], next_data=x[3 * N:3 * N + 2]), 'coherent-short-next', '')
            if N > 2:
                m.raises(RuntimeWarning, lambda: D.coherent(t[:N - 1], x[:N - 1], f0, sr, dm), 'coherent-too-short', '')
            # narrow pulses, and the same again with one parameter changed
            _pulses(m, rng, D, f0, sr, dm, cdt, total)
            for a, b, c, d in rng.sample([(f0, sr, dm * 0.7, cdt), (f0 * 1.1, sr, dm, cdt), (f0, sr * 0.8, dm, cdt), (f0, sr, dm, 'complex64' if cdt == 'complex128' else 'complex128')], 2):
                if D.get_coherent_sample_size(a, b, c) <= N:
                    _pulses(m, rng, D, a, b, c, d, total)
            # the taper: tones on the grid of the window
            if N >= 64:
                for tp in rng.sample([True, False], 2):
                    k = rng.choice([rng.randrange(-N // 2, N // 2), -N // 2, N // 2 - 1])
                    tone = np.exp(2j * np.pi * k * np.arange(total) / N).astype(cdt)
                    o = D.coherent(t, tone, f0, sr, dm, taper=tp)[1][mid]
                    want = 1 / (1 + (abs((k + 0.5) / N) / (0.47 * (N - 1) / N)) ** 80) ** 0.5 if tp else 1.0
                    m.close(np.abs(o), np.full(o.shape, want), 'coherent-taper', rtol=0, atol=2e-3 + 10.0 / N)


JOBS = {
    'beams-0': (beams, 'plain', 60), 'beams-1': (beams, 'plain', 60),
    'circular': (circular, 'plain', 40),
    'filterbank': (filterbank, 'plain', 80),
    'incoherent': (incoherent, 'plain', 80),
    'coherent-0': (coherent, 'plain', 20), 'coherent-1': (coherent, 'plain', 20),
}
