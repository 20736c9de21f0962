"""C08 - spectra are the spectra of the data: SpecMaster and StokesMaster against an independent definition."""
RULE = ('random signal sets (1-7 stands, every accepted sample type, contiguous or strided, transform lengths 1-130 incl. odd and prime, lengths with a remainder, '
        'windows, polyphase filter bank, blanking levels, centre frequencies) compared with a float64 FFT reference; '
        'distinct = distinct (type, length, LFFT, window, pfb, clip) settings with at least one transform')
NEED = {'spectra': 500, 'stokes': 200, 'blanked_transforms': 50, 'values_compared': 20000}
OPTS = {'scale': 7, 'threads': 3}


def _signals(rng, nprng, nst, ns, dt, clipping):
    import numpy as np
    from lsl.reader.base import CI8
    big = {'i1': 100, 'i2': 2000, 'i4': 30000, 'i8': 30000}
    if dt == 'ci8':
        x = np.zeros((nst, ns), dtype=CI8)
        x['re'] = nprng.integers(-60, 61, (nst, ns))
        x['im'] = nprng.integers(-60, 61, (nst, ns))
        return x
    if dt in big:
        x = nprng.normal(0, big[dt] / 5.0, (nst, ns)).clip(-big[dt], big[dt])
        x = np.round(x).astype(dt)
    elif dt[0] == 'f':
        x = nprng.normal(nprng.uniform(-1, 1), 30, (nst, ns)).astype(dt)
    else:
        x = (nprng.normal(0, 30, (nst, ns)) + 1j * nprng.normal(0, 30, (nst, ns))).astype(dt)
    if rng.random() < 0.4:                     # tones, so that a misplaced channel shows
        t = np.arange(ns)
        for i in range(nst):
            tone = 50 * np.exp(2j * np.pi * (nprng.uniform(-0.5, 0.5) * t))
            x[i] = (x[i] + (tone if x.dtype.kind == 'c' else tone.real)).astype(x.dtype)
    lay = rng.choice(['c', 'c', 'f', 'strided'])
    if lay == 'f':
        x = np.asfortranarray(x)
    elif lay == 'strided':
        b = np.zeros((nst * 2, ns), dtype=x.dtype)
        b[::2] = x
        x = b[::2]
    return x


def _windows():
    import numpy as np
    from lsl.correlator import fx
    return {'none': fx.null_window, 'hanning': np.hanning, 'blackman': np.blackman, 'ramp': lambda L: np.arange(L) / L + 0.1,
            'list': lambda L: [0.5] * L, 'int': lambda L: np.arange(L) % 3}


DT = ['i1', 'i2', 'i4', 'i8', 'f4', 'f8', 'c8', 'c16', 'ci8']


def _draw(m, i):
    rng, nprng = m.rng(i), m.nprng(i)
    dt = rng.choice(DT)
    LFFT = rng.choice([1, 2, 3, 4, 5, 7, 8, 16, 17, 31, 32, 64, 100, 127, 128, 130])
    nst = rng.choice([1, 1, 2, 3, 7])
    L = LFFT if dt[0] == 'c' else 2 * LFFT
    ns = L * rng.choice([1, 2, 3, 5, 9, 20]) + rng.choice([0, 0, 1, L // 2, L - 1])
    pfb = rng.random() < 0.3
    win = 'none' if pfb else rng.choice(['none', 'none', 'hanning', 'blackman', 'ramp', 'list', 'int'])
    clip = rng.choice([0, 0, 0, 20, 40, 60, 90, 300, 700])
    rate, cf = rng.choice([196e6, 19.6e6, 1.0, 250e3]), rng.choice([0.0, 38.1e6, -5.0, 74.03e6])
    return rng, nprng, dt, LFFT, nst, ns, pfb, win, clip, rate, cf


def spec(m, n):
    import numpy as np
    from lsl.correlator import fx
    from vf import dspref as R
    W = _windows()
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng, dt, LFFT, nst, ns, pfb, win, clip, rate, cf = _draw(m, i)
        x = _signals(rng, nprng, nst, ns, dt, clip)
        with m.case({'i': i, 'dt': dt, 'LFFT': LFFT, 'nst': nst, 'ns': ns, 'pfb': pfb, 'win': win, 'clip': clip, 'rate': rate, 'cf': cf}):
            before = x.copy()
            kw = {} if rate == 196e6 and rng.random() < 0.5 else {'sample_rate': rate}
            f, p = fx.SpecMaster(x, LFFT=LFFT, window=W[win], pfb=pfb, central_freq=cf, clip_level=clip, **kw)
            m.event('spectra')
            m.check((before == x).all(), 'input-modified')
            ref, amb, empty = R.spectra(before, LFFT, None if win == 'none' else W[win], pfb, clip)
            xr, cplx = R.as_complex(before)
            m.close(f, R.frequencies(LFFT, cplx, rate, cf), 'frequencies', rtol=1e-12, scale=max(rate, abs(cf)))
            m.equal(p.shape, ref.shape, 'shape')
            if amb:
                continue
            if clip:
                for s in xr:
                    m.event('blanked_transforms', (~R.blocks(s, LFFT, cplx, None, pfb, clip)[1]).sum())
            for k in range(nst):
                if empty[k]:
                    m.event('fully_blanked_stands')
                else:
                    m.close(p[k], ref[k], 'psd', rtol=2e-5, stand=k)
            # the transform of a set is the set of the transforms
            if nst > 1 and not empty.any():
                k = rng.randrange(nst)
                _, q = fx.SpecMaster(x[k:k + 1], LFFT=LFFT, window=W[win], pfb=pfb, central_freq=cf, clip_level=clip, sample_rate=rate)
                m.close(q[0], p[k], 'one-of-set', rtol=1e-6)


def stokes(m, n):
    import numpy as np
    from lsl.correlator import fx
    from lsl.common.stations import Antenna, Stand
    from vf import dspref as R
    W = _windows()
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng, dt, LFFT, nst, ns, pfb, win, clip, rate, cf = _draw(m, i)
        x = _signals(rng, nprng, 2 * nst, ns, dt, clip)
        order = [(s, p) for s in range(nst) for p in (0, 1)]
        rng.shuffle(order)
        ants = [Antenna(k + 1, stand=Stand(s + 1, 0, 0, 0), pol=p) for k, (s, p) in enumerate(order)]
        ix = [k for k, a in enumerate(order) if a[1] == 0]
        iy = [k for k, a in enumerate(order) if a[1] == 1]
        with m.case({'i': i, 'dt': dt, 'LFFT': LFFT, 'nst': nst, 'ns': ns, 'pfb': pfb, 'win': win, 'clip': clip, 'rate': rate, 'cf': cf}):
            before = x.copy()
            f, p = fx.StokesMaster(x, ants, LFFT=LFFT, window=W[win], pfb=pfb, sample_rate=rate, central_freq=cf, clip_level=clip)
            m.event('stokes')
            m.check((before == x).all(), 'input-modified')
            ref, amb, empty = R.stokes(before[ix], before[iy], LFFT, None if win == 'none' else W[win], pfb, clip)
            _, cplx = R.as_complex(before)
            m.close(f, R.frequencies(LFFT, cplx, rate, cf), 'frequencies', rtol=1e-12, scale=max(rate, abs(cf)))
            m.equal(p.shape, ref.shape, 'shape')
            if amb:
                continue
            for k in range(nst):
                if empty[k]:
                    m.event('fully_blanked_stands')
                    continue
                sc = np.abs(ref[0, k]).max()
                for q in range(4):
                    m.close(p[q, k], ref[q, k], 'stokes-%s' % 'IQUV'[q], rtol=2e-5, scale=sc, stand=k)
                m.check((p[0, k] ** 2 >= (p[1:, k] ** 2).sum(axis=0) - 1e-4 * sc ** 2).all(), 'over-polarized', 'I^2 < Q^2+U^2+V^2')


def refuse(m):
    """Calls that cannot be carried out are refused, they do not return something else."""
    import numpy as np
    from lsl.correlator import fx
    from lsl.common.stations import Antenna, Stand
    x = np.ones((2, 64), dtype=np.complex64)
    ants = [Antenna(1, stand=Stand(1, 0, 0, 0), pol=0), Antenna(2, stand=Stand(1, 0, 0, 0), pol=1)]

    def bad(L):
        raise ValueError('no window')
    for name, fn in {
        'pfb+window': lambda: fx.SpecMaster(x, LFFT=8, pfb=True, window=np.hanning),
        'window-raises': lambda: fx.SpecMaster(x, LFFT=8, window=bad),
        'window-short': lambda: fx.SpecMaster(x, LFFT=8, window=lambda L: np.ones(L - 1)),
        'window-not-array': lambda: fx.SpecMaster(x, LFFT=8, window=lambda L: 'abc'),
        'lfft-0': lambda: fx.SpecMaster(x, LFFT=0),
        'lfft-neg': lambda: fx.SpecMaster(x, LFFT=-4),
        'dtype': lambda: fx.SpecMaster(x.real.astype(bool), LFFT=8),
        'dims': lambda: fx.SpecMaster(x[0], LFFT=8),
        'st-pfb+window': lambda: fx.StokesMaster(x, ants, LFFT=8, pfb=True, window=np.hanning),
        'st-window-raises': lambda: fx.StokesMaster(x, ants, LFFT=8, window=bad),
        'st-window-short': lambda: fx.StokesMaster(x, ants, LFFT=8, window=lambda L: np.ones(3)),
        'st-lfft-0': lambda: fx.StokesMaster(x, ants, LFFT=0),
        'st-unbalanced': lambda: fx.StokesMaster(np.ones((3, 64), dtype=np.complex64), ants + [Antenna(3, stand=Stand(2, 0, 0, 0), pol=0)], LFFT=8),
    }.items():
        with m.case({'refuse': name}):
            m.raises(Exception, fn, 'not-refused:' + name, name)


JOBS = {'spec%d' % k: (spec, 'plain', 150) for k in range(4)}
JOBS.update({'stokes%d' % k: (stokes, 'plain', 80) for k in range(3)})
JOBS['refuse'] = (refuse, 'plain')
