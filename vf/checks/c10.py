"""C10 - visibilities from frequency-domain data: XMaster and XStokes against an independent definition and against the FX chain."""
RULE = ('random arrays and spectra (1-7 stands, 1-40 channels, 1-60 time samples, single or double precision or 8-bit pairs), polarization products, phase centres, '
        'gain correction, with and without autos; oracle = explicit sum over time of S_i conj(S_j) times the delay phases; distinct = distinct settings')
NEED = {'baselines': 2500, 'stokes_baselines': 600, 'chains': 20, 'engine_baselines': 500}
OPTS = {'scale': 8, 'threads': 3}


def _spectra(rng, nprng, na, nc, nt):
    import numpy as np
    dt = rng.choice(['c8', 'c16', 'i1'])
    if dt == 'i1':
        # Pairs of 8-bit integers
        x = nprng.integers(-128 if rng.random() < 0.5 else -3, 128 if rng.random() < 0.5 else 4, (na, nc, nt, 2)).astype('i1')
        if rng.random() < 0.3:
            x = np.ascontiguousarray(x.transpose(0, 2, 1, 3)).transpose(0, 2, 1, 3)
        return x
    x = (nprng.normal(0, 1, (na, nc, nt)) + 1j * nprng.normal(0, 1, (na, nc, nt))).astype(dt)
    lay = rng.choice(['c', 'c', 'f', 'strided', 'swapped'])
    if lay == 'f':
        x = np.asfortranarray(x)
    elif lay == 'strided':
        b = np.zeros((na, nc, 2 * nt), dtype=dt)
        b[..., ::2] = x
        x = b[..., ::2]
    elif lay == 'swapped':
        x = np.ascontiguousarray(x.transpose(0, 2, 1)).transpose(0, 2, 1)
    return x


def _complex(x):
    import numpy as np
    return x[..., 0].astype(np.float64) + 1j * x[..., 1] if x.dtype == np.int8 else x.astype(np.complex128)


def engines(m, n):
    """The cross multipliers themselves, with every input type and transforms missing from some of the stands."""
    import numpy as np
    from lsl.correlator import _core, _stokes
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng = m.rng(i), m.nprng(i)
        nst, nc, nt = rng.choice([1, 2, 3, 6]), rng.choice([1, 3, 17]), rng.choice([1, 2, 9, 40])
        x, y = _spectra(rng, nprng, nst, nc, nt), None
        while y is None or y.dtype != x.dtype:
            y = _spectra(rng, nprng, nst, nc, nt)
        frac = rng.choice([0, 0, 0.2, 0.7])
        vx, vy = [(nprng.random((nst, nt)) >= frac).astype(np.uint8) for _ in range(2)]
        # The F engines blank what is not valid
        x, y = x.copy(order='K'), y.copy(order='K')
        for s in range(nst):
            x[s][:, vx[s] == 0] = 0
            y[s][:, vy[s] == 0] = 0
        X, Y = _complex(x), _complex(y)
        pairs = [(p, q) for p in range(nst) for q in range(p, nst)]
        scale = max(np.abs(X).max(), np.abs(Y).max(), 1e-6) ** 2
        with m.case({'i': i, 'nst': nst, 'nc': nc, 'nt': nt, 'dt': str(x.dtype), 'blank': frac}):
            def want(a, va, b, vb, p, q):
                k = int((va[p] & vb[q]).sum())
                return (a[p] * b[q].conj()).sum(axis=1) / k if k else None

            def judge(got, a, va, b, vb, mech):
                m.equal(got.shape, (len(pairs), nc), mech + '-shape')
                for b_, (p, q) in enumerate(pairs):
                    w = want(a, va, b, vb, p, q)
                    if w is None:
                        continue
                    m.event('engine_baselines')
                    m.close(got[b_], w, mech, rtol=1e-4, atol=2e-5 * scale)
            judge(_core.XEngine2(x, y, vx, vy), X, vx, Y, vy, 'engine-2')
            judge(_core.XEngine2(x, x, vx, vx), X, vx, X, vx, 'engine-2-same')
            four = _core.XEngine3(x, y, vx, vy)
            for k, (a, va, b, vb) in enumerate([(X, vx, X, vx), (X, vx, Y, vy), (Y, vy, X, vx), (Y, vy, Y, vy)]):
                judge(four[k], a, va, b, vb, 'engine-3-' + ['xx', 'xy', 'yx', 'yy'][k])
            if x.dtype != np.int8:
                st = _stokes.XEngine3(x, y, vx, vy)
                for b_, (p, q) in enumerate(pairs):
                    xx, yy = want(X, vx, X, vx, p, q), want(Y, vy, Y, vy, p, q)
                    if xx is None or yy is None:
                        continue
                    m.close(st[0][b_], xx + yy, 'engine-stokes-i', rtol=1e-4, atol=4e-5 * scale)
                    m.close(st[1][b_], xx - yy, 'engine-stokes-q', rtol=1e-4, atol=4e-5 * scale)


def xmaster(m, n, stokes):
    import numpy as np
    from lsl.correlator import fx
    from vf import dspref as R
    from vf.checks.c09 import array, phase_center
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng = m.rng(i), m.nprng(i)
        nst, nc, nt = rng.choice([1, 2, 3, 5, 7]), rng.choice([1, 2, 5, 16, 40]), rng.choice([1, 2, 7, 60])
        ants = array(rng, nst)
        freq = np.sort(nprng.uniform(10e6, 88e6, nc)) if rng.random() < 0.5 else 30e6 + np.arange(nc) * 25e3
        x = _spectra(rng, nprng, len(ants), nc, nt)
        kind, pc, az, alt = phase_center(rng)
        auto, gain = rng.random() < 0.6, rng.random() < 0.4
        pol = rng.choice(['XX', 'YY', 'XY', 'YX', 'LR'])
        pols = [0, 1] if stokes else [{'X': 0, 'R': 0, 'Y': 1, 'L': 1}[c] for c in pol]
        with m.case({'i': i, 'nst': nst, 'nc': nc, 'nt': nt, 'dt': str(x.dtype), 'pc': kind, 'auto': auto, 'gain': gain, 'pol': 'IQUV' if stokes else pol}):
            before = x.copy()
            if stokes:
                bls, v = fx.XStokes(freq, x, ants, include_auto=auto, gain_correct=gain, return_baselines=True, phase_center=pc)
            else:
                bls, v = fx.XMaster(freq, x, ants, include_auto=auto, pol=pol, gain_correct=gain, return_baselines=True, phase_center=pc)
            m.check((before == x).all(), 'input-modified')
            src = R.pointing(az, alt)
            idx = {p: [k for k, a in enumerate(ants) if a.pol == p] for p in (0, 1)}
            D = R.delays(ants, freq, src)
            S = _complex(before) * np.exp(2j * np.pi * freq * D)[:, :, None]
            want = [(p, q) for p in range(nst) for q in range(p, nst) if auto or p != q]
            m.equal([(a.id, b.id) for a, b in bls], [(ants[idx[pols[0]][p]].id, ants[idx[pols[1]][q]].id) for p, q in want], 'baseline-list')

            def corr(a, b):
                return (S[a] * S[b].conj()).mean(axis=1)
            for b, (p, q) in enumerate(want):
                if stokes:
                    xp, xq, yp, yq = idx[0][p], idx[0][q], idx[1][p], idx[1][q]
                    xx, yy, xy, yx = corr(xp, xq), corr(yp, yq), corr(xp, yq), corr(yp, xq)
                    gi, gj = xp, yq
                    m.event('stokes_baselines')
                else:
                    gi, gj = idx[pols[0]][p], idx[pols[1]][q]
                    ref, got = corr(gi, gj), v[b]
                    m.event('baselines')
                gg = np.sqrt(R.cable_gain(ants[gi].cable, freq) * R.cable_gain(ants[gj].cable, freq)) if gain else np.ones(nc)
                sc = 4 * (np.abs(S) ** 2).mean() / gg.min()
                if stokes:
                    R.judge_stokes(m, v[:, b], xx, yy, xy, yx, gg, sc, 2e-5, 'stokes', baseline=(p, q))
                else:
                    m.close(got, ref / gg, 'visibility', rtol=2e-5, scale=sc, baseline=(p, q))


def chain(m, n):
    """Channelize with SpecMaster's definition, correlate with XMaster: same as FXMaster up to whole-window alignment of a stationary tone comb."""
    import numpy as np
    from lsl.correlator import fx
    from vf import dspref as R
    from vf.checks.c09 import array, phase_center
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng = m.rng(i), m.nprng(i)
        nst, LFFT, rate, cf = rng.choice([2, 4]), rng.choice([16, 32]), 19.6e6, 60e6
        ants = array(rng, nst)
        freq = R.frequencies(LFFT, True, rate, cf)
        ns = 100 + 12 * LFFT
        t = np.arange(ns) / rate
        amp = nprng.normal(0, 1, (len(ants), LFFT)) + 1j * nprng.normal(0, 1, (len(ants), LFFT))
        x = np.array([sum(a[k] * np.exp(2j * np.pi * (freq[k] - cf) * t) for k in range(LFFT)) for a in amp]).astype(np.complex64)
        F = np.fft.fftshift(np.fft.fft(x[:, :10 * LFFT].reshape(len(ants), 10, LFFT), axis=2), axes=2).transpose(0, 2, 1) / np.sqrt(LFFT)
        kind, pc, az, alt = phase_center(rng)
        pol = rng.choice(['XX', 'YY', 'XY', 'YX'])
        auto = rng.random() < 0.5
        with m.case({'i': i, 'nst': nst, 'LFFT': LFFT, 'pc': kind, 'pol': pol, 'auto': auto}):
            f, v1 = fx.FXMaster(x, ants, LFFT=LFFT, include_auto=auto, sample_rate=rate, central_freq=cf, pol=pol, phase_center=pc)
            v2 = fx.XMaster(f, F.astype(np.complex64), ants, include_auto=auto, pol=pol, phase_center=pc)
            m.event('chains')
            m.close(v1, v2, 'fx-vs-x', rtol=2e-4, scale=np.abs(F).max() ** 2)
            f, s1 = fx.FXStokes(x, ants, LFFT=LFFT, include_auto=auto, sample_rate=rate, central_freq=cf, phase_center=pc)
            s2 = fx.XStokes(f, F.astype(np.complex64), ants, include_auto=auto, phase_center=pc)
            m.close(s1, s2, 'fxstokes-vs-xstokes', rtol=2e-4, scale=2 * np.abs(F).max() ** 2)


def refuse(m):
    import numpy as np
    import random
    from lsl.correlator import fx
    from vf.checks.c09 import array
    ants = array(random.Random(3), 2)
    x = np.ones((4, 8, 5), dtype=np.complex64)
    f = np.linspace(30e6, 40e6, 8)
    t = np.ones((4, 4000), dtype=np.complex64)
    for name, fn in {
        'pol': lambda: fx.XMaster(f, x, ants, pol='XQ'), 'pc': lambda: fx.XMaster(f, x, ants, phase_center='somewhere'),
        'pc-st': lambda: fx.XStokes(f, x, ants, phase_center='somewhere'), 'real': lambda: fx.XMaster(f, x.real, ants),
        'dims': lambda: fx.XMaster(f, x[:, 0, :], ants), 'unbalanced': lambda: fx.XStokes(f, x[:3], ants[:3]),
        'fx-pol': lambda: fx.FXMaster(t, ants, pol='ZZ'), 'fx-pc': lambda: fx.FXMaster(t, ants, phase_center='n'),
        'fx-pfb': lambda: fx.FXMaster(t, ants, pfb=True, window=np.hanning), 'fxs-pfb': lambda: fx.FXStokes(t, ants, pfb=True, window=np.hanning),
        'fx-lfft': lambda: fx.FXMaster(t, ants, LFFT=0), 'fx-overlap': lambda: fx.FXMaster(t, ants, LFFT=8, overlap=0),
        'fx-win': lambda: fx.FXMaster(t, ants, LFFT=8, window=lambda L: np.ones(2)),
    }.items():
        with m.case({'refuse': name}):
            m.raises(Exception, fn, 'not-refused:' + name, name)


JOBS = {'x%d' % k: (xmaster, 'plain', 100, False) for k in range(4)}
JOBS.update({'s%d' % k: (xmaster, 'plain', 60, True) for k in range(2)})
JOBS['engines'] = (engines, 'plain', 60)
JOBS['chain'] = (chain, 'plain', 30)
JOBS['refuse'] = (refuse, 'plain')
