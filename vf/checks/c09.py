"""C09 - visibilities are the phased, averaged cross products: FXMaster and FXStokes against an independent definition."""
RULE = ('random arrays (2-7 stands, X and Y antennas in any order, random positions, cables, clock offsets, attenuators), sample types, transform '
        'lengths, overlaps, windows, polyphase filter bank, blanking levels, phase centres in every accepted form; compared baseline by baseline with a '
        'float64 reference correlator; plus plane waves that must come out with zero phase at their own phase centre; distinct = distinct settings with >= 1 transform')
NEED = {'baselines': 1500, 'fringes': 200, 'blanked_pairs': 50}
OPTS = {'scale': 3, 'threads': 3}
ASSUMPTIONS = ['delays within 1e-6 sample of half a sample, and samples within 1e-4 of the blanking level for complex data, are not judged (rounding)']


def array(rng, nst, spread=80.0, common=False):
    """A random array: list of (antenna) in random order, X and Y for every stand."""
    from lsl.common.stations import Antenna, Stand, Cable
    ants, k = [], 0
    ids = rng.sample(range(1, 260), nst)
    order = [(s, p) for s in range(nst) for p in (0, 1)]
    rng.shuffle(order)
    # the X and Y antennas of the stands come in the same stand order, as in a station
    stand_order = []
    for s, _ in order:
        if s not in stand_order:
            stand_order.append(s)
    stands = {s: Stand(ids[s], rng.uniform(-spread, spread), rng.uniform(-spread, spread), rng.uniform(-3, 3)) for s in range(nst)}
    seq = [(s, p) for s in stand_order for p in (0, 1)]
    if rng.random() < 0.3:
        seq = [(s, 0) for s in stand_order] + [(s, 1) for s in stand_order]
    elif rng.random() < 0.3:
        seq = [(s, p) for s in stand_order for p in (1, 0)]
    for s, p in seq:
        k += 1
        c = Cable('C%i' % k, rng.uniform(20, 150), vf=rng.uniform(0.7, 0.9), dd=rng.choice([0.0, 2.4e-9, 2.4e-9]), a0=0.00428,
                  a1=rng.choice([0.0, 1e-4]), stretch=rng.choice([1.0, 1.03]))
        c.clock_offset = rng.choice([0.0, rng.uniform(-50e-9, 50e-9)])
        c.asp_atten_db = rng.choice([0.0, 3.0])
        ants.append(Antenna(k, stand=stands[s], pol=p, cable=c, digitizer=k, status=3))
    return ants


def phase_center(rng):
    """(what to pass, azimuth deg, altitude deg)"""
    import ephem
    import astropy.units as u
    from astropy.coordinates import AltAz, SkyCoord, Angle
    kind = rng.choice(['z', 'z', 'tuple', 'tuple', 'altaz', 'sky', 'ephem'])
    az, alt = rng.uniform(0, 360), rng.uniform(5, 90)
    if kind == 'z':
        return 'z', 'z', 0.0, 90.0
    if kind == 'tuple':
        return kind, (az, alt), az, alt
    if kind == 'altaz':
        return kind, AltAz(az=az * u.deg, alt=alt * u.deg), az, alt
    if kind == 'sky':
        return kind, SkyCoord(AltAz(az=az * u.deg, alt=alt * u.deg)), az, alt
    o = ephem.Observer()
    o.lat, o.long, o.elev, o.pressure = '34', '-107', 2100, 0
    o.date = '2013/06/01 %02d:00' % rng.randrange(24)
    b = ephem.FixedBody()
    b._ra, b._dec = '19:59:28', '40:44:02'
    b.compute(o)
    import math
    return kind, b, math.degrees(float(b.az)), math.degrees(float(b.alt))


def _draw(m, i):
    from vf.checks.c08 import _signals, DT
    rng, nprng = m.rng(i), m.nprng(i)
    dt = rng.choice(DT)
    cplx = dt[0] == 'c'
    LFFT = rng.choice([2, 3, 5, 8, 16, 16, 31, 64])
    nst = rng.choice([1, 2, 3, 4, 6])
    rate, cf = (rng.choice([19.6e6, 9.8e6, 196e6]), rng.choice([38.1e6, 74.03e6])) if cplx else (196e6, 0.0)
    if cplx and rate == 196e6:
        cf = 130e6
    L = LFFT if cplx else 2 * LFFT
    need = int(3e-6 * rate) + 2
    ns = need + L * rng.choice([1, 2, 5, 12, 25]) + rng.choice([0, 1, L // 2])
    overlap = rng.choice([1, 1, 1, 2, 4, 3, 5, 7])
    pfb = rng.random() < 0.3
    win = 'none' if pfb else rng.choice(['none', 'none', 'hanning', 'blackman', 'ramp'])
    clip = rng.choice([0, 0, 0, 0, 60, 90, 110, 150, 1500])
    return rng, nprng, dt, cplx, LFFT, nst, rate, cf, ns, overlap, pfb, win, clip


def _prep(x, ants, pols, rate, cf, LFFT, src):
    import numpy as np
    from vf import dspref as R
    xr, cplx = R.as_complex(x)
    freq = R.frequencies(LFFT, cplx, rate, cf)
    groups = []
    for p in pols:
        idx = [k for k, a in enumerate(ants) if a.pol == p]
        groups.append((idx, R.delays([ants[k] for k in idx], freq, src)))
    mn = min(g[1][:, LFFT // 2].min() for g in groups)
    return xr, cplx, freq, [(g[0], g[1] - mn) for g in groups]


def fxmaster(m, n):
    import numpy as np
    from lsl.correlator import fx
    from vf import dspref as R
    from vf.checks.c08 import _signals, _windows
    W = _windows()
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng, dt, cplx, LFFT, nst, rate, cf, ns, overlap, pfb, win, clip = _draw(m, i)
        ants = array(rng, nst)
        pol = rng.choice(['XX', 'YY', 'XY', 'YX', 'xx', 'RR', 'RL'])
        if rng.random() < 0.2:                       # a single polarization array
            pol = 'XX'
            ants = [a for a in ants if a.pol == 0]
        pols = [{'X': 0, 'R': 0, 'Y': 1, 'L': 1}[c] for c in pol.upper()]
        x = _signals(rng, nprng, len(ants), ns, dt, clip)
        kind, pc, az, alt = phase_center(rng)
        auto = rng.random() < 0.6
        gain = rng.random() < 0.3
        with m.case({'i': i, 'dt': dt, 'LFFT': LFFT, 'nst': nst, 'ns': ns, 'overlap': overlap, 'pfb': pfb, 'win': win, 'clip': clip, 'rate': rate,
                     'cf': cf, 'pol': pol, 'pc': kind, 'auto': auto, 'gain': gain}):
            before = x.copy()
            bls, f, v = fx.FXMaster(x, ants, LFFT=LFFT, overlap=overlap, include_auto=auto, window=W[win], pfb=pfb, sample_rate=rate, central_freq=cf, pol=pol,
                                    gain_correct=gain, return_baselines=True, clip_level=clip, phase_center=pc)
            m.check((before == x).all(), 'input-modified')
            xr, cplx, freq, g = _prep(before, ants, pols, rate, cf, LFFT, R.pointing(az, alt))
            w = None if win == 'none' else W[win]
            F1, v1, a1 = R.fengine(xr[g[0][0]], cplx, g[0][1], freq, LFFT, rate, w, pfb, clip, overlap)
            F2, v2, a2 = R.fengine(xr[g[1][0]], cplx, g[1][1], freq, LFFT, rate, w, pfb, clip, overlap)
            m.close(f, freq, 'frequencies', rtol=1e-12, scale=max(rate, abs(cf)))
            want = [(p, q) for p in range(nst) for q in range(p, nst) if auto or p != q]
            m.equal([(a.id, b.id) for a, b in bls], [(ants[g[0][0][p]].id, ants[g[1][0][q]].id) for p, q in want], 'baseline-list')
            m.equal(v.shape, (len(want), LFFT), 'shape')
            if a1 or a2:
                m.event('ambiguous')
                continue
            k = min(v1.shape[1], v2.shape[1])
            F1, v1, F2, v2 = F1[:, :k], v1[:, :k], F2[:, :k], v2[:, :k]
            for b, (p, q) in enumerate(want):
                ref = R.pair(F1[p], v1[p], F2[q], v2[q])
                joint = (v1[p] & v2[q]).sum()
                if joint == 0:
                    m.event('empty_baselines')
                    continue
                if joint < len(v1[p]):
                    m.event('blanked_pairs')
                sc = np.sqrt((np.abs(F1[p]) ** 2).sum(axis=0).max() * (np.abs(F2[q]) ** 2).sum(axis=0).max()) / joint
                if gain:
                    gg = np.sqrt(R.cable_gain(ants[g[0][0][p]].cable, freq) * R.cable_gain(ants[g[1][0][q]].cable, freq))
                    ref, sc = ref / gg, sc / gg.min()
                m.event('baselines')
                m.close(v[b], ref, 'visibility', rtol=5e-5, scale=sc, baseline=(p, q))


def fxstokes(m, n):
    import numpy as np
    from lsl.correlator import fx
    from vf import dspref as R
    from vf.checks.c08 import _signals, _windows
    W = _windows()
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng, dt, cplx, LFFT, nst, rate, cf, ns, overlap, pfb, win, clip = _draw(m, i)
        ants = array(rng, nst)
        x = _signals(rng, nprng, len(ants), ns, dt, clip)
        kind, pc, az, alt = phase_center(rng)
        auto = rng.random() < 0.6
        gain = rng.random() < 0.3
        with m.case({'i': i, 'dt': dt, 'LFFT': LFFT, 'nst': nst, 'ns': ns, 'overlap': overlap, 'pfb': pfb, 'win': win, 'clip': clip, 'rate': rate,
                     'cf': cf, 'pc': kind, 'auto': auto, 'gain': gain}):
            before = x.copy()
            bls, f, v = fx.FXStokes(x, ants, LFFT=LFFT, overlap=overlap, include_auto=auto, window=W[win], pfb=pfb, sample_rate=rate, central_freq=cf,
                                    gain_correct=gain, return_baselines=True, clip_level=clip, phase_center=pc)
            m.check((before == x).all(), 'input-modified')
            xr, cplx, freq, g = _prep(before, ants, [0, 1], rate, cf, LFFT, R.pointing(az, alt))
            w = None if win == 'none' else W[win]
            # both engines see their own largest delay; the X engine needs the same number of transforms from both
            FX, vX, a1 = R.fengine(xr[g[0][0]], cplx, g[0][1], freq, LFFT, rate, w, pfb, clip, overlap)
            FY, vY, a2 = R.fengine(xr[g[1][0]], cplx, g[1][1], freq, LFFT, rate, w, pfb, clip, overlap)
            m.close(f, freq, 'frequencies', rtol=1e-12, scale=max(rate, abs(cf)))
            want = [(p, q) for p in range(nst) for q in range(p, nst) if auto or p != q]
            m.equal([(a.id, b.id) for a, b in bls], [(ants[g[0][0][p]].id, ants[g[1][0][q]].id) for p, q in want], 'baseline-list')
            m.equal(v.shape, (4, len(want), LFFT), 'shape')
            if a1 or a2:
                m.event('ambiguous')
                continue
            k = min(vX.shape[1], vY.shape[1])
            FX, vX, FY, vY = FX[:, :k], vX[:, :k], FY[:, :k], vY[:, :k]
            for b, (p, q) in enumerate(want):
                xx, yy = R.pair(FX[p], vX[p], FX[q], vX[q]), R.pair(FY[p], vY[p], FY[q], vY[q])
                xy, yx = R.pair(FX[p], vX[p], FY[q], vY[q]), R.pair(FY[p], vY[p], FX[q], vX[q])
                gg = 1.0
                js = [(vX[p] & vX[q]).sum(), (vY[p] & vY[q]).sum(), (vX[p] & vY[q]).sum(), (vY[p] & vX[q]).sum()]
                if min(js) == 0:
                    m.event('empty_baselines')
                    continue
                if min(js) < len(vX[p]):
                    m.event('blanked_pairs')
                sc = sum((np.abs(F) ** 2).sum(axis=0).max() for F in (FX[p], FX[q], FY[p], FY[q])) / min(js)
                if gain:
                    gg = np.sqrt(R.cable_gain(ants[g[0][0][p]].cable, freq) * R.cable_gain(ants[g[1][0][q]].cable, freq))
                    sc = sc / gg.min()
                m.event('baselines')
                R.judge_stokes(m, v[:, b], xx, yy, xy, yx, gg, sc, 5e-5, 'stokes', baseline=(p, q))


def fringe(m, n):
    """A monochromatic plane wave from the phase centre, delayed by geometry and cable, has zero phase on every baseline."""
    import numpy as np
    from lsl.correlator import fx
    from vf import dspref as R
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        nst = rng.choice([2, 3, 5])
        ants = array(rng, nst)
        rate, cf, LFFT = 19.6e6, rng.choice([38.1e6, 60e6, 74.03e6]), rng.choice([16, 32, 63])
        kind, pc, az, alt = phase_center(rng)
        if alt < 1:
            continue
        src = R.pointing(az, alt)
        ns = 100 + LFFT * 20
        k = rng.randrange(LFFT)
        f = R.frequencies(LFFT, True, rate, cf)[k]
        t = np.arange(ns) / rate
        x = np.array([np.exp(2j * np.pi * ((f - cf) * t - f * (R.cable_delay(a.cable, f) - np.dot(src, a.stand.xyz) / R.C))) for a in ants]).astype(np.complex64)
        stokes = rng.random() < 0.4
        pol = rng.choice(['XX', 'YY', 'XY', 'YX'])
        with m.case({'i': i, 'nst': nst, 'cf': cf, 'LFFT': LFFT, 'chan': k, 'pc': kind, 'az': az, 'alt': alt, 'pol': 'IQUV' if stokes else pol}):
            if stokes:
                _, v = fx.FXStokes(x, ants, LFFT=LFFT, include_auto=True, sample_rate=rate, central_freq=cf, phase_center=pc)
                vis, q, u, vv = v[0, :, k], v[1, :, k], v[2, :, k], v[3, :, k]
                m.check(np.abs(q).max() < 2e-3 * np.abs(vis).min(), 'fringe-Q', 'unpolarized in X/Y amplitude: Q/I = %g' % (np.abs(q).max() / np.abs(vis).min()))
                m.check(np.abs(u - vis).max() < 2e-3 * np.abs(vis).min(), 'fringe-U', 'X and Y in phase: U != I')
                m.check(np.abs(vv).max() < 2e-3 * np.abs(vis).min(), 'fringe-V', 'X and Y in phase: V != 0')
                vis = vis / 2
            else:
                _, v = fx.FXMaster(x, ants, LFFT=LFFT, include_auto=True, sample_rate=rate, central_freq=cf, pol=pol, phase_center=pc)
                vis = v[:, k]
            m.event('fringes', len(vis))
            m.check(np.abs(np.angle(vis)).max() < 2e-3, 'fringe-phase', 'phase %g rad' % np.abs(np.angle(vis)).max())
            m.check(np.abs(np.abs(vis) - LFFT).max() < 1e-3 * LFFT, 'fringe-amplitude', 'amplitude %s, expected %d' % (np.abs(vis)[:3], LFFT))


JOBS = {'fx%d' % k: (fxmaster, 'plain', 90) for k in range(4)}
JOBS.update({'st%d' % k: (fxstokes, 'plain', 60) for k in range(2)})
JOBS.update({'fr%d' % k: (fringe, 'plain', 60) for k in range(2)})
