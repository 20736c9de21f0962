"""C31 - antenna patterns, sky maps and signal-chain responses are those of their models."""
import io
import os

RULE = ('random directions (scalars, vectors, maps; degrees, radians, ephem and astropy angles), frequencies, polarizations and models, with synthetic electromagnetic models, filter responses and sky maps served over the loopback network, and '
        'random NEC outputs, against independent implementations of the published models; distinct = distinct cases')
OPTS = {'scale': 5}
NEED = {'empirical': 60, 'nec': 60, 'mueller': 60, 'skymap': 10, 'projected': 10, 'responses': 40, 'necutils': 60}


def _lin(grid, x):
    """indices and weights of a linear interpolation on an increasing grid"""
    import numpy as np
    i = np.clip(np.searchsorted(grid, x, side='right') - 1, 0, len(grid) - 2)
    w = (x - grid[i]) / (grid[i + 1] - grid[i])
    return i, w


def _bilinear(P, alts, azs, alt, az):
    """P[..., alt, az] interpolated at the points alt, az (alts and azs increasing)"""
    i, u = _lin(alts, alt)
    j, v = _lin(azs, az)
    return (P[..., i, j] * (1 - u) * (1 - v) + P[..., i + 1, j] * u * (1 - v) + P[..., i, j + 1] * (1 - u) * v + P[..., i + 1, j + 1] * u * v)


def _directions(rng, nr):
    import numpy as np
    n = rng.choice([1, 2, 7, 30])
    az = nr.uniform(0, 360, n)
    alt = nr.uniform(0, 90, n)
    for q in range(n):
        r = rng.random()
        if r < 0.25:
            az[q], alt[q] = rng.randrange(361), rng.randrange(91)
        elif r < 0.35:
            az[q] = rng.choice([0.0, 360.0, 359.5, 0.5])
        elif r < 0.45:
            alt[q] = rng.choice([0.0, 90.0, 89.5, 0.5])
    return az, alt


def _call(rng, fn, az, alt, **kw):
    """The same directions in one of the forms a user has them; the answer always has the shape of az after lead axes."""
    import numpy as np
    import ephem
    from astropy.coordinates import Angle
    n = az.size
    form = rng.choice(['array', 'array', 'map', 'rad', 'astro', 'scalar', 'ephem', 'mixed', 'mixed2', 'scalar-rad'])
    if form == 'array':
        return form, fn(az.copy(), alt.copy(), **kw)
    if form == 'map':
        s = (n // 2, 2) if n % 2 == 0 else (1, n)
        r = fn(az.reshape(s), alt.reshape(s), **kw)
        assert r.shape[-2:] == s, 'shape'
        return form, r.reshape(r.shape[:-2] + (n,))
    if form == 'rad':
        return form, fn(np.radians(az), np.radians(alt), degrees=False, **kw)
    if form == 'astro':
        return form, fn(Angle(az, unit='deg'), Angle(np.radians(alt), unit='rad'), **kw)
    one = {'scalar': lambda a, b: fn(float(a), float(b), **kw),
           'scalar-rad': lambda a, b: fn(float(np.radians(a)), float(np.radians(b)), degrees=False, **kw),
           'ephem': lambda a, b: fn(ephem.degrees(float(np.radians(a))), ephem.degrees(float(np.radians(b))), **kw),
           'mixed': lambda a, b: fn(Angle(a, unit='deg'), ephem.degrees(float(np.radians(b))), **kw),
           'mixed2': lambda a, b: fn(ephem.degrees(float(np.radians(a))), float(b), **kw)}[form]
    return form, np.stack([np.asarray(one(a, b)) for a, b in zip(az, alt)], axis=-1)


def _empirical(freq, corrected, path):
    """XX and YY power pattern [alt, az] on whole degrees"""
    import numpy as np
    fit = np.load(os.path.join(path, 'lwa1-dipole-emp.npz'))
    alt, az = np.mgrid[0:91, 0:361]
    th = np.radians(90.0 - alt)
    u = th / (np.pi / 2)
    out = []
    for pol in 'XY':
        planes = []
        for c in fit['fit' + pol]:
            a, b, g, d = [sum(float(q) * freq ** (len(r) - 1 - i) for i, q in enumerate(r)) for r in c]
            planes.append((1 - u ** a) * np.cos(th) ** b + g * u * np.cos(th) ** d)
        p = np.hypot(planes[0] * np.cos(np.radians(az)), planes[1] * np.sin(np.radians(az)))
        if corrected:
            k = np.load(os.path.join(path, 'lwa1-dipole-cor.npz'))
            f = k['freqs']
            if f[0] <= freq / 1e6 <= f[-1]:
                c = [np.interp(freq / 1e6, f, k['corrs'][:, j]) for j in range(91)]
                p = p * np.array(c)[:, None]
        out.append(p)
    return out


def empirical(m, n):
    import numpy as np
    from vf.common import REPO
    from lsl.sim import beam as B
    path = os.path.join(REPO, 'lsl/data/antenna')
    m.check(set(B.get_available_models()) >= {'empirical', 'llfss', 'nec_002', 'nec_004', 'nec_008', 'nec_015', 'nec_030'}, 'models')
    alts, azs = np.arange(91.0), np.arange(361.0)
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        model = rng.choice(['empirical', 'llfss'])
        freq = rng.choice([74e6, 38e6, 20e6, 45e6, 80e6, 60e6, 88e6, round(rng.uniform(15e6, 85e6), 1)])
        if model == 'llfss' and any(abs(freq - e) < 5e5 and freq != e for e in (35e6, 80e6)):
            continue
        pol = rng.choice(['XX', 'YY', 'I', 'Q', 'xx', 'Yy', 'i'])
        az, alt = _directions(rng, nr)
        with m.case({'model': model, 'freq': freq, 'pol': pol, 'az': az.tolist(), 'alt': alt.tolist()}):
            X, Y = _empirical(freq, model == 'llfss', path)
            P = {'XX': X, 'YY': Y, 'I': X + Y, 'Q': X - Y}[pol.upper()]
            ok = np.isfinite(_bilinear(X + Y, alts, azs, alt, az))
            if not ok.any():
                continue
            az, alt = az[ok], alt[ok]
            name = model.upper() if rng.random() < 0.2 else model
            form, got = _call(rng, lambda a, b, **q: B.beam_response(name, pol, a, b, frequency=freq, **q), az, alt)
            m.close(got, _bilinear(P, alts, azs, alt, az), 'empirical:%s' % form, rtol=1e-6, scale=max(np.nanmax(X + Y), 1e-30))
            m.event('empirical')
            if rng.random() < 0.5:
                # without a model of the fields both planes have half of the power
                x, y = np.sqrt(X / 2), np.sqrt(Y / 2)
                _, M = _stokes(np.array([[x, x], [y, y]])[:, :, None])
                form, mm = _call(rng, lambda a, b, **q: B.mueller_matrix(model, a, b, frequency=freq, **q), az, alt)
                m.close(mm, _bilinear(M[..., 0, :, :], alts, azs, alt, az), 'mueller-empirical:%s' % form, rtol=1e-6, scale=max(np.nanmax(X + Y), 1e-30))
                m.event('mueller')
            if freq == 74e6:
                m.close(B.beam_response(model, pol, az, alt), got, 'empirical:default-frequency', rtol=1e-9, scale=max(np.nanmax(X + Y), 1e-30))
    with m.case({'what': 'refused'}):
        m.raises(ValueError, lambda: B.beam_response('empirical', 'ZZ', 10.0, 20.0), 'polarization-accepted')
        m.raises(ValueError, lambda: B.beam_response('nec_999', 'XX', 10.0, 20.0), 'model-accepted')
        m.raises(ValueError, lambda: B.mueller_matrix('nec_999', 10.0, 20.0), 'model-accepted')


def _nec_model(rng, nr):
    import numpy as np
    freqs = np.sort(nr.choice(np.arange(10, 95), rng.choice([6, 12, 20]), replace=False)).astype(float)
    phi = np.arange(0, 360 if rng.random() < 0.6 else 361, rng.choice([10, 30, 45]))
    theta = np.arange(0, 91, rng.choice([10, 15, 30]))
    fields = {}
    for pol in 'XY':
        for c in ('Etheta', 'Ephi'):
            fields[pol, c] = (nr.uniform(0.1, 5, (freqs.size, theta.size, phi.size)), nr.uniform(-np.pi, np.pi, (freqs.size, theta.size, phi.size)))
    return freqs, phi, theta, fields


def _hdf5(path, model, extra):
    import h5py
    import numpy as np
    freqs, phi, theta, fields = model
    with h5py.File(path, 'w') as h:
        h['freq'], h['phi'], h['theta'] = freqs, phi, theta
        for pol in 'XY':
            g = h.create_group('%s-pol_Efields' % pol)
            for c in ('Etheta', 'Ephi'):
                for s, v in zip(('Mag', 'Phase'), fields[pol, c]):
                    g['%s(%s)' % (c, s)] = np.concatenate([v, v[..., :1] * 7 + 1], axis=2) if extra else v


def _nec_grid(model, freq):
    """frequencies, altitudes and azimuths (increasing) and the Jones matrices [2, 2, freq, alt, az]"""
    import numpy as np
    freqs, phi, theta, fields = model
    best = [i for i, f in enumerate(freqs) if abs(f * 1e6 - freq) < 10e6]
    J = []
    for pol in 'XY':
        E, H = [fields[pol, c][0][best] * (np.cos(fields[pol, c][1][best]) + 1j * np.sin(fields[pol, c][1][best])) for c in ('Etheta', 'Ephi')]
        s = max(abs(E).max(), abs(H).max())
        J.append([E / s, H / s])
    J = np.array(J)
    az = phi.astype(float)
    if az[-1] < 360:
        az = np.append(az, 360.0)
        J = np.concatenate([J, J[..., :1]], axis=-1)
    return freqs[best] * 1e6, 90.0 - theta[::-1], az, J[..., ::-1, :]


def _stokes(J):
    """power patterns and Mueller matrix of Jones matrices [2, 2, ...]"""
    import numpy as np
    (a, b), (c, d) = J
    xx, yy = abs(a) ** 2 + abs(b) ** 2, abs(c) ** 2 + abs(d) ** 2
    xy = a * c.conj() + b * d.conj()
    P = {'XX': xx, 'YY': yy, 'XY': xy.real, 'YX': xy.real, 'I': xx + yy, 'Q': xx - yy, 'U': 2 * xy.real, 'V': -2 * xy.imag}
    pauli = [np.array([[1, 0], [0, 1]]), np.array([[1, 0], [0, -1]]), np.array([[0, 1], [1, 0]]), np.array([[0, -1j], [1j, 0]])]
    # M_ij = tr(s_i J s_j J^+) / 2
    M = np.zeros((4, 4) + J.shape[2:])
    for i in range(4):
        for j in range(4):
            M[i, j] = np.einsum('ab,bc...,cd,ad...->...', pauli[i], J, pauli[j], J.conj()).real / 2
    return P, M


def nec(m, n):
    """Electromagnetic models delivered by the data server."""
    import numpy as np
    from lsl.sim import beam as B
    from vf.checks.c16 import Site
    s = Site(m)
    try:
        names = ['nec_002', 'nec_004', 'nec_008', 'nec_015', 'nec_030']
        files = {'nec_%s' % q: 'antenna/NEC_er-3p0_sig-0p%s.hdf5' % q for q in ('002', '004', '008', '015', '030')}
        for r in range(m.n(n)):
            rng, nr = m.rng('model', r), m.nprng('model', r)
            for f in ('_load_response_full', '_load_response_fitted', '_build_mueller_interpolator', '_build_response_interpolator'):
                f = getattr(B, f, None)
                if hasattr(f, 'cache_clear'):
                    f.cache_clear()
            models = {}
            for name in rng.sample(names, 2):
                models[name] = _nec_model(rng, nr)
                p = os.path.join(m.scratch, 'x.hdf5')
                _hdf5(p, models[name], rng.random() < 0.3)
                s.put(files[name], data=open(p, 'rb').read(), mtime=1.7e9)
                os.unlink(p)
                s.access.remove(files[name])
            for k in range(12):
                rng, nr = m.rng(r, k), m.nprng(r, k)
                name = rng.choice(sorted(models))
                F = models[name][0] * 1e6
                q = rng.randrange(F.size - 1)
                freq = F[q] if rng.random() < 0.2 else rng.uniform(F[q], F[q + 1])
                freq = float(round(freq, 3))
                if not any(abs(f - freq) < 10e6 for f in F):
                    continue
                fs, alts, azs, J = _nec_grid(models[name], freq)
                if fs.size > 1 and not fs[0] <= freq <= fs[-1]:
                    continue
                if any(abs(abs(f - freq) - 10e6) < 10 for f in F):
                    continue
                az, alt = _directions(rng, nr)
                P, M = _stokes(J)
                if fs.size > 1:
                    i, w = _lin(fs, freq)
                    at = lambda V: _bilinear(V[..., i, :, :] * (1 - w) + V[..., i + 1, :, :] * w, alts, azs, alt, az)
                else:
                    at = lambda V: _bilinear(V[..., 0, :, :], alts, azs, alt, az)
                mf = np.sort(az)
                if mf[-1] > azs[-1]:
                    az = np.minimum(az, azs[-1])
                pol = rng.choice(['XX', 'YY', 'XY', 'YX', 'I', 'Q', 'U', 'V', 'u', 'v'])
                with m.case({'model': name, 'freq': freq, 'freqs': models[name][0].tolist(), 'pol': pol, 'az': az.tolist(), 'alt': alt.tolist()}):
                    form, got = _call(rng, lambda a, b, **q: B.beam_response(name, pol, a, b, frequency=freq, **q), az, alt)
                    m.close(got, at(P[pol.upper()]), 'nec:%s:%s' % (pol.upper(), form), rtol=1e-6, scale=2.0)
                    m.event('nec')
                    if rng.random() < 0.8:
                        form, got = _call(rng, lambda a, b, **q: B.mueller_matrix(name, a, b, frequency=freq, **q), az, alt)
                        m.close(got, at(M), 'mueller:%s' % form, rtol=1e-6, scale=2.0)
                        m.event('mueller')
    finally:
        s.close()


def skymap(m, n):
    import numpy as np
    from scipy.interpolate import CubicSpline
    from lsl import skymap as S
    from vf.common import REPO
    from vf.checks.c16 import Site
    s = Site(m)

    def model(d, f, cubic):
        lf = np.log(d['freqs'])
        sig = np.log(d['sigmas'])
        sc = np.exp(CubicSpline(lf, sig)(np.log(f))) if cubic else np.exp(np.interp(np.log(f), lf, sig))
        return sc * sum(CubicSpline(lf, d['comps'][:, i])(np.log(f)) * d['maps'][:, i] for i in range(d['comps'].shape[1]))

    try:
        shipped = {'gsm': dict(np.load(os.path.join(REPO, 'lsl/data/skymap/gsm-408locked.npz'))), 'lfsm': dict(np.load(os.path.join(REPO, 'lsl/data/skymap/lfsm-5.1deg.npz')))}
        for k in range(m.n(n)):
            rng, nr = m.rng(k), m.nprng(k)
            kind = rng.choice(['gsm', 'lfsm'])
            cls = S.SkyMapGSM if kind == 'gsm' else S.SkyMapLFSM
            own = rng.random() < 0.5
            if own:
                nf, npix, nc = rng.randint(5, 12), rng.choice([1, 12, 192, 700]), rng.randint(1, 4)
                d = {'freqs': np.sort(nr.uniform(10, 500, nf)), 'sigmas': np.sort(nr.uniform(1, 1e4, nf))[::-1].copy(), 'comps': nr.normal(size=(nf, nc)), 'maps': nr.normal(size=(npix, nc)) * 10,
                     'ra': nr.uniform(0, 2 * np.pi, npix), 'dec': np.arcsin(nr.uniform(-1, 1, npix))}
                b = io.BytesIO()
                np.savez(b, **d)
                name = 'skymap/own%d.npz' % k
                s.put(name, data=b.getvalue(), mtime=1.6e9)
                kw = {'filename': name}
            else:
                d, kw = shipped[kind], {}
            lo, hi = d['freqs'][0], d['freqs'][-1]
            f = rng.choice([73.9, 73.9, float(d['freqs'][rng.randrange(1, len(d['freqs']) - 1)]), 38.0, 408.0, rng.uniform(lo, hi), np.exp(rng.uniform(np.log(lo), np.log(min(hi, 200.0))))])
            if not lo < f < hi:
                f = 0.5 * (lo + hi)
            if f != 73.9 or rng.random() < 0.5:
                kw['freq_MHz'] = f
            with m.case({'map': kind, 'own': own, 'freq': f, 'pixels': d['ra'].size}):
                sm = cls(**kw)
                m.close(sm.ra, np.degrees(d['ra']), 'map-ra', rtol=1e-12)
                m.close(sm.dec, np.degrees(d['dec']), 'map-dec', rtol=1e-12)
                want = model(d, f, kind == 'gsm')
                sc = np.abs(want).max() if not own else max(np.abs(want).max(), 1e-3)
                m.close(sm.normalize_power(), want, 'map-power', rtol=1e-6, scale=sc)
                m.close(sm.compute_total_power(), want.sum(), 'map-total', rtol=1e-6, scale=np.abs(want).sum())
                m.event('skymap')
                if own and rng.random() < 0.4:
                    m.raises(ValueError, lambda: cls(filename=kw['filename'], freq_MHz=rng.choice([lo * 0.9, hi * 1.1])), 'map-out-of-range')
                for _ in range(2):
                    _project(m, rng, S, sm, want)
    finally:
        s.close()


def _project(m, rng, S, sm, power):
    import numpy as np
    import ephem
    lat, lon = rng.choice([34.07, -89.0, 0.0, 60.0, rng.uniform(-88, 88)]), rng.choice([-107.628, 0.0, 179.9, -200.0, 250.0, rng.uniform(-180, 180)])
    jd = rng.uniform(2455197.5, 2459215.5)              # 2010 to 2020: Earth orientation known
    p = S.ProjectedSkyMap(sm, lat, lon, jd)
    o = ephem.Observer()
    o.lat, o.lon, o.pressure, o.elevation = np.radians(lat), np.radians(lon), 0, 0
    o.date = jd - 2415020.0
    idx = range(len(power)) if len(power) <= 40 else sorted(rng.sample(range(len(power)), 40))
    b = ephem.FixedBody()
    for i in idx:
        b._ra, b._dec, b._epoch = np.radians(sm.ra[i]), np.radians(sm.dec[i]), ephem.J2000
        b.compute(o)
        alt, az = np.radians(p.alt[i]), np.radians(p.az[i])
        c = np.sin(alt) * np.sin(b.alt) + np.cos(alt) * np.cos(b.alt) * np.cos(az - b.az)
        m.check(np.degrees(np.arccos(min(c, 1))) < 0.03, 'projected-position', lambda: 'pixel at ra %r dec %r: alt %r az %r, expected %r %r' % (sm.ra[i], sm.dec[i], p.alt[i], p.az[i], np.degrees(float(b.alt)), np.degrees(float(b.az))))
    up = p.alt > 0
    m.array_equal(p.visibleAlt, p.alt[up], 'visible-alt')
    m.array_equal(p.visibleAz, p.az[up], 'visible-az')
    m.array_equal(p.visibleRa, sm.ra[up], 'visible-ra')
    m.array_equal(p.visibleDec, sm.dec[up], 'visible-dec')
    m.close(p.visiblePower, power[up], 'visible-power', rtol=1e-6, scale=max(np.abs(power).max(), 1e-3))
    l, mm, n = p.get_direction_cosines()
    a, z = np.radians(p.visibleAlt), np.radians(p.visibleAz)
    m.close(np.array([l, mm, n]), np.array([np.cos(a) * np.sin(z), np.cos(a) * np.cos(z), np.sin(a)]), 'direction-cosines', rtol=1e-12, scale=1.0)
    if up.any():
        # each of the 49152 pixels covers 1/49152 of the sphere
        m.close(p.compute_visible_power(), power[up].sum() / 49152.0, 'visible-total', rtol=1e-6, scale=max(np.abs(power[up]).sum() / 49152.0, 1e-12))
    else:
        m.raises(RuntimeError, p.compute_visible_power, 'no-visible-power')
    m.event('projected')


def responses(m, n):
    import numpy as np
    from lsl.common import stations as T
    from vf.common import REPO
    from vf.checks.c16 import Site
    s = Site(m)

    def table(name):
        return np.array([[float(x) for x in l.split('#')[0].split()] for l in open(os.path.join(REPO, 'lsl/data', name)) if l.split('#')[0].strip()])
    ant, fee = table('antenna/BurnsZ.txt'), table('frontend/fee.txt')
    COL = {'split': 0, 'full': 1, 'reduced': 2, 'split@3MHz': 4, 'full@3MHz': 5}
    # Rev I: columns 0-3 are HPF3, 10, 20 and 30 with LPF83, 4-7 the same with LPF73
    REVI = {0: (30, 83), 1: (10, 83), 2: (30, 73), 3: (3, 73), 4: (20, 83), 5: (3, 83), 6: (10, 73), 7: (20, 73)}
    REVH = {0: 0, 1: 1, 2: 2, 4: 3}
    try:
        for k in range(m.n(n)):
            rng, nr = m.rng(k), m.nprng(k)
            dB = rng.random() < 0.5
            kw = {'dB': dB} if dB or rng.random() < 0.5 else {}
            with m.case({'what': 'responses', 'i': k, 'dB': dB}):
                a = T.Antenna(1, fee=T.FEE('x', 1)) if rng.random() < 0.5 else T.Antenna(2)
                f, r = a.response(**kw)
                m.close(f, ant[:, 0] * 1e6, 'antenna-response-freq', rtol=1e-12)
                m.close(r, 10 * np.log10(ant[:, 3]) if dB else ant[:, 3], 'antenna-response', rtol=1e-9)
                f, r = T.FEE('x', 1).response(**kw)
                m.close(f, fee[:, 0] * 1e6, 'fee-response-freq', rtol=1e-12)
                m.close(r, fee[:, 1] if dB else 10 ** (fee[:, 1] / 10), 'fee-response', rtol=1e-9)
                c = T.Cable('c', rng.uniform(10, 300), vf=0.83, a0=rng.uniform(0.001, 0.01), a1=rng.uniform(0, 0.001), stretch=rng.uniform(0.9, 1.1))
                f, r = c.response(**kw)
                m.close(f, np.arange(1, 11) * 1e7, 'cable-response-freq', rtol=1e-12)
                m.close(r, c.attenuation(frequency=np.arange(1, 11) * 1e7, dB=dB), 'cable-response', rtol=1e-9)
            rev = rng.choice('DGHIII')
            bid = {'D': lambda: rng.randint(100, 199), 'G': lambda: rng.randint(200, 299), 'H': lambda: rng.randint(8200, 8300), 'I': lambda: rng.randint(300, 499)}[rev]()
            ch = rng.randint(1, 16)
            nf = rng.choice([3, 20])
            cols = 8 if rev == 'I' else 4
            freq = np.linspace(5e6, 98e6, nf)
            data = {'ch%d' % q: nr.uniform(-40, 40, (nf, cols)) for q in range(1, 17)}
            b = io.BytesIO()
            np.savez(b, freq=freq, **data)
            name = 'arx/ARX_board_%04d_filters.npz' % bid
            s.put(name, data=b.getvalue(), mtime=1.6e9 + 1000 * k)
            try:
                s.access.remove(name)
            except Exception:
                pass
            arx = T.ARX(bid, ch, rng.randint(1, 256))
            m.equal(arx.revision(), rev, 'arx-revision')
            for filt in list(range(8)) + sorted(COL):
                num = COL.get(filt, filt)
                dB = rng.random() < 0.5
                kw = {'dB': dB} if not dB or rng.random() < 0.5 else {}
                if filt != 'split' or rng.random() < 0.5:
                    kw['filter'] = filt
                with m.case({'board': bid, 'channel': ch, 'filter': filt, 'dB': dB}):
                    if rev != 'I' and num not in REVH:
                        m.raises(ValueError, lambda: arx.response(**kw), 'arx-filter-accepted', 'filter %r of a Rev %s board' % (filt, rev))
                        continue
                    col = REVH[num] if rev != 'I' else [(h, l) for l in (83, 73) for h in (3, 10, 20, 30)].index(REVI[num])
                    f, r = arx.response(**kw)
                    want = data['ch%d' % ch][:, col]
                    m.close(f, freq, 'arx-freq', rtol=1e-12)
                    m.close(r, want if dB else 10 ** (want / 10), 'arx-response:%s' % rev, rtol=1e-9)
                    m.event('responses')
            with m.case({'what': 'unknown filter'}):
                m.raises(ValueError, lambda: arx.response(filter=rng.choice([8, -1, 'wide', None])), 'arx-filter-accepted')
    finally:
        s.close()


def _out(freqs, rng, z=None, pattern=None, excitation=None):
    """a NEC output file"""
    t = [' ' * 30 + '- - - COMMENTS - - -', ' FREQUENCY= 1.0000E+00 MHZ in a comment', '', ' ' * 30 + '- - - STRUCTURE SPECIFICATION - - -', ' 1 0.0 0.0 1.0', '']
    four = rng.random() < 0.5
    for i, f in enumerate(freqs):
        t += [' ' * 30 + '- - - - - - FREQUENCY - - - - - -', '']
        t += [' ' * 30 + ('FREQUENCY= %.4E MHZ' % f if four else 'FREQUENCY : %.4E MHz' % f), ' ' * 30 + 'WAVELENGTH= 1.0 METERS', '']
        if z is not None:
            a, b = '%.5E' % z[i].real, '%.5E' % z[i].imag
            t += ['- - - ANTENNA INPUT PARAMETERS - - -', '', ' TAG SEG VOLTAGE (VOLTS) CURRENT (AMPS) IMPEDANCE (OHMS) ADMITTANCE (MHOS) POWER', ' NO. NO. REAL IMAG. REAL IMAG. REAL IMAG. REAL IMAG. (WATTS)',
                  ' 1 5 1.00000E+00 0.00000E+00 1.00000E-03 -2.00000E-03 %s%s%s 1.0E-03 2.0E-03 5.0E-04' % (a, '' if b.startswith('-') and rng.random() < 0.5 else ' ', b), '']
        if pattern is not None:
            t += [' ' * 30 + '- - - RADIATION PATTERNS - - -', '', ' RANGE = 1.0', '  - - ANGLES - -  - POWER GAINS -', '  THETA PHI VERT. HOR. TOTAL AXIAL TILT SENSE', '  DEGREES DEGREES DB DB DB RATIO DEG.']
            for th, ph, g, p in pattern:
                t += ['  %.2f %.2f -10.0 -20.0 %.2f 0.00000 %.2f LINEAR 1.0E+00 0.0 1.0E+00 0.0' % (th, ph, g, p)]
            t += ['', ' RUN TIME = 0.1']
        if excitation is not None:
            for th, ph, c, p in excitation:
                t += [' ' * 30 + '- - - EXCITATION - - -', '', ' PLANE WAVE THETA= %.2f DEG, PHI= %.2f DEG, ETA= 0.00' % (th, ph)] + ['x'] * 9
                t += [' 5 1 0.0 0.0 0.0 0.1 1.0E-03 2.0E-03 %.4E %.3f' % (c, p)] + ['', '', '']
            t += ['', ' RUN TIME = 0.1']
    return '\n'.join(t) + '\n'


def necutils(m, n):
    import numpy as np
    import warnings
    from lsl.sim import necutils as N
    warnings.simplefilter('ignore')
    d = m.scratch
    bindir = os.path.join(d, 'bin')
    os.makedirs(bindir, exist_ok=True)
    old = os.environ['PATH']
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        base = os.path.join(d, 'ant.v%d' % rng.randrange(10))
        nm, out = base + '.nec', base + '.out'
        kind = rng.choice(['z', 'pattern', 'pattern', 'excitation', 'card', 'run', 'mismatch', 'broken'])
        f0 = rng.choice([74.0, 38.0, 10.0, round(rng.uniform(5, 95), 2)])
        sep = rng.choice([',', ' '])
        tail = rng.choice(['', sep + '0.5'])
        card = 'FR 0%s%d%s0%s0%s%s%s1.0%s' % (sep, 1, sep, sep, sep, rng.choice(['74.0', '20', '1.5E+01']), sep, tail)
        cards = ['CM test FR', 'CE', 'GW 1 9 0 0 0 0 0 1 0.01', 'GE 0', card, 'RP 0,91,360,1000,0.,0.,1.0,1.0,0.', 'EN']
        eol = rng.choice(['\n', ''])
        open(nm, 'w').write('\n'.join(cards) + eol)
        with m.case({'kind': kind, 'freq': f0, 'i': k, 'card': card}):
            pts = {}
            for _ in range(rng.choice([1, 5, 60])):
                th, ph = rng.choice([0, 90, rng.randrange(91), rng.randrange(91), 95]), rng.choice([0, 359, rng.randrange(360), rng.randrange(360), 360])
                pts[th, ph] = (round(rng.uniform(-40, 10), 2), round(rng.uniform(-180, 180), 2))
            pattern = [(t, p) + v for (t, p), v in pts.items()]
            if kind == 'z':
                F = np.sort(nr.choice(np.arange(5, 100), rng.choice([1, 2, 20]), replace=False)).astype(float)
                z = np.array([complex(float('%.5E' % rng.uniform(0.1, 500)), float('%.5E' % rng.choice([rng.uniform(-600, 600), -1e-3, 0.0]))) for _ in F])
                open(out, 'w').write(_out(F, rng, z=z))
                a = N.NECImpedance(nm)
                m.close(a.freqs, F, 'nec-impedance-freq', rtol=1e-9)
                m.close(a.z, z, 'nec-impedance', rtol=1e-9)
                z0 = rng.choice([100, 100, 50.0, 75])
                kw = {} if z0 == 100 and rng.random() < 0.7 else {'zpre': z0}
                ime = 1 - np.abs((z - z0) / (z + z0)) ** 2
                f, got = N.calculate_ime(nm, **kw)
                m.close(f, F, 'ime-freq', rtol=1e-9)
                m.close(got, ime, 'ime', rtol=1e-9, scale=1.0)
                if F.size > 1:
                    g = np.sort(nr.uniform(F[0], F[-1], 7))
                    f, got = N.calculate_ime(nm, myfreqs=g, **kw)
                    m.close(f, g, 'ime-freq', rtol=1e-9)
                    m.close(got, np.interp(g, F, ime), 'ime-interpolated', rtol=1e-9, scale=1.0)
            elif kind in ('pattern', 'excitation'):
                if kind == 'excitation':
                    pattern = [(t, p, float('%.4E' % 10 ** (g / 10)), ph) for t, p, g, ph in pattern]
                near = f0 * (1 + rng.choice([0, 0, 0.003, -0.003]))
                open(out, 'w').write(_out([f0], rng, **{kind: pattern}))
                before = open(nm).read()
                p = N.NECPattern(nm, near, rerun=rng.random() < 0.5)
                m.equal(open(nm).read(), before, 'nec-input-changed')
                dB, cx = np.zeros((360, 91)), np.zeros((360, 91), dtype=complex)
                for t, ph, g, a in pattern:
                    if t <= 90 and ph < 360:
                        lin = g if kind == 'excitation' else 10 ** (g / 10)
                        dB[ph, 90 - t] = 10 * np.log10(lin)
                        cx[ph, 90 - t] = lin * np.exp(1j * np.radians(a))
                m.close(p.antenna_pat_dB, dB, 'nec-pattern-dB:' + kind, rtol=1e-6, scale=40.0)
                m.close(p.antenna_pat_complex, cx, 'nec-pattern-complex:' + kind, rtol=1e-6, scale=np.abs(cx) + 1e-12)
            elif kind == 'card':
                N.change_nec_freq(nm, f0)
                got = open(nm).read().split('\n')
                m.equal([l for l in got if l and l[:2] != 'FR'], [l for l in cards if l[:2] != 'FR'], 'nec-card-others')
                fr = [l.replace(',', ' ').split() for l in got if l[:2] == 'FR']
                m.check(len(fr) == 1, 'nec-card-count')
                want = card.replace(',', ' ').split()
                m.equal(fr[0][:5] + fr[0][6:], want[:5] + want[6:], 'nec-card-fields')
                m.check(abs(float(fr[0][5]) - f0) < 0.006, 'nec-card-frequency', lambda: '%s for %r' % (fr[0], f0))
            elif kind in ('run', 'mismatch'):
                f1 = f0 * rng.choice([0.5, 0.95, 1.05, 2])
                if rng.random() < 0.7:
                    open(out, 'w').write(_out([f1], rng, pattern=[(10, 20, 5.0, 0.0)]))
                elif os.path.exists(out):
                    os.unlink(out)
                have = os.path.exists(out)
                res = os.path.join(d, 'result')
                open(res, 'w').write(_out([f0 if kind == 'run' else f1], rng, pattern=pattern))
                exe = os.path.join(bindir, 'nec4d')
                open(exe, 'w').write('#!/bin/sh\ngrep ^FR "$1" > %s/card\ncp %s "$2"\n' % (d, res))
                os.chmod(exe, 0o755)
                if have:
                    m.raises(ValueError, lambda: N.NECPattern(nm, f0, rerun=False), 'nec-wrong-frequency-used')
                os.environ['PATH'] = '/bin:/usr/bin'
                try:
                    m.equal(N.which_nec4(), None, 'which-nec4')
                    m.raises(RuntimeError, lambda: N.NECPattern(nm, f0), 'nec-missing')
                    os.environ['PATH'] = bindir + ':/bin:/usr/bin'
                    m.equal(N.which_nec4(), exe, 'which-nec4')
                    if kind == 'mismatch':
                        m.raises(ValueError, lambda: N.NECPattern(nm, f0), 'nec-wrong-frequency-used')
                    else:
                        p = N.NECPattern(nm, f0)
                        got = float(open(os.path.join(d, 'card')).read().replace(',', ' ').split()[5])
                        m.check(abs(got - f0) < 0.006, 'nec-run-frequency', lambda: 'NEC was run for %r, not %r' % (got, f0))
                        for t, ph, g, a in pattern:
                            if t <= 90 and ph < 360:
                                m.check(abs(p.antenna_pat_dB[ph, 90 - t] - g) < 1e-4, 'nec-run-pattern')
                    open(exe, 'w').write('#!/bin/sh\nexit 3\n')
                    if os.path.exists(out):
                        os.unlink(out)
                    m.raises(RuntimeError, lambda: N.NECPattern(nm, f0), 'nec-failure-ignored')
                finally:
                    os.environ['PATH'] = old
            else:
                t = _out([f0], rng, z=[50 + 1j])
                open(out, 'w').write(t.replace('STRUCTURE SPEC', 'NOTHING'))
                m.raises(RuntimeError, lambda: N.open_and_get_nec_freq(out), 'nec-broken-accepted')
                m.raises(RuntimeError, lambda: N.NECImpedance(nm), 'nec-broken-accepted')
                open(out, 'w').write(t)
                fh, f = N.open_and_get_nec_freq(out)
                fh.close()
                m.check(abs(f - f0) < 1e-3 * f0, 'nec-frequency')
                m.raises(RuntimeError, lambda: N.NECPattern(nm, f0), 'nec-no-pattern-accepted')
            m.event('necutils')


JOBS = {'empirical0': (empirical, 'plain', 40), 'empirical1': (empirical, 'plain', 40), 'nec0': (nec, 'plain', 6), 'nec1': (nec, 'plain', 6), 'skymap': (skymap, 'plain', 12), 'responses': (responses, 'plain', 12), 'necutils': (necutils, 'plain', 100)}
