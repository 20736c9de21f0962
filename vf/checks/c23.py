"""C23 - images: the Fourier sum of the visibilities, on the right part of the sky."""
import math
RULE = ('random visibilities, coordinates, grids (size, resolution, even and odd widths, w resolution), channel and polarization choices, integrations and phase centers through build_gridded_image; '
        'compared with the direct Fourier sum, with exact relations between images, and with positions computed from the projection; simulated sources have to show up where they are; distinct = distinct set-ups')
NEED = {'dirty': 60, 'relations': 60, 'located': 40, 'odd': 20, 'coordinates': 40, 'tapers': 20}
OPTS = {'scale': 2}
ASSUMPTIONS = ['visibilities have unit weight (the gridder leaves weighting of the visibilities to the caller)', 'the outer half of the image, where the gridding kernel falls off, is not judged in value', 'positions to 1.5 pixels']


def setup(rng, n=4, nc=1):
    import numpy as np
    from vf.checks.c18 import station
    from lsl.sim.vis import build_sim_array
    ids = rng.sample(range(1, 250), n)
    st, ants = station(rng, ids)
    freq = rng.uniform(30e6, 70e6) + 2e5 * np.arange(nc)
    jd = 2455800.5 + rng.uniform(0, 4000)
    aa = build_sim_array(st, ants, freq, jd=jd, force_flat=True)
    return st, ants, freq, jd, aa


def center(rng, aa, jd):
    """a phase center in one of the accepted forms, with its mean place of date (radians)"""
    import ephem, aipy
    import astropy.units as u
    from astropy.coordinates import FK5, ICRS, SkyCoord
    from astropy.time import Time
    from lsl import astro
    from lsl.sim.vis import RadioFixedBody
    ra, dec = rng.uniform(0, 2 * math.pi), math.asin(rng.uniform(-0.98, 0.98))
    kind = rng.choice(['equ', 'sky', 'fk5', 'icrs', 'body'])
    t = Time(jd, format='jd', scale='utc')
    if kind == 'equ':
        pc = astro.equ_posn(math.degrees(ra), math.degrees(dec))
        c = FK5(ra * u.rad, dec * u.rad)
    elif kind == 'body':
        pc = RadioFixedBody(ra, dec, name='pc')
        aa.set_jultime(jd)
        pc.compute(aa)
        return kind, pc, float(pc.ra), float(pc.dec)
    elif kind == 'sky':
        pc = c = SkyCoord(ra * u.rad, dec * u.rad, frame=rng.choice(['icrs', 'fk5']))
    elif kind == 'fk5':
        pc = c = FK5(ra * u.rad, dec * u.rad, equinox=rng.choice(['J2000', 'J2015']))
    else:
        pc = c = ICRS(ra * u.rad, dec * u.rad)
    d = c.transform_to(FK5(equinox=t))
    return kind, pc, d.ra.rad, d.dec.rad


def draw(rng, nrg, aa, jd, freq, n, umax, wmax, pols, pc):
    import numpy as np
    from lsl.imaging.data import VisibilityDataSet, PolarizationDataSet
    nc = len(freq)
    uvw = np.zeros((n, 3, nc))
    uvw[:, 0] = nrg.uniform(-umax, umax, (n, nc))
    uvw[:, 1] = nrg.uniform(-umax, umax, (n, nc))
    if wmax:
        uvw[:, 2] = nrg.uniform(-wmax, wmax, (n, nc))
    d = VisibilityDataSet(jd, freq.copy(), [(0, 1 + i) for i in range(n)], uvw, antennaarray=aa, phase_center=pc)
    for p in pols:
        d.append(PolarizationDataSet(p, (nrg.normal(size=(n, nc)) + 1j * nrg.normal(size=(n, nc))).astype(np.complex64)))
    return d


def grid(rng, odd=True):
    """(size, res): size/res pixels"""
    n = rng.choice([60, 80, 100] + ([61, 63, 75, 99] if odd else []))
    res = rng.choice([0.5, 0.5, 1.0, 2.0])
    return n * res, res, n


def dirty(m):
    import numpy as np
    from lsl.imaging.utils import build_gridded_image
    for k in range(m.n(80, 1000)):
        if m.over():
            break
        rng, nrg = m.rng('dirty', k), m.nprng('dirty', k)
        st, ants, freq, jd, aa = setup(rng, nc=rng.choice([1, 2, 4]))
        size, res, N = grid(rng)
        wmax = rng.choice([0, 0, 3, 10]) if res == 0.5 else rng.choice([0, 3, 10, 30])
        kind, pc, ra, dec = center(rng, aa, jd)
        n = rng.choice([1, 5, 20, 60])
        pols = rng.sample(['XX', 'YY', 'XY', 'I'], rng.choice([1, 2]))
        d = draw(rng, nrg, aa, jd, freq, n, size / 2 - 4 * res, wmax, pols, pc)
        pol = rng.choice(pols)
        ch = None if rng.random() < 0.6 else sorted(rng.sample(range(len(freq)), rng.randrange(1, len(freq) + 1)))
        with m.case({'dirty': k, 'size': size, 'res': res, 'wmax': wmax, 'n': n, 'pol': pol, 'chan': ch, 'pc': kind}):
            kw = dict(size=size, res=res, pol=pol)
            if wmax:
                kw['wres'] = 0.01
            if ch is not None:
                kw['chan'] = ch if len(ch) > 1 or rng.random() < 0.5 else ch[0]
            im = build_gridded_image(d, **kw)
            img = np.array(im.image())
            m.require(img.shape == (N, N), 'image-size', 'got %s, expected %d pixels' % (img.shape, N))
            m.event('dirty')
            m.event('odd', N % 2)
            sel = list(range(len(freq))) if ch is None else ch
            x = np.arange(N)
            x = np.where(x > (N - 1) // 2, x - N, x) / size                  # direction cosines of an unshifted image
            L, M = np.meshgrid(-x, x)                                          # east to the left, north up
            r2 = L ** 2 + M ** 2
            ok = (np.abs(L) < 0.25 / res) & (np.abs(M) < 0.25 / res) & (r2 < 0.8)
            nn = np.sqrt(np.where(ok, 1 - r2, 1))
            ref = np.zeros((N, N))
            bm = np.zeros((N, N))
            for i in range(n):
                for c in sel:
                    u, v, w = d.uvw[i, :, c]
                    ph = np.exp(-2j * math.pi * (u * L + v * M + w * (nn - 1)))
                    ref += 2 * (getattr(d, pol).data[i, c] * ph).real / N ** 2
                    bm += 2 * ph.real / N ** 2
            e = np.abs(img - ref)[ok].max() / np.abs(ref[ok]).max()
            m.check(e < 0.08, 'dirty-image', lambda: 'the image differs from the Fourier sum by %.3f of its peak' % e)
            b = np.array(im.bm_image(term=0))
            if wmax == 0:
                e = np.abs(b - bm)[ok].max() / np.abs(bm[ok]).max()
                m.check(e < 0.08, 'dirty-beam', lambda: 'the beam differs from the Fourier sum by %.3f of its peak' % e)
            # the coordinates of the pixels
            Lg, Mg = im.get_LM()
            good = ~np.ma.getmaskarray(Lg) & (r2 < 0.98) & (np.abs(L) < 0.499 / res) & (np.abs(M) < 0.499 / res)
            m.close(np.array(Lg.filled(9))[good], L[good], 'get-LM', rtol=0, atol=1e-6)
            m.close(np.array(Mg.filled(9))[good], M[good], 'get-LM', rtol=0, atol=1e-6)
            coords(m, rng, im, size, N, ra, dec, jd, aa)


def coords(m, rng, im, size, N, ra0, dec0, jd, aa):
    """wcs, get_image_radec, get_image_azalt against the projection"""
    import numpy as np
    from lsl.imaging.utils import get_image_radec, get_image_azalt
    m.event('coordinates')
    px = np.arange(N) - N // 2
    step = 2 * math.asin(0.5 / size)
    m.close(im.pixel_size, step, 'pixel-size', rtol=1e-9)
    m.close(im.field_of_view, 2 * math.asin(min(1.0, 0.5 / im.res)), 'field-of-view', rtol=1e-9)
    X, Y = np.meshgrid(px, px)
    L, M = -X * step, Y * step
    r2 = L ** 2 + M ** 2
    ok = r2 < 0.95
    n = np.sqrt(np.where(ok, 1 - r2, 0))
    dec = np.arcsin(np.clip(M * math.cos(dec0) + n * math.sin(dec0), -1, 1))
    ra = ra0 + np.arctan2(L, n * math.cos(dec0) - M * math.sin(dec0))

    def vec(ra, dec):
        return np.array([np.cos(dec) * np.cos(ra), np.cos(dec) * np.sin(ra), np.sin(dec)])
    want = vec(ra, dec)
    for shifted in (True, False, None):
        r, d = get_image_radec(im) if shifted is None else get_image_radec(im, shifted=shifted)
        g = vec(np.asarray(r), np.asarray(d))
        w, o = want, ok
        if shifted is False:
            w, o = np.roll(w, (-(N // 2), -(N // 2)), axis=(1, 2)), np.roll(ok, (-(N // 2), -(N // 2)), axis=(0, 1))
        m.close(g[:, o], w[:, o], 'image-radec', rtol=0, atol=2e-5)
    w = im.wcs
    i, j = [(a, b) for a, b in (np.argwhere(ok)[rng.randrange(ok.sum())],)][0]
    r, d = w.all_pix2world(float(j), float(i), 0)
    m.close(vec(math.radians(float(r)), math.radians(float(d))), want[:, i, j], 'wcs', rtol=0, atol=2e-5)
    if rng.random() < 0.3:
        import ephem
        o = ephem.Observer()
        o.lat, o.long, o.elev, o.pressure = aa.lat, aa.long, aa.elev, 0
        o.date = jd - 2415020.0
        lst, lat = float(o.sidereal_time()), float(aa.lat)
        sh = rng.random() < 0.5
        az, alt = get_image_azalt(im, shifted=sh)
        ha = lst - ra
        E = -np.cos(dec) * np.sin(ha)
        Nn = np.sin(dec) * math.cos(lat) - np.cos(dec) * np.cos(ha) * math.sin(lat)
        U = np.sin(dec) * math.sin(lat) + np.cos(dec) * np.cos(ha) * math.cos(lat)
        tv = np.array([E, Nn, U])
        oo = ok
        if not sh:
            tv, oo = np.roll(tv, (-(N // 2), -(N // 2)), axis=(1, 2)), np.roll(ok, (-(N // 2), -(N // 2)), axis=(0, 1))
        az, alt = np.asarray(az), np.asarray(alt)
        g = np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)])
        m.close(g[:, oo], tv[:, oo], 'image-azalt', rtol=0, atol=5e-4)
        m.event('azalt')


def relations(m):
    """exact relations between images of related data"""
    import numpy as np
    from lsl.imaging.utils import build_gridded_image
    from lsl.imaging.data import VisibilityData
    for k in range(m.n(100, 1500)):
        if m.over():
            break
        rng, nrg = m.rng('rel', k), m.nprng('rel', k)
        nc = rng.choice([1, 2, 3])
        st, ants, freq, jd, aa = setup(rng, nc=nc)
        size, res, N = grid(rng)
        wmax = rng.choice([0, 2, 10])
        wres = rng.choice([0.1, 0.5, 0.02])
        kind, pc, ra, dec = center(rng, aa, jd)
        n = rng.choice([1, 4, 30])
        kw = dict(size=size, res=res, wres=wres, pol='XX')
        with m.case({'relations': k, 'size': size, 'res': res, 'wmax': wmax, 'wres': wres, 'n': n}):
            m.event('relations')
            d = draw(rng, nrg, aa, jd, freq, n, size * rng.choice([0.3, 0.45, 0.49]), wmax, ['XX', 'YY'], pc)
            d2 = draw(rng, nrg, aa, jd + 0.01, freq, n, size * 0.4, wmax, ['XX', 'YY'], pc)
            keep = (d.uvw.copy(), d.XX.data.copy(), d.XX.weight.copy())
            im = build_gridded_image(d, **kw)
            A = np.array(im.image())
            B = np.array(im.bm_image(term=0))
            sc = max(np.abs(A).max(), np.abs(B).max(), 1e-30)
            tol = dict(rtol=0, atol=2e-4 * sc)
            # reading an image out in any way does not change it
            for _ in range(3):
                c = (rng.randrange(N), rng.randrange(N))
                wt = rng.choice(['natural', 'uniform', 'briggs'])
                im.image(center=c, weighting=wt, robust=rng.uniform(-3, 3), taper=rng.choice([0.0, (size / 3, 0), size / 4]))
                im.bm_image(center=c, weighting=wt)
                LM = im.get_LM(center=c)
                at = np.argwhere((LM[0].filled(9) == 0) & (LM[1].filled(9) == 0))[0]
                m.equal(tuple(int(q) for q in at), c, 'center-pixel')
                m.close(im.image(center=c), np.roll(A, at, axis=(0, 1)), 'center', **tol)
            m.array_equal(np.array(im.image()), A, 'repeatable')
            m.array_equal(np.array(im.bm_image(term=0)), B, 'repeatable')
            m.array_equal(np.array(im.bm_image()[0]), B, 'repeatable')
            m.check(bool((d.uvw == keep[0]).all() and (d.XX.data == keep[1]).all() and (d.XX.weight == keep[2]).all()), 'input-changed', 'imaging changed the data')
            # order of the visibilities; conjugate baselines
            p = d.copy()
            order = list(range(n))
            rng.shuffle(order)
            p.sort(order)
            for i in range(n):
                if rng.random() < 0.3:
                    p.uvw[i] *= -1
                    p.XX.data[i] = p.XX.data[i].conj()
            im2 = build_gridded_image(p, **kw)
            m.close(np.array(im2.image()), A, 'order', **tol)
            m.close(np.array(im2.bm_image(term=0)), B, 'order', **tol)
            # linear in the data, the beam unaffected
            q = d.copy()
            a, b = rng.uniform(-3, 3), rng.uniform(-3, 3)
            other = d.YY.data
            q.XX.data = (a * d.XX.data + b * other).astype(np.complex64)
            Y = np.array(build_gridded_image(d, **dict(kw, pol='YY')).image())
            im3 = build_gridded_image(q, **kw)
            m.close(np.array(im3.image()), a * A + b * Y, 'linear', rtol=0, atol=2e-4 * 6 * max(sc, np.abs(Y).max()))
            m.close(np.array(im3.bm_image(term=0)), B, 'linear-beam', **tol)
            # several integrations, channels and calls add up
            C2 = np.array(build_gridded_image(d2, **kw).image())
            both = build_gridded_image(VisibilityData([d, d2]), **kw)
            s2 = dict(rtol=0, atol=4e-4 * max(sc, np.abs(C2).max()))
            m.close(np.array(both.image()), A + C2, 'integrations', **s2)
            step = build_gridded_image(d, **kw)
            step = build_gridded_image(d2, im=step, **kw)
            m.close(np.array(step.image()), A + C2, 'accumulate', **s2)
            acc = build_gridded_image(d, **kw)
            acc += build_gridded_image(d2, **kw)
            m.close(np.array(acc.image()), A + C2, 'add', **s2)
            m.close(np.array(acc.bm_image(term=0)), np.array(both.bm_image(term=0)), 'add-beam', rtol=0, atol=4e-4 * np.abs(B).max() * 2)
            parts = A if wmax else sum(np.array(build_gridded_image(d, chan=c if rng.random() < 0.5 else [c], **kw).image(), dtype=float) for c in range(nc))
            m.close(parts, A, 'channels', **s2)
            # weights go into the beam in proportion
            w = d.copy()
            w.XX.weight = w.XX.weight * 2.5
            m.close(np.array(build_gridded_image(w, **kw).bm_image(term=0)), 2.5 * B, 'beam-weights', rtol=0, atol=1e-3 * np.abs(B).max())
            # uniform weighting does not care how often a point was measured, natural does
            if wmax == 0 and np.abs(d.uvw[:, :2]).max() < size / 2 - 4 * res:
                tw = build_gridded_image(d, **kw)
                tw += build_gridded_image(d, **kw)
                U1, U2 = np.array(im.image(weighting='uniform')), np.array(tw.image(weighting='uniform'))
                m.close(U2, U1, 'uniform', rtol=0, atol=2e-4 * np.abs(U1).max())
                m.close(np.array(tw.image()), 2 * A, 'natural', **s2)
                nat = np.array(im.image(weighting='briggs', robust=5.0))
                m.close(nat / np.linalg.norm(nat), A / np.linalg.norm(A), 'briggs-natural', rtol=2e-3)
            # a taper goes with the coordinate of the baseline
            t = draw(rng, nrg, aa, jd, freq[:1], 1, size * 0.2, 0, ['XX'], pc)
            t.uvw[0, :, 0] = [size * rng.uniform(0.1, 0.4) * rng.choice([-1, 1]), size * rng.uniform(0.1, 0.4) * rng.choice([-1, 1]), 0]
            it = build_gridded_image(t, **kw)
            P = np.array(it.bm_image(term=0))
            tu, tv = size * rng.uniform(0.2, 0.6), size * rng.uniform(0.2, 0.6)
            for arg, f in (((tu, 0.0), (t.uvw[0, 0, 0] / tu) ** 2), ((0.0, tv), (t.uvw[0, 1, 0] / tv) ** 2), ((tu, tv), (t.uvw[0, 0, 0] / tu) ** 2 + (t.uvw[0, 1, 0] / tv) ** 2),
                           (tu, (t.uvw[0, 0, 0] / tu) ** 2 + (t.uvw[0, 1, 0] / tu) ** 2)):
                Q = np.array(it.bm_image(term=0, taper=arg))
                got, want = Q[0, 0] / P[0, 0], 0.3 ** f
                m.check(abs(got - want) < 0.25 * want + 0.02, 'taper', lambda: 'taper %s gives %.4f at the center, expected %.4f' % (arg, got, want))
                m.event('tapers')
            # image plane parametrization
            isz, ires = rng.choice([40, 60, 81]), rng.uniform(0.3, 1.5)
            ii = build_gridded_image(d, im_size=isz, im_res=ires, pol='XX')
            m.equal(ii.image().shape, (isz, isz), 'image-plane-size')
            m.close(math.degrees(ii.pixel_size), ires, 'image-plane-res', rtol=1e-6)
            # wrong ways of accumulating are refused
            for bad in (dict(size=size * 2), dict(res=res * 2), dict(wres=wres * 2)):
                try:
                    build_gridded_image(d, im=im, **dict(kw, **bad))
                    m.violation('not-refused', 'an image with another grid was accepted')
                except ValueError:
                    m.event('refused')


def located(m):
    """simulated sources show up where they are"""
    import numpy as np
    from lsl.sim import vis as V
    from lsl.imaging.utils import build_gridded_image, get_image_radec, get_image_azalt
    from vf.checks import c22
    for k in range(m.n(60, 600)):
        if m.over():
            break
        rng, nrg = m.rng('loc', k), m.nprng('loc', k)
        from vf.checks.c18 import station
        from lsl.common.stations import LWAStation, Antenna, Stand, Cable
        n = 40
        ants = [Antenna(i + 1, stand=Stand(i + 1, rng.uniform(-60, 60), rng.uniform(-60, 60), rng.uniform(-1, 1)), pol=0, digitizer=i + 1, cable=Cable('c', 10, vf=0.8)) for i in range(n)]
        st = LWAStation('Test', rng.uniform(-60, 60), rng.uniform(-180, 180), rng.uniform(0, 2500), id='XX', antennas=ants)
        freq = np.array([rng.uniform(40e6, 70e6)])
        jd = 2455800.5 + rng.uniform(0, 4000)
        pk = rng.choice(['z', 'body', 'rephase', 'sky'])
        pc = c22.body_up(rng, st, [jd], lo=0.8)
        res = rng.choice([0.5, 0.5, 0.75])
        N = rng.choice([120, 121])
        size = N * res
        paz = (0.0, math.pi / 2) if pk == 'z' else pc.azalt(st, jd)
        while True:
            s = c22.Source(rng, 's')
            if s.kind != 'fixed':
                continue
            az, alt = s.azalt(st, jd)
            if alt < 0.5:
                continue
            u, v, d = c22.uv_axes(paz[0], paz[1], float(st.lat))
            e = np.array(c22.enu(az, alt))
            l, mm, nn = e @ u, e @ v, e @ d
            if max(abs(l), abs(mm)) < 0.25 / res * 0.95 and nn > 0.5:
                break
        with m.case({'located': k, 'pc': pk, 'res': res, 'N': N, 'l': l, 'm': mm}):
            aa = V.build_sim_array(st, st.antennas, freq, jd=jd, force_flat=True)
            arg = 'z' if pk in ('z', 'rephase') else pc.body
            if pk == 'sky':
                import astropy.units as un, ephem
                from astropy.coordinates import SkyCoord, FK5
                q = ephem.Equatorial(ephem.Equatorial(pc.ra, pc.dec, epoch=pc.epoch), epoch=ephem.J2000)
                arg = SkyCoord(float(q.ra) * un.rad, float(q.dec) * un.rad, frame=FK5(equinox='J2000'))
            data = V.build_sim_data(aa, {'s': s.body}, jd=jd, pols=['xx'], phase_center=arg)
            if pk == 'rephase':
                data.rephase(pc.body)
            im = build_gridded_image(data, size=size, res=res, wres=0.02, pol='XX')
            img = np.roll(np.array(im.image()), (N // 2, N // 2), axis=(0, 1))
            x0, y0 = N // 2 - l * size, N // 2 + mm * size
            X, Y = np.meshgrid(np.arange(N), np.arange(N))
            inner = (np.abs(X - N // 2) < N * 0.26) & (np.abs(Y - N // 2) < N * 0.26)
            i, j = np.unravel_index(np.argmax(np.where(inner, img, -1e9)), img.shape)
            m.event('located')
            m.event('odd', N % 2)
            m.check(math.hypot(j - x0, i - y0) < 1.5, 'source-position', lambda: 'the source is at pixel (%d, %d), expected (%.2f, %.2f)' % (j, i, x0, y0))
            ra, dec = get_image_radec(im)
            sep = _sep(ra[i, j], dec[i, j], float(s.body.ra), float(s.body.dec))
            m.check(sep < 2.2 * im.pixel_size / nn, 'source-radec', lambda: 'the peak has coordinates %.3f deg from the source' % math.degrees(sep))
            a, b = get_image_azalt(im)
            sep = _sep(a[i, j], b[i, j], az, alt)
            m.check(sep < 2.2 * im.pixel_size / nn, 'source-azalt', lambda: 'the peak has coordinates %.3f deg from the source' % math.degrees(sep))
            x, y = im.wcs.all_world2pix(math.degrees(float(s.body.ra)), math.degrees(float(s.body.dec)), 0)
            m.check(math.hypot(float(x) - j, float(y) - i) < 2.0, 'source-wcs', lambda: 'the WCS puts the source at (%.2f, %.2f), the image at (%d, %d)' % (x, y, j, i))


def _sep(a1, d1, a2, d2):
    c = math.sin(d1) * math.sin(d2) + math.cos(d1) * math.cos(d2) * math.cos(a1 - a2)
    return math.acos(max(-1, min(1, c)))


JOBS = {'dirty': (dirty, 'plain'), 'relations': (relations, 'plain'), 'located': (located, 'plain')}
