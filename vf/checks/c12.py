"""C12 - baselines and uv coordinates."""
RULE = ('random arrays, sites, phase centers (every accepted angle type), frequency arrays of every shape and baseline lists; uvw compared with the projection '
        'of the baseline on the axes of the source, built independently; baseline numbering judged for every pair; distinct = distinct cases')
OPTS = {'scale': 10}
NEED = {'uvw_values': 2000, 'tracks': 200, 'pairs': 2000}


def _array(rng, n, ids=None):
    from lsl.common.stations import Antenna, Stand, Cable
    ids = ids or rng.sample(range(1, 3 * n + 1), n)
    out = []
    for k in range(n):
        s = Stand(ids[k], rng.uniform(-300, 300), rng.uniform(-300, 300), rng.uniform(-20, 20))
        out.append(Antenna(2 * ids[k] - 1, stand=s, pol=0, digitizer=k + 1, cable=Cable('c', 10, vf=0.8)))
    return out


def _second(ants):
    from lsl.common.stations import Antenna
    return [Antenna(a.id + 1, stand=a.stand, pol=1, digitizer=a.digitizer + 1000, cable=a.cable) for a in ants]


def baselines(m, n):
    from lsl.correlator import uvutils
    from vf.mon import omit
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        ns = rng.choice([1, 2, 3, 5, 8])
        a = _array(rng, ns)
        two = rng.random() < 0.5
        b = _second(a) if two else None
        auto = rng.random() < 0.5
        with m.case({'i': i, 'ns': ns, 'two': two, 'auto': auto}):
            bl = uvutils.get_baselines(a, **omit(rng, {'antennas2': b, 'include_auto': auto}, antennas2=None, include_auto=False))
            second = b or a
            want = [(a[p], second[q]) for p in range(ns) for q in range(p if auto else p + 1, ns)]
            m.equal([(x.id, y.id) for x, y in bl], [(x.id, y.id) for x, y in want], 'baseline-list')
            for k, (x, y) in enumerate(want):
                m.event('pairs')
                g = uvutils.baseline_to_antennas(k, a, **omit(rng, {'antennas2': b, 'include_auto': auto}, antennas2=None, include_auto=False))
                m.check(g[0] is x and g[1] is y, 'baseline-to-antennas', lambda: 'baseline %d' % k)
                m.equal(uvutils.antennas_to_baseline(x, y, a, **omit(rng, {'antennas2': b, 'include_auto': auto}, antennas2=None, include_auto=False)), k, 'antennas-to-baseline')
                m.equal(uvutils.antennas_to_baseline(y, x, a, **omit(rng, {'antennas2': b, 'include_auto': auto}, antennas2=None, include_auto=False), baseline_list=bl if rng.random() < 0.5 else None), k, 'antennas-to-baseline-swapped')
                g = uvutils.baseline_to_antennas(k, a, antennas2=b, baseline_list=bl)
                m.check(g[0] is x and g[1] is y, 'baseline-to-antennas-list')
            if not auto and not two:
                m.equal(uvutils.antennas_to_baseline(a[0], a[0], a), -1, 'auto-not-there')
            from lsl.common.stations import Antenna
            m.equal(uvutils.antennas_to_baseline(Antenna(100000), a[0], a, **omit(rng, {'antennas2': b, 'include_auto': auto}, antennas2=None, include_auto=False)), -1, 'unknown-antenna')


def _angle(rng, rad, hours):
    """The same angle in one of the accepted types; numbers are hours (HA) or degrees."""
    import math, ephem
    from astropy.coordinates import Angle
    from lsl import astro
    how = rng.choice(['num', 'num', 'ephem', 'astropy', 'astro'])
    if how == 'num':
        return how, (math.degrees(rad) / 15 if hours else math.degrees(rad))
    if how == 'ephem':
        return how, (ephem.hours(rad) if hours else ephem.degrees(rad))
    if how == 'astropy':
        return how, Angle(rad, unit='rad')
    if hours and rng.random() < 0.5:
        return how, astro.deg_to_hms(math.degrees(rad) % 360)
    return how, astro.deg_to_dms(math.degrees(rad) % 360 if hours else math.degrees(rad))


def uvw(m, n):
    import numpy as np, math
    from lsl.correlator import uvutils
    from lsl.common.stations import LWAStation
    C = 299792458.0
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        ns = rng.choice([1, 2, 3, 6])
        a = _array(rng, ns)
        auto = rng.random() < 0.4 or ns == 1
        lat = rng.uniform(-80, 80)
        ha, dec = rng.uniform(-math.pi, math.pi), rng.uniform(-math.pi / 2, math.pi / 2)
        site = LWAStation('t', lat, rng.uniform(-180, 180), 1000.0, id='TT')
        use_el = rng.random() < 0.3
        fr = rng.choice(['scalar', 'list', 'array', '2d', 'default'])
        hh, HA = _angle(rng, ha, True)
        hd, DEC = _angle(rng, dec, False)
        aslist = rng.random() < 0.4
        with m.case({'i': i, 'ns': ns, 'lat': lat, 'ha': ha, 'dec': dec, 'HA': hh, 'dec_type': hd, 'freq': fr, 'list': aslist, 'auto': auto, 'el': use_el}):
            kw = {}
            f = 49e6
            if fr == 'scalar':
                f = rng.uniform(10e6, 88e6)
            elif fr == 'list':
                f = [rng.uniform(10e6, 88e6) for _ in range(3)]
            elif fr == 'array':
                f = np.array([rng.uniform(10e6, 88e6) for _ in range(4)])
            elif fr == '2d':
                f = np.array([rng.uniform(10e6, 88e6) for _ in range(6)]).reshape(2, 3)
            if fr != 'default':
                kw['freq'] = f
            bl = [(a[p], a[q]) for p in range(ns) for q in range(p if auto else p + 1, ns)]
            if aslist:
                rng.shuffle(bl)
                bl = [(y, x) if rng.random() < 0.5 else (x, y) for x, y in bl]
                arg = bl
            else:
                arg = a
                if auto or rng.random() < 0.5:
                    kw['include_auto'] = auto
            kw.update(HA=HA, dec=DEC, site=site.earth_location if use_el else site)
            if rng.random() < 0.1:
                # the documented defaults
                from lsl.common.stations import lwa1
                for q in rng.sample(['HA', 'dec', 'site'], rng.randint(1, 3)):
                    del kw[q]
                    if q == 'HA':
                        ha = 0.0
                    elif q == 'dec':
                        dec = math.radians(34.07)
                    else:
                        lat, use_el = math.degrees(lwa1.lat), False
            got = uvutils.compute_uvw(arg, **kw)
            # unit vectors of the source, of growing right ascension (u) and of growing declination (v), in east/north/up
            la = math.radians(lat)
            pole = np.array([0, math.cos(la), math.sin(la)])
            mer = np.array([0, -math.sin(la), math.cos(la)])     # HA = 0, dec = 0
            east = np.array([1.0, 0, 0])
            w = math.cos(dec) * (math.cos(ha) * mer - math.sin(ha) * east) + math.sin(dec) * pole
            u = math.sin(ha) * mer + math.cos(ha) * east
            v = np.cross(w, u)
            ff = np.array(f, ndmin=1)
            want = np.zeros((len(bl), 3) + ff.shape)
            for k, (x, y) in enumerate(bl):
                d = np.array(x.stand.xyz) - np.array(y.stand.xyz)
                for j, ax in enumerate((u, v, w)):
                    want[k, j] = np.dot(d, ax) * ff / C
            m.event('uvw_values', want.size)
            m.close(got, want, 'uvw', rtol=1e-9 if not use_el else 1e-8, atol=1e-9, scale=200.0)


def tracks(m, n):
    import numpy as np, math, ephem
    from astropy.coordinates import Angle
    from lsl.correlator import uvutils
    from lsl.common.stations import LWAStation
    C = 299792458.0
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        ns = rng.choice([2, 3, 5])
        a = _array(rng, ns)
        lat, dec = rng.uniform(-80, 80), rng.uniform(-math.pi / 2, math.pi / 2)
        f = rng.uniform(10e6, 88e6)
        site = LWAStation('t', lat, 0, 1000.0, id='TT')
        D = rng.choice([math.degrees(dec), ephem.degrees(dec), Angle(dec, unit='rad')])
        kw = {'dec': D, 'freq': f}
        if rng.random() < 0.2:
            dec, f = math.radians(34.07), 49.0e6
            D, kw = None, {}                    # the documented defaults
        aslist = rng.random() < 0.4
        with m.case({'i': i, 'ns': ns, 'lat': lat, 'dec': dec, 'f': f, 'list': aslist, 'dt': type(D).__name__}):
            bl = [(a[p], a[q]) for p in range(ns) for q in range(p + 1, ns)]
            if aslist:
                bl = bl[::-1]
            t = uvutils.compute_uv_track(bl if aslist else a, site=site, **kw)
            m.require(t.shape == (len(bl), 2, 512), 'track-shape', repr(t.shape))
            la = math.radians(lat)
            for k, (x, y) in enumerate(bl):
                m.event('tracks')
                d = (np.array(x.stand.xyz) - np.array(y.stand.xyz)) * f / C
                X, Y, Z = -math.sin(la) * d[1] + math.cos(la) * d[2], d[0], math.cos(la) * d[1] + math.sin(la) * d[2]
                r = math.hypot(X, Y)
                u, v = t[k]
                m.check(np.isfinite(t[k]).all(), 'track-finite')
                m.close(u[:256], np.linspace(-r, r, 256), 'track-u', rtol=1e-9, scale=max(r, 1e-3))
                m.close(u[256:], np.linspace(r, -r, 256), 'track-u', rtol=1e-9, scale=max(r, 1e-3))
                # each point is what compute_uvw gives for some hour angle: (u, v) at the HA that has this u
                half = np.sqrt(np.maximum(r * r - u * u, 0)) * math.sin(dec)
                half[256:] *= -1
                m.close(v, half + Z * math.cos(dec), 'track-v', rtol=2e-7, scale=max(r, 1e-3))
            # and a few hour angles end up on the track
            for _ in range(3):
                ha = rng.uniform(-12, 12)
                g = uvutils.compute_uvw(bl, HA=ha, dec=math.degrees(dec), freq=f, site=site)[:, :2, 0]
                for k in range(len(bl)):
                    r = np.abs(t[k, 0]).max()
                    dd = np.hypot(t[k, 0] - g[k, 0], t[k, 1] - g[k, 1]).min()
                    m.check(dd < 0.1 * r + 1e-3, 'track-misses-uvw', lambda: 'HA %g: %g from the track of radius %g' % (ha, dd, r))


JOBS = {'baselines': (baselines, 'plain', 300), 'uvw': (uvw, 'plain', 600), 'tracks': (tracks, 'plain', 150)}
