"""C22 - simulated visibilities, their phase centers and the effects applied to them."""
import math
RULE = ('random arrays, times, source lists (power laws, extended sources, planets and the Sun), beams, channels and baseline lists through build_sim_data, compared baseline by baseline with the measurement equation '
        'evaluated from the station coordinates and independently computed azimuths and altitudes; rephase, scale_data, shift_data and add_baseline_noise against their definitions; distinct = distinct set-ups')
NEED = {'geometry': 20, 'visibilities': 8000, 'multi_integration': 20, 'rephased': 60, 'below_horizon': 20, 'beams': 40, 'noise_sets': 20, 'scaled': 40, 'shifted': 30, 'extended': 20}
OPTS = {'scale': 3}
ASSUMPTIONS = ['directions are those PyEphem computes (without refraction)', 'all antennas of a simulated array share one beam and passband, as build_sim_array makes them', 'noise is judged by its first two moments']
C = 299792458.0


def site(rng, ids=None):
    from vf.checks.c18 import station
    n = rng.choice([2, 2, 3, 5, 8])
    ids = rng.sample(range(1, 250), n)
    st, ants = station(rng, ids)
    nc = rng.choice([1, 2, 3, 8])
    import numpy as np
    freq = rng.uniform(20e6, 80e6) + rng.choice([25e3, 1e6]) * np.arange(nc)
    return st, ants, freq


def observer(st, jd):
    import ephem
    o = ephem.Observer()
    o.lat, o.long, o.elev, o.pressure = st.lat, st.long, st.elev, 0
    o.date = o.epoch = jd - 2415020.0
    return o


def enu(az, alt):
    return (math.cos(alt) * math.sin(az), math.cos(alt) * math.cos(az), math.sin(alt))


class Source:
    def __init__(self, rng, nm):
        import ephem, aipy
        from lsl.sim.vis import RadioFixedBody
        self.kind = rng.choice(['fixed', 'fixed', 'fixed', 'fixed', 'special'])
        self.jys, self.index, self.mfreq = rng.uniform(1, 1000), rng.choice([0.0, -0.7, 1.3]), rng.choice([0.05, 0.15])
        self.shape = (0.0, 0.0, 0.0)
        if rng.random() < 0.3:
            self.shape = (rng.uniform(0.001, 0.02), rng.uniform(0.001, 0.02), rng.uniform(0, 3))
        kw = dict(jys=self.jys, index=self.index, mfreq=self.mfreq, srcshape=self.shape)
        if self.kind == 'special':
            self.name = rng.choice(['Sun', 'Jupiter', 'Moon'])
            self.body = aipy.amp.RadioSpecial(self.name, **kw)
        else:
            self.ra, self.dec = rng.uniform(0, 2 * math.pi), math.asin(rng.uniform(-1, 1))
            self.epoch = rng.choice([ephem.J2000, ephem.J2000, ephem.B1950])
            self.body = RadioFixedBody(self.ra, self.dec, name=nm, epoch=self.epoch, **kw)

    def azalt(self, st, jd):
        import ephem
        o = observer(st, jd)
        b = getattr(ephem, self.name)() if self.kind == 'special' else ephem.FixedBody()
        if self.kind != 'special':
            b._ra, b._dec, b._epoch = self.ra, self.dec, self.epoch
        b.compute(o)
        return float(b.az), float(b.alt)

    def flux(self, freq):
        return self.jys * (freq / 1e9 / self.mfreq) ** self.index


def sky(rng, st, jds, above=True):
    """a source list with at least one source up at every time"""
    out = []
    for k in range(rng.choice([1, 1, 2, 4, 7])):
        out.append(Source(rng, 's%d' % k))
    while not all(any(s.azalt(st, j)[1] > 0.02 for s in out) for j in jds):
        out.append(Source(rng, 's%d' % len(out)))
    return out


def jinc(x):
    import numpy as np
    from scipy.special import j1
    x = np.asarray(x, dtype=float)
    return np.where(x == 0, 1.0, 2 * j1(np.where(x == 0, 1, x)) / np.where(x == 0, 1, x))


def uv_axes(az, alt, lat):
    """unit vectors (east, north, up) of the u and v axes toward a direction"""
    import numpy as np
    s = np.array(enu(az, alt))
    pole = np.array([0.0, math.cos(lat), math.sin(lat)])
    u = np.cross(pole, s)
    nu = np.linalg.norm(u)
    u = u / nu
    v = np.cross(s, u)
    return u, v, s


def model(st, ants, freq, sources, jd, bls, pc, resolve, gain=None):
    """the measurement equation: pc = (az, alt) of the phase center"""
    import numpy as np
    lat = float(st.lat)
    pos = np.array([[a.stand.x, a.stand.y, a.stand.z] for a in ants])
    s0 = np.array(enu(*pc))
    vis = np.zeros((len(bls), len(freq)), dtype=complex)
    for s in sources:
        az, alt = s.azalt(st, jd)
        if alt < 0:
            continue
        u, v, d = uv_axes(az, alt, lat)
        f = s.flux(freq) * (1.0 if gain is None else gain(d))
        for k, (i, j) in enumerate(bls):
            b = (pos[i] - pos[j]) / C
            ph = np.exp(2j * math.pi * freq * (b @ (d - s0)))
            if resolve and s.shape[0] and s.shape[1]:
                uu, vv = freq * (b @ u), freq * (b @ v)
                a0, a1, th = s.shape
                ph = ph * jinc(2 * math.pi * np.sqrt((a0 * (uu * math.cos(th) - vv * math.sin(th))) ** 2 + (a1 * (uu * math.sin(th) + vv * math.cos(th))) ** 2))
            vis[k] += f * ph
    u, v, d = uv_axes(pc[0], pc[1], lat)
    uvw = np.array([[freq * ((pos[i] - pos[j]) @ x) / C for x in (u, v, d)] for i, j in bls]).reshape(len(bls), 3, len(freq))
    return vis, uvw


def draw_bls(rng, n):
    auto = rng.random() < 0.4
    bls = [(i, j) for i in range(n) for j in range(i if auto else i + 1, n)]
    if rng.random() < 0.4:
        bls = [(j, i) if rng.random() < 0.5 else (i, j) for i, j in bls]
    if rng.random() < 0.4:
        bls = rng.sample(bls, rng.randrange(1, len(bls) + 1))
    return bls


def body_up(rng, st, jds, lo=0.1):
    """a fixed body above the horizon at all times"""
    from lsl.sim.vis import RadioFixedBody
    for _ in range(10000):
        s = Source(rng, 'pc')
        if s.kind == 'fixed' and all(s.azalt(st, j)[1] > lo for j in jds):
            s.body = RadioFixedBody(s.ra, s.dec, name='pc', epoch=s.epoch)
            return s
    raise RuntimeError('no phase center')


def scale_of(sources, freq):
    return sum(float(s.flux(freq).max()) for s in sources)


def length(ants, freq):
    return max(math.hypot(a.stand.x - b.stand.x, a.stand.y - b.stand.y, a.stand.z - b.stand.z) for a in ants for b in ants) * freq.max() / C


def fresh(bodies):
    return {s.body.src_name if hasattr(s.body, 'src_name') else 'x%d' % k: s.body for k, s in enumerate(bodies)}


def simulate(m):
    import numpy as np
    from lsl.sim import vis as V
    from lsl.imaging.data import VisibilityData, VisibilityDataSet
    for k in range(m.n(150, 2500)):
        if m.over():
            break
        rng = m.rng('sim', k)
        st, ants, freq = site(rng)
        njd = rng.choice([1, 1, 2, 3])
        t0 = 2455800.5 + rng.uniform(0, 4000)
        jds = sorted(rng.sample([t0 + i * rng.choice([0.001, 0.02]) for i in range(20)], njd), key=lambda x: rng.random())
        srcs = sky(rng, st, jds)
        beam = rng.choice(['flat', 'flat', 'flat-response', 'gauss', 'gauss2', 'alm'])
        resolve = rng.random() < 0.4
        bls = draw_bls(rng, len(ants)) if rng.random() < 0.7 else None
        pk = rng.choice(['z', 'z', 'body', 'body', 'sky'])
        pols = rng.sample(['xx', 'yy', 'xy', 'yx'], rng.choice([1, 2, 4]))
        desc = {'sim': k, 'n': len(ants), 'nc': len(freq), 'jds': jds, 'beam': beam, 'resolve': resolve, 'bls': bls, 'pc': pk, 'pols': pols, 'nsrc': len(srcs)}
        with m.case(desc):
            kw = {}
            if beam in ('flat', 'flat-response'):
                kw['force_flat'] = beam == 'flat'
                if beam != 'flat':
                    kw['force_gaussian'] = 40.0
            elif beam == 'gauss':
                kw['force_gaussian'] = rng.choice([3.0, 60.0])
            elif beam == 'gauss2':
                kw['force_gaussian'] = (rng.uniform(20, 80), rng.uniform(20, 80))
            fin = rng.choice([freq.copy(), freq / 1e9, freq.copy()])
            f_keep = fin.copy()
            aa = V.build_sim_array(st, ants, fin, jd=rng.choice([None, jds[0], jds]), **kw)
            m.array_equal(fin, f_keep, 'input-changed')
            m.equal([int(x) for x in aa.get_stands()], [a.stand.id for a in ants], 'stands')
            if pk == 'z':
                pc, pcs = 'z', [(0.0, math.pi / 2)] * njd
            else:
                b = body_up(rng, st, jds, lo=0.02)
                pc, pcs = b.body, [b.azalt(st, j) for j in jds]
                if pk == 'sky':
                    import astropy.units as u, ephem
                    from astropy.coordinates import SkyCoord, FK5
                    e = ephem.Equatorial(b.ra, b.dec, epoch=b.epoch)
                    e = ephem.Equatorial(e, epoch=ephem.J2000)
                    pc = SkyCoord(float(e.ra) * u.rad, float(e.dec) * u.rad, frame=FK5(equinox='J2000'))
            names = {'n%d' % i: s.body for i, s in enumerate(srcs)}
            kw2 = dict(pols=pols, phase_center=pc, resolve_src=resolve, flat_response=beam == 'flat-response')
            if bls is not None:
                kw2['baselines'] = list(bls)
            elif rng.random() < 0.5:
                kw2['baselines'] = None
            nofit = any(s.azalt(st, j)[1] < 0 for s in srcs for j in jds)
            if nofit:
                m.event('below_horizon')
            arg = jds[0] if njd == 1 and rng.random() < 0.5 else (jds if rng.random() < 0.5 else np.array(jds))
            data = V.build_sim_data(aa, names, jd=arg, **kw2)
            if njd > 1:
                m.event('multi_integration')
                m.check(isinstance(data, VisibilityData), 'container', 'several times gave a %s' % type(data).__name__)
                sets = list(data)
            else:
                m.check(isinstance(data, VisibilityDataSet), 'container', 'one time gave a %s' % type(data).__name__)
                sets = [data]
            m.equal([d.jd for d in sets], list(jds), 'times')
            L = length(ants, freq)
            for d, jd, pa in zip(sets, jds, pcs):
                mb = [tuple(int(x) for x in b) for b in d.baselines]
                if bls is not None:
                    m.require(mb == bls, 'baselines', 'got %s, asked for %s' % (mb, bls))
                else:
                    n = len(ants)
                    m.require(mb == [(i, j) for i in range(n) for j in range(i + 1, n)], 'baselines', str(mb))
                m.close(d.freq, freq, 'frequencies', rtol=1e-9)
                m.equal(sorted(d.pols), sorted(p.upper() for p in pols), 'pols')
                if resolve and any(s.shape[0] for s in srcs):
                    m.event('extended')
                for p in pols:
                    gain = None
                    if beam in ('gauss', 'gauss2', 'alm'):
                        m.event('beams')

                        def gain(v, p=p):
                            if beam == 'alm':
                                a, b = aa[0].bm_response(v, pol=p[0]), aa[0].bm_response(v, pol=p[1])
                            else:
                                w = kw['force_gaussian']
                                w = w if isinstance(w, tuple) else (w, w)
                                sx, sy = [math.radians(x) / (2 * math.sqrt(2 * math.log(2))) for x in w]
                                e, n = math.asin(max(-1, min(1, v[0]))), math.asin(max(-1, min(1, v[1])))
                                one = {'x': math.exp(-0.25 * ((e / sx) ** 2 + (n / sy) ** 2)), 'y': math.exp(-0.25 * ((n / sx) ** 2 + (e / sy) ** 2))}
                                a, b = np.full(len(freq), one[p[0]]), np.full(len(freq), one[p[1]])
                            return np.sqrt(np.ravel(a) * np.ravel(b).conj())
                    vis, uvw = model(st, ants, freq, srcs, jd, mb, pa, resolve, gain)
                    m.event('visibilities', vis.size)
                    pd = getattr(d, p.upper())
                    # the phase follows from directions good to a few microradians
                    m.close(pd.data, vis, 'visibility', rtol=0, atol=6e-5 * scale_of(srcs, freq) * max(1.0, L / 10 * (250 if pk == 'sky' else 1)))
                    m.check(bool((np.asarray(pd.weight) == 1).all()) and not np.asarray(pd.mask).any(), 'weights', 'weights or masks of simulated data')
                if min(abs(math.pi / 2 - pa[1]), 1) > 1e-3 or pk == 'z':
                    m.close(d.uvw, uvw, 'uvw', rtol=0, atol=L * (1e-5 if pk != 'sky' else 2e-4) + 1e-6)
            # a range of channels
            if len(freq) > 1 and rng.random() < 0.4:
                lo = rng.randrange(len(freq))
                hi = rng.randrange(lo, len(freq))
                part = V.build_sim_data(aa, names, jd=jds[0], chan=list(range(lo, hi + 1)), **kw2)
                for p in pols:
                    m.close(getattr(part, p.upper()).data[:, lo:hi + 1], getattr(sets[0], p.upper()).data[:, lo:hi + 1], 'channels', rtol=1e-6)
                m.close(part.uvw[:, :, lo:hi + 1], sets[0].uvw[:, :, lo:hi + 1], 'channels', rtol=1e-9)
                m.event('channel_ranges')
            # the same call gives the same data
            again = V.build_sim_data(aa, names, jd=arg, **kw2)
            for a, b in zip(sets, [again] if njd == 1 else again):
                for p in pols:
                    m.array_equal(getattr(b, p.upper()).data, getattr(a, p.upper()).data, 'repeatable')


def phase_shift(m):
    """data moved to another phase center are the data simulated there"""
    import numpy as np, copy, pickle
    from lsl.sim import vis as V
    for k in range(m.n(100, 1500)):
        if m.over():
            break
        rng = m.rng('phs', k)
        st, ants, freq = site(rng)
        njd = rng.choice([1, 2, 3])
        t0 = 2455800.5 + rng.uniform(0, 4000)
        jds = [t0 + i * 0.01 for i in range(njd)]
        srcs = sky(rng, st, jds)
        bls = draw_bls(rng, len(ants))
        pols = rng.sample(['xx', 'yy', 'xy', 'yx'], rng.choice([1, 2]))
        p1 = 'z' if rng.random() < 0.3 else body_up(rng, st, jds)
        p2 = body_up(rng, st, jds)
        how = rng.choice(['none', 'copy', 'pickle', 'subset', 'sort'])
        desc = {'rephase': k, 'n': len(ants), 'jds': jds, 'how': how, 'from': p1 if p1 == 'z' else 'body'}
        with m.case(desc):
            aa = V.build_sim_array(st, ants, freq, jd=jds[0], force_flat=True)
            names = {'n%d' % i: s.body for i, s in enumerate(srcs)}
            data = V.build_sim_data(aa, names, jd=jds, pols=pols, baselines=list(bls), phase_center=p1 if p1 == 'z' else p1.body)
            orig = data
            nb = None
            if how == 'copy':
                data = orig.copy()
            elif how == 'pickle' and p1 != 'z':
                data = orig.copy()
                for d in (data if njd > 1 else [data]):
                    d.antennaarray = pickle.loads(pickle.dumps(d.antennaarray)) if rng.random() < 0.5 else copy.deepcopy(d.antennaarray)
            elif how == 'subset':
                data = data.get_antenna_subset(exclude=[0])
            elif how == 'sort':
                data = data.copy()
                data.sort()
            sets = list(data) if njd > 1 else [data]
            before = [({p: getattr(d, p).data.copy() for p in d.pols}, np.array(d.uvw), list(map(tuple, d.baselines))) for d in sets]
            keep0 = [({p: getattr(d, p).data.copy() for p in d.pols}, np.array(d.uvw)) for d in (orig if njd > 1 else [orig])]
            sc = scale_of(srcs, freq)
            L = length(ants, freq)
            aa.set_jultime(t0 + 0.37)                 # the array of the caller may be at any other time
            if njd == 1 or rng.random() < 0.5:
                data.rephase(p2.body)
            else:
                for d in rng.sample(sets, len(sets)):
                    d.rephase(p2.body)
            m.event('rephased')
            for d, jd, (b_data, b_uvw, b_bl) in zip(sets, jds, before):
                mb = list(map(tuple, d.baselines))
                m.require(mb == b_bl, 'baselines', 'rephase changed the baselines')
                vis, uvw = model(st, ants, freq, srcs, jd, mb, p2.azalt(st, jd), False)
                for p in d.pols:
                    m.close(getattr(d, p).data, vis, 'rephased-visibility', rtol=0, atol=6e-5 * sc * max(1.0, L / 10 * (250 if p1 == 'z' else 1)))
                m.close(d.uvw, uvw, 'rephased-uvw', rtol=0, atol=L * 1e-5 + 1e-6)
                m.check(d.phase_center is p2.body, 'rephased-center', '')
            if how != 'none':
                for d, (b_data, b_uvw) in zip(list(orig) if njd > 1 else [orig], keep0):
                    if d in sets:
                        continue
                    for p in b_data:
                        m.array_equal(getattr(d, p).data, b_data[p], 'original-changed')
                    m.array_equal(np.asarray(d.uvw), b_uvw, 'original-changed')
            # and back
            if p1 != 'z':
                data.rephase(p1.body)
                for d, (b_data, b_uvw, b_bl) in zip(sets, before):
                    for p in d.pols:
                        m.close(getattr(d, p).data, b_data[p], 'round-trip', rtol=0, atol=1e-5 * sc)
                    m.close(d.uvw, b_uvw, 'round-trip-uvw', rtol=0, atol=1e-5 * L + 1e-9)
            # a center below the horizon is refused and changes nothing
            down = Source(rng, 'down')
            while down.kind != 'fixed' or any(down.azalt(st, j)[1] > -0.05 for j in jds):
                down = Source(rng, 'down')
            d = sets[0]
            b = ({p: getattr(d, p).data.copy() for p in d.pols}, np.array(d.uvw), d.phase_center)
            if len(d.baselines):
                try:
                    d.rephase(down.body)
                    m.violation('below-horizon', 'rephasing to a center below the horizon was accepted')
                except RuntimeError:
                    m.event('below_horizon')
                for p in d.pols:
                    m.array_equal(getattr(d, p).data, b[0][p], 'refused-changed')
                m.array_equal(np.asarray(d.uvw), b[1], 'refused-changed')
                m.check(d.phase_center is b[2], 'refused-changed', 'phase center')
            # a set without polarizations still has coordinates
            if len(d.baselines):
                e = d.copy(include_pols=False)
                e.rephase(p2.body)
                m.close(e.uvw, model(st, ants, freq, [], jds[0], list(map(tuple, e.baselines)), p2.azalt(st, jds[0]), False)[1], 'rephased-uvw', rtol=0, atol=L * 1e-5 + 1e-6)


def effects(m):
    """scale_data, shift_data, add_baseline_noise"""
    import numpy as np
    from lsl.sim import vis as V
    from lsl.imaging.data import VisibilityData
    for k in range(m.n(100, 1500)):
        if m.over():
            break
        rng, nrg = m.rng('eff', k), m.nprng('eff', k)
        st, ants, freq = site(rng)
        if len(freq) < 2:
            freq = freq[0] + 1e5 * np.arange(2)
        njd = rng.choice([1, 2, 3])
        t0 = 2455800.5 + rng.uniform(0, 4000)
        jds = [t0 + i * 0.02 for i in range(njd)]
        srcs = sky(rng, st, jds)
        p1 = body_up(rng, st, jds) if rng.random() < 0.8 else 'z'
        pols = rng.sample(['xx', 'yy', 'xy', 'yx'], rng.choice([1, 2]))
        uneven = rng.random() < 0.5
        desc = {'effects': k, 'n': len(ants), 'njd': njd, 'uneven': uneven, 'pols': pols}
        with m.case(desc):
            aa = V.build_sim_array(st, ants, freq, jd=jds[0], force_flat=True)
            names = {'n%d' % i: s.body for i, s in enumerate(srcs)}
            if uneven and njd > 1:
                data = VisibilityData()
                data.extend([V.build_sim_data(aa, names, jd=j, pols=pols, baselines=draw_bls(rng, len(ants)), phase_center=p1 if p1 == 'z' else p1.body) for j in jds])
            else:
                data = V.build_sim_data(aa, names, jd=jds, pols=pols, baselines=draw_bls(rng, len(ants)), phase_center=p1 if p1 == 'z' else p1.body)
            sets = list(data) if njd > 1 else [data]
            keep = [({p: getattr(d, p).data.copy() for p in d.pols}, np.array(d.uvw), list(map(tuple, d.baselines))) for d in sets]
            sc = scale_of(srcs, freq)
            L = length(ants, freq)

            def untouched():
                for d, (b, u, bl) in zip(sets, keep):
                    for p in b:
                        m.array_equal(getattr(d, p).data, b[p], 'original-changed')
                    m.array_equal(np.asarray(d.uvw), u, 'original-changed')

            # gains
            n = len(ants)
            amp, dly = nrg.uniform(0.5, 2, n), nrg.uniform(-50, 50, n)
            off = nrg.uniform(-3, 3, n) if rng.random() < 0.5 else None
            out = V.scale_data(data, amp, dly, **({'phase_offsets': off} if off is not None else {}))
            m.event('scaled')
            g = amp[:, None] * np.exp(2j * np.pi * dly[:, None] * 1e-9 * freq[None, :] + (1j * off[:, None] if off is not None else 0))
            outs = list(out) if njd > 1 else [out]
            m.require(len(outs) == len(sets), 'scaled-length', '')
            for d, (b, u, bl) in zip(outs, keep):
                for p in b:
                    want = np.array([b[p][x] * g[i] * g[j].conj() for x, (i, j) in enumerate(bl)])
                    m.close(getattr(d, p).data, want, 'scaled', rtol=0, atol=1e-5 * sc * 4)
                m.array_equal(np.asarray(d.uvw), u, 'scaled-uvw')
            untouched()
            # other positions
            st2, ants2 = _moved(rng, st, ants)
            aa2 = V.build_sim_array(st2, ants2, freq, jd=rng.choice([None, jds[-1], t0 + 0.4]), force_flat=True)
            out = V.shift_data(data, aa2)
            m.event('shifted')
            outs = list(out) if njd > 1 else [out]
            for d, jd, (b, u, bl) in zip(outs, jds, keep):
                if p1 == 'z':
                    pa = (0.0, math.pi / 2)
                else:
                    pa = p1.azalt(st2, jd)
                uvw = model(st2, ants2, freq, [], jd, bl, pa, False)[1]
                # data phased up at the zenith carry it as a catalog position, good to tens of microradians
                m.close(d.uvw, uvw, 'shifted-uvw', rtol=0, atol=L * (1e-5 if p1 != 'z' else 3e-4) + 1e-6)
                for p in b:
                    m.array_equal(getattr(d, p).data, b[p], 'shifted-data')
            untouched()
            # noise
            used = sorted({a for _, _, bl in keep for b in bl for a in b})
            sefd = nrg.uniform(1e3, 1e5, len(used)) if rng.random() < 0.6 else float(nrg.uniform(1e3, 1e5))
            per = dict(zip(used, np.broadcast_to(sefd, len(used))))
            tint, eff = rng.uniform(0.1, 100), rng.choice([1.0, 0.5, 0.9])
            bw = rng.choice([None, 1e5])
            np.random.seed(nrg.integers(2 ** 31))
            kw = {} if bw is None else {'bandwidth': bw}
            if eff != 1.0:
                kw['efficiency'] = eff
            reps = []
            for _ in range(max(1, 600 // sum(d.nbaseline * d.nchan * d.npol for d in sets))):
                out = V.add_baseline_noise(data, sefd, tint, **kw)
                for d, (b, u, bl) in zip(list(out) if njd > 1 else [out], keep):
                    for p in b:
                        sig = np.array([math.sqrt(per[i] * per[j]) for i, j in bl])[:, None] / eff / math.sqrt(2 * (bw or (freq[1] - freq[0])) * tint)
                        z = (getattr(d, p).data.astype(complex) - b[p]) / sig
                        ok = np.abs(np.broadcast_to(sig, z.shape)) > 1e-4 * sc     # where the noise is not lost in the precision of the data
                        reps.append(z[ok])
                    m.array_equal(np.asarray(d.uvw), u, 'noise-uvw')
            untouched()
            z = np.concatenate(reps) if reps else np.array([])
            if z.size > 200:
                m.event('noise_sets')
                N = z.size
                m.check(abs((z.real ** 2).mean() - 1) < 8 * math.sqrt(2 / N) and abs((z.imag ** 2).mean() - 1) < 8 * math.sqrt(2 / N), 'noise-level',
                        lambda: 'noise power %.3f/%.3f of what the SEFDs give (%d values)' % ((z.real ** 2).mean(), (z.imag ** 2).mean(), N))
                m.check(abs(z.mean()) < 10 / math.sqrt(N), 'noise-mean', '')
                m.check(abs((z.real * z.imag).mean()) < 8 / math.sqrt(N), 'noise-correlated', 'real and imaginary parts')
                m.check(abs((z[1:] * z[:-1].conj()).mean()) < 16 / math.sqrt(N), 'noise-correlated', 'neighbors')


def _moved(rng, st, ants):
    from lsl.common.stations import LWAStation, Antenna, Stand, Cable
    out = []
    for k, a in enumerate(ants):
        s = Stand(a.stand.id, a.stand.x + rng.uniform(-5, 5), a.stand.y + rng.uniform(-5, 5), a.stand.z + rng.uniform(-1, 1))
        out.append(Antenna(a.id, stand=s, pol=0, digitizer=k + 1, cable=Cable('c', 10, vf=0.8)))
    n = LWAStation(st.name, math.degrees(st.lat), math.degrees(st.long), st.elev, id='XX', antennas=out)
    return n, n.antennas


def beams(m):
    """the antenna response is the same function whichever way it is asked for"""
    import numpy as np
    from lsl.sim import vis as V
    for k in range(m.n(12, 120)):
        if m.over():
            break
        rng, nrg = m.rng('beam', k), m.nprng('beam', k)
        st, ants, freq = site(rng)
        kind = rng.choice(['gauss', 'alm', 'flat', 'poly'])
        with m.case({'beam': k, 'kind': kind}):
            if kind == 'poly':
                beam = V.BeamPolynomial(freq / 1e9, poly_azfreq=np.array([[rng.uniform(0.3, 1), 0.1], [0.05, 0.02]]))
                a = V.Antenna(0, 0, 0, beam, stand=1)
            else:
                kw = {'gauss': {'force_gaussian': (rng.uniform(30, 60), rng.uniform(60, 100))}, 'alm': {}, 'flat': {'force_flat': True}}[kind]
                a = V.build_sim_array(st, ants, freq, jd=2456789.25, **kw)[0]
            az, alt = nrg.uniform(0, 2 * np.pi, (3, 4)), nrg.uniform(0.05, 1.5, (3, 4))
            def top(az, alt):
                return np.array([np.cos(alt) * np.sin(az), np.cos(alt) * np.cos(az), np.sin(alt)])
            m.event('beams')
            for pol in 'xy':
                one = np.array([[np.ravel(a.bm_response(top(az[i, j], alt[i, j]), pol=pol)) for j in range(4)] for i in range(3)])
                all3 = np.asarray(a.bm_response(top(az, alt), pol=pol))
                m.close(np.moveaxis(all3, 0, -1), one, 'beam-grid', rtol=1e-9)
                all2 = np.asarray(a.bm_response(top(az[0], alt[0]), pol=pol))
                m.close(all2.T, one[0], 'beam-list', rtol=1e-9)
                other = {'x': 'y', 'y': 'x'}[pol]
                turn = np.array([[np.ravel(a.bm_response(top(az[i, j] + (np.pi / 2 if pol == 'y' else -np.pi / 2), alt[i, j]), pol=other)) for j in range(4)] for i in range(3)])
                if kind in ('flat', 'gauss', 'poly'):
                    m.close(turn, one, 'beam-rotation', rtol=1e-6)
            if kind != 'alm' and k % 3 == 0:
                for pol in 'xy':
                    shp = a.get_beam_shape(pol=pol)
                    m.equal(shp.shape, (360, 90, len(freq)), 'beam-shape-size')
                    for _ in range(20):
                        i, j = rng.randrange(360), rng.randrange(90)
                        m.close(shp[i, j], np.ravel(a.bm_response(top(math.radians(i), math.radians(j)), pol=pol)), 'beam-shape', rtol=1e-9)


def geometry(m):
    """Baselines and uvw of the fast versions against their definition and each other."""
    import numpy as np
    from lsl.sim import vis as V
    from vf.checks import c18
    for k in range(m.n(40)):
        rng = m.rng(k)
        jd = 2456789.0 + rng.uniform(0, 900)
        st, ants = c18.station(rng, rng.sample(range(1, 250), 4))
        freq = np.array([rng.uniform(10e6, 80e6) for _ in range(rng.choice([1, 3]))])
        aa = V.build_sim_array(st, ants, freq / 1e9, jd=jd, force_flat=True)
        src = Source(rng, 's')
        if src.kind != 'fixed':
            continue
        az, alt = src.azalt(st, jd)
        with m.case({'k': k, 'jd': jd, 'alt': alt, 'freq': freq.tolist()}):
            m.event('geometry')
            i, j = rng.sample(range(4), 2)
            d = np.array([ants[j].stand.x - ants[i].stand.x, ants[j].stand.y - ants[i].stand.y, ants[j].stand.z - ants[i].stand.z]) / 299792458.0 * 1e9
            atol = 1e-3 * np.abs(d).max() + 1e-9
            m.close(aa.get_baseline_fast(i, j, src='z'), d, 'baseline:zenith', rtol=0, atol=atol)
            m.close(aa.get_baseline_fast(i, j), d, 'baseline:default', rtol=0, atol=atol)
            # the same vector seen in the equatorial frames
            lat = float(aa.lat)
            eq = np.array([-math.sin(lat) * d[1] + math.cos(lat) * d[2], d[0], math.cos(lat) * d[1] + math.sin(lat) * d[2]])
            m.close(aa.get_baseline_fast(i, j, src='r'), eq, 'baseline:unrotated', rtol=0, atol=atol)
            m.close(aa.get_baseline_fast(i, j, src='e'), aa.get_baseline(i, j, src='e'), 'baseline:equatorial', rtol=1e-12)
            m.raises(ValueError, lambda: aa.get_baseline_fast(i, j, src='q'), 'baseline:unknown', 'unknown kind of source')
            w = aa.gen_uvw_fast(i, j, w_only=True)
            m.close(np.ravel(w), d[2] * freq / 1e9, 'uvw:w-only', rtol=0, atol=atol)
            m.close(np.reshape(aa.gen_uvw_fast(i, j, src='z'), (3, -1)), d[:, None] * freq / 1e9, 'uvw:zenith', rtol=0, atol=atol)
            b = src.body
            aa.set_jultime(jd)
            b.compute(aa)
            if alt < -0.02:
                m.raises(RuntimeError, lambda: aa.get_baseline_fast(i, j, src=b), 'baseline:below', 'source below the horizon')
            elif alt > 0.02:
                e = np.array([math.sin(az) * math.cos(alt), math.cos(az) * math.cos(alt), math.sin(alt)])
                m.close([aa.get_baseline_fast(i, j, src=b)[2]], [d @ e], 'baseline:delay', rtol=0, atol=3 * atol)
                u = np.reshape(aa.gen_uvw_fast(i, j, src=b), (3, -1))
                m.close(u[2], d @ e * freq / 1e9, 'uvw:w', rtol=0, atol=3 * atol)
                m.close(np.linalg.norm(u, axis=0), np.linalg.norm(d) * freq / 1e9, 'uvw:length', rtol=2e-3)
                m.close(np.ravel(aa.gen_phs_fast(b, i, j)), np.exp(-2j * np.pi * (d @ e) * freq / 1e9), 'phase', rtol=0, atol=0.05 * (1 + np.abs(d).max() / 200))
            aa.set_asp_filter('none') if rng.random() < 0.5 else aa.set_asp_filter(None)
            m.check(all(np.array_equal(np.ravel(a.amp), np.ones(freq.size)) for a in aa.ants), 'filter:none', 'the passband without a filter is not unity')


JOBS = {'geometry': (geometry, 'plain'), 'simulate': (simulate, 'plain'), 'rephase': (phase_shift, 'plain'), 'effects': (effects, 'plain'), 'beams': (beams, 'plain')}
