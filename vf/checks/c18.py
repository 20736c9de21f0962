"""C18 - visibility files: what is written is what is read."""
RULE = ('random arrays (stand numbers up to the limit of the format), baseline lists in any order, with and without autocorrelations, polarizations, channels, spectral windows, integrations and phase '
        'centers written with every visibility writer and read back; values compared by stand pair, coordinates with an independent projection; distinct = distinct data sets')
NEED = {'idi': 20, 'aips': 8, 'extended': 8, 'uvfits': 15, 'ms': 15, 'virtual': 8, 'visibilities': 50000, 'integrations': 100, 'uvw_values': 1000}
OPTS = {}
ASSUMPTIONS = ['each polarization of an integration has the same set of baselines', 'one source per integration']
from vf.mon import omit
C = 299792458.0


def station(rng, ids):
    from lsl.common.stations import LWAStation, Antenna, Stand, Cable
    ants = []
    for k, i in enumerate(ids):
        s = Stand(i, rng.uniform(-300, 300), rng.uniform(-300, 300), rng.uniform(-10, 10))
        ants.append(Antenna(2 * i - 1, stand=s, pol=0, digitizer=k + 1, cable=Cable('c', 10, vf=0.8)))
    st = LWAStation(rng.choice(['LWA1', 'LWASV', 'Test']), rng.uniform(-60, 60), rng.uniform(-180, 180), rng.uniform(0, 2500), id='XX', antennas=ants)
    return st, st.antennas


def make(rng, nrg, kind):
    """a random observation"""
    import numpy as np, ephem
    from astropy.time import Time
    big = {'idi': 600, 'aips': 600, 'extended': 5000, 'uvfits': 2000, 'ms': 5000, 'virtual': 600}[kind]
    ns = rng.choice([2, 3, 5, 8])
    ids = rng.sample(range(1, rng.choice([ns + 1, 60, 256, big]) + 1), ns)
    rng.shuffle(ids)
    st, ants = station(rng, ids)
    auto = rng.random() < 0.6
    pairs = [(p, q) for p in range(ns) for q in range(p if auto else p + 1, ns)]
    nb = rng.choice([1, 1, 2, 3]) if kind in ('idi', 'aips', 'extended', 'ms') else 1
    nc = rng.choice([2, 3, 16, 33])
    cw = rng.choice([25e3, 19140.625, 1e5, 12345.678])
    f0 = [30e6 + 4e6 * rng.random()]
    for _ in range(nb - 1):
        f0.append(f0[-1] + nc * cw * rng.uniform(1, 3))
    freqs = [f + np.arange(nc) * cw for f in f0]
    fam = rng.choice([['XX', 'YY', 'XY', 'YX'], ['XX', 'YY', 'XY', 'YX'], ['I', 'Q', 'U', 'V'], ['RR', 'LL', 'RL', 'LR']])
    npol = rng.choice([1, 1, 2, 4, 4, 3])
    lo = rng.randrange(0, 5 - npol)
    pols = fam[lo:lo + npol]
    if kind == 'virtual':
        pols = pols[:1]
    t = rng.uniform(Time('2012-01-05').unix, Time('2022-12-20').unix)
    if rng.random() < 0.2:
        t = t // 86400 * 86400 + rng.choice([0.25, 86390.5])         # around midnight
    sets = []
    src = 'z'
    again = []
    fast = rng.random() < 0.25           # several integrations within a tenth of a second
    for k in range(rng.choice([1, 2, 4, 6])):
        if rng.random() < 0.6:
            pr = pairs
        else:
            pr = rng.sample(pairs, rng.randrange(1, len(pairs) + 1) if kind != 'virtual' else len(pairs))   # other baselines, other order
        if rng.random() < 0.5:
            src = rng.choice(['z', 'body', 'body', src])
        pr = list(pr)
        tai = Time(t, format='unix', scale='utc').tai.mjd
        if src == 'z':
            body = 'z'
        elif again and rng.random() < 0.4:
            body = rng.choice(again)          # back to an earlier source
            st.date = ephem.Date(Time(t, format='unix', scale='utc').datetime)
            body.compute(st)
        else:
            body = ephem.FixedBody()
            st.date = ephem.Date(Time(t, format='unix', scale='utc').datetime)
            # somewhere above the horizon
            ra, dec = st.radec_of(rng.uniform(0, 6.28), rng.uniform(0.2, 1.5))
            body._ra, body._dec, body._epoch = float(ra), float(dec), ephem.J2000
            body.name = 'S%d' % k
            how = rng.choice(['station', 'station', 'array', 'planet'])
            if how == 'station':
                body.compute(st)
                again.append(body)
            elif how == 'array':
                # the other kind of observer: positions of date
                from lsl.sim import vis as simvis
                aa = simvis.build_sim_array(st, ants, freqs[0] / 1e9)
                aa.set_ephemtime(st.date)
                b2 = simvis.RadioFixedBody(body._ra, body._dec, name=body.name, epoch=ephem.J2000, jys=1.0, index=0, mfreq=0.05)
                b2.name = body.name
                b2.compute(aa)
                body = b2
            elif kind != 'virtual':
                body = rng.choice([ephem.Jupiter, ephem.Mars])()
                body.compute(st)
        d = {}
        for p in pols:
            d[p] = (nrg.standard_normal((len(pr), nb * nc)) + 1j * nrg.standard_normal((len(pr), nb * nc))).astype(np.complex64)
        w = {p: nrg.uniform(0, 2, (len(pr), nb * nc)).astype(np.float32) for p in pols} if kind in ('idi', 'aips', 'extended', 'virtual') and rng.random() < 0.5 else None
        it = 0.0123 if fast else rng.choice([0.1, 1.0, 5.0, 6.25, 0.0123, 2.34567])
        if len(pols) > 2 and kind in ('idi', 'aips', 'extended', 'uvfits') and k and rng.random() < 0.3:
            # nothing for one polarization: it may not show what another integration held
            gone = rng.choice(pols[1:-1])
            d[gone][...] = 0
            if w is not None:
                w[gone][...] = 1
        else:
            gone = None
        sets.append({'gone': gone, 'pairs': pr, 'time': t, 'tai': tai, 'source': body, 'data': d, 'weights': w, 'int': it})
        t += it * (1 if fast else rng.choice([1, 1, 1, 40]))
    return {'station': st, 'antennas': ants, 'ids': [a.stand.id for a in ants], 'freqs': freqs, 'pols': pols, 'sets': sets, 't0': sets[0]['time'], 'auto': auto, 'kind': kind}


def write(rng, ob, path):
    import datetime
    from astropy.time import Time
    from lsl.writer import fitsidi, uvfits, measurementset, virtual
    from lsl.reader.base import FrameTimestamp
    kls = {'idi': fitsidi.Idi, 'aips': fitsidi.Aips, 'extended': fitsidi.ExtendedIdi, 'uvfits': uvfits.Uv, 'ms': measurementset.Ms, 'virtual': virtual.VirtualWriter}[ob['kind']]
    t0 = int(ob['t0'])
    ref = rng.choice([t0, float(t0), Time(t0, format='unix', scale='utc'), datetime.datetime.fromtimestamp(t0, datetime.timezone.utc).replace(tzinfo=None),
                      datetime.datetime.fromtimestamp(t0, datetime.timezone.utc).strftime('%Y-%m-%d %H:%M:%S')])
    f = kls(*(() if ob['kind'] == 'virtual' else (path,)), ref_time=ref)
    pols = list(ob['pols'])
    rng.shuffle(pols)
    steps = [lambda: f.set_stokes([p.lower() if rng.random() < 0.5 else p for p in pols]), lambda: [f.set_frequency(q) for q in ob['freqs']], lambda: f.set_geometry(ob['station'], ob['antennas'])]
    rng.shuffle(steps)
    for s in steps:
        s()
    if ob['kind'] not in ('virtual', 'ms'):
        f.add_header_keyword('vftest', 42, 'a comment')
        f.add_comment('vf comment')
        f.add_history('vf history')
        f.set_observer('Jane Doe', project='P1')
    adds = [(k, p) for k in range(len(ob['sets'])) for p in ob['pols'] if p != ob['sets'][k]['gone']]
    if ob['kind'] != 'virtual':
        rng.shuffle(adds)
    for k, p in adds:
        s = ob['sets'][k]
        a = ob['antennas']
        kw = {'weights': s['weights'][p]} if s['weights'] else {}
        tm = rng.choice([s['tai'], Time(s['tai'], format='mjd', scale='tai'), s['tai']])
        bl = [(a[x], a[y]) for x, y in s['pairs']]
        f.add_data_set(tm, s['int'], bl, s['data'][p], pol=rng.choice([p, p.lower()]) if ob['kind'] != 'virtual' else p, source=s['source'], **kw)
    if ob['kind'] != 'virtual':
        if rng.random() < 0.5:
            f.write()
            f.close()
        else:
            f.__exit__(None, None, None)
    return f


def radec_of(st, az, alt):
    """J2000 position of a direction (inverse of what ephem does, good to an arc minute)"""
    import ephem
    o = ephem.Observer()
    o.lat, o.long, o.elev, o.date, o.pressure = st.lat, st.long, st.elev, st.date, 0
    o.epoch = ephem.J2000
    return o.radec_of(az, alt)


def uvw_ref(ob, s):
    """wavelengths per Hz: the baseline a1-a2 on the axes of the source, from hour angle and declination of date"""
    import math, ephem, numpy as np
    from astropy.time import Time
    st = ob['station']
    lat = float(st.lat)
    if s['source'] == 'z':
        ha, dec = 0.0, lat
    else:
        o = ephem.Observer()
        o.lat, o.long, o.elev, o.pressure = st.lat, st.long, st.elev, 0
        o.date = ephem.Date(Time(s['time'], format='unix', scale='utc').datetime)
        if isinstance(s['source'], ephem.FixedBody):
            b = ephem.FixedBody()
            b._ra, b._dec, b._epoch = s['source']._ra, s['source']._dec, s['source']._epoch
        else:
            b = type(s['source'])()
        b.compute(o)
        ha, dec = float(o.sidereal_time() - b.ra), float(b.dec)
    sh, ch, sd, cd, sl, cl = math.sin(ha), math.cos(ha), math.sin(dec), math.cos(dec), math.sin(lat), math.cos(lat)
    out = []
    for x, y in s['pairs']:
        e, n, u = np.array(ob['antennas'][x].stand.xyz) - np.array(ob['antennas'][y].stand.xyz)
        X, Y, Z = -sl * n + cl * u, e, cl * n + sl * u
        out.append((sh * X + ch * Y, -sd * ch * X + sd * sh * Y + cd * Z, cd * ch * X - cd * sh * Y + sd * Z))
    return np.array(out) / C


def judge(m, rng, ob, c):
    """c: the reader object"""
    import numpy as np
    kind = ob['kind']
    freq = np.concatenate(ob['freqs'])
    ids = ob['ids']
    if kind != 'virtual':
        m.close(c.freq, freq, 'frequencies', atol=max(1.0, 2e-7 * (freq.max() - freq.min())), rtol=0)
        m.equal([int(a.stand.id) for a in c.antennas], ids, 'antennas')
        m.equal(c.integration_count, len(ob['sets']), 'integration-count')
        m.equal(c.total_baseline_count, sum(len(s['pairs']) for s in ob['sets']) * (len(ob['freqs']) if kind == 'ms' else 1), 'baseline-count')
        m.equal(int(c.utc_date_obs.timestamp()), int(ob['t0'] + (ob['sets'][0]['int'] / 2 if kind == 'ms' else 0)), 'date-of-observation') if kind != 'ms' else None
        # antenna positions: differences are those of the array
        xyz = np.array([a.stand.xyz for a in c.antennas])
        want = np.array([a.stand.xyz for a in ob['antennas']])
        m.close(xyz - xyz[0], want - want[0], 'antenna-positions', atol=0.05, rtol=0)
        el, wl = c.station.earth_location, ob['station'].earth_location
        sep = np.sqrt(sum((getattr(el, q).to('m').value - getattr(wl, q).to('m').value)**2 for q in 'xyz'))
        m.check(sep < (500 if kind == 'ms' else 0.05), 'station-position', lambda: '%.1f m off' % sep)
    order = list(range(len(ob['sets'])))
    rng.shuffle(order)
    for k in order:
        s = ob['sets'][k]
        auto = rng.random() < 0.6
        srt = rng.random() < 0.5
        kw = omit(rng, {'include_auto': auto, 'sort': srt}, include_auto=False, sort=True)
        want = [(x, y) for x, y in s['pairs'] if auto or x != y]
        if not want:
            continue
        m.event('integrations')
        if rng.random() < 0.5:
            d = c.get_data_set(k + 1, **kw)
        else:
            # several at once
            nbl = [sum(auto or x != y for x, y in q['pairs']) for q in ob['sets']]
            ks = sorted(set([k, rng.choice([q for q in range(len(nbl)) if nbl[q] == nbl[k]])]))
            d = c.get_data_set([q + 1 for q in ks], **kw)
            if len(ks) > 1:
                m.equal(len(d), 2, 'data-set-list')
                d = d[ks.index(k)]
        jd = s['time'] / 86400 + 2440587.5 + (s['int'] / 2 / 86400 if kind == 'ms' else 0)
        m.check(abs(d.jd - jd) < (1e-7 if kind == 'uvfits' else 2e-8 if kind == 'ms' else 5e-9), 'time', lambda: 'off by %g s' % ((d.jd - jd) * 86400))
        if kind != 'virtual':
            m.check(abs(d.int_time - s['int']) < 1e-6 * s['int'], 'integration-time', lambda: repr(d.int_time))
        m.equal([p.upper() for p in d.pols] if kind == 'ms' else sorted(p.upper() for p in d.pols), (sorted(ob['pols'], key=lambda p: 'I Q U V RR RL LR LL XX XY YX YY'.split().index(p)) if kind == 'ms' else sorted(ob['pols'])), 'polarizations')
        got = [tuple(int(q) for q in b) for b in d.baselines]
        m.require(sorted(got) == sorted(want), 'baselines', lambda: 'stand pairs %s, expected %s' % ([(ids[x], ids[y]) for x, y in sorted(got)][:8], [(ids[x], ids[y]) for x, y in sorted(want)][:8]))
        if srt:
            m.check(got == sorted(got), 'sorted', lambda: 'baselines come as %s' % got[:8])
        row = {b: q for q, b in enumerate(s['pairs'])}
        take = [row[b] for b in got]
        for p in ob['pols']:
            pd = getattr(d, p)
            m.event('visibilities', pd.data.size)
            m.array_equal(np.asarray(pd.data), s['data'][p][take], 'visibilities')
            m.array_equal(np.asarray(pd.weight), s['weights'][p][take] if s['weights'] else np.ones_like(pd.weight), 'weights')
        u = uvw_ref(ob, s)[take][:, :, None] * freq
        m.event('uvw_values', u.size)
        # 1e-3: differences between mean and apparent places
        m.close(d.uvw, u, 'uvw', atol=1e-3 * np.abs(u).max() + 1e-4, rtol=0)
        if s['source'] != 'z':
            pc = d.phase_center
            import ephem
            # same direction again for a planet seen at two dates under one name: only the first one is kept
            try:
                ra, dec = s['source']._ra, s['source']._dec
            except AttributeError:
                ra, dec = s['source'].a_ra, s['source'].a_dec
            sep = np.hypot(((float(pc._ra) - float(ra) + np.pi) % (2 * np.pi) - np.pi) * np.cos(float(dec)), float(pc._dec) - float(dec))
            m.check(abs(float(pc._epoch) - 36525.0) < 2 and sep < 1e-3, 'phase-center', lambda: 'off by %g rad' % sep)
            m.check(s['source'].name in (getattr(pc, 'name', None), getattr(pc, 'src_name', None)), 'source-name', lambda: repr(getattr(pc, 'src_name', None)))
    # selection by uv distance
    if rng.random() < 0.5:
        s = ob['sets'][0]
        u = uvw_ref(ob, s) * freq[len(freq) // 2]
        r = np.sqrt((u[:, :2]**2).sum(1))
        cut = rng.uniform(0, r.max()) if r.max() > 0 else 1
        if np.abs(r - cut).min() > 2e-3 * r.max() + 1e-3:
            lo, hi = rng.choice([(cut, np.inf), (0, cut)])
            d = c.get_data_set(1, include_auto=True, min_uv=lo, max_uv=hi)
            got = sorted(tuple(int(q) for q in b) for b in d.baselines)
            m.equal(got, sorted(b for b, q in zip(s['pairs'], r) if (lo <= q < hi)), 'uv-range')


def trip(m, n, kinds):
    import os, shutil
    from lsl.common.stations import LWAStation
    LWAStation.radec_of = radec_of
    from lsl.imaging import utils
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nrg = m.rng(i), m.nprng(i)
        kind = rng.choice(kinds)
        path = os.path.join(m.scratch, 'f%d.%s' % (i, kind))
        desc = {'i': i, 'kind': kind}
        ob = make(rng, nrg, kind)
        desc.update({'stands': ob['ids'], 'pols': ob['pols'], 'windows': len(ob['freqs']), 'channels': len(ob['freqs'][0]), 'sets': [(len(s['pairs']), str(s['source'])[:1]) for s in ob['sets']]})
        with m.case(desc):
            m.event(kind)
            f = write(rng, ob, path)
            if kind == 'virtual':
                judge(m, rng, ob, f)
                continue
            c = utils.CorrelatedData(path)
            judge(m, rng, ob, c)
            if kind not in ('ms',):
                from astropy.io import fits
                with fits.open(path) as h:
                    hd = h[0].header
                    m.equal((hd['VFTEST'], hd['OBSERVER'], hd['PROJECT']), (42, 'Jane Doe', 'P1'), 'header-keywords')
                    m.check('vf comment' in str(hd['COMMENT']) and 'vf history' in str(hd['HISTORY']), 'header-comments')
            # an existing file is only replaced on request
            before = sorted((q, os.path.getsize(os.path.join(d, q))) for d, _, fs in os.walk(path) for q in fs) or os.path.getsize(path)
            m.raises(IOError, lambda: type(f)(path, ref_time=0), 'existing-file-replaced')
            m.equal(sorted((q, os.path.getsize(os.path.join(d, q))) for d, _, fs in os.walk(path) for q in fs) or os.path.getsize(path), before, 'existing-file-changed')
        shutil.rmtree(path, ignore_errors=True)
        if os.path.isfile(path):
            os.unlink(path)


def refuse(m, n):
    """polarizations that do not form an axis, too many antennas, incomplete setups: refused, never written wrongly"""
    import os, numpy as np
    from lsl.common.stations import LWAStation
    LWAStation.radec_of = radec_of
    from lsl.imaging import utils
    from lsl.writer import fitsidi, uvfits
    for i in range(m.n(n)):
        rng, nrg = m.rng(i), m.nprng(i)
        kind = rng.choice(['idi', 'uvfits', 'ms', 'extended'])
        ob = make(rng, nrg, kind)
        pols = rng.sample(rng.choice([['XX', 'YY', 'XY', 'YX'], ['I', 'Q', 'U', 'V'], ['RR', 'LL', 'RL', 'LR']]), rng.choice([1, 2, 2, 3]))
        ob['pols'] = pols
        for s in ob['sets']:
            s['weights'] = s['gone'] = None
            s['data'] = {p: nrg.standard_normal((len(s['pairs']), sum(len(f) for f in ob['freqs']))).astype(np.complex64) for p in pols}
        path = os.path.join(m.scratch, 'r%d.%s' % (i, kind))
        with m.case({'i': i, 'kind': kind, 'pols': pols}):
            try:
                write(rng, ob, path)
            except (RuntimeError, ValueError):
                m.event('refused')
                continue
            m.event(kind)
            c = utils.CorrelatedData(path)
            m.event('odd_polarizations')
            judge(m, rng, ob, c)


JOBS = {'fits%d' % k: (trip, 'plain', 40, ['idi', 'idi', 'aips', 'extended', 'uvfits', 'uvfits']) for k in range(4)}
JOBS.update({'ms%d' % k: (trip, 'plain', 18, ['ms']) for k in range(2)})
JOBS.update({'virtual': (trip, 'plain', 20, ['virtual']), 'refuse': (refuse, 'plain', 16)})
