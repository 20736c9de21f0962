"""C11 - station descriptions."""
RULE = ('random stations (stands, FEEs, cables, ARX and SNAP wiring shuffled independently) written as text and as packed binary SSMIF files by '
        'an independent encoder and parsed; copies and pickles of them; cable models at random frequencies; geodesy against '
        'closed-form WGS84; distinct = distinct station descriptions, cables and location pairs')
ASSUMPTIONS = ['the per-stand ASP attenuators are equal for all stands (their assignment to cables is not judged)']
OPTS = {'scale': 10}
NEED = {'antennas': 1000, 'attributes': 20000, 'locations': 100, 'cables': 500, 'responses': 300}


def _attrs(a):
    return {'id': a.id, 'stand': a.stand.id, 'xyz': a.stand.xyz, 'pol': a.pol, 'status': a.status, 'theta': a.theta, 'phi': a.phi,
            'fee': a.fee.id, 'fee_number': a.fee.id_number, 'fee_port': a.fee_port, 'gain1': a.fee.gain1, 'gain2': a.fee.gain2,
            'fee_status': a.fee.status, 'cable': a.cable.id, 'length': a.cable.length, 'vf': a.cable.vf, 'dd': a.cable.dd, 'a0': a.cable.a0,
            'a1': a.cable.a1, 'ref_freq': a.cable.ref_freq, 'stretch': a.cable.stretch, 'arx': a.arx.id, 'arx_channel': a.arx.channel,
            'asp_channel': a.arx.asp_channel, 'arx_in': a.arx.input, 'arx_out': a.arx.output, 'board': a.board, 'digitizer': a.digitizer,
            'input': a.input}


def _judge(m, st, mod, exp, tag):
    import math
    m.equal(len(st.antennas), len(exp), tag + ':count')
    m.equal([a.digitizer for a in st.antennas], sorted(e['digitizer'] for e in exp.values()), tag + ':digitizer-order')
    m.equal(st.id, mod['id'], tag + ':station-id')
    m.equal(st.name, {'VL': 'LWA1', 'SV': 'LWASV', 'NA': 'LWANA'}.get(mod['id'], 'New LWA Station'), tag + ':station-name')
    m.check(abs(st.lat - math.radians(mod['lat'])) < 1e-11 and abs(st.long - math.radians(mod['lon'])) < 1e-11 and abs(st.elev - mod['el']) < 1e-6,
            tag + ':location', lambda: repr((st.lat, st.long, st.elev, mod['lat'], mod['lon'], mod['el'])))
    m.equal(st.default_drx_gain, mod['gain'], tag + ':drx-gain')
    for a in st.antennas:
        m.event('antennas')
        e = exp.get(a.id)
        m.require(e is not None, tag + ':antenna-id', 'antenna %d' % a.id)
        g = _attrs(a)
        for k in e:
            m.event('attributes')
            same = g[k] == e[k] or (isinstance(e[k], float) and math.isclose(g[k], e[k], rel_tol=1e-12, abs_tol=1e-24))
            m.check(same, '%s:%s' % (tag, k), lambda: 'antenna %d: %r, the file says %r' % (a.id, g[k], e[k]))
        m.equal(a.combined_status, 10 * e['status'] + e['fee_status'], tag + ':combined-status')
        m.equal(a.cable.asp_atten_db, 0.0, tag + ':attenuation')
    m.equal([s.id for s in st.stands], [a.stand.id for a in st.antennas], tag + ':stands')
    m.equal(list(st.pols), [a.pol for a in st.antennas], tag + ':pols')
    m.equal([c.id for c in st.cables], [a.cable.id for a in st.antennas], tag + ':cables')


def files(m, n):
    import os, copy, pickle, struct
    from vf import ssmif
    from lsl.common.stations import parse_ssmif
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        mod = ssmif.model(rng)
        txt = ssmif.text(mod, rng)
        with m.case({'i': i, 'ns': mod['ns'], 'id': mod['id'], 'arb': mod['arb_ch'], 'snap': mod['snap_ch']}):
            p = os.path.join(m.scratch, 's%d.txt' % i)
            open(p, 'w', newline='').write(txt)
            how = rng.choice(['name', 'text', 'binary-handle'])
            if how == 'name':
                st = parse_ssmif(p)
            else:
                with open(p, 'r' if how == 'text' else 'rb') as fh:
                    st = parse_ssmif(fh)
            exp = ssmif.expected(mod)
            _judge(m, st, mod, exp, 'text')
            # copies
            for a in st.antennas[:8]:
                a.cable.clock_offset = rng.uniform(-1e-8, 1e-8)
                a.cable.asp_atten_db = rng.choice([0.0, 0.5, 3.0])
            st.beamformer_min_delay = rng.choice([None, 1.5e-6])
            st.beamformer_min_delay_samples = rng.choice([None, 300])
            for tag, cp in (('pickle', pickle.loads(pickle.dumps(st, rng.choice([2, 4, 5])))), ('deepcopy', copy.deepcopy(st))):
                m.equal([_attrs(a) for a in cp.antennas], [_attrs(a) for a in st.antennas], tag + ':antennas')
                m.equal([(a.cable.clock_offset, a.cable.asp_atten_db) for a in cp.antennas], [(a.cable.clock_offset, a.cable.asp_atten_db) for a in st.antennas],
                        tag + ':cable-offsets')
                m.equal((cp.name, cp.id, cp.elev, cp.beamformer_min_delay, cp.beamformer_min_delay_samples, cp.default_drx_gain),
                        (st.name, st.id, st.elev, st.beamformer_min_delay, st.beamformer_min_delay_samples, st.default_drx_gain), tag + ':station')
                m.check(abs(cp.lat - st.lat) < 1e-14 and abs(cp.long - st.long) < 1e-14, tag + ':location')
                m.check(all(x is not y for x, y in zip(cp.antennas, st.antennas)), tag + ':shared')
                m.equal(str(cp.interface), str(st.interface), tag + ':interface')
                m.check(cp.antennas == st.antennas, tag + ':equal')
                # the antennas of a station can be replaced
                some = [a for a in cp.antennas if rng.random() < 0.7] or list(cp.antennas)
                want = [_attrs(a) for a in sorted(some, key=lambda a: a.digitizer)]
                rng.shuffle(some)
                cp.antennas = some
                m.equal([_attrs(a) for a in cp.antennas], want, tag + ':replaced')
                for bad in (tuple(some), some + [5], None):
                    m.raises(TypeError, lambda: setattr(cp, 'antennas', bad), tag + ':replaced-type')
                m.equal([_attrs(a) for a in cp.antennas], want, tag + ':replaced-changes')
            os.unlink(p)


def binary(m, n):
    import os, struct
    from vf import ssmif
    from lsl.common import mcs
    from lsl.common.stations import parse_ssmif
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        mod = ssmif.model(rng, rng.choice([8, 16, 64, 128, 256]))
        with m.case({'i': i, 'bin': 1, 'ns': mod['ns'], 'id': mod['id'], 'snap': mod['snap_ch']}):
            s = mcs.parse_c_struct(mcs.STATION_SETTINGS_STRUCT, endianness='little')
            s.drx_gain = mod['gain']
            p = os.path.join(m.scratch, 'b%d.dat' % i)
            open(p, 'wb').write(ssmif.binary(mod, 0, bytes(s)))
            if rng.random() < 0.5:
                st = parse_ssmif(p)
            else:
                with open(p, 'rb') as fh:
                    st = parse_ssmif(fh)
            _judge(m, st, mod, ssmif.expected(mod, single=True), 'binary')
            os.unlink(p)


def cables(m, n):
    import numpy as np, math
    from lsl.common.stations import Cable
    C = 299792458.0
    for i in range(m.n(n)):
        rng = m.rng(i)
        L, vf, dd, a0, a1, fr, st = (rng.uniform(1, 200), rng.uniform(0.6, 0.95), rng.uniform(0, 5e-9), rng.uniform(0, 0.01), rng.uniform(0, 0.001),
                                     rng.choice([10e6, 38e6]), rng.uniform(0.9, 1.1))
        with m.case({'i': i, 'L': L, 'vf': vf}):
            c = Cable('x', L, vf=vf, dd=dd, a0=a0, a1=a1, ref_freq=fr, stretch=st)
            c.clock_offset = rng.choice([0.0, rng.uniform(-1e-6, 1e-6)])
            c.asp_atten_db = rng.choice([0.0, 0.5, rng.uniform(0, 30)])
            f = np.array([rng.uniform(1e6, 98e6) for _ in range(5)])
            if rng.random() < 0.3:
                f = float(f[0])
            m.event('cables')
            want = L * st / (vf * C) + dd * (L * st / 100) / np.sqrt(np.asarray(f) / fr) + c.clock_offset
            m.close(c.delay(f), want, 'cable-delay', rtol=1e-12)
            m.close(c.delay(f, ns=True), want * 1e9, 'cable-delay-ns', rtol=1e-12)
            att = np.exp(2 * a0 * L * st * np.sqrt(np.asarray(f) / fr) + a1 * L * st * np.asarray(f) / fr)
            asp = rng.random() < 0.5
            if asp:
                att = att * 10 ** (c.asp_atten_db / 10)
            m.close(c.attenuation(f, include_asp_atten=asp), att, 'cable-attenuation', rtol=1e-11)
            m.close(c.attenuation(f, dB=True, include_asp_atten=asp), 10 * np.log10(att), 'cable-attenuation-db', rtol=1e-10, atol=1e-10)
            m.close(c.gain(f, include_asp_atten=asp), 1 / att, 'cable-gain', rtol=1e-11)
            m.close(c.gain(f, dB=True, include_asp_atten=asp), -10 * np.log10(att), 'cable-gain-db', rtol=1e-10, atol=1e-10)
            db = rng.random() < 0.5
            fq, r = c.response(dB=True) if db else c.response()
            m.close(fq, np.arange(10, 101, 10) * 1e6, 'cable-response-frequency', rtol=1e-12)
            att = np.exp(2 * a0 * L * st * np.sqrt(np.asarray(fq) / fr) + a1 * L * st * np.asarray(fq) / fr) * 10 ** (c.asp_atten_db / 10)
            m.close(r, 10 * np.log10(att) if db else att, 'cable-response', rtol=1e-10, atol=1e-10)


def responses(m, n):
    """Responses of the antennas, front ends and receiver boards, as tabulated."""
    import os
    import numpy as np
    from lsl.common.stations import Antenna, FEE, ARX, lwa1
    from lsl.common.paths import DATA
    cache = os.path.join(os.environ['LSLCONFIGDIR'], 'data_cache', 'arx')
    os.makedirs(cache, exist_ok=True)
    z = np.loadtxt(os.path.join(DATA, 'antenna', 'BurnsZ.txt'))
    g = np.loadtxt(os.path.join(DATA, 'frontend', 'fee.txt'))
    names = {'split': 0, 'full': 1, 'reduced': 2, 'split@3MHz': 4, 'full@3MHz': 5}
    columns = {'H': {0: 0, 1: 1, 2: 2, 4: 3}, 'I': {0: 3, 1: 1, 2: 7, 3: 4, 4: 2, 5: 0, 6: 5, 7: 6}}
    for i in range(m.n(n)):
        rng, nrg = m.rng(i), m.nprng(i)
        with m.case({'i': i}):
            a, f = rng.choice(lwa1.antennas), FEE('FEE', rng.randint(1, 300))
            for obj, what, tab, lin in ((a, 'antenna', (z[:, 0] * 1e6, z[:, 3]), True), (f, 'fee', (g[:, 0] * 1e6, g[:, 1]), False)):
                fq, r = obj.response()
                m.close(fq, tab[0], what + '-frequency', rtol=1e-12)
                m.close(r, tab[1] if lin else 10 ** (tab[1] / 10), what + '-response', rtol=1e-10)
                fq, r = obj.response(dB=True)
                m.close(r, 10 * np.log10(tab[1]) if lin else tab[1], what + '-response-db', rtol=1e-10, atol=1e-10)
            b, rev = rng.choice([(rng.randint(300, 499), 'I'), (rng.choice([300, 499]), 'I'), (rng.randint(8200, 8300), 'H'), (rng.choice([8200, 8300]), 'H')])
            x = ARX(b, rng.randint(1, 16))
            m.equal(x.revision(), rev, 'arx-revision')
            for k, want in ((100, 'D'), (199, 'D'), (200, 'G'), (299, 'G'), (99, 'unknown'), (500, 'unknown'), (8199, 'unknown'), (8301, 'unknown')):
                m.equal(ARX(k, 1).revision(), want, 'arx-revision')
            nf = rng.randint(1, 60)
            data = {'freq': np.sort(nrg.uniform(1e6, 98e6, nf))}
            for c in range(1, 17):
                data['ch%d' % c] = nrg.uniform(-80, 60, (nf, 8))
            path = os.path.join(cache, 'ARX_board_%04d_filters.npz' % b)
            np.savez(path, **data)
            open(path + '_meta', 'w').close()
            for q in list(range(9)) + sorted(names):
                m.event('responses')
                w = columns[rev].get(names.get(q, q))
                if w is None:
                    m.raises(ValueError, lambda: x.response(filter=q), 'arx-filter-refused')
                    continue
                fq, r = x.response(filter=q)
                m.close(fq, data['freq'], 'arx-frequency', rtol=1e-12)
                m.close(r, data['ch%d' % x.channel][:, w], 'arx-response', rtol=1e-12)
                m.close(x.response(filter=q, dB=False)[1], 10 ** (data['ch%d' % x.channel][:, w] / 10), 'arx-response-linear', rtol=1e-10)
            fq, r = x.response()
            m.close(r, data['ch%d' % x.channel][:, columns[rev][0]], 'arx-default-filter', rtol=1e-12)


A, FL = 6378137.0, 1 / 298.257223563
E2 = FL * (2 - FL)


def _ecef(lat, lon, h):
    import numpy as np
    N = A / np.sqrt(1 - E2 * np.sin(lat) ** 2)
    return np.array([(N + h) * np.cos(lat) * np.cos(lon), (N + h) * np.cos(lat) * np.sin(lon), (N * (1 - E2) + h) * np.sin(lat)])


def _enu(lat, lon):
    import numpy as np
    return np.array([[-np.sin(lon), np.cos(lon), 0], [-np.sin(lat) * np.cos(lon), -np.sin(lat) * np.sin(lon), np.cos(lat)],
                     [np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)]])


def geo(m, n):
    import numpy as np, math
    from lsl.common.stations import LWAStation, Antenna, Stand, geo_to_ecef, ecef_to_geo
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        la, lo, h = rng.uniform(-85, 85), rng.uniform(-180, 180), rng.uniform(-100, 4000)
        near = rng.random() < 0.5
        la2 = la + rng.uniform(-0.01, 0.01) if near else rng.uniform(-85, 85)
        lo2 = lo + rng.uniform(-0.01, 0.01) if near else rng.uniform(-180, 180)
        h2 = rng.uniform(-100, 4000)
        with m.case({'i': i, 'from': (la, lo, h), 'to': (la2, lo2, h2)}):
            m.event('locations')
            rla, rlo = math.radians(la), math.radians(lo)
            x = _ecef(rla, rlo, h)
            m.close(np.array(geo_to_ecef(rla, rlo, h)), x, 'geo-to-ecef', rtol=0, atol=1e-4)
            b = ecef_to_geo(*x)
            dlo = (b[1] - rlo + math.pi) % (2 * math.pi) - math.pi
            m.check(abs(b[0] - rla) < 1e-10 and abs(dlo) < 1e-10 and abs(b[2] - h) < 1e-4, 'ecef-to-geo', lambda: repr((b, rla, rlo, h)))
            xyz = [[rng.uniform(-500, 500) for _ in range(3)] for _ in range(3)]
            stds = [Stand(k + 1, *p) for k, p in enumerate(xyz)]
            st = LWAStation('t', la, lo, h, id='TT', antennas=[Antenna(k + 1, stand=s, digitizer=k + 1) for k, s in enumerate(stds)])
            m.close(np.array(st.geocentric_location), x, 'geocentric-location', rtol=0, atol=1e-4)
            el = st.earth_location
            m.close(np.array([el.x.value, el.y.value, el.z.value]), x, 'earth-location', rtol=0, atol=1e-4)
            T, Ti = np.asarray(st.eci_transform_matrix), np.asarray(st.eci_inverse_transform_matrix)
            m.close(T @ Ti, np.eye(3), 'eci-inverse', rtol=0, atol=1e-12)
            # the ECI axes: X toward the meridian on the equator, Y east, Z north pole
            R = np.array([[math.cos(rlo), math.sin(rlo), 0], [-math.sin(rlo), math.cos(rlo), 0], [0, 0, 1]]) @ _enu(rla, rlo).T
            m.close(T, R, 'eci-matrix', rtol=0, atol=1e-12)
            d = _enu(rla, rlo) @ (_ecef(math.radians(la2), math.radians(lo2), h2) - x)
            dist = np.linalg.norm(d)
            how = rng.choice(['tuple', 'station', 'location'])
            to = (la2, lo2, h2)
            if how == 'station':
                to = LWAStation('u', la2, lo2, h2, id='UU')
            elif how == 'location':
                to = LWAStation('u', la2, lo2, h2, id='UU').earth_location
            off = np.asarray(st.get_enz_offset(to))
            m.close(off, d, 'enz-offset', rtol=2e-5, scale=dist, atol=1e-3)
            az, alt, r = st.get_pointing_and_distance(to)
            m.check(abs(r - dist) <= 1e-6 * dist + 1e-3, 'distance', lambda: '%r vs %r' % (r, dist))
            u = np.array([math.sin(az) * math.cos(alt), math.cos(az) * math.cos(alt), math.sin(alt)])
            m.close(u, d / dist, 'pointing', rtol=0, atol=2e-5)
            if i % 4 == 0:
                for k in range(3):
                    e = stds[k].earth_location
                    m.close(np.array([e.x.value, e.y.value, e.z.value]), x + _enu(rla, rlo).T @ np.array(xyz[k]), 'stand-location', rtol=0, atol=2e-2)
            # stand arithmetic
            a, c = stds[0], stds[1]
            m.close(np.array(a - c), np.array(xyz[0]) - xyz[1], 'stand-sub', rtol=1e-14)
            m.close(np.array(a + c), np.array(xyz[0]) + xyz[1], 'stand-add', rtol=1e-14)
            m.equal([a[0], a[1], a[2]], xyz[0], 'stand-index')


JOBS = {'text0': (files, 'plain', 9), 'text1': (files, 'plain', 9), 'bin0': (binary, 'plain', 5), 'bin1': (binary, 'plain', 5),
        'cables': (cables, 'plain', 600), 'responses': (responses, 'plain', 40), 'geo0': (geo, 'plain', 60), 'geo1': (geo, 'plain', 60)}
