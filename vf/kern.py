"""Random calls into everything that ends in a native numerical kernel, well-formed or hostile.

draw(rng, nprng, hostile) returns (name, description, function, exact): calling the function gives a list of arrays; exact says that the
result has to be the same to the last bit however the work is split up among threads.
"""
NAMES = ['spec', 'stokes', 'fx', 'fxstokes', 'x', 'xstokes', 'beam', 'grid', 'sim']


_AA = []


class Boom(Exception):
    pass


def _boom(L):
    raise Boom('window')


def _bad_signals(rng, nprng, x):
    import numpy as np
    kind = rng.choice(['ok', 'ok', 'empty', 'nosamp', '1d', '3d', 'dtype', 'object', 'nan', 'list', 'swapped', 'readonly', 'unaligned', 'negstride', 'broadcast'])
    if kind == 'empty':
        x = x[:0]
    elif kind == 'nosamp':
        x = x[:, :rng.choice([0, 1, 2])]
    elif kind == '1d':
        x = x[0]
    elif kind == '3d':
        x = x[:, :, None]
    elif kind == 'dtype' and x.dtype.names is None:
        x = x.real.astype(rng.choice(['u1', 'u2', 'f2', 'g', '?', 'm8[s]', 'U3', 'G', 'S2']))
    elif kind == 'object' and x.dtype.names is None:
        x = x.astype(object)
    elif kind == 'nan' and x.dtype.kind in 'fc':
        x = x.copy()
        x[nprng.random(x.shape) < 0.1] = rng.choice([np.nan, np.inf, -np.inf, 1e38])
    elif kind == 'list':
        x = x.tolist()
    elif kind == 'swapped' and x.dtype.names is None:
        x = x.astype(x.dtype.newbyteorder())
    elif kind == 'readonly':
        x = x.copy()
        x.flags.writeable = False
    elif kind == 'unaligned' and x.dtype.names is None:
        b = np.zeros(x.nbytes + 1, np.uint8)
        y = b[1:].view(x.dtype).reshape(x.shape)
        y[...] = x
        x = y
    elif kind == 'negstride':
        x = x[:, ::-1]
    elif kind == 'broadcast':
        x = np.broadcast_to(x[0], x.shape)
    return kind, x


def _num(rng, good, bad):
    return rng.choice(bad) if rng.random() < 0.15 else good


def draw(rng, nprng, hostile=False, name=None, small=False):
    import numpy as np
    from vf.checks.c08 import _signals, _windows, DT
    name = name or rng.choice(NAMES)
    W = _windows()
    if name in ('spec', 'stokes', 'fx', 'fxstokes'):
        from lsl.correlator import fx
        from vf.checks.c09 import array
        dt = rng.choice(DT)
        cplx = dt[0] == 'c'
        LFFT = rng.choice(([1] if hostile or name[:2] != "fx" else []) + [2, 3, 4, 5, 7, 8, 16, 17, 31, 32, 64] + ([] if small else [100, 127, 128, 1024]))
        nst = rng.choice([1, 2, 3, 6])
        L = LFFT if cplx else 2 * LFFT
        rate = rng.choice([196e6, 19.6e6])
        need = int(3e-6 * rate) + 2 if name[:2] == 'fx' else 0
        ns = need + L * rng.choice([1, 2, 5, 12]) + rng.choice([0, 0, 1, L // 2, L - 1])
        overlap = rng.choice([1, 1, 2, 3, 7])
        pfb = rng.random() < 0.35
        win = rng.choice(['none', 'none', 'hanning', 'blackman', 'ramp', 'list', 'int'])
        if pfb and not (hostile and rng.random() < 0.1):
            win = 'none'
        clip = rng.choice([0, 0, 20, 60, 90, 300])
        cf = rng.choice([38.1e6, 74.03e6] + ([0.0] if hostile or not (cplx and name[:2] == 'fx') else []))
        ants = array(rng, nst)
        x = _signals(rng, nprng, 2 * nst, ns, dt, clip)
        pol = rng.choice(['XX', 'YY', 'XY', 'YX'])
        w = W[win]
        pc = 'z'
        what = ''
        if hostile:
            what, x = _bad_signals(rng, nprng, x)
            LFFT = _num(rng, LFFT, [0, -1, 3 * ns, 2**20, 1, 2.0, None])
            overlap = _num(rng, overlap, [0, -1, 1000, 100000, 2**31 - 1, 2**40])
            clip = _num(rng, clip, [-1, 2**31 - 1, 2**40, 0.5])
            rate = _num(rng, rate, [0.0, -1.0, 1e300, float('nan'), float('inf'), 1.0, 1e12])
            cf = _num(rng, cf, [float('nan'), -1e9, 1e300])
            if rng.random() < 0.15:
                w = rng.choice([_boom, lambda n: np.ones(n - 1), lambda n: np.ones(n + 1), lambda n: np.ones((n, 1)), lambda n: 'abc', lambda n: None, 3, lambda: 1, lambda n: []])
            if rng.random() < 0.15:
                k = rng.choice(['less', 'more', 'none', 'long', 'nan', 'onepol', 'far'])
                if k == 'less':
                    ants = ants[:-1]
                elif k == 'more':
                    ants = ants + ants[:1]
                elif k == 'none':
                    ants = []
                elif k == 'long':
                    ants[0].cable.clock_offset = rng.choice([1e-3, -1e-3, 1.0, 1e20])
                elif k == 'nan':
                    ants[0].cable.clock_offset = float('nan')
                elif k == 'onepol':
                    ants = [a for a in ants if a.pol == 0]
                elif k == 'far':
                    ants[0].stand.x = rng.choice([1e9, -1e12, float('nan'), float('inf')])
                what += ' ' + k
            pc = rng.choice(['z', 'z', 'z', (10.0, -90.0), (float('nan'), 3.0)])
        desc = {'k': name, 'dt': dt, 'LFFT': LFFT, 'nst': nst, 'ns': ns, 'overlap': overlap, 'pfb': pfb, 'win': win, 'clip': clip, 'rate': rate, 'what': what}
        if name == 'spec':
            return name, desc, lambda: list(fx.SpecMaster(x, LFFT=LFFT, window=w, pfb=pfb, sample_rate=rate, central_freq=cf, clip_level=clip)), True
        if name == 'stokes':
            return name, desc, lambda: list(fx.StokesMaster(x, ants, LFFT=LFFT, window=w, pfb=pfb, sample_rate=rate, central_freq=cf, clip_level=clip)), True
        if name == 'fx':
            return name, desc, lambda: list(fx.FXMaster(x, ants, LFFT=LFFT, overlap=overlap, include_auto=True, window=w, pfb=pfb, sample_rate=rate, central_freq=cf, pol=pol, clip_level=clip, phase_center=pc)), True
        return name, desc, lambda: list(fx.FXStokes(x, ants, LFFT=LFFT, overlap=overlap, include_auto=True, window=w, pfb=pfb, sample_rate=rate, central_freq=cf, clip_level=clip, phase_center=pc)), True
    if name in ('x', 'xstokes'):
        from lsl.correlator import fx
        from lsl.reader.base import CI8
        from vf.checks.c09 import array
        nst, nc, nt = rng.choice([1, 2, 5]), rng.choice([1, 2, 5, 33]), rng.choice([1, 2, 7, 40])
        ants = array(rng, nst)
        x = (nprng.normal(0, 20, (2 * nst, nc, nt)) + 1j * nprng.normal(0, 20, (2 * nst, nc, nt))).astype(rng.choice(['c8', 'c16']))
        freq = 40e6 + 1e5 * np.arange(nc)
        what = ''
        if rng.random() < 0.15 and hostile:
            y = np.zeros(x.shape, dtype=CI8)
            y['re'], y['im'] = x.real, x.imag
            x = y
        if hostile:
            what = rng.choice(['ok', 'ok', 'freq', 'ants', 'dim', 'empty', 'dtype', 'nt0', 'list'])
            if what == 'freq':
                freq = freq[:rng.choice([0, 1])] if rng.random() < 0.5 else np.arange(nc + 3) * 1e5
            elif what == 'ants':
                ants = ants[:-1] if rng.random() < 0.5 else ants + ants[:2]
            elif what == 'dim':
                x = rng.choice([x[0], x[:, 0], x[..., None], x[:, :, None, :]])
            elif what == 'empty':
                x, ants = x[:0], []
            elif what == 'dtype' and x.dtype.names is None:
                x = x.real.astype(rng.choice(['f4', 'f8', 'i1', 'i2', 'U3', '?', 'g']))
            elif what == 'nt0':
                x = x[..., :0]
            elif what == 'list':
                x = x.tolist()
        pol = rng.choice(['XX', 'XY', 'YY'])
        fn = fx.XMaster if name == 'x' else fx.XStokes
        kw = {'pol': pol} if name == 'x' else {}
        return name, {'k': name, 'nst': nst, 'nc': nc, 'nt': nt, 'what': what}, lambda: list(fn(freq, x, ants, include_auto=True, **kw)), True
    if name == 'beam':
        from lsl.misc import beamformer
        from vf.checks.c09 import array
        nst, nc, nt = rng.choice([1, 3, 6]), rng.choice([1, 2, 9]), rng.choice([1, 7, 50, 300])
        ants = array(rng, nst)
        for a in ants:
            if rng.random() < 0.2:
                a.status = 1
        x = nprng.normal(0, 20, (2 * nst, nc, nt)) + 1j * nprng.normal(0, 20, (2 * nst, nc, nt))
        x = x.astype(rng.choice(['c8', 'c16']))
        freq = 40e6 + 1e5 * np.arange(nc)
        what = ''
        if hostile:
            what = rng.choice(['ok', 'freq', 'ants', 'dim', 'dtype', 'nt0', 'strided', 'real'])
            if what == 'freq':
                freq = np.arange(nc + 2) * 1e5
            elif what == 'ants':
                ants = ants[:-1] or ants
            elif what == 'dim':
                x = x[:, 0]
            elif what == 'dtype':
                x = x.real.astype(rng.choice(['u1', 'f2', 'i8', 'f8', 'i1', '?']))
            elif what == 'nt0':
                x = x[..., :0]
            elif what == 'strided':
                x = x[:, ::-1, ::-1]
            elif what == 'real':
                x = x.real.astype('f4')
        return name, {'k': name, 'nst': nst, 'nc': nc, 'nt': nt, 'what': what}, lambda: [beamformer.phase_and_sum(ants, x, central_freq=freq, azimuth=30.0, altitude=60.0)], True
    if name == 'grid':
        from lsl.imaging.data import VisibilityDataSet, PolarizationDataSet
        from lsl.imaging import utils
        nb, nc = rng.choice([1, 2, 10, 45, 120]), rng.choice([1, 2, 5])
        size, res, wres = rng.choice([(20, 1.0, 0.5), (16, 0.5, 0.1), (40, 1.0, 0.1), (21, 1.0, 0.5), (10, 0.5, 1.0)])
        mx = rng.choice([0.3, 0.49, 0.6, 2.0]) * size
        uvw = nprng.uniform(-mx, mx, (nb, 3, nc))
        uvw[:, 2] *= rng.choice([0, 0.01, 0.5])
        if rng.random() < 0.2:
            uvw[:, :2] = np.round(uvw[:, :2] / res) * res                  # exactly on (and half way between) cells
            uvw[:, :2] += rng.choice([0, res / 2])
        vis = (nprng.normal(size=(nb, nc)) + 1j * nprng.normal(size=(nb, nc))).astype(rng.choice(['c8', 'c8', 'c16']))
        wgt = nprng.uniform(0, 2, (nb, nc)).astype(rng.choice(['f4', 'f8']))
        chan = rng.choice([None, None, 0, [0], list(range(nc))])
        what = ''
        if hostile:
            what = rng.choice(['ok', 'ok', 'nan', 'inf', 'huge', 'wres', 'res', 'size', 'chan', 'edge', 'nanw'])
            if what in ('nan', 'inf', 'huge', 'nanw'):
                k = nprng.random(uvw.shape) < 0.1
                if what == 'nanw':
                    k[:, :2] = False
                uvw[k] = {'nan': np.nan, 'nanw': np.nan, 'inf': np.inf, 'huge': 1e30}[what]
            elif what == 'wres':
                wres = rng.choice([0.0, -1.0, 1e-9, 1e9, float('nan')])
            elif what == 'res':
                res = rng.choice([0.0, -1.0, float('nan'), 1e9, 3.0, 0.3])
            elif what == 'size':
                size = rng.choice([0, 1, 2, 3, 5, 7, -10, 6.5, 12.3])
            elif what == 'chan':
                chan = rng.choice([nc, -1, [], [0] * 50, -nc - 1])
            elif what == 'edge':
                uvw[:, :2] = np.round(uvw[:, :2] / mx) * size / 2
        from lsl.astro import equ_posn
        from lsl.common import stations
        from lsl.sim import vis as simvis
        if not _AA:
            st = stations.lwa1
            _AA.append(simvis.build_sim_array(st, st.antennas[:4:2], np.array([0.05]), jd=2459000.5))
        ds = VisibilityDataSet(2459000.5, 50e6 + 1e5 * np.arange(nc), [(0, i) for i in range(nb)], uvw, antennaarray=_AA[0], phase_center=equ_posn(10.0, 20.0))
        ds.append(PolarizationDataSet('XX', vis, weight=wgt))

        def grid():
            im = utils.build_gridded_image(ds, size=size, res=res, wres=wres, pol='XX', chan=chan)
            return [im.uv, im.bm[0], im.kern_corr]
        return name, {'k': name, 'nb': nb, 'nc': nc, 'size': size, 'res': res, 'wres': wres, 'what': what, 'dt': vis.dtype.str}, grid, False
    if name == 'sim':
        from vf.checks.c18 import station
        from lsl.sim import vis as simvis
        ns, nc = rng.choice([2, 5, 9] + [1] * hostile), rng.choice([1, 2, 9])
        st, ants = station(rng, rng.sample(range(1, 60), ns))
        jd = 2456000.5 + rng.uniform(0, 3000)
        aa = simvis.build_sim_array(st, ants, (40e6 + 1e6 * np.arange(nc)) / 1e9, jd=jd)
        srcs = {}
        for k in range(rng.choice([0, 1, 2, 4])):
            srcs['s%d' % k] = simvis.RadioFixedBody(rng.uniform(0, 6.28), rng.uniform(-1.2, 1.5), name='s%d' % k, jys=rng.uniform(1, 1e3), index=-0.7, mfreq=0.05,
                                                    srcshape=(rng.choice([0.0, 0.02]), rng.choice([0.0, 0.01]), rng.uniform(0, 3)))
        bls = [(p, q) for p in range(ns) for q in range(p, ns)]
        pc = 'z'
        chan, resolve = rng.choice([None, None, list(range(nc))]), rng.random() < 0.5
        what = ''
        if hostile:
            what = rng.choice(['ok', 'ok', 'bls', 'dupbls', 'nobls', 'chan', 'pos', 'neg'])
            if what == 'bls':
                bls = bls + [(0, rng.choice([ns, 1000, -1, 2**40]))]
            elif what == 'neg':
                bls = [(-1, 0)]
            elif what == 'dupbls':
                bls = bls * 3
            elif what == 'nobls':
                bls = []
            elif what == 'chan':
                chan = rng.choice([[nc], [-1], [0, nc + 5], []])
            elif what == 'pos':
                for s in srcs.values():
                    s._ra = rng.choice([1e9, -3.0])

        def sim():
            d = simvis.build_sim_data(aa, srcs, pols=['xx'], jd=jd, phase_center=pc, baselines=bls, chan=chan, resolve_src=resolve, flat_response=True)
            d = d if hasattr(d, 'uvw') else d[0]
            return [np.array(d.uvw), np.array(d.XX.data)]
        return name, {'k': name, 'ns': ns, 'nc': nc, 'src': len(srcs), 'what': what}, sim, True
    raise ValueError(name)


def same(a, b, exact):
    """are two results of a call the same?"""
    import numpy as np
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        x, y = np.asarray(x), np.asarray(y)
        if x.shape != y.shape or x.dtype != y.dtype:
            return False
        if exact:
            if x.tobytes() != y.tobytes():
                return False
        elif x.size:
            s = np.abs(x[np.isfinite(x)]).max() if np.isfinite(x).any() else 0
            if not np.allclose(x, y, rtol=0, atol=3e-5 * s + 1e-30, equal_nan=True):
                return False
    return True
