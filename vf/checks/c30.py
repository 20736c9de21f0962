"""C30 - calibration, deconvolution, source finding and overlays put things where they belong."""
import math

RULE = ('simulated skies over random arrays, corrupted by known antenna gains, delays and phases and self-calibrated; dirty images of point sources at random places (across 0h of right ascension too) cleaned; images with '
        'planted backgrounds and sources searched; overlays drawn on a recording stand-in for the matplotlib axis; distinct = distinct cases')
OPTS = {'scale': 2}
NEED = {'calibrated': 40, 'recovered': 30, 'cleaned': 12, 'backgrounds': 20, 'found': 40, 'overlays': 8}


def _array(rng, n, freq, jd, half):
    from vf.checks.c18 import station
    from lsl.sim.vis import build_sim_array
    st, ants = station(rng, rng.sample(range(1, 250), n))
    for a in ants:
        a.stand.x, a.stand.y, a.stand.z = rng.uniform(-half, half), rng.uniform(-half, half), rng.uniform(-1, 1)
    return st, ants, build_sim_array(st, ants, freq / 1e9, jd=jd)


def _sources(rng, st, jd, k, lo=0.7, ra=None, apart=0.35):
    """k fixed sources well above the horizon and apart from each other"""
    from vf.checks import c22
    out = []
    for _ in range(20000):
        if len(out) == k:
            break
        s = c22.Source(rng, 's%d' % len(out))
        if s.kind != 'fixed':
            continue
        if ra is not None:
            s.ra = ra % (2 * math.pi)
        az, alt = s.azalt(st, jd)
        d = c22.enu(az, alt)
        if alt > lo and all(sum((p - q) ** 2 for p, q in zip(d, o[1])) > apart ** 2 for o in out):
            out.append((s, d))
    return out


def selfcal(m, n):
    import numpy as np
    from lsl.imaging import selfcal as S
    from lsl.sim.vis import build_sim_data
    from vf.checks import c22
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        na = rng.choice([3, 4, 6, 9])
        nc = rng.choice([1, 4, 11])
        wide = rng.random() < 0.5
        freq = rng.uniform(30e6, 45e6) + (3e6 if wide else 250e3) * np.arange(nc)
        jd = 2456789.0 + rng.random()
        st, ants, aa = _array(rng, na, freq, jd, 40)
        src = [s for s, _ in _sources(rng, st, jd, rng.choice([1, 2]), lo=0.4)]
        if not src:
            continue
        auto = rng.random() < 0.4
        bls = [(i, j) for i in range(na) for j in range(i if auto else i + 1, na)]
        pols = rng.choice([['XX'], ['XX', 'YY']])
        mod = build_sim_data(aa, {'s%d' % q: s.body for q, s in enumerate(src)}, jd=jd, pols=pols, baselines=bls, flat_response=True)
        mode = rng.choice(['phase', 'delay', 'both'])
        am = rng.random() < 0.5
        amp = nr.uniform(0.4, 2.5, na) if am and rng.random() < 0.8 else (nr.uniform(0.4, 0.99, na) if am else np.ones(na))
        fmax = freq.max() / 1e9
        lim = 0.15 / fmax
        tau = nr.uniform(-lim, lim, na) if mode != 'phase' else np.zeros(na)
        phs = nr.uniform(-0.5, 0.5, na) if mode != 'delay' else np.zeros(na)
        pol = rng.choice(pols)
        chan = np.arange(nc)
        if nc > 3 and rng.random() < 0.5:
            chan = np.array(sorted(rng.sample(range(nc), rng.randint(2, nc - 1))))
        elif nc == 1 and rng.random() < 0.5:
            chan = 0
        ri = rng.randrange(na)
        ref = 0 if ri == 0 else ants[ri].stand.id
        mi = rng.choice([30, 60, 300])
        gain = rng.choice([0.75, 0.75, 1.0, 0.4])
        eps = rng.choice([0.0, 0.0, 0.0, 1e4])
        with m.case({'na': na, 'nc': nc, 'mode': mode, 'amp': am, 'auto': auto, 'pol': pol, 'ref': ri, 'iter': mi, 'gain': gain, 'eps': eps, 'wide': wide, 'chan': np.atleast_1d(chan).tolist()}):
            m.event('calibrated')
            obs = mod.copy(include_pols=True)
            g = amp[:, None] * np.exp(2j * np.pi * freq[None, :] / 1e9 * tau[:, None] + 1j * phs[:, None])
            for p in obs:
                for b, (i, j) in enumerate(obs.baselines):
                    p.data[b] = p.data[b] / (g[i] * g[j].conj())
            keep = {q: getattr(obs, q).data.copy() for q in pols}
            keepm = {q: getattr(mod, q).data.copy() for q in pols}
            fn = {'phase': S.phase_only, 'delay': S.delay_only, 'both': S.delay_and_phase}[mode]
            kw = {}
            if mode != 'phase':
                kw['delay_cutoff'] = 1e-4
            if mode != 'delay':
                kw['phase_cutoff'] = 1e-4
            if rng.random() < 0.2:
                kw = {}
            r = fn(aa, obs, mod, chan, pol, ref_ant=ref, loop_gain=gain, max_iter=mi, amplitude=am, inv_epsilon=eps, return_convergence=True, **kw)
            m.equal(len(r), 1 + int(am) + (2 if mode == 'both' else 1) + 1, 'cal:returned')
            new, conv = r[0], r[-1]
            rest = list(r[1:-1])
            ga = rest.pop(0) if am else np.ones(na)
            de = rest.pop(0) if mode != 'phase' else np.zeros(na)
            ph = rest.pop(0) if mode != 'delay' else np.zeros(na)
            for q in pols:
                m.check(np.array_equal(getattr(obs, q).data, keep[q]) and np.array_equal(getattr(mod, q).data, keepm[q]), 'cal:input-changed', 'the input data changed')
            m.check(de[ri] == 0 and ph[ri] == 0, 'cal:reference', 'reference antenna has delay %g, phase %g' % (de[ri], ph[ri]))
            # the calibrated data are the data with these gains, for every polarization and channel
            h = ga[:, None] * np.exp(2j * np.pi * freq[None, :] / 1e9 * de[:, None] + 1j * ph[:, None])
            for q in pols:
                want = np.array([keep[q][b] * h[i] * h[j].conj() for b, (i, j) in enumerate(bls)])
                m.close(getattr(new, q).data, want, 'cal:applied', rtol=1e-4, atol=1e-4 * np.abs(want).max())
            if mode != 'both':
                m.check(conv, 'cal:converged', 'no convergence in %d iterations of noiseless data' % mi)
            if conv:
                m.event('recovered')
                tol = (1e-2 if kw else 0.15) * (4 if mode == 'both' else 1)
                x, y = getattr(new, pol).data, keepm[pol]
                cc = np.atleast_1d(chan)
                d = np.abs(x - y)[:, cc].max() / np.abs(y[:, cc]).max()
                m.check(d < tol, 'cal:model', 'calibrated data are %.3f of the peak off of the model' % d)
                if am and na > 2:
                    m.close(ga, amp, 'cal:gains', rtol=2e-3)
                if kw and mode == 'phase':
                    m.close(np.angle(np.exp(1j * (ph - (phs - phs[ri])))), np.zeros(na), 'cal:phases', atol=1e-3)
                if kw and mode == 'delay':
                    m.close(de, tau - tau[ri], 'cal:delays', atol=2e-3)
            if rng.random() < 0.2:
                m.raises(RuntimeError, lambda: fn(aa, obs, mod, chan, 'RR'), 'cal:pol', 'unknown polarization')
                m.raises(RuntimeError, lambda: fn(aa, obs, mod, chan, pol, ref_ant=9999), 'cal:ref', 'unknown stand')


def _pixel(az, alt, d):
    """nearest pixel to a direction"""
    import numpy as np
    az, alt = np.ma.filled(az, np.nan), np.ma.filled(alt, np.nan)
    r = (np.cos(alt) * np.sin(az) - d[0]) ** 2 + (np.cos(alt) * np.cos(az) - d[1]) ** 2
    r = np.where(np.isfinite(r), r, 9e9)
    return np.unravel_index(np.argmin(r), r.shape)


def clean(m, n):
    import numpy as np
    from lsl.imaging import deconv, utils
    from lsl.sim.vis import build_sim_data, RadioFixedBody
    for k in range(m.n(n)):
        rng = m.rng(k)
        nc = rng.choice([1, 3])
        freq = 40e6 + 500e3 * np.arange(nc)
        jd = 2456789.0 + rng.random()
        half = rng.choice([20, 25, 45])
        size, res = rng.choice([(40, 0.5), (40, 0.5), (30, 0.4), (48, 0.6)])
        if size == 30:
            half = min(half, 25)                # the uv plane has to hold the baselines
        st, ants, aa = _array(rng, 20, freq, jd, half)
        src = []
        zero = rng.random() < 0.4
        if zero:
            # a time at which 0h is up
            for _ in range(50):
                src = _sources(rng, st, jd, 1, ra=rng.uniform(-0.02, 0.02))
                if src:
                    break
                jd = 2456789.0 + rng.random()
            st2 = st
        if not src:
            src = _sources(rng, st, jd, rng.choice([1, 2]))
        if not src:
            continue
        fl = [100.0, 45.0][:len(src)]
        kw = dict(size=size, res=res, wres=0.1, pol='XX')
        which = rng.choice(['clean', 'clean', 'sources'])
        with m.case({'nc': nc, 'half': half, 'size': size, 'res': res, 'zero': zero, 'which': which, 'jd': jd, 'src': [(s.ra, s.dec) for s, _ in src]}):
            aa.set_jultime(jd)
            bodies = {'s%d' % q: RadioFixedBody(s.ra, s.dec, name='s%d' % q, epoch=s.epoch, jys=fl[q], index=0) for q, (s, _) in enumerate(src)}
            mod = build_sim_data(aa, bodies, jd=jd, pols=['XX'], flat_response=True)
            g = utils.build_gridded_image(mod, **kw)
            N = g.shape[0]
            dirty = g.image(center=(N // 2, N // 2))
            az, alt = utils.get_image_azalt(g)
            px = [_pixel(az, alt, d) for _, d in src]
            if np.hypot(*(np.array(np.unravel_index(dirty.argmax(), dirty.shape)) - np.array(px[0]))) > 1.5:
                continue                        # the dirty image does not show it either: another property (C23)
            m.event('cleaned')
            before = mod.XX.data.copy()
            if which == 'clean':
                out = deconv.clean(mod, g, **kw)
            else:
                comp, rest = deconv.clean_sources(mod, g, bodies, **kw)
                out = comp + rest
            m.check(np.array_equal(mod.XX.data, before), 'clean:input-changed', 'the data changed')
            arr = np.ma.filled(np.ma.asarray(out, dtype=float), np.nan)
            m.check(np.array_equal(np.isfinite(arr), np.isfinite(np.ma.filled(np.ma.asarray(az, dtype=float), np.nan))), 'clean:mask', 'the mask is not that of the sky')
            pk = np.unravel_index(np.nanargmax(arr), arr.shape)
            near = max(abs(pk[0] - px[0][0]), abs(pk[1] - px[0][1]))
            m.check(near == 0 or (near == 1 and (half > 40 or dirty[px[0]] < 0.97 * dirty.max() or arr[px[0]] > 0.94 * arr[pk])), 'clean:position', 'the brightest source came out at %s, is at %s' % (tuple(map(int, pk)), tuple(map(int, px[0]))))
            m.check(abs(arr[pk] / dirty.max() - 1) < 0.12, 'clean:flux', 'peak %.3f of a dirty image with %.3f' % (arr[pk], dirty.max()))
            for q, p in enumerate(px[1:], 1):
                box = arr[max(0, p[0] - 1):p[0] + 2, max(0, p[1] - 1):p[1] + 2]
                m.check(abs(np.nanmax(box) / arr[pk] / 0.45 - 1) < (0.35 if half < 40 else 0.8), 'clean:second', 'second source has %.3f of the first, expected 0.45' % (np.nanmax(box) / arr[pk]))
            off = np.isfinite(arr)
            for p in px:
                off[max(0, p[0] - 7):p[0] + 8, max(0, p[1] - 7):p[1] + 8] = False
            if off.sum() > 100:
                m.check(arr[off].std() < 0.25 * dirty[off].std(), 'clean:sidelobes', 'rms of %.4f away from the sources, %.4f in the dirty image' % (arr[off].std(), dirty[off].std()))


def analysis(m, n):
    import numpy as np
    from lsl.imaging import analysis as A
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        nx, ny = rng.choice([64, 96, 150, 200]), rng.choice([64, 100, 131, 256])
        X, Y = np.indices((nx, ny)).astype(float)
        kind = rng.choice(['flat', 'noise', 'noise', 'slope', 'sources', 'sources'])
        lev = rng.choice([0.0, 10.0, -40.0, 1e4])
        sig = rng.choice([0.1, 0.5, 2.0])
        win = rng.choice([16, 16, 32]) if min(nx, ny) >= 96 else 16
        with m.case({'k': k, 'n': (nx, ny), 'kind': kind, 'lev': lev, 'sig': sig, 'win': win}):
            bg = np.full((nx, ny), lev)
            if kind == 'slope':
                bg = bg + rng.uniform(-0.3, 0.3) * X + rng.uniform(-0.3, 0.3) * Y
            img = bg + (0 if kind == 'flat' else nr.normal(size=(nx, ny)) * sig)
            src = []
            if kind == 'sources':
                fw = rng.choice([2.5, 3.0, 4.0])
                s = fw / 2.3548
                for q in range(rng.randint(1, 5)):
                    c = (rng.uniform(12, nx - 12), rng.uniform(12, ny - 12))
                    if all(math.hypot(c[0] - o[0], c[1] - o[1]) > 20 for o in src):
                        src.append(c + (rng.uniform(40, 100) * sig,))
                        img = img + src[-1][2] * np.exp(-((X - c[0]) ** 2 + (Y - c[1]) ** 2) / 2 / s ** 2)
            keep = img.copy()
            b = A.estimate_background(img, win)
            m.event('backgrounds')
            m.check(np.array_equal(keep, img), 'analysis:input-changed', 'the image changed')
            m.equal(b.shape, img.shape, 'background:shape')
            err = np.abs(b - bg)
            tile = win / 2.0
            lim = 10 * sig / tile + 1e-6 * abs(lev)
            if kind == 'slope':
                lim = lim + 0.6 * tile * 1.5    # median filtering flattens a slope at the edges
            if kind == 'sources':
                lim = lim + 25 * sig
            m.check(np.isfinite(b).all() and err.max() < lim, 'background:value', 'off by %.3f at %s (level %g, noise %g)' % (float(np.nanmax(err)), tuple(map(int, np.unravel_index(np.argmax(err), err.shape))), lev, sig))
            m.check(np.median(err) < 2.5 * sig / tile + 1e-6 * abs(lev) + (0.3 * tile if kind == 'slope' else 0), 'background:median', 'typically off by %.3f' % np.median(err))
            if kind == 'sources':
                x, y, f, sh, ro = A.find_point_sources(img - bg, threshold=8 * sig, fwhm=fw, background_size=0)
                m.equal(len({len(x), len(y), len(f), len(sh), len(ro)}), 1, 'find:lengths')
                m.event('found', len(src))
                un = set(range(len(x)))
                for (cx, cy, pk) in src:
                    d = np.hypot(x - cx, y - cy) if len(x) else np.array([99.0])
                    j = int(np.argmin(d))
                    m.check(d[j] < 0.6, 'find:missed', 'nothing within %.2f pixels of a source at %.2f, %.2f' % (d[j], cx, cy))
                    if d[j] < 0.6:
                        un.discard(j)
                        i0, j0 = int(round(cx)), int(round(cy))
                        # the offset has the sign of the true one in each axis
                        for got, true, nm in ((x[j], cx, 'x'), (y[j], cy, 'y')):
                            fr = true - round(true)
                            if abs(fr) > 0.2 and abs(fr) < 0.42:
                                o = got - round(true)
                                m.check(0.15 * abs(fr) < o * np.sign(fr) < 1.3 * abs(fr), 'find:center', '%s of %.3f for a source at %.3f' % (nm, got, true))
                        m.check(abs(f[j] - (img - bg)[i0 - 1:i0 + 2, j0 - 1:j0 + 2].max()) < 6 * sig, 'find:flux', 'flux %.2f' % f[j])
                m.check(not un, 'find:spurious', '%d detections that are not sources' % len(un))
                # with the background left in and taken out
                x2, y2, f2, _, _ = A.find_point_sources(img, threshold=8 * sig, fwhm=fw, background_size=win, sharp=[-10, 10])
                edge = [(a, c) for a, c in zip(x2, y2) if win < a < nx - win and win < c < ny - win and all(math.hypot(a - o[0], c - o[1]) > 1.5 * win for o in src)]
                m.check(not edge, 'find:background', 'spurious detections at %s' % [(round(float(a), 1), round(float(c), 1)) for a, c in edge[:3]])


class Axis(object):
    def __init__(self):
        self.lines, self.texts = [], []

    def plot(self, x, y, **kw):
        import numpy as np
        self.lines.append((np.atleast_1d(np.asarray(x, dtype=float)), np.atleast_1d(np.asarray(y, dtype=float))))

    def text(self, x, y, s, **kw):
        self.texts.append((float(x), float(y), s))


def overlay(m, n):
    """Everything drawn lies where the image has that direction."""
    import numpy as np
    from lsl.imaging import overlay as O, utils
    from lsl.sim.vis import build_sim_data
    from vf.checks import c22

    def at(img, x, y):
        i, j = int(round(y)), int(round(x))
        if 1 <= i < img.shape[0] - 1 and 1 <= j < img.shape[1] - 1:
            return img[i, j]
        return np.nan
    for k in range(m.n(n)):
        rng = m.rng(k)
        freq = 40e6 + 1e6 * np.arange(2)
        jd = 2456789.0 + rng.random()
        st, ants, aa = _array(rng, 10, freq, jd, 40)
        src = _sources(rng, st, jd, 2, lo=0.3)
        low = [s for s in (c22.Source(rng, 'l') for _ in range(30)) if s.kind == 'fixed' and s.azalt(st, jd)[1] < -0.1][:2]
        if not src or not low:
            continue
        bodies = {'s%d' % q: s.body for q, (s, _) in enumerate(src)}
        bodies.update({'l%d' % q: s.body for q, s in enumerate(low)})
        with m.case({'k': k, 'jd': jd}):
            m.event('overlays')
            mod = build_sim_data(aa, {'s0': src[0][0].body}, jd=jd, pols=['XX'], flat_response=True)
            g = utils.build_gridded_image(mod, size=80, res=0.5, wres=0.1, pol='XX')
            az, alt = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in utils.get_image_azalt(g))
            ra, dec = (np.ma.filled(np.ma.asarray(v, dtype=float), np.nan) for v in utils.get_image_radec(g))
            other = jd - 0.3
            g.antennaarray.set_jultime(other)
            ax = Axis()
            O.sources(ax, g, bodies, label=True)
            m.close([g.antennaarray.get_jultime()], [other], 'overlay:time', rtol=0, atol=1e-6)
            m.equal(sorted(t[2] for t in ax.texts), sorted(q for q in bodies if q[0] == 's'), 'overlay:names')
            for x, y, nm in ax.texts:
                d = src[int(nm[1:])][1]
                p = _pixel(az, alt, d)
                m.check(abs(x - p[1]) <= 1.1 and abs(y - p[0]) <= 1.1, 'overlay:source', '%s drawn at %.2f, %.2f, is at %s' % (nm, x, y, p[::-1]))
            ax2 = Axis()
            O.sources(ax2, g, bodies, label=False)
            m.check(not ax2.texts and len(ax2.lines) == len(src), 'overlay:unlabelled', '%d markers' % len(ax2.lines))
            g.antennaarray.set_jultime(jd)
            cut = rng.choice([20.0, 35.0])
            ax = Axis()
            O.horizon(ax, g, altitude_cut=cut)
            bad = [(x, y, at(alt, x, y)) for x, y in zip(*ax.lines[0]) if np.isfinite(x) and np.isfinite(at(alt, x, y)) and abs(at(alt, x, y) - math.radians(cut)) > 0.05]
            m.check(not bad and np.isfinite(ax.lines[0][0]).sum() > 300, 'overlay:horizon', '%d points off, such as %s' % (len(bad), bad[:1]))
            ax = Axis()
            O.graticule_azalt(ax, g)
            for q, want in enumerate(range(0, 90, 20)):
                v = [at(alt, x, y) for x, y in zip(*ax.lines[q]) if np.isfinite(x)]
                v = [a for a in v if np.isfinite(a)]
                if want >= 20:
                    m.check(v and max(abs(a - math.radians(want)) for a in v) < 0.06, 'overlay:altitude', 'line of %d degrees' % want)
            for q, want in enumerate(range(0, 360, 45)):
                v = [(at(az, x, y), at(alt, x, y)) for x, y in zip(*ax.lines[5 + q]) if np.isfinite(x)]
                v = [a for a, h in v if np.isfinite(a) and math.radians(20) < h < math.radians(70)]
                m.check(v and max(abs(math.remainder(a - math.radians(want), 2 * math.pi)) for a in v) < 0.08, 'overlay:azimuth', 'line of %d degrees' % want)
            ax = Axis()
            O.graticule_radec(ax, g)
            seen = 0
            for q, want in enumerate(range(-80, 90, 20)):
                v = [(at(dec, x, y), at(alt, x, y)) for x, y in zip(*ax.lines[q]) if np.isfinite(x)]
                v = [a for a, h in v if np.isfinite(a) and h > math.radians(25)]
                seen += len(v)
                m.check(not v or max(abs(a - math.radians(want)) for a in v) < 0.06, 'overlay:dec', 'line of %d degrees' % want)
            for q, want in enumerate(range(0, 360, 30)):
                v = [(at(ra, x, y), at(dec, x, y), at(alt, x, y)) for x, y in zip(*ax.lines[9 + q]) if np.isfinite(x)]
                v = [(a, e) for a, e, h in v if np.isfinite(a) and h > math.radians(25) and abs(e) < 1.2]
                seen += len(v)
                m.check(not v or max(abs(math.remainder(a - math.radians(want), 2 * math.pi)) * math.cos(e) for a, e in v) < 0.06, 'overlay:ra', 'line of %d degrees' % want)
            m.check(seen > 50, 'overlay:grid', '%d points of the grid in the image' % seen)
            for fn in (lambda: O.sources(ax, None, {}), lambda: O.horizon(ax, 1), lambda: O.graticule_radec(ax, []), lambda: O.graticule_azalt(ax, 'x')):
                m.raises(TypeError, fn, 'overlay:type', 'not an image')


JOBS = {'selfcal0': (selfcal, 'plain', 25), 'selfcal1': (selfcal, 'plain', 25), 'clean0': (clean, 'plain', 8), 'clean1': (clean, 'plain', 8), 'analysis': (analysis, 'plain', 40), 'overlay': (overlay, 'plain', 6)}
