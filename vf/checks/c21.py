"""C21 - the visibility containers behave like the table of visibilities they stand for."""
import copy

RULE = ('random histories of every operation of PolarizationDataSet, VisibilityDataSet and VisibilityData (and of the Stokes, linear and circular conversions) on several live objects at once; after every step all live '
        'objects are compared with a model that keeps one row per visibility; distinct = distinct histories')
NEED = {'operations': 3000, 'compared_sets': 20000, 'refused': 150, 'poked': 200, 'conversions': 100, 'uneven': 20}
OPTS = {'scale': 4}
ASSUMPTIONS = ['one history uses its objects from one thread']


class P:                                            # model of one polarization
    def __init__(self, pol, d, w, m):
        self.pol, self.d, self.w, self.m = pol, d.copy(), w.copy(), m.copy()

    def take(self, k):
        return P(self.pol, self.d[k], self.w[k], self.m[k])


class S:                                            # model of one integration
    def __init__(self, jd, freq, bl, uvw):
        self.jd, self.freq, self.bl, self.uvw, self.pols, self.extra = jd, freq.copy(), list(bl), uvw.copy(), {}, {}

    def copy(self, sel=None, pols=True):
        import numpy as np
        k = np.arange(len(self.bl)) if sel is None else np.asarray(sel, dtype=int)
        n = S(self.jd, self.freq, [self.bl[i] for i in k], self.uvw[k])
        n.extra = {k: copy.copy(v) for k, v in self.extra.items()}
        if pols:
            n.pols = {p: x.take(k) for p, x in self.pols.items()}
        return n


FAM = {'lin': ['XX', 'YY', 'XY', 'YX'], 'stokes': ['I', 'Q', 'U', 'V'], 'circ': ['RR', 'LL', 'RL', 'LR']}


def same_set(m, real, mod, what, tol=1e-6):
    import numpy as np
    m.event('compared_sets')
    if not m.check(real.jd == mod.jd and list(map(tuple, real.baselines)) == mod.bl, what + '-baselines', lambda: 'baselines %s, expected %s' % (real.baselines, mod.bl)):
        return False
    ok = m.equal((real.nbaseline, real.nchan, real.npol, sorted(real.pols)), (len(mod.bl), len(mod.freq), len(mod.pols), sorted(mod.pols)), what + '-shape')
    ok &= m.array_equal(real.freq, mod.freq, what + '-freq')
    ok &= m.array_equal(real.uvw, mod.uvw, what + '-uvw')
    for k, v in mod.extra.items():
        ok &= m.equal(getattr(real, k, None), v, what + '-extra')
    seen = []
    for p in real:
        seen.append(p.polarization)
    ok &= m.equal(sorted(seen), sorted(mod.pols), what + '-iteration')
    for p, x in mod.pols.items():
        r = getattr(real, p)
        ok &= m.check(p in real and r.nbaseline == len(mod.bl), what + '-pol-size')
        ok &= m.close(r.data, x.d, what + '-data', rtol=tol)
        ok &= m.close(r.weight, x.w, what + '-weight', rtol=tol)
        ok &= m.array_equal(np.asarray(r.mask, dtype=bool), x.m, what + '-mask')
    return ok


class World:
    def __init__(self, m, rng, nrg):
        self.m, self.rng, self.nrg = m, rng, nrg
        self.nant = rng.choice([2, 3, 5, 7, 9])
        self.nc = rng.choice([1, 2, 5, 16])
        self.sets = []                              # (real, model), the objects are shared by the containers
        self.datas = []                             # (real VisibilityData, [index into sets])
        self.aa = None
        if rng.random() < 0.4:
            self.aa = make_array(rng, self.nant, self.nc)
        # without an array the antenna numbers are just labels
        self.labels = sorted(rng.sample(range(2000), self.nant)) if self.aa is None and rng.random() < 0.6 else list(range(self.nant))
        self.jd0 = 2456789.25 + rng.randrange(100)

    def draw_pol(self, n):
        nrg = self.nrg
        import numpy as np
        d = (nrg.normal(size=(n, self.nc)) + 1j * nrg.normal(size=(n, self.nc))).astype(self.rng.choice([np.complex64, np.complex128]))
        w = nrg.uniform(0, 3, size=(n, self.nc)).astype(np.float32)
        k = nrg.random((n, self.nc)) < 0.2
        return d, w, k

    def new_set(self, jd=None):
        import numpy as np
        from lsl.imaging.data import VisibilityDataSet, PolarizationDataSet
        rng = self.rng
        jd = jd or self.jd0 + rng.randrange(40) / 64.0
        auto = rng.random() < 0.5
        bl = [(self.labels[i], self.labels[j]) for i in range(self.nant) for j in range(i if auto else i + 1, self.nant)]
        if rng.random() < 0.3:
            bl = [(b, a) if rng.random() < 0.5 else (a, b) for a, b in bl]
        if rng.random() < 0.4:
            bl = rng.sample(bl, rng.randrange(1, len(bl) + 1))
        freq = 40e6 + 25e3 * np.arange(self.nc)
        uvw = self.nrg.normal(size=(len(bl), 3, self.nc)) * rng.choice([1, 20, 300])
        if rng.random() < 0.3:
            uvw = np.round(uvw)                     # coordinates on the cut
        fam = FAM[rng.choice(['lin', 'lin', 'stokes', 'circ'])]
        pols = rng.sample(fam, rng.choice([0, 1, 2, 2, 4, 4]))
        mod = S(jd, freq, bl, uvw)
        kw = {}
        for p in pols:
            d, w, k = self.draw_pol(len(bl))
            mod.pols[p] = P(p, d, w, k)
            style = rng.randrange(4)
            if style == 0:
                mod.pols[p].w[...] = 1
                mod.pols[p].m[...] = False
                pd = PolarizationDataSet(p if rng.random() < 0.5 else p.lower(), data=d)
            elif style == 1:
                pd = PolarizationDataSet(p, data=d, weight=w, mask=k)
            elif style == 2:
                pd = PolarizationDataSet(p)
                for i in range(len(bl)):
                    self.refusals(pd)
                    if rng.random() < 0.2:
                        mod.pols[p].w[i] = 1
                        pd.append(d[i], mask=k[i])
                    elif rng.random() < 0.2:
                        mod.pols[p].m[i] = False
                        pd.append(d[i], weight=w[i])
                    else:
                        pd.append(d[i], weight=w[i], mask=k[i])
            else:
                pd = PolarizationDataSet(p)
                c = rng.randrange(len(bl) + 1)
                pd.extend(d[:c], weight=w[:c], mask=k[:c])
                pd.extend(d[c:], weight=list(w[c:]), mask=k[c:])
            kw[p] = pd
        late = rng.random() < 0.5
        if rng.random() < 0.3:
            kw_extra = {'source': 'src%d' % rng.randrange(5), 'notes': [rng.randrange(5)]}
            mod.extra = {k: copy.copy(v) for k, v in kw_extra.items()}
        else:
            kw_extra = {}
        real = VisibilityDataSet(jd, freq.copy(), list(bl), uvw.copy(), antennaarray=self.aa, **({} if late else kw), **kw_extra)
        if late:
            for pd in kw.values():
                real.append(pd)
        self.sets.append((real, mod))
        return len(self.sets) - 1

    def refusals(self, pd):
        """operations that have to be refused, and to leave the object alone"""
        import numpy as np
        if self.rng.random() > 0.15:
            return
        before = (pd.data.copy(), pd.weight.copy(), pd.mask.copy())
        d = np.ones(self.nc, dtype=complex)
        bad = np.ones(self.nc + 1)
        kind = self.rng.randrange(3)
        try:
            if kind == 0:
                pd.append(d, weight=bad)
            elif kind == 1:
                pd.append(d, mask=bad.astype(bool))
            else:
                pd.sort(list(range(len(pd.data) + 1)))
            self.m.violation('not-refused', 'a call with the wrong shape (%d) was accepted' % kind)
        except ValueError:
            self.m.event('refused')
        self.m.check(pd.data.shape == before[0].shape and pd.weight.shape == before[1].shape and pd.mask.shape == before[2].shape and bool((pd.data == before[0]).all())
                     and bool((pd.weight == before[1]).all()) and bool((pd.mask == before[2]).all()), 'refused-changed', 'a refused call changed the object')

    def verify(self, what):
        for k, (r, s) in enumerate(self.sets):
            if not same_set(self.m, r, s, what):
                return False
        for r, idx in self.datas:
            m = self.m
            if not m.check(len(r) == len(idx) and all(a is self.sets[i][0] for a, i in zip(r, idx)), what + '-members', lambda: 'the container holds %s' % r.jds):
                return False
            m.equal(r.jds, [self.sets[i][1].jd for i in idx], what + '-jds')
            m.close(r.mjds, [self.sets[i][1].jd - 2400000.5 for i in idx], what + '-mjds', rtol=0, atol=1e-9)
            if idx:
                s = self.sets[idx[0]][1]
                m.equal((r.nbaseline, r.nchan, r.npol, sorted(r.pols)), (len(s.bl), len(s.freq), len(s.pols), sorted(s.pols)), what + '-container-shape')
                m.equal(list(map(tuple, r.baselines)), s.bl, what + '-container-baselines')
                m.array_equal(r.freq, s.freq, what + '-container-freq')
            else:
                m.equal((r.nbaseline, r.nchan, r.npol), (0, 0, 0), what + '-container-shape')
        return True

    # -- the selections of the model -------------------------------------------------------------
    def uv_sel(self, s, lo, hi):
        import numpy as np
        lo, hi = min(lo, hi), max(lo, hi)
        c = s.uvw[:, :2, len(s.freq) // 2]
        r = np.sqrt((c ** 2).sum(axis=1))
        return [i for i in range(len(r)) if lo <= r[i] < hi]

    def ant_sel(self, s, inc, exc):
        def keep(a):
            return a in inc if inc is not None else a not in exc
        return [i for i, (a, b) in enumerate(s.bl) if keep(a) and keep(b)]

    def draw_cut(self, s):
        rng = self.rng
        import numpy as np
        c = s.uvw[:, :2, len(s.freq) // 2]
        r = np.sqrt((c ** 2).sum(axis=1))
        # away from the cut by rounding, or exactly on it where that is exact
        opts = [0.0, float('inf'), 1.0, 25.0]
        for x in r:
            opts += [float(x) * 0.999999, float(x) * 1.000001]
            if float(x) == round(float(x)):
                opts.append(float(x))
        return rng.choice(opts)

    def draw_ants(self):
        rng = self.rng
        n = rng.randrange(0, self.nant + 1)
        a = rng.sample(self.labels, n)
        return a

    def convert(self, s, to):
        """model of the polarization conversions; None: has to be refused"""
        import numpy as np
        have = s.pols
        rules = {'stokes': ([('XX', 'YY', 'I', 1, 1, 'Q', 1, -1), ('XY', 'YX', 'U', 1, 1, 'V', 1j, -1j)], FAM['stokes']),
                 'linear': ([('I', 'Q', 'XX', .5, .5, 'YY', .5, -.5), ('U', 'V', 'XY', .5, -.5j, 'YX', .5, .5j)], FAM['lin']),
                 'circular': ([('I', 'V', 'RR', 1, 1, 'LL', 1, -1), ('Q', 'U', 'RL', 1, 1j, 'LR', 1, -1j)], FAM['circ'])}
        rule, already = rules[to]
        if any(p in have for p in already):
            return None
        out = s.copy(pols=False)
        for a, b, p1, x1, y1, p2, x2, y2 in rule:
            if a in have and b in have:
                A, B = have[a], have[b]
                w, k = (A.w.astype(float) + B.w) / 2, A.m | B.m
                out.pols[p1] = P(p1, x1 * A.d + y1 * B.d, w, k)
                out.pols[p2] = P(p2, x2 * A.d + y2 * B.d, w, k)
        return out if out.pols else None

    # -- one step --------------------------------------------------------------------------------
    def step(self):
        import numpy as np
        from lsl.imaging.data import VisibilityData, PolarizationDataSet
        from lsl.imaging import utils
        rng, m = self.rng, self.m
        m.event('operations')
        op = rng.choice(['new', 'copy', 'sort', 'order', 'uv', 'ants', 'pol', 'poke', 'convert', 'vnew', 'vappend', 'vappend', 'vextend', 'vpop', 'vsort', 'vcopy', 'vuv', 'vants', 'vset', 'vconvert'])
        if op == 'new' or not self.sets:
            self.new_set()
            return 'new'
        k = rng.randrange(len(self.sets))
        real, mod = self.sets[k]
        if op == 'copy':
            pols = rng.random() < 0.7
            self.sets.append((real.copy(include_pols=pols) if rng.random() < 0.7 or not pols else real.copy(), mod.copy(pols=pols)))
        elif op in ('sort', 'order'):
            order = sorted(range(len(mod.bl)), key=lambda i: mod.bl[i])
            if op == 'order':
                order = list(range(len(mod.bl)))
                rng.shuffle(order)
                real.sort(order=order if rng.random() < 0.5 else np.array(order, dtype=int))
            else:
                real.sort()
            mod.bl = [mod.bl[i] for i in order]
            mod.uvw = mod.uvw[order]
            mod.pols = {p: x.take(order) for p, x in mod.pols.items()}
        elif op == 'uv':
            lo, hi = self.draw_cut(mod), self.draw_cut(mod)
            r = real.get_uv_range(min_uv=lo, max_uv=hi)
            self.sets.append((r, mod.copy(self.uv_sel(mod, lo, hi))))
        elif op == 'ants':
            inc, exc, kw = self.draw_select()
            self.sets.append((real.get_antenna_subset(**kw), mod.copy(self.ant_sel(mod, inc, exc))))
        elif op == 'pol':
            fam = [f for f in FAM.values() if any(p in f for p in mod.pols)] or list(FAM.values())
            p = rng.choice(fam[0])
            if rng.random() < 0.25:
                d, w, kk = self.draw_pol(len(mod.bl) + 1)
                try:
                    real.append(PolarizationDataSet(p, data=d, weight=w, mask=kk))
                    m.violation('not-refused', 'a polarization with too many baselines was accepted')
                except RuntimeError:
                    m.event('refused')
            else:
                d, w, kk = self.draw_pol(len(mod.bl))
                real.append(PolarizationDataSet(p, data=d, weight=w, mask=kk))
                mod.pols[p] = P(p, d, w, kk)
        elif op == 'poke':
            # in-place changes of one object that no other object may see
            m.event('poked')
            if mod.pols and len(mod.bl):
                p = rng.choice(sorted(mod.pols))
                i, c = rng.randrange(len(mod.bl)), rng.randrange(len(mod.freq))
                getattr(real, p).data[i, c] = 17
                mod.pols[p].d[i, c] = 17
                getattr(real, p).weight[i, c] = 5
                mod.pols[p].w[i, c] = 5
                getattr(real, p).mask[i, c] ^= True
                mod.pols[p].m[i, c] ^= True
            if len(mod.bl):
                i = rng.randrange(len(mod.bl))
                real.uvw[i] *= 3
                mod.uvw[i] *= 3
                b = (mod.bl[i][1], mod.bl[i][0])
                real.baselines[i] = b
                mod.bl[i] = b
            if 'notes' in mod.extra:
                real.notes.append(99)
                mod.extra['notes'].append(99)
            real.freq[0] += 1000.0
            mod.freq[0] += 1000.0
        elif op == 'convert':
            to = rng.choice(['stokes', 'linear', 'circular'])
            fn = {'stokes': utils.convert_to_stokes, 'linear': utils.convert_to_linear, 'circular': utils.convert_to_circular}[to]
            want = self.convert(mod, to)
            try:
                r = fn(real)
                if m.check(want is not None, 'not-refused', 'convert_to_%s accepted %s' % (to, sorted(mod.pols))):
                    self.sets.append((r, want))
                    m.event('conversions')
            except RuntimeError:
                m.check(want is None, 'refused-conversion', 'convert_to_%s refused %s' % (to, sorted(mod.pols)))
                m.event('refused')
        elif op == 'vnew' or not self.datas:
            idx = [] if rng.random() < 0.5 else [k]
            if idx and rng.random() < 0.5:
                idx = [rng.randrange(len(self.sets)) for _ in range(3)]
                arg = [self.sets[i][0] for i in idx]
            else:
                arg = real
            self.datas.append((VisibilityData(arg) if idx else VisibilityData(), idx))
        else:
            q = rng.randrange(len(self.datas))
            vr, idx = self.datas[q]
            if op == 'vappend':
                if rng.random() < 0.5 and idx:       # one that is welcome
                    s = self.sets[idx[0]][1]
                    jd = s.jd + rng.choice([-1, 1]) * rng.randrange(1, 50) / 64.0
                    n = s.copy()
                    from lsl.imaging.data import VisibilityDataSet
                    r = VisibilityDataSet(jd, n.freq.copy(), list(n.bl), n.uvw.copy(), antennaarray=self.aa)
                    n.jd, n.extra = jd, {}
                    for p, x in n.pols.items():
                        r.append(PolarizationDataSet(p, data=x.d.copy(), weight=x.w.copy(), mask=x.m.copy()))
                    self.sets.append((r, n))
                    k, mod, real = len(self.sets) - 1, n, r
                first = self.sets[idx[0]][1] if idx else None
                bad = any(self.sets[i][1].jd == mod.jd for i in idx)
                if first is not None:
                    bad |= len(first.bl) > 0 and len(first.bl) != len(mod.bl)
                    bad |= len(first.freq) != len(mod.freq)
                    bad |= len(first.pols) > 0 and len(first.pols) != len(mod.pols)
                try:
                    vr.append(real)
                    if m.check(not bad, 'not-refused', 'an integration that does not fit was accepted'):
                        idx.append(k)
                except ValueError as e:
                    m.check(bad, 'refused-append', 'an integration that fits was refused: %s' % e)
                    m.event('refused')
            elif op == 'vextend':
                more = [rng.randrange(len(self.sets)) for _ in range(rng.randrange(3))]
                vr.extend([self.sets[i][0] for i in more])
                idx.extend(more)
            elif op == 'vpop' and idx:
                a = rng.randrange(-len(idx), len(idx))
                got = vr.pop(a) if rng.random() < 0.5 else vr.pop(index=a)
                i = idx.pop(a)
                m.check(got is self.sets[i][0], 'pop', 'pop(%d) returned another integration' % a)
            elif op == 'vset' and idx:
                a = rng.randrange(len(idx))
                vr[a] = real
                idx[a] = k
                m.check(vr[a] is real, 'set', '')
            elif op == 'vsort':
                vr.sort()
                idx.sort(key=lambda i: self.sets[i][1].jd)
                for i in set(idx):
                    s = self.sets[i][1]
                    order = sorted(range(len(s.bl)), key=lambda b: (s.bl[b]))
                    s.bl = [s.bl[b] for b in order]
                    s.uvw = s.uvw[order]
                    s.pols = {p: x.take(order) for p, x in s.pols.items()}
            elif op in ('vcopy', 'vuv', 'vants', 'vconvert'):
                if op == 'vcopy':
                    pols = rng.random() < 0.7
                    r, mods = vr.copy(include_pols=pols), [self.sets[i][1].copy(pols=pols) for i in idx]
                elif op == 'vuv':
                    s = self.sets[idx[0]][1] if idx else mod
                    lo, hi = self.draw_cut(s), self.draw_cut(s)
                    r, mods = vr.get_uv_range(min_uv=lo, max_uv=hi), [self.sets[i][1].copy(self.uv_sel(self.sets[i][1], lo, hi)) for i in idx]
                elif op == 'vants':
                    inc, exc, kw = self.draw_select()
                    r, mods = vr.get_antenna_subset(**kw), [self.sets[i][1].copy(self.ant_sel(self.sets[i][1], inc, exc)) for i in idx]
                else:
                    to = rng.choice(['stokes', 'linear', 'circular'])
                    fn = {'stokes': utils.convert_to_stokes, 'linear': utils.convert_to_linear, 'circular': utils.convert_to_circular}[to]
                    mods = [self.convert(self.sets[i][1], to) for i in idx]
                    try:
                        r = fn(vr)
                    except RuntimeError:
                        m.check(any(x is None for x in mods), 'refused-conversion', 'convert_to_%s refused' % to)
                        m.event('refused')
                        return op
                    if not m.check(all(x is not None for x in mods), 'not-refused', 'convert_to_%s accepted what it cannot convert' % to):
                        return op
                    m.event('conversions')
                if len({len(x.bl) for x in mods}) > 1:
                    m.event('uneven')
                m.require(len(r) == len(mods), op + '-length', 'got %d integrations of %d' % (len(r), len(mods)))
                base = len(self.sets)
                self.sets.extend(zip(list(r), mods))
                self.datas.append((r, list(range(base, base + len(mods)))))
        return op

    def draw_select(self):
        rng = self.rng
        inc = self.draw_ants() if rng.random() < 0.6 else None
        exc = self.draw_ants() if rng.random() < 0.6 else []
        kw = {}
        byname = self.aa is not None and rng.random() < 0.5
        name = (lambda a: [self.ids[x] for x in a]) if byname else (lambda a: list(a))
        if byname:
            self.ids = [int(x) for x in self.aa.get_stands()]
            kw['indicies'] = False
        if inc is not None:
            kw['include'] = rng.choice([list, tuple])(name(inc))
        elif rng.random() < 0.3:
            kw['include'] = 'all'
        if exc:
            kw['exclude'] = rng.choice([list, tuple])(name(exc))
        elif rng.random() < 0.3:
            kw['exclude'] = 'none'
        return inc, exc, kw

    def trim(self):
        """forget some objects so that a history does not grow without bound"""
        if len(self.sets) > 14:
            if self.datas and self.rng.random() < 0.7:
                self.datas = self.datas[-2:]
            used = {i for _, idx in self.datas for i in idx}
            keep = sorted(used | set(self.rng.sample(range(len(self.sets)), 5)))
            pos = {i: n for n, i in enumerate(keep)}
            self.sets = [self.sets[i] for i in keep]
            self.datas = [(r, [pos[i] for i in idx]) for r, idx in self.datas]
            if len(self.sets) > 40:
                self.datas, self.sets = [], self.sets[:5]


def make_array(rng, n, nc):
    import numpy as np
    from vf.checks.c18 import station
    from lsl.sim.vis import build_sim_array
    ids = rng.sample(range(1, 250), n)
    st, ants = station(rng, ids)
    return build_sim_array(st, ants, (40e6 + 25e3 * np.arange(nc)) / 1e9, jd=2456789.5)


def histories(m, part):
    for k in range(m.n(40, 500)):
        if m.over():
            break
        rng, nrg = m.rng(part, k), m.nprng(part, k)
        with m.case({'history': part, 'k': k}):
            w = World(m, rng, nrg)
            for _ in range(3):
                w.new_set()
            trace = []
            for _ in range(m.n(60, 120)):
                trace.append(w.step())
                if not w.verify(trace[-1]):
                    m.violation('history', 'after %s' % trace[-6:])
                    break
                w.trim()


JOBS = {'histories-%d' % i: (histories, 'plain', i) for i in range(4)}
