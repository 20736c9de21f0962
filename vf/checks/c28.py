"""C28 - statistics and numerical utilities."""
import math

RULE = ('random samples (every size, type and shape, ties, outliers, masks, constants) for the robust estimators and fits, the spectral kurtosis, the run test, the numerical, scattering and radio frequency '
        'helpers; judged by independent statements of the published estimators, exact moments, known answers of constructed data, and the relations between calls (axis, mask, shift, scale, '
        'order); distinct = distinct cases')
OPTS = {'scale': 6}
NEED = {'location': 300, 'mode': 150, 'fits': 100, 'kurtosis': 100, 'limits': 20, 'runs': 50, 'maths': 150, 'scattering': 20, 'rf': 50}


def _sample(rng, nr):
    """A sample and whether it is regular enough for the estimators."""
    import numpy as np
    n = rng.choice([5, 6, 7, 10, 11, 40, 101, 500])
    kind = rng.choice(['normal', 'normal', 'outliers', 'uniform', 'integer', 'ties', 'skew'])
    x = nr.normal(size=n) * rng.choice([1.0, 1e-3, 1e4]) + rng.choice([0.0, 5.0, -300.0])
    if kind == 'outliers':
        k = max(1, n // 8)
        x[nr.choice(n, k, replace=False)] += rng.choice([1e3, -1e5, 1e7])
    elif kind == 'uniform':
        x = nr.uniform(-3, 8, size=n)
    elif kind == 'integer':
        x = nr.integers(-50, 50, size=n)
    elif kind == 'ties':
        x = nr.integers(0, 4, size=n) * 0.5
    elif kind == 'skew':
        x = nr.exponential(size=n)
    if kind in ('normal', 'uniform') and rng.random() < 0.3:
        x = x.astype('float32')
    return kind, x


def ref_std(y, zero=False):
    """Biweight scale about the median (or zero), tuning constant 6."""
    import numpy as np
    y = np.asarray(y, dtype=float)
    c = 0.0 if zero else np.median(y)
    d = y - c
    mad = np.median(np.abs(d)) / 0.6745
    if mad < 1e-20:
        mad = np.abs(d).mean() / 0.8
    if mad < 1e-20:
        return 0.0
    u = (d / (6 * mad)) ** 2
    g = u <= 1
    if g.sum() < 3:
        raise ValueError
    num = (d[g] ** 2 * (1 - u[g]) ** 4).sum()
    den = ((1 - u[g]) * (1 - 5 * u[g])).sum()
    v = y.size * num / (den * (den - 1))
    return math.sqrt(v) if v > 0 else 0.0


def ref_mean(y, cut=3.0):
    """Mean of what lies within cut robust deviations of the median, in two passes."""
    import numpy as np
    y = np.asarray(y, dtype=float)
    c = np.median(y)
    d = np.abs(y - c)
    s = np.median(d) / 0.6745
    if s < 1e-20:
        s = d.mean() / 0.8
    near = []
    g = d <= cut * s
    near.append((d, cut * s))
    s = math.sqrt(((y[g] - y[g].mean()) ** 2).mean())
    k = max(cut, 1.0)
    if k <= 4.5:
        s /= -0.15405 + 0.90723 * k - 0.23584 * k ** 2 + 0.020142 * k ** 3
    g = d <= cut * s
    near.append((d, cut * s))
    # a point on the edge of the cut may fall on either side
    edge = any((np.abs(a - b) < 1e-9 * (b + 1e-300)).any() for a, b in near)
    if g.sum() <= 3:
        raise ValueError
    return y[g].mean(), edge


def ref_biweight(y):
    import numpy as np
    y = np.asarray(y, dtype=float)
    n = y.size
    stop = 0.03 * math.sqrt(0.5 / (n - 1))
    c = np.median(y)
    s = ref_std(y - c)
    edge = False
    if s >= 1e-20:
        for k in range(25):
            u = np.minimum(((y - c) / (6 * s)) ** 2, 1.0)
            w = (1 - u) ** 2
            c = (w * y).sum() / w.sum()
            old, s = s, ref_std(y - c, zero=True)
            if s <= 1e-20:
                break
            d = abs(old - s) / old
            edge = edge or abs(d - stop) < 1e-7 * stop
            if d <= stop:
                break
    return c, edge


def ref_mode(y):
    """Half-sample mode."""
    import numpy as np
    y = np.sort(np.asarray(y, dtype=float))
    while y.size > 3:
        N = (y.size + 1) // 2
        w = y[N - 1:] - y[:y.size - N + 1]
        j = int(np.argmin(w))
        if (w == w[j]).sum() > 1 or (np.abs(w - w[j]) < 1e-12 * np.abs(y).max()).sum() > 1:
            return None, (y[0], y[-1])          # several narrowest halves: any of them
        y = y[j:j + N]
    if y.size == 3:
        a, b = y[1] - y[0], y[2] - y[1]
        if abs(a - b) <= 1e-12 * max(abs(y[0]), abs(y[2])):
            return None, (y[0], y[2])
        return (y[:2].mean() if a < b else y[1:].mean()), None
    return y.mean(), None


def location(m, n):
    import numpy as np
    from lsl.statistics import robust as R
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        kind, x = _sample(rng, nr)
        with m.case({'i': i, 'kind': kind, 'n': x.size, 'dt': str(x.dtype)}):
            m.event('location')
            keep = x.copy()
            f32 = x.dtype == np.float32
            rt = 2e-4 if f32 else 1e-9
            at = rt * float(np.abs(x).max() + 1e-30)
            # values
            for nm, fn, ref in (('std', R.std, ref_std), ('std0', lambda v: R.std(v, zero=True), lambda v: ref_std(v, zero=True)),
                                ('mean', R.mean, ref_mean), ('biweight', R.biweight_mean, ref_biweight)):
                try:
                    want = ref(x)
                except ValueError:
                    m.raises(ValueError, lambda: fn(x), nm + '-strange', '')
                    continue
                edge = False
                if isinstance(want, tuple):
                    want, edge = want
                if edge or (f32 and nm != 'std') or (nm == 'biweight' and kind in ('ties', 'integer')):
                    continue
                m.close(fn(x), want, nm, rtol=rt, atol=at)
            cut = rng.choice([0.9, 1.5, 2.0, 4.0, 5.0, 6.0])
            try:
                want, edge = ref_mean(x, cut)
                if not edge and not f32:
                    m.close(R.mean(x, cut=cut), want, 'mean-cut', rtol=rt, atol=at)
            except (ValueError, ZeroDivisionError):
                pass
            # order and shape do not matter; masked points do not count
            if not f32:
                p = x[nr.permutation(x.size)]
                for nm, fn in (('std', R.std), ('mean', R.mean), ('biweight', R.biweight_mean), ('mode', R.mode)):
                    if nm == 'biweight' and kind in ('ties', 'integer'):
                        continue            # points on the very edge of the weights: rounding decides
                    try:
                        a = fn(x)
                    except ValueError:
                        continue
                    m.close(fn(p), a, nm + '-order', rtol=1e-7, atol=at * 100)
                    m.close(fn(np.concatenate([p, p[:p.size % 2]])[:p.size].reshape(-1, 1)), a, nm + '-shape', rtol=1e-7, atol=at * 100)
                    z = np.ma.array(np.concatenate([x, [1e9 if x.dtype.kind == 'f' else 10 ** 6] * 3]), mask=[False] * x.size + [True] * 3)
                    q = nr.permutation(z.size)
                    m.close(fn(z[q]), a, nm + '-mask', rtol=1e-7, atol=at * 100)
                    m.close(fn(np.ma.array(x)), a, nm + '-nomask', rtol=1e-7, atol=at * 100)
                    if nm != 'mode' or ref_mode(x)[0] is not None:
                        s = rng.choice([2.0, -1.0, 0.25, -8.0])
                        m.close(fn(x * s), a * (abs(s) if nm == 'std' else s), nm + '-scale', rtol=1e-7, atol=at * 100 * abs(s))
                    m.close(fn(x, dtype='float64'), a, nm + '-dtype', rtol=1e-7, atol=at * 100)
            m.array_equal(x, keep, 'robust-input')
            # along axes
            k = rng.choice([1, 2, 4])
            y = np.array([nr.normal(size=x.size) * (j + 1) + (j * 7) for j in range(k)])
            if kind == 'integer':
                y = nr.integers(-20, 20, size=(k, x.size))
            ax = rng.choice([0, 1, -1])
            yy = y if ax else y.T
            if rng.random() < 0.3:
                mk = nr.random(size=yy.shape) < 0.05
                yy = np.ma.array(yy, mask=mk)
                y = yy if ax else yy.T
            for nm, fn in (('std', R.std), ('mean', R.mean), ('biweight', R.biweight_mean), ('mode', R.mode)):
                try:
                    want = np.array([float(fn(y[j])) for j in range(k)])
                except ValueError:
                    continue
                got = fn(yy, axis=ax)
                if m.check(np.shape(got) == (k,), nm + '-axis-shape', lambda: '%r' % (np.shape(got),)):
                    m.close(np.asarray(got, dtype=float), want, nm + '-axis', rtol=1e-9, atol=1e-9)
            # constants, and outliers
            c = rng.choice([0.0, 3.25, -1e6])
            z = np.full(rng.choice([4, 5, 20]), c)
            m.equal((float(R.std(z)), float(R.mean(z)), float(R.biweight_mean(z)), float(R.mode(z))), (0.0, c, c, c), 'constant')
            nn = rng.choice([50, 200])
            z = nr.normal(size=nn)
            lim = 0.9 if nn == 50 else 0.5
            s0 = R.std(z)
            bad = z.copy()
            bad[nr.choice(nn, nn // 10, replace=False)] = rng.choice([1e4, -1e4, 1e12])
            for nm, fn in (('mean', R.mean), ('biweight', R.biweight_mean)):
                m.check(abs(fn(bad) - fn(z)) < lim, nm + '-outliers', lambda: '%r, clean %r' % (fn(bad), fn(z)))
            m.check(0.6 < R.std(bad) / s0 < 1.7, 'std-outliers', lambda: '%r, clean %r' % (R.std(bad), s0))


def modes(m, n):
    import numpy as np
    from lsl.statistics import robust as R
    for i in range(m.n(n)):
        rng, nr = m.rng(i), m.nprng(i)
        kind, x = _sample(rng, nr)
        if rng.random() < 0.5:
            x = x[:rng.choice([1, 2, 3, 4, 5, 6, 7, 8])]
        with m.case({'i': i, 'kind': kind, 'n': x.size}):
            m.event('mode')
            want, span = ref_mode(x)
            got = R.mode(x)
            if want is None:
                m.check(span[0] - 1e-5 <= got <= span[1] + 1e-5, 'mode-range', lambda: '%r of %r' % (got, span))
            elif x.dtype != np.float32:
                m.close(got, want, 'mode', rtol=1e-12, atol=1e-12)
            v = int(nr.integers(-9, 9))
            y = np.concatenate([np.full(x.size + 2, v), nr.integers(-100, 100, size=x.size)])
            m.equal(float(R.mode(y)), float(v), 'mode-majority')


def fits(m, n):
    import numpy as np
    from lsl.statistics import robust as R
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        npt = rng.choice([12, 13, 40, 101, 400] + ([10500] if i % 10 == 0 else []))
        order = rng.choice([0, 1, 2, 3, 4, 5, 6])
        x0 = rng.choice([0.0, 3.0, -10.0])
        x = x0 + nr.uniform(-2, 2, size=npt)
        if rng.random() < 0.4:
            x.sort()
        with m.case({'i': i, 'npt': npt, 'order': order, 'x0': x0}):
            m.event('fits')
            c = nr.normal(size=order + 1)
            y = np.polyval(c, x - x0) + rng.choice([0.0, 10.0])
            exact = y.copy()
            noise = rng.choice([0.0, 1e-3, 0.05])
            y = y + nr.normal(size=npt) * noise
            tol = max(1e-6, noise * 12 / math.sqrt(npt) * (order + 2)) * (1 + np.abs(exact).max())
            got = R.polyfit(x.copy(), y.copy(), order)
            if m.check(np.shape(got) == (order + 1,), 'polyfit-shape', lambda: '%r' % (got,)):
                m.close(np.polyval(got, x), exact, 'polyfit', rtol=0, atol=tol if order < 6 else tol * 100)
            if noise and npt >= 40:
                k = nr.choice(npt, npt // 20, replace=False)
                bad = y.copy()
                bad[k] += rng.choice([1, -1]) * rng.choice([5.0, 100.0])
                got = R.polyfit(x, bad, order)
                g = np.setdiff1d(np.arange(npt), np.concatenate([np.argsort(x)[:2], np.argsort(x)[-2:]]))
                m.check(np.shape(got) == (order + 1,) and np.median(np.abs(np.polyval(got, x[g]) - exact[g])) < tol * 2 + 0.02, 'polyfit-outliers', lambda: 'off by %g' % np.median(np.abs(np.polyval(got, x[g]) - exact[g])))
                z = np.ma.array(bad, mask=False)
                z.mask[k] = True
                if order < 6:
                    a = R.polyfit(x, z, order)
                    good = np.ones(npt, bool)
                    good[k] = False
                    m.close(a, R.polyfit(x[good], y[good], order), 'polyfit-mask', rtol=1e-6, atol=1e-6)
            m.close(R.polyfit(x, np.ma.array(y), order), R.polyfit(x, y, order), 'polyfit-nomask', rtol=1e-9, atol=1e-9)
            # lines
            a, b = nr.normal() * 3, nr.normal() * 5
            nl = rng.choice([3, 4, 5, 6, 7, 8, 20, 101])
            xl = np.sort(nr.uniform(-5, 5, size=nl)) + rng.choice([0.0, 100.0])
            yl = a * xl + b
            for bis in (False, True):
                try:
                    got = R.linefit(xl.copy(), yl.copy(), bisector=bis)
                except ValueError:
                    if nl > 8:
                        raise
                    continue                # documented: too strange (of a few residuals, all but one or two exactly zero)
                m.check(len(got) == 2 and abs(got[0] - a) < 1e-6 * (1 + abs(a)) and abs(got[1] - b) < 1e-4 * (1 + abs(b) + abs(a)), 'linefit' + ('-bisector' if bis else ''), lambda: '%r of %r' % (got, (a, b)))
            nl = rng.choice([40, 101])
            xl = nr.uniform(-5, 5, size=nl)
            yl = a * xl + b + nr.normal(size=nl) * 0.01
            k = nr.choice(nl, nl // 10, replace=False)
            yl[k] += rng.choice([50.0, -500.0])
            got = R.linefit(xl, yl)
            m.check(abs(got[0] - a) < 0.02 and abs(got[1] - b) < 0.05, 'linefit-outliers', lambda: '%r of %r' % (got, (a, b)))
            z = np.ma.array(yl, mask=False)
            z.mask[k] = True
            good = np.ones(nl, bool)
            good[k] = False
            m.close(R.linefit(xl, np.ma.array(yl)), got, 'linefit-nomask', rtol=1e-9, atol=1e-9)
            m.close(R.linefit(xl, z), R.linefit(xl[good], yl[good]), 'linefit-mask', rtol=1e-9, atol=1e-9)
            s = rng.choice([2.0, 0.5])
            m.close(R.linefit(xl, yl * s), np.array(got) * s, 'linefit-scale', rtol=1e-7, atol=1e-7)


def _moments(M, N):
    """Exact central moments of the spectral kurtosis estimator of M gamma variates of shape N."""
    from fractions import Fraction as F

    def rise(a, k):
        r = F(1)
        for j in range(k):
            r *= a + j
        return r

    def e(*ks):
        num = F(1)
        for k in ks:
            num *= rise(N, k)
        return num / rise(M * N, sum(ks))
    s1 = M * e(2)
    s2 = M * e(4) + M * (M - 1) * e(2, 2)
    s3 = M * e(6) + 3 * M * (M - 1) * e(4, 2) + M * (M - 1) * (M - 2) * e(2, 2, 2)
    f = F(M * N + 1, M - 1)
    mean = f * (M * s1 - 1)
    var = f ** 2 * M ** 2 * (s2 - s1 ** 2)
    m3 = f ** 3 * M ** 3 * (s3 - 3 * s2 * s1 + 2 * s1 ** 3)
    return float(mean), float(var), float(m3)


def kurtosis(m, n):
    import numpy as np
    from lsl.statistics import kurtosis as K
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        M, N = rng.choice([2, 3, 10, 64, 500, 4096]), rng.choice([1, 2, 8, 24, 768])
        shape = tuple(rng.choice([2, 3, 7, 40]) for _ in range(rng.choice([1, 1, 2, 3])))
        with m.case({'i': i, 'M': M, 'N': N, 'shape': shape}):
            m.event('kurtosis')
            a, b, c = _moments(M, N)
            m.close(K.mean(M, N), a, 'sk-mean', rtol=1e-10)
            m.close(K.var(M, N), b, 'sk-var', rtol=1e-9)
            m.close(K.std(M, N), math.sqrt(b), 'sk-std', rtol=1e-9)
            m.close(K.skew(M, N), c, 'sk-skew', rtol=1e-8)
            m.close((K.mean(M), K.var(M), K.std(M), K.skew(M)), (K.mean(M, 1), K.var(M, 1), K.std(M, 1), K.skew(M, 1)), 'sk-default', rtol=1e-12)
            x = nr.gamma(N, size=shape)
            keep = x.copy()
            for ax in [None] + list(range(len(shape))) + [-1]:
                got = K.spectral_power(x, N=N, axis=ax)
                Q = x.size if ax is None else shape[ax]
                want = (Q * N + 1.0) / (Q - 1) * (Q * (x ** 2).sum(axis=ax) / x.sum(axis=ax) ** 2 - 1)
                m.close(got, want, 'sk-power', rtol=1e-9, atol=1e-9)
                z = np.sqrt(x) * np.exp(2j * np.pi * nr.random(size=shape))
                m.close(K.spectral_fft(z, axis=ax), K.spectral_power(x, N=1, axis=ax), 'sk-fft', rtol=1e-9, atol=1e-9)
            m.array_equal(x, keep, 'sk-input')
    # what lies outside of the limits, for noise
    for i in range(m.n(n) // 8 + 1):
        if m.over():
            break
        rng, nr = m.rng('l%d' % i), m.nprng(100000 + i)
        M, N = rng.choice([(256, 1), (300, 1), (200, 8), (256, 4), (1000, 1), (400, 24)])
        s = rng.choice([1.0, 1.5, 2.0])
        with m.case({'limits': i, 'M': M, 'N': N, 'sigma': s}):
            m.event('limits')
            err = np.geterr()
            lo, hi = K.get_limits(s, M, N)
            m.equal(np.geterr(), err, 'error-state')
            m.check(lo < 1 < hi, 'limits-order', lambda: '%r %r' % (lo, hi))
            lo2, hi2 = K.get_limits(s + 0.5, M, N)
            m.check(lo2 < lo and hi2 > hi, 'limits-nested', lambda: '%r %r' % ((lo, hi), (lo2, hi2)))
            sd = math.sqrt(_moments(M, N)[1])
            m.check(abs(lo - (1 - s * sd)) < 0.5 * s * sd and abs(hi - (1 + s * sd)) < s * sd, 'limits-size', lambda: '%r %r for a deviation of %r' % (lo, hi, sd))
            T = 40000
            x = nr.gamma(N, size=(T, M))
            k = (M * N + 1.0) / (M - 1) * (M * (x ** 2).sum(axis=1) / x.sum(axis=1) ** 2 - 1)
            p = 0.5 * math.erfc(s / math.sqrt(2))
            for nm, frac in (('low', (k < lo).mean()), ('high', (k > hi).mean())):
                m.check(abs(frac - p) < 0.3 * p + 6 * math.sqrt(p / T), 'limits-tail-' + nm, '%r outside, want %r' % (frac, p))
            err = np.geterr()
            try:
                K.get_limits(s, 1, N)
            except (ArithmeticError, ValueError):
                pass
            m.equal(np.geterr(), err, 'error-state')
            K.get_limits(rng.choice([4.0, 6.0, 8.0, 12.0]), rng.choice([64, 4096, 100000]), N)
            m.equal(np.geterr(), err, 'error-state')
            np.seterr(**err)


def runs(m, n):
    import numpy as np
    from lsl.statistics import stattests as S
    for i in range(m.n(n)):
        rng, nr = m.rng(i), m.nprng(i)
        N = rng.choice([10, 20, 60, 200, 1000])
        kind = rng.choice(['noise', 'noise', 'zeros', 'slow', 'alternate'])
        x = nr.normal(size=N)
        if kind == 'zeros':
            x[nr.random(size=N) < 0.4] = 0.0
        elif kind == 'slow':
            x = np.sin(np.arange(N) * 2 * np.pi / N * rng.choice([1, 2, 3])) + 1e-9
        elif kind == 'alternate':
            x = (-1.0) ** np.arange(N)
        if rng.random() < 0.3 and N % 2 == 0:
            x = x.reshape(2, -1)
        b = x.ravel() > 0
        a, c = int(b.sum()), int((~b).sum())
        if a < 2 or c < 2:
            continue
        with m.case({'i': i, 'N': N, 'kind': kind}):
            m.event('runs')
            r = 1 + int((b[1:] != b[:-1]).sum())
            mu = 2.0 * a * c / (a + c) + 1
            sd = math.sqrt(2.0 * a * c * (2.0 * a * c - a - c) / ((a + c) ** 2 * (a + c - 1.0)))
            d = r - mu
            if r <= 50:
                d += 0.5 if d < 0 else -0.5
            m.close(S.wald_wolfowitz(x), math.erfc(abs(d / sd) / math.sqrt(2)), 'run-test', rtol=1e-9, atol=1e-12)
            if kind in ('slow', 'alternate') and N >= 60:
                m.check(S.wald_wolfowitz(x) < 1e-3, 'run-test-power', '%r' % S.wald_wolfowitz(x))


def maths(m, n):
    import numpy as np
    from lsl.misc import mathutils as U
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        with m.case({'i': i}):
            m.event('maths')
            # regrid
            k = rng.choice([4, 5, 20, 100])
            x = np.cumsum(nr.uniform(0.1, 2, size=k)) + rng.uniform(-50, 50)
            c = nr.normal(size=4) * [0.01, 0.1, 1, 5]
            y = np.polyval(c, x - x[0])
            nx = nr.uniform(x[0], x[-1], size=rng.choice([1, 7, 50]))
            if rng.random() < 0.5:
                nx[0] = rng.choice([x[0], x[-1]])
            want = np.polyval(c, nx - x[0])
            sc = 1 + np.abs(y).max()
            m.close(U.regrid(x, y, nx), want, 'regrid-spline', rtol=0, atol=1e-7 * sc)
            m.close(U.regrid(x, y, nx, method='spline'), want, 'regrid-spline', rtol=0, atol=1e-7 * sc)
            j = np.clip(np.searchsorted(x, nx, side='right') - 1, 0, k - 2)
            want = y[j] + (nx - x[j]) / (x[j + 1] - x[j]) * (y[j + 1] - y[j])
            m.close(U.regrid(x, y, nx, method='linear'), want, 'regrid-linear', rtol=0, atol=1e-9 * sc)
            m.close(U.regrid(x, y, nx, method='linear', allow_extrapolation=True), want, 'regrid-linear', rtol=0, atol=1e-9 * sc)
            out = np.append(nx, rng.choice([x[0] - 0.01, x[-1] + 0.01]))
            for me in ('linear', 'spline'):
                m.raises(ValueError, lambda: U.regrid(x, y, out, method=me), 'regrid-range', me)
            m.close(U.regrid(x, y, out, allow_extrapolation=True), np.polyval(c, out - x[0]), 'regrid-extrapolate', rtol=0, atol=1e-6 * sc)
            m.raises(ValueError, lambda: U.regrid(x, y, nx, method='nearest'), 'regrid-method', '')
            # downsample
            v = nr.normal(size=rng.choice([1, 2, 10, 37, 100]))
            if rng.random() < 0.3:
                v = v + 1j * nr.normal(size=v.size)
            elif rng.random() < 0.3:
                v = nr.integers(-100, 100, size=v.size)
            f = rng.choice([1, 2, 3, 5])
            if f <= v.size:
                s = np.array([v[q * f:(q + 1) * f].sum() for q in range(v.size // f)])
                m.close(U.downsample(v, f), s / f, 'downsample', rtol=1e-12, atol=1e-12)
                m.close(U.downsample(v, f, rescale=False), s, 'downsample-sum', rtol=1e-12, atol=1e-12)
            # smooth
            L = rng.choice([3, 4, 5, 10, 11])
            nn = rng.choice([L, L + 1, 2 * L, 100])
            z = nr.normal(size=nn)
            win = rng.choice(['flat', 'hanning', 'hamming', 'bartlett', 'blackman'])
            got = U.smooth(z, window_len=L, window=win)
            if m.check(got.shape == z.shape, 'smooth-length', lambda: '%d of %d, window %d' % (got.size, nn, L)):
                w = np.ones(L) if win == 'flat' else getattr(np, win)(L)
                w = w / w.sum()
                h = L // 2
                for q in range(L, nn - L):
                    m.check(abs(got[q] - sum(w[t] * z[q + (L - 1) // 2 - t] for t in range(L))) < 1e-9 or abs(got[q] - sum(w[t] * z[q + h - t] for t in range(L))) < 1e-9, 'smooth', lambda: 'window %s %d' % (win, L))
            m.close(U.smooth(np.full(nn, 4.5), window_len=L, window=win), np.full(nn, 4.5), 'smooth-constant', rtol=0, atol=1e-9)
            m.array_equal(U.smooth(z, window_len=rng.choice([1, 2])), z, 'smooth-none')
            m.raises(ValueError, lambda: U.smooth(z[:L - 1], window_len=L), 'smooth-short', '')
            m.raises(ValueError, lambda: U.smooth(z, window_len=L, window='box'), 'smooth-window', '')
            m.raises(ValueError, lambda: U.smooth(z.reshape(1, -1), window_len=L), 'smooth-ndim', '')
            # complex numbers
            zz = nr.normal(size=5) + 1j * nr.normal(size=5)
            m.close(U.cmagnitude(zz), np.hypot(zz.real, zz.imag), 'cmagnitude', rtol=1e-12)
            m.close(U.cphase(zz), np.arctan2(zz.imag, zz.real), 'cphase', rtol=1e-12)
            p = U.cpolar(zz)
            m.close(p, np.array([[abs(q), math.atan2(q.imag, q.real)] for q in zz]), 'cpolar', rtol=1e-12)
            m.close(U.crect(p), zz, 'crect', rtol=1e-12, atol=1e-12)
            m.close(U.creal(p), zz.real, 'creal', rtol=1e-12, atol=1e-12)
            m.close(U.cimag(p), zz.imag, 'cimag', rtol=1e-12, atol=1e-12)
            q = complex(zz[0])
            m.close(U.crect(U.cpolar(q)), q, 'crect-scalar', rtol=1e-12, atol=1e-12)
            # decibels
            lin = 10 ** nr.uniform(-12, 12, size=5)
            m.close(U.to_dB(lin), 10 * np.log10(lin), 'to-db', rtol=1e-12, atol=1e-12)
            m.close(U.from_dB(U.to_dB(lin)), lin, 'db', rtol=1e-10)
            # non-uniform Fourier transform
            nn = rng.choice([2, 3, 8, 15])
            t = np.sort(nr.uniform(0, 10, size=nn)) if rng.random() < 0.6 else np.arange(nn) * rng.choice([1, 3])
            dt = rng.choice(['complex128', 'float64', 'complex64', 'float32'])
            v = (nr.normal(size=nn) + (1j * nr.normal(size=nn) if dt.startswith('c') else 0)).astype(dt)
            f, F = U.ndft(t, v)
            span = float(t.max() - t.min())
            wf = np.array([(nn // 2 - q) / span for q in range(nn)])
            m.close(f, wf, 'ndft-freq', rtol=1e-6, atol=1e-9)
            wF = np.array([sum(v[b] * np.exp(-2j * np.pi * t[b] * wf[a]) for b in range(nn)) for a in range(nn)])
            m.close(F, wF, 'ndft', rtol=0, atol=1e-8 if dt in ('complex128', 'float64') else 1e-4)
            # gaussians
            h, cx, cy, wx, wy, pa = rng.uniform(0.5, 5), rng.uniform(20, 40), rng.uniform(20, 40), rng.uniform(1.5, 4), rng.uniform(1.5, 4), rng.uniform(-90, 90)
            g = U.gaussian1d(h, cx, wx)
            xx = np.arange(60)
            m.close(g(xx), h * np.exp(-0.5 * ((xx - cx) / wx) ** 2), 'gaussian1d', rtol=1e-10, atol=1e-300)
            a = U.gaussparams(g(xx))
            m.check(abs(a[0] - g(xx).max()) < 1e-12 and abs(a[1] - cx) < 1e-3 and abs(a[2] - wx) < 1e-2, 'gaussparams', lambda: '%r' % (a,))
            off = rng.uniform(-100, 100)
            a = U.gaussparams(g(xx), x=xx * 2.0 + off)
            m.check(abs(a[1] - (2 * cx + off)) < 1e-2 and abs(a[2] - 2 * wx) < 2e-2, 'gaussparams-x', lambda: '%r' % (a,))
            X, Y = np.meshgrid(xx, np.arange(55), indexing='ij')
            th = math.radians(pa)
            r1 = ((X - cx) * math.cos(th) + (Y - cy) * math.sin(th)) / wx
            r2 = (-(X - cx) * math.sin(th) + (Y - cy) * math.cos(th)) / wy
            m.close(U.gaussian2d(h, cx, cy, wx, wy, pa)(X, Y), h * np.exp(-0.5 * (r1 ** 2 + r2 ** 2)), 'gaussian2d', rtol=1e-9, atol=1e-300)
            img = U.gaussian2d(h, cx, cy, wx, wy)(X, Y)
            for a in (U.gaussparams(img), U.gaussparams(img, x=X, y=Y)):
                m.check(abs(a[0] - img.max()) < 1e-12 and abs(a[1] - cx) < 1e-2 and abs(a[2] - cy) < 1e-2 and abs(a[3] - wx) < 5e-2 and abs(a[4] - wy) < 5e-2 and a[5] == 0, 'gaussparams-2d', lambda: '%r' % (a,))
            a = U.gaussparams((img * 1000).astype(int))
            m.check(abs(a[1] - cx) < 0.1 and abs(a[2] - cy) < 0.1, 'gaussparams-int', lambda: '%r' % (a,))
    # the spherical harmonics of a pattern on the whole sphere give it back
    az, alt = np.meshgrid(np.arange(0, 360, 5.0), np.arange(-90, 90, 5.0) + 2.5, indexing='ij')
    with m.case({'sph': 1}):
        v = np.sin(np.radians(alt))
        got = U.sphval(U.sphfit(az, alt, v, lmax=2, degrees=True, real_only=True), az, alt, degrees=True, real_only=True)
        m.check(np.abs(got - v).max() < 0.05, 'sphval-sphfit-axes', 'sin(altitude) fitted over the whole sphere comes back off by %.2f' % np.abs(got - v).max())


def scattering(m, n):
    import numpy as np
    from lsl.misc import scattering as S
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nr = m.rng(i), m.nprng(i)
        N = rng.choice([128, 201, 256])
        dt = rng.choice([1e-3, 2e-3, 0.01])
        t0 = rng.choice([0.0, -N * dt / 2, 3.7, -100 * dt])
        t = t0 + np.arange(N) * dt
        tau = rng.choice([3, 5, 8]) * dt
        with m.case({'i': i, 'N': N, 'dt': dt, 't0': t0, 'tau': tau}):
            m.event('scattering')
            p = rng.randrange(N - 30)
            rel = (np.arange(N) - p) * dt
            for nm, fn in (('thin', S.thin), ('thick', S.thick), ('uniform', S.uniform)):
                g = fn(rel, tau)
                m.check(abs(g.sum() - 1) < 1e-9 and (g >= 0).all() and (g[:p] == 0).all(), nm, 'not a normalized causal function')
                u = rel[p + 1:]
                w = {'thin': np.exp(-u / tau), 'thick': u ** -1.5 * np.exp(-np.pi ** 2 * tau / 16 / u), 'uniform': u ** -2.5 * np.exp(-np.pi ** 2 * tau / 4 / u)}[nm]
                k = int(np.argmax(w))
                m.close(g[p + 1:] / g[p + 1 + k], w / w[k], nm + '-shape', rtol=1e-6, atol=1e-12)
            # a scattered pulse
            a = rng.randrange(N // 4, N // 2)
            amp = rng.uniform(5, 50)
            cl = np.zeros(N)
            cl[a] = amp
            b = a + N // 4
            two = rng.random() < 0.5
            if two:
                cl[b] = amp * 0.6
            scr = S.thin((np.arange(N)) * dt, tau)
            raw = np.convolve(cl, scr)[:N]
            keep = raw.copy()
            best, merit, prof = S.unscatter(t, raw, tau - 2 * dt, tau + 2.5 * dt, dt, gain=0.1, max_iter=3000)
            m.check(abs(best - tau) < 0.01 * dt, 'unscatter-tau', lambda: '%r of %r' % (best, tau))
            m.check(abs(int(np.argmax(prof)) - a) <= 1, 'unscatter-peak', lambda: 'at %d of %d' % (np.argmax(prof), a))
            m.close(prof.sum(), raw.sum(), 'unscatter-flux', rtol=0.02)
            m.close(prof[max(a - 15, 0):a + 16].sum(), amp, 'unscatter-pulse', rtol=0.05)
            if two and b + 16 <= N:
                m.close(prof[b - 15:b + 16].sum(), amp * 0.6, 'unscatter-pulse', rtol=0.05)
            m.array_equal(raw, keep, 'unscatter-input')


def rf(m, n):
    from astropy import units as u
    from lsl.misc import rfutils as F
    C, K = 299792458.0, 1.380649e-23
    for i in range(m.n(n)):
        rng = m.rng(i)
        with m.case({'i': i}):
            m.event('rf')
            g, f = rng.uniform(-10, 40), rng.choice([rng.uniform(1e7, 1e8), rng.uniform(1e8, 5e9)])
            fq = rng.choice([f, f * u.Hz, (f / 1e6) * u.MHz, '%r Hz' % f])
            gain = (C / f) ** 2 / (4 * math.pi) * 10 ** (g / 10) / (2 * K) * 1e-26
            m.close(F.dBi_to_gain(g, fq), gain, 'dbi-to-gain', rtol=1e-9)
            m.close(F.gain_to_dBi(rng.choice([gain, gain * u.K / u.Jy, gain * 1e3 * u.mK / u.Jy]), fq), g, 'gain-to-dbi', rtol=0, atol=1e-9)
            m.close(F.dBi_to_dBd(F.dBd_to_dBi(g)), g, 'dbd', rtol=0, atol=1e-12)
            m.close(F.dBd_to_dBi(g) - g, 10 * math.log10(1.64), 'dbd-dipole', rtol=0, atol=0.01)
            m.close(F.gain_to_dBd(F.dBd_to_gain(g, fq), fq), g, 'gain-dbd', rtol=0, atol=1e-9)
            m.close(F.dBd_to_gain(g, fq), F.dBi_to_gain(F.dBd_to_dBi(g), fq), 'dbd-to-gain', rtol=1e-12)
            area = 2 * K * gain * 1e26
            m.close(F.calculate_effective_area(gain), area, 'area', rtol=1e-9)
            T = rng.uniform(10, 5000)
            m.close(F.calculate_sefd(rng.choice([T, T * u.K]), gain=gain), T / gain, 'sefd', rtol=1e-9)
            e = rng.uniform(0.1, 1)
            m.close(F.calculate_sefd(T, area=rng.choice([area, area * u.m ** 2]), efficiency=e), T / (gain * e), 'sefd-area', rtol=1e-9)
            m.raises(RuntimeError, lambda: F.calculate_sefd(T, **rng.choice([{}, {'area': area}, {'efficiency': e}])), 'sefd-missing', '')
            flux, bw = 10 ** rng.uniform(-3, 6), 10 ** rng.uniform(1, 8)
            d = F.Jy_to_dBm(rng.choice([flux, flux * u.Jy, flux * 1e3 * u.mJy]), rng.choice([bw, bw / 1e3 * u.kHz]), gain)
            m.close(d, 10 * math.log10(flux * 1e-26 * bw * area * 1e3), 'jy-to-dbm', rtol=0, atol=1e-8)
            m.close(F.dBm_to_Jy(d, bw, gain), flux, 'dbm-to-jy', rtol=1e-8)


JOBS = {
    'location': (location, 'plain', 80), 'modes': (modes, 'plain', 120), 'fits': (fits, 'plain', 40), 'kurtosis': (kurtosis, 'plain', 40),
    'runs': (runs, 'plain', 40), 'maths': (maths, 'plain', 40), 'scattering': (scattering, 'plain', 6), 'rf': (rf, 'plain', 20),
}
