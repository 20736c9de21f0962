"""C20 - results do not depend on how the work is split among threads, nor on what other threads do."""
RULE = ('random well-formed calls of every native kernel (correlators, spectrometers, beamformer, gridder, visibility simulator) and of the frame readers: (a) the same call with one and with several '
        'OpenMP threads, (b) different calls at once from several Python threads, compared with the same calls done one after another, (c) both under ThreadSanitizer on an instrumented OpenMP runtime '
        'that perturbs the schedule; distinct = distinct calls or sets of calls')
NEED = {'thread_counts': 300, 'concurrent_calls': 300, 'tsan_calls': 100, 'parallel_regions': 500, 'distinct_schedules': 50, 'fftw_plans': 100, 'frames': 500}
OPTS = {'threads': 4}
ASSUMPTIONS = ['ThreadSanitizer sees the extension modules of lsl and the OpenMP runtime, not FFTW, numpy and CPython',
               'the FFTW planner is watched for calls that overlap in time', 'lsl.misc.wisdom (which plans with the GIL released on purpose) is left out',
               'results of the gridder agree to rounding, as sums are done in another order']
TOL = False                # judged to rounding: how a sum is split up is the code's business


def counts(m, n, names):
    import ctypes
    import numpy as np
    from vf import kern
    g = ctypes.CDLL('libgomp.so.1')
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng = m.rng(i), m.nprng(i)
        name, desc, fn, exact = kern.draw(rng, nprng, False, name=rng.choice(names))
        desc['i'] = i
        with m.case(desc), np.errstate(all='ignore'):
            g.omp_set_num_threads(1)
            try:
                ref = fn()
            except RuntimeError as e:
                if 'No sources above' in str(e):
                    continue
                raise
            for t in rng.sample([2, 3, 5, 8, 17], 3):
                g.omp_set_num_threads(t)
                m.event('thread_counts')
                out = fn()
                m.check(kern.same(ref, out, TOL), 'depends-on-thread-count', lambda: '%s: one thread and %i threads give different results' % (name, t))
        g.omp_set_num_threads(4)


def _file(rng, nprng, path):
    """a file of raw data and a function that reads it all"""
    import numpy as np
    from vf import frames
    kind = rng.choice(['tbx', 'cor', 'drx', 'drx8', 'vdif', 'drspec'])
    n = rng.choice([6, 12])
    out = []
    if kind == 'tbx':
        ns, nc = rng.choice([(64, 4), (64, 16), (128, 8), (256, 12), (256, 16)])
        for k in range(n):
            a = nprng.integers(-8, 8, (2, nc, ns, 2))
            out.append(frames.tbx(a[0], a[1], ns, nc, frame_count=k, timetag=10**6 + k))
    elif kind == 'cor':
        nc = rng.choice([33, 72, 112, 192])
        for k in range(n):
            v = nprng.normal(size=(nc, 2, 2)) + 1j * nprng.normal(size=(nc, 2, 2))
            out.append(frames.cor(v.astype('c8'), 1, k + 1, frame_count=k, timetag=10**6 + k))
    elif kind in ('drx', 'drx8'):
        for k in range(n):
            a = nprng.integers(-8, 8, (2, 4096))
            out.append(getattr(frames, kind)(a[0], a[1], beam=1 + k % 4, timetag=k * 40960))
    elif kind == 'vdif':
        bits = rng.choice([1, 2, 4, 8])
        for k in range(n):
            out.append(frames.vdif(nprng.integers(0, 256, 800, dtype=np.uint8).tobytes(), seconds=k, bits=bits, is_complex=1))
    else:
        fmt = rng.choice(sorted(frames.DRSPEC_FORMATS))
        nf = rng.choice([32, 512])
        for k in range(n):
            out.append(frames.drspec(nprng.random((2, nf, len(frames.DRSPEC_FORMATS[fmt]))), timetag=k, fmt=fmt, nfreqs=nf))
    with open(path, 'wb') as fh:
        fh.write(b''.join(out))

    def read():
        import importlib
        mod = importlib.import_module('lsl.reader.' + kind)
        got = []
        with open(path, 'rb') as fh:
            for _ in range(n):
                f = mod.read_frame(fh, **({'sample_rate': 1e6} if kind == 'vdif' else {}))
                d = f.payload.data
                if d.dtype.names is not None:
                    d = np.stack([d[k].astype(np.float64) for k in d.dtype.names])
                got += [np.array(d), np.array([float(x) for x in (f.time if isinstance(f.time, tuple) else (f.time,))])]
        return got
    return kind, {'k': kind, 'n': n}, read


def _run_all(fns, reps):
    """all functions at once, each in its own Python thread"""
    import sys
    import threading
    out = [None] * len(fns)
    bar = threading.Barrier(len(fns))
    old = sys.getswitchinterval()

    def go(k):
        bar.wait()
        try:
            out[k] = [fns[k]() for _ in range(reps)]
        except BaseException as e:
            out[k] = e
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=go, args=(k,)) for k in range(len(fns))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    finally:
        sys.setswitchinterval(old)
    return out


def _windowed(rng, nprng):
    """calls with window functions of their own and data that have to be copied first, which gives other threads a chance to get in between"""
    import numpy as np
    from lsl.correlator import fx
    from vf.checks.c08 import _windows
    from vf.checks.c09 import array
    W = _windows()
    win = rng.choice(['none', 'hanning', 'blackman', 'ramp', 'list'])
    x = nprng.normal(0, 20, (4, 2 * rng.choice([1500, 6000])))[:, ::2]
    x = x.astype(rng.choice(['f4', 'f8'])) if rng.random() < 0.3 else x
    LFFT = rng.choice([16, 32, 64])
    name = rng.choice(['spec', 'spec', 'stokes', 'fx'])
    desc = {'k': name, 'win': win, 'LFFT': LFFT, 'n': x.shape[1]}
    ants = array(rng, 2)
    if name == 'spec':
        return name, desc, lambda: list(fx.SpecMaster(x, LFFT=LFFT, window=W[win])), True
    if name == 'stokes':
        return name, desc, lambda: list(fx.StokesMaster(x, ants, LFFT=LFFT, window=W[win])), True
    return name, desc, lambda: list(fx.FXMaster(x, ants, LFFT=LFFT, window=W[win], include_auto=True)), True


def _draw(rng, nprng, m, i, k, names, small):
    import os
    from vf import kern
    if 'window' in names:
        return _windowed(rng, nprng)
    if rng.random() < 0.3 or 'files' in names:
        name, desc, fn = _file(rng, nprng, os.path.join(m.scratch, 'f%d-%d.dat' % (i, k)))
        return name, desc, fn, True
    return kern.draw(rng, nprng, False, name=rng.choice(names), small=small)


def concurrent(m, n, names, small=False, ev='concurrent_calls', par=(3, 6), reps=2):
    import os
    import numpy as np
    from vf import kern
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng = m.rng(i), m.nprng(i)
        calls = [_draw(rng, nprng, m, i, k, names, small) for k in range(rng.randint(*par))]
        fns, refs, descs = [], [], []
        with np.errstate(all='ignore'):
            for name, desc, fn, exact in calls:
                try:
                    refs.append(fn())
                except RuntimeError as e:
                    if 'No sources above' in str(e):
                        continue
                    raise
                fns.append(fn)
                descs.append(desc)
        with m.case({'i': i, 'calls': [str(d) for d in descs]}):
            out = _run_all(fns, reps)
            for d, ref, o in zip(descs, refs, out):
                m.event(ev)
                if d['k'] in ('tbx', 'cor', 'drx', 'drx8', 'vdif', 'drspec'):
                    m.event('frames', d['n'])
                if isinstance(o, BaseException):
                    m.violation('fails-when-others-run', '%s: %s: %s' % (d['k'], type(o).__name__, o))
                    continue
                for x in o:
                    m.check(kern.same(ref, x, TOL), 'depends-on-other-threads', lambda: '%s gives another result while other calls run' % d['k'])
        for k in range(len(calls)):
            p = os.path.join(m.scratch, 'f%d-%d.dat' % (i, k))
            if os.path.exists(p):
                os.remove(p)


def tsan(m, n, names, together):
    import ctypes
    import numpy as np
    from vf import kern
    g = ctypes.CDLL(None)
    c = {k: ctypes.c_long.in_dll(g, 'minigomp_' + k) for k in ('regions', 'multi', 'fftw_plans', 'fftw_overlaps', 'nhash')}
    g.minigomp_seed(m.seed * 77 + len(m.job))
    if together:
        concurrent(m, n, names, small=True, ev='tsan_calls', par=(2, 4))
    else:
        for i in range(m.n(n)):
            if m.over():
                break
            rng, nprng = m.rng(i), m.nprng(i)
            g.minigomp_threads(rng.choice([2, 3, 4, 6]))
            name, desc, fn, exact = kern.draw(rng, nprng, False, name=rng.choice(names), small=True)
            desc['i'] = i
            with m.case(desc), np.errstate(all='ignore'):
                try:
                    fn()
                except RuntimeError as e:
                    if 'No sources above' not in str(e):
                        raise
                m.event('tsan_calls')
    m.event('parallel_regions', c['multi'].value)
    m.event('distinct_schedules', c['nhash'].value)
    m.event('fftw_plans', c['fftw_plans'].value)
    with m.case({'job': m.job}):
        m.check(c['fftw_overlaps'].value == 0, 'fftw-planner-overlap', lambda: 'the FFTW planner, which is not thread safe, was entered by %i calls while another one was in it' % c['fftw_overlaps'].value)


DSP = ['spec', 'stokes', 'fx', 'fxstokes']
REST = ['x', 'xstokes', 'beam', 'grid', 'sim']
JOBS = {'counts-dsp': (counts, 'plain', 250, DSP), 'counts-rest': (counts, 'plain', 250, REST), 'together': (concurrent, 'plain', 150, DSP + REST), 'together-dsp': (concurrent, 'plain', 150, DSP),
        'together-windows': (concurrent, 'plain', 60, ['window']), 'together-files': (concurrent, 'plain', 100, ['files'], False, 'concurrent_calls', (4, 6), 12),
        'tsan-dsp': (tsan, 'tsan', 600, DSP, False), 'tsan-rest': (tsan, 'tsan', 150, REST, False), 'tsan-together': (tsan, 'tsan', 60, DSP + ['x', 'xstokes', 'beam', 'grid'], True),
        'tsan-together-dsp': (tsan, 'tsan', 60, DSP, True)}
