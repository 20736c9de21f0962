"""C19 - the numerical kernels are memory safe whatever they are called with."""
RULE = ('random well-formed and hostile calls (shapes, sample types, strides, byte orders, empty and missing data, transform lengths, overlaps, blanking levels, sample rates, delays, window functions, '
        'grids, coordinates incl. NaN and infinity, baselines, channels) of every public function that runs a native kernel, built with ASan and UBSan; distinct = distinct calls that ran')
NEED = {'calls': 1500, 'completed': 600, 'refused': 200}
OPTS = {'threads': 3}
ASSUMPTIONS = ['sanitizers see the extension modules of lsl, not FFTW, numpy and CPython']


def fuzz(m, n, names):
    import numpy as np
    from vf import kern
    for i in range(m.n(n)):
        if m.over():
            break
        rng, nprng = m.rng(i), m.nprng(i)
        hostile = rng.random() < 0.75
        name, desc, fn, exact = kern.draw(rng, nprng, hostile, name=rng.choice(names))
        desc['i'] = i
        with m.case(desc):
            m.event('calls')
            m.event(name)
            try:
                with np.errstate(all='ignore'):
                    out = fn()
            except (SystemError, RecursionError) as e:
                m.violation('broken-result', '%s: %s' % (type(e).__name__, e))
            except MemoryError:
                m.event('no_memory')
            except Exception as e:
                m.event('refused')
                m.check(hostile or 'No sources above' in str(e), 'well-formed-call-refused', lambda: '%s: %s' % (type(e).__name__, e))
            else:
                m.event('completed')
                for o in out:
                    # reading every byte shows arrays that are smaller than they say
                    np.asarray(o).tobytes()


JOBS = {'dsp%d' % k: (fuzz, 'asan', 500, ['spec', 'stokes', 'fx', 'fxstokes']) for k in range(4)}
JOBS.update({'x': (fuzz, 'asan', 500, ['x', 'xstokes', 'beam']), 'grid': (fuzz, 'asan', 300, ['grid']), 'sim': (fuzz, 'asan', 200, ['sim'])})
