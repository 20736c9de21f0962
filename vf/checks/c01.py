"""C01 - decoding arbitrary bytes is memory safe and reference-count neutral, and fails only as documented."""
import io, sys, os

RULE = ('valid, field-mutated, truncated, bit-flipped and random frames of all six formats are given to every public '
        'read_frame* through handles that retain what they hand out; a case is non-trivial when the bytes start with '
        'a recognisable header; distinct = distinct (format, mutation, outcome) bytes')
ASSUMPTIONS = ['native code built with gcc ASan+UBSan, PYTHONMALLOC=malloc; errors inside uninstrumented numpy/CPython are '
               'only seen through the allocator interception']
OPTS = {'scale': 3}
NEED = {'frames_decoded': 500, 'sync_errors': 200, 'eof_errors': 200, 'refcounts_checked': 2000}


class Handle:
    """A file-like object over bytes that keeps every object it returned."""

    def __init__(self, raw, fail=None):
        self.b = io.BytesIO(raw)
        self.kept = []
        self.fail = fail
        self.ops = 0

    def _op(self):
        self.ops += 1
        if self.fail is not None and self.ops == self.fail:
            raise OSError('injected I/O failure')

    def read(self, n=-1):
        self._op()
        r = bytes(bytearray(self.b.read(n)))
        self.kept.append(r)
        return r

    def seek(self, o, w=0):
        self._op()
        r = self.b.seek(o, w)
        r = int(str(10**12 + r))           # a private, mortal int; nothing uses its value
        self.kept.append(r)
        return r

    def tell(self):
        return self.b.tell()


def build(rng, np, F):
    """One well-formed frame of a random format; returns (format, bytes)."""
    fmt = rng.choice(['drx', 'drx8', 'tbx', 'cor', 'vdif', 'drspec'])
    u = lambda b: rng.getrandbits(b)
    if fmt == 'drx':
        raw = F.drx_header(u(24), u(8), u(32), u(16), u(16), u(64), u(32), u(32)) + rng.randbytes(4096)
    elif fmt == 'drx8':
        raw = F.drx_header(u(24), u(8), u(32), u(16), u(16), u(64), u(32), u(32)) + rng.randbytes(8192)
    elif fmt == 'tbx':
        ns, nc = rng.choice([64, 128, 256]), rng.choice([4, 8, 12, 16])
        raw = F.tbx(np.zeros(ns * nc * 2), np.zeros(ns * nc * 2), ns, nc, u(24), u(32), u(15), u(60))
        raw = raw[:len(raw) - ns * nc * 2] + rng.randbytes(ns * nc * 2)
    elif fmt == 'cor':
        nc = rng.choice([33, 72, 112, 192])
        raw = F.cor(np.zeros((nc, 2, 2)), u(8), u(8), u(24), u(32), u(12), u(4), u(60), u(20))
        raw = raw[:len(raw) - nc * 32] + rng.randbytes(nc * 32)
    elif fmt == 'vdif':
        legacy = rng.random() < 0.4
        n = 8 * rng.choice([0, 1, 2, 3, 4, 8, 33, 100, 624])
        raw = F.vdif(rng.randbytes(n), u(30), u(24), u(6), rng.choice([0, 0, 0, 1, 2, 3, 5, 12, 31]), u(3), u(16), u(10),
                     rng.choice([1, 2, 4, 8, 8, 4, 2, 1, 3, 16, 32]), u(1), int(legacy), u(1), (u(32), u(32), u(32), u(32)))
    else:
        f = rng.choice(list(F.DRSPEC_FORMATS) * 4 + list(range(256)))
        nf = rng.choice([1, 2, 3, 16, 32, 100, 1024])
        raw = F.drspec(np.zeros(0), u(60), u(16), rng.choice([10, 20, 0]), (u(32), u(32)), [u(12) for _ in range(4)],
                       [u(1) for _ in range(4)], u(3), f, 2, 0, nf, u(16), [u(20) for _ in range(4)])
        raw += rng.randbytes(4 * nf * 2 * bin(f).count('1'))
    return fmt, raw


def mutate(rng, fmt, raw):
    k = rng.choice(['none', 'none', 'trunc', 'flip', 'hdr', 'sync', 'random', 'two', 'iofail', 'empty', 'hdrword'])
    if k == 'trunc':
        n = rng.choice([rng.randrange(len(raw)), rng.randrange(min(len(raw), 90)), len(raw) - 1])
        return k, raw[:n]
    if k == 'flip':
        b = bytearray(raw)
        for _ in range(rng.randrange(1, 20)):
            b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
        return k, bytes(b)
    if k == 'hdr':
        b = bytearray(raw)
        for _ in range(rng.randrange(1, 5)):
            b[rng.randrange(min(80, len(b)))] = rng.choice([0, 1, 0x7f, 0x80, 0xff, rng.randrange(256)])
        return k, bytes(b)
    if k == 'hdrword':
        b = bytearray(raw)
        o = 4 * rng.randrange(0, min(76, len(b)) // 4)
        b[o:o + 4] = rng.choice([b'\0\0\0\0', b'\xff\xff\xff\xff', b'\0\0\0\x80', b'\x80\0\0\0', b'\1\0\0\0', rng.randbytes(4)])
        return k, bytes(b)
    if k == 'sync':
        b = bytearray(raw)
        b[rng.randrange(4)] ^= 1 << rng.randrange(8)
        return k, bytes(b)
    if k == 'random':
        return k, rng.randbytes(rng.choice([0, 1, 15, 16, 31, 32, 75, 76, 77, 400, 5000, 9000]))
    if k == 'empty':
        return k, b''
    return k, raw


def fuzz(m, n_quick):
    import numpy as np
    from vf import frames as F
    from lsl.reader import drx, drx8, tbx, cor, vdif, drspec
    from lsl.reader.errors import SyncError, EOFError
    fns = {'drx': [drx.read_frame, drx.read_frame_ci8], 'drx8': [drx8.read_frame, drx8.read_frame_ci8],
           'tbx': [tbx.read_frame, tbx.read_frame_ci8], 'cor': [cor.read_frame],
           'vdif': [vdif.read_frame, vdif.read_frame_i8], 'drspec': [drspec.read_frame]}
    alls = sorted(fns)
    for i in range(m.n(n_quick)):
        if m.over():
            break
        rng = m.rng(i)
        fmt, raw = build(rng, np, F)
        k, raw = mutate(rng, fmt, raw)
        if k == 'two':
            f2, raw2 = build(rng, np, F)
            raw = raw + raw2
        which = fmt if rng.random() < 0.9 else rng.choice(alls)
        fn = rng.choice(fns[which])
        fail = rng.randrange(1, 4) if k == 'iofail' else None
        desc = {'i': i, 'format': fmt, 'reader': which + '.' + fn.__name__, 'mutation': k, 'bytes': len(raw),
                'head': raw[:96].hex()}
        with m.case(desc, nontrivial=False):
            h = Handle(raw, fail)
            for rep in range(3):
                kept0 = len(h.kept)
                fr, arrs = None, []
                try:
                    fr = fn(h)
                    m.event('frames_decoded')
                    # touch everything that was decoded
                    for obj in (fr.header, fr.payload):
                        for v in list(vars(obj).values()):
                            if isinstance(v, np.ndarray):
                                m.event('values_touched', v.size)
                                if v.dtype.fields is None:
                                    np.abs(v.astype(np.complex128)).sum()
                                else:
                                    v['re'].astype(int).sum()
                                # one reference from the object's dict, one from v, one from the argument
                                if v.base is None:
                                    arrs.append(v)
                                v = None
                    out = 'ok'
                except SyncError:
                    out = 'sync'
                    m.event('sync_errors')
                except EOFError:
                    out = 'eof'
                    m.event('eof_errors')
                except (RuntimeError, MemoryError) as e:
                    out = 'refused'
                    m.event('refused')
                except OSError as e:
                    out = 'oserror'
                    m.event('oserrors')
                    if fail is None:
                        m.violation('exception:OSError:' + which, 'OSError(%s) without an I/O failure' % e)
                except Exception as e:
                    out = 'other'
                    m.violation('exception:%s:%s' % (type(e).__name__, which + '.' + fn.__name__),
                                'undocumented %s: %s' % (type(e).__name__, e))
                fr = obj = v = None
                while arrs:
                    m.event('refcounts_checked')
                    a = arrs.pop()
                    if sys.getrefcount(a) > 2:
                        m.violation('refcount:decoded-array-leaked:' + which, 'a decoded array outlives its frame (%d references)'
                                    % sys.getrefcount(a))
                    a = None
                # the objects the handle gave out must now be referenced by the handle only
                for j in range(kept0, len(h.kept)):
                    o = h.kept[j]
                    if isinstance(o, bytes) and len(o) < 2:
                        continue                 # interned by CPython
                    m.event('refcounts_checked')
                    rc = sys.getrefcount(o)      # kept list + local + argument
                    if rc > 3:
                        m.violation('refcount:leaked-%s:%s' % (type(o).__name__, which),
                                    '%s returned by the handle has %d references after the call' % (type(o).__name__, rc), outcome=out)
                    elif rc < 3:
                        m.violation('refcount:over-released-%s:%s' % (type(o).__name__, which),
                                    '%s returned by the handle has %d references after the call' % (type(o).__name__, rc), outcome=out)
                        h.kept = []
                if rep == 0 and len(raw) >= 16:
                    m.nontrivial((which, fn.__name__, k, out, raw))
                if out != 'ok':
                    break


def cross(m, n_quick):
    """Random garbage and every format's frames fed to every reader, back to back on one handle (mode caches)."""
    import numpy as np
    from vf import frames as F
    from lsl.reader import drx, drx8, tbx, cor, vdif, drspec
    from lsl.reader.errors import SyncError, EOFError
    fns = [drx.read_frame, drx.read_frame_ci8, drx8.read_frame, drx8.read_frame_ci8, tbx.read_frame, tbx.read_frame_ci8,
           cor.read_frame, vdif.read_frame, vdif.read_frame_i8, drspec.read_frame]
    for i in range(m.n(n_quick)):
        if m.over():
            break
        rng = m.rng('x', i)
        raw = b''.join(build(rng, np, F)[1] if rng.random() < 0.8 else rng.randbytes(rng.randrange(200))
                       for _ in range(rng.randrange(1, 6)))
        order = [rng.choice(fns) for _ in range(12)]
        with m.case({'i': i, 'bytes': len(raw), 'head': raw[:32].hex(), 'order': [f.__module__ + '.' + f.__name__ for f in order]}):
            h = Handle(raw)
            for fn in order:
                try:
                    fn(h)
                    m.event('frames_decoded')
                except SyncError:
                    m.event('sync_errors')
                    h.seek(rng.randrange(0, 64), 1)
                except EOFError:
                    m.event('eof_errors')
                    h.seek(rng.randrange(0, max(1, len(raw))), 0)
                except (RuntimeError, MemoryError):
                    m.event('refused')
                except Exception as e:
                    m.violation('exception:%s:%s.%s' % (type(e).__name__, fn.__module__.split('.')[-1], fn.__name__),
                                'undocumented %s: %s' % (type(e).__name__, e))


JOBS = {'fuzz%d' % k: (fuzz, 'asan', 1500) for k in range(6)}
JOBS.update({'cross%d' % k: (cross, 'asan', 500) for k in range(2)})
