"""C06 - LDP files: the samples of the file, once, in order, on the right time, however they are asked for."""
import io, os

RULE = ('synthetic recordings (every filter code / mode, any subset of tunings and polarizations, lost frames, lost frame '
        'sets, bounded reordering, duplicates, bad sync words, split files) are read through the LDP classes in random chunks with resets, '
        'offsets, frame reads and both data types; a model of the file predicts the samples and time of every chunk; '
        'distinct = distinct (file, chunking) cases')
OPTS = {'scale': 3}
NEED = {'chunks': 800, 'samples_compared': 10**7, 'eof_seen': 100, 'offsets': 20, 'resets': 40}
RATES = [(784, 250e3), (392, 500e3), (196, 1e6), (98, 2e6), (40, 4.9e6), (20, 9.8e6), (10, 19.6e6)]


def write(m, i, rng, raws, split):
    d = os.path.join(m.scratch, 'f')
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(os.path.join(d, f))
    raw = b''.join(raws)
    if not split:
        p = os.path.join(d, 'data_%d' % i)
        open(p, 'wb').write(raw)
        return p
    cuts = sorted([0, len(raw)] + [rng.randrange(len(raw) + 1) for _ in range(rng.choice([1, 2, 5]))])
    names = []
    for k in range(len(cuts) - 1):
        p = os.path.join(d, 'data_%d_%02d' % (i, k))
        open(p, 'wb').write(raw[cuts[k]:cuts[k + 1]])
        names.append(p)
    return names


def opener(cls, where):
    from lsl.reader.utils import SplitFileWrapper
    if isinstance(where, list):
        return cls(fh=SplitFileWrapper(list(where)))
    return cls(where)


def arrivals(rng, src, nset, gaps, loss, jitter, dup):
    """-> list of (set, source) in file order and the set of those present"""
    arr, pos = [], 0.0
    for k in range(nset):
        if k in gaps:
            continue
        here = [s for s in src if not (loss and k >= 40 and rng.random() < loss)]
        if not here:
            here = [rng.choice(src)]
        for s in here:
            for _ in range(2 if rng.random() < dup and k >= 40 else 1):
                arr.append((pos + (rng.uniform(0, jitter) if k >= 40 else 0), k, s))
                pos += 1
    arr.sort(key=lambda a: a[0])
    return [(k, s) for _, k, s in arr]


def pick_gaps(rng, nset, last):
    gaps = set()
    if rng.random() < 0.5:
        for _ in range(rng.choice([1, 2])):
            n = rng.choice([1, 2, 5, 20])
            a = rng.randrange(45, max(46, nset - n - last))
            gaps |= set(range(a, a + n))
    return {k for k in gaps if k < nset - last}


def drxfile(m, n, eight):
    import numpy as np
    from vf import frames as F
    from lsl.reader import ldp, errors, drx, drx8
    name = 'drx8' if eight else 'drx'
    cls = ldp.DRX8File if eight else ldp.DRXFile
    fsize = 8224 if eight else 4128
    nib = np.arange(16)
    nib = np.where(nib > 7, nib - 16, nib).astype(np.float32)
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        dec, rate = RATES[i % 7] if i < 7 else rng.choice(RATES)
        src = rng.sample([(1, 0), (1, 1), (2, 0), (2, 1)], rng.choice([1, 2, 2, 4, 4, 3]))
        src.sort()
        # the files describe themselves from 64 frames
        nset = rng.choice([70, 110, 180])
        clean = rng.random() < 0.4
        gaps = set() if clean else pick_gaps(rng, nset, 25)
        jitter = 0 if clean else rng.choice([0, 0, 3, 3 * len(src), 8 * len(src)])
        arr = arrivals(rng, src, nset, gaps, 0 if clean else rng.choice([0, 0.02, 0.2]), jitter, 0 if clean else rng.choice([0, 0, 0.05]))
        toff = rng.choice([0, 0, 6660, 25])
        t0 = 290000000000000000 + rng.randrange(10**15)
        skip = 4096 * dec
        beam = rng.randrange(1, 5)
        E = np.zeros((4, nset * 4096), np.complex64)
        raws = []
        bads = 0
        first = {}
        for q, (k, (t, p)) in enumerate(arr):
            key = (k, t, p)
            if key not in first:
                first[key] = g.integers(0, 256, 8192 if eight else 4096, dtype=np.uint8)
            b = first[key]
            h = F.drx_header(q & 0xffffff, F.drx_id(beam, t, p, eight), 0, dec, toff, t0 + k * skip, 1000000 * t, 0)
            if not clean and k >= 45 and k < nset - 30 and rng.random() < 0.01:
                h = b'\xde\xc0\xde\x5d' + h[4:]          # unreadable: must come back as zeros
                bads += 1
                present = False
            else:
                present = True
            raws.append(h + b.tobytes())
            if present:
                E[2 * (t - 1) + p, k * 4096:(k + 1) * 4096] = (b[0::2].view(np.int8) + 1j * b[1::2].view(np.int8)) if eight else (nib[b >> 4] + 1j * nib[b & 15])
        seen = {k for k, s in arr}
        tail = rng.choice([0, 0, 1, 40, fsize - 1])
        if tail:
            raws.append(raws[0][:tail])
        split = rng.random() < 0.3
        where = write(m, i, rng, raws, split)
        with m.case({'i': i, 'kind': name, 'rate': rate, 'sources': src, 'sets': nset, 'gaps': sorted(gaps), 'frames': len(arr), 'jitter': jitter,
                     'bad': bads, 'clean': clean, 'tail': tail, 'split': split, 'time_offset': toff}):
            f = opener(cls, where)
            if not split and rng.random() < 0.3:
                f.close()
                f = ldp.LWADataFile(where)
                m.check(type(f) is cls, name + ':LWADataFile', 'recognised as %s' % type(f).__name__)
            inf = f.get_info()
            m.equal(inf['sample_rate'], rate, name + ':info-rate')
            m.equal(inf['nframe'], sum(map(len, raws)) // fsize, name + ':info-nframe')
            m.equal(inf['start_time_samples'], t0 - toff, name + ':info-start')
            m.equal((inf['beam'], inf['nbeampol']), (beam, len(src)), name + ':info-beam')
            pos = 0
            todo = rng.choice([1, 1, 2])
            while todo:
                ci8 = rng.random() < 0.4
                samples = rng.random() < 0.5
                while True:
                    k = rng.choice([1, 2, 7, 13]) if rng.random() < 0.6 else rng.choice([19, 20, 21, 50, nset, nset + 9])
                    try:
                        dur, t, data = f.read(k * 4096 / rate, time_in_samples=samples, return_ci8=ci8)
                    except errors.EOFError:
                        m.event('eof_seen')
                        m.equal(pos, nset, name + ':eof-early', gaps=sorted(gaps))
                        break
                    m.event('chunks')
                    got = int(round(dur * rate / 4096))
                    want = min(k, nset - pos)
                    if not m.check(got == want, name + ':chunk-length', 'asked for %d sets at %d of %d, got %d' % (k, pos, nset, got)):
                        break
                    if ci8:
                        data = data['re'] + 1j * data['im']
                    m.event('samples_compared', 4 * got * 4096)
                    if not m.array_equal(data[:, :got * 4096], E[:, pos * 4096:(pos + got) * 4096], name + ':samples'):
                        break
                    m.check(not data[:, got * 4096:].any(), name + ':samples-beyond-end')
                    if got:
                        tw = t0 + pos * skip - toff
                        tg = t if samples else t.dp_timetag
                        m.check(tg == tw, name + ':chunk-time', 'time %d, expected %d' % (tg, tw))
                    pos += got
                    if clean and rng.random() < 0.3 and nset - pos > 26 + 64 // len(src):
                        if rng.random() < 0.5:
                            f.reset()
                            m.event('resets')
                            pos = 0
                        else:
                            # anywhere that leaves data behind the target
                            # (an offset describes the file again, which takes 64 frames)
                            target = rng.randrange(0, nset - 25 - 64 // len(src))
                            want = (target + 0.5 - pos) * 4096 / rate
                            r = f.offset(want)
                            m.event('offsets')
                            m.check(abs(r - want) < 2.01 * 4096 / rate, name + ':offset-amount', 'asked for %g s, got %g s' % (want, r))
                            moved = r * rate / 4096
                            m.check(abs(moved - round(moved)) < 1e-3, name + ':offset-amount', 'not a whole number of frames: %r' % moved)
                            pos += int(round(moved))
                            m.check(f.get_info('start_time_samples') == t0 + pos * skip - toff, name + ':offset-start', 'start %s' % f.get_info('start_time_samples'))
                todo -= 1
                if todo:
                    f.reset()
                    m.event('resets')
                    pos = 0
                    if clean:
                        fr = f.read_frame()
                        m.equal((fr.payload.timetag, fr.id), (t0 + arr[0][0] * skip, (beam,) + arr[0][1]), name + ':read_frame')
                        m.equal(f.nframe_remaining, sum(map(len, raws)) // fsize - 1, name + ':remaining')
                        f.reset()
            f.close()


def leading(m, n, eight):
    """recordings that begin with a piece of an earlier one: it is left out, the rest is not"""
    import numpy as np
    from vf import frames as F
    from lsl.reader import ldp, errors
    name = 'drx8' if eight else 'drx'
    cls = ldp.DRX8File if eight else ldp.DRXFile
    fsize = 8224 if eight else 4128
    nib = np.arange(16)
    nib = np.where(nib > 7, nib - 16, nib).astype(np.float32)
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        dec, rate = rng.choice(RATES)
        src = sorted(rng.sample([(1, 0), (1, 1), (2, 0), (2, 1)], rng.choice([1, 2, 2, 4, 4, 3])))
        points = [(c * 1024**2 - 1) // fsize + 1 for c in (1, 2, 4)]
        which = rng.choice([0, 0, 1])
        old = rng.randrange(1 if which == 0 else points[0] // len(src) + 1, points[which] // len(src))
        nset = points[which] // len(src) + rng.choice([130, 150])
        beam, toff, skip = rng.randrange(1, 5), rng.choice([0, 6660]), 4096 * dec
        t0 = 290000000000000000 + rng.randrange(10**15)
        gap = int(rng.choice([400, 3600, 86400 * 30]) * 196e6)
        tags = [t0 + k * skip + (gap if k >= old else 0) for k in range(nset)]
        raws = []
        E = np.zeros((4, nset * 4096), np.complex64)
        for k in range(nset):
            for t, p in src:
                b = g.integers(0, 256, 8192 if eight else 4096, dtype=np.uint8)
                raws.append(F.drx_header(len(raws), F.drx_id(beam, t, p, eight), 0, dec, toff, tags[k], 1000000 * t, 0) + b.tobytes())
                if len(raws) > points[which]:
                    E[2 * (t - 1) + p, k * 4096:(k + 1) * 4096] = (b[0::2].view(np.int8) + 1j * b[1::2].view(np.int8)) if eight else (nib[b >> 4] + 1j * nib[b & 15])
        pos = points[which] // len(src)
        where = write(m, i, rng, raws, False)
        with m.case({'i': i, 'kind': name, 'rate': rate, 'sources': src, 'earlier': old, 'sets': nset, 'from': pos}):
            f = opener(cls, where)
            m.event('leading_gaps')
            m.equal(f.get_info('start_time_samples'), tags[pos] - toff, name + ':leading-start')
            while True:
                k = rng.choice([1, 7, 20, 50])
                try:
                    dur, t, data = f.read(k * 4096 / rate, time_in_samples=True)
                except errors.EOFError:
                    m.equal(pos, nset, name + ':leading-eof')
                    break
                m.event('chunks')
                got = int(round(dur * rate / 4096))
                if not m.check(got == min(k, nset - pos), name + ':leading-length', 'asked for %d sets at %d of %d, got %d' % (k, pos, nset, got)):
                    break
                m.event('samples_compared', 4 * got * 4096)
                m.array_equal(data[:, :got * 4096], E[:, pos * 4096:(pos + got) * 4096], name + ':leading-samples')
                m.equal(t, tags[pos] - toff, name + ':leading-time')
                pos += got
            f.close()


def biggap(m, n, eight):
    """Gaps too long to be filled: fatal, or passed over when the user asked for that, but never hidden."""
    import numpy as np
    from vf import frames as F
    from lsl.reader import ldp, errors
    name = 'drx8' if eight else 'drx'
    cls = ldp.DRX8File if eight else ldp.DRXFile
    nib = np.arange(16)
    nib = np.where(nib > 7, nib - 16, nib).astype(np.float32)
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        dec, rate = rng.choice(RATES)
        skip = 4096 * dec
        src = sorted(rng.sample([(1, 0), (1, 1), (2, 0), (2, 1)], rng.choice([2, 4, 4])))
        nset = rng.choice([110, 300])
        at = rng.randrange(34, nset - 26)
        # up to just below the five minutes that the readers take for a false start
        gap = rng.choice([30, 48, 49, 52, 60, 200, int(rng.uniform(1, 290) * rate / 4096) + 60])
        fills = gap < 50
        ignore = rng.random() < 0.6
        t0 = 290000000000000000 + rng.randrange(10**15)
        E = np.zeros((4, nset * 4096), np.complex64)
        raws = []
        for k in range(nset):
            for t, p in src:
                b = g.integers(0, 256, 8192 if eight else 4096, dtype=np.uint8)
                raws.append(F.drx_header(len(raws) & 0xffffff, F.drx_id(2, t, p, eight), 0, dec, 0, t0 + (k + (gap if k >= at else 0)) * skip, 1000000 * t, 0) + b.tobytes())
                E[2 * (t - 1) + p, k * 4096:(k + 1) * 4096] = (b[0::2].view(np.int8) + 1j * b[1::2].view(np.int8)) if eight else (nib[b >> 4] + 1j * nib[b & 15])
        if fills:
            E = np.concatenate([E[:, :at * 4096], np.zeros((4, gap * 4096), np.complex64), E[:, at * 4096:]], axis=1)
        tot = E.shape[1] // 4096
        p = write(m, i, rng, raws, False)
        with m.case({'i': i, 'kind': name + '-biggap', 'rate': rate, 'sources': src, 'sets': nset, 'at': at, 'gap': gap, 'ignore': ignore}):
            f = cls(p, ignore_timetag_errors=ignore)
            m.equal(f.get_info('start_time_samples'), t0, name + ':biggap-start')
            pos = 0
            while True:
                k = rng.choice([1, 3, 10, 25, 60])
                try:
                    dur, t, data = f.read(k * 4096 / rate, time_in_samples=True)
                except errors.EOFError:
                    m.equal(pos, tot, name + ':biggap-eof')
                    break
                except RuntimeError as e:
                    m.event('gaps_refused')
                    m.check(not ignore and not fills and pos <= at <= pos + k, name + ':biggap-refused', 'gap of %d sets at %d refused when reading %d at %d: %s' % (gap, at, k, pos, e))
                    break
                m.event('chunks')
                got = int(round(dur * rate / 4096))
                if not m.check(got == min(k, tot - pos), name + ':biggap-length', 'asked for %d at %d of %d, got %d' % (k, pos, tot, got)):
                    break
                m.check(fills or ignore or pos + got <= at, name + ':biggap-hidden', 'a gap of %d sets at %d was passed over silently (read to %d)' % (gap, at, pos + got))
                if not m.array_equal(data[:, :got * 4096], E[:, pos * 4096:(pos + got) * 4096], name + ':biggap-samples'):
                    break
                m.check(t == t0 + (pos + (gap if pos >= at and not fills else 0)) * skip, name + ':biggap-time', 'chunk at set %d has time %d' % (pos, t - t0))
                pos += got
            f.close()


def tbxfile(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import ldp, errors
    nib = np.arange(16)
    nib = np.where(nib > 7, nib - 16, nib).astype(np.float32)
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        ns, nc = rng.choice([64, 128, 256]), rng.choice([4, 8, 12, 16])
        nblk = rng.choice([1, 2, 3, 5])
        step = rng.choice([8192, 8192, 7840])        # 7840: converted LWA-SV TBF data
        c0 = rng.randrange(100, 2000)
        src = [c0 + nc * b for b in range(nblk)]
        if nblk > 3 and rng.random() < 0.3:
            src[-1] += 2 * nc                        # a hole in the frequency coverage
        nset = rng.choice([110, 160])
        clean = rng.random() < 0.5
        # the file is characterised by its first 300 frames
        quiet = 300 // nblk + 1
        nset = max(nset, quiet + 70)
        gaps = set()
        if not clean and rng.random() < 0.6:
            a = rng.randrange(quiet, nset - 50)
            gaps = set(range(a, a + rng.choice([1, 3, 15])))
        loss = 0 if clean else rng.choice([0, 0.1])
        jit = 0 if clean else rng.choice([0, 3 * nblk])
        arr = []
        pos = 0.0
        for k in range(nset):
            if k in gaps:
                continue
            here = [s for s in src if not (k > quiet and rng.random() < loss)] or [rng.choice(src)]
            for s in here:
                arr.append((pos + (rng.uniform(0, jit) if k > quiet else 0), k, s))
                pos += 1
        arr.sort(key=lambda a: a[0])
        t0 = 290000000000000000 + rng.randrange(10**12)
        E = np.zeros((ns * 2, nc * nblk, nset), np.complex64)
        raws = []
        bad = 0
        hdr = len(F.tbx(np.zeros(0), np.zeros(0), ns, nc))
        for _, k, s in arr:
            b = g.integers(0, 256, nc * ns * 2, dtype=np.uint8)
            h = F.tbx(np.zeros(0), np.zeros(0), ns, nc, frame_count=1 + k, first_chan=s, timetag=t0 + step * k, frame_id=8)
            if not clean and quiet < k < nset - 40 and rng.random() < 0.01:
                h = b'\xde\xc0\xde\x5d' + h[4:]
                bad += 1
            else:
                q = src.index(s)
                E[:, q * nc:(q + 1) * nc, k] = (nib[b >> 4] + 1j * nib[b & 15]).reshape(nc, ns * 2).T
            raws.append(h + b.tobytes())
        tail = rng.choice([0, 0, 1, 30, len(raws[0]) - 1])
        if tail:
            raws.append(raws[0][:tail])
        split = rng.random() < 0.3
        where = write(m, i, rng, raws, split)
        rate = 196e6 / step
        with m.case({'i': i, 'kind': 'tbx', 'nstand': ns, 'nchan': nc, 'chans': src, 'sets': nset, 'gaps': sorted(gaps), 'loss': loss, 'jitter': jit,
                     'bad': bad, 'tail': tail, 'split': split, 'clean': clean, 'step': step}):
            f = opener(ldp.TBXFile, where)
            if not split and rng.random() < 0.3:
                f.close()
                f = ldp.LWADataFile(where)
                m.check(type(f) is ldp.TBXFile, 'tbx:LWADataFile', 'recognised as %s' % type(f).__name__)
            inf = f.get_info()
            m.equal((inf['nantenna'], inf['nchan'], inf['frame_channel_count'], inf['start_time_samples'], inf['nframe']),
                    (ns * 2, nc * nblk, nc, t0, sum(map(len, raws)) // len(raws[0])), 'tbx:info')
            m.close(inf['freq1'], np.concatenate([(c + np.arange(nc)) * rate for c in src]), 'tbx:info-freq', rtol=1e-9)
            pos = 0
            todo = rng.choice([1, 2])
            while todo:
                ci8, samples = rng.random() < 0.4, rng.random() < 0.5
                while True:
                    k = rng.choice([1, 2, 7, 13]) if rng.random() < 0.6 else rng.choice([24, 25, 26, 50, nset, None])
                    if k is None and not clean:
                        k = 30
                    try:
                        dur, t, data = f.read(None if k is None else k / rate, time_in_samples=samples, return_ci8=ci8)
                    except errors.EOFError:
                        m.event('eof_seen')
                        m.equal(pos, nset, 'tbx:eof-early', gaps=sorted(gaps))
                        break
                    m.event('chunks')
                    got = int(round(dur * rate))
                    left = nset - pos
                    if clean:
                        if not m.check(got == (left if k is None else min(k, left)), 'tbx:chunk-length', 'asked for %s sets at %d of %d, got %d' % (k, pos, nset, got)):
                            break
                    elif not m.check(1 <= got <= min(k, left), 'tbx:chunk-length', 'asked for %s sets at %d of %d, got %d' % (k, pos, nset, got)):
                        break
                    if ci8:
                        data = data['re'] + 1j * data['im']
                    m.event('samples_compared', data[..., :got].size)
                    if not m.array_equal(data[..., :got], E[..., pos:pos + got], 'tbx:samples'):
                        break
                    tg = t if samples else t.dp_timetag
                    m.check(tg == t0 + step * pos, 'tbx:chunk-time', 'time %d, expected %d' % (tg, t0 + step * pos))
                    pos += got
                    if clean and rng.random() < 0.15 and nset - pos > 30:
                        if rng.random() < 0.4:
                            f.reset()
                            m.event('resets')
                            pos = 0
                        else:
                            target = rng.randrange(pos, nset - 5)
                            r = f.offset((target - pos + 0.5) / rate)
                            m.event('offsets')
                            m.check(abs(r * rate - (target - pos)) < 1e-6, 'tbx:offset-amount', 'moved %g sets, expected %d' % (r * rate, target - pos))
                            pos = target
                            m.equal(f.get_info('start_time_samples'), t0 + step * pos, 'tbx:offset-start')
                todo -= 1
                if todo:
                    f.reset()
                    m.event('resets')
                    pos = 0
            f.close()


def drspecfile(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import ldp, errors
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        fmt = rng.choice(sorted(F.DRSPEC_FORMATS))
        nf, ni = rng.choice([32, 64, 1024]), rng.choice([100, 6144, 768])
        dec, rate = rng.choice(RATES[3:])
        prods = F.DRSPEC_FORMATS[fmt]
        nset = rng.choice([5, 30, 61])
        step = nf * ni * dec
        t0 = 290000000000000000 + rng.randrange(10**15)
        toff = rng.choice([0, 6660])
        E = np.zeros((2 * len(prods), nset, nf), np.float32)
        raws = []
        fills = (ni, ni, ni, ni)
        for k in range(nset):
            d = g.normal(size=(2, nf, len(prods))).astype(np.float32)
            raws.append(F.drspec(d, timetag=t0 + k * step, time_offset=toff, decimation=dec, fills=fills, fmt=fmt, nfreqs=nf, nints=ni, beam=2))
            fr = d
            E[:len(prods), k] = d[0].T
            E[len(prods):, k] = d[1].T
        split = rng.random() < 0.3
        where = write(m, i, rng, raws, split)
        tint = nf * ni / rate
        bad = None
        if rng.random() < 0.3 and nset > 5 and not split:
            bad = rng.randrange(3, nset)
            with open(where, 'r+b') as fh:
                fh.seek(bad * len(raws[0]))
                fh.write(b'\0')
        with m.case({'i': i, 'kind': 'drspec', 'format': fmt, 'nfreqs': nf, 'nints': ni, 'rate': rate, 'sets': nset, 'split': split, 'bad': bad}):
            f = opener(ldp.DRSpecFile, where)
            f.ignore_timetag_errors = bad is not None
            if not split and bad is None and rng.random() < 0.3:
                f.close()
                f = ldp.LWADataFile(where)
                m.check(type(f) is ldp.DRSpecFile, 'drspec:LWADataFile', 'recognised as %s' % type(f).__name__)
            inf = f.get_info()
            m.equal((inf['beam'], inf['LFFT'], inf['nint'], inf['data_products'], inf['start_time_samples'], inf['nframe']),
                    (2, nf, ni, prods, t0 - toff, nset), 'drspec:info')
            m.close(inf['tint'], tint, 'drspec:info-tint', rtol=1e-12)
            # what a single frame holds is decided elsewhere; here: which frame goes where
            ref = np.zeros_like(E)
            f.reset()
            for k in range(nset):
                if k == bad:
                    f.fh.seek(len(raws[0]), 1)
                    continue
                fr = f.read_frame()
                for j, p in enumerate(prods):
                    ref[j, k] = getattr(fr.payload, p + '0')
                    ref[j + len(prods), k] = getattr(fr.payload, p + '1')
            f.reset()
            m.event('resets')
            keep = [k for k in range(nset) if k != bad]
            pos = 0
            while True:
                k = rng.choice([1, 2, 5]) if rng.random() < 0.7 else rng.choice([nset, nset + 3])
                samples = rng.random() < 0.5
                try:
                    dur, t, data = f.read(k * tint, time_in_samples=samples)
                except errors.EOFError:
                    m.event('eof_seen')
                    m.equal(pos, len(keep), 'drspec:eof-early')
                    break
                m.event('chunks')
                got = int(round(dur / tint))
                if bad is None:
                    ok = got == min(k, nset - pos)
                else:
                    ok = min(k, len(keep) - pos) - 1 <= got <= min(k, len(keep) - pos)
                    if got == 0:
                        m.event('empty_chunks')
                if not m.check(ok, 'drspec:chunk-length', 'asked for %d at %d of %d, got %d' % (k, pos, len(keep), got)):
                    break
                m.event('samples_compared', data[:, :got].size)
                if not m.array_equal(data[:, :got], ref[:, keep[pos:pos + got]], 'drspec:samples'):
                    break
                if got:
                    tg = t if samples else t.dp_timetag
                    m.check(tg == t0 - toff + keep[pos] * step, 'drspec:chunk-time', 'time %d, expected %d' % (tg, t0 - toff + keep[pos] * step))
                pos += got
                if bad is None and rng.random() < 0.1 and pos < nset:
                    target = rng.randrange(0, nset)
                    r = f.offset((target - pos) * tint)
                    m.event('offsets')
                    moved = r / tint
                    m.check(abs(moved - (target - pos)) < 1.01 and abs(moved - round(moved)) < 1e-3, 'drspec:offset-amount', 'moved %g, expected %d' % (moved, target - pos))
                    pos += int(round(moved))
            f.close()


def corfile(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import ldp, errors
    nb = 256 * 257 // 2
    for i in range(m.n(n, 3)):
        rng, g = m.rng(i), m.nprng(i)
        nblk = 2 if (i + m.seed) % 3 == 1 else 1
        c0 = 72 * rng.randrange(1, 20)
        nc, chans, nset = 33, [c0, c0 - 33][:nblk], 3 if nblk == 1 else 2
        low = sorted(chans)
        t0, navg = 290000000000000000, 500
        step = int(navg * 0.01 * 196e6)
        order = [(a, b) for a in range(1, 257) for b in range(a, 257)]
        vis = g.normal(size=(nset, nblk, nb, 2)).astype(np.float32).view(np.complex64)[..., 0]
        lost = set(rng.sample(range(nb), 40))
        bad = rng.randrange(1000, nb)
        raws = []
        for k in range(nset):
            for q, (a, b) in enumerate(order):
                for c in chans:
                    w = low.index(c)
                    if k == 1 and q in lost and w == 0:
                        vis[k, w, q] = 0
                        continue
                    v = np.full((nc, 2, 2), vis[k, w, q], np.complex64)
                    v[-1, 1, 0] = q
                    r = F.cor(v, a, b, frame_count=1 + k, first_chan=c, timetag=t0 + k * step, navg=navg)
                    if k == 1 and q == bad and w == nblk - 1:
                        r = b'\xde\xc0\xde\x5d' + r[4:]
                        vis[k, w, q] = 0
                    raws.append(r)
        where = write(m, i, rng, raws, False)
        del raws
        ring = 1 if nblk == 2 else 5
        with ldp.LDP_CONFIG.set_temp('cor_buffer_size', ring), m.case({'i': i, 'kind': 'cor', 'lost': len(lost), 'bad': bad, 'chans': chans, 'ring': ring}):
            f = ldp.CORFile(where)
            inf = f.get_info()
            m.equal((inf['nchan'], inf['frame_channel_count'], inf['nbaseline'], inf['start_time_samples']), (nc * nblk, nc, nb, t0), 'cor:info')
            m.close(inf['tint'], 5.0, 'cor:info-tint', rtol=1e-12)
            pos = 0
            while True:
                k = rng.choice([1, 2, nset])
                try:
                    dur, t, data = f.read(k * 5.0, time_in_samples=True)
                except errors.EOFError:
                    m.event('eof_seen')
                    m.equal(pos, nset, 'cor:eof-early')
                    break
                m.event('chunks')
                got = int(round(dur / 5.0))
                if not m.check(got == min(k, nset - pos), 'cor:chunk-length', 'asked for %d at %d, got %d' % (k, pos, got)):
                    break
                m.check(t == t0 + pos * step, 'cor:chunk-time', 'time %s' % t)
                cross = np.array([a != b for a, b in order])
                for w in range(nblk):
                    m.array_equal(data[:, w * nc, 0, 0, :got], vis[pos:pos + got, w].T, 'cor:samples')
                    m.array_equal(data[cross, (w + 1) * nc - 1, 1, 0, :got].real, np.where(vis[pos:pos + got, w] != 0, np.arange(nb), 0).T[cross], 'cor:samples')
                m.event('samples_compared', data[..., :got].size)
                pos += got
            f.reset()
            m.event('resets')
            dur, t, data = f.read()
            m.equal(int(round(dur / 5.0)), nset, 'cor:read-all')
            f.reset()
            f.read(5.0)
            f.close()
            os.unlink(where)


JOBS = {'drx%d' % k: (drxfile, 'plain', 30, False) for k in range(3)}
JOBS.update({'drx8%d' % k: (drxfile, 'plain', 20, True) for k in range(2)})
JOBS.update({'tbx%d' % k: (tbxfile, 'plain', 40) for k in range(2)})
JOBS.update({'drspec': (drspecfile, 'plain', 150), 'cor': (corfile, 'plain', 1)})
JOBS.update({'leading': (leading, 'plain', 12, False), 'leading8': (leading, 'plain', 12, True)})
JOBS.update({'biggap': (biggap, 'plain', 40, False), 'biggap8': (biggap, 'plain', 25, True)})
