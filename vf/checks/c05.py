"""C05 - frame buffers: time order, exactly one frame per source, zero fill, conservation."""
RULE = ('a random set of sources and time tags is turned into an arrival sequence with losses, duplicates, bounded and '
        'unbounded reordering and late frames, appended one by one or in batches and drained by get()/flush(); a model of '
        'the arrivals predicts every segment that comes out and the statistics; distinct = distinct arrival sequences with '
        'at least one fault or more segments than the ring holds')
OPTS = {'scale': 12}
NEED = {'segments_out': 2000, 'fills_checked': 500, 'duplicates': 200, 'late_dropped': 100}


def buffers(m, n):
    import copy
    import numpy as np
    from lsl.reader import buffer as B, drx, drx8, tbx, vdif, cor
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        kind = rng.choice(['drx', 'drx8', 'tbx', 'vdif', 'drx', 'drx8', 'tbx', 'vdif', 'cor'])
        nseg = rng.choice([1, 2, 3, 5, 20])
        reorder = rng.random() < 0.5 and kind != 'cor'
        ns = {}
        if kind in ('drx', 'drx8'):
            beams, tunes, pols = rng.sample([1, 2, 3, 4], rng.choice([1, 1, 2])), rng.sample([1, 2], rng.choice([1, 2])), rng.sample([0, 1], rng.choice([1, 2]))
            src = [(b, t, p) for b in beams for t in tunes for p in pols]
            mk = lambda: (B.DRXFrameBuffer if kind == 'drx' else B.DRX8FrameBuffer)(beams=beams, tunes=tunes, pols=pols, nsegments=nseg, reorder=reorder)
            base, step = 290000000000000000 + rng.randrange(10**9), 40960
        elif kind == 'tbx':
            src = sorted(rng.sample(range(0, 4000, 8), rng.randrange(1, 7)))
            mk = lambda: B.TBXFrameBuffer(chans=list(src), nsegments=nseg, reorder=reorder)
            base, step = 290000000000000000, 8192
        elif kind == 'vdif':
            src = sorted(rng.sample(range(1024), rng.randrange(1, 5)))
            mk = lambda: B.VDIFFrameBuffer(threads=list(src), nsegments=nseg, reorder=reorder)
            base, step = 1000, 1
        else:
            chans = sorted(rng.sample(range(0, 4000, 72), rng.randrange(1, 3)))
            sub = sorted(rng.sample(range(1, 257), 3))
            src = [(a, b, c) for a in sub for b in sub if b >= a for c in chans]

            class Small(B.CORFrameBuffer):
                # the production buffer expects all 32896 baselines; the ring logic is the same for fewer stands
                def __init__(self):
                    B.FrameBufferBase.__init__(self, mode='COR', stands=sub, chans=chans, nsegments=nseg)
            mk = Small
            base, step = 290000000000000000, 980000000
        nt = rng.choice([1, 3, 8, 30])

        def frame(k, s, tag):
            v = np.array([tag, -1 - k % 100], np.float32)
            if kind in ('drx', 'drx8'):
                mod = drx if kind == 'drx' else drx8
                did = s[0] | s[1] << 3 | (0x40 if kind == 'drx8' else 0) | s[2] << 7
                data = v.astype(np.complex64)
                if tag % 3 == 0:
                    data = np.array([(3, 4), (5, 6)], dtype=[('re', np.int8), ('im', np.int8)])
                return mod.Frame(mod.FrameHeader(frame_count=tag, drx_id=did, second_count=0, decimation=10, time_offset=0),
                                 mod.FramePayload(timetag=base + k * step, tuning_word=7, flags=0, iq=data))
            if kind == 'tbx':
                return tbx.Frame(tbx.FrameHeader(frame_id=8, frame_count=tag, second_count=0, first_chan=s, nstand=1, nchan=1),
                                 tbx.FramePayload(timetag=base + k * step, fDomain=v.astype(np.complex64)))
            if kind == 'vdif':
                if tag % 7 == 0:
                    v[0] = np.nan
                return vdif.Frame(vdif.FrameHeader(seconds_from_epoch=base + k // 5, frame_in_second=k % 5, thread_id=s, station_id=5, extended_data_1=tag),
                                  vdif.FramePayload(data=v))
            d = np.full((2, 2, 2), tag + 1j, np.complex64)
            if tag % 7 == 0:
                d[0, 0, 0] = np.inf
            return cor.Frame(cor.FrameHeader(adp_id=2, frame_count=tag, second_count=0, first_chan=s[2], gain=0),
                             cor.FramePayload(timetag=base + k * step, navg=100, stand0=s[0], stand1=s[1], vis=d))

        def sid(f):
            return f.id if kind in ('drx', 'drx8') else f.header.first_chan if kind == 'tbx' else f.header.thread_id if kind == 'vdif' else f.id + (f.header.first_chan,)

        def seg(f):
            return ((f.header.seconds_from_epoch - base) * 5 + f.header.frame_in_second) if kind == 'vdif' else (f.payload.timetag - base) // step

        def tagof(f):
            return f.header.extended_data_1 if kind == 'vdif' else f.header.frame_count

        def fom(k):
            return (base + k // 5) * 1000000 + k % 5 if kind == 'vdif' else base + k * step

        ploss, pdup = rng.choice([0, 0.05, 0.3]), rng.choice([0, 0.05, 0.3])
        jitter = rng.choice([0, 0, 1, nseg * len(src) // 2, nseg * len(src) * 3])
        arr = []
        for k in range(nt):
            for s in rng.sample(src, len(src)):
                if rng.random() < ploss:
                    continue
                for _ in range(1 + (rng.random() < pdup) + (rng.random() < pdup / 3)):
                    arr.append((len(arr) + rng.uniform(0, jitter), k, s))
        arr.sort(key=lambda a: a[0])
        arr = [(k, s) for _, k, s in arr]
        policy = rng.choice(['overfilled', 'filled', 'every'])
        batch = rng.choice([1, len(src), 7])
        with m.case({'i': i, 'kind': kind, 'sources': len(src), 'times': nt, 'nsegments': nseg, 'loss': ploss, 'dup': pdup,
                     'jitter': round(jitter), 'policy': policy, 'batch': batch, 'reorder': reorder}, nontrivial=bool(ploss or pdup or jitter or nt > nseg)):
            buf = mk()
            model = {}                       # segment -> {source: first tag}
            dups, late, full, partial, missing, done = 0, 0, 0, 0, 0, -1
            out_segments = []

            def take(frames):
                nonlocal dups, full, partial, missing, done
                k = min(model)
                have, nd = model.pop(k)
                m.event('segments_out')
                frames = list(frames)
                if not m.check(len(frames) == len(src), kind + ':segment-size', '%d frames for %d sources' % (len(frames), len(src))):
                    return
                m.equal(sorted(map(sid, frames)), sorted(src), kind + ':segment-sources')
                for f in frames:
                    m.check(seg(f) == k, kind + ':segment-time', 'frame of time %s in segment %s' % (seg(f), k))
                    s = sid(f)
                    if s in have:
                        m.check(f.valid and tagof(f) == have[s], kind + ':frame-identity', 'source %s: tag %s valid %s, expected %s' % (s, tagof(f), f.valid, have[s]))
                        d = f.payload.data
                        m.check(d.size and (d.dtype.fields is not None or not np.array_equal(d, np.zeros_like(d))), kind + ':frame-data-lost')
                    else:
                        m.event('fills_checked')
                        m.check(not f.valid, kind + ':fill-valid', 'a fill frame is marked valid')
                        d = f.payload.data
                        z = np.zeros_like(d)
                        if kind in ('drx', 'drx8'):
                            m.check(f.is_drx8 if kind == 'drx8' else f.is_drx, kind + ':fill-kind', 'a fill frame of the other format: id byte %#x' % f.header.drx_id)
                            m.check((f.header.decimation, f.payload.tuning_word) == (10, 7), kind + ':fill-header')
                        m.check(np.array_equal(d, z), kind + ':fill-not-zero', 'fill data %s' % d.ravel()[:3])
                if reorder:
                    ids = [sid(f) for f in frames]
                    m.check(ids == sorted(ids), kind + ':reorder', 'order %s' % ids)
                m.check(k > done, kind + ':time-order', 'segment %d after %d' % (k, done))
                done = k
                out_segments.append(k)
                dups += nd
                m.event('duplicates', nd)
                if len(have) == len(src):
                    full += 1
                else:
                    partial += 1
                    missing += len(src) - len(have)

            tag = 0
            pos = 0
            while pos < len(arr):
                fr = []
                exp = True
                for k, s in arr[pos:pos + batch]:
                    tag += 1
                    fr.append(frame(k, s, tag))
                    if k <= done:
                        late += 1
                        exp = False
                        m.event('late_dropped')
                    else:
                        have, nd = model.setdefault(k, [{}, 0])
                        if s in have:
                            model[k][1] += 1
                        else:
                            have[s] = tag
                pos += batch
                r = buf.append(fr if len(fr) > 1 or rng.random() < 0.5 else fr[0])
                m.check(bool(r) == exp, kind + ':append-result', 'returned %r for %s' % (r, 'kept frames' if exp else 'late frames'))
                m.check(buf.filled == (len(model) >= nseg) and buf.overfilled == (len(model) > nseg), kind + ':fill-level')
                m.check(buf.is_empty() == (not model), kind + ':is_empty')
                p = buf.peek(require_filled=False)
                m.check(p == (fom(min(model)) if model else None), kind + ':peek', 'peek %r' % p)
                while (buf.overfilled if policy == 'overfilled' else buf.filled):
                    m.check(buf.peek() == fom(min(model)), kind + ':peek-filled')
                    take(buf.get())
                    if policy == 'every':
                        break
                if not buf.filled:
                    m.check(buf.get() is None, kind + ':get-before-filled', 'get() gave frames before the ring was filled')
            for frames in buf.flush():
                if not model:
                    m.violation(kind + ':extra-segment', 'flush gave more segments than were received')
                    break
                take(frames)
            m.check(not model, kind + ':segments-lost', 'segments %s never came out' % sorted(model))
            m.check(buf.is_empty(), kind + ':not-empty-after-flush')
            m.equal((buf.full, buf.partial, buf.missing, buf.dropped), (full, partial, missing, dups + late), kind + ':statistics')
            # a reset buffer accepts everything again
            buf.reset()
            f = frame(0, src[0], 1)
            m.check(buf.append(f) and not buf.is_empty(), kind + ':reset', 'a frame was refused after reset()')


JOBS = {'buffers%d' % k: (buffers, 'plain', 250) for k in range(6)}
