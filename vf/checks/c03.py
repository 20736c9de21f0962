"""C03 - sequential reading: every frame once, in order, errors at the right place, whatever was read before."""
import io, os

RULE = ('several streams (random format, mode, length; some with a truncated last frame or a corrupted sync word) are read '
        'frame by frame through interleaved handles in one process, so every read happens after a random history of other '
        'formats, modes and errors; a model of each stream predicts the outcome of each read; distinct = distinct '
        '(format, mode, history, fault) tuples')
OPTS = {'scale': 10}
NEED = {'reads_ok': 1000, 'reads_sync': 50, 'reads_eof': 100, 'summaries': 200}


def _make(rng, g, np, F, kind=None):
    """-> (kind, reader name, list of (bytes, key fields))"""
    kind = kind or rng.choice(['drx', 'drx8', 'tbx', 'cor', 'vdif', 'drspec', 'tbx', 'cor'])
    n = rng.choice([1, 1, 2, 3, 5, 8])
    out = []
    mode = None
    tt0 = 290000000000000000 + rng.randrange(10**12)
    for k in range(n):
        tt = tt0 + k * 4096 * 10
        if kind == 'drx':
            re, im = g.integers(-8, 8, 4096), g.integers(-8, 8, 4096)
            out.append((F.drx(re, im, 1, 1, k % 2, timetag=tt, frame_count=k), (tt, k), re + 1j * im))
        elif kind == 'drx8':
            re, im = g.integers(-128, 128, 4096), g.integers(-128, 128, 4096)
            out.append((F.drx8(re, im, 1, 1, k % 2, timetag=tt, frame_count=k), (tt, k), re + 1j * im))
        elif kind == 'tbx':
            if mode is None or rng.random() < 0.1:
                mode = (rng.choice([64, 128, 256]), rng.choice([4, 8, 12, 16]))
            sh = (mode[1], mode[0], 2)
            re, im = g.integers(-8, 8, sh), g.integers(-8, 8, sh)
            out.append((F.tbx(re, im, mode[0], mode[1], timetag=tt, frame_count=k), (tt, k), re + 1j * im))
        elif kind == 'cor':
            mode = mode or rng.choice([33, 72, 112, 192])
            v = (g.normal(size=(mode, 2, 2)) + 1j * g.normal(size=(mode, 2, 2))).astype(np.complex64)
            out.append((F.cor(v, 1, 2, timetag=tt, frame_count=k), (tt, k), v))
        elif kind == 'vdif':
            nb = rng.choice([64, 128, 1024]) if mode is None or rng.random() < 0.2 else mode
            mode = nb
            p = g.bytes(nb)
            lv = F.vdif_levels(p, 4, False)
            out.append((F.vdif(p, seconds=100, frame_in_second=k, bits=4, is_complex=1), (100, k), (lv[0::2] + 1j * lv[1::2]).astype(np.complex64)))
        else:
            if mode is None or rng.random() < 0.2:
                mode = (rng.choice([16, 32, 1024]), rng.choice([0x09, 0x01, 0xF0, 0x90]))
            np_ = len(F.DRSPEC_FORMATS[mode[1]])
            d = g.normal(size=(2, mode[0], np_)).astype(np.float32)
            out.append((F.drspec(d, timetag=tt, fmt=mode[1], nfreqs=mode[0], fills=(1, 1, 1, 1), nints=k), (tt, k), d / np.float32(mode[0])))
    return kind, mode, out


def _key(kind, fr):
    if kind == 'vdif':
        return (fr.header.seconds_from_epoch, fr.header.frame_in_second)
    if kind == 'drspec':
        return (fr.payload.timetag, fr.header.nints)
    return (fr.payload.timetag, fr.header.frame_count)


def _data(kind, fr, np):
    if kind == 'drspec':
        return np.array([[getattr(fr.payload, p + t) for p in fr.data_products] for t in '01']).transpose(0, 2, 1)
    return fr.payload.data


def streams(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import drx, drx8, tbx, cor, vdif, drspec
    from lsl.reader.errors import SyncError, EOFError
    mods = dict(drx=drx, drx8=drx8, tbx=tbx, cor=cor, vdif=vdif, drspec=drspec)
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        st = []
        for _ in range(rng.randrange(2, 5)):
            kind, mode, fl = _make(rng, g, np, F)
            fault = rng.choice([None, None, 'trunc', 'sync'])
            if fault == 'sync' and kind in ('vdif',):
                fault = None
            raws = [f[0] for f in fl]
            bad = None
            if fault == 'trunc':
                cut = rng.choice([1, 2, len(raws[-1]) - 1, rng.randrange(1, len(raws[-1]))])
                if kind == 'cor':
                    # the format carries no frame length: only a stub shorter than any frame is certainly incomplete
                    cut = len(raws[-1]) - rng.randrange(32, 1000)
                raws[-1] = raws[-1][:len(raws[-1]) - cut]
            elif fault == 'sync':
                bad = rng.randrange(len(raws))
                b = bytearray(raws[bad])
                b[rng.randrange(4)] ^= 1 << rng.randrange(8)
                raws[bad] = bytes(b)
            if kind == 'cor' and fault:
                # without an in-frame length, the frame boundary is only defined by intact neighbours
                if fault == 'sync' and bad > 0:
                    fault, bad = None, None
                    raws = [f[0] for f in fl]
            starts = [sum(len(r) for r in raws[:k]) for k in range(len(raws) + 1)]
            st.append(dict(kind=kind, mode=mode, fl=fl, fault=fault, bad=bad, fh=io.BytesIO(b''.join(raws)), k=0, starts=starts,
                           lens=[len(f[0]) for f in fl], done=False))
        with m.case({'i': i, 'streams': [(s['kind'], s['mode'], len(s['fl']), s['fault'], s['bad']) for s in st]}):
            while any(not s['done'] for s in st):
                s = rng.choice([s for s in st if not s['done']])
                kind, k, fh = s['kind'], s['k'], s['fh']
                mod = mods[kind]
                name = 'read_frame'
                if kind in ('drx', 'drx8', 'tbx') and rng.random() < 0.3:
                    name = 'read_frame_ci8'
                start = s['starts'][k]
                m.check(fh.tell() == start, kind + ':position-before', 'at %d, expected %d' % (fh.tell(), start))
                try:
                    fr = getattr(mod, name)(fh)
                    out = 'ok'
                except SyncError as e:
                    out, err = 'sync', e
                except EOFError:
                    out = 'eof'
                last = k == len(s['fl'])
                if last:
                    want = 'eof'
                elif s['fault'] == 'trunc' and k == len(s['fl']) - 1:
                    want = 'eof'
                elif s['fault'] == 'sync' and k == s['bad']:
                    want = 'sync'
                    if kind == 'tbx' and out == 'eof' and s['starts'][-1] - start < 8224:
                        # a header that cannot be trusted, and less data than the largest frame: either error is right
                        m.event('reads_sync_or_eof')
                        s['done'] = True
                        continue
                else:
                    want = 'ok'
                m.event('reads_' + out)
                if not m.check(out == want, '%s:outcome:%s-instead-of-%s' % (kind, out, want),
                               'frame %d of %d, fault %s at %s, mode %s' % (k, len(s['fl']), s['fault'], s['bad'], s['mode'])):
                    s['done'] = True
                    continue
                if out == 'ok':
                    m.equal(_key(kind, fr), s['fl'][k][1], kind + ':wrong-frame')
                    d = _data(kind, fr, np)
                    if name == 'read_frame_ci8':
                        d = (d['re'] + 1j * d['im']).reshape(s['fl'][k][2].shape)
                    if kind in ('vdif', 'drspec'):
                        m.close(d, s['fl'][k][2], kind + ':data', rtol=3e-7)
                    else:
                        m.array_equal(d, s['fl'][k][2], kind + ':data')
                    m.check(fh.tell() == s['starts'][k + 1], kind + ':position-after', 'at %d, expected %d' % (fh.tell(), s['starts'][k + 1]))
                    s['k'] += 1
                elif out == 'sync':
                    # DRX and DRX8 leave the handle behind the bad frame, the others at its start
                    pos = start + s['lens'][k] if kind in ('drx', 'drx8') else start
                    m.check(fh.tell() == pos, kind + ':position-after-sync-error', 'at %d, expected %d' % (fh.tell(), pos))
                    m.check(str(start) in str(err), kind + ':sync-error-location', 'message %r does not name %d' % (str(err), start))
                    fh.seek(s['starts'][k + 1])
                    s['k'] += 1
                    s['fault'] = None
                else:
                    s['done'] = True


def summaries(m, n):
    """The get_* helpers report what the file holds from the current position on and do not move it."""
    import numpy as np
    from vf import frames as F
    from lsl.reader import drx, drx8, tbx, cor, vdif, drspec
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        kind = rng.choice(['drx', 'drx8', 'tbx', 'cor', 'vdif', 'drspec'])
        z = np.zeros(4096, int)
        tt = 290000000000000000
        pre = rng.choice([0, 1, 2])
        with m.case({'i': i, 'kind': kind, 'pre': pre}):
            if kind in ('drx', 'drx8'):
                mod, enc = (drx, F.drx) if kind == 'drx' else (drx8, F.drx8)
                ids = {}
                for b in rng.sample([1, 2, 3, 4], rng.randrange(1, 5)):
                    ids[b] = rng.sample([(1, 0), (1, 1), (2, 0), (2, 1)], rng.randrange(1, 5))
                flat = [(b, t, p) for b in ids for t, p in ids[b]]
                rng.shuffle(flat)
                dec, code = rng.choice([(784, 1), (392, 2), (196, 3), (98, 4), (40, 5), (20, 6), (10, 7)])
                fr = [enc(z, z, *flat[k % len(flat)], timetag=tt, decimation=dec) for k in range(40 + pre)]
                fh = io.BytesIO(b''.join(fr))
                p0 = pre * len(fr[0])
                fh.seek(p0)
                m.equal(mod.get_sample_rate(fh), 196e6 / dec, kind + ':get_sample_rate')
                m.equal(mod.get_sample_rate(fh, filter_code=True), code, kind + ':get_sample_rate-code')
                m.equal(mod.get_beam_count(fh), len(ids), kind + ':get_beam_count')
                m.equal(mod.get_frames_per_obs(fh), tuple(len(ids.get(b, [])) for b in (1, 2, 3, 4)), kind + ':get_frames_per_obs')
                m.event('summaries', 4)
            elif kind == 'tbx':
                ns, nc = rng.choice([64, 128, 256]), rng.choice([4, 8, 12, 16])
                chans = sorted(rng.sample(range(0, 4000, nc), rng.randrange(1, 9)))
                order = list(chans)
                rng.shuffle(order)
                zz = np.zeros((nc, ns, 2), int)
                c0 = rng.randrange(1, 1000)
                fr = [F.tbx(zz, zz, ns, nc, first_chan=order[k % len(order)], frame_count=c0 + k // len(order), timetag=tt)
                      for k in range(3 * len(order) + pre)]
                fh = io.BytesIO(b''.join(fr))
                p0 = pre * len(fr[0])
                fh.seek(p0)
                m.equal(tbx.get_frame_size(fh), len(fr[0]), 'tbx:get_frame_size')
                m.equal(tbx.get_frames_per_obs(fh), len(chans), 'tbx:get_frames_per_obs')
                m.equal(tbx.get_first_frame_count(fh), c0 + pre // len(order), 'tbx:get_first_frame_count')
                m.equal(tbx.get_channel_count(fh), len(chans) * nc, 'tbx:get_channel_count')
                m.equal(tbx.get_first_channel(fh), chans[0], 'tbx:get_first_channel')
                m.equal(tbx.get_first_channel(fh, all_frames=True), chans, 'tbx:get_first_channel-all')
                m.close(tbx.get_first_channel(fh, frequency=True, all_frames=True), np.array(chans) * 196e6 / 8192,
                        'tbx:get_first_channel-freq', rtol=2e-7)
                m.event('summaries', 7)
            elif kind == 'cor':
                nc = rng.choice([33, 72, 112, 192])
                chans = sorted(rng.sample(range(0, 4000, nc), rng.randrange(1, 5)))
                fr = [F.cor(np.zeros((nc, 2, 2)), 1, 1 + k // len(chans), first_chan=chans[k % len(chans)], timetag=tt)
                      for k in range(rng.choice([len(chans), 30]) + pre)]
                fh = io.BytesIO(b''.join(fr))
                p0 = pre * len(fr[0])
                fh.seek(p0)
                m.equal(cor.get_frame_size(fh), len(fr[0]), 'cor:get_frame_size')
                m.equal(cor.get_channel_count(fh), len(chans) * nc, 'cor:get_channel_count')
                m.equal(cor.get_frames_per_obs(fh), len(chans) * 256 * 257 // 2, 'cor:get_frames_per_obs')
                m.equal(cor.get_baseline_count(fh), 256 * 257 // 2, 'cor:get_baseline_count')
                m.equal(cor.get_first_channel(fh), chans[0], 'cor:get_first_channel')
                m.equal(cor.get_first_channel(fh, all_frames=True), chans, 'cor:get_first_channel-all')
                m.event('summaries', 6)
            elif kind == 'vdif':
                nth = rng.randrange(1, 4)
                fps = rng.choice([1, 2, 5, 10])
                nb = rng.choice([64, 256])
                cplx = rng.randrange(2)
                bits = rng.choice([1, 2, 4, 8])
                f0 = rng.randrange(fps)
                fr = []
                for k in range(f0, f0 + 3 * fps + 1):
                    for t in range(nth):
                        fr.append(F.vdif(g.bytes(nb), seconds=50 + k // fps, frame_in_second=k % fps, thread=t, bits=bits, is_complex=cplx))
                fh = io.BytesIO(b''.join(fr))
                p0 = 0
                m.equal(vdif.get_frame_size(fh), len(fr[0]), 'vdif:get_frame_size')
                m.equal(vdif.get_thread_count(fh), nth, 'vdif:get_thread_count')
                if fps > 1 and f0 < fps - 1:
                    # frames of the first second after its first set exist, so the counter's last value is seen
                    m.equal(vdif.get_frames_per_second(fh), fps, 'vdif:get_frames_per_second')
                    m.equal(vdif.get_sample_rate(fh), float(fps * nb * 8 // bits // (1 + cplx)), 'vdif:get_sample_rate')
                m.event('summaries', 4)
            else:
                fmt = rng.choice(sorted(F.DRSPEC_FORMATS))
                nf, ni, dec = rng.choice([16, 64, 1024]), rng.randrange(1, 9999), rng.choice([10, 20, 40])
                fr = [F.drspec(np.ones((2, nf, len(F.DRSPEC_FORMATS[fmt]))), timetag=tt, fmt=fmt, nfreqs=nf, nints=ni, decimation=dec)
                      for _ in range(1 + pre)]
                fh = io.BytesIO(b''.join(fr))
                p0 = pre * len(fr[0])
                fh.seek(p0)
                m.equal(drspec.get_data_products(fh), F.DRSPEC_FORMATS[fmt], 'drspec:get_data_products')
                m.equal(drspec.is_linear(fh), fmt < 16, 'drspec:is_linear')
                m.equal(drspec.is_stokes(fh), fmt > 15, 'drspec:is_stokes')
                m.equal(drspec.get_sample_rate(fh), 196e6 / dec, 'drspec:get_sample_rate')
                m.equal(drspec.get_frame_size(fh), len(fr[0]), 'drspec:get_frame_size')
                m.equal(drspec.get_ffts_per_integration(fh), ni, 'drspec:get_ffts_per_integration')
                m.equal(drspec.get_transform_size(fh), nf, 'drspec:get_transform_size')
                m.close(drspec.get_integration_time(fh), nf * ni * dec / 196e6, 'drspec:get_integration_time', rtol=1e-12)
                m.event('summaries', 8)
            m.equal(fh.tell(), p0, kind + ':summary-moved-handle')


JOBS = {'streams%d' % k: (streams, 'plain', 250) for k in range(4)}
JOBS.update({'summaries%d' % k: (summaries, 'plain', 120) for k in range(2)})
