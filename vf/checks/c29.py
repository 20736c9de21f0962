"""C29 - simulated frames, VDIF frames and SDFITS files hold what was asked for."""
import io
import os

RULE = ('random DRX and VDIF frames (all identifiers, rates, bit depths, times around second and epoch boundaries, extreme samples) written by the simulator and the VDIF writer and taken apart by an '
        'independent decoder and by the LSL readers; random spectrometer runs (beams, polarizations, time forms, shuffled order, short integrations) written to SDFITS and read back with astropy; distinct = distinct cases')
OPTS = {'scale': 4}
NEED = {'drx': 100, 'refused': 50, 'signal': 6, 'vdif': 100, 'sdfits': 20}
RATES = {1: 250000, 2: 500000, 3: 1000000, 4: 2000000, 5: 4900000, 6: 9800000, 7: 19600000}
FS = 196000000
LEAP = (13148, 14244, 15521, 16616, 17166)      # Unix days that ended in a leap second; smeared by astropy, not judged


def _frame_bytes(raw):
    import numpy as np
    b = np.frombuffer(bytes(raw), dtype=np.uint8)
    i = (b[32:] >> 4).astype(int)
    q = (b[32:] & 15).astype(int)
    i[i > 7] -= 16
    q[q > 7] -= 16
    return b, i, q


def _be(b, k, n):
    return int.from_bytes(bytes(b[k:k + n]), 'big')


def _clip(x):
    import numpy as np
    return np.clip(np.rint(x), -8, 7).astype(int)


def drx_frames(m, n):
    """SimFrame -> bytes -> independent decoder and reader."""
    import numpy as np
    from lsl.sim import drx as S
    from lsl.reader import drx as R
    from lsl.reader.base import CI8
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        beam, tune, pol = rng.randint(1, 4), rng.randint(1, 2), rng.randint(0, 1)
        dec = FS // RATES[rng.randint(1, 7)]
        to = rng.choice([0, 1, 100, 65535, rng.randrange(65536)])
        tt = rng.choice([0, 1, FS, 2 ** 32, 2 ** 40 - 1, rng.randrange(2 ** 40, 2 ** 60), 1700000000 * FS + rng.randrange(FS)])
        flags = rng.choice([0, 1, 2 ** 31, 2 ** 32 - 1, rng.randrange(2 ** 32)])
        kind = rng.choice(['c64', 'c64', 'c128', 'ci8'])
        if kind == 'ci8':
            data = np.zeros(4096, dtype=CI8)
            data['re'] = nr.integers(-8, 8, 4096)
            data['im'] = nr.integers(-8, 8, 4096)
            re, im = data['re'].astype(int), data['im'].astype(int)
        else:
            s = rng.choice([0.4, 3.0, 8.0, 40.0, 3e4])
            x = nr.normal(size=4096) * s + 1j * nr.normal(size=4096) * s
            f = np.abs(x.real - np.floor(x.real) - 0.5) < 1e-3
            g = np.abs(x.imag - np.floor(x.imag) - 0.5) < 1e-3
            x[f | g] = rng.choice([-9, -8, -7.4, 0, 6.6, 7, 7.4, 8, 15, -16]) + 1j * rng.choice([-8, 7, 8, -9, 0])
            data = x.astype(np.complex64 if kind == 'c64' else np.complex128)
            re, im = _clip(data.real), _clip(data.imag)
        before = data.copy()
        late = rng.random() < 0.3
        with m.case({'id': (beam, tune, pol), 'dec': dec, 'to': to, 'tt': tt, 'flags': flags, 'kind': kind, 'late': late}):
            m.event('drx')
            if late:
                fr = S.SimFrame()
                fr.beam, fr.tune, fr.pol, fr.decimation, fr.time_offset = beam, tune, pol, dec, to
                fr.frame_count, fr.obs_time, fr.flags, fr.data = rng.randrange(1000), tt, flags, data
            else:
                fr = S.SimFrame(beam=beam, tune=tune, pol=pol, decimation=dec, time_offset=to, frame_count=rng.randrange(1000), obs_time=tt, flags=flags, data=data)
            m.check(fr.is_valid(), 'drx:valid', 'a proper frame is called invalid')
            raw = fr.create_raw_frame()
            m.check(raw.size == 4128 and raw.dtype == np.uint8, 'drx:size', '%s %s' % (raw.size, raw.dtype))
            b, i, q = _frame_bytes(raw)
            m.equal(_be(b, 0, 4), 0xDEC0DE5C, 'drx:sync')
            m.equal((int(b[4]) & 7, int(b[4]) >> 3 & 7, int(b[4]) >> 7), (beam, tune, pol), 'drx:id')
            m.equal((_be(b, 12, 2), _be(b, 14, 2), _be(b, 16, 8), _be(b, 28, 4)), (dec, to, tt, flags), 'drx:header')
            m.array_equal(i, re, 'drx:samples')
            m.array_equal(q, im, 'drx:samples')
            m.check(data.tobytes() == before.tobytes(), 'drx:input-changed', 'the samples of the caller changed')
            m.check(fr.create_raw_frame().tobytes() == raw.tobytes(), 'drx:repeat', 'the second rendering differs')
            # through a file and the reader
            path = os.path.join(m.scratch, 'f%d.drx' % k)
            with open(path, 'wb') as fh:
                fr.write_raw_frame(fh)
                fr.write_raw_frame(fh)
            with open(path, 'rb') as fh:
                m.equal(os.path.getsize(path), 2 * 4128, 'drx:file')
                rd = R.read_frame(fh)
                rc = R.read_frame_ci8(fh)
            os.unlink(path)
            m.equal(tuple(rd.id), (beam, tune, pol), 'drx:read-id')
            m.equal((rd.payload.timetag, rd.header.time_offset, rd.header.decimation, rd.payload.flags), (tt, to, dec, flags), 'drx:read-header')
            m.array_equal(rd.payload.data, (re + 1j * im).astype(np.complex64), 'drx:read-samples')
            m.array_equal(rc.payload.data['re'], re.astype(np.int8), 'drx:read-samples')
            # back through load_frame
            word = rng.randrange(2 ** 32)
            b2 = np.array(b)
            b2[24:28] = np.frombuffer(word.to_bytes(4, 'big'), np.uint8)
            src = (R.read_frame if rng.random() < 0.5 else R.read_frame_ci8)(io.BytesIO(b2.tobytes()))
            lf = S.SimFrame()
            lf.load_frame(src)
            out = lf.create_raw_frame()
            m.check(out.tobytes() == b2.tobytes(), 'drx:load', 'a loaded frame is written differently: header bytes %s' % np.where(np.asarray(out[:32]) != b2[:32])[0].tolist())


def drx_refuse(m, n):
    """Frames that are not compliant are never written."""
    import numpy as np
    from lsl.sim import drx as S
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        base = dict(beam=rng.randint(1, 4), tune=rng.randint(1, 2), pol=rng.randint(0, 1), decimation=10, time_offset=0, frame_count=1, obs_time=rng.randrange(2 ** 50), flags=0,
                    data=np.zeros(4096, dtype=np.complex64))
        what = rng.choice(['beam', 'tune', 'length', 'type', 'none', 'offset'])
        if what == 'beam':
            base['beam'] = rng.choice([0, 5, 6, 7])
        elif what == 'tune':
            base['tune'] = rng.choice([0, 3, 4, 7])
        elif what == 'length':
            base['data'] = np.zeros(rng.choice([0, 1, 4095, 4097, 512, 8192]), dtype=np.complex64)
        elif what == 'type':
            base['data'] = np.zeros(4096, dtype=rng.choice(['f4', 'i1', 'f8', 'u1']))
        elif what == 'none':
            base['data'] = None
        else:
            base['time_offset'] = rng.choice([FS, FS + 1, 2 * FS])
        with m.case({'what': what, 'k': k, 'v': str({a: b for a, b in base.items() if a != 'data'})}):
            m.event('refused')
            fr = S.SimFrame(**base)
            m.check(fr.is_valid() is False, 'refuse:valid', '%s: called valid' % what)
            path = os.path.join(m.scratch, 'r%d.drx' % k)
            with open(path, 'wb') as fh:
                m.raises(ValueError, lambda: fr.write_raw_frame(fh), 'refuse:written', what)
            m.equal(os.path.getsize(path), 0, 'refuse:bytes')
            os.unlink(path)


def signal(m, n):
    """basic_signal() gives the tones it documents, on every beam, continuous in time."""
    import numpy as np
    from lsl.sim import ndp as N
    for k in range(m.n(n)):
        rng = m.rng(k)
        np.random.seed(m.nprng(k).integers(2 ** 31))
        filt = rng.randint(1, 7)
        beams = rng.choice([[1], [2, 4], [3], [1, 2, 3, 4]])
        nf, nt = rng.randint(1, 6), rng.randint(1, 2)
        t0 = rng.choice([1.0, 1e6 + 0.25, 1700000000.5, float(rng.randrange(10 ** 9, 2 * 10 ** 9)) + rng.random()])
        ns = rng.choice([0.0, 0.05, 0.2])
        path = os.path.join(m.scratch, 's%d.drx' % k)
        with m.case({'filter': filt, 'beams': beams, 'nf': nf, 'nt': nt, 't0': t0, 'noise': ns}):
            m.event('signal')
            with open(path, 'wb') as fh:
                N.basic_signal(fh, beams, nf, mode='DRX', filter=filt, ntuning=nt, start_time=t0, noise_strength=ns)
            raw = open(path, 'rb').read()
            os.unlink(path)
            m.equal(len(raw), 4128 * nf * len(beams) * nt * 2, 'signal:count')
            got = {}
            for f in range(len(raw) // 4128):
                b, i, q = _frame_bytes(raw[f * 4128:(f + 1) * 4128])
                key = (int(b[4]) & 7, int(b[4]) >> 3 & 7, int(b[4]) >> 7)
                m.equal(_be(b, 12, 2), FS // RATES[filt], 'signal:decimation')
                got.setdefault(key, []).append((_be(b, 16, 8), i + 1j * q))
            m.equal(sorted(got), sorted((b, t, p) for b in beams for t in range(1, nt + 1) for p in (0, 1)), 'signal:streams')
            for (b, t, p), v in got.items():
                tags = [x[0] for x in v]
                m.check(abs(tags[0] - t0 * FS) <= max(1, t0 * FS * 3e-16), 'signal:start', '%d, asked for %.1f' % (tags[0], t0 * FS))
                m.equal(tags, [tags[0] + f * 4096 * (FS // RATES[filt]) for f in range(nf)], 'signal:tags')
                x = np.concatenate([y for _, y in v])
                fr = (0.25 if p == 0 else -0.25) if t == 1 else (-1 / 3 if p == 0 else 1 / 3)
                w = x * np.exp(-2j * np.pi * fr * np.arange(x.size))
                m.check(abs(w.mean()) > 0.85 * 7 and abs(w.mean()) < 1.15 * 7, 'signal:tone', 'tuning %d pol. %d: amplitude %.2f at %.3f of the rate over %d frames' % (t, p, abs(w.mean()), fr, nf))
                rest = np.std(x - np.round(w.mean() * np.exp(2j * np.pi * fr * np.arange(x.size)), 6))
                if ns == 0:
                    m.check(rest < 0.9, 'signal:rest', 'noise of %.2f without noise' % rest)
                else:
                    m.check(rest < 1.6 * (7 * ns * 2 ** 0.5) + 0.9, 'signal:rest', 'noise of %.2f for a strength of %.2f' % (rest, ns))
    m.raises(RuntimeError, lambda: N.basic_signal(io.BytesIO(), [1], 1, mode='TBN'), 'signal:mode', 'unknown mode')


def _epoch(sec):
    """Unix second -> VDIF epoch and seconds into it, as UTC days (leap second free range)"""
    import datetime
    d = datetime.datetime(1970, 1, 1) + datetime.timedelta(seconds=sec)
    ref = datetime.datetime(d.year, 1 if d.month < 7 else 7, 1)
    return 2 * (d.year - 2000) + (d.month > 6), int((d - ref).total_seconds())


def vdif(m, n):
    import calendar
    import numpy as np
    from lsl.writer.vdif import Frame
    from lsl.reader import vdif as R
    from vf import frames as F
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        bits = rng.choice([1, 2, 4, 8])
        cplx = rng.random() < 0.6
        per = 64 // bits                        # values per eight bytes
        nval = per * rng.choice([1, 4, 8, 20, 50])
        ns = nval // 2 if cplx else nval
        fps = rng.choice([1, 2, 25, 100, 1000, 6250, 25600])
        rate = ns * fps
        lo, hi = -2 ** (bits - 1), 2 ** (bits - 1) - 1
        v = nr.integers(lo, hi + 1, size=nval)
        if rng.random() < 0.2:
            v[:] = rng.choice([lo, hi])
        dt = rng.choice(['i1', 'i2', 'i4', 'f4', 'f8']) if not cplx else rng.choice(['c8', 'c16'])
        data = (v[0::2] + 1j * v[1::2]).astype(dt) if cplx else v.astype(dt)
        if rng.random() < 0.15:
            data = data.reshape(1, -1)
        year = rng.randint(2000, 2031)
        t = rng.random()
        if t < 0.35:                            # about an epoch boundary
            sec = calendar.timegm((year, rng.choice([1, 7]), 1, 0, 0, 0)) + rng.choice([0, 1, -1, -2, 5])
            if sec < calendar.timegm((2000, 1, 1, 0, 0, 0)):
                sec += 10
        else:
            sec = calendar.timegm((year, rng.randint(1, 12), rng.randint(1, 28), rng.randint(0, 23), rng.randint(0, 59), rng.randint(0, 59)))
        if sec // 86400 in LEAP or (sec - 1) // 86400 in LEAP:
            sec -= 3 * 86400
        fr = rng.choice([0, fps - 1, fps // 2, rng.randrange(fps)])
        frac = fr / fps
        form = rng.choice(['tuple', 'tuple', 'float', 'jitter'])
        if form == 'float' and fps > 1000:
            form = 'tuple'
        if form == 'tuple':
            when = (sec, frac)
        elif form == 'float':
            when = float(sec + frac)
        else:
            when = (sec, frac + rng.uniform(-0.2, 0.2) / fps)
            if when[1] < 0:
                when = (sec - 1, 1 + when[1])
        stand = rng.choice([0, 1, 256, 65535, rng.randrange(65536)])
        ep, es = _epoch(sec)
        with m.case({'bits': bits, 'cplx': cplx, 'n': ns, 'fps': fps, 'when': when, 'stand': stand, 'dt': dt}):
            m.event('vdif')
            before = data.copy()
            f = Frame(stand, when, bits, data, rate)
            raw = f.create_raw_frame()
            m.check(np.array_equal(before, data), 'vdif:input-changed', 'the samples of the caller changed')
            b = bytes(raw)
            m.equal(len(b), 32 + nval * bits // 8, 'vdif:length')
            w = [int.from_bytes(b[4 * j:4 * j + 4], 'little') for j in range(8)]
            # a leap second inside of the half year (none after 2016-12-31 23:59:60)
            m.check(w[0] >> 30 == 0, 'vdif:flags', hex(w[0]))
            got = (w[1] >> 24 & 63, w[0] & (2 ** 30 - 1), w[1] & (2 ** 24 - 1))
            base = calendar.timegm((2000 + got[0] // 2, 7 if got[0] % 2 else 1, 1, 0, 0, 0))
            m.equal((base + got[1], got[2]), (sec, fr), 'vdif:time')
            m.check(got[0] == ep or got[1] >= 181 * 86400, 'vdif:epoch', 'epoch %d for %d' % (got[0], ep))
            m.equal(w[2], (1 << 30) | len(b) // 8, 'vdif:word2')
            m.equal(w[3], (int(cplx) << 31) | (bits - 1) << 26 | stand, 'vdif:word3')
            m.equal(w[4] >> 24, 1, 'vdif:edv')
            if rate % 1000 == 0:
                m.equal(w[4] & (2 ** 23 - 1), rate // 1000, 'vdif:rate')
            raw2 = np.frombuffer(b[32:], np.uint8)
            per8 = 8 // bits
            codes = np.stack([(raw2 >> (bits * j)) & ((1 << bits) - 1) for j in range(per8)], axis=1).reshape(-1).astype(int)
            m.array_equal(codes, v - lo, 'vdif:codes')
            # through a file and the reader
            path = os.path.join(m.scratch, 'v%d' % k)
            with open(path, 'wb') as fh:
                f.write_raw_frame(fh)
            with open(path, 'rb') as fh:
                r = R.read_frame(fh, sample_rate=float(rate))
            os.unlink(path)
            lv = F.vdif_levels(b[32:], bits, False)
            if cplx:
                lv = (lv[0::2] + 1j * lv[1::2])
            m.close(r.payload.data, lv, 'vdif:read-samples', rtol=1e-6)
            m.equal(r.header.station_id, stand, 'vdif:read-station')
            if got[0] == ep:
                dt_ = (r.time.unix - sec) - frac
                m.check(abs(dt_) < max(1e-6, 1e-3 / fps), 'vdif:read-time', '%.7f s off' % dt_)
    for bits in (0, 3, 5, 16, 32, -1):
        m.raises(ValueError, lambda: Frame(1, 1e9, bits, np.zeros(64, np.int8), 1000), 'vdif:bits', 'bit depth of %d' % bits)


def sdfits(m, n):
    import numpy as np
    from astropy.io import fits
    from astropy.time import Time, TimeDelta
    from lsl.writer import sdfits as W
    from lsl.reader.base import FrameTimestamp
    from lsl.common import stations

    class Beam(object):
        def __init__(self, i):
            self.id = i

        def __lt__(self, other):
            return self.id < other.id

    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        nchan = rng.choice([2, 3, 16, 64])
        pols = rng.choice([['XX'], ['XX', 'YY'], ['YY'], ['I'], ['I', 'Q', 'U', 'V'], ['I', 'Q'], ['XX', 'YY', 'XY', 'YX'], ['RR', 'LL'], ['RR', 'LL', 'RL', 'LR']])
        order = list(pols)
        rng.shuffle(order)
        nint = rng.randint(1, 6)
        step = rng.choice([0.04, 0.5, 1.0, 61.0, 5e-3])
        t0 = Time(rng.choice([60000.0, 59999.99999, 58849.0 - 1e-6, rng.uniform(51600, 60000)]), format='mjd', scale='utc')
        f0, cw = rng.choice([10e6, 38.1e6, 73.2e6]), rng.choice([1e3, 4785.15625, 100e3])
        beams = [Beam(i) for i in rng.sample(range(1, 6), rng.randint(1, 3))]
        exposure = step * rng.choice([1, 0.5])
        path = os.path.join(m.scratch, 'd%d.fits' % k)
        form = rng.choice(['tai', 'tai', 'frame', 'astro'])
        site = rng.choice([stations.lwa1, stations.lwasv])
        with m.case({'nchan': nchan, 'pols': order, 'nint': nint, 'step': step, 't0': t0.mjd, 'form': form, 'beams': [b.id for b in beams], 'f0': f0, 'cw': cw}):
            m.event('sdfits')
            sd = W.Sd(path)
            m.raises(IOError, lambda: W.Sd(path) if os.path.exists(path) else (_ for _ in ()).throw(IOError()), 'sdfits:overwrite', 'existing file')
            sd.set_site(site)
            sd.set_stokes(order)
            sd.set_frequency(f0 + cw * np.arange(nchan))
            sd.set_observer('Jane %d' % k, 'P%d' % k, 'ZEN')
            if rng.random() < 0.5:
                sd.add_comment('a comment %d' % k)
                sd.add_comment('another')
                sd.add_history('history %d' % k)
                sd.add_header_keyword('VFKEY', k, comment='c')
                extra = True
            else:
                extra = False
            entries, truth = [], {}
            for i in range(nint):
                t = t0 + TimeDelta(i * step, format='sec')
                when = t.tai.mjd if form == 'tai' else (FrameTimestamp.from_astropy(t) if form == 'frame' else t)
                use = [b for b in beams if rng.random() < 0.8] or beams[:1]
                for p in pols:
                    d = nr.normal(size=(len(use), nchan)).astype(rng.choice(['f4', 'f8']))
                    entries.append((when, exposure, list(use), d, p))
                    for j, b in enumerate(use):
                        truth[(i, b.id, p)] = d[j].astype('f4')
            shuffled = rng.random() < 0.6
            if shuffled:
                rng.shuffle(entries)
            for w, e, u, d, p in entries:
                sd.add_data_set(w, e, u, d, pol=p if rng.random() < 0.8 else W.STOKES_CODES[p])
            sd.write()
            sd.close()
            with fits.open(path) as h:
                ph, tb = h[0].header, h['SINGLE DISH']
                hd, rows = tb.header, tb.data
                m.equal((ph['TELESCOP'], hd['OBSERVER'], hd['PROJID']), (site.name, 'Jane %d' % k, 'P%d' % k), 'sdfits:names')
                m.close([hd['OBSGEO-X'], hd['OBSGEO-Y'], hd['OBSGEO-Z']], site.geocentric_location, 'sdfits:site', atol=1e-3)
                if extra:
                    com, his = [str(c) for c in ph['COMMENT']], [str(c) for c in ph['HISTORY']]
                    m.check('a comment %d' % k in com and 'another' in com and 'history %d' % k in his and ph['VFKEY'] == k, 'sdfits:comments', '%s %s' % (com, his))
                srt = sorted(pols, key=lambda p: abs(W.STOKES_CODES[p]))
                ax = [hd['CRVAL2'] + hd['CDELT2'] * (j + 1 - hd['CRPIX2']) for j in range(len(srt))]
                m.equal([W.NUMERIC_STOKES[int(a)] for a in ax], srt, 'sdfits:stokes-axis')
                want = [(i, b.id) for i in range(nint) for b in beams if (i, b.id, pols[0]) in truth]
                m.equal(len(rows), len(want), 'sdfits:rows')
                seen = {}
                for r in rows:
                    day = Time(str(r['DATE-OBS']).strip(), format='iso', scale='utc')
                    rel = ((day - t0).jd * 86400.0 + float(r['TIME']))
                    i = int(round(rel / step))
                    m.check(abs(rel - i * step) < 2e-4 and 0 <= i < nint, 'sdfits:time', '%.5f s after the start, steps of %.3f s' % (rel, step))
                    key = (i, int(r['BEAM']))
                    m.check(key not in seen, 'sdfits:twice', str(key))
                    seen[key] = int(r['SCAN'])
                    m.close([float(r['EXPOSURE'])], [exposure], 'sdfits:exposure', rtol=1e-6)
                    m.equal((float(r['CRPIX1']), float(r['CRVAL1']), float(r['CDELT1']), float(r['FREQRES'])), (1.0, f0, (f0 + cw) - f0, (f0 + cw) - f0), 'sdfits:frequency')
                    m.close([float(r['BANDWID'])], [cw * (nchan - 1)], 'sdfits:bandwidth', rtol=1e-9)
                    d = np.asarray(r['DATA']).reshape(len(srt), nchan)
                    for j, p in enumerate(srt):
                        m.check(np.array_equal(d[j], truth.get((i, key[1], p), np.full(nchan, np.nan))), 'sdfits:data', 'integration %d beam %d pol. %s' % (i, key[1], p))
                m.equal(sorted(seen), sorted(want), 'sdfits:set')
                m.check(all(s == i + 1 for (i, b), s in seen.items()), 'sdfits:scan', str(seen))
            m.raises(IOError, lambda: W.Sd(path), 'sdfits:overwrite', 'existing file')
            sd2 = W.Sd(path, overwrite=True)
            sd2.close()
            os.unlink(path)


def many(m):
    """A long run: the scan numbers keep counting."""
    import numpy as np
    from astropy.io import fits
    from lsl.writer import sdfits as W

    class Beam(object):
        id = 1
    b = Beam()
    path = os.path.join(m.scratch, 'many.fits')
    with m.case({'what': 'long run'}):
        sd = W.Sd(path)
        sd.set_stokes(['I'])
        sd.set_frequency(np.array([1e6, 2e6]))
        n = 33000
        t0 = 60000.0
        for i in range(n):
            sd.add_data_set(t0 + i / 86400.0, 1.0, [b], np.array([[i, -i]], dtype='f4'), pol='I')
        sd.write()
        sd.close()
        with fits.open(path) as h:
            r = h['SINGLE DISH'].data
            m.array_equal(np.asarray(r['SCAN']).astype(int), np.arange(1, n + 1), 'sdfits:scan')
            m.array_equal(np.asarray(r['DATA']).reshape(n, -1)[:, 0].astype(int), np.arange(n), 'sdfits:data')
        os.unlink(path)


JOBS = {'drx': (drx_frames, 'plain', 60), 'refuse': (drx_refuse, 'plain', 40), 'signal': (signal, 'plain', 6), 'vdif0': (vdif, 'plain', 60), 'vdif1': (vdif, 'plain', 60),
        'sdfits0': (sdfits, 'plain', 12), 'sdfits1': (sdfits, 'plain', 12), 'many': (many, 'plain')}
