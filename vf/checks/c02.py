"""C02 - every decoded header field, derived quantity and sample equals what the bytes of the frame say."""
import datetime, io
from fractions import Fraction

RULE = ('frames of all six formats with random header fields and payloads are encoded by an independent bit-level encoder '
        'and decoded by every public read_frame*; each decoded frame is compared field by field and sample by sample; '
        'non-trivial: payload not constant; distinct = distinct (format, mode, header) tuples')
OPTS = {'scale': 10}
NEED = {'fields_compared': 5000, 'values_compared': 1000000}


def _tt(rng):
    # between 2000 and 2096: UTC before 1972 is not a uniform scale, and no LWA data is that old
    return rng.choice([rng.randrange(946684800, 4000000000) * 196000000 + rng.choice([0, 1, 195999999, rng.randrange(196000000)]),
                       (1483228800 + rng.choice([-1, 0, 1])) * 196000000 + rng.randrange(196000000)])


def _fields(m, obj, want, what):
    for k, v in want.items():
        m.event('fields_compared')
        got = getattr(obj, k)
        if not (got == v):
            m.violation('field:%s.%s' % (what, k), '%s: got %r, expected %r' % (k, got, v))


def _ci8(m, data, re, im, mech):
    m.check(data.dtype.names == ('re', 'im'), mech + ':dtype', str(data.dtype))
    m.array_equal(data['re'], re, mech)
    m.array_equal(data['im'], im, mech)


def _drxlike(m, n, eight):
    import numpy as np
    from vf import frames as F
    from lsl.reader import drx, drx8
    mod, enc, name = (drx8, F.drx8, 'drx8') if eight else (drx, F.drx, 'drx')
    lo, hi = (-128, 128) if eight else (-8, 8)
    codes = {1: 250000, 2: 500000, 3: 1000000, 4: 2000000, 5: 4900000, 6: 9800000, 7: 19600000}
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        re = g.integers(lo, hi, 4096)
        im = g.integers(lo, hi, 4096)
        if i == 0:                       # every code, both components
            v = np.arange(lo, hi)
            re = np.resize(np.repeat(v, len(v)), 4096)
            im = np.resize(np.tile(v, len(v)), 4096)
        beam, tune, pol = rng.randrange(0, 8), rng.randrange(0, 8), rng.randrange(2)
        dec = rng.choice([784, 392, 196, 98, 40, 20, 10, 1, 65535, rng.randrange(1, 65536)])
        h = dict(frame_count=rng.getrandbits(24), second_count=rng.getrandbits(32), decimation=dec,
                 time_offset=rng.choice([0, 0, 6660, rng.getrandbits(16)]),
                 timetag=_tt(rng), tuning_word=rng.getrandbits(32), flags=rng.getrandbits(32))
        raw = enc(re, im, beam, tune, pol, **h)
        gain = rng.choice([None, None, 6])
        with m.case({'fmt': name, 'id': (beam, tune, pol), 'h': h}):
            for variant in ('cf32', 'ci8'):
                fh = io.BytesIO(raw)
                fr = (mod.read_frame if variant == 'cf32' else mod.read_frame_ci8)(fh, **({} if gain is None else {'gain': gain}))
                m.equal(fh.tell(), len(raw), name + ':position')
                _fields(m, fr.header, dict(frame_count=h['frame_count'], second_count=h['second_count'],
                                           decimation=dec, time_offset=h['time_offset'],
                                           drx_id=F.drx_id(beam, tune, pol, eight), id=(beam, tune, pol),
                                           sample_rate=196e6 / dec), name)
                _fields(m, fr.payload, dict(timetag=h['timetag'], tuning_word=h['tuning_word'], flags=h['flags'],
                                            central_freq=h['tuning_word'] * 196e6 / 2**32), name)
                _fields(m, fr, dict(id=(beam, tune, pol), sample_rate=196e6 / dec, valid=True, gain=gain,
                                    central_freq=h['tuning_word'] * 196e6 / 2**32), name)
                if int(196e6 / dec) == 196e6 / dec and int(196e6 / dec) in codes.values():
                    m.equal(codes[fr.filter_code], int(196e6 / dec), name + ':filter_code')
                    m.equal(fr.header.filter_code, fr.filter_code, name + ':filter_code')
                is_ = fr.is_drx8 if eight else fr.is_drx
                m.equal(bool(is_), True, name + ':is_format')
                if True:
                    m.equal(fr.time.dp_timetag, h['timetag'] - h['time_offset'], name + ':time')
                if variant == 'cf32':
                    m.check(fr.payload.data.dtype == np.complex64, name + ':dtype')
                    m.array_equal(fr.payload.data, re + 1j * im, name + ':samples')
                else:
                    _ci8(m, fr.payload.data, re, im, name + ':samples-ci8')


def drx(m, n):
    _drxlike(m, n, False)


def drx8(m, n):
    _drxlike(m, n, True)


def tbx(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import tbx as T
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        ns, nc = rng.choice([64, 128, 256]), rng.choice([4, 8, 12, 16])
        re, im = g.integers(-8, 8, (nc, ns, 2)), g.integers(-8, 8, (nc, ns, 2))
        h = dict(frame_count=rng.getrandbits(24), second_count=rng.getrandbits(32),
                 first_chan=rng.choice([rng.randrange(4096), rng.randrange(32768), rng.getrandbits(32)]),
                 timetag=_tt(rng), frame_id=rng.choice([8, 8, 8, rng.randrange(256)]))
        raw = F.tbx(re, im, ns, nc, **h)
        with m.case({'fmt': 'tbx', 'mode': (ns, nc), 'h': h}):
            for variant in ('cf32', 'ci8'):
                fh = io.BytesIO(raw)
                fr = (T.read_frame if variant == 'cf32' else T.read_frame_ci8)(fh)
                m.equal(fh.tell(), len(raw), 'tbx:position')
                _fields(m, fr.header,
                        dict(frame_count=h['frame_count'], second_count=h['second_count'], first_chan=h['first_chan'],
                             frame_id=h['frame_id'], nstand=ns, nchan=nc, is_tbx=h['frame_id'] == 8), 'tbx')
                _fields(m, fr, dict(nstand=ns, nchan=nc, frame_id=h['frame_id'], is_tbx=h['frame_id'] == 8, valid=True), 'tbx')
                m.equal(fr.payload.timetag, h['timetag'], 'tbx:timetag')
                m.equal(fr.time.dp_timetag, h['timetag'], 'tbx:time')
                want = (np.arange(nc) + h['first_chan']) * (196e6 / 8192)
                m.close(fr.channel_freqs, want, 'tbx:channel_freqs', rtol=3e-7)
                if variant == 'cf32':
                    m.check(fr.payload.data.dtype == np.complex64, 'tbx:dtype')
                    m.array_equal(fr.payload.data, re + 1j * im, 'tbx:samples')
                else:
                    d = fr.payload.data
                    m.check(d.size == nc * ns * 2, 'tbx:ci8-size', str(d.shape))
                    _ci8(m, d.reshape(nc, ns, 2), re, im, 'tbx:samples-ci8')


def cor(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import cor as C
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        nc = rng.choice([33, 72, 112, 192])
        vis = (g.normal(size=(nc, 2, 2)) + 1j * g.normal(size=(nc, 2, 2))).astype(np.complex64) * np.float32(10**rng.uniform(-3, 6))
        s0 = rng.randrange(1, 257)
        s1 = s0 if rng.random() < 0.3 else rng.randrange(1, 257)
        h = dict(frame_count=rng.getrandbits(24), second_count=rng.getrandbits(32), first_chan=rng.randrange(0, 65536),
                 gain=rng.randrange(0, 65536), timetag=_tt(rng), navg=rng.randrange(0, 2**31),
                 adp_id=rng.choice([2, 2, 6, rng.randrange(256)]))
        raw = F.cor(vis, s0, s1, **h)
        with m.case({'fmt': 'cor', 'nchan': nc, 's': (s0, s1), 'h': h}):
            fh = io.BytesIO(raw)
            fr = C.read_frame(fh)
            m.equal(fh.tell(), len(raw), 'cor:position')
            _fields(m, fr.header, dict(frame_count=h['frame_count'], second_count=h['second_count'], first_chan=h['first_chan'],
                                       gain=h['gain'], adp_id=h['adp_id'], is_cor=h['adp_id'] in (2, 6)), 'cor')
            _fields(m, fr.payload, dict(timetag=h['timetag'], navg=h['navg'], stand0=s0, stand1=s1, id=(s0, s1)), 'cor')
            _fields(m, fr, dict(id=(s0, s1), gain=h['gain'], adp_id=h['adp_id'], valid=True), 'cor')
            m.equal(fr.time.dp_timetag, h['timetag'], 'cor:time')
            m.close(fr.integration_time, h['navg'] * 0.01, 'cor:integration_time', rtol=1e-12)
            m.close(fr.channel_freqs, (np.arange(nc) + h['first_chan']) * (196e6 / 8192), 'cor:channel_freqs', rtol=3e-7)
            want = vis.copy()
            if s0 == s1:
                want[:, 1, 0] = np.conj(vis[:, 0, 1])
            m.check(fr.payload.data.dtype == np.complex64, 'cor:dtype')
            m.array_equal(fr.payload.data, want, 'cor:vis')


def vdif(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import vdif as V
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        bits = rng.choice([1, 2, 4, 8])
        cplx = rng.randrange(2)
        l2 = rng.choice([0, 0, 0, 1, 2, 3, 4])
        nb = 8 * rng.choice([16, 32, 64, 128, 250 * 2, 1000])
        legacy = rng.randrange(2)
        payload = rng.randbytes(nb)
        if i < 4:
            payload = bytes(range(256)) * (nb // 256 + 1)
            payload = payload[:nb]
        ep = rng.randrange(0, 63)
        y, mo = 2000 + ep // 2, 1 + 6 * (ep % 2)
        ny, nm = (y, 7) if mo == 1 else (y + 1, 1)
        half = int((datetime.datetime(ny, nm, 1) - datetime.datetime(y, mo, 1)).total_seconds())
        rate_k = rng.choice([250, 500, 1000, 4900, 9800, 19600, 64000])
        secs = rng.choice([0, 1, 43199, 43200, 86400, rng.randrange(half)])
        ext = (rng.getrandbits(24), rng.getrandbits(32), rng.getrandbits(32), rng.getrandbits(32))
        edv = rng.choice([0, 1, 1, 2, 3])
        if edv in (1, 3):
            mhz = rate_k % 1000 == 0 and rng.random() < 0.5
            ext = ((rate_k // 1000 | 1 << 23) if mhz else rate_k,) + ext[1:]
        ext = (ext[0] | edv << 24,) + ext[1:]
        h = dict(seconds=secs, frame_in_second=rng.getrandbits(24), ref_epoch=ep, log2_nchan=l2, version=rng.randrange(8),
                 station=rng.getrandbits(16), thread=rng.getrandbits(10), bits=bits, is_complex=cplx, legacy=legacy,
                 invalid=rng.randrange(2), ext=ext)
        nsamp = nb // 4 * (32 // bits) // (2 if cplx else 1) // 2**l2
        rate = rate_k * 1000.0
        fps = rate // nsamp
        timed = fps >= 1
        if timed:
            h['frame_in_second'] = rng.choice([0, rng.randrange(int(fps))])
        raw = F.vdif(payload, **h)
        given = rng.random() < 0.5
        cf = rng.choice([0.0, 37.9e6, 74.03000123e6, rng.uniform(1e6, 9e7)])
        with m.case({'fmt': 'vdif', 'nb': nb, 'h': h, 'rate_k': rate_k, 'given': given, 'cf': cf}):
            for variant in ('f32', 'i8'):
                fh = io.BytesIO(raw)
                fn = V.read_frame if variant == 'f32' else V.read_frame_i8
                fr = fn(fh, sample_rate=rate if given else 0.0, central_freq=cf)
                m.equal(fh.tell(), len(raw), 'vdif:position')
                _fields(m, fr.header, dict(is_invalid=h['invalid'], is_legacy=legacy, seconds_from_epoch=secs, ref_epoch=ep,
                                           frame_in_second=h['frame_in_second'], version=h['version'], nchan=2**l2,
                                           frame_length=len(raw) // 8, is_complex=cplx, bits_per_sample=bits,
                                           thread_id=h['thread'], station_id=h['station'], id=(h['station'], h['thread']),
                                           sample_rate=rate if given else 0.0, central_freq=cf), 'vdif')
                _fields(m, fr, dict(id=(h['station'], h['thread']), central_freq=cf, valid=True,
                                    sample_rate=rate if given else 0.0), 'vdif')
                if not legacy:
                    for k in range(4):
                        m.equal(getattr(fr.header, 'extended_data_%d' % (k + 1)), ext[k], 'vdif:extended')
                    eud = fr.extended_user_data
                    if edv in (1, 3):
                        m.equal(eud['sample_rate'] * (1e6 if eud['sample_rate_units'] == 'MHz' else 1e3), rate, 'vdif:eud-rate')
                        m.equal(eud['sync_pattern'], ext[1], 'vdif:eud-sync')
                    if edv == 1:
                        m.equal(eud['station_name'], ext[3] << 32 | ext[2], 'vdif:eud-station')
                    if edv == 2:
                        m.equal(eud['packet_serial_number'], ext[3] << 32 | ext[2], 'vdif:eud-psn')
                    if edv == 3:
                        m.equal((eud['tuning_word'], eud['dbe_unit'], eud['if_input_number'], eud['subband'], eud['electronic_sideband']),
                                (ext[2], ext[3] >> 24 & 15, ext[3] >> 20 & 15, ext[3] >> 17 & 7, 'USB' if ext[3] >> 16 & 1 else 'LSB'),
                                'vdif:eud-nrao')
                lv = F.vdif_levels(payload, bits, variant == 'i8')
                if cplx:
                    lv = lv[0::2] + 1j * lv[1::2]
                    m.check(fr.payload.data.dtype == np.complex64, 'vdif:dtype', str(fr.payload.data.dtype))
                else:
                    m.check(fr.payload.data.dtype == (np.float32 if variant == 'f32' else np.int8), 'vdif:dtype', str(fr.payload.data.dtype))
                if l2:
                    lv = lv.reshape(-1, 2**l2).T
                m.close(fr.payload.data, lv, 'vdif:samples:%s' % variant, rtol=2e-7)
                if variant == 'f32' and timed and (given or (not legacy and edv in (1, 3))):
                    t0 = datetime.datetime(y, mo, 1) + datetime.timedelta(seconds=secs)
                    unix = int((t0 - datetime.datetime(1970, 1, 1)).total_seconds())
                    tick = (unix + Fraction(h['frame_in_second'], int(fps))) * 196000000
                    got = fr.time.dp_timetag
                    m.event('vdif_times_checked')
                    m.check(abs(got - tick) <= 1, 'vdif:time', 'dp_timetag %d, expected %s (%.9f s off)'
                            % (got, float(tick), float(got - tick) / 196e6))


def drspec(m, n):
    import numpy as np
    from vf import frames as F
    from lsl.reader import drspec as D
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        fmt = rng.choice(sorted(F.DRSPEC_FORMATS))
        prods = F.DRSPEC_FORMATS[fmt]
        nf = rng.choice([1, 2, 16, 32, 64, 100, 1024, 2048])
        data = (g.normal(size=(2, nf, len(prods))) * 10**rng.uniform(0, 6)).astype(np.float32)
        big = rng.random() < 0.3
        fills = [rng.randrange(1, 2**24 if big else 8192) for _ in range(4)]
        dec = rng.choice([784, 392, 196, 98, 40, 20, 10])
        h = dict(timetag=_tt(rng), time_offset=rng.choice([0, rng.getrandbits(16)]), decimation=dec,
                 freq=(rng.getrandbits(32), rng.getrandbits(32)), fills=fills, errors=[rng.randrange(256) for _ in range(4)],
                 beam=rng.randrange(1, 5), fmt=fmt, nfreqs=nf, nints=rng.randrange(1, 2**20), sat=[rng.getrandbits(32) for _ in range(4)])
        raw = F.drspec(data, **h)
        with m.case({'fmt': 'drspec', 'h': h}):
            fh = io.BytesIO(raw)
            fr = D.read_frame(fh)
            m.equal(fh.tell(), len(raw), 'drspec:position')
            _fields(m, fr.header, dict(beam=h['beam'], id=h['beam'], format=fmt, decimation=dec, time_offset=h['time_offset'],
                                       nints=h['nints'], data_products=prods, is_linear=fmt < 16, is_stokes=fmt >= 16,
                                       ffts_per_integration=h['nints'], sample_rate=196e6 / dec), 'drspec')
            _fields(m, fr.payload, dict(timetag=h['timetag'], tuning_words=list(h['freq']), fills=fills, errors=h['errors'],
                                        saturations=h['sat'], central_freq=[w * 196e6 / 2**32 for w in h['freq']]), 'drspec')
            _fields(m, fr, dict(id=h['beam'], data_products=prods, is_linear=fmt < 16, is_stokes=fmt >= 16, transform_size=nf,
                                sample_rate=196e6 / dec, ffts_per_integration=h['nints'], valid=True), 'drspec')
            m.close(fr.integration_time, h['nints'] * nf * dec / 196e6, 'drspec:integration_time', rtol=1e-12)
            m.equal(fr.time.dp_timetag, h['timetag'] - h['time_offset'], 'drspec:time')
            names = []
            for k, p in enumerate(prods):
                for t in (0, 1):
                    names.append('%s%d' % (p, t))
                    fx, fy = fills[2 * t], fills[2 * t + 1]
                    norm = nf * (fx if p == 'XX' else fy if p == 'YY' else min(fx, fy))
                    m.close(getattr(fr.payload, names[-1]), data[t, :, k].astype(np.float64) / norm, 'drspec:data:' + p, rtol=3e-7,
                            scale=np.abs(data[t, :, k].astype(np.float64) / norm))
            for p in ('XX', 'XY_real', 'XY_imag', 'YY', 'I', 'Q', 'U', 'V'):
                if p not in prods:
                    m.check(getattr(fr.payload, p + '0', None) is None, 'drspec:phantom-product', p)
            if nf > 1:
                m.equal(sorted(fr.payload.data.dtype.names), sorted(names), 'drspec:record-names')


def arith(m, n):
    """Frame arithmetic acts element by element on the data and leaves the operands of the binary form alone."""
    import numpy as np, operator
    from vf import frames as F
    from lsl.reader import drx, cor, tbx, vdif, drspec
    ops = {'+': operator.add, '-': operator.sub, '*': operator.mul, '/': operator.truediv}
    iops = {'+': operator.iadd, '-': operator.isub, '*': operator.imul, '/': operator.itruediv}
    for i in range(m.n(n)):
        if m.over():
            break
        rng, g = m.rng(i), m.nprng(i)
        kind = rng.choice(['drx', 'cor', 'tbx', 'vdif', 'drspec'])

        def mk(tt):
            if kind == 'drx':
                return drx.read_frame(io.BytesIO(F.drx(g.integers(-8, 8, 4096), g.integers(-8, 8, 4096), timetag=tt)))
            if kind == 'cor':
                return cor.read_frame(io.BytesIO(F.cor((g.normal(size=(72, 2, 2)) + 1j * g.normal(size=(72, 2, 2))), 1, 2, timetag=tt)))
            if kind == 'tbx':
                return tbx.read_frame(io.BytesIO(F.tbx(g.integers(-8, 8, (4, 64, 2)), g.integers(-8, 8, (4, 64, 2)), 64, 4, timetag=tt)))
            if kind == 'vdif':
                return vdif.read_frame(io.BytesIO(F.vdif(g.bytes(128), seconds=tt % 1000, bits=4, is_complex=i % 2)), sample_rate=19.6e6)
            return drspec.read_frame(io.BytesIO(F.drspec(g.normal(size=(2, 32, 2)) + 5, timetag=tt, fmt=0x09, nfreqs=32)))

        def arr(f):
            if kind == 'drspec':
                return np.array([f.payload.XX0, f.payload.XX1, f.payload.YY0, f.payload.YY1])
            return f.payload.data
        ta = _tt(rng)
        tb = rng.choice([ta, ta + 1, ta - 1, ta + 2 * rng.randrange(1, 2**40), ta - 2 * rng.randrange(1, 2**29)])
        op = rng.choice(sorted(ops))
        scalar = rng.random() < 0.5
        with m.case({'kind': kind, 'op': op, 'scalar': scalar, 'ta': ta, 'tb': tb}):
            a, b = mk(ta), mk(tb)
            a0, b0 = arr(a).copy(), arr(b).copy()
            y = rng.choice([2, 3.5, -1.25]) if scalar else b
            with np.errstate(all='ignore'):
                want = ops[op](a0, a0.dtype.type(y) if scalar else b0)
                r = ops[op](a, y)
                m.array_equal(arr(r), want, 'arith:%s:binary' % op)
                m.array_equal(arr(a), a0, 'arith:left-operand-changed')
                m.array_equal(arr(b), b0, 'arith:right-operand-changed')
                a = iops[op](a, y)
                m.array_equal(arr(a), want, 'arith:%s:inplace' % op)
                m.array_equal(arr(b), b0, 'arith:right-operand-changed')
            m.equal(type(r), type(a), 'arith:type')
            if kind != 'vdif':
                m.equal((a == b, a < b, a > b, a <= b, a >= b, a != b),
                        (ta == tb, ta < tb, ta > tb, ta <= tb, ta >= tb, ta != tb), 'arith:ordering')


JOBS = {'drx': (drx, 'plain', 150), 'drx8': (drx8, 'plain', 150), 'tbx': (tbx, 'plain', 250), 'cor': (cor, 'plain', 250),
        'vdif': (vdif, 'plain', 400), 'drspec': (drspec, 'plain', 300), 'arith': (arith, 'plain', 300)}
