"""C13 - MCS and NDP number formats, C structures and MIB entries."""
RULE = ('exhaustive over the 16-bit delay and gain words, random tuning words, random (MJD, MPM) pairs and datetimes in random time zones, '
        'random C structures laid out by an independent natural-alignment model and by struct.pack, random MIB entries and GDBM files, random pointing '
        'corrections; distinct = distinct cases')
OPTS = {'scale': 8}
NEED = {'bandpasses': 20, 'words': 60000, 'times': 2000, 'struct_fields': 2000, 'mib_entries': 500, 'pointings': 300}


def words(m, lo, hi):
    from lsl.common import mcs, ndp
    fs = 196e6
    for base in range(lo, hi, 256):
        with m.case({'words': base}):
            for v in range(base, base + 256):
                m.event('words')
                le = ((v & 255) << 8) | (v >> 8)
                d = ndp.ndpd_to_delay(v)
                m.check(abs(d - (le / 16.0) * 1e9 / fs) <= 1e-9 * max(d, 1), 'delay-decode', lambda: '%d -> %r' % (v, d))
                m.equal(ndp.delay_to_ndpd(d), v, 'delay-roundtrip')
                m.equal(mcs.mcsd_to_delay(le), d, 'mcs-delay-decode')
                m.equal(mcs.delay_to_mcsd(d), le, 'mcs-delay-roundtrip')
                if le < 32768:
                    g = ndp.ndpg_to_gain(v)
                    m.check(abs(g - le / 32767.0) < 1e-12, 'gain-decode', lambda: '%d -> %r' % (v, g))
                    m.equal(ndp.gain_to_ndpg(g), v, 'gain-roundtrip')
                    m.equal(mcs.mcsg_to_gain(le), g, 'mcs-gain-decode')
                    m.equal(mcs.gain_to_mcsg(g), le, 'mcs-gain-roundtrip')


def values(m, n):
    from lsl.common import mcs, ndp
    fs = 196e6
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        with m.case({'i': i}):
            for k in range(50):
                m.event('words')
                w = rng.choice([0, 1, 2**32 - 1, 222417950, 1928352663, rng.randrange(2**32)])
                f = ndp.word_to_freq(w)
                m.check(abs(f - w * fs / 2**32) < 1e-6, 'word-to-freq', lambda: '%d -> %r' % (w, f))
                m.equal(ndp.freq_to_word(f), w, 'word-roundtrip')
                f = rng.uniform(0, 98e6)
                w = ndp.freq_to_word(f)
                m.check(isinstance(w, int) and abs(w * fs / 2**32 - f) <= 0.5 * fs / 2**32 * 1.000001, 'freq-to-word', lambda: '%r -> %r' % (f, w))
                d = rng.uniform(0, 4095 * 1e9 / fs)
                m.check(abs(ndp.ndpd_to_delay(ndp.delay_to_ndpd(d)) - d) < 1e9 / fs / 16 * 1.0001, 'delay-quantization', lambda: repr(d))
                g = rng.uniform(0, 1)
                m.check(abs(ndp.ndpg_to_gain(ndp.gain_to_ndpg(g)) - g) < 1.0001 / 32767, 'gain-quantization', lambda: repr(g))


def times(m, n):
    from datetime import datetime, timedelta, timezone
    from lsl.common import mcs
    ep = datetime(1858, 11, 17, tzinfo=timezone.utc)
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        mjd = rng.choice([40587, 51544, 59215, 60369, 60370, rng.randrange(40587, 70000)])
        mpm = rng.choice([0, 1, 999, 1000, 86399999, rng.randrange(86400000)])
        tz = timezone(timedelta(minutes=rng.randrange(-720, 721, 15)))
        with m.case({'mjd': mjd, 'mpm': mpm, 'tz': str(tz)}):
            m.event('times')
            want = ep + timedelta(days=mjd, milliseconds=mpm)
            g = mcs.mjdmpm_to_datetime(mjd, mpm)
            m.check(g.tzinfo is not None and abs((g - want).total_seconds()) < 1e-5, 'mjdmpm-to-datetime', lambda: '%r for %s' % (g, want))
            m.equal(mcs.datetime_to_mjdmpm(g), (mjd, mpm), 'mjdmpm-roundtrip')
            g = mcs.mjdmpm_to_datetime(mjd, mpm, tz=tz)
            m.check(abs((g - want).total_seconds()) < 1e-5 and g.utcoffset() == tz.utcoffset(None), 'mjdmpm-time-zone', lambda: '%r for %s' % (g, want))
            m.equal(mcs.datetime_to_mjdmpm(g), (mjd, mpm), 'mjdmpm-time-zone-roundtrip')
            us = rng.randrange(1000)
            dt = want + timedelta(microseconds=us)
            m.equal(mcs.datetime_to_mjdmpm(dt), (mjd, mpm), 'datetime-to-mjdmpm')
            m.equal(mcs.datetime_to_mjdmpm(dt.astimezone(tz)), (mjd, mpm), 'datetime-to-mjdmpm-zone')
            m.equal(mcs.datetime_to_mjdmpm(dt.replace(tzinfo=None)), (mjd, mpm), 'datetime-to-mjdmpm-naive')


TYPES = [('int', 'i', 4), ('signed int', 'i', 4), ('unsigned int', 'I', 4), ('short', 'h', 2), ('signed short int', 'h', 2), ('short int', 'h', 2),
         ('signed short', 'h', 2), ('unsigned short int', 'H', 2), ('unsigned short', 'H', 2), ('long', 'q', 8), ('long int', 'q', 8), ('signed long int', 'q', 8),
         ('unsigned long int', 'Q', 8), ('unsigned long', 'Q', 8), ('long long', 'q', 8), ('signed long long', 'q', 8), ('unsigned long long', 'Q', 8),
         ('float', 'f', 4), ('double', 'd', 8), ('char', 'c', 1), ('signed char', 'b', 1), ('unsigned char', 'B', 1)]


def structs(m, n):
    import struct, io, ctypes
    from lsl.common import mcs
    mac = {'ME_MAX_NDR': 5, 'ME_MAX_NARBCH': 16, 'ME_MAX_RACK': 8, 'ME_MAX_NSERVER': 5, 'ME_MAX_FEEID_LENGTH': 10}
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        end = rng.choice(['little', 'big', 'network', 'native'])
        mode = rng.choice(['str', 'int'])
        over = {'ME_MAX_NDR': 3, 'MY_SIZE': 4} if rng.random() < 0.4 else None
        bo = '>' if end in ('big', 'network') else '<'
        lines, fields, blob = ([] if rng.random() < 0.5 else ['struct thing {']), [], b''
        align = 1
        for k in range(rng.randrange(1, 14)):
            dec, code, size = rng.choice(TYPES)
            dims, txt = [], ''
            for _ in range(rng.choice([0, 0, 0, 1, 1, 2, 3, 4])):
                if rng.random() < 0.3:
                    nm = rng.choice(sorted(mac) if over is None else ['ME_MAX_NDR', 'MY_SIZE'])
                    val = (over or {}).get(nm, mac.get(nm))
                    form = rng.choice(['%s', '2*%s', '%s+1'])
                    d, t = {'%s': val, '2*%s': 2 * val, '%s+1': val + 1}[form], form % nm
                else:
                    d = rng.randrange(1, 5)
                    t = str(d)
                dims.append(d)
                txt += '[%s]' % t
            cnt = 1
            for d in dims:
                cnt *= d
            name = rng.choice(['f', 'sName', 'OBS_', 'x_Y']) + str(k)
            vals = []
            for _ in range(cnt):
                if code in 'fd':
                    v = struct.unpack(code, struct.pack(code, rng.uniform(-1e6, 1e6)))[0]
                elif code == 'c':
                    v = rng.randrange(1, 128) if rng.random() < 0.9 else 0
                elif code.isupper():
                    v = rng.choice([0, 1, 2**(8 * size) - 1, rng.randrange(2**(8 * size))])
                else:
                    v = rng.choice([0, -1, -2**(8 * size - 1), 2**(8 * size - 1) - 1, rng.randrange(-2**(8 * size - 1), 2**(8 * size - 1))])
                vals.append(v)
            blob += b'\x5a' * ((-len(blob)) % size)
            align = max(align, size)
            off = len(blob)
            blob += struct.pack(bo + '%d' % cnt + ('B' if code == 'c' else code), *vals)
            com = rng.choice(['', '  /* %s[] */' % name.upper(), ' // a comment'])
            lines.append('    %s%s%s%s;%s' % (dec, rng.choice([' ', '   ', '\t']), name, txt, com))
            fields.append((name, code, dims, vals, off))
        if lines and lines[0].startswith('struct'):
            lines.append('};')
        blob += b'\x5a' * ((-len(blob)) % align)
        with m.case({'i': i, 'end': end, 'mode': mode, 'struct': '\n'.join(lines)}):
            s = mcs.parse_c_struct('\n'.join(lines), char_mode=mode, endianness=end, overrides=over)
            m.equal(s.sizeof(), len(blob), 'size')
            m.require(ctypes.sizeof(s) == len(blob), 'size')
            m.equal(io.BytesIO(blob + b'tail').readinto(s), len(blob), 'readinto')
            dct = s.as_dict()
            m.equal(sorted(dct), sorted(f[0] for f in fields), 'fields')
            for name, code, dims, vals, off in fields:
                m.event('struct_fields')
                g = getattr(s, name)
                m.equal(list(s.dims[name]), dims, 'dims')
                if code == 'c':
                    if mode == 'str':
                        raw = bytes(vals)
                        w = raw.split(b'\0')[0] if dims else raw
                        m.equal(g, w, 'char-field')
                        continue
                    vals = [v for v in vals]
                if dims:
                    m.equal(list(g), vals, 'array-field', type=code)
                    multi = mcs.flat_to_multi(g, *dims)
                    ok = True
                    for q in range(len(vals)):
                        r, e = q, multi
                        idx = []
                        for d in reversed(dims):
                            idx.insert(0, r % d)
                            r //= d
                        for d in idx:
                            e = e[d]
                        ok = ok and e == vals[q]
                    m.check(ok, 'flat-to-multi', lambda: repr(dims))
                    m.raises(ValueError, lambda: mcs.flat_to_multi(list(g) + [0], *dims), 'flat-to-multi-size')
                else:
                    m.equal(g, vals[0], 'scalar-field', type=code)
            m.equal(bytes(s).replace(b'\0', b'').replace(b'\x5a', b''), blob.replace(b'\0', b'').replace(b'\x5a', b''), 'bytes')


def _entry(rng, etype, index, dtype, icd, sec, usec):
    import struct
    if dtype[0] == 'i':
        size, signed = int(dtype[1]), dtype[2] == 's'
        v = rng.choice([0, 1, 255, 256, 2**(8 * size - 1) - 1, rng.randrange(2**(8 * size - 1))])
        v &= 2**(8 * size) - 1 if not signed else 2**31 - 1
        if signed and rng.random() < 0.5:
            v = -v
        raw = v.to_bytes(size, 'little', signed=signed)
    elif dtype[0] == 'f':
        size = int(dtype[1])
        v = struct.unpack('<' + 'fd'[size == 8], struct.pack('<' + 'fd'[size == 8], rng.choice([0.0, 1.0, -2.5, rng.uniform(-1e5, 1e5)])))[0]
        raw = struct.pack(('>' if dtype.endswith('r') else '<') + 'fd'[size == 8], v)
    else:
        v = ''.join(rng.choice('ABCxyz019 .-_') for _ in range(rng.randrange(0, 20)))
        raw = v.encode()
    rec = struct.pack('<i12s8192s6s6s', etype, index.encode(), raw, dtype.encode(), icd.encode())
    rec += b'\0' * ((-len(rec)) % 8) + struct.pack('<qq', sec, usec)
    return rec, v


def mibs(m, n):
    import os
    from datetime import datetime, timezone, timedelta
    from lsl.common import mcs
    kinds = ['i1u', 'i2u', 'i4u', 'i4s', 'i8u', 'f4', 'f4r', 'f8', 'f8r', 'a5', 'a256', 'r16', 'NUL']
    try:
        import dbm.gnu as gdbm
    except ImportError:
        gdbm = None
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        with m.case({'i': i}):
            recs = {}
            init = []
            for k in range(rng.randrange(1, 25)):
                index = '.'.join(str(rng.randrange(1, 300)) for _ in range(rng.choice([1, 2, 3])))
                name = 'NAME-%d' % k
                if index in recs:
                    continue
                dt = rng.choice(kinds)
                sec, us = rng.randrange(1, 2**31), rng.randrange(10**6)
                rec, v = _entry(rng, 1, index, dt, dt, sec, us)
                e = mcs.MIBEntry.from_entry(rec)
                m.event('mib_entries')
                m.equal((e.index, e.dbmType, e.icdType, e.eType), (index, dt, dt, 1), 'mib-fields')
                m.check(e.value == v and type(e.value) is type(v), 'mib-value:' + dt, lambda: '%r, stored %r as %s' % (e.value, v, dt))
                want = datetime(1970, 1, 1, tzinfo=timezone.utc) + timedelta(seconds=sec, microseconds=us)
                m.check(abs((e.updateTime - want).total_seconds()) < 5e-6, 'mib-time', lambda: '%s for %s' % (e.updateTime, want))
                recs[index] = (rec, v, name)
                if rng.random() < 0.8:
                    init.append((index, name))
            m.raises(ValueError, lambda: mcs.MIBEntry.from_entry(_entry(rng, 0, '1.2', 'NUL', 'NUL', 1, 1)[0]), 'mib-branch')
            m.raises(ValueError, lambda: mcs.MIBEntry.from_entry(_entry(rng, 1, 'A.2', 'a5', 'a5', 1, 1)[0]), 'mib-index')
            if gdbm is not None and i % 4 == 0:
                p = os.path.join(m.scratch, 'm%d.pag' % i)
                db = gdbm.open(p, 'n')
                for index, (rec, v, name) in recs.items():
                    db[index] = rec
                db['999'] = _entry(rng, 0, '999', 'NUL', 'NUL', 1, 1)[0]
                db.close()
                q = os.path.join(m.scratch, 'm%d.dat' % i)
                with open(q, 'w') as fh:
                    fh.write('B 999 \t\tBRANCH \tNUL NUL NUL\n')
                    for index, name in init:
                        fh.write('V %s \t\t%s \tUNK\ta3\ta3\n' % (index, name))
                for init_file in (None, q):
                    mib = mcs.MIB.from_file(rng.choice([p, p[:-4] + '.dir']), init_filename=init_file)
                    m.equal(sorted(mib.keys()), sorted(recs), 'mib-keys')
                    for index, (rec, v, name) in recs.items():
                        m.equal(mib[index].value, v, 'mib-lookup')
                    if init_file:
                        for index, name in init:
                            m.equal(mib[name].index, index, 'mib-name-lookup')
                        names = dict(init)
                        m.equal(sorted(mib.keys(name=True)), sorted(names.get(k, k) for k in recs), 'mib-names')
                    str(mib)
                os.unlink(p)


def pointing(m, n):
    import math
    import numpy as np
    from lsl.common import mcs
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        az, el = rng.uniform(0, 360), rng.uniform(0, 89)
        th, ph, ps = rng.uniform(0, 180), rng.uniform(0, 360), rng.choice([0, rng.uniform(-180, 180), rng.uniform(-3, 3)])
        deg = rng.random() < 0.5
        with m.case({'i': i, 'az': az, 'el': el, 'axis': (th, ph, ps), 'deg': deg}):
            m.event('pointings')
            r = math.radians
            f = (lambda x: x) if deg else r
            a2, e2 = mcs.apply_pointing_correction(f(az), f(el), f(th), f(ph), f(ps), degrees=deg)
            if deg:
                a2, e2 = r(a2), r(e2)
            v = np.array([math.cos(r(el)) * math.sin(r(az)), math.cos(r(el)) * math.cos(r(az)), math.sin(r(el))])   # east, north, up
            u = np.array([math.sin(r(th)) * math.cos(r(ph)), math.sin(r(th)) * math.sin(r(ph)), math.cos(r(th))])
            w = v * math.cos(r(ps)) + np.cross(u, v) * math.sin(r(ps)) + u * (u @ v) * (1 - math.cos(r(ps)))
            g = np.array([math.cos(e2) * math.sin(a2), math.cos(e2) * math.cos(a2), math.sin(e2)])
            m.close(g, w, 'rotation', rtol=1e-9, scale=1)
            b, e = mcs.apply_pointing_correction(f(math.degrees(a2)), f(math.degrees(e2)), f(th), f(ph), f(-ps), degrees=deg)
            if deg:
                b, e = r(b), r(e)
            g = np.array([math.cos(e) * math.sin(b), math.cos(e) * math.cos(b), math.sin(e)])
            m.close(g, v, 'rotation-inverse', rtol=1e-8, scale=1)


def filters(m, n):
    """The DRX bandpass is the power response of its FIR filter, and nothing outside."""
    import numpy as np
    from lsl.common import ndp
    h = np.array(ndp._DRX_FIR)
    for k in range(m.n(n)):
        rng, nr = m.rng(k), m.nprng(k)
        fs = rng.choice([19.6e6, 250e3, 9.8e6, rng.uniform(1e5, 2e7)])
        kw = {} if fs == 19.6e6 and rng.random() < 0.5 else {'sample_rate': fs}
        if rng.random() < 0.5:
            kw['npts'] = rng.choice([500, 1000, 2000])
        with m.case({'fs': fs, 'kw': kw}):
            m.event('bandpasses')
            fn = ndp.drx_filter(**kw)
            f = nr.uniform(-0.497, 0.497, 200) * fs

            def resp(f):
                return np.abs(np.exp(-2j * np.pi * np.outer(f / fs, np.arange(h.size))) @ h) ** 2
            top = resp(np.linspace(0, 0.5 * fs, 4000)).max()
            m.close(fn(f), resp(f) / top, 'filter:shape', rtol=0, atol=2e-3)
            m.close(fn(-f), fn(f), 'filter:symmetric', rtol=0, atol=1e-9)
            m.equal(float(np.abs(fn(np.array([-3, -0.6, 0.51, 2.5]) * fs)).max()), 0.0, 'filter:outside')


JOBS = {'words%d' % k: (words, 'plain', k * 16384, (k + 1) * 16384) for k in range(4)}
JOBS.update({'values': (values, 'plain', 100), 'times': (times, 'plain', 4000), 'structs': (structs, 'plain', 600), 'mibs': (mibs, 'plain', 150),
             'pointing': (pointing, 'plain', 500)})
JOBS['filters'] = (filters, 'plain', 40)
