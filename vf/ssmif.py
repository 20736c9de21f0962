"""Random station descriptions and their SSMIF encodings, written from the format description (MCS0030)."""
import struct

MAX = dict(ME_MAX_NSTD=256, ME_MAX_NFEE=256, ME_MAX_FEEID_LENGTH=10, ME_MAX_RACK=8, ME_MAX_PORT=50, ME_MAX_NRPD=512,
           ME_MAX_RPDID_LENGTH=25, ME_MAX_NSEP=512, ME_MAX_SEPID_LENGTH=25, ME_MAX_SEPCABL_LENGTH=25, ME_MAX_NARB=32,
           ME_MAX_NARBCH=16, ME_MAX_ARBID_LENGTH=10, ME_MAX_NSNAP=16, ME_MAX_NSNAPCH=64, ME_MAX_SNAPID_LENGTH=10,
           ME_MAX_NSERVER=5, ME_MAX_SERVERID_LENGTH=10, ME_MAX_NDR=5, ME_MAX_DRID_LENGTH=10, ME_MAX_NPWRPORT=50,
           ME_MAX_SSNAME_LENGTH=3)


def f32(x):
    return struct.unpack('<f', struct.pack('<f', x))[0]


def model(rng, nstd=None):
    ns = nstd or rng.choice([8, 16, 16, 32, 64])
    na = 2 * ns
    m = {'ns': ns, 'id': rng.choice(['VL', 'SV', 'NA', 'QX']), 'lat': round(rng.uniform(-70, 70), 8),
         'lon': round(rng.uniform(-180, 180), 8), 'el': round(rng.uniform(0, 4000), 3), 'gain': rng.randrange(16)}
    perm = lambda n: rng.sample(range(1, n + 1), n)
    m['pos'] = [[round(rng.uniform(-60, 60), 4) for _ in range(3)] for _ in range(ns)]
    p = perm(na)
    m['ant_std'] = [None] * na
    m['ant_orie'] = [None] * na
    for k in range(na):
        m['ant_std'][k] = (p[k] - 1) // 2 + 1
        m['ant_orie'][k] = (p[k] - 1) % 2
    m['ant_stat'] = [rng.choice([3, 3, 3, 2, 1, 0]) for _ in range(na)]
    m['theta'] = [round(rng.uniform(-5, 5), 3) for _ in range(na)]
    m['phi'] = [round(rng.uniform(-5, 5), 3) for _ in range(na)]
    m['fee_id'] = ['F%04d' % rng.randrange(10000) for _ in range(ns)]
    m['fee_stat'] = [rng.choice([3, 3, 2, 1, 0]) for _ in range(ns)]
    m['fee_g1'] = [round(rng.uniform(30, 40), 2) for _ in range(ns)]
    m['fee_g2'] = [round(rng.uniform(30, 40), 2) for _ in range(ns)]
    q = perm(na)
    m['fee_a1'], m['fee_a2'] = q[::2], q[1::2]
    m['rpd_id'] = ['RPD-%03d-%d' % (rng.randrange(1000), k) for k in range(na)]
    m['leng'] = [round(rng.uniform(40, 180), 2) for _ in range(na)]
    m['vf'] = [round(rng.uniform(80, 90), 2) for _ in range(na)]
    m['dd'] = [round(rng.uniform(1, 4), 2) for _ in range(na)]
    m['a0'] = [round(rng.uniform(0.001, 0.009), 5) for _ in range(na)]
    m['a1'] = [round(rng.uniform(0, 0.0001), 6) for _ in range(na)]
    m['fref'] = [rng.choice([10e6, 20e6, 10e6]) for _ in range(na)]
    m['str'] = [round(rng.uniform(0.95, 1.05), 4) for _ in range(na)]
    m['rpd_ant'] = perm(na)
    m['arb_ch'] = rng.choice([8, 16]) if na <= 256 else 16
    m['arb_n'] = na // m['arb_ch']
    m['arb_id'] = ['%04d' % rng.choice([101 + k, 8200 + k, 300 + k]) for k in range(m['arb_n'])]
    q = perm(na)
    cut = lambda x, n: [x[i:i + n] for i in range(0, len(x), n)]
    m['arb_ant'] = cut(q, m['arb_ch'])
    m['arb_in'] = [['I%d.%d' % (b, c) for c in range(m['arb_ch'])] for b in range(m['arb_n'])]
    m['arb_out'] = [['O%d_%d' % (b, c) for c in range(m['arb_ch'])] for b in range(m['arb_n'])]
    m['snap_ch'] = rng.choice([x for x in (16, 32, 64) if na % x == 0 and na // x <= 16])
    m['snap_n'] = na // m['snap_ch']
    m['snap_ant'] = cut(perm(na), m['snap_ch'])
    m['snap_inr'] = [['%d_%d' % (b + 1, c + 1) for c in range(m['snap_ch'])] for b in range(m['snap_n'])]
    return m


def expected(m, single=False):
    """Per antenna number (1..2 ns): everything the file says about it."""
    r = f32 if single else float
    out = {}
    for k in range(1, 2 * m['ns'] + 1):
        s = m['ant_std'][k - 1]
        a = {'id': k, 'stand': s, 'xyz': tuple(m['pos'][s - 1]), 'pol': m['ant_orie'][k - 1], 'status': m['ant_stat'][k - 1],
             'theta': r(m['theta'][k - 1]), 'phi': r(m['phi'][k - 1])}
        for port, l in ((1, m['fee_a1']), (2, m['fee_a2'])):
            if k in l:
                f = l.index(k)
                a.update(fee=m['fee_id'][f], fee_number=f + 1, fee_port=port, gain1=r(m['fee_g1'][f]), gain2=r(m['fee_g2'][f]),
                         fee_status=m['fee_stat'][f])
        c = m['rpd_ant'].index(k)
        a.update(cable=m['rpd_id'][c], length=r(m['leng'][c]), vf=r(m['vf'][c]) / 100, dd=r(m['dd'][c]) * 1e-9, a0=r(m['a0'][c]),
                 a1=r(m['a1'][c]), ref_freq=r(m['fref'][c]), stretch=r(m['str'][c]))
        for b in range(m['arb_n']):
            if k in m['arb_ant'][b]:
                ch = m['arb_ant'][b].index(k)
                a.update(arx=int(m['arb_id'][b]), arx_channel=ch + 1, asp_channel=b * m['arb_ch'] + ch + 1, arx_in=m['arb_in'][b][ch],
                         arx_out=m['arb_out'][b][ch])
        for b in range(m['snap_n']):
            if k in m['snap_ant'][b]:
                ch = m['snap_ant'][b].index(k)
                a.update(board=b + 1, digitizer=b * m['snap_ch'] + ch + 1, input=m['snap_inr'][b][ch])
        out[k] = a
    return out


def text(m, rng):
    """The human-readable form; values that equal the documented default are left out at random."""
    L = []
    junk = lambda: rng.choice(['', '', '# a comment', '   ', '# N_STD 3'])
    sep = lambda: rng.choice([' ', '  ', '\t', '    '])
    tail = lambda: rng.choice(['', '', '', '  ', ' # note', '\t# [1] note', '\r'])

    def put(key, val):
        L.append('%s%s%s%s' % (key, sep(), val, tail()))
        if rng.random() < 0.05:
            L.append(junk())

    def each(name, vals, default, fmt=str):
        idx = list(range(len(vals)))
        rng.shuffle(idx)
        for k in idx:
            if default is not None and vals[k] == default(k) and rng.random() < 0.5:
                continue
            put('%s[%d]' % (name, k + 1), fmt(vals[k]))

    def each2(name, vals):
        for b in range(len(vals)):
            for c in range(len(vals[b])):
                put('%s[%d][%d]' % (name, b + 1, c + 1), vals[b][c])
    ns = m['ns']
    put('FORMAT_VERSION', 10)
    put('STATION_ID', m['id'])
    put('GEO_N', repr(m['lat']))
    put('GEO_E', repr(m['lon']))
    put('GEO_EL', repr(m['el']))
    put('N_STD', ns)
    for i, n in enumerate('XYZ'):
        each('STD_L' + n, [p[i] for p in m['pos']], lambda k: 0.0, repr)
    each('ANT_STD', m['ant_std'], lambda k: k // 2 + 1)
    each('ANT_ORIE', m['ant_orie'], lambda k: k % 2)
    each('ANT_STAT', m['ant_stat'], lambda k: 3)
    each('ANT_THETA', m['theta'], lambda k: 0.0, repr)
    each('ANT_PHI', m['phi'], lambda k: 0.0, repr)
    put('N_FEE', ns)
    each('FEE_ID', m['fee_id'], None)
    each('FEE_STAT', m['fee_stat'], lambda k: 3)
    each('FEE_GAI1', m['fee_g1'], lambda k: 35.7, repr)
    each('FEE_GAI2', m['fee_g2'], lambda k: 35.7, repr)
    each('FEE_ANT1', m['fee_a1'], lambda k: 2 * k + 1)
    each('FEE_ANT2', m['fee_a2'], lambda k: 2 * k + 2)
    put('N_RPD', 2 * ns)
    each('RPD_ID', m['rpd_id'], None)
    each('RPD_LENG', m['leng'], None, repr)
    for name, key, dflt in (('RPD_VF', 'vf', 83.0), ('RPD_DD', 'dd', 2.4), ('RPD_A0', 'a0', 0.00428), ('RPD_A1', 'a1', 0.0),
                            ('RPD_FREF', 'fref', 10e6), ('RPD_STR', 'str', 1.0)):
        mode = rng.choice(['each', 'each', 'global', 'both', 'default'])
        if mode in ('global', 'both'):
            g = m[key][0]
            put(name, repr(g))
            if mode == 'global':
                m[key] = [g] * len(m[key])
            else:
                each(name, m[key], lambda k: g, repr)
        elif mode == 'default':
            m[key] = [dflt] * len(m[key])
        else:
            each(name, m[key], lambda k: dflt, repr)
    each('RPD_ANT', m['rpd_ant'], lambda k: k + 1)
    put('N_SEP', 2 * ns)
    each('SEP_LENG', [1.5] * (2 * ns), lambda k: 1.5, repr)
    put('N_ARB', m['arb_n'])
    put('N_ARBCH', m['arb_ch'])
    each('ARB_ID', m['arb_id'], None)
    each('ARB_RACK', [2] * m['arb_n'], None)
    each('ARB_PORT', [k + 1 for k in range(m['arb_n'])], None)
    each2('ARB_ANT', m['arb_ant'])
    each2('ARB_IN', m['arb_in'])
    each2('ARB_OUT', m['arb_out'])
    put('N_SNAP', m['snap_n'])
    put('N_SNAPCH', m['snap_ch'])
    each2('SNAP_INR', m['snap_inr'])
    each2('SNAP_ANT', m['snap_ant'])
    put('N_SERVER', 2)
    put('SERVER_ID[1]', 'ndp1')
    put('N_DR', 1)
    put('DR_ID[1]', 'DR1')
    at = rng.choice([None, 5])
    put('ASP_FLT', 0)
    if at is not None:
        put('ASP_AT1', at)
        put('ASP_AT2', at + 1)
        if rng.random() < 0.5:
            for k in range(ns):
                put('ASP_AT3[%d]' % (k + 1), at + 2)
        else:
            put('ASP_AT3', at + 2)
    put('DRX_GAIN', m['gain'])
    return '\n'.join(L) + '\n'


# (name, type, dimensions): C layout with natural alignment, little endian
def _layout():
    M = MAX
    S, A, F, R, P = M['ME_MAX_NSTD'], 2 * M['ME_MAX_NSTD'], M['ME_MAX_NFEE'], M['ME_MAX_NRPD'], M['ME_MAX_NSEP']
    B, C, N, K = M['ME_MAX_NARB'], M['ME_MAX_NARBCH'], M['ME_MAX_NSNAP'], M['ME_MAX_NSNAPCH']
    l = [('version', 'i', 1), ('sid', 's', 3), ('lat', 'd', 1), ('lon', 'd', 1), ('el', 'd', 1), ('nstd', 'i', 1),
         ('x', 'd', S), ('y', 'd', S), ('z', 'd', S), ('ant_std', 'i', A), ('ant_orie', 'i', A), ('ant_stat', 'i', A),
         ('theta', 'f', A), ('phi', 'f', A), ('ant_desi', 'i', A), ('nfee', 'i', 1), ('fee_id', ('s', 11), F), ('fee_stat', 'i', F),
         ('fee_desi', 'i', F), ('fee_g1', 'f', F), ('fee_g2', 'f', F), ('fee_a1', 'i', F), ('fee_a2', 'i', F), ('fee_rack', 'i', F),
         ('fee_port', 'i', F), ('nrpd', 'i', 1), ('rpd_id', ('s', 26), R), ('rpd_stat', 'i', R), ('rpd_desi', 'i', R), ('leng', 'f', R),
         ('vf', 'f', R), ('dd', 'f', R), ('a0', 'f', R), ('a1', 'f', R), ('fref', 'f', R), ('str', 'f', R), ('rpd_ant', 'i', R),
         ('nsep', 'i', 1), ('sep_id', ('s', 26), P), ('sep_stat', 'i', P), ('sep_cabl', ('s', 26), P), ('sep_leng', 'f', P),
         ('sep_desi', 'i', P), ('sep_gain', 'f', P), ('sep_ant', 'i', P), ('narb', 'i', 1), ('narbch', 'i', 1), ('arb_id', ('s', 11), B),
         ('arb_slot', 'i', B), ('arb_desi', 'i', B), ('arb_rack', 'i', B), ('arb_port', 'i', B), ('arb_stat', 'i', B * C),
         ('arb_gain', 'f', B * C), ('arb_ant', 'i', B * C), ('arb_in', ('s', 11), B * C), ('arb_out', ('s', 11), B * C),
         ('nsnap', 'i', 1), ('nsnapch', 'i', 1), ('snap_id', ('s', 11), N), ('snap_slot', ('s', 11), N), ('snap_desi', 'i', N),
         ('snap_stat', 'i', N * K), ('snap_inr', ('s', 11), N * K), ('snap_inc', ('s', 11), N * K), ('snap_ant', 'i', N * K),
         ('nserver', 'i', 1), ('server_id', ('s', 11), 5), ('server_slot', ('s', 11), 5), ('server_stat', 'i', 5), ('server_desi', 'i', 5),
         ('ndr', 'i', 1), ('dr_stat', 'i', 5), ('dr_id', ('s', 11), 5), ('dr_pc', ('s', 11), 5), ('dr_ndp', 'i', 5), ('npwrrack', 'i', 1),
         ('npwrport', 'i', 8), ('pwr_ss', 'i', 8 * 50), ('pwr_name', ('s', 4), 8 * 50), ('cra', 'i', 1), ('th', 'f', 1), ('ph', 'f', 1),
         ('rot', 'f', 1)]
    return l


def binary(m, settings_size, settings):
    """The packed form; settings = bytes of the station settings that follow."""
    def grid(vals, n, nch):
        out = []
        for b in range(n):
            row = vals[b] if b < len(vals) else []
            out += [row[c] if c < len(row) else None for c in range(nch)]
        return out
    v = {'version': [10], 'sid': m['id'].encode(), 'lat': [m['lat']], 'lon': [m['lon']], 'el': [m['el']], 'nstd': [m['ns']],
         'x': [p[0] for p in m['pos']], 'y': [p[1] for p in m['pos']], 'z': [p[2] for p in m['pos']], 'nfee': [m['ns']],
         'nrpd': [2 * m['ns']], 'narb': [m['arb_n']], 'narbch': [m['arb_ch']], 'nsnap': [m['snap_n']], 'nsnapch': [m['snap_ch']],
         'arb_ant': grid(m['arb_ant'], 32, 16), 'arb_in': grid(m['arb_in'], 32, 16), 'arb_out': grid(m['arb_out'], 32, 16),
         'snap_inr': grid(m['snap_inr'], 16, 64), 'snap_ant': grid(m['snap_ant'], 16, 64)}
    for k in ('ant_std', 'ant_orie', 'ant_stat', 'theta', 'phi', 'fee_id', 'fee_stat', 'fee_g1', 'fee_g2', 'fee_a1', 'fee_a2', 'rpd_id',
              'leng', 'vf', 'dd', 'a0', 'a1', 'fref', 'str', 'rpd_ant', 'arb_id'):
        v[k] = m[k]
    buf = bytearray()
    align = 1
    for name, t, n in _layout():
        if t == 's':
            buf += v.get(name, b'').ljust(n, b'\0')
            continue
        if isinstance(t, tuple):
            items = list(v.get(name, []))
            for i in range(n):
                s = items[i] if i < len(items) and items[i] is not None else ''
                buf += s.encode().ljust(t[1], b'\0')
            continue
        size = struct.calcsize('<' + t)
        align = max(align, size)
        buf += b'\0' * (-len(buf) % size)
        items = list(v.get(name, []))
        for i in range(n):
            x = items[i] if i < len(items) and items[i] is not None else 0
            buf += struct.pack('<' + t, x)
    buf += b'\0' * (-len(buf) % align)
    return bytes(buf) + settings
