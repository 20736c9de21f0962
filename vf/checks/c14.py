"""C14 - metadata tarballs."""
RULE = ('random sessions written by independent encoders (session, observation, stepped and custom-beam, command script, SDM, SSMIF, MIB and text members in random '
        'order, plain or compressed) and read back through every accessor; tarballs replaced under the same name; hostile tarballs (traversal names, '
        'links, special files) with a process-wide audit hook recording every write and every leftover; distinct = distinct tarballs')
ASSUMPTIONS = ['hostile members only ever name targets in the scratch directory of the check']
NEED = {'bundles': 60, 'fields': 3000, 'writes_seen': 300, 'hostile': 40}

MODES = {1: 'TRK_RADEC', 2: 'TRK_SOL', 3: 'TRK_JOV', 4: 'STEPPED', 9: 'TRK_LUN', 10: 'TBT', 11: 'TBS', 7: 'DIAG1'}


def pack(spec):
    """[(struct code, count, value)...] with natural little-endian alignment"""
    import struct
    out, al = b'', 1
    for code, cnt, v in spec:
        size = 1 if code == 's' else struct.calcsize('<' + code)
        al = max(al, size)
        out += b'\0' * ((-len(out)) % size)
        if code == 's':
            out += struct.pack('<%ds' % cnt, v)
        elif cnt is None:
            out += struct.pack('<' + code, v)
        else:
            out += struct.pack('<%d%s' % (cnt, code), *v)
    return out + b'\0' * ((-len(out)) % al)


def session(rng):
    pid = rng.choice(['LT001', 'TPMS0001', 'X', 'DD012'])
    s = {'version': rng.randrange(5, 12), 'project_id': pid, 'session_id': rng.randrange(1, 9999), 'cra': rng.randrange(0, 2), 'beam': rng.choice([-1, 1, 2, 3, 4]),
         'spc': rng.choice(['', '1024 6144', '32 6144{Stokes=IV}']), 'mjd': rng.randrange(55000, 61000), 'mpm': rng.randrange(86400000),
         'dur': rng.randrange(10**8), 'mrp': [rng.randrange(-1, 3000) for _ in range(9)], 'mup': [rng.randrange(-1, 3000) for _ in range(9)],
         'flags': [rng.randrange(2) for _ in range(4)], 'obs': []}
    for k in range(rng.choice([1, 1, 2, 3, 5, 13])):
        mode = rng.choice(list(MODES))
        o = {'obs_id': k + 1, 'mjd': s['mjd'], 'mpm': rng.randrange(86400000), 'dur': rng.randrange(10**8), 'mode': mode, 'bdm': rng.choice(['', '12 0.5 1.0 Y']),
             'ra': rng.choice([0.0, 23.5, rng.randrange(24000) / 1024.0]), 'dec': rng.randrange(-90 * 64, 90 * 64) / 64.0, 'b': rng.randrange(1, 4),
             'f1': rng.randrange(2**32), 'f2': rng.randrange(2**32), 'bw': rng.randrange(1, 8), 'radec': rng.randrange(2), 'steps': [],
             'fee': [[rng.randrange(-1, 2), rng.randrange(-1, 2)] for _ in range(256)], 'gain': rng.randrange(-1, 16), 'tbt': rng.randrange(2**31)}
        for nm in ('flt', 'at1', 'at2', 'at3'):
            o[nm] = [rng.randrange(-1, 16) for _ in range(256)]
        if mode == 4:
            for _ in range(rng.choice([1, 2, 7])):
                st = {'c1': rng.randrange(0, 24 * 64) / 64.0, 'c2': rng.randrange(-90 * 64, 90 * 64) / 64.0, 't': rng.randrange(2**31), 'f1': rng.randrange(2**32),
                      'f2': rng.randrange(2**32), 'b': rng.choice([1, 2, 3])}
                if st['b'] == 3:
                    st['delay'] = [rng.randrange(65536) for _ in range(512)]
                    st['bgain'] = [[[rng.randrange(-32768, 32768) for _ in range(2)] for _ in range(2)] for _ in range(256)]
                o['steps'].append(st)
        s['obs'].append(o)
    return s


def enc_ses(s):
    return pack([('H', None, s['version']), ('s', 9, s['project_id'].encode()), ('I', None, s['session_id']), ('H', None, s['cra']), ('h', None, s['beam']),
                 ('s', 32, s['spc'].encode()), ('Q', None, s['mjd']), ('Q', None, s['mpm']), ('Q', None, s['dur']), ('I', None, len(s['obs']))]
                + [('h', None, v) for v in s['mrp'] + s['mup']] + [('b', None, v) for v in s['flags']])


def enc_obs(s, o):
    out = pack([('H', None, s['version']), ('s', 9, s['project_id'].encode()), ('I', None, s['session_id']), ('h', None, s['beam']), ('s', 32, s['spc'].encode()),
                ('I', None, o['obs_id']), ('Q', None, o['mjd']), ('Q', None, o['mpm']), ('Q', None, o['dur']), ('H', None, o['mode']), ('s', 32, o['bdm'].encode()),
                ('f', None, o['ra']), ('f', None, o['dec']), ('H', None, o['b']), ('I', None, o['f1']), ('I', None, o['f2']), ('H', None, o['bw']),
                ('I', None, len(o['steps'])), ('H', None, o['radec'])])
    for st in o['steps']:
        out += pack([('f', None, st['c1']), ('f', None, st['c2']), ('I', None, st['t']), ('I', None, st['f1']), ('I', None, st['f2']), ('H', None, st['b'])])
        if st['b'] == 3:
            out += pack([('H', 512, st['delay']), ('h', 1024, [g for a in st['bgain'] for b in a for g in b])])
        out += pack([('I', None, 2**32 - 2)])
    return out + pack([('h', 512, [v for a in o['fee'] for v in a])] + [('h', 256, o[k]) for k in ('flt', 'at1', 'at2', 'at3')]
                      + [('I', None, o['tbt']), ('h', None, o['gain']), ('I', None, 2**32 - 1)])


def commands(rng):
    from lsl.common.mcs import SubsystemID, CommandID
    subs = [x.value for x in SubsystemID if x.name not in ('DP', 'ADP')]
    cmds = [x.value for x in CommandID]
    out = []
    for _ in range(rng.randrange(1, 30)):
        txt = rng.choice(['', 'BEAM1', '1 2 73999999.996 7 6 0 0', 'x' * 200, 'DRSU-BARCODE', 'ends in blanks  ', ' \t'])
        out.append({'sec': rng.randrange(1, 2**31), 'usec': rng.randrange(10**6), 'asap': rng.randrange(2), 'sid': rng.choice(subs), 'cid': rng.choice(cmds),
                    'data': rng.choice([b'7', b'AB', b' ']) if rng.random() < 0.1 else txt.encode() + b'\0' if txt else b''})
    return out


def enc_cs(cmds, rng):
    out = b''
    for c in cmds:
        out += pack([('q', 2, [c['sec'], c['usec']]), ('i', None, c['asap']), ('i', None, c['sid']), ('i', None, c['cid']), ('i', None, len(c['data']))]) + c['data']
    return out + (pack([('q', 2, [0, 0]), ('i', 4, [0, 0, 0, 0])]) if rng.random() < 0.5 else b'')


def dynamic(rng):
    sub = [{'summary': rng.randrange(0, 7), 'info': rng.choice(['', 'OK', 'Everything fine']), 't': (rng.randrange(2**31), rng.randrange(10**6))} for _ in range(9)]
    r = lambda n: [rng.randrange(0, 4) for _ in range(n)]
    d = {'sub': sub, 'fee': r(256), 'rpd': r(512), 'sep': r(512), 'arb': r(512), 'snap': r(1024), 'server': r(5), 'dr': r(5), 'ant': r(512), 'ndpo': r(5),
         'mrp': [rng.randrange(-1, 1000) for _ in range(9)], 'mup': [rng.randrange(-1, 1000) for _ in range(9)], 'gain': rng.randrange(-1, 16)}
    for k in ('sfee', 'flt', 'at1', 'at2', 'at3'):
        d[k] = r(256)
    out = b''
    for s in sub:
        out += pack([('i', None, s['summary']), ('s', 256, s['info'].encode()), ('q', 2, s['t'])])
    out += pack([('i', len(d[k]), d[k]) for k in ('fee', 'rpd', 'sep', 'arb', 'snap', 'server', 'dr', 'ant', 'ndpo')])
    out += pack([('h', 9, d['mrp']), ('h', 9, d['mup'])] + [('h', 256, d[k]) for k in ('sfee', 'flt', 'at1', 'at2', 'at3')] + [('h', None, d['gain'])])
    return d, out


def write_tar(path, members, rng):
    import tarfile, io
    mode = rng.choice(['w', 'w:gz', 'w:bz2', 'w:xz'])
    with tarfile.open(path, mode) as tf:
        for name, data in members:
            if isinstance(data, tarfile.TarInfo):
                tf.addfile(data)
                continue
            ti = tarfile.TarInfo(name)
            ti.size = len(data)
            tf.addfile(ti, io.BytesIO(data))
    return mode


DRS = ['DR1', 'DR2', 'DR3', 'DR4', 'DR5']


class Watch:
    """Audit hook: every path opened for writing, created, linked, renamed or removed."""
    def __init__(self):
        import sys
        self.on, self.seen = False, []
        sys.addaudithook(self.hook)

    def hook(self, name, args):
        if not self.on:
            return
        import os
        try:
            if name == 'open':
                path, mode, flags = args
                if isinstance(path, int) or not flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND):
                    return
                self.seen.append((name, os.path.realpath(os.fsdecode(path))))
            elif name in ('os.mkdir', 'os.remove', 'os.rmdir', 'os.chmod', 'os.chown', 'os.truncate', 'os.utime', 'shutil.rmtree'):
                dfd = args[-1] if name in ('os.remove', 'os.rmdir') else -1
                p = args[0]
                if isinstance(p, int):
                    return
                base = os.readlink('/proc/self/fd/%d' % dfd) if isinstance(dfd, int) and dfd >= 0 else ''
                p = os.path.join(base, os.fsdecode(p))
                self.seen.append((name, os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))))
            elif name in ('os.symlink', 'os.link', 'os.rename'):
                p = os.fsdecode(args[1])
                self.seen.append((name, os.path.join(os.path.realpath(os.path.dirname(p)), os.path.basename(p))))
        except Exception:
            pass


_W = []


def watched(m, fn, tag):
    """fn() under the audit hook; every write must stay in the private temporary directories, which must be gone afterwards"""
    import os, tempfile, tarfile
    if not _W:
        _W.append(Watch())
    w = _W[0]
    tmp = os.path.join(os.path.realpath(m.scratch), 'tmp')
    os.makedirs(tmp, exist_ok=True)
    tempfile.tempdir = tmp
    w.seen = []
    w.on = True
    try:
        r, e = fn(), None
    except Exception as ex:
        r, e = None, ex
    finally:
        w.on = False
    for ev, p in w.seen:
        m.event('writes_seen')
        m.check(p.startswith(tmp + '/'), 'write-outside:' + tag, lambda: '%s %s' % (ev, p))
    m.check(not os.listdir(tmp), 'leftover:' + tag, lambda: repr(os.listdir(tmp)))
    return r, e


def call(m, fn, tag):
    r, e = watched(m, fn, tag)
    if e is not None:
        raise e
    return r


def bundles(m, n):
    import os, math
    from vf import ssmif
    from vf.checks.c13 import _entry
    from lsl.common import metabundle as mb, mcs
    try:
        import dbm.gnu as gdbm
    except ImportError:
        gdbm = None
    fs = 196e6
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        s = session(rng)
        stem = '%s_%04d' % (s['project_id'], s['session_id'])
        path = os.path.join(m.scratch, rng.choice(['fixed.tgz', stem + '.tgz', 'b%d.tar' % i]))
        cmds = commands(rng)
        dyn, dynb = dynamic(rng)
        mem = [(stem + '.ses', enc_ses(s)), (stem + '.cs', enc_cs(cmds, rng))]
        mem += [('%s_%04d.obs' % (stem, o['obs_id']), enc_obs(s, o)) for o in s['obs']]
        meta = {}
        lines = []
        for o in s['obs']:
            form = rng.randrange(6)
            out = rng.choice([0, 0, 1, 2, 5, 9])
            tag, bar, msg = '%06d_%09d' % (s['mjd'], o['mpm']), rng.choice(['S15TCV17S0001', 'UNK']), rng.choice(['UNK', 'Failed to do it', ''])
            if form == 4:
                # the barcode could not be read: that of the observation before is the best guess
                lines.append("%d [%s] ['Err: no answer'] %d [%s]" % (o['obs_id'], tag, out, msg))
                bar = meta[o['obs_id'] - 1]['barcode'] if o['obs_id'] - 1 in meta else 'UNK'
            elif form == 5:
                bad = rng.random() < 0.5
                lines.append('%d %s' % (o['obs_id'], 'Failed' if bad else out))
                tag = bar = msg = 'UNK'
                out = 1 if bad else out
            elif form == 0:
                lines.append("%d [%s] ['%s'] %d [%s]" % (o['obs_id'], tag, bar, out, msg))
            elif form == 1:
                lines.append("  %d [%s] [%s] %d [%s]" % (o['obs_id'], tag, bar, out, msg))
            elif form == 2:
                msg = msg or 'none'
                lines.append('%d %s %s %d %s' % (o['obs_id'], tag, bar, out, msg))
            else:
                msg = 'UNK'
                lines.append('%d %s %s %d' % (o['obs_id'], tag, bar, out))
            meta[o['obs_id']] = {'tag': tag, 'barcode': bar, 'outcome': out, 'msg': msg}
        mem.append((stem + '_metadata.txt', ('\n'.join(lines) + '\n').encode()))
        has = {k: rng.random() < 0.6 for k in ('sdm', 'ssmif', 'host', 'delay', 'asp')}
        if has['sdm']:
            mem.append(('dynamic/sdm.dat', dynb))
        mod = None
        if has['ssmif']:
            mod = ssmif.model(rng, rng.choice([8, 16, 64]))
            sett = mcs.parse_c_struct(mcs.STATION_SETTINGS_STRUCT, endianness='little')
            mem.append(('ssmif.dat', ssmif.binary(mod, 0, bytes(sett))))
        if has['host']:
            host = rng.choice(['somehost-mcs', 'lwa1-mcs', 'lwasv-mcs2'])
            mem.append(('mcs.host', host.encode() + b'\n'))
        delay = rng.randrange(0, 5000)
        if has['delay']:
            mem.append(('mindelay.txt', b'%d\n' % delay))
        asp = {}
        if has['asp'] and gdbm is not None:
            for which in ('begin', 'end'):
                q = os.path.join(m.scratch, 'asp.pag')
                db = gdbm.open(q, 'n')
                cfg = {k: [-1] * 256 for k in ('asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3')}
                for nm, pre in (('asp_filter', '3.%d'), ('asp_atten_1', '4.1.%d'), ('asp_atten_2', '4.2.%d'), ('asp_atten_3', '4.3.%d')):
                    base = rng.randrange(0, 16)
                    for a in rng.sample(range(256), rng.choice([0, 5, 256])):
                        v = base if rng.random() < 0.7 else rng.randrange(0, 16)
                        rec, _ = _entry(rng, 1, pre % (a + 1), 'NUL', 'NUL', 5, 6)
                        txt = b'%02d' % v
                        rec = rec[:16] + txt + b'\0' * (8192 - len(txt)) + b'a2\0\0\0\0a2\0\0\0\0' + rec[16 + 8192 + 12:]
                        db[pre % (a + 1)] = rec
                        cfg[nm][a] = v
                db.close()
                mem.append(('%s_ASP_%s.%s' % (stem, which, rng.choice(['pag', 'gdb'])), open(q, 'rb').read()))
                asp[which] = cfg
                os.unlink(q)
        rng.shuffle(mem)
        with m.case({'i': i, 'stem': stem, 'members': [x[0] for x in mem]}):
            write_tar(path, mem, rng)
            m.event('bundles')
            cwd = os.getcwd()
            rel = rng.random() < 0.3
            if rel:
                os.chdir(os.path.dirname(path))
                path = os.path.basename(path)
            try:
                g = call(m, lambda: mb.get_session_spec(path), 'session')
                want = {'version': s['version'], 'project_id': s['project_id'].encode(), 'session_id': s['session_id'], 'configuration_authority': s['cra'],
                        'drx_beam': s['beam'], 'spc_setup': s['spc'].encode(), 'mjd': s['mjd'], 'mpm': s['mpm'], 'dur': s['dur'], 'nobs': len(s['obs']),
                        'include_mcssch_log': s['flags'][0], 'include_mcsexe_log': s['flags'][1], 'include_station_smib': s['flags'][2], 'include_station_design': s['flags'][3]}
                for k, v in want.items():
                    m.event('fields')
                    m.equal(g[k], v, 'session:' + k)
                for k, src in (('record_mib', 'mrp'), ('update_mib', 'mup')):
                    w = dict(zip(['ASP', 'NDP'] + DRS + ['SHL', 'MCS'], s[src]))
                    m.equal(g[k], w, 'session:' + k)
                obs = call(m, lambda: mb.get_observation_spec(path), 'observation')
                m.equal([o['obs_id'] for o in obs], [o['obs_id'] for o in s['obs']], 'observation-ids')
                for g, o in zip(obs, s['obs']):
                    judge_obs(m, g, s, o, fs)
                k = rng.choice(s['obs'])
                g = call(m, lambda: mb.get_observation_spec(path, obs_id=k['obs_id']), 'observation')
                judge_obs(m, g, s, k, fs)
                if len(s['obs']) > 2:
                    pick = sorted(rng.sample(range(1, len(s['obs']) + 1), rng.randint(2, len(s['obs']) - 1)))
                    ask = pick + [99] if rng.random() < 0.3 else list(pick)
                    rng.shuffle(ask)
                    g = call(m, lambda: mb.get_observation_spec(path, obs_id=rng.choice([list, tuple, set])(ask)), 'observation')
                    m.equal([o['obs_id'] for o in g], pick, 'observation-selection')
                m.equal(call(m, lambda: mb.get_observation_spec(path, obs_id=[0, 77]), 'observation'), [], 'observation-selection')
                g = call(m, lambda: mb.get_command_script(path), 'commands')
                m.equal(len(g), len(cmds), 'command-count')
                for a, c in zip(g, cmds):
                    m.event('fields')
                    m.check(abs(a['time'] - (c['sec'] + c['usec'] / 1e6)) < 1e-6, 'command-time', lambda: repr((a, c)))
                    m.equal((a['ignore_time'], a['subsystem_id'].value, a['command_id'].value, a['command_length']), (bool(c['asap']), c['sid'], c['cid'], len(c['data'])), 'command')
                    m.equal(a['data'], c['data'].rstrip(b'\0') if c['data'] else None, 'command-data')
                m.equal(call(m, lambda: mb.get_session_metadata(path), 'metadata'), meta, 'session-metadata')
                m.equal(call(m, lambda: mb.get_mcs_hostname(path), 'host'), host if has['host'] else 'unknown', 'hostname')
                m.equal(call(m, lambda: mb.get_beamformer_min_delay(path), 'delay'), delay if has['delay'] else None, 'min-delay')
                for which in ('begin', 'end'):
                    cfg = asp.get(which, {k: [-1] * 256 for k in ('asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3')})
                    m.equal(call(m, lambda: mb.get_asp_configuration(path, which=which), 'asp'), cfg, 'asp-configuration')
                    sm = call(m, lambda: mb.get_asp_configuration_summary(path, which=which), 'asp')
                    for k, v in cfg.items():
                        m.check(v.count(sm[k]) == max(v.count(x) for x in v), 'asp-summary', lambda: '%s: %r of %r' % (k, sm[k], v))
                d = call(m, lambda: mb.get_sdm(path), 'sdm')
                m.equal(d is not None, has['sdm'], 'sdm-present')
                if d is not None:
                    judge_sdm(m, d, dyn)
                st = call(m, lambda: mb.get_station(path, apply_sdm=bool(i % 2)), 'station')
                if not has['ssmif']:
                    named = {'lwa1-mcs': 'LWA1', 'lwasv-mcs2': 'LWASV'}.get(host if has['host'] else None)
                    m.equal(st.name.replace('-', '') if st is not None else None, named, 'station-from-host')
                    st = None
                else:
                    m.check(st is not None, 'station-present', 'no station')
                if st is not None:
                    m.equal(st.id, mod['id'], 'station-id')
                    exp = ssmif.expected(mod)
                    m.equal(sorted(a.id for a in st.antennas), sorted(exp), 'station-antennas')
                    if has['delay']:
                        m.equal(st.beamformer_min_delay_samples, delay, 'station-min-delay')
                        m.check(math.isclose(st.beamformer_min_delay, delay / fs), 'station-min-delay')
                    for a in st.antennas:
                        e = exp[a.id]
                        w = dyn['ant'][2 * (e['stand'] - 1) + e['pol']] if (i % 2 and has['sdm']) else e['status']
                        m.equal(a.status, w, 'station-status')
                m.equal(call(m, lambda: mb.is_valid(path), 'valid'), True, 'is-valid')
            finally:
                if rel:
                    os.chdir(cwd)


def judge_obs(m, g, s, o, fs):
    want = {'version': s['version'], 'project_id': s['project_id'].encode(), 'session_id': s['session_id'], 'drx_beam': s['beam'], 'spc_setup': s['spc'].encode(),
            'obs_id': o['obs_id'], 'mjd': o['mjd'], 'mpm': o['mpm'], 'dur': o['dur'], 'beamdipole_mode': o['bdm'].encode(), 'ra': o['ra'], 'dec': o['dec'], 'beam': o['b'],
            'bw': o['bw'], 'nsteps': len(o['steps']), 'is_radec': o['radec'], 'fee_power': o['fee'], 'asp_filter': o['flt'], 'asp_atten_1': o['at1'], 'asp_atten_2': o['at2'],
            'asp_atten_3': o['at3'], 'tbt_samples': o['tbt'], 'drx_gain': o['gain']}
    for k, v in want.items():
        m.event('fields')
        m.equal(g[k], v, 'observation:' + k)
    m.equal(g['mode'].name, MODES[o['mode']], 'observation:mode')
    m.check(abs(g['freq1'] - o['f1'] * fs / 2**32) < 1e-3 and abs(g['freq2'] - o['f2'] * fs / 2**32) < 1e-3, 'observation:freq')
    m.equal(len(g['steps']), len(o['steps']), 'observation:steps')
    for a, b in zip(g['steps'], o['steps']):
        m.event('steps')
        m.equal((a.OBS_STP_C1, a.OBS_STP_C2, a.OBS_STP_T, a.OBS_STP_FREQ1, a.OBS_STP_FREQ2, a.OBS_STP_B), (b['c1'], b['c2'], b['t'], b['f1'], b['f2'], b['b']), 'step')
        m.equal(list(a.delay), b.get('delay', []), 'step-delay')
        m.equal([[list(y) for y in x] for x in a.gain], b.get('bgain', []), 'step-gain')


def blank(m, n):
    from lsl.common import sdm
    from lsl.common.mcs import ME_MAX_NSTD, ME_MAX_NFEE, ME_MAX_NRPD, ME_MAX_NSEP, ME_MAX_NARB, ME_MAX_NSNAP, ME_MAX_NSERVER, ME_MAX_NDR
    unknown = dict.fromkeys(['ASP', 'NDP'] + DRS + ['SHL', 'MCS'], -1)
    kinds = ((sdm.SubSubSystemStatus, [(k, [0] * v) for k, v in (('fee', ME_MAX_NFEE), ('rpd', ME_MAX_NRPD), ('sep', ME_MAX_NSEP), ('arb', ME_MAX_NARB), ('snap', ME_MAX_NSNAP),
                                                                ('server', ME_MAX_NSERVER), ('dr', ME_MAX_NDR))]),
             (sdm.StationSettings, [('report', unknown), ('update', unknown)] + [(k, [0] * ME_MAX_NSTD) for k in ('fee_power', 'asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3')] +
              [('drx_gain', -1)]),
             (sdm.SDM, [('ant_status', [[0, 0]] * ME_MAX_NSTD), ('ndpo_status', [0] * ME_MAX_NDR)]))
    for i in range(m.n(n)):
        rng = m.rng(i)
        cls, defaults = kinds[i % 3]
        given = {k: [object()] for k, _ in defaults if rng.random() < 0.4}
        with m.case({'sdm': cls.__name__, 'given': sorted(given)}):
            o = call(m, lambda: cls(**given), 'constructed')
            for k, v in defaults:
                m.event('fields')
                if k in given:
                    m.check(getattr(o, k) is given[k], 'sdm-given:' + k)
                else:
                    m.equal(getattr(o, k), v, 'sdm-default:' + k)
            if cls is sdm.SDM:
                m.equal([s.name for s in [o.station, o.shl, o.asp, o.ndp] + list(o.dr)], ['station', 'shl', 'asp', 'ndp'] + ['dr%d' % (k + 1) for k in range(ME_MAX_NDR)], 'sdm-names')
                m.equal({(getattr(s.summary, 'value', s.summary), s.info, s.time) for s in [o.station, o.shl, o.asp, o.ndp] + list(o.dr)}, {(6, 'UNK', 0)}, 'sdm-unknown')
                p = call(m, lambda: cls(**given), 'constructed')
                m.check(p.status is not o.status and p.settings is not o.settings and p.settings.report is not o.settings.report, 'sdm-own')
                o.settings.report['ASP'] = 5
                m.equal(p.settings.report['ASP'], -1, 'sdm-own')


def judge_sdm(m, d, dyn):
    multi = lambda v, n: [v[k:k + n] for k in range(0, len(v), n)]
    for g, w in zip([d.station, d.shl, d.asp, d.ndp] + list(d.dr), dyn['sub']):
        v = getattr(g.summary, 'value', g.summary)
        m.equal(v, w['summary'], 'sdm-summary')
        info = g.info.decode() if isinstance(g.info, bytes) else g.info
        m.equal(info, w['info'], 'sdm-info')
        m.check(abs(g.time - (w['t'][0] + w['t'][1] / 1e6)) < 1e-6, 'sdm-time')
        str(g)
    st = d.status
    for g, w in ((st.fee, dyn['fee']), (st.rpd, dyn['rpd']), (st.sep, dyn['sep']), (st.arb, multi(dyn['arb'], 16)), (st.snap, multi(dyn['snap'], 64)), (st.server, dyn['server']),
                 (st.dr, dyn['dr']), (d.ant_status, multi(dyn['ant'], 2)), (d.ndpo_status, dyn['ndpo']), (d.settings.fee_power, dyn['sfee']), (d.settings.asp_filter, dyn['flt']),
                 (d.settings.asp_atten_1, dyn['at1']), (d.settings.asp_atten_2, dyn['at2']), (d.settings.asp_atten_3, dyn['at3']), (d.settings.drx_gain, dyn['gain']),
                 (d.settings.report, dict(zip(['ASP', 'NDP'] + DRS + ['SHL', 'MCS'], dyn['mrp']))), (d.settings.update, dict(zip(['ASP', 'NDP'] + DRS + ['SHL', 'MCS'], dyn['mup'])))):
        m.event('fields')
        m.equal(g, w, 'sdm')


def hostile(m, n):
    import os, tarfile, warnings
    from lsl.common import metabundle as mb
    warnings.simplefilter('ignore')
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        s = session(rng)
        stem = '%s_%04d' % (s['project_id'], s['session_id'])
        out = os.path.join(os.path.realpath(m.scratch), 'outside')
        os.makedirs(out, exist_ok=True)
        victim = os.path.join(out, 'victim.obs')
        open(victim, 'w').write('precious')
        good = [(stem + '.ses', enc_ses(s)), (stem + '.cs', enc_cs(commands(rng), rng)), (stem + '_metadata.txt', b'1 060902_000067516 UNK 0 UNK\n')]
        good += [('%s_%04d.obs' % (stem, o['obs_id']), enc_obs(s, o)) for o in s['obs']]
        suf = rng.choice(['.obs', '.ses', '.cs', '_metadata.txt', '_ASP_begin.pag', '.txt'])
        up = '../' * rng.randrange(1, 6)

        def link(name, target, typ):
            t = tarfile.TarInfo(name)
            t.type, t.linkname = typ, target
            return (name, t)
        evil = []
        for kind in rng.sample(['dots', 'abs', 'symdir', 'symfile', 'hardfile', 'midots', 'sibling', 'fifo'], rng.randrange(1, 5)):
            if kind == 'dots':
                evil.append((up + 'outside/evil' + suf, b'x' * 50))
            elif kind == 'abs':
                evil.append((out + '/evil' + suf, b'x' * 50))
            elif kind == 'midots':
                evil.append(('a/../../../outside/evil' + suf, b'x' * 50))
            elif kind == 'sibling':
                evil.append(('../metadata-bundle-evil' + suf, b'x' * 50))
            elif kind == 'symdir':
                evil += [link('d' + suf, out, tarfile.SYMTYPE), ('d%s/evil%s' % (suf, suf), b'x' * 50)]
            elif kind == 'symfile':
                evil += [link('s' + suf, victim, tarfile.SYMTYPE), ('s' + suf, b'x' * 50)]
            elif kind == 'fifo':
                t = tarfile.TarInfo('special' + rng.choice(['.xyz', '.dat']))
                t.type = tarfile.FIFOTYPE
                evil.append((t.name, t))
            else:
                evil += [link('h' + suf, victim, tarfile.LNKTYPE), ('h' + suf, b'x' * 50)]
        mem = evil + good if rng.random() < 0.6 else good + evil
        path = os.path.join(m.scratch, 'h%d.tgz' % i)
        with m.case({'i': i, 'members': [x[0] for x in mem]}):
            write_tar(path, mem, rng)
            m.event('hostile')
            for fn in (mb.get_session_spec, mb.get_observation_spec, mb.get_command_script, mb.get_session_metadata, mb.get_sdm, mb.get_station, mb.get_mcs_hostname,
                       mb.get_beamformer_min_delay, mb.get_sdf, mb.get_asp_configuration):
                r, e = watched(m, lambda: fn(path), fn.__name__)
                m.event('refused' if e is not None else 'read')
            m.equal(os.listdir(out), ['victim.obs'], 'escaped-member')
            m.equal(open(victim).read(), 'precious', 'overwritten-file')
        for f in os.listdir(out):
            os.unlink(os.path.join(out, f))
        os.unlink(path)


JOBS = {'blank': (blank, 'plain', 30), 'bundles0': (bundles, 'plain', 40), 'bundles1': (bundles, 'plain', 40), 'hostile': (hostile, 'plain', 60)}
