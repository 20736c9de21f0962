"""C24 - Session definition files: what is written is what was asked for, and reading gives it back."""
import math, os, re
from datetime import datetime, timedelta, timezone

RULE = ('random projects (every observing mode, stepped beams, beam-dipole, FEE/ASP settings, MIB intervals, spectrometer, comments, '
        'project office notes, observations in random order), each rendered, read by an independent key/value reader and by parse_sdf, rendered again; '
        'boundary mutations of valid sessions with a known verdict; random time strings, time zones and durations against datetime arithmetic; distinct = distinct cases')
OPTS = {'scale': 6}
NEED = {'sessions': 60, 'observations': 150, 'verdicts': 250, 'times': 1500, 'settings': 400}
FS = 196e6
BW = {1: 250000, 2: 500000, 3: 1000000, 4: 2000000, 5: 4900000, 6: 9800000, 7: 19600000}
MIB = ['ASP', 'NDP', 'DR1', 'DR2', 'DR3', 'DR4', 'DR5', 'SHL', 'MCS']
EP = datetime(1858, 11, 17, tzinfo=timezone.utc)
WORDS = ['Cyg A', 'pulsar', 'B0329+54', 'all-sky', 'test', '3C 286', 'Jupiter', 'run #2', 'drift', "crab's", 'a;b', '100%', 'x=y', '{braces}', 'deep']


def refuse(m, exc, fn, mech, *a, **k):
    return m.raises(exc, lambda: fn(*a, **k), mech, repr(a))


def text(rng, n=4):
    return ' '.join(rng.choice(WORDS) for _ in range(rng.randint(1, n)))


def word(f):
    return int(round(f * 2**32 / FS))


def when(mjd, mpm):
    return EP + timedelta(days=mjd, milliseconds=mpm)


def altitude(st, body, t):
    import ephem
    o = ephem.Observer()
    o.lat, o.lon, o.elevation, o.pressure = st.lat, st.long, st.elev, 0
    o.date = t.replace(tzinfo=None)
    body.compute(o)
    return math.degrees(body.alt)


def lst(st, t):
    import ephem
    o = ephem.Observer()
    o.lat, o.lon, o.elevation = st.lat, st.long, st.elev
    o.date = t.replace(tzinfo=None)
    return float(o.sidereal_time()) * 12 / math.pi


def starts(rng, n, total):
    """n start times, in order, far enough apart for observations of up to `total` ms, with some back to back."""
    mjd = rng.randint(58000, 61500)
    t = mjd * 86400000 + rng.randrange(86400000)
    return t


def body_up(rng, st, body, dur):
    """A start time, in ms of MJD, at which the body stays well up for dur ms."""
    for _ in range(400):
        t = rng.randint(58000, 61500) * 86400000 + rng.randrange(86400000)
        if all(altitude(st, body, EP + timedelta(milliseconds=t + k * dur / 4)) > 12 for k in range(5)):
            return t
    return None


def draw_step(rng, st, radec, t, small=True):
    d = {'radec': radec, 'dur': rng.choice([5, 6000, 30000, rng.randint(5, 600000)]), 'f1': rng.uniform(15e6, 85e6), 'f2': rng.choice([0.0, rng.uniform(15e6, 85e6)]),
         'hdr': rng.random() < 0.4, 'delays': None, 'gains': None}
    if radec:
        if rng.random() < 0.5:
            d['c1'], d['c2'] = rng.uniform(0, 23.999999), rng.uniform(62, 90)
        else:
            d['c1'], d['c2'] = (lst(st, EP + timedelta(milliseconds=t)) + rng.uniform(-1, 1)) % 24.0, rng.uniform(0, 70)
        if d['c1'] >= 23.9999999:
            d['c1'] = 0.0
    else:
        d['c1'], d['c2'] = rng.choice([0.0, 359.5, rng.uniform(0, 359.9)]), rng.choice([90.0, rng.uniform(1, 90)])
    if rng.random() < 0.25:
        d['delays'] = [rng.randrange(65536) for _ in range(512)]
        d['gains'] = [[[rng.randrange(-32768, 32768) for _ in range(2)] for _ in range(2)] for _ in range(256)]
    return d


def draw_obs(rng, st, t, family):
    """A specification of one observation starting at t (ms of MJD)."""
    o = {'t': t, 'name': text(rng), 'target': text(rng, 2), 'comments': rng.choice([None, text(rng, 8)]), 'gain': -1, 'hdr': False, 'bdm': None}
    if family == 'tb':
        o['mode'] = rng.choice(['TBT', 'TBS', 'TBS'])
    else:
        o['mode'] = rng.choice(['TRK_RADEC', 'TRK_RADEC', 'STEPPED', 'STEPPED'])
    if o['mode'] == 'TBT':
        o['samples'] = rng.choice([392000000, 196000000, rng.randint(1, 392000000)])
        o['dur'] = None
    elif o['mode'] == 'TBS':
        o['f1'], o['filter'], o['dur'] = rng.uniform(4e6, 92e6), 8, rng.choice([1, 60000, rng.randint(1, 3600000)])
    else:
        o['filter'] = rng.randint(1, 7)
        o['gain'] = rng.choice([-1, -1, 0, 6, rng.randint(0, 12)])
        o['f1'], o['f2'] = rng.uniform(11e6, 87e6), rng.choice([0.0, rng.uniform(11e6, 87e6)])
        if o['mode'] == 'TRK_RADEC':
            o['hdr'] = rng.random() < 0.4
            o['dur'] = rng.choice([1, 59999, 60000, 3599999, 3600000, rng.randint(1, 3600000)])
            if rng.random() < 0.5:
                o['ra'], o['dec'] = rng.uniform(0, 23.999999), rng.uniform(62, 90)
            else:
                o['ra'], o['dec'] = (lst(st, EP + timedelta(milliseconds=t)) + rng.uniform(-1, 1)) % 24.0, rng.uniform(0, 70)
            if o['ra'] >= 23.9999999:
                o['ra'] = 0.0
        else:
            radec = rng.random() < 0.6
            o['radec'] = radec
            steps, tt = [], t
            for _ in range(rng.randint(1, 6)):
                steps.append(draw_step(rng, st, radec, tt))
                tt += steps[-1]['dur']
            o['steps'] = steps
            o['dur'] = sum(s['dur'] for s in steps)
        if rng.random() < 0.3:
            o['bdm'] = (rng.randint(1, 256), rng.randrange(10001) / 10000.0, rng.randrange(10001) / 10000.0, rng.choice('XYxy'))
    settings(rng, o)
    return o


def settings(rng, o):
    """FEE and ASP settings: all default, all the same, or per stand (with defaults among them)."""
    for k, vals in (('asp_filter', range(-1, 8)), ('asp_atten_1', range(-1, 16)), ('asp_atten_2', range(-1, 16)), ('asp_atten_3', range(-1, 32))):
        r = rng.random()
        if r < 0.5:
            o[k] = [-1] * 256
        elif r < 0.75:
            o[k] = [rng.choice(list(vals))] * 256
        else:
            o[k] = [rng.choice(list(vals)) for _ in range(256)]
    r = rng.random()
    if r < 0.5:
        o['fee_power'] = [[-1, -1] for _ in range(256)]
    elif r < 0.8:
        a, b = rng.choice([-1, 0, 1]), rng.choice([-1, 0, 1])
        o['fee_power'] = [[a, b] for _ in range(256)]
    else:
        o['fee_power'] = [[rng.choice([-1, 0, 1]), rng.choice([-1, 0, 1])] for _ in range(256)]


def draw_session(rng, st, family=None):
    family = family or rng.choice(['tb', 'drx', 'drx', 'drx', 'body'])
    s = {'id': rng.choice([1, 9999, rng.randint(1, 9999)]), 'name': text(rng), 'comments': rng.choice([None, text(rng, 8)]), 'drm': rng.choice(['UCF', 'DRSU', 'USB Harddrives']),
         'ucf': rng.choice([None, None, 'me', 'a_user/sub/dir-1', 'User9/x+y']), 'cra': rng.choice([0, 0, 1, 65535]), 'beam': rng.choice([-1, 1, 2, 3, 4]),
         'spc': [0, 0], 'tag': None, 'rmib': {k: rng.choice([-1, -1, -1, 0, 5]) for k in MIB}, 'umib': {k: rng.choice([-1, -1, -1, 0, 7]) for k in MIB},
         'flags': [rng.random() < 0.4 for _ in range(4)], 'obs': []}
    if family != 'tb' and rng.random() < 0.4:
        s['spc'] = [2**rng.randint(1, 13), 384 * 2**rng.randint(0, 9)]
        s['tag'] = rng.choice([None, '{Stokes=XXYY}', '{Stokes=IQUV}', '{Stokes=IV}'])
    if family == 'body':
        import ephem
        mode, body = rng.choice([('TRK_SOL', ephem.Sun()), ('TRK_JOV', ephem.Jupiter()), ('TRK_LUN', ephem.Moon())])
        dur = rng.choice([1000, 1800000, rng.randint(1, 5400000)])
        t = body_up(rng, st, body, dur + 1000)
        o = {'t': t, 'mode': mode, 'name': text(rng), 'target': text(rng, 2), 'comments': rng.choice([None, text(rng, 8)]), 'gain': rng.choice([-1, 3]), 'hdr': rng.random() < 0.5,
             'bdm': None, 'dur': dur, 'f1': rng.uniform(11e6, 87e6), 'f2': rng.choice([0.0, rng.uniform(11e6, 87e6)]), 'filter': rng.randint(1, 7)}
        settings(rng, o)
        s['obs'].append(o)
    else:
        t = rng.randint(58000, 61500) * 86400000 + rng.choice([0, 86399999, rng.randrange(86400000)])
        for _ in range(rng.randint(1, 5)):
            o = draw_obs(rng, st, t, family)
            s['obs'].append(o)
            d = o['dur'] if o['dur'] is not None else 400000
            t += d + rng.choice([0, 1, rng.randint(0, 7200000)])
    return s


def build_obs(rng, o):
    """The specification as an lsl object; times and durations in the forms the documentation allows."""
    from lsl.common import sdf
    start = EP + timedelta(milliseconds=o['t'])
    start = start if rng.random() < 0.5 else start.strftime('UTC %Y/%m/%d %H:%M:%S.') + '%03d' % (start.microsecond // 1000)

    def dur(ms):
        k = rng.randrange(3)
        if k == 0:
            return '%02i:%02i:%02i.%03i' % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000)
        return timedelta(milliseconds=ms) if k == 1 else ms / 1000.0
    if o['mode'] == 'TBT':
        r = sdf.TBT(o['name'], o['target'], start, o['samples'], comments=o['comments'])
    elif o['mode'] == 'TBS':
        r = sdf.TBS(o['name'], o['target'], start, dur(o['dur']), o['f1'], o['filter'], comments=o['comments'])
    elif o['mode'] == 'TRK_RADEC':
        r = sdf.DRX(o['name'], o['target'], start, dur(o['dur']), o['ra'], o['dec'], o['f1'], o['f2'], o['filter'], gain=o['gain'], high_dr=o['hdr'], comments=o['comments'])
    elif o['mode'] in ('TRK_SOL', 'TRK_JOV', 'TRK_LUN'):
        c = {'TRK_SOL': sdf.Solar, 'TRK_JOV': sdf.Jovian, 'TRK_LUN': sdf.Lunar}[o['mode']]
        r = c(o['name'], o['target'], start, dur(o['dur']), o['f1'], o['f2'], o['filter'], gain=o['gain'], high_dr=o['hdr'], comments=o['comments'])
    else:
        steps = [sdf.BeamStep(s['c1'], s['c2'], dur(s['dur']), s['f1'], s['f2'], is_radec=s['radec'], high_dr=s['hdr'], spec_delays=s['delays'], spec_gains=s['gains']) for s in o['steps']]
        r = sdf.Stepped(o['name'], o['target'], start, o['filter'], steps=steps, is_radec=o['radec'], gain=o['gain'], comments=o['comments'])
    if o['bdm']:
        r.set_beamdipole_mode(o['bdm'][0], beam_gain=o['bdm'][1], dipole_gain=o['bdm'][2], pol=o['bdm'][3])
    for k in ('fee_power', 'asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3'):
        v = o[k]
        setattr(r, k, [list(x) for x in v] if k == 'fee_power' else list(v))
    return r


def build(rng, p):
    from lsl.common import sdf
    po = sdf.ProjectOffice(project=p['po'], sessions=list(p['pos']), observations=[list(x) for x in p['poo']])
    proj = sdf.Project(sdf.Observer(p['pi'], p['pid']), p['name'], p['id'], comments=p['comments'], project_office=po)
    for s in p['sessions']:
        ses = sdf.Session(s['name'], s['id'], data_return_method=s['drm'], comments=s['comments'])
        obs = [build_obs(rng, o) for o in s['obs']]
        rng.shuffle(obs)
        for o in obs:
            ses.append(o)
        ses.ucf_username = s['ucf']
        ses.configuration_authority = s['cra']
        ses.drx_beam = s['beam']
        if s['spc'] != [0, 0]:
            ses.spectrometer_channels, ses.spectrometer_integration = s['spc']
            ses.spectrometer_metatag = s['tag']
        for k in MIB:
            ses.set_mib_record_interval(k, s['rmib'][k])
            ses.set_mib_update_interval(k, s['umib'][k])
        ses.include_mcssch_log, ses.include_mcsexe_log, ses.include_station_smib, ses.include_station_design = s['flags']
        proj.append(ses)
    return proj


def keyed(txt):
    """An independent reader: (keyword, indices) -> value, with the observations apart."""
    head, obs, cur = {}, [], None
    for line in txt.split('\n'):
        if not line.strip():
            continue
        k, v = line.split(None, 1) if len(line.split(None, 1)) == 2 else (line.strip(), '')
        if k == 'OBS_ID':
            cur = {}
            obs.append(cur)
        d = head if cur is None else cur
        if k.startswith('PI_') or k.startswith('PROJECT_') or k.startswith('SESSION_'):
            d = head
        assert k not in d, 'keyword %s twice' % k
        d[k] = v
    return head, obs


def tbt_dur(samples):
    return (samples / 196000 + 1) * 150 + 5000


def roundtrip(m, n):
    from lsl.common import sdf
    from lsl.common.stations import lwa1 as st
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        p = {'pi': rng.choice(['Doe, Jane', 'Single', 'van der X, A. B.']), 'pid': rng.randint(0, 99999), 'name': text(rng), 'id': rng.choice(['XX001', 'LD0001AB', 'a']),
             'comments': rng.choice([None, text(rng, 9)]), 'po': rng.choice([None, text(rng)]), 'sessions': [draw_session(rng, st) for _ in range(rng.choice([1, 1, 2]))]}
        p['pos'] = rng.choice([[], [text(rng) for _ in p['sessions']]])
        p['poo'] = rng.choice([[], [[rng.choice([None, text(rng)]) for _ in s['obs']][:rng.randint(0, len(s['obs']))] for s in p['sessions']]])
        with m.case({'i': i, 'modes': [[o['mode'] for o in s['obs']] for s in p['sessions']]}):
            if rng.random() < 0.1:
                # the longest comments there can be
                pad = lambda: ((text(rng, 9) + ' ') * 4090)[:4089] + 'x'
                p['comments'], p['po'] = pad(), pad()
                s = p['sessions'][0]
                s['comments'] = pad()[:4089 - (len('ucfuser:%s;;' % s['ucf']) if s['ucf'] else 0)] + 'x'
                s['obs'][-1]['comments'] = pad()
            proj = build(rng, p)
            m.require(proj.validate(), 'valid-session-refused', lambda: 'a session within all the limits is refused: %r' % (p,))
            for k, s in enumerate(p['sessions']):
                m.event('sessions')
                txt = proj.render(session=k)
                m.equal(proj.render(session=k), txt, 'render-repeat')
                fn = os.path.join(m.scratch, 's%d.sdf' % k)
                proj.writeto(fn, session=k, overwrite=True)
                with open(fn) as fh:
                    m.equal(fh.read(), txt, 'writeto')
                refuse(m, RuntimeError, proj.writeto, 'overwrite-refused', fn, session=k)
                judge_text(m, p, s, k, txt)
                back = sdf.parse_sdf(fn)
                judge_objects(m, p, s, k, back)
                m.check(sdf.is_valid(fn), 'is-valid', 'a file that was just written is called invalid')
                txt2 = back.render()
                m.check(txt2 == txt, 'render-of-parsed', lambda: diff(txt, txt2))


def diff(a, b):
    import difflib
    return '\n'.join(list(difflib.unified_diff(a.split('\n'), b.split('\n'), lineterm='', n=0))[:20])


def mhz(f):
    return '%.9f MHz' % (word(f) * 196e6 / 2**32 / 1e6)


def judge_text(m, p, s, k, txt):
    head, obs = keyed(txt)
    want = {'PI_ID': str(p['pid']), 'PI_NAME': p['pi'], 'PROJECT_ID': p['id'], 'PROJECT_TITLE': p['name'], 'SESSION_ID': str(s['id']), 'SESSION_TITLE': s['name']}
    if p['comments']:
        want['PROJECT_REMPI'] = p['comments']
    if p['po']:
        want['PROJECT_REMPO'] = p['po']
    c = s['comments'] or ''
    if s['ucf']:
        c = 'ucfuser:%s' % s['ucf'] + (';;' + c if c else '')
    if c:
        want['SESSION_REMPI'] = c
    want['SESSION_REMPO'] = 'Requested data return method is %s' % s['drm'] + (';;' + p['pos'][k] if p['pos'] else '')
    opt = {'SESSION_CRA': s['cra'] or None, 'SESSION_DRX_BEAM': None if s['beam'] == -1 else s['beam'],
           'SESSION_LOG_SCH': 1 if s['flags'][0] else None, 'SESSION_LOG_EXE': 1 if s['flags'][1] else None,
           'SESSION_INC_SMIB': 1 if s['flags'][2] else None, 'SESSION_INC_DES': 1 if s['flags'][3] else None,
           'SESSION_SPC': None if s['spc'] == [0, 0] else '%d %d%s' % (s['spc'][0], s['spc'][1], s['tag'] or '')}
    for c in MIB:
        opt['SESSION_MRP_' + c] = None if s['rmib'][c] == -1 else s['rmib'][c]
        opt['SESSION_MUP_' + c] = None if s['umib'][c] == -1 else s['umib'][c]
    for q, v in opt.items():
        if v is None:
            m.check(q not in head, 'text-optional', lambda: '%s written though not asked for' % q)
        else:
            want[q] = str(v)
    for q, v in want.items():
        m.equal(head.get(q), v, 'text:%s' % re.sub('(MRP|MUP)_.*', r'\1', q))
    so = sorted(s['obs'], key=lambda o: o['t'])
    if not m.check(len(obs) == len(so), 'text-obs-count', lambda: '%d observations written, %d asked for' % (len(obs), len(so))):
        return
    poo = (p['poo'][k] if p['poo'] else []) + [None] * len(so)
    for j, (o, d) in enumerate(zip(so, obs)):
        m.event('observations')
        w = {'OBS_ID': str(j + 1), 'OBS_TITLE': o['name'], 'OBS_TARGET': o['target'], 'OBS_MODE': o['mode'], 'OBS_START_MJD': str(o['t'] // 86400000), 'OBS_START_MPM': str(o['t'] % 86400000)}
        if o['comments']:
            w['OBS_REMPI'] = o['comments']
        if poo[j]:
            w['OBS_REMPO'] = poo[j]
        if o['dur'] is None:
            m.check(abs(int(d['OBS_DUR']) - tbt_dur(o['samples'])) <= 1, 'text-tbt-duration', lambda: '%s ms for %d samples' % (d['OBS_DUR'], o['samples']))
            w['OBS_TBT_SAMPLES'] = str(o['samples'])
        else:
            w['OBS_DUR'] = str(o['dur'])
            w['OBS_DUR+'] = '%i:%02i:%02i.%03i' % (o['dur'] // 3600000, o['dur'] // 60000 % 60, o['dur'] // 1000 % 60, o['dur'] % 1000)
        if o['mode'] not in ('TBT', 'STEPPED'):
            w['OBS_FREQ1'] = str(word(o['f1']))
            w['OBS_FREQ1+'] = mhz(o['f1'])
        if o['mode'].startswith('TRK'):
            w['OBS_FREQ2'] = str(word(o['f2']))
            w['OBS_FREQ2+'] = mhz(o['f2'])
            w['OBS_B'] = 'HIGH_DR' if o['hdr'] else 'SIMPLE'
        if o['mode'] != 'TBT':
            w['OBS_BW'] = str(o['filter'])
        if o['gain'] != -1:
            w['OBS_DRX_GAIN'] = str(o['gain'])
        else:
            m.check('OBS_DRX_GAIN' not in d, 'text-gain')
        if o['mode'] == 'TRK_RADEC':
            m.check(abs(float(d['OBS_RA']) - o['ra']) < 1e-9 and abs(float(d['OBS_DEC']) - o['dec']) < 1e-9, 'text-pointing', lambda: '%s %s for %r %r' % (d['OBS_RA'], d['OBS_DEC'], o['ra'], o['dec']))
        if o['mode'] == 'STEPPED':
            w['OBS_STP_N'] = str(len(o['steps']))
            w['OBS_STP_RADEC'] = str(int(o['radec']))
            for q, x in enumerate(o['steps']):
                q += 1
                m.event('steps')
                m.check(abs(float(d['OBS_STP_C1[%d]' % q]) - x['c1']) < 1e-9 and abs(float(d['OBS_STP_C2[%d]' % q]) - x['c2']) < 1e-9, 'text-step-pointing')
                w['OBS_STP_T[%d]' % q] = str(x['dur'])
                w['OBS_STP_FREQ1[%d]' % q] = str(word(x['f1']))
                w['OBS_STP_FREQ2[%d]' % q] = str(word(x['f2']))
                w['OBS_STP_FREQ1+[%d]' % q], w['OBS_STP_FREQ2+[%d]' % q] = mhz(x['f1']), mhz(x['f2'])
                w['OBS_STP_B[%d]' % q] = 'SPEC_DELAYS_GAINS' if x['delays'] else 'HIGH_DR' if x['hdr'] else 'SIMPLE'
                if x['delays']:
                    for a in (0, 1, 255, 511):
                        w['OBS_BEAM_DELAY[%d][%d]' % (q, a + 1)] = str(x['delays'][a])
                    for a in (0, 7, 255):
                        for b in range(2):
                            for c in range(2):
                                w['OBS_BEAM_GAIN[%d][%d][%d][%d]' % (q, a + 1, b + 1, c + 1)] = str(x['gains'][a][b][c])
        for q, v in w.items():
            m.equal(d.get(q), v, 'text:%s' % re.sub(r'\[.*', '', q))
        if o['mode'] not in ('TBT', 'TBS'):
            bw = d['OBS_BW+'].split()
            m.check(abs(float(bw[0]) * {'Hz': 1, 'kHz': 1e3, 'MHz': 1e6}[bw[1]] - BW[o['filter']]) < 1, 'text:OBS_BW+', lambda: '%r for filter %d' % (d['OBS_BW+'], o['filter']))
        for key, name in (('asp_filter', 'OBS_ASP_FLT'), ('asp_atten_1', 'OBS_ASP_AT1'), ('asp_atten_2', 'OBS_ASP_AT2'), ('asp_atten_3', 'OBS_ASP_AT3')):
            m.event('settings')
            m.equal([int(d.get('%s[0]' % name, d.get('%s[%d]' % (name, a + 1), -1))) for a in range(256)], o[key], 'text:%s' % name)
        m.equal([[int(d.get('OBS_FEE[0][%d]' % (b + 1), d.get('OBS_FEE[%d][%d]' % (a + 1, b + 1), -1))) for b in range(2)] for a in range(256)], o['fee_power'], 'text:OBS_FEE')


def judge_objects(m, p, s, k, back):
    eq = lambda got, want, name: m.equal(got, want, 'parsed:' + name)
    eq(back.observer.id, p['pid'], 'observer-id')
    eq(back.observer.name, p['pi'], 'observer-name')
    eq(back.id, p['id'], 'project-id')
    eq(back.name, p['name'], 'project-name')
    if p['comments']:
        eq(back.comments, p['comments'], 'project-comments')
    if p['po']:
        eq(back.project_office.project, p['po'], 'project-office')
    if p['pos']:
        eq(back.project_office.sessions[0], p['pos'][k], 'project-office-session')
    eq(len(back.sessions), 1, 'sessions')
    b = back.sessions[0]
    eq(b.id, s['id'], 'session-id')
    eq(b.name, s['name'], 'session-name')
    eq(b.ucf_username, s['ucf'], 'ucf-username')
    if s['comments']:
        m.check(b.comments.endswith(s['comments']), 'parsed:session-comments', lambda: '%r for %r' % (b.comments, s['comments']))
    eq(b.data_return_method, s['drm'], 'return-method')
    eq(b.configuration_authority, s['cra'], 'cra')
    eq(b.drx_beam, s['beam'], 'beam')
    eq([b.spectrometer_channels, b.spectrometer_integration], s['spc'], 'spectrometer')
    eq(b.spectrometer_metatag, s['tag'], 'metatag')
    eq(b.record_mib, s['rmib'], 'record-mib')
    eq(b.update_mib, s['umib'], 'update-mib')
    eq([bool(x) for x in (b.include_mcssch_log, b.include_mcsexe_log, b.include_station_smib, b.include_station_design)], s['flags'], 'flags')
    so = sorted(s['obs'], key=lambda o: o['t'])
    if not m.check(len(b.observations) == len(so), 'parsed-obs-count'):
        return
    poo = (p['poo'][k] if p['poo'] else []) + [None] * len(so)
    from lsl.common import sdf
    from lsl.common.stations import lwa1 as st
    dig = {a.stand.id: a for a in st.antennas}
    for j, (o, d) in enumerate(zip(so, b.observations)):
        eq(type(d).__name__, {'TBT': 'TBT', 'TBS': 'TBS', 'TRK_RADEC': 'DRX', 'TRK_SOL': 'Solar', 'TRK_JOV': 'Jovian', 'TRK_LUN': 'Lunar', 'STEPPED': 'Stepped'}[o['mode']], 'mode')
        eq((d.name, d.target), (o['name'], o['target']), 'title')
        if o['comments']:
            eq(d.comments, o['comments'], 'obs-comments')
        if poo[j]:
            eq(back.project_office.observations[0][j], poo[j], 'project-office-obs')
        eq(d.mjd * 86400000 + d.mpm, o['t'], 'start')
        t0, t1 = sdf.get_observation_start_stop(d)
        eq((t0, t1), (EP + timedelta(milliseconds=o['t']), EP + timedelta(milliseconds=o['t'] + d.dur)), 'start-stop')
        if o['dur'] is not None:
            eq(d.dur, o['dur'], 'duration')
            eq(d.duration, '%i:%02i:%02i.%03i' % (o['dur'] // 3600000, o['dur'] // 60000 % 60, o['dur'] // 1000 % 60, o['dur'] % 1000), 'duration-string')
        else:
            eq(d.samples, o['samples'], 'samples')
        if o['mode'] not in ('TBT', 'STEPPED'):
            eq(d.freq1, word(o['f1']), 'freq1')
        if o['mode'].startswith('TRK'):
            eq(d.freq2, word(o['f2']), 'freq2')
            eq(bool(d.high_dr), o['hdr'], 'high-dr')
        if o['mode'] != 'TBT':
            eq(d.filter, o['filter'], 'filter')
        eq(d.gain, o['gain'], 'gain')
        if o['mode'] == 'TRK_RADEC':
            m.check(abs(d.ra - o['ra']) < 1e-9 and abs(d.dec - o['dec']) < 1e-9, 'parsed:pointing')
        custom = o['mode'] == 'STEPPED' and any(x['delays'] for x in o['steps'])
        if o['bdm'] and not custom:
            want = [(dig[o['bdm'][0]].digitizer + 1) // 2, o['bdm'][1], o['bdm'][2], o['bdm'][3].upper()]
            m.check(d.beamDipole is not None and list(d.beamDipole) == want, 'parsed:beam-dipole', lambda: '%r for %r' % (d.beamDipole, want))
        else:
            eq(d.beamDipole, None, 'beam-dipole-off')
        for key in ('fee_power', 'asp_filter', 'asp_atten_1', 'asp_atten_2', 'asp_atten_3'):
            eq([list(x) for x in d.fee_power] if key == 'fee_power' else list(getattr(d, key)), o[key], key)
        # data volume
        if o['mode'].startswith('TRK') or o['mode'] == 'STEPPED':
            r = 4128 * 4 * BW[o['filter']] / 4096
            if s['spc'] != [0, 0]:
                r = (76 + s['spc'][0] * 2 * (4 if s['tag'] == '{Stokes=IQUV}' else 2) * 4) * BW[o['filter']] / (s['spc'][0] * s['spc'][1])
            d.update()
            m.check(abs(d.dataVolume - r * o['dur'] / 1000) <= 1e-6 * r * o['dur'] / 1000 + 1e-6, 'data-volume', lambda: '%r bytes for %d ms' % (d.dataVolume, o['dur']))
        if o['mode'] == 'STEPPED':
            eq(d.is_radec, o['radec'], 'steps-radec')
            if not m.check(len(d.steps) == len(o['steps']), 'parsed:step-count'):
                continue
            for x, y in zip(o['steps'], d.steps):
                m.check(abs(y.c1 - x['c1']) < 1e-9 and abs(y.c2 - x['c2']) < 1e-9, 'parsed:step-pointing', lambda: '%r %r for %r %r' % (y.c1, y.c2, x['c1'], x['c2']))
                eq(y.is_radec, x['radec'], 'step-radec')
                eq((y.dur, y.freq1, y.freq2), (x['dur'], word(x['f1']), word(x['f2'])), 'step-values')
                eq(y.delays, x['delays'], 'step-delays')
                eq(y.gains, x['gains'], 'step-gains')
                eq(y.beam, 'SPEC_DELAYS_GAINS' if x['delays'] else 'HIGH_DR' if x['hdr'] else 'SIMPLE', 'step-beam')
                if not x['delays']:
                    eq(bool(y.high_dr), x['hdr'], 'step-high-dr')


def limits(m, n):
    """One change to a session that is within every limit, with the verdict the limits demand."""
    from lsl.common import sdf
    from lsl.common.stations import lwa1 as st
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        p = {'pi': 'A, B', 'pid': 1, 'name': 'n', 'id': 'X', 'comments': None, 'po': None, 'pos': [], 'poo': []}
        names = sorted(MUT)
        name = names[i % len(names)]
        fam = MUT[name][0]
        s = draw_session(rng, st, fam)
        p['sessions'] = [s]
        with m.case({'i': i, 'mutation': name}):
            proj = build(rng, p)
            m.require(proj.validate(), 'valid-session-refused')
            ses = proj.sessions[0]
            ses.observations.sort()
            for verdict, what in MUT[name][1](rng, proj, ses, s, st, sdf):
                m.event('verdicts')
                got = proj.validate()
                m.check(got == verdict, 'verdict:%s' % name, lambda: '%s: validate() gives %r' % (what, got))
                fn = os.path.join(m.scratch, 'v.sdf')
                if os.path.exists(fn):
                    os.unlink(fn)
                try:
                    proj.writeto(fn)
                    m.check(verdict, 'invalid-written:%s' % name, lambda: '%s: written' % (what,))
                except RuntimeError:
                    m.check(not verdict, 'valid-not-written:%s' % name, lambda: '%s: not written' % (what,))
                    m.check(not os.path.exists(fn), 'invalid-file-left')


def restoring(obj, attr, values):
    """Yield verdicts for each (value, verdict) put in obj.attr, restoring it afterwards."""
    old = getattr(obj, attr)
    for v, ok in values:
        setattr(obj, attr, v)
        yield ok, '%s=%r' % (attr, v)
    setattr(obj, attr, old)


def _ids(rng, proj, ses, s, st, sdf):
    yield from restoring(ses, 'id', [(1, True), (0, False), (9999, True), (10000, False), (-3, False)])
    yield from restoring(proj, 'id', [('12345678', True), ('123456789', False)])
    yield from restoring(ses, 'configuration_authority', [(-1, False), (0, True), (65535, True), (65536, False)])
    yield from restoring(ses, 'drx_beam', [(-1, True), (0, False), (1, True), (4, True), (5, False), (-2, False)])


def _mib(rng, proj, ses, s, st, sdf):
    k = rng.choice(MIB)
    for f, d in ((ses.set_mib_record_interval, ses.record_mib), (ses.set_mib_update_interval, ses.update_mib)):
        old = d[k]
        for v, ok in ((-1, True), (0, True), (60, True), (-2, False)):
            f(k, v)
            yield ok, '%s=%d' % (k, v)
        f(k, old)


def _spc(rng, proj, ses, s, st, sdf):
    ses.spc_metatag = None
    for v, ok in (([0, 0], True), ([1024, 6144], True), ([2, 384], True), ([8192, 196608], True), ([2**rng.randint(1, 13), 384 * 2**rng.randint(0, 9)], True), ([2**rng.randint(1, 13) + 1, 384], False), ([1024, 384 * 2**rng.randint(0, 9) - 1], False), ([0, 6144], False), ([1024, 0], False), ([1000, 6144], False), ([1024, 6000], False), ([16384, 384], False)):
        ses.spc_setup = list(v)
        yield ok, 'spectrometer %r' % (v,)
    ses.spc_setup = [1024, 6144]
    for t, ok in ((None, True), ('{Stokes=XXYY}', True), ('{Stokes=IQUV}', True), ('{Stokes=IV}', True), ('{Stokes=QQ}', False)):
        ses.spc_metatag = t
        yield ok, 'metatag %r' % t
    ses.spc_setup, ses.spc_metatag = [0, 0], None
    # 0 disables, as the setters' documentation says
    ses.spectrometer_channels, ses.spectrometer_integration = 1024, 768
    yield True, 'on'
    ses.spectrometer_channels, ses.spectrometer_integration = 0, 0
    yield True, 'off again'


def _spc_tb(rng, proj, ses, s, st, sdf):
    ses.spc_setup = [1024, 6144]
    yield False, 'spectrometer with %s' % ses.observations[0].mode
    ses.spc_setup = [0, 0]


def _tuning(rng, proj, ses, s, st, sdf):
    from lsl.common import ndp
    for o in list(ses.observations):
        objs = list(o.steps) if o.mode == 'STEPPED' else [o]
        for x in objs[:2]:
            yield from restoring(x, 'freq1', [(ndp.DRX_TUNING_WORD_MIN, True), (ndp.DRX_TUNING_WORD_MIN - 1, False), (ndp.DRX_TUNING_WORD_MAX, True), (ndp.DRX_TUNING_WORD_MAX + 1, False), (0, False)])
            yield from restoring(x, 'freq2', [(ndp.DRX_TUNING_WORD_MIN, True), (ndp.DRX_TUNING_WORD_MIN - 1, False), (ndp.DRX_TUNING_WORD_MAX, True), (ndp.DRX_TUNING_WORD_MAX + 1, False), (0, True)])
        yield from restoring(o, 'filter', [(1, True), (7, True), (0, False), (8, False)])


def _tuning_tb(rng, proj, ses, s, st, sdf):
    from lsl.common import ndp
    for o in list(ses.observations):
        if o.mode == 'TBS':
            yield from restoring(o, 'freq1', [(ndp.TBS_TUNING_WORD_MIN, True), (ndp.TBS_TUNING_WORD_MIN - 1, False), (ndp.TBS_TUNING_WORD_MAX, True), (ndp.TBS_TUNING_WORD_MAX + 1, False)])
            yield from restoring(o, 'filter', [(8, True), (9, False), (1, False)])
            yield from restoring(o, 'dur', [(1, True), (0, False)])
        else:
            yield from restoring(o, 'samples', [(1, True), (392000000, True), (392000001, False)])


def _overlap(rng, proj, ses, s, st, sdf):
    """Two observations of the zenith-ish pole, moved around each other."""
    a, b = rng.randint(2, 600000), rng.randint(2, 600000)
    t = s['obs'][0]['t']
    mk = lambda t0, d: sdf.DRX('n', 't', EP + timedelta(milliseconds=t0), d / 1000.0, 3.0, 80.0, 40e6, 50e6, 7)
    keep = list(ses.observations)
    del ses.observations[:]
    for dt, ok in ((a, True), (a - 1, False), (a + 1, True), (0, False), (1, False), (-b, True), (-b + 1, False), (-b - 1, True)):
        del ses.observations[:]
        o = [mk(t, a), mk(t + dt, b)]
        rng.shuffle(o)
        for x in o:
            ses.append(x)
        yield ok, 'observations of %d and %d ms, %d ms apart' % (a, b, dt)
    # three: only the outer two collide
    del ses.observations[:]
    o = [mk(t, 500000), mk(t + 700000, 1000), mk(t + 499999, 100000)]
    rng.shuffle(o)
    for x in o:
        ses.append(x)
    yield False, 'three observations, two of which overlap by 1 ms'
    del ses.observations[:]
    for x in keep:
        ses.append(x)
    yield True, 'as it was'


def _mixed(rng, proj, ses, s, st, sdf):
    last = ses.observations[-1]
    t = last.mjd * 86400000 + last.mpm + last.dur + 1000
    ses.append(sdf.TBS('n', 't', EP + timedelta(milliseconds=t), '00:00:01.000', 40e6, 8))
    yield False, 'TBS after %s' % last.mode
    ses.observations[-1] = sdf.TBT('n', 't', EP + timedelta(milliseconds=t), 1000)
    yield False, 'TBT after %s' % last.mode
    del ses.observations[-1]
    yield True, 'as it was'


def _volume_drx(rng, proj, ses, s, st, sdf):
    """The data volume limit for the beams, in raw voltages and after the spectrometer."""
    cap = 10 * 1024**4
    f = rng.choice([6, 7])
    rate = 4128 * 4 * BW[f] / 4096
    d = int(cap / rate)
    t = s['obs'][0]['t']
    keep = list(ses.observations), list(ses.spc_setup), ses.spc_metatag
    ses.spc_setup, ses.spc_metatag = [0, 0], None
    step = lambda x: sdf.BeamStep(3.0, 89.0, x, 40e6, 50e6, is_radec=True)
    mks = [('DRX', lambda t0, x: sdf.DRX('n', 't', EP + timedelta(milliseconds=t0), x, 3.0, 89.0, 40e6, 50e6, f)),
           ('stepped', lambda t0, x: sdf.Stepped('n', 't', EP + timedelta(milliseconds=t0), f, steps=[step(x // 2), step(x - x // 2)], is_radec=True))]
    for name, mk in mks:
        for dd, ok in ((d - 1, True), (d + 1, False)):
            del ses.observations[:]
            ses.append(mk(t, dd))
            yield ok, '%s for %d s' % (name, dd)
        k = rng.randint(1000, d - 1000)
        for dd, ok in ((d - k - 1, True), (d - k + 1, False)):
            del ses.observations[:]
            ses.append(mk(t, k))
            ses.append(mk(t + k * 1000 + 5000, dd))
            yield ok, '%s for %d s and %d s' % (name, k, dd)
    del ses.observations[:]
    ses.append(mks[0][1](t, d + 1))
    yield False, 'no spectrometer'
    ses.spc_setup = [64, 384]
    yield True, 'with spectrometer'
    ses.spc_setup, ses.spc_metatag = keep[1], keep[2]
    del ses.observations[:]
    for x in keep[0]:
        ses.append(x)


def _volume(rng, proj, ses, s, st, sdf):
    rate = FS / 8192 * (32 + 8 * 256 * 2)
    cap = 10 * 1024**4
    d = int(cap / rate)
    t = s['obs'][0]['t']
    keep = list(ses.observations)
    mk = lambda t0, d: sdf.TBS('n', 't', EP + timedelta(milliseconds=t0), d, 40e6, 8)
    for dd, ok in ((d - 1, True), (d + 1, False)):
        del ses.observations[:]
        ses.append(mk(t, dd))
        yield ok, 'TBS for %d s' % dd
    k = rng.randint(1000, d - 1000)
    for dd, ok in ((d - k - 1, True), (d - k + 1, False)):
        del ses.observations[:]
        ses.append(mk(t, k))
        ses.append(mk(t + k * 1000 + 5000, dd))
        yield ok, 'TBS for %d s and %d s' % (k, dd)
    del ses.observations[:]
    for x in keep:
        ses.append(x)


def _analog(rng, proj, ses, s, st, sdf):
    o = rng.choice(list(ses.observations))
    q = rng.randrange(256)
    for attr, top in (('asp_filter', 7), ('asp_atten_1', 15), ('asp_atten_2', 15), ('asp_atten_3', 31)):
        v = getattr(o, attr)
        old = v[q]
        for x, ok in ((-1, True), (0, True), (top, True), (top + 1, False), (-2, False)):
            v[q] = x
            yield ok, '%s[%d]=%d' % (attr, q, x)
        v[q] = old
        setattr(o, attr, v[:255])
        yield False, '%s of 255' % attr
        setattr(o, attr, v)
    pol = rng.randrange(2)
    old = o.fee_power[q][pol]
    for x, ok in ((-1, True), (0, True), (1, True), (2, False), (-2, False)):
        o.fee_power[q][pol] = x
        yield ok, 'fee[%d][%d]=%d' % (q, pol, x)
    o.fee_power[q][pol] = old


def _durations(rng, proj, ses, s, st, sdf):
    for o in list(ses.observations):
        if o.mode == 'STEPPED':
            for x in list(o.steps)[:2]:
                old = x.dur
                for v, ok in ((4, False), (5, True) if old >= 5 else (5, True)):
                    x.dur = v
                    yield ok, 'step of %d ms' % v
                x.dur = old
        else:
            yield from restoring(o, 'dur', [(0, False), (1, True)])


def _steps(rng, proj, ses, s, st, sdf):
    t = s['obs'][0]['t']
    keep = list(ses.observations)
    mk = lambda c1, c2, d, radec=True, **k: sdf.BeamStep(c1, c2, d, 40e6, 50e6, is_radec=radec, **k)

    def put(o):
        del ses.observations[:]
        ses.append(o)
    start = EP + timedelta(milliseconds=t)
    put(sdf.Stepped('n', 't', start, 7))
    yield False, 'no steps'
    put(sdf.Stepped('n', 't', start, 7, steps=[mk(3.0, 80.0, 10.0)]))
    yield True, 'one step'
    ses.observations[0].append(mk(30.0, 80.0, 10.0, radec=False))
    yield False, 'az/alt step in an RA/dec observation'
    put(sdf.Stepped('n', 't', start, 7, steps=[mk(30.0, 0.0, 10.0, radec=False)], is_radec=False))
    yield False, 'a step on the horizon'
    put(sdf.Stepped('n', 't', start, 7, steps=[mk(30.0, 0.5, 10.0, radec=False), mk(3.0, 90.0, 5.0, radec=False)], is_radec=False))
    yield True, 'az/alt steps'
    g, d = [[[1, 0], [0, 1]] for _ in range(256)], [0] * 512
    for k, ok in (({'spec_delays': d, 'spec_gains': g}, True), ({'spec_delays': d}, False), ({'spec_gains': g}, False), ({'spec_delays': d[:-1], 'spec_gains': g}, False),
                  ({'spec_delays': d, 'spec_gains': g[:-1]}, False), ({'spec_delays': d, 'spec_gains': g[:-1] + [[[1, 0]]]}, False), ({'spec_delays': d, 'spec_gains': g[:-1] + [[[1, 0], [1]]]}, False)):
        put(sdf.Stepped('n', 't', start, 7, steps=[mk(3.0, 80.0, 10.0, **k)]))
        yield ok, 'custom beam %s' % sorted(k)
    del ses.observations[:]
    for x in keep:
        ses.append(x)


def _many(rng, proj, ses, s, st, sdf):
    start = EP + timedelta(milliseconds=s['obs'][0]['t'])
    keep = list(ses.observations)
    del ses.observations[:]
    ses.append(sdf.Stepped('n', 't', start, 7, steps=[sdf.BeamStep(30.0, 80.0, 1.0, 40e6, 50e6, is_radec=False) for _ in range(1023)], is_radec=False))
    o = ses.observations[0]
    yield True, '1023 steps'
    o.append(sdf.BeamStep(30.0, 80.0, 1.0, 40e6, 50e6, is_radec=False))
    yield True, '1024 steps'
    o.append(sdf.BeamStep(30.0, 80.0, 1.0, 40e6, 50e6, is_radec=False))
    yield False, '1025 steps'
    del ses.observations[:]
    for x in keep:
        ses.append(x)


def _horizon(rng, proj, ses, s, st, sdf):
    import ephem
    keep = list(ses.observations)
    t = s['obs'][0]['t']
    lat = math.degrees(float(st.lat))
    now = lst(st, EP + timedelta(milliseconds=t))

    def put(o):
        del ses.observations[:]
        ses.append(o)

    def alt(ra, dec, tt):
        b = ephem.FixedBody()
        b._ra, b._dec, b._epoch = ra / 12 * math.pi, math.radians(dec), ephem.J2000
        return altitude(st, b, EP + timedelta(milliseconds=tt))
    mk = lambda ra, dec, d: sdf.DRX('n', 't', EP + timedelta(milliseconds=t), d, ra, dec, 40e6, 50e6, 2)
    put(mk((now + 12) % 24, rng.uniform(-90, -20), 60.0))
    yield False, 'never up'
    put(mk(now % 24, rng.uniform(-20, 60), 60.0))
    yield True, 'transiting'
    # sets (or rises) in the middle of the observation
    for _ in range(50):
        ra, dec, d = rng.uniform(0, 24), rng.uniform(-40, 40), rng.randint(4, 20) * 900000
        a, b = alt(ra, dec, t), alt(ra, dec, t + d)
        if ra < 23.99 and (a > 2) != (b > 2) and min(abs(a), abs(b)) > 3:
            put(mk(ra, dec, d / 1000.0))
            yield False, 'from altitude %.1f to %.1f' % (a, b)
            break
    # each step is up during its own time, though the first has set by the end
    for _ in range(200):
        ra, dec = rng.uniform(0, 23.99), rng.uniform(-30, 40)
        d = 5400000
        if alt(ra, dec, t) > 4 and all(alt(ra, dec, t + k * 300000) > 3 for k in range(3)) and alt(ra, dec, t + d) < -3:
            o = sdf.Stepped('n', 't', EP + timedelta(milliseconds=t), 2, steps=[sdf.BeamStep(ra, dec, 600.0, 40e6, 50e6), sdf.BeamStep(5.0, 85.0, d / 1000.0, 40e6, 50e6)])
            put(o)
            yield True, 'steps that are up while they are observed'
            o = sdf.Stepped('n', 't', EP + timedelta(milliseconds=t), 2, steps=[sdf.BeamStep(5.0, 85.0, d / 1000.0, 40e6, 50e6), sdf.BeamStep(ra, dec, 600.0, 40e6, 50e6)])
            put(o)
            yield False, 'a step that has set when its turn comes'
            break
    del ses.observations[:]
    for x in keep:
        ses.append(x)


def _stations(rng, proj, ses, s, st, sdf):
    from lsl.common.stations import lwasv
    t = s['obs'][0]['t'] + 86400000
    other = sdf.Session('o', 3, station=lwasv)
    other.append(sdf.DRX('n', 't', EP + timedelta(milliseconds=t), 10.0, 3.0, 80.0, 40e6, 50e6, 2))
    proj.append(other)
    yield False, 'sessions at two stations'
    other.station = st
    yield True, 'sessions at one station'
    del proj.sessions[1]


MUT = {'ids': ('drx', _ids), 'mib': (None, _mib), 'spectrometer': ('drx', _spc), 'spectrometer-tb': ('tb', _spc_tb), 'tuning': ('drx', _tuning), 'tuning-tb': ('tb', _tuning_tb), 'overlap': ('drx', _overlap),
       'mixed': ('drx', _mixed), 'volume': ('tb', _volume), 'volume-drx': ('drx', _volume_drx), 'analog': (None, _analog), 'durations': ('drx', _durations), 'steps': ('drx', _steps), 'many-steps': ('drx', _many), 'horizon': ('drx', _horizon),
       'stations': ('drx', _stations)}


def times(m, n):
    import zoneinfo
    from lsl.common._sdf_utils import parse_time
    from lsl.common.stations import lwa1 as st
    from astropy.time import Time
    import ephem
    MON = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep', 'Oct', 'Nov', 'Dec']
    ZONES = {'EST': ('America/New_York', -5), 'EDT': ('America/New_York', -4), 'CST': ('America/Chicago', -6), 'CDT': ('America/Chicago', -5),
             'MST': ('America/Denver', -7), 'MDT': ('America/Denver', -6), 'PST': ('America/Los_Angeles', -8), 'PDT': ('America/Los_Angeles', -7)}
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        us = rng.choice([0, 1, 499, 500, 501, 999499, 999501, 999999, rng.randrange(1000000)])
        t = datetime(rng.randint(1990, 2080), rng.randint(1, 12), rng.randint(1, 28), rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)]), us)
        if us % 1000 == 500:
            t = t.replace(microsecond=0)          # the rounding of an exact half is nobody's business
        kind = rng.choice(['plain', 'UT', 'UTC', 'offset', 'zone', 'datetime', 'astropy', 'lst', 'bad'])
        with m.case({'i': i, 'kind': kind, 't': t.isoformat()}):
            m.event('times')
            rounded = (t + timedelta(microseconds=500)).replace(microsecond=0) if t.microsecond >= 999500 else t.replace(microsecond=int(round(t.microsecond / 1000.0)) * 1000)
            sep = rng.choice('/- ')
            frac = rng.choice([6, 6, 3]) if t.microsecond % 1000 == 0 else 6
            sec = '%02d' % t.second + ('.%06d' % t.microsecond)[:frac + 1] if t.microsecond or rng.random() < 0.5 else '%d' % t.second
            mon = rng.choice(['%02d' % t.month, '%d' % t.month, MON[t.month - 1], MON[t.month - 1].lower()])
            body = '%04d%s%s%s%02d%s%02d:%02d:%s' % (t.year, sep, mon, sep, t.day, rng.choice(' T'), t.hour, t.minute, sec)
            if kind in ('plain', 'UT', 'UTC'):
                s = body if kind == 'plain' else kind + ' ' + body
                want = rounded.replace(tzinfo=timezone.utc)
                got = parse_time(s)
            elif kind == 'offset':
                h, mi = rng.randrange(0, 13), rng.choice([0, 30, 45, rng.randrange(60)])
                sg = rng.choice('+-')
                f = rng.choice(['%02d:%02d', '%02d%02d', '%d:%02d'])
                s = body + rng.choice([' ', '']) + sg + f % (h, mi)
                want = rounded.replace(tzinfo=timezone(timedelta(hours=h, minutes=mi) * (1 if sg == '+' else -1)))
                got = parse_time(s)
            elif kind == 'zone':
                z = rng.choice(sorted(ZONES))
                tz = zoneinfo.ZoneInfo(ZONES[z][0])
                want = rounded.replace(tzinfo=tz)
                if want.utcoffset() != timedelta(hours=ZONES[z][1]) or want.astimezone(timezone.utc).astimezone(tz).replace(tzinfo=None) != rounded:
                    continue                       # EST in summer and the hours around a change: not judged
                s = z + ' ' + body
                got = parse_time(s)
            elif kind == 'datetime':
                tz = rng.choice([timezone.utc, zoneinfo.ZoneInfo('America/Denver'), timezone(timedelta(minutes=rng.randint(-700, 700)))])
                s = t.replace(tzinfo=tz)
                want = (s.astimezone(timezone.utc) - t.replace(tzinfo=timezone.utc)) + rounded.replace(tzinfo=timezone.utc)
                got = parse_time(s)
                refuse(m, ValueError, parse_time, 'naive-datetime', t)
            elif kind == 'astropy':
                t = t.replace(microsecond=rounded.microsecond)
                s = Time(t, scale='utc')
                want = t.replace(tzinfo=timezone.utc)
                got = parse_time(rng.choice([s, s.tai]))
            elif kind == 'lst':
                t = t.replace(year=rng.randint(2005, 2035))
                s = 'LST %04d/%02d/%02d %02d:%02d:%02d.%06d' % (t.year, t.month, t.day, t.hour, t.minute, t.second, t.microsecond)
                got = parse_time(s)
                day = datetime(t.year, t.month, t.day, tzinfo=timezone.utc)
                m.check(got.utcoffset() == timedelta(0) and got.microsecond % 1000 == 0, 'lst-form', lambda: '%r -> %r' % (s, got))
                m.check(timedelta(0) <= got - day <= timedelta(days=1, milliseconds=1), 'lst-day', lambda: '%r -> %r' % (s, got))
                h = lst(st, got)
                d = (h - (t.hour + t.minute / 60.0 + (t.second + t.microsecond / 1e6) / 3600) + 12) % 24 - 12
                m.check(abs(d) * 3600 < 3.0, 'lst-value', lambda: '%r -> %r, where the LST is off by %.2f s' % (s, got, d * 3600))
                continue
            else:
                s = rng.choice(['', 'now', body + ' XYZZY', body.replace(':', ';'), '%04d/13/01 00:00:00' % t.year, '%04d/02/30 00:00:00' % t.year, '%04d/01/01 25:00:00' % t.year, '%04d/Foo/01 00:00:00' % t.year,
                                'QQQ ' + body])
                refuse(m, ValueError, parse_time, 'bad-time', s)
                continue
            m.check(got == want and got.utcoffset() == timedelta(0), 'parse-time:' + kind, lambda: '%r -> %r, expected %r' % (s, got, want.astimezone(timezone.utc)))


def objects(m, n):
    import ephem
    from astropy import units as u
    from astropy.coordinates import Angle
    from lsl.common import sdf
    from lsl.common.stations import lwa1 as st
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        with m.case({'i': i}):
            m.event('settings')
            t = EP + timedelta(milliseconds=rng.randint(58000, 61500) * 86400000)
            o = sdf.DRX('n', 't', t, 10.0, 3.0, 80.0, 40e6, 50e6, 7)
            stp = sdf.BeamStep(3.0, 80.0, 10.0, 40e6, 50e6)
            azs = sdf.BeamStep(3.0, 80.0, 10.0, 40e6, 50e6, is_radec=False)
            # durations in every form
            us = rng.choice([999400, 999600, 59999600, rng.randrange(1, 10**11)])
            if us % 1000 == 500:
                us += 1
            ms = int(round(us / 1000.0))
            for x in (o, stp):
                for form, v in (('timedelta', timedelta(microseconds=us)), ('number', us / 1e6), ('quantity', us / 1e6 * u.s), ('quantity-min', us / 6e7 * u.min),
                                ('hms', '%d:%02d:%02d.%06d' % (us // 3600000000, us // 60000000 % 60, us // 1000000 % 60, us % 1000000)),
                                ('s', '%d.%06d' % (us // 1000000, us % 1000000))):
                    x.duration = v
                    m.check(x.dur == ms and isinstance(x.dur, int), 'duration:' + form, lambda: '%r -> %r ms' % (v, x.dur))
            m.equal(sdf.BeamStep(3.0, 80.0, timedelta(microseconds=us), 40e6, 50e6).dur, ms, 'duration:step')
            # frequencies
            f = rng.uniform(11e6, 87e6)
            for x in (o, stp):
                x.frequency1, x.frequency2 = f, f / 1e6 * u.MHz
                m.check(abs(x.frequency1 - f) <= FS / 2**33 * 1.01 and abs(x.freq2 - x.freq1) <= 1, 'frequency', lambda: '%r -> %r %r' % (f, x.frequency1, x.frequency2))
            # pointings
            ra, dec = rng.uniform(0, 23.99), rng.uniform(-90, 90)
            for form, a, d in (('number', ra, dec), ('ephem', ephem.hours(ra / 12 * math.pi), ephem.degrees(math.radians(dec))), ('astropy', Angle(ra, 'hourangle'), Angle(dec, 'deg')),
                               ('string', '%.9fh' % ra, '%.9fd' % dec)):
                o.ra, o.dec = a, d
                m.check(abs(o.ra - ra) < 1e-8 and abs(o.dec - dec) < 1e-8, 'pointing:' + form, lambda: '%r %r -> %r %r' % (a, d, o.ra, o.dec))
                s2 = sdf.BeamStep(a, d, 10.0, 40e6, 50e6)
                stp.c1, stp.c2 = a, d
                m.check(abs(stp.c1 - ra) < 1e-8 and abs(stp.c2 - dec) < 1e-8 and abs(s2.c1 - ra) < 1e-8 and abs(s2.c2 - dec) < 1e-8, 'step-pointing:' + form, lambda: '%r %r -> %r %r' % (a, d, s2.c1, s2.c2))
                b = o.fixed_body
                m.check(abs(float(b._ra) * 12 / math.pi - ra) < 1e-8 and abs(math.degrees(float(b._dec)) - dec) < 1e-8, 'body')
            az, al = rng.uniform(0, 359.9), rng.uniform(0, 90)
            for form, a, d in (('number', az, al), ('ephem', ephem.degrees(math.radians(az)), ephem.degrees(math.radians(al))), ('astropy', Angle(az, 'deg'), Angle(al, 'deg'))):
                s2 = sdf.BeamStep(a, d, 10.0, 40e6, 50e6, is_radec=False)
                azs.c1, azs.c2 = a, d
                m.check(abs(azs.c1 - az) < 1e-8 and abs(azs.c2 - al) < 1e-8 and abs(s2.c1 - az) < 1e-8 and abs(s2.c2 - al) < 1e-8, 'azalt:' + form, lambda: '%r %r -> %r %r' % (a, d, s2.c1, s2.c2))
            # refused, and nothing changes
            for obj, attr, bad in ((o, 'ra', 24.0), (o, 'ra', -0.001), (o, 'dec', 90.001), (o, 'dec', -91.0), (stp, 'c1', 24.0), (stp, 'c2', -90.1), (azs, 'c1', 360.0), (azs, 'c1', -1.0), (azs, 'c2', -0.1), (azs, 'c2', 90.1)):
                old = getattr(obj, attr)
                refuse(m, ValueError, setattr, 'out-of-range', obj, attr, bad)
                m.equal(getattr(obj, attr), old, 'out-of-range-changes')
            # beam-dipole mode
            k = rng.randint(1, 256)
            want = (next(a for a in st.antennas if a.stand.id == k).digitizer + 1) // 2
            o.set_beamdipole_mode(k, 0.25, 0.5, 'y')
            m.equal(list(o.beamDipole), [want, 0.25, 0.5, 'Y'], 'beam-dipole')
            for a in ((257,), (-1,), (3, 1.1), (3, -0.1), (3, 0.1, 1.1), (3, 0.1, -0.1), (3, 0.1, 0.1, 'Z')):
                refuse(m, ValueError, o.set_beamdipole_mode, 'beam-dipole-range', *a)
                m.equal(list(o.beamDipole), [want, 0.25, 0.5, 'Y'], 'beam-dipole-changes')
            o.set_beamdipole_mode(0)
            m.equal(o.beamDipole, None, 'beam-dipole-off')
            # typed lists
            ses = sdf.Session('n', 1)
            ses.append(o)
            refuse(m, TypeError, ses.append, 'list-type', stp)
            refuse(m, TypeError, ses.observations.extend, 'list-type-extend', [o, 5])
            m.equal(len(ses.observations), 1, 'list-length')
            m.check(ses.observations[0]._parent.id == 1, 'list-parent')
            refuse(m, TypeError, sdf.Session, 'list-type-init', 'n', 1, observations=[o, 'x'])
            # comparison
            o2 = sdf.DRX('n', 't', t + timedelta(milliseconds=rng.choice([1, 1000, 10**7])), 10.0, 3.0, 80.0, 40e6, 50e6, 7)
            m.check(o < o2 and o2 > o and o != o2 and not (o2 <= o) and sorted([o2, o])[0] is o, 'order')
            stp.duration = 0.004
            m.equal(stp.validate(), False, 'lone-step')
            stp.duration, stp.c2 = 0.005, 70.0
            m.equal(stp.validate(), True, 'lone-step')
            for a in (3, 1000, -2):
                refuse(m, ValueError, setattr, 'spectrometer-range', ses, 'spectrometer_channels', a)
                refuse(m, ValueError, setattr, 'spectrometer-range', ses, 'spectrometer_integration', a)
            refuse(m, ValueError, setattr, 'metatag-range', ses, 'spectrometer_metatag', 'Stokes=Q')
            ses.spectrometer_metatag = 'Stokes=IQUV'
            m.equal(ses.spectrometer_metatag, '{Stokes=IQUV}', 'metatag')
            refuse(m, KeyError, ses.set_mib_record_interval, 'mib-name', 'XYZ', 1)
            refuse(m, ValueError, setattr, 'return-method', ses, 'data_return_method', 'post')
            with sdf.OBSV_CONFIG.set_temp('observer_name', 'A, B'), sdf.OBSV_CONFIG.set_temp('observer_id', 12), sdf.OBSV_CONFIG.set_temp('project_name', 'pn'), sdf.OBSV_CONFIG.set_temp('project_id', 'PI'):
                p = sdf.Project.autofilled(sessions=[ses])
                m.equal((p.observer.name, p.observer.id, p.name, p.id, len(p.sessions)), ('A, B', 12, 'pn', 'PI', 1), 'autofilled')


def ordering(m, n):
    """Observations and sessions sort by when they start."""
    from lsl.common import sdf
    for k in range(m.n(n)):
        rng = m.rng(k)
        with m.case({'ordering': k}):
            made = []
            day = rng.randint(55000, 60000)
            for q in range(rng.randint(2, 5)):
                obs = []
                for _ in range(rng.randint(1, 4)):
                    t = (day + rng.randint(0, 2), rng.randint(0, 86399) * 1000)
                    if made and rng.random() < 0.1:
                        t = made[-1][0]
                    obs.append((t, sdf.DRX('o', 'o', 'UTC ' + when(*t).strftime('%Y %m %d %H:%M:%S'), '00:00:10.000', 1.0, 20.0, 40e6, 60e6, 7)))
                for (a, x) in obs:
                    for (b, y) in obs:
                        m.check((x < y) == (a < b) and (x == y) == (a == b), 'order:observation', '%s against %s' % (a, b))
                made.append((min(t for t, _ in obs), sdf.Session('s%d' % q, q, [o for _, o in obs])))
            for (a, x) in made:
                for (b, y) in made:
                    m.event('ordered')
                    m.check((x < y) == (a < b) and (x == y) == (a == b), 'order:session', '%s against %s' % (a, b))
            rng.shuffle(made)
            m.equal([s.name for s in sorted(s for _, s in made)], [s.name for _, s in sorted(made, key=lambda q: q[0])], 'order:sorted')
            for bad in (3, 'x'):
                m.raises(TypeError, lambda: made[0][1] < bad, 'order:type', 'not a session')


JOBS = {'roundtrip-%d' % k: (roundtrip, 'plain', 16) for k in range(5)}
JOBS['limits'] = (limits, 'plain', 60)
JOBS['times'] = (times, 'plain', 2500)
JOBS['objects'] = (objects, 'plain', 120)

JOBS['ordering'] = (ordering, 'plain', 120)
