"""C25 - Interferometer definition files and the session definition files made from them."""
import math, os, re
from datetime import timedelta
from vf.checks.c24 import EP, BW, text, word, refuse, diff, keyed as _keyed, altitude, body_up

RULE = ('random interferometer runs (RA/dec, Sun and Jupiter scans, proper motions, alternate phase centers, station lists, correlator setups, comments, project office '
        'notes, scans in random order), each rendered, read by an independent key/value reader and by parse_idf, rendered again and turned into one SDF per station; '
        'boundary mutations with a known verdict; distinct = distinct cases')
OPTS = {'scale': 6}
NEED = {'runs': 40, 'scans': 100, 'sdfs': 60, 'verdicts': 250, 'alternates': 60}


def stations():
    from lsl.common import stations as s
    return {x.id: x for x in s.get_all_stations()}


def draw_alt(rng, ra, dec, fmax, intent=None):
    """A direction within 80% of half a beam of (ra, dec)."""
    r = 74e6 / fmax * rng.uniform(0, 0.8)
    pa = rng.uniform(0, 2 * math.pi)
    d = dec + r * math.cos(pa)
    d = max(-90.0, min(89.0, d))
    a = ra + r * math.sin(pa) / 15 / math.cos(math.radians(max(abs(d), abs(dec)))) * 0.5
    return {'target': text(rng, 2), 'intent': rng.choice(['fluxcal', 'phasecal', 'target', 'dummy']), 'ra': a % 24.0 if a % 24.0 < 23.9999999 else 0.0, 'dec': d, 'pm': draw_pm(rng)}


def draw_pm(rng):
    return rng.choice([[0.0, 0.0], [0.0, 0.0], [rng.randint(-9999, 9999) / 10.0, rng.randint(-9999, 9999) / 10.0], [0.0, 123.4]])


def draw_run(rng, sts):
    ids = sorted(sts)
    k = rng.sample(ids, rng.randint(2, len(ids)))
    r = {'id': rng.choice([1, 9999, rng.randint(1, 9999)]), 'name': text(rng), 'comments': rng.choice([None, text(rng, 8)]), 'drm': rng.choice(['UCF', 'DRSU', 'USB Harddrives']),
         'ucf': rng.choice([None, 'me', 'a_user/sub/dir-1']), 'chan': rng.choice([16, 512, 32768, 2 * rng.randint(8, 16384)]), 'int': rng.choice([0.1, 10.0, rng.randint(100, 10000) / 1000.0]),
         'basis': rng.choice(['linear', 'circular', 'stokes']), 'stations': k, 'scans': []}
    filt = rng.randint(1, 7)
    t = rng.randint(58000, 61500) * 86400000 + rng.choice([0, 86399999, rng.randrange(86400000)])
    solar = rng.random() < 0.25
    for _ in range(1 if solar else rng.randint(1, 5)):
        o = {'t': t, 'mode': 'TRK_RADEC', 'target': text(rng, 2), 'intent': rng.choice(['fluxcal', 'phasecal', 'target', 'dummy']), 'comments': rng.choice([None, text(rng, 8)]),
             'dur': rng.choice([1, 59999, 60000, rng.randint(1, 3600000)]), 'f1': rng.uniform(11e6, 87e6), 'f2': rng.choice([0.0, rng.uniform(11e6, 87e6)]), 'filter': filt, 'gain': rng.choice([-1, -1, 0, 6]),
             'asp': rng.choice([-1, -1, 0, 3]), 'pm': draw_pm(rng), 'alt': [], 'ra': rng.uniform(0, 23.999999), 'dec': rng.uniform(65, 89)}
        if solar:
            import ephem
            o['mode'] = rng.choice(['TRK_SOL', 'TRK_JOV'])
            o['t'] = body_up(rng, sts[k[0]], ephem.Sun() if o['mode'] == 'TRK_SOL' else ephem.Jupiter(), o['dur'] + 1000)
            o['pm'] = [0.0, 0.0]
            if any(altitude(sts[q], ephem.Sun() if o['mode'] == 'TRK_SOL' else ephem.Jupiter(), EP + timedelta(milliseconds=o['t'] + d)) < 3 for q in k for d in (0, o['dur'] // 2, o['dur'])):
                return draw_run(rng, sts)
        elif rng.random() < 0.5:
            o['alt'] = [draw_alt(rng, o['ra'], o['dec'], max(o['f1'], o['f2'])) for _ in range(rng.choice([1, 2, 3, 10]))]
        r['scans'].append(o)
        t += o['dur'] + rng.choice([0, 1, rng.randint(0, 7200000)])
    return r


def build_scan(rng, o):
    from lsl.common import idf
    start = EP + timedelta(milliseconds=o['t'])
    start = start if rng.random() < 0.5 else start.strftime('UTC %Y/%m/%d %H:%M:%S.') + '%03d' % (start.microsecond // 1000)
    ms = o['dur']
    dur = rng.choice(['%02i:%02i:%02i.%03i' % (ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000), timedelta(milliseconds=ms), ms / 1000.0])
    if o['mode'] == 'TRK_RADEC':
        s = idf.DRX(o['target'], o['intent'], start, dur, o['ra'], o['dec'], o['f1'], o['f2'], o['filter'], gain=o['gain'], pm=list(o['pm']), comments=o['comments'])
    else:
        s = {'TRK_SOL': idf.Solar, 'TRK_JOV': idf.Jovian}[o['mode']](o['target'], o['intent'], start, dur, o['f1'], o['f2'], o['filter'], gain=o['gain'], comments=o['comments'])
    s.asp_filter = o['asp']
    for a in o['alt']:
        s.add_alt_phase_center(a['target'], a['intent'], a['ra'], a['dec'], pm=list(a['pm']))
    return s


def build(rng, p, sts):
    from lsl.common import idf
    po = idf.ProjectOffice(project=p['po'], runs=list(p['por']), scans=[list(x) for x in p['pos']])
    proj = idf.Project(idf.Observer(p['pi'], p['pid']), p['name'], p['id'], comments=p['comments'], project_office=po)
    for r in p['runs']:
        sc = [build_scan(rng, o) for o in r['scans']]
        rng.shuffle(sc)
        run = idf.Run(r['name'], r['id'], data_return_method=r['drm'], comments=r['comments'], correlator_channels=r['chan'], correlator_inttime=r['int'], correlator_basis=r['basis'],
                      stations=[sts[k] for k in r['stations']])
        for s in sc:
            run.append(s)
        run.ucf_username = r['ucf']
        proj.append(run)
    return proj


def keyed(txt):
    return _keyed(re.sub('(?m)^SCAN_ID', 'OBS_ID', txt))


def draw(rng, sts):
    p = {'pi': rng.choice(['Doe, Jane', 'Single']), 'pid': rng.randint(0, 99999), 'name': text(rng), 'id': rng.choice(['XX001', 'LD0001AB', 'a']), 'comments': rng.choice([None, text(rng, 9)]),
         'po': rng.choice([None, text(rng)]), 'runs': [draw_run(rng, sts) for _ in range(rng.choice([1, 1, 2]))]}
    p['por'] = rng.choice([[], [text(rng) for _ in p['runs']]])
    p['pos'] = rng.choice([[], [[rng.choice([None, text(rng)]) for _ in r['scans']][:rng.randint(0, len(r['scans']))] for r in p['runs']]])
    return p


def roundtrip(m, n):
    from lsl.common import idf
    sts = stations()
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        p = draw(rng, sts)
        with m.case({'i': i, 'modes': [[(o['mode'], len(o['alt'])) for o in r['scans']] for r in p['runs']]}):
            proj = build(rng, p, sts)
            m.require(proj.validate(), 'valid-run-refused', lambda: 'a run within all the limits is refused: %r' % (p,))
            for k, r in enumerate(p['runs']):
                m.event('runs')
                txt = proj.render(run=k)
                m.equal(proj.render(run=k), txt, 'render-repeat')
                fn = os.path.join(m.scratch, 's%d.idf' % k)
                proj.writeto(fn, run=k, overwrite=True)
                with open(fn) as fh:
                    m.equal(fh.read(), txt, 'writeto')
                refuse(m, RuntimeError, proj.writeto, 'overwrite-refused', fn, run=k)
                judge_text(m, p, r, k, txt)
                back = idf.parse_idf(fn)
                judge_objects(m, p, r, k, back)
                m.check(idf.is_valid(fn), 'is-valid', 'a file that was just written is called invalid')
                txt2 = back.render()
                m.check(txt2 == txt, 'render-of-parsed', lambda: diff(txt, txt2))
                judge_sdfs(m, p, r, k, proj if rng.random() < 0.6 else back, sts, rng)
                m.equal(proj.render(run=k), txt, 'render-after-sdfs')


def judge_text(m, p, r, k, txt):
    head, obs = keyed(txt)
    head.update({q: v for d in obs[:0] for q, v in d.items()})
    c = r['comments'] or ''
    if r['ucf']:
        c = 'ucfuser:%s' % r['ucf'] + (';;' + c if c else '')
    want = {'PI_ID': str(p['pid']), 'PI_NAME': p['pi'], 'PROJECT_ID': p['id'], 'PROJECT_TITLE': p['name'], 'RUN_ID': str(r['id']), 'RUN_TITLE': r['name'], 'RUN_STATIONS': ','.join(r['stations']),
            'RUN_CHANNELS': str(r['chan']), 'RUN_INTTIME': '%.3f' % r['int'], 'RUN_BASIS': r['basis'],
            'RUN_REMPO': 'Requested data return method is %s' % r['drm'] + (';;' + p['por'][k] if p['por'] else '')}
    if c:
        want['RUN_REMPI'] = c
    if p['comments']:
        want['PROJECT_REMPI'] = p['comments']
    if p['po']:
        want['PROJECT_REMPO'] = p['po']
    for q, v in want.items():
        m.equal(head.get(q), v, 'text:%s' % q)
    so = sorted(r['scans'], key=lambda o: o['t'])
    if not m.check(len(obs) == len(so), 'text-scan-count'):
        return
    pos = (p['pos'][k] if p['pos'] else []) + [None] * len(so)
    for j, (o, d) in enumerate(zip(so, obs)):
        m.event('scans')
        w = {'OBS_ID': str(j + 1), 'SCAN_TARGET': o['target'], 'SCAN_INTENT': o['intent'], 'SCAN_MODE': o['mode'], 'SCAN_START_MJD': str(o['t'] // 86400000), 'SCAN_START_MPM': str(o['t'] % 86400000),
             'SCAN_DUR': str(o['dur']), 'SCAN_FREQ1': str(word(o['f1'])), 'SCAN_FREQ2': str(word(o['f2'])), 'SCAN_BW': str(o['filter'])}
        if o['comments']:
            w['SCAN_REMPI'] = o['comments']
        if pos[j]:
            w['SCAN_REMPO'] = pos[j]
        for v, off, q in ((o['gain'], -1, 'SCAN_DRX_GAIN'), (o['asp'], -1, 'SCAN_ASP_FLT'), (len(o['alt']), 0, 'SCAN_ALT_N')):
            if v != off:
                w[q] = str(v)
            else:
                m.check(q not in d, 'text-optional', lambda: '%s written though not asked for' % q)
        for q, v in w.items():
            m.equal(d.get(q), v, 'text:%s' % q)
        if o['mode'] == 'TRK_RADEC':
            m.check(abs(float(d['SCAN_RA']) - o['ra']) < 1e-9 and abs(float(d['SCAN_DEC']) - o['dec']) < 1e-9, 'text-pointing')
            m.equal([float(d.get('SCAN_PM_RA', 0)), float(d.get('SCAN_PM_DEC', 0))], o['pm'], 'text-proper-motion')
        for q, a in enumerate(o['alt']):
            m.event('alternates')
            q = '[%d]' % (q + 1)
            m.equal((d.get('SCAN_ALT_TARGET' + q), d.get('SCAN_ALT_INTENT' + q)), (a['target'], a['intent']), 'text-alternate')
            m.check(abs(float(d['SCAN_ALT_RA' + q]) - a['ra']) < 1e-9 and abs(float(d['SCAN_ALT_DEC' + q]) - a['dec']) < 1e-9, 'text-alternate-pointing')
            m.equal([float(d.get('SCAN_ALT_PM_RA' + q, 0)), float(d.get('SCAN_ALT_PM_DEC' + q, 0))], a['pm'], 'text-alternate-proper-motion')


def judge_objects(m, p, r, k, back):
    from lsl.common import idf
    eq = lambda got, want, name: m.equal(got, want, 'parsed:' + name)
    eq((back.observer.id, back.observer.name, back.id, back.name), (p['pid'], p['pi'], p['id'], p['name']), 'project')
    if p['comments']:
        eq(back.comments, p['comments'], 'project-comments')
    if p['po']:
        eq(back.project_office.project, p['po'], 'project-office')
    if p['por']:
        eq(back.project_office.runs[0], p['por'][k], 'project-office-run')
    b = back.runs[0]
    eq((b.id, b.name, b.ucf_username, b.data_return_method), (r['id'], r['name'], r['ucf'], r['drm']), 'run')
    if r['comments']:
        m.check(b.comments.endswith(r['comments']), 'parsed:run-comments')
    eq((b.correlator_channels, b.correlator_inttime, b.correlator_basis), (r['chan'], r['int'], r['basis']), 'correlator')
    eq([s.id for s in b.stations], r['stations'], 'stations')
    so = sorted(r['scans'], key=lambda o: o['t'])
    if not m.check(len(b.scans) == len(so), 'parsed-scan-count'):
        return
    pos = (p['pos'][k] if p['pos'] else []) + [None] * len(so)
    for j, (o, d) in enumerate(zip(so, b.scans)):
        eq(type(d).__name__, {'TRK_RADEC': 'DRX', 'TRK_SOL': 'Solar', 'TRK_JOV': 'Jovian'}[o['mode']], 'mode')
        eq((d.target, d.intent), (o['target'], o['intent']), 'title')
        if o['comments']:
            eq(d.comments, o['comments'], 'scan-comments')
        if pos[j]:
            eq(back.project_office.scans[0][j], pos[j], 'project-office-scan')
        eq((d.mjd * 86400000 + d.mpm, d.dur), (o['t'], o['dur']), 'time')
        eq(idf.get_scan_start_stop(d), (EP + timedelta(milliseconds=o['t']), EP + timedelta(milliseconds=o['t'] + o['dur'])), 'start-stop')
        eq((d.freq1, d.freq2, d.filter), (word(o['f1']), word(o['f2']), o['filter']), 'tuning')
        eq((d.gain, d.asp_filter), (o['gain'], o['asp']), 'gain-asp')
        if o['mode'] == 'TRK_RADEC':
            m.check(abs(d.ra - o['ra']) < 1e-9 and abs(d.dec - o['dec']) < 1e-9, 'parsed:pointing')
            eq(list(d.pm), o['pm'], 'proper-motion')
        eq([(a.target, a.intent, list(a.pm)) for a in d.alt_phase_centers], [(a['target'], a['intent'], a['pm']) for a in o['alt']], 'alternates')
        for a, x in zip(d.alt_phase_centers, o['alt']):
            m.check(abs(a.ra - x['ra']) < 1e-9 and abs(a.dec - x['dec']) < 1e-9, 'parsed:alternate-pointing')
        v = 4128 * 4 * BW[o['filter']] / 4096 * o['dur'] / 1000
        d.update()
        m.check(abs(d.dataVolumeStation - v) <= 1e-6 * v and abs(d.dataVolume - v * len(r['stations'])) <= 1e-6 * v * len(r['stations']), 'data-volume')


def moved(o, ra, dec, pm):
    """RA and dec. after proper motion from J2000.0 to the start of the scan."""
    yr = (o['t'] / 86400000.0 - 51544.5) / 365.25
    return (ra + yr * pm[0] / 1000 / 3600 / 15 / math.cos(math.radians(dec))) % 24.0, dec + yr * pm[1] / 1000 / 3600


def apart(a, b):
    return abs((a - b + 12) % 24 - 12)


def judge_sdfs(m, p, r, k, proj, sts, rng):
    from lsl.common import sdf
    first = rng.randint(1, 9000)
    run = k if len(proj.runs) > 1 else 0
    sdfs = proj.generate_sdfs(starting_session_id=first, run=run)
    if not m.check(len(sdfs) == len(r['stations']), 'sdf-count'):
        return
    so = sorted(r['scans'], key=lambda o: o['t'])
    for q, (s, name) in enumerate(zip(sdfs, r['stations'])):
        m.event('sdfs')
        m.equal((s.id, s.observer.name, s.observer.id, len(s.sessions)), (p['id'], p['pi'], p['pid'], 1), 'sdf-project')
        ses = s.sessions[0]
        m.equal((ses.station.id, ses.id), (name, first + q), 'sdf-session')
        m.check('corrchannels:%d;;corrinttime:%.3f;;corrbasis:%s;;' % (r['chan'], r['int'], r['basis']) in s.project_office.sessions[0], 'sdf-correlator', lambda: s.project_office.sessions[0])
        if not m.check(len(ses.observations) == len(so), 'sdf-observations'):
            continue
        m.check(s.validate(), 'sdf-valid', lambda: 'the SDF for %s of a valid run is not valid' % name)
        fn = os.path.join(m.scratch, 'x.sdf')
        s.writeto(fn, overwrite=True)
        back = sdf.parse_sdf(fn)
        for where, pr in (('sdf', s), ('sdf-file', back)):
            for j, (o, d) in enumerate(zip(so, pr.sessions[0].observations)):
                m.equal((d.mode, d.target, d.name), (o['mode'], o['target'], o['intent']), where + '-title')
                m.equal((d.mjd * 86400000 + d.mpm, d.dur, d.freq1, d.freq2, d.filter, d.gain), (o['t'], o['dur'], word(o['f1']), word(o['f2']), o['filter'], o['gain']), where + '-values')
                m.equal(set(d.asp_filter), {o['asp']}, where + '-asp')
                if o['comments']:
                    m.check(d.comments.startswith(o['comments']), where + '-comments', lambda: '%r for %r' % (d.comments, o['comments']))
                if o['mode'] == 'TRK_RADEC':
                    ra, dec = moved(o, o['ra'], o['dec'], o['pm'])
                    m.check(apart(d.ra, ra) < 1e-7 and abs(d.dec - dec) < 1e-7, where + '-pointing', lambda: '%r %r, expected %r %r' % (d.ra, d.dec, ra, dec))
                note = pr.project_office.observations[0][j] if len(pr.project_office.observations[0]) > j else None
                for c, a in enumerate(o['alt']):
                    c += 1
                    f = dict(re.findall(r'(alt[a-z]+%d):(.*?)(?:;;|$)' % c, note or ''))
                    m.equal((f.get('alttarget%d' % c), f.get('altintent%d' % c)), (a['target'], a['intent']), where + '-alternate')
                    ra, dec = moved(o, a['ra'], a['dec'], a['pm'])
                    m.check(apart(float(f.get('altra%d' % c, 'nan')), ra) < 1e-7 and abs(float(f.get('altdec%d' % c, 'nan')) - dec) < 1e-7, where + '-alternate-pointing', lambda: '%r for %r %r' % (note, ra, dec))


def limits(m, n):
    from lsl.common import idf, ndp
    from vf.checks.c24 import restoring
    sts = stations()
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)

        def verdict(ok, what):
            m.event('verdicts')
            got = proj.validate()
            m.check(got == ok, 'verdict:%s' % what.split('=')[0], lambda: '%s: validate() gives %r' % (what, got))
            fn = os.path.join(m.scratch, 'v.idf')
            if os.path.exists(fn):
                os.unlink(fn)
            try:
                proj.writeto(fn)
                m.check(ok, 'invalid-written:%s' % what.split('=')[0])
            except RuntimeError:
                m.check(not ok and not os.path.exists(fn), 'valid-not-written:%s' % what.split('=')[0])
        with m.case({'i': i}):
            p = draw(rng, sts)
            p['runs'] = p['runs'][:1]
            while p['runs'][0]['scans'][0]['mode'] != 'TRK_RADEC':
                p['runs'] = [draw_run(rng, sts)]
            p['pos'] = []
            proj = build(rng, p, sts)
            m.require(proj.validate(), 'valid-run-refused')
            run = proj.runs[0]
            run.scans.sort()
            o = run.scans[rng.randrange(len(run.scans))]
            lo = max(x.interface.get_module('backend').DRX_TUNING_WORD_MIN for x in run.stations)
            hi = min(x.interface.get_module('backend').DRX_TUNING_WORD_MAX for x in run.stations)
            alts = list(o.alt_phase_centers)
            for ok, what in restoring(run, 'id', [(1, True), (0, False), (9999, True), (10000, False)]):
                verdict(ok, what)
            for ok, what in restoring(proj, 'id', [('12345678', True), ('123456789', False)]):
                verdict(ok, what)
            del o.alt_phase_centers[:]
            for ok, what in restoring(o, 'freq1', [(lo, True), (lo - 1, False), (hi, True), (hi + 1, False), (0, False)]):
                verdict(ok, what)
            for ok, what in restoring(o, 'freq2', [(lo, True), (lo - 1, False), (hi, True), (hi + 1, False), (0, True)]):
                verdict(ok, what)
            if len(run.scans) == 1:
                for ok, what in restoring(o, 'filter', [(1, True), (7, True), (0, False), (8, False)]):
                    verdict(ok, what)
            else:
                f = o.filter
                for ok, what in restoring(o, 'filter', [(f % 7 + 1, False), (f, True)]):
                    verdict(ok, what)
            for ok, what in restoring(o, 'dur', [(0, False), (1, True)]):
                verdict(ok, what)
            # alternate phase centers
            beam = 74e6 / max(o.frequency1, o.frequency2)
            for sg in (1, -1):
                for f, ok in ((0.97, True), (1.03, False)):
                    if -90 < o.dec + sg * beam * f < 90:
                        del o.alt_phase_centers[:]
                        o.add_alt_phase_center('x', 'target', o.ra, o.dec + sg * beam * f)
                        if o.dec + sg * beam * f < 62 and ok:
                            continue
                        verdict(ok, 'alternate-distance=%.2f' % f)
            del o.alt_phase_centers[:]
            for _ in range(10):
                o.add_alt_phase_center('x', 'target', o.ra, o.dec)
            verdict(True, 'alternates=10')
            o.add_alt_phase_center('x', 'target', o.ra, o.dec)
            verdict(False, 'alternates=11')
            del o.alt_phase_centers[:]
            for a in alts:
                o.add_alt_phase_center(a)
            verdict(True, 'restored')
            old = o.dec
            o.dec = -80.0
            keep = list(o.alt_phase_centers)
            del o.alt_phase_centers[:]
            verdict(False, 'never-up')
            o.dec = old
            for a in keep:
                o.add_alt_phase_center(a)
            # stations
            st = list(run.stations)
            run.stations = st + [st[0]]
            verdict(False, 'station-twice')
            run.stations = st
            refuse(m, ValueError, setattr, 'one-station', run, 'stations', st[:1])
            m.equal([x.id for x in run.stations], [x.id for x in st], 'one-station-changes')
            # correlator
            for attr, bad, good in (('correlator_channels', [14, 17, 32770], [16, 32768]), ('correlator_inttime', [0.09, 10.01], [0.1, 10.0]), ('correlator_basis', ['xy'], ['linear', 'circular', 'stokes'])):
                old = getattr(run, attr)
                for v in bad:
                    refuse(m, ValueError, setattr, 'correlator-range', run, attr, v)
                    m.equal(getattr(run, attr), old, 'correlator-changes')
                for v in good:
                    setattr(run, attr, v)
                    m.equal(getattr(run, attr), v, 'correlator-set')
                setattr(run, attr, old)
            # overlap
            last = run.scans[-1]
            end = last.mjd * 86400000 + last.mpm + last.dur
            for dt, ok in ((0, True), (-1, False), (1, True), (-last.dur, False)):
                run.append(idf.DRX('t', 'target', EP + timedelta(milliseconds=end + dt), 10.0, 3.0, 80.0, 40e6, 50e6, last.filter))
                verdict(ok, 'overlap=%d' % dt)
                run.scans.sort()
                for x in list(run.scans):
                    if x.target == 't' and x.dur == 10000 and x.ra == 3.0 and x.dec == 80.0:
                        list.remove(run.scans, x) if run.scans[run.scans.index(x)] is x else run.scans.pop([id(y) for y in run.scans].index(id(x)))
            refuse(m, ValueError, setattr, 'intent', o, 'intent', 'other')
            apc = idf.AlternatePhaseCenter('t', 'target', 3.0, 88.0)
            for x in (o, apc):
                for attr, bads in (('dec', (91.0, -91.0)), ('ra', (24.0, -0.1)), ('pm', ([1.0], [1.0, 2.0, 3.0])), ('intent', ('other',))):
                    old = getattr(x, attr)
                    for bad in bads:
                        refuse(m, ValueError, setattr, '%s-range' % attr, x, attr, bad)
                        m.equal(getattr(x, attr), old, '%s-changes' % attr)
            refuse(m, TypeError, run.append, 'scan-type', 'x')
            from astropy import units as u
            o2 = idf.DRX('t', 'Target', EP + timedelta(days=60000), 2.5 * u.min, 3.0, 80.0, 40e6, 50e6, 7)
            m.equal((o2.dur, o2.intent), (150000, 'target'), 'duration-quantity')
            lone = idf.AlternatePhaseCenter('t', 'target', 3.0, 88.0) if hasattr(idf, 'AlternatePhaseCenter') else None
            if lone is not None:
                lone.validate()


def ordering(m, n):
    """Scans and runs sort by when they start."""
    from lsl.common import idf
    from vf.checks.c24 import when
    for k in range(m.n(n)):
        rng = m.rng(k)
        with m.case({'ordering': k}):
            made = []
            day = rng.randint(58000, 60000)
            for q in range(rng.randint(2, 5)):
                scans = []
                for _ in range(rng.randint(1, 4)):
                    t = (day + rng.randint(0, 2), rng.randint(0, 86399) * 1000)
                    if made and rng.random() < 0.1:
                        t = made[-1][0]
                    scans.append((t, idf.DRX('o', 'Target', 'UTC ' + when(*t).strftime('%Y %m %d %H:%M:%S'), '00:00:10.000', 1.0, 20.0, 40e6, 60e6, 7)))
                for (a, x) in scans:
                    for (b, y) in scans:
                        m.check((x < y) == (a < b) and (x == y) == (a == b), 'order:scan', '%s against %s' % (a, b))
                made.append((min(t for t, _ in scans), idf.Run('r%d' % q, q, [o for _, o in scans])))
            for (a, x) in made:
                for (b, y) in made:
                    m.event('ordered')
                    m.check((x < y) == (a < b) and (x == y) == (a == b), 'order:run', '%s against %s' % (a, b))
            rng.shuffle(made)
            m.equal([s.name for s in sorted(s for _, s in made)], [s.name for _, s in sorted(made, key=lambda q: q[0])], 'order:sorted')


JOBS = {'roundtrip-%d' % k: (roundtrip, 'plain', 14) for k in range(5)}
for k in range(2):
    JOBS['limits-%d' % k] = (limits, 'plain', 14)

JOBS['ordering'] = (ordering, 'plain', 120)
