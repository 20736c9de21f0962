"""C17 - configuration persistence."""
RULE = ('sessions (forked processes that import the configuration afresh and end normally, are killed at a random point while saving, or run at the same time) over one configuration directory '
        'against a dictionary model; distinct = distinct session histories')
NEED = {'sessions': 400, 'killed_saves': 80, 'values_read_back': 1500, 'concurrent_loads': 60, 'temporary_values': 150}
OPTS = {'scale': 2}
STR = ['observing.observer_name', 'observing.project_name', 'observing.project_id', 'ionosphere.igs_mirror', 'ionosphere.ustec_mirror', 'astro.leapsec_url', 'ionosphere.code_url']
INT = ['observing.observer_id', 'ldp.drx_buffer_size', 'ldp.tbx_autofill_size', 'ldp.cor_buffer_size', 'telemetry.max_entries', 'download.block_size', 'download.refresh_age',
       'ionosphere.max_cache_size', 'telemetry.timeout']
BOOL = ['telemetry.enabled']
OPTIONAL = ['observing.observer_name', 'observing.project_name', 'observing.project_id', 'observing.observer_id', 'ionosphere.igs_mirror', 'ionosphere.ustec_mirror']
ALL = STR + INT + BOOL


def value(rng, name):
    if name in OPTIONAL and rng.random() < 0.3:
        return None
    if name in INT:
        return rng.choice([0, 1, -1, 7, 10**6, rng.randrange(-10**9, 10**9)])
    if name in BOOL:
        return rng.random() < 0.5
    return rng.choice(['Jane Q. Doe', 'ftp://x.y/z?a=b&c=d', 'a=b', 'x', 'LT001', 'O\'Neil [NRL]', 'one # two', '50% [x] = y', 'None of these', 'k%d ' % rng.randrange(10**6) + 'v' * rng.choice([1, 50, 500])])


class Bad(Exception):
    pass


def session(d, fn, kill=None, uid=None, wait=None, timeout=60):
    """run fn(LSL_CONFIG) as a session over directory d; returns ('ok', result, warnings) or ('killed', ...) or ('error', text)"""
    import os, pickle, traceback, sys, atexit, warnings, signal, time
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.environ['LSLCONFIGDIR'] = d
            if uid:
                os.setgid(uid)
                os.setuid(uid)
            if wait:
                wait()
            atexit._clear()
            warnings.simplefilter('always')
            with warnings.catch_warnings(record=True) as ws:
                from lsl.config import LSL_CONFIG
                res = fn(LSL_CONFIG)
                n = [0]
                if kill is not None:
                    def prof(frame, event, arg):
                        n[0] += 1
                        if n[0] >= kill:
                            os.kill(os.getpid(), signal.SIGKILL)
                    sys.setprofile(prof)
                atexit._run_exitfuncs()
                sys.setprofile(None)
            out = ('ok', res, [str(x.message) for x in ws], n[0])
        except BaseException:
            out = ('error', traceback.format_exc())
        try:
            os.write(w, pickle.dumps(out))
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        c = os.read(r, 65536)
        if not c:
            break
        buf += c
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return ('killed',)
    return pickle.loads(buf)


def read_all(names):
    return lambda c: {k: c.get(k) for k in names}


def history(m, n):
    import os, shutil
    names = ALL
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        d = os.path.join(m.scratch, 'h%d' % i)
        desc = {'i': i, 'sessions': rng.randrange(3, 9)}
        with m.case(desc):
            r = session(d, read_all(names))
            m.require(r[0] == 'ok', 'session-failed', lambda: r[-1])
            m.event('sessions')
            cur = dict(r[1])
            for k in range(desc['sessions']):
                ops = [(rng.choice(['set', 'set', 'set', 'view', 'temp', 'same', 'badtype', 'unknown']), q) for q in rng.sample(names, rng.randrange(0, 6))]
                ops = [(o, q, cur[q] if o == 'same' else value(rng, q)) for o, q in ops]
                if rng.random() < 0.4:
                    # change things again, or back
                    ops += [('set', q, rng.choice([cur[q], value(rng, q)])) for o, q, _ in ops if o in ('set', 'view', 'same') and rng.random() < 0.8]
                boom = rng.choice([None, KeyError, ValueError, RuntimeError])

                def fn(c):
                    bad = []
                    want = dict(cur)
                    for o, q, v in ops:
                        sec, item = q.split('.')
                        if o in ('set', 'same'):
                            c.set(q, v)
                            want[q] = v
                        elif o == 'view':
                            c.view(sec).set(item, v)
                            want[q] = v
                            if c.view(sec).get(item) != v or c.view('ldp' if sec != 'ldp' else 'astro').get(q) != v:
                                bad.append('view of %s' % q)
                        elif o == 'temp':
                            try:
                                with (c.set_temp(q, v) if boom is KeyError else c.view(sec).set_temp(item, v)):
                                    if c.get(q) != v:
                                        bad.append('temporary value of %s' % q)
                                    if boom:
                                        raise boom('x')
                            except Exception as e:
                                if type(e) is not boom or str(e).strip("'") != 'x':
                                    bad.append('set_temp turned %s into %r' % (boom, e))
                        elif o == 'badtype' and q not in OPTIONAL:
                            for f in (c.set, lambda *a: c.set_temp(*a).__enter__()):
                                try:
                                    f(q, (1, 2))
                                    bad.append('%s accepted a tuple' % q)
                                except TypeError:
                                    pass
                        elif o == 'unknown':
                            for f in (c.get, lambda x: c.set(x, 1), lambda x: c.set_temp(x, 1).__enter__(), lambda x: c.view(x)):
                                try:
                                    f('observing.shoe_size')
                                    bad.append('unknown name accepted')
                                except ValueError:
                                    pass
                        for z in names:
                            if c.get(z) != want[z] or type(c.get(z)) != type(want[z]):
                                bad.append('%s is %r instead of %r after %s of %s' % (z, c.get(z), want[z], o, q))
                    return bad, want
                touched = rng.random() < 0.15
                lag = rng.choice([10**9, 10**7, 10**6])
                kill = rng.choice([None, None, rng.randrange(1, 400)])

                def run(c):
                    out = fn(c)
                    if touched:
                        f = os.path.join(d, 'lsl.cfg')
                        st = os.stat(f)
                        late = st.st_mtime_ns + lag
                        os.utime(f, ns=(late, late))
                    return out
                r = session(d, run, kill=kill)
                m.event('sessions')
                m.event('temporary_values', sum(o == 'temp' for o, _, _ in ops))
                m.require(r[0] != 'error', 'session-failed', lambda: r[-1])
                new = dict(cur)
                for o, q, v in ops:
                    if o in ('set', 'view', 'same'):
                        new[q] = v
                if r[0] == 'ok':
                    bad, want = r[1]
                    m.check(not bad, 'session-values', lambda: '; '.join(bad[:3]))
                    m.equal(want, new, 'harness-model')
                    if touched:
                        m.event('changed_on_disk')
                        m.check(new == cur or any('changed on disk' in x for x in r[2]), 'abandoned-without-warning')
                        if new == cur:
                            m.check(not any('changed on disk' in x for x in r[2]), 'nothing-to-abandon', lambda: repr(r[2][:3]))
                        for z in names:
                            if new[z] != cur[z]:
                                m.check(any('%s: %s -> %s' % (z, cur[z], new[z]) in x for x in r[2]), 'abandoned-what', lambda: '%s: %s -> %s is not among %s' % (z, cur[z], new[z], r[2][:4]))
                        allowed = [cur]
                    else:
                        allowed = [new]
                else:
                    m.event('killed_saves')
                    allowed = [cur, new]
                r = session(d, read_all(names))
                m.event('sessions')
                m.require(r[0] == 'ok', 'session-failed', lambda: r[-1])
                got = r[1]
                m.event('values_read_back', len(got))
                if not m.check(any(got == a and all(type(got[z]) == type(a[z]) for z in got) for a in allowed), 'persisted-values',
                               lambda: repr([(z, got[z], [a[z] for a in allowed]) for z in got if got[z] not in [a[z] for a in allowed]][:3]) + (' after a kill' if len(allowed) > 1 else '')):
                    break
                cur = got
        shutil.rmtree(d, ignore_errors=True)


def together(m, n):
    """sessions that start, load and save at the same time"""
    import os, shutil, time, threading, pickle
    from vf.checks.c15 import _fork
    names = ALL
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        d = os.path.join(m.scratch, 't%d' % i)
        how = rng.choice(['fresh', 'load', 'load'])
        with m.case({'i': i, 'how': how}):
            go = time.time() + 0.02
            wait = lambda: [None for _ in iter(lambda: time.time() < go, False)]
            if how == 'fresh':
                out = os.path.join(m.scratch, 'to%d.' % i)

                def one(k):
                    pickle.dump(session(d, read_all(names), wait=wait), open(out + str(k), 'wb'))
                rc = _fork([lambda k=k: one(k) for k in range(6)], 60)
                m.equal(rc, [0] * 6, 'harness-fork')
                for k in range(6):
                    r = pickle.load(open(out + str(k), 'rb'))
                    m.event('sessions')
                    m.event('concurrent_starts')
                    m.require(r[0] == 'ok', 'session-failed', lambda: r[-1])
                    m.check(not any('Cannot create' in x for x in r[2]), 'fresh-directory-taken-for-read-only', lambda: repr(r[2]))
                    m.check(os.path.exists(os.path.join(d, 'lsl.cfg')), 'nothing-saved')
            else:
                a = {q: value(rng, q) for q in names}
                b = {q: value(rng, q) for q in names}
                session(d, lambda c: [c.set(q, a[q]) for q in names] and None)
                out = os.path.join(m.scratch, 'to%d.' % i)

                def writer():
                    for k in range(8):
                        v = [b, a][k % 2]
                        session(d, lambda c: [c.set(q, v[q]) for q in names] and None)

                def reader(k):
                    res = []
                    for _ in range(10):
                        res.append(session(d, read_all(names)))
                    pickle.dump(res, open(out + str(k), 'wb'))
                rc = _fork([writer] + [lambda k=k: reader(k) for k in range(3)], 60)
                m.equal(rc, [0] * 4, 'harness-fork')
                for k in range(3):
                    for r in pickle.load(open(out + str(k), 'rb')):
                        m.event('sessions')
                        m.event('concurrent_loads')
                        m.require(r[0] == 'ok', 'session-failed', lambda: r[-1])
                        m.check(r[1] in (a, b), 'mixed-or-lost-values', lambda: repr([(q, r[1][q], a[q], b[q]) for q in names if r[1][q] not in (a[q], b[q])][:3]))
        shutil.rmtree(d, ignore_errors=True)


def readonly(m, n):
    """a configuration directory we cannot write to: the values in it are used, changes last for the session"""
    import os, shutil
    base = '/tmp/vf17-%d' % os.getpid()
    os.mkdir(base, 0o755)
    try:
        for i in range(m.n(n, 3 * n)):
            rng = m.rng(i)
            d = os.path.join(base, 'r%d' % i)
            fresh = rng.random() < 0.4
            with m.case({'i': i, 'no_directory': fresh}):
                a = {q: value(rng, q) for q in ALL}
                if not fresh:
                    session(d, lambda c: [c.set(q, a[q]) for q in ALL] and None)
                    for f in os.listdir(d):
                        os.chmod(os.path.join(d, f), 0o444)
                    os.chmod(d, 0o555)
                q = rng.choice(ALL)
                v = value(rng, q)

                def fn(c):
                    r = {z: c.get(z) for z in ALL}
                    c.set(q, v)
                    return r, c.get(q)
                r = session(d, fn, uid=65534)
                if r[0] == 'error' and ('Operation not permitted' in r[1] or 'setuid' in r[1] or "ModuleNotFoundError" in r[1]):
                    m.event('no_unprivileged_user')
                    continue
                m.require(r[0] == 'ok', 'read-only-session-failed', lambda: r[-1])
                m.event('sessions')
                m.event('read_only_sessions')
                m.check(any('Cannot create' in x for x in r[2]), 'read-only-warning')
                if not fresh:
                    m.equal(r[1][0], a, 'read-only-values')
                m.equal(r[1][1], v, 'read-only-set')
                if not fresh:
                    os.chmod(d, 0o755)
                    got = session(d, read_all(ALL))
                    m.check(got[0] == 'ok' and got[1] == a, 'read-only-directory-changed', lambda: repr(got)[:300])
    finally:
        shutil.rmtree(base, ignore_errors=True)


JOBS = {'history%d' % k: (history, 'plain', 45) for k in range(4)}
JOBS.update({'together0': (together, 'plain', 20), 'together1': (together, 'plain', 8), 'readonly': (readonly, 'plain', 12)})
