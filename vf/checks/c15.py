"""C15 - file locks and caches."""
RULE = ('processes (forked, so with equal thread identities) and threads contending for file locks and caches with random holds, nesting, non-blocking tries and '
        'SIGKILLs inside of the critical section; offline check of the event log they append to (alternation, conservation of counter increments, no torn reads); '
        'random operation histories on file and memory caches against a model; distinct = distinct scenarios')
NEED = {'critical_sections': 600, 'kills': 4, 'cache_ops': 3000, 'contended_tries': 20, 'evictions': 30}
OPTS = {'scale': 6}


def _fork(fns, timeout, kill=None):
    """run each fn in a forked process; returns exit codes (None: had to be ended after the timeout)"""
    import os, time, signal, traceback
    pids = []
    for f in fns:
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                f()
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        pids.append(pid)
    kill = sorted(kill or [])
    t0 = time.time()
    rc = {}
    while len(rc) < len(pids):
        for k, p in enumerate(pids):
            if k not in rc:
                q, st = os.waitpid(p, os.WNOHANG)
                if q:
                    rc[k] = os.waitstatus_to_exitcode(st)
        while kill and time.time() - t0 > kill[0][0]:
            k = kill.pop(0)[1]
            if k not in rc:
                os.kill(pids[k], signal.SIGKILL)
        if time.time() - t0 > timeout:
            for k, p in enumerate(pids):
                if k not in rc:
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    rc[k] = None
        time.sleep(0.002)
    return [rc[k] for k in range(len(pids))]


class Log:
    def __init__(self, path):
        import os
        self.fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)

    def put(self, *w):
        import os
        os.write(self.fd, (' '.join(str(x) for x in w) + '\n').encode())


def locks(m, n):
    import os, threading, time, random
    from lsl.misc.file_lock import FileLock
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        np_, nt, per = rng.choice([1, 2, 4]), rng.choice([1, 2, 3]), rng.choice([3, 6])
        shared = rng.random() < 0.7
        kills = [(rng.uniform(0.01, 0.15), k) for k in range(np_ - 1)] if np_ > 1 and rng.random() < 0.4 else []
        d = os.path.join(m.scratch, 'l%d' % i)
        os.mkdir(d)
        base, ctr, logn = os.path.join(d, 'thing'), os.path.join(d, 'counter'), os.path.join(d, 'log')
        open(ctr, 'w').write('0')
        desc = {'i': i, 'processes': np_, 'threads': nt, 'shared_object': shared, 'kills': len(kills)}

        def proc(p):
            one = FileLock(base)
            lg = Log(logn)

            def thread(t):
                r = random.Random('%d.%d.%d.%d' % (m.seed, i, p, t))
                who = '%d.%d' % (p, t)
                done = 0
                while done < per:
                    lk = one if shared else FileLock(base)
                    how = r.choice(['with', 'block', 'try', 'nest'])
                    if how == 'try':
                        if not lk.acquire(blocking=False):
                            lg.put('busy', who)
                            time.sleep(r.uniform(0, 0.003))
                            continue
                    else:
                        ok = lk.acquire() if how != 'with' else (lk.__enter__() is lk)
                        if not ok:
                            lg.put('timeout', who)
                            return
                    lg.put('enter', who)
                    if not lk.locked():
                        lg.put('unlocked', who)
                    if how == 'nest' and shared:
                        with lk:
                            time.sleep(r.uniform(0, 0.001))
                    v = int(open(ctr).read() or 0)
                    time.sleep(r.choice([0, 0.001, r.uniform(0, 0.004)]))
                    with open(ctr + '.n', 'w') as fh:
                        fh.write(str(v + 1))
                    os.replace(ctr + '.n', ctr)
                    lg.put('exit', who)
                    done += 1
                    if how == 'with':
                        lk.__exit__(None, None, None)
                    else:
                        lk.release()
                    if r.random() < 0.3:
                        time.sleep(r.uniform(0, 0.003))
            th = [threading.Thread(target=thread, args=(t,), daemon=True) for t in range(nt)]
            for t in th:
                t.start()
            for t in th:
                t.join(40)
                if t.is_alive():
                    lg.put('stuck', p)
        with m.case(desc):
            rc = _fork([lambda p=p: proc(p) for p in range(np_)], 60, kills)
            killed = {k for k in range(np_) if rc[k] == -9}
            m.event('kills', len(killed))
            m.check(all(c == 0 or k in killed for k, c in enumerate(rc)), 'lock-worker-failed', lambda: repr(rc))
            holder, entered, exited = None, 0, 0
            for line in open(logn):
                ev, who = line.split()
                if ev == 'busy':
                    m.event('contended_tries')
                elif ev == 'enter':
                    m.event('critical_sections')
                    entered += 1
                    m.check(holder is None or int(holder.split('.')[0]) in killed, 'mutual-exclusion', lambda: '%s entered while %s was inside' % (who, holder))
                    holder = who
                elif ev == 'exit':
                    exited += 1
                    m.check(holder == who, 'mutual-exclusion', lambda: '%s left while %s was inside' % (who, holder))
                    holder = None
                else:
                    m.violation('lock-' + ev, line)
            c = int(open(ctr).read())
            m.check(exited <= c <= entered, 'lost-update', lambda: 'counter %d after %d entries and %d exits' % (c, entered, exited))
            if not killed:
                m.equal(exited, np_ * nt * per, 'lock-progress')
            f = FileLock(base)
            m.check(f.acquire(blocking=False), 'lock-left-behind', 'nobody holds the lock but it cannot be acquired')
            f.release()
            m.check(not f.locked(), 'locked-after-release')
        import shutil
        shutil.rmtree(d, ignore_errors=True)


def shared_cache(m, n):
    """processes and threads writing, appending and reading cache files: no torn contents, nothing lost"""
    import os, threading, time, random, shutil
    from lsl.misc.file_cache import FileCache, MemoryCache
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        kind = rng.choice(['file', 'file', 'memory'])
        np_, nt, per = (1 if kind == 'memory' else rng.choice([1, 2, 4])), rng.choice([2, 3]), 5
        oneobj = kind == 'memory' or rng.random() < 0.6
        d = os.path.join(m.scratch, 'c%d' % i)
        logn = os.path.join(m.scratch, 'c%d.log' % i)
        mem = MemoryCache() if kind == 'memory' else None

        def proc(p):
            lg = Log(logn)
            one = mem or FileCache(os.path.join(d, 'deep', 'cache'))

            def thread(t):
                try:
                    r = random.Random('%d.%d.%d.%d' % (m.seed, i, p, t))
                    who = '%d.%d' % (p, t)
                    for k in range(per):
                        c = one if oneobj else FileCache(os.path.join(d, 'deep', 'cache'))
                        op = r.choice(['w', 'w', 'r', 'r', 'a', 'miss', 'boom'])
                        name = r.choice(['x.txt', 'sub/y.txt'])
                        if op == 'w':
                            with c.open(name, 'wb') as fh:
                                for q in range(4):
                                    fh.write(('%-9s\n' % who).encode())
                                    fh.flush()
                                    time.sleep(r.choice([0, 0.001]))
                        elif op == 'r':
                            if name in c:
                                try:
                                    with c.open(name, 'rb') as fh:
                                        s = fh.read()
                                except FileNotFoundError:
                                    s = b''
                                u = set(s.decode().split('\n')) - {''}
                                if len(u) != 1 or len(s) != 40:
                                    lg.put('torn', repr(s).replace(' ', '_'))
                                else:
                                    lg.put('read', who)
                        elif op == 'a':
                            with c.open('log.txt', 'ab') as fh:
                                fh.write(('%s.%d\n' % (who, k)).encode())
                            lg.put('append', '%s.%d' % (who, k))
                        elif op == 'miss':
                            try:
                                with c.open('not-there', 'rb') as fh:
                                    lg.put('found-missing', who)
                            except OSError:
                                pass
                        else:
                            try:
                                with c.open('boom.txt', 'w') as fh:
                                    raise KeyError('boom')
                            except KeyError:
                                pass
                        lg.put('op', op)
                except BaseException as e:
                    lg.put('error', repr(e).replace(' ', '_'))
            th = [threading.Thread(target=thread, args=(t,), daemon=True) for t in range(nt)]
            for t in th:
                t.start()
            for t in th:
                t.join(40)
                if t.is_alive():
                    lg.put('stuck', p)
            if mem:
                with open(logn + '.app', 'w') as fh:
                    if 'log.txt' in mem:
                        with mem.open('log.txt', 'r') as gh:
                            fh.write(gh.read())
        with m.case({'i': i, 'cache': kind, 'processes': np_, 'threads': nt, 'one_object': oneobj}):
            rc = _fork([lambda p=p: proc(p) for p in range(np_)], 60)
            m.check(all(c == 0 for c in rc), 'cache-worker-failed', lambda: repr(rc))
            apps = []
            for line in open(logn):
                ev, w = line.split()
                if ev == 'append':
                    apps.append(w)
                elif ev == 'op':
                    m.event('cache_ops')
                elif ev == 'read':
                    m.event('whole_reads')
                else:
                    m.violation('cache-' + ev, line)
            if kind == 'memory':
                got = open(logn + '.app').read().split()
            else:
                p = os.path.join(d, 'deep', 'cache', 'log.txt')
                got = open(p).read().split() if os.path.exists(p) else []
            m.equal(sorted(got), sorted(apps), 'appended-records')
        shutil.rmtree(d, ignore_errors=True)


def model(m, n):
    """random histories on one cache against a dictionary"""
    import os, shutil, time
    from lsl.misc.file_cache import FileCache, MemoryCache
    names = ['a.txt', 'b.dat', 'c', 'd/e.txt', 'd/f/g.dat', 'd/h.lock']
    for i in range(m.n(n)):
        if m.over():
            break
        rng = m.rng(i)
        kind = rng.choice(['file', 'memory'])
        limit = rng.choice([0, 0, 300, 1000])
        d = os.path.join(m.scratch, 'm%d' % i)
        call = rng.random() < 0.3
        ms = limit / 1024.0**2
        with m.case({'i': i, 'cache': kind, 'limit': limit}):
            arg = (lambda: ms) if call else ms
            c = FileCache(d, max_size=arg) if kind == 'file' else MemoryCache(max_size=arg)
            ref, when, clock = {}, {}, 1000000000

            def touch(nm):
                nonlocal clock
                clock += 1000
                when[nm] = clock
                if kind == 'file':
                    os.utime(os.path.join(d, nm), (clock, clock))
                else:
                    time.sleep(2e-5)
            for k in range(rng.choice([20, 40])):
                m.event('cache_ops')
                nm = rng.choice(names)
                if kind == 'file' and nm in ref and rng.random() < 0.1:
                    # somebody else gave the file another age
                    when[nm] = rng.choice([999990000, clock]) - k - 1
                    os.utime(os.path.join(d, nm), (when[nm], when[nm]))
                op = rng.choice(['w', 'wb', 'a', 'ab', 'r', 'rb', 'r', 'rm', 'stat', 'in', 'boom', 'lines', 'seek'])
                if op in ('w', 'wb', 'a', 'ab', 'boom'):
                    mode = op if op != 'boom' else 'w'
                    txt = '\n'.join('%d-%d' % (k, q) * rng.randrange(0, 12) for q in range(rng.randrange(0, 6)))
                    old = ref.get(nm, b'') if mode.startswith('a') else b''
                    ref[nm] = old
                    if limit:
                        order = sorted((f for f in ref if f != nm), key=lambda f: when.get(f, 0))
                        while order and sum(len(v) for v in ref.values()) > limit:
                            f = order.pop(0)
                            del ref[f]
                            when.pop(f, None)
                            m.event('evictions')
                    try:
                        with c.open(nm, mode) as fh:
                            half = len(txt) // 2
                            for nth, part in enumerate((txt[:half], txt[half:])):
                                fh.write(part.encode() if 'b' in mode else part)
                                if rng.random() < 0.3:
                                    fh.flush()
                                    if nth == 0:
                                        m.equal(c.getsize(nm), len(old) + half, 'getsize-while-writing')
                            if op == 'boom':
                                raise ZeroDivisionError
                    except ZeroDivisionError:
                        m.equal(op, 'boom', 'exception-passes')
                    ref[nm] = old + txt.encode()
                    touch(nm)
                elif op in ('r', 'rb', 'lines', 'seek'):
                    if nm not in ref:
                        m.raises(OSError, lambda: c.open(nm, 'rb').__enter__(), 'open-missing')
                        m.check(nm not in c, 'open-missing-created')
                        continue
                    with c.open(nm, 'r' if op != 'rb' else 'rb') as fh:
                        if op == 'lines':
                            m.equal([x for x in fh], ref[nm].decode().splitlines(True), 'lines')
                        elif op == 'seek':
                            fh.seek(0, 2)
                            m.equal(fh.tell(), len(ref[nm]), 'tell-end')
                            p = rng.randrange(0, len(ref[nm]) + 1)
                            m.equal(fh.seek(p), p, 'seek')
                            q = rng.randrange(0, 20)
                            m.equal(fh.read(q), ref[nm][p:p + q].decode(), 'read-at')
                            m.equal(fh.readline(), (ref[nm][p + q:].decode().splitlines(True) or [''])[0], 'readline')
                        else:
                            s = fh.read(len(ref[nm]) // 2)
                            m.equal(c.getsize(nm), len(ref[nm]), 'getsize-while-reading')
                            s += fh.read()
                            m.equal(s if op == 'rb' else s.encode(), ref[nm], 'contents')
                elif op == 'rm':
                    c.remove(nm)
                    ref.pop(nm, None)
                    when.pop(nm, None)
                elif op == 'stat':
                    if nm in ref:
                        m.equal(c.getsize(nm), len(ref[nm]), 'getsize')
                        m.equal(c.stat(nm).st_size, len(ref[nm]), 'stat')
                        t = c.getmtime(nm)
                        if kind == 'file':
                            m.equal(t, when[nm], 'getmtime')
                        else:
                            m.check(abs(t - time.time()) < 60, 'getmtime', lambda: repr(t))
                    else:
                        for f in (c.getsize, c.getmtime, c.stat):
                            m.raises(OSError, lambda: f(nm), 'stat-missing')
                for f in names:
                    m.equal(f in c, f in ref, 'contains', op=op)
            for f in ref:
                with c.open(f, 'rb') as fh:
                    m.equal(fh.read(), ref[f], 'final-contents')
        shutil.rmtree(d, ignore_errors=True)


def creation(m, n):
    """processes creating the same cache at the same time; another process wins the race for the directory"""
    import os, sys, shutil
    from lsl.misc.file_cache import FileCache
    state = {'dir': None}

    def hook(name, args):
        if name == 'os.mkdir' and state['dir'] and os.fsdecode(args[0]).startswith(state['dir']):
            t, state['dir'] = os.fsdecode(args[0]), None
            os.makedirs(t, exist_ok=True)          # what a faster process does
    sys.addaudithook(hook)
    for i in range(m.n(n)):
        d = os.path.join(m.scratch, 'r%d' % i)
        with m.case({'i': i, 'create': 1}):
            state['dir'] = d
            c = FileCache(os.path.join(d, 'x', 'y'))
            m.event('cache_ops')
            with c.open('f', 'w') as fh:
                fh.write('1')
            m.check(os.path.exists(os.path.join(d, 'x', 'y', 'f')), 'cache-place')
        state['dir'] = None
        shutil.rmtree(d, ignore_errors=True)
        with m.case({'i': i, 'create': 4}):
            def make():
                c = FileCache(os.path.join(d, 'x', 'y'))
                with c.open('f%d' % os.getpid(), 'w') as fh:
                    fh.write('1')
            rc = _fork([make] * 4, 60)
            m.event('cache_ops', 4)
            m.equal(rc, [0] * 4, 'concurrent-creation')
            m.equal(len([f for f in os.listdir(os.path.join(d, 'x', 'y')) if f.startswith('f')]), 4, 'concurrent-creation-files')
        shutil.rmtree(d, ignore_errors=True)
    with m.case({'unwritable': 1}):
        from lsl.misc.file_lock import FileLock
        p = os.path.join(m.scratch, 'plain')
        open(p, 'w').write('x')
        m.raises(OSError, lambda: FileLock(os.path.join(p, 'x')).acquire(), 'unwritable-lock')


JOBS = {'locks%d' % k: (locks, 'plain', 40) for k in range(3)}
JOBS.update({'shared%d' % k: (shared_cache, 'plain', 40) for k in range(2)})
JOBS.update({'model%d' % k: (model, 'plain', 200) for k in range(2)})
JOBS['creation'] = (creation, 'plain', 20)
