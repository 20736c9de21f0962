"""C16 - data files: complete and right, or refused."""
RULE = ('files of random contents served by a faulty local HTTP server pair (primary, backup) that truncates, resets, stalls, refuses, compresses, damages or omits the length of what it sends; '
        'a client killed or interrupted while downloading, several clients at once, and refreshes of old copies; the monitor compares every opened file with what the server holds; '
        'distinct = distinct (primary, backup, history) scenarios')
NEED = {'files_opened': 150, 'refused': 40, 'kills': 6, 'refreshes': 12, 'installed_files': 8}
OPTS = {}
GOOD = ('full', 'gzip', 'redirect', 'chunky')
BAD = ('trunc', 'reset', '404', '500', 'gziptrunc', 'gzipbad', 'empty', 'refuse', 'early')
EITHER = ('nolength', 'nomtime', 'stall')


def _content(rng):
    n = rng.choice([3, 10, 1000, 8191, 8192, 8193, 40000, rng.randrange(3, 90000)])
    return bytes(rng.getrandbits(8) for _ in range(min(n, 5000))) * (n // 5000) + bytes(rng.getrandbits(8) for _ in range(n % 5000)) if n >= 5000 else \
        bytes(rng.getrandbits(8) for _ in range(n))


def server(plan):
    """plan: name -> {'data', 'mtime', 'a': behaviour, 'b': behaviour, 'cut': fraction, 'delay': s}, from a file that is read for each request"""
    import gzip, http.server, os, pickle, socket, socketserver, struct, time
    from email.utils import formatdate

    class H(http.server.BaseHTTPRequestHandler):
        protocol_version = 'HTTP/1.0'

        def log_message(self, *a):
            pass

        def do_HEAD(self):
            self.go(True)

        def do_GET(self):
            self.go(False)

        def go(self, head):
            _, side, name = self.path.split('/', 2)
            with open(plan, 'rb') as fh:
                p = pickle.load(fh).get(name)
            with open(plan + '.log', 'a') as fh:
                fh.write('%s %s %s\n' % (self.command, side, name))
            if p is None:
                return self.send_error(404)
            b = p[side] if side in 'ab' else 'full'
            data = p['data']
            if b in ('404', '500'):
                return self.send_error(int(b))
            if b == 'refuse':
                self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                self.connection.close()
                return
            if b == 'redirect':
                self.send_response(302)
                self.send_header('Location', '/c/' + name)
                self.end_headers()
                return
            enc = False
            code = 200
            if b.startswith('gzip') and 'gzip' in self.headers.get('Accept-Encoding', ''):
                data = gzip.compress(data)
                enc = True
                if b == 'gziptrunc':
                    data = data[:max(1, int(len(data) * p['cut']))]
                elif b == 'gzipbad':
                    k = len(data) - 5                     # CRC
                    data = data[:k] + bytes([data[k] ^ 0x55]) + data[k + 1:]
            elif b.startswith('gzip') and b != 'gzip':
                return self.send_error(404)
            r = self.headers.get('Range')
            if r and not enc:
                lo, hi = r.split('=')[1].split('-')
                data = data[int(lo):int(hi) + 1]
                code = 206
            if b == 'empty':
                data = b''
            self.send_response(code)
            if enc:
                self.send_header('Content-Encoding', 'gzip')
            if b != 'nolength':
                self.send_header('Content-Length', str(len(data)))
            if b != 'nomtime':
                self.send_header('Last-Modified', formatdate(p['mtime'], usegmt=True))
            self.end_headers()
            if head:
                return
            cut = len(data)
            if b in ('trunc', 'reset', 'stall'):
                cut = min(len(data) - 1, int(len(data) * p['cut']))
            elif b == 'early':
                cut = 0
            step = 4096 if b != 'chunky' else 777
            try:
                for k in range(0, cut, step):
                    self.wfile.write(data[k:min(cut, k + step)])
                    self.wfile.flush()
                    if p['delay']:
                        time.sleep(p['delay'])
                if b == 'reset':
                    self.connection.setsockopt(socket.SOL_SOCKET, socket.SO_LINGER, struct.pack('ii', 1, 0))
                    self.connection.close()
                if b == 'stall':
                    time.sleep(4)
            except OSError:
                pass

    class S(socketserver.ThreadingMixIn, http.server.HTTPServer):
        daemon_threads = True

        def handle_error(self, *a):
            pass
    s = S(('127.0.0.1', 0), H)
    pid = os.fork()
    if pid == 0:
        try:
            import ctypes
            ctypes.CDLL(None).prctl(1, 9)            # end with the worker
            s.serve_forever()
        finally:
            os._exit(0)
    port = s.server_address[1]
    s.socket.close()
    return pid, port


class Site:
    def __init__(self, m):
        import os, time
        os.environ['TZ'] = m.rng('zone').choice(['America/Denver', 'Asia/Tokyo', 'UTC', 'XYZ+7', 'XYZ-5:30'])
        time.tzset()
        self.plan = os.path.join(m.scratch, 'plan')
        self.files = {}
        self.write()
        self.pid, self.port = server(self.plan)
        from lsl.config import LSL_CONFIG
        import lsl.common.data_access as da
        os.environ.pop('http_proxy', None)
        self.da, self.access = da, da.DataAccess
        type(self.access)._BASE_URL = 'http://127.0.0.1:%d/a' % self.port
        type(self.access)._BACKUP_URL = 'http://127.0.0.1:%d/b' % self.port
        self.timeout = lambda t: LSL_CONFIG.set('download.timeout', t)
        self.timeout(30)

    def write(self):
        import os, pickle
        with open(self.plan + '.n', 'wb') as fh:
            pickle.dump(self.files, fh)
        os.replace(self.plan + '.n', self.plan)

    def put(self, name, **k):
        e = self.files.setdefault(name, {'data': b'', 'mtime': 1.6e9, 'a': 'full', 'b': 'full', 'cut': 0.5, 'delay': 0})
        e.update(k)
        self.write()
        open(self.plan + '.log', 'w').close()

    def requests(self):
        return open(self.plan + '.log').read().split('\n')[:-1]

    def read(self, name):
        with self.access.open(name, 'rb') as fh:
            return fh.read()

    def url(self, side, name):
        return 'http://127.0.0.1:%d/%s/%s' % (self.port, side, name)

    def close(self):
        import os, signal
        os.kill(self.pid, signal.SIGKILL)
        os.waitpid(self.pid, 0)


def _try(m, s, name, data, state):
    """state good: must be right; bad: must be refused; either"""
    try:
        got = s.read(name)
    except RuntimeError as e:
        m.event('refused')
        m.check(state != 'good', 'refused-available', lambda: '%s although a server delivers the file' % e)
        return False
    except OSError as e:
        m.violation('fetch-error', '%s: %s' % (type(e).__name__, e))
        return False
    m.event('files_opened')
    m.check(got == data, 'incomplete-or-wrong-file', lambda: 'opened %d bytes that are not the %d bytes the server holds (prefix: %s)' % (len(got), len(data), data.startswith(got)))
    m.check(state != 'bad', 'unavailable-file-opened')
    return True


def _judge(a, b):
    if a in GOOD:
        return 'good'
    if a in EITHER:
        return 'either' if b not in GOOD else 'good'
    return 'good' if b in GOOD else 'either' if b in EITHER else 'bad'


def faults(m, n):
    s = Site(m)
    try:
        for i in range(m.n(n)):
            if m.over():
                break
            rng = m.rng(i)
            name = rng.choice(['x%d.dat', 'sub/x%d.txt', 'deep/er/x%d.hdf5', 'x%d.gz']) % i
            a, b = [rng.choice(rng.choice([GOOD, BAD, BAD, EITHER]) if rng.random() < 0.97 else EITHER) for _ in range(2)]
            if name.endswith('.gz'):
                a, b = ['trunc' if q.startswith('gzip') else q for q in (a, b)]
            data = _content(rng)
            with m.case({'i': i, 'name': name, 'primary': a, 'backup': b, 'size': len(data)}):
                s.put(name, data=data, a=a, b=b, cut=rng.choice([0.0, 0.001, 0.5, rng.random(), 0.999]))
                s.timeout(2 if 'stall' in (a, b) else 30)
                ok = _try(m, s, name, data, _judge(a, b))
                s.timeout(30)
                # once the server works again so does the file, and once it is there it stays there
                if not ok:
                    s.put(name, a='full', b='full')
                    _try(m, s, name, data, 'good')
                m.check(s.access.getsize(name) == len(data), 'size-of-cached-file')
                s.put(name, a='404', b='404')
                _try(m, s, name, data, 'good')
                m.equal(s.requests(), [], 'cached-file-downloaded-again')
    finally:
        s.close()


def direct(m, n):
    """download_file and check_url"""
    import os
    s = Site(m)
    da = s.da
    try:
        for i in range(m.n(n)):
            if m.over():
                break
            rng = m.rng(i)
            name = 'd%d' % i
            a = rng.choice([rng.choice(GOOD + BAD), rng.choice(GOOD), rng.choice(BAD + EITHER[:2])])
            data = _content(rng)
            mt = rng.randrange(10**8, 2 * 10**9)
            with m.case({'i': i, 'server': a, 'size': len(data)}):
                s.put(name, data=data, a=a, cut=rng.random(), mtime=mt)
                f = os.path.join(m.scratch, name)
                lo = rng.randrange(len(data))
                hi = rng.randrange(lo, len(data))
                br = rng.choice([None, None, (lo, hi), [lo, hi], hi])
                want = data if br is None else data[br[0]:br[1] + 1] if isinstance(br, (tuple, list)) else data[:br + 1]
                if a.startswith('gzip') and br is not None:
                    continue
                if rng.random() < 0.5:
                    size, got, mtime = da.download_file(s.url('a', name), f, byte_range=br, verbose=False)
                else:
                    with open(f, 'wb') as fh:
                        size, got, mtime = da.download_file(s.url('a', name), fh, byte_range=br, verbose=False)
                c = open(f, 'rb').read()
                m.event('downloads')
                if a in GOOD:
                    m.check(c == want and got > 0 and size == got, 'download-content', lambda: '%d bytes, reported %r, expected %d' % (len(c), (size, got), len(want)))
                    if a != 'gzip':
                        m.equal(got, len(want), 'download-size')
                    m.equal(mtime, mt, 'download-mtime')
                elif a in BAD:
                    m.equal((size, got) + ((mtime,) if a != 'empty' else (0,)), (0, 0, 0), 'failed-download-reported')
                    m.event('refused')
                else:
                    m.check(got == 0 or c == want, 'download-content')
                if a not in EITHER and a not in BAD or a in ('404', '500', 'refuse'):
                    r = da.check_url(s.url('a', name), byte_range=br, verbose=False)
                    if a in GOOD and a != 'gzip':
                        m.equal(tuple(r), (len(want), mt), 'check-url')
                    elif a in BAD:
                        m.equal(tuple(r), (0, 0), 'check-url-failure')
    finally:
        s.close()


def killed(m, n):
    """clients that end (killed or interrupted) in the middle of a download, or download at the same time"""
    import os, signal, time, sys
    from vf.checks.c15 import _fork
    s = Site(m)
    try:
        for i in range(m.n(n)):
            if m.over():
                break
            rng = m.rng(i)
            name = 'k%d.dat' % i
            data = _content(rng) + os.urandom(20000)
            how = rng.choice(['kill', 'kill', 'int', 'many'])
            with m.case({'i': i, 'how': how, 'size': len(data)}):
                s.put(name, data=data, delay=0.01, a='full', b='full')
                out = os.path.join(m.scratch, 'out%d.' % i)
                if how == 'many':
                    def one(k):
                        time.sleep(rng.choice([0, 0.005, 0.02]) * k)
                        open(out + str(k), 'wb').write(s.read(name))
                    rc = _fork([lambda k=k: one(k) for k in range(4)], 60)
                    m.equal(rc, [0] * 4, 'concurrent-client-failed')
                    for k in range(4):
                        if rc[k] == 0:
                            m.event('files_opened')
                            m.check(open(out + str(k), 'rb').read() == data, 'incomplete-or-wrong-file', 'concurrent download')
                else:
                    pid = os.fork()
                    if pid == 0:
                        try:
                            signal.signal(signal.SIGINT, signal.default_int_handler)
                            s.read(name)
                        except BaseException:
                            pass
                        finally:
                            os._exit(0)
                    time.sleep(rng.uniform(0.01, 0.09))
                    os.kill(pid, signal.SIGKILL if how == 'kill' else signal.SIGINT)
                    st = os.waitpid(pid, 0)[1]
                    m.event('kills' if os.WIFSIGNALED(st) else 'interrupts')
                    s.put(name, delay=0)
                    _try(m, s, name, data, 'good')
    finally:
        s.close()


def refresh(m, n):
    """copies older than the refresh age are replaced if, and only if, there is something newer"""
    import os, time
    from lsl.config import LSL_CONFIG
    s = Site(m)
    try:
        for i in range(m.n(n)):
            if m.over():
                break
            rng = m.rng(i)
            name = 'r%d.dat' % i
            old, new = _content(rng), _content(rng) + b'new'
            age = LSL_CONFIG.get('download.refresh_age') * 86400
            how = rng.choice(['newer', 'newer', 'older', 'young', 'down'])
            with m.case({'i': i, 'how': how}):
                s.put(name, data=old, mtime=time.time() - 9e7)
                m.require(s.read(name) == old, 'incomplete-or-wrong-file')
                path = [os.path.join(d, name) for d, _, f in os.walk(LSL_CONFIG.dirname) if name in f]
                if len(path) != 1:
                    continue
                a = age * (0.5 if how == 'young' else 1.5)
                os.utime(path[0], (time.time() - a,) * 2)
                s.put(name, data=new, mtime=time.time() - (10 if how != 'older' else 3 * age), **({'a': '500', 'b': '500'} if how == 'down' else {}))
                if rng.random() < 0.3 and how != 'down':
                    s.put(name, a='404')
                m.event('refreshes')
                got = s.read(name)
                m.check(got == (new if how == 'newer' else old), 'refresh-' + how, lambda: '%d bytes, old %d new %d' % (len(got), len(old), len(new)))
                if how == 'young':
                    m.equal(s.requests(), [], 'young-copy-polled')
    finally:
        s.close()


def installed(m, n):
    """the files that come with the package, and names nobody has"""
    import os, random
    s = Site(m)
    root = os.path.join(os.path.dirname(s.da.__file__), '..', 'data')
    try:
        names = sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs if not f.endswith(('.py', '.pyc')))
        m.rng(0).shuffle(names)
        for k, name in enumerate(names[:40]):
            data = open(os.path.join(root, name), 'rb').read()
            if len(data) < 3:
                continue
            with m.case({'name': name}):
                s.put(name, data=b'not this one', mtime=1)
                m.event('installed_files')
                m.check(s.read(name) == data, 'installed-file', lambda: name)
                s.access.remove(name)
                m.check(s.read(name) == data, 'installed-file-again', lambda: name)
        with m.case('nobody has it'):
            m.raises(RuntimeError, lambda: s.read('no/such/file.dat'), 'missing-file')
            m.raises(RuntimeError, lambda: s.read('no/such/file.dat'), 'missing-file-again')
    finally:
        s.close()


def shipped(m, n):
    """copies of files of the package follow the package"""
    import os, time
    from lsl.config import LSL_CONFIG
    s = Site(m)
    root = os.path.join(m.scratch, 'package')
    os.makedirs(root)
    if not hasattr(s.da, 'DATA_PATH'):
        return
    s.da.DATA_PATH = root
    try:
        for i in range(m.n(n)):
            rng = m.rng(i)
            name = 'p%d.dat' % i
            old, new, other = _content(rng), _content(rng) + b'new', b'from the server'
            age = LSL_CONFIG.get('download.refresh_age') * 86400
            how = rng.choice(['newer', 'older', 'young', 'server', 'none'])
            with m.case({'i': i, 'how': how}):
                if len(old) < 3:
                    continue
                local = os.path.join(root, name)
                open(local, 'wb').write(old)
                os.utime(local, (time.time() - 9e7,) * 2)
                s.put(name, data=other, mtime=time.time() - 9.5e7)
                m.require(s.read(name) == old, 'incomplete-or-wrong-file')
                path = [os.path.join(d, name) for d, _, f in os.walk(LSL_CONFIG.dirname) if name in f]
                if len(path) != 1:
                    continue
                os.utime(path[0], (time.time() - age * (0.5 if how == 'young' else 1.5),) * 2)
                open(local, 'wb').write(new)
                os.utime(local, (time.time() - (3 * age if how in ('older', 'server', 'none') else 10),) * 2)
                if how == 'server':
                    s.put(name, mtime=time.time() - 10)
                m.event('refreshes')
                got = s.read(name)
                # with a newer file on the server the copy is renewed, and the package comes first
                m.check(got == (new if how in ('newer', 'server') else old), 'shipped-' + how, lambda: '%d bytes, old %d new %d' % (len(got), len(old), len(new)))
    finally:
        s.close()


JOBS = {'faults%d' % k: (faults, 'plain', 80) for k in range(3)}
JOBS.update({'direct': (direct, 'plain', 150), 'killed0': (killed, 'plain', 20), 'killed1': (killed, 'plain', 20), 'refresh': (refresh, 'plain', 30), 'installed': (installed, 'plain', 1)})
JOBS['shipped'] = (shipped, 'plain', 15)
