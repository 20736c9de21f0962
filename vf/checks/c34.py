"""C34 - text typed on the command line, messages, displays and logs mean what they say; modules stand alone."""
import io
import os
import re
import string

RULE = ('random values formatted in every documented way (and damaged) through every command-line converter; random nested color markup, progress bars at every stage and busy indicators that are started and stopped while they print; random histories of log configuration and messages, '
        'also from several threads, against a model of each sink; every module imported in an interpreter of its own; distinct = distinct inputs')
OPTS = {'scale': 4}
NEED = {'parsed': 1500, 'refused': 300, 'colored': 200, 'bars': 800, 'busy': 8, 'log_messages': 800, 'modules': 50, 'exported': 300}
C = 299792458.0


def _ok(m, f, text, want, mech, tol=None):
    from argparse import ArgumentTypeError
    with m.case({'f': f.__name__, 'text': text}):
        try:
            got = f(text)
        except ArgumentTypeError as e:
            m.violation(mech, '%s(%r) was refused: %s' % (f.__name__, text, e))
            return
        if tol is None:
            m.check(got == want and type(got) is type(want), mech, lambda: '%s(%r) gave %r instead of %r' % (f.__name__, text, got, want))
        else:
            a, b = (got, want) if isinstance(want, list) else ([got], [want])
            m.check(isinstance(a, list) and len(a) == len(b) and all(abs(x - y) <= tol * (abs(y) or 1) for x, y in zip(a, b)), mech, lambda: '%s(%r) gave %r instead of %r' % (f.__name__, text, got, want))
        m.event('parsed')


def _no(m, f, text, mech):
    from argparse import ArgumentTypeError
    with m.case({'f': f.__name__, 'bad': text}):
        try:
            got = f(text)
            m.violation(mech, '%s(%r) was accepted: %r' % (f.__name__, text, got))
        except ArgumentTypeError:
            m.event('refused')


def _num(rng):
    v = rng.choice([rng.uniform(0.1, 100), float(rng.randint(1, 98)), rng.uniform(1e-3, 1e4)])
    t = rng.choice(['%.3f', '%.6g', '%.2e'] + (['%d'] if v == int(v) else [])) % v
    return t, float(t)


def parser(m, n):
    import datetime
    import math
    from lsl.misc import parser as P
    FU = {'Hz': 1.0, 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}
    LU = {'m': 1.0, 'cm': 1e-2, 'mm': 1e-3, 'km': 1e3, 'Angstrom': 1e-10, 'AA': 1e-10, 'um': 1e-6}
    for k in range(m.n(n)):
        rng = m.rng(k)
        # plain numbers
        v = rng.choice([0, 1, rng.randint(0, 9), rng.randint(0, 10 ** 9)])
        for f, bound in ((P.positive_or_zero_int, 0), (P.positive_int, 1)):
            if v >= bound:
                _ok(m, f, str(v), v, 'int')
            _no(m, f, str(-v - 1), 'int-negative')
            if bound:
                _no(m, f, '0', 'int-zero')
            _no(m, f, rng.choice(['', 'x', '1.5', '1e3', '0x1f', '3 4', 'nan', str(v) + 'a']), 'int-bad')
        t, x = _num(rng)
        for f, bound in ((P.positive_or_zero_float, 0), (P.positive_float, 1)):
            _ok(m, f, t, x, 'float')
            _no(m, f, '-' + t, 'float-negative')
            z = rng.choice(['0', '0.0', '0e5'])
            (_no(m, f, z, 'float-zero') if bound else _ok(m, f, z, 0.0, 'float'))
            _no(m, f, rng.choice(['', 'x', '1.5.2', '1 2', t + 'MHz', 'nan']), 'float-bad')
        # frequencies and wavelengths
        t2, x2 = _num(rng)
        sp = rng.choice(['', ' '])

        def hz(x, u):
            return x * FU[u] if u in FU else C / (x * LU[u])

        def met(x, u):
            return x * LU[u] if u in LU else C / (x * FU[u])
        u, w = rng.choice(list(FU) + list(LU)), rng.choice(list(FU) + list(LU))
        for one, many, conv, default in ((P.frequency, P.frequency_range, hz, 'MHz'), (P.wavelength, P.wavelength_range, met, 'm')):
            _ok(m, one, t, conv(x, default), 'quantity-bare', 1e-9)
            _ok(m, one, t + sp + u, conv(x, u), 'quantity-units', 1e-9)
            _ok(m, many, t + '~' + t2, sorted([conv(x, default), conv(x2, default)]), 'range-bare', 1e-9)
            _ok(m, many, t + sp + u + '~' + t2 + sp + w, sorted([conv(x, u), conv(x2, w)]), 'range-units', 1e-9)
            _ok(m, many, t + '~' + t2 + sp + w, sorted([conv(x, w), conv(x2, w)]), 'range-shared-units', 1e-9)
            _no(m, many, t + sp + u + '~' + t2, 'range-first-units')
            _no(m, one, rng.choice([t + '~' + t2, t + u + '~' + t2 + u]), 'range-as-single')
            _no(m, many, rng.choice([t, t + u]), 'single-as-range')
            _no(m, rng.choice([one, many]), rng.choice(['', 'x', t + 'kg', t + ' s', t + '~', '~' + t, t + u + '~', t + '~' + t + '~' + t, t + 'Hzz']), 'quantity-bad')
        # dates and times
        d = datetime.date(1858, 11, 17) + datetime.timedelta(days=rng.choice([rng.randint(40000, 70000), 51544, 57204, 58849, 59214]))
        mjd = (d - datetime.date(1858, 11, 17)).days
        s = rng.choice(['-', '/'])
        text = rng.choice(['%04d%s%02d%s%02d', '%d%s%d%s%d']) % (d.year, s, d.month, s, d.day)
        for q in (text, str(mjd)):
            _ok(m, P.date, q, '%04d/%02d/%02d' % (d.year, d.month, d.day), 'date')
            _ok(m, P.mjd, q, mjd, 'mjd')
        bad = rng.choice(['', '2019/02/29', '2020-13-01', '2020/1', 'x', '2020 1 1', '20/1/1x', '%d.5' % mjd, '2020/01/01 00:00'])
        _no(m, P.date, bad, 'date-bad')
        _no(m, P.mjd, bad, 'date-bad')
        _no(m, P.date, rng.choice(['99999999', '-99999999', '20200101']), 'date-out-of-range')
        h, mi, se = rng.choice([0, 23, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0, 59, rng.randrange(60)])
        us = rng.choice([0, 999, 1, 500, rng.randrange(1000)]) * 1000
        mpm = (h * 3600 + mi * 60 + se) * 1000 + us // 1000
        out = '%d:%02d:%02d.%06d' % (h, mi, se, us)
        for q in ('%02d:%02d:%02d.%03d' % (h, mi, se, us // 1000), '%d:%d:%d.%06d' % (h, mi, se, us), str(mpm)):
            _ok(m, P.time, q, out, 'time')
            _ok(m, P.mpm, q, mpm, 'mpm')
        q = '%02d:%02d:%02d' % (h, mi, se)
        _ok(m, P.time, q, '%d:%02d:%02d.000000' % (h, mi, se), 'time')
        _ok(m, P.mpm, q, mpm - us // 1000, 'mpm')
        bad = rng.choice(['', '24:00:00', '12:60:00', '12:30', 'x', '-1', '86401000', '1:2:3:4', '12:00:00 PM', '1.5', '99999999999'])
        _no(m, P.time, bad, 'time-bad')
        _no(m, P.mpm, bad, 'time-bad')
        # angles
        sg, a, b, c = rng.choice(['', '-', '+']), rng.choice([0, rng.randrange(24)]), rng.choice([0, 59, rng.randrange(60)]), rng.choice([0.0, 59.9, round(rng.uniform(0, 59.9), 2)])
        for text, v in (('%s%d' % (sg, a), a), ('%s%d:%02d' % (sg, a, b), a + b / 60), ('%s%02d:%02d:%05.2f' % (sg, a, b, c), a + b / 60 + c / 3600), ('%s%d.25' % (sg, a), a + 0.25)):
            v = -v if sg == '-' else v
            _ok(m, P.hours, text, math.radians(15 * v), 'hours', 1e-12)
            _ok(m, P.degrees, text, math.radians(v), 'degrees', 1e-12)
        L = [('%d:%02d:%04.1f' % (rng.randrange(24), rng.randrange(60), rng.randrange(60))) for _ in range(rng.randint(1, 5))]
        V = [sum(float(x) / y for x, y in zip(q.split(':'), (1, 60, 3600))) for q in L]
        text = ','.join(L) + rng.choice(['', '', ',', ', '])
        _ok(m, P.csv_hours_list, text, [math.radians(15 * v) for v in V], 'hours-list', 1e-12)
        _ok(m, P.csv_degrees_list, text, [math.radians(v) for v in V], 'degrees-list', 1e-12)
        bad = rng.choice(['a', '1:2:x', '1:2:3z', '1;2'])
        _no(m, P.hours, bad, 'angle-bad')
        _no(m, P.degrees, bad, 'angle-bad')
        _no(m, P.csv_hours_list, text.rstrip(', ') + ',' + bad, 'angle-bad')
        _no(m, P.csv_degrees_list, bad + ',' + text, 'angle-bad')
        # lists
        items, want = [], []
        for _ in range(rng.randint(1, 6)):
            a = rng.randint(-3, 300)
            if rng.random() < 0.5:
                b = a + rng.randint(0, 6)
                items.append('%d~%d' % (a, b))
                want += range(a, b + 1)
            else:
                items.append(str(a))
                want.append(a)
        pad = rng.choice(['', ' '])
        text = (',' + pad).join(items) + rng.choice(['', ',', ' '])
        _ok(m, P.csv_int_list, text, want, 'int-list')
        _no(m, P.csv_int_list, text.rstrip(', ') + ',' + rng.choice(['x', '1.5', '1~x', '~', '1~2~3', '1-2']), 'int-list-bad')
        items, want = [], []

        def ends():
            a = rng.randint(0, 260)
            b = a + rng.choice([0, 0, 1, 3])
            return ('%d~%d' % (a, b) if b > a or rng.random() < 0.2 else str(a)), list(range(a, b + 1))
        for _ in range(rng.randint(1, 5)):
            (p, A), (q, B) = ends(), ends()
            items.append(p + '-' + q)
            want += [(i, j) for i in A for j in B]
        text = (',' + pad).join(items) + rng.choice(['', ','])
        _ok(m, P.csv_baseline_list, text, want, 'baseline-list')
        _no(m, P.csv_baseline_list, text.rstrip(',') + ',' + rng.choice(['1', 'x-1', '1-x', '1-2-3', '1~2']), 'baseline-list-bad')
        for f in (P.csv_int_list, P.csv_baseline_list):
            _ok(m, f, rng.choice(['all', '*']), 'all', 'list-all')
            _ok(m, f, rng.choice(['none', '']), 'none', 'list-none')
        items, want = [], []
        for _ in range(rng.randint(1, 4)):
            kind = rng.choice(['ip', 'ipr', 'host', 'range'])
            if kind in ('ip', 'ipr'):
                parts = [[rng.randrange(250)] for _ in range(4)]
                if kind == 'ipr':
                    for i in rng.sample(range(4), rng.choice([1, 1, 2])):
                        parts[i] = list(range(parts[i][0], parts[i][0] + rng.randint(1, 4)))
                items.append('.'.join(str(p[0]) if len(p) == 1 else '%d~%d' % (p[0], p[-1]) for p in parts))
                want += ['%d.%d.%d.%d' % (a, b, c, d_) for a in parts[0] for b in parts[1] for c in parts[2] for d_ in parts[3]]
            else:
                base = rng.choice(['node', 'lwa-ucf', 'x', 'adrv'])
                a = rng.randint(1, 12)
                if kind == 'host':
                    items.append(base + rng.choice(['', str(a), '-%da' % a]))
                    want.append(items[-1])
                else:
                    b = a + rng.randint(0, 4)
                    items.append('%s%d~%d' % (base, a, b))
                    want += ['%s%d' % (base, i) for i in range(a, b + 1)]
        text = (',' + pad).join(items) + rng.choice(['', ','])
        _ok(m, P.csv_hostname_list, text, want, 'host-list')
        _no(m, P.csv_hostname_list, text.rstrip(',') + ',' + rng.choice(['a b', 'x~', '1.2.3.4~', '~3', 'a1~b', 'h@st', '1.2.3.4~5~6']), 'host-list-bad')


CODES = {'black': 30, 'red': 31, 'green': 32, 'yellow': 33, 'blue': 34, 'magenta': 35, 'cyan': 36, 'white': 37, 'bold': 1, 'underline': 4, 'blink': 5, 'reverse': 7}
CODES.update({'bkg-' + c: v + 10 for c, v in list(CODES.items())[:8]})


def _attrs(text):
    """[(character, style codes in force)] of a text with ANSI sequences"""
    out, on = [], ()
    i = 0
    while i < len(text):
        g = re.match('\x1b\\[(\\d+)m', text[i:])
        if g:
            on = () if g[1] == '0' else on + (int(g[1]),)
            i += g.end()
        else:
            out.append((text[i], tuple(sorted(set(on)))))
            i += 1
    return out


def color(m, n):
    from lsl.common.color import colorfy, uncolorfy

    def build(rng, depth, on):
        mk, want = '', []
        for _ in range(rng.randint(1, 4)):
            if depth < 3 and rng.random() < 0.45:
                c = rng.choice(list(CODES))
                a, b = build(rng, depth + 1, on + (CODES[c],))
                mk += '{{%%%s %s}}' % (rng.choice([c, c, c.upper()]), a)
                want += b
            else:
                t = ''.join(rng.choice(string.ascii_letters + string.digits + ' .:-=|/\\%[]()\n\t') for _ in range(rng.randint(1, 8)))
                mk += t
                want += [(x, tuple(sorted(set(on)))) for x in t]
        return mk, want
    for k in range(m.n(n)):
        rng = m.rng(k)
        mk, want = build(rng, 0, ())
        with m.case({'markup': mk}):
            out = colorfy(mk)
            m.check(_attrs(out) == want, 'colored-text', lambda: 'colorfy(%r) gave %r' % (mk, out))
            plain = ''.join(c for c, _ in want)
            m.check(uncolorfy(out) == plain, 'uncolored-text', lambda: 'uncolorfy gave %r for %r' % (uncolorfy(out), plain))
            m.event('colored')
        t = rng.choice(['a {{ b', 'x{{', 'a }} b', '}}', '{ {', '{{', 'tail}} ', 'a{b}c'])
        with m.case({'stray': t}):
            m.check(uncolorfy(colorfy(t)) == t, 'stray-braces', lambda: 'gave %r' % colorfy(t))
            u = '%s {{%%red z}}' % t if '{{' not in t else '{{%%red z}} %s' % t
            m.check(uncolorfy(colorfy(u)) == u.replace('{{%%red z}}', 'z').replace('{{%red z}}', 'z') or '%%' in u, 'stray-braces', lambda: 'gave %r for %r' % (colorfy(u), u))


def bars(m, n):
    import time
    from lsl.common import progress as G
    from lsl.common.color import uncolorfy
    real = time.time, time.monotonic, time.perf_counter
    now = [1.7e9]
    time.time = time.monotonic = time.perf_counter = lambda: now[0]
    try:
        for k in range(m.n(n)):
            rng = m.rng(k)
            cls = rng.choice([G.ProgressBar, G.ProgressBarPlus, G.DownloadBar])
            mx, span = rng.choice([100, 1, 7, rng.randint(1, 10 ** 7)]), rng.choice([70, 30, rng.randint(15, 120)])
            kw = {'max': mx, 'span': span, 'print_percent': rng.random() < 0.6}
            sym = kw['sym'] = rng.choice(['=', '#', '*'])
            for q, d in (('max', 100), ('span', 70), ('print_percent', True), ('sym', '=')):
                if kw[q] == d and rng.random() < 0.7:
                    kw.pop(q)
            bar, col = cls(**kw), cls(color=rng.choice(['red', 'green', 'bold']), **kw)
            pct = kw.get('print_percent', True)
            amount, t0, t1, last = 0, None, None, -1
            for step in range(12):
                with m.case({'bar': cls.__name__, 'kw': kw, 'amount': amount, 'step': step}):
                    op = rng.choice(['inc', 'inc', 'inc', 'dec', '+=', '-=', 'add', 'sub', 'finish']) if step else 'show'
                    a = rng.choice([1, rng.randint(0, max(1, mx // 3))])
                    now[0] += rng.choice([0.0, 0.05, 1.0, rng.uniform(0, 300)])
                    if op in ('inc', '+=') and amount + a <= mx:
                        if op == 'inc':
                            (bar.inc(), col.inc()) if a == 1 else (bar.inc(a), col.inc(a))
                        else:
                            bar += a
                            col += a
                        amount += a
                    elif op in ('dec', '-='):
                        if op == 'dec':
                            (bar.dec(), col.dec()) if a == 1 else (bar.dec(a), col.dec(a))
                        else:
                            bar -= a
                            col -= a
                        amount -= a if amount >= a else 0
                    elif op == 'add' and amount + a <= mx:
                        old = bar.amount
                        new = bar + a
                        m.check(new is not bar and bar.amount == old and new.amount == old + a and type(new) is cls, 'bar-add')
                        continue
                    elif op == 'sub':
                        new = bar - a
                        m.check(new is not bar and bar.amount == amount and new.amount == (amount - a if amount >= a else amount), 'bar-sub')
                        continue
                    elif op == 'finish':
                        d = mx - amount
                        bar.inc(d)
                        col.inc(d)
                        amount = mx
                    else:
                        op = None
                    if op:
                        t0 = now[0] if t0 is None else t0
                        t1 = now[0]
                    m.check(bar.amount == amount, 'bar-amount', lambda: '%r instead of %r after %s' % (bar.amount, amount, op))
                    out = bar.show()
                    m.check(str(bar) == out, 'bar-str')
                    m.check(uncolorfy(col.show()) == out and '\x1b[' in col.show(), 'bar-color', lambda: '%r against %r' % (col.show(), out))
                    g = re.match(r'\[(.*)\](?: +([\d.]+)%)?(?: (.*))?$', out)
                    m.require(g is not None, 'bar-form', 'got %r' % out)
                    extra = {G.ProgressBar: 0, G.ProgressBarPlus: 9, G.DownloadBar: 9}[cls]
                    if cls is G.ProgressBarPlus:
                        extra = max(extra, 1 + len(g[3]))
                    m.check(abs(len(out) - span - extra) <= (1 if cls is G.DownloadBar else 0), 'bar-width', lambda: '%d characters for a span of %d: %r' % (len(out), span, out))
                    if pct:
                        m.check(g[2] is not None and abs(float(g[2]) - 100.0 * amount / mx) <= 0.0501, 'bar-percent', lambda: '%r for %d of %d' % (out, amount, mx))
                    w = len(g[1])
                    full = len(g[1]) - len(g[1].lstrip(sym))
                    m.check(abs(full - w * amount / mx) <= 1.0 + 1e-6 and re.match(r'%s*[-\\|/]? *$' % re.escape(sym), g[1]), 'bar-length', lambda: '%r for %d of %d' % (out, amount, mx))
                    if amount == mx:
                        m.check(g[1] == sym * w, 'bar-full', lambda: '%r when done' % out)
                    if cls is G.ProgressBarPlus:
                        est = g[3].strip()
                        if t0 is None or amount == 0 or amount < mx and t1 - t0 < 0.19:
                            m.check(est == '----m--s', 'bar-time', lambda: '%r too early' % out)
                        elif amount == mx or t1 - t0 > 0.21:
                            want = (t1 - t0) if amount >= mx else (mx - amount) * (t1 - t0) / amount
                            e = re.match(r'(\d+)m(\d\d)s$', est)
                            m.check(e is not None and abs(60 * int(e[1]) + int(e[2]) - want) <= 1.0 and int(e[2]) < 60, 'bar-time', lambda: '%r, %r s expected' % (out, want))
                    if cls is G.DownloadBar and t0 is not None and amount and (amount == mx or t1 - t0 > 0.011):
                        e = re.match(r'([\d.]+) *(B|kB|MB|GB)(/s)?$', g[3].strip())
                        want = amount if amount >= mx else amount / (t1 - t0)
                        m.check(e is not None and (e[3] is None) == (amount >= mx) and abs(float(e[1]) * 1024 ** ['B', 'kB', 'MB', 'GB'].index(e[2]) - want) <= 0.051 * 1024 ** ['B', 'kB', 'MB', 'GB'].index(e[2]) and (float(e[1]) < 1000 or e[2] == 'GB'),
                                'bar-rate', lambda: '%r, %r expected' % (out, want))
                    m.event('bars')
    finally:
        time.time, time.monotonic, time.perf_counter = real


def busy(m, n):
    import sys
    import threading
    import time
    from lsl.common import busy as B
    from lsl.common.color import uncolorfy
    for k in range(m.n(n)):
        rng = m.rng(k)
        plus = rng.random() < 0.5
        msg = rng.choice(['Busy', 'Working on it', 'a'])
        interval = rng.choice([0.0, 0.0001, 0.003])
        dots, width = rng.randint(1, 6), rng.randint(5, 20)
        color = rng.choice([None, None, 'red'])
        style = rng.choice(['boomerang', 'pingpong', 'flow'])
        mk = (lambda: B.BusyIndicatorPlus(msg, interval=interval, width=width, style=style, color=color)) if plus else (lambda: B.BusyIndicator(msg, interval=interval, dots=dots, color=color))
        how = rng.choice(['with', 'with-error', 'calls', 'restart', 'failed'])
        good = how in ('with', 'calls', 'restart')

        class Out(io.StringIO):
            def write(self, s):
                # a busy terminal: others run while this is written
                if rng.random() < 0.3:
                    time.sleep(0.0005)
                return io.StringIO.write(self, s)
        with m.case({'plus': plus, 'how': how, 'interval': interval, 'dots': dots, 'width': width, 'style': style, 'color': color}):
            out, old = Out(), sys.stdout
            sys.stdout = out
            before = threading.active_count()
            try:
                t = rng.choice([0.0, 0.002, 0.02])
                bi = mk()
                if how == 'with':
                    with bi:
                        time.sleep(t)
                elif how == 'with-error':
                    try:
                        with bi:
                            time.sleep(t)
                            raise KeyError('x')
                    except KeyError:
                        pass
                    else:
                        m.violation('busy-error-lost', 'an exception did not leave the with block')
                elif how == 'restart':
                    bi.start()
                    time.sleep(t)
                    bi.start()
                    time.sleep(t)
                    bi.stop()
                else:
                    bi.start()
                    time.sleep(t)
                    bi.stop(**({} if good else {'success': False}))
                end = out.getvalue()
                bi.stop()
                time.sleep(0.002)
                late = out.getvalue()
            finally:
                sys.stdout = old
            m.check(late == end, 'busy-after-stop', lambda: 'printed %r after it was stopped' % late[len(end):])
            m.check(threading.active_count() == before, 'busy-thread', lambda: 'the thread is still there')
            txt = uncolorfy(end)
            runs = txt.split('\n')
            m.check(len(runs) == (3 if how == 'restart' else 2) and runs[-1] == '', 'busy-lines', lambda: 'printed %r' % txt[-200:])
            for i, run in enumerate(runs[:-1]):
                frames = run.split('\r')
                word = 'Done' if good else 'Failed'
                m.check(frames[-1].startswith(msg) and frames[-1].rstrip().endswith(word), 'busy-final', lambda: 'last frame %r' % frames[-1])
                want = len(msg) + (width + 6 if plus else dots)
                m.check(all(len(f) == want and f.startswith(msg) for f in frames[:-1]), 'busy-frame', lambda: 'frames %r' % [f for f in frames[:-1] if len(f) != want][:3])
                if not plus:
                    m.check([f[len(msg):].count('.') for f in frames[:-1]] == [j % (dots + 1) for j in range(len(frames) - 1)], 'busy-dots', lambda: 'frames %r' % frames[:8])
            m.event('busy')


def log(m, n):
    import logging
    import threading
    import warnings
    from lsl import logger as L
    old = list(L.LSL_LOGGER.handlers)
    for h in old:
        L.LSL_LOGGER.removeHandler(h)

    class Sink(logging.Handler):
        def __init__(self):
            logging.Handler.__init__(self)
            self.got = []

        def emit(self, r):
            self.got.append(self.format(r))

    def same(a, b):
        # the threads of a burst may reach each sink in another order
        x, y = [[q for q in v if 'xxx' not in str(q)] for v in (a, b)], [sorted(str(q) for q in v if 'xxx' in str(q)) for v in (a, b)]
        return x[0] == x[1] and y[0] == y[1]

    def lines(text):
        return [re.sub(r'^\d{4}-\d\d-\d\d \d\d:\d\d:\d\d ', '', q) for q in text.split('\n') if q]
    LEV = {'DEBUG': 10, 'INFO': 20, 'NOTE': 25, 'WARNING': 30, 'ERROR': 40, 'CRITICAL': 50}
    try:
        for k in range(m.n(n)):
            rng = m.rng(k)
            d = os.path.join(m.scratch, 'log%d' % k)
            os.mkdir(d)
            level, con, fil, filters, sinks, files, streams, queued, capture = 20, None, None, set(), {}, {}, [], [], False
            L.set_log_level(20)
            L.LSL_LOG_QUEUE.queue.clear()
            th = None
            hist = []

            def deliver(lev, text, always=False):
                if lev < level and not always:
                    return
                if not all(f != 'other.*' for f in filters):
                    return
                name = {v: q for q, v in LEV.items()}[lev]
                line = '[%-8s] %s' % (name, text)
                for s in ([con] if con else []) + ([fil] if fil else []):
                    if lev >= s['level']:
                        s['want'].append(line)
                for s, w in sinks.values():
                    w.append(line)
                if th is not None:
                    queued.append((lev, text))
            with m.case({'history': hist, 'k': k}):
                try:
                    for step in range(30):
                        op = rng.choice(['msg', 'msg', 'msg', 'msg', 'note', 'level', 'con', 'con-', 'file', 'file-', 'sink', 'sink-', 'filter', 'unfilter', 'clear', 'threaded', 'threaded-', 'warn', 'burst'])
                        hist.append(op)
                        text = 'message %d of %d' % (step, k)
                        if op == 'msg':
                            name = rng.choice([q for q in LEV if q != 'NOTE'])
                            getattr(L.LSL_LOGGER, name.lower())(text)
                            deliver(LEV[name], text)
                            m.event('log_messages')
                        elif op == 'note':
                            L.make_note('message %d of %d', step, k)
                            deliver(25, text)
                            m.event('log_messages')
                        elif op == 'level':
                            level = rng.choice(list(LEV.values()))
                            L.set_log_level(level)
                            m.check(L.get_log_level() == level, 'log-level')
                        elif op == 'con':
                            st = io.StringIO()
                            lv = rng.choice([None, 30, 10])
                            L.enable_console_logging(stream=st, **({} if lv is None else {'level': lv}))
                            con = {'level': lv or 0, 'want': [], 'stream': st}
                            streams.append(con)
                        elif op == 'con-':
                            L.disable_console_logging()
                            con = None
                        elif op == 'file':
                            fn = os.path.join(d, rng.choice(['a.log', 'b.log']))
                            lv, mode = rng.choice([None, 40, 10]), rng.choice(['a', 'a', 'w'])
                            with warnings.catch_warnings():
                                warnings.simplefilter('ignore')
                                L.enable_file_logging(fn, **dict({} if lv is None else {'level': lv}, **({} if mode == 'a' and rng.random() < 0.7 else {'mode': mode})))
                            if mode == 'w' or fn not in files:
                                files[fn] = []
                            fil = {'level': lv or 0, 'want': files[fn]}
                        elif op == 'file-':
                            L.disable_file_logging()
                            fil = None
                        elif op == 'sink':
                            s = Sink()
                            L.add_handler(s)
                            sinks[len(hist)] = (s, [])
                        elif op == 'sink-' and sinks:
                            q = rng.choice(list(sinks))
                            s, w = sinks.pop(q)
                            L.remove_handler(s)
                            m.check(same(lines('\n'.join(s.got)), w), 'log-handler', lambda: 'got %r, expected %r' % (s.got[-4:], w[-4:]))
                        elif op == 'filter':
                            p = rng.choice(['lsl*', 'lsl_logger', 'other.*', 'lsl_logge?'])
                            L.add_filter(p)
                            filters.add(p)
                        elif op == 'unfilter':
                            p = rng.choice(['lsl*', 'lsl_logger', 'other.*', 'lsl_logge?'])
                            L.remove_filter(p)
                            filters.discard(p)
                        elif op == 'clear':
                            L.clear_filters()
                            filters.clear()
                        elif op == 'threaded' and th is None:
                            th = L.ThreadedHandler()
                            L.add_handler(th)
                        elif op == 'threaded-' and th is not None:
                            L.remove_handler(th)
                            th = None
                        elif op == 'warn' and not filters and level <= 30:
                            L.capture_warnings(True)
                            try:
                                with warnings.catch_warnings():
                                    warnings.simplefilter('always')
                                    n0 = {q: len(w) for q, (s, w) in sinks.items()}
                                    s = Sink()
                                    L.add_handler(s)
                                    warnings.warn('\x1b[31mwarning %d\x1b[0m' % step)
                                    L.remove_handler(s)
                            finally:
                                L.capture_warnings(False)
                            m.check(len(s.got) == 1 and 'warning %d' % step in s.got[0] and '\x1b' not in s.got[0] and '[WARNING ' in s.got[0], 'log-warning', lambda: 'got %r' % s.got)
                            break
                        elif op == 'burst':
                            # from several threads: every message once, whole, in order for each thread
                            def work(t):
                                for q in range(20):
                                    L.LSL_LOGGER.critical('t%d q%02d %s', t, q, 'x' * 200)
                            s = Sink()
                            L.add_handler(s)
                            T = [threading.Thread(target=work, args=(t,)) for t in range(4)]
                            [t.start() for t in T]
                            [t.join() for t in T]
                            L.remove_handler(s)
                            blocked = 'other.*' in filters
                            got = lines('\n'.join(s.got))
                            per = {t: [int(g[2]) for g in (re.match(r'\[CRITICAL\] t(\d) q(\d\d) x{200}$', q) for q in got) if g and int(g[1]) == t] for t in range(4)}
                            m.check(len(got) == (0 if blocked else 80) and (blocked or all(per[t] == list(range(20)) for t in range(4))), 'log-threads', lambda: '%d lines, %r' % (len(got), per))
                            for q in got:
                                deliver(50, q[len('[CRITICAL] '):])
                            m.event('log_messages', 80)
                    else:
                        for s, w in sinks.values():
                            m.check(same(lines('\n'.join(s.got)), w), 'log-handler', lambda: 'got %r, expected %r' % (s.got[-4:], w[-4:]))
                        for c in streams:
                            m.check(same(lines(c['stream'].getvalue()), c['want']), 'log-console', lambda: 'got %r, expected %r' % (lines(c['stream'].getvalue())[-4:], c['want'][-4:]))
                        q = [(r.levelno, r.getMessage()) for r in list(L.LSL_LOG_QUEUE.queue)]
                        m.check(same(q, queued), 'log-queue', lambda: 'got %r, expected %r' % (q[-4:], queued[-4:]))
                        L.disable_file_logging()
                        for fn, w in files.items():
                            got = lines(open(fn).read())
                            m.check(same(got, w), 'log-file', lambda: 'got %d lines, expected %d: %r, %r' % (len(got), len(w), got[-3:], w[-3:]))
                finally:
                    L.disable_console_logging()
                    L.disable_file_logging()
                    L.clear_filters()
                    for s, w in sinks.values():
                        L.remove_handler(s)
                    if th is not None:
                        L.remove_handler(th)
    finally:
        for h in old:
            L.LSL_LOGGER.addHandler(h)
        L.set_log_level(20)


def alone(m):
    """Every module in an interpreter of its own"""
    import subprocess
    import sys
    from concurrent.futures import ThreadPoolExecutor
    import lsl
    root = os.path.dirname(os.path.abspath(lsl.__file__))
    mods = []
    for d, dirs, fs in os.walk(root):
        dirs[:] = [q for q in dirs if q not in ('__pycache__', 'data')]
        for f in fs:
            if f.endswith('.py') and f not in ('__main__.py', 'logger_gui.py', '_telemetry_send.py') and (f == '__init__.py' or os.path.exists(os.path.join(d, '__init__.py'))):
                q = os.path.relpath(os.path.join(d, f), os.path.dirname(root))[:-3].replace(os.sep, '.')
                mods.append(q[:-9] if q.endswith('.__init__') else q)
    code = ('import sys, importlib\nq = importlib.import_module(%r)\nbad = [x for x in getattr(q, "__all__", []) if not hasattr(q, x)]\n'
            'print("RESULT", len(getattr(q, "__all__", [])), bad)\n')

    def run(q):
        e = dict(os.environ, PYTHONPATH=os.path.dirname(root), PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-W', 'ignore', '-c', code % q], capture_output=True, text=True, env=e, cwd=m.scratch, timeout=300)
        return q, r
    with ThreadPoolExecutor(6) as ex:
        res = list(ex.map(run, sorted(mods)))
    for q, r in res:
        with m.case({'module': q}):
            m.check(r.returncode == 0, 'import-alone', lambda: 'import %s: %s' % (q, r.stderr.strip().split('\n')[-1]))
            g = re.search(r'RESULT (\d+) (.*)', r.stdout)
            if g:
                # names of submodules in the __all__ of a package are loaded on demand by 'from x import *'
                bad = [x for x in re.findall(r"'(\w+)'", g[2]) if q + '.' + x not in mods]
                m.check(not bad, 'exported-name-missing', lambda: '%s exports %r' % (q, bad))
                m.event('exported', int(g[1]))
            m.event('modules')


JOBS = {'parser': (parser, 'plain', 20), 'color': (color, 'plain', 80), 'bars': (bars, 'plain', 40), 'busy': (busy, 'plain', 12), 'log': (log, 'plain', 25), 'alone': (alone, 'plain')}
