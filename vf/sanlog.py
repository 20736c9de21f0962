"""Splits sanitizer logs into reports and keeps those whose stack is in the code under test."""
import re
from vf.common import REPO

_FRAME = re.compile(r'^\s+#(\d+)\s+(?:0x[0-9a-f]+\s+)?(?:in\s+)?(.*)$')


def _blocks(text):
    cur = []
    for line in text.splitlines():
        if re.search(r'runtime error:|ERROR: AddressSanitizer|WARNING: ThreadSanitizer|ERROR: ThreadSanitizer|DEADLYSIGNAL', line) and cur:
            yield cur
            cur = []
        cur.append(line)
    if cur:
        yield cur


def _ours(frame):
    return ('lsl/' in frame and ('.cpp' in frame or '.hpp' in frame or '.so' in frame)) or ('/.build/' in frame and 'minigomp' not in frame)


def parse_logs(paths):
    reports, ignored = [], 0
    for p in paths:
        text = open(p, errors='replace').read()
        for b in _blocks(text):
            head = b[0]
            if not re.search(r'runtime error:|AddressSanitizer|ThreadSanitizer', head):
                continue
            frames = []
            for line in b:
                m = _FRAME.match(line)
                if m:
                    frames.append(m.group(2))
            mine = [f for f in frames if _ours(f)]
            if 'runtime error:' in head:
                loc, _, what = head.partition(' runtime error: ')
                if 'lsl/' not in loc and not mine:
                    ignored += 1
                    continue
                fn = _fn(mine[0]) if mine else loc
                reports.append({'mechanism': 'ubsan:%s:%s' % (_kind(what), fn), 'title': head[:400],
                                'text': '\n'.join(b)[:3000]})
                continue
            if not mine:
                ignored += 1
                continue
            m = re.search(r'(?:AddressSanitizer|ThreadSanitizer): ([\w\- ]+)', head)
            kind = (m.group(1).strip() if m else 'report').split(' on ')[0].split(' (')[0].strip().replace(' ', '-')
            reports.append({'mechanism': '%s:%s:%s' % ('asan' if 'Address' in head else 'tsan', kind, _fn(mine[0])),
                            'title': head[:400], 'text': '\n'.join(b)[:4000]})
    return reports, ignored


def _kind(what):
    return re.sub(r'-?\d[\d.e+\-xa-f]*', 'N', what).strip()[:60].replace(' ', '-')


def _fn(frame):
    f = frame.split(' /')[0].split(' (')[0]
    f = re.sub(r'<.*', '', f)
    f = f.split('(')[0].strip()
    return f.split(' ')[-1] if f else '?'
