#!/usr/bin/env python3
"""mkseed.py FILE: FILE (Python) calls seed(id, prop, edits, demo, needs, breaks); writes seeded/<id>/."""
import json, os, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0: the property holds; run in the repository's root after its build
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir -p "$T/home/.lsl" "$T/xdg/astropy" "$T/tmp"
printf '[utils.iers.iers]\\nauto_download = False\\nauto_max_age = inf\\n\\n[utils.data]\\nallow_internet = False\\nremote_timeout = 0.5\\n' > "$T/xdg/astropy/astropy.cfg"
export HOME="$T/home" LSLCONFIGDIR="$T/home/.lsl" XDG_CONFIG_HOME="$T/xdg" TMPDIR="$T/tmp" MPLBACKEND=Agg PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 LANG=C.UTF-8 TZ=UTC
D=$(cd "$(dirname "$0")" && pwd)
cd "$T/tmp" && /opt/venv/bin/python -W ignore "$D/demo.py"
'''


def seed(id, prop, edits, demo, needs, breaks):
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    patch = ''
    for path, old, new in edits:
        src = open(os.path.join('/repo', path)).read()
        assert src.count(old) == 1, (id, path, src.count(old))
        with tempfile.TemporaryDirectory() as t:
            for sub, txt in (('a', src), ('b', src.replace(old, new))):
                p = os.path.join(t, sub, path)
                os.makedirs(os.path.dirname(p))
                open(p, 'w').write(txt)
            r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + path, 'b/' + path], cwd=t, stdout=subprocess.PIPE, text=True)
            patch += r.stdout
    open(os.path.join(d, 'patch.diff'), 'w').write(patch)
    subprocess.run(['git', '-C', '/repo', 'apply', '--check', os.path.join(d, 'patch.diff')], check=True)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO)
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.py'), 'w').write(demo.lstrip('\n'))
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', id)


exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'))
