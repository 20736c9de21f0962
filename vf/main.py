"""Driver: python -m vf.main PROPERTY [--job NAME]

Builds the variants a check needs from /repo's working tree, runs its jobs in worker processes (so that a crash of
native code is an observation and not the end of the check), folds the monitors' reports together, writes the evidence
file and decides.
"""
import concurrent.futures as cf, glob, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vf import common
from vf.sanlog import parse_logs


def load_known(prop):
    out = []
    p = os.path.join(common.VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('{'):
                k = json.loads(line)
                if k['property'] == prop and k.get('status') == 'open':
                    out.append(k)
    return out


def run_job(prop, job, spec, libdirs, seed, tier, root, opts):
    variant = spec[1]
    scratch = os.path.join(root, job)
    os.makedirs(scratch)
    env = common.worker_env(variant, scratch, threads=opts.get('threads', 2))
    limit = opts.get('timeout', 700 if tier == 'quick' else 6000)
    budget = opts.get('budget', 300 if tier == 'quick' else 2400)
    stall = opts.get('stall', 240)
    out = open(os.path.join(scratch, 'out'), 'wb')
    t0 = time.time()
    p = subprocess.Popen([common.PY, '-W', 'ignore', '-m', 'vf.worker', prop, job, libdirs[variant], str(seed), tier,
                          str(budget)],
                         cwd=scratch, env=env, stdout=out, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                         start_new_session=True)
    hang = None
    crumb = os.path.join(scratch, 'crumb')
    while True:
        try:
            p.wait(2)
            break
        except subprocess.TimeoutExpired:
            pass
        now = time.time()
        try:
            c = json.load(open(crumb))
        except Exception:
            c = None
        if c and now - c['t'] > stall:
            hang = c
        if hang or now - t0 > limit:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            break
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass
    out.close()
    tail = open(os.path.join(scratch, 'out'), errors='replace').read()[-3000:]
    res, errors = None, []
    try:
        res = json.load(open(os.path.join(scratch, 'result.json')))
    except Exception:
        pass
    if res is None:
        res = {'job': job, 'evaluations': 0, 'keys': [], 'events': {}, 'samples': [], 'violations': [],
               'harness_errors': [], 'wall_s': time.time() - t0, 'fatal': None}
        try:
            c = json.load(open(crumb))
        except Exception:
            c = None
        sanlogs = glob.glob(os.path.join(scratch, 'san.*'))
        if hang:
            res['violations'].append({'mechanism': 'hang', 'message': 'one case ran for more than %d s' % stall,
                                      'count': 1, 'job': job, 'case': hang['case'], 'detail': {'out': tail}})
        elif p.returncode < 0 and p.returncode not in (-signal.SIGKILL, -signal.SIGTERM) and c is not None:
            res['violations'].append({'mechanism': 'crash:signal%d' % -p.returncode,
                                      'message': 'the interpreter died with signal %d' % -p.returncode,
                                      'count': 1, 'job': job, 'case': c['case'], 'detail': {'out': tail}})
        elif sanlogs and p.returncode == 77:
            pass                              # the sanitizer report below says why
        else:
            errors.append('job %s gave no result (rc=%s)\n%s' % (job, p.returncode, tail))
    if res.get('fatal'):
        errors.append('job %s: %s' % (job, res['fatal']))
    errors += res['harness_errors']
    reports, ignored = parse_logs(glob.glob(os.path.join(scratch, 'san.*')))
    if variant != 'plain':
        res['events']['sanitizer_reports_in_code_under_test'] = len(reports)
        res['events']['sanitizer_reports_outside_ignored'] = ignored
    try:
        c = json.load(open(crumb))['case']
    except Exception:
        c = None
    for r in reports:
        for v in res['violations']:
            if v['mechanism'] == r['mechanism']:
                v['count'] += 1
                break
        else:
            res['violations'].append({'mechanism': r['mechanism'], 'message': r['title'], 'count': 1, 'job': job,
                                      'case': c, 'detail': {'report': r['text']}})
    if os.environ.get('VF_KEEP'):
        shutil.copytree(scratch, os.path.join(os.environ['VF_KEEP'], job), dirs_exist_ok=True)
    shutil.rmtree(scratch, ignore_errors=True)
    return res, errors


def main():
    prop = sys.argv[1]
    only = sys.argv[sys.argv.index('--job') + 1] if '--job' in sys.argv else None
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick') or 'quick'
    t0 = time.time()
    jobs = None
    mod = json.loads(subprocess.run(
        [common.PY, '-c', 'import json, vf.checks.%s as m; print(json.dumps({"jobs": {k: [None, v[1]] for k, v in '
         'm.JOBS.items()}, "rule": m.RULE, "assumptions": getattr(m, "ASSUMPTIONS", []), '
         '"opts": getattr(m, "OPTS", {}), "need": getattr(m, "NEED", {})}))' % prop.lower()],
        cwd=common.VERIF, env=dict(os.environ, PYTHONPATH=common.VERIF, PYTHONDONTWRITEBYTECODE='1'),
        stdout=subprocess.PIPE, check=True, text=True).stdout)
    jobs = mod['jobs']
    if only:
        jobs = {k: v for k, v in jobs.items() if re.fullmatch(only, k)}
    try:
        libdirs = {v: common.build(v) for v in sorted(set(s[1] for s in jobs.values()))}
        if 'tsan' in libdirs:
            common.build_minigomp()
    except common.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    t_build = time.time() - t0
    root = tempfile.mkdtemp(prefix='vf-%s-' % prop)
    results, errors = [], []
    try:
        with cf.ThreadPoolExecutor(mod['opts'].get('parallel', 8)) as ex:
            futs = [ex.submit(run_job, prop, j, s, libdirs, seed, tier, root, dict(mod['opts'])) for j, s in jobs.items()]
            for f in futs:
                r, e = f.result()
                results.append(r)
                errors += e
    finally:
        shutil.rmtree(root, ignore_errors=True)

    keys, events, samples, viol = set(), {}, [], {}
    evaluations = 0
    for r in results:
        evaluations += r['evaluations']
        keys.update((r['job'], k) for k in r['keys'])
        for k, n in r['events'].items():
            events[k] = events.get(k, 0) + n
        samples += [{'job': r['job'], 'case': s} for s in r['samples'][:3]]
        for v in r['violations']:
            if v['mechanism'] in viol:
                viol[v['mechanism']]['count'] += v['count']
            else:
                viol[v['mechanism']] = v
    known = load_known(prop)
    new, hit = [], {}
    for m, v in sorted(viol.items()):
        for k in known:
            if re.fullmatch(k['mechanism'], m) and re.search(k.get('case', ''), str(v['case']) or ''):
                hit[k['mechanism']] = k
                break
        else:
            new.append(v)
    for k in known:
        if k['mechanism'] in hit:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    # a monitor that never saw anything decides nothing
    for name, least in mod['need'].items():
        if not only and events.get(name, 0) < least:
            errors.append('monitor %s saw %d events, fewer than %d' % (name, events.get(name, 0), least))
    wall = time.time() - t0
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': evaluations, 'distinct_nontrivial': len(keys), 'rule': mod['rule'],
                       'samples': samples[:24], 'monitor_events': events,
                       'jobs': {r['job']: {'evaluations': r['evaluations'], 'distinct': len(r['keys']),
                                           'wall_s': round(r['wall_s'], 2), 'variant': jobs[r['job']][1]}
                                for r in results},
                       'native_build_s': round(t_build, 2),
                       'known_findings_seen': sorted(hit)},
          'assumptions': mod['assumptions'], 'wall_s': round(wall, 2), 'violations': len(new)}
    if not only:
        os.makedirs(os.path.join(common.VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(common.VERIF, 'evidence', prop + '.json'), 'w') as fh:
            json.dump(ev, fh, indent=1)
    print('%s seed=%d tier=%s evaluations=%d distinct=%d wall=%.1fs' % (prop, seed, tier, evaluations, len(keys), wall))
    print('  events: ' + ', '.join('%s=%d' % kv for kv in sorted(events.items())))
    if new:
        os.makedirs(os.path.join(common.VERIF, 'replay'), exist_ok=True)
        path = os.path.join('replay', '%s-%s-%d.json' % (prop, tier, seed))
        with open(os.path.join(common.VERIF, path), 'w') as fh:
            json.dump({'property': prop, 'seed': seed, 'tier': tier,
                       'how': 'VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s --job %s' % (seed, tier, prop, new[0]['job']),
                       'violations': new}, fh, indent=1)
        for v in new[:12]:
            print('  [%s] x%d job=%s case=%s\n      %s' % (v['mechanism'], v['count'], v['job'], str(v['case'])[:300],
                                                         v['message'][:600]))
            if os.environ.get('VF_DEBUG'):
                print(json.dumps(v['detail'], indent=1)[:4000].replace('\\n', '\n'))
        print('VIOLATION property=%s replay=%s' % (prop, path))
        return 1
    if errors:
        for e in errors[:8]:
            print('ERROR: ' + e)
        return 2
    return 0


if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
