"""Runs one job of one check in this process: python -m vf.worker CHECK JOB LIBDIR SEED TIER BUDGET"""
import importlib, json, os, sys, traceback


def main():
    prop, job, libdir, seed, tier, budget = sys.argv[1:7]
    scratch = os.environ['VF_SCRATCH']
    from vf import boot
    boot.install(libdir)
    os.chdir(scratch)
    from vf.mon import Mon
    mod = importlib.import_module('vf.checks.' + prop.lower())
    m = Mon(prop, job, int(seed), tier, scratch)
    m.budget = float(budget) or None
    m.scale = getattr(mod, 'OPTS', {}).get('scale', 1)
    fn, args = mod.JOBS[job][0], mod.JOBS[job][2:]
    fatal = None
    try:
        fn(m, *args)
    except Exception as e:
        from vf.mon import _Abandon, _Skip
        if not isinstance(e, (_Abandon, _Skip)):
            from vf.common import REPO
            frames = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + '/lsl/')]
            if frames:
                # what the workload relies on, outside of any case, broke in the code under test
                m.violation('unexpected-exception:%s:%s' % (type(e).__name__, frames[-1].name), 'unexpected %s in the preparation of a case: %s' % (type(e).__name__, e), trace=traceback.format_exc()[-2500:])
            else:
                fatal = traceback.format_exc()
    r = m.result()
    r['fatal'] = fatal
    tmp = os.path.join(scratch, 'result.tmp')
    with open(tmp, 'w') as fh:
        json.dump(r, fh)
    os.replace(tmp, os.path.join(scratch, 'result.json'))
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
