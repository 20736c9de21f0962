"""The monitor object a workload reports to: cases, events, violations, breadcrumbs."""
import contextlib, hashlib, json, os, random, sys, time, traceback
import numpy as np
from vf.common import REPO, VERIF


class HarnessError(Exception):
    """The check itself is broken (never reported as a violation)."""


def _short(o, n=400):
    s = o if isinstance(o, str) else repr(o)
    return s if len(s) <= n else s[:n] + '...'


def omit(rng, kw, **defaults):
    """kw, half of the time without the arguments that have their documented default value"""
    return {k: v for k, v in kw.items() if not (k in defaults and type(v) is type(defaults[k]) and v == defaults[k] and rng.random() < 0.5)}


class Mon:
    def __init__(self, prop, job, seed, tier, scratch, only=None):
        self.prop, self.job, self.seed, self.tier, self.scratch = prop, job, seed, tier, scratch
        self.only = only                      # replay: run just this case key
        self.evaluations = 0
        self.keys = set()
        self.events = {}
        self.samples = []
        self.violations = {}
        self.harness_errors = []
        self.cur = None
        self.crumb = open(os.path.join(scratch, 'crumb'), 'w')
        self.t0 = time.time()
        self.budget = None
        self.scale = 1                        # OPTS['scale'] of the check

    # -- randomness: every case draws from its own generator, keyed by (seed, job, case) --------------
    def rng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.prop, self.job) + key).encode()).digest()
        return random.Random(int.from_bytes(h[:16], 'big'))

    def nprng(self, *key):
        h = hashlib.sha256(repr((self.seed, self.prop, self.job) + key).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:16], 'big'))

    def n(self, quick, thorough=None):
        return self.scale * (quick if self.tier == 'quick' else (thorough if thorough is not None else 10 * quick))

    # -- what was observed ----------------------------------------------------------------------------
    def event(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def nontrivial(self, key):
        self.keys.add(hashlib.sha1(repr(key).encode()).hexdigest()[:16])

    def over(self):
        return self.budget is not None and time.time() - self.t0 > self.budget

    @contextlib.contextmanager
    def case(self, desc, nontrivial=True, crash='unexpected-exception'):
        """One execution under observation.  An exception that escapes from the code under test is a violation, and so is
        one of the oracle stumbling over what the code returned (a missing key, a wrong type or length); errors of the
        environment and of the harness' own machinery are not."""
        self.cur = desc
        self.evaluations += 1
        if nontrivial:
            self.nontrivial(desc)
        if len(self.samples) < 6 and (self.evaluations in (1, 7, 31, 101, 307, 997)):
            self.samples.append(_short(desc, 600))
        self.crumb.seek(0)
        self.crumb.truncate()
        self.crumb.write(json.dumps({'t': time.time(), 'case': _short(desc, 2000)}))
        self.crumb.flush()
        try:
            yield self
        except (_Skip, _Abandon):
            pass
        except HarnessError:
            self.harness_errors.append(traceback.format_exc()[-2000:])
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            frames = [f for f in tb if f.filename.startswith(REPO + '/')]
            txt = traceback.format_exc()[-2500:]
            if frames:
                f = frames[-1]
                self.violation('%s:%s:%s' % (crash, type(e).__name__, f.name),
                               'unexpected %s: %s' % (type(e).__name__, _short(str(e))), trace=txt)
            elif getattr(e, 'vf_native', False):
                self.violation('%s:%s' % (crash, type(e).__name__), _short(str(e)), trace=txt)
            elif isinstance(e, (KeyError, IndexError, TypeError, ValueError, AttributeError, ArithmeticError, AssertionError)):
                self.violation('unusable-result:%s' % type(e).__name__, 'what the code returned cannot be judged: %s: %s' % (type(e).__name__, _short(str(e))), trace=txt)
            else:
                self.harness_errors.append('case %s\n%s' % (_short(desc), txt))
        finally:
            self.cur = None

    # -- verdicts -------------------------------------------------------------------------------------
    def violation(self, mech, msg, **detail):
        v = self.violations.get(mech)
        if v is None:
            self.violations[mech] = {'mechanism': mech, 'message': _short(msg, 1500), 'count': 1, 'job': self.job,
                                     'case': _short(self.cur, 3000) if self.cur is not None else None,
                                     'detail': {k: _short(x, 2500) for k, x in detail.items()}}
        else:
            v['count'] += 1

    def check(self, cond, mech, msg='', **detail):
        self.event('assertions')
        if not cond:
            self.violation(mech, msg() if callable(msg) else (msg or mech), **detail)
        return bool(cond)

    def require(self, cond, mech, msg='', **detail):
        if not self.check(cond, mech, msg, **detail):
            raise _Abandon()

    def equal(self, got, want, mech, **detail):
        self.event('assertions')
        ok = got == want
        if isinstance(ok, np.ndarray):
            ok = bool(ok.all()) and np.shape(got) == np.shape(want)
        if not ok:
            self.violation(mech, 'got %s, expected %s' % (_short(got), _short(want)), **detail)
        return bool(ok)

    def array_equal(self, got, want, mech, **detail):
        self.event('assertions')
        self.event('values_compared', np.size(want))
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.violation(mech, 'shape %s, expected %s' % (got.shape, want.shape), **detail)
            return False
        bad = ~((got == want) | ((got != got) & (want != want)))
        if bad.any():
            i = np.argwhere(bad)[0]
            self.violation(mech, '%d of %d values differ; first at %s: got %r, expected %r'
                           % (bad.sum(), bad.size, tuple(int(x) for x in i), got[tuple(i)], want[tuple(i)]), **detail)
            return False
        return True

    def close(self, got, want, mech, rtol=1e-6, atol=0.0, scale=None, **detail):
        """|got-want| <= atol + rtol*scale, scale defaulting to max|want| (a normwise bound)."""
        self.event('assertions')
        self.event('values_compared', np.size(want))
        got, want = np.asarray(got), np.asarray(want)
        if got.shape != want.shape:
            self.violation(mech, 'shape %s, expected %s' % (got.shape, want.shape), **detail)
            return False
        if want.size == 0:
            return True
        gn, wn = ~np.isfinite(got), ~np.isfinite(want)
        if (gn != wn).any():
            i = tuple(int(x) for x in np.argwhere(gn != wn)[0])
            self.violation(mech, 'finite/non-finite disagree at %s: got %r, expected %r' % (i, got[i], want[i]), **detail)
            return False
        g, w = got[~gn], want[~wn]
        if w.size == 0:
            return True
        if scale is None:
            scale = np.abs(w).max()
        elif np.shape(scale):
            scale = np.broadcast_to(scale, want.shape)[~wn]
        err = np.abs(g - w)
        tol = atol + rtol * scale
        if (err > tol).any():
            j = int(np.argmax(err - tol))
            self.violation(mech, 'error %g > tolerance %g (got %r, expected %r; %d of %d values out)'
                           % (err[j], np.broadcast_to(tol, err.shape)[j], g[j], w[j], (err > tol).sum(), err.size), **detail)
            return False
        return True

    def raises(self, exc, fn, mech, msg='', **detail):
        """fn() must raise one of exc."""
        self.event('assertions')
        try:
            r = fn()
        except exc as e:
            self.event('expected_exceptions')
            return e
        except Exception as e:
            self.violation(mech, '%s: raised %s(%s) instead of %s' % (msg, type(e).__name__, _short(str(e)), exc), **detail)
            return None
        self.violation(mech, '%s: returned %s instead of raising %s' % (msg, _short(r), exc), **detail)
        return None

    def result(self):
        return {'job': self.job, 'evaluations': self.evaluations, 'keys': sorted(self.keys), 'events': self.events,
                'samples': self.samples, 'violations': list(self.violations.values()),
                'harness_errors': self.harness_errors, 'wall_s': time.time() - self.t0}


class _Skip(Exception):
    pass


class _Abandon(Exception):
    pass
