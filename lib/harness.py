"""Common frame of all checks: collects what was explored, decides the exit status, writes the
evidence file and the replay file."""
import contextlib
import importlib
import io
import json
import os
import random
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'drivers'))

import pybbn   # noqa
import tlc     # noqa

REPO = pybbn.REPO


class Violation(Exception):
    pass


class Context(object):
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == 'thorough'
        self.rng = random.Random(seed)
        self.states = self.transitions = self.traces = 0
        self.parts, self.samples, self.failures, self.assumptions = {}, [], [], []
        self.known = load_known(prop)
        self.known_hit = {}
        self.scratch = None

    # -- specification side
    def tlc(self, module, **kw):
        r = tlc.run(module, **kw)
        self.note_tlc(module, r)
        return r

    def validate(self, module, traces, **kw):
        r = tlc.validate(module, traces, **kw)
        self.note_tlc(module, r)
        return r

    def note_tlc(self, module, r):
        self.states += r.distinct
        self.transitions += r.states
        p = self.parts.setdefault(module, {'runs': 0, 'distinct_states': 0, 'emitted': 0})
        p['runs'] += 1
        p['distinct_states'] += r.distinct
        p['emitted'] += len(r.emitted)

    # -- implementation side
    def count(self, n=1, part=None):
        self.traces += n
        if part:
            d = self.parts.setdefault('replayed:' + part, {'cases': 0})
            d['cases'] += n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def fail(self, clause, key=None, **detail):
        """ A behaviour of the real code the specification does not allow. `key` identifies the
            failing input for the known-findings file. """
        for k in self.known:
            if k['clause'] == clause and (k.get('key') is None or k.get('key') == key):
                self.known_hit.setdefault(k['text'], 0)
                self.known_hit[k['text']] += 1
                return
        self.failures.append(plain(dict(clause=clause, key=key, **detail)))
        if len(self.failures) >= 25:
            raise Violation('enough')

    def expect(self, cond, clause, key=None, **detail):
        if not cond:
            self.fail(clause, key=key, **detail)
        return bool(cond)

    @contextlib.contextmanager
    def guard(self, clause, key=None, **detail):
        """ Code under test running inside may not raise: an exception that passes through /repo's
            code is a violation of `clause`. """
        try:
            yield
        except (Violation, KeyboardInterrupt):
            raise
        except BaseException as e:     # noqa: SystemExit of the code under test included
            if not from_repo(e):
                # inside a guard the driver only unpacks what the code under test returned: a result of
                # the wrong shape is a wrong result (a missing name is a failure of the machinery)
                if not isinstance(e, (TypeError, ValueError, IndexError, KeyError, RuntimeError)):
                    raise
                self.fail(clause + '/result of the wrong shape', key=key, error='%s: %s' % (type(e).__name__, e), **detail)
                return
            self.fail(clause + '/raises', key=key, error='%s: %s' % (type(e).__name__, e),
                      where=repo_frames(e), **detail)

    def parallel(self, items, fn, jobs=None):
        """ fn(item) for every item, in forked processes that each take a share; what they counted and
            found is merged in the order of the shares. fn must leave this process alone otherwise. """
        import pickle
        items = list(items)
        jobs = max(1, min(jobs or min(8, os.cpu_count() or 1), len(items)))
        if jobs == 1:
            for x in items:
                fn(x)
            return
        d, running = self.tmp(), set()
        shares = min(len(items), 4 * jobs)
        for j in range(shares):
            while len(running) == jobs:
                running.discard(os.wait()[0])
            pid = os.fork()
            if pid == 0:
                path = os.path.join(d, str(j))
                try:
                    self.traces, self.parts, self.failures, self.known_hit, self.samples = 0, {}, [], {}, []
                    error = None
                    try:
                        for x in items[j::shares]:
                            fn(x)
                    except Violation:
                        pass
                    except BaseException as e:     # noqa
                        if from_repo(e):
                            self.failures.append(dict(clause='exception', error='%s: %s' % (type(e).__name__, e), where=repo_frames(e)))
                        else:
                            error = traceback.format_exc()
                    found = json.loads(json.dumps(plain([self.failures, self.samples]), default=jsonable))
                    with open(path + '.tmp', 'wb') as f:
                        pickle.dump((self.traces, self.parts, found[0], self.known_hit, found[1], error), f)
                    os.rename(path + '.tmp', path)
                finally:
                    os._exit(0)
            running.add(pid)
        while running:
            running.discard(os.wait()[0])
        crashed = []
        for j in range(shares):
            path = os.path.join(d, str(j))
            if not os.path.exists(path):
                crashed.append(j)
                continue
            with open(path, 'rb') as f:
                traces, parts, failures, hits, samples, error = pickle.load(f)
            if error:
                raise RuntimeError('in a worker:\n' + error)
            self.traces += traces
            for k, v in parts.items():
                p = self.parts.setdefault(k, {})
                for n, c in v.items():
                    p[n] = p.get(n, 0) + c
            self.failures.extend(failures)
            for k, v in hits.items():
                self.known_hit[k] = self.known_hit.get(k, 0) + v
            for x in samples:
                self.sample(x)
        if crashed:
            # the interpreter died: only compiled code of the tree under test can do that
            self.failures.append(dict(clause='the compiled code ended the process', share=crashed))
        if self.failures:
            raise Violation('enough')

    def tmp(self):
        if self.scratch is None:
            self.scratch = tempfile.mkdtemp(prefix='verif-%s-' % self.prop)
        return tempfile.mkdtemp(dir=self.scratch)


def repo_frames(e):
    return ['%s:%s %s' % (os.path.relpath(f.filename, REPO), f.lineno, f.name)
            for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(REPO + os.sep)][-4:]


def from_repo(e):
    """ Did the exception come out of the code under test (its frames are on the stack)? """
    if repo_frames(e):
        return True
    if isinstance(e, SyntaxError) and e.filename and e.filename.startswith(REPO + os.sep):
        return True
    # what the code under test no longer offers
    if isinstance(e, AttributeError):
        o = getattr(e, 'obj', None)
        m = sys.modules.get(getattr(o if isinstance(o, type) else type(o), '__module__', None) or '')
        f = getattr(o, '__file__', None) or getattr(m, '__file__', None) or ''
        if f.startswith(REPO + os.sep):
            return True
    if isinstance(e, ImportError) and (e.path or '').startswith(REPO + os.sep):
        return True
    # raised inside the compiled extension, called directly by a driver
    return bool(getattr(e, 'from_extension', False))


def load_known(prop):
    out = []
    path = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(path):
        for line in open(path, encoding='utf-8'):
            line = line.strip()
            if line:
                rec = json.loads(line)
                if rec.get('status') == 'open' and rec['property'] == prop:
                    out.append(rec)
    return out


@contextlib.contextmanager
def quiet():
    """ Silence what the code under test prints. """
    old = sys.stdout
    sys.stdout = io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout = old


def plain(x):
    """ something JSON can represent, whatever the code under test returned """
    if isinstance(x, dict):
        return {k if isinstance(k, str) else str(k): plain(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    if x is None or isinstance(x, (bool, int, float, str)):
        return x
    x = jsonable(x)
    return plain(x) if isinstance(x, (list, tuple, dict)) else x if isinstance(x, (bool, int, float, str)) else str(x)


def jsonable(x):
    try:
        import numpy
        if isinstance(x, numpy.ndarray):
            return x.tolist()
        if isinstance(x, numpy.generic):
            return x.item()
    except ImportError:
        pass
    if isinstance(x, (set, frozenset)):
        return sorted(map(str, x))
    return str(x)


def main(prop, tier=None, seed=None):
    tier = tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(seed if seed is not None else os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    ctx = Context(prop, tier, seed)
    mod = None
    code = 0
    for var in list(os.environ):       # settings of the code under test must come from the checks only
        if var in ('HNL_ENERGY', 'Relativistic_decoupling', 'STERILE_DECAYED', 'SHOW_PLOTS', 'KAWANO',
                   'SPLIT_COLLISION_INTEGRAL', 'LOGARITHMIC_TIMESTEP'):
            del os.environ[var]
    try:
        import warnings
        warnings.simplefilter('ignore')
        mod = importlib.import_module('%s' % prop.lower())
        try:
            with quiet():
                mod.check(ctx)
        except Violation:
            pass
        except tlc.TLCError:
            raise
        except BaseException as e:    # noqa
            if not from_repo(e):
                raise
            ctx.failures.append(dict(clause='exception', error='%s: %s' % (type(e).__name__, e),
                                     where=repo_frames(e), trace=traceback.format_exc()[-3000:]))
    except BaseException:             # noqa: machinery failure
        traceback.print_exc()
        code = 2
    finally:
        if ctx.scratch:
            import shutil
            shutil.rmtree(ctx.scratch, ignore_errors=True)
    wall = time.time() - t0
    if code == 0 and not ctx.failures:
        # a run that explored nothing proves nothing
        floor = getattr(mod, 'FLOOR', 1)
        if ctx.traces < floor or ctx.states < 1:
            print('machinery: only %d behaviours replayed (floor %d), %d states' % (ctx.traces, floor, ctx.states))
            code = 2
    evidence = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'model_checking',
        'coverage': {
            'states': ctx.states, 'transitions': ctx.transitions,
            'traces_validated_against_impl': ctx.traces,
            'parts': ctx.parts, 'samples': ctx.samples or ['none'],
        },
        'assumptions': ctx.assumptions + list(getattr(mod, 'ASSUMPTIONS', [])),
        'wall_s': round(wall, 2), 'violations': len(ctx.failures),
    }
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(plain(evidence), f, indent=1, default=jsonable)
        f.write('\n')
    for text, n in sorted(ctx.known_hit.items()):
        print('KNOWN-FINDING: property=%s %s' % (prop, text))
    if ctx.failures:
        path = os.path.join(VERIF, 'evidence', '%s.replay.json' % prop)
        with open(path, 'w') as f:
            json.dump({'property': prop, 'tier': tier, 'seed': seed, 'failures': ctx.failures}, f,
                      indent=1, default=jsonable)
        for x in ctx.failures[:5]:
            print('  ' + json.dumps(x, default=jsonable)[:600])
        print('VIOLATION property=%s replay=%s' % (prop, path))
        code = 1
    else:
        if code == 0:
            print('%s holds on everything explored: %d spec states, %d behaviours replayed/validated, %.1f s'
                  % (prop, ctx.states, ctx.traces, wall))
    sys.stdout.flush()
    return code


if __name__ == '__main__':
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier')
    ap.add_argument('--seed', type=int)
    a = ap.parse_args()
    os._exit(main(a.prop, a.tier, a.seed))
