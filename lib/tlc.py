"""Running TLC on the modules of /verif/spec and reading back what it explored."""
import json
import os
import re
import shutil
import subprocess
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, 'spec')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TLCError(Exception):
    """ TLC itself failed, or the specification violates its own invariants. """


class Result(object):
    def __init__(self):
        self.emitted = []
        self.states = 0
        self.distinct = 0
        self.log = ''
        self.wall = 0.


def tla(value):
    """ Python value -> TLA+ constant expression. """
    if value is True:
        return 'TRUE'
    if value is False:
        return 'FALSE'
    if isinstance(value, int):
        return str(value)
    if isinstance(value, str):
        return json.dumps(value)
    if isinstance(value, (set, frozenset)):
        return '{' + ', '.join(tla(v) for v in sorted(value)) + '}'
    if isinstance(value, (list, tuple)):
        return '<<' + ', '.join(tla(v) for v in value) + '>>'
    raise TypeError(value)


def run(module, constants=None, init='Init', next_='Next', spec=None, invariants=(), properties=(),
        constraint=None, action_constraint=None, postcondition=None, simulate=None, depth=None,
        workers=1, timeout=600, env=None, seed=None, view=None, expect_violation=False, heap='4g',
        coverage=False):
    """ Run TLC on spec/<module>.tla. Lines printed by the specification with the prefix `@@` are
        returned, decoded, in `Result.emitted`. """
    work = tempfile.mkdtemp(prefix='tlc-')
    try:
        for f in os.listdir(SPEC):
            if f.endswith('.tla'):
                shutil.copy(os.path.join(SPEC, f), work)
        lines = []
        simple, defs = [], []
        for k, v in (constants or {}).items():
            # constants go through an override module, cfg syntax cannot express tuples
            defs.append('c_%s == %s' % (k, tla(v)))
            simple.append('%s <- c_%s' % (k, k))
        top = 'Run_' + module
        with open(os.path.join(work, top + '.tla'), 'w') as f:
            f.write('---- MODULE %s ----\nEXTENDS %s\n%s\n====\n' % (top, module, '\n'.join(defs)))
        if spec:
            lines.append('SPECIFICATION ' + spec)
        else:
            lines += ['INIT ' + init, 'NEXT ' + next_]
        if simple:
            lines.append('CONSTANTS\n  ' + '\n  '.join(simple))
        for i in invariants:
            lines.append('INVARIANT ' + i)
        for p in properties:
            lines.append('PROPERTY ' + p)
        if constraint:
            lines.append('CONSTRAINT ' + constraint)
        if action_constraint:
            lines.append('ACTION_CONSTRAINT ' + action_constraint)
        if postcondition:
            lines.append('POSTCONDITION ' + postcondition)
        if view:
            lines.append('VIEW ' + view)
        lines.append('CHECK_DEADLOCK FALSE')
        with open(os.path.join(work, top + '.cfg'), 'w') as f:
            f.write('\n'.join(lines) + '\n')
        cmd = ['java', '-XX:+UseParallelGC', '-Xmx' + heap, '-Xss64m', '-cp', JARS, 'tlc2.TLC',
               '-config', top + '.cfg', '-metadir', os.path.join(work, 'meta'),
               '-workers', str(workers), '-noGenerateSpecTE']
        if simulate:
            cmd += ['-simulate', 'num=%d' % simulate]
            if seed is not None:
                cmd += ['-seed', str(seed)]
        if depth:
            cmd += ['-depth', str(depth)]
        if coverage:
            cmd += ['-coverage', '1']
        cmd.append(top + '.tla')
        e = dict(os.environ)
        e.pop('JAVA_TOOL_OPTIONS', None)
        e.update(env or {})
        t = time.time()
        out_path = os.path.join(work, 'out')
        with open(out_path, 'wb') as out:
            try:
                p = subprocess.run(cmd, cwd=work, stdout=out, stderr=subprocess.STDOUT, env=e, timeout=timeout)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        r = Result()
        r.wall = time.time() - t
        rest = []
        with open(out_path, encoding='utf-8', errors='replace') as out:
            for line in out:
                if line.startswith('"@@'):
                    r.emitted.append(json.loads(json.loads(line.strip())[2:]))
                else:
                    rest.append(line)
        r.log = ''.join(rest)
        m = re.findall(r'([\d,]+) states generated.*?, ([\d,]+) distinct', r.log)
        if m:
            r.states, r.distinct = (int(x.replace(',', '')) for x in m[-1])
        else:
            m = re.findall(r'The number of states generated: ([\d,]+)', r.log)
            if m:
                r.states = r.distinct = int(m[-1].replace(',', ''))
        r.violated = re.findall(r'Invariant (\w+) is violated|property (\w+) (?:is|was) violated', r.log)
        if rc not in (0,) and not (expect_violation and r.violated):
            raise TLCError('TLC on %s failed (%s):\n%s' % (module, rc, '\n'.join(l for l in r.log.splitlines() if not re.match(r'Parsing file|Semantic processing|Linting', l))[-2500:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def validate(module, traces, constants=None, env=None, timeout=600, workers=1, **kw):
    """ Hand recorded traces to a trace specification (which reads the file named by the TRACE
        environment variable and emits one record per trace).  Returns the Result. """
    fd, path = tempfile.mkstemp(suffix='.json')
    try:
        with os.fdopen(fd, 'w') as f:
            json.dump(traces, f)
        e = dict(env or {})
        e['TRACE'] = path
        return run(module, constants=constants, env=e, timeout=timeout, workers=workers, **kw)
    finally:
        os.unlink(path)
