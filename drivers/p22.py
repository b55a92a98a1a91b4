"""P22: what a run writes down is what it computed."""
import gc
import io
import os
import re
import stat
import sys

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet
import universes
import p10

FLOOR = 300
ASSUMPTIONS = ['the nucleosynthesis code is a stub that records its dialogue and copies its input', 'scripted species of constant comoving temperature; real weak rates']
STEP = 1.05


def check(ctx):
    pybbn.load()
    from common import UNITS
    r = ctx.tlc('Output', constants=dict(MaxN=6 if ctx.thorough else 4, MaxRuns=2, Freqs={1, 2, 3} if not ctx.thorough else {1, 2, 3, 5}), spec='Spec',
                invariants=['TypeOK', 'Rows', 'Rates', 'NoFolder', 'Recent', 'Emit', 'EmitStatic'], properties=['Keeps', 'Ends'])
    static = [e for e in r.emitted if 'dialogue' in e][0]
    runs = [e for e in r.emitted if 'hist' in e]
    runs = [e for i, e in enumerate(runs) if (i * 7919 + ctx.seed) % (5 if ctx.thorough else 7) == 0]
    stub = os.path.join(ctx.tmp(), 'kawano')
    with open(stub, 'w') as f:
        f.write('#!/bin/sh\n/bin/cat > "$OUTPUT.keys"\necho nucleosynthesis was computed > "$OUTPUT"\n/bin/cp "$INPUT" "$OUTPUT.input"\n')
    os.chmod(stub, stat.S_IRWXU)
    os.environ['KAWANO'] = stub
    ctx.parallel(list(enumerate(runs)), lambda x: replay(ctx, static, x[0], x[1], UNITS))
    os.environ.pop('KAWANO')
    ctx.sample(runs[0]['conf'])
    boundary(ctx, UNITS)
    throttle(ctx)
    said(ctx, UNITS)
    tools(ctx)


def boundary(ctx, UNITS):
    """ a step exactly at the temperature of nucleosynthesis has its row of rates """
    import kawano
    from evolution import Universe
    from common import Params, LinearSpacedGrid
    Scripted, _ = universes.classes()
    grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=8 * UNITS.MeV)
    real = kawano.baryonic_rates
    kawano.baryonic_rates = lambda a: [float(k) for k in range(1, 7)]

    def run(T0, steps):
        u = Universe(params=Params(T=T0, dy=STEP - 1))
        parts = []
        for k, m in enumerate((0.5, 0.)):
            p = Scripted(name='S%d' % k, symbol='s', mass=m * UNITS.MeV, grid=grid, decoupling_temperature=0.)
            p.script = p10.script(0., k)
            parts.append(p)
        u.add_particles(parts)
        u.init_kawano(electron=parts[0], neutrino=parts[1])
        u.params.update(u.total_energy_density(), u.total_entropy())
        u.save_params()
        for _ in range(steps):
            u.make_step()
            u.save()
        return u
    try:
        for steps in (1, 2, 3):
            with ctx.guard('at the temperature of nucleosynthesis', key='step %d' % steps), quiet():
                T0 = 10 * UNITS.MeV * STEP**steps
                for _ in range(60):
                    T0 = numpy.nextafter(T0, 0.)
                exact = 0
                for _ in range(120):
                    T0 = numpy.nextafter(T0, 1.)
                    u = run(T0, steps)
                    T = float(u.data['T'][-1])
                    want = 1 if T <= 10 * UNITS.MeV else 0
                    exact += T == 10 * UNITS.MeV
                    ctx.expect(len(u.kawano_data) == want, 'rates at the temperature of nucleosynthesis', key='step %d' % steps,
                               T=T / UNITS.MeV, got=len(u.kawano_data), want=want)
                ctx.count(exact, part='steps exactly at the temperature of nucleosynthesis')
    finally:
        kawano.baryonic_rates = real


def replay(ctx, static, i, e, UNITS):
    import kawano
    from evolution import Universe
    from common import Params, LinearSpacedGrid
    c = e['conf']
    log_step = i % 2 == 0
    key = 'folder=%(folder)s kawano=%(kawano)s every=%(freq)s chatty=%(chatty)s bbn=%(bbn)s' % c + ' crash=%s log=%s runs=%s' % (
        e['crash'], log_step, [h['n'] for h in e['hist'] if h['a'] in ('end', 'crash')])
    os.environ['LOGARITHMIC_TIMESTEP'] = str(log_step)
    T0 = {0: 9., 99: 300.}.get(c['bbn'], 10. * (STEP**(c['bbn'] - 0.5) if log_step else 1 + (STEP - 1) * (c['bbn'] - 0.5))) * UNITS.MeV
    folder = os.path.join(ctx.tmp(), 'out') if c['folder'] else None
    if folder and i % 3 == 0:        # what an earlier run left there does not survive
        os.makedirs(folder)
        for f in ('evolution.txt', 'kawano.txt', 's4.dat', 'kawano_output.dat'):
            open(os.path.join(folder, f), 'w').write('stale\n')
    real_rates = kawano.baryonic_rates
    asked = []

    def rates(a):
        out = real_rates(a)
        asked.append((a, out))
        return out
    kawano.baryonic_rates = rates
    try:
        with ctx.guard('run', key=key), quiet() as screen:
            m = (1., 2.5, 0.3)[i % 3] * UNITS.MeV          # the normalisation of the scale factor is arbitrary
            dx = dict(dx=m * (m / T0) * (STEP - 1)) if not log_step else dict(dy=STEP - 1)
            u = Universe(params=Params(T=T0, m=m, **dx), folder=folder, max_log_rate=0 if c['chatty'] else 1e9)
            Scripted, _ = universes.classes()
            grid = LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=8 * UNITS.MeV)
            parts = []
            for k, m in enumerate((0.5, 0.)):
                p = Scripted(name='S%d' % k, symbol='s', mass=m * UNITS.MeV, grid=grid, decoupling_temperature=0.)
                p.script = p10.script(0. if i % 4 else 0.05, k)
                parts.append(p)
            u.add_particles(parts)
            u.export_freq = c['freq']
            if c['kawano']:
                u.init_kawano(electron=parts[0], neutrino=parts[1])
            crash = []
            table = type(u.data)
            states = []

            def monitor(un):
                if crash and len(states) == crash[0]:
                    raise KeyboardInterrupt
                states.append(1)
                check_state(ctx, u, by_n[len(states) - 1], key, UNITS, folder, screen, asked, static, log_step, snaps)
            u.step_monitor = monitor
            if e['crash']:
                crash.append(e['crash'] - 1)
            # expected state before step n+1: the one of the last `step` or `begin` entry with that n
            by_n = {}
            for h in e['hist']:
                if h['a'] in ('begin', 'step'):
                    by_n[h['n']] = h
            snaps = {}
            first, at = True, 0
            segments = []
            for h in e['hist']:
                if h['a'] == 'begin':
                    start = h['n']
                if h['a'] in ('end', 'crash'):
                    segments.append((start, h))
            for start, h in segments:
                goal = h['n'] if h['a'] == 'end' else h['n'] + 1
                Tn = u.params.T
                # any temperature between that of the last step and the one before
                T_final = Tn * (1 + 1e-12) if goal == start else temperature(u, goal - start, i)
                died = None
                try:
                    out = u.evolve(T_final, export=h['export'], init_time=first)
                    ctx.expect(out is u.data, 'the table is returned', key=key)
                except SystemExit as x:
                    died = x.code
                first = False
                ctx.expect((died is not None) == (h['a'] == 'crash'), 'ends as asked', key=key, got=died)
                if died is not None:
                    ctx.expect(died not in (0, None), 'an interruption is not a success', key=key, got=died)
                check_state(ctx, u, h, key, UNITS, folder, screen, asked, static, log_step, snaps)
                ctx.count(part='runs')
            del u
            gc.collect()
    finally:
        kawano.baryonic_rates = real_rates
        os.environ.pop('LOGARITHMIC_TIMESTEP', None)


def temperature(u, steps, i):
    """ between the temperatures after `steps` - 1 and `steps` more steps, were aT constant """
    x, dx = u.params.x, u.params.dx
    xs = [x]
    for k in range(steps):
        xs.append(xs[-1] * STEP if u.params.dy else xs[-1] + dx)
    a = xs[-2] / u.params.m, xs[-1] / u.params.m
    w = (0.5, 0.3, 0.7)[i % 3]
    return u.params.aT / (a[0] * (1 - w) + a[1] * w)


def check_state(ctx, u, h, key, UNITS, folder, screen, asked, static, log_step, snaps):
    n = h['n']
    ctx.expect(u.step == h['step'], 'step counter', key=key, n=n, got=u.step, want=h['step'])
    if not ctx.expect(len(u.data) == len(h['rows']), 'rows recorded', key=key, n=n, got=len(u.data), want=len(h['rows'])):
        return
    p = u.params
    now = dict(aT=p.aT, T=p.T, a=p.a, x=p.x, t=p.t, rho=p.rho, N_eff=p.N_eff, S=p.S, H=p.H)
    snaps.setdefault(n, now)
    for i, k in enumerate(h['rows']):
        if k in snaps:
            got = {c: float(u.data[c][i]) for c in now if c != 'H'}
            bad = [c for c in got if got[c] != snaps[k][c]]
            ctx.expect(not bad, 'a row is the state of its step', key=key, row=i, n=k, got={c: got[c] for c in bad}, want={c: snaps[k][c] for c in bad})
    if u.kawano:
        if ctx.expect(len(u.kawano_data) == len(h['krows']), 'rows of rates', key=key, n=n, got=len(u.kawano_data), want=h['krows']):
            ctx.expect(len(asked) == len(h['krows']), 'rates computed once per row', key=key, got=len(asked), want=len(h['krows']))
            for i, k in enumerate(h['krows']):
                if k not in snaps:
                    continue
                row, s = list(u.kawano_data[i]), snaps[k]
                fr = float(u.data['fraction'][h['rows'].index(k)])
                env = dict(s, fraction=fr, m=p.m)
                want = [s['t'], s['x'], s['T'], ev(static['dTdt']['log' if log_step else 'lin'], env), s['rho'], s['H']]
                ctx.expect(terms.close(row[:6], want, 1e-11, 1e-300), 'row of rates/parameters', key=key, got=row[:6], want=want)
                ctx.expect(i < len(asked) and asked[i][0] == s['a'] and list(asked[i][1]) == row[6:], 'row of rates/rates', key=key, got=row[6:])
    if not folder:
        return
    for name, count, table in (('evolution.txt', h['evo'], u.data), ('kawano.txt', h['kaw'], getattr(u, 'kawano_data', None))):
        path = os.path.join(folder, name)
        if not ctx.expect(os.path.exists(path) == (count >= 0), 'file is there', key=key, n=n, file=name, expected=count >= 0):
            continue
        if count < 0:
            continue
        lines = open(path).read().splitlines()
        head = [x.split(',')[0].strip() for x in lines[0].lstrip('# ').split('\t')]
        ctx.expect(head == list(table.columns), 'file/columns', key=key, file=name, got=head)
        got = [[float(x) for x in l.split('\t')] for l in lines[1:]]
        want = [list(numpy.array(list(table.data[i])) / table.units) for i in range(count)]
        ctx.expect(len(got) == count, 'file/rows', key=key, file=name, n=n, got=len(got), want=count)
        if len(got) == count and count:
            ctx.expect(terms.close(numpy.array(got), numpy.array(want), 1e-14, 1e-300), 'file/values', key=key, file=name)
    s4 = os.path.join(folder, 's4.dat')
    if ctx.expect(os.path.exists(s4) == (h['s4'] >= 0), 'input of the nucleosynthesis code is there', key=key):
        if h['s4'] >= 0:
            if not u.kawano_log.closed:
                u.kawano_log.flush()
            compare_input(ctx, open(s4).read(), u, h, key)
    done = os.path.join(folder, 'kawano_output.dat')
    if h['a'] in ('end', 'crash'):
        ctx.expect(os.path.exists(done) == (h['res'] == 'nucleosynthesis'), 'nucleosynthesis runs when exporting', key=key, expected=h['res'])
        if h['res'] == 'nucleosynthesis' and os.path.exists(done):
            compare_input(ctx, open(done + '.input').read(), u, h, key)       # what the code could read
            keys = open(done + '.keys').read().split(os.linesep)
            while keys and keys[-1] == '':
                keys.pop()
            ctx.expect(keys == static['dialogue'], 'dialogue with the nucleosynthesis code', key=key, got=keys)
    # the log: same lines on screen and in the file
    logger = sys.stdout
    for where, text in (('screen', screen.getvalue()), ('file', read_log(u, logger))):
        got = [int(x) for x in re.findall(r'^\[[^\]]*\] #(\d+)\tt = ', text, re.M)]
        want = h['shown'] if h['a'] in ('end', 'crash') else None
        if want is not None:
            ctx.expect(got == want, 'lines of the log', key=key, where=where, got=got, want=want)
            if h['res'] == 'nucleosynthesis':
                ctx.expect('nucleosynthesis was computed' in text, 'result of the nucleosynthesis is shown', key=key, where=where)


def read_log(u, logger):
    logger.log.flush()
    return io.open(u.logfile, encoding='utf8').read()


def compare_input(ctx, text, u, h, key):
    lines = text.split('\n')
    ctx.expect(text.endswith('\n'), 'input/complete', key=key)
    ctx.expect(lines[0].split('\t') == [c[0] for c in u.kawano.heading], 'input/heading', key=key, got=lines[0])
    got = [[float(x) for x in l.split('\t')] for l in lines[1:-1]]
    d = u.kawano_data
    want = [list(numpy.array(list(d.data[i])) / d.units) for i in range(min(h['s4'], len(d)))]
    if ctx.expect(len(got) == h['s4'], 'input/rows', key=key, got=len(got), want=h['s4']) and got:
        ctx.expect(terms.close(numpy.array(got), numpy.array(want), 1e-6, 1e-300), 'input/values', key=key)


def throttle(ctx):
    from common import utils
    r = ctx.tlc('Throttle', constants=dict(MaxOps=6 if ctx.thorough else 5), spec='Spec', invariants=['Fresh', 'Heard', 'Emit'], properties=['Spaced'])
    clock = [0.]
    real = utils.time.time
    utils.time.time = lambda: 1e9 + clock[0]
    try:
        for e in r.emitted:
            key = 'rate=%s %s' % (e['rate'], [(h['op'], h['now']) for h in e['hist']])
            with ctx.guard('throttle', key=key):
                clock[0] = 0.
                t = utils.Throttler(e['rate'])
                ctx.expect(t.output is True, 'throttle/starts open', key=key)
                for h in e['hist']:
                    clock[0] = h['now']
                    if h['op'] == 'update':
                        t.update()
                    if not ctx.expect(bool(t.output) == h['out'], 'throttle', key=key, at=h):
                        break
            ctx.count(part='throttle')
    finally:
        utils.time.time = real


def said(ctx, UNITS):
    """ the log of a run whose steps take time """
    from common import utils
    r = ctx.tlc('Said', constants=dict(Rates={0, 2, 5}, Durations={1, 2, 7}, MaxSteps=5 if ctx.thorough else 4), spec='Spec',
                invariants=['Spaced', 'Heard', 'Speaks', 'Emit'])
    cases = [e for n, e in enumerate(sorted(r.emitted, key=str)) if (n + ctx.seed) % (3 if ctx.thorough else 5) == 0]
    clock = [0.]
    real = utils.time.time
    utils.time.time = lambda: 1e9 + clock[0]
    try:
        for n, e in enumerate(cases):
            key = 'rate=%s took=%s' % (e['rate'], e['took'])
            with ctx.guard('log of slow steps', key=key):
                clock[0] = 0.
                with quiet() as screen:
                    from evolution import Universe
                    from common import Params, LinearSpacedGrid
                    Scripted, _ = universes.classes()
                    folder = os.path.join(ctx.tmp(), 'said') if n % 3 == 0 else None
                    u = Universe(params=Params(T=9. * UNITS.MeV, dy=STEP - 1), folder=folder, max_log_rate=e['rate'])
                    p = Scripted(name='S', symbol='s', mass=0., grid=LinearSpacedGrid(MOMENTUM_SAMPLES=5, MAX_MOMENTUM=8 * UNITS.MeV), decoupling_temperature=0.)
                    p.script = p10.script(0., 0)
                    u.add_particles([p])
                    steps = []

                    def monitor(un):
                        clock[0] += e['took'][len(steps)]
                        steps.append(1)
                    u.step_monitor = monitor
                    u.evolve(temperature(u, len(e['took']), n), export=False)
                    texts = [screen.getvalue()] + ([read_log(u, sys.stdout)] if folder else [])
                    del u
                    gc.collect()
                ctx.expect(len(steps) == len(e['took']), 'log of slow steps/steps', key=key, got=len(steps))
                for text in texts:
                    got = [int(x) for x in re.findall(r'^\[[^\]]*\] #(\d+)\tt = ', text, re.M)]
                    ctx.expect(got == e['said'], 'the log is throttled', key=key, got=got, want=e['said'])
            ctx.count(part='log of slow steps')
    finally:
        utils.time.time = real


def tools(ctx):
    """ folders, print options """
    from common import utils
    d = ctx.tmp()
    for chunks in (['a', 'b', 'f.txt'], ['a', 'b', 'g.txt'], ['h.txt']):
        with ctx.guard('ensure_path', key=str(chunks)):
            p = utils.ensure_path(d, *chunks)
            ctx.expect(p == os.path.join(d, *chunks) and os.path.isdir(os.path.dirname(p)) and not os.path.exists(p), 'ensure_path', key=str(chunks), got=p)
            q = utils.ensure_dir(d, *chunks[:-1])
            ctx.expect(os.path.isdir(q), 'ensure_dir', key=str(chunks))
        ctx.count(part='folders')
    before = numpy.get_printoptions()
    for raises in (False, True):
        with ctx.guard('printoptions', key=str(raises)):
            try:
                with utils.printoptions(precision=3, linewidth=100):
                    ctx.expect(numpy.get_printoptions()['precision'] == 3, 'print options are in force')
                    if raises:
                        raise ZeroDivisionError
            except ZeroDivisionError:
                pass
            ctx.expect(numpy.get_printoptions() == before, 'print options are restored', key=str(raises))
        ctx.count(part='print options')
