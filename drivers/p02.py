"""P02: settings come from the environment while it sets them, and from the defaults otherwise."""
import os

import pybbn

FLOOR = 300
ASSUMPTIONS = ['the empty word counts as "off" for settings; its meaning for getboolenv is left open']


def same(got, want):
    kind, text = want
    if kind == 'bool':
        return got is (text == 'True')
    if kind == 'int':
        return type(got) is int and got == int(text)
    if kind == 'float':
        return isinstance(got, float) and got == float(text)
    if kind == 'none':
        return got is None
    return got == text


def read(environment, name):
    try:
        return 'value', environment.get(name)
    except ValueError as e:
        return 'error', str(e)


def compare(ctx, environment, want, key):
    for name, w in want.items():
        kind, got = read(environment, name)
        if w[0] == 'error':
            ctx.expect(kind == 'error', 'malformed number accepted', key=key, name=name, got=got)
        else:
            ctx.expect(kind == 'value' and same(got, w), 'setting', key=key, name=name, got=repr(got), want=w)


def check(ctx):
    pybbn.paths()
    saved = dict(os.environ)
    import environment
    from common import utils
    try:
        names = {'FIXED_ORDER_1D_QUADRATURE', 'ADAMS_MOULTON_DISTRIBUTION_CORRECTION', 'MOMENTUM_SAMPLES',
                 'REGIME_SWITCHING_FACTOR', 'HNL_ENERGY'}
        invs = ['Independent', 'Restored', 'Decided']
        r = ctx.tlc('Config', constants=dict(MaxOps=3 if ctx.thorough else 2, Names=names), invariants=invs + ['Emit', 'EmitAll'])
        cases = r.emitted
        r = ctx.tlc('Config', constants=dict(MaxOps=12, Names=names), invariants=invs + ['Emit'],
                    simulate=200 if ctx.thorough else 30, depth=13, seed=ctx.seed)
        cases += r.emitted
        defaults = [c for c in cases if 'defaults' in c][0]['defaults']
        every = set(defaults)
        r = ctx.tlc('Config', constants=dict(MaxOps=1, Names=every), invariants=invs + ['Emit'])
        cases += r.emitted
        for name in every:
            os.environ.pop(name, None)
        compare(ctx, environment, defaults, 'all unset')
        for c in cases:
            if 'hist' in c:
                for name in every:
                    os.environ.pop(name, None)
                for op, name, word in c['hist']:
                    if op == 'set':
                        os.environ[name] = word
                    else:
                        os.environ.pop(name, None)
                with ctx.guard('reading a setting', key=str(c['hist'])):
                    compare(ctx, environment, c['want'], str(c['hist']))
                ctx.count(part='settings histories')
            elif 'switch' in c:
                word, dflt = c['switch']
                os.environ.pop('VERIF_SWITCH', None)
                if word != '<unset>':
                    os.environ['VERIF_SWITCH'] = word
                d = {'True': True, 'False': False, 'None': None}[dflt]
                with ctx.guard('switch', key=str(c['switch'])):
                    got = utils.getboolenv('VERIF_SWITCH', d)
                    ctx.expect(bool(got) == c['want'], 'switch', key=str(c['switch']), got=got, want=c['want'])
                ctx.count(part='switches')
        ctx.sample(cases[len(cases) // 3])
        # text settings: the variable itself, or the caller's default
        os.environ['VERIF_SWITCH'] = 'abc'
        ctx.expect(utils.getenv('VERIF_SWITCH', 'd') == 'abc', 'text setting')
        del os.environ['VERIF_SWITCH']
        ctx.expect(utils.getenv('VERIF_SWITCH', 'd') == 'd' and utils.getenv('VERIF_SWITCH') is None, 'text setting default')
        # settings act where they are used, not only where they are read
        effects(ctx, environment)
    finally:
        os.environ.clear()
        os.environ.update(saved)


def effects(ctx, environment):
    from common import Params, LinearSpacedGrid, LogSpacedGrid, UNITS
    for n in ('MOMENTUM_SAMPLES', 'MAX_MOMENTUM_MEV', 'LOGARITHMIC_TIMESTEP'):
        os.environ.pop(n, None)
    for samples, top in (('', ''), ('31', ''), ('', '7'), ('12', '3')):
        if samples:
            os.environ['MOMENTUM_SAMPLES'] = samples
        if top:
            os.environ['MAX_MOMENTUM_MEV'] = top
        for cls in (LinearSpacedGrid, LogSpacedGrid):
            with ctx.guard('grid from settings', key=cls.__name__):
                g = cls()
                ctx.expect(len(g.TEMPLATE) == int(samples or 401) and g.MOMENTUM_SAMPLES == int(samples or 401),
                           'grid takes the sample count', key=cls.__name__, got=len(g.TEMPLATE))
                ctx.expect(abs(g.MAX_MOMENTUM / UNITS.MeV / float(top or 100) - 1) < 1e-12, 'grid takes the extent',
                           key=cls.__name__, got=g.MAX_MOMENTUM)
            ctx.count(part='effects')
        os.environ.pop('MOMENTUM_SAMPLES', None)
        os.environ.pop('MAX_MOMENTUM_MEV', None)
    # the step variable of the evolution follows LOGARITHMIC_TIMESTEP, and the matching step is demanded
    for word, log in ((None, True), ('1', True), ('False', False)):
        if word is None:
            os.environ.pop('LOGARITHMIC_TIMESTEP', None)
        else:
            os.environ['LOGARITHMIC_TIMESTEP'] = word
        for given in ('dx', 'dy', 'neither'):
            kw = {} if given == 'neither' else {given: 0.01}
            try:
                p = Params(T=2., **kw)
                ok = True
            except Exception:
                ok = False
            ctx.expect(ok == (given == ('dy' if log else 'dx')), 'missing step size is refused', key='%s %s' % (word, given), accepted=ok)
            if ok:
                ctx.expect(p.h == 0.01, 'step variable', key='%s %s' % (word, given), got=p.h)
            ctx.count(part='effects')
    os.environ.pop('LOGARITHMIC_TIMESTEP', None)
