"""P19: the interactions of the particle library."""
import json
from collections import defaultdict

import numpy

import pybbn
import terms
from terms import ev
from harness import quiet
import crossing
import libspecies

FLOOR = 300
TH = dict(electron=3e-3, muon=2e-4, tau=5e-5)


def freeze(p):
    return json.dumps(p, sort_keys=True)


def check(ctx):
    pybbn.load()
    from common import UNITS, CONST, statistics as ST
    from library.SM import particles as SMP
    species(ctx, UNITS, ST)
    r = ctx.tlc('Library', init='InitProcess', invariants=['ChargeLaw', 'FlavourLaw', 'BaryonLaw', 'EmitProcess'])
    procs = {(freeze(e['p']), e['maj'], e['mN']): e['reactions'] for e in r.emitted}
    b = ctx.tlc('Library', init='InitBuilder', invariants=['NoMixingNoReaction', 'EmitBuilder'])
    env0 = dict(s2=CONST.sin_theta_w_2, GF=CONST.G_F)
    for (i, j), v in SMP.quarks.CKM.items():
        env0['CKM%d%d' % (i, j)] = v
    ctx.expect(terms.close(CONST.g_R, CONST.sin_theta_w_2, 1e-14), 'g_R is the squared sine of the weak angle', got=CONST.g_R)
    n = 0
    for e in b.emitted:
        c = e['c']
        sterile = c['builder'].startswith('sterile')
        for maj in (False, True) if sterile else (False,):
            for mN in ((30000, 300000, 2500000) if sterile else (0,)):
                n += 1
                if sterile and not ctx.thorough and (n * 7919 + ctx.seed) % 5:
                    continue
                one(ctx, c, e['offers'], procs, maj, mN, env0, UNITS, n)
    direct(ctx, UNITS, CONST, env0)


def species(ctx, UNITS, ST):
    r = ctx.tlc('Library', init='InitSpecies', invariants=['EmitSpecies'])
    tmpl = libspecies.templates()
    for e in r.emitted:
        with ctx.guard('species', key=e['x']):
            t = tmpl[e['x']]
            p = libspecies.particle(e['x'])
            got = dict(q=p.Q * 3., fl=getattr(p, 'flavour', '-'), m=round(p.mass / UNITS.MeV * 1e3), maj=bool(p.majorana),
                       fast=hasattr(p, 'fast_decay'), dof=p.dof, fermion=p.statistics is ST.FERMION)
            for k, v in got.items():
                want = e[k]
                ok = abs(v - want) < 1e-9 if k == 'q' else v == want
                ctx.expect(ok, 'species/' + k, key=e['x'], got=v, want=want)
            if 'BR' in t:
                ctx.expect(0.9 < sum(t['BR'].values()) < 1.0001, 'branching ratios add up to at most one', key=e['x'], got=sum(t['BR'].values()))
            ctx.expect(('lifetime' in t) == hasattr(p, 'fast_decay'), 'an unstable species has a lifetime', key=e['x'])
        ctx.count(part='species')
    for e in ctx.tlc('Library', init='InitSterile', invariants=['EmitSterile']).emitted:
        key = 'N %s m=%s' % ('Majorana' if e['maj'] else 'Dirac', e['m'])
        with ctx.guard('species', key=key):
            p = libspecies.sterile(e['m'] * 1e-3 * UNITS.MeV, e['maj'])
            got = dict(q=p.Q, m=round(p.mass / UNITS.MeV * 1e3), maj=bool(p.majorana), fast=hasattr(p, 'fast_decay'), dof=p.dof, fermion=p.statistics is ST.FERMION)
            for k, v in got.items():
                ctx.expect(v == e[k], 'species/' + k, key=key, got=v, want=e[k])
        ctx.count(part='species')
    from library.SM import particles as SMP
    ckm = ctx.tlc('Library', init='InitCKM', invariants=['CKMUnitary', 'EmitCKM']).emitted[0]['ckm']
    for i in range(3):
        for j in range(3):
            with ctx.guard('quark mixing'):
                v = SMP.quarks.CKM[(i + 1, j + 1)]
                ctx.expect(abs(v - ckm[i][j] * 1e-3) < 2e-3 and abs(v - ckm[i][j] * 1e-3) < 0.1 * v, 'quark mixing', key='%d%d' % (i + 1, j + 1), got=v, want=ckm[i][j] * 1e-3)


def kinds():
    from interactions.four_particle.cpp.integral import CollisionIntegralKind as K
    return K


def build(c, world, thetas, kind):
    from library.SM import interactions as SMI
    from library.NuMSM import interactions as NuI
    nus = [world[x] for x in sorted(c['nus'])]
    leps = [world[x] for x in sorted(c['leps'])]
    had = [world[x] for x in sorted(c['had'])]
    b = c['builder']
    if b == 'sm_neutrinos':
        return SMI.neutrino_interactions(leptons=leps, neutrinos=nus, kind=kind)
    if b == 'sm_leptons':
        return SMI.lepton_interactions(leptons=leps, neutrinos=nus, kind=kind)
    if b == 'baryons':
        return [SMI.baryons_interaction(neutron=world['n'], proton=world['p'], neutrino=world['ne'], electron=world['e'])]
    if b == 'sterile_leptons':
        return NuI.sterile_leptons_interactions(thetas=thetas, sterile=world['N'], neutrinos=nus, leptons=leps, kind=kind)
    if b == 'sterile_quarks':
        return NuI.sterile_quark_interactions(thetas=thetas, sterile=world['N'], neutrinos=nus, leptons=leps, quarks=had, kind=kind)
    if b == 'sterile_hadrons':
        return NuI.sterile_hadrons_interactions(thetas=thetas, sterile=world['N'], neutrinos=nus, leptons=leps, mesons=had, kind=kind)


def cls(first, left, right):
    return first, tuple(sorted(left)), tuple(sorted(right))


def want_of(offers, procs, maj, mN, env, thetas, CONST):
    out = {}
    for p in offers:
        sp = p['sp']
        four = len(sp) == 4
        scale = (32. * CONST.G_F**2 if four else 1.) * (thetas[p['mix']]**2 if p['mix'] != '-' else 1.)
        ks = [(ev(a['K1'], env) * scale, ev(a['K2'], env) * scale) for a in p['amp']]
        for r in procs[(freeze(p), maj, mN)]:
            left = [sp[i - 1] for i in r['left']]
            right = [x for i, x in enumerate(sp, 1) if i not in r['left']]
            k = cls(sp[r['first'] - 1], left, right) + (r['kind'],)
            d = out.setdefault(k, (defaultdict(float), defaultdict(float)))
            lab = {i: crossing.label(None, -1 if i in r['left'] else 1, x, i == r['first']) for i, x in enumerate(sp, 1)}
            for a, (k1, k2), s in zip(p['amp'], ks, r['sign']):
                if four:
                    crossing.add(d, [lab[i] for i in a['o']], k1, s * k2)
                else:
                    d[0]['K'] += k1
    return out


def got_of(inters, kind):
    K = kinds()
    names = {int(getattr(K, n)): n for n in ('F_creation', 'F_decay')}
    out = {}
    for inter in inters:
        for it in inter.integrals:
            left = [i.specie.tag for i in it.reaction if i.side == -1]
            right = [i.specie.tag for i in it.reaction if i.side == 1]
            kd = 'given' if int(it.kind) == int(kind) else names.get(int(it.kind), 'other')
            k = cls(it.particle.tag, left, right) + (kd,)
            d = out.setdefault(k, (defaultdict(float), defaultdict(float)))
            lab = [crossing.label(None, x.side, x.specie.tag, n == 0) for n, x in enumerate(it.reaction)]
            for M in it.Ms:
                if len(it.reaction) == 4:
                    crossing.add(d, [lab[i] for i in M.order], M.K1, M.K2)
                else:
                    d[0]['K'] += M.K
    return out


def same(a, b):
    for x, y in zip(a, b):
        top = max([abs(v) for v in x.values()] + [abs(v) for v in y.values()] + [0.])
        for k in set(x) | set(y):
            if abs(x.get(k, 0.) - y.get(k, 0.)) > 1e-9 * top:
                return False
    return True


def one(ctx, c, offers, procs, maj, mN, env0, UNITS, n):
    from common import CONST
    from interactions.four_particle import FourParticleIntegral
    from interactions.three_particle import ThreeParticleIntegral
    K = kinds()
    key = '%s nus=%s leptons=%s thetas=%s hadrons=%s majorana=%s mN=%s' % (c['builder'], sorted(c['nus']), sorted(c['leps']), sorted(c['th']), sorted(c['had']), maj, mN)
    names = sorted(set(c['nus']) | set(c['leps']) | set(c['had']) | ({'n', 'p', 'e', 'ne'} if c['builder'] == 'baryons' else set()))
    kind = (K.Full, K.F_1, K.F_f, K.F_1_vacuum_decay)[n % 4] if c['builder'] != 'baryons' else K.Full
    with ctx.guard('library', key=key):
        world = {x: libspecies.particle(x) for x in names}
        if mN:
            world['N'] = libspecies.sterile(mN * 1e-3 * UNITS.MeV, maj)
        thetas = {f: (TH[f] if f in c['th'] else 0.) for f in TH}
        env = dict(env0)
        for x, p in world.items():
            env['m_' + x] = p.mass
            env['f_' + x] = getattr(p, 'decay_constant', 0.)
        with quiet():
            inters = build(c, world, thetas, kind)
        got = got_of(inters, kind)
        want = want_of(offers, procs, maj, mN, env, thetas, CONST)
        ctx.expect(set(got) == set(want), 'which integrals there are', key=key, missing=sorted(set(want) - set(got))[:4], extra=sorted(set(got) - set(want))[:4])
        for k in set(got) & set(want):
            if not ctx.expect(same(got[k], want[k]), 'amplitude', key=key, integral=str(k), got=[dict(x) for x in got[k]], want=[dict(x) for x in want[k]]):
                break
        for inter in inters:
            for it in inter.integrals:
                q = sum(x.side * (-1 if x.antiparticle else 1) * x.specie.Q for x in it.reaction)
                ctx.expect(abs(q) < 1e-9, 'electric charge is conserved', key=key, integral=str(it))
                ctx.expect(type(it) is (FourParticleIntegral if len(it.reaction) == 4 else ThreeParticleIntegral), 'type of the integral', key=key)
    ctx.count(part='builders')
    ctx.sample(key)


def direct(ctx, UNITS, CONST, env0):
    """ mixing enters squared, and through the flavour that mixes only """
    from library.NuMSM import interactions as NuI
    K = kinds()
    for mN in (30., 900.):
        world = {x: libspecies.particle(x) for x in ('ne', 'nm', 'nt', 'e', 'mu', 'tau', 'u', 'd', 's', 'pi0', 'pi', 'rho0', 'rho')}
        world['N'] = libspecies.sterile(mN * UNITS.MeV, False)
        c = dict(nus=['ne', 'nm', 'nt'], leps=['e', 'mu', 'tau'])
        for b, had in (('sterile_leptons', []), ('sterile_quarks', ['u', 'd', 's']), ('sterile_hadrons', ['pi0', 'pi', 'rho0', 'rho'])):
            c.update(builder=b, had=had)
            with ctx.guard('mixing', key='%s %s' % (b, mN)):
                parts = []
                for f in TH:
                    parts.append(got_of(build(c, world, {g: (TH[g] if g == f else 0.) for g in TH}, K.Full), K.Full))
                both = got_of(build(c, world, TH, K.Full), K.Full)
                total = {}
                for p in parts:
                    for k, v in p.items():
                        d = total.setdefault(k, (defaultdict(float), defaultdict(float)))
                        for x, y in zip(d, v):
                            for kk, vv in y.items():
                                x[kk] += vv
                ctx.expect(set(total) == set(both) and all(same(both[k], total[k]) for k in both), 'flavours add up', key='%s %s' % (b, mN))
                double = got_of(build(c, world, {f: 2. * t for f, t in TH.items()}, K.Full), K.Full)
                ctx.expect(set(double) == set(both) and all(same(double[k], tuple({a: 4. * v for a, v in x.items()} for x in both[k])) for k in both),
                           'mixing enters squared', key='%s %s' % (b, mN))
            ctx.count(part='mixing')
