"""Real species of the particle library, by the names of the specifications."""
import pybbn

HADRONS = dict(n='neutron', p='proton', pi0='neutral_pion', pi='charged_pion', K='charged_kaon', KL='kaon_long', KS='kaon_short', eta='eta',
               rho='charged_rho', rho0='neutral_rho', omega='omega', etap='eta_prime', phi='phi')
LEPTONS = dict(ne='neutrino_e', nm='neutrino_mu', nt='neutrino_tau', e='electron', mu='muon', tau='tau')
QUARKS = dict(u='up', d='down', c='charm', s='strange', t='top', b='bottom')


def templates():
    pybbn.load()
    from library.SM import particles as P
    out = dict(gam=P.photon, g=P.gluon)
    for names, group in ((HADRONS, P.hadrons), (LEPTONS, P.leptons), (QUARKS, P.quarks)):
        for k, v in names.items():
            out[k] = getattr(group, v)
    return out


def particle(name, **kw):
    from particles import Particle
    d = dict(templates()[name])
    d.update(kw)
    p = Particle(**d)
    p.tag = name
    return p


def sterile(mass, majorana, **kw):
    from particles import Particle
    from library.NuMSM import particles as P
    d = dict((P.sterile_neutrino if majorana else P.dirac_sterile_neutrino)(mass=mass))
    d.update(kw)
    p = Particle(**d)
    p.tag = 'N'
    return p
