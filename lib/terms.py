"""Evaluator of the expression trees emitted by the specifications (spec/Terms.tla).  Generic: it
knows arithmetic, not pyBBN."""
import math

import numpy

_GL = {}


def _gauss(n):
    if n not in _GL:
        _GL[n] = numpy.polynomial.legendre.leggauss(n)
    return _GL[n]


def _pow(a, b):
    return a ** b


FUN = {
    'sqrt': numpy.sqrt, 'exp': numpy.exp, 'log': numpy.log, 'abs': numpy.abs, 'sin': numpy.sin,
    'cos': numpy.cos, 'atan': numpy.arctan, 'sign': numpy.sign,
}


def ev(t, env):
    op = t[0]
    if op == 'q':
        return t[1] / t[2]
    if op == 'dec':
        return float(t[1])
    if op == 'v':
        return env[t[1]]
    if op == 'pi':
        return math.pi
    if op == '+':
        r = ev(t[1], env)
        for x in t[2:]:
            r = r + ev(x, env)
        return r
    if op == '*':
        r = ev(t[1], env)
        for x in t[2:]:
            r = r * ev(x, env)
        return r
    if op == '-':
        return ev(t[1], env) - ev(t[2], env)
    if op == '/':
        return ev(t[1], env) / ev(t[2], env)
    if op == '^':
        return _pow(ev(t[1], env), ev(t[2], env))
    if op in FUN:
        with numpy.errstate(all='ignore'):
            return FUN[op](ev(t[1], env))
    if op == 'max':
        return numpy.maximum(ev(t[1], env), ev(t[2], env))
    if op == 'min':
        return numpy.minimum(ev(t[1], env), ev(t[2], env))
    if op == 'if':
        c = ev(t[1], env)
        if isinstance(c, numpy.ndarray):
            return numpy.where(c, ev(t[2], env), ev(t[3], env))
        return ev(t[2], env) if c else ev(t[3], env)
    if op == '<':
        return ev(t[1], env) < ev(t[2], env)
    if op == '<=':
        return ev(t[1], env) <= ev(t[2], env)
    if op == 'and':
        return numpy.logical_and(ev(t[1], env), ev(t[2], env))
    if op == 'let':
        e = env.copy() if hasattr(env, 'funcs') else dict(env)
        e[t[1]] = ev(t[2], env)
        return ev(t[3], e)
    if op == 'int':
        _, name, body, lo, hi = t
        lo, hi = ev(lo, env), ev(hi, env)
        # composite Gauss-Legendre, far finer than anything the code under test uses
        x, w = _gauss(40)
        edges = numpy.linspace(lo, hi, 41)
        e = env.copy() if hasattr(env, 'funcs') else dict(env)
        total = 0.
        for a, b in zip(edges[:-1], edges[1:]):
            e[name] = (b - a) / 2 * x + (b + a) / 2
            v = ev(body, e)
            total += (b - a) / 2 * numpy.dot(v * numpy.ones(len(x)), w)
        return total
    raise ValueError('unknown operator %r' % (op,))


def close(a, b, rtol=1e-9, atol=0.):
    """ Componentwise agreement; NaN agrees with nothing. """
    a, b = numpy.asarray(a, dtype=float), numpy.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(numpy.all((a == b) | (numpy.abs(a - b) <= atol + rtol * numpy.maximum(numpy.abs(a), numpy.abs(b)))))
