"""Access to the code under test: builds the C++ extensions from /repo's current tree with the
shim headers, puts /repo on the path and imports the real Python packages."""
import hashlib
import importlib
import importlib.util
import os
import subprocess
import sys
import sysconfig
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIM = os.path.join(VERIF, 'shim')
CACHE = os.path.join(VERIF, 'build')

# variants of the integrator the Makefile does not compile
NOT_COMPILED = {'adaptive_gauss_kronrod.cpp', 'adaptive_gauss_kronrod_infinite.cpp', 'cquad.cpp',
                'nonadaptive_grauss_kronrod.cpp', 'simpson.cpp', 'trapezoidal.cpp'}


class BuildError(Exception):
    pass


def _sources(kind):
    d = os.path.join(REPO, 'interactions', kind, 'cpp')
    cpp = sorted(f for f in os.listdir(d) if f.endswith('.cpp') and f not in NOT_COMPILED)
    return d, [os.path.join(d, f) for f in cpp]


def _digest(d):
    h = hashlib.sha256()
    for root in (d, SHIM, os.path.join(SHIM, 'pybind11'), os.path.join(SHIM, 'gsl')):
        for f in sorted(os.listdir(root)):
            p = os.path.join(root, f)
            if os.path.isfile(p) and f.endswith(('.cpp', '.h', '.hpp')):
                h.update(f.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    return h.hexdigest()[:24]


def build(threads=False):
    """ Compile both extensions (in parallel); returns {kind: path}. """
    os.makedirs(CACHE, exist_ok=True)
    out, jobs = {}, []
    for kind in ('four_particle', 'three_particle'):
        d, src = _sources(kind)
        target = os.path.join(CACHE, '%s-%s%s.so' % (kind, 'threads-' if threads else '', _digest(d)))
        out[kind] = target
        if os.path.exists(target):
            continue
        fd, tmp = tempfile.mkstemp(suffix='.so', dir=CACHE)
        os.close(fd)
        cmd = ['g++', '-std=c++14', '-O1', '-fPIC', '-shared', '-fvisibility=hidden', '-w',
               '-Wl,-Bsymbolic', '-I' + SHIM, '-I' + d, '-I' + sysconfig.get_paths()['include'],
               '-o', tmp] + src + (['-fopenmp'] if threads else [])
        jobs.append((subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT), tmp, target, kind))
    for p, tmp, target, kind in jobs:
        log = p.communicate()[0].decode(errors='replace')
        if p.returncode:
            os.unlink(tmp)
            raise BuildError('%s extension does not compile:\n%s' % (kind, log[-3000:]))
        os.rename(tmp, target)
    return out


_loaded = False


def paths():
    """ Make /repo's pure Python modules importable (no extension is built). """
    sys.dont_write_bytecode = True
    os.environ.setdefault('MPLBACKEND', 'Agg')
    os.environ.setdefault('MPLCONFIGDIR', tempfile.gettempdir())
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def load(threads=False):
    """ Make /repo importable, with the real compiled extensions installed: in this process without
        threads, as an exception leaving a parallel region ends the process. """
    global _loaded
    if _loaded:
        return
    paths()
    for kind, path in build(threads).items():
        name = 'interactions.%s.cpp.integral' % kind
        spec = importlib.util.spec_from_file_location(name, path)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        sys.modules[name] = mod
    _loaded = True


def cpp(kind='four_particle'):
    load()
    return sys.modules['interactions.%s.cpp.integral' % kind]
