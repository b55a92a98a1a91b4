"""The kernels in threads (separate process: an exception inside a parallel region ends it)."""
import ctypes
import json
import os
import sys
import traceback

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pybbn      # noqa: E402
pybbn.load(threads=True)
from p18 import make, kind_of, TEMPS, SHARP      # noqa: E402

CLAUSE = 'the kernel at one momentum is independent of the others'


def put(ok, **details):
    print(json.dumps(dict(clause=CLAUSE, ok=bool(ok), **details)))


def threads(n):
    ctypes.CDLL('libgomp.so.1').omp_set_num_threads(n)


def main():
    ps = [0.2, 5.5, 1.1, 0.4, 3., 8., 0., 2.1, 0.7]
    jobs = []
    for sides, m in (([-1, -1, 1, 1], [0, 0, 1, 1]), ([-1, -1, 1, 1], [1, 0, 2, 1]), ([-1, -1, 1, 1], [1, 1, 0, 0]), ([-1, 1, 1, 1], [8, 1, 2, 3]), ([-1, -1, -1, 1], [1, 2, 3, 10])):
        for amp in (dict(order=[0, 1, 2, 3], K1=1., K2=0.5, K=0.), dict(order=[0, 1, 2, 3], K1=0., K2=0., K=1.)):
            jobs.append(('four', sides, m, amp, 'F_creation'))
    # a threshold that takes the first particle beyond the end of the grid
    jobs.append(('four', [-1, -1, 1, 1], [0, 1, 4, 3], dict(order=[0, 1, 2, 3], K1=4., K2=0., K=0.), 'F_1_vacuum_decay'))
    for sides, m in (([-1, 1, 1], [10, 3, 4]), ([-1, 1, 1], [10, 6, 0]), ([-1, -1, 1], [0, 3, 10]), ([-1, -1, 1], [2, 3, 10]), ([-1, -1, 1], [1, 4, 6])):
        jobs.append(('three', sides, m, None, 'F_creation'))
    for what, sides, m, amp, kind in jobs:
        c = dict(sides=sides, m=m, stat=['F'] * len(m), eq=[0] * len(m))
        if what == 'four':
            I = pybbn.cpp('four_particle')
            reac, _ = make(I, '', c, TEMPS, 1.)
            run = lambda q, acc=1e9: list(I.integration(q, 0., 14., 0., 14., 9., reac, [I.M_t(**amp)], acc, kind_of(I, '', kind)))
        else:
            I = pybbn.cpp('three_particle')
            reac, _ = make(I, '3', c, TEMPS, 1.)
            run = lambda q, acc=1e14: list(I.integration_3(q, 0., 30., 30., reac, acc, kind_of(I, '_3', kind)))
        q = [x for x in ps if x or m[0]]
        key = '%s %s %s' % (sides, m, 'flat' if amp and amp['K'] else '')
        threads(1)
        one = {x: run([x])[0] for x in q}
        lists = [(order, n) for n in (1, 8) for order in (q, q[::-1])]
        with open(sys.argv[1]) as fh:
            lists += [([(0.4, 2.1, 5.5)[i - 1] for i in ps_], n) for ps_, n in json.load(fh)]
        for order, n in lists:
            threads(n)
            got = run(order)
            want = [one[x] for x in order]
            put(len(got) == len(want) and all(abs(a - b) <= SHARP * abs(b) + 1e-9 for a, b in zip(got, want)), key=key, threads=n, ps=order, got=got, want=want)
        # threads racing for shared bounds would mix those of different momenta: many cheap evaluations, of low accuracy
        big = [0.2 + 0.02 * ((37 * i) % 300) for i in range(300)]
        one = [run([x], 1e-4)[0] for x in big]
        for k in range(int(sys.argv[2])):
            got = run(big, 1e-4)
            bad = [x for x, a, b in zip(big, got, one) if not abs(a - b) <= 1e-6 * abs(b) + 1e-12]
            put(not bad, key=key, threads=8, p=bad[:5])
            if bad:
                break


try:
    main()
except Exception:
    sys.stdout.flush()
    sys.stderr.write(traceback.format_exc())
    sys.exit(3)
