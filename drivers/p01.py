"""P01: recorded time series are faithful, append-only tables."""
import io

import numpy

import pybbn
import terms

FLOOR = 500
ASSUMPTIONS = ['truncate is only exercised on non-empty tables',
               'cell values are exactly representable floats']


def stores(utils, width):
    columns = [['c%d' % i, 'u%d' % i if i % 2 else None, float(2 ** i)] for i in range(1, width + 1)]
    header = [float(i) for i in range(1, width + 1)]

    class Two(object):
        name = '2d'
        new = staticmethod(lambda: utils.Dynamic2DArray(numpy.array(header)))

        @staticmethod
        def make(cells, how):
            return numpy.array(cells, dtype=float) if how % 2 else [float(c) for c in cells]

        @staticmethod
        def cells(row):
            return [float(x) for x in row]

    class Rec(object):
        name = 'record'
        new = staticmethod(lambda: utils.DynamicRecArray([list(c) for c in columns]))

        @staticmethod
        def make(cells, how):
            if how % 2:
                return tuple(float(c) for c in cells)
            return {c[0]: float(v) for c, v in reversed(list(zip(columns, cells)))}

        @staticmethod
        def cells(row):
            return [float(row[c[0]]) for c in columns]

    return (Two, Rec), columns, header


def cell(i, col):
    return 100 * i + 7 * col + 3


def observe(ctx, kind, st, rows, width, columns, key, full=True):
    n = len(rows)
    want = [[float(cell(i, c)) for c in range(1, width + 1)] for i in rows]
    ok = ctx.expect(len(st) == n, 'length', key=key, got=len(st), want=n)
    got = [kind.cells(r) for r in st.data]
    ok &= ctx.expect(got == want, 'contents', key=key, got=got[-3:], want=want[-3:])
    if not ok:
        return False
    probes = range(-n, n) if full and n < 30 else sorted({0, n - 1, -1, -n, n // 2, -(n // 2) - 1} if n else set())
    for i in probes:
        if not -n <= i < n:
            continue
        if not ctx.expect(kind.cells(st[i]) == want[i], 'index', key=key, index=i, got=kind.cells(st[i]), want=want[i]):
            return False
    for i in (n, -n - 1):
        try:
            r = st[i]
        except IndexError:
            continue
        ctx.fail('index past the end', key=key, index=i, got=str(r))
        return False
    if kind.name == 'record':
        for c in range(1, width + 1):
            col = [float(x) for x in st[columns[c - 1][0]]]
            if not ctx.expect(col == [w[c - 1] for w in want], 'column', key=key, column=c, got=col[-3:]):
                return False
    else:
        tail = [kind.cells(r) for r in st[-5:]]
        if not ctx.expect(tail == want[-5:], 'tail slice', key=key, got=tail):
            return False
    return True


def exports(ctx, kind, st, rows, width, columns, header, key):
    want = numpy.array([[float(cell(i, c)) for c in range(1, width + 1)] for i in rows])
    f = io.BytesIO()
    st.savetxt(f)
    text = f.getvalue().decode().splitlines()
    head = text[0]
    names = head.lstrip('#').strip().split('\t')
    body = [[float(x) for x in line.split('\t')] for line in text[1:]]
    ctx.expect(len(body) == len(rows), 'export/rows', key=key, got=len(body), want=len(rows))
    if kind.name == 'record':
        units = [c[2] for c in columns]
        ctx.expect([x.split(',')[0] for x in names] == [c[0] for c in columns], 'export/header', key=key, got=head)
        ctx.expect([x.split(',')[1].strip() if ',' in x else None for x in names] == [c[1] for c in columns],
                   'export/units', key=key, got=head)
        if body:
            ctx.expect(terms.close(body, want / units, rtol=1e-12), 'export/values', key=key, got=body[-1])
            for names_on in (False, True):
                r = st.row_repr(-1, names=names_on).split('\t')
                vals = [float(x.split('=')[1].split()[0]) if names_on else float(x) for x in r]
                ctx.expect(terms.close(vals, want[-1] / units, rtol=6e-3 if names_on else 1e-6),
                           'export/row text', key=key, got=r)
            r0 = [float(x) for x in st.row_repr(0).split('\t')]
            ctx.expect(terms.close(r0, want[0] / units, rtol=1e-6), 'export/first row text', key=key, got=r0)
    else:
        ctx.expect([float(x) for x in names] == header, 'export/header', key=key, got=head)
        if body:
            ctx.expect(terms.close(body, want, rtol=1e-12), 'export/values', key=key, got=body[-1])


def apply_op(kind, st, op, n, state, width):
    """ Perform one operation on the real table; returns the ids after it. """
    nxt, rows = state
    if op == 'append':
        row = kind.make([cell(nxt, c) for c in range(1, width + 1)], nxt)
        st.append(row)
        spoil(row)
        return nxt + 1, rows + [nxt]
    if op == 'extend':
        ids = list(range(nxt, nxt + n))
        new = [kind.make([cell(i, c) for c in range(1, width + 1)], i) for i in ids]
        st.extend(new)
        for r in new:
            spoil(r)
        return nxt + n, rows + ids
    if op == 'truncate':
        for _ in range(n):
            st.truncate()
        return nxt, rows[:-n] if n else rows
    raise ValueError(op)


def spoil(row):
    """ The caller goes on using its own buffer: the table must have taken a copy. """
    if isinstance(row, numpy.ndarray):
        row += 12345.
    elif isinstance(row, dict):
        for k in row:
            row[k] = -1.
    elif isinstance(row, list):
        row[:] = [-1.] * len(row)


ODD = [float('nan'), float('inf'), -float('inf'), 0., -0., 5e-324, 1.7e308, -1e-300, 1. / 3., 2.**53 + 2]
UNITS = [1e-24, 1e-9, 1., 1e22, 4.3e-18]


def same(a, b):
    return numpy.asarray(a, dtype=float).tobytes() == numpy.asarray(b, dtype=float).tobytes()


def unusual(ctx, utils):
    """ any floating-point value is kept as it is, and exported in any unit """
    n = len(UNITS)
    rows = [[ODD[(i * (c + 1) + c) % len(ODD)] for c in range(n)] for i in range(30)]
    head = [1., 0., 2.5e-9, 1e9, -1.]
    two, rec = utils.Dynamic2DArray(numpy.array(head)), utils.DynamicRecArray([['c%d' % c, 'u', UNITS[c]] for c in range(n)])
    with ctx.guard('unusual values'):
        for r in rows:
            two.append(numpy.array(r))
            rec.append({'c%d' % c: v for c, v in enumerate(r)})
        for i, r in enumerate(rows):
            ctx.expect(same(list(two[i]), r) and same(list(two.data[i]), r), 'unusual values', key='2d', row=i, got=list(two[i]), want=r)
            ctx.expect(same(list(rec[i]), r), 'unusual values', key='record', row=i, got=list(rec[i]), want=r)
            text = [float(x) for x in rec.row_repr(i).split('\t')]
            want = numpy.array(r) / UNITS
            ctx.expect(all(terms.close(a, b, 1e-6, 1e-306) or same(a, b) or abs(b) == numpy.inf == abs(a) or (a != a and b != b)
                           for a, b in zip(text, want)), 'unusual values/text', row=i, got=text, want=list(want))
        for c in range(n):
            ctx.expect(same(rec['c%d' % c], [r[c] for r in rows]), 'unusual values', key='column %d' % c)
        for name, st, units in (('2d', two, numpy.ones(n)), ('record', rec, numpy.array(UNITS))):
            f = io.BytesIO()
            st.savetxt(f)
            got = numpy.array([[float(x) for x in l.split('\t')] for l in f.getvalue().decode().splitlines()[1:]])
            want = numpy.array(rows) / units
            ok = got.shape == want.shape and all((a != a and b != b) or a == b or abs(a - b) <= 1e-12 * abs(b) for a, b in zip(got.ravel(), want.ravel()))
            ctx.expect(ok, 'unusual values/export', key=name)
        ctx.count(len(rows), part='unusual values')


def long_run(ctx, utils, width):
    """ a table of any length: the specification's rows are 1..n after n appends """
    kinds, columns, header = stores(utils, width)
    n = 200000 if ctx.thorough else 20000
    want = numpy.array([[float(cell(i, c)) for c in range(1, width + 1)] for i in range(1, n + 1)])
    for kind in kinds:
        with ctx.guard('long table', key=kind.name):
            st = kind.new()
            for i in range(n):
                st.append(want[i] if kind.name == '2d' else tuple(want[i]))
                if i in (999, 4999, n // 2):
                    got = numpy.array([list(r) for r in st.data])
                    ctx.expect(same(got, want[:i + 1]), 'long table', key='%s after %d' % (kind.name, i + 1))
            for _ in range(3):
                st.truncate()
            got = numpy.array([list(r) for r in st.data])
            ctx.expect(len(st) == n - 3 and same(got, want[:n - 3]), 'long table', key='%s after %d' % (kind.name, n))
            ctx.expect(kind.cells(st[-1]) == list(want[n - 4]) and kind.cells(st[0]) == list(want[0]), 'long table/ends', key=kind.name)
        ctx.count(part='long tables')


def check(ctx):
    pybbn.paths()
    from common import utils
    width = 3
    consts = dict(Chunks=[2, 7, 12], Cuts=[1, 3], MaxLen=70, MaxOps=5, Width=width)
    consts = {k: (set(v) if isinstance(v, list) else v) for k, v in consts.items()}
    # the specification itself, exhaustively
    ctx.tlc('Series', constants=dict(consts, MaxOps=6 if ctx.thorough else 5), spec='Spec',
            invariants=['LengthIsNet', 'Chronological', 'NegativeFromEnd'], properties=['PastNeverChanges'],
            workers=4)
    runs = ctx.tlc('Series', constants=dict(consts, MaxOps=6 if ctx.thorough else 5), invariants=['Emit']).emitted
    runs += ctx.tlc('Series', constants=dict(consts, MaxOps=40, MaxLen=120), invariants=['Emit'],
                    simulate=400 if ctx.thorough else 60, depth=41, seed=ctx.seed).emitted
    kinds, columns, header = stores(utils, width)
    for kind in kinds:
        for r in runs:
            st = kind.new()
            state = (1, [])
            key = '%s %s' % (kind.name, r['hist'])
            with ctx.guard('table operation', key=key):
                good = observe(ctx, kind, st, [], width, columns, key)
                for k, (op, n) in enumerate(r['hist']):
                    state = apply_op(kind, st, op, n, state, width)
                    if len(r['hist']) < 10 and k < len(r['hist']) - 1:
                        continue        # prefixes are behaviours of their own
                    good = good and observe(ctx, kind, st, state[1], width, columns, key)
                    if not good:
                        break
                if good:
                    if state[1] != r['rows']:
                        raise RuntimeError('driver bookkeeping differs from the specification')
                    observe(ctx, kind, st, r['rows'], width, columns, key)
                    exports(ctx, kind, st, r['rows'], width, columns, header, key)
            ctx.count(part='specification behaviours (%s)' % kind.name)
        ctx.sample({'store': kind.name, 'history': runs[len(runs) // 2]['hist'], 'rows': runs[len(runs) // 2]['rows']})
    unusual(ctx, utils)
    long_run(ctx, utils, width)
    # the other direction: long random histories of the real tables, judged by the specification
    traces, tags = [], []
    for kind in kinds:
        for t in range(40 if ctx.thorough else 8):
            st, state, events = kind.new(), (1, []), []
            with ctx.guard('table operation', key='random %s %d' % (kind.name, t)):
                for _ in range(300 if ctx.thorough else 120):
                    op = ctx.rng.choice(['append'] * 5 + ['extend', 'truncate', 'read'])
                    n = {'append': 1, 'extend': ctx.rng.randint(0, 9), 'truncate': min(ctx.rng.randint(1, 6), len(state[1])),
                         'read': 0}[op]
                    if op == 'truncate' and n == 0:
                        op, n = 'append', 1
                    if op != 'read':
                        state = apply_op(kind, st, op, n, state, width)
                    ids = [int((kind.cells(x)[0] - 10) // 100) for x in st.data]
                    whole = all(kind.cells(x) == [cell(i, c) for c in range(1, width + 1)] for i, x in zip(ids, st.data))
                    events.append({'op': op, 'n': n, 'len': len(st), 'first': ids[0] if ids else 0,
                                   'last': ids[-1] if ids else 0, 'sum': sum(ids) if whole else -1})
            traces.append(events)
            tags.append(kind.name)
    for rec in ctx.validate('SeriesTrace', traces, invariants=['Emit']).emitted:
        ctx.count(part='recorded histories validated')
        ctx.expect(not rec['bad'], 'recorded history', key=tags[rec['tr'] - 1], verdict=rec['bad'])
