"""C11: broadcasting and linear algebra agree with numpy."""
import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure
from lib.data import (TYPES, Table, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, names, snapshot,
                      sparse_ok, stirred, tables, value_of)
from props.c10 import (DIV, LOGIC, NUM, OPS, elements, exponents, make,
                       merged, nonzero, positive, relation)

N = nimble.exceptions


def vals_for(draw, op, right):
    """Values that keep the operator defined, most of the time."""
    if draw(st.integers(0, 9)) == 0:
        return value_of(draw(st.sampled_from(NUM)))
    if op in DIV and right:
        return nonzero[draw(st.sampled_from(NUM))]
    if op == '**':
        return (exponents if right else positive)[
            draw(st.sampled_from(('int', 'float')))]
    if op in LOGIC:
        return draw(st.sampled_from([st.booleans(), st.integers(0, 1)]))
    return value_of(draw(st.sampled_from(NUM)))


def some_names(draw, n, plain):
    return None if plain else draw(names(n))


@st.composite
def stretching(draw):
    op = draw(st.sampled_from(sorted(OPS) * 2 + sorted(LOGIC)))
    form = draw(st.sampled_from(['table v', 'v table', 'v w', 'w v']))
    p, f = draw(st.integers(2, 4)), draw(st.integers(2, 4))
    axis = draw(st.sampled_from(['point', 'feature']))
    plain = draw(st.integers(0, 2)) > 0

    def tab(r, c, right, plain):
        v = vals_for(draw, op, right)
        return {'rows': [[draw(v) for _ in range(c)] for _ in range(r)],
                'f': c, 'pn': some_names(draw, r, plain),
                'fn': some_names(draw, c, plain)}
    vshape = (1, f) if axis == 'point' else (p, 1)
    case = {'op': op, 'form': form, 'axis': axis,
            'v': tab(*vshape, form in ('table v', 'w v'), plain)}
    if 'table' in form:
        case['o'] = tab(p, f, form == 'v table', False)
    else:
        oshape = (p, 1) if axis == 'point' else (1, f)
        case['o'] = tab(*oshape, form == 'v w', plain)
    case['vtype'] = draw(st.sampled_from(TYPES))
    case['otype'] = draw(st.sampled_from(TYPES))
    case['stir'] = draw(st.integers(0, 63))
    return case


def grow(rows, p, f):
    if len(rows) == 1:
        rows = rows * p
    return [list(r) * f if len(r) == 1 else list(r) for r in rows]


def check_stretch(case, ctx):
    """
    one operator on a stretched object and a table or another stretched
    object; non-trivial = a result of at least four cells came out
    """
    op, form = case['op'], case['form']
    v = make(case['v'], case['vtype'], False, case['stir'])
    o = make(case['o'], case['otype'], False, case['stir'] // 8)
    vt, ot = Table.of(case['v']), Table.of(case['o'])
    p, f = max(vt.np, ot.np), max(vt.nf, ot.nf)
    vrows, orows = grow(vt.rows, p, f), grow(ot.rows, p, f)
    vs, os_ = snapshot(v), snapshot(o)
    if form in ('table v', 'w v'):
        lrows, rrows = orows, vrows
    else:
        lrows, rrows = vrows, orows
    what = '%s (%s %s with %s)' % (form.replace(' ', ' ' + op + ' '),
                                   case['axis'], v.getTypeString(),
                                   o.getTypeString())
    if op in LOGIC:
        bad = not all(x in (0, 1) for r in lrows + rrows for x in r)
        want = 'values' if bad else [
            [bool(LOGIC[op](bool(a), bool(b))) for a, b in zip(x, y)]
            for x, y in zip(lrows, rrows)]
        run = LOGIC[op]
    else:
        want = elements(op, 'obj', lrows, rrows)
        run = OPS[op]
    if 'table' in form:
        key = 'feature' if case['axis'] == 'point' else 'point'
        refuse = any(x is not None and y is not None and x != y for x, y in
                     zip(vt.anames(key), ot.anames(key)))
        differ = relation(vt.anames(key), ot.anames(key)) == 'different'
    else:
        refuse = differ = False
    left = o if form == 'table v' else (
        v.stretch if form[0] == 'v' else o.stretch)
    right = v.stretch if form[-1] == 'v' else (
        o if 'table' in form else o.stretch)
    try:
        got = run(left, right)
        raised = None
    except Exception as e:
        raised = e
    ensure_same_snapshot(vs, v, what + ': stretched operand')
    ensure_same_snapshot(os_, o, what + ': other operand')
    if isinstance(want, str) or refuse:
        ctx.label('refused ' + (want if isinstance(want, str) else 'names'))
        if want == 'overflow':
            return
        ensure(raised is not None, what, vt, ot, 'was accepted:', want)
        if not isinstance(raised, (ZeroDivisionError,
                                   N.ImproperObjectAction,
                                   N.InvalidArgumentValue)):
            raise raised
        return
    if raised is not None:
        if differ and isinstance(raised, N.InvalidArgumentValue):
            ctx.label('refused for names')
            return
        raise raised
    ensure_table(got, Table(want, None, None, f), what + ' %r %r'
                 % (vt, ot), tol=1e-12, names=False)
    ltype = (o if form[0] in 'tw' else v).getTypeString()
    ensure(got.getTypeString() == ltype, what, ': type',
           got.getTypeString(), 'expected', ltype)
    ensure_consistent(got, what)
    if 'table' in form and not any(vt.pn) and not any(vt.fn):
        ensure(got.points.getNames() == ot.pn, what, ': point names',
               got.points.getNames(), 'expected', ot.pn)
        ensure(got.features.getNames() == ot.fn, what, ': feature names',
               got.features.getNames(), 'expected', ot.fn)
    ctx.label(form + ' ' + op)
    ctx.nontrivial(p * f >= 4)


@st.composite
def multiplying(draw):
    p, k, f = (draw(st.integers(1, 4)) for _ in range(3))
    text = draw(st.integers(0, 9)) == 0

    def tab(r, c):
        v = value_of(draw(st.sampled_from(['int', 'float', 'bool'])))
        if text:
            v = st.sampled_from(['1', '2', 'a', 3])
        return {'rows': [[draw(v) for _ in range(c)] for _ in range(r)],
                'f': c, 'pn': draw(names(r)), 'fn': draw(names(c))}
    a, b = tab(p, k), tab(k, f)
    agree = draw(st.integers(0, 2))
    if agree == 0:
        b['pn'] = a['fn']
    elif agree == 1:
        b['pn'] = None
    return {'a': a, 'b': b, 'atype': draw(st.sampled_from(TYPES)),
            'btype': draw(st.sampled_from(TYPES)),
            'av': draw(st.booleans()), 'bv': draw(st.booleans()),
            'form': draw(st.sampled_from(['@', '@', 'method', '@=',
                                          'mismatch'])),
            'stir': draw(st.integers(0, 63))}


def check_matmul(case, ctx):
    """
    a matrix product of two generated tables; non-trivial = it was defined
    and at least one factor has four cells
    """
    form = case['form']
    a = make(case['a'], case['atype'], case['av'] and form != '@=',
             case['stir'])
    b = make(case['b'], case['btype'], case['bv'], case['stir'] // 8)
    at, bt = Table.of(case['a']), Table.of(case['b'])
    if form == 'mismatch':
        a, at = a.T, at.T()
    sa, sb = snapshot(a), snapshot(b)
    what = '%s %s %s' % (a.getTypeString(), form, b.getTypeString())
    text = any(isinstance(x, str) for r in at.rows + bt.rows for x in r)
    clash = any(x is not None and y is not None and x != y
                for x, y in zip(at.fn, bt.pn))
    differ = at.nf == bt.np and relation(at.fn, bt.pn) == 'different'
    atype = a.getTypeString()
    try:
        if form == 'method':
            got = a.matrixMultiply(b)
        elif form == '@=':
            got = a
            got @= b
        else:
            got = a @ b
        raised = None
    except Exception as e:
        raised = e
    ensure_same_snapshot(sb, b, what + ': right operand')
    if form != '@=' or raised is not None:
        ensure_same_snapshot(sa, a, what + ': left operand')
    if at.nf != bt.np or clash:
        ctx.label('refused')
        ensure(raised is not None, what, 'accepted', at, bt)
        if not text and not isinstance(raised, N.InvalidArgumentValue):
            raise raised
        return
    if text:
        # digits may be taken for numbers
        ctx.label('text')
        return
    if raised is not None:
        if differ and isinstance(raised, N.InvalidArgumentValue):
            return
        raise raised
    want = (np.array(at.rows, dtype=float) @ np.array(bt.rows, dtype=float))
    ensure_table(got, Table(want.tolist(), at.pn, bt.fn, bt.nf),
                 '%s %r %r' % (what, at, bt), tol=1e-12, rtype=atype)
    ensure_consistent(got, what)
    ctx.label(what)
    ctx.nontrivial(max(at.np * at.nf, bt.np * bt.nf) >= 4)


@st.composite
def square(draw):
    n = draw(st.integers(1, 5))
    kind = draw(st.sampled_from(['dominant', 'dominant', 'small',
                                 'singular']))
    v = st.sampled_from([0, 0, 1, -1, 2, 0.5])
    rows = [[draw(v) for _ in range(n)] for _ in range(n)]
    if kind == 'dominant':
        for i in range(n):
            rows[i][i] = draw(st.sampled_from([1, -1])) * (
                1 + sum(abs(x) for x in rows[i]))
        turn = draw(st.permutations(range(n)))
        rows = [rows[i] for i in turn]
    elif kind == 'singular':
        i = draw(st.integers(0, n - 1))
        rows[i] = [0] * n
    return {'rows': rows, 'f': n, 'pn': draw(names(n)), 'fn': draw(names(n)),
            'kind': kind}


linear = st.fixed_dictionaries({
    'a': square(), 'b': st.lists(st.sampled_from([0, 1, -2, 3, 0.5]),
                                 min_size=5, max_size=5),
    'upright': st.booleans(), 'type': st.sampled_from(TYPES),
    'btype': st.sampled_from(TYPES), 'power': st.integers(-3, 4),
    'op': st.sampled_from(['power', 'power', 'inverse', 'pseudo', 'solve',
                           'least', 'pseudo rect', 'least rect']),
    'cut': st.integers(0, 4), 'stir': st.integers(0, 7),
    'view': st.booleans()})


def close(got, want, what, tol=1e-7):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape or not np.allclose(got, want, rtol=tol,
                                                  atol=tol):
        raise Violation('%s: got %r, expected %r' % (what, got.tolist(),
                                                     want.tolist()))


def check_linear(case, ctx):
    """
    matrix powers, inverses and solutions of generated square (and, for
    pseudo-inverse and least squares, rectangular) systems; non-trivial =
    at least two rows and a solution
    """
    op = case['op']
    tab = dict(case['a'])
    singular = tab.pop('kind') == 'singular'
    n = tab['f']
    if 'rect' in op:
        keep = max(1, n - case['cut'])
        tab['rows'] = [r[:keep] for r in tab['rows']]
        tab['fn'] = tab['fn'] and tab['fn'][:keep]
        tab['f'] = keep
    t = Table.of(tab)
    a = make(tab, case['type'], case['view'], case['stir'])
    before = snapshot(a)
    A = np.array(t.rows, dtype=float)
    what = '%s %s of %r' % (a.getTypeString(), op, t)
    det = np.linalg.det(A) if A.shape[0] == A.shape[1] else 1.0
    well = det != 0 and np.linalg.cond(A) < 1e6
    size = max(1.0, np.abs(A).max())

    method = case['power'] % 2 == 0

    def checked(ret, rtype=a.getTypeString()):
        ensure(ret.getTypeString() == rtype, what, ': type',
               ret.getTypeString())
        ensure_consistent(ret, what)
        ensure_same_snapshot(before, a, what)
        return ret.copy('numpyarray')

    if op == 'power':
        k = case['power']
        if k < 0 and not well:
            if singular:
                try:
                    a.matrixPower(k)
                except N.InvalidArgumentValue:
                    return
                raise Violation(what + ': singular matrix was inverted')
            return
        got = a.matrixPower(k)
        close(checked(got), np.linalg.matrix_power(A, k), what + ' %d' % k)
        ensure(got.points.getNames() == t.pn
               and got.features.getNames() == t.fn, what, ': names',
               got.points.getNames(), got.features.getNames())
    elif op == 'inverse':
        if singular:
            try:
                ret = a.inverse() if method else nimble.calculate.inverse(a)
            except N.InvalidArgumentValue:
                ctx.label('singular refused')
                ensure_same_snapshot(before, a, what)
                return
            raise Violation('%s: singular, got %r'
                            % (what, ret.copy('pythonlist')))
        if not well:
            return
        got = checked(a.inverse() if method
                      else nimble.calculate.inverse(a))
        close(A @ got, np.eye(n), what)
    elif op.startswith('pseudo'):
        P = checked(a.inverse(pseudoInverse=True) if method
                    else nimble.calculate.pseudoInverse(a))
        close(A @ P @ A, A, what + ': A P A')
        close(P @ A @ P, P, what + ': P A P')
        close((A @ P).T, A @ P, what + ': A P symmetric')
        close((P @ A).T, P @ A, what + ': P A symmetric')
    else:
        b = case['b'][:n]
        braw = [[x] for x in b] if case['upright'] else [list(b)]
        bobj = nimble.data(braw, returnType=case['btype'], useLog=False)
        bbefore = snapshot(bobj)
        if op == 'solve':
            if not well:
                return
            x = a.solveLinearSystem(bobj) if method \
                else nimble.calculate.solve(a, bobj)
        else:
            x = a.solveLinearSystem(bobj, 'least squares') if method \
                else nimble.calculate.leastSquaresSolution(a, bobj)
        got = checked(x)
        ensure_same_snapshot(bbefore, bobj, what + ': right hand side')
        ensure(got.shape == (1, t.nf), what, ': shape', got.shape)
        ensure(x.features.getNames() == t.fn, what, ': names',
               x.features.getNames())
        if op == 'solve':
            close(A @ got[0], b, what)
        else:
            # the normal equations, and the solution of least norm
            close(A.T @ (A @ got[0] - b), np.zeros(t.nf), what, tol=1e-5)
            close(got[0], np.linalg.pinv(A) @ b, what + ': least norm',
                  tol=1e-4)
    ctx.label(op, a.getTypeString())
    ctx.nontrivial(n >= 2)


empties = st.fixed_dictionaries({
    'p': st.integers(0, 4), 'f': st.integers(0, 4), 'which': st.booleans(),
    'type': st.sampled_from(TYPES)})


def check_empty(case, ctx):
    """a pseudo-inverse of an object without values; always"""
    p, f = case['p'], case['f']
    p, f = (0, f) if case['which'] else (p, 0)
    a = nimble.data(np.empty((p, f)), returnType=case['type'], useLog=False)
    for ret in (nimble.calculate.pseudoInverse(a),
                a.inverse(pseudoInverse=True)):
        ensure(ret is not a and ret.shape == (f, p)
               and ret.getTypeString() == case['type'], 'pseudo-inverse of',
               a.shape, 'is', ret.shape, type(ret).__name__)
        ensure_consistent(ret, 'pseudo-inverse without values')
    ctx.nontrivial()


TESTS = [Test('empty', empties, check_empty, quick=200, thorough=400),
         Test('stretch', stretching(), check_stretch, quick=9000),
         Test('matmul', multiplying(), check_matmul, quick=6000),
         Test('linear', linear, check_linear, quick=7000)]
