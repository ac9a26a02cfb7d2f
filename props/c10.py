"""C10: elementwise operators agree with arithmetic on elements."""
import math
import operator

from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing
from lib.data import (TYPES, Table, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, names, nan,
                      snapshot, sparse_ok, stirred, tables, value_of)

OPS = {'+': operator.add, '-': operator.sub, '*': operator.mul,
       '/': operator.truediv, '//': operator.floordiv, '%': operator.mod,
       '**': operator.pow}
IOPS = {'+': operator.iadd, '-': operator.isub, '*': operator.imul,
        '/': operator.itruediv, '//': operator.ifloordiv,
        '%': operator.imod, '**': operator.ipow}
LOGIC = {'&': operator.and_, '|': operator.or_, '^': operator.xor}
DIV = ('/', '//', '%')

nonzero = {'int': st.sampled_from([1, 2, 3, -1, -2, 5]),
           'float': st.sampled_from([1.0, 0.5, -0.25, 2.5, -1.5, 3.0]),
           'nan': st.sampled_from([1.0, 0.5, -0.25, 2.5, nan])}
positive = {'int': st.integers(1, 4), 'float': st.sampled_from(
    [1.0, 0.5, 0.25, 2.5, 3.0]), 'nan': st.sampled_from([1.0, 0.25, nan])}
exponents = {'int': st.integers(0, 3), 'float': st.sampled_from(
    [0.0, 1.0, 2.0, 0.5, 3.0]), 'nan': st.sampled_from([0.0, 2.0, nan])}
NUM = ('int', 'float', 'nan')


@st.composite
def like(draw, table, values=None, kinds=NUM):
    """Another table of the same shape, names related to the first's."""
    k = draw(st.sampled_from(kinds))
    val = (values or {}).get(k) or value_of(k)
    p, f = len(table['rows']), table['f']
    rows = [[draw(val) for _ in range(f)] for _ in range(p)]
    out = {'rows': rows, 'f': f}
    for key, n in (('pn', p), ('fn', f)):
        how = draw(st.integers(0, 4))
        own = table[key]
        if how <= 1:
            out[key] = None
        elif how == 2:
            out[key] = own
        elif how == 3 and own:
            keep = draw(st.lists(st.booleans(), min_size=n, max_size=n))
            out[key] = [x if k2 else None for x, k2 in zip(own, keep)]
        else:
            out[key] = draw(names(n))
    return out


@st.composite
def arith(draw):
    op = draw(st.sampled_from(sorted(OPS)))
    form = draw(st.sampled_from(['obj', 'obj', 'obj', 'scalar', 'rscalar',
                                 'iobj', 'iobj', 'iscalar']))
    left = draw(tables(kinds=('bool',) + NUM if op == '*' else NUM))
    safe = draw(st.integers(0, 9)) > 0
    case = {'op': op, 'form': form, 'type': draw(st.sampled_from(TYPES)),
            'otype': draw(st.sampled_from(TYPES)),
            'view': draw(st.booleans()), 'oview': draw(st.booleans()),
            'stir': draw(st.integers(0, 63))}
    vals = None
    if safe and op in DIV:
        vals = nonzero
    elif safe and op == '**':
        vals = exponents
        left = dict(left)
        if draw(st.booleans()):
            vals = None
            left['rows'] = [[draw(positive['float']) for _ in r]
                            for r in left['rows']]
    if form == 'rscalar' and safe and op in DIV:
        left = dict(left)
        left['rows'] = [[v if v else draw(nonzero['int']) for v in r]
                        for r in left['rows']]
    case['left'] = left
    if form.endswith('obj'):
        case['right'] = draw(like(left, vals))
    else:
        k = draw(st.sampled_from(NUM))
        case['right'] = draw((vals or {}).get(k) or value_of(k))
    return case


def element(op, a, b):
    """Arithmetic on two numbers; missing values stay missing."""
    a = float(a) if op == '**' or isinstance(a, bool) else a
    b = float(b) if op == '**' or isinstance(b, bool) else b
    if op == '**':
        # as floating point numbers do: x**0 and 1**x are 1
        r = OPS[op](a, b)
        return r
    if missing(a) or missing(b):
        return nan
    return OPS[op](a, b)


def elements(op, form, lrows, right):
    """The table of results, or the kind of refusal."""
    zero = False
    out = []
    for i, row in enumerate(lrows):
        new = []
        for j, a in enumerate(row):
            b = right if form.endswith('scalar') else right[i][j]
            if form == 'rscalar':
                a, b = b, a
            if op in DIV and not missing(b) and b == 0:
                zero = True
                continue
            try:
                r = element(op, a, b)
            except ZeroDivisionError:
                zero = True
                continue
            except OverflowError:
                return 'overflow'
            if isinstance(r, complex):
                return 'complex'
            new.append(r)
        out.append(new)
    return 'zero' if zero else out


def relation(a, b):
    """Of the names of two axes: 'equal' or 'different', and shared names."""
    if any(x is not None and y is not None and x != y for x, y in zip(a, b)):
        return 'different'
    # a name of the one at another place of the other
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if i != j and x is not None and x == y:
                return 'different'
    return 'equal'


def merged(a, b):
    return [x if x is not None else y for x, y in zip(a, b)]


def expected_names(l, r, inplace):
    """(point names, feature names) of the result or None when refused."""
    pr, fr = relation(l.pn, r.pn), relation(l.fn, r.fn)
    if inplace and (pr, fr) != ('equal', 'equal'):
        return None
    if pr == fr == 'different':
        return None
    out = []
    for rel, a, b in ((pr, l.pn, r.pn), (fr, l.fn, r.fn)):
        if rel == 'equal':
            out.append(merged(a, b))
        else:
            if set(a) & set(b) - {None}:
                return None
            out.append([None] * len(a))
    return tuple(out)


def make(table, rtype, view, stir=0):
    if rtype == 'Sparse' and not sparse_ok(table['rows']):
        rtype = 'Matrix'
    o = stirred(build(table, rtype), stir)
    return o.view() if view else o


def check_arith(case, ctx):
    """
    one arithmetic operator with operands of generated types; non-trivial =
    a table of at least two cells came out
    """
    op, form = case['op'], case['form']
    inplace = form.startswith('i')
    left = make(case['left'], case['type'], case['view'] and not inplace,
                case['stir'])
    lt = Table.of(case['left'])
    objs = form.endswith('obj')
    if objs:
        right = make(case['right'], case['otype'], case['oview'],
                     case['stir'] // 8)
        rt = Table.of(case['right'])
        want = elements(op, form, lt.rows, rt.rows)
        nm = expected_names(lt, rt, inplace)
        rbefore = snapshot(right)
    else:
        right = case['right']
        want = elements(op, form, lt.rows, right)
        nm = (lt.pn, lt.fn)
    lbefore = snapshot(left)
    what = '%s %s %s %s' % (left.getTypeString(), op, form,
                            right.getTypeString() if objs else right)
    try:
        if form == 'rscalar':
            got = OPS[op](right, left)
        elif inplace:
            got = left
            got = IOPS[op](got, right)
        elif op == '*' and case['stir'] % 2:
            got = nimble.calculate.elementwiseMultiply(left, right)
        elif op == '**' and case['stir'] % 2:
            got = nimble.calculate.elementwisePower(left, right)
        else:
            got = OPS[op](left, right)
        raised = None
    except Exception as e:
        raised = e
    if objs:
        ensure_same_snapshot(rbefore, right, what + ': right operand')
    if not inplace or raised is not None:
        ensure_same_snapshot(lbefore, left, what + ': left operand')
    if want in ('zero', 'complex'):
        ctx.label(want)
        ensure(raised is not None, what, lt.rows, 'with',
               rt.rows if objs else right, 'gave a result, expected refusal:',
               want)
        if want == 'zero' and (nm is not None):
            if not isinstance(raised, ZeroDivisionError):
                # a power may be refused for either reason
                if op == '**' and isinstance(
                        raised, nimble.exceptions.ImproperObjectAction):
                    return
                raise raised
        return
    if nm is None:
        ctx.label('names refused')
        if raised is None:
            raise Violation('%s: names %r and %r were accepted'
                            % (what, (lt.pn, lt.fn), (rt.pn, rt.fn)))
        if not isinstance(raised, nimble.exceptions.InvalidArgumentValue):
            raise raised
        return
    if want == 'overflow':
        return
    if raised is not None:
        raise raised
    if inplace:
        ensure(got is left, what, ': in place gave another object')
    res = Table(want, nm[0], nm[1], lt.nf)
    ensure_table(got, res, '%s: %r with %r' % (
        what, lt.rows, rt.rows if objs else right), tol=1e-12,
        rtype=left.getTypeString())
    ensure_consistent(got, what)
    ctx.label(op + ' ' + form, left.getTypeString())
    ctx.nontrivial(lt.np * lt.nf >= 2)


@st.composite
def logic(draw):
    op = draw(st.sampled_from(['&', '|', '^', '~']))
    kind = draw(st.sampled_from(['bool', 'zeroone', 'zeroone.0']))
    val = {'bool': st.booleans(), 'zeroone': st.integers(0, 1),
           'zeroone.0': st.sampled_from([0.0, 1.0])}[kind]
    t = draw(tables())
    t['rows'] = [[draw(val) for _ in r] for r in t['rows']]
    return {'op': op, 'left': t, 'type': draw(st.sampled_from(TYPES)),
            'otype': draw(st.sampled_from(TYPES)),
            'right': draw(like(t, {'bool': st.booleans(),
                                   'int': st.integers(0, 1)},
                               ('bool', 'int'))),
            'bad': draw(st.integers(0, 19))}


def check_logic(case, ctx):
    """
    one logical operator on tables of booleans, zeros and ones;
    non-trivial = a table of at least two cells came out
    """
    op = case['op']
    lt = Table.of(case['left'])
    left = make(case['left'], case['type'], False)
    lbefore = snapshot(left)
    what = '%s %s' % (left.getTypeString(), op)
    if op == '~':
        got = ~left
        want = [[not v for v in r] for r in lt.rows]
        nm = (lt.pn, lt.fn)
    else:
        rt = Table.of(case['right'])
        right = make(case['right'], case['otype'], False)
        rbefore = snapshot(right)
        nm = expected_names(lt, rt, False)
        want = [[bool(LOGIC[op](bool(a), bool(b))) for a, b in zip(x, y)]
                for x, y in zip(lt.rows, rt.rows)]
        try:
            got = LOGIC[op](left, right)
        except nimble.exceptions.InvalidArgumentValue:
            if nm is None:
                ctx.label('names refused')
                ensure_same_snapshot(lbefore, left, what)
                ensure_same_snapshot(rbefore, right, what)
                return
            raise
        ensure(nm is not None, what, ': names accepted', lt, rt)
        ensure_same_snapshot(rbefore, right, what + ': right operand')
    ensure_same_snapshot(lbefore, left, what + ': left operand')
    ensure_table(got, Table(want, nm[0], nm[1], lt.nf), what,
                 rtype=left.getTypeString())
    ensure_consistent(got, what)
    ctx.label(op, left.getTypeString())
    ctx.nontrivial(lt.np * lt.nf >= 2)


unary = st.fixed_dictionaries({
    'table': tables(kinds=NUM), 'type': st.sampled_from(TYPES),
    'op': st.sampled_from(['-', '+', 'abs']), 'view': st.booleans(),
    'stir': st.integers(0, 7)})


def check_unary(case, ctx):
    """
    negation, plus and absolute value; non-trivial = at least two cells
    """
    t = Table.of(case['table'])
    o = make(case['table'], case['type'], case['view'], case['stir'])
    before = snapshot(o)
    f = {'-': operator.neg, '+': operator.pos, 'abs': abs}[case['op']]
    got = f(o)
    what = '%s of %s' % (case['op'], o.getTypeString())
    ensure_same_snapshot(before, o, what)
    ensure_table(got, Table([[f(v) for v in r] for r in t.rows], t.pn, t.fn,
                            t.nf), what, rtype=o.getTypeString())
    ensure_consistent(got, what)
    # the result is an object of its own
    got *= 0
    ensure_same_snapshot(before, o, what + ': after changing the result')
    ctx.nontrivial(t.np * t.nf >= 2)


TESTS = [Test('arithmetic', arith(), check_arith, quick=20000),
         Test('logical', logic(), check_logic, quick=6000),
         Test('unary', unary, check_unary, quick=5000)]
