"""C16: filling replaces exactly the matching elements."""
import collections
import statistics

import numpy as np
from hypothesis import strategies as st

import nimble
from nimble import fill, match
from lib.core import Test, Violation, ensure, missing, same, same_rows
from lib.data import (TYPES, Table, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, nan,
                      snapshot, sparse_ok, stirred, subset, tables)

N = nimble.exceptions
KINDS = ('int', 'float', 'nan', 'bool', 'str', 'strnan', 'mixed')
FILLS = ('constant', 'mean', 'median', 'mode', 'forwardFill', 'backwardFill',
         'interpolate')


class Refuse(Exception):
    """The model refuses."""


class Unclear(Exception):
    """What should happen is not specified."""


def numbers(vals):
    if any(isinstance(v, str) and v.isdigit() for v in vals):
        raise Unclear
    if any(isinstance(v, str) for v in vals):
        raise Refuse
    if any(isinstance(v, (bool, np.bool_)) for v in vals):
        raise Unclear
    return vals


def model(kind, vec, hit, arg=None):
    """The vector after filling the hits."""
    keep = [v for v, h in zip(vec, hit) if not h]
    if kind == 'constant':
        return [arg if h else v for v, h in zip(vec, hit)]
    if kind in ('mean', 'median', 'mode'):
        if not any(hit):
            return list(vec)
        there = [v for v in keep if not missing(v)]
        if kind == 'mode':
            if not there:
                raise Refuse
            counts = collections.Counter(there).most_common()
            best = [v for v, c in counts if c == counts[0][1]]
            if len({isinstance(v, str) for v in best}) > 1:
                raise Unclear
            value = sorted(best)[(len(best) - 1) // 2]
        else:
            numbers(there)
            if not there:
                raise Refuse
            value = getattr(statistics, kind)([float(v) for v in there])
        return [value if h else v for v, h in zip(vec, hit)]
    if kind in ('forwardFill', 'backwardFill'):
        order = list(zip(vec, hit))
        if kind == 'backwardFill':
            order.reverse()
        if order[0][1]:
            raise Refuse
        out = []
        for v, h in order:
            out.append(out[-1] if h else v)
        return out if kind == 'forwardFill' else out[::-1]
    known = [(i, v) for i, (v, h) in enumerate(zip(vec, hit)) if not h]
    if not any(hit):
        if any(isinstance(v, str) for v in vec):
            raise Unclear
        return list(vec)
    if not known:
        raise Refuse
    numbers(keep)
    if any(missing(v) for v in keep):
        raise Unclear
    out = []
    for i, (v, h) in enumerate(zip(vec, hit)):
        if not h:
            out.append(v)
            continue
        lo = [(j, w) for j, w in known if j < i]
        hi = [(j, w) for j, w in known if j > i]
        if not lo:
            out.append(hi[0][1])
        elif not hi:
            out.append(lo[-1][1])
        else:
            (a, x), (b, y) = lo[-1], hi[0]
            out.append(x + (y - x) * (i - a) / (b - a))
    return out


# ways to say which elements match: (case part) -> (argument, predicate)

def equal(v, x):
    if missing(x):
        return missing(v)
    if isinstance(x, str) != isinstance(v, str):
        return False
    return v == x


def matcher(m):
    how, vals = m['how'], m['vals']
    if how == 'value':
        return vals[0], lambda v: equal(v, vals[0])
    if how == 'list':
        return list(vals), lambda v: any(equal(v, x) for x in vals)
    if how == 'missing':
        return match.missing, missing
    if how == 'nonMissing':
        return match.nonMissing, lambda v: not missing(v)
    if how == 'lambda':
        return (lambda v: any(equal(v, x) for x in vals),
                lambda v: any(equal(v, x) for x in vals))
    if how == 'is missing':
        return 'is missing', missing
    if how == 'zero':
        f = lambda v: not isinstance(v, str) and v == 0
        return 'is zero', f
    if how == '==':
        x = vals[0]
        if isinstance(x, str) or missing(x):
            x = 1
        return '== %s' % float(x), lambda v: equal(v, float(x))
    if how == 'all':
        return (lambda v: True), lambda v: True
    raise AssertionError(how)


VALUES = st.one_of(st.sampled_from([0, 1, 2, -1, 0.5, 2.5, 'a', 'b', 'c', nan,
                                    True, False, 3, 1.0]))
MATCHES = st.fixed_dictionaries({
    'how': st.sampled_from(['value', 'value', 'list', 'missing', 'missing',
                            'nonMissing', 'lambda', 'is missing', 'zero',
                            '==', 'object', 'object', 'all']),
    'vals': st.lists(VALUES, min_size=1, max_size=3),
    'bits': st.lists(st.booleans(), min_size=25, max_size=25),
    'otype': st.sampled_from(TYPES), 'onames': st.booleans()})

numeric_kinds = st.sampled_from([('int', 'float', 'nan'), KINDS,
                                 ('nan',), ('int',), ('bool',)])


@st.composite
def axis_cases(draw, limited=True):
    t = draw(tables(kinds=draw(numeric_kinds)))
    return {
        'table': t, 'type': draw(st.sampled_from(TYPES)),
        'axis': draw(st.sampled_from(['point', 'feature'])),
        'fill': draw(st.sampled_from(FILLS + ('user', 'kw', 'value'))),
        'value': draw(st.one_of(VALUES, st.none())),
        'match': draw(MATCHES),
        'limit': draw(st.one_of(st.none(), st.none(), st.lists(
            st.tuples(st.integers(0, 9), st.integers(0, 3)), min_size=1,
            max_size=4))),
        'single': draw(st.booleans()),
        'k': draw(st.integers(0, 7))}


def hits_of(case, t, axis):
    """(argument, rows of booleans along the axis)"""
    m = case['match']
    if m['how'] == 'object':
        full = [[m['bits'][(i * t.nf + j) % 25] for j in range(t.nf)]
                for i in range(t.np)]
        mt = Table(full, t.pn if m['onames'] else None,
                   t.fn if m['onames'] else None, t.nf)
        arg = build({'rows': mt.rows, 'pn': mt.pn, 'fn': mt.fn, 'f': t.nf},
                    m['otype'])
        return arg, mt.along(axis).rows
    arg, f = matcher(m)
    return arg, [[bool(f(v)) for v in r] for r in t.along(axis).rows]


def has_bool(rows):
    return any(isinstance(v, bool) for r in rows for v in r)


def of_vector(vec, m):
    if isinstance(m, nimble.core.data.Base):
        return list(m)
    if callable(m):
        return [bool(m(v)) for v in vec]
    if isinstance(m, list):
        return [any(equal(v, x) for x in m) for v in vec]
    return [equal(v, m) for v in vec]


def filling(case):
    """The fillWith argument, its keywords, model kind and model value."""
    kind, value = case['fill'], case['value']
    if kind == 'value':
        return value, {}, 'constant', nan if missing(value) else value
    if kind == 'constant':
        return fill.constant, {'constantValue': value}, 'constant', value
    if kind == 'user':
        # every match becomes the number of matches
        def counted(vec, m):
            m = of_vector(vec, m)
            n = sum(1 for h in m if h)
            return [n if h else v for v, h in zip(vec, m)]
        return counted, {}, 'user', None
    if kind == 'kw':
        def shifted(vec, m, add, times=1):
            m = of_vector(vec, m)
            return [add * times if h else v for v, h in zip(vec, m)]
        return shifted, {'add': 3, 'times': 2}, 'constant', 6
    return getattr(fill, kind), {}, kind, None


def wanted(case, t, axis, hits, chosen):
    kind, value = filling(case)[2:]
    u = t.along(axis)
    rows = [list(r) for r in u.rows]
    for i in sorted(set(chosen)):
        if kind == 'user':
            rows[i] = [sum(hits[i]) if h else v
                       for v, h in zip(rows[i], hits[i])]
        else:
            rows[i] = model(kind, rows[i], hits[i], value)
    return Table.back(Table(rows, u.pn, u.fn, u.nf), axis)


def check_axis(case, ctx):
    """
    points or features.fillMatching with every fill function, a value or a
    user function, for every way to say what matches, on all or some of the
    points or features; non-trivial = some element of those chosen matches
    and some does not
    """
    t = Table.of(case['table'])
    axis = case['axis']
    n = t.count(axis)
    nm = t.anames(axis)
    if case['limit'] is None:
        chosen, limit = list(range(n)), None
    else:
        chosen = [i % n for i, _ in case['limit']]
        # an identifier may not be repeated
        chosen = subset(n, chosen)
        limit = [ident(nm, i, case['limit'][k][1] if k < len(case['limit'])
                       else 0, n) for k, i in enumerate(chosen)]
        if case['single']:
            limit, chosen = limit[0], chosen[:1]
    arg, hits = hits_of(case, t, axis)
    fillWith, kw, _, _ = filling(case)
    what = '%s %r %ss.fillMatching(%s, %s%s, %r)' % (
        case['type'], t, axis, case['fill'] if callable(fillWith)
        else repr(fillWith), case['match']['how'], case['match']['vals'],
        limit)
    want = None
    try:
        want = wanted(case, t, axis, hits, chosen)
    except Refuse:
        pass
    except Unclear:
        ctx.excluded('unclear')
        return
    rtype = case['type']
    if rtype == 'Sparse' and not (sparse_ok(t.rows) and (
            want is None or sparse_ok(want.rows)
            and (callable(fillWith) is False or not has_bool(t.rows)))):
        rtype = 'DataFrame'
    o = stirred(build(case['table'], rtype), case['k'])
    before = snapshot(o)
    before_arg = snapshot(arg) if isinstance(arg, nimble.core.data.Base) \
        else None
    args = (fillWith, arg) if limit is None else (fillWith, arg, limit)
    try:
        ret = axis_of(o, axis).fillMatching(*args, useLog=False, **kw)
        refused = None
    except Exception as e:
        refused = e
    if want is None:
        ensure(refused is not None, what, 'was not refused')
        ensure_same_snapshot(before, o, what)
        ctx.label('refused')
        return
    if refused is not None:
        raise Violation('%s: %s: %s' % (what, type(refused).__name__,
                                        refused)) from refused
    ensure(ret is None, what, 'returns', ret)
    ensure_table(o, want, what, tol=1e-9, rtype=rtype)
    ensure_consistent(o, what)
    if before_arg is not None:
        ensure_same_snapshot(before_arg, arg, what)
    ctx.label(case['fill'], case['match']['how'],
              'all' if limit is None else 'limited')
    flat = [h for i in chosen for h in hits[i]]
    ctx.nontrivial(any(flat) and not all(flat))


def check_vector(case, ctx):
    """
    the functions of nimble.fill called directly with one point or feature
    (a view or a copy) and what matches; non-trivial = some element matches
    and some does not
    """
    t = Table.of(case['table'])
    axis = case['axis']
    i = case['k'] % t.count(axis)
    one = t.take(axis, [i])
    if case['fill'] not in FILLS:
        case = dict(case, fill='constant')
    arg, hits = hits_of(case, one, axis)
    f, kw, kind, value = filling(case)
    rtype = case['type']
    what = 'fill.%s(%s %s %r, %s%s)' % (case['fill'], rtype, axis,
                                        one.along(axis).rows[0],
                                        case['match']['how'],
                                        case['match']['vals'])
    if isinstance(arg, str):
        # query strings belong to fillMatching
        arg = matcher(case['match'])[1]
    if one.along(axis).nf == 1 and axis == 'feature':
        ctx.excluded('single element')
        return
    want = None
    try:
        want = model(kind, one.along(axis).rows[0], hits[0], value)
    except Refuse:
        pass
    except Unclear:
        ctx.excluded('unclear')
        return
    if rtype == 'Sparse' and not (sparse_ok(t.rows) and (
            want is None or sparse_ok([want]) and not has_bool(t.rows))):
        rtype = 'DataFrame'
    o = build(case['table'], rtype)
    v = axis_of(o, axis)[i]
    if case['single']:
        v = v.copy()
    before = snapshot(o)
    try:
        got = f(v, arg, **kw)
        refused = None
    except Exception as e:
        refused = e
    ensure_same_snapshot(before, o, what)
    if want is None:
        ensure(refused is not None, what, 'was not refused')
        ctx.label('refused')
        return
    if refused is not None:
        raise Violation('%s: %s: %s' % (what, type(refused).__name__,
                                        refused)) from refused
    ensure(same_rows([list(got)], [want], 1e-9), what, 'gave', list(got),
           'expected', want)
    ctx.label(case['fill'])
    ctx.nontrivial(any(hits[0]) and not all(hits[0]))


# ------------------------------------------------------------------- learners

@st.composite
def learner_cases(draw):
    p, f = draw(st.integers(3, 8)), draw(st.integers(2, 4))
    # distinct, so that no two distances are equal
    base = draw(st.permutations(range(p * f)))
    jit = draw(st.integers(1, 50))
    rows = [[base[i * f + j] + (base[i * f + j] ** 2 % 97) / (jit + 131.7)
             for j in range(f)] for i in range(p)]
    holes = draw(st.lists(st.tuples(st.integers(0, p - 1),
                                    st.integers(0, f - 1)), max_size=5))
    return {'rows': rows, 'holes': holes, 'f': f,
            'fn': draw(st.booleans()),
            'type': draw(st.sampled_from(TYPES)),
            'learner': draw(st.sampled_from(['knn', 'knn', 'knnclass',
                                             'SimpleMean', 'SimpleMedian'])),
            'k': draw(st.integers(1, 3)),
            'how': draw(st.sampled_from(['missing', 'value', 'object',
                                         'list'])),
            'points': draw(st.one_of(st.none(), st.lists(
                st.integers(0, p - 1), min_size=1, max_size=3, unique=True))),
            'features': draw(st.one_of(st.none(), st.lists(
                st.integers(0, f - 1), min_size=1, max_size=2, unique=True)))}


def knn(rows, hole, i, j, k, classify):
    """The value for (i, j) by the k nearest points known in all of those."""
    f = len(rows[0])
    base = [c for c in range(f) if (i, c) not in hole]
    cand = []
    for r in range(len(rows)):
        if any((r, c) in hole for c in base + [j]):
            continue
        d = sum((rows[r][c] - rows[i][c]) ** 2 for c in base)
        cand.append((d, rows[r][j]))
    cand.sort()
    if len(cand) < k or not base:
        raise Refuse
    if len(cand) > k and abs(cand[k][0] - cand[k - 1][0]) < 1e-9:
        raise Unclear
    near = [v for _, v in cand[:k]]
    if classify:
        c = collections.Counter(near)
        return min(v for v in c if c[v] == max(c.values()))
    return sum(near) / k


def check_learner(case, ctx):
    """
    nimble.fillMatching with the k-nearest-neighbours imputation and with the
    simple imputers of scikit-learn, limited to points and features;
    non-trivial = something is filled and something that matches is not
    """
    rows, f = [list(r) for r in case['rows']], case['f']
    p = len(rows)
    if case['learner'] == 'knnclass':
        rows = [[(float(int(v) % 3) if j == f - 1 else v)
                 for j, v in enumerate(r)] for r in rows]
    hole = set(map(tuple, case['holes']))
    if case['learner'] == 'knnclass':
        hole = {(i, f - 1) for i, _ in hole}
    marker = {'missing': nan, 'value': -999.0, 'object': 5.0,
              'list': -998.0}[case['how']]
    shown = [[marker if (i, j) in hole else v for j, v in enumerate(r)]
             for i, r in enumerate(rows)]
    fn = ['f%d' % j for j in range(f)] if case['fn'] else None
    o = build({'rows': shown, 'pn': None, 'fn': fn, 'f': f}, case['type'])
    if case['how'] == 'object':
        arg = nimble.data([[(i, j) in hole for j in range(f)]
                           for i in range(p)], useLog=False)
    else:
        arg = {'missing': match.missing, 'value': -999.0,
               'list': [-998.0, -997.0]}[case['how']]
    kind = case['learner']
    what = 'fillMatching(%s k=%d, %s) of %s %r' % (
        kind, case['k'], case['how'], case['type'], shown)
    want = {}
    try:
        for i, j in sorted(hole):
            if kind.startswith('knn'):
                want[i, j] = knn(rows, hole, i, j, case['k'],
                                 kind == 'knnclass')
            else:
                there = [rows[r][j] for r in range(p) if (r, j) not in hole]
                if not there:
                    raise Refuse
                want[i, j] = (statistics.mean if kind == 'SimpleMean'
                              else statistics.median)(there)
    except (Refuse, Unclear):
        ctx.excluded('cannot fill')
        return
    if kind.startswith('knn'):
        name = 'nimble.KNNImputation'
        kw = {'k': case['k'], 'mode': 'regression' if kind == 'knn'
              else 'classification'}
    else:
        name = 'sklearn.SimpleImputer'
        kw = {'strategy': kind[6:].lower()}
    pts, fts = case['points'], case['features']
    if fts is not None and fn is not None:
        fts = [fn[j] if j % 2 else j for j in fts]
    nimble.fillMatching(name, arg, o, points=pts, features=fts, useLog=False,
                        **kw)
    final = [[want[i, j] if (i, j) in hole
              and (pts is None or i in pts)
              and (case['features'] is None or j in case['features'])
              else shown[i][j] for j in range(f)] for i in range(p)]
    ensure_table(o, Table(final, None, fn, f), what, tol=1e-7,
                 rtype=case['type'])
    ctx.label(kind)
    filled = sum(final[i][j] != shown[i][j] for i, j in hole)
    ctx.nontrivial(bool(hole) and filled and (
        filled < len(hole) or pts is None and fts is None))


TESTS = [Test('axis', axis_cases(), check_axis, quick=9000),
         Test('vector', axis_cases(), check_vector, quick=7000),
         Test('learner', learner_cases(), check_learner, quick=1200)]
