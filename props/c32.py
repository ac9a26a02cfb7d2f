"""C32: axis operations compute per point or feature, in order."""
import functools

import numpy as np

import nimble
from hypothesis import strategies as st

from lib.core import Test, ensure, missing, same, same_rows
from lib.data import (TYPES, Table, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, is_num, nan,
                      rows_of, snapshot, sparse_ok, stirred, typed_tables)

N = nimble.exceptions
pick = st.sampled_from


def turned(t):
    """The table with points and features exchanged."""
    rows = [[t.rows[i][j] for i in range(t.np)] for j in range(t.nf)]
    return Table(rows, t.fn, t.pn, t.np)


def numeric(e):
    return is_num(e) and not missing(e)


def total(vals):
    return sum(v for v in vals if numeric(v))


@st.composite
def subsets(draw):
    return {'form': draw(pick([None, None, 'one', 'list', 'list', 'list',
                               'tuple', 'array', 'iter', 'range'])),
            'ix': draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            'how': draw(st.lists(st.integers(0, 3), min_size=5,
                                 max_size=5))}


def chosen(s, names, n):
    """(the argument, the indices)"""
    if s['form'] is None:
        return None, list(range(n))
    ix = []
    for k in s['ix'][:1] if s['form'] == 'one' else s['ix']:
        if k % n not in ix:
            ix.append(k % n)
    if s['form'] == 'range':
        ix = list(range(min(ix), max(ix) + 1))
        return range(ix[0], ix[-1] + 1), ix
    if s['form'] == 'array':
        return np.array(ix), ix
    ids = [ident(names, i, h, n) for i, h in zip(ix, s['how'])]
    if s['form'] == 'one':
        return ids[0], ix
    if s['form'] == 'tuple':
        return tuple(ids), ix
    if s['form'] == 'iter':
        return iter(ids), ix
    return ids, ix


# ---- functions of a vector: from its values, with n the number of the call

def as_object(v, vals, rtype, axis, names=None, turn=False):
    if rtype == 'Sparse' and not sparse_ok([vals]):
        rtype = 'List'
    o = nimble.data([vals], returnType=rtype, pointNames=False,
                    featureNames=names if names else False,
                    treatAsMissing=[None], useLog=False)
    if (axis == 'feature') != turn:
        o.transpose(useLog=False)
    return o


VECTOR = {
    # as many values as there were
    'reverse': lambda vals, n: vals[::-1],
    'same': lambda vals, n: list(vals),
    'number': lambda vals, n: [n] * len(vals),
    'count': lambda vals, n: [10 * n + k for k in range(len(vals))],
    'zeros': lambda vals, n: [0] * len(vals),
    'none some': lambda vals, n: [None if k % 2 else v
                                  for k, v in enumerate(vals)],
    'nan first': lambda vals, n: [nan] + list(vals[1:]),
    'zero first': lambda vals, n: [0] + list(vals[1:]),
    'halve': lambda vals, n: [v / 2 if numeric(v) else v for v in vals],
    'bools': lambda vals, n: [numeric(v) and bool(v > 0) for v in vals],
    'text': lambda vals, n: ['%d%s' % (n, 'x' * k)
                             for k in range(len(vals))],
    'text first': lambda vals, n: ['t'] + list(vals[1:]),
    'cumulate': lambda vals, n: [total(vals[:k + 1])
                                 for k in range(len(vals))],
}
SINGLE = {
    'total': lambda vals, n: total(vals),
    'length': lambda vals, n: len(vals),
    'first': lambda vals, n: vals[0],
    'last': lambda vals, n: vals[-1],
    'call': lambda vals, n: n,
    'none': lambda vals, n: None if n % 2 else 1.5,
    'nan': lambda vals, n: nan if n else 2,
    'flag': lambda vals, n: any(missing(v) for v in vals),
    'word': lambda vals, n: 'w%d' % n,
    'zero': lambda vals, n: 0,
    'np': lambda vals, n: np.float64(total(vals)),
}
PAIR = {
    'ends': lambda vals, n: [vals[0], vals[-1]],
    'three': lambda vals, n: [n, total(vals), 0],
    'text pair': lambda vals, n: ['a', n],
    'one': lambda vals, n: [vals[0]],
}


def flat(v, axis):
    """The values of a view of a point or feature."""
    rows = rows_of(v)
    if axis == 'point':
        ensure(len(rows) == 1, 'view of a point has shape', v.shape)
        return list(rows[0])
    ensure(all(len(r) == 1 for r in rows), 'view of a feature has shape',
           v.shape)
    return [r[0] for r in rows]


class Recorder:
    """A user function that notes what it is called with."""
    def __init__(self, fun, axis, wrap, rtype, off):
        self.fun, self.axis, self.wrap = fun, axis, wrap
        self.rtype, self.off = rtype, off
        self.calls = []
        self.gaveView = []

    def __call__(self, v):
        vals = flat(v, self.axis)
        own = axis_of(v, self.axis).getNames()
        other = axis_of(v, 'feature' if self.axis == 'point' else 'point')
        ensure(len(own) == 1, 'view has names', own)
        self.calls.append((vals, own[0], other.getNames()))
        ret = self.fun(vals, len(self.calls) - 1)
        if not isinstance(ret, list):
            return ret
        ret = self.give(v, ret)
        self.gaveView.append(ret is v)
        return ret

    def give(self, v, ret):
        w = self.wrap
        if w == 'tuple':
            return tuple(ret)
        if w == 'array':
            a = np.empty(len(ret), dtype=object)
            a[:] = ret
            return a
        if w == 'typed array' and all(numeric(x) for x in ret):
            return np.array(ret)
        if w == 'object':
            return as_object(v, ret, v.getTypeString(), self.axis)
        if w == 'other object':
            return as_object(v, ret, self.rtype, self.axis)
        if w == 'named object':
            return as_object(v, ret, self.rtype, self.axis,
                             ['n%d' % k for k in range(len(ret))])
        if w == 'turned object':
            return as_object(v, ret, self.rtype, self.axis, None, True)
        if w == 'view' and [repr(x) for x in ret] == [
                repr(x) for x in flat(v, self.axis)]:
            return v
        return list(ret)

    def check(self, t, ix, what, ordered):
        """t: the table with the vectors as rows."""
        want = [(t.rows[i], t.pn[i], t.fn) for i in ix]
        got = self.calls
        if not ordered:
            order = sorted(range(len(ix)), key=lambda k: ix[k])
            want = [want[k] for k in order]
        ensure(len(got) == len(want), what, 'calls the function', len(got),
               'times for', len(want))
        for (gv, gn, go), (wv, wn, wo) in zip(got, want):
            ensure(same_rows([gv], [wv]), what, 'calls the function with',
                   gv, 'expected', wv)
            ensure(gn == wn and list(go) == list(wo), what,
                   'calls the function with names', gn, go, 'expected', wn,
                   wo)


WRAPS = ['list', 'tuple', 'array', 'typed array', 'object', 'other object',
         'named object', 'turned object', 'view']


@st.composite
def transforms(draw):
    t = draw(typed_tables())
    names = sorted(VECTOR)
    if t['type'] == 'Sparse':
        names = [n for n in names if 'text' not in n]
    return {'t': t, 'axis': draw(pick(['point', 'feature'])),
            'f': draw(pick(names)), 's': draw(subsets()),
            'wrap': draw(pick(WRAPS)), 'stir': draw(st.integers(0, 7)),
            'rtype': draw(pick(TYPES))}


def check_transforms(case, ctx):
    """
    points.transform and features.transform: some vectors are not chosen, or
    the result differs from what was there
    """
    t = Table.of(case['t'])
    rtype, axis = case['t']['type'], case['axis']
    o = stirred(build(case['t'], rtype), case['stir'])
    v = t if axis == 'point' else turned(t)
    arg, ix = chosen(case['s'], v.pn, v.np)
    f = Recorder(VECTOR[case['f']], axis, case['wrap'], case['rtype'], v.fn)
    want = v.copy()
    # the number of the call counts in the order of the axis
    for n, i in enumerate(sorted(ix)):
        want.rows[i] = [nan if x is None else x
                        for x in VECTOR[case['f']](v.rows[i], n)]
    what = '%s %ss.transform(%r giving %r, %r)' % (
        rtype, axis, case['f'], case['wrap'], arg)
    if rtype == 'Sparse' and not (sparse_ok(want.rows)):
        ctx.excluded('Sparse cannot hold the result')
        return
    kw = {axis + 's': arg} if arg is not None else {}
    axis_of(o, axis).transform(f, useLog=False, **kw)
    if axis == 'feature':
        want = turned(want)
    f.check(v, ix, what, False)
    ensure_table(o, want, what, rtype=rtype)
    ensure_consistent(o, what)
    changed = not same_rows(want.rows, t.rows)
    ctx.nontrivial(len(ix) < v.np or changed)
    ctx.label(rtype, axis, case['wrap'])


@st.composite
def calculations(draw):
    t = draw(typed_tables())
    funs = [('single', n) for n in sorted(SINGLE)] \
        + [('pair', n) for n in sorted(PAIR)] \
        + [('vector', n) for n in sorted(VECTOR)]
    if t['type'] == 'Sparse':
        funs = [x for x in funs if 'text' not in x[1] and x[1] != 'word']
    kind, name = draw(pick(funs))
    return {'t': t, 'axis': draw(pick(['point', 'feature'])),
            'kind': kind, 'f': name, 's': draw(subsets()),
            # a turned vector makes a dimension more
            'wrap': draw(pick([w for w in WRAPS
                               if w != 'turned object'])), 'stir': draw(st.integers(0, 7)),
            'rtype': draw(pick(TYPES)), 'view': draw(st.booleans())}


def check_calculations(case, ctx):
    """
    points.calculate and features.calculate: a part of the vectors is
    chosen, out of order, or several values are given for each
    """
    t = Table.of(case['t'])
    rtype, axis = case['t']['type'], case['axis']
    o = stirred(build(case['t'], rtype), case['stir'])
    if case['view'] and t.np > 1:
        o = o.view(1, t.np - 1, 0, t.nf - 1)
        t = Table(t.rows[1:], t.pn[1:], t.fn, t.nf)
    v = t if axis == 'point' else turned(t)
    arg, ix = chosen(case['s'], v.pn, v.np)
    fun = {'single': SINGLE, 'pair': PAIR, 'vector': VECTOR}[case['kind']][
        case['f']]
    f = Recorder(fun, axis, case['wrap'], case['rtype'], v.fn)
    rows = []
    for n, i in enumerate(ix):
        r = fun(v.rows[i], n)
        r = r if isinstance(r, list) else [r]
        rows.append([nan if x is None else x for x in r])
    if rtype == 'Sparse' and not sparse_ok(rows):
        ctx.excluded('Sparse cannot hold the result')
        return
    what = '%s %ss.calculate(%r giving %r, %r)' % (
        rtype, axis, case['f'], case['wrap'], arg)
    before = snapshot(o)
    kw = {axis + 's': arg} if arg is not None else {}
    got = axis_of(o, axis).calculate(f, useLog=False, **kw)
    f.check(v, ix, what, True)
    off = [None] * len(rows[0])
    if case['kind'] != 'single' and case['wrap'] == 'named object':
        off = ['n%d' % k for k in range(len(rows[0]))]
    if case['wrap'] == 'view' and case['kind'] != 'single' \
            and f.gaveView[0]:
        off = v.fn
    want = Table(rows, [v.pn[i] for i in ix], off, len(rows[0]))
    if axis == 'feature':
        want = turned(want)
    ensure_table(got, want, what, rtype=rtype)
    ensure_consistent(got, what)
    ensure_same_snapshot(before, o, what)
    ctx.nontrivial(len(ix) < v.np or ix != sorted(ix) or len(rows[0]) > 1)
    ctx.label(rtype, axis, case['kind'])


# ---- counting, matching, iterating, reducing -------------------------------

def few_missing(vals):
    return any(missing(x) for x in vals)


def firstPositive(vals):
    return numeric(vals[0]) and vals[0] > 0


CONDS = {'few_missing': few_missing, 'firstPositive': firstPositive,
         'zero': lambda vals: any(numeric(x) and x == 0 for x in vals),
         'all': lambda vals: 1, 'none': lambda vals: 0,
         'text': lambda vals: np.bool_(any(isinstance(x, str)
                                           for x in vals))}


@st.composite
def conditions(draw):
    t = draw(typed_tables(partial=False))
    return {'t': t, 'axis': draw(pick(['point', 'feature'])),
            'cond': draw(pick(sorted(CONDS))),
            'query': draw(st.one_of(st.none(), st.tuples(
                st.integers(0, 9), pick(['==', '!=', '>', '<=',
                                         'is missing', 'is nonZero',
                                         'is numeric']),
                st.integers(0, 9)))),
            's': draw(subsets()), 'stir': draw(st.integers(0, 7)),
            'view': draw(st.booleans())}


def check_conditions(case, ctx):
    """
    counting and matching with functions and queries, and iterating over the
    points or features: some vectors match and others do not
    """
    t = Table.of(case['t'])
    rtype, axis = case['t']['type'], case['axis']
    o = stirred(build(case['t'], rtype), case['stir'])
    if case['view'] and t.np > 1:
        o = o.view(1, t.np - 1, 0, t.nf - 1)
        t = Table(t.rows[1:], t.pn[1:], t.fn, t.nf)
    v = t if axis == 'point' else turned(t)
    before = snapshot(o)
    ax = axis_of(o, axis)
    # iteration
    seen = list(ax)
    ensure(len(seen) == v.np == len(ax), 'iterating gives', len(seen))
    for i, s in enumerate(seen):
        ensure(same_rows([flat(s, axis)], [v.rows[i]]), 'iterating over',
               axis, 's of', rtype, 'gives', flat(s, axis), 'expected',
               v.rows[i])
        ensure(axis_of(s, axis).getNames() == [v.pn[i]]
               and axis_of(s, 'feature' if axis == 'point' else 'point'
                           ).getNames() == v.fn, 'iterating: names')
    # conditions
    q = case['query']
    name = None
    if q is not None and v.fn[q[0] % v.nf] is not None:
        k, op = q[0] % v.nf, q[1]
        if op.startswith('is'):
            cond = '%s %s' % (v.fn[k], op)
            truth = {'is missing': missing,
                     'is nonZero': lambda e: isinstance(e, str) or e != 0,
                     'is numeric': lambda e: is_num(e)
                     and not isinstance(e, (bool, np.bool_))}[op]
        else:
            col = [r[k] for r in v.rows]
            val = col[q[2] % len(col)]
            if missing(val) or isinstance(val, (bool, np.bool_)) or (
                    op in ('>', '<=') and (isinstance(val, str) or any(
                        isinstance(x, str) for x in col))):
                val = 1
                op = '=='
            if isinstance(val, str) and (is_word_number(val)
                                         or val.strip() != val):
                val, op = 1, '!='
            cond = '%s %s %s' % (v.fn[k], op, val)
            cmp = {'==': lambda e: same(e, val),
                   '!=': lambda e: not same(e, val),
                   '>': lambda e: not missing(e) and e > val,
                   '<=': lambda e: not missing(e) and e <= val}
            truth = cmp[op]
        want = [bool(truth(r[k])) for r in v.rows]
        user = cond
    else:
        fun = CONDS[case['cond']]

        @functools.wraps(fun)
        def user(s):
            return fun(flat(s, axis))
        cond = case['cond']
        want = [bool(fun(r)) for r in v.rows]
        name = None if fun.__name__ == '<lambda>' else fun.__name__
    what = '%s %ss with %r' % (rtype, axis, cond)
    n = ax.count(user)
    ensure(n == sum(want), 'counting', what, 'gives', n, 'expected',
           sum(want))
    got = ax.matching(user, useLog=False)
    m = Table([[w] for w in want], v.pn, [name], 1)
    if axis == 'feature':
        m = turned(m)
    ensure_table(got, m, 'matching ' + what, rtype=rtype)
    ensure(all(isinstance(x, (bool, np.bool_)) for r in rows_of(got)
               for x in r), 'matching', what, 'gives', rows_of(got))
    ensure_same_snapshot(before, o, what)
    ctx.nontrivial(0 < sum(want) < len(want))
    ctx.label(rtype, axis, 'query' if isinstance(user, str) else 'function')


def is_word_number(s):
    try:
        float(s)
        return True
    except ValueError:
        return False


@st.composite
def reductions(draw):
    t = draw(typed_tables())
    return {'t': t, 'axis': 'point',
            'key': draw(pick(['first', 'same', 'each', 'number'])),
            'value': draw(pick(['total', 'length', 'count', 'last'])),
            'drop': draw(pick([None, None, 1, 2])),
            'stir': draw(st.integers(0, 7))}


def check_reductions(case, ctx):
    """points.mapReduce: at least two keys, one of them with several values"""
    t = Table.of(case['t'])
    rtype, axis = case['t']['type'], case['axis']
    o = stirred(build(case['t'], rtype), case['stir'])
    v = t if axis == 'point' else turned(t)

    def pairs(vals, n):
        if case['key'] == 'each':
            return [('missing' if missing(x) else x, 1) for x in vals]
        key = {'first': 'missing' if missing(vals[0]) else vals[0],
               'same': 0, 'number': n % 2}[case['key']]
        return [(key, total(vals) if case['value'] != 'length'
                 else len(vals))]

    def reduced(key, values):
        if case['drop'] and len(values) == case['drop']:
            return None
        return key, {'total': sum(values), 'length': len(values),
                     'count': len(values), 'last': values[-1]}[case['value']]
    groups = {}
    for n, r in enumerate(v.rows):
        for key, val in pairs(r, n):
            groups.setdefault(key, []).append(val)
    rows = [list(x) for x in (reduced(k, vs) for k, vs in groups.items())
            if x is not None]
    if rtype == 'Sparse' and not sparse_ok(rows):
        ctx.excluded('Sparse cannot hold the result')
        return
    seen = []
    calls = []

    def mapper(s):
        seen.append(flat(s, axis))
        return pairs(seen[-1], len(seen) - 1)

    def reducer(key, values):
        calls.append(key)
        return reduced(key, values)
    before = snapshot(o)
    got = axis_of(o, axis).mapReduce(mapper, reducer, useLog=False)
    what = '%s %ss.mapReduce of %r' % (rtype, axis, v.rows)
    ensure(same_rows(seen, v.rows), what, 'maps', seen)
    ensure(len(calls) == len(groups), what, 'reduces', calls)
    ensure(got.getTypeString() == rtype, what, 'type', got.getTypeString())
    if rows:
        ensure(same_rows(rows_of(got), rows), what, 'gives', rows_of(got),
               'expected', rows)
    else:
        ensure(0 in got.shape, what, 'gives', got.shape)
    ensure_same_snapshot(before, o, what)
    ctx.nontrivial(len(groups) > 1
                   and any(len(x) > 1 for x in groups.values()))
    ctx.label(rtype, axis, case['key'])


TESTS = [
    Test('transforms', transforms(), check_transforms, quick=3000,
         thorough=50000),
    Test('calculations', calculations(), check_calculations, quick=3000,
         thorough=50000),
    Test('conditions', conditions(), check_conditions, quick=2000,
         thorough=30000),
    Test('reductions', reductions(), check_reductions, quick=1000,
         thorough=15000),
]
