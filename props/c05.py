"""C05: a refused operation changes nothing."""
import os
import tempfile

import numpy as np
from hypothesis import strategies as st

import nimble
from lib import core
from lib.core import Test, Violation, ensure
from lib.data import (TYPES, Table, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, nan, snapshot, sparse_ok, stirred,
                      tables)
from lib.ops import ANY, INPLACE, OPS, R, REGISTRY, Env, Skip, choices

N = nimble.exceptions


class Boom(Exception):
    """Raised by generated user functions."""


class Faulty:
    """
    A user function that behaves for some calls and then does not: it
    raises, or gives something that cannot be used.
    """
    def __init__(self, r, good):
        self.good = good
        self.left = r.k() % 7
        self.mode = r.k() % 8
        self.calls = 0

    def trouble(self, *args):
        m = self.mode
        if m <= 2:
            raise Boom('call %d' % self.calls)
        if m == 3:
            return {'a': 1}
        if m == 4:
            return [1, 2, 3, 4, 5, 6, 7, 8]
        if m == 5:
            return [[1], [2]]
        if m == 6:
            return Faulty
        return None

    def __call__(self, *args):
        self.calls += 1
        if self.calls > self.left:
            return self.trouble(*args)
        return self.good(*args)

    def one(self):
        # nimble looks at the signature of functions
        def function(x):
            return self(x)
        return function

    def two(self):
        def function(x, y):
            return self(x, y)
        return function

    def three(self):
        def function(x, y, z):
            return self(x, y, z)
        return function


def wild_index(r, names, n):
    k = r.k() % 12
    if k == 0:
        return n
    if k == 1:
        return -n - 1
    if k == 2:
        return 'no such name'
    if k == 3:
        return None
    if k == 4:
        return 0.5
    if k == 5:
        return [0]
    if k == 6:
        return 10 ** 6
    i = r.k() % n if n else 0
    if k <= 8 and n and names[i] is not None:
        return names[i]
    return i


def wild_indices(r, names, n):
    k = r.k() % 8
    if k == 0:
        return wild_index(r, names, n)
    if k == 1:
        return []
    if k == 2:
        return {'a': 0}
    ret = list(range(n))[:1 + r.k() % 4]
    ret.insert(r.k() % (len(ret) + 1), wild_index(r, names, n))
    if k == 3 and ret:
        ret.append(ret[0])
    if k == 4:
        ret = ret[::-1]
    return ret


def wild_value(r):
    return [1, 'text', None, nan, [1, 2], {'a': 1}, Faulty, 2.5, True, ''][
        r.k() % 10]


def wild_name(r, t, axis):
    names = t.anames(axis)
    k = r.k() % 6
    if k == 0:
        return 5
    if k == 1:
        return None
    if k == 2 and names:
        return names[r.k() % len(names)]
    return ['new', 'a', 'b', ['x'], '', 'new'][r.k() % 6]


def wild_object(o, t, r, env, shape=None):
    """An argument object of about the right shape, or no object at all."""
    k = r.k() % 10
    if k == 0:
        return wild_value(r)
    p, f = shape or (t.np, t.nf)
    if k == 1:
        p += 1
    elif k == 2:
        f += 1
    elif k == 3 and p > 1:
        p -= 1
    elif k == 4:
        p, f = f, p
    kind = r.k() % 4
    vals = {0: [1, 2, 0, 3], 1: ['x', 'y', '1', 'z'], 2: [0, 0, 0.5, nan],
            3: [True, False, False, True]}[kind]
    rows = [[vals[r.k() % 4] for _ in range(f)] for _ in range(p)]
    pn = fn = None
    way = r.k() % 6
    if way == 0 or way == 1:
        fn = (t.fn + ['n%d' % i for i in range(f)])[:f]
    if way == 1 or way == 2:
        pn = (t.pn + ['m%d' % i for i in range(p)])[:p]
    if way == 3:
        fn = ['k%d' % i for i in range(f)][::-1]
        pn = ['k%d' % i for i in range(p)]
    if way == 4:
        fn = ([x for x in t.fn[::-1]] + ['n%d' % i for i in range(f)])[:f]
    if not p or not f:
        raise Skip()
    return env.make(rows, pn, fn, f)


BAD = {}


def bad(f):
    BAD[f.__name__] = f
    return f


def pick_axis(o, t, r):
    axis = r.pick(['point', 'feature'])
    return axis, axis_of(o, axis), t.anames(axis), t.count(axis)


@bad
def names(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    k = r.k() % 5
    if k == 0:
        lst = [wild_name(r, t, axis) for _ in range(n + r.k() % 2)]
        return a.setNames(lst, useLog=False)
    if k == 1:
        d = {x: i for i, x in enumerate(['n%d' % i for i in range(n)])}
        if r.bool() and d:
            d.popitem()
        else:
            d[r.pick(['zz', 'n0'])] = r.k() % 9
        return a.setNames(d, useLog=False)
    if k == 2:
        return a.setNames(wild_name(r, t, axis),
                          oldIdentifiers=wild_index(r, nm, n), useLog=False)
    if k == 3:
        m = 1 + r.k() % 3
        return a.setNames([wild_name(r, t, axis) for _ in range(m)],
                          oldIdentifiers=wild_indices(r, nm, n),
                          useLog=False)
    return a.setNames(r.pick([5, 'abc', True, ['x', 'x'], ('a',), {}]),
                      useLog=False)


@bad
def structural(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    way = r.pick(['extract', 'delete', 'retain', 'copy', 'extract', 'retain'])
    f = getattr(a, way)
    k = r.k() % 7
    if k == 0:
        return f(wild_indices(r, nm, n), useLog=False)
    if k == 1:
        return f(Faulty(r, lambda x: r.bool()).one(), useLog=False)
    if k == 2:
        other = t.anames('feature' if axis == 'point' else 'point')
        q = '%s %s %s' % (r.pick([str(x) for x in other] or ['q']),
                          r.pick(['==', '!=', '>', '===', '', 'is', 'in']),
                          r.pick(['1', 'a', '', 'missing', '"']))
        return f(q, useLog=False)
    if k == 3:
        return f(start=wild_index(r, nm, n), end=wild_index(r, nm, n),
                 useLog=False)
    if k == 4:
        return f(wild_indices(r, nm, n), number=r.k() % (n + 3),
                 randomize=r.bool(), useLog=False)
    if k == 5:
        return f(number=n + 1 + r.k() % 2, useLog=False)
    kw = {'features' if axis == 'point' else 'points': wild_indices(
        r, t.anames('feature' if axis == 'point' else 'point'),
        t.count('feature' if axis == 'point' else 'point'))}
    return f(lambda x: x > 0, useLog=False, **kw)


@bad
def insert(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    shape = (1 + r.k() % 2, t.nf) if axis == 'point' else (
        t.np, 1 + r.k() % 2)
    obj = wild_object(o, t, r, env, shape)
    if r.bool():
        return a.append(obj, useLog=False)
    return a.insert(wild_index(r, nm, n), obj, useLog=False)


@bad
def replace(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    m = 1 + r.k() % 3
    shape = (m, t.nf) if axis == 'point' else (t.np, m)
    obj = wild_object(o, t, r, env, shape)
    where = r.pick([None, 'list', 'list'])
    if where:
        where = wild_indices(r, nm, n)
    return a.replace(obj, where, useLog=False)


@bad
def reorder(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    k = r.k() % 5
    other = 'feature' if axis == 'point' else 'point'
    if k == 0:
        order = list(range(n))
        order[r.k() % n if n else 0:] = [wild_index(r, nm, n)]
        return a.permute(order, useLog=False)
    if k == 1:
        return a.permute(wild_indices(r, nm, n), useLog=False)
    if k == 2:
        return a.sort(by=Faulty(r, lambda x: x[0]).one(), useLog=False)
    if k == 3:
        return a.sort(by=wild_indices(r, t.anames(other), t.count(other)),
                      useLog=False)
    return a.sort(useLog=False)


@bad
def axis_transform(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)

    def good(v):
        return [x for x in v]
    f = Faulty(r, good if r.bool() else lambda v: [5 for x in v])
    where = None if r.bool() else wild_indices(r, nm, n)
    return a.transform(f.one(), where, useLog=False)


@bad
def axis_calculate(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    f = Faulty(r, lambda v: len(v))
    where = None if r.bool() else wild_indices(r, nm, n)
    k = r.k() % 3
    if k == 0:
        return a.calculate(f.one(), where, useLog=False)
    if k == 1:
        return a.count(f.one())
    return a.matching(f.one(), useLog=False)


@bad
def elements(o, t, r, env):
    f = Faulty(r, (lambda x: x) if r.bool() else (lambda x: 7))
    kw = {}
    if r.bool():
        kw['points'] = wild_indices(r, t.pn, t.np)
    if r.bool():
        kw['features'] = wild_indices(r, t.fn, t.nf)
    if r.k() % 4 == 0:
        kw['preserveZeros'] = True
    if r.k() % 4 == 0:
        kw['skipNoneReturnValues'] = True
    k = r.k() % 6
    if k == 0:
        d = {1: r.pick([2, 'a', [1]]), 0: 5, 'a': {}}
        return o.transformElements(d, useLog=False, **kw)
    if k == 1:
        f.good = lambda x, i, j: x
        return o.transformElements(f.three(), useLog=False, **kw)
    if k == 2:
        return o.calculateOnElements(f.one(), useLog=False, **kw)
    if k == 3:
        return o.matchingElements(f.one(), useLog=False)
    return o.transformElements(f.one(), useLog=False, **kw)


@bad
def filling(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    where = None if r.bool() else wild_indices(r, nm, n)
    match = r.pick([0, 'f', nimble.match.missing, 1, nimble.match.zero,
                    'obj'])
    if match == 'f':
        match = Faulty(r, lambda x: x == 0).one()
    elif match == 'obj':
        match = wild_object(o, t, r, env)
    fill = r.pick(['f', 'f', nimble.fill.mean, nimble.fill.interpolate,
                   nimble.fill.constant, 9, nimble.fill.forwardFill,
                   nimble.fill.median, 'x', nimble.fill.mode])
    if fill == 'f':
        fill = Faulty(r, lambda v, m: [3 for _ in v]).two()
    return a.fillMatching(fill, match, where, useLog=False)


@bad
def normalize(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    axis, a, nm, n = 'feature', o.features, t.fn, t.nf
    where = None if r.bool() else wild_indices(r, nm, n)
    fs = ['meanNormalize', 'range normalize', 'nope', None, 5, 'f', 'g']
    f = r.pick(fs)
    if f == 'f':
        f = Faulty(r, lambda v: v / 2).one()
    elif f == 'g':
        f = Faulty(r, lambda v, w: (v / 2, w)).two()
    elif f == 'meanNormalize':
        f = nimble.calculate.meanNormalize
    elif f == 'range normalize':
        f = nimble.calculate.rangeNormalize
    other = wild_object(o, t, r, env, (1 + r.k() % 3, t.nf)) \
        if r.bool() else None
    kw = {} if where is None else {'features': where}
    return a.normalize(f, applyResultTo=other, useLog=False, **kw)


@bad
def collapse(o, t, r, env):
    return o.points.splitByCollapsingFeatures(
        wild_indices(r, t.fn, t.nf), wild_name(r, t, 'feature'),
        wild_name(r, t, 'feature'), useLog=False)


@bad
def expand(o, t, r, env):
    vals = wild_index(r, t.fn, t.nf)
    if r.bool():
        vals = wild_indices(r, t.fn, t.nf)
    return o.points.combineByExpandingFeatures(
        wild_index(r, t.fn, t.nf), vals, useLog=False)


@bad
def parse(o, t, r, env):
    rule = r.pick(['f', 1, [1], 'x', ' ', {'a': 1}, [5, 2], 'f'])
    if rule == 'f':
        rule = Faulty(r, lambda x: [str(x)[:1], str(x)[1:]]).one()
    names = r.pick([['y1', 'y2'], ['y1'], ['y1', 'y1'], [1, 2], 'y1',
                    ['y1', 'a'], ['y1', 'b'], ['y1', 'y2', 'y3']])
    if r.k() % 4 == 0 and t.fn and t.fn[0] is not None:
        names = ['y1', t.fn[0]]
    return o.features.splitByParsing(wild_index(r, t.fn, t.nf), rule, names,
                                     useLog=False)


@bad
def encode(o, t, r, env):
    f = r.pick([o.replaceFeatureWithBinaryFeatures,
                o.transformFeatureToIntegers])
    return f(wild_index(r, t.fn, t.nf), useLog=False)


@bad
def rectangle(o, t, r, env):
    p, f = 1 + r.k() % 3, 1 + r.k() % 3
    obj = wild_object(o, t, r, env, (p, f))
    kw = {}
    if r.bool():
        kw['pointEnd'] = wild_index(r, t.pn, t.np)
    if r.bool():
        kw['featureEnd'] = wild_index(r, t.fn, t.nf)
    return o.replaceRectangle(obj, wild_index(r, t.pn, t.np),
                              wild_index(r, t.fn, t.nf), useLog=False, **kw)


@bad
def setitem(o, t, r, env):
    k = r.k() % 4
    v = wild_value(r)
    if k == 0:
        o[wild_index(r, t.pn, t.np), wild_index(r, t.fn, t.nf)] = v
    elif k == 1:
        o[wild_indices(r, t.pn, t.np), wild_index(r, t.fn, t.nf)] = \
            r.pick([[1, 2], [[1], [2]], [1, 2, 3, 4, 5, 6, 7], v])
    elif k == 2:
        o[:, wild_indices(r, t.fn, t.nf)] = wild_object(
            o, t, r, env, (t.np, 1 + r.k() % 2))
    else:
        o[0:wild_index(r, t.pn, t.np), :] = r.pick([v, [1], [[1, 2]]])


@bad
def merging(o, t, r, env):
    obj = wild_object(o, t, r, env)
    modes = ['union', 'intersection', 'left', 'strict', 'bad']
    return o.merge(obj, point=r.pick(modes), feature=r.pick(modes),
                   onFeature=None if r.bool() else wild_index(r, t.fn, t.nf),
                   force=r.bool(), useLog=False)


@bad
def shape(o, t, r, env):
    k = r.k() % 4
    if k == 0:
        return o.flatten(order=r.pick(['bad', 5, None]), useLog=False)
    dims = r.pick([(2, 2), (5, 7), (0, 3), (t.np, t.nf), 'a', (2,), (-1, 2),
                   (1.5, 2), (t.nf, t.np)])
    return o.unflatten(dims, order=r.pick(['point', 'feature', 'bad']),
                       useLog=False)


@bad
def arithmetic(o, t, r, env):
    other = wild_object(o, t, r, env)
    if r.k() % 3 == 0:
        other = r.pick([0, 'a', None, [1], 2.5, nan, True])
    op = r.pick(['__iadd__', '__isub__', '__imul__', '__itruediv__',
                 '__ifloordiv__', '__imod__', '__ipow__', '__imatmul__',
                 '__add__', '__truediv__', '__mod__', '__rsub__', '__matmul__',
                 '__lt__', '__and__', '__rtruediv__', '__floordiv__'])
    return getattr(o, op)(other)


@bad
def stretching(o, t, r, env):
    other = wild_object(o, t, r, env, r.pick([(1, t.nf), (t.np, 1)]))
    if not hasattr(other, 'stretch'):
        raise Skip()
    return r.pick([lambda: o + other.stretch, lambda: other.stretch * o,
                   lambda: o / other.stretch, lambda: o % other.stretch])()


@bad
def querying(o, t, r, env):
    k = r.k() % 8
    if k == 0:
        return o[wild_index(r, t.pn, t.np), wild_index(r, t.fn, t.nf)]
    if k == 1:
        return o.view(pointStart=wild_index(r, t.pn, t.np),
                      featureEnd=wild_index(r, t.fn, t.nf))
    if k == 2:
        return o.groupByFeature(wild_indices(r, t.fn, t.nf),
                                calculate=r.pick(['max', 'nope', 'mean']),
                                useLog=False)
    if k == 3:
        return o.points.mapReduce(
            Faulty(r, lambda p: [(1, p[0])]).one(),
            Faulty(r, lambda k, v: (k, v[0])).two(), useLog=False)
    if k == 4:
        return o.copy(r.pick(['nope', 5, 'scipy csr', 'numpy array']),
                      rowsArePoints=r.bool(),
                      outputAs1D=r.bool())
    if k == 5:
        return o.trainAndTestSets(r.pick([-1, 2, 'a', 0.5]),
                                  labels=wild_index(r, t.fn, t.nf),
                                  useLog=False)
    if k == 6:
        return r.pick([o.points, o.features]).repeat(
            r.pick([0, -1, 'a', 1.5]), r.bool(), useLog=False)
    return r.pick([o.points, o.features]).similarities(
        r.pick(['correlation', 'nope', 'covariance', 'dot product']))


@bad
def saving(o, t, r, env):
    d = tempfile.mkdtemp(dir=core.SCRATCH)
    path = os.path.join(d, r.pick(['x', 'no/such/dir/x'])) + r.pick(
        ['.csv', '.mtx', '.hdf5', '.pickle', '.nope'])
    try:
        return o.save(path, includeNames=r.bool())
    finally:
        for f in os.listdir(d):
            os.remove(os.path.join(d, f))
        os.rmdir(d)


@bad
def statistics(o, t, r, env):
    axis, a, nm, n = pick_axis(o, t, r)
    k = r.k() % 3
    if k == 0:
        return o.features.statistics(r.pick(['nope', 'mean', 5]),
                                     groupByFeature=wild_index(r, nm, n))
    if k == 1:
        return o.features.report(r.pick([['nope'], 'mean', None]),
                                 useLog=False)
    return o.toString(points=wild_index(r, t.pn, t.np),
                      features=wild_index(r, t.fn, t.nf),
                      lineWidthLimit=r.pick([1, 5, 'a', 79]))


def attempt(run, o, t, r, env, what, ctx, key):
    before = snapshot(o)
    refs = [o.copy()]
    try:
        run(o, t, r, env)
    except Skip:
        ctx.label('does not apply')
        return False
    except Exception as e:
        raised = e
    else:
        ctx.label(key + ' accepted')
        # the object given to normalize as applyResultTo is also normalized
        if 'normalize' not in key:
            args_kept(env, what)
        return False
    what += ' raised %s(%s)' % (type(raised).__name__, str(raised)[:200])
    ensure_same_snapshot(before, o, what + ': the object')
    ensure_consistent(o, what)
    ensure(refs[0].isIdentical(o), what, ': differs from a copy made before')
    args_kept(env, what)
    ctx.label(key + ' refused')
    return True


def args_kept(env, what):
    for arg, t in env.args:
        from props.c03 import args_before
        args_before(arg, t, what)
        ensure_consistent(arg, what + ': the argument')


BADNAMES = ['bad ' + n for n in sorted(BAD)]
GOODNAMES = [o.name for o in OPS if o.name != 'reference_from']
NAMES = BADNAMES + GOODNAMES
wide = st.lists(st.integers(0, 839), min_size=16, max_size=16)


def cases_for(names):
    def one(n):
        return st.fixed_dictionaries({
            'table': st.one_of(tables(), tables(percol=False),
                               tables(min_p=0, min_f=0)),
            'type': st.sampled_from(TYPES), 'op': st.just(n), 'ks': wide,
            'stir': st.integers(0, 7), 'atype': st.sampled_from(TYPES)})
    return st.sampled_from(names).flatmap(one)


def check(case, ctx):
    """
    one operation with arguments that are mostly wrong or a user function
    that fails at some call, or any public operation on a table it may not
    be meant for; non-trivial = it raised
    """
    rtype = case['type']
    if rtype == 'Sparse' and not sparse_ok(case['table']['rows']):
        rtype = 'List'
    t = Table.of(case['table'])
    o = stirred(build(case['table'], rtype), case['stir'])
    env = Env(t, case['atype'])
    r = R(case['ks'])
    op = case['op']
    what = '%s of %s %r, choices %r' % (op, rtype, t, case['ks'])
    if op.startswith('bad '):
        run = BAD[op[4:]]
    else:
        def run(o, t, r, env):
            return REGISTRY[op].run(o, r, env)
    if attempt(run, o, t, r, env, what, ctx, op):
        ctx.nontrivial()


TESTS = [Test('bad', cases_for(BADNAMES), check, quick=20000),
         Test('ops', cases_for(GOODNAMES), check, quick=8000)]
