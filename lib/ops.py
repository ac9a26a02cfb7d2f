"""
The public operations of a data object, as named functions of an object and
a stream of small integers (the chooser), and a canonical form of whatever
they return. Used by the checks that quantify over operations: isolation,
views, failures, equivalence of the data types and logging.
"""
import numbers
import re

import numpy as np
import pandas as pd
import scipy.sparse
from hypothesis import strategies as st

import nimble
from nimble.core.data import Base
from lib.core import missing, same
from lib.data import Table, axis_of, build, ident, is_num, sparse_ok

QUERY, INPLACE = 'query', 'inplace'
ANY = ('int', 'float', 'nan', 'bool', 'str', 'strnan', 'mixed')
NUM = ('int', 'float', 'bool')
NUMNAN = ('int', 'float', 'nan', 'bool')
REAL = ('int', 'float')
REALNAN = ('int', 'float', 'nan')


class Skip(Exception):
    """The operation does not apply to the object given."""


class R:
    """A chooser: draws its decisions from a list of integers."""
    def __init__(self, ks):
        self.ks = ks
        self.i = 0

    def k(self):
        v = self.ks[self.i % len(self.ks)]
        self.i += 1
        return v

    def idx(self, n):
        if not n:
            raise Skip()
        return self.k() % n

    def bool(self):
        return self.k() % 2 == 1

    def pick(self, seq):
        return seq[self.k() % len(seq)]

    def subset(self, n, lo=1):
        if n < lo:
            raise Skip()
        count = lo + self.k() % (n - lo + 1) if n > lo else lo
        left = list(range(n))
        ret = []
        for _ in range(count):
            ret.append(left.pop(self.k() % len(left)))
        return ret

    def ident(self, names, i):
        return ident(names, i, self.k() % 3, len(names))

    def idents(self, names, idx):
        return [self.ident(names, i) for i in idx]

    def perm(self, n):
        left = list(range(n))
        ret = []
        while left:
            ret.append(left.pop(self.k() % len(left)))
        return ret


class Env:
    """What an operation may use: the table shown, and argument objects."""
    def __init__(self, t, atype):
        self.t = t
        self.atype = atype
        self.args = []      # (object, Table) of every argument made

    def make(self, rows, pn=None, fn=None, nf=None, rtype=None):
        nf = nf if nf is not None else (len(rows[0]) if rows else 0)
        rtype = rtype or self.atype
        if rtype == 'Sparse' and not sparse_ok(rows):
            rtype = 'List'
        obj = build({'rows': rows, 'pn': pn, 'fn': fn, 'f': nf}, rtype)
        self.args.append((obj, Table(rows, pn, fn, nf)))
        return obj


class Op:
    def __init__(self, name, run, kind, kinds, tags):
        self.name, self.run, self.kind = name, run, kind
        self.kinds, self.tags = kinds, tags


OPS = []


def op(kind, kinds=ANY, *tags):
    def deco(f):
        OPS.append(Op(f.__name__, f, kind, kinds, set(tags)))
        return f
    return deco


def by_tag(*tags, kind=None, without=()):
    return [o for o in OPS if set(tags) <= o.tags
            and not (set(without) & o.tags)
            and (kind is None or o.kind == kind)]


choices = st.lists(st.integers(0, 59), min_size=12, max_size=12)


# ------------------------------------------------------------ canonical form

def canon_name(name):
    """Names made from numbers do not depend on the type of the number."""
    if name is None:
        return None
    return re.sub(r'(\d)\.0\b', r'\1', name)


def canon(x, depth=0):
    """Plain, comparable data from whatever an operation returns."""
    if depth > 6:
        return 'deep'
    if isinstance(x, Base):
        if len(x.dimensions) == 2:
            p, f = len(x.points), len(x.features)
            rows = x.copy('pythonlist') if p and f else []
        else:
            p, f = tuple(x.dimensions), None
            rows = x.copy('pythonlist')
        return ('object', (p, f), canon(rows, depth + 1),
                tuple(map(canon_name, x.points.getNames())),
                tuple(map(canon_name, x.features.getNames())))
    if isinstance(x, pd.DataFrame):
        return ('frame', canon(x.values.tolist(), depth + 1),
                tuple(map(str, x.index)), tuple(map(str, x.columns)))
    if isinstance(x, pd.Series):
        return ('series', canon(list(x.values), depth + 1),
                tuple(map(str, x.index)))
    if scipy.sparse.issparse(x):
        return ('sparse', canon(x.toarray().tolist(), depth + 1))
    if isinstance(x, np.ndarray):
        return ('array', x.shape, canon(x.tolist(), depth + 1))
    if isinstance(x, dict):
        items = [(canon(k, depth + 1), canon(v, depth + 1))
                 for k, v in x.items()]
        return ('dict', tuple(sorted(items, key=repr)))
    if isinstance(x, (list, tuple)):
        return tuple(canon(v, depth + 1) for v in x)
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted((canon(v, depth + 1) for v in x),
                                    key=repr)))
    if missing(x):
        return None
    if isinstance(x, (bool, np.bool_)):
        return float(x)
    if isinstance(x, numbers.Complex):
        if isinstance(x, numbers.Real):
            return float(x)
        return complex(x)
    if isinstance(x, str):
        return str(x)
    if callable(x):
        return 'callable'
    return repr(x)


def canon_same(a, b, tol=1e-9):
    if isinstance(a, tuple) and isinstance(b, tuple):
        if len(a) != len(b):
            return False
        if a and a[0] == 'dict' and b[0] == 'dict':
            return dict_same(a[1], b[1], tol)
        return all(canon_same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, tuple) or isinstance(b, tuple):
        return False
    if isinstance(a, (bool, float, int)) and isinstance(b, (bool, float,
                                                            int)):
        return same(a, b, tol)
    return a == b


def dict_same(a, b, tol):
    if len(a) != len(b):
        return False
    left = list(b)
    for k, v in a:
        for i, (k2, v2) in enumerate(left):
            if canon_same(k, k2, tol) and canon_same(v, v2, tol):
                del left[i]
                break
        else:
            return False
    return True


def mutate_deep(x, k=0, depth=0):
    """
    Change in place everything that can be changed in a returned value.
    Views and immutable things are left. Gives how many things were changed.
    """
    if depth > 4:
        return 0
    if isinstance(x, Base):
        return mutate_object(x, k)
    if isinstance(x, pd.DataFrame):
        if x.size:
            try:
                x.iloc[:, :] = 0
                x.iloc[0, 0] = 77
                for block in x.to_numpy(copy=False), :
                    block[...] = 55
            except (ValueError, TypeError):
                pass
            return 1
        return 0
    if isinstance(x, pd.Series):
        try:
            x.iloc[0] = 77
        except (ValueError, TypeError, IndexError):
            return 0
        return 1
    if scipy.sparse.issparse(x):
        if x.data.size and x.data.dtype != object:
            try:
                x.data[...] = 77
            except (ValueError, TypeError):
                pass
        for part in ('row', 'col', 'indices', 'indptr'):
            arr = getattr(x, part, None)
            if isinstance(arr, np.ndarray) and arr.size \
                    and arr.flags.writeable:
                arr[...] = 0
        return 1
    if isinstance(x, np.ndarray):
        if x.size and x.flags.writeable:
            try:
                x[...] = 77
            except (ValueError, TypeError):
                x[...] = 'zz'
            return 1
        return 0
    if isinstance(x, dict):
        n = sum(mutate_deep(v, k, depth + 1) for v in list(x.values()))
        x.clear()
        return n + 1
    if isinstance(x, list):
        n = sum(mutate_deep(v, k, depth + 1) for v in x)
        x.clear()
        return n + 1
    if isinstance(x, tuple):
        return sum(mutate_deep(v, k, depth + 1) for v in x)
    return 0


def unnamed(x, axis):
    c = x.copy()
    getattr(c, axis).setNames(None, useLog=False)
    return c


def mutate_object(x, k=0):
    """
    In-place changes to a data object, of values, names and shape; k tells
    which of them comes first, since each may end the sharing that another
    one would show.
    """
    from nimble.core.data import BaseView
    if isinstance(x, BaseView):
        return 0
    p, f = len(x.points), len(x.features)
    if not p or not f:
        return 0
    done = 0
    changes = (
            lambda: x.__setitem__((0, 0), 77),
            lambda: x.transformElements(lambda v: 55, useLog=False),
            lambda: x.points.setNames(['m%d' % i for i in range(p)],
                                      useLog=False),
            lambda: x.features.setNames(['m%d' % i for i in range(f)],
                                        useLog=False),
            lambda: x.points.permute(list(range(p))[::-1], useLog=False),
            lambda: x.features.permute(list(range(f))[::-1], useLog=False),
            lambda: x.__imul__(3),
            lambda: x.points.fillMatching(1, 165, useLog=False),
            lambda: x.points.delete(0, useLog=False),
            lambda: x.features.delete(0, useLog=False),
            lambda: x.points.append(unnamed(x, 'points'), useLog=False),
            lambda: x.features.insert(0, unnamed(x, 'features'),
                                      useLog=False),
            lambda: x.flatten(useLog=False),
            lambda: x.transpose(useLog=False))
    k %= len(changes)
    for change in changes[k:] + changes[:k]:
        try:
            change()
            done += 1
        except Exception:
            pass
    return done


# ---------------------------------------------------------- named functions

def f_len(v):
    return len(str(v)) if isinstance(v, str) else v


UNARY = {
    'double': lambda v: v * 2,
    'inc': lambda v: v + 1,
    'zero': lambda v: 0,
    'isnum': lambda v: 1 if is_num(v) else 0,
    'none_if_pos': lambda v: None if is_num(v) and v > 0 else v,
    'const': lambda v: 5,
    'neg': lambda v: v * -1,
}
SAFE_UNARY = ('zero', 'isnum', 'none_if_pos', 'const')
PRED = {
    'pos': lambda v: is_num(v) and v > 0,
    'zero': lambda v: is_num(v) and v == 0,
    'missing': missing,
    'str': lambda v: isinstance(v, str),
    'any': lambda v: True,
    'none': lambda v: False,
}
TERNARY = {
    'pos_ij': lambda v, i, j: 10 * i + j,
    'v_even': lambda v, i, j: v if (i + j) % 2 else 0,
}


def numeric(t):
    return all(is_num(v) for r in t.rows for v in r)


def no_missing(t):
    return not any(missing(v) for r in t.rows for v in r)


def need(cond):
    if not cond:
        raise Skip()


def func1(r, t):
    if numeric(t):
        return UNARY[r.pick(sorted(UNARY))]
    return UNARY[r.pick(SAFE_UNARY)]


def limit(r, names, none=True):
    """A limit on points or features: None, one or several."""
    n = len(names)
    how = r.k() % 3
    if how == 0 and none or not n:
        return None
    if how == 1:
        return r.ident(names, r.idx(n))
    return r.idents(names, sorted(r.subset(n)) if r.bool()
                    else r.subset(n))


def value_in(r, t):
    need(t.np and t.nf)
    return t.rows[r.idx(t.np)][r.idx(t.nf)]


# ------------------------------------------------------------------ queries

FORMS = ['List', 'Matrix', 'Sparse', 'DataFrame', 'pythonlist', 'numpyarray',
         'numpymatrix', 'scipycsr', 'scipycsc', 'scipycoo',
         'pandasdataframe', 'dictoflist', 'listofdict']


@op(QUERY, ANY, 'fresh')
def copy_to(o, r, env):
    form = r.pick(FORMS)
    rows = r.bool() or r.bool()
    need(form not in ('Sparse', 'scipycsr', 'scipycsc', 'scipycoo')
         or sparse_ok(env.t.rows))
    if form in ('dictoflist', 'listofdict'):
        need(env.t.np and env.t.nf)
    return o.copy(to=form, rowsArePoints=rows)


@op(QUERY, ANY, 'fresh')
def copy_1d(o, r, env):
    need(env.t.np and env.t.nf and 1 in (env.t.np, env.t.nf))
    return o.copy(to=r.pick(['pythonlist', 'numpyarray']), outputAs1D=True)


@op(QUERY, ANY, 'fresh')
def copy_plain(o, r, env):
    import copy
    how = r.k() % 3
    if how == 0:
        return o.copy()
    return copy.copy(o) if how == 1 else copy.deepcopy(o)


def copy_axis(axis):
    def run(o, r, env):
        nm = env.t.anames(axis)
        n = len(nm)
        ax = axis_of(o, axis)
        how = r.k() % 4
        if how == 0:
            return ax.copy(r.idents(nm, r.subset(n)), useLog=False)
        if how == 1:
            need(n)
            a, b = sorted((r.idx(n), r.idx(n)))
            return ax.copy(start=r.ident(nm, a), end=r.ident(nm, b),
                           useLog=False)
        if how == 2:
            need(n)
            return ax.copy(number=1 + r.idx(n), useLog=False)
        pred = PRED[r.pick(sorted(PRED))]
        need(n)
        return ax.copy(lambda v: pred(v[0]), useLog=False)
    return run


@op(QUERY, ANY, 'fresh')
def points_copy(o, r, env):
    need(env.t.np and env.t.nf)
    return copy_axis('point')(o, r, env)


@op(QUERY, ANY, 'fresh')
def features_copy(o, r, env):
    need(env.t.np and env.t.nf)
    return copy_axis('feature')(o, r, env)


@op(QUERY, ANY)
def names_and_shape(o, r, env):
    one = 1 in (len(o.points), len(o.features))
    return (len(o.points), len(o.features), o.shape, tuple(o.dimensions),
            o.points.getNames(), o.features.getNames(),
            len(o) if one else None, bool(o))


@op(QUERY, ANY)
def name_lookup(o, r, env):
    t = env.t
    ret = []
    for ax, nm in ((o.points, t.pn), (o.features, t.fn)):
        for i, x in enumerate(nm):
            ret.append(ax.getName(i))
            if x is not None:
                ret += [ax.getIndex(x), ax.hasName(x)]
        ret.append(ax.hasName('absent'))
    return ret


def key_of(r, nm):
    """A key for one axis of __getitem__."""
    n = len(nm)
    how = r.k() % 6
    if how <= 1:
        return r.ident(nm, r.idx(n))
    if how == 2:
        return r.idents(nm, r.subset(n))
    if how == 3:
        return slice(None)
    if how == 4:
        a, b = sorted((r.idx(n), r.idx(n)))
        return slice(a, b)
    bits = [r.bool() for _ in range(n)]
    return bits if any(bits) else slice(None)


@op(QUERY, ANY, 'fresh')
def getitem(o, r, env):
    need(env.t.np and env.t.nf)
    return o[key_of(r, env.t.pn), key_of(r, env.t.fn)]


@op(QUERY, ANY, 'fresh')
def getitem_axis(o, r, env):
    need(env.t.np and env.t.nf)
    if r.bool():
        return o.points[key_of(r, env.t.pn)]
    return o.features[key_of(r, env.t.fn)]


@op(QUERY, ANY)
def elements_by_index(o, r, env):
    return [[o[i, j] for j in range(env.t.nf)] for i in range(env.t.np)]


@op(QUERY, ANY)
def iterate_axis(o, r, env):
    ax = o.points if r.bool() else o.features
    return [list(v) for v in ax]


@op(QUERY, ANY)
def iterate_object(o, r, env):
    need(env.t.np and env.t.nf and 1 in (env.t.np, env.t.nf))
    return list(o)


@op(QUERY, ANY)
def iterate_elements(o, r, env):
    only = r.pick([None] + sorted(PRED))
    return list(o.iterateElements(order=r.pick(['point', 'feature']),
                                  only=PRED[only] if only else None))


@op(QUERY, ANY)
def part_view(o, r, env):
    """Reading a view of the object."""
    t = env.t
    need(t.np and t.nf)
    how = r.k() % 3
    if how == 0:
        return [list(o.pointView(r.ident(t.pn, r.idx(t.np))))]
    if how == 1:
        return [list(o.featureView(r.ident(t.fn, r.idx(t.nf))))]
    a, b = sorted((r.idx(t.np), r.idx(t.np)))
    c, d = sorted((r.idx(t.nf), r.idx(t.nf)))
    v = o.view(r.ident(t.pn, a), r.ident(t.pn, b), r.ident(t.fn, c),
               r.ident(t.fn, d))
    return canon(v)


@op(QUERY, ANY, 'fresh')
def calculate_on_elements(o, r, env):
    t = env.t
    need(t.np and t.nf)
    f = func1(r, t)
    kw = {}
    pz = r.bool()
    if r.bool():
        kw['skipNoneReturnValues'] = True
    return o.calculateOnElements(f, points=limit(r, t.pn),
                                 features=limit(r, t.fn), preserveZeros=pz,
                                 useLog=False, **kw)


@op(QUERY, ANY, 'fresh')
def calculate_on_elements3(o, r, env):
    t = env.t
    need(t.np and t.nf)
    f = TERNARY[r.pick(sorted(TERNARY))]
    return o.calculateOnElements(f, points=limit(r, t.pn),
                                 features=limit(r, t.fn), useLog=False)


@op(QUERY, ANY, 'fresh')
def matching_elements(o, r, env):
    t = env.t
    need(t.np and t.nf)
    how = r.k() % 3
    if how == 0:
        m = PRED[r.pick(sorted(PRED))]
    elif how == 1:
        m = value_in(r, t)
        need(not missing(m) and not isinstance(m, str))
    else:
        need(numeric(t))
        m = r.pick(['> 0', '== 0', '!= 1', '<= 2', 'is missing',
                    'is nonZero'])
    return o.matchingElements(m, points=limit(r, t.pn),
                              features=limit(r, t.fn), useLog=False)


@op(QUERY, ANY)
def count_elements(o, r, env):
    need(env.t.np and env.t.nf)
    if r.bool() and numeric(env.t):
        return o.countElements(r.pick(['> 0', '== 0', '<= 2']))
    return o.countElements(PRED[r.pick(sorted(PRED))])


@op(QUERY, ANY, 'fresh')
def count_unique(o, r, env):
    need(env.t.np and env.t.nf and no_missing(env.t))
    return o.countUniqueElements(points=limit(r, env.t.pn),
                                 features=limit(r, env.t.fn))


@op(QUERY, ANY, 'fresh')
def group_by(o, r, env):
    t = env.t
    need(t.np and t.nf)
    by = r.subset(t.nf)[:2]
    need(len(by) < t.nf)
    need(all(not missing(row[j]) for row in t.rows for j in by))
    by = r.idents(t.fn, by)
    if len(by) == 1 and r.bool():
        by = by[0]
    count = r.k() % 4 == 0
    return o.groupByFeature(by, countUniqueValueOnly=count, useLog=False)


@op(QUERY, ANY)
def identical_to(o, r, env):
    need(env.t.np and env.t.nf)
    other = env.make([list(x) for x in env.t.rows], env.t.pn, env.t.fn,
                     rtype=o.getTypeString())
    return (o.isIdentical(other), other.isIdentical(o),
            o.isIdentical(o))


@op(QUERY, NUM)
def approximately(o, r, env):
    need(env.t.np and env.t.nf)
    other = env.make([[v + 1e-12 for v in x] for x in env.t.rows],
                     env.t.pn, env.t.fn)
    return o.isApproximatelyEqual(other)


@op(QUERY, ANY, 'fresh')
def split_ordered(o, r, env):
    t = env.t
    need(t.np >= 2 and t.nf >= 2)
    labels = r.pick([None, 'one', 'two'])
    if labels == 'one':
        labels = r.ident(t.fn, r.idx(t.nf))
    elif labels == 'two':
        need(t.nf >= 3)
        labels = r.idents(t.fn, r.subset(t.nf, 2)[:2])
    return o.trainAndTestSets(r.pick([0.2, 0.5, 0.34]), labels=labels,
                              randomOrder=False, useLog=False)


@op(QUERY, ANY, 'fresh', 'random')
def split_random(o, r, env):
    t = env.t
    need(t.np >= 2 and t.nf >= 2)
    with nimble.random.alternateControl(seed=r.k(), useLog=False):
        return o.trainAndTestSets(r.pick([0.2, 0.5]), labels=r.pick(
            [None, 0]), useLog=False)


@op(QUERY, ANY, 'text')
def to_string(o, r, env):
    return o.toString()


@op(QUERY, ANY, 'text')
def printed(o, r, env):
    return (repr(o), str(o), repr(o.points), repr(o.features))


@op(QUERY, ANY)
def contains_zero(o, r, env):
    return bool(o.containsZero())


@op(QUERY, ANY, 'fresh')
def transposed(o, r, env):
    return o.T


STATS = ['max', 'mean', 'median', 'min', 'uniqueCount', 'proportionMissing',
         'proportionZero', 'mode', 'sum', 'variance', 'standardDeviation',
         'medianAbsoluteDeviation', 'quartiles',
         'populationStandardDeviation']


@op(QUERY, REALNAN, 'fresh')
def axis_statistics(o, r, env):
    need(env.t.np and env.t.nf)
    ax = o.points if r.bool() else o.features
    name = r.pick(STATS)
    if r.bool():
        return getattr(ax, name)()
    return ax.statistics(name)


@op(QUERY, REALNAN)
def object_statistics(o, r, env):
    need(env.t.np and env.t.nf)
    name = r.pick([s for s in STATS if s != 'populationStandardDeviation'])
    need(hasattr(type(o), name))
    return getattr(o, name)()


@op(QUERY, REAL, 'fresh')
def grouped_statistics(o, r, env):
    t = env.t
    need(t.np >= 2 and t.nf >= 2)
    return o.features.statistics(r.pick(['mean', 'sum', 'max', 'min']),
                                 groupByFeature=r.ident(t.fn,
                                                        r.idx(t.nf)))


@op(QUERY, REALNAN, 'fresh')
def feature_report(o, r, env):
    need(env.t.np and env.t.nf)
    return o.features.report(useLog=False)


@op(QUERY, REALNAN, 'fresh')
def object_report(o, r, env):
    need(env.t.np and env.t.nf)
    return o.report(useLog=False)


@op(QUERY, REAL, 'fresh')
def similarities(o, r, env):
    need(env.t.np >= 2 and env.t.nf >= 2)
    ax = o.points if r.bool() else o.features
    return ax.similarities(r.pick(['covariance', 'dot product',
                                   'population covariance',
                                   'sample covariance']))


def ax_func(r, t):
    """A function of a point or feature view."""
    how = r.k() % 5
    if how == 0:
        return lambda v: len(v)
    if how == 1:
        return lambda v: v[len(v) - 1]
    if how == 2:
        return lambda v: sum(1 for x in v if is_num(x) and x > 0)
    if how == 3:
        return lambda v: [x for x in v][::-1]
    return lambda v: [v[0], len(v)]


@op(QUERY, ANY, 'fresh')
def axis_calculate(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    return axis_of(o, axis).calculate(ax_func(r, t),
                                      limit(r, t.anames(axis)),
                                      useLog=False)


@op(QUERY, ANY)
def axis_count(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    pred = PRED[r.pick(sorted(PRED))]
    return axis_of(o, axis).count(lambda v: pred(v[0]))


@op(QUERY, ANY, 'fresh')
def axis_matching(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    pred = PRED[r.pick(sorted(PRED))]
    return axis_of(o, axis).matching(lambda v: pred(v[0]), useLog=False)


@op(QUERY, ANY, 'fresh')
def map_reduce(o, r, env):
    need(env.t.np and env.t.nf)

    def mapper(pt):
        return [(1 if is_num(pt[0]) and pt[0] > 0 else 0, 1)]

    def reducer(key, vals):
        return (key, sum(vals))
    return o.points.mapReduce(mapper, reducer, useLog=False)


@op(QUERY, ANY, 'fresh')
def repeat(o, r, env):
    need(env.t.np and env.t.nf)
    ax = o.points if r.bool() else o.features
    return ax.repeat(r.pick([1, 2, 3]), r.bool(), useLog=False)


@op(QUERY, ANY, 'fresh')
def unique(o, r, env):
    need(env.t.np and env.t.nf)
    ax = o.points if r.bool() else o.features
    return ax.unique()


SCALARS = [0, 1, 2, -1, 0.5, -2.5, 3]


@op(QUERY, NUMNAN, 'fresh')
def arith_scalar(o, r, env):
    import operator
    f = r.pick([operator.add, operator.sub, operator.mul, operator.truediv,
                operator.floordiv, operator.mod])
    v = r.pick([1, 2, -1, 0.5, -2.5, 3])
    need(env.t.np and env.t.nf)
    need(not all_bool(env.t))
    return f(o, v)


@op(QUERY, NUMNAN, 'fresh')
def arith_reflected(o, r, env):
    import operator
    f = r.pick([operator.add, operator.sub, operator.mul])
    need(env.t.np and env.t.nf)
    need(not all_bool(env.t))
    return f(r.pick(SCALARS), o)


def all_bool(t):
    return any(isinstance(v, bool) for x in t.rows for v in x)


def other_numbers(r, t, zero=True):
    vals = [0, 1, 2, -1, 0.5, 3] if zero else [1, 2, -1, 0.5, 3]
    return [[vals[r.k() % len(vals)] for _ in range(t.nf)]
            for _ in range(t.np)]


@op(QUERY, NUMNAN, 'fresh')
def arith_object(o, r, env):
    import operator
    t = env.t
    need(t.np and t.nf)
    need(not all_bool(t))
    f = r.pick([operator.add, operator.sub, operator.mul, operator.truediv,
                operator.floordiv, operator.mod])
    b = env.make(other_numbers(r, t, f in (operator.add, operator.sub,
                                           operator.mul)),
                 r.pick([None, t.pn]), r.pick([None, t.fn]), t.nf)
    return f(o, b) if r.bool() or f not in (operator.add, operator.sub,
                                            operator.mul) else f(b, o)


@op(QUERY, NUM, 'fresh')
def compare_object(o, r, env):
    import operator
    t = env.t
    need(t.np and t.nf)
    f = r.pick([operator.eq, operator.ne])
    if r.bool():
        return f(o, r.pick(SCALARS))
    b = env.make(other_numbers(r, t), t.pn, t.fn, t.nf,
                 rtype=o.getTypeString())
    return f(o, b)


@op(QUERY, REAL, 'fresh')
def unary(o, r, env):
    need(env.t.np and env.t.nf)
    how = r.k() % 4
    if how == 0:
        return -o
    if how == 1:
        return +o
    if how == 2:
        return abs(o)
    return o ** 2


@op(QUERY, ('bool',), 'fresh')
def logical(o, r, env):
    t = env.t
    need(t.np and t.nf)
    how = r.k() % 4
    if how == 0:
        return ~o
    b = env.make([[r.bool() for _ in range(t.nf)] for _ in range(t.np)],
                 t.pn, t.fn, t.nf)
    return o & b if how == 1 else o | b if how == 2 else o ^ b


@op(QUERY, REAL, 'fresh')
def matmul(o, r, env):
    t = env.t
    need(t.np and t.nf)
    k = 1 + r.k() % 3
    b = env.make([[r.pick([0, 1, -1, 2, 0.5]) for _ in range(k)]
                  for _ in range(t.nf)])
    return o @ b if r.bool() else o.matrixMultiply(b)


@op(QUERY, REAL, 'fresh')
def stretched(o, r, env):
    t = env.t
    need(t.np and t.nf)
    if r.bool():
        b = env.make([[r.pick([1, -1, 2, 0.5]) for _ in range(t.nf)]])
    else:
        b = env.make([[r.pick([1, -1, 2, 0.5])] for _ in range(t.np)])
    need(1 in (len(b.points), len(b.features)))
    import operator
    f = r.pick([operator.add, operator.sub, operator.mul])
    return f(o, b.stretch) if r.bool() else f(b.stretch, o)


@op(QUERY, ANY, 'fresh')
def remade(o, r, env):
    """A new object made from the object."""
    rt = r.pick([None, 'List', 'Matrix', 'Sparse', 'DataFrame'])
    need(rt != 'Sparse' or sparse_ok(env.t.rows))
    need(env.t.np and env.t.nf)
    return nimble.data(o, returnType=rt, useLog=False)


@op(QUERY, REAL, 'fresh')
def calc_functions(o, r, env):
    need(env.t.np >= 1 and env.t.nf)
    j = r.idx(env.t.nf)
    f = getattr(nimble.calculate, r.pick(
        ['mean', 'median', 'maximum', 'minimum', 'sum', 'mode', 'variance',
         'uniqueCount', 'proportionZero', 'quartiles', 'count',
         'standardDeviation']))
    return f(o.features.copy(j, useLog=False) if r.bool()
             else o.featureView(j))


@op(QUERY, ANY)
def hash_code(o, r, env):
    need(numeric(env.t))
    return o.hashCode()


# ----------------------------------------------------------------- in place

@op(INPLACE)
def transpose(o, r, env):
    o.transpose(useLog=False)


@op(INPLACE)
def set_names(o, r, env):
    axis = r.pick(['point', 'feature'])
    n = env.t.count(axis)
    need(n)
    if r.bool():
        axis_of(o, axis).setNames(['s%d' % i for i in range(n)],
                                  useLog=False)
    else:
        axis_of(o, axis).setNames('sss', oldIdentifiers=r.idx(n),
                                  useLog=False)


@op(INPLACE)
def set_item(o, r, env):
    t = env.t
    need(t.np and t.nf)
    v = r.pick([0, 1, 2.5, -1])
    need(not all_bool(t))
    o[r.ident(t.pn, r.idx(t.np)), r.ident(t.fn, r.idx(t.nf))] = v


@op(INPLACE)
def set_slice(o, r, env):
    t = env.t
    need(t.np and t.nf)
    need(not all_bool(t))
    o[key_of(r, t.pn), key_of(r, t.fn)] = r.pick([0, 1, 2.5, -1])


@op(INPLACE)
def transform_elements(o, r, env):
    t = env.t
    need(t.np and t.nf)
    f = func1(r, t)
    o.transformElements(f, points=limit(r, t.pn), features=limit(r, t.fn),
                        preserveZeros=r.bool(),
                        skipNoneReturnValues=r.bool(), useLog=False)


@op(INPLACE)
def transform_elements3(o, r, env):
    t = env.t
    need(t.np and t.nf)
    o.transformElements(TERNARY[r.pick(sorted(TERNARY))],
                        points=limit(r, t.pn), features=limit(r, t.fn),
                        useLog=False)


@op(INPLACE, ('int', 'float', 'nan', 'str', 'strnan'))
def binary_features(o, r, env):
    t = env.t
    need(t.np and t.nf)
    j = r.idx(t.nf)
    need(not any(missing(x[j]) for x in t.rows))
    return o.replaceFeatureWithBinaryFeatures(r.ident(t.fn, j),
                                              useLog=False)


@op(INPLACE)
def to_integers(o, r, env):
    t = env.t
    need(t.np and t.nf)
    j = r.idx(t.nf)
    need(not any(missing(x[j]) for x in t.rows))
    return o.transformFeatureToIntegers(r.ident(t.fn, j), useLog=False)


@op(INPLACE)
def replace_rectangle(o, r, env):
    t = env.t
    need(t.np and t.nf)
    need(not all_bool(t))
    a, b = sorted((r.idx(t.np), r.idx(t.np)))
    c, d = sorted((r.idx(t.nf), r.idx(t.nf)))
    if r.bool():
        o.replaceRectangle(r.pick([0, 1, 2.5]), r.ident(t.pn, a),
                           r.ident(t.fn, c), r.ident(t.pn, b),
                           r.ident(t.fn, d), useLog=False)
    else:
        rows = [[r.pick([0, 1, 2.5, -3]) for _ in range(d - c + 1)]
                for _ in range(b - a + 1)]
        o.replaceRectangle(env.make(rows), r.ident(t.pn, a),
                           r.ident(t.fn, c), b, d, useLog=False)


@op(INPLACE)
def flatten(o, r, env):
    need(env.t.np and env.t.nf)
    o.flatten(order=r.pick(['point', 'feature']), useLog=False)


@op(INPLACE)
def flatten_unflatten(o, r, env):
    t = env.t
    need(t.np and t.nf)
    order = r.pick(['point', 'feature'])
    o.flatten(order=order, useLog=False)
    o.unflatten((t.np, t.nf), order=order, useLog=False)


@op(INPLACE)
def axis_remove(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    nm = t.anames(axis)
    what = r.pick(['extract', 'delete', 'retain'])
    ax = axis_of(o, axis)
    how = r.k() % 3
    if how == 0:
        return getattr(ax, what)(r.idents(nm, r.subset(len(nm))),
                                 useLog=False)
    if how == 1:
        a, b = sorted((r.idx(len(nm)), r.idx(len(nm))))
        return getattr(ax, what)(start=a, end=b, useLog=False)
    pred = PRED[r.pick(sorted(PRED))]
    return getattr(ax, what)(lambda v: pred(v[0]), useLog=False)


@op(INPLACE)
def axis_permute(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    nm = t.anames(axis)
    axis_of(o, axis).permute(r.idents(nm, r.perm(len(nm))), useLog=False)


@op(INPLACE, REAL)
def axis_sort(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    off = 'feature' if axis == 'point' else 'point'
    nm = t.anames(off)
    how = r.k() % 2
    ax = axis_of(o, axis)
    if how == 0:
        by = r.idents(nm, r.subset(len(nm))[:2])
        ax.sort(by if r.bool() else by[0], reverse=r.bool(), useLog=False)
    else:
        ax.sort(lambda v: v[0], reverse=r.bool(), useLog=False)


@op(INPLACE)
def axis_insert(o, r, env):
    t0 = env.t
    need(t0.np and t0.nf)
    axis = r.pick(['point', 'feature'])
    off = 'feature' if axis == 'point' else 'point'
    t = t0.along(axis)
    n = 1 + r.k() % 2
    vals = sorted({repr(v): v for row in t.rows for v in row}.items())
    rows = [[r.pick(vals)[1] for _ in range(t.nf)] for _ in range(n)]
    names = r.pick([None, ['new%d' % i for i in range(n)]])
    add = Table.back(Table(rows, names, r.pick([None, t0.anames(off)]),
                           t.nf), axis)
    b = env.make(add.rows, add.pn, add.fn, add.nf)
    if r.bool():
        axis_of(o, axis).append(b, useLog=False)
    else:
        axis_of(o, axis).insert(r.idx(t.np), b, useLog=False)


@op(INPLACE)
def axis_replace(o, r, env):
    t0 = env.t
    need(t0.np and t0.nf)
    axis = r.pick(['point', 'feature'])
    t = t0.along(axis)
    idx = r.subset(t.np)
    vals = sorted({repr(v): v for row in t.rows for v in row}.items())
    rows = [[r.pick(vals)[1] for _ in range(t.nf)] for _ in idx]
    add = Table.back(Table(rows, None, None, t.nf), axis)
    b = env.make(add.rows, None, None, add.nf)
    kw = {axis + 's': r.idents(t.pn, idx)}
    axis_of(o, axis).replace(b, useLog=False, **kw)


@op(INPLACE, NUMNAN)
def axis_fill(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    fill = r.pick([0, 7, nimble.fill.mean, nimble.fill.median,
                   nimble.fill.mode, nimble.fill.forwardFill,
                   nimble.fill.backwardFill, nimble.fill.interpolate])
    match = r.pick([0, nimble.match.missing, 'is missing', [0, 1],
                    '> 1'])
    axis_of(o, axis).fillMatching(fill, match, limit(r, t.anames(axis)),
                                  useLog=False)


@op(INPLACE, ANY)
def axis_transform(o, r, env):
    t = env.t
    need(t.np and t.nf)
    axis = r.pick(['point', 'feature'])
    f = r.pick([lambda v: [x for x in v][::-1],
                lambda v: [1] * len(v),
                lambda v: [x for x in v]])
    axis_of(o, axis).transform(f, limit(r, t.anames(axis)), useLog=False)


@op(INPLACE, REAL)
def normalize(o, r, env):
    t = env.t
    need(t.np >= 2 and t.nf)
    o.features.normalize(r.pick([nimble.calculate.meanNormalize,
                                 nimble.calculate.meanStandardDeviationNormalize,
                                 nimble.calculate.range0to1Normalize]),
                         features=limit(r, t.fn), useLog=False)


@op(INPLACE, ANY)
def collapse(o, r, env):
    t = env.t
    need(t.np and t.nf >= 2)
    need(all(x is not None for x in t.fn))
    o.points.splitByCollapsingFeatures(
        r.idents(t.fn, r.subset(t.nf)), 'kkey', 'vval', useLog=False)


@op(INPLACE, ANY)
def expand(o, r, env):
    t = env.t
    need(t.np and t.nf >= 2)
    need(no_missing(t))
    need(not any(n and n[0].isdigit() for n in t.fn or []))
    a, b = r.subset(t.nf, 2)[:2]
    o.points.combineByExpandingFeatures(r.ident(t.fn, a),
                                        r.ident(t.fn, b), useLog=False)


@op(INPLACE, ('str', 'int'))
def parse_feature(o, r, env):
    t = env.t
    need(t.np and t.nf)
    j = r.idx(t.nf)

    def rule(v):
        return [str(v)[:1], str(v)[1:]]
    o.features.splitByParsing(r.ident(t.fn, j), rule, ['part1', 'part2'],
                              useLog=False)


@op(INPLACE, NUMNAN)
def arith_inplace(o, r, env):
    t = env.t
    need(t.np and t.nf)
    need(not all_bool(t))
    name = r.pick(['__iadd__', '__isub__', '__imul__', '__itruediv__',
                   '__ifloordiv__', '__imod__'])
    if r.bool():
        v = r.pick([1, 2, -1, 0.5, -2.5, 3])
    else:
        v = env.make(other_numbers(r, t, name in ('__iadd__', '__isub__',
                                                  '__imul__')),
                     r.pick([None, t.pn]), r.pick([None, t.fn]), t.nf)
    ret = getattr(o, name)(v)
    if ret is not o:
        raise AssertionError('%s gave another object' % name)


@op(INPLACE, ANY)
def merge(o, r, env):
    t = env.t
    need(t.np and t.nf)
    need(all(x is not None for x in t.fn))
    need(all(x is not None for x in t.pn))
    need('mm' not in t.fn and 'nn' not in t.pn)
    k = r.subset(t.np)
    pn = [t.pn[i] for i in k] + ['nn']
    rows = [[r.pick([0, 1, 2.5, -1])] for _ in pn]
    o.merge(env.make(rows, pn, ['mm']), point=r.pick(
        ['union', 'intersection', 'left']), feature='union', useLog=False)


@op(INPLACE, ANY)
def reference_from(o, r, env):
    t = env.t
    need(t.np and t.nf)
    o._referenceFrom(env.make([[1, 2], [0, 3]], ['u', 'v'], None,
                              rtype=o.getTypeString()))


REGISTRY = {o.name: o for o in OPS}
assert len(REGISTRY) == len(OPS)
