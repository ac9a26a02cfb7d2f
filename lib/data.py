"""Generated tables, the reference model of a table, and observation."""
import math

import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Violation, ensure, same, same_rows

nan = float('nan')
TYPES = ('List', 'Matrix', 'Sparse', 'DataFrame')

types = st.sampled_from(TYPES)
ints = st.sampled_from([0, 0, 1, 2, 3, -1, -2, 5, 7])
# quarters: sums and products of a few of them are exact
floats = st.sampled_from([0.0, 0.0, 1.0, 0.5, -0.25, 2.5, -1.5, 3.0, 4.75])
bools = st.booleans()
strings = st.sampled_from(['a', 'b', 'c', 'aa', 'B', 'x y', '1', '0', 'é'])
KINDS = ('int', 'float', 'nan', 'bool', 'str', 'strnan', 'mixed')
NUMERIC = ('int', 'float', 'bool')


def value_of(kind):
    return {
        'int': ints, 'float': floats, 'bool': bools, 'str': strings,
        'posint': st.integers(1, 9),
        'nan': st.one_of(floats, floats, st.just(nan)),
        'strnan': st.one_of(strings, strings, st.just(nan)),
        'mixed': st.one_of(ints, floats, strings, st.just(nan)),
    }[kind]


NAMEPOOL = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'x y', '0', '1', 'A',
            'é', 'p1', 'sum', 'long name 12', '_z', '-1', '2.5', 'q']


def names(n, partial=True, pool=None):
    """None, a full list of n distinct names, or a list with some None."""
    pool = pool or NAMEPOOL
    full = st.permutations(pool).map(lambda p: list(p[:n]))
    opts = [st.none(), full]
    if partial and n:
        opts.append(st.tuples(full, st.lists(st.booleans(), min_size=n,
                                             max_size=n)).map(
            lambda t: [x if k else None for x, k in zip(*t)]))
    return st.one_of(*opts)


@st.composite
def tables(draw, min_p=1, max_p=5, min_f=1, max_f=5, kinds=KINDS,
           percol=True, naming=True, partial=True):
    """{'rows','pn','fn','kinds'}: plain data."""
    p = draw(st.integers(min_p, max_p))
    f = draw(st.integers(min_f, max_f))
    if percol and draw(st.booleans()):
        ks = [draw(st.sampled_from(kinds)) for _ in range(f)]
    else:
        ks = [draw(st.sampled_from(kinds))] * f
    cols = [draw(st.lists(value_of(k), min_size=p, max_size=p)) for k in ks]
    rows = [[cols[j][i] for j in range(f)] for i in range(p)]
    pn = draw(names(p, partial)) if naming else None
    fn = draw(names(f, partial)) if naming else None
    return {'rows': rows, 'pn': pn, 'fn': fn, 'f': f}


def sparse_ok(rows):
    """
    Can this content be held by a Sparse object in this environment? SciPy
    from 1.11 on has no object dtype, so only all-bool or all-number content
    can (see the known finding C01-sparse-object).
    """
    flat = [v for r in rows for v in r]
    if any(isinstance(v, str) or v is None for v in flat):
        return False
    nb = sum(isinstance(v, (bool, np.bool_)) for v in flat)
    return nb == 0 or nb == len(flat)


@st.composite
def typed_tables(draw, kinds=KINDS, types=types, **kw):
    """A table together with a type that can hold it, under 'type'."""
    rtype = draw(types)
    if rtype == 'Sparse':
        ks = [k for k in kinds if k in ('int', 'float', 'nan', 'posint')]
        if 'bool' in kinds and (not ks or draw(st.integers(0, 5)) == 0):
            ks = ['bool']
        kinds = ks
    t = draw(tables(kinds=kinds, **kw))
    t['type'] = rtype
    return t


class Table:
    """Reference model: a list of rows and two lists of optional names."""
    def __init__(self, rows, pn, fn, nf):
        self.rows = [list(r) for r in rows]
        self.nf = nf
        self.pn = list(pn) if pn is not None else [None] * len(rows)
        self.fn = list(fn) if fn is not None else [None] * nf

    @classmethod
    def of(cls, case):
        return cls(case['rows'], case['pn'], case['fn'], case['f'])

    @property
    def np(self):
        return len(self.rows)

    def copy(self):
        return Table(self.rows, self.pn, self.fn, self.nf)

    def T(self):
        return Table([[r[j] for r in self.rows] for j in range(self.nf)],
                     self.fn, self.pn, self.np)

    def cols(self):
        return [[r[j] for r in self.rows] for j in range(self.nf)]

    # axis-generic: k lists along the axis
    def along(self, axis):
        return self if axis == 'point' else self.T()

    @staticmethod
    def back(t, axis):
        return t if axis == 'point' else t.T()

    def take(self, axis, idx):
        t = self.along(axis)
        r = Table([t.rows[i] for i in idx], [t.pn[i] for i in idx],
                  t.fn, t.nf)
        return Table.back(r, axis)

    def drop(self, axis, idx):
        n = self.count(axis)
        gone = set(idx)
        return self.take(axis, [i for i in range(n) if i not in gone])

    def count(self, axis):
        return self.np if axis == 'point' else self.nf

    def anames(self, axis):
        return self.pn if axis == 'point' else self.fn

    def insert(self, axis, at, other):
        t, o = self.along(axis), other.along(axis)
        r = Table(t.rows[:at] + o.rows + t.rows[at:],
                  t.pn[:at] + o.pn + t.pn[at:], t.fn, t.nf)
        return Table.back(r, axis)

    def __repr__(self):
        return 'Table(%r, pn=%r, fn=%r)' % (self.rows, self.pn, self.fn)


def build(case, rtype, **kw):
    """The nimble object of a generated table."""
    rows = case['rows']
    if not rows or not case['f']:
        src = np.empty((len(rows), case['f']))
    else:
        src = [list(r) for r in rows]
    pn, fn = case['pn'], case['fn']
    kw.setdefault('useLog', False)
    if isinstance(pn, (list, tuple)):
        pn = list(pn)
    if isinstance(fn, (list, tuple)):
        fn = list(fn)
    return nimble.data(src, pointNames=pn, featureNames=fn,
                       returnType=rtype, **kw)


def build_table(t, rtype, **kw):
    return build({'rows': t.rows, 'pn': t.pn, 'fn': t.fn, 'f': t.nf},
                 rtype, **kw)


def rows_of(obj):
    """The content, as a list of rows, of a two-dimensional object."""
    return obj.copy('pythonlist')


def axis_of(obj, axis):
    return obj.points if axis == 'point' else obj.features


def observe(obj):
    """A Table of what the object's accessors show."""
    t = Table(rows_of(obj), None, None, len(obj.features))
    t.pn = obj.points.getNames()
    t.fn = obj.features.getNames()
    return t


def same_names(a, b):
    a = [None if x is None else x for x in a]
    b = [None if x is None else x for x in b]
    return a == b


def ensure_table(obj, want, what, tol=0.0, names=True, rtype=None):
    """Does the object show exactly this table?"""
    if rtype is not None:
        ensure(obj.getTypeString() == rtype, what, ': type',
               obj.getTypeString(), 'expected', rtype)
    shape = (len(obj.points), len(obj.features))
    ensure(shape == (want.np, want.nf), what, ': shape', shape,
           'expected', (want.np, want.nf))
    ensure(tuple(obj.shape) == shape, what, ': .shape', obj.shape,
           'axis lengths', shape)
    got = rows_of(obj)
    if want.np and want.nf:
        if not same_rows(got, want.rows, tol):
            raise Violation('%s: data %r, expected %r'
                            % (what, got, want.rows))
    if names:
        pn, fn = obj.points.getNames(), obj.features.getNames()
        ensure(same_names(pn, want.pn), what, ': point names', pn,
               'expected', want.pn)
        ensure(same_names(fn, want.fn), what, ': feature names', fn,
               'expected', want.fn)


def ensure_consistent(obj, what):
    """
    All ways of reading an object agree: element access, whole copies,
    iteration over points and features, views and the names.
    """
    p, f = len(obj.points), len(obj.features)
    rows = rows_of(obj)
    if p and f:
        for i in range(p):
            for j in range(f):
                if not same(obj[i, j], rows[i][j]):
                    raise Violation('%s: [%d, %d] is %r but the copy has %r'
                                    % (what, i, j, obj[i, j], rows[i][j]))
        arr = obj.copy('numpyarray')
        ensure(arr.shape == (p, f), what, ': array shape', arr.shape)
        if not same_rows(arr.tolist(), rows):
            raise Violation('%s: array %r, list %r' % (what, arr.tolist(),
                                                       rows))
        it = [[x for x in pt] for pt in obj.points]
        if not same_rows(it, rows):
            raise Violation('%s: iterating points gives %r, list %r'
                            % (what, it, rows))
        it = [[x for x in ft] for ft in obj.features]
        cols = [[r[j] for r in rows] for j in range(f)]
        if not same_rows(it, cols):
            raise Violation('%s: iterating features gives %r, columns %r'
                            % (what, it, cols))
        vals = list(obj.iterateElements(order='point'))
        if not same_rows([vals], [[x for r in rows for x in r]]):
            raise Violation('%s: iterating elements gives %r, rows %r'
                            % (what, vals, rows))
    for ax, n in (('point', p), ('feature', f)):
        a = axis_of(obj, ax)
        nm = a.getNames()
        ensure(len(nm) == n, what, ax, 'names', nm, 'for', n)
        given = [x for x in nm if x is not None]
        ensure(len(set(given)) == len(given), what, ax, 'names repeat', nm)
        for k, x in enumerate(nm):
            ensure(a.getName(k) == x, what, ax, 'getName', k, a.getName(k),
                   nm)
            if x is not None:
                ensure(isinstance(x, str), what, ax, 'name', x)
                ensure(a.getIndex(x) == k, what, ax, 'getIndex', x,
                       a.getIndex(x), nm)
                ensure(a.hasName(x), what, ax, 'hasName', x)
    if rows and all(is_num(v) for r in rows for v in r):
        ensure(bool(obj.containsZero()) == any(v == 0 for r in rows
                                               for v in r),
               what, ': containsZero is', obj.containsZero(), 'for', rows)
    try:
        obj.checkInvariants()
    except AssertionError as e:
        raise Violation('%s: checkInvariants refuses the object: %r'
                        % (what, e))


def sel(n, k):
    """An index of range(n) from an arbitrary integer."""
    return k % n


def subset(n, picks):
    """Distinct indices, in the order picked."""
    ret = []
    for k in picks:
        i = k % n
        if i not in ret:
            ret.append(i)
    return ret


def ident(names, i, how, n):
    """Index i spelled as an index, a name or a negative index."""
    if how == 1 and names[i] is not None:
        return names[i]
    if how == 2:
        return i - n
    if how == 3:
        return np.int64(i)
    return i


def close(a, b, tol=1e-9):
    return same(a, b, tol)


def is_num(v):
    return isinstance(v, (int, float, bool, np.number, np.bool_)) \
        and not isinstance(v, str)


def snapshot(obj):
    """
    Everything observable of an object, for before/after comparison. Asking
    for names can make an object create them, so a copy is asked.
    """
    twin = obj.copy()
    return (obj.getTypeString(), tuple(obj.shape), obj.name,
            rows_of(obj) if len(obj.dimensions) == 2
            else obj.copy('pythonlist'),
            twin.points.getNames(), twin.features.getNames(),
            obj.absolutePath, tuple(obj.dimensions))


def ensure_same_snapshot(before, obj, what):
    after = snapshot(obj)
    for a, b, part in zip(before, after, (
            'type', 'shape', 'name', 'data', 'point names', 'feature names',
            'path', 'dimensions')):
        if part == 'data':
            ok = deep_same(a, b)
        else:
            ok = a == b
        if not ok:
            raise Violation('%s: %s was %r and became %r'
                            % (what, part, a, b))


def deep_same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(deep_same(x, y)
                                        for x, y in zip(a, b))
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        return False
    return same(a, b)


def stirred(obj, k):
    """
    The same object after operations that leave its content as it was but
    change how it is stored and what it has cached.
    """
    p, f = len(obj.points), len(obj.features)
    k %= 8
    if k == 1 and p > 1:
        for _ in range(2):
            obj.points.permute(list(range(p))[::-1], useLog=False)
    elif k == 2 and f > 1:
        for _ in range(2):
            obj.features.permute(list(range(f))[::-1], useLog=False)
    elif k == 3 and p and f:
        obj.transpose(useLog=False)
        obj.transpose(useLog=False)
    elif k == 4 and p and f:
        list(obj.iterateElements(order='feature'))
        obj.points.getNames()
    elif k == 5 and p and f:
        list(obj.iterateElements(order='point'))
        obj.features.getNames()
    elif k == 6 and p and f:
        v = obj[p - 1, f - 1]
        obj[p - 1, f - 1] = v
    elif k == 7 and p > 1:
        last = obj.points.extract(p - 1, useLog=False)
        obj.points.append(last, useLog=False)
    return obj
