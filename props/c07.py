"""C07: conversions between types and raw forms are lossless."""
import copy

import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, same_rows
from lib.data import (TYPES, Table, build, build_table, deep_same,
                      ensure_consistent, ensure_same_snapshot, ensure_table,
                      snapshot, sparse_ok, stirred, typed_tables)

RAW = ('pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc',
       'scipycoo', 'pandasdataframe', 'listofdict', 'dictoflist')
SPELL = {'pythonlist': ('python list', 'Python List', 'PYTHON.LIST'),
         'numpyarray': ('numpy array', 'numpy.array', 'NumPy Array'),
         'numpymatrix': ('numpy matrix', 'numpy.matrix'),
         'scipycsr': ('scipy csr', 'scipy.csr'),
         'scipycsc': ('scipy csc', 'SciPy CSC'),
         'scipycoo': ('scipy coo',),
         'pandasdataframe': ('pandas dataframe', 'pandas DataFrame',
                             'Pandas Data Frame'),
         'listofdict': ('list of dict', 'List of Dict'),
         'dictoflist': ('dict of list',)}


@st.composite
def cases(draw):
    t = draw(typed_tables(max_p=5, max_f=5))
    t['stir'] = draw(st.integers(0, 63))
    t['view'] = draw(st.one_of(st.none(), st.lists(
        st.integers(0, 4), min_size=4, max_size=4)))
    t['steps'] = draw(st.lists(st.tuples(
        st.sampled_from(TYPES + RAW + ('copy', 'deepcopy', 'data')),
        st.booleans(), st.integers(0, 7)), min_size=1, max_size=4))
    t['name'] = draw(st.sampled_from([None, 'some name']))
    return t


def raw_rows(raw, to, names):
    """The rows of a raw form; the names are the columns' own."""
    if to == 'pythonlist':
        ensure(isinstance(raw, list) and all(isinstance(r, list)
                                             for r in raw), to, type(raw))
        return raw
    if to == 'numpyarray':
        ensure(type(raw) is np.ndarray, to, type(raw))
        return raw.tolist()
    if to == 'numpymatrix':
        ensure(isinstance(raw, np.matrix), to, type(raw))
        return raw.tolist()
    if to.startswith('scipy'):
        ensure(raw.format == to[5:], to, raw.format)
        return raw.toarray().tolist()
    if to == 'pandasdataframe':
        return raw.to_numpy(dtype=object).tolist()
    if to == 'listofdict':
        ensure(all(list(r) == names for r in raw), to, raw, names)
        return [list(r.values()) for r in raw]
    ensure(list(raw) == names, to, raw, names)
    return [list(r) for r in zip(*raw.values())]


def full(n):
    return all(x is not None for x in n)


def sparse_can(rows):
    return sparse_ok(rows) and not any(isinstance(v, (bool, np.bool_))
                                       for r in rows for v in r)


def check(case, ctx):
    """
    a chain of conversions from a table (or a view of one), each between
    any two of the nimble types and raw forms, transposed or not; after each
    step all values and carried names are compared and the source of the
    step must be as it was; non-trivial = two conversions and more than one
    element
    """
    t = Table.of(case)
    o = build(case, case['type'], name=case['name'])
    stirred(o, case['stir'])
    if case['view'] is not None:
        a, b, c, d = case['view']
        ps, pe = sorted((a % t.np, b % t.np))
        fs, fe = sorted((c % t.nf, d % t.nf))
        o = o.view(ps, pe, fs, fe)
        t = t.take('point', range(ps, pe + 1)).take('feature',
                                                    range(fs, fe + 1))
    # numbers cut from mixed data are still objects, which scipy refuses
    plain = sparse_can(case['rows'])
    done = 0
    name = o.name
    for to, rap, k in case['steps']:
        src = snapshot(o)
        want = t if rap else t.T()
        what = '%s %s %r, rowsArePoints=%s' % (
            o.getTypeString(), 'to ' + to, t, rap)
        if to in ('Sparse', 'scipycsr', 'scipycsc', 'scipycoo') \
                and not (plain and sparse_can(t.rows)) \
                and not (to == 'Sparse' and sparse_ok(t.rows)):
            continue
        if to == 'Sparse' and o.getTypeString() != 'Sparse' \
                and not sparse_ok(t.rows):
            continue
        if to in ('copy', 'deepcopy'):
            new = getattr(copy, to)(o)
            t2 = t
            ensure_table(new, t2, what, rtype=o.getTypeString())
            ensure(new.name == o.name, what, 'name', new.name)
        elif to == 'data':
            rtype = TYPES[k % 4]
            if rtype == 'Sparse' and not sparse_ok(t.rows):
                rtype = None
            new = nimble.data(o, returnType=rtype, useLog=False,
                              treatAsMissing=None)
            t2 = t
            ensure_table(new, t2, what, rtype=rtype)
        elif to in TYPES:
            new = o.copy(to=to, rowsArePoints=rap)
            t2 = want
            ensure_table(new, t2, what, rtype=to)
            ensure(new.name == o.name, what, 'name', new.name)
        else:
            cols = want.fn
            if to in ('listofdict', 'dictoflist'):
                # unnamed columns would all have the key None
                if not full(cols):
                    continue
            raw = o.copy(to=SPELL[to][k % len(SPELL[to])],
                         rowsArePoints=rap)
            got = raw_rows(raw, to, cols)
            ensure(same_rows(got, want.rows), what, ':', got, 'expected',
                   want.rows)
            if to == 'pandasdataframe' and rap:
                for axis, lbl, nm in (('index', raw.index, want.pn),
                                      ('columns', raw.columns, want.fn)):
                    lbl = list(lbl)
                    ensure(lbl == nm or lbl == list(range(len(nm)))
                           or not full(nm), what, axis, lbl, nm)
            back = TYPES[k % 4]
            if back == 'Sparse' and not sparse_ok(t.rows):
                back = 'DataFrame'
            given = {}
            if to not in ('listofdict', 'dictoflist'):
                given['featureNames'] = want.fn
            given['pointNames'] = want.pn
            if to == 'dictoflist':
                # each value of a dict is a row
                given['rowsArePoints'] = False
            new = nimble.data(raw, returnType=back, useLog=False,
                              treatAsMissing=None, **given)
            t2 = want
            ensure_table(new, t2, what + ' and back to ' + back, rtype=back)
        ensure_same_snapshot(src, o, what + ': source')
        if k % 2 == 0 and new.getTypeString() in TYPES:
            stirred(new, case['stir'])
            ensure_table(new, t2, what + ', used')
        ensure_consistent(new, what)
        o, t = new, t2
        done += 1
        ctx.label(to)
    # the way an object was made does not matter
    if done:
        rtype = o.getTypeString()
        if rtype != 'Sparse' or sparse_ok(t.rows):
            other = build_table(t, rtype, treatAsMissing=None)
            ensure(o.isIdentical(other) and other.isIdentical(o),
                   'identical tables made in different ways differ', rtype,
                   t)
    ctx.nontrivial(done >= 2 and t.np * t.nf > 1)


@st.composite
def flat(draw):
    t = draw(typed_tables(max_p=5, max_f=5))
    if draw(st.booleans()):
        t['rows'] = t['rows'][:1]
        t['pn'] = t['pn'] and t['pn'][:1]
    else:
        t['rows'] = [r[:1] for r in t['rows']]
        t['fn'] = t['fn'] and t['fn'][:1]
        t['f'] = 1
    t['to'] = draw(st.sampled_from(['pythonlist', 'numpyarray']))
    t['rap'] = draw(st.booleans())
    return t


def check_flat(case, ctx):
    """
    one-dimensional output of a single point or feature; non-trivial = more
    than one element
    """
    o = build(case, case['type'])
    want = [v for r in case['rows'] for v in r]
    got = o.copy(case['to'], rowsArePoints=case['rap'], outputAs1D=True)
    got = got.tolist() if case['to'] == 'numpyarray' else got
    ensure(deep_same(got, want), 'as 1D', case['to'], got, want)
    again = nimble.data(got, useLog=False, treatAsMissing=None,
                        rowsArePoints=len(case['rows']) == 1,
                        returnType='List')
    ensure_table(again, Table(case['rows'], None, None, case['f']),
                 'from 1D')
    ctx.nontrivial(len(want) > 1)


@st.composite
def hollow(draw):
    p = draw(st.integers(0, 3))
    f = 0 if p else draw(st.integers(0, 3))
    from lib.data import names
    return {'rows': [[] for _ in range(p)], 'pn': draw(names(p)),
            'fn': draw(names(f)), 'f': f,
            'type': draw(st.sampled_from(TYPES)),
            'to': draw(st.sampled_from(TYPES + (
                'pythonlist', 'numpyarray', 'numpymatrix', 'scipycoo',
                'pandasdataframe'))),
            'rap': draw(st.booleans())}


def check_hollow(case, ctx):
    """
    objects without points or without features; non-trivial = one axis has
    names
    """
    t = Table.of(case)
    o = build(case, case['type'])
    before = snapshot(o)
    want = t if case['rap'] else t.T()
    to = case['to']
    what = 'empty %s %dx%d to %s %r' % (case['type'], t.np, t.nf, to,
                                        case['rap'])
    new = o.copy(to, rowsArePoints=case['rap'])
    if to in TYPES:
        ensure_table(new, want, what, rtype=to)
        ensure_consistent(new, what)
    elif to == 'pythonlist':
        ensure(isinstance(new, list) and (not want.np or not new
                                          or new == want.rows), what, new)
    else:
        ensure(new.shape == (want.np, want.nf), what, new.shape)
    ensure_same_snapshot(before, o, what)
    ctx.nontrivial(any(x is not None for x in t.pn + t.fn))


TESTS = [Test('chain', cases(), check, quick=14000),
         Test('flat', flat(), check_flat, quick=2000),
         Test('hollow', hollow(), check_hollow, quick=1500)]
