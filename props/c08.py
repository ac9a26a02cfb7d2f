"""C08: saving to a file and loading gives the same table."""
import os

from hypothesis import strategies as st

import nimble
from lib import core
from lib.core import Test, Violation, ensure
from lib.data import (NAMEPOOL, TYPES, Table, build, deep_same,
                      ensure_consistent, ensure_same_snapshot, ensure_table,
                      floats, ints, nan, names, snapshot, sparse_ok, stirred,
                      typed_tables)

HARD = ['a,b', 'a"b', '"', 'say "hi", you', 'two\nlines', '#a', 'x y', "it's",
        'é', 'a;b', 'a\tb', '-', 'x ', 'None of', '%d', 'end,', '"q"',
        'pointNames', 'a\n\nb', 'naïve ☃']
WORDS = ['a', 'b', 'cc', 'Dd', 'e f', 'None of', 'True story', 'x1']
PLAIN = [n for n in NAMEPOOL]


def column(kind, n):
    """A column whose text reads back as the same values."""
    text = st.sampled_from(WORDS + HARD)
    value = {
        'int': st.one_of(ints, st.sampled_from([10 ** 12, -7])),
        'float': st.one_of(floats, st.sampled_from([1 / 3, 1e-17, -2.5e30,
                                                    123456.789])),
        'nan': st.one_of(floats, st.just(nan)),
        'bool': st.booleans(),
        'str': text,
        'strnan': st.one_of(text, text, st.just(nan)),
    }[kind]
    col = st.lists(value, min_size=n, max_size=n)
    if kind == 'strnan':
        # without any text the missing values are numbers
        col = col.map(lambda c: c if any(isinstance(v, str) for v in c)
                      else ['a'] + c[1:])
    return col


@st.composite
def cases(draw):
    p, f = draw(st.integers(1, 5)), draw(st.integers(1, 4))
    if draw(st.integers(0, 9)) == 0:
        p = draw(st.integers(10, 14))
    fmt = draw(st.sampled_from(['csv', 'csv', 'csv', 'mtx', 'hdf5', 'pickle',
                                'h5', 'p', 'pkl']))
    rtype = draw(st.sampled_from(TYPES))
    kinds = ['int', 'float', 'nan', 'bool', 'str', 'strnan']
    if rtype == 'Sparse':
        kinds = ['int', 'float', 'nan']
    elif fmt in ('mtx', 'hdf5', 'h5'):
        kinds = ['int', 'float', 'nan', 'bool']
    if fmt in ('hdf5', 'h5'):
        # an array of booleans and numbers is an array of objects
        kinds = draw(st.sampled_from([['int', 'float', 'nan'], ['bool']]))
        if rtype == 'Sparse':
            kinds = ['int', 'float', 'nan']
    if draw(st.booleans()):
        ks = [draw(st.sampled_from(kinds)) for _ in range(f)]
    else:
        ks = [draw(st.sampled_from(kinds))] * f
    cols = [draw(column(k, p)) for k in ks]
    pool = PLAIN + HARD
    if fmt in ('hdf5', 'h5'):
        pool = [n for n in pool if n not in ('.', '/')]
    elif fmt == 'mtx':
        # a comma separates the names there, and a line end ends them
        pool = [n for n in pool if ',' not in n and '\n' not in n
                and n == n.strip()]
    pool = list(dict.fromkeys(pool)) + ['n%d' % i for i in range(10)]
    return {'rows': [[c[i] for c in cols] for i in range(p)], 'f': f,
            'pn': draw(names(p, True, pool)),
            'fn': draw(names(f, True, pool)),
            'type': rtype, 'fmt': fmt, 'back': draw(st.sampled_from(
                TYPES + (None,))),
            'include': draw(st.sampled_from([True, True, True, False])),
            'how': draw(st.integers(0, 7)), 'stir': draw(st.integers(0, 63)),
            'view': draw(st.booleans()), 'name': draw(st.sampled_from(
                [None, 'the name']))}


def check(case, ctx):
    """
    a table written to a file in each of the formats and loaded again as
    any type; non-trivial = the file has names or more than one value
    """
    t = Table.of(case)
    o = build(case, case['type'], treatAsMissing=[nan], name=case['name'])
    stirred(o, case['stir'])
    if case['view'] and t.np > 1:
        o = o.view(1, t.np - 1, 0, t.nf - 1)
        t = t.take('point', range(1, t.np))
    fmt, how = case['fmt'], case['how']
    before = snapshot(o)
    path = os.path.join(core.SCRATCH, 'saved')
    if os.path.exists(path):
        os.remove(path)
    if how % 2:
        end = path + '.' + (fmt.upper() if how == 3 else fmt)
        for name in (end,):
            if os.path.exists(name):
                os.remove(name)
        path = end
        args = ()
    else:
        args = (fmt,)
        if fmt == 'csv' and how == 2:
            args = ()
    what = '%s %r saved as %s' % (o.getTypeString(), t, fmt)
    inc = case['include']
    try:
        if how % 4 > 1:
            o.save(path, *args, includeNames=inc)
        else:
            if fmt in ('pickle', 'p', 'pkl'):
                inc = True
            o.save(path, fileFormat=args[0] if args else None,
                   **({} if inc else {'includeNames': False}))
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e)) \
            from e
    ensure_same_snapshot(before, o, what + ': the object')
    if fmt in ('pickle', 'p', 'pkl'):
        new = nimble.data(path, useLog=False, returnType=case['back'])
        ensure_table(new, t, what, rtype=case['back'] or case['type'])
        import cloudpickle
        with open(path, 'rb') as f:
            same = cloudpickle.load(f)
        ensure_table(same, t, what, rtype=case['type'])
        ensure(same.name == o.name, what, 'name', same.name)
        ensure(o.isIdentical(same), what, ': not identical')
        ctx.label('pickle')
    else:
        want = t.copy()
        pn = inc and any(x is not None for x in t.pn)
        fn = inc and any(x is not None for x in t.fn)
        if not pn:
            want.pn = [None] * t.np
        if not fn or fmt in ('hdf5', 'h5'):
            want.fn = [None] * t.nf
        kw = {}
        if fmt == 'csv':
            kw = {'pointNames': pn, 'featureNames': fn}
            first = want.fn if fn else want.rows[0][:]
            if pn:
                first = [want.pn[0]] + first
            # which separator was used is guessed from the first line
            if len(first) == 1 or how > 3 or not all(
                    not isinstance(v, str) or v.isalnum() for v in first):
                kw['inputSeparator'] = ','
        back = case['back']
        if back == 'Sparse' and not sparse_ok(t.rows):
            back = None
        if how % 3 == 0:
            with open(path, 'rb') as f:
                if '.' not in os.path.basename(path):
                    new = nimble.data(path, returnType=back, useLog=False,
                                      **kw)
                else:
                    new = nimble.data(f, returnType=back, useLog=False, **kw)
        else:
            new = nimble.data(path, returnType=back, useLog=False, **kw)
        ensure_table(new, want, what + ' and loaded as %s %r' % (back, kw),
                     rtype=back)
        ensure_consistent(new, what)
        ensure(os.path.samefile(new.absolutePath, path), what, 'path',
               new.absolutePath)
        ctx.label(fmt, 'with names' if pn or fn else 'without names')
    ctx.nontrivial(t.np * t.nf > 1)


@st.composite
def tensors(draw):
    dims = draw(st.lists(st.integers(1, 3), min_size=2, max_size=3))
    dims = [draw(st.integers(1, 12))] + dims
    size = 1
    for d in dims:
        size *= d
    kind = draw(st.sampled_from([ints, floats, st.one_of(
        floats, st.just(nan))]))
    flat = draw(st.lists(kind, min_size=size, max_size=size)
                if size < 40 else st.just(list(range(size))))
    return {'dims': dims, 'flat': flat,
            'pn': draw(names(dims[0], True, [n for n in PLAIN if n not in (
                '.', '/')])),
            'type': draw(st.sampled_from(TYPES)),
            'back': draw(st.sampled_from(TYPES)),
            'fmt': draw(st.sampled_from(['hdf5', 'h5', 'pickle', 'p'])),
            'include': draw(st.booleans())}


def nest(flat, dims):
    if len(dims) == 1:
        return list(flat)
    k = len(flat) // dims[0]
    return [nest(flat[i * k:(i + 1) * k], dims[1:]) for i in range(dims[0])]


def check_tensors(case, ctx):
    """
    data with more than two dimensions written to HDF5 and pickle files;
    non-trivial = more than one point
    """
    dims = case['dims']
    raw = nest(case['flat'], dims)
    o = nimble.data(raw, pointNames=case['pn'], returnType=case['type'],
                    useLog=False)
    before = snapshot(o)
    path = os.path.join(core.SCRATCH, 'tensor.' + case['fmt'])
    if os.path.exists(path):
        os.remove(path)
    o.save(path, includeNames=case['include'])
    what = '%s %r %r as %s' % (case['type'], dims, case['pn'], case['fmt'])
    ensure_same_snapshot(before, o, what)
    new = nimble.data(path, returnType=case['back'], useLog=False)
    if case['fmt'] in ('hdf5', 'h5') and dims[0] == 1 and not (
            case['include'] and any(case['pn'] or []) and dims[1] != 1):
        # a file with one dataset is that dataset
        dims, raw = dims[1:], raw[0]
    ensure(tuple(new.dimensions) == tuple(dims), what, 'dimensions',
           new.dimensions)
    got = new.copy('pythonlist')
    ensure(deep_same(got, raw), what, got, raw)
    pn = case['pn'] or [None] * dims[0]
    if not case['include'] and case['fmt'] in ('hdf5', 'h5'):
        pn = [None] * dims[0]
    if len(case['dims']) == len(dims):
        ensure(new.points.getNames() == pn, what, 'names',
               new.points.getNames())
    ctx.label(case['fmt'])
    ctx.nontrivial(dims[0] > 1)


TESTS = [Test('roundtrip', cases(), check, quick=7000),
         Test('tensors', tensors(), check_tensors, quick=1500)]
