"""C06: creation keeps values and names for every raw form."""
import collections
import copy

import numpy as np
import pandas as pd
import scipy.sparse
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, same
from lib.data import (TYPES, Table, build_table, ensure_consistent,
                      ensure_table, nan, names, sparse_ok, stirred, tables, value_of)

MISSING = [None, '', 'None', 'nan', nan, np.nan]
DENSE = ('lists', 'tuples', 'listtuples', 'arrays', 'generator', 'map',
         'deque', 'objarray', 'array', 'npmatrix', 'fortran', 'strided',
         'frame', 'frameobj')
SCIPY = ('coo', 'csr', 'csc', 'lil', 'dok', 'bsr', 'dia', 'coodup',
         'coozero', 'pdsparse')
NAMED = ('dict', 'dictarrays', 'listdicts', 'dictdicts', 'nimble', 'view',
         'points', 'pointsT', 'pdnames', 'struct', 'structobj')
FORMS = DENSE + SCIPY + NAMED


def numeric(rows):
    return all(isinstance(v, (int, float)) and not isinstance(v, bool)
               for r in rows for v in r)


def best_array(rows):
    """As numpy itself would hold it when nothing is lost that way."""
    flat = [v for r in rows for v in r]
    if all(isinstance(v, bool) for v in flat):
        return np.array(rows, dtype=bool)
    if all(type(v) is int for v in flat):
        return np.array(rows, dtype=np.int64)
    if numeric(rows):
        return np.array(rows, dtype=float)
    ret = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            ret[i, j] = v
    return ret


def objarray(rows):
    ret = np.empty((len(rows), len(rows[0])), dtype=object)
    for i, r in enumerate(rows):
        for j, v in enumerate(r):
            ret[i, j] = v
    return ret


def make_raw(form, rows, pn, fn, k):
    """
    The raw object of a form for these rows; forms in NAMED also carry the
    names.
    """
    if form == 'lists':
        return [list(r) for r in rows]
    if form == 'tuples':
        return tuple(tuple(r) for r in rows)
    if form == 'listtuples':
        return [tuple(r) for r in rows]
    if form == 'arrays':
        return [best_array([r])[0] for r in rows]
    if form == 'generator':
        return (list(r) for r in rows)
    if form == 'map':
        return map(tuple if k % 2 else list, rows)
    if form == 'deque':
        return collections.deque(list(r) for r in rows)
    if form == 'objarray':
        return objarray(rows)
    if form == 'array':
        a = best_array(rows)
        if a.dtype == float and k % 3 == 0:
            a = a.astype(np.float32)    # the generated values are exact
        if a.dtype == np.int64 and k % 3 == 0:
            a = a.astype(np.int16)
        return a
    if form == 'npmatrix':
        return np.matrix(best_array(rows))
    if form == 'fortran':
        return np.asfortranarray(best_array(rows))
    if form == 'strided':
        a = best_array(rows)
        wide = np.repeat(a, 2, axis=1)[::-1][::-1]
        return wide[:, ::2]
    if form in ('frame', 'frameobj'):
        if form == 'frame':
            d = pd.DataFrame({j: [r[j] for r in rows]
                              for j in range(len(rows[0]))})
        else:
            d = pd.DataFrame(objarray(rows), dtype=object)
        # labels that are not the positions, as after sorting or filtering
        if k % 4 == 1:
            d.index = [i * 2 + 1 for i in range(len(rows))]
        elif k % 4 == 2:
            d.index = list(range(len(rows)))[::-1]
            d.columns = ['z%d' % j for j in range(len(rows[0]))]
        elif k % 4 == 3:
            d.index = ['l%d' % (i // 2) for i in range(len(rows))]
        return d
    if form in SCIPY:
        a = best_array(rows)
        if form == 'pdsparse':
            return pd.DataFrame.sparse.from_spmatrix(
                scipy.sparse.coo_matrix(a))
        m = scipy.sparse.coo_matrix(a)
        if form == 'coo':
            order = np.arange(m.nnz)
            np.random.RandomState(k).shuffle(order)
            m = scipy.sparse.coo_matrix(
                (m.data[order], (m.row[order], m.col[order])), shape=m.shape)
        elif form == 'coodup':
            # an entry given as two parts, which stand for their sum
            if m.nnz and m.dtype != bool:
                i = k % m.nnz
                data = np.append(m.data, m.data[i] - 4)
                data[i] = 4
                m = scipy.sparse.coo_matrix(
                    (data, (np.append(m.row, m.row[i]),
                            np.append(m.col, m.col[i]))), shape=m.shape)
        elif form == 'coozero':
            zr, zc = np.nonzero(a == 0)
            m = scipy.sparse.coo_matrix(
                (np.append(m.data, a[zr, zc]),
                 (np.append(m.row, zr), np.append(m.col, zc))),
                shape=m.shape)
        else:
            m = m.asformat(form)
        return m
    if form == 'dict':
        return {p: list(r) for p, r in zip(pn, rows)}
    if form == 'dictarrays':
        return {p: best_array([r])[0] for p, r in zip(pn, rows)}
    if form == 'listdicts':
        # keys in a different order after the first
        ret = []
        for i, r in enumerate(rows):
            items = list(zip(fn, r))
            if i and k % 2:
                items = items[::-1]
            ret.append(dict(items))
        return ret
    if form == 'dictdicts':
        return {p: dict(zip(fn, r)) for p, r in zip(pn, rows)}
    if form in ('struct', 'structobj'):
        # numpy's own type for each of the fields
        cols = [best_array([[r[j]] for r in rows]).ravel()
                for j in range(len(fn))]
        if form == 'structobj':
            cols = [c.astype(object) for c in cols]
        elif k % 2:
            cols = [np.array(list(c)) if c.dtype == object and
                    all(isinstance(v, str) for v in c) else c for c in cols]
        ret = np.empty(len(rows), dtype=[(n, c.dtype)
                                         for n, c in zip(fn, cols)])
        for n, c in zip(fn, cols):
            ret[n] = c
        return ret.view(np.recarray) if k % 3 == 0 else ret
    if form == 'pdnames':
        ret = pd.DataFrame({j: [r[j] for r in rows]
                            for j in range(len(rows[0]))})
        ret.columns = fn
        ret.index = pn
        return ret
    t = Table(rows, pn, fn, len(fn))
    rtype = TYPES[k % 4]
    if rtype == 'Sparse' and not sparse_ok(rows):
        rtype = 'DataFrame'
    if form == 'nimble':
        return build_table(t, rtype, treatAsMissing=None)
    if form == 'view':
        wide = Table([[0] + r + [1] for r in [rows[0]] + rows],
                     ['before'] + pn, ['left'] + fn + ['right'],
                     len(fn) + 2)
        if rtype == 'Sparse' and not sparse_ok(wide.rows):
            rtype = 'Matrix'
        return build_table(wide, rtype, treatAsMissing=None).view(
            1, len(rows), 1, len(fn))
    if form == 'points':
        return [p for p in build_table(t, rtype, treatAsMissing=None).points]
    # the points as features of the transposed object
    o = build_table(t.T(), rtype, treatAsMissing=None)
    return [o.features.copy(j, useLog=False) for j in range(len(o.features))]


@st.composite
def cases(draw, forms=FORMS):
    form = draw(st.sampled_from(forms))
    num = form in SCIPY
    kinds = ('int', 'float', 'nan', 'bool') if num else (
        'int', 'float', 'nan', 'bool', 'str', 'strnan', 'mixed')
    t = draw(tables(max_p=4, max_f=4, kinds=kinds, percol=not num,
                    partial=False))
    rows = t['rows']
    gone = []
    if not num and draw(st.integers(0, 2)) == 0:
        for k in draw(st.lists(st.integers(0, 99), min_size=1, max_size=4)):
            i = k % len(rows)
            j = (k // 7) % t['f']
            rows[i][j] = MISSING[k % len(MISSING)]
    t['form'] = form
    t['k'] = draw(st.integers(0, 11))
    t['rap'] = draw(st.integers(0, 3)) > 0
    naming = st.sampled_from(('off', 'list', 'dict', 'tuple', 'inside',
                              'auto'))
    t['pnaming'], t['fnaming'] = draw(naming), draw(naming)
    t['missing'] = draw(st.sampled_from(
        ['default', 'default', 'none', 'empty', 'values', 'values']))
    t['with'] = draw(st.sampled_from([nan, nan, 0, -1, 2.5, 'gone']))
    t['keepp'] = draw(st.one_of(st.none(), st.none(), st.lists(
        st.integers(0, 99), min_size=1, max_size=3)))
    t['keepf'] = draw(st.one_of(st.none(), st.none(), st.lists(
        st.integers(0, 99), min_size=1, max_size=3)))
    t['keephow'] = draw(st.integers(0, 1))
    t['convert'] = draw(st.sampled_from(['', '', '', 'one', 'list', 'dict']))
    t['ctypes'] = draw(st.lists(st.sampled_from(['float', 'str', 'int',
                                                 'none', 'object']),
                                min_size=4, max_size=4))
    t['rtype'] = draw(st.sampled_from(TYPES + (None,)))
    t['copy'] = draw(st.booleans())
    return t


def member(v, values):
    return any((v != v and w != w) or (v is None and w is None)
               or (isinstance(v, str) == isinstance(w, str) and v is not None
                   and w is not None and v == w) for w in values)


def convert(v, kind):
    return {'float': float, 'str': str, 'int': int,
            'none': lambda v: v, 'object': lambda v: v}[kind](v)


def as_names(n, how):
    if how == 'dict':
        return {x: i for i, x in reversed(list(enumerate(n)))}
    if how == 'tuple':
        return tuple(n)
    return list(n)


def check(case, ctx):
    """
    a table, a raw form of it, a way to give each axis its names, a return
    type and options for missing values, kept parts and types; non-trivial =
    more than one value and at least one option or name
    """
    form, k, rap = case['form'], case['k'], case['rap']
    rows, nf = [list(r) for r in case['rows']], case['f']
    np_ = len(rows)
    pn = case['pn'] or ['pt%d' % i for i in range(np_)]
    fn = case['fn'] or ['ft%d' % i for i in range(nf)]
    kw = {}
    want = Table(rows, None, None, nf)
    how = {'point': case['pnaming'], 'feature': case['fnaming']}

    # the raw data is laid out with rows first, which are the features when
    # rowsArePoints is False
    if not rap and form in ('nimble', 'view', 'points', 'pointsT',
                            'pdnames'):
        rap = True
    if form == 'pointsT' and nf == 1:
        form = 'points'     # a single value is both a point and a feature
    raw_rows = rows if rap else want.T().rows
    rn, cn = (pn, fn) if rap else (fn, pn)
    raxis, caxis = ('point', 'feature') if rap else ('feature', 'point')
    rowhow, colhow = how[raxis], how[caxis]
    carried = {'dict': 'r', 'dictarrays': 'r', 'listdicts': 'c',
               'dictdicts': 'rc', 'pdnames': 'rc', 'struct': 'c',
               'structobj': 'c', 'nimble': 'rc',
               'view': 'rc', 'points': 'rc', 'pointsT': 'rc'}.get(form, '')
    given = {}      # axis name -> argument
    final = {}      # axis name -> names in the result
    reorder = {}    # order of the result along rows/columns of the raw data

    def settle(which, axis, n, mode):
        """What to pass for an axis, and the names it will get."""
        if which in carried:
            if form in ('struct', 'structobj'):
                # other names for the fields are refused
                given[axis], final[axis] = {
                    'off': (False, None), 'inside': (True, n)}.get(
                        mode, ('automatic', n))
                return
            if form in ('dict', 'dictarrays', 'listdicts', 'dictdicts') \
                    and mode in ('list', 'dict') and len(n) > 1:
                # names given for a dict define the order
                order = list(range(len(n)))
                order = order[k % len(n):] + order[:k % len(n)]
                reorder[which] = order
                n = [n[i] for i in order]
                given[axis], final[axis] = as_names(n, mode), n
            elif mode in ('list', 'dict', 'tuple') and form not in (
                    'dict', 'dictarrays', 'listdicts', 'dictdicts'):
                n = ['other%d' % i for i in range(len(n))]
                given[axis], final[axis] = as_names(n, mode), n
            elif mode == 'off':
                given[axis], final[axis] = False, None
            elif mode == 'inside' or form == 'pdnames':
                given[axis], final[axis] = True, n
            else:
                given[axis], final[axis] = 'automatic', n
            return
        if mode in ('list', 'dict', 'tuple'):
            given[axis], final[axis] = as_names(n, mode), n
        elif form in ('dict', 'dictarrays', 'listdicts') and mode == 'auto':
            # the names of a dict are its keys, there are no others
            given[axis], final[axis] = 'automatic', None
        else:
            given[axis], final[axis] = False, None

    settle('r', raxis, rn, rowhow)
    settle('c', caxis, cn, colhow)

    # names inside the data, as the first column or row
    use_form = form
    inside_r = rowhow == 'inside' and 'r' not in carried
    inside_c = colhow == 'inside' and 'c' not in carried
    dense = form in DENSE and form not in ('frame', 'frameobj', 'npmatrix')
    if form in ('dict', 'dictarrays', 'listdicts', 'dictdicts'):
        inside_r = inside_c = False
    if not dense:
        inside_r = inside_c = False
    body = [list(r) for r in raw_rows]
    if inside_r:
        body = [[n] + r for n, r in zip(rn, body)]
        given[raxis], final[raxis] = True, rn
    if inside_c:
        body = [(['corner'] if inside_r else []) + list(cn)] + body
        given[caxis], final[caxis] = True, cn
    if form == 'arrays' and (inside_r or inside_c):
        use_form = 'lists'
    raw = make_raw(use_form, body, rn, cn, k)

    # the expected table
    w = Table(raw_rows, rn, cn, len(cn))
    for which, axis in (('r', 'point'), ('c', 'feature')):
        if which in reorder:
            w = w.take(axis, reorder[which])
    want = w if rap else w.T()
    want.pn = list(final['point'] or [None] * want.np)
    want.fn = list(final['feature'] or [None] * want.nf)

    kw['pointNames'], kw['featureNames'] = given['point'], given['feature']
    opts = 0
    # missing values
    mode = case['missing']
    treat = MISSING
    repl = nan
    if mode == 'none':
        kw['treatAsMissing'] = None
        treat = []
    elif mode == 'empty':
        kw['treatAsMissing'] = []
        treat = []
    elif mode == 'values':
        flat = [v for r in want.rows for v in r]
        treat = [flat[k % len(flat)], flat[(k * 5 + 1) % len(flat)]]
        if form in SCIPY + ('nimble', 'view'):
            # the zeros of sparse data are not stored
            treat = [v for v in treat if v != 0]
        # numbers and booleans that are equal are not told apart here
        if any(isinstance(v, (bool, np.bool_)) for v in flat):
            treat = [v for v in treat if isinstance(v, str)]
        if not treat:
            treat = [nan]
        repl = case['with']
        if form in SCIPY and isinstance(repl, str):
            repl = -1
        if any(v is None or v != v for v in treat):
            treat = treat + [None, nan]     # which of them may be converted
        kw['treatAsMissing'] = list(treat)
        kw['replaceMissingWith'] = repl
        opts += 1
    if mode in ('none', 'empty'):
        # a kept None is compared as missing
        pass
    rtype = case['rtype']
    want.rows = [[repl if member(v, treat) else v for v in r]
                 for r in want.rows]
    # kept points and features
    for axis, arg, key in (('point', 'keepPoints', 'keepp'),
                           ('feature', 'keepFeatures', 'keepf')):
        n = want.count(axis)
        if case[key] is None or n < 2:
            continue
        idx = []
        for j in case[key]:
            if j % n not in idx:
                idx.append(j % n)
        if len(idx) == n:
            idx = idx[:-1]
        nm = want.anames(axis)
        if case['keephow'] and nm[0] is not None:
            kw[arg] = [nm[i] if i % 2 else i for i in idx]
        else:
            kw[arg] = list(idx)
        want = want.take(axis, idx)
        opts += 1
    # types
    if case['convert']:
        ct = case['ctypes'][:want.nf]
        if case['convert'] == 'one':
            ct = [ct[0]] * want.nf
        try:
            new = [[convert(v, c) for v, c in zip(r, ct)]
                   for r in want.rows]
            ok = True
        except (ValueError, TypeError, OverflowError):
            ok = False
        flat = [v for r in want.rows for v in r]
        # scipy has no objects
        if case['rtype'] in ('Sparse', None) and 'object' in ct:
            ok = False
        # how a number or a boolean is written is the type's own choice
        if any(c == 'str' and not isinstance(r[j], str)
               for j, c in enumerate(ct) for r in want.rows):
            ok = False
        if any(c == 'int' and isinstance(r[j], str)
               for j, c in enumerate(ct) for r in want.rows):
            ok = False
        if any(v is None for v in flat):
            ok = False
        if ok:
            types = {'float': float, 'str': str, 'int': int, 'none': None,
                     'object': object}
            if case['convert'] == 'one':
                kw['convertToType'] = types[ct[0]]
                if ct[0] == 'none':
                    del kw['convertToType']
            elif case['convert'] == 'list':
                kw['convertToType'] = [types[c] for c in ct]
            elif want.fn[0] is not None:
                kw['convertToType'] = {n: types[c] for n, c
                                       in zip(want.fn, ct) if c != 'none'}
            else:
                ok = False
            if ok:
                want.rows = new
                opts += 1
    if rtype == 'Sparse' and (not sparse_ok(want.rows)
                              or not sparse_ok(raw_rows) or inside_r
                              or inside_c or (mode == 'values'
                                              and isinstance(repl, str))):
        rtype = 'Matrix'
    if rtype is None and form in SCIPY + ('nimble', 'view') and (
            not sparse_ok(want.rows) or not sparse_ok(raw_rows)):
        rtype = 'DataFrame'
    if not rap:
        kw['rowsArePoints'] = False
    if case['copy'] is False:
        kw['copyData'] = False
    what = 'nimble.data(%s %r, returnType=%r, %s)' % (
        use_form, body, rtype, ', '.join('%s=%r' % i for i in kw.items()))
    saved = copy.deepcopy(kw)
    try:
        o = nimble.data(raw, returnType=rtype, useLog=False, **kw)
        ensure(repr(kw) == repr(saved), what, ': arguments changed to', kw)
        # nor is the object affected by what the caller does with them
        for arg in kw.values():
            if isinstance(arg, list):
                arg.reverse()
            elif isinstance(arg, dict):
                arg.clear()
    except Violation:
        raise
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e)) \
            from e
    wantrows = [[nan if v is None else v for v in r] for r in want.rows]
    got = o.copy('pythonlist')
    cmp = Table(wantrows, want.pn, want.fn, want.nf)
    if any(v is None for r in got for v in r):
        ensure(mode in ('none', 'empty', 'values'), what, ': a None is left')
        ensure((len(o.points), len(o.features)) == (want.np, want.nf), what,
               'shape', o.shape)
        for r, q in zip(got, wantrows):
            for a, b in zip(r, q):
                ensure(same(nan if a is None else a, b), what, got)
    else:
        # Matrix data may be returned as DataFrame to hold converted values
        ensure_table(o, cmp, what, rtype=None if rtype == 'Matrix' and
                     'convertToType' in kw else rtype)
        ensure_consistent(o, what)
        stirred(o, k)
        ensure_table(o, cmp, what + ', used')
    ctx.label(form, 'as %s' % rtype, 'pnames ' + rowhow, 'fnames ' + colhow)
    ctx.nontrivial(want.np * want.nf > 1 and bool(
        opts or any(final.values())))


@st.composite
def empties(draw):
    p = draw(st.integers(0, 3))
    f = 0 if p else draw(st.integers(0, 3))
    return {'p': p, 'f': f, 'pn': draw(names(p, False)),
            'fn': draw(names(f, False)),
            'form': draw(st.sampled_from(['array', 'lists', 'frame', 'coo',
                                          'nimble', 'flat', 'scalar',
                                          'series', 'vector', 'range',
                                          'dictvalues'])),
            'rtype': draw(st.sampled_from(TYPES)),
            'rap': draw(st.booleans()),
            'vals': draw(st.lists(value_of('float'), min_size=1,
                                  max_size=4))}


def check_vectors(case, ctx):
    """
    data without points or features in the raw forms that can express it,
    and flat data, which is one point (or one feature); non-trivial = names
    or more than one value
    """
    form, rtype = case['form'], case['rtype']
    p, f = case['p'], case['f']
    pn, fn = case['pn'], case['fn']
    kw = {}
    if form in ('flat', 'series', 'vector', 'range', 'dictvalues', 'scalar'):
        vals = case['vals']
        if form == 'scalar':
            vals = vals[:1]
        if form == 'range':
            vals = list(range(1, 1 + len(vals)))
        nm = ['n%d' % i for i in range(len(vals))]
        raw = {'flat': lambda: list(vals), 'scalar': lambda: tuple(vals),
               'series': lambda: pd.Series(vals),
               'vector': lambda: np.array(vals),
               'range': lambda: range(1, 1 + len(vals)),
               'dictvalues': lambda: dict(zip(nm, vals))}[form]()
        if form == 'dictvalues':
            want = Table([[v] for v in vals], nm, None, 1)
        elif case['rap']:
            want = Table([vals], None, nm, len(vals))
            kw['featureNames'] = nm
        else:
            want = Table([[v] for v in vals], nm, None, 1)
            kw['pointNames'] = nm
            kw['rowsArePoints'] = False
        o = nimble.data(raw, returnType=rtype, useLog=False, **kw)
        ensure_table(o, want, 'flat %s %r %r' % (form, vals, kw),
                     rtype=rtype)
        ctx.nontrivial(len(vals) > 1)
        ctx.label(form)
        return
    raw = np.empty((p, f))
    if form == 'lists':
        raw = [[] for _ in range(p)] if p else []
        if not p:
            fn = None if f == 0 else fn
    elif form == 'frame':
        raw = pd.DataFrame(raw)
    elif form == 'coo':
        raw = scipy.sparse.coo_matrix((p, f))
    elif form == 'nimble':
        raw = nimble.data(raw, useLog=False)
    if form == 'lists' and not p and fn is None:
        f = 0
    o = nimble.data(raw, pointNames=pn, featureNames=fn, returnType=rtype,
                    useLog=False)
    want = Table([[] for _ in range(p)], pn, fn, f)
    ensure_table(o, want, 'empty %s %dx%d %r %r' % (form, p, f, pn, fn),
                 rtype=rtype)
    ctx.label('empty ' + form)
    ctx.nontrivial(pn is not None or fn is not None)


def constants():
    return st.fixed_dictionaries({
        'f': st.sampled_from(['ones', 'zeros', 'identity']),
        'p': st.integers(1, 5), 'n': st.integers(1, 5),
        'rtype': st.sampled_from(TYPES),
        'name': st.sampled_from([None, 'ones and zeros', 'x']),
        'pn': names(5, False), 'fn': names(5, False)})


def check_constants(case, ctx):
    """
    nimble.ones, zeros and identity for every size and type; non-trivial =
    more than one element
    """
    p, n = case['p'], case['n']
    if case['f'] == 'identity':
        n = p
    pn = case['pn'] and case['pn'][:p]
    fn = case['fn'] and case['fn'][:n]
    kw = {'returnType': case['rtype']}
    if case.get('name'):
        kw['name'] = case['name']
    if pn is not None:
        kw['pointNames'] = pn
    if fn is not None:
        kw['featureNames'] = fn
    if case['f'] == 'identity':
        o = nimble.identity(p, **kw)
        rows = [[int(i == j) for j in range(p)] for i in range(p)]
    else:
        o = getattr(nimble, case['f'])(p, n, **kw)
        rows = [[int(case['f'] == 'ones')] * n for _ in range(p)]
    ensure_table(o, Table(rows, pn, fn, n), '%s %r' % (case['f'], kw),
                 rtype=case['rtype'])
    ensure_consistent(o, case['f'])
    ensure(o.name == case.get('name'), '%s made with %r is named %r'
           % (case['f'], kw, o.name))
    ctx.label(case['f'])
    ctx.nontrivial(p * n > 1)


TESTS = [Test('forms', cases(), check, quick=16000),
         Test('vectors', empties(), check_vectors, quick=1500),
         Test('constants', constants(), check_constants, quick=1000)]
