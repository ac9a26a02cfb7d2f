"""C03: objects never share state with inputs or results."""
import copy as copymod

import numpy as np
import pandas as pd
import scipy.sparse
from hypothesis import strategies as st

import nimble
from nimble.core.data import Base, BaseView
from lib.core import Test, Violation
from lib.data import (TYPES, Table, build, deep_same, ensure_same_snapshot,
                      snapshot, sparse_ok, tables)
from lib.ops import (INPLACE, OPS, QUERY, R, REGISTRY, Env, Skip, canon,
                     canon_same, choices, mutate_deep, mutate_object)

# referenceFrom shares the data by definition
NAMES = [o.name for o in OPS if o.name != 'reference_from']


def cases_for(names):
    def one(n):
        o = REGISTRY[n]
        return st.fixed_dictionaries({
            'table': st.one_of(tables(kinds=o.kinds),
                               tables(kinds=o.kinds, percol=False)),
            'type': st.sampled_from(TYPES), 'op': st.just(n), 'ks': choices,
            'atype': st.sampled_from(TYPES), 'way': st.integers(0, 2),
            'view': st.integers(0, 3), 'mut': st.integers(0, 13)})
    return st.sampled_from(names).flatmap(one)


def holds_view(x, depth=0):
    if isinstance(x, BaseView):
        return True
    if isinstance(x, (list, tuple)) and depth < 4:
        return any(holds_view(v, depth + 1) for v in x)
    if isinstance(x, dict) and depth < 4:
        return any(holds_view(v, depth + 1) for v in x.values())
    return False


def check(case, ctx):
    """
    one public operation with generated arguments, then in-place changes to
    one of the objects involved; non-trivial = the operation succeeded and
    something was changed afterwards
    """
    rtype = case['type']
    if rtype == 'Sparse' and not sparse_ok(case['table']['rows']):
        rtype = 'List'
    o = build(case['table'], rtype)
    spec = REGISTRY[case['op']]
    target = o
    if case['view'] == 0 and spec.kind == QUERY and len(o.points) \
            and len(o.features):
        target = o.view()
    env = Env(Table.of(case['table']), case['atype'])
    twin = o.copy()
    before = snapshot(o)
    try:
        ret = spec.run(target, R(case['ks']), env)
    except Skip:
        ctx.label('does not apply')
        return
    except Exception as e:
        # what may raise is the business of C05 and C34
        ctx.label(case['op'] + ' raised ' + type(e).__name__)
        return
    what = '%s of %s%s' % (case['op'], rtype,
                           ' view' if target is not o else '')
    for arg, t in env.args:
        args_before(arg, t, what)
    ensure_same_snapshot(before, twin, what + ': copy made before')
    if spec.kind == QUERY:
        ensure_same_snapshot(before, o, what + ': the object')
    argsnap = [snapshot(a) for a, _ in env.args]
    after = snapshot(o)
    done = 0
    if case['way'] == 0 and 'fresh' in spec.tags and not holds_view(ret) \
            and ret is not None:
        done = mutate_deep(ret, case['mut'])
        what += ', then changing the result'
        ensure_same_snapshot(after, o, what + ': the object')
        for a, s in zip(env.args, argsnap):
            ensure_same_snapshot(s, a[0], what + ': the argument')
    elif case['way'] == 1 and env.args:
        shown = canon(ret) if ret is not None else None
        for a, _ in env.args:
            done += mutate_object(a, case['mut'])
        what += ', then changing the arguments'
        ensure_same_snapshot(after, o, what + ': the object')
        same_result(shown, ret, what)
    else:
        shown = None
        if 'fresh' in spec.tags and not holds_view(ret):
            shown = canon(ret)
        done = mutate_object(o, case['mut'])
        what += ', then changing the object'
        for a, s in zip(env.args, argsnap):
            ensure_same_snapshot(s, a[0], what + ': the argument')
        if shown is not None:
            same_result(shown, ret, what)
    ensure_same_snapshot(before, twin, what + ': copy made before')
    ctx.label('op ' + case['op'])
    ctx.nontrivial(done > 0)


def same_result(shown, ret, what):
    now = canon(ret)
    if shown is not None and not canon_same(shown, now):
        raise Violation('%s: the result was %r and became %r'
                        % (what, shown, now))


def args_before(arg, t, what):
    want = Table(t.rows, t.pn, t.fn, t.nf)
    rows = arg.copy('pythonlist')
    if want.np and want.nf and not deep_same(rows, want.rows):
        raise Violation('%s: the argument %r became %r'
                        % (what, want.rows, rows))
    if list(arg.points.getNames()) != want.pn \
            or list(arg.features.getNames()) != want.fn:
        raise Violation('%s: the names of the argument %r became %r'
                        % (what, (want.pn, want.fn),
                           (arg.points.getNames(), arg.features.getNames())))


# ------------------------------------------------------------------ creation

FORMS = ['list', 'array', 'objarray', 'matrix', 'csr', 'csc', 'coo',
         'frame', 'dict', 'listdict', 'nimble', 'tuple', 'frames']


def source(rows, fn, form, ntype):
    cols = list(zip(*rows))
    if form == 'list':
        return [list(r) for r in rows]
    if form == 'tuple':
        return tuple(list(r) for r in rows)
    if form == 'array':
        return np.array(rows)
    if form == 'objarray':
        return np.array(rows, dtype=object)
    if form == 'matrix':
        return np.matrix(np.array(rows, dtype=float))
    if form in ('csr', 'csc', 'coo'):
        return getattr(scipy.sparse, form + '_matrix')(np.array(rows))
    if form == 'frame':
        return pd.DataFrame(np.array(rows), columns=fn)
    if form == 'frames':
        return pd.DataFrame({n: list(c) for n, c in zip(fn, cols)})
    if form == 'dict':
        return {n: list(c) for n, c in zip(fn, cols)}
    if form == 'listdict':
        return [dict(zip(fn, r)) for r in rows]
    return nimble.data([list(r) for r in rows], featureNames=list(fn),
                       returnType=ntype, useLog=False)


def shown_source(src):
    if isinstance(src, Base):
        return canon(src)
    if isinstance(src, pd.DataFrame):
        return ('frame', src.values.tolist(), list(src.columns),
                list(src.index), [str(d) for d in src.dtypes])
    if scipy.sparse.issparse(src):
        return ('sparse', src.toarray().tolist(), src.shape)
    if isinstance(src, np.ndarray):
        return ('array', src.tolist(), src.shape, str(src.dtype))
    return copymod.deepcopy(src)


def mutate_source(src, k):
    if isinstance(src, Base):
        return mutate_object(src, k)
    if isinstance(src, tuple):
        for r in src:
            r[:] = [99] * len(r)
        return 1
    if isinstance(src, list) and src and isinstance(src[0], dict):
        for d in src:
            for k in d:
                d[k] = 99
        return 1
    if isinstance(src, list):
        for r in src:
            r[:] = [99] * len(r)
        return 1
    if isinstance(src, dict):
        for v in src.values():
            v[:] = [99] * len(v)
        return 1
    return mutate_deep(src, k)


create_cases = st.fixed_dictionaries({
    'table': tables(kinds=('int', 'float', 'nan'), min_p=1, min_f=1),
    'form': st.sampled_from(FORMS), 'type': st.sampled_from(TYPES + (None,)),
    'ntype': st.sampled_from(TYPES), 'way': st.booleans(),
    'names': st.integers(0, 3), 'mut': st.integers(0, 13)})


def check_create(case, ctx):
    """
    an object created from raw data, then in-place changes to the object or
    to the raw data; non-trivial = something was changed
    """
    t = case['table']
    rows = t['rows']
    fn = ['f%d' % j for j in range(t['f'])]
    src = source(rows, fn, case['form'], case['ntype'])
    pnames = ['p%d' % i for i in range(len(rows))]
    fnames = list(fn)
    kw = {}
    if case['form'] in ('dict', 'listdict', 'nimble'):
        case = dict(case, names=0)
    if case['names'] & 1:
        kw['pointNames'] = pnames
    if case['names'] & 2:
        kw['featureNames'] = fnames
    before = shown_source(src)
    o = nimble.data(src, returnType=case['type'], useLog=False, **kw)
    what = '%s from %s' % (case['type'], case['form'])
    same_source(before, src, what)
    if pnames != ['p%d' % i for i in range(len(rows))] or fnames != fn:
        raise Violation(what + ': the lists of names changed')
    if case['way']:
        n = mutate_object(o, case['mut'])
        same_source(before, src, what + ', then changing the object')
        if pnames != ['p%d' % i for i in range(len(rows))] or fnames != fn:
            raise Violation(what + ': the lists of names changed')
    else:
        snap = snapshot(o)
        n = mutate_source(src, case['mut'])
        pnames[:] = ['zz%d' % i for i in range(len(pnames))]
        fnames[:] = ['zz%d' % i for i in range(len(fnames))]
        ensure_same_snapshot(snap, o, what + ', then changing the source')
    ctx.label('from ' + case['form'], 'as %s' % case['type'])
    ctx.nontrivial(n > 0)


def same_source(before, src, what):
    now = shown_source(src)
    if not nested_same(before, now):
        raise Violation('%s: the source was %r and became %r'
                        % (what, before, now))


def nested_same(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return list(a) == list(b) and all(nested_same(a[k], b[k])
                                          for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(nested_same(x, y)
                                        for x, y in zip(a, b))
    return deep_same(a, b)


# ---------------------------------------------------------------- raw copies

RAW = ['pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr', 'scipycsc',
       'scipycoo', 'pandasdataframe', 'listofdict', 'dictoflist', 'copy',
       'deepcopy', 'names', 'List', 'Matrix', 'Sparse', 'DataFrame', 'items']
NUMERICRAW = ('scipycsr', 'scipycsc', 'scipycoo', 'Sparse')


@st.composite
def rawcopies(draw):
    t = draw(tables(partial=False))
    p, f = len(t['rows']), t['f']
    cut = None
    if draw(st.integers(0, 2)):
        a = sorted([draw(st.integers(0, p - 1)) for _ in range(2)])
        b = sorted([draw(st.integers(0, f - 1)) for _ in range(2)])
        how = draw(st.integers(0, 3))
        if how == 1:
            b = [0, f - 1]
        elif how == 2:
            a = [0, p - 1]
        elif how == 3:
            a, b = [0, p - 1], [0, f - 1]
        cut = a + b
    return {'table': t, 'type': draw(st.sampled_from(TYPES)), 'cut': cut,
            'to': draw(st.sampled_from(RAW)), 'trans': draw(st.booleans()),
            'flat': draw(st.integers(0, 3)) == 0,
            'way': draw(st.booleans()), 'mut': draw(st.integers(0, 13))}


def check_rawcopy(case, ctx):
    """
    a copy, in any form, of an object or of a view of it, then a change of
    the copy or of the object; non-trivial = something was changed
    """
    t = case['table']
    rtype, to = case['type'], case['to']
    plain = sparse_ok(t['rows'])
    if not plain and rtype == 'Sparse':
        rtype = 'List'
    if not plain and to in NUMERICRAW:
        to = 'numpyarray'
    o = build(t, rtype)
    src = o
    if case['cut'] is not None:
        a, b, c, d = case['cut']
        src = o.view(pointStart=a, pointEnd=b, featureStart=c, featureEnd=d)
    kw = {}
    if to in ('pythonlist', 'numpyarray', 'numpymatrix', 'scipycsr',
              'scipycsc', 'scipycoo'):
        kw['rowsArePoints'] = not case['trans']
    if to in ('pythonlist', 'numpyarray') and case['flat'] and (
            1 in (len(src.points), len(src.features))):
        kw = {'outputAs1D': True}
    what = '%s %sas %s %s' % (rtype, 'view ' if src is not o else '', to, kw)
    before = snapshot(o)
    if to == 'names':
        raw = [src.points.getNames(), src.features.getNames()]
    elif to == 'items':
        raw = [src.points.copy(0, useLog=False),
               src.features.copy(0, useLog=False)]
    elif to in ('copy', 'deepcopy'):
        raw = getattr(copymod, to)(src)
    else:
        raw = src.copy(to, **kw)
    ensure_same_snapshot(before, o, what + ': the object')
    shown = shown_source(raw)
    if case['way']:
        n = mutate_deep(raw, case['mut'])
        what += ', then changing the copy'
        ensure_same_snapshot(before, o, what + ': the object')
    else:
        n = mutate_object(o, case['mut'])
        same_source(shown, raw, what + ', then changing the object')
    ctx.label('to ' + to, 'view' if src is not o else 'object')
    ctx.nontrivial(n > 0)


TESTS = [Test('operations', cases_for(NAMES), check, quick=14000),
         Test('creation', create_cases, check_create, quick=8000),
         Test('rawcopy', rawcopies(), check_rawcopy, quick=6000)]
