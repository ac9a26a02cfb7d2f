"""C21: train and test splits partition the data with labels aligned."""
import nimble
import numpy as np
from hypothesis import strategies as st

from nimble import random as nrandom
from lib.core import Test, Violation, ensure, missing, same, same_rows
from lib.data import (TYPES, Table, build, build_table, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, nan, names,
                      rows_of, snapshot, stirred, subset, typed_tables)

N = nimble.exceptions


@st.composite
def splits(draw):
    t = draw(typed_tables(min_p=1, max_p=9, min_f=1, max_f=5))
    f, p = t['f'], len(t['rows'])
    lab = draw(st.sampled_from(['none', 'index', 'name', 'list', 'object',
                                'object']))
    case = {'t': t, 'lab': lab,
            'fraction': draw(st.one_of(
                st.sampled_from([0, 0.25, 0.5, 1, 0.2, 1 / 3, 0.9]),
                st.integers(0, 100).map(lambda k: k / 100))),
            'random': draw(st.booleans()), 'seed': draw(st.integers(0, 999)),
            'picks': draw(st.lists(st.integers(0, 9), min_size=1,
                                   max_size=3)),
            'hows': draw(st.lists(st.integers(0, 2), min_size=3,
                                  max_size=3)),
            'oname': draw(st.sampled_from([None, None, 'data'])),
            'lname': draw(st.sampled_from([None, 'labs'])),
            'bad': draw(st.sampled_from([None] * 9 + ['fraction', 'count',
                                                      'names'])),
            'stir': draw(st.integers(0, 7)), 'lstir': draw(st.integers(0, 7)),
            'view': draw(st.integers(0, 5))}
    if lab == 'object':
        case['l'] = draw(typed_tables(min_p=p, max_p=p, min_f=1, max_f=3))
        if draw(st.integers(0, 3)):
            case['l']['pn'] = t['pn'] if draw(st.booleans()) else None
        # some of the labels can be in the data as well
        if t['fn'] and case['l']['fn'] and draw(st.booleans()):
            k = draw(st.integers(0, f - 1))
            if t['fn'][k] not in case['l']['fn']:
                case['l']['fn'][0] = t['fn'][k]
    return case


def parts(obj, t, ids, what, tag):
    """Is each point of obj one of t? Gives their indices in t."""
    ensure(len(obj.points) == len(ids), what, tag, 'has', len(obj.points),
           'points')
    want = Table([t.rows[i] for i in ids],
                 [t.pn[i] for i in ids], t.fn, t.nf)
    ensure_table(obj, want, what + ' ' + tag)


def check_split(case, ctx):
    """
    every point in exactly one of the sets, next to its own labels;
    non-trivial = labels or random order, and both of the sets have points
    """
    t = Table.of(case['t'])
    n = len(t.rows)
    # a first feature that identifies each point
    if case['t']['type'] != 'Sparse' or not any(
            isinstance(v, bool) for r in t.rows for v in r):
        rows = [[100 + i] + r for i, r in enumerate(t.rows)]
        fn = None if not case['t']['fn'] else ['@id'] + list(t.fn)
        t = Table(rows, case['t']['pn'], fn, t.nf + 1)
        marked = True
    else:
        # cannot mix booleans and numbers: the names identify the points
        t = Table(t.rows, ['n%d' % i for i in range(n)], case['t']['fn'],
                  t.nf)
        if case['lab'] == 'object':
            case['l']['pn'] = None
        marked = False
    o = stirred(build_table(t, case['t']['type']), case['stir'])
    o.name = case['oname']
    frac = case['fraction']
    what = '%s.trainAndTestSets(%r, %s %r, %r) of %r' % (
        case['t']['type'], frac, case['lab'], case.get('l', case['picks']),
        case['random'], t)
    if case['view'] == 0 and n and t.nf:
        o = o.view()
        o.name = case['oname']
    before = snapshot(o)
    labels, lt, lobj, cols = None, None, None, []
    first = 1 if marked else 0
    if case['lab'] == 'object':
        l = case['l']
        lobj = stirred(build(l, l['type']), case['lstir'])
        lobj.name = case['lname']
        lt = Table.of(l)
        labels = lobj
        lbefore = snapshot(lobj)
    elif case['lab'] != 'none':
        cols = [c + first for c in subset(t.nf - first, case['picks'])]
        if case['lab'] != 'list':
            cols = cols[:1]
        labels = [ident(t.fn, c, h if case['lab'] == 'list' else
                        {'index': 2 * (h > 0), 'name': 1}[case['lab']], t.nf)
                  for c, h in zip(cols, case['hows'])]
        if case['lab'] != 'list':
            labels = labels[0]
        if not cols:
            ctx.excluded('nothing to be the label')
            return
    bad = case['bad']
    if bad == 'fraction':
        frac = 1.5 if frac > 0.5 else -0.1
    elif bad == 'count':
        if lobj is None:
            return
        lobj = labels = nimble.data([[1]] * (n + 1), useLog=False)
    elif bad == 'names':
        if lobj is None or n < 2:
            return
        o.points.setNames(['n%d' % i for i in range(n)], useLog=False) \
            if case['view'] else None
        if not case['view']:
            return
        before = snapshot(o)
        lobj.points.setNames(['n%d' % i for i in range(n)][::-1],
                             useLog=False)
    if bad:
        nrandom.setSeed(case['seed'], useLog=False)
        try:
            o.trainAndTestSets(frac, labels, randomOrder=case['random'],
                               useLog=False)
        except N.InvalidArgumentValue:
            ensure_same_snapshot(before, o, what)
            ctx.label('refused ' + bad)
            ctx.nontrivial(True)
            return
        raise Violation('%s: %s was not refused' % (what, bad))
    if lobj is not None and any(t.pn) and any(lt.pn) and t.pn != lt.pn:
        ctx.excluded('other point names')
        return
    nrandom.setSeed(case['seed'], useLog=False)
    ret = o.trainAndTestSets(frac, labels, randomOrder=case['random'],
                             useLog=False)
    ensure_same_snapshot(before, o, what)
    if lobj is not None:
        ensure_same_snapshot(lbefore, lobj, what + ' labels')
    ensure(isinstance(ret, tuple)
           and len(ret) == (2 if labels is None else 4), what, 'gave', ret)
    X1, X2 = (ret[0], ret[1]) if labels is None else (ret[0], ret[2])
    k = len(X2.points)
    ensure(len(X1.points) + k == n, what, 'sizes', len(X1.points), k)
    ensure(abs(k - frac * n) <= 0.5 + 1e-9, what, k, 'of', n, 'to test')

    def ids_of(obj):
        if not len(obj.points):
            return []
        if marked:
            return [int(v) - 100 for v in [r[0] for r in rows_of(obj)]]
        return [int(x[1:]) for x in obj.points.getNames()]
    ids = ids_of(X1), ids_of(X2)
    ensure(sorted(ids[0] + ids[1]) == list(range(n)), what, 'split into', ids)
    if not case['random']:
        ensure(ids[0] + ids[1] == list(range(n)), what, 'order', ids)
    # the features
    rest = [j for j in range(t.nf) if j not in cols]
    if lobj is not None:
        both = {x for x in lt.fn if x is not None} & set(t.fn)
        rest = [j for j in rest if t.fn[j] not in both]
    X = Table([[r[j] for j in rest] for r in t.rows], t.pn,
              [t.fn[j] for j in rest], len(rest))
    parts(X1, X, ids[0], what, 'trainX')
    parts(X2, X, ids[1], what, 'testX')
    tags = ['train', 'test'] if labels is None else ['trainX', 'trainY',
                                                     'testX', 'testY']
    for r, tag in zip(ret, tags):
        ensure(r.name == (tag if case['oname'] is None else
                          case['oname'] + '_' + tag), what, 'name', r.name)
        ensure_consistent(r, what + ' ' + tag)
    if labels is not None:
        if lobj is None:
            Y = Table([[r[j] for j in cols] for r in t.rows], t.pn,
                      [t.fn[j] for j in cols], len(cols))
        else:
            Y = lt
        parts(ret[1], Y, ids[0], what, 'trainY')
        parts(ret[3], Y, ids[1], what, 'testY')
        for r in (ret[1], ret[3]):
            want = (lobj if lobj is not None else o).getTypeString()
            ensure(r.getTypeString() == want.replace('View', ''), what,
                   'type of labels', r.getTypeString())
    # nothing is shared
    for r in ret:
        if len(r.points) and len(r.features) \
                and case['t']['type'] != 'Sparse':
            r.points.transform(lambda v: [0] * len(v), useLog=False)
    ensure_same_snapshot(before, o, what + ' after changing the sets')
    if lobj is not None:
        ensure_same_snapshot(lbefore, lobj, what + ' labels after changes')
    ctx.label(case['lab'], case['t']['type'],
              'random' if case['random'] else 'ordered')
    ctx.nontrivial((labels is not None or case['random'])
                   and 0 < k < n)


# ---------------------------------------------------------- every arrangement

@st.composite
def shuffles(draw):
    return {'n': draw(st.integers(2, 4)), 'seed': draw(st.integers(0, 9999)),
            'type': draw(st.sampled_from(TYPES)),
            'labels': draw(st.booleans())}


def check_reach(case, ctx):
    """
    each point can be in either of the sets, at each place; non-trivial = more
    than two points
    """
    n = case['n']
    o = nimble.data([[i, i + 10] for i in range(n)], returnType=case['type'],
                    useLog=False)
    seen = set()
    nrandom.setSeed(case['seed'], useLog=False)
    for _ in range(150):
        ret = o.trainAndTestSets(0.5, 1 if case['labels'] else None,
                                 useLog=False)
        a, b = ret[0], ret[2 if case['labels'] else 1]
        order = [int(r[0]) for r in rows_of(a) + rows_of(b)]
        seen |= {(i, v) for i, v in enumerate(order)}
        if len(seen) == n * n:
            break
    ensure(len(seen) == n * n, 'points', case, 'never placed',
           {(i, v) for i in range(n) for v in range(n)} - seen)
    ctx.nontrivial(n > 2)


TESTS = [Test('split', splits(), check_split, quick=8000),
         Test('reach', shuffles(), check_reach, quick=200)]
