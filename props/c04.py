"""C04: views are faithful, read-only windows."""
import numpy as np
from hypothesis import strategies as st

from lib.core import Test, Violation, ensure
from lib.data import (TYPES, Table, build, build_table, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, rows_of,
                      same_rows, snapshot, sparse_ok, tables)
from lib.ops import (INPLACE, OPS, QUERY, R, REGISTRY, Env, Skip, canon,
                     canon_same, choices)

# operations that are not defined by the content shown
NOT_HERE = {'reference_from', 'to_string_path'}
NAMES = [o.name for o in OPS if o.name not in NOT_HERE]

# what is printed depends on the dtype that the whole object needs
PRINTING = {'to_string', 'printed'}

ks6 = st.lists(st.integers(0, 59), min_size=8, max_size=8)


# what scipy says when asked for a sparse matrix of Python objects
NO_OBJECT = ('object dtype is not supported by sparse',
             'unsupported data types in input')


def cases_for(names):
    def one(n):
        o = REGISTRY[n]
        kw = dict(min_p=1, min_f=1)
        return st.fixed_dictionaries({
            'table': tables(kinds=[k for k in o.kinds if k != 'mixed'],
                            percol=False, **kw) if n in PRINTING
                     else tables(kinds=o.kinds, **kw),
            'type': st.sampled_from(TYPES), 'op': st.just(n), 'ks': choices,
            'atype': st.sampled_from(TYPES), 'cut': ks6,
            'nested': st.booleans(), 'warm': st.booleans()})
    return st.sampled_from(names).flatmap(one)


def cut(o, t, r):
    """A view of a range of o, and the table it must show."""
    how = r.k() % 5
    p0, p1 = sorted((r.idx(t.np), r.idx(t.np)))
    f0, f1 = sorted((r.idx(t.nf), r.idx(t.nf)))
    if how == 0:
        v = o.pointView(r.ident(t.pn, p0))
        p1, f0, f1 = p0, 0, t.nf - 1
    elif how == 1:
        v = o.featureView(r.ident(t.fn, f0))
        f1, p0, p1 = f0, 0, t.np - 1
    elif how == 2:
        kw = {}
        if r.bool():
            kw['pointStart'] = r.ident(t.pn, p0)
        else:
            p0 = 0
        if r.bool():
            kw['pointEnd'] = r.ident(t.pn, p1)
        else:
            p1 = t.np - 1
        if r.bool():
            kw['featureStart'] = r.ident(t.fn, f0)
        else:
            f0 = 0
        if r.bool():
            kw['featureEnd'] = r.ident(t.fn, f1)
        else:
            f1 = t.nf - 1
        v = o.view(**kw)
    elif how == 3:
        if r.bool():            # iterating an axis gives views
            v = list(o.points)[p0]
            p1, f0, f1 = p0, 0, t.nf - 1
        else:
            v = list(o.features)[f0]
            f1, p0, p1 = f0, 0, t.np - 1
    else:
        v = o.view(r.ident(t.pn, p0), r.ident(t.pn, p1),
                   r.ident(t.fn, f0), r.ident(t.fn, f1))
    sub = t.take('point', list(range(p0, p1 + 1)))
    sub = sub.take('feature', list(range(f0, f1 + 1)))
    return v, sub


def outcome(name, target, t, case):
    env = Env(t, case['atype'])
    try:
        ret = canon(REGISTRY[name].run(target, R(case['ks']), env))
    except Skip:
        raise
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:300])
    return ('ok', ret)


def check(case, ctx):
    """
    one public operation on a view of a generated range (possibly of another
    view); non-trivial = the view is a proper part of the object with at
    least two cells
    """
    rtype = case['type']
    if rtype == 'Sparse' and not sparse_ok(case['table']['rows']):
        rtype = 'List'
    o = build(case['table'], rtype)
    whole = Table.of(case['table'])
    r = R(case['cut'])
    if case['warm']:
        o.points.getNames(), o.features.getNames()
        [o[i, j] for i in range(whole.np) for j in range(whole.nf)]
    try:
        v, t = cut(o, whole, r)
        parents = [o]
        if case['nested']:
            parents.append(v)
            v, t = cut(v, t, r)
    except Skip:
        return
    before = [snapshot(x) for x in parents]
    vbefore = snapshot(v)
    what = 'view %r of %s' % (t, rtype)
    ensure_table(v, t, what)
    alone = build_table(t, rtype)
    name = case['op']
    spec = REGISTRY[name]
    proper = (t.np, t.nf) != (whole.np, whole.nf) and t.np * t.nf >= 2
    if spec.kind == QUERY:
        try:
            want = outcome(name, alone, t, case)
            got = outcome(name, v, t, case)
        except Skip:
            return
        if got[0] == 'raised' and any(m in got[2] for m in NO_OBJECT) \
                and not sparse_ok(whole.rows) \
                and ctx.excluded('C04-sparse-object'):
            return
        if want[0] != got[0] or (want[0] == 'ok'
                                 and not canon_same(want[1], got[1])):
            raise Violation('%s: %s gives %r, an independent object %r'
                            % (what, name, got[1:], want[1:]))
        ctx.label('query ' + name)
    else:
        env = Env(t, case['atype'])
        try:
            spec.run(v, R(case['ks']), env)
            refused = None
        except Skip:
            return
        except Exception as e:
            refused = e
        for x, s in zip(parents, before):
            ensure_same_snapshot(s, x, '%s: %s on it: parent' % (what, name))
        ensure_same_snapshot(vbefore, v, '%s: %s on it' % (what, name))
        ensure(refused is not None, what, ':', name, 'was not refused')
        ctx.label('modify ' + name)
    for x, s in zip(parents, before):
        ensure_same_snapshot(s, x, '%s: %s on it: parent' % (what, name))
    ensure_same_snapshot(vbefore, v, '%s: %s on it' % (what, name))
    ensure_consistent(v, what)
    ctx.nontrivial(proper)


TESTS = [Test('operation', cases_for(NAMES), check, quick=26000)]
