"""C02: the names of an axis are one partial injection at all times."""
from hypothesis import strategies as st

from lib.core import Test, Violation, ensure, same
from lib.data import (TYPES, Table, axis_of, build, ensure_table, ident,
                      names, subset)

axes = st.sampled_from(['point', 'feature'])
small = st.integers(0, 11)
POOL = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'x y', '0', '1', 'A', '-1', 'aa',
        'é', 'a b', '2.5', 'None', '']
name = st.sampled_from(POOL)
oname = st.one_of(name, name, name, st.none())
picks = st.lists(st.tuples(small, st.integers(0, 3)), min_size=1, max_size=4)

op = st.one_of(
    st.tuples(st.just('set'), axes, st.lists(oname, min_size=6, max_size=6),
              st.sampled_from(['list', 'dict', 'tuple', 'none', 'badlen',
                               'baddict'])),
    st.tuples(st.just('rename'), axes, picks,
              st.lists(oname, min_size=4, max_size=4), st.booleans()),
    st.tuples(st.just('select'),
              st.sampled_from(['copy', 'extract', 'delete', 'retain']),
              axes, picks),
    st.tuples(st.just('permute'), axes, st.permutations(list(range(6)))),
    st.tuples(st.just('sortnames'), axes, st.booleans()),
    st.tuples(st.just('transpose')),
    st.tuples(st.just('copyobj'), st.sampled_from(TYPES)),
    st.tuples(st.just('view'), small, small, small, small),
    st.tuples(st.just('insert'), axes, small, small,
              st.lists(oname, min_size=2, max_size=2)),
    st.tuples(st.just('ask'), axes, st.lists(name, min_size=1, max_size=3)),
    st.tuples(st.just('access'), axes, small, st.integers(0, 5)),
    st.tuples(st.just('retname'), axes, small, oname),
    st.tuples(st.just('mutate'), axes, small, name),
)

cases = st.fixed_dictionaries({
    'p': st.integers(1, 5), 'f': st.integers(1, 5),
    'type': st.sampled_from(TYPES),
    'pn': names(5), 'fn': names(5), 'late': st.booleans(),
    'ops': st.lists(st.tuples(small, op), min_size=1, max_size=12),
})


class Obj:
    def __init__(self, obj, model, view=False, of=None):
        self.obj, self.m, self.view, self.of = obj, model, view, of
        # views keep the names their source had when they were made; views
        # of them show the names the source has by then
        self.stale = False


def verify(o, what):
    """Every query about the names against the model's list."""
    for axis in ('point', 'feature'):
        ax = axis_of(o.obj, axis)
        nm = o.m.anames(axis)
        n = len(nm)
        ensure(len(ax) == n, what, axis, 'length', len(ax), 'expected', n)
        got = ax.getNames()
        ensure(got == nm, what, axis, 'names', got, 'expected', nm)
        for i, x in enumerate(nm):
            ensure(ax.getName(i) == x, what, 'getName', i, ax.getName(i),
                   'expected', x)
            if x is not None:
                ensure(ax.getIndex(x) == i, what, axis, 'getIndex', x,
                       ax.getIndex(x), 'expected', i)
        given = [x for x in nm if x is not None]
        got = ax.getIndices(given)
        ensure(got == [nm.index(x) for x in given], what, 'getIndices', got)
        for x in POOL:
            ensure(ax.hasName(x) == (x in given), what, axis, 'hasName', x,
                   ax.hasName(x), 'among', nm)
            if x not in given:
                try:
                    got = ax.getIndex(x)
                except (KeyError, IndexError):
                    continue
                raise Violation('%s: %s getIndex of the absent name %r is %r'
                                % (what, axis, x, got))
    ensure_table(o.obj, o.m, what)


def refused(call, what):
    try:
        call()
    except Exception:
        return
    raise Violation(what + ' was accepted')


def dup(nm):
    given = [x for x in nm if x is not None]
    return len(set(given)) != len(given)


def with_names(m, axis, nm):
    m = m.copy()
    if axis == 'point':
        m.pn = list(nm)
    else:
        m.fn = list(nm)
    return m


def step(objs, k, op, ctx):
    o = objs[k % len(objs)]
    what = op[0]
    m, obj = o.m, o.obj

    if o.view and what in ('set', 'rename', 'mutate'):
        # views are read-only windows: also their names
        axis = op[1]
        refused(lambda: axis_of(obj, axis).setNames(
            ['w%d' % i for i in range(m.count(axis))], useLog=False),
            'naming through a view')
        refused(lambda: axis_of(obj, axis).setNames(
            'w', oldIdentifiers=0, useLog=False), 'renaming through a view')
        return True

    if what in ('set', 'rename', 'mutate'):
        for x in objs:
            x.stale = x.stale or x.of is o

    def structural():
        """Views of an object that changes shape are not used further."""
        objs[:] = [x for x in objs if x.of is not o]

    if what == 'set':
        _, axis, pool, form = op
        n = m.count(axis)
        new = pool[:n]
        ax = axis_of(obj, axis)
        if n > len(pool):
            return False
        if form == 'none':
            ax.setNames(None, useLog=False)
            new = [None] * n
        elif form == 'badlen':
            refused(lambda: ax.setNames(pool[:n + 1], useLog=False)
                    if n < len(pool) else ax.setNames(['q'] * 20),
                    'a list of names of the wrong length')
            return True
        elif form == 'baddict':
            if n < 2:
                return False
            refused(lambda: ax.setNames(
                {'q%d' % i: i // 2 for i in range(n)}, useLog=False),
                'a dict giving one index two names')
            refused(lambda: ax.setNames(
                {'q%d' % i: i + 1 for i in range(n)}, useLog=False),
                'a dict with an index out of range')
            return True
        elif dup(new):
            if form != 'dict':
                refused(lambda: ax.setNames(
                    list(new) if form == 'list' else tuple(new),
                    useLog=False), 'a list with repeated names')
            return True
        elif form == 'dict':
            if None in new:
                return False
            given = {x: i for i, x in reversed(list(enumerate(new)))}
            ax.setNames(given, useLog=False)
            given['zzz'] = 0            # the caller's own dict changes later
            given.pop(new[-1], None) if n else None
        else:
            lst = list(new)
            ax.setNames(lst if form == 'list' else tuple(lst), useLog=False)
            lst.append('zzz')
            if n:
                lst[0] = 'yyy'      # the caller's own list changes later
        o.m = with_names(m, axis, new)
    elif what == 'rename':
        _, axis, where, pool, single = op
        n = m.count(axis)
        if n == 0:
            return False
        nm = m.anames(axis)
        idx = subset(n, [k for k, _ in where])
        old = []
        for i in idx:
            how = next(h for k, h in where if k % n == i)
            old.append(ident(nm, i, min(how, 1), n))
        new = pool[:len(idx)]
        ax = axis_of(obj, axis)
        clash = dup(new) or any(x is not None and x in nm
                                and nm.index(x) != i
                                for x, i in zip(new, idx))
        if single and len(idx) == 1:
            def call():
                ax.setNames(new[0], oldIdentifiers=old[0], useLog=False)
        else:
            def call():
                ax.setNames(list(new), oldIdentifiers=list(old),
                            useLog=False)
        after = list(nm)
        for x, i in zip(new, idx):
            after[i] = x
        if dup(after) or dup(new):
            refused(call, 'renaming %r to %r among %r' % (old, new, nm))
            return True
        if clash:
            # exchanging names in one call: allowed either way
            return False
        call()
        o.m = with_names(m, axis, after)
    elif what == 'select':
        _, how, axis, where = op
        n = m.count(axis)
        if n == 0 or (o.view and how != 'copy'):
            return False
        nm = m.anames(axis)
        idx = subset(n, [k for k, _ in where])
        arg = [ident(nm, i, next(h for k, h in where if k % n == i), n)
               for i in idx]
        ret = getattr(axis_of(obj, axis), how)(arg, useLog=False)
        if how in ('copy', 'extract'):
            objs.append(Obj(ret, m.take(axis, idx)))
        if how in ('extract', 'delete'):
            structural()
            o.m = m.drop(axis, idx)
        elif how == 'retain':
            structural()
            o.m = m.take(axis, idx)
    elif what == 'permute':
        _, axis, order = op
        n = m.count(axis)
        if o.view or n > len(order):
            return False
        order = [i for i in order if i < n]
        structural()
        axis_of(obj, axis).permute(order, useLog=False)
        o.m = m.take(axis, order)
    elif what == 'sortnames':
        _, axis, reverse = op
        nm = m.anames(axis)
        if o.view or None in nm:
            return False
        structural()
        axis_of(obj, axis).sort(reverse=reverse, useLog=False)
        o.m = m.take(axis, sorted(range(len(nm)), key=lambda i: nm[i],
                                  reverse=reverse))
    elif what == 'transpose':
        if o.view:
            return False
        structural()
        obj.transpose(useLog=False)
        o.m = m.T()
    elif what == 'copyobj':
        objs.append(Obj(obj.copy(to=op[1]), m.copy()))
    elif what == 'view':
        if not m.np or not m.nf or o.stale:
            return False
        a, b = sorted((op[1] % m.np, op[2] % m.np))
        c, d = sorted((op[3] % m.nf, op[4] % m.nf))
        v = obj.view(ident(m.pn, a, 1, m.np), b, c, ident(m.fn, d, 1, m.nf))
        objs.append(Obj(v, m.take('point', list(range(a, b + 1))).take(
            'feature', list(range(c, d + 1))), True, o.of or o))
    elif what == 'insert':
        _, axis, at, src, new = op
        off = 'feature' if axis == 'point' else 'point'
        n, w = m.count(axis), m.count(off)
        if o.view or not n or not w or n + 2 > 6:
            return False
        if dup(new):
            return False
        rows = [[1000 + 10 * i + j for j in range(w)] for i in range(2)]
        add = Table.back(Table(rows, new, m.anames(off), w), axis)
        ins = build({'rows': add.rows, 'pn': add.pn, 'fn': add.fn,
                     'f': add.nf}, TYPES[src % 4])
        ax = axis_of(obj, axis)
        at = at % (n + 1)

        def call():
            ax.insert(at, ins, useLog=False)
        if dup(m.anames(axis) + new):
            refused(call, 'inserting names %r into %r'
                    % (new, m.anames(axis)))
            return True
        structural()
        call()
        o.m = m.insert(axis, at, add)
        objs.append(Obj(ins, add))
    elif what == 'ask':
        _, axis, asked = op
        ax = axis_of(obj, axis)
        nm = m.anames(axis)
        for x in asked:
            ensure(ax.hasName(x) == (x in nm), 'hasName', x, 'among', nm)
        if all(x in nm for x in asked):
            got = ax.getIndices(asked)
            ensure(got == [nm.index(x) for x in asked], 'getIndices', asked,
                   'gives', got, 'among', nm)
        else:
            refused(lambda: ax.getIndices(asked), 'getIndices of %r among %r'
                    % (asked, nm))
    elif what == 'access':
        _, axis, i, how = op
        t = m.along(axis)
        named = [k for k, x in enumerate(t.pn) if x is not None]
        if not named or not t.nf:
            return False
        i = named[i % len(named)]
        x = t.pn[i]
        ax = axis_of(obj, axis)
        if how == 0:
            got = list(ax[x])
        elif how == 1:
            got = list(obj[x, :] if axis == 'point' else obj[:, x])
        elif how == 2:
            v = obj.pointView(x) if axis == 'point' else obj.featureView(x)
            got = list(v)
        elif how == 3:
            got = list(ax.copy(x, useLog=False))
        elif how == 4:
            got = [obj[x, j] if axis == 'point' else obj[j, x]
                   for j in range(t.nf)]
        else:
            got = [v for v in ax][i][0:t.nf - 1]
            got = list(got)
        ensure(len(got) == t.nf and all(same(a, b) for a, b in
                                        zip(got, t.rows[i])),
               axis, x, 'shows', got, 'expected', t.rows[i])
    elif what == 'retname':
        # what getNames returned belongs to the caller
        _, axis, i, x = op
        lst = axis_of(obj, axis).getNames()
        if lst:
            lst[i % len(lst)] = x
            lst.append('extra')
    elif what == 'mutate':
        # rename one at a time through an index
        _, axis, i, x = op
        n = m.count(axis)
        if not n:
            return False
        nm = m.anames(axis)
        i = i % n
        ax = axis_of(obj, axis)
        if x in nm and nm.index(x) != i:
            refused(lambda: ax.setNames(x, oldIdentifiers=i, useLog=False),
                    'renaming %d to the used name %r' % (i, x))
            return True
        ax.setNames(x, oldIdentifiers=i, useLog=False)
        after = list(nm)
        after[i] = x
        o.m = with_names(m, axis, after)
    return True


def check(case, ctx):
    """
    up to 12 name-changing, structural and asking operations over an object
    and the copies, views, extracted parts and inserted objects that arise
    from it, each with its own list of names as model, all verified after
    every step; non-trivial = two operations were applied and an axis has a
    name
    """
    p, f = case['p'], case['f']
    rows = [[10 * i + j + 1 for j in range(f)] for i in range(p)]
    pn = case['pn'][:p] if case['pn'] else None
    fn = case['fn'][:f] if case['fn'] else None
    data = {'rows': rows, 'pn': pn, 'fn': fn, 'f': f}
    given = {'pn': pn and list(pn), 'fn': fn and list(fn)}
    if case['ops'] and case['ops'][0][0] % 2:
        given = {a: n if not n or None in n else
                 {x: i for i, x in enumerate(n)} for a, n in given.items()}
    data.update(given)
    if case['late']:
        obj = build(dict(data, pn=None, fn=None), case['type'])
        if pn:
            obj.points.setNames(given['pn'], useLog=False)
        if fn:
            obj.features.setNames(given['fn'], useLog=False)
    else:
        obj = build(data, case['type'])
    for n in given.values():            # the caller's names change later
        if isinstance(n, dict):
            n['zzz'] = 0
        elif n:
            n[0] = 'zzz'
    data = {'rows': rows, 'pn': pn, 'fn': fn, 'f': f}
    objs = [Obj(obj, Table.of(data))]
    done = 0
    for k, op in case['ops']:
        if len(objs) > 5:
            del objs[1]
            objs[:] = [x for x in objs if x.of is None or x.of in objs]
        if step(objs, k, op, ctx):
            done += 1
            ctx.label(op[0])
            for i, o in enumerate(objs):
                verify(o, 'object %d after %r' % (i, op[0]))
    ctx.label('objects %d' % len(objs))
    ctx.nontrivial(done >= 2 and bool(pn or fn))


TESTS = [Test('history', cases, check, quick=14000)]
