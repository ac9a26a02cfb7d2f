"""C01: structural operations behave as on a named table of rows."""
from hypothesis import strategies as st

from lib.core import Test, ensure
from lib.data import (TYPES, Table, axis_of, build, ensure_consistent,
                      ensure_table, ident, is_num, sparse_ok,
                      subset, tables, typed_tables,
                      types)
from lib.core import missing, same

axes = st.sampled_from(['point', 'feature'])
small = st.integers(0, 11)
picks = st.lists(st.tuples(small, st.integers(0, 3)), min_size=1, max_size=4)
selector = st.one_of(
    st.tuples(st.just('list'), picks),
    st.tuples(st.just('one'), small, st.integers(0, 3)),
    st.tuples(st.just('range'), small, small, st.integers(0, 8)),
    st.tuples(st.just('number'), small),
    st.tuples(st.just('func'), small, small),
    st.tuples(st.just('listnum'), picks, small),
)
ops = st.one_of(
    st.tuples(st.just('select'),
              st.sampled_from(['copy', 'extract', 'delete', 'retain',
                               'count']), axes, selector),
    st.tuples(st.just('permute'), axes, st.permutations(list(range(8))),
              st.integers(0, 3)),
    st.tuples(st.just('sort'), axes,
              st.lists(st.tuples(small, st.integers(0, 1)), min_size=1,
                       max_size=3), st.booleans(), st.integers(0, 3)),
    st.tuples(st.just('insert'), axes, small, st.integers(0, 3),
              st.sampled_from(['append', 'insert']),
              tables(max_p=3, max_f=3, naming=False),
              st.integers(0, 3), types, st.booleans()),
    st.tuples(st.just('repeat'), axes, st.integers(1, 3), st.booleans()),
    st.tuples(st.just('transpose')),
    st.tuples(st.just('setNames'), axes, st.permutations(
        ['n1', 'n2', 'n3', 'a', 'b', 'c', 'd', '0', 'x y', 'zz']),
        st.integers(0, 4), small),
    st.tuples(st.just('replace'), axes, picks, types,
              tables(min_p=4, max_p=4, max_f=4, naming=False),
              st.integers(0, 7)),
    st.tuples(st.just('convert'), types),
    st.tuples(st.just('setitem'), small, small, small,
              st.sampled_from([0, 1, 2.5, 's', 0, 7])),
    st.tuples(st.just('imul'), st.sampled_from([0, 2, -1])),
    st.tuples(st.just('observe')),
)

cases = st.fixed_dictionaries({
    'table': st.one_of(typed_tables(), typed_tables(),
                       typed_tables(min_p=0, min_f=0)),
    'ops': st.lists(ops, min_size=1, max_size=8),
    'watch': st.booleans(),
})

CAP = 24     # largest axis


def comparable(vals):
    if any(missing(v) for v in vals):
        return False
    if all(isinstance(v, str) for v in vals):
        return True
    return all(is_num(v) for v in vals)


def choose(m, axis, s):
    """(kwargs of the operation, the indices it means), or None."""
    n = m.count(axis)
    if n == 0:
        return None
    nm = m.anames(axis)
    kind = s[0]
    if kind in ('list', 'listnum'):
        idx = subset(n, [k for k, _ in s[1]])
        arg = []
        for i in idx:
            how = next(h for k, h in s[1] if k % n == i)
            arg.append(ident(nm, i, how, n))
        if kind == 'list':
            return [arg], {}, idx
        num = s[2] % len(idx) + 1
        return [arg], {'number': num}, idx[:num]
    if kind == 'one':
        i = s[1] % n
        return [ident(nm, i, s[2], n)], {}, [i]
    if kind == 'range':
        a, b = sorted((s[1] % n, s[2] % n))
        how = s[3]
        kw = {}
        lo, hi = 0, n - 1
        if how % 3 != 1:
            kw['start'] = ident(nm, a, how // 3, n)
            lo = a
        if how % 3 != 2:
            kw['end'] = ident(nm, b, how // 3, n)
            hi = b
        return [], kw, list(range(lo, hi + 1))
    if kind == 'number':
        num = s[1] % n + 1
        return [], {'number': num}, list(range(num))
    if kind == 'func':
        t = m.along(axis)
        if not t.nf:
            return None
        j = s[1] % t.nf
        target = t.rows[s[2] % n][j]
        idx = [i for i in range(n) if same(t.rows[i][j], target)]
        return [lambda v: same(v[j], target)], {}, idx
    raise AssertionError(kind)


class State:
    def __init__(self, obj, model, rtype):
        self.obj, self.m, self.rtype = obj, model, rtype
        # whether the content was ever one that Sparse cannot hold here
        self.tainted = not sparse_ok(model.rows)


def fresh_names(m, axis, n, off=0):
    used = set(m.anames(axis))
    ret, k = [], off
    while len(ret) < n:
        name = 'i%d' % k
        k += 1
        if name not in used:
            ret.append(name)
    return ret


def step(s, op, ctx):
    m, obj = s.m, s.obj
    name = op[0]
    if name == 'select':
        _, what, axis, how = op
        c = choose(m, axis, how)
        if c is None:
            return False
        args, kw, idx = c
        ax = axis_of(obj, axis)
        label = '%ss.%s' % (axis, what)
        if what == 'count':
            if how[0] != 'func':
                return False
            got = ax.count(*args)
            ensure(got == len(idx), label, 'gives', got, 'expected', idx)
            return True
        ret = getattr(ax, what)(*args, useLog=False, **kw)
        taken = m.take(axis, idx)
        if what in ('copy', 'extract'):
            ensure_table(ret, taken, label + ' result', rtype=s.rtype)
        else:
            ensure(ret is None, label, 'returned', ret)
        if what in ('extract', 'delete'):
            s.m = m.drop(axis, idx)
        elif what == 'retain':
            s.m = taken
    elif name == 'permute':
        _, axis, order, how = op
        n = m.count(axis)
        if n > len(order):
            return False
        order = [i for i in order if i < n]
        nm = m.anames(axis)
        axis_of(obj, axis).permute([ident(nm, i, how, n) for i in order],
                                   useLog=False)
        s.m = m.take(axis, order)
    elif name == 'sort':
        _, axis, by, reverse, how = op
        t = m.along(axis)
        n = t.np
        if n == 0:
            return False
        if how == 0:
            if any(x is None for x in t.pn):
                return False
            order = sorted(range(n), key=lambda i: t.pn[i], reverse=reverse)
            axis_of(obj, axis).sort(reverse=reverse, useLog=False)
        elif how == 1:
            if not t.nf:
                return False
            j = by[0][0] % t.nf
            col = [r[j] for r in t.rows]
            if not comparable(col):
                return False
            order = sorted(range(n), key=lambda i: col[i], reverse=reverse)
            axis_of(obj, axis).sort(lambda v: v[j], reverse=reverse,
                                    useLog=False)
        elif how == 2:
            if not t.nf:
                return False
            j = by[0][0] % t.nf
            col = [r[j] for r in t.rows]
            if not comparable(col):
                return False
            order = sorted(range(n), key=lambda i: col[i], reverse=reverse)
            axis_of(obj, axis).sort(
                lambda v, w: (v[j] > w[j]) * 1 - (v[j] < w[j]) * 1,
                reverse=reverse, useLog=False)
        else:
            if not t.nf:
                return False
            keys = [k % t.nf for k, _ in by]
            for j in keys:
                if not comparable([r[j] for r in t.rows
                                   if not missing(r[j])]):
                    return False
            # missing values follow the others
            order = sorted(range(n), reverse=reverse, key=lambda i: [
                (True, 0) if missing(t.rows[i][j])
                else (False, t.rows[i][j]) for j in keys])
            arg = [ident(t.fn, j, h, t.nf) for j, (_, h) in zip(keys, by)]
            if len(arg) == 1 and by[0][0] % 2:
                arg = arg[0]
            axis_of(obj, axis).sort(arg, reverse=reverse, useLog=False)
        s.m = m.take(axis, order)
    elif name == 'insert':
        _, axis, at, how, form, table, naming, otype, shuffle = op
        off = 'feature' if axis == 'point' else 'point'
        n, w = m.count(axis), m.count(off)
        if w == 0 or n == 0:
            return False
        src = Table.of(table)
        count = src.np
        rows = [[src.rows[i][j % src.nf] for j in range(w)]
                for i in range(count)]
        offnames = m.anames(off)
        onames = [None] * w
        if naming & 1:
            onames = list(offnames)
        inames = fresh_names(m, axis, count) if naming & 2 else \
            [None] * count
        if not sparse_ok(rows + m.rows):
            if s.rtype == 'Sparse':
                return False
            if otype == 'Sparse':
                otype = 'List'
        o = Table(rows, inames, onames, w)
        if shuffle and naming & 1 and None not in offnames:
            o = o.take('feature', list(range(w))[::-1])
        o = Table.back(o, axis)
        oobj = build({'rows': o.rows, 'pn': o.pn, 'fn': o.fn, 'f': o.nf},
                     otype)
        aligned = o
        if shuffle and naming & 1 and None not in offnames:
            aligned = o.take(off, list(range(w))[::-1])
        ax = axis_of(obj, axis)
        if form == 'append':
            at = n
            ax.append(oobj, useLog=False)
        else:
            at = at % (n + 1)
            ax.insert(ident(m.anames(axis), at, how % 2, n) if at < n
                      else n, oobj, useLog=False)
        ensure_table(oobj, o, 'argument of insert', rtype=otype)
        s.m = m.insert(axis, at, aligned)
    elif name == 'repeat':
        _, axis, copies, one = op
        n = m.count(axis)
        if n == 0 or m.np == 0 or m.nf == 0 or n * copies > CAP:
            return False
        nm = m.anames(axis)
        ret = axis_of(obj, axis).repeat(copies, one, useLog=False)
        if one:
            order = [(i, c) for i in range(n) for c in range(copies)]
        else:
            order = [(i, c) for c in range(copies) for i in range(n)]
        new = m.take(axis, [i for i, _ in order])
        if copies > 1:
            new_names = [None if nm[i] is None else '%s_%d' % (nm[i], c + 1)
                         for i, c in order]
            if axis == 'point':
                new.pn = new_names
            else:
                new.fn = new_names
        ensure_table(ret, new, 'repeat', rtype=s.rtype)
        ensure_table(obj, m, 'after repeat', rtype=s.rtype)
        s.obj, s.m = ret, new
    elif name == 'transpose':
        obj.transpose(useLog=False)
        s.m = m.T()
    elif name == 'setNames':
        _, axis, pool, how, k = op
        n = m.count(axis)
        ax = axis_of(obj, axis)
        if n > len(pool):
            return False
        new = list(pool[:n])
        if how == 0:
            ax.setNames(new, useLog=False)
        elif how == 1:
            ax.setNames(None, useLog=False)
            new = [None] * n
        elif how == 2 and n:
            ax.setNames({x: i for i, x in enumerate(new)}, useLog=False)
        elif how == 3 and n:
            i = k % n
            new = list(m.anames(axis))
            if pool[0] in new:
                return False
            old = ident(new, i, k % 2, n)
            new[i] = pool[0]
            ax.setNames(pool[0], oldIdentifiers=old, useLog=False)
        elif how == 4 and n:
            new = [x if (i + k) % 3 else None for i, x in enumerate(new)]
            ax.setNames(new, useLog=False)
        else:
            return False
        s.m = m.copy()
        if axis == 'point':
            s.m.pn = new
        else:
            s.m.fn = new
    elif name == 'replace':
        _, axis, where, otype, table = op[:5]
        form = op[5] if len(op) > 5 else 0
        t = m.along(axis)
        if not t.np or not t.nf:
            return False
        idx = subset(t.np, [k for k, _ in where])
        rows = [[table['rows'][i][j % table['f']] for j in range(t.nf)]
                for i in range(len(idx))]
        if not sparse_ok(rows + m.rows):
            if s.rtype == 'Sparse':
                return False
            if otype == 'Sparse':
                otype = 'List'
        o = Table.back(Table(rows, None, None, t.nf), axis)
        arg = []
        for i in idx:
            how = next(h for k, h in where if k % t.np == i)
            arg.append(ident(t.pn, i, how, t.np))
        given = [t.pn[i] for i in idx]
        if form >= 6 and (None in given or len(idx) == t.np):
            form = 0
        word = 'points' if axis == 'point' else 'features'
        kw = {word: arg}
        if form in (1, 2, 3, 7) and s.rtype == 'Sparse' and \
                not sparse_ok(rows):
            return False
        if form == 1:       # raw data
            data = o.rows
        elif form == 2 and len(idx) == 1:
            data = list(rows[0])
            kw = {word: arg[0]}
        elif form == 3 and len(idx) == 1 and t.nf > 1:
            # a vector of the other direction
            data = o.T().rows
        elif form == 7:     # matched by name, raw data
            data = o.rows
            kw = {axis + 'Names': given}
            kw['pointNames' if axis == 'feature' else 'featureNames'] = None
        else:
            data = build({'rows': o.rows, 'pn': None, 'fn': None,
                          'f': o.nf}, otype)
            if form >= 5:
                axis_of(data, axis).setNames(
                    ['m%d' % i for i in range(len(idx))], useLog=False)
            if form == 6:   # matched by name
                axis_of(data, axis).setNames(given, useLog=False)
                kw = {}
            elif form == 4 and len(idx) == t.np:    # in the order there is
                idx = list(range(t.np))
                kw = {}
        if form in (1, 2, 3) and isinstance(data, list):
            kw.update(pointNames=False, featureNames=False)
        axis_of(obj, axis).replace(data, useLog=False, **kw)
        new = t.copy()
        for i, r in zip(idx, rows):
            new.rows[i] = r
        s.m = Table.back(new, axis)
    elif name == 'convert':
        if op[1] == 'Sparse' and s.tainted and ctx.excluded('C01-1'):
            return False
        s.rtype = op[1]
        s.obj = obj.copy(to=op[1])
        ensure_table(obj, m, 'source of a conversion')
    elif name == 'setitem':
        _, i, j, how, val = op
        if not m.np or not m.nf:
            return False
        i, j = i % m.np, j % m.nf
        if s.rtype == 'Sparse' and not sparse_ok(m.rows + [[val]]):
            return False
        obj[ident(m.pn, i, how % 2, m.np),
            ident(m.fn, j, how // 2 % 2, m.nf)] = val
        s.m = m.copy()
        s.m.rows[i][j] = val
    elif name == 'imul':
        if not m.np or not m.nf:
            return False
        if not all(is_num(v) and not isinstance(v, bool) and not missing(v)
                   for r in m.rows for v in r):
            return False
        if any(abs(v) > 1e6 for r in m.rows for v in r):
            return False
        s.obj *= op[1]
        s.m = m.copy()
        s.m.rows = [[v * op[1] for v in r] for r in m.rows]
    elif name == 'observe':
        ensure_consistent(obj, 'in mid-sequence')
    return True


def check(case, ctx):
    """
    a table, a backend type and up to 8 structural operations on either
    axis, run on the object and on a list-of-rows model; non-trivial = at
    least two operations other than observation were applied to a table
    with at least 2 cells
    """
    m = Table.of(case['table'])
    s = State(build(case['table'], case['table']['type']), m, case['table']['type'])
    done = []
    big = m.np * m.nf >= 2
    for op in case['ops']:
        if s.m.np > CAP or s.m.nf > CAP:
            break
        label = op[0] if op[0] != 'select' else op[1]
        if step(s, op, ctx):
            s.tainted = s.tainted or not sparse_ok(s.m.rows)
            ctx.label(label)
            if op[0] != 'observe':
                done.append(label)
            if case['watch']:
                ensure_table(s.obj, s.m, 'after %s' % done[-3:],
                             rtype=s.rtype)
    ensure_table(s.obj, s.m, 'after %s' % done, rtype=s.rtype)
    ensure_consistent(s.obj, 'after %s' % done)
    ctx.label('type ' + s.rtype)
    ctx.nontrivial(big and len(done) >= 2)


TESTS = [Test('history', cases, check, quick=24000)]
