"""C31: equality of objects is equality of content."""
import copy as copymod

import numpy as np
import scipy.sparse
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same, same_rows
from lib.data import (KINDS, TYPES, Table, build, build_table,
                      ensure_same_snapshot, nan, snapshot, sparse_ok,
                      stirred, typed_tables)

PERTURB = ['none', 'none', 'none', 'value', 'value', 'missing', 'zero',
           'swap', 'ptname', 'ftname', 'noname', 'swapnames', 'drop',
           'transpose', 'close', 'kind']


@st.composite
def pairs(draw):
    t = draw(typed_tables(min_p=0, min_f=0))
    same_type = draw(st.integers(0, 3))
    return {'table': t, 'type': t['type'],
            'type2': t['type'] if same_type else draw(st.sampled_from(TYPES)),
            'stir': draw(st.integers(0, 63)),
            'how': draw(st.sampled_from(['build', 'build', 'view', 'copy',
                                         'convert', 'coo', 'edit', 'viewbig',
                                         'deepcopy'])),
            'left': draw(st.sampled_from(['object', 'object', 'view'])),
            'perturb': draw(st.sampled_from(PERTURB)),
            'at': draw(st.integers(0, 999)), 'at2': draw(st.integers(0, 999)),
            'order': draw(st.permutations(range(3)))}


def perturbed(t, case):
    """
    A table with one place changed, or the very same table where this does
    not apply.
    """
    t = t.copy()
    kind, at, at2 = case['perturb'], case['at'], case['at2']
    n = t.np * t.nf
    new = None
    if kind in ('value', 'missing', 'zero', 'close', 'kind') and n:
        i, j = divmod(at % n, t.nf)
        v = t.rows[i][j]
        isnum = not isinstance(v, (str, bool)) and not missing(v)
        if kind == 'missing' and not isinstance(v, bool):
            new = nan
        elif kind == 'zero' and isnum:
            new = 0
        elif kind == 'close' and isnum:
            new = v + 1e-7
        elif kind == 'kind' and case['type'] != 'Sparse':
            new = str(v) if isnum else v
        elif kind == 'value':
            if isinstance(v, bool):
                new = not v
            elif isinstance(v, str):
                new = v + ' '
            else:
                new = -v - 1 if not missing(v) else 4
        if new is not None:
            t.rows[i][j] = new
    elif kind == 'swap' and n > 1:
        i, j = divmod(at % n, t.nf)
        k, m = divmod(at2 % n, t.nf)
        t.rows[i][j], t.rows[k][m] = t.rows[k][m], t.rows[i][j]
    elif kind in ('ptname', 'ftname'):
        names = t.pn if kind == 'ptname' else t.fn
        if names:
            k = at % len(names)
            names[k] = (names[k] or '') + 'Q'
    elif kind == 'noname':
        names = t.pn if at2 % 2 else t.fn
        if names:
            names[at % len(names)] = None
    elif kind == 'swapnames':
        names = t.pn if at2 % 2 else t.fn
        if len(names) > 1:
            k = at % (len(names) - 1)
            names[k], names[k + 1] = names[k + 1], names[k]
    elif kind == 'drop' and t.np > 1:
        return t.drop('point', [at % t.np])
    elif kind == 'transpose':
        return t.T()
    return t


def made(t, rtype, how, k):
    """An object with the content of the table, obtained in some way."""
    if how == 'view':
        return build_table(t, rtype).view()
    if how == 'copy':
        return build_table(t, rtype).copy()
    if how == 'deepcopy':
        return copymod.deepcopy(build_table(t, rtype))
    if how == 'convert':
        other = TYPES[k % 4]
        if other == 'Sparse' and not sparse_ok(t.rows):
            other = 'Matrix'
        return build_table(t, other).copy(rtype)
    if how == 'coo' and t.np and t.nf and sparse_ok(t.rows) \
            and not isinstance(t.rows[0][0], bool):
        # every element is stored, zeros as well, in any order
        ij = [(i, j) for i in range(t.np) for j in range(t.nf)]
        if k % 2:
            ij = ij[::-1]
        coo = scipy.sparse.coo_matrix(
            (np.array([t.rows[i][j] for i, j in ij]),
             ([i for i, _ in ij], [j for _, j in ij])), shape=(t.np, t.nf))
        return nimble.data(coo, pointNames=list(t.pn), featureNames=list(
            t.fn), returnType=rtype, useLog=False)
    if how == 'edit' and t.np and t.nf:
        # one element reaches its value by assignment
        i, j = divmod(k % (t.np * t.nf), t.nf)
        o = build_table(t, rtype)
        v = t.rows[i][j]
        if not isinstance(v, (str, bool)) and not missing(v):
            o[i, j] = v + 3
            o[i, j] = v
        return o
    if how == 'viewbig' and t.np and t.nf:
        filler = 0 if rtype == 'Sparse' else 5
        isb = isinstance(t.rows[0][0], bool)
        pad = False if isb else filler
        a, b = k % 2, (k // 2) % 3
        rows = [[pad] * (t.nf + a + b)] * a + [
            [pad] * b + r + [pad] * a for r in t.rows] + [
            [pad] * (t.nf + a + b)] * b
        big = Table(rows, ['~%d' % i for i in range(a)] + t.pn +
                    ['~%d' % (i + 5) for i in range(b)],
                    ['^%d' % i for i in range(b)] + t.fn +
                    ['^%d' % (i + 5) for i in range(a)], t.nf + a + b)
        return build_table(big, rtype).view(
            pointStart=a, pointEnd=a + t.np - 1, featureStart=b,
            featureEnd=b + t.nf - 1)
    return stirred(build_table(t, rtype), k)


def check(case, ctx):
    """
    two objects, the second with the content of the first or with one place
    changed, each reached through its own history; non-trivial = both have
    elements
    """
    t = Table.of(case['table'])
    u = perturbed(t, case)
    r1, r2 = case['type'], case['type2']
    if r2 == 'Sparse' and not sparse_ok(u.rows):
        r2 = 'List'
    if r1 == 'Sparse' and not sparse_ok(u.rows):
        ctx.label('does not apply')
        return
    a = stirred(build(case['table'], r1), case['stir'])
    src = a
    if case['left'] == 'view':
        a = a.view()
    b = made(u, r2, case['how'], case['stir'] // 8 + case['at2'])
    same_data = (t.np, t.nf) == (u.np, u.nf) and same_rows(t.rows, u.rows)
    same_all = same_data and t.pn == u.pn and t.fn == u.fn
    sa, sb = snapshot(a), snapshot(b)
    what = '%s%s %r and %s (%s) %r' % (
        r1, ' view' if src is not a else '', t, r2, case['how'], u)

    def identical(x, y, want, what):
        got = x.isIdentical(y)
        ensure(bool(got) == want, what, ': isIdentical gives', got)
        ensure((x == y) == want and (x != y) == (not want), what,
               ': == gives', x == y, '!= gives', x != y)

    want = same_all and r1 == r2
    for step in case['order']:
        if step == 0:
            identical(a, b, want, what)
        elif step == 1:
            identical(b, a, want, what + ', swapped')
        else:
            identical(a, a, True, what + ', the first with itself')
            identical(b, b, True, what + ', the second with itself')
    ensure_same_snapshot(sa, a, what + ', compared: the first')
    ensure_same_snapshot(sb, b, what + ', compared: the second')
    ensure(not a.isIdentical(5) and not a.isIdentical(None)
           and not a.isIdentical([[1]]), what, ': identical to no object')
    ha, hb = a.hashCode(), b.hashCode()
    for h in (ha, hb):
        ensure(isinstance(h, int) and 0 <= h < 10 ** 9, what, ': hash', h)
    if same_data:
        ensure(ha == hb, what, ': hash codes', ha, hb)
        ensure(a.isApproximatelyEqual(b) is True
               and b.isApproximatelyEqual(a) is True, what,
               ': not approximately equal')
    elif (t.np, t.nf) != (u.np, u.nf):
        ensure(not a.isApproximatelyEqual(b), what,
               ': approximately equal, with different shapes')
    ctx.label(case['perturb'] if not same_all else 'equal',
              '%s-%s' % (r1, r2), case['how'])
    ctx.nontrivial(t.np * t.nf and u.np * u.nf)


TESTS = [Test('pairs', pairs(), check, quick=20000)]
