"""C12: merge is the relational join it documents."""
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (TYPES, Table, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, nan, snapshot,
                      sparse_ok, stirred, value_of)

N = nimble.exceptions
PMODES = ['union', 'intersection', 'left', 'strict']
FT = ['fa', 'fb', 'fc', 'fd', 'fe']
PT = ['pa', 'pb', 'pc', 'pd', 'pe', 'pf']
KEYS = {'int': [0, 1, 2, 3, -1, 7], 'float': [0.0, 0.5, 1.0, -2.5, 3.0, 4.0],
        'str': ['x', 'y', 'z', 'w', 'v', 'k 1']}


@st.composite
def merging(draw):
    """Two tables looking at the same world, mostly."""
    rtypes = [draw(st.sampled_from(TYPES)) for _ in range(2)]
    kinds = ['int', 'float', 'nan']
    if 'Sparse' not in rtypes:
        kinds += ['str', 'strnan', 'bool']
    fkind = {f: draw(st.sampled_from(kinds)) for f in FT}
    onkey = draw(st.booleans())
    kkind = draw(st.sampled_from(['int', 'float'] if 'Sparse' in rtypes
                                 else ['int', 'float', 'str']))
    ids = KEYS[kkind] if onkey else PT
    lost = [False] * 6
    if onkey and draw(st.integers(0, 4)) == 0:
        lost = [draw(st.integers(0, 2)) == 0 for _ in range(6)]
    world = {(i, f): draw(value_of(fkind[f])) for i in range(6) for f in FT}
    pmode, fmode = draw(st.sampled_from(PMODES)), draw(st.sampled_from(
        PMODES))
    holes = draw(st.integers(0, 3)) == 0
    noise = draw(st.integers(0, 5)) == 0
    used = None
    nameless = draw(st.integers(0, 4)) == 0
    sides = []
    for side in range(2):
        n = draw(st.integers(1, 5))
        if side and draw(st.booleans()) or (side and pmode == 'strict'
                                            and draw(st.integers(0, 9))):
            who = list(draw(st.permutations(sides[0]['who'])))
        else:
            who = [draw(st.integers(0, 5)) for _ in range(n)]
            if not onkey or draw(st.integers(0, 2)):
                who = list(dict.fromkeys(who))
        if side and fmode == 'strict' and draw(st.integers(0, 9)):
            fts = list(draw(st.permutations(sides[0]['fts'])))
        else:
            fts = list(draw(st.permutations(FT)))[:draw(st.integers(1, 4))]
        rows = [[world[i, f] for f in fts] for i in who]
        if noise and side:
            i = draw(st.integers(0, len(rows) - 1))
            j = draw(st.integers(0, len(fts) - 1))
            rows[i][j] = draw(value_of(fkind[fts[j]]))
        if holes:
            for r in rows:
                for j in range(len(r)):
                    if draw(st.integers(0, 3)) == 0:
                        r[j] = nan
        fn = list(fts)
        if draw(st.integers(0, 5)) == 0:
            # features without names of their own
            fn = [x if draw(st.booleans()) else None for x in fn]
        if onkey:
            at = draw(st.integers(0, len(fts)))
            for r, i in zip(rows, who):
                r.insert(at, nan if lost[i] else ids[i])
            fn.insert(at, 'key')
            fts = fts[:at] + ['key'] + fts[at:]
            pn = None
            if draw(st.integers(0, 2)) == 0:
                pn = draw(st.permutations(PT))[:len(who)]
                pn = list(pn)
        else:
            pn = [ids[i] for i in who]
            if nameless or draw(st.integers(0, 9)) == 0:
                pn = [x if draw(st.booleans()) else None for x in pn]
        noft = [f for f in fts if f != 'key']
        sides.append({'rows': rows, 'pn': pn, 'fn': fn, 'f': len(fn),
                      'who': who, 'fts': noft})
    for s in sides:
        del s['who'], s['fts']
    byindex = (onkey and draw(st.booleans())
               and sides[0]['fn'].index('key') == sides[1]['fn'].index('key'))
    if draw(st.integers(0, 9)) == 0:
        for s in sides:
            s[draw(st.sampled_from(['pn', 'fn']))] = None
        byindex = False
    return {'left': sides[0], 'right': sides[1], 'types': rtypes,
            'on': None if not onkey else (
                sides[0]['fn'].index('key') if byindex else 'key'),
            'point': pmode, 'feature': fmode,
            'force': draw(st.booleans()), 'upper': draw(st.booleans()),
            'stir': draw(st.integers(0, 63))}


class Refused(Exception):
    pass


class Unspecified(Exception):
    pass


def strict_axis(a, b, force):
    """
    The names with which both axes take part in the merge, or None for each
    that is without a name.
    """
    if len(a) != len(b):
        raise Refused('different lengths')
    if all(x is not None for x in a) and all(x is not None for x in b):
        if sorted(a) != sorted(b):
            raise Refused('different names')
        return list(a), list(b), list(a)
    if not force:
        raise Refused('names needed without force')
    for i, x in enumerate(a):
        for j, y in enumerate(b):
            if x is not None and y is not None and (x == y) != (i == j):
                raise Refused('names do not match at each index')
    end = [x if x is not None else y for x, y in zip(a, b)]
    inner = [x if x is not None else '_same %d' % i
             for i, x in enumerate(end)]
    return inner, inner, end


def join(L, R, pmode, fmode, on, force):
    """A nested-loop join of two tables."""
    L, R = L.copy(), R.copy()
    pend = fend = None
    if pmode == 'strict' and fmode == 'strict':
        raise Refused('both strict')
    if pmode == 'strict' and on is None:
        L.pn, R.pn, pend = strict_axis(L.pn, R.pn, force)
    if fmode == 'strict':
        L.fn, R.fn, fend = strict_axis(L.fn, R.fn, force)
    if not any(L.fn) or not any(R.fn):
        raise Unspecified('no feature names')
    if on is None and (not any(L.pn) or not any(R.pn)):
        raise Unspecified('no point names')
    common = [n for n in L.fn if n is not None and n in R.fn]
    if on is not None:
        k = on if isinstance(on, str) else L.fn[on]
        if k not in L.fn or k not in R.fn:
            raise Refused('no key')
        if not isinstance(on, str) and R.fn.index(k) != on:
            raise Refused('key at another index')
        lk = [r[L.fn.index(k)] for r in L.rows]
        rk = [r[R.fn.index(k)] for r in R.rows]
        if len(set(isinstance(x, str) for x in lk + rk
                   if not missing(x))) > 1:
            raise Unspecified('keys of different kinds')
        if pmode == 'strict':
            if len(lk) != len(rk):
                raise Refused('different lengths')
            if any(missing(x) for x in lk + rk):
                raise Refused('keys missing')
        # a missing key matches none
        lk = [('left', i) if missing(x) else x for i, x in enumerate(lk)]
        rk = [('right', i) if missing(x) else x for i, x in enumerate(rk)]
        if len(set(lk)) < len(lk) and len(set(rk)) < len(rk):
            raise Refused('keys not unique')
        if pmode == 'strict':
            if len(set(lk)) < len(lk) or sorted(lk) != sorted(rk):
                raise Refused('keys do not match')
    else:
        lk = [x if x is not None else ('left', i)
              for i, x in enumerate(L.pn)]
        rk = [x if x is not None else ('right', i)
              for i, x in enumerate(R.pn)]
    if pmode == 'strict':
        pmode = 'intersection'
    if fmode == 'strict':
        fmode = 'intersection'
    if fmode == 'intersection':
        names = [(n, L.fn.index(n), R.fn.index(n)) for n in common]
    else:
        names = [(n, j, R.fn.index(n) if n in common else None)
                 for j, n in enumerate(L.fn)]
        if fmode == 'union':
            names += [(n, None, j) for j, n in enumerate(R.fn)
                      if n not in common]

    def row(lr, rr):
        out = []
        for n, i, j in names:
            a = lr[i] if lr is not None and i is not None else nan
            b = rr[j] if rr is not None and j is not None else nan
            if lr is not None and rr is not None and not missing(a) \
                    and not missing(b) and i is not None and j is not None \
                    and not same(a, b):
                raise Refused('different values')
            out.append(b if missing(a) else a)
        return out
    rows, pn = [], []
    for i, lr in enumerate(L.rows):
        hits = [j for j in range(R.np) if rk[j] == lk[i]]
        for j in hits:
            rows.append(row(lr, R.rows[j]))
            pn.append(L.pn[i])
        if not hits and pmode in ('union', 'left'):
            rows.append(row(lr, None))
            pn.append(L.pn[i])
    if pmode == 'union':
        for j, rr in enumerate(R.rows):
            if rk[j] not in lk:
                rows.append(row(None, rr))
                pn.append(R.pn[j])
    fn = [n for n, _, _ in names]
    if on is not None and pmode == 'union':
        # ordered by the key, those without one last
        kk = fn.index(k)
        rows.sort(key=lambda r: (True, 0) if missing(r[kk])
                  else (False, r[kk]))
    if pend is not None:
        pn = pend
    if fend is not None:
        fn = fend
    if on is not None:
        pn = [None] * len(rows)
    return Table(rows, pn, fn, len(fn))


def check(case, ctx):
    """
    one merge of two generated tables; non-trivial = it was accepted, with
    at least one point and one feature on both sides
    """
    lt, rt = Table.of(case['left']), Table.of(case['right'])
    kinds = [x if x != 'Sparse' or sparse_ok(t.rows) else 'List'
             for x, t in zip(case['types'], (lt, rt))]
    left = stirred(build(case['left'], kinds[0]), case['stir'])
    right = stirred(build(case['right'], kinds[1]), case['stir'] // 8)
    ls, rs = snapshot(left), snapshot(right)
    pm, fm = case['point'], case['feature']
    what = 'merge point=%s feature=%s onFeature=%r force=%s, %s %r with %s' \
           ' %r' % (pm, fm, case['on'], case['force'], kinds[0], lt,
                    kinds[1], rt)
    try:
        want = join(lt, rt, pm, fm, case['on'], case['force'])
        why = None
    except (Refused, Unspecified) as e:
        why = e
    if case['upper']:
        pm, fm = pm.upper(), fm.upper()
    try:
        left.merge(right, point=pm, feature=fm, onFeature=case['on'],
                   force=case['force'], useLog=False)
        raised = None
    except Exception as e:
        raised = e
    ensure_same_snapshot(rs, right, what + ': right object')
    if raised is not None:
        ensure_same_snapshot(ls, left, what + ': refused, left object')
    if isinstance(why, Unspecified):
        ctx.label('unspecified: %s' % why)
        return
    if why is not None:
        ctx.label('refused: %s' % why)
        ensure(raised is not None, what, 'was accepted:', str(why),
               left.copy('pythonlist') if raised is None else '')
        if not isinstance(raised, N.NimbleException):
            raise raised
        return
    if raised is not None:
        raise raised
    ensure_table(left, want, what, rtype=kinds[0])
    ensure_consistent(left, what)
    ctx.label('%s %s %s' % (case['point'], case['feature'],
                            case['on'] is not None), kinds[0])
    ctx.nontrivial(want.np and want.nf)


TESTS = [Test('join', merging(), check, quick=16000)]
