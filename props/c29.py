"""C29: element operations touch exactly the elements addressed."""
import numpy as np

import nimble
from hypothesis import strategies as st

from lib.core import Test, ensure, missing, same, same_rows
from lib.data import (TYPES, Table, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, is_num, nan,
                      rows_of, snapshot, sparse_ok, stirred, typed_tables)

N = nimble.exceptions
pick = st.sampled_from


# ---- which points and features -------------------------------------------

@st.composite
def parts(draw, repeats=True):
    """How one axis is addressed: form and indices to be taken modulo n."""
    form = draw(pick([None, None, 'one', 'list', 'list', 'list', 'tuple',
                      'array', 'range', 'iter', 'object']))
    return {'form': form,
            'ix': draw(st.lists(st.integers(0, 9), min_size=1, max_size=5)),
            'how': draw(st.lists(st.integers(0, 3), min_size=5,
                                 max_size=5)),
            'repeat': repeats and draw(pick([False, False, True]))}


def indices(part, n):
    if part['form'] is None:
        return list(range(n))
    if part['form'] == 'range':
        a, b = sorted((part['ix'][0] % n, part['ix'][-1] % n))
        return list(range(a, b + 1))
    ret = []
    for k in part['ix'][:1] if part['form'] == 'one' else part['ix']:
        if part['repeat'] or k % n not in ret:
            ret.append(k % n)
    return ret


def spelled(part, names, n):
    """The argument that addresses those indices."""
    ix = indices(part, n)
    form = part['form']
    if form is None:
        return None
    if form == 'range':
        return range(ix[0], ix[-1] + 1)
    ids = [ident(names, i, h, n) for i, h in zip(ix, part['how'])]
    if form == 'one':
        return ids[0]
    if form == 'tuple':
        return tuple(ids)
    if form == 'array':
        return np.array(ix)
    if form == 'iter':
        return iter(ids)
    if form == 'object':
        return nimble.data(ix, useLog=False)
    return ids


# ---- functions of elements ------------------------------------------------

def text(e):
    return 's' if isinstance(e, str) else 'm' if missing(e) else 'n'


def numeric(e):
    return is_num(e) and not missing(e)


def positive(e):
    return numeric(e) and e > 0


ONE = {
    'double': lambda e: e * 2,
    'plus': lambda e: e + 1 if is_num(e) else e,
    'text': text,
    'halve some': lambda e: e / 2 if positive(e) else e,
    'none some': lambda e: None if positive(e) else e,
    'none all': lambda e: None,
    'none zero': lambda e: None if numeric(e) and e == 0 else e,
    'nan some': lambda e: nan if numeric(e) and e == 1 else e,
    'is positive': positive,
    'fill': lambda e: 7 if missing(e) else e,
    'const': lambda e: 4,
    'zero': lambda e: 0,
    'zero some': lambda e: 0 if positive(e) else 3,
    'text some': lambda e: 'p' if positive(e) else 1,
    'int': lambda e: int(e) if numeric(e) else 0,
    'numpy': lambda e: np.float64(e) * 3 if numeric(e) else np.int64(5),
    'big': lambda e: 12345678901 if positive(e) else e,
    'sign': lambda e: e if not numeric(e) else -e if e > 1 else e,
}
THREE = {
    'place': lambda e, i, j: 10 * i + j,
    'diagonal': lambda e, i, j: e if i == j else 0,
    'none off': lambda e, i, j: e if (i + j) % 2 else None,
    'nan off': lambda e, i, j: e if (i + j) % 2 else nan,
    'add': lambda e, i, j: e + i + 0.5 * j if is_num(e) else e,
    'even': lambda e, i, j: (i + j) % 2 == 0,
    'text': lambda e, i, j: '%d,%d' % (i, j),
    'text off': lambda e, i, j: 'x' if i > j else e,
    'zero row': lambda e, i, j: 0 if i == 1 else e,
}
TEXTS = ('text', 'text some', 'text off')
MAPS = {
    'map': {0: 5, 1: 0, 2: 2.5, 'a': 'z', 'b': 3, True: 9},
    'map none': {0: 0, 1: None, 2: 8, 'a': None},
    'map numbers': {1: 2, 2: 1, 0.5: 0, 3: 3},
    'map zero': {0: 9},
    'map same': {5: 6, -1: 1},
}


def function_of(name, three):
    if name in MAPS:
        return dict(MAPS[name])
    return THREE[name] if three else ONE[name]


def result(name, three, e, i, j, zeros, skip):
    """What the documentation says becomes of an element."""
    if zeros and numeric(e) and e == 0:
        return 0
    if name in MAPS:
        d = MAPS[name]
        ret = e
        for k in d:
            if not missing(e) and isinstance(k, str) == isinstance(e, str) \
                    and k == e:
                ret = d[k]
    else:
        ret = THREE[name](e, i, j) if three else ONE[name](e)
    if ret is None and skip:
        return e
    return ret


@st.composite
def functions(draw):
    t = draw(typed_tables(min_p=1, min_f=1, max_p=5, max_f=5))
    three = draw(pick([False, False, True]))
    names = sorted(THREE) if three else sorted(ONE) + sorted(MAPS)
    if t['type'] == 'Sparse':
        names = [n for n in names if n not in TEXTS]
    return {'t': t, 'name': draw(pick(names)), 'three': three,
            'p': draw(parts()), 'f': draw(parts()),
            'zeros': draw(pick([False, False, True])),
            'skip': draw(st.booleans()), 'stir': draw(st.integers(0, 7)),
            'out': draw(pick([None, None, None] + list(TYPES))),
            'view': draw(pick([None, None, None, 0, 1, 2]))}


def plain(block, rtype):
    return nimble.data(block, returnType=rtype, pointNames=False,
                       featureNames=False, treatAsMissing=[None],
                       useLog=False)


def bools_only(rows):
    return all(isinstance(v, (bool, np.bool_)) for r in rows for v in r)


def part_all(rows):
    return not any(isinstance(v, (bool, np.bool_)) for r in rows for v in r)


def viewed(o, t, k):
    """A view of the object without its first/last points/features."""
    lo = min(k % 2, t.np - 1)
    fl = min(k // 2, t.nf - 1)
    hi = t.np - 1 - (k == 2 and t.np - 1 > lo)
    v = o.view(lo, hi, fl, t.nf - 1)
    sub = Table([r[fl:] for r in t.rows[lo:hi + 1]], t.pn[lo:hi + 1],
                t.fn[fl:], t.nf - fl)
    return v, sub


def check_functions(case, ctx):
    """
    transformElements and calculateOnElements with the same function or
    mapping on the same part: only a part of a table with several elements,
    or a function that changes some elements and leaves others
    """
    t = Table.of(case['t'])
    rtype = case['t']['type']
    o = stirred(build(case['t'], rtype), case['stir'])
    src = o
    if case['view'] is not None:
        src, sub = viewed(o, t, case['view'])
    else:
        sub = t
    name, three = case['name'], case['three']

    def ask(tab):
        return (indices(case['p'], tab.np), indices(case['f'], tab.nf),
                {'points': spelled(case['p'], tab.pn, tab.np),
                 'features': spelled(case['f'], tab.fn, tab.nf),
                 'preserveZeros': case['zeros'],
                 'skipNoneReturnValues': case['skip'], 'useLog': False})

    def val(tab, i, j):
        return result(name, three, tab.rows[i][j], i, j, case['zeros'],
                      case['skip'])
    # the calculation
    ps, fs, kw = ask(sub)
    want = [[val(sub, i, j) for j in fs] for i in ps]
    out = case['out'] or rtype
    before = snapshot(src)
    what = '%s of %s with %r, points %r, features %r' % (
        'calculateOnElements', rtype, name, kw['points'], kw['features'])
    clean = [[nan if v is None else v for v in r] for r in want]
    # zeros can be kept as they are when the function gives False for them
    flags = sum(isinstance(v, (bool, np.bool_)) for r in clean for v in r)
    holds = out != 'Sparse' or (sparse_ok(clean) and not (
        flags and any(numeric(sub.rows[i][j]) and sub.rows[i][j] == 0
                      and name != 'even' for i in ps for j in fs)))
    if holds:
        got = src.calculateOnElements(function_of(name, three),
                                      outputType=case['out'], **kw)
        ensure(got.getTypeString() == out, what, 'type', got.getTypeString())
        if not same_rows(rows_of(got), clean):
            ensure(False, what, 'gives', rows_of(got), 'expected', clean)
        ensure(got.points._getNamesNoGeneration() is None
               and got.features._getNamesNoGeneration() is None, what,
               'result has names')
        ensure_consistent(got, what)
    else:
        ctx.label('sparse cannot hold the result')
    ensure_same_snapshot(before, src, what)
    # the transformation
    ps, fs, kw = ask(t)
    rows = [list(r) for r in t.rows]
    for i in set(ps):
        for j in set(fs):
            v = val(t, i, j)
            rows[i][j] = nan if v is None else v
    what = '%s of %s with %r, points %r, features %r' % (
        'transformElements', rtype, name, kw['points'], kw['features'])
    if rtype != 'Sparse' or (sparse_ok(rows) and (
            name != 'is positive' or bools_only(t.rows) or part_all(rows))):
        o.transformElements(function_of(name, three), **kw)
        ensure_table(o, Table(rows, t.pn, t.fn, t.nf), what, rtype=rtype)
        ensure_consistent(o, what)
    changed = sum(not same(a, b) for r, q in zip(rows, t.rows)
                  for a, b in zip(r, q))
    part = len(set(ps)) * len(set(fs)) < t.np * t.nf
    ctx.nontrivial((part and t.np * t.nf > 1)
                   or 0 < changed < t.np * t.nf)
    ctx.label(rtype, 'part' if part else 'all', 'changes' if changed
              else 'no change')


# ---- reading ---------------------------------------------------------------

@st.composite
def keys(draw):
    form = draw(pick(['one', 'one', 'list', 'list', 'slice', 'slice', 'all',
                      'tuple', 'array', 'bools', 'object']))
    return {'form': form,
            'ix': draw(st.lists(st.integers(0, 9), min_size=1, max_size=4,
                                unique=True)),
            'how': draw(st.lists(st.integers(0, 4), min_size=5,
                                 max_size=5)),
            'step': draw(pick([None, None, None, 1, 2, 3, -1, -2])),
            'open': draw(st.integers(0, 3))}


def key_of(k, names, n):
    """(key, the indices it addresses, or None when a single one)."""
    form = k['form']
    ix = []
    for i in k['ix']:
        if i % n not in ix:
            ix.append(i % n)
    ids = [float(i) if h == 4 else ident(names, i, h, n)
           for i, h in zip(ix, k['how'])]
    if form == 'one':
        return ids[0], ix[:1], True
    if form == 'all':
        return slice(None), list(range(n)), False
    if form == 'slice':
        a, b = (ix * 2)[:2]
        ends = [float(i) if h == 4 else ident(names, i, h, n)
                for i, h in zip((a, b), k['how'])]
        step = k['step']
        if step is not None and step < 0:
            a, b = max(a, b), min(a, b)
            ends = [a, b]
            if k['open'] == 1:
                return slice(None, b, step), list(range(n - 1, b - 1, step)
                                                  ), False
            if k['open'] == 2:
                return slice(a, None, step), list(range(a, -1, step)), False
            if k['open'] == 3:
                return slice(None, None, step), list(range(n - 1, -1, step)
                                                     ), False
            return slice(a, b, step), list(range(a, b - 1, step)), False
        a, b = min(a, b), max(a, b)
        ends = [float(i) if h == 4 else ident(names, i, h, n)
                for i, h in zip((a, b), k['how'])]
        if k['open'] == 1:
            return slice(None, ends[1], step), list(range(0, b + 1,
                                                          step or 1)), False
        if k['open'] == 2:
            return slice(ends[0], None, step), list(range(a, n, step or 1)
                                                    ), False
        return slice(ends[0], ends[1], step), list(range(a, b + 1, step or 1)
                                                   ), False
    if form == 'tuple':
        return tuple(ids), ix, False
    if form == 'array':
        return np.array(ix), ix, False
    if form == 'bools':
        m = [i in ix for i in range(n)]
        return m, [i for i in range(n) if i in ix], False
    if form == 'object':
        return nimble.data(ix, useLog=False), ix, False
    return ids, ix, False


ONLY = {
    'positive': positive, 'missing': missing,
    'text': lambda e: isinstance(e, str),
    'not zero': lambda e: not (numeric(e) and e == 0),
    'zero': lambda e: numeric(e) and e == 0,
    'nonZero': nimble.match.nonZero, 'isMissing': nimble.match.missing,
    'numericMatch': nimble.match.numeric, 'all': lambda e: True,
    'none': lambda e: False, 'zeroOrOne': lambda e: e in (0, 1),
}
# the library functions, as documented, for oracles
DIRECT = dict(ONLY, nonZero=lambda e: not (not isinstance(e, str)
                                           and e == 0),
              isMissing=missing, numericMatch=lambda e: is_num(e) and
              not isinstance(e, (bool, np.bool_)))


@st.composite
def readings(draw):
    return {'t': draw(typed_tables()), 'stir': draw(st.integers(0, 7)),
            'view': draw(pick([None, None, 0, 1, 2])),
            'keys': draw(st.lists(st.tuples(keys(), keys()), min_size=1,
                                  max_size=4)),
            'only': draw(pick([None, None] + sorted(ONLY))),
            'order': draw(pick(['point', 'feature']))}


def check_reading(case, ctx):
    """
    element access, parts by every form of key and iteration: a key with
    several indices out of order, by name, or a slice with a step, or an
    iteration restricted to some of the elements
    """
    t = Table.of(case['t'])
    rtype = case['t']['type']
    o = stirred(build(case['t'], rtype), case['stir'])
    if case['view'] is not None:
        o, t = viewed(o, t, case['view'])
    before = snapshot(o)
    interesting = False
    for x, y in case['keys']:
        kx, ix, onex = key_of(x, t.pn, t.np)
        ky, iy, oney = key_of(y, t.fn, t.nf)
        what = '%s[%r, %r]' % (rtype, kx, ky)
        got = o[kx, ky]
        if onex and oney:
            ensure(not isinstance(got, nimble.core.data.Base), what, 'is',
                   type(got))
            ensure(same(got, t.rows[ix[0]][iy[0]]), what, 'is', got,
                   'expected', t.rows[ix[0]][iy[0]])
            continue
        want = Table([[t.rows[i][j] for j in iy] for i in ix],
                     [t.pn[i] for i in ix], [t.fn[j] for j in iy], len(iy))
        ensure_table(got, want, what, rtype=rtype)
        ensure_consistent(got, what)
        interesting |= ix != sorted(ix) or iy != sorted(iy) \
            or 's' in (x['form'][0], y['form'][0])
        # a copy: changing it does not change the object
        got[0, 0] = 99
        ensure(not got._isView if hasattr(got, '_isView') else True, what)
        ensure_same_snapshot(before, o, what + ' then changed')
    # keys of one value
    if t.np == 1 and t.nf > 1:
        k, iy, one = key_of(case['keys'][0][1], t.fn, t.nf)
        if case['keys'][0][1]['form'] == 'one':
            ensure(same(o[k], t.rows[0][iy[0]]), 'one key', k, o[k])
    elif t.nf == 1 and t.np > 1:
        k, ix, one = key_of(case['keys'][0][0], t.pn, t.np)
        if case['keys'][0][0]['form'] == 'one':
            ensure(same(o[k], t.rows[ix[0]][0]), 'one key', k, o[k])
    # iteration
    flat = [v for r in t.rows for v in r]
    if case['order'] == 'feature':
        flat = [t.rows[i][j] for j in range(t.nf) for i in range(t.np)]
    only = case['only']
    want = flat if only is None else [v for v in flat if DIRECT[only](v)]
    got = list(o.iterateElements(case['order'], None if only is None
                                 else ONLY[only]))
    ensure(same_rows([got], [want]), 'iterateElements of', rtype,
           case['order'], only, 'gives', got, 'expected', want)
    ensure_same_snapshot(before, o, 'reading')
    ctx.nontrivial(interesting or 0 < len(want) < len(flat))
    ctx.label(rtype)


# ---- assigning and replacing ----------------------------------------------

def values_for(rtype, bools):
    if rtype == 'Sparse':
        return [True, False] if bools else [0, 0.0, 1, -2, 2.5, nan, 0]
    return [0, 0.0, 1, -2, 2.5, nan, None, True, False, 'a', 'zz', '1', 0]


@st.composite
def changes(draw):
    t = draw(typed_tables())
    bools = bools_only(t['rows'])
    vals = values_for(t['type'], bools)
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        steps.append({
            'kind': draw(pick(['one', 'one', 'one', 'part', 'part',
                               'rectangle', 'rectangle', 'stir'])),
            'x': draw(keys()), 'y': draw(keys()), 'v': draw(pick(vals)),
            'vs': draw(st.lists(pick(vals), min_size=25, max_size=25)),
            'as': draw(pick(['value', 'value', 'list', 'array', 'object'])),
            'ends': draw(st.integers(0, 3)),
            'otype': draw(pick(TYPES)), 'stir': draw(st.integers(0, 7))})
    return {'t': t, 'steps': steps, 'stir': draw(st.integers(0, 7))}


def check_changes(case, ctx):
    """
    a history of assignments to elements and parts and of replaced
    rectangles: at least two changes of elements, not all of them
    """
    t = Table.of(case['t'])
    rtype = case['t']['type']
    bools = bools_only(t.rows)
    o = stirred(build(case['t'], rtype), case['stir'])
    done = 0
    for s in case['steps']:
        x, y = dict(s['x']), dict(s['y'])
        if s['kind'] == 'stir':
            o = stirred(o, s['stir'])
            ensure_table(o, t, 'stirred')
            continue
        if s['kind'] == 'one':
            x['form'] = y['form'] = 'one'
            kx, ix, _ = key_of(x, t.pn, t.np)
            ky, iy, _ = key_of(y, t.fn, t.nf)
            what = '%s[%r, %r] = %r' % (rtype, kx, ky, s['v'])
            o[kx, ky] = s['v']
            t.rows[ix[0]][iy[0]] = s['v']
        elif s['kind'] == 'part':
            kx, ix, onex = key_of(x, t.pn, t.np)
            ky, iy, oney = key_of(y, t.fn, t.nf)
            if onex and oney:
                continue
            block = [[s['vs'][5 * a + b] for b in range(len(iy))]
                     for a in range(len(ix))]
            value = s['v']
            if s['as'] == 'value':
                block = [[s['v']] * len(iy) for _ in ix]
            elif s['as'] == 'list':
                value = block
            elif s['as'] == 'array':
                value = np.array(block, dtype=object)
            else:
                ot = s['otype']
                if not sparse_ok(block):
                    ot = 'List'
                value = plain(block, ot)
            what = '%s[%r, %r] = %r' % (rtype, kx, ky, block)
            o[kx, ky] = value
            for a, i in enumerate(ix):
                for b, j in enumerate(iy):
                    t.rows[i][j] = block[a][b]
        else:
            a, b = sorted(((x['ix'] * 2)[0] % t.np, (x['ix'] * 2)[1] % t.np))
            c, d = sorted(((y['ix'] * 2)[0] % t.nf, (y['ix'] * 2)[1] % t.nf))
            how = x['how']
            ps, pe = ident(t.pn, a, how[0], t.np), ident(t.pn, b, how[1],
                                                         t.np)
            fs, fe = ident(t.fn, c, how[2], t.nf), ident(t.fn, d, how[3],
                                                         t.nf)
            block = [[s['vs'][5 * i + j] for j in range(d - c + 1)]
                     for i in range(b - a + 1)]
            v = s['v']
            if s['as'] in ('value', 'list') and numeric(v):
                block = [[v] * (d - c + 1) for _ in block]
                value = v
                args = (ps, fs, pe, fe)
            else:
                ot = s['otype']
                if not sparse_ok(block):
                    ot = 'Matrix'
                value = plain(block, ot)
                args = (ps, fs, pe if s['ends'] & 1 else None,
                        fe if s['ends'] & 2 else None)
            what = '%s.replaceRectangle(%r, %r)' % (
                rtype, value if is_num(value) else block, args)
            keep = None if is_num(value) else snapshot(value)
            o.replaceRectangle(value, *args, useLog=False)
            if keep:
                ensure_same_snapshot(keep, value, what)
            for i in range(a, b + 1):
                for j in range(c, d + 1):
                    t.rows[i][j] = block[i - a][j - c]
            ctx.label('rectangle')
        done += 1
        for r in t.rows:
            r[:] = [nan if v is None else v for v in r]
        ensure_table(o, t, what, rtype=rtype)
        ensure_consistent(o, what)
        if bools and rtype == 'Sparse' and not bools_only(rows_of(o)):
            ensure(False, what, 'bools became', rows_of(o))
    ctx.nontrivial(done > 1 and t.np * t.nf > 1)
    ctx.label(rtype)


# ---- counting and matching --------------------------------------------------

QUERIES = {
    '> 0': positive, '== 1': lambda e: same(e, 1),
    '!= 0': lambda e: not same(e, 0), '>=2': lambda e: numeric(e) and e >= 2,
    '== a': lambda e: e == 'a', '!= b': lambda e: e != 'b',
    'is missing': missing, 'is nonMissing': lambda e: not missing(e),
}


@st.composite
def countings(draw):
    t = draw(typed_tables())
    words = any(isinstance(v, str) for r in t['rows'] for v in r)
    conds = [('only', k) for k in sorted(ONLY)]
    conds += [('query', q) for q in sorted(QUERIES)
              if q not in ('> 0', '>=2') or not words]
    conds += [('value', v) for v in (0, 1, 2.5, 'a', 'b', True)]
    return {'t': t, 'stir': draw(st.integers(0, 7)),
            'cond': list(draw(pick(conds))), 'p': draw(parts(False)),
            'f': draw(parts(False)), 'view': draw(pick([None, None, 0, 1,
                                                        2])),
            'three': draw(pick([False, False, True]))}


def check_countings(case, ctx):
    """
    matchingElements, countElements and countUniqueElements of a part: some
    elements match and others do not, or a value occurs several times
    """
    t = Table.of(case['t'])
    rtype = case['t']['type']
    o = stirred(build(case['t'], rtype), case['stir'])
    if case['view'] is not None:
        o, t = viewed(o, t, case['view'])
    before = snapshot(o)
    kind, arg = case['cond']
    if kind == 'only':
        cond, truth = ONLY[arg], DIRECT[arg]
    elif kind == 'query':
        cond, truth = arg, QUERIES[arg]
    else:
        cond, truth = arg, lambda e: same(e, arg)

    def ask():
        return {'points': spelled(case['p'], t.pn, t.np),
                'features': spelled(case['f'], t.fn, t.nf)}
    ps, fs = indices(case['p'], t.np), indices(case['f'], t.nf)
    want = [[bool(truth(t.rows[i][j])) for j in fs] for i in ps]
    what = 'matchingElements of %s with %r' % (rtype, arg)
    func = cond
    if case['three'] and kind == 'only':
        def func(e, i, j):
            return cond(e) and (i + j) % 2 == 0
        want = [[w and (i + j) % 2 == 0 for w, j in zip(r, fs)]
                for r, i in zip(want, ps)]
    got = o.matchingElements(func, useLog=False, **ask())
    ensure_table(got, Table(want, [t.pn[i] for i in ps],
                            [t.fn[j] for j in fs], len(fs)), what,
                 rtype=rtype)
    ensure(bools_only(rows_of(got)), what, 'gives', rows_of(got))
    ensure_consistent(got, what)
    if kind != 'value':
        n = sum(bool(truth(v)) for r in t.rows for v in r)
        c = o.countElements(cond)
        ensure(c == n and isinstance(c, int), 'countElements of', rtype, arg,
               'is', c, 'expected', n)
    # unique elements
    counts = o.countUniqueElements(**ask())
    todo = [t.rows[i][j] for i in ps for j in fs]
    total = len(todo)
    ensure(isinstance(counts, dict), 'countUniqueElements', counts)
    for k, c in counts.items():
        n = sum(same(k, v) for v in todo)
        ensure(c == n, 'countUniqueElements of', rtype, 'counts', k, c,
               'times, expected', n, 'of', todo)
    ensure(sum(counts.values()) == total, 'countUniqueElements of', rtype,
           counts, 'of', todo)
    ensure_same_snapshot(before, o, what)
    flat = [w for r in want for w in r]
    ctx.nontrivial(0 < sum(flat) < len(flat)
                   or any(c > 1 for c in counts.values()))
    ctx.label(rtype, kind)


TESTS = [
    Test('functions', functions(), check_functions, quick=4000,
         thorough=40000),
    Test('reading', readings(), check_reading, quick=2500, thorough=20000),
    Test('changes', changes(), check_changes, quick=2500, thorough=20000),
    Test('countings', countings(), check_countings, quick=3000,
         thorough=25000),
]
