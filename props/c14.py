"""C14: reshaping operations are invertible."""
import itertools

import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (TYPES, Table, build, build_table, deep_same,
                      ensure_consistent, ensure_same_snapshot, ensure_table,
                      ident, names, nan, snapshot, sparse_ok, stirred,
                      subset, tables)

N = nimble.exceptions


def made(t, rtype, k):
    if rtype == 'Sparse' and not sparse_ok(t['rows']):
        rtype = 'List'
    return stirred(build(t, rtype), k), rtype


def flat(t, order):
    """The one-row table of t, names joined."""
    named = any(x is not None for x in t.pn + t.fn)
    if order == 'point':
        at = [(i, j) for i in range(t.np) for j in range(t.nf)]
    else:
        at = [(i, j) for j in range(t.nf) for i in range(t.np)]
    fn = ['%s | %s' % ('_PT#%d' % i if t.pn[i] is None else t.pn[i],
                       '_FT#%d' % j if t.fn[j] is None else t.fn[j])
          for i, j in at] if named else None
    return Table([[t.rows[i][j] for i, j in at]], ['Flattened'], fn, len(at))


def unflat(vals, vnames, shape, order):
    """The table of these values, names taken apart where they align."""
    p, f = shape
    at = [(i, j) for i in range(p) for j in range(f)]
    if order == 'feature':
        at.sort(key=lambda ij: (ij[1], ij[0]))
    rows = [[None] * f for _ in range(p)]
    parts = [x.split(' | ') if x is not None else [] for x in vnames]
    for k, (i, j) in enumerate(at):
        rows[i][j] = vals[k]
    pn, fn = None, None
    if len(vals) > 1 and all(len(x) == 2 for x in parts):
        # each part once, in the order met
        got = list(dict.fromkeys(x for x, _ in parts))
        if len(got) == p:
            pn = [None if x.startswith('_PT#') else x for x in got]
        got = list(dict.fromkeys(x for _, x in parts))
        if len(got) == f:
            fn = [None if x.startswith('_FT#') else x for x in got]
    return Table(rows, pn, fn, f)


flats = st.fixed_dictionaries({
    'table': tables(), 'type': st.sampled_from(TYPES),
    'order': st.sampled_from(['point', 'feature']),
    'back': st.sampled_from(['same', 'same', 'other']),
    'turn': st.booleans(), 'k': st.integers(0, 63)})


def check_flat(case, ctx):
    """
    flatten in either order, then unflatten with the same or the other
    order, to the same or the turned shape; non-trivial = at least two
    points and two features
    """
    t = Table.of(case['table'])
    o, rtype = made(case['table'], case['type'], case['k'])
    what = '%s %r flattened by %s' % (rtype, t, case['order'])
    o.flatten(order=case['order'], useLog=False)
    want = flat(t, case['order'])
    if case['k'] >= 32:
        ensure_table(o, want, what, rtype=rtype)
        ensure_consistent(o, what)
    order = case['order']
    if case['back'] == 'other':
        order = 'feature' if order == 'point' else 'point'
    shape = (t.nf, t.np) if case['turn'] else (t.np, t.nf)
    if case['k'] & 16:
        o.transpose(useLog=False)
        what += ', transposed'
    o.unflatten(shape, order=order, useLog=False)
    what += ', unflattened to %r by %s' % (shape, order)
    back = unflat(want.rows[0], want.fn, shape, order)
    if shape == (t.np, t.nf) and order == case['order']:
        ensure(deep_same(back.rows, t.rows), 'model', what)
        if t.np * t.nf > 1:
            ensure(back.pn == t.pn and back.fn == t.fn, 'model', what, back)
    ensure_table(o, back, what, rtype=rtype)
    ensure_consistent(o, what)
    ctx.label(rtype, order + ' ' + case['back'])
    ctx.nontrivial(t.np > 1 and t.nf > 1)


@st.composite
def vectors(draw):
    p, f = draw(st.integers(1, 4)), draw(st.integers(1, 4))
    n = p * f
    vals = draw(st.lists(st.sampled_from([0, 1, 2, -1, 0.5, 0, nan]),
                         min_size=n, max_size=n))
    kind = draw(st.sampled_from(['none', 'plain', 'aligned', 'joined',
                                 'joined']))
    if kind == 'none':
        nm = None
    elif kind == 'plain':
        nm = ['v%d' % i for i in range(n)]
    else:
        left = draw(st.permutations(['a', 'b', 'c', '_PT#0', '_PT#1', 'x y',
                                     '']))
        right = draw(st.permutations(['q', 'r', 's', '_FT#0', '_FT#1', 'a',
                                      '']))
        pairs = list(itertools.product(left[:p], right[:f]))
        if kind == 'joined':
            i, j = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            pairs[i], pairs[j] = pairs[j], pairs[i]
        nm = ['%s | %s' % x for x in pairs]
    if nm and draw(st.integers(0, 5)) == 0:
        nm[draw(st.integers(0, n - 1))] = draw(st.sampled_from(
            [None, 'odd', 'a | b | c', 'a|b']))
    return {'vals': vals, 'names': nm, 'shape': (p, f),
            'upright': draw(st.booleans()),
            'order': draw(st.sampled_from(['point', 'feature'])),
            'type': draw(st.sampled_from(TYPES)), 'k': draw(st.integers(0, 7)),
            'bad': draw(st.integers(0, 9))}


def check_unflat(case, ctx):
    """
    a vector with names of any form unflattened to a generated shape;
    non-trivial = at least two points and two features come out
    """
    vals, nm = case['vals'], case['names']
    n = len(vals)
    t = Table([vals], None, nm, n)
    if case['upright']:
        t = t.T()
    o = stirred(build_table(t, case['type']), case['k'])
    shape = tuple(case['shape'])
    what = '%s %r unflattened to %r by %s' % (case['type'], t, shape,
                                              case['order'])
    if case['bad'] == 0:
        before = snapshot(o)
        try:
            o.unflatten((shape[0] + 1, shape[1]), order=case['order'],
                        useLog=False)
        except N.NimbleException:
            ensure_same_snapshot(before, o, what + ', refused')
        else:
            raise Violation(what + ': one point more was accepted')
    o.unflatten(shape if case['k'] % 2 else list(shape), order=case['order'],
                useLog=False)
    want = unflat(vals, nm or [None] * n, shape, case['order'])
    ensure_table(o, want, what, rtype=case['type'])
    ensure_consistent(o, what)
    ctx.label('named' if any(want.pn + want.fn) else 'nameless')
    ctx.nontrivial(shape[0] > 1 and shape[1] > 1)


@st.composite
def collapses(draw):
    t = draw(tables(min_f=1, max_f=5, kinds=('int', 'float', 'nan', 'str',
                                             'strnan')))
    return {'table': t, 'type': draw(st.sampled_from(TYPES)),
            'pick': draw(st.lists(st.tuples(st.integers(0, 4),
                                            st.integers(0, 2)),
                                  min_size=1, max_size=5)),
            'names': draw(st.sampled_from([('names', 'values'),
                                           ('x', 'y'), ('a', 'zz'),
                                           ('same', 'same')])),
            'k': draw(st.integers(0, 7)), 'back': draw(st.booleans())}


def check_collapse(case, ctx):
    """
    collapse some features to name/value pairs and, half of the time, expand
    them again; non-trivial = at least two features are collapsed
    """
    t = Table.of(case['table'])
    idx = subset(t.nf, [i for i, _ in case['pick']])
    rest = [j for j in range(t.nf) if j not in idx]
    new = list(case['names'])
    label = [t.fn[j] if t.fn[j] is not None else j for j in idx]
    rtype = case['type']
    if rtype == 'Sparse' and not (sparse_ok(t.rows) and sparse_ok([label])):
        rtype = 'DataFrame'
    o = stirred(build(case['table'], rtype), case['k'])
    how = dict((i % t.nf, h) for i, h in case['pick'])
    arg = [ident(t.fn, j, how.get(j, 0), t.nf) for j in idx]
    fn = [t.fn[j] for j in rest] + new
    given = [x for x in fn if x is not None]
    what = '%s %r splitByCollapsingFeatures(%r, %r, %r)' % (
        rtype, t, arg, new[0], new[1])
    before = snapshot(o)
    try:
        o.points.splitByCollapsingFeatures(arg, new[0], new[1], useLog=False)
        refused = None
    except N.NimbleException as e:
        refused = e
    if len(set(given)) != len(given):
        ensure(refused is not None, what, 'accepted')
        ensure_same_snapshot(before, o, what + ', refused')
        ctx.label('refused')
        return
    if refused is not None:
        raise refused
    rows, pn = [], []
    for i, r in enumerate(t.rows):
        for k, j in enumerate(idx):
            rows.append([r[x] for x in rest] + [label[k], r[j]])
            pn.append(None if t.pn[i] is None else '%s_%d' % (t.pn[i], k))
    want = Table(rows, pn, fn, len(rest) + 2)
    ensure_table(o, want, what, rtype=rtype)
    ensure_consistent(o, what)
    ctx.nontrivial(len(idx) > 1 and t.np > 1)
    kept = [tuple(nan if missing(r[x]) else r[x] for x in rest)
            for r in t.rows]
    if not case['back'] or len(set(kept)) != len(kept) \
            or not all(isinstance(x, str) for x in label):
        return
    o.points.combineByExpandingFeatures(new[0], new[1], useLog=False)
    back = Table([[r[x] for x in rest + idx] for r in t.rows],
                 [None if x is None else x + '_0' for x in t.pn],
                 [t.fn[j] for j in rest + idx], t.nf)
    ensure_table(o, back, what + ' and back', rtype=rtype)
    ctx.label('and back')


@st.composite
def expansions(draw):
    n = draw(st.integers(1, 6))
    keys = draw(st.integers(0, 2))
    vals = draw(st.integers(1, 3))
    kind = draw(st.sampled_from(['str', 'str', 'int', 'both']))
    word = {'str': st.sampled_from(['u', 'v', 'w', 'a', '1']),
            'int': st.sampled_from([0, 1, 2, 10]),
            'both': st.sampled_from(['u', '1', 1, 2, '2'])}[kind]
    key = st.sampled_from([0, 1]) if kind != 'str' else \
        st.sampled_from(['k', 'l', 0, 1, nan])
    val = st.integers(-2, 3) if kind != 'str' else st.sampled_from(
        [0, 1, 2.5, nan, 'u'])
    # distinct combinations most of the time
    rows, seen = [], set()
    for _ in range(n):
        k = [draw(key) for _ in range(keys)]
        w = draw(word)
        if (tuple(k), type(w), w) in seen and draw(st.integers(0, 3)):
            continue
        seen.add((tuple(k), type(w), w))
        rows.append(k + [w] + [draw(val) for _ in range(vals)])
    f = keys + 1 + vals
    order = draw(st.permutations(range(f)))
    fn = draw(names(f, pool=['a', 'b', 'c', 'd', 'e', 'f', 'u', 'x y', '1']))
    return {'table': {'rows': [[r[j] for j in order] for r in rows],
                      'pn': draw(names(len(rows))), 'fn': fn, 'f': f},
            'word': order.index(keys),
            'vals': [order.index(keys + 1 + i) for i in range(vals)],
            'how': draw(st.lists(st.integers(0, 2), min_size=4, max_size=4)),
            'modify': draw(st.booleans()), 'single': draw(st.booleans()),
            'type': draw(st.sampled_from(TYPES)), 'k': draw(st.integers(0, 7))}


def check_expand(case, ctx):
    """
    points combined by expanding a feature of names and one to three
    features of values; non-trivial = at least two names and two points
    before
    """
    t = Table.of(case['table'])
    w, vs = case['word'], case['vals']
    o, rtype = made(case['table'], case['type'], case['k'])
    rest = [j for j in range(t.nf) if j != w and j not in vs]
    warg = ident(t.fn, w, case['how'][0], t.nf)
    varg = [ident(t.fn, j, h, t.nf) for j, h in zip(vs, case['how'][1:])]
    if len(varg) == 1 and case['single']:
        varg = varg[0]
    what = '%s %r combineByExpandingFeatures(%r, %r, %r)' % (
        rtype, t, warg, varg, case['modify'])
    groups, order, words = {}, [], []
    reason = None
    for i, r in enumerate(t.rows):
        # missing values are equal
        key = tuple(nan if missing(r[j]) else r[j] for j in rest)
        if key not in groups:
            groups[key] = {}
            order.append((key, t.pn[i]))
        # 1 and '1' are two names
        if r[w] in groups[key]:
            reason = 'twice'
        if r[w] not in words:
            words.append(r[w])
        groups[key][r[w]] = [r[j] for j in vs]
    text = [str(x) for x in words]
    if len(set(text)) != len(text):
        if case['modify']:
            text = ['%s(%s)' % (x, type(y).__name__)
                    if text.count(x) > 1 else x
                    for x, y in zip(text, words)]
        else:
            reason = reason or 'types'
    # named as given: by name, or by the name or index found there
    if len(vs) > 1:
        text = ['%s_%s' % (x, t.fn[j] if t.fn[j] is not None else j)
                for x in text for j in vs]
    at = sum(j < w for j in rest)
    fn = [t.fn[j] for j in rest]
    fn[at:at] = text
    if reason is None and len({x for x in fn if x is not None}) != len(
            [x for x in fn if x is not None]):
        reason = 'names'
    before = snapshot(o)
    try:
        o.points.combineByExpandingFeatures(
            warg, varg, modifyDuplicateFeatureNames=case['modify'],
            useLog=False)
        refused = None
    except N.NimbleException as e:
        refused = e
    if reason:
        ctx.label('refused ' + reason)
        ensure(refused is not None, what, 'was accepted:', reason)
        ensure_same_snapshot(before, o, what + ', refused')
        return
    if refused is not None:
        raise refused
    rows = []
    for key, _ in order:
        new = []
        for x in words:
            new += groups[key].get(x, [nan] * len(vs))
        row = list(key)
        row[at:at] = new
        rows.append(row)
    ensure_table(o, Table(rows, [x for _, x in order], fn, len(fn)), what,
                 rtype=rtype)
    ensure_consistent(o, what)
    ctx.label('%d value features' % len(vs), rtype)
    ctx.nontrivial(len(words) > 1 and t.np > 1)


@st.composite
def parsings(draw):
    n = draw(st.integers(1, 4))
    sep = draw(st.sampled_from([',', ', ', '-', 'ab', ' | ']))
    part = st.text('abx1 ', max_size=3)
    kind = draw(st.sampled_from(['text', 'index', 'list', 'function']))
    if kind == 'list':
        rule = [draw(st.sampled_from([sep, sep, ';', 1, 2, 4, 5]))
                for _ in range(draw(st.integers(1, 3)))]
    else:
        rule = {'text': sep, 'index': draw(st.integers(-2, 4)),
                'function': 'function'}[kind]
    parts = draw(st.integers(2, 3)) if kind != 'list' else len(rule) + 1
    col = []
    for _ in range(n):
        if kind == 'list':
            v = draw(part)
            for r in rule:
                v += (r if isinstance(r, str) else '') + draw(part)
        else:
            v = sep.join(draw(part) for _ in range(parts))
        col.append(v or 'b')
    t = draw(tables(min_p=n, max_p=n, min_f=1, max_f=4))
    j = draw(st.integers(0, t['f'] - 1))
    for r, v in zip(t['rows'], col):
        r[j] = v
    return {'table': t, 'at': j, 'how': draw(st.integers(0, 2)), 'rule': rule,
            'n': draw(st.sampled_from([parts, parts, parts, 2, 3, 4])),
            'names': draw(st.sampled_from(['new', 'new', 'old'])),
            'type': draw(st.sampled_from(['List', 'Matrix', 'DataFrame'])),
            'k': draw(st.integers(0, 7))}


def halves(v):
    return [v[:1], v[1:]]


def parsed(v, rule):
    """The parts of one value, None when a listed text is not there."""
    if rule == 'function':
        return halves(v)
    if isinstance(rule, str):
        return v.split(rule)
    if isinstance(rule, int):
        return [v[:rule], v[rule:]]
    out, at = [], 0
    for r in rule:
        if isinstance(r, str):
            end = v.find(r, at)
            if end < 0:
                return None
            out.append(v[at:end])
            at = end + len(r)
        else:
            out.append(v[at:r])
            at = r
    return out + [v[at:]]


def check_parse(case, ctx):
    """
    a feature of texts split by a text, an index, a list of those or a
    function; non-trivial = it splits, at least two points
    """
    t = Table.of(case['table'])
    j, rule = case['at'], case['rule']
    o, rtype = made(case['table'], case['type'], case['k'])
    new = ['new%d' % i for i in range(case['n'])]
    old = [x for i, x in enumerate(t.fn) if i != j and x is not None]
    clash = False
    if case['names'] == 'old' and t.fn[j] is not None:
        new[0] = t.fn[j]
    elif case['names'] == 'old' and old:
        new[-1] = old[0]
        clash = True
    what = '%s %r splitByParsing(%r, %r, %r)' % (rtype, t, j, rule, new)
    split = [parsed(r[j], rule) for r in t.rows]
    # going back to before the last part is not defined
    if isinstance(rule, list):
        for v in t.rows:
            at = 0
            for r in rule:
                if isinstance(r, str):
                    at = v[j].find(r, at)
                    if at < 0:
                        break
                    at += len(r)
                elif r < at:
                    return
                else:
                    at = r
    before = snapshot(o)
    try:
        o.features.splitByParsing(
            ident(t.fn, j, case['how'], t.nf),
            halves if rule == 'function' else rule, new, useLog=False)
        refused = None
    except Exception as e:
        refused = e
    if clash or any(x is None or len(x) != len(new) for x in split):
        ensure(refused is not None, what, 'was accepted')
        ensure_same_snapshot(before, o, what + ', refused')
        ctx.label('refused')
        return
    if refused is not None:
        raise refused
    want = Table([r[:j] + x + r[j + 1:] for r, x in zip(t.rows, split)],
                 t.pn, t.fn[:j] + new + t.fn[j + 1:], t.nf - 1 + len(new))
    ensure_table(o, want, what, rtype=rtype)
    ensure_consistent(o, what)
    ctx.label(type(rule).__name__)
    ctx.nontrivial(t.np > 1)


# ------------------------------------------------------------ more dimensions

@st.composite
def tensors(draw):
    dims = draw(st.lists(st.integers(1, 3), min_size=3, max_size=4))
    n = int(np.prod(dims))
    vals = draw(st.lists(st.sampled_from([0, 1, 2, -1, 0.5, 0, 3]),
                         min_size=n, max_size=n))
    ops = draw(st.lists(st.tuples(
        st.sampled_from(['permute', 'copy', 'extract', 'delete', 'append',
                         'insert', 'repeat', 'convert', 'flatten', 'item',
                         'times', 'iter', 'names', 'abs', 'view', 'equal']),
        st.lists(st.integers(0, 5), min_size=1, max_size=4)), max_size=5))
    return {'dims': dims, 'vals': vals, 'ops': ops,
            'type': draw(st.sampled_from(TYPES)),
            'source': draw(st.sampled_from(['list', 'array', 'objects',
                                            'tuple'])),
            'pn': draw(names(dims[0])), 'watch': draw(st.booleans())}


def listed(vals, dims):
    if len(dims) == 1:
        return list(vals)
    step = len(vals) // dims[0] if dims[0] else 0
    return [listed(vals[i * step:(i + 1) * step], dims[1:])
            for i in range(dims[0])]


def ensure_tensor(o, pts, dims, pn, rtype, what):
    full = (len(pts),) + tuple(dims[1:])
    ensure(tuple(o.dimensions) == full, what, ': dimensions', o.dimensions,
           'expected', full)
    width = int(np.prod(dims[1:]))
    ensure((len(o.points), len(o.features)) == (len(pts), width), what,
           ': lengths', (len(o.points), len(o.features)))
    ensure(tuple(o.shape) == (len(pts), width), what, ': shape', o.shape)
    ensure(o.getTypeString() == rtype, what, ': type', o.getTypeString())
    ensure(o.points.getNames() == pn, what, ': names', o.points.getNames(),
           'expected', pn)
    if pts:
        got = o.copy('pythonlist')
        if not deep_same(got, pts):
            raise Violation('%s: %r, expected %r' % (what, got, pts))
        got = o.copy('numpyarray')
        ensure(got.shape == full, what, ': array of shape', got.shape)
        if not deep_same(got.tolist(), pts):
            raise Violation('%s: array %r, expected %r' % (
                what, got.tolist(), pts))


def check_tensor(case, ctx):
    """
    an object of three or four dimensions through a sequence of point
    operations, compared to nested lists; non-trivial = two operations done
    """
    dims, rtype = list(case['dims']), case['type']
    pts = listed(case['vals'], dims)
    src = pts
    if case['source'] == 'array':
        src = np.array(case['vals'], dtype=float).reshape(dims)
    elif case['source'] == 'tuple':
        src = tuple(pts)
    pn = list(case['pn']) if case['pn'] else [None] * dims[0]

    def make(points, nms):
        return nimble.data(points, returnType=rtype, useLog=False,
                           pointNames=nms)
    if case['source'] == 'objects' and min(dims[1], dims[2]) > 1:
        o = nimble.data([nimble.data(x, returnType='List', useLog=False)
                         for x in pts], returnType=rtype, useLog=False)
        o.points.setNames(pn, useLog=False)
    else:
        o = nimble.data(src, returnType=rtype, useLog=False,
                        pointNames=case['pn'])
    done = ['created from ' + case['source']]
    n = 0
    for op, ks in case['ops']:
        what = '%s %r %r: %s %r' % (rtype, pts, pn, op, ks)
        p = len(pts)
        idx = subset(p, ks) if p else []
        if op == 'permute' and p:
            order = idx + [i for i in range(p) if i not in idx]
            o.points.permute(order, useLog=False)
            pts, pn = [pts[i] for i in order], [pn[i] for i in order]
        elif op in ('copy', 'extract', 'delete') and len(idx) < p:
            rest = [i for i in range(p) if i not in idx]
            ret = getattr(o.points, op)(idx, useLog=False)
            if op != 'delete':
                ensure_tensor(ret, [pts[i] for i in idx], dims,
                              [pn[i] for i in idx], rtype, what + ' result')
            if op != 'copy':
                pts, pn = [pts[i] for i in rest], [pn[i] for i in rest]
        elif op in ('append', 'insert') and p and p < 6:
            new = [pts[i] for i in idx]
            arg = make(new, None)
            if op == 'append':
                o.points.append(arg, useLog=False)
                at = p
            else:
                at = ks[0] % p
                o.points.insert(at, arg, useLog=False)
            ensure_tensor(arg, new, dims, [None] * len(new), rtype,
                          what + ' argument')
            pts = pts[:at] + new + pts[at:]
            pn = pn[:at] + [None] * len(new) + pn[at:]
        elif op == 'repeat' and p and p < 4:
            byp = bool(ks[0] % 2)
            o = o.points.repeat(2, byp, useLog=False)
            order = [(i, c) for c in (1, 2) for i in range(p)]
            if byp:
                order.sort()
            pts = [pts[i] for i, _ in order]
            pn = [None if pn[i] is None else '%s_%d' % (pn[i], c)
                  for i, c in order]
        elif op == 'convert':
            rtype = TYPES[ks[0] % 4]
            o = o.copy(rtype)
        elif op == 'flatten' and p:
            back = [p] + dims[1:]
            o.flatten(useLog=False)
            width = int(np.prod(back))
            ensure(tuple(o.dimensions) == (1, width), what, o.dimensions)
            o.unflatten(back if ks[0] % 2 else tuple(back), useLog=False)
            pn = [None] * p
        elif op == 'item' and p:
            i = ks[0] % p
            got = o.points[i]
            want = pts[i] if len(dims) > 2 else pts[i]
            ensure(tuple(got.dimensions) == tuple(dims[1:])
                   if len(dims) > 2 else True, what, ': dimensions',
                   got.dimensions, 'expected', dims[1:])
            if not deep_same(got.copy('pythonlist'), want):
                raise Violation('%s: %r, expected %r' % (
                    what, got.copy('pythonlist'), want))
        elif op == 'iter' and p:
            got = [x.copy('pythonlist') for x in o.points]
            if not deep_same(got, pts):
                raise Violation('%s: %r' % (what, got))
        elif op == 'times' and p:
            before = snapshot(o)
            new = o * 2
            ensure_same_snapshot(before, o, what)
            o = new + o
            pts = scaled(pts)
            if max(abs(v) for v in leaves(pts)) > 1e6:
                return
        elif op == 'abs' and p:
            o = abs(o)
            pts = scaled(pts, abs)
        elif op == 'names' and p:
            pn = ['n%d' % i for i in range(p)][::-1]
            o.points.setNames(pn, useLog=False)
        elif op == 'view' and p:
            a, b = sorted([ks[0] % p, ks[-1] % p])
            v = o.pointView(a) if a == b and len(ks) == 1 else o.view(
                pointStart=a, pointEnd=b)
            if a == b and len(ks) == 1:
                ensure(tuple(v.dimensions) in ((1,) + tuple(dims[1:]),
                                               tuple(dims[1:])), what,
                       v.dimensions)
                continue
            ensure_tensor(v, pts[a:b + 1], dims, pn[a:b + 1], rtype,
                          what + ' view')
        elif op == 'equal' and p:
            twin = make(pts, pn)
            ensure(o == twin and twin == o, what, ': not equal to its twin')
            ensure(o.isIdentical(twin), what, ': not identical to its twin')
            if p > 1 and dims[1] > 1:
                f = nimble.data([list(leaves(x)) for x in pts],
                                returnType=rtype, useLog=False,
                                pointNames=pn)
                ensure(not o.isIdentical(f), what, ': identical to its flat')
        else:
            continue
        n += 1
        ctx.label(op)
        done.append(op)
        if case['watch']:
            ensure_tensor(o, pts, dims, pn, rtype, what + ' after')
    ensure_tensor(o, pts, dims, pn, rtype, 'after %s of %r' % (
        done, case['vals']))
    ctx.nontrivial(n >= 2)


def leaves(x):
    if isinstance(x, list):
        for y in x:
            yield from leaves(y)
    else:
        yield x


def scaled(x, f=lambda v: v * 3):
    return [scaled(y, f) for y in x] if isinstance(x, list) else f(x)


TESTS = [Test('flatten', flats, check_flat, quick=6000),
         Test('unflatten', vectors(), check_unflat, quick=4000),
         Test('collapse', collapses(), check_collapse, quick=4000),
         Test('expand', expansions(), check_expand, quick=4000),
         Test('parse', parsings(), check_parse, quick=4000),
         Test('dimensions', tensors(), check_tensor, quick=4000)]
