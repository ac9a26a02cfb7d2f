"""C15: query strings and match functions select what they say."""
import math
import operator
import re

import numpy as np
from hypothesis import strategies as st

import nimble
from nimble import match
from lib.core import Test, Violation, ensure, missing, same_rows
from lib.data import (TYPES, Table, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, nan, snapshot,
                      sparse_ok, stirred, tables)

N = nimble.exceptions
inf = float('inf')
OPS = {'==': operator.eq, '!=': operator.ne, '<': operator.lt,
       '<=': operator.le, '>': operator.gt, '>=': operator.ge}


# ----------------------------------------------------------- match functions

def number(v):
    return isinstance(v, (int, float, np.number)) \
        and not isinstance(v, (bool, np.bool_))


def plain(v):
    return isinstance(v, (int, float, bool, np.number, np.bool_))


BASIC = {
    'missing': missing,
    'numeric': number,
    'zero': lambda v: plain(v) and v == 0,
    'positive': lambda v: plain(v) and v > 0,
    'negative': lambda v: plain(v) and v < 0,
    'infinity': lambda v: plain(v) and math.isinf(v),
    'boolean': lambda v: isinstance(v, (bool, np.bool_)),
    'integer': lambda v: isinstance(v, (int, bool, np.integer, np.bool_)),
    'floating': lambda v: isinstance(v, (float, np.floating)),
    'true': lambda v: isinstance(v, (bool, np.bool_)) and bool(v),
    'false': lambda v: isinstance(v, (bool, np.bool_)) and not v,
}
MATCH = dict(BASIC)
MATCH['nonMissing'] = lambda v: not BASIC['missing'](v)
MATCH['nonNumeric'] = lambda v: not BASIC['numeric'](v)
MATCH['nonZero'] = lambda v: not BASIC['zero'](v)
CAP = {n: n[0].upper() + n[1:] for n in MATCH}
# what may stand behind "is"
WORDS = dict(MATCH)
WORDS['True'] = MATCH['true']
WORDS['False'] = MATCH['false']
WORDS['None'] = lambda v: v is None

scalar = st.one_of(
    st.sampled_from([0, 1, -1, 2, -5, 10 ** 12]),
    st.sampled_from([0.0, -0.0, 0.5, -2.5, nan, inf, -inf, 1e-300]),
    st.booleans(), st.none(), st.sampled_from(['a', '', '0', 'True', '-1']))


def typed(v, k):
    """The value, or the same as a numpy scalar."""
    if k % 3 == 1 and isinstance(v, bool):
        return np.bool_(v)
    if k % 3 == 1 and isinstance(v, int):
        return (np.int64, np.int64, np.int8)[k // 3 % 3 if abs(v) < 100
                                             else 0](v)
    if k % 3 == 1 and isinstance(v, float):
        return (np.float64, np.float32)[k // 3 % 2](v) \
            if v == 0 or not 0 < abs(v) < 1e-30 else np.float64(v)
    if k % 3 == 1 and isinstance(v, str):
        return np.str_(v)
    return v


scalars = st.fixed_dictionaries({
    'vals': st.lists(st.tuples(scalar, st.integers(0, 17)), max_size=5),
    'form': st.sampled_from(['list', 'tuple', 'array', 'set', 'generator']),
    'fn': st.sampled_from(sorted(MATCH))})


def check_scalars(case, ctx):
    """
    one match function on values, and its any and all forms on a collection
    of them; non-trivial = some value matches and some does not
    """
    vals = [typed(v, k) for v, k in case['vals']]
    fn, want = case['fn'], MATCH[case['fn']]
    hits = [bool(want(v)) for v in vals]
    for v, h in zip(vals, hits):
        got = getattr(match, fn)(v)
        ensure(got in (True, False) and bool(got) == h, 'match.%s(%r) is'
               % (fn, v), got)
    if case['form'] == 'generator':
        return
    data = {'list': list, 'tuple': tuple, 'set': list,
            'array': lambda x: np.array(x, dtype=object)}[case['form']](vals)
    for kind, f in (('any', any), ('all', all)):
        got = getattr(match, kind + CAP[fn])(data)
        ensure(bool(got) == f(hits), 'match.%s%s(%r) is' % (
            kind, CAP[fn], data), got)
        got = getattr(match, kind + 'Values')(getattr(match, fn))(data)
        ensure(bool(got) == f(hits), 'match.%sValues(%s)(%r) is' % (
            kind, fn, data), got)
    ctx.label(fn)
    ctx.nontrivial(any(hits) and not all(hits))


KINDS = ('int', 'float', 'nan', 'bool', 'str', 'strnan', 'mixed')
objects = st.fixed_dictionaries({
    'table': tables(kinds=KINDS), 'type': st.sampled_from(TYPES),
    'fn': st.sampled_from(sorted(MATCH)), 'k': st.integers(0, 7),
    'how': st.sampled_from(['name', 'not', 'function', 'lambda']),
    'values': st.lists(st.one_of(
        st.sampled_from([0, 1, 0.5, nan, 'a', True, -1]),
        st.just(None)), min_size=1, max_size=3),
    'at': st.integers(0, 4), 'view': st.booleans()})


def made(case, rows):
    rtype = case['type']
    if rtype == 'Sparse' and not sparse_ok(rows):
        rtype = 'List'
    o = stirred(build(case['table'], rtype), case['k'])
    return (o.view() if case.get('view') else o), rtype


def check_objects(case, ctx):
    """
    a match function and its any and all forms on whole objects, points,
    features and elements; non-trivial = some element matches and some does
    not
    """
    t = Table.of(case['table'])
    o, rtype = made(case, t.rows)
    fn = case['fn']
    # the type in which an element is held is not specified
    rows = t.rows
    if fn in ('integer', 'floating', 'numeric', 'nonNumeric', 'boolean',
              'true', 'false'):
        rows = [[o[i, j] for j in range(t.nf)] for i in range(t.np)]
        if len({type(v) for r in t.rows for v in r}) > 1 or (
                rtype == 'Sparse' and any(v == 0 for r in rows for v in r)):
            fn = 'missing'
    want = MATCH[fn]
    hits = [[bool(want(v)) for v in r] for r in rows]
    flat = [h for r in hits for h in r]
    what = 'match.%s on %s %r' % (fn, rtype, t.rows)
    before = snapshot(o)
    f = getattr(match, fn)
    for kind, q in (('any', any), ('all', all)):
        for g in (getattr(match, kind + CAP[fn]),
                  getattr(match, kind + 'Values')(f)):
            ensure(bool(g(o)) == q(flat), what, kind, 'is', g(o))
            i, j = case['at'] % t.np, case['at'] % t.nf
            if t.nf > 1:
                ensure(bool(g(o.points[i])) == q(hits[i]), what, kind,
                       'of point', i, 'is', g(o.points[i]))
            if t.np > 1:
                ensure(bool(g(o.features[j])) == q([r[j] for r in hits]),
                       what, kind, 'of feature', j, 'is', g(o.features[j]))
    # as selection
    allp = [i for i, r in enumerate(hits) if all(r)]
    anyf = [j for j in range(t.nf) if any(r[j] for r in hits)]
    if t.nf > 1:
        got = o.points.copy(getattr(match, 'all' + CAP[fn]), useLog=False)
        ensure_table(got, t.take('point', allp), what + ': points', rtype=rtype)
        got = o.points.count(getattr(match, 'all' + CAP[fn]))
        ensure(got == len(allp), what, ': counts', got)
    if t.np > 1:
        got = o.features.copy(getattr(match, 'any' + CAP[fn]), useLog=False)
        ensure_table(got, t.take('feature', anyf), what + ': features',
                     rtype=rtype)
    how = case['how']
    arg = {'name': 'is ' + fn, 'not': 'is not ' + fn, 'function': f,
           'lambda': lambda v: f(v)}[how]
    if how == 'not':
        hits = [[not h for h in r] for r in hits]
    m = o.matchingElements(arg, useLog=False)
    ensure_table(m, Table(hits, t.pn, t.fn, t.nf), what + ': elements')
    got = o.countElements(arg)
    ensure(got == sum(map(sum, hits)), what, ': counts', got, 'elements')
    vals = case['values']

    def among(v):
        for x in vals:
            if x is None or x != x:
                if missing(v):
                    return True
            elif type(x) is str or type(v) is str:
                if x == v:
                    return True
            elif v == x:
                return True
        return False
    want = [among(v) for r in t.rows for v in r]
    if None in vals and not any(x != x for x in vals if x is not None):
        # None is the value None and nothing else
        vals = [x for x in vals if x is not None]
        want = [among(v) for r in t.rows for v in r]
        vals = vals + [None]
    for c in (vals, tuple(vals)) if len(vals) > 1 else (vals, vals[0]):
        for kind, q in (('any', any), ('all', all)):
            got = getattr(match, kind + 'Values')(c)(o)
            ensure(bool(got) == q(want), 'match.%sValues(%r) of %s %r is' % (
                kind, c, rtype, t.rows), got)
    ensure_same_snapshot(before, o, what)
    ensure_consistent(o, what)
    ctx.label(fn, rtype)
    ctx.nontrivial(any(flat) and not all(flat))


# -------------------------------------------------------------- query strings

QNAMES = ['a', 'b', 'x y', 'is', 'is it', 'this is', 'not', 'is not', '> 3',
          'a == b', '<', '1', '-2.5', 'a  b', ' a', 'b ', 'missing', '==x',
          'is missing', 'x is zero', 'é', 'p(q)', 'a.b', '[0]']
QVALS = ['0', '1', '-1', '2.5', '1e0', 'a', 'True', 'nan', 'x y', ' 1',
         'is zero', 'a == b', '.5', 'b is', '1 ', '', 'inf', '== 1']


@st.composite
def queries(draw):
    kinds = draw(st.sampled_from([('int',), ('float', 'nan'), ('bool',),
                                  ('str',), KINDS]))
    t = draw(tables(kinds=kinds, naming=False, max_p=4, max_f=4))
    for axis, n in (('pn', len(t['rows'])), ('fn', t['f'])):
        nm = draw(st.permutations(QNAMES))[:n]
        if draw(st.integers(0, 4)) == 0:
            nm = list(nm)
            nm[draw(st.integers(0, n - 1))] = None
        t[axis] = list(nm)
    axis = draw(st.sampled_from(['point', 'feature', 'element']))
    pool = t['fn'] if axis == 'point' else t['pn']
    name = draw(st.one_of(st.sampled_from(pool), st.sampled_from(pool),
                          st.sampled_from(QNAMES))) or 'none'
    flat = [v for r in t['rows'] for v in r]
    if draw(st.integers(0, 2)):
        op = draw(st.sampled_from(sorted(OPS)))
        val = draw(st.one_of(st.sampled_from(QVALS),
                             st.sampled_from(flat).map(str)))
        tail = op + draw(st.sampled_from([' ', ' ', '' if axis == 'element'
                                          else ' '])) + val
    else:
        tail = draw(st.sampled_from(['is ', 'is ', 'is not '])) + draw(
            st.one_of(st.sampled_from(sorted(WORDS)),
                      st.sampled_from(['strange', '3', 'Zero'])))
    text = tail if axis == 'element' else name + ' ' + tail
    if draw(st.integers(0, 19)) == 0:
        text = draw(st.sampled_from([name, text + ' ', text.replace(' ', ''),
                                     ' ' + text, text + ' == 1']))
    return {'table': t, 'axis': axis, 'text': text,
            'type': draw(st.sampled_from(TYPES)), 'k': draw(st.integers(0, 7)),
            'op': draw(st.sampled_from(['copy', 'extract', 'delete',
                                        'retain', 'count', 'matching']))}


def value(text):
    try:
        return float(text)
    except ValueError:
        return text


def parses(text, element):
    """Every way to read the text: (name or None, function)."""
    out = []
    if element:
        m = re.match(r'(==|!=|>=|<=|<|>) ?(.*)', text, re.S)
        if m:
            v, f = value(m.group(2)), OPS[m.group(1)]
            out.append((None, lambda e: f(e, v)))
        m = re.match(r'is (not )?(.*)', text, re.S)
        if m and m.group(2) in WORDS:
            g = WORDS[m.group(2)]
            no = bool(m.group(1))
            out.append((None, lambda e: bool(g(e)) != no))
        return out
    for m in re.finditer(r'(?= (==|!=|>=|<=|<|>) )', text):
        name, op = text[:m.start()], m.group(1)
        v = value(text[m.start() + len(op) + 2:])
        out.append((name, lambda e, v=v, op=op: OPS[op](e, v)))
    for m in re.finditer(r'(?= is (not )?)', text):
        rest = text[m.start() + 4:]
        for no, word in ((False, rest), (True, rest[4:] if
                                         rest.startswith('not ') else None)):
            if word in WORDS:
                g = WORDS[word]
                out.append((text[:m.start()],
                            lambda e, g=g, no=no: bool(g(e)) != no))
    return out


def operators(text):
    """How many parts of the text could be taken for an operator?"""
    n = len(re.findall(r'(?= (?:==|!=|>=|<=|<|>|is) )', text))
    return n + bool(re.match(r'(==|!=|>=|<=|<|>|is )', text))


def selected(parse, t, axis):
    """Which points or features does this reading select?"""
    name, f = parse
    if axis == 'element':
        return [[bool(f(v)) for v in r] for r in t.rows]
    u = t.along(axis)
    if name not in u.fn:
        raise LookupError(name)
    j = u.fn.index(name)
    return [i for i in range(u.np) if f(u.rows[i][j])]


def check_query(case, ctx):
    """
    a query string of a generated name, operator and value (names may look
    like parts of queries) used to select points, features or elements;
    non-trivial = accepted and selects some but not all
    """
    t = Table.of(case['table'])
    axis, text, op = case['axis'], case['text'], case['op']
    o, rtype = made(case, t.rows)
    what = '%s %r %s %s %r' % (rtype, t, op, axis, text)
    rows = t.rows
    held = [[o[i, j] for j in range(t.nf)] for i in range(t.np)]
    if any(w in text for w in ('integer', 'floating', 'numeric', 'Numeric',
                               'boolean', 'rue', 'alse')):
        # the type in which an element is held is not specified
        if len({type(v) for r in rows for v in r}) > 1:
            rows = held
        u = Table(held, t.pn, t.fn, t.nf)
    else:
        u = t
    ways = []
    named = axis != 'element' and op != 'matching' \
        and text in t.anames(axis)
    if named:
        ways = [[t.anames(axis).index(text)]]
    else:
        for p in parses(text, axis == 'element'):
            try:
                ways.append(selected(p, u, axis))
            except LookupError:
                ways.append('name')
            except TypeError:
                ways.append('type')
    before = snapshot(o)
    try:
        if axis == 'element':
            got = o.matchingElements(text, useLog=False).copy('pythonlist') \
                if op in ('copy', 'matching', 'retain') \
                else o.countElements(text)
        elif op == 'matching':
            got = axis_of(o, axis).matching(text, useLog=False)
        elif op == 'count':
            got = axis_of(o, axis).count(text)
        else:
            got = getattr(axis_of(o, axis), op)(text, useLog=False)
        refused = None
    except Exception as e:
        refused = e
    if refused is not None or op in ('copy', 'count', 'matching'):
        ensure_same_snapshot(before, o, what)
    good = [w for w in ways if not isinstance(w, str)]
    if refused is not None:
        if isinstance(refused, N.NimbleException):
            ok = not good or (len(ways) != len(good)) or operators(text) > 1
            if named and op == 'count':
                ok = True    # refused: most likely no query was meant
        else:
            ok = 'type' in ways
            # a name that does not exist, or (in a single value) of which
            # axis is not known
            ok = ok or op == 'matching' and (
                not good or operators(text) > 1
                or t.count('feature' if axis == 'point' else 'point') == 1)
        if not ok:
            raise Violation('%s: refused: %s: %s' % (
                what, type(refused).__name__, refused)) from refused
        ctx.label('refused')
        return
    if axis == 'element':
        if op in ('copy', 'matching', 'retain'):
            if not ways and op != 'count':
                # not a query: a value to be equal to
                good = [[[v == text for v in r] for r in t.rows]]
            elif operators(text) > 1:
                good = good + [[[v == text for v in r] for r in t.rows]]
            ok = any(same_rows(got, w) for w in good)
            hit = sum(map(sum, got))
        else:
            ok = any(got == sum(map(sum, w)) for w in good)
            hit = got
        total = t.np * t.nf
        ensure(ok, what, ': got', got, 'expected', good)
    else:
        total = t.count(axis)
        fits = []
        for idx in good:
            rest = [i for i in range(total) if i not in idx]
            if op == 'count':
                fits.append(got == len(idx))
                continue
            if op == 'matching':
                g = got.copy('pythonlist')
                g = [v for r in g for v in r]
                fits.append(g == [i in idx for i in range(total)])
                continue
            try:
                if op in ('copy', 'extract'):
                    ensure_table(got, t.take(axis, idx), what, rtype=rtype)
                if op == 'extract' or op == 'delete':
                    ensure_table(o, t.take(axis, rest), what, rtype=rtype)
                if op == 'retain':
                    ensure_table(o, t.take(axis, idx), what, rtype=rtype)
                fits.append(True)
            except Violation as e:
                fits.append(e)
        if not any(x is True for x in fits):
            for x in fits:
                if isinstance(x, Violation):
                    raise x
            raise Violation('%s: gave %r, expected one of %r' % (
                what, got if not hasattr(got, 'copy') else
                got.copy('pythonlist'), good))
        hit = len(good[0])
    ctx.label(axis, 'parses %d' % len(ways))
    ctx.nontrivial(0 < hit < total)


TESTS = [Test('scalars', scalars, check_scalars, quick=6000),
         Test('objects', objects, check_objects, quick=6000),
         Test('queries', queries(), check_query, quick=14000)]
