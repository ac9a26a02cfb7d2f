"""C33: categorical encodings are faithful and reversible."""
import numpy as np

import nimble
from hypothesis import strategies as st

from lib.core import Test, ensure, missing, same
from lib.data import (TYPES, Table, build, ensure_consistent,
                      ensure_same_snapshot, ensure_table, ident, is_num, nan,
                      rows_of, snapshot, sparse_ok, stirred, tables)

N = nimble.exceptions
pick = st.sampled_from
# columns of a few values, so that there are repeats
COLUMNS = {
    'number': [0, 1, 2, -1, 2.5],
    'zero last': [3, 1, 1, 0, 2],
    'same': [7],
    'zeros': [0],
    'missing': [1, 2, nan, 0, 0.5],
    'all missing': [nan],
    'bool': [True, False],
    'text': ['a', 'b', 'c d', '0', 'A', 'x=1', 'True', '1.0'],
    'text missing': ['a', 'b', nan],
    'mixed': ['a', 0, 1, 2.5, 'b', nan, '0'],
    'bool text': [True, 'a', 0, 'True'],
    'long': list(range(-6, 7)),
    'big': [10 ** 6, 10 ** 15, -10 ** 9, 0, 0.1 + 0.2, 1e-7],
}


@st.composite
def encodings(draw):
    rtype = draw(pick(TYPES))
    cols = sorted(COLUMNS)
    if rtype == 'Sparse':
        cols = ['number', 'zero last', 'same', 'zeros', 'missing',
                'all missing', 'long', 'big']
        if draw(st.integers(0, 7)) == 0:
            cols = ['bool']
    t = draw(tables(max_p=7, max_f=4, kinds=['int']))
    n = len(t['rows'])
    kinds = [draw(pick(cols)) for _ in range(t['f'])]
    for j, k in enumerate(kinds):
        for i in range(n):
            t['rows'][i][j] = draw(pick(COLUMNS[k]))
    if draw(st.integers(0, 5)) == 0 and t['fn']:
        # a name that the encoding could want to use
        k = draw(st.integers(0, t['f'] - 1))
        j = draw(st.integers(0, t['f'] - 1))
        pre = t['fn'][j] if t['fn'][j] is not None else str(j)
        t['fn'][k] = '%s=%s' % (pre, t['rows'][0][j])
    t['type'] = rtype
    return {'t': t, 'steps': draw(st.lists(st.tuples(
        pick(['binary', 'integer']), st.integers(0, 9), st.integers(0, 3)),
        min_size=1, max_size=4)), 'stir': draw(st.integers(0, 7))}


def distinct(col):
    out = []
    for v in col:
        if not any(same(v, u) for u in out):
            out.append(v)
    return out


def says(text, value):
    """Does the text of a feature name tell this value?"""
    if missing(value):
        return text in ('nan', 'None', 'NaN')
    if isinstance(value, str):
        return text == value
    if isinstance(value, (bool, np.bool_)) or value in (0, 1):
        if text in ('True', 'False'):
            return (text == 'True') == bool(value)
    try:
        return float(text) == value
    except ValueError:
        return False


def binary(o, t, j, how, what):
    """Replace and compare; the new model."""
    col = [r[j] for r in t.rows]
    vals = distinct(col)
    prefix = '%s=' % (j if t.fn[j] is None else t.fn[j])
    arg = ident(t.fn, j, how, t.nf)
    before = snapshot(o)
    others = [n for k, n in enumerate(t.fn) if k != j and n is not None]
    try:
        got = o.replaceFeatureWithBinaryFeatures(arg, useLog=False)
    except N.InvalidArgumentValue:
        new = [n[len(prefix):] for n in others if n.startswith(prefix)]
        twins = [(u, v) for a, u in enumerate(vals) for v in vals[a + 1:]
                 if isinstance(u, str) != isinstance(v, str)
                 and (says(u, v) if isinstance(u, str) else says(v, u))]
        ensure(twins or any(says(n, v) for n in new for v in vals), what,
               'raises without a conflict of names')
        ensure_same_snapshot(before, o, what + ' (failed)')
        return None
    ensure(isinstance(got, list) and len(got) == len(vals), what, 'gives',
           got, 'for the values', vals)
    ensure(o.shape == (t.np, t.nf - 1 + len(vals)), what, 'leaves shape',
           o.shape)
    names = list(o.features.getNames())
    ensure(names[j:j + len(vals)] == got, what, 'names', names, 'returned',
           got)
    rows = rows_of(o)
    left = list(vals)
    order = []
    for k, name in enumerate(got):
        ensure(name.startswith(prefix), what, 'name', name)
        bits = [r[j + k] for r in rows]
        ensure(all(same(b, 0) or same(b, 1) for b in bits), what,
               'has values', bits)
        match = [v for v in left if says(name[len(prefix):], v)
                 and all(same(b, int(same(c, v)))
                         for b, c in zip(bits, col))]
        ensure(match, what, 'feature', name, 'has', bits,
               'for the values', col)
        left = [v for v in left if not same(v, match[0])]
        order.append(match[0])
    add = [[int(same(v, c)) for v in order] for c in col]
    return Table([r[:j] + a + r[j + 1:] for r, a in zip(t.rows, add)],
                 t.pn, t.fn[:j] + got + t.fn[j + 1:], t.nf - 1 + len(vals))


def integer(o, t, j, how, what):
    col = [r[j] for r in t.rows]
    vals = distinct(col)
    got = o.transformFeatureToIntegers(ident(t.fn, j, how, t.nf),
                                       useLog=False)
    ensure(isinstance(got, dict), what, 'gives', got)
    ensure(sorted(got) == list(range(len(vals))), what, 'gives', got,
           'for the values', vals)
    new = [r[j] for r in rows_of(o)]
    ensure(all(is_num(x) and x in got for x in new), what, 'leaves', new,
           'with the mapping', got)
    for x, c in zip(new, col):
        ensure(same(got[int(x)], c), what, 'leaves', new, 'with', got,
               'for the values', col)
    if any(same(c, 0) for c in col):
        ensure(same(got[0], 0), what, 'does not preserve zeros', got)
    return Table([r[:j] + [int(x)] + r[j + 1:]
                  for r, x in zip(t.rows, new)], t.pn, t.fn, t.nf)


def check_encodings(case, ctx):
    """a feature with several distinct values, one of them repeated"""
    t = Table.of(case['t'])
    rtype = case['t']['type']
    if rtype == 'Sparse' and not sparse_ok(t.rows):
        ctx.excluded('Sparse cannot hold the data')
        return
    o = stirred(build(case['t'], rtype), case['stir'])
    ensure_table(o, t, 'built', rtype=rtype)
    rich = False
    for kind, j, how in case['steps']:
        j %= t.nf
        col = [r[j] for r in t.rows]
        what = '%s %s of feature %d %r' % (rtype, kind, j, col)
        if rtype == 'Sparse' and isinstance(t.rows[0][0], bool) and \
                kind == 'integer' and t.nf > 1:
            ctx.excluded('Sparse cannot mix booleans and numbers')
            return
        rich = rich or 1 < len(distinct(col)) < len(col)
        if kind == 'binary':
            new = binary(o, t, j, how, what)
            if new is None:
                ctx.label('conflict')
                break
        else:
            new = integer(o, t, j, how, what)
        ensure_table(o, new, what, rtype=rtype)
        ensure_consistent(o, what)
        t = new
    ctx.nontrivial(rich)
    ctx.label(rtype)


TESTS = [
    Test('encodings', encodings(), check_encodings, quick=8000,
         thorough=120000),
]
