"""C38: dates and times are values like any other."""
import datetime
import os

import numpy as np
import pandas as pd
from hypothesis import strategies as st

import nimble
from lib import core
from lib.core import Test, Violation, ensure

Base = nimble.core.data.Base
D = datetime.datetime
nan = float('nan')
DENSE = ('List', 'Matrix', 'DataFrame')
MOMENTS = ['@' + str(t) for t in (
           D(2020, 5, 1), D(2019, 3, 2), D(1969, 12, 31), D(1970, 1, 1),
           D(2021, 1, 1, 13, 30), D(2019, 3, 2, 0, 0, 1),
           D(2024, 2, 29, 23, 59, 59, 250000), D(1905, 7, 4), D(2100, 1, 2))]
FORMS = {'datetime': lambda t: t, 'numpy': np.datetime64,
         'pandas': pd.Timestamp}
CONVERT = {'datetime': D, 'numpy': np.datetime64, 'pandas': pd.Timestamp}


def decoded(v):
    """A case is kept as text: a moment in it is its text after an @."""
    if isinstance(v, str) and v.startswith('@'):
        return D.fromisoformat(v[1:])
    return v


def opened(case):
    return dict(case, rows=[[decoded(v) for v in r] for r in case['rows']],
                moment=decoded(case.get('moment')))


def plain(v):
    """Any spelling of a moment, or of a missing one, as Python's own."""
    if v is None or v != v:
        return 'missing'
    if isinstance(v, np.datetime64):
        return v.astype('datetime64[us]').item()
    if isinstance(v, pd.Timestamp):
        return v.to_pydatetime()
    if isinstance(v, np.generic):
        return v.item()
    return v


def plain_rows(rows):
    return [[plain(v) for v in r] for r in rows]


def table_of(obj):
    """The cells one by one and the bulk copies must agree."""
    rows = plain_rows(obj.copy('pythonlist'))
    cells = [[plain(obj[i, j]) for j in range(len(obj.features))]
             for i in range(len(obj.points))]
    ensure(rows == cells, 'copy to lists', rows, 'differs from cells', cells)
    arr = obj.copy('numpyarray')
    ensure(arr.shape == obj.shape, 'shape of the array', arr.shape)
    ensure(plain_rows(arr) == cells, 'copy to an array', arr.tolist(),
           'differs from cells', cells)
    return cells


def expect(obj, want, what):
    got = table_of(obj)
    ensure(got == plain_rows(want), what, 'gives', got, 'expected',
           plain_rows(want))


@st.composite
def dated(draw, ops, min_p=1):
    p = draw(st.integers(min_p, 5))
    kinds = ['date'] + draw(st.lists(st.sampled_from(
        ['date', 'gaps', 'int', 'float', 'str']), max_size=3))
    if draw(st.integers(0, 3)) == 0:
        kinds[0] = 'gaps'
    few = st.sampled_from(MOMENTS[:3])
    pool = {'date': st.one_of(few, st.sampled_from(MOMENTS)),
            'gaps': st.one_of(few, st.sampled_from(MOMENTS), st.none()),
            'int': st.integers(-3, 3), 'str': st.sampled_from('abc'),
            'float': st.sampled_from([0.5, -1.25, 2.0, None])}
    cols = [draw(st.lists(pool[k], min_size=p, max_size=p)) for k in kinds]
    at = draw(st.integers(0, len(kinds) - 1))
    kinds.insert(at, kinds.pop(0))
    cols.insert(at, cols.pop(0))
    return {'kinds': kinds, 'rows': [list(r) for r in zip(*cols)], 'd': at,
            'form': draw(st.sampled_from(sorted(FORMS))),
            'type': draw(st.sampled_from(DENSE)),
            'op': draw(st.sampled_from(ops)),
            'from': draw(st.sampled_from(['list', 'list', 'pandas',
                                          'dict'])),
            'moment': draw(st.sampled_from(MOMENTS)),
            'ks': draw(st.lists(st.integers(0, 6), min_size=3, max_size=3)),
            'view': draw(st.sampled_from([False, False, True])),
            'other': draw(st.sampled_from(DENSE))}


def spelled(case, rows):
    f = FORMS[case['form']]
    return [[f(v) if isinstance(v, D) else v for v in r] for r in rows]


def names_of(case):
    return ['f%d' % j for j in range(len(case['kinds']))]


def make(case, rows=None, rtype=None, names=None, view=None):
    rows = case['rows'] if rows is None else rows
    names = names or names_of(case)
    view = case['view'] if view is None else view
    raw = spelled(case, rows)
    if view:
        raw = [raw[-1]] + raw + [raw[0]]
    if case['from'] == 'pandas':
        raw = pd.DataFrame(raw, columns=names)
    elif case['from'] == 'dict':
        raw = {n: [r[j] for r in raw] for j, n in enumerate(names)}
    kw = {'featureNames': names} if case['from'] == 'list' else {}
    if case['from'] == 'pandas':
        kw = {'featureNames': True}
    obj = nimble.data(raw, returnType=rtype or case['type'],
                      rowsArePoints=case['from'] != 'dict', useLog=False,
                      **kw)
    if view:
        obj = obj.view(1, len(rows), None, None)
    return obj


def held(obj):
    return obj.copy() if type(obj).__name__.endswith('View') else obj


COPIES = ['List', 'Matrix', 'DataFrame', 'listofdict', 'dictoflist',
          'pandasdataframe', 'numpyarray rows', 'pythonlist rows', 'elements',
          'transpose', 'pickle', 'csv', 'none', 'points']


def check_copies(case, ctx):
    """more than one date"""
    case = opened(case)
    rows, n = case['rows'], len(case['rows'])
    obj, fn, op = make(case), names_of(case), case['op']
    # a row of nothing but a missing value is an empty line of a file
    if not (op != 'csv' or len(fn) > 1):
        return ctx.label('not applicable')
    want = plain_rows(rows)
    expect(obj, rows, 'creation')
    if op in DENSE:
        expect(obj.copy(op), rows, 'copy to ' + op)
    elif op == 'listofdict':
        got = [{k: plain(v) for k, v in d.items()} for d in obj.copy(op)]
        ensure(got == [dict(zip(fn, r)) for r in want], op, got)
    elif op == 'dictoflist':
        got = {k: [plain(v) for v in c] for k, c in obj.copy(op).items()}
        ensure(got == {f: [r[j] for r in want] for j, f in enumerate(fn)},
               op, got)
    elif op == 'pandasdataframe':
        got = plain_rows(obj.copy(op).astype(object).values.tolist())
        ensure(got == want, op, got, want)
    elif op.endswith('rows'):
        got = plain_rows(obj.copy(op.split()[0], rowsArePoints=False))
        ensure(got == [list(c) for c in zip(*want)], op, got)
    elif op == 'elements':
        got = [plain(v) for v in obj.iterateElements()]
        ensure(got == [v for r in want for v in r], op, got)
    elif op == 'transpose':
        expect(obj.T, [list(c) for c in zip(*rows)], op)
        expect(obj.T.T, rows, 'transposing twice')
    elif op == 'points':
        got = [[plain(v) for v in p] for p in obj.points]
        ensure(got == want, 'iterating points', got)
    elif op == 'none':
        none = obj.points.copy([])
        ensure(none.shape == (0, len(fn)), 'shape of no points', none.shape)
        for to in ('pythonlist', 'numpyarray', 'List', 'Matrix', 'DataFrame'):
            got = none.copy(to)
            ensure(len(got if not isinstance(got, Base) else got.points) == 0,
                   'copy of no points to', to, got)
    else:
        path = os.path.join(core.SCRATCH, 'c38.' + op)
        obj.save(path)
        if op == 'pickle':
            back = nimble.data(path, useLog=False)
            expect(back, rows, 'pickle')
            ensure(back.isIdentical(held(obj)), 'pickle is not identical')
        else:
            back = nimble.data(
                path, returnType=case['other'], featureNames=True,
                convertToType={f: CONVERT[case['form']] for f, k in
                               zip(fn, case['kinds'])
                               if k in ('date', 'gaps')}, useLog=False)
            expect(back, rows, 'csv')
    expect(obj, rows, 'the object after ' + op)
    ctx.label(op)
    ctx.nontrivial(sum(isinstance(v, D) for r in rows for v in r) > 1)


OPS = ['sort', 'sort reverse', 'extract', 'delete', 'copy', 'retain', 'count',
       'append', 'insert', 'features append', 'permute', 'flatten', 'repeat',
       'unique', 'countUnique', 'group', 'merge', 'transform', 'transform '
       'elements', 'calculate', 'fill', 'fill missing', 'set', 'binary',
       'integers', 'identical', 'different', 'statistics', 'string',
       'features extract', 'split']


def check_operations(case, ctx):
    """at least two points, and the operation applies"""
    case = opened(case)
    obj = make(case)
    rows, kinds = [list(r) for r in case['rows']], case['kinds']
    j, fn, op, ks = case['d'], names_of(case), case['op'], case['ks']
    d, n, moment = fn[j], len(rows), case['moment']
    mine = FORMS[case['form']](moment)
    gaps = any(r[j] is None for r in rows)
    col = [plain(r[j]) for r in rows]
    changed, argument = rows, None

    def later(p):
        v = plain(p[d])
        return v != 'missing' and v > moment
    keep = [c != 'missing' and c > moment for c in col]
    if op in ('sort', 'sort reverse'):
        if not (not gaps):
            return ctx.label('not applicable')
        obj = held(obj)
        obj.points.sort(d, reverse=op != 'sort', useLog=False)
        changed = sorted(rows, key=lambda r: r[j], reverse=op != 'sort')
    elif op in ('extract', 'delete', 'copy', 'retain', 'count'):
        obj = held(obj)
        yes = [r for r, k in zip(rows, keep) if k]
        no = [r for r, k in zip(rows, keep) if not k]
        ret = getattr(obj.points, op)(later)
        if op == 'count':
            ensure(ret == len(yes), 'count', ret, len(yes))
        elif op in ('extract', 'copy'):
            expect(ret, yes, op)
        changed = {'extract': no, 'delete': no, 'retain': yes}.get(op, rows)
    elif op in ('append', 'insert'):
        obj = held(obj)
        extra = [list(r) for r in reversed(rows)]
        extra[0][j] = moment
        argument = make(case, extra, case['other'], view=False)
        at = ks[0] % (n + 1)
        if op == 'append':
            obj.points.append(argument, useLog=False)
            at = n
        else:
            obj.points.insert(at, argument, useLog=False)
        changed = rows[:at] + extra + rows[at:]
        expect(argument, extra, 'the object added')
    elif op == 'features append':
        obj = held(obj)
        argument = make(dict(case, kinds=['date']), [[r[j]] for r in rows],
                        case['other'], ['added'], view=False)
        obj.features.append(argument, useLog=False)
        changed = [r + [r[j]] for r in rows]
    elif op == 'features extract':
        obj = held(obj)
        expect(obj.features.extract(d), [[r[j]] for r in rows], op)
        changed = [r[:j] + r[j + 1:] for r in rows]
    elif op == 'permute':
        obj = held(obj)
        obj.points.permute(list(reversed(range(n))))
        changed = rows[::-1]
    elif op == 'flatten':
        obj = held(obj)
        obj.flatten()
        changed = [[v for r in rows for v in r]]
    elif op == 'repeat':
        expect(obj.points.repeat(2, ks[0] % 2 == 0),
               [r for r in rows for _ in (0, 1)] if ks[0] % 2 == 0
               else rows * 2, op)
    elif op == 'unique':
        seen = []
        for r in plain_rows(rows):
            if r not in seen:
                seen.append(r)
        expect(obj.points.unique(), seen, op)
    elif op == 'countUnique':
        got = {plain(k): v for k, v in
               obj.countUniqueElements(features=d).items()}
        ensure(got == {c: col.count(c) for c in col}, op, got)
    elif op == 'group':
        if not (not gaps):
            return ctx.label('not applicable')
        got = obj.groupByFeature(d, useLog=False)
        got = {plain(k): table_of(v) for k, v in got.items()}
        want = {}
        for r in plain_rows(rows):
            want.setdefault(r[j], []).append(r[:j] + r[j + 1:])
        if len(kinds) > 1:
            ensure(got == want, op, got, want)
        else:
            ensure(set(got) == set(want), op, got, want)
    elif op == 'merge':
        if not (not gaps and len(set(col)) == n):
            return ctx.label('not applicable')
        obj = held(obj)
        extra = [[c, i] for i, c in enumerate(col) if (ks[0] + i) % 2]
        extra.append([D(1990, 1, 1), 99])
        argument = make(dict(case, kinds=['date', 'int']), extra,
                        case['other'], [d, 'added'], view=False)
        point = ('left', 'intersection')[ks[1] % 2]
        obj.merge(argument, onFeature=d, point=point, feature='union',
                  useLog=False)
        look = {c: i for c, i in extra}
        want = [r + [look.get(r[j])] for r in rows
                if point == 'left' or r[j] in look]
        got, want = ([[float(v) if isinstance(v, int) else v for v in r]
                      for r in t] for t in (table_of(obj), plain_rows(want)))
        ensure(sorted(map(repr, got)) == sorted(map(repr, want)), op, point,
               'gives', got, 'expected', want)
        ctx.nontrivial(n > 1)
        return
    elif op == 'transform':
        obj = held(obj)
        obj.features.transform(lambda f: [mine] * len(f), features=d,
                               useLog=False)
        changed = [r[:j] + [moment] + r[j + 1:] for r in rows]
    elif op == 'transform elements':
        obj = held(obj)
        obj.transformElements(
            lambda v: 0 if plain(v) == 'missing' else plain(v).year,
            features=d, useLog=False)
        changed = [r[:j] + [0 if r[j] is None else r[j].year] + r[j + 1:]
                   for r in rows]
    elif op == 'calculate':
        got = obj.calculateOnElements(
            lambda v: -1 if plain(v) == 'missing' else plain(v).month,
            features=d, useLog=False)
        expect(got, [[-1 if r[j] is None else r[j].month] for r in rows], op)
    elif op == 'fill':
        obj = held(obj)
        obj.features.fillMatching(mine, lambda v: plain(v) == col[0],
                                  features=d, useLog=False)
        changed = [r[:j] + [moment if c == col[0] else r[j]] + r[j + 1:]
                   for r, c in zip(rows, col)]
    elif op == 'fill missing':
        obj = held(obj)
        obj.features.fillMatching(mine, nimble.match.missing, features=d,
                                  useLog=False)
        changed = [r[:j] + [moment if r[j] is None else r[j]] + r[j + 1:]
                   for r in rows]
    elif op == 'set':
        obj = held(obj)
        i = ks[0] % n
        obj[i, d] = mine
        changed = [list(r) for r in rows]
        changed[i][j] = moment
    elif op in ('binary', 'integers'):
        if not (not gaps):
            return ctx.label('not applicable')
        obj = held(obj)
        if op == 'binary':
            obj.replaceFeatureWithBinaryFeatures(d, useLog=False)
            uniq = len(set(col))
            got = table_of(obj)
            marks = [r[j:j + uniq] for r in got]
            rest = [r[:j] + r[j + uniq:] for r in got]
        else:
            obj.transformFeatureToIntegers(d, useLog=False)
            got = table_of(obj)
            marks = [r[j] for r in got]
            rest = [r[:j] + r[j + 1:] for r in got]
            uniq = None
        ensure(rest == [r[:j] + r[j + 1:] for r in plain_rows(rows)],
               op, 'changed other features', got)
        for a in range(n):
            ensure(uniq is None or sorted(marks[a]) == [0] * (uniq - 1) + [1],
                   op, 'marks', marks[a])
            for b in range(n):
                ensure((marks[a] == marks[b]) == (col[a] == col[b]), op,
                       marks[a], marks[b], 'for', col[a], col[b])
        ctx.nontrivial(n > 1)
        return
    elif op == 'identical':
        same = make(case, view=False)
        ensure(same.isIdentical(held(obj)) and held(obj).isIdentical(same),
               'equal tables of dates are not identical')
        ensure(held(obj).isIdentical(obj.copy()), 'a copy is not identical')
    elif op == 'different':
        i = ks[0] % n
        other = [list(r) for r in rows]
        if not (col[i] != moment):
            return ctx.label('not applicable')
        other[i][j] = moment
        other = make(case, other, view=False)
        ensure(not other.isIdentical(held(obj))
               and not held(obj).isIdentical(other),
               'tables of different dates are identical')
    elif op == 'statistics':
        for name in ('max', 'min', 'mean', 'median', 'standardDeviation'):
            got = getattr(obj.features.copy(d).features, name)()
            ensure(plain(got[0, 0]) == 'missing', name, 'of dates is',
                   got[0, 0])
        got = obj.features.copy(d).features.proportionMissing()[0, 0]
        ensure(abs(got - col.count('missing') / n) < 1e-9,
               'proportion missing', got)
    elif op == 'string':
        # a wide table leaves columns out
        text = str(obj.features.copy(d))
        ensure(d in text and str(obj) and repr(obj), 'printing', text)
    elif op == 'split':
        a, b = nimble_split(held(obj))
        expect(a, rows[:len(a.points)], 'first part')
        expect(b, rows[len(a.points):], 'second part')
    expect(obj, changed, op)
    if argument is not None and op == 'features append':
        expect(argument, [[r[j]] for r in rows], 'the object added')
    ctx.label(op)
    ctx.nontrivial(n > 1)


def nimble_split(obj):
    k = len(obj.points) // 2
    return (obj.points.copy(start=0, end=k - 1) if k
            else obj.points.copy([])), obj.points.copy(start=k)


@st.composite
def texts(draw):
    p, f = draw(st.integers(1, 4)), draw(st.integers(1, 3))
    some = st.sampled_from(MOMENTS)
    cell = draw(st.sampled_from([some, st.one_of(some, some, st.none())]))
    return {'rows': draw(st.lists(st.lists(cell, min_size=f, max_size=f),
                                  min_size=p, max_size=p)),
            'style': draw(st.sampled_from(['iso', 'space', 'words'])),
            'form': draw(st.sampled_from(sorted(CONVERT))),
            'how': draw(st.sampled_from(['single', 'list', 'dict', 'some'])),
            'from': draw(st.sampled_from(['list', 'numpy', 'pandas',
                                          'csv'])),
            'type': draw(st.sampled_from(DENSE))}


def check_convert(case, ctx):
    """more than one date"""
    style = {'iso': lambda t: t.isoformat(), 'space': str,
             'words': lambda t: t.strftime('%B %d, %Y %H:%M:%S.%f')}
    say = style[case['style']]
    rows = opened(case)['rows']
    raw = [[None if v is None else say(v) for v in r] for r in rows]
    fn = ['f%d' % j for j in range(len(rows[0]))]
    to = CONVERT[case['form']]
    want = [list(r) for r in rows]
    if case['how'] == 'single':
        arg = to
    elif case['how'] == 'list':
        arg = [to] * len(fn)
    elif case['how'] == 'dict':
        arg = {f: to for f in fn}
    else:
        arg = {fn[0]: to}
        want = [[a[0]] + b[1:] for a, b in zip(want, raw)]
    if case['from'] == 'numpy':
        raw = np.array(raw, dtype=object)
    elif case['from'] == 'pandas':
        raw = pd.DataFrame(raw)
    elif case['from'] == 'csv':
        path = os.path.join(core.SCRATCH, 'c38.csv')
        with open(path, 'w') as out:
            for r in [fn] + raw:
                out.write(','.join('' if v is None else '"%s"' % v
                                   for v in r) + '\n')
        if not (all(any(v is not None for v in r) for r in rows)):
            return ctx.label('not applicable')
        raw = path
    obj = nimble.data(raw, returnType=case['type'], convertToType=arg,
                      featureNames=True if case['from'] == 'csv' else fn,
                      useLog=False)
    expect(obj, want, 'conversion of text')
    ctx.nontrivial(sum(v is not None for r in rows for v in r) > 1)


TESTS = [
    Test('copies', dated(COPIES), check_copies, quick=6000),
    Test('operations', dated(OPS), check_operations, quick=15000),
    Test('convert', texts(), check_convert, quick=6000),
]
