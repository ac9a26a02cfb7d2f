"""C27: the log records exactly what was done, when enabled."""
import contextlib
import glob
import inspect
import io
import os
import re
import shutil
import sqlite3
import tempfile
from ast import literal_eval
from datetime import datetime, timedelta

import nimble
import numpy as np
import pandas as pd
from hypothesis import strategies as st

from lib import core
from lib.core import Test, Violation, ensure
from lib.data import TYPES, Table, build, nan, snapshot, tables, typed_tables
from lib.ops import OPS, Env, R, Skip, canon, canon_same, choices

N = nimble.exceptions
pick = st.sampled_from


# ------------------------------------------------------------- a log of one's own

@contextlib.contextmanager
def fresh_log(default='False', deep='False'):
    loc = tempfile.mkdtemp(prefix='log-', dir=core.SCRATCH)
    before = {k: nimble.settings.get('logger', k) for k in
              ('location', 'enabledByDefault', 'enableDeepLogging')}
    nimble.settings.set('logger', 'location', loc)
    nimble.settings.set('logger', 'enabledByDefault', default)
    nimble.settings.set('logger', 'enableDeepLogging', deep)
    try:
        yield Log(loc)
    finally:
        for k, v in before.items():
            nimble.settings.set('logger', k, v)
        shutil.rmtree(loc, ignore_errors=True)


class Log:
    """Reads the database, without the code under test."""
    def __init__(self, loc):
        self.loc = loc

    def all(self):
        found = glob.glob(os.path.join(self.loc, '*.db'))
        if not found:
            return []
        with contextlib.closing(sqlite3.connect(found[0])) as c:
            return c.execute('select entry, timestamp, sessionNumber, '
                             'logType, logInfo from logger order by entry'
                             ).fetchall()

    def count(self):
        return len(self.all())

    def since(self, n):
        return [(e[3], literal_eval(clean(e[4]))) for e in self.all()[n:]]

    def date(self, entry, when):
        found = glob.glob(os.path.join(self.loc, '*.db'))
        with contextlib.closing(sqlite3.connect(found[0])) as c:
            c.execute('update logger set timestamp = ? where entry = ?',
                      (when.strftime('%Y-%m-%d %H:%M:%S'), entry))
            c.commit()


def clean(text):
    """A not a number among the values recorded."""
    return re.sub(r'\bnan\b', "'nan'", text)


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()) as out:
        yield out


def ident_of(obj):
    return obj.name if obj.name is not None else obj.logID


# ------------------------------------------------------------ operations on data

def plus_one(v):
    """Of an element."""
    return v + 1


def first_of(v):
    """Of a point or feature."""
    return v[0] * 1.0


def reverse(v):
    """Of a point or feature."""
    return list(v)[::-1]


def positive(v):
    """Of a point or feature."""
    return v[0] > 0


def mapper(point):
    """For mapReduce."""
    return [(point[0], point[1])]


def reducer(key, values):
    """For mapReduce."""
    return (key, sum(values))


def parse(v):
    """For splitByParsing."""
    return [v, v + 1]


TEXTS = {}
TEXTS['lambda v: v + 1'] = [
    lambda v: v + 1][0]
TEXTS['lambda v: [v, 2][0] + 1'] = list((
    lambda v: [v, 2][0] + 1, 'not a part'))[0]
AXTEXTS = {}
AXTEXTS['lambda p: p[0]'] = [
    lambda p: p[0]][0]
AXTEXTS['lambda p: max(p[0], 1)'] = dict(a=
    lambda p: max(p[0], 1), b=2)['a']
LAMBDAS = {id(v): k for d in (TEXTS, AXTEXTS) for k, v in d.items()}


def arg_text(v):
    """How an argument is recorded."""
    if id(v) in LAMBDAS:
        return LAMBDAS[id(v)]
    if callable(v):
        return v.__name__
    if isinstance(v, nimble.core.data.Base):
        return ident_of(v)
    return str(v)


def arguments_of(method, args, kwargs):
    """Those given, by the name of the parameter, where not the default."""
    sig = inspect.signature(method)
    given = sig.bind(*args, **kwargs).arguments
    ret = {}
    for k, v in given.items():
        default = sig.parameters[k].default
        if default is not inspect.Parameter.empty:
            same = v is default
            if not isinstance(v, (np.ndarray, pd.Series)) and not same:
                try:
                    same = bool(v == default)
                except Exception:       # pylint: disable=broad-except
                    same = False
            if same:
                continue
        ret[k] = arg_text(v)
    return ret


class Data:
    """The generated table and how to address it."""
    def __init__(self, r, t, env):
        self.r, self.t, self.env = r, t, env

    def key(self, axis):
        nm = self.t.anames(axis)
        return self.r.ident(nm, self.r.idx(len(nm)))

    def keys(self, axis):
        nm = self.t.anames(axis)
        ks = self.r.idents(nm, self.r.subset(len(nm)))
        how = self.r.k() % 4
        if how == 0 and all(isinstance(k, int) for k in ks):
            return np.array(ks)
        return ks

    def limit(self, axis):
        how = self.r.k() % 3
        return (None if how == 0 else self.key(axis) if how == 1
                else self.keys(axis))

    def other(self, rows, pn=None, fn=None):
        obj = self.env.make(rows, pn, fn)
        if self.r.bool():
            obj.name = 'argument'
        return obj


def maybe(r, kw):
    """Each of the optional arguments given, or not."""
    return {k: v for k, v in kw.items() if r.k() % 3}


def elem_calc(d):
    f = d.r.pick([plus_one] + list(TEXTS.values()))
    return None, 'calculateOnElements', [f], maybe(d.r, {
        'points': d.limit('point'), 'features': d.limit('feature'),
        'preserveZeros': d.r.bool(), 'skipNoneReturnValues': d.r.bool()})


def elem_transform(d):
    f = d.r.pick([plus_one] + list(TEXTS.values()))
    kw = maybe(d.r, {
        'points': d.limit('point'), 'features': d.limit('feature'),
        'preserveZeros': d.r.bool(), 'skipNoneReturnValues': d.r.bool()})
    return None, 'transformElements', [f], kw


def elem_match(d):
    return None, 'matchingElements', [d.r.pick(
        [nimble.match.zero, '>2', '== 1', nimble.match.missing])], maybe(
            d.r, {'points': d.limit('point'),
                  'features': d.limit('feature')})


def flatten(d):
    return None, 'flatten', d.r.pick([[], ['point'], ['feature']]), {}


def group(d):
    return None, 'groupByFeature', [d.key('feature')], maybe(
        d.r, {'countUniqueValueOnly': d.r.bool()})


def merge(d):
    n = d.t.nf
    b = d.other([[1] * n], ['newp'], d.t.fn)
    if d.t.fn is None or any(x is None for x in d.t.fn):
        raise Skip()
    return None, 'merge', [b], {'point': 'union',
                                'feature': d.r.pick(['union', 'left'])}


def binary(d):
    return None, 'replaceFeatureWithBinaryFeatures', [d.key('feature')], {}


def integers(d):
    return None, 'transformFeatureToIntegers', [d.key('feature')], {}


def rectangle(d):
    return None, 'replaceRectangle', [d.r.k(), 0, 0, d.r.idx(d.t.np),
                                      d.r.idx(d.t.nf)], {}


def report(d):
    return None, 'report', [], {}


def sets(d):
    return None, 'trainAndTestSets', [d.r.pick([.5, .25])], maybe(
        d.r, {'labels': d.key('feature'), 'randomOrder': d.r.bool()})


def transpose(d):
    return None, 'transpose', [], {}


def axis_op(f):
    def run(d):
        axis = d.r.pick(['point', 'feature'])
        return (axis + 's',) + tuple(f(d, axis))
    return run


def fitting(d, axis, n):
    """An object that can be added along the axis."""
    off = d.t.anames('feature' if axis == 'point' else 'point')
    t = d.t.along(axis)
    add = Table.back(Table([[d.r.k() for _ in range(t.nf)]
                            for _ in range(n)],
                           ['new%d' % i for i in range(n)],
                           list(off) if any(x is not None for x in off)
                           else None, t.nf), axis)
    if d.r.bool() and add.anames(
            'feature' if axis == 'point' else 'point').count(None) == 0:
        # in another order
        perm = d.r.perm(t.nf)
        if axis == 'point':
            add = Table([[r[j] for j in perm] for r in add.rows], add.pn,
                        [add.fn[j] for j in perm], add.nf)
        else:
            add = Table([add.rows[j] for j in perm],
                        [add.pn[j] for j in perm], add.fn, add.nf)
    return d.other(add.rows, add.pn, add.fn)


def a_append(d, axis):
    return 'append', [fitting(d, axis, 1)], {}


def a_insert(d, axis):
    return 'insert', [d.key(axis), fitting(d, axis, 1 + d.r.k() % 2)], {}


def a_replace(d, axis):
    ks = d.r.subset(d.t.count(axis))
    return 'replace', [fitting(d, axis, len(ks)), ks], {}


def a_calculate(d, axis):
    return 'calculate', [d.r.pick([first_of] + list(AXTEXTS.values()))], (
        maybe(d.r, {axis + 's': d.limit(axis)}))


def a_matching(d, axis):
    return 'matching', [positive], {}


def a_structural(d, axis):
    what = d.r.pick(['copy', 'copy', 'extract', 'delete', 'retain'])
    how = d.r.k() % 5
    n = d.t.count(axis)
    if how == 0:
        return what, [d.key(axis)], {}
    if how == 1:
        return what, [d.keys(axis)], {}
    if how == 2:
        a, b = sorted((d.r.idx(n), d.r.idx(n)))
        return what, [], {'start': a, 'end': b}
    if how == 3:
        return what, [], {'number': 1 + d.r.idx(n)}
    return what, [positive], {}


def a_fill(d, axis):
    return 'fillMatching', [d.r.k(), d.r.pick(
        [0, [0, 1], nimble.match.missing, '>1'])], maybe(
            d.r, {axis + 's': d.limit(axis)})


def a_permute(d, axis):
    n = d.t.count(axis)
    how = d.r.k() % 3
    perm = d.r.perm(n)
    return 'permute', [] if how == 0 else [
        np.array(perm) if how == 1 else perm], {}


def a_repeat(d, axis):
    return 'repeat', [1 + d.r.k() % 3, d.r.bool()], {}


def a_names(d, axis):
    if d.r.bool():
        return 'setNames', [['s%d' % i for i in range(d.t.count(axis))]], {}
    return 'setNames', ['one'], {'oldIdentifiers': d.key(axis)}


def a_sort(d, axis):
    off = 'feature' if axis == 'point' else 'point'
    return 'sort', d.r.pick([[d.key(off)], [first_of]]), maybe(
        d.r, {'reverse': d.r.bool()})


def a_transform(d, axis):
    return 'transform', [reverse], maybe(
        d.r, {axis + 's': d.limit(axis)})


def normalize(d):
    return 'features', 'normalize', [
        d.r.pick([nimble.calculate.meanNormalize,
                  nimble.calculate.meanStandardDeviationNormalize])], maybe(
                      d.r, {'features': d.limit('feature')})


def normalize_both(d):
    b = d.other([[d.r.k() for _ in range(d.t.nf)] for _ in range(2)], None,
                d.t.fn)
    return 'features', 'normalize', [
        nimble.calculate.meanNormalize, b], {}


def freport(d):
    return 'features', 'report', [], maybe(d.r, {'dtypes': d.r.bool()})


def map_reduce(d):
    if d.t.nf < 2:
        raise Skip()
    return 'points', 'mapReduce', [mapper, reducer], {}


def split_parsing(d):
    return 'features', 'splitByParsing', [
        d.key('feature'), parse, ['part1', 'part2']], {}


def collapse(d):
    if any(x is None for x in d.t.fn):
        raise Skip()
    ks = d.r.idents(d.t.fn, d.r.subset(d.t.nf))
    return 'points', 'splitByCollapsingFeatures', [ks, 'kk', 'vv'], {}


def expand(d):
    if d.t.nf < 2:
        raise Skip()
    a, b = d.r.subset(d.t.nf, 2)[:2]
    return 'points', 'combineByExpandingFeatures', [
        d.r.ident(d.t.fn, a), d.r.ident(d.t.fn, b)], {}


LOGGED = [elem_calc, elem_transform, elem_match, flatten, group, merge,
          binary, integers, rectangle, report, sets, transpose, normalize,
          normalize_both, freport, map_reduce, split_parsing, collapse,
          expand] + [axis_op(f) for f in (
              a_append, a_insert, a_replace, a_calculate, a_matching,
              a_structural, a_structural, a_fill, a_permute, a_repeat,
              a_names, a_sort, a_transform)]


@st.composite
def sequences(draw):
    steps = [[draw(st.integers(0, len(LOGGED) - 1)), draw(choices),
              draw(pick([True, True, None, None, False])),
              draw(pick([None, None, 'True', 'False', 'TRUE', 'false']))]
             for _ in range(draw(st.integers(1, 5)))]
    return {'table': draw(tables(kinds=('int', 'float', 'posint'),
                                 min_p=2, min_f=2)),
            'type': draw(pick(TYPES)), 'atype': draw(pick(TYPES)),
            'named': draw(st.booleans()), 'view': draw(st.booleans()),
            'enabled': draw(pick(['True', 'False'])), 'steps': steps}


def outcome(f):
    with quiet() as out:
        try:
            return f(), None, out.getvalue()
        except Exception as e:      # pylint: disable=broad-except
            return None, e, ''


def check_data(case, ctx):
    """
    a sequence of logged operations on objects of one table, with useLog
    given or left to the configuration; non-trivial = at least two succeed
    and at least one of them is logged
    """
    t = Table.of(case['table'])
    enabled = case['enabled']
    done = logged = 0
    with fresh_log(enabled) as log:
        for k, ks, use, setting in case['steps']:
            if setting is not None:
                nimble.settings.set('logger', 'enabledByDefault', setting)
                enabled = setting
            runs = []
            for mode in ('plain', 'logged'):
                o = build(case['table'], case['type'],
                          name='anobject' if case['named'] else None)
                if case['view'] and ks[0] % 2:
                    o = o.view()
                d = Data(R(ks), t, Env(t, case['atype']))
                try:
                    axis, method, args, kwargs = LOGGED[k](d)
                except Skip:
                    break
                m = getattr(getattr(o, axis) if axis else o, method)
                runs.append((mode, o, axis, method, m, args, kwargs))
            if len(runs) < 2:
                ctx.label('does not apply')
                continue
            nimble.random.setSeed(ks[0], useLog=False)
            mode, o, axis, method, m, args, kwargs = runs[0]
            want, fail, out = outcome(lambda: m(*args, **kwargs,
                                                useLog=False))
            content = canon(o)
            what = '%s, %s %r %s%s(%s) useLog=%r, by default %s' % (
                t, case['type'], 'view' if o is not runs[0][1] else '',
                axis + '.' if axis else '', method, ', '.join(
                    [repr(a) for a in args] + ['%s=%r' % i for i in
                                               kwargs.items()]),
                use, enabled)
            n = log.count()
            nimble.random.setSeed(ks[0], useLog=False)
            mode, o, axis, method, m, args, kwargs = runs[1]
            extra = {} if use is None and ks[1] % 2 else {'useLog': use}
            got, e, out2 = outcome(lambda: m(*args, **kwargs, **extra))
            ensure((e is None) == (fail is None), what, ': without logging',
                   repr(fail) or 'no error', ', with', repr(e))
            entries = log.since(n)
            on = use if use is not None else enabled.lower() == 'true'
            if e is not None:
                ensure(not entries, what, ': failed and logged', entries)
                ctx.label('fails')
                continue
            ensure(canon_same(canon(got), canon(want)), what,
                   ': returns with logging', canon(got), ', without',
                   canon(want))
            ensure(canon_same(canon(o), content), what,
                   ': becomes with logging', canon(o), ', without', content)
            ensure(out == out2, what, ': prints', out2, 'for', out)
            done += 1
            if not on:
                ensure(not entries, what, ': logged', entries)
                continue
            logged += 1
            ensure(len(entries) == 1, what, ': entries', entries)
            kind, info = entries[0]
            ctx.label(method)
            if method == 'report':
                ensure(kind == 'report' and info['reportType'] ==
                       ('feature' if axis else 'summary'), what, entries)
                continue
            ensure(kind == 'prep', what, ': an entry of type', kind)
            expect = {
                'identifier': ident_of(o),
                'function': (axis + '.' if axis else '') + method,
                'arguments': arguments_of(m, args, kwargs)}
            if o.name is not None:
                expect['logID'] = o.logID
            if isinstance(got, nimble.core.data.Base):
                expect['returned'] = ident_of(got)
            elif isinstance(got, tuple):
                expect['returned'] = ', '.join(ident_of(x) for x in got)
            elif got is not None:
                expect['returned'] = None
            info.pop('_logIDs', None)
            for key in set(expect) | set(info):
                ensure(expect.get(key, 'nothing') == info.get(key, 'nothing'),
                       what, ': the entry has', key, info.get(key, 'none'),
                       'for', expect.get(key, 'none'))
    ctx.nontrivial(done >= 2 and logged)


# --------------------------------------------------------- nothing when disabled

@st.composite
def silent(draw):
    return {'table': draw(typed_tables(min_p=1, min_f=1, naming=True)),
            'op': draw(pick([o.name for o in OPS])), 'ks': draw(choices),
            'atype': draw(pick(TYPES))}


BYNAME = {o.name: o for o in OPS}


def check_silent(case, ctx):
    """
    an operation with useLog=False, or that is never logged, while logging
    is enabled by default; non-trivial = it succeeds
    """
    tab = case['table']
    rtype = tab['type'] if 'type' in tab else 'List'
    t = Table.of(tab)
    o = build(tab, rtype)
    with fresh_log('True', 'True') as log:
        try:
            with quiet():
                BYNAME[case['op']].run(o, R(case['ks']),
                                       Env(t, case['atype']))
        except Skip:
            ctx.label('does not apply')
            return
        except Exception:       # pylint: disable=broad-except
            ctx.label('fails')
            ensure(log.count() == 0, case['op'], ': failed and logged',
                   log.since(0))
            return
        ensure(log.count() == 0, rtype, t, case['op'],
               ': without logging, logged', log.since(0))
    ctx.label(case['op'])
    ctx.nontrivial(True)


# ------------------------------------------------------------------- learning

class Count27(nimble.CustomLearner):
    """Any number of labels, calls nimble itself."""
    learnerType = 'regression'

    def train(self, trainX, trainY, a=1, b='x'):
        self.n = len(trainX.points) * a
        trainX.points.copy([0])
        nimble.data([[1, 2]])

    def incrementalTrain(self, trainX, trainY):
        self.n += len(trainX.points)

    def apply(self, testX):
        return nimble.data([[self.n + i]
                            for i in range(len(testX.points))],
                           useLog=False)


class Class27(Count27):
    learnerType = 'classification'


def metric(known, predicted):
    """Of the predictions."""
    return sum(abs(a - b) for a, b in zip(known, predicted))


metric27 = nimble.calculate.performanceFunction('min', 0)(metric)

CALLS = ['train', 'trainAndApply', 'trainAndTest',
         'trainAndTestOnTrainingData', 'normalizeData', 'fillMatching',
         'load', 'tl.apply', 'tl.test', 'tl.retrain', 'tl.incrementalTrain',
         'data', 'random', 'setSeed', 'log', 'tl.getScores', 'alternate', 'multi']


@st.composite
def learning(draw):
    steps = [{
        'call': draw(pick(CALLS)), 'use': draw(pick([True, True, None, None,
                                                     False])),
        'setting': draw(pick([None, None, 'True', 'False'])),
        'deep': draw(pick([None, None, 'True', 'False'])),
        'tune': draw(pick([None, None, None, [1, 2], [2, 3, 1]])),
        'validation': draw(pick(['cv', 'cv', 'data', 'proportion'])),
        'multi': draw(pick([None, None, 'OneVsAll', 'OneVsOne'])),
        'y': draw(pick(['name', 'index', 'object'])),
        'seed': draw(pick([None, 0, 0, 7])),
        'args': draw(pick(['kw', 'dict', 'none'])),
        'k': draw(st.integers(1, 3)), 'folds': draw(st.integers(2, 3)),
        'score': draw(pick([None, None, 'bestScore', 'allScores'])),
        'names': draw(st.lists(pick([None, 'one', 'two words', 'é']),
                               min_size=3, max_size=3)),
        'type': draw(pick(TYPES)), 'custom': draw(st.booleans())}
        for _ in range(draw(st.integers(1, 5)))]
    return {'steps': steps, 'enabled': draw(pick(['True', 'False'])),
            'deep': draw(pick(['True', 'False']))}


class Learning:
    """Makes the calls; each gives the entries to expect."""
    def __init__(self, case):
        self.tls = {}
        self.deep = case['deep']
        self.rows = [[1, 0, 5, 0], [2, 1, 3, 1], [9, 2, 2, 2], [8, 0, 1, 2],
                     [3, 5, 7, 1], [1, 1, 1, 0]]

    def data(self, s):
        fn = ['p', 'q', 'r', 'lab']
        whole = build({'rows': self.rows, 'pn': None, 'fn': fn, 'f': 4},
                      s['type'], name=s['names'][0])
        x = build({'rows': [r[:3] for r in self.rows], 'pn': None,
                   'fn': fn[:3], 'f': 3}, s['type'], name=s['names'][0])
        y = build({'rows': [r[3:] for r in self.rows], 'pn': None,
                   'fn': fn[3:], 'f': 1}, s['type'], name=s['names'][1])
        test = build({'rows': [r[:3] for r in self.rows[:4]], 'pn': None,
                      'fn': fn[:3], 'f': 3}, s['type'], name=s['names'][2])
        return whole, x, y, test

    def call(self, s, use):
        whole, x, y, test = self.data(s)
        how = s['y']
        trainX, trainY = {'name': (whole, 'lab'), 'index': (whole, 3),
                          'object': (x, y)}[how]
        learner = Count27 if s['custom'] else 'nimble.KNNClassifier'
        lname = 'custom.Count27' if s['custom'] else learner
        par = 'a' if s['custom'] else 'k'
        extra, args = {}, {par: s['k']}
        if s['args'] == 'kw':
            extra = {par: s['k']}
        elif s['args'] == 'dict':
            extra = {'arguments': {par: s['k']}}
        elif s['custom']:
            args = {}
        else:
            args = extra = {'k': s['k']}
        data = {}
        self.shape(data, 'trainData', 6, 3, whole.name if how != 'object'
                   else x.name)
        self.shape(data, 'trainLabels', 6, 1, None if how != 'object'
                   else y.name)
        multi = s['multi'] if not s['custom'] else None
        strategy = {} if multi is None else {'multiClassStrategy': multi}
        score = s['score'] if not s['custom'] else None
        common = {'useLog': use}
        name = s['call']
        tuning = []
        if name in ('train', 'trainAndApply', 'trainAndTest',
                    'trainAndTestOnTrainingData'):
            seeded = {'randomSeed': s['seed']} if s['seed'] is not None \
                else {}
            if s['tune'] and multi is None:
                extra = {par: nimble.Tune(s['tune'])}
                args = None
                kw = {'folds': s['folds']}
                if s['validation'] == 'data':
                    kw = {'validation': 'data', 'validateX': x,
                          'validateY': y}
                if s['validation'] == 'proportion':
                    kw = {'validation': 0.5}
                extra['tuning'] = nimble.Tuning(
                    performanceFunction=metric_of(s), **kw)
                if self.deep == 'True' and s['validation'] != 'data':
                    tuning += [('deepRun', {'learner': lname}, {})
                               ] * (n_val_of(kw) * len(s['tune']))
                tuning += [('tuning', {
                    'learnerName': lname,
                    'metric': (metric_of(s).optimal,
                               metric_of(s).__name__)},
                            {'tried': sorted(s['tune']), 'par': par})]
        entry = {'function': name, 'learner': lname}
        if name == 'train':
            r = nimble.train(learner, trainX, trainY, **extra, **strategy,
                             **seeded, **common)
            self.tls[s['custom']] = (r, multi)
            entry['returned'] = r.logID
        elif name == 'trainAndApply':
            r = nimble.trainAndApply(learner, trainX, trainY, test,
                                     scoreMode=score, **extra, **strategy,
                                     **seeded, **common)
            self.shape(data, 'testData', 4, 3, test.name)
            entry['returned'] = ident_of(r)
        elif name == 'trainAndTest':
            r = nimble.trainAndTest(learner, metric_of(s), trainX, trainY,
                                    x, y, **extra, **strategy, **seeded,
                                    **common)
            self.shape(data, 'testData', 6, 3, x.name)
            self.shape(data, 'testLabels', 6, 1, y.name)
            entry['metrics'] = {metric_of(s).__name__: r}
        elif name == 'trainAndTestOnTrainingData':
            r = nimble.trainAndTestOnTrainingData(
                learner, metric_of(s), trainX, trainY, **extra, **strategy,
                **seeded, **common)
            entry['metrics'] = {metric_of(s).__name__: r}
        elif name == 'normalizeData':
            nimble.normalizeData(
                'skl.MaxAbsScaler', x, testX=test, **common)
            data = {}
            self.shape(data, 'trainData', 6, 3, x.name)
            self.shape(data, 'testData', 4, 3, test.name)
            entry['learner'] = 'skl.MaxAbsScaler'
            return [('run', entry, data)]
        elif name == 'fillMatching':
            nimble.fillMatching('nimble.KNNImputation', 9, x,
                                mode='regression', k=2, **common)
            data = {}
            self.shape(data, 'trainData', 6, 3, x.name)
            entry['learner'] = 'nimble.KNNImputation'
            entry['arguments'] = {'mode': 'regression', 'k': 2}
            return [('run', entry, data)]
        elif name == 'load':
            if s['custom'] not in self.tls or s['custom']:
                return None
            tl, multi = self.tls[s['custom']]
            path = os.path.join(tempfile.mkdtemp(dir=core.SCRATCH),
                                'tl.pickle')
            tl.save(path)
            r = nimble.loadTrainedLearner(path, **common)
            return [('tl', {'identifier': r.logID,
                            'learnerName': tl.learnerName,
                            'learnerArgs': tl.arguments}, {})]
        elif name.startswith('tl.'):
            if s['custom'] not in self.tls:
                return None
            tl, multi = self.tls[s['custom']]
            entry['function'] = '%s.%s' % (tl.logID, name[3:])
            data = {}
            if name == 'tl.apply':
                r = tl.apply(test, scoreMode=score, **common)
                self.shape(data, 'testData', 4, 3, test.name)
                entry['returned'] = ident_of(r)
            elif name == 'tl.test':
                r = tl.test(metric_of(s), trainX, trainY, **common)
                self.shape(data, 'testData', 6, 3, trainX.name)
                self.shape(data, 'testLabels', 6, 1, None
                           if how != 'object' else y.name)
                entry['metrics'] = {metric_of(s).__name__: r}
            elif name == 'tl.retrain':
                tl.retrain(trainX, trainY, **common)
                self.shape(data, 'trainData', 6, 3, trainX.name)
                self.shape(data, 'trainLabels', 6, 1, None
                           if how != 'object' else y.name)
            elif name == 'tl.incrementalTrain':
                if not s['custom']:
                    return None
                tl.incrementalTrain(trainX, trainY, **common)
                self.shape(data, 'trainData', 6, 3, trainX.name)
                self.shape(data, 'trainLabels', 6, 1, None
                           if how != 'object' else y.name)
            elif name == 'tl.getScores':
                if s['custom']:
                    return None
                tl.getScores(test)
                return []
            return [('run', entry, data)]
        elif name == 'multi':
            tl = nimble.train(Class27, x, y, useLog=False,
                              multiClassStrategy=multi or 'OneVsAll')
            given = {'name': (whole.copy(), 'lab'), 'index': (
                whole.copy(), 3), 'object': (x, y)}[how]
            tl.incrementalTrain(*given, **common)
            data = {}
            self.shape(data, 'trainData', 6, 3, given[0].name)
            self.shape(data, 'trainLabels', 6, 1, None if how != 'object'
                       else y.name)
            return [('run', {'function': tl.logID + '.incrementalTrain',
                             'learner': 'custom.Class27'}, data)]
        elif name == 'data':
            keep = [{}, {'keepPoints': [1]}, {'keepFeatures': [2, 0]},
                    {'keepPoints': [1], 'keepFeatures': [2, 0]}][s['k']]
            r = nimble.data([[1, 2, 3], [4, 5, 6]], returnType=s['type'],
                            name=s['names'][0], **keep, **common)
            ret = {'numPoints': 2 - ('keepPoints' in keep),
                   'numFeatures': len(keep.get('keepFeatures', 'abc')), 'identifier':
                   ident_of(r), 'returnType': s['type']}
            return [('load', ret, {})]
        elif name == 'random':
            r = nimble.random.data(3, 2, 0.5, returnType=s['type'],
                                   name=s['names'][0],
                                   randomSeed=s['seed'], **common)
            ret = {'numPoints': 3, 'numFeatures': 2, 'identifier':
                   ident_of(r), 'sparsity': 0.5}
            if s['seed'] is not None:
                ret['seed'] = s['seed']
            return [('load', ret, {})]
        elif name == 'setSeed':
            nimble.random.setSeed(s['k'], **common)
            return [('setSeed', {'seed': s['k']}, {})]
        elif name == 'alternate':
            with nimble.random.alternateControl(s['k'], **common):
                pass
            return [('setSeed', {'seed': s['k'], 'action':
                                 'entered random.alternateControl'}, {}),
                    ('setSeed', {'seed': s['k'], 'action':
                                 'exited random.alternateControl'}, {})]
        elif name == 'log':
            nimble.log('head %d' % s['k'], {'a': s['names'], 'b': s['k']})
            return [('User - head %d' % s['k'],
                     {'a': s['names'], 'b': s['k']}, {'always': True})]
        if args:
            entry['arguments'] = args
        if s['seed'] is not None:
            entry['randomSeed'] = s['seed']
        return tuning + [('run', entry, data)]

    @staticmethod
    def shape(data, key, p, f, name):
        data[key], data[key + 'Points'] = name, p
        data[key + 'Features'] = f


def n_val_of(kw):
    return kw.get('folds', 1)


def metric_of(s):
    return metric27 if s['custom'] else nimble.calculate.fractionIncorrect


def check_learning(case, ctx):
    """
    a sequence of calls that load, train, apply, test and tune, with useLog
    given or left to the configuration; non-trivial = at least two entries
    are expected
    """
    runner = Learning(case)
    enabled = case['enabled']
    total = 0
    with fresh_log(enabled, case['deep']) as log:
        for s in case['steps']:
            if s['setting']:
                enabled = s['setting']
                nimble.settings.set('logger', 'enabledByDefault', enabled)
            if s['deep']:
                runner.deep = s['deep']
                nimble.settings.set('logger', 'enableDeepLogging', s['deep'])
            n = log.count()
            with quiet():
                want = runner.call(s, s['use'])
            if want is None:
                ctx.label('does not apply')
                continue
            on = (s['use'] if s['use'] is not None
                  else enabled.lower() == 'true')
            what = '%r, by default %s, deep %s' % (s, enabled, runner.deep)
            want = [w for w in want if on or 'always' in w[2]]
            got = log.since(n)
            if ((s['custom'] or s['call'] == 'multi') and enabled.lower() == 'true'
                    and s['call'] != 'data'):
                # the learner itself calls logged operations
                got = [g for g in got if not (
                    (g[0] == 'prep' and g[1]['function'] == 'points.copy')
                    or (g[0] == 'load' and g[1]['numPoints'] == 1))]
            ensure([g[0] for g in got] == [w[0] for w in want], what,
                   ': entries', [(g[0], g[1]) for g in got], 'for',
                   [w[0] for w in want])
            total += len(want)
            for (kind, info), (_, entry, data) in zip(got, want):
                ctx.label(s['call'], kind)
                if kind == 'tuning':
                    tried = sorted(a[data['par']] for _, a in
                                   info['performances'])
                    ensure(tried == data['tried'], what, ': tuning of',
                           tried)
                    data = {}
                if kind.startswith('User'):
                    ensure(info == entry, what, ': logged', info)
                    continue
                expect = dict(entry)
                expect.update(data)
                for key, v in expect.items():
                    ensure(key in info and info[key] == v, what,
                           ': the', kind, 'entry has', key,
                           info.get(key, 'nothing'), 'for', v)
                if kind == 'run' and s['call'] != 'multi':
                    for key in ('trainData', 'trainLabels', 'testData',
                                'testLabels', 'metrics', 'returned'):
                        ensure((key in info) == (key in expect), what,
                               ': the entry', info, 'and', key)
    ctx.nontrivial(total >= 2)


# -------------------------------------------------------------------- showLog

WORDS = ['alpha', 'beta_1', 'be%a', 'Gamma', 'x_y', 'xzy', 'de.ta', 'User',
         'with a space', '100%', 'long ' * 30, 'back']
KINDS27 = ['log', 'log', 'log', 'load', 'prep', 'run', 'tuned', 'report',
           'setSeed']
LEVEL = {'load': 1, 'tl': 1, 'report': 1, 'setSeed': 1, 'prep': 2, 'run': 2,
         'tuning': 2, 'deepRun': 3}
START = datetime(2021, 3, 4, 5, 6, 7)


@st.composite
def shown(draw):
    sessions = [[[draw(pick(KINDS27)), draw(pick(WORDS)), draw(pick(WORDS)),
                  draw(st.integers(0, 3))]
                 for _ in range(draw(st.integers(1, 4)))]
                for _ in range(draw(st.integers(1, 4)))]
    queries = [{
        'level': draw(pick([None, None, 1, 2, 3, 3])),
        'least': draw(pick([None, None, 0, 1, 2])),
        'most': draw(pick([None, None, 1, 2, 3, 9])),
        'start': draw(pick([None, None, None, 0, 5, 9, 20])),
        'end': draw(pick([None, None, None, 1, 6, 10, 30])),
        'form': [draw(pick(['date', 'minute', 'second', 'object']))
                 for _ in range(2)],
        'max': draw(pick([None, None, None, 'None', 1, 2, 5])),
        'text': draw(pick([None, None, None, 'alpha', 'BETA', 'a_1', '%',
                           'x_y', 'be%', 'd.t', 'user', 'run', 'knn',
                           'sessions', '_', '\\', '"'])),
        'regex': draw(st.booleans()),
        'file': draw(pick([None, None, 'w', 'a']))}
        for _ in range(draw(st.integers(1, 3)))]
    return {'sessions': sessions, 'queries': queries,
            'together': draw(st.sampled_from([1, 1, 2, 5])),
            'step': draw(pick([60, 3600, 7201, 86400, 100000]))}


def record(kind, a, b, k):
    """One call that is logged."""
    if kind == 'log':
        nimble.log(a[:40], [b, [b, a], {a: b, 'n': k}, ' '.join([b, a])][k])
    elif kind == 'load':
        nimble.data([[1, 2]], name=a[:40], useLog=True)
    elif kind == 'prep':
        o = nimble.data([[1, 2]], name=a[:40], useLog=False)
        o.points.setNames([b], useLog=True)
    elif kind == 'report':
        nimble.data([[1, 2], [3, 4]], useLog=False).report(useLog=True)
    elif kind == 'setSeed':
        nimble.random.setSeed(k, useLog=True)
    else:
        x = nimble.data([[1, 0], [2, 1], [9, 0], [8, 1]], name=a[:20],
                        useLog=False)
        extra = {'k': 1 + k % 2}
        if kind == 'tuned':
            extra = {'k': nimble.Tune([1, 2]), 'tuning': nimble.Tuning(
                performanceFunction=nimble.calculate.fractionIncorrect,
                folds=2)}
        nimble.train('nimble.KNNClassifier', x, 1, useLog=True, **extra)


def when_arg(when, form):
    """Also the moment that it denotes."""
    if form == 'object':
        return when, when
    fmt = {'date': '%Y-%m-%d', 'minute': '%Y-%m-%d %H:%M',
           'second': '%Y-%m-%d %H:%M:%S'}[form]
    text = when.strftime(fmt)
    return text, datetime.strptime(text, fmt)


def user_words(text):
    """What is shown of a user's entry, without the line breaks."""
    info = literal_eval(text)
    if isinstance(info, dict):
        info = ', '.join('%s=%s' % i for i in info.items())
    return ''.join(str(info).split())


def check_shown(case, ctx):
    """
    several sessions of entries and what showLog gives for filters;
    non-trivial = a query gives some of the entries and not all
    """
    part = False
    with fresh_log('True', 'True') as log, quiet():
        for i, session in enumerate(case['sessions']):
            if i:
                nimble.settings.set('logger', 'location', log.loc)
            n = log.count()
            for step in session:
                record(*step)
            ensure(all(e[2] == i for e in log.all()[n:]), case,
                   ': session numbers', [e[2] for e in log.all()])
        nimble.settings.set('logger', 'enabledByDefault', 'False')
        for e in log.all():
            # several entries can have been made within one second
            log.date(e[0], START + timedelta(
                seconds=case['step'] * (e[0] // case['together'])))
        entries = log.all()
        step = timedelta(seconds=case['step'])
        for q in case['queries']:
            kw = {}
            chosen = list(entries)
            level = 2 if q['level'] is None else q['level']
            if q['level'] is not None:
                kw['levelOfDetail'] = q['level']
            last = entries[-1][2]
            least = 0 if q['least'] is None else q['least']
            most = 1 if q['most'] is None else q['most']
            for k, v in (('leastSessionsAgo', q['least']),
                         ('mostSessionsAgo', q['most'])):
                if v is not None:
                    kw[k] = v
            invalid = most < least
            chosen = [e for e in chosen if last - most < e[2] <= last - least]
            lo = hi = None
            if q['start'] is not None:
                kw['startDate'], lo = when_arg(START + step * q['start'],
                                               q['form'][0])
                chosen = [e for e in chosen if stamp(e) >= lo]
            if q['end'] is not None:
                kw['endDate'], hi = when_arg(START + step * q['end'],
                                             q['form'][1])
                chosen = [e for e in chosen if stamp(e) <= hi]
            if lo is not None and hi is not None and lo > hi:
                invalid = True
            text = q['text']
            if text is not None:
                kw['searchForText'] = text
                if q['regex'] and text != '\\':
                    kw['regex'] = True
                    chosen = [e for e in chosen if re.search(text, e[3])
                              or re.search(text, e[4])]
                else:
                    low = text.lower()
                    chosen = [e for e in chosen if low in e[3].lower()
                              or low in e[4].lower()]
            if q['max'] == 'None':
                kw['maximumEntries'] = None
            elif q['max'] is not None:
                kw['maximumEntries'] = q['max']
                chosen = chosen[-q['max']:]
            what = 'showLog(%r) of %r' % (kw, [e[1:] for e in entries])
            with quiet() as out:
                try:
                    nimble.showLog(**kw)
                    failed = None
                except Exception as e:      # pylint: disable=broad-except
                    failed = e
            if invalid:
                ensure(isinstance(failed, N.InvalidArgumentValueCombination),
                       what, ': gives', repr(failed))
                ctx.label('refused')
                continue
            ensure(failed is None, what, ': raises', repr(failed))
            text = out.getvalue()
            check_text(text, chosen, level, what)
            if q['file']:
                path = os.path.join(log.loc, 'shown.txt')
                before = ''
                if os.path.exists(path):
                    with open(path, encoding='utf-8') as f:
                        before = f.read()
                with quiet() as out:
                    nimble.showLog(saveToFileName='shown.txt',
                                   append=q['file'] == 'a', **kw)
                ensure(not out.getvalue(), what, ': prints')
                with open(path, encoding='utf-8') as f:
                    after = f.read()
                if q['file'] == 'w':
                    ensure(after == text[:-1], what, ': saves', after,
                           'and prints', text)
                else:
                    ensure(after.startswith(before), what,
                           ': append changed the file')
                    check_text(after[len(before):], chosen, level, what,
                               title=False)
                ctx.label('saved')
            ensure(log.all() == entries, what, ': changes the log')
            if chosen and len(chosen) < len(entries):
                part = True
            for k in kw:
                ctx.label(k)
    ctx.nontrivial(part)


def stamp(e):
    return datetime.strptime(e[1], '%Y-%m-%d %H:%M:%S')


def check_text(text, chosen, level, what, title=True):
    """The sessions and entries, in order, and the words of the user."""
    ensure(('NIMBLE LOGS' in text) == title, what, ': the title', text)
    found = re.findall(r'SESSION (\d+) +\.$|(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)$',
                       text, re.M)
    got = [int(a) if a else b for a, b in found]
    want, session = [], None
    for e in chosen:
        if e[2] != session:
            want.append(e[2])
            session = e[2]
        if LEVEL.get(e[3], 1) <= level:
            want.append(e[1])
    ensure(got == want, what, ': shows', got, 'for', want, text)
    parts = re.split(r'(\d{4}-\d\d-\d\d \d\d:\d\d:\d\d)\n', text)
    shown_ = [e for e in chosen if LEVEL.get(e[3], 1) <= level]
    for e, head, body in zip(shown_, parts[0::2], parts[2::2]):
        if e[3].startswith('User - '):
            ensure(head.rstrip(' ').endswith(e[3].rstrip(' ')), what,
                   ': the heading', head, 'of', e)
            body = ''.join(body.split())
            ensure(body.startswith(user_words(e[4])), what, ': shows', body,
                   'for', e)
        elif e[3] in ('load', 'prep'):
            name = literal_eval(e[4])['identifier']
            ensure(name in head, what, ': the entry', head, 'for', e)


TESTS = [Test('data', sequences(), check_data, quick=1500),
         Test('silent', silent(), check_silent, quick=2500),
         Test('learning', learning(), check_learning, quick=500),
         Test('shown', shown(), check_shown, quick=500)]
