"""C25: multiclass strategies and scores combine binary results rightly."""
from collections import Counter
from itertools import combinations

import numpy as np
import nimble
from hypothesis import strategies as st

from lib.core import Test, ensure
from lib.data import (TYPES, Table, build_table, ensure_consistent,
                      ensure_same_snapshot, rows_of, snapshot)

N = nimble.exceptions
pick = st.sampled_from


class NearestMean25(nimble.CustomLearner):
    """Label of the nearest mean; exact on small integers."""
    learnerType = 'classification'

    def train(self, trainX, trainY, power=2, form='ova'):
        x = np.array(trainX.copy('pythonlist'), dtype=float)
        y = [r[0] for r in trainY.copy('pythonlist')]
        self.power, self.form = power, form
        self.labels = sorted(set(y))
        self.means = [x[[i for i, v in enumerate(y) if v == lab]].mean(axis=0)
                      for lab in self.labels]

    def sums(self, testX):
        rows = np.array(testX.copy('pythonlist'), dtype=float)
        rows = rows.reshape(len(testX.points), len(testX.features))
        return [[-float((abs(m - r) ** self.power).sum()) for m in self.means]
                for r in rows]

    def apply(self, testX, turn=0):
        ret = []
        for s in self.sums(testX):
            if self.form == 'ovo' and len(s) > 2:
                s = [sum(a > b for b in s) for a in s]
            best = (s.index(max(s)) + turn) % len(s)
            ret.append([self.labels[best]])
        return nimble.data(ret, useLog=False)

    def getScores(self, testX, turn=0):
        ret = []
        for s in self.sums(testX):
            if self.form == 'ova':
                ret.append(s)
            elif len(s) == 2:
                ret.append([s[1] - s[0]])
            else:
                ret.append([a - b for a, b in combinations(s, 2)])
        return nimble.data(ret, useLog=False)


LABELS = [[0, 1, 2], [3, 1, 2], [10, 9, 2, 1], [-1, 5, 0, 7], [1.5, 0.5, 2],
          ['b', 'a', 'c'], ['x10', 'x9', 'y', 'z'], [4, 8], ['n', 'y'],
          [7, 6, 5, 4, 3]]


@st.composite
def datasets(draw, num=st.integers(-9, 9), per=3, maxf=3):
    labs = draw(pick(LABELS))
    f, m = draw(st.integers(1, maxf)), draw(st.integers(1, 4))
    y = list(labs) + draw(st.lists(pick(labs), max_size=per * len(labs)))
    y = draw(st.permutations(y))
    row = st.lists(num, min_size=f, max_size=f)
    return {'y': y, 'x': draw(st.lists(row, min_size=len(y),
                                       max_size=len(y))),
            'test': draw(st.lists(row, min_size=m, max_size=m)),
            'types': [draw(pick(TYPES)) for _ in range(3)],
            'named': draw(pick([None, 'x', 'xy'])),
            'pnames': draw(st.booleans()),
            # where the labels are: separate, or at this position of x
            'embed': draw(st.one_of(st.none(), st.integers(0, f))),
            'neg': draw(st.booleans())}


def settle(d, sk):
    """Only what the learners of scikit-learn accept."""
    if sk:
        d['types'] = ['Matrix' if t == 'Sparse' else t for t in d['types']]
        d['y'] = [int(v * 2) if v in (0.5, 1.5, 2) and 1.5 in d['y'] else v
                  for v in d['y']]
    return d


def assemble(d):
    """trainX, trainY, testX, and the labels by position in trainX."""
    f = len(d['x'][0])
    fn = ['f%d' % i for i in range(f)] if d['named'] else None
    yn = 'label' if d['named'] == 'xy' else None
    strings = any(isinstance(v, str) for v in d['y'])
    kind = [t if not (t == 'Sparse' and strings) else 'Matrix'
            for t in d['types']]
    if d['embed'] is None:
        x = build_table(Table(d['x'], None, fn, f), d['types'][0])
        y = build_table(Table([[v] for v in d['y']], None,
                              [yn] if yn else None, 1), kind[1])
        ident = y
    else:
        at = d['embed']
        rows = [list(r[:at]) + [v] + list(r[at:])
                for r, v in zip(d['x'], d['y'])]
        names = None
        if fn:
            names = fn[:at] + ['label'] + fn[at:]
        x = build_table(Table(rows, None, names, f + 1), kind[0])
        y = None
        ident = 'label' if names and d['named'] == 'xy' else at
    test = build_table(
        Table([list(r) for r in d['test']],
              ['p%d' % i for i in range(len(d['test']))]
              if d['pnames'] else None, fn, f), d['types'][2])
    return x, y, ident, test


def clear(d, k=1):
    """No test point has two nearest points or means of the same distance."""
    for t in d['test']:
        for sub in subsets(d['y']):
            dist = [sum((a - b) ** 2 for a, b in zip(t, r))
                    for r, v in zip(d['x'], d['y']) if v in sub]
            if dist.count(min(dist)) > 1:
                return False
    return True


def subsets(y):
    labs = sorted(set(y))
    return [set(labs)] + [set(p) for p in combinations(labs, 2)]


def plain(d, keep=None, relabel=None):
    """Training objects for the points of some labels, separately built."""
    idx = [i for i, v in enumerate(d['y']) if keep is None or v in keep]
    x = nimble.data([list(d['x'][i]) for i in idx], useLog=False)
    y = nimble.data([[d['y'][i] if relabel is None else
                      int(d['y'][i] == relabel)] for i in idx], useLog=False)
    return x, y


def same_label(a, b):
    if isinstance(a, str) or isinstance(b, str):
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        s, o = (a, b) if isinstance(a, str) else (b, a)
        try:
            return float(s) == float(o)
        except ValueError:
            return False
    return float(a) == float(b)


def label_of(value, labs):
    found = [v for v in labs if same_label(value, v)]
    ensure(len(found) == 1, 'no such label', repr(value))
    return found[0]


# --------------------------------------------------------------- strategies
LEARNERS = [('custom', {'power': 2}), ('custom', {'power': 1}),
            ('nimble.KNNClassifier', {'k': 1}),
            ('sklearn.GaussianNB', {}),
            ('sklearn.KNeighborsClassifier', {'n_neighbors': 1}),
            ('sklearn.RidgeClassifier', {'alpha': 0.5})]


@st.composite
def strategy_cases(draw):
    d = draw(datasets())
    return {'d': d, 'learner': draw(pick(LEARNERS)),
            'strategy': draw(pick(['OneVsAll', 'OneVsOne', 'onevsone',
                                   'ONEVSALL'])),
            'mode': draw(pick([None, None, 'bestScore', 'allScores',
                               'bestscore', 'ALLSCORES', 'getScores'])),
            'entry': draw(pick(['train', 'trainAndApply', 'test'])),
            'turn': draw(pick([None, None, 0, 1])),
            'askw': draw(st.booleans())}


def check_strategies(case, ctx):
    """
    The votes are not unanimous, or there are four or more labels.
    """
    name, args = case['learner']
    d = settle(case['d'], 'sklearn' in name)
    labs = sorted(set(d['y']))
    knn = 'KN' in name
    if knn and not clear(d):
        ctx.excluded('distance tie')
        return
    if name == 'sklearn.GaussianNB' and min(Counter(d['y']).values()) < 2:
        ctx.excluded('no variance in a label')
        return
    learner = NearestMean25 if name == 'custom' else name
    applyArgs = {}
    if name == 'custom' and case['turn'] is not None and (
            case['entry'] == 'train'):
        applyArgs = {'turn': case['turn']}
    ova = case['strategy'].lower() == 'onevsall'

    # the binary learners
    tests = nimble.data([list(r) for r in d['test']], useLog=False)
    votes = [Counter() for _ in d['test']]
    parts = ([(None, lab) for lab in labs] if ova
             else [(pair, None) for pair in combinations(labs, 2)])
    for keep, relabel in parts:
        x, y = plain(d, keep, relabel)
        tl = nimble.train(learner, x, y, dict(args), useLog=False)
        got = tl.apply(tests, dict(applyArgs), useLog=False)
        for i, (v,) in enumerate(rows_of(got)):
            if ova:
                votes[i][relabel] += int(v)
            else:
                votes[i][label_of(v, labs)] += 1

    x, y, ident, test = assemble(d)
    before = snapshot(x), (None if y is None else snapshot(y)), snapshot(test)
    mode = case['mode']
    kwargs = {'multiClassStrategy': case['strategy'], 'useLog': False}
    if case['entry'] == 'test':
        # the performance is that of the predictions
        truth = [d['y'][i % len(d['y'])] for i in range(len(d['test']))]
        testY = nimble.data([[v] for v in truth], useLog=False)
        perf = nimble.trainAndTest(
            learner, nimble.calculate.fractionIncorrect, x, ident, test,
            testY, dict(args), **kwargs)
        low = high = 0
        for v, t in zip(votes, truth):
            best = [lab for lab in labs if v[lab] == max(
                v[k] for k in labs)]
            low += t not in best
            high += t not in best or len(best) > 1
        n = len(truth)
        ensure(low / n - 1e-9 <= perf <= high / n + 1e-9, 'performance', perf,
               low / n, high / n)
        mode = 'none'
    elif case['entry'] == 'train':
        given = {'arguments': dict(args)} if case['askw'] else dict(args)
        tl = nimble.train(learner, x, ident, **given, **kwargs)
        ensure(tl.learnerName == (name.split('.')[-1] if name != 'custom'
                                  else 'NearestMean25'), 'name',
               tl.learnerName)
        call = (dict(applyArgs) if case['askw']
                else {'arguments': dict(applyArgs)})
        if mode == 'getScores':
            ret = tl.getScores(test, **call)
        else:
            ret = tl.apply(test, scoreMode=mode, useLog=False, **call)
    else:
        if mode == 'getScores':
            mode = 'allScores'
        ret = nimble.trainAndApply(learner, x, ident, test, dict(args),
                                   scoreMode=mode, **kwargs)
    low = None if mode is None else mode.lower()
    ctx.label(case['strategy'].lower())
    ctx.label(str(low))
    ctx.nontrivial(len(labs) > 3 or any(
        sum(v > 0 for v in c.values()) > 1 for c in votes))
    if low != 'none':
        ensure_consistent(ret, 'result')
        rows = rows_of(ret)
        ensure(len(rows) == len(d['test']), 'points', len(rows))
    if low in ('allscores', 'getscores'):
        names = ret.features.getNames()
        cols = [label_of(n, labs) for n in names]
        ensure(sorted(cols, key=str) == sorted(labs, key=str), 'columns',
               names)
        for c, row in zip(votes, rows):
            ensure([c[lab] for lab in cols] == [float(v) for v in row],
                   'scores of', cols, row, dict(c))
    elif low in (None, 'bestscore'):
        ensure(len(ret.features) == (1 if low is None else 2), 'shape',
               ret.shape)
        for c, row in zip(votes, rows):
            lab = label_of(row[0], labs)
            top = max(c[k] for k in labs)
            ensure(c[lab] == top, 'label', lab, 'votes', dict(c))
            if low:
                ensure(float(row[1]) == top, 'score', row, dict(c))
    ensure_same_snapshot(before[0], x, 'trainX')
    if y is not None:
        ensure_same_snapshot(before[1], y, 'trainY')
    ensure_same_snapshot(before[2], test, 'testX')


# ------------------------------------------------------------------- scores
SCORERS = [('custom', {'form': 'ova'}), ('custom', {'form': 'ovo'}),
           ('custom', {'form': 'ova', 'power': 1}),
           ('LogisticRegression', {}), ('GaussianNB', {}),
           ('SVC', {}), ('SVC', {'decision_function_shape': 'ovo'}),
           ('RidgeClassifier', {}), ('KNeighborsClassifier',
                                     {'n_neighbors': 1}),
           ('LinearDiscriminantAnalysis', {}),
           ('DecisionTreeClassifier', {'max_depth': 2}),
           ('NearestCentroid', {})]


@st.composite
def score_cases(draw):
    return {'d': draw(datasets(per=4)), 'learner': draw(pick(SCORERS)),
            'mode': draw(pick(['bestScore', 'allScores', 'getScores',
                               'BESTSCORE', 'allscores'])),
            'entry': draw(st.booleans()), 'seed': draw(st.integers(0, 99))}


def sk_class(name):
    from sklearn import (discriminant_analysis, linear_model, naive_bayes,
                         neighbors, svm, tree)
    for mod in (discriminant_analysis, linear_model, naive_bayes, neighbors,
                svm, tree):
        if hasattr(mod, name):
            return getattr(mod, name)
    raise AssertionError(name)


def wins(row, n):
    ret = [0] * n
    for (i, j), v in zip(combinations(range(n), 2), row):
        ret[i] += v > 0
        ret[j] += v < 0
    return [w / (n - 1) for w in ret]


def check_scores(case, ctx):
    """
    Three or more labels, or a single score for two labels.
    """
    name, args = case['learner']
    d = settle(case['d'], name != 'custom')
    labs = sorted(set(d['y']))
    n = len(labs)
    counts = Counter(d['y'])
    if name not in ('custom', 'KNeighborsClassifier') and (
            min(counts.values()) < 2 or len({tuple(r) for r in d['x']}) < 3):
        ctx.excluded('degenerate data')
        return
    if 'KN' in name and not clear(d):
        ctx.excluded('distance tie')
        return
    x, y, ident, test = assemble(d)
    if name == 'custom':
        learner = NearestMean25
        m = NearestMean25()
        px, py = plain(d)
        m.train(px, py, **args)
        t = nimble.data([list(r) for r in d['test']], useLog=False)
        sums = m.sums(t)
        if args['form'] == 'ova':
            expect = sums
        elif n == 2:
            expect = [[a - b, b - a] for a, b in sums]
        else:
            expect = [wins([a - b for a, b in combinations(s, 2)], n)
                      for s in sums]
        predicted = [v for v, in m.apply(t).copy('pythonlist')]
        shape = 'custom ' + args['form']
    else:
        learner = 'sklearn.' + name
        est = sk_class(name)(**args)
        if 'random_state' in est.get_params():
            est.set_params(random_state=case['seed'])
        px = np.array(d['x'], dtype=float)
        pt = np.array(d['test'], dtype=float)
        py = np.array(d['y'])
        try:
            est.fit(px, py)
            predicted = est.predict(pt).tolist()
        except (ValueError, np.linalg.LinAlgError):
            ctx.excluded('not fitted by scikit-learn')
            return
        fn = getattr(est, 'decision_function', None)
        if fn is None:
            fn = getattr(est, 'predict_proba', None)
        if fn is None:
            expect = None
        else:
            raw = np.asarray(fn(pt))
            if raw.ndim == 1:
                expect = [[-v, v] for v in raw.tolist()]
            elif args.get('decision_function_shape') == 'ovo':
                if (np.abs(raw) < 1e-9).any():
                    ctx.excluded('tied pair')
                    return
                expect = [wins(r, n) for r in raw.tolist()]
            else:
                expect = raw.tolist()
        if expect is not None and not np.isfinite(expect).all():
            ctx.excluded('scores not finite')
            return
        shape = name
    ctx.label(shape)
    ctx.label('%d labels' % n)
    mode = case['mode']
    before = snapshot(x), snapshot(test)
    try:
        if case['entry'] or mode == 'getScores':
            tl = nimble.train(learner, x, ident, dict(args),
                              randomSeed=case['seed'], useLog=False)
            if mode == 'getScores':
                ret = tl.getScores(test)
            else:
                ret = tl.apply(test, scoreMode=mode, useLog=False)
        else:
            ret = nimble.trainAndApply(learner, x, ident, test, dict(args),
                                       scoreMode=mode,
                                       randomSeed=case['seed'], useLog=False)
    except (NotImplementedError, AttributeError) as e:
        ensure(expect is None, 'scores refused', repr(e))
        ctx.label('no scores')
        return
    ensure(expect is not None, 'scores from nowhere')
    ctx.nontrivial(n > 2 or name in ('custom', 'LogisticRegression'))
    ensure_consistent(ret, 'result')
    rows = rows_of(ret)
    ensure(len(rows) == len(d['test']), 'points', len(rows))

    def close(a, b):
        return abs(float(a) - b) <= 1e-6 * max(1, abs(b))

    if mode.lower() == 'bestscore':
        ensure(len(ret.features) == 2, 'shape', ret.shape)
        for i, row in enumerate(rows):
            lab = label_of(row[0], labs)
            ensure(lab == label_of(predicted[i], labs), 'label', i, row,
                   predicted[i])
            ensure(close(row[1], expect[i][labs.index(lab)]), 'best score',
                   i, row, expect[i])
        yn = 'label' if d['named'] == 'xy' or (
            d['named'] and d['embed'] is not None) else None
        if yn:
            ensure(ret.features.getNames() == [yn, 'bestScore'], 'names',
                   ret.features.getNames())
    else:
        ensure(len(ret.features) == n, 'shape', ret.shape)
        if mode != 'getScores':
            cols = [label_of(v, labs) for v in ret.features.getNames()]
        else:
            cols = labs
        ensure(sorted(cols) == labs, 'columns', cols)
        for i, row in enumerate(rows):
            for v, lab in zip(row, cols):
                ensure(close(v, expect[i][labs.index(lab)]), 'score', i, lab,
                       row, expect[i])
    if d['pnames'] and mode != 'getScores':
        ensure(ret.points.getNames() == ['p%d' % i for i in range(len(rows))],
               'point names')
    ensure_same_snapshot(before[0], x, 'trainX')
    ensure_same_snapshot(before[1], test, 'testX')


TESTS = [Test('strategies', strategy_cases(), check_strategies, quick=3000),
         Test('scores', score_cases(), check_scores, quick=4500)]
