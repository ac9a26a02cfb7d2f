"""C23: validation and tuning report what they computed."""
import itertools

import nimble
import numpy as np
from hypothesis import strategies as st
from nimble import Tune, Tuning
from nimble.calculate import performanceFunction

from lib.core import Test, Violation, ensure, missing
from lib.data import TYPES, ensure_same_snapshot, snapshot

N = nimble.exceptions
CALLS = []          # of the recording learners
PRIME = 1009


def guess(seed, args, trained, ident):
    """What the recording learner predicts for the point with this id."""
    h = seed * 7919 + 13
    for k in sorted(args):
        h = (h * 31 + KEYS.get(repr(args[k]), 5)
             * (3 + len(k) + ord(k[0]))) % PRIME
    h = (h + sum((i + 1) * (i + 3) for i in trained) * 17) % PRIME
    return (h * (ident + 5) + ident * ident) % 11


KEYS = {repr(v): 11 + 7 * k for k, v in enumerate(
    list(range(-3, 12)) + ['u', 'v', 'w', None, 0.5, 1.5, [1, 2], [2]])}


class Recorder(nimble.CustomLearner):
    """Records which points it is trained on and its arguments."""
    learnerType = 'regression'

    def train(self, trainX, trainY, a=0, b=0, cc=0, seed=0):
        self.args = {'a': a, 'b': b, 'cc': cc}
        self.seed = seed
        self.ids = [int(trainX[i, 0]) for i in range(len(trainX.points))]
        self.ys = [int(trainY[i, 0]) for i in range(len(trainY.points))]
        CALLS.append(('train', self.args, self.ids, self.ys))

    def apply(self, testX):
        ids = [int(testX[i, 0]) for i in range(len(testX.points))]
        CALLS.append(('apply', self.args, ids, self.ids))
        return nimble.data([[guess(self.seed, self.args, self.ids, i)]
                            for i in ids], useLog=False)


class Growing(Recorder):
    """As above, where further batches can be learned."""
    def incrementalTrain(self, trainX, trainY, a=0, b=0, cc=0, seed=0):
        self.args = {'a': a, 'b': b, 'cc': cc}
        self.ids = self.ids + [int(trainX[i, 0])
                               for i in range(len(trainX.points))]
        CALLS.append(('more', self.args, list(self.ids)))


def column(obj):
    return [obj[i, 0] for i in range(len(obj.points))]


@performanceFunction('min')
def error(known, predicted):
    """Sum of the differences."""
    return sum(abs(k - p) for k, p in zip(column(known), column(predicted)))


@performanceFunction('max')
def hits(known, predicted):
    """Weighted count of the close predictions."""
    return sum((3 if k == p else 1 if abs(k - p) < 4 else 0)
               for k, p in zip(column(known), column(predicted)))


@performanceFunction('max')
def negated(known, predicted):
    """The best is zero."""
    return -error(known, predicted)


def perf_of(name, pairs):
    if name == 'hits':
        return sum((3 if k == p else 1 if abs(k - p) < 4 else 0)
                   for k, p in pairs)
    e = sum(abs(k - p) for k, p in pairs)
    return e if name == 'error' else -e


PERFS = {'error': error, 'hits': hits, 'negated': negated}

values_lists = st.one_of(
    st.lists(st.integers(-3, 11), min_size=1, max_size=4, unique=True),
    st.sampled_from([['u', 'v'], ['w', None, 'u'], [0.5, 1.5, 2], [1],
                     [[1, 2], [2]]]))


@st.composite
def tunings(draw):
    n = draw(st.integers(4, 11))
    grid = draw(st.dictionaries(
        st.sampled_from(['a', 'b', 'cc']),
        st.one_of(st.tuples(st.just(True), values_lists),
                  st.tuples(st.just(True), values_lists),
                  st.tuples(st.just(False), st.sampled_from(
                      [1, 'v', None, [1, 2]]))),
        min_size=1, max_size=3))
    case = {
        'n': n, 'grid': {k: [t, v] for k, (t, v) in grid.items()},
        'y': [draw(st.integers(0, 10)) for _ in range(n)],
        'groups': [draw(st.sampled_from([0, 0, 1, 2, 5, None]))
                   for _ in range(n)],
        'selection': draw(st.sampled_from(
            ['brute force', 'consecutive', 'consecutive', 'bruteForce'])),
        'validation': draw(st.sampled_from(
            ['cross validation', 'cross validation', 'leave one out',
             'leave one group out', 'proportion', 'fraction', 'data',
             'data'])),
        'folds': draw(st.integers(1, n)), 'loops': draw(st.integers(1, 3)),
        'order': draw(st.one_of(st.none(), st.permutations(
            ['a', 'b', 'cc']))),
        'proportion': draw(st.sampled_from([0.25, 0.3, 0.5, 0.75])),
        'perf': draw(st.sampled_from(sorted(PERFS))),
        'where': draw(st.sampled_from(['index', 'npindex', 'name', 'object',
                                       'object', 'object'])),
        'at': draw(st.integers(1, 3)),
        'group_by': draw(st.sampled_from(['index', 'name', 'object'])),
        'xtype': draw(st.sampled_from(TYPES)),
        'ytype': draw(st.sampled_from(TYPES)),
        'names': draw(st.booleans()),
        'mode': draw(st.sampled_from(
            ['train', 'train', 'train', 'apply', 'test', 'self', 'function',
             'self folds'])),
        'nval': draw(st.integers(1, 5)),
        'seed': draw(st.one_of(st.none(), st.integers(0, 99))),
        'global': draw(st.integers(0, 99)),
        'landscape': draw(st.integers(0, 50)),
        'arguments': draw(st.booleans()), 'again': draw(st.booleans())}
    return case


def make_data(case, ids, groups, ys, embed):
    """X with the ids in the first feature, the groups in the second, ..."""
    fn = ['id', 'group', 'noise']
    rows = [[i, g, (i * 7) % 5] for i, g in zip(ids, groups)]
    at = case['at']
    if embed:
        fn.insert(at, 'label')
        for r, y in zip(rows, ys):
            r.insert(at, y)
    x = nimble.data(rows, featureNames=fn, useLog=False,
                    returnType=case['xtype'])
    y = nimble.data([[v] for v in ys], featureNames=['label'],
                    returnType=case['ytype'], useLog=False)
    if case['names']:
        x.points.setNames(['p%d' % i for i in ids], useLog=False)
        y.points.setNames(['p%d' % i for i in ids], useLog=False)
    return x, y


def better(perf, a, b):
    return a < b if perf == 'error' else a > b


def full(args):
    return dict({'a': 0, 'b': 0, 'cc': 0},
                **{k: v for k, v in args.items() if k != 'seed'})


def consecutive(grid, order, loops, value, perf):
    """The argument sets in the order in which they are tried."""
    order = [k for k in (order or grid) if k in grid and grid[k][0]]
    cur = {k: (v[0] if t else v) for k, (t, v) in grid.items()}
    tried, best, top = [], None, None

    def look(args):
        nonlocal best, top
        if args in tried:
            return
        tried.append(dict(args))
        v = value(args)
        if best is None or better(perf, v, top):
            best, top = dict(args), v

    look(cur)
    for _ in range(loops):
        for k in order:
            for v in grid[k][1]:
                look(dict(cur, **{k: v}))
            cur = dict(cur, **{k: best[k]})
        cur = dict(best)
    return tried


def check_tuning(case, ctx):
    """
    tuning with recording learners, everything recomputed from the record;
    non-trivial = at least two argument sets with different performances
    """
    n, grid, perf = case['n'], case['grid'], case['perf']
    ids = list(range(n))
    embed = case['where'] != 'object'
    groups = case['groups']
    if case['xtype'] == 'Sparse' or case['validation'] != \
            'leave one group out':
        groups = [0 if g is None else g for g in groups]
    if all(g is None for g in groups):
        groups = [1] + groups[1:]
    x, y = make_data(case, ids, groups, case['y'], embed)
    nv = case['nval']
    vids = list(range(50, 50 + nv))
    vys = [(case['y'][k % n] + 3 * k) % 11 for k in range(nv)]
    vx, vy = make_data(case, vids, [0] * nv, vys, embed)
    where = {'index': case['at'], 'npindex': np.int64(case['at']),
             'name': 'label'}
    yarg = where.get(case['where'], y)
    vyarg = where.get(case['where'], vy)
    truth = dict(zip(ids, case['y']))
    truth.update(zip(vids, vys))

    val = case['validation']
    kw = {}
    mode = case['mode']
    if mode == 'function':
        # the performance function stands for the default tuning
        val, sel = 'cross validation', 'consecutive'
        case = dict(case, folds=5, loops=1, order=None)
        if n < 5:
            return
        tuning = PERFS[perf]
    else:
        sel = case['selection']
        if val == 'cross validation':
            kw['folds'] = case['folds']
            if case['folds'] == 1:
                kw['folds'] = 2     # nothing to train on otherwise
        elif val == 'leave one group out':
            g = {'index': 1 + (embed and case['at'] == 1), 'name': 'group'}
            kw['foldFeature'] = g.get(case['group_by'])
            if kw['foldFeature'] is None:
                kw['foldFeature'] = x.features.copy('group', useLog=False)
            if len(set(g for g in groups if g is not None)) < 2:
                return              # nothing to train on
        elif val in ('proportion', 'fraction'):
            if int(case['proportion'] * n) < 1:
                return
            kw['proportion'] = case['proportion']
        elif val == 'data':
            kw['validateX'], kw['validateY'] = vx, vyarg
        if sel == 'consecutive':
            kw['loops'] = case['loops']
            if case['order'] is not None:
                kw['order'] = [k for k in case['order']
                               if k in grid and grid[k][0]]
        what_val = val
        if val == 'fraction':
            what_val = kw.pop('proportion')
        tuning = Tuning(sel, what_val, PERFS[perf], **kw)

    args = {k: Tune(list(v)) if t else v for k, (t, v) in grid.items()}
    args['seed'] = case['landscape']
    what = '%s with %s and %s validation %r of %r' % (
        mode, sel, val, {k: v for k, v in kw.items()
                         if not hasattr(v, 'points')}, grid)
    before = [(snapshot(o), o) for o in (x, y, vx, vy)]
    nimble.random.setSeed(case['global'], useLog=False)
    send = {'useLog': False, 'tuning': tuning}
    if case['seed'] is not None:
        send['randomSeed'] = case['seed']
    if case['arguments']:
        send['arguments'] = args
    else:
        send.update(args)
    # another feature set cannot be used with the embedded labels
    tx = vx.copy()
    if embed:
        tx.features.delete('label', useLog=False)

    def act():
        CALLS.clear()
        if mode in ('train', 'function'):
            return nimble.train(Recorder, x, yarg, **send)
        if mode == 'apply':
            return nimble.trainAndApply(Recorder, x, yarg, tx, **send)
        if mode == 'test':
            return nimble.trainAndTest(Recorder, PERFS[perf], x, yarg,
                                       vx, vyarg, **send)
        extra = {}
        if mode == 'self folds':
            extra = {'crossValidationFolds': 2}
        return nimble.trainAndTestOnTrainingData(
            Recorder, PERFS[perf], x, yarg, **send, **extra)

    ret = act()
    calls = list(CALLS)
    for s, o in before:
        ensure_same_snapshot(s, o, what + ' modified its data')

    # ---- the record: validations first, then the final learner
    per_set = []        # (args, [(train ids, test ids)])
    todo = []
    k = 0
    final = None
    cv = val in ('cross validation', 'leave one out', 'leave one group out')
    pending = None
    pairs = []
    for c in calls:
        if c[0] == 'train':
            ensure([truth[i] for i in c[2]] == c[3], what, ': trained with',
                   c[2], 'labelled', c[3])
            ensure(len(set(c[2])) == len(c[2]), what, ': point used twice',
                   c[2])
            pending = c
        else:
            made = [t[1:3] for t in calls[:calls.index(c)]
                    if t[0] == 'train']
            if val != 'data':
                made = [pending[1:3]]
            ensure((c[1], c[3]) in made, what,
                   ': applied a learner other than the one trained')
            pairs.append((c[1], c[3], c[2]))
    trains = [c for c in calls if c[0] == 'train']
    if val == 'leave one out':
        nf = n
    elif val == 'leave one group out':
        nf = len(set(g for g in groups if g is not None))
    elif val == 'cross validation':
        nf = kw.get('folds', 5)
    else:
        nf = 1
    # how many validations were made
    after = {'train': 0, 'function': 0, 'apply': 1, 'test': 1, 'self': 1,
             'self folds': 1 + 2}[mode]
    nval = len(pairs) - after
    ensure(nval > 0 and nval % nf == 0, what, ':', len(pairs),
           'applications with', nf, 'folds')
    sets = [pairs[j:j + nf] for j in range(0, nval, nf)]

    def predictions(a, trained, test):
        return [(truth[i], guess(case['landscape'], a, trained, i))
                for i in test]

    usable = ids
    if val == 'leave one group out':
        usable = [i for i in ids if groups[i] is not None]
    first = None
    tried, results, deep = [], [], []
    for s in sets:
        a = s[0][0]
        ensure(all(p[0] == a for p in s), what, ': mixed arguments', s)
        arrangement = [(sorted(p[1]), sorted(p[2])) for p in s]
        if first is None:
            first = arrangement
        ensure(arrangement == first, what, ': the argument sets were '
               'compared using different folds', first, arrangement)
        tried.append(a)
        got = [predictions(*p) for p in s]
        deep.append([perf_of(perf, g) for g in got])
        results.append(perf_of(perf, [q for g in got for q in g]))
    tests = [t for _, t in first]
    if cv:
        ensure(sorted(i for t in tests for i in t) == usable, what,
               ': folds do not partition the points', tests)
        for tr, te in first:
            ensure(sorted(tr + te) == usable, what, ': trained with', tr,
                   'to predict', te)
        if val == 'leave one group out':
            ensure(sorted(map(tuple, tests)) == sorted(
                tuple(i for i in ids if groups[i] == g)
                for g in set(groups) if g is not None), what,
                ': the folds are not the groups', tests, groups)
        else:
            sizes = sorted(map(len, tests))
            ensure(sizes[-1] - sizes[0] <= 1, what, ': fold sizes', sizes)
    elif val == 'data':
        ensure(first == [(ids, vids)], what, ': validated with', first)
    else:
        tr, te = first[0]
        ensure(sorted(tr + te) == ids and len(te)
               == int(case['proportion'] * n), what, ': holdout', first)

    # ---- the argument sets are the ones documented
    def value(a):
        f = full(a)
        if f in tried:
            return results[tried.index(f)]
        raise Violation('%s: %r was not tried, only %r with %r' % (
            what, a, tried, results))

    if sel == 'consecutive':
        want = consecutive(grid, kw.get('order'), case['loops'], value, perf)
    else:
        keys = list(grid)
        want = [dict(zip(keys, c)) for c in itertools.product(
            *[grid[k][1] if grid[k][0] else [grid[k][1]] for k in keys])]
    ensure([full(w) for w in want] == tried, what, 'tried', tried,
           'expected', want)

    # ---- the best of them is the one used
    best = 0
    for j in range(1, len(results)):
        if better(perf, results[j], results[best]):
            best = j
    chosen = tried[best]
    if val == 'data':
        last = None
    if mode in ('train', 'function'):
        tl = ret
        ensure(full(tl.arguments) == chosen, what, 'trained with',
               tl.arguments, 'the best are', chosen, 'of', tried, results)
        t = tl.tuning
        ensure(t is not None and full(t.bestArguments) == chosen, what,
               'bestArguments', t.bestArguments, 'expected', chosen)
        ensure(t.bestResult == results[best], what, 'bestResult',
               t.bestResult, 'expected', results[best])
        index = sorted(range(len(results)), key=lambda j: results[j],
                       reverse=perf != 'error')
        ensure(list(t.allResults) == [results[j] for j in index], what,
               'allResults', t.allResults, 'expected',
               [results[j] for j in index])
        got = [(r, full(a)) for r, a in zip(t.allResults, t.allArguments)]
        for g in got:
            ensure(g in list(zip(results, tried)), what, 'reported', g)
        ensure(all(a in [g[1] for g in got] for a in tried), what,
               'allArguments', t.allArguments)
        if cv:
            got = list(zip(map(full, t.allArguments), t.deepResults))
            for a, d in got:
                ensure(list(d) == deep[tried.index(a)], what,
                       'deepResults of', a, 'are', d, 'expected',
                       deep[tried.index(a)])
        else:
            ensure(t.deepResults is None, what, 'deepResults',
                   t.deepResults)
        out = column(tl.apply(tx, useLog=False))
        trained = trains[-1][2] if val != 'data' else ids
        ensure(sorted(trained) == ids, what, ': final learner trained on',
               trained)
        ensure(out == [guess(case['landscape'], chosen, trained, i)
                       for i in vids], what, 'predicts', out,
               'not what the best arguments give')
        if case['again'] and mode == 'train':
            saved = (list(t.allResults), list(t.allArguments), t.bestResult)
            nimble.train(Recorder, x, yarg, tuning=tuning, useLog=False,
                         a=Tune([4, 5]), seed=case['landscape'] + 1)  \
                if 'order' not in kw else None
            ensure(saved == (list(t.allResults), list(t.allArguments),
                             t.bestResult), what,
                   'a later use changed the results of the learner')
            ensure(column(tl.apply(tx, useLog=False)) == out, what,
                   'a later use changed the learner')
    else:
        a, trained, tested = pairs[nval]
        ensure(a == chosen and sorted(trained) == ids, what,
               'final learner used', a, 'trained on', trained, 'best is',
               chosen)
        if mode == 'apply':
            ensure(column(ret) == [g for _, g in predictions(
                a, trained, vids)], what, 'returned', column(ret))
        elif mode == 'test':
            ensure(ret == perf_of(perf, predictions(a, trained, vids)),
                   what, 'returned', ret)
        elif mode == 'self':
            ensure(ret == perf_of(perf, predictions(a, trained, ids)),
                   what, 'returned', ret)
        else:
            rest = pairs[nval + 1:]
            ensure(all(p[0] == chosen for p in rest), what,
                   ': cross validated', rest)
            ensure(sorted(i for p in rest for i in p[2]) == ids and
                   all(sorted(p[1] + p[2]) == ids for p in rest), what,
                   ': final folds', rest)
            ensure(ret == perf_of(perf, [q for p in rest
                                         for q in predictions(*p)]), what,
                   'returned', ret)
    if case['seed'] is not None and not (case['again'] and mode == 'train'):
        nimble.random.setSeed(case['global'] + 1, useLog=False)
        act()
        ensure([c[:3] for c in CALLS if c[0] != 'apply' or c[2] != vids
                or val == 'data'] == [c[:3] for c in calls
                                      if c[0] != 'apply' or c[2] != vids
                                      or val == 'data'], what,
               'is not reproducible with randomSeed', case['seed'])
    ctx.label('validation', val)
    ctx.label('selection', sel)
    ctx.label('mode', mode)
    ctx.label('label', case['where'])
    if len(set(results)) > 1:
        ctx.nontrivial()


# ------------------------------------------------------------- trained on data
@st.composite
def searches(draw):
    sel = draw(st.sampled_from(['iterative'] * 6 + ['storm', 'bayesian']))
    nargs = draw(st.integers(1, 3))
    grid = {}
    for k in ['a', 'b', 'cc'][:nargs]:
        grid[k] = draw(st.lists(st.integers(-3, 11), min_size=1, max_size=6,
                                unique=True))
    return {'selection': sel, 'grid': grid,
            'perf': draw(st.sampled_from(
                ['error'] if sel == 'bayesian' else sorted(PERFS))),
            'growing': draw(st.integers(0, 2)) == 0 and sel == 'iterative',
            'max': draw(st.integers(1, 8)),
            'threshold': draw(st.one_of(st.none(), st.none(),
                                        st.integers(0, 20))),
            'n': draw(st.integers(2, 5)), 'nval': draw(st.integers(1, 5)),
            'y': [draw(st.integers(0, 10)) for _ in range(10)],
            'landscape': draw(st.integers(0, 50)),
            'smooth': draw(st.booleans()),
            'seed': draw(st.integers(0, 99))}


class Smooth(Recorder):
    """Predictions that have a single best argument."""
    def apply(self, testX):
        ids = [int(testX[i, 0]) for i in range(len(testX.points))]
        CALLS.append(('apply', self.args, ids, self.ids))
        return nimble.data([[smooth(self.seed, self.args)]] * len(ids),
                           useLog=False)


def smooth(seed, args):
    return sum((args[k] - (seed * (j + 3)) % 9) ** 2
               for j, k in enumerate(sorted(args))) + 1


def climb(grid, score, perf, most, threshold):
    """
    Hill climbing from the middle of every range: each argument moves to its
    better neighbour, with the others at the best found, all at once.  None
    when what is tried is undetermined (ties, or the moves do not combine).
    """
    grid = {k: sorted(v) for k, v in grid.items()}
    at = {k: len(v) // 2 for k, v in grid.items()}

    def args(where):
        return {k: grid[k][j] for k, j in where.items()}

    tried = [args(at)]
    top = score(args(at))
    for _ in range(most - 1):
        if threshold is not None and not better(perf, threshold, top):
            break
        new = dict(at)
        for k, j in at.items():
            near = [(score(args(dict(at, **{k: i}))), i) for i in (j - 1, j + 1)
                    if 0 <= i < len(grid[k])]
            near = [p for p in near if better(perf, p[0], top)]
            if len(near) == 2 and near[0][0] == near[1][0]:
                return None         # either of them
            if len(near) == 2 and better(perf, near[1][0], near[0][0]):
                near = near[1:]
            if near:
                new[k] = near[0][1]
        if new == at:
            break
        tried.append(args(new))
        if not better(perf, score(args(new)), top):
            return None
        at, top = new, score(args(new))
    return tried


def check_search(case, ctx):
    """
    searches that validate with other data: the learner is the best one;
    non-trivial = more than one argument set with different performances
    """
    perf, grid = case['perf'], case['grid']
    n, nv = case['n'], case['nval']
    x = nimble.data([[i, 2 * i] for i in range(n)], useLog=False)
    y = nimble.data([[v] for v in case['y'][:n]], useLog=False)
    vids = list(range(50, 50 + nv))
    vx = nimble.data([[i, i] for i in vids], useLog=False)
    vys = case['y'][5:5 + nv]
    vy = nimble.data([[v] for v in vys], useLog=False)
    before = [(snapshot(o), o) for o in (x, y, vx, vy)]
    learner = Growing if case['growing'] else \
        Smooth if case['smooth'] else Recorder
    what = '%s of %r with %s, maxIterations %d, threshold %r' % (
        case['selection'], grid, learner.__name__, case['max'],
        case['threshold'])
    nimble.random.setSeed(case['seed'], useLog=False)
    CALLS.clear()
    tuning = Tuning(case['selection'], 'data', PERFS[perf],
                    maxIterations=case['max'], validateX=vx, validateY=vy,
                    threshold=case['threshold'])
    tl = nimble.train(learner, x, y, tuning=tuning, useLog=False,
                      seed=case['landscape'],
                      **{k: Tune(list(v)) for k, v in grid.items()})
    for s, o in before:
        ensure_same_snapshot(s, o, what + ' modified its data')
    t = tl.tuning
    ensure(len(t.allResults) == len(t.allArguments)
           and 1 <= len(t.allResults) <= case['max'], what, 'made',
           len(t.allResults), 'validations')
    for a in t.allArguments:
        # this can use any whole number of a linear range
        ensure(all(a[k] in v or case['selection'] == 'bayesian' and
                   len(v) > 2 and min(v) <= a[k] <= max(v)
                   for k, v in grid.items()), what, 'tried', a)

    def score(args):
        a = full(args)
        if learner is Smooth:
            return perf_of(perf, [(k, smooth(case['landscape'], a))
                                  for k in vys])
        return perf_of(perf, [
            (k, guess(case['landscape'], a, list(range(n)), i))
            for i, k in zip(vids, vys)])

    if not case['growing']:
        for a, r in zip(t.allArguments, t.allResults):
            ensure(r == score(a), what, 'reported', r, 'for', a, 'which is',
                   score(a))
    res = list(t.allResults)
    ensure(res == sorted(res, reverse=perf != 'error'), what,
           'results are not in order', res)
    ensure(t.bestResult == res[0], what, 'bestResult', t.bestResult, 'of',
           res)
    ensure((t.bestResult, t.bestArguments) in list(
        zip(t.allResults, t.allArguments)), what, 'bestArguments',
        t.bestArguments)
    ensure(full(tl.arguments) == full(t.bestArguments), what,
           'gave a learner with', tl.arguments, 'best are', t.bestArguments)
    again = tl.test(PERFS[perf], vx, vy, useLog=False)
    ensure(again == t.bestResult, what, ': the learner has performance',
           again, 'reported', t.bestResult)
    if case['selection'] == 'iterative' and not case['growing']:
        want = climb(grid, score, perf, case['max'], case['threshold'])
        if want is not None:
            got = [{k: a[k] for k in grid} for a in t.allArguments]
            ensure(sorted(map(repr, got)) == sorted(map(repr, want)),
                   what, 'tried', got, 'expected', want)
            ctx.label('climb', len(want), len(grid))
    if case['threshold'] is not None:
        th = case['threshold']
        reached = [r for r in res if not better(perf, th, r)]
        ensure(len(reached) <= 1 or case['selection'] == 'iterative'
               and len(reached) <= 1, what, 'continued after', res)
    ctx.label('selection', case['selection'], learner.__name__)
    if len(set(res)) > 1:
        ctx.nontrivial()


@st.composite
def explorations(draw):
    return {'values': draw(st.lists(st.integers(-20, 40), min_size=4,
                                    max_size=9, unique=True)),
            'landscape': draw(st.integers(0, 50)),
            'n': draw(st.integers(30, 40)),
            'seed': draw(st.integers(0, 999))}


def check_explore(case, ctx):
    """
    a bayesian search with many trials considers more than one value and never
    one outside of the range, and gives the best of what it tried; non-trivial
    = always
    """
    vals = case['values']
    x = nimble.data([[i, 2 * i] for i in range(3)], useLog=False)
    y = nimble.data([[0], [1], [2]], useLog=False)
    nimble.random.setSeed(case['seed'], useLog=False)
    CALLS.clear()
    tuning = Tuning('bayesian', 'data', PERFS['error'],
                    maxIterations=case['n'], validateX=x, validateY=y)
    tl = nimble.train(Smooth, x, y, tuning=tuning, useLog=False,
                      seed=case['landscape'], a=Tune(list(vals)))
    tried = [a['a'] for a in tl.tuning.allArguments]
    what = 'bayesian search of %r' % (vals,)
    ensure(len(tried) == case['n'], what, 'tried', tried)
    ensure(len(set(tried)) > 1, what, 'only tried', set(tried))
    ensure(all(v in vals or min(vals) <= v <= max(vals) for v in tried),
           what, 'tried', tried)
    best = [v for v in set(tried) if perf_of('error', [
        (k, smooth(case['landscape'], full({'a': v}))) for k in range(3)])
        == tl.tuning.bestResult]
    ensure(full(tl.arguments)['a'] in best, what, 'gave', tl.arguments,
           'with', tl.tuning.bestResult)
    ctx.nontrivial()


# ------------------------------------------------------------------------ Tune
@st.composite
def tunes(draw):
    kind = draw(st.sampled_from(['values', 'add', 'add', 'multiply',
                                 'range']))
    case = {'kind': kind}
    if kind == 'values':
        case['values'] = draw(values_lists)
    elif kind == 'range':
        case['range'] = [draw(st.integers(-6, 9)), draw(st.integers(-6, 9)),
                         draw(st.sampled_from([1, 1, 2, 3, -1, -2]))]
    elif kind == 'add':
        unit = draw(st.sampled_from([1, 0.5, 0.1, 0.01, 0.25]))
        case.update(unit=unit, start=draw(st.one_of(
            st.none(), st.integers(-9, 9))), end=draw(st.integers(-9, 30)),
            change=draw(st.one_of(st.none(), st.integers(-4, 5))),
            explicit=draw(st.booleans()))
    else:
        case.update(start=draw(st.sampled_from([None, -1, 0, 1, 2, 3, 0.5,
                                                64, 100])),
                    end=draw(st.sampled_from([1, 8, 9, 100, 64, 0.25, 0,
                                              -2])),
                    change=draw(st.sampled_from([None, 2, 3, 10, 0.5, 0.25,
                                                 1, 0, -1])))
    return case


def check_tune(case, ctx):
    """the values of a Tune; non-trivial = a range of several values"""
    kind = case['kind']
    if kind == 'values':
        t = Tune(case['values'])
        ensure(list(t) == case['values'] and len(t) == len(case['values']),
               'Tune(%r) has' % case['values'], list(t))
        return
    if kind == 'range':
        r = range(*case['range'])
        if not len(r):
            ctx.excluded('no values')
            return
        t = Tune(r)
        ensure(list(t) == list(r), 'Tune(%r) has' % (r,), list(t))
        if len(r) > 1:
            ctx.nontrivial()
        return
    kw = {k: case[k] for k in ('start', 'end', 'change')
          if case[k] is not None}
    if kind == 'add':
        kw = {k: v * case['unit'] for k, v in kw.items()}
        s, e = case['start'] or 0, case['end']
        # the default change is 1, whatever the units of the others
        if case['change'] is None:
            u = round(1 / case['unit'])
            c = u
        else:
            c = case['change']
        if case['explicit']:
            kw['changeType'] = 'add'
        legal = s == e or c != 0 and (e > s) == (c > 0)
        want = [(s + k * c) * case['unit']
                for k in range(abs(e - s) // abs(c) + 1)] \
            if c and legal else [s * case['unit']]
    else:
        kw['changeType'] = 'multiply'
        s, e, c = case['start'] or 0, case['end'], case['change'] or 1
        if case['change'] == 0:
            c = 0
        legal = s > 0 and e > 0 and (
            s == e or (c > 1 if e > s else 0 < c < 1))
        want = []
        if legal:
            v = s
            while (v <= e if e > s else v >= e):
                want.append(v)
                if s == e:
                    break
                v *= c
    what = 'Tune(%s)' % ', '.join('%s=%r' % kv for kv in kw.items())
    try:
        t = Tune(**kw)
    except (N.InvalidArgumentValue, N.InvalidArgumentValueCombination):
        ensure(not legal, what, 'was refused')
        ctx.label('refused')
        return
    ensure(legal, what, 'was accepted with', list(t))
    got = list(t)
    ensure(len(got) == len(want) and all(
        abs(a - b) < 1e-9 for a, b in zip(got, want)), what, 'has', got,
        'expected', want)
    ctx.label(kind)
    if len(got) > 1:
        ctx.nontrivial()


# ------------------------------------------------------- Tuning used again

@st.composite
def reuses(draw):
    n = draw(st.integers(5, 9))
    steps = []
    for _ in range(draw(st.integers(2, 3))):
        steps.append({
            'y': [draw(st.integers(0, 10)) for _ in range(n)],
            'perf': draw(st.sampled_from(sorted(PERFS))),
            'mode': draw(st.sampled_from(['test', 'test', 'self', 'self',
                                          'train'])),
            'values': draw(st.lists(st.integers(-3, 11), min_size=2,
                                    max_size=4, unique=True)),
            'b': draw(st.sampled_from([None, 1, [1, 2], [0, 5, 2]])),
            'seed': draw(st.integers(0, 99)),
            'landscape': draw(st.integers(0, 50))})
    return {'n': n, 'steps': steps,
            'own': draw(st.sampled_from([None, None, 'hits', 'error'])),
            'selection': draw(st.sampled_from(
                ['consecutive', 'brute force'])),
            'loops': draw(st.integers(1, 2)),
            'validation': draw(st.sampled_from(
                ['cross validation', 'leave one out', 'proportion']))}


def check_reuse(case, ctx):
    """
    one Tuning object used in several calls, each compared with the same call
    given a new Tuning object; non-trivial = the performance functions differ
    """
    n = case['n']
    kw = {}
    if case['selection'] == 'consecutive':
        kw['loops'] = case['loops']
    if case['validation'] == 'cross validation':
        kw['folds'] = 2
    own = case['own'] and PERFS[case['own']]
    shared = Tuning(case['selection'], case['validation'], own, **kw)

    def act(step, tuning):
        x = nimble.data([[i, i % 3] for i in range(n)], useLog=False)
        y = nimble.data([[v] for v in step['y']], useLog=False)
        args = {'a': Tune(list(step['values'])), 'seed': step['landscape']}
        if step['b'] is not None:
            args['b'] = Tune(step['b']) if isinstance(step['b'], list) \
                else step['b']
        nimble.random.setSeed(7, useLog=False)
        send = {'useLog': False, 'tuning': tuning, 'arguments': args,
                'randomSeed': step['seed']}
        CALLS.clear()
        if step['mode'] == 'train':
            tl = nimble.train(Recorder, x, y, **send)
            ret = (tl.arguments, summary(tl.tuning))
            return ret, list(CALLS), tl
        if step['mode'] == 'self':
            ret = nimble.trainAndTestOnTrainingData(
                Recorder, PERFS[step['perf']], x, y, **send)
        else:
            ret = nimble.trainAndTest(Recorder, PERFS[step['perf']], x, y,
                                      x, y, **send)
        return ret, list(CALLS), None

    def summary(t):
        return (t.bestResult, t.bestArguments, t.allResults, t.allArguments,
                t.deepResults, t.validator.learnerName)

    kept = []
    for k, step in enumerate(case['steps']):
        if step['mode'] == 'train' and own is None:
            continue        # needs a performance function
        what = 'call %d (%r) with the Tuning object used before' % (k, step)
        got, calls, tl = act(step, shared)
        mid = summary(shared)
        new = Tuning(case['selection'], case['validation'], own, **kw)
        want, wcalls, _ = act(step, new)
        ensure(repr(got) == repr(want) and calls == wcalls, what, 'gives', got,
               'but', want, 'with a new one')
        ensure(repr(mid) == repr(summary(new)), what, 'reports', mid, 'but',
               summary(new), 'with a new one')
        if tl is not None:
            kept.append((tl, got, what))
    for tl, got, what in kept:
        ensure(repr((tl.arguments, summary(tl.tuning))) == repr(got), what,
               ': the learner now reports', (tl.arguments,
                                             summary(tl.tuning)),
               'and reported', got)
    used = set(s['perf'] for s in case['steps'])
    ctx.nontrivial(len(used) > 1)
    ctx.label(own and 'own function' or 'function of the call')


TESTS = [
    Test('tuning', tunings(), check_tuning, quick=2600),
    Test('reuse', reuses(), check_reuse, quick=600),
    Test('search', searches(), check_search, quick=1200),
    Test('tune', tunes(), check_tune, quick=800),
    Test('explore', explorations(), check_explore, quick=24),
]
