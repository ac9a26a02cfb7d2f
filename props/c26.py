"""C26: a trained learner keeps its meaning over its life."""
import io
import json
import os
import shutil
import subprocess
import sys
import tempfile

import cloudpickle
import nimble
from hypothesis import strategies as st

from lib import core
from lib.core import Test, ensure, same
from lib.data import (TYPES, Table, build_table, ensure_same_snapshot,
                      rows_of, snapshot)

N = nimble.exceptions
pick = st.sampled_from


class History26(nimble.CustomLearner):
    """Predictions are a function of everything given, in order."""
    learnerType = 'regression'

    def train(self, trainX, trainY, k=1, bias=0):
        self.state = [batch(trainX, trainY, k, bias)]

    def incrementalTrain(self, trainX, trainY, bias=0):
        self.state.append(batch(trainX, trainY, 0, bias))

    def apply(self, testX, turn=0, flip=1):
        return nimble.data([[predicted(self.state, r, turn, flip)] for r in
                            testX.copy('pythonlist')], useLog=False)


class Online26(nimble.CustomLearner):
    """No train method of its own."""
    learnerType = 'regression'

    def incrementalTrain(self, trainX, trainY, bias=0):
        if not hasattr(self, 'state'):
            self.state = []
        self.state.append(batch(trainX, trainY, 0, bias))

    def apply(self, testX, turn=0, flip=1):
        return nimble.data([[predicted(self.state, r, turn, flip)] for r in
                            testX.copy('pythonlist')], useLog=False)


class Needy26(nimble.CustomLearner):
    """An argument without a default."""
    learnerType = 'regression'

    def train(self, trainX, trainY, k, bias=0):
        self.state = [batch(trainX, trainY, k, bias)]

    def apply(self, testX, turn=0, flip=1):
        return nimble.data([[predicted(self.state, r, turn, flip)] for r in
                            testX.copy('pythonlist')], useLog=False)


class Means26(nimble.CustomLearner):
    """Nearest mean, of all of the batches."""
    learnerType = 'classification'

    def train(self, trainX, trainY, power=2):
        self.power = power
        self.sums = {}
        self.incrementalTrain(trainX, trainY)

    def incrementalTrain(self, trainX, trainY):
        add_sums(self.sums, trainX.copy('pythonlist'),
                 [r[0] for r in trainY.copy('pythonlist')])

    def apply(self, testX):
        return nimble.data([[nearest(self.sums, r, self.power)] for r in
                            testX.copy('pythonlist')], useLog=False)


def add_sums(sums, x, y):
    for r, v in zip(x, y):
        n, old = sums.get(v, (0, [0] * len(r)))
        sums[v] = (n + 1, [a + b for a, b in zip(old, r)])


def nearest(sums, row, power):
    best = None
    for lab in sorted(sums, key=str):
        n, tot = sums[lab]
        dist = sum(abs(t / n - v) ** power for t, v in zip(tot, row))
        if best is None or dist < best[0] - 1e-9:
            best = (dist, lab)
    return best[1]


def batch(x, y, k, bias):
    total = sum((i + 1) * (j + 2) * v
                for i, r in enumerate(x.copy('pythonlist'))
                for j, v in enumerate(r))
    labels = sum((i + 1) * r[0] for i, r in enumerate(y.copy('pythonlist')))
    return [float(total), float(labels), float(k), float(bias)]


def predicted(state, row, turn, flip):
    value = sum((j + 1) * v for j, v in enumerate(row))
    for i, (total, labels, k, bias) in enumerate(state):
        value += (i + 1) * (total * 3 + labels * 7) + k * 1000 + bias * 10000
    return flip * (value + turn * 0.5)


# learner, arguments by name, whether random, labels allowed
LEARNERS = {
    'History': (History26, {'k': [1, 2, 3], 'bias': [0, 1], 'turn': [1, 2],
                            'flip': [-1, 1]}, 'num'),
    'Online': (Online26, {'bias': [0, 1, 2], 'turn': [1, 2]}, 'num'),
    'Needy': (Needy26, {'k': [1, 2, 3], 'bias': [0, 1]}, 'num'),
    'Means': (Means26, {'power': [1, 2, 4]}, 'any'),
    'MeansOVA': (Means26, {'power': [1, 2, 4]}, 'three'),
    'MeansOVO': (Means26, {'power': [1, 2, 4]}, 'three'),
    'KNN': ('nimble.KNNClassifier', {'k': [1, 2, 3]}, 'any'),
    'Ridge': ('nimble.RidgeRegression', {'lamb': [0.5, 1, 4]}, 'num'),
    'skRidge': ('sklearn.Ridge', {'alpha': [0.5, 1, 4],
                                  'fit_intercept': [True, False]}, 'num'),
    'skTree': ('sklearn.DecisionTreeClassifier',
               {'max_depth': [1, 2, 3], 'max_features': [1],
                'min_samples_leaf': [1, 2]}, 'any'),
    'skKNN': ('sklearn.KNeighborsClassifier',
              {'n_neighbors': [1, 2], 'weights': ['uniform', 'distance']},
              'any'),
    'skBag': ('sklearn.BaggingRegressor',
              {'n_estimators': [1, 2], 'bootstrap': [True, False],
               'estimator': ['Init']}, 'num'),
    'skScaler': ('sklearn.StandardScaler', {'with_mean': [True, False],
                                            'with_std': [True, False]}, None),
}


@st.composite
def life_cases(draw):
    name = draw(pick(sorted(LEARNERS)))
    f = draw(st.integers(1, 3))
    widths = [f, f, draw(st.integers(1, 3))]
    sets = []
    kind = LEARNERS[name][2]
    labs = {'num': [0, 1, 2, 5], 'any': draw(pick([[0, 1, 2], ['a', 'b']])),
            'three': draw(pick([[2, 0, 1], ['b', 'c', 'a'], [4, 3]])),
            None: [0]}[kind]
    for w in widths:
        n = draw(st.integers(3, 6))
        row = st.lists(st.integers(-5, 5), min_size=w, max_size=w)
        y = draw(st.lists(pick(labs), min_size=n, max_size=n))
        if kind == 'three':
            y = (labs + y)[:max(n, len(labs))]
        sets.append({
            'x': draw(st.lists(row, min_size=len(y), max_size=len(y))),
            'y': y, 'w': w, 'types': [draw(pick(TYPES)) for _ in range(2)],
            'yname': draw(pick([None, 'lab', 'other'])),
            'how': draw(pick(['obj', 'obj', 'index', 'name'])),
            'test': draw(st.lists(row, min_size=2, max_size=3))})
    n = draw(st.integers(1, 6))
    ops = []
    for _ in range(n):
        op = draw(pick(['retrain', 'retrain', 'incremental', 'save', 'copy',
                        'apply', 'test', 'bad retrain', 'bad incremental',
                        'mutate', 'attributes', 'scores', 'retrain']))
        ops.append({'op': op, 'set': draw(st.integers(0, 2)),
                    'args': draw(arguments(name)), 'kw': draw(st.booleans()),
                    'which': draw(st.integers(0, 2)),
                    'seed': draw(st.one_of(st.none(), st.integers(0, 50))),
                    'how': draw(st.integers(0, 2)),
                    'type': draw(pick(TYPES))})
    return {'learner': name, 'sets': sets, 'args': draw(arguments(name)),
            'seed': draw(st.one_of(st.none(), st.integers(0, 50))),
            'ops': ops}


@st.composite
def arguments(draw, name):
    space = LEARNERS[name][1]
    names = draw(st.lists(pick(sorted(space)), unique=True, max_size=2))
    return {n: draw(pick(space[n])) for n in names}


def real(args):
    ret = {}
    for k, v in args.items():
        ret[k] = nimble.Init('DecisionTreeRegressor', max_depth=1,
                             random_state=3) if v == 'Init' else v
    return ret


def same_args(a, b):
    if set(a) != set(b):
        return False
    for k in a:
        if isinstance(a[k], nimble.Init):
            if not (isinstance(b[k], nimble.Init) or b[k] == 'Init'):
                return False
        elif a[k] != b[k] or type(a[k]) is not type(b[k]):
            return False
    return True


def objects(s, kind):
    """trainX and trainY arguments."""
    rows, w = s['x'], s['w']
    strings = any(isinstance(v, str) for v in s['y'])
    if kind is None:
        return build_table(Table(rows, None, None, w), s['types'][0]), None
    if s['how'] == 'obj':
        return (build_table(Table(rows, None, None, w), s['types'][0]),
                build_table(Table([[v] for v in s['y']], None,
                                  [s['yname']] if s['yname'] else None, 1),
                            'Matrix' if strings and s['types'][1] == 'Sparse'
                            else s['types'][1]))
    rows = [[v] + list(r) for r, v in zip(rows, s['y'])]
    fn = [s['yname'] or 'l'] + ['f%d' % i for i in range(w)]
    x = build_table(Table(rows, None, fn, w + 1),
                    'Matrix' if strings and s['types'][0] == 'Sparse'
                    else s['types'][0])
    return x, (0 if s['how'] == 'index' else fn[0])


def label_name(s):
    return s['yname'] if s['how'] == 'obj' else (s['yname'] or 'l')


class Model:
    """What a trained learner should be."""
    def __init__(self, name, s, args, seed):
        self.name, self.args, self.seed = name, dict(args), seed
        self.first, self.batches = s, []
        self.labels = s

    def copy(self):
        ret = Model(self.name, self.first, self.args, self.seed)
        ret.batches = list(self.batches)
        return ret


def clean(s):
    """Fresh, separate objects with the labels apart."""
    x = nimble.data([list(r) for r in s['x']], useLog=False)
    y = nimble.data([[v] for v in s['y']], useLog=False)
    return x, y


def expected(model, rows, given=None):
    """Predictions of a reference for these rows."""
    name = model.name
    learner, _, kind = LEARNERS[name]
    args = model.args
    if learner in (History26, Online26, Needy26):
        state = [batch(*clean(model.first), args.get('k', 1)
                       if learner is not Online26 else 0,
                       args.get('bias', 0))]
        for s, bias in model.batches:
            state.append(batch(*clean(s), 0, bias))
        use = dict(args)
        use.update(given or {})
        return [[predicted(state, r, use.get('turn', 0), use.get('flip', 1))]
                for r in rows]
    if learner is Means26 and name == 'Means':
        sums = {}
        for s in [model.first] + [b for b, _ in model.batches]:
            add_sums(sums, s['x'], s['y'])
        return [[nearest(sums, r, args.get('power', 2))] for r in rows]
    if learner is Means26:
        return None # see strategy_votes
    x, y = clean(model.first)
    if kind is None:
        y = None
    tl = nimble.train(learner, x, y, real(args), randomSeed=model.seed,
                      useLog=False)
    return rows_of(tl.apply(nimble.data([list(r) for r in rows],
                                        useLog=False), useLog=False))


def strategy_votes(model, row):
    """The labels with the most votes."""
    sets = [model.first] + [b for b, _ in model.batches]
    labs = sorted(set(model.first['y']))
    power = model.args.get('power', 2)
    votes = dict.fromkeys(labs, 0)
    for i, a in enumerate(labs):
        if model.name == 'MeansOVA':
            sums = {}
            for s in sets:
                add_sums(sums, s['x'], [int(v == a) for v in s['y']])
            votes[a] += nearest(sums, row, power)
            continue
        for b in labs[i + 1:]:
            sums = {}
            for s in sets:
                keep = [j for j, v in enumerate(s['y']) if v in (a, b)]
                add_sums(sums, [s['x'][j] for j in keep],
                         [s['y'][j] for j in keep])
            votes[nearest(sums, row, power)] += 1
    return [v for v in labs if votes[v] == max(votes.values())]


def verify(tl, model, what, kind='Matrix', given=None):
    s = model.labels
    rows = s['test']
    obj = build_table(Table(rows, ['t%d' % i for i in range(len(rows))],
                            None, s['w']), kind)
    before = snapshot(obj)
    got = tl.apply(obj, arguments=dict(given) if given else None,
                   useLog=False)
    ensure_same_snapshot(before, obj, 'testX')
    expect = expected(model, rows, given)
    vals = rows_of(got)
    ensure(len(vals) == len(rows), what, 'points', len(vals))
    for i, r in enumerate(vals):
        if expect is None:
            ensure(any(same(r[0], v) for v in strategy_votes(model, rows[i])),
                   what, 'prediction', i, r, strategy_votes(model, rows[i]))
            continue
        ensure(len(r) == len(expect[i]) and all(
            near(a, b) for a, b in zip(r, expect[i])), what, 'prediction', i,
            r, 'expected', expect[i])
    if expect is not None and LEARNERS[model.name][2] is not None:
        want = label_name(s)
        names = got.features._getNamesNoGeneration()
        names = None if names is None else list(names)
        ensure((names or [None]) == [want], what, 'feature name', names, want)
    ensure(got.points.getNames() == ['t%d' % i for i in range(len(rows))]
           or expect is None, what, 'point names', got.points.getNames())
    ensure(same_args(tl.arguments, real(model.args)), what, 'arguments',
           tl.arguments, model.args)
    if model.seed is not None:
        ensure(tl.randomSeed == model.seed, what, 'seed', tl.randomSeed,
               model.seed)
    learner = LEARNERS[model.name][0]
    ensure(tl.learnerName == (learner.split('.')[1] if isinstance(
        learner, str) else learner.__name__), what, 'name', tl.learnerName)
    ensure(tl.tuning is None, what, 'tuning')


def near(a, b):
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    return abs(a - b) <= 1e-7 * max(1, abs(a), abs(b))


def check_life(case, ctx):
    """
    The learner is retrained or incrementally trained, or there are two of it.
    """
    name = case['learner']
    learner, space, kind = LEARNERS[name]
    sets = case['sets']
    args = dict(case['args'])
    if name == 'Needy':
        args.setdefault('k', 2)
    if name == 'Ridge':
        args.setdefault('lamb', 2)
    if name.startswith('sk'):
        # mixing sparse and dense data is not for all of scikit-learn
        for s in sets:
            s['types'] = ['Matrix' if t == 'Sparse' else t
                          for t in s['types']]
        for op in case['ops']:
            op['type'] = 'List' if op['type'] == 'Sparse' else op['type']
    if name == 'skKNN':
        args.setdefault('n_neighbors', 2)
    strategy = {'MeansOVA': 'OneVsAll', 'MeansOVO': 'OneVsOne'}.get(name)
    x, y = objects(sets[0], kind)
    before = snapshot(x)
    mine = real(args)
    tl = nimble.train(learner, x, y, mine, multiClassStrategy=strategy,
                      randomSeed=case['seed'], useLog=False)
    ensure_same_snapshot(before, x, 'trainX')
    ensure(same_args(mine, real(args)), 'given arguments changed', mine)
    mine['k2'] = 3 # of the caller
    model = Model(name, sets[0], args, case['seed'])
    if case['seed'] is None:
        model.seed = tl.randomSeed
    verify(tl, model, 'train')
    lives = [(tl, model)]
    ctx.label(name)
    interesting = False
    for op in case['ops']:
        i = op['which'] % len(lives)
        tl, model = lives[i]
        s = sets[op['set']]
        what = op['op']
        ctx.label(what)
        x, y = objects(s, kind)
        if y is None:
            given_y = {}
        else:
            given_y = {'trainY': y}
        before = snapshot(x)
        if what == 'retrain':
            new = dict(op['args'])
            given = real(new)
            call = given if op['kw'] else {'arguments': given}
            tl.retrain(x, randomSeed=op['seed'], useLog=False, **given_y,
                       **call)
            ensure(same_args(given, real(new)), 'given arguments changed')
            merged = dict(model.args)
            merged.update(new)
            model = Model(name, s, merged, op['seed'])
            if op['seed'] is None:
                model.seed = tl.randomSeed
            lives[i] = (tl, model)
            interesting = True
        elif what == 'bad retrain':
            try:
                if op['how'] == 0:
                    tl.retrain(x, arguments={'nope': 1, **real(op['args'])},
                               randomSeed=op['seed'], useLog=False, **given_y)
                elif op['how'] == 1 and op['args']:
                    arg = sorted(op['args'])[0]
                    tl.retrain(x, arguments={**real(op['args']),
                                             arg: nimble.Tune([1, 2])},
                               randomSeed=op['seed'], useLog=False, **given_y)
                else:
                    # not the same number of points
                    other = nimble.data([[1], [2]], useLog=False)
                    tl.retrain(x if kind is None else clean(s)[0], other
                               if kind is not None else None,
                               arguments={'nope': 1} if kind is None
                               else real(op['args']),
                               randomSeed=op['seed'], useLog=False)
                ensure(False, 'invalid retrain accepted')
            except N.NimbleException:
                pass
        elif what == 'incremental':
            if not hasattr(learner, 'incrementalTrain') or name == 'Needy':
                try:
                    tl.incrementalTrain(x, useLog=False, **given_y)
                    ensure(False, 'incrementalTrain accepted')
                except (N.NimbleException, NotImplementedError):
                    pass
            elif s['w'] != model.first['w'] or (
                    strategy and not set(s['y']) <= set(model.first['y'])):
                ctx.excluded('other features or labels in increment')
            else:
                tl.incrementalTrain(x, useLog=False, randomSeed=op['seed'],
                                    **given_y)
                model.batches.append((s, model.args.get('bias', 0)))
                interesting = True
        elif what == 'bad incremental':
            try:
                tl.incrementalTrain(clean(s)[0], nimble.data(
                    [[1], [2]], useLog=False), useLog=False)
                ensure(False, 'invalid incrementalTrain accepted')
            except (N.NimbleException, NotImplementedError):
                pass
        elif what in ('save', 'copy'):
            if what == 'copy':
                new = cloudpickle.loads(cloudpickle.dumps(tl))
            else:
                fd, path = tempfile.mkstemp(dir=core.SCRATCH, suffix='.tl')
                os.close(fd)
                os.remove(path)
                if op['how'] == 1:
                    path = path[:-3]
                try:
                    tl.save(path)
                    if op['how'] == 1:
                        path += '.pickle'
                    if op['how'] == 2:
                        with open(path, 'rb') as f:
                            new = nimble.loadTrainedLearner(
                                io.BytesIO(f.read()), useLog=False)
                    else:
                        new = nimble.loadTrainedLearner(path, useLog=False)
                finally:
                    os.remove(path)
            ensure(type(new) is type(tl), 'type', type(new))
            if len(lives) < 3:
                lives.append((new, model.copy()))
            else:
                lives[i] = (new, model)
            interesting = True
        elif what == 'apply':
            given = {k: v for k, v in op['args'].items()
                     if k in ('turn', 'flip')}
            verify(tl, model, 'apply', op['type'], given)
        elif what == 'test':
            rows = model.labels['test']
            expect = expected(model, rows)
            if expect is not None and kind is not None:
                known = [e[0] for e in expect]
                if op['how'] == 0:
                    known[0] = model.labels['y'][0]
                bad = [not near(a, e[0]) for a, e in zip(known, expect)]
                t = nimble.data([list(r) for r in rows], useLog=False)
                ky = nimble.data([[v] for v in known], useLog=False)
                perf = tl.test(nimble.calculate.fractionIncorrect, t, ky,
                               useLog=False)
                if all(float(v).is_integer() if not isinstance(v, str)
                       else True for v in known):
                    ensure(abs(perf - sum(bad) / len(bad)) < 1e-9, 'test',
                           perf, bad)
        elif what == 'mutate':
            # a change to the reported results has no effect on the learner
            r = tl.apply(nimble.data([list(r) for r in model.labels['test']],
                                     useLog=False), useLog=False)
            r.transformElements(lambda v: None, useLog=False)
        elif what == 'attributes':
            attrs = tl.getAttributes()
            for k, v in real(model.args).items():
                if k in attrs and not isinstance(v, nimble.Init):
                    ensure(attrs[k] == v, 'attribute', k, attrs[k], v)
        elif what == 'scores' and learner in ('sklearn.KNeighborsClassifier',
                                              'nimble.KNNClassifier'):
            t = nimble.data([list(r) for r in model.labels['test']],
                            useLog=False)
            sc = tl.getScores(t)
            ensure(len(sc.features) == len(set(model.labels['y'])), 'scores',
                   sc.shape)
        ensure_same_snapshot(before, x, what + ' trainX')
        for j, (t, m) in enumerate(lives):
            verify(t, m, '%s, learner %d of %d' % (what, j, len(lives)))
    ctx.nontrivial(interesting)


CHILD = """
import json, sys, nimble
spec = json.load(open(sys.argv[1]))
out = []
for path, rows in spec:
    tl = nimble.loadTrainedLearner(path, useLog=False)
    r = tl.apply(nimble.data(rows, useLog=False), useLog=False)
    out.append([r.copy('pythonlist'), r.features._getNamesNoGeneration(),
                sorted(tl.arguments), tl.randomSeed, tl.learnerName])
json.dump(out, open(sys.argv[1] + '.out', 'w'))
"""


@st.composite
def process_cases(draw):
    ret = []
    for _ in range(draw(st.integers(1, 5))):
        case = draw(life_cases())
        while LEARNERS[case['learner']][0] in (History26, Online26, Needy26,
                                               Means26):
            case['learner'] = draw(pick(['KNN', 'skRidge', 'skTree',
                                         'skScaler', 'skKNN']))
            case['args'] = draw(arguments(case['learner']))
        ret.append({'learner': case['learner'], 'set': case['sets'][0],
                    'args': case['args'], 'seed': case['seed']})
    return ret


def check_process(case, ctx):
    """
    All: the learners are loaded in another process.
    """
    d = tempfile.mkdtemp(dir=core.SCRATCH)
    spec, expect = [], []
    for i, part in enumerate(case):
        learner, _, kind = LEARNERS[part['learner']]
        s, args = part['set'], dict(part['args'])
        if part['learner'] == 'Ridge':
            args.setdefault('lamb', 2)
        if part['learner'] == 'skKNN':
            args.setdefault('n_neighbors', 2)
        s['types'] = ['Matrix', 'Matrix']
        if kind == 'num' and any(isinstance(v, str) for v in s['y']):
            s['y'] = [len(v) for v in s['y']]
        if part['learner'] in ('skRidge', 'Ridge') and any(
                isinstance(v, str) for v in s['y']):
            s['y'] = [ord(v[0]) for v in s['y']]
        x, y = objects(s, kind)
        tl = nimble.train(learner, x, y, real(args), randomSeed=part['seed'],
                          useLog=False)
        path = os.path.join(d, 'learner%d.pickle' % i)
        tl.save(path)
        spec.append([path, s['test']])
        r = tl.apply(nimble.data([list(r) for r in s['test']], useLog=False),
                     useLog=False)
        names = r.features._getNamesNoGeneration()
        expect.append([r.copy('pythonlist'), names, sorted(args),
                       tl.randomSeed, tl.learnerName])
    where = os.path.join(d, 'spec.json')
    with open(where, 'w') as f:
        json.dump(spec, f)
    proc = subprocess.run([sys.executable, '-c', CHILD, where],
                          stdin=subprocess.DEVNULL, capture_output=True,
                          text=True, timeout=150)
    ensure(proc.returncode == 0, 'loading failed', proc.stderr[-600:])
    with open(where + '.out') as f:
        got = json.load(f)
    for i, (e, g) in enumerate(zip(expect, got)):
        ensure(all(near(a, b) for r, q in zip(e[0], g[0])
                   for a, b in zip(r, q)) and len(e[0]) == len(g[0]),
               'learner', i, 'predictions', g[0], e[0])
        ensure(json.loads(json.dumps(e[1:])) == g[1:], 'learner', i, g[1:],
               e[1:])
    shutil.rmtree(d)
    ctx.nontrivial(True)


TESTS = [Test('life', life_cases(), check_life, quick=3000),
         Test('process', process_cases(), check_process, quick=24,
              thorough=200)]
