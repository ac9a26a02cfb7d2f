"""C20: randomness is reproducible and well formed."""
import random

import numpy as np
from hypothesis import strategies as st

import nimble
from nimble import random as nrandom
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (NAMEPOOL, TYPES, axis_of, build, ensure_consistent,
                      ensure_same_snapshot, names, rows_of, snapshot, tables)

N = nimble.exceptions
SEEDS = st.one_of(st.integers(0, 50), st.integers(0, 2 ** 32 - 1))


# ------------------------------------------------------------------- history

def base_ops():
    ax = st.sampled_from(['point', 'feature'])
    ty = st.sampled_from(TYPES)
    return st.one_of(
        st.tuples(st.just('draw'), st.sampled_from(
            ['py', 'np', 'sub', 'normal', 'shuffle'])),
        st.tuples(st.just('data'), st.integers(1, 5), st.integers(1, 5),
                  st.sampled_from([0, 0.3, 0.5, 0.9]),
                  st.sampled_from(['int', 'float']),
                  st.one_of(st.none(), st.none(), SEEDS), ty),
        st.tuples(st.just('permute'), ax, st.integers(2, 7), ty),
        st.tuples(st.just('select'), ax, st.sampled_from(
            ['copy', 'extract', 'delete', 'retain']), st.integers(2, 7),
            st.integers(1, 7), ty),
        st.tuples(st.just('split'), st.integers(2, 8),
                  st.sampled_from([0.2, 0.5, 0.7]), st.booleans(), ty),
        st.tuples(st.just('learn'), st.sampled_from(
            ['sklearn.RandomForestClassifier', 'sklearn.SGDClassifier',
             'sklearn.KMeans', 'nimble.RidgeRegression', 'custom']),
            st.one_of(st.none(), st.integers(0, 9))),
        st.tuples(st.just('folds'), st.integers(2, 6), st.integers(1, 3)),
        st.tuples(st.just('seed'), SEEDS),
        st.tuples(st.just('reset'), st.integers(0, 3)))


def histories():
    leaf = base_ops()
    block = st.tuples(st.just('alternate'), st.one_of(SEEDS, SEEDS,
                                                      st.none()),
                      st.lists(leaf, max_size=3),
                      st.sampled_from(['', '', 'raise', 'setSeed']))
    nested = st.tuples(st.just('alternate'), SEEDS,
                       st.lists(st.one_of(leaf, block), max_size=3),
                       st.sampled_from(['', 'raise']))
    return st.fixed_dictionaries({
        'seed': SEEDS,
        'ops': st.lists(st.one_of(leaf, leaf, leaf, block, nested),
                        min_size=1, max_size=7),
        'noise': st.lists(st.integers(0, 5), min_size=1, max_size=6)})


class Asked(Exception):
    pass


def grid(p, f, rtype):
    return nimble.data([[i * 10 + j + 1 for j in range(f)]
                        for i in range(p)], returnType=rtype, useLog=False)


class Custom(nimble.CustomLearner):
    """Uses both of the generators to train."""
    learnerType = 'classification'

    def train(self, trainX, trainY):
        self.mark = (nrandom.pythonRandom.random(),
                     float(nrandom.numpyRandom.rand()))

    def apply(self, testX):
        return nimble.data([list(self.mark)], useLog=False)


RS = np.random.RandomState(3)
TX = [[float(v) for v in r] for r in RS.randn(24, 3).round(2)]
TY = [[int(r[0] + r[1] * .5 > 0)] for r in TX]


def learn(name, seed):
    X = nimble.data(TX, useLog=False)
    Y = nimble.data(TY, useLog=False)
    if name == 'custom':
        return rows_of(nimble.trainAndApply(Custom, X, Y, X, randomSeed=seed,
                                            useLog=False))
    if name == 'sklearn.KMeans':
        return rows_of(nimble.trainAndApply(
            name, X, None, X, randomSeed=seed, useLog=False, n_clusters=4,
            n_init=1, init='random', max_iter=1))
    if name == 'nimble.RidgeRegression':
        return rows_of(nimble.trainAndApply(name, X, Y, X, randomSeed=seed,
                                            useLog=False, lamb=1))
    args = {'n_estimators': 2} if 'Forest' in name else {'max_iter': 2,
                                                         'tol': None}
    tl = nimble.train(name, X, Y, arguments=args, randomSeed=seed,
                      useLog=False)
    return (rows_of(tl.apply(X, useLog=False)),
            rows_of(tl.getScores(X)))


def run_op(op, out):
    kind = op[0]
    if kind == 'draw':
        how = op[1]
        if how == 'py':
            out.append(nrandom.pythonRandom.random())
        elif how == 'np':
            out.append(int(nrandom.numpyRandom.randint(10 ** 6)))
        elif how == 'normal':
            out.append(nrandom.numpyRandom.normal(size=3).tolist())
        elif how == 'sub':
            s = nrandom.generateSubsidiarySeed()
            ensure(0 <= s <= 2 ** 32 - 1, 'seed', s)
            np.random.RandomState(s)
            out.append(s)
        else:
            a = list(range(9))
            nrandom.pythonRandom.shuffle(a)
            out.append(a)
    elif kind == 'data':
        _, p, f, sp, et, seed, rt = op
        o = nrandom.data(p, f, sp, elementType=et, returnType=rt,
                         randomSeed=seed, useLog=False)
        out.append(rows_of(o))
    elif kind == 'permute':
        _, ax, n, rt = op
        o = grid(n, 3, rt) if ax == 'point' else grid(3, n, rt)
        axis_of(o, ax).permute(useLog=False)
        out.append(rows_of(o))
    elif kind == 'select':
        _, ax, fn, n, k, rt = op
        o = grid(n, 3, rt) if ax == 'point' else grid(3, n, rt)
        a = axis_of(o, ax)
        kw = {} if fn == 'copy' else {'useLog': False}
        ret = getattr(a, fn)(number=min(k, n), randomize=True, **kw)
        out.append((rows_of(o), None if ret is None else rows_of(ret)))
    elif kind == 'split':
        _, n, frac, lab, rt = op
        o = grid(n, 3, rt)
        out.append([rows_of(x) for x in o.trainAndTestSets(
            frac, labels=2 if lab else None, useLog=False)])
    elif kind == 'learn':
        out.append(learn(op[1], op[2]))
    elif kind == 'folds':
        _, n, k = op
        from nimble.core.tune import KFoldIterator
        it = KFoldIterator([grid(n, 2, 'Matrix')], min(k, n))
        out.append([[rows_of(x) for x in pair] for [pair] in it
                    if all(len(x.points) for x in pair)])
    elif kind == 'seed':
        try:
            nrandom.setSeed(op[1], useLog=False)
        except RuntimeError:
            out.append('refused')
        else:
            out.append('set')
    elif kind == 'reset':
        pass
    elif kind == 'alternate':
        _, seed, body, end = op
        sub = []
        state = states()
        try:
            with nrandom.alternateControl(seed, useLog=False):
                for o in body:
                    run_op(o, sub)
                if end == 'raise':
                    raise Asked
                if end == 'setSeed':
                    nrandom.setSeed(3, useLog=False)
        except Asked:
            ensure(end == 'raise', 'unasked')
        except RuntimeError:
            ensure(end == 'setSeed', 'RuntimeError')
        ensure(same_states(state, states()),
               'the outer stream moved during', op)
        if seed is not None:
            out.append(sub)


def states():
    return nrandom.pythonRandom.getstate(), nrandom.numpyRandom.get_state()


def same_states(a, b):
    return a[0] == b[0] and all(np.array_equal(x, y)
                                for x, y in zip(a[1], b[1]))


def disturb(k):
    if k == 0:
        random.seed(k)
    elif k == 1:
        random.random()
    elif k == 2:
        np.random.seed(5)
    elif k == 3:
        np.random.rand(7)
    elif k == 4:
        # does not use randomness
        o = grid(4, 3, 'Matrix')
        o.points.sort(0, useLog=False)
        o.features.normalize(nimble.calculate.meanNormalize, useLog=False)


def replay(case, noise=False, skip=False):
    nrandom.setSeed(case['seed'], useLog=False)
    out = []
    for i, op in enumerate(case['ops']):
        if noise:
            disturb(case['noise'][i % len(case['noise'])])
        if skip and op[0] == 'alternate':
            continue
        start = len(out)
        run_op(op, out)
        if skip is None and op[0] == 'alternate':
            del out[start:]
    return out


def check_history(case, ctx):
    """
    a history gives the same under the same seed, whatever happens to the
    global generators, and its alternate parts leave no trace; non-trivial =
    at least two random steps and an alternate part or disturbance
    """
    keep = states()
    glob = random.getstate(), np.random.get_state()
    try:
        first = replay(case)
        mid = states()
        second = replay(case, noise=True)
        ensure(repr(first) == repr(second), 'history', case,
               'gave', first, 'and then', second)
        ensure(same_states(mid, states()), 'history', case,
               'left other streams')
        a = replay(case, skip=True)
        b = replay(case, skip=None)
        ensure(repr(a) == repr(b), 'history', case, 'without alternates', a,
               'with them', b)
        # the same steps inside of an alternate control with the seed
        if not any(o[0] == 'seed' for o in case['ops']):
            sub = []
            with nrandom.alternateControl(case['seed'], useLog=False):
                for op in case['ops']:
                    run_op(op, sub)
            ensure(repr(sub) == repr(first), 'history', case,
                   'in an alternate control', sub, 'not', first)
            ctx.label('inside')
    finally:
        nrandom.pythonRandom.setstate(keep[0])
        nrandom.numpyRandom.set_state(keep[1])
        random.setstate(glob[0])
        np.random.set_state(glob[1])
    kinds = [o[0] for o in case['ops']]
    ctx.label(*sorted(set(kinds)))
    ctx.nontrivial(len([k for k in kinds if k not in ('reset', 'seed')]) > 1
                   and ('alternate' in kinds
                        or any(k < 4 for k in case['noise'])))


# ----------------------------------------------------------------- seeded

def seeded_cases():
    ty = st.sampled_from(TYPES)
    return st.fixed_dictionaries({
        'what': st.one_of(
            st.tuples(st.just('data'), st.integers(1, 6), st.integers(1, 6),
                      st.sampled_from([0, 0.3, 0.5, 0.9]),
                      st.sampled_from(['int', 'float']), SEEDS, ty),
            st.tuples(st.just('learn'), st.sampled_from(
                ['sklearn.RandomForestClassifier', 'sklearn.SGDClassifier',
                 'sklearn.KMeans', 'custom']), st.integers(0, 99))),
        'before': st.lists(base_ops(), max_size=2),
        's1': SEEDS, 's2': SEEDS})


def check_seeded(case, ctx):
    """
    an operation with its own seed depends on that seed alone and leaves the
    stream where it was; non-trivial = different global seeds or steps before
    """
    keep = states()
    try:
        nrandom.setSeed(case['s1'], useLog=False)
        a, b = [], []
        run_op(case['what'], a)
        nrandom.setSeed(case['s2'], useLog=False)
        for op in case['before']:
            run_op(op, [])
        at = states()
        run_op(case['what'], b)
        ensure(same_states(at, states()), case['what'],
               'moved the stream in spite of its own seed')
        ensure(repr(a) == repr(b), case['what'], 'gave', a, 'and', b)
    finally:
        nrandom.pythonRandom.setstate(keep[0])
        nrandom.numpyRandom.set_state(keep[1])
    ctx.label(case['what'][0])
    ctx.nontrivial(case['s1'] != case['s2'] or bool(case['before']))


# ---------------------------------------------------------------- random data

@st.composite
def data_cases(draw):
    p = draw(st.one_of(st.integers(1, 6), st.integers(10, 40)))
    f = draw(st.one_of(st.integers(1, 6), st.integers(10, 30)))
    return {'p': p, 'f': f,
            'sparsity': draw(st.one_of(
                st.sampled_from([0, 0.1, 0.25, 0.5, 0.9, 0.99]),
                st.integers(0, 999).map(lambda k: k / 1000))),
            'et': draw(st.sampled_from(['int', 'float'])),
            'pn': draw(names(p, False)) if p < 7 else None,
            'fn': draw(names(f, False)) if f < 7 else None,
            'seed': draw(st.one_of(st.none(), SEEDS)),
            'global': draw(SEEDS),
            'type': draw(st.sampled_from(TYPES + (None,))),
            'bad': draw(st.sampled_from([None] * 12 + [
                'p', 'f', 'sparsity', 'negative', 'et', 'seed', 'neg seed',
                'type']))}


def check_data(case, ctx):
    """
    random data has the requested shape, names, type, element type and number
    of zeros, the same in every data type; non-trivial = some sparsity and
    more than 8 elements
    """
    nrandom.setSeed(case['global'], useLog=False)
    p, f, sp = case['p'], case['f'], case['sparsity']
    kw = dict(elementType=case['et'], pointNames=case['pn'] or 'automatic',
              featureNames=case['fn'] or 'automatic', name='made',
              randomSeed=case['seed'], returnType=case['type'], useLog=False)
    what = 'random.data(%r, %r, %r, %r)' % (p, f, sp, kw)
    if case['bad']:
        args = [p, f, sp]
        bad = case['bad']
        if bad in 'pf':
            args['pf'.index(bad)] = 0
        elif bad == 'sparsity':
            args[2] = 1
        elif bad == 'negative':
            args[2] = -0.1
        elif bad == 'et':
            kw['elementType'] = 'str'
        elif bad == 'seed':
            kw['randomSeed'] = 2 ** 32
        elif bad == 'neg seed':
            kw['randomSeed'] = -1
        else:
            kw['returnType'] = 'matrix'
        at = states()
        try:
            nrandom.data(*args, **kw)
        except (N.InvalidArgumentValue, N.InvalidArgumentType):
            ensure(same_states(at, states()), what, bad, 'moved the stream')
            ctx.label('refused ' + bad)
            ctx.nontrivial(True)
            return
        raise Violation('%s with bad %s was not refused' % (what, bad))
    o = nrandom.data(p, f, sp, **kw)
    ensure(o.shape == (p, f) and o.name == 'made', what, o.shape, o.name)
    ensure(case['type'] in (None, o.getTypeString()), what, o.getTypeString())
    ensure_consistent(o, what)
    if case['pn']:
        ensure(o.points.getNames() == case['pn'], what, 'point names')
    if case['fn']:
        ensure(o.features.getNames() == case['fn'], what, 'feature names')
    rows = rows_of(o)
    flat = [v for r in rows for v in r]
    nz = [v for v in flat if v != 0]
    ensure(abs(len(nz) - p * f * (1 - sp)) < 1, what, 'nonzero', len(nz))
    if case['et'] == 'int':
        ensure(all(float(v).is_integer() and 1 <= v <= 100 for v in nz),
               what, 'values', flat)
    else:
        ensure(all(abs(v) < 12 for v in nz), what, 'values', flat)
        if len(nz) > 60:
            m = sum(nz) / len(nz)
            sd = np.std(nz)
            ensure(abs(m) < 1.2 and 0.4 < sd < 1.7, what, 'mean', m, sd)
    # the same values in every other type
    nrandom.setSeed(case['global'], useLog=False)
    for rt in TYPES:
        nrandom.setSeed(case['global'], useLog=False)
        kw['returnType'] = rt
        ensure(rows_of(nrandom.data(p, f, sp, **kw)) == rows, what,
               'differs as', rt)
    ctx.label(str(case['type']), case['et'])
    ctx.nontrivial(sp > 0 and p * f > 8)


# ------------------------------------------------------------ random choices

@st.composite
def choice_cases(draw):
    t = draw(tables(2, 7, 2, 5, kinds=('int', 'float', 'nan')))
    return {'t': t, 'type': draw(st.sampled_from(TYPES)),
            'axis': draw(st.sampled_from(['point', 'feature'])),
            'fn': draw(st.sampled_from(['copy', 'extract', 'delete',
                                        'retain', 'permute'])),
            'number': draw(st.integers(1, 8)),
            'target': draw(st.one_of(st.none(), st.none(), st.lists(
                st.integers(0, 6), min_size=1, max_size=5, unique=True))),
            'range': draw(st.one_of(st.none(), st.tuples(
                st.integers(0, 6), st.integers(0, 6)))),
            'seed': draw(SEEDS)}


def check_choice(case, ctx):
    """
    a random selection has the requested number of members of the target,
    each once, with their content and names, and the rest stays in order;
    non-trivial = fewer chosen than possible and more than one
    """
    nrandom.setSeed(case['seed'], useLog=False)
    t = case['t']
    ax = case['axis']
    rows, pn, fn = t['rows'], t['pn'], t['fn']
    n = len(rows) if ax == 'point' else t['f']
    # an extra line identifies each member
    marks = list(range(100, 100 + n))
    if ax == 'point':
        rows = [r + [m] for r, m in zip(rows, marks)]
        nms = pn
        o = nimble.data(rows, pointNames=pn or 'automatic',
                        returnType=case['type'], useLog=False)
        vecs = [list(r) for r in rows]
    else:
        rows = [list(r) for r in rows] + [marks]
        nms = fn
        o = nimble.data(rows, featureNames=fn or 'automatic',
                        returnType=case['type'], useLog=False)
        vecs = [list(c) for c in zip(*rows)]
    nms = nms or [None] * n

    def members(obj):
        r = rows_of(obj)
        vs = r if ax == 'point' else [list(c) for c in zip(*r)]
        if not vs:
            return []
        ids = [int(v[-1]) - 100 for v in vs]
        got = axis_of(obj.copy(), ax).getNames() or [None] * len(ids)
        for i, v, g in zip(ids, vs, got):
            ensure(all(same(x, y) for x, y in zip(v, vecs[i])), what,
                   'member', i, 'has', v)
            ensure(g == nms[i], what, 'member', i, 'is named', g)
        return ids
    what = '%s %r of %r' % (case['type'], case, rows)
    a = axis_of(o, ax)
    if case['fn'] == 'permute':
        a.permute(useLog=False)
        ensure(sorted(members(o)) == list(range(n)), what, 'not permuted')
        ensure_consistent(o, what)
        ctx.label('permute')
        ctx.nontrivial(n > 2)
        return
    kw = {}
    pool = list(range(n))
    if case['target'] is not None:
        pool = [i for i in case['target'] if i < n]
        if not pool:
            pool = [0]
        kw['toCopy toExtract toDelete toRetain'.split()[
            ['copy', 'extract', 'delete', 'retain'].index(case['fn'])]] = pool
    elif case['range'] is not None:
        lo, hi = sorted(min(k, n - 1) for k in case['range'])
        pool = list(range(lo, hi + 1))
        kw['start'], kw['end'] = lo, hi
    if case['fn'] != 'copy':
        kw['useLog'] = False
    k = case['number']
    call = getattr(a, case['fn'])
    if k > len(pool):
        before = snapshot(o)
        try:
            call(number=k, randomize=True, **kw)
        except N.InvalidArgumentValue:
            ensure_same_snapshot(before, o, what)
            ctx.label('refused')
            return
        raise Violation(what + ': too many were not refused')
    ret = call(number=k, randomize=True, **kw)
    left = members(o)
    if case['fn'] in ('copy', 'extract'):
        chosen = members(ret)
        ensure_consistent(ret, what)
    elif case['fn'] == 'delete':
        chosen = [i for i in range(n) if i not in left]
    else:
        chosen = left
    ensure(len(chosen) == k and len(set(chosen)) == k
           and set(chosen) <= set(pool), what, 'chose', chosen, 'of', pool)
    if case['fn'] == 'copy':
        ensure(left == list(range(n)), what, 'source', left)
    elif case['fn'] != 'retain':
        ensure(left == [i for i in range(n) if i not in chosen], what,
               'left', left, 'after', chosen)
    ensure_consistent(o, what)
    # no member is unreachable
    if case['fn'] == 'copy':
        reached = set(chosen)
        for s in range(120):
            if len(reached) == len(pool):
                break
            reached |= set(members(call(number=k, randomize=True, **kw)))
        ensure(len(reached) == len(pool), what, 'never chosen:',
               set(pool) - reached)
    ctx.label(case['fn'], case['type'])
    ctx.nontrivial(1 < k < len(pool))


# -------------------------------------------------------------------- control

def check_control(case, ctx):
    """
    after any nesting of alternate controls, left normally or by an
    exception, seeds can be set again and not before; non-trivial = nested
    """
    keep = states()

    def refused():
        at = states()
        try:
            nrandom.setSeed(1, useLog=False)
        except RuntimeError:
            ensure(same_states(at, states()), 'refused setSeed moved it')
            return True
        return False

    def enter(levels):
        if not levels:
            return
        at = states()
        try:
            with nrandom.alternateControl(levels[0][0], useLog=False):
                ensure(refused(), 'setSeed in', levels)
                first = nrandom.pythonRandom.random(), \
                    nrandom.numpyRandom.rand()
                if levels[0][0] is not None:
                    ensure(first == (random.Random(levels[0][0]).random(),
                                     np.random.RandomState(
                                         levels[0][0]).rand()), 'stream')
                enter(levels[1:])
                ensure(refused(), 'setSeed after inner of', levels)
                if levels[0][1]:
                    raise Asked
        except Asked:
            pass
        ensure(same_states(at, states()), 'state after', levels)
    try:
        nrandom.setSeed(case['seed'], useLog=False)
        enter(case['levels'])
        at = states()
        nrandom.setSeed(case['seed'], useLog=False)
        ensure(same_states(at, states()), 'setSeed after', case)
    finally:
        nrandom.setSeed._settable = True
        nrandom.pythonRandom.setstate(keep[0])
        nrandom.numpyRandom.set_state(keep[1])
    ctx.nontrivial(len(case['levels']) > 1)


controls = st.fixed_dictionaries({
    'seed': SEEDS,
    'levels': st.lists(st.tuples(st.one_of(SEEDS, st.none()), st.booleans()),
                       min_size=1, max_size=4)})


TESTS = [Test('history', histories(), check_history, quick=2400),
         Test('seeded', seeded_cases(), check_seeded, quick=1500),
         Test('data', data_cases(), check_data, quick=3000),
         Test('choice', choice_cases(), check_choice, quick=6000),
         Test('control', controls, check_control, quick=300)]
