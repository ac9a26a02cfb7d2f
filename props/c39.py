"""C39: networks trained through nimble are the networks of keras."""
import contextlib
import io
import os
import warnings

os.environ['TF_CPP_MIN_LOG_LEVEL'] = '3'
os.environ['CUDA_VISIBLE_DEVICES'] = ''

import numpy as np  # noqa: E402
from hypothesis import strategies as st  # noqa: E402

import nimble  # noqa: E402
from lib.core import Test, Violation, ensure  # noqa: E402
from lib.data import (TYPES, ensure_consistent,  # noqa: E402
                      ensure_same_snapshot, snapshot)

Init = nimble.Init
calc = nimble.calculate
KINDS = {'regression': (1, None), 'outputs': (2, None),
         'softmax': (3, 'softmax'), 'logits': (3, None),
         'sigmoid': (1, 'sigmoid'), 'logit': (1, None)}
pick = st.sampled_from
NUM = pick([0.0, 0.0, 1.0, -1.0, 0.5, 0.25, 2.0, -1.5])
READY = []


def engine():
    """TensorFlow, on one thread of each worker."""
    if not READY:
        with contextlib.redirect_stderr(io.StringIO()):
            import tensorflow
            tensorflow.config.threading.set_intra_op_parallelism_threads(1)
            tensorflow.config.threading.set_inter_op_parallelism_threads(1)
            import keras
        READY.append((tensorflow, keras))
    return READY[0]


def quiet(f):
    with warnings.catch_warnings(), contextlib.redirect_stdout(
            io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        return f()


@st.composite
def networks(draw, seeded=False):
    kind = draw(pick(sorted(KINDS)))
    n, f, m = (draw(st.integers(3, 7)), draw(st.integers(1, 3)),
               draw(st.integers(1, 4)))
    # TensorFlow does not take sparse data without values
    rows = st.lists(NUM, min_size=f, max_size=f).map(
        lambda r: r if any(r) else r[:-1] + [0.75])
    if kind in ('softmax', 'logits'):
        y = [0, 1, 2] + draw(st.lists(st.integers(0, 2), min_size=n - 3,
                                      max_size=n - 3))
    elif kind in ('sigmoid', 'logit'):
        y = [0, 1] + draw(st.lists(st.integers(0, 1), min_size=n - 2,
                                   max_size=n - 2))
    else:
        w = KINDS[kind][0]
        y = draw(st.lists(st.lists(NUM, min_size=w, max_size=w), min_size=n,
                          max_size=n))
    layer = st.fixed_dictionaries({
        'units': st.integers(1, 4), 'act': pick([None, 'relu', 'tanh']),
        'init': pick(['object', 'object', 'constant', 'ones', 'nested'])
        if not seeded else pick(['default', 'random_normal', 'nested',
                                 'object', 'empty']),
        'dropout': st.booleans() if seeded else st.just(False),
        'seed': st.integers(0, 50)})
    return {'kind': kind, 'X': draw(st.lists(rows, min_size=n, max_size=n)),
            'T': draw(st.lists(rows, min_size=m, max_size=m)), 'y': y,
            'layers': draw(st.lists(layer, max_size=2)),
            'last': draw(layer),
            'opt': draw(pick(['sgd', 'adam', 'init', 'object'])),
            'epochs': draw(st.integers(1, 3)),
            'batch': draw(st.integers(1, 4)),
            'types': [draw(pick(TYPES)) for _ in range(4)],
            'pass': draw(pick(['dict', 'kw', 'both'])),
            'way': draw(pick(['train', 'train', 'trainAndApply',
                              'trainAndTest', 'test'])),
            'within': draw(pick([None, None, 'index', 'name'])),
            'seed': draw(st.integers(0, 1000)),
            'more': draw(st.booleans()),
            # a network of zeros that does not learn is undecided
            'zero': not seeded and draw(st.integers(0, 9)) == 0}


def specs(case):
    out, act = KINDS[case['kind']]
    last = dict(case['last'], units=out, act=act, dropout=False)
    if case['zero']:
        last['init'] = 'zeros'
    return case['layers'] + [last]


def initializer(spec, keras, direct):
    how = spec['init']
    if how == 'object':
        return keras.initializers.RandomUniform(-1, 1, seed=spec['seed'])
    if how == 'constant':
        return keras.initializers.Constant(spec['seed'] / 64)
    if how == 'nested':
        value = spec['seed'] / 64 - 0.25
        if direct:
            return keras.initializers.Constant(value)
        return Init('Constant', value=value)
    return how


def layers_of(case, direct):
    keras = engine()[1]
    ret = []
    for s in specs(case):
        kw = {'units': s['units']}
        if s['act']:
            kw['activation'] = s['act']
        if s['init'] == 'empty':
            kw['kernel_initializer'] = None
        elif s['init'] != 'default':
            kw['kernel_initializer'] = initializer(s, keras, direct)
        ret.append(keras.layers.Dense(**kw) if direct
                   else Init('Dense', **kw))
        if s['dropout']:
            ret.append(Init('Dropout', rate=0.5))
    return ret


def settings(case, direct):
    keras = engine()[1]
    loss = {'regression': 'mse', 'outputs': 'mse', 'sigmoid':
            'binary_crossentropy',
            'softmax': 'sparse_categorical_crossentropy'}.get(case['kind'])
    if loss is None:
        loss = {'logit': 'BinaryCrossentropy',
                'logits': 'SparseCategoricalCrossentropy'}[case['kind']]
        loss = getattr(keras.losses, loss)(from_logits=True) if direct \
            else Init(loss, from_logits=True)
    opt = case['opt']
    if case['zero']:
        opt = keras.optimizers.SGD(learning_rate=0.0)
    elif opt == 'init':
        opt = keras.optimizers.SGD(learning_rate=0.05, momentum=0.5) \
            if direct else Init('SGD', learning_rate=0.05, momentum=0.5)
    elif opt == 'object':
        opt = keras.optimizers.RMSprop(learning_rate=0.02)
    return {'optimizer': opt, 'loss': loss}


def fitting(case):
    return {'epochs': case['epochs'], 'batch_size': case['batch'],
            'shuffle': False, 'verbose': 0}


def labels_of(case, raw):
    if case['kind'] in ('regression', 'outputs'):
        return raw
    if raw.shape[-1] > 1:
        return raw.argmax(axis=1).reshape(-1, 1)
    return (raw >= (0 if case['kind'] == 'logit' else 0.5)).astype(int)


def described(v):
    """What an argument is, all the way down."""
    if isinstance(v, Init):
        return ('Init', v.name, sorted((k, described(w))
                                       for k, w in v.kwargs.items()))
    if isinstance(v, (list, tuple)):
        return [described(w) for w in v]
    if isinstance(v, dict):
        return sorted((k, described(w)) for k, w in v.items())
    return (type(v).__name__, v if isinstance(
        v, (int, float, str, type(None))) else id(v))


def sure(case, raw):
    """Are the labels clear of rounding?"""
    if case['kind'] in ('regression', 'outputs') or case['zero']:
        return True
    if raw.shape[-1] > 1:
        top = np.sort(raw, axis=1)
        return bool((top[:, -1] - top[:, -2] > 1e-4).all())
    return bool((abs(raw - (0 if case['kind'] == 'logit' else 0.5))
                 > 1e-4).all())


def agree(case, got, raw, what):
    got = np.array(got.copy('pythonlist'), dtype=float)
    want = labels_of(case, raw)
    if case['kind'] in ('regression', 'outputs') or sure(case, raw):
        ensure(got.shape == want.shape and np.allclose(
            got, want, rtol=1e-3, atol=1e-4), what, 'gives', got.tolist(),
            'keras itself', want.tolist())


def data(rows, rtype):
    return nimble.data(rows, returnType=rtype, useLog=False)


def column(case, y):
    return [list(v) if isinstance(v, list) else [v] for v in y]


def check_agree(case, ctx):
    """a network with a hidden layer, or several points to predict"""
    tf, keras = engine()
    kind = case['kind']
    Xr, Tr = np.array(case['X']), np.array(case['T'])
    yr = np.array(case['y'])
    ts = case['types']
    X, T = data(case['X'], ts[0]), data(case['T'], ts[2])
    Y = data(column(case, case['y']), ts[1])
    layers, conf, fit = (layers_of(case, False), settings(case, False),
                         fitting(case))

    def direct():
        model = keras.Sequential(layers_of(case, True))
        model.compile(**settings(case, True))
        model.fit(Xr, yr, **fitting(case))
        return model
    model = quiet(direct)
    raw = quiet(lambda: model.predict(Tr, verbose=0))
    if not np.isfinite(raw).all() or abs(raw).max() > 1e4:
        return ctx.label('diverges')
    both = {'layers': layers}
    both.update(conf, **fit)
    before = described(both)
    arguments, kw = {'dict': (both, {}), 'kw': (None, both),
                     'both': ({'layers': layers, **conf}, fit)}[case['pass']]
    trainX, trainY = X, Y
    if case['within'] and kind != 'outputs':
        trainX = X.copy()
        Y.features.setNames(['label'], useLog=False)
        trainX.features.append(Y, useLog=False)
        trainY = 'label' if case['within'] == 'name' else \
            len(X.features)
    snaps = [(o, snapshot(o)) for o in (trainX, Y, T)]
    name, seed = 'keras.Sequential', case['seed']
    perf = calc.fractionIncorrect if kind not in (
        'regression', 'outputs') else calc.rootMeanSquareError
    way = case['way']
    if kind == 'outputs' and way in ('trainAndTest', 'test'):
        way = 'train'
    what = '%s %s' % (way, kind)
    wrong = None
    if way == 'trainAndApply':
        got = quiet(lambda: nimble.trainAndApply(
            name, trainX, trainY, T, arguments=arguments, randomSeed=seed,
            useLog=False, **kw))
        agree(case, got, raw, what)
    elif way == 'trainAndTest':
        trueY = Y if trainX is X else trainY
        wrong = quiet(lambda: nimble.trainAndTest(
            name, perf, trainX, trainY, trainX, trueY, arguments=arguments,
            randomSeed=seed, useLog=False, **kw))
    else:
        tl = quiet(lambda: nimble.train(
            name, trainX, trainY, arguments=arguments, randomSeed=seed,
            useLog=False, **kw))
        got = quiet(lambda: tl.apply(T, useLog=False))
        agree(case, got, raw, what)
        ensure_consistent(got, what)
        # a point is predicted alike alone and among others
        for i in range(len(T.points)):
            one = quiet(lambda: tl.apply(T.points.copy(i), useLog=False))
            agree(case, one, raw[i:i + 1], what + ' of one point')
        if kind not in ('regression', 'outputs'):
            scores = quiet(lambda: tl.getScores(T)).copy('numpyarray')
            if raw.shape[1] > 1:
                ensure(np.allclose(scores, raw, rtol=1e-3, atol=1e-4),
                       'scores', scores.tolist(), 'keras', raw.tolist())
            elif sure(case, raw):
                ensure(scores.shape == (len(raw), 2) and np.allclose(
                    scores, np.hstack([-raw, raw]), rtol=1e-3, atol=1e-4),
                    'scores', scores.tolist(), 'for', raw.tolist())
        if way == 'test':
            wrong = quiet(lambda: tl.test(perf, X, Y, useLog=False))
        elif case['more']:
            k = min(3, len(Xr))
            quiet(lambda: tl.incrementalTrain(
                X.points.copy(list(range(k))),
                Y.points.copy(list(range(k))), useLog=False))
            quiet(lambda: model.train_on_batch(Xr[:k], yr[:k]))
            raw2 = quiet(lambda: model.predict(Tr, verbose=0))
            if np.isfinite(raw2).all() and abs(raw2).max() < 1e4:
                agree(case, quiet(lambda: tl.apply(T, useLog=False)), raw2,
                      what + ' after more training')
            ctx.label('more')
    if wrong is not None:
        rawX = quiet(lambda: model.predict(Xr, verbose=0))
        lab = labels_of(case, rawX).reshape(-1)
        if sure(case, rawX) and np.isfinite(rawX).all() \
                and abs(rawX).max() < 1e4:
            ref = np.mean(lab != yr) if perf is calc.fractionIncorrect else \
                np.sqrt(np.mean((lab - yr.reshape(-1)) ** 2))
            ensure(abs(wrong - ref) < 1e-3 * max(1, abs(ref)), what, 'gives',
                   wrong, 'instead of', ref)
    ensure(described(both) == before, 'the arguments changed to',
           described(both), 'from', before)
    for o, s in snaps:
        ensure_same_snapshot(s, o, what)
    ctx.label(kind, way)
    ctx.nontrivial(len(case['layers']) > 0 or len(Tr) > 1)


def check_seeded(case, ctx):
    """a random initializer"""
    engine()
    ts = case['types']
    X, T = data(case['X'], ts[0]), data(case['T'], ts[2])
    Y = data(column(case, case['y']), ts[1])
    layers = layers_of(case, False)
    conf = settings(case, False)
    if case['opt'] == 'object':
        # an optimizer keeps the variables of the first network
        conf['optimizer'] = 'adam'
    before = described([layers, conf])
    fit = dict(fitting(case), shuffle=True)

    def run(layers, seed):
        if case['way'] == 'trainAndApply':
            return nimble.trainAndApply(
                'keras.Sequential', X, Y, T, randomSeed=seed, useLog=False,
                layers=layers, **conf, **fit)
        tl = nimble.train('keras.Sequential', X, Y, randomSeed=seed,
                          useLog=False, layers=layers, **conf, **fit)
        if case['kind'] in ('regression', 'outputs'):
            return tl.apply(T, useLog=False)
        return tl.getScores(T)
    first = quiet(lambda: run(layers, case['seed'])).copy('numpyarray')
    ensure(described([layers, conf]) == before, 'the arguments changed to',
           described([layers, conf]), 'from', before)
    if case['more']:
        # what happens in between does not matter
        quiet(lambda: run(layers_of(case, False), case['seed'] + 1))
    again = quiet(lambda: run(layers, case['seed'])).copy('numpyarray')
    ensure(np.allclose(first, again, rtol=1e-4, atol=1e-5, equal_nan=True),
           'the same layers and seed', case['seed'], 'give', first.tolist(),
           'then', again.tolist())
    fresh = quiet(lambda: run(layers_of(case, False),
                              case['seed'])).copy('numpyarray')
    ensure(np.allclose(first, fresh, rtol=1e-4, atol=1e-5, equal_nan=True),
           'equal layers and seed', case['seed'], 'give', first.tolist(),
           'then', fresh.tolist())
    ctx.nontrivial(any(s['init'] in ('default', 'random_normal', 'empty')
                       for s in specs(case)))


TESTS = [Test('agree', networks(), check_agree, quick=240, thorough=4000),
         Test('seeded', networks(True), check_seeded, quick=120,
              thorough=2000)]
