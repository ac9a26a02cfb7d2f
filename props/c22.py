"""C22: training and applying agree with the wrapped learner."""
import contextlib
import inspect
import io
import warnings

import numpy as np
import sklearn.base
from hypothesis import strategies as st
from sklearn.utils import all_estimators

import nimble
from nimble import calculate as calc
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (TYPES, build, build_table, Table, ensure_same_snapshot,
                      ensure_consistent, ident, nan, names, rows_of, snapshot)

N = nimble.exceptions
with warnings.catch_warnings():
    warnings.simplefilter('ignore')
    SK = dict(all_estimators())

pick = st.sampled_from
CLASS = {
    'LogisticRegression': {'C': pick([0.1, 1.0, 10]),
                           'max_iter': pick([50, 100])},
    'GaussianNB': {'var_smoothing': pick([1e-9, 0.1])},
    'BernoulliNB': {'alpha': pick([0.5, 1.0]), 'binarize': pick([0.0, 1.0])},
    'DecisionTreeClassifier': {'max_depth': pick([1, 2, None]),
                               'min_samples_leaf': pick([1, 2])},
    'RandomForestClassifier': {'n_estimators': pick([1, 3])},
    'ExtraTreesClassifier': {'n_estimators': pick([1, 3])},
    'KNeighborsClassifier': {'n_neighbors': pick([1, 2, 3]),
                             'weights': pick(['uniform', 'distance']),
                             'algorithm': pick(['auto', 'brute'])},
    'SVC': {'C': pick([0.1, 1.0, 5]), 'kernel': pick(['linear', 'rbf'])},
    'RidgeClassifier': {'alpha': pick([0.1, 1.0, 3])},
    'SGDClassifier': {'alpha': pick([1e-4, 0.1]), 'max_iter': pick([3])},
    'Perceptron': {'max_iter': pick([3, 10])},
    'NearestCentroid': {},
    'LinearDiscriminantAnalysis': {'solver': pick(['svd', 'lsqr'])}}
REGR = {
    'LinearRegression': {'fit_intercept': pick([True, False])},
    'Ridge': {'alpha': pick([0.1, 1.0, 4]),
              'fit_intercept': pick([True, False])},
    'Lasso': {'alpha': pick([0.1, 0.5])},
    'ElasticNet': {'alpha': pick([0.1, 1.0]), 'l1_ratio': pick([0.2, 0.8])},
    'DecisionTreeRegressor': {'max_depth': pick([1, 2, None]),
                              'splitter': pick(['best', 'random'])},
    'KNeighborsRegressor': {'n_neighbors': pick([1, 2, 3]),
                            'algorithm': pick(['auto', 'brute'])},
    'SVR': {'C': pick([0.5, 2.0])},
    'RandomForestRegressor': {'n_estimators': pick([1, 3])},
    'DummyRegressor': {'strategy': pick(['mean', 'median'])}}
TRANS = {
    'StandardScaler': {'with_mean': pick([True, False]),
                       'with_std': pick([True, False])},
    'MinMaxScaler': {'feature_range': pick([(0, 1), (-1, 2)])},
    'MaxAbsScaler': {}, 'Normalizer': {'norm': pick(['l1', 'l2'])},
    'PCA': {'n_components': pick([1, 2])},
    'TruncatedSVD': {'n_components': pick([1, 2])},
    'PolynomialFeatures': {'degree': pick([1, 2]),
                           'include_bias': pick([True, False])},
    'SimpleImputer': {'strategy': pick(['mean', 'median'])},
    'GaussianRandomProjection': {'n_components': pick([1, 2])},
    'Binarizer': {'threshold': pick([0.0, 1.0])}}
CLUSTER = {
    'KMeans': {'n_clusters': pick([2, 3]), 'n_init': pick([1]),
               'init': pick(['random', 'k-means++'])},
    'MeanShift': {'bandwidth': pick([2.0])},
    'AgglomerativeClustering': {'n_clusters': pick([2, 3])},
    'DBSCAN': {'eps': pick([1.0, 2.5]), 'min_samples': pick([1, 2])}}
ALL = {'class': CLASS, 'regr': REGR, 'trans': TRANS, 'cluster': CLUSTER}


@st.composite
def problems(draw, groups=('class', 'regr', 'trans', 'cluster')):
    group = draw(pick(groups))
    name = draw(pick(sorted(ALL[group])))
    args = {}
    for a, s in ALL[group][name].items():
        if draw(st.booleans()):
            args[a] = draw(s)
    if name == 'KMeans':
        args.setdefault('n_clusters', 2)
        args['n_init'] = 1
    if name in ('GaussianRandomProjection',):
        args.setdefault('n_components', 2)
    n = draw(st.integers(4, 10))
    m = n if name in ('AgglomerativeClustering', 'DBSCAN') \
        else draw(st.integers(1, 5))
    f = draw(st.integers(2, 4))
    num = draw(pick([st.integers(-3, 6),
                     st.integers(-12, 24).map(lambda k: k / 4)]))
    rows = draw(st.lists(st.lists(num, min_size=f, max_size=f),
                         min_size=n, max_size=n))
    test = draw(st.lists(st.lists(num, min_size=f, max_size=f),
                         min_size=m, max_size=m))
    if name == 'SimpleImputer':
        for i, j in draw(st.lists(st.tuples(
                st.integers(1, n - 1), st.integers(0, f - 1)), max_size=4)):
            rows[i][j] = nan
        test[0][0] = nan
    if name in ('AgglomerativeClustering', 'DBSCAN'):
        test = rows
    if group == 'class':
        labs = draw(pick([[0, 1], [1, 2, 5], [-1, 1], ['a', 'b', 'c'],
                          ['yes', 'no'], [0.0, 1.0, 2.0], [True, False]]))
        y = draw(st.lists(pick(labs), min_size=n, max_size=n))
        y[:len(labs)] = labs
        ty = draw(st.lists(pick(labs), min_size=m, max_size=m))
    else:
        y = draw(st.lists(num, min_size=n, max_size=n))
        ty = draw(st.lists(num, min_size=m, max_size=m))
    return {'group': group, 'name': name, 'args': args, 'X': rows, 'T': test,
            'y': y, 'ty': ty,
            'y2': draw(st.one_of(st.none(), st.lists(
                num, min_size=n, max_size=n))) if group == 'regr' and name in
            ('LinearRegression', 'Ridge', 'DecisionTreeRegressor',
             'KNeighborsRegressor') else None,
            'types': [draw(pick(TYPES)) for _ in range(4)],
            'seed': draw(st.integers(0, 100)),
            'fn': draw(names(f, False)), 'tpn': draw(names(m)),
            'yn': draw(pick([None, 'label', 'y'])),
            'lab': draw(pick(['object', 'object', 'index', 'name',
                              'negative'])),
            'at': draw(st.integers(0, f)),
            'how': draw(pick(['string', 'alias', 'class'])),
            'pass': draw(pick(['dict', 'kw', 'both'])),
            'way': draw(pick(['train', 'trainAndApply', 'trainAndTest',
                              'test', 'normalizeData'])),
            'mutate': draw(st.booleans())}


def quiet(f):
    with warnings.catch_warnings(), np.errstate(all='ignore'), \
            contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        warnings.simplefilter('ignore')
        return f()


def array_of(rows):
    """As numpy holds the numbers."""
    return np.array(rows)


def direct(case):
    """Calls the wrapped package. Gives the predictions, or the exception."""
    cls = SK[case['name']]
    kw = dict(case['args'])
    if 'random_state' in cls().get_params():
        kw['random_state'] = case['seed']
    X, T = array_of(case['X']), array_of(case['T'])
    if case['types'][0] == 'Sparse':
        import scipy.sparse
        X = scipy.sparse.coo_matrix(X)
    if case['types'][2] == 'Sparse':
        import scipy.sparse
        T = scipy.sparse.coo_matrix(T)
    y = np.array(case['y'])
    if case.get('y2'):
        y = np.column_stack([y, case['y2']])
    try:
        m = cls(**kw)
        m.fit(X, y) if case['group'] in ('class', 'regr') else m.fit(X)
        if case['group'] == 'trans':
            out = m.transform(T)
            tr = m.transform(X) if case['way'] == 'normalizeData' else None
        elif hasattr(m, 'predict'):
            out, tr = m.predict(T), None
        else:
            out, tr = m.labels_, None
    except Exception as e:
        return e, None
    dense = lambda a: a.toarray() if hasattr(a, 'toarray') else a
    return dense(out), (None if tr is None else dense(tr))


def agree(got, want, what):
    rows = rows_of(got)
    want = want.reshape(len(want), -1).tolist()
    ensure(len(rows) == len(want), what, 'gave', rows, 'not', want)
    for a, b in zip(rows, want):
        ensure(len(a) == len(b) and all(same(x, y, 1e-7)
                                        for x, y in zip(a, b)),
               what, 'gave', rows, 'not', want)


def pieces(case):
    """The nimble objects and the trainY argument."""
    t = case['types']
    X = nimble.data(case['X'], featureNames=case['fn'] or 'automatic',
                    returnType=t[0], useLog=False)
    T = nimble.data(case['T'], pointNames=case['tpn'] or 'automatic',
                    featureNames=case['fn'] or 'automatic',
                    returnType=t[2], useLog=False)
    if case['group'] in ('trans', 'cluster'):
        return X, None, T, None
    yt, tyt = [None if v == 'Sparse' and isinstance(case['y'][0], (str, bool))
               else v for v in (t[1], t[3])]
    yrows = [[v] for v in case['y']]
    yn = case['yn']
    if case.get('y2'):
        yrows = [[a, b] for a, b in zip(case['y'], case['y2'])]
        Y = nimble.data(yrows, returnType=yt, useLog=False)
        return X, Y, T, None
    Y = nimble.data(yrows, returnType=yt, useLog=False,
                    featureNames=[yn] if yn else 'automatic')
    TY = nimble.data([[v] for v in case['ty']], returnType=tyt, useLog=False,
                     pointNames=case['tpn'] or 'automatic',
                     featureNames=[yn] if yn else 'automatic')
    if case['lab'] == 'object':
        return X, Y, T, TY
    # labels inside of the data
    if isinstance(case['y'][0], (str, bool)) and 'Sparse' in (t[0], t[2]):
        return X, Y, T, TY
    at = case['at']
    fn = (case['fn'] or [None] * len(case['X'][0]))[:]
    fn.insert(at, yn)
    ins = lambda rows, ys: [r[:at] + [v] + r[at:] for r, v in zip(rows, ys)]
    X = nimble.data(ins(case['X'], case['y']), returnType=t[0], useLog=False,
                    featureNames=fn if any(fn) else 'automatic')
    if case['way'] in ('trainAndTest', 'test'):
        T = nimble.data(ins(case['T'], case['ty']), returnType=t[2],
                        pointNames=case['tpn'] or 'automatic', useLog=False,
                        featureNames=fn if any(fn) else 'automatic')
    Y = at
    if case['lab'] == 'name' and yn:
        Y = yn
    elif case['lab'] == 'negative':
        Y = at - len(fn)
    return X, Y, T, Y


def learner_of(case):
    if case['how'] == 'class':
        return SK[case['name']]
    return ('skl.' if case['how'] == 'alias' else 'sklearn.') + case['name']


def split_args(case):
    """arguments= and keyword arguments."""
    items = sorted(case['args'].items())
    if case['pass'] == 'dict':
        return {'arguments': dict(items)}
    if case['pass'] == 'kw':
        return dict(items)
    return dict({'arguments': dict(items[:1])}, **dict(items[1:]))


def check_learner(case, ctx):
    """
    a learner used through nimble gives what it gives when called directly;
    non-trivial = labels inside of the data, other data types for training
    than for testing, or arguments
    """
    what = '%s%r' % (case['name'], case)
    group = case['group']
    if case['way'] == 'normalizeData' and group != 'trans':
        case['way'] = 'trainAndApply'
    if case['way'] in ('test', 'trainAndTest') and (
            group not in ('class', 'regr') or case.get('y2')):
        case['way'] = 'train'
    if case['name'] in ('AgglomerativeClustering', 'DBSCAN'):
        case['types'][2] = case['types'][0]
    X, Y, T, TY = quiet(lambda: pieces(case))
    want, tr = quiet(lambda: direct(case))
    snaps = [(o, snapshot(o), tag) for o, tag in (
        (X, 'trainX'), (Y, 'trainY'), (T, 'testX'), (TY, 'testY'))
        if isinstance(o, nimble.core.data.Base)]
    name = learner_of(case)
    kw = split_args(case)
    kwargs = kw.get('arguments')
    karg = dict(kwargs) if kwargs is not None else None
    seed = case['seed']
    perf = calc.fractionIncorrect if group == 'class' \
        else calc.rootMeanSquareError

    def call():
        way = case['way']
        if way == 'trainAndApply':
            return nimble.trainAndApply(name, X, Y, T, randomSeed=seed,
                                        useLog=False, **kw)
        if way == 'trainAndTest':
            return nimble.trainAndTest(name, perf, X, Y, T, TY,
                                       randomSeed=seed, useLog=False, **kw)
        if way == 'normalizeData':
            if case['lab'] == 'object' or len(X.points) != len(case['y']):
                return nimble.normalizeData(name, X, testX=T, useLog=False,
                                            randomSeed=seed, **kw)
            # labels within the data are not normalized with it
            at, both = case['at'], X.copy()
            both.features.insert(at, nimble.data(
                [[v] for v in case['y']], featureNames=['the label'],
                returnType=case['types'][1], useLog=False), useLog=False)
            ident = {'index': at, 'name': 'the label',
                     'negative': at - len(both.features)}[case['lab']]
            before = snapshot(both)
            ret = nimble.normalizeData(name, both, ident, testX=T,
                                       randomSeed=seed, useLog=False, **kw)
            ensure_same_snapshot(before, both, what + ' data with labels')
            ctx.label('labels within normalized data')
            return ret
        tl = nimble.train(name, X, Y, randomSeed=seed, useLog=False, **kw)
        for k, v in case['args'].items():
            ensure(tl.arguments[k] == v, what, 'arguments', tl.arguments)
        ensure(tl.randomSeed == seed, what, 'seed', tl.randomSeed)
        if case['mutate'] and len(X.points):
            # what is done to the data afterwards does not matter
            tt = snaps.pop(0)
            ensure_same_snapshot(tt[1], X, what + ' trainX')
            X.points.transform(lambda p: [0] * len(p), useLog=False)
        if way == 'test':
            return tl.test(perf, T, TY, useLog=False)
        return tl.apply(T, useLog=False)
    try:
        got = quiet(call)
    except Violation:
        raise
    except Exception as e:
        if isinstance(want, Exception):
            for o, s, tag in snaps:
                ensure_same_snapshot(s, o, what + ' ' + tag)
            ctx.label('both refuse')
            return
        raise
    if isinstance(want, Exception):
        raise Violation('%s was accepted: %r; directly: %r'
                        % (what, got, want))
    for o, s, tag in snaps:
        ensure_same_snapshot(s, o, what + ' ' + tag)
    ensure(kwargs == karg, what, 'arguments became', kwargs)
    way = case['way']
    if way in ('test', 'trainAndTest'):
        if group == 'class':
            ref = np.mean([a != b for a, b in zip(case['ty'],
                                                  want.tolist())])
        else:
            ref = np.sqrt(np.mean((np.array(case['ty'], dtype=float)
                                   - want.reshape(-1)) ** 2))
        ensure(same(got, float(ref), 1e-7), what, 'gave', got, 'not', ref)
    else:
        if way == 'normalizeData':
            first, got = got
            agree(first, tr, what + ' train')
            ensure(first.getTypeString() == case['types'][0]
                   and got.getTypeString() == case['types'][2], what, 'types')
            if case['fn'] and got.shape[1] == len(case['fn']):
                ensure(got.features.getNames() == case['fn'], what,
                       'feature names', got.features.getNames())
                ensure(first.features.getNames() == case['fn'], what,
                       'feature names', first.features.getNames())
        agree(got, want, what)
        ensure_consistent(got, what)
        if case['tpn'] and len(got.points) == len(case['tpn']):
            ensure(got.points.getNames() == case['tpn'], what, 'point names',
                   got.points.getNames())
        if group in ('class', 'regr') and case['yn'] and not case.get('y2'):
            ensure(got.features.getNames() == [case['yn']], what,
                   'feature names', got.features.getNames())
    ctx.label(case['name'], way, case['how'])
    ctx.nontrivial(bool(case['args'])
                   or not isinstance(Y, nimble.core.data.Base)
                   or case['types'][0] != case['types'][2])


# ------------------------------------------------------- what type of input

@st.composite
def same_inputs(draw):
    case = draw(problems())
    case['args'] = {k: v for k, v in case['args'].items()}
    return case


DENSE = [t for t in TYPES if t != 'Sparse']


def check_same(case, ctx):
    """
    the data types of the inputs do not matter, nor what training saw before:
    two learners trained in turn and used in turn; non-trivial = not all types
    are the same
    """
    case['lab'], case['way'] = 'object', 'train'
    types = case['types']
    runs = []
    name = learner_of(case)
    for t in (types, ['Matrix'] * 4, [types[1], types[0], types[3],
                                      types[2]]):
        case['types'] = [DENSE[0] if v == 'Sparse' else v for v in t]
        X, Y, T, _ = quiet(lambda: pieces(case))
        try:
            tl = quiet(lambda: nimble.train(
                name, X, Y, randomSeed=case['seed'], useLog=False,
                arguments=case['args']))
            runs.append((tl, T))
        except Exception as e:
            runs.append((type(e), None))
    if any(t is None for _, t in runs):
        ensure(all(t is None for _, t in runs), case, 'refused', runs)
        ctx.label('refused')
        return
    outs = []
    for tl, T in runs + runs[::-1]:
        try:
            outs.append(rows_of(quiet(lambda: tl.apply(T, useLog=False))))
        except N.NimbleException as e:
            outs.append([[type(e).__name__]])
        except ValueError as e:
            outs.append([['ValueError']])
    for o in outs[1:]:
        ensure(len(o) == len(outs[0]) and all(
            len(a) == len(b) and all(same(x, y, 1e-7) for x, y in zip(a, b))
            for a, b in zip(o, outs[0])), case, 'gave', outs)
    ctx.label(case['name'])
    ctx.nontrivial(len(set(types)) > 1)


# ------------------------------------------------------------- learner facts

LEARNERS = None


def check_info(case, ctx):
    """
    the type, parameters and defaults of a scikit-learn learner are those of
    its class, and other arguments are refused; non-trivial = always
    """
    global LEARNERS
    if LEARNERS is None:
        LEARNERS = sorted(quiet(lambda: nimble.learnerNames('sklearn')))
        ensure(set(LEARNERS) <= set(SK), 'names', set(LEARNERS) - set(SK))
        for group in ALL.values():
            ensure(set(group) <= set(LEARNERS), 'names missing',
                   set(group) - set(LEARNERS))
    name = LEARNERS[case['k'] % len(LEARNERS)]
    full = 'sklearn.' + name
    cls = SK[name]
    target = full if case['str'] else cls
    params = cls().get_params(deep=False)
    params.pop('random_state', None)
    kind = quiet(lambda: nimble.learnerType(full))
    b = sklearn.base
    if not issubclass(cls, b.ClusterMixin):
        if issubclass(cls, b.ClassifierMixin):
            ensure(kind == 'classification', full, kind)
        elif issubclass(cls, b.RegressorMixin):
            ensure(kind == 'regression', full, kind)
        elif issubclass(cls, b.TransformerMixin) \
                and not issubclass(cls, b.OutlierMixin):
            ensure(kind == 'transformation', full, kind)
    else:
        ensure(kind == 'cluster', full, kind)
    names_ = quiet(lambda: nimble.learnerParameters(target))
    ensure(set(params) <= set(names_), full, 'lacks',
           set(params) - set(names_))
    defaults = quiet(lambda: nimble.learnerParameterDefaults(target))
    shared = set()
    for m in ('fit', 'predict', 'transform', 'fit_predict'):
        if hasattr(cls, m):
            shared |= set(inspect.signature(getattr(cls, m)).parameters)
    for k, v in params.items():
        ensure(k in defaults, full, 'no default for', k)
        # a method can have an argument of the same name
        ensure(k in shared or repr(defaults[k]) == repr(v), full, k, defaults[k], v)
    # what is shown is the same
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        nimble.showLearnerParameters(target)
    ensure(out.getvalue() == ''.join(k + '\n' for k in names_), full,
           'shows parameters', out.getvalue(), names_)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        nimble.showLearnerParameterDefaults(target)
    shown = out.getvalue().split('\n')
    ensure(len([v for v in shown if v]) == len(defaults), full,
           'shows defaults', shown, defaults)
    for k, line in zip(sorted(defaults), shown):
        v = defaults[k]
        v = "'%s'" % v if isinstance(v, str) else v
        ensure(line.split(None, 1)[0] == k, full, 'shows', line, 'for', k)
        if isinstance(v, (bool, int, str)) or v is None:
            ensure(line.split(None, 1)[1].strip() == str(v), full, 'shows',
                   line, 'for', k, v)
    if case['str'] and case['k'] % 5 == 0:
        package = [None, 'sklearn', 'nimble', 'skl'][case['k'] // 5 % 4]
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            nimble.showLearnerNames(package)
        all_ = quiet(lambda: nimble.learnerNames(package))
        ensure(out.getvalue() == ''.join(k + '\n' for k in all_),
               'showLearnerNames', package, out.getvalue(), all_)
        ensure(len(set(all_)) == len(all_), 'repeated names', all_)
        ensure(package is not None or full in all_, full, 'is not in', all_)
    # several at once, and what is not a learner
    other = LEARNERS[case['k'] * 7 % len(LEARNERS)]
    ensure(quiet(lambda: nimble.learnerType(
        [target, 'sklearn.' + other, SK[other], full])) == [
            kind] + [quiet(lambda: nimble.learnerType('skl.' + other))] * 2
           + [kind], 'types of', full, other)
    for unknown in ('sklearn.' + name + 'x', 'nosuch.' + name, name,
                    sklearn.base.BaseEstimator):
        for given in (unknown, [full, unknown]):
            try:
                nimble.learnerType(given)
            except N.InvalidArgumentValue:
                continue
            raise Violation('learnerType accepted %r' % (given,))
    X = nimble.data([[1., 2], [2, 1], [3, 3]], useLog=False)
    for bad in ({'notAParameter': 3}, {'random_state': 3}):
        if 'random_state' in bad and 'random_state' not in cls().get_params():
            continue
        try:
            quiet(lambda: nimble.train(full, X, X.features.copy(0),
                                       arguments=bad, useLog=False))
        except (N.InvalidArgumentValue,):
            continue
        raise Violation('%s accepted %r' % (full, bad))
    ctx.label(kind)
    ctx.nontrivial(True)


# -------------------------------------------------------------------- refusals

def check_refuse(case, ctx):
    """
    unfit data is refused and stays as it was; non-trivial = always
    """
    X, Y, T, TY = quiet(lambda: pieces(dict(case, lab='object')))
    bad = case['bad']
    name = learner_of(case)
    if Y is None:
        return
    kw = split_args(case)
    try:
        if bad == 'rows':
            Y = Y.points.copy(range(len(Y.points) - 1))
        elif bad == 'name':
            Y = 'not a name'
        elif bad == 'index':
            Y = 99
        elif bad == 'testfeatures':
            T = T.features.copy(range(len(T.features) - 1))
            X = X.points.copy(range(len(X.points)))
            if len(X.points) == len(X.features) \
                    or len(T.points) == len(T.features):
                return
        elif bad == 'empty':
            X = X.points.copy([])
        elif bad == 'learner':
            name = 'sklearn.NoSuchLearner'
        elif bad == 'package':
            name = 'nopackage.Ridge'
        elif bad == 'twice':
            if not case['args']:
                return
            k = sorted(case['args'])[0]
            kw = {'arguments': dict(case['args']), k: 12345}
        snaps = [(o, snapshot(o)) for o in (X, Y, T)
                 if isinstance(o, nimble.core.data.Base)]
        quiet(lambda: nimble.trainAndApply(name, X, Y, T, useLog=False, **kw))
    except (N.NimbleException, KeyError, IndexError) as e:
        ensure(bad in ('index', 'name', 'empty') or isinstance(
            e, N.NimbleException), case, 'raised', repr(e))
        for o, s in snaps:
            ensure_same_snapshot(s, o, 'refused ' + bad)
        ctx.label(bad)
        ctx.nontrivial(True)
        return
    raise Violation('%s was not refused: %r' % (bad, case))


@st.composite
def refusals(draw):
    case = draw(problems(('class', 'regr')))
    case['y2'] = None
    case['bad'] = draw(pick(['rows', 'name', 'index', 'testfeatures', 'empty',
                             'learner', 'package', 'twice']))
    return case


TESTS = [Test('learner', problems(), check_learner, quick=6000),
         Test('same', same_inputs(), check_same, quick=1000),
         Test('info', st.fixed_dictionaries(
             {'k': st.integers(0, 400), 'str': st.booleans()}), check_info,
              quick=240),
         Test('refuse', refusals(), check_refuse, quick=500)]
