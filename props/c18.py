"""C18: performance and similarity measures equal their formulas."""
import math

import numpy as np
from hypothesis import strategies as st

import nimble
from lib.core import Test, Violation, ensure, missing, same
from lib.data import (TYPES, Table, build, ensure_same_snapshot, ensure_table,
                      nan, snapshot, sparse_ok, stirred)

N = nimble.exceptions
calc = nimble.calculate


class Unclear(Exception):
    """The formula divides by zero."""


def ratio(a, b):
    if b == 0:
        raise Unclear
    return a / b


def mean(vals):
    return sum(vals) / len(vals)


def variance(k):
    m = mean(k)
    return mean([(x - m) ** 2 for x in k])


def counts(k, p):
    tp = sum(bool(a) and bool(b) for a, b in zip(k, p))
    tn = sum(not a and not b for a, b in zip(k, p))
    fp = sum(not a and bool(b) for a, b in zip(k, p))
    fn = sum(bool(a) and not b for a, b in zip(k, p))
    return tp, tn, fp, fn


def recall(k, p):
    tp, tn, fp, fn = counts(k, p)
    return ratio(tp, tp + fn)


def precision(k, p):
    tp, tn, fp, fn = counts(k, p)
    return ratio(tp, tp + fp)


def specificity(k, p):
    tp, tn, fp, fn = counts(k, p)
    return ratio(tn, tn + fp)


def f1(k, p):
    a, b = precision(k, p), recall(k, p)
    return ratio(2 * a * b, a + b)


def vfr(k, p):
    return ratio(mean([(a - b) ** 2 for a, b in zip(k, p)]), variance(k))


NUMERIC = {
    'rootMeanSquareError': (lambda k, p: math.sqrt(mean(
        [(a - b) ** 2 for a, b in zip(k, p)])), 'min', 0),
    'meanFeaturewiseRootMeanSquareError': (lambda k, p: math.sqrt(mean(
        [(a - b) ** 2 for a, b in zip(k, p)])), 'min', 0),
    'meanAbsoluteError': (lambda k, p: mean(
        [abs(a - b) for a, b in zip(k, p)]), 'min', 0),
    'varianceFractionRemaining': (vfr, 'min', 0),
    'rSquared': (lambda k, p: 1 - vfr(k, p), 'max', 1),
    'cosineSimilarity': (lambda k, p: ratio(
        sum(a * b for a, b in zip(k, p)),
        math.sqrt(sum(a * a for a in k)) * math.sqrt(sum(b * b for b in p))),
        'max', 1),
}
LABELS = {
    'fractionIncorrect': (lambda k, p: mean(
        [float(a != b) for a, b in zip(k, p)]), 'min', 0),
    'fractionCorrect': (lambda k, p: mean(
        [float(a == b) for a, b in zip(k, p)]), 'max', 1),
}
BINARY = {
    'truePositive': (lambda k, p: counts(k, p)[0], 'max', None),
    'trueNegative': (lambda k, p: counts(k, p)[1], 'max', None),
    'falsePositive': (lambda k, p: counts(k, p)[2], 'min', None),
    'falseNegative': (lambda k, p: counts(k, p)[3], 'min', None),
    'recall': (recall, 'max', None), 'precision': (precision, 'max', None),
    'specificity': (specificity, 'max', None),
    'balancedAccuracy': (lambda k, p: (recall(k, p)
                                       + specificity(k, p)) / 2, 'max', None),
    'f1Score': (f1, 'max', None),
}

floats = st.sampled_from([0.0, 0.0, 1.0, 0.5, -0.25, 2.5, -1.5, 3.0, 4.75,
                          100.0, 2 ** 20 + 0.5])
ints = st.sampled_from([0, 0, 1, 2, 3, -1, 5])
POOLS = {
    'float': floats, 'int': ints,
    'binary': st.sampled_from([0, 1]), 'bool': st.booleans(),
    'binfloat': st.sampled_from([0.0, 1.0]),
    'str': st.sampled_from(['a', 'b', 'c', 'aa', '5%', '%s', 'x y', '1'])}


@st.composite
def pairs(draw, kinds, max_n=9):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(1, max_n))
    k = draw(st.lists(POOLS[kind], min_size=n, max_size=n))
    if draw(st.integers(0, 4)) == 0:
        p = list(k)
    else:
        p = [draw(st.one_of(st.just(v), POOLS[kind])) for v in k]
    return {'known': k, 'pred': p, 'kind': kind,
            'types': draw(st.tuples(*[st.sampled_from(TYPES)] * 2)),
            'names': draw(st.integers(0, 5)), 'ks': draw(st.tuples(
                *[st.integers(0, 15)] * 2)),
            'order': draw(st.permutations(range(n)))}


def column(vals, rtype, name=None, pn=None, k=0):
    if rtype == 'Sparse' and not sparse_ok([vals]):
        rtype = 'Matrix'
    o = nimble.data([[v] for v in vals], pointNames=pn,
                    featureNames=[name] if name else None, returnType=rtype,
                    useLog=False)
    if k & 8:
        # a view of a larger object
        big = o.copy()
        big.features.insert(0, o.copy(), useLog=False) if name is None else 0
        return big[:, -1] if len(vals) > 1 else big.features.copy(
            -1, useLog=False)
    return stirred(o, k)


def named(case):
    n = len(case['known'])
    m = case['names']
    pn = ['p%d' % i for i in range(n)]
    return {0: (None, None, None, None), 1: ('y', None, None, None),
            2: ('y', 'z', None, None), 3: (None, None, pn, None),
            4: ('y', 'y', pn, pn), 5: (None, 'z', None, pn)}[m]


def inputs(case, reorder=False):
    kn, pnm, kp, pp = named(case)
    k, p = list(case['known']), list(case['pred'])
    if reorder:
        k, p = [k[i] for i in case['order']], [p[i] for i in case['order']]
    ok = column(k, case['types'][0], kn, kp, case['ks'][0])
    op = column(p, case['types'][1], pnm, pp, case['ks'][1])
    return ok, op


def check_measure(table):
    def check(case, ctx):
        """
        every measure of this family on known and predicted values in any two
        data types, named or not, in two orders and with perfect predictions;
        non-trivial = some predictions are right and some are wrong
        """
        k, p = case['known'], case['pred']
        ok, op = inputs(case)
        before = snapshot(ok), snapshot(op)
        for name, (formula, optimal, best) in sorted(table.items()):
            f = getattr(calc, name)
            what = '%s of known %r and predicted %r as %r' % (
                name, k, p, case['types'])
            ensure(f.optimal == optimal, what, ': optimal', f.optimal)
            ensure(f.best == best, what, ': best', f.best)
            try:
                want = formula(k, p)
            except Unclear:
                ctx.label('%s undefined' % name)
                try:
                    got = f(ok, op)
                except ArithmeticError:
                    continue
                ensure(not math.isfinite(got), what, 'is', got,
                       'but is not defined')
                continue
            got = f(ok, op)
            ensure(same(got, want, 1e-7), what, 'is', got, 'expected', want)
            got = f(*inputs(case, True))
            ensure(same(got, want, 1e-7), what, 'is', got,
                   'in another order, expected', want)
            if best is not None and k == p:
                ensure(same(got, best, 1e-9), what, 'is', got,
                       'for perfect predictions')
        ensure_same_snapshot(before[0], ok, 'known values')
        ensure_same_snapshot(before[1], op, 'predicted values')
        right = sum(a == b for a, b in zip(k, p))
        ctx.label(case['kind'])
        ctx.nontrivial(0 < right < len(k))
    return check


def check_refuse(case, ctx):
    """
    inputs a measure cannot be calculated for are refused: different numbers
    of points, several features, missing values, no values, or values that
    are not binary for binary measures; non-trivial = every case
    """
    k, p = list(case['known']), list(case['pred'])
    name, bad = case['f'], case['bad']
    f = getattr(calc, name)
    t1, t2 = case['types']
    if bad == 'length':
        args = column(k, t1), column(p + [p[0]], t2)
    elif bad == 'width':
        args = column(k, t1), nimble.data([[v, v] for v in p], useLog=False,
                                          returnType=t2)
    elif bad == 'missing':
        if case['names'] % 2:
            k[0] = nan
        else:
            p[-1] = nan
        args = column(k, t1), column(p, t2)
    elif bad == 'empty':
        e = np.empty((0, 1))
        args = (nimble.data(e, returnType=t1, useLog=False),
                nimble.data(e, returnType=t2, useLog=False))
    elif bad == 'notbinary':
        if name not in BINARY:
            ctx.excluded('not binary')
            return
        p[-1] = 2
        args = column(k, t1), column(p, t2)
    else:
        args = column(k, t1), p
    what = '%s with %s: %r %r' % (name, bad, k, p)
    if bad == 'width' and name == 'meanFeaturewiseRootMeanSquareError':
        args = column(k, t1), args[1]
    try:
        got = f(*args)
    except N.NimbleException:
        pass
    else:
        raise Violation('%s gave %r' % (what, got))
    ctx.label(bad)
    ctx.nontrivial(True)


@st.composite
def refuse_cases(draw):
    c = draw(pairs(['binary', 'binfloat']))
    c['f'] = draw(st.sampled_from(sorted(NUMERIC) + sorted(LABELS)
                                  + sorted(BINARY)))
    c['bad'] = draw(st.sampled_from(['length', 'width', 'missing', 'empty',
                                     'notbinary', 'type']))
    return c


# ------------------------------------------------------------ several features

@st.composite
def wide_cases(draw):
    n, f = draw(st.integers(1, 6)), draw(st.integers(1, 4))
    m = st.lists(st.lists(floats, min_size=f, max_size=f), min_size=n,
                 max_size=n)
    return {'known': draw(m), 'pred': draw(m),
            'types': draw(st.tuples(*[st.sampled_from(TYPES)] * 2))}


def check_wide(case, ctx):
    """
    meanFeaturewiseRootMeanSquareError on several features; non-trivial = at
    least two features with different errors
    """
    k, p = case['known'], case['pred']
    ok = nimble.data([list(r) for r in k], returnType=case['types'][0],
                     useLog=False)
    op = nimble.data([list(r) for r in p], returnType=case['types'][1],
                     useLog=False)
    each = [math.sqrt(mean([(a[j] - b[j]) ** 2 for a, b in zip(k, p)]))
            for j in range(len(k[0]))]
    got = calc.meanFeaturewiseRootMeanSquareError(ok, op)
    ensure(same(got, mean(each), 1e-9), 'featurewise error of', k, p, 'is',
           got, 'expected', mean(each))
    ctx.nontrivial(len(set(each)) > 1)


# ----------------------------------------------------------- confusion matrix

@st.composite
def confusion_cases(draw):
    c = draw(pairs(['int', 'float', 'str', 'bool', 'binary'], max_n=12))
    c['labels'] = draw(st.sampled_from(['none', 'none', 'dict', 'list']))
    c['fractions'] = draw(st.booleans())
    c['spare'] = draw(st.booleans())
    c['stray'] = draw(st.integers(0, 3)) == 0
    return c


def check_confusion(case, ctx):
    """
    the confusion matrix with and without labels, as counts and fractions;
    non-trivial = at least two labels and some wrong prediction
    """
    k, p = list(case['known']), list(case['pred'])
    how = case['labels']
    seen = sorted(set(k) | set(p))
    if how == 'list':
        if case['kind'] in ('str', 'float') or min(seen) < 0:
            k = [seen.index(v) for v in k]
            p = [seen.index(v) for v in p]
        labels = ['L%d' % (7 - i) for i in range(max(max(k), max(p)) + 1
                                                 + case['spare'])]
        keys, shown = list(range(len(labels))), labels
    elif how == 'dict':
        keys = sorted(seen + (['zz' if isinstance(seen[0], str) else 77]
                              if case['spare'] else []))
        labels = {key: 'L%d' % (9 - i) for i, key in enumerate(keys)}
        if case['ks'][0] % 2:
            labels = dict(reversed(labels.items()))
        shown = [labels[key] for key in keys]
    else:
        # only labels that are known are shown
        keys = sorted(set(k))
        if any(v not in keys for v in p):
            if not case['stray']:
                p = [v if v in keys else keys[0] for v in p]
        labels = None
        shown = [int(v) if not isinstance(v, str) and float(v).is_integer()
                 else v for v in keys]
    kn, pnm, kp, pp = named(case)
    ok = column(k, case['types'][0], kn, kp, case['ks'][0])
    op = column(p, case['types'][1], pnm, pp, case['ks'][1])
    before = snapshot(ok), snapshot(op)
    what = 'confusion matrix of known %r predicted %r (%r) labels %r' % (
        k, p, case['types'], labels)
    kw = {}
    if labels is not None:
        kw['labels'] = labels
    if case['fractions']:
        kw['convertCountsToFractions'] = True
    stray = any(v not in keys for v in p)
    try:
        got = calc.confusionMatrix(ok, op, **kw)
    except Exception as e:
        if stray:
            ctx.label('stray label refused')
            return
        raise
    ensure(not stray, what, 'was not refused')
    want = [[sum(a == kv and b == pv for a, b in zip(k, p)) for kv in keys]
            for pv in keys]
    ensure(sum(map(sum, want)) == len(k), 'counts')
    if case['fractions']:
        want = [[v / len(k) for v in r] for r in want]
    ensure_table(got, Table(want, ['predicted_%s' % s for s in shown],
                            ['known_%s' % s for s in shown], len(keys)), what,
                 tol=1e-12, rtype=ok.getTypeString())
    ensure_same_snapshot(before[0], ok, what)
    ensure_same_snapshot(before[1], op, what)
    ctx.label(how, case['kind'])
    ctx.nontrivial(len(keys) > 1 and k != p)


# ------------------------------------------------------------------- detecting

@st.composite
def detect_cases(draw):
    return {'f': draw(st.sampled_from(sorted(NUMERIC) + sorted(LABELS)
                                      + sorted(BINARY))),
            'wrap': draw(st.sampled_from(['as is', 'scaled', 'negated'])),
            'seed': draw(st.integers(0, 2 ** 20))}


def check_detect(case, ctx):
    """
    the direction in which a measure is better, declared or found by trials
    on a function that does not declare it (scaled or negated measure);
    non-trivial = found by trials
    """
    name = case['f']
    table = dict(NUMERIC, **LABELS, **BINARY)
    f = getattr(calc, name)
    optimal = table[name][1]
    nimble.random.setSeed(case['seed'], useLog=False)
    if case['wrap'] == 'as is':
        ensure(calc.detectBestResult(f) == optimal, name, 'is better at',
               calc.detectBestResult(f))
        return
    if name not in ('rootMeanSquareError', 'meanAbsoluteError',
                    'fractionIncorrect', 'fractionCorrect'):
        ctx.excluded('only measures defined everywhere')
        return
    if case['wrap'] == 'scaled':
        g = lambda k, p: 3 * f(k, p) + 1
    else:
        g = lambda k, p: 1 - f(k, p)
        optimal = 'min' if optimal == 'max' else 'max'
    got = calc.detectBestResult(g)
    ensure(got == optimal, case['wrap'], name, 'is better at', got)
    ctx.nontrivial(True)


def custom_cases():
    return st.fixed_dictionaries({
        'optimal': st.sampled_from(['max', 'min']),
        'best': st.sampled_from([None, 0, 1, 2.5]),
        'oneD': st.booleans(), 'samePt': st.booleans(),
        'sameFt': st.booleans(), 'empty': st.booleans(),
        'miss': st.booleans(), 'validate': st.booleans(),
        'shapes': st.tuples(*[st.integers(0, 2)] * 4),
        'nan': st.sampled_from([0, 0, 1, 2]),
        'types': st.tuples(*[st.sampled_from(TYPES)] * 2)})


def check_custom(case, ctx):
    """
    a user's performanceFunction: its attributes and which inputs it refuses;
    non-trivial = validating, with inputs of different shapes or missing
    """
    @calc.performanceFunction(
        case['optimal'], case['best'], validate=case['validate'],
        requires1D=case['oneD'], samePtCount=case['samePt'],
        sameFtCount=case['sameFt'], allowEmpty=case['empty'],
        allowMissing=case['miss'])
    def measure(knownValues, predictedValues):
        """A doc."""
        return 17
    ensure(measure.optimal == case['optimal'] and measure.best == case['best']
           and measure.__name__ == 'measure',
           'attributes', measure.__dict__)
    a, b, c, d = case['shapes']
    if b == 0 or d == 0:
        b, d = max(b, 1), max(d, 1)
    ka = np.arange(a * b, dtype=float).reshape(a, b) + 1
    pa = np.arange(c * d, dtype=float).reshape(c, d) + 1
    has = False
    if case['nan'] == 1 and ka.size:
        ka[-1, -1] = nan
        has = True
    if case['nan'] == 2 and pa.size:
        pa[0, 0] = nan
        has = True
    k = nimble.data(ka, returnType=case['types'][0], useLog=False)
    p = nimble.data(pa, returnType=case['types'][1], useLog=False)
    bad = []
    if case['validate']:
        if not case['miss'] and has:
            bad.append('missing')
        if not case['empty'] and (ka.size == 0 or pa.size == 0):
            bad.append('empty')
        if case['samePt'] and a != c:
            bad.append('points')
        if case['sameFt'] and b != d:
            bad.append('features')
        if case['oneD'] and d != 1 and c != 1:
            bad.append('wide')
        if case['oneD'] and (d != 1) != ('wide' in bad):
            # one point of several features
            ctx.excluded('row vector')
            return
    what = 'performance function %r on %r, %r' % (
        {x: case[x] for x in ('oneD', 'samePt', 'sameFt', 'empty', 'miss',
                              'validate')}, ka.tolist(), pa.tolist())
    try:
        got = measure(k, p)
        ensure(not bad, what, 'accepted', bad)
        ensure(got == 17, what, 'gave', got)
    except N.NimbleException as e:
        ensure(bool(bad), what, 'refused', str(e))
    ctx.label(*(bad or ['accepted']))
    ctx.nontrivial(case['validate'] and (case['shapes'][:2]
                                         != case['shapes'][2:] or has))


TESTS = [
    Test('numeric', pairs(['float', 'int']), check_measure(NUMERIC),
         quick=1500),
    Test('labels', pairs(['float', 'int', 'str', 'bool']),
         check_measure(LABELS), quick=2500),
    Test('binary', pairs(['binary', 'bool', 'binfloat']),
         check_measure(BINARY), quick=1500),
    Test('refuse', refuse_cases(), check_refuse, quick=2500),
    Test('wide', wide_cases(), check_wide, quick=1000),
    Test('confusion', confusion_cases(), check_confusion, quick=4000),
    Test('detect', detect_cases(), check_detect, quick=400),
    Test('custom', custom_cases(), check_custom, quick=4000)]
