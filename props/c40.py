"""
C40: a learner receives exactly the data and arguments it was given, and says
which ones it takes.

Learners with generated signatures record what every one of their methods
receives; python's own call semantics are the oracle.
"""
import contextlib
import io

import hypothesis.strategies as st
import nimble

from lib import core
from lib.core import Test, Violation, ensure
from lib.data import TYPES

N = nimble.exceptions
pick = st.sampled_from
CALLS = []
NAMES = ['a', 'b', 'alpha', 'k']
VALUES = [None, 0, 1, -2.5, 'text', '', True, (1, 2), [1, [2]], {'k': 1},
          float('inf'), 'a', b'x']
DEFAULTS = [None, 0, 1, 'text', (), False, 2.5]
SCORES = ['getScores', 'all', 'label']


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def call_signature(fixed, params):
    parts = ['self'] + fixed
    for p in params:
        parts.append(p[0] if p[1] else '%s=%r' % (p[0], p[2]))
    return ', '.join(parts)


def recorded(method, fixed, params):
    return 'CALLS.append((%r, %s, {%s}))' % (
        method, '(%s,)' % ', '.join('freeze(%s)' % f for f in fixed),
        ', '.join('%r: %s' % (p[0], p[0]) for p in params))


def freeze(obj):
    if obj is None:
        return None
    return (type(obj).__name__.replace('View', ''), obj.copy('pythonlist'),
            obj.points._getNamesNoGeneration(),
            obj.features._getNamesNoGeneration())


def make_class(spec):
    body = ['class %s(nimble.CustomLearner):' % spec['name'],
            '    learnerType = %r' % spec['type']]
    xy, t = ['trainX', 'trainY'], ['testX']
    if spec['train'] is not None:
        body += ['    def train(%s):' % call_signature(xy, spec['train']),
                 '        ' + recorded('train', xy, spec['train'])]
    if spec['inc'] is not None:
        body += ['    def incrementalTrain(%s):'
                 % call_signature(xy, spec['inc']),
                 '        ' + recorded('incrementalTrain', xy, spec['inc'])]
    body += ['    def apply(%s):' % call_signature(t, spec['apply']),
             '        ' + recorded('apply', t, spec['apply']),
             '        return answer(self, testX)']
    if spec['scores']:
        body += ['    def getScores(%s):' % call_signature(t, spec['apply']),
                 '        ' + recorded('getScores', t, spec['apply']),
                 '        return scored(self, testX)']
    ns = {'nimble': nimble, 'CALLS': CALLS, 'freeze': freeze,
          'answer': answer, 'scored': scored}
    exec('\n'.join(body), ns)  # pylint: disable=exec-used
    return ns[spec['name']]


def answer(learner, testX):
    if learner.learnerType == 'classification':
        first = learner.labelList[0]
        return nimble.data([[first]] * len(testX.points), useLog=False)
    return nimble.data([[i * 10] for i in range(len(testX.points))],
                       useLog=False)


def scored(learner, testX):
    n = len(learner.labelList)
    return nimble.data([[(i + j) % n for j in range(n)]
                        for i in range(len(testX.points))], useLog=False)


@st.composite
def params(draw, names, style=None):
    chosen = draw(st.lists(pick(names), unique=True, max_size=3))
    out = [(n, draw(pick([False, False, True])) if style is None else style,
            draw(pick(DEFAULTS))) for n in chosen]
    return sorted(out, key=lambda p: not p[1])


@st.composite
def arguments(draw, names):
    keys = draw(st.lists(pick(names), unique=True, max_size=4))
    return [(k, draw(pick(VALUES)), draw(pick(['kw', 'dict', 'dict', 'kw',
                                               'both', 'clash'])))
            for k in keys]


@st.composite
def cases(draw):
    kind = draw(pick(['regression', 'classification', 'undefined']))
    online = draw(pick([False, False, False, True]))
    train = None if online else draw(params(NAMES))
    inc = draw(params(NAMES)) if online else \
        draw(st.none() | params(NAMES))
    apply_ = draw(params(NAMES + ['flip']))
    # a name two methods share is needed by both or by none
    needed = {p[0]: p[1] for p in (inc if online else train)}
    apply_ = sorted([(n, needed.get(n, r), d) for n, r, d in apply_],
                    key=lambda p: not p[1])
    if not online and inc is not None:
        needed.update({p[0]: p[1] for p in apply_})
        inc = [(n, False, d) for n, r, d in inc if n in needed]
    spec = {'name': 'Made' + draw(pick(['A', 'B'])), 'type': kind,
            'train': train, 'inc': inc, 'apply': apply_,
            'scores': kind == 'classification' and draw(st.booleans())}
    n = draw(st.integers(2, 4))
    taken = sorted({p[0] for p in (train or inc or []) + apply_})
    pool = taken * 3 + ['nope'] if taken else ['nope', 'a']
    steps = draw(st.lists(st.tuples(
        pick(['apply', 'apply', 'test', 'scores', 'inc', 'retrain']),
        arguments(sorted(set(pool)))), max_size=4))
    given = []
    for p in (train if train is not None else inc) + apply_:
        if p[0] not in [g[0] for g in given] and \
                draw(st.integers(0, 9)) < (9 if p[1] else 5):
            given.append((p[0], draw(pick(VALUES)), draw(pick(
                ['kw', 'dict', 'kw', 'dict', 'both', 'clash'] if
                draw(st.integers(0, 5)) == 0 else ['kw', 'dict', 'both']))))
    if draw(st.integers(0, 9)) == 0:
        given.append(('nope', 1, 'dict'))
    return {'spec': spec, 'given': given, 'steps': steps,
            'x': [[draw(st.integers(-3, 3)) for _ in range(2)]
                  for _ in range(n)],
            'y': [draw(pick([0, 1, 2])) for _ in range(n)],
            'test': [[draw(st.integers(-3, 3)) for _ in range(2)]
                     for _ in range(draw(st.integers(1, 3)))],
            't': draw(pick(TYPES)), 'ty': draw(pick(TYPES)),
            'ref': draw(pick(['class', 'class', 'string'])),
            'how': draw(pick(['train', 'train', 'trainAndApply',
                              'trainAndTest'])),
            'ylab': draw(pick(['object', 'name', 'index']))}


def split(given):
    """
    The two ways of giving arguments, and their meaning; None if they
    contradict each other.
    """
    d, kw, meaning, clash = {}, {}, {}, False
    for k, v, where in given:
        meaning[k] = v
        if where in ('dict', 'both', 'clash'):
            d[k] = v
        if where in ('kw', 'both'):
            kw[k] = v
        if where == 'clash':
            kw[k] = 'another'
            clash = True
    return d, kw, None if clash else meaning


def refusal(f, what, *allowed):
    old = len(CALLS)
    try:
        got = quiet(f)
    except allowed:
        return
    except N.NimbleException as e:
        raise Violation('%s: raised %s: %s' % (what, type(e).__name__, e))
    raise Violation('%s was accepted: %r calls %r'
                    % (what, got, CALLS[old:]))


def bound(sig, given):
    return {p[0]: given[p[0]] if p[0] in given else p[2] for p in sig}


def ran(f, what):
    del CALLS[:]
    try:
        return quiet(f)
    except Exception as e:
        raise Violation('%s: raised %s: %s'
                        % (what, type(e).__name__, e)) from e


def ensure_calls(expected, what):
    ensure(len(CALLS) == len(expected), what, 'calls', CALLS, 'instead of',
           expected)
    for got, want in zip(CALLS, expected):
        ensure(got[0] == want[0], what, 'called', got[0], 'not', want[0])
        for g, w in zip(got[1], want[1]):
            ensure(g == w, what, got[0], 'was given', g, 'not', w)
        ensure(got[2] == want[2] and
               {k: type(v) for k, v in got[2].items()} ==
               {k: type(v) for k, v in want[2].items()},
               what, got[0], 'received', got[2], 'instead of', want[2])


def check_arguments(case, ctx):
    """
    every method receives the data and arguments given, and no others;
    non-trivial = the learner takes an argument and was trained
    """
    spec = case['spec']
    cls = make_class(spec)
    main = spec['train'] if spec['train'] is not None else spec['inc']
    mainname = 'train' if spec['train'] is not None else 'incrementalTrain'
    accepted = {p[0] for p in main + spec['apply']}
    needed = {p[0] for p in main + spec['apply'] if p[1]}
    fn = ['f0', 'f1', 'lab']
    X = nimble.data(case['x'], returnType=case['t'], featureNames=fn[:2],
                    useLog=False)
    Y = nimble.data([[v] for v in case['y']], returnType=case['ty'],
                    featureNames=['lab'], useLog=False)
    T = nimble.data(case['test'], returnType=case['t'], featureNames=fn[:2],
                    useLog=False)
    TY = nimble.data([[1]] * len(case['test']), returnType=case['ty'],
                     featureNames=['lab'], useLog=False)
    fx, fy, ft = freeze(X), freeze(Y), freeze(T)
    trainX, trainY = X, Y
    if case['ylab'] != 'object':
        trainX = X.copy()
        trainX.features.append(Y, useLog=False)
        trainY = 'lab' if case['ylab'] == 'name' else 2
        fy = (fx[0],) + fy[1:]
    # what the learner says about itself
    names = quiet(lambda: nimble.learnerParameters(cls))
    ensure(set(names) == accepted, 'learnerParameters', names, accepted)
    defaults = quiet(lambda: nimble.learnerParameterDefaults(cls))
    ensure(set(defaults) == accepted - needed, 'defaults', defaults)
    for p in main + spec['apply']:
        if not p[1]:
            ensure(any(defaults[p[0]] == q[2] for q in main + spec['apply']
                       if q[0] == p[0]), 'default of', p, defaults)
    ensure(quiet(lambda: nimble.learnerType(cls)) == spec['type'] or
           spec['type'] == 'undefined', 'type')
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        nimble.showLearnerParameters(cls)
    ensure(set(out.getvalue().split()) == accepted, 'shown', out.getvalue())
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        nimble.showLearnerParameterDefaults(cls)
    shown = {line.split()[0]: line.split(None, 1)[1:]
             for line in out.getvalue().splitlines() if line.strip()}
    ensure(set(shown) == set(defaults), 'shown defaults', shown)

    learner = cls
    if case['ref'] == 'string':
        learner = 'custom.' + spec['name']
        ensure(spec['name'] in quiet(lambda: nimble.learnerNames('custom')),
               'the learner is not listed')
        ensure(set(quiet(lambda: nimble.learnerParameters(learner)))
               == accepted, 'parameters by name')
    d, kw, given = split(case['given'])
    d0 = dict(d)
    how = case['how']

    def start():
        if how == 'train':
            return nimble.train(learner, trainX, trainY, arguments=d,
                                useLog=False, **kw)
        if how == 'trainAndApply':
            return nimble.trainAndApply(learner, trainX, trainY, T,
                                        arguments=d, useLog=False, **kw)
        return nimble.trainAndTest(
            learner, nimble.calculate.meanAbsoluteError, trainX, trainY, T,
            TY, arguments=d, useLog=False, **kw)
    what = '%s of %r with %r %r' % (how, spec, d, kw)
    if given is None:
        refusal(start, what, N.InvalidArgumentValueCombination)
        ctx.label('contradiction')
        ctx.nontrivial(False)
        return
    if set(given) - accepted or needed - set(given):
        refusal(start, what, N.InvalidArgumentValue)
        ctx.label('refused')
        ctx.nontrivial(bool(accepted))
        return
    ret = ran(start, what)
    expected = [(mainname, (fx, fy), bound(main, given))]
    if how != 'train':
        expected.append(('apply', (ft,), bound(spec['apply'], given)))
    ensure_calls(expected, what)
    ensure(d == d0, what, 'changed the arguments', d)
    ensure(freeze(X) == fx, what, 'changed the data')
    ctx.label(how)
    ctx.nontrivial(bool(accepted))
    if how != 'train':
        if how == 'trainAndApply':
            ensure(len(ret.points) == len(T.points), 'predictions')
        return
    tl = ret
    ensure(tl.arguments == given, what, 'arguments', tl.arguments)
    ensure(tl.learnerName == spec['name'], 'name', tl.learnerName)
    stored = dict(given)
    mine = {p[0] for p in spec['apply']}
    for kind, args in case['steps']:
        d, kw, new = split(args)
        what = '%s with %r %r of %r trained with %r' % (kind, d, kw, spec,
                                                        stored)
        if kind in ('inc', 'retrain'):
            if kind == 'inc':
                if spec['inc'] is None or kw or new is None:
                    continue
                if set(new) - accepted:
                    continue

                def go():
                    tl.incrementalTrain(X, Y, d, useLog=False)
                sig, name = spec['inc'], 'incrementalTrain'
                after = dict(stored, **new)
                if spec['train'] is None:
                    sig = spec['inc']
            else:
                def go():
                    tl.retrain(X, Y, d, useLog=False, **kw)
                sig, name = main, mainname
                if new is None:
                    refusal(go, what, N.InvalidArgumentValueCombination)
                    continue
                after = dict(stored, **new)
                if set(after) - accepted:
                    refusal(go, what, N.InvalidArgumentValue)
                    continue
            ran(go, what)
            ensure_calls([(name, (fx, freeze(Y)), bound(sig, after))], what)
            stored = after
            ensure(tl.arguments == stored, what, 'arguments', tl.arguments)
            ctx.label(kind)
            continue
        method = 'apply'
        if kind == 'scores':
            if not spec['scores']:
                continue
            method = 'getScores'

            def go():
                return tl.getScores(T, d, **kw)
        elif kind == 'test':
            def go():
                return tl.test(nimble.calculate.meanAbsoluteError, T, TY,
                               arguments=d, useLog=False, **kw)
        else:
            def go():
                return tl.apply(T, arguments=d, useLog=False, **kw)
        if new is None:
            refusal(go, what, N.InvalidArgumentValueCombination)
            continue
        if set(new) - mine:
            refusal(go, what, N.InvalidArgumentValue)
            continue
        got = ran(go, what)
        if kind == 'scores':
            # arranging the scores can need predictions, and to find out
            # how the learner arranges them by training others
            ensure(len(CALLS) >= 1, what, 'no calls')
            if len(CALLS) == 2:
                ensure_calls(CALLS[:1] + [('apply', (ft,), bound(
                    spec['apply'], dict(stored, **new)))], what)
            del CALLS[1:]
            ensure(len(got.points) == len(T.points), what, 'scores', got)
        ensure_calls([(method, (ft,),
                       bound(spec['apply'], dict(stored, **new)))], what)
        ensure(tl.arguments == stored, what, 'arguments', tl.arguments)
        if kind == 'apply' and spec['type'] != 'classification':
            ensure(got.copy('pythonlist') == [[i * 10] for i in
                                              range(len(T.points))],
                   what, 'prediction', got)
        ctx.label(kind)


# ------------------------------------------------------------------ definition

@st.composite
def definitions(draw):
    flaw = draw(pick([None, None, None, 'type', 'trainX', 'trainY', 'testX',
                      'incX', 'no train', 'no apply', 'scores', 'init',
                      'not a learner']))
    return {'flaw': flaw, 'type': draw(pick(
        ['regression', 'classification', 'cluster', 'transformation',
         'undefined'])),
            'inc': draw(st.booleans()), 'train': draw(st.booleans()),
            'scores': draw(st.booleans()), 'child': draw(st.booleans()),
            'extra': draw(params(NAMES, False)),
            'again': draw(st.booleans())}


def check_definition(case, ctx):
    """
    a class is a learner exactly if it has the stated methods and parameters,
    and a later class of the same name takes the place of an earlier one;
    non-trivial = always
    """
    flaw = case['flaw']
    inc, train = case['inc'], case['train'] or not case['inc']
    if flaw == 'no train':
        inc = train = False
    if flaw == 'incX':
        inc = True
    if flaw in ('trainX', 'trainY'):
        train = True
    x = 'data' if flaw == 'trainX' else 'trainX'
    y = 'labels' if flaw == 'trainY' else 'trainY'
    t = 'data' if flaw == 'testX' else 'testX'
    ix = 'data' if flaw == 'incX' else 'trainX'
    ex = case['extra']
    base = 'object' if flaw == 'not a learner' else 'nimble.CustomLearner'
    body = ['class Defined(%s):' % base,
            '    learnerType = %r' % ('oracle' if flaw == 'type'
                                      else case['type'])]
    if train:
        body += ['    def train(%s):' % call_signature([x, y], ex),
                 '        self.seen = 1']
    if inc:
        body += ['    def incrementalTrain(%s):'
                 % call_signature([ix, 'trainY'], ex),
                 '        self.seen = 2']
    if flaw != 'no apply':
        body += ['    def apply(%s):' % call_signature([t], ex),
                 '        return nimble.data([[self.seen + SHIFT]] * '
                 'len(testX.points), useLog=False)'
                 if t == 'testX' else '        return data']
    if case['scores'] or flaw == 'scores':
        sig = ex + [('more', False, 1)] if flaw == 'scores' else ex
        body += ['    def getScores(%s):' % call_signature([t], sig),
                 '        return %s' % t]
    if flaw == 'init':
        body += ['    def __init__(self, value):',
                 '        super().__init__()']
    if case['child']:
        body[0] = body[0].replace('Defined', 'Parent')
        body += ['class Defined(Parent):', '    pass']
    X = nimble.data([[1, 2], [3, 4], [5, 6]], useLog=False)
    Y = nimble.data([[0], [1], [1]], useLog=False)

    def make(shift):
        ns = {'nimble': nimble, 'SHIFT': shift}
        exec('\n'.join(body), ns)  # pylint: disable=exec-used
        return ns['Defined']

    def use(cls):
        return nimble.train(cls, X, Y, useLog=False)
    what = '\n'.join(body)
    ctx.nontrivial(True)
    ctx.label(str(flaw))
    cls = make(0)
    if flaw is not None:
        try:
            quiet(lambda: use(cls))
        except (TypeError, N.NimbleException):
            return
        raise Violation('accepted with the flaw %r:\n%s' % (flaw, what))
    seen = 1 if train else 2
    try:
        tl = quiet(lambda: use(cls))
        got = quiet(lambda: tl.apply(X, useLog=False)).copy('pythonlist')
    except Exception as e:
        raise Violation('%s: %s for\n%s' % (type(e).__name__, e, what)) from e
    ensure(got == [[seen]] * 3, 'predicted', got, what)
    ensure(tl.learnerType == case['type'] or case['type'] == 'undefined',
           'type', tl.learnerType)
    if case['again']:
        later = make(100)
        tl2 = quiet(lambda: use(later))
        got = quiet(lambda: tl2.apply(X, useLog=False)).copy('pythonlist')
        ensure(got == [[seen + 100]] * 3, 'the later class predicted', got)
        got = quiet(lambda: tl.apply(X, useLog=False)).copy('pythonlist')
        ensure(got == [[seen]] * 3, 'the earlier one then predicted', got)
        tl3 = quiet(lambda: use(cls))
        got = quiet(lambda: tl3.apply(X, useLog=False)).copy('pythonlist')
        ensure(got == [[seen]] * 3, 'the earlier class then predicted', got)


TESTS = [
    Test('arguments', cases(), check_arguments, quick=6000, thorough=60000),
    Test('definition', definitions(), check_definition, quick=1500,
         thorough=10000),
]
