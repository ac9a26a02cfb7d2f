"""C37: objects of more than two dimensions behave as their points do."""
import copy as copier
import os

import numpy as np
from hypothesis import strategies as st

import nimble
from lib import core
from lib.core import Test, Violation, ensure
from lib.data import TYPES, deep_same, names, snapshot, subset
from props.c14 import leaves, listed

N = nimble.exceptions
Base = nimble.core.data.Base

NUMS = [0, 1, 2, -1, 0.5, 0, 3, -2.5, 7]
GAPS = NUMS + [None, None]
TEXTS = ['a', 'b', 'zz', 1, 0, None]


@st.composite
def tensors(draw, ops):
    dims = [draw(st.integers(1, 5))] + draw(
        st.lists(st.integers(1, 3), min_size=2, max_size=3))
    n = int(np.prod(dims))
    rtype = draw(st.sampled_from(TYPES))
    pool = draw(st.sampled_from([NUMS, NUMS, GAPS, TEXTS] if rtype != 'Sparse'
                                else [NUMS, NUMS, GAPS]))
    cell = st.sampled_from(pool)
    case = {'dims': dims, 'type': rtype, 'pn': draw(names(dims[0])),
            'vals': draw(st.lists(cell, min_size=n, max_size=n)),
            'view': draw(st.sampled_from([None, None, (0, 1), (1, 1),
                                          (1, 0), (0, 0)])),
            'op': draw(st.sampled_from(ops)),
            'ks': draw(st.lists(st.integers(0, 6), min_size=1, max_size=4)),
            'other': draw(st.lists(st.sampled_from(NUMS), min_size=n,
                                   max_size=n)),
            'otype': draw(st.sampled_from(TYPES))}
    if case['view']:
        w = n // dims[0] * max(sum(case['view']), 1)
        case['around'] = draw(st.lists(cell, min_size=w, max_size=w))
    return case


def make(vals, dims, rtype, pn, view=None, around=()):
    """The tensor and its flat counterpart, perhaps views of larger ones."""
    pts, pn = listed(vals, dims), list(pn) if pn else None
    if view:
        w = int(np.prod(dims[1:]))
        extra = listed(list(around), [len(around) // w] + list(dims[1:]))
        pts = extra[:view[0]] + pts + extra[view[0]:sum(view)]
        if pn:
            pn = (['before'] * view[0] + pn + ['after'] * view[1])
    t = nimble.data(pts, returnType=rtype, pointNames=pn, useLog=False)
    f = nimble.data([list(leaves(p)) for p in pts], returnType=rtype,
                    pointNames=pn or False, featureNames=False, useLog=False)
    if not view:
        return t, f, None
    at = {'pointStart': view[0], 'pointEnd': view[0] + dims[0] - 1}
    return t.view(**at), f.view(**at), t


def ensure_like(got, flat, dims, what):
    """The tensor got holds what the flat object does."""
    rows = flat.copy('pythonlist')
    full = (len(rows),) + tuple(dims[1:])
    ensure(tuple(got.dimensions) == full, what, ': dimensions',
           got.dimensions, 'expected', full)
    ensure((len(got.points), len(got.features)) ==
           (len(flat.points), len(flat.features)), what, ': lengths')
    ensure(tuple(got.shape) == tuple(flat.shape), what, ': shape', got.shape)
    ensure(got.getTypeString() == flat.getTypeString(), what, ': type',
           got.getTypeString(), 'expected', flat.getTypeString())
    ensure(got.points.getNames() == flat.points.getNames(), what, ': names',
           got.points.getNames(), 'expected', flat.points.getNames())
    if rows:
        want = [listed(r, list(dims[1:])) for r in rows]
        have = got.copy('pythonlist')
        if not deep_same(have, want):
            raise Violation('%s: %r, expected %r' % (what, have, want))
        arr = got.copy('numpyarray')
        ensure(arr.shape == full, what, ': array of shape', arr.shape)
    got.checkInvariants()


def stamp(o):
    if o is None:
        return None
    return (tuple(o.dimensions), o.points.getNames(),
            o.copy('pythonlist') if min(o.shape) else [], o.name)


def ensure_stamp(before, o, what):
    if o is None:
        return
    now = stamp(o)
    if not deep_same(list(before), list(now)):
        raise Violation('%s: %r became %r' % (what, before, now))
    o.checkInvariants()


def attempt(f):
    try:
        return f(), None
    except Exception as e:  # pylint: disable=broad-except
        return None, e


def weight(p):
    vals = [v for v in p.copy('numpyarray').ravel().tolist()
            if isinstance(v, (int, float)) and v == v]
    return sum((i + 1) * v for i, v in enumerate(vals))


def seeded(f, k):
    nimble.random.setSeed(k + 1, useLog=False)
    return f()


def picked(o, ks):
    return subset(len(o.points), ks)


def keys(o, ks):
    """A key for several points, of one of the permitted kinds."""
    idx, how = picked(o, ks), ks[0] % 4
    p, nms = len(o.points), o.points.getNames()
    if how == 0:
        return slice(min(idx), max(idx))
    if how == 1 and all(nms[i] for i in idx):
        return [nms[i] for i in idx]
    if how == 2:
        return [i in idx for i in range(p)]
    return idx


SAME = {
    # calls giving a new object
    'copy': lambda o, x, k: o.points.copy(picked(o, k), useLog=False),
    'copy range': lambda o, x, k: o.points.copy(
        start=min(picked(o, k)), end=max(picked(o, k)), useLog=False),
    'copy number': lambda o, x, k: seeded(lambda: o.points.copy(
        number=1 + k[0] % len(o.points), randomize=bool(k[-1] % 2),
        useLog=False), k[0]),
    'getitem': lambda o, x, k: o.points[keys(o, k)],
    'repeat': lambda o, x, k: o.points.repeat(1 + k[0] % 3, bool(k[-1] % 2)),
    'unique': lambda o, x, k: o.points.unique(),
    'whole copy': lambda o, x, k: o.copy(),
    'copier': lambda o, x, k: copier.copy(o),
    'deep copier': lambda o, x, k: copier.deepcopy(o),
    'convert': lambda o, x, k: o.copy(TYPES[k[0] % 4]),
    'view': lambda o, x, k: o.view(pointStart=min(picked(o, k)),
                                   pointEnd=max(picked(o, k))),
    'neg': lambda o, x, k: -o, 'pos': lambda o, x, k: +o,
    'abs': lambda o, x, k: abs(o),
    'add': lambda o, x, k: o + x, 'sub': lambda o, x, k: o - x,
    'mul': lambda o, x, k: o * x, 'div': lambda o, x, k: o / x,
    'floordiv': lambda o, x, k: o // x, 'mod': lambda o, x, k: o % x,
    'pow': lambda o, x, k: o ** abs(x),
    'add number': lambda o, x, k: o + k[0],
    'radd': lambda o, x, k: k[0] + o,
    'rsub': lambda o, x, k: k[0] - o, 'mul number': lambda o, x, k: o * k[0],
    'rmul': lambda o, x, k: k[0] * o, 'div number': lambda o, x, k: o / k[0],
    'rdiv': lambda o, x, k: k[0] / o, 'mod number': lambda o, x, k: o % k[0],
    'rmod': lambda o, x, k: k[0] % o, 'floor': lambda o, x, k: o // k[0],
    'rpow': lambda o, x, k: k[0] ** abs(o),
    'pow number': lambda o, x, k: o ** k[0],
    'iadd': lambda o, x, k: o.__iadd__(x),
    'imul': lambda o, x, k: o.__imul__(x),
    'isub number': lambda o, x, k: o.__isub__(k[0]),
    'idiv': lambda o, x, k: o.__itruediv__(k[0]),
    'ipow': lambda o, x, k: o.__ipow__(k[0]),
    'train': lambda o, x, k: seeded(
        lambda: o.trainAndTestSets(k[0] / 6, useLog=False), k[-1])[0],
    'test': lambda o, x, k: seeded(
        lambda: o.trainAndTestSets(k[0] / 6, useLog=False), k[-1])[1],
    'labels': lambda o, x, k: seeded(lambda: o.trainAndTestSets(
        k[0] / 6, nimble.data([[i] for i in range(len(o.points))],
                              useLog=False), useLog=False), k[-1])[0],
    'reload': lambda o, x, k: reload(o),
    # calls changing the object
    'sort names': lambda o, x, k: o.points.sort(reverse=bool(k[0] % 2),
                                                useLog=False),
    'sort function': lambda o, x, k: o.points.sort(
        by=weight, reverse=bool(k[0] % 2), useLog=False),
    'sort comparison': lambda o, x, k: o.points.sort(
        by=lambda a, b: weight(a) - weight(b), reverse=bool(k[0] % 2),
        useLog=False),
    'retain': lambda o, x, k: o.points.retain(picked(o, k), useLog=False),
    'retain range': lambda o, x, k: o.points.retain(
        start=min(picked(o, k)), end=max(picked(o, k)), useLog=False),
    'delete': lambda o, x, k: o.points.delete(picked(o, k), useLog=False),
    'delete number': lambda o, x, k: o.points.delete(
        number=1 + k[0] % len(o.points), useLog=False),
    'extract': lambda o, x, k: o.points.extract(picked(o, k), useLog=False),
    'extract number': lambda o, x, k: seeded(lambda: o.points.extract(
        number=1 + k[0] % len(o.points), randomize=True, useLog=False), k[0]),
    'shuffle': lambda o, x, k: seeded(
        lambda: o.points.permute(useLog=False), k[0]),
    'permute': lambda o, x, k: o.points.permute(
        picked(o, k) + [i for i in range(len(o.points))
                        if i not in picked(o, k)], useLog=False),
    'replace': lambda o, x, k: o.points.replace(
        x.points.copy(picked(o, k), useLog=False), picked(o, k),
        useLog=False),
    'replace all': lambda o, x, k: o.points.replace(x, useLog=False),
    'append': lambda o, x, k: o.points.append(x, useLog=False),
    'insert': lambda o, x, k: o.points.insert(
        k[0] % len(o.points), x, useLog=False),
    'set names': lambda o, x, k: o.points.setNames(
        ['n%d' % i for i in range(len(o.points))], useLog=False),
    'set name': lambda o, x, k: o.points.setNames(
        'new', k[0] % len(o.points), useLog=False),
    'drop names': lambda o, x, k: o.points.setNames(None, useLog=False),
    'named': lambda o, x, k: setattr(o, 'name', 'thing'),
    # calls giving a value
    'max': lambda o, x, k: o.max(), 'min': lambda o, x, k: o.min(),
    'mean': lambda o, x, k: o.mean(), 'sum': lambda o, x, k: o.sum(),
    'median': lambda o, x, k: o.median(),
    'mode': lambda o, x, k: o.mode(),
    'uniqueCount': lambda o, x, k: o.uniqueCount(),
    'proportionZero': lambda o, x, k: o.proportionZero(),
    'proportionMissing': lambda o, x, k: o.proportionMissing(),
    'variance': lambda o, x, k: o.variance(),
    'quartiles': lambda o, x, k: o.quartiles(),
    'spread': lambda o, x, k: o.medianAbsoluteDeviation(),
    'containsZero': lambda o, x, k: o.containsZero(),
    'bool': lambda o, x, k: bool(o),
    'equal': lambda o, x, k: (o == x, o != x, x == o),
    'identical': lambda o, x, k: (o.isIdentical(x), x.isIdentical(o)),
    'identical self': lambda o, x, k: (o.isIdentical(o.copy()), o == o),
    'identical sorted': lambda o, x, k: o.isIdentical(
        o.points.copy(list(range(len(o.points)))[::-1], useLog=False)),
    'close': lambda o, x, k: (o.isApproximatelyEqual(x),
                              o.isApproximatelyEqual(o.copy())),
    'name of': lambda o, x, k: (o.points.getName(k[0] % len(o.points)),
                                o.points.getNames(), len(o.points)),
    'index of': lambda o, x, k: [o.points.getIndex(n)
                                 for n in o.points.getNames() if n],
    'has': lambda o, x, k: [o.points.hasName(n)
                            for n in (o.points.getNames() + ['zz'])],
    'report': lambda o, x, k: [v for v in o.report(useLog=False).copy(
        'pythonlist')[0] if isinstance(v, (int, float))][-2:],
    'text': lambda o, x, k: shown(str(o), o),
    'repr': lambda o, x, k: shown(repr(o), o),
    'toString': lambda o, x, k: o.toString(
        includePointNames=bool(k[0] % 2), lineWidthLimit=40 + 10 * k[-1],
        lineLimit=4 + k[0]),
    'points text': lambda o, x, k: (str(o.points), repr(o.points)),
}


def reload(o):
    """The object saved and loaded again."""
    path = os.path.join(core.SCRATCH, 'c37.pickle')
    try:
        o.save(path, useLog=False)
        return nimble.data(path, useLog=False)
    finally:
        if os.path.exists(path):
            os.remove(path)


def shown(text, o):
    """The text without what tells the dimensions, which is checked."""
    p, f = o.shape
    head = '%dpt x %dft' % (p, f)
    if len(o.dimensions) > 2:
        ensure(text.count(' dimensions encoded as ') == 1, 'text', text)
        head = ' x '.join(map(str, o.dimensions)) + (
            ' dimensions encoded as ' + head)
    ensure(head in text, 'text of', o.dimensions, text)
    return text.replace(head, '')


BAD = (TypeError, ValueError, ZeroDivisionError, IndexError, KeyError,
       N.NimbleException, OverflowError)


def check_same(case, ctx):
    """
    a call made on an object of three or four dimensions (or a view of one)
    does to its points what the same call does to the points of the flat
    object of two dimensions; non-trivial = the call is permitted, on several
    points
    """
    dims, rtype, op = list(case['dims']), case['type'], case['op']
    vals, around = case['vals'], case.get('around', ())
    if 'text' in op or op in ('repr', 'toString'):
        vals, around = [[float(v) if isinstance(v, int) else v for v in x]
                        for x in (vals, around)]
    args = (vals, dims, rtype, case['pn'], case['view'], around)
    t, f, src = make(*args)
    xt, xf, _ = make(case['other'], dims, case['otype'], None)
    what = '%s%s %r %r %r: %s %r with %s %r' % (
        rtype, ' view of %r' % (case['view'],) if case['view'] else '',
        dims, case['pn'], case['vals'], op, case['ks'], case['otype'],
        case['other'])
    ensure_like(t, f, dims, what + ' before')
    before, source, other = stamp(t), stamp(src), stamp(xt)
    call = SAME[op]
    want, refused = attempt(lambda: call(f, xf, case['ks']))
    got, error = attempt(lambda: call(t, xt, case['ks']))
    if isinstance(error, Violation):
        raise error
    if refused is not None:
        if not isinstance(refused, BAD):
            raise refused
        ensure(error is not None, what, ': permitted, though refused in two '
               'dimensions with', type(refused).__name__, str(refused)[:200])
        ensure(isinstance(error, type(refused)), what,
               ': raised', type(error).__name__, str(error)[:200],
               'expected', type(refused).__name__, str(refused)[:200])
        ensure_stamp(before, t, what + ' refused')
    elif error is not None:
        ensure(isinstance(error, N.ImproperObjectAction), what, ': raised',
               type(error).__name__, str(error)[:300],
               'though permitted in two dimensions')
        raise Violation('%s: not permitted: %s' % (what, error))
    elif isinstance(want, Base):
        ensure(isinstance(got, Base), what, ': gave', type(got).__name__)
        ensure_like(got, want, dims, what)
        ensure(got.name == want.name, what, ': name', got.name)
        ensure_like(t, f, dims, what + ' left')
    elif want is NotImplemented or isinstance(want, (list, tuple, str,
                                                     type(None))):
        ensure(type(got) is type(want), what, ': gave', got)
        ensure(deep_same(got, want) or (isinstance(want, (tuple, list)) and
                                        deep_same(list(got), list(want)))
               or close_to(got, want), what, ':', got, 'expected', want)
        ensure_like(t, f, dims, what + ' left')
    else:
        ensure(got == want or (got != got and want != want)
               or close_to(got, want), what, ':', got, 'expected', want)
        ensure_like(t, f, dims, what + ' left')
    if src is not None:
        ensure_stamp(source, src, what + ' source of the view')
    ensure_stamp(other, xt, what + ' argument')
    ctx.label(op)
    ctx.nontrivial(refused is None and dims[0] > 1)


def close_to(a, b):
    try:
        return bool(np.allclose(np.array(a, dtype=float),
                                np.array(b, dtype=float), equal_nan=True))
    except (TypeError, ValueError):
        return False


# ----------------------------------------------------- what is not permitted

REFUSED = {
    'len': lambda o, x: len(o), 'iter': lambda o, x: list(o),
    'getitem': lambda o, x: o[0, 0], 'getitem points': lambda o, x: o[0, :],
    'setitem': lambda o, x: o.__setitem__((0, 0), 5),
    'iterate': lambda o, x: list(o.iterateElements()),
    'binary': lambda o, x: o.replaceFeatureWithBinaryFeatures(
        0, useLog=False),
    'integers': lambda o, x: o.transformFeatureToIntegers(0, useLog=False),
    'transform': lambda o, x: o.transformElements(lambda v: 1, useLog=False),
    'calculate': lambda o, x: o.calculateOnElements(lambda v: 1,
                                                    useLog=False),
    'matching': lambda o, x: o.matchingElements(lambda v: True,
                                                useLog=False),
    'count': lambda o, x: o.countElements(lambda v: True),
    'countUnique': lambda o, x: o.countUniqueElements(),
    'group': lambda o, x: o.groupByFeature(0, useLog=False),
    'hash': lambda o, x: o.hashCode(),
    'featureView': lambda o, x: o.featureView(0),
    'view features': lambda o, x: o.view(
        featureStart=0, featureEnd=len(o.features) - 2)
    if len(o.features) > 1 else o.featureView(0),
    'transpose': lambda o, x: o.transpose(useLog=False),
    'T': lambda o, x: o.T,
    'rectangle': lambda o, x: o.replaceRectangle(5, 0, 0, 0, 0,
                                                 useLog=False),
    'merge': lambda o, x: o.merge(x, useLog=False),
    'inverse': lambda o, x: o.inverse(),
    'matmul': lambda o, x: o @ x, 'matrixMultiply':
        lambda o, x: o.matrixMultiply(x),
    'imatmul': lambda o, x: o.__imatmul__(x),
    'power': lambda o, x: o.matrixPower(2),
    'and': lambda o, x: o & x, 'or': lambda o, x: o | x,
    'xor': lambda o, x: o ^ x, 'invert': lambda o, x: ~o,
    'stretch': lambda o, x: o.stretch + nimble.data(
        [1] * len(o.features), useLog=False),
    'points count': lambda o, x: o.points.count(lambda p: True),
    'points transform': lambda o, x: o.points.transform(
        lambda p: [1] * len(p), useLog=False),
    'points calculate': lambda o, x: o.points.calculate(lambda p: 1,
                                                        useLog=False),
    'points matching': lambda o, x: o.points.matching(lambda p: True,
                                                      useLog=False),
    'points fill': lambda o, x: o.points.fillMatching(
        5, nimble.match.anything if hasattr(nimble.match, 'anything')
        else nimble.match.nonMissing, useLog=False),
    'points mapReduce': lambda o, x: o.points.mapReduce(
        lambda p: [(0, 1)], lambda k, v: (k, 1), useLog=False),
    'points similarities': lambda o, x: o.points.similarities(
        'correlation'),
    'points statistics': lambda o, x: o.points.statistics('max'),
    'points extract function': lambda o, x: o.points.extract(
        lambda p: True, useLog=False),
    'points delete function': lambda o, x: o.points.delete(
        lambda p: True, useLog=False),
    'points query': lambda o, x: o.points.extract('0 > -100', useLog=False),
    'points sort feature': lambda o, x: o.points.sort(by=0, useLog=False),
    'split': lambda o, x: o.points.splitByCollapsingFeatures(
        [0], 'a', 'b', useLog=False),
    'combine': lambda o, x: o.points.combineByExpandingFeatures(
        0, 1, useLog=False),
    'features get': lambda o, x: o.features[0],
    'features iter': lambda o, x: list(o.features),
    'features copy': lambda o, x: o.features.copy(0, useLog=False),
    'features extract': lambda o, x: o.features.extract(0, useLog=False),
    'features delete': lambda o, x: o.features.delete(0, useLog=False),
    'features retain': lambda o, x: o.features.retain(0, useLog=False),
    'features count': lambda o, x: o.features.count(lambda p: True),
    'features permute': lambda o, x: o.features.permute(useLog=False),
    'features transform': lambda o, x: o.features.transform(
        lambda p: [1] * len(p), useLog=False),
    'features calculate': lambda o, x: o.features.calculate(
        lambda p: 1, useLog=False),
    'features append': lambda o, x: o.features.append(x, useLog=False),
    'features insert': lambda o, x: o.features.insert(0, x, useLog=False),
    'features repeat': lambda o, x: o.features.repeat(2, True),
    'features fill': lambda o, x: o.features.fillMatching(
        5, nimble.match.nonMissing, useLog=False),
    'features normalize': lambda o, x: o.features.normalize(
        lambda a: a, useLog=False),
    'features unique': lambda o, x: o.features.unique(),
    'features report': lambda o, x: o.features.report(useLog=False),
    'features statistics': lambda o, x: o.features.statistics('max'),
    'features mean': lambda o, x: o.features.mean(),
    'features max': lambda o, x: o.features.max(),
    'labels': lambda o, x: o.trainAndTestSets(0.5, 0, useLog=False),
    'dicts': lambda o, x: o.copy('listofdict'),
    'dict': lambda o, x: o.copy('dictoflist'),
    'csr': lambda o, x: o.copy('scipycsr'),
    'csc': lambda o, x: o.copy('scipycsc'),
    'rows': lambda o, x: o.copy('pythonlist', rowsArePoints=False),
    'flat array': lambda o, x: o.copy('numpyarray', outputAs1D=True),
    'add other dims': lambda o, x: o + regrouped(o),
    'mul flat': lambda o, x: o * flattened(o),
    'iadd flat': lambda o, x: o.__iadd__(flattened(o)),
    'append flat': lambda o, x: o.points.append(flattened(o), useLog=False),
    'append regrouped': lambda o, x: o.points.append(regrouped(o),
                                                     useLog=False),
    'insert regrouped': lambda o, x: o.points.insert(0, regrouped(o),
                                                     useLog=False),
    'replace wrong': lambda o, x: o.points.replace(
        [1] * (len(o.features) + 1), [0], useLog=False),
    'replace unknown': lambda o, x: o.points.replace(x, [99], useLog=False),
    'copy unknown': lambda o, x: o.points.copy(['nope'], useLog=False),
    'delete unknown': lambda o, x: o.points.delete([99], useLog=False),
    'sort raising': lambda o, x: o.points.sort(
        by=lambda p: [][p.shape[0]], useLog=False),
    'unflatten': lambda o, x: o.unflatten((1, 1), useLog=False),
}


def regrouped(o):
    """A tensor as wide as o, of other dimensions."""
    d = list(o.dimensions)
    w = int(np.prod(d[1:]))
    new = [d[0], w, 1] if d[1:] != [w, 1] else [d[0], 1, w, 1]
    return nimble.data(listed([1] * (d[0] * w), new),
                       returnType=o.getTypeString(), useLog=False)


def flattened(o):
    return nimble.data([[1] * len(o.features)] * len(o.points),
                       returnType=o.getTypeString(), useLog=False)


def check_refused(case, ctx):
    """
    a call that has no meaning in more than two dimensions (or whose
    arguments do not fit) raises an exception of nimble's and leaves the
    object as it was; non-trivial = several points
    """
    dims, rtype, op = list(case['dims']), case['type'], case['op']
    t, f, src = make(case['vals'], dims, rtype, case['pn'], case['view'],
                     case.get('around', ()))
    x, _, _ = make(case['other'], dims, case['otype'], None)
    what = '%s%s %r %r %r: %s' % (
        rtype, ' view of %r' % (case['view'],) if case['view'] else '',
        dims, case['pn'], case['vals'], op)
    before, source, other = stamp(t), stamp(src), stamp(x)
    got, error = attempt(lambda: REFUSED[op](t, x))
    ensure(error is not None, what, ': not refused, gave', got)
    if op != 'sort raising' and not isinstance(
            error, (N.NimbleException, TypeError, IndexError, KeyError)):
        raise Violation('%s: raised %s: %s' % (
            what, type(error).__name__, error))
    ensure_stamp(before, t, what)
    ensure_like(t, f, dims, what)
    if src is not None:
        ensure_stamp(source, src, what + ' source of the view')
    ensure_stamp(other, x, what + ' argument')
    ctx.label(op)
    ctx.nontrivial(dims[0] > 1)


TESTS = [Test('same', tensors(sorted(SAME)), check_same, quick=12000),
         Test('refused', tensors(sorted(REFUSED)), check_refused,
              quick=8000)]
