"""C34: what an operation does not depend on the data type."""
from hypothesis import strategies as st

from lib.core import Test, Violation
from lib.data import TYPES, Table, build, sparse_ok, tables
from lib.ops import (OPS, R, REGISTRY, Env, Skip, canon, canon_same,
                     canon_name, choices)

# the layout of printed tables is C30's, random orders are C20's
NOT_HERE = {'to_string', 'printed'}
NAMES = [o.name for o in OPS if o.name not in NOT_HERE]


def table_for(name):
    o = REGISTRY[name]
    kw = dict(kinds=o.kinds)
    return st.one_of(tables(**kw), tables(**kw), tables(percol=False, **kw))


def cases_for(names):
    return st.sampled_from(names).flatmap(
        lambda n: st.fixed_dictionaries({
            'table': table_for(n), 'op': st.just(n), 'ks': choices,
            'atype': st.sampled_from(TYPES)}))


def outcome(case, rtype):
    """('ok', result, object after) or ('raised', type name)."""
    t = Table.of(case['table'])
    o = build(case['table'], rtype)
    env = Env(t, case['atype'])
    try:
        ret = REGISTRY[case['op']].run(o, R(case['ks']), env)
        ret = canon(ret)
    except Skip:
        raise
    except Exception as e:
        return ('raised', type(e).__name__, str(e)[:200])
    return ('ok', ret, canon(o))


NO_OBJECT = 'object dtype is not supported by sparse'


def mixes(case, ref):
    """Are there booleans or text in the table or in the outcome?"""
    def plain(x):
        if isinstance(x, tuple):
            return all(plain(v) for v in x[1:]) if x[:1] == ('object',) \
                else all(plain(v) for v in x)
        return not isinstance(x, str)
    rows = case['table']['rows']
    if any(isinstance(v, bool) for r in rows for v in r):
        return True
    # names of axes may be text without any text in the data
    for part in ref[1:]:
        if isinstance(part, tuple) and part[:1] == ('object',):
            part = part[2]
        if not plain(part):
            return True
    return False


def by_name(res):
    """The order of the binary features is not specified."""
    if res[0] != 'ok':
        return res
    _, (kind, dims, rows, pn, fn) = res[1:]
    order = sorted(range(len(fn)), key=lambda j: str(fn[j]))
    return ('ok', tuple(sorted(map(canon_name, res[1]))),
            (kind, dims, tuple(tuple(r[j] for j in order) for r in rows),
             pn, tuple(fn[j] for j in order)))


def check(case, ctx):
    """
    one public operation on a generated table, run once in each data type;
    non-trivial = the table has at least two cells and the operation
    succeeded
    """
    kinds = [x for x in TYPES if x != 'Sparse'
             or sparse_ok(case['table']['rows'])]
    try:
        res = {x: outcome(case, x) for x in kinds}
    except Skip:
        ctx.label('does not apply')
        return
    ref = res['List']
    ctx.label('op ' + case['op'] + (' raised' if ref[0] == 'raised' else ''))
    for x in kinds[1:]:
        got = res[x]
        if x == 'Sparse' and got[0] == 'raised' and NO_OBJECT in got[2] \
                and mixes(case, ref) and ctx.excluded('C34-sparse-object'):
            continue
        if case['op'] == 'binary_features':
            ref, got = by_name(ref), by_name(got)
        if got[0] != ref[0]:
            raise Violation('%s: List %r, %s %r' % (case['op'], ref, x, got))
        if got[0] == 'ok' and not (canon_same(got[1], ref[1])
                                   and canon_same(got[2], ref[2])):
            raise Violation('%s: List gives %r, %s gives %r'
                            % (case['op'], ref[1:], x, got[1:]))
    ctx.nontrivial(ref[0] == 'ok' and len(case['table']['rows'])
                   * case['table']['f'] >= 2)


TESTS = [Test('equivalence', cases_for(NAMES), check, quick=9000)]
