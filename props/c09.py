"""C09: CSV loading options select and clean exactly as stated."""
import copy
import csv
import gzip
import io
import os
import tarfile
import tempfile
import zipfile

from hypothesis import strategies as st

import nimble
from lib import core
from lib.core import Test, Violation, ensure
from lib.data import (NAMEPOOL, TYPES, Table, ensure_consistent,
                      ensure_table, nan, sparse_ok, stirred)

WORDS = ['a', 'b', 'cc', 'x y', 'NA', 'NULL', 'None', 'nan', '?', 'say "hi"', 'p,q',
         'two\nlines', 'é', '1a', '-', 'true']
MISSING = [None, '', 'None', 'nan', 'NULL', 'NA', nan]


def cell(kind):
    return {
        'int': st.sampled_from(['0', '1', '2', '-3', '12', '007', '+4',
                                '100000000000']),
        'float': st.sampled_from(['0.0', '1.5', '-2.25', '1e3', '.5', '3',
                                  '-0.125', '2.']),
        'bool': st.sampled_from(['True', 'False']),
        'text': st.sampled_from(WORDS),
        'na': st.sampled_from(['', '', '1', '2.5', 'NA', 'nan']),
        'empty': st.just(''),
        'mixed': st.sampled_from(['True', '1', '', '2.5', 'False', 'a']),
    }[kind]


@st.composite
def cases(draw):
    p, f = draw(st.integers(1, 6)), draw(st.integers(1, 5))
    kinds = draw(st.lists(st.sampled_from(
        ['int', 'int', 'float', 'float', 'bool', 'text', 'na', 'empty',
         'mixed']), min_size=f, max_size=f))
    holes = draw(st.booleans())
    cols = [draw(st.lists(st.one_of(cell(k), cell(k), cell(k),
                                    st.just('')) if holes else cell(k),
                          min_size=p, max_size=p)) for k in kinds]
    return {
        'cells': [[c[i] for c in cols] for i in range(p)], 'f': f,
        'pnames': draw(st.permutations(NAMEPOOL))[:p],
        'fnames': draw(st.permutations(NAMEPOOL))[:f],
        'blank': draw(st.one_of(st.just(9), st.just(9), st.integers(0, 9))),
        'pn': draw(st.sampled_from([True, True, False, 'list', 'dict',
                                    'kept', None])),
        'fn': draw(st.sampled_from([True, True, False, 'list', 'dict',
                                    'kept', None])),
        'keepp': draw(st.one_of(st.none(), st.lists(
            st.tuples(st.integers(0, 5), st.booleans()), min_size=1,
            max_size=5))),
        'keepf': draw(st.one_of(st.none(), st.lists(
            st.tuples(st.integers(0, 5), st.booleans()), min_size=1,
            max_size=5))),
        'missing': draw(st.sampled_from(['default', 'default', 'none',
                                         'texts', 'numbers'])),
        'with': draw(st.sampled_from([nan, nan, 0, 'gone'])),
        'ignore': draw(st.integers(0, 3)) == 0,
        'convert': draw(st.sampled_from([None, None, None, str, float,
                                         'list', 'dict'])),
        'sep': draw(st.sampled_from(',,,,;\t| :')),
        'lines': draw(st.lists(st.integers(0, 6), max_size=3)),
        'head': draw(st.sampled_from(['', '', '#c\n', '\n\n', '# a,b\n\n#\n',
                                      '\n'])),
        'end': draw(st.sampled_from(['\n', '\n', '', '\n\n'])),
        'crlf': draw(st.integers(0, 4)) == 0,
        'quote': draw(st.integers(0, 3)) == 0,
        'source': draw(st.sampled_from(['path', 'path', 'binary', 'text',
                                        'stringio', 'bytesio', 'gz', 'zip',
                                        'tar', 'noext'])),
        'rtype': draw(st.sampled_from(TYPES + (None, None))),
        'k': draw(st.integers(0, 63)),
    }


def number(text):
    for kind in (int, float):
        try:
            return kind(text)
        except ValueError:
            pass
    return None


def read_column(cells):
    """('number' | 'bool' | 'text' | 'empty', values): '' stays ''."""
    full = [c for c in cells if c != '']
    if not full:
        return 'empty', list(cells)
    if all(number(c) is not None for c in full):
        return 'number', ['' if c == '' else number(c) for c in cells]
    if all(c in ('True', 'False') for c in full):
        return 'bool', ['' if c == '' else c == 'True' for c in cells]
    return 'text', list(cells)


def text_of(case, cells, pn, fn):
    """The delimited text of these cells, with names where they are True."""
    sep = case['sep']

    def field(s):
        if case['quote'] or any(c in s for c in (sep, '"', '\n', '\r')):
            return '"%s"' % s.replace('"', '""')
        return s
    lines = []
    if fn is not None:
        lines.append((['pt'] if pn is not None else []) + fn)
    for i, r in enumerate(cells):
        lines.append(([pn[i]] if pn is not None else []) + r)
    out = []
    for i, r in enumerate(lines):
        s = sep.join(map(field, r))
        if not s:
            s = '""'    # an empty line is no data
        out.append(s)
        if i in case['lines']:
            out.append('')
    return case['head'] + '\n'.join(out) + case['end']


def source_of(case, text):
    if case['crlf']:
        text = text.replace('\n', '\r\n')
    path = os.path.join(core.SCRATCH, 'table.csv')
    how = case['source']
    data = text.encode('utf-8')
    if how == 'noext':
        path = os.path.join(core.SCRATCH, 'table')
    elif how == 'gz':
        path += '.gz'
        data = gzip.compress(data)
    elif how == 'zip':
        path = os.path.join(core.SCRATCH, 'table.zip')
        b = io.BytesIO()
        with zipfile.ZipFile(b, 'w') as z:
            z.writestr('table.csv', data)
        data = b.getvalue()
    elif how == 'tar':
        path = os.path.join(core.SCRATCH, 'table.tar')
        b = io.BytesIO()
        with tarfile.open(fileobj=b, mode='w') as t:
            info = tarfile.TarInfo('table.csv')
            info.size = len(data)
            t.addfile(info, io.BytesIO(data))
        data = b.getvalue()
    elif how == 'stringio':
        return io.StringIO(text)
    elif how == 'bytesio':
        return io.BytesIO(data)
    with open(path, 'wb') as f:
        f.write(data)
    if how == 'binary':
        return open(path, 'rb')
    if how == 'text':
        return open(path, 'r', encoding='utf-8')
    return path


def pick(wanted, names, byname):
    """Distinct indices and how they are spelled."""
    n = len(names)
    idx, spell = [], []
    for i, name in wanted:
        i %= n
        if i in idx:
            continue
        idx.append(i)
        spell.append(names[i] if name and byname and names[i] else i)
    return idx, spell


def member(v, values):
    for w in values:
        if v is None or w is None:
            if v is w:
                return True
        elif v != v or w != w:
            if v != v and w != w:
                return True
        elif isinstance(v, str) == isinstance(w, str) and v == w:
            return True
    return False


def check(case, ctx):
    """
    delimited text with quoting, blank lines and comments, read with
    options for names, kept parts, missing values, ignored features and
    types; non-trivial = a kept part, ignored feature, type or missing value
    option together with more than one value
    """
    cells = [list(r) for r in case['cells']]
    p, f = len(cells), case['f']
    pn_in = case['pn'] is True
    fn_in = case['fn'] is True
    pnames, fnames = list(case['pnames']), list(case['fnames'])
    if fn_in and case['blank'] < f and (f > 1 or pn_in):
        fnames[case['blank']] = ''
    kw = {}
    # a last column without any value or name is a trailing separator
    if all(r[-1] == '' for r in cells) and (not fn_in or fnames[-1] == ''):
        if f > 1:
            for r in cells:
                r[-1] = '1'
        else:
            cells = [['1'] for r in cells]
    if not pn_in and not fn_in and f == 1 and cells[0][0] == '':
        cells[0][0] = '5'
    text = text_of(case, cells, pnames if pn_in else None,
                   fnames if fn_in else None)
    opts = 0
    # names
    give = {}
    sel = {}
    for axis, mode, names, inside, keep, n in (
            ('point', case['pn'], pnames, pn_in, case['keepp'], p),
            ('feature', case['fn'], fnames, fn_in, case['keepf'], f)):
        known = [x or None for x in names]
        if mode in (False, None):
            give[axis] = False
            known = [None] * n
        elif mode is True:
            give[axis] = True
        elif mode == 'dict':
            give[axis] = {x: i for i, x in enumerate(names)}
        elif mode in ('list', 'kept'):
            give[axis] = list(names)
        idx = None
        if keep is not None:
            byname = known[0] is not None or inside
            if mode == 'kept':
                idx, spell = pick(keep, known, False)
                if len(idx) < n:
                    # these are the names of the kept ones only
                    give[axis] = names[:len(idx)]
                    for j, i in enumerate(idx):
                        known[i] = names[j]
                    byname = False
                else:
                    idx = None
            else:
                idx, spell = pick(keep, known, byname)
            if idx is not None and len(idx) == n and not inside:
                # refused, since that only reorders
                idx = None
        if idx is not None:
            kw['keep' + axis.capitalize() + 's'] = spell
            opts += 1
            sel[axis] = idx
        else:
            sel[axis] = list(range(n))
            if mode == 'kept':
                give[axis] = list(names)
                known = list(names)
        if axis == 'point':
            pknown = known
        else:
            fknown = known
    kw['pointNames'], kw['featureNames'] = give['point'], give['feature']
    # values of the kept parts
    treat, repl = MISSING, nan
    if case['missing'] == 'none':
        kw['treatAsMissing'] = treat = []
    elif case['missing'] == 'texts':
        treat = ['', 'NA', '?', 'a']
    elif case['missing'] == 'numbers':
        treat = [1, '', 'cc', 2.5]
    if treat is not MISSING:
        kw['treatAsMissing'] = list(treat)
        if case['missing'] != 'none':
            repl = kw['replaceMissingWith'] = case['with']
        opts += 1
    cols, kinds, fidx = [], [], []
    for j in sel['feature']:
        kind, vals = read_column([cells[i][j] for i in sel['point']])
        if case['ignore'] and (kind == 'text' or (
                kind == 'empty' and '' not in treat)):
            continue
        if kind in ('number', 'bool', 'empty') and not (
                kind == 'empty' and '' not in treat):
            # an empty cell is no number: missing, whatever it is called
            vals = [nan if v == '' else v for v in vals]
        cols.append(vals)
        kinds.append(kind)
        fidx.append(j)
    if case['ignore']:
        kw['ignoreNonNumericalFeatures'] = True
        opts += 1
    if not cols:
        return
    # how a missing boolean is held (or replaced by a value) is not specified
    if any(k == 'bool' and any(v != v for v in c)
           for k, c in zip(kinds, cols)) and case['missing'] != 'default':
        return
    if case['missing'] in ('texts', 'numbers') and any(
            isinstance(v, float) and v != v for c in cols for v in c):
        # an empty cell of a number column: is it the text ''?
        if not member('', treat):
            return
        treat = treat + [nan]
        kw['treatAsMissing'] = list(treat)
    boolean = any(isinstance(v, bool) for c in cols for v in c)
    if boolean and case['missing'] == 'numbers':
        return
    cols = [[repl if member(v, treat) else v for v in c] for c in cols]
    want = Table([list(r) for r in zip(*cols)],
                 [pknown[i] for i in sel['point']],
                 [fknown[j] for j in fidx], len(cols))
    # conversion
    conv = case['convert']
    if conv is not None and not case['ignore']:
        flat = [v for c in cols for v in c]
        numeric = [all(isinstance(v, (int, float))
                       and not isinstance(v, bool) for v in c) for c in cols]
        if conv is float and all(numeric):
            kw['convertToType'] = float
            opts += 1
        elif conv is str and all(isinstance(v, str) for v in flat):
            kw['convertToType'] = str
            opts += 1
        elif conv in ('list', 'dict') and len(cols) > 1 and any(numeric):
            kinds = [float if n else None for n in numeric]
            if conv == 'list':
                kw['convertToType'] = kinds
                opts += 1
            elif all(want.fn):
                kw['convertToType'] = {x: t for x, t in zip(want.fn, kinds)
                                       if t}
                opts += 1
    rtype = case['rtype']
    if rtype == 'Sparse' and not sparse_ok(want.rows):
        rtype = None
    # only guessed for the plainest first line
    first = text[len(case['head']):].split('\n')[0]
    fields = first.split(',')
    if case['sep'] == ',' and len(fields) > 1 and case['k'] % 2 and all(
            x.isalnum() and x.isascii() for x in fields):
        pass
    else:
        kw['inputSeparator'] = case['sep']
    what = 'nimble.data(%r, returnType=%r, %s)' % (
        text, rtype, ', '.join('%s=%r' % i for i in kw.items()))
    src = source_of(case, text)
    delim = csv.excel.delimiter
    saved = copy.deepcopy(kw)
    try:
        o = nimble.data(src, returnType=rtype, useLog=False, **kw)
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e)) \
            from e
    finally:
        if hasattr(src, 'close'):
            src.close()
    ensure(repr(saved) == repr(kw), what, 'arguments changed', kw)
    ensure(csv.excel.delimiter == delim, what,
           'changed the csv module for everyone')
    wantrows = [[nan if v is None else v for v in r] for r in want.rows]
    want.rows = wantrows
    ensure_table(o, want, what, rtype=None if rtype == 'Matrix' else rtype)
    ensure_consistent(o, what)
    stirred(o, case['k'])
    ensure_table(o, want, what + ', used')
    if case['k'] % 3 == 0 and not opts - len([x for x in kw if x in (
            'keepPoints', 'keepFeatures', 'treatAsMissing')]):
        # the rows of the file as features, each argument for its own axis
        swap = {'pointNames': 'featureNames', 'keepPoints': 'keepFeatures'}
        swap.update({b: a for a, b in swap.items()})
        kw = {swap.get(a, a): v for a, v in copy.deepcopy(kw).items()}
        what = 'nimble.data(%r, returnType=%r, rowsArePoints=False, %s)' % (
            text, rtype, ', '.join('%s=%r' % i for i in kw.items()))
        src = source_of(case, text)
        try:
            o = nimble.data(src, returnType=rtype, useLog=False,
                            rowsArePoints=False, **kw)
        except Exception as e:
            raise Violation('%s raised %s: %s' % (
                what, type(e).__name__, e)) from e
        finally:
            if hasattr(src, 'close'):
                src.close()
        ensure_table(o, want.T(), what,
                     rtype=None if rtype == 'Matrix' else rtype)
        ensure_consistent(o, what)
        ctx.label('rows as features')
    for axis, idx in sel.items():
        if len(idx) < (p if axis == 'point' else f):
            ctx.label('kept ' + axis + 's')
    ctx.label(case['source'], 'missing ' + case['missing'])
    ctx.nontrivial(opts > 0 and want.np * want.nf > 1)


@st.composite
def wrong(draw):
    c = draw(cases())
    c['what'] = draw(st.sampled_from(['point', 'feature']))
    c['how'] = draw(st.sampled_from(['repeat', 'end', 'past', 'negative',
                                     'name', 'both', 'ragged']))
    return c


def check_wrong(case, ctx):
    """
    selections that name something twice or something that is not there, and
    rows of different lengths are refused; non-trivial = always
    """
    cells = [list(r) for r in case['cells']]
    p, f = len(cells), case['f']
    if p < 2 or f < 2:
        return
    for r in cells:
        if r[-1] == '':
            r[-1] = '1'
    pn = list(case['pnames']) if case['k'] % 2 else None
    fn = list(case['fnames']) if case['k'] % 4 > 1 else None
    axis, how = case['what'], case['how']
    names = pn if axis == 'point' else fn
    n = p if axis == 'point' else f
    i = case['k'] % n
    bad = {'repeat': [i, i], 'end': [n], 'past': [n + 3], 'negative': [-1],
           'name': ['no such name'], 'ragged': None,
           'both': [i, names[i]] if names else ['no such name']}[how]
    if how == 'repeat' and names and case['k'] > 31:
        bad = [names[i], names[i]]
    if bad is not None and case['k'] % 3 == 0 and n > len(bad) + 1:
        other = [j for j in range(n) if j != i][0]
        bad = [other] + bad
    if how == 'ragged':
        cells[-1] = cells[-1] + ['1'] if case['k'] % 3 else cells[-1][:-1]
    text = text_of(case, cells, pn, fn)
    kw = {'pointNames': pn is not None, 'featureNames': fn is not None,
          'inputSeparator': case['sep']}
    if bad is not None:
        kw['keep' + axis.capitalize() + 's'] = bad
    what = 'nimble.data(%r, %s)' % (
        text, ', '.join('%s=%r' % i for i in kw.items()))
    src = source_of(case, text)
    try:
        o = nimble.data(src, useLog=False, returnType=case['rtype']
                        if case['rtype'] != 'Sparse' else None, **kw)
    except nimble.exceptions.NimbleException:
        ctx.nontrivial(True)
        ctx.label(how)
        return
    except Exception as e:
        raise Violation('%s raised %s: %s' % (what, type(e).__name__, e)) \
            from e
    finally:
        if hasattr(src, 'close'):
            src.close()
    raise Violation('%s was accepted: %r' % (what, o.copy('pythonlist')))


@st.composite
def guessed(draw):
    f = draw(st.integers(1, 4))
    p = draw(st.integers(1, 5))
    kinds = [draw(st.sampled_from(['num', 'num', 'float', 'text', 'bool']))
             for _ in range(f)]
    cell = {'num': st.integers(-20, 20).map(str),
            'float': st.sampled_from(['0.5', '-1.25', '3.0', '1e3']),
            'text': st.sampled_from(['aa', 'b b', 'c', 'x7']),
            'bool': st.sampled_from(['True', 'False'])}
    cells = [[draw(cell[k]) for k in kinds] for _ in range(p)]
    holes = draw(st.booleans())
    for r in cells[1:]:
        for j in range(f):
            if holes and draw(st.integers(0, 4)) == 0:
                r[j] = ''
    some = st.lists(st.integers(0, 4), min_size=1, max_size=3, unique=True)
    return {'cells': cells, 'kinds': kinds,
            'first': draw(st.sampled_from(['names', 'names', 'same',
                                           'number', 'data'])),
            'corner': draw(st.sampled_from([None, '', '', 'pointNames'])),
            'ids': [draw(st.sampled_from(['p', 'q', 'r', 's', 't', 'u', '7',
                                          'v', 'w']))
                    if draw(st.booleans()) else 'only %d' % i
                    for i in range(p)],
            'keepP': draw(st.none() | some), 'keepF': draw(st.none() | some),
            'ignore': draw(st.integers(0, 4)) == 0,
            'sep': draw(st.sampled_from([',', '\t', ';'])),
            'blank': draw(st.booleans()), 'head': draw(st.booleans()),
            'rtype': draw(st.sampled_from([None, 'List', 'DataFrame',
                                           'Matrix']))}


def check_guessed(case, ctx):
    """
    names found automatically are those found when they are said to be in
    the file; non-trivial = names are in it
    """
    cells, corner, sep = case['cells'], case['corner'], case['sep']
    p, f = len(cells), len(case['kinds'])
    ids = case['ids']
    fn = ['na', 'nb', 'nc', 'nd'][:f]
    feature = any(k in ('num', 'float') for k in case['kinds'])
    first = case['first']
    if first == 'same' and f > 1:
        fn[-1] = fn[0] if f < 3 else fn[1]
        if f < 3:
            return
        feature = False
    elif first == 'number':
        fn[0] = '12'
        feature = False
    elif first == 'data':
        fn = None
        feature = False
    point = False
    rows = [list(r) for r in cells]
    if corner is not None and fn is not None:
        rows = [[i] + r for i, r in zip(ids, rows)]
        fn = [corner] + fn
        distinct = len(set(ids)) == p
        if not feature:
            # a number in the first column would be one as well
            return
        point = distinct if corner == '' else True
        if point and not distinct:
            return
        if corner == '' and rows[0][0] == '7':
            return
    if fn is None and not any(k in ('num', 'float') for k in case['kinds']):
        # a line of texts
        return
    lines = ([fn] if fn is not None else []) + rows
    width = len(lines[0])
    if width == 1 and any(r == [''] for r in lines):
        return
    text = ''.join(sep.join(r) + '\n' for r in lines)
    if case['blank']:
        text = text.replace('\n', '\n\n', 1)
    if case['head']:
        text = '# a comment\n' + text
    kw = {'inputSeparator': sep, 'returnType': case['rtype'],
          'useLog': False}
    n = len(lines) - feature
    if case['keepP'] is not None:
        kw['keepPoints'] = [i for i in case['keepP'] if i < n] or [0]
    if case['keepF'] is not None:
        m = width - point
        if m < 1:
            return
        kw['keepFeatures'] = [i for i in case['keepF'] if i < m] or [0]
    if case['ignore']:
        kw['ignoreNonNumericalFeatures'] = True

    def load(**more):
        with tempfile.TemporaryDirectory() as d:
            path = os.path.join(d, 'a.csv')
            with open(path, 'w', newline='') as out:
                out.write(text)
            try:
                o = nimble.data(path, **more, **kw)
            except nimble.exceptions.NimbleException as e:
                return type(e).__name__
        return (o.copy('pythonlist'), o.points.getNames(),
                o.features.getNames(), o.getTypeString())
    what = 'nimble.data(%r, %r)' % (text, kw)
    want = load(pointNames=point, featureNames=feature)
    got = load()
    ensure(repr(got) == repr(want), what, 'gives', got, 'and with pointNames='
           '%s, featureNames=%s gives %r' % (point, feature, want))
    ctx.label(str((point, feature)))
    ctx.nontrivial(feature)


TESTS = [Test('options', cases(), check, quick=9000),
         Test('refused', wrong(), check_wrong, quick=1500),
         Test('automatic', guessed(), check_guessed, quick=2500)]
