"""C28: configuration set, get, save and reload agree."""
import configparser
import glob
import json
import os
import shutil
import sqlite3
import subprocess
import sys
import tempfile

import nimble
from hypothesis import strategies as st
from nimble.core import configuration

from lib import core
from lib.core import Test, ensure

N = nimble.exceptions
pick = st.sampled_from
SECTIONS = ['TestA', 'testa', 'B b', 'é', 'sklearn', 'logger']
OPTIONS = ['op', 'Op', 'a.b', 'x y', 'é', 'location']
VALUES = ['1', '2', '', 'True', 'a path/with space', 'C:\\dir\\f', '100%',
          '%(op)s', '%%', '${op}', 'é', 'a=b:c', 'x ; y', '# z', 'x # y',
          '[sec]', "'q'", 5, 4.5, True, None]
KEYS = [(s, o) for s in SECTIONS for o in OPTIONS
        if s != 'sklearn' or o == 'location']
ERRORS = (configparser.NoSectionError, configparser.NoOptionError)


def read_ini(path):
    """What is in the file, read without the code under test."""
    ret, sec = {}, None
    if not os.path.exists(path):
        return ret
    with open(path, encoding='utf-8') as f:
        for line in f.read().split('\n'):
            if not line.strip():
                continue
            if line[0] == '[':
                sec = line[1:line.rindex(']')]
                ret[sec] = {}
            else:
                opt, _, val = line.partition('=')
                ret[sec][opt.strip()] = val.strip()
    return ret


@st.composite
def histories(draw):
    def key():
        return list(draw(pick(few)))
    few = draw(st.lists(pick(KEYS), min_size=2, max_size=5, unique=True))
    vals = draw(st.lists(pick(VALUES), min_size=2, max_size=4))
    steps = []
    for _ in range(draw(st.integers(3, 14))):
        kind = draw(pick(['set', 'set', 'set', 'set', 'default', 'save all',
                          'save section', 'save option', 'get all mutate',
                          'get section mutate', 'reload', 'hook', 'hook',
                          'hook none', 'bad', 'file value', 'text']))
        steps.append([kind, key(), draw(pick(vals)), draw(st.integers(0, 7))])
    return {'start': draw(st.dictionaries(
        pick(['TestA', 'B b', 'old']), st.dictionaries(
            pick(OPTIONS[:4]), pick(['1', '2', 'v']), max_size=3),
        max_size=3)), 'steps': steps}


class Model:
    """The file, the changes of the session, and the hooks."""
    def __init__(self, start):
        self.file = {s: dict(o) for s, o in start.items()}
        self.changes = {}
        self.hooks = {}

    def all(self):
        ret = {s: dict(o) for s, o in self.file.items()}
        for (s, o), v in self.changes.items():
            ret.setdefault(s, {})[o] = v
        return ret

    def save(self, chosen):
        for s, o in chosen:
            self.file.setdefault(s, {})[o] = str(self.changes.pop((s, o)))

    def set(self, s, o, v):
        if self.file.get(s, {}).get(o, self) == v and isinstance(v, str):
            self.changes.pop((s, o), None)
        else:
            self.changes[(s, o)] = v


BAD = [
    lambda c: c.get(option='op'), lambda c: c.saveChanges(option='op'),
    lambda c: c.set('sklearn', 'other', 'x'),
    lambda c: c.set('nimble', 'location', 'x'),
    lambda c: c.set('custom', 'location', 'x'),
    lambda c: c.hook('TestA', 'op', 5),
    lambda c: c.hook('TestA', 'op', lambda a, b: None),
    lambda c: c.setDefault('sklearn', 'other', 'x')]


def check_history(case, ctx):
    """
    a history of one settings file and its sessions; non-trivial = something
    is saved, something is left unsaved, and there is a restart
    """
    folder = tempfile.mkdtemp(prefix='conf-', dir=core.SCRATCH)
    path = os.path.join(folder, 'settings.ini')
    kept = set()
    try:
        with open(path, 'w', encoding='utf-8') as f:
            for s, opts in case['start'].items():
                f.write('[%s]\n' % s)
                for o, v in opts.items():
                    f.write('%s = %s\n' % (o, v))
        m = Model(case['start'])
        conf = configuration.SessionConfiguration(path)
        calls = []
        for n, (kind, (s, o), v, k) in enumerate(case['steps']):
            what = '%r, step %d %s' % (case, n, kind)
            before = m.all()
            hooked = []
            if kind in ('set', 'file value', 'default'):
                if kind == 'file value' and o in m.file.get(s, {}):
                    v = m.file[s][o]
                if kind == 'default':
                    conf.setDefault(s, o, v)
                else:
                    conf.set(s, o, v)
                m.set(s, o, v)
                if kind == 'default' and (s, o) in m.changes:
                    m.save([(s, o)])
                    kept.add('saved')
                if m.hooks.get((s, o)) is not None:
                    hooked = [(m.hooks[(s, o)], v)]
            elif kind == 'save all':
                if m.changes:
                    kept.add('saved')
                conf.saveChanges()
                m.save(list(m.changes))
            elif kind == 'save section':
                conf.saveChanges(s)
                m.save([c for c in m.changes if c[0] == s])
            elif kind == 'save option':
                conf.saveChanges(s, o)
                m.save([c for c in m.changes if c == (s, o)])
            elif kind == 'get all mutate':
                got = conf.get()
                for opts in got.values():
                    for key in opts:
                        opts[key] = 'mutated'
                    opts['other'] = 'mutated'
                got['another'] = {}
            elif kind == 'get section mutate':
                if s in before:
                    got = conf.get(s)
                    for key in got:
                        got[key] = 'mutated'
                    got['other'] = 'mutated'
            elif kind == 'reload':
                if m.changes:
                    kept.add('unsaved')
                kept.add('restart')
                conf = configuration.SessionConfiguration(path)
                m.changes, m.hooks = {}, {}
            elif kind == 'hook':
                # the hook reads the setting that was changed
                toCall = make_hook(calls, conf, s, o, n)
                try:
                    conf.hook(s, o, toCall)
                    ensure(m.hooks.get((s, o), 0) is not None, what,
                           ': a hook where disallowed')
                    m.hooks[(s, o)] = n
                except N.ImproperObjectAction:
                    ensure(m.hooks.get((s, o), 0) is None, what,
                           ': the hook is refused')
            elif kind == 'hook none':
                if k < 3:
                    try:
                        conf.hook(s, o, None)
                    except N.ImproperObjectAction:
                        ensure(m.hooks.get((s, o), 0) is None, what,
                               ': refused')
                    m.hooks[(s, o)] = None
            elif kind == 'bad':
                try:
                    BAD[k](conf)
                    ensure(k == 1 and not m.changes, what, k,
                           ': not refused')
                except (N.InvalidArgumentValue, N.InvalidArgumentType,
                        N.InvalidArgumentValueCombination,
                        N.ImproperObjectAction):
                    pass
            elif kind == 'text':
                text = str(conf)
                want = m.all()
                ensure(read_text(text) == {
                    a: {b: str(c).strip() for b, c in d.items()}
                    for a, d in want.items()}, what, ': shown as', text)
                ensure(repr(conf).replace('\n ', '\n').count(
                    text.split('\n')[0]) >= 1, what, repr(conf))
            ensure(calls == [x for h, val in hooked
                             for x in ((h, val), val)], what,
                   ': hooks called', calls, 'for', hooked)
            del calls[:]
            check_state(conf, m, path, what)
            ctx.label(kind)
        if m.changes:
            kept.add('unsaved')
        ctx.nontrivial(len(kept) == 3)
    finally:
        shutil.rmtree(folder, ignore_errors=True)


def make_hook(calls, conf, s, o, n):
    """Records the value, and what the settings give then."""
    def toCall(value):
        calls.append((n, value))
        calls.append(conf.get(s, o))
    return toCall


def read_text(text):
    ret, sec = {}, None
    for line in text.split('\n'):
        if not line.strip():
            continue
        if line[0] == '[' and line.rstrip()[-1] == ']' and '=' not in line:
            sec = line.rstrip()[1:-1]
            ret[sec] = {}
        else:
            opt, _, val = line.partition('=')
            ret[sec][opt.strip()] = val.strip()
    return ret


def check_state(conf, m, path, what):
    """Everything that can be read."""
    want = m.all()
    got = conf.get()
    ensure(got == want, what, ': get gives', got, 'for', want)
    for s in set(SECTIONS) | set(want):
        try:
            opts = conf.get(s)
        except ERRORS:
            opts = None
        ensure(opts == want.get(s), what, ': section', s, 'has', opts, 'for',
               want.get(s))
        for o in set(OPTIONS) | set(want.get(s, ())):
            try:
                v = conf.get(s, o)
            except ERRORS:
                v = 'nothing'
            w = want.get(s, {}).get(o, 'nothing')
            ensure(v == w and type(v) is type(w), what, ':', s, o, 'is', v,
                   'for', w)
    disk = read_ini(path)
    ensure(disk == m.file, what, ': the file has', disk, 'for', m.file)


# ----------------------------------------------------- which file is loaded

@st.composite
def places(draw):
    content = st.one_of(st.none(), st.dictionaries(
        pick(['fetch', 'logger', 'TestA']), st.dictionaries(
            pick(['location', 'name', 'op']), pick(['1', 'x y']),
            max_size=2), max_size=2))
    return {'home': draw(content), 'cwd': draw(content),
            'value': draw(pick(VALUES[:8])), 'dir': draw(pick(
                ['h', 'h%ome', 'with space']))}


def check_places(case, ctx):
    """
    settings loaded where the home and the working folder each have a file
    or not; non-trivial = one of them has content
    """
    folder = tempfile.mkdtemp(prefix='conf-', dir=core.SCRATCH)
    old, home0 = os.getcwd(), os.environ.get('HOME')
    try:
        paths = {}
        for k in ('home', 'cwd'):
            d = os.path.join(folder, k + case['dir'])
            os.makedirs(d)
            paths[k] = os.path.join(d, '.nimble.ini')
            if case[k] is not None:
                with open(paths[k], 'w', encoding='utf-8') as f:
                    for s, opts in case[k].items():
                        f.write('[%s]\n' % s)
                        for o, v in opts.items():
                            f.write('%s = %s\n' % (o, v))
        os.environ['HOME'] = os.path.dirname(paths['home'])
        os.chdir(os.path.dirname(paths['cwd']))
        used = 'home' if case['cwd'] is None else 'cwd'
        other = 'cwd' if used == 'home' else 'home'
        want = {s: dict(o) for s, o in (case[used] or {}).items()}
        if 'location' not in want.get('fetch', {}):
            want.setdefault('fetch', {})['location'] = os.environ['HOME']
        for turn in range(2):
            conf = configuration.loadSettings()
            ensure(conf.get() == want, case, ': loaded', conf.get(), 'for',
                   want)
            ensure(read_ini(paths[used]) == want, case, ': the file',
                   read_ini(paths[used]), 'for', want)
            ensure(os.path.exists(paths[other]) == (case[other] is not None)
                   and (case[other] is None
                        or read_ini(paths[other]) == case[other]), case,
                   ': the other file changed')
            if turn == 0:
                conf.set('TestA', 'unsaved', '7')
                conf.setDefault('TestA', 'op', case['value'])
                want.setdefault('TestA', {})['op'] = case['value']
        ctx.label('used ' + used)
        ctx.nontrivial(case['home'] or case['cwd'])
    finally:
        os.chdir(old)
        if home0 is not None:
            os.environ['HOME'] = home0
        shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------- settings that have an effect

effects = st.fixed_dictionaries({'steps': st.lists(st.tuples(
    pick(['location', 'name', 'enabledByDefault', 'log', 'log', 'load',
          'load']), st.integers(0, 3)).map(list),
    min_size=3, max_size=12)})
ENABLED = ['True', 'False', True, 'false']


def check_effects(case, ctx):
    """
    a history of the settings of the logger and of what is logged;
    non-trivial = entries go to two files
    """
    folder = tempfile.mkdtemp(prefix='conf-', dir=core.SCRATCH)
    was = {k: nimble.settings.get('logger', k)
           for k in ('location', 'name', 'enabledByDefault')}
    want = {}
    try:
        nimble.settings.set('logger', 'location', os.path.join(folder, '0'))
        for n, (kind, k) in enumerate(case['steps']):
            if kind == 'location':
                nimble.settings.set('logger', kind,
                                    os.path.join(folder, str(k)))
            elif kind == 'name':
                nimble.settings.set(
                    'logger', kind, [was['name'], 'b', 'c', 'b'][k])
            elif kind == 'enabledByDefault':
                nimble.settings.set('logger', kind, ENABLED[k])
            else:
                on = True
                if kind == 'log':
                    nimble.log('entry %d' % n, 'x')
                else:
                    nimble.data([[1]], name='entry %d' % n)
                    on = str(nimble.settings.get(
                        'logger', 'enabledByDefault')).lower() == 'true'
                if on:
                    want.setdefault(os.path.join(
                        nimble.settings.get('logger', 'location'),
                        nimble.settings.get('logger', 'name') + '.db'),
                        []).append('entry %d' % n)
            ctx.label(kind)
        got = {}
        for path in glob.glob(os.path.join(folder, '*', '*.db')):
            c = sqlite3.connect(path)
            for kind, info in c.execute('select logType, logInfo from logger '
                                        'order by entry'):
                got.setdefault(path, []).append(
                    kind[7:] if kind.startswith('User') else
                    info.split("'identifier': '")[1].split("'")[0])
            c.close()
        ensure(got == want, case, ': entries', got, 'for', want)
        ctx.nontrivial(len(want) > 1)
    finally:
        for k, v in was.items():
            nimble.settings.set('logger', k, v)
        ensure(str(nimble.core.logger.active.logLocation)
               == was['location'], 'the logger is not back at', was)
        shutil.rmtree(folder, ignore_errors=True)


# ------------------------------------------------------------------- restarts

restarts = st.fixed_dictionaries({'runs': st.lists(st.lists(st.tuples(
    pick(['set', 'default', 'save']), pick([
        ('TestA', 'op'), ('TestA', 'p'), ('logger', 'name'),
        ('logger', 'enabledByDefault'), ('fetch', 'location'),
        ('sklearn', 'location')]), pick(['x', 'True', 'False', '50%', '']))
    .map(list), min_size=1, max_size=4), min_size=2, max_size=3)})

SCRIPT = '''
import json, sys
import nimble
first = nimble.settings.get()
for kind, (s, o), v in json.loads(sys.argv[1]):
    if kind == 'set':
        nimble.settings.set(s, o, v)
    elif kind == 'default':
        nimble.settings.setDefault(s, o, v)
    else:
        nimble.settings.saveChanges()
print('RESULT' + json.dumps([first, nimble.settings.get()]))
'''


def check_restarts(case, ctx):
    """
    processes one after another that use one settings file; non-trivial =
    something is saved
    """
    home = tempfile.mkdtemp(prefix='conf-', dir=core.SCRATCH)
    saved, said = {}, False
    try:
        defaults = None
        for run in case['runs']:
            env = dict(os.environ)
            env.update(HOME=home)
            r = subprocess.run([sys.executable, '-W', 'ignore', '-c', SCRIPT,
                                json.dumps(run)], env=env, cwd=home,
                               capture_output=True, text=True, timeout=200)
            lines = [x for x in r.stdout.split('\n')
                     if x.startswith('RESULT')]
            ensure(lines, case, ': fails', r.stdout[-500:], r.stderr[-800:])
            first, last = json.loads(lines[0][6:])
            if defaults is None:
                defaults = {(s, o): v for s, d in first.items()
                            for o, v in d.items()}
            for (s, o), v in {**defaults, **saved}.items():
                if v == '' and s == 'logger':
                    continue        # an empty value asks for the default
                ensure(first.get(s, {}).get(o) == v, case, ': starts with',
                       s, o, first.get(s, {}).get(o), 'for', v)
            extra = {(s, o) for s, d in first.items() for o in d}
            ensure(extra == set(defaults) | set(saved), case,
                   ': starts with', extra)
            now = {(s, o): v for s, d in first.items() for o, v in d.items()}
            changes = {}
            for kind, (s, o), v in run:
                if kind != 'save':
                    now[(s, o)] = changes[(s, o)] = v
                if kind == 'default':
                    saved[(s, o)] = v
                    changes.pop((s, o))
                    said = True
                if kind == 'save':
                    saved.update(changes)
                    said = said or bool(changes)
                    changes = {}
            got = {(s, o): v for s, d in last.items() for o, v in d.items()}
            ensure(got == now, case, ': ends with', got, 'for', now)
        ctx.nontrivial(said)
    finally:
        shutil.rmtree(home, ignore_errors=True)


TESTS = [Test('history', histories(), check_history, quick=6000),
         Test('places', places(), check_places, quick=400),
         Test('effects', effects, check_effects, quick=400),
         Test('restarts', restarts, check_restarts, quick=24, thorough=100)]
