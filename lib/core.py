"""Test declarations, statistics, contexts and value comparison."""
import hashlib
import json
import math
import os
import traceback

SCRATCH = None
TIER = 'quick'


class HarnessError(Exception):
    """Something is wrong with the check, not with the code it checks."""


class CaseTimeout(HarnessError):
    pass


class Found(AssertionError):
    """A violation, raised for hypothesis to shrink."""


class Violation(AssertionError):
    """An oracle disagreed with the code."""


def on_alarm(signum, frame):
    raise CaseTimeout('a single case ran out of time (inconclusive)')


class Test:
    def __init__(self, name, strategy, check, quick, thorough=None, rule='',
                 alarm=200, shrink_s=60):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15
        self.rule = rule or (check.__doc__ or '').strip()
        self.alarm = alarm
        self.shrink_s = shrink_s


class Stats:
    def __init__(self, test):
        self.rule = ' '.join(test.rule.split())
        self.evaluations = 0
        self.skipped_time = 0
        self.nontrivial = set()
        self.labels = {}
        self.samples = []

    def asdict(self):
        return {'evaluations': self.evaluations, 'rule': self.rule,
                'nontrivial': sorted(self.nontrivial),
                'labels': self.labels, 'samples': self.samples,
                'skipped_time': self.skipped_time}


class Ctx:
    """What a check tells the harness about the case it is given."""
    def __init__(self, stats, replaying=False):
        self.stats = stats
        self.replaying = replaying
        self._nontrivial = False

    def label(self, *labels):
        for lab in labels:
            lab = str(lab)
            self.stats.labels[lab] = self.stats.labels.get(lab, 0) + 1

    def nontrivial(self, really=True):
        if really:
            self._nontrivial = True

    def excluded(self, finding):
        """
        Is a region of a known finding to be left out here? Counted, and
        never left out when the finding's own case is replayed.
        """
        if self.replaying:
            return False
        self.label('excluded:' + finding)
        return True

    def finish(self, key):
        if self._nontrivial:
            h = hashlib.blake2b(key.encode('utf-8', 'surrogatepass'),
                                digest_size=6).hexdigest()
            if h not in self.stats.nontrivial:
                self.stats.nontrivial.add(h)
                if len(self.stats.samples) < 3 and len(key) < 1500:
                    self.stats.samples.append(key)


def parse_case(text):
    return eval(text, {'__builtins__': {}, 'nan': float('nan'),
                       'inf': float('inf')})


def describe(e):
    tb = traceback.extract_tb(e.__traceback__)
    where = ['%s:%d %s' % (os.path.basename(fr.filename), fr.lineno, fr.name)
             for fr in tb[-6:]]
    if isinstance(e, Violation):
        return str(e)[:6000]
    return '%s: %s  [%s]' % (type(e).__name__, str(e)[:1500],
                             ' < '.join(reversed(where)))


def load_findings(verif, prop):
    path = os.path.join(verif, 'known_findings.jsonl')
    ret = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith('#'):
                    entry = json.loads(line)
                    if entry['property'] == prop:
                        ret.append(entry)
    return ret


# --------------------------------------------------------------- comparing

def missing(v):
    if v is None:
        return True
    try:
        return bool(v != v)
    except Exception:
        return False


def same(a, b, tol=0.0):
    """
    Are two elements the same value? Missing values (None, nan) are one
    value; numbers compare by value whatever their type.
    """
    ma, mb = missing(a), missing(b)
    if ma or mb:
        return ma and mb
    sa, sb = isinstance(a, str), isinstance(b, str)
    if sa or sb:
        return sa and sb and str(a) == str(b)
    try:
        if a == b:
            return True
    except Exception:
        return False
    if tol:
        try:
            fa, fb = float(a), float(b)
        except (TypeError, ValueError):
            return False
        if math.isinf(fa) or math.isinf(fb):
            return fa == fb
        return abs(fa - fb) <= tol * max(1.0, abs(fa), abs(fb))
    return False


def same_rows(a, b, tol=0.0):
    if len(a) != len(b):
        return False
    for ra, rb in zip(a, b):
        if len(ra) != len(rb):
            return False
        for x, y in zip(ra, rb):
            if not same(x, y, tol):
                return False
    return True


def ensure(cond, *msg):
    if not cond:
        raise Violation(' '.join(m if isinstance(m, str) else repr(m)
                                 for m in msg))


def ensure_rows(got, want, what, tol=0.0):
    if not same_rows(got, want, tol):
        raise Violation('%s: got %r, expected %r' % (what, got, want))
