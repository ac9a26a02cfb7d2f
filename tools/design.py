#!/usr/bin/env python3
"""Writes DESIGN.md from the texts below, the catalogue and the checks."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

HEAD = '''# Property-based verification of nimble

(Written by tools/design.py. The properties are in properties.jsonl, the
commands in MANIFEST.json, both written by tools/catalog.py.)

## How a property is decided

Every property is decided by generated-input search against an explicit
oracle. `python3 run.py <ID>` (quick) and `python3 run.py <ID> --thorough` start
eight worker processes; each imports nimble from `/repo`'s working tree
(nothing is compiled; the extension-free python sources are what runs, in the
interpreter of /opt/venv) and drives the Hypothesis generators of
`props/<id>.py`. A *case* is a plain python literal, so that each failure is
shrunk by Hypothesis to a minimal case, written as
`replays/<ID>-<hash>.json`, and replayed with `run.py <ID> --replay FILE`.

* Seeds derive from VERIF_SEED, the test and the worker; the same seed gives
  the same cases. `--scale` multiplies the number of cases; the thorough tier
  uses ten to forty times the quick number, within a time budget.
* `ctx.nontrivial()` is called when a case meets the rule stated in the
  docstring of its check function (quoted below); `ctx.excluded(reason)` counts
  inputs about which the property says nothing; `ctx.label` counts classes of
  inputs. The evidence file of each run holds these numbers and samples of
  non-trivial cases.
* Each worker has a HOME and a working directory of its own under a scratch
  directory removed at the end; nimble's configuration and log live there.
  What writes, deletes or downloads files (C08, C27, C28, C35) does so below
  that directory only; the web (C35) is a stand-in that replaces
  requests.get and requests.head, nothing is contacted.
* A case that runs for over 40 seconds counts as a failure (TIMEOUT); a
  defect of a harness is reported as exit 2, never as a violation.
* The shared pieces: `lib/core.py` (cases, comparison, statistics),
  `lib/data.py` (tables, names, storage variants: `stirred` brings an object
  into another internal state, such as unsorted sparse storage, cached names
  or a view's copy, without changing what it holds), `lib/ops.py` (a catalogue
  of all public operations with generators of their arguments, used by C03,
  C04, C05, C27 and C34), `lib/model.py` (the table model).

The family reaches what the tests cannot because the tests fix small tables,
one data type history and one argument form each, while the defects found here
(over a hundred, below) need combinations: a data type with a history, a
name form with an axis length, a missing value with a fill function, a second
use of an object. What it cannot do is show absence: each claim holds for the
generated cases, within the sizes given (tables of up to about 6 x 6, histories
of up to 12 steps), which is where the small-scope argument places most of
such defects; large data (performance, memory) is not covered.

## The properties
'''

ORACLE = {
 'C01': 'Stateful model testing. Oracle: a list of rows with lists of optional names (lib/model.py), each operation written again as a few list operations. After every step shape, values, names, name lookups and the internal consistency of the object are compared, and for operations the model refuses an exception is required.',
 'C02': 'Stateful. Oracle: for every live object (original, copies, views, extracted parts) a list of names; every question about names is asked of all of them after every step, so that stale caches and shared dictionaries show.',
 'C03': 'Snapshot oracle: everything involved is snapshotted, one side changed in place in several ways (assignment, transform, renaming, writing into exposed arrays), the other side must equal its snapshot.',
 'C04': 'Differential: the same operation on a view and on an independent object built from the table of that range must give the same result or both fail; the source and the view are compared with snapshots after it; modifying operations must raise.',
 'C05': 'Fault injection: invalid arguments, colliding names, user functions that raise at the k-th call. Oracle: if the call raises, all objects equal their snapshots.',
 'C06': 'Oracle: the generated table; its raw form is produced from it by code of the harness (27 forms) and the object made by nimble.data must have its values, types and names.',
 'C07': 'Round trips through chains of types and raw forms, compared with the table after each step.',
 'C08': 'Round trip through files, byte content with quotes, separators, newlines in values and names.',
 'C09': 'Oracle: a parser of delimited text written in the harness (quoting, comments, blank lines) followed by list operations for each option.',
 'C10': 'Oracle: python and numpy arithmetic on single elements; names by the documented rules; operands by snapshots; in-place against binary.',
 'C11': 'Oracle: numpy arrays with broadcasting; defining equations (A inv(A) = I, the four Penrose conditions, normal equations) with tolerances scaled by the condition number; ill-conditioned systems are excluded.',
 'C12': 'Oracle: a relational join on lists of dictionaries, for each mode.',
 'C13': 'Oracle: dictionaries of lists built by direct loops.',
 'C14': 'Oracle: explicit index arithmetic for every element, plus the round trips.',
 'C15': 'Oracle: the comparison applied to the values by python; a small parser of the documented grammar decides which strings are unambiguous.',
 'C16': 'Oracle: each fill function written on lists; everything not matching is compared exactly.',
 'C17': 'Oracle: textbook definitions with fractions and the statistics module.',
 'C18': 'Oracle: published formulas with fractions; permutation of points as metamorphic relation.',
 'C19': 'Oracle: definitions with exact fractions (mean, z-score, range, percentile rank); metamorphic relations between first and second object: equal values get equal results, the parts of the second object do not influence each other.',
 'C20': 'Metamorphic: the same history under the same seed with and without disturbance of the python and numpy generators; alternate controls removed from a history must leave the rest as it is; structural checks of the random results.',
 'C21': 'Oracle: identifiers in the data: each id appears exactly once, next to its own label and name; counts by the documented rounding.',
 'C22': 'Differential: the scikit-learn estimator called directly with numpy arrays, or the custom learner class called by hand; recording learners log exactly what reached them.',
 'C23': 'Recording learners: every training and application is recorded with point ids; folds, performances, selection order and the final choice are recomputed from the record. Tuning objects used again are compared with new ones.',
 'C24': 'Oracle: brute-force definitions (distances with integers, gradient of the penalised error zero at the solution).',
 'C25': 'Oracle: binary learners trained by the harness on relabelled copies; votes and scores combined by direct counting.',
 'C26': 'Stateful: save, load (also in another process), retrain, incremental training, each compared with a learner made anew.',
 'C27': 'Oracle: the list of calls made; entries counted and read from the log database; showLog compared with a filter over that list.',
 'C28': 'Stateful model: three dictionaries (defaults, saved, changed) and a file; also over real processes.',
 'C29': 'Oracle: list comprehension over the addressed positions.',
 'C30': 'Oracle: the printed text is read back: columns by the header line, each shown cell must be the formatted value, order and truncation marks must fit the number of rows and columns left out.',
 'C31': 'Oracle: equality of the two tables of the model; each object reached through its own history of storage changes.',
 'C32': 'Recording functions: each call logs the vector it saw.',
 'C33': 'Oracle: dictionary of first appearances.',
 'C34': 'Differential between the four data types over the catalogue of public operations.',
 'C36': 'The marks, labels and legends expected are computed from the plain table and compared with the artists of the figure (Agg backend); pictures saved are recognized by a colour given to each figure.',
 'C37': 'Metamorphic: the flat object of two dimensions is the model; a stamp of dimensions, names, values and name before and after for refusals.',
 'C38': 'A plain list of rows of datetime objects is the model; every spelling of a moment in an answer is normalised to it.',
 'C39': 'The same network built, compiled, trained and applied directly with keras from the same seeds; weights, predictions, scores and labels are compared. Data whose points are entirely zero is not given as Sparse: TensorFlow itself refuses it.',
 'C40': 'Learner classes with generated signatures record what each of their methods receives; python\'s own binding of the arguments is the oracle.',
 'C35': 'A model of what the web serves and of the files below the data location; the web is replaced by stand-ins.',
}
EXCLUDED = {
 'C01': 'strings (and booleans mixed with numbers) in Sparse objects, see the known findings.',
 'C12': 'point names on one side only together with onFeature follow the documented rules only where those are unambiguous.',
 'C15': 'strings with more than one operator surrounded by spaces, documented as ambiguous.',
 'C18': 'the predict attribute of performanceFunction; the order of dictionary label keys.',
 'C19': 'booleans with range normalization (numpy refuses to subtract them); percentiles of fewer than two known values (0/0).',
 'C22': 'StandardScaler and Binarizer share the default name copy between two methods; random_state is left in learnerParameters.',
 'C23': 'iterative selection on plateaus; NaN performances; Bayesian search may use any whole number of a linear range.',
 'C24': 'singular systems; ties of distance at the k-th neighbour; Sparse test data with labels of text.',
 'C25': 'ties of votes; training sets with a single label; Sparse test data for scikit-learn.',
 'C26': 'copy.deepcopy of learners is not supported (cloudpickle is what save uses); batches of another width or with unseen labels.',
 'C27': 'two lambdas on one source line; the deep log of validation with other data is not made by nimble; maximumEntries applies before the level filter, as implemented and documented by the tests.',
 'C28': 'names or values with line breaks, surrounding blanks or "=" and ":" in names (the ini format cannot hold them); simultaneous sessions.',
 'C29': 'Sparse results that mix booleans and numbers; zeros kept by preserveZeros may become floats.',
 'C30': 'names or values with line breaks, two blanks in a row or wide characters (the text cannot be read back unambiguously); the automatic widths are not predicted, only the limits.',
 'C32': 'repeated indices in calculate; a function that returns a turned vector in calculate makes data of three dimensions, which existing tests define.',
 'C33': 'the order and number format of the names of binary features.',
 'C36': 'the order of ties of x in rolling averages; the automatic titles of comparisons; missing values other than in distributions; bins of more than ten distinct words.',
 'C35': 'two archives that put members of the same name into one directory; archives with a member named like the archive; URLs without a path.',
}
TAIL_FILE = os.path.join(HERE, 'tools', 'design_tail.md')


def tests_of(path):
    tree = ast.parse(open(path).read())
    docs = {n.name: ' '.join((ast.get_docstring(n) or '').split())
            for n in tree.body if isinstance(n, ast.FunctionDef)}
    for n in ast.walk(tree):
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'Test':
            quick = [k.value.value for k in n.keywords if k.arg == 'quick']
            doc = docs.get(getattr(n.args[2], 'id', ''), '')
            if isinstance(n.args[2], ast.Call):
                doc = docs.get(n.args[2].func.id, '')
            yield n.args[0].value, quick[0] if quick else '', doc


def seeded():
    """The planted bugs, and the checks that catch each."""
    at = os.path.join(HERE, 'seeded')
    caught = json.load(open(os.path.join(HERE, 'tools', 'caught.json')))
    out = []
    for name in sorted(os.listdir(at)):
        meta = json.load(open(os.path.join(at, name, 'meta.json')))
        out.append('* `%s` (%s): %s Needs: %s Caught by: %s.' % (
            name, meta['property'], meta['what_it_breaks'], meta['needs'],
            caught.get(name, 'no check')))
    return '\n'.join(out)


def main():
    props = [json.loads(l) for l in
             open(os.path.join(HERE, 'properties.jsonl'))]
    findings = [json.loads(l) for l in
                open(os.path.join(HERE, 'known_findings.jsonl'))]
    out = [HEAD]
    for p in props:
        out.append('### %s %s\n' % (p['id'], p['title']))
        out.append(ORACLE.get(p['id'], '') + '\n')
        path = os.path.join(HERE, 'props', p['id'].lower() + '.py')
        if os.path.exists(path):
            for name, quick, doc in tests_of(path):
                out.append('* `%s` (%s cases quick): %s' % (name, quick, doc))
        if p['id'] in EXCLUDED:
            out.append('* Not judged: ' + EXCLUDED[p['id']])
        fixed = [f for f in findings if f['property'] == p['id']
                 and f['status'] == 'fixed']
        if fixed:
            out.append('* Repaired on the way: ' + '; '.join(
                '%s (%s)' % (f['what'][:110], f['commit']) for f in fixed)
                + '.')
        for f in findings:
            if f['property'] == p['id'] and f['status'] == 'known':
                out.append('* Known finding %s: %s' % (f['id'], f['what']))
        out.append('')
    out.append(open(TAIL_FILE).read().replace('@SEEDED@', seeded()))
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


if __name__ == '__main__':
    main()
