#!/usr/bin/env python3
"""Launcher of one property check.

    run.py C01 [--tier quick|thorough] [--replay FILE] [--seed N] [--scale X]

Starts worker processes (lib/worker.py) on the property's tests, merges what
they report, writes evidence/<ID>.json and decides the exit status:
0 = held on everything explored, 1 = VIOLATION line printed, 2 = the check
itself failed (crash, hang, harness error).
"""
import argparse
import hashlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from lib import boot  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int,
                    default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--only', help='run only the tests with this prefix')
    ap.add_argument('--jobs', type=int, default=int(
        os.environ.get('VERIF_JOBS', '0')) or 8)
    ap.add_argument('--keep-going', action='store_true')
    args = ap.parse_args()
    if args.tier not in ('quick', 'thorough'):
        args.tier = 'quick'
    start = time.time()
    deps = boot.ensure_deps(HERE)
    repo = os.environ.get('VERIF_REPO', '/repo')
    scratch = tempfile.mkdtemp(prefix='nimverif-')
    try:
        code = drive(args, start, deps, repo, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.exit(code)


def drive(args, start, deps, repo, scratch):
    env = boot.worker_env(deps, repo, HERE, scratch)
    jobs = 1 if args.replay else args.jobs
    procs = []
    for k in range(jobs):
        wdir = os.path.join(scratch, 'w%d' % k)
        boot.prepare_home(wdir)
        wenv = dict(env, HOME=wdir)
        spec = {'id': args.id, 'shard': k, 'nshards': jobs,
                'seed': args.seed, 'tier': args.tier, 'scale': args.scale,
                'only': args.only, 'verif': HERE, 'dir': wdir,
                'out': os.path.join(scratch, 'out%d.json' % k),
                'replay': os.path.abspath(args.replay)
                          if args.replay else None}
        sp = os.path.join(scratch, 'spec%d.json' % k)
        with open(sp, 'w') as f:
            json.dump(spec, f)
        log = open(os.path.join(scratch, 'log%d' % k), 'wb')
        p = subprocess.Popen(
            [boot.PYTHON, os.path.join(HERE, 'lib', 'worker.py'), sp],
            cwd=wdir, env=wenv, stdout=log, stderr=subprocess.STDOUT,
            stdin=subprocess.DEVNULL, start_new_session=True)
        procs.append([p, spec['out'], log, None])
    limit = start + (840 if args.tier == 'quick' else 3000)
    results = [None] * jobs
    failed = None
    timed_out = False
    while True:
        live = False
        for k, item in enumerate(procs):
            if results[k] is not None:
                continue
            p = item[0]
            if p.poll() is None:
                live = True
                continue
            results[k] = load(item[1], p.returncode)
            if results[k].get('failure') and failed is None:
                failed = k
        if not live:
            break
        if failed is not None and not args.keep_going:
            break
        if time.time() > limit:
            timed_out = True
            break
        time.sleep(0.05)
    for p, _, log, _ in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()
        else:
            # descendants a case may have left behind
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        log.close()
    done = [r for r in results if r is not None]
    failures = [r['failure'] for r in done if r.get('failure')]
    errors = [(k, r['error']) for k, r in enumerate(results)
              if r is not None and r.get('error')]
    known_lines = []
    for r in done:
        known_lines += r.get('known', [])
    for line in known_lines:
        print(line)
    evidence(args, done, start, len(failures))
    if failures:
        fails = failures if args.keep_going else failures[:1]
        for f in fails:
            rdir = os.path.join(HERE, 'replays')
            os.makedirs(rdir, exist_ok=True)
            tag = hashlib.sha1(repr((f['test'], f['case'])).encode()
                               ).hexdigest()[:10]
            path = os.path.join(rdir, '%s-%s.json' % (args.id, tag))
            with open(path, 'w') as fh:
                json.dump(f, fh, indent=1)
            print('test: %s' % f['test'])
            print('case: %s' % f['case'][:3000])
            print('what: %s' % f['what'][:3000])
            print('VIOLATION property=%s replay=%s' % (args.id, path))
        return 1
    if errors or timed_out or any(r is None for r in results):
        for k, e in errors:
            print('harness error in worker %d:\n%s' % (k, e))
            tail(os.path.join(scratch, 'log%d' % k))
        if timed_out:
            print('workers did not finish in time')
        return 2
    ev = sum(t['evaluations'] for r in done for t in r['tests'].values())
    print('%s %s: held on %d cases, %.1f s' % (args.id, args.tier, ev,
                                              time.time() - start))
    return 0


def tail(path):
    try:
        with open(path, 'rb') as f:
            data = f.read()[-2500:]
        print(data.decode('utf-8', 'replace'))
    except OSError:
        pass


def load(path, rc):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return {'tests': {}, 'error': 'worker exited with %s and no result'
                                      % rc}


def evidence(args, done, start, nviol):
    tests = {}
    hashes = set()
    samples = []
    rules = {}
    for r in done:
        for name, t in r.get('tests', {}).items():
            d = tests.setdefault(name, {'evaluations': 0, 'nontrivial': set(),
                                        'labels': {}, 'skipped_time': 0})
            d['evaluations'] += t['evaluations']
            d['nontrivial'].update(t['nontrivial'])
            d['skipped_time'] += t.get('skipped_time', 0)
            for lab, n in t['labels'].items():
                d['labels'][lab] = d['labels'].get(lab, 0) + n
            hashes.update(name + h for h in t['nontrivial'])
            have = sum(1 for s in samples if s['test'] == name)
            for s in t['samples']:
                if have < 3:
                    samples.append({'test': name, 'case': s})
                    have += 1
            rules[name] = t['rule']
    rule = '; '.join('%s: %s' % kv for kv in sorted(rules.items()))
    doc = {
        'property': args.id, 'tier': args.tier, 'seed': args.seed,
        'level': 'exploration',
        'coverage': {
            'evaluations': sum(t['evaluations'] for t in tests.values()),
            'distinct_nontrivial': len(hashes),
            'rule': rule or 'none ran',
            'samples': samples or ['none'],
            'per_test': {
                name: {'evaluations': t['evaluations'],
                       'distinct_nontrivial': len(t['nontrivial']),
                       'skipped_out_of_time': t['skipped_time'],
                       'labels': dict(sorted(t['labels'].items()))}
                for name, t in sorted(tests.items())},
            'regressions_replayed': sum(r.get('regressions', 0)
                                        for r in done),
            'known_findings_replayed': sum(r.get('known_replayed', 0)
                                           for r in done),
        },
        'assumptions': sorted({a for r in done
                               for a in r.get('assumptions', [])}),
        'wall_s': round(time.time() - start, 2),
        'violations': nviol,
    }
    if args.replay or args.only:
        return
    path = os.path.join(HERE, 'evidence', args.id + '.json')
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1, sort_keys=True)
    os.replace(tmp, path)


if __name__ == '__main__':
    main()
