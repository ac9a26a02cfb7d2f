"""One worker process: runs a shard of the cases of one property."""
import ast  # noqa: F401
import importlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
import zlib


def main():
    with open(sys.argv[1]) as f:
        spec = json.load(f)
    out = {'tests': {}, 'known': [], 'failure': None, 'error': None}
    try:
        run(spec, out)
    except BaseException:   # noqa: B902  reported to the launcher
        out['error'] = traceback.format_exc()
    tmp = spec['out'] + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.replace(tmp, spec['out'])
    os._exit(0)


def run(spec, out):
    warnings.simplefilter('ignore')
    import numpy
    numpy.seterr(all='ignore')
    import nimble
    warnings.simplefilter('ignore')
    real = os.path.realpath(os.path.dirname(nimble.__file__))
    want = os.path.realpath(os.path.join(os.environ['VERIF_REPO'], 'nimble'))
    if real != want:
        raise RuntimeError('nimble was imported from %s' % real)
    from lib import core
    mod = importlib.import_module('props.' + spec['id'].lower())
    out['assumptions'] = list(getattr(mod, 'ASSUMPTIONS', []))
    tests = {t.name: t for t in mod.TESTS}
    core.SCRATCH = spec['dir']
    core.TIER = spec['tier']

    def attempt(test, case, ctx):
        """None, or what went wrong."""
        signal.signal(signal.SIGALRM, core.on_alarm)
        signal.alarm(test.alarm)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                test.check(case, ctx)
        except core.HarnessError:
            raise
        except (KeyboardInterrupt, MemoryError):
            raise
        except Exception as e:
            return core.describe(e)
        finally:
            signal.alarm(0)
        return None

    if spec['replay']:
        with open(spec['replay']) as f:
            rep = json.load(f)
        test = tests[rep['test']]
        case = core.parse_case(rep['case'])
        st = core.Stats(test)
        out['tests'][test.name] = st.asdict()
        st.evaluations += 1
        what = attempt(test, case, core.Ctx(st))
        out['tests'][test.name] = st.asdict()
        if what is not None:
            out['failure'] = {'property': spec['id'], 'test': test.name,
                              'case': rep['case'], 'what': what}
        return

    # committed regressions and known findings, in shard 0 only
    out['regressions'] = out['known_replayed'] = 0
    if spec['shard'] == 0:
        for entry in core.load_findings(spec['verif'], spec['id']):
            if 'case' not in entry:
                continue
            test = tests[entry['test']]
            if spec['only'] and not test.name.startswith(spec['only']):
                continue
            st = core.Stats(test)
            ctx = core.Ctx(st, replaying=True)
            what = attempt(test, core.parse_case(entry['case']), ctx)
            if entry['status'] == 'known':
                out['known_replayed'] += 1
                if what is not None:
                    out['known'].append('KNOWN-FINDING: property=%s %s'
                                        % (spec['id'], entry['what']))
            else:
                out['regressions'] += 1
                if what is not None and out['failure'] is None:
                    out['failure'] = {
                        'property': spec['id'], 'test': test.name,
                        'case': entry['case'], 'what': what}
        if out['failure']:
            return

    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    start = time.time()
    cap = 420 if spec['tier'] == 'quick' else 2400
    for test in mod.TESTS:
        if spec['only'] and not test.name.startswith(spec['only']):
            continue
        total = test.quick if spec['tier'] == 'quick' else test.thorough
        total = max(1, int(total * spec['scale']))
        n, rest = divmod(total, spec['nshards'])
        # shards get the remainder in an order that depends on the test
        n += ((spec['shard'] + zlib.crc32(test.name.encode()))
              % spec['nshards']) < rest
        st = core.Stats(test)
        out['tests'][test.name] = st.asdict()
        if n == 0:
            continue
        state = {'first': None, 'failed': {}, 'last': None}

        def body(case, test=test, st=st, state=state):
            key = repr(case)
            if state['first'] is None:
                if time.time() - start > cap:
                    st.skipped_time += 1
                    return
            elif time.time() - state['first'] > test.shrink_s:
                if key not in state['failed']:
                    return
            st.evaluations += 1
            ctx = core.Ctx(st)
            what = attempt(test, case, ctx)
            ctx.finish(key)
            if what is None:
                return
            if state['first'] is None:
                state['first'] = time.time()
            state['failed'][key] = what
            state['last'] = (key, what)
            raise core.Found(what)

        seed = (spec['seed'] * 1000003 + spec['shard'] * 7919
                + zlib.crc32(test.name.encode())) & 0x7fffffff
        inner = given(test.strategy)(body_wrapper(body))
        inner = settings(
            max_examples=n, database=None, deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False)(inner)
        inner = hypothesis.seed(seed)(inner)
        try:
            inner()
        except core.HarnessError:
            raise
        except core.Found:
            pass
        except Exception:
            if state['last'] is None:
                raise
        except BaseException as e:
            # ExceptionGroup of Found is still a find
            if state['last'] is None:
                raise
        out['tests'][test.name] = st.asdict()
        if state['last'] is not None:
            out['failure'] = {'property': spec['id'], 'test': test.name,
                              'case': state['last'][0],
                              'what': state['last'][1],
                              'seed': spec['seed']}
            return


def body_wrapper(body):
    def test(case):
        body(case)
    return test


if __name__ == '__main__':
    main()
