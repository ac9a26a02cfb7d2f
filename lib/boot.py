"""Environment of the worker processes and the offline dependencies."""
import glob
import os
import shutil
import tempfile
import zipfile

PYTHON = '/opt/venv/bin/python'
WHEELS = '/opt/veriftools/wheels'
INI = """[logger]
location = {loc}
name = log-nimble
enabledByDefault = False
enableDeepLogging = False

[fetch]
location = {loc}
"""


def ensure_deps(here):
    """
    Unpack hypothesis and sortedcontainers (not in nimble's own environment)
    next to the framework; the path of the unpacked packages is returned.
    """
    target = os.path.join(here, '.deps')
    if os.path.isfile(os.path.join(target, 'hypothesis', '__init__.py')):
        return target
    tmp = tempfile.mkdtemp(prefix='.deps-', dir=here)
    for pattern in ('hypothesis-*-cp312-*.whl', 'sortedcontainers-*.whl'):
        found = sorted(glob.glob(os.path.join(WHEELS, pattern)))
        if not found:
            raise SystemExit('no wheel %s in %s' % (pattern, WHEELS))
        with zipfile.ZipFile(found[-1]) as z:
            z.extractall(tmp)
    try:
        os.rename(tmp, target)
    except OSError:     # another check was faster
        shutil.rmtree(tmp, ignore_errors=True)
    return target


def worker_env(deps, repo, here, scratch):
    env = {k: v for k, v in os.environ.items()
           if k in ('TZ', 'VERIF_SEED', 'VERIF_TIER')}
    env.update({
        'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8',
        'PATH': '/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:'
                '/usr/bin:/sbin:/bin',
        'PYTHONDONTWRITEBYTECODE': '1', 'PYTHONHASHSEED': '0',
        'PYTHONPATH': os.pathsep.join([repo, here, deps]),
        'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': scratch,
        'OMP_NUM_THREADS': '1', 'OPENBLAS_NUM_THREADS': '1',
        'MKL_NUM_THREADS': '1', 'TF_NUM_INTRAOP_THREADS': '1',
        'TF_NUM_INTEROP_THREADS': '1', 'TF_CPP_MIN_LOG_LEVEL': '3',
        'CUDA_VISIBLE_DEVICES': '-1', 'TMPDIR': scratch,
        'VERIF_REPO': repo,
    })
    return env


def prepare_home(path):
    os.makedirs(path, exist_ok=True)
    with open(os.path.join(path, '.nimble.ini'), 'w') as f:
        f.write(INI.format(loc=path))
