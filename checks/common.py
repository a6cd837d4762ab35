"""Scratch build of /repo's working tree, shared by all checks."""
import os
import shutil
import subprocess
import sys
import sysconfig
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/veriftools/pyvenv/bin/python3'
if not os.path.exists(PY):
    PY = sys.executable


def scratch_build(build_c=True):
    """copy the package and build the C name mapper from its current source;
    /repo itself is never written"""
    d = tempfile.mkdtemp(prefix='verif_')
    shutil.copytree(os.path.join(REPO, 'Cheetah'), os.path.join(d, 'Cheetah'),
                    ignore=shutil.ignore_patterns('__pycache__', '*.so',
                                                  '*.pyc', 'Tests'))
    if os.path.isdir(os.path.join(REPO, 'bin')):
        shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(d, 'bin'))
    msg = ''
    if build_c:
        src = os.path.join(d, 'Cheetah', 'c', '_namemapper.c')
        if os.path.exists(src):
            so = os.path.join(d, 'Cheetah', '_namemapper' +
                              sysconfig.get_config_var('EXT_SUFFIX'))
            inc = sysconfig.get_paths()['include']
            if not os.path.exists(os.path.join(inc, 'Python.h')):
                inc = '/usr/include/python3.12'
            p = subprocess.run(
                ['gcc', '-shared', '-fPIC', '-O1', '-w', '-I', inc,
                 '-I', os.path.join(d, 'Cheetah', 'c'), src, '-o', so],
                capture_output=True, text=True)
            if p.returncode:
                msg = p.stderr[-2000:]
    return d, msg


def remove(d):
    if d and os.path.basename(d).startswith('verif_') and \
            d.startswith(tempfile.gettempdir()):
        shutil.rmtree(d, ignore_errors=True)
