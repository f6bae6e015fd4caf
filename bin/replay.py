#!/usr/bin/env python3
"""Replay a violation on the real code: bin/replay.py evidence/replay/FILE.json"""
import json, os, shutil, subprocess, sys, tempfile
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
os.environ.setdefault('PVC_PY', '/opt/venv/bin/python')
data = json.load(open(sys.argv[1]))
if 'case' not in data:
    print(json.dumps(data, indent=1))
    sys.exit(1)
if os.path.realpath(sys.executable) != os.path.realpath(os.environ['PVC_PY']) and not os.environ.get('PVC_REEXEC'):
    os.environ['PVC_REEXEC'] = '1'
    os.execv(os.environ['PVC_PY'], [os.environ['PVC_PY']] + sys.argv)
from pvc import runner
scratch = tempfile.mkdtemp(prefix='pvc-replay-')
try:
    extra = {}
    if data['build'] == 'accel':
        accel, log = runner.build_accel(scratch)
        extra = {'PYTHONPATH': VERIF + os.pathsep + accel, 'PVC_ACCEL': accel}
    sys.exit(subprocess.call([sys.executable, '-m', 'pvc.worker', 'replay', data['property'], data['build'], os.path.abspath(sys.argv[1])],
                             env=runner.env(extra), cwd=scratch))
finally:
    shutil.rmtree(scratch, ignore_errors=True)
