"""Nothing is built ahead of the checks: make sure the tools are there."""
import os
import subprocess
import sys

import z3

from sx import loader

print('z3', z3.get_version_string())
py = os.environ.get('SX_PYTHON', '/opt/venv/bin/python')
subprocess.run([py, '-c', 'import M2Crypto, Crypto, pyasn1'], check=True)
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'evidence'), exist_ok=True)
print('constants in the code:', len(loader.constants()))
sys.exit(0)
