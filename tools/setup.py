"""Checks that what the framework needs is there (it needs no build)."""
import os
import subprocess
import sys
assert os.path.exists('/opt/veriftools/tla/tla2tools.jar')
subprocess.run(['java', '-version'], check=True, stderr=subprocess.DEVNULL)
sys.path.insert(0, '/repo')
sys.dont_write_bytecode = True
import numpy, scipy, sklearn  # noqa
print('ok')
