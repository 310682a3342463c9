"""Nothing to compile: checks that the working tree and the tools are there."""
import os
import shutil
import subprocess
import sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from nv.harness import import_repo
import_repo()
for d in ('evidence', 'replay'):
    os.makedirs(os.path.join(V, d), exist_ok=True)
print('ok', sys.version.split()[0])
