"""Sanity-checks the tools the checks need. Nothing has to be built or installed."""
import os, subprocess, sys
import z3
here = os.path.dirname(os.path.abspath(__file__))
for d in 'evidence', 'replays':
    os.makedirs(os.path.join(here, d), exist_ok=True)
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import arroba.util'], cwd='/repo')
print('z3', z3.get_version_string())
