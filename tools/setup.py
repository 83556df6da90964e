"""Setup: everything the checks need is in the sandbox; this only makes sure of it."""
import os
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True

import click    # noqa: E402,F401
import spacy    # noqa: E402,F401

for root, _, names in os.walk(HERE):
    for name in names:
        if name.endswith('.py') and 'seeded' not in root:
            with open(os.path.join(root, name)) as f:
                compile(f.read(), name, 'exec')
with tempfile.TemporaryDirectory() as d:
    subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', os.path.join(d, 'shim.so'),
                           os.path.join(HERE, 'native', 'crashshim.c'), '-ldl'])
print('ready')
