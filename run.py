#!/opt/venv/bin/python
"""run.py ID [quick|thorough]: runs the check of a property. run.py replay FILE: replays a violation.
run.py list: the ids."""
import importlib
import os
import pkgutil
import subprocess
import sys
import tempfile

os.environ.setdefault('PYTHONHASHSEED', '0')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)

import gbmon.core as core    # noqa: E402
import gbmon.checks          # noqa: E402


# checks that need the shim that kills at, or records, the writes to files
NEEDS_SHIM = ('H11',)


def main(argv):
    if os.environ.get('_GBMON_SEEDED') != '1':
        # the hash seed only counts when set before the interpreter starts
        os.environ['_GBMON_SEEDED'] = '1'
        os.environ['PYTHONHASHSEED'] = '0'
        wanted = os.path.basename(argv[1]) if argv[0] == 'replay' else argv[0]
        if wanted[:3] in NEEDS_SHIM:
            d = tempfile.mkdtemp(prefix='gbmon_shim_')
            shim = os.path.join(d, 'crashshim.so')
            subprocess.check_call(['gcc', '-O1', '-shared', '-fPIC', '-o', shim,
                                   os.path.join(HERE, 'native', 'crashshim.c'), '-ldl'])
            os.environ['LD_PRELOAD'] = shim
            os.environ['GBMON_SHIM'] = shim
        os.execv(sys.executable, [sys.executable] + sys.argv)
    if argv[0] == 'replay':
        import json
        with open(argv[1]) as f:
            wanted = json.load(f)['property']
    else:
        wanted = argv[0]
    shim = os.environ.pop('GBMON_SHIM', None)
    if shim:
        # it stays loaded
        os.environ.pop('LD_PRELOAD', None)
        os.unlink(shim)
        os.rmdir(os.path.dirname(shim))
    core.setup_imports()
    import gbmon.stubs
    gbmon.stubs.install()
    if wanted[0] in 'KNl':
        gbmon.stubs.install_language()
    if wanted[0] in 'RTl':
        gbmon.stubs.install_corpus()
    for m in pkgutil.iter_modules(gbmon.checks.__path__):
        if wanted == 'list' or m.name.startswith(wanted[0].lower() + '_'):
            importlib.import_module('gbmon.checks.' + m.name)
    if wanted == 'list':
        print(' '.join(sorted(core.CHECKS)))
        return 0
    if argv[0] == 'replay':
        return core.run_replay(argv[1])
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    return core.run_check(core.CHECKS[wanted], tier, seed, only=os.environ.get('GBMON_ONLY'))


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
