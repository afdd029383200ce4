import importlib
import json
import os
import shutil
import sys
import tempfile

sys.setrecursionlimit(20000)
sys.path.insert(0, os.environ.get('WTV_REPO', '/repo'))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


def main(argv):
    tmp = tempfile.mkdtemp(prefix='wtv-')
    os.environ['MPLCONFIGDIR'] = tmp
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        return _main(argv)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp, ignore_errors=True)


def _main(argv):
    from . import core
    if argv[0] == 'replay':
        d = json.load(open(argv[1]))
        m = importlib.import_module('wtv.props.' + d['property'].lower())
        for c in m.contracts():
            if c.name == d['contract']:
                if d['inputs'] is None:
                    print('no concrete input; obligation:',
                          json.dumps(d['failed_obligation'], indent=1))
                    return 1
                try:
                    c.concrete(d['inputs'])
                    print('the input no longer fails')
                    return 0
                except (core.Violation, core.Known) as e:
                    print('reproduced:', e)
                    return 1
        return 2
    prop = argv[0]
    m = importlib.import_module('wtv.props.' + prop.lower())
    r = core.Runner(prop, m.contracts(), getattr(m, 'ASSUMPTIONS', ()))
    if len(argv) > 1:
        r.contracts = [c for c in r.contracts if argv[1] in c.name]
    return r.run()


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
