""" Entry point: python -m vlib.main C01 [--replay file] [--only N] """
import os, sys
HOME = os.environ.get('VERIF_HOME') or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path[:] = [REPO, HOME] + [p for p in sys.path if p not in (REPO, HOME, '')]

def main():
    import importlib
    from vlib import core
    prop = sys.argv[1]
    module = importlib.import_module('checks.' + prop.lower())
    return core.run_check(prop, module, sys.argv[2:])

if __name__ == '__main__':
    rc = main()
    sys.stdout.flush()
    sys.exit(rc)
