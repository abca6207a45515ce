import importlib
import os
import sys


def main(argv):
    if not argv:
        print(__doc__)
        return 2
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    family = None
    replay = None
    rest = argv[1:]
    while rest:
        opt = rest.pop(0)
        if opt == '--tier':
            tier = rest.pop(0)
        elif opt == '--replay':
            replay = rest.pop(0)
        elif opt == '--family':
            family = rest.pop(0)
        else:
            raise SystemExit('unknown option ' + opt)
    from . import core
    module = importlib.import_module('mc.checks.' + prop.lower())
    if replay:
        return core.replay(module, replay)
    return core.run_check(module, tier, seed, family)


if __name__ == '__main__':
    sys.setrecursionlimit(5000)
    code = main(sys.argv[1:])
    sys.stdout.flush()
    os._exit(code)
