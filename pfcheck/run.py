"""python3 -m pfcheck.run <property> [quick|thorough]"""
import importlib
import os
import sys
import warnings
warnings.simplefilter('ignore')
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    from .framework import K, AnchorLost
    from .harness import load_program
    mod = importlib.import_module('pfcheck.checks.' + prop.lower())
    k = K(prop, tier, seed, load_program())
    try:
        mod.check(k)
    except AnchorLost as e:
        print('ANALYSIS-BROKEN property=%s: anchor %s no longer exists' % (prop, e))
        return 2
    return k.finish(need=getattr(mod, 'NEED', 1), level=getattr(mod, 'LEVEL', 'other'),
                    explanation=getattr(mod, 'EXPLANATION', ''), assumptions=getattr(mod, 'ASSUMPTIONS', ()))


if __name__ == '__main__':
    res = []

    def go():
        try:
            res.append(main())
        except BaseException:
            import traceback
            traceback.print_exc()
            res.append(3)
    t = threading.Thread(target=go)
    t.start()
    t.join()
    sys.stdout.flush()
    os._exit(res[0])
