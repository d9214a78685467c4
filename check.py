"""check.py <id> [quick|thorough] — exit 0: held; exit 1: VIOLATION printed; 2: our machinery failed."""
import importlib, os, sys, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, 'harness'), os.path.join(HERE, 'checks')]
import vlib


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module(pid)
    c = vlib.Check(pid, tier, seed, getattr(mod, 'LEVEL', 'model_checking'))
    try:
        mod.run(c)
    except Exception:
        # what was found before the machinery gave up still counts
        if not c.violations:
            raise
        traceback.print_exc()
    return c.finish()


if __name__ == '__main__':
    try:
        rc = main()
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
