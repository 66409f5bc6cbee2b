#!/usr/bin/env python3
import importlib, os, sys, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)
import threading
threading.stack_size(512 * 1024 * 1024)
import facts, core


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    import registry
    mod, level = registry.PROPS[prop]
    m = importlib.import_module(mod)
    rep = core.Report(prop, level, tier)
    try:
        prog = facts.load(True)
    except facts.BuildError as e:
        print(str(e))
        return 3
    rep.group(getattr(m, 'check_' + prop), prog, rep)
    return rep.finish()


rc = [3]


def go():
    try:
        rc[0] = main()
    except Exception:
        traceback.print_exc()
        rc[0] = 3


t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
os._exit(rc[0])
