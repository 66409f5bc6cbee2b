"""Development: prints the summaries of the functions matching PATTERN.
  python3 tools/dump.py PATTERN [-o label,label] [-e] [-w WIDTH] [-p module.prim] [-d DEPTH]"""
import sys, os, argparse, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'rules'))
sys.setrecursionlimit(100000)
threading.stack_size(512 * 1024 * 1024)
import facts, absint
from terms import show


def main():
    a = argparse.ArgumentParser()
    a.add_argument('pat')
    a.add_argument('-o', default='')
    a.add_argument('-p', default='')
    a.add_argument('-e', action='store_true')
    a.add_argument('-w', type=int, default=600)
    a.add_argument('-d', type=int, default=12)
    a.add_argument('-b', type=int, default=20000)
    a.add_argument('-l', action='store_true', help='loops')
    a.add_argument('-c', action='store_true', help='closures too')
    o = a.parse_args()
    prog = facts.load(True)
    ops = [x for x in o.o.split(',') if x]
    opaque = (lambda f: any(x in f.label() for x in ops)) if ops else None
    prims = []
    for x in o.p.split(','):
        if x:
            m, n = x.split('.')
            prims.append(getattr(__import__(m), n))
    for f in prog.fns.values():
        if o.pat in f.label() and f.body and (f.kind != 'closure' or o.c):
            print('==', f.label(), '%s:%d' % (f.file, f.line))
            try:
                r = absint.analyse(prog, f, tuple(prims), opaque, max_depth=o.d, budget=o.b)
            except absint.GiveUp as e:
                print('  gave up', e)
                continue
            p = lambda n, s: print('  %s %s' % (n, s[:o.w]))
            p('ret', show(r.ret) if r.ret is not None else '-')
            p('pc', show(absint.dnf_term(r.pc)) if r.pc is not None else '-')
            for k, v in (r.state or {}).items():
                if k[0] in 'PD' and v.op != 'arg':
                    p('st %s' % (k,) if k[0] == 'P' else 'st D %s' % show(k[1])[:100], show(v))
            if o.l:
                for lid, L in r.interp.loop_objs.items():
                    for k, v in L.next.items():
                        if hasattr(k, 'op'):
                            p('loop %s %s' % (lid, show(k)[:150]), '-> ' + show(v))
                    for bp, _ in L.backs:
                        p('loop %s back' % lid, show(absint.dnf_term(bp)))
            if o.e:
                for e in r.events:
                    p('ev', '%s %s %s pc=%s' % (e.kind, e.name, tuple(show(d) if hasattr(d, 'op') else d for d in e.data) if isinstance(e.data, tuple) else e.data, show(absint.dnf_term(e.pc))))
            print('  %d steps' % r.interp.steps)


t = threading.Thread(target=main)
t.start()
t.join()
