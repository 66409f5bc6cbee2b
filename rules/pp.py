import sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import facts
def pl(p):
    s='_%d'%p[0]
    for e in p[1]:
        if e[0]=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%s'%(e[2] if e[2] else e[1])
        elif e[0]=='i': s+='[_%d]'%e[1]
        elif e[0]=='d': s='(%s as %s)'%(s,e[2])
        else: s+='<%s>'%e
    return s
def op(o):
    if o['k'] in('copy','move'): return pl(o['p'])
    if o['k']=='fn': return 'fn:'+(o.get('rkey') or o['key'])
    return 'const(%s:%s)'%({k:v for k,v in o.items() if k not in('k','ty')},o.get('ty'))
def rv(r):
    t=r['r']
    if t=='use': return op(r['a'])
    if t in('ref','rawptr'): return '&%s%s'%('mut ' if r.get('mut') else '',pl(r['p']))
    if t=='bin': return '%s(%s,%s):%s'%(r['op'],op(r['a']),op(r['b']),r.get('ty'))
    if t=='un': return '%s(%s)'%(r['op'],op(r['a']))
    if t=='discr': return 'discr(%s)'%pl(r['p'])
    if t=='cast': return 'cast[%s](%s:%s->%s)'%(r['kind'],op(r['a']),r.get('from'),r.get('to'))
    if t=='agg': return 'agg %s'%({k:(v if k not in('args','ops','fields') else [op(x) for x in v] if v and isinstance(v[0],dict) and 'k' in v[0] else v) for k,v in r.items() if k!='r'})
    return str(r)
def show(fn):
    print(fn.key,fn.label(),'argc',fn.body['argc'])
    for i,l in enumerate(fn.body['locals']): print('  _%d: %s'%(i,l['ty']),[n for n,p in fn.body['names'] if p==[i,[]]] )
    for i,b in enumerate(fn.body['blocks']):
        if b['cleanup']: continue
        print(' bb%d:'%i)
        for s in b['st']:
            print('   ',(pl(s['p'])+' = '+rv(s['rv'])) if s['s']=='=' else s)
        t=b['term']
        if t['t']=='call': print('    %s = %s(%s) -> %s'%(pl(t['p']),op(t['f']),', '.join(op(a) for a in t['args']),t['to']))
        elif t['t']=='switch': print('    switch',op(t['d']),t['vals'],'else',t['else'])
        else: print('   ',{k:v for k,v in t.items() if k not in('at','exp')})
if __name__=='__main__':
    p=facts.load()
    for f in p.fns.values():
        if sys.argv[1] in f.key or sys.argv[1] in f.label():
            show(f)
