import sys,json,ir
g='core'
import fe,os
pipe=os.environ.get('PIPE'); g=os.environ.get('G','core')
m=ir.module(g,pipe=pipe,unbound=tuple(os.environ.get('UB','').split()))
for n in sys.argv[1:]:
    f=m.fn(n)
    print('==',n,[a[2] for a in f.args], f.where())
    for b in f.blocks:
        if not f.reachable(b.id): continue
        print('B%d -> %s  facts: %s'%(b.id,b.succ, '; '.join('%s %s %s'%(ir.pp(x[1]),x[0],ir.pp(x[2])) if len(x)==3 else str(x) for p in b.pred if len(b.pred)==1 for x in f.edge_facts(p,b.id))))
        for x in b.insts:
            if x.op in('store',): print('   ',x.l[0] if x.l else '', 'store',ir.pp(f.expr(x.ops[1])),'=',ir.pp(f.expr(x.ops[0])))
            elif x.iscall: print('   ',x.l[0] if x.l else '',x.i,'call',x.callee or ir.pp(f.expr(x.d['callee'])),[ir.pp(f.expr(o)) for o in x.ops])
            elif x.op=='ret': print('    ret',[ir.pp(f.expr(o)) for o in x.ops])
            elif x.op=='phi': print('    phi%d'%x.i,[(ir.pp(f.expr(o)),b) for o,b in x.ops], x.n)
            elif x.op in('br','switch') and len(b.succ)>1: print('   ',x.op,ir.pp(f.expr(x.ops[0])),b.succ)
            elif x.op in ('unreachable','resume'): print('   ',x.op)
