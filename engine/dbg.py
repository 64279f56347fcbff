import dev; dev.load()
import unit as U, loops, time, sys
prog=U.Prog(dev._V+'/build/mir.json')
o=loops.LoopRun.solve
V='-l' in sys.argv
def solve(s):
    t=time.time(); o(s)
    print('LOOP', s.name, s.bb, 'M', sorted((str(k)) for k in s.M), 'st', list(s.st)[:10], '%.1fs'%(time.time()-t), 'paths', len(s.ps))
    if V:
        for (r,e,d,pre,npc),y in s.ps: print('   ', r, y.trace, [str(c)[:150] for c in y.pc[npc:] if 'Implies' not in str(c)][-4:])
loops.LoopRun.solve=solve
m=loops.LoopMixin.merged
def mg(x,tag,alts):
    r=m(x,tag,alts)
    if r is None: print('  NOT MERGED', tag, x.why)
    return r
U.Machine2.merged=mg
for n,u in U.UNITS.items():
    if sys.argv[1] in n: 
        tr=() if '-1' in sys.argv else None
        U.show(U.run_unit(prog,u,only_trace=tr))
