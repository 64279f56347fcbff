"""Loops taken one arbitrary iteration at a time in the main exploration.

'last': the state after the loop is the state before it, or the state at the end of the last iteration that changed anything
        (that iteration starts from an arbitrary state satisfying the inferred facts; the later ones change nothing).
'first': only the first iteration is looked at, and what follows when it is the last.
'skip': the body is not looked at; the frame of the loop (an obligation of another unit) says what may have changed.
'inv':  the state after the loop is an arbitrary one satisfying the inferred facts and the stated invariant.
Changed locations and inferred facts (a variable only grows / only shrinks / stays finite ...) are found by restarting the
unit whenever an iteration refutes one of them."""
import z3
from vals import *
from ctx import *
import loops
from loops import *

def calls_in(x, f, blocks=None, seen=None):
    """short names of all functions called (transitively, within the crate) from the blocks"""
    key = ('calls', f['key'])
    if blocks is None and key in x.prog._loops: return x.prog._loops[key]
    seen = set() if seen is None else seen
    out = set()
    if blocks is None:
        if f['key'] in seen: return out
        seen.add(f['key']); bs = f['blocks']; top = len(seen) == 1
    else: bs = [f['blocks'][b] for b in sorted(blocks)]; top = False
    for bl in bs:
        t = bl['term']
        if t['t'] != 'call': continue
        fo = t['f']
        if fo['k'] != 'const' or 'fn' not in fo['v']: continue
        fn = fo['v']['fn']; inst = fn.get('inst')
        nm = inst['name'] if inst else fn['def']
        m, h = norm_name(nm)
        out.add(m.split('::')[-1])
        g = x.prog.fns.get(inst.get('key')) if inst and inst.get('key') else None
        if g is not None and g['crate'] == 'fluffy_tribble': out |= calls_in(x, g, None, seen)
        for g2 in closures_of(x, t): out |= calls_in(x, g2, None, seen)
    if blocks is None and top: x.prog._loops[key] = out
    return out
def closures_of(x, t):
    """bodies of closures handed to a call"""
    out = []
    import iters
    for ty in t.get('atys', []):
        if ty is None: continue
        c = iters.callee_of(iters.fn_type(x, ty))
        g = x.prog.fns.get((c.get('inst') or {}).get('key')) if c else None
        if g is not None: out.append(g)
    return out

def run(x, f, fid, bb, body, cfg):
    it = x.loop_iter(f, fid, bb)
    if it is None: raise Unsupported('loop of unknown form in %s' % f['name'].split('::')[-1])
    if it[1] == 'pop': raise Unsupported('worklist loop in %s' % f['name'].split('::')[-1])
    root = (fid, it[0])
    v0 = x.store[root]
    while isinstance(v0, VRef):
        root = v0.root
        if v0.path: raise Unsupported('iterator inside a structure')
        v0 = x.store[root]
    L = CutRun(x, f, fid, bb, body, root, v0, domain(x, v0, f, fid, bb, it), cfg)
    return L.go()

class Cfg:
    """what is known about a loop; subclass per loop"""
    mode = 'last'
    def entry(c, x, L): pass
    def assume(c, x, L, e, cnt): pass
    def begin(c, x, L, e): pass
    def back(c, x, L, e): pass
    def broke(c, x, L, e): pass
    def done(c, x, L): pass
    def settled(c, x, L): pass
    def frame(c, x, L): return []
    def given_up(c, x, L): return Everything()
class Everything:
    def get(s, k, d=None): return True
    def __contains__(s, k): return True

class CutRun(LoopRun):
    def __init__(s, x, f, fid, bb, body, iroot, it, dom, cfg):
        LoopRun.__init__(s, x, f, fid, bb, body, iroot, it, dom)
        s.cfg = cfg; s.sp = list(x.probes.get('index', [])); s.entry = {}
        s.hints = x.unit.hints.setdefault(('cut',) + s.tag, (set(), set()))
    def norm(s, key): return ((('L', key[0][1]) if key[0][0] == s.fid else key[0]),) + tuple(key[1:])
    def denorm(s, key): return (((s.fid, key[0][1]) if key[0][0] == 'L' else key[0]),) + tuple(key[1:])
    def load_hints(s):
        x = s.x
        s.M = set(k for k in (s.denorm(k) for k in s.hints[0]) if k[0] in x.store and s.path_ok(k))
        s.st = Given((s.denorm(k[0]),) + tuple(k[1:]) for k in s.hints[1])
        for key in s.M:
            if key[2] == 'n': s.entry[key] = conc_to_el(x, x.load(key[0], key[1])).n
        if s.entry_sets(s.M, s.st): s.save_st()
    def save_st(s):
        for k in s.st: s.hints[1].add((s.norm(k[0]),) + tuple(k[1:]))
    def new_loc(s, d):
        n = 0
        for key in d:
            k = s.norm(key)
            if k not in s.hints[0]:
                s.hints[0].add(k); n += 1
                # an enclosing loop changes it as well
                for L in s.x.memo.get('cutstack', []):
                    if key[0] in L.entry_roots and L.norm(key) not in L.hints[0]: L.hints[0].add(L.norm(key))
        return n
    def allowed(s):
        """everything the loop may change: what the frame of the loop names, and the locals of the function it assigns or borrows"""
        x = s.x; f = s.f
        out = set(s.cfg.frame(x, s))
        roots = set(k[0] for k in out)
        loc = set()
        for b in sorted(s.body):
            bl = f['blocks'][b]
            for st in bl['st']:
                if st['s'] in ('assign', 'setdiscr'): loc.add(st['pl']['l'])
                if st['s'] == 'assign' and st['rv']['r'] in ('ref', 'addr') and st['rv'].get('mut') and not any(e[0] == 'd' for e in st['rv']['pl']['p']): loc.add(st['rv']['pl']['l'])
            if 'dest' in bl['term']: loc.add(bl['term']['dest']['l'])
        for l in loc:
            r = (s.fid, l)
            if r in roots or r == s.iroot or r not in x.store: continue
            v = x.store[r]
            out.add((r, (), 'leaf' if isinstance(v, (Fl, VInt, VBool, VH, VMat, VQuat, VSet, VEnum)) else 'drop'))
        return out
    def body_from(s, x, e):
        stack = list(x.memo.get('cutstack', []))
        x.memo['cutstack'] = stack + [s]
        try: return s.iterate(x, e)
        finally: x.memo['cutstack'] = stack
    def go(s):
        x = s.x
        s.entry_roots = set(x.store)
        s.load_hints()
        cfg = s.cfg
        if cfg.mode == 'skip':
            s.M = s.allowed()
            s.havoc(x, s.M, cfg.given_up(x, s), None)
            s.reset(x)
            cfg.done(x, s)
            # through the end of the iterator, or through one of the other exits
            f = s.f; exits = []
            for b in sorted(s.body):
                for t in succs(f['blocks'][b]['term']):
                    if t not in s.body and f['blocks'][t]['term']['t'] not in ('unreachable', 'resume') and t not in exits and not f['blocks'][t].get('cleanup'): exits.append(t)
            k = x.choose(1 + len(exits)) if len(exits) > 1 else 0
            return s.finish(x) if k == 0 else exits[k - 1]
        cfg.entry(x, s)
        if cfg.mode == 'first':
            # the first iteration, from the very state before the loop
            if s.dom.kind != 'index': raise Unsupported('first iteration of a loop over a set')
            e = zi(s.dom.lo)
            x.assume(x.to_b(s.dom.member(x, e)))
            r = s.body_from(x, e)
            if r[0] == 'back': cfg.back(x, s, e); raise PathEnd()
            cfg.broke(x, s, e)
            return r[1] if r[0] == 'exit' else None
        x.note('loop in %s: one arbitrary iteration, facts inferred for %d changed locations' % (s.name, len([k for k in s.M if k[2] != 'drop'])))
        if x.choose(2) == 0:
            e = x.fresh_int('el')
            x.assume(x.to_b(s.dom.member(x, e)))
            x.probe_facts(s.dom, e)
            cnt = s.count_at(x, e)
            done = s.havoc(x, s.M, s.st, cnt)
            s.reset(x)
            cfg.assume(x, s, e, cnt)
            pre = dict(x.store)
            cfg.begin(x, s, e)
            r = s.body_from(x, e)
            if r[0] in ('ret', 'exit'):
                x.loose = True           # what is still borrowed is given back on the way out
                s.exit_diff = state_diff(x, pre, x.store, {s.iroot})
                x.loose = False
            if r[0] == 'ret': cfg.broke(x, s, e); return None
            if r[0] == 'exit': cfg.broke(x, s, e); return r[1]
            d = state_diff(x, pre, x.store, {s.iroot})
            d = [k for k in d if k[2] != 'drop' or not k[1]]
            if s.new_loc(d): raise Restart()
            if s.check(x, done, s.M, s.st, None): s.save_st(); raise Restart()
            cfg.back(x, s, e)
            if cfg.mode == 'inv' or all(k[2] in ('drop', 'log') for k in d): raise PathEnd()
            # the last iteration that changes anything
            for key in s.M:
                if key[2] == 'drop' and not key[1]: x.store.pop(key[0], None)
                elif key[2] == 'log': s.havoc(x, {key}, s.st, None)
            s.reset(x)
            x.witness(s.dom, e)
            cfg.settled(x, s)
            return s.finish(x)
        if cfg.mode == 'inv':
            tot = s.total(x)
            s.havoc(x, s.M, s.st, tot)
            s.reset(x)
            cfg.assume(x, s, None, tot)
        else:
            for key in s.M:
                if key[2] == 'drop' and not key[1]: x.store.pop(key[0], None)
                elif key[2] == 'log': s.havoc(x, {key}, s.st, None)
        cfg.done(x, s)
        return s.finish(x)
