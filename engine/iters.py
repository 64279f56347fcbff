"""Iterator adapters and consumers of the standard library.

Adapters (map, filter, ...) are iterators of their own, stepped by models.iter_next.  Consumers (collect, for_each, fold, ...) are run as the
loop they stand for: a MIR function is put together here whose only loop calls Iterator::next, and is executed like any other function,
so that the loop rule of the engine applies to it."""
from vals import *
from models import model, MODELS, some, none, iter_next
from ctx import *
import models
import z3

class Skip(Exception):
    """the element of this iteration is filtered out"""

def fn_type(x, ty):
    t = x.prog.types[ty]
    while t['k'] == 'ref': t = x.prog.types[t['to']]
    return t
def callee_of(t):
    if t['k'] == 'fndef': return t['callee']
    if t['k'] == 'closure':
        for k in ('shared', 'mutc', 'once'):
            i = t.get(k)
            if i and i.get('kind') == 'item': return {'def': t['name'], 'inst': i}
    return None
def param(x, t, n):
    """type of the n-th parameter of the closure"""
    c = callee_of(t)
    fn = x.prog.fns.get(c['inst'].get('key')) if c and c.get('inst') else None
    if fn is None: return None
    if t['k'] == 'closure': n += 1
    return fn['locals'][n + 1] if n < fn['argc'] else None
def ret(x, t):
    c = callee_of(t)
    fn = x.prog.fns.get(c['inst'].get('key')) if c and c.get('inst') else None
    return fn['locals'][0] if fn else None
def apply(x, f, t, args):
    """call the function or closure f (f: reference to the closure's state)"""
    c = callee_of(t)
    if c is None: raise Unsupported('unknown function handed to an iterator in %s' % x.where)
    if t['k'] == 'fndef': return x.invoke(c, list(args), [None] * len(args), None)
    fn = x.prog.fns.get(c['inst'].get('key'))
    if fn is None: raise Unsupported('no body of ' + t['name'])
    a = f
    if x.prog.types[fn['locals'][1]]['k'] != 'ref': a = x.deref(f)
    return x.call_fn(fn, [a] + list(args))

def adapter(kind):
    def m(x, c):
        it = c.args[0]
        while isinstance(it, VRef) and isinstance(x.deref(it), (VIter,)): return NotImplemented
        if not isinstance(it, (VIter, VAgg)) : return NotImplemented
        if isinstance(it, VAgg) and 'Range' not in c.shead: return NotImplemented
        t = fn_type(x, c.atys[1])
        if callee_of(t) is None: return NotImplemented
        return VIter(kind, it=it, f=x.temp(c.args[1], True) if not isinstance(c.args[1], VRef) else c.args[1], t=t)
    return m
for k in ('map', 'filter', 'filter_map'): MODELS['std::iter::Iterator::' + k] = adapter(k)
@model('std::iter::Iterator::zip')
def m_zip(x, c):
    a, b = c.args
    if isinstance(b, VVec): b = VIter('vec', v=b, pos=0)
    if not all(isinstance(q, VIter) for q in (a, b)): return NotImplemented
    return VIter('zip', it=a, jt=b)

def through(x, it, v):
    """what the adapter `it` makes of the element v of its source"""
    k = it.kind
    if k == 'map': return apply(x, it.d['f'], it.d['t'], [v])
    if k == 'filter':
        r = apply(x, it.d['f'], it.d['t'], [x.temp(v)])
        if not (r.t if isinstance(r.t, bool) else x.branch(r.t)): raise Skip()
        return v
    if k == 'filter_map':
        r = apply(x, it.d['f'], it.d['t'], [v])
        if not x.branch(r.tag == 1) if not isinstance(r.tag, int) else r.tag != 1: raise Skip()
        return r.vs[1][0]
    if k == 'deref': return x.deref(v) if isinstance(v, VRef) else v
    return v
ADAPTERS = ('map', 'filter', 'filter_map', 'deref')
def made(x, it, v):
    """element v of the innermost source, through all adapters"""
    if isinstance(it, VIter) and it.kind in ADAPTERS: return through(x, it, made(x, it.d['it'], v))
    return v

# ------------------------------------------------------------------ consumers
def mv(l): return {'k': 'move', 'pl': {'l': l, 'p': []}}
def cp(l): return {'k': 'copy', 'pl': {'l': l, 'p': []}}
def assign(l, rv): return {'s': 'assign', 'pl': {'l': l, 'p': []}, 'rv': rv}
def ref(l, of, mut=True): return assign(l, {'r': 'ref', 'mut': mut, 'pl': {'l': of, 'p': []}})
def call(callee, args, dest, to, dty=None, atys=None):
    if isinstance(callee, str): callee = {'def': callee, 'inst': None}
    return {'t': 'call', 'f': {'k': 'const', 'ty': None, 'v': {'fn': callee}}, 'fty': None, 'args': args, 'atys': atys or [None] * len(args), 'dest': {'l': dest, 'p': []}, 'dty': dty, 'to': to}
def goto(n): return {'t': 'goto', 'to': n}
def switch(l, br, other): return {'t': 'switch', 'a': mv(l), 'ty': None, 'br': br, 'other': other}
def boolean(l, v): return assign(l, {'r': 'use', 'a': {'k': 'const', 'ty': None, 'v': {'bool': v}}})
def some_of(l, v, ty): return assign(l, {'r': 'agg', 'agg': 'adt', 'variant': 1, 'union_field': None, 'ty': ty, 'ops': [mv(v)]})
def none_of(l, ty): return assign(l, {'r': 'agg', 'agg': 'adt', 'variant': 0, 'union_field': None, 'ty': ty, 'ops': []})

# locals: 0 result, 1 iterator, 2 second argument / closure, 3 Option of next, 4 &mut iterator, 5 discriminant, 6 element, 7.. scratch
class Fn:
    def __init__(s, x, c, locals_):
        s.x = x; s.c = c
        disp = x.prog.types[c.atys[0]]['disp']
        s.nxt = {'def': 'std::iter::Iterator::next', 'inst': {'kind': 'item', 'name': '<%s as std::iter::Iterator>::next' % disp, 'key': None}}
        s.locals = locals_
        s.blocks = []
    def block(s, st, term): s.blocks.append({'st': st, 'term': term, 'line': 0})
    def head(s, n, done):
        """blocks n, n+1, n+2: step the iterator; the element is in local 6 at block n+3, or go to `done`"""
        assert len(s.blocks) == n
        s.block([ref(4, 1)], call(s.nxt, [mv(4)], 3, n + 1))
        s.block([assign(5, {'r': 'discr', 'pl': {'l': 3, 'p': []}, 'of': None})], switch(5, [[0, done]], n + 2))
        s.block([assign(6, {'r': 'use', 'a': {'k': 'move', 'pl': {'l': 3, 'p': [['v', 1], ['f', 0, None]]}}}), {'s': 'dead', 'l': 3}, {'s': 'dead', 'l': 4}, {'s': 'dead', 'l': 5}], goto(n + 3))
    def finish(s, what, argc):
        name = '%s::{iterator}::%s' % (s.x.where.split(':')[0], what)
        return {'name': name, 'key': 'iterator ' + what + ' ' + ' '.join(map(str, s.locals)) + ' ' + s.nxt['inst']['name'] + ' ' + str(s.c.name), 'crate': 'std', 'file': '', 'argc': argc, 'spread': None, 'locals': s.locals, 'dbg': [], 'blocks': s.blocks}

SYNTH = {}
def build(x, c, what):
    T = x.prog.types
    key = (id(x.prog), what, c.name, tuple(c.atys), c.dty)
    if key in SYNTH: return SYNTH[key]
    f = SYNTH[key] = _build(x, c, what, T)
    return f
def dead(*ls): return [{'s': 'dead', 'l': l} for l in ls]
def _build(x, c, what, T):
    if what in ('collect', 'extend'):
        ty = c.dty if what == 'collect' else T[c.atys[0]]['to']
        t = T[ty]
        head = t.get('name', '')
        put = {'std::vec::Vec': 'std::vec::Vec::push', 'std::collections::HashSet': 'std::collections::HashSet::insert', 'std::collections::VecDeque': 'std::collections::VecDeque::push_back'}.get(head)
        if put is None: return None
        el = t['args'][0]
        if what == 'collect':
            F = Fn(x, c, [ty, c.atys[0], ty, None, None, None, el, None, None])
            F.block([], call(head + '::new', [], 2, 1, ty))
            F.head(1, 6)
            F.block([ref(7, 2)], call(put, [mv(7), mv(6)], 8, 5, None, [None, el]))         # 4
            F.block(dead(6, 7, 8), goto(1))                                                 # 5
            F.block([assign(0, {'r': 'use', 'a': mv(2)})], {'t': 'return'})                 # 6
            return F.finish(what, 1)
        # extend(&mut self, it): locals 1 iterator, 2 &mut self
        F = Fn(x, c, [c.dty, c.atys[1], c.atys[0], None, None, None, el, None, None])
        F.nxt['inst']['name'] = '<%s as std::iter::Iterator>::next' % T[c.atys[1]]['disp']
        F.head(0, 5)
        F.block([], call(put, [cp(2), mv(6)], 8, 4, None, [None, el]))                     # 3
        F.block(dead(6, 8), goto(0))                                                        # 4
        F.block([assign(0, {'r': 'agg', 'agg': 'tuple', 'ty': None, 'ops': []})], {'t': 'return'})
        return F.finish(what, 2)
    if what == 'sum':
        k = T[c.dty]['k']
        if k not in ('float', 'int'): return None
        F = Fn(x, c, [c.dty, c.atys[0], c.dty, None, None, None, c.dty, None])
        F.head(0, 4)
        F.block([assign(2, {'r': 'bin', 'op': 'Add', 'a': cp(2), 'b': cp(6)})] + dead(6), goto(0))     # 3
        F.block([assign(0, {'r': 'use', 'a': mv(2)})], {'t': 'return'})
        return F.finish(what, 1)
    ft = fn_type(x, c.atys[-1])
    cal = callee_of(ft)
    if cal is None: return None
    byref = ft['k'] == 'closure' and (lambda fn: fn is not None and T[fn['locals'][1]]['k'] == 'ref')(x.prog.fns.get(cal['inst'].get('key')))
    first = [cp(2)] if ft['k'] == 'closure' else []          # local 2: reference to the closure (see consumer())
    if what == 'for_each':
        F = Fn(x, c, [c.dty, c.atys[0], c.atys[1], None, None, None, param(x, ft, 0), None])
        F.head(0, 5)
        F.block([], call(cal, first + [mv(6)], 7, 4, ret(x, ft)))                           # 3
        F.block(dead(6, 7), goto(0))
        F.block([assign(0, {'r': 'agg', 'agg': 'tuple', 'ty': None, 'ops': []})], {'t': 'return'})
        return F.finish(what, 2)
    if what in ('any', 'all'):
        F = Fn(x, c, [c.dty, c.atys[0], c.atys[1], None, None, None, param(x, ft, 0), c.dty])
        F.head(0, 5)
        F.block([], call(cal, first + [mv(6)], 7, 4, ret(x, ft)))                           # 3
        F.block([], switch(7, [[0, 7 if what == 'any' else 6]], 6 if what == 'any' else 7)) # 4
        F.block([boolean(0, what == 'all')], {'t': 'return'})                              # 5
        F.block([boolean(0, what == 'any')], {'t': 'return'})                              # 6
        F.block(dead(6, 7), goto(0))                                                        # 7
        return F.finish(what, 2)
    if what == 'find':
        F = Fn(x, c, [c.dty, c.atys[0], c.atys[1], None, None, None, T[c.dty]['args'][0], None, None])
        F.head(0, 5)
        F.block([ref(8, 6, False)], call(cal, first + [mv(8)], 7, 4, ret(x, ft)))           # 3
        F.block([], switch(7, [[0, 7]], 6))                                                 # 4
        F.block([none_of(0, c.dty)], {'t': 'return'})                                       # 5
        F.block([some_of(0, 6, c.dty)], {'t': 'return'})                                    # 6
        F.block(dead(6, 7, 8), goto(0))                                                     # 7
        return F.finish(what, 2)
    if what == 'position':
        # over (index, element)
        F = Fn(x, c, [c.dty, c.atys[0], c.atys[1], None, None, None, None, None, None])
        F.head(0, 5)
        F.block([assign(8, {'r': 'use', 'a': {'k': 'copy', 'pl': {'l': 6, 'p': [['f', 1, None]]}}})], call(cal, first + [mv(8)], 7, 4, ret(x, ft)))   # 3
        F.block([], switch(7, [[0, 7]], 6))                                                 # 4
        F.block([none_of(0, c.dty)], {'t': 'return'})                                       # 5
        F.block([assign(8, {'r': 'use', 'a': {'k': 'copy', 'pl': {'l': 6, 'p': [['f', 0, None]]}}}), some_of(0, 8, c.dty)], {'t': 'return'})   # 6
        F.block(dead(6, 7, 8), goto(0))                                                     # 7
        return F.finish(what, 2)
    if what == 'fold':
        # arguments: iterator, initial value, closure (kept in local 2; the accumulator is local 8)
        F = Fn(x, c, [c.dty, c.atys[0], c.atys[2], None, None, None, None, None, c.dty])
        F.head(0, 4)
        F.block([], call(cal, first + [mv(8), mv(6)], 7, 5, c.dty))                         # 3
        F.block([assign(0, {'r': 'use', 'a': mv(8)})], {'t': 'return'})                     # 4
        F.block([assign(8, {'r': 'use', 'a': mv(7)})] + dead(6, 7), goto(0))                # 5
        return F.finish(what, 2)
    return None

def consumer(what):
    def m(x, c):
        src = c.args[1] if what == 'extend' else c.args[0]
        sty = c.atys[1] if what == 'extend' else c.atys[0]
        if isinstance(src, VRef): src = x.deref(src)
        if what == 'extend':
            if isinstance(src, VSet): src = VIter('set', a=src.a, byref=True)
            elif isinstance(src, VVec): src = VIter('vec', v=src, pos=0)
            if isinstance(src, VIter) and 'HashSet' in c.name and src.kind == 'set' and src.d.get('byref'): src = src.with_(byref=False)
            elif isinstance(src, VIter) and src.kind == 'slice' and 'Extend<&' in c.name: src = src.with_(byval=True)
        if not (isinstance(src, VIter) or isinstance(src, VAgg) and 'Range' in x.prog.types[sty]['disp']): return NotImplemented
        f = build(x, c, what)
        if f is None: return NotImplemented
        if what == 'position': src = VIter('enumerate', it=src, pos=0)
        if what in ('collect', 'sum'): args = [src]
        elif what == 'extend': args = [src, c.args[0]]
        else:
            fv = c.args[-1]
            args = [src, fv if isinstance(fv, (VRef, FnVal())) else x.temp(fv, True)]
        if what == 'sum': return x.call_fn(f, [VIter('deref', it=src)], {2: fin(0) if x.prog.types[c.dty]['k'] == 'float' else VInt(0, x.prog.types[c.dty].get('bits', 64), x.prog.types[c.dty].get('signed', False))})
        if what == 'fold': return x.call_fn(f, args, {8: c.args[1]})
        return x.call_fn(f, args)
    return m
def FnVal():
    import execu
    return execu.FnV
for k in ('collect', 'for_each', 'any', 'all', 'find', 'position', 'fold', 'sum'): MODELS['std::iter::Iterator::' + k] = consumer(k)
def exact(t): return all(str(q) in ('Int', 'Bool') for q in leaf_sorts(t)) and 'X' not in str(t) and t[0] in ('I', 'H', 'B', 'agg') and (t[0] != 'agg' or all(exact(q) for q in t[1]))
def m_same(x, c):
    t = x.memo['contains']
    return VBool(z3.simplify(z3.And([a == b for a, b in zip(flatten(x, t, x.deref(c.args[0])), flatten(x, t, x.deref(c.args[1])))])))
MODELS['verif::same'] = m_same
def m_contains(x, c):
    r, v, o, n = models._seq(x, c.args[0])
    if not isinstance(v, VVec) or v.tpl is None or not exact(v.tpl): return NotImplemented
    x.memo['contains'] = v.tpl
    F = Fn(x, c, [c.dty, c.atys[0], c.atys[1], None, None, None, None, None])
    F.head(0, 5)
    F.block([], call('verif::same', [mv(6), cp(2)], 7, 4, c.dty))                          # 3
    F.block([], switch(7, [[0, 7]], 6))                                                     # 4
    F.block([boolean(0, False)], {'t': 'return'})                                          # 5
    F.block([boolean(0, True)], {'t': 'return'})                                           # 6
    F.block(dead(6, 7), goto(0))                                                            # 7
    return x.call_fn(F.finish('contains', 2), [models.slice_iter(x, c.args[0], False), c.args[1]])
for k in ('core::slice::contains', 'std::vec::Vec::contains', 'std::slice::contains'): MODELS[k] = m_contains
_set_extend = MODELS['std::iter::Extend::extend']
def m_extend(x, c):
    r = _set_extend(x, c)
    return consumer('extend')(x, c) if r is NotImplemented else r
MODELS['std::iter::Extend::extend'] = m_extend
