"""P20: every loop of the crate runs over a finite collection fixed at its start, and nothing recurses"""
from c_api import *
from prog import succs, norm_name
FINITE = ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter', 'std::vec::Drain', 'std::array::IntoIter', 'std::collections::hash_set::Iter', 'std::collections::hash_set::IntoIter', 'std::collections::hash_set::Drain',
          'std::ops::Range', 'std::ops::RangeInclusive', 'generational_arena::Iter', 'generational_arena::IterMut', 'generational_arena::IntoIter', 'std::option::IntoIter', 'std::option::Iter',
          'std::collections::hash_set::Difference', 'std::collections::hash_set::Intersection', 'std::collections::hash_set::Union', 'std::collections::vec_deque::Iter', 'std::collections::vec_deque::IntoIter', 'std::slice::Chunks', 'std::slice::Windows')
LAZY = ('std::iter::Enumerate', 'std::iter::Rev', 'std::iter::Zip', 'std::iter::Skip', 'std::iter::Take', 'std::iter::StepBy', 'std::iter::Copied', 'std::iter::Cloned', 'std::iter::Map', 'std::iter::Filter', 'std::iter::FilterMap', 'std::iter::Chain', 'std::iter::Peekable')
import re
def split_args(s):
    out = []; d = 0; cur = ''
    for i, ch in enumerate(s):
        if ch in '<([{': d += 1
        elif ch in ')]}' or ch == '>' and s[i - 1] != '-': d -= 1
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur.strip())
    return out
def finite(ty):
    m = re.match(r'^([A-Za-z_0-9:]+)(?:<(.*)>)?$', ty.strip(), re.S)
    if not m: return False
    n, a = m.group(1), split_args(m.group(2) or '')
    n = n.replace('core::', 'std::').replace('alloc::', 'std::')
    n = re.sub(r'^std::(slice|vec|iter|option|array)(::[a-z_0-9]+)*::([A-Z])', r'std::\1::\3', n)
    n = re.sub(r'^std::collections(::hash)?::(set|hash_set)::', 'std::collections::hash_set::', n)
    if n in FINITE: return True
    if n in LAZY:
        a = [q for q in a if not q.startswith("'")]
        if n.endswith(('Zip', 'Chain')): return all(finite(q) for q in a)
        return bool(a) and finite(a[0])
    return False
def calls(f):
    for b in f['blocks']:
        t = b['term']
        if t['t'] == 'call' and t['f']['k'] == 'const' and 'fn' in t['f']['v']: yield t['f']['v']['fn']
def crate(prog):
    return [f for f in (prog.fns.values() if isinstance(prog.fns, dict) else prog.fns) if f.get('crate') == 'fluffy_tribble' and '::tests::' not in f['name'] and '::test::' not in f['name']]
def counts(f, h, body, it):
    """the counter is only ever incremented by one, on every way round the loop, and compared with something the loop does not assign"""
    c = it[0]; b, l, w, off = it[2]
    adds = set(); incs = set()
    for q in body:
        for st in f['blocks'][q]['st']:
            if st['s'] != 'assign': continue
            rv = st['rv']
            if rv['r'] in ('cbin', 'bin') and rv['op'] == 'Add' and rv['a'].get('pl') == {'l': c, 'p': []} and rv['b']['k'] == 'const' and rv['b']['v'].get('int') == 1: adds.add(st['pl']['l'])
    for q in body:
        for st in f['blocks'][q]['st']:
            if st['s'] != 'assign' or st['pl']['l'] != c: continue
            rv = st['rv']
            if rv['r'] == 'use' and rv['a'].get('pl') and rv['a']['pl']['l'] in adds: incs.add(q)
            elif rv['r'] in ('cbin', 'bin') and st['pl']['l'] in adds: incs.add(q)
            else: return False
        if f['blocks'][q]['term'].get('dest', {}).get('l') == c: return False
        for st in f['blocks'][q]['st']:
            if st['s'] == 'assign' and st['rv']['r'] in ('ref', 'addr') and st['rv'].get('mut') and st['rv']['pl']['l'] == c: return False
    seen = set(); todo = [] if h in incs else [h]
    while todo:
        q = todo.pop()
        for n in succs(f['blocks'][q]['term']):
            if n == h: return False
            if n in body and n not in incs and n not in seen: seen.add(n); todo.append(n)
    # the bound
    rv = [st['rv'] for st in f['blocks'][b]['st'] if st['s'] == 'assign' and st['pl']['l'] == l][-1]
    o = rv['b' if w == 1 else 'a']
    for _ in range(4):
        if o['k'] == 'const': return True
        pl = o['pl']
        if pl['p']: return not any(st['s'] == 'assign' and st['pl'] == pl for q in body for st in f['blocks'][q]['st'])
        d = [st['rv'] for q in body for st in f['blocks'][q]['st'] if st['s'] == 'assign' and st['pl']['l'] == pl['l']]
        k = [f['blocks'][q]['term'] for q in body if f['blocks'][q]['term'].get('dest', {}).get('l') == pl['l']]
        if not d and not k: return True
        if len(k) == 1 and not d:
            fn = k[0]['f']['v'].get('fn') if k[0]['f']['k'] == 'const' else None
            grow = ('push', 'insert', 'extend', 'append', 'resize', 'push_back')
            return bool(fn) and norm_name(fn['def'])[0].split('::')[-1] == 'len' and not any(norm_name(t['f']['v']['fn']['def'])[0].split('::')[-1] in grow and k[0]['atys'][0] == t['atys'][0]
                for q in body for t in [f['blocks'][q]['term']] if t['t'] == 'call' and t['f']['k'] == 'const' and 'fn' in t['f']['v'] and t.get('atys'))
        if len(d) == 1 and d[0]['r'] == 'use': o = d[0]['a']; continue
        if len(d) == 1 and d[0]['r'] == 'un': return True
        return False
    return False
@unit('crate/terminates', 'P20', covers=['for', 'while'])
def u(x):
    fs = crate(x.prog)
    keys = {f['key']: f for f in fs}
    for f in fs:
        for h, body in sorted(x.prog.loops(f).items()):
            it = x._loop_iter(f, h)
            nm = f['name'].split('fluffy_tribble::')[-1]
            if it is None:
                x.prove('[P20] the loop of %s runs over something' % nm, False); continue
            ty = x.prog.types[f['locals'][it[0]]]['disp']
            if it[1] == 'pop':
                x.prove('[P20] the only loop driven by a queue is that of wake_up (entity/wake_up shows that it ends)', nm.endswith('wake_up'))
                x.cover('while'); continue
            if it[1] == 'count':
                x.prove('[P20] the loop of %s counts up to a bound in every iteration' % nm, counts(f, h, body, it))
                x.cover('for'); continue
            x.prove('[P20] the loop of %s runs over a finite collection%s' % (nm, '' if finite(ty) else ': ' + ty), finite(ty))
            # the iterator is not replaced inside the loop
            for b in body:
                for st in f['blocks'][b]['st']:
                    if st['s'] == 'assign' and st['pl']['l'] == it[0]: x.prove('[P20] the loop of %s does not restart its iterator' % nm, False)
                t = f['blocks'][b]['term']
                if t['t'] == 'call' and t['dest']['l'] == it[0]: x.prove('[P20] the loop of %s does not restart its iterator' % nm, False)
            x.cover('for')
    # no recursion among the functions of the crate
    edges = {}
    for f in fs:
        out = set()
        for fn in calls(f):
            inst = fn.get('inst')
            k = inst.get('key') if inst else None
            if k in keys: out.add(k)
        edges[f['key']] = out
    state = {}
    def dfs(k):
        state[k] = 1
        for j in edges[k]:
            if state.get(j) == 1: return False
            if j not in state and not dfs(j): return False
        state[k] = 2; return True
    ok = all(dfs(k) for k in edges if k not in state)
    x.prove('[P20] no function of the crate calls itself, directly or through others', ok)
    x.note('iterators of std and generational-arena over collections are finite; generators supplied by the user return')
