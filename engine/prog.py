"""The dumped MIR program: functions, types, loops, name normalisation, type templates."""
import json, re
from vals import Unsupported

def strip_generics(n):
    """remove <...> groups that follow '::' (turbofish); keeps the leading <A as B> form"""
    out = []; i = 0
    while i < len(n):
        if n.startswith('::<', i):
            d = 0; j = i + 2
            while j < len(n):
                if n[j] == '<': d += 1
                elif n[j] == '>' and n[j - 1] != '-':
                    d -= 1
                    if d == 0: break
                j += 1
            # keep '::<impl ...>' markers
            if n.startswith('::<impl', i):
                out.append('::' + n[i + 2:j + 1])
            i = j + 1
        else:
            out.append(n[i]); i += 1
    return ''.join(out)

def head(ty):
    """outermost type constructor name"""
    ty = ty.strip()
    m = re.match(r'^(&(mut )?)+', ty)
    if m: return '&' + head(ty[m.end():])
    return re.sub(r'<.*$', '', ty)

def split_as(s):
    """'A as B' at nesting depth 0"""
    d = 0
    for i, c in enumerate(s):
        if c == '<': d += 1
        elif c == '>' and s[i - 1] != '-': d -= 1
        elif d == 0 and s.startswith(' as ', i): return s[:i], s[i + 4:]
    return None

def norm_name(n):
    """-> (method path, self head) e.g. ('std::iter::Iterator::next','std::slice::Iter') or ('std::option::Option::unwrap','')"""
    n = strip_generics(n) if not n.startswith('<') else n
    if n.startswith('<'):
        d = 0
        for i, c in enumerate(n):
            if c == '<': d += 1
            elif c == '>' and n[i - 1] != '-':
                d -= 1
                if d == 0: break
        inner, rest = n[1:i], strip_generics(n[i + 1:])
        sp = split_as(inner)
        if sp: return re.sub(r'<.*$', '', sp[1]) + rest, head(sp[0])
        return head(inner).strip('()') + rest, head(inner)
    # path with impl marker:  nalgebra::base::ops::<impl std::ops::Add for X>::add
    m = n.find('::<impl ')
    if m >= 0:
        d = 0
        for i in range(m + 2, len(n)):
            c = n[i]
            if c == '<': d += 1
            elif c == '>' and n[i - 1] != '-':
                d -= 1
                if d == 0: break
        inner, rest = n[m + 8:i], n[i + 1:]
        d = 0; k = None
        for j, c in enumerate(inner):
            if c == '<': d += 1
            elif c == '>' and inner[j - 1] != '-': d -= 1
            elif d == 0 and inner.startswith(' for ', j): k = j; break
        if k is not None:
            return re.sub(r'<.*$', '', inner[:k]) + rest, head(inner[k + 5:])
        return n[:m] + '::' + head(inner) + rest, head(inner)
    return n, ''

class Fn:
    pass

TAGS = ['Null', 'Sphere', 'Plane', 'Mesh', 'AlignedBox']

class Prog:
    def __init__(s, path):
        d = json.load(open(path))
        s.types = d['types']
        s.fns = {}
        s.by_name = {}
        s.skipped = d.get('skipped', [])
        for f in d['fns']:
            s.fns[f['key']] = f
            s.by_name.setdefault(f['name'], []).append(f)
        s._loops = {}
        s._tpl = {}
        s._tid_by_disp = {}
        for i, t in enumerate(s.types): s._tid_by_disp.setdefault(t['disp'], i)
        s.ext_fields = set()     # (type name suffix, field) extended floats
        s.config()
    def config(s):
        for a, b in [('InternalEntity', 'own_mass'), ('InternalEntity', 'total_mass'), ('Entity', 'own_mass'), ('Entity', 'last_total_mass'),
                     ('InternalNullCollider', 'mass'), ('InternalSphereCollider', 'mass'), ('InternalPlaneCollider', 'mass'), ('InternalAlignedBoxCollider', 'mass'),
                     ('NullCollider', 'mass'), ('SphereCollider', 'mass'), ('PlaneCollider', 'mass'), ('AlignedBoxCollider', 'mass'),
                     ('Range', 'min'), ('Range', 'max'), ('CollisionRecord', 'impulse_magnitude'), ('EarliestCollisionAccumulator', 'earliest_time')]:
            s.ext_fields.add((a, b))
    def local(s):
        return [f for f in s.fns.values() if f['crate'] == 'fluffy_tribble' and '::tests::' not in f['name']]
    def find(s, suffix, self_head=None):
        """the local function whose name ends with suffix (path boundary)"""
        r = []
        for f in s.local():
            n = f['name']
            if n == suffix or n.endswith('::' + suffix) or n.replace('fluffy_tribble::', '').endswith(suffix) and (n.endswith('::' + suffix) or n.endswith('<' + suffix) or suffix.startswith('<')):
                r.append(f)
        return r[0] if len(r) == 1 else (None if not r else r[0])
    def method(s, ty, trait, name):
        """<ty as trait>::name for a local type by suffix"""
        for f in s.local():
            m, h = norm_name(f['name'])
            if m.endswith('::' + name) and h.split('::')[-1] == ty and m.split('::')[-2] == trait: return f
        return None
    # ---- types
    def T(s, i): return s.types[i]
    def tid(s, disp): return s._tid_by_disp.get(disp)
    def adt(s, i):
        t = s.types[i]
        return t if t['k'] == 'adt' else None
    def struct_tid(s, suffix):
        for i, t in enumerate(s.types):
            a = s.adt(i)
            if a and a.get('crate') == 'fluffy_tribble' and a['name'].split('::')[-1] == suffix: return i
        return None
    def loops(s, f):
        """header -> set of blocks (natural loops; unwind edges are not in the dump)"""
        key = f['key']
        if key in s._loops: return s._loops[key]
        succ = [succs(b['term']) for b in f['blocks']]
        n = len(succ)
        # reachable, rpo
        order = []; seen = set()
        st = [(0, iter(succ[0]))]; seen.add(0)
        while st:
            u, it = st[-1]
            for v in it:
                if v not in seen:
                    seen.add(v); st.append((v, iter(succ[v]))); break
            else:
                order.append(u); st.pop()
        order.reverse()
        pos = {u: i for i, u in enumerate(order)}
        preds = {u: [] for u in order}
        for u in order:
            for v in succ[u]: preds[v].append(u)
        dom = {order[0]: {order[0]}}
        allb = set(order)
        for u in order[1:]: dom[u] = allb
        ch = True
        while ch:
            ch = False
            for u in order[1:]:
                new = set.intersection(*[dom[p] for p in preds[u]]) | {u}
                if new != dom[u]: dom[u] = new; ch = True
        loops = {}
        for u in order:
            for v in succ[u]:
                if v in dom[u]:
                    body = {v, u}; w = [u]
                    while w:
                        x = w.pop()
                        if x == v: continue
                        for p in preds[x]:
                            if p not in body: body.add(p); w.append(p)
                    loops.setdefault(v, set()).update(body)
        s._loops[key] = loops
        return loops
    def live(s, f):
        """live-in locals per block (address-taken locals are always live)"""
        key = ('live', f['key'])
        if key in s._loops: return s._loops[key]
        n = len(f['blocks'])
        addr = set(); use = [set() for _ in range(n)]; dfn = [set() for _ in range(n)]
        def upl(b, pl, store=False):
            if store and not pl['p']:
                dfn[b].add(pl['l'])
            else:
                if pl['l'] not in dfn[b]: use[b].add(pl['l'])
            for e in pl['p']:
                if e[0] == 'i' and e[1] not in dfn[b]: use[b].add(e[1])
        def uop(b, o):
            if isinstance(o, dict) and o.get('k') in ('copy', 'move'): upl(b, o['pl'])
        for b, bl in enumerate(f['blocks']):
            for st in bl['st']:
                if st['s'] == 'assign':
                    r = st['rv']
                    for v in r.values():
                        if isinstance(v, dict) and 'k' in v: uop(b, v)
                        elif isinstance(v, list):
                            for o in v: uop(b, o)
                    if r['r'] in ('ref', 'addr'):
                        upl(b, r['pl'])
                        if not any(e[0] == 'd' for e in r['pl']['p']): addr.add(r['pl']['l'])
                    elif 'pl' in r: upl(b, r['pl'])
                    upl(b, st['pl'], True)
                elif st['s'] == 'setdiscr': upl(b, st['pl'])
            t = bl['term']
            for k in ('a', 'f'):
                if k in t: uop(b, t[k])
            for a in t.get('args', []): uop(b, a)
            if t['t'] == 'drop': upl(b, t['pl'])
            if 'dest' in t: upl(b, t['dest'], True)
            if t['t'] == 'return' and 0 not in dfn[b]: use[b].add(0)
        livein = [set() for _ in range(n)]
        ch = True
        while ch:
            ch = False
            for b in range(n - 1, -1, -1):
                out = set()
                for v in succs(f['blocks'][b]['term']): out |= livein[v]
                new = use[b] | (out - dfn[b])
                if new != livein[b]: livein[b] = new; ch = True
        s._loops[key] = (livein, addr)
        return s._loops[key]
    # ---- templates
    def tpl(s, i, owner=None):
        key = (i, owner)
        if key in s._tpl: return s._tpl[key]
        t = s._mk_tpl(i, owner)
        s._tpl[key] = t
        return t
    def _mk_tpl(s, i, owner):
        t = s.types[i]; k = t['k']; disp = t['disp']
        if k == 'bool': return ('B',)
        if k == 'str': return ('opq', 'str')
        if k == 'never': return ('agg', [], i)
        if k == 'char': return ('I', 32, False)
        if k == 'int': return ('I', t['bits'], t['signed'])
        if k == 'float': return ('X',) if owner in s.ext_fields else ('F',)
        if k == 'tuple': return ('agg', [s.tpl(x) for x in t['elems']], i)
        if k == 'array': return ('agg', [s.tpl(t['elem'])] * int(t['len']), i)
        if k == 'adt':
            a = t; name = a['name']; args = a['args']
            if name == 'generational_arena::Index': return ('H',)
            if name in ('nalgebra::Matrix', 'nalgebra::base::Matrix') or name.endswith('::Matrix'):
                r, c = s.dims(disp); return ('mat', r, c)
            if name.endswith('::Unit') and 'Quaternion' in disp: return ('quat', True)
            if name.endswith('::Quaternion'): return ('quat', False)
            if name.endswith('::HashSet'): return ('set',)
            if name.endswith('vec::Vec') or name.endswith('::VecDeque'):
                if s.types[args[0]]['disp'].endswith('String'): return ('vec', ('opq', 'String'))
                return ('vec', s.tpl(args[0]))
            if name.endswith('::Arena'):
                el = s.types[args[0]]['disp']
                kind = 'entity' if 'InternalEntity' in el else 'collider' if 'InternalCollider' in el else 'generator' if 'UnaryForce' in el else el
                return ('arena', s.tpl(args[0]), kind)
            if name.endswith('::RefCell'): return ('cell', s.tpl(args[0]))
            if name.endswith('::String'): return ('opq', 'String')
            if name.endswith('boxed::Box'):
                at = s.types[args[0]]
                if at['k'] == 'dyn':
                    if 'InternalCollider' in at['disp']:
                        return ('dyn', {n: s.tpl(s.struct_tid('Internal' + x + 'Collider')) for n, x in enumerate(TAGS)})
                    return ('box', ('opq', at['disp']))
                return ('box', s.tpl(args[0]))
            if a['adt'] == 'struct':
                short = name.split('::')[-1]
                return ('agg', [s.tpl(ft, (short, fn)) for fn, ft in a['variants'][0]['fields']], i)
            if a['adt'] == 'enum':
                return ('enum', {n: [s.tpl(ft) for fn, ft in v['fields']] for n, v in enumerate(a['variants'])}, i)
        raise Unsupported('template for ' + disp)
    def dims(s, disp):
        m = re.findall(r'(?:nalgebra::)?U(\d)', disp)
        return int(m[0]), int(m[1])
    def field_index(s, tid, name):
        a = s.adt(tid)
        for n, (fn, ft) in enumerate(a['variants'][0]['fields']):
            if fn == name: return n
        raise Unsupported('no field %s in %s' % (name, s.types[tid]['disp']))

def succs(t):
    k = t['t']
    if k == 'goto': return [t['to']]
    if k == 'switch': return [b for _, b in t['br']] + [t['other']]
    if k in ('call', 'drop', 'assert'): return [t['to']] if t.get('to') is not None else []
    return []
