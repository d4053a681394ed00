"""Abstract interpreter over the MIR dump: context-sensitive value-flow analysis with joins.

Every function reachable from an entry point is analysed over its control-flow graph in topological
order. States are merged at joins (values become gated `ite` terms, the reachability condition of
each program point is a decision diagram over branch atoms), loops are summarised by a fixpoint that
introduces one `lv` term per loop-modified location, calls to local functions are analysed in the
calling context. Nothing is executed and no solver is involved.
"""
import sys, re
from terms import *
import models

sys.setrecursionlimit(200000)

AnalysisError = models.AnalysisError

class St:
    __slots__ = ('store', 'cont', 'pc')
    def __init__(self, store, cont, pc):
        self.store, self.cont, self.pc = store, cont, pc
    def copy(self): return St(dict(self.store), dict(self.cont), self.pc)

def places(x, out):
    """locals read by a statement or terminator fragment"""
    if isinstance(x, dict):
        if 'l' in x and 'p' in x and isinstance(x['l'], int):
            out.add(x['l'])
            for e in x['p']:
                if e[0] == 'i': out.add(e[1])
        else:
            for v in x.values(): places(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x: places(v, out)

class Fn:
    """control-flow structure of one body"""
    def liveness(self):
        """{block: locals whose value can still matter at its start}; a local whose address is taken always can"""
        gen, kill, taken = {}, {}, {0}
        for b in self.rpo:
            g, k = set(), set()
            def use(x):
                r = set(); places(x, r)
                g.update(r - k)
            for s in self.blocks[b]['st']:
                if s['k'] == 'a':
                    r = s['r']
                    if r['k'] in ('ref', 'addr', 'rawptr', 'addrof') or r['k'] not in ('use', 'cast', 'bin', 'un', 'discr', 'agg', 'repeat'):
                        t = set(); places(r, t)
                        if not (r['k'] == 'ref' and r['p']['p'] and r['p']['p'][0][0] == 'd'): taken |= t
                    use(r)
                    if s['p']['p']: use(s['p'])
                    else: k.add(s['p']['l'])
                else: use(s)
            t = self.blocks[b]['t']
            if t['k'] == 'call':
                use({x: v for x, v in t.items() if x != 'd'})
                if t['d']['p']: use(t['d'])
                else: k.add(t['d']['l'])
            elif t['k'] == 'return': g.add(0)
            elif t['k'] == 'drop': pass
            else: use(t)
            gen[b], kill[b] = g, k
        live = {b: set(gen[b]) for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for x in self.succ[b]: o |= live.get(x, set())
                n = gen[b] | (o - kill[b])
                if n != live[b]: live[b] = n; ch = True
        return {b: live[b] | taken for b in self.rpo}

    def __init__(self, fid, body, promoted=None):
        self.id, self.body = fid, body
        self.promoted = promoted
        self.blocks = body['blocks']
        self.locals = body['locals']
        n = len(self.blocks)
        self.succ = [[] for _ in range(n)]
        for i, b in enumerate(self.blocks):
            if b is None: continue
            t = b['t']; k = t['k']
            if k in ('goto', 'drop', 'assert', 'call'):
                if t.get('t') is not None: self.succ[i].append(t['t'])
            elif k == 'switch':
                for _, x in t['vs']: self.succ[i].append(x)
                if t.get('other') is not None: self.succ[i].append(t['other'])
        # reverse postorder
        seen = set(); order = []
        st = [(0, iter(self.succ[0]))]; seen.add(0)
        while st:
            b, it = st[-1]
            for x in it:
                if x not in seen and self.blocks[x] is not None:
                    seen.add(x); st.append((x, iter(self.succ[x]))); break
            else:
                order.append(b); st.pop()
        order.reverse()
        self.rpo = order
        num = {b: i for i, b in enumerate(order)}
        self.keep = self.liveness()
        # dominators
        preds = {b: [] for b in order}
        for b in order:
            for x in self.succ[b]:
                if x in preds: preds[x].append(b)
        idom = {0: 0}; ch = True
        while ch:
            ch = False
            for b in order[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None: new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while num[x] > num[y]: x = idom[x]
                                while num[y] > num[x]: y = idom[y]
                            new = x
                if idom.get(b) != new: idom[b] = new; ch = True
        def dom(a, b):
            while True:
                if a == b: return True
                if b == 0: return False
                b = idom[b]
        # natural loops
        self.loops = {}
        for b in order:
            for x in self.succ[b]:
                if x in num and num[x] <= num[b]:
                    if not dom(x, b): raise AnalysisError('irreducible control flow in ' + fid)
                    body_ = self.loops.setdefault(x, {x})
                    w = [b]
                    while w:
                        y = w.pop()
                        if y in body_: continue
                        body_.add(y); w += preds[y]

# types whose comparison with zero etc. may assume non-negativity
def unsigned_ty(ty):
    ty = ty.lstrip('&').replace('mut ', '').strip()
    return ty in ('u8', 'u16', 'u32', 'u64', 'u128', 'usize') or ty.startswith('cosmwasm_std::math::') and 'Signed' not in ty and 'Int' not in ty

INT_TY = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize',
          'cosmwasm_std::math::uint128::Uint128', 'cosmwasm_std::math::uint256::Uint256',
          'cosmwasm_std::math::uint64::Uint64'}
OPAQUE_LEAF = ('fld', 'pl', 'val', 'in', 'lv', 'call', 'nx', 'out')

class Effect:
    __slots__ = ('kind', 'ns', 'key', 'val', 'pc', 'span', 'fn', 'chain', 'loops', 'seq', 'prev', 'extra')
    def __init__(self, **kw):
        for s in self.__slots__: setattr(self, s, kw.get(s))
    def __repr__(self):
        return '%s %s[%s] = %s @%s' % (self.kind, self.ns, show(self.key), show(self.val, 4), self.span)

def never(pc):
    """the condition cannot hold"""
    from lib import search, in_range
    try: return search(in_range(pc), []) is None
    except AnalysisError: return False

class Engine:
    def __init__(self, dump, opaque=()):
        self.dump = dump
        self.fns = dump['fns']
        self.adts = dump['adts']
        self.opaque = set(opaque)
        self.summaries = {}
        self.unrolled = set()    # functions whose loops are unrolled rather than summarised
        self.unfold = 0          # how often a recursive function may be entered again
        self._cfg = {}
        self._ctx = {}
        self.effects = []
        self.loops = {}
        self.unknown = {}
        self.capturing = None
        self.fresh = 0
        self.ctxstack = []
        self.fidstack = []
        self.generic = {}; self.monos = {}
        self.loopstack = []
        self.definite = False
        self.miss = self.nextmiss = None     # filtering iterators at the head of a loop, see models.nx
        self.stats = {'functions': set(), 'calls': 0, 'blocks': 0, 'loops': 0}
        self.index_impls()
        self.find_recursive()

    # ------------------------------------------------------------------ program tables
    def index_impls(self):
        self.impls = {}          # (trait, self type) -> {method: fid}
        self.bypath = {}
        for fid, f in self.fns.items():
            self.bypath.setdefault(f['path'], fid)
            if f.get('impltrait'):
                m = re.match(r'^<(.*) as (.*)>$', f['impltrait'])
                tr = m.group(2) if m else f['impltrait']
                name = fid.rsplit('::', 1)[-1]
                self.impls.setdefault((tr, f.get('implself')), {})[name] = fid
    def impl(self, trait, selfty, method):
        return self.impls.get((trait, selfty), {}).get(method)

    def find_recursive(self):
        g = {}
        for fid, f in self.fns.items():
            out = set()
            bodies = [f.get('body')] + (f.get('promoted') or [])
            for b in bodies:
                if not b: continue
                for bl in b['blocks']:
                    if bl is None: continue
                    t = bl['t']
                    if t['k'] == 'call' and t['f']['k'] == 'const':
                        fn = t['f']['c'].get('fn')
                        if fn and fn.get('local') and fn.get('id'): out.add(fn['id'])
                    for s in bl['st']:
                        if s['k'] == 'a' and s['r']['k'] == 'agg' and s['r']['ak'] == 'closure': out.add(s['r']['id'])
            g[fid] = out
        self.callgraph = g
        # Tarjan
        idx = {}; low = {}; onst = set(); st = []; self.recursive = set(); c = [0]
        def go(v):
            work = [(v, iter(g[v]))]
            idx[v] = low[v] = c[0]; c[0] += 1; st.append(v); onst.add(v)
            while work:
                v, it = work[-1]
                for w in it:
                    if w not in g: continue
                    if w not in idx:
                        idx[w] = low[w] = c[0]; c[0] += 1; st.append(w); onst.add(w)
                        work.append((w, iter(g[w]))); break
                    elif w in onst: low[v] = min(low[v], idx[w])
                else:
                    work.pop()
                    if work: low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == idx[v]:
                        comp = []
                        while True:
                            w = st.pop(); onst.discard(w); comp.append(w)
                            if w == v: break
                        if len(comp) > 1 or v in g[v]: self.recursive |= set(comp)
        for v in g:
            if v not in idx: go(v)

    def reach(self, fid):
        seen = set(); w = [fid]
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x); w += [y for y in self.callgraph.get(x, ()) if y not in seen]
        return seen

    def namespaces_of(self, fid):
        """storage namespaces a function may touch (through the constants it references)"""
        r = getattr(self, '_nsof', None)
        if r is None: r = self._nsof = {}
        if fid in r: return r[fid]
        out = set()
        def consts(x):
            if isinstance(x, dict):
                if x.get('k') == 'const' and 'c' in x:
                    it = x['c'].get('item')
                    if it and it in self.fns:
                        for b in (self.fns[it].get('body') or {}).get('blocks', []):
                            if b:
                                for y in strs(b): out.add(y)
                for v in x.values(): consts(v)
            elif isinstance(x, list):
                for v in x: consts(v)
        def strs(x):
            if isinstance(x, dict):
                if x.get('k') == 'const' and 'str' in x.get('c', {}): yield x['c']['str']
                for v in x.values(): yield from strs(v)
            elif isinstance(x, list):
                for v in x: yield from strs(v)
        for f in self.reach(fid):
            fn = self.fns.get(f)
            if fn:
                consts(fn.get('body')); consts(fn.get('promoted'))
                if fn['path'].endswith('state::orders'): out.add('orders')
        r[fid] = out
        return out

    def cfg(self, fid, prom=None):
        k = (fid, prom)
        c = self._cfg.get(k)
        if c is None:
            f = self.fns[fid]
            body = f['body'] if prom is None else f['promoted'][prom]
            if not body: raise AnalysisError('no body for ' + fid)
            c = self._cfg[k] = Fn(fid, body, prom)
        return c

    def ctx(self, parent, fid, block, k=0):
        key = (parent, fid, block, k)
        i = self._ctx.get(key)
        if i is None: i = self._ctx[key] = len(self._ctx) + 1
        return i

    # ------------------------------------------------------------------ store
    def rd(self, st, loc):
        rt, path = loc
        v = st.store.get(rt)
        if v is None:
            if rt[0] == 'D': v = rt[1]
            else: v = mk('uninit', str(rt))
        for p in path: v = self.proj(st, v, p)
        return self.nrm(st, v)

    def nrm(self, st, v):
        return restrict(v, st.pc)

    def proj(self, st, v, p):
        v = self.nrm(st, v)
        if p[0] == '[': return models.index(self, st, v, num(int(p[1:-1])))
        if '#' in p:
            var, n = p.split('#', 1)
            return pl(v, var, n)
        return fld(v, p)

    def upd(self, st, v, path, new):
        if not path: return new
        p = path[0]
        if p[0] == '[':
            i = int(p[1:-1])
            c = models.list_cases(v)
            if c: return ite(c[0], self.upd(st, c[1], path, new), self.upd(st, c[2], path, new))
            if v.op == 'cat': v = unexplode(explode(v))
            if v.op not in ('vec', 'uninit'): raise AnalysisError('write to an element of an unknown list %s in ' % show(v, 3) + (self.fn.id if self.fn else '?'))
            if v.op == 'vec' and i >= len(v.a): return v            # the element written to is one of another case
            es = list(v.a) if v.op == 'vec' else [BOTTOM] * (i + 1)
            es[i] = self.upd(st, es[i], path[1:], new)
            return vec(*es)
        if '#' in p:
            var, n = p.split('#', 1)
            v = self.nrm(st, v)
            def go(t):
                if t.op == 'agg':
                    if t.a[1] == var: return with_(t, n, self.upd(st, fld(t, n), path[1:], new))
                    return t
                if t.op == 'ite': return ite(t.a[0], go(t.a[1]), go(t.a[2]))
                ov = dict(t.a[1]) if t.op == 'with' else {}
                base = t.a[0] if t.op == 'with' else t
                ov[p] = self.upd(st, pl(t, var, n), path[1:], new)
                return mk('with', base, tuple(sorted(ov.items(), key=lambda kv: kv[0])))
            return go(v)
        if v.op == 'ite' and root(v) is not None and v.a[1].op != v.a[2].op:
            return ite(v.a[0], self.upd(st, v.a[1], path, new), self.upd(st, v.a[2], path, new))
        if v.op == 'uninit' : v = agg('?', '', [], [])
        return with_(v, p, self.upd(st, fld(v, p), path[1:], new))

    def wr(self, st, loc, val):
        rt, path = loc
        if rt[0] == 'D' and not (rt[1].op == 'in' and rt[1].a[0] in ('storage', 'querier', 'api')):
            raise AnalysisError('write through a reference that is not tracked (%s) in %s' % (show(rt[1], 3)[:80], self.fn.id if self.fn else '?'))
        if not path: st.store[rt] = val; return
        v = st.store.get(rt)
        if v is None: v = rt[1] if rt[0] == 'D' else mk('uninit', str(rt))
        st.store[rt] = self.upd(st, v, path, val)

    def deref(self, st, v):
        """value a pointer term points to (non-pointers denote themselves)"""
        if v.op == 'ref': return self.rd(st, (v.a[0], v.a[1]))
        if v.op == 'ite' and (has_ref(v)):
            return ite(v.a[0], self.deref(st, v.a[1]), self.deref(st, v.a[2]))
        r = st.store.get(('D', v))
        return self.nrm(st, r) if r is not None else v

    def val(self, st, v):
        """fully dereferenced value"""
        v = self.nrm(st, v)
        n = 0
        while True:
            w = self.deref(st, v)
            if w is v or n > 20: return self.nrm(st, v)
            v = w; n += 1

    def deep(self, st, v):
        """value with all contained references replaced by what they point to"""
        v = self.val(st, v)
        if v.op in ('agg', 'vec', 'cat', 'with', 'ite') and any(x.op == 'ref' for x in subterms(v)):
            if v.op == 'ite': return ite(v.a[0], self.deep(st, v.a[1]), self.deep(st, v.a[2]))
            return rebuild(v, lambda x: self.deep(st, x))
        return v

    def locs(self, st, v):
        """[(condition, location)] a pointer term may denote"""
        if v.op == 'ref': return [(TRUE, (v.a[0], v.a[1]))]
        if v.op == 'ite' and has_ref(v):
            return [(and_(v.a[0], c), l) for c, l in self.locs(st, v.a[1])] + \
                   [(and_(not_(v.a[0]), c), l) for c, l in self.locs(st, v.a[2])]
        return [(TRUE, (('D', v), ()))]

    def assign(self, st, ptr, val):
        """*ptr = val"""
        ls = self.locs(st, self.nrm(st, ptr))
        for c, l in ls:
            if c is TRUE: self.wr(st, l, val)
            else: self.wr(st, l, ite(c, val, self.rd(st, l)))

    def alloc(self, st, val, tag=''):
        self.fresh += 1
        rt = ('H', self.cur, tag)
        n = 0
        while rt + (n,) in st.store: n += 1
        rt = rt + (n,)
        st.store[rt] = val
        return mk('ref', rt, ())

    # ------------------------------------------------------------------ places
    def place_locs(self, st, ctx, p):
        """[(cond, loc)] of a place"""
        locs = [(TRUE, ((ctx, p['l']), ()))]
        pend = None
        for e in p['p']:
            k = e[0]
            if k == 'd':
                out = []
                for c, l in locs:
                    v = self.rd(st, l)
                    for c2, l2 in self.locs(st, v): out.append((and_(c, c2), l2))
                locs = out
            elif k == 'v': pend = e[1]
            elif k == 'f':
                n = e[1] if pend is None else pend + '#' + e[1]
                pend = None
                locs = [(c, (r, pa + (n,))) for c, (r, pa) in locs]
            elif k == 'i':
                iv = self.rd(st, ((ctx, e[1]), ()))
                if iv.op != 'num': raise AnalysisError('symbolic index write')
                locs = [(c, (r, pa + ('[%d]' % int(nval(iv)),))) for c, (r, pa) in locs]
            elif k == 'c':
                out = []
                for c, (r, pa) in locs:
                    i = e[1]
                    if len(e) > 2 and e[2]:
                        n = models.llen(self.val(st, self.rd(st, (r, pa))))
                        if not isnum(n): raise AnalysisError('an element counted from the end of a list of unknown length')
                        i = int(nval(n)) - i
                    out.append((c, (r, pa + ('[%d]' % i,))))
                locs = out
            else: raise AnalysisError('place projection %s' % e)
        return locs

    def read_place(self, st, ctx, p):
        v = st.store.get((ctx, p['l']))
        if v is None: v = mk('uninit', str((ctx, p['l'])))
        pend = None
        for e in p['p']:
            k = e[0]
            v = self.nrm(st, v)
            if k == 'd': v = self.deref(st, v)
            elif k == 'v': pend = e[1]
            elif k == 'f':
                v = pl(v, pend, e[1]) if pend is not None else fld(v, e[1])
                pend = None
            elif k == 'i': v = models.index(self, st, v, self.rd(st, ((ctx, e[1]), ())))
            elif k == 'c': v = models.index(self, st, v, sub(models.llen(v), num(e[1])) if len(e) > 2 and e[2] else num(e[1]))
            elif k == 's':
                n = models.llen(v)
                if v.op != 'vec': raise AnalysisError('part of a list of unknown length')
                v = vec(*v.a[e[1]:(len(v.a) - e[2] if e[3] else e[2])])
        return self.nrm(st, v)

    def write_place(self, st, ctx, p, val, ty=None):
        if not p['p']:
            st.store[(ctx, p['l'])] = val
            return
        for c, l in self.place_locs(st, ctx, p):
            if c is TRUE: self.wr(st, l, val)
            else: self.wr(st, l, ite(c, val, self.rd(st, l)))

    def ref_place(self, st, ctx, p, mut):
        # &*x of a non-pointer value is the value itself
        if p['p'] and p['p'][-1][0] == 'd':
            q = {'l': p['l'], 'p': p['p'][:-1]}
            v = self.read_place(st, ctx, q)
            return v
        ls = self.place_locs(st, ctx, p)
        if not mut and len(ls) == 1 and ls[0][1][0][0] == 'D':
            return self.rd(st, ls[0][1])
        r = None
        for c, (rt, pa) in reversed(ls):
            x = mk('ref', rt, pa)
            r = x if r is None else ite(c, x, r)
        return r

    # ------------------------------------------------------------------ operands
    def const(self, st, c, ctx):
        if 'promoted' in c:
            f = c['of']
            x = self.ctx(ctx, f, 'P%d' % c['promoted'])
            return self.run(self.cfg(f, c['promoted']), x, [], st)
        if 'int' in c and 'fn' not in c:
            if c['ty'] == 'bool': return boolean(c['int'] == 'true')
            if c['ty'] == 'char': return mk('char', c['int'])
            return num(int(c['int']))
        if 'str' in c: return mk('str', c['str'])
        if 'fn' in c: return mk('fn', JSON(self.mono(c['fn'], self.fidstack[-1] if self.fidstack else None)[0]))
        if 'closure' in c: return agg('closure', c['closure'], [], [])
        if 'item' in c:
            if c.get('itemlocal') and c['item'] in self.fns and self.fns[c['item']].get('body'):
                x = self.ctx(ctx, c['item'], 'C')
                return self.run(self.cfg(c['item']), x, [], st)
            return models.ext_const(self, c)
        if c['ty'] == '()': return UNIT
        m = re.match(r'^b"(.*)"$', c.get('repr', ''), re.S)
        if m: return mk('bytes', m.group(1))
        if c['ty'].startswith('{closure@'): return agg('closure', c['ty'], [], [])
        return models.ext_const(self, c)

    def operand(self, st, ctx, o):
        if o['k'] in ('copy', 'move'): return self.read_place(st, ctx, o['p'])
        return self.const(st, o['c'], ctx)

    def rvalue(self, st, ctx, r, fn):
        k = r['k']
        if k == 'use': return self.operand(st, ctx, r['o'])
        if k == 'ref': return self.ref_place(st, ctx, r['p'], r['mut'])
        if k == 'cast':
            v = self.operand(st, ctx, r['o'])
            return models.cast(self, st, r, v)
        if k == 'bin':
            a, b = self.operand(st, ctx, r['a']), self.operand(st, ctx, r['b'])
            return models.binop(self, st, r['op'], a, b, r['ty'])
        if k == 'un':
            v = self.val(st, self.operand(st, ctx, r['a']))
            if r['op'] == 'Not': return not_(v) if r.get('ty', 'bool') == 'bool' else mk('bitnot', v)
            if r['op'] == 'Neg': return scale(v, -1)
            if r['op'] == 'PtrMetadata' and v.op != 'str': return models.llen(v)
            return mk('un', r['op'], self.val(st, v))
        if k == 'discr':
            v = self.val(st, self.read_place(st, ctx, r['p']))
            return mk('discr', v, strip_ty(r['ty']))
        if k == 'agg':
            ops = [self.operand(st, ctx, o) for o in r['ops']]
            ak = r['ak']
            if ak == 'tuple': return tup(*ops) if ops else UNIT
            if ak == 'array': return vec(*ops)
            if ak == 'closure': return agg('closure', r['id'], [str(i) for i in range(len(ops))], ops)
            return agg(models.adt_name(r['adt']), r['variant'], r['names'], ops)
        if k == 'repeat':
            v = self.operand(st, ctx, r['o'])
            n = r.get('n')
            try: n = int(n)
            except Exception: n = None
            return vec(*([v] * n)) if n is not None and n <= 64 else mk('repeat', v)
        return mk('opaque', 'rvalue', str(k), ctx)

    # ------------------------------------------------------------------ merging
    def merge(self, states):
        states = [s for s in states if s.pc is not FALSE]
        if not states: return None
        cur = states[0]
        for s in states[1:]:
            pc = or_(cur.pc, s.pc)
            sep = restrict(cur.pc, pc)
            store = {}
            a, b = cur.store, s.store
            for r in a.keys() | b.keys():
                x, y = a.get(r), b.get(r)
                if x is None and r[0] == 'D': x = r[1]
                if y is None and r[0] == 'D': y = r[1]
                if x is y: store[r] = x
                elif x is None: store[r] = y
                elif y is None: store[r] = x
                else: store[r] = self.join(sep, x, y, cur, s, pc)
            cont = {}
            for n in a_or_b(cur.cont, s.cont):
                x = cur.cont.get(n) or s_init(n); y = s.cont.get(n) or s_init(n)
                cont[n] = x if x is y else self.join(sep, x, y, cur, s, pc)
            cur = St(store, cont, pc)
        return cur

    def join(self, sep, x, y, sx, sy, pc):
        return restrict(ite(sep, restrict(x, sx.pc), restrict(y, sy.pc)), pc)

    # ------------------------------------------------------------------ bodies
    def run(self, fn, ctx, args, st):
        """analyse a body; returns the result term (None if it never returns) and updates st in place"""
        if len(self.ctxstack) > 120: raise AnalysisError('call depth')
        self.stats['functions'].add(fn.id)
        for i, a in enumerate(args): st.store[(ctx, i + 1)] = a
        saved_cur = getattr(self, 'cur', None)
        self.ctxstack.append(ctx); self.fidstack.append(fn.id)
        try:
            exits = self.region(fn, ctx, set(fn.rpo), 0, st.copy(), None)
        finally:
            self.ctxstack.pop(); self.fidstack.pop()
            self.cur = saved_cur
        rets = [s for t, s in exits if t == 'ret']
        m = self.merge(rets)
        if m is None:
            st.pc = FALSE
            return None
        ret = m.store.get((ctx, 0), UNIT)
        ret = restrict(ret, m.pc)
        st.cont, st.pc = m.cont, m.pc
        keep = refs_in(ret, m.store)
        st.store = {r: v for r, v in m.store.items() if r[0] != ctx or r in keep}
        return ret

    def region(self, fn, ctx, blocks, entry, st, header):
        pend = {entry: [st]}
        exits = []
        def route(t, s):
            if s.pc is FALSE: return
            if t in blocks and not (t == header): pend.setdefault(t, []).append(s)
            else: exits.append((t, s))
        first = True
        for b in fn.rpo:
            if b not in blocks or b not in pend: continue
            s = self.merge(pend.pop(b))
            if s is None: continue
            keep = fn.keep[b]
            s.store = {r: v for r, v in s.store.items() if r[0] != ctx or r[1] in keep}
            if b in fn.loops and not (b == header):
                for t, s2 in self.loop(fn, ctx, b, s): route(t, s2)
            else:
                for t, s2 in self.block(fn, ctx, b, s): route(t, s2)
        return exits

    def run_iter(self, fn, ctx, h, s):
        """one pass over a loop body starting at its header; the header itself is block h"""
        return self.region(fn, ctx, fn.loops[h], h, s, h)

    def loop(self, fn, ctx, h, s):
        self.stats['loops'] += 1
        if self.unfold and fn.id in self.unrolled:
            outs = self.loop_cases(fn, ctx, h, s)
            if outs is not None: return outs
        # definite iteration: unroll
        mark = len(self.effects)
        outs = []; cur = s.copy(); done = False
        saved_def = self.definite
        for k in range(12):
            self.definite = False
            self.unroll = getattr(self, 'unroll', ())
            old = self.unroll
            self.unroll = old + ((ctx, h, k),)
            try: ex = self.run_iter(fn, ctx, h, cur.copy())
            finally: self.unroll = old
            backs = [s2 for t, s2 in ex if t == h]
            outs += [(t, s2) for t, s2 in ex if t != h]
            m = self.merge(backs)
            if m is None: done = True; break
            if not self.definite and not (self.unfold and fn.id in self.unrolled): break
            cur = m
        self.definite = saved_def
        if done: return outs
        del self.effects[mark:]
        # fixpoint
        names = {}
        for n in fn.body['names']:
            if not n['p']['p']: names.setdefault(n['p']['l'], n['n'])
        lid = 'L%d' % self.ctx(ctx, fn.id, 'loop%d' % h, self.ukey())
        def body(st):
            return [('back' if t == h else t, s2) for t, s2 in self.run_iter(fn, ctx, h, st)]
        def name(rt): return (names.get(rt[1]) if rt[0] == ctx else None) or '%s_%s' % (rt[0], rt[1] if len(rt) > 1 else '')
        return self.fix(s, body, lid, name, fn.id, fn.blocks[h].get('s'))

    def loop_cases(self, fn, ctx, h, s):
        """follow a loop round by round, each way through it on its own; None when it does not end within bounds"""
        mark = len(self.effects)
        saved_def = self.definite
        outs, work, n = [], [(s.copy(), 0)], 0
        while work:
            st, depth = work.pop()
            n += 1
            if n > 200 or depth > 12:
                del self.effects[mark:]; self.definite = saved_def
                return None
            old = getattr(self, 'unroll', ())
            self.unroll = old + ((ctx, h, 'case', n),)
            try: ex = self.run_iter(fn, ctx, h, st)
            finally: self.unroll = old
            for t, s2 in ex:
                if t != h: outs.append((t, s2))
                else: work += [(x, depth + 1) for x in self.split(s2)]
        self.definite = saved_def
        return outs

    def split(self, st):
        """the cases of a state in which its records are not conditional"""
        out, work = [], [st]
        while work:
            x = work.pop()
            c = next((v.a[0] for v in x.store.values() if v is not None and v.op == 'ite' and any(y.op in ('agg', 'rec') for y in v.a[1:])), None)
            if c is None or len(out) + len(work) > 30: out.append(x); continue
            a = root(c)
            for lit in (a, not_(a)):
                pc = and_(x.pc, lit)
                if pc is FALSE: continue
                y = x.copy(); y.pc = pc
                y.store = {k: v if v is None else restrict(v, lit) for k, v in x.store.items()}
                work.append(y)
        return out

    def fix(self, s, body, lid, name, fnid, span):
        """summarise a loop; body(state) -> [(target, state)] with target 'back' for another iteration"""
        mark = len(self.effects)
        lvs = {}; alias = {}; extra = {}
        for rounds in range(40):
            hs = s.copy()
            for (rt, path), t in lvs.items():
                t = alias.get((rt, path), t)
                if rt[0] == 'NS':
                    hs.cont[rt[1]] = t
                else:
                    self.wr(hs, (rt, path), t)
            del self.effects[mark:]
            self.loopstack.append(lid)
            saved_def = self.definite
            try: ex = body(hs.copy())
            finally:
                self.loopstack.pop()
                self.definite = saved_def
            backs = self.merge([s2 for t, s2 in ex if t == 'back'])
            outs = [(t, s2) for t, s2 in ex if t != 'back']
            new = {}
            if backs is not None:
                for rt in s.store:
                    a = hs.store[rt]; b = backs.store.get(rt)
                    if b is None or a is b: continue
                    b = restrict(b, backs.pc)
                    if b is a or b is restrict(a, backs.pc): continue
                    for path in self.diff(a, b, ()):
                        if any((rt, path[:i]) in lvs for i in range(len(path) + 1)): continue
                        new[(rt, path)] = 1
                for n in backs.cont:
                    a = hs.cont.get(n) or s_init(n)
                    if a is not backs.cont[n] and (('NS', n), ()) not in lvs: new[(('NS', n), ())] = 1
            if not new:
                if alias or backs is None or not self.counters(s, backs, lvs, lid, alias, extra): break
                continue
            for (rt, path) in new:
                # a wider location subsumes narrower ones
                for k in [k for k in lvs if k[0] == rt and k[1][:len(path)] == path]: del lvs[k]
                t = lvs[(rt, path)] = mk('lv', lid, str(rt[1] if rt[0] == 'NS' else name(rt)), path, str(rt))
                if rt[0] != 'NS':
                    i0 = self.rd(s, (rt, path))
                    if i0.op in models.ITOPS or i0.op == 'adv' or i0 in LV_BASE: LV_BASE[t] = i0
        else: raise AnalysisError('loop fixpoint did not converge in ' + fnid)
        info = {'fn': fnid, 'span': span, 'vars': {}, 'entry_pc': s.pc, 'entry': s,
                'back_pc': backs.pc if backs else FALSE, 'exits': [(t, s2.pc) for t, s2 in outs], 'effects': (mark, len(self.effects))}
        for (rt, path), t in lvs.items():
            if rt[0] == 'NS':
                i = s.cont.get(rt[1]) or s_init(rt[1]); n = backs.cont.get(rt[1])
            else:
                i = self.rd(s, (rt, path)); n = self.rd(backs, (rt, path))
            if (rt, path) in alias:
                if restrict(n, backs.pc) is not add(alias[rt, path], ONE): raise AnalysisError('loop counter in ' + fnid)
                continue
            info['vars'][t] = (i, n)
            if isint(i) and n is not None and n.op != 'call': INT.add(t.id) if all_int(i, n, t) else None
        for z, L in extra.items(): info['vars'][z] = (mk('iter', L), mk('adv', z))
        self.loops[lid] = info
        # closed forms of simple accumulators at exits that exhausted the iterated list
        closed = self.closed_forms(info)
        for itv, (m, lim) in closed.items():
            hn = mk('hasnext', itv)
            for t, s2 in outs:
                done = implies(s2.pc, not_(hn))
                if not done and not (lim and implies(s2.pc, not_(lim[0]))): continue
                m2 = m if done and not lim else lim[1] if lim else {}
                memo = {}
                for rt, v in list(s2.store.items()): s2.store[rt] = subst(v, m2, memo)
                for ns, v in list(s2.cont.items()): s2.cont[ns] = subst(v, m2, memo)
            # every round either ends the loop this way or starts another one: the end is reached whenever the loop is
            over = not_(and_(hn, lim[0]) if lim else hn)
            if outs and all(implies(s2.pc, over) for t, s2 in outs):
                allpc = info['back_pc']
                for t, s2 in outs: allpc = or_(allpc, s2.pc)
                ended = outs[0][1].pc
                for t, s2 in outs: ended = or_(ended, s2.pc)
                # (amounts out of range end the call: rule F02)
                for e in self.effects:
                    if e.kind == 'panic' and str(e.extra).lower().startswith(('overflow', 'underflow')): allpc = or_(allpc, e.pc)
                if implies(s.pc, allpc) or never(and_(s.pc, not_(allpc))):
                    s2 = outs[-1][1]
                    s2.pc = or_(s2.pc, and_(s.pc, not_(ended)))
        return outs

    def counters(self, s, backs, lvs, lid, alias, extra):
        """express loop counters as positions in a list: locations whose value starts at a constant and grows by
        one per round, next to an iterator or bounded by the length of a list the loop does not change"""
        cs = []; its = []
        for loc, t in lvs.items():
            if loc[0][0] == 'NS': continue
            i, n = self.rd(s, loc), restrict(self.rd(backs, loc), backs.pc)
            if isnum(i) and n is add(t, ONE): cs.append((loc, t, i))
            if i.op == 'iter' and n is mk('adv', t): its.append(t)
        for loc, t, i in cs:
            if its:
                alias[loc] = add(i, pos(its[0]))
                continue
            if i is not ZERO: continue
            for x in subterms(backs.pc):
                if x.op not in ('lt', 'eq') or not occurs(t, x): continue
                ls = [y for y in subterms(x) if y.op == 'len' and not any(z.op == 'lv' and z.a[0] == lid for z in subterms(y))]
                if len(ls) == 1 and implies(backs.pc, lt(t, ls[0])):
                    L = ls[0].a[0]
                    z = next((z for z in extra if extra[z] is L), None)
                    if z is None:
                        z = mk('lv', lid, 'iter ' + str(t.a[1]), loc[1], str(loc[0]) + '#')
                        LV_BASE[z] = mk('iter', L); extra[z] = L
                    alias[loc] = pos(z)
                    break
        return bool(alias)

    def closed_forms(self, info):
        """iterator lv -> {accumulator lv: its value once the iterator is exhausted}"""
        from lib import atoms_of
        out = {}
        lvset = set(info['vars'])
        for itv, (i0, n0) in info['vars'].items():
            if i0.op != 'iter' or n0 is not mk('adv', itv): continue
            L = i0.a[0]
            base = models.lbase(L)
            m = {pos(itv): models.llen(L)}
            # a bound on the number of rounds besides the end of the list
            lim = None
            for x in subterms(info['back_pc']):
                if x.op != 'lt': continue
                n, k = x.a[1], x.a[0]
                acc = k.a[0] if k.op == 'len' else None
                if any(y in lvset for y in subterms(n)) or not (k is pos(itv) or acc in info['vars'] and info['vars'][acc][0] is EMPTY): continue
                # when there is one
                g = TRUE if implies(info['back_pc'], x) else next((g for y in atoms_of(info['back_pc']) if y is not x and not any(z in lvset for z in subterms(y))
                    for g in (y, not_(y)) if implies(and_(info['back_pc'], g), x)), None)
                if g is not None: lim = (or_(not_(g), x), {}, n, acc, g); break
            for v, (i, n) in info['vars'].items():
                if v is itv or n is None: continue
                n = restrict(n, info['back_pc'])
                x = models.acc_step(v, n)
                if x is None: continue
                kind, x = x
                x = subst(x, {mk('nx', itv): mk('elem', base)})
                if any(y in lvset for y in subterms(x)): continue
                if kind == 'sum': m[v] = add(i, models.lsum(models.lmapx(L, base, x)))
                else: m[v] = cat(i, models.lfmapx(L, base, x) if kind == 'opt' else models.lmapx(L, base, x))
                if lim and (lim[3] is None or lim[3] is v and kind == 'item'):
                    Ln = models.ltake(L, lim[2])
                    if kind == 'sum': r = add(i, models.lsum(models.lmapx(Ln, base, x)))
                    else: r = cat(i, models.lfmapx(Ln, base, x) if kind == 'opt' else models.lmapx(Ln, base, x))
                    lim[1][v] = ite(lim[4], r, m[v])
            if lim and lim[3] is not None and lim[3] not in lim[1]: lim = None
            out[itv] = (m, lim)
        return out

    def ukey(self): return getattr(self, 'unroll', ())

    def diff(self, a, b, path):
        if a is b: return []
        if a.op == b.op and a.op in ITADAPT and len(path) < 6:
            out = []
            for i, (x, y) in enumerate(zip(a.a, b.a)): out += self.diff(x, y, path + ('@%d' % i,))
            return out
        if a.op in ('agg', 'with') or b.op in ('agg', 'with'):
            if a.op == 'agg' and b.op == 'agg' and a.a[:3] == b.a[:3] and a.a[0] != 'closure' and a.a[3] and len(path) < 6 and a.a[1] in ('', a.a[0].rsplit('::', 1)[-1]):
                out = []
                for n, x, y in zip(a.a[2], a.a[3], b.a[3]): out += self.diff(x, y, path + (n,))
                return out
            ba = a.a[0] if a.op == 'with' else a
            bb = b.a[0] if b.op == 'with' else b
            if ba is bb and len(path) < 6:
                ns = {n for n, _ in (a.a[1] if a.op == 'with' else ())} | {n for n, _ in (b.a[1] if b.op == 'with' else ())}
                if not any('#' in n for n in ns):
                    out = []
                    for n in sorted(ns): out += self.diff(fld(a, n), fld(b, n), path + (n,))
                    return out
        return [path]

    def block(self, fn, ctx, b, st):
        bl = fn.blocks[b]
        self.stats['blocks'] += 1
        self.cur = (ctx, b, self.ukey())
        for i, s in enumerate(bl['st']):
            k = s['k']
            if k == 'a':
                self.span = s.get('s')
                v = self.rvalue(st, ctx, s['r'], fn)
                if v is None: return []
                p = s['p']
                if not p['p'] and fn.locals[p['l']] in INT_TY and v.op in OPAQUE_LEAF: INT.add(v.id)
                self.write_place(st, ctx, p, v)
            elif k == 'sd':
                self.write_place(st, ctx, s['p'], agg(s.get('adt', '?'), s['v'], [], []))
        t = bl['t']; k = t['k']
        self.span = bl.get('s')
        self.fn = fn
        if k == 'goto': return [(t['t'], st)]
        if k == 'return': return [('ret', st)]
        if k == 'drop': return [(t['t'], st)] if t.get('t') is not None else []
        if k == 'switch': return self.switch(st, ctx, t)
        if k == 'assert':
            c = self.operand(st, ctx, t['o'])
            cond(c)
            if not t['e']: c = not_(c)
            self.effect('panic', None, None, None, st, pc=and_(st.pc, not_(c)), extra=t.get('m'))
            st.pc = and_(st.pc, c)
            return [(t['t'], st)]
        if k == 'call':
            # elements a filtering iterator passes over start another round of the loop this block heads
            again = [] if b in fn.loops and all(s['k'] != 'a' or not s['p']['p'] for s in bl['st']) else None
            self.nextmiss = again
            v = self.call(fn, ctx, b, t, st)
            self.nextmiss = None
            again = [(b, s2) for s2 in again or ()]
            if v is None or t.get('t') is None or st.pc is FALSE: return again
            if not t['d']['p'] and fn.locals[t['d']['l']] in INT_TY and v.op in OPAQUE_LEAF: INT.add(v.id)
            self.write_place(st, ctx, t['d'], v)
            return [(t['t'], st)] + again
        return []

    def switch(self, st, ctx, t):
        v = self.operand(st, ctx, t['o'])
        v = self.val(st, v)
        out = []
        rest = st.pc
        conds = []
        for x, tgt in t['vs']:
            x = int(x)
            if v.op == 'discr':
                var = self.variant_of(v.a[1], x)
                c = isvar(v.a[0], var) if var is not None else mk('bopq', 'discr', v.a[0], x)
            elif v.op == 'num': c = boolean(nval(v) == x)
            elif t.get('ty') == 'bool':
                c = cond(v)
                if x == 0: c = not_(c)
            else: c = eq(v, num(x))
            conds.append((c, tgt))
        out = []
        for c, tgt in conds:
            c = restrict(c, st.pc)
            pc = and_(rest, c)
            if pc is not FALSE:
                s = st.copy(); s.pc = pc
                out.append((tgt, s))
            rest = and_(rest, not_(c))
            if rest is FALSE: break
        if rest is not FALSE and t.get('other') is not None:
            # an exhausted enum leaves `other` unreachable
            if not (v.op == 'discr' and self.exhausted(v.a[1], [int(x) for x, _ in t['vs']])):
                s = st.copy(); s.pc = rest
                out.append((t['other'], s))
        return out

    def variant_of(self, ty, d):
        if ty.startswith('core::option::Option'): return ('None', 'Some')[d]
        if ty.startswith('core::result::Result'): return ('Ok', 'Err')[d]
        if ty.startswith('core::ops::control_flow::ControlFlow'): return ('Continue', 'Break')[d]
        if ty.startswith('core::cmp::Ordering'): return {0: 'Equal', 1: 'Greater'}.get(d, 'Less')
        a = self.adts.get(re.sub(r'<.*$', '', ty))
        if a:
            for v in a['variants']:
                if int(v['discr']) == d: return v['name']
        return None

    def exhausted(self, ty, ds):
        if ty.startswith(('core::option::Option', 'core::result::Result', 'core::ops::control_flow::ControlFlow')): return len(set(ds)) == 2
        if ty.startswith('core::cmp::Ordering'): return len(set(ds)) == 3
        a = self.adts.get(re.sub(r'<.*$', '', ty))
        return bool(a) and all(int(v['discr']) in ds for v in a['variants'])

    # ------------------------------------------------------------------ effects
    def effect(self, kind, ns, key, val, st, pc=None, extra=None, prev=None):
        e = Effect(kind=kind, ns=ns, key=key, val=val, pc=st.pc if pc is None else pc, span=self.span,
                   fn=self.fn.id if getattr(self, 'fn', None) else None, chain=tuple(self.ctxstack),
                   loops=tuple(self.loopstack), seq=len(self.effects), extra=extra, prev=prev)
        if e.pc is FALSE: return
        self.effects.append(e)

    # ------------------------------------------------------------------ calls
    def call(self, fn, ctx, b, t, st):
        f = t['f']
        args = [self.operand(st, ctx, a) for a in t['a']]
        self.curfn = fn
        if f['k'] != 'const' or 'fn' not in f['c']:
            g = self.operand(st, ctx, f)
            return self.apply(g, args, st, ctx, b)
        return self.invoke(f['c']['fn'], args, t, st, ctx, fn.id, b)

    def invoke(self, c, args, t, st, ctx, caller, b):
        """call of a statically known function; t carries the argument/return types when known"""
        self.stats['calls'] += 1
        self.fn = self._cfg.get((caller, None)) or self.fn if caller else self.fn
        c, t = self.mono(c, caller, t)
        fid = c.get('id') if c.get('local') else None
        if c['path'].startswith(('core::ops::function::Fn::', 'core::ops::function::FnMut::', 'core::ops::function::FnOnce::')):
            tp = self.val(st, args[1])
            return self.apply(args[0], list(tp.a[3]) if tp.op == 'agg' else [], st, ctx, b)
        if fid is None and c.get('trait'):
            # trait call left unresolved in generic code: try the dynamic value / local impls
            fid = models.resolve_trait(self, c, args, st)
        if fid is not None and fid in self.fns and self.fns[fid].get('body'):
            f = self.fns[fid]
            if f.get('implauto') and models.is_derived(self, f, fid):
                r = models.derived(self, f, fid, args, st, t)
                if r is not NotImplemented: return r
            if f['path'] in self.opaque or fid in self.recursive and self.fidstack.count(fid) > self.unfold:
                return self.opaque_local(fid, args, st, t)
            return self.call_local(fid, args, st, ctx, b, c)
        return models.external(self, c, args, t, st, ctx, b)

    def mono(self, c, caller, t=None):
        """a call with the type parameters of the calling function filled in"""
        env = self.generic.get(caller.split('::{closure#')[0]) if caller else None
        if not env: return c, t
        k = (id(c), id(t), env)
        r = self.monos.get(k)
        if r is None:
            m = dict(env); rx = re.compile(r'\b(?:%s)\b' % '|'.join(map(re.escape, m)))
            f = lambda x: rx.sub(lambda g: m[g.group()], x)
            x = dict(c, args=[f(x) for x in c['args']])
            if c.get('rargs'): x['rargs'] = [f(y) for y in c['rargs']]
            if c.get('self'): x['self'] = f(c['self'])
            u = t and dict(t, at=[f(y) for y in t.get('at') or ()], rt=f(t.get('rt') or ''))
            r = self.monos[k] = (x, u, c, t)
        return r[:2]

    def call_local(self, fid, args, st, ctx, b, c=None):
        g = self.fns[fid].get('generics')
        if g and c and c.get('id') == fid and c.get('rargs'):
            self.generic[fid] = tuple((p, x) for p, x in zip(g, c['rargs']) if p != x)
        cx = self.ctx(ctx, fid, b, self.ukey())
        return self.run(self.cfg(fid), cx, args, st)

    def apply(self, g, args, st, ctx, b):
        """call of a function value (closure, fn item)"""
        by = self.nrm(st, g)
        g = self.val(st, g)
        if g.op == 'ite': return models.fork(self, st, g.a[0], lambda s: self.apply(g.a[1], args, s, ctx, (b, 'T')), lambda s: self.apply(g.a[2], args, s, ctx, (b, 'F')))
        if g.op == 'agg' and g.a[0] == 'closure':
            fid = g.a[1]
            if fid not in self.fns: raise AnalysisError('closure ' + fid)
            fn = self.cfg(fid)
            # closure body: _1 = self (by value or reference), remaining parameters as declared
            n = fn.body['args'] - 1
            slf = g
            if fn.locals[1].startswith('&'):
                if by.op == 'ref': return self.run(fn, self.ctx(ctx, fid, b, self.ukey()), [by] + list(args), st)
                slf = self.alloc(st, g, 'clo')
            cx = self.ctx(ctx, fid, b, self.ukey())
            r = self.run(fn, cx, [slf] + list(args), st)
            if slf is not g and st.pc is not FALSE and st.store.get(slf.a[0], g) is not restrict(g, st.pc) and st.store.get(slf.a[0], g) is not g:
                raise AnalysisError('a closure changes what it captured by value: ' + fid)
            return r
        if g.op == 'fn':
            c = g.a[0].v
            return self.invoke(c, list(args), None, st, ctx, None, b)
        if g.op == 'ctor': return agg(g.a[0], g.a[1], ['0'], list(args))
        return self.unknown_call('apply', args, st)

    def opaque_local(self, fid, args, st, t):
        f = self.fns[fid]
        vals = [self.deep(st, a) for a in args]
        if f['path'] in self.summaries: return self.summaries[f['path']](self, fid, vals, st)
        nss = sorted(n for n in self.namespaces_of(fid))
        fn = self.cfg(fid)
        mut = any('&mut' in ty and 'dyn cosmwasm_std::traits::Storage' in ty or 'DepsMut' in ty for ty in fn.locals[1:fn.body['args'] + 1])
        reads = tuple(st.cont.get(n) or s_init(n) for n in nss)
        vals = [v for v in vals if not (v.op == 'in' and v.a[0] == 'storage')]
        r = mk('call', f['path'], tuple(vals), reads if reads else ())
        self.effect('call', f['path'], tup(*vals) if vals else UNIT, r, st, extra=fid)
        if mut:
            for n in nss:
                st.cont[n] = mk('H', st.cont.get(n) or s_init(n), r)
        for i in range(fn.body['args']):
            if fn.locals[i + 1].startswith('&mut') and 'dyn ' not in fn.locals[i + 1]:
                a = self.nrm(st, args[i])
                self.assign(st, a, mk('out', r, i))
        return r

    def changes(self, closure):
        """whether a closure captures anything it could change"""
        if self.capturing is None:
            self.capturing = set()
            for f in self.fns.values():
                b = f.get('body')
                for bl in b['blocks'] if b else ():
                    for s in bl['st'] if bl else ():
                        r = s.get('r') or {}
                        if r.get('k') == 'agg' and r.get('ak') == 'closure' and any('p' in o and re.search(r'&mut|Mut\b|Cell<|closure', b['locals'][o['p']['l']]) for o in r['ops']): self.capturing.add(r['id'])
        return closure in self.capturing or closure not in self.fns

    def unknown_call(self, name, args, st, t=None):
        vals = tuple(self.deep(st, a) for a in args)
        # a library function that is given neither the state nor code that can change anything, and hands out no
        # mutable reference, only computes: its result is an unknown function of its arguments, and it may abort
        if PURE_LIB.match(name) and t and '&mut' not in t.get('rt', '&mut') and 'Mut<' not in t['rt'] and not any('&mut dyn' in a or 'Storage' in a or 'Deps' in a or 'Querier' in a for a in t.get('at', ['&mut dyn'])) \
                and not any(x.op == 'agg' and x.a[0] == 'closure' and self.changes(x.a[1]) or x.op == 'in' and x.a[0] in ('storage', 'querier') for v in vals for x in subterms(v)):
            self.effect('panic', None, None, None, st, extra='call of ' + name.split('|')[0])
        else: self.unknown[name] = self.unknown.get(name, 0) + 1
        r = mk('call', name, vals, ())
        at = t.get('at') if t else None
        for i, a in enumerate(args):
            if at and at[i].startswith('&mut') and 'dyn ' not in at[i]:
                self.assign(st, self.nrm(st, a), mk('out', r, i))
        return r

PURE_LIB = re.compile(r'^(core::(option|result|str|slice|num|cmp|array|iter|convert|char|tuple|default|clone|ops::(range|arith|bit|index)|any|hint|mem::(size_of|align_of)|marker|time)|alloc::(vec|string|str|slice|borrow|collections|fmt)|std::collections|cosmwasm_std::(math|coin|addresses|coins|errors|timestamp|binary|traits::Api)|cw_utils|hex|base64)::')

class JSON:
    _t = {}
    def __new__(cls, v):
        k = v.get('path', '') + '|' + v.get('rpath', '') + '|' + ','.join(v.get('args', [])) + '|' + str(v.get('id'))
        o = cls._t.get(k)
        if o is None:
            o = object.__new__(cls); o.v = v; o.k = k; cls._t[k] = o
        return o
    def __repr__(self): return self.v.get('rpath') or self.v.get('path')

def strip_ty(t):
    return t.lstrip('&').replace('mut ', '') if t else ''

def has_ref(t):
    if t.op == 'ref': return True
    if t.op == 'ite': return has_ref(t.a[1]) or has_ref(t.a[2])
    return False

def is_bool(t):
    if t.op == 'bool' or t.op in ATOMOPS: return True
    if t.op == 'ite': return is_bool(t.a[1]) and is_bool(t.a[2])
    return t.id in ATOMS

def all_int(i, n, t):
    INT.add(t.id)
    if isint(n): return True
    INT.discard(t.id)
    return False

def a_or_b(a, b):
    return sorted(set(a) | set(b))

def refs_in(t, store):
    out = set(); w = [t]; seen = set()
    while w:
        x = w.pop()
        for y in subterms(x):
            if y.op == 'ref' and y.a[0] not in seen:
                seen.add(y.a[0]); out.add(y.a[0])
                if y.a[0] in store: w.append(store[y.a[0]])
    return out
