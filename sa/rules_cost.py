"""Cost: nothing but a swap walks over stored entries, recursion stays on one branch, no stored record grows."""
from session import *
from rules_order import claims, cancels
import re

WALK = {'range', 'keys', 'range_raw', 'keys_raw', 'prefix_range', 'prefix_range_raw', 'clear', 'values', 'range_de', 'keys_de', 'prefix_range_de',
        'range_keys', 'range_values'}
STORES = ('cw_storage_plus::', 'cosmwasm_std::traits::Storage', 'cosmwasm_std::storage')
GROWING = re.compile(r'\b(Vec|VecDeque|BTreeMap|BTreeSet|HashMap|HashSet|BinaryHeap|LinkedList|Binary)\b')

def items(x, out):
    """function items mentioned anywhere in a MIR fragment"""
    if isinstance(x, dict):
        if isinstance(x.get('fn'), dict): out.append(x['fn'])
        if x.get('k') == 'agg' and x.get('ak') == 'closure': out.append({'id': x['id'], 'local': True})
        for v in x.values(): items(v, out)
    elif isinstance(x, list):
        for v in x: items(v, out)
    return out

class Graph:
    """who may call whom, function values passed along included"""
    def __init__(self, E):
        self.E = E
        self.at = {}                        # function -> {block: [function items mentioned there]}
        for fid, f in E.fns.items():
            d = {}
            for b in [f.get('body')] + (f.get('promoted') or []):
                for i, bl in enumerate((b or {}).get('blocks', [])):
                    if bl is not None: d.setdefault(i if b is f.get('body') else -1, []).extend(items(bl, []))
            self.at[fid] = d
        self.succ = {f: {n['id'] for l in d.values() for n in l if n.get('local') and n.get('id') in E.fns} for f, d in self.at.items()}
    def reach(self, roots):
        seen, w = set(), [r for r in roots if r]
        while w:
            x = w.pop()
            if x in seen: continue
            seen.add(x); w += self.succ[x]
        return seen
    def component(self, f):
        """functions that call f and are called by f"""
        r = self.reach([f])
        return {g for g in r if f in self.reach(self.succ[g])}
    def walks(self, f):
        """(method, type of what is walked, block) of every walk over stored entries"""
        for b, l in self.at[f].items():
            for n in l:
                p = n.get('rpath') or n.get('path') or ''
                if p.rsplit('::', 1)[-1] in WALK and any(s in p for s in STORES): yield p.rsplit('::', 1)[-1], n, b

def graph(A): return A.get('callgraph', lambda: Graph(A.E))
def short(f): return f.split('::', 1)[-1]
def roots(A, *names): return [A.E.bypath.get(n) for n in names]

@prop('G02')
def walks(A, C):
    """only a swap walks over stored entries, and only over ticks"""
    G, rule = graph(A), 'only swaps walk over stored entries'
    for e in ('contract::execute', 'contract::reply', 'contract::instantiate'):
        if not C.check(bool(roots(A, e)[0]), rule, e, 'entry point not found'): continue
        for f in sorted(G.reach(roots(A, e))):
            C.ob(rule, '%s < %s' % (short(f), e))
            for m, n, b in G.walks(f): C.bad(rule, short(f), '%s reaches %s, which walks over stored entries (%s)' % (e, short(f), m), A.E.fns[f]['span'])
    rule = 'a swap walks over ticks only'
    e = 'sudo::sudo' if 'sudo::sudo' in A.E.bypath else 'contract::sudo'
    if not C.check(e in A.E.bypath, rule, e, 'entry point not found'): return
    for f in sorted(G.reach(roots(A, e))):
        C.ob(rule, short(f))
        for m, n, b in G.walks(f):
            a = n.get('args') or []
            if not any(str(x).endswith('TickState') for x in a): C.bad(rule, short(f), 'walks over %s (%s)' % (', '.join(map(str, a)) or 'raw storage', m), A.E.fns[f]['span'])
    for R in A.everything():
        C.use(R)
        w = [x for x in R.effects if x.kind == 'range']
        swap = 'Swap' in R.path
        C.check(len(w) <= (1 if swap else 0), 'a swap walks once, other messages never', R.name, lambda: 'walks %d times, over %s' % (len(w), ', '.join(sorted({str(x.ns) for x in w}))), w[0].span if w else '')

@prop('G02')
def one_branch(A, C):
    """recursion follows one branch: no function enters itself twice on a path, or within a loop"""
    G, rule = graph(A), 'recursion follows a single branch'
    seen = set()
    for f in sorted(G.reach(roots(A, 'contract::execute', 'contract::sudo', 'sudo::sudo', 'contract::reply'))):
        comp = G.component(f)
        C.ob(rule, short(f))
        if not comp: continue
        seen.add(f)
        fn = A.E.cfg(f)
        mine = [n for l in G.at[f].values() for n in l]
        called = {n['id'] for n in mine if n.get('id') in comp and n.get('path')}
        # a closure that is called here counts where it is called, one that is passed on where it is made
        again = {b: sum(1 for n in G.at[f].get(b, []) if n.get('id') in comp and (n.get('path') or n['id'] not in called)) for b in fn.rpo}
        for c in comp:
            if '{closure' in c and any('::iter::' in n['path'] and '{closure@%s:' % A.E.fns[c]['span'] in str(n.get('args')) for n in mine if n.get('path')):
                C.bad(rule, short(f), 'enters itself again for every element of an iteration', A.E.fns[f]['span'])
        for h, body in fn.loops.items():
            if any(again.get(b) for b in body): C.bad(rule, short(f), 'enters itself again inside a loop', A.E.fns[f]['span'])
        most = {}
        for b in reversed(fn.rpo):
            most[b] = again[b] + max([most.get(x, 0) for x in fn.succ[b]] or [0])
        if most.get(fn.rpo[0], 0) > 1: C.bad(rule, short(f), 'enters itself %d times on one path' % most[fn.rpo[0]], A.E.fns[f]['span'])
    C.notes.append('recursive: ' + ', '.join(sorted(short(f) for f in seen)))

@prop('G02')
def constant(A, C):
    """placing and swapping never enter a tree, and placing runs no loop over storage"""
    G = graph(A)
    deep = lambda fs: sorted(f for f in fs if G.component(f))
    rule = 'swaps take a constant time per tick'
    e = 'sudo::sudo' if 'sudo::sudo' in A.E.bypath else 'contract::sudo'
    fs = G.reach(roots(A, e))
    C.ob(rule, e)
    for f in deep(fs): C.bad(rule, short(f), 'a swap reaches the recursive %s' % short(f), A.E.fns[f]['span'])
    def driven(R, x):
        """every loop around the access works off a list of fixed length"""
        for l in x.loops or ():
            vs = R.loops.get(l, {}).get('vars', {})
            if not any(i is not None and i.op == 'iter' and i.a[0].op in ('vec', 'agg') for i, n in vs.values()): return False
        return True
    for R in claims(A) + cancels(A) + A.place_all():
        C.use(R)
        C.ob('placing, cancelling and claiming run no loop over stored entries', R.name)
        for x in R.effects:
            if x.loops and x.ns and not driven(R, x): C.bad('placing, cancelling and claiming run no loop over stored entries', R.name, 'accesses %s in a loop' % x.ns, x.span)
    rule = 'placing takes constant time'
    for R in A.place_all():
        C.use(R)
        C.ob(rule, R.name)
        for x in R.effects:
            f = x.extra if x.kind == 'call' and isinstance(x.extra, str) else None
            if f in A.E.fns and deep(G.reach([f])): C.bad(rule, R.name, 'reaches the recursive ' + ', '.join(short(g) for g in deep(G.reach([f]))), x.span)
            if x.ns in ('nodes', 'tree', 'node_id'): C.bad(rule, R.name, 'touches the cancellation tree (%s)' % x.ns, x.span)

POP, PUSH = {'pop', 'pop_front', 'pop_back', 'pop_first', 'pop_last', 'remove', 'swap_remove'}, {'push', 'push_back', 'push_front', 'extend', 'append', 'insert', 'push_all', 'extend_from_slice'}
@prop('G02')
def worklists(A, C):
    """no loop feeds the list it works off with more than one entry per step"""
    G, rule = graph(A), 'no loop feeds the list it works off'
    for f in sorted(G.reach(roots(A, 'contract::execute', 'contract::sudo', 'sudo::sudo', 'contract::reply'))):
        fn = A.E.cfg(f)
        for h, body in fn.loops.items():
            C.ob(rule, '%s loop' % short(f))
            std = lambda n: any(s in (n.get('rpath') or n.get('path') or '') for s in ('alloc::', 'std::collections'))
            name = lambda n: (n.get('rpath') or n.get('path') or '').rsplit('::', 1)[-1]
            ns = [n for b in body for n in G.at[f].get(b, []) if std(n)]
            if any(name(n) in POP for n in ns) and sum(1 for n in ns if name(n) in PUSH) > 1:
                C.bad(rule, short(f), 'takes entries off a list and puts several back', A.E.fns[f]['span'])

@prop('G02')
def records(A, C):
    """no stored record contains a list: reading one does not get dearer with the history"""
    rule = 'stored records have a fixed shape'
    E = A.E
    found = {}
    for fid, f in E.fns.items():
        for l in (f.get('body') or {}).get('locals', []):
            for m in re.finditer(r'cw_storage_plus::(?:item::Item|map::Map|indexed_map::IndexedMap|deque::Deque|snapshot::[\w:]+)<', str(l)): found.setdefault(str(l)[m.start():], fid)
    todo, seen = [(t, f, t) for t, f in sorted(found.items())], set()
    while todo:
        t, f, via = todo.pop()
        C.ob(rule, clip(t, 120))
        if GROWING.search(t.split('state::OrderIndexes')[0]): C.bad(rule, clip(t, 120), 'a list is stored under %s' % clip(via, 200), E.fns[f]['span'])
        if 'deque::' in t: C.bad(rule, clip(t, 120), 'a list is stored', E.fns[f]['span'])
        for name in re.findall(r'[A-Za-z_][\w:]*', t):
            a = E.adts.get(name)
            if a is None or name in seen or name.startswith(('alloc::string', 'cw_storage_plus')) or name.endswith('Indexes'): continue
            seen.add(name)
            for v in a['variants']:
                for x in v['fields']: todo.append((x['ty'], f, '%s::%s' % (name, x['name'])))
