"""Check runner: dump the current tree, analyse, decide one property, write evidence."""
import sys, os, json, time, resource, threading, traceback, ctypes
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

MODULES = ['rules_place', 'rules_order', 'rules_swap', 'rules_account', 'rules_auth', 'rules_fail', 'rules_interface', 'rules_tree', 'rules_math', 'rules_prefix', 'rules_book', 'rules_reason', 'rules_cost']

LIMIT = int(os.environ.get('OB_LIMIT', '600'))       # seconds after which a tree that cannot be decided counts as a violation
MEMORY = 12 << 30                                    # bytes of address space for the analysis
class TimeLimit(Exception): pass

def known(pid):
    """{violation key} listed as known findings of the property"""
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip('\n')
            if l.startswith('finding: property=%s key=' % pid):
                k = l.split(' key=', 1)[1].split(' :: ')
                out[k[0].strip()] = k[1].strip() if len(k) > 1 else ''
    return out

def decide(pid, dump_file=None):
    import dump, session, importlib, catalog
    from lib import Ctx
    from engine import AnalysisError
    t0 = time.time()
    info = next((x for x in catalog.P if x['id'] == pid), None)
    C = Ctx(pid)
    A = None; d = None; own = 0
    try:
        d = json.load(open(dump_file)) if dump_file else dump.dump()
        resource.setrlimit(resource.RLIMIT_AS, (MEMORY, resource.getrlimit(resource.RLIMIT_AS)[1]))
        for m in MODULES:
            if os.path.exists(os.path.join(HERE, m + '.py')): importlib.import_module(m)
        A = session.Session(d)
        for q in [pid] + catalog.closure(pid):
            for f in session.REG[q]: f(A, C)
            if q == pid: own = len(C.obl)
    except dump.DumpError as e:
        C.bad('the crate builds', 'build', str(e)[-1500:])
    except TimeLimit:
        C.bad('the code can be analysed', 'the analysis did not finish within %d s' % LIMIT, traceback.format_exc()[-1500:])
    except AnalysisError as e:
        C.bad('the code can be analysed', str(e)[:200], str(e))
    except Exception as e:
        C.bad('the code can be analysed', '%s: %s' % (type(e).__name__, str(e)[:150]), traceback.format_exc()[-1500:])
    if info and not C.viol and own < info['floor']:
        C.bad('coverage floor', 'obligations', 'only %d obligations generated, at least %d expected' % (own, info['floor']))
    return C, A, d, info, time.time() - t0

def evidence(C, A, d, info, wall, tier, seed):
    rules = {}
    for r, w in C.obl: rules.setdefault(r, []).append(w)
    badk = {(v['rule'], v['construct']) for v in C.viol}
    ev = {'property': C.pid, 'tier': tier, 'seed': seed, 'level': 'other', 'wall_s': round(wall, 2), 'violations': len(C.viol),
          'coverage': {
            'explanation': 'Static analysis of the MIR of the current tree; nothing is executed. ' + (info['rules'] if info else '') + ' Each obligation is one rule instance at one analysed entry-point variant.',
            'obligations': len(C.obl), 'discharged': sum(1 for o in C.obl if o not in badk),
            'distinct_obligations': len(set(C.obl)),
            'rules': {r: len(ws) for r, ws in rules.items()},
            'samples': ['%s @ %s' % (r, ws[0]) for r, ws in list(rules.items())[:12]],
            'entries_analysed': sorted(set(C.entries)),
            'functions_with_effects': sorted({str(f) for f in C.fns})[:80],
            'crate_functions_dumped': len(d['fns']) if d else 0,
            'functions_analysed': len(A.E.stats['functions'] | A.ES.stats['functions']) if A else 0,
            'basic_blocks_interpreted': (A.E.stats['blocks'] + A.ES.stats['blocks']) if A else 0,
            'loops_summarised': (A.E.stats['loops'] + A.ES.stats['loops']) if A else 0,
            'notes': C.notes[:20]}}
    import catalog
    ev['assumptions'] = catalog.TRUST + (info['assume'] if info else [])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', C.pid + '.json'), 'w') as f: json.dump(ev, f, indent=1, ensure_ascii=False)

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    dumpf = None
    for a in sys.argv[2:]:
        if a.startswith('--dump='): dumpf = a[7:]
    C, A, d, info, wall = decide(pid, dumpf)
    evidence(C, A, d, info, wall, tier, seed)
    kn = known(pid)
    new = []
    for v in C.viol:
        if v['key'] in kn: print('KNOWN-FINDING: property=%s %s' % (pid, kn[v['key']] or v['key']))
        else: new.append(v)
    print('%s: %d obligations over %d entry variants, %d violations, %.1f s' % (pid, len(C.obl), len(set(C.entries)), len(new), wall))
    if new:
        rp = os.path.join(VERIF, 'evidence', pid + '.violation.txt')
        with open(rp, 'w') as f:
            for v in new:
                f.write('rule: %s\nconstruct: %s\nat: %s\n%s\n\n' % (v['rule'], v['construct'], v['span'], v['detail']))
        for v in new:
            print('  %s | %s | %s | %s' % (v['rule'], v['construct'], v['span'], v['detail'][:600]))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    return 0

def start():
    rc = [3]
    def go():
        try: rc[0] = main()
        except BaseException:
            traceback.print_exc(); rc[0] = 3
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=go); t.start(); t.join(LIMIT)
    if t.is_alive():
        ctypes.pythonapi.PyThreadState_SetAsyncExc(ctypes.c_ulong(t.ident), ctypes.py_object(TimeLimit))
        t.join()
    sys.stdout.flush()
    os._exit(rc[0])

if __name__ == '__main__': start()
