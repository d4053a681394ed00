"""Decide every property on the tree OB_REPO with one dump."""
import sys, os, json, threading
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))) + '/sa')
def go():
    import dump, session, importlib, runner, traceback
    from lib import Ctx
    from engine import AnalysisError
    try: d = json.load(open(sys.argv[1])) if len(sys.argv) > 1 else dump.dump()
    except dump.DumpError as e: print('V BUILD', str(e)[-1500:]); print('done'); return
    for m in runner.MODULES:
        if True: importlib.import_module(m)
    try: A = session.Session(d)
    except Exception as e: print('V SESSION', e); print('done'); return
    for pid in sorted(session.REG):
        C = Ctx(pid)
        try:
            for f in session.REG[pid]: f(A, C)
        except Exception as e:
            C.bad('analysable', '%s' % type(e).__name__, str(e)[:600] + traceback.format_exc()[-900:] * (not isinstance(e, AnalysisError)))
        for v in C.viol: print('V', pid, v['rule'], '|', v['construct'], '|', v['detail'].replace('\n', ' ; ')[:900])
    print('done')
threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go); t.start(); t.join()
