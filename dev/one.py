import os, sys, json, time, threading
sys.path.insert(0,'/verif/sa')
threading.stack_size(512*1024*1024)
def main():
    import session, importlib
    mods=[m for m in sys.argv[1].split(',')]
    for m in mods: importlib.import_module(m)
    A=session.Session(json.load(open(os.environ.get('DUMP','/tmp/dump.json'))))
    from lib import Ctx
    ids=sys.argv[2].split(',') if len(sys.argv)>2 and sys.argv[2] else sorted(session.REG)
    for p in ids:
        t=time.time(); C=Ctx(p)
        for f in session.REG[p]:
            try: f(A,C)
            except Exception as e:
                import traceback; traceback.print_exc(); C.bad('EXC','x',str(e))
        print(p, len(C.obl),'obl', len(C.viol),'viol', round(time.time()-t,2))
        for v in C.viol[:int(sys.argv[3]) if len(sys.argv)>3 else 6]: print('   ',v['rule'],'|',v['construct'],'|',v['detail'][:900],'|',v['span'])
th=threading.Thread(target=main); th.start(); th.join()
