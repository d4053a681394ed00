# all rules in one session, in random orders: decisions must not depend on the order terms are created in
import sys, json, time, threading, random
sys.path.insert(0,'/verif/sa')
threading.stack_size(512*1024*1024)
def main():
    import session, importlib, runner, os
    for m in runner.MODULES:
        if os.path.exists('/verif/sa/%s.py'%m): importlib.import_module(m)
    seed=int(sys.argv[1]); random.seed(seed)
    A=session.Session(json.load(open(sys.argv[2] if len(sys.argv)>2 else '/tmp/dump.json')))
    from lib import Ctx
    ids=sorted(session.REG); random.shuffle(ids)
    bad=0
    for p in ids:
        C=Ctx(p)
        for f in session.REG[p]:
            try: f(A,C)
            except Exception as e: C.bad('EXC','x',repr(e))
        if C.viol: bad+=1; print(seed,p,len(C.viol),C.viol[0]['rule'],'|',C.viol[0]['construct'],'|',C.viol[0]['detail'][:500])
    print('seed',seed,'bad',bad)
th=threading.Thread(target=main); th.start(); th.join()
