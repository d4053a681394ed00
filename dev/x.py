import os, sys, json, time, threading
sys.path.insert(0,'/verif/sa')
from session import *
threading.stack_size(512*1024*1024)
def main():
    A=Session(json.load(open(os.environ.get('DUMP','/tmp/dump.json'))))
    exec(open(sys.argv[1]).read(), dict(globals(),A=A))
th=threading.Thread(target=main); th.start(); th.join()
