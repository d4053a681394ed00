"""Development aid: several behaviour-preserving edits at once. combo.py SEED COUNT [SIZE]; every alarm is a false one."""
import sys, os, glob, random, subprocess, time
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = os.environ.get('MUTCOPY', '/tmp/mutcopy')
SRC = 'contracts/sumtree-orderbook/src/'
# alone these change behaviour or were only written to test the tools
SKIP = set()
def main():
    rnd = random.Random(int(sys.argv[1])); n = int(sys.argv[2]); size = int(sys.argv[3]) if len(sys.argv) > 3 else 6
    pool = {}
    for f in ('m6', 'm7', 'm9', 'm10', 'm11', 'm13', 'm14', 'm15', 'm16'):
        p = ROOT + '/dev/%s.py' % f
        if not os.path.exists(p): continue
        ns = {}; exec(open(p).read(), ns)
        for m in ns['M']:
            if m[1] == '' and m[0] not in SKIP: pool[m[0]] = m[2] if isinstance(m[2], list) else [m[2:5]]
    if not os.path.exists(COPY): subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    subprocess.run(['git', '-C', COPY, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', COPY, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
    names = sorted(pool)
    for k in range(n):
        subprocess.run(['git', '-C', COPY, 'checkout', '-q', '--', '.'], check=True)
        done = []
        order = names[:]; rnd.shuffle(order)
        src = {}
        def get(f):
            if f not in src: src[f] = open(os.path.join(COPY, SRC + f)).read()
            return src[f]
        for x in order:
            new = {}
            for f, o, w in pool[x]:
                s = new.get(f) or get(f)
                if s.count(o) < 1: break
                new[f] = s.replace(o, w, 1)
            else:
                src.update(new); done.append(x)
            if len(done) == size: break
        for f, s in src.items(): open(os.path.join(COPY, SRC + f), 'w').write(s)
        t = time.time()
        try: r = subprocess.run([sys.executable, ROOT + '/dev/all.py'], env=dict(os.environ, OB_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
        except subprocess.TimeoutExpired:
            print('TIMEOUT', ' '.join(done), flush=True); continue
        out = r.stdout.strip().splitlines()
        viol = [l for l in out if l.startswith('V ')]
        ids = sorted({l.split()[1] for l in viol})
        if 'BUILD' in ids or any('does not build' in l or 'error[E' in l for l in out): print('nobuild', ' '.join(done), flush=True); continue
        if not out or not out[-1].startswith('done'): print('CRASH', ' '.join(done), '\n'.join(out[-3:])[:600], flush=True); continue
        print('quiet' if not ids else 'FALSE ALARM', ' '.join(done), '(%.0f s)' % (time.time() - t), flush=True)
        for l in viol[:6]: print('      ' + l[:500], flush=True)
main()
