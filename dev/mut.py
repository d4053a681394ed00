"""Development aid: apply small source edits to a scratch copy of /repo and list which properties report.

mut.py FILE [name-filter]; FILE defines M = [(name, expected ids or '' for behaviour-preserving, file, old, new), ...]
An edit may be a list of (file, old, new) triples instead of the last three fields."""
import sys, os, json, subprocess, shutil, time, threading
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + '/sa')
COPY = os.environ.get('MUTCOPY', '/tmp/mutcopy')
SRC = 'contracts/sumtree-orderbook/src/'
def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    filt = sys.argv[2] if len(sys.argv) > 2 else ''
    if not os.path.exists(COPY): subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    subprocess.run(['git', '-C', COPY, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', COPY, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)
    import catalog
    for m in ns['M']:
        name, exp = m[0], m[1]
        if filt and not filt.startswith('%') and filt not in name: continue
        if filt.startswith('%') and ns['M'].index(m) % int(filt[1:].split('/')[1]) != int(filt[1:].split('/')[0]): continue
        edits = m[2] if isinstance(m[2], list) else [m[2:5]]
        subprocess.run(['git', '-C', COPY, 'checkout', '-q', '--', '.'], check=True)
        bad = None
        for f, o, n in edits:
            p = os.path.join(COPY, SRC + f); s = open(p).read()
            if s.count(o) < 1: bad = 'pattern not found in ' + f; break
            open(p, 'w').write(s.replace(o, n, 1))
        if bad: print('%-40s %s' % (name, bad)); continue
        t = time.time()
        r = subprocess.run([sys.executable, ROOT + '/dev/all.py'], env=dict(os.environ, OB_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        out = r.stdout.strip().splitlines()
        viol = [l for l in out if l.startswith('V ')]
        ids = sorted({l.split()[1] for l in viol})
        if not out or not out[-1].startswith('done'): verdict = 'CRASH ' + '\n'.join(out[-5:])
        elif exp == '': verdict = 'quiet' if not ids else 'FALSE ALARM'
        else: verdict = 'caught' if set(exp.split(',')) & set(ids) else ('CAUGHT BY OTHERS' if ids else 'MISSED')
        print('%-40s %-8s want %-8s got %s  (%.1f s)' % (name, verdict, exp, ','.join(ids), time.time() - t))
        if verdict == 'MISSED' and len(m) > 5: print('      ' + m[5])
        if verdict in ('FALSE ALARM',) or '-v' in sys.argv:
            for l in viol[:8]: print('      ' + l[:700])
        sys.stdout.flush()
main()
