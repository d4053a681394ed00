"""Development aid: which checks report each planted change? seedcheck.py [filter]"""
import sys, os, json, subprocess
sys.path.insert(0, '/verif/sa')
import catalog
COPY = '/tmp/mutcopy'
filt = sys.argv[1] if len(sys.argv) > 1 else ''
subprocess.run('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (COPY, COPY), shell=True, check=True)
for s in sorted(os.listdir('/verif/seeded')):
    if filt not in s: continue
    meta = json.load(open('/verif/seeded/%s/meta.json' % s))
    subprocess.run('git -C %s checkout -q -- . && git -C %s apply /verif/seeded/%s/patch.diff' % (COPY, COPY, s), shell=True, check=True)
    r = subprocess.run([sys.executable, '/verif/dev/all.py'], env=dict(os.environ, OB_REPO=COPY), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    out = r.stdout.strip().splitlines()
    ids = sorted({l.split()[1] for l in out if l.startswith('V ')})
    print('%-28s %-4s %-7s %s %s' % (s, meta['property'], 'caught' if set(ids) & set([meta['property']] + catalog.closure(meta['property'])) else 'MISSED', ','.join(ids), '' if out and out[-1].startswith('done') else 'CRASH ' + '\n'.join(out[-4:])))
    sys.stdout.flush()
subprocess.run('git -C %s checkout -q -- .' % COPY, shell=True)
