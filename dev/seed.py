"""Development aid: build /verif/seeded/<id>/ from a spec and confirm it in a scratch copy.

seed.py FILE [name-filter] : FILE defines S = {id: dict(prop=, needs=, breaks=, edits=[(file, old, new)...], demo=rust)}"""
import sys, os, json, subprocess, shutil, re
sys.path.insert(0, '/verif/dev')
COPY = os.environ.get('MUTCOPY', '/tmp/mutcopy'); SRC = 'contracts/sumtree-orderbook/src/'
ENV = dict(os.environ, HOME='/root', RUSTUP_TOOLCHAIN='stable', RUSTC_WRAPPER='', CARGO_NET_OFFLINE='true', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only', CARGO_TERM_COLOR='never', DOCS_RS='1')
def sh(c, **k): return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def main():
    ns = {}; exec(open(sys.argv[1]).read(), ns)
    filt = sys.argv[2] if len(sys.argv) > 2 else ''
    if not os.path.exists(COPY): subprocess.run(['cp', '-a', '/repo', COPY], check=True)
    sh('git -C %s fetch -q /repo HEAD && git -C %s reset -q --hard FETCH_HEAD' % (COPY, COPY))
    base = set(json.load(open('/opt/vp/BASELINE.json')).get('stable', [])) if False else None
    for sid, s in ns['S'].items():
        if filt and filt not in sid: continue
        sh('git -C %s checkout -q -- .' % COPY)
        d = '/verif/seeded/' + sid
        os.makedirs(d, exist_ok=True)
        for f in ('kit.rs', 'demo.sh'): shutil.copy('/verif/dev/seedkit/' + f, d)
        os.chmod(d + '/demo.sh', 0o755)
        if 'script' in s:
            os.unlink(d + '/kit.rs'); open(d + '/demo.sh', 'w').write(s['script'])
        else: open(d + '/demo.rs', 'w').write('use super::kit::*;\n' + ns.get('PRE', '') + s['demo'])
        bad = None
        for f, o, n in s['edits']:
            p = os.path.join(COPY, SRC + f); t = open(p).read()
            if t.count(o) != 1: bad = 'pattern occurs %d times in %s' % (t.count(o), f); break
            open(p, 'w').write(t.replace(o, n, 1))
        if bad: print(sid, bad); shutil.rmtree(d); continue
        open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % COPY).stdout)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        r = sh('cargo test --workspace --features sumtree-orderbook/skip-integration-tests --lib --offline --locked -- --test-threads 8', cwd=COPY, env=ENV)
        m = re.search(r'test result: (\w+)\. (\d+) passed; (\d+) failed', r.stdout)
        tests = m.group(0) if m else r.stdout[-700:]
        demo_bad = sh('bash %s/demo.sh' % d, cwd=COPY)
        sh('git -C %s checkout -q -- .' % COPY)
        demo_good = sh('bash %s/demo.sh' % d, cwd=COPY)
        ok = m and m.group(1) == 'ok' and demo_bad.returncode and not demo_good.returncode and ('script' in s or 'test result: FAILED' in demo_bad.stdout)
        print('%-28s %s' % (sid, 'OK' if ok else 'REJECTED'), tests, '| demo patched rc', demo_bad.returncode, '| clean rc', demo_good.returncode)
        if not ok:
            if m and m.group(1) != 'ok': print('   failing:', re.findall(r'^test (.*) \.\.\. FAILED', r.stdout, re.M)[:8])
            if demo_good.returncode: print('\n'.join(demo_good.stdout.splitlines()[-25:])[:1800])
            if not demo_bad.returncode or 'test result: FAILED' not in demo_bad.stdout: print('\n'.join(demo_bad.stdout.splitlines()[-12:])[:900])
            shutil.rmtree(d)
        sys.stdout.flush()
main()
