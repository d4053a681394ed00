"""Build the MIR dumper and run it over /repo's current working tree."""
import os, subprocess, sys, glob, shutil, json, fcntl, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OB_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
PKG = 'sumtree-orderbook'

class DumpError(Exception): pass

def sh(cmd, env, cwd):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout

def base_env():
    env = dict(os.environ)
    for k in ('RUSTC_WRAPPER', 'RUSTC', 'RUSTFLAGS', 'CARGO_ENCODED_RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_BUILD_TARGET', 'DOCS_RS'): env.pop(k, None)
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    root = subprocess.run(['rustc', '+nightly', '--print', 'sysroot'], stdout=subprocess.PIPE, text=True, env=env).stdout.strip()
    if not root: raise DumpError('no nightly toolchain')
    env['LD_LIBRARY_PATH'] = root + '/lib'
    return env

def driver(env):
    e = dict(env, CARGO_TARGET_DIR=os.path.join(CACHE, 'driver'))
    rc, out = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], e, os.path.join(VERIF, 'driver'))
    b = os.path.join(CACHE, 'driver', 'debug', 'obdump')
    if rc or not os.path.exists(b): raise DumpError('driver build failed:\n' + out[-2000:])
    return b

def pruned_osmosis_std():
    """scratch copy of osmosis-std reduced to the modules the contract imports (compile time only).

    The dependency is never analysed; if the contract needs more of it the full crate is used."""
    src = sorted(glob.glob(os.path.expanduser('~/.cargo/registry/src/*/osmosis-std-0.25.0')))
    if not src: return None
    d = os.path.join(CACHE, 'osmosis-std')
    if not os.path.exists(os.path.join(d, 'done')):
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(src[0], d)
        t = os.path.join(d, 'src', 'types')
        open(os.path.join(t, 'mod.rs'), 'w').write('pub mod cosmos;\n')
        open(os.path.join(t, 'cosmos', 'mod.rs'), 'w').write('pub mod bank;\npub mod base;\n')
        open(os.path.join(t, 'cosmos', 'base', 'mod.rs'), 'w').write('pub mod query;\npub mod v1beta1;\n')
        p = os.path.join(d, 'src', 'shim.rs')
        out = []; first = True
        for l in open(p):
            if l.startswith('    crate::types::'):
                if first: out.append('    crate::types::cosmos::bank::v1beta1::MsgSend,\n'); first = False
                continue
            out.append(l)
        open(p, 'w').write(''.join(out))
        open(os.path.join(d, 'done'), 'w').write('')
    return d

# the shipped profile: no debug assertions, overflow checked
PROFILE = dict(CARGO_PROFILE_DEV_DEBUG='0', CARGO_PROFILE_DEV_BUILD_OVERRIDE_DEBUG='0', CARGO_PROFILE_DEV_DEBUG_ASSERTIONS='false',
               CARGO_PROFILE_DEV_OVERFLOW_CHECKS='true', RUSTFLAGS='-Zthreads=8')

def dump(verbose=False):
    """MIR of the contract crate as built from the current tree"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = base_env()
        drv = driver(env)
        out = os.path.join(CACHE, 'dump-%d.json' % os.getpid())
        log = ''
        for paths in (pruned_osmosis_std(), None):
            tgt = os.path.join(CACHE, 'target' if paths else 'target-full')
            if os.path.exists(out): os.unlink(out)
            for p in ('build/' + PKG, 'incremental'): shutil.rmtree(os.path.join(tgt, 'debug', p), ignore_errors=True)
            for p in glob.glob(os.path.join(tgt, 'debug', '.fingerprint', PKG + '-*')): shutil.rmtree(p, ignore_errors=True)
            e = dict(env, RUSTC_WORKSPACE_WRAPPER=drv, OBDUMP_OUT=out, CARGO_TARGET_DIR=tgt, CARGO_INCREMENTAL='0', **PROFILE)
            cmd = ['cargo', '+nightly']
            if paths: cmd += ['--config', 'paths=[%s]' % json.dumps(paths)]
            cmd += ['check', '--lib', '--offline', '--locked', '-p', PKG]
            rc, log = sh(cmd, e, REPO)
            if rc == 0 and os.path.exists(out):
                d = json.load(open(out))
                os.unlink(out)
                return d
            # a second attempt only makes sense when the reduced dependency was the problem
            if paths and 'could not compile `%s`' % PKG in log and 'osmosis_std' not in log: break
    raise DumpError('the crate does not build:\n' + log[-3000:])

def expand(extra=()):
    """source of the contract crate after macro expansion and conditional compilation (not type-checked), release assertions"""
    with open(os.path.join(CACHE, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = base_env()
        log = ''
        for paths in (pruned_osmosis_std(), None):
            e = dict(env, CARGO_TARGET_DIR=os.path.join(CACHE, 'target' if paths else 'target-full'), CARGO_INCREMENTAL='0', **PROFILE)
            cmd = ['cargo', '+nightly']
            if paths: cmd += ['--config', 'paths=[%s]' % json.dumps(paths)]
            cmd += ['rustc', '--profile', 'check', '--lib', '--offline', '--locked', '-p', PKG, '--', '-Zunpretty=expanded', *extra]
            p = subprocess.run(cmd, env=e, cwd=REPO, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
            if 'fn ' in p.stdout: return p.stdout
            log = p.stderr
    raise DumpError('the crate does not expand:\n' + log[-3000:])

if __name__ == '__main__':
    t = time.time()
    d = dump()
    print(len(d['fns']), 'functions', round(time.time() - t, 1), 's')
    if len(sys.argv) > 1: json.dump(d, open(sys.argv[1], 'w'))
