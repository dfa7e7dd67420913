"""Builds the MIR-dumping driver (when missing) and dumps facts for /repo's current working tree."""
import os, sys, hashlib, subprocess, shutil, time, fcntl, glob, contextlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
DRIVER = os.path.join(VERIF, 'driver')
BIN = os.path.join(DRIVER, 'target', 'debug', 'mirfacts')
ALL = ['doodle', 'smallsorts', 'doodle_gencode', 'doodle_formats']
PKG = {'doodle': 'doodle', 'smallsorts': 'smallsorts', 'doodle_gencode': 'doodle_gencode', 'doodle_formats': 'doodle-formats'}

def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def clean_env():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTUP_TOOLCHAIN')) and k not in ('CARGO_HOME',): env.pop(k)
    env['CARGO_NET_OFFLINE'] = 'true'
    return env

def tree_hash(repo):
    h = hashlib.sha256()
    files = []
    for root, dirs, fs in os.walk(repo):
        dirs[:] = sorted(d for d in dirs if d not in ('.git', 'target', 'node_modules'))
        for f in fs:
            if f.endswith(('.rs', '.toml', '.lock')): files.append(os.path.join(root, f))
    for f in sorted(files):
        h.update(os.path.relpath(f, repo).encode()); h.update(b'\0')
        try: h.update(open(f, 'rb').read())
        except OSError: pass
        h.update(b'\0')
    for f in sorted(glob.glob(DRIVER + '/src/*.rs')): h.update(open(f, 'rb').read())
    return h.hexdigest()[:24]

@contextlib.contextmanager
def locked():
    os.makedirs(WORK, exist_ok=True)
    with open(os.path.join(WORK, 'lock'), 'w') as f:
        fcntl.flock(f, fcntl.LOCK_EX)
        yield

def build_driver():
    src = max(os.path.getmtime(f) for f in glob.glob(DRIVER + '/src/*.rs'))
    if os.path.exists(BIN) and os.path.getmtime(BIN) >= src: return
    r = sh(['cargo', '+nightly', 'build', '--offline', '--quiet'], cwd=DRIVER, env=clean_env())
    if r.returncode: raise RuntimeError('driver build failed\n' + r.stdout[-4000:])

def get(crates, repo=None):
    """returns the directory holding <crate>-lib.jsonl for the wanted crates"""
    repo = repo or REPO
    with locked():
        build_driver()
        hs = tree_hash(repo)
        out = os.path.join(WORK, 'facts', hs)
        missing = [c for c in crates if not os.path.exists(os.path.join(out, c + '-lib.jsonl.ok'))]
        if missing:
            fdir = os.path.join(WORK, 'facts')
            if os.path.isdir(fdir):
                old = sorted((os.path.join(fdir, d) for d in os.listdir(fdir) if d != hs), key=os.path.getmtime)
                for d in old[:-3] if len(old) > 3 else []: shutil.rmtree(d, ignore_errors=True)
            os.makedirs(out, exist_ok=True)
            dump(missing, repo, out)
        return out

def dump(crates, repo, out):
    env = clean_env()
    sysroot = sh(['rustc', '+nightly', '--print', 'sysroot'], env=env, cwd='/').stdout.strip()
    target = os.path.join(WORK, 'target')
    for p in glob.glob(os.path.join(target, 'debug', '.fingerprint', '*')) + glob.glob(os.path.join(target, 'debug', 'build', '*')):
        b = os.path.basename(p)
        if b.startswith(('doodle', 'smallsorts')): shutil.rmtree(p, ignore_errors=True)
    env.update(LD_LIBRARY_PATH=sysroot + '/lib', MIRFACTS_CRATES=','.join(c + '-lib' for c in crates), MIRFACTS_OUT=out,
               RUSTC_WORKSPACE_WRAPPER=BIN, CARGO_TARGET_DIR=target)
    cmd = ['cargo', '+nightly', 'check', '--offline', '--lib']
    for c in crates: cmd += ['-p', PKG[c]]
    before = git_state(repo)
    r = sh(cmd, cwd=repo, env=env)
    if r.returncode: raise RuntimeError('cannot analyse %s: it does not compile\n%s' % (repo, r.stdout[-6000:]))
    if git_state(repo) != before: raise RuntimeError('analysis changed tracked files of ' + repo)
    for c in crates:
        p = os.path.join(out, c + '-lib.jsonl')
        if not os.path.exists(p): raise RuntimeError('no facts for crate ' + c)
        open(p + '.ok', 'w').close()

def git_state(repo):
    try: return sh(['git', '-C', repo, 'status', '--porcelain', '-uno']).stdout
    except OSError: return ''
