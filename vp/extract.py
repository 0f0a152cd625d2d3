"""Build the exporter if needed, run it over the witness crate against /repo's current tree, load the MIR."""
import hashlib, json, os, re, shutil, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(ROOT, 'build')


class ExtractError(Exception):
    pass


def _env():
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS', 'RUSTDOC', 'RUSTUP_TOOLCHAIN'))}
    for k in ('CARGO_HOME',):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], env=_env(), text=True).strip()


def driver():
    """Path of the exporter; built on demand (2 s)."""
    src = os.path.join(ROOT, 'driver')
    h = hashlib.sha256()
    for f in ('Cargo.toml', 'src/main.rs', 'src/json.rs'):
        h.update(open(os.path.join(src, f), 'rb').read())
    tdir = os.path.join(BUILD, 'driver-' + h.hexdigest()[:16])
    exe = os.path.join(tdir, 'debug', 'mirdump')
    if not os.path.exists(exe):
        e = _env()
        e['CARGO_TARGET_DIR'] = tdir
        r = subprocess.run(['cargo', '+nightly', 'build', '--offline', '-q'], cwd=src, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode != 0:
            raise ExtractError('cannot build the exporter:\n' + r.stdout[-3000:])
    return exe


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(ROOT, 'witness', 'src'), os.path.join(ROOT, 'driver', 'src')):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b'\0' + open(p, 'rb').read() + b'\0')
    for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(ROOT, 'witness', 'Cargo.toml')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()


def drop_ops(wdir, log):
    """Blank the one-line functions the compiler complains about: {name: error}."""
    gone = {}
    err = ''
    for line in log.splitlines():
        if line.startswith('error'):
            err = line
        m = re.match(r'\s*--> src/(ring|interval|counter|dset)\.rs:(\d+):', line)
        if m and err:
            p = os.path.join(wdir, 'src', m.group(1) + '.rs')
            ls = open(p).read().split('\n')
            k = int(m.group(2)) - 1
            f = re.match(r'pub fn (\w+)', ls[k])
            if f:
                gone[m.group(1) + '::' + f.group(1)] = err[:200]
                ls[k] = ''
                open(p, 'w').write('\n'.join(ls))
            err = ''
    return gone


FLAGS = {'debug': '-Coverflow-checks=on -Cdebug-assertions=on', 'release': '-Coverflow-checks=off -Cdebug-assertions=off'}


def extract(cache=True, build='debug'):
    """Returns the exported program (dict) of the current /repo tree, as compiled by a debug or a release build."""
    os.makedirs(BUILD, exist_ok=True)
    key = tree_hash() + ('' if build == 'debug' else '-' + build)
    cdir = os.path.join(BUILD, 'mir')
    os.makedirs(cdir, exist_ok=True)
    out = os.path.join(cdir, key + '.json')
    if cache and os.path.exists(out):
        try:
            return json.load(open(out))
        except (OSError, ValueError):       # tidied up, or still being written, by another check
            pass
    exe = driver()
    sr = sysroot()
    tdir = tempfile.mkdtemp(prefix='target-', dir=BUILD)
    tmp = os.path.join(tdir, 'mir.json')
    try:
        e = _env()
        e.update(CARGO_TARGET_DIR=tdir, RUSTC_WORKSPACE_WRAPPER=exe, VP_OUT=tmp, VP_RUSTC=os.path.join(sr, 'bin', 'rustc'),
                 LD_LIBRARY_PATH=os.path.join(sr, 'lib'),
                 RUSTFLAGS='-Zalways-encode-mir -Zmir-opt-level=0 %s --cap-lints allow' % FLAGS[build])
        wdir = os.path.join(tdir, 'witness')
        shutil.copytree(os.path.join(ROOT, 'witness'), wdir, ignore=shutil.ignore_patterns('target'))
        gone = {}
        for attempt in range(6):
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '-q'], cwd=wdir, env=e,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                break
            # operations this tree does not offer in the expected form are left out
            new = drop_ops(wdir, r.stdout)
            if not new:
                break
            gone.update(new)
        if r.returncode != 0 or not os.path.exists(tmp):
            raise ExtractError('the witness crate does not build against /repo:\n' + r.stdout[-6000:])
        if gone:
            j = json.load(open(tmp))
            j['not_offered'] = gone
            with open(tmp, 'w') as f:
                json.dump(j, f)
        os.replace(tmp, out)
    finally:
        shutil.rmtree(tdir, ignore_errors=True)
    # keep only a few old exports
    prog = json.load(open(out))
    old = []
    for f in os.listdir(cdir):
        try:        # another check may tidy up at the same time
            old.append((os.path.getmtime(os.path.join(cdir, f)), os.path.join(cdir, f)))
        except OSError:
            pass
    for _, f in sorted(old)[:-12]:
        try:
            os.remove(f)
        except OSError:
            pass
    return prog


if __name__ == '__main__':
    p = extract(cache='--nocache' not in sys.argv)
    print(len(p['fns']), 'functions', len(p['types']), 'types', len(p['entries']), 'entries')
