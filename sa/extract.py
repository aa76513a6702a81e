"""Extraction of facts from /repo's current sources.

Every run asks cargo (content-checksum freshness) to re-check the workspace with the fact-writing
compiler driver; afterwards the content hash of every source file named in the facts is compared with
the file as it is now, so stale facts are never analysed.
"""
import fcntl, glob, hashlib, json, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('FR_REPO', '/repo')
WORK = os.environ.get('FR_WORK', os.path.join(VERIF, '.work'))
DRIVER = os.path.join(WORK, 'driver')
CONFIGS = {'tiny': 'tiny,fuzz', 'full': 'full'}


class ExtractError(Exception):
    pass


def env_for(config):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO', 'RUST'))}
    empty = os.path.join(WORK, 'empty')
    os.makedirs(empty, exist_ok=True)
    e.update({
        'PATH': '/root/.cargo/bin:' + e.get('PATH', '/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'),
        'HOME': e.get('HOME', '/root'),
        'RUSTUP_TOOLCHAIN': 'nightly', 'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '0',
        'ROCKSDB_LIB_DIR': empty, 'SNAPPY_LIB_DIR': empty,
    })
    return e


def run(cmd, env, cwd, log):
    with open(log, 'ab') as f:
        f.write(('\n$ %s\n' % ' '.join(cmd)).encode())
        f.flush()
        r = subprocess.run(cmd, env=env, cwd=cwd, stdout=f, stderr=subprocess.STDOUT)
    return r.returncode


def sysroot_lib(env):
    p = os.path.join(WORK, 'sysroot')
    if os.path.exists(p):
        s = open(p).read().strip()
        if os.path.isdir(s):
            return s
    s = subprocess.run(['rustc', '--print', 'sysroot'], env=env, capture_output=True, text=True).stdout.strip() + '/lib'
    with open(p, 'w') as f:
        f.write(s)
    return s


def build_driver(log):
    env = env_for('tiny')
    env['CARGO_TARGET_DIR'] = DRIVER
    if run(['cargo', 'build', '--release', '--offline', '-q'], env, os.path.join(VERIF, 'driver'), log):
        raise ExtractError('the fact-writing driver does not build; see ' + log)


def wipe_ws(target):
    """forget what cargo knows about workspace crates"""
    for sub in ('.fingerprint', 'build'):
        for pat in ('fr-*', 'fastroll*', 'fr_*'):
            for d in glob.glob(os.path.join(target, 'debug', sub, pat)):
                shutil.rmtree(d, ignore_errors=True)


def verify(facts):
    """-> list of crates whose facts do not describe the files as they are now"""
    bad = []
    n = 0
    for f in sorted(glob.glob(os.path.join(facts, '*.facts'))):
        with open(f, encoding='utf-8') as fh:
            h = json.loads(fh.readline())
        ok = bool(h['srcs'])
        for p, hs in h['srcs']:
            if not p.endswith('.rs'):
                continue
            q = p if os.path.isabs(p) else os.path.join(REPO, p)
            kind, _, val = hs.partition('=')
            kind = kind.lower()
            if kind not in ('md5', 'sha1', 'sha256'):
                ok = False
                continue
            try:
                with open(q, 'rb') as fh:
                    d = hashlib.new(kind, fh.read()).hexdigest()
            except OSError:
                ok = False
                continue
            n += 1
            if d != val:
                ok = False
        if not ok:
            bad.append(h['crate'])
    return bad, n


def members():
    """lib/bin crates of the workspace, from its manifests"""
    import tomllib
    with open(os.path.join(REPO, 'Cargo.toml'), 'rb') as f:
        ws = tomllib.load(f)['workspace']['members']
    out = []
    for m in ws:
        for d in glob.glob(os.path.join(REPO, m)):
            with open(os.path.join(d, 'Cargo.toml'), 'rb') as f:
                t = tomllib.load(f)
            nm = t.get('lib', {}).get('name') or t['package']['name']
            if t['package']['name'] != 'fr-integration' and os.path.exists(os.path.join(d, 'src', 'lib.rs')):
                out.append(nm.replace('-', '_'))
    return sorted(out)


def extract(config='tiny', quiet=True):
    """-> (facts dir, info)"""
    os.makedirs(WORK, exist_ok=True)
    t0 = time.time()
    with open(os.path.join(WORK, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        log = os.path.join(WORK, 'extract-%s.log' % config)
        open(log, 'w').close()
        build_driver(log)
        env = env_for(config)
        facts = os.path.join(WORK, 'facts-' + config)
        target = os.path.join(WORK, 'target-' + config)
        os.makedirs(facts, exist_ok=True)
        env.update({'FR_FACTS_DIR': facts, 'RUSTC_WORKSPACE_WRAPPER': os.path.join(DRIVER, 'release', 'fr-facts'),
                    'CARGO_TARGET_DIR': target, 'LD_LIBRARY_PATH': sysroot_lib(env)})
        cmd = ['cargo', '-Zchecksum-freshness', 'check', '--workspace', '--exclude', 'fr-integration', '--offline', '--locked', '--features', CONFIGS[config]]
        # the driver's own identity is part of what the facts depend on
        stamp = os.path.join(WORK, 'driver-stamp-' + config)
        with open(env['RUSTC_WORKSPACE_WRAPPER'], 'rb') as f:
            dh = hashlib.sha256(f.read()).hexdigest()
        if not os.path.exists(stamp) or open(stamp).read() != dh:
            wipe_ws(target)
            for f in glob.glob(os.path.join(facts, '*')):
                os.unlink(f)
        tries = 0
        why = ''
        while True:
            rc = run(cmd, env, REPO, log)
            if rc == 0:
                bad, n = verify(facts)
                have = set()
                for f in glob.glob(os.path.join(facts, '*.facts')):
                    have.add(os.path.basename(f).rsplit('-', 2)[0].replace('-proc', '') if 'proc-macro' in f else os.path.basename(f).split('-')[0])
                missing = [m for m in members() if m not in have]
                if not bad and not missing:
                    break
                with open(log, 'a') as f:
                    f.write('missing %s stale %s\n' % (missing, bad))
                why = 'facts of %s are missing or stale' % ', '.join(sorted(set(bad + missing)))
            else:
                why = 'the workspace does not compile under the fact-writing driver; see ' + log
            tries += 1
            if tries > 1:
                raise ExtractError(why)
            wipe_ws(target)
            for f in glob.glob(os.path.join(facts, '*')):
                os.unlink(f)
        with open(stamp, 'w') as f:
            f.write(dh)
    return facts, {'config': config, 'files': n, 'extract_s': round(time.time() - t0, 2)}


if __name__ == '__main__':
    for c in sys.argv[1:] or ['tiny']:
        print(extract(c))
