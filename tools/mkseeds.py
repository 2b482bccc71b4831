#!/usr/bin/env python3
"""Generates /verif/seeded/<id>/ from tools/seeds/*.py and confirms each planted bug in a scratch copy.

mkseeds.py gen [ID..]      write seeded/<id>/{patch.diff,demo.sh,main.rs,meta.json}
mkseeds.py confirm [ID..]  scratch copy: builds, stable tests pass, demo 0 on the unchanged tree and nonzero with the patch
mkseeds.py check [ID..]    which checks raise a violation on the patched scratch copy (quick tier of the bug's property)
"""
import os, sys, json, subprocess, shutil, glob, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = R + '/seeded'
TEMPLATE = r'''#!/bin/bash
# %(title)s
# run in the repository: builds a small program against it and runs it
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin RUSTUP_TOOLCHAIN=1.99.1 CARGO_NET_OFFLINE=true RUSTUP_AUTO_INSTALL=0
unset RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE RUSTC_WRAPPER
%(env)sw=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$w"' EXIT
export CARGO_TARGET_DIR=$w/target
mkdir -p $w/src
cp "$here/main.rs" $w/src/main.rs
cat > $w/Cargo.toml <<EOT
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[workspace]
[dependencies]
corosensei = { path = "$repo", default-features = false, features = [%(features)s] }
[profile.release]
%(profile)s
EOT
# unchanged by any patch: the dependency versions of the repository itself
cp "$repo/Cargo.lock" $w/Cargo.lock 2>/dev/null
cd $w
for t in %(targets)s; do
  for p in %(profiles)s; do
    r=""; [ $p = release ] && r=--release
    cargo build -q --offline --target $t $r >build.log 2>&1 || { tail -5 build.log; echo "demo does not build"; exit 4; }
    d=$CARGO_TARGET_DIR/$t/$([ $p = release ] && echo release || echo debug)/demo
    %(run)s
  done
done
exit 0
'''
RUN = '''timeout 60 $d >out.log 2>&1
    s=$?
    [ $s = %(status)s ] || { tail -5 out.log; echo "$t $p: exit status $s"; exit 1; }'''
X64, X86 = 'x86_64-unknown-linux-gnu', 'i686-unknown-linux-gnu'


def load():
    b = {}
    for f in sorted(glob.glob(R + '/tools/seeds/*.py')):
        g = {'X64': X64, 'X86': X86, 'B': b}
        exec(compile(open(f).read(), f, 'exec'), g)
    for l in open(R + '/tools/seeds/rejected.txt'):
        b.pop(l.split()[0], None)
    return b


def gen(i, s):
    d = OUT + '/' + i
    os.makedirs(d, exist_ok=True)
    w = '/tmp/seedgen'
    if os.path.isdir(w):
        shutil.rmtree(w)
    subprocess.run(['git', 'clone', '-q', '/repo', w], check=True)
    for f, old, new in s['edits']:
        p = w + '/' + f
        t = open(p).read()
        assert t.count(old) == 1, (i, f, t.count(old), old)
        open(p, 'w').write(t.replace(old, new))
    diff = subprocess.run(['git', 'diff'], cwd=w, stdout=subprocess.PIPE, check=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    shutil.rmtree(w)
    run = RUN % dict(status=s.get('status', 0)) if 'run' not in s else s['run']
    open(d + '/demo.sh', 'w').write(TEMPLATE % dict(
        title=s['what'], features=', '.join('"%s"' % f for f in s.get('features', ['default-stack', 'unwind'])),
        env=''.join('export %s\n' % x for x in s.get('env', [])), profile=s.get('profile', ''), targets=' '.join(s.get('targets', [X64])), profiles=' '.join(s.get('profiles', ['dev', 'release'])), run=run))
    os.chmod(d + '/demo.sh', 0o755)
    open(d + '/main.rs', 'w').write(s['main'])
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['what']), open(d + '/meta.json', 'w'), indent=1)


W = '/tmp/seedw'


def sh(cmd, **k):
    """in a private mount namespace where the scratch copy stands at /repo"""
    return subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind %s /repo && cd /repo && %s' % (W, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def fresh():
    if not os.path.isdir(W):
        subprocess.run(['cp', '-a', '/repo', W], check=True)
    subprocess.run(['git', '-C', W, 'checkout', '-q', '-f', '.'], check=True)
    subprocess.run(['git', '-C', W, 'fetch', '-q', '/repo', 'HEAD'], check=True)
    subprocess.run(['git', '-C', W, 'reset', '-q', '--hard', 'FETCH_HEAD'], check=True)


def demo(i):
    t = '/tmp/seeddemo'
    shutil.rmtree(t, ignore_errors=True)
    shutil.copytree(OUT + '/' + i, t)
    for f in ('patch.diff', 'meta.json'):
        os.unlink(t + '/' + f)
    r = sh('bash %s/demo.sh' % t)
    shutil.rmtree(t)
    return r


def confirm(i):
    fresh()
    r0 = demo(i)
    if r0.returncode != 0:
        return 'demo fails on the unchanged tree: ' + r0.stdout.decode()[-600:]
    subprocess.run(['git', '-C', W, 'apply', OUT + '/' + i + '/patch.diff'], check=True)
    b = sh('bash /opt/vp/build.sh')
    if b.returncode:
        return 'build fails: ' + b.stdout.decode()[-800:]
    t = sh('bash /opt/vp/test.sh /tmp/seed.json')
    res = json.load(open('/tmp/seed.json'))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    bad = [x for x in stable if x not in res['passed']]
    if bad:
        return 'tests fail: %s' % bad[:6]
    r1 = demo(i)
    if r1.returncode == 0:
        return 'demo passes with the patch'
    fresh()
    return 'ok (demo: %s)' % r1.stdout.decode().strip()[-160:].replace('\n', ' | ')


def check(i, s, props=None):
    fresh()
    subprocess.run(['git', '-C', W, 'apply', OUT + '/' + i + '/patch.diff'], check=True)
    out = []
    for p in props or [s['property']]:
        e = dict(os.environ, VERIF_REPO=W, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVD='/tmp/seedev')
        e.pop('VERIF_PY', None)
        r = subprocess.run(['python3', R + '/check.py', p], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e)
        o = r.stdout.decode()
        out.append('%s: exit %d %s' % (p, r.returncode, o.strip()[-700:] if r.returncode != 1 else o.strip().split('\n')[0][:200]))
    fresh()
    return '\n    '.join(out)


if __name__ == '__main__':
    b = load()
    ids = sys.argv[2:]
    props = [x for x in ids if re.match(r'C\d\d$', x)]
    ids = [x for x in ids if x not in props] or list(b)
    for i in ids:
        if sys.argv[1] == 'gen':
            gen(i, b[i])
        elif sys.argv[1] == 'confirm':
            print(i, confirm(i), flush=True)
        elif sys.argv[1] == 'check':
            print(i, check(i, b[i], props), flush=True)
        elif sys.argv[1] == 'all':
            gen(i, b[i])
            print(i, confirm(i), flush=True)
            print(i, check(i, b[i], props), flush=True)
