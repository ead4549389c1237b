#!/usr/bin/env python3
"""plant.py FILE: plant the bugs a Python file describes, in a scratch copy under /tmp/plant, and keep in
/verif/seeded those that build, pass the stable tests and are shown by their demonstration.

The file defines BUGS = [dict(id, property, needs, breaks, edits=[(path, old, new)], main=Rust source,
features='...', script=shell text instead of the Rust program)].  (A tool for developing the checks; no check uses it.)
"""
import json, os, runpy, shutil, subprocess, sys

COPY = '/tmp/plant/repo'
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
DEMO = '''#!/bin/bash
# Run in the repository.  Exit 0: the property holds for the cases in main.rs.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=/tmp/pgcst-demo-%(id)s
mkdir -p $w/src
sed "s#REPO#$repo#g" "$here/main.rs" > $w/src/main.rs
%(pre)s
[ -f "$repo/Cargo.lock" ] && cp "$repo/Cargo.lock" $w/Cargo.lock
cat > $w/Cargo.toml <<END
[package]
name = "demo"
version = "0.1.0"
edition = "%(edition)s"
[dependencies]
%(deps)s
[profile.dev]
debug = false
[workspace]
END
export CARGO_TARGET_DIR=$w/target CARGO_NET_OFFLINE=true RUSTC_WRAPPER=
cd $w && timeout 250 cargo run --quiet --offline
rc=$?
rm -rf /tmp/pgcst-demo-%(id)s
exit $rc
'''


def sh(cmd, cwd=COPY, timeout=900, env=None):
    e = dict(os.environ)
    e.update(env or {})
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, env=e)
    return p.returncode, p.stdout


def tests():
    env = {'RUSTUP_TOOLCHAIN': 'stable-x86_64-unknown-linux-gnu', 'CARGO_NET_OFFLINE': 'true', 'CARGO_PROFILE_DEV_DEBUG': 'line-tables-only',
           'CARGO_INCREMENTAL': '1', 'CARGO_TARGET_DIR': COPY + '/target', 'CARGO_TERM_COLOR': 'never', 'RUSTC_WRAPPER': ''}
    opt = '--config profile.dev.package.parser-generator.opt-level=2'
    logs = '/tmp/plant/logs'
    os.makedirs(logs, exist_ok=True)
    sh('cargo %s test --workspace --no-fail-fast --offline -- --test-threads 8 --skip bison::tests::test4 > %s/default.log 2>&1' % (opt, logs), env=env)
    sh('cargo %s test -p postgresql-cst-parser --features regex-match --no-fail-fast --offline -- --test-threads 8 > %s/regex.raw 2>&1' % (opt, logs), env=env)
    sh(r"sed -E -e 's#^( +Running .*\(.*/)([^/]+\))$#\1regex-match+\2#' -e 's#^( +Doc-tests )#\1regex-match+#' %s/regex.raw > %s/regex-match.log" % (logs, logs))
    sh('python3 /opt/vp/results.py %s/out.json cargo:%s/default.log cargo:%s/regex-match.log' % (logs, logs, logs))
    r = json.load(open(logs + '/out.json'))
    return STABLE - set(r['passed'])


def main():
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    only = sys.argv[2:]
    if not os.path.exists(COPY):
        subprocess.check_call('cp -a /repo /tmp/plant/', shell=True)
    sh('git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD')
    for b in bugs:
        if only and b['id'] not in only:
            continue
        sh('git checkout -q -- .')
        try:
            for path, old, *new in b['edits']:
                paths = path if isinstance(path, (list, tuple)) else [path]
                for q in paths:
                    f = os.path.join(COPY, q)
                    s = open(f).read()
                    if callable(old):
                        open(f, 'w').write(old(s))
                        continue
                    n = new[1] if len(new) > 1 else 1
                    assert s.count(old) == n if n else s.count(old) > 0, '%s: %d occurrences in %s' % (b['id'], s.count(old), q)
                    open(f, 'w').write(s.replace(old, new[0]))
        except AssertionError as e:
            print(b['id'], 'EDIT', e, flush=True)
            continue
        d = '/tmp/plant/new/' + b['id']
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        subprocess.check_call('git diff > %s/patch.diff' % d, shell=True, cwd=COPY)
        json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        if 'script' in b:
            open(d + '/demo.sh', 'w').write(b['script'])
        else:
            open(d + '/main.rs', 'w').write(b['main'])
            feats = b.get('features', '')
            deps = b.get('deps') or 'postgresql-cst-parser = { path = "$repo/crates/postgresql-cst-parser"%s }' % feats
            open(d + '/demo.sh', 'w').write(DEMO % {'id': b['id'], 'deps': deps, 'pre': b.get('pre', ''), 'edition': b.get('edition', '2021')})
        for n, t in b.get('files', {}).items():
            open(os.path.join(d, n), 'w').write(t)
        rc1, o1 = sh('bash %s/demo.sh' % d, timeout=400)
        if rc1 == 0:
            print(b['id'], 'DEMO does not fail with the patch', o1[-500:], flush=True)
            continue
        bad = tests()
        if bad:
            print(b['id'], 'TESTS fail:', sorted(bad)[:6], flush=True)
            continue
        sh('git checkout -q -- .')
        rc0, o0 = sh('bash %s/demo.sh' % d, timeout=400)
        if rc0 != 0:
            print(b['id'], 'DEMO fails without the patch', o0[-1500:], flush=True)
            continue
        t = os.path.join(SEEDED, b['id'])
        shutil.rmtree(t, ignore_errors=True)
        shutil.copytree(d, t)
        print(b['id'], 'KEPT; demo said:', o1.strip()[-200:].replace('\n', ' | '), flush=True)
    sh('git checkout -q -- .')


if __name__ == '__main__':
    main()
