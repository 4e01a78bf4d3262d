#!/usr/bin/env python3
"""Makes and tries out planted bugs: tools/plant.py SPEC.py...

A SPEC.py defines ID, PROP, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and DEMO, the text of demo.cpp (main returns
0 when all is well). The result goes to seeded/ID; everything is tried on a scratch copy, /tmp/sr, never on /repo."""
import concurrent.futures
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'

DEMO_SH = '''#!/bin/bash
# run with cwd = the repository, after it was built
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=gnu++14 -g -w -pthread -fno-strict-aliasing -DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 \\
	-DHAVE_POSIX_THREADS=1 -DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 \\
	-DPOSIX_HAVE_MONOTONIC_TIMER=1 -DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 \\
	-DSTINGRAY_DEFAULT_LOGLEVEL=Info -D_REENTRANT=1 -I"$PWD" "$d/demo.cpp" "$PWD/_build/lib/libstingraykit.a" %s -lrt -o "$t/demo" || exit 9
cd "$t" || exit 9
timeout %d ./demo
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


def prepare():
    if not os.path.isdir(SR):
        r = sh('cp -a /repo %s && rm -rf %s/_build && cd %s && CC=gcc CXX=g++ cmake -S . -B _build -G Ninja -DPLATFORM_POSIX=TRUE'
               ' -DCMAKE_BUILD_TYPE=Debug -DGOOGLETEST_ROOT=/usr/src/googletest -DCMAKE_CXX_FLAGS=-Wno-overloaded-virtual' % (SR, SR, SR))
        if r.returncode:
            sys.exit(r.stdout)
    head = sh('git -C /repo rev-parse HEAD').stdout.strip()
    r = sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f FETCH_HEAD && git clean -fdq -e _build' % SR)
    if r.returncode:
        sys.exit(r.stdout)
    return head


def build():
    return sh('cd %s && ninja -C _build -j8 all stingraykit-test' % SR)


def tests():
    binary = SR + '/_build/build/stingraykit-test'
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    names, suite = [], ''
    for line in sh(binary + ' --gtest_list_tests').stdout.splitlines():
        line = line.split('#')[0].rstrip()
        if line.startswith('  '):
            names.append(suite + line.strip())
        elif line.endswith('.'):
            suite = line

    def one(n):
        try:
            return n, subprocess.run([binary, '--gtest_filter=' + n], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                     stderr=subprocess.DEVNULL, timeout=60).returncode
        except subprocess.TimeoutExpired:
            return n, -1
    with concurrent.futures.ThreadPoolExecutor(6) as ex:
        bad = {n for n, rc in ex.map(one, names) if rc}
    bad = {n for n in bad if one(n)[1]}
    return [s for s in stable if any(s.replace('::', '.').endswith(n) or s == n for n in bad)]


def try_one(path, skip_tests=False):
    ns = {}
    exec(open(path).read(), ns)
    d = os.path.join(VERIF, 'seeded', ns['ID'])
    sh('cd %s && git checkout -q -f .' % SR)
    for f, old, new in ns['EDITS']:
        p = os.path.join(SR, f)
        text = open(p).read()
        if text.count(old) != 1:
            return '%s: %d occurrences in %s of: %s' % (ns['ID'], text.count(old), f, old)
        open(p, 'w').write(text.replace(old, new))
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(['git', '-C', SR, 'diff'], stdout=subprocess.PIPE, text=True).stdout
    open(d + '/patch.diff', 'w').write(diff)
    open(d + '/demo.cpp', 'w').write(ns['DEMO'].lstrip('\n'))
    open(d + '/demo.sh', 'w').write(DEMO_SH % (ns.get('LIBS', ''), ns.get('TIMEOUT', 60)))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': ns['PROP'], 'needs': ns['NEEDS'], 'what_it_breaks': ns['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    out = [ns['ID']]
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    out.append('demo on /repo: %s' % ('ok' if not r.returncode else 'FAILS %d %s' % (r.returncode, r.stdout[-1500:])))
    r = build()
    if r.returncode:
        return '\n'.join(out + ['build fails', r.stdout[-3000:]])
    if not skip_tests:
        bad = tests()
        out.append('tests: %s' % ('ok' if not bad else 'BROKEN %s' % bad))
    r = sh('bash %s/demo.sh' % d, cwd=SR)
    out.append('demo with the bug: %s' % ('ok' if r.returncode not in (0, 9) else 'NOT DETECTED %d %s' % (r.returncode, r.stdout[-1500:])))
    if os.path.exists('%s/checks/%s.cpp' % (VERIF, ns['PROP'])):
        r = sh('./check.py %s' % ns['PROP'], cwd=VERIF, env=dict(os.environ, STINGRAYKIT_REPO=SR, VERIF_SEED='1', VERIF_TIER='quick'))
        v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
        out.append('check: rc %d %s' % (r.returncode, v[0] if v else 'MISSED\n' + r.stdout[-600:]))
    return '\n'.join(out)


def main():
    args = sys.argv[1:]
    skip = '--skip-tests' in args
    prepare()
    for a in args:
        if not a.startswith('--'):
            print(try_one(a, skip), flush=True)
    sh('cd %s && git checkout -q -f .' % SR)


main()
