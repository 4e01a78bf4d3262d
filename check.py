#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N] [--replay FILE] [--unit U --cases N]
Builds the harness of one property against /repo's working tree (content-addressed object cache, so only what the
change affects is recompiled) and runs it. --build-only PROPERTY... prebuilds (setup_cmd)."""
import hashlib, json, os, re, subprocess, sys, time, glob, fcntl
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('STINGRAYKIT_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(HERE, 'build'))
JOBS = os.cpu_count() or 4

DEFS = """-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1
-DHAVE_POSIX_THREADS=1 -DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1
-DPOSIX_HAVE_MONOTONIC_TIMER=1 -DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1
-DSTINGRAY_DEFAULT_LOGLEVEL=Info -DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1 -DSTINGRAY_LIB_SOURCE""".split()
COMMON = ['-std=gnu++14', '-fno-strict-aliasing', '-pthread', '-w', '-gline-tables-only', '-fno-omit-frame-pointer', '-I' + REPO, '-I' + os.path.join(HERE, 'engine')]
VARIANTS = {
    'seq': dict(cc='clang++', flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment', '-fno-sanitize-recover=all'],
                link=['-fsanitize=address,undefined'], engine=['pbt_main.cpp', 'factory_stub.cpp']),
    'conc': dict(cc='clang++', flags=['-O1', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment', '-fno-sanitize-recover=all', '-DPBT_CONC=1',
                 '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores', '-include', os.path.join(HERE, 'engine', 'conc_shim.h')],
                 link=['-fsanitize=address,undefined', '-rdynamic'], engine=['pbt_main.cpp', 'factory_stub.cpp', 'dsched.cpp'],
                 engine_flags={e: ['-O2', '-fsanitize=address,undefined', '-fno-sanitize=vptr,function,alignment', '-fno-sanitize-recover=all', '-DPBT_CONC=1'] for e in ('dsched.cpp', 'pbt_main.cpp')}),
}
LIBS = ['-licui18n', '-licuuc', '-licudata', '-ldl', '-lrt', '-lpthread']


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b'\0')
    return h.hexdigest()[:32]


_filehash = {}


def filehash(path):
    if path not in _filehash:
        try:
            with open(path, 'rb') as f:
                _filehash[path] = hashlib.sha256(f.read()).hexdigest()[:32]
        except OSError:
            _filehash[path] = 'missing'
    return _filehash[path]


class BuildError(Exception):
    pass


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


def compile_one(variant, src, extra=()):
    """returns the path of the object file for src, compiling only if its preprocessed text is new"""
    v = VARIANTS[variant]
    flags = [f for f in v['flags']]
    inst = True
    ef = v.get('engine_flags', {}).get(os.path.basename(src)) if os.path.dirname(src) == os.path.join(HERE, 'engine') else None
    if ef is not None:
        flags = list(ef)
    cmd = [v['cc'], *DEFS, *COMMON, *flags, *extra]
    odir = os.path.join(BUILD, 'obj')
    os.makedirs(odir, exist_ok=True)
    idx = os.path.join(odir, sha('idx', src, *cmd) + '.dep')
    try:
        with open(idx) as f:
            rec = json.load(f)
        if all(filehash(p) == h for p, h in rec['deps']) and os.path.exists(rec['obj']):
            os.utime(rec['obj'])
            return rec['obj']
    except (OSError, ValueError, KeyError):
        pass
    tmpd = os.path.join(odir, 'tmp.%d.%s' % (os.getpid(), sha(src, variant)[:8]))
    r = run([*cmd, '-E', '-P', '-MD', '-MF', tmpd, '-MT', 'x', src])
    if r.returncode:
        raise BuildError(r.stderr.decode(errors='replace')[-3000:])
    with open(tmpd) as f:
        deps = f.read().replace('\\\n', ' ').split(':', 1)[1].split()
    os.unlink(tmpd)
    deps = [d for d in deps if not d.startswith('/usr/')]
    key = sha(*cmd, r.stdout)
    obj = os.path.join(odir, key + '.o')
    if not os.path.exists(obj):
        tmpo = obj + '.tmp%d' % os.getpid()
        r = run([*cmd, '-c', src, '-o', tmpo])
        if r.returncode:
            raise BuildError('%s:\n%s' % (src, r.stderr.decode(errors='replace')[-4000:]))
        os.rename(tmpo, obj)
    tmpi = idx + '.%d' % os.getpid()
    with open(tmpi, 'w') as f:
        json.dump({'obj': obj, 'deps': [(d, filehash(d)) for d in deps]}, f)
    os.rename(tmpi, idx)
    return obj


def lib_sources():
    """library sources of the POSIX build, from CMakeLists.txt where it names them, otherwise by directory"""
    out = []
    for root, dirs, files in os.walk(os.path.join(REPO, 'stingraykit')):
        rel = os.path.relpath(root, REPO)
        for f in sorted(files):
            if f.endswith('.cpp'):
                out.append(os.path.join(root, f))
    return sorted(out)


def cmake_listed(srcs):
    with open(os.path.join(REPO, 'CMakeLists.txt')) as f:
        text = f.read()
    keep = []
    for s in srcs:
        rel = os.path.relpath(s, REPO)
        if rel in text or re.search(r'/(win32)/', rel) is None and re.sub(r'^stingraykit/', '', rel) in text:
            keep.append(s)
    return keep


def harness_sources(prop):
    return sorted(glob.glob(os.path.join(HERE, 'checks', prop + '.cpp')) + glob.glob(os.path.join(HERE, 'checks', prop + '_*.cpp')))


def variant_of(prop):
    with open(os.path.join(HERE, 'checks', prop + '.cpp')) as f:
        m = re.search(r'^// ENGINE: (\w+)', f.read(), re.M)
    return m.group(1) if m else 'seq'


def extra_flags(src):
    with open(src) as f:
        m = re.search(r'^// FLAGS: (.*)$', f.read(), re.M)
    return m.group(1).split() if m else ()


def short(text):
    lines = text.splitlines()
    keep = [l for l in lines if 'error' in l or 'undefined' in l or 'required from' in l]
    return '\n'.join((keep or lines)[:25])


def build(props, verbose=False):
    """builds the harness binaries of all given properties; returns {prop: path}"""
    os.makedirs(BUILD, exist_ok=True)
    todo = {}
    for p in props:
        v = variant_of(p)
        todo.setdefault(v, []).append(p)
    out, errors = {}, []
    with ThreadPoolExecutor(JOBS) as ex:
        plan = {}
        # harnesses first: they are the long ones
        for v, ps in todo.items():
            for p in ps:
                plan[p] = [ex.submit(compile_one, v, s, extra_flags(s)) for s in harness_sources(p)]
        lib = {}
        for v in todo:
            lib[v] = [ex.submit(compile_one, v, os.path.join(HERE, 'engine', e)) for e in VARIANTS[v]['engine']] + \
                     [ex.submit(compile_one, v, s) for s in cmake_listed(lib_sources())]
        libobjs = {}
        for v in todo:
            libobjs[v] = [f.result() for f in lib[v]]

        def link(p, v, objs):
            key = sha('link', v, *VARIANTS[v]['link'], *objs, *libobjs[v])
            exe = os.path.join(BUILD, 'bin', '%s-%s' % (p, key))
            if not os.path.exists(exe):
                os.makedirs(os.path.dirname(exe), exist_ok=True)
                for old in glob.glob(os.path.join(BUILD, 'bin', p + '-*')):
                    try:
                        os.unlink(old)
                    except OSError:
                        pass
                ne = len(VARIANTS[v]['engine'])
                eng, rest = libobjs[v][:ne], libobjs[v][ne:]
                ar = os.path.join(BUILD, 'lib-%s-%s.a' % (v, sha(*rest)))
                if not os.path.exists(ar):
                    t = ar + '.%d.%s' % (os.getpid(), p)
                    r = run(['ar', 'rcsT', t, *rest])
                    if r.returncode:
                        raise BuildError(r.stderr.decode())
                    os.rename(t, ar)
                    for old in glob.glob(os.path.join(BUILD, 'lib-%s-*.a' % v)):
                        if old != ar and time.time() - os.path.getmtime(old) > 600:
                            os.unlink(old)
                t = exe + '.tmp%d' % os.getpid()
                r = run([VARIANTS[v]['cc'], *VARIANTS[v]['link'], '-pthread', '-fuse-ld=lld' if HAVE_LLD else '-g', '-o', t, *eng, *objs, ar, *LIBS])
                if r.returncode:
                    raise BuildError(r.stderr.decode(errors='replace')[-4000:])
                os.rename(t, exe)
            return exe
        links = {}
        for v, ps in todo.items():
            for p in ps:
                try:
                    objs = [f.result() for f in plan[p]]
                    links[p] = ex.submit(link, p, v, objs)
                except BuildError as e:
                    errors.append((p, str(e)))
        for p, f in links.items():
            try:
                out[p] = f.result()
            except BuildError as e:
                errors.append((p, str(e)))
    prune()
    return out, errors


def prune(limit=6 << 30):
    files = []
    for f in glob.glob(os.path.join(BUILD, 'obj', '*.o')):
        try:
            st = os.stat(f)
            files.append((st.st_mtime, st.st_size, f))
        except OSError:
            pass
    total = sum(s for _, s, _ in files)
    for t, s, f in sorted(files):
        if total <= limit:
            break
        try:
            os.unlink(f)
        except OSError:
            pass
        total -= s


HAVE_LLD = subprocess.run('command -v ld.lld', shell=True, stdout=subprocess.DEVNULL).returncode == 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--build-only':
        props = a[1:] or [os.path.basename(p)[:-4] for p in sorted(glob.glob(os.path.join(HERE, 'checks', '[A-Z][0-9][0-9].cpp')))]
        t = time.time()
        out, errors = build(props)
        for p, e in errors:
            print('BUILD FAILED', p, e)
        print('built %d harnesses in %.0f s' % (len(out), time.time() - t))
        return 1 if errors else 0
    prop, rest = a[0], a[1:]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    seed = os.environ.get('VERIF_SEED') or '1'
    extra = []
    i = 0
    while i < len(rest):
        if rest[i] == '--tier':
            tier = rest[i + 1]
            i += 2
        elif rest[i] == '--seed':
            seed = rest[i + 1]
            i += 2
        else:
            extra.append(rest[i])
            i += 1
    if not re.fullmatch(r'\d+', seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16))
    t = time.time()
    try:
        out, errors = build([prop])
    except BuildError as e:
        out, errors = {}, [(prop, str(e))]
    if errors:
        print('error: the harness of %s does not build against this tree:\n%s' % (prop, short(errors[0][1])))
        return 2
    print('built in %.1f s' % (time.time() - t), flush=True)
    for d in ('evidence', 'replay', os.path.join(BUILD, 'tmp')):
        os.makedirs(os.path.join(HERE, d), exist_ok=True)
    cmd = [out[prop], '--property', prop, '--tier', tier, '--seed', seed, '--known', os.path.join(HERE, 'KNOWN_FINDINGS.txt'),
           '--replay-dir', os.path.join(HERE, 'replay'), '--tmp', os.path.join(BUILD, 'tmp'),
           '--max-wall', '3000' if tier == 'thorough' else '240']
    if '--unit' not in extra and '--replay' not in extra:
        cmd += ['--evidence', os.path.join(HERE, 'evidence', prop + '.json')]
    env = dict(os.environ)
    env['LANG'] = 'C.UTF-8'
    env.pop('LC_ALL', None)
    env['ASAN_SYMBOLIZER_PATH'] = '/usr/bin/llvm-symbolizer-18' if os.path.exists('/usr/bin/llvm-symbolizer-18') else ''
    if not env['ASAN_SYMBOLIZER_PATH']:
        env.pop('ASAN_SYMBOLIZER_PATH')
    r = subprocess.run(cmd + extra, env=env)
    return r.returncode if r.returncode in (0, 1) else 2


if __name__ == '__main__':
    sys.exit(main())
