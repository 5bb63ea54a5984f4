"""Dumps of the witness units against /repo's current tree, cached by content."""
import concurrent.futures
import hashlib
import os
import re
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, 'build'))
TOOL = os.path.join(BUILD, 'irdump')
CLANG = 'clang++-18'


class Broken(Exception):
    """the analysis could not be carried out"""


def sh(cmd, **k):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def repo_files():
    out = []
    for top in ('include', 'src'):
        for d, _, fs in os.walk(os.path.join(REPO, top)):
            for f in fs:
                out.append(os.path.join(d, f))
    return sorted(out)


_hash = None


def repo_hash():
    global _hash
    if _hash is None:
        h = hashlib.sha256()
        for f in repo_files():
            h.update(os.path.relpath(f, REPO).encode() + b'\0')
            with open(f, 'rb') as fh:
                h.update(hashlib.sha256(fh.read()).digest())
        _hash = h.hexdigest()
    return _hash


CONFIGS = {
    # name -> (macros set to 1, -std)
    'portable20': (['STLAB_STD_COROUTINES', 'STLAB_THREADS_PTHREAD', 'STLAB_TASK_SYSTEM_PORTABLE',
                    'STLAB_MAIN_EXECUTOR_NONE'], 'c++20'),
    'portable17': (['STLAB_THREADS_PTHREAD', 'STLAB_TASK_SYSTEM_PORTABLE', 'STLAB_MAIN_EXECUTOR_NONE'], 'c++17'),
    'libdispatch20': (['STLAB_STD_COROUTINES', 'STLAB_THREADS_PTHREAD', 'STLAB_TASK_SYSTEM_LIBDISPATCH',
                       'STLAB_MAIN_EXECUTOR_LIBDISPATCH'], 'c++20'),
}


def config_dir(name):
    on, _ = CONFIGS[name]
    d = os.path.join(BUILD, 'cfg', name)
    src = os.path.join(REPO, 'include/stlab/config.hpp.in')
    try:
        t = open(src).read()
    except OSError as e:
        raise Broken('cannot read %s: %s' % (src, e))

    def sub(m):
        return '#define %s %d' % (m.group(1), 1 if m.group(1).rstrip('()') in on else 0)

    t = re.sub(r'#cmakedefine01 (\S+)', sub, t)
    t = re.sub(r'#cmakedefine (\S+)', lambda m: '/* #undef %s */' % m.group(1), t)
    t = re.sub(r'@PROJECT_VERSION_\w+@', '0', t)
    t = t.replace('@STLAB_TASK_POOL_MAXIMUM@', '0')
    t = re.sub(r'@\w+@', '0', t)
    p = os.path.join(d, 'stlab/config.hpp')
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != t:
        tmp = p + '.%d' % os.getpid()
        open(tmp, 'w').write(t)
        os.replace(tmp, p)
    return d


def ensure_tool():
    src = os.path.join(VERIF, 'tools/irdump.cpp')
    if os.path.exists(TOOL) and os.path.getmtime(TOOL) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = TOOL + '.%d' % os.getpid()
    r = sh([CLANG, '-O1', '-std=c++17', '-fno-exceptions', '-fno-rtti', '-I/usr/lib/llvm-18/include', src,
            '-o', tmp, '-L/usr/lib/llvm-18/lib', '-lLLVM-18'])
    if r.returncode:
        raise Broken('cannot build irdump:\n' + r.stdout[-3000:])
    os.replace(tmp, TOOL)


def flags(cfg):
    extra = []
    if cfg.startswith('libdispatch'):
        extra = ['-I' + os.path.join(VERIF, 'witness/stub_dispatch')]
    return ['-std=' + CONFIGS[cfg][1], '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-g',
            '-DNDEBUG', '-flto=full', '-fwhole-program-vtables', '-fvisibility=hidden', '-Wno-everything',
            '-I' + config_dir(cfg), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'witness')] + extra


FULL = ('w_forest.cpp', 'w_falg.cpp')      # dumped with the bodies of standard functions and the offsets of fields


def dump(unit, cfg='portable20'):
    """unit: file name under witness/, or 'repo:src/x.cpp'"""
    ensure_tool()
    src = os.path.join(REPO, unit[5:]) if unit.startswith('repo:') else os.path.join(VERIF, 'witness', unit)
    if not os.path.exists(src):
        raise Broken('missing unit ' + src)
    h = hashlib.sha256()
    h.update(repo_hash().encode())
    h.update(open(src, 'rb').read())
    h.update(open(os.path.join(VERIF, 'witness/w.hpp'), 'rb').read())
    h.update(open(os.path.join(VERIF, 'tools/irdump.cpp'), 'rb').read())
    h.update(' '.join(flags(cfg)).encode())
    d = os.path.join(BUILD, 'dump')
    os.makedirs(d, exist_ok=True)
    name = re.sub(r'\W+', '_', unit) + '.' + cfg
    out = os.path.join(d, name + '.' + h.hexdigest()[:16])
    if os.path.exists(out):
        return out
    tmp = out + '.%d' % os.getpid()
    r = sh([CLANG] + flags(cfg) + ['-c', src, '-o', tmp + '.bc'])
    if r.returncode:
        raise Broken('unit %s does not compile against the tree:\n%s' % (unit, r.stdout[:3000]))
    r = sh([TOOL, tmp + '.bc', tmp] + (['full'] if unit in FULL else []))
    try:
        os.remove(tmp + '.bc')
    except OSError:
        pass
    if r.returncode:
        raise Broken('irdump failed on %s:\n%s' % (unit, r.stdout[:3000]))
    for f in os.listdir(d):   # drop the dumps of earlier trees
        if f.startswith(name + '.') and os.path.join(d, f) != out and not f.startswith(os.path.basename(tmp)):
            try:
                os.remove(os.path.join(d, f))
            except OSError:
                pass
    os.replace(tmp, out)
    return out


def dumps(units, cfg='portable20'):
    ensure_tool()
    config_dir(cfg)
    repo_hash()
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda u: dump(u, cfg), units))


def compiles(code, cfg='portable20', std=None, extra=()):
    """type-level witness: does this program type-check against the tree? -> (ok, messages)"""
    cmd = [CLANG, '-std=' + (std or CONFIGS[cfg][1]), '-fsyntax-only', '-DNDEBUG', '-x', 'c++', '-',
           '-I' + config_dir(cfg), '-I' + os.path.join(REPO, 'include'), '-I' + os.path.join(VERIF, 'witness')] + list(extra)
    r = subprocess.run(cmd, input=code, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode == 0, r.stdout


if __name__ == '__main__':
    if sys.argv[1:] == ['setup']:
        ensure_tool()
        print('tool', TOOL)
