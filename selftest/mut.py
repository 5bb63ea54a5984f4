"""Self-test of the rules: apply small edits to a scratch copy of /repo and run checks on it.

usage: mut.py [-t] [-c ID,ID] [name-regex]     -t: also build and run the repository's tests on the mutant
An edit is a (name, file, old, new, wants) tuple in selftest/edits_*.py; wants is the list of checks that must alarm
(empty: behaviour is preserved and every check must stay quiet).
"""
import glob
import importlib.util
import os
import re
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCR = '/tmp/w/mut'


def edits():
    out = []
    for f in sorted(glob.glob(os.path.join(V, 'selftest', 'edits_*.py'))):
        sp = importlib.util.spec_from_file_location('e', f)
        m = importlib.util.module_from_spec(sp)
        sp.loader.exec_module(m)
        for e in m.EDITS:
            out.append(e)
    return out


def run(e, ids, test, slot):
    name, file, old, new, wants = e
    d = '%s/%s' % (SCR, name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(['cp', '-a', os.environ.get('MUT_SRC', '/repo') + '/include', os.environ.get('MUT_SRC', '/repo') + '/src', d], check=True)
    olds, news, files = ([old], [new], [file]) if isinstance(old, str) else (old, new, file if isinstance(file, list) else [file] * len(old))
    for k, (fl, o, n) in enumerate(zip(files, olds, news)):
        fn = os.path.join(d, fl)
        s = open(fn).read()
        if s.count(o) != list(zip(files, olds))[k:].count((fl, o)):
            return name, 'EDIT DOES NOT APPLY (%d)' % s.count(o), {}
        open(fn, 'w').write(s.replace(o, n, 1))
    env = dict(os.environ, VERIF_REPO=d, VERIF_BUILD=d + '/b', VERIF_NOEV='1')
    res = {}
    for i in ids or wants:
        r = subprocess.run([sys.executable, V + '/sa/check.py', i], env=env, capture_output=True, text=True, cwd=V)
        res[i] = (r.returncode, r.stdout[-6000:] + r.stderr[-600:])
    if not os.environ.get('KEEP'):
        shutil.rmtree(d, ignore_errors=True)
    return name, '', res


def main():
    a = sys.argv[1:]
    ids, test, pat, v = [], False, '', False
    while a:
        x = a.pop(0)
        if x == '-c':
            ids = a.pop(0).split(',')
        elif x == '-v':
            v = True
        else:
            pat = x
    allids = sorted({w for e in edits() for w in e[4]})
    es = [e for e in edits() if re.search(pat, e[0])]
    bad = 0
    with ThreadPoolExecutor(3) as ex:
        def go(e):
            want = e[4]
            c = ids or (want if want else ALL())
            return run(e, c, test, 0)
        for e, (name, msg, res) in zip(es, ex.map(go, es)):
            want = e[4]
            line = []
            for i, (rc, out) in sorted(res.items()):
                exp = 1 if i in want else 0
                ok = rc == exp or (ids and rc == 1 and want and i not in want) 
                if not ok or (want and i in want and rc != 1):
                    bad += 1
                line.append('%s=%d%s' % (i, rc, '' if ok else ' <<<'))
                if (not ok or v) and rc != 0:
                    line.append('\n' + '\n'.join(x[:220] for x in out.split('\n')[:14]))
            print('%-40s %s %s' % (name, msg, ' '.join(line)), flush=True)
    print('unexpected:', bad)


def ALL():
    return [l['property'] for l in __import__('json').load(open(V + '/MANIFEST.json'))['checks']]


main()
