#!/usr/bin/env python3
"""tools/mutate.py [-e] [name...]: try the one-line changes of tools/mutants.txt (breaking) or, with -e, tools/equal.txt
(behaviour-preserving) in a scratch copy of /repo and show which checks notice them.

format of the files:   == name props...
                       @ file
                       - old text
                       + new text      (several lines, several pairs)"""
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get('MUTW', '/tmp/mutwork')


def load(path):
    out = []
    f = None
    last = None
    for line in open(path).read().split('\n'):
        if line.startswith('=='):
            n, *props = line[2:].split()
            out.append((n, props, []))
            last = None
        elif line.startswith('@ '):
            f = line[2:].strip()
            last = None
        elif line.startswith('- ') or line == '-':
            if last != '-':
                out[-1][2].append([f, [], []])
            out[-1][2][-1][1].append(line[2:])
            last = '-'
        elif line.startswith('+ ') or line == '+':
            out[-1][2][-1][2].append(line[2:])
            last = '+'
    return out


def main():
    a = sys.argv[1:]
    eq = '-e' in a
    a = [x for x in a if x != '-e']
    allp = [x for x in a if x.startswith('C')]
    names = [x for x in a if not x.startswith('C')]
    muts = load(os.environ.get('MUTF') or os.path.join(here, 'tools', 'equal.txt' if eq else 'mutants.txt'))
    os.makedirs(W, exist_ok=True)
    bad = 0
    for n, props, edits in muts:
        if names and n not in names:
            continue
        if allp and not set(allp) & set(props) and not eq:
            continue
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', W + '/repo/'], check=True) \
            if shutil.which('rsync') else (shutil.rmtree(W + '/repo', ignore_errors=True),
                                           shutil.copytree('/repo', W + '/repo', ignore=shutil.ignore_patterns('target')))
        err = None
        for f, old, new in edits:
            p = os.path.join(W, 'repo', f)
            s = open(p).read()
            o, w = '\n'.join(old), '\n'.join(new)
            if s.count(o) != 1:
                err = 'old text found %d times in %s: %s' % (s.count(o), f, o[:60])
                break
            open(p, 'w').write(s.replace(o, w))
        if err:
            print(n, 'ERROR', err)
            continue
        e = dict(os.environ, VERIF_DEV_REPO=W + '/repo', VERIF_DEV_CACHE=W + 'cache', VERIF_DEV_EVIDENCE=W + '/ev')
        if eq:
            # build once, then every claimed check
            subprocess.run(['./check', '--setup'], cwd=here, env=e, capture_output=True)
            if os.environ.get('MUTALL'):
                # all of them in one process, one after another
                r = subprocess.run(['./check', 'all'], cwd=here, env=e, capture_output=True, text=True)
                lines = [l for l in (r.stdout + r.stderr).split('\n') if l.strip() and ': ok' not in l]
                bad += bool(r.returncode)
                print(('XXX  %s rc=%d %s' % (n, r.returncode, ' | '.join(l[:300] for l in lines[:4]))) if r.returncode else 'ok ' + n)
                sys.stdout.flush()
                continue
            ids = allp or [c["property"] for c in json.load(open(os.path.join(here, 'MANIFEST.json')))["checks"]]
            with ThreadPoolExecutor(6) as ex:
                rs = list(ex.map(lambda p: (p, subprocess.run(['./check', p], cwd=here, env=e, capture_output=True, text=True)), ids))
            for p, r in rs:
                if r.returncode:
                    bad += 1
                    lines = [l for l in (r.stdout + r.stderr).split('\n') if l.strip()]
                    print('XXX  %s %s rc=%d %s' % (n, p, r.returncode, ' | '.join(l[:300] for l in lines[:2])))
            print('ok' if not any(r.returncode for p, r in rs) else '--', n)
            sys.stdout.flush()
            continue
        ps = (allp or props) if eq else [p for p in props if not allp or p in allp]
        for p in ps:
            r = subprocess.run(['./check', p], cwd=here, env=e, capture_output=True, text=True)
            ok = (r.returncode == 0) if eq else (r.returncode == 1 and '  analysis at' not in r.stdout and '  anchor at' not in r.stdout)
            mark = 'ok' if ok else 'XXX'
            lines = [l for l in (r.stdout + r.stderr).split('\n') if l.strip()]
            bad += not ok
            print('%-4s %s %s rc=%d %s' % (mark, n, p, r.returncode, ' | '.join(l[:230] for l in lines[:1 if ok else 4])))
            sys.stdout.flush()
    print('unexpected:', bad)


main()
