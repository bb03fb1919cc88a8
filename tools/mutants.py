#!/usr/bin/env python3
"""Runs the checks against small changes of /repo (kept apart from the planted bugs, which have demonstrations).

mutants.py FILE [ids]   applies each of the changes to /repo in turn, runs the tests and the property's check,
                        and puts /repo back.
"""
import json, os, subprocess, sys, time, runpy
V = '/verif'; R = '/repo'

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def clean():
    sh('git -C /repo checkout -- .')

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_tests', 'passing', 'pass', 'tests'):
        if k in b:
            return set(b[k])

def main():
    muts = runpy.run_path(sys.argv[1])['MUTANTS']
    ids = sys.argv[2:]
    assert sh('git -C /repo status --porcelain -uno').stdout.strip() == ''
    for m in muts:
        if ids and m['id'] not in ids:
            continue
        try:
            for f, old, new in m['edits']:
                p = f'{R}/{f}'
                s = open(p).read()
                n = s.count(old)
                if n != 1:
                    print(m['id'], f'EDIT matches {n} times', repr(old[:60]), flush=True)
                    break
                open(p, 'w').write(s.replace(old, new))
            else:
                r = sh('bash /opt/vp/build.sh')
                if r.returncode:
                    print(m['id'], 'BUILD FAILS', r.stdout[-1500:], flush=True); continue
                sh('bash /opt/vp/test.sh /tmp/o.json')
                o = json.load(open('/tmp/o.json'))
                missing = stable() - set(o.get('passed', o.get('pass', [])))
                if missing:
                    print(m['id'], 'killed by the tests', sorted(missing)[:2], flush=True)
                    if not os.environ.get('ANYWAY'):
                        continue
                for p in m['prop'].split():
                    t0 = time.time()
                    r = sh(f'python3 check.py {p}', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1500)
                    vs = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
                    ms = [l.strip() for l in r.stdout.splitlines() if p in l and ('VIOL' in l or ': ' in l)]
                    print(f"{m['id']}: {p} rc={r.returncode} {time.time()-t0:.0f}s", 'CAUGHT' if r.returncode == 1 and vs else 'MISSED',
                          [l for l in r.stdout.splitlines() if 'violat' in l.lower() or l.startswith('  ')][-1:] , flush=True)
                    if r.returncode not in (0, 1):
                        print(r.stdout[-1500:])
        finally:
            clean()
    sh('bash /opt/vp/build.sh')

main()
