#!/usr/bin/env python3
"""Runs every check against refactorings that keep the behaviour (tools/refactor/*.diff): all must stay quiet.

quiet.py [NAME ...]     (checks can be chosen with CHECKS="C01 C02")
"""
import glob, json, os, subprocess, sys, time
V = '/verif'

def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)

def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'stable_tests', 'passing', 'pass', 'tests'):
        if k in b:
            return set(b[k])

def main():
    names = sys.argv[1:] or sorted(os.path.basename(p)[:-5] for p in glob.glob(f'{V}/tools/refactor/*.diff'))
    assert sh('git -C /repo status --porcelain -uno').stdout.strip() == ''
    props = os.environ.get('CHECKS', ' '.join(f'C{i:02d}' for i in range(1, 18))).split()
    for n in names:
        try:
            r = sh(f'git -C /repo apply {V}/tools/refactor/{n}.diff')
            if r.returncode:
                print(n, 'DOES NOT APPLY', r.stdout[:300], flush=True); continue
            r = sh('bash /opt/vp/build.sh')
            if r.returncode:
                print(n, 'BUILD FAILS', r.stdout[-1500:], flush=True); continue
            sh('bash /opt/vp/test.sh /tmp/o.json')
            o = json.load(open('/tmp/o.json'))
            missing = stable() - set(o.get('passed', o.get('pass', [])))
            if missing:
                print(n, 'fails tests', sorted(missing)[:3], flush=True)
            for p in props:
                t0 = time.time()
                r = sh(f'python3 check.py {p}', cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick'), timeout=1500)
                print(f'{n} {p} rc={r.returncode} {time.time()-t0:.0f}s', 'quiet' if r.returncode == 0 else 'ALARM', flush=True)
                if r.returncode:
                    open(f'/tmp/alarm.{n}.{p}.out', 'w').write(r.stdout)
                    for l in r.stdout.splitlines():
                        if l.startswith('  ') or 'VIOLATION' in l:
                            print('     ', l[:300], flush=True)
        finally:
            sh('git -C /repo checkout -- .')
    sh('bash /opt/vp/build.sh')

main()
