#!/usr/bin/env python3
"""tryseed.py ID... - try planted changes against /repo: demo on the clean tree, build, tests, demo, check; undone afterwards."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, cwd='/repo', stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **k)


def tests():
    sh('bash /opt/vp/test.sh /tmp/tryseed.json')
    return open('/tmp/tryseed.json').read() if os.path.exists('/tmp/tryseed.json') else '?'


for i in sys.argv[1:]:
    d = V + '/seeded/' + i
    prop = json.load(open(d + '/meta.json'))['property']
    assert not sh('git status --porcelain').stdout.strip(), 'repo not clean'
    r = sh('bash %s/demo.sh' % d)
    print(i, prop, 'demo clean:', r.returncode, r.stdout[-300:] if r.returncode else '', flush=True)
    try:
        a = sh('git apply %s/patch.diff' % d)
        if a.returncode:
            print('  apply failed', a.stdout)
            continue
        b = sh('bash /opt/vp/build.sh')
        print('  build:', b.returncode, b.stdout[-1500:] if b.returncode else '', flush=True)
        t = tests()
        print('  tests failed:', json.loads(t).get('failed'), len(json.loads(t).get('passed', [])), 'passed', flush=True)
        r = sh('timeout 300 bash %s/demo.sh' % d)
        print('  demo patched:', r.returncode, r.stdout[-300:].strip(), flush=True)
        t0 = time.time()
        r = subprocess.run([sys.executable, V + '/run.py', prop, 'quick'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=dict(os.environ, VERIF_SEED='1'))
        print('  check:', r.returncode, '%.0fs' % (time.time() - t0), [x for x in r.stdout.splitlines() if x][-2:] if r.returncode else 'MISSED', flush=True)
    finally:
        sh('git checkout -- .')
sh('bash /opt/vp/build.sh')
