#!/usr/bin/env python3
"""Build the harnesses a property needs from /repo's working tree and run them.

usage: run.py PROPERTY [quick|thorough]      one check (used by MANIFEST.json)
       run.py --replay FILE                  re-run a minimised failing case
       run.py --setup                        syntax/tool check, nothing is cached

Exit 0: held on everything explored. Exit 1: VIOLATION line printed.
Exit 2: the check itself could not run (build failure, harness error).
"""
import fcntl, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
BUILD = os.path.join(HERE, 'build')
from checks import GROUPS, PROPS   # noqa: E402  (checks.py: which harness decides what)

CXX = os.environ.get('VERIF_CXX', 'clang++')
COV = '-fsanitize-coverage=trace-pc-guard'
BASE = ['-std=gnu++17', '-g1', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address', '-Wno-everything',
        '-DSTRING_NAMES=1', '-DL1D_CACHE_LINE_SIZE=64', '-include', 'cstdint',
        '-I' + HERE + '/src', '-I' + HERE + '/stubs', '-I' + REPO, '-I' + REPO + '/raftinc']
LIBDEF = ['-DLIBCOMPILE=1', '-DRDTSCP=1']
SKIP = {'sysschedutil.cpp'}          # a program of its own / not part of the library


def tree_hash(roots):
    h = hashlib.sha256()
    for root in roots:
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('.git', '_build', 'build', 'evidence', 'seeded', '__pycache__'))
            for f in sorted(files):
                p = os.path.join(d, f)
                if os.path.islink(p) and not os.path.exists(p):
                    continue
                h.update(os.path.relpath(p, root).encode() + b'\0')
                with open(p, 'rb') as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    return h.hexdigest()


class BuildError(Exception):
    pass


def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode and 'PLEASE submit a bug report' in r.stdout:      # the compiler itself crashed (memory ran out): once more
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise BuildError(' '.join(cmd) + '\n' + r.stdout[-6000:])


def build(groups):
    """Compile library and harness groups; objects are reused only when every source byte is the same."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    key = hashlib.sha256((tree_hash([os.path.join(REPO, x) for x in sorted(os.listdir(REPO)) if os.path.isdir(os.path.join(REPO, x)) and x not in ('.git', '_build', 'testsuite', 'examples')])
                          + tree_hash([HERE + '/src', HERE + '/props', HERE + '/stubs']) + REPO + CXX + ' '.join(BASE)).encode()).hexdigest()[:16]
    out = os.path.join(BUILD, key)
    for old in os.listdir(BUILD):      # keep the cache small
        p = os.path.join(BUILD, old)
        if old not in (key, '.lock') and os.path.isdir(p) and time.time() - os.path.getmtime(p) > 7200:
            shutil.rmtree(p, ignore_errors=True)
    os.makedirs(out, exist_ok=True)
    jobs = []                          # (object, command)
    libobjs = []
    for f in sorted(os.listdir(REPO + '/src')):
        if f.endswith('.cpp') and f not in SKIP:
            o = out + '/lib_' + f[:-4] + '.o'
            libobjs.append(o)
            jobs.append((o, [CXX] + BASE + LIBDEF + [COV, '-c', REPO + '/src/' + f, '-o']))
    core = []
    for f in ('pbt', 'sched'):
        o = out + '/' + f + '.o'
        core.append(o)
        jobs.append((o, [CXX] + BASE + ['-c', HERE + '/src/' + f + '.cpp', '-o']))
    lib = out + '/libraft.a'
    bins = {}
    links = []
    for g in groups:
        objs = []
        for i, (src, flags) in enumerate(GROUPS[g]):
            o = '%s/%s_%d.o' % (out, g, i)
            objs.append(o)
            # a source under src/ of the repository replaces the library's object
            path, extra = (REPO + src[4:], LIBDEF) if src.startswith('REPO/') else (HERE + '/' + src, [])
            jobs.insert(0, (o, [CXX] + BASE + [COV] + extra + flags + ['-c', path, '-o']))
        bins[g] = out + '/' + g
        links.append((bins[g], [CXX, '-fsanitize=address'] + objs + core + [lib, '-lpthread', '-ldl', '-o']))

    def do(job):
        o, cmd = job
        if not os.path.exists(o):
            run(cmd + [o + '.tmp'])
            os.rename(o + '.tmp', o)
    with ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        for fut in [ex.submit(do, j) for j in jobs]:
            fut.result()
        if not os.path.exists(lib):
            run(['ar', 'rcs', lib + '.tmp'] + libobjs)
            os.rename(lib + '.tmp', lib)
        for fut in [ex.submit(do, j) for j in links]:
            fut.result()
    lock.close()
    return bins


def known_findings():
    known = {}
    with open(HERE + '/known_findings.txt') as f:
        for line in f:
            m = re.match(r'finding: property=(\S+) id=(\S+) (.*)', line)
            if m:
                known[m.group(2)] = (m.group(1), m.group(3).strip())
    return known


def env():
    e = dict(os.environ)
    e['ASAN_OPTIONS'] = 'detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=1:handle_abort=1:max_allocation_size_mb=4096:quarantine_size_mb=16'
    return e


def noaslr(cmd):
    return ['setarch', '-R'] + cmd if shutil.which('setarch') and subprocess.run(['setarch', '-R', 'true'], capture_output=True).returncode == 0 else cmd


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    p = PROPS[pid]
    bins = build(p['groups'])
    t_build = time.time() - t0
    ev = HERE + '/evidence'
    os.makedirs(ev + '/replay', exist_ok=True)
    for f in os.listdir(ev + '/replay'):
        if f.startswith(pid + '-'):
            os.unlink(ev + '/replay/' + f)
    known = known_findings()
    results, bad, rc_all = [], None, 0
    lim = 780 if tier == 'quick' else 6 * 3600
    tmp = tempfile.mkdtemp(prefix='verif-' + pid + '-')
    try:
        for g in p['groups']:
            out = tmp + '/out.json'
            cmd = noaslr([bins[g], '--prop', pid, '--seed', str(seed), '--tier', tier, '--scale', str(scale), '--tmp', tmp,
                          '--replays', ev + '/replay', '--out', out, '--workers', str(os.cpu_count() or 8),
                          '--budget', str(max(30, lim - (time.time() - t0)))])
            r = subprocess.run(cmd, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            sys.stdout.write(r.stdout)
            if r.returncode not in (0, 1) or not os.path.exists(out):
                print('harness error: exit', r.returncode)
                return 2
            with open(out) as f:
                results += json.load(f)['harnesses']
            os.unlink(out)
            if r.returncode == 1:
                break
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    violations = []
    for h in results:
        if h['known']:
            if h['violated']:
                if h['known'] in known and known[h['known']][0] == pid:
                    print('KNOWN-FINDING: property=%s %s' % (pid, known[h['known']][1]))
                else:
                    violations.append(h)
        elif h['violated']:
            violations.append(h)
    runs = [h for h in results if not h['known']]
    cov = {
        'evaluations': sum(h['evaluations'] for h in runs),
        'distinct_nontrivial': sum(h['distinct_nontrivial'] for h in runs),
        'rule': '; '.join('%s: %s' % (h['name'], h['rule']) for h in runs),
        'samples': [{'harness': h['name'], 'case': s} for h in runs for s in h['samples'][:3]],
        'harnesses': [{k: h[k] for k in ('name', 'evaluations', 'nontrivial', 'distinct_nontrivial', 'labels', 'incomplete', 'flaky')} for h in runs],
        'known_findings_checked': [{'id': h['known'], 'still_fails': h['violated']} for h in results if h['known']],
        'build_s': round(t_build, 1),
    }
    doc = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration', 'coverage': cov,
           'assumptions': p.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': len(violations)}
    with open('%s/%s.json' % (ev, pid), 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    for h in violations:
        print('%s: %s' % (h['name'], h['msg'].split('\n')[0]))
        print('VIOLATION property=%s replay=%s' % (pid, h['replay']))
    if violations:
        return 1
    vac = [h['name'] for h in runs if h['distinct_nontrivial'] == 0]
    if vac:
        print('harness error: no non-trivial case generated by ' + ', '.join(vac))
        return 2
    return 0


def main():
    a = sys.argv[1:]
    if a and a[0] == '--setup':
        for t in (CXX,):
            if not shutil.which(t):
                print('missing tool', t)
                return 2
        print('tools present; every check builds what it needs from', REPO)
        return 0
    try:
        if a and a[0] == '--replay':
            with open(a[1]) as f:
                head = dict(line.split(None, 1) for line in f.read().split('\n\n')[0].splitlines() if ' ' in line)
            bins = build(PROPS[head['property']]['groups'])
            rc = 0
            for g in PROPS[head['property']]['groups']:
                r = subprocess.run(noaslr([bins[g], '--replay', a[1]]), env=env())
                if r.returncode in (0, 1):
                    return r.returncode
                rc = r.returncode
            return rc
        return check(a[0], a[1] if len(a) > 1 else os.environ.get('VERIF_TIER', 'quick'))
    except BuildError as e:
        print('build failed:\n' + str(e))
        return 2


if __name__ == '__main__':
    sys.path.insert(0, HERE)
    sys.exit(main())
