#!/usr/bin/env python3
"""Tries one planted change: plant.py ID...  (works in /tmp/plant only; /repo and /opt/vp are left alone)
   builds the unchanged and the changed slice, runs the demo against both, the stable tests against the changed
   one, and the property's check with VERIF_REPO pointing at the changed copy."""
import os, sys, json, subprocess, shutil, re, glob, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
import slice as sl
P = '/tmp/plant'


def build(repo, work, tests):
    s = sl.Slice(repo, work)
    os.makedirs(work, exist_ok=True)
    t = f'{work}/t'
    if not os.path.isdir(f'{t}/target'):
        s.cut()
    else:
        for cmd in (['python3', f'{sl.S}/manifests.py', repo, t], [f'{sl.S}/tool/target/release/subset', repo, t, f'{sl.S}/subset.conf', f'{sl.S}/words.txt']):
            subprocess.run(cmd, env=s.env, check=True, capture_output=True)
        for d, _, fs in os.walk(f'{t}/proto'):
            for f in [d] + [os.path.join(d, x) for x in fs]:
                os.utime(f, (1577836800, 1577836800))
    w = f'{P}/wrapper.sh'
    open(w, 'w').write(sl.WRAPPER)
    os.chmod(w, 0o755)
    e = dict(s.env, RUSTC_WRAPPER=w)
    p = subprocess.run(['cargo', 'build', '--workspace', '--lib', '--offline'], cwd=t, env=e, capture_output=True, text=True)
    if p.returncode:
        return p.stderr[-3000:]
    if tests:
        p = subprocess.run(['cargo', 'test', '--workspace', '--no-fail-fast', '--offline', '--', '--test-threads', '8'], cwd=t, env=e, capture_output=True, text=True)
        bad = sorted(set(re.findall(r'^test (\S+) \.\.\. FAILED', p.stdout, re.M)))
        n = len(re.findall(r'^test (\S+) \.\.\. ok', p.stdout, re.M))
        base = open('/opt/vp/BASELINE.json').read()
        bad = [b for b in bad if b.split('::')[-1] in base]
        if p.returncode and not n:
            return p.stderr[-3000:]
        return f'tests ok {n}, stable failed {bad}'
    return 'built'


def demo(d, work):
    e = dict(os.environ, SNAP_TREE=f'{work}/t')
    p = subprocess.run(['bash', f'{d}/demo.sh'], cwd='/repo', env=e, capture_output=True, text=True)
    return p.returncode, (p.stdout + p.stderr)[-1500:]


def main():
    os.makedirs(P, exist_ok=True)
    head = subprocess.check_output(['git', '-C', '/repo', 'rev-parse', 'HEAD'], text=True).strip()
    stamp = f'{P}/clean.head'
    if not os.path.exists(stamp) or open(stamp).read() != head:
        print('clean:', build('/repo', f'{P}/clean', False))
        open(stamp, 'w').write(head)
    notest = '--no-tests' in sys.argv
    for i in [a for a in sys.argv[1:] if a[0] != '-']:
        d = f'{V}/seeded/{i}'
        m = json.load(open(f'{d}/meta.json'))
        subprocess.run(['rsync', '-a', '--delete', '--exclude', 'target', '/repo/', f'{P}/repo/'] if shutil.which('rsync') else ['bash', '-c', f'rm -rf {P}/repo && cp -a /repo {P}/repo'], check=True)
        p = subprocess.run(['git', '-C', f'{P}/repo', 'apply', f'{d}/patch.diff'], capture_output=True, text=True)
        if p.returncode:
            print(i, 'APPLY', p.stderr)
            continue
        r = build(f'{P}/repo', f'{P}/bug', not notest)
        a, b = demo(d, f'{P}/clean'), demo(d, f'{P}/bug')
        e = dict(os.environ, VERIF_REPO=f'{P}/repo')
        t = time.time()
        c = subprocess.run(['python3', f'{V}/check.py', m['property']], env=e, capture_output=True, text=True, cwd=V)
        v = [l for l in c.stdout.splitlines() if 'VIOLATION' in l]
        ok = a[0] == 0 and b[0] != 0 and 'failed []' in r
        print(f'{i}: {"COUNTS" if ok else "BAD"} | {r} | demo clean {a[0]} changed {b[0]} | check {c.returncode} {v} {time.time()-t:.0f}s', flush=True)
        if a[0] or not b[0]:
            print('  clean:', a[1], '\n  changed:', b[1])
        elif '-v' in sys.argv:
            print(b[1], c.stdout)


main()
