#!/usr/bin/env python3
"""Planted bugs: definitions in tools/bugs/*.py (lists BUGS), results in /verif/seeded.
  plant.py make ID...   writes seeded/ID from its definition
  plant.py try ID...    clean demo, patched build, stable tests, demo, the property's check; prints one line
  plant.py check ID...  only the property's check on the patched tree
PLANT_REPO and PLANT_VERIF name the trees it works on (copies leave /repo alone while it runs)."""
import glob, importlib.util, json, os, subprocess, sys, time
R, V = os.environ.get('PLANT_REPO', '/repo'), os.environ.get('PLANT_VERIF', '/verif')
def script(name):
    """The build and test scripts, for the tree it works on."""
    if R == '/repo': return f'/opt/vp/{name}'
    d = f'{R}/../vp-' + os.path.basename(R); os.makedirs(d, exist_ok=True); d = os.path.realpath(d)
    for n in ('env.sh', 'build.sh', 'test.sh'):
        s = open(f'/opt/vp/{n}').read().replace('. /opt/vp/env.sh', f'. {d}/env.sh').replace('cd /repo', f'cd {R}')
        s = s.replace('/opt/vp/logs', d + '/logs').replace('/repo/target', f'{R}/target').replace('/1.bin', os.path.realpath(f'{R}/..') + '/1.bin')
        open(f'{d}/{n}', 'w').write(s)
    return f'{d}/{name}'
def sh(cmd, cwd=None, env=None, t=1000):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return p.returncode, p.stdout
def bugs():
    out = {}
    for f in sorted(glob.glob(f'{V}/tools/bugs/*.py')):
        s = importlib.util.spec_from_file_location('b', f); m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
        for b in m.BUGS: out[b['id']] = b
    return out
def clean(): sh(['git', '-C', R, 'checkout', '--', '.'])
def make(b):
    clean()
    for f, old, new in b['edits']:
        p = f'{R}/{f}'; s = open(p).read()
        assert s.count(old) == 1, (b['id'], f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    _, d = sh(['git', '-C', R, 'diff'])
    for f, old, new in b['edits']:
        # the lines it changes have to be the repository's own
        orig = set(sh(['git', '-C', R, 'show', f'438b2a7:{f}'])[1].splitlines())
        gone = [l[1:] for l in sh(['git', '-C', R, 'diff', '--', f])[1].splitlines() if l.startswith('-') and not l.startswith('---')]
        if not gone or any(l not in orig for l in gone): print('NOT ORIGINAL', b['id'], [l for l in gone if l not in orig])
    clean()
    o = f'{V}/seeded/{b["id"]}'; os.makedirs(o, exist_ok=True)
    open(o + '/patch.diff', 'w').write(d)
    t = open(f'{V}/tools/demo.sh.tpl').read().replace('@FLAGS@', '--cfg verif_hooks' if b.get('hooks', True) else '')
    open(o + '/demo.sh', 'w').write(t); os.chmod(o + '/demo.sh', 0o755)
    open(o + '/demo.rs', 'w').write(b['demo'].lstrip('\n'))
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(o + '/meta.json', 'w'), indent=1)
def check(b):
    t = time.time()
    rc, out = sh(['python3', 'bin/check.py', b['property']], cwd=V, env=dict(os.environ, VERIF_SEED='1', VERIF_TIER='quick', VERIF_REPO=R))
    v = [l for l in out.splitlines() if l.startswith('VIOLATION property=' + b['property'])]
    return rc == 1 and bool(v), f'check rc={rc} {v[0] if v else out.strip().splitlines()[-1:]} {time.time()-t:.0f}s'
def attempt(b, full=True):
    o = f'{V}/seeded/{b["id"]}'; msg = []; ok = True
    if full:
        rc, out = sh(['bash', o + '/demo.sh'], cwd=R, t=400)
        msg.append(f'clean demo {rc}'); ok &= rc == 0
        if rc: print(out[-1500:])
    rc, out = sh(['git', '-C', R, 'apply', o + '/patch.diff']); assert rc == 0, out
    try:
        if full:
            rc, out = sh(['bash', script('build.sh')]); msg.append(f'build {rc}'); ok &= rc == 0
            if rc: print(out[-1500:]); return
            sh(['bash', script('test.sh'), f'{V}/.work/plant-test.json'])
            base = json.load(open('/opt/vp/BASELINE.json')); got = json.load(open(f'{V}/.work/plant-test.json'))
            stable = base.get('stable') or base.get('passed') or base
            bad = [x for x in stable if x not in set(got['passed'])]
            msg.append(f'tests lost {len(bad)} {bad[:3]}'); ok &= not bad
            t = time.time(); rc, out = sh(['bash', o + '/demo.sh'], cwd=R, t=400)
            msg.append(f'patched demo {rc} {time.time()-t:.0f}s'); ok &= rc not in (0, 2)
            msg.append(out.strip()[-200:].replace('\n', ' / '))
        caught, m = check(b); msg.append(m)
    finally:
        clean()
    print(('VALID ' if ok else 'INVALID ') + ('CAUGHT ' if caught else 'MISSED ') + b['id'] + ' ' + b['property'] + ': ' + '; '.join(msg), flush=True)
if __name__ == '__main__':
    bs = bugs(); ids = sys.argv[2:] or list(bs)
    for i in ids:
        if sys.argv[1] == 'make': make(bs[i])
        elif sys.argv[1] == 'try': make(bs[i]); attempt(bs[i])
        else: attempt(bs[i], False)
