#!/usr/bin/env python3
"""Create and verify planted bugs (development tool, not used by any check).

seed.py make SPEC.py...    write seeded/<id>/ from spec files and verify them
seed.py verify [ID...]     verify planted bugs in a scratch copy of /repo
seed.py catch [ID...]      run the check of the property against the bug
seed.py rebase [ID...]     refresh patches against the current HEAD of /repo
"""
import json, os, re, shutil, subprocess, sys, tempfile, concurrent.futures

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
seeded = os.path.join(root, 'seeded')

def sh(cmd, cwd=None, env=None, timeout=900):
    e = dict(os.environ); e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=timeout,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as t:
        return 124, str(t.stdout)

def copy():
    d = tempfile.mkdtemp(prefix='seed.', dir='/tmp')
    os.rmdir(d)
    shutil.copytree('/repo', d, symlinks=True,
        ignore=shutil.ignore_patterns('__pycache__'))
    return d

def build(d):
    s = open('/opt/vp/build.sh').read().replace('/repo', d)
    return sh('bash -c %s' % q(s))

def q(s):
    import shlex
    return shlex.quote(s)

def tests(d):
    out = d + '.json'
    script = d + '.test.sh'
    open(script, 'w').write(open('/opt/vp/test.sh').read().replace('/repo', d))
    rc, log = sh('bash %s %s' % (script, out))
    stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
    res = json.load(open(out))
    os.remove(out); os.remove(script)
    passed = set(res.get('passed', []))
    return [t for t in stable if t not in passed]

def demo(id, d):
    e = tempfile.mkdtemp(prefix='demo.', dir='/tmp')
    t = os.path.join(e, 'x')
    shutil.copytree(os.path.join(seeded, id), t)
    for f in os.listdir(t):
        if f.endswith(('.diff', '.patch')) or f == 'meta.json':
            os.remove(os.path.join(t, f))
    r = sh('bash %s/demo.sh' % t, cwd=d, timeout=300)
    shutil.rmtree(e)
    return r

def verify(id, test=True):
    d = copy()
    try:
        rc0, out0 = demo(id, d)
        rc, out = sh('git apply %s/%s/patch.diff' % (seeded, id), cwd=d)
        if rc: return id, 'DOES NOT APPLY ' + out
        rc1, out1 = demo(id, d)
        rc, out = build(d)
        msg = []
        if rc0: msg.append('DEMO FAILS ON BASE: ' + out0[-800:])
        if not rc1: msg.append('DEMO PASSES WITH BUG: ' + out1[-800:])
        if rc: msg.append('BUILD: ' + out[-800:])
        if test:
            bad = tests(d)
            if bad: msg.append('TESTS BROKEN: %s' % bad[:5])
        return id, '; '.join(msg) or 'ok (%s)' % out1.strip()[-150:]
    finally:
        shutil.rmtree(d)

def catch(id, seed=1):
    d = copy()
    try:
        prop = json.load(open('%s/%s/meta.json' % (seeded, id)))['property']
        rc, out = sh('git apply %s/%s/patch.diff' % (seeded, id), cwd=d)
        if rc: return id, prop, 'DOES NOT APPLY'
        rc, out = sh('bash %s/check.sh %s --tier quick' % (root, prop),
            env=dict(VMON_REPO=d, VERIF_SEED=str(seed), VERIF_TIER='quick'))
        lines = [l for l in out.splitlines() if 'VIOLATION' in l]
        return id, prop, rc, lines[:2]
    finally:
        shutil.rmtree(d)

def make(spec):
    g = {}
    exec(open(spec).read(), g)
    id = os.path.basename(spec)[:-3]
    d = copy()
    try:
        for f, old, new in g['EDITS']:
            p = os.path.join(d, f)
            s = open(p).read()
            n = s.count(old)
            if n != g.get('COUNT', 1):
                return id, 'old text found %d times in %s' % (n, f)
            open(p, 'w').write(s.replace(old, new))
        rc, diff = sh('git diff', cwd=d)
    finally:
        shutil.rmtree(d)
    t = os.path.join(seeded, id)
    os.makedirs(t, exist_ok=True)
    open(t + '/patch.diff', 'w').write(diff)
    open(t + '/demo.py', 'w').write(g['DEMO'].lstrip('\n'))
    n = g.get('NP', 1)
    open(t + '/demo.sh', 'w').write(SH if n == 1 else SH.replace(
        'timeout 250 ', 'timeout 250 mpirun --oversubscribe -n %d ' % n))
    json.dump(dict(property=g['PROPERTY'], needs=g['NEEDS'],
        what_it_breaks=g['BREAKS']), open(t + '/meta.json', 'w'), indent=1)
    return verify(id)

SH = '''#!/bin/bash
# Run in the root of the repository: 0 if the property holds, 1 otherwise.
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH=$PWD
export OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1
export OMPI_MCA_btl=self,vader OMPI_MCA_btl_vader_single_copy_mechanism=none
export OMPI_MCA_pml=ob1 OMPI_MCA_plm=isolated
scratch=$(mktemp -d) || exit 2
trap 'rm -rf "$scratch"' EXIT
export MPLCONFIGDIR=$scratch/mpl TMPDIR=$scratch
timeout 250 /opt/venv/bin/python -W ignore "$here/demo.py" "$scratch"
'''

def rebase(id):
    """Re-create patch by three-way application."""
    d = copy()
    try:
        rc, out = sh('git apply --3way %s/%s/patch.diff && git reset -q'
            % (seeded, id), cwd=d)
        if rc: return id, out
        rc, diff = sh('git diff', cwd=d)
        open('%s/%s/patch.diff' % (seeded, id), 'w').write(diff)
        return id, 'refreshed'
    finally:
        shutil.rmtree(d)

if __name__ == '__main__':
    mode, args = sys.argv[1], sys.argv[2:]
    if mode == 'make':
        jobs = [(make, a) for a in args]
    else:
        f = dict(verify=verify, catch=catch, rebase=rebase)[mode]
        jobs = [(f, a) for a in args or sorted(os.listdir(seeded))]
    n = 1 if mode == 'catch' else 4
    with concurrent.futures.ThreadPoolExecutor(n) as pool:
        for r in pool.map(lambda j: j[0](j[1]), jobs):
            print(*r, flush=True)
