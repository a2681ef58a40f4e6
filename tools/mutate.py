#!/usr/bin/env python3
"""Mutation campaign (development tool, not used by any check).

mutate.py lines            record which checks execute which lines (/tmp/mut)
mutate.py run N SEED [J]   try N random mutants, J at a time
"""
import ast, glob, json, os, random, shutil, subprocess, sys, tempfile
import concurrent.futures

root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(root, 'tools'))
import seed as S

IDS = sorted(os.path.basename(p)[:3].upper() for p in glob.glob(root
    + '/vmon/checks/c[0-9][0-9].py'))
FIRST = {x[0]: x[1:] for x in map(str.split, '''
bravais.py C05 C06 C07 C08 C09 C19
diagrams.py C16 C17
dispersion.py C22 C07
dos.py C20 C21
el.py C10 C11 C18 C26
elel.py C15 C18
elph.py C14 C18 C26
eliashberg.py C21
md.py C17
misc.py C25 C18 C19
MPI.py C02
occupations.py C03 C04
ph.py C12 C13 C18 C26
plot.py C23
'''.strip().splitlines())}

def lines():
    for c in IDS:
        rc, out = S.sh('bash %s/check.sh %s' % (root, c), env=dict(VMON_LINES=
            '/tmp/mut/%s.lines' % c))
        print(c, rc, out.splitlines()[-1], flush=True)

def coverage():
    cov, time = {}, {}
    for c in IDS:
        try:
            for l in open('/tmp/mut/%s.lines' % c):
                f, n = l.strip().rsplit(':', 1)
                cov.setdefault((f.lstrip('/'), int(n)), []).append(c)
        except FileNotFoundError:
            pass
    return cov

def candidates(path):
    src = open(path).read()
    tree = ast.parse(src)
    ls = src.splitlines(keepends=True)
    start = [0]
    for l in ls:
        start.append(start[-1] + len(l.encode()))
    raw = src.encode()
    pos = lambda n: (start[n.lineno - 1] + n.col_offset,
        start[n.end_lineno - 1] + n.end_col_offset)
    seg = lambda n: raw[slice(*pos(n))].decode()
    out = []

    def add(node, new, kind, func):
        a, b = pos(node)
        old = raw[a:b].decode()
        if old != new:
            out.append(dict(a=a, b=b, old=old, new=new, kind=kind,
                line=node.lineno, stmt=cur[0], func=func))

    cur = [0]
    def visit(node, func):
        if isinstance(node, ast.stmt):
            cur[0] = node.lineno
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            func = (func + '.' + node.name).strip('.')
        if func:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                l, r = seg(node.left), seg(node.comparators[0])
                o = node.ops[0]
                m = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
                    ast.Eq: '!=', ast.NotEq: '==', ast.In: 'not in', ast.NotIn: 'in'}.get(type(o))
                if m:
                    add(node, '%s %s %s' % (l, m, r), 'compare', func)
            if isinstance(node, ast.BinOp):
                l, r = seg(node.left), seg(node.right)
                m = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*',
                    ast.FloorDiv: '/', ast.Mod: '//'}.get(type(node.op))
                if m and not isinstance(node.left, ast.Constant) or \
                        m and not isinstance(node.left.value, str):
                    a, b = pos(node.left)[1], pos(node.right)[0]
                    mid = raw[a:b].decode()
                    o = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/',
                        ast.FloorDiv: '//', ast.Mod: '%'}[type(node.op)]
                    p, q = pos(node)
                    i = mid.find(o)
                    new = raw[p:a].decode() + mid[:i] + m + mid[i + len(o):] + raw[b:q].decode()
                    add(node, new, 'binop', func)
                    if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
                        add(node, l if l.count('(') == l.count(')') else new, 'drop', func)
            if isinstance(node, ast.Constant):
                if node.value is True or node.value is False:
                    add(node, str(not node.value), 'bool', func)
                elif isinstance(node.value, int):
                    add(node, str(node.value + 1), 'int', func)
                elif isinstance(node.value, float) and node.value:
                    add(node, repr(node.value * 1.5), 'float', func)
            if isinstance(node, ast.Call):
                f = node.func
                if isinstance(f, ast.Attribute) and f.attr in ('conj', 'copy', 'T', 'transpose', 'astype', 'Barrier', 'Bcast'):
                    if f.attr in ('conj', 'copy') and not node.args:
                        add(node, seg(f.value), f.attr, func)
                if isinstance(f, ast.Name) and f.id in ('abs', 'round', 'sorted', 'list') and len(node.args) == 1:
                    add(node, seg(node.args[0]), f.id, func)
                if len(node.args) >= 2 and not any(isinstance(x, ast.Starred) for x in node.args[:2]) and not (isinstance(f, ast.Name) and f.id in ('info', 'print', 'range', 'isinstance')):
                    x, y = node.args[:2]
                    a, b = pos(x); c, d = pos(y); p, q = pos(node)
                    add(node, raw[p:a].decode() + seg(y) + raw[b:c].decode() + seg(x) + raw[d:q].decode(), 'swapargs', func)
                for kw in node.keywords:
                    pass
            if isinstance(node, ast.BoolOp):
                o, m = (' and ', ' or ') if isinstance(node.op, ast.And) else (' or ', ' and ')
                t = seg(node)
                if o in t:
                    add(node, t.replace(o, m, 1), 'boolop', func)
            if isinstance(node, ast.UnaryOp):
                if isinstance(node.op, (ast.Not, ast.USub)):
                    add(node, seg(node.operand), 'unary', func)
            if isinstance(node, (ast.If, ast.While)) and isinstance(node, ast.If):
                add(node.test, 'False', 'never', func)
                if not isinstance(node.test, ast.Compare) or True:
                    add(node.test, 'True', 'always', func)
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
                t = seg(node.value.func)
                if t not in ('info', 'print', 'print_status') and 'status' not in t:
                    add(node, 'pass', 'delete', func)
            if isinstance(node, ast.AugAssign):
                add(node, 'pass', 'delete', func)
            if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Subscript):
                add(node, 'pass', 'delete', func)
            if isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Tuple) and len(node.slice.elts) >= 2:
                x, y = node.slice.elts[-2:]
                if not isinstance(x, ast.Starred) and not isinstance(y, ast.Starred):
                    a, b = pos(x); c, d = pos(y); p, q = pos(node)
                    add(node, raw[p:a].decode() + seg(y) + raw[b:c].decode() + seg(x) + raw[d:q].decode(), 'swapindex', func)
        for child in ast.iter_child_nodes(node):
            if isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
                continue
            visit(child, func)
    visit(tree, '')
    return raw, out

def try_one(m, cov):
    d = S.copy()
    try:
        p = os.path.join(d, 'elphmod', m['file'])
        raw = open(p, 'rb').read()
        raw = raw[:m['a']] + m['new'].encode() + raw[m['b']:]
        try:
            ast.parse(raw)
        except SyntaxError:
            return dict(m, result='syntax')
        open(p, 'wb').write(raw)
        out = d + '.json'
        script = d + '.test.sh'
        open(script, 'w').write(open('/opt/vp/test.sh').read().replace('/repo', d))
        rc, log = S.sh('timeout -k 5 100 bash %s %s' % (script, out))
        try:
            res = json.load(open(out)); os.remove(out)
        except Exception:
            return dict(m, result='test')
        finally:
            os.remove(script)
        stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
        if set(stable) - set(res.get('passed', [])):
            return dict(m, result='test')
        checks = cov.get((m['file'], m['stmt'])) or cov.get((m['file'], m['line'])) or []
        checks = sorted(set(checks), key=lambda c: (c not in
            FIRST.get(m['file'], ()), c))
        if '/' in m['file'] or m['file'] == 'misc.py':
            checks = ['C25'] + [c for c in checks if c != 'C25']
        order = [c for c in checks if c not in ('C01', 'C24')] + [c for c in ('C24', 'C01') if c in checks]
        if len(order) > 7:
            order = [c for c in order if c not in ('C24', 'C01')][:6] + ['C24']
        for c in order:
            rc, log = S.sh('timeout -k 5 600 bash %s/check.sh %s --tier quick' % (root, c), env=dict(VMON_REPO=d, VERIF_SEED='1', VERIF_TIER='quick', VMON_EVIDENCE=d + '.ev'))
            if rc == 1:
                return dict(m, result='caught', by=c)
            if rc:
                return dict(m, result='noanswer%d' % rc, by=c)
        return dict(m, result='MISSED' if order else 'uncovered', checks=order)
    except Exception as e:
        return dict(m, result='error', detail=repr(e))
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(d + '.ev', ignore_errors=True)

def run(N, seed, J=2):
    rng = random.Random(seed)
    cov = coverage()
    funcs = {}
    for p in sorted(glob.glob('/repo/elphmod/**/*.py', recursive=True)):
        f = p.split('/repo/elphmod/')[1]
        raw, c = candidates(p)
        for m in c:
            m['file'] = f
            funcs.setdefault((f, m['func']), []).append(m)
    keys = sorted(funcs)
    weights = [len(funcs[k]) ** 0.5 for k in keys]
    picks = []
    while len(picks) < N:
        k = rng.choices(keys, weights)[0]
        m = rng.choice(funcs[k])
        if m not in picks:
            picks.append(m)
    log = open('/tmp/mut/log%d.jsonl' % seed, 'a')
    with concurrent.futures.ThreadPoolExecutor(J) as pool:
        for r in pool.map(lambda m: try_one(m, cov), picks):
            log.write(json.dumps(r) + '\n'); log.flush()
            if r['result'] not in ('syntax', 'test'):
                print(r['result'], r.get('by', ''), r['file'], r['func'], r['line'], r['kind'], repr(r['old'][:90]), '->', repr(r['new'][:90]), flush=True)

if __name__ == '__main__':
    if sys.argv[1] == 'lines':
        lines()
    else:
        run(int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4]) if len(sys.argv) > 4 else 2)
