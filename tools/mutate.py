"""mutate.py OUT.jsonl [--n N per function] [--jobs J] [--seed S] [--only REGEX]
Small syntactic changes to the functions the checks encode, each run against the checks naming that function;
changes no check reports are listed for reading (equivalent, or a gap)."""
import argparse
import ast
import copy
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
PY = '/opt/venv/bin/python'


def find(tree, qual):
    cls, fn = qual.split('.')
    for c in tree.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == fn:
                    return f


def sites(fn):
    """list of (description, mutator(node)) over nodes of the function, addressed by walk index"""
    out = []
    nodes = list(ast.walk(fn))
    attrs = sorted({n.attr for n in nodes if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == 'self'})
    for i, n in enumerate(nodes):
        if isinstance(n, ast.BinOp):
            sw = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult}.get(type(n.op))
            if sw:
                out.append((i, 'op', sw.__name__))
        elif isinstance(n, ast.Compare) and len(n.ops) == 1:
            sw = {ast.Lt: 'Gt', ast.Gt: 'Lt', ast.LtE: 'GtE', ast.GtE: 'LtE', ast.Eq: 'NotEq', ast.NotEq: 'Eq'}.get(type(n.ops[0]))
            if sw:
                out.append((i, 'cmp', sw))
            sw = {ast.Lt: 'LtE', ast.Gt: 'GtE', ast.LtE: 'Lt', ast.GtE: 'Gt'}.get(type(n.ops[0]))
            if sw:
                out.append((i, 'edge', sw))
        elif isinstance(n, ast.Constant) and type(n.value) in (int, float):
            out.append((i, 'const', n.value + 1 if type(n.value) is int else n.value * 1.07 + (n.value == 0)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            out.append((i, 'neg', None))
        elif isinstance(n, ast.BoolOp):
            out.append((i, 'bool', None))
        elif isinstance(n, ast.Call) and len(n.args) >= 2:
            k = len(n.args) - 2
            if ast.dump(n.args[k]) != ast.dump(n.args[k + 1]):
                out.append((i, 'swap', k))
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id == 'self' and len(attrs) > 1:
            near = [a for a in attrs if a != n.attr and (a[:3] == n.attr[:3] or a[-3:] == n.attr[-3:])]
            if near:
                out.append((i, 'attr', near[i % len(near)]))
        elif isinstance(n, (ast.If, ast.For, ast.While, ast.FunctionDef)):
            for j, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign)) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call)):
                    if isinstance(s, ast.Assign) and not isinstance(s.targets[0], (ast.Attribute, ast.Subscript)):
                        continue
                    out.append((i, 'drop', j))
    return out


def apply(fn, site):
    i, kind, x = site
    n = list(ast.walk(fn))[i]
    if kind == 'op':
        n.op = getattr(ast, x)()
    elif kind in ('cmp', 'edge'):
        n.ops = [getattr(ast, x)()]
    elif kind == 'const':
        n.value = x
    elif kind == 'neg':
        n.op = ast.UAdd()
    elif kind == 'bool':
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif kind == 'swap':
        n.args[x], n.args[x + 1] = n.args[x + 1], n.args[x]
    elif kind == 'attr':
        n.attr = x
    elif kind == 'drop':
        n.body[x] = ast.Pass()
    return getattr(n, 'lineno', fn.lineno)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('out')
    ap.add_argument('--n', type=int, default=4)
    ap.add_argument('--jobs', type=int, default=3)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--only', default='.')
    a = ap.parse_args()
    import run
    reg = run.load_checks()
    cov = {}
    for p, hs in reg.REG.items():
        for h in hs:
            for f in h.funcs:
                cov.setdefault(f, []).append(p)
    src = {}
    for f in os.listdir('/repo/AMAT'):
        if f.endswith('.py'):
            src[f] = open('/repo/AMAT/' + f).read()
    work = []
    rng = random.Random(a.seed)
    for q in sorted(cov):
        if not re.search(a.only, q):
            continue
        for f, t in src.items():
            tree = ast.parse(t)
            fn = find(tree, q)
            if fn is None:
                continue
            fn.body = [s for s in fn.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))] or fn.body
            ss = sites(fn)
            rng.shuffle(ss)
            for s in ss[:a.n]:
                t2 = ast.parse(t)
                g = find(t2, q)
                g.body = [z for z in g.body if not (isinstance(z, ast.Expr) and isinstance(z.value, ast.Constant))] or g.body
                before = ast.unparse(g).splitlines()
                ln = apply(g, s)
                ast.fix_missing_locations(t2)
                after = ast.unparse(g).splitlines()
                diff = [(x.strip(), y.strip()) for x, y in zip(before, after) if x != y][:1] if len(before) == len(after) else [('%d lines' % len(before), '%d lines' % len(after))]
                if not diff:
                    continue
                work.append((q, f, s, ln, diff[0], ast.unparse(t2), sorted(set(cov[q]))))
    print(len(work), 'mutants', flush=True)
    lock = threading.Lock()
    outf = open(a.out, 'a')

    def worker():
        while True:
            with lock:
                if not work:
                    return
                q, f, s, ln, diff, text, props = work.pop(0)
            d = tempfile.mkdtemp(prefix='mut.', dir='/tmp')
            try:
                os.makedirs(d + '/repo')
                for e in os.listdir('/repo'):
                    if e not in ('AMAT', '.git', 'plots'):
                        os.symlink('/repo/' + e, d + '/repo/' + e)
                os.makedirs(d + '/repo/plots')
                shutil.copytree('/repo/AMAT', d + '/repo/AMAT', ignore=shutil.ignore_patterns('__pycache__'))
                open(d + '/repo/AMAT/' + f, 'w').write(text)
                res = {}
                for p in props:
                    try:
                        c = subprocess.run([PY, HERE + '/run.py', p], cwd=d + '/repo', env=dict(os.environ, AMAT_REPO=d + '/repo', VERIF_EVID=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'),
                                           capture_output=True, text=True, timeout=900)
                        res[p] = [c.returncode, (c.stdout.splitlines() or [''])[-1][-110:]]
                        inc = [l[:160] for l in c.stdout.splitlines() if l.startswith('INCONC')]
                        if inc:
                            res[p].append(inc[:2])
                    except subprocess.TimeoutExpired:
                        res[p] = [124, '']
                    if res[p][0] == 1:
                        break
                rec = dict(func=q, kind=s[1], line=ln, before=diff[0], after=diff[1], result=res, caught=any(r[0] == 1 for r in res.values()))
                with lock:
                    outf.write(json.dumps(rec) + '\n')
                    outf.flush()
            finally:
                shutil.rmtree(d, ignore_errors=True)
    th = [threading.Thread(target=worker) for _ in range(a.jobs)]
    [t.start() for t in th]
    [t.join() for t in th]


if __name__ == '__main__':
    main()
