"""refactor.py NAME... [--props P,..]: behaviour-preserving rewrites of all of AMAT (in a scratch copy); every check must stay quiet."""
import ast
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'


def np_call(n, name):
    f = n.func
    return isinstance(n, ast.Call) and isinstance(f, ast.Attribute) and f.attr == name and isinstance(f.value, ast.Name) and f.value.id == 'np'


def parse(s):
    return ast.parse(s, mode='eval').body


class T(ast.NodeTransformer):
    pass


class Rename(T):
    """local variables get other names"""
    def visit_FunctionDef(self, f):
        args = {a.arg for a in f.args.args + f.args.kwonlyargs}
        loc = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} - args
        for n in ast.walk(f):
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
                return f
        for n in ast.walk(f):
            if isinstance(n, ast.Name) and n.id in loc:
                n.id = n.id + '_r'
        return f


class Commute(T):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(x, (ast.List, ast.Constant)) and (isinstance(x, ast.List) or isinstance(x.value, str)) for x in (n.left, n.right)) \
                and not any(isinstance(c, ast.Constant) and isinstance(c.value, str) or isinstance(c, (ast.List, ast.Call)) and getattr(getattr(c, 'func', None), 'id', '') == 'str' for c in ast.walk(n)):
            n.left, n.right = n.right, n.left
        return n


class Square(T):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Pow) and isinstance(n.right, ast.Constant) and n.right.value == 2:
            return ast.BinOp(n.left, ast.Mult(), n.left)
        return n


class IfFlip(T):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            return ast.If(ast.UnaryOp(ast.Not(), n.test), n.orelse, n.body)
        return n


class Temp(T):
    """self.x = e  ->  tmp = e; self.x = tmp"""
    def visit_Assign(self, n):
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute) and not isinstance(n.value, ast.Constant):
            return [ast.Assign([ast.Name('tmp_value', ast.Store())], n.value), ast.Assign(n.targets, ast.Name('tmp_value', ast.Load()))]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.generic_visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]
        return n


class Math(T):
    """other spellings of the same numpy operations"""
    def visit_Call(self, n):
        self.generic_visit(n)
        if np_call(n, 'dot') and len(n.args) == 2:
            return ast.BinOp(ast.Call(parse('np.asarray'), [n.args[0]], []), ast.MatMult(), ast.Call(parse('np.asarray'), [n.args[1]], []))
        if np_call(n, 'matmul') and len(n.args) == 2:
            return ast.BinOp(n.args[0], ast.MatMult(), n.args[1])
        if np_call(n, 'append') and len(n.args) == 2 and not n.keywords:
            return ast.Call(parse('np.concatenate'), [ast.Tuple([n.args[0], ast.Call(parse('np.atleast_1d'), [n.args[1]], [])], ast.Load())], [])
        return n

    def visit_Attribute(self, n):
        self.generic_visit(n)
        if isinstance(n.value, ast.Name) and n.value.id == 'np' and n.attr == 'pi':
            return parse('math.pi')
        return n


class Norm(T):
    def visit_Call(self, n):
        self.generic_visit(n)
        if np_call(n, 'norm') or (isinstance(n.func, ast.Attribute) and n.func.attr == 'norm' and len(n.args) == 1 and not n.keywords):
            a = n.args[0]
            return ast.Call(parse('np.sqrt'), [ast.Call(parse('np.dot'), [a, a], [])], [])
        return n


class Radians(T):
    """x*np.pi/180 -> np.radians(x); x*180/np.pi -> np.degrees(x)"""
    def visit_BinOp(self, n):
        self.generic_visit(n)
        s = ast.unparse
        if isinstance(n.op, ast.Div) and s(n.right) == '180' and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) and s(n.left.right) == 'np.pi':
            return ast.Call(parse('np.radians'), [n.left.left], [])
        if isinstance(n.op, ast.Div) and s(n.right) == 'np.pi' and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult) and s(n.left.right) == '180':
            return ast.Call(parse('np.degrees'), [n.left.left], [])
        return n


class Keyword(T):
    """self.f(a, b) -> self.f(p=a, q=b)"""
    def visit_Module(self, m):
        self.sig = {}
        for c in m.body:
            if isinstance(c, ast.ClassDef):
                for f in c.body:
                    if isinstance(f, ast.FunctionDef):
                        self.sig.setdefault(f.name, []).append([a.arg for a in f.args.args][1:])
        return self.generic_visit(m)

    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'self' and len(self.sig.get(f.attr, [])) == 1 and not any(isinstance(a, ast.Starred) for a in n.args):
            names = self.sig[f.attr][0]
            if len(n.args) <= len(names):
                n.keywords = [ast.keyword(k, a) for k, a in zip(names, n.args)] + n.keywords
                n.args = []
        return n


class Helper(T):
    """the body of every method moves into a helper method"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and not f.args.vararg and not f.args.kwarg and f.name != '__init__' and not f.decorator_list and f.name != 'hit_EFPA_90' \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(f)):
                names = [a.arg for a in f.args.args]
                g = ast.FunctionDef('_' + f.name + '_body', ast.arguments([], [ast.arg(a) for a in names], None, [], [], None, []), f.body, [])
                f.body = [ast.Return(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), g.name, ast.Load()), [ast.Name(a, ast.Load()) for a in names[1:]], []))]
                out.append(g)
            out.append(f)
        c.body = out
        return c


class Init(T):
    """constructors split in two"""
    def visit_ClassDef(self, c):
        out = []
        for f in c.body:
            if isinstance(f, ast.FunctionDef) and f.name == '__init__' and not f.args.vararg and not f.args.kwarg \
                    and not any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in ast.walk(f)):
                names = [a.arg for a in f.args.args]
                g = ast.FunctionDef('_setup', ast.arguments([], [ast.arg(a) for a in names], None, [], [], None, []), f.body, [])
                f.body = [ast.Expr(ast.Call(ast.Attribute(ast.Name('self', ast.Load()), '_setup', ast.Load()), [ast.Name(a, ast.Load()) for a in names[1:]], []))]
                out.append(g)
            out.append(f)
        c.body = out
        return c


class Alias(T):
    """planet = self.planetObj"""
    def visit_FunctionDef(self, f):
        uses = [n for n in ast.walk(f) if isinstance(n, ast.Attribute) and n.attr == 'planetObj' and isinstance(n.value, ast.Name) and n.value.id == 'self']
        if len(uses) < 2 or any(isinstance(n.ctx, ast.Store) for n in uses) or f.name == '__init__' or any(isinstance(n, ast.Name) and n.id == 'planet_alias' for n in ast.walk(f)):
            return f

        class R(T):
            def visit_Attribute(self, n):
                self.generic_visit(n)
                if n.attr == 'planetObj' and isinstance(n.value, ast.Name) and n.value.id == 'self':
                    return ast.Name('planet_alias', ast.Load())
                return n
        R().generic_visit(f)
        f.body.insert(1 if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else 0,
                      ast.Assign([ast.Name('planet_alias', ast.Store())], parse('self.planetObj')))
        return f


class Loops(T):
    """for x in range(...) -> while"""
    def visit_For(self, n):
        self.generic_visit(n)
        if isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range' and isinstance(n.target, ast.Name) and not n.orelse \
                and not any(isinstance(x, ast.Continue) for x in ast.walk(n)) and len(n.iter.args) <= 2:
            lo, hi = ([ast.Constant(0)] + n.iter.args)[-2:]
            i = n.target.id
            c = '_c_' + i
            return [ast.Assign([ast.Name(c, ast.Store())], lo), ast.Assign([ast.Name('_hi_' + i, ast.Store())], hi),
                    ast.While(ast.Compare(ast.Name(c, ast.Load()), [ast.Lt()], [ast.Name('_hi_' + i, ast.Load())]),
                              [ast.Assign([ast.Name(i, ast.Store())], ast.Name(c, ast.Load()))] + n.body + [ast.AugAssign(ast.Name(c, ast.Store()), ast.Add(), ast.Constant(1))], [])]
        if not n.orelse and isinstance(n.target, ast.Name):
            n.iter = ast.Call(ast.Name('list', ast.Load()), [n.iter], [])
        return n


class Return(T):
    def visit_Return(self, n):
        if n.value is None or isinstance(n.value, (ast.Name, ast.Constant)):
            return n
        return [ast.Assign([ast.Name('result', ast.Store())], n.value), ast.Return(ast.Name('result', ast.Load()))]


class Cmp(T):
    """a < b -> b > a"""
    def visit_Compare(self, n):
        self.generic_visit(n)
        sw = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq}
        if len(n.ops) == 1 and type(n.ops[0]) in sw:
            return ast.Compare(n.comparators[0], [sw[type(n.ops[0])]()], [n.left])
        return n


class Distribute(T):
    """-x -> -1.0*x ; a/b -> a*(1.0/b)?  (division by a constant power of ten only)"""
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.USub) and not isinstance(n.operand, ast.Constant):
            return ast.BinOp(ast.Constant(-1.0), ast.Mult(), n.operand)
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Sub):
            return ast.BinOp(n.left, ast.Add(), ast.UnaryOp(ast.USub(), n.right))
        return n


ALL = [Rename, Commute, Square, IfFlip, Temp, Math, Norm, Radians, Keyword, Helper, Init, Alias, Loops, Return, Cmp, Distribute]


def main():
    a = sys.argv[1:]
    props = None
    if '--props' in a:
        k = a.index('--props')
        props = a[k + 1].split(',')
        del a[k:k + 2]
    names = a or [t.__name__ for t in ALL]
    import json
    if props is None:
        props = [c['property'] for c in json.load(open(HERE + '/MANIFEST.json'))['checks']]
    for nm in names:
        d = tempfile.mkdtemp(prefix='ref.', dir='/tmp')
        try:
            os.makedirs(d + '/repo/plots')
            for e in os.listdir('/repo'):
                if e not in ('AMAT', '.git', 'plots'):
                    os.symlink('/repo/' + e, d + '/repo/' + e)
            shutil.copytree('/repo/AMAT', d + '/repo/AMAT', ignore=shutil.ignore_patterns('__pycache__'))
            for f in os.listdir(d + '/repo/AMAT'):
                if not f.endswith('.py') or f == '__init__.py':
                    continue
                p = d + '/repo/AMAT/' + f
                t = ast.parse(open(p).read())
                for one in nm.split('+'):
                    t = [c for c in ALL if c.__name__ == one][0]().visit(t)
                    ast.fix_missing_locations(t)
                    t = ast.parse(ast.unparse(t))
                s = ast.unparse(t)
                if 'math.pi' in s and 'import math' not in s:
                    s = 'import math\n' + s
                open(p, 'w').write(s)
            if '--tests' in os.environ.get('REF_OPTS', ''):
                r = subprocess.run([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--ignore=tests/test_telecom.py', '--ignore=tests/test_visibility.py'], cwd=d + '/repo', env=dict(os.environ, PYTHONPATH=d + '/repo', MPLBACKEND='Agg', PYTHONDONTWRITEBYTECODE='1'), capture_output=True, text=True)
                print(nm, 'tests:', r.stdout.splitlines()[-1:], flush=True)
            for p in props:
                try:
                    c = subprocess.run([PY, HERE + '/run.py', p], cwd=d + '/repo', env=dict(os.environ, AMAT_REPO=d + '/repo', VERIF_EVID=d, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg'),
                                       capture_output=True, text=True, timeout=900)
                except subprocess.TimeoutExpired:
                    print(nm, p, 'TIMEOUT', flush=True)
                    continue
                bad = [l[:230] for l in c.stdout.splitlines() if l.startswith(('INCONC', 'VIOL', '   harness'))]
                print(nm, p, 'rc=%d' % c.returncode, 'ALARM' if c.returncode == 1 else 'NOANSWER' if c.returncode else 'quiet', (c.stdout.splitlines() or [''])[-1][-90:], flush=True)
                for l in bad[:5]:
                    print('      ', l, flush=True)
                if c.returncode not in (0, 1):
                    print(c.stderr[-600:], flush=True)
        finally:
            shutil.rmtree(d, ignore_errors=True)


if __name__ == '__main__':
    main()
