"""Behaviour-preserving rewrite of a whole copy of the repository: refactor.py DEST [KIND…]  (kinds: compare, branch, ret, range, method). The checks must stay quiet on it:
VERIF_REPO=DEST run.py Cxx"""
import ast, os, shutil, sys, warnings
warnings.simplefilter('ignore')
dest, kinds = sys.argv[1], sys.argv[2:] or ['compare', 'branch', 'ret', 'range', 'method']
shutil.rmtree(dest, ignore_errors=True)
shutil.copytree('/repo', dest, symlinks=True, ignore=shutil.ignore_patterns('.git'))
SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}


class R(ast.NodeTransformer):
    cls = None

    def visit_Compare(self, n):
        self.generic_visit(n)
        if 'compare' in kinds and len(n.ops) == 1 and type(n.ops[0]) in SWAP:
            return ast.Compare(left=n.comparators[0], ops=[SWAP[type(n.ops[0])]()], comparators=[n.left])
        return n

    def visit_If(self, n):
        self.generic_visit(n)
        if 'branch' in kinds and n.orelse:
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if 'ret' in kinds and n.value is not None and not isinstance(n.value, (ast.Name, ast.Constant)):
            return [ast.Assign(targets=[ast.Name(id='result_', ctx=ast.Store())], value=n.value), ast.Return(value=ast.Name(id='result_', ctx=ast.Load()))]
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        if 'range' in kinds and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == 'range':
            n.iter = ast.Call(func=ast.Name(id='list', ctx=ast.Load()), args=[n.iter], keywords=[])
        return n

    def visit_ClassDef(self, n):
        old, self.cls = self.cls, n.name
        self.generic_visit(n)
        if 'method' in kinds:
            body = []
            for f in n.body:
                body.append(f)
                if isinstance(f, ast.FunctionDef) and not f.decorator_list and not f.name.startswith('__') and f.args.args and f.args.args[0].arg == 'self':
                    name = 'impl_%s_%s' % (n.name, f.name)
                    w = ast.parse('def %s(self, *args, **kwargs):\n    return self.%s(*args, **kwargs)' % (f.name, name)).body[0]
                    f.name = name
                    body.append(w)
            n.body = body
        self.cls = old
        return n


for d, _, fs in os.walk(os.path.join(dest, 'pytracer')):
    for f in fs:
        if f.endswith('.py') and 'data' not in d:
            p = os.path.join(d, f)
            t = R().visit(ast.parse(open(p).read()))
            ast.fix_missing_locations(t)
            open(p, 'w').write(ast.unparse(t) + '\n')
