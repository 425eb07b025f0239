"""Mutation survey: mutate.py FILE N SEED [PROP…]  plants N random syntactic changes in FILE, one at a time, in a scratch copy, runs the checks of the properties
anchored there against each, and prints those all are quiet about. For strengthening; nothing depends on it."""
import ast, os, random, re, shutil, subprocess, sys
file, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
table = {}
def P(id, title, st, q, why, files, *a):
    table[id] = files.split()
exec(open('/verif/tools/table.py').read(), {'prop': P, 'na': lambda *a: None})
files = [file]
props = sys.argv[4:] or sorted([p for p in table if file in table[p]], key=lambda p: len(table[p]))
work = '/tmp/mut/%d' % os.getpid()
print(file, props, flush=True)
shutil.rmtree(work, ignore_errors=True)
shutil.copytree('/repo', work, symlinks=True, ignore=shutil.ignore_patterns('.git'))
rnd = random.Random(seed)
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*'}


def sites(src):
    """(line, col, end col, replacement) of the changes there are"""
    out = []
    tree = ast.parse(src)
    lines = src.split('\n')
    seen = []
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)) and node.name in ('__repr__', '__str__', '__hash__'):
            seen.append((node.lineno, node.end_lineno))

    def skip(node):
        return any(a <= node.lineno <= b for a, b in seen)
    for node in ast.walk(tree):
        if not hasattr(node, 'lineno') or skip(node) or node.lineno != node.end_lineno:
            continue
        L = lines[node.lineno - 1].encode()
        if isinstance(node, ast.BinOp) and type(node.op) in OPS and node.left.end_lineno == node.right.lineno:
            a, b = node.left.end_col_offset, node.right.col_offset
            mid = L[a:b].decode()
            new = re.sub(r'[-+*/]+', OPS[type(node.op)], mid, 1)
            if new != mid:
                out.append((node.lineno, a, b, new))
        elif isinstance(node, ast.Compare) and len(node.ops) == 1 and node.left.end_lineno == node.comparators[0].lineno:
            a, b = node.left.end_col_offset, node.comparators[0].col_offset
            mid = L[a:b].decode()
            for x, y in (('<', '>'), ('>', '<'), ('==', '!='), ('is not', 'is'), (' is ', ' is not ')):
                if x in mid:
                    out.append((node.lineno, a, b, mid.replace(x, y, 1)))
                    break
        elif isinstance(node, ast.BoolOp) and node.values[0].end_lineno == node.values[1].lineno:
            a, b = node.values[0].end_col_offset, node.values[1].col_offset
            mid = L[a:b].decode()
            out.append((node.lineno, a, b, mid.replace('and', 'or') if 'and' in mid else mid.replace('or', 'and')))
        elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
            v = node.value
            new = {0: '1', 1: '2', 2: '3'}.get(v, repr(v * 2))
            out.append((node.lineno, node.col_offset, node.end_col_offset, new + ('.' if isinstance(v, float) and '.' not in new and 'e' not in new else '')))
        elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
            out.append((node.lineno, node.col_offset, node.end_col_offset, str(not node.value)))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub):
            out.append((node.lineno, node.col_offset, node.operand.col_offset, ''))
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            out.append((node.lineno, node.col_offset, node.operand.col_offset, ''))
        elif isinstance(node, ast.Attribute):
            new = {'x': 'y', 'y': 'z', 'z': 'x', 'pMin': 'pMax', 'pMax': 'pMin', 'mint': 'maxt', 'maxt': 'mint', 'sin': 'cos', 'cos': 'sin', 'dpdu': 'dpdv', 'dpdv': 'dpdu',
                   'dndu': 'dndv', 'dndv': 'dndu', 'floor': 'ceil', 'fabs': 'abs1', 'w2o': 'o2w', 'o2w': 'w2o', 'fmin': 'fmax', 'fmax': 'fmin', 'nn': 'dpdu', 'ftoi': 'ctoi', 'ctoi': 'ftoi',
                   'o': 'd'}.get(node.attr)
            if new and new != 'abs1':
                out.append((node.lineno, node.end_col_offset - len(node.attr), node.end_col_offset, new))
        elif isinstance(node, ast.Call):
            s = L[node.col_offset:node.end_col_offset].decode()
            if s.endswith('.copy()'):
                out.append((node.lineno, node.end_col_offset - 7, node.end_col_offset, ''))
            elif isinstance(node.func, ast.Name) and node.func.id in ('min', 'max'):
                out.append((node.lineno, node.func.col_offset, node.func.end_col_offset, 'max' if node.func.id == 'min' else 'min'))
            elif isinstance(node.func, ast.Attribute) and node.func.attr in ('fabs', 'normalize') and len(node.args) == 1:
                out.append((node.lineno, node.func.col_offset, node.func.end_col_offset, ''))
            if len(node.args) == 2 and node.args[0].end_lineno == node.args[1].lineno and not s.startswith('super'):
                a, b = node.args
                x, y = L[a.col_offset:a.end_col_offset].decode(), L[b.col_offset:b.end_col_offset].decode()
                if x != y and not (isinstance(node.func, ast.Name) and node.func.id in ('min', 'max', 'isinstance')):
                    out.append((node.lineno, a.col_offset, b.end_col_offset, y + L[a.end_col_offset:b.col_offset].decode() + x))
        elif isinstance(node, ast.AugAssign):
            out.append((node.lineno, node.col_offset, node.end_col_offset, 'pass'))
        elif isinstance(node, ast.Assign) and isinstance(node.targets[0], (ast.Attribute, ast.Subscript)):
            pass
    return out


pool = []
for f in files:
    p = os.path.join(work, 'pytracer', f)
    src = open(p).read()
    for s in sites(src):
        l = src.split('\n')[s[0] - 1]
        if 'raise' in l or 'Error' in l or 'logging' in l or l.strip().startswith(('#', 'import', 'from', 'print', 'def ', 'class ', 'assert')):
            continue
        pool.append((f, s))
rnd.shuffle(pool)
done = alive = 0
for f, (ln, a, b, new) in pool:
    if done >= n:
        break
    p = os.path.join(work, 'pytracer', f)
    src = open(p).read()
    lines = src.split('\n')
    L = lines[ln - 1].encode()
    lines[ln - 1] = (L[:a] + new.encode() + L[b:]).decode()
    try:
        ast.parse('\n'.join(lines))
    except SyntaxError:
        continue
    done += 1
    open(p, 'w').write('\n'.join(lines))
    try:
        outs = []
        for prop in props:
            r = subprocess.run(['timeout', '400', 'python3-vt', 'run.py', prop, '--tier', 'quick', '--jobs', os.environ.get('J', '8')], cwd='/verif', stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               env=dict(os.environ, VERIF_REPO=work))
            out = r.stdout.decode().strip().split('\n')
            if r.returncode == 1 and any(x.startswith('VIOL') for x in out):
                break
            outs.append('%s rc=%d %s' % (prop, r.returncode, '' if out[-1].startswith('OK') else out[-1][:60]))
        else:
            alive += 1
            print('ALIVE %s:%d %s\n    - %s\n    + %s' % (f, ln, outs, L.decode().strip(), lines[ln - 1].strip()), flush=True)
    finally:
        open(p, 'w').write(src)
print('%s done: %d mutants, %d alive' % (file, done, alive), flush=True)
shutil.rmtree(work, ignore_errors=True)
