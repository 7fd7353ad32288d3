"""Small mechanical changes of tenkit: which ones does no check report?

Usage: mutate.py FILE(relative to src/tenkit) OUT.jsonl START STEP  (every STEP-th mutant from START)
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile, time
VERIF = os.environ.get('MUT_VERIF', '/verif')
CHECKS = {
    'base.py': 'C25 C01 C02 C03 C04 C10 C05 C08 C11 C20',
    'utils.py': 'C21 C25 C05 C01 C19 C14 C12',
    'metrics.py': 'C20 C19 C21',
    'log.py': 'C23',
    'decomposition/base_decomposer.py': 'C10 C15 C14 C17 C24 C16 C18 C12 C13 C22',
    'decomposition/cp.py': 'C10 C09 C24 C04 C03 C08 C17 C18 C15 C22 C12 C14 C13',
    'decomposition/parafac2.py': 'C10 C24 C11 C17 C18 C15 C12 C14 C13 C04',
    'decomposition/cmtf.py': 'C22 C24 C18 C15',
    'decomposition/decompositions.py': 'C06 C05 C10 C21 C07 C20 C24 C19 C11 C17 C14',
    'decomposition/logging/logger.py': 'C15 C14 C16',
}
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
        ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.And: ast.Or, ast.Or: ast.And,
        ast.Pow: ast.Mult, ast.MatMult: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv}


def mutants(tree):
    """Yields (description, mutate(tree copy node list index))."""
    nodes = list(ast.walk(tree))
    for i, n in enumerate(nodes):
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            yield i, 'op', None
        if isinstance(n, ast.AugAssign) and type(n.op) in SWAP:
            yield i, 'op', None
        if isinstance(n, ast.BoolOp):
            yield i, 'op', None
        if isinstance(n, ast.Compare):
            yield i, 'cmp', None
        if isinstance(n, ast.UnaryOp):
            yield i, 'unary', None
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield i, 'const', 1
            if n.value != 0:
                yield i, 'const', -1
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield i, 'flag', None
        if isinstance(n, ast.If):
            yield i, 'never', None
            yield i, 'always', None
        if isinstance(n, ast.Call):
            if len(n.args) >= 2 and not isinstance(n.args[0], ast.Starred):
                yield i, 'swapargs', None
            for k in range(len(n.keywords)):
                yield i, 'dropkw', k
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'deepcopy', 'abs', 'astype', 'sorted'):
                yield i, 'unwrap', None
            elif len(n.args) == 1 and isinstance(n.func, ast.Name) and n.func.id in ('abs', 'sorted', 'list', 'int', 'tuple', 'float', 'reversed'):
                yield i, 'unwrap', None
        if isinstance(n, ast.Attribute) and n.attr == 'T':
            yield i, 'untranspose', None
        if isinstance(n, (ast.FunctionDef, ast.For, ast.If, ast.With, ast.While)):
            for k, s in enumerate(n.body):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Break, ast.Continue, ast.Raise, ast.Delete)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    yield i, 'delete', k


def apply(tree, i, kind, arg):
    tree = copy.deepcopy(tree)
    n = list(ast.walk(tree))[i]
    line = getattr(n, 'lineno', 0)
    if kind == 'op':
        n.op = SWAP[type(n.op)]()
    elif kind == 'cmp':
        if type(n.ops[0]) not in SWAP:
            return None
        n.ops[0] = SWAP[type(n.ops[0])]()
    elif kind == 'const':
        n.value = n.value + arg
    elif kind == 'flag':
        n.value = not n.value
    elif kind == 'never':
        n.test = ast.Constant(False)
    elif kind == 'always':
        n.test = ast.Constant(True)
    elif kind == 'swapargs':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif kind == 'dropkw':
        del n.keywords[arg]
    elif kind == 'delete':
        line = n.body[arg].lineno
        n.body[arg] = ast.Pass()
    elif kind in ('unwrap', 'untranspose', 'unary'):
        new = n.operand if kind == 'unary' else n.value if kind == 'untranspose' else n.args[0] if n.args and (isinstance(n.func, ast.Name) or isinstance(n.func.value, ast.Name) and n.func.value.id in ('np', 'copy')) else n.func.value if isinstance(n.func, ast.Attribute) else n.args[0]
        for p in ast.walk(tree):
            for f, v in ast.iter_fields(p):
                if v is n:
                    setattr(p, f, new)
                elif isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is n:
                            v[k] = new
    ast.fix_missing_locations(tree)
    return tree, line


def main():
    file, out, start, step = sys.argv[1], sys.argv[2], int(sys.argv[3]), int(sys.argv[4])
    work = tempfile.mkdtemp(prefix='mut_', dir='/var/tmp')
    try:
        subprocess.run(['cp', '-a', '/repo', work + '/repo'], check=True)
        target = f'{work}/repo/src/tenkit/{file}'
        source = open(target).read()
        tree = ast.parse(source)
        base = ast.unparse(tree)
        todo = list(mutants(tree))
        covered = json.load(open('/tmp/covered.json')).get(file) if os.path.exists('/tmp/covered.json') else None
        random.Random(5).shuffle(todo)
        for i, kind, arg in todo[start::step]:
            try:
                r = apply(tree, i, kind, arg)
            except Exception as e:
                continue
            if r is None:
                continue
            text = ast.unparse(r[0])
            if text == base:
                continue
            if covered and r[1] not in covered:
                continue
            a, b = base.split('\n'), text.split('\n')
            import difflib
            diff = [l for l in difflib.unified_diff(a, b, n=0, lineterm='') if l[:1] in '+-' and l[:3] not in ('+++', '---')]
            open(target, 'w').write(text)
            t = time.time()
            caught = None
            for c in CHECKS[file].split():
                p = subprocess.run([sys.executable, 'run.py', c, '--workers', os.environ.get('MUT_WORKERS', '2')], cwd=VERIF, env=dict(os.environ, VERIF_REPO=work + '/repo'), capture_output=True, text=True)
                if p.returncode == 1:
                    caught = c
                    break
                if p.returncode:
                    caught = f'{c}?{p.returncode}'
                    break
            with open(out, 'a') as f:
                f.write(json.dumps({'file': file, 'line': r[1], 'kind': kind, 'diff': diff, 'caught': caught, 'wall': round(time.time() - t)}) + '\n')
    finally:
        shutil.rmtree(work, ignore_errors=True)


main()
