"""Mutation campaign (development aid, not a check): small changes of the code
in a scratch copy of /repo that pass the existing tests, run against the checks.
python3 tools/mutate.py OUT.jsonl JOBS SEED COUNT file[,file..] check[,check..]
with RARE=n in the environment a change acts only in one of n states (a hash of
the texts and numbers the function has at hand)"""
import ast
import copy
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
import threading
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CMP = {ast.Lt: [ast.LtE, ast.GtE], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.LtE], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq],
       ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Add], ast.FloorDiv: [ast.Mult], ast.Div: [ast.Mult], ast.Mod: [ast.FloorDiv],
       ast.LShift: [ast.RShift], ast.RShift: [ast.LShift], ast.BitAnd: [ast.BitOr], ast.BitOr: [ast.BitAnd, ast.BitXor], ast.Pow: [ast.Mult]}


def sites(tree):
    """[(description, function(node) applied in a copy, index of the node)]"""
    out = []
    for i, n in enumerate(ast.walk(tree)):
        if isinstance(n, ast.Compare):
            for j, op in enumerate(n.ops):
                for r in CMP.get(type(op), []):
                    out.append((i, 'cmp %s->%s' % (type(op).__name__, r.__name__), lambda m, j=j, r=r: m.ops.__setitem__(j, r())))
        elif isinstance(n, (ast.BinOp, ast.AugAssign)):
            for r in BIN.get(type(n.op), []):
                out.append((i, 'op %s->%s' % (type(n.op).__name__, r.__name__), lambda m, r=r: setattr(m, 'op', r())))
        elif isinstance(n, ast.BoolOp):
            r = ast.Or if isinstance(n.op, ast.And) else ast.And
            out.append((i, 'bool->%s' % r.__name__, lambda m, r=r: setattr(m, 'op', r())))
            for j in range(len(n.values)):
                out.append((i, 'drop operand %d' % j, lambda m, j=j: m.values.pop(j)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append((i, 'drop not', lambda m: (setattr(m, 'op', ast.Not()), setattr(m, 'operand', ast.UnaryOp(ast.Not(), m.operand)))))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                out.append((i, 'not %s' % v, lambda m, v=v: setattr(m, 'value', not v)))
            elif isinstance(v, int):
                for d in (1, -1):
                    out.append((i, '%d%+d' % (v, d), lambda m, v=v, d=d: setattr(m, 'value', v + d)))
                if v > 3:
                    out.append((i, '%d^' % v, lambda m, v=v: setattr(m, 'value', v ^ (1 << (v.bit_length() // 2)))))
        elif isinstance(n, (ast.If, ast.While)):
            out.append((i, 'if not', lambda m: setattr(m, 'test', ast.UnaryOp(ast.Not(), m.test))))
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if isinstance(b, list) and not isinstance(n, (ast.Module, ast.ClassDef)):
                for j, st in enumerate(b):
                    if isinstance(st, (ast.Expr, ast.Assign, ast.AugAssign, ast.Raise, ast.Return, ast.Continue, ast.Break, ast.If, ast.For, ast.Delete)) \
                            and not (isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant)):
                        out.append((i, 'delete line %d' % st.lineno, lambda m, f=field, j=j: getattr(m, f).__setitem__(j, ast.Pass())))
        if isinstance(n, ast.Call) and len(n.args) >= 2:
            out.append((i, 'swap args', lambda m: m.args.__setitem__(slice(0, 2), [m.args[1], m.args[0]])))
        if isinstance(n, ast.Call) and n.keywords:
            for j in range(len(n.keywords)):
                out.append((i, 'drop kw %s' % n.keywords[j].arg, lambda m, j=j: m.keywords.pop(j)))
        if isinstance(n, ast.Slice):
            out.append((i, 'slice', lambda m: setattr(m, 'lower', None) if m.lower else setattr(m, 'upper', None)))
    return out


HELPER = '''
def _rare(loc):
    import zlib
    h = []
    for k in sorted(loc):
        v = loc[k]
        v = getattr(v, 'tokens', v)
        if isinstance(v, (str, int, bytes, list, tuple)):
            h.append('%%s=%%r' %% (k, v))
        elif hasattr(v, '__dict__') and not isinstance(v, type):
            for k2, v2 in v.__dict__.items():
                if isinstance(v2, (str, int)) or k2 == 'tokens':
                    h.append('%%s=%%r' %% (k2, v2))
    return zlib.crc32(repr((%d, h)).encode()) %% %d == 0
'''


def rarely(tree, node, change, k, n):
    """the change of a node, only in some states"""
    old = copy.deepcopy(node)
    change(node)
    test = ast.Call(ast.Name('_rare', ast.Load()), [ast.Call(ast.Name('locals', ast.Load()), [], [])], [])
    if isinstance(node, (ast.If, ast.While)) and ast.dump(node.test) != ast.dump(old.test):
        node.test = ast.IfExp(test, node.test, old.test)
    elif isinstance(node, ast.AugAssign) and type(node.op) is not type(old.op):
        change_parent(tree, node, lambda new: ast.If(test, [new], [old]))
    elif isinstance(node, ast.expr):
        change_parent(tree, node, lambda new: ast.IfExp(test, new, old))
    else:
        for field in ('body', 'orelse', 'finalbody'):
            a, b = getattr(node, field, None), getattr(old, field, None)
            if isinstance(a, list):
                for j in range(len(a)):
                    if isinstance(a[j], ast.Pass) and not isinstance(b[j], ast.Pass):
                        a[j] = ast.If(ast.UnaryOp(ast.Not(), test), [b[j]], [])
    tree.body.insert(0, ast.parse(HELPER % (k, n)).body[0])


def change_parent(tree, node, make):
    for p in ast.walk(tree):
        for field, v in ast.iter_fields(p):
            if v is node:
                setattr(p, field, make(node))
                return
            if isinstance(v, list):
                for j, x in enumerate(v):
                    if x is node:
                        v[j] = make(node)
                        return
    raise ValueError('no parent')


def mutate(src, k):
    tree = ast.parse(src)
    s = sites(tree)[k]
    node = list(ast.walk(tree))[s[0]]
    line = getattr(node, 'lineno', 0)
    n = int(os.environ.get('RARE', '0'))
    if n:
        if isinstance(node, ast.Constant) or s[1].startswith('drop kw'):
            raise ValueError('seldom depends on the state')
        inside = {id(x) for f in ast.walk(tree) if isinstance(f, ast.FunctionDef) for st in f.body for x in ast.walk(st)}
        if id(node) not in inside and not isinstance(node, ast.FunctionDef):
            raise ValueError('not in a function')
        rarely(tree, node, s[2], k, n)
    else:
        s[2](node)
    ast.fix_missing_locations(tree)
    return ast.unparse(tree), line, s[1]


def main():
    outp, jobs, seed, count, files, checks = sys.argv[1:7]
    rng = random.Random(int(seed))
    pool = []
    for f in files.split(','):
        src = open('/repo/necroassembler/' + f).read()
        n = len(sites(ast.parse(src)))
        pool += [(f, k) for k in range(n)]
    only = None
    if os.environ.get('LINES'):
        a, b = map(int, os.environ['LINES'].split('-'))
        only = (a, b)
    rng.shuffle(pool)
    lock = threading.Lock()
    free = list(range(int(jobs)))
    base = '/tmp/mut_%s_%d' % (os.path.basename(outp).split('.')[0], os.getpid())
    for w in free:
        shutil.copytree('/repo', '%s/%d/repo' % (base, w), ignore=shutil.ignore_patterns('.git', '__pycache__'))
        shutil.copytree(V, '%s/%d/verif' % (base, w), ignore=shutil.ignore_patterns('.git', '__pycache__', 'seeded', 'replay', 'evidence'))
    stats = {'tests': 0, 'caught': 0, 'survived': 0, 'invalid': 0}
    out = open(outp, 'a')

    def one(job):
        f, k = job
        with lock:
            if stats['caught'] + stats['survived'] >= int(count):
                return
            w = free.pop()
        d = '%s/%d' % (base, w)
        path = d + '/repo/necroassembler/' + f
        orig = open('/repo/necroassembler/' + f).read()
        try:
            try:
                new, line, what = mutate(orig, k)
                compile(new, f, 'exec')
            except Exception:
                stats['invalid'] += 1
                return
            if only and not only[0] <= line <= only[1]:
                return
            open(path, 'w').write(new)
            try:
                t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-x', 'tests', '-p', 'no:cacheprovider'], cwd=d + '/repo',
                                   env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1'), capture_output=True, timeout=60).returncode
            except subprocess.TimeoutExpired:
                t = 1
            if t:
                stats['tests'] += 1
                return
            res = None
            for c in checks.split(','):
                try:
                    p = subprocess.run([sys.executable, 'run.py', c], cwd=d + '/verif', env=dict(os.environ, NV_REPO=d + '/repo', VERIF_SEED='1', NV_SHOW='2'),
                                       capture_output=True, text=True, timeout=600)
                    rc, txt = p.returncode, p.stdout
                except subprocess.TimeoutExpired:
                    rc, txt = 'timeout', ''
                if rc == 1 and 'VIOLATION property=' in txt:
                    if os.environ.get('ALL'):
                        # which checks notice it: the ones listed together
                        res = ((res + ' ') if res else '') + c
                        continue
                    res = c
                    break
                if rc != 0:
                    res = '%s rc=%s %s' % (c, rc, txt[-300:] + getattr(p, 'stderr', '')[-300:])
                    break
            with lock:
                stats['survived' if res is None else 'caught'] += 1
                if res is None or ' ' in res or os.environ.get('ALL'):
                    src_line = orig.splitlines()[line - 1].strip() if line else ''
                    out.write(json.dumps({'file': f, 'k': k, 'line': line, 'what': what, 'src': src_line, 'res': res}) + '\n')
                    out.flush()
        finally:
            open(path, 'w').write(orig)
            with lock:
                free.append(w)
    try:
        with ThreadPoolExecutor(int(jobs)) as ex:
            list(ex.map(one, pool))
    finally:
        shutil.rmtree(base)
    out.write(json.dumps(stats) + '\n')
    print(stats)


main()
