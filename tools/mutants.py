#!/usr/bin/env python3
"""Mutation campaign (development only):  mutants.py FILE... [--only i,j] [--stride n] [--list]
For each small syntactic change of jschon's source, says whether a check reports it;
for those not reported, whether the stable tests do.  Prints the survivors."""
import ast, glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
from multiprocessing.pool import ThreadPool
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


def mutants(path):
    src = open(path, encoding='utf-8').read()
    tree = ast.parse(src)
    lines = src.splitlines(True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))

    def pos(l, c):
        return offs[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def seg(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def add(n, new, what, owner):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, what, n.lineno, owner))

    def walk(n, owner):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            owner = owner + [n.name]
        for f, v in ast.iter_fields(n):
            if f in ('annotation', 'returns'):
                continue
            for c in (v if isinstance(v, list) else [v]):
                if isinstance(c, ast.AST):
                    walk(c, owner)
        o = '.'.join(owner)
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            add(n, '%s %s %s' % (seg(n.left), CMP[type(n.ops[0])], seg(n.comparators[0])), 'cmp', o)
            if isinstance(n.ops[0], (ast.Lt, ast.GtE)):
                add(n, '%s %s %s' % (seg(n.left), {ast.Lt: '>', ast.GtE: '<='}[type(n.ops[0])], seg(n.comparators[0])), 'cmp2', o)
        if isinstance(n, ast.BoolOp):
            j = ' or ' if isinstance(n.op, ast.And) else ' and '
            add(n, '(' + j.join(seg(v) for v in n.values) + ')', 'boolop', o)
            for i in range(len(n.values)):
                rest = [seg(v) for k, v in enumerate(n.values) if k != i]
                add(n, '(' + (' and ' if isinstance(n.op, ast.And) else ' or ').join(rest) + ')', 'drop-cond%d' % i, o)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, '(' + seg(n.operand) + ')', 'not', o)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            add(n.test, 'not (' + seg(n.test) + ')', 'negate', o)
            add(n.test, '(True or (' + seg(n.test) + '))', 'always', o) if isinstance(n, ast.If) and ':=' not in seg(n.test) else None
        if isinstance(n, ast.Constant) and owner:
            if n.value is True:
                add(n, 'False', 'const', o)
            elif n.value is False:
                add(n, 'True', 'const', o)
            elif type(n.value) is int:
                add(n, str(n.value + 1), 'const', o)
            elif n.value is None and False:
                pass
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub, ast.Div, ast.BitOr, ast.BitAnd)):
            add(n, seg(n.left), 'binop-left', o)
            if isinstance(n.op, (ast.Add, ast.Sub)):
                add(n, '%s %s %s' % (seg(n.left), '-' if isinstance(n.op, ast.Add) else '+', seg(n.right)), 'binop', o)
        if isinstance(n, ast.stmt) and owner and not isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom, ast.If, ast.For, ast.While, ast.With, ast.Try, ast.Pass, ast.AnnAssign)):
            if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                add(n, 'pass', 'delete', o)
            if isinstance(n, ast.AugAssign):
                add(n, '%s = %s' % (seg(n.target), seg(n.value)), 'augassign', o)
            if isinstance(n, ast.Return) and n.value is not None:
                add(n, 'return None', 'return-none', o)
            if isinstance(n, ast.Break):
                add(n, 'continue', 'break', o)
            if isinstance(n, ast.Continue):
                add(n, 'break', 'continue', o)
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg:
                    args = [seg(a) for a in n.args] + [seg(x) for x in n.keywords if x is not k]
                    add(n, '%s(%s)' % (seg(n.func), ', '.join(args)), 'drop-kw ' + k.arg, o)
            if len(n.args) == 2 and not n.keywords:
                add(n, '%s(%s, %s)' % (seg(n.func), seg(n.args[1]), seg(n.args[0])), 'swap-args', o)
            if isinstance(n.func, ast.Name) and n.func.id in ('list', 'tuple', 'set', 'dict', 'str', 'sorted', 'reversed', 'deepcopy', 'iter') and len(n.args) == 1 and not n.keywords:
                add(n, seg(n.args[0]), 'unwrap', o)
            if isinstance(n.func, ast.Name) and n.func.id in ('any', 'all'):
                add(n.func, 'all' if n.func.id == 'any' else 'any', 'anyall', o)
        if isinstance(n, ast.Tuple) and isinstance(n.ctx, ast.Load) and len(n.elts) >= 1:
            for i in range(len(n.elts)):
                rest = [seg(v) for k, v in enumerate(n.elts) if k != i]
                add(n, '(' + ', '.join(rest) + (',)' if rest else ')'), 'drop-elt%d' % i, o)
        if isinstance(n, ast.ExceptHandler) and n.type is not None:
            add(n.type, 'ZeroDivisionError', 'except', o)
        if isinstance(n, ast.comprehension):
            for c in n.ifs:
                add(c, 'True', 'comp-if', o)
        if isinstance(n, ast.Slice) and n.lower is not None:
            pass
    walk(tree, [])
    seen, res = set(), []
    for m in out:
        if m[:3] not in seen:
            seen.add(m[:3])
            try:
                ast.parse(src[:m[0]] + m[2] + src[m[1]:])
                res.append(m)
            except SyntaxError:
                pass
    return src, sorted(res, key=lambda m: (m[0], m[1], m[2]))


# the checks to try first, per file
FIRST = {'applicator': ['C12', 'C13', 'C15'], 'core': ['C18', 'C23', 'C22'], 'legacy': ['C13', 'C18', 'C15'], 'validation': ['C14'], 'annotation': ['C16'],
         'format.py': ['C24'], 'formats': ['C24'], 'vocabulary/__init__': ['C23', 'C22'], 'catalog': ['C28', 'C22', 'C20', 'C21', 'C18'], 'jsonschema': ['C27', 'C28', 'C23', 'C16', 'C18', 'C19', 'C12'],
         'output': ['C19', 'C27'], 'uri': ['C25'], 'json.py': ['C01', 'C04', 'C05', 'C02', 'C03'], 'jsonpatch': ['C07', 'C26', 'C06'], 'jsonpointer': ['C10', 'C08', 'C11', 'C09'], 'utils': ['C05', 'C20']}


def functions():
    """check -> functions and seconds"""
    out = {}
    for f in glob.glob('/tmp/ac_base/evidence/C*.json'):
        d = json.load(open(f))
        out[d['property']] = (set(d['coverage']['functions_analysed']), d['wall_s'])
    return out


def run(job):
    rel, i, m, src, fns = job
    a, b, new, what, line, owner = m
    w = tempfile.mkdtemp(prefix='mut-')
    try:
        shutil.copytree(REPO + '/jschon', w + '/r/jschon', ignore=shutil.ignore_patterns('__pycache__'))
        open(os.path.join(w, 'r', rel), 'w', encoding='utf-8').write(src[:a] + new + src[b:])
        head = '%s#%d:%d %s [%s] %r -> %r' % (rel, i, line, owner, what, src[a:b][:60], new[:60])
        o = '%s:%s' % (rel, owner)
        cs = [c for c, (fs, s) in fns.items() if o in fs]
        if not cs:
            cs = [c for c, (fs, s) in fns.items() if any(f.startswith(rel + ':') for f in fs)] or list(fns)
        # the two slowest checks are tried where they are the natural ones only
        if len(cs) > 4:
            cs = [c for c in cs if c not in ('C15', 'C17') or 'nevaluated' in owner or '_resolve_dep' in owner or 'collect' in owner]
        first = [c for k, v in FIRST.items() if k in rel for c in v]
        cs.sort(key=lambda c: (first.index(c) if c in first else 99, fns[c][1]))
        t0 = time.time()
        note = ''
        for c in cs:
            e = dict(os.environ, SA_FIRST='s_hierarchical_children,s_failed_construction', SA_CAP=os.environ.get('MCAP', '40'))
            p = subprocess.run(['python3', HERE + '/run.py', c, '--root', w + '/r', '--jobs', '1', '--out', w], capture_output=True, text=True, env=e)
            if p.returncode == 1:
                return head, 'KILLED ' + c, time.time() - t0
            if p.returncode != 0:
                note = ' (%s: rc %d %s)' % (c, p.returncode, p.stdout.strip().splitlines()[:1])
            elif 'undecided x' in p.stdout:
                note = ' (%s undecided)' % c
        return head, 'SURVIVED%s after %s' % (note, ','.join(cs)), time.time() - t0
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    args = sys.argv[1:]
    opt = {}
    while args and args[-2:][0].startswith('--') and len(args) >= 2:
        opt[args[-2][2:]] = args[-1]
        args = args[:-2]
    fns = functions()
    jobs = []
    for rel in args:
        src, ms = mutants(os.path.join(REPO, rel))
        for i, m in enumerate(ms):
            if 'only' in opt and str(i) not in opt['only'].split(','):
                continue
            if i % int(opt.get('stride', 1)) == int(opt.get('from', 0)):
                jobs.append((rel, i, m, src, fns))
    print(len(jobs), 'mutants', flush=True)
    if 'list' in opt:
        for j in jobs:
            print(j[0], j[1], j[2][2:])
        sys.exit()
    with ThreadPool(8) as p:
        for head, res, t in p.imap_unordered(run, jobs):
            print('%-9s %5.0fs %s | %s' % (res.split()[0], t, head, res), flush=True)
