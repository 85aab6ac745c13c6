"""Mutation campaign (development aid): mutate functions of a copy of the
sources and report which mutants a check does not notice.

  python3-vt tools/mutate.py CID module:regex[,module:regex..] [max] [seed]
"""
import ast
import copy
import importlib
import io
import os
import random
import re
import shutil
import sys
import tempfile
import time
from multiprocessing import Process, Queue

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.setrecursionlimit(20000)

CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add,
       ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.Mod: ast.Add}
SWAP = {'base': 'head', 'head': 'base', 'next': 'previous',
        'previous': 'next', 'rows': 'cols', 'cols': 'rows', 'test': 'trial',
        'trial': 'test', 'min': 'max', 'max': 'min', 'extend': 'append',
        'union': 'intersection', 'all': 'any', 'any': 'all',
        'argmin': 'argmax', 'argmax': 'argmin'}


def sites(fn):
    """yield (description, apply(fn_copy_node)) for a function node"""
    nodes = list(ast.walk(fn))
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Assert, ast.Raise)):
            skip |= set(id(x) for x in ast.walk(n))
        if isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'print':
            skip |= set(id(x) for x in ast.walk(n))
    dec = set()
    for n in fn.decorator_list:
        dec |= set(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in skip or id(n) in dec:
            continue
        ln = getattr(n, 'lineno', 0)
        if isinstance(n, ast.Compare):
            for k, op in enumerate(n.ops):
                if type(op) in CMP:
                    def f(m, k=k, op=op):
                        m.ops[k] = CMP[type(op)]()
                    yield i, ln, 'cmp %s' % ast.unparse(n), f
        if isinstance(n, (ast.BinOp, ast.AugAssign)) and type(n.op) in BIN:
            if isinstance(n, ast.BinOp) and isinstance(
                    n.left, ast.Constant) and isinstance(n.left.value, str):
                continue

            def f(m):
                m.op = BIN[type(m.op)]()
            yield i, ln, 'op %s' % ast.unparse(n)[:80], f
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            def f(m):
                m.value = not m.value
            yield i, ln, 'bool %s' % n.value, f
        elif isinstance(n, ast.Constant) and isinstance(n.value, int):
            def f(m):
                m.value = m.value + 1
            yield i, ln, 'const %s+1' % n.value, f
        elif isinstance(n, ast.Constant) and n.value is None:
            pass
        if isinstance(n, ast.BoolOp):
            def f(m):
                m.op = ast.Or() if isinstance(m.op, ast.And) else ast.And()
            yield i, ln, 'bool %s' % ast.unparse(n)[:80], f
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not,
                                                            ast.USub)):
            def f(m):
                if isinstance(m.op, ast.Not):
                    m.op = ast.Not()
                    m.operand = ast.UnaryOp(ast.Not(), m.operand)
                else:
                    m.op = ast.UAdd()
            yield i, ln, 'unary %s' % ast.unparse(n)[:80], f
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                def f(m, k=k):
                    del m.keywords[k]
                yield i, ln, 'drop keyword %s in %s' % (
                    n.keywords[k].arg, ast.unparse(n)[:80]), f
            if len(n.args) >= 2:
                def f(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]
                yield i, ln, 'swap args %s' % ast.unparse(n)[:80], f
        if isinstance(n, ast.Attribute) and n.attr in SWAP:
            def f(m):
                m.attr = SWAP[m.attr]
            yield i, ln, 'attr %s' % ast.unparse(n)[:80], f
        if isinstance(n, ast.Name) and n.id in SWAP and isinstance(
                n.ctx, ast.Load):
            def f(m):
                m.id = SWAP[m.id]
            yield i, ln, 'name %s' % n.id, f
        for fld in ('body', 'orelse'):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for k, st in enumerate(b):
                if isinstance(st, ast.Expr) and isinstance(
                        st.value, ast.Constant):
                    continue
                if isinstance(st, ast.Expr) and isinstance(
                        st.value, ast.Call) and getattr(
                        st.value.func, 'id', '') == 'print':
                    continue
                if isinstance(st, (ast.Expr, ast.AugAssign, ast.Break,
                                   ast.Continue, ast.Assign, ast.Return)):
                    def f(m, k=k, fld=fld):
                        getattr(m, fld)[k] = ast.Pass()
                    yield i, st.lineno, 'delete ' + ast.unparse(st)[:80], f
                if isinstance(st, ast.If) and not st.orelse:
                    def f(m, k=k, fld=fld):
                        getattr(m, fld)[k].test = ast.Constant(False)
                    yield i, st.lineno, 'never ' + ast.unparse(
                        st.test)[:80], f
                if isinstance(st, ast.If):
                    def f(m, k=k, fld=fld):
                        getattr(m, fld)[k].test = ast.Constant(True)
                    yield i, st.lineno, 'always ' + ast.unparse(
                        st.test)[:80], f


def worker(cid, tasks, out):
    from qsa import loader, frame
    mod = importlib.import_module('qsa.checks.' + cid.lower())
    known = frame.load_known(cid)
    while True:
        t = tasks.get()
        if t is None:
            break
        n, d, seed = t
        loader.REPO = d
        loader.SRC = os.path.join(d, 'src')
        t0 = time.time()
        res, det = 'MISSED', ''
        old = sys.stdout
        sys.stdout = io.StringIO()
        try:
            ctx = frame.Ctx(cid)
            ctx.verbose = False
            ctx.mutation = True
            found = []
            od = ctx.decide

            def dec(name, fn, where='', od=od, ctx=ctx):
                r = od(name, fn, where)
                q = ctx.results[-1]
                if q[1] == 'violated' and q[0] not in known:
                    raise StopIteration(q)
                return r
            ctx.decide = dec
            try:
                mod.run(ctx)
                q = list(ctx.queue)
                random.Random(seed).shuffle(q)
                for x in q:
                    dec(*x)
                und = sum(1 for r in ctx.results if r[1] == 'undecided')
                if und:
                    det = '%d undecided of %d' % (und, len(ctx.results))
                if und > .5 * len(ctx.results):
                    res = 'BROKEN'
            except StopIteration as e:
                res, det = 'killed', str(e.args[0])[:150]
        except loader.AnalysisBroken as e:
            res, det = 'BROKEN', str(e)
        except BaseException as e:
            res, det = 'BROKEN', '%s %s' % (type(e).__name__, e)
        finally:
            sys.stdout = old
        shutil.rmtree(d)
        out.put((n, res, det, time.time() - t0))


def main():
    cid, spec = sys.argv[1], sys.argv[2]
    cap = int(sys.argv[3]) if len(sys.argv) > 3 else 80
    seed = int(sys.argv[4]) if len(sys.argv) > 4 else 1
    from qsa import loader
    muts = []
    for s in spec.split(','):
        m, rx = s.split(':', 1)
        path = '/repo/src/%s.py' % m
        text = open(path).read()
        tree = ast.parse(text)
        for q, c, fn in loader.walk_functions(tree):
            if not re.fullmatch(rx, q):
                continue
            for k, (i, ln, desc, f) in enumerate(sites(fn)):
                muts.append((m, q, k, ln, desc))
    random.Random(seed).shuffle(muts)
    total = len(muts)
    muts = muts[:cap]
    tasks, out = Queue(), Queue()
    top = tempfile.mkdtemp(prefix='mut')
    for n, (m, q, k, ln, desc) in enumerate(muts):
        tree = ast.parse(open('/repo/src/%s.py' % m).read())
        fn = [x for x in loader.walk_functions(tree) if x[0] == q][-1][2]
        st = list(sites(fn))[k]
        node = list(ast.walk(fn))[st[0]]
        st[3](node)
        ast.fix_missing_locations(tree)
        d = os.path.join(top, str(n))
        os.makedirs(d + '/src')
        for x in os.listdir('/repo/src'):
            if x.endswith('.py') and x != m + '.py':
                os.symlink('/repo/src/' + x, d + '/src/' + x)
        with open(d + '/src/%s.py' % m, 'w') as g:
            g.write(ast.unparse(tree))
        tasks.put((n, d, seed))
    W = int(os.environ.get("MUT_W", "8"))
    for w in range(W):
        tasks.put(None)
    ps = [Process(target=worker, args=(cid, tasks, out)) for w in range(W)]
    for p in ps:
        p.start()
    cnt = {}
    for x in range(len(muts)):
        n, res, det, dt = out.get()
        cnt[res] = cnt.get(res, 0) + 1
        if res != 'killed':
            m, q, k, ln, desc = muts[n]
            print('%-7s %s.%s:%d %s   [%s] %.0fs' % (
                res, m, q, ln, desc, det, dt), flush=True)
    for p in ps:
        p.join()
    os.rmdir(top)
    print(cid, spec, 'of', total, 'ran', len(muts), cnt)


if __name__ == '__main__':
    main()
