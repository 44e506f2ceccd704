"""numba seam: run prange kernels as simulated tasks.

Every compiled dispatcher found in sleplet is replaced by its Python source in which
`for i in numba.prange(...): body` becomes `__dst_prange(body_fn, ...)`.  Scalars assigned
in the body are private to an iteration (as numba makes them); names updated in place that
exist before the loop become shared reductions.
"""

import ast
import inspect
import operator
import os
import textwrap

import numpy as np

from . import engine

MADE = []


def sim_prange(body, *args):
    sim = engine.SIM
    idx = list(range(*args))
    if sim is None or sim.current is None or not sim.current.trace:
        for i in idx:
            body(i)
        return
    cur = sim.current
    nw = int(os.environ.get("NCPU", "4") or 4) if os.environ.get("NCPU", "4").isdigit() else 4
    nw = max(1, min(nw, len(idx)))
    errors = []
    done = []

    def worker(k):
        sim.current.prange = k, nw
        try:
            for i in idx[k::nw]:
                body(i)
        except (engine.SimCrash, engine.SimAbort):
            raise
        except BaseException as e:  # noqa: BLE001
            errors.append(e)

    tasks = [sim.spawn((lambda k=k: worker(k)), "prange", cur.proc, trace=True) for k in range(nw)]
    sim.event(f"prange {len(idx)} over {nw}")
    for t in tasks:
        while t.state != "done":
            t.joiners.append(sim.current)
            sim.block("prange", interruptible=False)
    if errors:
        raise errors[0]


class Reduction:
    """A variable that the iterations only add to (or multiply, ...): numba gives each thread its own share."""

    def __init__(self, value):
        self.value = value

    def update(self, how, x):
        self.value = HOW[how](self.value, x)


HOW = {"max": max, "min": min, **{n: getattr(operator, "i" + n) for n in ("add", "sub", "mul", "truediv", "and", "or", "xor")}}
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor"}


def _update_of(node):
    """(name, how, value) if the statement updates a variable by what it was."""
    if isinstance(node, ast.AugAssign) and isinstance(node.target, ast.Name) and type(node.op) in OPS:
        return node.target.id, OPS[type(node.op)], node.value
    if isinstance(node, ast.Assign) and len(node.targets) == 1 and isinstance(node.targets[0], ast.Name):
        n, v = node.targets[0].id, node.value
        if isinstance(v, ast.BinOp) and type(v.op) in OPS:
            if isinstance(v.left, ast.Name) and v.left.id == n:
                return n, OPS[type(v.op)], v.right
            if isinstance(v.right, ast.Name) and v.right.id == n and isinstance(v.op, (ast.Add, ast.Mult)):
                return n, OPS[type(v.op)], v.left
        if isinstance(v, ast.Call) and _name(v.func) in ("max", "min") and len(v.args) == 2:
            for i in (0, 1):
                if isinstance(v.args[i], ast.Name) and v.args[i].id == n:
                    return n, v.func.id, v.args[1 - i]
    return None


class _T(ast.NodeTransformer):
    def __init__(self):
        self.n = 0
        self.depth = 0
        self.found = False

    def visit_FunctionDef(self, node):
        node.decorator_list = []
        self.generic_visit(node)
        return node

    def visit_For(self, node):
        it = node.iter
        if not (isinstance(it, ast.Call) and _name(it.func).split(".")[-1] == "prange"):
            self.generic_visit(node)
            return node
        if self.depth:  # numba runs a prange within a prange like any other loop
            it.func = ast.Name("range", ast.Load())
            self.generic_visit(node)
            return node
        self.depth += 1
        self.generic_visit(node)
        self.depth -= 1
        self.found = True
        self.n += 1
        module = ast.Module(body=node.body, type_ignores=[])
        updated, assigned = set(), {node.target.id}
        for sub in ast.walk(module):
            if isinstance(sub, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                u = _update_of(sub)
                if u:
                    updated.add(u[0])
                    continue
                targets = sub.targets if isinstance(sub, ast.Assign) else [sub.target]
            elif isinstance(sub, ast.For):
                targets = [sub.target]
            elif isinstance(sub, ast.NamedExpr):
                targets = [sub.target]
            else:
                continue
            assigned |= {x.id for tgt in targets for x in ast.walk(tgt) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        reductions = sorted(updated - assigned)
        fname = f"__dst_body{self.n}"
        before, after = [], []
        for r in reductions:
            cell = f"__dst_sum{self.n}_{r}"
            before.append(ast.Assign([ast.Name(cell, ast.Store())], ast.Call(ast.Name("__dst_reduction", ast.Load()), [ast.Name(r, ast.Load())], [])))
            after.append(ast.Assign([ast.Name(r, ast.Store())], ast.Attribute(ast.Name(cell, ast.Load()), "value", ast.Load())))
        share = _Share(reductions, self.n)
        body = [share.visit(_skip(sub)) for sub in node.body]
        fn = ast.FunctionDef(
            name=fname,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=node.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], type_params=[],
        )
        call = ast.Expr(
            ast.Call(func=ast.Name("__dst_prange", ast.Load()), args=[ast.Name(fname, ast.Load()), *it.args], keywords=[])
        )
        out = [*before, fn, call, *after]
        for x in out:
            ast.copy_location(x, node)
        return out


class _Share(ast.NodeTransformer):
    def __init__(self, names, n):
        self.names, self.n = names, n

    def generic_visit(self, node):
        u = _update_of(node)
        if u and u[0] in self.names:
            call = ast.Call(ast.Attribute(ast.Name(f"__dst_sum{self.n}_{u[0]}", ast.Load()), "update", ast.Load()),
                            [ast.Constant(u[1]), u[2]], [])
            return ast.copy_location(ast.Expr(call), node)
        return super().generic_visit(node)


def _skip(node):
    """`continue` of the prange loop itself ends that iteration's function."""
    if isinstance(node, ast.Continue):
        return ast.Return()
    if isinstance(node, (ast.For, ast.While, ast.FunctionDef)):
        return node
    for f, v in ast.iter_fields(node):
        if isinstance(v, list):
            setattr(node, f, [_skip(x) if isinstance(x, ast.AST) else x for x in v])
    return node


def _name(f):
    if isinstance(f, ast.Attribute):
        return _name(f.value) + "." + f.attr
    return getattr(f, "id", "")


def pythonise(disp):
    fn = disp.py_func
    src = textwrap.dedent(inspect.getsource(fn))
    tree = ast.parse(src)
    t = _T()
    tree = t.visit(tree)
    tree.body = tree.body[:1]
    # shift line numbers so that traces name the real file and lines
    ast.increment_lineno(tree, fn.__code__.co_firstlineno - 1)
    ast.fix_missing_locations(tree)
    code = compile(tree, fn.__code__.co_filename, "exec")
    glob = fn.__globals__
    glob["__dst_prange"] = sim_prange
    glob["__dst_reduction"] = Reduction
    ns = {}
    exec(code, glob, ns)
    out = ns[fn.__name__]
    out.__dst_dispatcher__ = disp
    if fn.__closure__:
        raise engine.HarnessError(f"closure in numba kernel {fn.__qualname__}")
    MADE.append((fn.__qualname__, t.found))
    return out


def thread_ids():
    """numba's own numbering of its threads, to be in place before a kernel binds it."""
    import numba

    def here(i):
        sim = engine.SIM
        return getattr(sim.current, "prange", (0, None))[i] if sim is not None and sim.current is not None else (0, None)[i]

    def most():
        n = os.environ.get("NCPU", "4")
        return int(n) if n.isdigit() and int(n) else 4

    numba.get_thread_id = lambda: here(0)
    numba.get_num_threads = lambda: here(1) or most()


def install(modules):
    from numba.core.dispatcher import Dispatcher

    seen = {}

    def conv(d):
        if id(d) not in seen:
            seen[id(d)] = pythonise(d)
        return seen[id(d)]

    for m in modules:
        for k, v in list(vars(m).items()):
            if isinstance(v, Dispatcher):
                setattr(m, k, conv(v))
            elif isinstance(v, type) and v.__module__.startswith("sleplet"):
                for ck, cv in list(vars(v).items()):
                    inner = cv.__func__ if isinstance(cv, (staticmethod, classmethod)) else cv
                    if isinstance(inner, Dispatcher):
                        new = conv(inner)
                        setattr(v, ck, staticmethod(new) if isinstance(cv, staticmethod) else
                                classmethod(new) if isinstance(cv, classmethod) else new)
