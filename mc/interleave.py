"""Iteration schedules of the library's parallel loops, explored exhaustively.

Every numba dispatcher of the package compiled with parallel=True is found, the
source of its Python function is rewritten so that the body of each outermost
``prange`` loop is a coroutine that gives way after every statement, and the
coroutines are run one statement at a time under a scheduler.  All schedules
within a preemption bound are enumerated by depth-first search over the
scheduler's choices; each is one behaviour the thread pool may produce (the
order of the statements of different iterations is not constrained by the
language).  Names first stored in the body are private to the iteration, names
bound before the loop and read first in it are shared (reductions), as numba
treats them.

A kernel that cannot be rewritten (or does not run interpreted) is left
compiled; the caller learns from ``Lab.kernels`` which ones are explored.
"""
import ast
import contextlib
import importlib
import inspect
import pkgutil
import sys
import textwrap

import numba
from numba.core.dispatcher import Dispatcher


class Skip(Exception):
    pass


class Scheduler:
    """Runs coroutines by a prescribed list of choices; then the default policy
    (run the lowest iteration to its end).  Records the choice points."""

    def __init__(self, prefix=(), bound=2, focus=-1):
        self.prefix = list(prefix)
        self.bound = bound
        self.points = []   # (number of alternatives, chosen)
        self.budget = bound
        self.active = False
        self.focus = focus
        self.loops = 0

    def run(self, body, iterable):
        its = list(iterable)
        if self.active or len(its) < 2:
            for i in its:
                for _ in body(i):
                    pass
            return
        self.loops += 1
        if self.loops - 1 != self.focus:
            self.active = True
            try:
                for i in its:
                    for _ in body(i):
                        pass
            finally:
                self.active = False
            return
        self.active = True
        try:
            live = {k: body(i) for k, i in enumerate(its)}
            cur = None
            while live:
                keys = list(live)
                fresh = cur is None
                if fresh:
                    # up to three iterations: any order; more: leaving the
                    # natural order counts as a deviation too
                    opts = keys if len(its) <= 3 or self.budget > 0 else keys[:1]
                elif self.budget > 0:
                    opts = [cur] + [k for k in keys if k != cur]
                else:
                    opts = [cur]
                c = 0
                if len(opts) > 1:
                    n = len(self.points)
                    c = self.prefix[n] if n < len(self.prefix) else 0
                    c = min(c, len(opts) - 1)
                    self.points.append((len(opts), c))
                nxt = opts[c]
                if (not fresh and nxt != cur) or (fresh and c and len(its) > 3):
                    self.budget -= 1
                cur = nxt
                try:
                    next(live[cur])
                except StopIteration:
                    del live[cur]
                    cur = None
        finally:
            self.active = False


CUR = [Scheduler()]


def _drive(body, iterable):
    CUR[0].run(body, iterable)


class _First(ast.NodeVisitor):
    """names of the body by their first occurrence: 'load' or 'store'"""

    def __init__(self):
        self.first = {}
        self.stored = set()

    def _n(self, name, how):
        self.first.setdefault(name, how)
        if how == "store":
            self.stored.add(name)

    def visit_Name(self, n):
        self._n(n.id, "store" if isinstance(n.ctx, (ast.Store, ast.Del)) else "load")

    def visit_Assign(self, n):
        self.visit(n.value)
        for t in n.targets:
            self.visit(t)

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)
        self.visit(n.target)

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Name):
            self._n(n.target.id, "load")
            self.stored.add(n.target.id)
        else:
            self.visit(n.target)
        self.visit(n.value)

    def visit_For(self, n):
        self.visit(n.iter)
        self.visit(n.target)
        for s in n.body + n.orelse:
            self.visit(s)


def _is_prange(node):
    if isinstance(node, ast.For) and isinstance(node.iter, ast.Call):
        f = node.iter.func
        return (isinstance(f, ast.Name) and f.id == "prange") or (isinstance(f, ast.Attribute) and f.attr == "prange")
    return False


class _Body(ast.NodeTransformer):
    """yields after each statement; `continue` of the parallel loop ends the iteration"""

    def __init__(self):
        self.depth = 0

    def block(self, stmts):
        out = []
        for s in stmts:
            s = self.visit(s)
            out.append(s)
            if not isinstance(s, (ast.Return, ast.Continue, ast.Break, ast.Pass)):
                out.append(ast.Expr(ast.Yield(None)))
        return out

    def visit_For(self, n):
        self.depth += 1
        n.body = self.block(n.body)
        self.depth -= 1
        n.orelse = self.block(n.orelse)
        return n

    def visit_While(self, n):
        self.depth += 1
        n.body = self.block(n.body)
        self.depth -= 1
        n.orelse = self.block(n.orelse)
        return n

    def visit_If(self, n):
        n.body = self.block(n.body)
        n.orelse = self.block(n.orelse)
        return n

    def visit_With(self, n):
        n.body = self.block(n.body)
        return n

    def visit_Continue(self, n):
        return ast.Return(None) if self.depth == 0 else n

    def visit_Return(self, n):
        raise Skip("return in a parallel loop")

    def visit_Yield(self, n):
        raise Skip("generator")

    def visit_FunctionDef(self, n):
        raise Skip("nested function")


class _Loops(ast.NodeTransformer):
    def __init__(self, bound):
        self.bound = bound     # names bound in the function outside the loops
        self.count = 0

    def visit_For(self, n):
        if not _is_prange(n):
            self.generic_visit(n)
            return n
        if not isinstance(n.target, ast.Name):
            raise Skip("target")
        f = _First()
        for s in n.body:
            f.visit(s)
        shared = sorted(x for x in f.stored if f.first[x] == "load" and x in self.bound and x != n.target.id)
        if n.target.id in f.stored:
            raise Skip("loop variable stored")
        body = _Body().block(n.body)
        if shared:
            body.insert(0, ast.Nonlocal(shared))
        body.append(ast.Expr(ast.Yield(None)))
        name = f"__mc_body{self.count}"
        self.count += 1
        fn = ast.FunctionDef(
            name=name,
            args=ast.arguments(posonlyargs=[], args=[ast.arg(n.target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=body, decorator_list=[], type_params=[],
        )
        rng = ast.Call(ast.Name("__mc_range", ast.Load()), n.iter.args, [])
        call = ast.Expr(ast.Call(ast.Name("__mc_drive", ast.Load()), [ast.Name(name, ast.Load()), rng], []))
        return [fn, call]


def _interpret(disp):
    f = disp.py_func
    if f.__code__.co_freevars:
        raise Skip("closure")
    tree = ast.parse(textwrap.dedent(inspect.getsource(f)))
    fd = tree.body[0]
    if not isinstance(fd, ast.FunctionDef):
        raise Skip("not a function")
    fd.decorator_list = []
    fd.returns = None
    for a in fd.args.args + fd.args.kwonlyargs:
        a.annotation = None
    bound = {a.arg for a in fd.args.args + fd.args.kwonlyargs}

    class Outer(ast.NodeVisitor):
        def visit_For(self, n):
            if _is_prange(n):
                return
            self.generic_visit(n)

        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Store):
                bound.add(n.id)

    Outer().visit(fd)
    tr = _Loops(bound)
    fd = tr.visit(fd)
    if tr.count == 0:
        raise Skip("no loop")
    tree.body[0] = fd
    ast.fix_missing_locations(tree)
    ns = dict(f.__globals__)
    ns.update(__mc_drive=_drive, __mc_range=range, prange=range)
    exec(compile(tree, f"<interleaved {f.__name__}>", "exec"), ns)
    g = ns[fd.name]
    g.__defaults__ = f.__defaults__
    g.__kwdefaults__ = f.__kwdefaults__
    return g


class Lab:
    def __init__(self):
        import sigmaepsilon.math as pkg

        for m in pkgutil.walk_packages(pkg.__path__, "sigmaepsilon.math."):
            try:
                importlib.import_module(m.name)
            except Exception:
                pass
        self.kernels = {}
        self.skipped = {}
        self.sites = []        # (module, attribute, dispatcher, interpreted)
        self.hits = {}
        made = {}
        for name, mod in sorted(sys.modules.items()):
            if not name.startswith("sigmaepsilon.math") or mod is None:
                continue
            for attr, val in list(vars(mod).items()):
                if not isinstance(val, Dispatcher) or not val.targetoptions.get("parallel"):
                    continue
                if id(val) not in made:
                    label = f"{val.py_func.__module__.replace('sigmaepsilon.math.', '')}.{val.py_func.__name__}"
                    try:
                        made[id(val)] = self._counted(label, _interpret(val))
                        self.kernels[label] = val
                    except Exception as e:
                        self.skipped[label] = f"{type(e).__name__}: {e}"
                        made[id(val)] = None
                if made[id(val)] is not None:
                    self.sites.append((mod, attr, val, made[id(val)]))

    def _counted(self, label, g):
        def run(*args, **kw):
            self.hits[label] = self.hits.get(label, 0) + 1
            return g(*args, **kw)

        return run

    @contextlib.contextmanager
    def installed(self):
        for mod, attr, val, g in self.sites:
            setattr(mod, attr, g)
        try:
            yield self
        finally:
            for mod, attr, val, g in self.sites:
                setattr(mod, attr, val)


def schedules(run, bound=2, limit=20000, beat=None):
    """Yields (choices, result) of `run()`: first the sequential schedule, then,
    for each parallel loop the run executes, every schedule of that loop within
    the bound, the other loops being run sequentially (they are separated by
    barriers; if no loop's result depends on its schedule, nor does any product)."""

    def once(prefix, focus):
        s = Scheduler(prefix, bound, focus)
        CUR[0] = s
        try:
            return s, run()
        finally:
            CUR[0] = Scheduler()

    s, res = once((), -1)
    yield [], res
    for focus in range(s.loops):
        stack = [()]
        n = 0
        while stack:
            prefix = stack.pop()
            s, res = once(prefix, focus)
            chosen = [c for _, c in s.points]
            yield [focus] + chosen, res
            n += 1
            if beat:
                beat()
            if n >= limit:
                raise RuntimeError("too many schedules")
            for i in range(len(s.points) - 1, len(prefix) - 1, -1):
                for c in range(s.points[i][0] - 1, 0, -1):
                    stack.append(tuple(chosen[:i]) + (c,))


def explore(ctx, lab, label, run, same, bound=2, limit=20000):
    """All schedules of `run` against the sequential one.  `run` must build its
    inputs afresh.  Returns the number of schedules (0: nothing interleaved)."""
    from .core import Violation

    n = 0
    hits0 = dict(lab.hits)
    with lab.installed():
        it = schedules(run, bound, limit, ctx.beat)
        try:
            choices, base = next(it)
        except Violation:
            raise
        except Exception as e:
            ctx.outcome(f"not interpretable here: {label} ({type(e).__name__})")
            return 0
        n = 1
        try:
            for choices, res in it:
                n += 1
                if not same(base, res):
                    raise Violation(
                        f"{label}: the result depends on the order in which the parallel loop is run "
                        f"(schedule {choices}): {res!r} instead of {base!r}"
                    )
        except RuntimeError as e:
            if "too many schedules" not in str(e):
                raise
            ctx.cap(f"{label}: schedules capped at {limit}")
    for k, v in lab.hits.items():
        if v != hits0.get(k, 0):
            ctx.outcome(f"interleaved {k}")
    ctx.trace(n)
    ctx.step(n)
    ctx.state(("sched", label, n))
    return n
