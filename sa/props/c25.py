"""C25: asynchronous work is always waited for or kept."""

from __future__ import annotations

import ast

from sa.model import dotted

LEVEL = "proof"
EXPLANATION = (
    "Every call in the package that creates a coroutine, future or task (resolved by the types of receivers: this package's coroutine functions, and those of asyncio) "
    "is followed to where its result goes: it must be awaited, returned, stored or given to something that takes awaitables."
)

WAIT = {
    "asyncio.sleep", "asyncio.wait", "asyncio.wait_for", "asyncio.gather", "asyncio.open_connection", "asyncio.start_server", "asyncio.to_thread", "asyncio.shield",
    "vcorelib.asyncio.poll.repeat_until", "asyncio.create_subprocess_exec", "asyncio.create_subprocess_shell",
}
METHODS = {
    "asyncio.Queue": {"put", "get", "join"},
    "asyncio.Event": {"wait"},
    "asyncio.Lock": {"acquire"},
    "asyncio.Semaphore": {"acquire"},
    "asyncio.BoundedSemaphore": {"acquire"},
    "asyncio.Condition": {"wait", "wait_for", "acquire"},
    "asyncio.StreamReader": {"read", "readline", "readexactly", "readuntil"},
    "asyncio.StreamWriter": {"drain", "wait_closed"},
    "asyncio.subprocess.Process": {"wait", "communicate"},
    "asyncio.AbstractEventLoop": {"create_datagram_endpoint", "create_connection", "create_server", "run_in_executor", "sendfile"},
    "asyncio.AbstractServer": {"serve_forever", "wait_closed"},
    "asyncio.Server": {"serve_forever", "wait_closed"},
}
LOOPS = {"asyncio.get_running_loop", "asyncio.get_event_loop", "asyncio.new_event_loop"}
SPAWN = {"create_task", "ensure_future", "run_coroutine_threadsafe"}
PLAIN = {"str", "bytes", "bool", "len", "int", "float", "print", "repr", "isinstance", "dict", "hasattr", "getattr", "sum", "any", "all", "min", "max"}
LIBRARY = {"enter_async_context", "aclose", "subprocess_exec", "subprocess_shell", "create_datagram_endpoint", "create_server", "create_connection", "run_in_executor", "__aenter__", "__aexit__"}
FILES = {"read", "write", "readline", "readlines", "seek", "tell", "flush"}
KEEPS = {
    "append", "add", "extend", "insert", "put", "put_nowait", "setdefault", "set", "create_task", "ensure_future", "run", "run_until_complete", "gather", "wait", "wait_for",
    "shield", "run_coroutine_threadsafe", "submit", "callback", "push_async_exit", "push_async_callback", "appendleft", "partial", "apply", "cast", "as_completed", "close",
}
BLOCKING = {
    "time.sleep", "subprocess.run", "subprocess.call", "subprocess.check_call", "subprocess.check_output", "os.system", "os.wait", "os.waitpid", "asyncio.run", "input",
    "urllib.request.urlopen", "socket.create_connection", "select.select",
}
ITERATE = {"zip", "list", "tuple", "set", "enumerate", "sorted", "map", "filter", "iter", "next"}
AWAITABLE = ("Awaitable", "Coroutine", "Task", "Future", "Any", "TypeVar")


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A coroutine that's created is run: awaited, returned, stored or given to what takes awaitables.")
    R2 = ctx.rule("R2", "A task that's created is kept: awaited, returned, stored or observed.")
    R3 = ctx.rule("R3", "Results of asynchronous work aren't used in place of its outcome.")
    R4 = ctx.rule("R4", "Functions that run in the event loop never block it: by sleeping, waiting for a process or waiting for work of the loop itself.")
    p = ctx.p
    names: dict[str, list] = {}
    for func in p.all_functions():
        names.setdefault(func.name, []).append(func)
    n = {"coroutines": 0, "tasks": 0}
    for func in p.all_functions():
        check(ctx, func, names, R1, R2, R3, n)
        if func.is_async:
            for node in own_nodes(func):
                if isinstance(node, ast.Call):
                    full = func.module.resolve_dotted(dotted(node.func) or "?")
                    blocks = full in BLOCKING or isinstance(node.func, ast.Attribute) and node.func.attr in ("run_until_complete", "run_forever")
                    ctx.ob(R4, f"{func.qual}/{full.rpartition('.')[2]}", not blocks, f"{full}() blocks the event loop", f"{func.module.rel}:{node.lineno}")
    ctx.ob(R1, "coroutines", n["coroutines"] > 50, "no coroutines are found", "runtimepy")
    ctx.ob(R2, "tasks", n["tasks"] > 5, "no tasks are found", "runtimepy")


def is_coroutine(func) -> bool:
    return func.is_async and not func.is_generator and not func.is_cm


def own_nodes(func):
    """Nodes of a function that aren't those of nested functions (but of its lambdas)."""

    def walk(node):
        for sub in ast.iter_child_nodes(node):
            if isinstance(sub, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                continue
            yield sub
            yield from walk(sub)

    for stmt in func.node.body:
        if isinstance(stmt, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            continue
        yield stmt
        yield from walk(stmt)


def callee(p, call, func, names):
    """(kind, name, function) of what's called: 'coro', 'task' or None."""
    kind, name, target = _callee(p, call, func, names)
    fn = call.func
    if kind is None and target is None:
        if isinstance(fn, ast.Attribute) and fn.attr in LIBRARY:
            return "coro", fn.attr, None
        if callable_kind(p, fn, func):
            return "coro", ast.unparse(fn), None
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in opened(func) and fn.attr in FILES:
            return "coro", fn.attr, None
    return kind, name, target


def opened(func) -> set:
    """Names of files that are opened asynchronously."""
    out = set()
    for node in ast.walk(func.node):
        if isinstance(node, ast.AsyncWith):
            for item in node.items:
                if isinstance(item.optional_vars, ast.Name) and "aiofiles" in ast.unparse(item.context_expr):
                    out.add(item.optional_vars.id)
    return out


def _callee(p, call, func, names):
    fn = call.func
    module = func.module
    full = module.resolve_dotted(dotted(fn) or "?")
    if full in WAIT or full.replace("_asyncio", "asyncio") in WAIT:
        return "coro", full, None
    if isinstance(fn, ast.Attribute):
        if fn.attr in SPAWN:
            # Members of task groups are kept by the group.
            kinds = {t for t, _ in p.expr_types(fn.value, func, func.cls)}
            return (None, "", None) if "asyncio.TaskGroup" in kinds or isinstance(fn.value, ast.Name) and in_group(func, fn.value.id) else ("task", full, None)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and func.cls is not None:
            meth = p.lookup(func.cls, fn.attr, after=func.cls)
            return ("coro", meth.qual, meth) if meth is not None and is_coroutine(meth) else (None, "", meth)
        got = p.func(full)
        if got is not None:
            return ("coro", got.qual, got) if is_coroutine(got) else (None, "", got)
        found = []
        typed = False
        for tname, targs in p.expr_types(fn.value, func, func.cls):
            if tname == "type" and targs:
                for iname, _ in targs[0]:
                    cls = p.cls(iname)
                    meth = p.lookup(cls, fn.attr) if cls is not None else None
                    typed = typed or cls is not None
                    if meth is not None:
                        found.append(meth)
                continue
            cls = p.cls(tname)
            if cls is not None:
                typed = True
                meth = p.lookup(cls, fn.attr)
                if meth is not None:
                    found.append(meth)
            short = tname.replace("_asyncio", "asyncio")
            if fn.attr in METHODS.get(short, ()) or short in LOOPS and fn.attr in METHODS["asyncio.AbstractEventLoop"]:
                return "coro", f"{short}.{fn.attr}", None
            typed = typed or tname not in ("object",)
        if found:
            meth = found[0]
            return ("coro", meth.qual, meth) if all(is_coroutine(x) for x in found) else (None, "", meth)
        if isinstance(fn.value, ast.Name) and fn.value.id in ("self", "cls") and func.cls is not None:
            meth = p.lookup(func.cls, fn.attr)
            if meth is not None:
                return ("coro", meth.qual, meth) if is_coroutine(meth) else (None, "", meth)
        # By its name, if there's just that.
        same = names.get(fn.attr, [])
        if not typed and same and all(is_coroutine(x) for x in same) and fn.attr.find("_") >= 0:
            return "coro", fn.attr, same[0]
        return None, "", None
    if isinstance(fn, ast.Name):
        scope = func
        while scope is not None:
            got = p.functions.get(f"{scope.qual}.<locals>.{fn.id}")
            if got is not None:
                return ("coro", got.qual, got) if is_coroutine(got) else (None, "", got)
            scope = scope.outer
        got = p.func(p.canonical(full)) or p.func(full)
        if got is not None:
            return ("coro", got.qual, got) if is_coroutine(got) else (None, "", got)
        if full.rpartition(".")[2] in SPAWN:
            return "task", full, None
    return None, "", None


def awaitable_type(types) -> bool:
    """Determine if all that something may be is awaitable."""
    return bool(types) and all(t.rpartition(".")[2].lstrip("_") in ("Awaitable", "Coroutine", "Task", "Future") for t, _ in types)


def callable_kind(p, fn, func) -> bool:
    """Determine if what's called is annotated to provide something awaitable."""
    for tname, targs in p.expr_types(fn, func, func.cls):
        if tname.rpartition(".")[2].lstrip("_") == "Callable" and len(targs) == 2 and awaitable_type(targs[1]):
            return True
    return False


def accepts(p, annotation, owner) -> bool:
    """Determine if an annotation admits something awaitable."""
    if annotation is None:
        return True
    text = ast.unparse(annotation)
    types = p.ann_types(annotation, owner.module, owner.cls)
    return any(x in text for x in AWAITABLE) or any(x in t for t, _ in types for x in AWAITABLE) or not types and text not in ("None",)


def spawned(func, node) -> bool:
    """Determine if a name is that of a task that's created."""
    return isinstance(node, ast.Name) and any(
        isinstance(x, ast.Assign) and isinstance(x.value, ast.Call) and (dotted(x.value.func) or "").rpartition(".")[2] in SPAWN
        and any(isinstance(t, ast.Name) and t.id == node.id for t in x.targets)
        for x in ast.walk(func.node)
    )


def in_group(func, name: str) -> bool:
    for node in ast.walk(func.node):
        if isinstance(node, ast.AsyncWith):
            for item in node.items:
                if isinstance(item.optional_vars, ast.Name) and item.optional_vars.id == name and "TaskGroup" in ast.dump(item.context_expr):
                    return True
    return False


def check(ctx, func, names, R1, R2, R3, n) -> None:
    p = ctx.p
    nodes = list(own_nodes(func))
    parents = {}
    for node in nodes:
        for sub in ast.iter_child_nodes(node):
            parents[sub] = node

    def taker(call, arg) -> bool:
        """Determine if something that's called may be given an awaitable."""
        fn = call.func
        full = func.module.resolve_dotted(dotted(fn) or "?")
        if full in PLAIN or full in ITERATE and isinstance(arg, ast.Call):
            return False
        _, _, target = callee(p, call, func, names)
        if target is None and isinstance(fn, ast.Name):
            cls = p.cls(p.canonical(full)) or p.cls(full)
            target = p.lookup(cls, "__init__") if cls is not None else None
        if target is None:
            if isinstance(fn, ast.Attribute):
                return fn.attr in KEEPS or fn.attr.startswith("_") or p.cls(full) is not None
            return not isinstance(fn, ast.Name) or full not in PLAIN
        formals = [a for a in target.params() if a.arg not in ("self", "cls")]
        extra = target.node.args.vararg
        for kw in call.keywords:
            if kw.value is arg:
                formals = [a for a in formals if a.arg == kw.arg] or ([] if target.node.args.kwarg is None else [target.node.args.kwarg])
                break
        else:
            index = call.args.index(arg) if arg in call.args else 0
            formals = formals[index : index + 1] or ([extra] if extra is not None else [])
        return not formals or accepts(p, formals[0].annotation, target)

    def provided(task) -> str | None:
        """The problem with returning or providing something awaitable."""
        note = func.node.returns
        if note is None:
            return None if task or not func.is_async else "its outcome isn't what's returned"
        if func.is_generator or func.is_cm:
            item = note.slice if isinstance(note, ast.Subscript) else None
            item = item.elts[0] if isinstance(item, ast.Tuple) else item
            return None if item is None or accepts(p, item, func) else "its outcome isn't what's provided"
        return None if accepts(p, note, func) else "its outcome isn't what's returned"

    def consumed(node, seen, task=False, many=False) -> str | None:
        """The problem with how an awaitable is used."""
        par = parents.get(node)
        if par is None:
            return "it's discarded"
        if isinstance(par, (ast.Await, ast.YieldFrom, ast.Lambda)):
            return None
        if isinstance(par, (ast.Return, ast.Yield)):
            return provided(task)
        if isinstance(par, ast.Expr):
            return "it's discarded"
        if isinstance(par, (ast.List, ast.Tuple, ast.Set, ast.Starred, ast.IfExp, ast.BoolOp, ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.Dict, ast.DictComp, ast.NamedExpr)):
            if isinstance(par, ast.IfExp) and par.test is node:
                return "its outcome isn't what's tested"
            if isinstance(par, ast.BoolOp) and node is not par.values[-1]:
                return "its outcome isn't what's tested"
            return consumed(par, seen, task, many)
        if isinstance(par, ast.comprehension):
            return None if par.iter is node and (many or isinstance(node, (ast.List, ast.Tuple))) else "its outcome isn't what's iterated"
        if isinstance(par, ast.keyword):
            call = parents.get(par)
            return None if not isinstance(call, ast.Call) or taker(call, node) else f"it's used as a value by {ast.unparse(call.func)}"
        if isinstance(par, ast.Call):
            if par.func is node:
                return "it's called"
            if isinstance(par.func, ast.Name) and par.func.id == "cast" or (dotted(par.func) or "").endswith("cast"):
                return consumed(par, seen, task, many)
            return None if taker(par, node) else f"it's used as a value by {ast.unparse(par.func)}"
        if isinstance(par, (ast.Assign, ast.AnnAssign)):
            targets = par.targets if isinstance(par, ast.Assign) else [par.target]
            left = None
            for target in targets:
                if isinstance(target, (ast.Attribute, ast.Subscript)):
                    return None
                if isinstance(target, ast.Tuple):
                    if not isinstance(node, ast.Tuple):
                        return "its outcome isn't what's unpacked"
                    return None
                if isinstance(target, ast.Name):
                    if target.id in seen:
                        return None
                    uses = [x for x in ast.walk(func.node) if isinstance(x, ast.Name) and x.id == target.id and isinstance(x.ctx, ast.Load)]
                    if not uses:
                        return "it's never used"
                    problems = [consumed(x, seen | {target.id}, task, many or not isinstance(node, (ast.Call, ast.Name))) if x in parents else None for x in uses]
                    if all(problems):
                        left = problems[0]
            return left
        if isinstance(par, ast.AugAssign):
            return None if not isinstance(node, ast.Call) else "its outcome isn't what's used"
        if isinstance(par, (ast.For, ast.AsyncFor)):
            return None if many or isinstance(node, (ast.List, ast.Tuple)) else "its outcome isn't what's iterated"
        if isinstance(par, ast.withitem):
            return "its outcome isn't what's entered"
        if isinstance(par, ast.BinOp) and (many or isinstance(node, (ast.List, ast.Tuple, ast.ListComp, ast.BinOp))):
            return consumed(par, seen, task, many)
        if isinstance(par, ast.Compare) and isinstance(node, ast.Name) and task:
            return None
        if isinstance(par, (ast.Compare, ast.UnaryOp, ast.If, ast.While, ast.Assert, ast.FormattedValue, ast.BinOp)):
            return "its outcome isn't what's tested"
        if isinstance(par, (ast.Attribute, ast.Subscript)):
            return "its outcome isn't what's used" if not isinstance(node, (ast.List, ast.Tuple, ast.ListComp)) and not (task and isinstance(node, ast.Name)) else None
        return None

    for node in nodes:
        if isinstance(node, ast.Expr) and isinstance(node.value, (ast.Name, ast.Attribute)):
            # Naming a task doesn't wait for it.
            ctx.ob(R1, f"{func.qual}/named", not awaitable_type(p.expr_types(node.value, func, func.cls)) and not spawned(func, node.value), f"{ast.unparse(node.value)} isn't waited for", f"{func.module.rel}:{node.lineno}")
            continue
        if not isinstance(node, ast.Call):
            continue
        kind, name, _ = callee(p, node, func, names)
        if kind is None:
            continue
        short = name.rpartition(".")[2]
        where = f"{func.module.rel}:{node.lineno}"
        if kind == "task":
            n["tasks"] += 1
            par = parents.get(node)
            # What's done with a task right away (a callback) keeps it.
            problem = consumed(node, frozenset(), True)
            if isinstance(par, ast.Attribute):
                problem = None if par.attr in ("add_done_callback",) else problem
            ctx.ob(R2, f"{func.qual}/{short}", problem is None, f"a task isn't kept: {problem}", where)
            continue
        n["coroutines"] += 1
        problem = consumed(node, frozenset())
        rule = R3 if problem and ("outcome" in problem or "value" in problem) else R1
        ctx.ob(rule, f"{func.qual}/{short}", problem is None, f"{short}() isn't waited for: {problem}", where)
        if rule == R1:
            ctx.ob(R3, f"{func.qual}/{short}", True, "", where)
