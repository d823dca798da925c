"""C02: scoped registrations and resources are released on every exit."""

from __future__ import annotations

from sa import terms as T

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path (normal, exceptional, cancelled) of every context-manager function in the package: whatever the function "
    "acquired before handing control to its caller's block (a value-change registration, a log handler, a task, a subprocess, a running task "
    "group, a mode flag) is released on all paths that leave the block. Also: every in-package context manager that is called is actually "
    "entered, and exit stacks are still open when control is handed out. Decided for all exits of all managers found; what happens inside of library "
    "context managers is trusted."
)

ACQ_CALLS = ("register_callback", "addHandler", "create_task", "ensure_future", "subprocess_exec", "subprocess_shell")
OPAQUE = {"register_callback", "set_value", "update", "remove_callback", "close_protocol", "disable", "log_process_info", "_poll", "loopback", "wait_json", "share_environment", "export", "export_directory", "process_command_queue", "service_queues", "cleanup", "init", "poll", "normalize_host", "create_connection", "handle_possible_ssl", "write_meta", "search"}


def const_bool(term):
    return term is not None and term[0] == "const" and isinstance(term[2], bool)


def label(e):
    ev = e.ev
    if e.kind == "call":
        if ev.recv is not None and ev.attr == "register_callback":
            return ("acq", "callback", T.strip(ev.recv), ev.term)
        if ev.recv is not None and ev.attr == "remove_callback" and ev.args:
            return ("rel", "callback", T.strip(ev.recv), ev.args[0])
        if ev.recv is not None and ev.attr == "addHandler" and ev.args:
            return ("acq", "handler", T.strip(ev.recv), ev.args[0])
        if ev.recv is not None and ev.attr == "removeHandler" and ev.args:
            return ("rel", "handler", T.strip(ev.recv), ev.args[0])
        if ev.name in ("asyncio.create_task", "asyncio.ensure_future") or ev.attr in ("create_task",):
            return ("acq", "task", None, ev.term)
        if ev.attr in ("subprocess_exec", "subprocess_shell"):
            return ("acq", "process", None, ("await", ev.term))
        if ev.name.split(".")[-1] in ("close_protocol", "shutdown_protocol") and ev.args:
            return ("rel", "process", None, ev.args[0])
        if ev.func is not None and ev.func.name == "start" and ev.recv is not None:
            return ("acq", "group", T.strip(ev.recv), None)
        if ev.func is not None and ev.func.name == "stop" and ev.recv is not None:
            return ("rel", "group", T.strip(ev.recv), None)
        if ev.attr == "cancel" and ev.recv is not None:
            return ("cancel", ev.recv)
        if ev.attr in ("enter_context", "enter_async_context") and ev.recv is not None:
            return ("entered", T.strip(ev.recv))
        if ev.func is not None and ev.func.name == "cleanup" and ev.recv is not None:
            return ("rel", "cleanup", None, None)
        if ev.func is not None and ev.func.name == "disable":
            return ("disable", T.strip(ev.recv))
        if ev.name.endswith("FileHandler"):
            return ("acq", "file", None, ev.term)
        if ev.attr == "close" and ev.recv is not None:
            return ("rel", "file", None, ev.recv)
    if e.kind == "await":
        term = e.term
        if term[0] == "call" and term[2] in ("asyncio.gather", "asyncio.wait"):
            items = []
            for arg in term[4]:
                items.extend(T.containers(arg[1] if arg[0] == "star" else arg))
            return [("rel", "task", None, x) for x in items]
        return ("rel", "task", None, term)
    if e.kind == "store" and ev.kind == "attr" and ev.base is not None and ev.base[0] == "self" and const_bool(ev.value):
        return ("flag", ev.name, ev.value[2])
    if e.kind == "yield" and e.frame.uid == "":
        return ("yield", tuple(e.st.held))
    return None


def same(a, b) -> bool:
    if a is None or b is None:
        return a is b
    if a == b:
        return True
    sa, sb = T.strip(a), T.strip(b)
    if sa == sb:
        return True
    # (transport, protocol) = await ...; either stands for the resource.
    if sb[0] == "unpack" and same(sa, sb[1]):
        return True
    return False


def pending(path) -> list[str]:
    """Resources still held when a path ends after handing out control."""
    first = path.index("yield")
    held: list = []
    flags: dict[str, bool] = {}
    initial: dict[str, bool] = {}
    for i, x in enumerate(path.labels):
        if x[0] == "acq":
            if i < first:
                held.append(x)
        elif x[0] == "rel":
            if i > first:
                if x[1] == "task":
                    # A task is released by stopping it and waiting for it.
                    hit = [h for h in held if h[1] == "task" and same(h[3], x[3])]
                    told = any(y[0] == "disable" or y[0] == "cancel" and hit and same(hit[0][3], y[1]) for y in path.labels[first:i])
                    if hit and not told:
                        continue
                held = [h for h in held if not (h[1] == x[1] and h[2] == x[2] and (h[3] is None or same(h[3], x[3])))]
                if x[1] == "group":
                    held = [h for h in held if not (h[1] == "group" and h[2] == x[2])]
        elif x[0] == "flag":
            if i < first:
                initial[x[1]] = x[2]
            flags[x[1]] = x[2]
    out = [f"{h[1]} {T.path(h[3]) if h[3] else ''}".strip() for h in held]
    for name, val in initial.items():
        if flags[name] == val:
            out.append(f"flag {name}={val}")
    return out


# Managers whose guarantees are part of the property, and what they hold.
TABLE = {
    "runtimepy.primitives.base.Primitive.callback": {"callback"},
    "runtimepy.channel.event.PrimitiveEvent.registered": {"callback", "flag"},
    "runtimepy.mixins.finalize.FinalizeMixin.bypass_finalized": {"flag"},
    "runtimepy.channel.environment.command.GlobalEnvironment.log_file": {"handler"},
    "runtimepy.net.connection.Connection.process_then_disable": {"task"},
    "runtimepy.subprocess.spawn_exec": {"process"},
    "runtimepy.subprocess.spawn_shell": {"process"},
    "runtimepy.task.basic.manager.PeriodicTaskManager.running": {"group"},
    "runtimepy.subprocess.peer.RuntimepyPeer.exec": {"process", "task"},
    "runtimepy.subprocess.peer.RuntimepyPeer.shell": {"process", "task"},
    "runtimepy.subprocess.program.PeerProgram.running": {"handler", "task", "entered"},
    "runtimepy.net.udp.tftp.tftp": {"task"},
    "runtimepy.channel.registry.ChannelRegistry.registered": {"entered"},
    "runtimepy.channel.environment.telemetry.TelemetryChannelEnvironment.registered": {"entered"},
    "runtimepy.channel.environment.command.GlobalEnvironment.file_event_stream": {"entered"},
    "runtimepy.subprocess.peer.RuntimepyPeer.running_program": {"entered"},
    "runtimepy.subprocess.program.PeerProgram.streaming_events": {"entered"},
}

def opaque(it, ev):
    return ev.func is not None and ev.func.name in OPAQUE


def run(ctx) -> None:
    p = ctx.p
    ctx.rule("R1", "everything acquired before the managed block is released on every path leaving it")
    ctx.rule("R2", "exit stacks are still open when control is handed to the managed block")
    ctx.rule("R3", "a called in-package context manager is entered")
    ctx.rule("R4", "the manager really holds the resource its contract names while the block runs")
    ctx.rule("R5", "a connection is disabled before its processing task is awaited")

    managers = [f for f in p.all_functions() if f.is_cm]
    ctx.floor("R1", "context managers", len(managers), 25)
    seen = set()
    for func in managers:
        seen.add(func.qual)
        tr = ctx.trace(func, label, opaque=opaque, cap=3, raises=lambda it, ev: False if ev.attr in ("remove_callback", "removeHandler", "close", "disable") else None)
        bad = None
        kinds = set()
        for path in tr.all:
            i = path.index("yield")
            if i < 0:
                continue
            for x in path.labels[:i]:
                if x[0] == "acq":
                    kinds.add(x[1])
                if x[0] == "flag" and x[2]:
                    kinds.add("flag")
                if x[0] == "entered":
                    kinds.add("entered")
            if any(h[0] in ("call", "gen") and h[2 if h[0] == "call" else 1].split(".")[-1] in ("registered", "streaming_events", "exec") for h in path.labels[i][1]):
                kinds.add("entered")
            left = pending(path)
            if left:
                bad = bad or (left, path)
            for x in path.labels[:i]:
                if x[0] == "entered" and (x[1][1] if x[1][0] == "enter" else x[1]) not in path.labels[i][1]:
                    # The stack may belong to someone else (a parameter or an
                    # attribute outlives this block).
                    if x[1][0] in ("enter", "call", "new") or x[1][0] == "phi":
                        ctx.ob("R2", func.qual, False, f"the exit stack {T.path(x[1])} is closed before control is handed out", func.where, path.show())
        ctx.ob("R1", func.qual, bad is None, f"not released when the managed block ends: {', '.join(bad[0]) if bad else ''}", func.where, bad[1].show() if bad else ())
        ctx.ob("R2", func.qual, True)
        if func.qual in TABLE:
            missing = TABLE[func.qual] - kinds
            ctx.ob("R4", func.qual, not missing, f"never holds: {', '.join(sorted(missing))}", func.where)
            yields = [path for path in tr.all if path.has("yield")]
            ctx.ob("R4", f"{func.qual}/yields", bool(yields), "never hands control out", func.where)
        if func.name == "process_then_disable":
            for path in tr.all:
                i = path.index("yield")
                if i < 0:
                    continue
                rest = path.labels[i:]
                dis = [k for k, x in enumerate(rest) if x[0] == "disable"]
                aw = [k for k, x in enumerate(rest) if x[0] == "rel" and x[1] == "task"]
                if aw and (not dis or dis[0] > aw[0]):
                    ctx.ob("R5", func.qual, False, "waits for the connection without disabling it first", func.where, path.show())
            ctx.ob("R5", func.qual, True)
    for qual in TABLE:
        func = p.func(qual)
        ctx.ob("R4", f"anchor/{qual}", func is not None and func.is_cm, f"{qual} is no longer a context manager")

    # Cancelled tasks are awaited without letting their cancellation cut the
    # remaining cleanup short.
    prog = p.func("runtimepy.subprocess.program.PeerProgram.running")
    if prog is not None:
        tr = ctx.trace(prog, label, opaque=opaque, cap=3)
        bad = None
        some = False
        for path in tr.ret:
            if path.has("yield"):
                i = path.index("yield")
                some = some or any(x[0] == "rel" and x[1] == "cleanup" for x in path.labels[i:])
        for path in tr.all:
            i = path.index("yield")
            if i < 0:
                continue
            rest = path.labels[i + 1 :]
            if not any(x[0] == "rel" and x[1] == "cleanup" for x in rest):
                bad = bad or path
        ctx.ob("R1", f"{prog.qual}/cleanup", bad is None, "the program's cleanup hook is skipped on some exit", prog.where, bad.show() if bad else ())
        ctx.ob("R1", f"{prog.qual}/cleanup-some", some, "the program's cleanup hook never runs", prog.where)

    # R3: calls of managers are entered.
    sites = entered = 0
    for func in p.all_functions():
        for site, ok in manager_calls(p, func):
            sites += 1
            entered += ok
            if not ok:
                ctx.ob("R3", f"{func.qual}/{site[0]}", False, "creates a context manager that is never entered", f"{func.module.rel}:{site[1]}")
    ctx.ob("R3", "package", True)
    ctx.floor("R3", "manager call sites", sites, 20)


def manager_calls(p, func):
    """Find calls of in-package context managers and how they're used."""
    import ast

    parents = {}
    for node in ast.walk(func.node):
        for child in ast.iter_child_nodes(node):
            parents[child] = node
    for node in ast.walk(func.node):
        if not isinstance(node, ast.Call):
            continue
        target = None
        if isinstance(node.func, ast.Attribute):
            if isinstance(node.func.value, ast.Name) and node.func.value.id in ("self", "cls") and func.cls is not None:
                target = p.lookup(func.cls, node.func.attr)
            else:
                for name, targs in p.expr_types(node.func.value, func, func.cls):
                    if name == "type" and targs:
                        for iname, _ in targs[0]:
                            if iname in p.classes:
                                target = target or p.lookup(p.classes[iname], node.func.attr)
                    elif name in p.classes:
                        target = target or p.lookup(p.classes[name], node.func.attr)
        elif isinstance(node.func, ast.Name):
            target = p.func(func.module.resolve_dotted(node.func.id))
        if target is None or not target.is_cm:
            continue
        par = parents.get(node)
        # Only a discarded manager is certainly never entered.
        yield (target.name, node.lineno), not isinstance(par, ast.Expr)
