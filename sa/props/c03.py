"""C03: disabling and processing of connections."""

from __future__ import annotations

from sa import terms as T
from sa.props.common import call_names, concrete, const_is, each, facts_of, is_param, none_param, self_attr, truth_of, truth_self

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of Connection.disable and Connection.process (helpers and overrides inlined, checked once per distinct set of "
    "overrides): which effects run when enabled/disabled, that every started task is owned by the instance before control is given up, that all are "
    "awaited, and the order of close and the exit signal. Also the transport-loss entry points and the close hook of every transport. Decided for "
    "all paths; the event loop's own behaviour is trusted."
)

CONN = "runtimepy.net.connection.Connection"
QUIET = {"log_metrics", "set_value", "_handle_restart", "governed_log"}


def opaque(it, ev):
    return ev.func is not None and ev.func.name in QUIET


def no_raise(it, ev):
    return False if ev.func is None and ev.attr in ("set", "clear", "append", "cancel", "done", "info", "add_done_callback", "is_set") else None


def enabled_set(ev):
    """Writes of the enabled state."""
    if ev.func is not None and ev.func.name == "set_value" and ev.recv is not None and self_attr(T.strip(ev.recv), "_enabled"):
        return ev.param("value")
    return None


def label_disable(e):
    ev = e.ev
    if e.kind == "call":
        if ev.func is not None and ev.func.name == "disable_extra":
            return ("extra",)
        if ev.attr == "cancel" and ev.recv is not None:
            return ("cancel", T.strip(ev.recv))
        val = enabled_set(ev)
        if val is not None:
            return ("enabled", val)
        if ev.recv is not None and self_attr(T.strip(ev.recv), "disabled_event") and ev.attr in ("set", "clear"):
            return ("event", ev.attr)
        if ev.recv is not None and self_attr(T.strip(ev.recv), "initialized") and ev.attr in ("set", "clear"):
            return ("init", ev.attr)
    if e.kind == "loop":
        return ("loop", tuple(T.strip(c) for c in T.containers(e.term)), e.extra)
    if e.kind == "iterend":
        elem = [(atom, pol) for atom, pol in facts_of(e.st) if atom[0] == "call" and atom[2].split(".")[-1] == "done"]
        return ("end", tuple(elem))
    if e.kind == "await":
        return ("await",)
    return None


def coro_of(term):
    """The coroutine wrapped by a task term."""
    if term is not None and term[0] == "call" and term[2].split(".")[-1] in ("create_task", "ensure_future") and term[4] and term[4][0][0] == "coro":
        return term[4][0]
    return None


def label_process(e):
    ev = e.ev
    if e.kind == "call":
        if ev.name.split(".")[-1] in ("create_task", "ensure_future") and ev.args and ev.args[0][0] == "coro":
            return ("task", ev.term, ev.args[0])
        if ev.attr in ("append", "extend", "insert") and ev.recv is not None:
            return ("add", T.strip(ev.recv), tuple(ev.args))
        if ev.attr in ("set", "clear") and ev.recv is not None and self_attr(T.strip(ev.recv), "exited"):
            return ("exited", ev.attr)
        if ev.func is not None and ev.func.name == "close" and ev.recv is not None and ev.recv[0] == "self":
            return ("close",)
        if ev.name.endswith("log_exceptions") or ev.attr in ("exception", "result"):
            return ("log",)
    if e.kind == "store" and ev.kind == "attr" and ev.base[0] == "self":
        return ("own", ev.name, ev.value)
    if e.kind == "await":
        return ("await", e.term)
    return None


def waits(term):
    """The collection a whole-group wait covers (and whether it's complete)."""
    for sub in T.walk(term):
        if sub[0] == "call" and sub[2] in ("asyncio.wait", "asyncio.gather") and sub[4]:
            kw = dict(sub[5])
            items = []
            for arg in sub[4]:
                items.extend(T.containers(arg[1] if arg[0] == "star" else arg) + [arg[1] if arg[0] == "star" else arg])
            if sub[2] == "asyncio.wait":
                when = kw.get("return_when")
                full = (when is None or "ALL_COMPLETED" in T.path(when)) and (kw.get("timeout") is None or const_is(kw["timeout"], None))
            else:
                full = "return_exceptions" in kw and const_is(kw["return_exceptions"], True)
            return items, full
    return None, False


def role(p, cls, coro) -> str:
    """What a task started by a connection is for."""
    func = p.func(coro[1])
    args = list(coro[3]) + [v for _, v in coro[4]]
    if any(is_param(a, "stop_sig") for a in args):
        return "signal"
    if any(is_param(a, "disable_time") for a in args):
        return "timer"
    names = call_names(p, func, cls)
    if "_send_text_message" in names:
        return "text"
    if "_send_binay_message" in names:
        return "binary"
    if "async_init" in names:
        return "init"
    if "_await_message" in names or "process_datagram" in names:
        return "read"
    return coro[1]


def variants(p, names) -> list:
    """One representative class per distinct set of method resolutions."""
    out = {}
    for cls in concrete(p, CONN):
        key = tuple(getattr(p.lookup(cls, n), "qual", None) for n in names)
        out.setdefault(key, cls)
    return list(out.values())


def check_disable(ctx, cls) -> None:
    p = ctx.p
    func = p.lookup(cls, "disable")
    tr = ctx.trace(func, label_disable, cls, opaque=lambda it, ev: opaque(it, ev) or ev.func is not None and ev.func.name == "disable_extra", raises=no_raise)
    key = cls.qual
    seen_loops = set()
    some = False
    for path in tr.ret:
        state = truth_self(path.st, "_enabled")
        effects = [x for x in path.labels if x[0] in ("extra", "cancel", "enabled", "event", "init")]
        if state is not True:
            if effects:
                ctx.ob("R1", f"{key}/idempotent", False, f"acts ({effects[0][0]}) without the connection being known to be enabled", func.where, path.show())
            continue
        some = True
        if path.has("await"):
            ctx.ob("R1", f"{key}/sync", False, "gives up control while disabling", func.where, path.show())
        if path.count("extra") != 1:
            ctx.ob("R1", f"{key}/extra", False, f"the shutdown hook runs {path.count('extra')} times", func.where, path.show())
        vals = path.get("enabled")
        if not vals or not const_is(vals[-1][1], False) or len(vals) != 1:
            ctx.ob("R1", f"{key}/state", False, "the connection isn't left disabled", func.where, path.show())
        if [x[1] for x in path.get("event")] != ["set"]:
            ctx.ob("R1", f"{key}/event", False, "the disabled signal isn't set", func.where, path.show())
        if [x[1] for x in path.get("init")] != ["clear"]:
            ctx.ob("R1", f"{key}/initialized", False, "the connection stays marked as initialized", func.where, path.show())
        visited = {c[2] for x in path.get("loop") for c in x[1] if c[0] == "attr" and c[1][0] == "self"}
        for rule, names in (("owned", {"_tasks"}), ("conn", {"tasks", "_conn_tasks"})):
            if not visited & names and not any(self_attr(a, n) and not pol for a, pol in facts_of(path.st) for n in names):
                ctx.ob("R2", f"{key}/{rule}", False, f"some tasks ({', '.join(sorted(names))}) aren't visited when disabling", func.where, path.show())
        # Every visited task that isn't done is cancelled.
        cur = None
        for x in path.labels:
            if x[0] == "loop":
                seen_loops |= set(x[1])
                cur = x if not x[2] else None
                hits = 0
            elif x[0] == "cancel" and cur is not None:
                owners = T.element_of(x[1]) or [x[1]]
                hits += any(o in cur[1] for o in owners)
            elif x[0] == "end" and cur is not None:
                elem = [pol for atom, pol in x[1] if any(o in cur[1] for o in T.element_of(atom[3]))]
                done = elem[-1] if elem else None
                if done is not True and not hits and any(c[0] == "attr" and "task" in c[2] for c in cur[1]):
                    ctx.ob("R2", f"{key}/cancel", False, "a task that isn't known to be finished isn't cancelled", func.where, path.show())
                cur = None
    for rule in ("idempotent", "sync", "extra", "state", "event", "initialized"):
        ctx.ob("R1", f"{key}/{rule}", True)
    ctx.ob("R1", f"{key}/some", some, "no path disables an enabled connection", func.where)
    ctx.ob("R2", f"{key}/cancel", True)
    names = {c[2] for c in seen_loops if c[0] == "attr" and c[1][0] == "self"}
    ctx.ob("R2", f"{key}/owned", "_tasks" in names, "processing tasks aren't visited when disabling", func.where)
    ctx.ob("R2", f"{key}/conn", bool(names & {"tasks", "_conn_tasks"}), "connection-specific tasks aren't visited when disabling", func.where)


def check_process(ctx, cls) -> None:
    p = ctx.p
    func = p.lookup(cls, "process")
    tr = ctx.trace(func, label_process, cls, opaque=lambda it, ev: opaque(it, ev) or ev.func is not None and ev.func.name in ("close", "disable"), cap=6, max_states=600, raises=no_raise)
    key = cls.qual
    roles_seen = set()
    for path in tr.ret:
        tasks = [x for x in path.labels if x[0] == "task"]
        state = truth_self(path.st, "_enabled")
        if not tasks:
            if state is not False:
                ctx.ob("R3", f"{key}/started", False, "an enabled connection isn't processed", func.where, path.show())
            continue
        roles = {role(p, cls, t[2]): t for t in tasks}
        roles_seen |= set(roles)

        if state is not True:
            ctx.ob("R3", f"{key}/started", False, "tasks are started without the connection being known to be enabled", func.where, path.show())

        def need(name, cond, text):
            if cond is not False and name not in roles:
                ctx.ob("R3", f"{key}/{name}", False, f"{text} isn't started", func.where, path.show())
            if cond is not True and name in roles:
                ctx.ob("R3", f"{key}/{name}", False, f"{text} is started whether or not it was asked for", func.where, path.show())

        need("read", True, "the reader")
        need("init", True, "initialization")
        need("text", truth_self(path.st, "uses_text_tx_queue"), "the text writer")
        need("binary", truth_self(path.st, "uses_binary_tx_queue"), "the binary writer")
        for name, param in (("timer", "disable_time"), ("signal", "stop_sig")):
            none = none_param(path.st, param)
            if none is None and param == "stop_sig" and any(is_param(a, param) and not pol for a, pol in facts_of(path.st)):
                none = True
            need(name, None if none is None else not none, f"the task for {param}")
        # Ownership and completion.
        owned: list = []
        lists: list = []
        done = False
        closed = exited = cleared = 0
        logged = False
        for x in path.labels:
            if x[0] == "own" and x[1] in ("_tasks", "_conn_tasks"):
                lists.append(T.strip(x[2]))
                lists.append(T.strip(("attr", ("self", cls.qual), x[1], ())))
                owned.extend(s for s in T.walk(x[2]) if coro_of(s))
            elif x[0] == "add" and (x[1] in lists or self_attr(x[1], "_tasks") or self_attr(x[1], "_conn_tasks") or x[1][0] == "list"):
                for a in x[2]:
                    owned.extend(s for s in T.walk(a) if coro_of(s))
                    if coro_of(a):
                        owned.append(a)
            elif x[0] == "exited":
                if x[1] == "clear":
                    cleared += 1
                    if done:
                        ctx.ob("R4", f"{key}/exited", False, "the exit signal is cleared after processing", func.where, path.show())
                else:
                    exited += 1
                    if not closed or not done:
                        ctx.ob("R4", f"{key}/exited", False, "exit is signalled before the tasks ended and the transport was closed", func.where, path.show())
            elif x[0] == "close":
                closed += 1
                if not done:
                    ctx.ob("R4", f"{key}/close", False, "the transport is closed before the connection's tasks ended", func.where, path.show())
            elif x[0] == "log" and done:
                logged = True
            elif x[0] == "await":
                term = x[1]
                items, full = waits(term)
                if items is not None:
                    quals = [T.strip(i) for i in items]
                    mine = [t for t in tasks if any(T.strip(t[1]) == q or q in lists or self_attr(q, "_tasks") for q in quals)]
                    if not full or len(mine) != len(tasks):
                        ctx.ob("R4", f"{key}/wait", False, "doesn't wait for all of the connection's tasks to complete", func.where, path.show())
                    lost = [t for t in tasks if not any(T.strip(t[1]) == T.strip(o) for o in owned)]
                    if lost:
                        ctx.ob("R3", f"{key}/owned", False, f"{T.path(lost[0][2])} isn't among the tasks that get cancelled when disabling", func.where, path.show())
                    done = True
        if not done:
            ctx.ob("R4", f"{key}/wait", False, "returns without waiting for its tasks", func.where, path.show())
        if not logged:
            ctx.ob("R4", f"{key}/errors", False, "exceptions of the connection's tasks are never looked at", func.where, path.show())
        if not closed:
            ctx.ob("R4", f"{key}/close", False, "the transport isn't closed", func.where, path.show())
        if not exited or not cleared:
            ctx.ob("R4", f"{key}/exited", False, "the exit signal isn't maintained", func.where, path.show())
    for name in ("started", "read", "init", "text", "binary", "timer", "signal", "owned"):
        ctx.ob("R3", f"{key}/{name}", True)
    for name in ("wait", "close", "exited", "errors"):
        ctx.ob("R4", f"{key}/{name}", True)
    ctx.ob("R3", f"{key}/some", {"read", "init", "text", "binary", "timer", "signal"} <= roles_seen, f"only ever starts {sorted(roles_seen)}", func.where)


def check_tasks(ctx) -> None:
    """The iterator over active connection-specific tasks."""
    p = ctx.p
    func = p.func(f"{CONN}.tasks")
    ctx.ob("R2", "tasks/anchor", func is not None, "the active-task iterator is gone")
    if func is None:
        return

    def label(e):
        if e.kind == "loop":
            return ("loop", tuple(T.strip(c) for c in T.containers(e.term)), e.extra)
        if e.kind == "yield":
            return ("yield", T.strip(e.term))
        if e.kind == "call" and e.ev.attr == "append":
            return ("keep", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.attr in ("remove", "pop", "discard", "clear"):
            return ("drop", T.strip(e.ev.args[0]) if e.ev.args else None)
        if e.kind == "iterend":
            pols = [pol for atom, pol in facts_of(e.st) if atom[0] == "call" and atom[2].split(".")[-1] == "done"]
            return ("end", pols[-1] if pols else None)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.base[0] == "self":
            return ("own", e.ev.name, e.ev.value)
        return None

    tr = ctx.trace(func, label)
    for path in tr.ret:
        cur = None
        rebuilt = path.has("own")
        for x in path.labels:
            if x[0] == "loop" and not x[2]:
                cur = []
            elif x[0] in ("yield", "keep", "drop") and cur is not None:
                cur.append(x[0])
            elif x[0] == "end" and cur is not None:
                if x[1] is not True and "yield" not in cur:
                    ctx.ob("R2", "tasks/yield", False, "an active task isn't reported", func.where, path.show())
                if x[1] is not True and (rebuilt and "keep" not in cur and not _comp(path) or "drop" in cur):
                    ctx.ob("R2", "tasks/keep", False, "an active task is forgotten", func.where, path.show())
                cur = None
    ctx.ob("R2", "tasks/yield", any(path.has("yield") for path in tr.ret), "never reports a task", func.where)
    ctx.ob("R2", "tasks/keep", True)


def _comp(path) -> bool:
    return any(x[0] == "own" and T.contains(x[2], lambda t: t[0] == "comp") for x in path.labels)


def check_helpers(ctx) -> None:
    """Delayed and signalled disabling, initialization, and transport loss."""
    p = ctx.p
    conn = p.need_cls(CONN)

    def label(e):
        ev = e.ev
        if e.kind == "call" and ev.func is not None and ev.func.name == "disable":
            return ("disable", T.strip(ev.recv))
        if e.kind == "await":
            return ("await", T.strip(e.term))
        if e.kind == "call" and ev.attr in ("set", "clear") and ev.recv is not None and self_attr(T.strip(ev.recv), "initialized"):
            return ("init", ev.attr)
        if e.kind == "call" and ev.func is not None and ev.func.name == "async_init":
            return ("hook", ev.term)
        if e.kind == "call" and ev.func is not None and ev.func.name == "finalize":
            return ("finalize", T.strip(ev.recv))
        if e.kind in ("call",) and ev.attr == "close" and ev.recv is not None:
            return ("close", T.strip(ev.recv))
        return None

    opq = lambda it, ev: ev.func is not None and ev.func.name in ("disable", "finalize", "async_init")

    # The tasks that disable later.
    proc = p.lookup(conn, "process")
    starts: dict = {}

    def lab_start(e):
        if e.kind == "call" and e.ev.name.split(".")[-1] in ("create_task", "ensure_future") and e.ev.args and e.ev.args[0][0] == "coro":
            coro = e.ev.args[0]
            starts.setdefault(role(p, conn, coro), coro[1])
        return None

    ctx.trace(proc, lab_start, conn, opaque=opaque)
    for name, what in (("timer", "the requested delay"), ("signal", "the stop signal")):
        func = p.func(starts.get(name, ""))
        if func is None:
            continue
        tr = ctx.trace(func, label, conn, opaque=opq)
        for path in tr.ret:
            names = path.names()
            if "disable" not in names or "await" not in names[: names.index("disable")]:
                ctx.ob("R5", name, False, f"doesn't disable the connection after {what}", func.where, path.show())
            first = path.get("await")[:1]
            params = [x.arg for x in func.params()]
            if first and not any(T.contains(first[0][1], lambda t, q=q: is_param(t, q)) for q in params):
                ctx.ob("R5", name, False, f"doesn't wait for {what}", func.where, path.show())
        ctx.ob("R5", name, bool(tr.ret), "never completes", func.where)
    func = p.func(starts.get("init", ""))
    if func is not None:
        tr = ctx.trace(func, label, conn, opaque=opq, raises=lambda it, ev: False if ev.attr in ('info', 'set') else None)
        for path in tr.all:
            if path.kind == "ret" and not path.has("hook"):
                ctx.ob("R5", "init", False, "initialization doesn't run", func.where, path.show())
            # Exceptions of the steps after the hook aren't considered.
            tail = [x for x in path.labels[path.index("hook") + 1 :] if x[0] in ("disable", "finalize", "init")]
            if path.kind == "exc" and tail and tail[-1][0] != "init":
                continue
            if not path.has("hook"):
                continue
            ok = None
            for atom, pol in facts_of(path.st):
                if atom[0] != "isnone" and T.contains(atom, lambda t: t[0] in ("call", "coro") and str(t[2] if t[0] == "call" else t[1]).endswith("async_init")):
                    ok = pol
            if ok is None and path.kind == "ret" and path.has("disable"):
                ctx.ob("R5", "init/failed", False, "a connection is disabled without its initialization having failed", func.where, path.show())
            if ok is not True and not path.has("disable"):
                ctx.ob("R5", "init/failed", False, "a connection whose initialization failed stays enabled", func.where, path.show())
            if ok is True and path.has("disable"):
                ctx.ob("R5", "init/failed", False, "a connection is disabled although it initialized", func.where, path.show())
            if path.get("init")[-1:] != [("init", "set")]:
                ctx.ob("R5", "init/signal", False, "waiters aren't told that initialization ended", func.where, path.show())
            elif path.index("init") < path.index("hook"):
                ctx.ob("R5", "init/signal", False, "waiters are told before initialization ran", func.where, path.show())
            elif path.has("disable") and path.last("init") < path.last("disable"):
                ctx.ob("R5", "init/signal", False, "the signal is withdrawn again by disabling", func.where, path.show())
        for name in ("init", "init/failed", "init/signal"):
            ctx.ob("R5", name, True)

    # Transports: closing, and losing them.
    closes = 0
    for cls in concrete(p, CONN):
        func = p.lookup(cls, "close")
        own = {n for c in p.mro_classes(cls) for n in ("_transport", "protocol") if n in p.attr_exprs(c)}
        if "close" not in cls.methods or func is None or not own:
            continue
        tr = ctx.trace(func, label, cls)
        closes += 1
        for path in tr.ret:
            if not any(self_attr(x[1], n) for x in path.get("close") for n in own):
                ctx.ob("R6", f"{cls.qual}.close", False, "the transport isn't closed", func.where, path.show())
        ctx.ob("R6", f"{cls.qual}.close", bool(tr.ret), "never completes", func.where)
    ctx.floor("R6", "transport close hooks", closes, 3)
    for qual in ("runtimepy.net.tcp.connection.TcpConnection", "runtimepy.net.udp.connection.UdpConnection", "runtimepy.net.websocket.connection.WebsocketConnection"):
        cls = ctx.anchor_cls("R6", qual)
        if cls is not None:
            ctx.ob("R6", f"{qual}/own", "close" in {n for c in p.mro_classes(cls) if c.qual != CONN for n in c.methods}, "doesn't implement closing", cls.where)
    for qual in ("runtimepy.net.tcp.protocol.QueueProtocol.connection_lost", "runtimepy.net.udp.protocol.UdpQueueProtocol.error_received"):
        func = ctx.anchor_func("R7", qual)
        if func is None:
            continue
        tr = ctx.trace(func, label, opaque=opq)
        for path in tr.ret:
            if not path.has("disable"):
                ctx.ob("R7", qual, False, "a lost transport doesn't disable its connection", func.where, path.show())
        ctx.ob("R7", qual, bool(tr.ret), "never completes", func.where)
    # A closed websocket disables the connection wherever it's noticed.
    ws = p.cls("runtimepy.net.websocket.connection.WebsocketConnection")
    if ws is not None:
        for name in ("_await_message", "_send_text_message", "_send_binay_message"):
            func = p.lookup(ws, name)

            def lab_ws(e):
                if e.kind == "handler" and any("ConnectionClosed" in str(n) for n in e.extra):
                    return ("closed",)
                return label(e)

            tr = ctx.trace(func, lab_ws, ws, opaque=opq)
            hit = False
            for path in tr.all:
                i = path.index("closed")
                if i >= 0:
                    hit = True
                    if not any(x[0] == "disable" for x in path.labels[i:]):
                        ctx.ob("R7", f"{ws.qual}.{name}", False, "a closed websocket doesn't disable its connection", func.where, path.show())
            ctx.ob("R7", f"{ws.qual}.{name}", hit, "a closed websocket isn't handled", func.where)


def run(ctx) -> None:
    p = ctx.p
    ctx.rule("R1", "disabling acts once, only on an enabled connection, and leaves it disabled with its signals set")
    ctx.rule("R2", "disabling cancels every owned task that isn't finished")
    ctx.rule("R3", "processing starts what was asked for, and owns every started task before giving up control")
    ctx.rule("R4", "processing waits for every task, then closes the transport, then signals exit")
    ctx.rule("R5", "timed/signalled disabling and initialization act as documented")
    ctx.rule("R6", "every transport-backed connection closes its transport")
    ctx.rule("R7", "a lost transport disables its connection")
    if ctx.anchor_cls("R1", CONN) is None:
        return
    for name in ("disable", "process", "close", "async_init", "disable_extra"):
        ctx.ob("R1", f"anchor/{name}", p.lookup(p.need_cls(CONN), name) is not None, f"Connection.{name} is gone")
    if any(not o.ok for o in ctx.obs):
        return
    names = ("disable", "_set_enabled", "tasks", "log_metrics")
    for cls in variants(p, names):
        check_disable(ctx, cls)
    for cls in variants(p, ("process", "_handle_restart", "close")) if ctx.thorough else variants(p, ("process",)):
        check_process(ctx, cls)
    check_tasks(ctx)
    check_helpers(ctx)
