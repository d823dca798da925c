"""C22: the connection manager supervises every connection exactly once."""

from __future__ import annotations

from sa import terms as T
from sa.props.common import facts_of, is_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of every iteration of the connection manager's loop (and of its loop over connections): which tasks are waited for, which "
    "connections are kept, which get a new processing task and under which known conditions, and what's cancelled and waited for at the end."
)

MANAGER = "runtimepy.net.manager.ConnectionManager"


def is_process(term) -> bool:
    return term[0] == "coro" and term[1].split(".")[-1] == "process" or term[0] == "call" and term[2].split(".")[-1] == "process" and term[3] is not None


def subject(term):
    """The connection that a process() call is about."""
    return T.strip(term[2] if term[0] == "coro" else term[3])


def spawned(term):
    """The process() call inside of a created task (or None)."""
    if term[0] == "call" and term[2].split(".")[-1] in ("create_task", "ensure_future") and term[4] and is_process(term[4][0]):
        return term[4][0]
    return None


def kwarg(term, name):
    kws = term[4] if term[0] == "coro" else term[5]
    return dict(kws).get(name)


def is_get(term) -> bool:
    return term[0] == "call" and term[2].split(".")[-1] == "get" and term[3] is not None and self_attr(T.strip(term[3]), "queue")


def opaque(it, ev):
    return ev.func is not None and ev.func.name in ("process", "log_time")


def conn_fact(st, elem, attr):
    """A fact about a connection's attribute (or the property behind it)."""
    for atom, pol in facts_of(st):
        if atom[0] == "attr" and T.strip(atom[1]) == elem:
            if atom[2] == attr:
                return pol
            if attr == "disabled" and atom[2] == "_enabled":
                return not pol
    return None


def run(ctx) -> None:
    ctx.rule("R1", "managing is reentrant, and possible again after it ended (in whatever way)")
    ctx.rule("R2", "a new connection is kept and processed by exactly one task that's waited for")
    ctx.rule("R3", "only disabled connections are dropped; those that restart automatically are kept and processed again once nothing else processes them")
    ctx.rule("R4", "the manager wakes up for the stop signal, new connections and finished tasks; at the end it waits for them")
    cls = ctx.anchor_cls("R1", MANAGER)
    func = ctx.anchor_func("R1", f"{MANAGER}.manage")
    if cls is None or func is None:
        return
    key = func.qual

    def label(e):
        ev = e.ev
        if e.kind == "iterend":
            if e.term is not None and self_attr(T.strip(e.term), "_conns"):
                elem = ("iter", T.strip(e.term))
                names = [t for t in ev_elems(e) if t[0] == "iter"]
                elem = names[0] if names else elem
                return [("conn", conn_fact(e.st, elem, "disabled"), conn_fact(e.st, elem, "auto_restart"), elem), ("cut",)]
            if e.term is None:
                return [("outer",), ("cut",)]
            return None
        if e.kind == "store" and ev.kind == "attr" and ev.name == "_running" and ev.base[0] == "self":
            return ("running", T.strip(ev.value))
        if e.kind == "store" and ev.kind == "attr" and ev.name == "_conns" and ev.base[0] == "self":
            return ("conns", T.strip(ev.value))
        if e.kind == "store" and ev.kind == "sub":
            return ("save", T.strip(ev.base), T.strip(ev.name) if isinstance(ev.name, tuple) else ev.name, T.strip(ev.value))
        if e.kind == "store" and ev.kind == "name" and isinstance(ev.value, tuple) and ev.value[0] == "call" and ev.value[4] and is_get(ev.value[4][0]):
            free = [x[1] for x in e.st.mon if x[0] == "get" and len(x) > 1]
            if free and ev.name not in free[-1]:
                return [("lost",), ("name", ev.name, T.strip(ev.value))]
        if e.kind == "store" and ev.kind == "name" and isinstance(ev.value, tuple):
            return ("name", ev.name, T.strip(ev.value))
        if e.kind == "call" and ev.recv is not None and ev.attr in ("append", "add", "insert", "extend") and ev.args:
            return ("keep", T.strip(ev.recv), T.strip(ev.args[-1]))
        if e.kind == "call" and ev.term is not None or e.kind == "after":
            term = T.strip(ev.term) if ev.term is not None else None
            if e.kind == "call" and term is not None and term[0] == "call":
                got = spawned(term)
                if got is not None:
                    return ("task", term, subject(got), T.strip(kwarg(got, "stop_sig") or T.NONE), e.st.facts)
        if e.kind in ("call", "coro") and ev.attr == "process":
            return ("proc",)
        if e.kind == "call" and ev.attr == "get" and ev.recv is not None and self_attr(T.strip(ev.recv), "queue"):
            # Variables that don't refer to anything.
            return ("get", frozenset(n for (uid, n), v in e.st.env.items() if uid == e.frame.uid and (v == T.NONE or e.st.known(("isnone", v), True) or any(a[0] == "call" and a[2].split(".")[-1] == "done" and a[3] is not None and T.strip(a[3]) == T.strip(v) and pol for a, pol in facts_of(e.st)))))
        if e.kind == "call" and ev.attr in ("done", "cancel", "result") and ev.recv is not None:
            return (ev.attr, T.strip(ev.recv))
        if e.kind == "call" and ev.name.split(".")[-1] == "log_exceptions" and ev.args:
            return ("filter", T.strip(ev.args[0]))
        if e.kind == "await":
            term = T.strip(e.term)
            if term[0] == "call" and term[2] == "asyncio.wait":
                first = dict(term[5]).get("return_when")
                return ("wait", term[4][0], first is not None and "FIRST_COMPLETED" in T.path(first))
            if term[0] == "call" and term[2] == "wait" and term[3] is not None and is_param(T.strip(term[3]), "stop_sig"):
                return ("idle",)
            return ("await", term)
        return None

    def ev_elems(e):
        out = []
        for (uid, name), term in e.st.env.items():
            s = T.strip(term)
            if uid == e.frame.uid and s[0] == "iter" and T.strip(s[1]) == T.strip(e.term):
                out.append(s)
        return out

    def bad(rule, name, seg, msg):
        ctx.ob(rule, f"{key}/{name}", False, msg, func.where, seg.show())

    stats = {"wait": 0, "new": 0, "restart": 0, "conn": 0}

    def retained(seg, i, task):
        saved = set()
        for x in seg.labels[i:]:
            if x[0] == "save" and x[3] == task:
                saved.add((x[1], x[2]))
            if x[0] == "keep":
                val = x[2]
                if T.contains(val, lambda t: t == task) or val[0] == "sub" and (T.strip(val[1]), T.strip(val[2])) in saved:
                    return x[1]
        return None

    kept_in: set = set()
    tasks_in: set = set()
    outers: list = []

    def segment(seg):
        labels = seg.labels
        if seg.has("lost"):
            bad("R2", "lost", seg, "waits for another connection although the last one may not have been handled")
        if seg.kind == "seg" and seg.has("outer"):
            outers.append(seg)
        for x in seg.get("wait"):
            stats["wait"] += 1
            if not x[2]:
                bad("R4", "wait", seg, "doesn't wait for the first task that completes")
            if not T.contains(x[1], lambda t: t[0] == "call" and t[2].split(".")[-1] == "wait" and t[3] is not None and is_param(T.strip(t[3]), "stop_sig")):
                bad("R4", "wait", seg, "doesn't wake up for the stop signal")
            for y in seg.get("filter"):
                if not T.contains(x[1], lambda t: t == y[1]):
                    bad("R4", "wait", seg, "doesn't wake up for processing tasks")
        if seg.count("proc") != seg.count("task"):
            bad("R2", "task", seg, "processing a connection isn't started in a task")
        for i, x in enumerate(labels):
            if x[0] != "task":
                continue
            if not is_param(x[3], "stop_sig"):
                bad("R2", "stop", seg, "a connection's processing doesn't observe the stop signal")
            target = retained(seg, i, x[1])
            if target is None:
                bad("R2", "task", seg, "a processing task isn't kept to be waited for")
            else:
                tasks_in.add(target)
        # The loop over connections.
        for i, x in enumerate(labels):
            if x[0] != "conn":
                continue
            stats["conn"] += 1
            disabled, auto, elem = x[1], x[2], x[3]
            kept = sum(1 for y in labels[:i] if y[0] == "keep" and y[2] == elem)
            kept_in.update(y[1] for y in labels[:i] if y[0] == "keep" and y[2] == elem)
            tasks = [y for y in labels[:i] if y[0] == "task" and y[2] == elem]
            if disabled is False and (kept != 1 or tasks):
                bad("R3", "enabled", seg, "an enabled connection is dropped or processed again")
            elif disabled is True and auto is True and kept != 1:
                bad("R3", "restart", seg, "a connection that restarts automatically is dropped")
            elif disabled is True and auto is False and (kept or tasks):
                bad("R3", "dropped", seg, "a disabled connection that doesn't restart is kept")
            elif disabled is None or disabled and auto is None:
                bad("R3", "state", seg, "doesn't consider whether a connection is disabled and restarts automatically")
            done = [pol for y in tasks for a, pol in y[4] if a[0] == "call" and a[2].split(".")[-1] == "done"]
            if tasks:
                stats["restart"] += 1
                if len(tasks) != 1 or disabled is not True or auto is not True or True not in done:
                    bad("R3", "restart", seg, "a connection is processed again although it isn't disabled, isn't restarted automatically, or is still being processed")
            elif disabled and auto:
                known = [pol for a, pol in facts_of(seg.st) if a[0] == "call" and a[2].split(".")[-1] == "done" and T.contains(a, lambda t: t == elem)]
                if True in known:
                    bad("R3", "restart", seg, "a connection that should restart isn't processed again")
        # A new connection.
        news = {x[1] for x in seg.get("result")}
        for task in news:
            is_new = lambda t: t[0] == "call" and t[2].split(".")[-1] == "result" and t[3] is not None and T.strip(t[3]) == task
            kept = [x for x in labels if x[0] == "keep" and is_new(x[2])]
            tasks = [x for x in labels if x[0] == "task" and is_new(x[2])]
            if seg.kind != "seg":
                continue
            stats["new"] += 1
            if len(kept) != 1:
                bad("R2", "kept", seg, "a new connection isn't kept, once")
            if len(tasks) != 1:
                bad("R2", "task", seg, f"a new connection is processed by {len(tasks)} tasks")
            waits = [x for x in labels if x[0] == "wait"]
            if waits and not T.contains(waits[-1][1], lambda t: t == task):
                bad("R4", "wait", seg, "doesn't wake up for new connections")
            done = [pol for a, pol in facts_of(seg.st) if a[0] == "call" and a[2].split(".")[-1] == "done" and a[3] is not None and T.strip(a[3]) == task]
            if True not in done:
                bad("R2", "done", seg, "the result of a task that isn't done is used")
            # Wait for another one.
            i = next(i for i, x in enumerate(labels) if x[0] == "result" and x[1] == task)
            again = any(x[0] == "name" and (x[2] == T.NONE or T.contains(x[2], is_get)) for x in labels[i:])
            if not again:
                bad("R2", "next", seg, "the next connection is never waited for")
        if seg.kind == "seg" and seg.has("outer") and not news:
            for x in seg.get("done"):
                known = {pol for a, pol in facts_of(seg.st) if a[0] == "call" and a[2].split(".")[-1] == "done" and a[3] is not None and T.strip(a[3]) == x[1]}
                if known == {True}:
                    bad("R2", "kept", seg, "a new connection is lost")

    tr = ctx.trace(func, label, cls, opaque=opaque, raises=lambda it, ev: False, restart="cut", segment=segment, cap=2)
    for path in tr.all:
        segment(path)
    for seg in outers:
        if not any(x[1] in kept_in for x in seg.get("conns")):
            bad("R3", "dropped", seg, "disabled connections aren't dropped")
        if not any(x[2] in tasks_in for x in seg.get("name")) and not any(T.contains(x[1], lambda t: t in tasks_in) for x in seg.get("wait")):
            bad("R2", "task", seg, "processing tasks aren't waited for")
    for name in ("lost", "wait", "task", "stop", "kept", "next", "done"):
        ctx.ob("R2" if name != "wait" else "R4", f"{key}/{name}", True)
    for name in ("enabled", "restart", "dropped", "state"):
        ctx.ob("R3", f"{key}/{name}", True)
    ctx.ob("R4", f"{key}/some", all(stats.values()), f"the manager never: {[k for k, v in stats.items() if not v]}", func.where)

    # Entry and exit (every call may raise).
    def outer(e):
        got = label(e)
        if isinstance(got, tuple) and got[0] in ("running", "idle", "task", "proc", "conns", "cancel"):
            return got if got[0] not in ("task",) else ("task",)
        if e.kind == "await":
            term = T.strip(e.term)
            if term[0] == "call" and T.contains(term, lambda t: t[0] == "call" and t[2] in ("asyncio.gather", "asyncio.wait")):
                gathers = [t for t in T.walk(term) if t[0] == "call" and t[2] in ("asyncio.gather", "asyncio.wait")]
                safe = all(t[2] == "asyncio.wait" or dict(t[5]).get("return_exceptions") == T.TRUE for t in gathers)
                return ("wait" if term[2] == "asyncio.wait" and dict(term[5]).get("return_when") is not None else "gather", safe)
        if e.kind == "call" and e.ev.attr == "get" and e.ev.recv is not None and self_attr(T.strip(e.ev.recv), "queue"):
            return ("get",)
        return None

    tr = ctx.trace(func, outer, cls, opaque=opaque, cap=1)
    busy = 0
    ended = 0
    for path in tr.all:
        runs = [x[1] for x in path.get("running")]
        initially = next((pol for a, pol in facts_of(path.st) if self_attr(a, "_running")), None)
        if not runs and (path.has("wait") or path.has("task") or path.has("get")):
            bad("R1", "running", path, "manages connections without being marked as running")
        if runs and (runs[0] != T.TRUE or initially is not False):
            bad("R1", "running", path, "starts managing although it may already be running")
        if runs and runs[-1] != T.FALSE:
            bad("R1", "ended", path, "still counts as running after it ended")
        if initially is True and path.kind == "ret":
            busy += 1
            if not path.has("idle") or path.has("conns") or runs:
                bad("R1", "reentrant", path, "a second manager doesn't just wait for the stop signal")
        if path.kind == "ret" and runs:
            ended += 1
            if not path.has("gather") and not any(not pol and a[0] in ("phi", "list", "call", "tuple") and (a[0] != "call" or "log_exceptions" in a[2]) for a, pol in facts_of(path.st)):
                bad("R4", "shutdown", path, "ends without waiting for processing tasks")
            for x in path.get("gather"):
                if not x[1]:
                    bad("R4", "shutdown", path, "a failed task ends waiting for the others")
    ctx.ob("R1", f"{key}/reentrant", busy > 0, "isn't reentrant", func.where)
    ctx.ob("R1", f"{key}/running", True)
    ctx.ob("R1", f"{key}/ended", ended > 0, "never ends", func.where)
    ctx.ob("R4", f"{key}/shutdown", any(p.has("gather") for p in tr.ret), "processing tasks aren't waited for at the end", func.where)
    ctx.ob("R4", f"{key}/cancel", any(p.has("cancel") for p in tr.ret), "waiting for a new connection isn't cancelled at the end", func.where)
