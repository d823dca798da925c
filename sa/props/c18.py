"""C18: periodic tasks run while enabled and stop when told."""

from __future__ import annotations

from sa import terms as T
from sa.props.common import concrete, current, current_truth, facts_of, is_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of the task loop (per iteration), start and stop of each distinct implementation among the periodic-task classes: "
    "iterations are only dispatched while enabled and not paused, a failed, raising or cancelled iteration and a set stop signal disable the task, nothing "
    "else overwrites the enabled state, every iteration that doesn't end the task sleeps, and stopping disables, cancels and waits before cleaning up."
)

TASK = "runtimepy.task.basic.periodic.PeriodicTask"
MANAGER = "runtimepy.task.basic.manager.PeriodicTaskManager"


def is_dispatch(term) -> bool:
    return T.contains(term, lambda t: t[0] == "coro" and t[1].split(".")[-1] == "dispatch" or t[0] == "call" and t[2].split(".")[-1] == "dispatch" and t[3] is not None)


def wrapped(term) -> bool:
    """Awaiting a wrapper also awaits what it wraps (a separate event)."""
    return term[0] == "call" and term[2].split(".")[-1] in ("shield", "wait_for", "gather")


def on_enabled(term) -> bool:
    """The enabled flag, or its storage."""
    term = T.strip(term)
    return self_attr(term, "_enabled") or self_attr(term, "_enabled", "raw")


def writes(e):
    """Classify a write of the enabled flag: (off,) (on,) (over,)."""
    ev = e.ev
    value = None
    if e.kind == "store" and ev.kind == "attr" and ev.name == "value" and on_enabled(ev.base):
        value = ev.value
    elif e.kind == "call" and ev.recv is not None and on_enabled(ev.recv):
        name = ev.attr
        if name == "clear":
            return ("off",)
        if name == "set":
            return ("on",)
        if name == "toggle":
            return ("over", T.strip(ev.recv))
        if name in ("set_value", "__call__") and ev.args:
            value = ev.args[0]
    elif e.kind == "call" and ev.func is not None and ev.func.name == "disable" and ev.recv is not None and ev.recv[0] == "self":
        return ("off",)
    if value is None:
        return None
    if value[0] == "const":
        return ("on",) if value[2] else ("off",)
    if e.st.known(value, False):
        return ("off",)
    return ("over", T.strip(value))


def opaque(it, ev):
    return ev.func is not None and ev.func.name in ("dispatch", "set_period", "set_value", "disable", "measure", "stop_extra", "set", "clear")


def check_run(ctx, func, cls) -> None:
    key = func.qual

    def label(e):
        got = writes(e) if e.kind in ("store", "call") else None
        if got is not None:
            return got
        if e.kind == "await" and is_dispatch(T.strip(e.term)) and not wrapped(e.term):
            me = e.frame.self_term
            flag = current(e.st, me, "_enabled")
            pause = current(e.st, me, "paused")
            return ("dispatch", current_truth(e.st, me, "_enabled") or e.st.known(flag, True), e.st.known(pause, False))
        if e.kind == "await":
            term = T.strip(e.term)
            if term[0] in ("call", "coro") and str(term[2] if term[0] == "call" else term[1]) in ("asyncio.sleep", "asyncio.wait_for", "asyncio.wait"):
                return ("sleep", term)
        if e.kind == "handler" and any("Cancelled" in str(n) or "BaseException" in str(n) for n in e.extra):
            return ("cancelled",)
        if e.kind == "enter" and T.contains(e.term, lambda t: t[0] in ("call", "gen", "coro") and str(t[1] if t[0] != "call" else t[2]).endswith(".measure")):
            return ("measure",)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value" and T.strip(e.ev.base)[0] == "new":
            return ("timer", T.strip(e.ev.base), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.func is not None and e.ev.func.name == "set_period" and e.frame.uid == "":
            return ("period", T.strip(e.ev.param("period_s")) if e.ev.param("period_s") is not None else None)
        if e.kind == "call" and e.ev.attr == "is_set" and e.ev.recv is not None and is_param(T.strip(e.ev.recv), "stop_sig"):
            return ("stop?",)
        if e.kind == "iterend" and e.frame.uid == "":
            return [("end", current_truth(e.st, e.frame.self_term, "_enabled")), ("cut",)]
        return None

    def bad(rule, seg, msg):
        ctx.ob("R1" if rule != "spin" else "R2", f"{key}/{rule}", False, msg, func.where, seg.show())

    stats = {"dispatch": 0, "sleep": 0, "stop?": 0}

    def segment(seg):
        for x in seg.labels:
            if x[0] in stats:
                stats[x[0]] += 1
        after_off = seg.last("off")
        idx = seg.last("dispatch")
        if seg.has("over"):
            bad("over", seg, f"the enabled state is overwritten with {T.path(seg.get('over')[0][1])}: a request to stop is lost")
        if seg.has("on") and idx >= 0 and seg.last("on") > idx:
            bad("over", seg, "the task is enabled again after an iteration")
        if seg.has("cancelled") and after_off < seg.last("cancelled"):
            bad("fail", seg, "a cancelled task isn't disabled")
        if idx >= 0 and not seg.has("measure"):
            bad("measure", seg, "an iteration isn't measured")
        if seg.has("sleep"):
            used = {t[1] for x in seg.get("sleep") for t in T.walk(x[1]) if t[0] == "attr" and t[1][0] == "new"}
            for base in used:
                times = [i for i, x in enumerate(seg.labels) if x[0] == "timer" and x[1] == base]
                if idx >= 0 and any(i > idx for i in times):
                    bad("spin", seg, "the duration of an iteration is forgotten before sleeping for what remains of the period")
                if idx < 0 and not times:
                    bad("spin", seg, "an idle iteration's sleep is shortened by an earlier iteration's duration")
        for x in seg.get("dispatch"):
            if x[1] is not True:
                bad("gate", seg, "dispatches although the task may be disabled")
            if x[2] is not True:
                bad("gate", seg, "dispatches although the task may be paused")
        if seg.count("dispatch") > 1:
            bad("gate", seg, "dispatches more than once per iteration")
        if idx >= 0:
            truth = {pol for a, pol in facts_of(seg.st) if a[0] != "isnone" and is_dispatch(a)}
            failed = seg.kind == "exc" or truth == {False} or not truth
            if failed and after_off < idx:
                bad("fail", seg, "a failed iteration doesn't disable the task")
            later = [i for i, x in enumerate(seg.labels) if i > idx and x[0] in ("stop?", "sleep", "cancelled", "end")]
            early = [i for i, x in enumerate(seg.labels) if x[0] == "off" and i > idx and all(i < j for j in later[:1])]
            asked = any(a[0] == "call" and a[2].split(".")[-1] == "is_set" and pol for a, pol in facts_of(seg.st)) and not seg.has("stop?")
            if seg.kind != "exc" and truth != {False} and early and not asked:
                bad("fail", seg, "a successful iteration disables the task")
        if seg.kind == "seg":
            stop = {pol for a, pol in facts_of(seg.st) if a[0] == "call" and a[2].split(".")[-1] == "is_set" and a[3] is not None and is_param(a[3], "stop_sig")}
            none = {pol for a, pol in facts_of(seg.st) if a[0] == "isnone" and is_param(a[1], "stop_sig")}
            if none != {True} and not seg.has("stop?"):
                bad("stop", seg, "the stop signal isn't consulted")
            if True in stop and False not in stop and seg.has("stop?") and after_off < seg.last("stop?"):
                bad("stop", seg, "a set stop signal doesn't disable the task")
            if not seg.has("off") and not seg.has("sleep"):
                if not any(x[1] is False for x in seg.get("end")):
                    bad("spin", seg, "an iteration neither sleeps nor ends the task")
            for x in seg.get("sleep"):
                if not sane_sleep(x[1], seg):
                    bad("spin", seg, f"sleeps for {T.path(x[1])}: not what remains of the period")
        if seg.kind == "ret":
            last = {pol for a, pol in facts_of(seg.st) if self_attr(a, "_enabled")}
            if not seg.has("off") and False not in last:
                bad("exit", seg, "stops running while the task is still enabled")
        if seg.kind == "exc" and seg.has("sleep") and not seg.has("off") and idx < 0:
            bad("exit", seg, "a task that was interrupted stays enabled")

    tr = ctx.trace(func, label, cls, restart="cut", segment=segment, cap=4, opaque=opaque, raises=lambda it, ev: None if ev.awaited or ev.func is not None and ev.func.name == "dispatch" else False)
    for path in tr.all:
        segment(path)
    for name in ("over", "gate", "fail", "stop", "exit", "measure"):
        ctx.ob("R1", f"{key}/{name}", True)
    ctx.ob("R2", f"{key}/spin", True)
    ctx.ob("R1", f"{key}/some", all(stats.values()), f"never dispatches, sleeps or looks at the stop signal: {stats}", func.where)

    # A run starts with an enabled task.
    def start(e):
        got = label(e)
        if got and got[0] == "on":
            return ("on", current_truth(e.st, e.frame.self_term, "_enabled"))
        return got if got and got[0] in ("dispatch", "period") else None

    tr = ctx.trace(func, start, cls, cap=1, opaque=opaque, raises=lambda it, ev: False)
    for path in tr.ret:
        if any(x[1] is not False for x in path.get("on")):
            ctx.ob("R1", f"{key}/start", False, "a task that's already running may be started again", func.where, path.show())
        if not any(is_param(x[1], "period_s") for x in path.get("period")):
            ctx.ob("R1", f"{key}/start", False, "the requested period isn't applied", func.where, path.show())
        if not path.has("on") or path.has("dispatch") and path.index("dispatch") < path.index("on"):
            ctx.ob("R1", f"{key}/start", False, "the task isn't enabled when it starts running", func.where, path.show())
    ctx.ob("R1", f"{key}/start", bool(tr.ret), "never returns", func.where)


def sane_sleep(term, seg) -> bool:
    args = term[4] if term[0] == "call" else term[3]
    kw = dict(term[5] if term[0] == "call" else term[4])
    arg = args[0] if args and not term[2 if term[0] == "call" else 1].endswith(("wait", "wait_for")) else kw.get("timeout", args[1] if len(args) > 1 else None)
    if arg is None or not T.contains(arg, lambda t: t[0] == "attr" and t[2] == "period_s"):
        return False
    # Whole period, or what remains of it.
    for t in T.walk(arg):
        if t[0] == "bin":
            if t[1] != "-" or not T.contains(t[2], lambda x: x[0] == "attr" and x[2] == "period_s"):
                return False
            low = arg[0] == "call" and arg[2] == "max" and any(x[0] == "const" and x[2] == 0 for x in arg[4])
            bounded = any(a[0] == "cmp" and a[1] == "<" and pol is False and a[2] == t[2] and a[3] == t[3] for a, pol in facts_of(seg.st))
            if not low and not bounded:
                return False
    return True


def check_stop(ctx, func, cls) -> None:
    key = func.qual

    def is_task(term):
        return self_attr(T.strip(term), "_task")

    def label(e):
        ev = e.ev
        got = writes(e) if e.kind in ("store", "call") else None
        if got is not None:
            return got
        if e.kind == "call" and ev.attr == "cancel" and ev.recv is not None and is_task(ev.recv):
            return ("cancel",)
        if e.kind == "await":
            term = T.strip(e.term)
            if is_task(term) or T.contains(term, is_task) and term[0] == "call":
                return ("wait",)
            if term[0] == "coro" and term[1].endswith(".stop_extra"):
                return ("extra",)
        if e.kind == "store" and ev.kind == "attr" and ev.name == "_task" and ev.base[0] == "self":
            return ("drop",) if T.strip(ev.value) == T.NONE else ("set", T.strip(ev.value))
        return None

    tr = ctx.trace(func, label, cls, cap=2, opaque=opaque, raises=lambda it, ev: None if ev.awaited else False)

    def bad(path, msg):
        ctx.ob("R3", key, False, msg, func.where, path.show())

    waited = 0
    for path in tr.ret:
        none = {pol for a, pol in facts_of(path.st) if a[0] == "isnone" and is_task(a[1])} or {not pol for a, pol in facts_of(path.st) if is_task(a)}
        done = {pol for a, pol in facts_of(path.st) if a[0] == "call" and a[2].split(".")[-1] == "done"}
        ret = path.val[2] if path.val is not None and path.val[0] == "const" else None
        if none == {True}:
            if path.has("extra") or ret is True:
                bad(path, "claims to have stopped a task that wasn't running")
            continue
        if done != {True}:
            waited += 1
            if not path.has("off"):
                bad(path, "an unfinished task isn't disabled")
            elif not path.has("cancel") or path.has("wait") and path.index("cancel") > path.last("wait"):
                bad(path, "an unfinished task isn't cancelled before it's waited for")
            elif not path.has("wait"):
                bad(path, "an unfinished task isn't waited for")
        if not path.has("drop") or path.has("wait") and path.last("drop") < path.index("wait"):
            bad(path, "the stopped task isn't dropped (after waiting for it)")
        if path.count("extra") != 1 or path.has("wait") and path.index("extra") < path.last("wait"):
            bad(path, f"stop actions run {path.count('extra')} times, or before the task has stopped")
        if ret is False:
            bad(path, "stopping a task isn't reported")
    for path in tr.exc:
        if path.val == frozenset({"CancelledError"}) and path.has("wait") and not path.has("extra") or "asyncio.CancelledError" in (path.val or ()) and path.has("wait") and not path.has("extra"):
            bad(path, "the stopped task's cancellation interrupts stopping it")
    ctx.ob("R3", key, waited > 0, "never stops an unfinished task", func.where)


def check_task(ctx, func, cls) -> None:
    key = func.qual

    def label(e):
        ev = e.ev
        if e.kind == "await" and T.strip(e.term)[0] == "coro" and e.term[1].endswith(".stop"):
            return ("stopped",)
        if e.kind == "call" and ev.attr == "create_task" or e.kind == "call" and ev.name.endswith("create_task"):
            return ("create", T.strip(ev.args[0]) if ev.args else None, T.strip(ev.term))
        if e.kind == "store" and ev.kind == "attr" and ev.name == "_task" and ev.base[0] == "self":
            return ("set", T.strip(ev.value))
        return None

    tr = ctx.trace(func, label, cls, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("stop", "run"), raises=lambda it, ev: False)
    for path in tr.ret:
        made = path.get("create")
        msg = None
        if len(made) != 1:
            msg = f"starts {len(made)} tasks"
        else:
            coro = made[0][1]
            args = dict(coro[4]) if coro and coro[0] == "coro" else {}
            pos = list(coro[3]) if coro and coro[0] == "coro" else []
            passed = [*pos, *args.values()]
            if not path.has("stopped") or path.index("stopped") > path.index("create"):
                msg = "a previous run isn't stopped first"
            elif coro is None or coro[0] != "coro" or not coro[1].endswith(".run"):
                msg = "doesn't run the task"
            elif not any(is_param(x, "period_s") for x in passed) or not any(is_param(x, "stop_sig") for x in passed):
                msg = "the period or stop signal isn't passed on"
            elif is_param(args.get("period_s"), "stop_sig") or pos and is_param(pos[0], "stop_sig"):
                msg = "the period and stop signal are mixed up"
            elif [x[1] for x in path.get("set")] != [made[0][2]]:
                msg = "the new task isn't kept"
            elif path.val is None or T.strip(path.val) != made[0][2]:
                msg = "the new task isn't returned"
        if msg:
            ctx.ob("R4", key, False, msg, func.where, path.show())
    ctx.ob("R4", key, bool(tr.ret), "never returns", func.where)


def check_disable(ctx, func, cls) -> None:
    tr = ctx.trace(func, lambda e: writes(e) if e.kind in ("store", "call") else None, cls, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("set_value", "clear"), raises=lambda it, ev: False)
    for path in tr.ret:
        known = [pol for a, pol in facts_of(path.st) if self_attr(a, "_enabled")]
        if (not known or known[-1]) and not path.has("off") or path.has("on") or path.has("over"):
            ctx.ob("R3", func.qual, False, "an enabled task isn't disabled", func.where, path.show())
    ctx.ob("R3", func.qual, bool(tr.ret), "never returns", func.where)


def check_period(ctx, func, cls) -> None:
    def label(e):
        ev = e.ev
        if e.kind == "store" and ev.kind == "attr" and ev.name == "value" and self_attr(T.strip(ev.base), "period_s"):
            return ("set", T.strip(ev.value))
        if e.kind == "call" and ev.attr in ("set_value", "__call__") and ev.recv is not None and self_attr(T.strip(ev.recv), "period_s") and ev.args:
            return ("set", T.strip(ev.args[0]))
        if e.kind == "call" and ev.func is not None and ev.func.name == "set_default":
            return ("default", tuple(T.strip(x) for x in ev.args))
        return None

    tr = ctx.trace(func, label, cls, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("set_value", "set_default", "__eq__", "__ne__"), raises=lambda it, ev: False)
    for path in tr.ret:
        facts = facts_of(path.st)
        none = {pol for a, pol in facts if a[0] == "isnone" and is_param(a[1], "period_s")}
        update = {pol for a, pol in facts if is_param(a, "update_default")}
        same = {pol for a, pol in facts if a[0] == "cmp" and a[1] == "==" and any(is_param(x, "period_s") for x in a[2:4])}
        msg = None
        if True in none and path.labels:
            msg = "changes the period although none is given"
        elif none == {False} and True not in same and not path.has("set"):
            msg = "a new period isn't stored"
        elif path.has("set") and not all(is_param(x[1], "period_s") for x in path.get("set")):
            msg = "something else than the given period is stored"
        elif path.has("set") and update == {True} and not path.has("default"):
            msg = "the default isn't updated"
        elif path.has("default") and True not in update:
            msg = "the default is updated although that wasn't asked for"
        if msg:
            ctx.ob("R4", func.qual, False, msg, func.where, path.show())
    ctx.ob("R4", func.qual, bool(tr.ret), "never returns", func.where)


def check_manager(ctx) -> None:
    p = ctx.p
    func = ctx.anchor_func("R5", f"{MANAGER}.register")
    if func is not None:
        def label(e):
            ev = e.ev
            if e.kind == "store" and ev.kind == "sub" and self_attr(T.strip(ev.base), "_tasks"):
                return ("add", T.strip(ev.name) if isinstance(ev.name, tuple) else ev.name, T.strip(ev.value))
            if e.kind == "call" and ev.func is not None and ev.func.name == "set_period":
                return ("period", T.strip(ev.recv), T.strip(ev.param("period_s")) if ev.param("period_s") is not None else None)
            return None

        tr = ctx.trace(func, label, opaque=lambda it, ev: ev.func is not None and ev.func.name == "set_period", raises=lambda it, ev: False)
        for path in tr.ret:
            member = {pol for a, pol in facts_of(path.st) if a[0] == "in" and self_attr(a[2], "_tasks")}
            msg = None
            if path.has("add") and member != {False}:
                msg = "a task that's registered already is replaced"
            elif member == {False} and not path.has("add"):
                msg = "a task isn't registered"
            elif path.has("add") and not path.has("period"):
                msg = "the task's period isn't applied"
            elif path.has("period") and not path.has("add"):
                msg = "a task that isn't registered is changed"
            if msg:
                ctx.ob("R5", func.qual, False, msg, func.where, path.show())
        ctx.ob("R5", func.qual, any(x.has("add") for x in tr.ret), "never registers a task", func.where)
    for name, meth in (("start", "task"), ("stop", "stop")):
        func = ctx.anchor_func("R5", f"{MANAGER}.{name}")
        if func is None:
            continue
        # Every registered task, awaited.
        def label2(e):
            if e.kind == "coro" and e.ev.func is not None and e.ev.func.name == meth or e.kind in ("call", "coro") and e.ev.attr == meth:
                recv = T.strip(e.ev.recv) if e.ev.recv is not None else None
                kw = e.ev.param("stop_sig") if e.ev.func is not None else e.ev.kwargs.get("stop_sig")
                return ("each", bool(recv and any(self_attr(c, "_tasks") or self_attr(c, "tasks") for c in T.element_of(recv))), kw is not None and is_param(T.strip(kw), "stop_sig"))
            if e.kind == "await":
                return ("await",)
            return None

        tr = ctx.trace(func, label2, opaque=lambda it, ev: ev.func is not None and ev.func.name in (meth, "tasks"), raises=lambda it, ev: False)
        good = [path for path in tr.ret if path.has("each")]
        for path in good:
            bad_ = [x for x in path.get("each") if not x[1] or name == "start" and not x[2]]
            if bad_ or not path.has("await") or path.index("await") < path.index("each"):
                ctx.ob("R5", func.qual, False, f"doesn't {name} every task (with the stop signal) and wait for that", func.where, path.show())
        filtered = any(len(x[3]) for x in ())
        ctx.ob("R5", func.qual, bool(good), f"doesn't {name} any task", func.where)


def run(ctx) -> None:
    p = ctx.p
    ctx.rule("R1", "iterations run only while enabled and not paused; failure, cancellation and the stop signal disable the task for good")
    ctx.rule("R2", "every iteration that doesn't end the task sleeps for what remains of its period")
    ctx.rule("R3", "stopping disables, cancels, waits, drops and then cleans up, once")
    ctx.rule("R4", "starting stops a previous run and keeps the new one; periods are stored and mirrored to the default")
    ctx.rule("R5", "the manager registers each name once and starts and stops every task")
    ctx.rule("R6", "nothing but running a task enables it")
    if ctx.anchor_cls("R1", TASK) is None:
        return
    done = set()
    for cls in concrete(p, TASK):
        for name, check in (("run", check_run), ("stop", check_stop), ("task", check_task), ("disable", check_disable), ("set_period", check_period)):
            func = p.lookup(cls, name)
            if func is None:
                ctx.ob("R1", f"{cls.qual}.{name}", False, f"{name} is gone")
                continue
            if func.qual in done:
                continue
            done.add(func.qual)
            check(ctx, func, func.cls or cls)
    check_manager(ctx)
    # Nothing else writes the flag.
    for cls in concrete(p, TASK):
        for func in cls.methods.values():
            if func.name in ("run",):
                continue
            tr = None
            import ast

            if not any(isinstance(n, ast.Attribute) and n.attr == "_enabled" for n in ast.walk(func.node)):
                continue
            tr = ctx.trace(func, lambda e: writes(e) if e.kind in ("store", "call") else None, cls, opaque=opaque, raises=lambda it, ev: False)
            for path in tr.ret:
                if path.has("on") or path.has("over"):
                    ctx.ob("R6", func.qual, False, "enables a task without running it", func.where, path.show())
            ctx.ob("R6", func.qual, True)
