"""C30: applications run in order on initialized state, and clean up."""

from __future__ import annotations

from sa import terms as T
from sa.interp import norm
from sa.props.common import facts_of, is_param, none_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of the arbiter's entry point, with its helpers inlined: the order of startup steps before any application runs, the condition under which applications run, "
    "a domain for combining exit codes that can't lose a failure, and what's done on every exit (return, exception, cancellation)."
)

ARB = "runtimepy.net.arbiter.base.BaseConnectionArbiter"


def star_comps(term):
    """Comprehensions whose elements are awaited together."""
    for t in T.walk(term):
        if t[0] == "comp":
            yield t


def source(term) -> str:
    """What's iterated over."""
    names = {t[2] for t in T.walk(term) if t[0] == "attr"}
    for name, what in (("_deferred_connections", "connect"), ("_connections", "conns"), ("_structs", "structs"), ("_servers", "servers"), ("_peers", "peers"), ("task_manager", "tasks"), ("_tasks", "tasks")):
        if name in names:
            return what
    return ""


STEPS = {"servers": "server", "peers": "process", "connect": "connect", "conns": "initialized", "structs": "build", "tasks": "init"}


def method(t, name) -> bool:
    return t[0] == "coro" and t[1].split(".")[-1] == name or t[0] == "call" and t[2].split(".")[-1] == name and t[3] is not None


def recv_of(t):
    return T.strip(t[2] if t[0] == "coro" else t[3]) if (t[2] if t[0] == "coro" else t[3]) is not None else ("?",)


def is_app(t) -> bool:
    """The call of an application (an element of a list of applications)."""
    return t[0] == "call" and t[3] is None and t[2] in ("?", "") and len(t[4]) == 1


def check_main(ctx) -> None:
    func = ctx.anchor_func("R1", f"{ARB}._main")
    if func is None:
        return
    key = func.qual

    alone = [False]

    def steps(term):
        out = []
        for t in T.walk(term):
            if method(t, "acquire") and "_servers_started" in T.path(recv_of(t)):
                out.append("server")
            elif method(t, "running_program"):
                out.append("process")
            elif method(t, "wait") and recv_of(t)[0] == "attr" and recv_of(t)[2] == "initialized":
                out.append("initialized")
            elif method(t, "build"):
                out.append("build")
            elif method(t, "init") and source(recv_of(t)) == "tasks":
                out.append("init")
            elif t[0] in ("gen", "coro", "call") and str(t[1] if t[0] != "call" else t[2]).split(".")[-1] == "running" and "task_manager" in T.path(T.strip((t[2] if t[0] != "call" else t[3]) or ("?",))):
                out.append("running")
            elif t[0] == "call" and t[2] == "asyncio.gather" and any(x[0] == "star" and source(x) == "connect" for x in t[4]):
                out.append("connect")
        return [(x,) for x in dict.fromkeys(out)]

    def label(e):
        ev = e.ev
        if e.kind == "await" or e.kind == "enter" and e.frame.func is not None:
            term = T.strip(e.term)
            got = steps(term)
            for comp in star_comps(term):
                what = STEPS.get(source(comp))
                if what and not comp[2] and comp[0] == "comp":
                    got.append((what + "-none",))
            if e.kind == "await" and app_call(term):
                got.append(("app", may_run(e.st) if alone[0] else None))
            return got or None
        if e.kind == "loop" and e.extra:
            what = STEPS.get(source(T.strip(e.term)))
            return (what + "-none",) if what else None
        if e.kind == "call" and ev.name.split(".")[-1] == "register_env":
            args = [T.strip(x) for x in ev.args]
            what = source(("tuple", tuple(args)))
            return ("register", what)
        if e.kind == "call" and ev.attr == "finalize" and ev.recv is not None:
            what = source(T.strip(ev.recv))
            return ("finalize", what) if what else None
        if e.kind == "store" and ev.kind == "sub" and self_attr(T.strip(ev.base), "_connections"):
            return ("store", T.strip(ev.name) if isinstance(ev.name, tuple) else T.const(ev.name), T.strip(ev.value))
        if e.kind == "call" and ev.attr in ("put_nowait",) and ev.recv is not None and "queue" in T.path(T.strip(ev.recv)):
            return ("manage", T.strip(ev.args[0]))
        return None

    def app_call(term):
        """Whether awaiting a term runs applications."""
        if T.contains(term, is_app) and (term[0] == "call" and term[2] == "asyncio.gather" or is_app(term)):
            return True
        return term[0] == "coro" and term[1].split(".")[-1] == "_run_apps" 

    def may_run(st):
        for atom, pol in facts_of(st):
            if is_param(atom, "check_connections") and not pol:
                return True
            if atom[0] == "call" and atom[2] in ("any", "all") and atom[4] and source(atom[4][0]) == "conns":
                elts = [x for c in star_comps(atom[4][0]) for x in (c[2] if isinstance(c[2], tuple) else ())]
                state = [(norm(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else (None, True)) for x in elts]
                down = [p if T.strip(a)[2] == "disabled" else not p for a, p in state if a is not None and T.strip(a)[0] == "attr" and T.strip(a)[2] in ("disabled", "_enabled")]
                if atom[2] == "any" and not pol and all(down) or atom[2] == "all" and pol and not any(down):
                    return True
        # Nothing is registered, or each connection was looked at.
        return any(self_attr(a, "_connections") and not pol for a, pol in facts_of(st)) or any(a[0] == "attr" and a[2] == "_enabled" and source(a) == "conns" and pol for a, pol in facts_of(st))

    def only(group):
        def pick(e):
            got = label(e)
            if got is None:
                return None
            got = got if isinstance(got, list) else [got]
            got = [x for x in got if x[0].replace("-none", "") in group or x[0] in ("register", "finalize") and f"{x[0]}-{x[1]}" in group]
            return got or None

        return pick

    seen = set()
    ran = 0
    regs = set()
    finals = set()
    groups = [
        ("app",),
        ("server", "connect", "app"),
        ("process", "app"),
        ("connect", "initialized", "register-conns", "app"),
        ("store", "manage", "app"),
        ("initialized", "build", "finalize-structs", "register-structs", "running", "app"),
        ("init", "finalize-tasks", "register-tasks", "running", "app"),
    ]
    for group in groups:
        alone[0] = len(group) == 1
        tr = ctx.trace(func, only(group), opaque=lambda it, ev: ev.func is not None and ev.func.name in ("running_program", "running", "build", "init", "_run_apps", "finalize", "register_env", "clear_env", "log_time", "_setup_server_json", "wait"), raises=lambda it, ev: False, cap=1, max_states=260 if len(group) == 1 else 40)
        for path in tr.ret:
            seen |= set(path.names())
            regs |= {x[1] for x in path.get("register")}
            finals |= {x[1] for x in path.get("finalize")}
            val = path.val
            code = T.strip(val[1][0]) if val is not None and val[0] == "tuple" and val[1] else None
            if not path.has("app"):
                ctx.ob("R2", f"{key}/result", code is None or code[0] != "const" or code[2] != 0 or any("_inits" in T.path(a) for a, _ in facts_of(path.st)), "success is reported although no application ran", func.where, path.show())
                continue
            ran += 1
            first = path.index("app")
            for step in [x for x in group if x in STEPS.values() or x == "running"]:
                at = [i for i in (path.index(step), path.index(step + "-none")) if i >= 0]
                ctx.ob("R1", f"{key}/{step}", bool(at) and min(at) < first, f"applications may run before: {step}", func.where, path.show())
                if path.has(step) and path.last(step) > first:
                    ctx.ob("R1", f"{key}/{step}", False, f"applications run before: {step}", func.where, path.show())
            for a, b in (("server", "connect"), ("connect", "initialized"), ("initialized", "build"), ("build", "running"), ("init", "running"), ("initialized", "register")):
                if path.has(a) and path.has(b) and path.last(a) > path.index(b):
                    ctx.ob("R1", f"{key}/{a}", False, f"{a} comes after {b}", func.where, path.show())
            for i, x in enumerate(path.labels):
                if x[0] == "finalize":
                    before = {"structs": ("build", "build-none"), "tasks": ("init", "init-none")}.get(x[1])
                    if before and not any(y[0] in before for y in path.labels[:i]):
                        ctx.ob("R1", f"{key}/finalize", False, "an environment is finalized before it's populated", func.where, path.show())
                    if i > first:
                        ctx.ob("R1", f"{key}/finalize", False, "an environment is finalized after applications ran", func.where, path.show())
            for x in path.get("app"):
                if len(group) == 1 and not x[1]:
                    ctx.ob("R2", f"{key}/alive", False, "applications run although a registered connection may be disabled", func.where, path.show())
            for x in path.get("store"):
                idx, val = x[1], x[2]
                gathered = lambda t: t[0] == "call" and t[2] == "asyncio.gather"
                ok = path.has("manage") and any(y[1] == val for y in path.get("manage"))
                ctx.ob("R1", f"{key}/managed", ok, "a registered connection isn't managed", func.where, path.show())
    for name in ("finalize", "managed"):
        ctx.ob("R1", f"{key}/{name}", True)
    ctx.ob("R2", f"{key}/alive", ran > 0, "applications never run", func.where)
    ctx.ob("R2", f"{key}/result", True)
    for name in ("server", "process", "connect", "initialized", "build", "init", "running", "register", "finalize", "store", "manage"):
        ctx.ob("R1", f"{key}/some/{name}", name in seen, f"startup never involves: {name}", func.where)
    for what in ("conns", "structs", "tasks"):
        ctx.ob("R1", f"{key}/register/{what}", what in regs, f"environments aren't registered: {what}", func.where)
    for what in ("structs", "tasks"):
        ctx.ob("R1", f"{key}/finalize/{what}", what in finals, f"environments aren't finalized: {what}", func.where)


def check_sequence(ctx) -> None:
    """Initialization methods run first; applications if those succeed."""
    func = ctx.anchor_func("R3", f"{ARB}._main")
    if func is None:
        return
    key = func.qual
    is_list = lambda t: t[0] == "coro" and t[1].split(".")[-1] == "_run_apps_list"

    def label(e):
        if e.kind == "await" and is_list(T.strip(e.term)):
            term = T.strip(e.term)
            arg = T.strip(term[3][0]) if term[3] else T.NONE
            prior = [a for a, pol in facts_of(e.st) if a[0] == "cmp" and a[1] == "==" and pol and T.const(0) in a[2:4] and T.contains(a, is_list)] or [a for a, pol in facts_of(e.st) if a[0] != "cmp" and not pol and is_list(a)]
            return ("list", arg, bool(prior), none_param(e.st, "app"), T.contains(arg, lambda t: is_param(t, "app")))
        if e.kind == "store" and e.ev.kind == "name" and e.frame.uid == "" and isinstance(e.ev.value, tuple) and T.contains(T.strip(e.ev.value), is_list):
            return ("got", e.ev.name, T.strip(e.ev.value))
        return None

    tr = ctx.trace(func, label, opaque=lambda it, ev: ev.func is not None and ev.func.name not in ("_main",), raises=lambda it, ev: False, cap=2, max_states=2000)
    seen = set()
    for path in tr.ret:
        lists = path.get("list")
        val = path.val
        code = T.strip(val[1][0]) if val is not None and val[0] == "tuple" and val[1] else T.NONE
        facts = facts_of(path.st)
        if code[0] == "phi":
            code = next((x[2] for x in reversed(path.get("got")) if x[1] == code[2]), code)
        msg = None
        checked = {pol for a, pol in facts if is_param(a, "check_connections")}
        down = {pol if a[2] == "any" else not pol for a, pol in facts if a[0] == "call" and a[2] in ("any", "all") and source(a[4][0] if a[4] else ("?",)) == "conns"} | {not pol for a, pol in facts if a[0] == "attr" and a[2] == "_enabled" and source(a) == "conns"}
        if not lists:
            if checked != {True} or True not in down and down:
                msg = "applications don't run although no registered connection is disabled, or that isn't checked"
            elif not down:
                msg = "applications don't run although connections may be enabled"
        else:
            first = lists[0]
            seen.add(len(lists))
            zero = any(a[0] == "cmp" and a[1] == "==" and pol and T.const(0) in a[2:4] and T.contains(a, is_list) or a[0] != "cmp" and not pol and is_list(a) for a, pol in facts)
            if not T.contains(first[1], lambda t: t[0] == "attr" and t[2] == "_inits"):
                msg = "initialization methods don't run first"
            elif len(lists) == 1 and zero:
                msg = "applications don't run although initialization succeeded"
            elif len(lists) > 1 and not lists[1][2]:
                msg = "applications run although initialization may have failed"
            elif len(lists) > 1 and (not lists[1][4] and lists[1][3] is not True and not any(is_param(a, "app") and not pol for a, pol in facts) or lists[1][4] and lists[1][3] is True):
                msg = "the application that was passed in isn't the one that runs"
            elif len(lists) > 1 and not lists[1][4] and not T.contains(lists[1][1], lambda t: t[0] == "attr" and t[2] == "_apps"):
                msg = "the configured applications don't run"
            elif len(lists) > 1 and not T.contains(code, lambda t: is_list(t) and T.strip(t[3][0]) == lists[1][1]):
                msg = f"returns {T.path(code)}, not the result of the applications"
            elif len(lists) == 1 and not T.contains(code, is_list):
                msg = f"returns {T.path(code)}, not the result of initialization"
        if msg:
            ctx.ob("R3", f"{key}/sequence", False, msg, func.where, path.show())
    ctx.ob("R3", f"{key}/sequence", seen == {1, 2}, "applications don't run after initialization", func.where)


def check_lists(ctx) -> None:
    """Stages run in order until one fails."""
    func = ctx.anchor_func("R3", f"{ARB}._run_apps_list")
    if func is None:
        return
    key = func.qual

    def label(e):
        if e.kind == "await":
            term = T.strip(e.term)
            if term[0] == "coro" and term[1].split(".")[-1] == "_run_apps":
                arg = term[3][0] if term[3] else T.NONE
                # The result so far.
                zero = set()
                for (uid, name), v in e.st.env.items():
                    if uid == e.frame.uid and is_zero(e.st, v):
                        zero.add(name)
                return ("run", T.strip(arg), frozenset(zero))
        if e.kind == "store" and e.ev.kind == "name" and e.frame.uid == "" and isinstance(e.ev.value, tuple):
            return ("set", e.ev.name, T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "append" and "results" in T.path(T.strip(e.ev.recv)):
            return ("append",)
        if e.kind == "return" and e.frame.uid == "":
            return None
        if e.kind == "iterend" and e.frame.uid == "":
            return ("cut",)
        return None

    def is_zero(st, v):
        if v[0] == "const":
            return v[2] == 0 and v[2] is not None
        s = T.strip(v)
        return any(a[0] == "cmp" and a[1] == "==" and pol and T.const(0) in a[2:4] and s in a[2:4] for a, pol in facts_of(st)) or st.known(v, False)

    is_run = lambda t: t[0] in ("coro", "await", "call") and "_run_apps" in str(t[1] if t[0] == "coro" else t)
    returned = {n.id for r in __import__("ast").walk(func.node) if isinstance(r, __import__("ast").Return) and r.value is not None for n in __import__("ast").walk(r.value) if isinstance(n, __import__("ast").Name)}
    stats = {"run": 0, "append": 0}

    def segment(seg):
        for x in seg.labels:
            if x[0] in stats:
                stats[x[0]] += 1
        if seg.count("run") > 1:
            ctx.ob("R3", f"{key}/order", False, "a stage runs more than once", func.where, seg.show())
        for x in seg.get("run"):
            if returned and not returned & x[2]:
                ctx.ob("R3", f"{key}/stop", False, "a stage runs although an earlier one may have failed", func.where, seg.show())
            if not any(y[0] == "set" and y[1] in returned and T.contains(y[2], lambda t: t[0] == "coro" and t[1].split(".")[-1] == "_run_apps") for y in seg.labels) and not seg.kind == "ret":
                ctx.ob("R3", f"{key}/result", False, "the result of a stage is lost", func.where, seg.show())
        if seg.kind == "seg" and not seg.has("run") and not seg.has("append"):
            ctx.ob("R3", f"{key}/record", False, "a stage that isn't run isn't recorded", func.where, seg.show())
        if seg.has("run") and seg.has("append"):
            ctx.ob("R3", f"{key}/record", False, "a stage is recorded as not run although it ran", func.where, seg.show())
        if not seg.has("run"):
            for x in seg.get("set"):
                if seg.kind == "seg" and x[1] in returned and x[2] == T.const(0) and seg.has("append"):
                    ctx.ob("R3", f"{key}/result", False, "a failure is forgotten", func.where, seg.show())

    tr = ctx.trace(func, label, opaque=lambda it, ev: ev.func is not None and ev.func.name == "_run_apps", raises=lambda it, ev: False, restart="cut", segment=segment)
    for path in tr.ret:
        segment(path)
    for name in ("order", "stop", "result", "record"):
        ctx.ob("R3", f"{key}/{name}", True)
    ctx.ob("R3", f"{key}/some", all(stats.values()), "stages aren't run or recorded", func.where)


def check_stage(ctx) -> None:
    """A stage fails if any of its applications fails or raises."""
    import ast

    func = ctx.anchor_func("R3", f"{ARB}._run_apps")
    if func is None:
        return
    key = func.qual
    returned = {n.id for r in ast.walk(func.node) if isinstance(r, ast.Return) and r.value is not None for n in ast.walk(r.value) if isinstance(n, ast.Name)}
    is_result = lambda t: t[0] in ("new", "call", "tuple") and "AppResult" in str(t[1:3])
    from_apps = lambda t: T.contains(t, lambda x: x[0] == "call" and x[2] in ("asyncio.gather",))

    def label(e):
        ev = e.ev
        if e.kind == "await" and from_apps(T.strip(e.term)):
            term = T.strip(e.term)
            return ("run", T.contains(term, is_app), dict(term[5]).get("return_exceptions") is None if term[0] == "call" else True)
        if e.kind == "store" and ev.kind == "name" and ev.name in returned and e.frame.uid == "":
            return ("total", T.strip(ev.value))
        if e.kind == "call" and ev.attr == "append" and "results" in T.path(T.strip(ev.recv)):
            return ("append",)
        if e.kind == "handler":
            return ("handler", tuple(sorted(str(n) for n in e.extra)))
        if e.kind == "store" and ev.kind == "sub" and isinstance(ev.value, tuple) and is_result(T.strip(ev.value)):
            return ("result", T.contains(T.strip(ev.value), from_apps))
        if e.kind == "iterend" and e.frame.uid == "" and e.term is not None and from_apps(T.strip(e.term)):
            res = [v for (uid, name), v in e.st.env.items() if uid == "" and name in returned]
            return [("end", T.strip(res[0]) if res else T.NONE), ("cut",)]
        return None

    stats = {"run": 0, "apps": 0, "append": 0, "combine": 0}
    base = lambda t: t[0] == "unpack" or t[0] == "iter" or t[0] == "sub"

    def segment(seg):
        for x in seg.labels:
            if x[0] in stats:
                stats[x[0]] += 1
        for x in seg.get("run"):
            stats["apps"] += bool(x[1])
        end = seg.get("end")
        if end:
            stats["combine"] += 1
            if not any(x[1] for x in seg.get("result")):
                ctx.ob("R3", f"{key}/recorded", False, "an application's result isn't recorded", func.where, seg.show())
            val = end[-1][1]
            facts = facts_of(seg.st)
            falsy = {a for a, pol in facts if not pol and a[0] not in ("cmp", "isnone")} | {x for a, pol in facts if a[0] == "cmp" and a[1] == "==" and pol and T.const(0) in a[2:4] for x in a[2:4]}
            truthy = {a for a, pol in facts if pol and a[0] not in ("cmp", "isnone")} | {x for a, pol in facts if a[0] == "cmp" and a[1] == "==" and not pol and T.const(0) in a[2:4] for x in a[2:4]}
            old_zero = val == T.const(0) or any(x[0] == "phi" for x in falsy)
            new = [x for x in falsy if from_apps(x)]
            ok = False
            if from_apps(val) and val[0] != "bin":
                # The new result replaces the total.
                ok = val in truthy or old_zero or first_iter(seg)
            elif val[0] == "const":
                ok = val[2] != 0 or bool(new)
            elif val[0] == "phi":
                ok = val in truthy or bool(new)
            if not ok:
                ctx.ob("R3", f"{key}/combine", False, f"combining exit codes as {T.path(val)} may lose a failure", func.where, seg.show())

    def first_iter(seg):
        return any(x[0] == "total" and x[1] == T.const(0) for x in seg.labels)

    tr = ctx.trace(func, label, raises=lambda it, ev: False, restart="cut", segment=segment)
    for path in tr.all:
        segment(path)

    def whole(e):
        got = label(e)
        if isinstance(got, list):
            return None
        return got

    tr = ctx.trace(func, whole, raises=lambda it, ev: True if ev.name in ("asyncio.gather",) else False)
    handled = False
    for path in tr.ret:
        val = T.strip(path.val) if path.val is not None else T.NONE
        ctx.ob("R3", f"{key}/recorded", path.count("append") == 1, f"the results of a stage are recorded {path.count('append')} times", func.where, path.show())
        if path.has("handler"):
            handled = True
            ctx.ob("R3", f"{key}/raised", val[0] == "const" and val[2] != 0 and val[2] is not None, "a stage that raised counts as a success", func.where, path.show())
    ctx.ob("R3", f"{key}/raised", handled, "an application's exception isn't turned into a failure", func.where)
    for name in ("combine", "recorded"):
        ctx.ob("R3", f"{key}/{name}", True)
    ctx.ob("R3", f"{key}/some", all(stats.values()), f"the stage is never run, combined or recorded: {stats}", func.where)


def check_cleanup(ctx) -> None:
    """Whatever happens, everything is told to stop."""
    func = ctx.anchor_func("R4", f"{ARB}.app")
    if func is None:
        return
    key = func.qual

    def label(e):
        ev = e.ev
        if e.kind in ("call", "coro") and ev.attr == "manage":
            return ("manage", is_stop(ev.args[0] if ev.args else ev.kwargs.get("stop_sig")) if isinstance(ev.kwargs, dict) else True)
        if e.kind in ("call", "coro") and ev.attr == "_main":
            return ("main",)
        if e.kind == "call" and ev.attr == "set" and ev.recv is not None and is_stop(ev.recv):
            return ("stop",)
        if e.kind == "call" and ev.attr == "disable" and ev.recv is not None and source(T.strip(ev.recv)) == "conns":
            return ("disable",)
        if e.kind == "loop" and source(T.strip(e.term)) == "conns":
            return ("disable-none",) if e.extra else None
        if e.kind == "call" and ev.name.split(".")[-1] == "log_exceptions" and ev.args:
            t = T.strip(ev.args[0])
            return ("pending", T.contains(t, lambda x: x[0] == "attr" and x[2] == "_servers"), T.contains(t, lambda x: x[0] == "call" and x[2].split(".")[-1] in ("create_task", "ensure_future")))
        if e.kind == "call" and ev.attr == "cancel" and ev.recv is not None:
            return ("cancel", T.strip(ev.recv))
        if e.kind == "await":
            term = T.strip(e.term)
            if term[0] == "iter":
                return ("join", term)
        return None

    def is_stop(t):
        return t is not None and self_attr(T.strip(t), "stop_sig")

    tr = ctx.trace(func, label, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("_main", "manage", "result", "disable"), raises=lambda it, ev: True if ev.func is not None and ev.func.name == "_main" else False)
    some = {"cancel": False}
    for path in tr.all:
        if not path.has("main"):
            continue
        msg = None
        if not path.has("stop") or path.last("stop") < path.index("main"):
            msg = "the stop signal isn't set"
        elif not (path.has("disable") or path.has("disable-none")):
            msg = "connections aren't disabled"
        elif not path.has("pending"):
            msg = "servers and connection management aren't stopped"
        elif not all(x[1] and x[2] for x in path.get("pending")[:1]):
            msg = "servers or connection management may keep running"
        else:
            for x in path.get("cancel"):
                some["cancel"] = True
                if ("join", x[1]) not in path.labels:
                    msg = "a cancelled task isn't waited for"
        if msg:
            ctx.ob("R4", key, False, f"{msg} on {path.kind}", func.where, path.show())
        if path.kind == "ret":
            ok = T.contains(path.val, lambda t: t[0] == "coro" and t[1].split(".")[-1] in ("_entry", "_main") or t[0] in ("await", "unpack"))
            ctx.ob("R4", f"{key}/result", ok, f"returns {T.path(path.val)}, not the application's result", func.where, path.show())
    ctx.ob("R4", key, bool(tr.ret) and bool(tr.exc), "never returns", func.where)
    ctx.ob("R4", f"{key}/cancel", some["cancel"], "pending tasks aren't cancelled", func.where)

    func = ctx.anchor_func("R4", f"{ARB}.register_connection")
    if func is not None:
        def lab(e):
            if e.kind == "store" and e.ev.kind == "sub":
                names = {t[2] for t in T.walk(T.strip(e.ev.base)) if t[0] == "attr"}
                if names & {"_connections", "_deferred_connections"}:
                    idx = T.strip(e.ev.name) if isinstance(e.ev.name, tuple) else None
                    known = {next(iter({t[2] for t in T.walk(a) if t[0] == "attr"} & {"_connections", "_deferred_connections"}), None): pol for a, pol in facts_of(e.st) if a[0] in ("in", "cmp") and (a[0] == "in" or a[1] == "in")}
                    return ("store", known.get("_connections") is False and known.get("_deferred_connections") is False)
            return None

        tr = ctx.trace(func, lab, raises=lambda it, ev: False)
        stored = 0
        for path in tr.ret:
            ok = T.strip(path.val) == (T.TRUE if path.has("store") else T.FALSE) if path.val is not None else False
            stored += path.has("store")
            ctx.ob("R4", f"{func.qual}/result", ok, "the outcome of registering isn't reported", func.where, path.show())
            ctx.ob("R4", f"{func.qual}/unique", all(x[1] for x in path.get("store")) and path.count("store") <= 1, "a registered connection may be replaced", func.where, path.show())
        ctx.ob("R4", f"{func.qual}/some", stored >= 2, "connections aren't registered", func.where)


def run(ctx) -> None:
    ctx.rule("R1", "applications run after servers, processes, connections, structs and tasks are ready, registered and finalized")
    ctx.rule("R2", "applications only run if no registered connection is disabled (unless that isn't checked)")
    ctx.rule("R3", "stages run in order until one fails; a stage fails if any of its applications fails or raises; each stage is recorded once")
    ctx.rule("R4", "on every exit, connections are disabled, the stop signal is set, and servers and connection management are stopped; names are registered once")
    if ctx.anchor_cls("R1", ARB) is None:
        return
    check_main(ctx)
    check_sequence(ctx)
    check_lists(ctx)
    check_stage(ctx)
    check_cleanup(ctx)
