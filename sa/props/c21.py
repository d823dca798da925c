"""C21: retries back off exponentially, are bounded, and take effect once."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.interp import norm
from sa.props.common import concrete, current, current_truth, facts_of, is_param, none_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "A monotonicity domain over the expression that computes the next retry interval (it must be an exponentially growing function, capped, counted), and "
    "typestate over every path of every loop that sleeps on a backoff: each iteration knows that there's still something to do and that it mustn't give up, "
    "sleeps before it tries, tries once, and records a success exactly once. Restarting replaces both transport and protocol with ones created from the original arguments."
)

BACKOFF = "runtimepy.net.backoff.ExponentialBackoff"
CONN = "runtimepy.net.connection.Connection"


def growth(term) -> str:
    """
    How a retry interval develops over attempts: const, prev (the previous
    interval), lin, exp, bad.
    """
    tag = term[0]
    if tag == "const":
        return "const" if isinstance(term[2], (int, float)) and term[2] >= 0 else "bad"
    if tag == "attr":
        return {"attempt": "lin", "wait": "prev", "interval": "const", "max_sleep": "cap"}.get(term[2], "bad")
    if tag == "bin":
        op, a, b = term[1], term[2], term[3]
        ga, gb = growth(a), growth(b)
        if "bad" in (ga, gb):
            return "bad"
        if op == "**":
            return "exp" if a[0] == "const" and a[2] > 1 and gb in ("lin",) else "bad"
        if op == "<<":
            return "exp" if a[0] == "const" and a[2] >= 1 and gb == "lin" else "bad"
        if op == "*":
            for x, gx, y, gy in ((a, ga, b, gb), (b, gb, a, ga)):
                if gx == "prev" and y[0] == "const":
                    return "dbl" if y[2] > 1 else "bad"
            kinds = {ga, gb}
            if "exp" in kinds and kinds <= {"exp", "const", "lin"}:
                return "exp"
            return "lin" if kinds <= {"lin", "const"} and "lin" in kinds else "const" if kinds == {"const"} else "bad"
        if op == "+":
            kinds = {ga, gb}
            for x, y in ((ga, gb), (gb, ga)):
                if x == "dbl" and y == "const":
                    return "exp"
                if x == "prev" and y == "prev":
                    return "dbl"
            if "exp" in kinds and kinds <= {"exp", "const", "lin"}:
                return "exp"
            if op == "+" and kinds <= {"lin", "const"}:
                return "lin" if "lin" in kinds else "const"
            return "bad"
        if op == "-":
            # A constant offset (e.g. attempt - 1).
            return ga if gb == "const" and ga in ("lin",) else "bad"
        return "bad"
    if tag == "call" and term[3] is None and term[2] in ("max", "min", "float", "pow", "math.pow", "math.ldexp", "int"):
        gs = [growth(x) for x in term[4]]
        if "bad" in gs:
            return "bad"
        name = term[2]
        if name in ("float", "int"):
            return gs[0]
        if name in ("pow", "math.pow"):
            return "exp" if term[4][0][0] == "const" and term[4][0][2] > 1 and gs[1] == "lin" else "bad"
        if name == "math.ldexp":
            return "exp" if gs[0] == "const" and gs[1] == "lin" else "bad"
        if name == "max":
            if "dbl" in gs and "const" in gs or "exp" in gs and set(gs) <= {"exp", "const"}:
                return "exp"
            return "lin" if set(gs) <= {"lin", "const"} else "bad"
        if name == "min":
            if "cap" in gs and "exp" in gs:
                return "capped"
            if "exp" in gs and "const" in gs or "lin" in gs and "const" in gs:
                # E.g. limiting the exponent.
                return "exp" if "exp" in gs else "lin"
            return "bad"
    return "bad"


def check_backoff(ctx) -> None:
    func = ctx.anchor_func("R1", f"{BACKOFF}.sleep")
    if func is not None:
        def label(e):
            if e.kind == "await":
                term = T.strip(e.term)
                if term[0] == "call" and term[2] == "asyncio.sleep":
                    return ("sleep", term[4][0] if term[4] else None)
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.base[0] == "self":
                return ("store", e.ev.name, T.strip(e.ev.value))
            return None

        tr = ctx.trace(func, label, raises=lambda it, ev: False)
        for path in tr.ret:
            msg = None
            waits = [x[2] for x in path.get("store") if x[1] == "wait"]
            tries = [x[2] for x in path.get("store") if x[1] == "attempt"]
            capped = any(a[0] == "cmp" and a[1] == "<" and any(x[0] == "attr" and x[2] == "max_sleep" for x in a[2:4]) for a, _ in facts_of(path.st))
            if path.count("sleep") != 1 or not self_attr(path.get("sleep")[0][1] or ("x",), "wait"):
                msg = "doesn't sleep for the current interval, once"
            elif path.index("store") < path.index("sleep"):
                msg = "the state changes before the interval has passed"
            elif len(tries) != 1 or tries[0] not in (("bin", "+", ("attr", ("self", BACKOFF), "attempt", ()), T.const(1)), ("bin", "+", T.const(1), ("attr", ("self", BACKOFF), "attempt", ()))):
                msg = f"attempts aren't counted by one: {[T.path(x) for x in tries]}"
            elif len(waits) < 1:
                msg = "the interval isn't updated"
            else:
                kind = growth(waits[-1])
                if kind != "capped" and not (capped and kind in ("exp", "cap")):
                    msg = f"the next interval {T.path(waits[-1])} isn't a capped exponential"
            if msg:
                ctx.ob("R1", func.qual, False, msg, func.where, path.show())
        ctx.ob("R1", func.qual, bool(tr.ret), "never returns", func.where)

    func = ctx.anchor_func("R1", f"{BACKOFF}.reset")
    if func is not None:
        tr = ctx.trace(func, lambda e: ("store", e.ev.name, T.strip(e.ev.value)) if e.kind == "store" and e.ev.kind == "attr" else None, raises=lambda it, ev: False)
        for path in tr.ret:
            got = {x[1]: x[2] for x in path.get("store")}
            ok = all(name in got and got[name][0] == "const" and got[name][2] == 0 for name in ("wait", "attempt"))
            ctx.ob("R1", func.qual, ok, "the interval or number of attempts isn't reset", func.where, path.show())
    func = ctx.anchor_func("R1", f"{BACKOFF}.give_up")
    if func is not None:
        tr = ctx.trace(func, lambda e: None, raises=lambda it, ev: False)
        for path in tr.ret:
            val = T.strip(path.val)
            val, pol = norm(val)
            if val is None:
                known = [(a, q == pol) for a, q in facts_of(path.st) if a[0] == "cmp"]
                val, pol = known[-1] if known else (("?",), True)
            val = T.strip(val)
            ok = val[0] == "cmp" and val[1] == "<" and self_attr(val[2], "attempt") and self_attr(val[3], "max_tries") and not pol or val[0] == "cmp" and val[1] == "<=" and self_attr(val[2], "max_tries") and self_attr(val[3], "attempt") and pol
            ctx.ob("R1", func.qual, ok, f"{T.path(path.val)} isn't 'attempts reached the maximum'", func.where, path.show())
    func = ctx.anchor_func("R1", f"{BACKOFF}.__init__")
    if func is not None:
        tr = ctx.trace(func, lambda e: ("store", e.ev.name, T.strip(e.ev.value)) if e.kind == "store" and e.ev.kind == "attr" else None, raises=lambda it, ev: False)
        for path in tr.ret:
            got = {}
            for x in path.get("store"):
                got[x[1]] = x[2]
            for name in ("interval", "max_sleep", "max_tries"):
                ctx.ob("R1", f"{func.qual}/{name}", name in got and is_param(got[name], name), f"{name} isn't kept", func.where, path.show())
            ok = all(name in got and got[name][0] == "const" and got[name][2] == 0 for name in ("wait", "attempt"))
            ctx.ob("R1", f"{func.qual}/state", ok, "doesn't start from scratch", func.where, path.show())


def is_backoff(it, term) -> bool:
    return it.is_a(term, BACKOFF) or T.strip(term)[0] == "param" and T.strip(term)[2] == "backoff"


def retry_loops(ctx):
    """Functions that sleep on a backoff."""
    p = ctx.p
    found = []
    for func in p.functions.values():
        if func.cls is not None and func.cls.qual == BACKOFF:
            continue
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "sleep" and isinstance(node.func.value, (ast.Name, ast.Attribute)):
                name = node.func.value.id if isinstance(node.func.value, ast.Name) else node.func.value.attr
                if "backoff" in name or name in {a.arg for a in func.node.args.args if a.annotation is not None and "Backoff" in ast.unparse(a.annotation)}:
                    found.append(func)
                    break
    return found


def check_loop(ctx, func) -> None:
    p = ctx.p
    key = func.qual
    restart = func.cls is not None and p.lookup(func.cls, "restart") is not None

    def label(e):
        ev = e.ev
        if e.kind == "await" and T.strip(e.term)[0] in ("coro", "call"):
            term = T.strip(e.term)
            name = str(term[1] if term[0] == "coro" else term[2])
            if name == f"{BACKOFF}.sleep" or name == "sleep":
                up = {pol for a, pol in facts_of(e.st) if a[0] == "attr" and a[2] == "give_up" or a[0] == "cmp" and a[1] == "<" and a[2][0] == "attr" and a[2][2] == "attempt"}
                fields = {pol for a, pol in facts_of(e.st) if a[0] == "attr" and a[2] == "give_up"} | {not pol for a, pol in facts_of(e.st) if a[0] == "cmp" and a[1] == "<" and a[2][0] == "attr" and a[2][2] == "attempt"}
                recv = T.strip(term[2]) if term[0] == "coro" and len(term) > 2 and isinstance(term[2], tuple) else None
                given = none_param(e.st, "backoff")
                if recv is not None and any(a.arg == "backoff" for a in func.node.args.args + func.node.args.kwonlyargs) and (given is None or given is False and not is_param(recv, "backoff") or given is True and recv[0] != "new"):
                    return ("other",)
                return ("sleep", False in fields, (e.st.known(current(e.st, e.frame.self_term, "_enabled"), False) if e.frame.self_term else None), stop_clear(e.st))
            if name.split(".")[-1] == "restart":
                return ("try", term)
            if term[0] == "coro" and name.split(".")[-1].startswith("try_"):
                return ("try", term)
        if e.kind == "call" and ev.func is not None and ev.func.name == "_set_enabled":
            return ("enable", T.strip(ev.args[0]) if ev.args else None)
        if e.kind == "store" and ev.kind == "attr" and ev.name == "value" and T.strip(ev.base)[0] == "attr" and T.strip(ev.base)[2] in ("_restarts", "_restart_attempts"):
            value = T.strip(ev.value)
            return ("count", T.strip(ev.base)[2], value[0] == "bin" and value[1] == "+" and T.const(1) in value[2:4] and T.contains(value, lambda t: t[0] == "attr" and t[2] == T.strip(ev.base)[2]))
        if e.kind == "iterend" and e.frame.uid == "":
            return ("cut",)
        return None

    def stop_clear(st):
        facts = facts_of(st)
        return any(a[0] == "isnone" and is_param(a[1], "stop_sig") and pol for a, pol in facts) or any(a[0] == "call" and a[2].split(".")[-1] == "is_set" and a[3] is not None and is_param(a[3], "stop_sig") and not pol for a, pol in facts)

    def bad(rule, seg, msg):
        ctx.ob("R2", f"{key}/{rule}", False, msg, func.where, seg.show())

    stats = {"sleep": 0, "try": 0}

    def segment(seg):
        if seg.has("other"):
            bad("backoff", seg, "doesn't use the backoff that was passed in")
        for x in seg.labels:
            if x[0] in stats:
                stats[x[0]] += 1
        if seg.has("sleep"):
            x = seg.get("sleep")[0]
            if not x[1]:
                bad("bound", seg, "keeps trying although it should give up")
            if restart and x[2] is not True:
                bad("needed", seg, "restarts a connection that may not be disabled")
            if restart and not x[3]:
                bad("stop", seg, "keeps trying although the stop signal may be set")
        if seg.count("try") > 1 or seg.has("try") and (not seg.has("sleep") or seg.index("sleep") > seg.index("try")):
            bad("order", seg, "doesn't back off before each attempt")
        if seg.kind == "seg" and not seg.has("try"):
            bad("order", seg, "doesn't try anything")
        if restart and seg.kind == "ret" and not seg.has("sleep"):
            facts = facts_of(seg.st)
            why = seg.st.known(current(seg.st, ("self", func.cls.qual), "_enabled"), True)
            why = why or any(a[0] == "attr" and a[2] == "_enabled" and a[1][0] == "self" and pol for a, pol in facts)
            why = why or any(a[0] == "attr" and a[2] == "give_up" and pol or a[0] == "cmp" and a[1] == "<" and a[2][0] == "attr" and a[2][2] == "attempt" and not pol for a, pol in facts)
            why = why or any(a[0] == "call" and a[2].split(".")[-1] == "is_set" and a[3] is not None and is_param(a[3], "stop_sig") and pol for a, pol in facts)
            if not why:
                bad("stop", seg, "stops trying although it's neither restarted, out of attempts nor told to stop")
        if not restart or seg.kind != "seg":
            return
        facts = [(a, pol) for a, pol in facts_of(seg.st) if a[0] != "isnone" and T.contains(a, lambda t: t[0] == "coro" and t[1].split(".")[-1] == "restart" or t[0] == "call" and t[2].split(".")[-1] == "restart")]
        truth = {pol for _, pol in facts}
        counts = [x[1] for x in seg.get("count")]
        if not all(x[2] for x in seg.get("count")):
            bad("count", seg, "attempts or restarts aren't counted by one")
        if counts.count("_restart_attempts") != 1:
            bad("count", seg, f"an attempt is counted {counts.count('_restart_attempts')} times")
        ok = truth == {True}
        if len(truth) != 1:
            bad("result", seg, "the outcome of restarting isn't considered")
        elif ok and (seg.get("enable") != [("enable", T.TRUE)] or counts.count("_restarts") != 1):
            bad("result", seg, "a restarted connection isn't enabled and counted, once")
        elif not ok and (seg.has("enable") or "_restarts" in counts):
            bad("result", seg, "a failed restart is treated as a success")

    tr = ctx.trace(func, label, func.cls, restart="cut", segment=segment, cap=3, opaque=lambda it, ev: ev.func is not None and (ev.func.name in ("sleep", "restart", "_set_enabled", "set_value", "give_up") or ev.func.name.startswith("try_")), raises=lambda it, ev: False)
    for path in tr.all:
        segment(path)
    if not restart:
        # The outcome is what's returned, and nothing is tried after success.
        seen = {"try": 0}

        def lab2(e):
            got = label(e)
            if got and got[0] == "try":
                return ("try",)
            return None

        for path in tr.ret:
            val = T.strip(path.val) if path.val is not None else T.NONE
            none = {pol for a, pol in facts_of(path.st) if a[0] == "isnone" and (a[1] == val)}
            if val[0] == "const" or none == {True} or not none and val[0] not in ("tuple", "new") and not any(pol for a, pol in facts_of(path.st) if a == val):
                bad("result", path, f"returns {T.path(val)}: possibly nothing")
        for node in ast.walk(func.node):
            if isinstance(node, ast.While):
                # The loop's condition must depend on the outcome.
                tried = {t.id for n in ast.walk(node) if isinstance(n, (ast.Assign, ast.AnnAssign)) and isinstance(n.value, ast.Await) and isinstance(n.value.value, ast.Call) and "try_" in ast.unparse(n.value.value.func) for t in ([*n.targets] if isinstance(n, ast.Assign) else [n.target]) if isinstance(t, ast.Name)}
                used = {n.id for n in ast.walk(node.test) if isinstance(n, ast.Name)} | {n.id for s in ast.walk(node) if isinstance(s, ast.If) for n in ast.walk(s.test) if isinstance(n, ast.Name) and any(isinstance(x, (ast.Break, ast.Return)) for x in ast.walk(s))}
                returned = any(isinstance(n, ast.Return) for n in ast.walk(node))
                if tried and not tried & used and not returned:
                    ctx.ob("R2", f"{key}/result", False, "keeps trying after a success", func.where)
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id.startswith("try_"):
                ok = any(k.arg is None and isinstance(k.value, ast.Name) and func.node.args.kwarg is not None and k.value.id == func.node.args.kwarg.arg for k in node.keywords)
                ctx.ob("R2", f"{key}/args", ok, "the arguments aren't passed on", func.where)
    for name in ("backoff", "bound", "needed", "stop", "order", "count", "result"):
        ctx.ob("R2", f"{key}/{name}", True)
    ctx.ob("R2", f"{key}/some", all(stats.values()), f"never sleeps or tries: {stats}", func.where)


def check_restart(ctx) -> None:
    """Restarting replaces transport and protocol."""
    p = ctx.p
    done = set()
    count = 0
    for cls in concrete(p, CONN):
        func = p.lookup(cls, "restart")
        if func is None or func.qual in done:
            continue
        done.add(func.qual)
        tries = [n for n in ast.walk(func.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id.startswith("try_")]
        if not tries:
            continue
        count += 1

        def label(e):
            ev = e.ev
            if e.kind in ("coro", "call") and ev.func is not None and ev.func.name.startswith("try_"):
                return ("try",)
            return None

        tr = ctx.trace(func, label, cls, opaque=lambda it, ev: ev.func is not None and ev.func.name.startswith("try_"), raises=lambda it, ev: False)
        for path in tr.ret:
            val = T.strip(path.val) if path.val is not None else T.NONE
            pol = True
            while val[0] == "not":
                pol, val = not pol, val[1]
            tried = lambda t: t[0] == "coro" and t[1].split(".")[-1].startswith("try_")
            if val[0] == "const":
                known = {q for a, q in facts_of(path.st) if a[0] == "isnone" and T.contains(a, tried)} | {not q for a, q in facts_of(path.st) if a[0] != "isnone" and T.contains(a, tried)}
                ok = known == {not bool(val[2])}
            else:
                ok = val[0] == "isnone" and not pol and T.contains(val, tried)
            ctx.ob("R3", f"{func.qual}/result", ok, f"returns {T.path(path.val)}, not whether restarting succeeded", func.where, path.show())
        call = tries[0]
        kw = {k.arg: k.value for k in call.keywords}
        stars = [ast.unparse(k.value) for k in call.keywords if k.arg is None]
        ctx.ob("R3", f"{func.qual}/args", "self._conn_kwargs" in stars, "isn't restarted with the original arguments", func.where)
        # The callback (a nested function or method) installs both.
        cb = kw.get("callback")
        target = None
        if isinstance(cb, ast.Name):
            target = next((n for n in ast.walk(func.node) if isinstance(n, ast.FunctionDef) and n.name == cb.id), None)
        elif isinstance(cb, ast.Attribute) and isinstance(cb.value, ast.Name) and cb.value.id == "self":
            meth = p.lookup(cls, cb.attr)
            target = meth.node if meth is not None else None
        names = {}
        if target is not None:
            arg = [a.arg for a in target.args.args if a.arg != "self"][:1]
            for n in ast.walk(target):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.args:
                    names[n.func.attr] = ast.unparse(n.args[0])
            unpack = {}
            for n in ast.walk(target):
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Tuple) and arg and ast.unparse(n.value) == arg[0]:
                    unpack = {t.id: f"{arg[0]}[{i}]" for i, t in enumerate(n.targets[0].elts) if isinstance(t, ast.Name)}
                elif isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and arg and isinstance(n.value, ast.Subscript):
                    unpack[n.targets[0].id] = ast.unparse(n.value)
            names = {k: unpack.get(v, v) for k, v in names.items()}
            ok = bool(arg) and names.get("set_transport") == f"{arg[0]}[0]" and names.get("_set_protocol") == f"{arg[0]}[1]"
        else:
            ok = False
        ctx.ob("R3", f"{func.qual}/install", ok, f"doesn't install the new transport and protocol: {names}", func.where)
        if p.is_subclass(cls, "runtimepy.net.udp.connection.UdpConnection") and target is not None:
            keep = any(isinstance(n, ast.Attribute) and n.attr == "remote_address" for n in ast.walk(target)) and "set_remote_address" in names
            ctx.ob("R3", f"{func.qual}/remote", keep, "the remote address of a socket that isn't connected is lost", func.where)
        create = p.lookup(cls, "create_connection")
        if create is not None:
            kwarg = create.node.args.kwarg.arg if create.node.args.kwarg is not None else None
            kept = False
            for n in ast.walk(create.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == "_conn_kwargs" for t in n.targets):
                    kept = any(isinstance(m, ast.Name) and m.id == kwarg for m in ast.walk(n.value))
            ctx.ob("R3", f"{create.qual}/kwargs", kept, "the arguments to restart with aren't kept", create.where)
    ctx.floor("R3", "restartable transports", count, 2)


def check_remote(ctx) -> None:
    """A UDP socket that isn't connected knows its remote address."""
    p = ctx.p
    func = ctx.anchor_func("R3", "runtimepy.net.udp.connection.UdpConnection.create_connection")
    if func is None:
        return

    def label(e):
        if e.is_method("pop") and e.ev.args and T.strip(e.ev.args[0]) == T.const("remote_addr"):
            return ("pop",)
        if e.is_method("set_remote_address"):
            return ("set", T.contains(("tuple", tuple(T.strip(x) for x in e.ev.args)), lambda t: t[0] == "call" and t[2].split(".")[-1] == "pop"))
        return None

    tr = ctx.trace(func, label, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("set_remote_address", "udp_transport_protocol_backoff", "normalize_host"), raises=lambda it, ev: False)
    key = f"{func.qual}/remote"
    some = False
    for path in tr.ret:
        none = any(a[0] == "isnone" and pol and T.contains(a[1], lambda t: t[0] == "call" and t[2].split(".")[-1] == "pop") for a, pol in facts_of(path.st))
        if path.has("pop") and not none:
            some = some or path.has("set")
            ctx.ob("R3", key, path.has("set"), "the remote address isn't used although it was removed from the socket's arguments", func.where, path.show())
    ctx.ob("R3", key, some, "the remote address of an unconnected socket is never set", func.where)


def check_try(ctx) -> None:
    """The functions that try report failures as None and install successes."""
    p = ctx.p
    for qual in ("runtimepy.net.tcp.create.try_tcp_transport_protocol", "runtimepy.net.udp.create.try_udp_transport_protocol"):
        func = ctx.anchor_func("R4", qual)
        if func is None:
            continue

        def label(e):
            if e.kind == "call" and e.ev.node is not None and isinstance(e.ev.node, ast.Call) and isinstance(e.ev.node.func, ast.Name) and e.ev.node.func.id == "callback":
                return ("callback", T.strip(e.ev.args[0]) if e.ev.args else None)
            return None

        tr = ctx.trace(func, label, raises=lambda it, ev: False)
        for path in tr.ret:
            val = T.strip(path.val) if path.val is not None else T.NONE
            nocb = any(a[0] == "isnone" and is_param(a[1], "callback") and pol for a, pol in facts_of(path.st))
            none = val == T.NONE or any(a[0] == "isnone" and a[1] == val and pol for a, pol in facts_of(path.st))
            msg = None
            if path.has("callback") and none:
                msg = "a failure is passed on as a result"
            elif not path.has("callback") and not none and not nocb:
                msg = "a success isn't passed to the callback"
            elif path.has("callback") and path.get("callback")[0][1] != val:
                msg = "something else than the result is passed to the callback"
            if msg:
                ctx.ob("R4", qual, False, msg, func.where, path.show())
        ctx.ob("R4", qual, any(x.has("callback") for x in tr.ret), "never reports a success", func.where)


def run(ctx) -> None:
    ctx.rule("R1", "retry intervals grow exponentially up to a maximum; attempts are counted and bounded")
    ctx.rule("R2", "every retry loop backs off before each attempt and ends on success, when giving up, and when told to stop")
    ctx.rule("R3", "restarting installs a transport and protocol created from the original arguments")
    ctx.rule("R4", "a connection attempt reports exactly its successes")
    if ctx.anchor_cls("R1", BACKOFF) is None:
        return
    check_backoff(ctx)
    loops = retry_loops(ctx)
    ctx.floor("R2", "retry loops", len(loops), 3)
    for func in loops:
        check_loop(ctx, func)
    check_restart(ctx)
    check_remote(ctx)
    check_try(ctx)
