"""C04: received messages are processed in order, or the connection stops."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.common import concrete, facts_of, is_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of each distinct read loop and queue-writer loop found in the connection classes (the coroutines started by "
    "Connection.process): each message obtained is handed exactly once to the handler of its kind, a missing message or a refusing handler disables "
    "the connection, nothing but the enabled state ends a loop, and a loop that ends (return or exception) disables the connection. Also: transports "
    "enqueue what they receive, unchanged, on first-in-first-out queues."
)

CONN = "runtimepy.net.connection.Connection"
HANDLERS = ("process_text", "process_binary", "process_datagram")


def disables(p, term, closures) -> bool:
    """Determine if a callback disables the connection."""
    if term is None:
        return False
    if term[0] == "bound" and term[2].split(".")[-1] == "disable":
        return True
    if term[0] == "closure":
        func = closures(term)
        return func is not None and any(isinstance(n, ast.Attribute) and n.attr == "disable" for n in ast.walk(func.node))
    if term[0] == "bound":
        func = p.func(term[2])
        return func is not None and any(isinstance(n, ast.Attribute) and n.attr == "disable" for n in ast.walk(func.node))
    if term[0] == "call" and term[2].endswith("partial"):
        return any(disables(p, a, closures) for a in term[4])
    return False


def source(term):
    """Determine if a value is a message obtained from the transport."""
    return T.contains(term, lambda t: t[0] in ("call", "coro") and _name(t).split(".")[-1] in ("_await_message", "get"))


def _name(t) -> str:
    return str(t[2] if t[0] == "call" else t[1])


def label(e):
    ev = e.ev
    if e.kind == "call":
        if ev.func is not None and ev.func.name == "disable":
            return ("disable",)
        if ev.func is not None and ev.func.name in HANDLERS:
            return ("handle", ev.func.name, tuple(ev.args), ev.term)
        if ev.func is not None and ev.func.name in ("_send_text_message", "_send_binay_message"):
            return ("send", ev.func.name, tuple(ev.args))
        if ev.attr == "task_done":
            return ("task_done",)
    if e.kind == "iterend":
        return ("cut",)
    if e.kind == "handler" and not any("Exception" in str(n) for n in e.extra):
        return ("interrupt", tuple(sorted(map(str, e.extra))))
    if e.kind == "await":
        term = T.strip(e.term)
        if source(term) and not T.contains(term, lambda t: t[0] == "coro" and _name(t).split(".")[-1] in HANDLERS + ("_send_text_message", "_send_binay_message")):
            return ("get", term)
    return None


def opaque(it, ev):
    return ev.func is not None and ev.func.name in HANDLERS + ("disable", "_await_message", "_send_text_message", "_send_binay_message", "increment", "set_value")


def quiet(it, ev):
    return False if ev.func is None and ev.attr in ("task_done", "info", "debug") or ev.func is not None and ev.func.name in ("increment", "disable") else None


def loops(p):
    """Reader and writer coroutines started by processing, per class."""
    from sa.props.c03 import role

    out: dict = {}
    for cls in concrete(p, CONN):
        proc = p.lookup(cls, "process")
        for node in ast.walk(proc.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and isinstance(node.func.value, ast.Name) and node.func.value.id == "self":
                func = p.lookup(cls, node.func.attr)
                if func is None or not isinstance(func.node, ast.AsyncFunctionDef) or func.node.args.args[1:]:
                    continue
                kind = role(p, cls, ("coro", func.qual, None, (), ()))
                if kind in ("read", "text", "binary"):
                    out.setdefault(func.qual, (func, cls, kind))
    return list(out.values())


def run(ctx) -> None:
    p = ctx.p
    ctx.rule("R1", "every message obtained is handed once to the handler for its kind")
    ctx.rule("R2", "a missing message or a refusing handler disables the connection")
    ctx.rule("R3", "a read loop ends only once the connection is disabled, or disables it by ending")
    ctx.rule("R4", "every queued outgoing message is sent once, in order, by the writer for its kind")
    ctx.rule("R5", "transports enqueue received data unchanged on first-in-first-out queues")
    if ctx.anchor_cls("R1", CONN) is None or ctx.anchor_func("R3", f"{CONN}.process") is None:
        return

    # Does ending the reader disable the connection?
    conn = p.need_cls(CONN)
    from sa.props.c03 import opaque as popaque, role

    watched = False

    def lab(e):
        ev = e.ev
        if e.kind == "call" and ev.attr == "add_done_callback" and ev.args:
            term = T.strip(ev.recv)
            if term[0] == "sub":
                base, idx = term[1], term[2]
                if idx[0] == "const" and isinstance(idx[2], int):
                    for s in (base, *[x for x in e.st.facts]):
                        if s[0] == "list" and idx[2] < len(s[1]):
                            term = s[1][idx[2]]
            return ("cb", term, disables(p, ev.args[0], lambda t: e.it.closures.get(t, (None,))[0]))
        if e.kind == "store" and ev.kind == "attr" and ev.name == "_tasks" and ev.value[0] == "list":
            return ("own", T.strip(ev.value))
        return None

    tr = ctx.trace(p.lookup(conn, "process"), lab, conn, opaque=popaque)
    started = [path for path in tr.ret if path.has("own") or path.has("cb")]
    for path in started:
        ok = False
        for x in path.get("cb"):
            term = x[1]
            if term[0] == "sub" and term[2][0] == "const":
                for own in path.get("own"):
                    if isinstance(term[2][2], int) and term[2][2] < len(own[1][1]):
                        term = own[1][1][term[2][2]]
            for s in T.walk(term):
                if s[0] == "coro" and role(p, conn, s) == "read":
                    ok = ok or x[2]
        watched = ok
        if not ok:
            break

    readers = writers = 0
    for func, cls, kind in loops(p):
        if kind == "read":
            readers += 1
            check_reader(ctx, func, cls, watched)
        else:
            writers += 1
            check_writer(ctx, func, cls, kind)
    ctx.floor("R1", "read loops", readers, 2)
    ctx.floor("R4", "write loops", writers, 2)

    # Queues feeding the loops.
    def lab_q(e):
        ev = e.ev
        if e.kind == "call" and ev.attr == "put_nowait" and ev.recv is not None:
            return ("put", T.strip(ev.recv), ev.args[0] if ev.args else None)
        return None

    fed = 0
    for qual, attr, owner in (
        ("runtimepy.net.tcp.protocol.QueueProtocol.data_received", "queue", "the received data"),
        ("runtimepy.net.udp.protocol.UdpQueueProtocol.datagram_received", "queue", "the received datagram"),
        (f"{CONN}.send_text", "_text_messages", "the message"),
        (f"{CONN}.send_binary", "_binary_messages", "the message"),
    ):
        func = ctx.anchor_func("R5", qual)
        if func is None:
            continue
        fed += 1
        tr = ctx.trace(func, lab_q)
        for path in tr.ret:
            puts = path.get("put")
            if len(puts) != 1 or not self_attr(puts[0][1], attr):
                ctx.ob("R5", qual, False, f"{owner} isn't enqueued exactly once", func.where, path.show())
                continue
            val = puts[0][2]
            pair = val[0] == "tuple" and len(val[1]) == 2 and is_param(val[1][0], "data") and is_param(val[1][1], "addr")
            if not (is_param(val, "data") and "datagram" not in qual or pair and "datagram" in qual):
                ctx.ob("R5", qual, False, f"{T.path(val)} is enqueued instead of {owner}", func.where, path.show())
        ctx.ob("R5", qual, bool(tr.ret), "never completes", func.where)
    for mod in p.modules.values():
        for node in ast.walk(mod.tree):
            if isinstance(node, ast.Attribute) and node.attr in ("LifoQueue", "PriorityQueue"):
                ctx.ob("R5", f"{mod.name}/order", False, "queue doesn't preserve order", f"{mod.rel}:{node.lineno}")
            if isinstance(node, ast.ImportFrom) and node.module == "asyncio" and any(a.name in ("LifoQueue", "PriorityQueue") for a in node.names):
                ctx.ob("R5", f"{mod.name}/order", False, "queue doesn't preserve order", f"{mod.rel}:{node.lineno}")
    ctx.floor("R5", "queue feeders", fed, 4)


def handler_in(term) -> bool:
    return T.contains(term, lambda t: t[0] in ("call", "coro") and _name(t).split(".")[-1] in HANDLERS)


def outcome(seg):
    """What's known about one message: (missing, is text, accepted)."""
    none = strs = truth = None
    for atom, pol in facts_of(seg.st):
        if handler_in(atom):
            if atom[0] not in ("isnone", "cmp", "not"):
                truth = pol
        elif not source(atom):
            continue
        elif atom[0] == "isnone":
            none = pol
        elif atom[0] == "isinstance":
            strs = pol if "str" in T.path(atom[2]) else not pol
        elif atom[0] in ("call", "await", "coro") and pol:
            none = False
    return none, strs, truth


def check_reader(ctx, func, cls, watched) -> None:
    key = func.qual
    seen = set()

    def segment(seg, final=False):
        if not seg.has("get"):
            return
        none, strs, truth = outcome(seg)
        done = seg.get("handle")
        for x in done:
            seen.add(x[1])
            if not x[2] or not source(x[2][0]):
                ctx.ob("R1", f"{key}/data", False, f"{x[1]} isn't given the received message", func.where, seg.show())
            if x[1] == "process_datagram" and (len(x[2]) != 2 or part(x[2][0]) != 0 or part(x[2][1]) != 1):
                ctx.ob("R1", f"{key}/data", False, "the handler isn't given the datagram and its sender's address", func.where, seg.show())
            if strs is True and x[1] != "process_text" or strs is False and x[1] == "process_text":
                ctx.ob("R1", f"{key}/kind", False, f"a {'text' if strs else 'binary'} message is given to {x[1]}", func.where, seg.show())
            if none is not False and strs is not True:
                ctx.ob("R1", f"{key}/none", False, "a missing message is handled", func.where, seg.show())
        if len(done) > 1:
            ctx.ob("R1", f"{key}/once", False, "a message is handled more than once", func.where, seg.show())
        if {x[1] for x in done} >= {"process_text", "process_binary"} or len({x[1] for x in done}) == 1 and done[0][1] != "process_datagram" and strs is None:
            ctx.ob("R1", f"{key}/kind", False, "the handler isn't chosen by the kind of message", func.where, seg.show())
        if seg.kind == "exc" or seg.has("interrupt"):
            return
        told = seg.has("disable")
        if not done and none is not True:
            ctx.ob("R1", f"{key}/handled", False, "a message is dropped", func.where, seg.show())
        if (not done or truth is not True) and not told:
            ctx.ob("R2", key, False, "the connection stays enabled after a missing message or a handler's refusal", func.where, seg.show())
        if done and truth is not False and told and seg.kind == "seg":
            ctx.ob("R2", f"{key}/refused", False, "the connection is disabled although its message was accepted", func.where, seg.show())

    tr = ctx.trace(func, label, cls, opaque=opaque, raises=quiet, restart="cut", segment=segment)
    for path in tr.all:
        segment(path)
        ended = path.has("disable") and path.last("disable") > max(path.last("get"), path.last("handle"))
        ended = ended or known_disabled(path.st)
        if not ended and not watched:
            ctx.ob("R3", key, False, "stops reading without disabling the connection", func.where, path.show())
        if path.kind == "ret" and not ended and not path.has("interrupt"):
            ctx.ob("R3", f"{key}/early", False, "stops reading an enabled connection", func.where, path.show())
    ctx.ob("R1", f"{key}/some", "process_datagram" in seen or {"process_text", "process_binary"} <= seen, f"only ever calls {sorted(seen)}", func.where)
    for rule, name in (("R1", "once"), ("R1", "data"), ("R1", "kind"), ("R1", "none"), ("R1", "handled"), ("R2", "refused"), ("R3", "early")):
        ctx.ob(rule, f"{key}/{name}", True)
    ctx.ob("R2", key, True)
    ctx.ob("R3", key, True)


def check_writer(ctx, func, cls, kind) -> None:
    key = func.qual
    want = "_send_text_message" if kind == "text" else "_send_binay_message"
    attr = "_text_messages" if kind == "text" else "_binary_messages"
    some = []

    def segment(seg):
        if not seg.has("get"):
            return
        if not T.contains(seg.get("get")[0][1], lambda t: t[0] == "attr" and t[2] == attr):
            ctx.ob("R4", f"{key}/data", False, "messages aren't taken from the queue that they're put on", func.where, seg.show())
        sends = seg.get("send")
        some.extend(sends)
        if any(x[1] != want or not x[2] or not source(x[2][0]) for x in sends):
            ctx.ob("R4", f"{key}/data", False, "something else than the queued message is sent", func.where, seg.show())
        if len(sends) > 1:
            ctx.ob("R4", f"{key}/once", False, "a queued message is sent more than once", func.where, seg.show())
        if seg.kind != "exc" and not sends and outcome(seg)[0] is not True:
            ctx.ob("R4", f"{key}/dropped", False, "a queued message isn't sent", func.where, seg.show())

    tr = ctx.trace(func, label, cls, opaque=opaque, raises=quiet, restart="cut", segment=segment)
    for path in tr.all:
        segment(path)
        if path.kind == "ret" and not known_disabled(path.st):
            ctx.ob("R4", f"{key}/early", False, "stops sending for an enabled connection", func.where, path.show())
    ctx.ob("R4", f"{key}/some", bool(some), "never sends", func.where)
    for name in ("data", "once", "dropped", "early"):
        ctx.ob("R4", f"{key}/{name}", True)


def known_disabled(st) -> bool:
    return any(self_attr(atom, "_enabled") and pol is False for atom, pol in facts_of(st))


def part(term):
    """The constant index of a message that a value is taken from."""
    if term[0] == "sub" and term[2][0] == "const" and source(term[1]):
        return term[2][2]
    if term[0] == "unpack" and source(term[1]):
        return term[2]
    return None
