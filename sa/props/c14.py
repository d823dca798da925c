"""C14: JSON requests are handled once and answered; each response reaches the request it's for."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.common import call_names, concrete, facts_of, is_param, self_attr

LEVEL = "proof"
EXPLANATION = (
    "Typestate over every path of sending, waiting for, recognizing and processing JSON messages (per key of a message), of the standard handlers, and of the exchange of "
    "configurations and environments between a program and its peer, plus an inventory of where request identifiers come from. Delivery by the transport isn't decided."
)

IFACE = "runtimepy.message.interface.JsonMessageInterface"
CONN = "runtimepy.net.stream.json.JsonMessageConnection"
PEERS = "runtimepy.subprocess.interface.RuntimepyPeerInterface"
PEER = "runtimepy.subprocess.peer.RuntimepyPeer"


def attr_of_self(term, name: str) -> bool:
    return term is not None and self_attr(T.strip(term), name)


def named(term, what: str) -> bool:
    return T.contains(term, lambda t: t[0] in ("call", "coro") and (t[2] if t[0] == "call" else t[1]).split(".")[-1] == what)


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A request carries a fresh identifier in a copy of its data, is awaited before it's sent, and only its own response is returned, once.")
    R2 = ctx.rule("R2", "A message with an awaited identifier is stored, then signalled, and not answered; any other is answered with its own identifier.")
    R3 = ctx.rule("R3", "Every key of a message is given to its handler exactly once, unknown ones are reported; the response is sent once, after all handlers finished, to the sender.")
    R4 = ctx.rule("R4", "Every message that's sent carries the staged log messages once, and is encoded and written once to the given address.")
    R5 = ctx.rule("R5", "Identifiers are never reused, and the two ends of a link draw them from disjoint sequences.")
    R6 = ctx.rule("R6", "Standard handlers answer requests only: commands run once in the environment that's named, metadata, configurations and environments are taken from the first message, polls terminate.")
    R7 = ctx.rule("R7", "Text that isn't a JSON object is ignored without ending the connection; what isn't ignored is processed with its sender.")
    wait(ctx, R1)
    reserved(ctx, R2)
    process(ctx, R3)
    send(ctx, R4)
    identifiers(ctx, R5)
    handlers(ctx, R6)
    clients(ctx, R6)
    text(ctx, R7)


def report(ctx, rule, key, tr, judge, need=None) -> None:
    """Judge every returning path."""
    hits = 0
    for path in tr.ret:
        msg = judge(path)
        if msg:
            ctx.ob(rule, key, False, msg, tr.func.where, path.show())
        hits += need is None or bool(need(path))
    ctx.ob(rule, key, hits > 0, "never does what it's for", tr.func.where)


def wait(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{IFACE}.wait_json")
    if func is None:
        return

    def is_ident(term) -> bool:
        return T.contains(term, lambda t: t[0] == "call" and (t[3] is not None and self_attr(t[3], "curr_id") or "curr_id" in str(t[2]) or t[2].endswith("Identifier.__call__")))

    def label(e):
        ev = e.ev
        if e.kind == "store" and ev.kind == "sub":
            base = T.strip(ev.base)
            if self_attr(base, "ids_waiting"):
                return ("await", ev.name, ev.value)
            if ev.name[0] == "const" and ev.name[2] == "__id__":
                return ("ident", ev.value, is_param(ev.base, "data"))
        if e.kind == "after" and ev.func is not None and ev.func.qual.endswith("Identifier.__call__"):
            return ("fresh",)
        if e.kind == "call" and ev.attr == "send_json":
            return ("send", ev.param("data") if ev.func is not None else ev.args[0], ev.param("addr") is not None and is_param(ev.param("addr"), "addr"))
        if e.kind == "after" and ev.name == "asyncio.Event":
            return ("event",)
        if e.kind == "await":
            return ("wait", e.term)
        if e.kind == "store" and ev.kind == "delsub" and attr_of_self(ev.base, "id_responses") or e.kind == "call" and ev.attr == "pop" and ev.recv is not None and attr_of_self(ev.recv, "id_responses"):
            return ("take", ev.name if e.kind == "store" else ev.args[0])
        if e.kind == "store" and ev.kind == "delsub" and attr_of_self(ev.base, "ids_waiting"):
            return ("forget",)
        if e.kind == "call" and ev.attr in ("pop", "clear", "popitem") and ev.recv is not None and attr_of_self(ev.recv, "ids_waiting"):
            return ("forget",)
        return None

    tr = ctx.trace(func, label, p.cls(IFACE), cap=3, opaque=lambda it, ev: ev.func is not None and (ev.func.name in ("send_json", "event_wait", "asdict") or ev.func.qual.endswith("Identifier.__call__")))

    def judge(path):
        if path.count("fresh") != 1 or path.count("ident") != 1 or path.count("await") != 1:
            return "not exactly one identifier is used"
        _, ident, original = path.get("ident")[0]
        _, key, event = path.get("await")[0]
        if original:
            return "the caller's data is modified"
        if ident != key:
            return "the identifier that's awaited isn't the one that's sent"
        if path.count("send") != 1 or not path.get("send")[0][2]:
            return "the request isn't sent once to the given address"
        if not path.has("event") or path.index("event") < path.index("fresh") - 99:
            return "the response is awaited with an event that's shared"
        none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and is_param(atom[1], "data")), None)
        if not T.contains(path.get("send")[0][1], lambda t: is_param(t, "data")) and none is not True:
            return "the given data isn't sent"
        if not max(path.index("await"), path.index("ident")) < path.index("send"):
            return "the request is sent before its response is awaited"
        waits = [x for x in path.get("wait") if T.contains(x[1], lambda t: t == event)]
        if not waits or path.labels.index(waits[0]) < path.index("send"):
            return "the response isn't waited for"
        ok = any(pol and named(atom, "event_wait") and T.contains(atom, lambda t: t == event) for atom, pol in path.st.facts if atom[0] != "isnone")
        if not ok and any(named(x[1], "event_wait") for x in waits):
            return "something is returned although no response was received"
        value = path.val
        taken = [T.strip(x[1]) for x in path.get("take")]
        if not T.contains(value, lambda t: t == ("attr", ("self",), "id_responses") or t[0] == "attr" and t[2] == "id_responses"):
            return "what's returned isn't the response"
        if T.strip(ident) not in [T.strip(x) for x in T.walk(value)] and not any(x[0] == "call" and T.strip(x)[4][:1] == (T.strip(ident),) for x in T.walk(value)):
            return "the response of another request is returned"
        if taken != [T.strip(ident)]:
            return "the response is kept"
        return None

    report(ctx, rule, "wait_json", tr, judge)

    # A response is recognized (not answered) even if it's late.
    for path in tr.all:
        ctx.ob(rule, "wait_json/late", not path.has("forget"), "a request's identifier is forgotten, its response would be answered", tr.func.where, path.show())

    # An event isn't reported as set if it isn't.
    func = ctx.anchor_func(rule, "runtimepy.message.handlers.event_wait")
    if func is not None:

        def label2(e):
            if e.kind == "handler":
                return ("timeout",)
            if e.kind == "await":
                return ("wait", T.contains(e.term, lambda t: is_param(t, "event")), T.contains(e.term, lambda t: is_param(t, "timeout")))
            return None

        tr = ctx.trace(func, label2, cap=2)

        def judge2(path):
            truth = path.val[2] if path.val[0] == "const" else None
            if path.get("wait")[:1] != [("wait", True, True)] and not path.has("timeout"):
                return "the event isn't waited for, up to the timeout"
            if truth is not (not path.has("timeout")):
                return "the outcome of waiting is wrong"
            return None

        report(ctx, rule, "event_wait", tr, judge2, lambda x: x.has("timeout"))


def reserved(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{IFACE}._handle_reserved")
    if func is None:
        return

    def is_id(term) -> bool:
        term = T.strip(term)
        return T.contains(term, lambda t: t == ("const", "str", "__id__")) and T.contains(term, lambda t: is_param(t, "data"))

    def awaited(st):
        for atom, pol in facts_of(st):
            if atom[0] == "in" and self_attr(atom[2], "ids_waiting"):
                return pol
            if atom[0] == "isnone" and T.contains(atom[1], lambda t: self_attr(t, "ids_waiting")):
                return not pol
        return None

    def has_id(st):
        for atom, pol in facts_of(st):
            if atom[0] == "in" and atom[1] == ("const", "str", "__id__"):
                return pol
            if atom[0] == "isnone" and is_id(atom[1]):
                return not pol
        return None

    def label(e):
        ev = e.ev
        if e.kind == "store" and ev.kind == "sub":
            base = T.strip(ev.base)
            if self_attr(base, "id_responses"):
                return ("store", is_id(ev.name), is_param(T.strip(ev.value), "data"))
            if is_param(base, "response") and ev.name == ("const", "str", "__id__"):
                return ("echo", is_id(ev.value))
        if e.kind == "store" and ev.kind == "delsub" or e.kind == "call" and ev.attr == "pop" and ev.args:
            base = T.strip(ev.base if e.kind == "store" else ev.recv)
            key = ev.name if e.kind == "store" else ev.args[0]
            if self_attr(base, "ids_waiting"):
                return ("retire", is_id(key))
            if is_param(base, "data") and key == ("const", "str", "__id__"):
                return ("clean",)
            if is_param(base, "data") and key == ("const", "str", "__log_messages__"):
                return ("unlog",)
        if e.kind == "call" and ev.attr == "set" and ev.recv is not None and T.contains(T.strip(ev.recv), lambda t: self_attr(t, "ids_waiting")):
            return ("signal", is_id(T.strip(ev.recv)))
        if e.kind == "call" and ev.attr == "handle_log_message":
            return ("log", T.strip(ev.args[0])[0] == "iter" or T.contains(T.strip(ev.args[0]), lambda t: t[0] == "iter"))
        return None

    tr = ctx.trace(func, label, p.cls(IFACE), cap=3, opaque=lambda it, ev: ev.func is not None and ev.func.name == "handle_log_message")

    def judge(path):
        got, ident = awaited(path.st), has_id(path.st)
        value = path.val[2] if path.val is not None and path.val[0] == "const" else None
        logs = next((pol for atom, pol in facts_of(path.st) if atom[0] == "in" and atom[1] == ("const", "str", "__log_messages__")), None)
        if any(not x[1] for x in path.get("retire") + path.get("signal") + path.get("echo") + path.get("log")) or any(x[1:] != (True, True) for x in path.get("store")):
            return "another request is answered"
        if ident is True and got is True:
            if [path.count(x) for x in ("store", "signal", "retire")] != [1, 1, 1]:
                return "the response isn't stored, signalled and retired once"
            if path.index("store") > path.index("signal"):
                return "the response is signalled before it's stored"
            if not path.has("clean"):
                return "the response keeps the identifier"
            if value is not False:
                return "a response is answered"
        else:
            if path.has("store") or path.has("signal") or path.has("retire"):
                return "a message that isn't awaited is taken for a response"
            if value is not True:
                return "a request isn't answered"
            if ident is True and not path.has("echo"):
                return "the answer doesn't carry the request's identifier"
            if ident is False and path.has("echo"):
                return "an identifier is made up"
        if logs is True and not path.has("unlog"):
            return "log messages remain in the message"
        return None

    report(ctx, rule, "_handle_reserved", tr, judge, lambda x: awaited(x.st) is True)
    ctx.ob(rule, "_handle_reserved/logs", any(x.has("log") for x in tr.ret), "log messages aren't handled", func.where)


def process(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{IFACE}.process_json")
    if func is None:
        return

    def is_target(term) -> bool:
        return named(term, "evaluate")

    def from_data(t) -> bool:
        return t[0] == "iter" and T.contains(t, lambda x: is_param(x, "data"))

    def data_loop(e) -> bool:
        return e.term is not None and T.contains(T.strip(e.term), lambda t: is_param(t, "data")) and not T.contains(T.strip(e.term), lambda t: t[0] == "dict")

    def label(e):
        ev = e.ev
        if e.kind in ("call", "coro") and ev.fterm is not None and is_target(ev.fterm) and ev.func is None and ev.attr is None:
            filled = [x[1] for x in e.st.mon if x[0] == "fill" and x[2]]
            return ("handle", T.strip(ev.args[0]) if ev.args else None, len(ev.args) > 1 and T.contains(T.strip(ev.args[1]), lambda t: from_data(t) or t in filled))
        if e.kind == "call" and ev.attr == "update" and ev.args:
            return ("fill", T.strip(ev.recv), T.contains(T.strip(ev.args[0]), from_data))
        if e.kind == "call" and ev.attr in ("append", "add") and ev.args:
            arg = T.strip(ev.args[0])
            if T.contains(arg, lambda t: t[0] == "call" and t[2] == "?" or t[0] == "call" and is_target(t)):
                return ("own", T.strip(ev.recv))
            return ("other", arg)
        if e.kind == "store" and ev.kind == "sub":
            return ("sub", T.strip(ev.base), T.strip(ev.value))
        if e.kind == "call" and ev.attr == "_handle_reserved":
            return ("reserved",)
        if e.kind == "await" and T.contains(e.term, lambda t: t[0] == "call" and t[2] == "asyncio.gather"):
            return ("gather",)
        if e.kind == "call" and ev.attr == "send_json":
            return ("send", ev.param("addr") is not None and is_param(T.strip(ev.param("addr")), "addr"))
        if e.kind == "iterend" and data_loop(e):
            return [("end", target(e.st), ignored(e.st)), ("cut",)]
        return None

    def target(st):
        out = None
        for atom, pol in facts_of(st):
            if atom[0] == "call" and atom[2].split(".")[-1] == "evaluate":
                out = pol
            elif atom[0] == "isnone" and atom[1][0] == "call" and atom[1][2].split(".")[-1] == "evaluate" and out is None:
                out = not pol
        return out

    def ignored(st):
        for atom, pol in facts_of(st):
            if atom[0] == "in" and T.contains(atom[2], lambda t: t[0] in ("ext", "set", "attr", "global") and ("RESERVED" in str(t) or "keys_ignored" in str(t))):
                return not pol
        return None

    stats = {"handled": 0, "ignored": 0, "reserved": 0}
    bad = {}

    def segment(path):
        if not path.has("end"):
            return
        _, known, unknown = path.get("end")[0]
        msg = None
        handled = path.get("handle")
        if known is True:
            stats["handled"] += 1
            if len(handled) != 1:
                msg = "a key isn't given to its handler exactly once"
            elif not handled[0][2]:
                msg = "the handler isn't given the key's data"
            elif not path.has("own"):
                msg = "the handler isn't waited for"
            elif not any(x[2] == handled[0][1] for x in path.get("sub")):
                msg = "what the handler responds isn't kept"
        elif known is False:
            if handled:
                msg = "a handler runs for another key"
            if unknown is True:
                stats["ignored"] += 1
                if not path.has("other"):
                    msg = "an unknown key isn't reported"
            elif unknown is False:
                stats["reserved"] += 1
                if path.has("other"):
                    msg = "a reserved key is reported as unknown"
        if msg:
            bad.setdefault(msg, path)

    opaque = lambda it, ev: ev.func is not None and ev.func.name in ("send_json", "_handle_reserved")  # noqa: E731
    ctx.trace(func, label, p.cls(IFACE), cap=3, opaque=opaque, restart="cut", segment=segment)
    for msg, path in bad.items():
        ctx.ob(rule, f"key: {msg}", False, msg, func.where, path.show())
    for key, count in stats.items():
        ctx.ob(rule, f"key/{key}", count > 0, f"no key is ever {key}", func.where)

    def label2(e):
        item = label(e)
        if isinstance(item, list) or item is None:
            return None
        if item[0] == "sub":
            return ("answer", e.ev.name == ("const", "str", "keys_ignored") or "keys_ignored" in T.path(e.ev.name), e.ev.base)
        if item[0] == "reserved":
            return ("reserved", e.ev.param("response") if e.ev.func is not None else None)
        return item if item[0] in ("reserved", "gather", "send", "own") else None

    def should(st):
        for atom, pol in facts_of(st):
            if atom[0] == "call" and atom[2].split(".")[-1] == "_handle_reserved":
                return pol
        return None

    def content(st):
        return any(atom[0] == "dict" and pol for atom, pol in facts_of(st))

    tr = ctx.trace(func, label2, p.cls(IFACE), cap=1, opaque=opaque)

    def judge(path):
        if path.count("reserved") != 1:
            return "reserved keys aren't handled once"
        if path.has("own") and not 0 <= path.index("gather") < path.index("reserved"):
            # An empty list of handlers needn't be waited for.
            if not any(not pol and atom[0] == "list" for atom, pol in facts_of(path.st)):
                return "a response is sent before all handlers finished"
        if should(path.st) is True and content(path.st) and not path.has("send"):
            return "a request isn't answered"
        if path.has("send") and (should(path.st) is False or path.index("send") < path.index("reserved")):
            return "a response is answered"
        if path.has("send") and not path.get("send")[0][1]:
            return "the answer isn't sent to the sender"
        if path.val is None or path.val[0] != "const" or path.val[2] is not True:
            return "a message ends the connection"
        return None

    report(ctx, rule, "process_json", tr, judge, lambda x: x.has("send"))
    def answers(path, ignored: bool) -> bool:
        made = [x[1] for x in path.get("reserved")]
        return any(x[0] == "answer" and x[1] is ignored and x[2] in made for x in path.labels)

    ctx.ob(rule, "process_json/keys_ignored", any(answers(x, True) for x in tr.ret), "unknown keys aren't reported to the sender", func.where)
    ctx.ob(rule, "process_json/answers", any(answers(x, False) for x in tr.ret), "what handlers respond isn't sent", func.where)
    early = [x for x in tr.ret if answers(x, False) and x.has("gather") and any(i < x.index("gather") for i, y in enumerate(x.labels) if y[0] == "answer" and not y[1] and y[2] in [z[1] for z in x.get("reserved")])]
    ctx.ob(rule, "process_json/early", not early, "what handlers respond is gathered before they finished", func.where, early[0].show() if early else ())
    late = [x for x in tr.ret if any(i > x.index("reserved") for i, y in enumerate(x.labels) if y[0] == "answer")]
    ctx.ob(rule, "process_json/late", not late, "the response changes after reserved keys were handled", func.where, late[0].show() if late else ())


def send(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{IFACE}.send_json")
    if func is None:
        return

    def label(e):
        ev = e.ev
        if e.kind == "store" and ev.kind == "sub" and ev.name == ("const", "str", "__log_messages__"):
            return ("attach", attr_of_self(ev.value, "_log_messages"))
        if e.kind == "store" and ev.kind == "attr" and ev.name == "_log_messages":
            return ("clear", ev.value[0] == "list" and not ev.value[1])
        if e.kind == "call" and ev.attr in ("clear",) and ev.recv is not None and attr_of_self(ev.recv, "_log_messages"):
            return ("emptied",)
        if e.kind == "call" and ev.attr == "drain" and ev.recv is not None and attr_of_self(ev.recv, "list_handler"):
            return ("drain",)
        if e.kind in ("call",) and ev.attr == "stage_remote_log":
            want = [T.strip(x) for x in ev.args]
            level = ev.kwargs.get("level")
            return ("stage", len(want) == 2 and T.path(want[0]).endswith(".msg") and "args" in str(want[1]) and want[1][0] == "star" and level is not None and T.path(T.strip(level)).endswith(".levelno"))
        if e.kind == "iterend" and e.term is not None and named(e.term, "drain"):
            return ("record",)
        if e.kind == "call" and ev.attr == "encode_json":
            return ("encode", len(ev.args) > 1 and (is_param(T.strip(ev.args[1]), "data") or named(ev.args[1], "asdict")), T.strip(ev.args[0]))
        if e.kind == "call" and ev.attr == "write" and ev.recv is not None and T.strip(ev.recv)[0] == "self":
            return ("write", "getvalue" in T.path(T.strip(ev.args[0])) if ev.args else False, ev.kwargs.get("addr") is not None and is_param(T.strip(ev.kwargs["addr"]), "addr") or len(ev.args) > 1 and is_param(T.strip(ev.args[1]), "addr"))
        return None

    def staged(st):
        for atom, pol in facts_of(st):
            if self_attr(atom, "_log_messages"):
                return pol
        return None

    tr = ctx.trace(func, label, p.cls(IFACE), cap=3, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("stage_remote_log", "encode_json", "write", "asdict", "drain"))

    def judge(path):
        if path.count("encode") != 1 or path.count("write") != 1 or path.index("encode") > path.index("write"):
            return "the message isn't encoded and written once"
        if not path.get("encode")[0][1]:
            return "something else is encoded"
        if path.get("write")[0][1:] != (True, True):
            return "what was encoded isn't written to the given address"
        if path.has("emptied"):
            return "the log messages are removed from the message"
        if any(not x[1] for x in path.get("stage")) or path.count("stage") < path.count("record"):
            return "a captured log message isn't staged as it is"
        if not path.has("drain") and next((pol for atom, pol in facts_of(path.st) if self_attr(atom, "list_handler")), None) is not False:
            return "captured log messages aren't sent"
        if path.has("drain") and path.has("attach") and path.index("attach") < path.index("drain"):
            return "captured log messages aren't sent"
        if path.has("stage") and path.has("attach") and any(i > path.index("attach") for i, x in enumerate(path.labels) if x[0] == "stage"):
            return "captured log messages aren't sent"
        if not path.has("attach") and staged(path.st) is not False:
            return "staged log messages aren't sent"
        if path.has("attach"):
            if path.get("attach") != [("attach", True)] or path.get("clear") != [("clear", True)]:
                return "staged log messages aren't sent exactly once"
            if not path.index("attach") < path.index("clear") or path.index("attach") > path.index("encode"):
                return "staged log messages are lost"
        elif path.has("clear"):
            return "staged log messages are lost"
        return None

    report(ctx, rule, "send_json", tr, judge, lambda x: x.has("attach"))

    # Staging.
    func = ctx.anchor_func(rule, f"{IFACE}.stage_remote_log")
    if func is not None:

        def label2(e):
            if e.kind == "call" and e.ev.attr == "append" and attr_of_self(e.ev.recv, "_log_messages"):
                return ("stage", T.contains(e.ev.args[0], lambda t: is_param(t, "msg")) and T.contains(e.ev.args[0], lambda t: is_param(t, "level")))
            if e.kind == "store" and e.ev.kind == "sub" and e.ev.name == ("const", "str", "args"):
                return ("args", T.contains(e.ev.value, lambda t: is_param(t, "args")))
            return None

        def args(st):
            return next((pol for atom, pol in facts_of(st) if is_param(atom, "args")), None)

        report(ctx, rule, "stage_remote_log", ctx.trace(func, label2, p.cls(IFACE), cap=2), lambda x: "the message isn't staged once" if x.get("stage") != [("stage", True)] else None if args(x.st) is False or x.get("args") == [("args", True)] else "a message's arguments are lost")

    # What's written reaches the transport unchanged.
    func = ctx.anchor_func(rule, f"{CONN}.write")
    if func is not None:

        def label3(e):
            if e.kind == "call" and e.ev.attr == "_send_message":
                addr = e.ev.kwargs.get("addr") or (e.ev.args[1] if len(e.ev.args) > 1 else None)
                return ("send", is_param(T.strip(e.ev.args[0]), "data"), addr is not None and is_param(T.strip(addr), "addr"))
            return None

        report(ctx, rule, "write", ctx.trace(func, label3, p.cls(CONN), cap=2, opaque=lambda it, ev: ev.attr == "_send_message"), lambda x: None if x.get("send") == [("send", True, True)] else "the message isn't sent once to the given address")


def identifiers(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, "runtimepy.util.Identifier.__call__")
    if func is not None:

        def label(e):
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.base[0] == "self":
                value = T.strip(e.ev.value)
                step = value[0] == "bin" and value[1] == "+" and any(self_attr(x, "curr_id") for x in value[2:4]) and any(self_attr(x, "scale") for x in value[2:4])
                return ("advance", e.ev.name, step)
            return None

        tr = ctx.trace(func, label, func.cls, cap=2)
        report(ctx, rule, "Identifier", tr, lambda x: None if x.get("advance") == [("advance", "curr_id", True)] and x.val is not None and self_attr(T.strip(x.val), "curr_id") else "an identifier may be drawn twice")

    # Initial values and steps.
    init = ctx.anchor_func(rule, "runtimepy.util.Identifier.__init__")
    const = {}
    if init is not None:
        for node in ast.walk(init.node):
            if isinstance(node, (ast.Assign, ast.AnnAssign)) and isinstance(node.value, ast.Constant):
                for tgt in node.targets if isinstance(node, ast.Assign) else [node.target]:
                    if isinstance(tgt, ast.Attribute):
                        const[tgt.attr] = node.value.value
        ctx.ob(rule, "Identifier/scale", isinstance(const.get("scale"), int) and const["scale"] >= 2, "identifiers of two ends can't be disjoint", init.where)

    # Where request identifiers are drawn and adjusted.
    offsets: dict = {}
    for fn in p.all_functions():
        if fn.cls is None:
            continue
        for node in ast.walk(fn.node):
            tgt = None
            if isinstance(node, ast.AugAssign):
                tgt = node.target
            elif isinstance(node, ast.Assign):
                tgt = node.targets[0]
            if not (isinstance(tgt, ast.Attribute) and tgt.attr in ("curr_id", "scale")):
                continue
            inner = tgt.value
            if isinstance(inner, ast.Attribute) and inner.attr == "curr_id":
                # Adjusts the sequence of an instance.
                value = node.value.value if isinstance(node.value, ast.Constant) else None
                if isinstance(node, ast.AugAssign) and isinstance(node.op, ast.Add) and isinstance(value, int) and tgt.attr == "curr_id" and fn.name == "__init__":
                    offsets[fn.cls.qual] = offsets.get(fn.cls.qual, 0) + value
                elif not (isinstance(node, ast.AugAssign) and isinstance(node.op, ast.Add) and tgt.attr == "curr_id" and fn.name == "init" and "rand" in ast.unparse(node.value)):
                    ctx.ob(rule, f"{fn.qual}/{tgt.attr}", False, "the sequence of identifiers is changed after construction", f"{fn.module.rel}:{node.lineno}")
            elif isinstance(inner, ast.Name) and inner.id == "self" and fn.cls.qual not in ("runtimepy.util.Identifier",) and tgt.attr == "curr_id":
                ok = fn.qual == f"{IFACE}.__init__"
                ctx.ob(rule, f"{fn.qual}/curr_id", ok, "identifiers restart while requests may be unanswered", f"{fn.module.rel}:{node.lineno}")
    scale = const.get("scale") or 1

    def offset(cls) -> int:
        return sum(v for k, v in offsets.items() if k in [c.qual for c in p.mro_classes(cls)])

    # Programs and their peers: one end is a peer process.
    ends = {"host": p.cls(PEER), "program": p.cls("runtimepy.subprocess.program.PeerProgram")}
    if ctx.anchor_cls(rule, PEER) is not None and ctx.anchor_cls(rule, "runtimepy.subprocess.program.PeerProgram") is not None:
        apart = (offset(ends["host"]) - offset(ends["program"])) % scale
        ctx.ob(rule, "subprocess", apart != 0, "a program and its peer use the same identifiers: a request may be taken for a response", ends["host"].where if hasattr(ends["host"], "where") else "runtimepy/subprocess/peer.py")

    # Network connections: both ends are instances of the same class.
    if ctx.anchor_cls(rule, CONN) is not None:
        drawn = any(sided(p, x) for x in p.mro_classes(p.cls(CONN)))
        ctx.ob(rule, "network", drawn, "both ends of a network connection use the same identifiers: a request may be taken for a response", p.lookup(p.cls(CONN), "init").where)


def sided(p, cls) -> bool:
    """Whether something random distinguishes the sequences of two ends."""
    func = cls.methods.get("init") or cls.methods.get("__init__")
    if func is None:
        return False
    for node in ast.walk(func.node):
        if isinstance(node, (ast.AugAssign, ast.Assign)):
            tgt = node.target if isinstance(node, ast.AugAssign) else node.targets[0]
            if isinstance(tgt, ast.Attribute) and tgt.attr == "curr_id" and "rand" in ast.unparse(node.value):
                # Nothing may restart the sequence afterwards.
                return not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__init__" and n.lineno > node.lineno for n in ast.walk(func.node))
    return False


def handlers(ctx, rule) -> None:
    p = ctx.p
    # Commands.
    outer = ctx.anchor_func(rule, "runtimepy.message.handlers.channel_env_handler")
    inner = [f for f in p.all_functions() if f.outer is outer] if outer is not None else []
    if outer is not None:
        ctx.ob(rule, "channel_env_handler", len(inner) == 1, "the handler can't be found", outer.where)
    for func in inner[:1]:

        def label(e):
            ev = e.ev
            if e.kind == "call" and ev.attr == "command":
                return ("command", T.strip(ev.recv), bool(ev.args) and "command" in T.path(T.strip(ev.args[0])))
            if e.kind == "call" and ev.recv is not None and ev.fterm is None and ev.attr == "__call__":
                return ("command", T.strip(ev.recv), True)
            if e.kind == "store" and ev.kind == "sub" and is_param(T.strip(ev.base), "outbox"):
                return ("out", ev.name[2] if ev.name[0] == "const" else "?", T.strip(ev.value))
            return None

        tr = ctx.trace(func, label, cap=2)

        def judge(path):
            request = next((pol for atom, pol in facts_of(path.st) if "is_request" in T.path(atom) and atom[0] != "isnone"), None)
            default = next((pol for atom, pol in facts_of(path.st) if atom[0] == "cmp" and ("const", "str", "default") in atom), None)
            out = {x[1]: x[2] for x in path.get("out")}
            if request is not True:
                return "a response is handled like a request" if path.has("command") or out else None
            if out.get("is_request") != ("const", "bool", False):
                return "the answer looks like a request"
            if path.has("command"):
                if path.count("command") != 1 or not path.get("command")[0][2]:
                    return "the command doesn't run once"
                env = path.get("command")[0][1]
                free = T.path(env) == "default" or env[0] in ("free", "name", "ext", "param") and "default" in str(env)
                if default is True and not free:
                    return "the default environment isn't used"
                if default is False and free:
                    return "the default environment is used for another one"
                if not T.path(out.get("success", ("none",))).endswith(".success") or not T.path(out.get("reason", ("none",))).endswith(".reason"):
                    return "the outcome of the command isn't reported"
            elif out.get("success") != ("const", "bool", False):
                return "success is reported although no command ran"
            return None

        report(ctx, rule, "channel_env_handler", tr, judge, lambda x: x.has("command"))

    func = ctx.anchor_func(rule, f"{IFACE}._poll_handler")
    if func is not None:

        def label(e):
            if e.kind == "await":
                return ("poll",)
            if e.kind == "store" and e.ev.kind == "sub":
                value = T.strip(e.ev.value)
                less = value[0] == "bin" and value[1] == "-" and value[3] == ("const", "int", 1)
                guard = any(atom[0] == "cmp" and atom[1] == "<" and (atom[2] == ("const", "int", 0) and pol or atom[3] == ("const", "int", 1) and not pol) for atom, pol in facts_of(e.st))
                return ("answer", less, guard)
            return None

        tr = ctx.trace(func, label, p.cls(IFACE), cap=2, opaque=lambda it, ev: ev.attr == "poll_handler")
        report(ctx, rule, "_poll_handler", tr, lambda x: "polls may never end" if any(y[1:] != (True, True) for y in x.get("answer")) else None if x.has("poll") else "doesn't poll", lambda x: x.has("answer"))

    # First message wins.
    firsts = [(f"{IFACE}._meta_handler", "remote_meta", IFACE)]
    for fn in p.all_functions():
        if fn.name == "config_handler" and fn.outer is not None and fn.outer.qual == f"{PEERS}._register_handlers":
            firsts.append((fn.qual, "peer_config", PEERS))
    firsts.append((f"{PEERS}._set_peer_env", "peer", PEERS))
    for qual, attr, cls in firsts:
        func = p.func(qual)
        if func is None:
            ctx.anchor_func(rule, qual)
            continue

        def label(e, attr=attr):
            ev = e.ev
            known = next((pol for atom, pol in facts_of(e.st) if atom[0] == "isnone" and self_attr(atom[1], attr)), None)
            if e.kind == "store" and ev.kind == "attr" and ev.name == attr:
                return ("set", known)
            if e.kind == "call" and ev.attr == "update" and is_param(T.strip(ev.recv), "outbox"):
                return ("answer", [x[1] for x in e.st.mon if x[0] == "set"] == [True])
            if e.kind == "store" and ev.kind == "sub" and is_param(T.strip(ev.base), "outbox"):
                return ("answer", [x[1] for x in e.st.mon if x[0] == "set"] == [True])
            if e.kind == "call" and ev.attr == "set" and ev.recv is not None and T.strip(ev.recv)[0] == "attr":
                return ("signal", T.strip(ev.recv)[2], any(x[0] == "set" for x in e.st.mon))
            if e.kind == "call" and ev.func is not None and ev.func.name == "register_env":
                return ("register", T.strip(ev.args[0]) if ev.args else None)
            return None

        tr = ctx.trace(func, label, p.cls(cls), cap=3, opaque=lambda it, ev: ev.func is not None and (ev.func.name in ("register_env", "load_json", "RemoteCommandProcessor", "_handle_command")))
        name = qual.split(".")[-1]

        def judge(path, attr=attr, name=name):
            if any(x[1] is not True for x in path.get("set")):
                return f"{attr} of an earlier message is replaced"
            if any(not x[1] for x in path.get("answer")):
                return "a message that isn't the first one is answered (which may never end)"
            if any(not x[2] for x in path.get("signal")):
                return "arrival is signalled before the data is stored"
            if path.has("set") and name != "_meta_handler" and not path.has("signal"):
                return "arrival isn't signalled"
            if name == "_set_peer_env":
                if path.has("set") is not (path.val is not None and path.val[0] == "const" and path.val[2] is True):
                    return "whether the environment was taken isn't reported"
                if path.has("set") and (path.count("register") != 2 or any(i > path.index("signal") for i, x in enumerate(path.labels) if x[0] == "register")):
                    return "the environments aren't registered before their arrival is signalled"
            elif path.has("set") and not path.has("answer"):
                return "the first message isn't answered"
            return None

        report(ctx, rule, name, tr, judge, lambda x: x.has("set"))

    # Environments are answered only if they were taken.
    for fn in p.all_functions():
        if fn.name == "env_handler" and fn.outer is not None and fn.outer.qual == f"{PEERS}._register_handlers":

            def label(e):
                if e.kind == "call" and e.ev.attr == "update":
                    return ("answer", next((pol for atom, pol in facts_of(e.st) if atom[0] == "call" and atom[2].endswith("_set_peer_env")), None), "export_json" in T.path(T.strip(e.ev.args[0])))
                if e.kind == "call" and e.ev.attr == "_set_peer_env":
                    return ("take", is_param(T.strip(e.ev.args[0]), "inbox"))
                return None

            tr = ctx.trace(fn, label, p.cls(PEERS), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("_set_peer_env", "export_json"))
            report(ctx, rule, "env_handler", tr, lambda x: None if x.get("take") == [("take", True)] and all(y[1:] == (True, True) for y in x.get("answer")) else "an environment isn't exchanged once", lambda x: x.has("answer"))


def clients(ctx, rule) -> None:
    """Operations that are made of a request and its response."""
    p = ctx.p
    for qual, cls in ((f"{IFACE}.loopback", IFACE), (f"{IFACE}.channel_command", IFACE), (f"{PEERS}.share_config", PEERS), (f"{PEERS}.share_environment", PEERS)):
        func = ctx.anchor_func(rule, qual)
        if func is None:
            continue
        name = func.name

        def label(e):
            ev = e.ev
            if e.kind == "call" and ev.attr == "wait_json":
                addr = ev.param("addr")
                if addr is None:
                    addr = ev.kwargs.get("addr") or (ev.args[1] if len(ev.args) > 1 else None)
                data = T.strip(ev.args[0]) if ev.args else T.strip(ev.kwargs.get("data", T.NONE))
                return ("request", data, addr is None or is_param(T.strip(addr), "addr"), addr is not None)
            if e.kind == "await" and named(e.term, "wait_json"):
                return ("await",)
            if e.kind == "call" and ev.attr == "_set_peer_env":
                return ("take", named(ev.args[0], "wait_json"))
            return None

        tr = ctx.trace(func, label, p.cls(cls), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("wait_json", "_set_peer_env", "export_json"))
        has_addr = any(x.arg == "addr" for x in func.node.args.args)

        def judge(path, name=name, has_addr=has_addr):
            if path.count("request") != 1 or not path.has("await"):
                return "not exactly one request is made"
            _, data, addr, given = path.get("request")[0]
            if not addr or has_addr and not given:
                return "the request isn't sent to the given address"
            value = path.val
            none = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and is_param(atom[1], "data")), None)
            if name == "loopback" and none is not True and not T.contains(data, lambda t: is_param(t, "data")):
                return "the given data isn't sent"
            if name == "loopback":
                v = T.strip(value)
                if not (v[0] == "cmp" and v[1] == "==" and any(named(x, "wait_json") for x in v[2:4]) and data in v[2:4]):
                    return "success isn't that the response equals the request"
            if name == "channel_command":
                text = str(data)
                if not all(T.contains(data, lambda t, k=k: is_param(t, k)) for k in ("command", "environment")) or "is_request" not in text:
                    return "the command isn't sent with its environment"
                args = T.strip(value)
                if args[0] != "new" or not all(named(x, "wait_json") for x in args[3][:2]) or "success" not in T.path(args[3][0]):
                    return "the outcome isn't the response's"
            if name == "share_config" and not T.contains(data, lambda t: is_param(t, "data")):
                return "the configuration isn't sent"
            if name == "share_environment" and path.get("take") != [("take", True)]:
                return "the peer's environment isn't taken from the response"
            return None

        report(ctx, rule, name, tr, judge)

    func = ctx.anchor_func(rule, f"{CONN}.async_init")
    if func is not None:

        def label(e):
            if e.kind == "await":
                for what in ("loopback", "wait_json"):
                    if named(e.term, what):
                        return (what, next((pol for atom, pol in facts_of(e.st) if atom[0] != "isnone" and named(atom, "loopback")), None))
            return None

        tr = ctx.trace(func, label, p.cls(CONN), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("loopback", "wait_json", "async_init") and ev.func is not func)

        def judge(path):
            connected = next((pol for atom, pol in facts_of(path.st) if self_attr(atom, "connected")), None)
            ok = next((pol for atom, pol in facts_of(path.st) if atom[0] != "isnone" and named(atom, "loopback")), None)
            if connected is True and not path.has("loopback"):
                return "the link isn't checked"
            if any(x[1] is not True for x in path.get("wait_json")):
                return "metadata is exchanged although the link doesn't work"
            if path.has("loopback"):
                if ok is True and not path.has("wait_json"):
                    return "metadata isn't exchanged"
                good = named(path.val, "loopback") or path.val[0] == "const" and path.val[2] is ok
                if not good:
                    return "initialization doesn't fail with the link"
            return None

        report(ctx, rule, "async_init", tr, judge, lambda x: x.has("wait_json"))


def text(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{CONN}.process_message")
    if func is None:
        return

    def label(e):
        if e.kind == "await" and named(e.term, "process_json"):
            obj = next((pol for atom, pol in facts_of(e.st) if atom[0] == "isinst" or "isinstance" in T.path(atom)), None)
            return ("process", T.contains(e.term, lambda t: t[0] in ("call", "coro") and any(T.contains(x, lambda y: y[0] == "call" and y[2].split(".")[-1] == "loads") for x in (t[4] if t[0] == "call" else t[3]))), T.contains(e.term, lambda t: is_param(t, "addr")), obj)
        if e.kind == "handler":
            return ("invalid", tuple(e.extra))
        return None

    tr = ctx.trace(
        func, label, p.cls(CONN), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name == "process_json", raises=lambda it, ev: "json.JSONDecodeError" if False else None
    )

    def judge(path):
        if path.has("process"):
            if path.count("process") != 1 or path.get("process")[0][1:3] != (True, True):
                return "the message isn't processed once, with its sender"
            if path.get("process")[0][3] is False:
                return "something that isn't an object is processed"
            if not path.has("invalid") and not named(path.val, "process_json"):
                return "the outcome of processing is lost"
        elif path.val is None or path.val[0] != "const" or path.val[2] is not True:
            return "text that isn't a JSON object ends the connection"
        return None

    report(ctx, rule, "process_message", tr, judge, lambda x: x.has("process"))
    caught = [n for n in ast.walk(func.node) if isinstance(n, ast.ExceptHandler)]
    names = {ast.unparse(x.type).split(".")[-1] if x.type is not None else "BaseException" for x in caught}
    ctx.ob(rule, "process_message/decode", bool(names & {"JSONDecodeError", "ValueError", "Exception", "BaseException"}) or "JSONDecodeError" in str(names), "text that isn't JSON ends the connection", func.where)
