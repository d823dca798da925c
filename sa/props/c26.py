"""C26: User-interface clients observe without interfering, and leave nothing behind."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import each_return, opaque_names, own
from sa.props.c09 import each_lap
from sa.props.common import at_home, facts_of, is_param

LEVEL = "proof"
EXPLANATION = (
    "Registrations of observers and log handlers are enumerated over the package and matched with what removes them, on all paths including those that end with an exception. "
    "What a client registers is tracked by name and removed one by one when it's hidden or disconnects."
)

MESSAGE = "runtimepy.net.server.app.env.tab.message.ChannelEnvironmentTabMessaging"
STATE = "runtimepy.net.server.websocket.state.TabState"
SOCKET = "runtimepy.net.server.websocket.RuntimepyWebsocketConnection"
ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"
UPDATES = ("clear", "pop", "popitem", "update", "setdefault", "append", "remove", "extend")


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Observers of channels are registered once and tracked.")
    R2 = ctx.rule("R2", "Everything that's tracked is removed.")
    R3 = ctx.rule("R3", "The number of connections is increased once, and decreased once.")
    R4 = ctx.rule("R4", "Clients get all changes, and never affect what they observe.")
    R5 = ctx.rule("R5", "Observers and handlers that are registered for a scope are removed when it ends.")
    observers(ctx, R1)
    removal(ctx, R2)
    connections(ctx, R3)
    delivery(ctx, R4)
    scopes(ctx, R5)


def of_state(term, name: str) -> bool:
    """state.<name>"""
    return term is not None and term[0] == "attr" and term[2] == name and is_param(term[1], "state")


def observers(ctx, rule) -> None:
    p = ctx.p

    # Whoever registers observers in user-interface code tracks them.
    sites = []
    for func in p.functions.values():
        if not func.module.name.startswith("runtimepy.net.server"):
            continue
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("register_callback", "addHandler"):
                if func.outer is None:
                    sites.append((func, node.func.attr))
    ctx.floor(rule, "registrations", len(sites), 3)

    for func, attr in sites:
        if attr != "register_callback":
            continue

        def label(e):
            if e.kind == "call" and e.ev.attr == "register_callback":
                return ("register", T.strip(e.ev.recv))
            if e.kind == "call" and e.ev.attr == "remove_callback":
                return ("remove", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
            if e.kind == "store" and e.ev.kind in ("attr", "sub"):
                name = T.strip(e.ev.name) if isinstance(e.ev.name, tuple) else e.ev.name
                return ("keep", T.strip(e.ev.base), name, T.strip(e.ev.value))
            return None

        def check(path):
            for item in path.get("register"):
                prim = item[1]
                kept = [x for x in path.get("keep") if x[3][0] == "call" and x[3][2].endswith("register_callback") or x[3][0] == "attr" and False]
                if not kept:
                    return "an observer isn't tracked"
                base, name = kept[0][1], kept[0][2]
                if base[0] in ("self", "class"):
                    continue
                if not of_state(base, "callbacks"):
                    return "an observer isn't tracked where it's removed from"
                if not is_param(name, "name"):
                    return "an observer is tracked by another name"
                also = [x for x in path.get("keep") if of_state(x[1], "primitives")]
                if len(also) != 1 or also[0][2] != name or also[0][3] != prim:
                    return "the observed primitive isn't tracked"
                # What's observed is what has the name.
                if not (prim[0] == "attr" and prim[2] == "raw" and T.contains(prim[1], lambda t: t == name)):
                    return "something else is observed"
            return None

        each_return(ctx, rule, f"tracked/{func.name}", func.qual, func.cls.qual if func.cls else None, check, label=label, opaque=("register_callback", "remove_callback", "field_or_channel", "add_int"))

    # All callers check that it's not observed yet.
    holders = {f.name for f, attr in sites if attr == "register_callback" and f.cls is not None and any(is_name(n, "callbacks") for n in ast.walk(f.node))}
    count = 0
    for func in list(p.functions.values()):
        if not func.module.name.startswith("runtimepy.net.server") or func.outer is not None:
            continue
        if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in holders for n in ast.walk(func.node)):
            continue
        count += 1

        def calls(e):
            if e.kind == "call" and e.ev.attr in holders:
                name = next((T.strip(x) for x in e.ev.args), None)
                new = any(atom[0] == "in" and not pol and atom[1] == name and of_state(atom[2], "callbacks") for atom, pol in facts_of(e.st))
                return ("observe", name, new)
            return None

        tr = ctx.trace(func, calls, func.cls, opaque=opaque_names(*holders))
        bad = next((x for x in tr.all if any(not i[2] for i in x.get("observe"))), None)
        inner = any(i[2] for x in tr.all for i in x.get("observe"))
        # It may check that itself.
        ctx.ob(rule, f"once/{func.name}", bad is None and inner or checks_itself(ctx, holders), "a channel that's already observed is observed again (and only one observer is removed)", func.where, bad.show() if bad else ())
    ctx.floor(rule, "callers", count, 1)

    # Log handlers.
    def handlers(e):
        if e.kind == "call" and e.ev.attr == "addHandler":
            return ("add", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "append" and own(T.strip(e.ev.recv), "_loggers"):
            return ("track", tuple(T.strip(x) for x in e.ev.args))
        return None

    def logger(path):
        known = next((pol for atom, pol in facts_of(path.st) if atom[0] == "in" and is_param(atom[1], "logger") and own(atom[2], "_loggers")), None)
        adds, tracks = path.get("add"), path.get("track")
        if known is None:
            return "a logger can be added twice"
        if known:
            return "a logger is added twice" if adds or tracks else None
        if len(adds) != 1 or not is_param(adds[0][1], "logger") or len(adds[0][2]) != 1 or not own(adds[0][2][0], "tab_logger"):
            return "a logger isn't observed"
        if len(tracks) != 1 or not is_param(tracks[0][1][0], "logger"):
            return "a logger isn't tracked"
        return None

    each_return(ctx, rule, "logger", f"{STATE}.add_logger", STATE, logger, label=handlers)

    # Only this adds handlers.
    others = sorted(f.qual for f, attr in sites if attr == "addHandler" and f.qual != f"{STATE}.add_logger" and f.cls is not None)
    ctx.ob(rule, "handlers", not others, f"{others} adds log handlers", p.need_cls(STATE).where)


def checks_itself(ctx, holders) -> bool:
    """Whether the method that registers observers handles those that exist."""
    for name in holders:
        func = ctx.p.lookup(ctx.p.need_cls(MESSAGE), name)
        if func is None:
            return False

        def label(e):
            if e.kind == "call" and e.ev.attr == "register_callback":
                return ("register", any(atom[0] == "in" and not pol and is_param(atom[1], "name") and of_state(atom[2], "callbacks") for atom, pol in facts_of(e.st)))
            return None

        tr = ctx.trace(func, label, func.cls, opaque=opaque_names("register_callback", "field_or_channel"))
        if not any(x.has("register") for x in tr.all) or any(not i[1] for x in tr.all for i in x.get("register")):
            return False
    return True


def is_name(node, attr: str) -> bool:
    return isinstance(node, ast.Attribute) and node.attr == attr


def removal(ctx, rule) -> None:
    # Every observer, with the primitive it's registered with.
    def remove(e):
        if e.kind == "call" and e.ev.attr == "remove_callback":
            return ("remove", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "removeHandler":
            return ("handler", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
        return None

    def lap(path):
        items = path.get("remove")
        if len(items) != 1:
            return "an observer isn't removed once"
        recv, args = items[0][1:]
        prim = recv[0] == "sub" and own(recv[1], "primitives") or recv[0] == "call" and recv[2].split(".")[-1] in ("get", "pop") and recv[3] is not None and own(recv[3], "primitives")
        if not prim:
            return "an observer of another primitive is removed"
        key = recv[2] if recv[0] == "sub" else recv[4][0]
        if not T.contains(key, lambda t: own(t, "callbacks") or t[0] == "elem" or t[0] == "iter"):
            return "an observer of another channel is removed"
        if len(args) != 1 or args[0] == key:
            return "another observer is removed"
        if key[0] == "unpack" and key[-1] != 0 or args[0][0] == "unpack" and args[0][-1] != 1:
            return "another observer is removed"
        return None

    def source(name):
        return lambda t: t is not None and T.contains(t, lambda x: own(x, name))

    each_lap(ctx, rule, "each", f"{STATE}.clear_telemetry", STATE, source("callbacks"), lap, remove, opaque=("remove_callback",))

    def tables(e):
        if e.kind == "call" and e.ev.attr in UPDATES and e.ev.recv is not None:
            recv = T.strip(e.ev.recv)
            if recv[0] == "attr" and own(recv, recv[2]):
                return ("change", recv[2], e.ev.attr)
        if e.kind == "store" and e.ev.kind == "attr" and T.strip(e.ev.base)[0] == "self":
            return ("change", e.ev.name, "set" if str(T.strip(e.ev.value)[0]) in ("dict", "list", "set", "call", "new") else "?")
        if e.kind == "call" and e.ev.attr == "remove_callback":
            return ("remove",)
        if e.kind == "call" and e.ev.attr == "removeHandler":
            return ("handler",)
        if e.kind == "call" and e.ev.attr in ("clear_telemetry", "drain_str", "drain"):
            return ("do", e.ev.attr)
        return None

    def emptied(path, names, after):
        kinds = [x[0] for x in path.labels]
        for name in names:
            at = [i for i, x in enumerate(path.labels) if x[0] == "change" and x[1] == name and x[2] in ("clear", "set")]
            if not at:
                return f"'{name}' isn't emptied"
            if after in kinds and len(kinds) - 1 - kinds[::-1].index(after) > at[0]:
                return f"'{name}' is emptied before everything in it is removed"
        return None

    each_return(ctx, rule, "tables", f"{STATE}.clear_telemetry", STATE, lambda path: emptied(path, ("callbacks", "primitives", "points"), "remove"), label=tables, opaque=("remove_callback",))

    # Every logger.
    def log_lap(path):
        items = path.get("handler")
        if len(items) != 1 or len(items[0][2]) != 1 or not own(items[0][2][0], "tab_logger"):
            return "a logger's handler isn't removed once"
        if not T.contains(items[0][1], lambda t: own(t, "_loggers") or t[0] == "elem"):
            return "another logger's handler is removed"
        return None

    each_lap(ctx, rule, "loggers", f"{STATE}.clear_loggers", STATE, source("_loggers"), log_lap, remove, opaque=("remove_callback", "clear_telemetry"))

    def all_gone(path):
        msg = emptied(path, ("_loggers",), "handler")
        if msg:
            return msg
        return None if ("do", "clear_telemetry") in path.labels else "observers aren't removed"

    each_return(ctx, rule, "loggers/all", f"{STATE}.clear_loggers", STATE, all_gone, label=tables, opaque=("remove_callback", "clear_telemetry", "drain_str"))

    # Tabs that are hidden.
    def shown(e):
        if e.kind == "call" and e.ev.attr in ("clear_telemetry", "clear_loggers"):
            return ("clear", is_param(T.strip(e.ev.recv), "state"))
        if e.kind == "call" and e.ev.attr == "_setup_callback" or e.kind == "call" and e.ev.attr == "register_callback":
            return ("observe",)
        return None

    def hidden(path):
        on = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "shown") or of_state(atom, "shown")), None)
        if on is None:
            return "whether a tab is shown doesn't matter"
        if on:
            return "a tab that's shown doesn't observe channels" if path.has("clear") else None
        if path.has("observe"):
            return "channels are observed for a hidden tab"
        return None if ("clear", True) in path.labels else "channels are observed for a hidden tab"

    each_return(ctx, rule, "hidden", f"{MESSAGE}.handle_shown_state", MESSAGE, hidden, label=shown, opaque=("clear_telemetry", "_setup_callback", "values"))

    # All tabs, when the connection is disabled.
    def tab(e):
        if e.kind == "call" and e.ev.attr == "clear_loggers":
            return ("clear", T.strip(e.ev.recv))
        return None

    def tab_lap(path):
        items = path.get("clear")
        return None if len(items) == 1 and T.contains(items[0][1], lambda t: own(t, "tabs") or t[0] == "elem") else "a tab isn't cleared"

    each_lap(ctx, rule, "tabs", f"{SOCKET}.disable_extra", SOCKET, source("tabs"), tab_lap, tab, opaque=("clear_loggers", "remove_callback", "add_int"))

    # ... whatever else happens.
    p = ctx.p
    func = p.lookup(p.need_cls(SOCKET), "disable_extra")
    if func is not None:

        def loop(e):
            if e.kind == "loop" and e.term is not None and T.contains(T.strip(e.term), lambda t: own(t, "tabs")):
                return ("tabs",)
            return None

        tr = ctx.trace(func, loop, p.cls(SOCKET), opaque=opaque_names("clear_loggers", "remove_callback", "add_int"))
        bad = next((x for x in tr.ret if not x.has("tabs")), None)
        ctx.ob(rule, "tabs/always", bad is None and bool(tr.ret), "tabs may not be cleared", func.where, bad.show() if bad else ())


def is_delta(ev, amount: int) -> bool:
    args = [T.strip(x) for x in ev.args] + [T.strip(v) for v in ev.kwargs.values()]
    return ("const", "str", "num_connections") in args and any(a == ("const", "int", amount) or a == ("un", "USub", ("const", "int", -amount)) for a in args)


def connections(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr == "add_int":
            return ("count", 1 if is_delta(e.ev, 1) else -1 if is_delta(e.ev, -1) else None)
        if e.kind == "call" and e.ev.attr == "register_callback":
            return ("register", T.contains(T.strip(e.ev.recv), lambda t: t == ("const", "str", "num_connections")))
        if e.kind == "call" and e.ev.attr == "remove_callback":
            return ("remove", T.contains(T.strip(e.ev.recv), lambda t: t == ("const", "str", "num_connections")), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "attr" and T.strip(e.ev.base)[0] == "self":
            val = T.strip(e.ev.value)
            return ("set", e.ev.name, "none" if val == ("const", "NoneType", None) else "ident" if val[0] == "call" and val[2].endswith("register_callback") else "false" if val == ("const", "bool", False) else "other")
        return None

    def had(path):
        """Whether there was a reference to the interface's state."""
        for atom, pol in facts_of(path.st):
            if atom[0] == "isnone" and own(atom[1], "_ui"):
                return not pol
            if own(atom, "_ui"):
                return pol
        return None

    def join(path):
        counts = [x[1] for x in path.get("count")]
        sets = [x for x in path.get("set") if x[1] == "_ui"]
        regs = path.get("register")
        if had(path) is None:
            return "a connection can be counted twice"
        if had(path):
            return "a connection is counted twice" if counts or regs or sets else None
        if not counts and not regs:
            return "a connection that isn't counted is taken back" if any(x[2] != "none" for x in sets) else None
        if counts != [1] or len(regs) != 1 or not regs[0][1]:
            return "a connection isn't counted and observed once"
        if len(sets) != 1 or sets[0][2] != "other":
            return "that a connection is counted isn't kept"
        if not any(x[2] == "ident" for x in path.get("set")):
            return "the observer isn't tracked"
        return None

    tr = each_return(ctx, rule, "join", f"{SOCKET}._get_ui", SOCKET, join, label=label, opaque=("add_int", "register_callback", "singleton"))
    if tr is not None:
        ctx.ob(rule, "join/happens", any(x.has("count") for x in tr.ret), "connections are never counted", tr.func.where)
        # Nothing remains when that fails half way.
        ident = {x[1] for path in tr.ret for x in path.get("set") if x[2] == "ident"}
    else:
        ident = set()

    def leave(path):
        counts = [x[1] for x in path.get("count")]
        removes = path.get("remove")
        if had(path) is None:
            return "a connection can be taken back twice"
        if not had(path):
            return "a connection that wasn't counted is taken back" if counts or removes else None
        if counts != [-1]:
            return "a connection isn't taken back once"
        if len(removes) != 1 or not removes[0][1] or len(removes[0][2]) != 1 or not any(own(removes[0][2][0], name) for name in ident):
            return "the observer isn't removed"
        if not any(x[1] == "_ui" and x[2] == "none" for x in path.get("set")):
            return "a connection can be taken back twice"
        if not any(x[1] == "poll_connection_metrics" and x[2] == "false" for x in path.get("set")):
            return "a disabled connection is still responsible for metrics"
        return None

    each_return(ctx, rule, "leave", f"{SOCKET}.disable_extra", SOCKET, leave, label=label, opaque=("add_int", "remove_callback", "clear_loggers"))

    # Only this changes the number.
    p = ctx.p
    users = sorted({f.qual for f in p.functions.values() for n in ast.walk(f.node) if isinstance(n, ast.Constant) and n.value == "num_connections" and f.outer is None})
    ok = {f"{SOCKET}._get_ui", f"{SOCKET}.disable_extra"}
    odd = [x for x in users if x not in ok and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_int", "set", "register_callback", "apply") and any(isinstance(a, ast.Constant) and a.value == "num_connections" for a in n.args) for n in ast.walk(p.functions[x].node))]
    ctx.ob(rule, "others", not odd, f"{odd} changes the number of connections", p.need_cls(SOCKET).where)

    # It's counted when connections are initialized.
    def init(path):
        return None if path.has("ui") else "a connection isn't counted"

    each_return(ctx, rule, "init", f"{SOCKET}.async_init", SOCKET, init, label=lambda e: ("ui",) if e.kind == "call" and e.ev.attr == "_get_ui" else None, opaque=("_get_ui",))

    def amount(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value":
            return ("set", T.strip(e.ev.base), T.strip(e.ev.value))
        return None

    def add(path):
        items = [x for x in path.get("set") if x[1][0] == "attr" and x[1][2] == "raw"]
        if len(items) != 1:
            return "a number isn't changed once"
        val = items[0][2]
        if val[0] != "bin" or val[1] != "+" or not any(is_param(x, "amount") for x in val[2:4]) or not any(x == ("attr", items[0][1], "value", ()) for x in val[2:4]):
            return "a number isn't changed by the amount"
        return None

    each_return(ctx, rule, "add", f"{ENV}.add_int", ENV, add, label=amount, opaque=("get_int", "value"))


def delivery(ctx, rule) -> None:
    p = ctx.p

    # Observers put each change into the list of their channel.
    outer = p.func(f"{MESSAGE}._setup_callback") or next((f for f in p.functions.values() if f.cls is not None and f.cls.qual == MESSAGE and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "register_callback" for n in ast.walk(f.node))), None)
    ctx.ob(rule, "observer", outer is not None, "channels aren't observed", p.need_cls(MESSAGE).where)
    inner = [f for f in p.functions.values() if outer is not None and f.outer is outer]
    for func in inner:

        def label(e):
            if e.kind == "call" and e.ev.attr == "append":
                return ("point", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
            if e.kind == "call" and e.ev.attr in ("set", "set_value", "apply", "toggle", "invert") or e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("value", "scaled", "raw"):
                return ("write",)
            return None

        tr = ctx.trace(func, label, outer.cls, raises=lambda it, ev: None if ev.func is not None and ev.func.module.name.startswith("runtimepy.channel.environment") else False, opaque=opaque_names("append"))
        bad = next((x for x in tr.exc if set(x.val or ()) & {"KeyError", "ValueError", "TypeError", "IndexError", "AssertionError"} and not expected(x)), None)
        ctx.ob(rule, f"{func.name}/raises", bad is None, f"writing a channel that's observed may raise {sorted(bad.val) if bad else ''}", func.where, bad.show() if bad else ())
        odd = None
        for path in tr.ret:
            points = path.get("point")
            if path.has("write"):
                odd = odd or ("an observer changes values", path)
            if len(points) != 1:
                odd = odd or ("a change isn't delivered once", path)
                continue
            recv, args = points[0][1:]
            if not T.contains(recv, lambda t: isinstance(t, tuple) and t and t[0] == "attr" and t[2] == "points"):
                odd = odd or ("a change isn't delivered", path)
            if len(args) != 1 or args[0][0] != "tuple" or len(args[0][1]) != 2:
                odd = odd or ("a point isn't value and time", path)
                continue
            value, time = args[0][1]
            if not (time[0] == "attr" and time[2] == "last_updated_ns"):
                odd = odd or ("a point doesn't have the time of the change", path)
        ctx.ob(rule, f"{func.name}/point", odd is None and bool(tr.ret), odd[0] if odd else "never returns", func.where, odd[1].show() if odd else ())
    ctx.floor(rule, "observers", len(inner), 1)

    # Frames take over what has been collected.
    def frame(e):
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "points":
            val = T.strip(e.ev.value)
            return ("new", val[0] in ("dict", "call", "new") and not T.contains(val, lambda t: own(t, "points")))
        if e.kind == "call" and e.ev.attr in UPDATES and e.ev.recv is not None and own(T.strip(e.ev.recv), "points"):
            return ("change",)
        if e.kind == "call" and e.ev.attr in ("drain_str", "drain") and own(T.strip(e.ev.recv), "tab_logger"):
            return ("drain", e.ev.attr)
        return None

    def taken(path):
        some = next((pol for atom, pol in facts_of(path.st) if own(atom, "points")), None)
        puts = {x[1][2]: x[2] for x in path.get("put") if x[1][0] == "const"}
        val = T.strip(path.val)
        if val[0] == "dict":
            for k, v in val[1]:
                puts.setdefault(k[2] if k[0] == "const" else k, v)
        if path.has("change"):
            return "points that are handed out are changed"
        if some is False:
            return None
        if "points" not in puts or not own(puts["points"], "points"):
            return "points are lost"
        if not path.has("new") or not all(x[1] for x in path.get("new")):
            return "points are delivered again"
        order = [x[0] if x[0] != "put" else x[1][2] for x in path.labels]
        if "points" in order and order.index("points") > order.index("new"):
            return "points are lost"
        return None

    each_return(ctx, rule, "frame", f"{STATE}.frame", STATE, taken, label=frame, opaque=("drain_str", "drain"))

    def logs(path):
        some = next((pol for atom, pol in facts_of(path.st) if own(atom, "tab_logger")), None)
        puts = {x[1][2]: x[2] for x in path.get("put") if x[1][0] == "const"}
        drained = path.has("drain")
        if drained and not any("drain" in str(v[2]) for v in puts.values() if v[0] == "call"):
            return "log messages are lost"
        return "log messages aren't delivered" if some is not False and not drained else None

    each_return(ctx, rule, "frame/logs", f"{STATE}.frame", STATE, logs, label=frame, opaque=("drain_str", "drain"))

    # Frames are those of all tabs, for this client.
    func = next((f for f in p.functions.values() if f.outer is not None and f.outer.cls is not None and f.outer.cls.qual == SOCKET and any(is_name(n, "all_tabs") for n in ast.walk(f.node))), None)
    ctx.ob(rule, "handler", func is not None, "messages of clients aren't handled", p.need_cls(SOCKET).where)
    if func is not None:

        def handler(e):
            if e.kind == "call" and e.ev.attr == "frame":
                recv = T.strip(e.ev.recv)
                return ("frame", recv)
            if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "outbox"):
                return ("out", T.strip(e.ev.name), T.strip(e.ev.value))
            if e.kind in ("call", "coro") and e.ev.attr == "handle_message":
                return ("message", tuple(T.strip(x) for x in e.ev.args))
            if e.kind == "iterend":
                return [("end", T.strip(e.term) if e.term is not None else None), ("cut",)]
            return None

        laps = []
        tr = ctx.trace(func, handler, p.cls(SOCKET), opaque=opaque_names("frame", "handle_message", "_poll_ui_state", "_get_ui", "tab_sender"), restart="cut", segment=laps.append, cap=4)
        bad = None
        seen = 0
        for path in laps:
            if not path.has("end"):
                continue
            seen += 1
            frames, outs = path.get("frame"), path.get("out")
            if len(frames) != 1:
                bad = bad or ("a tab's updates aren't delivered", path)
                continue
            key = frames[0][1][2] if frames[0][1][0] == "sub" else None
            some = next((pol for atom, pol in facts_of(path.st) if atom[0] == "call" and atom[2].endswith("frame")), None)
            if some is not False and (len(outs) != 1 or outs[0][1] != key or not (outs[0][2][0] == "call" and outs[0][2][2].endswith("frame"))):
                bad = bad or ("a tab's updates aren't delivered", path)
        ctx.ob(rule, "handler/frames", bad is None and seen > 0, bad[0] if bad else "updates aren't delivered", func.where, bad[1].show() if bad else ())
        odd = None
        seen = 0
        for path in tr.ret:
            for item in path.get("message"):
                seen += 1
                args = item[1]
                state = args[2] if len(args) > 2 else None
                if state is None or state[0] != "sub" or not T.contains(state[1], lambda t: t[0] == "attr" and t[2] == "tabs") or "name" not in str(state[2]):
                    odd = odd or ("a tab's state isn't the one of its name", path)
                outs = [x for x in path.get("out")]
                some = next((pol for atom, pol in facts_of(path.st) if T.contains(atom, lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] in ("call", "coro") and "handle_message" in str(t[1:3])) and atom[0] != "isnone"), None)
                if some is not False and not outs:
                    odd = odd or ("a response is lost", path)
        ctx.ob(rule, "handler/messages", odd is None and seen > 0, odd[0] if odd else "messages aren't handled", func.where, odd[1].show() if odd else ())

    # Tabs that are shown get what's changed since they were.
    def shown(e):
        if e.kind == "call" and e.ev.attr is None and e.ev.fterm is not None and is_param(T.strip(e.ev.fterm), "send"):
            return ("send", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "update" and of_state(T.strip(e.ev.recv), "latest_ui_values"):
            return ("keep", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "latest_ui_values":
            return ("keep", (T.strip(e.ev.value),))
        return None

    def current(path):
        on = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "shown") or of_state(atom, "shown")), None)
        same = None
        for atom, pol in facts_of(path.st):
            if atom[0] == "cmp" and atom[1] == "==" and any(of_state(x, "latest_ui_values") for x in atom[2:4]):
                same = pol
        keeps, sends = path.get("keep"), path.get("send")
        if len(keeps) != 1 or "values" not in str(keeps[0][1]):
            return "what a client knows isn't kept"
        if on is False and sends:
            return "a hidden tab gets values"
        if on and same is not True and not sends:
            return "a tab that's shown doesn't get current values"
        kinds = [x[0] for x in path.labels]
        if sends and kinds.index("keep") < kinds.index("send"):
            return "values count as known before they're sent"
        return None

    each_return(ctx, rule, "shown", f"{MESSAGE}.handle_shown_state", MESSAGE, current, label=shown, opaque=("clear_telemetry", "_setup_callback", "values"))

    # Which values those are.
    def values(e):
        if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.base)[0] in ("dict", "call", "new"):
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def lap(path):
        puts = path.get("put")
        known = same = None
        for atom, pol in facts_of(path.st):
            if atom[0] == "in" and of_state(atom[2], "latest_ui_values"):
                known = pol
            if atom[0] == "cmp" and atom[1] == "==" and any(x[0] in ("sub", "call") and T.contains(x, lambda t: of_state(t, "latest_ui_values")) for x in atom[2:4]):
                same = pol
        if not puts:
            return None if same is True else "a value isn't sent that has changed"
        key, value = puts[0][1:]
        if key == value or key[0] == "unpack" and key[-1] != 0 or value[0] == "unpack" and value[-1] != 1:
            return "names and values are mixed up"
        return "a value is sent that's known" if known and same else None

    each_lap(ctx, rule, "shown/values", f"{MESSAGE}.handle_shown_state", MESSAGE, lambda t: t is not None and "values" in str(t), lap, values, opaque=("clear_telemetry", "_setup_callback", "values"))

    # All channels are observed.
    def observe(e):
        if e.kind == "call" and e.ev.attr == "_setup_callback":
            return ("observe", tuple(T.strip(x) for x in e.ev.args))
        return None

    def all_names(path):
        known = next((pol for atom, pol in facts_of(path.st) if atom[0] == "in" and of_state(atom[2], "callbacks")), None)
        if known is True:
            return None
        return None if path.count("observe") == 1 else "a channel isn't observed"

    if p.lookup(p.need_cls(MESSAGE), "_setup_callback") is not None:
        each_lap(ctx, rule, "shown/all", f"{MESSAGE}.handle_shown_state", MESSAGE, lambda t: t is not None and t[-2:-1] == ("names",) or "names" in str(t) and "values" not in str(t), all_names, observe, opaque=("clear_telemetry", "_setup_callback", "values"))


def expected(path) -> bool:
    """The channel exists, since it's observed."""
    return set(path.val or ()) == {"AssertionError"}


PAIRS = {"register_callback": "remove_callback", "addHandler": "removeHandler"}


def scopes(ctx, rule) -> None:
    """Context managers."""
    p = ctx.p
    count = 0
    for func in p.functions.values():
        if not func.is_generator or func.cls is None and func.outer is None and False:
            continue
        used = {n.func.attr for n in ast.walk(func.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)} & set(PAIRS)
        if not used:
            continue
        count += 1

        def label(e):
            if e.kind == "call" and e.ev.attr in PAIRS:
                return ("add", e.ev.attr, T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
            if e.kind == "call" and e.ev.attr in PAIRS.values():
                return ("drop", e.ev.attr, T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
            if e.kind == "yield":
                return ("yield",)
            return None

        def quiet(it, ev):
            return False

        tr = ctx.trace(func, label, func.cls, opaque=opaque_names("register_callback", "remove_callback", "_poll", "cleanup", "main", "wait_json", "run_standard", "streaming_events"), raises=quiet, assert_raises=False)
        bad = None
        for path in tr.all:
            if not path.has("yield"):
                continue
            adds, drops = path.get("add"), path.get("drop")
            if len(adds) != len(drops):
                bad = bad or ("an observer isn't removed when its scope ends", path)
                continue
            for a, d in zip(adds, drops):
                if d[1] != PAIRS[a[1]] or a[2] != d[2]:
                    bad = bad or ("something else is removed", path)
                same = a[3] == d[3] if a[1] == "addHandler" else len(d[3]) == 1 and d[3][0][0] == "call" and d[3][0][2].endswith("register_callback")
                if not same:
                    bad = bad or ("another observer is removed", path)
        ctx.ob(rule, func.qual.split(".", 1)[1], bad is None and any(x.has("yield") for x in tr.all), bad[0] if bad else "the scope is never entered", func.where, bad[1].show() if bad else ())
    ctx.floor(rule, "scopes", count, 4)
