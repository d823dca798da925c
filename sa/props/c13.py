"""C13: Commands only change channels that may be commanded, and remote parties only change channels by command."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import each_return, is_self, opaque_names, own
from sa.props.c09 import pairs
from sa.props.c11 import called
from sa.props.common import at_home, concrete, facts_of, is_param

LEVEL = "other"
EXPLANATION = (
    "All paths of the command handler are enumerated: what's known about the command and channel wherever something is changed or a hook runs is compared with what has to be. "
    "All code that acts on behalf of a remote party is searched for other ways to change channels."
)

MOD = "runtimepy.channel.environment.command"
PROC = f"{MOD}.processor.ChannelCommandProcessor"
REMOTE = f"{MOD}.processor.RemoteCommandProcessor"
COMMAND = f"{MOD}.parser.ChannelCommand"
PARSER = f"{MOD}.parser.CommandParser"
ASYNC = "runtimepy.mixins.async_command.AsyncCommandProcessingMixin"

# What changes a channel.
WRITERS = ("set", "apply", "invert", "toggle", "__setitem__", "set_default")
# Callables that are judged on their own.
OPAQUE = ("set", "invert", "toggle", "apply", "field_or_channel", "exists", "value", "exception", "__setitem__", "set_default")


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Channels are only changed by the right command, if they're commandable or the command is forced.")
    R2 = ctx.rule("R2", "Hooks run for each command that succeeds locally or isn't meant for this environment, with the right arguments.")
    R3 = ctx.rule("R3", "There's no way around the gate.")
    R4 = ctx.rule("R4", "Commands are neither forced nor remote unless it's asked for.")
    R5 = ctx.rule("R5", "Remote parties change channels by command, and learn its result.")
    R6 = ctx.rule("R6", "Queued commands are handled once each, in order.")
    R7 = ctx.rule("R7", "Remote commands are passed on completely.")
    gate(ctx, R1, R2)
    callers(ctx, R3)
    parser(ctx, R4)
    remote(ctx, R5)
    queue(ctx, R6)
    forward(ctx, R7)


def arg_attr(term, name: str) -> bool:
    return term is not None and term[0] == "attr" and term[2] == name and is_param(term[1], "args")


def member(term, name: str) -> bool:
    return term is not None and T.contains(term, lambda t: t[0] == "attr" and t[2] == name and t[1] == ("class", COMMAND)) or term == ("const", "str", name.lower()) or isinstance(term, tuple) and term[0] == "attr" and term[2] == name


def known(st) -> dict:
    """What's known about a command and its channel."""
    out: dict = {"not": set()}
    for (base, name), val in st.heap.items():
        if is_param(base, "args") and name in ("remote", "force") and val[0] == "const":
            out[name] = bool(val[2])
    for atom, pol in facts_of(st):
        if arg_attr(atom, "remote"):
            out["remote"] = pol
        elif arg_attr(atom, "force"):
            out["force"] = pol
        elif atom[0] == "cmp" and any(arg_attr(x, "command") for x in atom[2:4]):
            for name in ("SET", "TOGGLE", "GET", "CUSTOM"):
                if any(member(x, name) for x in atom[2:4]):
                    if pol:
                        out["command"] = name
                    else:
                        out["not"].add(name)
        elif atom[0] == "attr" and atom[2] == "commandable" and called(atom[1], "field_or_channel"):
            out["commandable"] = pol
        elif atom[0] == "isnone" and called(atom[1], "field_or_channel"):
            out["found"] = not pol
        elif atom[0] == "isinstance" and called(atom[1], "field_or_channel"):
            out["field"] = pol
    return out


def the_channel(term) -> bool:
    return called(term, "field_or_channel") and bool(term[4]) and arg_attr(term[4][0], "channel")


def frozen(info: dict) -> tuple:
    return tuple(sorted((k, tuple(sorted(v)) if isinstance(v, set) else v) for k, v in info.items()))


def label(e):
    if e.kind == "call":
        ev = e.ev
        recv = T.strip(ev.recv) if ev.recv is not None else None
        args = tuple(T.strip(x) for x in ev.args) + tuple(T.strip(v) for k, v in sorted(ev.kwargs.items()) if k in ("key", "value"))
        if ev.attr in WRITERS and recv is not None and not is_self(recv) and not T.contains(recv, lambda t: own(t, "hooks")):
            return ("effect", ev.attr, recv, args, frozen(known(e.st)))
        if ev.term is not None and ev.node is not None and ev.attr is None and ev.func is None and any(own(c, "hooks") or T.contains(c, lambda t: own(t, "hooks")) for c in T.element_of(fn_term(e))):
            return ("hook", args, frozen(known(e.st)))
    if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("value", "scaled"):
        return ("effect", "store", T.strip(e.ev.base), (), frozen(known(e.st)))
    if e.kind == "handler":
        return ("failed",)
    if e.kind == "iterend":
        return ("end", T.strip(e.term))
    return None


def fn_term(e):
    """What's called."""
    return T.strip(e.ev.fterm) if e.ev.fterm is not None else ("?",)


def impossible(path) -> bool:
    """Results are true if (and only if) they're successful."""
    return any(success(atom) is not None and success(atom) != pol for atom, pol in facts_of(path.st))


def success(val):
    """Whether a result is known to be (un)successful."""
    val = T.strip(val)
    if val[0] == "new" and val[3]:
        return val[3][0][2] if val[3][0][0] == "const" else None
    if val[0] == "ext" and val[1].endswith(".SUCCESS"):
        return True
    return None


def gate(ctx, R1, R2, only=()) -> None:
    p = ctx.p
    done = set()
    for cls in concrete(p, PROC):
        func = p.lookup(cls, "handle_command")
        if func is None or cls.qual in done:
            continue
        done.add(cls.qual)
        tr = ctx.trace(func, label, cls, opaque=opaque_names(*OPAQUE), cap=3)
        remote_only = p.is_subclass(cls, REMOTE)
        bad: dict = {}
        seen = set()

        def fail(rule, key, msg, path):
            bad.setdefault((rule, key), (msg, path))

        for path in tr.all:
            if impossible(path):
                continue
            effects = 0
            failed = False
            hooks = 0
            for item in path.labels:
                if item[0] == "failed":
                    failed = True
                if item[0] == "effect":
                    effects += 1
                    _, attr, recv, args, info = item
                    info = dict(info)
                    seen.add(attr)
                    if not (info.get("commandable") or info.get("force")):
                        fail(R1, "gate", "a channel is changed that isn't known to be commandable", path)
                    if not info.get("found") and attr != "set":
                        fail(R1, "gate", "the channel may not exist", path)
                    if info.get("remote") is not False or info.get("command") == "CUSTOM":
                        fail(R1, "remote", "a remote command changes a local channel", path)
                    if effects > 1:
                        fail(R1, "once", "a channel is changed more than once", path)
                    if attr in ("invert", "toggle"):
                        if info.get("command") != "TOGGLE":
                            fail(R1, "toggle", "a channel is toggled by another command", path)
                        if not (the_channel(recv) or recv[0] == "attr" and recv[2] == "raw" and the_channel(recv[1])):
                            fail(R1, "toggle", "another channel is toggled", path)
                    elif attr == "set":
                        if info.get("command") != "SET":
                            fail(R1, "set", "a channel is set by another command", path)
                        extra = len(args) == 2 and args[1][0] == "sub" and arg_attr(args[1][1], "extra") and args[1][2] == ("const", "int", 0)
                        if not own(recv, "env") or not args or not arg_attr(args[0], "channel") or not extra:
                            fail(R1, "set", "another channel or value is set", path)
                    else:
                        fail(R1, "other", f"a channel is changed by '{attr}'", path)
                if item[0] == "hook":
                    hooks += 1
                    info = dict(item[2])
                    args = item[1]
                    away = info.get("remote") or info.get("command") == "CUSTOM"
                    if len(args) != 2 or not (is_param(args[0], "args")):
                        fail(R2, "arguments", "hooks don't get the command", path)
                    elif away:
                        seen.add("away")
                        if args[1] != ("const", "NoneType", None):
                            fail(R2, "arguments", "hooks of a remote command get a channel", path)
                    else:
                        seen.add("local")
                        if not the_channel(args[1]):
                            fail(R2, "arguments", "hooks don't get the channel", path)
                        if not (info.get("commandable") or info.get("force")) or not info.get("found"):
                            fail(R2, "refused", "hooks run for a command that's refused", path)
                        if failed or info.get("command") in ("SET", "TOGGLE") and not effects:
                            fail(R2, "failed", "hooks run for a command that failed", path)
            if path.kind != "ret":
                continue
            info = known(path.st)
            ok = success(path.val)
            laps = [x for x in path.get("end") if own(x[1], "hooks")]
            if len(laps) != hooks:
                fail(R2, "all", "a hook doesn't run", path)
            if remote_only and effects:
                fail(R1, "remote", "a remote environment is changed locally", path)
            refused = info.get("commandable") is False and info.get("force") is not True or info.get("found") is False
            if refused and info.get("remote") is not True and info.get("command") not in ("GET", "CUSTOM") and ok is not False:
                fail(R1, "refused", "a command that's refused succeeds", path)
            may = (info.get("commandable") or info.get("force")) and info.get("found")
            if info.get("remote") is False and info.get("command") == "TOGGLE" and may and not effects and info.get("field") is not False:
                fail(R1, "allowed", "a field that may be commanded isn't toggled", path)
            boolean = next((pol for atom, pol in facts_of(path.st) if atom[0] == "attr" and atom[2] == "is_boolean"), None)
            if info.get("command") == "TOGGLE" and effects and info.get("field") is False and not boolean:
                fail(R1, "toggle", "a channel is toggled that may not be boolean", path)
            if info.get("command") == "TOGGLE" and may and not effects and boolean is not False:
                fail(R1, "allowed", "a channel that may be commanded isn't toggled", path)
            if info.get("found") and info.get("commandable") is False and info.get("force") is None and ok is False:
                fail(R1, "allowed", "a command is refused whether or not it's forced", path)
            if info.get("found") and not may and not effects and not refused and info.get("remote") is False and ok is False and info.get("command") != "GET":
                fail(R1, "allowed", "a command is refused that's allowed", path)
            if info.get("found") and ok is False and not failed and not effects and info.get("command") not in ("SET", "TOGGLE", "GET") and not refused:
                fail(R1, "allowed", "a command is refused that's allowed", path)
            if info.get("remote") is False and "CUSTOM" not in info["not"] and info.get("command") is None:
                fail(R1, "custom", "custom commands aren't distinguished", path)
            if not info.get("remote") and info.get("command") in ("SET", "TOGGLE"):
                if ok is None or ok != (bool(effects) and not failed):
                    fail(R1, "result", "the result isn't the one of the command", path)
                if ok and not hooks and not knows_no_hooks(path.st):
                    fail(R2, "all", "hooks don't run for a command that succeeded", path)
            if (info.get("remote") or info.get("command") == "CUSTOM") and not hooks and not knows_no_hooks(path.st):
                fail(R2, "all", "hooks don't run for a remote command", path)
        short = cls.qual.split(".")[-1]
        for rule, keys in ((R1, ("gate", "remote", "once", "toggle", "set", "other", "refused", "result", "allowed", "custom")), (R2, ("arguments", "refused", "failed", "all"))):
            for key in keys:
                if rule is None or only and key not in only:
                    continue
                msg = bad.get((rule, key))
                ctx.ob(rule, f"{short}/{key}", msg is None, msg[0] if msg else "", func.where, msg[1].show() if msg else ())
        want = {"away"} if remote_only else {"away", "local", "set", "invert", "toggle"}
        ctx.ob(R1, f"{short}/commands", want <= seen, f"{sorted(want - seen)} never happens", func.where)


def knows_no_hooks(st) -> bool:
    return any(own(atom, "hooks") and not pol for atom, pol in facts_of(st))


def callers(ctx, rule) -> None:
    p = ctx.p
    # Methods of the handler that change channels, other than the handler.
    inner = set()
    cls = p.cls(PROC)
    for other in concrete(p, PROC):
        for func in other.methods.values():
            names = {n.func.attr for n in ast.walk(func.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)}
            if names & {"set", "invert", "toggle", "apply"} and func.name != "handle_command":
                inner.add(func.name)
    ctx.floor(rule, "helpers", len(inner), 1)
    handlers = set()
    for func in p.all_functions():
        for node in ast.walk(func.node):
            if not (isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load)):
                continue
            where = f"{func.module.rel}:{node.lineno}"
            if node.attr in inner:
                ok = func.cls is not None and p.is_subclass(func.cls, PROC) and at_home(p, func, "handle_command", *inner)
                ctx.ob(rule, f"{func.qual}/{node.attr}", ok, f"'{node.attr}' is used without the gate", where)
            if node.attr == "handle_command" and func.cls is not None and p.is_subclass(func.cls, PROC):
                handlers.add(func.name)
    ctx.ob(rule, "handler", "command" in handlers, "commands aren't handled", cls.where)

    # Commands are handled with what was parsed.
    def label2(e):
        if e.kind == "call" and e.ev.attr == "handle_command":
            return ("handle", tuple(T.strip(x) for x in e.ev.args))
        return None

    def command(path):
        calls = path.get("handle")
        error = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and called(atom[1], "parse")), None)
        if error is None:
            return "it isn't known whether the command could be parsed"
        if error:
            if calls:
                return "a command is handled that couldn't be parsed"
            return None if success(path.val) is not True else "a command that couldn't be parsed succeeds"
        if len(calls) != 1 or not called(calls[0][1][0], "parse") or not is_param(calls[0][1][0][4][0], "value"):
            return "the command isn't handled once"
        return None if called(T.strip(path.val), "handle_command") else "the result isn't the one of the command"

    each_return(ctx, rule, "command", f"{PROC}.command", PROC, command, label=label2, opaque=("parse", "handle_command", "format_help"))


def parser(ctx, rule) -> None:
    func = ctx.anchor_func(rule, f"{PARSER}.initialize")
    if func is None:
        return

    def label2(e):
        if e.kind == "call" and e.ev.attr == "add_argument":
            return ("arg", tuple(T.strip(x) for x in e.ev.args), tuple(sorted((k, T.strip(v)) for k, v in e.ev.kwargs.items())))
        if e.kind == "call" and e.ev.attr == "set_defaults":
            return ("default", tuple(sorted(e.ev.kwargs)))
        return None

    tr = ctx.trace(func, label2, ctx.p.cls(PARSER))
    bad = None
    for path in tr.ret:
        args = {}
        for item in path.get("arg"):
            names = [x[2] for x in item[1] if x[0] == "const"]
            long = [x for x in names if x.startswith("--")]
            args[(long or names or ["?"])[0]] = (names, dict(item[2]))
        for name in ("--force", "--remote"):
            names, kw = args.get(name, ([], {}))
            if kw.get("action") != ("const", "str", "store_true") or "default" in kw and kw["default"] != ("const", "bool", False) or "dest" in kw:
                bad = bad or (f"'{name}' isn't off unless it's given", path)
        if args.get("command", ([], {}))[1].get("type") != ("class", COMMAND):
            bad = bad or ("commands aren't checked", path)
        positional = [x for x in (item[1][0][2] for item in path.get("arg") if item[1] and item[1][0][0] == "const") if not x.startswith("-")]
        if positional != ["command", "channel", "extra"]:
            bad = bad or ("the command line has another form", path)
        if args.get("extra", ([], {}))[1].get("nargs") != ("const", "str", "*"):
            bad = bad or ("values aren't accepted", path)
        if path.has("default"):
            bad = bad or ("defaults are changed", path)
    ctx.ob(rule, "flags", bad is None and bool(tr.ret), bad[0] if bad else "", func.where, bad[1].show() if bad else ())


# Code that acts for remote parties.
REMOTE_MODULES = ("runtimepy.net.server", "runtimepy.message", "runtimepy.net.stream", "runtimepy.net.websocket", "runtimepy.net.http", "runtimepy.subprocess", "runtimepy.mixins.async_command")


def remote(ctx, rule) -> None:
    p = ctx.p
    funcs = [f for f in p.all_functions() if any(f.module.name == m or f.module.name.startswith(m + ".") for m in REMOTE_MODULES)]
    ctx.floor(rule, "functions", len(funcs), 60)
    from sa.core import Ctx  # noqa: F401

    for func in funcs:
        for node in ast.walk(func.node):
            if not isinstance(node, ast.Call) or not isinstance(node.func, ast.Attribute) or node.func.attr not in ("set", "apply", "toggle", "invert", "do_set", "do_toggle"):
                continue
            types = p.expr_types(node.func.value, func, func.cls)
            names = {t[0] if isinstance(t, tuple) else t for t in types}
            risky = [n for n in names if isinstance(n, str) and n in p.classes and any(p.is_subclass(p.classes[n], b) for b in ("runtimepy.channel.environment.base.BaseChannelEnvironment", "runtimepy.primitives.field.BitFieldBase", "runtimepy.primitives.field.manager.base.BitFieldsManagerBase", "runtimepy.primitives.bool.BooleanPrimitive", PROC))]
            text = ast.unparse(node.func.value)
            if node.func.attr in ("do_set", "do_toggle"):
                continue
            ok = not risky and not text.split(".")[-1] in ("env", "fields", "raw")
            ctx.ob(rule, f"{func.qual}/{node.func.attr}", ok, f"'{text}' is changed without a command", f"{func.module.rel}:{node.lineno}")

    # Requests lead to a command, the response tells its result.
    def label2(e):
        if e.kind == "call" and e.ev.attr == "command":
            return ("command", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value), next((pol for atom, pol in facts_of(e.st) if atom[0] != "isnone" and T.contains(atom, lambda t: t == ("const", "str", "is_request"))), None))
        if e.kind == "call" and e.ev.attr == "update" and e.ev.args:
            return ("merge", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
        return None

    def response(reason: str, needed):
        def check(path):
            got: dict = {}
            for item in path.labels:
                if item[0] == "put" and item[2][0] == "const":
                    got[item[2][2]] = item[3]
                if item[0] == "merge":
                    got.update(pairs(item[2]))
            calls = path.get("command")
            if len(calls) > 1:
                return "a command runs more than once"
            if not calls:
                if needed(path) and ("success" not in got or reason not in got):
                    return "a command that didn't run isn't reported"
                if "success" in got and got["success"] != ("const", "bool", False):
                    return "a command that didn't run succeeds"
                return None
            val = got.get("success")
            if val is None or val[0] != "attr" or val[2] != "success" or not called(val[1], "command"):
                return "the response doesn't tell whether the command succeeded"
            if not T.contains(got.get(reason, ("?",)), lambda t: called(t, "command")):
                return "the response doesn't tell the result"
            return None

        return check

    tr = each_return(ctx, rule, "json", "runtimepy.message.handlers.channel_env_handler.<locals>.handler", None, response("reason", lambda path: any(x[4] for x in path.get("put"))), label=label2, opaque=("command",))
    if tr is not None:
        want = [x for path in tr.ret for x in path.get("command")]
        ok = want and all(T.contains(x[2][0], lambda t: t == ("const", "str", "command")) for x in want)
        for path in tr.ret:
            for item in path.get("command"):
                default = next((pol for atom, pol in facts_of(path.st) if atom[0] == "cmp" and ("const", "str", "default") in atom[2:4]), None)
                env = is_param(item[1], "default") if default else called(item[1], "get") and is_param(item[1][3], "envs") and T.contains(item[1][4][0], lambda t: t == ("const", "str", "environment")) or item[1][0] == "sub" and is_param(item[1][1], "envs")
                ok = ok and default is not None and env
            if not path.has("command") and any(pol is False and atom[0] == "isnone" and (called(atom[1], "get") or is_param(atom[1], "default")) for atom, pol in facts_of(path.st)):
                ok = False
        ctx.ob(rule, "json/command", bool(ok), "another command runs, or one for another environment", tr.func.where)
        bad = None
        for path in tr.ret:
            request = next((pol for atom, pol in facts_of(path.st) if atom[0] != "isnone" and T.contains(atom, lambda t: t == ("const", "str", "is_request"))), None)
            request = request or any(item[4] for item in path.get("put"))
            if path.has("command") and not request:
                bad = bad or path
            if request and not any(item[0] == "put" and item[2] == ("const", "str", "is_request") and item[3] == ("const", "bool", False) for item in path.labels):
                bad = bad or path
        ctx.ob(rule, "json/request", bad is None, "responses are taken for requests", tr.func.where, bad.show() if bad else ())
    server = "runtimepy.net.server.RuntimepyServerConnection"
    tr = each_return(ctx, rule, "http", f"{server}.handle_command", server, response("message", lambda path: True), label=label2, opaque=("command", "encode_json"))
    if tr is not None:
        want = [x for path in tr.ret for x in path.get("command")]
        first = ("const", "int", 0)
        ok = bool(want)
        for path in tr.ret:
            for item in path.get("command"):
                env = T.contains(item[1], lambda t: t[0] == "sub" and is_param(t[1], "args") and t[2] == first)
                rest = T.contains(item[2][0], lambda t: t[0] == "sub" and is_param(t[1], "args") and t[2][0] == "slice" and t[2][1][0] == ("const", "int", 1) and all(x in (None, ("const", "NoneType", None)) for x in t[2][1][1:]))
                there = any(pol and atom[0] == "in" and atom[1][0] == "sub" and is_param(atom[1][1], "args") and atom[1][2] == first for atom, pol in facts_of(path.st))
                ok = ok and env and rest and there
            there = [pol for atom, pol in facts_of(path.st) if atom[0] == "in" and is_param(atom[1][1] if len(atom[1]) > 1 and isinstance(atom[1][1], tuple) else None, "args")]
            if not path.has("command") and any(there):
                ok = False
        ctx.ob(rule, "http/command", ok, "another command runs, or one for another environment", tr.func.where)

        def sent(e):
            return ("send", tuple(T.strip(x) for x in e.ev.args)) if e.kind == "call" and e.ev.name and e.ev.name.endswith("encode_json") else None

        tr = ctx.trace(tr.func, sent, p.cls(server), opaque=opaque_names("command", "encode_json"))
        ctx.ob(rule, "http/response", all(x.count("send") == 1 for x in tr.ret), "there's no response", tr.func.where)
    tab = "runtimepy.net.server.app.env.tab.message.ChannelEnvironmentTabMessaging"
    func = ctx.anchor_func(rule, f"{tab}.handle_message")
    if func is not None:
        tr = ctx.trace(func, label2, p.cls(tab), opaque=opaque_names("command", "handle_init", "handle_shown_state", "governed_log"))
        bad = None
        ran = False
        for path in tr.all:
            kind = {atom: pol for atom, pol in facts_of(path.st) if T.contains(atom, lambda t: t == ("const", "str", "command"))}
            is_command = any(pol and atom[0] == "cmp" for atom, pol in kind.items())
            calls = path.get("command")
            ran = ran or bool(calls)
            if calls and (not is_command or len(calls) > 1 or not own(calls[0][1], "command") or not T.contains(calls[0][2][0], lambda t: t == ("const", "str", "value"))):
                bad = bad or path
            if path.kind == "ret" and is_command and not calls:
                bad = bad or path
        ctx.ob(rule, "tab", ran and bad is None, "a command of a user interface isn't run as it was sent", func.where, bad.show() if bad else ())


def queue(ctx, rule) -> None:
    p = ctx.p
    cls = p.cls(ASYNC)

    def label2(e):
        if e.kind == "call" and e.ev.attr in ("put_nowait", "put") and own(T.strip(e.ev.recv), "outgoing_commands"):
            return ("put", T.strip(e.ev.args[0]))
        return None

    def puts(path):
        items = path.get("put")
        ok = len(items) == 1 and items[0][1][0] == "tuple" and len(items[0][1][1]) == 2 and is_param(items[0][1][1][0], "args") and is_param(items[0][1][1][1], "channel")
        return None if ok else "the command isn't queued"

    each_return(ctx, rule, "put", f"{ASYNC}._handle_command", ASYNC, puts, label=label2)

    # Each is handled once.
    func = ctx.anchor_func(rule, f"{ASYNC}.process_command_queue")
    if func is not None:
        laps = []

        def each(e):
            if e.kind in ("call", "coro"):
                ev = e.ev
                name = ev.attr
                if name in ("get_nowait", "get") and ev.recv is not None and own(T.strip(ev.recv), "outgoing_commands"):
                    return ("take",)
                if e.kind == "coro" and name in ("handle_custom_command", "handle_command"):
                    # What's known about this command (and not a previous one).
                    fresh, stale = set(), set()
                    for atom, pol in e.st.facts:
                        if atom[0] == "cmp" and any(member(T.strip(x), "CUSTOM") for x in atom[2:4]):
                            old = any(t[0] in ("attr", "sub") and len(t) > 3 and t[3] not in (e.st.epoch, ()) for t in T.walk(atom))
                            (stale if old else fresh).add(pol)
                    pols = fresh or stale
                    custom = pols.pop() if len(pols) == 1 else None
                    return ("handle", name, custom, tuple(T.strip(x) for x in ev.args), T.strip(ev.recv) if ev.recv is not None else None)
            if e.kind == "await" and e.term is not None and T.strip(e.term)[0] in ("coro", "call") and ("handle_c" in str(T.strip(e.term)[1]) or "handle_c" in str(T.strip(e.term)[2])):
                return ("await",)
            if e.kind == "iterend":
                return [("end",), ("cut",)]
            return None

        def segment(path):
            if path.has("end"):
                laps.append(path)

        tr = ctx.trace(func, each, cls, cap=3, restart="cut", segment=segment, opaque=opaque_names("handle_custom_command", "handle_command"))
        bad = None
        kinds = set()
        for path in laps:
            takes, handled = path.count("take"), path.get("handle")
            for item in handled:
                kinds.add(item[1])
                if item[2] is None or item[2] != (item[1] == "handle_custom_command"):
                    bad = bad or ("custom commands and others are mixed up", path)
                if item[1] == "handle_custom_command" and not own(item[4], "command"):
                    bad = bad or ("a custom command isn't handled", path)
                text = str(item[3])
                if "get_nowait" not in text and "get" not in text:
                    bad = bad or ("something else is handled", path)
            if takes != len(handled) or takes != 1:
                bad = bad or ("a command isn't handled once", path)
            if path.count("await") != len(handled):
                bad = bad or ("a command isn't waited for", path)
        ctx.ob(rule, "handled", bad is None and kinds == {"handle_custom_command", "handle_command"}, bad[0] if bad else "commands aren't handled", func.where, bad[1].show() if bad else ())
        del tr

    # It's emptied: the loop ends when nothing is left.
    if func is not None:
        ok = True
        for node in ast.walk(func.node):
            if isinstance(node, (ast.Break,)):
                ok = False
        tests = [ast.unparse(n.test) for n in ast.walk(func.node) if isinstance(n, ast.While)]
        ctx.ob(rule, "emptied", ok and all("empty()" in t or "qsize()" in t for t in tests), "commands are left in the queue", func.where)

    # The hook is installed once.
    def label3(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "outgoing_commands":
            return ("queue",)
        if e.kind == "call" and e.ev.attr == "append" and e.ev.recv is not None and T.strip(e.ev.recv)[0] == "attr" and T.strip(e.ev.recv)[2] == "hooks":
            val = T.strip(e.ev.args[0])
            return ("hook", val[0] == "bound" and val[2].endswith("._handle_command") or val[0] == "attr" and val[2] == "_handle_command")
        if e.kind == "call" and e.ev.attr == "register_custom_commands":
            return ("custom", tuple(T.strip(x) for x in e.ev.args))
        return None

    def setup(path):
        if path.has("queue") != path.has("hook") or path.count("hook") > 1 or any(not x[1] for x in path.get("hook")):
            return "the hook isn't installed with the queue"
        fresh = next((not pol for atom, pol in facts_of(path.st) if T.contains(atom, lambda t: t == ("const", "str", "outgoing_commands")) and atom[0] != "isnone"), None)
        if fresh is None or fresh != path.has("queue"):
            return "the queue isn't set up once"
        return None if path.count("custom") == 1 else "custom commands aren't registered"

    each_return(ctx, rule, "setup", f"{ASYNC}._setup_async_commands", ASYNC, setup, label=label3, opaque=("register_custom_commands",))

    # Custom commands are found by their name.
    def label4(e):
        if e.kind == "store" and e.ev.kind == "sub" and own(T.strip(e.ev.base), "custom_commands"):
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value), any(atom[0] == "in" and not pol and own(atom[2], "custom_commands") and atom[1] == T.strip(e.ev.name) for atom, pol in facts_of(e.st)))
        if e.kind in ("call", "coro") and e.ev.attr is None and e.ev.func is None and len(e.ev.args) == 2:
            return ("run", fn_term(e), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "await":
            return ("await", T.strip(e.term))
        return None

    def custom(path):
        there = next((pol for atom, pol in facts_of(path.st) if atom[0] == "in" and arg_attr(atom[1], "channel")), None)
        awaits = path.get("await")
        if there:
            run_ = path.get("run")
            ok = len(awaits) == len(run_) == 1 and own(run_[0][1][1], "custom_commands") and arg_attr(run_[0][1][2], "channel") and is_param(run_[0][2][0], "args") and is_param(run_[0][2][1], "channel")
            return None if ok else "the custom command isn't run"
        if there is None and len(awaits) != 1:
            return "custom commands aren't looked up"
        return "another command is run" if awaits and there is False else None

    def registered(path):
        for item in path.get("put"):
            if item[1] != ("attr", item[2], "__name__", ()):
                return "a custom command is registered by another name"
            if not item[3]:
                return "a custom command may replace another one"
        return None

    each_return(ctx, rule, "custom", f"{PROC}.handle_custom_command", PROC, custom, label=label4)
    tr = each_return(ctx, rule, "registered", f"{PROC}.register_custom_commands", PROC, registered, label=label4)
    if tr is not None:
        ctx.ob(rule, "registered/some", any(x.has("put") for x in tr.ret), "custom commands aren't registered", tr.func.where)


def forward(ctx, rule) -> None:
    """Remote commands are passed on with everything they were given."""
    p = ctx.p
    seen = 0
    for cls in concrete(p, ASYNC):
        func = cls.methods.get("handle_command")
        if func is None:
            continue

        def each(e):
            if e.kind == "coro" and e.ev.attr == "channel_command" or e.kind == "call" and e.ev.attr == "channel_command":
                return ("send", tuple(T.strip(x) for x in e.ev.args), tuple(sorted((k, T.strip(v)) for k, v in e.ev.kwargs.items())), known(e.st).get("force"), known(e.st).get("remote"))
            if e.kind == "await" and e.term is not None and "channel_command" in str(T.strip(e.term)[1:3]):
                return ("await",)
            if e.kind == "call" and e.ev.attr in ("append", "extend", "insert"):
                return ("part", e.ev.attr, tuple(T.strip(x) for x in e.ev.args), known(e.st).get("force"))
            return None

        tr = ctx.trace(func, each, cls, opaque=opaque_names("channel_command"))
        sends = [(x, path) for path in tr.all for x in path.get("send")]
        if not sends:
            continue
        seen += 1
        bad = None
        for item, path in sends:
            text = item[1][0] if item[1] else dict(item[2]).get("command")
            parts = [x for x in path.labels if x[0] == "part"]
            blob = (text, tuple(x[2] for x in parts))
            for name in ("command", "channel", "extra"):
                if not T.contains(blob, lambda t, n=name: isinstance(t, tuple) and len(t) > 2 and t[0] == "attr" and arg_attr(t, n)):
                    bad = bad or (f"the {name} isn't passed on", path)
            forced = "'-f'" in str(blob) or "--force" in str(blob)
            if item[3] is None or forced != item[3]:
                bad = bad or ("whether it's forced isn't passed on", path)
            if not arg_attr(dict(item[2]).get("environment", item[1][1] if len(item[1]) > 1 else None), "env"):
                bad = bad or ("the environment isn't passed on", path)
            if not path.has("await") and path.kind == "ret":
                bad = bad or ("the command isn't sent", path)
            if not item[4]:
                bad = bad or ("local commands are sent", path)
        ctx.ob(rule, cls.qual, bad is None, bad[0] if bad else "", func.where, bad[1].show() if bad else ())
    ctx.floor(rule, "senders", seen, 2)

    # Commands of a peer's environment are always remote, and queued.
    peer = "runtimepy.subprocess.interface.RuntimepyPeerInterface"

    def label2(e):
        if e.kind == "call" and e.ev.attr == "append" and e.ev.recv is not None and T.strip(e.ev.recv)[0] == "attr" and T.strip(e.ev.recv)[2] == "hooks":
            return ("hook", T.strip(e.ev.args[0]))
        if e.kind == "call" and e.ev.name == "runtimepy.channel.environment.command.register_env":
            return ("env", tuple(T.strip(x) for x in e.ev.args))
        return None

    def hooked(path):
        if T.strip(path.val) != ("const", "bool", True):
            return None
        if path.count("hook") != 1:
            return "commands for the peer aren't sent"
        return None if path.count("env") == 2 else "environments aren't registered"

    tr = each_return(ctx, rule, "peer", f"{peer}._set_peer_env", peer, hooked, label=label2, opaque=("load_json", "register_env", "__init__"))
    if tr is not None:
        ctx.ob(rule, "peer/some", any(x.has("hook") for x in tr.ret), "commands for the peer aren't sent", tr.func.where)
        new = any(isinstance(n, ast.Name) and n.id == "RemoteCommandProcessor" for n in ast.walk(tr.func.node))
        ctx.ob(rule, "peer/remote", new, "commands for the peer aren't remote", tr.func.where)
