"""C28: Every command line leads to a result, whatever it contains."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import each_return, opaque_names, own
from sa.props.c11 import called
from sa.props.c13 import ASYNC, PARSER, PROC, arg_attr, gate, impossible, known, success
from sa.props.common import concrete, facts_of, is_param

LEVEL = "other"
EXPLANATION = (
    "Exceptions that setting and getting values can raise are computed from the code they run, including conversions of the standard library; none may leave the command handler. "
    "Results that are returned are compared with what happened on the path."
)

ENV = "runtimepy.channel.environment.base.BaseChannelEnvironment"
CHAN_ENV = "runtimepy.channel.environment.ChannelEnvironment"

# What conversions of text and numbers raise.
RAISES = {
    "int": {"ValueError", "OverflowError"},
    "float": {"ValueError"},
    "round": {"ValueError", "OverflowError"},
    "math.floor": {"ValueError", "OverflowError"},
    "math.ceil": {"ValueError", "OverflowError"},
    "math.trunc": {"ValueError", "OverflowError"},
    "complex": {"ValueError"},
    "bytes.fromhex": {"ValueError"},
    "struct.pack": {"struct.error"},
    "operator.index": {"TypeError"},
}


def run(ctx) -> None:
    R1 = ctx.rule("R1", "No exception leaves the command handler.")
    R2 = ctx.rule("R2", "Results tell what happened.")
    R3 = ctx.rule("R3", "Lines that can't be parsed are reported, and nothing ends the program.")
    R4 = ctx.rule("R4", "A queued command that fails doesn't affect other commands.")
    total(ctx, R1)
    results(ctx, R2)
    parsing(ctx, R3)
    queued(ctx, R4)


def library(ev):
    """What a call of the standard library may raise."""
    name = ev.name or ""
    if name in RAISES:
        args = [T.strip(x) for x in ev.args]
        if name == "int" and args and args[0][0] == "const":
            return False
        if name == "int" and len(args) == 1 and (args[0][0] in ("cmp", "not", "isnone", "bool") or args[0][0] == "attr" and args[0][2] in ("result", "value") and False):
            return False
        return RAISES[name]
    return False


def effect(ctx, rule, name: str, exempt=()) -> set:
    """Exceptions a method can raise."""
    p = ctx.p
    cls = p.cls(CHAN_ENV)
    func = p.lookup(cls, name) if cls is not None else None
    ctx.ob(rule, f"{name}/exists", func is not None, f"there's no {name}")
    if func is None:
        return set()
    tr = ctx.trace(func, lambda e: None, cls, opaque=opaque_names("has_field"), raises=lambda it, ev: library(ev), assert_raises=False, max_states=400)
    out: set = set()
    for path in tr.exc:
        out |= {str(x).split(".")[-1] if str(x) != "struct.error" else str(x) for x in (path.val or ())}
    return out - set(exempt)


def total(ctx, rule) -> None:
    p = ctx.p
    sets = effect(ctx, rule, "set")
    gets = effect(ctx, rule, "value")
    # Setting a value converts it, and can't be known to succeed.
    ctx.ob(rule, "set/conversions", {"ValueError", "KeyError"} <= sets, f"setting a value was understood to raise {sorted(sets)}")
    ctx.ob(rule, "value/conversions", "KeyError" in gets, f"getting a value was understood to raise {sorted(gets)}")

    def raises(it, ev):
        name = ev.attr or (ev.func.name if ev.func is not None else "")
        if ev.func is not None and ev.func.cls is not None and p.is_subclass(p.cls(CHAN_ENV), ev.func.cls.qual):
            if name in ("set", "__setitem__"):
                return sets
            if name in ("value", "__getitem__", "get_bool", "get_int"):
                return gets | ({"KeyError"} if name != "value" else set())
            if name == "apply":
                return sets
        if name in ("field", "get_field") and ev.func is not None and ev.func.name == name and False:
            return {"KeyError"}
        return library(ev)

    def label(e):
        if e.kind == "call" and e.ev.attr == "set" and own(T.strip(e.ev.recv), "env"):
            extra = any(pol and arg_attr(atom, "extra") for atom, pol in facts_of(e.st)) or any(pol is False and atom[0] == "cmp" and atom[1] == "==" and "extra" in str(atom) and ("const", "int", 0) in atom[2:4] for atom, pol in facts_of(e.st)) or any(pol and atom[0] == "cmp" and atom[1] == "<" and "extra" in str(atom) for atom, pol in facts_of(e.st))
            return ("set", extra)
        return None

    for cls in concrete(p, PROC):
        for name in ("handle_command", "command"):
            func = p.lookup(cls, name)
            if func is None:
                continue
            opq = ("set", "value", "exists", "field_or_channel", "invert", "toggle", "apply", "format_help", "parse_args") + (("handle_command", "parse") if name == "command" else ())
            tr = ctx.trace(func, label, cls, opaque=opaque_names(*opq), raises=raises, assert_raises=name != "command")
            bad = next((x for x in tr.exc if not impossible(x)), None)
            short = cls.qual.split(".")[-1]
            ctx.ob(rule, f"{short}/{name}", bad is None and bool(tr.ret), f"{sorted(bad.val)} is raised" if bad else "never returns", func.where, bad.show() if bad else ())
            if name == "handle_command":
                odd = next((x for x in tr.all if any(not i[1] for i in x.get("set"))), None)
                ctx.ob(rule, f"{short}/value", odd is None, "a value is used that may not be given", func.where, odd.show() if odd else ())


def results(ctx, rule) -> None:
    p = ctx.p

    # Successes are those of commands that did something.
    gate(ctx, rule, None, only=("result", "refused", "allowed", "custom"))

    def label(e):
        if e.kind == "call" and e.ev.attr == "value" and own(T.strip(e.ev.recv), "env"):
            return ("value", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "handler":
            return ("failed",)
        if e.kind == "call" and e.ev.attr in ("set", "invert", "toggle"):
            return ("change",)
        return None

    func = p.lookup(p.need_cls(PROC), "handle_command")
    tr = ctx.trace(func, label, p.cls(PROC), opaque=opaque_names("set", "value", "exists", "field_or_channel", "invert", "toggle"))
    bad = None
    seen = set()
    for path in tr.ret:
        if impossible(path):
            continue
        info = known(path.st)
        val = T.strip(path.val)
        ok = success(val)
        there = next((pol for atom, pol in facts_of(path.st) if called(atom, "exists")), None)
        if info.get("command") == "GET" and info.get("remote") is False:
            if path.has("change"):
                bad = bad or ("getting a value changes it", path)
            if path.has("value"):
                reads = path.get("value")
                if not all(arg_attr(x[1][0], "channel") for x in reads if x[1]):
                    bad = bad or ("another value is read", path)
                if path.has("failed"):
                    seen.add("failed")
                    if ok is not False:
                        bad = bad or ("a value that couldn't be read is a success", path)
                else:
                    seen.add("read")
                    given = val[3][1] if val[0] == "new" and len(val[3]) > 1 else dict(val[4]).get("reason") if val[0] == "new" else None
                    if ok is not True or given is None or not T.contains(given, lambda t: called(t, "value")):
                        bad = bad or ("the value isn't the result", path)
            elif there or ok is not False and info.get("found") is not True:
                bad = bad or ("a value isn't read", path)
        elif info.get("command") is not None and path.has("value"):
            bad = bad or ("another command reads the value", path)
        elif info.get("command") is None and "GET" not in info["not"] and not info.get("remote") and info.get("found") is not False:
            bad = bad or ("values can't be read", path)
        if info.get("found") is False and info.get("remote") is False and ok is not False and info.get("command") != "CUSTOM":
            bad = bad or ("commands for channels that don't exist succeed", path)
    ctx.ob(rule, "get", bad is None and seen == {"failed", "read"}, bad[0] if bad else "values are never read", func.where, bad[1].show() if bad else ())

    # A failure tells its reason.
    bad = None
    for path in tr.ret:
        val = T.strip(path.val)
        if val[0] == "new" and success(val) is False:
            reason = val[3][1] if len(val[3]) > 1 else dict(val[4]).get("reason")
            if reason is None or reason[0] == "const" and not reason[2]:
                bad = bad or path
    ctx.ob(rule, "reason", bad is None, "a failure has no reason", func.where, bad.show() if bad else ())

    # Results of lines that can't be parsed.
    def line(path):
        failed = next((pol for atom, pol in facts_of(path.st) if atom[0] == "isnone" and called(atom[1], "parse")), None)
        val = T.strip(path.val)
        if failed is None:
            return "lines aren't checked for whether they can be parsed"
        if not failed:
            return None if called(val, "handle_command") else "the result isn't that of the command"
        if val[0] != "new":
            return "the result isn't a failure"
        first = val[3][0] if val[3] else dict(val[4]).get("success")
        second = val[3][1] if len(val[3]) > 1 else dict(val[4]).get("reason")
        no = first is not None and (first == ("const", "bool", False) or first[0] == "not" and first[1][0] == "isnone")
        why = second is not None and (T.contains(second, lambda t: t == ("const", "str", "error_message")) or second[0] in ("fstr",))
        return None if no and why else "the result isn't a failure with the parser's message"

    tr = each_return(ctx, rule, "line", f"{PROC}.command", PROC, line, opaque=("parse", "handle_command", "format_help"))

    # Results are what they're constructed with.
    res = "runtimepy.channel.environment.command.result.CommandResult"

    def truth(path):
        return None if own(T.strip(path.val), "success") else "a result's truth isn't its success"

    each_return(ctx, rule, "truth", f"{res}.__bool__", res, truth)

    def text(path):
        reason = next((pol for atom, pol in facts_of(path.st) if own(atom, "reason")), None)
        has = T.contains(T.strip(path.val), lambda t: own(t, "reason"))
        good = next((pol for atom, pol in facts_of(path.st) if own(atom, "success")), None)
        want = "success" if good else "failure"
        if good is None or not T.contains(T.strip(path.val), lambda t: t[0] == "const" and isinstance(t[-1], str) and want in t[-1]):
            return "the text doesn't tell whether it's a success"
        return None if reason is None and has or reason == has else "the reason isn't part of the text"

    each_return(ctx, rule, "text", f"{res}.__str__", res, text)


def parsing(ctx, rule) -> None:
    p = ctx.p

    def label(e):
        if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.name) == ("const", "str", "error_message"):
            return ("message", T.strip(e.ev.base), T.strip(e.ev.value))
        if e.kind in ("call", "coro") and e.ev.attr in ("parse_args", "parse_known_args"):
            return ("parse", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and (e.ev.name in ("sys.exit", "exit", "quit", "os._exit") or e.ev.attr in ("exit", "print_usage") and e.ev.recv is not None and T.strip(e.ev.recv)[0] != "self"):
            return ("exit",)
        return None

    # Both of the parser's ways out are overridden.
    cls = ctx.anchor_cls(rule, PARSER)
    if cls is None:
        return
    for name in ("error", "exit"):
        func = p.lookup(cls, name)
        ctx.ob(rule, f"{name}/overridden", func is not None, f"'{name}' ends the program", cls.where)
        if func is None:
            continue
        tr = ctx.trace(func, label, cls)
        odd = [x for x in tr.exc if "*" not in (x.val or ())] + [x for x in tr.all if x.has("exit")]
        ctx.ob(rule, f"{name}/ends", not odd and bool(tr.ret), "the program may end", func.where, odd[0].show() if odd else ())
        bad = None
        for path in tr.ret:
            given = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "message")), True if name == "error" else None)
            kept = [x for x in path.get("message") if T.contains(x[2], lambda t: is_param(t, "message"))]
            if given is None or bool(kept) != given:
                bad = bad or path
        ctx.ob(rule, f"{name}/message", bad is None, "the message is lost", func.where, bad.show() if bad else ())

    # Messages are those of the line that's parsed.
    def parse(path):
        order = [x[0] for x in path.labels]
        if order.count("parse") != 1:
            return "the line isn't parsed"
        i = order.index("parse")
        reset = [x for x in path.labels[:i] if x[0] == "message"]
        if not reset or reset[-1][2] != ("const", "NoneType", None) and reset[-1][2] != ("const", "str", ""):
            return "the message of an earlier line is kept"
        if "message" in order[i:]:
            return "the message is lost"
        args = path.labels[i][1]
        if not args or not T.contains(args[0], lambda t: is_param(t, "value")):
            return "something else is parsed"
        failed = None
        for atom, pol in facts_of(path.st):
            if T.contains(atom, lambda t: t == ("const", "str", "error_message")):
                failed = (not pol) if atom[0] == "isnone" else pol if failed is None else failed
        val = T.strip(path.val)
        none = val == ("const", "NoneType", None)
        if failed is None or failed != none or not none and not called(val, "parse_args"):
            return "what can't be parsed isn't refused"
        return None

    each_return(ctx, rule, "parse", f"{PROC}.parse", PROC, parse, label=label)

    # The parser reports to where its user looks.
    def shared(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in ("data", "parser_data", "parser"):
            return ("set", e.ev.name, T.strip(e.ev.base), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "initialize" and e.ev.func is not None and e.ev.func.cls is not None and e.ev.func.cls.qual == PARSER:
            return ("init",)
        return None

    def same(path):
        got = {x[1]: x[3] for x in path.get("set")}
        if "data" not in got or got["data"] != got.get("parser_data") and not own(got["data"], "parser_data"):
            return "the parser's messages are lost"
        return None if path.count("init") == 1 else "the parser isn't initialized"

    each_return(ctx, rule, "shared", f"{PROC}.__init__", PROC, same, label=shared, opaque=("initialize",))

    # Only conversions whose failure the parser reports.
    func = p.lookup(cls, "initialize")
    kinds = set()
    for node in ast.walk(func.node) if func is not None else ():
        if isinstance(node, ast.keyword) and node.arg == "type":
            kinds.add(func.module.resolve_dotted(ast.unparse(node.value)))
    ok = {"str", "int", "float", "runtimepy.channel.environment.command.parser.ChannelCommand"}
    ctx.ob(rule, "types", bool(kinds) and kinds <= ok, f"{sorted(kinds - ok)} may raise", cls.where)


def queued(ctx, rule) -> None:
    """Commands in a queue don't affect each other."""
    func = ctx.anchor_func(rule, f"{ASYNC}.process_command_queue")
    if func is None:
        return

    def label(e):
        if e.kind == "call" and e.ev.attr in ("get_nowait", "get") and e.ev.recv is not None and own(T.strip(e.ev.recv), "outgoing_commands"):
            return ("take",)
        if e.kind == "call" and e.ev.attr == "task_done":
            return ("done",)
        if e.kind == "iterend":
            return [("end",), ("cut",)]
        return None

    laps = []

    def segment(path):
        if path.has("end"):
            laps.append(path)

    def raises(it, ev):
        return {"AssertionError"} if ev.func is not None and ev.func.name in ("handle_command", "handle_custom_command") else False

    tr = ctx.trace(func, label, ctx.p.cls(ASYNC), cap=3, restart="cut", segment=segment, opaque=opaque_names("handle_custom_command", "handle_command"), raises=raises)
    ours = [x for x in tr.exc if set(x.val or ()) - {"asyncio.CancelledError", "CancelledError"}]
    del ours
    bad = next((x for x in tr.exc if any("AssertionError" in str(v) or v == "*" for v in (x.val or ()))), None)
    ctx.ob(rule, "contained", bad is None, "a command without a response ends the processing of all commands", func.where, bad.show() if bad else ())
    odd = next((x for x in laps if x.count("done") != x.count("take")), None)
    ctx.ob(rule, "done", odd is None and bool(laps), "a command isn't marked as processed", func.where, odd.show() if odd else ())
