"""C19: Metrics count exactly what was sent and received."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.c06 import each_return, own
from sa.props.common import concrete, facts_of, is_param, none_param

LEVEL = "other"
EXPLANATION = (
    "On all paths of every method that reaches a transport, sends and receives are paired with increments of the right direction by the number of bytes that were transferred. "
    "Fields of metrics objects are enumerated and compared with what increments, polls, updates and resets them."
)

CHANNEL = "runtimepy.metrics.channel.ChannelMetrics"
CONN = "runtimepy.metrics.connection.ConnectionMetrics"
TASK = "runtimepy.metrics.task.PeriodicTaskMetrics"
CONNECTION = "runtimepy.net.connection.Connection"
INTERFACE = "runtimepy.subprocess.interface.RuntimepyPeerInterface"
EVENT = "runtimepy.channel.event.PrimitiveEvent"
MANAGER = "runtimepy.net.manager.ConnectionManager"
ASYNC_TASK = "runtimepy.task.asynchronous.AsyncTask"

SENDS = {"write": ("_transport", "stdin", "json_output", "transport"), "writelines": ("_transport", "stdin"), "sendto": ("_transport", "transport"), "send": ("protocol", "_protocol")}
READS = {"recv": ("protocol", "_protocol"), "get": ("queue",), "get_nowait": ("queue",), "read": ("buffer",)}


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Everything that's sent is counted once, with its number of bytes.")
    R2 = ctx.rule("R2", "Everything that's received is counted once, with its number of bytes.")
    R3 = ctx.rule("R3", "An increment counts a message and its bytes.")
    R4 = ctx.rule("R4", "All fields are polled, updated and reset.")
    R5 = ctx.rule("R5", "Each iteration of a task is measured once.")
    R6 = ctx.rule("R6", "Nothing else is counted.")
    sites: set = set()
    transfers(ctx, R1, R2, sites)
    peers(ctx, R2, sites)
    events(ctx, R1, sites)
    strays(ctx, R6, sites)
    increments(ctx, R3)
    fields(ctx, R4)
    tasks(ctx, R5)


def outside(*names):
    """Calls that aren't followed (including all primitives)."""
    return lambda it, ev: ev.func is not None and (ev.func.name in names or ev.func.module.name.startswith("runtimepy.primitives"))


def chain(term) -> str | None:
    """The counter that's used (e.g. 'metrics.tx')."""
    if term is None:
        return None
    term = T.strip(term)
    if term[0] == "attr" and term[2] in ("tx", "rx"):
        return term[2] if own(term[1], "metrics") else f"{term[2]} of something else"
    if term[0] == "attr" and (term[2].endswith("_metrics")):
        return term[2] if own(term, term[2]) else f"{term[2]} of something else"
    if is_param(term, "channel"):
        return "channel"
    return None


def is_inc(ev) -> bool:
    if ev.attr != "increment" or ev.recv is None:
        return False
    if ev.func is not None and ev.func.cls is not None:
        return ev.func.cls.qual == CHANNEL
    return chain(ev.recv) is not None


def last(term) -> str | None:
    term = T.strip(term) if term is not None else None
    if term is None:
        return None
    return term[2] if term[0] == "attr" else term[2] if term[0] == "param" else None


def at(e) -> tuple:
    func = e.frame.func
    return (func.where.split(":")[0] if isinstance(func.where, str) else str(func.where), getattr(e.ev.node, "lineno", 0))


def given(ev):
    for item in tuple(ev.args) + tuple(ev.kwargs.get(k) for k in ("count",)):
        if item is not None:
            return T.strip(item)
    return None


def label(sites):
    def inner(e):
        if e.kind == "handler":
            return ("handler",)
        if e.kind != "call" or e.ev.recv is None:
            return None
        ev = e.ev
        if is_inc(ev):
            sites.add(at(e))
            kw = {k: T.strip(v) for k, v in ev.kwargs.items()}
            return ("inc", chain(ev.recv), T.strip(ev.args[0]) if ev.args else kw.get("count"), frozenset((pol, atom) for atom, pol in facts_of(e.st)))
        if ev.func is None and ev.attr in SENDS and last(ev.recv) in SENDS[ev.attr]:
            return ("send", T.strip(ev.args[0]) if ev.args else None, ev.attr)
        if ev.func is None and ev.attr in READS and last(ev.recv) in READS[ev.attr]:
            return ("read", ev.attr)
        return None

    return inner


def quiet(it, ev):
    """Only transfers fail."""
    return None if ev.func is None and ev.attr in SENDS and last(ev.recv) in SENDS[ev.attr] else False


def size_of(term):
    """len(X) -> X"""
    if term is not None and term[0] == "call" and term[2] == "len" and len(term[4]) == 1:
        return term[4][0]
    return None


def encoded(term):
    """X.encode() -> X"""
    if term is not None and term[0] == "call" and term[2].split(".")[-1] == "encode":
        return term[3]
    return None


def is_text(st_facts, term):
    for pol, atom in st_facts:
        if atom[0] == "isinstance" and atom[1] == term:
            return pol if "str" in str(atom[2]) else (not pol)
    return None


def counted(p, item, sent):
    """Whether an increment is by the size of what's sent."""
    size, data = size_of(item[2]), sent[1]
    if size is None or data is None:
        return False
    # Only websockets take text.
    text = is_text(item[3], data) if sent[2] == "send" else False
    if text is None and data[0] == "param":
        func, name = p.func(data[1]), data[2]
        for arg in func.node.args.args if func is not None else ():
            if arg.arg == name and arg.annotation is not None:
                note = ast.unparse(arg.annotation)
                text = True if note == "str" else None if "str" in note or "Any" in note else False
    if text:
        return encoded(size) == data
    if text is False:
        return size == data
    return False


def direct(cls) -> bool:
    """Whether a class uses a transport itself."""
    for func in cls.methods.values():
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
                recv = node.func.value
                name = recv.attr if isinstance(recv, ast.Attribute) else recv.id if isinstance(recv, ast.Name) else None
                if name in SENDS.get(node.func.attr, ()) or name in READS.get(node.func.attr, ()):
                    return True
    return False


def roots(p, cls):
    """Methods that are called by others."""
    for func in cls.methods.values():
        public = not func.name.startswith("_")
        over = any(func.name in base.methods for base in p.mro_classes(cls)[1:])
        if public or over:
            yield func


def transfers(ctx, R1, R2, sites) -> None:
    p = ctx.p
    want = {"send": ("tx",), "read": ("rx",)}
    found = {"send": set(), "read": set()}
    for cls in p.classes.values():
        peer = p.is_subclass(cls, INTERFACE)
        if not (p.is_subclass(cls, CONNECTION) or peer) or not direct(cls):
            continue
        for func in roots(p, cls):
            names = call_attrs(p, func, cls)
            if not names & (set(SENDS) | set(READS)):
                continue
            if peer and func.name != "write":
                continue
            laps: list = []
            plain = label(sites)

            def each(e, plain=plain):
                return [("end",), ("cut",)] if e.kind == "iterend" else plain(e)

            tr = ctx.trace(func, each, cls, restart="cut", segment=laps.append, opaque=outside("increment", "disable", "process_datagram", "process_single", "process_text", "process_binary", "wait_json", "process_json"), raises=quiet, cap=3)
            short = f"{cls.name}.{func.name}"
            for kind, rule in (("send", R1), ("read", R2)):
                paths = [x for x in laps if x.has("end")] + list(tr.ret)
                if not any(x.has(kind) for x in paths + list(tr.all)):
                    continue
                found[kind].add(short)
                bad = None
                for path in paths:
                    msg = judge(p, path, kind, want[kind] if not peer else ("stdin_metrics", "stdout_metrics"))
                    if msg and bad is None:
                        bad = (msg, path)
                ctx.ob(rule, f"{short}/{kind}", bad is None and bool(paths), bad[0] if bad else "never returns", func.where, bad[1].show() if bad else ())
                if peer:
                    # From the peer's point of view.
                    mine = {x[1] for path in paths for x in path.get("inc")}
                    parent = any(last_recv(p, func, attr) for attr in ("stdin",))
                    side = "stdin_metrics" if parent else "stdout_metrics"
                    ctx.ob(rule, f"{short}/side", mine == {side}, f"'{side}' isn't used", func.where)
    ctx.floor(R1, "methods that send", len(found["send"]), 5)
    ctx.floor(R2, "methods that receive", len(found["read"]), 3)


def last_recv(p, func, attr: str) -> bool:
    return any(isinstance(n, ast.Attribute) and n.attr == attr for n in ast.walk(func.node))


def call_attrs(p, func, cls, depth: int = 3, seen=None) -> set:
    """Attributes that are called by a method and those of its object that it calls."""
    seen = seen if seen is not None else set()
    if func in seen or depth == 0:
        return set()
    seen.add(func)
    out = set()
    for node in ast.walk(func.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute):
            out.add(node.func.attr)
            if isinstance(node.func.value, ast.Name) and node.func.value.id == "self":
                inner = p.lookup(cls, node.func.attr)
                if inner is not None:
                    out |= call_attrs(p, inner, cls, depth - 1, seen)
    return out


def judge(p, path, kind: str, counters):
    """Each transfer is followed by an increment, unless it failed."""
    items = [x for x in path.labels if x[0] in (kind, "inc", "handler")]
    pending = None
    for i, item in enumerate(items):
        if item[0] == kind:
            if pending is not None and not (kind == "read" and none_read(path)):
                return "something isn't counted"
            failed = i + 1 < len(items) and items[i + 1][0] == "handler"
            pending = None if failed else item
        elif item[0] == "inc" and (item[1] in counters or item[1] not in ("tx", "rx")):
            if pending is None:
                return "something is counted that wasn't transferred"
            if item[1] not in counters:
                return f"'{item[1]}' is counted"
            if kind == "send" and not counted(p, item, pending):
                return "another number of bytes is counted"
            if kind == "read" and not counted_read(item):
                return "another number of bytes is counted"
            pending = None
        elif item[0] == "inc" and not any(x[0] in ("send", "read") and x[0] != kind for x in path.labels):
            return "the other direction is counted"
    if pending is not None and not (kind == "read" and none_read(path)):
        return "something isn't counted"
    return None


def reads_in(term) -> bool:
    return T.contains(term, lambda t: t[0] == "call" and isinstance(t[2], str) and t[2].split(".")[-1] in READS)


def none_read(path) -> bool:
    """Nothing was received."""
    val = T.strip(path.val) if path.kind == "ret" and isinstance(path.val, tuple) else None
    if val == ("const", "NoneType", None):
        return True
    return any(pol and atom[0] == "isnone" and (reads_in(atom[1]) or atom[1] == val) or not pol and reads_in(atom) and atom[0] not in ("isnone", "isinstance", "cmp") for atom, pol in facts_of(path.st))


def counted_read(item) -> bool:
    size = size_of(item[2])
    if size is None or not reads_in(size):
        return False
    text = encoded(size)
    data = text if text is not None else size
    known = is_text(item[3], data)
    if text is not None:
        return known is True
    # Messages of protocols with text have to be checked.
    return known is False or not T.contains(data, lambda t: t[0] == "call" and isinstance(t[2], str) and t[2].split(".")[-1] == "recv")


def peers(ctx, rule, sites) -> None:
    """Subprocess interfaces."""
    p = ctx.p
    for name in ("stdout", "stderr"):

        def check(path, name=name):
            data = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "data")), None)
            incs = path.get("inc")
            if any(x[1] != f"{name}_metrics" for x in incs):
                return "another stream is counted"
            if any(size_of(x[2]) is None or not is_param(size_of(x[2]), "data") for x in incs):
                return "another number of bytes is counted"
            if len(incs) > 1 or not incs and data is not False:
                return "received data isn't counted once"
            if incs and data is None:
                return "empty data is counted"
            return None

        func = p.lookup(p.need_cls(INTERFACE), f"handle_{name}")
        each_return(ctx, rule, f"peer/{name}", f"{INTERFACE}.handle_{name}", INTERFACE, check, label=label(sites), opaque=("increment", "process_json", "messages", "ingest", "parse_event_stream", "governed_log"))
        del func

    # Input of a program is counted with each message.
    prog = "runtimepy.subprocess.program.PeerProgram"
    func = ctx.anchor_func(rule, f"{prog}.io_task")
    if func is None:
        return
    laps = []

    def each(e):
        if e.kind == "iterend" and "buffer" not in str(e.term)[:0]:
            names = tuple(sorted((k[1], T.strip(v)) for k, v in e.st.env.items() if k[0] == e.frame.uid and isinstance(v, tuple)))
            return [("end", T.strip(e.term) if e.term is not None else None, names), ("cut",)] if e.term is None or "messages" not in str(e.term) else None
        if e.kind == "call" and e.ev.attr == "read":
            names = tuple(sorted((k[1], T.strip(v)) for k, v in e.st.env.items() if k[0] == e.frame.uid and isinstance(v, tuple)))
            return ("read", names)
        if e.kind in ("call", "coro") and e.ev.attr == "process_json":
            return ("message",)
        return label(sites)(e)

    def segment(path):
        laps.append(path)

    ctx.trace(func, each, p.cls(prog), opaque=outside("increment", "process_json", "messages"), restart="cut", segment=segment, cap=3, raises=quiet)
    bad = None
    seen = set()
    for path in laps:
        if not (path.has("end") and path.has("read")):
            continue
        start, end = dict(path.get("read")[0][1]), dict(path.get("end")[0][2])
        got = next((False for atom, pol in facts_of(path.st) if pol and atom[0] == "isnone" and reads_in(atom[1])), True)
        incs = path.get("inc")
        grown = [k for k, v in end.items() if k in start and plus(v, start[k])]
        seen.add("inc" if incs else "more" if got else "none")
        if not got:
            if incs or any(end.get(k) != v for k, v in start.items() if T.contains(v, lambda t: t[0] == "const" and t[1] == "int")):
                bad = bad or ("input is counted that isn't there", path)
        elif incs:
            if len(incs) > 1 or incs[0][1] != "stdin_metrics":
                bad = bad or ("input isn't counted once", path)
            used = [k for k, v in start.items() if plus(incs[0][2], v)]
            if not used or not any(end.get(k) == ("const", "int", 0) for k in used):
                bad = bad or ("the number of bytes isn't counted", path)
        elif not grown or path.has("message"):
            bad = bad or ("a byte or message isn't counted", path)
    ctx.ob(rule, "peer/stdin", bad is None and {"inc", "more"} <= seen, bad[0] if bad else "input isn't counted", func.where, bad[1].show() if bad else ())


def plus(term, base) -> bool:
    """base + 1 (or the size of what's read)."""
    if term is None or term[0] == "const" and base[0] == "const":
        return term is not None and isinstance(term[2], int) and isinstance(base[2], int) and term[1] == base[1] == "int" and term[2] == base[2] + 1
    if term[0] == "bin" and term[1] == "+" and base in term[2:4]:
        other = term[3] if term[2] == base else term[2]
        return other == ("const", "int", 1) or size_of(other) is not None and reads_in(size_of(other))
    return False


def summands(term) -> list:
    return summands(term[2]) + summands(term[3]) if term[0] == "bin" and term[1] == "+" else [term]


def events(ctx, rule, sites) -> None:
    """Change events."""

    def lab(e):
        if e.kind == "call" and e.ev.attr == "to_stream":
            return ("write", T.strip(e.ev.recv), T.strip(e.ev.args[0]) if e.ev.args else None)
        return label(sites)(e)

    def check(path):
        writes, incs = path.get("write"), path.get("inc")
        none = none_param(path.st, "channel")
        if any(not is_param(x[2], "stream") for x in writes):
            return "something else is written"
        if not writes and incs and not any(pol and T.strip(atom) == incs[0][2] for atom, pol in facts_of(path.st)):
            return "an event is counted that wasn't written"
        if writes and not incs and none is not True:
            if not any(not pol and T.contains(atom, lambda t: t[0] == "call" and str(t[2]).endswith("to_stream")) for atom, pol in facts_of(path.st)):
                return "an event isn't counted"
        if incs:
            total = incs[0][2]
            parts = [t for t in summands(total) if t != ("const", "int", 0)]
            if len(incs) > 1 or len(parts) != len(writes) or not all(t[0] == "call" and str(t[2]).endswith("to_stream") for t in parts):
                return "another number of bytes is counted"
            if T.strip(path.val) != total:
                return "another number of bytes is reported"
            if {t[3] for t in parts} != {x[1] for x in writes}:
                return "another number of bytes is counted"
        return None

    func = ctx.p.lookup(ctx.p.need_cls(EVENT), "_poll") or ctx.p.lookup(ctx.p.need_cls(EVENT), "poll")
    if func is not None:
        each_return(ctx, rule, "event", func.qual, EVENT, check, label=lab, opaque=("increment", "to_stream"))


def strays(ctx, rule, sites) -> None:
    """All increments of counters were judged."""
    p = ctx.p
    count = 0
    for func in p.functions.values():
        for node in ast.walk(func.node):
            if not (isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "increment"):
                continue
            recv = node.func.value
            name = recv.attr if isinstance(recv, ast.Attribute) else recv.id if isinstance(recv, ast.Name) else ""
            if not (name in ("tx", "rx", "channel") or name.endswith("metrics")):
                continue
            count += 1
            here = ((func.where.split(":")[0]), node.lineno)
            ctx.ob(rule, f"{func.qual}", here in sites, "a counter is changed where nothing is transferred", func.where)
    ctx.floor(rule, "increments", count, 8)
    # Counters aren't written otherwise.
    names = ("messages", "bytes", "kbps", "message_rate")
    for func in p.functions.values():
        for node in ast.walk(func.node):
            targets = node.targets if isinstance(node, ast.Assign) else [node.target] if isinstance(node, ast.AugAssign) else []
            for t in targets:
                if isinstance(t, ast.Attribute) and t.attr in ("value", "scaled") and isinstance(t.value, ast.Attribute) and t.value.attr in names:
                    ctx.ob(rule, f"{func.qual}/{t.value.attr}", func.cls is not None and p.is_subclass(func.cls, CHANNEL), "a counter is changed from elsewhere", func.where)


def any_own(term, names) -> bool:
    return any(own(term, x) for x in names)


def mine(term, name: str) -> bool:
    return term is not None and own(T.strip(term), name)


def values(e):
    """Values that are stored in primitives."""
    if e.frame.func.module.name.startswith("runtimepy.primitives"):
        return None
    if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value":
        return ("value", T.strip(e.ev.base), T.strip(e.ev.value))
    if e.kind == "call" and e.ev.recv is not None and e.ev.func is None:
        return ("call", e.ev.attr, T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args), tuple((k, T.strip(v)) for k, v in sorted(e.ev.kwargs.items())))
    return None


def of(base, name: str) -> bool:
    return own(base, name)


def tracker_call(term, name: str, poll=False):
    """The arguments of a call of a tracker, if that's what it is."""
    if term[0] != "call":
        return None
    target = term[3]
    if poll:
        if not term[2].endswith("poll") or target is None or not own(target, name):
            return None
    elif not (target is not None and own(target, name) or name in str(term[2])):
        return None
    return dict(term[5]) | {i: x for i, x in enumerate(term[4])}


def times(term, factor: int):
    """X * factor -> X"""
    if term[0] == "bin" and term[1] == "*":
        for a, b in ((term[2], term[3]), (term[3], term[2])):
            if a[0] == "const" and a[2] == factor:
                return b
    return None


def added(term, name: str):
    """self.<name>.value + X -> X"""
    if term[0] == "bin" and term[1] == "+":
        for a, b in ((term[2], term[3]), (term[3], term[2])):
            if a[0] == "attr" and a[2] == "value" and own(a[1], name):
                return b
    return None


def kilo(term) -> bool:
    """count / 1000"""
    if term is None or term[0] != "bin" or term[1] != "/":
        return False
    num, den = term[2], term[3]
    if num[0] == "call" and num[2] == "float" and len(num[4]) == 1:
        num = num[4][0]
    return is_param(num, "count") and den[0] == "const" and den[2] == 1000


def last_writes(path, names) -> tuple:
    out, many = {}, None
    for item in path.get("value"):
        name = item[1][2] if item[1][0] == "attr" and any_own(item[1], names) else None
        if name is None:
            many = many or "something else is changed"
        elif name in out:
            many = many or f"'{name}' is changed twice"
        else:
            out[name] = item[2]
    return out, many


NAMES = ("messages", "message_rate", "bytes", "kbps")


def increments(ctx, rule) -> None:
    def check(path):
        got, odd = last_writes(path, NAMES)
        if odd:
            return odd
        if set(got) != set(NAMES):
            return f"{sorted(set(NAMES) - set(got))} isn't updated"
        if added(got["messages"], "messages") != ("const", "int", 1):
            return "a message isn't counted"
        if not (added(got["bytes"], "bytes") is not None and is_param(added(got["bytes"], "bytes"), "count")):
            return "bytes aren't counted"
        rate = tracker_call(got["message_rate"], "_message_rate_tracker")
        if rate is None or not timed(rate) or "value" in rate or 1 in rate:
            return "the message rate isn't the tracked one"
        inner = times(got["kbps"], 8)
        kbps = tracker_call(inner, "_kbps_tracker") if inner is not None else None
        if kbps is None or not timed(kbps) or not kilo(kbps.get("value", kbps.get(1))):
            return "the rate isn't in kilobits"
        return None

    each_return(ctx, rule, "increment", f"{CHANNEL}.increment", CHANNEL, check, label=values)

    def poll(path):
        got, odd = last_writes(path, NAMES)
        if odd:
            return odd
        rate = tracker_call(got.get("message_rate", ("?",)), "_message_rate_tracker", True)
        if rate is None or not timed(rate):
            return "the message rate isn't polled"
        inner = times(got.get("kbps", ("?",)), 8)
        kbps = tracker_call(inner, "_kbps_tracker", True) if inner is not None else None
        if kbps is None or not timed(kbps):
            return "the rate isn't polled"
        return None if set(got) == {"message_rate", "kbps"} else "something else is changed"

    each_return(ctx, rule, "poll", f"{CHANNEL}.poll", CHANNEL, poll, label=values)


def timed(args: dict) -> bool:
    when = args.get("time_ns", args.get(0))
    return when is not None and is_param(when, "time_ns")


def created(ctx, rule, qual: str) -> dict:
    """Attributes of an object, with what creates them."""
    out = {}

    def lab(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name is not None:
            val = T.strip(e.ev.value)
            out[e.ev.name] = val[2] if val[0] in ("new", "call") else "?"
        return None

    func = ctx.p.lookup(ctx.p.need_cls(qual), "__init__")
    if func is not None:
        ctx.trace(func, lab, ctx.p.cls(qual), opaque=lambda it, ev: ev.func is not None)
    return out


def fields(ctx, rule) -> None:
    p = ctx.p
    have = created(ctx, rule, CHANNEL)
    prims = {k for k, v in have.items() if "primitives" in v}
    trackers = {k for k, v in have.items() if "Tracker" in v}
    ctx.ob(rule, "fields", prims == set(NAMES) and len(trackers) == 2, f"unknown metrics: {sorted(prims ^ set(NAMES))}", p.need_cls(CHANNEL).where)

    def update(path):
        got, odd = last_writes(path, NAMES)
        if odd:
            return odd
        for name in prims:
            val = got.get(name)
            if val is None or not (val[0] == "attr" and val[2] == "value" and val[1][0] == "attr" and val[1][2] == name and is_param(val[1][1], "other")):
                return f"'{name}' isn't updated"
        return None

    each_return(ctx, rule, "update", f"{CHANNEL}.update", CHANNEL, update, label=values)

    def reset(path):
        got, odd = last_writes(path, NAMES)
        if odd:
            return odd
        for name in prims:
            val = got.get(name)
            if val is None or val[0] != "const" or val[2] != 0:
                return f"'{name}' isn't reset"
        done = {x[2][2] for x in path.get("call") if x[1] == "reset" and any_own(x[2], trackers)}
        return None if done == trackers else f"{sorted(trackers - done)} isn't reset"

    each_return(ctx, rule, "reset", f"{CHANNEL}.reset", CHANNEL, reset, label=values)

    # Both directions.
    both = created(ctx, rule, CONN)
    ways = {k for k, v in both.items() if v == CHANNEL}
    ctx.ob(rule, "directions", ways == {"tx", "rx"}, "directions don't have their own counters", p.need_cls(CONN).where)

    def lab(e):
        if e.kind == "call" and e.ev.recv is not None and e.ev.func is not None and e.ev.func.cls is not None and e.ev.func.cls.qual == CHANNEL:
            return ("each", e.ev.attr, T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args) + tuple(T.strip(v) for v in e.ev.kwargs.values()))
        return None

    for name in ("update", "reset", "poll"):

        def check(path, name=name):
            got = {}
            for item in path.get("each"):
                if item[1] != name or not any_own(item[2], ways) or item[2][2] in got:
                    return "a direction isn't handled once"
                got[item[2][2]] = item[3]
            if set(got) != ways:
                return f"{sorted(ways - set(got))} isn't handled"
            for way, args in got.items():
                if name == "update" and not (len(args) == 1 and args[0][0] == "attr" and args[0][2] == way and is_param(args[0][1], "other")):
                    return "directions are mixed up"
                if name == "poll" and not (len(args) == 1 and is_param(args[0], "time_ns")):
                    return "the time isn't passed on"
            return None

        each_return(ctx, rule, f"both/{name}", f"{CONN}.{name}", CONN, check, label=lab, opaque=(name,))

    # All connections.
    for name, inner in (("poll_metrics", "poll"), ("reset_metrics", "reset")):
        bad = []
        count = [0]

        def seg(path, inner=inner):
            if path.has("end"):
                count[0] += 1
                if path.count("item") != 1:
                    bad.append(path)

        def each(e, inner=inner):
            if e.kind == "iterend":
                return [("end",), ("cut",)]
            if e.kind == "call" and e.ev.attr == inner and last(e.ev.recv) == "metrics":
                when = tuple(T.strip(x) for x in e.ev.args) + tuple(T.strip(v) for v in e.ev.kwargs.values())
                ok = inner == "reset" and not when or len(when) == 1 and (is_param(when[0], "time_ns") or "metrics_time_ns" in str(when[0]))
                elem = T.contains(T.strip(e.ev.recv), lambda t: own(t, "_conns")) or T.contains(T.strip(e.ev.recv), lambda t: t[0] == "elem")
                return ("item",) if ok and elem else ("other",)
            return None

        func = ctx.anchor_func(rule, f"{MANAGER}.{name}")
        if func is not None:
            ctx.trace(func, each, p.cls(MANAGER), opaque=outside(inner), restart="cut", segment=seg)
            ctx.ob(rule, f"all/{name}", not bad and count[0] > 0, "a connection is left out", func.where, bad[0].show() if bad else ())

    # All of a peer's streams.
    have = {k for k, v in created_in(ctx, f"{INTERFACE}._finalize_struct", INTERFACE).items() if v == CHANNEL}

    def streams(path):
        done = [x[2][2] for x in path.get("each") if x[1] == "poll" and any_own(x[2], have)]
        return None if sorted(done) == sorted(have) and have else f"{sorted(have - set(done))} isn't polled"

    each_return(ctx, rule, "streams", f"{INTERFACE}.poll_metrics", INTERFACE, streams, label=lab, opaque=("poll",))
    ctx.ob(rule, "streams/count", have == {"stdin_metrics", "stdout_metrics", "stderr_metrics"}, "a stream has no counters of its own", p.need_cls(INTERFACE).where)

    # Each counter is its own channel, in its direction.
    exposed(ctx, rule)


def created_in(ctx, qual: str, cls: str) -> dict:
    out = {}

    def lab(e):
        if e.kind == "store" and e.ev.kind == "attr" and own(("attr", T.strip(e.ev.base), e.ev.name, ()), e.ev.name):
            val = T.strip(e.ev.value)
            out[e.ev.name] = val[2] if val[0] == "new" else "?"
        return None

    func = ctx.p.func(qual)
    if func is not None:
        ctx.trace(func, lab, ctx.p.cls(cls), opaque=lambda it, ev: ev.func is not None)
    return out


def exposed(ctx, rule) -> None:
    mixin = "runtimepy.mixins.environment.ChannelEnvironmentMixin"
    table = {"messages": "messages", "messages_rate": "message_rate", "bytes": "bytes", "kbps": "kbps"}

    def lab(e):
        if e.kind == "call" and e.ev.attr == "channel" and mine(e.ev.recv, "env"):
            name = e.ev.param("name") if e.ev.func is not None else e.ev.args[0]
            kind = e.ev.args[1] if len(e.ev.args) > 1 else e.ev.kwargs.get("kind")
            return ("channel", T.strip(name), T.strip(kind) if kind is not None else None)
        if e.kind == "call" and e.ev.attr == "register_channel_metrics":
            return ("register", tuple(T.strip(x) for x in e.ev.args))
        return None

    def check(path):
        got = {}
        for item in path.get("channel"):
            name = item[1][2] if item[1][0] == "const" else None
            kind = item[2]
            if name in got or kind is None or kind[0] != "attr" or not is_param(kind[1], "channel"):
                return "a counter isn't exposed once"
            got[name] = kind[2]
        return None if got == table else "counters are mixed up"

    each_return(ctx, rule, "exposed", f"{mixin}.register_channel_metrics", mixin, check, label=lab, opaque=("channel", "names_pushed"))

    def ways(path):
        got = {}
        for item in path.get("register"):
            args = item[1]
            if len(args) != 3:
                return "a direction isn't exposed"
            text = str(args[:2])
            got[text] = args
        for args in got.values():
            name, metrics = args[0], args[1]
            if name[0] == "const" and not (metrics[0] == "attr" and metrics[2] == name[2]):
                return "directions are mixed up"
        return None if len(got) == 2 or any("elem" in x for x in got) else "a direction isn't exposed"

    each_return(ctx, rule, "exposed/ways", f"{mixin}.register_connection_metrics", mixin, ways, label=lab, opaque=("register_channel_metrics", "names_pushed"))

    # Streams of a peer, by name.
    def stream(path):
        got = {}
        for item in path.get("register"):
            if len(item[1]) < 2 or item[1][0][0] != "const":
                return "a stream isn't exposed"
            got[item[1][0][2]] = item[1][1]
        for name, metrics in got.items():
            if not (own(metrics, f"{name}_metrics") or metrics[0] == "new"):
                return "streams are mixed up"
        return None if set(got) == {"stdin", "stdout", "stderr"} and len(set(got.values())) >= 1 else "a stream isn't exposed"

    each_return(ctx, rule, "exposed/streams", f"{INTERFACE}._finalize_struct", INTERFACE, stream, label=lab, opaque=("register_channel_metrics", "names_pushed", "finalize"))


def tasks(ctx, rule) -> None:
    p = ctx.p

    def lab(e):
        if e.frame.func.module.name.startswith("runtimepy.primitives"):
            return None
        if e.kind == "yield":
            return ("yield",)
        if e.kind == "call" and e.ev.fterm is not None and T.strip(e.ev.fterm)[0] == "param":
            return ("track", T.strip(e.ev.fterm)[2], tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value":
            return ("value", T.strip(e.ev.base), T.strip(e.ev.value))
        return None

    def clock(term) -> bool:
        return term[0] == "call" and term[2].endswith("metrics_time_ns")

    def check(path):
        order = [x for x in path.labels]
        if [x[0] for x in order].count("yield") != 1:
            return "what's measured doesn't run once"
        i = [x[0] for x in order].index("yield")
        before, after = {}, {}
        for n, item in enumerate(order):
            if item[0] == "value":
                base = item[1]
                name = base[2] if base[0] == "attr" and own(base, base[2]) else base[2] if base[0] == "param" else "?"
                where = before if n < i else after
                if name in where:
                    return f"'{name}' is changed twice"
                where[name] = item[2]
        tracked = {x[1]: x[2] for x in path.get("track")}
        if set(before) != {"rate_hz"} or before["rate_hz"][0] != "call" or path.count("track") != 2 or set(tracked) != {"rate", "dispatch"}:
            return "the rate isn't updated once per iteration"
        if before["rate_hz"][4] != tracked["rate"] or [x[0] for x in order].index("track") > i or not tracked["rate"] or not clock(tracked["rate"][0]):
            return "the rate isn't the tracked one"
        need = {"iter_time", "dispatches", "average_s", "max_s", "min_s"}
        if not need <= set(after) or set(after) - need - {"overruns"}:
            return f"{sorted(need - set(after))} isn't updated"
        if added(after["dispatches"], "dispatches") != ("const", "int", 1):
            return "an iteration isn't counted"
        spent = after["iter_time"]
        if not (spent[0] == "call" and spent[2].endswith("from_nanos") and spent[4] and spent[4][0][0] == "bin" and spent[4][0][1] == "-" and clock(spent[4][0][2]) and clock(spent[4][0][3])):
            return "the time spent isn't measured"
        avg = after["average_s"]
        taken = tracked["dispatch"]
        if avg[0] != "call" or avg[4] != taken or len(taken) != 1 or taken[0] != spent and not (taken[0][0] == "attr" and taken[0][2] == "value" and is_param(taken[0][1], "iter_time")):
            return "the average isn't the tracked one"
        for name, attr in (("max_s", "max"), ("min_s", "min")):
            if not (after[name][0] == "attr" and after[name][2] == attr and is_param(after[name][1], "dispatch")):
                return f"'{name}' isn't the tracked one"
        names = [x[1][2] if x[0] == "value" and x[1][0] == "attr" else "" for x in order]
        if max(names.index("max_s"), names.index("min_s")) < 0 or min(names.index("max_s"), names.index("min_s")) < names.index("average_s"):
            return "extremes are those of earlier iterations"
        late = None
        for atom, pol in facts_of(path.st):
            if atom[0] == "cmp" and atom[1] == "<":
                if is_param(atom[2], "period_s"):
                    late = pol
                elif is_param(atom[3], "period_s"):
                    late = None
        if late is None or late != ("overruns" in after):
            return "overruns aren't counted"
        if "overruns" in after and added(after["overruns"], "overruns") != ("const", "int", 1):
            return "an overrun isn't counted once"
        return None

    each_return(ctx, rule, "measure", f"{TASK}.measure", TASK, check, label=lab)

    # Each dispatch is measured.
    qual = "runtimepy.task.basic.periodic.PeriodicTask"
    func = ctx.anchor_func(rule, f"{qual}.run")

    def disp(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value" and not e.frame.func.module.name.startswith("runtimepy.primitives"):
            base = T.strip(e.ev.base)
            if base[0] == "attr" and base[2] in ("rate_hz", "dispatches") and own(base[1], "metrics"):
                return ("on",) if base[2] == "rate_hz" else ("off",)
        if e.kind == "coro" and e.ev.attr == "dispatch":
            return ("dispatch",)
        if e.kind == "iterend" and e.frame.func is func:
            return [("end",), ("cut",)]
        return None

    if func is not None:
        laps = []
        ctx.trace(func, disp, p.cls(qual), opaque=outside("dispatch", "disable", "set_period", "update_primitive"), restart="cut", segment=laps.append, cap=12)
        bad = None
        seen = 0
        for path in laps:
            kinds = [x[0] for x in path.labels]
            if not path.has("end"):
                continue
            if path.has("dispatch"):
                seen += 1
                if [x for x in kinds if x not in ("end", "cut")] != ["on", "dispatch", "off"]:
                    bad = bad or ("an iteration isn't measured once", path)
            elif path.has("on") or path.has("off"):
                bad = bad or ("an iteration is measured that doesn't run", path)
        ctx.ob(rule, "periodic", bad is None and seen > 0, bad[0] if bad else "iterations aren't measured", func.where, bad[1].show() if bad else ())

    # Tasks that aren't part of an arbiter.
    func = ctx.anchor_func(rule, f"{ASYNC_TASK}.run")
    if func is None:
        return

    def single(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value" and not e.frame.func.module.name.startswith("runtimepy.primitives"):
            base = T.strip(e.ev.base)
            if base[0] == "attr" and base[2] == "raw" and any_own(base[1], ("rate_hz", "dispatches", "average_s", "max_s", "min_s")):
                return ("set", base[1][2], T.strip(e.ev.value))
        if e.kind == "coro" and e.ev.attr == "dispatch":
            return ("dispatch",)
        if e.kind == "iterend" and e.frame.func is func:
            return [("end",), ("cut",)]
        return None

    laps = []
    ctx.trace(func, single, p.cls(ASYNC_TASK), opaque=outside("dispatch", "init", "disable", "reset_metrics", "log_metrics", "enable"), restart="cut", segment=laps.append, cap=12)
    bad = None
    seen = 0
    for path in laps:
        if not path.has("end"):
            continue
        seen += 1
        names = [x[1] if x[0] == "set" else x[0] for x in path.labels if x[0] in ("set", "dispatch")]
        i = names.index("dispatch") if "dispatch" in names else -1
        if names.count("dispatch") != 1 or names[:i] != ["rate_hz"] or sorted(names[i + 1 :]) != ["average_s", "dispatches", "max_s", "min_s"]:
            bad = bad or ("an iteration isn't measured once", path)
            continue
        got = {x[1]: x[2] for x in path.get("set")}
        count = got["dispatches"]
        if not (count[0] == "bin" and count[1] == "+" and ("const", "int", 1) in count[2:4]):
            bad = bad or ("an iteration isn't counted", path)
        if any(not (got[k][0] == "attr" and got[k][2] == k[:3] and own(got[k][1], "dispatch_time")) for k in ("max_s", "min_s")):
            bad = bad or ("extremes aren't the tracked ones", path)
        if min(names.index("max_s"), names.index("min_s")) < names.index("average_s"):
            bad = bad or ("extremes are those of earlier iterations", path)
    ctx.ob(rule, "single", bad is None and seen > 0, bad[0] if bad else "iterations aren't measured", func.where, bad[1].show() if bad else ())
