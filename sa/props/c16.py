"""C16: TFTP transfers are complete, in order, truthful, and leave nothing behind."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.common import at_home, call_names, concrete, facts_of, is_param, self_attr, truth_of

LEVEL = "proof"
EXPLANATION = (
    "Typestate with symbolic block arithmetic over every path of the sending and receiving loops (callbacks handed to the retransmission helper are run by the "
    "analyser), of the message handlers and of the functions that service requests: consecutive block numbers starting at one, nothing sent or acknowledged before "
    "its predecessor was confirmed, every received block written once, results that agree with what was transferred, and bookkeeping that is only held while the "
    "endpoint is claimed. How often and when messages are re-transmitted isn't decided."
)

ENDPOINT = "runtimepy.net.udp.tftp.endpoint.TftpEndpoint"
BASE = "runtimepy.net.udp.tftp.base.BaseTftpConnection"
CONN = "runtimepy.net.udp.tftp.TftpConnection"
INVOKES = {"vcorelib.asyncio.poll.repeat_until": 0}
TABLES = ("awaiting_acks", "awaiting_blocks", "blocks")


def linear(term):
    """Represent an integer term as (base, offset)."""
    if term[0] == "const" and isinstance(term[2], int):
        return (None, term[2])
    if term[0] == "bin" and term[1] in ("+", "-"):
        a, b = linear(term[2]), linear(term[3])
        if b[0] is None:
            return (a[0], a[1] + (b[1] if term[1] == "+" else -b[1]))
        if a[0] is None and term[1] == "+":
            return (b[0], a[1] + b[1])
    return (term, 0)


def on_table(term, name: str) -> bool:
    return term is not None and term[0] == "attr" and term[2] == name


def is_wait(term) -> bool:
    return term[0] == "call" and term[2].split(".")[-1] == "repeat_until"


def shortness(st, data):
    """Whether a block is known to be short (shorter than the maximum)."""
    want = T.strip(data)
    for atom, pol in facts_of(st):
        if atom[0] != "cmp" or atom[1] not in ("<", ">", "<=", ">="):
            continue
        left, right, op = atom[2], atom[3], atom[1]
        flip = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}
        if is_len(right, want):
            left, right, op = right, left, flip[op]
        if not is_len(left, want) or not on_table(right, "max_block_size"):
            continue
        if op in (">", "<="):
            # 'len > max' never holds, 'len <= max' always does.
            continue
        return pol if op == "<" else not pol
    return None


def is_len(term, want) -> bool:
    return term[0] == "call" and term[2] == "len" and term[4] and T.strip(term[4][0]) == want or term == want


def feasible(st) -> bool:
    """Decide comparisons with the (constant) block size."""
    known = {}
    for atom, pol in facts_of(st):
        if atom[0] == "cmp" and on_table(atom[3], "max_block_size"):
            op = atom[1]
            if atom[2] == atom[3] and pol != (op in ("<=", ">=", "==")):
                return False
            if op in (">=", "<"):
                value = pol if op == "<" else not pol
                if known.setdefault(atom[2], value) != value:
                    return False
    return True


def sequence(tr, ctx, rule, key, receiving: bool) -> None:
    """Check the order of blocks along every path."""
    bad = {}

    def fail(path, what, msg):
        bad.setdefault(what, (msg, path))

    stats = {"expect": 0, "write": 0, "ack": 0, "send": 0}
    longest = max((len({x[1] for x in path.get("write" if receiving else "send")}) for path in tr.ret), default=0)
    ctx.ob(rule, f"{key}/length", longest >= 3, "files of more than two blocks are never transferred", tr.func.where)
    for path in tr.all:
        if not feasible(path.st):
            continue
        last = (None, 0)
        pending = None
        data = None
        short = None
        confirmed = None
        acked = None
        waited = sent = False
        fresh = False
        for item in path.labels:
            kind = item[0]
            if kind in stats:
                stats[kind] += 1
            if kind == "expect":
                num = linear(item[1])
                if num[0] is None or num[0] == last[0]:
                    if num != (last[0], last[1] + 1):
                        fail(path, "order", f"block {T.path(item[1])} is expected out of order")
                        break
                elif last[0] is None and last[1] == 0:
                    fail(path, "order", f"the first block isn't 1 but {T.path(item[1])}")
                    break
                if not receiving and last != (None, 0) and confirmed is not True:
                    fail(path, "confirm", "the next block is sent although the previous one wasn't acknowledged")
                if receiving and pending is not None and waited and item[3] is not False:
                    fail(path, "lost", "a block that was received isn't written")
                if not fresh:
                    fail(path, "event", "a block is awaited with an event that may be set already")
                fresh = False
                if receiving and data is not None and short is not False and item[2] is not False:
                    fail(path, "end", "another block is expected after a block that may be the last one")
                pending, waited, sent, confirmed = num, False, False, None
            elif kind == "event":
                fresh = True
            elif kind == "send":
                if pending is None or linear(item[1]) != pending:
                    fail(path, "number", f"a chunk is sent as block {T.path(item[1])}, but another block's acknowledgement is awaited")
                if item[2][0] != "iter":
                    fail(path, "data", "what is sent isn't the next chunk")
                if not item[3]:
                    fail(path, "data", "a chunk isn't sent to the endpoint's address")
                sent = True
            elif kind == "ack":
                if not item[2]:
                    fail(path, "ack", "an acknowledgement isn't sent to the endpoint's address")
                num = linear(item[1])
                if pending is None:
                    if num != last:
                        fail(path, "ack", f"block {T.path(item[1])} is acknowledged, but the last one written is another")
                elif num != (pending[0], pending[1] - 1):
                    fail(path, "ack", f"block {T.path(item[1])} is acknowledged while the block after it isn't the one that's awaited")
                acked = num
            elif kind == "wait":
                waited = True
                if pending is not None and not item[3]:
                    fail(path, "event", "the event that's waited for isn't the one that's signalled")
                if not receiving and not sent:
                    fail(path, "send", "waits for an acknowledgement without sending the block")
            elif kind == "confirmed":
                confirmed = item[1]
                if confirmed is True and pending is not None:
                    last, pending = pending, None
            elif kind == "write":
                num = linear(item[1][2]) if item[1][0] == "sub" and on_table(item[1][1], "blocks") else None
                if num is None or num != pending:
                    fail(path, "write", f"{T.path(item[1])} is written, which isn't the block that was awaited")
                    break
                if not waited or item[2] is not True:
                    fail(path, "write", "a block is written although it may not have been received")
                data, last, pending, short, acked = item[1], pending, None, None, None
            elif kind == "short":
                if item[1] is not None:
                    short = item[1]
            elif kind == "done":
                confirmed_now = item[2]
                if receiving:
                    short = shortness(path.st, data) if short is None and data is not None else short
                else:
                    confirmed = confirmed_now if confirmed is None and pending is not None else confirmed
        if path.kind != "ret":
            continue
        value = path.val
        truth = value[2] if value is not None and value[0] == "const" else truth_of(path.st, value) if value is not None else None
        if receiving:
            short = shortness(path.st, data) if short is None and data is not None else short
            complete = data is not None and pending is None and short is True
            if value is not None and truth is None:
                if value[0] == "cmp" and T.strip(value[2]) == T.strip(value[3]):
                    truth = value[1] in ("<=", ">=", "==")
                elif value[0] == "cmp" and data is not None and is_len(T.strip(value[2]), T.strip(data)):
                    truth = short if value[1] == "<" else None
            if truth is not False and not complete:
                fail(path, "result", "success is reported although the last block wasn't received")
            if truth is not True and complete:
                fail(path, "result", "failure is reported although every block was received")
            if complete and acked != last:
                fail(path, "final", "the last block isn't acknowledged")
        else:
            if pending is not None:
                if confirmed is not True and truth is not False:
                    fail(path, "result", "success is reported although a block wasn't acknowledged")
                if confirmed is True and truth is False:
                    fail(path, "result", "failure is reported although every block was acknowledged")
            elif truth is False:
                fail(path, "result", "failure is reported although every block was acknowledged")
    for what in ("event", "lost", "order", "confirm", "number", "data", "send", "ack", "write", "end", "result", "final"):
        msg, path = bad.get(what, ("", None))
        ctx.ob(rule, f"{key}/{what}", path is None, msg, tr.func.where, path.show() if path is not None else ())
    for name in ("expect", "ack", "write") if receiving else ("expect", "send"):
        ctx.floor(rule, f"{name} in {key}", stats[name], 2)


def transfer_label(receiving: bool, recv_pred):
    """Label the events of a transfer."""
    table = "awaiting_blocks" if receiving else "awaiting_acks"

    def last_data(e):
        for item in reversed(e.st.mon):
            if item[0] == "write":
                return item[1]
        return None

    def to_peer(e) -> bool:
        """Whether a message goes to the endpoint's address."""
        addr = T.strip(e.ev.args[-1])
        return addr[0] == "attr" and addr[2] == "addr"

    def last_expected(e):
        return next((x[1] for x in reversed(e.st.mon) if x[0] == "expect"), None)

    def label(e):
        if e.kind == "store" and e.ev.kind == "sub" and on_table(T.strip(e.ev.base), table):
            data = last_data(e)
            return ("expect", T.strip(e.ev.name) if isinstance(e.ev.name, tuple) else e.ev.name, shortness(e.st, data) if data is not None else None, current_wait(e), e.ev.value)
        if e.kind == "after" and e.ev.name == "asyncio.Event":
            return ("event", last_expected(e))
        if e.kind == "call" and e.ev.recv is not None:
            if e.ev.attr == "ack_sender" and e.ev.args:
                return ("ack", T.strip(e.ev.args[0]), to_peer(e))
            if e.ev.attr == "data_sender" and len(e.ev.args) >= 2:
                return ("send", T.strip(e.ev.args[0]), T.strip(e.ev.args[1]), to_peer(e))
            if e.ev.attr == "write" and recv_pred(T.strip(e.ev.recv)) and e.ev.args:
                return ("write", T.strip(e.ev.args[0]), current_wait(e))
        if e.kind == "await" and is_wait(T.strip(e.term)):
            value = next((x[4] for x in reversed(e.st.mon) if x[0] == "expect"), None)
            return ("wait", e.where, last_expected(e), value is not None and len(e.term[4]) > 1 and T.strip(e.term[4][1]) == T.strip(value))
        if e.kind == "iterend":
            out = []
            data = last_data(e)
            if data is not None and receiving:
                out.append(("short", shortness(e.st, data), last_expected(e)))
            if not receiving:
                out.append(("confirmed", current_wait(e), last_expected(e)))
            return out or None
        if e.kind == "return" and e.frame.uid == "":
            return ("done", False, current_wait(e))
        return None

    def current_wait(e):
        """The outcome of the wait that happened last on this path."""
        where = next((x[1] for x in reversed(e.st.mon) if x[0] == "wait"), None)
        if where is None:
            return None
        line = int(where.rsplit(":", 1)[1])
        out = None
        for atom, pol in e.st.facts:
            for sub in [atom, atom[1] if len(atom) > 1 and isinstance(atom[1], tuple) else atom]:
                if sub[0] == "call" and is_wait(sub) and isinstance(sub[1], tuple) and len(sub[1]) == 3 and sub[1][1] == line and atom[0] != "isnone":
                    out = pol
        return out

    return label


def is_stream(term) -> bool:
    return is_param(term, "stream") or T.contains(term, lambda t: t[0] == "call" and t[2].split(".")[-1] in ("open", "fdopen"))


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Sent chunks are numbered consecutively from 1, each is acknowledged before the next, and success means that all were.")
    R2 = ctx.rule("R2", "Received blocks are written once each in order, acknowledged only when written, and success means that the final (short) block was written and acknowledged.")
    R3 = ctx.rule("R3", "A block's data is stored before its arrival is signalled, only awaited blocks and acknowledgements have an effect, once.")
    R4 = ctx.rule("R4", "Bookkeeping of a transfer only exists while its endpoint is claimed exclusively, and is gone afterwards.")
    R5 = ctx.rule("R5", "Every message is dispatched by its code to the handler of that code with the remaining message and its sender; none disables the connection.")
    R6 = ctx.rule("R6", "A first block or acknowledgement from a new port of an awaited host moves to the endpoint that awaits it, once.")
    R7 = ctx.rule("R7", "Files are split into chunks of the block size and always end with a short one; files aren't opened for writing outside of a claimed transfer twice.")
    R8 = ctx.rule("R8", "Every message is made of its code, its number or text, and its payload, and goes to the address it's meant for.")
    R9 = ctx.rule("R9", "A write that's requested succeeds only if the transfer did and (when verifying) what's read back is equal.")
    p = ctx.p

    # R1: sending.
    func = ctx.anchor_func(R1, f"{ENDPOINT}.serve_file")
    if func is not None:
        tr = ctx.trace(func, transfer_label(False, is_stream), p.cls(ENDPOINT), cap=2, invokes=INVOKES, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("log_time",))
        sequence(tr, ctx, R1, "serve_file", False)

    # R2: receiving.
    for qual, cls in ((f"{ENDPOINT}.ingest_file", ENDPOINT), (f"{CONN}.request_read", CONN)):
        func = ctx.anchor_func(R2, qual)
        if func is not None:
            tr = ctx.trace(func, transfer_label(True, is_stream), p.cls(cls), cap=2, invokes=INVOKES, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("log_time", "send_rrq", "endpoint"))
            sequence(tr, ctx, R2, func.name, True)

    constant(ctx, R2)
    handlers(ctx, R3)
    claims(ctx, R4)
    dispatch(ctx, R5)
    redirect(ctx, R6)
    chunks(ctx, R7)
    writing(ctx, R7)
    messages(ctx, R8)
    request_write(ctx, R9)
    requests(ctx, R9)


def constant(ctx, rule) -> None:
    """The block size doesn't change during a transfer."""
    bad = []
    for func in ctx.p.all_functions():
        for node in ast.walk(func.node):
            if isinstance(node, ast.Attribute) and node.attr == "max_block_size" and isinstance(node.ctx, (ast.Store, ast.Del)) and not at_home(ctx.p, func, "__init__"):
                bad.append(f"{func.module.rel}:{node.lineno}")
    ctx.ob(rule, "max_block_size", not bad, "the block size changes after construction", bad[0] if bad else "")


def handlers(ctx, rule) -> None:
    for name, table, param in (("handle_data", "awaiting_blocks", "block"), ("handle_ack", "awaiting_acks", "block")):
        func = ctx.anchor_func(rule, f"{ENDPOINT}.{name}")
        if func is None:
            continue

        def key_ok(term) -> bool:
            return is_param(T.strip(term), param)

        def label(e):
            if e.kind == "store" and e.ev.kind == "sub" and on_table(T.strip(e.ev.base), "blocks"):
                return ("store", key_ok(e.ev.name), is_param(T.strip(e.ev.value), "data"), known(e))
            if e.kind == "store" and e.ev.kind == "delsub" and on_table(T.strip(e.ev.base), table):
                return ("retire", key_ok(e.ev.name))
            if e.kind == "call" and e.ev.attr == "pop" and on_table(T.strip(e.ev.recv), table) and e.ev.args:
                return ("retire", key_ok(e.ev.args[0]))
            if e.kind == "call" and e.ev.attr == "set" and e.ev.recv is not None:
                recv = T.strip(e.ev.recv)
                mine = recv[0] == "sub" and on_table(recv[1], table) and key_ok(recv[2])
                popped = recv[0] == "call" and recv[2].split(".")[-1] in ("pop", "get") and recv[3] is not None and on_table(recv[3], table) and recv[4] and key_ok(recv[4][0])
                return ("signal", mine or popped, known(e))
            if e.kind == "call" and e.ev.attr == "error_sender":
                return ("error",)
            return None

        def known(e):
            for atom, pol in facts_of(e.st):
                if atom[0] == "in" and key_ok(atom[1]) and on_table(atom[2], table):
                    return pol
                if atom[0] == "isnone" and T.contains(atom[1], lambda t: on_table(t, table)):
                    return not pol
                if T.contains(atom, lambda t: t[0] == "call" and t[3] is not None and on_table(t[3], table)):
                    return pol
            return None

        tr = ctx.trace(func, label, ctx.p.cls(ENDPOINT), cap=2)
        signalled = 0
        for path in tr.ret:
            text = None
            if path.has("signal"):
                signalled += 1
                if path.count("signal") != 1 or path.get("signal")[0][1] is not True:
                    text = "signals something other than the awaited message"
                elif path.get("signal")[0][2] is False:
                    text = "signals a message that nothing awaits"
                elif not path.has("retire") or path.get("retire")[0][1] is not True:
                    text = "the awaited message stays awaited after it arrived"
                elif name == "handle_data" and (not path.has("store") or path.index("store") > path.index("signal")):
                    text = "a block's arrival is signalled before its data is stored"
            elif path.has("store") or path.has("retire"):
                text = "a message that nothing awaits changes the state of a transfer"
            elif name == "handle_data" and not path.has("error"):
                text = "an unexpected block isn't answered with an error"
            if path.has("store") and path.get("store")[0][1:3] != (True, True):
                text = "the stored data isn't what was received for the block"
            if path.has("store") and path.get("store")[0][3] is False:
                text = "stores a block that nothing awaits"
            if text:
                ctx.ob(rule, name, False, text, func.where, path.show())
        ctx.ob(rule, name, signalled > 0, "arrival is never signalled", func.where)


def claims(ctx, rule) -> None:
    p = ctx.p
    # The claim itself.
    func = ctx.anchor_func(rule, f"{ENDPOINT}.transfer")
    if func is not None:

        def label(e):
            if e.kind == "enter" and self_attr(T.strip(e.term), "lock"):
                return ("lock",)
            if e.kind == "exit" and self_attr(T.strip(e.term), "lock"):
                return ("unlock",)
            if e.kind == "yield":
                return ("hold",)
            if e.kind == "call" and e.ev.attr == "clear" and e.ev.recv is not None:
                return ("clear", T.path(T.strip(e.ev.recv)))
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.name in TABLES:
                return ("clear", f"self.{e.ev.name}")
            return None

        tr = ctx.trace(func, label, p.cls(ENDPOINT), cap=3)
        for path in tr.all:
            if not path.has("hold"):
                continue
            text = None
            at = path.index("hold")
            if not 0 <= path.index("lock") < at or 0 <= path.index("unlock") < at:
                text = "the endpoint isn't locked during a transfer"
            missing = [x for x in TABLES if not any(i > at and y == ("clear", f"self.{x}") for i, y in enumerate(path.labels))]
            if missing:
                text = f"{missing[0]} outlives the transfer ({path.kind})"
            if text:
                ctx.ob(rule, "transfer", False, text, func.where, path.show())
        ctx.ob(rule, "transfer", any(x.has("hold") for x in tr.all), "never yields", func.where)

    # Everything that starts expecting something holds the claim.
    for qual, cls, what in (
        (f"{ENDPOINT}._process_write_request", ENDPOINT, "ingest_file"),
        (f"{ENDPOINT}._process_read_request", ENDPOINT, "serve_file"),
        (f"{CONN}.request_read", CONN, "send_rrq"),
        (f"{CONN}.request_write", CONN, "send_wrq"),
    ):
        func = ctx.anchor_func(rule, qual)
        if func is None:
            continue
        key = func.qual

        def claim(term) -> bool:
            return T.contains(T.strip(term), lambda t: t[0] in ("gen", "coro") and t[1] == f"{ENDPOINT}.transfer")

        def label(e):
            if e.kind == "enter" and claim(e.term) or e.kind == "await" and "enter_async_context" in T.path(T.strip(e.term)) and claim(e.term):
                return ("claim",)
            if e.kind == "exit" and (claim(e.term) or "ExitStack" in T.path(T.strip(e.term))):
                return ("release",)
            if e.kind in ("call", "coro") and e.ev.func is not None and e.ev.func.name == what:
                return ("use",)
            if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.base)[0] == "attr" and T.strip(e.ev.base)[2] in ("awaiting_acks", "awaiting_blocks"):
                return ("use",)
            if e.kind == "call" and e.ev.attr == "open" and e.ev.recv is not None and e.ev.args and e.ev.args[0][0] == "const" and "w" in str(e.ev.args[0][2]):
                return ("use",)
            if e.kind == "store" and e.ev.kind == "sub" and T.strip(e.ev.base)[0] == "attr" and T.strip(e.ev.base)[2].startswith("_awaiting_first"):
                return ("await", T.strip(e.ev.base)[2])
            if e.kind == "call" and e.ev.attr == "callback":
                for arg in e.ev.args:
                    name = T.strip(arg)
                    if name[0] == "attr" and name[2].startswith("_awaiting_first"):
                        return ("undo", name[2])
            if e.kind == "store" and e.ev.kind == "delsub" and T.strip(e.ev.base)[0] == "attr" and T.strip(e.ev.base)[2].startswith("_awaiting_first"):
                return ("undo", T.strip(e.ev.base)[2])
            if e.kind == "call" and e.ev.attr == "pop" and e.ev.recv is not None and T.strip(e.ev.recv)[0] == "attr" and T.strip(e.ev.recv)[2].startswith("_awaiting_first"):
                return ("undo", T.strip(e.ev.recv)[2])
            return None

        tr = ctx.trace(
            func, label, p.cls(cls), cap=4, invokes=INVOKES, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("log_time", "endpoint", what) or ev.func is not None and ev.func.name in ("serve_file", "request_read") and ev.func is not func
        )
        used = 0
        for path in tr.all:
            held = False
            text = None
            awaited = None
            for item in path.labels:
                if item[0] == "claim":
                    held = True
                elif item[0] == "release":
                    held = False
                elif item[0] == "use":
                    used += 1
                    if not held:
                        text = "a transfer runs without claiming its endpoint"
                elif item[0] == "await":
                    awaited = item[1]
                    if not held:
                        text = "an initial message is awaited without claiming the endpoint"
                elif item[0] == "undo" and item[1] == awaited:
                    awaited = None
            if awaited is not None and not (path.kind == "exc" and path.labels and path.labels[-1][0] == "await"):
                text = f"{awaited} outlives the transfer"
            if text:
                ctx.ob(rule, key, False, text, func.where, path.show())
        ctx.ob(rule, key, used > 0, f"never reaches {what}", func.where)

    # Nothing else creates bookkeeping or transfers.
    allowed = {f"{ENDPOINT}.{x}" for x in ("ingest_file", "serve_file", "handle_data", "handle_ack", "transfer", "__init__", "_process_write_request", "_process_read_request")}
    count = 0
    for func in p.all_functions():
        for node in ast.walk(func.node):
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("ingest_file", "serve_file"):
                count += 1
                root = func
                while root.outer is not None:
                    root = root.outer
                ok = claimed(p, root, allowed)
                ctx.ob(rule, f"{func.qual}/{node.func.attr}", ok, "a transfer is started without claiming its endpoint", f"{func.module.rel}:{node.lineno}")
    ctx.floor(rule, "transfers started", count, 3)


def claimed(p, func, allowed, depth: int = 3) -> bool:
    """Whether a function (or all of its callers) claims the endpoint."""
    if func.qual in allowed or "transfer" in call_names(p, func, depth=2):
        return True
    if func.name in ("request_write", "request_read"):
        return True
    if not depth:
        return False
    callers = set()
    for other in p.all_functions():
        if other is not func and any(isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) == func.name for n in ast.walk(other.node)):
            while other.outer is not None:
                other = other.outer
            callers.add(other)
    return bool(callers) and all(claimed(p, x, allowed, depth - 1) for x in callers if x is not func)


OPCODES = {"RRQ": "handle_read_request", "WRQ": "handle_write_request", "DATA": "handle_data", "ACK": "handle_ack", "ERROR": "handle_error"}


def dispatch(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{BASE}.init")
    table: dict = {}
    if func is not None:

        def label(e):
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "handlers" and e.ev.base[0] == "self" and e.ev.value[0] == "dict":
                for key, value in e.ev.value[1]:
                    table[T.strip(key)] = T.strip(value)
            if e.kind == "store" and e.ev.kind == "sub" and self_attr(T.strip(e.ev.base), "handlers"):
                table[T.strip(e.ev.name)] = T.strip(e.ev.value)
            return None

        ctx.trace(func, label, p.cls(BASE), cap=1, opaque=lambda it, ev: ev.attr in ("init", "channel", "register_enum"))
        for code, target in OPCODES.items():
            got = [v for k, v in table.items() if T.contains(k, lambda t, c=code: t[0] == "attr" and t[2] == c)]
            ok = False
            if len(got) == 1 and got[0][0] == "bound":
                meth = p.func(got[0][2])
                names = call_names(p, meth, p.cls(BASE), depth=2) if meth is not None else set()
                ok = target in names and not (set(OPCODES.values()) - {target}) & names
            ctx.ob(rule, f"opcode/{code}", ok, f"{code} messages don't reach {target}", func.where)

    # Handlers pass on what they read.
    for code, target in OPCODES.items():
        got = [v for k, v in table.items() if T.contains(k, lambda t, c=code: t[0] == "attr" and t[2] == c)]
        meth = p.func(got[0][2]) if len(got) == 1 and got[0][0] == "bound" else None
        if meth is None:
            continue
        params = [a.arg for a in meth.node.args.args]

        def label(e, target=target):
            if e.kind == "call" and e.ev.attr == target:
                recv = T.strip(e.ev.recv)
                sender = T.contains(recv, lambda t: t[0] == "call" and t[2].split(".")[-1] == "endpoint" and any(is_param(x, params[2]) for x in list(t[4]) + [v for _, v in t[5]]))
                return ("handle", sender, tuple(T.strip(x) for x in e.ev.args))
            if e.kind == "call" and e.ev.attr in ("read", "from_stream") or e.kind == "call" and e.ev.name.endswith("parse_filename_mode"):
                return ("read", e.ev.attr or e.ev.name, T.path(T.strip(e.ev.recv)) if e.ev.recv is not None else "")
            if e.kind == "call" and e.ev.attr == "append" and self_attr(T.strip(e.ev.recv), "_conn_tasks"):
                return ("own",)
            return None

        tr = ctx.trace(meth, label, p.cls(BASE), cap=3, opaque=lambda it, ev, t=target: ev.func is not None and ev.func.name in (t, "endpoint", "update_from_other", "parse_filename_mode"))
        for path in tr.ret:
            text = None
            if path.count("handle") != 1:
                text = "the message isn't handled exactly once"
            else:
                _, sender, args = path.get("handle")[0]
                if not sender and code not in ("DATA", "ACK"):
                    text = "the message isn't attributed to its sender"
                if code in ("RRQ", "WRQ"):
                    none = {pol for a, pol in facts_of(path.st) if a[0] == "isnone" and T.contains(a[1], lambda t, n=target: t[0] == "call" and t[2].split(".")[-1] == n)}
                    if not path.has("own") and none != {True}:
                        text = "the task of a transfer isn't owned by the connection"
                number = args and (T.contains(args[0], lambda t: self_attr(t, "block_number")) or "from_stream" in T.path(args[0]))
                number = number and 0 <= path.index("read") < path.index("handle") and any(x[1] == "from_stream" and x[2].endswith("block_number") for x in path.get("read"))
                if code == "DATA" and not (len(args) == 2 and number and T.path(args[1]).endswith(".read()")):
                    text = "the block isn't handled with its number and the rest of the message"
                if code == "ACK" and not (len(args) == 1 and number):
                    text = "the acknowledgement isn't handled with its number"
            if text:
                ctx.ob(rule, f"{meth.qual}", False, text, meth.where, path.show())
        ctx.ob(rule, f"{meth.qual}", True)

    func = ctx.anchor_func(rule, f"{BASE}.process_datagram")
    if func is not None:
        sites: set = set()

        def label(e):
            if e.kind == "call" and e.ev.attr == "from_stream":
                return ("code", T.path(T.strip(e.ev.recv)))
            if e.kind in ("call", "await"):
                term = T.strip(e.ev.fterm) if e.kind == "call" and getattr(e.ev, "fterm", None) is not None else None
                if term is not None and (term[0] == "sub" and self_attr(term[1], "handlers") or term[0] == "call" and term[3] is not None and self_attr(term[3], "handlers")):
                    key = term[2] if term[0] == "sub" else term[4][0]
                    sites.add((e.ev.node.lineno, e.ev.node.col_offset))
                    args = [T.strip(x) for x in e.ev.args]
                    return ("dispatch", T.contains(key, lambda t: t[0] == "attr" and t[2] == "opcode"), len(args) == 2 and T.contains(args[0], lambda t: is_param(t, "data")) and is_param(args[1], "addr"), supported(e.st))
            if e.kind == "call" and e.ev.attr == "send_error":
                dest = e.ev.param("addr") if e.ev.func is not None else e.ev.kwargs.get("addr")
                return ("error", dest is not None and is_param(T.strip(dest), "addr"), supported(e.st))
            if e.kind == "await" and T.contains(e.term, lambda t: t[0] == "call" and isinstance(t[1], tuple) and tuple(t[1][1:]) in sites):
                return ("awaited",)
            if e.kind == "handler":
                return ("caught", tuple(e.extra))
            return None

        def supported(st):
            for atom, pol in facts_of(st):
                if atom[0] == "in" and self_attr(atom[2], "handlers"):
                    return pol
                if atom[0] == "isnone" and T.contains(atom[1], lambda t: self_attr(t, "handlers")):
                    return not pol
            return None

        def raises(it, ev):
            term = getattr(ev, "fterm", None)
            return ev.attr in ("from_stream", "send_error") or term is not None and term[0] in ("sub",)

        tr = ctx.trace(func, label, p.cls(BASE), cap=2, raises=raises, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("send_error", "from_stream", "endpoint", "governed_log"))
        dispatched = 0
        for path in tr.ret:
            text = None
            value = path.val
            if not (value is not None and value[0] == "const" and value[2] is True):
                text = "a message can disable the connection (result isn't True)"
            elif path.has("dispatch"):
                dispatched += 1
                if path.count("dispatch") != 1 or path.get("dispatch")[0][1:3] != (True, True) or not (path.has("awaited") or path.has("caught")):
                    text = "the message isn't handed once, with its sender, to the handler for its code"
                elif path.index("code") > path.index("dispatch") or not path.has("code"):
                    text = "the code isn't read before dispatching"
            elif not path.has("error") and not path.has("caught"):
                text = "an unknown code isn't answered"
            if any(x[3] is False for x in path.get("dispatch")) or any(x[2] is not False for x in path.get("error")):
                text = "a supported code is refused"
            if path.has("error") and not path.get("error")[0][1]:
                text = "an error isn't sent to the sender of the message"
            if text:
                ctx.ob(rule, "process_datagram", False, text, func.where, path.show())
        escaped = [x for x in tr.exc if not set(x.val or ()) <= {"CancelledError", "asyncio.CancelledError", "BaseException", "KeyboardInterrupt", "SystemExit", "GeneratorExit"}]
        ctx.ob(rule, "process_datagram/exceptions", not escaped, "an exception caused by a message stops the connection", func.where, escaped[0].show() if escaped else ())
        ctx.ob(rule, "process_datagram", dispatched > 0, "messages are never dispatched", func.where)


def redirect(ctx, rule) -> None:
    p = ctx.p
    for name, table, first, target in (("_handle_data", "_awaiting_first_block", 1, "handle_data"), ("_handle_ack", "_awaiting_first_ack", 0, "handle_ack")):
        func = ctx.anchor_func(rule, f"{BASE}.{name}")
        if func is None:
            continue

        def on_first(term) -> bool:
            return T.contains(term, lambda t: self_attr(t, table))

        def label(e):
            if e.kind == "store" and e.ev.kind == "delsub" and self_attr(T.strip(e.ev.base), table) or e.kind == "call" and e.ev.attr == "pop" and e.ev.recv is not None and self_attr(T.strip(e.ev.recv), table):
                return ("retire",)
            if e.kind == "store" and e.ev.kind == "sub" and self_attr(T.strip(e.ev.base), "_endpoints"):
                return ("map", on_first(T.strip(e.ev.value)))
            if e.kind == "call" and e.ev.attr == "update_from_other":
                return ("update", on_first(T.strip(e.ev.recv)))
            if e.kind == "call" and e.ev.attr == target:
                return ("handle", on_first(T.strip(e.ev.recv)), wanted(e.st))
            return None

        def wanted(st):
            is_first = has = None
            for atom, pol in facts_of(st):
                if atom[0] == "cmp" and atom[1] == "==" and ("const", "int", first) in (atom[2], atom[3]) and "from_stream" in T.path(atom):
                    is_first = pol
                if atom[0] == "in" and self_attr(atom[2], table):
                    has = pol
                if atom[0] == "isnone" and on_first(atom[1]):
                    has = not pol
            return (is_first, has)

        tr = ctx.trace(func, label, p.cls(BASE), cap=2, opaque=lambda it, ev, t=target: ev.func is not None and ev.func.name in (t, "endpoint", "update_from_other", "from_stream"))
        moved = 0
        for path in tr.ret:
            if not path.has("handle"):
                continue
            _, redirected, (is_first, has) = path.get("handle")[0]
            text = None
            moves = path.has("update") or path.has("map") or path.has("retire")
            if is_first is True and has is True:
                moved += 1
                if not redirected or path.get("update") != [("update", True)] or path.get("map") != [("map", True)] or not path.has("retire"):
                    text = "an awaited initial message isn't moved to the endpoint that awaits it"
            elif moves or redirected:
                text = "a message that isn't an awaited initial one is moved to another endpoint"
            if text:
                ctx.ob(rule, name, False, text, func.where, path.show())
        ctx.ob(rule, name, moved > 0, "initial messages are never moved to the endpoint that awaits them", func.where)

    func = ctx.anchor_func(rule, f"{BASE}._stop_awaiting")
    if func is not None:

        def label(e):
            if e.kind == "store" and e.ev.kind == "delsub" or e.kind == "call" and e.ev.attr == "pop" and e.ev.args:
                return ("drop",)
            return None

        filters = [n for n in ast.walk(func.node) if isinstance(n, ast.Compare)]
        same = bool(filters) and all(isinstance(n.ops[0], (ast.Is, ast.Eq)) for n in filters if any(isinstance(x, ast.Name) and x.id == "endpoint" for x in [n.left, *n.comparators]) and not inverted(func.node, n))
        tr = ctx.trace(func, label, p.cls(BASE), cap=2)
        ok = any(x.has("drop") for x in tr.ret) and same
        ctx.ob(rule, "_stop_awaiting", ok, "an endpoint whose transfer ended still awaits initial messages (or another one doesn't anymore)", func.where)

    func = ctx.anchor_func(rule, f"{ENDPOINT}.update_from_other")
    if func is not None:

        def label(e):
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "addr" and e.ev.base[0] == "self":
                value = T.strip(e.ev.value)
                return ("addr", value[0] == "attr" and value[2] == "addr" and is_param(value[1], "other"))
            return None

        tr = ctx.trace(func, label, p.cls(ENDPOINT), cap=2)
        for path in tr.ret:
            ok = path.get("addr") == [("addr", True)] and path.val is not None and T.strip(path.val)[0] == "self"
            if not ok:
                ctx.ob(rule, "update_from_other", False, "the endpoint doesn't take over the address", func.where, path.show())
        ctx.ob(rule, "update_from_other", bool(tr.ret), "never returns", func.where)

    for name, table, store, index in (("_await_first_ack", "_awaiting_first_ack", "awaiting_acks", 0), ("_await_first_block", "_awaiting_first_block", "awaiting_blocks", 1)):
        func = ctx.anchor_func(rule, f"{BASE}.{name}")
        if func is None:
            continue

        def label(e):
            if e.kind == "store" and e.ev.kind == "sub":
                base = T.strip(e.ev.base)
                if base[0] == "attr" and base[2] == store:
                    return ("expect", T.strip(e.ev.name) == ("const", "int", index), base[1], T.strip(e.ev.value))
                if self_attr(base, table):
                    return ("first", T.strip(e.ev.value), T.path(T.strip(e.ev.name)))
            return None

        tr = ctx.trace(func, label, p.cls(BASE), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("endpoint", "transfer"))
        for path in tr.ret:
            ok = path.count("expect") == 1 and path.count("first") == 1
            if ok:
                _, number, owner, event = path.get("expect")[0]
                value = T.strip(path.val)
                ok = number and path.get("first")[0][1] == owner and path.get("first")[0][2].endswith("hostname") and value[0] == "tuple" and value[1][0] == owner and value[1][1] == event
            if not ok:
                ctx.ob(rule, name, False, "the endpoint doesn't await its initial message", func.where, path.show())
        ctx.ob(rule, name, bool(tr.ret), "never returns", func.where)


def chunks(ctx, rule) -> None:
    func = ctx.anchor_func(rule, "runtimepy.net.udp.tftp.io.tftp_chunks")
    if func is None:
        return

    def is_read(term) -> bool:
        return term[0] == "call" and term[2].split(".")[-1] == "read" and len(term[4]) == 1 and is_param(term[4][0], "max_block_size")

    def label(e):
        if e.kind == "call" and e.ev.attr == "read":
            return ("read", is_read(T.strip(("call", (), e.ev.name, e.ev.recv, tuple(e.ev.args), ()))))
        if e.kind == "yield":
            term = T.strip(e.term)
            empty = term[0] == "const" and not term[2] or term[0] in ("call", "new") and term[2] == "bytes" and not (term[4] if term[0] == "call" else term[3])
            return ("yield", "empty" if empty else "data" if is_read(term) else "other", known(e.st, term))
        return None

    def known(st, term):
        for atom, pol in facts_of(st):
            if atom == term:
                return pol
        return None

    tr = ctx.trace(func, label, cap=3)
    kinds = set()
    for path in tr.ret:
        text = None
        kinds |= {x[1] for x in path.get("yield")}
        if any(x[1] == "other" for x in path.get("yield")):
            text = "yields something other than what was read"
        reads = 0
        pending = 0
        for item in path.labels:
            if item[0] == "read":
                pending += 1
                reads += 1
                if not item[1]:
                    text = "chunks aren't read in units of the block size"
            elif item[1] == "data":
                pending -= 1
                if pending < 0:
                    text = "a chunk is sent twice"
                if item[2] is False:
                    text = "an empty read is yielded as a chunk before the end"
        if pending > 1:
            text = "a chunk that was read isn't sent"
        empties = [i for i, x in enumerate(path.labels) if x[0] == "yield" and x[1] == "empty"]
        if empties and empties[0] != len(path.labels) - 1:
            text = "data follows the final chunk"
        full = None
        for atom, pol in facts_of(path.st):
            if atom[0] == "cmp" and atom[1] in (">=", "<", "==") and is_param(atom[3], "max_block_size"):
                full = pol if atom[1] in (">=", "==") else not pol
        zero = any(atom[0] == "cmp" and ("const", "int", 0) in (atom[2], atom[3]) and pol for atom, pol in facts_of(path.st))
        any_data = any(x[1] == "data" for x in path.get("yield"))
        if not empties and (full is not False or not any_data):
            text = "a file doesn't end with a short chunk"
        if empties and full is not True and not zero and any_data:
            text = "an empty chunk follows a short one"
        if text:
            ctx.ob(rule, "tftp_chunks", False, text, func.where, path.show())
    ctx.ob(rule, "tftp_chunks", kinds >= {"data", "empty"}, "data or the final chunk is never yielded", func.where)


def writing(ctx, rule) -> None:
    """A path is written by one task at a time."""
    p = ctx.p
    func = ctx.anchor_func(rule, f"{ENDPOINT}.handle_write_request")
    if func is None:
        return

    def label(e):
        if e.kind in ("call", "after") and e.ev.attr in ("add", "discard", "remove") and e.ev.recv is not None and self_attr(T.strip(e.ev.recv), "writing"):
            return (e.ev.attr, T.strip(e.ev.args[0])) if e.kind == "after" else None
        if e.kind == "after" and e.ev.name.endswith("create_task"):
            return ("task", busy(e.st))
        if e.kind == "call" and e.ev.attr == "add_done_callback" and e.ev.args:
            return ("done",)
        if e.kind == "call" and e.ev.attr == "_check_permission":
            return ("open", busy(e.st))
        return None

    def busy(st):
        for atom, pol in facts_of(st):
            if atom[0] == "in" and self_attr(atom[2], "writing"):
                return pol
        return None

    CALLBACKS = set()
    for node in ast.walk(func.node):
        if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in ("discard", "remove") and isinstance(node.func.value, ast.Attribute) and node.func.value.attr == "writing":
            CALLBACKS.add(node.func.attr)

    released = "discard" in call_names(p, func, p.cls(ENDPOINT), depth=2) or "remove" in call_names(p, func, p.cls(ENDPOINT), depth=2) or bool(CALLBACKS)
    tr = ctx.trace(func, label, p.cls(ENDPOINT), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("_check_permission", "get_path", "_process_write_request"))
    for path in tr.ret:
        text = None
        if path.has("task"):
            if path.get("task")[0][1] is not False:
                text = "a path that's being written is written by another task"
            elif not path.has("add"):
                text = "a path that's being written isn't remembered"
            elif not released:
                text = "a path can't be written again"
        if path.has("open") and path.get("open")[0][1] is not False:
            text = "a file that's being written is truncated"
        if text:
            ctx.ob(rule, "handle_write_request", False, text, func.where, path.show())
    ctx.ob(rule, "handle_write_request", any(x.has("task") for x in tr.ret), "requests are never serviced", func.where)


SENDERS = {"send_rrq": "RRQ", "send_wrq": "WRQ", "send_data": "DATA", "send_ack": "ACK", "send_error": "ERROR"}


def messages(ctx, rule) -> None:
    """What is sent."""
    p = ctx.p
    for name, code in SENDERS.items():
        func = ctx.anchor_func(rule, f"{BASE}.{name}")
        if func is None:
            continue

        def label(e):
            if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "value":
                base = T.strip(e.ev.base)
                if base[0] == "attr" and base[1][0] == "self" and base[2] in ("opcode", "block_number", "error_code"):
                    return ("set", base[2], T.strip(e.ev.value))
            if e.kind == "call" and e.ev.attr == "to_stream" and e.ev.recv is not None and T.strip(e.ev.recv)[0] == "attr":
                return ("put", T.strip(e.ev.recv)[2])
            if e.kind == "call" and e.ev.attr == "write" and e.ev.args:
                return ("write", T.strip(e.ev.args[0]))
            if e.kind == "call" and e.ev.name == "bytes" and e.ev.args and T.strip(e.ev.args[0])[0] == "attr":
                return ("bytes", T.strip(e.ev.args[0])[2])
            if e.kind == "call" and e.ev.attr == "sendto":
                addr = e.ev.kwargs.get("addr") or (e.ev.args[1] if len(e.ev.args) > 1 else None)
                return ("sendto", T.strip(e.ev.args[0]) if e.ev.args else None, addr is not None and is_param(T.strip(addr), "addr"))
            return None

        tr = ctx.trace(func, label, p.cls(BASE), cap=3, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("endpoint", "sendto", "to_stream", "encode_filename_mode"))
        for path in tr.ret:
            text = None
            sets = {x[1]: x[2] for x in path.get("set")}
            labels = path.labels
            at = {}
            for i, x in enumerate(labels):
                at.setdefault((x[0], x[1]) if x[0] in ("set", "put", "bytes") else x[0], i)
            sent = path.get("sendto")
            payload = tuple(x[1] for x in path.get("write")) + tuple(x[1] for x in sent)

            def carried(pred) -> bool:
                return any(T.contains(t, pred) for t in payload if t is not None)

            if len(sent) != 1:
                text = "not exactly one message is sent"
            elif not sent[0][2]:
                text = "the message isn't sent to the given address"
            elif not (at.get(("set", "opcode"), 99) < at.get(("put", "opcode"), at.get(("bytes", "opcode"), -1)) < at["sendto"]):
                text = "the message doesn't begin with its code"
            elif not T.contains(sets["opcode"], lambda t, c=code: t[0] == "attr" and t[2] == c):
                text = f"the code isn't that of {code}"
            elif any(at.get(x, 99) < at.get(("put", "opcode"), -1) for x in ("write",) if name != "send_error"):
                text = "the message doesn't begin with its code"
            elif name in ("send_data", "send_ack"):
                taken = [i for i, x in enumerate(labels) if x[0] in ("put", "bytes") and x[1] == "block_number"]
                if not is_param(sets.get("block_number", ("none",)), "block"):
                    text = "the block number isn't the given one"
                elif not taken or taken[0] < at[("set", "block_number")] or taken[0] > at["sendto"]:
                    text = "the block number isn't part of the message"
                elif name == "send_data" and not carried(lambda t: is_param(t, "data")):
                    text = "the data isn't part of the message"
                elif name == "send_data" and any(t[0] == "bin" and t[1] == "+" and T.contains(t[2], lambda x: is_param(x, "data")) for t in T.walk(("tuple", payload))):
                    text = "the data doesn't follow the block number"
            elif name == "send_error":
                if not T.contains(sets.get("error_code", ("none",)), lambda t: is_param(t, "error_code")):
                    text = "the error code isn't the given one"
                elif not any(x[0] in ("put", "bytes") and x[1] == "error_code" for x in labels):
                    text = "the error code isn't part of the message"
                elif not carried(lambda t: is_param(t, "message")):
                    text = "the text isn't part of the message"
            elif not carried(lambda t: is_param(t, "filename")):
                text = "the filename isn't part of the message"
            if text:
                ctx.ob(rule, name, False, text, func.where, path.show())
        ctx.ob(rule, name, bool(tr.ret), "never returns", func.where)

    # Endpoints are unique per address, and send via this connection.
    func = ctx.anchor_func(rule, f"{BASE}.endpoint")
    if func is not None:

        def label(e):
            if e.kind == "store" and e.ev.kind == "sub" and self_attr(T.strip(e.ev.base), "_endpoints"):
                return ("put", T.strip(e.ev.name), T.strip(e.ev.value), known(e.st))
            return None

        def known(st):
            for atom, pol in facts_of(st):
                if atom[0] == "in" and self_attr(atom[2], "_endpoints"):
                    return pol
                if atom[0] == "isnone" and T.contains(atom[1], lambda t: self_attr(t, "_endpoints")):
                    return not pol
            return None

        tr = ctx.trace(func, label, p.cls(BASE), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name == "normalize_host")
        for path in tr.ret:
            text = None
            value = T.strip(path.val)
            for _, key, made, has in path.get("put"):
                if has is not False:
                    text = "an endpoint that exists is replaced"
                elif not T.contains(made, lambda t, k=key: t[0] in ("new", "call") and k in tuple(t[3] if t[0] == "new" else t[4])):
                    text = "an endpoint isn't stored under its own address"
                elif not T.contains(key, lambda t: t[0] == "call" and t[2].split(".")[-1] == "normalize_host"):
                    text = "addresses aren't normalized"
            if not T.contains(value, lambda t: self_attr(t, "_endpoints") or t[0] == "new"):
                text = "the result isn't the address' endpoint"
            if text:
                ctx.ob(rule, "endpoint", False, text, func.where, path.show())
        ctx.ob(rule, "endpoint", any(x.has("put") for x in tr.ret), "endpoints are never created", func.where)


def request_write(ctx, rule) -> None:
    p = ctx.p
    func = ctx.anchor_func(rule, f"{CONN}.request_write")
    if func is None:
        return

    def named(term, what: str) -> bool:
        return T.contains(term, lambda t: t[0] in ("call", "coro") and (t[2] if t[0] == "call" else t[1]).split(".")[-1] == what)

    def label(e):
        if e.kind == "await":
            for what in ("serve_file", "request_read", "repeat_until"):
                if named(e.term, what):
                    return (what,)
        return None

    def truth(st, what):
        out = None
        for atom, pol in facts_of(st):
            if atom[0] not in ("isnone", "cmp") and named(atom, what):
                out = pol
        return out

    tr = ctx.trace(func, label, p.cls(CONN), cap=2, opaque=lambda it, ev: ev.func is not None and ev.func.name in ("log_time", "endpoint", "serve_file", "request_read", "send_wrq", "_await_first_ack"))
    served = 0
    for path in tr.ret:
        text = None
        value = T.strip(path.val)
        verify = next((pol for atom, pol in facts_of(path.st) if is_param(atom, "verify")), None)
        false = value[0] == "const" and not value[2]
        if truth(path.st, "repeat_until") is not True:
            if not false:
                text = "a write is reported that wasn't accepted"
            elif path.has("serve_file"):
                text = "data is sent before the write is accepted"
        elif not path.has("serve_file"):
            # A cancelled operation may end here.
            text = None if false else "a write is reported that wasn't done"
        else:
            served += 1
            ok = truth(path.st, "serve_file")
            if named(value, "serve_file"):
                if ok is not False and verify is not False:
                    text = "success isn't verified"
            elif named(value, "request_read"):
                if truth(path.st, "request_read") is not False:
                    text = "what was read back isn't compared"
            elif value[0] == "cmp":
                sides = [x for x in value[2:4]]
                if ok is not True:
                    text = "a write that failed may be reported as successful"
                elif value[1] != "==" or not any(named(x, "tempfile") for x in sides) or not any(T.contains(x, lambda t: is_param(t, "source")) for x in sides):
                    text = "what was read back isn't compared with what was written"
            elif not false and not (value[0] == "const" and any(a[0] == "cmp" and a[1] == "==" and named(a, "tempfile") and pol for a, pol in facts_of(path.st))):
                if not (verify is False and ok is True):
                    text = "success isn't the outcome of the transfer"
            elif false and ok is True and (verify is False or truth(path.st, "request_read") is True and not any(a[0] == "cmp" and named(a, "tempfile") and not pol for a, pol in facts_of(path.st))):
                text = "a successful write is reported as a failure"
        if text:
            ctx.ob(rule, "request_write", False, text, func.where, path.show())
    ctx.ob(rule, "request_write", served > 0, "never serves the file", func.where)


def requests(ctx, rule) -> None:
    """Requests are for the given file and go to the given address."""
    p = ctx.p
    for name, first, send in (("request_read", "_await_first_block", "send_rrq"), ("request_write", "_await_first_ack", "send_wrq")):
        func = ctx.anchor_func(rule, f"{CONN}.{name}")
        if func is None:
            continue

        def label(e):
            if e.kind in ("call", "coro") and e.ev.func is not None and e.ev.func.name in (first, send, "request_read"):
                if e.ev.func is func or e.ev.func.outer is not None:
                    return None
                addr = e.ev.param("addr")
                at = addr is not None and is_param(T.strip(addr), "addr")
                if e.ev.func.name == first:
                    return ("first", at)
                name, mode = e.ev.param("filename"), e.ev.param("mode")
                return ("request", e.ev.func.name, at, name is not None and is_param(T.strip(name), "filename"), mode is not None and is_param(T.strip(mode), "mode"))
            return None

        tr = ctx.trace(func, label, p.cls(CONN), cap=2, invokes=INVOKES, opaque=lambda it, ev: ev.func is not None and ev.func.outer is None and ev.func.name in ("log_time", "endpoint", "serve_file", "request_read", first, send))
        seen = 0
        for path in tr.all:
            for item in path.labels:
                seen += item[0] == "request"
                if not all(x is not False for x in item):
                    ctx.ob(rule, f"{name}/{item[0]}", False, "the request isn't for the given file, mode and address", func.where, path.show())
        ctx.ob(rule, f"{name}/request", seen > 0, "nothing is requested", func.where)


def inverted(root, node) -> bool:
    """Whether a comparison guards a 'continue' or is negated."""
    for sub in ast.walk(root):
        if isinstance(sub, ast.If) and sub.test is node and any(isinstance(x, (ast.Continue, ast.Break)) for x in sub.body):
            return True
        if isinstance(sub, ast.UnaryOp) and isinstance(sub.op, ast.Not) and sub.operand is node:
            return True
    return False
