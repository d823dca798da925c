"""C23: every HTTP request gets its response."""

from __future__ import annotations

from sa import terms as T
from sa.props.c06 import each_return, is_self, opaque_names, own
from sa.props.c09 import each_lap
from sa.props.c11 import called
from sa.props.common import current_truth, facts_of, is_param

LEVEL = "proof"
EXPLANATION = (
    "Every path of processing and making HTTP requests (and of the server's handlers) is followed: what's called with what, what's sent in which order, what's "
    "returned and under which known conditions; each message of a chunk, each header field and each candidate file is judged on its own (one loop iteration)."
)

HTTP = "runtimepy.net.tcp.http.HttpConnection"
COMMON = "runtimepy.net.http.common.HeadersMixin"
REQUEST = "runtimepy.net.http.header.RequestHeader"
RESPONSE = "runtimepy.net.http.response.ResponseHeader"
SERVER = "runtimepy.net.server.RuntimepyServerConnection"


def run(ctx) -> None:
    R1 = ctx.rule("R1", "Each received message is handled once: a request is answered, a response is given to whoever waits for it.")
    R2 = ctx.rule("R2", "A request is handled by its method's handler, others are answered as not implemented.")
    R3 = ctx.rule("R3", "A message's header is sent once before its data, with the data's length.")
    R4 = ctx.rule("R4", "Requests are made one at a time and get the response that follows them; one that's abandoned doesn't leave its response to the next.")
    R5 = ctx.rule("R5", "Headers are written and read completely.")
    R6 = ctx.rule("R6", "The server answers with the file, redirect, data or application that the path names.")
    R7 = ctx.rule("R7", "Commands are run in the environment named and their outcome is reported.")
    received(ctx, R1)
    processed(ctx, R2)
    sent(ctx, R3)
    requested(ctx, R4)
    headers(ctx, R5)
    targets(ctx, R5)
    server(ctx, R6)
    files(ctx, R6)
    rendered(ctx, R6)
    data(ctx, R6)
    apps(ctx, R6)
    commands(ctx, R7)


def text(value: str):
    return ("const", "str", value)


def tail(term) -> bool:
    """The slice of everything but the first item."""
    return term[0] == "slice" and term[1][0] == ("const", "int", 1) and all(x[0] == "const" and x[2] is None for x in term[1][1:])


def is_ingest(t) -> bool:
    return called(t, "ingest") or t is not None and t[0] == "gen" and t[1].endswith(".ingest")


def has(term, pred) -> bool:
    return term is not None and T.contains(term, lambda t: isinstance(t, tuple) and bool(t) and pred(t))


def truth(st, pred):
    """Polarity of a known fact (None if it isn't known)."""
    out = {pol for atom, pol in facts_of(st) if pred(atom)}
    return out.pop() if len(out) == 1 else None


def expecting(st):
    for (base, name), val in st.heap.items():
        if name == "expecting_response" and is_self(T.strip(base)) and val[0] == "const":
            return bool(val[2])
    now = current_truth(st, ("self", HTTP), "expecting_response")
    return now if now is not None else truth(st, lambda t: own(t, "expecting_response"))


def message(term, index: int) -> bool:
    """The header or payload of a message that was received."""
    return term is not None and term[0] == "unpack" and term[2] == index and has(term[1], lambda t: t[0] == "iter" and is_ingest(t[1]))


def received(ctx, rule) -> None:
    def label(e):
        if e.kind not in ("call", "coro", "await"):
            return None
        if e.kind == "await":
            term = T.strip(e.term) if e.term is not None else None
            return ("await", term[1].rpartition(".")[2] if term is not None and term[0] == "coro" else term[2].rpartition(".")[2] if term is not None and term[0] == "call" else None)
        ev = e.ev
        args = tuple(T.strip(x) for x in ev.args)
        if e.kind == "call" and ev.attr == "ingest":
            return ("ingest", args, expecting(e.st))
        if e.kind == "coro" and ev.attr == "_process_request":
            return ("process", args, expecting(e.st))
        if e.kind == "call" and ev.attr == "_send":
            return ("send", args)
        if ev.recv is not None and own(T.strip(ev.recv), "responses") and ev.attr in ("put", "put_nowait") and e.kind == "call":
            return ("put", args[0], expecting(e.st), ev.attr)
        return None

    kinds: set[str] = set()

    def lap(path):
        kinds.update(x[0] for x in path.labels if x[0] in ("put", "process"))
        takes, sends, puts = path.get("process"), path.get("send"), path.get("put")
        if len(takes) + len(puts) != 1:
            return f"a message is handled {len(takes) + len(puts)} times"
        if puts:
            if sends or puts[0][2] is not True:
                return "a request is taken for a response"
            item = puts[0][1]
            if not (item[0] == "tuple" and len(item[1]) == 2 and message(item[1][0], 0) and message(item[1][1], 1)):
                return "something else than the response is provided"
            if puts[0][3] == "put" and path.count("await") != 1:
                return "the response isn't provided"
            return None
        args, exp = takes[0][1], takes[0][2]
        if exp is not False:
            return "a response is taken for a request"
        if len(args) != 3 or args[0][0] != "new" or args[0][2] != RESPONSE or not message(args[1], 0) or not message(args[2], 1):
            return "something else than the request is processed"
        if args[0][3] and args[0][3] != () or len(sends) != 1:
            return "the request isn't answered once"
        reply = sends[0][1]
        if reply[0] != args[0] or len(reply) != 2 or not called(reply[1], "_process_request") and not has(reply[1], lambda t: t[0] == "coro" and t[1].endswith("._process_request")):
            return "something else than the result is sent"
        return None

    each_lap(
        ctx, rule, "message", f"{HTTP}.process_binary", HTTP, is_ingest, lap, label,
        opaque=("ingest", "_process_request", "_send", "log", "send_binary"),
    )
    ctx.ob(rule, "kinds", kinds == {"put", "process"}, "requests or responses aren't handled", ctx.p.cls(HTTP).where)

    def given(path):
        items = path.get("ingest")
        if len(items) != 1 or not is_param(items[0][1][0], "data"):
            return "the data isn't processed once"
        kind = items[0][1][1] if len(items[0][1]) > 1 else None
        want = RESPONSE if items[0][2] else REQUEST
        if items[0][2] is None or kind is None or kind[0] != "class" or kind[1] != want:
            return "the message's header isn't of the kind expected"
        return None if path.val is None or T.strip(path.val) == ("const", "bool", True) or T.strip(path.val)[0] == "const" and T.strip(path.val)[2] is True else "the connection ends"

    each_return(ctx, rule, "ingest", f"{HTTP}.process_binary", HTTP, given, label=label, opaque=("ingest", "_process_request", "_send", "log", "send_binary"))


def processed(ctx, rule) -> None:
    def is_table(t):
        return own(t, "handlers")

    def is_method(t):
        return t is not None and t[0] == "attr" and t[2] == "method" and is_param(t[1], "request_header")

    def from_table(t):
        return t is not None and (t[0] == "sub" and is_table(t[1]) and is_method(t[2]) or called(t, "get") and t[3] is not None and is_table(t[3]) and bool(t[4]) and is_method(t[4][0]))

    def label(e):
        if e.kind == "call" and e.ev.fterm is not None and from_table(T.strip(e.ev.fterm)):
            return ("handle", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "status" and is_param(T.strip(e.ev.base), "response"):
            return ("status", T.strip(e.ev.value))
        if e.kind == "await":
            return ("await",)
        return None

    def check(path):
        known = None
        for atom, pol in facts_of(path.st):
            if atom[0] == "in" and is_method(atom[1]) and is_table(atom[2]):
                known = pol
            elif atom[0] == "isnone" and from_table(atom[1]):
                known = not pol
            elif from_table(atom) and pol:
                known = True
        calls, status = path.get("handle"), path.get("status")
        if known is None:
            return "it isn't known whether there's a handler"
        if known:
            if len(calls) != 1 or len(calls[0][1]) != 3 or not all(is_param(x, n) for x, n in zip(calls[0][1], ("response", "request_header", "request_data"))):
                return "the handler isn't run once with the request"
            if path.count("await") != 1:
                return "the handler isn't waited for"
            if status:
                return "the handler's status is changed"
            val = T.strip(path.val)
            return None if val[0] == "call" and val[4] == calls[0][1] or val[0] == "await" else "the handler's result is lost"
        if calls:
            return "something else handles the request"
        if not status or not has(status[-1][1], lambda t: "NOT_IMPLEMENTED" in str(t[1:3]) or t == ("const", "int", 501)):
            return "an unknown method isn't rejected"
        return None

    each_return(ctx, rule, "method", f"{HTTP}._process_request", HTTP, check, label=label)

    # Which handlers there are.
    def label2(e):
        if e.kind == "store" and e.ev.kind == "sub" and (own(T.strip(e.ev.base), "handlers") or has(T.strip(e.ev.base), lambda t: own(t, "handlers"))):
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("attr", e.ev.name, T.strip(e.ev.value))
        return None

    def init(path):
        table = {}
        copied = False
        for item in path.labels:
            if item[0] == "attr" and item[1] == "handlers":
                copied = item[2][0] in ("call", "dict") and not own(item[2], "handlers")
            elif item[0] == "put":
                if not copied:
                    return "the handlers of other connections are changed"
                table[str(item[1][1] if item[1][0] == "ext" else item[1][2]).rpartition(".")[2]] = item[2]
        for name in ("get", "post"):
            val = table.get(name.upper())
            if val is None or not (val[0] in ("bound", "attr") and str(val[2]).endswith(f"{name}_handler")):
                return f"the handler of {name.upper()} isn't registered"
        vals = {x[1]: x[2] for x in path.labels if x[0] == "attr"}
        if vals.get("expecting_response") != ("const", "bool", False) and not (vals.get("expecting_response", (None,))[0] == "const" and vals["expecting_response"][2] is False):
            return "a response is expected from the beginning"
        for name in ("processor", "request_ready", "responses"):
            if name not in vals or vals[name][0] not in ("new", "call"):
                return f"{name} isn't the connection's own"
        return None

    each_return(ctx, rule, "init", f"{HTTP}.init", HTTP, init, label=label2)


def parts(term) -> list:
    """Operands of a concatenation."""
    if term[0] == "bin" and term[1] in ("Add", "+"):
        return parts(term[2]) + parts(term[3])
    return [term]


def sent(ctx, rule) -> None:
    def is_length(t):
        return t == text("0") or (called(t, "str") or t[0] == "fstr") and has(t, lambda x: called(x, "len") and is_param(x[4][0], "data"))

    def label(e):
        if e.kind == "call" and e.ev.attr in ("send_binary", "send_text"):
            return ("send", tuple(y for x in e.ev.args for y in parts(T.strip(x))), e.ev.attr, T.strip(e.ev.recv))
        if e.kind == "call" and e.ev.name in ("bytes", "str") and e.ev.args and is_param(T.strip(e.ev.args[0]), "header"):
            return ("encode",)
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "header") and str(T.strip(e.ev.name)).lower().find("content-length") >= 0:
            return ("length", T.strip(e.ev.value))
        return None

    def check(path):
        data = truth(path.st, lambda t: is_param(t, "data"))
        if data is None:
            data = truth(path.st, lambda t: t[0] == "isnone" and is_param(t[1], "data"))
            data = None if data is None else not data
        length = None
        first = True
        for item in path.labels:
            if item[0] == "length":
                length = item[1]
            elif item[0] == "encode" and first:
                first = False
                if length is None or not is_length(length):
                    return "the length isn't known when the header is encoded"
                zero = length == text("0")
                if data is True and zero or data is False and not zero:
                    return "the length isn't that of the data"
                if data is None and zero:
                    return "the length isn't that of the data"
        out = [y for x in path.get("send") for y in x[1]]
        if any(x[2] != "send_binary" or not is_self(x[3]) for x in path.get("send")):
            return "the message isn't sent on this connection"
        if not out or not (called(out[0], "bytes") and is_param(out[0][4][0], "header") or called(out[0], "__bytes__") or called(out[0], "encode") and has(out[0], lambda t: is_param(t, "header"))):
            return "the header isn't sent first"
        rest = out[1:]
        if data is False:
            return None if all(is_param(x, "data") for x in rest) and len(rest) < 2 else "something else is sent"
        return None if len(rest) == 1 and is_param(rest[0], "data") else "the data isn't sent once"

    each_return(ctx, rule, "send", f"{HTTP}._send", HTTP, check, label=label, opaque=("send_binary", "send_text", "log", "__bytes__", "__str__"))


def is_response(t) -> bool:
    return called(t, "get") and t[3] is not None and own(t[3], "responses")


def requested(ctx, rule) -> None:
    func = ctx.anchor_func(rule, f"{HTTP}.request")
    if func is None:
        return

    def label(e):
        if e.kind in ("enter", "exit") and own(T.strip(e.term), "request_ready"):
            return (e.kind,)
        if e.kind == "call" and e.ev.attr in ("acquire", "release") and e.ev.recv is not None and own(T.strip(e.ev.recv), "request_ready"):
            return ("exit",) if e.ev.attr == "release" else ("enter",)
        if e.kind == "call" and e.ev.attr == "_send":
            return ("send", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "disable" and is_self(T.strip(e.ev.recv)):
            return ("disable",)
        if e.kind == "call" and e.ev.attr == "get" and e.ev.recv is not None and own(T.strip(e.ev.recv), "responses"):
            return ("get",)
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "expecting_response" and is_self(T.strip(e.ev.base)):
            val = T.strip(e.ev.value)
            return ("expect", val[2] if val[0] == "const" else None)
        if e.kind == "await" and e.term is not None:
            return ("await", expecting(e.st), has(T.strip(e.term), is_response))
        return None

    tr = ctx.trace(func, label, ctx.p.cls(HTTP), opaque=opaque_names("_send", "disable"))
    bad = None

    def msg(path):
        sends = path.get("send")
        names = [x[0] for x in path.labels]
        state = None
        inside = False
        for item in path.labels:
            if item[0] == "enter":
                inside = True
            elif item[0] == "exit":
                if state is True:
                    return "another request may be made while this one's response is expected"
                inside = False
            elif item[0] == "expect":
                state = item[1]
            elif item[0] in ("send", "get") and not inside:
                return "requests aren't made one at a time"
            elif item[0] == "await" and inside and sends and item[1] is not True and item[2]:
                return "a response isn't expected while waiting for it"
            elif item[0] == "await" and inside and state is not True and "send" in names[: path.labels.index(item)]:
                return "a response may arrive before it's expected"
        if state is True:
            return "a response is expected after the request ended"
        if path.kind == "return" or path in tr.ret:
            if len(sends) != 1 or len(sends[0][1]) != 2 or not is_param(sends[0][1][0], "request") or not is_param(sends[0][1][1], "data"):
                return "the request isn't sent once"
            if path.count("get") != 1 or names.index("send") > names.index("get"):
                return "the response isn't waited for once"
            if not has(T.strip(path.val), is_response) or not has(T.strip(path.val), lambda t: called(t, "result") or t[0] == "await" or is_response(t)):
                return "something else than the response is returned"
            if has(T.strip(path.val), lambda t: called(t, "wait") and t[3] is None):
                return "something else than the response is returned"
        return None

    for path in tr.all:
        problem = msg(path)
        if problem and bad is None:
            bad = (problem, path)
    ctx.ob(rule, "request", bad is None and bool(tr.ret), bad[0] if bad else "never returns", func.where, bad[1].show() if bad else ())

    # Cancellation while the response is outstanding.
    cut = None
    n = 0
    for path in tr.exc:
        names = [x[0] for x in path.labels]
        if "CancelledError" not in str(path.val) and "CancelledError" not in str(path.show()[-1]):
            continue
        if "send" not in names or "get" not in names:
            continue
        last = max(i for i, x in enumerate(names) if x == "get")
        if "await" not in names[last:]:
            continue
        n += 1
        if "disable" not in names and cut is None:
            cut = path
    ctx.ob(rule, "cancelled", cut is None and n > 0, "a cancelled request's response may be given to the next request", func.where, cut.show() if cut else ())

    # It ends with the connection.
    def waits(e):
        if e.kind == "call" and e.ev.attr == "wait" and e.ev.recv is not None and own(T.strip(e.ev.recv), "disabled_event"):
            return ("lost",)
        if e.kind == "call" and e.ev.name in ("asyncio.wait",):
            return ("wait", T.strip(dict(e.ev.kwargs).get("return_when", ("const", "str", ""))))
        return None

    def ends(path):
        if not path.has("lost"):
            return "a request may wait forever after the connection is lost"
        got = path.get("wait")
        done = truth(path.st, lambda t: called(t, "done") and has(t[3], is_response))
        if called(T.strip(path.val), "result") and done is not True:
            return "the result of a request that isn't answered is used"
        return None if not got or "FIRST_COMPLETED" in str(got[0][1]) else "a request waits for the connection's end"

    each_return(ctx, rule, "lost", f"{HTTP}.request", HTTP, ends, label=waits, opaque=("_send", "disable"))

    # What waits for a response ends with the request.
    def task(e):
        if e.kind == "call" and (e.ev.name or "").endswith(("create_task", "ensure_future")) and e.ev.args and has(T.strip(e.ev.args[0]), is_response):
            return ("task",)
        if e.kind == "call" and e.ev.attr == "cancel" and e.ev.recv is not None and has(T.strip(e.ev.recv), is_response):
            return ("cancel",)
        if e.kind == "await":
            return ("await",)
        return None

    tr = ctx.trace(func, task, ctx.p.cls(HTTP), opaque=opaque_names("_send", "disable"))
    left = None
    for path in tr.all:
        names = [x[0] for x in path.labels]
        if "task" in names and "await" in names[names.index("task") :] and "cancel" not in names[names.index("task") :]:
            left = left or path
    ctx.ob(rule, "waiter", left is None, "what waits for a response stays behind (and takes that of the next request)", func.where, left.show() if left else ())

    def js(path):
        val = T.strip(path.val)
        return None if called(val, "to_json") and has(val[4][0], lambda t: (t[0] == "coro" and t[1].endswith(".request") or called(t, "request")) and all(is_param(x, n) for x, n in zip(t[4] if t[0] == "call" else t[3], ("request", "data"))) and len(t[4] if t[0] == "call" else t[3]) == 2) else "something else is decoded"

    each_return(ctx, rule, "json", f"{HTTP}.request_json", HTTP, js, opaque=("request", "to_json"))

    def decoded(path):
        val = T.strip(path.val)
        ok = has(val, lambda t: called(t, "decode") and t[3] is not None and t[3][0] == "sub" and is_param(t[3][1], "response") and t[3][2] == ("const", "int", 1))
        return None if ok and called(val, "loads") else "the response's data isn't decoded"

    each_return(ctx, rule, "decode", "runtimepy.net.tcp.http.to_json", None, decoded)


def writes(e):
    if e.kind == "call" and e.ev.attr == "write":
        out = []
        for x in e.ev.args:
            out.extend(parts(T.strip(x)))
        return ("write", tuple(out))
    if e.kind == "call" and e.ev.attr == "write_field_lines":
        return ("write", (("fields",),))
    return None


def written(path) -> list:
    return [y for x in path.get("write") for y in x[1]]


SEP = ("const", "str", "\r\n")


def is_sep(t) -> bool:
    return t == SEP or t[0] in ("global", "attr", "ext") and "HEADER_LINESEP" in str(t)


possible_of: list = []


def headers(ctx, rule) -> None:
    opaque = ("request_line", "status_line", "write_field_lines", "log")

    for cls, line in ((REQUEST, "request_line"), (RESPONSE, "status_line")):

        def check(path):
            out = written(path)
            if len(out) != 4 or not is_sep(out[1]) or not is_sep(out[3]) or out[2] != ("fields",):
                return "the start line, each field and an empty line aren't written"
            return None if called(T.strip(path.val), "getvalue") or T.strip(path.val)[0] == "call" else "what's written isn't returned"

        each_return(ctx, rule, f"{line}/text", f"{cls}.__str__", cls, check, label=writes, opaque=opaque)

    def ordered(val, *names) -> bool:
        shown = T.path(val)
        at = [shown.find(f"self.{x}") for x in names]
        return -1 not in at and at == sorted(at)

    def line1(path):
        val = T.strip(path.val)
        return None if ordered(val, "method", "target.raw", "version") else "not the method, target and version"

    each_return(ctx, rule, "request_line", f"{REQUEST}.request_line", REQUEST, line1, opaque=("__str__",))

    def reason(e):
        if e.kind == "call" and e.ev.attr in ("append", "extend") and own(T.strip(e.ev.args[0]), "reason"):
            return ("reason",)
        if e.kind == "call" and e.ev.attr == "join":
            return ("joined",)
        return None

    def line2(path):
        val = T.strip(path.val)
        given = truth(path.st, lambda t: own(t, "reason"))
        if not ordered(val, "version", "status"):
            return "not the version and the status' value"
        if given is None or given is False and path.has("reason"):
            return "an empty reason is written"
        if path.has("reason") and any(x[0] == "joined" for x in path.labels[: path.labels.index(("reason",))]):
            return "the reason isn't written"
        if given and not path.has("reason") and not ordered(val, "version", "status", "reason"):
            return "the reason isn't written"
        return None

    each_return(ctx, rule, "status_line", f"{RESPONSE}.status_line", RESPONSE, line2, label=reason, opaque=("__str__",))

    # Fields.
    def items(t):
        return has(t, lambda x: own(x, "headers"))

    def lap(path):
        flat = []
        for x in written(path):
            if called(x, "format") and x[3] is not None and x[3][0] == "const":
                pieces = str(x[3][2]).split("{}")
                for i, piece in enumerate(pieces):
                    flat.append(text(piece))
                    if i < len(pieces) - 1 and i < len(x[4]):
                        flat.append(x[4][i])
            else:
                flat.extend(x[1] if x[0] == "fstr" else [x])
        texts = "".join(x[2] if x[0] == "const" else "\r\n" if is_sep(x) else "*" for x in (y[1] if y[0] == "fmt" else y for y in flat))
        vals = [y[1] if y[0] == "fmt" else y for y in flat]
        vals = [y for y in vals if y[0] != "const" and not is_sep(y)]
        if texts != "*: *\r\n":
            return f"a field isn't written as one line ({texts!r})"
        ok = has(vals[0], lambda t: t[0] == "unpack" and t[2] == 0) or vals[0][0] == "iter"
        return None if ok and (has(vals[1], lambda t: t[0] == "unpack" and t[2] == 1) or vals[1][0] == "sub") else "not the field's name and value"

    each_lap(ctx, rule, "fields", f"{COMMON}.write_field_lines", REQUEST, items, lap, writes)

    def encoded(path):
        val = T.strip(path.val)
        return None if called(val, "encode") and val[3] is not None and called(val[3], "str") and is_self(val[3][4][0]) or called(val, "encode") and called(val[3], "__str__") else "not the header's text"

    each_return(ctx, rule, "bytes", f"{COMMON}.__bytes__", COMMON, encoded, opaque=("__str__",))

    # Access by name, regardless of case.
    def lower(t, name="key"):
        return t is not None and called(t, "lower", ) and is_param(t[3], name) or called(t, "casefold") and is_param(t[3], name)

    def store(e):
        if e.kind == "store" and e.ev.kind == "sub":
            return ("store", T.strip(e.ev.base), T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def setter(path):
        got = path.get("store")
        if len(got) != 1 or not own(got[0][1], "headers") or not lower(got[0][2]):
            return "the field isn't stored by its name"
        return None if has(got[0][3], lambda t: is_param(t, "value")) else "the value isn't stored"

    each_return(ctx, rule, "set", f"{COMMON}.__setitem__", COMMON, setter, label=store)

    def getter(path):
        val = T.strip(path.val)
        return None if val[0] == "sub" and own(val[1], "headers") and lower(val[2]) else "not the field with that name"

    each_return(ctx, rule, "get", f"{COMMON}.__getitem__", COMMON, getter)

    def default(path):
        val = T.strip(path.val)
        ok = called(val, "get") and own(val[3], "headers") and lower(val[4][0]) and len(val[4]) == 2 and is_param(val[4][1], "default")
        if not ok:
            inside = truth(path.st, lambda t: t[0] == "in" and lower(t[1]) and own(t[2], "headers"))
            ok = inside is True and val[0] == "sub" and own(val[1], "headers") and lower(val[2]) or inside is False and is_param(val, "default")
        return None if ok else "not the field with that name or the default"

    each_return(ctx, rule, "default", f"{COMMON}.get", COMMON, default)

    def length(path):
        val = T.strip(path.val)
        ok = called(val, "int") and val[4] and has(val[4][0], lambda t: called(t, "get") and t[4] and t[4][0] == text("content-length") and len(t[4]) > 1 and t[4][1] == text("0"))
        return None if ok else "not the length that's stated, or zero"

    each_return(ctx, rule, "length", f"{COMMON}.content_length", COMMON, length, opaque=("get",))

    # Reading: each line is a field.
    def split(t):
        return called(t, "split") and t[3] is not None and t[3][0] == "iter" and is_param(t[3][1], "lines") and t[4] and t[4][0] == text(":") and (("const", "int", 1) in t[4] or dict(t[5]).get("maxsplit") == ("const", "int", 1)) or called(t, "partition") and t[3][0] == "iter" and is_param(t[3][1], "lines") and t[4][0] == text(":")

    def read(path):
        got = path.get("store")
        if len(got) != 1:
            return "a line isn't read as one field"
        _, base, key, val = got[0]
        ok = (is_self(base) or own(base, "headers")) and has(key, lambda t: t[0] in ("unpack", "sub") and split(t[1])) and has(val, lambda t: t[0] in ("unpack", "sub") and split(t[1]))
        return None if ok and str(key) != str(val) and has(key, lambda t: t[0] == "unpack" and t[2] == 0 or t[0] == "sub" and t[2] == ("const", "int", 0)) else "not the name and value of the line"

    each_lap(ctx, rule, "lines", f"{COMMON}.__init__", REQUEST, lambda t: is_param(t, "lines"), read, store, opaque=("__setitem__",))

    def line(t):
        return t is not None and t[0] == "sub" and is_param(t[1], "lines") and t[2] == ("const", "int", 0)

    def part(t, index):
        """A part of the first line."""
        return t is not None and t[0] in ("unpack", "sub") and t[2] in (index, ("const", "int", index)) and called(t[1], "split") and line(t[1][3]) and t[1][4][0] == text(" ")

    def parse(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("attr", e.ev.name, T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "__init__" and (e.ev.name or "").endswith("HeadersMixin.__init__"):
            return ("rest", tuple(T.strip(x) for x in e.ev.args))
        return None

    def rest(path):
        got = path.get("rest")
        return len(got) == 1 and bool(got[0][1]) and got[0][1][-1][0] == "sub" and is_param(got[0][1][-1][1], "lines") and tail(got[0][1][-1][2])

    def possible(st, seq, count) -> bool:
        """Determine if a path is possible when a sequence has this many items."""
        for atom, pol in facts_of(st):
            if atom[0] != "cmp" or not any(called(x, "len") and seq(x[4][0]) for x in atom[2:4]):
                continue
            vals = [count if called(x, "len") else x[2] if x[0] == "const" else None for x in atom[2:4]]
            if None in vals or not isinstance(vals[0], int) or not isinstance(vals[1], int):
                continue
            if (vals[0] < vals[1] if atom[1] == "<" else vals[0] == vals[1]) != pol:
                return False
        return True

    possible_of.append(possible)

    def normal(t, index):
        return called(t, "normalize_method") and part(t[4][0], index)

    def fresh(cls, **want):
        def check(path):
            vals = {x[1]: x[2] for x in path.get("attr")}
            for name, pred in want.items():
                if name not in vals or not pred(vals[name]):
                    return f"the {name} isn't the one given"
            names = [x[0] for x in path.labels]
            if names.count("rest") != 1 or "field" in names and names.index("field") < names.index("rest"):
                return "the header doesn't begin without fields"
            if cls == RESPONSE and ("field",) not in path.labels:
                return "the content's type isn't the one given"
            return None

        return check

    def parse2(e):
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.value), "content_type") and "content-type" in str(T.strip(e.ev.name)).lower():
            return ("field",)
        return parse(e)

    def version(t):
        args = t[4] if t[0] == "call" else t[3] if t[0] == "new" else ()
        kws = dict(t[5]) if t[0] == "call" else {}
        major, minor = (args[0] if args else kws.get("major")), (args[1] if len(args) > 1 else kws.get("minor"))
        return is_param(major, "major") and is_param(minor, "minor")

    def the_method(t):
        return called(t, "normalize_method") and is_param(t[4][0], "method")

    each_return(
        ctx, rule, "request/new", f"{REQUEST}.__init__", REQUEST,
        fresh(REQUEST, method=the_method, version=version, target=lambda t: t[0] == "new" and (the_method(t[3][0]) or own(t[3][0], "method")) and is_param(t[3][1], "target")),
        label=parse2, opaque=("__init__", "normalize_method", "create"),
    )
    each_return(
        ctx, rule, "response/new", f"{RESPONSE}.__init__", RESPONSE,
        fresh(RESPONSE, version=version, status=lambda t: is_param(t, "status"), reason=lambda t: is_param(t, "reason")), label=parse2, opaque=("__init__", "__setitem__", "create"),
    )

    def method(path):
        val = T.strip(path.val)
        known = truth(path.st, lambda t: t[0] == "isinstance" and is_param(t[1], "data"))
        if known:
            return None if is_param(val, "data") else "the method isn't the one given"
        return None if has(val, lambda t: is_param(t, "data")) and not is_param(val, "data") and "HTTPMethod" in str(val) else "the text isn't converted"

    each_return(ctx, rule, "method", "runtimepy.net.http.common.normalize_method", None, method)

    def empty(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "headers":
            return ("empty", T.strip(e.ev.value)[0])
        if e.kind == "iterend" and is_param(T.strip(e.term), "lines"):
            return ("line",)
        return None

    seen_lines = []

    def begin(path):
        seen_lines.append(path.has("line"))
        return None if [x for x in path.labels if x[0] == "empty"] == [("empty", "dict")] and path.labels[0][0] == "empty" else "the fields of another header remain"

    each_return(ctx, rule, "begin", f"{COMMON}.__init__", REQUEST, begin, label=empty, opaque=("__setitem__",))
    ctx.ob(rule, "all", any(seen_lines), "fields aren't read", ctx.p.cls(COMMON).where)

    def request(path):
        vals = {x[1]: x[2] for x in path.get("attr")}
        if not normal(vals.get("method"), 0):
            return "the method isn't the one received"
        tgt = vals.get("target")
        if tgt is None or tgt[0] != "new" or not (normal(tgt[3][0], 0) or own(tgt[3][0], "method")) or not part(tgt[3][1], 1):
            return "the target isn't the one received"
        ver = vals.get("version")
        if ver is None or ver[0] != "new" or not part(ver[3][0], 2):
            return "the version isn't the one received"
        return None if rest(path) else "the fields aren't the remaining lines"

    each_return(ctx, rule, "request", f"{REQUEST}.from_lines", REQUEST, request, label=parse, opaque=("__init__", "normalize_method"))

    def response(path):
        vals = {x[1]: x[2] for x in path.get("attr")}
        ver, status, why = vals.get("version"), vals.get("status"), vals.get("reason")
        if ver is None or ver[0] != "new" or not part(ver[3][0], 0):
            return "the version isn't the one received"
        if status is None or not has(status, lambda t: called(t, "int") and part(t[4][0], 1)):
            return "the status isn't the one received"
        if why is not None and not part(why, 2) and why != text(""):
            return "the reason isn't the one received"
        for n in (2, 3):
            if possible(path.st, lambda t: called(t, "split") and line(t[3]), n) and (why is not None and part(why, 2)) != (n == 3):
                return "the reason isn't read if (and only if) there's one"
        if not has(status, lambda t: called(t, "split") and (("const", "int", 2) in t[4] or dict(t[5]).get("maxsplit") == ("const", "int", 2))):
            return "not all of the reason is read"
        return None if rest(path) else "the fields aren't the remaining lines"

    each_return(ctx, rule, "response", f"{RESPONSE}.from_lines", RESPONSE, response, label=parse, opaque=("__init__",))


def targets(ctx, rule) -> None:
    target = "runtimepy.net.http.request_target.RequestTarget"

    def raw(t):
        return is_param(t, "request_target_raw")

    def label(e):
        if e.kind == "store" and e.ev.kind == "attr" and is_self(T.strip(e.ev.base)):
            return ("attr", e.ev.name, T.strip(e.ev.value))
        return None

    def piece(t, sep, index):
        if t is None or t[0] not in ("sub", "unpack") or not called(t[1], "split", ) and not called(t[1], "partition") or not raw(t[1][3]) or t[1][4][0] != text(sep):
            return False
        at = t[2] if isinstance(t[2], int) else t[2][2] if t[2][0] == "const" else None
        return at == (index * 2 if called(t[1], "partition") else index)

    none = ("const", "NoneType", None)

    def is_none(t):
        return t is not None and t[0] == "const" and t[2] is None

    def check(path):
        vals = {x[1]: x[2] for x in path.get("attr")}
        star = None
        slash = None
        connect = None
        for atom, pol in facts_of(path.st):
            if atom[0] == "cmp" and any(raw(x) for x in atom[2:4]) and text("*") in atom[2:4]:
                star = pol
            elif called(atom, "startswith") and raw(atom[3]) and atom[4][0] == text("/"):
                slash = pol
            elif atom[0] == "cmp" and any(is_param(x, "method") for x in atom[2:4]) and "CONNECT" in str(atom):
                connect = pol
        if not raw(vals.get("raw")):
            return "the text isn't kept"
        origin, authority, absolute = vals.get("origin_form"), vals.get("authority_form"), vals.get("absolute_form")
        flag = vals.get("asterisk_form")
        kind = "star" if star else "connect" if connect else "origin" if slash else "absolute" if slash is False else None
        if kind is None:
            return "the kind of target isn't known"
        if flag is None or (flag[0] == "const" and bool(flag[2])) != (kind == "star"):
            return "an asterisk isn't what's known as one"
        if is_none(origin) == (kind == "origin") or is_none(authority) == (kind == "connect") or is_none(absolute) == (kind == "absolute"):
            return f"a target is taken for another kind ({kind})"
        if kind == "origin":
            if origin[0] != "tuple" or not piece(origin[1][0], "?", 0):
                return "the path isn't what precedes the query"
            if not (is_none(origin[1][1]) or piece(origin[1][1], "?", 1) or origin[1][1][0] == "phi"):
                return "the query isn't what follows the path"
        if kind == "connect":
            host, port = authority[1] if authority[0] == "tuple" and len(authority[1]) == 2 else (None, None)
            if not piece(host, ":", 0) or not called(port, "int") or not piece(port[4][0], ":", 1):
                return "the authority isn't the one given"
        if kind == "origin" and called(origin[1][0][1], "split"):
            for n in (1, 2):
                if possible_of[-1](path.st, lambda t: called(t, "split") and raw(t[3]), n) and (n == 2) != piece(origin[1][1], "?", 1):
                    return "the query isn't read if (and only if) there's one"
        kinds.add(kind)
        if kind == "absolute" and not raw(absolute):
            return "the target isn't kept"
        return None

    kinds: set[str] = set()
    each_return(ctx, rule, "target", f"{target}.__init__", target, check, label=label)
    ctx.ob(rule, "kinds", kinds == {"star", "connect", "origin", "absolute"}, "a kind of target isn't known", ctx.p.cls(target).where)

    def path_of(path):
        val = T.strip(path.val)
        return None if val[0] == "sub" and own(val[1], "origin_form") and val[2] == ("const", "int", 0) else "not the target's path"

    each_return(ctx, rule, "path", f"{target}.path", target, path_of)
    del none


def answer(term, name: str) -> bool:
    """The result of a coroutine or function of this name."""
    return term is not None and (called(term, name) or term[0] in ("await", "coro") and has(term, lambda t: t[0] == "coro" and t[1].rpartition(".")[2] == name or called(t, name)))


def operands(term) -> tuple:
    """Arguments of the call (or coroutine) behind a result."""
    for t in T.walk(term):
        if isinstance(t, tuple) and t and t[0] == "call":
            return t[4]
        if isinstance(t, tuple) and t and t[0] == "coro":
            return t[3]
    return ()


def origin(t) -> bool:
    return has(t, lambda x: x[0] == "attr" and x[2] == "origin_form" and has(x[1], lambda y: is_param(y, "request")))


def the_path(t) -> bool:
    """The path of the request."""
    return t is not None and (t[0] == "attr" and t[2] == "path" or t[0] == "sub" and origin(t)) and has(t, lambda y: is_param(y, "request"))


def label_server(e):
    if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "response") and "content-type" in str(T.strip(e.ev.name)).lower():
        return ("type",)
    if e.kind in ("coro", "call"):
        ev = e.ev
        name = ev.attr or (ev.name or "").rpartition(".")[2]
        if e.kind == "call" and ev.func is not None and ev.func.is_async:
            return None
        if name in ("try_file", "try_redirect", "json_handler", "html_handler", "redirect_to", "getvalue", "handle_command"):
            return ("run", name, tuple(T.strip(x) for x in ev.args), tuple(sorted((k, T.strip(v)) for k, v in dict(ev.kwargs).items())))
    return None


def server(ctx, rule) -> None:
    opaque = ("try_file", "try_redirect", "json_handler", "html_handler", "log", "redirect_to", "handle_command", "path_has_part")

    def get(path):
        val = T.strip(path.val)
        known = truth(path.st, lambda t: origin(t) and t[0] == "attr")
        if known is None:
            known = truth(path.st, lambda t: t[0] == "isnone" and origin(t[1]))
            known = None if known is None else not known
        icon = truth(path.st, lambda t: called(t, "startswith") and the_path(t[3]) and t[4][0] == text("/favicon"))
        ran = path.get("run")
        names = [x[1] for x in ran]
        if val[0] == "const" and val[2] is None:
            return "there's no content"
        if not known:
            outcomes.add("none")
            return None if called(val, "redirect_to") and set(names) <= {"redirect_to"} else "a request without a path isn't redirected"
        outcomes.add("icon" if icon else "path")
        if icon:
            return None if own(val, "favicon_data") and path.has("type") and not names else "the icon isn't what's served"
        for name in ("try_file", "try_redirect"):
            if name not in names:
                return f"the request isn't tried as a {name[4:]}"
            item = ran[names.index(name)]
            if not origin(item[2][0]) or not is_param(item[2][1], "response"):
                return f"something else is tried as a {name[4:]}"
            if names.count(name) > 1:
                return f"{name} runs twice"
            missing = truth(path.st, lambda t: t[0] == "isnone" and answer(t[1], name))
            if missing is False:
                outcomes.add(name)
                return None if answer(val, name) and names[-1] == name else f"the {name[4:]} isn't served"
            if missing is None:
                return f"it isn't known whether there's a {name[4:]}"
        data = truth(path.st, lambda t: called(t, "path_has_part"))
        if data is None:
            return "it isn't known whether data is requested"
        name = "json_handler" if data else "html_handler"
        if (names.count("json_handler"), names.count("html_handler")) != ((1, 0) if data else (0, 1)):
            return "the data or application isn't served once"
        item = ran[names.index(name)]
        wanted = ("stream", "request", "response", "request_data")
        pos = item[2][1:] if name == "html_handler" else item[2]
        if not all(is_param(x, n) for x, n in zip(pos[1:], wanted[1:])) or len(pos) < 4:
            return "the handler doesn't get the request"
        if name == "json_handler" and not own(item[2][4], "json_data"):
            return "the data isn't the connection's"
        if name == "html_handler" and (not has(item[2][0], lambda t: t[0] == "attr" and t[2] == "apps") or not has(dict(item[3]).get("default_app", item[2][5] if len(item[2]) > 5 else ()), lambda t: t[0] == "attr" and t[2] == "default_app")):
            return "the applications aren't the connection's"
        outcomes.add(name)
        done = True if data else truth(path.st, lambda t: answer(t, "html_handler"))
        stream = "getvalue" in names
        if done and not stream:
            return "the content isn't served"
        if done is False and not (called(val, "redirect_to") and operands(val)[0] == text("/404.html")):
            return "a request that isn't found isn't redirected"
        if done and not (has(val, lambda t: called(t, "getvalue")) or called(val, "redirect_to")):
            return "the content isn't served"
        return None

    outcomes: set[str] = set()
    each_return(ctx, rule, "get", f"{SERVER}.get_handler", SERVER, get, label=label_server, opaque=opaque)
    for name in ("icon", "path", "none", "try_file", "try_redirect", "json_handler", "html_handler"):
        ctx.ob(rule, f"get/{name}", name in outcomes, "this kind of request isn't answered", ctx.p.cls(SERVER).where)

    # Where files are looked for.
    def begins(e):
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "paths" and is_self(T.strip(e.ev.base)):
            return ("paths", T.strip(e.ev.value)[0])
        if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "favicon_data":
            return ("icon",)
        if e.kind == "call" and e.ev.attr == "add_path":
            arg = T.strip(e.ev.args[0])
            return ("add", arg[0] == "iter" and arg[1][0] == "attr" and arg[1][2] == "class_paths" and len(e.ev.args) == 1)
        if e.kind == "call" and e.ev.attr == "init" and (e.ev.name or "").startswith(HTTP):
            return ("init",)
        if e.kind == "call" and (e.ev.name or "") == "mimetypes.init":
            return ("types",)
        return None

    added_paths = []

    def initial(path):
        names = [x[0] for x in path.labels]
        if names.count("paths") != 1 or names.count("init") != 1 or "add" in names and names.index("add") < names.index("paths"):
            return "the search paths aren't the connection's own"
        if any(x[0] == "add" and not x[1] for x in path.labels):
            return "something else is a search path"
        added_paths.append("add" in names)
        loaded = truth(path.st, lambda t: called(t, "hasattr") and text("favicon_data") in t[4] or t[0] == "hasattr")
        if loaded is None or loaded == ("icon" in names):
            return "the icon isn't loaded (once)"
        typed = truth(path.st, lambda t: "MIMETYPES_INIT" in str(t) and t[0] in ("global", "ext", "attr"))
        return None if typed is None or typed != ("types" in names) else "types of files aren't known"

    each_return(ctx, rule, "init", f"{SERVER}.init", SERVER, initial, label=begins, opaque=("add_path", "log_time", "init", "find_file"))
    ctx.ob(rule, "paths", any(added_paths), "files aren't looked for", ctx.p.cls(SERVER).where)

    # Redirects.
    def stores(e):
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "response"):
            return ("field", str(T.strip(e.ev.name)[2]).lower(), T.strip(e.ev.value))
        if e.kind == "store" and e.ev.kind == "attr" and is_param(T.strip(e.ev.base), "response"):
            return ("attr", e.ev.name, T.strip(e.ev.value))
        return None

    def redirect(path):
        fields = {x[1]: x[2] for x in path.get("field")}
        vals = {x[1]: x[2] for x in path.get("attr")}
        if not is_param(fields.get("location"), "path"):
            return "the location isn't the one given"
        if path.val is None or path.val[0] == "const" and path.val[2] is None:
            return "there's no content"
        return None if is_param(vals.get("status"), "status") else "the status isn't the one given"

    each_return(ctx, rule, "redirect", f"{SERVER}.redirect_to", SERVER, redirect, label=stores)

    def curr(t):
        return t is not None and has(t, lambda x: x[0] == "sub" and is_param(x[1], "path") and x[2] == ("const", "int", 0)) and has(t, lambda x: x[0] in ("call", "new") and "Path" in str(x[2]) or called(x, "normalize_root"))

    def table(t):
        return t is not None and t[0] == "attr" and t[2] == "class_redirect_paths"

    def tried(path):
        val = T.strip(path.val)
        there = truth(path.st, lambda t: t[0] == "in" and curr(t[1]) and table(t[2]))
        if there is None:
            there = truth(path.st, lambda t: t[0] == "isnone" and called(t[1], "get") and table(t[1][3]))
            there = None if there is None else not there
        if there is None:
            return "it isn't known whether the path is redirected"
        if not there:
            return None if val[0] == "const" and val[2] is None else "other paths are redirected"
        if not called(val, "redirect_to"):
            return "the path isn't redirected"
        args = operands(val)
        ok = has(args[0], lambda t: t[0] == "sub" and table(t[1]) and curr(t[2]) or called(t, "get") and table(t[3]) and curr(t[4][0])) and is_param(args[1], "response")
        return None if ok else "the path is redirected elsewhere"

    each_return(ctx, rule, "redirected", f"{SERVER}.try_redirect", SERVER, tried, opaque=("redirect_to", "normalize_root"))

    def registered(e):
        if e.kind == "store" and e.ev.kind == "sub" and table(T.strip(e.ev.base)):
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        return None

    def added(path):
        got = path.get("put")
        if len(got) != 1 or not called(got[0][1], "normalize_root") or not is_param(got[0][2], "dest"):
            return "the redirect isn't registered"
        return None if truth(path.st, lambda t: t[0] == "in" and table(t[2]) and called(t[1], "normalize_root")) is False else "another redirect is replaced"

    each_return(ctx, rule, "register", f"{SERVER}.add_redirect_path", SERVER, added, label=registered, opaque=("normalize_root",))

    def paths(e):
        if e.kind == "call" and e.ev.attr in ("append", "insert") and e.ev.recv is not None and own(T.strip(e.ev.recv), "paths"):
            return (e.ev.attr, tuple(T.strip(x) for x in e.ev.args))
        return None

    def path_added(path):
        front = truth(path.st, lambda t: is_param(t, "front"))
        app, ins = path.get("append"), path.get("insert")
        if front is None or len(app) + len(ins) != 1:
            return "the path isn't added once"
        item = (app + ins)[0][1]
        if bool(ins) != front or ins and item[0] != ("const", "int", 0):
            return "the path isn't added where it's asked for"
        return None if has(item[-1], lambda t: is_param(t, "path")) else "something else is added"

    each_return(ctx, rule, "add", f"{SERVER}.add_path", SERVER, path_added, label=paths, opaque=("log_paths", "normalize"))

    def markdown(path):
        val = T.strip(path.val)
        ok = answer(val, "render_markdown") and has(val, lambda t: answer(t, "read_binary") and any(is_param(x, "path") for x in operands(t))) and has(val, lambda t: is_param(t, "response"))
        return None if ok else "not the file's content"

    each_return(ctx, rule, "markdown", f"{SERVER}.render_markdown_file", SERVER, markdown, opaque=("render_markdown", "read_binary"))


def rendered(ctx, rule) -> None:
    def label(e):
        if e.kind == "call" and e.ev.attr == "write_markdown":
            return ("write", T.strip(e.ev.args[0]))
        if e.kind == "call" and (e.ev.name or "").endswith("full_markdown_page"):
            return ("page", T.strip(e.ev.args[0]), T.strip(e.ev.args[1]))
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "response") and "content-type" in str(T.strip(e.ev.name)).lower():
            return ("type", "text/html" in str(e.ev.value))
        return None

    def check(path):
        if [x[0] for x in path.labels if x[0] != "type"] != ["write", "page"] or not is_param(path.get("write")[0][1], "content"):
            return "the content isn't rendered"
        page = path.get("page")[0]
        if not has(page[2], lambda t: called(t, "getvalue")):
            return "something else is rendered"
        if path.get("type") != [("type", True)]:
            return "the content's type isn't stated"
        return None if has(T.strip(path.val), lambda t: t == page[1]) else "the document isn't returned"

    each_return(ctx, rule, "page", f"{SERVER}.render_markdown", SERVER, check, label=label, opaque=("full_markdown_page", "get_html"))


def files(ctx, rule) -> None:
    opaque = ("contained_path", "render_markdown_file", "read_binary")

    def candidate(t, depth=0) -> bool:
        """A path within the search path, named by the request."""
        if t is None or not called(t, "contained_path") or len(t[4]) < 2:
            return False
        base = t[4][0][0] == "iter" and own(t[4][0][1], "paths")
        named = has(t[4][1], lambda x: x[0] == "sub" and tail(x[2]) and x[1][0] == "sub" and is_param(x[1][1], "path") and x[1][2] == ("const", "int", 0))
        return base and named

    def md(t) -> bool:
        return candidate(t) and has(t[4][1], lambda x: called(x, "with_suffix") and candidate(x[3]))

    def label(e):
        if e.kind == "iterend":
            out = [atom for atom, pol in facts_of(e.st) if pol and called(atom, "is_file")]
            return [("end", T.strip(e.term)), ("left", bool(out)), ("cut",)]
        if e.kind == "call" and e.ev.attr == "is_file":
            recv = T.strip(e.ev.recv)
            return ("asked", recv, truth(e.st, lambda t: t[0] == "isnone" and t[1] == recv))
        if e.kind == "call" and e.ev.attr == "with_suffix":
            recv = T.strip(e.ev.recv)
            return ("named", truth(e.st, lambda t: t[0] == "attr" and t[2] == "name" and t[1] == recv))
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "response"):
            return ("type", T.strip(e.ev.value), str(T.strip(e.ev.name)[2]).lower())
        return None

    func = ctx.anchor_func(rule, f"{SERVER}.try_file")
    if func is None:
        return
    laps = []

    def segment(path):
        laps.append(path)

    tr = ctx.trace(func, label, ctx.p.cls(SERVER), opaque=opaque_names(*opaque), restart="cut", segment=segment, cap=3)
    bad = None
    asked = set()
    for path in laps:
        if not any(x[0] == "end" and own(x[1], "paths") for x in path.labels):
            continue
        if any(x[1] for x in path.get("left")):
            bad = bad or ("a file that was found isn't served", path)
        none = truth(path.st, lambda t: t[0] == "isnone" and candidate(t[1]) and not md(t[1]))
        if any(x[1] is not True for x in path.get("named")):
            bad = bad or ("a path without a name gets a suffix", path)
        for x in path.get("asked"):
            if x[2] is not False:
                bad = bad or ("a path that isn't within the search path is considered", path)
            asked.add("md" if md(x[1]) else "file" if candidate(x[1]) else "other")
        if none is False and not any(candidate(x[1]) and not md(x[1]) for x in path.get("asked")):
            bad = bad or ("a candidate isn't considered", path)
    ctx.ob(rule, "candidates", bad is None and asked == {"md", "file"}, bad[0] if bad else "files aren't found in each search path", func.where, bad[1].show() if bad else ())

    bad = None
    kinds = set()
    for path in tr.ret:
        val = T.strip(path.val)
        if val[0] == "const" and val[2] is None:
            kinds.add("none")
            continue
        if answer(val, "render_markdown_file"):
            kinds.add("md")
            args = operands(val)
            if not args or not md(args[0]) or not is_param(args[1], "response"):
                bad = bad or ("something else is rendered", path)
            elif not truth(path.st, lambda t: called(t, "is_file") and t[3] == args[0]):
                bad = bad or ("something that isn't a file is rendered", path)
        elif answer(val, "read_binary"):
            kinds.add("file")
            args = operands(val)
            if not args or not candidate(args[0]) or md(args[0]):
                bad = bad or ("something else is served", path)
            elif not truth(path.st, lambda t: called(t, "is_file") and t[3] == args[0]):
                bad = bad or ("something that isn't a file is served", path)
            mime = truth(path.st, lambda t: t[0] in ("unpack", "sub") and t[2] in (0, ("const", "int", 0)) and "guess_type" in str(t[1]))
            if mime is None or mime != path.has("type"):
                bad = bad or ("the type isn't stated if it's known", path)
            for x in path.get("type"):
                if x[2] == "content-type" and not (x[1][0] in ("unpack", "sub") and has(x[1], lambda t: called(t, "guess_type") or t[0] == "call" and str(t[2]).endswith("guess_type"))):
                    bad = bad or ("the type isn't the file's", path)
        else:
            bad = bad or ("something else is served", path)
    ctx.ob(rule, "served", bad is None and kinds == {"none", "md", "file"}, bad[0] if bad else "files aren't served", func.where, bad[1].show() if bad else ())


def apps(ctx, rule) -> None:
    def is_app(t):
        return called(t, "get") and is_param(t[3], "apps") and the_path(t[4][0]) and len(t[4]) == 2 and is_param(t[4][1], "default_app")

    def label(e):
        if e.kind == "call" and e.ev.fterm is not None and T.contains(T.strip(e.ev.fterm), lambda t: is_param(t, "apps") or is_param(t, "default_app")):
            if e.ev.attr == "get":
                return None
            return ("app", T.strip(e.ev.fterm), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and e.ev.attr == "render":
            return ("render", tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "response"):
            return ("type", T.strip(e.ev.value))
        return None

    def check(path):
        val = T.strip(path.val)
        none = truth(path.st, lambda t: t[0] == "isnone" and is_app(t[1]))
        if none is None:
            none = truth(path.st, is_app)
            none = None if none is None else not none
        if none is None:
            return "it isn't known whether there's an application"
        ran = path.get("app")
        if none:
            return None if not ran and (val[0] == "const" and not val[2] or val[0] == "not" and val[1][0] == "isnone" and is_app(val[1][1])) else "a request without an application is answered"
        if len(ran) != 1 or not is_app(ran[0][1]):
            return "the application with that path isn't run once"
        if len(ran[0][2]) != 4 or not all(is_param(x, n) for x, n in zip(ran[0][2][1:], ("request", "response", "request_data"))):
            return "the application doesn't get the request"
        if not path.has("type"):
            return "the content's type isn't stated"
        if not path.has("render") or not is_param(path.get("render")[0][1][0], "stream"):
            return "the application's document isn't rendered"
        return None if val[0] == "const" and val[2] is True or val[0] == "not" and val[1][0] == "isnone" and is_app(val[1][1]) else "the document isn't served"

    each_return(ctx, rule, "app", "runtimepy.net.server.html.html_handler", None, check, label=label, opaque=("get_html",))

    # Data.
    def label2(e):
        if e.kind == "call" and (e.ev.name or "").endswith("encode_json"):
            return ("encode", tuple(T.strip(x) for x in e.ev.args))
        return None

    def sent_json(path):
        got = path.get("encode")
        if len(got) != 1 or len(got[0][1]) != 3 or not is_param(got[0][1][0], "stream") or not is_param(got[0][1][1], "response"):
            return "the data isn't sent once"
        return None

    each_return(ctx, rule, "json", "runtimepy.net.server.json.json_handler", None, sent_json, label=label2, opaque=("encode_json", "path_has_part"))

    def encode(path):
        return None if path.has("dump") and path.has("type") else "the data isn't written as JSON"

    def label3(e):
        if e.kind == "store" and e.ev.kind == "sub" and is_param(T.strip(e.ev.base), "response") and "content-type" in str(T.strip(e.ev.name)).lower() and "application/" in str(e.ev.value):
            return ("type",)
        if e.kind == "call" and (e.ev.name or e.ev.attr or "").endswith(("dump", "encode", "dumps", "write", "encode_stream")) and "Encoder" in str(dict(e.ev.kwargs).get("cls", e.ev.args)) and T.contains(tuple(T.strip(x) for x in e.ev.args), lambda t: is_param(t, "data")):
            return ("dump",)
        return None

    each_return(ctx, rule, "encode", "runtimepy.net.server.json.encode_json", None, encode, label=label3)


def data(ctx, rule) -> None:
    json = "runtimepy.net.server.json"

    def a_part(t):
        return t is not None and t[0] == "iter" and is_param(t[1], "paths")

    def is_data(t):
        return is_param(t, "data") or t[0] == "phi" and t[2] == "data" or t[0] == "phi"

    def label(e):
        if e.kind == "store" and e.ev.kind == "name":
            val = T.strip(e.ev.value)
            if val[0] == "sub" and a_part(val[2]):
                base = val[1]
                call = truth(e.st, lambda t: called(t, "callable") and is_data(t[4][0]))
                return ("step", base[0] == "call", call, truth(e.st, lambda t: t[0] == "isinstance" and t[1] == base), truth(e.st, lambda t: t[0] == "in" and a_part(t[1]) and t[2] == base))
        if e.kind == "iterend" and is_param(T.strip(e.term), "paths"):
            return [("end", T.strip(e.term)), ("part", truth(e.st, a_part)), ("cut",)]
        return None

    func = ctx.anchor_func(rule, f"{json}.traverse_dict")
    if func is None:
        return
    laps = []

    def segment(path):
        laps.append(path)

    tr = ctx.trace(func, label, None, restart="cut", segment=segment, cap=3)
    bad = None
    steps = 0
    for path in laps:
        if not path.has("end"):
            continue
        got = path.get("step")
        if path.get("part")[0][1] is False:
            if got:
                bad = bad or ("an empty part is looked up", path)
            continue
        if len(got) != 1 or path.get("part")[0][1] is not True:
            bad = bad or ("a part isn't looked up once", path)
            continue
        steps += 1
        if got[0][3] is not True or got[0][4] is not True:
            bad = bad or ("a part is looked up where it isn't", path)
        if got[0][2] is None or got[0][2] != got[0][1]:
            bad = bad or ("data that's provided by a function isn't obtained", path)
    ctx.ob(rule, "parts", bad is None and steps > 0, bad[0] if bad else "the data isn't looked up", func.where, bad[1].show() if bad else ())
    bad = None
    for path in tr.ret:
        val = T.strip(path.val)
        if path.val is None or val[0] == "const":
            bad = bad or ("the data isn't returned", path)
        if val[0] == "call" and val[2] == "?" or val[0] == "dict":
            continue
        if truth(path.st, lambda t: called(t, "callable") and t[4] and t[4][0] == val) is not False:
            bad = bad or ("data that's provided by a function isn't obtained", path)
    ctx.ob(rule, "found", bad is None and bool(tr.ret), bad[0] if bad else "never returns", func.where, bad[1].show() if bad else ())

    def traversed(t):
        return called(t, "traverse_dict") and is_param(t[4][0], "data") and has(t[4][1:], lambda x: called(x, "parse_path_parts") or x[0] == "gen" and x[1].endswith("parse_path_parts")) and has(t[4][1:], the_path)

    def label2(e):
        if e.kind == "call" and (e.ev.name or "").endswith("encode_json"):
            return ("encode", T.strip(e.ev.args[2]))
        return None

    def raw(path):
        got = path.get("encode")
        table = truth(path.st, lambda t: t[0] == "isinstance" and traversed(t[1]))
        if len(got) != 1 or table is None:
            return "the data isn't sent once"
        if table:
            return None if traversed(got[0][1]) else "something else is sent"
        return None if got[0][1][0] == "dict" and has(got[0][1], traversed) and has(got[0][1], lambda t: t == text("__raw__")) else "data that isn't a table isn't sent"

    each_return(ctx, rule, "data", f"{json}.json_handler", None, raw, label=label2, opaque=("encode_json", "traverse_dict", "parse_path_parts"))

    def default(path):
        val = T.strip(path.val)
        fn = truth(path.st, lambda t: called(t, "callable") and is_param(t[4][0], "o"))
        if fn is None:
            return "functions aren't told apart"
        return None if (is_param(val, "o") if not fn else val[0] == "call" and val[2] == "?") else "the value isn't provided"

    each_return(ctx, rule, "encoder", f"{json}.Encoder.default", None, default)

    def parted(t):
        return t is not None and t[0] == "sub" and tail(t[2]) and called(t[1], "split") and is_param(t[1][3], "path") and t[1][4][0] == text("/")

    def part_of(path):
        val = T.strip(path.val)
        if val[0] == "in" and is_param(val[1], "key") and parted(val[2]):
            return None
        known = truth(path.st, lambda t: t[0] == "in" and is_param(t[1], "key") and parted(t[2]))
        return None if known is not None and val[0] == "const" and val[2] is known else "not whether the path has that part"

    each_return(ctx, rule, "part", "runtimepy.util.path_has_part", None, part_of)

    # What follows the key.
    def an_item(t):
        return t is not None and t[0] == "iter" and parted(t[1])

    def label3(e):
        if e.kind == "yield":
            return ("yield", an_item(T.strip(e.term)), truth(e.st, lambda t: t[0] == "phi") or ("const", "bool", True) in e.st.env.values() or None)
        if e.kind == "store" and e.ev.kind == "name" and T.strip(e.ev.value)[0] == "const":
            return ("mark", T.strip(e.ev.value)[2])
        return None

    outcomes = set()

    def follows(path):
        found = truth(path.st, lambda t: t[0] == "phi")
        same = truth(path.st, lambda t: t[0] == "cmp" and any(an_item(x) for x in t[2:4]) and any(is_param(x, "key") for x in t[2:4]))
        got = path.get("yield")
        if any(not x[1] for x in got) or len(got) > 1:
            return "something else is provided"
        marks = [x[1] for x in path.get("mark") if isinstance(x[1], bool)]
        if got:
            outcomes.add("yield")
            if not got[0][2] or not path.has("cut"):
                return "what precedes the key is provided"
        elif found:
            return "what follows the key isn't provided"
        elif same is None:
            return "the key isn't looked for"
        elif same:
            outcomes.add("mark")
            if marks[-1:] != [True]:
                return "what follows the key isn't provided"
        elif marks[-1:] == [True]:
            return "what precedes the key is provided"
        return None

    each_lap(ctx, rule, "follows", "runtimepy.util.parse_path_parts", None, parted, follows, label3)
    ctx.ob(rule, "outcomes", outcomes == {"yield", "mark"}, "parts of the path aren't provided", "runtimepy/util.py")

    def contents(path):
        ok = has(T.strip(path.val), lambda t: called(t, "read") and t[3] is not None and not t[4] and "open" in str(t[3]) and has(t[3], lambda x: is_param(x, "path")))
        return None if ok and has(T.strip(path.val), lambda t: t == text("rb")) else "not the file's content"

    each_return(ctx, rule, "content", "runtimepy.util.read_binary", None, contents)


def commands(ctx, rule) -> None:
    def first(t):
        return t is not None and t[0] == "sub" and is_param(t[1], "args") and t[2] == ("const", "int", 0)

    def table(t):
        return t is not None and (t[0] in ("global", "ext", "attr") and "GLOBAL" in str(t) or "GLOBAL" in str(t))

    def label(e):
        if e.kind == "store" and e.ev.kind == "sub":
            return ("put", T.strip(e.ev.name), T.strip(e.ev.value))
        if e.kind == "call" and e.ev.attr == "command":
            return ("command", T.strip(e.ev.recv), tuple(T.strip(x) for x in e.ev.args))
        if e.kind == "call" and (e.ev.name or "").endswith("encode_json"):
            return ("encode", tuple(T.strip(x) for x in e.ev.args))
        return None

    def is_rest(t):
        return called(t, "join") and t[3] == text(" ") and t[4][0][0] == "sub" and is_param(t[4][0][1], "args") and tail(t[4][0][2])

    def check(path):
        empty = truth(path.st, lambda t: is_param(t, "args"))
        there = truth(path.st, lambda t: t[0] == "in" and first(t[1]) and table(t[2]))
        ran = path.get("command")
        puts = {}
        for x in path.get("put"):
            puts[x[1][2] if x[1][0] == "const" else None] = x[2]
        if len(path.get("encode")) != 1 or path.get("encode")[0] != path.labels[-1]:
            return "the outcome isn't reported once, in the end"
        enc = path.get("encode")[0][1]
        if not is_param(enc[0], "stream") or not is_param(enc[1], "response"):
            return "the outcome isn't reported to the client"
        if there is not None and not empty:
            return "a missing name is looked up"
        if empty is not False and there:
            if len(ran) != 1 or ran[0][1][0] != "sub" or not table(ran[0][1][1]) or not first(ran[0][1][2]):
                return "the command isn't run once in the environment named"
            if len(ran[0][2]) != 1 or not is_rest(ran[0][2][0]):
                return "the command isn't the rest of the path"
            ok = puts.get("success")
            if ok is None or ok[0] != "attr" or ok[2] != "success" or not called(ok[1], "command"):
                return "the command's success isn't reported"
            msg = puts.get("message")
            return None if msg is not None and called(msg, "str") and called(msg[4][0], "command") else "the command's message isn't reported"
        if ran:
            return "a command is run in an environment that doesn't exist"
        if there is None and empty is not False:
            return "it isn't known whether the environment exists"
        ok = puts.get("success")
        lit = str(enc[2])
        return None if ok is not None and ok[0] == "const" and ok[2] is False or ok is None and "False" in lit else "a command that isn't run succeeds"

    each_return(ctx, rule, "command", f"{SERVER}.handle_command", SERVER, check, label=label, opaque=("command", "encode_json"))

    def post(path):
        val = T.strip(path.val)
        known = truth(path.st, lambda t: origin(t) and t[0] == "attr")
        ran = [x for x in path.get("run") if x[1] == "handle_command"]
        if known is False:
            return None if not ran else "a request without a path runs a command"
        if len(ran) != 1 or not is_param(ran[0][2][1], "response"):
            return "the command isn't run once"
        arg = ran[0][2][2]
        if not has(arg, the_path) or not has(arg, lambda t: t[0] == "attr" and t[2] == "parts") or arg[0] != "sub" or not tail(arg[2]):
            return "the command isn't the request's path"
        return None if has(val, lambda t: called(t, "getvalue")) else "the outcome isn't returned"

    each_return(ctx, rule, "post", f"{SERVER}.post_handler", SERVER, post, label=label_server, opaque=("handle_command", "log"))
