"""C15: remote peers only reach files inside of the configured roots."""

from __future__ import annotations

import ast

from sa import terms as T
from sa.props.common import concrete, facts_of

LEVEL = "proof"
EXPLANATION = (
    "Taint analysis over every path of every function that receives a request (TFTP file names, HTTP request targets): a value derived from a request only "
    "reaches a file-system operation (or a coroutine/generator that performs one) where the path holds the fact that its normalized form lies inside of a "
    "directory that doesn't depend on the request. Refused TFTP requests are answered with an error on every path."
)

ENDPOINT = "runtimepy.net.udp.tftp.endpoint.TftpEndpoint"
TFTP = "runtimepy.net.udp.tftp.base.BaseTftpConnection"
SERVER = "runtimepy.net.server.RuntimepyServerConnection"
REQUESTS = {"PathMaybeQuery", "RequestHeader", "RequestTarget"}

# Operations that touch the file system.
METHODS = {
    "open", "is_file", "is_dir", "exists", "stat", "lstat", "read_bytes", "read_text", "write_bytes", "write_text", "unlink", "touch", "mkdir", "rmdir",
    "rename", "replace", "iterdir", "glob", "rglob", "walk", "symlink_to", "hardlink_to", "chmod", "is_symlink", "owner", "readlink",
}
FUNCTIONS = {
    "open", "io.open", "os.open", "os.stat", "os.listdir", "os.scandir", "os.walk", "os.remove", "os.unlink", "os.rename", "os.replace", "os.mkdir",
    "os.makedirs", "os.path.exists", "os.path.isfile", "os.path.isdir", "os.path.getsize", "os.access", "shutil.copy", "shutil.copyfile", "shutil.move",
    "aiofiles.open", "vcorelib.paths.find_file", "vcorelib.paths.info.FileInfo.from_file", "vcorelib.paths.hashing.file_md5_hex",
}
NORMAL = {"abspath", "normpath", "realpath", "resolve", "absolute"}
WRAP = NORMAL | {"Path", "str", "fspath", "normalize", "as_posix"}


def peel(term):
    """Remove conversions that don't change which file is meant."""
    while True:
        if term[0] in ("call", "new") and term[2].split(".")[-1] in WRAP:
            if term[0] == "new" or term[3] is None or not is_path_method(term):
                args = term[3] if term[0] == "new" else term[4]
                if len(args) == 1:
                    term = args[0]
                    continue
            elif not term[4]:
                term = term[3]
                continue
        if term[0] in ("await", "fstr") and len(term) > 1 and isinstance(term[1], tuple) and term[0] == "await":
            term = term[1]
            continue
        return term


def is_path_method(term) -> bool:
    return term[2].split(".")[-1] in ("resolve", "absolute", "as_posix")


def normalized(term) -> bool:
    """Determine if '..' parts were resolved."""
    while True:
        if term[0] in ("call", "new"):
            name = term[2].split(".")[-1]
            if name in ("abspath", "normpath", "realpath", "resolve"):
                return True
            if name in WRAP:
                args = term[3] if term[0] == "new" else term[4]
                if len(args) == 1:
                    term = args[0]
                    continue
                if term[0] == "call" and term[3] is not None:
                    term = term[3]
                    continue
        return False


class Taint:
    """Values that are derived from a request."""

    def __init__(self, sources) -> None:
        self.sources = sources

    def __call__(self, term) -> bool:
        return term is not None and T.contains(term, self.sources)


def guards(st):
    """Containment facts of a path: (contained, directory)."""
    for atom, pol in facts_of(st):
        if not pol:
            if atom[0] == "cmp" and atom[1] == "!=":
                atom = ("cmp", "==", atom[2], atom[3])
            else:
                continue
        if atom[0] == "call" and atom[2].split(".")[-1] == "is_relative_to" and atom[3] is not None and atom[4]:
            yield atom[3], atom[4][0]
        elif atom[0] == "in" and atom[2][0] == "attr" and atom[2][2] == "parents":
            yield atom[2][1], atom[1]
        elif atom[0] == "in" and atom[2][0] in ("list", "tuple") and False:
            continue
        elif atom[0] == "cmp" and atom[1] in ("==", "is"):
            for a, b in ((atom[2], atom[3]), (atom[3], atom[2])):
                if a[0] == "call" and a[2].split(".")[-1] == "commonpath" and a[4] and a[4][0][0] in ("list", "tuple"):
                    for item in a[4][0][1]:
                        if peel(item) != peel(b):
                            yield item, b
        elif atom[0] == "call" and atom[2].split(".")[-1] == "startswith" and atom[3] is not None and atom[4]:
            prefix = atom[4][0]
            if T.contains(prefix, lambda t: t == ("const", "str", "/") or t[0] == "ext" and t[1] in ("os.sep", "os.path.sep")):
                bases = [t for t in T.walk(prefix) if t[0] in ("attr", "iter", "call", "param")]
                for base in bases[:4]:
                    yield atom[3], base


def absolute_dirs(ctx, rule: str) -> bool:
    """The server's search paths are made absolute when they're added."""
    cls = ctx.anchor_cls(rule, SERVER)
    good = True
    count = 0
    for klass in concrete(ctx.p, SERVER) if cls is not None else []:
        for func in klass.methods.values():
            found: list = []

            def label(e):
                if e.kind == "call" and e.ev.recv is not None and e.ev.attr in ("append", "insert", "extend") and T.path(T.strip(e.ev.recv)) == "self.paths":
                    found.append((e.where, e.ev.args[-1] if e.ev.args else None))
                if e.kind == "store" and e.ev.kind == "attr" and e.ev.name == "paths" and e.ev.base[0] == "self":
                    found.append((e.where, e.ev.value if e.ev.value[0] != "list" or e.ev.value[1] else None))
                return None

            if any(isinstance(n, ast.Attribute) and n.attr == "paths" for n in ast.walk(func.node)):
                ctx.trace(func, label, klass, cap=1)
            for where, value in found:
                if value is None:
                    continue
                count += 1
                if not normalized(T.strip(value)):
                    good = False
                    ctx.ob(rule, f"{klass.qual}.{func.name}/search", False, "a search path isn't made absolute", where)
    ctx.floor(rule, "search path registrations", count, 1)
    return good


def run(ctx) -> None:
    R1 = ctx.rule("R1", "A path derived from a request only reaches a file-system operation when it's known to be inside of a request-independent directory.")
    R2 = ctx.rule("R2", "A TFTP request either starts a transfer or is answered with an error.")
    R3 = ctx.rule("R3", "HTTP search paths are absolute, so that containment can be decided.")
    R4 = ctx.rule("R4", "TFTP read and write requests of a peer are only passed to the endpoint that checks them.")

    absolute_dirs(ctx, R3)

    stats = {"sinks": 0}

    def study(func, cls, sources, opaque=None):
        taint = Taint(sources)
        bad: dict = {}

        def inside(target, st, labels):
            found = list(guards(st)) + [x[1:] for x in labels if x[0] == "rel"]
            for item, directory in found:
                item, directory, want = T.strip(item), T.strip(directory), T.strip(target)
                if taint(directory) or peel(item) != peel(want):
                    continue
                if not normalized(item):
                    continue
                if normalized(directory) or T.path(peel(directory)) == "self.paths[*]":
                    return True
            return False

        def sink(e):
            ev = e.ev
            targets = []
            if e.kind == "coro":
                targets = [x for x in list(ev.args) + list(ev.kwargs.values()) if path_like(x)]
            elif ev.recv is not None and ev.attr in METHODS and not (ev.func is not None and not ev.func.is_async and ev.func.module.name.startswith("runtimepy")):
                targets = [ev.recv]
                if ev.attr in ("rename", "replace", "symlink_to") and ev.args and ev.recv[0] != "const":
                    targets.append(ev.args[0])
                if ev.recv[0] in ("ext", "class"):
                    targets = list(ev.args[:2])
            elif ev.name in FUNCTIONS or ev.attr in ("from_file",):
                targets = list(ev.args[:2])
            return [x for x in targets if taint(x)]

        def path_like(term) -> bool:
            return T.contains(term, lambda t: t[0] in ("new", "call") and t[2].split(".")[-1] in ("Path", "joinpath", "with_suffix", "abspath", "resolve", "with_name") or t[0] == "bin" and t[1] == "/")

        def label(e):
            if e.kind == "after" and e.ev.attr == "relative_to" and e.ev.recv is not None and e.ev.args:
                return ("rel", T.strip(e.ev.recv), T.strip(e.ev.args[0]))
            if e.kind in ("call", "coro"):
                if e.kind == "coro" and getattr(e.ev, "awaited", False) and e.ev.func is not None and not (opaque and opaque(e.it, e.ev)):
                    return None
                out = []
                for target in sink(e):
                    stats["sinks"] += 1
                    if not inside(target, e.st, e.st.mon):
                        bad.setdefault((e.where, e.ev.attr or e.ev.name), (T.path(T.strip(target)), e.st))
                        out.append(("unsafe", e.ev.attr or e.ev.name))
                if e.kind == "call" and e.ev.attr == "error_sender":
                    out.append(("error",))
                if e.kind == "call" and e.ev.attr in ("create_task", "ensure_future") or e.ev.name in ("asyncio.create_task", "asyncio.ensure_future"):
                    out.append(("task",))
                return out or None
            return None

        def skip(it, ev):
            # Nothing derived from a request can be involved.
            if opaque is not None and opaque(it, ev):
                return True
            return not (ev.recv is not None and ev.recv[0] == "self") and not any(x is not None and taint(x) for x in [ev.recv, *ev.args, *ev.kwargs.values()])

        t = ctx.trace(func, label, cls, cap=1, opaque=skip)
        key = f"{cls.qual}.{func.name}" if cls is not None else func.qual
        for (where, what), (text, st) in bad.items():
            ctx.ob(R1, f"{key}/{what}", False, f"{text} isn't known to be inside of a root directory when reaching {what}", where, [f"{w}: {x}" for w, x in st.trace][:10])
        if not bad:
            ctx.ob(R1, key, True)
        return t

    def repeated(st) -> bool:
        """Whether the request is known to be one that's being serviced."""
        return any(atom[0] == "in" and atom[2][0] == "attr" and atom[2][1][0] == "self" and pol for atom, pol in facts_of(st))

    # TFTP endpoints.
    entries = 0
    seen = set()
    if ctx.anchor_cls(R1, ENDPOINT) is not None:
        for cls in concrete(ctx.p, ENDPOINT):
            for name in sorted({n for c in ctx.p.mro_classes(cls) for n in c.methods}):
                func = ctx.p.lookup(cls, name)
                if func is None or (func.qual in seen and func.cls is not cls):
                    continue
                seen.add(func.qual)
                params = strings(func)
                if not params or name.startswith("__"):
                    continue
                entries += 1
                t = study(func, cls, lambda t, q=func.qual, ps=params: t[0] == "param" and t[1] == q and t[2] in ps)
                if name in ("handle_read_request", "handle_write_request"):
                    silent = [p for p in t.ret if not p.has("task") and not p.has("error") and not repeated(p.st)]
                    both = [p for p in t.ret if p.has("task") and p.has("error")]
                    ctx.ob(R2, f"{cls.qual}.{name}", not silent, "a request is neither serviced nor refused", func.where, silent[0].show() if silent else ())
                    ctx.ob(R2, f"{cls.qual}.{name}/both", not both, "a refused request is serviced", func.where, both[0].show() if both else ())
                    ctx.ob(R2, f"{cls.qual}.{name}/serves", any(p.has("task") for p in t.ret), "no request is ever serviced", func.where)
        for name in ("handle_read_request", "handle_write_request"):
            ctx.anchor_func(R2, f"{ENDPOINT}.{name}")

    # TFTP request handlers.
    if ctx.anchor_cls(R4, TFTP) is not None:
        for cls in concrete(ctx.p, TFTP):
            for name in ("_handle_rrq", "_handle_wrq", "process_datagram"):
                func = ctx.p.lookup(cls, name)
                if func is None or (func.qual, "r4") in seen:
                    continue
                seen.add((func.qual, "r4"))
                entries += 1
                raw = [a.arg for a in func.node.args.args[1:2]]
                passed = [0]

                def count(it, ev):
                    if ev.func is not None and ev.func.cls is not None and ev.func.cls.qual == ENDPOINT:
                        passed[0] += 1
                    return ev.attr in ("handle_read_request", "handle_write_request", "endpoint", "parse_filename_mode", "send_error") or ev.name.endswith(".parse_filename_mode")

                study(func, cls, lambda t, q=func.qual, ps=raw: t[0] == "param" and t[1] == q and t[2] in ps or t[0] == "call" and t[2].endswith("parse_filename_mode"), count)
                ctx.ob(R4, f"{cls.qual}.{name}", True)

    # HTTP handlers.
    for func in ctx.p.all_functions():
        args = func.node.args
        params = {a.arg for a in args.args + args.kwonlyargs if a.annotation is not None and any(isinstance(n, (ast.Name, ast.Attribute)) and (n.id if isinstance(n, ast.Name) else n.attr) in REQUESTS for n in ast.walk(a.annotation))}
        if not params:
            continue
        entries += 1
        study(func, func.cls, lambda t, q=func.qual, ps=params: t[0] == "param" and t[1] == q and t[2] in ps)

    ctx.floor(R1, "request handlers", entries, 8)
    ctx.floor(R1, "file-system operations on request-derived paths", stats["sinks"], 6)


def strings(func) -> set:
    """Names of the string parameters of a function."""
    out = set()
    for arg in func.node.args.args[1:] + func.node.args.kwonlyargs:
        if arg.annotation is not None and any(isinstance(n, ast.Name) and n.id == "str" or isinstance(n, ast.Constant) and n.value == "str" for n in ast.walk(arg.annotation)):
            out.add(arg.arg)
    return out
