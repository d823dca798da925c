"""
Typestate dataflow over value-numbered states (property simulation).

The engine interprets a function's syntax tree over an abstract domain: a state
is (variable -> value number, attribute -> value number, branch literals,
monitor state).  States that agree are merged at every join; loops are iterated
to a fixpoint with loop-varying values widened to phi terms; calls, awaits,
asserts and yields have exception successors, and try/finally/with have their
real unwinding semantics.  Callees whose source is in the program are analysed
in place (context-sensitive), so moving code into a helper doesn't change what
a rule sees.  Rules are monitors: finite automata stepped by calls, stores,
awaits, yields and exits.
"""

from __future__ import annotations

import ast
import builtins
import sys
from typing import Callable, Optional

from sa import terms as T
from sa.model import (
    EMPTY,
    AnalysisError,
    Class,
    Func,
    FuncNode,
    Program,
    dotted,
)

sys.setrecursionlimit(20000)

ANY = "*"
CANCEL = "asyncio.CancelledError"
GENEXIT = "GeneratorExit"

BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//",
    ast.Mod: "%", ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>",
    ast.BitOr: "|", ast.BitXor: "^", ast.BitAnd: "&", ast.MatMult: "@",
}
COMMUTATIVE = {"*", "|", "^", "&"}

NO_RAISE_FUNCS = {
    "len", "isinstance", "issubclass", "bool", "str", "repr", "list", "dict",
    "set", "tuple", "print", "type", "id", "super", "iter", "enumerate", "zip",
    "min", "max", "range", "sorted", "reversed", "hasattr", "callable", "hash",
    "frozenset", "any", "all", "sum", "abs", "vars", "cast", "typing.cast",
    "asyncio.create_task", "asyncio.Event", "asyncio.Queue", "asyncio.Lock",
    "asyncio.Semaphore", "asyncio.get_running_loop", "asyncio.get_event_loop",
    "copy.copy", "contextlib.suppress", "contextlib.ExitStack",
    "contextlib.AsyncExitStack", "asyncio.timeout", "asyncio.shield",
    "asyncio.wait_for", "asyncio.gather", "asyncio.wait", "asyncio.sleep",
    "collections.defaultdict", "io.BytesIO", "io.StringIO", "logging.getLogger",
    "vcorelib.asyncio.log_exceptions", "functools.partial", "itertools.chain",
    "vcorelib.math.default_time_ns", "vcorelib.math.metrics_time_ns",
    "time.perf_counter_ns", "time.time_ns", "round",
    "vcorelib.math.rate_str", "vcorelib.math.nano_str",
}
NO_RAISE_METHODS = {
    "append", "add", "discard", "clear", "update", "items", "keys", "values",
    "get", "setdefault", "extend", "insert", "copy", "set", "is_set", "done",
    "cancel", "put_nowait", "info", "debug", "warning", "error", "exception",
    "log", "strip", "split", "startswith", "endswith", "join", "lower",
    "upper", "format", "release", "is_file", "is_dir", "getvalue", "tell",
    "time", "count", "replace", "task_done", "empty", "qsize", "partition",
    "rpartition", "splitlines", "addHandler", "removeHandler", "popleft",
    "increment", "removeprefix", "removesuffix",
}


def is_trivial(func: Func) -> bool:
    """A hook: an overridable method with no behaviour of its own."""
    if func.is_abstract:
        return True
    body = func.node.body
    if not isinstance(body, list):
        return False
    body = [
        s
        for s in body
        if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
        and not isinstance(s, (ast.Pass, ast.Delete))
    ]
    if not body:
        return True
    if len(body) == 1:
        stmt = body[0]
        if isinstance(stmt, ast.Raise):
            exc = stmt.exc
            name = dotted(exc.func if isinstance(exc, ast.Call) else exc) if exc else None
            return name == "NotImplementedError"
        if isinstance(stmt, ast.Return):
            return stmt.value is None or isinstance(stmt.value, ast.Constant)
    return False


class State:
    __slots__ = ("env", "heap", "facts", "mon", "epoch", "held", "val", "pend", "trace", "_key")

    def __init__(self, env, heap, facts, mon, epoch, held, val, pend, trace):
        self.env = env
        self.heap = heap
        self.facts = facts
        self.mon = mon
        self.epoch = epoch
        self.held = held
        self.val = val
        self.pend = pend
        self.trace = trace
        self._key = None

    def with_(self, **kw) -> "State":
        return State(
            kw.get("env", self.env),
            kw.get("heap", self.heap),
            kw.get("facts", self.facts),
            kw.get("mon", self.mon),
            kw.get("epoch", self.epoch),
            kw.get("held", self.held),
            kw.get("val", self.val),
            kw.get("pend", self.pend),
            kw.get("trace", self.trace),
        )

    def set(self, frame, name, term) -> "State":
        env = dict(self.env)
        env[(frame, name)] = term
        return self.with_(env=env)

    @property
    def key(self):
        if self._key is None:
            self._key = (
                frozenset(self.env.items()),
                frozenset(self.heap.items()),
                self.facts,
                self.mon,
                self.epoch,
                self.held,
                self.val,
                self.pend,
            )
        return self._key

    def known(self, term, polarity: bool) -> bool:
        """Determine if a literal is known on this path."""
        atom, pol = norm(term)
        if atom is None:
            return pol == polarity
        if not polarity:
            pol = not pol
        return (atom, pol) in self.facts

    def known_path(self, text: str, polarity: bool) -> bool:
        """Determine if any literal with this access path is known."""
        return any(pol == polarity and T.path(atom) == text for atom, pol in self.facts)


class Out:
    """Outcomes of executing a block."""

    __slots__ = ("normal", "ret", "exc", "brk", "cont")

    def __init__(self):
        self.normal: list[State] = []
        self.ret: list[State] = []
        self.exc: list[State] = []
        self.brk: list[State] = []
        self.cont: list[State] = []

    def extend(self, other: "Out", *kinds: str) -> None:
        for kind in kinds or ("normal", "ret", "exc", "brk", "cont"):
            getattr(self, kind).extend(getattr(other, kind))


class Frame:
    """A function activation."""

    def __init__(self, func: Func, cls: Optional[Class], uid: str, self_term, depth: int, parent: Optional["Frame"], stack: tuple, lexical: Optional["Frame"] = None, hook: Optional[Callable] = None):
        self.func = func
        self.cls = cls
        self.uid = uid
        self.self_term = self_term
        self.depth = depth
        self.parent = parent
        self.stack = stack
        self.lexical = lexical
        self.hook = hook
        self.nonlocals: set[str] = set()
        self.locals: set[str] = local_names(func)
        for node in ast.walk(func.node):
            if isinstance(node, (ast.Nonlocal, ast.Global)) and _owner_is(func.node, node):
                self.nonlocals.update(node.names)

    @property
    def module(self):
        return self.func.module


def _owner_is(fnode, target) -> bool:
    stack = list(fnode.body) if isinstance(fnode.body, list) else []
    while stack:
        cur = stack.pop()
        if cur is target:
            return True
        if isinstance(cur, (*FuncNode, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(cur))
    return False


def local_names(func: Func) -> set[str]:
    names = {a.arg for a in func.params()}
    args = func.node.args
    names.update(a.arg for a in args.kwonlyargs)
    if args.vararg:
        names.add(args.vararg.arg)
    if args.kwarg:
        names.add(args.kwarg.arg)
    if isinstance(func.node, ast.Lambda):
        return names
    stack = list(func.node.body)
    while stack:
        cur = stack.pop()
        if isinstance(cur, (*FuncNode, ast.ClassDef)):
            names.add(cur.name)
            continue
        if isinstance(cur, ast.Lambda):
            continue
        if isinstance(cur, ast.Name) and isinstance(cur.ctx, (ast.Store, ast.Del)):
            names.add(cur.id)
        elif isinstance(cur, ast.ExceptHandler) and cur.name:
            names.add(cur.name)
        elif isinstance(cur, (ast.Import, ast.ImportFrom)):
            pass
        stack.extend(ast.iter_child_nodes(cur))
    for node in ast.walk(func.node):
        if isinstance(node, (ast.Nonlocal, ast.Global)) and _owner_is(func.node, node):
            names -= set(node.names)
    return names


class CallEv:
    """A call event."""

    def __init__(self, node, name, func, recv, attr, args, kwargs, frame, awaited, starred):
        self.node = node
        self.name: str = name
        self.func: Optional[Func] = func
        self.recv = recv
        self.attr: Optional[str] = attr
        self.args = args
        self.kwargs = kwargs
        self.frame: Frame = frame
        self.awaited = awaited
        self.starred = starred
        self.term = None
        self.fterm = None

    def arg(self, index: int, name: str = None):
        if name is not None and name in self.kwargs:
            return self.kwargs[name]
        return self.args[index] if index < len(self.args) else None

    def param(self, name: str):
        """Get an argument by the callee's parameter name."""
        if name in self.kwargs:
            return self.kwargs[name]
        if self.func is not None:
            params = [p.arg for p in self.func.params()]
            if self.func.cls is not None and not self.func.is_static:
                params = params[1:]
            if name in params and params.index(name) < len(self.args):
                return self.args[params.index(name)]
        return None

    @property
    def where(self) -> str:
        return f"{self.frame.module.rel}:{self.node.lineno}"

    @property
    def text(self) -> str:
        return f"{T.path(self.recv) + '.' if self.recv is not None else ''}{self.attr or self.name}"


class StoreEv:
    """A store event (attribute, subscript or delete)."""

    def __init__(self, node, kind, base, name, value, frame, aug=None):
        self.node = node
        self.kind = kind  # 'attr' | 'sub' | 'delattr' | 'delsub' | 'name'
        self.base = base
        self.name = name
        self.value = value
        self.frame = frame
        self.aug = aug

    @property
    def where(self) -> str:
        return f"{self.frame.module.rel}:{self.node.lineno}"

    @property
    def text(self) -> str:
        if self.kind in ("attr", "delattr"):
            return f"{T.path(self.base)}.{self.name}"
        return f"{T.path(self.base)}[{T.path(self.name)}]"


class Monitor:
    """A rule automaton. The default does nothing."""

    max_depth = 6
    assert_raises = True
    sub_raises = False
    yield_raises = True

    def init(self):
        return ()

    def opaque(self, it: "Interp", ev: CallEv) -> bool:
        """Return True to treat a resolvable callee as a primitive event."""
        return False

    def raises(self, it: "Interp", ev: CallEv) -> Optional[bool]:
        return None

    def on_call(self, it, st: State, ev: CallEv):
        return None

    def after_call(self, it, st: State, ev: CallEv):
        return None

    def on_store(self, it, st: State, ev: StoreEv):
        return None

    def on_await(self, it, st: State, term, node, frame):
        return None

    def on_yield(self, it, st: State, term, node, frame):
        return None

    def on_enter(self, it, st: State, term, node, frame):
        return None

    def on_exit(self, it, st: State, term, node, frame, kind):
        return None

    def on_raise(self, it, st: State, exc, node, frame):
        return None

    def on_handler(self, it, st: State, names, node, frame):
        return None

    def on_loop(self, it, st: State, iterm, empty: bool, node, frame):
        return None

    def on_iter_end(self, it, st: State, iterm, node, frame):
        return None

    def on_sub(self, it, st: State, base, idx, node, frame):
        return None

    def on_return(self, it, st: State, term, node, frame):
        return None


# Classes whose instances aren't always true: the constructor argument that
# decides (position, name), or None.
FALSY: dict = {}


def learn_falsy(program: Program) -> None:
    """Find classes whose instances define their own truth value."""
    FALSY.clear()
    for qual, cls in program.classes.items():
        meth = program.lookup(cls, "__bool__")
        if meth is None:
            if program.lookup(cls, "__len__") is not None or any(x in ("dict", "list", "set", "collections.UserDict", "collections.UserList", "int", "str", "bytes") or str(x).startswith(("UserDict", "collections.UserDict")) for x in cls.base_names()):
                FALSY[qual] = None
            continue
        FALSY[qual] = None
        body = [x for x in meth.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
        if len(body) == 1 and isinstance(body[0], ast.Return) and isinstance(body[0].value, ast.Attribute) and isinstance(body[0].value.value, ast.Name) and "__init__" not in cls.methods:
            names = [x.target.id for x in cls.node.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
            if body[0].value.attr in names:
                FALSY[qual] = (names.index(body[0].value.attr), body[0].value.attr)


def norm(term):
    """
    Normalise a condition to (atom, polarity), or (None, bool) if constant.
    """
    tag = term[0]
    if tag == "not":
        atom, pol = norm(term[1])
        return atom, not pol
    if tag == "const":
        return None, bool(term[2])
    if tag == "bool":
        return norm(term[1])
    if tag == "new" and term[2] in FALSY:
        spec = FALSY[term[2]]
        if spec is not None:
            value = term[3][spec[0]] if spec[0] < len(term[3]) else dict(term[4]).get(spec[1])
            if value is not None:
                return norm(value)
        return term, True
    if tag in ("new", "closure", "func", "class", "bound", "lambda"):
        return None, True
    if tag in ("tuple", "fstr") and term[1] and tag == "tuple":
        return None, True
    if tag == "isnone":
        inner = term[1]
        if inner[0] == "const":
            return None, inner[2] is None
        if inner[0] in ("new", "closure", "func", "class", "bound", "tuple", "list", "dict", "set", "fstr", "bin", "cmp", "self", "coro", "gen", "comp", "not", "lambda", "enter"):
            return None, False
        return term, True
    if tag == "cmp":
        op, a, b = term[1], term[2], term[3]
        if op in ("!=", "is not"):
            atom, pol = norm(("cmp", "==" if op == "!=" else "is", a, b))
            return atom, not pol
        if op == ">":
            return norm(("cmp", "<", b, a))
        if op == ">=":
            atom, pol = norm(("cmp", "<", a, b))
            return atom, not pol
        if op == "<=":
            atom, pol = norm(("cmp", "<", b, a))
            return atom, not pol
        if a[0] == "const" and b[0] == "const":
            try:
                if op in ("==", "is"):
                    return None, a[2] == b[2]
                return None, a[2] < b[2]
            except TypeError:
                pass
        # Length tests are truthiness tests.
        if op == "<":
            if a == T.const(0) and _is_len(b):
                return norm(b[4][0])
            if b == T.const(1) and _is_len(a):
                atom, pol = norm(a[4][0])
                return atom, not pol
        if op in ("==", "is"):
            if a == T.NONE:
                return norm(("isnone", b))
            if b == T.NONE:
                return norm(("isnone", a))
            for x, y in ((a, b), (b, a)):
                if x == T.const(0) and _is_len(y):
                    atom, pol = norm(y[4][0])
                    return atom, not pol
                if op == "is" and x == T.TRUE:
                    return norm(y)
                if op == "is" and x == T.FALSE:
                    atom, pol = norm(y)
                    return atom, not pol
            if a == b and op == "==":
                return None, True
            if repr(b) < repr(a):
                a, b = b, a
            return ("cmp", "==", a, b), True
        return ("cmp", op, a, b), True
    if _is_len(term):
        return norm(term[4][0])
    return term, True


def _is_len(term) -> bool:
    return term[0] == "call" and term[2] == "len" and len(term[4]) == 1


class Interp:
    """The engine."""

    def __init__(self, program: Program, monitor: Monitor, max_states: int = 160, max_steps: int = 400000):
        self.program = program
        if not getattr(program, "learned", False):
            learn_falsy(program)
            program.learned = True
        self.monitor = monitor
        self.max_states = max_states
        self.max_steps = max_steps
        self.steps = 0
        self.sink: list[State] = []
        self.ttypes: dict = {}
        self.closures: dict = {}
        self.visited: set[str] = set()
        self.calls_seen = 0
        self.widened = 0
        self.truncated = 0

    # ------------------------------------------------------------- plumbing
    def dedupe(self, states: list[State]) -> list[State]:
        seen = {}
        for st in states:
            seen.setdefault(st.key, st)
        result = list(seen.values())
        if len(result) > self.max_states:
            result = self.widen(result)
            if len(result) > 6 * self.max_states:
                # Keep an even sample; recorded as an incompleteness.
                self.truncated += len(result) - 6 * self.max_states
                step = len(result) / (6 * self.max_states)
                result = [result[int(i * step)] for i in range(6 * self.max_states)]
        return result

    def widen(self, states: list[State]) -> list[State]:
        """Join states that agree on the monitor's state."""
        self.widened += 1
        groups: dict = {}
        for st in states:
            groups.setdefault((st.mon, st.held, st.pend, _kindval(st.val)), []).append(st)
        result = []
        for group in groups.values():
            first = group[0]
            env = {}
            for key, term in first.env.items():
                if all(s.env.get(key) == term for s in group):
                    env[key] = term
                else:
                    env[key] = ("phi", "join", key[1])
            heap = {
                k: v for k, v in first.heap.items() if all(s.heap.get(k) == v for s in group)
            }
            facts = first.facts
            for s in group[1:]:
                facts = facts & s.facts
            epoch = first.epoch if all(s.epoch == first.epoch for s in group) else ("join",)
            val = first.val if all(s.val == first.val for s in group) else _joinval([s.val for s in group])
            result.append(State(env, heap, facts, first.mon, epoch, first.held, val, first.pend, first.trace))
        return result

    def apply(self, st: State, new) -> State:
        if new is None:
            return st
        if isinstance(new, State):
            return new
        raise AnalysisError("bad monitor return")

    def raise_(self, st: State, names, node, frame) -> None:
        """Record an exceptional successor."""
        if isinstance(names, str):
            names = frozenset([names])
        new = st.with_(val=("exc", frozenset(names), T.NONE))
        self.sink.append(new)

    def assume(self, st: State, term, polarity: bool) -> Optional[State]:
        atom, pol = norm(term)
        if atom is None:
            return st if pol == polarity else None
        pol = pol == polarity
        if (atom, not pol) in st.facts:
            return None
        if (atom, pol) in st.facts:
            return st
        extra = {(atom, pol)}
        if atom[0] == "isnone":
            if pol:
                if (atom[1], True) in st.facts:
                    return None
                extra.add((atom[1], False))
        elif pol and atom[0] not in ("cmp", "in", "isinstance"):
            nn = ("isnone", atom)
            if (nn, True) in st.facts:
                return None
            extra.add((nn, False))
        if atom[0] == "isinstance" and pol:
            nn = ("isnone", atom[1])
            if (nn, True) in st.facts:
                return None
            extra.add((nn, False))
        if atom[0] == "cmp" and atom[1] == "==" and pol:
            # x == const contradicts x == other-const.
            a, b = atom[2], atom[3]
            for x, y in ((a, b), (b, a)):
                if _singleton(y):
                    for other, opol in st.facts:
                        if opol and other[0] == "cmp" and other[1] == "==" and other != atom:
                            if x in (other[2], other[3]):
                                z = other[3] if other[2] == x else other[2]
                                if _singleton(z) and z != y:
                                    return None
        return st.with_(facts=st.facts | frozenset(extra))

    def havoc(self, st: State, node, frame) -> State:
        """Forget attribute contents (other tasks may have run)."""
        return st.with_(heap={}, epoch=(frame.uid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)))

    # ---------------------------------------------------------------- entry
    def run(self, func: Func, cls: Optional[Class] = None, args: dict = None, mon=None, facts=()) -> Out:
        """Analyse a function as an entry point."""
        if cls is None:
            cls = func.cls
        self_term = None
        env = {}
        params = func.params()
        start = 0
        if func.cls is not None and params and not func.is_static:
            if func.is_classmethod:
                self_term = ("class", cls.qual)
            else:
                self_term = ("self", cls.qual)
                self.ttypes[self_term] = frozenset([(cls.qual, ())])
            env[("", params[0].arg)] = self_term
            start = 1
        for arg in [*params[start:], *func.node.args.kwonlyargs]:
            term = (args or {}).get(arg.arg, ("param", func.qual, arg.arg))
            env[("", arg.arg)] = term
            self.ttypes.setdefault(term, self.program.ann_types(arg.annotation, func.module, func.cls))
        for special in (func.node.args.vararg, func.node.args.kwarg):
            if special is not None:
                env[("", special.arg)] = ("param", func.qual, special.arg)
        frame = Frame(func, cls, "", self_term, 0, None, (func,))
        frame = self._lexical(frame)
        st = State(env, {}, frozenset(), self.monitor.init() if mon is None else mon, (), (), None, (), ())
        for term, pol in facts:
            st = self.assume(st, term, pol) or st
        self.visited.add(func.qual)
        out = self.body(func, [st], frame)
        return out

    def _lexical(self, frame: Frame) -> Frame:
        """Give nested entry points symbolic lexical frames."""
        outer = frame.func.outer or getattr(frame.func, "outer_scope", None)
        if outer is not None:
            cls = outer.cls
            term = None
            if cls is not None and not outer.is_static:
                term = ("self", cls.qual)
                self.ttypes[term] = frozenset([(cls.qual, ())])
            lex = Frame(outer, cls, f"^{outer.qual}", term, 0, None, (outer,))
            frame.lexical = self._lexical(lex)
            if frame.self_term is None:
                frame.self_term = term
                frame.cls = frame.cls or cls
        return frame

    def body(self, func: Func, states: list[State], frame: Frame) -> Out:
        """Execute a function body; 'normal' and 'ret' become 'ret'."""
        out = Out()
        if isinstance(func.node, ast.Lambda):
            saved, self.sink = self.sink, []
            for st in states:
                for s2, term in self.ev(func.node.body, st, frame):
                    out.ret.append(s2.with_(val=("ret", term)))
            out.exc.extend(self.sink)
            self.sink = saved
            return out
        res = self.block(func.node.body, states, frame)
        for st in res.normal:
            new = self.apply(st, self.monitor.on_return(self, st, T.NONE, func.node, frame))
            out.ret.append(new.with_(val=("ret", T.NONE)))
        out.ret.extend(res.ret)
        out.exc.extend(res.exc)
        out.ret = self.dedupe(out.ret)
        out.exc = self.dedupe(out.exc)
        return out

    # ----------------------------------------------------------- statements
    def block(self, stmts, states: list[State], frame: Frame) -> Out:
        out = Out()
        cur = self.dedupe(states)
        for stmt in stmts:
            if not cur:
                break
            nxt: list[State] = []
            for st in cur:
                self.steps += 1
                if self.steps == self.max_steps:
                    # Stop entering callees; finish with what's at hand.
                    self.truncated += 1
                    self.monitor.max_depth = 1
                if self.steps > 4 * self.max_steps:
                    raise AnalysisError(f"step budget exceeded in {frame.func.qual}")
                saved, self.sink = self.sink, []
                res = self.stmt(stmt, st, frame)
                res.exc.extend(self.sink)
                self.sink = saved
                nxt.extend(res.normal)
                out.extend(res, "ret", "exc", "brk", "cont")
            cur = self.dedupe(nxt)
        out.normal = cur
        for kind in ("ret", "exc", "brk", "cont"):
            setattr(out, kind, self.dedupe(getattr(out, kind)))
        return out

    def stmt(self, node, st: State, frame: Frame) -> Out:
        meth = getattr(self, "s_" + type(node).__name__, None)
        if meth is None:
            out = Out()
            out.normal.append(st)
            return out
        return meth(node, st, frame)

    def s_Expr(self, node, st, frame):
        out = Out()
        if isinstance(node.value, ast.Constant):
            out.normal.append(st)
            return out
        out.normal.extend(s for s, _ in self.ev(node.value, st, frame))
        return out

    def s_Pass(self, node, st, frame):
        out = Out()
        out.normal.append(st)
        return out

    def s_Return(self, node, st, frame):
        out = Out()
        pairs = [(st, T.NONE)] if node.value is None else self.ev(node.value, st, frame)
        for s, term in pairs:
            s = self.apply(s, self.monitor.on_return(self, s, term, node, frame))
            out.ret.append(s.with_(val=("ret", term)))
        return out

    def s_Break(self, node, st, frame):
        out = Out()
        out.brk.append(st)
        return out

    def s_Continue(self, node, st, frame):
        out = Out()
        out.cont.append(st)
        return out

    def s_Raise(self, node, st, frame):
        out = Out()
        if node.exc is None:
            cur = st.env.get((frame.uid, "@exc"))
            names = cur[1] if cur is not None else frozenset([ANY])
            st = self.apply(st, self.monitor.on_raise(self, st, names, node, frame))
            out.exc.append(st.with_(val=("exc", names, T.NONE)))
            return out
        for s, term in self.ev(node.exc, st, frame):
            names = frozenset([ANY])
            if term[0] == "new":
                names = frozenset([term[2]])
            elif term[0] in ("class", "ext"):
                names = frozenset([term[1]])
            elif term[0] == "call" and term[3] is None:
                names = frozenset([term[2]])
            elif term[0] == "excvar":
                names = term[1]
            s = self.apply(s, self.monitor.on_raise(self, s, names, node, frame))
            out.exc.append(s.with_(val=("exc", names, term)))
        return out

    def s_Assert(self, node, st, frame):
        out = Out()
        true, false = self.cond(node.test, st, frame)
        out.normal.extend(true)
        if self.monitor.assert_raises:
            for s in false:
                pairs = [(s, None)] if node.msg is None else self.ev(node.msg, s, frame)
                for s2, _ in pairs:
                    s2 = self.apply(s2, self.monitor.on_raise(self, s2, frozenset(["AssertionError"]), node, frame))
                    out.exc.append(s2.with_(val=("exc", frozenset(["AssertionError"]), T.NONE)))
        return out

    def s_If(self, node, st, frame):
        out = Out()
        true, false = self.cond(node.test, st, frame)
        out.extend(self.block(node.body, true, frame))
        if node.orelse:
            out.extend(self.block(node.orelse, false, frame))
        else:
            out.normal.extend(false)
        out.normal = self.dedupe(out.normal)
        return out

    def s_Match(self, node, st, frame):
        out = Out()
        for s, subject in self.ev(node.subject, st, frame):
            rest = [s]
            for case in node.cases:
                nxt = []
                for r in rest:
                    match, no = self.match_case(case.pattern, subject, r, frame)
                    if case.guard is not None:
                        took = []
                        for m in match:
                            t, f = self.cond(case.guard, m, frame)
                            took += t
                            no = no + f
                        match = took
                    out.extend(self.block(case.body, match, frame))
                    nxt += no
                rest = self.dedupe(nxt)
            out.normal.extend(rest)
        out.normal = self.dedupe(out.normal)
        return out

    def match_case(self, pattern, subject, st, frame):
        if isinstance(pattern, ast.MatchValue):
            res = self.ev(pattern.value, st, frame)
            yes, no = [], []
            for s, term in res:
                cmp = ("cmp", "==", subject, term)
                t = self.assume(s, cmp, True)
                f = self.assume(s, cmp, False)
                if t is not None:
                    yes.append(t)
                if f is not None:
                    no.append(f)
            return yes, no
        if isinstance(pattern, ast.MatchOr):
            yes, no = [], [st]
            for sub in pattern.patterns:
                rest = []
                for s in no:
                    y, n = self.match_case(sub, subject, s, frame)
                    yes += y
                    rest += n
                no = rest
            return yes, no
        if isinstance(pattern, ast.MatchAs) and pattern.pattern is None:
            if pattern.name:
                st = st.set(frame.uid, pattern.name, subject)
            return [st], []
        return [st], [st]

    def s_FunctionDef(self, node, st, frame):
        out = Out()
        func = self.program.func_by_node.get(id(node))
        if func is None:
            out.normal.append(st)
            return out
        term = ("closure", func.qual, frame.uid)
        self.closures[term] = (func, frame)
        # Decorated closures (e.g. context managers) keep their identity.
        out.normal.append(st.set(self.owner(node.name, frame).uid, node.name, term))
        return out

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, node, st, frame):
        out = Out()
        qual = f"{frame.func.qual}.<locals>.{node.name}"
        term = ("class", qual) if qual in self.program.classes else ("ext", node.name)
        out.normal.append(st.set(frame.uid, node.name, term))
        return out

    def s_Assign(self, node, st, frame):
        out = Out()
        for s, term in self.ev(node.value, st, frame):
            cur = [s]
            for tgt in node.targets:
                nxt = []
                for c in cur:
                    nxt.extend(self.assign(tgt, term, c, frame, node))
                cur = nxt
            out.normal.extend(cur)
        return out

    def s_AnnAssign(self, node, st, frame):
        out = Out()
        if node.value is None:
            out.normal.append(st)
            return out
        for s, term in self.ev(node.value, st, frame):
            types = self.program.ann_types(node.annotation, frame.module, frame.func.cls)
            if types and term not in self.ttypes:
                self.ttypes[term] = types
            out.normal.extend(self.assign(node.target, term, s, frame, node))
        return out

    def s_AugAssign(self, node, st, frame):
        out = Out()
        op = BINOPS[type(node.op)]
        load = _as_load(node.target)
        for s, cur in self.ev(load, st, frame):
            for s2, val in self.ev(node.value, s, frame):
                term = mkbin(op, cur, val)
                if op in ("+", "|") and cur[0] in ("list",):
                    pass
                out.normal.extend(self.assign(node.target, term, s2, frame, node, aug=(op, val)))
        return out

    def s_Delete(self, node, st, frame):
        out = Out()
        cur = [st]
        for tgt in node.targets:
            nxt = []
            for s in cur:
                if isinstance(tgt, ast.Name):
                    nxt.append(s)
                elif isinstance(tgt, ast.Attribute):
                    for s2, base in self.ev(tgt.value, s, frame):
                        ev = StoreEv(node, "delattr", base, tgt.attr, None, frame)
                        nxt.append(self.apply(s2, self.monitor.on_store(self, s2, ev)))
                elif isinstance(tgt, ast.Subscript):
                    for s2, base in self.ev(tgt.value, s, frame):
                        for s3, idx in self.ev(tgt.slice, s2, frame):
                            ev = StoreEv(node, "delsub", base, idx, None, frame)
                            nxt.append(self.apply(s3, self.monitor.on_store(self, s3, ev)))
            cur = nxt
        out.normal.extend(cur)
        return out

    def find_setter(self, base, attr: str, frame: Frame) -> Optional[Func]:
        """Find an in-program property setter for a store."""
        cls = self.cls_of(base)
        return self.program.lookup_setter(cls, attr) if cls is not None else None

    def owner(self, name: str, frame: Frame) -> Frame:
        """Find the frame that owns a (possibly nonlocal) name."""
        cur = frame
        if name in frame.nonlocals or name not in frame.locals:
            cur = frame.lexical
            while cur is not None and name not in cur.locals:
                cur = cur.lexical
            if cur is None:
                return frame
        return cur

    def assign(self, tgt, term, st: State, frame: Frame, node, aug=None) -> list[State]:
        if isinstance(tgt, ast.Name):
            own = self.owner(tgt.id, frame)
            new = st.set(own.uid, tgt.id, term)
            ev = StoreEv(node, "name", None, tgt.id, term, frame, aug)
            return [self.apply(new, self.monitor.on_store(self, new, ev))]
        if isinstance(tgt, ast.Attribute):
            out = []
            for s, base in self.ev(tgt.value, st, frame):
                ev = StoreEv(node, "attr", base, tgt.attr, term, frame, aug)
                s = self.apply(s, self.monitor.on_store(self, s, ev))
                setter = self.find_setter(base, tgt.attr, frame)
                if setter is not None and len(frame.stack) < self.monitor.max_depth and setter not in frame.stack:
                    cev = CallEv(node, setter.qual, setter, base, tgt.attr, [term], {}, frame, False, False)
                    if not self.monitor.opaque(self, cev):
                        for s2, _ in self.inline(cev, s, frame):
                            out.append(s2)
                        continue
                heap = dict(s.heap)
                heap[(T.strip(base), tgt.attr)] = term
                out.append(s.with_(heap=heap))
            return out
        if isinstance(tgt, ast.Subscript):
            out = []
            for s, base in self.ev(tgt.value, st, frame):
                for s2, idx in self.ev(tgt.slice, s, frame):
                    ev = StoreEv(node, "sub", base, idx, term, frame, aug)
                    out.append(self.apply(s2, self.monitor.on_store(self, s2, ev)))
            return out
        if isinstance(tgt, (ast.Tuple, ast.List)):
            cur = [st]
            for i, elt in enumerate(tgt.elts):
                if term[0] in ("tuple", "list") and i < len(term[1]) and not any(x[0] == "star" for x in term[1]) and not any(isinstance(e, ast.Starred) for e in tgt.elts):
                    part = term[1][i]
                else:
                    part = ("unpack", term, i)
                    types = self.types(term)
                    ptypes: frozenset = EMPTY
                    for name, targs in types:
                        if name.split(".")[-1].lower() == "tuple" and i < len(targs):
                            ptypes |= targs[i]
                    if ptypes:
                        self.ttypes[part] = ptypes
                if isinstance(elt, ast.Starred):
                    elt = elt.value
                nxt = []
                for c in cur:
                    nxt.extend(self.assign(elt, part, c, frame, node))
                cur = nxt
            return cur
        return [st]

    def s_While(self, node, st, frame):
        return self.loop(node, st, frame, None)

    def s_For(self, node, st, frame):
        out = Out()
        for s, iterm in self.ev(node.iter, st, frame):
            if isinstance(node, ast.AsyncFor):
                s = self.do_await(iterm, s, node, frame, extra_only=True)
            # Unroll short literal collections.
            if iterm[0] in ("tuple", "list") and 0 < len(iterm[1]) <= 12 and not any(x[0] == "star" for x in iterm[1]):
                cur = [s]
                acc = Out()
                for item in iterm[1]:
                    nxt = []
                    for c in cur:
                        for c2 in self.assign(node.target, item, c, frame, node):
                            res = self.block(node.body, [c2], frame)
                            nxt.extend(res.normal + res.cont)
                            acc.brk.extend(res.brk)
                            acc.ret.extend(res.ret)
                            acc.exc.extend(res.exc)
                    cur = self.dedupe(nxt)
                if node.orelse:
                    res = self.block(node.orelse, cur, frame)
                    acc.extend(res)
                    acc.normal.extend(acc.brk)
                else:
                    acc.normal = cur + acc.brk
                acc.brk = []
                out.extend(acc)
                continue
            out.extend(self.loop(node, s, frame, iterm))
        return out

    s_AsyncFor = s_For

    def loop(self, node, st: State, frame: Frame, iterm) -> Out:
        """Iterate a loop to a fixpoint."""
        out = Out()
        assigned = assigned_names(node)
        exits: list[State] = []
        entry_facts = st.facts
        # Conditions over local variables are decided before widening.
        local = iterm is None and all(isinstance(n, (ast.Name, ast.UnaryOp, ast.BoolOp, ast.Compare, ast.Constant, ast.operator, ast.boolop, ast.unaryop, ast.cmpop, ast.expr_context)) for n in ast.walk(node.test))
        seen: dict = {}
        pending = [(st, True)]
        rounds = 0
        while pending:
            rounds += 1
            if rounds > 60:
                self.widened += 1
                break
            nxt: list[State] = []
            for s, first in pending:
                if iterm is None:
                    saved, self.sink = self.sink, []
                    true, false = self.cond(node.test, s, frame)
                    out.exc.extend(self.sink)
                    self.sink = saved
                    # Already decided precisely when the iteration ended.
                    if first or not local:
                        exits.extend(false)
                    bodies = true
                else:
                    # Exhausted (or empty, the first time around).
                    if first:
                        empty = self.assume(s, iterm, False) if iterm[0] not in ("call",) else s
                        if empty is not None and not (iterm[0] in ("tuple", "list") and iterm[1]):
                            empty = self.apply(empty, self.monitor.on_loop(self, empty, iterm, True, node, frame))
                            exits.append(empty)
                    else:
                        exits.append(s)
                    elem = ("iter", iterm, (frame.uid, node.lineno))
                    if elem not in self.ttypes:
                        et = self.program.elem_types(self.types(iterm) or self.program.expr_types(node.iter, frame.func, frame.cls))
                        self.ttypes[elem] = et
                    s = self.apply(s, self.monitor.on_loop(self, s, iterm, False, node, frame))
                    bodies = self.assign(node.target, elem, s, frame, node)
                    if isinstance(node, ast.AsyncFor):
                        bodies = [self.do_await(iterm, b, node, frame, extra_only=True) for b in bodies]
                res = self.block(node.body, bodies, frame)
                out.ret.extend(res.ret)
                out.exc.extend(res.exc)
                out.brk.extend(res.brk)
                for end in res.normal + res.cont:
                    nxt.append(self.apply(end, self.monitor.on_iter_end(self, end, iterm, node, frame)))
            pending = []
            if local:
                again: list[State] = []
                for s in nxt:
                    true, false = self.cond(node.test, s, frame)
                    again.extend(true)
                    exits.extend(false)
                nxt = again
            for s in self.dedupe(nxt):
                w = self.loop_widen(s, st, node, frame, assigned, entry_facts)
                if w.key not in seen:
                    seen[w.key] = w
                    pending.append((w, False))
            if len(seen) > self.max_states:
                # Collapse the frontier.
                merged = self.widen([p for p, _ in pending])
                pending = []
                for m in merged:
                    if m.key not in seen:
                        seen[m.key] = m
                        pending.append((m, False))
        exits = self.dedupe(exits)
        brk = self.dedupe(out.brk)
        out.brk = []
        if node.orelse:
            res = self.block(node.orelse, exits, frame)
            out.extend(res)
            out.normal.extend(brk)
        else:
            out.normal.extend(exits + brk)
        out.normal = self.dedupe(out.normal)
        return out

    def loop_widen(self, s: State, entry: State, node, frame: Frame, assigned: set[str], entry_facts) -> State:
        env = dict(s.env)
        lo = node.lineno
        lines = getattr(node, "_lines", None)
        if lines is None:
            # Inlined statements keep the lines of where they're from.
            lines = {(getattr(x, "lineno", 0), getattr(x, "col_offset", 0)) for x in ast.walk(node)}
            node._lines = lines
        for key, term in s.env.items():
            if key in entry.env and entry.env[key] == term:
                continue
            if key[1] == "@exc":
                env.pop(key)
                continue
            if key not in entry.env:
                # Introduced inside of the loop: keep only constants.
                if key[0] != frame.uid:
                    env.pop(key)
                    continue
                if not T.is_const(term) and term[0] not in ("closure",):
                    env[key] = ("phi", (frame.uid, lo), key[1])
            elif not T.is_const(term):
                env[key] = ("phi", (frame.uid, lo), key[1])
        site = (frame.uid, lo)

        def inside(t) -> bool:
            for sub in T.walk(t):
                if sub[0] == "phi" and sub[1] == site:
                    return True
                if sub[0] == "iter" and sub[2] == site:
                    return True
                if sub[0] in ("call", "new", "await") and isinstance(sub[1], tuple) and len(sub[1]) == 3:
                    if sub[1][0] == frame.uid and sub[1][1:] in lines:
                        return True
                    if sub[1][0].startswith(frame.uid + "/") and sub[1][0] != frame.uid:
                        return True
                if sub[0] in ("attr", "sub") and sub[3] and sub[3] != entry.epoch:
                    return True
            return False

        facts = frozenset(f for f in s.facts if f in entry_facts or (not inside(f[0]) and not _stale(f[0], s.epoch)))
        # What was known about a variable's value is known about its new name.
        renamed = {s.env[k]: (v, k[1]) for k, v in env.items() if v[0] == "phi" and v[1] == site and s.env[k] != v and s.env[k][0] in ("call", "await", "bin", "sub")}
        if renamed and not getattr(self.monitor, "restart", None):
            extra = set()
            for atom, pol in s.facts:
                if (atom, pol) in facts or atom[0] not in ("cmp", "isnone") or not any(isinstance(x, tuple) and x in renamed for x in atom):
                    continue
                masked = tuple(("ext", f"@{renamed[x][1]}") if isinstance(x, tuple) and x in renamed else x for x in atom)
                if any((y[0] == "phi" and y[1] == site) or (y[0] == "iter" and y[2] == site) or (y[0] in ("call", "new", "await")) for y in T.walk(masked)) or _stale(masked, s.epoch):
                    continue
                extra.add((tuple(renamed[x][0] if isinstance(x, tuple) and x in renamed else x for x in atom), pol))
            facts |= extra
        heap = {k: v for k, v in s.heap.items() if entry.heap.get(k) == v or T.is_const(v)}
        epoch = s.epoch
        return s.with_(env=env, facts=facts, heap=heap, epoch=epoch)

    def s_Try(self, node, st, frame):
        out = Out()
        res = self.block(node.body, [st], frame)
        inner = Out()
        inner.ret.extend(res.ret)
        inner.brk.extend(res.brk)
        inner.cont.extend(res.cont)
        if node.orelse:
            inner.extend(self.block(node.orelse, res.normal, frame))
        else:
            inner.normal.extend(res.normal)
        for s in res.exc:
            for handled, rest in self.handle(s, node.handlers, frame):
                if rest is not None:
                    inner.exc.append(rest)
                if handled is not None:
                    hnode, hst = handled
                    hres = self.block(hnode.body, [hst], frame)
                    for kind in ("normal", "ret", "brk", "cont", "exc"):
                        getattr(inner, kind).extend(
                            _drop(x, (frame.uid, "@exc")) for x in getattr(hres, kind)
                        )
        if node.finalbody:
            for kind in ("normal", "ret", "exc", "brk", "cont"):
                for s in self.dedupe(getattr(inner, kind)):
                    fres = self.block(node.finalbody, [s.with_(val=None)], frame)
                    getattr(out, kind).extend(f.with_(val=s.val) for f in fres.normal)
                    out.extend(fres, "ret", "exc", "brk", "cont")
        else:
            out.extend(inner)
        for kind in ("normal", "ret", "exc", "brk", "cont"):
            setattr(out, kind, self.dedupe(getattr(out, kind)))
        return out

    s_TryStar = s_Try

    def handle(self, st: State, handlers, frame):
        """Match an exceptional state against handlers."""
        _, names, eterm = st.val
        remaining = set(names)
        for handler in handlers:
            hnames = self.handler_names(handler, frame)
            caught = set()
            rest = set()
            for name in remaining:
                verdict = self.catches(hnames, name)
                if verdict in ("yes", "maybe"):
                    caught.add(name)
                if verdict in ("no", "maybe"):
                    rest.add(name)
            if caught:
                got = frozenset(caught)
                hst = st.with_(val=None)
                hst = hst.set(frame.uid, "@exc", ("excvar", got))
                if handler.name:
                    hst = hst.set(frame.uid, handler.name, ("excvar", got))
                hst = self.apply(hst, self.monitor.on_handler(self, hst, hnames, handler, frame))
                yield (handler, hst), None
            remaining = rest
            if not remaining:
                break
        if remaining:
            yield None, st.with_(val=("exc", frozenset(remaining), eterm))

    def handler_names(self, handler, frame) -> list[str]:
        if handler.type is None:
            return ["BaseException"]
        items = handler.type.elts if isinstance(handler.type, ast.Tuple) else [handler.type]
        return [self.exc_name(x, frame) for x in items]

    def exc_name(self, node, frame) -> str:
        return frame.module.resolve_dotted(dotted(node) or "?")

    def catches(self, hnames: list[str], name: str) -> str:
        """Does a handler catch an exception name? yes/no/maybe."""
        result = "no"
        for h in hnames:
            h = EXC_ALIASES.get(h, h)
            n = EXC_ALIASES.get(name, name)
            if h == "BaseException":
                return "yes"
            if n == ANY:
                if h == "Exception":
                    return "yes"
                if not _is_base_only(h):
                    result = "maybe"
                continue
            if h == n:
                return "yes"
            if h == "Exception":
                if not _is_base_only(n):
                    return "yes"
                continue
            hb, nb = getattr(builtins, h, None), getattr(builtins, n, None)
            if isinstance(hb, type) and isinstance(nb, type):
                if issubclass(nb, hb):
                    return "yes"
                continue
            ncls = self.program.classes.get(n)
            if ncls is not None and self.program.is_subclass(ncls, h):
                return "yes"
            if n in KNOWN_SUB and h in KNOWN_SUB[n]:
                return "yes"
        return result

    def s_With(self, node, st, frame):
        return self.with_items(node, 0, [st], frame)

    s_AsyncWith = s_With

    def with_items(self, node, index: int, states: list[State], frame: Frame) -> Out:
        if index == len(node.items):
            return self.block(node.body, states, frame)
        out = Out()
        item = node.items[index]
        for st in states:
            saved, self.sink = self.sink, []
            pairs = self.ev(item.context_expr, st, frame)
            out.exc.extend(self.sink)
            self.sink = saved
            for s, term in pairs:
                out.extend(self.with_one(node, index, item, term, s, frame))
        for kind in ("normal", "ret", "exc", "brk", "cont"):
            setattr(out, kind, self.dedupe(getattr(out, kind)))
        return out

    def with_one(self, node, index, item, term, st: State, frame: Frame) -> Out:
        out = Out()

        def run_body(states: list[State], value) -> Out:
            cur = []
            for s in states:
                if item.optional_vars is not None:
                    cur.extend(self.assign(item.optional_vars, value, s, frame, node))
                else:
                    cur.append(s)
            return self.with_items(node, index + 1, cur, frame)

        # In-program generator-based context managers run in place.
        if term[0] == "gen":
            func, recv, args, kwargs, lex, starred = self.gen_info[term]
            if func.is_cm and len(frame.stack) < self.monitor.max_depth and func not in frame.stack:
                cev = CallEv(item.context_expr, func.qual, func, recv, func.name, list(args), dict(kwargs), frame, False, starred)
                if not self.monitor.opaque(self, cev):
                    return self.inline_cm(cev, st, frame, lex, run_body)

        # contextlib.suppress.
        if term[0] == "call" and term[2].endswith("contextlib.suppress"):
            res = run_body([st], T.NONE)
            names = [self.exc_name(a, frame) for a in getattr(item.context_expr, "args", [])]
            out.extend(res, "normal", "ret", "brk", "cont")
            for s in res.exc:
                rest = set()
                caught = False
                for name in s.val[1]:
                    verdict = self.catches(names, name)
                    if verdict in ("yes", "maybe"):
                        caught = True
                    if verdict in ("no", "maybe"):
                        rest.add(name)
                if caught:
                    s2 = self.apply(s, self.monitor.on_handler(self, s, names, node, frame))
                    out.normal.append(s2.with_(val=None))
                if rest:
                    out.exc.append(s.with_(val=("exc", frozenset(rest), s.val[2])))
            return out

        saved, self.sink = self.sink, []
        st = self.apply(st, self.monitor.on_enter(self, st, term, node, frame))
        if isinstance(node, ast.AsyncWith):
            st = self.do_await(("enter", term), st, node, frame)
        out.exc.extend(self.sink)
        self.sink = saved
        st = st.with_(held=st.held + (T.strip(term),))
        enter = ("enter", term)
        if enter not in self.ttypes:
            types: frozenset = EMPTY
            for name, targs in self.types(term):
                if name.split(".")[-1].lstrip("_") in ("Iterator", "AsyncIterator", "Generator") and targs:
                    types |= targs[0]
                elif name in self.program.classes:
                    meth = self.program.lookup(self.program.classes[name], "__enter__")
                    types |= frozenset([(name, targs)])
            self.ttypes[enter] = types
        res = run_body([st], enter)
        ours = T.strip(enter)
        for s in list(res.exc):
            names = [n for x in s.held if x[0] == "suppresses" and x[1] == ours for n in x[2]]
            if names:
                verdicts = {n: self.catches(names, n) for n in s.val[1]}
                rest = frozenset(n for n, v in verdicts.items() if v in ("no", "maybe"))
                if any(v in ("yes", "maybe") for v in verdicts.values()):
                    res.normal.append(s.with_(val=None))
                    res.exc.remove(s)
                    if rest:
                        res.exc.append(s.with_(val=("exc", rest, s.val[2])))
        for kind in ("normal", "ret", "exc", "brk", "cont"):
            for s in getattr(res, kind):
                if any(x[0] == "suppresses" and x[1] == ours for x in s.held):
                    s = s.with_(held=tuple(x for x in s.held if not (x[0] == "suppresses" and x[1] == ours)))
                held = list(s.held)
                if T.strip(term) in held:
                    held.reverse()
                    held.remove(T.strip(term))
                    held.reverse()
                s = s.with_(held=tuple(held))
                s = self.apply(s, self.monitor.on_exit(self, s, term, node, frame, kind))
                getattr(out, kind).append(s)
        return out

    # ---------------------------------------------------------- expressions
    gen_info: dict = {}

    def ev(self, node, st: State, frame: Frame) -> list:
        meth = getattr(self, "e_" + type(node).__name__, None)
        if meth is None:
            return [(st, ("opaque", type(node).__name__, (frame.uid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))))]
        return meth(node, st, frame)

    def ev_many(self, nodes, st: State, frame: Frame) -> list:
        """Evaluate expressions in order: list of (state, [terms])."""
        cur = [(st, [])]
        for node in nodes:
            nxt = []
            for s, acc in cur:
                if isinstance(node, ast.Starred):
                    for s2, term in self.ev(node.value, s, frame):
                        nxt.append((s2, acc + [("star", term)]))
                else:
                    for s2, term in self.ev(node, s, frame):
                        nxt.append((s2, acc + [term]))
            cur = nxt
        return cur

    def cond(self, node, st: State, frame: Frame):
        """Evaluate a condition: (states where true, states where false)."""
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            t, f = self.cond(node.operand, st, frame)
            return f, t
        if isinstance(node, ast.BoolOp):
            is_and = isinstance(node.op, ast.And)
            live = [st]
            done: list[State] = []
            for val in node.values:
                nxt: list[State] = []
                for s in live:
                    t, f = self.cond(val, s, frame)
                    nxt.extend(t if is_and else f)
                    done.extend(f if is_and else t)
                live = self.dedupe(nxt)
            done = self.dedupe(done)
            return (live, done) if is_and else (done, live)
        if isinstance(node, ast.Compare) and len(node.ops) > 1:
            parts = []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [right]), node))
                left = right
            return self.cond(ast.copy_location(ast.BoolOp(ast.And(), parts), node), st, frame)
        true, false = [], []
        for s, term in self.ev(node, st, frame):
            t = self.assume(s, term, True)
            f = self.assume(s, term, False)
            if t is not None:
                true.append(t)
            if f is not None:
                false.append(f)
        return true, false

    def e_Constant(self, node, st, frame):
        return [(st, T.const(node.value))]

    def e_Name(self, node, st, frame):
        return [(st, self.lookup_name(node.id, st, frame))]

    def lookup_name(self, name: str, st: State, frame: Frame):
        cur: Optional[Frame] = frame
        if name in frame.nonlocals or name not in frame.locals:
            cur = frame.lexical
        first = True
        while cur is not None:
            key = (cur.uid, name)
            if key in st.env:
                return st.env[key]
            if name in cur.locals:
                # Captured from a symbolic frame.
                if cur.uid.startswith("^"):
                    params = cur.func.params()
                    if params and params[0].arg == name and cur.self_term is not None:
                        return cur.self_term
                    nested = self.program.functions.get(f"{cur.func.qual}.<locals>.{name}")
                    if nested is not None:
                        term = ("closure", nested.qual, cur.uid)
                        self.closures.setdefault(term, (nested, cur))
                        return term
                term = ("param", cur.func.qual, name)
                if term not in self.ttypes:
                    self.ttypes[term] = self.program.local_types(name, cur.func, cur.cls)
                return term
            cur = cur.lexical
            first = False
        module = frame.module
        full = module.resolve_dotted(name)
        if full in self.program.classes:
            return ("class", full)
        if full in self.program.functions:
            return ("func", full)
        if name in module.globals:
            expr = module.globals[name]
            if isinstance(expr, ast.Constant) and name.isupper():
                return T.const(expr.value)
        elif name in module.imports and name.isupper():
            # Imported (or re-exported) constants.
            home, _, attr = full.rpartition(".")
            source = self.program.modules.get(home)
            if source is not None and isinstance(source.globals.get(attr), ast.Constant):
                return T.const(source.globals[attr].value)
        term = ("ext", full)
        if term not in self.ttypes:
            self.ttypes[term] = self.program.global_types(module, name)
        return term

    def e_Attribute(self, node, st, frame):
        out = []
        # Enum members, module attributes.
        for s, base in self.ev(node.value, st, frame):
            out.extend(self.load_attr(base, node.attr, s, node, frame))
        return out

    def load_attr(self, base, attr: str, st: State, node, frame: Frame) -> list:
        if base[0] == "ext":
            full = self.program.canonical(f"{base[1]}.{attr}")
            if full in self.program.classes:
                return [(st, ("class", full))]
            if full in self.program.functions:
                return [(st, ("func", full))]
            if base[1] in self.program.modules or "." in base[1] or base[1] in frame.module.imports.values():
                if not self.types(base):
                    return [(st, ("ext", full))]
        if base[0] == "class":
            cls = self.program.classes[base[1]]
            meth = self.program.lookup(cls, attr)
            if meth is not None and not meth.is_property:
                return [(st, ("bound", base, meth.qual))]
            term = ("attr", base, attr, ())
            if term not in self.ttypes:
                self.ttypes[term] = self.program.attr_types(base[1], attr)
            return [(st, term)]
        if base[0] == "super":
            owner = base[2]
            meth = self.program.lookup(self.program.classes[base[1][1]] if base[1][0] in ("self", "class") else owner, attr, after=owner)
            if meth is not None:
                if meth.is_property:
                    return self.inline_property(meth, base[1], st, node, frame)
                return [(st, ("bound", base[1], meth.qual))]
            return [(st, ("attr", base[1], "super." + attr, ()))]
        key = (T.strip(base), attr)
        if key in st.heap:
            return [(st, st.heap[key])]
        # Methods and properties on known receivers.
        cls = self.cls_of(base)
        if cls is not None:
            meth = self.program.lookup(cls, attr)
            if meth is not None:
                if meth.is_property:
                    if (
                        base[0] == "self"
                        and not meth.is_generator
                        and not is_trivial(meth)
                        and len(frame.stack) < self.monitor.max_depth
                        and meth not in frame.stack
                    ):
                        return self.inline_property(meth, base, st, node, frame)
                else:
                    return [(st, ("bound", base, meth.qual))]
        term = ("attr", base, attr, st.epoch if base[0] not in ("ext",) else ())
        if term not in self.ttypes:
            types: frozenset = EMPTY
            for name, targs in self.types(base):
                if name == "type" and targs:
                    for iname, _ in targs[0]:
                        types |= self.program.attr_types(iname, attr)
                else:
                    types |= self.program.attr_types(name, attr)
            self.ttypes[term] = types
        return [(st, term)]

    def inline_property(self, meth, base, st, node, frame):
        ev = CallEv(node, meth.qual, meth, base, meth.name, [], {}, frame, False, False)
        if self.monitor.opaque(self, ev):
            term = ("attr", base, meth.name, st.epoch)
            self.ttypes.setdefault(term, self.program.ret_types(meth, meth.cls))
            return [(st, term)]
        return self.inline(ev, st, frame)

    def types(self, term) -> frozenset:
        got = self.ttypes.get(term)
        if got:
            return got
        tag = term[0]
        if tag in ("self",):
            return frozenset([(term[1], ())])
        if tag == "new":
            return frozenset([(term[2], ())])
        if tag == "class":
            return frozenset([("type", (frozenset([(term[1], ())]),))])
        if tag == "const":
            return frozenset([(term[1], ())])
        if tag == "fstr":
            return frozenset([("str", ())])
        if tag == "await":
            return self.types(term[1])
        if tag == "param":
            func = self.program.functions.get(term[1])
            if func is not None:
                got = self.program.local_types(term[2], func, func.cls)
                self.ttypes[term] = got
                return got
        if tag == "sub":
            idx = term[2][2] if term[2][0] == "const" else None
            return self.program.subscript_types(self.types(term[1]), idx)
        if tag == "unpack":
            return self.program.subscript_types(self.types(term[1]), term[2])
        if tag == "attr":
            types: frozenset = EMPTY
            for name, targs in self.types(term[1]):
                if name == "type" and targs:
                    for iname, _ in targs[0]:
                        types |= self.program.attr_types(iname, term[2])
                else:
                    types |= self.program.attr_types(name, term[2])
            return types
        if tag == "iter":
            return self.program.elem_types(self.types(term[1]))
        return EMPTY

    def type_names(self, term) -> set[str]:
        return {name for name, _ in self.types(term)}

    def is_a(self, term, *names: str) -> bool:
        """Determine if any static type of a term derives from a class."""
        for tname in self.type_names(term):
            cls = self.program.classes.get(tname)
            if cls is not None:
                if any(self.program.is_subclass(cls, n) for n in names):
                    return True
            elif tname in names:
                return True
        return False

    def cls_of(self, term) -> Optional[Class]:
        types = [self.program.classes[n] for n, _ in self.types(term) if n in self.program.classes]
        return types[0] if len(types) == 1 else None

    def e_Subscript(self, node, st, frame):
        out = []
        for s, base in self.ev(node.value, st, frame):
            for s2, idx in self.ev(node.slice, s, frame):
                if base[0] in ("class", "ext") and base[0] == "class":
                    out.append((s2, base))
                    continue
                if base[0] in ("tuple", "list") and idx[0] == "const" and isinstance(idx[2], int) and -len(base[1]) <= idx[2] < len(base[1]) and not any(x[0] == "star" for x in base[1]):
                    out.append((s2, base[1][idx[2]]))
                    continue
                term = ("sub", base, idx, s2.epoch)
                if term not in self.ttypes:
                    self.ttypes[term] = self.program.subscript_types(self.types(base), idx[2] if idx[0] == "const" else None)
                s2 = self.apply(s2, self.monitor.on_sub(self, s2, base, idx, node, frame))
                if self.monitor.sub_raises:
                    self.raise_(s2, "LookupError", node, frame)
                out.append((s2, term))
        return out

    def e_Slice(self, node, st, frame):
        parts = [x for x in (node.lower, node.upper, node.step)]
        cur = [(st, [])]
        for part in parts:
            nxt = []
            for s, acc in cur:
                if part is None:
                    nxt.append((s, acc + [T.NONE]))
                else:
                    for s2, term in self.ev(part, s, frame):
                        nxt.append((s2, acc + [term]))
            cur = nxt
        return [(s, ("slice", tuple(acc))) for s, acc in cur]

    def e_Tuple(self, node, st, frame):
        return [(s, ("tuple", tuple(acc))) for s, acc in self.ev_many(node.elts, st, frame)]

    def e_List(self, node, st, frame):
        return [(s, ("list", tuple(acc), self.site(node, frame))) for s, acc in self.ev_many(node.elts, st, frame)]

    def e_Set(self, node, st, frame):
        return [(s, ("set", tuple(acc), self.site(node, frame))) for s, acc in self.ev_many(node.elts, st, frame)]

    def e_Dict(self, node, st, frame):
        cur = [(st, [])]
        for key, val in zip(node.keys, node.values):
            nxt = []
            for s, acc in cur:
                if key is None:
                    for s2, v in self.ev(val, s, frame):
                        nxt.append((s2, acc + [(("star",), v)]))
                else:
                    for s2, k in self.ev(key, s, frame):
                        for s3, v in self.ev(val, s2, frame):
                            nxt.append((s3, acc + [(k, v)]))
            cur = nxt
        return [(s, ("dict", tuple(acc), self.site(node, frame))) for s, acc in cur]

    def e_JoinedStr(self, node, st, frame):
        parts = []
        for val in node.values:
            parts.append(val.value if isinstance(val, ast.FormattedValue) else val)
        return [(s, ("fstr", tuple(acc))) for s, acc in self.ev_many(parts, st, frame)]

    def e_FormattedValue(self, node, st, frame):
        return self.ev(node.value, st, frame)

    def e_BinOp(self, node, st, frame):
        op = BINOPS[type(node.op)]
        out = []
        for s, a in self.ev(node.left, st, frame):
            for s2, b in self.ev(node.right, s, frame):
                out.append((s2, mkbin(op, a, b)))
        return out

    def e_UnaryOp(self, node, st, frame):
        if isinstance(node.op, ast.Not):
            return [(s, mknot(t)) for s, t in self.ev(node.operand, st, frame)]
        out = []
        for s, t in self.ev(node.operand, st, frame):
            if t[0] == "const" and isinstance(t[2], (int, float)):
                if isinstance(node.op, ast.USub):
                    out.append((s, T.const(-t[2])))
                    continue
                if isinstance(node.op, ast.UAdd):
                    out.append((s, t))
                    continue
            out.append((s, ("un", type(node.op).__name__, t)))
        return out

    def e_BoolOp(self, node, st, frame):
        is_and = isinstance(node.op, ast.And)
        live = [(st, None)]
        done = []
        for i, val in enumerate(node.values):
            nxt = []
            for s, _ in live:
                for s2, term in self.ev(val, s, frame):
                    if i == len(node.values) - 1:
                        done.append((s2, term))
                        continue
                    t = self.assume(s2, term, True)
                    f = self.assume(s2, term, False)
                    cont, stop = (t, f) if is_and else (f, t)
                    if cont is not None:
                        nxt.append((cont, None))
                    if stop is not None:
                        # A condition known falsy/truthy is as good as it.
                        done.append((stop, self.truth(term, not is_and)))
            live = nxt
        return done

    @staticmethod
    def truth(term, polarity: bool):
        """The value of a short-circuited operand."""
        if term[0] in ("cmp", "not", "isnone", "in", "isinstance", "bool"):
            return T.TRUE if polarity else T.FALSE
        return term

    def e_Compare(self, node, st, frame):
        if len(node.ops) > 1:
            parts = []
            left = node.left
            for op, right in zip(node.ops, node.comparators):
                parts.append(ast.copy_location(ast.Compare(left, [op], [right]), node))
                left = right
            return self.e_BoolOp(ast.copy_location(ast.BoolOp(ast.And(), parts), node), st, frame)
        op = node.ops[0]
        out = []
        for s, a in self.ev(node.left, st, frame):
            for s2, b in self.ev(node.comparators[0], s, frame):
                out.append((s2, self.mkcmp(op, a, b)))
        return out

    def mkcmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if b == T.NONE or a == T.NONE:
                term = ("isnone", a if b == T.NONE else b)
            else:
                term = ("cmp", "is", a, b)
            return ("not", term) if isinstance(op, ast.IsNot) else term
        if isinstance(op, (ast.In, ast.NotIn)):
            term = ("in", a, b)
            return ("not", term) if isinstance(op, ast.NotIn) else term
        name = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}[type(op)]
        return ("cmp", name, a, b)

    def e_IfExp(self, node, st, frame):
        t, f = self.cond(node.test, st, frame)
        out = []
        for s in t:
            out.extend(self.ev(node.body, s, frame))
        for s in f:
            out.extend(self.ev(node.orelse, s, frame))
        return out

    def e_NamedExpr(self, node, st, frame):
        out = []
        for s, term in self.ev(node.value, st, frame):
            out.append((s.set(self.owner(node.target.id, frame).uid, node.target.id, term), term))
        return out

    def e_Lambda(self, node, st, frame):
        func = self.program.func_by_node.get(id(node))
        if func is None:
            func = Func(node, frame.module, None, frame.func)
            self.program.func_by_node[id(node)] = func
        term = ("closure", f"{func.qual}@{node.lineno}", frame.uid)
        self.closures[term] = (func, frame)
        return [(st, term)]

    def e_Starred(self, node, st, frame):
        return [(s, ("star", t)) for s, t in self.ev(node.value, st, frame)]

    def e_Await(self, node, st, frame):
        out = []
        for s, term in self.ev(node.value, st, frame):
            out.extend(self.await_value(term, s, node, frame))
        return out

    def await_value(self, term, st: State, node, frame) -> list:
        if term[0] == "coro" and term in self.gen_info:
            func, recv, args, kwargs, lex, starred = self.gen_info[term]
            ev = CallEv(node, func.qual, func, recv, func.name, list(args), dict(kwargs), frame, True, starred)
            ev.term = term
            st = self.apply(st, self.monitor.on_call(self, st, ev))
            if (
                len(frame.stack) < self.monitor.max_depth
                and func not in frame.stack
                and not is_trivial(func)
                and not self.monitor.opaque(self, ev)
            ):
                return [
                    (self.apply(s, self.monitor.after_call(self, s, ev)), t)
                    for s, t in self.inline(ev, st, frame, lex)
                ]
            return self.opaque_await(term, st, node, frame, ev)
        # Transparent wrappers around coroutines.
        if term[0] == "call" and term[2] in ("asyncio.wait_for", "asyncio.shield") and term[4] and term[4][0][0] == "coro":
            out = []
            st = self.apply(st, self.monitor.on_await(self, st, term, node, frame))
            saved = len(self.sink)
            if term[2] == "asyncio.wait_for":
                self.raise_(st, "TimeoutError", node, frame)
            for s, val in self.await_value(term[4][0], st, node, frame):
                out.append((s, val))
            return out
        return self.opaque_await(term, st, node, frame, None)

    def opaque_await(self, term, st: State, node, frame, ev) -> list:
        st = self.apply(st, self.monitor.on_await(self, st, term, node, frame))
        names = {CANCEL}
        quiet = False
        if ev is not None:
            quiet = self.monitor.raises(self, ev) is False
        if term[0] == "call":
            base = term[2].split(".")[-1]
            if term[2] in ("asyncio.sleep", "asyncio.wait", "asyncio.gather") or (base in ("wait", "acquire", "get", "put", "join") and term[3] is not None):
                quiet = True
            if term[2] == "asyncio.gather":
                quiet = False
        if not quiet:
            names.add(ANY)
        if term[0] == "call" and term[2] == "asyncio.wait_for":
            names.add("TimeoutError")
        self.raise_(self.havoc(st, node, frame), names, node, frame)
        st = self.havoc(st, node, frame)
        if ev is not None:
            st = self.apply(st, self.monitor.after_call(self, st, ev))
        res = ("await", term)
        return [(st, res)]

    def do_await(self, term, st: State, node, frame, extra_only: bool = False) -> State:
        st = self.apply(st, self.monitor.on_await(self, st, term, node, frame))
        names = {CANCEL}
        if not extra_only or True:
            names.add(ANY)
        self.raise_(self.havoc(st, node, frame), names, node, frame)
        return self.havoc(st, node, frame)

    def e_Yield(self, node, st, frame):
        out = []
        pairs = [(st, T.NONE)] if node.value is None else self.ev(node.value, st, frame)
        for s, term in pairs:
            if frame.hook is not None:
                res = frame.hook([s], term)
                for n in res.normal:
                    out.append((n, T.NONE))
                self.sink.extend(res.exc)
                for kind in ("ret", "brk", "cont"):
                    for n in getattr(res, kind):
                        out.append((n.with_(pend=n.pend + ((kind, n.val),), val=None), T.NONE))
                continue
            s = self.apply(s, self.monitor.on_yield(self, s, term, node, frame))
            if self.monitor.yield_raises:
                if frame.func.is_cm:
                    self.raise_(self.havoc(s, node, frame), {ANY, CANCEL}, node, frame)
                else:
                    self.raise_(self.havoc(s, node, frame), {GENEXIT}, node, frame)
            out.append((self.havoc(s, node, frame), ("sent", (frame.uid, node.lineno))))
        return out

    def e_YieldFrom(self, node, st, frame):
        out = []
        for s, term in self.ev(node.value, st, frame):
            s = self.apply(s, self.monitor.on_yield(self, s, ("iter", term, (frame.uid, node.lineno)), node, frame))
            out.append((s, T.NONE))
        return out

    def comp(self, node, st, frame, elts):
        """Evaluate a comprehension: zero or some iterations."""

        def gen(index: int, s: State):
            if index == len(node.generators):
                return [(s2, acc) for s2, acc in self.ev_many(elts, s, frame)]
            g = node.generators[index]
            res = []
            for s2, iterm in self.ev(g.iter, s, frame):
                elem = ("iter", iterm, (frame.uid, g.iter.lineno))
                if elem not in self.ttypes:
                    self.ttypes[elem] = self.program.elem_types(self.types(iterm) or self.program.expr_types(g.iter, frame.func, frame.cls))
                if iterm[0] in ("tuple", "list") and iterm[1]:
                    pass
                else:
                    e = self.assume(s2, iterm, False) if iterm[0] not in ("call",) else s2
                    if e is not None:
                        e = self.apply(e, self.monitor.on_loop(self, e, iterm, True, node, frame))
                        res.append((e, None))
                s3 = self.apply(s2, self.monitor.on_loop(self, s2, iterm, False, node, frame))
                for s4 in self.assign(g.target, elem, s3, frame, node):
                    live = [s4]
                    for cnd in g.ifs:
                        nxt = []
                        for x in live:
                            t, f = self.cond(cnd, x, frame)
                            nxt += t
                            res += [(y, None) for y in f]
                        live = nxt
                    for x in live:
                        res.extend(gen(index + 1, x))
            return res

        names = set()
        for g in node.generators:
            for sub in ast.walk(g.target):
                if isinstance(sub, ast.Name):
                    names.add(sub.id)
        shadow = {n: st.env.get((frame.uid, n)) for n in names}
        local_saved = set(frame.locals)
        frame.locals |= names
        out = []
        iters = []
        for s, acc in gen(0, st):
            env = dict(s.env)
            for n, old in shadow.items():
                if old is None:
                    env.pop((frame.uid, n), None)
                else:
                    env[(frame.uid, n)] = old
            s = s.with_(env=env)
            out.append((s, acc))
        frame.locals = local_saved
        # The iterable's term (recomputed without effects).
        saved, self.sink = self.sink, []
        src = self.ev(node.generators[0].iter, st, frame)
        self.sink = saved
        src_term = src[0][1] if src else T.NONE
        kind = type(node).__name__
        result = []
        for s, acc in out:
            term = ("comp", kind, tuple(acc) if acc else (), src_term)
            if not acc and kind == "ListComp":
                term = ("comp", kind, (), src_term)
            result.append((s, term))
        # Merge by state.
        uniq = {}
        for s, t in result:
            uniq.setdefault((s.key, t), (s, t))
        return list(uniq.values())

    def e_ListComp(self, node, st, frame):
        return self.comp(node, st, frame, [node.elt])

    e_SetComp = e_ListComp
    e_GeneratorExp = e_ListComp

    def e_DictComp(self, node, st, frame):
        return self.comp(node, st, frame, [node.key, node.value])

    # ---------------------------------------------------------------- calls
    def e_Call(self, node, st, frame):
        out = []
        fn = node.func
        # super().
        if isinstance(fn, ast.Name) and fn.id == "super" and not node.args:
            own = frame
            while own is not None and own.func.cls is None:
                own = own.lexical
            if own is not None and frame.self_term is not None:
                return [(st, ("super", frame.self_term, own.func.cls))]
        for s, fterm in self.ev(fn, st, frame):
            # Split receivers for unresolved methods.
            recv, attr = None, None
            if fterm[0] == "bound":
                recv, attr = fterm[1], fterm[2].split(".")[-1]
            elif fterm[0] == "attr":
                recv, attr = fterm[1], fterm[2]
            for s2, args in self.ev_many(node.args, s, frame):
                cur = [(s2, {})]
                starred = any(a[0] == "star" for a in args)
                for kw in node.keywords:
                    nxt = []
                    for s3, acc in cur:
                        for s4, val in self.ev(kw.value, s3, frame):
                            new = dict(acc)
                            if kw.arg is None:
                                starred = True
                                new["**"] = val
                                if val[0] == "dict":
                                    new.pop("**")
                                    for k, v in val[1]:
                                        if k[0] == "const":
                                            new[k[2]] = v
                            else:
                                new[kw.arg] = val
                            nxt.append((s4, new))
                    cur = nxt
                for s3, kwargs in cur:
                    out.extend(self.call(node, fterm, recv, attr, args, kwargs, starred, s3, frame))
        return out

    def site(self, node, frame):
        return (frame.uid, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))

    def call(self, node, fterm, recv, attr, args, kwargs, starred, st: State, frame: Frame) -> list:
        self.calls_seen += 1
        func: Optional[Func] = None
        lex: Optional[Frame] = None
        name = "?"
        tag = fterm[0]
        if tag == "class":
            return self.construct(node, fterm[1], args, kwargs, starred, st, frame)
        if tag == "func":
            func = self.program.functions[fterm[1]]
            name = func.qual
        elif tag == "bound":
            func = self.program.functions.get(fterm[2])
            name = fterm[2]
            if recv is not None and recv[0] == "class" and func is not None and func.is_static:
                pass
        elif tag == "closure":
            func, lex = self.closures.get(fterm, (None, None))
            name = fterm[1]
        elif tag == "ext":
            name = fterm[1]
        elif tag == "attr":
            name = attr
        elif tag == "call":
            name = "?call"
        # Classes reached through values (type(self)(...), cls(...)).
        if tag not in ("func", "bound", "closure", "ext"):
            for tname, targs in self.types(fterm):
                if tname == "type" and targs:
                    inner = [n for n, _ in targs[0] if n in self.program.classes]
                    if len(inner) == 1:
                        return self.construct(node, inner[0], args, kwargs, starred, st, frame)
        # Callable instances.
        if func is None and tag not in ("ext",):
            cls = self.cls_of(fterm)
            if cls is not None:
                meth = self.program.lookup(cls, "__call__")
                if meth is not None:
                    func, recv, attr, name = meth, fterm, "__call__", meth.qual
        if tag == "ext" and self.cls_of(fterm) is not None:
            meth = self.program.lookup(self.cls_of(fterm), "__call__")
            if meth is not None:
                func, recv, attr, name = meth, fterm, "__call__", meth.qual

        # Cheap builtins with value semantics.
        if tag == "ext" and not kwargs:
            if name == "bool" and len(args) == 1:
                return [(st, ("bool", args[0]))]
            if name == "isinstance" and len(args) == 2:
                return [(st, ("isinstance", args[0], args[1]))]
            if name in ("cast", "typing.cast") and len(args) == 2:
                if args[1] not in self.ttypes and isinstance(node, ast.Call):
                    self.ttypes[args[1]] = self.program.ann_types(node.args[0], frame.module, frame.func.cls)
                return [(st, args[1])]
            if name == "type" and len(args) == 1:
                cls = self.cls_of(args[0])
                if args[0][0] == "self":
                    return [(st, ("class", args[0][1]))]
                term = ("typeof", args[0])
                if cls is not None:
                    self.ttypes[term] = frozenset([("type", (frozenset([(cls.qual, ())]),))])
                return [(st, term)]

        ev = CallEv(node, name, func, recv, attr, args, kwargs, frame, False, starred)
        ev.fterm = fterm

        # Async and generator functions don't run until driven.
        if func is not None and (func.is_async or func.is_generator):
            kind = "gen" if (func.is_generator or func.is_cm) else "coro"
            term = (kind, func.qual, recv, tuple(args), tuple(sorted(kwargs.items())), self.site(node, frame))
            self.gen_info[term] = (func, recv, tuple(args), tuple(sorted(kwargs.items())), lex, starred)
            if term not in self.ttypes:
                types = self.program.ret_types(func, None)
                if kind == "coro":
                    self.ttypes[("await", term)] = types
                self.ttypes[term] = types
            ev.term = term
            if kind == "gen":
                st = self.apply(st, self.monitor.on_call(self, st, ev))
            else:
                pre = getattr(self.monitor, "on_coro", None)
                if pre is not None:
                    st = self.apply(st, pre(self, st, ev))
            return [(st, term)]

        term = ("call", self.site(node, frame), name, recv, tuple(args), tuple(sorted(kwargs.items())))
        if name in PURE or (recv is not None and attr in PURE_METHODS):
            term = ("call", (), name if recv is None else attr, recv, tuple(args), tuple(sorted(kwargs.items())))
        ev.term = term
        if term not in self.ttypes:
            types = EMPTY
            if func is not None:
                types = self.program.ret_types(func, None)
            if not types and isinstance(node, ast.Call):
                types = self.program.call_types(node, frame.func, frame.cls, 0)
            self.ttypes[term] = types
            self.ttypes[("await", term)] = types
        st = self.apply(st, self.monitor.on_call(self, st, ev))
        if (
            func is not None
            and len(frame.stack) < self.monitor.max_depth
            and func not in frame.stack
            and not is_trivial(func)
            and not self.monitor.opaque(self, ev)
        ):
            return [
                (self.apply(s, self.monitor.after_call(self, s, ev)), t)
                for s, t in self.inline(ev, st, frame, lex)
            ]
        may = self.monitor.raises(self, ev)
        if may is None:
            may = not (
                name in NO_RAISE_FUNCS
                or (attr in NO_RAISE_METHODS and func is None)
                or "logger" in T.path(recv or ("ext", ""))
                or (func is not None and func.name in ("governed_log",))
            )
        if isinstance(may, (set, frozenset, tuple)):
            for exc in sorted(may):
                self.raise_(st, exc, node, frame)
        elif may:
            self.raise_(st, ANY, node, frame)
        if recv is not None and recv[0] == "self" and func is not None:
            st = self.havoc(st, node, frame)
        index = (getattr(self.monitor, "invokes", None) or {}).get(name)
        if callable(index):
            # Something that runs meanwhile, or not.
            last = after = [st]
            for target, given in index(self, ev):
                last = [x for s in last for x in self.invoke(node, target, s, frame, given)]
                after = after + last
            return [(self.apply(s, self.monitor.after_call(self, s, ev)), term) for s in after]
        elif index is not None and index < len(args):
            return [(self.apply(s, self.monitor.after_call(self, s, ev)), term) for s in self.invoke(node, args[index], st, frame)]
        # Exceptions that an exit stack suppresses.
        if attr == "enter_context" and recv is not None and args and args[0][0] == "call" and args[0][2].endswith("contextlib.suppress"):
            names = tuple(a[1] for a in args[0][4] if a[0] in ("ext", "class"))
            st = st.with_(held=st.held + (("suppresses", T.strip(recv), names),))
        st = self.apply(st, self.monitor.after_call(self, st, ev))
        return [(st, term)]

    def invoke(self, node, target, st: State, frame: Frame, args=()) -> list[State]:
        """Run a callback that a library function is known to call."""
        if target[0] == "bound":
            got = self.call(node, target, target[1], target[2].split(".")[-1], list(args), {}, False, st, frame)
        elif target[0] in ("closure", "func"):
            got = self.call(node, target, None, None, list(args), {}, False, st, frame)
        elif target[0] == "call" and target[2] == "functools.partial" and target[4]:
            return self.invoke(node, target[4][0], st, frame, tuple(target[4][1:]) + tuple(args))
        elif target[0] == "attr":
            got = self.call(node, target, target[1], target[2], list(args), {}, False, st, frame)
        else:
            return [st]
        return [s for s, _ in got]

    def construct(self, node, qual, args, kwargs, starred, st, frame):
        cls = self.program.classes[qual]
        term = ("new", self.site(node, frame), qual, tuple(args), tuple(sorted(kwargs.items())))
        init = self.program.lookup(cls, "__init__")
        ev = CallEv(node, qual, init, None, None, args, kwargs, frame, False, starred)
        ev.term = term
        st = self.apply(st, self.monitor.on_call(self, st, ev))
        may = self.monitor.raises(self, ev)
        if may:
            self.raise_(st, ANY, node, frame)
        st = self.apply(st, self.monitor.after_call(self, st, ev))
        return [(st, term)]

    def bind(self, ev: CallEv, frame: Frame, uid: str, st: State):
        """Bind arguments to parameters."""
        func = ev.func
        env = dict(st.env)
        params = func.params()
        args = list(ev.args)
        star = next((i for i, a in enumerate(args) if a[0] == "star"), None)
        kwargs = dict(ev.kwargs)
        extra = kwargs.pop("**", None)
        self_term = None
        cls = None
        if func.cls is not None and params and not func.is_static:
            self_term = ev.recv if ev.recv is not None else ("param", func.qual, params[0].arg)
            # Class attribute access on explicit base: Base.method(self, ...).
            if ev.recv is not None and ev.recv[0] == "class" and not func.is_classmethod:
                if args:
                    self_term = args.pop(0)
            env[(uid, params[0].arg)] = self_term
            if self_term[0] in ("self", "class"):
                cls = self.program.classes.get(self_term[1])
            else:
                cls = self.cls_of(self_term)
            if cls is None or func.cls not in self.program.mro_classes(cls):
                cls = func.cls
            params = params[1:]
        defaults = func.node.args.defaults
        n_def = len(defaults)
        all_params = func.params()
        for i, arg in enumerate(params):
            if star is not None and i >= star:
                term = ("starparam", uid, arg.arg)
            elif i < len(args):
                term = args[i]
            elif arg.arg in kwargs:
                term = kwargs.pop(arg.arg)
            elif extra is not None:
                term = ("kw", extra, arg.arg)
            else:
                pos = all_params.index(arg) - (len(all_params) - n_def)
                term = self.default(defaults[pos], func) if pos >= 0 else ("missing", arg.arg)
            env[(uid, arg.arg)] = term
            if term not in self.ttypes and arg.annotation is not None:
                self.ttypes[term] = self.program.ann_types(arg.annotation, func.module, func.cls)
        for arg, dflt in zip(func.node.args.kwonlyargs, func.node.args.kw_defaults):
            if arg.arg in kwargs:
                term = kwargs.pop(arg.arg)
            elif extra is not None:
                term = ("kw", extra, arg.arg)
            elif dflt is not None:
                term = self.default(dflt, func)
            else:
                term = ("missing", arg.arg)
            env[(uid, arg.arg)] = term
        if func.node.args.vararg is not None:
            env[(uid, func.node.args.vararg.arg)] = ("tuple", tuple(args[len(params) :])) if star is None else ("starparam", uid, "*")
        if func.node.args.kwarg is not None:
            items = [(T.const(k), v) for k, v in sorted(kwargs.items())]
            if extra is not None:
                env[(uid, func.node.args.kwarg.arg)] = extra if not items else ("dict", tuple(items + [(("star",), extra)]), (uid, 0, 0))
            else:
                env[(uid, func.node.args.kwarg.arg)] = ("dict", tuple(items), (uid, 0, 0))
        return st.with_(env=env), self_term, cls

    def default(self, node, func: Func):
        if isinstance(node, ast.Constant):
            return T.const(node.value)
        if isinstance(node, ast.UnaryOp) and isinstance(node.operand, ast.Constant) and isinstance(node.op, ast.USub):
            return T.const(-node.operand.value)
        name = dotted(node)
        if name is not None:
            full = func.module.resolve_dotted(name)
            if full in self.program.classes:
                return ("class", full)
            if full in self.program.functions:
                return ("func", full)
            head, _, last = full.rpartition(".")
            if head in self.program.classes:
                return ("attr", ("class", head), last, ())
            return ("ext", full)
        return ("default", func.qual, ast.dump(node))

    def enter_frame(self, ev: CallEv, st: State, frame: Frame, lex, hook=None):
        uid = f"{frame.uid}/{ev.func.name}:{ev.node.lineno}.{ev.node.col_offset}"
        st, self_term, cls = self.bind(ev, frame, uid, st)
        if self_term is None and lex is not None:
            self_term, cls = lex.self_term, lex.cls
        new = Frame(ev.func, cls, uid, self_term, frame.depth + 1, frame, frame.stack + (ev.func,), lex, hook)
        self.visited.add(ev.func.qual)
        return st, new

    def leave(self, st: State, uid: str, func: Func) -> State:
        keep = any(isinstance(n, (*FuncNode, ast.Lambda)) for n in ast.walk(func.node) if n is not func.node)
        if keep:
            return st
        env = {k: v for k, v in st.env.items() if k[0] != uid}
        return st.with_(env=env)

    def inline(self, ev: CallEv, st: State, frame: Frame, lex=None) -> list:
        if lex is None and ev.func.outer is not None:
            cur = frame
            while cur is not None and cur.func is not ev.func.outer:
                cur = cur.lexical or cur.parent
            lex = cur
        st, new = self.enter_frame(ev, st, frame, lex)
        out = self.body(ev.func, [st], new)
        for s in out.exc:
            self.sink.append(self.leave(s, new.uid, ev.func))
        res = []
        for s in out.ret:
            term = s.val[1]
            if term not in self.ttypes:
                types = self.program.ret_types(ev.func, None)
                if types:
                    self.ttypes[term] = types
            res.append((self.leave(s, new.uid, ev.func).with_(val=None), term))
        # Merge.
        uniq = {}
        for s, t in res:
            uniq.setdefault((s.key, t), (s, t))
        if len(uniq) > 150:
            by_term: dict = {}
            for s, t in uniq.values():
                by_term.setdefault(t, []).append(s)
            return [(s, t) for t, group in by_term.items() for s in (self.widen(group) if len(group) > 1 else group)]
        return list(uniq.values())

    def inline_cm(self, ev: CallEv, st: State, frame: Frame, lex, run_body) -> Out:
        """Run a generator-based context manager around a body."""
        out = Out()

        def hook(states, value):
            return run_body(states, value)

        if lex is None and ev.func.outer is not None:
            lex = frame
        st, new = self.enter_frame(ev, st, frame, lex, hook)
        base = len(st.pend)
        res = self.body(ev.func, [st], new)
        out.exc.extend(self.leave(s.with_(pend=s.pend[:base]), new.uid, ev.func) for s in res.exc)
        for s in res.ret:
            s = self.leave(s, new.uid, ev.func)
            if len(s.pend) > base:
                kind, val = s.pend[base]
                getattr(out, kind).append(s.with_(pend=s.pend[:base], val=val))
            else:
                out.normal.append(s.with_(val=None))
        return out


EXC_ALIASES = {
    "asyncio.TimeoutError": "TimeoutError",
    "asyncio.exceptions.CancelledError": CANCEL,
    "IOError": "OSError",
    "EnvironmentError": "OSError",
    "LookupError": "LookupError",
}
KNOWN_SUB = {
    "struct.error": {"Exception"},
    "json.JSONDecodeError": {"ValueError"},
    "UnicodeDecodeError": {"ValueError", "UnicodeError"},
}


def _is_base_only(name: str) -> bool:
    return name in (CANCEL, "KeyboardInterrupt", "SystemExit", GENEXIT)


def _singleton(term) -> bool:
    """A term that denotes one fixed value, distinct from other singletons."""
    if term[0] == "const":
        return True
    return term[0] == "attr" and term[1][0] == "class" and term[2].isupper()


def _kindval(val):
    return None if val is None else val[0]


def _joinval(vals):
    first = vals[0]
    if first is None:
        return None
    if first[0] == "exc":
        names = frozenset()
        for v in vals:
            names |= v[1]
        return ("exc", names, T.NONE)
    return (first[0], ("phi", "join", "ret"))


def _drop(st: State, key) -> State:
    if key in st.env:
        env = dict(st.env)
        env.pop(key)
        return st.with_(env=env)
    return st


def _stale(term, epoch) -> bool:
    """A literal about attribute contents from before the last havoc."""
    return any(t[0] in ("attr", "sub") and len(t) > 3 and t[3] != epoch and t[3] != () for t in T.walk(term))


def _as_load(node):
    if isinstance(node, ast.Name):
        return ast.copy_location(ast.Name(node.id, ast.Load()), node)
    if isinstance(node, ast.Attribute):
        return ast.copy_location(ast.Attribute(node.value, node.attr, ast.Load()), node)
    return ast.copy_location(ast.Subscript(node.value, node.slice, ast.Load()), node)


def mkbin(op: str, a, b):
    if a[0] == "const" and b[0] == "const":
        try:
            x, y = a[2], b[2]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) and not isinstance(x, bool):
                if op == "+":
                    return T.const(x + y)
                if op == "-":
                    return T.const(x - y)
                if op == "*":
                    return T.const(x * y)
                if op == "**" and abs(y) < 256:
                    return T.const(x**y)
                if op == "<<" and 0 <= y < 256:
                    return T.const(x << y)
                if op == "/" and y:
                    return T.const(x / y)
                if op == "//" and y:
                    return T.const(x // y)
            if isinstance(x, str) and isinstance(y, str) and op == "+":
                return T.const(x + y)
        except (TypeError, ValueError, OverflowError):
            pass
    if op in COMMUTATIVE and repr(T.strip(b)) < repr(T.strip(a)):
        a, b = b, a
    return ("bin", op, a, b)


def mknot(t):
    if t[0] == "const":
        return T.const(not t[2])
    if t[0] == "not" and t[1][0] in ("cmp", "isnone", "in", "isinstance", "bool", "not"):
        return t[1]
    return ("not", t)


PURE = {"len", "str", "bytes", "int", "float", "min", "max", "abs", "list", "tuple", "sorted", "set", "round", "repr", "dict", "range", "zip", "enumerate", "reversed", "hasattr", "issubclass", "frozenset", "copy.copy"}
PURE_METHODS = {"decode", "encode", "strip", "lower", "upper", "startswith", "endswith", "values", "items", "keys", "bit_length"}


def assigned_names(node) -> set[str]:
    out = set()
    for sub in ast.walk(node):
        if isinstance(sub, ast.Name) and isinstance(sub.ctx, ast.Store):
            out.add(sub.id)
    return out
