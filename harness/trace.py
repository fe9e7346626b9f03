"""C29: V8-style stack texts of Python exceptions.

Exceptions come in as stand-ins for traceback.TracebackException (what its documented attributes hold), with
real traceback.FrameSummary objects whose fields are symbolic.
"""
from traceback import FrameSummary

from v8serialize import dumps, loads
from v8serialize.constants import JSErrorName
from v8serialize.jstypes._v8traceback import format_exception_for_v8
from v8serialize.jstypes.jserror import JSError, JSErrorData


class Tbe:
    def __init__(self, lines, frames, exceptions=None):
        self.lines = lines
        self.stack = frames
        self.exceptions = exceptions
        self.__context__ = None
        self.__cause__ = None
        self.__suppress_context__ = False

    def format_exception_only(self):
        yield from self.lines


def part(S, name, what, value):
    return value if S.flag(name + " has " + what) else None


def frame(S, name, full=False):
    """A frame as (name, file, line, column) and as the FrameSummary."""
    n = "f" + S.str(name + " name", 1, 0x21, 0x7e)
    if full:
        file, line, col = name + ".py", S.int(name + " line", 0, 9), S.int(name + " column", 0, 9)
    else:
        file = part(S, name, "file", S.str(name + " file", 1, 0x21, 0x7e))
        line = part(S, name, "line", S.int(name + " line", 0, 12))
        col = part(S, name, "column", S.int(name + " column", 0, 12))
    fs = FrameSummary("", None, n, lookup_line=False, locals=None, line="source text")
    fs.filename, fs.lineno, fs.colno = file, line, col
    return (n, file, line, col), fs


def frame_text(f):
    n, file, line, col = f
    if file is None and line is None and col is None:
        return "    at " + n + " (unknown location)\n"
    return ("    at " + n + " (" + ("<unknown>" if file is None else file) + ":" + ("<unknown>" if line is None else str(line))
            + ":" + ("<unknown>" if col is None else str(col)) + ")\n")


def exc(S, name, frames, members=(), full=True, notes=0):
    lines = ["E" + S.str(name + " text", 1, 0x21, 0x7e) + "\n"]
    for i in range(notes):
        lines.append(S.str(name + " note %d" % i, 1, 0x20, 0x7e) + "\n")
    fs = [frame(S, name + str(i), full) for i in range(frames)]
    t = Tbe(lines, [f[1] for f in fs], [m for m in members] or None)
    t.oracle = (lines, [f[0] for f in fs])
    return t


def blank(text):
    for c in text:
        if c not in " \n":
            return False
    return True


def own(t, path):
    lines, frames = t.oracle
    out = list(lines)
    for f in frames[::-1]:
        out.append(frame_text(f))
    i = 0
    for m in t.exceptions or []:
        i += 1
        p = path + [i]
        out.append("\n")
        first = True
        for line in whole(m, p):
            if first:
                out.append("  ↳ " + ".".join([str(x) for x in p]) + ": " + line)
            elif blank(line):
                out.append(line.replace(" ", ""))
            else:
                out.append("    " + line)
            first = False
    return out


def whole(t, path=()):
    out = own(t, list(path))
    while t.__context__ is not None and not t.__suppress_context__:
        t = t.__context__
        out += ["\n", "The above exception occurred while handling another exception:\n", "\n"]
        out += own(t, [])
    return out


def compare(S, t):
    got = list(format_exception_for_v8(t))
    want = whole(t)
    for line in got:
        S.check(line[-1:] == "\n", "a line does not end in a newline")
    S.check("".join(got) == "".join(want), "stack text")
    return "".join(got)


def frames(S, n):
    """Any frames with any parts of their locations known."""
    k = S.choice("frames", n + 1)
    S.reached("frames" if k else "no frames")
    S.observe(compare(S, exc(S, "e", k, full=False, notes=S.choice("notes", 2))))


def many(S, n):
    S.observe(compare(S, exc(S, "e", S.choice("frames", list(range(n + 1))))))


def contexts(S, n):
    """Chains of contexts, each link suppressed or not."""
    k = S.choice("contexts", n + 1)
    t = exc(S, "e", 1)
    last = t
    for i in range(k):
        c = exc(S, "c%d" % i, S.choice("c%d frames" % i, 2), notes=1 if i == 0 else 0)
        last.__context__ = c
        last.__suppress_context__ = S.flag("suppressed %d" % i)
        if last.__suppress_context__:
            S.reached("suppressed")
        last = c
    S.observe(compare(S, t))


def groups(S, n, depth, contexts=True):
    """Exception groups: members with frames, contexts and members of their own."""
    def group(name, d):
        ms = []
        if d:
            for i in range(S.choice(name + " members", n + 1)):
                ms.append(group(name + ".%d" % i, d - 1))
        t = exc(S, name, S.choice(name + " frames", 2) if contexts else 1, ms, notes=1 if d == 0 else 0)
        if contexts and S.flag(name + " context"):
            t.__context__ = exc(S, name + " c", 1)
            t.__suppress_context__ = S.flag(name + " suppressed")
            S.reached("context")
        if ms:
            S.reached("members")
        return t
    S.observe(compare(S, group("g", depth)))


def data(S, n):
    """JSErrorData from exceptions with chains of causes."""
    k = S.choice("causes", n + 1)
    cls = S.choice("class", [0, 1])
    t = exc(S, "e", S.choice("frames", 2), notes=S.choice("notes", 2))
    if S.flag("no text"):
        t.lines = []
        t.oracle = ([], t.oracle[1])
    chain = [t]
    for i in range(k):
        c = exc(S, "c%d" % i, S.choice("c%d frames" % i, 2))
        chain[-1].__cause__ = c
        chain[-1].__context__ = c
        chain[-1].__suppress_context__ = S.flag("suppressed %d" % i)
        chain.append(c)

    class Sub(JSErrorData):
        pass
    e = (Sub if cls else JSErrorData).from_traceback_exception(t)
    for c in chain:
        S.check(isinstance(e, Sub if cls else JSErrorData), "class")
        S.check(e.name == JSErrorName.Error, "name")
        if c.lines:
            S.check(e.message == c.lines[0][:-1], "message")
        else:
            S.check(e.message is None, "message of nothing")
            S.reached("no text")
        text = "".join(whole(c))
        while text and text[-1] in "\n ":
            text = text[:-1]
        S.check(e.stack == text, "stack")
        e = e.cause
    S.check(e is None, "cause of the last")


class Odd(Exception):
    def __str__(self):
        raise RuntimeError("no text")


def raised(depth, kind):
    """A really raised exception, through `depth` calls."""
    if depth:
        return raised(depth - 1, kind)
    if kind == "group":
        raise ExceptionGroup("many", [ValueError("one"), KeyError("two")])
    if kind == "syntax":
        compile("a b", "<text>", "exec")
    if kind == "odd":
        raise Odd()
    if kind == "empty":
        raise ValueError
    if kind == "notes":
        e = ValueError("with")
        e.add_note("a note")
        raise e
    if kind == "context" or kind == "suppressed":
        try:
            raise KeyError("inner")
        except KeyError:
            if kind == "suppressed":
                raise ValueError("outer") from None
            raise ValueError("outer")
    if kind == "cause":
        try:
            raise KeyError("inner")
        except KeyError as e:
            raise ValueError("outer") from e
    if kind == "cyclic":
        e = ValueError("outer")
        e.__cause__ = KeyError("inner")
        e.__cause__.__cause__ = e
        raise e
    raise ValueError("plain")


FIRST = {"group": "ExceptionGroup: many (2 sub-exceptions)", "syntax": None, "odd": "%s: <exception str() failed>",
         "empty": "ValueError", "notes": "ValueError: with", "context": "ValueError: outer", "suppressed": "ValueError: outer",
         "cause": "ValueError: outer", "cyclic": "ValueError: outer", "plain": "ValueError: plain"}


def real(S, depth):
    """What dumps() makes of really raised exceptions."""
    kind = S.choice("kind", sorted(FIRST))
    d = S.choice("depth", depth + 1)
    try:
        raised(d, kind)
    except Exception as e:
        x = e
    wrap = S.flag("in a list")
    r = loads(dumps([x, x, 7] if wrap else x))
    if wrap:
        S.check(S.all([len(r) == 3, r[2] == 7]), "neighbours")
        S.check(r[0] is r[1], "the exception is one object")
        r = r[0]
    S.check(isinstance(r, JSError), "an error")
    S.check(r.name == "Error", "name")
    if kind != "syntax" and kind != "odd":
        S.check(r.message == FIRST[kind], "message")
        S.check(r.stack.startswith(FIRST[kind]), "stack begins with the message")
    own = r.stack.split("The above exception")[0]
    S.check(own.count("    at raised (") >= d + 1, "a frame for every call")
    S.check(("KeyError: 'inner'" in r.stack) is (kind == "context"), "context in the stack")
    S.check(("  ↳ 1: ValueError: one" in r.stack) is (kind == "group"), "members in the stack")
    S.check(("  ↳ 2: KeyError: 'two'" in r.stack) is (kind == "group"), "second member in the stack")
    S.check(("a note" in r.stack) is (kind == "notes"), "note")
    if kind == "cause" or kind == "cyclic":
        S.check(r.cause.message == "KeyError: 'inner'", "cause")
        S.check(r.cause.cause is None, "cause of the cause")
    else:
        S.check(r.cause is None, "no cause")
