"""C15: line editing gives back the text that the keys build, and the screen shows it.

`read_line` is interpreted over consoles of unknown depth of history: at every request for a key the state is
compared with a model of the line (its characters, the cursor, the history) and of one row of the screen, and
every key is tried.  States that differ only in the names of the characters are explored once, so that within
bounds on the lengths all sequences of keys are covered, however long."""

import strs
import terms
import traces
from strs import seg
from traces import obj, trait_call
from checks import c13, c14
from checks.c06 import V

CRATE = "endbasic_std"
CONSOLE = "endbasic_std::console::Console"
IGNORED = ("Escape", "PageDown", "PageUp", "Tab", "Unknown")
KEYS = ("ArrowDown", "ArrowLeft", "ArrowRight", "ArrowUp", "Backspace", "CarriageReturn", "Char", "Delete", "End", "EofOrDelete", "Home", "Interrupt", "NewLine") + IGNORED
HISTORY = 91000


def c(x):
    return ("c", x)


def renamed(text, env):
    """Renames the characters that were typed in the order of their appearance in `text`.  -> (table, environment)"""
    names = {}
    for ch in text:
        if strs.private(ch) and ch not in names:
            names[ch] = seg("typed %d" % len(names))
    for i in range(20):
        names.setdefault(seg("typed %d" % i), seg("gone"))
    tr = str.maketrans(names)
    codes = {ord(k): ord(v) for k, v in names.items()}

    def ren(v):
        if v is None or not isinstance(v, tuple) or not v:
            return v
        if v[0] == "s":
            return ("s", v[1].translate(tr))
        if v[0] == "c":
            return ("c", codes[v[1]]) if v[1] in codes and not isinstance(v[1], bool) else v
        if v[0] == "v":
            return ("v", v[1], tuple(ren(x) for x in v[2]))
        if v[0] in ("t", "vec"):
            return (v[0], tuple(ren(x) for x in v[1]))
        return v
    # Keys are not looked at again.
    return tr, {k: ren(v) for k, v in env.items() if v is None or v[:2] != ("v", "Future!")}


MOST = 1500

class Bad(Exception):
    pass


class Session:
    """The reader's surroundings: one row of a console and the keys of a user."""

    def __init__(self, P, columns, secure, longest, all_keys=False, interactive=True):
        self.P, self.columns, self.secure, self.longest, self.all_keys, self.interactive = P, columns, secure, longest, all_keys, interactive
        self.seen, self.problems, self.steps = set(), [], 0

    def bad(self, key, text):
        if (key, text) not in self.problems:
            self.problems.append((key, text))

    # The state: (line, cursor in it, history, position in it, row, column, hidden, prompt, over, last key, keys left)

    def fresh(self, line, hist):
        used = set("".join((line,) + hist))
        i = 0
        while seg("typed %d" % i) in used:
            i += 1
        return seg("typed %d" % i)

    def canonical(self, st, env):
        line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
        tr, env = renamed("".join(hist) + line, env)
        return (line.translate(tr), pos, tuple(h.translate(tr) for h in hist), hp, row.translate(tr), col, hidden, prompt, over, last, left), env

    def shown(self, st):
        """Checks what the user sees while the reader waits for a key."""
        line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
        if hidden:
            self.bad("cursor", "leaves the cursor hidden after %s" % last)
        room = self.columns - prompt - 1
        if room < 1:
            return
        text = "*" * len(line) if self.secure else line
        good = False
        for view in range(0, len(line) + 1):
            if 0 <= pos - view <= room and row[prompt:] == text[view:view + room].ljust(room + 1) and col == prompt + pos - view:
                good = True
        if not good:
            if self.secure and any(strs.private(x) for x in row[prompt:]):
                self.bad("secret", "shows a secret that is typed")
            else:
                self.bad("screen", "shows something else than the line and the place of the cursor in it after %s" % last)

    def write(self, st, text):
        line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
        for ch in text:
            if col >= self.columns:
                raise Bad("width", "writes beyond the end of the row")
            if ch == "\n" or ch == "\r":
                raise Bad("row", "leaves the row while it edits")
            row = row[:col] + ch + row[col + 1:]
            col += 1
        if col >= self.columns:
            raise Bad("width", "leaves the cursor beyond the end of the row")
        return (line, pos, hist, hp, row, col, hidden, prompt, over, last, left)

    def press(self, st, name):
        """-> the model after a key, or None when it does not apply."""
        line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
        room = self.columns - prompt - 1
        shown = name
        if left is not None and (self.all_keys or name == "Char"):
            if left == 0:
                return None
            left -= 1
        if name == "Char":
            ch = self.fresh(line, hist)
            if len(line) >= self.longest:
                return None
            if room > 0:
                line, pos = line[:pos] + ch + line[pos:], pos + 1
            key = V("Char", c(ord(ch)))
        else:
            key = V(name)
        if name == "ArrowLeft":
            pos = max(0, pos - 1)
        elif name == "ArrowRight":
            pos = min(len(line), pos + 1)
        elif name == "Home":
            pos = 0
        elif name == "End":
            pos = len(line)
        elif name == "Backspace" and pos > 0:
            line, pos = line[:pos - 1] + line[pos:], pos - 1
        elif name == "Delete":
            line = line[:pos] + line[pos + 1:]
        elif name == "EofOrDelete":
            if line:
                line = line[:pos] + line[pos + 1:]
            else:
                over = "UnexpectedEof"
        elif name == "Interrupt":
            over = "Interrupted"
        elif name in ("CarriageReturn", "NewLine"):
            over = "accept"
        elif name in ("ArrowUp", "ArrowDown") and hist:
            to = hp + (-1 if name == "ArrowUp" else 1)
            if 0 <= to < len(hist):
                hist = hist[:hp] + (line,) + hist[hp + 1:]
                hp, line = to, hist[to]
                pos = len(line)
        return key, (line, pos, hist, hp, row, col, hidden, prompt, over, shown, left)

    def hook(self, cl, a, st, ai, env):
        if cl.name in ("new", "from") and a and "io::error::Error" in traces.dest_type(ai, cl) and not cl.path.startswith("endbasic"):
            return [(V("io error", ai.deep(a[0], env)), st)]
        if cl.name == "from_residual" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] == "Err":
            return [(V("Err", *[ai.deep(x, env) for x in a[0][2]]), st)]
        if not trait_call(cl, CONSOLE):
            return None
        name = cl.name
        args = [ai.deep(x, env) for x in a[1:]]
        fail = obj("console error")

        def fallible(value, st2):
            bad = st[:8] + ("failed", name, 0)
            return traces.outcomes(ai, cl, st, value, st2, bad, fail)
        if name == "is_interactive":
            return [(c(int(self.interactive)), st)]
        if name == "size_chars":
            return fallible(c13.struct(self.P, CONSOLE.rsplit("::", 1)[0] + "::CharsXY", x=c(self.columns), y=c(25)), st)
        line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
        if over == "failed":
            self.bad("failure", "keeps using the console after it failed")
            return []
        if over and not (over == "accept" and name in ("print", "sync_now")):
            self.bad("over", "keeps going after %s" % last)
            return []
        try:
            if name == "read_key":
                if prompt is None:
                    # What was shown by now is the question and the text to edit.
                    prompt = col - min(len(line), max(0, self.columns - 1))
                    st = self.started(st)
                    line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
                self.shown(st)
                if self.problems:
                    return []
                st, env = self.canonical(st, env)
                key = (st[:9], left, repr(sorted(env.items(), key=lambda x: x[0])))
                if key in self.seen:
                    return []
                self.seen.add(key)
                out = []
                bad = st[:8] + ("failed", name, 0)
                out.append((traces.future(V("Err", fail)), bad, env))
                # Too many states: whether the lines reached by now are given back is all there is to see.
                for k in KEYS if len(self.seen) < MOST else ("NewLine",):
                    r = self.press(st, k)
                    if r is not None:
                        self.steps += 1
                        out.append((traces.future(V("Ok", r[0])), r[1], env))
                return out
            if name in ("write", "print"):
                t = args[0]
                if t is None or t[0] != "s":
                    raise Bad("text", "writes something that is not part of the line")
                if name == "print":
                    if t[1]:
                        st = self.write(st, t[1])
                    return fallible(("t", ()), st[:4] + (" " * self.columns, 0) + st[6:])
                return fallible(("t", ()), self.write(st, t[1]))
            if name == "move_within_line":
                if args[0] is None or args[0][0] != "c":
                    raise Bad("move", "moves the cursor by an unknown distance")
                to = col + args[0][1]
                if not 0 <= to < self.columns:
                    raise Bad("move", "moves the cursor out of the row")
                return fallible(("t", ()), (line, pos, hist, hp, row, to, hidden, prompt, over, last, left))
            if name in ("hide_cursor", "show_cursor"):
                return fallible(("t", ()), (line, pos, hist, hp, row, col, name == "hide_cursor", prompt, over, last, left))
            if name in ("sync_now",):
                return fallible(("t", ()), st)
        except Bad as e:
            self.bad(e.args[0], "%s after %s" % (e.args[1], last))
            return []
        self.bad("request", "requests `%s` of the console after %s" % (name, last))
        return []

    def started(self, st):
        """The row after the question was written: the question and the visible part of the text to edit."""
        line, pos, hist, hp, row, col, hidden, prompt, over, last, left = st
        n = self.prompt_length
        if n >= self.columns:
            # The question does not fit: whatever is left of it must leave room for the line.
            n = len(row.rstrip())
            if n >= self.columns - 1:
                self.bad("room", "leaves no room after a question that does not fit")
        elif row[:n] != self.prompt_text:
            self.bad("prompt", "does not show the question")
        return (line, pos, hist, hp, row, col, hidden, n, over, last, left)


def session(P, body, columns, prompt, previous, history, secure, longest, left=None, wide=False):
    """All sequences of keys for one beginning.  -> (problems, states, steps, lines accepted)"""
    s = Session(P, columns, secure, longest, all_keys=bool(previous))
    text = "".join((seg("prompt %d" % i) if wide else "?") for i in range(prompt))
    s.prompt_text, s.prompt_length = text, prompt
    prev = "".join(seg("typed %d" % i) for i in range(previous))
    hist = tuple("".join(seg("entry %d %d" % (i, j)) for j in range(k)) for i, k in enumerate(history)) if history is not None else ()
    env = {1: obj("console"), 2: ("s", text)}
    if not secure:
        env[3] = ("s", prev)
        if history is None:
            env[4] = V("None")
        else:
            env[HISTORY] = ("vec", tuple(("s", x) for x in hist))
            env[4] = V("Some", ("ref", HISTORY, "[]"))
    full = hist + (prev,) if history is not None else ()
    st = (prev, previous, full, len(full) - 1 if full else 0, " " * columns, 0, False, None, None, "the start", left)
    outs, dead, over, t = terms.run_text(P, body, s.hook, lambda cl, b: b.crate == CRATE, st, env, 20000000)
    if over or len(s.seen) >= MOST:
        s.bad("engine", "is too complex to analyse")
    for x in t.panics:
        s.bad("panic", "may panic after %s" % x[3][9])
    accepted = 0
    for v, st, e in outs:
        line, pos, h, hp, row, col, hidden, pr, done, last, left = st
        ok = v is not None and v[0] == "v" and v[1] == "Ok"
        if done == "failed":
            if ok or v is None:
                s.bad("failure", "drops a failure of the console")
        elif done == "accept":
            if not ok or v[2][0] != ("s", line):
                s.bad("result", "gives back something else than the line that was typed")
            accepted += 1
            if full:
                got = next((e[k] for k in (HISTORY, HISTORY - 1000000) if k in e), None)
                got = tuple(x[1] if x is not None and x[0] == "s" else None for x in got[1]) if got is not None and got[0] == "vec" else None
                # The line is the last entry from now on; no entry is left for an empty one.
                if got != (h[:-1] + (line,) if line else h[:-1]):
                    s.bad("history", "does not leave the line at the end of the history")
        elif done:
            if ok or v is None or done not in repr(v):
                s.bad("end", "does not report %s" % ("the end of the input" if done != "Interrupted" else "the interrupt"))
        else:
            s.bad("early", "ends after %s" % last)
    return s.problems, len(s.seen), s.steps, accepted


def raw(ctx, P, body):
    """Lines from something that is not a terminal: the characters up to the end of the line."""
    class Raw(Session):
        def hook(self, cl, a, st, ai, env):
            if trait_call(cl, CONSOLE) and cl.name not in ("read_key", "is_interactive"):
                self.bad("raw", "uses the console for something else than reading")
                return []
            if trait_call(cl, CONSOLE) and cl.name == "read_key":
                text, over, left = st
                if over:
                    self.bad("over", "keeps reading after %s" % over)
                    return []
                out = [(traces.future(V("Err", obj("console error"))), (text, "failed", 0), env)]
                if left == 0:
                    return out
                for k in KEYS:
                    self.steps += 1
                    v, t, o = V(k), text, None
                    if k == "Char":
                        ch = seg("typed %d" % len(text))
                        v, t = V("Char", c(ord(ch))), text + ch
                    elif k == "Backspace":
                        t = text[:-1]
                    elif k in ("CarriageReturn", "NewLine"):
                        o = "accept"
                    elif k == "Interrupt":
                        o = "Interrupted"
                    elif k == "EofOrDelete":
                        o = "UnexpectedEof"
                    elif k == "Unknown":
                        t = text + "?"
                    out.append((traces.future(V("Ok", v)), (t, o, left - 1), env))
                return out
            return super().hook(cl, a, st, ai, env)
    s = Raw(P, 80, False, 4, interactive=False)
    env = {1: obj("console"), 2: ("s", "?"), 3: ("s", ""), 4: V("None")}
    outs, dead, over, t = terms.run_text(P, body, s.hook, lambda cl, b: b.crate == CRATE, ("", None, 4), env, 1000000)
    if over or not outs:
        s.bad("engine", "is too complex to analyse")
    if t.panics:
        s.bad("panic", "may panic")
    for v, (text, done, left), e in outs:
        ok = v is not None and v[0] == "v" and v[1] == "Ok"
        if v is None or ok != (done == "accept") or ok and v[2][0] != ("s", text):
            s.bad("result", "gives back something else than the line that is read")
        if not ok and done in ("Interrupted", "UnexpectedEof") and done not in repr(v):
            s.bad("end", "does not report %s" % done)
    return s.problems, s.steps


def sessions():
    """(columns, length of the question, of the text to edit, of the entries of the history, secret, longest line, keys left, wide question)"""
    for columns in (3, 4, 5):
        for secret in (False, True):
            yield columns, 1, 0, None, secret, columns, None, False
            yield columns, 0, 0, None, secret, columns + 1, None, False
    for columns in (2, 3, 4, 5, 6, 7):
        for prompt in (columns - 1, columns, columns + 1, columns + 9):
            for wide in (False, True):
                yield columns, prompt, 0, None, False, 2, None, wide
    yield 5, 2, 0, None, False, 4, None, True
    yield 5, 2, 0, None, True, 4, None, True
    for columns in (4, 6):
        for previous in (1, 2, 3, 4, 6):
            yield columns, 1, previous, None, False, 8, 3, False
    for entries in ([], [1], [3], [1, 2], [2, 2, 3]):
        yield 4, 1, 0, entries, False, 3, int(sum(entries) < 5), False
    yield 6, 1, 0, [1], False, 4, 2, False
    yield 4, 1, 2, [1, 3], False, 3, 3, False


def run(ctx):
    P = ctx.P
    bodies = {}
    for b in P.bodies(crates={CRATE}, kinds=("fn",)):
        ts = [str(b.locals[i]) for i in range(1, b.argc + 1)]
        if ts and ts[0].startswith("&mut dyn ") and "Console" in ts[0]:
            if len(ts) == 4 and "Vec<alloc::string::String>" in ts[3] and ts[1:3] == ["&str", "&str"]:
                bodies[False] = b
            elif len(ts) == 2 and ts[1] == "&str" and "secure" in b.name:
                bodies[True] = b
    if not ctx.anchor(bodies.get(False), "what reads a line") or not ctx.anchor(bodies.get(True), "what reads a secret"):
        return
    todo = list(sessions())
    for s, (problems, states, steps, accepted) in c14.parallel(lambda s: (s, session(P, bodies[s[4]], *s)), todo):
        ctx.count("sessions")
        ctx.count("states", states)
        ctx.count("keys", steps)
        ctx.count("lines", accepted)
        columns, prompt, previous, entries, secret, longest, left, wide = s
        for key, text in problems:
            ctx.violation("%s:%s" % ("secret" if secret else "line", key), "reading a line on a console of %d columns, with a question of %d characters: it %s" % (columns, prompt, text), bodies[secret])
    problems, steps = raw(ctx, P, bodies[False])
    ctx.count("keys", steps)
    for key, text in problems:
        ctx.violation("raw:%s" % key, "reading a line from something that is not a terminal: it %s" % text, bodies[False])
    # Without a terminal nothing can be kept from being shown.
    s = Session(P, 80, True, 0, interactive=False)
    outs, dead, over, t = terms.run_text(P, bodies[True], s.hook, lambda cl, b: b.crate == CRATE, ("", 0, (), 0, " " * 80, 0, False, None, None, "the start", 0), {1: obj("console"), 2: ("s", "?")}, 100000)
    if over or not outs or s.seen or s.problems or any(v is None or v[1] != "Err" for v, st, e in outs):
        ctx.violation("secret:raw", "a secret is read from something that is not a terminal", bodies[True])
    for kind, least in (("sessions", 60), ("states", 2000), ("keys", 20000), ("lines", 2000)):
        ctx.floor(kind, least)
