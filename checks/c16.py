"""C16: the program editor keeps the text that its keys build, and shows it.

The editor is interpreted over texts of unknown characters on small consoles: whenever it asks for a key, its
rows on the screen are compared with a model of the text around the cursor, and every key is tried.  States that
differ only in the names of the characters are explored once; at every exit the text of the program is read."""

import json

import strs
import terms
import traces
from strs import seg
from traces import obj, trait_call
from checks import c13, c14, c15
from checks.c06 import V
from checks.c15 import CONSOLE, Bad, renamed

PROGRAM = "endbasic_std::program::Program"
CRATES = ("endbasic_std", "endbasic_repl")
LEVEL = 4
KEYS = ("ArrowDown", "ArrowLeft", "ArrowRight", "ArrowUp", "Backspace", "CarriageReturn", "Char", "Space", "Delete", "End", "EofOrDelete", "Home", "Escape", "Interrupt", "NewLine", "PageDown", "PageUp", "Tab",
        "Unknown")
EDITS = ("Backspace", "CarriageReturn", "NewLine", "Char", "Space", "Delete", "EofOrDelete", "Tab")
PLACE = 92000


def c(x):
    return ("c", x)


def after(key, text, line, col, want, page, new):
    """The text, the cursor and the column that vertical moves aim at after a key."""
    rows = list(text)
    here = rows[line]
    indent = len(here) - len(here.lstrip(" "))
    if key in ("Char", "Space"):
        rows[line] = here[:col] + new + here[col:]
        col += 1
    elif key == "Tab":
        n = LEVEL - col % LEVEL
        rows[line] = here[:col] + " " * n + here[col:]
        col += n
    elif key in ("NewLine", "CarriageReturn"):
        blank = len(here) - len(here.lstrip())
        rows[line:line + 1] = [here[:col], here[:blank] + here[col:]]
        line, col = line + 1, blank
    elif key == "Backspace":
        if col > 0:
            n = (col - 1) % LEVEL + 1 if indent >= col else 1
            rows[line] = here[:col - n] + here[col:]
            col -= n
        elif line > 0:
            col = len(rows[line - 1])
            rows[line - 1:line + 1] = [rows[line - 1] + here]
            line -= 1
    elif key in ("Delete", "EofOrDelete"):
        if col < len(here):
            rows[line] = here[:col] + here[col + 1:]
        elif line + 1 < len(rows):
            rows[line:line + 2] = [here + rows[line + 1]]
        return tuple(rows), line, col, want
    elif key == "ArrowLeft":
        if col == 0:
            return tuple(rows), line, col, want
        col -= 1
    elif key == "ArrowRight":
        if col == len(here):
            return tuple(rows), line, col, want
        col += 1
    elif key == "Home":
        col = 0 if col == indent else indent
    elif key == "End":
        col = len(here)
    elif key in ("ArrowUp", "ArrowDown", "PageUp", "PageDown"):
        n = {"ArrowUp": -1, "ArrowDown": 1, "PageUp": -page, "PageDown": page}[key]
        line = min(max(line + n, 0), len(rows) - 1)
        return tuple(rows), line, min(want, len(rows[line])), want
    else:
        return tuple(rows), line, col, want
    return tuple(rows), line, col, col


def blanks(text):
    """All white space looks the same."""
    return "".join(" " if x in terms.SPACES else x for x in text)


class Session:
    """The state: (text, line, column, column aimed at, rows of the screen, cursor, hidden, alternate screen,
    synchronous, over, last key, edits left)."""

    def __init__(self, P, width, height, edits):
        self.P, self.width, self.height, self.edits = P, width, height, edits
        self.seen, self.problems, self.steps = set(), [], 0

    def bad(self, key, text):
        if (key, text) not in self.problems:
            self.problems.append((key, text))

    def shown(self, st):
        text, line, col, want, rows, (x, y), hidden, alt, sync, over, last, left = st
        if hidden:
            self.bad("cursor", "leaves the cursor hidden after %s" % last)
        top, first = line - y, col - x
        if not (0 <= y < self.height - 1 and 0 <= x < self.width) or top < 0 or first < 0:
            self.bad("cursor", "shows the cursor in another place than that of the next character after %s" % last)
            return
        for r in range(self.height - 1):
            t = text[top + r][first:first + self.width] if top + r < len(text) else ""
            if blanks(rows[r]) != blanks(t).ljust(self.width):
                self.bad("screen", "shows something else than the text after %s" % last)
                return

    def write(self, rows, x, y, text, newline=False):
        rows = list(rows)
        for ch in text:
            if x >= self.width:
                x, y = 0, y + 1
            if y >= self.height:
                raise Bad("scrolls", "makes the screen scroll")
            rows[y] = rows[y][:x] + ch + rows[y][x + 1:]
            x += 1
        if newline:
            x, y = 0, y + 1
            if y >= self.height:
                raise Bad("scrolls", "makes the screen scroll")
        return tuple(rows), (x, y)

    def hook(self, cl, a, st, ai, env):
        if cl.name == "from_residual" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] == "Err":
            return [(V("Err", *[ai.deep(x, env) for x in a[0][2]]), st)]
        if not trait_call(cl, CONSOLE):
            return None
        name = cl.name
        args = [ai.deep(x, env) for x in a[1:]]
        text, line, col, want, rows, (x, y), hidden, alt, sync, over, last, left = st

        def give(value, **k):
            d = dict(rows=rows, at=(x, y), hidden=hidden, alt=alt, sync=sync)
            d.update(k)
            bad = st[:9] + ("failed" if over is None else over + "+", name, 0)
            return traces.outcomes(ai, cl, st, value, (text, line, col, want, d["rows"], d["at"], d["hidden"], d["alt"], d["sync"], over, last, left), bad, obj("console error"))
        unit = ("t", ())
        try:
            if name == "enter_alt":
                return give(unit, alt=alt + 1)
            if name == "leave_alt":
                return give(unit, alt=alt - 1)
            if name == "set_sync":
                new = args[0]
                if new is None or new[0] not in ("c", "sym"):
                    raise Bad("sync", "sets an unknown mode of drawing")
                return give(sync, sync=new)
            if over is not None and over.startswith("failed"):
                if name not in ("show_cursor", "sync_now", "locate", "clear", "set_color"):
                    self.bad("failure", "keeps using the console after it failed")
                    return []
                return give(unit)
            if over == "left" and name not in ("clear", "set_color", "locate", "sync_now", "show_cursor"):
                raise Bad("over", "keeps going after %s" % last)
            if name == "size_chars":
                return give(c13.struct(self.P, CONSOLE.rsplit("::", 1)[0] + "::CharsXY", x=c(self.width), y=c(self.height)))
            if name in ("set_color", "sync_now"):
                return give(unit)
            if name == "color":
                return [(("t", (V("None"), V("None"))), st)]
            if name in ("hide_cursor", "show_cursor"):
                return give(unit, hidden=name == "hide_cursor")
            if name == "locate":
                xy = args[0]
                if xy is None or xy[0] != "v" or any(v is None or v[0] != "c" for v in xy[2]):
                    raise Bad("place", "moves the cursor to an unknown place")
                fs = [f[0] for f in self.P.adts[CONSOLE.rsplit("::", 1)[0] + "::CharsXY"]["variants"][0]["fields"]]
                at = (xy[2][fs.index("x")][1], xy[2][fs.index("y")][1])
                if not (0 <= at[0] < self.width and 0 <= at[1] < self.height):
                    raise Bad("place", "moves the cursor out of the screen")
                return give(unit, at=at)
            if name == "clear":
                how = args[0][1] if args[0] is not None and args[0][0] == "v" else None
                r = list(rows)
                at = (x, y)
                if how == "All":
                    r, at = [" " * self.width] * self.height, (0, 0)
                elif how == "CurrentLine":
                    r[y], at = " " * self.width, (0, y)
                elif how == "UntilNewLine":
                    r[y] = r[y][:x].ljust(self.width)
                elif how == "PreviousChar":
                    if x > 0:
                        r[y] = r[y][:x - 1] + " " + r[y][x:]
                        at = (x - 1, y)
                else:
                    raise Bad("clear", "clears an unknown part of the screen")
                return give(unit, rows=tuple(r), at=at)
            if name in ("write", "print"):
                t = args[0]
                if t is None or t[0] != "s":
                    raise Bad("text", "writes something that is not part of the text")
                r, at = self.write(rows, x, y, t[1], name == "print")
                return give(unit, rows=r, at=at)
            if name == "read_key":
                if not alt == 1 or sync == SYNC:
                    self.bad("screen", "edits outside of the alternate screen")
                self.shown(st)
                if self.problems:
                    return []
                tr, env = renamed("".join(text), env)
                st = (tuple(t.translate(tr) for t in text), line, col, want, tuple(r.translate(tr) for r in rows[:-1]) + ("",), (x, y), hidden, alt, sync, over, None, left)
                env.pop(terms.CAPACITY, None)
                env.pop(terms.CAPACITY - 1000000, None)
                key = (st, repr(sorted(env.items(), key=lambda x: x[0])))
                if key in self.seen:
                    return []
                self.seen.add(key)
                rows = tuple(r.ljust(self.width) for r in st[4])
                text = st[0]
                out = [(traces.future(V("Err", obj("console error"))), st[:4] + (rows,) + st[5:9] + ("failed", name, 0), env)]
                used = set("".join(text))
                new = next(seg("typed %d" % i) for i in range(20) if seg("typed %d" % i) not in used)
                for k in KEYS:
                    if k not in ("Escape", "Interrupt") and (left == 0 if self.edits else k in EDITS):
                        continue
                    self.steps += 1
                    v = V("Char", c(ord(new))) if k == "Char" else V("Char", c(32)) if k == "Space" else V(k)
                    t, l, co, w = after(k, text, line, col, want, self.height - 2, new if k == "Char" else " ")
                    out.append((traces.future(V("Ok", v)), (t, l, co, w, rows, (x, y), hidden, alt, sync, "left" if k in ("Escape", "Interrupt") else None, k, left - (k in EDITS)), env))
                return out
        except Bad as e:
            self.bad(e.args[0], "%s after %s" % (e.args[1], last))
            return []
        self.bad("request", "requests `%s` of the console after %s" % (name, last))
        return []


SYNC = ("sym", "b", "the mode of drawing before")


def rows_of(text):
    return tuple(text) if text else ("",)


def pick(cl, b):
    return b.crate in CRATES


def quietly(P, b, env, me):
    """Runs a method of the program that makes no requests.  -> (result, the program) or None"""
    outs, dead, over, t = terms.run_text(P, b, lambda *x: None, pick, (), dict(env, **{}))
    if over or len(outs) != 1 or t.panics:
        return None
    v, st, e = outs[0]
    return v, e.get(PLACE)


def session(P, m, width, height, text, left):
    s = Session(P, width, height, left)
    source = "".join(t + "\n" for t in text)
    me = quietly(P, m["default"], {}, None)
    if me is None or me[0] is None:
        s.bad("engine", "cannot be created")
        return s.problems, 0, 0, 0
    ref = ("ref", PLACE, "[]")
    r = quietly(P, m["load"], {PLACE: me[0], 1: ref, 2: V("None"), 3: ("s", source)}, None)
    if r is None or r[1] is None:
        s.bad("engine", "cannot load a program")
        return s.problems, 0, 0, 0
    me = r[1]
    back = quietly(P, m["text"], {PLACE: me, 1: ref}, None)
    if back is None or back[0] != ("s", source):
        s.bad("load", "does not give back the text that was loaded")
        return s.problems, 0, 0, 0
    start = rows_of(text)
    st = (start, 0, 0, 0, (" " * width,) * height, (0, 0), False, 0, SYNC, None, "the start", left)
    outs, dead, over, t = terms.run_text(P, m["edit"], s.hook, pick, st, {PLACE: me, 1: ref, 2: obj("console")}, 20000000)
    if over:
        s.bad("engine", "is too complex to analyse")
    for x in t.panics:
        s.bad("panic", "may panic after %s" % x[3][10])
    exits = 0
    memo = {}
    for v, st, e in outs:
        text2, line, col, want, rows, at, hidden, alt, sync, done, last, left = st
        ok = v is not None and v[0] == "v" and v[1] == "Ok"
        if done is None:
            s.bad("early", "ends after %s" % last)
            continue
        if done.startswith("failed") or done.endswith("+"):
            if ok or v is None:
                s.bad("failure", "drops a failure of the console")
            continue
        if not ok:
            s.bad("leaves", "fails although the console did not")
        if alt != 0 or sync != SYNC or hidden:
            s.bad("leaves", "does not restore the screen when it ends")
        me2 = next((e[k] for k in (PLACE, PLACE - 1000000) if k in e), None)
        key = (text2, repr(me2))
        if key not in memo:
            r = quietly(P, m["text"], {PLACE: me2, 1: ref}, None)
            memo[key] = r[0] if r is not None else None
        exits += 1
        d = dirty(P, m, me2)
        if text2 != start and d != 1:
            s.bad("changes", "does not know that its text was changed")
        if d == 1:
            # Whoever saves the text gives it its name.
            r = quietly(P, m["set_name"], {PLACE: me2, 1: ref, 2: ("s", seg("second"))}, None)
            if r is None or dirty(P, m, r[1]) != 0:
                s.bad("changes", "takes its text for changed although it was saved")
        if left == s.edits and d != 0:
            s.bad("changes", "takes its text for changed although it was not")
        if memo[key] != ("s", "".join(t + "\n" for t in text2)):
            s.bad("text", "has another text than its keys built")
    return s.problems, len(s.seen), s.steps, exits


def sessions(thorough=False):
    """(width, height, text, edits)"""
    def a(*words):
        names, out = iter(range(20)), []
        for w in words:
            out.append("".join(seg("typed %d" % next(names)) if x == "x" else x for x in w))
        return tuple(out)
    deep = int(thorough)
    yield 12, 3, a("    ", "x"), 1 + deep
    yield 12, 4, a("    xx"), 1 + deep
    yield 12, 4, a("     x", "x"), 1 + deep
    yield 12, 3, a("        x"), 1 + deep
    yield 4, 3, a("  x"), 2
    yield 12, 5, a("  x"), 2
    yield 12, 5, a(), 2 + deep
    yield 4, 3, a(), 2 + deep
    for w, h in ((4, 3), (12, 5)):
        yield w, h, a("xx"), 2
        yield w, h, a("xx", "xx"), 1 + deep
    yield 3, 2, a("xx", "x"), 1 + deep
    yield 9, 3, a("x", "", "x"), 1 + deep
    yield 9, 4, a("\u3000\u3000x"), 1 + deep
    yield 9, 4, a("", "x", "", ""), 1 + deep
    yield 3, 3, a("xxxx"), 1 + deep
    yield 40, 6, a("x", "xx"), 1 + deep
    yield 3, 4, a("x", "xxxxx", "", "x", "xx", "", "x"), 1
    yield 5, 5, a("x", "  x", "xxxxxxx", "    x", "", "x", "x", "xx"), 0


def dirty(P, m, me):
    """Whether the program says that it has changes that were not saved, or None."""
    r = quietly(P, m["is_dirty"], {PLACE: me, 1: ("ref", PLACE, "[]")}, None)
    return r[0][1] if r is not None and r[0] is not None and r[0][0] == "c" else None


def names(P, m):
    """What a program calls itself after it was loaded, and after it was saved under another name.  -> problems"""
    ref = ("ref", PLACE, "[]")
    me = quietly(P, m["default"], {}, None)
    if me is None or me[0] is None:
        return [("engine", "cannot be created")]
    out = []

    def ask(me, k):
        r = quietly(P, m[k], {PLACE: me, 1: ref}, None)
        return r[0] if r is not None else "unknown"
    if ask(me[0], "name") != V("None") or ask(me[0], "is_dirty") != c(0) or ask(me[0], "text") != ("s", ""):
        out.append(("name", "does not begin without a name, text and changes"))
    for name in (None, "first"):
        v = V("Some", ("s", seg(name))) if name else V("None")
        r = quietly(P, m["load"], {PLACE: me[0], 1: ref, 2: v, 3: ("s", "")}, None)
        if r is None or r[1] is None or ask(r[1], "name") != v or ask(r[1], "is_dirty") != c(0):
            out.append(("name", "does not know the name of the program that was loaded"))
            continue
        r = quietly(P, m["set_name"], {PLACE: r[1], 1: ref, 2: ("s", seg("second"))}, None)
        if r is None or r[1] is None or ask(r[1], "name") != V("Some", ("s", seg("second"))) or ask(r[1], "is_dirty") != c(0):
            out.append(("name", "does not take the name that it was saved under"))
    return out


def editors(P):
    """The programs that can be edited on a console: {method: body}."""
    found = {}
    for b in P.bodies(crates={CRATES[1]}, kinds=("method",)):
        t = (b.impl_trait or "").split("<")[0]
        if t == PROGRAM or b.name == "default" and t.endswith("default::Default"):
            found.setdefault(b.impl_self, {})[b.name] = b
    out = []
    for me, m in sorted(found.items()):
        if "edit" not in m or "load" not in m or "text" not in m:
            continue
        asks = any(trait_call(x, CONSOLE, "read_key") for i in P.closure_reach([m["edit"].id]) if P.body(i) is not None for x in P.body(i).calls())
        if asks:
            out.append((me, m))
    return out


def run(ctx):
    P = ctx.P
    found = editors(P)
    if not ctx.anchor(found, "the program editor"):
        return
    for me, m in found:
        if any(k not in m for k in ("default", "is_dirty", "set_name", "name")):
            ctx.anchor(None, "how %s starts" % me)
            continue
        ctx.count("editors")
        for key, what in names(P, m):
            ctx.violation("editor:%s" % key, "the editor %s" % what, m["load"])
        for s, (problems, states, steps, exits) in c14.parallel(lambda s: (s, session(P, m, *s)), list(sessions(ctx.tier == "thorough"))):
            ctx.count("sessions")
            ctx.count("states", states)
            ctx.count("keys", steps)
            ctx.count("texts", exits)
            width, height, text, edits = s
            for key, what in problems:
                ctx.violation("editor:%s" % key, "editing %d lines on a console of %d columns and %d rows: it %s" % (len(text), width, height, what), m["edit"])
    for kind, least in (("editors", 1), ("sessions", 15), ("states", 2000), ("keys", 10000), ("texts", 4000)):
        ctx.floor(kind, least)
