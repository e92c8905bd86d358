"""C19: long output is wrapped between words and shown page by page.

LIST, HELP and the functions that wrap text are interpreted over programs, topics and paragraphs of many shapes, on
consoles of several sizes.  Every call to the console may fail; at every pause every key is tried."""

import itertools

import terms
import traces
from traces import obj, trait_call
from checks import builtins, c13, c14
from checks.c06 import V
from checks.c12 import fields
from checks.c15 import CONSOLE, CRATE

PROGRAM = CRATE + "::program::Program"
YIELDER = CRATE + "::Yielder"
METADATA = "endbasic_core::callable::CallableMetadata"
TRIE = "radix_trie::"
GOON, STOP = ("Char", "NewLine", "ArrowUp", "Unknown"), ("Escape", "Interrupt")
COLORS = ("t", (V("Some", ("c", 3)), V("None")))


def c(x):
    return ("c", x)


def pick(cl, b):
    return b.crate == CRATE or (b.impl_trait or "").startswith("core::convert::From")


class Screen:
    """A console: (lines, line so far, rows since the last pause, phase, colours, times the host could run)."""

    def __init__(self, P, columns, rows, interactive=True, fail=True, text=None, topics=None):
        self.P, self.columns, self.rows, self.interactive, self.fail, self.text = P, columns, rows, interactive, fail, text
        self.topics, self.problems, self.steps, self.pauses = topics, [], 0, 0

    def bad(self, key, text):
        if (key, text) not in self.problems:
            self.problems.append((key, text))

    start = ((), "", 0, "", COLORS, 0)

    def hook(self, cl, a, st, ai, env):
        self.steps += 1
        if self.steps > 200000:
            self.bad("engine", "is too complex to analyse")
            return []
        if cl.name in ("new", "from") and a and "io::error::Error" in traces.dest_type(ai, cl) and not cl.path.startswith("endbasic"):
            return [(V("io error", ai.deep(a[0], env)), st)]
        if cl.name == "from_residual" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] == "Err":
            return [(V("Err", *[ai.deep(x, env) for x in a[0][2]]), st)]
        if cl.name == "into_iter" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] in ("Some", "None"):
            return [(V("VecIter", ("vec", tuple(a[0][2]))), st)]
        if trait_call(cl, PROGRAM) and cl.name == "text":
            return [(("s", self.text), st)]
        if trait_call(cl, YIELDER) and cl.name == "yield_now":
            return [(traces.future(("t", ())), st[:5] + (st[5] + 1,))]
        if self.topics is not None:
            r = self.topic(cl, a, st, ai, env)
            if r is not None:
                return r
        if not trait_call(cl, CONSOLE):
            return None
        name = cl.name
        args = [ai.deep(x, env) for x in a[1:]]
        lines, line, rows, phase, colors, ran = st
        if name == "is_interactive":
            return [(c(int(self.interactive)), st)]
        if name == "size_chars":
            return traces.outcomes(ai, cl, st, c13.struct(self.P, CONSOLE.rsplit("::", 1)[0] + "::CharsXY", x=c(self.columns), y=c(self.rows)))[:1]
        if name == "color":
            return [(colors, st)]
        if phase in ("failed", "stop") and name != "set_color":
            self.bad("over", "keeps going after " + ("a failure of the console" if phase == "failed" else "it was stopped"))
            return []

        def give(st2, value=("t", ())):
            r = traces.outcomes(ai, cl, st, value, st2, (lines, line, rows, "failed", st2[4] if name == "set_color" else colors, ran), obj("console error"))
            return r if self.fail and phase not in ("failed", "stop") else r[:1]
        if name == "set_color":
            return give((lines, line, rows, phase, ("t", tuple(args[:2])), ran))
        if name in ("print", "write") and (not args or args[0] is None or args[0][0] != "s"):
            self.bad("unknown", "shows something that is not known")
            return []
        if phase == "due":
            if name != "print" or not args[0][1].strip():
                self.bad("pause", "goes on without a pause although the screen is full")
                return []
            return give((lines, line, rows, "prompted", colors, ran))
        if phase == "prompted":
            if name != "read_key":
                self.bad("pause", "does not wait for a key when the screen is full")
                return []
            self.pauses += 1
            out = []
            for k in self.keys if len(lines) < self.rows else GOON + STOP:
                key = V(k, obj("character")) if k == "Char" else V(k)
                out.append((traces.future(V("Ok", key)), (lines, line, 0, "" if k not in STOP else "stop", colors, ran)))
            return out + ([(traces.future(V("Err", obj("console error"))), (lines, line, rows, "failed", colors, ran))] if self.fail else [])
        if name == "write":
            return give((lines, line + args[0][1], rows, phase, colors, ran))
        if name == "print":
            if self.interactive and self.host and lines and ran < len(lines):
                self.bad("host", "does not let the host run after a line")
            whole = line + args[0][1]
            rows += len(whole) // self.columns + 1
            due = self.interactive and rows >= self.rows - 1 and not self.plain
            return give((lines + (whole,), "", rows, "due" if due else "", colors, ran))
        if name == "read_key":
            self.bad("pause", "waits for a key although there is more room on the screen" if self.interactive else "waits for a key although nobody is there")
            return []
        self.bad("request", "asks for `%s`" % name)
        return []

    @property
    def keys(self):
        """All keys there are: which one it is must not matter but for those that stop."""
        return [v["name"] for a in sorted(self.P.adts) if a == CRATE + "::console::Key" for v in self.P.adts[a]["variants"]] or GOON + STOP

    host = False        # whether the host is to run after each line
    plain = False       # whether there are no pauses

    # -- topics of the help ------------------------------------------------------------------

    def topic(self, cl, a, st, ai, env):
        P = self.P
        ty = traces.dest_type(ai, cl)
        if not cl.path.startswith(TRIE) and self.tries and ty in self.tries:
            trie = V("Trie!", ("vec", tuple(("t", (("s", k), v)) for k, v in sorted(self.topics))))
            return [(trie if ty.startswith(TRIE) else V(ty.rsplit("::", 1)[-1], trie), st)]
        if TRIE in cl.path and a:
            t = ai.deep(a[0], env)
            if t is None or t[:2] != ("v", "Trie!"):
                return None
            pairs = t[2][0][1]
            key = ai.deep(a[1], env) if len(a) > 1 else None
            if cl.name in ("get", "get_raw_descendant", "subtrie") and (key is None or key[0] != "s"):
                return [(None, st)]
            if cl.name == "get":
                return [(c13.some(next((p[1][1] for p in pairs if p[1][0] == key), None)), st)]
            if cl.name in ("get_raw_descendant", "subtrie"):
                sub = tuple(p for p in pairs if p[1][0][1].startswith(key[1]))
                return [(V("Some", V("Trie!", ("vec", sub))) if sub else V("None"), st)]
            if cl.name in ("iter", "values", "keys", "into_iter"):
                return [(V("VecIter", ("vec", tuple(p if "iter" in cl.name else p[1][cl.name == "values"] for p in pairs))), st)]
            if cl.name in ("len", "is_empty"):
                return [(c(len(pairs) if cl.name == "len" else int(not pairs)), st)]
            return None
        if METADATA in cl.path and a:
            m = ai.deep(a[0], env)
            if m is not None and m[:2] == ("v", "Metadata!"):
                name, syntax, ret, text = m[2][0][1]
                lines = text[1].split("\n")
                return {"name": [(name, st)], "syntax": [(syntax, st)], "is_argless": [(c(int(not syntax[1])), st)], "return_type": [(ret, st)],
                        "category": [(("s", "Some category"), st)], "description": [(V("VecIter", ("vec", tuple(("s", x) for x in lines))), st)]}.get(cl.name)
        if cl.name == "annotation" and a and ai.deep(a[0], env) is not None and ai.deep(a[0], env)[:2] == ("v", "Integer"):
            return [(c(ord("%")), st)]
        if a and any(trait_call(cl, t) for t in self.impls):
            v = ai.deep(a[0], env)
            b = next((m[cl.name] for t in self.impls for s, m in self.impls[t].items() if v is not None and v[0] == "v" and s.rsplit("::", 1)[-1] == v[1] and cl.name in m), None)
            if b is not None:
                return [(x, s, e) for x, e, s, su in ai.enter(b, list(a), env, st, True)]
        return None


def finish(s, outs, dead, over, t, ctx_lines, what):
    """Checks the ends of all paths: `ctx_lines(lines)` -> problem or None."""
    if over or not outs and not s.problems and not t.panics:
        s.bad("engine", "is too complex to analyse")
    if t.panics:
        s.bad("panic", "may panic")
    for v, (lines, line, rows, phase, colors, ran), e in outs:
        ok = v is not None and v[:2] == ("v", "Ok")
        if colors != COLORS:
            s.bad("colors", "leaves other colours behind" + ("" if ok else " when it does not come to its end"))
        if phase == "failed":
            if ok or v is None or "console error" not in repr(v):
                s.bad("failure", "does not report that the console failed")
        elif phase == "stop":
            if ok or v is None or "Interrupted" not in repr(v):
                s.bad("stop", "does not report that it was stopped")
        elif phase:
            s.bad("pause", "ends without a pause although the screen is full")
        elif not ok:
            s.bad("rejects", "fails although the console did not")
        elif line:
            s.bad("lost", "leaves a line unfinished")
        else:
            problem = ctx_lines(lines)
            if problem:
                s.bad("text", problem)
    return s.problems


def itself(P, ty, host, **known):
    """A value of a command: objects of its fields' names, but for its optional fields."""
    out = []
    for f in fields(P, ty):
        name, t = (f["name"], str(f.get("ty"))) if isinstance(f, dict) else (f[0], str(f[1]))
        v = known.get(name)
        if v is None:
            v = (V("Some", obj("host")) if host else V("None")) if "Option<" in t else obj(name)
        out.append(v)
    return ("v", ty.rsplit("::", 1)[-1], tuple(out))


def command(P, name, s, me, args=()):
    ar = builtins.Arguments(args)

    def h(cl, a, st, ai, e):
        r = ar.hook(cl, a, st, ai, e) if cl.path.startswith("endbasic_core::callable::") else None
        return r if r is not None else s.hook(cl, a, st, ai, e)
    env = {89999: me, 1: ("ref", 89999, "[]"), 2: obj("scope")}
    return terms.run_text(P, builtins.builtins(P)[name][1], h, pick, s.start, env, 2000000)


# -- LIST --------------------------------------------------------------------------------------

def programs(columns):
    letters = "abc\u00e9\u20acd"
    for lens in ((), (1,), (0, 1), (1, 1, 1, 1, 1, 1), (columns - 1, 1, 1, 1), (columns, 1, 1, 1), (columns + 1, 0, 2 * columns, 1), (1, 2 * columns - 1, 1, 1), (3 * columns, 1, 4 * columns + 1, 0, 1)):
        yield "".join("".join(letters[(i + j) % len(letters)] for j in range(k)) + "\n" for i, k in enumerate(lens))


def listing(P, ty, text, columns, rows, interactive, host):
    s = Screen(P, columns, rows, interactive, text=text)
    s.host = host
    r = command(P, "LIST", s, itself(P, ty, host))
    want = tuple(text.split("\n")[:-1])

    def check(lines):
        return None if lines == want else "shows something else than the program"
    return finish(s, *r, check, "LIST"), s.pauses


# -- wrapping ----------------------------------------------------------------------------------

def wrapped(paragraph, indent, columns):
    if not paragraph:
        return [""]
    extra = paragraph[:len(paragraph) - len(paragraph.lstrip())]
    prefix = indent + " " * len(extra)
    width = columns - 4 - len(prefix)
    lines, line = [], ""
    for w in paragraph.split():
        gap = "  " if line.endswith(".") and w[0] == w[0].upper() else " "
        if not line:
            line = w
        elif len(line + gap + w) < width:
            line += gap + w
        else:
            lines.append(line)
            line = w
    return [prefix + x for x in lines + [line]]


def paragraphs():
    """(paragraphs, indentation)"""
    for count in (1, 2, 3, 4):
        for lens in itertools.product((1, 2, 4), repeat=count):
            for style in range(3 if count < 4 else 1):
                words = ["".join("abcdefgh"[(i + j) % 8] for j in range(k)) for i, k in enumerate(lens)]
                if style == 1:
                    words = [w[:-1].upper() + "." if k > 1 else w.upper() for w, k in zip(words, lens)]
                if style == 2:
                    words = ["\u00e9" * len(w) if i % 2 else w[:-1] + "." for i, w in enumerate(words)]
                    words = [w if i % 2 == 0 or not words[i - 1].endswith(".") else "z" + w[1:] for i, w in enumerate(words)]
                yield (" ".join(words),), ""
    yield (), "  "
    for ps in (("",), ("", "a"), ("a bb", "", "cc"), ("  a bb cccc d", "e f"), ("a  bb\tc", " d"), ("aaaa bbbb", "cc dd", "e"), (" " * 9 + "aa bb c", " " * 17 + "dd e f"),
               ("", "", "a", "", "", "b", ""), ("a" * 21 + " b " + "c" * 40 + " d", "   e."), ("aaa bbb. Ccc ddd. eee Fff", "g" * 11 + " h" * 9)):
        for indent in ("", "  ", "    "):
            yield ps, indent


def wrapping(P, body, ps, indent, columns):
    s = Screen(P, columns, 25)
    s.plain, s.fail = True, len(ps) > 1
    env = {1: obj("console"), 2: ("vec", tuple(("s", p) for p in ps)), 3: ("s", indent)}
    r = terms.run_text(P, body, s.hook, pick, s.start, env, 400000)
    want = tuple(x for i, p in enumerate(ps) for x in ([""] if i else []) + wrapped(p, indent, columns))

    def check(lines):
        return None if lines == want else "shows other lines than expected, for a width of %d and %r" % (columns, " / ".join(ps))
    return finish(s, *r, check, "wrapping")


LINKS = "LA sings. LUM% gives light."


# -- HELP --------------------------------------------------------------------------------------

def metadata(name, syntax, ret, text):
    return V("Metadata!", ("t", (("s", name), ("s", syntax), V("Some", V(ret)) if ret else V("None"), ("s", text))))


def topics(P, impls):
    """[(key, topic, words that it shows, whether it is listed)]"""
    names = {s.rsplit("::", 1)[-1]: s for t in impls for s in impls[t]}
    out = []

    def make(kind, **kw):
        return c13.struct(P, names[kind], **kw) if kind in names else None
    if "LanguageTopic" in names:
        out.append(("LAZY", make("LanguageTopic", name=("s", "Lazy"), text=("s", "Being lazy\n\nfirst words of it\n\n    more words")), "Being lazy | first words of it |     more words", False))
    if "CategoryTopic" in names:
        index = ("map", ((("s", "LA"), ("s", "sings.")), (("s", "LUM%"), ("s", "gives light."))))
        out.append(("LATIN", make("CategoryTopic", name=("s", "Latin"), description=("s", "Latin things\nThey are old.\nand many"), index=index), "Latin things | They are old. | and many | " + LINKS, True))
        out.append(("TREES AND MORE", make("CategoryTopic", name=("s", "Trees and more"), description=("s", "Trees and more"), index=index), "Trees and more | " + LINKS, True))
    if "CallableTopic" in names:
        for key, name, syntax, ret, text in (("LA", "LA", "note%", None, "Sings a note\nover and over"), ("LUM%", "LUM", "a[, b]", "Integer", "Gives light"), ("LUMP", "LUMP", "", None, "Does nothing"), ("X%", "X", "", "Integer", "Gives x")):
            head = name + ("%" if ret else "") + (("(%s)" if ret else " %s") % syntax if syntax else "")
            out.append((key, make("CallableTopic", name=("s", key.capitalize()), metadata=metadata(name, syntax, ret, text)), head + " | " + text.replace("\n", " | "), False))
    return out


def inorder(words, lines):
    """Whether lines show words one after the other, with an empty line for each bar."""
    left = iter(" ".join(x if x.strip() else "|" for x in lines).split())
    return all(w in left for w in words.split())


def helping(P, ty, impls, tries, query, columns, rows, host, interactive, fail):
    all_ = topics(P, impls)
    s = Screen(P, columns, rows, interactive, topics=[(k, v) for k, v, words, listed in all_], fail=fail)
    s.impls, s.tries, s.host = impls, tries, host
    args = [("string", ("s", query))] if query is not None else []
    outs, dead, over, t = command(P, "HELP", s, itself(P, ty, host), args)
    found = [x for x in all_ if query is not None and x[0] == query.upper()] or [x for x in all_ if query is not None and x[0].startswith(query.upper())]
    if query is not None and len(found) != 1:
        if over or t.panics or not outs:
            s.bad("engine", "cannot be analysed")
        for v, st, e in outs:
            if v is None or v[:2] != ("v", "Err") or "position 0" not in repr(v) or st != s.start:
                s.bad("topic", "does not reject the name of a topic that %s" % ("does not exist" if not found else "may mean several"))
        return s.problems, s.pauses

    def check(lines):
        if any(len(x) > columns - 5 and len(x.split()) > 1 and ">>" not in x for x in lines):
            return "shows lines that are too long for the console"
        if query is None:
            return None if all((x[2].split()[0] in " ".join(lines)) == x[3] for x in all_ if x[0] in ("TREES AND MORE", "LUMP", "X%")) and all(inorder(x[2][:5], lines) for x in all_ if x[3]) else "does not list the topics there are"
        if not inorder(found[0][2], lines):
            return "does not show all of a topic"
        for part in found[0][2].split(" | "):
            want = tuple(wrapped(part, "    ", columns))
            if LINKS not in part and not any(lines[i:i + len(want)] == want for i in range(len(lines))):
                return "does not wrap a topic as the width of the console asks for"
        return None
    return finish(s, outs, dead, over, t, check, "HELP"), s.pauses


def run(ctx):
    P = ctx.P
    ctx.rule("the lines that reach the console are the expected ones, whatever fits on it; a pause follows as soon as a screen is full and only then; Escape and interrupts end the output; colours are as before at every end")
    B = builtins.builtins(P)
    reported = set()

    def report(what, problems, body):
        for key, text in problems:
            if (what, key) not in reported:
                reported.add((what, key))
                ctx.violation("%s:%s" % (what, key), "`%s` %s" % (what, text), body)
    if ctx.anchor(B.get("LIST"), "the command LIST"):
        ty, body = B["LIST"]
        todo = [(text, x, y, i, h) for x, y in ((4, 3), (5, 4), (3, 2), (60, 5)) for text in programs(x) for i, h in ((True, False), (True, True), (False, True))]
        for problems, pauses in c14.parallel(lambda t: listing(P, ty, *t), todo):
            ctx.count("listings")
            ctx.count("pauses", pauses)
            report("LIST", problems, body)
    wrap = [b for b in P.bodies(crates={CRATE}, kinds=("fn",)) if b.argc == 3 and b.name == "refill_and_print"]
    if ctx.anchor(wrap, "the function that wraps text"):
        more = (1, 2, 17, 23) if ctx.tier == "thorough" else ()
        todo = [(ps, indent, x) for ps, indent in paragraphs() for x in (3, 6, 8, 9, 10, 11, 12, 13, 14, 15, 19) + ((28, 40, 41) if len(ps) > 1 else ()) + more]
        for problems in c14.parallel(lambda t: wrapping(P, wrap[0], *t), todo):
            ctx.count("texts")
            report("wrapping", problems, wrap[0])
    if ctx.anchor(B.get("HELP"), "the command HELP"):
        ty, body = B["HELP"]
        tries = {a for a in P.adts if a.startswith(CRATE) and any(TRIE in str(f) for v in P.adts[a]["variants"] for f in v["fields"])}
        impls = {}
        for b in P.bodies(crates={CRATE}, kinds=("method",)):
            t = (b.impl_trait or "").split("<")[0]
            if t.startswith(CRATE + "::help::"):
                impls.setdefault(t, {}).setdefault(b.impl_self, {})[b.name] = b
        queries = (None, "LA", "lazy", "laz", "l", "LUM", "lum%", "lumpy", "Trees", "x", "trees and more", "q", "lat")
        todo = [(q, x, y, h, i, f) for q in queries for x, y, h, i, f in ((30, 5, False, True, True), (16, 4, True, True, False), (60, 7, False, True, False), (60, 25, False, True, True), (30, 5, True, False, False))]
        for problems, pauses in c14.parallel(lambda t: helping(P, ty, impls, tries, *t), todo):
            ctx.count("helps")
            ctx.count("pauses", pauses)
            report("HELP", problems, body)
    for kind, least in (("listings", 100), ("texts", 2000), ("helps", 50), ("pauses", 150)):
        ctx.floor(kind, least)
