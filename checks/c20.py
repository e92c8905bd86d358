"""C20: programs are read as the words, numbers and signs they spell.

The lexer is interpreted over sources of many shapes, with the stream they come from as the environment, and what it gives is
compared with the tokens, and the places, of a description of the language."""

import itertools
import json
import re

import terms
import traces
from traces import obj, trait_call
from absint import KNOWN_SIZES
from checks import c14
from checks.c06 import V

CRATE = "endbasic_core"
LEXER = CRATE + "::lexer::Lexer"
SELF = 89999
SEPARATORS = "\n:()'=<>;,+-*/^ \t\r"
KEYWORDS = """And As Boolean Case Data Declare Dim Do Double Else Elseif End Error Exit False For Function Gosub Goto If Is Integer Loop Mod Next Not On Or Rem Resume Return Select Shared
Step String Sub Then To True Until Wend While Xor""".split()
NAMED = {"Boolean": "BooleanName", "Double": "DoubleName", "Integer": "IntegerName", "String": "TextName", "Mod": "Modulo"}
SIGNS = {"\n": "Eol", ":": "Eol", ";": "Semicolon", ",": "Comma", "(": "LeftParen", ")": "RightParen", "+": "Plus", "-": "Minus", "*": "Multiply", "/": "Divide", "^": "Exponent", "=": "Equal",
         "<": "Less", ">": "Greater", "<>": "NotEqual", "<=": "LessEqual", ">=": "GreaterEqual", "<<": "ShiftLeft", ">>": "ShiftRight"}
TYPES = {"?": "Boolean", "#": "Double", "%": "Integer", "$": "Text"}


# -- what the language says ---------------------------------------------------------------------

def places(text):
    out, line, col = [], 1, 1
    for ch in text:
        out.append((line, col))
        line, col = (line + 1, 1) if ch == "\n" else (line, ((col - 1) // 8 + 1) * 8 + 1) if ch == "\t" else (line, col + 1)
    return out + [(line, col)]


def word(ch):
    return ch == "_" or ch.isalnum()


def tokens(text):
    """[(kind, value or None, place)] of a source; kinds are the names of tokens."""
    at, out, i = places(text), [], 0

    def skip(i):
        while i < len(text) and text[i] not in SEPARATORS:
            i += 1
        return i

    def rest(i):
        while i < len(text) and text[i] != "\n":
            i += 1
        return i
    if text.startswith("#!"):
        i = rest(0) + 1
    while i < len(text):
        ch, start = text[i], i
        i += 1
        if ch in " \t\r":
            continue
        if ch == "'":
            i = rest(i)
            continue
        if len(text) > i and text[start:i + 1] in SIGNS:
            i += 1
        if text[start:i] in SIGNS:
            out.append((SIGNS[text[start:i]], None, at[start]))
        elif ch == '"':
            s = ""
            while i < len(text) and text[i] != '"':
                i += text[i] == "\\"
                s += text[i:i + 1]
                i += 1
            if i >= len(text):
                out.append(("Bad", None, at[start]))
            else:
                out.append(("Text", s, at[start]))
            i += 1
        elif ch in "0123456789":
            while i < len(text) and text[i] in "0123456789.":
                i += 1
            s = text[start:i]
            if i < len(text) and text[i] not in SEPARATORS or s.count(".") > 1 or s.endswith(".") or "." not in s and int(s) >= 1 << 31:
                # What is left of it does not count, whatever it is.
                dots = [k for k in range(start, len(text)) if text[k] == "."]
                if len(dots) > 1 and dots[1] < i:
                    i = dots[1] + 1
                elif i < len(text) and text[i] not in SEPARATORS:
                    i += 1
                i = skip(i)
                out.append(("Bad", None, at[start]))
            else:
                out.append(("Double", float(s), at[start]) if "." in s else ("Integer", int(s), at[start]))
        elif word(ch):
            while i < len(text) and word(text[i]):
                i += 1
            s, kind = text[start:i], None
            if i < len(text) and text[i] in TYPES:
                kind = TYPES[text[i]]
                i += 1
            elif i < len(text) and text[i] not in SEPARATORS:
                i = skip(i + 1)
                out.append(("Bad", None, at[start]))
                continue
            k = next((k for k in KEYWORDS if k.upper() == s.upper()), None)
            if k == "Rem":
                i = rest(i)
            elif k in ("True", "False"):
                out.append(("Boolean", k == "True", at[start]))
            elif k is not None:
                out.append((NAMED.get(k, k), None, at[start]))
            else:
                out.append(("Symbol", (s, kind), at[start]))
        elif ch == "@":
            if i < len(text) and word(text[i]) and not text[i].isnumeric():
                while i < len(text) and word(text[i]):
                    i += 1
                if i < len(text) and text[i] not in SEPARATORS:
                    i = skip(i)
                    out.append(("Bad", None, at[start]))
                else:
                    out.append(("Label", text[start + 1:i], at[start]))
            else:
                out.append(("Bad", None, at[start]))
        elif ch == "&":
            base = {"b": 2, "d": 10, "o": 8, "x": 16}.get(text[i:i + 1].lower())
            good = base is not None
            if i < len(text) and text[i] not in SEPARATORS:
                i += 1
            if good and text[i:i + 1] == "_":
                i += 1
            digits = i
            while good and i < len(text) and text[i] in "0123456789abcdefABCDEF":
                i += 1
            s = text[digits:i]
            if good and i < len(text) and text[i] not in SEPARATORS:
                good = False
                i += 1
            try:
                v = int(s, base) if good and s else None
            except ValueError:
                v = None
            if v is None or v >= 1 << 32:
                i = skip(i)
                out.append(("Bad", None, at[start]))
            else:
                out.append(("Integer", v - (1 << 32) if v >= 1 << 31 else v, at[start]))
        else:
            i = skip(i)
            out.append(("Bad", None, at[start]))
    return out + [("Eof", None, at[-1])]


CHARS = {
    "is_alphanumeric": str.isalnum, "is_alphabetic": str.isalpha, "is_numeric": str.isnumeric, "is_whitespace": str.isspace, "is_ascii": str.isascii,
    "is_ascii_digit": lambda x: x.isascii() and x.isdigit(), "is_ascii_hexdigit": lambda x: x in "0123456789abcdefABCDEF", "is_ascii_alphabetic": lambda x: x.isascii() and x.isalpha(),
    "is_ascii_alphanumeric": lambda x: x.isascii() and x.isalnum(), "is_ascii_whitespace": lambda x: x in " \t\n\r\x0c", "is_ascii_uppercase": lambda x: x.isascii() and x.isupper(),
    "is_ascii_lowercase": lambda x: x.isascii() and x.islower(), "is_uppercase": str.isupper, "is_lowercase": str.islower, "is_ascii_punctuation": lambda x: x.isascii() and x.isprintable() and not x.isalnum() and x != " ",
    "is_control": lambda x: ord(x) < 32 or 127 <= ord(x) < 160, "is_ascii_control": lambda x: ord(x) < 32 or ord(x) == 127}


# -- what the lexer does -------------------------------------------------------------------------

def pick(cl, b):
    return b.crate == CRATE or (b.impl_trait or "").startswith("core::convert::From")


class Source:
    """A stream that gives its lines, and then fails if it is asked to."""

    def __init__(self, P, lines, fails):
        self.P, self.lines, self.fails, self.problems = P, lines, fails, []

    def own(self, v):
        """The `next` of an iterator that is written in the language's crate."""
        if v is None or v[0] != "v":
            return None
        return next((b for b in self.P.bodies(crates={CRATE}) if b.name == "next" and (b.impl_trait or "").startswith("core::iter::") and re.split("[<:]+", (b.impl_self or "").replace(CRATE, ""))[-2 if (b.impl_self or "").endswith(">") else -1] == v[1]), None)

    def hook(self, cl, a, st, ai, env):
        if cl.name == "from_residual" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] == "Err":
            return [(V("Err", *[ai.deep(x, env) for x in a[0][2]]), st)]
        if cl.name in CHARS and len(a) == 1 and "char" in cl.path:
            x = ai.deep(a[0], env)
            if x is not None and x[0] == "c":
                return [(("c", int(CHARS[cl.name](chr(x[1])))), st)]
        if cl.name == "from_str_radix" and len(a) == 2:
            x, base = ai.deep(a[0], env), ai.deep(a[1], env)
            kind = re.search(r"Result<([iu]\d+|[iu]size),", traces.dest_type(ai, cl))
            if x is not None and x[0] == "s" and base is not None and base[0] == "c" and kind:
                lo, hi = KNOWN_SIZES[kind.group(1)]
                good = re.fullmatch(r"[+]?[0-9a-zA-Z]+" if lo == 0 else r"[+-]?[0-9a-zA-Z]+", x[1]) is not None
                try:
                    v = int(x[1], base[1])
                except ValueError:
                    good = False
                return [(V("Ok", ("c", v)) if good and lo <= v <= hi else V("Err", obj("no number")), st)]
        # Iterators of the language's own that others go through.
        if cl.name in ("by_ref", "into_iter") and len(a) == 1 and self.own(ai.deref(a[0], env)):
            return [(a[0], st)]
        if cl.name == "next" and len(a) == 1 and not (cl.resolved and cl.resolved in self.P.raw) and self.own(ai.deref(a[0], env)):
            ref = a[0]
            while (x := ai.read([ref[1], json.loads(ref[2])], env)) is not None and x[0] == "ref":
                ref = x
            return [(v, s, e) for v, e, s, sure in ai.enter(self.own(ai.deref(ref, env)), [ref], env, st, True)]
        if "BufReader" in cl.path and cl.name in ("new", "with_capacity"):
            return [(obj("stream"), st)]
        if cl.name == "read_line" and len(a) == 2 and a[1] is not None and a[1][0] == "ref":
            if st >= len(self.lines):
                return [(V("Err", obj("stream error")) if self.fails else V("Ok", ("c", 0)), st)]
            env = dict(env)
            old = ai.deep(a[1], env)
            ai.write([a[1][1], json.loads(a[1][2])], ("s", (old[1] if old is not None and old[0] == "s" else "") + self.lines[st]), env)
            return [(V("Ok", ("c", len(self.lines[st].encode()))), st + 1, env)]
        return None


def slot(env, at):
    return next((env[k] for k in (at, at - 1000000) if k in env), None)


def lexed(P, new, read, text, fails, limit):
    """([(kind, value, place)] or None, problem)"""
    s = Source(P, re.findall(r"[^\n]*\n|[^\n]+", text), fails)
    outs, dead, over, t = terms.run_text(P, new, s.hook, pick, 0, {1: obj("input")}, 50000)
    if len(outs) != 1 or over:
        return None, "cannot be created"
    me, st, got = outs[0][0], outs[0][1], []
    for n in range(limit):
        outs, dead, over, t = terms.run_text(P, read, s.hook, pick, st, {1: ("ref", SELF, "[]"), SELF: me}, 400000)
        if t.panics:
            return got, "may panic"
        if len(outs) != 1 or over:
            return got, "has %d outcomes" % len(outs)
        v, st, env = outs[0]
        me = slot(env, SELF)
        if v is None or v[0] != "v" or v[1] not in ("Ok", "Err"):
            return got, "gives something that is not known"
        if v[1] == "Err":
            got.append(("Err", None, None))
            return got, None
        k = token(P, v[2][0])
        if k is None:
            return got, "gives a token that is not known"
        got.append(k)
        if k[0] == "Eof" and got[-2:-1] == [k]:
            break
    return got, None


def parts(P, ty, v):
    """The fields of a struct by name."""
    names = [f["name"] if isinstance(f, dict) else f[0] for f in P.adts[ty]["variants"][0]["fields"]] if ty in P.adts else []
    return dict(zip(names, v[2])) if v is not None and v[0] == "v" and len(v[2]) == len(names) else None


def token(P, v):
    """A token as the description has it, or None."""
    f = parts(P, CRATE + "::lexer::TokenSpan", v)
    if f is None:
        return None
    t, at = f["token"], parts(P, CRATE + "::reader::LineCol", f["pos"])
    if t is None or t[0] != "v" or at is None or any(at[k] is None or at[k][0] != "c" for k in ("line", "col")):
        return None
    kind, value = t[1], None
    if kind == "Symbol":
        name = parts(P, CRATE + "::ast::VarRef", t[2][0])
        if name is None or name["name"] is None or name["name"][0] != "s" or name["ref_type"] is None or name["ref_type"][0] != "v":
            return None
        value = (name["name"][1], name["ref_type"][2][0][1] if name["ref_type"][1] == "Some" else None)
    elif kind != "Bad" and t[2]:
        if t[2][0] is None or t[2][0][0] not in "cs":
            return None
        value = bool(t[2][0][1]) if kind == "Boolean" else t[2][0][1]
    return kind, value, (at["line"][1], at["col"][1])


# -- what is tried --------------------------------------------------------------------------------

ALPHABET = "aE_x19.\"\\'@&b#$<>=(:\n \t\u00e9!"


def sources(deep):
    for n in range(4 if not deep else 5):
        for t in itertools.product(ALPHABET if n < 4 else "aE1.\"'@&<=:\n #", repeat=n):
            yield "".join(t)
    for k in KEYWORDS:
        for form in (k, k.upper(), k.lower(), k.swapcase()):
            yield form + " " + form + ":" + form
        for form in (k + "s", "_" + k, k + "1", k[:-1], k + "%", "@" + k, "1" + k, k + "\n", k + "(" + k + ")", '"' + k + '"', "'" + k, k + "'", k + ".", k + "\u00e9"):
            yield form + " x"
    for name in ("a", "Abc_1", "_", "__9", "x" * 40, "\u00e9t\u00e9", "\u65e5\u672c", "remark", "rem1", "e10"):
        for end in ("", "?", "#", "%", "$", "!", "&", "@", "$a", "%%", "# + 1", "(1)", "=", ":", ",b", ";b", "\r\n", '"'):
            yield name + end
    for v in (0, 1, 7, 8, 10, 255, 32767, 32768, 65535, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**33, 10**18, 10**25):
        yield "%d" % v
        yield "000%d:-%d" % (v, v)
        for mark, digits in (("b", "{:b}"), ("d", "{:d}"), ("o", "{:o}"), ("x", "{:x}"), ("X", "{:X}"), ("B", "{:b}"), ("O", "{:o}"), ("D", "{:d}")):
            yield "&" + mark + digits.format(v)
            yield "&" + mark + "_00" + digits.format(v) + ")"
    for s in ("1.5", "0.25", "10.0", "123456789.125", "3.", "3.)", ".5", "1..2 x", "1.2.3", "1.2.3.4 5", "1e5", "1.5e3", "1.5E-3", "1_000", "0x10", "1a.5 2", "1.x", "9" * 30 + ".5", "0." + "0" * 20 + "1",
              "&", "& x", "&x", "&x_", "&x__1", "&xg", "&xg1 2", "&b2", "&b12 3", "&o8", "&d1a", "&h10", "&x1.5 2", "&x.", "&x1$ 2", "&x-1", "&x+1", "&_1", "&1", "&b_", "&b_ 1", "&B_0101'c"):
        yield s
        yield "y=" + s + "\nz"
    for s in ('""', '"a"', '"a b', '"a\\"b" c', '"a\\\\" b', '"\\', '"\\n"', '"\u00e9\u65e5" x', '"a\nb" c', '"a\tb" c', '"a" "b"', '"a""b"', "\"it's\" x", '"a:b\'c" d', '"rem"', "' \"a\nb", 'rem "a\nb', "rem\nb", "rem:b\nc", "a rem b: c\nd", "'", "''\n'\n",
              "#!x\ny", "#!", "#!\n", "#! a b\n\nc", " #!x\ny", "\n#!x", "#x\ny", "#", "#\n", "##!", "#!a\n#!b", "a\r\nb\r\n", "\ta\tb\t\tc", "1234567\t8", "12345678\t9", "\u00e9\t\u00e9\tx", "a\n\n\nb", "a::b", "@a", "@a:b", "@A_1 b", "@1a", "@", "@ a", "@a$ b", "@@a", "@a@b c", "@\u00e9", "@_x", "@a.b c",
              "a<b>c", "a<>b<=c>=d<<e>>f", "<<<", ">>>", "<=>", "=<", "==", "><", "< >", "<\n>", "a+b-c*d/e^f", "(a,b;c)", "a$=b#%", "!a b", "a!b c", "~", "\u20ac x", "{a} b", "[1]", "a|b c", "\x00 a", "a\x00b c", "\u00a0a", "a\u00a0b c", "IF x THEN y ELSE z", "FOR i% = 1 TO 10 STEP 2: NEXT", "PRINT \"a\"; b, c"):
        yield s
        yield s + "\n x = 1"


def run(ctx):
    P = ctx.P
    ctx.rule("the tokens and places that the lexer gives for a source are those of the description of the language, and then the end, again and again; a stream that fails is reported")
    methods = {}
    for b in P.bodies(crates={CRATE}):
        if (b.impl_self or "").split("<")[0] == LEXER and not b.impl_trait:
            methods.setdefault(b.name, b)
    new, read = methods.get("from"), methods.get("read")
    if not (ctx.anchor(new, "what creates the lexer") and ctx.anchor(read, "what reads a token")):
        return
    todo = sorted(set(sources(ctx.tier == "thorough")))

    def one(text):
        got, problem = lexed(P, new, read, text, False, len(text) + 3)
        want = tokens(text)
        if problem:
            return len(got or ()), "engine" if "outcomes" in problem or "known" in problem else "panic", "%s for %r" % (problem, text)
        if got[:-1] != want or got[-1:] != want[-1:]:
            k = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want)))
            x, y = got[k] if k < len(got) else None, want[k] if k < len(want) else None
            return len(got), "place" if x and y and x[:2] == y[:2] else "token", "reads %r as %s instead of %s" % (text, x, y)
        return len(got), None, None
    reported = set()
    for n, key, text in c14.parallel(one, todo):
        ctx.count("sources")
        ctx.count("tokens", n)
        if key and key not in reported:
            reported.add(key)
            ctx.violation("lexer:" + key, "the lexer " + text, read)
    for text in ("", "a", "a\n", "a\nb = 1\n", "'x", "rem x\n", '"a', "1", "1.", "&", "&x", "&x_", "&x1", "@", "@a", "<", "#", "#!", "a\n<", "!"):
        got, problem = lexed(P, new, read, text, True, len(text) + 3)
        ctx.count("failures")
        if problem or not got or got[-1][0] != "Err" or [x for x in got[:-1]] != tokens(text)[:len(got) - 1] or any(x[0] == "Eof" for x in got):
            ctx.violation("lexer:stream", "the lexer does not report that reading failed after %r" % text, read)
            break
    for kind, least in (("sources", 10000), ("tokens", 30000), ("failures", 15)):
        ctx.floor(kind, least)
