"""Strings of known shape, formatting and maps for effect traces.

A string is ("s", text) where private characters stand for arbitrary non-empty runs of ordinary
characters (`seg`): operations that look at structure (separators, prefixes) are decided, those that
depend on the contents of a run are unknown.  Formatting follows the compiler's templates and enters
user implementations of Display.  Maps are ("map", ((key, value), ...)) with known keys."""

import json

import traces
from frames import FRAME

SEG, UP, LOW = 0xE000, 0xE800, 0xF000
NAMES = []


def seg(name):
    if name not in NAMES:
        NAMES.append(name)
    return chr(SEG + NAMES.index(name))


def private(ch):
    return 0xE000 <= ord(ch) < 0xF800


def known(t):
    return not any(private(x) for x in t)


def upper(t):
    return "".join(chr(UP + (ord(x) & 0x7FF)) if private(x) else x.upper() for x in t)


def lower(t):
    return "".join(chr(LOW + (ord(x) & 0x7FF)) if private(x) else x.lower() for x in t)


def show(t):
    if not isinstance(t, str):
        return str(t)
    out = ""
    for x in t:
        if private(x):
            n = NAMES[ord(x) & 0x7FF]
            out += "<%s>" % (n.upper() if ord(x) & 0xF800 == UP else n.lower() if ord(x) & 0xF800 == LOW else n)
        else:
            out += x
    return out


def pieces(tpl, loose=False):
    """Literals and placeholders of a format template; None if it uses formatting options
    (unless `loose`, which ignores padding)."""
    out, i = [], 0
    while i < len(tpl):
        n = ord(tpl[i])
        i += 1
        if n == 0:
            return out
        if n < 0x80:
            out.append(bytes(ord(x) for x in tpl[i:i + n]).decode("utf-8", "replace"))
            i += n
        elif n == 0x80:
            k = ord(tpl[i]) | ord(tpl[i + 1]) << 8
            i += 2
            out.append(bytes(ord(x) for x in tpl[i:i + k]).decode("utf-8", "replace"))
            i += k
        elif n == 0xC0:
            out.append(None)
        elif loose and n & 0xC0 == 0xC0 and not n & 0x38:
            i += 4 * (n & 1) + 2 * (n >> 1 & 1) + 2 * (n >> 2 & 1)
            out.append(None)
        else:
            return None
    return out


def text(v):
    if v is None:
        return None
    if v[0] == "s" and isinstance(v[1], str):
        return v[1]
    if v[0] == "c" and isinstance(v[1], int):
        return str(v[1])
    if traces.is_obj(v):
        return seg(v[2])
    return None


def bounds(r, n):
    """(lo, hi) of a range value over a string of n characters."""
    if r is None or r[0] != "v" or not r[1].startswith("Range"):
        return (0, n) if r is not None and r[0] in ("s", "t") else None
    b = [x[1] if x is not None and x[0] == "c" else None for x in r[2][:2]]
    if None in b:
        return None
    k = r[1]
    if k == "RangeFull":
        return 0, n
    lo = b[0] if k in ("RangeFrom", "Range", "RangeInclusive") else 0
    hi = n if k == "RangeFrom" else b[-1] + int(k in ("RangeInclusive", "RangeToInclusive"))
    return (lo, hi) if 0 <= lo <= hi <= n else None


class Strs(traces.Traces):
    loose = False           # padding ignored and unknown arguments rendered as an arbitrary run

    def const(self, op):
        v = super().const(op)
        if v is not None and v[0] == "s" and op[1] == "char" and len(v[1]) == 1:
            return ("c", ord(v[1]))
        return v

    # -- formatting ----------------------------------------------------------------------

    def display(self, ty):
        cache = self.prog.__dict__.setdefault("_display", None)
        if cache is None:
            cache = {b.impl_self: b for b in self.prog.bodies(kinds=("method",)) if b.impl_trait == "core::fmt::Display" and b.name == "fmt"}
            self.prog._display = cache
        return cache.get(ty)

    def emit(self, arg, slot, env, st, sure):
        """Appends one formatted argument to the string in env[slot]."""
        cur = env.get(slot)
        ty, v = arg[1][len("FmtArg "):], arg[2][0]
        d = self.deep(v, env)
        t = text(d)
        if t is None and self.loose and (d is None or d[0] in ("sym", "cmp")):
            t = seg("?")
        b = self.display(ty.lstrip("&")) if t is None or d is None or d[0] != "s" else None
        if b is not None and not traces.is_obj(d) and d is not None:
            return [(e, s, su) for _r, e, s, su in self.enter(b, [d if v is None or v[0] != "ref" else v, ("ref", slot, "[]")], env, st, sure)]
        e = dict(env)
        e[slot] = ("s", cur[1] + t) if t is not None and cur is not None and cur[0] == "s" else None
        return [(e, st, sure)]

    def render(self, fa, slot, env, st, sure):
        """Appends format arguments to env[slot] -> [(env, st, sure)]"""
        if fa is None or fa[0] != "v" or fa[1] != "FmtArgs":
            e = dict(env)
            e[slot] = None
            return [(e, st, sure)]
        ps = pieces(fa[2][0][1], self.loose) if fa[2][0] is not None and fa[2][0][0] == "s" else None
        args = list(fa[2][1][1]) if fa[2][1] is not None and fa[2][1][0] == "vec" else []
        if ps is None:
            e = dict(env)
            e[slot] = None
            return [(e, st, sure)]
        states = [(env, st, sure)]
        for p in ps:
            if p is None:
                a = args.pop(0) if args else None
                nxt = []
                for e, s, su in states:
                    if a is None or a[0] != "v" or not a[1].startswith("FmtArg "):
                        e = dict(e)
                        e[slot] = None
                        nxt.append((e, s, su))
                    else:
                        nxt.extend(self.emit(a, slot, e, s, su))
                states = nxt
            else:
                nxt = []
                for e, s, su in states:
                    e = dict(e)
                    c = e.get(slot)
                    e[slot] = ("s", c[1] + p) if c is not None and c[0] == "s" else None
                    nxt.append((e, s, su))
                states = nxt
        return states

    def slot(self):
        return self.depth * FRAME + FRAME - 1

    def call(self, c, args, env, st, sure):
        n = c.name
        if c.path.startswith("core::fmt::") or n in ("to_string", "format", "write_fmt", "write_str", "fmt"):
            if c.path.startswith("core::fmt::rt::Argument") and n.startswith("new") and len(args) == 1:
                ty = (c.func[7] or ["?"])[0] if c.is_fn and len(c.func) > 7 else "?"
                return [(("v", "FmtArg " + str(ty), (args[0],)), env, st, sure)]
            if c.path.startswith("core::fmt::Arguments") and n == "new" and len(args) == 2:
                return [(("v", "FmtArgs", (self.deep(args[0], env), self.fmtargs(args[1], env))), env, st, sure)]
            if c.path.startswith("core::fmt::Arguments") and n in ("from_str", "from_str_nonconst", "new_const") and len(args) == 1:
                t = self.deep(args[0], env)
                tt = t[1] if t is not None and t[0] == "s" else None
                tpl = None if tt is None else "".join(chr(len(x.encode())) + "".join(chr(y) for y in x.encode()) for x in [tt[i:i + 20] for i in range(0, len(tt), 20)]) + "\0"
                return [(("v", "FmtArgs", (("s", tpl) if tpl is not None else None, ("vec", ()))), env, st, sure)]
            if n == "format" and len(args) == 1:
                sl = self.slot()
                e = dict(env)
                e[sl] = ("s", "")
                out = []
                for e2, s, su in self.render(self.deref(args[0], env), sl, e, st, sure):
                    v = e2.get(sl)
                    e2 = {k: x for k, x in e2.items() if k != sl}
                    out.append((v, e2, s, su))
                return out
            if n == "to_string" and len(args) == 1:
                d = self.deep(args[0], env)
                if d is not None and d[0] == "s":
                    return [(d, env, st, sure)]
                r = self.hook(c, args, st, self, env)
                if r is not None:
                    return [(x[0], x[2] if len(x) > 2 else env, x[1], sure and len(r) == 1) for x in r]
                ty = (c.func[7] or ["?"])[0] if c.is_fn and len(c.func) > 7 else "?"
                sl = self.slot()
                e = dict(env)
                e[sl] = ("s", "")
                out = []
                for e2, s, su in self.emit(("v", "FmtArg " + str(ty), (args[0],)), sl, e, st, sure):
                    v = e2.get(sl)
                    e2 = {k: x for k, x in e2.items() if k != sl}
                    out.append((v, e2, s, su))
                return out
            f = args[0] if args else None
            if n in ("write_fmt", "write_str", "pad") and len(args) == 2 and f is not None and f[0] == "ref" and self.string_at(f, env):
                pl = [f[1], json.loads(f[2])]
                if n != "write_fmt":
                    e = dict(env)
                    cur, t = self.deref(f, env), text(self.deep(args[1], env))
                    self.write(pl, ("s", cur[1] + t) if t is not None else None, e)
                    return [(("v", "Ok", (("t", ()),)), e, st, sure)]
                sl = self.slot() - 1
                e = dict(env)
                e[sl] = self.deref(f, env)
                out = []
                for e2, s, su in self.render(self.deref(args[1], env), sl, e, st, sure):
                    v = e2.get(sl)
                    e2 = {k: x for k, x in e2.items() if k != sl}
                    self.write(pl, v, e2)
                    out.append((("v", "Ok", (("t", ()),)), e2, s, su))
                return out
            if n == "fmt" and len(args) == 2 and args[1] is not None and args[1][0] == "ref" and self.string_at(args[1], env) and not self.callee(c, args, env):
                t = text(self.deep(args[0], env))
                cur = self.deref(args[1], env)
                e = dict(env)
                self.write([args[1][1], json.loads(args[1][2])], ("s", cur[1] + t) if t is not None else None, e)
                return [(("v", "Ok", (("t", ()),)), e, st, sure)]
            if n == "fmt" and len(args) == 2 and c.resolved and c.resolved in self.prog.raw:
                return self.enter(self.prog.body(c.resolved), args, env, st, sure)
        return super().call(c, args, env, st, sure)

    def string_at(self, f, env):
        d = self.deref(f, env)
        return d is not None and d[0] == "s" and isinstance(d[1], str)

    def fmtargs(self, v, env):
        v = self.deref(v, env)
        if v is None or v[0] != "vec":
            return None
        return v

    # -- strings and maps ----------------------------------------------------------------

    def model(self, c, args, env):
        n = c.name
        d0 = self.deref(args[0], env) if args else None
        if d0 is not None and d0[0] == "s" and isinstance(d0[1], str):
            r = self.string(c, n, d0[1], args, env)
            if r is not None:
                return True, r
        if d0 is not None and d0[0] == "c" and isinstance(d0[1], int) and len(args) == 1 and n.startswith("is_ascii") and n != "is_ascii":
            ch = chr(d0[1])
            if private(ch):
                return True, None
            f = {"is_ascii_lowercase": lambda: "a" <= ch <= "z", "is_ascii_uppercase": lambda: "A" <= ch <= "Z", "is_ascii_digit": lambda: "0" <= ch <= "9",
                 "is_ascii_alphabetic": lambda: ch.isascii() and ch.isalpha(), "is_ascii_alphanumeric": lambda: ch.isascii() and ch.isalnum()}.get(n)
            return True, ("c", int(f())) if f else None
        if d0 is not None and d0[0] == "c" and isinstance(d0[1], int) and len(args) == 1 and n in ("to_uppercase", "to_lowercase") and "char" in c.path:
            return True, ("v", "VecIter", (("vec", tuple(("c", ord(y)) for y in (upper if n == "to_uppercase" else lower)(chr(d0[1])))),))
        if d0 is not None and d0[0] == "map":
            r = self.mapping(c, n, d0[1], args, env)
            if r is not None:
                return True, r
        if d0 is not None and d0[0] == "v" and (d0[1].endswith("Entry!") or d0[1] in ("Occupied", "Vacant")):
            r = self.entry(n, d0, args, env)
            if r is not None:
                return True, r
        if d0 is not None and d0[0] == "v" and d0[1] == "VecIter" and n in ("collect", "from_iter") and len(args) == 1:
            t = traces.dest_type(self, c)
            items = [self.deep(x, env) for x in d0[2][0][1]]
            if t.startswith("alloc::string::String"):
                if all(x is not None and x[0] in ("c", "s") for x in items):
                    return True, ("s", "".join(chr(x[1]) if x[0] == "c" else x[1] for x in items))
                return True, None
            if ("Map<" in t or "Set<" in t) and all(x is not None for x in items):
                return True, None
        if (c.path.startswith("std::collections::") or c.path.startswith("alloc::collections::")) and not args and n in ("new", "default") or (
                n in ("default", "new", "with_capacity") and len(args) <= 1 and ("Map<" in traces.dest_type(self, c).split("<")[0] + "<") and "collections" in traces.dest_type(self, c)):
            return True, ("map", ())
        return super().model(c, args, env)

    def string(self, c, n, t, args, env):
        d = [self.deep(a, env) for a in args]
        dt = traces.dest_type(self, c)
        pl = [args[0][1], json.loads(args[0][2])] if args[0] is not None and args[0][0] == "ref" else None

        def chars(x):
            return ("v", "VecIter", (("vec", tuple(("c", ord(y)) for y in x)),))

        def pat(x):
            """A predicate over one character, or a plain substring."""
            if x is None:
                return None
            if x[0] == "s":
                return x[1]
            if x[0] == "c":
                return chr(x[1])
            return None
        if n == "chars" or n == "bytes":
            return chars(t)
        if n == "char_indices":
            return ("v", "VecIter", (("vec", tuple(("t", (("c", i), ("c", ord(y)))) for i, y in enumerate(t))),))
        if n == "is_empty":
            return ("c", int(not t))
        if n == "len":
            return ("c", len(t)) if known(t) and t.isascii() else ("sym", "len", t)
        if n in ("to_uppercase", "to_ascii_uppercase"):
            return ("s", upper(t))
        if n in ("to_lowercase", "to_ascii_lowercase"):
            return ("s", lower(t))
        if n in ("make_ascii_uppercase", "make_ascii_lowercase") and pl:
            self.write(pl, ("s", upper(t) if n.endswith("uppercase") else lower(t)), env)
            return ("t", ())
        if n in ("clone", "to_owned", "to_string", "into_string", "into_boxed_str", "into", "as_str", "as_bytes", "into_bytes", "from", "as_ref", "to_vec", "trim", "borrow") and len(args) == 1:
            if n == "trim":
                return ("s", t.strip()) if known(t) else None
            return ("s", t) if pl is None or n not in ("as_str", "as_bytes", "as_ref", "borrow") else args[0]
        if len(d) == 2:
            p = pat(d[1])
            if n in ("split", "rsplit", "split_terminator") and p:
                xs = t.split(p)
                if n == "split_terminator" and xs and not xs[-1]:
                    xs.pop()
                return ("v", "VecIter", (("vec", tuple(("s", x) for x in (xs[::-1] if n == "rsplit" else xs))),))
            if p is not None and n in ("starts_with", "ends_with", "contains"):
                r = {"starts_with": t.startswith, "ends_with": t.endswith, "contains": lambda q: q in t}[n](p)
                # A run of ordinary characters may itself begin, end with or contain ordinary characters.
                return ("c", int(r)) if r or known(t) or not any(x.isalnum() for x in p) else None
            if p and n in ("matches", "rmatches"):
                return ("v", "VecIter", (("vec", (("s", p),) * t.count(p)),))
            if p and n == "match_indices" and known(t) and t.isascii():
                at, i = [], t.find(p)
                while i >= 0:
                    at.append(("t", (("c", i), ("s", p))))
                    i = t.find(p, i + len(p))
                return ("v", "VecIter", (("vec", tuple(at)),))
            if p is not None and n in ("find", "rfind"):
                i = t.find(p) if n == "find" else t.rfind(p)
                return ("v", "Some", (("c", i),)) if i >= 0 else ("v", "None", ())
            if p and n in ("split_once", "rsplit_once"):
                if p not in t:
                    return ("v", "None", ())
                a, b = t.split(p, 1) if n == "split_once" else t.rsplit(p, 1)
                return ("v", "Some", (("t", (("s", a), ("s", b))),))
            if p and n in ("strip_prefix", "strip_suffix"):
                if (t.startswith if n == "strip_prefix" else t.endswith)(p):
                    return ("v", "Some", (("s", t[len(p):] if n == "strip_prefix" else t[:len(t) - len(p)]),))
                return ("v", "None", ())
            if p and n in ("trim_start_matches", "trim_end_matches", "trim_matches"):
                x = t
                while n != "trim_end_matches" and x.startswith(p):
                    x = x[len(p):]
                while n != "trim_start_matches" and x.endswith(p):
                    x = x[:len(x) - len(p)]
                return ("s", x)
            one = d[1] is not None and (d[1][0] == "v" and d[1][1].startswith("closure ") or d[1][0] == "vec" and all(x is not None and x[0] == "c" for x in d[1][1]))
            if n in ("split", "find", "rfind", "contains", "starts_with", "ends_with", "matches") and one:
                hits = [self.apply_closure(d[1], [("c", ord(x))], env) if d[1][0] == "v" else ("c", int(("c", ord(x)) in d[1][1])) for x in t]
                if None in hits:
                    return None
                at = [i for i, h in enumerate(hits) if h == ("c", 1)]
                if n == "matches":
                    return ("v", "VecIter", (("vec", tuple(("s", t[i]) for i in at)),))
                if n == "contains":
                    return ("c", int(bool(at)))
                if n in ("starts_with", "ends_with"):
                    return ("c", int((0 if n == "starts_with" else len(t) - 1) in at))
                if n in ("find", "rfind"):
                    return ("v", "Some", (("c", at[0 if n == "find" else -1]),)) if at else ("v", "None", ())
                xs, lo = [], 0
                for i in at + [len(t)]:
                    xs.append(("s", t[lo:i]))
                    lo = i + 1
                return ("v", "VecIter", (("vec", tuple(xs)),))
            if n in ("index", "get", "index_mut"):
                b = bounds(d[1], len(t))
                if b is None:
                    return None
                return ("s", t[b[0]:b[1]]) if n == "index" else ("v", "Some", (("s", t[b[0]:b[1]]),)) if n == "get" else None
            if n == "split_at" and d[1] is not None and d[1][0] == "c" and 0 <= d[1][1] <= len(t):
                return ("t", (("s", t[:d[1][1]]), ("s", t[d[1][1]:])))
            if n in ("eq_ignore_ascii_case",) and p is not None:
                return ("c", int(upper(t) == upper(p))) if known(t + p) or upper(t) == upper(p) else None
            if n in ("push", "push_str", "add_assign") and pl:
                x = text(d[1]) if d[1] is None or d[1][0] != "c" else chr(d[1][1])
                self.write(pl, ("s", t + x) if x is not None else None, env)
                return ("t", ())
            if n == "add":
                x = text(d[1])
                return ("s", t + x) if x is not None else None
            if n in ("truncate",) and pl:
                self.write(pl, ("s", t[:d[1][1]]) if d[1] is not None and d[1][0] == "c" else None, env)
                return ("t", ())
        if len(d) == 3 and n in ("insert", "insert_str") and pl and d[1] is not None and d[1][0] == "c":
            x = text(d[2]) if d[2] is None or d[2][0] != "c" else chr(d[2][1])
            i = d[1][1]
            self.write(pl, ("s", t[:i] + x + t[i:]) if x is not None else None, env)
            return ("t", ())
        if n == "clear" and pl:
            self.write(pl, ("s", ""), env)
            return ("t", ())
        if n == "clone_into" and len(args) == 2 and args[1] is not None and args[1][0] == "ref":
            self.write([args[1][1], json.loads(args[1][2])], ("s", t), env)
            return ("t", ())
        if n == "splitn" and len(d) == 3 and d[1] is not None and d[1][0] == "c" and pat(d[2]):
            return ("v", "VecIter", (("vec", tuple(("s", x) for x in t.split(pat(d[2]), d[1][1] - 1))),))
        return None

    def entry(self, n, e, args, env):
        if e[1] in ("Occupied", "Vacant"):
            e = e[2][0]
        if e is None or e[0] != "v" or not e[1].endswith("Entry!"):
            return None
        r = e[2][0]
        pl = [r[1], json.loads(r[2])]
        m = self.read(pl, env)
        if m is None or m[0] != "map":
            return None
        at = lambda i: ("ref", r[1], json.dumps(pl[1] + [["x", i]]))
        if e[1] == "OccupiedEntry!":
            i = e[2][1][1]
            if n in ("get", "get_mut", "into_mut", "or_insert", "or_default", "or_insert_with"):
                return at(i)
            if n == "key":
                return m[1][i][0]
            if n in ("insert", "remove", "remove_entry"):
                new = m[1][:i] + (((m[1][i][0], args[1]),) if n == "insert" else ()) + m[1][i + 1:]
                self.write(pl, ("map", new), env)
                return m[1][i][1] if n != "remove_entry" else ("t", m[1][i])
            return None
        if n == "key":
            return e[2][1]
        if n in ("insert", "or_insert") and len(args) == 2:
            self.write(pl, ("map", m[1] + ((e[2][1], args[1]),)), env)
            return at(len(m[1]))
        if n == "insert_entry" and len(args) == 2:
            self.write(pl, ("map", m[1] + ((e[2][1], args[1]),)), env)
            return ("v", "OccupiedEntry!", (r, ("c", len(m[1]))))
        return None

    def mapping(self, c, n, items, args, env):
        d = [self.deep(a, env) for a in args]
        r = args[0] if args[0] is not None and args[0][0] == "ref" else None
        while r is not None:
            v = self.read([r[1], json.loads(r[2])], env)
            if v is None or v[0] != "ref":
                break
            r = v

        def at(i):
            return ("ref", r[1], json.dumps(json.loads(r[2]) + [["x", i]])) if r is not None else items[i][1]

        def put(new):
            self.write([r[1], json.loads(r[2])], ("map", tuple(new)), env)

        def find(k):
            for i, (q, _v) in enumerate(items):
                if q == k:
                    return i
            return None
        if n == "entry" and r is not None and len(d) == 2 and d[1] is not None:
            i = find(d[1])
            if i is not None:
                return ("v", "Occupied", (("v", "OccupiedEntry!", (r, ("c", i))),))
            return ("v", "Vacant", (("v", "VacantEntry!", (r, d[1])),))
        if n == "len":
            return ("c", len(items))
        if n == "is_empty":
            return ("c", int(not items))
        if n in ("iter", "into_iter", "drain") and ("Set<" in c.path or "Set::<" in c.path):
            if n == "drain" and r is not None:
                put([])
            return ("v", "VecIter", (("vec", tuple(k for k, _v in items)),))
        if n in ("iter", "into_iter", "iter_mut", "drain"):
            out = ("v", "VecIter", (("vec", tuple(("t", (k, at(i) if n != "drain" else v)) for i, (k, v) in enumerate(items))),))
            if n == "drain" and r is not None:
                put([])
            return out
        if n in ("keys", "into_keys"):
            return ("v", "VecIter", (("vec", tuple(k for k, _v in items)),))
        if n in ("values", "values_mut", "into_values"):
            return ("v", "VecIter", (("vec", tuple(at(i) for i in range(len(items)))),))
        if n == "clear" and r is not None:
            put([])
            return ("t", ())
        if n == "clone":
            return ("map", items)
        if len(d) >= 2 and d[1] is not None:
            i = find(d[1])
            if n in ("contains_key", "contains"):
                return ("c", int(i is not None))
            if n in ("get", "get_mut"):
                return ("v", "Some", (at(i),)) if i is not None else ("v", "None", ())
            if n == "index":
                return at(i) if i is not None else None
            if n == "remove" and r is not None:
                if i is not None:
                    put(items[:i] + items[i + 1:])
                    return ("v", "Some", (items[i][1],)) if not traces.dest_type(self, c) == "bool" else ("c", 1)
                return ("v", "None", ()) if not traces.dest_type(self, c) == "bool" else ("c", 0)
            if n == "insert" and r is not None and len(args) == 3:
                if i is not None:
                    put(items[:i] + ((d[1], args[2]),) + items[i + 1:])
                    return ("v", "Some", (items[i][1],))
                put(items + ((d[1], args[2]),))
                return ("v", "None", ())
            if n == "insert" and r is not None and len(args) == 2:
                if i is None:
                    put(items + ((d[1], ("t", ())),))
                return ("c", int(i is None))
        if len(d) >= 2 and n in ("get", "get_mut", "contains_key", "remove", "insert"):
            if n in ("remove", "insert") and r is not None:
                self.write([r[1], json.loads(r[2])], None, env)
            return None
        return None


class Loose(Strs):
    loose = True


def run(prog, b, hook, pick, st0, env, limit=100000, loose=False):
    """Like traces.explore, with strings."""
    old = traces.Traces
    traces.Traces = Loose if loose else Strs
    try:
        return traces.explore(prog, b, hook, pick, st0, limit, env)
    finally:
        traces.Traces = old
