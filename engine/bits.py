"""A bit-level abstract interpreter over MIR.

Values are vectors of abstract bits: 0, 1, (name, i) for "bit i of input `name`", or None for
unknown.  Used to decide, for every input at once, that an encoder and its decoder are inverse.
Branches on unknown conditions are followed both ways; paths that diverge (panic) contribute
nothing, and the values of the paths that return are joined bitwise.
"""

from mirlib import Call

WIDTH = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64,
         "usize": 64, "isize": 64, "bool": 1, "char": 32, "u128": 128, "i128": 128}


class Top:
    def __repr__(self):
        return "Top"

    def __eq__(self, o):
        return isinstance(o, Top)

    def __hash__(self):
        return 7


TOP = Top()


class Bits(tuple):
    pass


def const(v, n):
    return Bits((v >> i) & 1 for i in range(n))


def sym(name, n, width=None):
    return Bits([(name, i) for i in range(n)] + [0] * ((width or n) - n))


def as_int(b):
    if not isinstance(b, Bits):
        return None
    v = 0
    for i, x in enumerate(b):
        if x not in (0, 1) or isinstance(x, tuple):
            return None
        v |= x << i
    return v


def resize(b, n, signed):
    if not isinstance(b, Bits):
        return TOP
    if len(b) >= n:
        return Bits(b[:n])
    ext = b[-1] if signed and b else 0
    return Bits(list(b) + [ext] * (n - len(b)))


def join(a, b):
    if a == b:
        return a
    if isinstance(a, Bits) and isinstance(b, Bits) and len(a) == len(b):
        return Bits(x if x == y else None for x, y in zip(a, b))
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == "adt" == b[0] and a[1] == b[1] and len(a[2]) == len(b[2]):
        return ("adt", a[1], tuple(join(x, y) for x, y in zip(a[2], b[2])))
    return TOP


def bnot(v):
    out = []
    for x in v:
        if x is None:
            out.append(None)
        elif isinstance(x, tuple):
            out.append((x[0], x[1]) if len(x) == 3 else (x[0], x[1], "~"))
        else:
            out.append(1 - x)
    return Bits(out)


class Diverges(Exception):
    pass


class Eval:
    def __init__(self, prog, max_steps=20000):
        self.P = prog
        self.steps = 0
        self.max_steps = max_steps
        self.truncations = []  # bits assumed zero by checked conversions

    def call(self, fid, args, depth=0):
        """Joined return value over all returning paths (raises Diverges if none)."""
        if depth > 12:
            return TOP
        b = self.P.body(fid)
        if b is None:
            return TOP
        env = {i + 1: a for i, a in enumerate(args)}
        res = []
        work = [(0, env, 0)]
        while work:
            bb, env, n = work.pop()
            self.steps += 1
            if self.steps > self.max_steps or n > 400:
                res.append(TOP)
                break
            for nxt, e2 in self.block(b, bb, env, depth):
                if nxt == "ret":
                    res.append(e2.get(0, TOP))
                else:
                    work.append((nxt, e2, n + 1))
        if not res:
            raise Diverges()
        v = res[0]
        for x in res[1:]:
            v = join(v, x)
        return v

    # -- places ------------------------------------------------------------------------------

    def read(self, env, place, depth):
        l, proj = place
        v = env.get(l, TOP)
        for p in proj:
            if p == "*":
                continue
            if p[0] == "f":
                if isinstance(v, tuple) and not isinstance(v, Bits) and v and v[0] == "adt" and p[1] < len(v[2]):
                    v = v[2][p[1]]
                else:
                    return TOP
            elif p[0] == "v":
                if isinstance(v, tuple) and not isinstance(v, Bits) and v and v[0] == "adt" and v[1] == p[1]:
                    continue
                return TOP
            else:
                return TOP
        return v

    def write(self, env, place, v):
        l, proj = place
        proj = [p for p in proj if p != "*"]
        if not proj:
            env[l] = v
            return
        cur = env.get(l, TOP)
        p = proj[0]
        if len(proj) == 1 and p[0] == "f" and isinstance(cur, tuple) and not isinstance(cur, Bits) and cur[0] == "adt" and p[1] < len(cur[2]):
            f = list(cur[2])
            f[p[1]] = v
            env[l] = ("adt", cur[1], tuple(f))
        else:
            env[l] = TOP

    def op(self, env, o, b, depth):
        if o[0] in ("c", "m"):
            return self.read(env, o[1], depth)
        if o[0] == "k":
            ty = o[1]
            if isinstance(o[2], bool):
                return const(int(o[2]), 1)
            if isinstance(o[2], int) and ty in WIDTH:
                return const(o[2], WIDTH[ty])
            if isinstance(o[2], int) and ty in self.P.adts:
                adt = self.P.adts[ty]
                if adt["enum"]:
                    for v in adt["variants"]:
                        if int(v["disc"]) == o[2]:
                            return ("adt", v["name"], ())
                elif len(adt["variants"]) == 1 and len(adt["variants"][0]["fields"]) == 1:
                    n = WIDTH.get(adt["variants"][0]["fields"][0][1])
                    if n:
                        return ("adt", adt["variants"][0]["name"], (const(o[2], n),))
            if o[3] and o[3] in self.P.raw:
                try:
                    return self.call(o[3], [], depth + 1)
                except Diverges:
                    return TOP
            return TOP
        return TOP

    # -- execution of one block in the abstract domain ---------------------------------------

    def block(self, b, bb, env, depth):
        env = dict(env)
        blk = b.blocks[bb]
        for s in blk["s"]:
            if s[0] == "=":
                self.write(env, s[1], self.rvalue(env, s[2], b, depth))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], env)]
        if k == "ret":
            return [("ret", env)]
        if k == "drop":
            return [(t[2], env)]
        if k == "assert":
            c = as_int(self.op(env, t[1], b, depth))
            if c is not None and bool(c) != bool(t[2]):
                return []
            return [(t[6], env)]
        if k == "switch":
            v = as_int(self.op(env, t[1], b, depth))
            if v is not None:
                for val, tb in t[3]:
                    if val == v:
                        return [(tb, env)]
                return [(t[4], env)]
            return [(s, dict(env)) for s in dict.fromkeys(b.succ(bb))]
        if k == "call":
            if t[4] is None:
                return []
            c = Call(bb, t)
            args = [self.op(env, a, b, depth) for a in c.args]
            try:
                v = self.builtin(c, args, depth, b)
            except Diverges:
                return []
            self.write(env, c.dest, v)
            return [(t[4], env)]
        return []

    def rvalue(self, env, r, b, depth):
        k = r[0]
        if k == "use":
            return self.op(env, r[1], b, depth)
        if k == "ref":
            return self.read(env, r[2], depth)
        if k == "cast":
            v = self.op(env, r[2], b, depth)
            return self.cast(v, r[4], r[3], r[1])
        if k == "bin":
            return self.bin(r[1], self.op(env, r[2], b, depth), self.op(env, r[3], b, depth), r[4])
        if k == "un":
            v = self.op(env, r[2], b, depth)
            if r[1] == "Not" and isinstance(v, Bits):
                return bnot(v)
            if r[1] == "Neg" and isinstance(v, Bits):
                n = as_int(v)
                if n is not None:
                    return const(-n & ((1 << len(v)) - 1), len(v))
                return ("plus", bnot(v), 1)  # two's complement: -x == !x + 1
            return TOP
        if k == "disc":
            v = self.read(env, r[1], depth)
            if isinstance(v, tuple) and not isinstance(v, Bits) and v[0] == "adt":
                for d, n in r[3]:
                    if n == v[1]:
                        return const(int(d), 64)
            if isinstance(v, tuple) and not isinstance(v, Bits) and v[0] == "enum":
                return resize(v[2], 64, False)
            return TOP
        if k == "agg":
            vals = tuple(self.op(env, o, b, depth) for o in r[3])
            if r[1] == "tuple":
                return ("adt", "", vals)
            if r[1] in ("array", "closure", "coroutine", "other"):
                return TOP
            return ("adt", r[2], vals)
        return TOP

    def cast(self, v, frm, to, kind):
        if isinstance(v, tuple) and not isinstance(v, Bits) and v[0] == "enum":
            v = v[2]
        elif isinstance(v, tuple) and not isinstance(v, Bits) and v[0] == "adt" and frm in self.P.adts:
            for vv in self.P.adts[frm]["variants"]:
                if vv["name"] == v[1]:
                    v = const(int(vv["disc"]), 64)
                    frm = "u64"
        if isinstance(v, Bits) and to in WIDTH:
            return resize(v, WIDTH[to], frm.startswith("i"))
        if isinstance(v, Bits) and to in self.P.adts and self.P.adts[to]["enum"]:
            return self.to_enum(v, to)
        return TOP

    def to_enum(self, v, ty):
        n = as_int(v)
        if n is not None:
            for vv in self.P.adts[ty]["variants"]:
                if int(vv["disc"]) == n:
                    return ("adt", vv["name"], ())
            raise Diverges()
        return ("enum", ty, v)

    def bin(self, op, x, y, ty):
        if isinstance(x, tuple) and not isinstance(x, Bits) and x and x[0] == "plus" and isinstance(y, Bits):
            c = as_int(y)
            base = op.replace("WithOverflow", "").replace("Unchecked", "")
            r = TOP
            if c is not None and base in ("Add", "Sub"):
                n = x[2] + (c if base == "Add" else -c)
                r = x[1] if n == 0 else ("plus", x[1], n)
            elif op in ("Eq", "Ne"):
                return Bits([None])
            return ("adt", "", (r, Bits([None]))) if op.endswith("WithOverflow") else r
        if not (isinstance(x, Bits) and isinstance(y, Bits)):
            if op.endswith("WithOverflow"):
                return ("adt", "", (TOP, TOP))
            return TOP
        n = len(x)

        def known(v):
            return v in (0, 1) and not isinstance(v, tuple)

        if op == "BitAnd":
            return Bits(0 if (known(a) and a == 0) or (known(c) and c == 0) else
                        (c if known(a) else (a if known(c) else (a if a == c else None)))
                        for a, c in zip(x, y))
        if op == "BitOr":
            return Bits(1 if (known(a) and a == 1) or (known(c) and c == 1) else
                        (c if known(a) else (a if known(c) else (a if a == c else None)))
                        for a, c in zip(x, y))
        if op == "BitXor":
            return Bits((a ^ c) if known(a) and known(c) else
                        (c if known(a) and a == 0 else (a if known(c) and c == 0 else None))
                        for a, c in zip(x, y))
        s = as_int(y)
        if op in ("Shl", "ShlUnchecked"):
            if s is None or s >= n:
                return Bits([None] * n)
            return Bits([0] * s + list(x[: n - s]))
        if op in ("Shr", "ShrUnchecked"):
            if s is None or s >= n:
                return Bits([None] * n)
            ext = x[-1] if ty.startswith("i") else 0
            return Bits(list(x[s:]) + [ext] * s)
        a, c = as_int(x), as_int(y)
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if base in ("Add", "Sub", "Mul"):
            if a is not None and c is not None:
                v = {"Add": a + c, "Sub": a - c, "Mul": a * c}[base]
                r = const(v & ((1 << n) - 1), n)
                ov = const(0 if 0 <= v < (1 << n) else 1, 1)
            elif base == "Add" and all(known(p) and p == 0 or known(q) and q == 0 for p, q in zip(x, y)):
                r, ov = Bits(q if known(p) and p == 0 else p for p, q in zip(x, y)), const(0, 1)
            elif base == "Mul" and (c is not None and c and c & (c - 1) == 0):
                s = c.bit_length() - 1
                r, ov = Bits([0] * s + list(x[: n - s])), Bits([None])
            else:
                r, ov = Bits([None] * n), Bits([None])
            return ("adt", "", (r, ov)) if op.endswith("WithOverflow") else r
        if base == "Div" and c and c & (c - 1) == 0 and not ty.startswith("i"):
            s = c.bit_length() - 1
            return Bits(list(x[s:]) + [0] * s)
        if base == "Rem" and c and c & (c - 1) == 0 and not ty.startswith("i"):
            s = c.bit_length() - 1
            return Bits(list(x[:s]) + [0] * (n - s))
        if op in ("Eq", "Ne"):
            if any(known(p) and known(q) and p != q for p, q in zip(x, y)):
                return const(1 if op == "Ne" else 0, 1)
            if all(p == q and p is not None for p, q in zip(x, y)):
                return const(1 if op == "Eq" else 0, 1)
            return Bits([None])
        if op in ("Lt", "Ge") and ty.startswith("i") and as_int(y) == 0 and known(x[-1]):
            neg = x[-1] == 1
            return const(int(neg if op == "Lt" else not neg), 1)
        if op in ("Lt", "Le", "Gt", "Ge") and not ty.startswith("i"):
            lo = lambda v: sum(1 << i for i, p in enumerate(v) if known(p) and p == 1)
            hi = lambda v: sum(1 << i for i, p in enumerate(v) if not (known(p) and p == 0))
            xl, xh, yl, yh = lo(x), hi(x), lo(y), hi(y)
            if op in ("Gt", "Ge"):
                xl, xh, yl, yh = yl, yh, xl, xh
                op = {"Gt": "Lt", "Ge": "Le"}[op]
            if op == "Lt":
                if xh < yl:
                    return const(1, 1)
                if xl >= yh:
                    return const(0, 1)
            else:
                if xh <= yl:
                    return const(1, 1)
                if xl > yh:
                    return const(0, 1)
            return Bits([None])
        return Bits([None]) if op in ("Lt", "Le", "Gt", "Ge") else TOP

    def builtin(self, c, args, depth, b):
        name, gen = c.name, c.generic
        a0 = args[0] if args else TOP
        if c.resolved in self.P.raw:
            return self.call(c.resolved, args, depth + 1)
        dty = b.locals[c.dest[0]] if not c.dest[1] else ""
        if gen in ("core::convert::From::from", "core::convert::Into::into") and dty in WIDTH and isinstance(a0, Bits):
            return resize(a0, WIDTH[dty], False)
        if gen in ("core::convert::TryFrom::try_from", "core::convert::TryInto::try_into") and isinstance(a0, Bits):
            inner = dty[len("core::result::Result<"):].split(",")[0] if dty.startswith("core::result::Result<") else ""
            if inner in WIDTH:
                n = WIDTH[inner]
                if any(x != 0 or isinstance(x, tuple) for x in a0[n:]):
                    self.truncations.append((c.path, a0[n:]))
                return ("adt", "Ok", (resize(a0, n, False),))
        if name in ("unwrap", "expect", "unwrap_or_default") and isinstance(a0, tuple) and not isinstance(a0, Bits) and a0[0] == "adt":
            if a0[1] in ("Ok", "Some"):
                return a0[2][0]
            raise Diverges()
        if name == "transmute":
            if dty in self.P.adts and isinstance(a0, Bits):
                return self.to_enum(a0, dty)
            return TOP
        if name in ("deref", "clone", "borrow", "as_ref"):
            return a0
        if name in ("map_err",):
            return a0
        return TOP
