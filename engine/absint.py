"""Forward abstract interpretation of one (usually inlined) body.

Values: ("c", n) integer/boolean/char constant; ("s", text) string constant; ("v", name, payload)
enum variant or struct; ("t", items) tuple; ("ref", local, proj) reference to a place of this body;
("sym", tag...) opaque symbol made by a client; None unknown.  Branches on unknown values explore
both sides; branches on known values are decided.  The client sees every call through `hook`."""

import json

from mirlib import Call, Body, AWAIT

KNOWN_SIZES = {"u8": (0, 255), "u16": (0, 65535), "u32": (0, 2**32 - 1), "u64": (0, 2**64 - 1), "usize": (0, 2**64 - 1),
               "i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (-2**63, 2**63 - 1),
               "isize": (-2**63, 2**63 - 1)}


def wrap(v, ty):
    if ty in KNOWN_SIZES:
        lo, hi = KNOWN_SIZES[ty]
        m = hi - lo + 1
        return (v - lo) % m + lo
    return v


def from_expr(e, d=0):
    """A value from a mirlib expression (promoted constants)."""
    if e is None or d > 12:
        return None
    while e[0] in ("var", "conv"):
        e = e[2]
    if e[0] == "const":
        v = e[2]
        if isinstance(v, bool) or isinstance(v, int):
            return ("c", int(v))
        if isinstance(v, str) and e[1] in ("f64", "f32"):
            v = float(v)
        if isinstance(v, (str, float)):
            return ("s" if isinstance(v, str) else "c", v)
        return None
    if e[0] == "agg":
        items = tuple(from_expr(x, d + 1) for x in e[3])
        if e[2]:
            return ("v", e[2], items)
        return ("t", items)
    if e[0] == "call" and e[1].endswith("RangeInclusive::<Idx>::new") and len(e[2]) == 2:
        return ("v", "RangeInclusive", (from_expr(e[2][0], d + 1), from_expr(e[2][1], d + 1)))
    return None


STOP = object()


class Interp:
    """`hook(c, args, st, ai)` is called for every call with evaluated arguments.  It returns None
    (default treatment) or a list of (value, new client state) alternatives; an empty list stops
    the path.  `event(kind, bb, ...)` hooks may be added by subclasses."""

    def __init__(self, body, hook, limit=60000):
        self.b = body
        self.hook = hook
        self.limit = limit
        self.rets = []  # (value of the return place, client state)
        self.dead = []  # (bb, client state, decided): diverging calls reached
        self.overflow = False

    # -- values --------------------------------------------------------------------------

    def const(self, op):
        if op[3] and "#p" in op[3]:
            e = self.b.prog.promoted(op[3])
            v = from_expr(e)
            if v is not None:
                return v
        v = op[2]
        if isinstance(v, bool) or isinstance(v, int):
            return ("c", int(v))
        if isinstance(v, float):
            return ("c", v)
        if isinstance(v, str):
            if op[1] in ("f64", "f32"):
                return ("c", float(v))
            if op[1] == "char" and len(v) == 1:
                return ("c", ord(v))
            return ("s", v)
        if op[1] == "()":
            return ("t", ())
        return None

    def operand(self, op, env):
        if op[0] == "k":
            return self.const(op)
        if op[0] == "fn":
            return ("fn", op[2] or op[1])
        return self.read(op[1], env)

    def follow(self, v, proj, env):
        for p in proj:
            if v is None:
                return None
            if p == "*":
                if v[0] == "ref":
                    v = self.read([v[1], json.loads(v[2])], env)
            elif p[0] == "v":
                if v[0] != "v" or v[1] != p[1]:
                    return None
            elif p[0] == "f" and len(p) > 3 and p[3] == "alloc::boxed::Box":
                continue  # boxes are transparent
            elif p[0] == "f":
                if v[0] == "v" and p[1] < len(v[2]):
                    v = v[2][p[1]]
                elif v[0] == "t" and p[1] < len(v[1]):
                    v = v[1][p[1]]
                else:
                    return None
            else:
                return None
        return v

    def read(self, place, env):
        return self.follow(env.get(place[0]), place[1], env)

    def deref(self, v, env):
        n = 0
        while v is not None and v[0] == "ref" and n < 20:
            v = self.read([v[1], json.loads(v[2])], env)
            n += 1
        return v

    def deep(self, v, env, d=0):
        """v with references replaced by what they refer to."""
        v = self.deref(v, env)
        if v is None or d > 6:
            return v
        if v[0] == "v":
            return ("v", v[1], tuple(self.deep(x, env, d + 1) for x in v[2]))
        if v[0] == "t":
            return ("t", tuple(self.deep(x, env, d + 1) for x in v[1]))
        if v[0] == "map":
            return ("map", tuple((self.deep(k, env, d + 1), self.deep(x, env, d + 1)) for k, x in v[1]))
        return v

    def write(self, place, val, env):
        l, proj = place
        if not proj:
            if val is None:
                env.pop(l, None)
            else:
                env[l] = val
            return
        base = env.get(l)
        if proj[0] == "*":
            if base is not None and base[0] == "ref":
                self.write([base[1], json.loads(base[2]) + proj[1:]], val, env)
            return
        if base is None and proj[0][0] == "f" and len(proj) == 1:
            # Piecewise initialisation of a tuple or closure environment.
            n = proj[0][1]
            env[l] = ("t", (None,) * n + (val,))
            return
        env2 = self._put(base, proj, val, env)
        if env2 is None:
            env.pop(l, None)
        else:
            env[l] = env2

    def _put(self, base, proj, val, env):
        if not proj:
            return val
        p = proj[0]
        if base is None:
            return None
        if p == "*":
            if base[0] == "ref":
                self.write([base[1], json.loads(base[2]) + proj[1:]], val, env)
            return base
        if p[0] == "v":
            if base[0] == "v" and base[1] == p[1]:
                return self._put(base, proj[1:], val, env)
            return None
        if p[0] == "f":
            items = base[2] if base[0] == "v" else base[1] if base[0] == "t" else None
            if items is None:
                return None
            items = list(items) + [None] * (p[1] + 1 - len(items))
            items[p[1]] = self._put(items[p[1]], proj[1:], val, env)
            return ("v", base[1], tuple(items)) if base[0] == "v" else ("t", tuple(items))
        return None

    def rvalue(self, r, env):
        k = r[0]
        if k == "use":
            return self.operand(r[1], env)
        if k == "ref":
            l, proj = r[2]
            # A reborrow is the reference itself.
            if proj == ["*"]:
                v = env.get(l)
                return v
            if "*" in proj:
                i = proj.index("*")
                base = self.follow(env.get(l), proj[:i], env)
                rest = proj[i + 1:]
                if base is not None and base[0] == "ref":
                    return ("ref", base[1], json.dumps(json.loads(base[2]) + rest))
                return self.follow(base, rest, env)
            return ("ref", l, json.dumps(proj))
        if k == "raw":
            return None
        if k == "cast":
            v = self.operand(r[2], env)
            if r[1].startswith("IntToInt") and v is not None and v[0] == "c":
                return ("c", wrap(v[1], r[3]))
            if r[1].startswith("PointerCoercion") or r[1] in ("BoxDerefTransmute", "PtrToPtr"):
                return v
            return None
        if k == "bin":
            return self.binop(r[1], self.operand(r[2], env), self.operand(r[3], env), r[4])
        if k == "un":
            v = self.operand(r[2], env)
            if v is not None and v[0] == "c":
                if r[1] == "Not" and v[1] in (0, 1):
                    return ("c", 1 - v[1])
                if r[1] == "Neg":
                    return ("c", -v[1])
            return None
        if k == "disc":
            v = self.deref(self.read(r[1], env), env)
            if v is not None and v[0] == "v":
                for d, n in r[3]:
                    if n == v[1]:
                        return ("c", int(d))
            if v is not None and v[0] == "sym":
                return ("disc", v)
            # Remember the place so that edges can refine it.
            pl = r[1]
            proj = pl[1]
            if proj and proj[0] == "*":
                b = env.get(pl[0])
                if b is not None and b[0] == "ref":
                    pl = [b[1], json.loads(b[2]) + proj[1:]]
            if "*" not in pl[1]:
                return ("d", pl[0], json.dumps(pl[1]), tuple((int(d), n) for d, n in r[3]))
            return None
        if k == "agg":
            items = tuple(self.operand(o, env) for o in r[3])
            if r[2] and r[1] not in ("closure", "coroutine"):
                return ("v", r[2], items)
            if r[1] == "closure":
                return ("v", "closure " + str(r[2]), items)
            return ("t", items)
        return None

    def binop(self, op, x, y, ty):
        if x is None or y is None or x[0] != "c" or y[0] != "c":
            if op in ("Eq", "Ne") and x is not None and y is not None and x == y and x[0] == "sym":
                return ("c", int(op == "Eq"))
            if op in ("BitOr", "BitAnd"):
                for p, q in ((x, y), (y, x)):
                    if p == ("c", 0):
                        return q if op == "BitOr" else p
                    if p == ("c", 1) and ty == "bool":
                        return p if op == "BitOr" else q
            return ("t", (None, None)) if op.endswith("WithOverflow") else None
        a, b = x[1], y[1]
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        f = {
            "Add": lambda: a + b, "Sub": lambda: a - b, "Mul": lambda: a * b,
            "BitAnd": lambda: a & b, "BitOr": lambda: a | b, "BitXor": lambda: a ^ b,
            "Eq": lambda: int(a == b), "Ne": lambda: int(a != b), "Lt": lambda: int(a < b),
            "Le": lambda: int(a <= b), "Gt": lambda: int(a > b), "Ge": lambda: int(a >= b),
            "Div": lambda: abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1) if b else None,
            "Rem": lambda: (abs(a) % abs(b)) * (1 if a >= 0 else -1) if b else None,
            "Shl": lambda: a << b if b < 128 else None, "Shr": lambda: a >> b if b < 128 else None,
        }.get(base)
        if f is None:
            return None
        v = f()
        if v is None:
            return None
        if op.endswith("WithOverflow"):
            w = wrap(v, ty)
            return ("t", (("c", w), ("c", int(w != v))))
        if base in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return ("c", v)
        if isinstance(v, float):
            return ("c", v) if base in ("Add", "Sub", "Mul") else None
        return ("c", wrap(v, ty))

    # -- calls ---------------------------------------------------------------------------

    def model(self, c, args, env):
        """Default models of std functions: (handled, value)."""
        n = c.name
        d = [self.deref(a, env) for a in args]
        if n and n[0].isupper() and c.is_fn:
            # Variant constructors used as functions.
            own, _, var = c.path.rpartition("::")
            adt = self.b.prog.adts.get(own)
            if adt is not None and any(v["name"] == var for v in adt["variants"]):
                return True, ("v", var, tuple(args))
        if n in ("from", "into") and len(args) == 1 and not c.dest[1] and self.b.locals[c.dest[0]].startswith("alloc::boxed::Box<"):
            return True, args[0]
        if n in ("into_iter", "into", "from", "clone", "deref", "deref_mut", "borrow", "as_ref", "to_owned", "iter", "copied", "cloned", "as_mut", "borrow_mut", "as_str", "as_slice", "to_string") and len(args) == 1:
            if n in ("deref", "deref_mut", "as_mut", "borrow_mut", "as_ref"):
                return True, args[0]
            v = d[0]
            if v is not None and v[0] in ("c", "s", "sym"):
                return True, v
            if v is not None and v[0] == "vec":
                if n in ("iter", "into_iter"):
                    return True, ("v", "VecIter", (v,))
                return True, v
            if n in ("into_iter", "clone", "copied", "cloned"):
                return True, v
            return True, None
        if n == "rev" and d and d[0] is not None and d[0][0] == "v" and d[0][1] == "VecIter":
            return True, ("v", "VecIter", (("vec", d[0][2][0][1][::-1]),))
        if n == "branch" and len(args) == 1 and d[0] is not None and d[0][0] == "v":
            v = d[0]
            if v[1] in ("Ok", "Some"):
                return True, ("v", "Continue", v[2])
            if v[1] in ("Err", "None"):
                return True, ("v", "Break", (v,))
        if n == "from_residual":
            rt = self.b.locals[c.dest[0]] if not c.dest[1] else ""
            if rt.startswith("core::option::Option"):
                return True, ("v", "None", ())
            return True, ("v", "Err", ())
        if n == "map_err" and d and d[0] is not None and d[0][0] == "v":
            return True, ("v", d[0][1], d[0][2] if d[0][1] == "Ok" else ())
        if c.path == "alloc::string::String::new":
            return True, ("s", "")
        if d and d[0] is not None and d[0][0] == "s" and isinstance(d[0][1], str) and len(args) == 1:
            if n in ("to_ascii_uppercase", "to_uppercase"):
                return True, ("s", d[0][1].upper())
            if n in ("to_ascii_lowercase", "to_lowercase"):
                return True, ("s", d[0][1].lower())
            if n in ("make_ascii_uppercase", "make_ascii_lowercase") and args[0] is not None and args[0][0] == "ref":
                self.write([args[0][1], json.loads(args[0][2])], ("s", d[0][1].upper() if n.endswith("upper" + "case") else d[0][1].lower()), env)
                return True, ("t", ())
        if n in ("unwrap", "expect") and d and d[0] is not None and d[0][0] == "v" and d[0][1] in ("Ok", "Some") and d[0][2]:
            return True, d[0][2][0]
        if "alloc::vec::Vec" in c.path or (d and d[0] is not None and d[0][0] == "vec"):
            v = d[0] if d else None
            if (n == "new" and not args) or n == "with_capacity":
                return True, ("vec", ())
            if v is not None and v[0] == "vec" and args[0] is not None and args[0][0] == "ref":
                pl = [args[0][1], json.loads(args[0][2])]
                if n == "push" and len(v[1]) < 64:
                    self.write(pl, ("vec", v[1] + (args[1],)), env)
                    return True, ("t", ())
                if n in ("remove", "swap_remove", "insert", "truncate", "clear"):
                    i = d[1][1] if len(d) > 1 and d[1] is not None and d[1][0] == "c" else 0 if n == "clear" else None
                    if i is None or i > len(v[1]) or (n in ("remove", "swap_remove") and i == len(v[1])):
                        self.write(pl, None, env)
                        return True, None
                    it = list(v[1])
                    r = ("t", ())
                    if n == "remove":
                        r = it.pop(i)
                    elif n == "swap_remove":
                        it[i], it[-1] = it[-1], it[i]
                        r = it.pop()
                    elif n == "insert":
                        it.insert(i, args[2])
                    else:
                        it = it[:i]
                    self.write(pl, ("vec", tuple(it)), env)
                    return True, r
                if n == "pop":
                    if not v[1]:
                        return True, ("v", "None", ())
                    self.write(pl, ("vec", v[1][:-1]), env)
                    return True, ("v", "Some", (v[1][-1],))
            if v is not None and v[0] == "vec":
                if n == "len":
                    return True, ("c", len(v[1]))
                if n == "is_empty":
                    return True, ("c", int(not v[1]))
                if n in ("last", "first"):
                    return True, ("v", "Some", (v[1][-1 if n == "last" else 0],)) if v[1] else ("v", "None", ())
        if n in ("any", "all") and len(d) == 2 and d[0] is not None and d[0][0] == "v" and d[0][1] == "VecIter" and d[1] is not None and d[1][0] == "v" and d[1][1].startswith("closure "):
            rs = [self.apply_closure(d[1], [x], env) for x in d[0][2][0][1]]
            if n == "all":
                rs = [None if r is None else ("c", 1 - r[1]) for r in rs]
            if any(r == ("c", 1) for r in rs):
                return True, ("c", int(n == "any"))
            if all(r == ("c", 0) for r in rs):
                return True, ("c", int(n == "all"))
            return True, None
        if c.path == "alloc::boxed::Box::<T>::new":
            return True, args[0]
        if n in ("eq", "ne") and len(d) == 2:
            a, b = self.deep(args[0], env), self.deep(args[1], env)
            r = same(a, b)
            if r is not None:
                return True, ("c", int(r if n == "eq" else not r))
            return True, None
        if n in ("is_some", "is_none", "is_ok", "is_err") and d and d[0] is not None and d[0][0] == "v":
            return True, ("c", int(d[0][1].lower() == n[3:]))
        if n == "contains" and len(d) == 2 and d[0] is not None and d[0][0] == "v" and d[1] is not None and d[1][0] == "c":
            lo, hi = d[0][2][0], d[0][2][1]
            if lo and hi and lo[0] == hi[0] == "c":
                x = d[1][1]
                return True, ("c", int(lo[1] <= x < hi[1] or (d[0][1] == "RangeInclusive" and x == hi[1])))
        if n in ("cmp", "partial_cmp") and len(d) == 2 and d[0] and d[1] and d[0][0] == d[1][0] == "c":
            r = ("v", "Less" if d[0][1] < d[1][1] else "Greater" if d[0][1] > d[1][1] else "Equal", ())
            return True, r if n == "cmp" else ("v", "Some", (r,))
        if n in ("signum", "abs", "is_positive", "is_negative", "is_sign_negative", "is_sign_positive") and len(d) == 1 and d[0] is not None and d[0][0] == "c":
            x = d[0][1]
            return True, ("c", {"signum": (x > 0) - (x < 0), "abs": abs(x), "is_positive": int(x > 0), "is_negative": int(x < 0), "is_sign_negative": int(x < 0), "is_sign_positive": int(x >= 0)}[n])
        if n in ("checked_neg", "checked_abs") and len(d) == 1 and d[0] is not None and d[0][0] == "c":
            ty = self.b.locals[c.dest[0]] if not c.dest[1] else ""
            ty = ty.replace("core::option::Option<", "").rstrip(">")
            lo, hi = KNOWN_SIZES.get(ty, (-2**127, 2**127))
            v = -d[0][1] if n == "checked_neg" else abs(d[0][1])
            return True, ("v", "Some", (("c", v),)) if lo <= v <= hi else ("v", "None", ())
        if n == "is_multiple_of" and len(d) == 2 and d[0] and d[1] and d[0][0] == d[1][0] == "c" and d[1][1]:
            return True, ("c", int(d[0][1] % d[1][1] == 0))
        if n in ("min", "max") and len(d) == 2 and d[0] and d[1] and d[0][0] == d[1][0] == "c":
            return True, ("c", (min if n == "min" else max)(d[0][1], d[1][1]))
        if n in ("saturating_sub", "saturating_add", "saturating_mul", "wrapping_sub", "wrapping_add", "wrapping_mul", "checked_sub", "checked_add", "checked_mul") and len(d) == 2 and d[0] and d[1] and d[0][0] == d[1][0] == "c":
            ty = self.b.locals[c.dest[0]] if not c.dest[1] else ""
            ty = ty.replace("core::option::Option<", "").rstrip(">")
            lo, hi = KNOWN_SIZES.get(ty, (-2**127, 2**127))
            v = d[0][1] + d[1][1] if n.endswith("add") else d[0][1] - d[1][1] if n.endswith("sub") else d[0][1] * d[1][1]
            if n.startswith("saturating"):
                return True, ("c", max(lo, min(hi, v)))
            if n.startswith("wrapping"):
                return True, ("c", wrap(v, ty))
            return True, ("v", "Some", (("c", v),)) if lo <= v <= hi else ("v", "None", ())
        if n == "step_by" and len(d) == 2 and d[0] and d[0][0] == "v" and d[1] and d[1][0] == "c":
            return True, ("v", "StepBy", d[0][2][:2] + (d[1],))
        if n == "new" and "RangeInclusive" in c.path:
            return True, ("v", "RangeInclusive", tuple(d[:2]))
        if n == "next" and len(args) == 1 and args[0] is not None and args[0][0] == "ref":
            v = d[0]
            pl = [args[0][1], json.loads(args[0][2])]
            if v is not None and v[0] == "v" and v[1] == "VecIter":
                items = v[2][0][1]
                if not items:
                    return True, ("v", "None", ())
                self.write(pl, ("v", "VecIter", (("vec", items[1:]),)), env)
                return True, ("v", "Some", (items[0],))
            if v is not None and v[0] == "v" and v[1] in ("Range", "StepBy") and all(x and x[0] == "c" for x in v[2]):
                lo, hi = v[2][0][1], v[2][1][1]
                step = v[2][2][1] if v[1] == "StepBy" else 1
                if lo < hi:
                    self.write(pl, ("v", v[1], (("c", lo + step),) + v[2][1:]), env)
                    return True, ("v", "Some", (("c", lo),))
                return True, ("v", "None", ())
            if v is not None and v[0] == "v" and v[1] == "RangeInclusive" and all(x and x[0] == "c" for x in v[2][:2]):
                lo, hi = v[2][0][1], v[2][1][1]
                if lo <= hi:
                    self.write(pl, ("v", v[1], (("c", lo + 1), v[2][1])), env)
                    return True, ("v", "Some", (("c", lo),))
                return True, ("v", "None", ())
        if n == "try_from" and d and d[0] is not None and d[0][0] == "c":
            rt = self.b.locals[c.dest[0]] if not c.dest[1] else ""
            for ty, (lo, hi) in KNOWN_SIZES.items():
                if rt.startswith("core::result::Result<%s," % ty):
                    return True, ("v", "Ok", (d[0],)) if lo <= d[0][1] <= hi else ("v", "Err", ())
        if c.path == AWAIT:
            return True, ("v", "Ready", ())
        return False, None

    def apply_closure(self, clo, args, env):
        """Result of calling closure value `clo` when it has a single outcome; None otherwise."""
        p = self.b.prog
        i = clo[1][len("closure "):]
        if i not in p.raw:
            return None
        b = p.body(i)
        if b.argc != len(args) + 1:
            return None
        sub = Interp(b, lambda *a: None, 2000)
        sub.run(env0=dict([(1, ("v", clo[1], tuple(self.deep(x, env) for x in clo[2])))] + [(k + 2, self.deep(a, env)) for k, a in enumerate(args)]))
        vals = {v for v, _ in sub.rets}
        return vals.pop() if len(vals) == 1 and not sub.overflow and not sub.dead else None

    def invalidate(self, v, env, d=0):
        if v is None or d > 5:
            return
        if v[0] == "ref":
            l = v[1]
            self.b.defs()
            if l in self.b._mutb:
                env.pop(l, None)
        elif v[0] == "v":
            for x in v[2]:
                self.invalidate(x, env, d + 1)
        elif v[0] == "t":
            for x in v[1]:
                self.invalidate(x, env, d + 1)

    # -- exploration ---------------------------------------------------------------------

    def run(self, start=0, env0=None, st0=None):
        seen = set()
        w = [(start, dict(env0 or {}), st0, True)]
        n = 0
        while w:
            bb, env, st, sure = w.pop()
            key = (bb, tuple(sorted(env.items(), key=lambda x: x[0])), st, sure)
            if key in seen:
                continue
            seen.add(key)
            n += 1
            if n > self.limit:
                self.overflow = True
                return
            for nb, e2, s2, su in self.step(bb, env, st, sure):
                w.append((nb, e2, s2, su))
        self.explored = n

    def stmt(self, s, bb, env, st):
        return st

    def step(self, bb, env, st, sure):
        blk = self.b.blocks[bb]
        env = dict(env)
        for s in blk["s"]:
            if s[0] == "dead":
                env.pop(s[1], None)
            elif s[0] == "=":
                st = self.stmt(s, bb, env, st)
                self.write(s[1], self.rvalue(s[2], env), env)
        t = blk["t"]
        k = t[0]
        if k == "ret":
            self.rets.append((env.get(0), st))
            return []
        if k == "switch":
            v = self.operand(t[1], env)
            if v is not None and v[0] == "c":
                tgt = t[4]
                for val, tb in t[3]:
                    if int(val) == v[1]:
                        tgt = tb
                return [(tgt, env, st, sure)]
            succs = self.b.succ(bb)
            out = []
            loc = t[1][1] if t[1][0] in ("c", "m") else None
            excl = []
            for val, tb in t[3]:
                e2 = dict(env)
                if v is not None and v[0] == "d":
                    nm = dict(v[3]).get(int(val))
                    if nm is not None:
                        self.refine(v, nm, e2)
                elif loc is not None and not loc[1]:
                    e2[loc[0]] = ("c", int(val))
                s2 = self.branch(bb, v, int(val), st)
                excl.append(int(val))
                if s2 is not STOP:
                    out.append((tb, e2, s2, False))
            if t[4] in succs:
                e2 = dict(env)
                if v is not None and v[0] == "d":
                    names = [nm for dd, nm in v[3] if dd not in excl]
                    if len(names) == 1:
                        self.refine(v, names[0], e2)
                elif loc is not None and not loc[1] and t[2] == "bool" and len(excl) == 1:
                    e2[loc[0]] = ("c", 1 - excl[0])
                s2 = self.branch(bb, v, ("not", tuple(excl)), st)
                if s2 is not STOP:
                    out.append((t[4], e2, s2, False))
            return out
        if k == "call":
            c = Call(bb, t)
            args = [self.operand(a, env) for a in c.args]
            if not c.is_fn:
                f = self.operand(c.func, env)
                if f is not None and f[0] == "fn":
                    c.func = ["fn", f[1], f[1], f[1].rsplit("::", 1)[-1], None, None, False, []]
            r = self.hook(c, args, st, self, env)
            if r is None:
                if c.target is None:
                    self.dead.append((bb, st, sure, c))
                    return []
                ok, val = self.model(c, args, env)
                if not ok:
                    for a in args:
                        self.invalidate(a, env)
                    val = None
                self.write(c.dest, val, env)
                return [(c.target, env, st, sure)]
            out = []
            for val, s2 in r:
                e2 = dict(env)
                self.write(c.dest, val, e2)
                if c.target is not None:
                    out.append((c.target, e2, s2, sure and len(r) == 1))
            return out
        return [(s, env, st, sure) for s in self.b.succ(bb)]

    def branch(self, bb, v, val, st):
        return st

    def refine(self, v, name, env):
        old = self.read([v[1], json.loads(v[2])], env)
        if old is None:
            pl = [v[1], json.loads(v[2])]
            if not pl[1]:
                env[pl[0]] = ("v", name, ())
            else:
                self.write(pl, ("v", name, ()), env)


def same(a, b):
    if a is None or b is None:
        return None
    if a[0] == "v" and b[0] == "v":
        if a[1] != b[1]:
            return False
        if len(a[2]) != len(b[2]):
            return None
        rs = [same(x, y) for x, y in zip(a[2], b[2])]
        if False in rs:
            return False
        return None if None in rs else True
    if a[0] == b[0] and a[0] in ("c", "s"):
        return a == b
    return None
