"""Numbers as terms over the arguments of a call.

Unknown integers are ("sym", "n", (op, ...)) and doubles ("sym", "f", (op, ...)); arithmetic, conversions
and the methods of the numeric types build terms, comparisons fork and are remembered as conditions.  The
result of interpreting a function is its summary: a list of outcomes, each with the conditions under which
it happens and terms for what it does.  `holds` and `ev` read such a summary at a point: summaries are
piecewise closed forms, so the ends of the pieces (the constants that occur in it) are what matters."""

import json
import math
import struct

import strs
import traces
from absint import KNOWN_SIZES
from traces import FACTS, INF, interval, is_num

CONDS = -6
I32 = KNOWN_SIZES["i32"]
NUMERIC = dict(KNOWN_SIZES, **{"i128": (-2**127, 2**127 - 1), "u128": (0, 2**128 - 1)})


def n(*t):
    return ("sym", "n", t)


def f(*t):
    return ("sym", "f", t)


def is_f(v):
    return v is not None and v[0] == "sym" and v[1] == "f"


def isf(v):
    return is_f(v) or v is not None and v[0] == "c" and isinstance(v[1], float)


def isn(v):
    return is_num(v) or v is not None and v[0] == "c" and isinstance(v[1], int)


def iarg(i, env, ty="i32"):
    """An integer argument; its range is recorded in env."""
    v = n("arg", i)
    fact(v, KNOWN_SIZES[ty], env)
    env[90001 + i] = v
    return v


def farg(i):
    return f("arg", i)


def fact(v, iv, env):
    g = dict(env[FACTS][1]) if FACTS in env else {}
    g[v] = iv
    env[FACTS] = ("facts", tuple(sorted(g.items(), key=str)))


def conds(env):
    c = env.get(CONDS)
    return c[1] if c is not None else ()


FUN1 = {"abs", "acos", "asin", "atan", "cos", "sin", "tan", "sqrt", "exp", "exp2", "ln", "log10", "log2", "floor", "ceil", "trunc", "round", "fract", "to_radians", "to_degrees",
        "signum", "recip", "cbrt", "cosh", "sinh", "tanh", "round_ties_even", "exp_m1", "ln_1p"}
FUN2 = {"powf", "powi", "log", "atan2", "hypot", "copysign", "min", "max", "rem_euclid", "div_euclid", "clamp"}
PRED = {"is_nan", "is_finite", "is_infinite", "is_sign_negative", "is_sign_positive", "is_normal"}


def result_type(ai, c):
    t = traces.dest_type(ai, c)
    for p in ("core::option::Option<", "core::result::Result<"):
        if t.startswith(p):
            return t[len(p):].split(",")[0].rstrip(">")
    return t


def seconds(x):
    """The condition that x seconds are a duration."""
    k = (0.0, math.nextafter(2.0**64, 0.0))
    return ("c", int(k[0] <= x[1] <= k[1])) if x[0] == "c" else ("cmp", "In", x, k)


class Terms(strs.Loose):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.panics = []

    # -- values --------------------------------------------------------------------------

    def rvalue(self, r, env):
        k = r[0]
        if k == "bin":
            x, y = self.operand(r[2], env), self.operand(r[3], env)
            v = self.arith(r[1], x, y, r[4], env)
            if v is not None:
                return v
        if k == "un":
            x = self.operand(r[2], env)
            if r[1] == "Neg":
                if is_f(x):
                    return f("neg", x)
                if is_num(x):
                    a, b = interval(x, env)
                    return self.made(n("neg", x), (-b, -a), env)
                if x is not None and x[0] == "c" and isinstance(x[1], float):
                    return ("c", -x[1])
            if r[1] == "Not" and x is not None and x[0] == "cmp":
                return ("cmp", "!", x, None)
            if r[1] == "Not" and r[2][0] in ("c", "m") and not r[2][1][1] and x is not None and x[0] == "c" and isinstance(x[1], int):
                ty = str(self.b.locals[r[2][1][0]])
                if ty in ("u8", "u16", "u32", "u64", "usize"):
                    return ("c", (1 << {"u8": 8, "u16": 16, "u32": 32}.get(ty, 64)) - 1 - x[1])
        if k == "cast":
            x = self.operand(r[2], env)
            ty = r[3]
            if r[1].startswith("IntToInt") and is_num(x):
                return self.convert(x, ty, env)
            if r[1].startswith("IntToFloat"):
                if x is not None and x[0] == "c":
                    v = float(x[1])
                    return ("c", struct.unpack("f", struct.pack("f", v))[0] if ty == "f32" else v)
                if is_num(x):
                    return f("f32", f("i2f", x)) if ty == "f32" else f("i2f", x)
            if r[1].startswith("FloatToFloat") and isf(x):
                return x if ty == "f64" and "f32" not in str(x) else f("f32", x)
            if r[1].startswith("FloatToInt"):
                if x is not None and x[0] == "c":
                    lo, hi = NUMERIC[ty]
                    return ("c", 0 if x[1] != x[1] else max(lo, min(hi, int(x[1]) if abs(x[1]) != math.inf else (hi if x[1] > 0 else lo))))
                if is_f(x):
                    return self.made(n("f2i", ty, x), NUMERIC[ty], env)
        return super().rvalue(r, env)

    def made(self, v, iv, env):
        if iv[0] == iv[1]:
            return ("c", iv[0])
        fact(v, iv, env)
        return v

    def convert(self, x, ty, env):
        a, b = interval(x, env)
        lo, hi = NUMERIC.get(ty, (0, 0x10FFFF) if ty == "char" else (-INF, INF))
        if lo <= a and b <= hi:
            return x
        return self.made(n("wrap", ty, x), (lo, hi), env)

    def arith(self, op, x, y, ty, env):
        if x is None or y is None:
            return None
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if isf(x) and isf(y) and (is_f(x) or is_f(y)):
            if base in traces.CMP:
                return ("cmp", base, x, y)
            if base in ("Add", "Sub", "Mul", "Div", "Rem"):
                return f(base.lower(), x, y)
            return None
        if isf(x) and isf(y) and base in ("Div", "Rem"):
            return f(base.lower(), x, y)
        if isn(x) and isn(y) and (is_num(x) or is_num(y)):
            if base in ("Add", "Sub", "Mul", "Div", "Rem", "BitAnd", "BitOr", "BitXor", "Shl", "Shr"):
                (a, b), (p, q) = interval(x, env), interval(y, env)
                if base == "Add":
                    iv = (a + p, b + q)
                elif base == "Sub":
                    iv = (a - q, b - p)
                elif base == "Mul":
                    z = [a * p, a * q, b * p, b * q]
                    iv = (min(z), max(z))
                elif base == "Rem" and p == q and p > 0:
                    iv = (0 if a >= 0 else -p + 1, 0 if b <= 0 else p - 1)
                elif base == "Div" and p == q and p > 0:
                    iv = tuple(abs(z) // p * (1 if z >= 0 else -1) for z in (a, b))
                elif base == "BitAnd" and p == q and p >= 0:
                    iv = (0, p)
                else:
                    iv = NUMERIC.get(ty, (-INF, INF))
                v = n(base.lower(), x, y)
                if ty in NUMERIC:
                    lo, hi = NUMERIC[ty]
                    if op.endswith("WithOverflow"):
                        if lo <= iv[0] and iv[1] <= hi:
                            return ("t", (self.made(v, iv, env), ("c", 0)))
                        return ("t", (self.made(v, (max(lo, iv[0]), min(hi, iv[1])), env), ("cmp", "Out", v, (lo, hi))))
                    if iv[0] < lo or iv[1] > hi:
                        return self.made(n("wrap", ty, v), (lo, hi), env)
                return self.made(v, iv, env)
        return None

    # -- branches ------------------------------------------------------------------------

    def decide(self, v, truth, env):
        """env with the condition recorded, or None when it cannot be."""
        if v[1] == "!":
            return self.decide(v[2], 1 - truth, env)
        e = dict(env)
        cs = conds(e)
        if (v, 1 - truth) in cs:
            return None
        if v[1] in traces.CMP and not (isf(v[2]) or isf(v[3])):
            if not traces.assume(v, truth, e):
                return None
        if (v, truth) not in cs:
            e[CONDS] = ("conds", cs + ((v, truth),))
        return e

    def step(self, bb, env, st, sure):
        t = self.b.blocks[bb]["t"]
        if t[0] == "switch":
            _, e1 = self.statements(self.b, bb, env, st)
            v = self.operand(t[1], e1)
            if v is not None and v[0] == "cmp":
                out = []
                for truth in (0, 1):
                    e2 = self.decide(v, truth, e1)
                    if e2 is None:
                        continue
                    if t[1][0] in ("c", "m") and not t[1][1][1]:
                        e2[t[1][1][0]] = ("c", truth)
                    tgt = t[4]
                    for val, tb in t[3]:
                        if int(val) == truth:
                            tgt = tb
                    out.append((tgt, e2, st, False))
                return out
            if is_num(v):
                out, rest = [], dict(e1)
                for val, tb in t[3]:
                    if rest is None:
                        break
                    k = traces.compare("Eq", v, ("c", int(val)), rest)
                    if k[0] == "c":
                        if k[1]:
                            out.append((tb, rest, st, False))
                            rest = None
                        continue
                    e2 = self.decide(k, 1, rest)
                    if e2 is not None:
                        out.append((tb, e2, st, False))
                    rest = self.decide(k, 0, rest)
                if rest is not None:
                    out.append((t[4], rest, st, False))
                return out
        if t[0] == "assert":
            _, e1 = self.statements(self.b, bb, env, st)
            v = self.operand(t[1], e1)
            if v is not None and v[0] == "cmp":
                want = int(bool(t[2]))
                e2 = self.decide(v, want, e1)
                bad = self.decide(v, 1 - want, e1)
                if bad is not None:
                    self.panics.append((bb, self.b.id, conds(bad), st))
                return [(t[6], e2, st, sure)] if e2 is not None else []
        return super().step(bb, env, st, sure)

    # -- calls ---------------------------------------------------------------------------

    def split(self, v, env, st, sure, yes, no):
        """Outcomes of a call whose value depends on comparison `v`."""
        if v[0] == "c":
            return [(yes if v[1] else no, env, st, sure)]
        out = []
        for truth, val in ((1, yes), (0, no)):
            e = self.decide(v, truth, env)
            if e is not None:
                out.append((val, e, st, False))
        return out

    def operator(self, c, d, args, env, st, sure):
        """Arithmetic on integers through the operator traits (`x *= y` with a reference)."""
        assign = c.name.endswith("_assign")
        op = {"add": "Add", "sub": "Sub", "mul": "Mul", "div": "Div", "rem": "Rem"}.get(c.name[:-7] if assign else c.name)
        if op is None or len(d) != 2 or "::ops::" not in c.path or not isn(d[0]) or not isn(d[1]):
            return None
        a = c.args[0]
        ty = str(self.b.locals[a[1][0]]).replace("&mut ", "").replace("&", "") if a[0] in ("c", "m") else ""
        ty = next((t for t in (ty, traces.dest_type(self, c)) if t in NUMERIC), None)
        if ty is None or assign and (args[0] is None or args[0][0] != "ref"):
            return None
        e = dict(env)
        over = None
        if op in ("Div", "Rem"):
            if d[1][0] != "c" or d[1][1] == 0:
                return None
            v = self.arith(op, d[0], d[1], ty, e)
        else:
            v = self.arith(op + "WithOverflow", d[0], d[1], ty, e)
            if v is not None:
                v, over = v[1]
        if v is None and d[0][0] == d[1][0] == "c":
            v = ("c", {"Add": lambda x, y: x + y, "Sub": lambda x, y: x - y, "Mul": lambda x, y: x * y, "Div": lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1),
                       "Rem": lambda x, y: abs(x) % abs(y) * (1 if x >= 0 else -1)}[op](d[0][1], d[1][1]))
            lo, hi = NUMERIC[ty]
            if not lo <= v[1] <= hi:
                self.panics.append((c.bb, self.b.id, conds(e), st))
                return []
        if v is None:
            return None
        if over is not None and over[0] == "cmp":
            bad = self.decide(over, 1, e)
            if bad is not None:
                self.panics.append((c.bb, self.b.id, conds(bad), st))
            e = self.decide(over, 0, e)
            if e is None:
                return []
        if assign:
            self.write([args[0][1], json.loads(args[0][2])], v, e)
            v = ("t", ())
        return [(v, e, st, sure)]

    def call(self, c, args, env, st, sure):
        d = [self.deref(a, env) for a in args]
        if c.is_fn and c.target is not None:
            r = self.operator(c, d, args, env, st, sure)
            if r is not None:
                return r
        if c.is_fn and c.name in ("index", "index_mut") and len(d) == 2 and d[0] is not None and d[0][0] == "vec" and d[1] is not None and d[1][0] == "c" and not 0 <= d[1][1] < len(d[0][1]):
            self.panics.append((c.bb, self.b.id, conds(env), st))
            return []
        if c.is_fn and c.name in ("index", "index_mut", "get", "get_mut") and len(d) == 2 and d[0] is not None and d[0][0] == "vec" and is_num(d[1]) and len(d[0][1]) <= 16:
            # One outcome per item.
            out, rest = [], dict(env)
            for i in range(len(d[0][1])):
                k = traces.compare("Eq", d[1], ("c", i), rest)
                if k[0] == "c":
                    if k[1]:
                        out += super().call(c, [args[0], ("c", i)], rest, st, False)
                        rest = None
                        break
                    continue
                e = self.decide(k, 1, rest)
                if e is not None:
                    out += super().call(c, [args[0], ("c", i)], e, st, False)
                rest = self.decide(k, 0, rest)
                if rest is None:
                    break
            if rest is not None:
                if c.name.startswith("get"):
                    out.append((("v", "None", ()), rest, st, False))
                else:
                    self.panics.append((c.bb, self.b.id, conds(rest), st))
            return out
        r = self.ordering(c, d, args, env, st, sure)
        if r is not None:
            return r
        if any(isf(x) or is_num(x) or x is not None and x[0] == "cmp" for x in d) or d and d[0] is not None and d[0][0] == "v" and d[0][1] in ("Range", "RangeInclusive") and len(d) == 2 or (
                d and d[0] is not None and d[0][0] == "v" and d[0][1] == "Duration" and d[0][2]):
            r = self.hook(c, args, st, self, env)
            if r is not None:
                return [(x[0], x[2] if len(x) > 2 else env, x[1], sure and len(r) == 1) for x in r]
            r = self.numeric(c, d, args, env, st, sure)
            if r is not None:
                return r
        return super().call(c, args, env, st, sure)

    def ordering(self, c, d, args, env, st, sure):
        """Comparisons of values whose type defines its own order."""
        m = c.name
        trait = {"lt": "PartialOrd", "le": "PartialOrd", "gt": "PartialOrd", "ge": "PartialOrd", "max": "Ord", "min": "Ord"}.get(m)
        if trait is None or len(d) != 2 or not c.is_fn or not c.path.endswith("cmp::%s::%s" % (trait, m)) or any(x is None or x[0] != "v" for x in d):
            return None
        what = "cmp" if trait == "Ord" else "partial_cmp"
        ty = c.func[5] if len(c.func) > 5 and isinstance(c.func[5], str) else None
        b = self.prog.body("<%s as core::cmp::%s>::%s" % (ty, trait, what)) if ty and "<%s as core::cmp::%s>::%s" % (ty, trait, what) in self.prog.raw else None
        if b is None:
            return None
        out = []
        for v, e, s, su in self.enter(b, args, env, st, sure):
            v = v[2][0] if v is not None and v[0] == "v" and v[1] == "Some" else v
            if v is None or v[0] != "v" or v[1] not in ("Less", "Equal", "Greater"):
                return None
            k = v[1]
            if trait == "Ord":
                r = args[1] if (k != "Greater" if m == "max" else k == "Greater") else args[0]
            else:
                r = ("c", int(k in {"lt": ("Less",), "le": ("Less", "Equal"), "gt": ("Greater",), "ge": ("Greater", "Equal")}[m]))
            out.append((r, e, s, su))
        return out

    def numeric(self, c, d, args, env, st, sure):
        m = c.name

        def one(v, e=None):
            return [(v, env if e is None else e, st, sure)]
        x = d[0] if d else None
        y = d[1] if len(d) > 1 else None
        dt = traces.dest_type(self, c)
        if m in ("from", "into", "clone", "to_owned", "borrow", "copied", "cloned", "as_ref", "deref") and len(d) == 1:
            if dt == "f64" and isn(x):
                return one(f("i2f", x) if is_num(x) else ("c", float(x[1])))
            if dt in NUMERIC or dt in ("char", "f64", "bool"):
                return one(x)
        if m in ("as_secs_f64", "as_secs_f32") and len(d) == 1 and d[0] is not None and d[0][0] == "v" and d[0][1] == "Duration":
            return one(d[0][2][0] if m == "as_secs_f64" else None)
        if m == "try_from_secs_f64" and len(d) == 1 and isf(x):
            # Fails for negative, infinite and undefined numbers and for those of 2^64 seconds or more
            return self.split(seconds(x), env, st, sure, ("v", "Ok", (("v", "Duration", (x,)),)), ("v", "Err", (traces.obj("duration error"),)))
        if m in ("from_secs_f64", "from_secs_f32") and len(d) == 1 and isf(x):
            k = seconds(x)
            for truth in (0, 1):
                e = self.decide(k, truth, env) if k[0] != "c" else env if k[1] == truth else None
                if e is not None and not truth:
                    self.panics.append((None, self.b.id, conds(e), st))
                elif e is not None:
                    return [(("v", "Duration", (x,)), e, st, False)]
            return []
        if m in ("try_from", "try_into") and len(d) == 1 and is_num(x):
            ty = result_type(self, c)
            if ty in NUMERIC:
                lo, hi = NUMERIC[ty]
                out = []
                e = dict(env)
                lo_, hi_ = interval(x, env)
                if lo_ >= lo and hi_ <= hi:
                    return one(("v", "Ok", (x,)))
                k = ("cmp", "In", x, (lo, hi))
                e = self.decide(k, 1, env)
                if e is not None and max(lo, lo_) <= min(hi, hi_):
                    fact(x, (max(lo, lo_), min(hi, hi_)), e)
                    out.append((("v", "Ok", (x,)), e, st, False))
                e = self.decide(k, 0, env)
                if e is not None:
                    if lo_ >= lo:
                        fact(x, (hi + 1, hi_), e)
                    elif hi_ <= hi:
                        fact(x, (lo_, lo - 1), e)
                    out.append((("v", "Err", (traces.obj("conversion error"),)), e, st, False))
                return out
        if m == "from_u32" and isn(x):
            if x[0] == "c":
                ok = 0 <= x[1] < 0xD800 or 0xE000 <= x[1] < 0x110000
                return one(("v", "Some", (x,)) if ok else ("v", "None", ()))
            return self.split(("cmp", "Char", x, None), env, st, sure, ("v", "Some", (x,)), ("v", "None", ()))
        if m in PRED and len(d) == 1 and isf(x):
            if x[0] == "c":
                return one(("c", int(predicate(m, x[1]))))
            return one(("cmp", m, x, None))
        if m in ("is_negative", "is_positive") and is_num(x):
            return one(traces.compare("Lt" if m == "is_negative" else "Gt", x, ("c", 0), env))
        if isf(x) and ("f64" in c.path or "Ord" in c.path or "::ops::" in c.path or "f64" in str(c.func)):
            if m in FUN1 and len(d) == 1:
                return one(f(m, x))
            if m in FUN2 and len(d) >= 2:
                return one(f(m, x, *d[1:]))
            if m in ("add", "sub", "mul", "div", "rem", "neg"):
                return one(f(m, *d))
            if m in ("lt", "le", "gt", "ge") and isf(y):
                return one(("cmp", m.capitalize(), x, y))
            if m == "partial_cmp" and isf(y):
                out = []
                less, eq, gt = [self.decide(("cmp", o, x, y), 1, env) for o in ("Lt", "Eq", "Gt")]
                for nm, e in (("Less", less), ("Equal", eq), ("Greater", gt)):
                    if e is not None:
                        out.append((("v", "Some", (("v", nm, ()),)), e, st, False))
                e = env
                for o in ("Lt", "Eq", "Gt"):
                    e = self.decide(("cmp", o, x, y), 0, e) if e is not None else None
                if e is not None:
                    out.append((("v", "None", ()), e, st, False))
                return out
            if m in ("eq", "ne") and isf(y):
                return one(("cmp", m.capitalize(), x, y))
        if m in ("eq", "ne", "lt", "le", "gt", "ge") and isn(x) and isn(y):
            return one(traces.compare(m.capitalize(), x, y, env))
        if m in ("min", "max") and isn(x) and isn(y):
            k = traces.compare("Le" if m == "min" else "Ge", x, y, env)
            return self.split(k, env, st, sure, x, y)
        if m == "clamp" and len(d) == 3 and all(isn(z) for z in d):
            out = []
            for v, e, s, su in self.split(traces.compare("Lt", x, y, env), env, st, sure, y, None):
                if v is not None:
                    out.append((v, e, s, su))
                else:
                    out.extend(self.split(traces.compare("Gt", x, d[2], e), e, s, su, d[2], x))
            return out
        if m in ("cmp", "partial_cmp") and isn(x) and isn(y):
            out = []
            for v, e, s, su in self.split(traces.compare("Lt", x, y, env), env, st, sure, "Less", None):
                if v is None:
                    for v2, e2, s2, su2 in self.split(traces.compare("Eq", x, y, e), e, s, su, "Equal", "Greater"):
                        out.append((v2, e2, s2, su2))
                else:
                    out.append((v, e, s, su))
            w = (lambda v: ("v", v, ())) if m == "cmp" else (lambda v: ("v", "Some", (("v", v, ()),)))
            return [(w(v), e, s, su) for v, e, s, su in out]
        if m in ("signum",) and is_num(x):
            out = []
            for v, e, s, su in self.numeric_cmp0(x, env, st, sure):
                out.append((("c", v), e, s, su))
            return out
        if m in ("unsigned_abs", "abs") and is_num(x):
            a, b = interval(x, env)
            e = dict(env)
            if a >= 0:
                return one(x)
            v = self.made(n("abs", x), (0, max(-a, b)), e)
            return one(v, e)
        for pre, how in (("checked_", "checked"), ("saturating_", "saturating"), ("wrapping_", "wrapping"), ("overflowing_", "overflowing")):
            if m.startswith(pre) and m[len(pre):] in ("add", "sub", "mul", "neg", "add_signed", "sub_unsigned", "add_unsigned") and isn(x) and (y is None or isn(y)):
                op = {"add": "Add", "sub": "Sub", "mul": "Mul", "add_signed": "Add", "sub_unsigned": "Sub", "add_unsigned": "Add"}.get(m[len(pre):])
                ty = result_type(self, c).lstrip("(")
                e = dict(env)
                if op is None:
                    x, y, op = ("c", 0), x, "Sub"
                if ty not in NUMERIC:
                    return None
                v = self.arith(op, x, y, "", e)
                if v is None:
                    return None
                lo, hi = NUMERIC[ty]
                a, b = interval(v, e)
                if lo <= a and b <= hi:
                    return one(v if how in ("saturating", "wrapping") else ("v", "Some", (v,)) if how == "checked" else ("t", (v, ("c", 0))), e)
                if how == "wrapping":
                    return one(self.convert(v, ty, e), e)
                out = []
                inside = self.decide(("cmp", "In", v, (lo, hi)), 1, e)
                fact(v, (max(lo, a), min(hi, b)), inside)
                out.append((v if how == "saturating" else ("v", "Some", (v,)), inside, st, False))
                if how == "checked":
                    out.append((("v", "None", ()), self.decide(("cmp", "In", v, (lo, hi)), 0, e), st, False))
                elif how == "saturating":
                    if a < lo:
                        out.append((("c", lo), self.decide(("cmp", "Lt", v, ("c", lo)), 1, e), st, False))
                    if b > hi:
                        out.append((("c", hi), self.decide(("cmp", "Gt", v, ("c", hi)), 1, e), st, False))
                else:
                    return None
                return out
        if m == "contains" and len(d) == 2 and x is not None and x[0] == "v" and x[1] in ("Range", "RangeInclusive", "RangeFrom", "RangeTo", "RangeToInclusive"):
            lo = self.deref(x[2][0], env) if x[1] in ("Range", "RangeInclusive", "RangeFrom") else None
            hi = self.deref(x[2][1 if lo is not None else 0], env) if x[1] != "RangeFrom" else None
            states = [(1, env, True)]
            out = []
            for bnd, op in ((lo, "Ge"), (hi, "Le" if x[1].endswith("Inclusive") else "Lt")):
                if bnd is None:
                    continue
                nxt = []
                for _v, e, su in states:
                    k = ("cmp", op, y, bnd) if isf(y) else traces.compare(op, y, bnd, e)
                    if k is None:
                        return None
                    if k[0] == "cmp" and isf(y) and y[0] == "c" and bnd[0] == "c":
                        k = ("c", int({"Ge": y[1] >= bnd[1], "Le": y[1] <= bnd[1], "Lt": y[1] < bnd[1]}[op]))
                    for v, e2, _s, su2 in self.split(k, e, st, su, 1, 0):
                        (nxt if v else out).append((v, e2, su2))
                states = nxt
            return [(("c", v), e, st, sure and su) for v, e, su in out + states]
        return None

    def numeric_cmp0(self, x, env, st, sure):
        out = []
        for v, e, s, su in self.split(traces.compare("Lt", x, ("c", 0), env), env, st, sure, -1, None):
            if v is None:
                out.extend(self.split(traces.compare("Eq", x, ("c", 0), e), e, s, su, 0, 1))
            else:
                out.append((v, e, s, su))
        return out

    # -- formatting ----------------------------------------------------------------------

    def emit(self, arg, slot, env, st, sure):
        ty, v = arg[1][len("FmtArg "):], arg[2][0]
        d = self.deep(v, env)
        if d is not None and d[0] == "c" and ty.lstrip("&") == "char":
            d = ("s", chr(d[1]))
        elif is_f(d) or is_num(d):
            d = ("s", strs.seg(("char " if ty.lstrip("&") == "char" else "text of ") + shown(d)))
        elif d is not None and d[0] == "c" and isinstance(d[1], float):
            d = ("s", strs.seg("text of " + shown(d)))
        else:
            return super().emit(arg, slot, env, st, sure)
        e = dict(env)
        cur = e.get(slot)
        e[slot] = ("s", cur[1] + d[1]) if cur is not None and cur[0] == "s" else None
        return [(e, st, sure)]


def predicate(m, v):
    return {"is_nan": lambda: v != v, "is_finite": lambda: math.isfinite(v), "is_infinite": lambda: math.isinf(v), "is_sign_negative": lambda: math.copysign(1, v) < 0,
            "is_sign_positive": lambda: math.copysign(1, v) > 0, "is_normal": lambda: math.isfinite(v) and abs(v) >= 2.2250738585072014e-308}[m]()


# -- reading summaries ---------------------------------------------------------------------

def rnd(x):
    if not math.isfinite(x) or abs(x) >= 2.0**52:
        return x
    r = math.floor(abs(x))
    if abs(x) - r >= 0.5:
        r += 1
    return math.copysign(float(r), x)


def guard(g, *a):
    try:
        return g(*a)
    except (ValueError, ZeroDivisionError):
        return math.nan
    except OverflowError:
        return math.inf


def div(x, y):
    if y == 0:
        return math.nan if x == 0 or x != x else math.copysign(math.inf, x) * math.copysign(1, y)
    return x / y


def powf(x, y):
    try:
        return math.pow(x, y)
    except ZeroDivisionError:
        return math.inf
    except ValueError:
        return math.inf if x == 0 else math.nan
    except OverflowError:
        return -math.inf if x < 0 and y == int(y) and int(y) % 2 else math.inf


F = {"abs": abs, "acos": lambda x: guard(math.acos, x), "asin": lambda x: guard(math.asin, x), "atan": math.atan, "cos": lambda x: guard(math.cos, x),
     "sin": lambda x: guard(math.sin, x), "tan": lambda x: guard(math.tan, x), "sqrt": lambda x: guard(math.sqrt, x),
     "exp": lambda x: guard(math.exp, x), "exp2": lambda x: powf(2.0, x), "ln": lambda x: -math.inf if x == 0 else guard(math.log, x), "log10": lambda x: -math.inf if x == 0 else guard(math.log10, x),
     "log2": lambda x: -math.inf if x == 0 else guard(math.log2, x), "exp_m1": lambda x: guard(math.expm1, x), "ln_1p": lambda x: guard(math.log1p, x),
     "floor": lambda x: float(math.floor(x)) if math.isfinite(x) else x, "ceil": lambda x: float(math.ceil(x)) if math.isfinite(x) else x,
     "trunc": lambda x: float(math.trunc(x)) if math.isfinite(x) else x, "round": rnd, "round_ties_even": lambda x: float(round(x)) if math.isfinite(x) else x,
     "fract": lambda x: x - math.trunc(x) if math.isfinite(x) else math.nan, "to_radians": lambda x: x * (math.pi / 180), "to_degrees": lambda x: x * (180 / math.pi),
     "signum": lambda x: x if x != x else math.copysign(1.0, x), "recip": lambda x: div(1.0, x), "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x), "neg": lambda x: -x,
     "cosh": lambda x: guard(math.cosh, x), "sinh": lambda x: guard(math.sinh, x), "tanh": math.tanh,
     "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "div": div, "rem": lambda x, y: guard(math.fmod, x, y), "powf": powf, "powi": lambda x, y: powf(x, float(y)),
     "log": lambda x, y: div(F["ln"](x), F["ln"](y)), "atan2": math.atan2, "hypot": math.hypot, "copysign": math.copysign,
     "min": lambda x, y: y if x != x else x if y != y else min(x, y), "max": lambda x, y: y if x != x else x if y != y else max(x, y),
     "clamp": lambda x, y, z: y if x < y else z if x > z else x, "i2f": float, "f32": lambda x: struct.unpack("f", struct.pack("f", x))[0]}
N = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y, "neg": lambda x: -x, "abs": abs,
     "div": lambda x, y: abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1), "rem": lambda x, y: math.fmod(x, y).__int__(),
     "bitand": lambda x, y: x & y, "bitor": lambda x, y: x | y, "bitxor": lambda x, y: x ^ y, "shl": lambda x, y: x << y, "shr": lambda x, y: x >> y}


class Unknown(Exception):
    pass


def ev(v, at):
    """Value of a term where `at` maps leaves (such as ("arg", 0)) to numbers."""
    if v is None:
        raise Unknown()
    if v[0] == "c":
        return v[1]
    if v[0] != "sym" or v[1] not in ("n", "f"):
        raise Unknown(v)
    t = v[2]
    if t in at:
        return at[t]
    if not isinstance(t, tuple) or not t:
        raise Unknown(v)
    if v[1] == "n" and t[0] == "wrap":
        lo, hi = NUMERIC[t[1]]
        return (ev(t[2], at) - lo) % (hi - lo + 1) + lo
    if v[1] == "n" and t[0] == "f2i":
        x = ev(t[2], at)
        lo, hi = NUMERIC[t[1]]
        return 0 if x != x else hi if x > hi else lo if x < lo else int(x)
    g = (F if v[1] == "f" else N).get(t[0])
    if g is None:
        raise Unknown(v)
    return g(*[ev(x, at) for x in t[1:]])


def holds(cs, at):
    for (_, op, x, y), truth in cs:
        if op in ("In", "Out"):
            r = (y[0] <= ev(x, at) <= y[1]) == (op == "In")
        elif op == "Char":
            k = ev(x, at)
            r = 0 <= k < 0xD800 or 0xE000 <= k < 0x110000
        elif op in PRED:
            r = predicate(op, ev(x, at))
        else:
            p, q = ev(x, at), ev(y, at)
            r = {"Eq": p == q, "Ne": p != q, "Lt": p < q, "Le": p <= q, "Gt": p > q, "Ge": p >= q}[op]
        if bool(r) != bool(truth):
            return False
    return True


def shown(v):
    if v is None:
        return "?"
    if v[0] == "c":
        return str(v[1])
    if v[0] == "sym" and isinstance(v[2], tuple):
        return "%s(%s)" % (v[2][0], ", ".join(shown(x) if isinstance(x, tuple) else str(x) for x in v[2][1:]))
    return str(v)


def constants(v, out, d=0):
    """Numeric constants in terms and conditions."""
    if isinstance(v, tuple):
        if len(v) == 2 and v[0] == "c" and isinstance(v[1], (int, float)):
            out.add(v[1])
            return
        if len(v) == 2 and all(isinstance(x, int) for x in v):
            out.update(v)
        for x in v:
            constants(x, out, d + 1)


def run(prog, b, hook, pick, st0, env, limit=100000):
    old = traces.Traces
    traces.Traces = Terms
    try:
        return traces.explore(prog, b, hook, pick, st0, limit, env)
    finally:
        traces.Traces = old


# -- texts made of single characters --------------------------------------------------------

# Where the environment keeps the last capacity that was asked for.
CAPACITY = -777

SPACES = " \t\n\r\x0b\x0c\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000"


def weigh(t):
    """Length in bytes of a text whose private characters stand for single characters of unknown width."""
    if not any(strs.private(x) for x in t):
        return ("c", len(t.encode()))
    p = sorted(x for x in t if strs.private(x))
    return n("bytes", "".join(p), len("".join(x for x in t if not strs.private(x)).encode()))


def offset(v, t):
    """Number of characters of `t` before byte offset `v`; None if that may split a character."""
    for k in range(len(t) + 1):
        if weigh(t[:k]) == v:
            return k
    return None


class Text(Terms):
    """Private characters are single characters that are not white space and of unknown width."""

    def arith(self, op, x, y, ty, env):
        base = op.replace("WithOverflow", "").replace("Unchecked", "")
        if isn(x) and isn(y) and base in ("Add", "Sub") and any(is_num(z) and isinstance(z[2], tuple) and z[2][0] == "bytes" for z in (x, y)):
            def parts(z):
                return (list(z[2][1]), z[2][2]) if is_num(z) and z[2][0] == "bytes" else ([], z[1]) if z[0] == "c" else None
            p, q = parts(x), parts(y)
            if p is not None and q is not None:
                r = None
                if base == "Add":
                    r = ("".join(sorted(p[0] + q[0])), p[1] + q[1])
                else:
                    a = list(p[0])
                    if all(a.count(z) >= q[0].count(z) for z in q[0]) and p[1] >= q[1]:
                        for z in q[0]:
                            a.remove(z)
                        r = ("".join(a), p[1] - q[1])
                if r is not None:
                    v = n("bytes", *r) if r[0] else ("c", r[1])
                    return ("t", (v, ("c", 0))) if op.endswith("WithOverflow") else v
        return super().arith(op, x, y, ty, env)

    def convert(self, x, ty, env):
        return x if isinstance(x[2], tuple) and x[2][0] == "bytes" else super().convert(x, ty, env)

    def combinator(self, c, args, env, st, sure):
        d0 = self.deref(args[0], env) if args else None
        if c.name == "parse" and not (c.resolved and c.resolved in self.prog.raw) and len(args) == 1 and d0 is not None and d0[0] == "s" and strs.known(d0[1]):
            ty = result_type(self, c)
            try:
                v = float(d0[1]) if ty == "f64" else int(d0[1])
                ok = d0[1].strip("0123456789+-.eEinfatyNAITFY") == "" and "_" not in d0[1] and (ty not in KNOWN_SIZES or KNOWN_SIZES[ty][0] <= v <= KNOWN_SIZES[ty][1])
            except ValueError:
                ok = False
            return [(("v", "Ok", (("c", v),)) if ok else ("v", "Err", (traces.obj("parse error"),)), env, st, sure)]
        return super().combinator(c, args, env, st, sure)

    def model(self, c, args, env):
        m = c.name
        d = [self.deref(a, env) for a in args]
        if m == "nth" and len(d) == 2 and d[0] is not None and d[0][0] == "v" and d[0][1] == "VecIter" and d[1] is not None and d[1][0] == "c" and args[0] is not None and args[0][0] == "ref":
            it, k = d[0][2][0][1], d[1][1]
            self.write([args[0][1], json.loads(args[0][2])], ("v", "VecIter", (("vec", it[k + 1:]),)), env)
            return True, ("v", "Some", (it[k],)) if k < len(it) else ("v", "None", ())
        if c.path.startswith("core::iter::") and m == "once" and len(args) == 1:
            return True, ("v", "VecIter", (("vec", (args[0],)),))
        if m == "encode_utf8" and len(d) == 2 and d[0] is not None and d[0][0] == "c":
            return True, ("s", chr(d[0][1]))
        if m == "default" and not args and not (c.resolved and c.resolved in self.prog.raw):
            ty = traces.dest_type(self, c)
            if ty in KNOWN_SIZES or ty == "bool":
                return True, ("c", 0)
            if ty.startswith("core::option::Option<"):
                return True, ("v", "None", ())
            if ty.startswith("alloc::vec::Vec<"):
                return True, ("vec", ())
        if m in ("with_capacity", "default", "new") and "string::String" in traces.dest_type(self, c)[:24] and len(args) == (m == "with_capacity"):
            if m == "with_capacity":
                env[CAPACITY] = d[0]
            return True, ("s", "")
        if m == "capacity" and len(d) == 1 and d[0] == ("s", ""):
            # What was asked for is what there is, while the string is empty.
            return True, env.get(CAPACITY)
        if c.path.startswith("core::iter::") and m in ("repeat_n", "repeat") and d:
            if m == "repeat_n" and len(d) == 2 and d[1] is not None and d[1][0] == "c" and d[1][1] < 1000:
                return True, ("v", "VecIter", (("vec", (d[0],) * d[1][1]),))
            if m == "repeat":
                return True, ("v", "Repeat!", (d[0],))
        if m == "take" and len(d) == 2 and d[0] is not None and d[0][0] == "v" and d[0][1] == "Repeat!" and d[1] is not None and d[1][0] == "c" and d[1][1] < 1000:
            return True, ("v", "VecIter", (("vec", (d[0][2][0],) * d[1][1]),))
        if m in ("from", "into", "to_string") and len(d) == 1 and isn(d[0]) and traces.dest_type(self, c).startswith("alloc::string::String") and m != "to_string":
            return True, ("s", chr(d[0][1])) if d[0][0] == "c" else ("s", strs.seg("char " + shown(d[0])))
        if m in ("len_utf8",) and len(d) == 1 and d[0] is not None and d[0][0] == "c":
            return True, weigh(chr(d[0][1]))
        if m in ("min", "max") and c.path.startswith("core::iter::") and len(d) == 1 and d[0] is not None and d[0][:2] == ("v", "VecIter"):
            its = [self.deep(x, env) for x in d[0][2][0][1]]
            if all(x is not None and x[0] == "c" for x in its):
                return True, ("v", "Some", ((min if m == "min" else max)(its, key=lambda x: x[1]),)) if its else ("v", "None", ())
        if m in ("sort", "sort_unstable") and len(d) == 1 and d[0] is not None and d[0][0] == "vec" and args[0] is not None and args[0][0] == "ref" and all(x is not None and x[0] == "c" for x in d[0][1]):
            r = args[0]
            while True:
                v = self.read([r[1], json.loads(r[2])], env)
                if v is None or v[0] != "ref":
                    break
                r = v
            self.write([r[1], json.loads(r[2])], ("vec", tuple(sorted(d[0][1], key=lambda x: x[1]))), env)
            return True, ("t", ())
        if m in ("chunks", "chunks_exact") and len(d) == 2 and d[0] is not None and d[0][0] == "vec" and d[1] is not None and d[1][0] == "c" and d[1][1] > 0:
            its, k = d[0][1], d[1][1]
            return True, ("v", "VecIter", (("vec", tuple(("vec", its[i:i + k]) for i in range(0, len(its) - (len(its) % k if m == "chunks_exact" else 0), k))),))
        if m == "from_elem" and len(d) == 2 and d[0] is not None and d[1] is not None and d[1][0] == "c" and 0 <= d[1][1] < 10000:
            return True, ("vec", (self.deep(d[0], env),) * d[1][1])
        if m == "windows" and len(d) == 2 and d[0] is not None and d[0][0] == "vec" and d[1] is not None and d[1][0] == "c" and d[1][1] > 0:
            its, k = d[0][1], d[1][1]
            return True, ("v", "VecIter", (("vec", tuple(("vec", its[i:i + k]) for i in range(len(its) - k + 1))),))
        if m == "sum" and len(d) == 1 and d[0] is not None and d[0][0] == "v" and d[0][1] == "VecIter" and all(isn(x) for x in d[0][2][0][1]):
            v = ("c", 0)
            for x in d[0][2][0][1]:
                v = self.arith("Add", v, x, "", env) if v is not None and not (v[0] == x[0] == "c") else ("c", v[1] + x[1]) if v is not None else None
            return True, v
        if m == "from_utf8_lossy" or m == "from_utf8" or m == "from_utf8_unchecked":
            if d and d[0] is not None and d[0][0] == "s":
                return True, ("v", "Ok", (d[0],)) if m == "from_utf8" else d[0]
        if m == "is_control" and len(d) == 1 and d[0] is not None and d[0][0] == "c":
            return True, ("c", int(not strs.private(chr(d[0][1])) and (d[0][1] < 32 or 127 <= d[0][1] < 160)))
        if m in ("to_ascii_uppercase", "to_ascii_lowercase") and "char" in c.path and len(d) == 1 and d[0] is not None and d[0][0] == "c" and 0 <= d[0][1] < 0x110000 and not strs.private(chr(d[0][1])):
            x = chr(d[0][1])
            return True, ("c", ord((x.upper() if m == "to_ascii_uppercase" else x.lower()) if x.isascii() else x))
        if m == "is_whitespace" or m == "is_ascii_whitespace":
            if len(d) == 1 and d[0] is not None and d[0][0] == "c":
                return True, ("c", int(chr(d[0][1]) in (SPACES if m == "is_whitespace" else " \t\n\r\x0c")))
        return super().model(c, args, env)

    def string(self, c, m, t, args, env):
        d = [self.deep(a, env) for a in args]
        pl = [args[0][1], json.loads(args[0][2])] if args[0] is not None and args[0][0] == "ref" else None
        if m == "len":
            return weigh(t)
        if m == "char_indices":
            return ("v", "VecIter", (("vec", tuple(("t", (weigh(t[:i]), ("c", ord(y)))) for i, y in enumerate(t))),))
        if m in ("as_bytes", "bytes", "into_bytes") and len(args) == 1:
            if strs.known(t):
                v = ("vec", tuple(("c", x) for x in t.encode()))
                return ("v", "VecIter", (v,)) if m == "bytes" else v
            return None
        if m == "extend" and len(d) == 2 and pl:
            # Characters or texts, or something unknown.
            it = d[1][2][0] if d[1] is not None and d[1][:2] == ("v", "VecIter") else d[1]
            out = None
            if it is not None and it[0] == "s":
                out = ("s", t + it[1])
            elif it is not None and it[0] == "vec" and all(x is not None and x[0] in ("c", "s") for x in it[1]):
                out = ("s", t + "".join(chr(x[1]) if x[0] == "c" else x[1] for x in it[1]))
            self.write(pl, out, env)
            return ("t", ())
        if m in ("retain", "drain", "replace_range", "extend_from_within", "as_mut_str", "as_mut_string", "as_mut_vec", "make_ascii_titlecase", "get_mut", "index_mut") and pl:
            self.write(pl, None, env)
            return None
        if m in ("trim", "trim_start", "trim_end", "trim_left", "trim_right") and len(args) == 1:
            return ("s", {"trim": t.strip, "trim_start": t.lstrip, "trim_left": t.lstrip}.get(m, t.rstrip)(SPACES))
        if m in ("to_ascii_uppercase", "to_ascii_lowercase", "make_ascii_uppercase", "make_ascii_lowercase") and not t.isascii():
            if pl and m.startswith("make"):
                self.write(pl, None, env)
                return ("t", ())
            # Only the letters of ASCII change: what becomes of the other characters is another text than their case
            return ("s", "".join(strs.seg("ascii %s of %s" % (m[-9:], strs.show(x))) if strs.private(x) else x.upper() if m.endswith("uppercase") and x.isascii() else x.lower() if x.isascii() else x for x in t))
        if m == "repeat" and len(d) == 2:
            return ("s", t * d[1][1]) if d[1] is not None and d[1][0] == "c" and d[1][1] < 1000 else None
        if m == "is_char_boundary" and len(d) == 2 and isn(d[1]):
            return ("c", int(offset(d[1], t) is not None))
        if m in ("index", "get", "split_at", "truncate", "split_off") and len(d) == 2:
            if m in ("index", "get") and d[1] is not None and d[1][0] == "v" and d[1][1].startswith("Range"):
                k = d[1][1]
                b = d[1][2][:2]
                at = [offset(x, t) if x is not None else None for x in b]
                if k == "RangeFull":
                    return ("s", t)
                if None in at:
                    return None
                lo = at[0] if k in ("RangeFrom", "Range", "RangeInclusive") else 0
                hi = len(t) if k == "RangeFrom" else at[-1]
                if k in ("RangeInclusive", "RangeToInclusive"):
                    h = self.arith("Add", b[-1], ("c", 1), "", env) if is_num(b[-1]) else ("c", b[-1][1] + 1)
                    hi = offset(h, t)
                if hi is None or lo > hi:
                    return None
                return ("s", t[lo:hi]) if m == "index" else ("v", "Some", (("s", t[lo:hi]),))
            if m == "split_at" and d[1] is not None:
                k = offset(d[1], t)
                return ("t", (("s", t[:k]), ("s", t[k:]))) if k is not None else None
            if m in ("truncate", "split_off") and pl and d[1] is not None:
                k = offset(d[1], t)
                self.write(pl, ("s", t[:k]) if k is not None else None, env)
                return ("t", ()) if m == "truncate" else ("s", t[k:]) if k is not None else None
            return None
        if m in ("find", "rfind") and len(d) == 2 and d[1] is not None and d[1][0] in ("s", "c"):
            p = d[1][1] if d[1][0] == "s" else chr(d[1][1])
            i = t.find(p) if m == "find" else t.rfind(p)
            return ("v", "Some", (weigh(t[:i]),)) if i >= 0 else ("v", "None", ())
        if m == "match_indices" and len(d) == 2 and d[1] is not None and d[1][0] == "s" and d[1][1]:
            out, i = [], t.find(d[1][1])
            while i >= 0:
                out.append(("t", (weigh(t[:i]), d[1])))
                i = t.find(d[1][1], i + len(d[1][1]))
            return ("v", "VecIter", (("vec", tuple(out)),))
        if m in ("split_whitespace", "split_ascii_whitespace") and len(d) == 1:
            out, word = [], ""
            for ch in t + " ":
                if ch in (SPACES if m == "split_whitespace" else " \t\n\r\x0c"):
                    out += [("s", word)] if word else []
                    word = ""
                else:
                    word += ch
            return ("v", "VecIter", (("vec", tuple(out)),))
        if m == "lines" and len(d) == 1:
            ls = t.split("\n")
            ls = ls[:-1] if ls[-1] == "" else ls
            return ("v", "VecIter", (("vec", tuple(("s", x[:-1] if x.endswith("\r") else x) for x in ls)),))
        if m == "pop" and len(d) == 1 and pl:
            self.write(pl, ("s", t[:-1]), env)
            return ("v", "Some", (("c", ord(t[-1])),)) if t else ("v", "None", ())
        if m in ("insert", "remove", "insert_str") and pl and len(d) == 2 + (m != "remove") and isn(d[1]) and (m == "remove" or d[2] is not None and d[2][0] == ("c" if m == "insert" else "s")):
            k = offset(d[1], t)
            if k is None or m == "remove" and k == len(t):
                self.write(pl, None, env)
                return ("t", ()) if m != "remove" else None
            new = "" if m == "remove" else chr(d[2][1]) if m == "insert" else d[2][1]
            self.write(pl, ("s", t[:k] + new + t[k + (m == "remove"):]), env)
            return ("c", ord(t[k])) if m == "remove" else ("t", ())
        if m in ("push", "insert") and is_num(d[-1]):
            if pl and m == "push":
                self.write(pl, ("s", t + strs.seg("char " + shown(d[-1]))), env)
                return ("t", ())
            return None
        if m in ("is_ascii",):
            return ("c", int(t.isascii())) if strs.known(t) else None
        return super().string(c, m, t, args, env)


def run_text(prog, b, hook, pick, st0, env, limit=100000):
    old = traces.Traces
    traces.Traces = Text
    try:
        return traces.explore(prog, b, hook, pick, st0, limit, env)
    finally:
        traces.Traces = old
