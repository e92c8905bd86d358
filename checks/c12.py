"""C12: the mathematical and text functions compute what their documentation says.

Every function is interpreted over unknown numbers and over texts made of unknown characters.  The result is
its summary: under which conditions on the arguments it fails or returns which term.  A summary is a
piecewise closed form; it is compared with the function's definition at the ends and within every piece
(the constants of the code and of the definition and their neighbours)."""

import math
import re

import strs
import terms
import traces
from strs import seg
from terms import ev, farg, holds, iarg, rnd
from traces import obj
from checks import builtins
from checks.c06 import V

CRATE = "endbasic_std"
I32 = (-2**31, 2**31 - 1)
ERR = ("err",)
NAN = math.nan


def near(x):
    return [math.nextafter(x, -math.inf), x, math.nextafter(x, math.inf)]


DOUBLES = [math.nan, math.inf, -math.inf, 0.0, -0.0, 1e-300, -1e-300, 1e300, -1e300, 1.7976931348623157e308, -1.7976931348623157e308, 709.7, 709.9, -700.0, -800.0, 1e10, -1e10, 12.3456, -12.3456, 30.0, 90.0,
           2147483646.5, -2147483647.5]
for _x in (0.25, 0.5, 1.0, 1.5, 2.0, 2.5, 3.5, 4.4, 4.6, 2147483647.0, 2147483647.5, 2147483648.0, 2147483648.5, 2147483649.0):
    DOUBLES += near(_x) + near(-_x)
INTS = [-2**31, -2**31 + 1, -1000, -308, -2, -1, 0, 1, 2, 3, 15, 255, 256, 308, 1000, 2**31 - 2, 2**31 - 1]


def to_int(x):
    """A double that is already a whole number, as an integer."""
    return ("integer", int(x)) if math.isfinite(x) and I32[0] <= x <= I32[1] else ERR


def angle(f):
    return lambda m, x: ("double", f(x if m == "Radians" else x * math.pi / 180))


def unangle(f):
    def g(m, x):
        if not -1.0 <= x <= 1.0 and f is not math.atan:
            return ERR
        v = f(x)
        return ("double", v if m == "Radians" else v * 180 / math.pi)
    return g


def exp(_m, x):
    v = terms.F["exp"](x)
    return ("double", v) if math.isfinite(v) else ERR


def round2(_m, x, d):
    if not math.isfinite(x):
        return ("double", x)
    if d > 330 or abs(x) >= 2.0**52 and d >= 0:
        return ("double", x)
    if d < -330:
        return ("double", 0.0)
    from fractions import Fraction
    s = Fraction(x) * (Fraction(10) ** d)
    r = math.floor(abs(s) + Fraction(1, 2)) * (1 if s >= 0 else -1)
    try:
        return ("double", float(Fraction(r) / (Fraction(10) ** d)))
    except OverflowError:
        return ("double", math.copysign(math.inf, x))


D, N = "double", "integer"
MATH = {
    "ABS": [((D,), lambda m, x: ("double", abs(x)))],
    "ACOS": [((D,), unangle(math.acos))],
    "ASIN": [((D,), unangle(math.asin))],
    "ATN": [((D,), unangle(math.atan))],
    "COS": [((D,), angle(terms.F["cos"]))],
    "SIN": [((D,), angle(terms.F["sin"]))],
    "TAN": [((D,), angle(terms.F["tan"]))],
    "CINT": [((D,), lambda m, x: to_int(rnd(x)))],
    "INT": [((D,), lambda m, x: to_int(terms.F["floor"](x)))],
    "FIX": [((D,), lambda m, x: to_int(terms.F["trunc"](x)))],
    "EXP": [((D,), exp)],
    "LOG": [((D,), lambda m, x: ERR if x <= 0 else ("double", terms.F["ln"](x)))],
    "SQR": [((D,), lambda m, x: ERR if x < 0 else ("double", terms.F["sqrt"](x)))],
    "SGN": [((D,), lambda m, x: ("integer", (x > 0) - (x < 0)))],
    "PI": [((), lambda m: ("double", math.pi))],
    "ROUND": [((D,), lambda m, x: ("double", rnd(x))), ((D, N), round2)],
    "MAX": [((D,) * k, lambda m, *x: ("double", max(x))) for k in (1, 2, 3)],
    "MIN": [((D,) * k, lambda m, *x: ("double", min(x))) for k in (1, 2, 3)],
}


def fields(P, ty):
    a = P.adts.get(ty)
    return a["variants"][0]["fields"] if a is not None else []


def instance(P, ty, put):
    """A value of struct `ty` whose fields are what put(field type, name) says, or opaque."""
    out = []
    for f in fields(P, ty):
        name, t = (f["name"], f["ty"]) if isinstance(f, dict) else (f[0], f[1])
        v = put(str(t), name)
        out.append(v if v is not None else obj("self." + name))
    return ("v", ty.rsplit("::", 1)[-1], tuple(out))


def pick(_c, b):
    return b.crate == CRATE


def close(a, b):
    if a != a or b != b:
        return a != a and b != b
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= 1e-9 * max(abs(a), abs(b), 1e-290)


def summarise(P, name, kinds, runner, hook=None, env0=None, me=None, values=None):
    ty, body = builtins.builtins(P)[name]
    env = dict(env0 or {})
    args = []
    for i, k in enumerate(kinds):
        if values is not None and values[i] is not None:
            args.append((k, values[i]))
        elif k == N:
            args.append((k, iarg(i, env)))
        elif k == D:
            args.append((k, farg(i)))
        else:
            args.append((k, None))
    ar = builtins.Arguments(args)
    ar.failed = True
    if me is not None and me[0] == "v":
        env[89999], me = me, ("ref", 89999, "[]")
    env[1] = me if me is not None else obj("self")
    env[2] = obj("scope")

    def h(c, a, st, ai, e):
        r = ar.hook(c, a, st, ai, e)
        if r is None and hook is not None:
            r = hook(c, a, st, ai, e)
        return r
    outs, dead, over, t = runner(P, body, h, pick, (), env)
    return outs, over, t, body


def run(ctx):
    P = ctx.P
    ctx.rule("each function's summary (conditions on its arguments, terms for its result) is derived from its body and equals the function's definition at the ends and in the middle of all pieces")
    ctx.rule("text functions count characters: offsets in bytes are symbolic and only cut a text where a character of unknown width begins")
    ctx.rule("a call fails exactly when the definition excludes its arguments, fails without a result, and cannot panic")
    ctx.assume("the methods of f64, char and str do what the standard library documents")
    B = builtins.builtins(P)
    mathematics(ctx, P, B)
    modes(ctx, P, B)
    randomness(ctx, P, B)
    texts(ctx, P, B)
    codes(ctx, P, B)
    ctx.floor("functions", 30)
    ctx.floor("summaries", 1500)
    ctx.floor("points", 6000)


def points(kinds, outs, tier):
    extra = set()
    for v, st, e in outs:
        terms.constants((terms.conds(e), st), extra)
    ds = list(DOUBLES)
    is_ = list(INTS)
    for x in extra:
        if isinstance(x, float):
            ds += near(x) + [x - 0.5, x + 0.5]
        elif I32[0] <= x <= I32[1]:
            is_ += [y for y in (x - 1, x, x + 1) if I32[0] <= y <= I32[1]]
            ds += [float(x)]
    if len(kinds) == 1:
        return [(x,) for x in (ds if kinds[0] == D else is_)]
    if kinds == (D, N):
        return [(x, k) for x in ds for k in is_]
    some = [math.inf, -math.inf, 0.0, 1.0, -1.0, 2.5, 1.7976931348623157e308, -1.7976931348623157e308, -5.0, 1e-300]
    out = [()]
    for k in kinds:
        out = [p + (x,) for p in out for x in some]
    return out


def matching(outs, at):
    """Outcomes whose conditions hold."""
    return [(v, st) for v, st, e in outs if holds(terms.conds(e), at)]


def result(v, st):
    """("err",) or (type, term) or None when the outcome is neither."""
    rets = [x for x in st if x[0] == "return"]
    other = [x for x in st if x[0] not in ("return", "noerror")]
    if v is None or v[0] != "v" or other:
        return None
    if v[1] == "Err":
        return ERR if not rets else None
    if v[1] == "Ok" and len(rets) == 1:
        return rets[0][1], rets[0][2]
    return None


def settle(outs):
    """Outcomes without those in which storing a text failed; None if such a failure is not reported."""
    out = []
    for v, st, e in outs:
        if any(x[0] == "fail" for x in st):
            if v is None or v[0] != "v" or v[1] != "Err" or any(x[0] == "return" for x in st):
                return None
            continue
        out.append((v, st, e))
    return out


def mathematics(ctx, P, B):
    for name, defs in sorted(MATH.items()):
        if not ctx.anchor(B.get(name), "the function %s" % name):
            continue
        ty, body = B[name]
        ctx.count("functions")
        moded = any("AngleMode" in str(f) for f in fields(P, ty))
        for kinds, ref in defs:
            for mode in ("Radians", "Degrees") if moded else ("Radians",):
                me = instance(P, ty, lambda t, n: V(mode) if "AngleMode" in t else None)
                outs, over, t, _ = summarise(P, name, kinds, terms.run, me=me)
                outs = settle(outs)
                what = "%s with %d arguments%s" % (name, len(kinds), " in %s mode" % mode.lower() if moded else "")
                key = "%s:%d:%s" % (name, len(kinds), mode)
                ctx.count("summaries")
                ctx.count("pieces", len(outs or ()))
                if over or not outs:
                    ctx.violation(key + ":summary", "%s cannot be summarised" % what, body)
                    continue
                for p in points(kinds, outs, ctx.tier):
                    at = {("arg", i): x for i, x in enumerate(p)}
                    nan = any(x != x for x in p)
                    if name in ("SIN", "COS", "TAN") and abs(p[0]) > 1e6 and not math.isinf(p[0]):
                        continue    # nothing is left of the angle
                    want = None if nan else ref(mode, *p)
                    ctx.count("points")
                    try:
                        got = matching(outs, at)
                        bad = [b for b in t.panics if holds(b[2], at)]
                    except terms.Unknown as u:
                        ctx.violation(key + ":unknown", "%s depends on something that is not one of its arguments: %s" % (what, u), body)
                        break
                    shown = ", ".join(repr(x) for x in p)
                    if bad:
                        ctx.violation(key + ":panic", "%s(%s) panics" % (name, shown), body)
                        break
                    rs = [result(v, st) for v, st in got]
                    if len(rs) != 1 or rs[0] is None:
                        ctx.violation(key + ":outcomes", "%s(%s) has %d outcomes" % (name, shown, len(rs)), body)
                        break
                    r = rs[0]
                    if nan:
                        # Not a number: an error, or not a number again.
                        ok = r == ERR or name in ("MAX", "MIN", "SGN") or r[0] == "double" and ev(r[1], at) != ev(r[1], at)
                    elif want == ERR or r == ERR:
                        ok = want == r
                    else:
                        try:
                            x = ev(r[1], at)
                        except terms.Unknown:
                            x = None
                        ok = r[0] == want[0] and x is not None and (x == want[1] if want[0] == "integer" or name in ("ABS", "MAX", "MIN") else tolerant(name, kinds, p, x, want[1]))
                    if not ok:
                        ctx.violation(key + ":value", "%s(%s)%s %s; it should %s" % (
                            name, shown, " in %s mode" % mode.lower() if moded else "", "fails" if r == ERR else "returns %s = %s" % (terms.shown(r[1]), value(r[1], at)),
                            "fail" if want == ERR else "return %s" % (want[1] if want else "not a number")), body)
                        break


def tolerant(name, kinds, p, x, want):
    if name == "ROUND" and len(kinds) == 2:
        # The last digit that is kept may be off where the scaled value is on the border.
        if close(x, want):
            return True
        d = p[1]
        step = terms.powf(10.0, float(-d)) if abs(d) < 300 else 0.0
        if not math.isfinite(x):
            return False
        scaled = p[0] * terms.powf(10.0, float(d)) if abs(d) < 300 else 0.0
        frac = abs(abs(scaled) - math.floor(abs(scaled)) - 0.5) if math.isfinite(scaled) else 1.0
        return abs(x - want) <= step * 1.001 and frac < 1e-3 or abs(x - want) < step * 1e-9 or abs(x - want) < abs(want) * 1e-9
    return close(x, want)


def value(t, at):
    try:
        return ev(t, at)
    except terms.Unknown:
        return "?"


# -- modes and random numbers ---------------------------------------------------------------


def modes(ctx, P, B):
    for name, mode in (("DEG", "Degrees"), ("RAD", "Radians")):
        if not ctx.anchor(B.get(name), "the command %s" % name):
            continue
        ty, body = B[name]
        for before in ("Degrees", "Radians"):
            me = instance(P, ty, lambda t, n: V(before) if "AngleMode" in t else None)
            env = {90000: me}
            outs, over, t, _ = summarise(P, name, (), terms.run, env0=env, me=("ref", 90000, "[]"))
            ctx.count("summaries")
            idx = [i for i, f in enumerate(fields(P, ty)) if "AngleMode" in str(f)]
            ok = len(outs) == 1 and not over and bool(idx)
            for v, st, e in outs:
                ok = ok and v is not None and v[1] == "Ok" and not st and e.get(90000) is not None and t.deep(e[90000][2][idx[0]], e) == V(mode)
            if not ok:
                ctx.violation("mode:%s:%s" % (name, before), "%s does not switch to %s" % (name, mode.lower()), body)


RNG = "rand"


def randomness(ctx, P, B):
    """The generator is opaque: its numbers and seeds are events."""
    prng = [x for x in P.adts if x.startswith(CRATE) and any("SmallRng" in str(f) for f in fields(P, x))]
    if not ctx.anchor(prng, "the random number generator"):
        return
    gen = prng[0]

    def hook(c, a, st, ai, env):
        if c.path.startswith("rand") or " as rand" in c.path or "rand_core" in c.path:
            if c.name in ("seed_from_u64", "from_entropy", "from_seed", "from_rng", "from_os_rng"):
                x = ai.deep(a[0], env) if a else None
                st2 = st + (("seed", c.name, x),)
                return [(obj("generator %d" % len(st2)), st2)]
            if c.name in ("next_u32", "next_u64", "gen", "random"):
                g = ai.deep(a[0], env)
                e = dict(env)
                v = terms.n("random", str(g), sum(1 for x in st if x[0] == "next"))
                terms.fact(v, (0, 2**32 - 1), e)
                return [(v, st + (("next", c.name, g),), e)]
        return None

    def state():
        out = []
        for f in fields(P, gen):
            t = str(f["ty"] if isinstance(f, dict) else f[1])
            out.append(obj("generator") if "SmallRng" in t else terms.n("last"))
        return ("v", gen.rsplit("::", 1)[-1], tuple(out))

    def ran(name, kinds):
        ty, body = B[name]
        me = instance(P, ty, lambda t, n: ("ref", 90000, "[]") if gen in t else None)
        env = {90000: state(), 90001: None, 90010: terms.n("last")}
        terms.fact(terms.n("last"), (0, 2**32 - 1), env)
        env.pop(90001)
        outs, over, t, body = summarise(P, name, kinds, terms.run, hook, env, me)
        return [(v, st, e, t.deep(e.get(90000), e)) for v, st, e in outs], over, body

    def scaled(t, v):
        """Whether term t is v / (2^32 - 1)."""
        try:
            return all(close(ev(t, {v[2]: x}), x / (2**32 - 1)) for x in (0, 1, 12345, 2**31, 2**32 - 1))
        except terms.Unknown:
            return False

    def last(s):
        xs = [x for x in s[2] if terms.is_num(x)] if s is not None and s[0] == "v" else []
        return xs[0] if len(xs) == 1 else None

    def engine(s):
        xs = [x for x in s[2] if traces.is_obj(x)] if s is not None and s[0] == "v" else []
        return xs[0] if len(xs) == 1 else None
    if ctx.anchor(B.get("RND"), "the function RND"):
        ctx.count("functions")
        for kinds in ((), (N,)):
            outs, over, body = ran("RND", kinds)
            ctx.count("summaries")
            for n in (-2**31, -5, -1, 0, 1, 7, 2**31 - 1) if kinds else (1,):
                at = {("arg", 0): n}
                ctx.count("points")
                got = [(v, st, s) for v, st, e, s in outs if holds(terms.conds(e), at)]
                key = "RND:%d:%s" % (len(kinds), (n > 0) - (n < 0))
                if over or len(got) != 1 or got[0][0] is None or got[0][0][1] != "Ok":
                    ctx.violation(key, "RND(%s) cannot be summarised or fails" % n, body)
                    continue
                v, st, s = got[0]
                rets = [x for x in st if x[0] == "return"]
                evs = [x[:2] for x in st if x[0] in ("seed", "next")]
                t = rets[0][2] if len(rets) == 1 and rets[0][1] == "double" else None
                if n > 0:
                    ok = [x[0] for x in evs] == ["next"] and engine(s) == obj("generator") and last(s) is not None and last(s)[2][0] == "random" and scaled(t, last(s))
                    what = "a new random number"
                elif n == 0:
                    ok = not evs and s == state() and scaled(t, terms.n("last"))
                    what = "the previous random number"
                else:
                    seeds = [x for x in st if x[0] == "seed"]
                    ok = [x[0] for x in evs] == ["seed", "next"] and engine(s) != obj("generator") and last(s) is not None and last(s)[2][0] == "random" and scaled(t, last(s))
                    ok = ok and depends(seeds[0][2])
                    what = "the first number of the sequence of its argument"
                if not ok:
                    ctx.violation(key, "RND(%s) does not return %s" % (n if kinds else "", what), body)
    if ctx.anchor(B.get("RANDOMIZE"), "the command RANDOMIZE"):
        ctx.count("functions")
        for kinds in ((), (N,)):
            outs, over, body = ran("RANDOMIZE", kinds)
            ctx.count("summaries")
            ok = bool(outs) and not over
            for v, st, e, s in outs:
                seeds = [x for x in st if x[0] == "seed"]
                ok = ok and v is not None and v[1] == "Ok" and len(seeds) == 1 and engine(s) not in (None, obj("generator")) and last(s) is not None
                ok = ok and (depends(seeds[0][2]) if kinds else seeds[0][1] != "seed_from_u64")
            if not ok:
                ctx.violation("RANDOMIZE:%d" % len(kinds), "RANDOMIZE does not start %s" % ("the sequence of its argument" if kinds else "an arbitrary sequence"), body)


def depends(t):
    """Whether different arguments give different values of the term."""
    try:
        xs = [ev(t, {("arg", 0): n}) for n in INTS]
    except (terms.Unknown, TypeError):
        return False
    return len(set(xs)) == len(xs)


# -- texts ----------------------------------------------------------------------------------

CH = [seg(x) for x in ("p", "q", "r", "s")]
P_, Q_, R_, S_ = CH
LENS = [-2**31, -1, 0, 1, 2, 3, 4, 5, 2**31 - 1]
WIDE = [256, 65535, 65536, 2**24 + 1, 2**30]


def instr(start, s, q):
    if start <= 0:
        return ERR
    if start - 1 > len(s):
        return ("integer", 0)
    return ("integer", s.find(q, start - 1) + 1)


def mid(s, a, n=None):
    if a < 0 or n is not None and n < 0:
        return ERR
    return ("string", s[a:] if n is None else s[a:a + n])


def numeric_prefix(s):
    m = re.match(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", s.lstrip(terms.SPACES), re.A)
    return ("double", float(m.group(0)) if m else 0.0)


def text_cases(tier):
    t = ["", P_, P_ + Q_, P_ + Q_ + R_, "x" + P_, P_ + "x" + Q_]
    for s in t:
        yield "LEN", (s,), ("integer", len(s))
        yield "UCASE", (s,), ("string", strs.upper(s))
        yield "LCASE", (s,), ("string", strs.lower(s))
        yield "ASC", (s,), ("integer", ord(s)) if len(s) == 1 else ERR
        for n in LENS:
            yield "LEFT", (s, n), ERR if n < 0 else ("string", s[:n])
            yield "RIGHT", (s, n), ERR if n < 0 else ("string", s[max(0, len(s) - n):])
            yield "MID", (s, n), mid(s, n)
            for k in LENS:
                yield "MID", (s, n, k), mid(s, n, k)
        for n in WIDE:
            yield "LEFT", (s, n), ("string", s)
            yield "RIGHT", (s, n), ("string", s)
            yield "MID", (s, n), ("string", "")
            yield "MID", (s, 1, n), mid(s, 1, n)
            yield "INSTR", (n, s, P_), ("integer", 0)
    for s in ("aB1", "Zz" + P_ + "a", "", "x y"):
        yield "UCASE", (s,), ("string", strs.upper(s))
        yield "LCASE", (s,), ("string", strs.lower(s))
    ws = ["", " ", "\t", "  ", " \t"]
    for a in ws:
        for b in ws:
            for m in ("", P_, P_ + " " + Q_, "x"):
                s = a + m + b
                yield "TRIM", (s,), ("string", s.strip(terms.SPACES))
                yield "LTRIM", (s,), ("string", s.lstrip(terms.SPACES))
                yield "RTRIM", (s,), ("string", s.rstrip(terms.SPACES))
    hay = ["", P_, P_ + Q_, P_ + Q_ + P_ + Q_, "x" + Q_ + "x" + Q_, Q_ + Q_ + P_, P_ + P_ + P_ + Q_]
    for s in hay:
        for q in ("", P_, Q_, P_ + Q_, Q_ + P_, R_, P_ + Q_ + R_, "x", "x" + Q_, P_ + P_):
            yield "INSTR", (s, q), instr(1, s, q)
            for n in LENS:
                yield "INSTR", (n, s, q), instr(n, s, q)
    for n in (-2**31, -1, 0, 1, 2, 7, 80):
        yield "SPACE", (n,), ERR if n < 0 else ("string", " " * n)
    for s in ("", " ", "0", "7", "12", "-12", "+12", " \t 12", "12 ", "12abc", "1.5", "-1.5", ".5", "-.5", "+.5x", "5.", "5.e", ".", "-", "+", "-.", "..5", "1..5", "1.5.5", "1e3", "1E3", "1e+3", "1e-3", "1e", "1e+", "1e-x",
              "1.e3", ".e3", "e3", "--1", "+-1", "- 1", "1 2", "1,5", "0x10", "inf", "nan", "x1", "12345678901234567890", "1e5e5", "1.5e2.5", "00012", "1_000", "\u00e91", "1\u00e9", "1.\u00e9", "1e\u00e9"):
        yield "VAL", (s,), numeric_prefix(s)


def const(x):
    return ("string", ("s", x)) if isinstance(x, str) else ("integer", ("c", x))


def texts(ctx, P, B):
    seen = set()
    for name, args, want in text_cases(ctx.tier):
        if name not in seen:
            seen.add(name)
            ctx.count("functions")
            ctx.anchor(B.get(name), "the function %s" % name)
        if name not in B:
            continue
        cs = [const(x) for x in args]
        outs, over, t, body = summarise(P, name, [k for k, _ in cs], terms.run_text, values=[v for _, v in cs])
        outs = settle(outs)
        ctx.count("summaries")
        shown = "%s(%s)" % (name, ", ".join('"%s"' % strs.show(x) if isinstance(x, str) else str(x) for x in args))
        key = "%s:%d" % (name, len(args))
        if over or not outs or t.panics:
            ctx.violation(key + ":summary", "%s cannot be summarised, may panic or drops a failure" % shown, body)
            continue
        rs = [result(v, st) for v, st, e in outs]
        r = rs[0] if len(rs) == 1 else None
        if r is None:
            ctx.violation(key + ":outcomes", "%s has %d outcomes or one that is neither a result nor a failure" % (shown, len(rs)), body)
            continue
        ok = r == ERR if want == ERR or r == ERR else False
        if ok:
            ok = want == r
        elif want != ERR and r != ERR:
            ok = r[0] == want[0] and r[1] is not None and r[1][0] in ("s", "c") and r[1][1] == want[1]
        if not ok:
            ctx.violation(key + ":value", "%s %s; it should %s" % (shown, "fails" if r == ERR else "returns %s" % (strs.show(r[1][1]) if r[1] is not None and len(r[1]) == 2 else "something else"),
                                                                   "fail" if want == ERR else "return %s" % strs.show(want[1])), body)


# -- codes and formatting -------------------------------------------------------------------


def chr_ref(n):
    return ("string", "char") if 0 <= n < 0xD800 or 0xE000 <= n < 0x110000 else ERR


def codes(ctx, P, B):
    if ctx.anchor(B.get("CHR"), "the function CHR"):
        ctx.count("functions")
        outs, over, t, body = summarise(P, "CHR", (N,), terms.run_text)
        outs = settle(outs)
        ctx.count("summaries")
        for n in INTS + [0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 127, 128, 65535, 65536]:
            ctx.count("points")
            at = {("arg", 0): n}
            got = [result(v, st) for v, st in matching(outs or (), at)]
            ok = not over and len(got) == 1 and got[0] is not None and not any(holds(b[2], at) for b in t.panics)
            want = chr_ref(n)
            ok = ok and (got[0] == ERR if want == ERR else got[0] == ("string", ("s", seg("char arg(0)"))))
            if not ok:
                ctx.violation("CHR", "CHR(%d) %s" % (n, "does not fail" if want == ERR else "does not return the character of its code"), body)
                break
    if ctx.anchor(B.get("STR"), "the function STR"):
        ctx.count("functions")
        for ty, kind, v in (("Boolean", "boolean", ("c", 0)), ("Boolean", "boolean", ("c", 1)), ("Double", D, None), ("Integer", N, None), ("Text", "string", ("s", P_ + " " + Q_)), ("Text", "string", ("s", ""))):
            tag = V("Immediate", V("End"), V(ty))
            outs, over, t, body = summarise(P, "STR", ("tag", kind), terms.run_text, values=[tag, v])
            outs = settle(outs)
            ctx.count("summaries")
            for x in (INTS if ty == "Integer" else DOUBLES if ty == "Double" else [None]):
                ctx.count("points")
                at = {("arg", 1): x}
                got = [result(v_, st) for v_, st in matching(outs or (), at)]
                if ty == "Boolean":
                    want = "TRUE" if v[1] else "FALSE"
                elif ty == "Text":
                    want = v[1]
                else:
                    neg = x < 0 or x == 0 and math.copysign(1, x) < 0
                    want = ("" if neg else " ") + seg("text of arg(1)")
                if over or len(got) != 1 or got[0] is None or got[0] == ERR or got[0][1] != ("s", want):
                    ctx.violation("STR:" + ty, "STR of the %s %s is not `%s`" % (ty.lower(), x if x is not None else "", strs.show(want)), body)
                    break
