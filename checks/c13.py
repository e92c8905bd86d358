"""C13: commands ask of the console, the pins and the clock exactly what their arguments say.

Every command is interpreted over unknown numbers and over all shapes of its argument list.  Calls to the
devices are events; each of them may fail.  At the ends of the ranges of the arguments (and at the constants
that occur in the code and their neighbours) the events are compared with the requests that the command's
documentation promises, with their arguments in place, and its results with what the device reported."""

import itertools
import math

import strs
import terms
import traces
from strs import seg
from terms import ev, farg, fact, holds, iarg, n
from traces import obj, trait_call
from checks import builtins
from checks.c06 import V
from checks.c12 import fields

CRATE = "endbasic_std"
DEVICES = {"endbasic_std::console::Console": "the console", "endbasic_std::gpio::Pins": "the pins", "endbasic_std::datetime::DateTime": "the clock"}
QUERIES = ("size_chars", "size_pixels", "glyph_size", "color", "is_interactive")
FAIL = ("fail",)
I32 = (-2**31, 2**31 - 1)
W, H, PW, PH, PIXEL, CLOCK = n("columns"), n("rows"), n("width"), n("height"), n("pixel"), ("sym", "f", ("clock",))
SIZES = {("columns",): 80, ("rows",): 25, ("width",): 640, ("height",): 400, ("pixel",): 7, ("clock",): 12.5}
NOW = dict(SIZES)
OTHER = {("pixel",): (0, 1, 15, 127, 128, 129, 254, 255), ("clock",): (0.0, 1e-9, 86400.0, 4294967296.5)}
OTHER.update({(k,): (1, 2, 79, 127, 128, 255, 256, 257, 32766, 32767, 32768, 65534, 65535) for k in ("columns", "rows", "width", "height")})
KEYS = {"ArrowDown": "DOWN", "ArrowLeft": "LEFT", "ArrowRight": "RIGHT", "ArrowUp": "UP", "Backspace": "BS", "CarriageReturn": "ENTER", "Delete": "DEL", "End": "END", "EofOrDelete": "EOF",
        "Escape": "ESC", "Home": "HOME", "Interrupt": "INT", "NewLine": "ENTER", "PageDown": "PGDOWN", "PageUp": "PGUP", "Tab": "TAB", "Unknown": "?", "Char": seg("k")}


def struct(P, ty, **kw):
    """A value of a struct from its named fields."""
    fs = fields(P, ty)
    names = [f["name"] if isinstance(f, dict) else f[0] for f in fs]
    return ("v", ty.rsplit("::", 1)[-1], tuple(kw.get(x) for x in names))


def some(v):
    return V("None") if v is None else V("Some", v)


def c(x):
    return ("c", x)


class Device:
    """Answers the calls to the devices and records them."""

    def __init__(self, P, key=None, script=None):
        self.P, self.key, self.script = P, key, script

    def result(self, name):
        P = self.P
        if name == "size_chars":
            return struct(P, "endbasic_std::console::CharsXY", x=W, y=H)
        if name == "size_pixels":
            return struct(P, "endbasic_std::console::SizeInPixels", width=PW, height=PH)
        if name == "poll_key" or name == "read_key":
            return self.key
        if name == "read":
            return ("sym", "b", "level")
        if name == "set_sync":
            return obj("previous mode")
        if name == "monotonic":
            return ("v", "Duration", (CLOCK,))
        return ("t", ())

    def hook(self, cl, a, st, ai, env):
        for t, what in DEVICES.items():
            if trait_call(cl, t):
                args = tuple(ai.deep(x, env) for x in a[1:])
                if cl.name == "peek_pixel":
                    r = [V("None"), V("Some", PIXEL)]
                    return traces.outcomes(ai, cl, st, r[0], st + (("dev", cl.name, args, "none"),), st + (("bad", cl.name, args),), obj("device error")) + traces.outcomes(
                        ai, cl, st, r[1], st + (("dev", cl.name, args, "some"),), st + (("bad", cl.name, args),), obj("device error"))[:1]
                if cl.name in ("monotonic", "color", "is_interactive"):
                    return [(self.result(cl.name), st + (("dev", cl.name, args),))]
                return traces.outcomes(ai, cl, st, self.result(cl.name), st + (("dev", cl.name, args),), st + (("bad", cl.name, args),), obj("device error"))
        return None


def run_one(P, name, args, env, dev, me=None, data=None, body=None):
    body = body or builtins.builtins(P)[name][1]
    ar = builtins.Arguments(args)
    ar.failed, ar.data = True, data
    env = dict(env)
    for v, iv in ((W, (1, 65535)), (H, (1, 65535)), (PW, (1, 65535)), (PH, (1, 65535)), (PIXEL, (0, 255))):
        fact(v, iv, env)
    if me is not None:
        env[89999] = me
        env[1] = ("ref", 89999, "[]")
    else:
        env[1] = obj("self")
    env[2] = obj("scope")

    def h(cl, a, st, ai, e):
        r = ar.hook(cl, a, st, ai, e)
        return r if r is not None else dev.hook(cl, a, st, ai, e)
    outs, dead, over, t = terms.run_text(P, body, h, lambda cl, b: b.crate == CRATE, (), env)
    return outs, over, t, body


def at_point(v, at):
    """`v` with its terms replaced by their values."""
    if v is None or not isinstance(v, tuple) or not v:
        return v
    if v[0] == "sym" and v[1] in ("n", "f"):
        try:
            return ("c", ev(v, at))
        except terms.Unknown:
            return ("unknown", v)
    if v[0] == "v":
        return ("v", v[1], tuple(at_point(x, at) for x in v[2]))
    if v[0] in ("t", "vec"):
        return (v[0], tuple(at_point(x, at) for x in v[1]))
    return v


def plain(v):
    """For messages."""
    if v is None:
        return "?"
    if v[0] == "c":
        return repr(v[1])
    if v[0] == "s":
        return '"%s"' % strs.show(v[1])
    if v[0] == "v":
        return v[1] + ("(%s)" % ", ".join(plain(x) for x in v[2]) if v[2] else "")
    if v[0] in ("t", "vec"):
        return "[%s]" % ", ".join(plain(x) for x in v[1])
    return "something"


def words(evs):
    return "; ".join("%s(%s)" % (x[1], ", ".join(plain(y) for y in x[2])) for x in evs) or "nothing"


def edges(outs, extra=()):
    s = set(extra)
    for v, st, e in outs:
        terms.constants((terms.conds(e), st), s)
    out = {-2**31, -2**31 + 1, -1, 0, 1, 2, 127, 128, 255, 256, 32767, 32768, -32768, -32769, 65535, 65536, 65537, 2**31 - 1, 80, 79, 81, 25, 24, 26}
    for x in s:
        if not isinstance(x, float) and I32[0] <= x <= I32[1]:
            out |= {y for y in (x - 1, x, x + 1) if I32[0] <= y <= I32[1]}
    return sorted(out)


DOUBLES = [math.nan, math.inf, -math.inf, 0.0, -0.0, 0.001, 1.5, 60.0, 1e9, -1e-300, -0.5, -1e300, 1e300, 1.8446744073709550e19, 1.8446744073709552e19, 1e-300, 4294967.296]


def check(ctx, P, name, shape, kinds, args, env, want, dev, base, doubles=(), me=None):
    """Compares one shape of the call with `want(values, peek)` -> FAIL or (requests, result)."""
    outs, over, t, body = run_one(P, name, args, env, dev, me)
    ctx.count("summaries")
    shown = name + shape
    key = name + shape
    if over or not outs:
        ctx.violation(key + ":summary", "%s cannot be summarised" % shown, body)
        return
    # Failures to store a text
    out2 = []
    for v, st, e in outs:
        if any(x[0] == "fail" for x in st):
            if v is None or v[0] != "v" or v[1] != "Err" or any(x[0] == "return" for x in st):
                ctx.violation(key + ":dropped", "%s drops a failure" % shown, body)
                return
            continue
        out2.append((v, st, e))
    outs = out2
    es = edges(outs)
    points = set()
    if kinds:
        b = tuple(base[:len(kinds)])
        points.add(b)
        for i, k in enumerate(kinds):
            for x in es if k == "integer" else DOUBLES:
                points.add(b[:i] + (x,) + b[i + 1:])
        if kinds.count("integer") == 2:
            for x, y in itertools.product(es, es):
                points.add((x, y) + b[2:]) if kinds[:2] == ["integer", "integer"] else None
    else:
        points.add(())
    cases = [(p, SIZES) for p in sorted(points, key=repr)]
    text = repr([(terms.conds(e), v, st) for v, st, e in outs])
    for k, alts in OTHER.items():
        if repr(("sym", "n", k)) in text or repr(("sym", "f", k)) in text:
            for x in alts:
                near = [y for y in (0, 1, 3, x - 1, x, x + 1) if not isinstance(x, float)] if kinds and not kinds.count("double") else []
                pts = {tuple(base[:len(kinds)])} | ({b[:i] + (y,) + b[i + 1:] for b in [(0,) * len(kinds)] for i in range(len(kinds)) for y in near})
                cases += [(p, {**SIZES, k: x}) for p in sorted(pts, key=repr)]
    for p, sizes in cases:
        NOW.update(sizes)
        at = dict(sizes)
        at.update({("arg", i): x for i, x in enumerate(p)})
        ctx.count("points")
        call = "%s%s%s%s" % (name, shape, " with %s" % ", ".join(repr(x) for x in p) if p else "", "".join(" when the %s is %s" % (k[0], x) for k, x in sizes.items() if x != SIZES[k]))
        try:
            if any(holds(b[2], at) for b in t.panics):
                ctx.violation(key + ":panic", "%s panics" % call, body)
                return
            got = [(v, st) for v, st, e in outs if holds(terms.conds(e), at)]
        except terms.Unknown as u:
            ctx.violation(key + ":unknown", "%s depends on something else than its arguments and what the device reports: %s" % (shown, u), body)
            return
        peeks = sorted({x[3] for v, st in got for x in st if x[0] == "dev" and len(x) == 4}) or [None]
        for peek in peeks:
            w = want(p, peek)
            seen = set()
            for v, st in got:
                evs = [("dev" if x[0] == "dev" else "bad", x[1], tuple(at_point(y, at) for y in x[2])) for x in st if x[0] in ("dev", "bad")]
                if any(x[0] == "dev" and len(x) == 4 and x[3] != peek for x in st):
                    continue
                rets = [(x[1], at_point(x[2], at)) for x in st if x[0] == "return"]
                odd = [x for x in st if x[0] not in ("dev", "bad", "return", "noerror")]
                ok = v is not None and v[0] == "v" and v[1] in ("Ok", "Err") and not odd
                bad = [i for i, x in enumerate(evs) if x[0] == "bad"]
                reqs = [x for x in evs if x[1] not in QUERIES]
                if not ok:
                    ctx.violation(key + ":odd", "%s has an outcome that is neither success nor a failure%s" % (call, "; it reads arguments that are not there" if odd else ""), body)
                    return
                if bad:
                    if v[1] != "Err":
                        ctx.violation(key + ":ignored", "%s succeeds although `%s` of the device failed" % (call, evs[bad[0]][1]), body)
                        return
                    if bad[0] != len(evs) - 1 or rets:
                        ctx.violation(key + ":after", "%s goes on after `%s` of the device failed" % (call, evs[bad[0]][1]), body)
                        return
                    pre = [x[1:] for x in reqs]
                    if w == FAIL and pre or w != FAIL and pre != list(w[0])[:len(pre)]:
                        ctx.violation(key + ":request", "%s asks for %s; it should ask for %s" % (call, words(reqs), "nothing" if w == FAIL else words([("dev",) + x for x in w[0]])), body)
                        return
                    seen.add(("bad", len(pre)) if evs[bad[0]][1] not in QUERIES else "query")
                    continue
                if v[1] == "Err":
                    if w != FAIL:
                        ctx.violation(key + ":rejects", "%s fails; it should ask for %s" % (call, words([("dev",) + x for x in w[0]])), body)
                        return
                    if reqs or rets:
                        ctx.violation(key + ":effects", "%s fails but asked for %s" % (call, words(reqs)), body)
                        return
                    seen.add("fail")
                    continue
                if w == FAIL:
                    ctx.violation(key + ":accepts", "%s is accepted and asks for %s" % (call, words(reqs)), body)
                    return
                if [x[1:] for x in reqs] != list(w[0]):
                    ctx.violation(key + ":request", "%s asks for %s; it should ask for %s" % (call, words(reqs), words([("dev",) + x for x in w[0]])), body)
                    return
                if rets != ([w[1]] if w[1] is not None else []):
                    ctx.violation(key + ":result", "%s returns %s; it should return %s" % (call, plain(rets[0][1]) if rets else "nothing", plain(w[1][1]) if w[1] is not None else "nothing"), body)
                    return
                seen.add("ok")
            need = {"fail"} if w == FAIL else {"ok"}
            if not need <= seen:
                ctx.violation(key + ":missing", "%s never %s" % (call, "fails" if w == FAIL else "asks for %s" % words([("dev",) + x for x in w[0]])), body)
                return


# -- tables ---------------------------------------------------------------------------------


def i16(x):
    return -32768 <= x <= 32767


def u16(x):
    return 0 <= x <= 65535


def u8(x):
    return 0 <= x <= 255


def graphics(P):
    """(name, number of integers, request) of the drawing commands."""
    def xy(a, b):
        return struct(P, "endbasic_std::console::PixelsXY", x=c(a), y=c(b))

    def shape(op, coords, radius=False):
        def want(p, _):
            if not all(i16(x) for x in p[:2 * coords]) or radius and not u16(p[2 * coords]):
                return FAIL
            a = tuple(xy(p[2 * i], p[2 * i + 1]) for i in range(coords))
            return [(op, a + ((c(p[2 * coords]),) if radius else ()))], None
        return want
    yield "GFX_CIRCLE", 3, shape("draw_circle", 1, True)
    yield "GFX_CIRCLEF", 3, shape("draw_circle_filled", 1, True)
    yield "GFX_LINE", 4, shape("draw_line", 2)
    yield "GFX_PIXEL", 2, shape("draw_pixel", 1)
    yield "GFX_RECT", 4, shape("draw_rect", 2)
    yield "GFX_RECTF", 4, shape("draw_rect_filled", 2)
    yield "GFX_TRI", 6, shape("draw_tri", 3)
    yield "GFX_TRIF", 6, shape("draw_tri_filled", 3)
    yield "GFX_FILL", 2, shape("bucket_fill", 1)

    def peek(p, which):
        if not all(i16(x) for x in p):
            return FAIL
        return [("peek_pixel", (xy(*p),))], ("integer", c(-1 if which == "none" else NOW[("pixel",)]))
    yield "GFX_PEEK", 2, peek

    def poly(op):
        def want(p, _):
            if len(p) % 2 or not all(i16(x) for x in p):
                return FAIL
            return [(op, (("vec", tuple(xy(p[i], p[i + 1]) for i in range(0, len(p), 2))),))], None
        return want
    for k in (0, 2, 3, 4, 5, 6, 8):
        yield "GFX_POLY", k, poly("draw_poly")
        yield "GFX_POLYF", k, poly("draw_poly_filled")


def simple(ctx, P, name, kinds, want, dev=None, shape=None, base=(3, 5, 7, 11, 13, 17, 19, 23), consts=None, me=None):
    env, args = {}, []
    for i, k in enumerate(kinds):
        if consts and consts.get(i) is not None:
            args.append((k, consts[i]))
        elif k == "integer":
            args.append((k, iarg(i, env)))
        elif k == "double":
            args.append((k, farg(i)))
        else:
            args.append((k, None))
    check(ctx, P, name, shape if shape is not None else "(%s)" % ", ".join(kinds), [k for i, k in enumerate(kinds) if not (consts and consts.get(i) is not None)], args, env, want, dev or Device(P), base, me=me)


def seen(ctx, B, names, name):
    if name not in names:
        names.add(name)
        ctx.count("commands")
        ctx.anchor(B.get(name), "the command %s" % name)
    return name in B


def drawing(ctx, P, B, names):
    for name, k, want in graphics(P):
        if seen(ctx, B, names, name):
            simple(ctx, P, name, ["integer"] * k, want)
    for name, r, f in (("GFX_HEIGHT", "size_pixels", "height"), ("GFX_WIDTH", "size_pixels", "width"), ("SCRCOLS", "size_chars", "columns"), ("SCRROWS", "size_chars", "rows")):
        if seen(ctx, B, names, name):
            simple(ctx, P, name, [], lambda p, _, f=f: ([], ("integer", c(NOW[(f,)]))))
    if seen(ctx, B, names, "GFX_SYNC"):
        simple(ctx, P, "GFX_SYNC", [], lambda p, _: ([("sync_now", ())], None))
        for b in (0, 1):
            simple(ctx, P, "GFX_SYNC", ["boolean"], lambda p, _, b=b: ([("show_cursor" if b else "hide_cursor", ()), ("set_sync", (c(b),))], None), consts={0: c(b)}, shape="(%s)" % bool(b))
    polygons(ctx, P, B)


class Array:
    """A reference to an integer array whose elements are unknown numbers."""

    def __init__(self, dev, dims, vtype="Integer"):
        self.dev, self.dims, self.vtype = dev, dims, vtype

    def reference(self, P):
        return struct(P, "endbasic_core::callable::RegisterRef", vtype=V(self.vtype))

    def hook(self, cl, a, st, ai, env):
        if cl.path.startswith("endbasic_core::callable::RegisterRef") and cl.name == "array_dimensions":
            return [(("vec", tuple(c(x) for x in self.dims)), st)]
        if cl.path.startswith("endbasic_core::callable::RegisterRef") and cl.name.startswith("deref_array_"):
            ix = ai.deep(a[1], env)
            ok = ix is not None and ix[0] == "vec" and len(ix[1]) == len(self.dims) and all(x is not None and x[0] == "c" for x in ix[1])
            if not ok or not all(0 <= x[1] < d for x, d in zip(ix[1], self.dims)) or cl.name != "deref_array_integer":
                return [(V("Err", obj("subscript")), st + (("subscript",),))]
            k = 0
            for x, d in zip(ix[1], self.dims):
                k = k * d + x[1]
            return [(V("Ok", n("arg", k)), st)]
        return self.dev.hook(cl, a, st, ai, env)


def polygons(ctx, P, B):
    def xy(a, b):
        return struct(P, "endbasic_std::console::PixelsXY", x=c(a), y=c(b))
    for name, op in (("GFX_POLY", "draw_poly"), ("GFX_POLYF", "draw_poly_filled")):
        if name not in B:
            continue
        for vtype, dims in (("Integer", (1,)), ("Integer", (2,)), ("Integer", (4,)), ("Integer", (5,)), ("Integer", (1, 2)), ("Integer", (3, 2)), ("Integer", (2, 3)), ("Integer", (2, 1)), ("Integer", (1, 2, 2)),
                            ("Double", (4,)), ("Boolean", (2, 2)), ("Text", (4,))):
            k = 1
            for d in dims:
                k *= d
            good = vtype == "Integer" and (len(dims) == 1 and k % 2 == 0 or len(dims) == 2 and dims[1] == 2)

            def want(p, _):
                if not good or not all(i16(x) for x in p):
                    return FAIL
                return [(op, (("vec", tuple(xy(p[i], p[i + 1]) for i in range(0, k, 2))),))], None
            dev = Array(Device(P), dims, vtype)
            env = {}
            for i in range(k):
                iarg(i, env)
            check(ctx, P, name, "(%s array of %s)" % (vtype.lower(), " by ".join(str(d) for d in dims)), ["integer"] * k, [("ref", dev.reference(P))], env, want, dev, (3, 5, 7, 11, 13, 17, 19, 23))


def immediate(sep, ty):
    return ("tag", ("v", "Immediate", (V(sep), V(ty))))


def missing(sep):
    return ("tag", ("v", "Missing", (V(sep),)))


def colors(ctx, P, B, names):
    if not seen(ctx, B, names, "COLOR"):
        return

    def want(at, which):
        def w(p, _):
            vals = [p[i] if i is not None else None for i in which]
            if any(x is not None and not u8(x) for x in vals):
                return FAIL
            return [("set_color", tuple(some(c(x) if x is not None else None) for x in vals))], None
        return w
    env = {}
    x, y = iarg(0, env), iarg(1, env)
    I = "Integer"
    for shape, args, k, which in (
            ("", [], 0, (None, None)), (" fg", [("integer", x)], 1, (0, None)),
            (" fg, bg", [immediate("Long", I), ("integer", x), immediate("End", I), ("integer", y)], 2, (0, 1)),
            (" , bg", [missing("Long"), immediate("End", I), ("integer", x)], 1, (None, 0)),
            (" fg,", [immediate("Long", I), ("integer", x), missing("End")], 1, (0, None)),
            (" ,", [missing("Long"), missing("End")], 0, (None, None))):
        check(ctx, P, "COLOR", shape, ["integer"] * k, args, env, want(k, which), Device(P), (3, 5))


def positions(ctx, P, B, names):
    if seen(ctx, B, names, "LOCATE"):
        def want(p, _):
            if not (0 <= p[0] < NOW[("columns",)] and 0 <= p[1] < NOW[("rows",)]):
                return FAIL
            return [("locate", (struct(P, "endbasic_std::console::CharsXY", x=c(p[0]), y=c(p[1])),))], None
        simple(ctx, P, "LOCATE", ["integer", "integer"], want)
    if seen(ctx, B, names, "CLS"):
        simple(ctx, P, "CLS", [], lambda p, _: ([("clear", (V("All"),))], None))


VALUES = {"Text": [("s", seg("p")), ("s", ""), ("s", seg("p") + "234567890123"), ("s", seg("p") + "2345678901234"), ("s", seg("p") + "23456789012345"), ("s", "\u00e9a")],
          "Boolean": [c(0), c(1)], "Integer": [None], "Double": [None]}
KIND = {"Text": "string", "Boolean": "boolean", "Integer": "integer", "Double": "double"}


def printing(ctx, P, B, names):
    if not seen(ctx, B, names, "PRINT"):
        return
    few = [("Text", VALUES["Text"][0]), ("Integer", None), None]
    alls = [(t, v) for t in VALUES for v in VALUES[t]] + [None]
    rows = [[a] for a in alls] + [[a, b] for a in alls for b in few] + [[a, b] for a in few for b in alls] + [[a, b, d] for a in few for b in few for d in few]
    done = set()
    for row in rows:
        for seps in itertools.product(("Short", "Long"), repeat=len(row) - 1):
            key = repr((row, seps))
            if key in done:
                continue
            done.add(key)
            env, args, k, shown, kinds = {}, [], 0, "", []
            items = []
            for a, sep in zip(row, seps + ("End",)):
                sign = {"Short": ";", "Long": ",", "End": ""}[sep]
                if a is None:
                    args.append(missing(sep))
                    items.append((None, None, sep))
                    shown += sign
                    continue
                ty, v = a
                args.append(immediate(sep, ty))
                if ty == "Integer":
                    v = iarg(k, env)
                elif ty == "Double":
                    v = farg(k)
                if ty in ("Integer", "Double"):
                    kinds.append(KIND[ty])
                    items.append((ty, k, sep))
                    k += 1
                else:
                    items.append((ty, v[1], sep))
                shown += " %s%s" % (ty.lower() if ty != "Text" else plain(v), sign)
                args.append((KIND[ty], v))

            def want(p, _, items=items):
                text = ""
                for ty, v, sep in items:
                    if ty == "Text":
                        text += v
                    elif ty == "Boolean":
                        text += "TRUE" if v else "FALSE"
                    elif ty is not None:
                        neg = p[v] < 0 if ty == "Integer" else math.copysign(1.0, p[v]) < 0 and p[v] == p[v]
                        text += ("" if neg else " ") + seg("text of arg(%d)" % v)
                    if sep == "Short" and ty not in (None, "Text"):
                        text += " "
                    if sep == "Long":
                        text += " " * (14 - len(text) % 14)
                end = len(items) == 1 or items[-1][0] is not None
                return [("print" if end else "write", (("s", text),))], None
            check(ctx, P, "PRINT", shown, kinds, args, env, want, Device(P), (3, 5, 7) if "double" not in kinds else tuple(5 if x == "integer" else 1.5 for x in kinds))


def keys(ctx, P, B, names):
    if not seen(ctx, B, names, "INKEY"):
        return
    variants = [v["name"] if isinstance(v, dict) else v[0] for v in P.adts["endbasic_std::console::Key"]["variants"]]
    for k in variants:
        v = V(k, c(ord(seg("k")))) if k == "Char" else V(k)
        ctx.count("keys")
        if not ctx.anchor(KEYS.get(k), "the name of the key %s" % k):
            continue
        simple(ctx, P, "INKEY", [], lambda p, _, k=k: ([("poll_key", ())], ("string", ("s", KEYS[k]))), dev=Device(P, key=V("Some", v)), shape=" when %s was pressed" % k)
    simple(ctx, P, "INKEY", [], lambda p, _: ([("poll_key", ())], ("string", ("s", ""))), dev=Device(P, key=V("None")), shape=" when no key was pressed")


GOOD = {"Boolean": [("YES", 1), ("tRue ", 1), ("n", 0), ("FALSE", 0)], "Integer": [("12", 12), ("-5  ", -5), ("2147483647", 2**31 - 1)], "Double": [("1.5", 1.5), ("-2 ", -2.0)],
        "Text": [("", ""), (" " + seg("p") + " \t", " " + seg("p")), ("12", "12")]}
WRONG = {"Boolean": ["", "1", "tru", "yesno"], "Integer": ["", "1.5", "2147483648", "x", "1 2"], "Double": ["", "x", "1,5"], "Text": []}


class Reader:
    """The answers of somebody at the console, and the variable that receives them."""

    def __init__(self, P, vtype, answers):
        self.P, self.vtype, self.answers = P, vtype, answers

    def hook(self, cl, a, st, ai, env):
        if cl.path.startswith("endbasic_core::callable::RegisterRefMut") and cl.name.startswith("set_"):
            v = ai.deep(a[1], env)
            st2 = st + (("set", cl.name[4:], v),)
            if cl.name == "set_string":
                return [(V("Ok", ("t", ())), st2), (V("Err", obj("heap error")), st + (("fail", "set_string"),))]
            return [(("t", ()), st2)]
        if cl.path.startswith("endbasic_std::console::readline::read_line") or cl.path == "endbasic_std::console::read_line":
            i = sum(1 for x in st if x[0] == "ask")
            st2 = st + (("ask", cl.name, tuple(ai.deep(x, env) for x in a[1:])),)
            if i >= len(self.answers):
                return [(traces.future(V("Err", ("v", "IoError", (V("UnexpectedEof"),)))), st2 + (("over",),))]
            x = self.answers[i]
            return [(traces.future(V("Ok", ("s", x)) if isinstance(x, str) else V("Err", ("v", "IoError", (V(x[0]),)))), st2)]
        if cl.name == "kind" and a:
            v = ai.deep(a[0], env)
            if v is not None and v[0] == "v" and v[1] == "IoError":
                return [(v[2][0], st)]
        for t in DEVICES:
            if trait_call(cl, t):
                args = tuple(ai.deep(x, env) for x in a[1:])
                return traces.outcomes(ai, cl, st, ("t", ()), st + (("dev", cl.name, args),), st + (("bad", cl.name, args),), obj("device error"))
        return None


def asking(ctx, P, B, names):
    """INPUT asks until the answer is a value of the variable's type and stores it."""
    if not seen(ctx, B, names, "INPUT"):
        return
    q = ("s", seg("p"))
    shapes = (("var", [], 0, ""), (" \"<p>\"; var", [immediate("Short", "Text"), ("string", q)], 1, q[1] + "? "), (" \"<p>\", var", [immediate("Long", "Text"), ("string", q)], 1, q[1]),
              (" ; var", [missing("Short")], 1, "? "), (" , var", [missing("Long")], 1, ""))
    ty, body = B["INPUT"]
    for shape, pre, _k, prompt in shapes:
        for vtype in ("Boolean", "Integer", "Double", "Text"):
            sets = [[a] for a, _ in GOOD[vtype]] + [[w, GOOD[vtype][0][0]] for w in WRONG[vtype]] + [[("InvalidData",), GOOD[vtype][0][0]], [("UnexpectedEof",)], [("Interrupted",)], [("Other",)]]
            if WRONG[vtype]:
                sets += [[WRONG[vtype][0], WRONG[vtype][-1], GOOD[vtype][0][0]], [WRONG[vtype][-1], ("Other",)], [WRONG[vtype][-1], ("InvalidData",), GOOD[vtype][0][0]]]
            for answers in sets:
                dev = Reader(P, vtype, answers)
                ref = struct(P, "endbasic_core::callable::RegisterRefMut", vtype=V(vtype))
                outs, over, t, _ = run_one(P, "INPUT", list(pre) + [("ref", ref)], {}, dev)
                ctx.count("dialogues")
                what = "INPUT%s of a %s variable answered with %s" % (shape, vtype.lower(), ", ".join(repr(x) if isinstance(x, str) else "an error (%s)" % x[0] for x in answers))
                key = "INPUT%s:%s" % (shape, vtype)
                good = dict(GOOD[vtype])
                want, prev = [], ""
                for a in answers:
                    want.append(("ask", prompt, prev))
                    if isinstance(a, str) and a in good:
                        want.append(("set", {"Text": "string"}.get(vtype, vtype.lower()), good[a]))
                        break
                    if isinstance(a, str):
                        prev = a
                    elif a[0] != "InvalidData":
                        break
                    want.append(("say",))
                fine = isinstance(answers[-1], str)
                if over or not outs or t.panics:
                    ctx.violation(key + ":summary", "%s cannot be summarised" % what, body)
                    break
                done = False
                for v, st, e in outs:
                    got = []
                    for x in st:
                        if x[0] == "ask":
                            ar = x[2]
                            got.append(("ask", ar[0][1] if ar[0] is not None and ar[0][0] == "s" else None, ar[1][1] if ar[1] is not None and ar[1][0] == "s" else None))
                        elif x[0] == "set":
                            got.append(("set", x[1], x[2][1] if x[2] is not None else None))
                        elif x[0] in ("dev", "bad"):
                            got.append(("say",) if x[1] == "print" else ("dev", x[1]))
                        elif x[0] == "fail":
                            pass
                        else:
                            got.append(x)
                    bad = any(x[0] in ("bad", "fail") for x in st)
                    res = v[1] if v is not None and v[0] == "v" else None
                    if bad:
                        # A failing console or store ends the command there
                        if res != "Err" or st[-1][0] not in ("bad", "fail") or got != want[:len(got)]:
                            ctx.violation(key + ":failure", "%s goes on or succeeds when the console fails" % what, body)
                            done = None
                            break
                        continue
                    if got != want or res != ("Ok" if fine else "Err"):
                        ctx.violation(key + ":dialogue", "%s %s after: %s; it should %s after: %s" % (
                            what, "succeeds" if res == "Ok" else "fails", spoken(got), "succeed" if fine else "fail", spoken(want)), body)
                        done = None
                        break
                    done = True
                if done is None:
                    break
                if not done:
                    ctx.violation(key + ":missing", "%s never %s" % (what, "succeeds" if fine else "fails"), body)
                    break


def spoken(evs):
    return ", ".join({"ask": lambda x: "ask %r with %r" % (strs.show(x[1]), strs.show(x[2])), "say": lambda x: "a message", "set": lambda x: "set the variable to %s" % (strs.show(x[2]) if isinstance(x[2], str) else x[2])}.get(x[0], str)(x) for x in evs)


def sounds(ctx, P, B, names):
    if seen(ctx, B, names, "BEEP"):
        simple(ctx, P, "BEEP", [], lambda p, _: ([("beep", ())], None))
    top = 2.0**64
    if seen(ctx, B, names, "SOUND"):
        def want(p, _):
            if p[0] <= 0 or not 0 <= p[1] < top:
                return FAIL
            parts = {"u32": c(p[0]), "core::time::Duration": ("v", "Duration", (c(p[1]),)), "endbasic_std::sound::Waveform": V("Square")}
            tone = ("v", "Tone", tuple(parts.get(str(f["ty"] if isinstance(f, dict) else f[1])) for f in fields(P, "endbasic_std::sound::Tone")))
            return [("play_tone", (tone,))], None
        simple(ctx, P, "SOUND", ["integer", "double"], want, base=(440, 1.5))
    if seen(ctx, B, names, "SLEEP"):
        simple(ctx, P, "SLEEP", ["double"], lambda p, _: FAIL if not 0 <= p[0] < top else ([("sleep", (("v", "Duration", (c(p[0]),)),))], None), base=(1.5,))
    if seen(ctx, B, names, "MONOTONIC"):
        simple(ctx, P, "MONOTONIC", [], lambda p, _: ([("monotonic", ())], ("double", c(NOW[("clock",)]))))


def pins(ctx, P, B, names):
    def pin(x):
        return ("v", "Pin", (c(x),))
    if seen(ctx, B, names, "GPIO_SETUP"):
        for text, mode in (("IN", "In"), ("in", "In"), ("In", "In"), ("OUT", "Out"), ("oUt", "Out"), ("IN-PULL-UP", "InPullUp"), ("in-pull-up", "InPullUp"), ("IN-PULL-DOWN", "InPullDown"), ("in-Pull-down", "InPullDown"),
                           ("", None), (" IN", None), ("INOUT", None), ("IN-PULL", None), ("UP", None), ("IN_PULL_UP", None), ("OUT ", None)):
            simple(ctx, P, "GPIO_SETUP", ["integer", "string"], lambda p, _, mode=mode: FAIL if not u8(p[0]) or mode is None else ([("setup", (pin(p[0]), V(mode)))], None),
                   consts={1: ("s", text)}, shape="(pin, \"%s\")" % text)
    if seen(ctx, B, names, "GPIO_CLEAR"):
        simple(ctx, P, "GPIO_CLEAR", [], lambda p, _: ([("clear_all", ())], None))
        simple(ctx, P, "GPIO_CLEAR", ["integer"], lambda p, _: FAIL if not u8(p[0]) else ([("clear", (pin(p[0]),))], None))
    if seen(ctx, B, names, "GPIO_READ"):
        simple(ctx, P, "GPIO_READ", ["integer"], lambda p, _: FAIL if not u8(p[0]) else ([("read", (pin(p[0]),))], ("boolean", ("sym", "b", "level"))))
    if seen(ctx, B, names, "GPIO_WRITE"):
        for b in (0, 1):
            simple(ctx, P, "GPIO_WRITE", ["integer", "boolean"], lambda p, _, b=b: FAIL if not u8(p[0]) else ([("write", (pin(p[0]), c(b)))], None), consts={1: c(b)}, shape="(pin, %s)" % bool(b))


def run(ctx):
    P = ctx.P
    ctx.rule("for every shape of its arguments a command asks the device for exactly what the table of its documentation says, with the arguments in their places, at the ends and within all ranges")
    ctx.rule("arguments out of range are rejected before anything is asked for, without panics")
    ctx.rule("a failure of the device ends the command and is reported")
    ctx.assume("the devices (console, pins, clock) do what they are asked for")
    B = builtins.builtins(P)
    names = set()
    drawing(ctx, P, B, names)
    colors(ctx, P, B, names)
    positions(ctx, P, B, names)
    printing(ctx, P, B, names)
    keys(ctx, P, B, names)
    asking(ctx, P, B, names)
    sounds(ctx, P, B, names)
    pins(ctx, P, B, names)
    ctx.floor("commands", 31)
    ctx.floor("summaries", 300)
    ctx.floor("points", 30000)
    ctx.floor("dialogues", 200)
    ctx.floor("keys", 18)
