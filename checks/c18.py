"""C18: a display behind a slow bus shows exactly what was drawn on it.

The frame buffer is interpreted over a display that remembers what it was sent, with pixels of opaque bytes.  From
every state that is reached every request follows; the buffer (as it can be read back) and the display are compared
with a model of both after each of them.  Every transfer to the display also fails once."""

import hashlib

import terms
from traces import obj, trait_call
from checks import c13, c14
from checks.c06 import V
from checks.c17 import RASTER, CRATE, PLACE, REF, UNIT, c, num, Bad, pick

LCD = CRATE + "::gfx::lcd::Lcd"
BYTES = CRATE + "::gfx::lcd::AsByteSlice"
SECOND = PLACE + 1
LOW, HIGH = -32768, 32767
CLASSES = 5


def looks(k):
    """Several colours look the same on the display."""
    return k // 3 % CLASSES


def rgb(k):
    return obj("rgb %s" % k)


class Display:
    def __init__(self, P, width, height, stride, gw, gh, per_row=1, only=None):
        self.only = only
        self.P, self.width, self.height, self.stride, self.gw, self.gh, self.per_row = P, width, height, stride, gw, gh, per_row
        self.all = frozenset((x, y) for x in range(width) for y in range(height))
        self.names = {n: next((a for a in P.adts if a.startswith(m) and a.endswith("::" + n)), None) for n, m in (
            ("PixelsXY", CRATE + "::console"), ("SizeInPixels", CRATE + "::console"), ("CharsXY", CRATE + "::console"),
            ("LcdXY", CRATE + "::gfx"), ("LcdSize", CRATE + "::gfx"), ("Font", CRATE + "::gfx"))}

    def make(self, type_, **kw):
        return c13.struct(self.P, self.names[type_], **{k: c(v) if isinstance(v, int) else v for k, v in kw.items()})

    def xy(self, x, y):
        return self.make("PixelsXY", x=x, y=y)

    def size(self, w, h):
        return self.make("SizeInPixels", width=w, height=h)

    def pixel(self, color):
        """The bytes of a pixel.  New buffers are made of zeros."""
        return tuple(c(0) if color == 0 else obj("%s.%d" % (color, i)) for i in range(self.stride))

    def rows(self, bytes_, width):
        s = self.stride
        px = [tuple(bytes_[i:i + s]) for i in range(0, len(bytes_), s)]
        return tuple(tuple(px[i:i + width]) for i in range(0, len(px), width))

    def bits(self, ch):
        """The rows of the glyph of a character."""
        k = ord(ch) if " " <= ch <= "~" else ord("?")
        return [[(k * 7 + j * 13 + i * 5) & 0xff for i in range(self.per_row)] for j in range(self.gh)]

    def font(self):
        data = tuple(c(b) for k in range(32, 127) for row in self.bits(chr(k)) for b in row)
        return self.make("Font", name=("s", "font"), glyph_size=self.make("LcdSize", width=self.gw, height=self.gh), stride=self.per_row, data=("vec", data))

    def text(self, x, y, text):
        """The pixels of a text."""
        out = set()
        for n, ch in enumerate(text):
            for j, row in enumerate(self.bits(ch)):
                for i in range(self.gw):
                    if row[i // 8] & (0x80 >> i % 8):
                        out.add((x + n * self.gw + i, y + j))
        return out & self.all

    def rect(self, x, y, w, h):
        return {(i, j) for i in range(max(x, 0), min(x + w, self.width)) for j in range(max(y, 0), min(y + h, self.height))}


class Run:
    """One request.  The state: (what the display shows, whether a transfer failed)."""

    def __init__(self, D, methods, fail=True):
        self.D, self.methods, self.problems, self.fail, self.steps = D, methods, [], fail, 0

    def bad(self, key, text):
        if (key, text) not in self.problems:
            self.problems.append((key, text))

    def hook(self, cl, a, st, ai, env):
        D = self.D
        self.steps += 1
        if self.steps > 100000:
            self.bad("engine", "does more than can be analysed")
            return []
        if cl.name == "from_residual" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] == "Err":
            return [(V("Err", *[ai.deep(x, env) for x in a[0][2]]), st)]
        if cl.path.startswith(CRATE) and cl.name == "ansi_color_to_rgb" and len(a) == 1:
            v = ai.deep(a[0], env)
            return [(rgb(looks(v[1])) if v is not None and v[0] == "c" else None, st)]
        if trait_call(cl, LCD):
            args = [ai.deep(x, env) for x in a[1:]]
            if cl.name == "info":
                return [(("t", (D.make("LcdSize", width=D.width, height=D.height), c(D.stride))), st)]
            if cl.name == "encode":
                v = args[0]
                if v is not None and v[0] == "sym":
                    return [(V("Pixel!", v), st)]
                return [(V("Pixel!", obj("rgb other")), st)]
            if cl.name == "set_data":
                shown, failed = st
                if failed:
                    self.bad("failure", "goes on after a transfer failed")
                    return []
                try:
                    f = [x[0] for x in D.P.adts[D.names["LcdXY"]]["variants"][0]["fields"]]
                    if any(x is None or x[0] != "v" for x in args[:2]) or args[2] is None or args[2][0] != "vec":
                        raise Bad("unknown", "sends an area that is not known")
                    (x1, y1), (x2, y2) = ([num(v[2][f.index(k)]) for k in ("x", "y")] for v in args[:2])
                    if not (0 <= x1 <= x2 < D.width and 0 <= y1 <= y2 < D.height):
                        raise Bad("area", "sends an area that is not within the display")
                    if len(args[2][1]) != (x2 - x1 + 1) * (y2 - y1 + 1) * D.stride:
                        raise Bad("length", "sends data that does not fit its area")
                except Bad as e:
                    self.bad(*e.args)
                    return []
                data = D.rows(args[2][1], x2 - x1 + 1)
                new = tuple(tuple(data[j - y1][i - x1] if x1 <= i <= x2 and y1 <= j <= y2 else p for i, p in enumerate(row)) for j, row in enumerate(shown))
                return [(V("Ok", UNIT), (new, failed))] + ([(V("Err", obj("bus error")), (shown, True))] if self.fail else [])
            return None
        if trait_call(cl, BYTES) and cl.name == "as_slice":
            v = ai.deep(a[0], env)
            if v is not None and v[:2] == ("v", "Pixel!"):
                k = v[2][0][2][4:]
                return [(("vec", D.pixel(int(k) if k.isdigit() else k)), st)]
            return [(None, st)]
        if trait_call(cl, RASTER) and not (cl.resolved and cl.resolved in ai.prog.raw) and cl.name in self.methods:
            return [(x, s, e) for x, e, s, su in ai.enter(self.methods[cl.name], list(a), env, st, True)]
        if cl.name in ("index_mut", "index") and len(a) == 2:
            v, r = ai.deep(a[0], env), ai.deep(a[1], env)
            n = len(v[1]) if v is not None and v[0] == "vec" else None
            if n is not None and r is not None and r[0] == "v" and r[1] in ("Range", "RangeFrom", "RangeTo", "RangeInclusive") and all(x is not None and x[0] == "c" for x in r[2][:2]):
                lo = r[2][0][1] if r[1] != "RangeTo" else 0
                hi = n if r[1] == "RangeFrom" else r[2][0][1] if r[1] == "RangeTo" else r[2][1][1] + int(r[1] == "RangeInclusive")
                if not 0 <= lo <= hi <= n:
                    self.bad("panic", "uses memory beyond its buffer")
                    return []
                if cl.name == "index":
                    return [(("vec", v[1][lo:hi]), st)]
                ref = self.place(a[0], ai, env)
                return [(V("Part!", ref, c(lo), c(hi)), st)] if ref is not None else None
            if n is not None and r is not None and r[0] == "c" and not 0 <= r[1] < n:
                self.bad("panic", "uses memory beyond its buffer")
                return []
        if a and cl.name in ("copy_from_slice", "clone_from_slice", "fill"):
            part = ai.deref(a[0], env) if a[0] is not None and a[0][0] == "ref" else a[0]
            if part is not None and part[:2] == ("v", "Part!"):
                ref, lo, hi = part[2][0], part[2][1][1], part[2][2][1]
            else:
                ref, lo, hi = self.place(a[0], ai, env), 0, None
            v = ai.deep(ref, env) if ref is not None else None
            d = ai.deep(a[1], env)
            if v is not None and v[0] == "vec":
                hi = len(v[1]) if hi is None else hi
                data = (d,) * (hi - lo) if cl.name == "fill" else d[1] if d is not None and d[0] == "vec" else None
                if data is not None:
                    if len(data) != hi - lo:
                        self.bad("panic", "copies data of another length")
                        return []
                    import json
                    env = dict(env)
                    ai.write([ref[1], json.loads(ref[2])], ("vec", v[1][:lo] + tuple(data) + v[1][hi:]), env)
                    return [(UNIT, st, env)]
        return None

    def place(self, r, ai, env):
        import json
        while r is not None and r[0] == "ref":
            v = ai.read([r[1], json.loads(r[2])], env)
            if v is None or v[0] != "ref":
                return r
            r = v
        return None


class Model:
    """What is expected: what was drawn, what the display shows, the pixels it must be sent with the next
    presentation, the colour, presentation at once."""

    def __init__(self, fb, shown, pending=frozenset(), color="other", sync=True):
        self.fb, self.shown, self.pending, self.color, self.sync = fb, shown, pending, color, sync

    def copy(self, **kw):
        m = Model(*self.key())
        m.__dict__.update(kw)
        return m

    def key(self):
        return (self.fb, self.shown, self.pending, self.color, self.sync)

    def put(self, D, pixels, color=None):
        """Draw: `pixels` is a set of places, or a mapping of them to pixels."""
        p = D.pixel(self.color if color is None else color)
        get = pixels.get if isinstance(pixels, dict) else lambda at: p
        fb = tuple(tuple(get((i, j)) if (i, j) in pixels else x for i, x in enumerate(row)) for j, row in enumerate(self.fb))
        return self.copy(fb=fb, touched=frozenset(pixels))


def expected(D, before, after, shown):
    """Compares the display after a request, and settles the model.  -> (problem or None, model)"""
    touched = after.__dict__.get("touched", frozenset())
    presented = after.__dict__.get("presented", False)
    after = after.copy()
    pending = set(after.pending)
    problem = None
    for x, y in D.all:
        old, new, now = before.shown[y][x], after.fb[y][x], shown[y][x]
        at = (x, y)
        must = at in touched and before.sync or presented and at in pending and not before.sync
        may = before.sync or presented
        if must and now != new:
            problem = "does not show all of what was drawn"
        elif not must and now != old and not (may and now == new):
            problem = "changes the display where nothing is to be shown" if problem is None else problem
        if now == new:
            if must or before.sync:
                pending.discard(at)
        if at in touched and not before.sync:
            pending.add(at)
    return problem, after.copy(shown=shown, pending=frozenset(pending))


def requests(D, m):
    """(method, arguments, memory, model afterwards, value)"""
    W, H = D.width, D.height
    for k in (0, 2, "other"):
        yield "set_draw_color", (rgb(k),), m.copy(color=k), None
    yield "clear", (), m.put(D, D.all), UNIT
    for x, y in ((0, 0), (W - 1, H - 1), (1, H - 1), (-1, 0), (0, -1), (W, 0), (0, H), (LOW, 1), (1, HIGH)):
        yield "draw_pixel", (D.xy(x, y),), m.put(D, D.rect(x, y, 1, 1)), UNIT
    for x, y, w, h in ((0, 0, W, H), (1, 1, 1, 1), (1, 0, 2, 2), (W - 1, H - 2, 5, 5), (-1, -1, 2, 3), (-3, 1, 3, 1), (1, -2, 1, 2), (W, 0, 2, 2), (0, H, 2, 2), (W + 3, 1, 1, 1), (0, H + 7, W, 1),
                       (LOW, LOW, 65535, 65535), (HIGH, 0, 65535, 1), (LOW, 0, 32768, 2), (LOW, 1, 32769, 1)):
        yield "draw_rect_filled", (D.xy(x, y), D.size(w, h)), m.put(D, D.rect(x, y, w, h)), UNIT
    for x1, y1, x2, y2, w, h in ((0, 0, 1, 1, 2, 1), (0, 0, W - 1, H - 1, 1, 1), (1, 0, 0, 0, W - 1, H), (0, 0, 0, 1, W, H - 1)):
        data = {(x2 + i, y2 + j): m.fb[y1 + j][x1 + i] for i in range(w) for j in range(h)}
        yield "put_pixels", (D.xy(x1, y1), D.size(w, h), D.xy(x2, y2)), m.put(D, data), UNIT
        gone = {at: D.pixel(m.color) for at in D.rect(x1, y1, w, h)}
        gone.update(data)
        yield "move_pixels", (D.xy(x1, y1), D.xy(x2, y2), D.size(w, h)), m.put(D, gone), UNIT
    for t, x, y in (("", 0, 0), ("a", 0, 0), ("bc", 1, 1), ("\x7f", 0, H - 1), ("d", -1, -1), ("e\u20ac", W - 1, 0), ("f", W, H)):
        yield "write_text", (D.xy(x, y), ("s", t)), m.put(D, D.text(x, y, t)), UNIT
    for x, y in ((0, 0), (W - 1, H - 1), (1, 1), (-1, 0), (W, 0), (0, H), (0, LOW), (HIGH, 0)):
        k = next((k for k in range(256) if (x, y) in D.all and D.pixel(looks(k)) == m.fb[y][x]), None)
        yield "peek_pixel", (D.xy(x, y),), m, c13.some(c(k) if k is not None else None)
    yield "set_sync", (c(0),), m.copy(sync=False), None
    yield "set_sync", (c(1),), m.copy(sync=True), None
    p = m.copy()
    if not m.sync:
        p.__dict__["presented"] = True
    yield "present_canvas", (), p, UNIT


def call(D, methods, name, me, args, shown, fail=True):
    r = Run(D, methods, fail)
    env = {1: REF, PLACE: me}
    for i, v in enumerate(args):
        env[2 + i] = v
        if str(methods[name].locals[2 + i]).startswith("&") and v[0] != "s":
            env[SECOND + i], env[2 + i] = v, ("ref", SECOND + i, "[]")
    outs, dead, over, t = terms.run_text(D.P, methods[name], r.hook, pick, (shown, False), env, 400000)
    if over or not outs and not r.problems and not t.panics:
        r.bad("engine", "is too complex to analyse")
    if t.panics:
        r.bad("panic", "may panic")
    return r, [(v, st, next((e[k] for k in (PLACE, PLACE - 1000000) if k in e), None)) for v, st, e in outs]


def read(D, methods, me, x, y, w, h, shown, r):
    """What reading an area back gives, or None."""
    r2, outs = call(D, methods, "read_pixels", me, (D.xy(x, y), D.size(w, h)), shown)
    for k, t in r2.problems:
        r.bad(k, "leaves a display that cannot be read: it " + t)
    if len(outs) != 1 or outs[0][0] is None or outs[0][0][1] != "Ok" or outs[0][1][0] != shown:
        r.bad("read", "leaves a display that cannot be read")
        return None
    return outs[0][0][2][0]


def pixels(D, methods, me, shown, r):
    v = read(D, methods, me, 0, 0, D.width, D.height, shown, r)
    data = None

    def find(v):
        nonlocal data
        if v is not None and v[0] == "vec":
            data = v[1]
        elif v is not None and v[0] in ("v", "t"):
            for x in v[2] if v[0] == "v" else v[1]:
                find(x)
    find(v)
    if data is None:
        return None
    return D.rows(data, D.width)


def step(D, methods, me, m, name, args, want, value):
    if name == "put_pixels":
        r = Run(D, methods)
        data = read(D, methods, me, num(args[0][2][0]), num(args[0][2][1]), num(args[1][2][0]), num(args[1][2][1]), m.shown, r)
        if data is None:
            return r.problems, None
        args = (args[2], data)
    r, outs = call(D, methods, name, me, args, m.shown)
    after = None
    for v, (shown, failed), me2 in outs:
        fails = v is not None and v[0] == "v" and v[1] == "Err"
        if failed:
            if not fails:
                r.bad("failure", "does not report that the transfer failed")
            # The next thing drawn appears as usual.
            probe(D, methods, me2, m, shown, r)
            continue
        if fails or value is not None and (v is None or v[:2] != ("v", "Ok")):
            r.bad("rejects", "fails although the display did not")
            continue
        if value is not None and v[2][0] != value:
            r.bad("value", "gives back something else than it documents")
        problem, settled = expected(D, m, want, shown)
        if problem:
            r.bad("shown", problem)
        got = pixels(D, methods, me2, shown, r)
        if got is not None and got != want.fb:
            r.bad("drawn", "draws something else than it documents")
        if after is not None and after != (me2, settled.key()):
            r.bad("engine", "has more than one outcome")
        after = (me2, settled.key())
    if after is None and not r.problems:
        r.bad("rejects", "cannot be done")
    return r.problems, after


def probe(D, methods, me, m, shown, r):
    """After a failure, clearing the display works as always."""
    names = ["clear"] if m.sync else ["clear", "present_canvas"]
    for name in names:
        r2, outs = call(D, methods, name, me, (), shown, fail=False)
        if len(outs) != 1 or r2.problems:
            r.bad("failure", "leaves a display that cannot be used any more when a transfer fails")
            return
        if name == "clear" and not m.sync and outs[0][1][0] != shown:
            r.bad("failure", "presents what is drawn at once after a transfer failed although it is not to be")
        v, (shown, _), me = outs[0]
    if any(p != D.pixel(m.color) for row in shown for p in row):
        r.bad("failure", "does not show what is drawn after a transfer failed")


def expand(D, methods, state):
    me, key = state
    m = Model(*key)
    problems, following, count = [], [], 0
    for name, args, want, value in requests(D, m):
        if D.only and name not in D.only:
            continue
        count += 1
        p, after = step(D, methods, me, m, name, args, want, value)
        if not p and after is not None and not after[1][-1] and after[1][2]:
            # What is pending is shown when that is asked for.
            last = Model(*after[1])
            shown = last.copy()
            shown.__dict__["presented"] = True
            p, _ = step(D, methods, after[0], last, "present_canvas", (), shown, UNIT)
            p = [(k, "is followed by a presentation that " + text) for k, text in p]
        problems += [(name, k, text) for k, text in p]
        if not p and after is not None:
            following.append(after)
    return problems, following, count


def digest(s):
    return hashlib.md5(repr((s[0], s[1][:2], sorted(s[1][2]), s[1][3:])).encode()).hexdigest()


def explore(plan, methods, new):
    """All sequences of requests of a length: [(display, length)].  -> [(display, problems, states, requests)]"""
    out, levels = [], []
    for D, depth in plan:
        dust = ((obj("dust"),) * D.width,) * D.height
        r = Run(D, methods)
        outs, dead, over, t = terms.run_text(D.P, new, r.hook, pick, (dust, False), {1: obj("lcd"), 2: D.font()}, 100000)
        start = None
        if over or len(outs) != 1 or t.panics or outs[0][0] is None or outs[0][1] != (dust, False):
            r.bad("engine", "cannot be created")
        else:
            m = Model(((D.pixel(0),) * D.width,) * D.height, dust)
            start = (outs[0][0], m.key())
        level = []
        if start:
            p, later = step(D, methods, start[0], m, "set_sync", (c(0),), m.copy(sync=False), None)
            r.problems += p
            level = [start] + [later] * (later is not None)
        out.append([D, [("new",) + p for p in r.problems], set(map(digest, level)), 0])
        levels.append(level)
    for d in range(max(depth for D, depth in plan)):
        todo = [(i, s) for i, level in enumerate(levels) if d < plan[i][1] and len(out[i][1]) <= 5 for s in level]
        levels = [[] for D in plan]
        for i, (problems, following, count) in c14.parallel(lambda t: (t[0], expand(plan[t[0]][0], methods, t[1])), todo):
            out[i][1].extend(problems)
            out[i][3] += count
            for s in following:
                if digest(s) not in out[i][2]:
                    out[i][2].add(digest(s))
                    levels[i].append(s)
    return out


def displays(P):
    """The frame buffers for displays: [(type, {method: body}, what creates it)]."""
    found = {}
    for b in P.bodies(crates={CRATE}, kinds=("method",)):
        if (b.impl_trait or "").split("<")[0] == RASTER:
            found.setdefault(b.impl_self, {})[b.name] = b
    out = []
    for me, m in sorted(found.items()):
        if not any(trait_call(x, LCD) for i in P.closure_reach([m[k].id for k in ("clear",) if k in m]) if P.body(i) is not None for x in P.body(i).calls()):
            continue
        new = [b for b in P.bodies(crates={CRATE}, kinds=("method",)) if b.impl_self == me and not b.impl_trait and b.argc == 2 and any("Font" in str(b.locals[i]) for i in (1, 2)) and "L" in [str(b.locals[i]) for i in (1, 2)]]
        out.append((me, m, new[0] if len(new) == 1 else None))
    return out


def plan(P, thorough):
    more = int(thorough)
    return [(Display(P, 4, 3, 2, 2, 2), 2 + more), (Display(P, 3, 4, 3, 3, 2), 1 + more),
            (Display(P, 18, 3, 1, 16, 2, 2, ("write_text", "set_draw_color", "set_sync", "present_canvas", "clear")), 1 + more)]


# -- shapes ----------------------------------------------------------------------------------

SIZE = 9


def draw(D, methods, start, name, args, r):
    """The places where a shape appears on an empty display."""
    m = Model(((D.pixel(0),) * D.width,) * D.height, ((D.pixel(0),) * D.width,) * D.height)
    r2, outs = call(D, methods, name, start, args, m.shown, fail=False)
    for k, t in r2.problems:
        r.bad(k, t)
    good = [x for x in outs if x[0] is not None and x[0][:2] == ("v", "Ok")]
    if len(good) != 1 or len(outs) != 1:
        r.bad("rejects", "fails although the display did not")
        return None
    v, (shown, _), me = good[0]
    ink = D.pixel("other")
    if any(p not in (ink, D.pixel(0)) for row in shown for p in row):
        r.bad("shape", "draws in another colour than asked for")
        return None
    return frozenset((x, y) for x, y in D.all if shown[y][x] == ink)


def check_line(D, p, q, got):
    (x1, y1), (x2, y2) = p, q
    steep = abs(y2 - y1) > abs(x2 - x1)
    if steep:
        x1, y1, x2, y2 = y1, x1, y2, x2
    if x1 > x2:
        x1, y1, x2, y2 = x2, y2, x1, y1
    rest = set(got)
    for x in range(x1, x2 + 1):
        n, d = (y2 - y1) * (x - x1), max(x2 - x1, 1)
        near = [(x, y1 + k) for k in {(2 * n + d) // (2 * d), -((d - 2 * n) // (2 * d))}]
        near = [(b, a) if steep else (a, b) for a, b in near]
        hit = [at for at in near if at in rest]
        if len(hit) > 1 or not hit and all(at in D.all for at in near):
            return False
        rest -= set(hit)
    return not rest


def check_circle(D, x, y, radius, got):
    if radius < 2:
        return got == (frozenset([(x, y)]) & D.all if radius else frozenset())
    n = radius - 1
    ring = {(i - x, j - y) for i, j in got}
    # Complete circles only: each eighth is like the others, without gaps, close to the ideal.
    if not all(t in ring for i, j in ring for t in ((i, j), (j, i), (-i, j), (i, -j))):
        return False
    if any(abs((i * i + j * j) ** 0.5 - n) > 1.0 + 1e-9 for i, j in ring):
        return False
    return all(any((i, j) in ring for j in range(-n, n + 1)) for i in range(-n, n + 1))


def inside(points, x, y):
    """Whether a place is within a polygon: 1 inside, 0 on its border, -1 outside."""
    odd = False
    for (x1, y1), (x2, y2) in zip(points, points[1:] + points[:1]):
        cross = (x2 - x1) * (y - y1) - (y2 - y1) * (x - x1)
        if cross == 0 and min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
            return 0
        if (y1 > y) != (y2 > y) and (cross > 0) == (y2 > y1):
            odd = not odd
    return 1 if odd else -1


def polygons():
    yield from (((1, 1), (7, 1), (4, 6)), ((4, 0), (0, 7), (8, 8)), ((7, 2), (1, 7), (0, 0)), ((2, 2), (2, 7), (7, 2)), ((3, 3), (6, 3), (1, 3)), ((-4, 1), (12, 4), (2, 13)),
                ((1, 1), (7, 1), (7, 6), (1, 6)), ((4, 0), (8, 4), (4, 8), (0, 4)), ((0, 0), (8, 0), (8, 8), (4, 3), (0, 8)), ((1, 0), (7, 0), (7, 7), (5, 7), (5, 2), (3, 2), (3, 7), (1, 7)),
                ((5, 7), (5, 2), (3, 2), (3, 7), (1, 7), (1, 0), (7, 0), (7, 7)), ((0, 8), (2, 0), (4, 6), (6, 0), (8, 8)),
                ((0, 2), (3, -3), (11, 5), (6, 10), (2, 7)), ((5, 5), (5, 5), (5, 5)), ((1, 6), (1, 1), (1, 4)))


def shapes(D):
    """(method, arguments, what is known of the shape)"""
    ends = range(-2, SIZE + 2)
    for p, others in (((4, 4), [(x, y) for x in ends for y in ends]), ((0, 0), [(x, y) for x in range(SIZE) for y in range(SIZE)]), ((-3, 2), [(11, y) for y in range(-6, 14, 2)]), ((5, 11), [(x, -4) for x in range(-6, 14, 2)])):
        for q in others:
            yield "draw_line", (D.xy(*p), D.xy(*q)), (p, q)
            if (q[0] + q[1]) % 3 == 0:
                yield "draw_line", (D.xy(*q), D.xy(*p)), (q, p)
    for x, y, w, h in ((0, 0, SIZE, SIZE), (1, 2, 5, 3), (2, 2, 1, 1), (2, 2, 2, 2), (3, 1, 1, 6), (1, 3, 6, 1), (-2, -3, 6, 8), (5, 6, 9, 9), (-1, -1, 11, 11), (9, 2, 3, 3), (2, -7, 3, 3)):
        yield "draw_rect", (D.xy(x, y), D.size(w, h)), (x, y, w, h)
    for radius in range(0, 6):
        yield "draw_circle", (D.xy(4, 4), c(radius)), (4, 4, radius)
        yield "draw_circle_filled", (D.xy(4, 4), c(radius)), (4, 4, radius)
    for x, y, radius in ((0, 0, 4), (9, 9, 5), (-2, 4, 6), (4, 12, 7)):
        yield "draw_circle", (D.xy(x, y), c(radius)), (x, y, radius)
        yield "draw_circle_filled", (D.xy(x, y), c(radius)), (x, y, radius)
    for points in polygons():
        for k in ("", "_filled"):
            if len(points) == 3:
                yield "draw_tri" + k, tuple(D.xy(*p) for p in points), points
            yield "draw_poly" + k, (("vec", tuple(D.xy(*p) for p in points)),), points


def check_shape(D, big, methods, start, name, args, about, got, r):
    """`big`: a display on which all of a circle can be seen, and where to begin with it."""
    def other(*a):
        return draw(D, methods, start, *a, r)
    if name == "draw_line":
        return check_line(D, *about, got)
    if name == "draw_rect":
        x, y, w, h = about
        return got == (D.rect(x, y, w, h) - D.rect(x + 1, y + 1, w - 2, h - 2))
    if name.startswith("draw_circle"):
        x, y, radius = about
        B, first = big
        ring = draw(B, methods, first, "draw_circle", (B.xy(8, 8), c(radius)), r)
        if ring is None or not check_circle(B, 8, 8, radius, ring):
            return False
        want = {(i - 8 + x, j - 8 + y) for i, j in ring}
        if name == "draw_circle_filled":
            want |= {(i, j) for i in range(x - 8, x + 8) for j in range(y - 8, y + 8) if any(p[0] == i and p[1] >= j for p in want) and any(p[0] == i and p[1] <= j for p in want)}
        return got == want & D.all
    edges = [other("draw_line", (D.xy(*p), D.xy(*q))) for p, q in zip(about, about[1:] + about[:1])]
    if None in edges:
        return False
    border = frozenset().union(*edges)
    if not name.endswith("_filled"):
        return got == border
    for at in D.all:
        if at in border:
            if at not in got:
                return False
        elif inside(about, *at) == 1:
            if at not in got:
                return False
        elif at in got and all(inside(about, at[0] + k / 8, at[1]) == -1 for k in range(-7, 8)):
            return False
    return True


def create(D, methods, new):
    """A display of which all is known, with an empty buffer, that draws in a colour of its own."""
    r = Run(D, methods)
    empty = ((D.pixel(0),) * D.width,) * D.height
    outs, dead, over, t = terms.run_text(D.P, new, r.hook, pick, (empty, False), {1: obj("lcd"), 2: D.font()}, 100000)
    if len(outs) != 1:
        return None
    r, outs = call(D, methods, "set_draw_color", outs[0][0], (rgb("other"),), empty)
    return outs[0][2] if len(outs) == 1 else None


def run_shapes(ctx, P, methods, new):
    D = Display(P, SIZE, SIZE, 1, 2, 2)
    B = Display(P, 17, 17, 1, 2, 2)
    start, big = create(D, methods, new), create(B, methods, new)
    if start is None or big is None:
        ctx.violation("shapes:engine", "the frame buffer cannot be created", new)
        return
    todo = [x for x in shapes(D) if x[0] in methods]

    def one(x):
        name, args, about = x
        r = Run(D, methods, False)
        got = draw(D, methods, start, name, args, r)
        if got is not None and not r.problems and not check_shape(D, (B, big), methods, start, name, args, about, got, r):
            r.bad("shape", "draws another shape than asked for, with %s" % (about,))
        return name, r.problems
    reported = set()
    for name, problems in c14.parallel(one, todo):
        ctx.count("shapes")
        for k, text in problems:
            if (name, k) not in reported:
                reported.add((name, k))
                ctx.violation("%s:%s" % (name, k), "`%s` of a display %s" % (name, text), methods[name])


def run(ctx):
    P = ctx.P
    found = displays(P)
    if not ctx.anchor(found, "the frame buffer of displays"):
        return
    for me, m, new in found:
        if not ctx.anchor(new, "what creates the frame buffer"):
            continue
        reported = set()
        for D, problems, states, count in explore(plan(P, ctx.tier == "thorough"), m, new):
            ctx.count("states", len(states))
            ctx.count("requests", count)
            for name, key, text in problems:
                if (name, key) in reported:
                    continue
                reported.add((name, key))
                ctx.violation("%s:%s" % (name, key), "`%s` of a display of %d by %d pixels %s" % (name, D.width, D.height, text), m.get(name, new))
        run_shapes(ctx, P, m, new)
    for kind, least in (("states", 300), ("requests", 1500), ("shapes", 300)):
        ctx.floor(kind, least)
