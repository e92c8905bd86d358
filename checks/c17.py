"""C17: a graphical console shows what was written to it.

The console is interpreted over a surface whose pixels remember what was drawn on them: the part of which unknown
character, in which colour, over what.  From every state that is reached, every request follows; the surface is
compared with a model of the text after each of them."""

import strs
import terms
import traces
from strs import seg
from traces import obj, trait_call
from checks import c13, c14
from checks.c06 import V
from checks.c15 import CONSOLE

MODULE = CONSOLE.rsplit("::", 1)[0]
RASTER = MODULE + "::graphics::RasterOps"
CRATE = "endbasic_std"
PLACE = 92000
REF = ("ref", PLACE, "[]")
UNIT = ("t", ())
ALL = ("clear", "draw_circle", "draw_circle_filled", "draw_line", "draw_pixel", "draw_poly", "draw_poly_filled", "draw_rect", "draw_rect_filled", "draw_tri", "draw_tri_filled")


def c(x):
    return ("c", x)


def num(v):
    if v is None or v[0] != "c":
        raise Bad("unknown", "draws at a place that is not known")
    return v[1]


class Bad(Exception):
    pass


class Surface:
    """Pixels as the backends of the console keep them."""

    def __init__(self, P, width, height, gw, gh):
        self.P, self.width, self.height, self.gw, self.gh = P, width, height, gw, gh
        self.columns, self.rows = width // gw, height // gh
        self.fs = {}
        self.names = {n: next((a for a in P.adts if a.startswith(MODULE) and a.endswith("::" + n)), None) for n in ("PixelsXY", "SizeInPixels", "CharsXY")}

    def fields(self, v, name, *keys):
        if v is None or v[0] != "v" or self.names[name] is None:
            raise Bad("unknown", "draws at a place that is not known")
        fs = [f[0] for f in self.P.adts[self.names[name]]["variants"][0]["fields"]]
        return [num(v[2][fs.index(k)]) for k in keys]

    def xy(self, v):
        return self.fields(v, "PixelsXY", "x", "y")

    def size(self, v):
        return self.fields(v, "SizeInPixels", "width", "height")

    def make(self, name, **kw):
        return c13.struct(self.P, self.names[name], **{k: c(v) for k, v in kw.items()})

    def blank(self, color):
        return ((color,) * self.width,) * self.height

    def fill(self, px, x, y, w, h, color):
        return tuple(tuple(color if x <= i < x + w and y <= j < y + h else p for i, p in enumerate(row)) if y <= j < y + h else row for j, row in enumerate(px))

    def area(self, px, x, y, w, h):
        return tuple(tuple(px[j][i] if 0 <= j < self.height and 0 <= i < self.width else None for i in range(x, x + w)) for j in range(y, y + h))

    def paste(self, px, x, y, data):
        rows = [list(r) for r in px]
        for j, row in enumerate(data):
            for i, p in enumerate(row):
                if p is not None and 0 <= y + j < self.height and 0 <= x + i < self.width:
                    rows[y + j][x + i] = p
        return tuple(tuple(r) for r in rows)

    def text(self, px, x, y, text, color):
        rows = [list(r) for r in px]
        for k, ch in enumerate(text):
            if ch == " ":
                continue
            for dx in range(self.gw):
                for dy in range(self.gh):
                    i, j = x + k * self.gw + dx, y + dy
                    if 0 <= i < self.width and 0 <= j < self.height:
                        rows[j][i] = ("glyph", ch, dx, dy, color, rows[j][i])
        return tuple(tuple(r) for r in rows)


class Run:
    """One request.  The state: (surface, what is presented, drawing colour, failed, drawn, automatic presentation)."""

    def __init__(self, S, picture=None, like=None):
        self.S, self.problems = S, []
        self.picture, self.like, self.asked = picture, like or {}, 0

    def bad(self, key, text):
        if (key, text) not in self.problems:
            self.problems.append((key, text))

    def hook(self, cl, a, st, ai, env):
        S = self.S
        if cl.name == "from_residual" and len(a) == 1 and a[0] is not None and a[0][0] == "v" and a[0][1] == "Err":
            return [(V("Err", *[ai.deep(x, env) for x in a[0][2]]), st)]
        if cl.path.startswith(CRATE) and cl.name == "ansi_color_to_rgb" and len(a) == 1:
            v = ai.deep(a[0], env)
            return [(obj("color %d" % v[1]) if v is not None and v[0] == "c" else None, st)]
        if not trait_call(cl, RASTER):
            return None
        name = cl.name
        args = [ai.deep(x, env) for x in a[1:]]
        px, shown, color, failed, drawn, auto = st

        def give(value=UNIT, px=px, shown=shown, drawn=drawn):
            return [(V("Ok", value), (px, shown, color, failed, drawn, auto)), (V("Err", obj("backend error")), (px, shown, color, name, drawn, auto))]
        try:
            if name == "get_info":
                info = next(x for x in S.P.adts if x.endswith("::RasterInfo"))
                return [(c13.struct(S.P, info, size_pixels=S.make("SizeInPixels", width=S.width, height=S.height), glyph_size=S.make("SizeInPixels", width=S.gw, height=S.gh),
                                    size_chars=S.make("CharsXY", x=S.columns, y=S.rows)), st)]
            if failed and name not in ("set_sync", "set_draw_color"):
                self.bad("failure", "keeps drawing after `%s` failed" % failed)
                return []
            if name == "set_draw_color":
                return [(UNIT, (px, shown, args[0], failed, drawn, auto))]
            if name == "set_sync":
                return [(UNIT, (px, shown, color, failed, drawn, args[0]))]
            if name == "present_canvas":
                return give(shown=px)
            if name == "clear":
                return give(px=S.blank(color))
            if name == "read_pixels":
                x, y = S.xy(args[0])
                w, h = S.size(args[1])
                return give(value=V("Pixels!", ("pixels", S.area(px, x, y, w, h))))
            if name == "put_pixels":
                x, y = S.xy(args[0])
                if args[1] is None or args[1][:2] != ("v", "Pixels!"):
                    raise Bad("unknown", "puts back pixels that it did not read")
                return give(px=S.paste(px, x, y, args[1][2][0][1]))
            if name == "move_pixels":
                x1, y1 = S.xy(args[0])
                x2, y2 = S.xy(args[1])
                w, h = S.size(args[2])
                if min(x1, y1, x2, y2) < 0 or x1 + w > S.width or y1 + h > S.height:
                    raise Bad("unknown", "moves pixels from outside of the screen")
                return give(px=S.paste(S.fill(px, x1, y1, w, h, color), x2, y2, S.area(px, x1, y1, w, h)))
            if name == "write_text":
                x, y = S.xy(args[0])
                if args[1] is None or args[1][0] != "s":
                    raise Bad("unknown", "writes an unknown text")
                if any(ord(ch) < 32 or 127 <= ord(ch) < 160 for ch in args[1][1]):
                    self.bad("control", "passes control characters on to the screen")
                return give(px=S.text(px, x, y, args[1][1], color))
            if name == "draw_rect_filled" and drawn is None:
                x, y = S.xy(args[0])
                w, h = S.size(args[1])
                return give(px=S.fill(px, x, y, w, h, color))
            if name == "peek_pixel" and drawn is not None and self.picture is not None:
                self.asked += 1
                if self.asked > 4000:
                    self.bad("endless", "does not come to an end")
                    return []
                k = self.seen(drawn).get(tuple(S.xy(args[0])))
                return give(value=c13.some(c(k) if k is not None else None))
            if name.startswith("draw_") and drawn is not None:
                return give(px=px, drawn=drawn + ((name, tuple(args), color, shown == "stale"),), shown="stale")
        except Bad as e:
            self.bad(*e.args)
            return []
        self.bad("request", "asks for `%s`" % name)
        return []

    def seen(self, drawn):
        """The colours of the picture after drawing on it."""
        picture = dict(self.picture)
        for name, args, color, stale in drawn:
            x1, y1 = x2, y2 = tuple(self.S.xy(args[0]))
            if name == "draw_line":
                x2, y2 = self.S.xy(args[1])
                if x1 != x2 and y1 != y2:
                    raise Bad("unknown", "fills with lines that are not known")
            elif name == "draw_rect_filled":
                w, h = self.S.size(args[1])
                x2, y2 = x1 + w - 1, y1 + h - 1
            k = int(color[2][6:]) if color is not None and color[0] == "sym" else -1
            for x, y in picture:
                if min(x1, x2) <= x <= max(x1, x2) and min(y1, y2) <= y <= max(y1, y2):
                    picture[x, y] = self.like.get(k, k)
        return picture


class Model:
    """What is expected: pixels without the cursor, cursor, visibility, colours, the screen left, drawing at once."""

    def __init__(self, S, px, x=0, y=0, visible=True, fg=None, bg=None, alt=None, sync=True):
        self.S, self.px, self.x, self.y, self.visible, self.fg, self.bg, self.alt, self.sync = S, px, x, y, visible, fg, bg, alt, sync

    def copy(self, **kw):
        m = Model(self.S, self.px, self.x, self.y, self.visible, self.fg, self.bg, self.alt, self.sync)
        m.__dict__.update(kw)
        return m

    def key(self):
        return (self.px, self.x, self.y, self.visible, self.fg, self.bg, self.alt, self.sync)

    def color(self, fore):
        v = self.fg if fore else self.bg
        return obj("color %d" % (v if v is not None else DEFAULT[0] if fore else DEFAULT[1]))

    def newline(self):
        S = self.S
        if self.y < S.rows - 1:
            self.x, self.y = 0, self.y + 1
            return
        up = S.area(self.px, 0, S.gh, S.width, (S.rows - 1) * S.gh)
        self.px = S.paste(S.blank(self.color(False)), 0, 0, up)
        self.x = 0

    def write(self, text):
        S = self.S
        for ch in text:
            ch = " " if ord(ch) < 32 or 127 <= ord(ch) < 160 else ch
            if self.x == S.columns:
                self.newline()
            at = self.x * S.gw, self.y * S.gh
            self.px = S.fill(self.px, at[0], at[1], S.gw, S.gh, self.color(False))
            self.px = S.text(self.px, at[0], at[1], ch, self.color(True))
            self.x += 1


DEFAULT = (7, 0)


def requests(S, m):
    """(name, arguments, the model afterwards or None when the request must fail, requires synchronising, the value)"""
    for k in list(range(0, S.columns + 2)) + [2 * S.columns + 1]:
        for newline in (False, True):
            n = m.copy()
            t = "".join(seg("w%d" % i) for i in range(k))
            n.write(t)
            if newline:
                n.newline()
            yield ("print" if newline else "write"), (("s", t),), n, UNIT
    n = m.copy()
    n.write("\t" + seg("w0") + "\x7f")
    yield "write", (("s", "\t" + seg("w0") + "\x7f"),), n, UNIT
    for x in range(S.columns):
        for y in range(S.rows):
            if x in (0, S.columns - 1) or y == 0:
                yield "locate", (S.make("CharsXY", x=x, y=y),), m.copy(x=x, y=y), UNIT
    for d in range(-m.x, S.columns - m.x):
        yield "move_within_line", (c(d),), m.copy(x=m.x + d), UNIT
    back = m.color(False)
    yield "clear", (V("All"),), m.copy(px=S.blank(back), x=0, y=0), UNIT
    yield "clear", (V("CurrentLine"),), m.copy(px=S.fill(m.px, 0, m.y * S.gh, S.width, S.gh, back), x=0), UNIT
    if m.x * S.gw < S.width:
        yield "clear", (V("UntilNewLine"),), m.copy(px=S.fill(m.px, m.x * S.gw, m.y * S.gh, S.width, S.gh, back)), UNIT
    if m.x > 0:
        yield "clear", (V("PreviousChar"),), m.copy(px=S.fill(m.px, (m.x - 1) * S.gw, m.y * S.gh, S.gw, S.gh, back), x=m.x - 1), UNIT
    else:
        yield "clear", (V("PreviousChar"),), m, UNIT
    yield "hide_cursor", (), m.copy(visible=False), UNIT
    yield "show_cursor", (), m.copy(visible=True), UNIT
    for fg, bg in ((None, None), (3, 5), (None, 6)):
        yield "set_color", (c13.some(c(fg) if fg is not None else None), c13.some(c(bg) if bg is not None else None)), m.copy(fg=fg, bg=bg), UNIT
    yield "color", (), m, ("t", (c13.some(c(m.fg) if m.fg is not None else None), c13.some(c(m.bg) if m.bg is not None else None)))
    yield "size_chars", (), m, S.make("CharsXY", x=S.columns, y=S.rows)
    yield "size_pixels", (), m, S.make("SizeInPixels", width=S.width, height=S.height)
    yield "glyph_size", (), m, S.make("SizeInPixels", width=S.gw, height=S.gh)
    if m.alt is None:
        yield "enter_alt", (), m.copy(px=S.blank(back), x=0, y=0, alt=(m.px, m.x, m.y, m.fg, m.bg)), UNIT
        yield "leave_alt", (), None, None
    else:
        px, x, y, fg, bg = m.alt
        yield "leave_alt", (), m.copy(px=px, x=x, y=y, fg=fg, bg=bg, alt=None), UNIT
        yield "enter_alt", (), None, None
    yield "set_sync", (c(0),), m.copy(sync=False), c(int(m.sync))
    yield "set_sync", (c(1),), m.copy(sync=True), c(int(m.sync))
    yield "sync_now", (), m, UNIT


def pick(cl, b):
    return b.crate == CRATE


def renamed(v):
    """The value with its characters named in the order of their occurrence."""
    names = {}

    def ren(v):
        if isinstance(v, tuple):
            return tuple(ren(x) for x in v)
        if isinstance(v, str) and any(strs.private(x) for x in v):
            return "".join((names.setdefault(x, seg("n%d" % len(names))) if strs.private(x) else x) for x in v)
        return v
    return ren(v)


def same(S, px, m):
    """Whether the pixels show what the model expects, with the cursor in its place."""
    solid = set()
    for j in range(S.height):
        for i in range(S.width):
            if m.visible and m.x * S.gw <= i < (m.x + 1) * S.gw and m.y * S.gh <= j < (m.y + 1) * S.gh:
                solid.add(px[j][i])
            elif px[j][i] != m.px[j][i]:
                return False
    # The cursor is a block of a single colour.
    return len(solid) <= 1 and all(x is not None and x[0] != "glyph" for x in solid)


def call(S, b, me, args, st):
    r = Run(S)
    env = {1: REF, PLACE: me}
    for i, v in enumerate(args):
        env[2 + i] = v
    outs, dead, over, t = terms.run_text(S.P, b, r.hook, pick, st, env, 100000)
    if over or not outs and not r.problems and not t.panics:
        r.bad("engine", "is too complex to analyse")
    if t.panics:
        r.bad("panic", "may panic")
    return r, outs


def step(S, methods, me, px, shown, auto, m, name, args, want, value):
    """-> (problems, the console, the surface, what is presented, automatic presentation) after a request."""
    st = (px, shown, None, None, None, auto)
    r, outs = call(S, methods[name], me, args, st)
    after = None
    for v, (px2, shown2, color, failed, drawn, auto2), e in outs:
        fails = v is not None and v[0] == "v" and v[1] == "Err"
        ok = not fails and v is not None and (v[1] == "Ok" if v[0] == "v" and v[1] == "Ok" else name in ("color",))
        if failed:
            if not fails:
                r.bad("failure", "does not report that the backend failed")
            continue
        if want is None:
            if not fails:
                r.bad("reject", "is accepted where it cannot be done")
            elif px2 != px:
                r.bad("reject", "changes the screen although it cannot be done")
            continue
        if not ok:
            r.bad("rejects", "fails although the backend did not")
            continue
        got = v[2][0] if name != "color" else v
        if got != value:
            r.bad("value", "gives back something else than it documents")
        if not same(S, px2, want):
            r.bad("screen", "leaves something else on the screen than what it documents")
        if want.sync or name == "sync_now":
            if shown2 != px2:
                r.bad("presented", "does not present what it draws")
        elif shown2 != shown:
            r.bad("presented", "presents what it draws although it is not to be shown yet")
        if auto2 is not None and auto2 != c(int(want.sync)):
            r.bad("presented", "leaves the backend in another mode of presentation")
        me2 = next((e[k] for k in (PLACE, PLACE - 1000000) if k in e), None)
        if after is not None and after != (me2, px2, shown2, auto2):
            r.bad("engine", "has more than one outcome")
        after = (me2, px2, shown2, auto2)
    if after is None and want is not None and not r.problems:
        r.bad("rejects", "cannot be done")
    return r.problems, after


def begin(S, new, defaults):
    r = Run(S)
    env = {1: obj("input"), 2: obj("raster"), 3: obj("audio"), 4: c13.some(c(defaults[0]) if defaults[0] is not None else None), 5: c13.some(c(defaults[1]) if defaults[1] is not None else None)}
    outs, dead, over, t = terms.run_text(S.P, new, r.hook, pick, (S.blank(obj("dust")), S.blank(obj("dust")), None, None, None, None), env, 100000)
    good = [(v, st) for v, st, e in outs if st[3] is None]
    if over or len(good) != 1 or t.panics or good[0][0] is None or good[0][0][1] != "Ok":
        r.bad("engine", "cannot be created")
        return r.problems, None
    if any(st[3] and (v is None or v[1] != "Err") for v, st, e in outs):
        r.bad("failure", "does not report that the backend failed")
    v, st = good[0]
    return r.problems, (v[2][0], st[0], st[1], st[5])


def expand(S, methods, state):
    """Every request in a state.  -> (problems, states that follow, number of requests)"""
    (me, px, shown, auto), key = state
    m = Model(S, *key)
    problems, following, count = [], [], 0
    for name, args, want, value in requests(S, m):
        count += 1
        p, after = step(S, methods, me, px, shown, auto, m, name, args, want, value)
        if not p and after is not None and name == "leave_alt":
            # The colours are those of before, too.
            n = Model(S, *want.key())
            n.write(seg("later"))
            n.newline()
            p = step(S, methods, *after, want, "print", (("s", seg("later")),), n, UNIT)[0]
        problems += [(name, k, text) for k, text in p]
        if not p and after is not None:
            following.append(renamed((after, want.key())))
    return problems, following, count


def explore(P, methods, new, plan):
    """All sequences of requests of a length: [(surface, length)].  -> [(surface, problems, states, requests)]"""
    out, levels = [], []
    for S, depth in plan:
        problems = []
        p, start = begin(S, new, (None, None))
        problems += [("new",) + x for x in p]
        m = Model(S, S.blank(obj("color %d" % DEFAULT[1])))
        if start is not None and not (same(S, start[1], m) and start[2] == start[1]):
            problems.append(("new", "screen", "does not begin with an empty screen"))
        first = [] if start is None else [(start, m.key())]
        out.append([S, problems, set(map(repr, first)), 0])
        levels.append(first)
    for d in range(max(depth for S, depth in plan)):
        todo = [(i, s) for i, level in enumerate(levels) if d < plan[i][1] and len(out[i][1]) <= 5 for s in level]
        levels = [[] for S in plan]
        for i, (problems, following, count) in c14.parallel(lambda t: (t[0], expand(plan[t[0]][0], methods, t[1])), todo):
            out[i][1].extend(problems)
            out[i][3] += count
            for s in following:
                if repr(s) not in out[i][2]:
                    out[i][2].add(repr(s))
                    levels[i].append(s)
    return out


POINTS = PLACE + 1
LOW, HIGH = -32768, 32767


def drawings(S):
    """(method, arguments, points, acceptable sequences of drawing or None for any)"""
    def p(x, y):
        return S.make("PixelsXY", x=x, y=y)
    a, b, d, e = p(3, -4), p(1, 9), p(HIGH, LOW), p(0, 0)
    for k in ("", "_filled"):
        yield "draw_circle" + k, (obj("center"), obj("radius")), None, [(("draw_circle" + k, (obj("center"), obj("radius"))),)]
        for x1, y1, x2, y2 in ((1, 2, 4, 9), (4, 9, 1, 2), (4, 2, 1, 9), (1, 9, 4, 2), (-3, -5, 2, 1), (0, 0, 1, 1), (LOW, LOW, HIGH, HIGH), (HIGH, LOW, LOW, HIGH), (LOW, 5, HIGH, 6)):
            want = ("draw_rect" + k, (p(min(x1, x2), min(y1, y2)), S.make("SizeInPixels", width=abs(x1 - x2), height=abs(y1 - y2))))
            yield "draw_rect" + k, (p(x1, y1), p(x2, y2)), None, [(want,)]
        for x1, y1, x2, y2 in ((1, 2, 1, 9), (4, 9, 1, 9), (LOW, 5, HIGH, 5), (3, HIGH, 3, LOW)):
            line = [(("draw_line", (p(*q[0]), p(*q[1]))),) for q in (((x1, y1), (x2, y2)), ((x2, y2), (x1, y1)))]
            yield "draw_rect" + k, (p(x1, y1), p(x2, y2)), None, line
        for t in ((a, b, d), (e, a, b), (p(LOW, LOW), p(HIGH, LOW), p(LOW, HIGH)), (p(LOW, LOW), p(HIGH, HIGH), p(HIGH, HIGH - 1))):
            yield "draw_tri" + k, t, None, [(("draw_tri" + k, t),)]
            yield "draw_poly" + k, (), t, [(("draw_tri" + k, t),), (("draw_poly" + k, (("vec", t),)),)]
        yield "draw_tri" + k, (a, a, a), None, None
        yield "draw_poly" + k, (), (), [()]
        yield "draw_poly" + k, (), (a,), [(("draw_pixel", (a,)),)]
        yield "draw_poly" + k, (), (a, b), [(("draw_line", (a, b)),)]
        for t in ((a, b, d, e), (e, a, b, d, e), (a, b, a, d), (a, b, d, e, a, b, p(7, 7))):
            yield "draw_poly" + k, (), t, [(("draw_poly" + k, (("vec", t),)),)]
        yield "draw_poly" + k, (), (a, a, a, a), None
    yield "draw_line", (obj("from"), obj("to")), None, [(("draw_line", (obj("from"), obj("to"))),)]
    yield "draw_pixel", (obj("at"),), None, [(("draw_pixel", (obj("at"),)),)]


PICTURES = (("aaaa.", "abba.", "aba..", "aaa.b"), ("ababa", "babab", "ababa", "babab"), ("fffff", "faaaf", "faf?f", "faaff"), ("aaaaa", "aaaaa", "aaaaa", "aaaaa"), ("a?aa?", "?aa?a", "aaaaa", "?f?ba"))


def fills(fill):
    """(place, picture, colours that look like others, picture afterwards)"""
    for rows, ox, oy, like in [(rows, 0, 0, like) for rows in PICTURES for like in (None, 1)] + [(PICTURES[3], HIGH - 4, HIGH - 3, None), (PICTURES[3], LOW, LOW, None)]:
        look = like or fill
        names = {"a": 1, "b": 2, ".": 0, "f": look, "?": None}
        picture = {(ox + x, oy + y): names[ch] for y, row in enumerate(rows) for x, ch in enumerate(row)}
        for at in ((0, 0), (2, 2), (4, 3), (1, 3), (3, 1), (-1, 0), (0, 4), (5, 2)):
            at = (ox + at[0], oy + at[1])
            if not (LOW <= at[0] <= HIGH and LOW <= at[1] <= HIGH):
                continue
            seed, region, todo = picture.get(at), set(), [at]
            while todo and seed is not None:
                x, y = todo.pop()
                if (x, y) not in region and picture.get((x, y)) == seed:
                    region.add((x, y))
                    todo += [(x - 1, y), (x + 1, y), (x, y - 1), (x, y + 1)]
            yield at, picture, {fill: like} if like else {}, {p: look if p in region else k for p, k in picture.items()}


def fill(S, methods, me, px, sync, color, at, picture, like, want):
    r = Run(S, picture, like)
    env = {1: REF, PLACE: me, 2: S.make("PixelsXY", x=at[0], y=at[1])}
    outs, dead, over, t = terms.run_text(S.P, methods["bucket_fill"], r.hook, pick, (px, px, None, None, (), None), env, 100000)
    if over or not outs and not r.problems and not t.panics:
        r.bad("engine", "is too complex to analyse")
    if t.panics:
        r.bad("panic", "may panic")
    for v, (px2, shown, color2, failed, drawn, auto), e in outs:
        fails = v is not None and v[0] == "v" and v[1] == "Err"
        if failed:
            if not fails:
                r.bad("failure", "does not report that the backend failed")
            continue
        if v is None or v[0] != "v" or v[1] != "Ok":
            r.bad("rejects", "fails although the backend did not")
            continue
        if any(x[0] not in ("draw_pixel", "draw_line", "draw_rect_filled") for x in drawn):
            r.bad("unknown", "draws something that is not known to fill")
        elif r.seen(drawn) != want:
            r.bad("drawing", "fills something else than the area of the color at the given place")
        if any(x[2] != color for x in drawn):
            r.bad("color", "draws in another color than the current one")
        if drawn and (shown == "stale") != (not sync):
            r.bad("presented", "does not present what it draws" if sync else "presents what it draws although it is not to be shown yet")
    return r.problems


def plain(v):
    """A value without the difference between an array, a slice and a vector."""
    if isinstance(v, tuple) and v and v[0] in ("vec", "t") and len(v) == 2 and isinstance(v[1], tuple):
        return ("vec", tuple(plain(x) for x in v[1]))
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def draw(S, methods, me, px, sync, color, name, args, points, want):
    r = Run(S)
    env = {1: REF, PLACE: me}
    if points is not None:
        env[POINTS] = ("vec", points)
        env[2] = ("ref", POINTS, "[]")
    for i, v in enumerate(args):
        env[2 + i] = v
    outs, dead, over, t = terms.run_text(S.P, methods[name], r.hook, pick, (px, px, None, None, (), None), env, 100000)
    if over or not outs and not r.problems and not t.panics:
        r.bad("engine", "is too complex to analyse")
    if t.panics:
        r.bad("panic", "may panic")
    for v, (px2, shown, color2, failed, drawn, auto), e in outs:
        fails = v is not None and v[0] == "v" and v[1] == "Err"
        if failed:
            if not fails:
                r.bad("failure", "does not report that the backend failed")
            continue
        if v is None or v[0] != "v" or v[1] != "Ok":
            r.bad("rejects", "fails although the backend did not")
            continue
        if want is not None and plain(tuple(x[:2] for x in drawn)) not in [plain(w) for w in want]:
            r.bad("drawing", "draws something else than what it was asked to")
        if any(x[2] != color for x in drawn):
            r.bad("color", "draws in another colour than the current one")
        if drawn and (shown == "stale") != (not sync):
            r.bad("presented", "does not present what it draws" if sync else "presents what it draws although it is not to be shown yet")
    return r.problems


def consoles(P):
    """The consoles that draw on a surface: [(type, {method: body}, what creates it)]."""
    found = {}
    for b in P.bodies(crates={CRATE}, kinds=("method",)):
        if (b.impl_trait or "").split("<")[0] == CONSOLE:
            found.setdefault(b.impl_self, {})[b.name] = b
    out = []
    for me, m in sorted(found.items()):
        if not any(trait_call(x, RASTER) for i in P.closure_reach([m[k].id for k in ("clear", "write") if k in m]) if P.body(i) is not None for x in P.body(i).calls()):
            continue
        new = [b for b in P.bodies(crates={CRATE}, kinds=("method",)) if b.impl_self == me and not b.impl_trait and b.argc == 5 and "RO" in [str(b.locals[i]) for i in range(1, 6)]]
        out.append((me, m, new[0] if len(new) == 1 else None))
    return out


def surfaces(P, thorough):
    """(surface, number of requests in a row)"""
    more = int(thorough)
    yield Surface(P, 7, 5, 2, 2), 3 + more
    yield Surface(P, 6, 6, 2, 3), 3 + more
    yield Surface(P, 5, 4, 1, 1), 3 + more
    yield Surface(P, 4, 7, 2, 2), 3 + more
    yield Surface(P, 3, 9, 2, 3), 3 + more


def run(ctx):
    P = ctx.P
    found = consoles(P)
    if not ctx.anchor(found, "the graphical console"):
        return
    for me, m, new in found:
        if not ctx.anchor(new, "what creates the console"):
            continue
        reported = set()
        for S, problems, states, count in explore(P, m, new, list(surfaces(P, ctx.tier == "thorough"))):
            size = (S.width, S.height)
            ctx.count("states", len(states))
            ctx.count("requests", count)
            for name, key, text in problems:
                if (name, key) in reported:
                    continue
                reported.add((name, key))
                ctx.violation("%s:%s" % (name, key), "`%s` of a console of %d by %d pixels %s" % (name, size[0], size[1], text), m.get(name, new))
        S = Surface(P, 7, 5, 2, 2)
        for defaults in ((None, None), (12, 4)):
            p, start = begin(S, new, defaults)
            for key, text in p:
                ctx.violation("new:%s" % key, "the console %s" % text, new)
            if start is None:
                continue
            values, px, shown, auto = start
            model = Model(S, S.blank(obj("color %d" % (defaults[1] if defaults[1] is not None else DEFAULT[1]))))
            if not same(S, px, model) or shown != px:
                ctx.violation("new:screen", "the console does not begin with an empty screen of the default colours", new)
            for sync in (True, False):
                for fg in (None, 3):
                    me2 = values
                    for name, args in (("set_sync", (c(int(sync)),)), ("set_color", (c13.some(c(fg) if fg is not None else None), V("None")))):
                        r, outs = call(S, m[name], me2, args, (px, px, None, None, None, None))
                        good = [e for v, st, e in outs if st[3] is None]
                        me2 = good[0].get(PLACE) if good else None
                    if me2 is None:
                        ctx.violation("draw:engine", "the modes of the console cannot be set", new)
                        continue
                    color = obj("color %d" % (fg if fg is not None else defaults[0] if defaults[0] is not None else DEFAULT[0]))
                    for name, args, points, want in drawings(S):
                        ctx.count("drawings")
                        for key, text in draw(S, m, me2, px, sync, color, name, args, points, want):
                            ctx.violation("%s:%s" % (name, key), "`%s` %s" % (name, text), m[name])
                    if "bucket_fill" in m:
                        todo = list(fills(int(color[2][6:])))
                        for problems in c14.parallel(lambda x: fill(S, m, me2, px, sync, color, *x), todo):
                            ctx.count("fills")
                            for key, text in problems:
                                ctx.violation("bucket_fill:%s" % key, "`bucket_fill` %s" % text, m["bucket_fill"])
    for kind, least in (("states", 8000), ("requests", 25000), ("drawings", 200), ("fills", 300)):
        ctx.floor(kind, least)
