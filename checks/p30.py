"""P30: coloured text."""
import contextlib
import io

from HamiltonianPy.tools.colorprint import color_demo, color_print, coloring

from vlib import ansi
from vlib.harness import Section

PID = "P30"
RULE = ("coloured strings are read by a small terminal emulator: every documented notation of every scheme (all codes "
        "in turn, names and letters in any case, triples, hex notations), random texts with Unicode, newlines and "
        "other control characters, all print options, and undefined colours; non-trivial when a colour is set")
ASSUMPTIONS = ["the text itself contains no escape sequences"]
MUST = {"strings decoded": 3000, "codes": 500, "printed": 400, "refusals observed": 800, "equivalences": 400}

NAMES = ["black", "red", "green", "yellow", "blue", "magenta", "cyan", "white"]
LETTERS = "krgybmcw"
RGB = [(0, 0, 0), (255, 0, 0), (0, 255, 0), (255, 255, 0), (0, 0, 255), (255, 0, 255), (0, 255, 255), (255, 255, 255)]


def mixed(py, s):
    return "".join(c.upper() if py.random() < 0.4 else c for c in s)


def text(py):
    alphabet = "abcXYZ 0123456789;:[]m\n\t\\'\"%{}é→漢🙂\r"
    return "".join(py.choice(alphabet) for _ in range(py.randrange(0, 24)))


def colour(py, scheme, fg):
    """(notation, what a terminal shows)."""
    if py.random() < 0.15:
        return None, None
    k = py.randrange(8)
    word = mixed(py, NAMES[k] if py.random() < 0.5 else LETTERS[k])
    if scheme == 4:
        if py.random() < 0.5:
            return word, ("basic", k)
        bright = py.random() < 0.5
        return (90 if bright else 30) + k + (0 if fg else 10), ("basic", k + 8 * bright)
    if scheme == 8:
        if py.random() < 0.4:
            return word, ("indexed", k)
        c = py.choice([0, 7, 8, 15, 16, 255, py.randrange(256)])
        return c, ("indexed", c)
    if py.random() < 0.3:
        return word, ("rgb",) + RGB[k]
    rgb = tuple(py.choice([0, 255, py.randrange(256), py.randrange(16)]) for _ in range(3))
    how = py.randrange(3)
    if how == 0:
        return rgb, ("rgb",) + rgb
    if how == 1:
        return list(rgb), ("rgb",) + rgb
    return "#" + mixed(py, "{0:02x}{1:02x}{2:02x}".format(*rgb)), ("rgb",) + rgb


def shown(case, data, want_text, fg, bg, bold):
    try:
        cells, final = ansi.decode(data)
    except ansi.Undefined as exc:
        case.fail("undefined-sequence", repr(data))
    case.equal("".join(c[0] for c in cells), want_text, "text", repr(data))
    for c in cells:
        if c[1:] != (fg, bg, bold):
            case.fail("style", "{0!r}: {1} != {2}".format(data, c[1:], (fg, bg, bold)))
    case.run.oracle_calls += 1
    case.equal(final, (None, None, False), "state-left", repr(data))
    case.obs("strings decoded")


def decorate(case):
    py = case.py
    scheme = py.choice([4, 8, 24, "rgb"])
    base = 24 if scheme == "rgb" else scheme
    s = text(py)
    fg, want_fg = colour(py, base, True)
    bg, want_bg = colour(py, base, False)
    bold = py.random() < 0.5
    case.note(text=s, fg=fg, bg=bg, bold=bold, scheme=scheme)
    kwargs = {"fg": fg, "bg": bg, "bold": bold, "color_scheme": scheme}
    if scheme == 8 and py.random() < 0.5:
        del kwargs["color_scheme"]
    if fg is None and py.random() < 0.5:
        del kwargs["fg"]
    if bg is None and py.random() < 0.5:
        del kwargs["bg"]
    if not bold and py.random() < 0.5:
        del kwargs["bold"]
    got = coloring(s, **kwargs)
    case.check(type(got) is str, "type")
    shown(case, got, s, want_fg, want_bg, bold)
    # two coloured strings next to each other do not influence each other
    fg2, want_fg2 = colour(py, base, True)
    both = got + coloring("|", fg=fg2, color_scheme=scheme) + "."
    cells, final = ansi.decode(both)
    case.equal(cells[len(s)], ("|", want_fg2, None, False), "neighbour", repr(both))
    case.equal(cells[-1], (".", None, None, False), "neighbour", repr(both))
    if want_fg or want_bg:
        case.nontrivial(s, str(fg), str(bg), bold, scheme)


def codes(case):
    """Every code in turn, as foreground and background."""
    c = case.index
    tables = []
    if c < 256:
        tables.append((8, c, c, ("indexed", c), ("indexed", c)))
        for k in range(3):
            rgb = [0, 0, 0]
            rgb[k] = c
            tables.append((24, tuple(rgb), list(rgb), ("rgb",) + tuple(rgb), ("rgb",) + tuple(rgb)))
            hexa = "#" + "".join("{0:02x}".format(x) for x in rgb)
            tables.append(("rgb", hexa, hexa.upper(), ("rgb",) + tuple(rgb), ("rgb",) + tuple(rgb)))
    if c < 16:
        base = (30 + c) if c < 8 else (82 + c)
        tables.append((4, base, base + 10, ("basic", c), ("basic", c)))
    if c < 8:
        for n in (NAMES[c], LETTERS[c], NAMES[c].upper(), LETTERS[c].upper(), NAMES[c].title()):
            tables.append((4, n, n, ("basic", c), ("basic", c)))
            tables.append((8, n, n, ("indexed", c), ("indexed", c)))
            tables.append((24, n, n, ("rgb",) + RGB[c], ("rgb",) + RGB[c]))
            tables.append(("rgb", n, n, ("rgb",) + RGB[c], ("rgb",) + RGB[c]))
    for scheme, fg, bg, want_fg, want_bg in tables:
        for bold in (False, True):
            shown(case, coloring("a b", fg=fg, color_scheme=scheme, bold=bold), "a b", want_fg, None, bold)
            shown(case, coloring("a b", bg=bg, color_scheme=scheme, bold=bold), "a b", None, want_bg, bold)
            shown(case, coloring("a b", fg, bg, bold, scheme), "a b", want_fg, want_bg, bold)
    case.obs("codes", len(tables))
    case.nontrivial(c)


def equivalent(case):
    """The notations of one colour give one string."""
    py = case.py
    k = py.randrange(8)
    s = text(py)
    bold = py.random() < 0.5
    case.note(colour=NAMES[k], text=s)
    groups = [
        (4, [NAMES[k], LETTERS[k], mixed(py, NAMES[k]), LETTERS[k].upper(), 30 + k], "fg"),
        (4, [NAMES[k], LETTERS[k], mixed(py, NAMES[k]), 40 + k], "bg"),
        (8, [NAMES[k], LETTERS[k], mixed(py, NAMES[k]), k], "fg"),
        (8, [NAMES[k], LETTERS[k], mixed(py, NAMES[k]), k], "bg"),
        (24, [NAMES[k], LETTERS[k].upper(), RGB[k], list(RGB[k]), "#{0:02x}{1:02X}{2:02x}".format(*RGB[k])], "fg"),
        ("rgb", [NAMES[k], LETTERS[k], RGB[k], list(RGB[k]), "#{0:02X}{1:02x}{2:02X}".format(*RGB[k])], "bg"),
    ]
    for scheme, notations, which in groups:
        cells = [ansi.decode(coloring(s + "x", bold=bold, color_scheme=scheme, **{which: n})) for n in notations]
        for n, c in zip(notations, cells):
            case.equal(c, cells[0], "equivalent", (scheme, n))
        case.obs("equivalences")
    case.nontrivial(k, s, bold)


class Item:
    def __init__(self, s):
        self.s = s

    def __str__(self):
        return self.s

    def __repr__(self):
        return "<wrong>"


class Stream(io.StringIO):
    flushes = 0

    def flush(self):
        self.flushes += 1
        super().flush()


def printed(case):
    py = case.py
    scheme = py.choice([4, 8, 24, "rgb"])
    base = 24 if scheme == "rgb" else scheme
    fg, want_fg = colour(py, base, True)
    bg, want_bg = colour(py, base, False)
    bold = py.random() < 0.5
    objects = [py.choice([text(py), py.randrange(100), 1.5, None, (1, 2), Item("item")]) for _ in range(py.randrange(0, 5))]
    kwargs = {"fg": fg, "bg": bg, "bold": bold, "color_scheme": scheme}
    sep, end = " ", "\n"
    if py.random() < 0.5:
        sep = kwargs["sep"] = py.choice(["", ", ", "\n", "--"])
    if py.random() < 0.5:
        end = kwargs["end"] = py.choice(["", "!", "\n\n", "END"])
    flush = py.random() < 0.5
    if flush:
        kwargs["flush"] = True
    case.note(objects=objects, **{k: v for k, v in kwargs.items()})
    target, out, err = Stream(), Stream(), Stream()
    explicit = py.random() < 0.5
    if explicit:
        kwargs["file"] = target
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
        res = color_print(*objects, **kwargs)
    case.check(res is None, "result")
    data = (target if explicit else out).getvalue()
    case.equal((out if explicit else target).getvalue(), "", "other-stream")
    case.equal(err.getvalue(), "", "other-stream")
    if flush:
        case.check((target if explicit else out).flushes >= 1, "not-flushed")
    body = sep.join(str(o) for o in objects)
    cells, final = ansi.decode(data)
    case.equal("".join(c[0] for c in cells), body + end, "printed-text", repr(data))
    for c in cells[:len(body)]:
        if c[1:] != (want_fg, want_bg, bold):
            case.fail("printed-style", "{0!r} {1}".format(data, c))
    for c in cells[len(body):]:
        if c[1:] != (None, None, False):
            case.fail("printed-style", "end: {0!r} {1}".format(data, c))
    case.equal(final, (None, None, False), "state-left", repr(data))
    case.obs("printed")
    if want_fg or want_bg:
        case.nontrivial(repr(objects), str(fg), str(bg))


def refused(case):
    py = case.py
    words = ["", "purple", "redd", "bla", "#", "#12345", "#1234567", "#12345g", "#gggggg", "123456", "#-1-1-1", "#+1+2+3", "# 1 2 3",
             "#1_1_1", "#٣٤٣٤٣٤", " red", "red ", "0", "31"]
    for scheme in (4, 8, 24, "rgb"):
        for which in ("fg", "bg"):
            for w in words:
                case.raises((ValueError, KeyError, AssertionError), lambda: coloring("x", color_scheme=scheme, **{which: w}), "accepted", (scheme, which, w))
    def f(scheme, which, value):
        case.raises((ValueError, AssertionError), lambda: coloring("x", color_scheme=scheme, **{which: value}), "accepted", (scheme, which, value))
        case.raises((ValueError, AssertionError), lambda: color_print("x", file=io.StringIO(), color_scheme=scheme, **{which: value}), "accepted",
                    (scheme, which, value))
    for value in (29, 38, 39, 89, 98, 40, 47, 100, 107, 0, 7, 255, -31, py.randrange(108, 1000)):
        f(4, "fg", value)
    for value in (39, 48, 49, 99, 108, 30, 37, 90, 97, 0, -41, py.randrange(108, 1000)):
        f(4, "bg", value)
    for value in (-1, 256, py.randrange(256, 9999), -py.randrange(1, 300)):
        for which in ("fg", "bg"):
            f(8, which, value)
            for k in range(3):
                rgb = [py.randrange(256) for _ in range(3)]
                rgb[k] = value
                f(24, which, tuple(rgb))
                f("rgb", which, rgb)
    for scheme in (0, 16, "4", "8", "24", "RGB", 32, py.randrange(25, 999)):
        case.raises((ValueError, AssertionError), lambda: coloring("x", fg="red", color_scheme=scheme), "scheme-accepted", scheme)
    case.nontrivial(case.index)


def demo(case):
    """The demonstration shows every colour under its own number."""
    background = case.index == 1 and case.tier != "quick"
    out = io.StringIO()
    indent = case.py.randrange(0, 5)
    with contextlib.redirect_stdout(out):
        color_demo(with_bg=background, space_num=indent)
    lines = out.getvalue().split("\n")
    case.equal(lines[-1], "", "demo-end")
    lines = lines[:-1]
    want = [(None, None)] + [(i, None) for i in range(256)]
    if background:
        want += [(None, i) for i in range(256)] + [(i, j) for i in range(256) for j in range(256)]
    case.equal(len(lines), len(want), "demo-lines")
    for line, (fg, bg) in zip(lines, want):
        cells, final = ansi.decode(line)
        plain = "".join(c[0] for c in cells)
        numbers = [x.split("=")[1].strip() for x in plain.split(",")]
        case.equal(numbers, [str(fg), str(bg)], "demo-numbers", plain)
        case.check(plain.startswith(" " * indent + "fg"), "demo-indent", plain)
        style = (None if fg is None else ("indexed", fg), None if bg is None else ("indexed", bg), False)
        for c in cells[indent:]:
            if c[1:] != style:
                case.fail("demo-style", repr(line))
        case.equal(final, (None, None, False), "state-left", line)
        case.obs("demo lines")
    case.nontrivial(background, indent)


SECTIONS = [
    Section("codes", codes, 256, 256, fixed=True),
    Section("decorate", decorate, 3000, 60000),
    Section("equivalent", equivalent, 200, 4000),
    Section("printed", printed, 600, 12000),
    Section("refused", refused, 6, 60),
    Section("demo", demo, 1, 2, fixed=True),
]
