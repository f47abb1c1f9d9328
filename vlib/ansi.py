"""A small ANSI terminal: text and select-graphic-rendition sequences."""
import re

SGR = re.compile(r"\x1b\[([0-9;]*)m")


class Undefined(Exception):
    pass


def decode(data):
    """[(character, fg, bg, bold)], final state.  Colours are
    None | ("basic", 0..15) | ("indexed", 0..255) | ("rgb", r, g, b)."""
    fg = bg = None
    bold = False
    cells = []
    pos = 0
    while pos < len(data):
        m = SGR.match(data, pos)
        if m is None:
            cells.append((data[pos], fg, bg, bold))
            pos += 1
            continue
        pos = m.end()
        params = [int(x) if x else 0 for x in m.group(1).split(";")]
        while params:
            p = params.pop(0)
            if p == 0:
                fg = bg = None
                bold = False
            elif p == 1:
                bold = True
            elif p == 22:
                bold = False
            elif 30 <= p <= 37:
                fg = ("basic", p - 30)
            elif 40 <= p <= 47:
                bg = ("basic", p - 40)
            elif 90 <= p <= 97:
                fg = ("basic", p - 82)
            elif 100 <= p <= 107:
                bg = ("basic", p - 92)
            elif p == 39:
                fg = None
            elif p == 49:
                bg = None
            elif p in (38, 48):
                if not params:
                    raise Undefined(m.group(0))
                mode = params.pop(0)
                size = {5: 1, 2: 3}.get(mode)
                if size is None or len(params) < size:
                    raise Undefined(m.group(0))
                values, params = params[:size], params[size:]
                if max(values) > 255:
                    raise Undefined(m.group(0))
                value = ("indexed", values[0]) if mode == 5 else ("rgb",) + tuple(values)
                if p == 38:
                    fg = value
                else:
                    bg = value
            else:
                raise Undefined(m.group(0))
    return cells, (fg, bg, bold)
