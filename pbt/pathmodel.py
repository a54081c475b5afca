"""An independent evaluator of SVG path data.

A path is a list of segments [type, args...].  As in the library, a moveto
that directly follows a moveto of either case is an implicit lineto.
"""
import math

import numpy as np

from .gens import decimals, number, op, st

# ------------------------------------------------------------- generators
coord = st.one_of(st.integers(-12, 12), st.integers(-12, 12),
                  decimals(-60, 60, 2), number(-200, 200))
radius = st.one_of(st.integers(1, 12), decimals(0.1, 40, 1))
rotation = st.one_of(st.just(0), st.just(0),
                     st.sampled_from([30, 45, 90, -60, 180, 120]),
                     decimals(-180, 180, 1))
flag = st.integers(0, 1)


def both(name, *args):
    return st.one_of(op(name.upper(), *args), op(name.lower(), *args))


lineto = both('l', coord, coord)
horizontal = both('h', coord)
vertical = both('v', coord)
cubic = both('c', *([coord] * 6))
smooth = both('s', *([coord] * 4))
quad = both('q', *([coord] * 4))
tsmooth = both('t', coord, coord)
signed_radius = st.one_of(radius, radius, radius, radius.map(lambda x: -x))
arc = both('a', signed_radius, signed_radius, rotation, flag, flag, coord, coord)
degenerate_arc = st.one_of(
    both('a', st.sampled_from([0, 3]), st.just(0), rotation, flag, flag,
         coord, coord),
    op('a', radius, radius, rotation, flag, flag, st.just(0), st.just(0)))
moveto = both('m', coord, coord)
close = st.one_of(st.just(['Z']), st.just(['z']))
bearing = both('b', st.one_of(st.sampled_from([0, 30, 90, -45]),
                              decimals(-180, 180, 1)))

drawing = st.one_of(lineto, horizontal, vertical, cubic, smooth, quad,
                    tsmooth, arc, degenerate_arc)
segment = st.one_of(drawing, drawing, drawing, drawing, drawing, close,
                    moveto)


@st.composite
def paths(draw, min_size=1, max_size=8, element=segment, bearings=False):
    first = draw(moveto)
    rest = draw(st.lists(element, min_size=min_size, max_size=max_size))
    if bearings and rest and draw(st.integers(0, 3)) == 0:
        out = []
        for seg in rest:
            # the smooth commands look at the command just before; a moveto
            # that is no longer after a moveto is not an implicit lineto
            if seg[0] not in 'SsTtMm' and draw(st.integers(0, 3)) == 0:
                out.append(draw(bearing))
            out.append(seg)
        rest = out
    return [first] + rest


# --------------------------------------------------------------- evaluator
class Piece(object):
    """A drawn piece: kind, control points (or arc data)."""

    def __init__(self, kind, points, index, arc_data=None):
        self.kind = kind  # 'line' 'cubic' 'quad' 'arc' 'close'
        self.points = [tuple(map(float, p)) for p in points]
        self.index = index
        self.arc = arc_data

    @property
    def start(self):
        return self.points[0]

    @property
    def end(self):
        return self.points[-1]

    def sample(self, n=64):
        t = np.linspace(0, 1, n + 1)
        return self.at(t)

    def at(self, t):
        t = np.asarray(t, dtype=float)[:, None]
        p = [np.array(q) for q in self.points]
        if self.kind in ('line', 'close'):
            return p[0] + (p[1] - p[0]) * t
        if self.kind == 'quad':
            return ((1 - t) ** 2 * p[0] + 2 * t * (1 - t) * p[1]
                    + t ** 2 * p[2])
        if self.kind == 'cubic':
            return ((1 - t) ** 3 * p[0] + 3 * t * (1 - t) ** 2 * p[1]
                    + 3 * t ** 2 * (1 - t) * p[2] + t ** 3 * p[3])
        cx, cy, rx, ry, phi, t1, dt = self.arc
        a = t1 + dt * t
        x, y = rx * np.cos(a), ry * np.sin(a)
        c, s = math.cos(phi), math.sin(phi)
        return np.hstack([cx + c * x - s * y, cy + s * x + c * y])

    def speed(self, t):
        t = np.asarray(t, dtype=float)[:, None]
        p = [np.array(q) for q in self.points]
        if self.kind in ('line', 'close'):
            d = np.repeat((p[1] - p[0])[None, :], len(t), axis=0)
        elif self.kind == 'quad':
            d = 2 * (1 - t) * (p[1] - p[0]) + 2 * t * (p[2] - p[1])
        elif self.kind == 'cubic':
            d = (3 * (1 - t) ** 2 * (p[1] - p[0])
                 + 6 * t * (1 - t) * (p[2] - p[1])
                 + 3 * t ** 2 * (p[3] - p[2]))
        else:
            cx, cy, rx, ry, phi, t1, dt = self.arc
            a = t1 + dt * t
            d = np.hstack([-rx * np.sin(a), ry * np.cos(a)]) * dt
        return np.sqrt((d * d).sum(axis=1))

    _NODES = np.polynomial.legendre.leggauss(16)

    def length(self, parts=32):
        x, w = Piece._NODES
        edges = np.linspace(0, 1, parts + 1)
        half = 0.5 / parts
        t = (edges[:-1, None] + half * (x[None, :] + 1)).reshape(-1)
        return float((self.speed(t).reshape(parts, -1) * w).sum() * half)

    def box(self):
        """Exact bounding box (x1, y1, x2, y2)."""
        p = np.array(self.points)
        if self.kind in ('line', 'close'):
            pts = p
        elif self.kind in ('quad', 'cubic'):
            ts = [0.0, 1.0]
            for axis in (0, 1):
                v = p[:, axis]
                if self.kind == 'quad':
                    poly = [v[0] - 2 * v[1] + v[2], v[1] - v[0]]
                else:
                    poly = [-v[0] + 3 * v[1] - 3 * v[2] + v[3],
                            2 * (v[0] - 2 * v[1] + v[2]), v[1] - v[0]]
                top = max(abs(c) for c in poly)
                while poly and abs(poly[0]) <= 1e-13 * top:
                    poly = poly[1:]
                if len(poly) > 1:
                    for r in np.roots(poly):
                        if abs(r.imag) < 1e-9 and 0 <= r.real <= 1:
                            ts.append(float(r.real))
            pts = self.at(ts)
        else:
            cx, cy, rx, ry, phi, t1, dt = self.arc
            ts = [0.0, 1.0]
            for base in (math.atan2(-ry * math.sin(phi),
                                    rx * math.cos(phi)),
                         math.atan2(ry * math.cos(phi),
                                    rx * math.sin(phi))):
                for k in range(-4, 5):
                    a = base + k * math.pi
                    u = (a - t1) / dt
                    if 0 <= u <= 1:
                        ts.append(u)
            pts = self.at(ts)
        return (pts[:, 0].min(), pts[:, 1].min(), pts[:, 0].max(),
                pts[:, 1].max())


def rotate(x, y, deg):
    if not deg:
        return x, y
    c, s = math.cos(math.radians(deg)), math.sin(math.radians(deg))
    return c * x - s * y, s * x + c * y


def arc_geometry(x1, y1, rx, ry, deg, fa, fs, x2, y2):
    """SVG 2 B.2.4/B.2.5; None when the arc vanishes, 'line' when straight."""
    rx, ry = abs(rx), abs(ry)
    if abs(x1 - x2) < 1e-9 and abs(y1 - y2) < 1e-9:
        return None
    if rx == 0 or ry == 0:
        return 'line'
    phi = math.radians(deg)
    c, s = math.cos(phi), math.sin(phi)
    dx, dy = (x1 - x2) / 2, (y1 - y2) / 2
    xp, yp = c * dx + s * dy, -s * dx + c * dy
    lam = (xp / rx) ** 2 + (yp / ry) ** 2
    if lam > 1:
        rx *= math.sqrt(lam)
        ry *= math.sqrt(lam)
        k = 0.0
    else:
        k = math.sqrt(max(0.0, 1 / lam - 1))
    if bool(fa) == bool(fs):
        k = -k
    cxp, cyp = k * rx * yp / ry, -k * ry * xp / rx
    cx = c * cxp - s * cyp + (x1 + x2) / 2
    cy = s * cxp + c * cyp + (y1 + y2) / 2
    t1 = math.atan2((yp - cyp) / ry, (xp - cxp) / rx)
    t2 = math.atan2((-yp - cyp) / ry, (-xp - cxp) / rx)
    dt = t2 - t1
    if fs and dt < 0:
        dt += 2 * math.pi
    elif not fs and dt > 0:
        dt -= 2 * math.pi
    return cx, cy, rx, ry, phi, t1, dt


def evaluate(segments):
    """Returns a list of (segment index, absolute form, piece or None).

    Absolute form: ['M', x, y] / ['L', ...] / ['C', ...] / ['Q', ...] /
    ['A', rx, ry, rot, fa, fs, x, y] / ['Z'] / None (bearing)."""
    out = []
    cp = (0.0, 0.0)
    start = (0.0, 0.0)
    last = None
    ctrl = None  # (kind, point)
    turn = 0.0
    for i, (cmd, *v) in enumerate(segments):
        v = [float(x) for x in v]
        up = cmd.upper()
        rel = cmd.islower()

        def pt(x, y):
            if rel:
                x, y = rotate(x, y, turn)
                return cp[0] + x, cp[1] + y
            return x, y

        new_ctrl = None
        if up == 'B':
            turn = turn + v[0] if rel else v[0]
            out.append((i, None, None))
            last = cmd
            ctrl = None
            continue
        if up == 'M':
            p = pt(*v)
            if last is not None and last in 'Mm':
                out.append((i, ['M', *p], Piece('line', [cp, p], i)))
            else:
                out.append((i, ['M', *p], None))
                start = p
            cp = p
        elif up in 'LHV':
            if up == 'L':
                p = pt(*v)
            elif up == 'H':
                p = pt(v[0], 0) if rel else (v[0], cp[1])
            else:
                p = pt(0, v[0]) if rel else (cp[0], v[0])
            out.append((i, ['L', *p], Piece('line', [cp, p], i)))
            cp = p
        elif up in 'CS':
            if up == 'C':
                p1, p2, p = pt(*v[:2]), pt(*v[2:4]), pt(*v[4:])
            else:
                p2, p = pt(*v[:2]), pt(*v[2:])
                if ctrl and ctrl[0] == 'C':
                    q = ctrl[1]
                    p1 = 2 * cp[0] - q[0], 2 * cp[1] - q[1]
                else:
                    p1 = cp
            out.append((i, ['C', *p1, *p2, *p],
                        Piece('cubic', [cp, p1, p2, p], i)))
            cp = p
            new_ctrl = ('C', p2)
        elif up in 'QT':
            if up == 'Q':
                p1, p = pt(*v[:2]), pt(*v[2:])
            else:
                p = pt(*v)
                if ctrl and ctrl[0] == 'Q':
                    q = ctrl[1]
                    p1 = 2 * cp[0] - q[0], 2 * cp[1] - q[1]
                else:
                    p1 = cp
            out.append((i, ['Q', *p1, *p], Piece('quad', [cp, p1, p], i)))
            cp = p
            new_ctrl = ('Q', p1)
        elif up == 'A':
            rx, ry, rot, fa, fs, x, y = v
            p = pt(x, y)
            if rel:
                rot += turn
            g = arc_geometry(*cp, rx, ry, rot, fa, fs, *p)
            if g is None:
                piece = None
            elif g == 'line':
                piece = Piece('line', [cp, p], i)
            else:
                piece = Piece('arc', [cp, p], i, g)
            out.append((i, ['A', rx, ry, rot, fa, fs, *p], piece))
            cp = p
        elif up == 'Z':
            out.append((i, ['Z'], Piece('close', [cp, start], i)))
            cp = start
        last = cmd
        ctrl = new_ctrl
    return out


def size_of(segments):
    """A magnitude for tolerances."""
    total = 1.0
    for _, form, piece in evaluate(segments):
        if form:
            total = max([total] + [abs(x) for x in form[1:]])
        if piece is not None and piece.arc is not None:
            total = max(total, piece.arc[2], piece.arc[3])
    return total


def pieces_of(segments):
    return [p for _, _, p in evaluate(segments) if p is not None]


def to_segments(path):
    from svgpy import SVGPathSegment
    return [SVGPathSegment(s[0], *s[1:]) for s in path]


def from_segments(path_data):
    return [[s.type] + [float(v) for v in s.values] for s in path_data]


def near_degenerate_arc(segments):
    """Arcs whose shape is decided by rounding: nearly equal end points, or
    radii barely large enough (large-arc flag decides by rounding)."""
    for seg in segments:
        pass
    for _, form, piece in evaluate(segments):
        if form and form[0] == 'A' and piece is None:
            continue
        if piece is not None and piece.kind == 'arc':
            d = math.hypot(piece.end[0] - piece.start[0],
                           piece.end[1] - piece.start[1])
            if d < 1e-4 * max(1.0, piece.arc[2], piece.arc[3]):
                return True
    return False


def merges_movetos(segments):
    """Whether dropping what draws nothing makes two movetos adjacent, which
    then read as a moveto and an implicit lineto (P01-adjacent-moveto)."""
    last = None
    gap = False
    for i, form, piece in evaluate(segments):
        if form is None or (form[0] == 'A' and piece is None):
            gap = True
            continue
        if form[0] == 'M' and last == 'M' and gap:
            return True
        last = form[0]
        gap = False
    return False
