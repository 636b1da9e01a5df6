"""Seeded generators of larger cases.  They only propose inputs: what is expected of each is
computed by TLC from the specification modules.  Cases are lists of integer lists (tuples)."""
import math
import random


def pt(r, n):
    return [r.randint(0, n), r.randint(0, n)]


def disc(r, n):
    return [r.randint(-n, n), r.randint(-n, n)]


def other(r, f, p):
    while True:
        q = f()
        if q != p:
            return q


def beside(r, v):
    """A vector that turns from v by as little as its length allows."""
    g = math.gcd(*v) or 1
    a, b = v[0] // g, v[1] // g
    if [a, b] == [0, 0]:
        return [1, 0]
    # a y - b x = 1
    x0, y0, x1, y1, p, q = 1, 0, 0, 1, a, b
    while q:
        t = p // q
        p, q, x0, x1, y0, y1 = q, p - t * q, x1, x0 - t * x1, y1, y0 - t * y1
    w = [-y0 * p, x0 * p]  # a x0 + b y0 = p = +-1
    k = r.randint(-1, 1)
    w = [w[0] + k * a, w[1] + k * b]
    return w if r.random() < 0.5 else [-w[0], -w[1]]


def segseg(r, count, n=40):
    out = []
    for _ in range(count):
        a, b = pt(r, n), pt(r, n)
        v = [b[0] - a[0], b[1] - a[1]]
        g = math.gcd(*v) or 1
        u = [v[0] // g, v[1] // g]
        on = lambda lo, hi: (lambda i: [a[0] + i * u[0], a[1] + i * u[1]])(r.randint(lo, hi))
        k = r.randint(0, 7)
        if k == 0:
            c, d = pt(r, n), pt(r, n)
        elif k == 1:  # T: an end on the other segment
            c, d = on(0, g), pt(r, n)
        elif k == 2:  # shared end
            c, d = r.choice([a, b]), pt(r, n)
        elif k == 3:  # collinear in any relation
            c, d = on(-3, g + 3), on(-3, g + 3)
        elif k == 4:  # crossing through an inner lattice point
            m, w = on(0, g), [r.randint(-5, 5), r.randint(-5, 5)]
            c, d = [m[0] + w[0], m[1] + w[1]], [m[0] - 2 * w[0], m[1] - 2 * w[1]]
        elif k == 5:  # nearly parallel
            c = [a[0] + r.randint(-1, 1), a[1] + r.randint(-1, 1)]
            d = [b[0] + r.randint(-1, 1), b[1] + r.randint(-1, 1)]
        elif k == 6:  # on the line of ab but past it, or just missing it
            c, d = on(g, g + 4), pt(r, n)
        else:  # a point
            c = on(-1, g + 1)
            d = list(c)
        if n >= 100 and r.random() < 0.6:  # as nearly parallel, or as nearly touching, as can be
            w = beside(r, u)
            i, j = r.randint(-1, 1), r.randint(0, 1)
            m = r.choice([a, b, on(0, g)])
            if r.random() < 0.5:
                c, d = [m[0] - i * w[0], m[1] - i * w[1]], [m[0] + j * w[0], m[1] + j * w[1]]
            else:
                c, d = [m[0] + w[0], m[1] + w[1]], pt(r, n)
        if r.random() < 0.5:
            a, b, c, d = c, d, a, b
        out.append([a, b, c, d])
    return out


def segcirc(r, count, n=9):
    out = []
    while len(out) < count:
        p, q = disc(r, n), disc(r, n)
        k = r.randint(1, 2 * n * n)
        c = r.randint(0, 5)
        if c == 1 and p != [0, 0]:  # an end on the circle
            k = p[0] ** 2 + p[1] ** 2
        elif c == 2 and p != [0, 0]:  # tangent at p or at a point of the line
            k = p[0] ** 2 + p[1] ** 2
            m, i, j = r.randint(1, 2), r.randint(-2, 0), r.randint(0, 2)
            w = [-p[1], p[0]]
            a = [p[0] + i * w[0], p[1] + i * w[1]]
            q = [p[0] + j * m * w[0], p[1] + j * m * w[1]]
            p = a
        elif c == 3:  # through the centre, or starting there
            i, j = r.randint(-1, 1), r.randint(1, 2)
            q = [-j * p[0], -j * p[1]] if i else [0, 0]
        elif c == 4:
            m = r.randint(1, 8)
            k = m * m
        if r.random() < 0.04:
            q = p
        if max(map(abs, p + q)) > 3 * n:
            continue
        out.append([p, q, [k]])
    return out


PYTH = [(3, 4, 5), (4, 3, 5), (0, 5, 5), (6, 8, 10), (5, 12, 13), (0, 1, 1), (2, 0, 2), (7, 0, 7), (8, 6, 10), (0, 9, 9)]


def circcirc(r, count, n=10):
    out = []
    while len(out) < count:
        c = disc(r, n)
        k1, k2 = r.randint(1, 80), r.randint(1, 80)
        if r.random() < 0.4:  # integer distance, tangent or nearly so
            x, y, d = r.choice(PYTH)
            c = [r.choice([-1, 1]) * x, r.choice([-1, 1]) * y]
            m = r.randint(1, 12)
            j = r.choice([d - m, d + m, m - d, d - m + 1, m - d + 1])
            if j <= 0:
                continue
            k1, k2 = m * m, j * j
        elif r.random() < 0.3:  # both through a lattice point
            p = disc(r, n)
            k1 = p[0] ** 2 + p[1] ** 2
            k2 = (p[0] - c[0]) ** 2 + (p[1] - c[1]) ** 2
        if k1 < 1 or k2 < 1:
            continue
        out.append([[k1], c, [k2]])
    return out


DIRS = [(1, 0), (1, 1), (0, 1), (-1, 1), (-1, 0), (-1, -1), (0, -1), (1, -1),
        (2, 1), (1, 2), (-1, 2), (-2, 1), (-2, -1), (-1, -2), (1, -2), (2, -1)]


def arc(r, count, kind, n=6):
    out = []
    ks = [1, 2, 4, 5, 8, 9, 10, 13, 16, 18, 20, 25]
    while len(out) < count:
        a = [r.choice(ks), r.randint(1, 16), r.randint(1, 16)]
        if kind == 1:
            p, q = disc(r, n), disc(r, n)
            if r.random() < 0.4:  # an end on the circle
                p = r.choice([[x, y] for x in range(-5, 6) for y in range(-5, 6) if x * x + y * y == a[0]] or [p])
            if r.random() < 0.05:
                q = p
            out.append([[1], a, p, q])
        else:
            c = disc(r, 4)
            b = [r.choice(ks), r.randint(1, 16), r.randint(1, 16)]
            u = r.random()
            if u < 0.25:
                x, y, d = r.choice([(1, 0, 1), (0, 2, 2), (3, 0, 3), (0, 4, 4), (3, 4, 5), (5, 0, 5)])
                c = [r.choice([-1, 1]) * x, r.choice([-1, 1]) * y]
                m = r.randint(1, 5)
                j = abs(d + r.choice([-1, 1]) * m)
                if j == 0 or j > 6:
                    continue
                a[0], b[0] = m * m, j * j
            elif u < 0.4 and kind == 3:
                c, b[0] = [0, 0], a[0]
            if kind == 2:
                b = b[:1]
            out.append([[kind], a, c, b])
    return out


def lines(r, count, kind, n=30):
    out = []
    while len(out) < count:
        a, c = pt(r, n), pt(r, n)
        b, d = other(r, lambda: pt(r, n), a), other(r, lambda: pt(r, n), c)
        k = r.randint(0, 4)
        v = [b[0] - a[0], b[1] - a[1]]
        g = math.gcd(*v)
        on = lambda lo, hi: (lambda i: [a[0] + i * v[0] // g, a[1] + i * v[1] // g])(r.randint(lo, hi))
        if k == 1:
            c = on(-2, g + 2)
        elif k == 2:
            d = on(-2, g + 2)
        elif k == 3:
            c, d = on(-3, g + 3), on(-3, g + 3)
        elif k == 4:
            s = r.choice([-2, -1, 1, 2])
            d = [c[0] + s * v[0], c[1] + s * v[1]]
        if c == d:
            continue
        if n >= 100 and r.random() < 0.6:
            w = beside(r, v)
            i, j = r.choice([-1, 1]), r.choice([-1, 1])
            m = r.choice([a, b, on(0, g)])
            if r.random() < 0.5:
                c, d = [m[0] + i * w[0], m[1] + i * w[1]], [m[0] + (i + j) * w[0], m[1] + (i + j) * w[1]]
            else:
                c = [m[0] + w[0], m[1] + w[1]]
            if c == d:
                continue
            if kind == 3 and r.random() < 0.5:
                a, b, c, d = c, d, a, b
        if kind == 3 and r.random() < 0.06:  # the segment is a point, on the ray's line or anywhere
            w = [d[0] - c[0], d[1] - c[1]]
            h = math.gcd(*w)
            i = r.randint(-2, h + 2)
            b = a = r.choice([a, [c[0] + i * w[0] // h, c[1] + i * w[1] // h]])
        out.append([[kind], a, b, c, d])
    return out


def locate(r, count, kind, n=30):
    out = []
    while len(out) < count:
        a, b, p = pt(r, n), pt(r, n), pt(r, n)
        v = [b[0] - a[0], b[1] - a[1]]
        g = math.gcd(*v) or 1
        on = lambda lo, hi: (lambda i: [a[0] + i * v[0] // g, a[1] + i * v[1] // g])(r.randint(lo, hi))
        near = lambda q: [q[0] + r.randint(-1, 1), q[1] + r.randint(-1, 1)]
        u = r.randint(0, 3)
        if u == 0:
            p = on(-3, g + 3)
        elif u == 1:
            p = near(on(0, g))
        elif u == 2:
            p = near(r.choice([a, b]))
        elif n >= 100:
            m, w = on(0, g), beside(r, v)
            p = [m[0] + w[0], m[1] + w[1]]
        if kind in (1, 2, 3):
            if a == b and kind < 3:
                continue
            out.append([[kind], a, b, p])
        elif kind == 4:
            k = (p[0] - a[0]) ** 2 + (p[1] - a[1]) ** 2 + r.choice([0, 0, 1, -1, r.randint(-50, 50)])
            if k > 0:
                out.append([[4], a, [k], p])
        elif kind == 5:
            ds = [disc(r, 8 if n < 100 else n // 3) for _ in range(3)]
            if [0, 0] in ds:
                continue
            w = r.random()
            if n >= 100 and r.random() < 0.6:
                ds[2] = beside(r, r.choice(ds[:2]))
                w = 1
            if w < 0.2:
                ds[2] = ds[0]
            elif w < 0.4:
                ds[2] = ds[1]
            elif w < 0.5:
                ds[2] = [-ds[0][0], -ds[0][1]]
            elif w < 0.6:
                ds[1] = [-ds[0][0], -ds[0][1]]
            m = r.randint(1, 3)
            q = [m * ds[2][0], m * ds[2][1]]
            k = q[0] ** 2 + q[1] ** 2 + r.choice([0, 0, 0, 0, 1, -1])
            if k > 0:
                out.append([[5], [k], ds[0], ds[1], q])
        else:
            c = pt(r, n)
            if r.random() < 0.08:
                c = on(-2, g + 2)
            out.append([[6], a, b, c, p])
    return out


def proj(r, count, kind, n=30):
    out = []
    while len(out) < count:
        a, b, p = pt(r, n), pt(r, n), pt(r, n)
        if a == b:
            continue
        v = [b[0] - a[0], b[1] - a[1]]
        if r.random() < 0.4:  # foot exactly at an end
            e = r.choice([a, b])
            m = r.choice([-1, 1])
            p = [e[0] - m * v[1], e[1] + m * v[0]]
            if n >= 100:
                p = [p[0] + r.randint(-1, 1), p[1] + r.randint(-1, 1)]
        out.append([[kind], a, b, p])
    return out


def hull(r, count, n=20, lo=1, hi=14):
    out = []
    for _ in range(count):
        m = r.randint(lo, hi)
        w = r.choice([2, 4, 8, n])
        h = r.choice([0, 1, w])
        pts = [[r.randint(0, w), r.randint(0, h)] for _ in range(m)]
        if r.random() < 0.3 and len(pts) > 1:  # collinear runs
            a, v = pts[0], [r.randint(-2, 2), r.randint(-2, 2)]
            pts += [[a[0] + i * v[0], a[1] + i * v[1]] for i in range(r.randint(1, 5))]
        elif hi > 14 and r.random() < 0.5:  # all on or near a circle or parabola: many hull vertices
            k = r.randint(5, n)
            s = r.choice([-1, 1])
            f = lambda x: [x, s * x * x] if k % 2 else [x, s * round(math.sqrt(max(0, k * k - x * x)) * r.choice([-1, 1]))]
            pts = [f(r.randint(-k, k)) for _ in range(m)]
        if r.random() < 0.15:
            v = [r.randint(-3, 3), r.randint(-3, 3)]
            pts = [[i * v[0], i * v[1]] for i in (r.randint(-4, 4) for _ in range(m))]
        out.append(pts)
    return out


# ---- polygons -----------------------------------------------------------------------------
def cross(o, a, b):
    return (a[0] - o[0]) * (b[1] - o[1]) - (a[1] - o[1]) * (b[0] - o[0])


def properly(a, b, c, d):
    return cross(a, b, c) * cross(a, b, d) < 0 and cross(c, d, a) * cross(c, d, b) < 0


def untangle(r, pts):
    n = len(pts)
    for _ in range(200):
        done = True
        for i in range(n):
            for j in range(i + 2, n):
                if i == 0 and j == n - 1:
                    continue
                if properly(pts[i], pts[i + 1], pts[j], pts[(j + 1) % n]):
                    pts[i + 1:j + 1] = reversed(pts[i + 1:j + 1])
                    done = False
        if done:
            break
    return pts


def staircase(r, w, many=5):
    """Rectilinear: a histogram over a base line."""
    x, pts = 0, []
    prev = None
    cols = r.randint(2, many)
    for _ in range(cols):
        h = r.randint(1, w)
        if h == prev:
            h = h % w + 1
        pts.append([x, h])
        x += r.randint(1, 2)
        pts.append([x, h])
        prev = h
    return [[0, 0]] + pts + [[x, 0]]


def comb(r, w, many=4):
    teeth = r.randint(2, many)
    pts = []
    for i in range(teeth):
        pts += [[2 * i, r.randint(2, w)], [2 * i + 1, r.randint(0, 1)]]
    pts.append([2 * teeth, w])
    return [[2 * teeth, -1]] + pts[::-1] + [[0, -1]]


def spiral(r, many=4):
    n = r.randint(2, many)
    outer, inner = [], []
    x0, y0, x1, y1 = 0, 0, 4 * n, 4 * n
    d = 0
    # a bent strip of width 1
    path = [[0, 0]]
    steps = [(1, 0), (0, 1), (-1, 0), (0, -1)]
    ln = 2 * n + 2
    p = [0, 0]
    for i in range(n + 2):
        s = steps[i % 4]
        p = [p[0] + s[0] * ln, p[1] + s[1] * ln]
        path.append(p)
        if i >= 1:
            ln -= 2
        if ln <= 1:
            break
    left = []
    for i, q in enumerate(path):
        def left_of(k):
            a, b = path[k], path[k + 1]
            dx, dy = (b[0] > a[0]) - (b[0] < a[0]), (b[1] > a[1]) - (b[1] < a[1])
            return -dy, dx
        o1 = left_of(i - 1) if i > 0 else None
        o2 = left_of(i) if i < len(path) - 1 else None
        ox = (o1[0] if o1 else 0) + (o2[0] if o2 else 0) if (o1 and o2) else (o1 or o2)[0]
        oy = (o1[1] if o1 else 0) + (o2[1] if o2 else 0) if (o1 and o2) else (o1 or o2)[1]
        left.append([q[0] + ox, q[1] + oy])
    return path + left[::-1]


def subdivide(r, pts):
    """Adds collinear vertices on edges that have lattice points."""
    out = []
    n = len(pts)
    for i in range(n):
        a, b = pts[i], pts[(i + 1) % n]
        out.append(a)
        g = math.gcd(b[0] - a[0], b[1] - a[1])
        if g > 1 and r.random() < 0.3:
            k = r.randint(1, g - 1)
            out.append([a[0] + (b[0] - a[0]) // g * k, a[1] + (b[1] - a[1]) // g * k])
    return out


def polygons(r, count, w=9, broken=False, lo=3, hi=16):
    """Mostly simple polygons of lo to hi vertices."""
    many = max(1, hi // 16)
    out = []
    while len(out) < count:
        k = r.randint(0, 6)
        if k <= 2:
            s = r.choice([3, 4, 6, w])
            n = r.randint(3, 9) if hi == 16 else r.randint(lo, hi)
            pts = []
            while len(pts) < min(n, (s + 1) ** 2 - 2):
                p = pt(r, s)
                if p not in pts:
                    pts.append(p)
            pts = untangle(r, pts)
        elif k == 3:
            pts = staircase(r, 4 * many, 5 * many)
        elif k == 4:
            pts = comb(r, 5 * many, 4 * many)
        elif k == 5:
            n, c = (r.randint(4, 9), 5) if hi == 16 else (r.randint(lo, hi), w)
            pts = sorted({tuple(disc(r, c)) for _ in range(n)} - {(0, 0)}, key=lambda p: math.atan2(p[1], p[0]))
            pts = [[p[0] + c, p[1] + c] for p in pts]
        else:
            pts = spiral(r, 4 * many)
        if r.random() < 0.4:
            pts = subdivide(r, pts)
        if r.random() < 0.5:
            pts = pts[::-1]
        if broken and len(pts) > 3:
            # move a vertex onto a vertex, an edge, or anywhere; repeat one; fold back
            i, j = r.randrange(len(pts)), r.randrange(len(pts))
            u = r.randint(0, 4)
            pts = [list(p) for p in pts]
            if u == 0:
                pts[i] = list(pts[j])
            elif u == 1:
                a, b = pts[j], pts[(j + 1) % len(pts)]
                g = math.gcd(b[0] - a[0], b[1] - a[1]) or 1
                m = r.randint(0, g)
                pts[i] = [a[0] + (b[0] - a[0]) // g * m, a[1] + (b[1] - a[1]) // g * m]
            elif u == 2:
                pts[i] = [pts[i][0] + r.randint(-2, 2), pts[i][1] + r.randint(-2, 2)]
            elif u == 3:
                pts.insert(i, list(pts[j]))
            else:
                pts.insert(i, list(pts[(i + 1) % len(pts)]))
        if len(pts) < lo or len(pts) > hi:
            continue
        out.append([list(p) for p in pts])
    return out


# ---- sets of curves -------------------------------------------------------------------------
def seg_set(r, count, lo=3, hi=9, sizes=(3, 5, 8, 20, 40)):
    out = []
    for _ in range(count):
        n = r.randint(lo, hi)
        w = r.choice(sizes)
        cs = []
        hub = pt(r, w)
        while len(cs) < n:
            a = pt(r, w)
            b = pt(r, w)
            u = r.randint(0, 9)
            if u == 0:
                b = [a[0], r.randint(0, w)]
            elif u == 1:
                b = [r.randint(0, w), a[1]]
            elif u == 2 and cs:
                c = r.choice(cs)
                a, b = [c[1], c[2]], [c[3], c[4]]
                if r.random() < 0.5:
                    a, b = b, a
            elif u == 3 and cs:  # overlapping
                c = r.choice(cs)
                v = [c[3] - c[1], c[4] - c[2]]
                g = math.gcd(*v) or 1
                i, j = r.randint(-2, g + 1), r.randint(0, g + 2)
                a = [c[1] + v[0] // g * i, c[2] + v[1] // g * i]
                b = [c[1] + v[0] // g * j, c[2] + v[1] // g * j]
            elif u in (4, 5):  # through or from the hub
                v = [r.randint(-3, 3), r.randint(-3, 3)]
                i, j = r.randint(-2, 0), r.randint(0, 3)
                a = [hub[0] + i * v[0], hub[1] + i * v[1]]
                b = [hub[0] + j * v[0], hub[1] + j * v[1]]
            elif u == 6 and cs:
                c = r.choice(cs)
                a = r.choice([[c[1], c[2]], [c[3], c[4]]])
            elif u == 7 and r.random() < 0.4:  # a point, on another segment or anywhere
                if cs and r.random() < 0.7:
                    c = r.choice(cs)
                    v = [c[3] - c[1], c[4] - c[2]]
                    g = math.gcd(*v) or 1
                    i = r.randint(0, g)
                    a = [c[1] + v[0] // g * i, c[2] + v[1] // g * i]
                b = list(a)
            cs.append([1, a[0], a[1], b[0], b[1]])
        out.append(cs)
    return out


def stars(r, count):
    """Many segments through one point, bundles of parallels, and both together."""
    out = []
    dirs = [[x, y] for x in range(-4, 5) for y in range(-4, 5) if math.gcd(x, y) == 1 and (x > 0 or x == 0 and y > 0)]
    for _ in range(count):
        cs = []
        kind = r.randint(0, 2)
        if kind != 1:
            h = pt(r, 6)
            for v in r.sample(dirs, r.randint(8, 14)):
                i, j = r.choice([(-1, 1), (-2, 1), (-1, 2), (0, 1), (0, 2), (-1, 0), (-2, 0), (0, 1), (-1, 1)])
                cs.append([1, h[0] + i * v[0], h[1] + i * v[1], h[0] + j * v[0], h[1] + j * v[1]])
                if r.random() < 0.1:
                    cs.append([1, h[0] + (j - 1) * v[0], h[1] + (j - 1) * v[1], h[0] + (j + 1) * v[0], h[1] + (j + 1) * v[1]])
        if kind != 0:
            v = r.choice(dirs)
            u = r.choice([d for d in dirs if d != v])
            a, b = pt(r, 4), r.randint(3, 6)
            for i in range(b):
                o = [a[0] + i * u[0], a[1] + i * u[1]]
                m, n = r.randint(-2, 0), r.randint(1, 3)
                cs.append([1, o[0] + m * v[0], o[1] + m * v[1], o[0] + n * v[0], o[1] + n * v[1]])
            for i in range(r.randint(1, 4)):
                o = [a[0] + i * v[0], a[1] + i * v[1]]
                m, n = r.randint(-1, 1), r.randint(b - 2, b)
                cs.append([1, o[0] + m * u[0], o[1] + m * u[1], o[0] + n * u[0], o[1] + n * u[1]])
        for c in cs:
            if r.random() < 0.5:
                c[1:] = c[3:] + c[1:3]
        r.shuffle(cs)
        out.append(cs)
    return out


def distinct(cs, gap=1e-4):
    """No two crossings of the lines of the segments lie closer than gap, unless they are the same."""
    ps = []
    for i, (_, ax, ay, bx, by) in enumerate(cs):
        ps += [(ax, ay), (bx, by)]
        for _, cx, cy, dx, dy in cs[:i]:
            ux, uy, vx, vy = bx - ax, by - ay, dx - cx, dy - cy
            det = ux * vy - uy * vx
            if det:
                t = ((cx - ax) * vy - (cy - ay) * vx) / det
                ps.append((ax + t * ux, ay + t * uy))
    return not any(1e-10 < max(abs(p[0] - q[0]), abs(p[1] - q[1])) < gap
                   for i, p in enumerate(ps) for q in ps[:i])


def narrow(r, count, n=200):
    """Long segments that are nearly parallel or nearly touch, among a few others."""
    out = []
    while len(out) < count:
        cs = []
        for _ in range(r.randint(1, 2)):
            a, b, c, d = segseg(r, 1, n)[0]
            cs += [[1, *a, *b], [1, *c, *d]]
        while len(cs) < 6 and r.random() < 0.6:
            m = r.choice(cs)
            u = r.random()
            v = [m[3] - m[1], m[4] - m[2]]
            if u < 0.4:
                w = beside(r, v)
                i, j = r.randint(-1, 1), r.randint(0, 1)
                e = r.choice([m[1:3], m[3:]])
                cs.append([1, e[0] - i * w[0], e[1] - i * w[1], e[0] + j * w[0], e[1] + j * w[1]])
            elif u < 0.7:
                x, y = r.choice([m[1:3], m[3:]])
                cs.append([1, x + r.randint(-1, 1), y + r.randint(-1, 1), *pt(r, n)])
            else:
                cs.append([1, *pt(r, n), *pt(r, n)])
        r.shuffle(cs)
        if distinct(cs):
            out.append(cs)
    return out


def rosettes(r, count):
    """Circles, arcs and segments through one point; circles that all touch there; and rows of circles."""
    out = []
    for _ in range(count):
        cs = []
        kind = r.randint(0, 2)
        h = disc(r, 3)
        for _ in range(r.randint(5, 9)):
            if kind == 0:
                c = disc(r, 5)
            elif kind == 1:  # all touch in h
                j = r.choice([-4, -3, -2, -1, 1, 2, 3, 4])
                c = [h[0] + j, h[1]] if h[0] % 2 else [h[0], h[1] + j]
            else:  # equal circles in a row
                j = len(cs)
                c = [h[0] + j, h[1]]
            k = r.choice([4, 1, 4, 2, 5]) if kind == 2 else (c[0] - h[0]) ** 2 + (c[1] - h[1]) ** 2
            if k == 0:
                continue
            u = r.randint(0, 5)
            if u <= 1:
                cs.append([2, c[0], c[1], k])
            elif u <= 4:
                cs.append([3, c[0], c[1], k, r.randint(1, 16), r.randint(1, 16)])
            else:
                v = disc(r, 2)
                i, j = r.randint(-2, 0), r.randint(1, 2)
                cs.append([1, h[0] + i * v[0], h[1] + i * v[1], h[0] + j * v[0], h[1] + j * v[1]])
        if len(cs) > 1:
            r.shuffle(cs)
            out.append(cs)
    return out


def mixed(r, count, lo=2, hi=6, w=5):
    out = []
    ks = [1, 1, 2, 4, 5, 8, 9, 10, 16]
    for _ in range(count):
        n = r.randint(lo, hi)
        cs = []
        while len(cs) < n:
            u = r.randint(0, 8)
            c, k = disc(r, w), r.choice(ks)
            if u <= 2:
                a, b = disc(r, w), disc(r, w)
                circ = [x for x in cs if x[0] > 1]
                if circ and r.random() < 0.5:  # tangent, or ending on the circle
                    x = r.choice(circ)
                    m = math.isqrt(x[3])
                    if m * m == x[3]:
                        d = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
                        a = [x[1] + m * d[0], x[2] + m * d[1]]
                        if r.random() < 0.6:
                            i, j = r.randint(-3, 0), r.randint(0, 3)
                            a, b = [a[0] - i * d[1], a[1] + i * d[0]], [a[0] - j * d[1], a[1] + j * d[0]]
                if r.random() < 0.08:
                    b = a
                cs.append([1, a[0], a[1], b[0], b[1]])
            else:
                circ = [x for x in cs if x[0] > 1]
                if circ and r.random() < 0.35:
                    x = r.choice(circ)
                    if r.random() < 0.4:
                        c, k = [x[1], x[2]], x[3]
                    else:
                        m = math.isqrt(x[3])
                        if m * m == x[3]:  # touching from outside or inside
                            j = r.randint(1, 3)
                            s = r.choice([-1, 1])
                            d = r.choice([(1, 0), (0, 1), (-1, 0), (0, -1)])
                            if m + s * j > 0:
                                c, k = [x[1] + (m + s * j) * d[0], x[2] + (m + s * j) * d[1]], j * j
                if u <= 4:
                    cs.append([2, c[0], c[1], k])
                else:
                    cs.append([3, c[0], c[1], k, r.randint(1, 16), r.randint(1, 16)])
        out.append(cs)
    return out
