"""C23: curves, boxes, scanlines, tangents and statistics of the Python interface."""
import sys, os, math, copy, pickle, gc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyvf
from pyvf import check, note, stats, violate
import numpy
import vigra
import geomap
from geomap import Polygon, Vector2Array, BoundingBox, Rect2D, Size2D

PI2 = 2 * math.pi


def items(it):
    # the first item by the old protocol, the others by that of Python 3
    try:
        r = [it.next()]
    except StopIteration:
        return []
    return r + list(it)


def pt(p):
    return (p[0], p[1])


def pts(l):
    return [(p[0], p[1]) for p in l]


def near(a, b, eps=1e-8):
    return abs(a - b) <= eps * (1 + max(abs(a), abs(b)))


def dist(a, b):
    return math.hypot(a[0] - b[0], a[1] - b[1])


def length(l):
    return sum(dist(l[i], l[i + 1]) for i in range(len(l) - 1))


def refused(f, *args):
    try:
        f(*args)
    except (RuntimeError, IndexError, ValueError, TypeError):
        stats.count('rejected')
        return True
    return False


# ----------------------------------------------------------------- curves

def randomPoints(r, n, closed=False, step=1.0):
    kind = r.below(4)
    if kind == 0:      # smooth curve
        a, b = r.uni(.05, .5), r.uni(0, PI2)
        res, p, ang = [], (r.uni(0, 10), r.uni(0, 10)), r.uni(0, PI2)
        for i in range(n):
            res.append(p)
            s = r.uni(.4, 1.6) * step
            ang += a * math.sin(b + i * .3) + r.uni(-.1, .1)
            p = (p[0] + s * math.cos(ang), p[1] + s * math.sin(ang))
    elif kind == 1:    # circle or spiral
        c, rad, k = (r.uni(5, 15), r.uni(5, 15)), r.uni(3, 8) * step, r.uni(-.02, .02)
        res = []
        for i in range(n):
            a = PI2 * (i + r.uni(-.2, .2)) / max(1, n)
            res.append((c[0] + (rad + k * i) * math.cos(a), c[1] + (rad + k * i) * math.sin(a)))
    elif kind == 2:    # lattice points
        p, res = (r.range(0, 9), r.range(0, 9)), []
        for i in range(n):
            res.append((float(p[0]), float(p[1])))
            d = r.pick([(1, 0), (0, 1), (1, 1), (1, -1), (0, -1)])
            p = (p[0] + d[0], p[1] + d[1])
    else:
        res = [(r.uni(0, 12) * step, r.uni(0, 12) * step) for i in range(n)]
    if closed and res:
        res.append(res[0])
    return res


def checkPolygon(p, m, what):
    check(len(p) == len(m) and pts(p.__iter__()) == m and [pt(p[i]) for i in range(len(m))] == m, 'polygon-points', lambda: '%s: %s instead of %s' % (what, pts(p), m))
    check(near(p.length(), length(m)), 'polygon-length', lambda: '%s: length %s instead of %s' % (what, p.length(), length(m)))
    ar = sum((m[i][0] * m[i + 1][1] - m[i][1] * m[i + 1][0]) / 2 for i in range(len(m) - 1))
    check(near(p.partialArea(), -ar, 1e-7), 'polygon-area', lambda: '%s: area %s instead of %s' % (what, p.partialArea(), ar))
    bb = p.boundingBox()
    if m:
        ref = ((min(x for x, y in m), min(y for x, y in m)), (max(x for x, y in m), max(y for x, y in m)))
        check((pt(bb.begin()), pt(bb.end())) == ref, 'polygon-bbox', lambda: '%s: %s instead of %s' % (what, bb, ref))
    else:
        check(bb.isEmpty(), 'polygon-bbox', lambda: '%s: %s' % (what, bb))
    check(p.closed() == (len(m) > 0 and m[0] == m[-1]), 'polygon-closed', what)
    al = p.arcLengthList()
    check(len(al) == max(len(m), 1) and all(near(al[i], length(m[:i + 1])) for i in range(len(m))), 'polygon-arclength', lambda: '%s: %s' % (what, al))
    repr(p)


def casePolygon(r):
    """a Polygon behaves like a list of points with always current measures"""
    m = randomPoints(r, r.pick([0, 1, 2, 3, 5, 9, 20]), r.chance(.3))
    p = Polygon(list(m)) if r.chance(.7) else Polygon(Vector2Array(list(m)))
    note('Polygon of %d points' % len(m))
    other = None
    for step in range(r.range(3, 25)):
        n = len(m)
        op = r.below(16)
        q = (r.uni(-5, 15), r.uni(-5, 15))
        if r.chance(.5):      # make all caches valid
            p.length(), p.partialArea(), p.boundingBox()
        if op == 0:
            note('append')
            p.append(q)
            m.append(q)
        elif op == 1:
            i = r.range(-n - 1, n)
            note('insert(%d)' % i)
            p.insert(i, q)
            m.insert(i if i >= 0 else i + n + 1, q)
            check(refused(p.insert, n + 2, q) and refused(p.insert, -n - 3, q), 'polygon-range', 'insert far away')
        elif op == 2 and n:
            i = r.range(-n, n - 1)
            note('del [%d]' % i)
            del p[i]
            del m[i]
            check(refused(p.__delitem__, len(m)) and refused(p.__delitem__, -len(m) - 1), 'polygon-range', 'deleting a missing point')
        elif op == 3 and n:
            i = r.range(-n, n - 1)
            note('[%d] = ..' % i)
            p[i] = q
            m[i] = q
            check(refused(p.__setitem__, n, q) and refused(p.__setitem__, -n - 1, q), 'polygon-range', 'setting a missing point')
        elif op == 4:
            o = randomPoints(r, r.range(0, 6))
            if m and o and r.chance(.4):
                o[0] = m[-1] if r.chance(.7) else (m[-1][0] + 10. ** -r.range(2, 12), m[-1][1])
            note('extend(%d)' % len(o))
            p.extend(Polygon(o))
            m += o[1:] if m and o and m[-1] == o[0] else o    # a common point is not repeated
        elif op == 5 and n:
            i = r.range(-n, n - 1)
            note('split(%d)' % i)
            rest = p.split(i)
            i %= n
            checkPolygon(rest, m[i:], 'second part of split(%d)' % i)
            m = m[:i + 1]
            stats.count('splits')
        elif op == 6:
            note('reverse')
            p.reverse()
            m.reverse()
        elif op == 7:
            o = randomPoints(r, r.range(0, 6))
            note('swap(%d)' % len(o))
            b = Polygon(list(o)) if r.chance(.5) else Vector2Array(list(o))
            if r.chance(.5) and isinstance(b, Polygon):
                b.length(), b.partialArea(), b.boundingBox()
            p.swap(b)
            check(pts(b) == m, 'polygon-swap', 'swapped polygon has %s' % pts(b))
            if isinstance(b, Polygon):
                checkPolygon(b, m, 'partner of swap')
            m = o
        elif op == 8:
            a, b = r.range(-n - 2, n + 2), r.range(-n - 2, n + 2)
            s = slice(r.pick([a, None]), r.pick([b, None]))
            note('slice %s' % s)
            checkPolygon(p[s], m[s], 'slice %s' % s)
            stats.count('slices')
        elif op == 9:
            note('pickle')
            p = pickle.loads(pickle.dumps(p))
            stats.count('pickled')
        elif op == 10:
            note('copy')
            c = Polygon(p)
            c.append((77, 77))
            check(len(p) == n, 'polygon-copy', 'appending to a copy')
            checkPolygon(c, m + [(77, 77)], 'modified copy')
        elif op == 11:
            for i in (n, n + 3, -n - 1):
                check(refused(p.__getitem__, i), 'polygon-range', '[%d] of %d points' % (i, n))
        elif op == 12 and n:
            f = r.uni(-3, 3)
            sc, sh = pts(p * f), pts(p + q)
            check(all(near(sc[i][k], m[i][k] * f) and near(sh[i][k], m[i][k] + q[k]) for i in range(n) for k in (0, 1)) and len(sc) == len(sh) == n, 'polygon-arithmetic', '* and +')
            ri = [(int(x[0]), int(x[1])) for x in p.roundToInteger()]
            check(all(abs(ri[i][k] - m[i][k]) <= .5 + 1e-9 for i in range(n) for k in (0, 1)) and len(ri) == n, 'polygon-round', lambda: 'roundToInteger: %s of %s' % (ri, m))
        elif op == 13 and n > 1:
            i, t = r.below(n - 1), r.uni(0, 1)
            v = p.interpolate(i, t)
            check(all(near(v[k], m[i][k] * (1 - t) + m[i + 1][k] * t) for k in (0, 1)), 'polygon-interpolate', '(%d, %s)' % (i, t))
        elif op == 14 and n > 1:
            v = pt(p.nearestPoint(q))
            best = min(segDist(q, m[i], m[i + 1]) for i in range(n - 1))
            check(near(dist(v, q), best, 1e-7) and min(segDist(v, m[i], m[i + 1]) for i in range(n - 1)) < 1e-7, 'polygon-nearest', lambda: 'nearestPoint(%s) of %s = %s' % (q, m, v))
            stats.count('nearest')
        elif op == 15 and n:
            note('bad slice')
            refused(p.__getitem__, slice(None, None, 2))
        checkPolygon(p, m, 'after %s' % pyvf.trace[-1])
        stats.state(pyvf.trace[-1], n, len(m), m and m[0])
    stats.count('polygons')


def segDist(q, a, b):
    d = (b[0] - a[0], b[1] - a[1])
    l2 = d[0] ** 2 + d[1] ** 2
    t = 0 if l2 == 0 else max(0, min(1, ((q[0] - a[0]) * d[0] + (q[1] - a[1]) * d[1]) / l2))
    return dist(q, (a[0] + t * d[0], a[1] + t * d[1]))


# ------------------------------------------------------------------ boxes

def caseBoxes(r):
    def point():
        return (float(r.range(-6, 6)), float(r.range(-6, 6))) if r.chance(.6) else (r.uni(-6, 6), r.uni(-6, 6))

    def box():
        if r.chance(.15):
            return BoundingBox(), None
        a, b = point(), point()
        a, b = (min(a[0], b[0]), min(a[1], b[1])), (max(a[0], b[0]), max(a[1], b[1]))
        return BoundingBox(a, b), (a, b)

    def chk(b, m, what):
        if m is None:
            check(b.isEmpty(), 'box', lambda: '%s: %s should be empty' % (what, b))
        else:
            check(not b.isEmpty() and all(near(b.begin()[k], m[0][k]) and near(b.end()[k], m[1][k]) for k in (0, 1)), 'box', lambda: '%s: %s instead of %s' % (what, b, m))
            check(all(near(b.size()[k], m[1][k] - m[0][k]) for k in (0, 1)) and near(b.area(), (m[1][0] - m[0][0]) * (m[1][1] - m[0][1])), 'box-size', what)
        repr(b)
        c = pickle.loads(pickle.dumps(b))
        check(c == b or m is None and c.isEmpty(), 'box-pickle', what)

    def inter(m, n):
        if m is None or n is None:
            return None
        a = tuple(max(m[0][k], n[0][k]) for k in (0, 1))
        b = tuple(min(m[1][k], n[1][k]) for k in (0, 1))
        return None if a[0] > b[0] or a[1] > b[1] else (a, b)

    def union(m, n):
        if m is None or n is None:
            return m or n
        return (tuple(min(m[0][k], n[0][k]) for k in (0, 1)), tuple(max(m[1][k], n[1][k]) for k in (0, 1)))
    for i in range(20):
        (a, m), (b, n) = box(), box()
        q = point()
        chk(a, m, 'box')
        chk(a | b, union(m, n), 'union of %s and %s' % (m, n))
        chk(a & b, inter(m, n), 'intersection of %s and %s' % (m, n))
        chk(a | q, union(m, (q, q)), 'union of %s and %s' % (m, q))
        check(a.contains(q) == (m is not None and all(m[0][k] <= q[k] <= m[1][k] for k in (0, 1))), 'box-contains', '%s in %s' % (q, m))
        if n is not None:
            check(a.contains(b) == (m is not None and inter(m, n) == n), 'box-contains-box', '%s in %s' % (n, m))
        check(a.intersects(b) == (inter(m, n) is not None), 'box-intersects', '%s and %s' % (m, n))
        check((a == b) == (m == n) and (a != b) == (m != n), 'box-equal', '%s and %s' % (m, n))
        c = BoundingBox(a)
        c |= b
        chk(c, union(m, n), 'in-place union')
        chk(a, m, 'operand')
        if m is not None and all(m[1][k] - m[0][k] > 1e-6 or m[0][k] % 1 == q[k] % 1 == 0 for k in (0, 1)):
            c = BoundingBox(a)
            c.moveBy(q)
            chk(c, tuple((x[0] + q[0], x[1] + q[1]) for x in m), 'moveBy')
            c.moveTo(q)
            chk(c, (q, (q[0] + m[1][0] - m[0][0], q[1] + m[1][1] - m[0][1])), 'moveTo')
            d = r.uni(0, 2)
            c = BoundingBox(a)
            c.addBorder(d)
            chk(c, ((m[0][0] - d, m[0][1] - d), (m[1][0] + d, m[1][1] + d)), 'addBorder')
            ip = geomap.intPos(a)
            check((ip.left(), ip.top(), ip.right(), ip.bottom()) == tuple(math.floor(x + .5) for x in m[0]) + tuple(math.floor(x + .5) + 1 for x in m[1]), 'box-intpos', '%s of %s' % (ip, m))
        ip = geomap.intPos(q)
        check((ip[0], ip[1]) == tuple(math.floor(x + .5) for x in q), 'intpos', '%s of %s' % (ip, q))
        stats.count('boxes')
        stats.state(m, n)
    x0, y0, w, h = r.range(-5, 5), r.range(-5, 5), r.range(0, 5), r.range(0, 5)
    mesh = [pt(x) for x in items(geomap.meshIter(Rect2D(x0, y0, x0 + w, y0 + h)))]
    check(mesh == [(x, y) for y in range(y0, y0 + h) for x in range(x0, x0 + w)], 'mesh', lambda: 'meshIter of %dx%d at (%d, %d): %s' % (w, h, x0, y0, mesh))
    mesh = [pt(x) for x in items(geomap.meshIter(Size2D(w, h)))]
    check(mesh == [(x, y) for y in range(h) for x in range(w)], 'mesh', lambda: 'meshIter of %dx%d: %s' % (w, h, mesh))
    rc = Rect2D(x0, y0, x0 + w, y0 + h)
    p2 = pickle.loads(pickle.dumps(rc))
    check(p2 == rc and p2.width() == w and p2.height() == h and p2.area() == w * h, 'rect-pickle', str(p2))
    for y in range(y0 - 1, y0 + h + 1):
        for x in range(x0 - 1, x0 + w + 1):
            check(rc.contains((x, y)) == (x0 <= x < x0 + w and y0 <= y < y0 + h), 'rect-contains', '(%d, %d) in %s' % (x, y, rc))


# -------------------------------------------------------------- scanlines

def caseScan(r):
    # star-shaped polygon around a random centre, may exceed the image
    n = r.range(3, 12)
    w, h = r.range(4, 20), r.range(4, 20)
    c = (r.uni(-2, w + 2), r.uni(-2, h + 2))
    angs = sorted(r.uni(0, PI2) for i in range(n))
    if any((angs[(i + 1) % n] - angs[i]) % PI2 > math.pi - .1 for i in range(n)):
        angs = [PI2 * (i + r.uni(-.2, .2)) / n for i in range(n)]
    m = [(c[0] + q * math.cos(a), c[1] + q * math.sin(a)) for a in angs for q in (r.uni(1, 9),)]
    m.append(m[0])
    if r.chance(.5):
        m.reverse()
    note('polygon %s in %dx%d' % (m, w, h))
    p = Polygon(m)
    sl = geomap.scanPoly(p)
    segs = {}
    for y in range(sl.startIndex(), sl.endIndex()):
        s = sl[y]
        segs[y] = [(s[i].begin, s[i].end) for i in range(len(s))]
    check(len(sl) == sl.endIndex() - sl.startIndex(), 'scan-len', str(len(sl)))
    check(refused(sl.__getitem__, sl.startIndex() - 1) and refused(sl.__getitem__, sl.endIndex()), 'scan-range', 'line out of range')
    border = set((x, y) for y in segs for b, e in segs[y] for x in range(b, e))
    # iterator must keep what it iterates over alive
    it = geomap.scanPoly(p).points()
    gc.collect()
    listed = [(q[0], q[1]) for q in items(it)]
    check(len(listed) == len(set(listed)) and set(listed) == border, 'scan-points', lambda: 'points(): %s instead of %s' % (listed, sorted(border)))
    # every crossed pixel is in, no pixel far from the border is
    for i in range(len(m) - 1):
        for k in range(40):
            t = (k + .5) / 40
            q = (m[i][0] * (1 - t) + m[i + 1][0] * t, m[i][1] * (1 - t) + m[i + 1][1] * t)
            if min(abs((v + .5) % 1) for v in q) > 1e-6 and min(abs((v + .5) % 1 - 1) for v in q) > 1e-6:
                check((math.floor(q[0] + .5), math.floor(q[1] + .5)) in border, 'scan-missing', lambda: '%s' % (q,))
    img = vigra.ScalarImage((w, h))
    img[...] = 1.0
    cnt = geomap.drawScannedPoly(sl, img, 5.0)
    a = numpy.asarray(img)
    ref = set(q for q in border if 0 <= q[0] < w and 0 <= q[1] < h)
    check(set((int(x), int(y)) for x, y in zip(*numpy.nonzero(a == 5))) == ref and cnt == len(ref) and int((a == 1).sum()) == w * h - cnt, 'draw', lambda: 'drawScannedPoly: %d pixels, %d expected' % (cnt, len(ref)))
    img = vigra.ScalarImage((w, h))
    img[...] = 1.0
    cnt = geomap.fillScannedPoly(sl, img, 7.0)
    a = numpy.asarray(img)
    fill = set()
    for y in range(h):
        for x in range(w):
            if p.partialArea() > 0 and (x, y) not in border and inside(m, (x, y)):
                fill.add((x, y))   # only positively oriented ones have an inside
    check(set((int(x), int(y)) for x, y in zip(*numpy.nonzero(a == 7))) == fill and cnt == len(fill) and int((a == 1).sum()) == w * h - cnt, 'fill', lambda: 'fillScannedPoly: %s instead of %s' % (sorted((int(x), int(y)) for x, y in zip(*numpy.nonzero(a == 7))), sorted(fill)))
    # edges in label images: marking counts, removing undoes and reports freed pixels
    img = vigra.ScalarImage((w, h))
    base = numpy.zeros((w, h))
    for x in range(w):
        for y in range(h):
            base[x, y] = r.range(0, 3) if r.chance(.9) else -r.range(1, 2)
            img[x, y] = base[x, y]
    times = r.range(1, 3)
    for t in range(times):
        geomap.markEdgeInLabelImage(sl, img)
        for x in range(w):
            for y in range(h):
                want = base[x, y]
                if (x, y) in ref:
                    want = min(want, 0) - 1 - t
                check(img[x, y] == want, 'mark', lambda: 'pixel (%d, %d) is %s instead of %s' % (x, y, img[x, y], want))
    for t in range(times):
        freed = [(q[0], q[1]) for q in geomap.removeEdgeFromLabelImage(sl, img, 9.0)]
        want = set(q for q in ref if base[q] >= 0) if t == times - 1 else set()
        check(len(freed) == len(set(freed)) and set(freed) == want, 'unmark', lambda: 'freed pixels %s instead of %s' % (freed, sorted(want)))
    for x in range(w):
        for y in range(h):
            want = 9 if (x, y) in ref and base[x, y] >= 0 else base[x, y]
            check(img[x, y] == want, 'unmark', lambda: 'pixel (%d, %d) is %s instead of %s' % (x, y, img[x, y], want))
    stats.count('filled_pixels', len(fill))
    stats.count('drawn_pixels', len(ref))
    if len(ref) < len(border):
        stats.count('clipped')
    stats.state(m)


def inside(m, q):
    res = False
    for i in range(len(m) - 1):
        (x0, y0), (x1, y1) = m[i], m[i + 1]
        if (y0 > q[1]) != (y1 > q[1]) and q[0] < (x1 - x0) * (q[1] - y0) / (y1 - y0) + x0:
            res = not res
    return res


# --------------------------------------------------------------- tangents

def gauss(x, sigma, order=0):
    g = math.exp(-x * x / 2 / sigma ** 2) / (math.sqrt(PI2) * sigma)
    s2 = sigma ** 2
    if order == 0:
        return g
    if order == 1:
        return -x / s2 * g
    if order == 2:
        return (x * x / s2 - 1) / s2 * g
    return (3 * x / s2 - x ** 3 / s2 ** 2) / s2 * g


def radius(sigma, order=0):
    return math.ceil((3.0 + 0.5 * order) * sigma)


def arcs(m):
    al = [0.0]
    for i in range(1, len(m)):
        al.append(al[-1] + dist(m[i], m[i - 1]))
    return al


def extended(m, conf):
    """curve continued beyond its ends: [(arc length, point, confidence)], index of m[0]"""
    n, al = len(m), arcs(m)
    L = al[-1]
    if m[0] == m[-1]:
        res = [(al[k] - L, m[k], conf[k]) for k in range(n - 1)] + [(al[k], m[k], conf[k]) for k in range(n)] + [(al[k] + L, m[k], conf[k]) for k in range(1, n)]
    else:
        f, l = m[0], m[-1]
        res = [(-al[k], (2 * f[0] - m[k][0], 2 * f[1] - m[k][1]), conf[k]) for k in range(n - 1, 0, -1)]
        res += [(al[k], m[k], conf[k]) for k in range(n)]
        res += [(2 * L - al[k], (2 * l[0] - m[k][0], 2 * l[1] - m[k][1]), conf[k]) for k in range(n - 2, -1, -1)]
    return res, n - 1


def at(ext, s):
    """point at arc length s by linear interpolation, None if not available"""
    for i in range(1, len(ext)):
        a, b = ext[i - 1], ext[i]
        if a[0] <= s <= b[0] and b[0] > a[0]:
            t = (s - a[0]) / (b[0] - a[0])
            return (a[1][0] * (1 - t) + b[1][0] * t, a[1][1] * (1 - t) + b[1][1] * t)
    return None


def angleDiff(a, b):
    return abs((a - b + math.pi) % PI2 - math.pi)


def checkTangents(res, ref, al, what, eps=1e-5):
    """ref: tangent vectors or None where the angle is not determined"""
    check(len(res) == len(ref), what + '-size', lambda: '%d tangents instead of %d' % (len(res), len(ref)))
    prev = 0.0
    for i in range(len(res)):
        check(near(res[i][0], al[i]), what + '-arclength', lambda: 'tangent %d at %s instead of %s' % (i, res[i][0], al[i]))
        check(abs(res[i][1] - prev) <= math.pi + 1e-9, what + '-continuity', lambda: 'tangent angles jump from %s to %s' % (prev, res[i][1]))
        prev = res[i][1]
        if ref[i] is not None and math.hypot(*ref[i]) > 1e-4:
            check(angleDiff(res[i][1], math.atan2(ref[i][1], ref[i][0])) < eps / min(1, math.hypot(*ref[i])), what, lambda: 'tangent %d at %s is %s instead of %s' % (i, al[i], res[i][1], math.atan2(ref[i][1], ref[i][0])))
            stats.count('tangents')


def normGauss(ext, o, i, n, scale, cut):
    """derivative of the normalized Gaussian average at point i"""
    t = ext[o + i][0]
    W = dW = 0.0
    S, dS = [0.0, 0.0], [0.0, 0.0]

    def add(e):
        nonlocal W, dW
        d = e[0] - t
        w = e[2] * math.exp(-d * d / 2 / scale ** 2)
        g = d / scale ** 2 * w
        W += w
        dW += g
        for k in (0, 1):
            S[k] += w * e[1][k]
            dS[k] += g * e[1][k]
    add(ext[o + i])
    for s in (1, -1):
        for k in range(1, n):
            e = ext[o + i + s * k]
            if abs(e[0] - t) > cut * scale:
                break
            add(e)
    return tuple((W * dS[k] - dW * S[k]) / (W * W) for k in (0, 1))


def third(ext, o, i, d):
    s = ext[o + i][0]
    p = [at(ext, s + k * d) for k in (-2, -1, 1, 2)]
    if any(x is None for x in p):
        return None
    return math.hypot(*[(p[3][k] - 2 * p[2][k] + 2 * p[1][k] - p[0][k]) / (2 * d ** 3) for k in (0, 1)])


def caseTangents(r):
    n = r.pick([2, 3, 5, 8, 12, 20, 30])
    m = randomPoints(r, n, r.chance(.4))
    n = len(m)
    m = [m[i] for i in range(n) if i == 0 or m[i] != m[i - 1]]
    n = len(m)
    if n < 2:
        return
    note('curve %s' % m)
    stats.state(m)
    al = arcs(m)
    conf = [r.uni(.3, 2) for i in range(n)]
    if m[0] == m[-1]:
        conf[-1] = conf[0]
    ext, o = extended(m, conf)
    kind = r.below(9)
    note('kind %d' % kind)
    if kind == 0:
        dx, skip = r.range(1, 4), r.range(0, 3)
        if n < 2 * dx + 2 * skip:
            check(refused(geomap.tangentList, Vector2Array(m), dx, skip) and refused(geomap.curvatureList, Vector2Array(m), dx, skip), 'tangents-short', 'short curve accepted')
            return
        ref, pos, cur = [], [], []
        for i in range(skip + dx, n - skip - dx):
            a, b, c = m[i - dx], m[i], m[i + dx]
            t = (c[0] - a[0], c[1] - a[1])
            if math.hypot(*t) < 1e-7:
                t = None
            else:
                ref.append(t)
                pos.append(al[i])
            u, v = (b[0] - a[0], b[1] - a[1]), (c[0] - b[0], c[1] - b[1])
            if math.hypot(*u) >= 1e-8 and math.hypot(*v) >= 1e-8:
                turn = math.atan2(u[0] * v[1] - u[1] * v[0], u[0] * v[0] + u[1] * v[1])
                cur.append((al[i], 2 * turn / (math.hypot(*u) + math.hypot(*v)), abs(abs(turn) - math.pi) < 1e-6))
        checkTangents(geomap.tangentList(Vector2Array(m), dx, skip), ref, pos, 'tangentList')
        res = geomap.curvatureList(Vector2Array(m), dx, skip)
        check(len(res) == len(cur), 'curvature-size', lambda: '%d values instead of %d' % (len(res), len(cur)))
        for x, y in zip(res, cur):
            check(near(x[0], y[0]) and (abs(x[1] - y[1]) < 1e-5 or y[2] and abs(abs(x[1]) - abs(y[1])) < 1e-5), 'curvature', lambda: 'curvature %s instead of %s' % (x, y))
            stats.count('curvatures')
        check(refused(geomap.curvatureList, Vector2Array(m), 0, skip) and refused(geomap.tangentList, Vector2Array(m), 0, skip), 'tangents-dx', 'dx = 0 accepted')
    elif kind == 1:
        s = r.uni(.3, al[-1] * 1.2)
        # well inside (outside) of what the extended curve offers
        if s < .95 * al[-1] and s < al[-1] - 1e-6:
            ref = []
            for i in range(n):
                a, b = at(ext, al[i] - s), at(ext, al[i] + s)
                ref.append(None if a is None or b is None else tuple((b[k] - a[k]) / (2 * s) for k in (0, 1)))
            if all(x is not None for x in ref):
                try:
                    res = geomap.tangentListChord(list(m), list(conf), s)
                except RuntimeError as e:
                    if 'shorter' not in str(e):
                        raise
                    # the last point of the extension is not offered
                    check(s > al[-1] - max(al[i + 1] - al[i] for i in range(n - 1)) - 1e-6, 'chord-refused', lambda: 'distance %s on a curve of length %s refused' % (s, al[-1]))
                    stats.count('rejected')
                    return
                checkTangents(res, ref, al, 'tangentListChord')
        elif s > al[-1]:
            check(refused(geomap.tangentListChord, list(m), list(conf), s), 'chord-long', lambda: 'distance %s on a curve of length %s accepted' % (s, al[-1]))
    elif kind == 2:
        s = r.uni(.3, al[-1] / 2.5)
        ref = [third(ext, o, i, s) for i in range(n)]
        if all(x is not None for x in ref):
            try:
                res = geomap.thirdDerivativeOfPolygon(list(m), s)
            except RuntimeError as e:
                if 'shorter' not in str(e):
                    raise
                check(2 * s > al[-1] - max(al[i + 1] - al[i] for i in range(n - 1)) - 1e-6, 'third-refused', lambda: 'distance %s on a curve of length %s refused' % (s, al[-1]))
                stats.count('rejected')
                return
            check(len(res) == n, 'third-size', str(len(res)))
            for i in range(n):
                check(near(res[i][0], al[i]) and abs(res[i][1] - ref[i]) < 1e-6 * (1 + ref[i]), 'third', lambda: 'third derivative %d: %s instead of %s' % (i, res[i], (al[i], ref[i])))
                stats.count('third_derivatives')
            # scales derived from it
            d = min(s, al[-1] / 16)
            f, mn = r.uni(.5, 2), r.uni(.3, 1)
            try:
                res = geomap.gaussianOptimalScales(list(m), list(conf), f, s, mn)
            except RuntimeError as e:
                check('shorter' in str(e), 'scales', str(e))
                return
            for i in range(n):
                q3 = third(ext, o, i, d)
                if q3 is not None and q3 > 1e-6:
                    v = (2.25 * (f / (conf[i] * q3) ** 2) ** 2) ** (1 / 7.)
                    w = mn if v < mn ** 2 + f ** 2 else math.sqrt(v - f ** 2)
                    if abs(v - mn ** 2 - f ** 2) > 1e-4:
                        check(abs(res[i] - w) < 1e-4 * (1 + w), 'scales', lambda: 'scale %d: %s instead of %s' % (i, res[i], w))
                        stats.count('scales')
    elif kind == 3:
        s = r.uni(.4, 3)
        ref = [normGauss(ext, o, i, n, s, 3.0) for i in range(n)]
        checkTangents(geomap.tangentListNormalizedGaussian(list(m), list(conf), s), ref, al, 'tangentListNormalizedGaussian')
    elif kind == 4:
        sc = [r.uni(.4, 3) for i in range(n)]
        ref = [normGauss(ext, o, i, n, sc[i], 2.5) for i in range(n)]
        checkTangents(geomap.tangentListNormalizedGaussianVariableScale(list(m), list(conf), sc), ref, al, 'tangentListNormalizedGaussianVariableScale')
        check(refused(geomap.tangentListNormalizedGaussianVariableScale, list(m), list(conf), sc[:-1]) and refused(geomap.tangentListNormalizedGaussian, list(m), conf[:-1], 1.0), 'tangents-lists', 'lists of different size accepted')
    elif kind == 5:
        s, diff = r.uni(.3, 2), r.pick([0.0, 0.0, r.uni(.1, 2)])
        L = al[-1]
        closing = dist(m[0], m[-1])
        cyc = r.chance(.5)
        f = geomap.tangentListGaussianCyclic if cyc else geomap.tangentListGaussianReflective
        if L <= radius(s) + diff:
            check(refused(f, Vector2Array(m), s, diff), 'gaussian-long', 'filter of radius %s on a curve of length %s accepted' % (radius(s) + diff, L))
            return
        if cyc:
            samples = [(al[k] + c * (L + closing), m[k]) for c in (-1, 0, 1) for k in range(n)]
        else:
            samples = [(-al[k], (2 * m[0][0] - m[k][0], 2 * m[0][1] - m[k][1])) for k in range(n - 1, 0, -1)] + list(zip(al, m)) + \
                      [(2 * L - al[k], (2 * m[-1][0] - m[k][0], 2 * m[-1][1] - m[k][1])) for k in range(n - 2, -1, -1)]

        def smooth(pos):
            W, S = 0.0, [0.0, 0.0]
            for q, x in samples:
                if abs(q - pos) <= radius(s):
                    w = gauss(q - pos, s)
                    W += w
                    S[0] += w * x[0]
                    S[1] += w * x[1]
            return (S[0] / W, S[1] / W) if W else None
        ref = []
        for i in range(n):
            if diff:
                d = diff
            else:
                nb = ([al[i] - al[i - 1]] if i else [closing] if cyc else []) + ([al[i + 1] - al[i]] if i < n - 1 else [closing] if cyc else [])
                d = min(nb) / 2
            a, b = al[i] - d, al[i] + d
            if not cyc and i == 0:
                a = al[i]
            if not cyc and i == n - 1:
                b = al[i]
            near_cut = d > radius(s) - 1e-5 or any(abs(abs(q - x) - radius(s)) < 1e-5 for q, y in samples for x in (a, b))
            p, q = smooth(a), smooth(b)
            if not p or not q:     # filter smaller than the gap between the points
                return
            t = (q[0] - p[0], q[1] - p[1])
            # the library works with single precision weights
            ref.append(t if not near_cut and math.hypot(*t) > 1e-2 else None)
        checkTangents(f(Vector2Array(m), s, diff), ref, al, 'tangentListGaussian' + ('Cyclic' if cyc else 'Reflective'), eps=1e-4)
    elif kind == 6:
        mx = r.uni(.3, 3)
        d = min(mx, al[-1] / 16)
        q3 = [third(ext, o, i, d) for i in range(n)]
        if any(x is None or x < 1e-5 for x in q3):
            return
        ref = []
        for i in range(n):
            s = (.75 / math.sqrt(math.pi) / (conf[i] * q3[i]) ** 2) ** (1 / 7.)
            cut = any(abs(abs(e[0] - al[i]) - 2.5 * s) < 1e-6 for e in ext)
            ref.append(None if cut else normGauss(ext, o, i, n, s, 2.5))
        try:
            res = geomap.tangentListNormalizedGaussianOptimal(list(m), list(conf), mx)
        except RuntimeError as e:
            check('shorter' in str(e), 'optimal', str(e))
            return
        checkTangents(res, ref, al, 'tangentListNormalizedGaussianOptimal', eps=1e-4)
        ref = []
        for i in range(n):
            s = (3 / conf[i] / q3[i]) ** (1 / 3.)
            a, b = at(ext, al[i] - s), at(ext, al[i] + s)
            ref.append(None if a is None or b is None else tuple((b[k] - a[k]) / (2 * s) for k in (0, 1)))
        try:
            res = geomap.tangentListChordOptimal(list(m), list(conf), mx)
        except RuntimeError as e:
            check('shorter' in str(e), 'optimal', str(e))
            return
        checkTangents(res, ref, al, 'tangentListChordOptimal', eps=1e-4)
    elif kind == 7:
        # composition of tangent lists
        lists, want, off = [], [], 0.0
        for k in range(r.range(0, 4)):
            ln = r.uni(2, 6)
            t = sorted(r.uni(0, ln) for i in range(r.range(0, 5)))
            t = [(x, r.uni(-3, 3) + PI2 * r.range(-1, 1)) for x in t]
            rev = r.chance(.5)
            lists.append((t, -ln if rev else ln))
            want += [(off + ln - x, a + math.pi) for x, a in t[::-1]] if rev else [(off + x, a) for x, a in t]
            off += ln
        composed = geomap.composeTangentLists(lists)
        one, o2 = [], 0.0
        for t, ln in lists:
            o2 = geomap.appendTangentList(one, o2, t, ln)
        check(near(o2, off), 'append-offset', '%s instead of %s' % (o2, off))
        for name, res in (('compose', composed), ('append', one)):
            check(len(res) == len(want), name + '-size', '%d instead of %d' % (len(res), len(want)))
            prev = None
            for a, b in zip(res, want):
                check(near(a[0], b[0]) and angleDiff(a[1], b[1]) < 1e-9, name, lambda: '%s instead of %s' % (a, b))
                check(prev is None or abs(a[1] - prev) <= math.pi + 1e-9, name + '-continuity', lambda: 'jump from %s to %s' % (prev, a[1]))
                prev = a[1]
        stats.count('composed')
        stats.state(want)
    else:
        convolution(r, m, al)
    stats.count('curves')


def convolution(r, m, al):
    n = len(m)
    s, order = r.uni(.4, 2.5), r.pick([0, 0, 0, 1, 2, 3])
    vec = r.chance(.5)
    vals = list(m) if vec else [r.uni(-3, 3) for i in range(n)]
    if r.chance(.2):
        vals = [vals[0]] * n
    data = [(al[i], vals[i]) for i in range(n)]
    R = radius(s, order)

    def comp(v):
        return v if isinstance(v, tuple) else (v,)
    dim = len(comp(vals[0]))

    def conv(pos, samples):
        L = W = 0.0
        S = [0.0] * dim
        for k, (q, v) in enumerate(samples):
            if abs(q - pos) <= R:
                w = gauss(q - pos, s, order)
                if q < pos:
                    L += w
                else:
                    W += w
                for c in range(dim):
                    S[c] += w * comp(v)[c]
        return S, L, W

    def cut(pos, samples):
        return any(abs(abs(q - pos) - R) < 1e-5 for q, v in samples)
    res = geomap.gaussianConvolveByArcLength(data, s, order)
    check(len(res) == n, 'convolve-size', str(len(res)))
    scale = 1 + max(max(abs(c) for c in comp(v)) for v in vals)
    big = scale * n * 2 / min(1, s) ** (order + 1)
    for i in range(n):
        S, L, W = conv(al[i], data)
        ambiguous = cut(al[i], data) or order and abs(abs(L) - abs(W)) < 1e-4
        for c in range(dim):
            x = comp(res[i][1])[c]
            first, last = comp(vals[0])[c], comp(vals[-1])[c]
            if order == 0:
                want = S[c] / (L + W)
            elif order & 1:
                want = S[c] - (L + W) * (last if abs(L) > abs(W) else first)
            else:
                h = gauss(0, s, order) / 2
                want = S[c] - (L + h) * first - (W - h) * last
            check(near(res[i][0], al[i]), 'convolve-position', str(res[i]))
            if vals[0] == vals[-1] and all(v == vals[0] for v in vals):
                want = vals[0] if order == 0 else 0.0
                want = comp(want)[c] if order == 0 else 0.0
                check(abs(x - want) < 1e-5 * big, 'convolve-constant', lambda: 'order %d, constant %s becomes %s' % (order, vals[0], res[i]))
                stats.count('constants')
            elif not ambiguous:
                check(abs(x - want) < 1e-5 * big, 'convolve', lambda: 'order %d sigma %s: value %d is %s instead of %s' % (order, s, i, x, want))
                stats.count('convolved')
    if order == 0 and vec:
        # equidistant samples
        d = r.uni(.3, 2)
        res = geomap.equidistantGaussians(data, s, d)
        pos = 0.0
        for q in res:
            check(abs(q[0] - pos) < 1e-6 and q[0] < al[-1], 'equidistant-position', '%s instead of %s' % (q[0], pos))
            S, L, W = conv(q[0], data)
            if not cut(q[0], data) and L + W > 0:
                check(all(abs(q[1][c] - S[c] / (L + W)) < 1e-5 * big for c in (0, 1)), 'equidistant', lambda: 'sample at %s is %s' % q)
                stats.count('equidistant')
            pos += d
        check(pos >= al[-1] - 1e-9, 'equidistant-size', '%d samples up to %s of %s' % (len(res), pos, al[-1]))
    if vec:
        total = al[-1] + dist(m[0] if vals[0] != vals[-1] else vals[0], m[-1] if vals[0] != vals[-1] else vals[-1])
        total = al[-1] + dist(vals[0], vals[-1])
        if total > R:
            res = geomap.gaussianConvolveByArcLengthCyclic(data, s, order)
            smp = [(al[k] + c * total, vals[k]) for c in (-1, 0, 1) for k in range(n)]
            check(len(res) == n, 'cyclic-size', str(len(res)))
            for i in range(n):
                if total < 1.01 * R or cut(al[i], smp):
                    continue
                S, L, W = conv(al[i], smp)
                for c in (0, 1):
                    want = S[c] / (L + W) if order == 0 else S[c]
                    check(near(res[i][0], al[i]) and abs(res[i][1][c] - want) < 1e-5 * big, 'cyclic', lambda: 'order %d: value %d is %s instead of %s' % (order, i, res[i][1], want))
                    stats.count('cyclic')
        else:
            check(refused(geomap.gaussianConvolveByArcLengthCyclic, data, s, order), 'cyclic-long', 'radius %s, length %s' % (R, total))


# -------------------------------------------------------- fits, clipping

def caseFit(r):
    f = geomap.ParabolaFit()
    xs, ys = [], []
    a, b, c = r.uni(-.05, .05), r.uni(-.3, .3), r.uni(-3, 3)
    x = r.uni(-3, 3)
    noise = r.pick([0, .05, .3])
    for k in range(r.range(1, 6)):
        l = []
        for i in range(r.pick([0, 1, 1, 2, 4, 7])):
            y = (a * x + b) * x + c + r.uni(-noise, noise)
            xs.append(x)
            ys.append(y)
            l.append((x, y + PI2 * r.range(-1, 1)))
            x += r.uni(.2, .8)
        f.addTangentList(l)
        if r.chance(.3):
            g = geomap.ParabolaFit(f)
            g.addTangentList([(1.0, 2.0)] * 3)
            check(f.count == len(xs), 'fit-copy', 'copy is not independent')
        if len(xs) > 3 and r.chance(.5):
            # (later points have to be taken into account nevertheless)
            (f.parabolaParams if r.chance(.5) else f.sumOfSquaredErrors)()
            stats.count('intermediate_fits')
    check(f.count == len(xs), 'fit-count', '%d instead of %d' % (f.count, len(xs)))
    note('fit of %d points' % len(xs))
    if len(xs) < 4 or any(abs(ys[i + 1] - ys[i]) > 3 for i in range(len(ys) - 1)):
        return
    # first value is continued from angle 0
    sh = PI2 * math.floor((ys[0] + math.pi) / PI2)
    if abs(abs(ys[0] - sh) - math.pi) < 1e-6:
        return
    ys = [y - sh for y in ys]
    A = numpy.stack([numpy.array(xs) ** 2, numpy.array(xs), numpy.ones(len(xs))], 1)
    sol, res, rank, sv = numpy.linalg.lstsq(A, numpy.array(ys), rcond=None)
    if sv[-1] < 1e-3 * sv[0]:
        return
    p = f.parabolaParams()
    check(all(abs(p[k] - sol[k]) < 1e-6 * (1 + abs(sol[k])) for k in range(3)), 'fit', lambda: '%s instead of %s' % (p, list(sol)))
    err = float(((A @ sol - numpy.array(ys)) ** 2).sum())
    check(abs(f.sumOfSquaredErrors() - err) < 1e-6 * (1 + sum(y * y for y in ys)), 'fit-error', lambda: '%s instead of %s' % (f.sumOfSquaredErrors(), err))
    l = list(zip(xs, ys))
    check(abs(f.sumOfSquaredErrors(l) - err) < 1e-6 * (1 + err) and abs(f.meanSquaredError(l) - err / len(xs)) < 1e-6 * (1 + err), 'fit-error', lambda: '%s instead of %s' % (f.sumOfSquaredErrors(l), err))
    q = r.uni(-5, 5)
    check(near(f.parabola(q), (p[0] * q + p[1]) * q + p[2]), 'fit-value', str(q))
    # covariance of the fitted values: trace of the hat matrix = number of parameters
    check(abs(f.totalCovarianceOfResiduals() - 3) < 1e-3 and abs(f.meanCovarianceOfResiduals() - 3.0 / len(xs)) < 1e-3, 'fit-covariance', str(f.totalCovarianceOfResiduals()))
    stats.count('fits')
    stats.state(xs, ys)


def caseClip(r):
    m = randomPoints(r, r.range(1, 15), r.chance(.4))
    a, b = (r.uni(0, 12), r.uni(0, 12)), (r.uni(0, 12), r.uni(0, 12))
    if r.chance(.3):
        a, b = (float(r.range(0, 9)), float(r.range(0, 9))), (float(r.range(0, 9)), float(r.range(0, 9)))
    if dist(a, b) < 1e-6:
        return
    note('clip %s at %s..%s' % (m, a, b))
    nrm = ((b[1] - a[1]) / dist(a, b), -(b[0] - a[0]) / dist(a, b))

    def d(q):
        return (q[0] - a[0]) * nrm[0] + (q[1] - a[1]) * nrm[1]
    ds = [d(q) for q in m]
    if any(0 < abs(x) < 1e-9 for x in ds):
        return
    parts, cur = [], None
    for i, q in enumerate(m):
        if i and (ds[i] < 0) != (ds[i - 1] < 0):
            t = ds[i - 1] / (ds[i - 1] - ds[i])
            x = (m[i - 1][0] + t * (q[0] - m[i - 1][0]), m[i - 1][1] + t * (q[1] - m[i - 1][1]))
            if ds[i] < 0:
                parts.append(cur + [x])
                cur = None
            else:
                cur = [x]
        if ds[i] >= 0:
            cur = (cur or []) + [q]
    if cur:
        parts.append(cur)
    res = [pts(x) for x in geomap.intersectLine(Polygon(m), a, b)]
    check([len(x) for x in res] == [len(x) for x in parts], 'clip-parts', lambda: 'parts of %s points instead of %s' % ([len(x) for x in res], [len(x) for x in parts]))
    for x, y in zip(res, parts):
        check(all(dist(p, q) < 1e-7 for p, q in zip(x, y)), 'clip', lambda: '%s instead of %s' % (x, y))
    stats.count('clip_parts', len(parts))
    stats.state(m, a, b)


# ------------------------------------------------------------- statistics

def caseStatistics(r):
    def check_(s, m, what, quant):
        L = sum(l for v, l in m)
        if L > 0:
            check(near(s.average(), sum(v * l for v, l in m) / L, 1e-9), 'statistics-average', lambda: '%s: %s for %s' % (what, s.average(), m))
        else:
            check(s.average() == 0, 'statistics-average', what)
        if m:
            check(s.min() == min(v for v, l in m) and s.max() == max(v for v, l in m), 'statistics-range', lambda: '%s: %s..%s for %s' % (what, s.min(), s.max(), m))
        if quant and m and L > 0:
            srt = sorted(m)
            for q in (0.0, 1.0, .5, r.uni(0, 1), r.uni(0, 1)):
                x, acc, amb = s.quantile(q), 0.0, False
                for v, l in srt:
                    acc += l
                    amb = amb or abs(acc - q * L) < 1e-9 * L
                    if acc >= q * L:
                        break
                if q == 1.0:
                    v = srt[-1][0]
                check(x == v or amb and q != 1.0, 'statistics-quantile', lambda: '%s: quantile(%s) = %s instead of %s' % (what, q, x, v))
                stats.count('quantiles')
        elif quant and not m:
            check(refused(s.quantile, .5), 'statistics-empty', 'quantile of nothing')
    pool = []
    w = h = r.range(9, 14)
    img = vigra.ScalarImage(numpy.array([[r.uni(-5, 5) for i in range(h)] for j in range(w)], dtype=numpy.float32))
    siv = vigra.sampling.SplineImageView5(img)
    for step in range(r.range(2, 12)):
        quant = r.chance(.6)
        k = r.below(5)
        if k == 0 or not pool:
            pool.append(((geomap.QuantileStatistics if quant else geomap.PolylineStatistics)(), [], quant))
            note('empty')
        elif k == 1:
            pl = [(r.uni(1, w - 2), r.uni(1, h - 2)) for i in range(r.pick([0, 1, 2, 6]))]
            note('polygon %s' % pl)
            m = []
            for i in range(len(pl) - 1):
                c = ((pl[i][0] + pl[i + 1][0]) / 2, (pl[i][1] + pl[i + 1][1]) / 2)
                m.append((siv(pl[i][0] + .5 * (pl[i + 1][0] - pl[i][0]), pl[i][1] + .5 * (pl[i + 1][1] - pl[i][1])), dist(pl[i], pl[i + 1])))
            pool.append(((geomap.QuantileStatistics if quant else geomap.PolylineStatistics)(Vector2Array(pl), siv), m, quant))
            stats.count('line_statistics')
        elif k == 2:
            s, m, quant = r.pick(pool)
            for i in range(r.range(1, 4)):
                v, l = r.uni(-9, 9) if r.chance(.7) else -r.uni(1, 3), r.uni(.1, 3)
                s(v, l)
                m.append((v, l))
            note('call')
        elif k == 3:
            a, b = r.pick(pool), r.pick(pool)
            if a[2] == b[2] and a[0] is not b[0]:
                note('merge')
                a[0].merge(b[0])
                a[1].extend(b[1])
                stats.count('merged')
        else:
            i = r.below(len(pool))
            s, m, q = pool[i]
            note('pickle')
            pool[i] = (pickle.loads(pickle.dumps(s)), list(m), q)
            stats.count('statistics_pickled')
        for s, m, q in pool:
            check_(s, m, 'statistics', q)
    stats.state(pyvf.trace)


def caseTables(r):
    """label tables and digital lines"""
    n = r.range(1, 12)
    lut = geomap.LabelLUT(n)
    check(len(lut) == n and [lut[i] for i in range(n)] == list(range(n)), 'lut-identity', str([lut[i] for i in range(len(lut))]))
    model = list(range(n))
    for step in range(r.range(1, 15)):
        roots = sorted(set(model))
        k = r.below(5)
        if k <= 1 and len(roots) > 1:
            a, b = r.sample(roots, 2)
            note('relabel(%d, %d)' % (a, b))
            lut.relabel(a, b)
            model = [b if x == a else x for x in model]
        elif k == 2:
            lut.appendOne()
            model.append(len(model))
        elif k == 3:
            c = copy.copy(lut) if r.chance(.5) else copy.deepcopy(lut)
            if len(roots) > 1:
                a, b = r.sample(roots, 2)
                (lut if r.chance(0) else c).relabel(a, b)
                check([lut[i] for i in range(len(lut))] == model, 'lut-copy', 'copy is not independent')
        else:
            N = len(model)
            check(refused(lut.relabel, N, 0) and refused(lut.relabel, 0, N + 2) and refused(lut.merged, N) and refused(lut.__getitem__, N), 'lut-range', 'bad index accepted')
        check(len(lut) == len(model) and [lut[i] for i in range(len(lut))] == model, 'lut', lambda: '%s instead of %s' % ([lut[i] for i in range(len(lut))], model))
        for q in set(model):
            ml = items(lut.merged(q))
            check(len(ml) == len(set(ml)) and sorted(ml) == [i for i in range(len(model)) if model[i] == q], 'lut-merged', lambda: 'merged(%d) = %s of %s' % (q, ml, model))
            stats.count('merged_lists')
    it = copy.copy(lut).merged(model[0])
    gc.collect()
    check(sorted(items(it)) == [i for i in range(len(model)) if model[i] == model[0]], 'lut-lifetime', 'iterator over a temporary')
    stats.state(model)
    # digital lines
    codes = [r.below(2) for i in range(r.range(3, 20))]
    rot = 2 * r.below(4)
    codes = [(c + rot) % 8 for c in codes]
    i = r.range(1, len(codes) - 2)
    try:
        dsl, off = geomap.tangentDSL(codes, i, False)
    except RuntimeError:
        stats.count('rejected')
        return
    c = pickle.loads(pickle.dumps(dsl))
    check((c.a, c.b, c.pos) == (dsl.a, dsl.b, dsl.pos) and c.width() == dsl.width(), 'dsl-pickle', '%s' % ((c.a, c.b, c.pos),))
    for x in range(-4, 5):
        for y in range(-4, 5):
            check(dsl(x, y) == dsl.a * x - dsl.b * y and dsl.contains(x, y) == (0 <= dsl(x, y) - dsl.pos < dsl.width()), 'dsl', '(%d, %d)' % (x, y))
    f = copy.copy(c).convertToFourConnected()
    g = pickle.loads(pickle.dumps(f))
    check((g.a, g.b, g.pos, g.eightConnected()) == (f.a, f.b, f.pos, False) and dsl.eightConnected(), 'dsl-four', 'four-connected line')
    stats.count('digital_lines')


def caseWatersheds(r):
    w, h = r.range(10, 14), r.range(10, 14)
    a, b, c, d = r.uni(.4, .9), r.uni(.4, .9), r.uni(0, 6), r.uni(0, 6)
    img = vigra.ScalarImage(numpy.array([[math.sin(a * x + c) * math.sin(b * y + d) + .1 * math.sin(.3 * x + .2 * y) for y in range(h)] for x in range(w)], dtype=numpy.float32))
    o = r.pick([2, 3, 5])
    cls = {2: geomap.SubPixelWatersheds2, 3: geomap.SubPixelWatersheds3, 5: geomap.SubPixelWatersheds5}[o]
    ws = cls(img)
    note('order %d, %dx%d' % (o, w, h))
    if r.chance(.4):
        # edge before anything else has been asked for
        try:
            ws.edge(1)
        except IndexError:
            check(len(ws.saddles()) == 1, 'watershed-first', 'edge(1) refused, but there are %d saddles' % len(ws.saddles()))
    sad, mx, mn = ws.saddles(), ws.maxima(), ws.minima()
    check(ws.width() == w and ws.height() == h and sad[0] is None and mx[0] is None and mn[0] is None, 'watershed-lists', 'size or first entries')
    siv = {2: vigra.sampling.SplineImageView2, 3: vigra.sampling.SplineImageView3, 5: vigra.sampling.SplineImageView5}[o](img)
    for l, sg in ((sad, 0), (mx, -1), (mn, 1)):
        for q in l[1:]:
            check(-1e-4 <= q[0] <= w - 1 + 1e-4 and -1e-4 <= q[1] <= h - 1 + 1e-4, 'watershed-range', str(pt(q)))
            g = math.hypot(siv.dx(q[0], q[1]), siv.dy(q[0], q[1]))
            check(g < 1e-2, 'watershed-gradient', lambda: 'gradient %s at %s' % (g, pt(q)))
            stats.count('critical_points')
    for bad in (0, len(sad), len(sad) + 3, -1):
        check(refused(ws.edge, bad), 'watershed-range', 'edge(%d) of %d saddles' % (bad, len(sad) - 1))
    th = r.uni(-.5, .5)
    es = ws.edges(th)
    check(len(es) == len(sad) - 1, 'watershed-edges', '%d edges, %d saddles' % (len(es), len(sad) - 1))
    for i, e in enumerate(es):
        v = siv(sad[i + 1][0], sad[i + 1][1])
        if abs(v - th) > 1e-4:
            check((e is None) == (v < th), 'watershed-threshold', 'saddle %d with value %s, threshold %s: %s' % (i + 1, v, th, e is not None))
        if e is None:
            continue
        f, bk, p, k = e
        e2 = ws.edge(i + 1)
        check((e2[0], e2[1], pts(e2[2]), e2[3]) == (f, bk, pts(p), k), 'watershed-edge', 'edge(%d) differs from edges()' % (i + 1))
        check(0 <= k < len(p) and dist(p[k], sad[i + 1]) < 1e-6, 'watershed-anchor', lambda: 'point %d of edge %d is %s, saddle %s' % (k, i + 1, p[k], sad[i + 1]))
        for q, end in ((p[0], f), (p[-1], bk)):
            check(end < len(mx), 'watershed-end', '%d of %d maxima' % (end, len(mx)))
            if end > 0:
                check(dist(q, mx[end]) < 1e-6, 'watershed-end', lambda: 'edge %d ends at %s, maximum %d at %s' % (i + 1, pt(q), end, pt(mx[end])))
                stats.count('edge_ends')
        stats.count('edges')
    stats.state(pts(sad[1:]))


def caseDegenerate(r):
    """nothing but exceptions for degenerate arguments"""
    m = randomPoints(r, r.pick([0, 0, 1, 1, 2, 3]), r.chance(.3))
    if r.chance(.3) and m:
        m = m + [m[-1]] * r.range(1, 3)
    note('degenerate %s' % m)
    P, V = Polygon(m), Vector2Array(m)
    conf = [1.0] * len(m)
    s = r.pick([.01, .5, 2.0, 50.0])
    al = list(zip(arcs(m), m)) if m else []
    calls = [
        lambda: geomap.tangentList(V, r.range(-1, 3), r.range(0, 2)), lambda: geomap.curvatureList(V, r.range(-1, 3), r.range(0, 2)),
        lambda: geomap.tangentListGaussianReflective(V, s, r.pick([0.0, .5, 30.0])), lambda: geomap.tangentListGaussianCyclic(V, s, r.pick([0.0, .5, 30.0])),
        lambda: geomap.tangentListChord(m, conf, s), lambda: geomap.tangentListNormalizedGaussian(m, conf, s), lambda: geomap.tangentListChordOptimal(m, conf, s),
        lambda: geomap.gaussianOptimalScales(m, conf, 1.0, s, .5), lambda: geomap.tangentListNormalizedGaussianOptimal(m, conf, s),
        lambda: geomap.tangentListNormalizedGaussianVariableScale(m, conf, [s] * len(m)), lambda: geomap.thirdDerivativeOfPolygon(m, s),
        lambda: geomap.gaussianConvolveByArcLength(al, s, r.range(0, 3)), lambda: geomap.gaussianConvolveByArcLengthCyclic(al, s, r.range(0, 3)),
        lambda: geomap.equidistantGaussians(al, s, .7), lambda: geomap.intersectLine(P, (0, 0), (0, 0)), lambda: geomap.intersectLine(P, (0, 0), (1, 2)),
        lambda: geomap.simplifyPolygon(P, .5), lambda: geomap.simplifyPolygon(V, .5, 2.0), lambda: geomap.convexHull(P), lambda: geomap.centroid(P),
        lambda: geomap.resamplePolygon(P, .7), lambda: geomap.resamplePolygonLinearInterpolation(P, .7), lambda: geomap.resamplePolygonExponentialFilter(P, 1.0, .7),
        lambda: geomap.resamplePolygonGaussianFilter(P, 1.0, .7), lambda: geomap.scanPoly(P).points(), lambda: P.nearestPoint((1, 1)), lambda: P.contains((1, 1)), lambda: repr(P), lambda: P.closed(),
        lambda: P.length(), lambda: P.partialArea(), lambda: P.boundingBox(), lambda: P.split(r.range(-2, 3)), lambda: P.__delitem__(r.range(-4, 4)), lambda: P[r.range(-4, 4):r.range(-4, 4)],
        lambda: P.roundToInteger(), lambda: P.reverse(), lambda: P.arcLengthList(), lambda: geomap.polygonSplineControlPoints(P, r.range(-1, 5)),
        lambda: geomap.ParabolaFit().sumOfSquaredErrors(), lambda: geomap.ParabolaFit().totalCovarianceOfResiduals(),
        lambda: geomap.appendTangentList([], 0.0, [], 1.0), lambda: geomap.composeTangentLists([]), lambda: geomap.tangentDSL([r.below(8) for i in m], r.range(-2, 4), False),
        lambda: geomap.tangentDSL(([0] * (1 + len(m) % 3) + [2] * len(m) + [4] * (1 + len(m) % 3) + [6] * len(m)) if m else [], r.range(-20, 20), True),
    ]
    for i in range(20):
        k = r.below(len(calls))
        note('call %d' % k)
        try:
            calls[k]()
        except (RuntimeError, IndexError, ValueError, TypeError, ZeroDivisionError) as e:
            stats.count('rejected')
        stats.count('degenerate_calls')
        stats.state(k, len(m))


CASES = [casePolygon, casePolygon, caseBoxes, caseScan, caseTangents, caseTangents, caseTangents, caseFit, caseClip, caseStatistics, caseTables, caseDegenerate]


def case(r, i):
    if i % 40 == 39:
        caseWatersheds(r)
    else:
        CASES[i % len(CASES)](r)


if __name__ == '__main__':
    pyvf.main({'C23': case})
