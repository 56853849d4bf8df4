"""C22: the Python interface to maps (pickling, copying, iteration, callbacks, removed cells)."""
import sys, os, math, copy, pickle, gc
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pyvf
from pyvf import check, note, stats, violate
import numpy
import vigra
import geomap
from geomap import GeoMap, Size2D, Polygon


def items(it):
    # the first item by the old protocol, the others by that of Python 3
    try:
        r = [it.next()]
    except StopIteration:
        return []
    return r + list(it)


def pt(p):
    return (p[0], p[1])


def pts(l):
    return [(p[0], p[1]) for p in l]


# ------------------------------------------------------------ generation

class Spec(object):
    """a random planar subdivision as plain Python data"""

    def __init__(self, r):
        self.nx, self.ny = r.range(1, 4), r.range(1, 4)
        self.sp = r.uni(5, 7)
        self.size = (int(self.sp * (self.nx + 1)) + 2, int(self.sp * (self.ny + 1)) + 2)
        self.nodes, self.edges = [], [None]
        at = {}
        for y in range(self.ny):
            for x in range(self.nx):
                if r.chance(0.12):
                    self.nodes += [None] * (r.range(10, 60) if r.chance(.1) else 1)      # gap in the node labels
                at[x, y] = len(self.nodes)
                self.nodes.append((self.sp * (x + 1) + r.uni(-.5, .5), self.sp * (y + 1) + r.uni(-.5, .5)))
        density = r.uni(0.5, 1)

        def edge(a, b, points):
            if r.chance(0.1):
                self.edges += [None] * (r.range(10, 60) if r.chance(.1) else 1)          # gap in the edge labels
            if r.chance(0.5):
                a, b, points = b, a, points[::-1]
            self.edges.append((a, b, points))

        def line(a, b):
            p, q = self.nodes[a], self.nodes[b]
            n = r.range(0, 3)
            nrm = (-(q[1] - p[1]) / self.sp, (q[0] - p[0]) / self.sp)
            res = [p]
            for i in range(n):
                t = (i + 1.0) / (n + 1)
                d = r.uni(-.4, .4)
                res.append((p[0] + t * (q[0] - p[0]) + d * nrm[0], p[1] + t * (q[1] - p[1]) + d * nrm[1]))
            return res + [q]
        for y in range(self.ny):
            for x in range(self.nx):
                if x + 1 < self.nx and r.chance(density):
                    edge(at[x, y], at[x + 1, y], line(at[x, y], at[x + 1, y]))
                if y + 1 < self.ny and r.chance(density):
                    edge(at[x, y], at[x, y + 1], line(at[x, y], at[x, y + 1]))
                if r.chance(0.2):                # loop into the cell right below
                    p = self.nodes[at[x, y]]
                    edge(at[x, y], at[x, y], [p, (p[0] + 1.05, p[1] + 0.9), (p[0] + 1.15, p[1] + 1.15), (p[0] + 0.9, p[1] + 1.05), p])
                if r.chance(0.2):                # separate component in the middle of the cell
                    c = (self.sp * (x + 1.5), self.sp * (y + 1.5))
                    n0 = len(self.nodes)
                    ring = [(c[0] + 0.8 * math.cos(a), c[1] + 0.8 * math.sin(a)) for a in (0.3, 2.5, 4.4)]
                    self.nodes += ring
                    for i in range(3):
                        edge(n0 + i, n0 + (i + 1) % 3, [ring[i], ring[(i + 1) % 3]])
                elif r.chance(0.1):
                    self.nodes.append((self.sp * (x + 1.5), self.sp * (y + 1.5)))   # isolated node
        if not r.chance(0.9):
            self.edges = [None]
        if r.chance(0.3):
            self.edges += [None]
        if r.chance(0.3):
            self.nodes += [None]

    def build(self, r=None, labelImage=True, sort=True, init=True):
        m = GeoMap(list(self.nodes), list(self.edges), Size2D(*self.size))
        if sort:
            m.sortEdgesDirectly()
        if sort and init:
            m.initializeMap(labelImage)
        return m


# ------------------------------------------------------------ observation

INTERNAL = 0xf0000000


def edgeLabels(m):
    return [e.label() for e in items(m.edgeIter())]


def canonContour(d):
    l = [x.label() for x in items(d.phiOrbit())]
    i = l.index(min(l))
    return tuple(l[i:] + l[:i])


class Near(float):
    """a measure; summation order may differ"""

    def __eq__(self, o):
        return abs(float(self) - float(o)) <= 1e-7 * (1 + abs(float(self)))

    def __ne__(self, o):
        return not self == o

    __hash__ = None


def dump(m, exact=True):
    """everything observable; exact=False leaves out what pickling does not claim to keep"""
    res = {}
    res['size'] = (m.imageSize().x, m.imageSize().y)
    res['counts'] = (m.nodeCount, m.edgeCount, m.faceCount)
    res['state'] = (m.edgesSorted(), m.mapInitialized(), m.hasLabelImage())
    nodes = {}
    for l in range(m.maxNodeLabel()):
        n = m.node(l)
        if n is not None:
            nodes[l] = (n.label(), pt(n.position()), n.degree(), n.isIsolated())
            if exact:
                nodes[l] += (None if n.isIsolated() else n.anchor().label(),)
    res['nodes'] = nodes
    edges, darts = {}, {}
    init = m.mapInitialized()
    for l in range(1, m.maxEdgeLabel()):
        e = m.edge(l)
        if e is not None:
            edges[l] = (e.label(), e.startNodeLabel(), e.endNodeLabel(), tuple(pts(e)), e.flags(), Near(e.length()), Near(e.partialArea()), e.isLoop())
            if init:
                edges[l] += (e.leftFaceLabel(), e.rightFaceLabel(), e.isBridge())
            for d in (l, -l):
                darts[d] = tuple(getattr(m.dart(d), f)().label() for f in ('nextSigma', 'prevSigma', 'nextPhi', 'prevPhi', 'nextAlpha'))
    res['edges'], res['darts'] = edges, darts
    if init:
        faces = {}
        for l in range(m.maxFaceLabel()):
            f = m.face(l)
            if f is not None:
                cs = [canonContour(d) for d in items(f.contours())]
                faces[l] = (f.label(), f.flags() & ~INTERNAL, sorted(cs) if not l else (cs[:1], sorted(cs[1:])), f.holeCount(),
                            Near(f.area()), f.pixelArea() if m.hasLabelImage() else None)
        res['faces'] = faces
        if m.hasLabelImage():
            res['image'] = numpy.asarray(m.labelImage()).tobytes()
    if exact:
        res['max'] = (m.maxNodeLabel(), m.maxEdgeLabel(), m.maxFaceLabel() if init else 0)
    elif init:
        res['maxFace'] = m.maxFaceLabel()
    return res


def diff(a, b):
    for k in a:
        if a[k] != b.get(k):
            if isinstance(a[k], dict) and isinstance(b.get(k), dict):
                for kk in sorted(set(a[k]) | set(b[k])):
                    if a[k].get(kk) != b[k].get(kk):
                        return '%s %s: %s instead of %s' % (k, kk, b[k].get(kk), a[k].get(kk))
            return '%s: %s instead of %s' % (k, str(b.get(k))[:300], str(a[k])[:300])
    return None


def same(a, b, sig, what):
    stats.evaluations += 1
    if a != b:
        violate(sig, '%s: %s' % (what, diff(a, b)))


# -------------------------------------------------------- random operations

current = ['']


def randomOp(r, m, note_=True):
    """one random operation; returns its description and the result"""
    es = edgeLabels(m)
    kind = r.below(8)
    if not es:
        kind = 7
    l = r.pick(es) if es else 0
    if r.chance(0.5):
        l = -l
    d = m.dart(l) if l else None
    if kind <= 1:
        what = 'removeEdge(%d)' % l
        current[0] = what
        res = m.removeEdge(d)
    elif kind == 2:
        e = d.edge()
        what = 'mergeFaces(%d)' % l
        current[0] = what
        if e.isBridge():
            what = 'removeBridge(%d)' % l
            current[0] = what
            res = m.removeBridge(d)
        else:
            res = m.mergeFaces(d)
    elif kind == 3:
        n = d.startNode()
        if not n.hasDegree(2) or d.clone().nextSigma().edgeLabel() == d.edgeLabel():
            return None, None
        what = 'mergeEdges(%d)' % l
        current[0] = what
        res = m.mergeEdges(d)
    elif kind <= 5:
        e = d.edge()
        if len(e) > 2 and r.chance(0.5):
            i = r.range(1, len(e) - 2)
            what = 'splitEdge(%d, %d)' % (e.label(), i)
            current[0] = what
            res = m.splitEdge(e, i)
        else:
            i = r.range(0, len(e) - 2)
            t = r.uni(.2, .8)
            a, b = pt(e[i]), pt(e[i + 1])
            p = (a[0] + t * (b[0] - a[0]), a[1] + t * (b[1] - a[1]))
            what = 'splitEdge(%d, %d, %s)' % (e.label(), i, p)
            current[0] = what
            res = m.splitEdge(e, i, p)
    elif kind == 6:
        e = d.edge()
        f = 1 << r.below(8)
        what = 'flag(%d, %d)' % (e.label(), f)
        current[0] = what
        e.setFlag(f, r.chance(0.7))
        if m.mapInitialized():
            d.leftFace().setFlag(1 << r.below(28), r.chance(0.7))
        res = True
    else:
        iso = [n.label() for n in items(m.nodeIter()) if n.isIsolated()]
        if not iso:
            return None, None
        n = r.pick(iso)
        what = 'removeIsolatedNode(%d)' % n
        current[0] = what
        res = m.removeIsolatedNode(m.node(n))
    if note_:
        note(what)
    return what, res


# ------------------------------------------------------------------- cases

def caseRoundtrip(r):
    s = Spec(r)
    mode = r.below(6)
    m = s.build(labelImage=r.chance(0.8), sort=mode > 0, init=mode > 1)
    note('map %dx%d, %d nodes, %d edges, mode %d' % (s.nx, s.ny, m.nodeCount, m.edgeCount, mode))
    m.userData = [1, [2, 3]]
    steps = r.range(0, 10) if mode > 1 else 0
    for i in range(steps):
        randomOp(r, m)
    before = dump(m)
    stats.state(sorted(before['edges']), sorted(before['nodes']), before['counts'], before['state'])
    # sigma permutation as a list
    sm = m.sigmaMapping()
    check(len(sm) % 2 == 1, 'sigma-list', 'sigma mapping of even length %d' % len(sm))
    mid = len(sm) // 2
    for l in edgeLabels(m):
        for d in (l, -l):
            check(abs(d) <= mid and sm[mid + d] == m.dart(d).nextSigma().label(), 'sigma-list', lambda: 'sigmaMapping()[%d] is not the sigma successor of dart %d' % (mid + d, d))
    for i, d in enumerate(sm):
        check(not d or (abs(d) < m.maxEdgeLabel() and m.edge(abs(d)) is not None), 'sigma-list-removed', lambda: 'sigmaMapping()[%d] is %d, which belongs to no edge' % (i, d))
    # pickling
    for proto in (2, pickle.HIGHEST_PROTOCOL):
        m2 = pickle.loads(pickle.dumps(m, proto))
        same(dump(m, False), dump(m2, False), 'pickle-differs', 'unpickled map')
        check(m2.userData == [1, [2, 3]] and m2.userData is not m.userData, 'pickle-dict', 'attributes of the unpickled map')
        if m2.mapInitialized():
            check(m2.checkConsistency(), 'pickle-consistency', 'unpickled map is not consistent')
    same(before, dump(m), 'pickle-modifies', 'map after pickling it')
    stats.count('pickled')
    if not m.edgeCount:
        stats.count('pickled_without_edges')
    # copying
    c, dc = copy.copy(m), copy.deepcopy(m)
    same(before, dump(c), 'copy-differs', 'copied map')
    same(before, dump(dc), 'copy-differs', 'deep-copied map')
    check(c.userData is m.userData, 'copy-dict', 'copy.copy() does not share attribute values')
    check(dc.userData == m.userData and dc.userData is not m.userData and dc.userData[1] is not m.userData[1], 'copy-dict', 'copy.deepcopy() shares attribute values')
    pair = [m, m]
    m.me = pair
    p2 = copy.deepcopy(pair)
    check(p2[0] is p2[1] and p2[0] is not m and p2[0].me is p2, 'copy-memo', 'deepcopy() of a list holding a map twice (and of cycles)')
    del m.me
    stats.count('copied')
    # the same operations have the same effect on all of them; independence
    others = [('copy', c), ('deepcopy', dc), ('unpickled', m2)]
    if mode > 1:
        state = r.getstate()
        ref = None
        for name, x in others:
            r.setstate(state)
            for i in range(6):
                randomOp(r, x, name == 'copy')
            d = dump(x, name != 'unpickled')
            d.pop('nodes' if name == 'unpickled' else '', None)
            if name == 'copy':
                ref = d
            elif name == 'deepcopy':
                same(ref, d, 'copy-behaviour', 'operations on the deep copy')
            stats.count('diverged_copies')
            if x.mapInitialized():
                check(x.checkConsistency(), 'copy-consistency', '%s is not consistent after operations' % name)
        same(before, dump(m), 'copy-not-independent', 'original after operations on its copies')
    elif mode == 1:
        for name, x in others:
            x.initializeMap()
            check(x.mapInitialized() and not m.mapInitialized(), 'copy-not-independent', 'initializeMap() of the %s' % name)
        m.initializeMap()
        for name, x in others:
            same(dump(m, False), dump(x, False), 'copy-behaviour', 'initializeMap() of the %s' % name)
    del m, c, dc, m2, others, pair, p2
    gc.collect()


def caseIteration(r):
    s = Spec(r)
    m = s.build(labelImage=r.chance(0.8))
    # construction from lists
    for i, p in enumerate(s.nodes):
        n = m.node(i) if i < m.maxNodeLabel() else None
        check((n is None) == (p is None) and (n is None or pt(n.position()) == p), 'construct-node', 'node %d: %s for %s' % (i, n, p))
    for i, t in enumerate(s.edges):
        e = m.edge(i) if i < m.maxEdgeLabel() else None
        check((e is None) == (t is None), 'construct-edge', 'edge %d: %s for %s' % (i, e, t))
        if e is not None:
            check((e.startNodeLabel(), e.endNodeLabel()) == t[:2] and pts(e) == t[2], 'construct-edge', 'edge %d: %s for %s' % (i, pts(e), t))
    note('map %dx%d, %d nodes, %d edges, %d faces' % (s.nx, s.ny, m.nodeCount, m.edgeCount, m.faceCount))
    held = []
    for step in range(r.range(1, 8)):
        if step:
            randomOp(r, m)
        stats.state(dump(m)['counts'], edgeLabels(m), step)
        for name, it, get, mx, cnt in (('node', m.nodeIter, m.node, m.maxNodeLabel(), m.nodeCount), ('edge', m.edgeIter, m.edge, m.maxEdgeLabel(), m.edgeCount), ('face', m.faceIter, m.face, m.maxFaceLabel(), m.faceCount)):
            it_ = it()
            objs = items(it_)
            ls = [o.label() for o in objs]
            check(ls == [l for l in range(mx) if get(l) is not None], 'iteration', lambda: '%sIter() gives %s' % (name, ls))
            check(len(ls) == cnt, 'iteration-count', lambda: '%d %ss instead of %d' % (len(ls), name, cnt))
            for k in range(2):
                try:
                    it_.next()
                    violate('iteration-end', 'exhausted iterator continued')
                except StopIteration:
                    pass
            for o in objs:
                check(o.initialized() and o == get(o.label()), 'cell-identity', '%s %d' % (name, o.label()))
                repr(o)
            for bad in (mx, mx + 7, 2 ** 31 - 1):
                try:
                    get(bad)
                    violate('label-range', '%s(%d) with only %d labels' % (name, bad, mx))
                except RuntimeError:
                    stats.count('bad_labels_rejected')
            if r.chance(0.3) and objs:
                held.append((name, r.pick(objs)))
        fs = [f.label() for f in items(m.faceIter(skipInfinite=True))]
        check(fs == [l for l in range(1, m.maxFaceLabel()) if m.face(l) is not None], 'iteration-infinite', 'faceIter(skipInfinite): %s' % fs)
        seen = set()
        for l in edgeLabels(m):
            e = m.edge(l)
            for dl in (l, -l):
                d = m.dart(dl)
                repr(d)
                p = pts(e)
                if dl < 0:
                    p = p[::-1]
                check(len(d) == len(p) and pts(items(iter_(d))) == p and [pt(d[i]) for i in range(len(p))] == p and [pt(d[i - len(p)]) for i in range(len(p))] == p, 'dart-points', lambda: 'points of dart %d' % dl)
                for bad in (len(p), -len(p) - 1):
                    try:
                        d[bad]
                        violate('dart-range', 'dart[%d] of %d points' % (bad, len(p)))
                    except IndexError:
                        stats.count('bad_indices_rejected')
                check(d.label() == dl and d.edgeLabel() == l and d.edge().label() == l and d.guaranteedEdge() == e, 'dart-edge', 'dart %d' % dl)
                a = d.clone().nextAlpha()
                check(a.label() == -dl and a.clone().nextAlpha() == d and [x.label() for x in items(d.alphaOrbit())] == [dl, -dl], 'dart-alpha', 'dart %d' % dl)
                check(a.startNodeLabel() == d.endNodeLabel() and a.leftFaceLabel() == d.rightFaceLabel() and a.leftFace() == d.rightFace() and a.startNode() == d.endNode(), 'dart-sides', 'dart %d' % dl)
                check(abs(a.partialArea() + d.partialArea()) < 1e-9, 'dart-area', 'dart %d' % dl)
                check(d.clone().nextSigma().prevSigma() == d and d.clone().nextPhi().prevPhi() == d and d.clone().nextAlpha().prevSigma() == d.clone().nextPhi(), 'dart-permutations', 'dart %d' % dl)
                so = items(d.sigmaOrbit())
                check(so[0] == d and so[-1].clone().nextSigma() == d and len(set(x.label() for x in so)) == len(so) == d.startNode().degree() and all(x.startNodeLabel() == d.startNodeLabel() for x in so), 'dart-sigma-orbit', 'dart %d' % dl)
                po = items(d.phiOrbit())
                check(po[0] == d and po[-1].clone().nextPhi() == d and len(set(x.label() for x in po)) == len(po) and all(x.leftFaceLabel() == d.leftFaceLabel() for x in po), 'dart-phi-orbit', 'dart %d' % dl)
                # geometry along the orbit
                poly = geomap.contourPoly(d)
                ref = []
                for x in po:
                    ref += pts(items(iter_(x)))[1 if ref else 0:]
                check(pts(poly) == ref, 'contour-poly', lambda: 'contourPoly of dart %d: %s instead of %s' % (dl, pts(poly), ref))
                check(pts(items(geomap.ContourPointIter(d, True))) == ref and pts(items(geomap.ContourPointIter(d))) == ref[1:], 'contour-points', 'ContourPointIter of dart %d' % dl)
                check(abs(geomap.contourArea(d) - sum(x.partialArea() for x in po)) < 1e-8 and abs(geomap.contourLength(d) - sum(x.edge().length() for x in po)) < 1e-8, 'contour-measures', 'dart %d' % dl)
                stats.count('darts')
                seen.add(dl)
        # contours of the faces partition the darts
        allc = []
        for f in items(m.faceIter()):
            cs = items(f.contours())
            hs = items(f.holeContours())
            check([c.label() for c in (cs if f.label() == 0 else cs[1:])] == [h.label() for h in hs] and f.holeCount() == len(hs), 'face-contours', 'face %d' % f.label())
            if f.label() and cs:
                check(f.contour().label() == cs[0].label(), 'face-contours', 'contour() of face %d' % f.label())
            for c in cs:
                check(c.leftFaceLabel() == f.label(), 'face-contours', 'anchor %d of face %d' % (c.label(), f.label()))
                allc += [x.label() for x in items(c.phiOrbit())]
        check(sorted(allc) == sorted(seen), 'face-partition', 'contours of all faces')
        if m.hasLabelImage():
            img = numpy.asarray(m.labelImage()).reshape(s.size, order='A') if False else m.labelImage()
            check(tuple(img.shape[:2]) == s.size, 'label-image-size', 'label image of shape %s' % (img.shape,))
            for k in range(12):
                x, y = r.below(s.size[0]), r.below(s.size[1])
                v = int(img[x, y, 0])
                if v >= 0:
                    f = m.faceAt((x, y))
                    check(m.face(v) is not None and f.label() == v, 'label-image', 'pixel (%d, %d) has label %d, face is %s' % (x, y, v, f))
                    stats.count('label_pixels')
    # cells that have been removed meanwhile are inert, not dangerous
    for name, o in held:
        if not o.initialized():
            stats.count('removed_cells')
            for meth in [x for x in dir(type(o)) if not x.startswith('_') and x not in ('BORDER_PROTECTION', 'ALL_PROTECTION')]:
                for args in ((), (0,), ((1, 1),)):
                    try:
                        getattr(o, meth)(*args)
                    except Exception:
                        pass
            try:
                repr(o)
            except RuntimeError:
                pass


def iter_(d):
    return d.__iter__()


class Boom(Exception):
    pass


def caseCallbacks(r):
    s = Spec(r)
    m = s.build(labelImage=r.chance(0.8))
    note('map %dx%d, %d nodes, %d edges, %d faces' % (s.nx, s.ny, m.nodeCount, m.edgeCount, m.faceCount))
    log, mode = [], ['ok']

    def answer(kind):
        if mode[0] == 'ok' or mode[0] not in ('veto', 'none', 'raise', 'nonsense'):
            return True
        if mode[0] == 'raise':
            raise Boom(kind)
        return {'veto': False, 'none': None, 'nonsense': 'yes, please'}[mode[0]]

    def pre(kind):
        def f(d):
            log.append((kind + '-pre', d.label(), d.leftFaceLabel(), d.rightFaceLabel(), d.startNodeLabel(), m.edge(d.edgeLabel()) is not None, dumpCounts()))
            return answer(kind)
        return f

    def post(kind):
        def f(c):
            log.append((kind + '-post', c.label(), dumpCounts()))
        return f

    def dumpCounts():
        return (m.nodeCount, m.edgeCount, m.faceCount)

    def preSplit(e, i, p):
        log.append(('split-pre', e.label(), i, None if p is None else pt(p), dumpCounts()))

    def postSplit(e, n):
        log.append(('split-post', e.label(), n.label(), dumpCounts()))

    def removeNode(n):
        log.append(('node', n.label(), n.isIsolated(), dumpCounts()))
        # (an exception in the middle of a composite operation leaves it half done)
        if mode[0] in ('raise', 'nonsense') and current[0].split('(')[0] not in ('mergeEdges', 'removeIsolatedNode'):
            return True
        return answer('node')

    def pixels(f, l):
        log.append(('pixels', f.label(), sorted((p.x, p.y) if hasattr(p, 'x') else tuple(p) for p in l), dumpCounts()))
    A = GeoMap
    reg = [lambda: A.addMergeFacesCallbacks(m, pre('faces'), post('faces')), lambda: A.addRemoveBridgeCallbacks(m, pre('bridge'), post('bridge')),
           lambda: A.addMergeEdgesCallbacks(m, pre('edges'), post('edges')), lambda: A.addSplitEdgeCallbacks(m, preSplit, postSplit),
           lambda: A.addRemoveNodeCallback(m, removeNode), lambda: A.addAssociatePixelsCallback(m, pixels)]
    kinds = ['faces', 'bridge', 'edges', 'split', 'node', 'pixels']
    cbs = [f() for f in reg]
    check(all(c.connected() for c in cbs), 'callback-connected', 'fresh callbacks')
    active = set(kinds)
    for step in range(r.range(2, 14)):
        if r.chance(0.15):
            i = r.below(6)
            if kinds[i] in active:
                note('disconnect ' + kinds[i])
                if r.chance(0.5):
                    cbs[i].disconnect()
                    check(not cbs[i].connected(), 'callback-connected', 'disconnected callback')
                    cbs[i].disconnect()
                else:
                    cbs[i] = None
                    gc.collect()
                active.discard(kinds[i])
            else:
                note('reconnect ' + kinds[i])
                cbs[i] = reg[i]()
                active.add(kinds[i])
        mode[0] = r.pick(['ok', 'ok', 'ok', 'veto', 'none', 'raise', 'nonsense'])
        del log[:]
        before = dump(m)
        note('mode ' + mode[0])
        failed = None
        try:
            what, res = randomOp(r, m)
        except (Boom, TypeError) as e:
            failed = e
            what, res = current[0], None
        if what is None:
            continue
        after = dump(m)
        ev = list(log)
        note('%s events %s' % (what, [e[:2] for e in ev]))
        stats.state(what.split('(')[0], mode[0], sorted(active), [e[0] for e in ev], before['counts'])
        names = [e[0] for e in ev]
        for e in ev:
            check(e[0].split('-')[0] in active, 'callback-disconnected', 'disconnected callback %s was called' % e[0])
        if failed is not None:
            check(mode[0] in ('raise', 'nonsense'), 'callback-exception', lambda: '%r from %s in mode %s' % (failed, what, mode[0]))
            check(isinstance(failed, Boom) == (mode[0] == 'raise'), 'callback-exception', lambda: repr(failed))
            stats.count('callback_exceptions')
            same(before, after, 'exception-modifies', 'map after %s was cancelled by an exception' % what)
            continue
        op = what.split('(')[0]
        if op.startswith('flag'):
            check(not ev, 'callback-spurious', lambda: '%s for %s' % (names, what))
            continue
        preNames = [n for n in names if n.endswith('-pre') and n != 'split-pre' or n == 'node']
        if mode[0] in ('veto', 'none') and set(preNames) - {'node'}:
            check(len(preNames) == 1, 'callback-veto', lambda: '%s although the operation was vetoed' % names)
            check(not res, 'callback-veto', lambda: '%s returned %s although vetoed' % (what, res))
            same(before, after, 'veto-modifies', 'map after vetoed %s' % what)
            check(names == preNames, 'callback-veto', lambda: '%s after a veto' % names)
            stats.count('vetoes')
            continue
        if op == 'removeIsolatedNode':
            n = int(what[len('removeIsolatedNode('):-1])
            if 'node' in active:
                check([e[:3] for e in ev] == [('node', n, True)], 'callback-node', lambda: '%s for %s' % (ev, what))
                check(ev[0][-1] == before['counts'], 'callback-order', 'node was removed before the callback')
            if 'node' in active and mode[0] in ('veto', 'none'):
                check(res is False, 'callback-veto', 'vetoed removal of a node returned %s' % res)
                same(before, after, 'veto-modifies', 'map after vetoed ' + what)
                stats.count('vetoes')
            else:
                check(res is True and n not in after['nodes'], 'op-result', what)
        elif op == 'splitEdge':
            if 'split' in active:
                a = what[len('splitEdge('):-1].split(', ', 2)
                check(names == ['split-pre', 'split-post'], 'callback-split', lambda: '%s for %s' % (names, what))
                check(ev[0][1] == int(a[0]) and ev[0][2] == int(a[1]) and (ev[0][3] is None) == (len(a) < 3) and ev[1][1] == int(a[0]) and ev[1][2] == res.label(), 'callback-split', lambda: '%s for %s' % (ev, what))
                check(ev[0][-1] == before['counts'] and ev[1][-1] == after['counts'], 'callback-order', lambda: 'split callbacks at the wrong time: %s' % ev)
            new = after['edges'][res.label()]
            check(after['counts'] == (before['counts'][0] + 1, before['counts'][1] + 1, before['counts'][2]), 'op-result', what)
        elif op == 'mergeEdges' and mode[0] in ('veto', 'none') and names == ['node']:
            check(not res, 'callback-veto', 'mergeEdges with vetoed node removal returned %s' % res)
            same(before, after, 'veto-modifies', 'map after vetoed ' + what)
            stats.count('vetoes')
        elif op == 'mergeEdges':
            l = int(what[len('mergeEdges('):-1])
            check(after['counts'] == (before['counts'][0] - 1, before['counts'][1] - 1, before['counts'][2]) and after['edges'].get(res.label()), 'op-result', what)
            if 'edges' in active:
                names2 = [n for n in names if n != 'node']
                check(names2 == ['edges-pre', 'edges-post'], 'callback-edges', lambda: '%s for %s' % (names, what))
                ev2 = [e for e in ev if e[0] != 'node']
                check(ev2[0][4] == before['edges'][abs(l)][1 if l > 0 else 2] and abs(ev2[0][1]) == res.label() == ev2[1][1], 'callback-edges', lambda: '%s for %s' % (ev2, what))
                check(ev2[0][-1] == before['counts'] and ev2[1][-1] == after['counts'], 'callback-order', lambda: str(ev))
        else:
            l = int(what.split('(')[1][:-1])
            e = before['edges'][abs(l)]
            bridge = e[10]
            kind = 'bridge' if bridge else 'faces'
            check(abs(l) not in after['edges'], 'op-result', what)
            check(after['counts'][1] == before['counts'][1] - 1 and after['counts'][2] == before['counts'][2] - (0 if bridge else 1), 'op-result', what)
            if kind in active:
                main = [x for x in ev if x[0].startswith(kind)]
                check([x[0] for x in main] == [kind + '-pre', kind + '-post'], 'callback-remove', lambda: '%s for %s' % (names, what))
                check(abs(main[0][1]) == abs(l) and main[0][5] and main[0][-1] == before['counts'], 'callback-remove', lambda: '%s for %s' % (ev, what))
                check(main[1][1] == main[0][2] == res.label() and res.label() in after['faces'], 'callback-remove', lambda: 'dart %s, but surviving face %s' % (main[0], main[1]))
                if not bridge:
                    check(main[0][3] not in after['faces'], 'callback-remove', lambda: 'right face %d of the dart given to the callback survived' % main[0][3])
                stats.count('remove_events')
            other = 'faces' if bridge else 'bridge'
            check(not [n for n in names if n.startswith(other)], 'callback-spurious', lambda: '%s for %s' % (names, what))
            px = [x for x in ev if x[0] == 'pixels']
            if 'pixels' in active and m.hasLabelImage():
                old = numpy.frombuffer(before['image'], dtype=numpy.float32)
                new = numpy.frombuffer(after['image'], dtype=numpy.float32)
                freed = int(((old < 0) & (new >= 0)).sum())
                check(sum(len(x[2]) for x in px) == freed, 'callback-pixels', lambda: '%d pixels announced, %d associated' % (sum(len(x[2]) for x in px), freed))
                img = m.labelImage()
                for x in px:
                    check(x[1] == res.label() and x[-1] == after['counts'], 'callback-pixels', lambda: str(x))
                    for p in x[2]:
                        check(int(img[p[0], p[1], 0]) == res.label(), 'callback-pixels', lambda: 'pixel %s has label %s' % (p, img[p[0], p[1], 0]))
                stats.count('pixel_events', len(px))
        check(m.checkConsistency(), 'inconsistent', what)
        stats.count('monitored_ops')
    del cbs
    gc.collect()
    mode[0] = 'raise'
    del log[:]
    randomOp(r, m)
    check(not log, 'callback-disconnected', 'callbacks were called after their removal')


def caseConstruct(r):
    """incremental construction, invalid arguments, protection, statistics, crack edge graphs"""
    kind = r.below(4)
    note('construct kind %d' % kind)
    if kind == 0:
        s = Spec(r)
        m = GeoMap(Size2D(*s.size))
        nodes = {}
        for i, p in enumerate(s.nodes):
            if p is not None:
                if i == m.maxNodeLabel() and r.chance(0.5):
                    n = m.addNode(p)
                else:
                    n = m.addNode(p, i)
                check(n.label() == i and pt(n.position()) == p, 'add-node', 'node %d: %s' % (i, n))
                nodes[i] = n
        for i, t in enumerate(s.edges):
            if t is not None:
                a, b = nodes[t[0]], nodes[t[1]]
                if i == m.maxEdgeLabel() and r.chance(0.5):
                    e = m.addEdge(a, b, t[2])
                else:
                    e = m.addEdge(startNeighbor=a, endNeighbor=b, points=t[2], label=i)
                check(e.label() == i and (e.startNodeLabel(), e.endNodeLabel()) == t[:2] and pts(e) == t[2], 'add-edge', 'edge %d: %s' % (i, e))
        m.sortEdgesDirectly()
        m.initializeMap()
        same(dump(s.build(), False), dump(m, False), 'incremental', 'incrementally built map')
        try:
            m.initializeMap()
            violate('init-twice', 'initializeMap() twice')
        except RuntimeError:
            stats.count('rejected')
        # sigma mapping round trip
        m2 = s.build(sort=False)
        check(not m2.edgesSorted() and not m2.mapInitialized(), 'state', 'fresh map is sorted')
        m2.setSigmaMapping(m.sigmaMapping())
        check(m2.edgesSorted(), 'state', 'map with sigma mapping is not sorted')
        m2.initializeMap()
        same(dump(m, False), dump(m2, False), 'sigma-roundtrip', 'map with copied sigma mapping')
        if r.chance(0.5):
            m3 = s.build(labelImage=False)
            check(m3.labelImage() is None and not m3.hasLabelImage(), 'no-label-image', 'label image of a map without')
            m3.setHasLabelImage(True)
            same(dump(m, False), dump(m3, False), 'late-label-image', 'map with retroactive label image')
            m3.setHasLabelImage(False)
            check(m3.labelImage() is None, 'no-label-image', 'label image of a map without')
        stats.count('constructed')
        stats.state(s.nodes, s.edges)
    elif kind == 1:
        # protection
        s = Spec(r)
        m = s.build()
        ep = geomap.EdgeProtection(m)
        es = edgeLabels(m)
        prot = set(l for l in es if r.chance(0.3))
        for l in prot:
            m.edge(l).setFlag(r.pick([1, GeoMap.Edge.BORDER_PROTECTION]) if False else GeoMap.Edge.BORDER_PROTECTION)
        if r.chance(0.4):
            pair = pickle.loads(pickle.dumps((m, ep))) if r.chance(0.5) else None
            if pair:
                m, ep = pair
                check(ep.map() is not None, 'protection-pickle', 'unpickled protection has no map')
                stats.count('protection_pickled')
        repr(ep)
        for l in es:
            if m.edge(l) is not None:
                m.removeEdge(m.dart(l))
        check(prot == set(edgeLabels(m)), 'protection', lambda: 'protected %s, left %s' % (sorted(prot), edgeLabels(m)))
        ep.detachHooks()
        check(ep.map() is None, 'protection', 'map of detached protection')
        for l in edgeLabels(m):
            m.removeEdge(m.dart(l))
        check(m.edgeCount == 0, 'protection', 'edges left after detaching the protection')
        stats.count('protected', len(prot))
        stats.state(es, sorted(prot))
    elif kind == 2:
        # crack edge images and graphs from arrays of arbitrary memory layout
        w, h = r.range(1, 8), r.range(1, 8)
        lab = numpy.array([[r.below(3) for y in range(h)] for x in range(w)], dtype=numpy.int32)
        lay = r.below(4)
        note('labels %s layout %d' % (lab.tolist(), lay))
        arr = {0: lab, 1: numpy.asfortranarray(lab), 2: numpy.repeat(numpy.repeat(lab, 2, 0), 2, 1)[::2, ::2], 3: numpy.ascontiguousarray(lab.T).T}[lay]
        cc = geomap.crackConnectionImage(vigra.taggedView(arr.astype(numpy.float32) if lay != 2 else numpy.repeat(numpy.repeat(lab.astype(numpy.float32), 2, 0), 2, 1)[::2, ::2], 'xy'))
        check(tuple(cc.shape[:2]) == (w + 1, h + 1), 'crack-size', str(cc.shape))

        def L(x, y):
            return int(lab[x, y]) if 0 <= x < w and 0 <= y < h else None
        for y in range(h + 1):
            for x in range(w + 1):
                exp = (1 if x < w and L(x, y - 1) != L(x, y) else 0) | (2 if y < h and L(x - 1, y) != L(x, y) else 0) | \
                      (4 if x > 0 and L(x - 1, y - 1) != L(x - 1, y) else 0) | (8 if y > 0 and L(x - 1, y - 1) != L(x, y - 1) else 0)
                check(int(cc[x, y, 0]) == exp, 'crack-connections', lambda: 'crack (%d, %d) has connections %d instead of %d' % (x, y, cc[x, y, 0], exp))
        eight = r.chance(0.5)
        m = geomap.crackEdgeGraph(vigra.taggedView(arr, 'xy'), eightConnectedRegions=eight)
        check((m.imageSize().x, m.imageSize().y) == (w, h), 'crack-graph', 'image size')
        m.initializeMap()
        tot = sum(e.length() for e in items(m.edgeIter()))
        exp = sum(bin(int(cc[x, y, 0]) & 3).count('1') for x in range(w + 1) for y in range(h + 1))
        check(abs(tot - exp) < 1e-6, 'crack-graph', 'edges of total length %s for %s cracks' % (tot, exp))
        img = m.labelImage()
        for x in range(w):
            for y in range(h):
                f = m.face(int(img[x, y, 0]))
                check(f is not None and f.contains((x, y)), 'crack-graph', 'pixel (%d, %d) in face %s' % (x, y, f))
                for x2, y2 in ((x + 1, y), (x, y + 1)):
                    if x2 < w and y2 < h:
                        check((img[x, y, 0] == img[x2, y2, 0]) if lab[x, y] == lab[x2, y2] else True, 'crack-graph', 'connected pixels (%d, %d), (%d, %d) in different faces' % (x, y, x2, y2))
                        if lab[x, y] != lab[x2, y2]:
                            check(img[x, y, 0] != img[x2, y2, 0], 'crack-graph', 'differently labelled pixels (%d, %d), (%d, %d) in the same face' % (x, y, x2, y2))
        dl = geomap.drawLabelImage(m)
        check(numpy.array_equal(numpy.asarray(dl), numpy.asarray(img)), 'draw-label-image', 'drawLabelImage() of a crack edge map')
        stats.count('crack_images')
        stats.state(lab.tolist(), eight)
    else:
        # face statistics, copied together with their map
        w, h = r.range(2, 8), r.range(2, 8)
        lab = numpy.array([[r.below(3) for y in range(h)] for x in range(w)], dtype=numpy.int32)
        val = numpy.array([[r.below(20) for y in range(h)] for x in range(w)], dtype=numpy.float32)
        m = geomap.crackEdgeGraph(vigra.taggedView(lab, 'xy'))
        m.initializeMap()
        cls = geomap.FaceGrayStatistics
        st = cls(m, vigra.taggedView(val, 'xy'), 0)

        def verify(m, st, what):
            img = numpy.asarray(m.labelImage())[:, :, 0]
            for f in items(m.faceIter(True)):
                sel = img == f.label()
                n = int(sel.sum())
                check(st.pixelCount(f.label()) == n, 'stats-count', lambda: '%s: %d pixels in face %d instead of %d' % (what, st.pixelCount(f.label()), f.label(), n))
                if n:
                    check(abs(st.average(f.label()) - val[sel].mean()) < 1e-3 and abs(st[f.label()] - val[sel].mean()) < 1e-3, 'stats-average', lambda: '%s: face %d average %s' % (what, f.label(), st.average(f.label())))
                    check(abs(st.variance(f.label(), False) - val[sel].astype(float).var()) < 1e-2, 'stats-variance', lambda: '%s: face %d variance %s instead of %s' % (what, f.label(), st.variance(f.label(), False), val[sel].var()))
                stats.count('faces_measured')
            for l in range(1, m.maxFaceLabel()):
                if m.face(l) is None:
                    try:
                        st.average(l)
                        violate('stats-removed', '%s: average of removed face %d' % (what, l))
                    except ValueError:
                        stats.count('rejected')
                    check(st.functor(l) is None, 'stats-removed', 'functor of removed face')
            for bad in (m.maxFaceLabel(), m.maxFaceLabel() + 3):
                try:
                    st.average(bad)
                    violate('stats-range', 'average of face %d' % bad)
                except IndexError:
                    stats.count('rejected')
            ri = numpy.asarray(st.regionImage())[:, :, 0]
            for x in range(w):
                for y in range(h):
                    if img[x, y] >= 0:
                        check(abs(ri[x, y] - st.average(int(img[x, y]))) < 1e-4, 'stats-region-image', lambda: '%s: pixel (%d, %d)' % (what, x, y))
        verify(m, st, 'fresh statistics')

        def some(m):
            for i in range(r.range(1, 4)):
                es = [e for e in items(m.edgeIter()) if not e.isBridge() and e.leftFaceLabel() and e.rightFaceLabel()]
                if es:
                    geomap.mergeFacesCompletely(r.pick(es).dart())
        some(m)
        verify(m, st, 'after merging')
        st2 = copy.deepcopy(st)
        check(st2.map() is not None, 'stats-copy', 'map of deep-copied statistics')
        m2 = st2.map()
        same(dump(m), dump(m2), 'stats-copy', 'map of deep-copied statistics')
        some(m2)
        verify(m, st, 'original after merging in the copy')
        verify(m2, st2, 'copy after merging')
        some(m)
        verify(m, st, 'original after merging')
        verify(m2, st2, 'copy after merging in the original')
        st.detachHooks()
        stats.count('stats_copied')
        stats.state(lab.tolist(), val.tolist())


def case(r, i):
    k = i % 4
    (caseRoundtrip, caseIteration, caseCallbacks, caseConstruct)[k](r)


if __name__ == '__main__':
    pyvf.main({'C22': case})
