"""C27-C29: the Python library on top of the map (python/maputils: maputils, statistics, dartpath)."""
import sys, os, math, copy, pickle, hashlib, io, tempfile, contextlib
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(os.environ['VERIF_PYLIB'], d) for d in ('maputils', 'utils')]
import pyvf
from pyvf import check, note, stats, violate
import numpy
import vigra
import geomap
from geomap import GeoMap, Size2D, Polygon
import maputils, statistics, dartpath, flag_constants
from py_map import Spec, pt, pts, dump, diff, same, randomOp, canonContour

PROT = flag_constants.ALL_PROTECTION
BORDER = flag_constants.BORDER_PROTECTION


@contextlib.contextmanager
def quiet():
    """the library reports progress on stdout and stderr"""
    o, e = sys.stdout, sys.stderr
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()
    try:
        yield sys.stdout
    finally:
        sys.stdout, sys.stderr = o, e


# ------------------------------------------------------------ the workload

def makeMap(r, labelImage=None, ops=6, midpoints=False, isolated=True):
    s = Spec(r)
    for k in range(3):
        if len(s.edges) < 8 and r.chance(.9):
            s = Spec(r)
    if midpoints:
        for i, e in enumerate(s.edges):
            if e is not None and len(e[2]) == 2:
                a, b = e[2]
                s.edges[i] = (e[0], e[1], [a, ((a[0] + b[0]) / 2, (a[1] + b[1]) / 2), b])
    m = s.build(labelImage=r.chance(0.6) if labelImage is None else labelImage)
    for i in range(r.range(0, ops) if r.chance(0.5) else 0):
        randomOp(r, m, False)
    for e in m.edgeIter():
        e.setFlag(0xff, False)
    for f in m.faceIter():
        f.setFlag(0xff, False)
    note('map %dx%d: %d nodes, %d edges, %d faces%s' % (s.nx, s.ny, m.nodeCount, m.edgeCount, m.faceCount, ', label image' if m.hasLabelImage() else ''))
    return m


def protect(r, m, p):
    """protects some edges and keeps them from being removed or merged with others"""
    n = 0
    for e in m.edgeIter():
        if r.chance(p):
            e.setFlag(1 << r.below(5))
            n += 1
    note('%d protected edges' % n)
    return geomap.EdgeProtection(m)


def edgeLabels(m):
    return [l for l in range(1, m.maxEdgeLabel()) if m.edge(l) is not None]


def faceLabels(m):
    return [l for l in range(m.maxFaceLabel()) if m.face(l) is not None]


def protected(e):
    return bool(e.flags() & PROT)


def darts(m):
    for l in edgeLabels(m):
        yield m.dart(l)
        yield m.dart(-l)


def adjacency(m):
    """face label -> neighbour label -> labels of the common edges"""
    res = dict((f, {}) for f in faceLabels(m))
    for l in edgeLabels(m):
        e = m.edge(l)
        a, b = e.leftFaceLabel(), e.rightFaceLabel()
        if a != b:
            res[a].setdefault(b, []).append(l)
            res[b].setdefault(a, []).append(l)
    return res


class Track(object):
    """follows which of the initial faces each face consists of, and every operation"""

    def __init__(self, m):
        self.m = m
        self.sets = dict((f, frozenset([f])) for f in faceLabels(m))
        self.ops = []
        self.onMerge = []
        self._c = [m.addMergeFacesCallbacks(self.pre, self.post),
                   m.addRemoveBridgeCallbacks(self.preB, self.postB),
                   m.addMergeEdgesCallbacks(self.preE, self.postE)]

    def pre(self, d):
        self.cur = d.leftFaceLabel(), d.rightFaceLabel(), d.label()
        for f in self.onMerge:
            f(d)
        return True

    def post(self, f):
        a, b, l = self.cur
        u = self.sets.pop(a) | self.sets.pop(b)
        self.sets[f.label()] = u
        self.ops.append(('mergeFaces', l, a, b, f.label()))

    def preB(self, d):
        self.cur = d.label()
        return True

    def postB(self, f):
        self.ops.append(('removeBridge', self.cur))

    def preE(self, d):
        self.cur = d.label()
        return True

    def postE(self, e):
        self.ops.append(('mergeEdges', self.cur))

    def merges(self):
        return [o for o in self.ops if o[0] == 'mergeFaces']

    def partition(self):
        return frozenset(self.sets.values())

    def detach(self):
        for c in self._c:
            c.disconnect()


def setCost(salt, a, b):
    """symmetric cost in [0, 1) of merging two sets of initial faces"""
    k = repr((salt, sorted([sorted(a), sorted(b)])))
    return int(hashlib.md5(k.encode()).hexdigest()[:13], 16) / float(1 << 52)


class Cost(object):
    def __init__(self, r, t):
        self.salt, self.t, self.calls, self.levels = r.below(10 ** 9), t, 0, None

    def __call__(self, d):
        self.calls += 1
        return self.of(d.leftFaceLabel(), d.rightFaceLabel())

    def of(self, a, b):
        c = setCost(self.salt, self.t.sets[a], self.t.sets[b])
        return c if self.levels is None else math.floor(c * self.levels) / self.levels


class UnionFind(object):
    def __init__(self, xs):
        self.p = dict((x, x) for x in xs)

    def find(self, x):
        while self.p[x] != x:
            x = self.p[x]
        return x

    def union(self, a, b):
        a, b = self.find(a), self.find(b)
        if a == b:
            return False
        self.p[a] = b
        return True

    def classes(self):
        c = {}
        for x in self.p:
            c.setdefault(self.find(x), set()).add(x)
        return frozenset(frozenset(v) for v in c.values())


def segments(m, labels=None):
    res = {}
    for l in (edgeLabels(m) if labels is None else labels):
        p = pts(m.edge(l))
        for a, b in zip(p, p[1:]):
            k = (a, b) if a < b else (b, a)
            res[k] = res.get(k, 0) + 1
    return res


def sound(m, what):
    check(m.checkConsistency(), 'inconsistent', 'map is inconsistent after ' + what)


def record(m, t, what):
    stats.count(what)
    stats.count('merges_observed', len(t.merges()) if t else 0)
    stats.state(what, m.nodeCount, m.edgeCount, m.faceCount, tuple(t.ops) if t else (), tuple(edgeLabels(m)))


# --------------------------------------------------------- C27: segmentation

def mergeable(m, adj, a, b):
    return not any(protected(m.edge(l)) for l in adj[a][b])


def caseSmallRegions(r):
    m = makeMap(r)
    if not m.edgeCount:
        return
    sparse = r.chance(.25)
    if sparse:
        # few regions can be merged at all: a chain of adjacent faces
        adj = adjacency(m)
        f = r.pick([x for x in adj if adj[x]] or [0])
        free = set()
        for k in range(r.range(1, 3)):
            if not adj[f]:
                break
            n = 0 if 0 in adj[f] and k and r.chance(.5) else r.pick(sorted(adj[f]))
            free.update(adj[f][n])
            f = n
        for e in m.edgeIter():
            if e.label() not in free:
                e.setFlag(1 << r.below(5))
        p = geomap.EdgeProtection(m)
        note('all edges except %s are protected' % sorted(free))
    else:
        p = protect(r, m, r.uni(0, .5)) if r.chance(.5) else None
    areas = sorted(m.face(f).area() for f in faceLabels(m) if f)
    if not areas:
        return
    t = Track(m)
    cost = Cost(r, t) if r.chance(.8) else None
    lim = {}
    if not m.hasLabelImage() or r.chance(.7):
        lim['minArea'] = r.pick(areas) + (1000 if sparse else r.pick([-.001, 0, .001, 5, 1000]))
        if lim['minArea'] <= 0:
            lim['minArea'] = 1.0
    if m.hasLabelImage() and (not lim or r.chance(.3)):
        lim['minPixelArea'] = r.pick([1, 2, 5, 10, 20, 50, 10000])
    if sparse:
        stats.count('sparse_regions')
    note('removeSmallRegions(%s)' % lim)

    def small(f):
        if not f:
            return False
        f = m.face(f)
        return not ('minArea' in lim and f.area() >= lim['minArea']) and not ('minPixelArea' in lim and f.pixelArea() >= lim['minPixelArea'])

    def onMerge(d):
        adj = adjacency(m)
        a, b = d.leftFaceLabel(), d.rightFaceLabel()
        ok = False
        for x, y in ((a, b), (b, a)):
            if not small(x):
                continue
            check(mergeable(m, adj, x, y), 'small-protected', 'faces %d and %d share a protected edge' % (x, y))
            if cost is None:
                ok = True
            else:
                cs = sorted((cost.of(x, n), n) for n in adj[x] if mergeable(m, adj, x, n))
                ok = ok or cs[0][1] == y
        check(ok, 'small-choice', lambda: 'merge of faces %d and %d (small: %s, %s), limits %s, costs %s' % (a, b, small(a), small(b), lim, [(x, [(n, cost and cost.of(x, n)) for n in adj[x]]) for x in (a, b)]))
    t.onMerge.append(onMerge)
    with quiet():
        res = maputils.removeSmallRegions(m, costMeasure=cost, **lim)
    check(res == len(t.merges()), 'small-count', 'removeSmallRegions() returned %s after %d merges' % (res, len(t.merges())))
    adj = adjacency(m)
    for f in faceLabels(m):
        if small(f):
            stats.count('small_left')
            check(not any(mergeable(m, adj, f, n) for n in adj[f]), 'small-left', 'face %d (area %s) is still too small' % (f, m.face(f).area()))
    sound(m, 'removeSmallRegions')
    record(m, t, 'small_regions')
    t.detach()


def caseMergeOne(r):
    """mergeFaceToBestNeighbor, mergeFacesByLabel, findCommonDart"""
    m = makeMap(r)
    p = protect(r, m, r.uni(.05, .6)) if r.chance(.6) else None
    t = Track(m)
    cost = Cost(r, t)
    for step in range(r.range(1, 8)):
        fs = faceLabels(m)
        adj = adjacency(m)
        cand = [f for f in fs if adj[f]]
        if not cand:
            break
        a = r.pick(cand)
        n0 = len(t.merges())
        before = dump(m)
        if r.chance(.5):
            b = r.pick(fs)
            if a == b:
                continue
            note('mergeFacesByLabel(%d, %d)' % (a, b))
            d = maputils.findCommonDart(m.face(a), m.face(b))
            check((d is None) == (b not in adj[a]) and (d is None or (d.leftFaceLabel() == a and d.rightFaceLabel() == b)), 'common-dart', 'findCommonDart(%d, %d) gives %s' % (a, b, d))
            want = b if b in adj[a] and mergeable(m, adj, a, b) else None
            res = maputils.mergeFacesByLabel(m, a, b, r.chance(.7))
            stats.count('merged_by_label')
        else:
            note('mergeFaceToBestNeighbor(%d)' % a)
            # one unprotected edge makes a neighbour a candidate
            cs = sorted((cost.of(a, n), n) for n in adj[a] if not all(protected(m.edge(l)) for l in adj[a][n]))
            want = cs[0][1] if cs and mergeable(m, adj, a, cs[0][1]) else None
            res = maputils.mergeFaceToBestNeighbor(m.face(a), cost)
            stats.count('merged_to_best')
        if want is None:
            check(res is None or res is False, 'merge-refused', 'merged although not allowed: %s' % res)
            same(before, dump(m), 'merge-refused', 'map after a refused merge')
            stats.count('merges_refused')
        else:
            ms = t.merges()[n0:]
            check(len(ms) == 1 and set(ms[0][2:4]) == set((a, want)), 'merge-which', 'merged %s instead of %s and %s' % (ms, a, want))
            check(res is not None and res.label() == ms[0][4], 'merge-result', 'returned %s instead of face %d' % (res, ms[0][4]))
            check(len(t.partition()) == m.faceCount, 'merge-count', 'number of faces')
    sound(m, 'merges')
    record(m, t, 'merge_one')
    t.detach()


def caseClassification(r):
    m = makeMap(r)
    m0 = copy.copy(m)
    n = r.range(1, 4)
    none = r.pick([0, 0, .3])
    ign = r.chance(.7)
    if r.chance(.15):
        note('removeUnProtectedEdges')
        p = protect(r, m, r.uni(0, .8))
        kept = [l for l in edgeLabels(m) if protected(m.edge(l))]
        sel = None
    else:
        p = None
        cls = [None if r.chance(none) else r.below(n) for i in range(m.maxFaceLabel())]
        note('applyFaceClassification(%s, %s)' % (cls, ign))
        kept = []
        for l in edgeLabels(m):
            a, b = cls[m.edge(l).leftFaceLabel()], cls[m.edge(l).rightFaceLabel()]
            if not (a == b and (a is not None or not ign)):
                kept.append(l)
        sel = cls
    t = Track(m)
    uf = UnionFind(faceLabels(m))
    for l in edgeLabels(m):
        if l not in kept:
            uf.union(m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel())
    segs = segments(m, kept)
    iso = set(x.label() for x in m.nodeIter())
    with quiet():
        if sel is None:
            maputils.removeUnProtectedEdges(m)
        elif r.chance(.5):
            maputils.applyFaceClassification(m, cls, ignoreNone=ign)
        else:
            maputils.applyFaceClassification(m, dict(enumerate(cls)), ignoreNone=ign)
    check(t.partition() == uf.classes(), 'classification-faces', lambda: 'faces %s instead of %s' % (sorted(map(sorted, t.partition())), sorted(map(sorted, uf.classes()))))
    check(segments(m) == segs, 'classification-edges', 'the remaining edges are not those between different classes')
    check(m.faceCount == len(uf.classes()), 'classification-count', 'number of faces')
    sound(m, 'applying a classification')
    if m.hasLabelImage():
        # the kernel describes the step from the initial map
        k = maputils.extractContractionKernel(m)
        check(len(k) == m.maxFaceLabel(), 'kernel-length', 'length %d' % len(k))
        lut = dict((x, s) for s in t.sets.values() for x in s)
        for f, s in t.sets.items():
            for x in s:
                check(k[x] == (f if f else None), 'kernel', 'face %d, now in face %d, has %s' % (x, f, k[x]))
        t2 = Track(m0)
        with quiet():
            maputils.applyFaceClassification(m0, k)
        check(set(s for s in t2.partition() if 0 not in lut[min(s)]) == set(s for s in t.partition() if 0 not in s), 'kernel-apply', 'applying the contraction kernel to the initial map')
        t2.detach()
        stats.count('kernels')
    record(m, t, 'classification')
    t.detach()


def caseCruft(r):
    m = makeMap(r, ops=12)
    p = protect(r, m, r.uni(0, .5)) if r.chance(.4) else None
    what = r.below(16)
    careful = r.chance(.3)
    note('removeCruft(%d, %s)' % (what, careful))
    t = Track(m)
    n0 = m.nodeCount
    segs = segments(m)
    adj0 = adjacency(m)
    keepsep = set()
    with quiet():
        res = maputils.removeCruft(m, what, doChecks=careful)
    kinds = dict((k, len([o for o in t.ops if o[0] == k])) for k in ('mergeFaces', 'removeBridge', 'mergeEdges'))
    removedNodes = n0 - m.nodeCount - kinds['mergeEdges']
    # (removing a bridge or a loop takes its end nodes with it)
    extra = removedNodes if what & 1 and not what & 12 else 0
    check(res == len(t.ops) + extra or (what & 1 and what & 12 and res >= len(t.ops)), 'cruft-count', 'removeCruft(%d) returned %s after %s and %d isolated nodes' % (what, res, kinds, removedNodes))
    for bit, k in ((8, 'mergeFaces'), (4, 'removeBridge'), (2, 'mergeEdges')):
        if not what & bit:
            check(not kinds[k], 'cruft-selection', 'removeCruft(%d) performed %s' % (what, kinds))
    if not what & 13:
        check(not removedNodes, 'cruft-selection', 'removeCruft(%d) removed isolated nodes' % what)
    for l in edgeLabels(m):
        e = m.edge(l)
        if not protected(e):
            check(not (what & 8 and not e.isBridge()), 'cruft-left', 'edge %d separates faces after removeCruft(%d)' % (l, what))
            check(not (what & 4 and e.isBridge()), 'cruft-left', 'edge %d is a bridge after removeCruft(%d)' % (l, what))
    for x in range(m.maxNodeLabel()):
        n = m.node(x)
        if n is None:
            continue
        if what & 1:
            check(not n.isIsolated(), 'cruft-left', 'node %d is isolated after removeCruft(%d)' % (x, what))
        if what & 2 and n.degree() == 2:
            d = n.anchor()
            d2 = d.clone().nextSigma()
            check(d.edgeLabel() == d2.edgeLabel() or (p is not None and d.edge().flags() != d2.edge().flags()), 'cruft-left', 'node %d has degree 2 after removeCruft(%d)' % (x, what))
    if not what & 12:
        check(segments(m) == segs, 'cruft-geometry', 'removeCruft(%d) changed the edges' % what)
    sound(m, 'removeCruft(%d)' % what)
    record(m, t, 'cruft')
    t.detach()


class Queue(object):
    """a cost queue with changeable costs (the library's own needs a newer vigra)"""

    def __init__(self):
        self.c = {}
        self.popped = []

    def insert(self, i, c):
        self.c[i] = c

    setCost = insert

    def empty(self):
        return not self.c

    def __bool__(self):
        return bool(self.c)

    def top(self):
        i = min(self.c, key=lambda i: (self.c[i], i))
        return i, self.c[i]

    def pop(self):
        i, c = self.top()
        del self.c[i]
        self.popped.append((i, c))
        return i, c


def caseMerger(r):
    m = makeMap(r)
    if not m.edgeCount:
        return
    p = protect(r, m, r.uni(0, .4)) if r.chance(.4) else None
    t = Track(m)
    cost0 = Cost(r, t)
    if r.chance(.3):
        cost0.levels = r.pick([2, 4, 8])       # many equal costs, some of them zero
        stats.count('coarse_costs')
    cost = cost0
    q = Queue()
    for l in edgeLabels(m):
        if not protected(m.edge(l)):
            c = cost(m.dart(l))
            q.insert(l, c)
    log = []

    def value(l):
        e = m.edge(l)
        return cost0.of(e.leftFaceLabel(), e.rightFaceLabel())

    def onMerge(d):
        l = abs(d.label())
        if (protected(d.edge())):
            violate('merger-protected', 'edge %d is protected' % l)
        v = value(l)
        check(q.popped[-1][0] in maputilsCommon(d) and abs(q.popped[-1][1] - v) < 1e-12, 'merger-edge', 'merging along edge %d of cost %s after fetching %s' % (l, v, q.popped[-1]))
        for k in q.c:
            e = m.edge(k)
            if e is not None and not protected(e):
                check(value(k) >= v, 'merger-order', 'merge of cost %s before edge %d of cost %s' % (v, k, value(k)))
        log.append(v)

    def maputilsCommon(d):
        a, b = set((d.leftFaceLabel(), d.rightFaceLabel())), set()
        for l in edgeLabels(m):
            if set((m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel())) == a:
                b.add(l)
        return b
    t.onMerge.append(onMerge)
    costs = []
    with quiet():
        kind = r.below(3)
        complete = kind == 0 or r.chance(.7)
        keep = kind == 0 or r.chance(.8)
        if kind == 0:
            lim = r.uni(0, 1) if r.chance(.6) else value(r.pick(edgeLabels(m)))
            note('thresholdMergeCost(%s)' % lim)
            n, q2 = maputils.thresholdMergeCost(m, cost, lim, costs, q)
            check(q2 is q, 'merger-queue', 'another queue was returned')
        else:
            arm = maputils.AutomaticRegionMerger(m, cost, q) if complete else maputils.AutomaticRegionMerger(m, cost, q, completeMerge=False)
            check(arm.step() == 0, 'merger-count', 'step() is %s initially' % arm.step())
            if keep:
                arm._costLog = costs
            n, lim = 0, None
            for k in range(r.range(1, 4)):
                w = r.below(4)
                s0 = arm.step()
                if w == 0:
                    c = r.range(1, 5)
                    done = arm.mergeSteps(c)
                    check(done <= c and (done == c or not q), 'merger-steps', 'mergeSteps(%d) did %d' % (c, done))
                    lim = None
                elif w == 1:
                    ls = edgeLabels(m)
                    lim = r.uni(0, 1) if r.chance(.6) or not ls else value(r.pick(ls))
                    done = arm.mergeToCost(lim)
                elif w == 2:
                    if r.chance(.7):
                        continue
                    done = arm.merge()
                    check(not q, 'merger-all', 'candidates are left')
                    lim = None
                else:
                    arm.ensureValidNext()
                    if not q:
                        continue
                    nl, nc = arm.nextLabel(), arm.nextCost()
                    e = m.edge(nl)
                    check(e is not None and abs(nc - value(nl)) < 1e-12, 'merger-next', 'next is %s of cost %s' % (nl, nc))
                    f = arm.mergeStep()
                    done = 1 if f is not None else 0
                    lim = None
                check(arm.step() - s0 == done, 'merger-count', 'step() %d after %d, %d operations' % (arm.step(), s0, done))
                n += done
    # merged faces are followed by the removal of further common edges
    ms = t.merges()
    if keep:
        check(len(costs) == n, 'merger-log', '%d costs for %d operations' % (len(costs), n))
        check(all(any(abs(a - b) < 1e-12 for b in costs) for a in log), 'merger-log', 'costs %s do not contain those of the merges %s' % (costs, log))
    if not complete:
        # one operation per step: no further edges, no nodes are touched
        check(len(t.ops) == n and not any(o[0] == 'mergeEdges' for o in t.ops), 'merger-single', '%d steps: %s' % (n, t.ops))
        stats.count('incomplete_mergers')
    check(len(ms) <= n, 'merger-count', '%d operations reported, %d merges' % (n, len(ms)))
    adj = adjacency(m)
    for l in edgeLabels(m):
        e = m.edge(l)
        if protected(e):
            continue
        a, b = e.leftFaceLabel(), e.rightFaceLabel()
        v = value(l)
        if l in q.c:
            check(abs(q.c[l] - v) < 1e-12, 'merger-stale', 'edge %d has cost %s in the queue instead of %s' % (l, q.c[l], v))
        if a == b or not mergeable(m, adj, a, b):
            continue
        check(l in q.c, 'merger-lost', 'edge %d is no longer a candidate' % l)
        if lim is not None:
            check(v > lim, 'merger-left', 'edge %d of cost %s is left with limit %s' % (l, v, lim))
    sound(m, 'merging by cost')
    record(m, t, 'region_merger')
    t.detach()


def caseGrowing(r):
    """SeededRegionGrowing against a model on the region adjacency graph"""
    m = makeMap(r)
    if not m.edgeCount:
        return
    stupid = r.chance(.5)
    fs = faceLabels(m)
    SEED = flag_constants.SRG_SEED
    p = r.uni(.05, .6)
    seeds = [f for f in fs if r.chance(p)] or [r.pick(fs)]
    if len(seeds) == len(fs):
        seeds = seeds[:-1]
    if not seeds or len(fs) < 2:
        return
    for f in seeds:
        m.face(f).setFlag(SEED)
    note('seeds %s, stupidInit %s' % (seeds, stupid))
    t = Track(m)
    cost = Cost(r, t)
    adj = dict((f, set(n)) for f, n in adjacency(m).items())

    # the model: regions are sets of initial faces
    region = dict((f, frozenset([f])) for f in fs)
    seed = set(region[f] for f in seeds)
    queue, border = [], set()

    def neighbours(s):
        return set(region[n] for f in s for n in adj[f]) - set([s])

    def push(s, skipBorder):
        for n in neighbours(s):
            if n in seed or (skipBorder and n in border):
                continue
            queue.append((setCost(cost.salt, s, n), min(n), n))
            border.add(n)
    for f in sorted(seeds):
        push(region[f], stupid)
    order = []

    def step():
        while queue:
            queue.sort(key=lambda x: x[:2])
            c, _, n = queue.pop(0)
            if n in seed or region[min(n)] is not n:
                continue
            b = min((setCost(cost.salt, n, s), sorted(s)) for s in neighbours(n) if s in seed)
            s = region[b[1][0]]
            u = s | n
            for f in u:
                region[f] = u
            seed.discard(s)
            seed.add(u)
            order.append((s, n, c))
            push(u, True)
            return True
        return False
    with quiet():
        srg = maputils.SeededRegionGrowing(m, cost, dynamic=False, stupidInit=stupid)
        srg._costLog = clog = []
        for k in range(r.range(0, 3)):
            n = r.range(1, 3)
            done = srg.growSteps(n)
            md = 0
            while md < n and step():
                md += 1
            check(done == md, 'growing-steps', 'growSteps(%d) did %d instead of %d' % (n, done, md))
            check(t.partition() == frozenset(region.values()), 'growing-order', lambda: 'after %d steps: %s instead of %s' % (srg.step(), sorted(map(sorted, t.partition())), sorted(map(sorted, set(region.values())))))
        if r.chance(.3):
            lim = r.uni(0, 1) if r.chance(.6) or not queue else r.pick(queue)[0]
            srg.growToCost(lim)
            while True:
                queue.sort(key=lambda x: x[:2])
                while queue and (queue[0][2] in seed or region[queue[0][1]] is not queue[0][2]):
                    queue.pop(0)
                if not queue or queue[0][0] > lim:
                    break
                step()
            check(t.partition() == frozenset(region.values()), 'growing-to-cost', lambda: 'limit %s: %s instead of %s' % (lim, sorted(map(sorted, t.partition())), sorted(map(sorted, set(region.values())))))
        n = srg.grow()
    while step():
        pass
    check(t.partition() == frozenset(region.values()), 'growing-result', lambda: '%s instead of %s' % (sorted(map(sorted, t.partition())), sorted(map(sorted, set(region.values())))))
    check(srg.step() == len(order) == len(clog), 'growing-count', '%d steps instead of %d' % (srg.step(), len(order)))
    check(all(abs(a - b[2]) < 1e-12 for a, b in zip(clog, order)), 'growing-costs', 'costs %s instead of %s' % (clog, [o[2] for o in order]))
    check(m.faceCount == len(seeds) and all(m.face(f).flag(SEED) for f in faceLabels(m)), 'growing-left', '%d faces for %d seeds' % (m.faceCount, len(seeds)))
    sound(m, 'region growing')
    record(m, t, 'growing')
    t.detach()


def caseTrees(r):
    """minimumSpanningTree, regionalMinima, seededRegionGrowingStatic, waterfallLabels"""
    m = makeMap(r)
    before = dump(m)
    costs = [None] * m.maxEdgeLabel()
    ls = edgeLabels(m)
    perm = list(range(1, len(ls) + 1))
    r.shuffle(perm)
    ties = r.chance(.2)
    for l, c in zip(ls, perm):
        if not r.chance(.1):
            costs[l] = (c // 3 if ties else c) * .5
    asFunction = r.chance(.3) and not ties
    arg = (lambda d: costs[d.edgeLabel()]) if asFunction else list(costs)
    with quiet():
        mst = maputils.minimumSpanningTree(m, arg)
    check(asFunction or arg == costs, 'mst-argument', 'the given costs were changed')
    # any minimum spanning forest has this weight and connects the same faces
    uf, w = UnionFind(faceLabels(m)), 0
    for c, l in sorted((costs[l], l) for l in ls if costs[l] is not None):
        if uf.union(m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel()):
            w += c
    uf2 = UnionFind(faceLabels(m))
    check(len(mst) == m.maxEdgeLabel(), 'mst-length', 'length %d' % len(mst))
    for l, c in enumerate(mst):
        if c is not None:
            check(l in ls and c == costs[l], 'mst-cost', 'edge %d has cost %s' % (l, c))
            check(uf2.union(m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel()), 'mst-cycle', 'edge %d closes a cycle' % l)
    check(uf.classes() == uf2.classes(), 'mst-spans', 'the tree does not connect what the edges connect')
    check(abs(sum(c for c in mst if c is not None) - w) < 1e-9, 'mst-minimal', 'weight %s instead of %s' % (sum(c for c in mst if c is not None), w))
    stats.count('spanning_trees')
    tree = [l for l, c in enumerate(mst) if c is not None]
    sides = dict((l, (m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel())) for l in ls)
    # regional minima
    rm = maputils.regionalMinima(m, mst)
    minima = {}
    for l in tree:
        if all(mst[k] >= mst[l] for k in tree if set(sides[k]) & set(sides[l])):
            for f in sides[l]:
                minima.setdefault(f, set()).add(l)
    check(len(rm) == m.maxFaceLabel(), 'minima-length', 'length %d' % len(rm))
    for f, v in enumerate(rm):
        check((v in minima[f]) if f in minima else v is None, 'minima', 'face %d is labelled %s, its regional minima are %s' % (f, v, minima.get(f)))

    def grow(labels, costs):
        labels = list(labels)
        while True:
            best = None
            for l in ls:
                c = costs[l]
                a, b = sides[l]
                if c is not None and (labels[a] is None) != (labels[b] is None) and (best is None or c < best[0]):
                    best = c, a, b
            if best is None:
                return labels
            _, a, b = best
            labels[a] = labels[b] = labels[a] if labels[b] is None else labels[b]
    if not ties:
        with quiet():
            wf = maputils.waterfallLabels(m, list(costs))
            # with a given tree, that one is used
            costs2 = [None if c is None else -c for c in costs]
            mst2 = maputils.minimumSpanningTree(m, list(costs2))
            wf2 = maputils.waterfallLabels(m, list(costs), list(mst2)) if any(c is not None for c in mst2) else None
        if wf2 is not None:
            want2 = grow(maputils.regionalMinima(m, mst2), mst2)
            check(wf2 == want2, 'waterfall', lambda: 'labels %s instead of %s for a given tree' % (wf2, want2))
        check(wf == grow(rm, mst), 'waterfall', lambda: 'labels %s instead of %s' % (wf, grow(rm, mst)))
        wf2 = maputils.seededRegionGrowingStatic(m, rm, arg)
        check(wf2 == grow(rm, costs), 'static-growing', lambda: 'labels %s instead of %s' % (wf2, grow(rm, costs)))
        seeds = [None] * m.maxFaceLabel()
        for f in faceLabels(m):
            if r.chance(.3):
                seeds[f] = r.pick([0, 1, 'x', 7])
        given = list(seeds)
        res = maputils.seededRegionGrowingStatic(m, given, list(costs))
        check(given == seeds, 'static-argument', 'the given labels were changed')
        check(res == grow(seeds, costs), 'static-growing', lambda: 'seeds %s: labels %s instead of %s' % (seeds, res, grow(seeds, costs)))
        stats.count('static_growing')
    same(before, dump(m), 'trees-modify', 'map')
    record(m, None, 'trees')


def caseQueries(r):
    """neighborFaces, contourDarts, holeComponent, nodeAtBorder, extractFaceClasses, mapValid*, protectFace"""
    m = makeMap(r, ops=10)
    for e in m.edgeIter():
        if r.chance(.3):
            e.setFlag(r.pick([1, 2, 1 | 4, 8, 256]))
    for f in m.faceIter():
        f.setFlag(r.below(64) if r.chance(.7) else 0)
    adj = adjacency(m)
    before = dump(m)
    ls, fs = edgeLabels(m), faceLabels(m)
    # darts by their left face
    left = {}
    for d in darts(m):
        left.setdefault(d.leftFaceLabel(), set()).add(d.label())
    for f in fs:
        cd = [d.label() for d in maputils.contourDarts(m.face(f))]
        check(len(cd) == len(set(cd)) and set(cd) == left.get(f, set()), 'contour-darts', 'face %d: %s' % (f, cd))
        nf = list(maputils.neighborFaces(m.face(f)))
        check(all(d.leftFaceLabel() == f for d in nf) and sorted(d.rightFaceLabel() for d in nf) == sorted(adj[f]), 'neighbours', 'face %d' % f)
        for c in m.face(f).holeContours():
            seen, todo, comp = set(), [c.label()], set()
            while todo:
                l = todo.pop()
                if l in seen:
                    continue
                seen.add(l)
                d = m.dart(l)
                comp.add(d.leftFaceLabel())
                todo += [-l, d.nextSigma().label()]
            for ext in (False, True):
                h = [x.label() for x in maputils.holeComponent(c, ext)]
                check(len(h) == len(set(h)) and set(h) == (comp if ext else comp - set([f])) and (not ext or h[0] == f), 'hole-component', 'hole of face %d: %s instead of %s' % (f, h, comp))
            stats.count('holes')
    with quiet() as out:
        maputils.showHomotopyTree(m)
    check(len(out.getvalue().splitlines()) == m.faceCount, 'homotopy-tree', 'does not show every face once:\n' + out.getvalue())
    for n in m.nodeIter():
        want = any(m.edge(l).flags() & 1 and n.label() in (m.edge(l).startNodeLabel(), m.edge(l).endNodeLabel()) for l in ls)
        check(bool(maputils.nodeAtBorder(n)) == want, 'node-at-border', 'node %d' % n.label())
    check([e.label() for e in maputils.nonBorderEdges(m)] == [l for l in ls if not m.edge(l).flags() & 1] and all(bool(maputils.edgeAtBorder(m.edge(l))) == bool(m.edge(l).flags() & 1) for l in ls), 'border-edges', 'nonBorderEdges')
    check([f.label() for f in maputils.nonBackgroundFaces(m)] == [f for f in fs if not m.face(f).flags() & 1], 'background-faces', 'nonBackgroundFaces')
    check([n.label() for n in maputils.degree2Nodes(m)] == [n.label() for n in m.nodeIter() if n.degree() == 2], 'degree-2', 'degree2Nodes')
    dft = r.pick([None, -1])
    check(maputils.mapValidEdges(lambda e: ('e', e.label()), m, dft) == [('e', l) if l in ls else dft for l in range(m.maxEdgeLabel())], 'map-edges', 'mapValidEdges')
    check(maputils.mapValidEdges(lambda e: ('e', e.label()), m, dft, True) == [('e', l) if l in ls and not m.edge(l).flags() & 1 else dft for l in range(m.maxEdgeLabel())], 'map-edges', 'mapValidEdges(skipBorder)')
    check(maputils.mapValidDarts(lambda d: ('d', d.label()), m, dft) == [('d', l) if l in ls else dft for l in range(m.maxEdgeLabel())], 'map-darts', 'mapValidDarts')
    check(maputils.mapValidFaces(lambda f: ('f', f.label()), m, dft) == [('f', l) if l in fs else dft for l in range(m.maxFaceLabel())], 'map-faces', 'mapValidFaces')
    # classes of faces
    skip = r.chance(.5)
    val = dict((f, m.face(f).flags() & flag_constants.FACE_NONINTERNAL) for f in fs if f or not skip)
    arg = r.pick([None, 0x0f, 0x31, 'list'])
    if arg == 'list':
        arg = r.sample([1, 2, 3, 4, 8, 12, 16, 32, 48, 63], r.range(1, 5))
        want = dict((c, []) for c in arg)
        for f in sorted(val):
            fit = [c for c in arg if val[f] & c == c]
            if fit:
                want[max(fit)].append(f)
    else:
        mask = flag_constants.FACE_NONINTERNAL if arg is None else arg
        want = dict((v & mask, []) for v in val.values())
        for f in sorted(val):
            if val[f] & mask:
                want[val[f] & mask].append(f)
    got = maputils.extractFaceClasses(m, arg, skip)
    check(dict((c, [f.label() for f in l]) for c, l in got.items()) == want, 'face-classes', lambda: 'classes %s of %s: %s' % (arg, val, dict((c, [f.label() for f in l]) for c, l in got.items())))
    for f in fs:
        if f:
            p = maputils.pointInFace(m.face(f))
            check(m.face(f).contains(p), 'point-in-face', 'point %s is not in face %d' % (p, f))
            stats.count('points_in_faces')
    same(before, dump(m), 'queries-modify', 'map')
    # protection of faces
    for f in m.faceIter():
        f.setFlag(0xff, False)
    for e in m.edgeIter():
        e.setFlag(0xff, False)
    prot = set()
    own = 1 << r.range(20, 25) if r.chance(.4) else None
    FLAG = own or flag_constants.PROTECTED_FACE
    if own:
        for f in fs:
            m.face(f).setFlag(own, False)
        stats.count('own_face_flags')
    for k in range(r.range(1, 6)):
        f, on = r.pick(fs), r.chance(.7)
        note('protectFace(%d, %s, %s)' % (f, on, own))
        maputils.protectFace(m.face(f), on, own) if own else maputils.protectFace(m.face(f), on)
        (prot.add if on else prot.discard)(f)
        for l in ls:
            e = m.edge(l)
            a, b = e.leftFaceLabel(), e.rightFaceLabel()
            if a == b:
                continue      # a bridge has one face only
            check(bool(e.flag(flag_constants.CONTOUR_PROTECTION)) == (a in prot or b in prot), 'protect-face', 'edge %d between faces %d and %d, protected are %s' % (l, a, b, sorted(prot)))
        check(sorted(prot) == [x for x in fs if m.face(x).flag(FLAG)], 'protect-face', 'flags of the faces')
    record(m, None, 'queries')


def caseThinFaces(r):
    """points in faces that are concave or smaller than a pixel"""
    u = [(0, 0), (3, 0), (3, 3), (2.5, 3), (2.5, .5), (.5, .5), (.5, 3), (0, 3)]
    if r.chance(.5):
        u = [(p[0], p[1] + .8 * p[0] * (3 - p[0])) for p in u]
    a, s, c = r.uni(0, 7), r.uni(.1, 1.2), (r.uni(5, 7), r.uni(5, 7))
    p = [(c[0] + s * ((x - 1.5) * math.cos(a) - (y - 1.5) * math.sin(a)), c[1] + s * ((x - 1.5) * math.sin(a) + (y - 1.5) * math.cos(a))) for x, y in u]
    k = r.below(len(p))
    p = p[k:] + p[:k + 1]
    m = GeoMap([p[0]], [None, (0, 0, p[::r.pick([1, -1])])], Size2D(13, 13))
    m.sortEdgesDirectly()
    m.initializeMap(r.chance(.5))
    note('thin face %s' % p)
    check(m.faceCount == 2, 'thin-face', '%d faces' % m.faceCount)
    f = m.face(faceLabels(m)[1])
    q = maputils.pointInFace(f)
    check(f.contains(q), 'point-in-face', 'point %s is not in the face' % (q,))
    stats.count('thin_faces')
    record(m, None, 'thin')


def c27(r, i):
    if r.chance(.03):
        return caseThinFaces(r)
    r.pick([caseSmallRegions, caseMergeOne, caseClassification, caseCruft, caseMerger, caseMerger, caseGrowing, caseGrowing, caseTrees, caseQueries])(r)


# ------------------------------------------- C28: copies, histories, derived maps

FLAGS = 0x0fffffff


def caseCopy(r):
    """copyMapContents and copyMap"""
    m = makeMap(r, ops=10)
    for e in m.edgeIter():
        e.setFlag(r.below(256) << r.pick([0, 0, 12]))
    for f in m.faceIter():
        f.setFlag(r.below(256) << r.pick([0, 0, 16]))
    sortedSource = r.chance(.8)
    if not sortedSource:
        g = GeoMap(Size2D(m.imageSize().x, m.imageSize().y))
        ns = dict((n.label(), g.addNode(pt(n.position()))) for n in m.nodeIter())
        for e in m.edgeIter():
            g.addEdge(ns[e.startNodeLabel()], ns[e.endNodeLabel()], pts(e)).setFlag(e.flags() & FLAGS)
        m = g
    before = dump(m)
    ls = edgeLabels(m)
    drop = set(l for l in ls if r.chance(.3)) if r.chance(.4) else set()
    move = (r.range(-3, 3), r.range(-2, 2)) if r.chance(.3) else None
    tr = None

    def geometry(l):
        p = pts(m.edge(l))
        return p if move is None else [(x + move[0], y + move[1]) for x, y in p]
    if drop or move:
        tr = lambda e: None if e.label() in drop else (e if move is None else Polygon(geometry(e.label())))
    note('copyMapContents: sorted %s, dropping %s, moving %s' % (sortedSource, sorted(drop), move))
    dest = None
    offset = (0, 0)
    if r.chance(.2) and not drop and not move:
        # add to a map that has other contents already
        dest = GeoMap(Size2D(m.imageSize().x, m.imageSize().y))
        a, b = dest.addNode((.3, .2)), dest.addNode((.6, .25))
        dest.addEdge(a, b, [(.3, .2), (.6, .25)])
        offset = (2, 1)
        if sortedSource:
            dest.sortEdgesDirectly()
        given = dest
    c, nodes, edges = maputils.copyMapContents(m, dest, tr)
    check(dest is None or c is given, 'copy-destination', 'another map was returned')
    kept = [l for l in ls if l not in drop]
    check(len(nodes) == m.maxNodeLabel() and len(edges) == m.maxEdgeLabel(), 'copy-lists', 'lengths %d, %d' % (len(nodes), len(edges)))
    check([l for l in range(len(edges)) if edges[l] is not None] == kept, 'copy-edges', 'copied are %s instead of %s' % ([l for l in range(len(edges)) if edges[l] is not None], kept))
    check(c.edgeCount == len(kept) + offset[1] and c.nodeCount == m.nodeCount + offset[0], 'copy-counts', '%d nodes, %d edges' % (c.nodeCount, c.edgeCount))
    check(c.maxEdgeLabel() == len(kept) + 1 + offset[1], 'copy-labels', 'edge labels up to %d for %d edges' % (c.maxEdgeLabel(), len(kept)))
    check(c.edgesSorted() == m.edgesSorted(), 'copy-sorted', 'edgesSorted')
    ends = {}
    for l in kept:
        e, n = m.edge(l), edges[l]
        check(pts(n) == geometry(l) and n.flags() & FLAGS == e.flags() & FLAGS, 'copy-geometry', 'edge %d' % l)
        check(n.startNodeLabel() == nodes[e.startNodeLabel()].label() and n.endNodeLabel() == nodes[e.endNodeLabel()].label(), 'copy-ends', 'edge %d' % l)
    for n in m.nodeIter():
        p = pt(n.position())
        alone = all(l in drop for l in ls if n.label() in (m.edge(l).startNodeLabel(), m.edge(l).endNodeLabel()))
        q = p if move is None or alone else (p[0] + move[0], p[1] + move[1])
        check(nodes[n.label()] is not None and pt(nodes[n.label()].position()) == q, 'copy-nodes', 'node %d' % n.label())
    check(len(set(n.label() for n in nodes if n is not None)) == m.nodeCount, 'copy-nodes', 'two nodes became one')
    # the order of the darts around the nodes
    back = dict((n.label(), l) for l, n in enumerate(edges) if n is not None)
    for l in kept:
        for d in (l, -l):
            x = m.dart(d).nextSigma()
            while x.edgeLabel() in drop:
                x.nextSigma()
            y = c.dart(edges[l].label() if d > 0 else -edges[l].label()).nextSigma()
            y = back[y.edgeLabel()] * (1 if y.label() > 0 else -1)
            check(x.label() == y, 'copy-order', 'dart %d is followed by %d instead of %d' % (d, y, x.label()))
    same(before, dump(m), 'copy-modifies', 'source map')
    stats.count('contents_copied')
    if sortedSource:
        tr2 = None if move is None else (lambda e: Polygon(geometry(e.label())))
        if m.edgeCount or r.chance(.5):
            iso = [x for x in m.faceIter() if not list(x.contours())]
            if iso:
                record(m, None, 'copy')
                return
            full = maputils.copyMap(m, tr2)
            check(full.mapInitialized() and full.hasLabelImage() == m.hasLabelImage(), 'copy-initialized', 'copyMap() result')
            check((full.nodeCount, full.edgeCount, full.faceCount) == (m.nodeCount, m.edgeCount, m.faceCount), 'copy-counts', 'copyMap(): %d faces instead of %d' % (full.faceCount, m.faceCount))
            check(full.maxEdgeLabel() == m.edgeCount + 1 and full.maxNodeLabel() == m.nodeCount, 'copy-compress', 'copyMap() leaves gaps in the labels: %s for %s' % ((full.maxNodeLabel(), full.maxEdgeLabel(), full.maxFaceLabel()), (m.nodeCount, m.edgeCount, m.faceCount)))
            em = dict((l, i + 1) for i, l in enumerate(ls))
            fm = {}
            for l in ls:
                for d in (l, -l):
                    a = m.dart(d).leftFaceLabel()
                    b = full.dart(em[l] if d > 0 else -em[l]).leftFaceLabel()
                    check(fm.setdefault(a, b) == b, 'copy-faces', 'face %d became faces %d and %d' % (a, fm[a], b))
            check(len(set(fm.values())) == len(fm) == m.faceCount, 'copy-faces', 'faces are not matched one to one: %s' % fm)
            for a, b in fm.items():
                check(m.face(a).flags() & FLAGS == full.face(b).flags() & FLAGS, 'copy-face-flags', 'face %d: flags %x instead of %x' % (a, full.face(b).flags(), m.face(a).flags()))
                check(abs(m.face(a).area() - full.face(b).area()) < 1e-6 and m.face(a).holeCount() == full.face(b).holeCount(), 'copy-face-area', 'face %d' % a)
            check(full.checkConsistency(), 'copy-consistency', 'copyMap() result is inconsistent')
            stats.count('maps_copied')
    record(m, None, 'copy')


def caseFromEdges(r):
    s = Spec(r)
    edges = [e[2] for e in s.edges if e is not None]
    if r.chance(.4):
        # nodes are much closer to each other than pixels
        f = r.pick([.5, .2])
        near = [[(p[0] * f, p[1] * f) for p in e] for e in edges]
        ends = sorted(set(p for e in near for p in (e[0], e[-1])))
        # end points are identified up to a distance of 0.03
        if all(math.hypot(p[0] - q[0], p[1] - q[1]) > .05 for k, p in enumerate(ends) for q in ends[:k]):
            edges = near
            stats.count('close_nodes')
    r.shuffle(edges)
    m = maputils.mapFromEdges([Polygon(e) if r.chance(.5) else e for e in edges], s.size)
    note('mapFromEdges of %d edges' % len(edges))
    ends = set(p for e in edges for p in (e[0], e[-1]))
    check(m.nodeCount == len(ends) and set(pt(n.position()) for n in m.nodeIter()) == ends, 'from-edges-nodes', '%d nodes instead of %d' % (m.nodeCount, len(ends)))
    check([pts(e) for e in m.edgeIter()] == edges and m.edgeCount == len(edges), 'from-edges', 'edges differ')
    for e in m.edgeIter():
        check(pt(e.startNode().position()) == pt(e[0]) and pt(e.endNode().position()) == pt(e[-1]), 'from-edges-ends', 'edge %d' % e.label())
    check(not m.edgesSorted(), 'from-edges-sorted', 'edgesSorted()')
    record(m, None, 'from_edges')


def noIsolated(d):
    d = dict(d)
    d['nodes'] = dict((l, v) for l, v in d['nodes'].items() if not v[3])
    d['counts'] = d['counts'][1:]
    d.pop('max', None)
    return d


def caseHistory(r):
    m = makeMap(r, ops=8)
    p = protect(r, m, r.uni(0, .4)) if r.chance(.4) else None
    start = copy.copy(m)
    copies = [copy.copy(m) for k in range(4)]
    h = maputils.LiveHistory(m)
    t = Track(m)
    h2 = None
    mark = 0
    for k in range(r.range(1, 10)):
        ls = edgeLabels(m)
        if not ls:
            break
        if k == 3 and r.chance(.5):
            h2, mark, mid = maputils.LiveHistory(m), len(h), copy.copy(m)
        dl = r.pick(ls) * r.pick([1, -1])
        d = m.dart(dl)
        w = r.below(5)
        c, full, cruft = r.chance(.4), r.chance(.7), r.below(16) & ~1
        kind = (0 if w == 0 and not d.edge().isBridge() else
                1 if w <= 2 else
                2 if w == 3 and d.startNode().degree() == 2 and d.clone().nextSigma().edgeLabel() != d.edgeLabel() else
                3 if w == 4 and c else 4)
        # the same on a map that nobody records
        alone = copy.copy(m)
        pa = geomap.EdgeProtection(alone) if p is not None else None
        with quiet():
            for x in (m, alone):
                d = x.dart(dl)
                if kind == 0:
                    geomap.mergeFacesCompletely(d, full)
                elif kind == 1:
                    (x.removeBridge if d.edge().isBridge() else x.mergeFaces)(d)
                elif kind == 2:
                    x.mergeEdges(d)
                elif kind == 3:
                    maputils.removeCruft(x, cruft)
        d = None
        same(dump(alone), dump(m), 'history-interferes', 'map that is recorded')
    want = [o[:2] for o in t.ops]
    note('%d operations: %s' % (len(want), want))
    check([tuple(x) for x in h] == want, 'history-record', lambda: 'recorded %s instead of %s' % (list(h), want))
    if h2 is not None:
        check([tuple(x) for x in h2] == want[mark:], 'history-record', lambda: 'second history recorded %s instead of %s' % (list(h2), want[mark:]))
    final = noIsolated(dump(m))
    with quiet():
        n = h.replay(copies[0], careful=r.chance(.3))
    check(n == len(want), 'history-replay-count', 'replay() returned %d' % n)
    same(final, noIsolated(dump(copies[0])), 'history-replay', 'map after replaying the history')
    exec(h.commands('target'), dict(target=copies[1]))
    same(final, noIsolated(dump(copies[1])), 'history-commands', 'map after running the commands')
    if h2 is not None:
        with quiet():
            h2.replay(mid)
        same(final, noIsolated(dump(mid)), 'history-replay', 'map after replaying the end of the history')
        h2.detachHooks()
    # saved histories
    with tempfile.TemporaryDirectory() as tmp:
        f = os.path.join(tmp, 'history')
        h.save(f)
        loaded = maputils.History.load(f)
    check(list(loaded) == list(h) and isinstance(loaded, maputils.History), 'history-file', 'loaded %s instead of %s' % (loaded, list(h)))
    with quiet():
        loaded.replay(copies[2], verbose=False)
    same(final, noIsolated(dump(copies[2])), 'history-file', 'map after replaying the loaded history')
    # pickling takes the map along
    pm, ph = pickle.loads(pickle.dumps((m, h), 2))
    check(list(ph) == list(h), 'history-pickle', 'unpickled history')
    bridge = [l for l in edgeLabels(pm) if pm.edge(l).isBridge()]
    other = [l for l in edgeLabels(pm) if not pm.edge(l).isBridge()]
    n0 = len(h)
    if other:
        pm.mergeFaces(pm.dart(other[0]))
        check(list(ph)[:-1] == list(h) and ph[-1] in [('mergeFaces', x * other[0]) for x in (1, -1)], 'history-pickle', 'unpickled history does not follow its map: %s instead of %s + %s' % (list(ph), list(h), other[0]))
        check(len(h) == n0, 'history-pickle', 'the original history follows the copy')
    h.detachHooks()
    two = [d for d in darts(m) if d.startNode().degree() == 2 and d.clone().nextSigma().edgeLabel() != d.edgeLabel()]
    if two:
        m.mergeEdges(two[0])
        stats.count('edges_merged_unrecorded')
    two = None
    ls = edgeLabels(m)
    if ls:
        m.edge(ls[0]).setFlag(0xff, False)
        (m.removeBridge if m.edge(ls[0]).isBridge() else m.mergeFaces)(m.dart(ls[0]))
    check(len(h) == n0, 'history-detached', 'records after detachHooks()')
    # operations that the map refuses
    if want:
        x, k = copy.copy(start), r.below(len(want))
        seen = [0]

        def veto(d):
            seen[0] += 1
            return seen[0] <= k
        cbs = [x.addMergeFacesCallbacks(veto, None), x.addRemoveBridgeCallbacks(veto, None), x.addMergeEdgesCallbacks(veto, None)]
        try:
            with quiet():
                n = h.__class__.replay(loaded, x)
            violate('history-refused', 'replay() returned %d although operation %d was refused' % (n, k))
        except AssertionError:
            check(seen[0] == k + 1, 'history-refused', 'replay() went on after refused operation %d: %d' % (k, seen[0]))
            stats.count('refusals_reported')
        for c in cbs:
            c.disconnect()
    # a history that does not match
    if want and want[0][0] != 'mergeEdges' and r.chance(.5):
        x = copies[3]
        bad = maputils.History(want + [want[0]])
        try:
            with quiet():
                bad.replay(x)
            violate('history-mismatch', 'replayed %s' % list(bad))
        except (AssertionError, RuntimeError):
            stats.count('mismatches_rejected')
    sound(m, 'recording')
    record(m, t, 'history')
    t.detach()


def caseDual(r):
    m = makeMap(r)
    ls = [l for l in edgeLabels(m) if not m.edge(l).isBridge()]
    sel = sorted(l for l in ls if r.chance(r.pick([.5, 1])))
    fs = [f for f in faceLabels(m) if f]
    pos = None
    if r.chance(.6) or not all(list(m.face(f).contours()) for f in faceLabels(m)):
        pos = [None] * m.maxFaceLabel()
        for f in fs:
            if not r.chance(.1):
                pos[f] = (r.uni(1, 30), r.uni(1, 30))
    mid = r.pick([True, False, None])
    note('dualMap(%s, midPoints %s)' % (sel, mid))
    given = list(sel)
    r.shuffle(given)
    before = dump(m)
    if r.chance(.3):
        # edges instead of labels: in any order
        given = [m.edge(l) for l in given] if len(given) < 2 else given
    hooked = []
    if r.chance(.3):
        where = (r.uni(40, 50), r.uni(40, 50))

        def hook(hm, e, res, sn, en):
            check(hm is m or hm.edgeCount == m.edgeCount, 'dual-hook', 'another map was passed')
            hooked.append((e.label(), sn.label() if sn else None, en.label() if en else None))
            if e.label() % 2:
                if not sn:
                    sn = res.addNode(where)
                if not en:
                    en = res.addNode((where[0] + 1, where[1]))
            return sn, en
        d = maputils.dualMap(m, given, pos, midPoints=mid, onDemandNodeHook=hook, initializeMap=False)
        dh = d
        if pos is not None:
            wh = []
            for l in sel:
                a, b = [f if f and pos[f] is not None else None for f in (m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel())]
                if a is None or b is None:
                    wh.append((l, a, b))
            check(hooked == wh, 'dual-hook', lambda: 'the hook was called with %s instead of %s' % (hooked, wh))
            for l, a, b in hooked:
                check((l in edgeLabels(dh)) == bool(l % 2), 'dual-hook', 'edge %d' % l)
            stats.count('dual_hooks', len(hooked))
    d = maputils.dualMap(m, given, pos, midPoints=mid, initializeMap=False)
    if pos is None:
        pos = [None] * m.maxFaceLabel()
        for f in fs:
            pos[f] = pt(geomap.centroid(geomap.contourPoly(m.face(f).contour())))
    want = {}
    for l in sel:
        a, b = m.edge(l).leftFaceLabel(), m.edge(l).rightFaceLabel()
        if a and b and pos[a] is not None and pos[b] is not None:
            want[l] = (a, b)
    check(edgeLabels(d) == sorted(want), 'dual-edges', 'edges %s instead of %s' % (edgeLabels(d), sorted(want)))
    check(sorted(n.label() for n in d.nodeIter()) == sorted(set(f for ab in want.values() for f in ab)), 'dual-nodes', 'nodes')
    for n in d.nodeIter():
        p = pos[n.label()]
        check(abs(n.position()[0] - p[0]) + abs(n.position()[1] - p[1]) < 1e-9, 'dual-position', 'node %d' % n.label())
    for l, (a, b) in want.items():
        e = d.edge(l)
        check((e.startNodeLabel(), e.endNodeLabel()) == (a, b), 'dual-ends', 'edge %d runs from %d to %d instead of %d to %d' % (l, e.startNodeLabel(), e.endNodeLabel(), a, b))
        check(len(e) in (2, 3), 'dual-points', 'edge %d: %s' % (l, pts(e)))
        p = pts(m.edge(l))
        tot = sum(math.hypot(v[0] - u[0], v[1] - u[1]) for u, v in zip(p, p[1:]))
        half, mp = tot / 2, None
        for u, v in zip(p, p[1:]):
            s = math.hypot(v[0] - u[0], v[1] - u[1])
            if half <= s and mp is None:
                mp = (u[0] + (v[0] - u[0]) * half / s, u[1] + (v[1] - u[1]) * half / s)
            half -= s
        if len(e) == 3:
            check(mp is None or math.hypot(e[1][0] - mp[0], e[1][1] - mp[1]) < 1e-6, 'dual-midpoint', 'edge %d: %s instead of %s' % (l, pt(e[1]), mp))
        if mid is not None:
            check(len(e) == (3 if mid else 2), 'dual-points', 'edge %d has %d points' % (l, len(e)))
        else:
            # without a middle point, the two edges intersect
            c = geomap.Polygon(pts(e)) if len(e) == 2 else None
            if c is not None:
                A, B = pos[a], pos[b]
                side = [(B[0] - A[0]) * (y - A[1]) - (B[1] - A[1]) * (x - A[0]) for x, y in p]
                check(min(side) <= 1e-9 and max(side) >= -1e-9, 'dual-crossing', 'edge %d does not cross its dual' % l)
            else:
                # and there is none where the dual edge is crossed anyway (parts that are
                # cut off with a single end point are not recognized as a crossing)
                A, B = pos[a], pos[b]
                side = [(B[0] - A[0]) * (y - A[1]) - (B[1] - A[1]) * (x - A[0]) for x, y in p]
                if all(abs(x) > 1e-6 for x in side) and min(side) < 0 < max(side):
                    inner = side[1:-1]
                    check(not inner or all(x < 0 for x in inner), 'dual-crossing', 'edge %d crosses its dual and still has a middle point' % l)
        stats.count('dual_edges')
    same(before, dump(m), 'dual-modifies', 'source map')
    # trees as maps
    costs = [None] * m.maxEdgeLabel()
    for l in edgeLabels(m):
        costs[l] = r.random()
    if all(list(m.face(f).contours()) for f in faceLabels(m)):
        with quiet():
            mst = maputils.minimumSpanningTree(m, costs)
        tree = [l for l, c in enumerate(mst) if c is not None and m.edge(l).leftFaceLabel() and m.edge(l).rightFaceLabel()]
        cs = [pt(geomap.centroid(geomap.contourPoly(m.face(f).contour()))) for f in fs]
        if len(set((round(x, 3), round(y, 3)) for x, y in cs)) == len(cs):
            try:
                tm = maputils.mst2map(mst, m)
            except RuntimeError:
                tm = None          # crossing or coinciding edges
                stats.count('tree_not_planar')
            if tm is not None:
                check(edgeLabels(tm) == tree, 'tree-map', 'edges %s instead of %s' % (edgeLabels(tm), tree))
                stats.count('tree_maps')
    record(m, None, 'dual')


def casePaths(r):
    m = makeMap(r)
    ls = edgeLabels(m)
    if not ls:
        return
    for e in m.edgeIter():
        e.setFlag(BORDER, r.chance(.15))
    for k in range(4):
        d = m.dart(r.pick(ls) * r.pick([1, -1]))
        p = dartpath.contour(d.clone())
        orbit, x = [], d.clone()
        while True:
            orbit.append(x.label())
            x.nextPhi()
            if x == d:
                break
        check([y.label() for y in p] == orbit, 'path-contour', '%s instead of %s' % ([y.label() for y in p], orbit))
        want = []
        for l in orbit:
            q = pts(m.edge(abs(l)))
            q = q if l > 0 else q[::-1]
            want += q[1 if want else 0:]
        check(pts(p.points()) == want and pts(p.polygon()) == want, 'path-points', 'points of the path %s' % orbit)
        check(abs(p.length() - sum(math.hypot(b[0] - a[0], b[1] - a[1]) for a, b in zip(want, want[1:]))) < 1e-7, 'path-length', 'length of the path %s' % orbit)
        b = p.boundingBox()
        check((pt(b.begin()), pt(b.end())) == tuple((f(x for x, y in want), f(y for x, y in want)) for f in (min, max)), 'path-box', 'bounding box of the path %s' % orbit)
        p.reverse()
        check([y.label() for y in p] == [-l for l in reversed(orbit)] and pts(p.points()) == want[::-1], 'path-reverse', 'reverse of %s' % orbit)
        q = p + p[0].clone()
        check([y.label() for y in q] == [y.label() for y in p] + [p[0].label()] and isinstance(q, dartpath.Path) and len(p) == len(orbit), 'path-add', 'path + dart')
        q = p + p
        check([y.label() for y in q] == 2 * [y.label() for y in p], 'path-add', 'path + path')
        code = dartpath._pathString(orbit)
        check(dartpath._pathDecode(code) == orbit, 'path-code', 'code of %s' % orbit)
        a = [r.pick(orbit) for i in range(r.range(0, 5))]
        b = [r.pick(orbit) for i in range(r.range(0, 5))]
        res, at = [], 0
        for tag, i1, i2, j1, j2 in dartpath.pathCompare(a, b):
            check(i1 == at and (tag != 'equal' or a[i1:i2] == b[j1:j2]), 'path-compare', '%s and %s' % (a, b))
            at = i2
            res += b[j1:j2]
        check(res == b and at == len(a), 'path-compare', '%s and %s' % (a, b))
        # all continuations of a dart
        n = r.range(1, 4)

        def cont(l, n):
            if n == 1:
                return [[l]]
            res, x = [], m.dart(-l)
            x.nextSigma()
            while x.label() != -l:
                if not x.edge().flags() & BORDER:
                    res += [[l] + c for c in cont(x.label(), n - 1)]
                x.nextSigma()
            return res
        l0 = d.label()
        got = [[y.label() for y in c] for c in dartpath.allContinuations(d, n)]
        check(sorted(got) == sorted(cont(l0, n)), 'continuations', 'of dart %d, length %d: %s' % (l0, n, got))
        check(d.label() == l0, 'continuations', 'changed the given dart')
        stats.count('paths')
    record(m, None, 'paths')


def c28(r, i):
    r.pick([caseCopy, caseCopy, caseCopy, caseFromEdges, caseHistory, caseHistory, caseHistory, caseDual, caseDual, casePaths])(r)


# ------------------------------------------------------ C29: edge statistics

class Edges(object):
    """follows which pieces of the initial edges each edge consists of"""

    def __init__(self, m):
        self.m = m
        self.parts = dict((l, frozenset([l])) for l in edgeLabels(m))
        self.merges = self.splits = 0
        self._c = [m.addMergeEdgesCallbacks(self.pre, self.post)]

    def pre(self, d):
        self.cur = d.edgeLabel(), d.clone().nextSigma().edgeLabel()
        return True

    def post(self, e):
        a, b = self.cur
        self.parts[e.label()] = self.parts.pop(a) | self.parts.pop(b)
        self.merges += 1

    def detach(self):
        for c in self._c:
            c.disconnect()


class Refuser(object):
    """refuses some operations after all others have been asked: nothing happens, nothing may change"""

    def __init__(self, r, m):
        self.on = r.chance(.35)
        if not self.on:
            return

        def pre(d):
            if r.chance(.3):
                stats.count('refused_operations')
                return False
            return True
        self.cbs = [m.addMergeFacesCallbacks(pre, None), m.addRemoveBridgeCallbacks(pre, None), m.addMergeEdgesCallbacks(pre, None)]
        note('some operations are refused')

    def detach(self):
        if self.on:
            for c in self.cbs:
                c.disconnect()
            self.on = False


def reduceMap(r, m, steps, faces=True, infinite=True):
    """removes edges and merges the others; yields after every step"""
    for k in range(steps):
        ls = edgeLabels(m)
        if not ls:
            return
        w = r.below(4)
        if w == 0 and faces:
            d = m.dart(r.pick(ls) * r.pick([1, -1]))
            if not infinite and not (d.leftFaceLabel() and d.rightFaceLabel()):
                continue
            if d.edge().isBridge():
                m.removeBridge(d)
            elif r.chance(.5):
                geomap.mergeFacesCompletely(d)
            else:
                m.mergeFaces(d)
        else:
            n2 = [n for n in m.nodeIter() if n.degree() == 2 and n.anchor().clone().nextSigma().edgeLabel() != n.anchor().edgeLabel()]
            if not n2:
                continue
            d = r.pick(n2).anchor()
            if r.chance(.5):
                d.nextSigma()
            m.mergeEdges(d)
        yield k


def caseEdgeCosts(r):
    m = makeMap(r)
    for l in edgeLabels(m):
        if r.chance(.15):
            m.edge(l).setFlag(BORDER)
    ls = edgeLabels(m)
    init = dict((l, r.uni(1, 9)) for l in ls)
    length = dict((l, m.edge(l).length()) for l in ls)
    border = set(l for l in ls if m.edge(l).flags() & BORDER)
    comb = r.chance(.7)
    skip = r.chance(.5)
    kind = r.below(3)
    given = [None] * m.maxEdgeLabel()
    for l in ls:
        given[l] = init[l]
    keep = list(given)
    kw = dict(combiner=statistics.mergedEdgeCostWeightedByLength) if comb else {}
    if kind == 0:
        st = statistics.StaticEdgeCosts(m, costs=given, **kw)
        skipped = set()
    else:
        st = statistics.StaticEdgeCosts(m, lambda d: init[d.edgeLabel()], skipBorder=skip, **kw)
        skipped = border if skip else set()
    note('StaticEdgeCosts: %d edges, combiner %s, without cost %s' % (len(ls), comb, sorted(skipped)))
    me = statistics.MergedEdges(m)
    t = Edges(m)
    ref = Refuser(r, m)
    for k in reduceMap(r, m, r.range(1, 25)):
        for l in edgeLabels(m):
            parts = t.parts[l]
            if parts & skipped:
                check(len(parts) == 1, 'edge-costs-merged', 'edge without cost was merged: %s' % sorted(parts))
                want = None
            else:
                want = sum(init[p] * length[p] for p in parts) / sum(length[p] for p in parts)
            got = st(m.dart(l * r.pick([1, -1])))
            check((got is None) == (want is None) and (got is None or abs(got - want) < 1e-7), 'edge-costs', 'edge %d of %s costs %s instead of %s' % (l, sorted(parts), got, want))
            check(comb or len(parts) == 1, 'edge-costs-merged', 'edges were merged although there is no combiner')
            check(sorted(me[l]) == sorted(parts) == sorted(me[m.edge(l)]), 'merged-edges', 'edge %d consists of %s instead of %s' % (l, sorted(me[l]), sorted(parts)))
        check(sorted(me.level0Labels()) == sorted(p for l in edgeLabels(m) for p in t.parts[l]), 'level0', 'level0Labels()')
        stats.count('edges_checked', m.edgeCount)
    ref.detach()
    check(given == keep, 'edge-costs-argument', 'the given costs were changed')
    if r.chance(.4):
        pm, ps = pickle.loads(pickle.dumps((m, st), 2))
        check(all(ps(pm.dart(l)) == st(m.dart(l)) for l in edgeLabels(m)), 'edge-costs-pickle', 'unpickled costs')
        # it follows the merges of its own map and leaves the original alone
        old = dict((l, st(m.dart(l))) for l in edgeLabels(m))
        t2 = Edges(pm)
        for x in reduceMap(r, pm, r.range(1, 4)):
            for l in edgeLabels(pm):
                p2 = [p for q in t2.parts[l] for p in t.parts[q]]
                check(comb or len(t2.parts[l]) == 1, 'edge-costs-pickle', 'edges were merged although there is no combiner')
                want = None if set(p2) & skipped else sum(init[p] * length[p] for p in p2) / sum(length[p] for p in p2)
                got = ps(pm.dart(l))
                check((got is None) == (want is None) and (got is None or abs(got - want) < 1e-7), 'edge-costs-pickle', 'edge %d of %s costs %s instead of %s' % (l, sorted(p2), got, want))
        check(old == dict((l, st(m.dart(l))) for l in edgeLabels(m)), 'edge-costs-pickle', 'original costs were changed')
        stats.count('pickled_statistics')
        t2.detach()
    st.detachHooks()
    me.detachHooks()
    if not comb:
        n2 = [n for n in m.nodeIter() if n.degree() == 2 and n.anchor().clone().nextSigma().edgeLabel() != n.anchor().edgeLabel()]
        if n2:
            check(m.mergeEdges(n2[0].anchor()) is not None, 'detached', 'detached costs still block')
    stats.count('edge_merges', t.merges)
    stats.state('costs', tuple(edgeLabels(m)), t.merges, m.faceCount, m.nodeCount)
    t.detach()


class Siv(object):
    """stands for a spline image: a smooth function of the position"""

    def __init__(self, r):
        self.a = [r.uni(.2, 1.5) for i in range(4)]
        self.floor = False

    def __getitem__(self, p):
        a = self.a
        if self.floor:
            # flat valleys of height zero
            return max(0., 3 * math.sin(a[0] * p[0] + a[1] * p[1]) + 2 * math.cos(a[2] * p[1] - a[3] * p[0]))
        return 10 + 3 * math.sin(a[0] * p[0] + a[1] * p[1]) + 2 * math.cos(a[2] * p[1] - a[3] * p[0])


def caseWatersheds(r):
    """WatershedStatistics and WatershedBasinStatistics"""
    late = r.chance(.25)
    m = makeMap(r, midpoints=True, ops=0)
    if late:
        # border edges that are added to the graph after the statistics
        ls = edgeLabels(m)
        if len(ls) < 2:
            return
        old = m
        m = GeoMap(Size2D(old.imageSize().x, old.imageSize().y))
        ns = dict((n.label(), m.addNode(pt(n.position()))) for n in old.nodeIter())
        cut = r.range(1, len(ls) - 1)
        for l in ls[:cut]:
            e = old.edge(l)
            m.addEdge(ns[e.startNodeLabel()], ns[e.endNodeLabel()], pts(e))
        rest = [(old.edge(l).startNodeLabel(), old.edge(l).endNodeLabel(), pts(old.edge(l))) for l in ls[cut:]]
    elif not m.edgeCount:
        return
    siv = Siv(r)
    if r.chance(.35):
        siv.floor = True
        stats.count('flat_valleys')
    flow = [None] * m.maxEdgeLabel()
    saddle = {}
    for e in m.edgeIter():
        if not late and r.chance(.15):
            e.setFlag(BORDER)
            saddle[e.label()] = []
            continue
        i = r.range(1, len(e) - 2)
        q, a, j = pts(e), e.startNodeLabel() + 1, i
        if len(q) > 3 and r.chance(.3):
            # the flow line did not reach its maximum and was connected with it
            q, a, j = q[1:], -1, i - 1
            stats.count('connected_flowlines')
        flow[e.label()] = (a, e.endNodeLabel() + 1, Polygon(q), j, e.label())
        saddle[e.label()] = [pt(e[i])]
    st = statistics.WatershedStatistics(m, flow, siv)
    if late:
        for a, b, p in rest:
            e = m.addEdge(ns[a], ns[b], p)
            e.setFlag(BORDER)
            saddle[e.label()] = []
        st.nonWatershedEdgesAdded()
        m.sortEdgesDirectly()
        m.initializeMap()
        stats.count('edges_added_later', len(rest))
    border = set(l for l in edgeLabels(m) if m.edge(l).flags() & BORDER)
    note('WatershedStatistics: %d edges, %d of them border' % (m.edgeCount, len(border)))
    pv = dict((l, min(siv[p] for p in saddle[l]) if l not in border else None) for l in edgeLabels(m))

    # basins
    bs, depth = None, {}
    fs = [f for f in faceLabels(m) if f]
    minima = []
    for f in fs:
        for k in range(r.range(1, 2)):
            p = maputils.pointInFace(m.face(f))
            if m.faceAt(p).label() != f:         # a pixel on the boundary
                fs = None
                break
            minima.append(p)
            depth[f] = siv[p]
        if not fs:
            break
    if fs:
        extra = [(r.uni(0, m.imageSize().x - 1), r.uni(0, m.imageSize().y - 1)) for k in range(r.below(6))]
        for p in extra:
            f = m.faceAt(p).label()
            if f:
                depth[f] = min(depth[f], siv[p])
        minima += extra
        r.shuffle(minima)
        without = r.chance(.3)
        if without:
            gone = r.pick(fs)
            minima = [p for p in minima if m.faceAt(p).label() != gone]
        with quiet():
            bs = statistics.WatershedBasinStatistics(m, minima, siv)
        if without:
            # the depth is sampled in the face
            d = bs._basinDepth[gone]
            check(d is not None and (0 if siv.floor else 5) <= d <= 15, 'basin-depth', 'face %d without minimum: %s' % (gone, d))
            depth[gone] = d
            stats.count('basins_without_minimum')
        st.setBasins(bs)
    cur = {}

    def pre(d):
        cur['e'] = d.edgeLabel(), d.clone().nextSigma().edgeLabel()
        return True

    def post(e):
        a, b = cur['e']
        check((a in border) == (b in border), 'watershed-border', 'watershed was merged with the border')
        s = saddle.pop(a) + saddle.pop(b)
        saddle[e.label()] = [p for i, p in enumerate(s) if p not in s[:i]]
        pa, pb = pv.pop(a), pv.pop(b)
        pv[e.label()] = min(pa, pb) if pa is not None else None
        stats.count('edge_merges')

    def preF(d):
        cur['f'] = d.leftFaceLabel(), d.rightFaceLabel()
        return True

    def postF(f):
        if fs:
            depth[f.label()] = min(depth.pop(x) for x in cur['f'])
    cb = [m.addMergeEdgesCallbacks(pre, post), m.addMergeFacesCallbacks(preF, postF)]
    ref = Refuser(r, m)

    def verify():
        for l in edgeLabels(m):
            e = m.edge(l)
            got = [pt(p) for p in st.edgeSaddles(e)]
            check(set(got) == set(saddle[l]), 'saddles', lambda: 'edge %d has saddles %s instead of %s' % (l, got, saddle[l]))
            check(got == [pt(p) for p in st.edgeSaddles(l)], 'saddles', 'edgeSaddles() by label')
            i = st.edgeIndices(e)
            check([pt(e[k]) for k in i] == got, 'saddle-indices', 'edge %d: %s' % (l, i))
            d = m.dart(-l)
            check(set(pt(d[k]) for k in st.dartIndices(d)) == set(got) and st.dartIndices(m.dart(l)) == i, 'saddle-indices', 'dart %d' % -l)
            g = st.dartPassValue(m.dart(l))
            check((g is None) == (pv[l] is None) and (g is None or abs(g - pv[l]) < 1e-9), 'pass-value', 'edge %d: %s instead of %s' % (l, g, pv[l]))
            if pv[l] is not None and not e.isBridge():
                cm = [k for k in edgeLabels(m) if set((m.edge(k).leftFaceLabel(), m.edge(k).rightFaceLabel())) == set((e.leftFaceLabel(), e.rightFaceLabel()))]
                if not any(k in border for k in cm):
                    check(abs(st.passValue(m.dart(l)) - min(pv[k] for k in cm)) < 1e-9, 'pass-value-common', 'edge %d' % l)
                if bs is not None and e.leftFaceLabel() and e.rightFaceLabel():
                    w = pv[l] - min(depth[e.leftFaceLabel()], depth[e.rightFaceLabel()])
                    check(abs(st.dynamics(e) - w) < 1e-9 and abs(st.dynamics(m.dart(-l)) - w) < 1e-9, 'dynamics', 'edge %d: %s instead of %s' % (l, st.dynamics(e), w))
                    stats.count('dynamics')
        if bs is not None:
            for f in faceLabels(m):
                if f:
                    check(abs(bs._basinDepth[f] - depth[f]) < 1e-9, 'basin-depth', 'face %d: %s instead of %s' % (f, bs._basinDepth[f], depth[f]))
        stats.count('edges_checked', m.edgeCount)
    verify()
    for k in range(r.range(1, 6)):
        for x in reduceMap(r, m, r.range(1, 4), infinite=not fs):
            verify()
        if r.chance(.6):
            cand = [l for l in edgeLabels(m) if l not in border and len(m.edge(l)) > 2]
            if cand:
                l = r.pick(cand)
                e = m.edge(l)
                p = pts(e)
                i = r.range(1, len(p) - 2)
                if r.chance(.5):
                    note('splitEdge(%d, %d)' % (l, i))
                    n = m.splitEdge(e, i)
                    parts = p[:i + 1], p[i:]
                else:
                    i = r.range(0, len(p) - 2)
                    q = ((p[i][0] + p[i + 1][0]) / 2, (p[i][1] + p[i + 1][1]) / 2)
                    note('splitEdge(%d, %d, %s)' % (l, i, q))
                    n = m.splitEdge(e, i, q)
                    parts = p[:i + 1] + [q], [q] + p[i + 1:]
                s = saddle[l]
                for lab, pp in zip((l, n.label()), parts):
                    check(pts(m.edge(lab)) == pp, 'split-geometry', 'edge %d' % lab)
                    saddle[lab] = [x for x in s if x in pp]
                    pv[lab] = min(siv[x] for x in (saddle[lab] or [pp[0], pp[-1]]))
                stats.count('splits')
                verify()
    ref.detach()
    if r.chance(.4):
        pm, ps = pickle.loads(pickle.dumps((m, st), 2))
        check(all(set(pt(p) for p in ps.edgeSaddles(l)) == set(saddle[l]) and ps.dartPassValue(pm.dart(l)) == st.dartPassValue(m.dart(l)) for l in edgeLabels(m)), 'watershed-pickle', 'unpickled statistics')
        stats.count('pickled_statistics')
    st.detachHooks()
    if bs is not None:
        bs.detachHooks()
    stats.count('watersheds')
    stats.state('ws', tuple(edgeLabels(m)), m.faceCount, m.nodeCount, tuple(len(saddle[l]) for l in edgeLabels(m)))
    for c in cb:
        c.disconnect()


def caseGradients(r):
    m = makeMap(r, ops=4)
    if not m.edgeCount:
        return
    rng = numpy.random.RandomState(r.below(2 ** 31))
    size = m.imageSize()
    img = vigra.ScalarImage((size.x, size.y))
    img[...] = rng.rand(*img.shape).astype(numpy.float32) * 100
    siv = vigra.sampling.SplineImageView5(img)
    quant = r.chance(.5)
    F = geomap.QuantileStatistics if quant else geomap.PolylineStatistics
    resample = r.pick([0, 0, .1, .5])
    tang = r.chance(.3)
    if tang:
        gx, gy = Siv(r), Siv(r)

        class Gradient(object):
            def __getitem__(self, p):
                return numpy.array([gx[p] - 10, gy[p] - 10])
        tangents = [None] * m.maxEdgeLabel()
        for l in edgeLabels(m):
            tangents[l] = sorted((r.uni(0, m.edge(l).length()), r.uni(-4, 4)) for k in range(r.range(1, 5)))
        with quiet():
            st = statistics.EdgeGradientStatistics(m, Gradient(), resample=resample, tangents=tangents, Functor=F)
        stats.count('gradients_along_tangents')
    else:
        st = statistics.EdgeGradientStatistics(m, siv, resample=resample, Functor=F)
    check(bool(st.supportsQuantile()) == quant, 'supports-quantile', 'supportsQuantile()')
    # segments of the polylines: the value in the middle, weighted by length
    base = {}
    for l in edgeLabels(m):
        if tang:
            p, base[l] = pts(m.edge(l)), []
            for al, th in tangents[l]:
                x = direction(p, al)
                x = x[1] if x else p[-1]
                base[l].append((1.0, -(gx[x] - 10) * math.sin(th) + (gy[x] - 10) * math.cos(th)))
            continue
        p = pts(geomap.resamplePolygon(m.edge(l), resample)) if resample else pts(m.edge(l))
        base[l] = [(math.hypot(b[0] - a[0], b[1] - a[1]), siv[((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)]) for a, b in zip(p, p[1:])]
    t = Edges(m)
    note('EdgeGradientStatistics: %d edges, %s, resample %s' % (m.edgeCount, F.__name__, resample))

    def expect(labels):
        segs = [s for l in labels for s in base[l]]
        w = sum(s[0] for s in segs)
        return sum(s[0] * s[1] for s in segs) / w, min(s[1] for s in segs), max(s[1] for s in segs)

    def quantiles(labels, q):
        """the values that are the q-quantile up to rounding"""
        segs = sorted((s[1], s[0]) for l in labels for s in base[l])
        w = sum(s[1] for s in segs)
        x, r = 0, []
        for v, n in segs:
            if x - 1e-6 * w <= q * w <= x + n + 1e-6 * w:
                r.append(v)
            x += n
        return r

    def near(a, b):
        return abs(a - b) < 1e-5 * (1 + abs(b))

    def verify():
        for l in edgeLabels(m):
            avg, lo, hi = expect(t.parts[l])
            d = m.dart(l * r.pick([1, -1]))
            check(near(st.dartAverage(d), avg) and near(st[l].average(), avg), 'gradient-average', 'edge %d of %s: %s instead of %s' % (l, sorted(t.parts[l]), st.dartAverage(d), avg))
            check(near(st.dartMin(d), lo) and near(st.dartMax(d), hi) and near(st[l].min(), lo) and near(st[l].max(), hi), 'gradient-range', 'edge %d: %s to %s instead of %s to %s' % (l, st.dartMin(d), st.dartMax(d), lo, hi))
            if quant:
                q = r.uni(.02, .98)
                x, w = st.dartQuantile(q)(d), quantiles(t.parts[l], q)
                check(any(near(x, y) for y in w), 'gradient-quantile', 'edge %d, quantile %s: %s instead of %s' % (l, q, x, w))
                stats.count('quantiles')
            if m.edge(l).isBridge():
                continue
            e = m.edge(l)
            cm = [k for k in edgeLabels(m) if set((m.edge(k).leftFaceLabel(), m.edge(k).rightFaceLabel())) == set((e.leftFaceLabel(), e.rightFaceLabel()))]
            avg, lo, hi = expect([p for k in cm for p in t.parts[k]])
            check(near(st.average(d), avg), 'gradient-common', 'common boundary %s: %s instead of %s' % (cm, st.average(d), avg))
            check(near(st.min(d), lo) and near(st.max(d), hi), 'gradient-common', 'range of the common boundary %s' % cm)
            if quant:
                x, w = st.quantile(q)(d), quantiles([p for k in cm for p in t.parts[k]], q)
                check(any(near(x, y) for y in w), 'gradient-quantile', 'common boundary %s, quantile %s: %s instead of %s' % (cm, q, x, w))
        stats.count('edges_checked', m.edgeCount)
    verify()
    ref = Refuser(r, m)
    for k in reduceMap(r, m, r.range(2, 16)):
        verify()
        if r.chance(.1):
            f = pickle.loads(pickle.dumps([st[l] for l in edgeLabels(m)], 2))
            check(all(near(a.average(), st[l].average()) and a.min() == st[l].min() and a.max() == st[l].max() and (not quant or a.quantile(.3) == st[l].quantile(.3)) for a, l in zip(f, edgeLabels(m))), 'gradient-pickle', 'unpickled functors')
            stats.count('pickled_statistics')
    ref.detach()
    if r.chance(.4):
        pm, ps = pickle.loads(pickle.dumps((m, st), 2))
        old = dict((l, st[l].average()) for l in edgeLabels(m))
        t2 = Edges(pm)

        def equal():
            for l in edgeLabels(pm):
                avg, lo, hi = expect([p for q in t2.parts[l] for p in t.parts[q]])
                d = pm.dart(l)
                check(near(ps.dartAverage(d), avg) and near(ps.dartMin(d), lo) and near(ps.dartMax(d), hi), 'gradient-pickle', 'edge %d of the unpickled map' % l)
        equal()
        for x in reduceMap(r, pm, r.range(1, 5)):
            equal()
        check(old == dict((l, st[l].average()) for l in edgeLabels(m)), 'gradient-pickle', 'the original was changed')
        t2.detach()
    st.detachHooks()
    stats.count('gradients')
    stats.count('edge_merges', t.merges)
    stats.state('gr', tuple(edgeLabels(m)), m.faceCount, t.merges)
    t.detach()


def direction(p, al):
    """direction and position of a polyline at an arc length"""
    for a, b in zip(p, p[1:]):
        s = math.hypot(b[0] - a[0], b[1] - a[1])
        if al <= s:
            return math.atan2(b[1] - a[1], b[0] - a[0]), (a[0] + (b[0] - a[0]) * al / s, a[1] + (b[1] - a[1]) * al / s)
        al -= s
    return None


def caseTangents(r):
    m = makeMap(r, ops=4)
    if not m.edgeCount:
        return
    tang = [None] * m.maxEdgeLabel()
    where = {}
    for l in edgeLabels(m):
        p = pts(m.edge(l))
        tang[l], al = [], 0
        where[l] = set()
        for a, b in zip(p, p[1:]):
            s = math.hypot(b[0] - a[0], b[1] - a[1])
            for f in sorted(r.uni(.1, .9) for k in range(r.range(0, 2))):
                th = math.atan2(b[1] - a[1], b[0] - a[0])
                tang[l].append((al + f * s, th))
            al += s
        if not tang[l]:
            d = direction(p, al * .37)
            tang[l] = [(al * .37, d[0])]
    st = statistics.EdgeTangents(m, list(tang))
    t = Edges(m)
    note('EdgeTangents: %d edges' % m.edgeCount)
    ref = Refuser(r, m)
    for k in reduceMap(r, m, r.range(2, 20)):
        for l in edgeLabels(m):
            p = pts(m.edge(l))
            g = [tuple(x) for x in st[l]]
            check(len(g) == sum(len(tang[x]) for x in t.parts[l]), 'tangents-count', 'edge %d of %s has %d tangents' % (l, sorted(t.parts[l]), len(g)))
            check(g == sorted(g, key=lambda x: x[0]), 'tangents-order', 'edge %d: %s' % (l, g))
            for al, th in g:
                d = direction(p, al)
                check(d is not None and al >= 0, 'tangents-range', 'edge %d: arc length %s' % (l, al))
                diff = (d[0] - th) / (2 * math.pi)
                check(abs(diff - round(diff)) < 1e-6, 'tangents-direction', 'edge %d: direction %s at arc length %s instead of %s' % (l, th, al, d[0]))
            dt = st.dartTangents(m.dart(-l))
            check(dt[0] == st[l] and abs(dt[1] + m.edge(l).length()) < 1e-9 and abs(st.dartTangents(m.dart(l))[1] - m.edge(l).length()) < 1e-9, 'dart-tangents', 'dart %d' % -l)
        # tangents along a path
        d = m.dart(r.pick(edgeLabels(m)) * r.pick([1, -1])) if m.edgeCount else None
        if d is not None:
            path = dartpath.contour(d)
            pt_ = [tuple(x) for x in path.tangents(st.dartTangents)]
            pp = pts(path.points())
            check(len(pt_) == sum(len(st[x.edgeLabel()]) for x in path) and pt_ == sorted(pt_, key=lambda x: x[0]), 'path-tangents', 'number or order of the tangents')
            for al, th in pt_:
                dd = direction(pp, al)
                diff = ((dd[0] if dd else 9) - th) / (2 * math.pi)
                check(dd is not None and abs(diff - round(diff)) < 1e-6, 'path-tangents', 'direction %s at arc length %s instead of %s' % (th, al, dd and dd[0]))
        stats.count('edges_checked', m.edgeCount)
    st.detachHooks()
    stats.count('tangents')
    stats.count('edge_merges', t.merges)
    stats.state('tg', tuple(edgeLabels(m)), m.faceCount, t.merges)
    t.detach()


def caseMeasures(r):
    """shape measures, hyperbolic inverse, combined measures, percent point function"""
    m = makeMap(r)
    for l in edgeLabels(m):
        e = m.edge(l)
        if e.isBridge() or not e.leftFaceLabel() or not e.rightFaceLabel():
            continue
        d = m.dart(l)
        a, b = e.leftFaceLabel(), e.rightFaceLabel()
        L = dict((k, 0.) for k in 'lcr')
        for x in d.clone().phiOrbit():
            L['c' if x.rightFaceLabel() == b else 'l'] += x.edge().length()
        for x in d.clone().nextAlpha().phiOrbit():
            if x.rightFaceLabel() != a:
                L['r'] += x.edge().length()
        A, B = m.face(a).area(), m.face(b).area()
        if A <= 1e-9 or B <= 1e-9 or A + B <= 1e-9:
            continue
        tot = L['l'] + L['r']

        def near(x, y):
            return abs(x - y) <= 1e-9 * (1 + abs(y))
        check(near(statistics.mergedContourLength(d), tot), 'merged-length', 'dart %d' % l)
        check(near(statistics.mergedIsoperimetricQuotient(d), tot * tot / (4 * math.pi * (A + B))), 'ipq', 'dart %d' % l)
        w = (tot * tot / (A + B)) / ((L['l'] + L['c']) ** 2 / A + (L['r'] + L['c']) ** 2 / B)
        check(near(statistics.mergedIsoperimetricQuotient2(d), w), 'ipq2', 'dart %d: %s instead of %s' % (l, statistics.mergedIsoperimetricQuotient2(d), w))
        seed = r.chance(.5)
        m.face(a).setFlag(flag_constants.SRG_SEED, seed)
        w = (tot * tot / (A + B)) / ((L['l'] + L['c']) ** 2 / A if seed else (L['r'] + L['c']) ** 2 / B)
        check(near(statistics.seedIsoperimetricQuotient(d), w), 'seed-ipq', 'dart %d' % l)
        check(near(statistics.faceAreaHomogeneity(d), A * B / (A + B)), 'area-homogeneity', 'dart %d' % l)
        f = lambda x: x.edgeLabel() * .5
        check(near(statistics.HyperbolicInverse(f)(d), e.length() / (1e-4 + l * .5)), 'hyperbolic', 'dart %d' % l)
        check(near(statistics.combinedMeasure((.5, f), (2, lambda x: 3.))(d), .25 * l + 6), 'combined', 'dart %d' % l)
        stats.count('measures')
    # the distribution of a piecewise linear function
    n = r.range(2, 6)
    al, v = [0], [float(r.range(0, 6))]
    for k in range(n):
        al.append(al[-1] + r.uni(.2, 2))
        x = v[-1]
        while abs(x - v[-1]) < .3:
            x = r.pick([float(r.range(0, 6)), r.uni(0, 6)])
        v.append(x)
    note('PercentPointFunction of %s' % list(zip(al, v)))
    ppf = statistics.PercentPointFunction(list(zip(al, v)))

    def below(x):
        """length on which the function is at most x"""
        res = 0.
        for i in range(n):
            lo, hi = min(v[i], v[i + 1]), max(v[i], v[i + 1])
            res += (al[i + 1] - al[i]) * min(1, max(0, (x - lo) / (hi - lo)))
        return res / al[-1]
    check(abs(ppf.valueScale - al[-1]) < 1e-9 and ppf[0][0] == 0 and abs(ppf[-1][0] - 1) < 1e-9, 'ppf-range', str(list(ppf)))
    check(all(a[0] <= b[0] + 1e-12 and a[1] <= b[1] + 1e-12 for a, b in zip(ppf, ppf[1:])), 'ppf-monotone', str(list(ppf)))
    for p, x in ppf:
        check(abs(below(x) - p) < 1e-6, 'ppf', lambda: 'share %s below %s instead of %s, function %s' % (p, x, below(x), list(zip(al, v))))
    for k in range(4):
        q = r.uni(.01, .99)
        x = ppf.quantile(q)
        check(x is not None and abs(below(x) - q) < 1e-6, 'ppf-quantile', lambda: 'quantile %s is %s (share below: %s), function %s' % (q, x, below(x), list(zip(al, v))))
    check(ppf.cdf() == [(b, a) for a, b in ppf], 'ppf-cdf', 'cdf()')
    pdf = ppf.pdf()
    st = pdf.steps()
    area = sum((b[0] - a[0]) * (a[1] + b[1]) / 2 for a, b in zip(st, st[1:]))
    check(abs(area - 1) < 1e-6, 'pdf', 'density integrates to %s' % area)
    x = r.uni(min(v) + .01, max(v) - .01)
    if min(abs(x - y) for y in v) > .02:
        check(abs(pdf(x) - (below(x + .005) - below(x - .005)) / .01) < 1e-4, 'pdf-value', 'density at %s' % x)
    stats.count('distributions')
    stats.state('me', tuple(edgeLabels(m)), tuple(v))


def c29(r, i):
    r.pick([caseEdgeCosts, caseEdgeCosts, caseWatersheds, caseWatersheds, caseWatersheds, caseGradients, caseTangents, caseMeasures])(r)


PROPS = {'C27': c27, 'C28': c28, 'C29': c29}

if __name__ == '__main__':
    pyvf.main(PROPS)
