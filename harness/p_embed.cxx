// C10: building maps from graphs: dart order, embedding, merging of parallel edges
#include "hist.hxx"
using namespace vf;

static uint64_t specHash(const MapSpec &s)
{
    uint64_t h = 7;
    for(auto &n : s.nodes) h = mixd(mixd(h, n.first), n.second);
    for(auto &e : s.edges) h = mix(mix(h, e.s), e.e);
    return h;
}

static void transformSpec(MapSpec &s, double f, double ox, double oy)
{
    for(auto &n : s.nodes) n = P2(n.first * f + ox, n.second * f + oy);
    for(auto &e : s.edges)
    {
        for(auto &p : e.p) p = P2(p.first * f + ox, p.second * f + oy);
        e.p.front() = s.nodes[e.s]; e.p.back() = s.nodes[e.e];
    }
}

// map described in terms of the spec, independent of labels
struct Shape
{
    std::map<int, int> sigma;                    // spec darts (edge index + 1, signed)
    std::set<std::set<int> > faces;              // darts per face
    std::map<std::set<int>, std::set<std::set<int> > > contours;
};
static Shape shapeOf(const BuiltMap &b, const Snap &s)
{
    std::map<int, int> back; // dart label -> spec dart
    for(size_t i = 0; i < b.edgeDart.size(); ++i)
        if(s.edges.count(std::abs(b.edgeDart[i]))) { back[b.edgeDart[i]] = i + 1; back[-b.edgeDart[i]] = -(int)(i + 1); }
    Shape r;
    for(auto &x : s.sigma) r.sigma[back.at(x.first)] = back.at(x.second);
    for(auto &f : s.faces)
    {
        std::set<int> all; std::set<std::set<int> > cs;
        for(auto &c : f.second.contours) { std::set<int> o; for(int d : c) { o.insert(back.at(d)); all.insert(back.at(d)); } cs.insert(o); }
        r.faces.insert(all);
        r.contours[all] = cs;
    }
    return r;
}

static void caseBuild(Rng &r)
{
    MapSpec spec = genSpec(r);
    int ss = r.below(4);
    double f = 1;
    if(ss == 1) f = std::pow(10.0, r.uni(-2, 0));
    else if(ss == 2) f = std::pow(10.0, r.uni(0, 2));
    if(f != 1) { spec.snapped = false; transformSpec(spec, f, r.chance(0.5) ? 0 : r.uni(-20, 20), r.chance(0.5) ? 0 : r.uni(-20, 20)); stats().count(f < 1 ? "scaled_down" : "scaled_up"); }
    note(VF_STR(describeSpec(spec) << " scale " << f));
    double minSeg = 2 * MapSpec::EPS * f;
    // edges to be removed again before the map is initialised
    std::vector<char> drop(spec.edges.size(), 0);
    if(r.chance(0.3)) for(auto &d : drop) d = r.chance(0.25);
    Shape first; bool have = false;
    GeoMap::SigmaMapping sm;
    for(int round = 0; round < 3; ++round)
    {
        bool li = f == 1 && r.chance(0.4);
        BuiltMap b = buildGraph(r, spec, r.chance(0.3));
        GeoMap &m = *b.map;
        bool early = r.chance(0.5);
        int how = r.below(3);
        auto sort = [&]
        {
            if(how == 1) m.sortEdgesDirectly();
            else if(how == 2)
            {
                GeoMap::UnsortableGroups ug;
                double step = minSeg * r.uni(0.2, 0.9);
                m.sortEdgesEventually(step, step * r.uni(0.01, 0.12), ug, false);
                CHECK(ug.empty(), "sortable-reported-unsortable", "sortEdgesEventually() reports " << ug.size() << " unsortable groups although all darts leave at different angles");
                stats().count("sorted_eventually");
            }
        };
        bool dropped = false;
        if(early) sort();
        for(size_t i = 0; i < drop.size(); ++i) if(drop[i]) { m.removeEdge(m.dart(b.edgeDart[i] * (r.chance(0.5) ? 1 : -1))); dropped = true; stats().count("graph_edges_removed"); }
        if(!early) sort();
        Snap g = takeSnap(m);
        size_t expectE = spec.edges.size() - std::count(drop.begin(), drop.end(), 1);
        CHECK(g.edges.size() == expectE && m.edgeCount() == expectE, "graph-edges", "graph has " << m.edgeCount() << " edges, expected " << expectE);
        CHECK(g.nodes.size() == spec.nodes.size(), "graph-nodes", "graph has " << g.nodes.size() << " nodes");
        CHECK(!m.mapInitialized() && g.faces.empty(), "graph-has-faces", "graph already has faces");
        verifyGraph(m, g, how != 0);
        m.initializeMap(li);
        CHECK(m.mapInitialized() && m.hasLabelImage() == li, "map-initialised", "state after initializeMap()");
        Snap s = takeSnap(m);
        verifyGraph(m, s, true); verifyFaces(m, s, true); verifyCaches(m, s); if(li) verifyLabelImage(m, s);
        CHECK(m.checkConsistency(), "checkConsistency", "checkConsistency() fails after initializeMap()");
        for(auto &e : s.edges) CHECK(!e.second.flags, "fresh-flags", "new edge " << e.first << " has flags " << e.second.flags);
        for(auto &f : s.faces) CHECK(!f.second.flags && (li || !m.face(f.first)->pixelArea()), "fresh-flags", "new face " << f.first << " has flags " << f.second.flags);
        for(size_t i = 0; i < spec.edges.size(); ++i)
            if(!drop[i])
                CHECK(s.dartPoly(b.edgeDart[i]) == spec.edges[i].p, "edge-geometry", "edge " << b.edgeDart[i] << " does not have the geometry it was added with");
        // second initialisation is refused
        bool threw = false;
        try { m.initializeMap(false); } catch(std::exception &) { threw = true; }
        CHECK(threw, "initialised-twice", "initializeMap() accepted twice");
        threw = false;
        try { m.sortEdgesDirectly(); } catch(std::exception &) { threw = true; }
        CHECK(threw, "sorted-after-init", "sortEdgesDirectly() accepted after initializeMap()");
        Shape sh = shapeOf(b, s);
        if(have)
        {
            CHECK(sh.sigma == first.sigma, "order-dependent-sigma", "dart order around nodes depends on the order of construction");
            CHECK(sh.faces == first.faces && sh.contours == first.contours, "order-dependent-faces", "faces depend on the order of construction");
            stats().count("constructions_compared");
        }
        first = sh; have = true;
        // restoring the dart order in a fresh graph (as done by pickling)
        if(round == 0 && !dropped)
        {
            GeoMap m2(vigra::Size2D(spec.w, spec.h));
            for(auto &n : s.nodes) m2.addNode(toV(n.second), n.first);
            for(auto &e : s.edges)
                m2.addEdge(GeoMap::SigmaAnchor(*m2.node(e.second.s)), GeoMap::SigmaAnchor(*m2.node(e.second.e)), toArray(e.second.p), e.first);
            m2.setSigmaMapping(m.sigmaMapping(), true);
            CHECK(m2.edgesSorted(), "restored-unsorted", "edgesSorted() after setSigmaMapping()");
            m2.initializeMap(li);
            Snap s2 = takeSnap(m2);
            verifyGraph(m2, s2, true); verifyFaces(m2, s2, true);
            Snap n1(s);
            std::string d = snapDiff(n1, s2);
            CHECK(d.empty(), "sigma-mapping-restored", "map rebuilt with setSigmaMapping(sigmaMapping()) differs: " << d);
            stats().count("restored");
        }
        stats().state(mix(specHash(spec), round));
    }
    stats().sample(describeSpec(spec));
    // edges leaving at identical angles cannot be sorted directly
    if(!spec.edges.empty() && r.chance(0.3))
    {
        BuiltMap b = buildGraph(r, spec, false);
        const SpecEdge &e = spec.edges[r.below(spec.edges.size())];
        P2 a = e.p[0], c = e.p[1], far(c.first + f * 0.31, c.second - f * 0.27);
        GeoMap::NodePtr n = b.map->addNode(toV(far));
        Poly p; p.push_back(a); p.push_back(c); p.push_back(far);
        b.map->addEdge(GeoMap::SigmaAnchor(*b.map->node(b.nodeLabel[e.s])), GeoMap::SigmaAnchor(*n), toArray(p));
        bool threw = false;
        try { b.map->sortEdgesDirectly(); } catch(std::exception &) { threw = true; }
        CHECK(threw, "identical-angles", "sortEdgesDirectly() accepts two edges leaving a node in the same direction");
        stats().count("identical_angles");
    }
}

/* --- bundles of parallel edges ----------------------------------------*/

struct TreeNode
{
    P2 pos; std::vector<Poly> seg; // polyline from parent to child (without the parent's position)
    std::vector<int> child;
};
struct Bundle
{
    std::vector<TreeNode> n;
    std::vector<std::vector<int> > leaves; // path of tree nodes from the root, in counter-clockwise order
    double total;
    bool exact;   // first direction without variation
};

static void grow(Rng &r, Bundle &b, int node, double dir, int depth, std::vector<int> path, double spread)
{
    int k = node == 0 ? r.range(1, 4) : r.range(2, 3);
    if(depth == 0) k = 0;
    if(k == 0) { b.leaves.push_back(path); return; }
    for(int i = 0; i < k; ++i)
    {
        double a = node == 0 ? dir + 2 * M_PI * i / k + (b.exact && i == 0 ? 0.0 : r.uni(-0.15, 0.15)) : dir + spread * (k == 1 ? 0 : (i - (k - 1) / 2.0)) + r.uni(-0.05, 0.05);
        // directions are counter-clockwise on screen: y axis points down
        Poly p; P2 c = b.n[node].pos;
        int parts = r.range(1, 3);
        double len = r.uni(1.6, 2.4) * (depth > 1 ? 1.5 : 1.0);
        for(int j = 0; j < parts; ++j)
        {
            double aa = a + (j ? r.uni(-0.12, 0.12) : 0);
            c = P2(c.first + len / parts * std::cos(aa), c.second - len / parts * std::sin(aa));
            p.push_back(c);
        }
        for(size_t j = 0; j < p.size(); ++j)
            b.total += dist(j ? p[j-1] : b.n[node].pos, p[j]);
        TreeNode t; t.pos = c;
        int idx = b.n.size();
        b.n.push_back(t);
        b.n[node].child.push_back(idx); b.n[node].seg.push_back(p);
        std::vector<int> pp(path); pp.push_back(idx);
        grow(r, b, idx, a, node == 0 && r.chance(0.2) ? 0 : depth - 1, pp, spread * 0.75);
    }
}

static double hausdorff(const Poly &a, const Poly &b)
{
    double r = 0;
    for(size_t i = 1; i < a.size(); ++i)
        for(int k = 0; k <= 8; ++k)
            r = std::max(r, ptPolylineDist(P2(a[i-1].first + (a[i].first - a[i-1].first) * k / 8, a[i-1].second + (a[i].second - a[i-1].second) * k / 8), b));
    return r;
}

static void caseBundle(Rng &r)
{
    Bundle b; b.total = 0;
    TreeNode root; root.pos = P2(r.uni(10, 12), r.uni(10, 12));
    b.n.push_back(root);
    // (sometimes the common part runs along the cut of the angles)
    double dir = r.chance(0.4) ? M_PI : r.uni(0, 2 * M_PI);
    b.exact = dir == M_PI && r.chance(0.8);
    grow(r, b, 0, dir, r.range(2, 3), std::vector<int>(1, 0), r.uni(0.6, 0.8));
    double step = r.uni(0.08, 0.25);
    // edges which are very close but not equal
    double jitter = r.chance(0.4) ? step * r.uni(0.0005, 0.005) : 0;
    bool split = r.chance(0.6);
    GeoMap m(vigra::Size2D(24, 24));
    std::vector<int> order(b.leaves.size());
    for(size_t i = 0; i < order.size(); ++i) order[i] = i;
    r.shuffle(order);
    if(r.chance(0.3)) m.addNode(Vector2(1, 1));
    CellLabel center = m.addNode(toV(root.pos))->label();
    std::map<CellLabel, int> leafOf; std::vector<Poly> orig(b.leaves.size()); std::vector<int> dartOf(b.leaves.size()); std::vector<CellFlags> fl(b.leaves.size());
    for(int i : order)
    {
        Poly p(1, root.pos);
        for(size_t k = 1; k < b.leaves[i].size(); ++k)
        {
            TreeNode &par = b.n[b.leaves[i][k-1]];
            for(size_t c = 0; c < par.child.size(); ++c) if(par.child[c] == b.leaves[i][k]) p.insert(p.end(), par.seg[c].begin(), par.seg[c].end());
        }
        if(jitter > 0)
            for(size_t k = 1; k < p.size(); ++k) p[k] = P2(p[k].first + r.uni(-jitter, jitter), p[k].second + r.uni(-jitter, jitter));
        orig[i] = p;
        CellLabel leaf = m.addNode(toV(p.back()))->label();
        leafOf[leaf] = i;
        bool rev = r.chance(0.5);
        Poly q(p); if(rev) std::reverse(q.begin(), q.end());
        GeoMap::EdgePtr e = rev ? m.addEdge(GeoMap::SigmaAnchor(*m.node(leaf)), GeoMap::SigmaAnchor(*m.node(center)), toArray(q))
                                : m.addEdge(GeoMap::SigmaAnchor(*m.node(center)), GeoMap::SigmaAnchor(*m.node(leaf)), toArray(q));
        dartOf[i] = rev ? -(int)e->label() : (int)e->label();
        fl[i] = r.chance(0.4) ? (CellFlags)(1u << r.below(28)) : 0;
        e->setFlag(fl[i]);
        if(r.chance(0.3)) { e->length(); e->partialArea(); e->boundingBox(); }
    }
    note(VF_STR("bundle with " << b.leaves.size() << " edges, " << b.n.size() << " branching points, step " << step << (split ? ", split" : "")));
    GeoMap::UnsortableGroups ug;
    m.sortEdgesEventually(step, step * r.uni(0.05, 0.3), ug, split);
    CHECK(ug.empty(), "bundle-unsortable", "sortEdgesEventually() reports unsortable groups although all edges part");
    CHECK(m.edgesSorted(), "bundle-unsorted", "edgesSorted() after sortEdgesEventually()");
    {
        // cyclic order at the center
        std::vector<int> want, got;
        for(size_t i = 0; i < b.leaves.size(); ++i) want.push_back(dartOf[i]);
        GeoMap::Dart d(m.dart(dartOf[0]));
        do { got.push_back(d.label()); d.nextSigma(); CHECK(got.size() <= want.size(), "bundle-orbit", "sigma orbit too long"); } while(d.label() != dartOf[0]);
        CHECK(got == want, "bundle-order", "sortEdgesEventually() does not sort parallel darts in the order in which they part");
        stats().count("bundles_sorted");
        if(jitter > 0) stats().count("bundles_jittered");
    }
    if(split)
    {
        if(r.chance(0.3))
        {
            std::unique_ptr<GeoMap::EdgePreferences> pr(new GeoMap::EdgePreferences(m.maxEdgeLabel()));
            for(size_t i = 0; i < pr->size(); ++i) (*pr)[i] = r.uni(0, 1);
            m.setEdgePreferences(std::auto_ptr<GeoMap::EdgePreferences>(pr.release()));
        }
        m.splitParallelEdges();
        stats().count("bundles_split");
    }
    {
        Snap g = takeSnap(m);
        verifyGraph(m, g, false); verifyCaches(m, g);
    }
    bool li = r.chance(0.5);
    m.initializeMap(li);
    Snap s = takeSnap(m);
    verifyGraph(m, s, false); verifyFaces(m, s, true); verifyCaches(m, s);
    if(li) verifyLabelImage(m, s);
    CHECK(m.checkConsistency(), "checkConsistency", "checkConsistency() fails");
    CHECK(s.faces.size() == 1 && s.faces[0].contours.size() == 1, "bundle-faces", "a tree has " << s.faces.size() << " faces");
    // leaves in contour order
    std::vector<int> orbit = s.phiOrbit(s.faces[0].contours[0][0]);
    std::vector<int> seen;
    for(int d : orbit) { CellLabel e = s.startNode(d); if(leafOf.count(e)) seen.push_back(leafOf[e]); }
    CHECK(seen.size() == b.leaves.size(), "bundle-leaves", "contour visits " << seen.size() << " of " << b.leaves.size() << " end nodes");
    size_t at = std::find(seen.begin(), seen.end(), 0) - seen.begin();
    std::rotate(seen.begin(), seen.begin() + at, seen.end());
    // faces lie to the left: the contour of the tree visits its ends clockwise
    for(size_t i = 0; i < seen.size(); ++i)
        CHECK(seen[i] == (int)((seen.size() - i) % seen.size()), "bundle-contour-order", "contour around the edges visits their ends in the wrong order");
    // geometry and flags
    double total = 0;
    for(auto &e : s.edges) total += polyLength(e.second.p);
    std::map<CellLabel, CellFlags> want;
    size_t branchings = 0; for(auto &t : b.n) if(t.child.size() > 1) ++branchings;
    if(split)
    {
        CHECK(std::fabs(total - b.total) <= branchings * 8 * step + 0.02 * b.total, "bundle-length", "merged edges have total length " << total << ", the common curves have " << b.total);
        for(auto &x : leafOf)
        {
            // path from the leaf to the center
            Poly p; CellLabel n = x.first; int from = 0; size_t guard = 0;
            std::function<bool(CellLabel, int)> walk = [&](CellLabel node, int came) -> bool
            {
                if(node == center) { p.push_back(s.nodes.at(node)); return true; }
                if(++guard > 500) return false;
                for(auto &y : s.sigma)
                    if(s.startNode(y.first) == node && y.first != -came)
                        if(walk(s.startNode(-y.first), y.first))
                        {
                            Poly q = s.dartPoly(y.first); std::reverse(q.begin(), q.end());
                            p.insert(p.end(), q.begin() + 1, q.end());
                            want[std::abs(y.first)] |= fl[x.second];
                            return true;
                        }
                return false;
            };
            CHECK(walk(n, from), "bundle-path", "end node " << x.first << " is not connected with the centre any more");
            CHECK(hausdorff(p, orig[x.second]) < 3 * step && hausdorff(orig[x.second], p) < 3 * step, "bundle-curve", "curve to end node " << x.first << " moved by "
                  << std::max(hausdorff(p, orig[x.second]), hausdorff(orig[x.second], p)) << " (step " << step << ")");
        }
        for(auto &e : s.edges)
            CHECK(e.second.flags == want[e.first], "bundle-flags", "edge " << e.first << " has flags " << e.second.flags << ", the edges merged into it had " << want[e.first]);
    }
    else
        for(size_t i = 0; i < orig.size(); ++i) CHECK(s.dartPoly(dartOf[i]) == orig[i], "bundle-geometry", "geometry of edge changed by sorting");
    uint64_t h = 3; for(auto &t : b.n) h = mixd(h, t.pos.first);
    stats().state(mix(h, split));
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> p;
    p["C10"] = [](Rng &r, long long i) { if(i % 3 == 2) caseBundle(r); else caseBuild(r); };
    return runMain(argc, argv, p);
}
