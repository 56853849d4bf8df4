// Random histories of Euler operations on a GeoMap, with a transition
// oracle predicting the exact outcome of every single operation.
#ifndef VERIF_HIST_HXX
#define VERIF_HIST_HXX
#include "gm.hxx"

namespace vf {

enum OpKind { OP_MERGE_FACES, OP_REMOVE_BRIDGE, OP_MERGE_EDGES, OP_SPLIT_EDGE, OP_REMOVE_NODE, OP_REMOVE_EDGE, OP_ADD_NODE, OP_NKINDS };
static const char *opNames[] = { "mergeFaces", "removeBridge", "mergeEdges", "splitEdge", "removeIsolatedNode", "removeEdge", "addNode" };

struct Op
{
    OpKind kind; int dart; unsigned seg; bool insert; P2 pos; CellLabel label;
    Op() : kind(OP_NKINDS), dart(0), seg(0), insert(false), label(0) {}
    std::string str() const
    { return VF_STR(opNames[kind] << "(dart=" << dart << " label=" << label << " seg=" << seg << (insert ? " insert" : "") << " pos=" << pos.first << "," << pos.second << ")"); }
};

struct OpResult
{
    bool threw = false; std::string what;
    bool null = true; CellLabel label = 0; bool boolResult = false;
};

inline std::vector<int> dartList(const Snap &s)
{
    std::vector<int> r;
    for(auto &e : s.edges) { r.push_back(e.first); r.push_back(-(int)e.first); }
    return r;
}

// pick a valid operation; false if there is none of this kind
inline bool pickOp(Rng &r, const Snap &s, OpKind k, Op &op)
{
    op = Op(); op.kind = k;
    std::vector<int> c;
    switch(k)
    {
    case OP_MERGE_FACES:
        for(int d : dartList(s)) if(s.left(d) != s.left(-d)) c.push_back(d);
        if(c.empty()) return false;
        op.dart = r.pick(c); return true;
    case OP_REMOVE_BRIDGE:
        for(int d : dartList(s)) if(s.left(d) == s.left(-d)) c.push_back(d);
        if(c.empty()) return false;
        op.dart = r.pick(c); return true;
    case OP_REMOVE_EDGE:
        c = dartList(s);
        if(c.empty()) return false;
        op.dart = r.pick(c); return true;
    case OP_MERGE_EDGES:
        for(int d : dartList(s))
        {
            int n = s.sigma.at(d);
            if(n != d && s.sigma.at(n) == d && std::abs(n) != std::abs(d)) c.push_back(d);
        }
        if(c.empty()) return false;
        op.dart = r.pick(c); return true;
    case OP_SPLIT_EDGE:
    {
        if(s.edges.empty()) return false;
        auto it = s.edges.begin(); std::advance(it, r.below(s.edges.size()));
        const Poly &p = it->second.p;
        op.label = it->first;
        op.insert = p.size() == 2 || r.chance(0.5);
        if(op.insert)
        {
            op.seg = r.below(p.size() - 1);
            double t = r.chance(0.3) ? 0.5 : r.uni(0.15, 0.85);
            // edges on a binary grid may touch pixel facets exactly; split
            // them at exactly representable positions only
            auto onGrid = [](double v) { return v * 64 == std::floor(v * 64); };
            if(onGrid(p[op.seg].first) && onGrid(p[op.seg].second) && onGrid(p[op.seg + 1].first) && onGrid(p[op.seg + 1].second))
            {
                t = 0.5;
                if(!onGrid((p[op.seg].first + p[op.seg + 1].first) / 2) || !onGrid((p[op.seg].second + p[op.seg + 1].second) / 2)) return false;
            }
            op.pos = P2(p[op.seg].first + t * (p[op.seg + 1].first - p[op.seg].first), p[op.seg].second + t * (p[op.seg + 1].second - p[op.seg].second));
            if(op.pos == p[op.seg] || op.pos == p[op.seg + 1] || dist(p[op.seg], p[op.seg + 1]) < 1e-2) return false;
        }
        else
        {
            op.seg = r.range(1, p.size() - 2);
            op.pos = p[op.seg];
        }
        return true;
    }
    case OP_REMOVE_NODE:
    {
        std::set<CellLabel> used;
        for(auto &e : s.edges) { used.insert(e.second.s); used.insert(e.second.e); }
        for(auto &n : s.nodes) if(!used.count(n.first)) c.push_back(n.first);
        if(c.empty()) return false;
        op.label = r.pick(c); return true;
    }
    case OP_ADD_NODE:
    {
        for(int t = 0; t < 10; ++t)
        {
            P2 p(r.uni(-1, s.w), r.uni(-1, s.h));
            double d = 1e300;
            for(auto &n : s.nodes) d = std::min(d, dist(n.second, p));
            for(auto &e : s.edges) d = std::min(d, ptPolylineDist(p, e.second.p));
            if(d > 0.05) { op.pos = p; return true; }
        }
        return false;
    }
    default: return false;
    }
}

inline OpResult runOp(GeoMap &m, const Op &op)
{
    OpResult r;
    try
    {
        switch(op.kind)
        {
        case OP_MERGE_FACES: { GeoMap::FacePtr f = m.mergeFaces(m.dart(op.dart)); r.null = !f; if(f) r.label = f->label(); break; }
        case OP_REMOVE_BRIDGE: { GeoMap::FacePtr f = m.removeBridge(m.dart(op.dart)); r.null = !f; if(f) r.label = f->label(); break; }
        case OP_REMOVE_EDGE: { GeoMap::FacePtr f = m.removeEdge(m.dart(op.dart)); r.null = !f; if(f) r.label = f->label(); break; }
        case OP_MERGE_EDGES: { GeoMap::EdgePtr e = m.mergeEdges(m.dart(op.dart)); r.null = !e; if(e) r.label = e->label(); break; }
        case OP_SPLIT_EDGE:
        {
            GeoMap::EdgePtr ed = m.edge(op.label);
            GeoMap::EdgePtr e = op.insert ? m.splitEdge(*ed, op.seg, toV(op.pos)) : m.splitEdge(*ed, op.seg);
            r.null = !e; if(e) r.label = e->label(); break;
        }
        case OP_REMOVE_NODE: { GeoMap::NodePtr n = m.node(op.label); r.boolResult = m.removeIsolatedNode(*n); r.null = !r.boolResult; break; }
        case OP_ADD_NODE: { GeoMap::NodePtr n = m.addNode(toV(op.pos)); r.null = false; r.label = n->label(); break; }
        default: break;
        }
    }
    catch(Violation &) { throw; }
    catch(std::exception &e) { r.threw = true; r.what = e.what(); }
    return r;
}

inline void bypass(std::map<int, int> &sigma, int d)
{
    int pred = d;
    for(auto &x : sigma) if(x.second == d) { pred = x.first; break; }
    int succ = sigma[d];
    if(pred != d) sigma[pred] = succ;
    sigma.erase(d);
}

inline bool sameFace(const SFace &a, const SFace &b)
{
    if(a.flags != b.flags || a.pixelArea != b.pixelArea || a.contours.size() != b.contours.size()) return false;
    std::vector<std::vector<int> > c1(a.contours), c2(b.contours);
    std::sort(c1.begin(), c1.end()); std::sort(c2.begin(), c2.end());
    return c1 == c2;
}

inline std::vector<std::string> expectedEvents(const std::vector<std::string> &mandatory) { return mandatory; }

// Checks that the transition before -> after is exactly the effect 'op' is
// specified to have.  'ev' may be NULL (no hook monitor attached).
inline void checkTransition(const Snap &b, const Snap &a, const Op &op0, const OpResult &res, const HookMonitor *hm)
{
    Op op(op0);
    CHECK(!res.threw, "valid-op-threw", op.str() << " raised: " << res.what);
    if(op.kind == OP_REMOVE_EDGE)
        op.kind = b.left(op.dart) == b.left(-op.dart) ? OP_REMOVE_BRIDGE : OP_MERGE_FACES;
    std::vector<std::string> ev; // expected events
    std::map<CellLabel, P2> xn(b.nodes);
    std::map<int, int> xs(b.sigma);
    CellLabel xmaxN = b.maxN, xmaxE = b.maxE;
    std::set<CellLabel> touchedEdges, touchedFaces;
    std::map<CellLabel, CellLabel> faceMap; // label -> label
    CellLabel removedFace = 0; bool hasRemovedFace = false;
    const char *opn = opNames[op.kind];

    CHECK(!res.null, "op-returned-null", op.str() << " returned NULL/false although nothing objected");

    if(op.kind == OP_MERGE_FACES)
    {
        int d = op.dart;
        CellLabel L = b.left(d), R = b.left(-d);
        double al = b.faces.at(L).area, ar = b.faces.at(R).area;
        CellLabel surv;
        bool tie = false;
        if(L == 0) surv = L;
        else if(R == 0) surv = R;
        else { surv = al >= ar ? L : R; tie = std::fabs(al - ar) <= 1e-7 * (1 + std::fabs(al)); }
        if(tie && (res.label == L || res.label == R)) surv = res.label;
        CHECK(res.label == surv, "mergeFaces-survivor", op.str() << " faces " << L << " (area " << al << ") / " << R << " (area " << ar << "): returned face " << res.label << ", expected " << surv);
        removedFace = surv == L ? R : L; hasRemovedFace = true;
        int rd = b.left(d) == surv ? d : -d; // dart with survivor on its left
        touchedEdges.insert(std::abs(d)); touchedFaces.insert(surv);
        faceMap[removedFace] = surv;
        CellLabel s0 = b.startNode(d), s1 = b.startNode(-d);
        bypass(xs, d); bypass(xs, -d);
        ev.push_back(VF_STR("preMergeFaces(" << rd << ")"));
        if(s0 == s1)
        {
            bool used = false;
            for(auto &x : xs) if(b.startNode(x.first) == s0) used = true;
            if(!used) { xn.erase(s0); ev.push_back(VF_STR("removeNode(" << s0 << ")")); }
        }
        ev.push_back(VF_STR("postMergeFaces(" << surv << ")"));
        // area / pixel conservation
        if(a.faces.count(surv))
        {
            CHECK(std::fabs(a.faces.at(surv).area - (al + ar)) <= 1e-7 + 1e-8 * (std::fabs(al) + std::fabs(ar)), "mergeFaces-area", op.str() << ": areas " << al << " + " << ar << " became " << a.faces.at(surv).area);
            if(!b.hasImg)
                CHECK(a.faces.at(surv).pixelArea == b.faces.at(L).pixelArea + b.faces.at(R).pixelArea, "mergeFaces-pixelArea", op.str() << ": pixelArea not summed");
            CHECK(a.faces.at(surv).flags == b.faces.at(surv).flags, "face-flags-changed", op.str() << ": flags of surviving face changed");
        }
    }
    else if(op.kind == OP_REMOVE_BRIDGE)
    {
        int d = op.dart;
        CellLabel f = b.left(d);
        CHECK(res.label == f, "removeBridge-result", op.str() << " returned face " << res.label << " instead of " << f);
        touchedEdges.insert(std::abs(d)); touchedFaces.insert(f);
        CellLabel s0 = b.startNode(d), s1 = b.startNode(-d);
        bypass(xs, d); bypass(xs, -d);
        bool u0 = false, u1 = false;
        for(auto &x : xs) { if(b.startNode(x.first) == s0) u0 = true; if(b.startNode(x.first) == s1) u1 = true; }
        ev.push_back(VF_STR("preRemoveBridge(" << d << ")"));
        if(!u0) { xn.erase(s0); ev.push_back(VF_STR("removeNode(" << s0 << ")")); }
        if(!u1) { xn.erase(s1); ev.push_back(VF_STR("removeNode(" << s1 << ")")); }
        ev.push_back(VF_STR("postRemoveBridge(" << f << ")"));
        if(a.faces.count(f))
        {
            CHECK(std::fabs(a.faces.at(f).area - b.faces.at(f).area) <= 1e-7 + 1e-8 * std::fabs(b.faces.at(f).area), "removeBridge-area", op.str() << ": area of face changed");
            CHECK(a.faces.at(f).flags == b.faces.at(f).flags, "face-flags-changed", op.str() << ": flags of face changed");
        }
    }
    else if(op.kind == OP_MERGE_EDGES)
    {
        int d1 = op.dart, d2 = b.sigma.at(d1);
        CellLabel e1 = std::abs(d1), e2 = std::abs(d2);
        CHECK(res.label == e1 || res.label == e2, "mergeEdges-result", op.str() << " returned edge " << res.label);
        if(res.label == e2) { std::swap(e1, e2); std::swap(d1, d2); }
        // d1: dart of survivor starting at the removed node, d2: of the merged edge
        CellLabel node = b.startNode(d1);
        touchedEdges.insert(e1); touchedEdges.insert(e2);
        touchedFaces.insert(b.left(d1)); touchedFaces.insert(b.left(-d1));
        xn.erase(node);
        // survivor's dart d1 now starts where d2 ended
        int far = -d2;
        int succ = b.sigma.at(far), pred = b.prevSigma(far);
        xs.erase(d1); xs.erase(d2); xs.erase(far);
        if(far == succ) xs[d1] = d1;
        else
        {
            // -d1 may be neighbour of far
            xs[d1] = succ; xs[pred] = d1;
        }
        // expected polyline
        const SEdge &s1 = b.edges.at(e1);
        Poly pm = b.dartPoly(d2); // from node outwards
        Poly x;
        SEdge xe = s1;
        if(d1 > 0) // survivor starts at node: prepend reversed pm
        {
            x.assign(pm.rbegin(), pm.rend()); x.insert(x.end(), s1.p.begin() + 1, s1.p.end());
            xe.s = b.startNode(-d2);
        }
        else
        {
            x = s1.p; x.insert(x.end(), pm.begin() + 1, pm.end());
            xe.e = b.startNode(-d2);
        }
        xe.p = x;
        CHECK(a.edges.count(e1) && !a.edges.count(e2), "mergeEdges-labels", op.str() << ": edges " << e1 << "/" << e2 << " not merged into one");
        CHECK(a.edges.at(e1).p == x, "mergeEdges-polyline", op.str() << ": merged polyline is not the concatenation of edges " << e1 << " and " << e2);
        CHECK(a.edges.at(e1) == xe, "mergeEdges-attributes", op.str() << ": merged edge has wrong end nodes, faces or flags");
        if(hm)
        {
            CHECK(std::abs(hm->mergeEdgesDart) == (int)e1, "mergeEdges-hook-dart", op.str() << ": pre-merge event names edge " << hm->mergeEdgesDart << " but edge " << e1 << " survives");
            ev.push_back(VF_STR("preMergeEdges(" << d1 << ")"));
            ev.push_back(VF_STR("removeNode(" << node << ")"));
            ev.push_back(VF_STR("postMergeEdges(" << e1 << ")"));
        }
    }
    else if(op.kind == OP_SPLIT_EDGE)
    {
        CellLabel e = op.label, ne = b.maxE, nn = b.maxN;
        CHECK(res.label == ne, "splitEdge-label", op.str() << " returned edge label " << res.label << " instead of the fresh label " << ne);
        xmaxE++; xmaxN++;
        touchedEdges.insert(e); touchedEdges.insert(ne);
        const SEdge &be = b.edges.at(e);
        touchedFaces.insert(be.l); touchedFaces.insert(be.r);
        xn[nn] = op.pos;
        SEdge x1 = be, x2 = be;
        if(op.insert)
        {
            x1.p.assign(be.p.begin(), be.p.begin() + op.seg + 1); x1.p.push_back(op.pos);
            x2.p.assign(1, op.pos); x2.p.insert(x2.p.end(), be.p.begin() + op.seg + 1, be.p.end());
        }
        else
        {
            x1.p.assign(be.p.begin(), be.p.begin() + op.seg + 1);
            x2.p.assign(be.p.begin() + op.seg, be.p.end());
        }
        x1.e = nn; x2.s = nn;
        CHECK(a.edges.count(e) && a.edges.count(ne), "splitEdge-missing", op.str() << ": parts missing");
        CHECK(a.edges.at(e) == x1 && a.edges.at(ne) == x2, "splitEdge-parts", op.str() << ": the two parts do not partition the original edge (or have wrong nodes/faces/flags)");
        int E = e, N = ne;
        int succ = b.sigma.at(-E), pred = b.prevSigma(-E);
        xs.erase(-E);
        xs[-E] = N; xs[N] = -E;
        if(succ == -E) xs[-N] = -N;
        else { xs[-N] = succ; xs[pred] = -N; }
        ev.push_back(VF_STR("preSplitEdge(" << e << "," << op.seg << "," << op.insert << ")"));
        ev.push_back(VF_STR("postSplitEdge(" << e << "," << ne << ")"));
    }
    else if(op.kind == OP_REMOVE_NODE)
    {
        xn.erase(op.label);
        ev.push_back(VF_STR("removeNode(" << op.label << ")"));
    }
    else if(op.kind == OP_ADD_NODE)
    {
        CHECK(res.label == b.maxN, "addNode-label", "addNode returned label " << res.label << " instead of the fresh label " << b.maxN);
        xn[b.maxN] = op.pos; xmaxN++;
    }

    CHECK(a.nodes == xn, "node-set-after-op", op.str() << ": resulting set of nodes / positions is wrong (" << a.nodes.size() << " nodes, expected " << xn.size() << ")");
    CHECK(a.sigma == xs, "sigma-after-op", op.str() << ": resulting dart order around the nodes is wrong");
    CHECK(a.maxN == xmaxN && a.maxE == xmaxE && a.maxF == b.maxF, "label-space-after-op", op.str() << ": label ranges changed unexpectedly");
    for(auto &e : b.edges)
    {
        if(touchedEdges.count(e.first))
        {
            if(op.kind == OP_MERGE_FACES || op.kind == OP_REMOVE_BRIDGE)
                CHECK(!a.edges.count(e.first), "removed-edge-persists", op.str() << ": edge still exists");
            continue;
        }
        SEdge x(e.second);
        if(faceMap.count(x.l)) x.l = faceMap[x.l];
        if(faceMap.count(x.r)) x.r = faceMap[x.r];
        CHECK(a.edges.count(e.first) && a.edges.at(e.first) == x, "unrelated-edge-changed", op.str() << ": edge " << e.first << " changed unexpectedly");
    }
    for(auto &f : b.faces)
    {
        if(hasRemovedFace && f.first == removedFace)
        { CHECK(!a.faces.count(f.first), "merged-face-persists", op.str() << ": face " << f.first << " still exists"); continue; }
        CHECK(a.faces.count(f.first), "face-vanished", op.str() << ": face " << f.first << " vanished");
        if(touchedFaces.count(f.first)) continue;
        CHECK(sameFace(f.second, a.faces.at(f.first)), "unrelated-face-changed", op.str() << ": face " << f.first << " changed unexpectedly");
    }
    CHECK(a.faces.size() == b.faces.size() - (hasRemovedFace ? 1 : 0), "face-set-after-op", op.str() << ": unexpected new faces");
    if(op.kind == OP_MERGE_EDGES || op.kind == OP_SPLIT_EDGE)
        for(CellLabel f : touchedFaces)
            if(b.faces.count(f))
                CHECK(a.faces.at(f).contours.size() == b.faces.at(f).contours.size() && a.faces.at(f).pixelArea == b.faces.at(f).pixelArea
                      || b.hasImg, "face-changed-by-edge-op", op.str() << ": face " << f << " changed");
    if(hm)
    {
        std::vector<std::string> got(hm->ev);
        if(!got.empty() && got.back().compare(0, 15, "associatePixels") == 0)
        {
            CHECK(b.hasImg && (op.kind == OP_MERGE_FACES || op.kind == OP_REMOVE_BRIDGE), "associatePixels-unexpected", op.str() << ": " << hm->str());
            CHECK(hm->assocFace == (int)res.label && !hm->assoc.empty(), "associatePixels-face", op.str() << ": pixels announced for face " << hm->assocFace);
            got.pop_back();
        }
        std::string g, x;
        for(auto &e : got) g += e + " ";
        for(auto &e : ev) x += e + " ";
        CHECK(g == x, "event-sequence", op.str() << ": events [" << g << "] expected [" << x << "]");
        // announced pixels are exactly the ones that turned from edge into face pixels
        if(b.hasImg && a.hasImg)
        {
            std::set<std::pair<int, int> > an, fact;
            for(auto &p : hm->assoc)
                CHECK(an.insert(std::make_pair(p.x, p.y)).second, "associatePixels-duplicate", op.str() << ": pixel (" << p.x << "," << p.y << ") announced twice");
            for(size_t i = 0; i < a.img.size(); ++i)
                if(b.img[i] < 0 && a.img[i] >= 0) fact.insert(std::make_pair((int)i % a.w, (int)i / a.w));
            CHECK(an == fact, "associatePixels-set", op.str() << ": " << an.size() << " pixels announced, " << fact.size() << " pixels became face pixels");
            stats().count("associated_pixels", an.size());
        }
    }
    stats().count(std::string("op_") + opn);
}

// a completely initialised map, either random planar or crack-edge based
struct Subject
{
    std::shared_ptr<GeoMap> map;
    std::string desc;
    bool crack = false;
};

inline vigra::IImage randomLabelImage(Rng &r, int maxSize = 14, int *nlab = 0)
{
    int w = r.range(1, maxSize), h = r.range(1, maxSize), n = r.range(1, 6);
    if(nlab) *nlab = n;
    vigra::IImage img(w, h);
    int style = r.below(4);
    for(int y = 0; y < h; ++y)
        for(int x = 0; x < w; ++x)
        {
            if(style == 0) img(x, y) = r.below(n);
            else if(style == 1) img(x, y) = ((x / 3 + y / 3) % n);
            else img(x, y) = 0;
        }
    if(style >= 2)
    {
        int k = r.range(1, 10);
        for(int i = 0; i < k; ++i)
        {
            int x0 = r.below(w), y0 = r.below(h), x1 = std::min(w - 1, x0 + r.below(6)), y1 = std::min(h - 1, y0 + r.below(6)), v = r.below(n);
            for(int y = y0; y <= y1; ++y) for(int x = x0; x <= x1; ++x) if(style == 2 || r.chance(0.85)) img(x, y) = v;
        }
    }
    return img;
}

inline Subject makeSubject(Rng &r, int labelImg /* -1 random */, double crackProb = 0.2, const GenOptions &go = GenOptions())
{
    Subject s;
    bool li = labelImg < 0 ? r.chance(0.6) : labelImg != 0;
    if(r.chance(crackProb))
    {
        vigra::IImage img = randomLabelImage(r, 10);
        CrackEdgeMapGenerator gen(srcImageRange(img), r.chance(0.5));
        gen.initializeMap(li);
        s.map.reset(gen.result.release());
        s.crack = true;
        s.desc = VF_STR("crack-edge map of a " << img.width() << "x" << img.height() << " label image");
    }
    else
    {
        MapSpec spec = genSpec(r, go);
        BuiltMap b = buildGraph(r, spec, r.chance(0.3));
        if(r.chance(0.5)) b.map->sortEdgesDirectly();
        b.map->initializeMap(li);
        s.map = b.map;
        s.desc = describeSpec(spec);
    }
    if(li) s.desc += " +labelImage";
    note("subject: " + s.desc);
    return s;
}

inline OpKind randomKind(Rng &r)
{
    static const int weights[] = { 24, 20, 16, 16, 5, 8, 4 };
    int t = 0; for(int w : weights) t += w;
    int x = r.below(t);
    for(int i = 0; i < OP_NKINDS; ++i) { if(x < weights[i]) return (OpKind)i; x -= weights[i]; }
    return OP_MERGE_FACES;
}

// query a random subset of the lazily cached properties
inline void touchCaches(Rng &r, GeoMap &m, const Snap &s)
{
    double pe = r.uni(), pf = r.uni();
    for(auto &e : s.edges)
    {
        GeoMap::Edge &ed(*m.edge(e.first));
        if(r.chance(pe)) ed.length();
        if(r.chance(pe)) ed.partialArea();
        if(r.chance(pe)) ed.boundingBox();
        if(r.chance(pe * 0.5)) ed.scanLines();
    }
    for(auto &f : s.faces)
    {
        if(r.chance(pf)) m.face(f.first)->area();
        if(f.first && r.chance(pf)) m.face(f.first)->boundingBox();
    }
}

} // namespace vf
#endif
