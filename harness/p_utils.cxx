// C12: composed operations on whole maps; C13: edge protection
#include "hist.hxx"
#include <boost/shared_ptr.hpp>
using namespace vf;

typedef std::set<CellLabel> Labels;
typedef std::pair<P2, P2> Seg;

static std::map<Seg, int> segments(const Snap &s, const Labels &without)
{
    std::map<Seg, int> r;
    for(auto &e : s.edges)
        if(!without.count(e.first))
            for(size_t i = 1; i < e.second.p.size(); ++i)
                ++r[Seg(std::min(e.second.p[i-1], e.second.p[i]), std::max(e.second.p[i-1], e.second.p[i]))];
    return r;
}

static std::map<CellLabel, int> degrees(const Snap &s, const Labels &without, std::map<CellLabel, Labels> *inc = 0)
{
    std::map<CellLabel, int> r;
    for(auto &n : s.nodes) r[n.first] = 0;
    for(auto &e : s.edges)
        if(!without.count(e.first))
        {
            ++r[e.second.s]; ++r[e.second.e];
            if(inc) { (*inc)[e.second.s].insert(e.first); (*inc)[e.second.e].insert(e.first); }
        }
    return r;
}

enum NodePolicy { KEEP_NODES, REMOVE_ISOLATED, MERGE_DEGREE2, AFFECTED_ONLY };

struct Expectation
{
    Labels removed;                    // edges that have to be gone
    bool isolated = false;             // previously isolated nodes have to be gone, too
    bool merge2 = false;               // nodes of degree two have to be gone
    bool affectedOnly = false;         // ... but only at removed edges
    bool flagsMatter = false;          // edges with different flags must not be merged
};

// judges the effect of a composed operation; returns number of basic operations that must have been counted
static unsigned int judge(GeoMap &m, const Snap &b, const Snap &a, const Expectation &x, const std::string &what, bool crack)
{
    for(CellLabel e : x.removed) CHECK(!a.edges.count(e), "edge-not-removed", what << ": edge " << e << " still exists");
    std::map<Seg, int> want = segments(b, x.removed), got = segments(a, Labels());
    CHECK(want == got, "remaining-geometry", what << ": remaining curves consist of " << got.size() << " segments, expected " << want.size());
    for(auto &e : a.edges)
    {
        CHECK(b.edges.count(e.first), "new-edge", what << ": edge " << e.first << " appeared");
        const SEdge &o = b.edges.at(e.first);
        CHECK(e.second.flags == o.flags, "edge-flags", what << ": flags of edge " << e.first << " changed from " << std::hex << o.flags << " to " << e.second.flags);
        CHECK(std::search(e.second.p.begin(), e.second.p.end(), o.p.begin(), o.p.end()) != e.second.p.end(), "edge-geometry", what << ": edge " << e.first << " lost its own geometry");
    }
    std::map<CellLabel, Labels> inc, incAfter;
    std::map<CellLabel, int> deg = degrees(b, x.removed, &inc), degBefore = degrees(b, Labels()), degAfter = degrees(a, Labels(), &incAfter);
    Labels affected;
    for(CellLabel e : x.removed) { affected.insert(b.edges.at(e).s); affected.insert(b.edges.at(e).e); }
    unsigned int ops = x.removed.size();
    for(auto &n : a.nodes)
        CHECK(b.nodes.count(n.first) && b.nodes.at(n.first) == n.second, "node-moved", what << ": node " << n.first << " is new or has moved");
    for(auto &n : b.nodes)
    {
        bool exists = a.nodes.count(n.first);
        int d = deg[n.first];
        if(d == 0)
        {
            bool keep = degBefore[n.first] == 0 && !x.isolated;
            CHECK(exists == keep, "isolated-node", what << ": isolated node " << n.first << (exists ? " left over" : " vanished"));
            if(!exists && degBefore[n.first] == 0) ++ops;
        }
        else
        {
            bool candidate = x.merge2 && d == 2 && inc[n.first].size() == 2 && (!x.affectedOnly || affected.count(n.first));
            if(!candidate) CHECK(exists, "node-vanished", what << ": node " << n.first << " of degree " << d << " vanished");
            else if(!exists) ++ops;
        }
    }
    if(x.merge2)
        for(auto &n : a.nodes)
            if(degAfter[n.first] == 2 && incAfter[n.first].size() == 2 && (!x.affectedOnly || affected.count(n.first)))
            {
                CellLabel e1 = *incAfter[n.first].begin(), e2 = *incAfter[n.first].rbegin();
                CHECK(x.flagsMatter && a.edges.at(e1).flags != a.edges.at(e2).flags, "degree-2-node-left", what << ": node " << n.first << " of degree 2 left over between edges " << e1 << " and " << e2);
                stats().count("merges_refused");
            }
    if(x.flagsMatter && x.merge2)
    {
        // no segment may have changed flags by a merge
        std::map<Seg, CellFlags> fl;
        for(auto &e : b.edges) for(size_t i = 1; i < e.second.p.size(); ++i) fl[Seg(std::min(e.second.p[i-1], e.second.p[i]), std::max(e.second.p[i-1], e.second.p[i]))] = e.second.flags;
        for(auto &e : a.edges) for(size_t i = 1; i < e.second.p.size(); ++i)
            CHECK(fl[Seg(std::min(e.second.p[i-1], e.second.p[i]), std::max(e.second.p[i-1], e.second.p[i]))] == e.second.flags, "merged-different-flags", what << ": edge " << e.first << " contains parts of an edge with different flags");
    }
    // faces: union of the faces at both sides of removed edges
    std::map<CellLabel, CellLabel> uf;
    std::function<CellLabel(CellLabel)> find = [&](CellLabel l) { while(uf[l] != l) l = uf[l] = uf[uf[l]]; return l; };
    for(auto &f : b.faces) uf[f.first] = f.first;
    for(CellLabel e : x.removed) uf[find(b.edges.at(e).l)] = find(b.edges.at(e).r);
    std::map<CellLabel, double> area; std::map<CellLabel, std::vector<CellLabel> > members;
    for(auto &f : b.faces) { area[find(f.first)] += f.second.area; members[find(f.first)].push_back(f.first); }
    std::map<CellLabel, CellLabel> surv;
    for(auto &f : a.faces)
    {
        CHECK(b.faces.count(f.first), "new-face", what << ": face " << f.first << " appeared");
        CHECK(!surv.count(find(f.first)), "faces-not-merged", what << ": faces " << f.first << " and " << surv[find(f.first)] << " should have been merged");
        surv[find(f.first)] = f.first;
        CHECK(std::fabs(f.second.area - area[find(f.first)]) <= 1e-7 + 1e-8 * std::fabs(f.second.area), "merged-area", what << ": face " << f.first << " has area " << f.second.area << ", expected " << area[find(f.first)]);
        CHECK(f.second.flags == b.faces.at(f.first).flags, "face-flags", what << ": flags of face " << f.first << " changed");
    }
    for(auto &k : members)
    {
        CHECK(surv.count(k.first), "face-lost", what << ": no face left of the union of " << k.second.size() << " faces (e.g. " << k.second[0] << ")");
        if(find(0) == k.first) CHECK(surv[k.first] == 0, "infinite-face-lost", what << ": infinite face was absorbed");
    }
    for(auto &e : a.edges)
        CHECK(e.second.l == surv[find(b.edges.at(e.first).l)] && e.second.r == surv[find(b.edges.at(e.first).r)], "faces-of-remaining-edge", what << ": edge " << e.first << " lies between faces "
              << e.second.l << " and " << e.second.r << ", expected " << surv[find(b.edges.at(e.first).l)] << " and " << surv[find(b.edges.at(e.first).r)]);
    verifyGraph(m, a, !crack); verifyFaces(m, a, true); verifyLabelImage(m, a);
    stats().count("edges_removed", x.removed.size());
    return ops;
}

static void judgeDrawn(Rng &r, GeoMap &m, const Snap &s)
{
    bool neg = r.chance(0.5);
    int w = r.chance(0.7) ? s.w : r.range(1, s.w + 4), h = r.chance(0.7) ? s.h : r.range(1, s.h + 4);
    vigra::MultiArray<2, int> img(vigra::MultiArrayShape<2>::type(w, h));
    note(VF_STR("drawLabelImage(" << w << "x" << h << ", " << neg << ")"));
    drawLabelImage(m, destMultiArrayRange(img), neg);
    const double T = 1e-6;
    FaceLocator loc(s);
    for(int y = 0; y < h; ++y)
        for(int x = 0; x < w; ++x)
        {
            int v = img(x, y);
            bool lo = false, hi = false; double d = 1e300;
            for(auto &e : s.edges)
            {
                if(polyHitsBox(e.second.p, x - 0.5 - T, y - 0.5 - T, x + 0.5 + T, y + 0.5 + T))
                {
                    hi = true;
                    lo = lo || polyHitsBox(e.second.p, x - 0.5 + T, y - 0.5 + T, x + 0.5 - T, y + 0.5 - T);
                    d = std::min(d, ptPolylineDist(P2(x, y), e.second.p));
                }
            }
            if(neg)
            {
                if(lo) CHECK(v == -1, "drawn-edge-pixel", "drawLabelImage(): pixel (" << x << "," << y << ") crossed by an edge has label " << v);
                else if(!hi) CHECK(v == (int)loc.at(P2(x, y)), "drawn-face-pixel", "drawLabelImage(): pixel (" << x << "," << y << ") in face " << loc.at(P2(x, y)) << " has label " << v);
                else CHECK(v == -1 || s.faces.count(v), "drawn-pixel", "drawLabelImage(): pixel (" << x << "," << y << ") has label " << v);
                if(lo) stats().count("drawn_edge_pixels");
            }
            else
            {
                if(d > 1e-6) CHECK(v == (int)loc.at(P2(x, y)), "drawn-center-pixel", "drawLabelImage(negativeEdgeLabels = false): centre of pixel (" << x << "," << y << ") lies in face " << loc.at(P2(x, y)) << " but it has label " << v);
                else CHECK(s.faces.count(v), "drawn-pixel", "drawLabelImage(): pixel (" << x << "," << y << ") has label " << v);
                if(hi) stats().count("drawn_center_pixels");
            }
        }
    stats().count("images_drawn");
}

struct LabelVeto
{
    Labels keep;
    bool operator()(const GeoMap::Dart &d) const { return !keep.count(d.edgeLabel()); }
};

static void caseBulk(Rng &r, long long, bool forceProtection)
{
    Subject sub = makeSubject(r, -1, 0.25);
    GeoMap &m = *sub.map;
    boost::shared_ptr<GeoMap> bm(sub.map.get(), [sub](GeoMap *) {});
    // some more nodes of degree two
    Snap cur = takeSnap(m);
    int extra = r.below(6);
    for(int i = 0; i < extra; ++i)
    {
        Op op;
        if(pickOp(r, cur, OP_SPLIT_EDGE, op)) { runOp(m, op); cur = takeSnap(m); }
    }
    int style = forceProtection ? 1 : r.below(3); // 0: no objections, 1: edge protection, 2: other listener
    double pf = style == 1 ? r.uni(0.05, 0.6) : 0.3;
    static const CellFlags userFlags[] = { 0x100, 0x400, 0x8000, 0x80000, 0x100000, 0x40000000 };
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
        if(r.chance(pf))
            (*it)->setFlag(style == 1 && r.chance(0.6) ? (r.chance(0.6) ? (CellFlags)GeoMap::Edge::BORDER_PROTECTION : (CellFlags)(1 << r.below(8))) : userFlags[r.below(6)]);
    std::unique_ptr<EdgeProtection> ep;
    std::vector<boost::signals2::scoped_connection *> conns;
    LabelVeto veto;
    if(style == 1)
    {
        if(r.chance(0.5)) ep.reset(new EdgeProtection(bm));
        else { ep.reset(new EdgeProtection()); ep->attachHooks(bm); }
    }
    std::shared_ptr<LabelVeto> lv(new LabelVeto);
    boost::signals2::scoped_connection c1, c2;
    if(style == 2)
    {
        for(auto &e : cur.edges) if(r.chance(0.25)) lv->keep.insert(e.first);
        c1 = m.preMergeFacesHook.connect([lv](const GeoMap::Dart &d) { return (*lv)(d); });
        c2 = m.preRemoveBridgeHook.connect([lv](const GeoMap::Dart &d) { return (*lv)(d); });
    }
    bool active = true; // protection attached?
    auto kept = [&](const Snap &s, CellLabel e)
    {
        if(style == 1 && active) return (s.edges.at(e).flags & 0xff) != 0;
        return style == 2 && lv->keep.count(e) != 0;
    };
    cur = takeSnap(m);
    int n = r.range(2, 7);
    for(int i = 0; i < n; ++i)
    {
        if(r.chance(0.2)) touchCaches(r, m, cur);
        Expectation x;
        x.flagsMatter = style == 1 && active;
        int what = r.below(10);
        if(what < 4) // removeEdges
        {
            std::vector<CellLabel> ls;
            double p = r.chance(0.2) ? 1.0 : r.uni(0.05, 0.7);
            int bias = r.below(3); // 1: prefer bridges
            for(auto &e : cur.edges) if(r.chance(bias == 1 && e.second.l == e.second.r ? 0.9 : p)) ls.push_back(e.first);
            r.shuffle(ls);
            std::string d = "removeEdges(";
            for(CellLabel l : ls) { d += VF_STR(l << (kept(cur, l) ? "k " : " ")); if(!kept(cur, l)) x.removed.insert(l); else stats().count("removal_refused"); }
            d += ")"; note(d);
            x.isolated = x.merge2 = true;
            unsigned int res = removeEdges(m, ls.begin(), ls.end());
            Snap a = takeSnap(m);
            unsigned int ops = judge(m, cur, a, x, d, sub.crack);
            CHECK(res == ops, "operation-count", d << " reports " << res << " operations, " << ops << " were necessary");
            cur = a;
            stats().count("op_removeEdges");
        }
        else if(what == 4)
        {
            for(auto &e : cur.edges) if(e.second.l == e.second.r) { if(!kept(cur, e.first)) x.removed.insert(e.first); else stats().count("removal_refused"); }
            note("removeBridges()");
            unsigned int res = removeBridges(m);
            Snap a = takeSnap(m);
            unsigned int ops = judge(m, cur, a, x, "removeBridges()", sub.crack);
            CHECK(res == ops, "operation-count", "removeBridges() reports " << res << " operations, " << ops << " were necessary");
            cur = a;
            stats().count("op_removeBridges");
        }
        else if(what == 5)
        {
            bool iso = r.chance(0.3);
            note(iso ? "removeIsolatedNodes()" : "mergeDegree2Nodes()");
            x.isolated = iso; x.merge2 = !iso;
            unsigned int res = iso ? removeIsolatedNodes(m) : mergeDegree2Nodes(m);
            Snap a = takeSnap(m);
            unsigned int ops = judge(m, cur, a, x, iso ? "removeIsolatedNodes()" : "mergeDegree2Nodes()", sub.crack);
            CHECK(res == ops, "operation-count", (iso ? "removeIsolatedNodes()" : "mergeDegree2Nodes()") << " reports " << res << " operations, " << ops << " were necessary");
            cur = a;
            stats().count(iso ? "op_removeIsolatedNodes" : "op_mergeDegree2Nodes");
        }
        else if(what < 8)
        {
            std::vector<int> c;
            for(int d : dartList(cur)) if(cur.left(d) != cur.left(-d)) c.push_back(d);
            if(c.empty()) continue;
            int d = r.pick(c);
            bool merge2 = r.chance(0.6);
            bool refused = false;
            Labels common;
            for(auto &e : cur.edges)
                if((e.second.l == cur.left(d) && e.second.r == cur.left(-d)) || (e.second.r == cur.left(d) && e.second.l == cur.left(-d))) common.insert(e.first);
            for(CellLabel e : common)
            {
                if(cur.edges.at(e).flags & 0xff) refused = true;
                if(!kept(cur, e)) x.removed.insert(e);
            }
            if(refused) x.removed.clear();
            x.merge2 = merge2 && !refused; x.affectedOnly = true;
            // nodes of edges that were not allowed to be removed are tidied up, too
            std::string ds = VF_STR("mergeFacesCompletely(" << d << ", " << merge2 << ") (" << common.size() << " common edges" << (refused ? ", protected" : "") << ")");
            note(ds);
            if(style == 2 && x.removed.size() < common.size() && merge2) continue;
            GeoMap::Dart dart(m.dart(d));
            GeoMap::FacePtr f = mergeFacesCompletely(dart, merge2);
            Snap a = takeSnap(m);
            judge(m, cur, a, x, ds, sub.crack);
            CHECK((bool)f == !x.removed.empty(), "completely-result", ds << " returned " << (f ? "a face" : "no face"));
            if(f) CHECK(a.faces.count(f->label()) && (f->label() == cur.left(d) || f->label() == cur.left(-d)), "completely-survivor", ds << " returned face " << f->label() << " which is not the union of both");
            if(refused) { std::string df = snapDiff(cur, a); CHECK(df.empty(), "completely-refused", ds << " was refused but changed the map: " << df); stats().count("completely_refused"); }
            if(common.size() > 1 && f) stats().count("merged_multiple_edges");
            cur = a;
            stats().count("op_mergeFacesCompletely");
        }
        else if(what == 8 && !forceProtection) judgeDrawn(r, m, cur);
        else if(style == 1) // single operations
        {
            Op op;
            static const OpKind ks[] = { OP_MERGE_FACES, OP_REMOVE_BRIDGE, OP_REMOVE_EDGE, OP_MERGE_EDGES };
            if(!pickOp(r, cur, ks[r.below(4)], op)) continue;
            note(op.str());
            bool expectRefusal;
            if(op.kind == OP_MERGE_EDGES) expectRefusal = active && cur.edges.at(std::abs(op.dart)).flags != cur.edges.at(std::abs(cur.sigma.at(op.dart))).flags;
            else expectRefusal = kept(cur, std::abs(op.dart));
            OpResult res = runOp(m, op);
            CHECK(!res.threw && res.null == expectRefusal, "protection-decision", op.str() << (res.threw ? " raised " + res.what : std::string(res.null ? " was refused" : " was performed"))
                  << ", edge flags " << cur.edges.at(std::abs(op.dart)).flags);
            Snap a = takeSnap(m);
            if(expectRefusal) { std::string df = snapDiff(cur, a); CHECK(df.empty(), "protected-op-changed-map", op.str() << " was refused but changed the map: " << df); stats().count("single_refused"); }
            else { checkTransition(cur, a, op, res, 0); stats().count("single_performed"); }
            cur = a;
        }
        if(style == 1 && r.chance(0.15))
        {
            if(active)
            {
                if(r.chance(0.5)) { note("detachHooks()"); ep->detachHooks(); CHECK(!ep->map(), "detached-map", "map() after detachHooks()"); stats().count("detached"); }
                else { note("destroy protection"); ep.reset(); stats().count("destroyed"); }
            }
            else
            {
                note("attach again");
                if(ep) ep->attachHooks(bm); else ep.reset(new EdgeProtection(bm));
                CHECK(ep->map() == bm, "attached-map", "map() after attachHooks()");
            }
            active = !active;
        }
        stats().state(topoHash(cur));
        stats().sample(VF_STR(sub.desc << " V=" << cur.nodes.size() << " E=" << cur.edges.size() << " F=" << cur.faces.size()));
    }
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> p;
    p["C12"] = [](Rng &r, long long i) { caseBulk(r, i, false); };
    p["C13"] = [](Rng &r, long long i) { caseBulk(r, i, true); };
    return runMain(argc, argv, p);
}
