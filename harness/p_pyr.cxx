// C20: pyramids of cell images: every level can be revisited, exactly as it was
// C21: statistics carried along with a pyramid
#include "cell.hxx"
#include <iostream>
#include "cellpyramid.hxx"
#include "cellstatistics.hxx"
using namespace vf;

/* --- C20 -----------------------------------------------------------------*/

// statistics which only record what they have been told
struct Trace
{
    std::vector<unsigned> ev;
    void pre(int k, const CDart &d) { ev.push_back(k); ev.push_back(d.serialize()); ev.push_back(d.startNodeLabel()); ev.push_back(d.leftFaceLabel()); }
    void post(int k, unsigned l) { ev.push_back(k); ev.push_back(l); }
    void preRemoveIsolatedNode(const CDart &d) { pre(100, d); }
    void postRemoveIsolatedNode(CMap::FaceInfo &f) { post(200, f.label); }
    void preMergeFaces(const CDart &d) { pre(101, d); }
    void postMergeFaces(CMap::FaceInfo &f) { post(201, f.label); }
    void preRemoveBridge(const CDart &d) { pre(102, d); }
    void postRemoveBridge(CMap::FaceInfo &f) { post(202, f.label); }
    void preMergeEdges(const CDart &d) { pre(103, d); }
    void postMergeEdges(CMap::EdgeInfo &e) { post(203, e.label); }
    // events without those of refused operations
    std::vector<unsigned> effective() const
    {
        std::vector<unsigned> r;
        for(size_t i = 0; i < ev.size();)
        {
            if(ev[i] >= 200) { r.push_back(ev[i]); r.push_back(ev[i + 1]); i += 2; }
            else
            {
                if(i + 4 < ev.size() && ev[i + 4] >= 200) r.insert(r.end(), ev.begin() + i, ev.begin() + i + 4);
                i += 4;
            }
        }
        return r;
    }
};
typedef vigra::CellPyramid<CMap, Trace> Pyr;

struct PLevel { CSnap s; std::vector<unsigned> t; };

static const COpType PO_EDGE = CO_REMOVE_EDGE, PO_ENDS = CO_REMOVE_EDGE_WITH_ENDS;
static std::string pname(const COp &o) { if(o.t < 4) return o.str(); COp q = o; q.t = CO_FACES; std::string s = q.str(); return (o.t == PO_EDGE ? "removeEdge" : "removeEdgeWithEnds") + s.substr(s.find('(')); }

static bool pickP(Rng &r, CMap &m, COp &o, bool valid)
{
    if(r.chance(0.6)) return pickCOp(r, m, o, valid);
    std::vector<unsigned> d = allDarts(m);
    if(d.empty()) return false;
    for(int tries = 0; tries < 20; ++tries)
    {
        o.t = (COpType)(PO_EDGE + r.below(2)); o.dart = d[r.below(d.size())];
        if(!CDart(&m, o.dart).isSingular() == valid) return true;
    }
    return false;
}

// the composed operations in terms of the elementary ones
static COpResult plainOp(CMap &m, const COp &o)
{
    if(o.t < 4) return runCOp(m, m, o);
    CDart d(&m, o.dart);
    if(d.isSingular()) { COpResult r; r.threw = true; r.kind = 0; r.label = 0; return r; }
    // start node of the edge first
    unsigned n1 = d.edge().start.startNodeLabel(), n2 = d.edge().end.startNodeLabel();
    COp q = o; q.t = d.leftFaceLabel() == d.rightFaceLabel() ? CO_BRIDGE : CO_FACES;
    COpResult res = runCOp(m, m, q);
    if(o.t == PO_ENDS)
    {
        if(!m.node(n1).degree) m.removeIsolatedNode(m.node(n1).anchor);
        if(n1 != n2 && !m.node(n2).degree) m.removeIsolatedNode(m.node(n2).anchor);
    }
    return res;
}
static COpResult pyrOp(Pyr &p, const COp &o)
{
    CMap &seg = const_cast<CMap &>(p.topLevel().segmentation());
    if(o.t < 4) return runCOp(p, seg, o);
    COpResult r; r.threw = false; r.kind = 0; r.label = 0;
    try { r.label = o.t == PO_EDGE ? p.removeEdge(CDart(&seg, o.dart)).label : p.removeEdgeWithEnds(CDart(&seg, o.dart)).label; }
    catch(std::exception &e) { r.threw = true; r.what = e.what(); }
    return r;
}

static void sameLevel(const Pyr::Level &l, unsigned index, const PLevel &w, const char *how)
{
    CHECK(l.index() == index, "level-index", how << ": level " << index << " claims to be level " << l.index());
    CSnap s = csnap(l.segmentation());
    CHECK(s == w.s, "level-differs", how << ": level " << index << " differs from what it was: " << cdiff(w.s, s));
    CHECK(l.cellStatistics().effective() == w.t, "level-statistics", how << ": the statistics of level " << index << " have not seen the same operations as originally");
    stats().count("levels_compared");
}

struct PyrCase
{
    Rng &r;
    std::unique_ptr<CMap> plain;
    std::unique_ptr<Pyr> p;
    std::vector<PLevel> lev;
    std::vector<std::unique_ptr<Pyr::Level> > held;
    uint64_t h;

    PyrCase(Rng &rr) : r(rr) {}

    PLevel now() { PLevel l; l.s = csnap(p->topLevel().segmentation()); l.t = p->topLevel().cellStatistics().effective(); return l; }

    bool op(bool valid, const char *ctx)
    {
        COp o;
        if(!pickP(r, *plain, o, valid)) return false;
        note(VF_STR(ctx << pname(o)));
        PLevel before = now();
        COpResult res = pyrOp(*p, o);
        PLevel after = now();
        if(!valid)
        {
            CHECK(res.threw, "pyramid-accepted", pname(o) << " should have been rejected");
            CHECK(after.s == before.s && after.t == before.t, "pyramid-refused-changed", "rejected operation " << pname(o) << " changed the top level: " << cdiff(before.s, after.s));
            stats().count("ops_refused");
            return true;
        }
        COpResult pr = plainOp(*plain, o);
        CSnap ps = csnap(*plain);
        CHECK(!res.threw, "pyramid-op-threw", pname(o) << " raised " << res.what);
        CHECK(!pr.threw && pr.label == res.label && ps == after.s, "pyramid-op", pname(o) << " has another effect on the pyramid than on a map: " << cdiff(ps, after.s));
        h = mix(h, csnapHash(ps)); stats().state(h);
        static const char *n[] = {"removeIsolatedNode", "mergeFaces", "removeBridge", "mergeEdges", "removeEdge", "removeEdgeWithEnds"};
        stats().count(n[o.t]);
        return true;
    }

    void invariants(const char *ctx)
    {
        CHECK(p->levelCount() == lev.size(), "level-count", ctx << ": levelCount() is " << p->levelCount() << " after " << lev.size() - 1 << " operations");
        sameLevel(p->topLevel(), lev.size() - 1, lev.back(), ctx);
    }

    void composite(int depth)
    {
        bool change = lev.size() > 1 && r.chance(0.35);
        note(change ? "changeIntoComposite" : "beginComposite");
        if(change) { p->changeIntoComposite(); stats().count("changed_into_composite"); }
        else p->beginComposite();
        int n = r.chance(0.12) ? 0 : r.range(1, 5), done = 0;
        for(int i = 0; i < n; ++i)
        {
            if(r.chance(0.12)) op(false, "  ");
            else if(r.chance(0.12))
            {
                note("  nested composite");
                bool c2 = r.chance(0.3);
                if(c2) p->changeIntoComposite(); else p->beginComposite();
                for(int k = r.range(0, 2); k; --k) done += op(true, "    ");
                p->endComposite();
                stats().count("nested_composites");
            }
            else done += op(true, "  ");
            // other levels can be visited meanwhile
            if(r.chance(0.1))
            {
                unsigned i = r.below(lev.size() - (change ? 1 : 0));
                std::unique_ptr<Pyr::Level> l(p->getLevel(i));
                sameLevel(*l, i, lev[i], "getLevel() while composing");
            }
        }
        note("endComposite");
        p->endComposite();
        if(change) lev.pop_back();
        lev.push_back(now());
        if(change) dropHeld(lev.size() - 2);
        if(!done && !change) stats().count("empty_composites");
        stats().count("composites");
        invariants("after a composite operation");
    }

    void dropHeld(unsigned maxIndex)
    {
        for(size_t i = 0; i < held.size();) if(held[i]->index() > maxIndex) held.erase(held.begin() + i); else ++i;
    }

    void visit()
    {
        unsigned i = r.chance(0.2) ? lev.size() - 1 : r.below(lev.size());
        int k = r.below(5);
        if(k == 0 || held.empty())
        {
            note(VF_STR("getLevel(" << i << ")"));
            held.emplace_back(p->getLevel(i));
            sameLevel(*held.back(), i, lev[i], "getLevel()");
            if(held.size() > 3) held.erase(held.begin());
        }
        else if(k == 1)
        {
            note(VF_STR("getLastCheckpointBefore(" << i << ")"));
            std::unique_ptr<Pyr::Level> l(p->getLastCheckpointBefore(i));
            CHECK(l->index() <= i, "checkpoint-index", "checkpoint " << l->index() << " is above level " << i);
            sameLevel(*l, l->index(), lev[l->index()], "checkpoint");
            if(l->index()) stats().count("checkpoints_used");
        }
        else if(k == 2)
        {
            Pyr::Level &l = *held[r.below(held.size())];
            note(VF_STR("level " << l.index() << ": gotoLevel(" << i << ")"));
            stats().count(l.index() > i ? "levels_down" : "levels_up");
            l.gotoLevel(i);
            sameLevel(l, i, lev[i], "gotoLevel()");
        }
        else
        {
            Pyr::Level &l = *held[r.below(held.size())];
            unsigned steps = r.range(1, 6);
            note(VF_STR("level " << l.index() << ": approachLevel(" << i << ", " << steps << ")"));
            for(unsigned n = 0;; ++n)
            {
                unsigned before = l.index(), from, used;
                {
                    std::unique_ptr<Pyr::Level> c(p->getLastCheckpointBefore(i));
                    used = !(before <= i && c->index() <= before);
                    from = used ? c->index() : before;
                }
                bool there = l.approachLevel(i, steps);
                CHECK(l.index() <= from + steps, "approach-steps", "approachLevel(" << i << ", " << steps << ") went from level " << before << " (checkpoint " << from << ") to " << l.index());
                CHECK(used || l.index() >= before, "approach-backwards", "approachLevel(" << i << ") went from level " << before << " back to " << l.index());
                CHECK(there == (l.index() == i), "approach-result", "approachLevel() returned " << there << " at level " << l.index() << " on the way to " << i);
                CHECK(l.index() <= i, "approach-overshoot", "approachLevel(" << i << ") reached " << l.index());
                sameLevel(l, l.index(), lev[l.index()], "approachLevel()");
                CHECK(n <= lev.size() + 1, "approach-stuck", "approachLevel() does not reach level " << i << " from " << before);
                if(there) break;
                stats().count("partial_approach");
                if(r.chance(0.1)) break;
            }
        }
    }

    void run()
    {
        ci::CellType corner = r.chance(0.5) ? ci::CellTypeLine : ci::CellTypeVertex;
        Bin b = genBoundary(r, true);
        for(int k = r.below(4); k && b.w * b.h < 60; --k) b = genBoundary(r, true);
        note(VF_STR("corners are " << (corner == ci::CellTypeLine ? "edges" : "nodes") << "\n" << describeBin(b)));
        plain.reset(makeCells(b, corner));
        p.reset(new Pyr(*plain));
        h = binHash(b);
        lev.push_back(now());
        CHECK(csnap(*plain) == lev[0].s, "level-zero", "level 0 differs from the given map");
        invariants("after construction");
        for(int k = r.range(5, 70); k; --k)
        {
            int what = r.below(20);
            if(what < 9) { if(op(true, "")) { lev.push_back(now()); invariants("after an operation"); } }
            else if(what < 10) { if(op(false, "")) invariants("after a rejected operation"); }
            else if(what < 12) composite(0);
            else if(what < 17) visit();
            else if(what < 18)
            {
                unsigned i = r.chance(0.2) ? r.below(lev.size()) : lev.size() - 1 - std::min<size_t>(lev.size() - 1, r.below(5));
                bool byLevel = r.chance(0.5);
                note(VF_STR("cutAbove(" << (byLevel ? "level " : "") << i << ")"));
                if(byLevel) { std::unique_ptr<Pyr::Level> l(p->getLevel(i)); p->cutAbove(*l); }
                else p->cutAbove(i);
                lev.resize(i + 1);
                dropHeld(i);
                CMap *n = new CMap(p->topLevel().segmentation()); plain.reset(n);
                stats().count("cuts");
                invariants("after cutAbove()");
            }
            else if(what < 19)
            {
                unsigned i = r.below(lev.size());
                note(VF_STR("storeCheckpoint(" << i << ")"));
                if(i == lev.size() - 1 && r.chance(0.5)) p->storeCheckpoint(p->topLevel());
                else { std::unique_ptr<Pyr::Level> l(p->getLevel(i)); p->storeCheckpoint(*l); }
                stats().count("user_checkpoints");
                invariants("after storeCheckpoint()");
            }
            else
            {
                bool thrown = false;
                unsigned i = lev.size() + r.below(3);
                try { delete p->getLevel(i); } catch(vigra::PreconditionViolation &) { thrown = true; }
                CHECK(thrown, "level-range", "getLevel(" << i << ") was accepted with " << lev.size() << " levels");
            }
        }
        for(unsigned i = 0; i < lev.size(); ++i)
        {
            std::unique_ptr<Pyr::Level> l(p->getLevel(i));
            sameLevel(*l, i, lev[i], "final sweep");
            if(r.chance(0.2)) { CMap &m = const_cast<CMap &>(l->segmentation()); verifyCells(m, csnap(m), false); }
        }
        unsigned n = 0;
        for(Pyr::HistoryIterator it = p->historyBegin(); it != p->historyEnd(); ++it) ++n;
        CHECK(n + 1 == lev.size(), "history-length", "history has " << n << " entries, but there are " << lev.size() << " levels");
        stats().count("pyramid_levels", lev.size());
    }
};

/* --- C21 -----------------------------------------------------------------*/

typedef vigra::CellPyramid<CMap, CellStatistics> SPyr;

struct Sum { double n, s, q; Sum() : n(0), s(0), q(0) {} void add(double v) { ++n; s += v; q += v * v; } void add(const Sum &o) { n += o.n; s += o.s; q += o.q; } bool operator==(const Sum &o) const { return n == o.n && s == o.s && q == o.q; } };
struct StatModel
{
    std::map<unsigned, Sum> face, edge;
    std::map<unsigned, bool> outer; // edges which were merged or created along the infinite face
    std::map<unsigned, std::set<unsigned> > parts; // initial edges merged into each edge
};

struct StatCase
{
    Rng &r;
    SegmentationData sd;
    std::unique_ptr<EdgeProtection> prot;
    std::vector<unsigned> flags; // expected
    std::unique_ptr<SPyr> p;
    std::unique_ptr<CMap> plain;
    std::vector<StatModel> lev;
    std::vector<CSnap> snaps;
    int w, h;
    uint64_t hash;

    StatCase(Rng &rr) : r(rr) {}

    bool inImage(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
    template<class IMG> Sum sumCell(const CSnap &s, const IMG &img, int type, unsigned label) const
    {
        Sum u;
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) if(s.type(x, y) == type && s.label(x, y) == label) u.add(img(x, y));
        return u;
    }

    void model0(CMap &m, const CSnap &s)
    {
        StatModel t;
        for(auto &f : s.faces) if(f.first) t.face[f.first] = sumCell(s, sd.preparedOriginal_, 0, f.first); else t.face[0] = Sum();
        for(auto &e : s.edges)
        {
            CDart d = m.edge(e.first).start;
            t.outer[e.first] = !d.leftFaceLabel() || !d.rightFaceLabel();
            t.edge[e.first] = sumCell(s, sd.gradientMagnitude_, 1, e.first);
            t.parts[e.first].insert(e.first);
            if(t.outer[e.first]) flags[e.first] |= EPBorder;
        }
        lev.push_back(t); snaps.push_back(s);
    }

    // statistics of one level; protection is shared by all levels
    void verify(const SPyr::Level &l, const StatModel &t, const char *how)
    {
        const CellStatistics &c = l.cellStatistics();
        for(auto &f : t.face)
        {
            const CellStatistics::FaceStatistics &q = c.faceStatistics_[f.first];
            CHECK(q.count_ == f.second.n && q.sum_ == f.second.s && q.squareSum_ == f.second.q, "face-statistics", how << ": statistics of face " << f.first << " at level " << l.index() << " cover " << q.count_ << " pixels (sum " << q.sum_ << "/" << q.squareSum_ << "), expected " << f.second.n << " (sum " << f.second.s << "/" << f.second.q << ")");
            if(f.second.n)
            {
                double av = f.second.s / f.second.n, var = f.second.q / f.second.n - av * av;
                CHECK(std::fabs(q.average() - av) < 1e-3 && std::fabs(q.variance() - var) < 1e-2, "face-average", how << ": face " << f.first << " has average " << q.average() << " and variance " << q.variance() << ", expected " << av << ", " << var);
            }
            stats().count("face_statistics");
        }
        for(auto &e : t.edge)
        {
            const CellStatistics::EdgeStatistics &q = c.edgeStatistics_[e.first];
            if(t.outer.at(e.first)) CHECK(q.average() == vigra::NumericTraits<float>::max(), "border-edge-statistics", how << ": edge " << e.first << " along the border has average " << q.average());
            else CHECK(q.count() == e.second.n && (e.second.n == 0 || std::fabs(q.average() - e.second.s / e.second.n) < 1e-3), "edge-statistics", how << ": statistics of edge " << e.first << " at level " << l.index() << " cover " << q.count() << " pixels, expected " << e.second.n);
            stats().count("edge_statistics");
            // the edges it was merged from
            std::set<unsigned> chain; unsigned x = e.first;
            while(chain.insert(x).second && c.mergedEdges_[x] != x) x = c.mergedEdges_[x];
            CHECK(c.mergedEdges_[x] == x && chain == t.parts.at(e.first), "merged-edges", how << ": edge " << e.first << " at level " << l.index() << " was merged from " << t.parts.at(e.first).size() << " edges, but " << chain.size() << " are known");
            bool any = false;
            for(unsigned k : t.parts.at(e.first)) any = any || flags[k];
            CHECK(c.edgeProtected(e.first) == any, "edge-protected", how << ": edge " << e.first << " at level " << l.index() << " is " << (any ? "not " : "") << "protected");
        }
    }
    void verifyFlags(const char *how)
    {
        for(size_t i = 0; i < flags.size(); ++i)
            for(int b = 1; b < 8; b *= 2)
                CHECK(prot->edgeProtected(i, b) == ((flags[i] & b) != 0), "protection-flags", how << ": protection " << b << " of edge " << i << " is " << prot->edgeProtected(i, b));
    }

    void run()
    {
        ci::CellType corner = r.chance(0.5) ? ci::CellTypeLine : ci::CellTypeVertex;
        Bin b = genBoundary(r, true);
        w = b.w; h = b.h;
        note(VF_STR("corners are " << (corner == ci::CellTypeLine ? "edges" : "nodes") << "\n" << describeBin(b)));
        plain.reset(makeCells(b, corner));
        sd.doEdgeRethinning = false;
        sd.doAutoProtection = r.chance(0.3);
        static const double thr[] = {0.3, 0.0, 0.5, 1.0};
        sd.autoProtectionThreshold = thr[r.below(4)];
        sd.preparedOriginal_.resize(w, h); sd.gradientMagnitude_.resize(w, h); sd.edgelImage.resize(w, h);
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { sd.preparedOriginal_(x, y) = r.below(16); sd.gradientMagnitude_(x, y) = r.below(16); sd.edgelImage(x, y) = r.chance(0.5); }
        flags.assign(plain->maxEdgeLabel() + 1, 0);
        prot.reset(new EdgeProtection(plain->maxEdgeLabel() + 1));
        CSnap s0 = csnap(*plain);
        model0(*plain, s0);
        CellStatistics st(*plain, &sd, prot.get());
        for(auto &n : s0.nodes)
        {
            double sx = 0, sy = 0; int k = 0;
            for(int y = -2; y < h + 2; ++y) for(int x = -2; x < w + 2; ++x) if(s0.type(x, y) == 2 && s0.label(x, y) == n.first) { sx += x; sy += y; ++k; }
            CHECK(std::fabs(st.nodeCenters_[n.first][0] - sx / k) < 1e-3 && std::fabs(st.nodeCenters_[n.first][1] - sy / k) < 1e-3, "node-center", "center of node " << n.first << " is (" << st.nodeCenters_[n.first][0] << "," << st.nodeCenters_[n.first][1] << ")");
        }
        p.reset(new SPyr(*plain, st));
        hash = binHash(b);
        verifyFlags("initially");
        verify(p->topLevel(), lev.back(), "initially");
        if(sd.doAutoProtection)
        {
            autoProtect();
            if(r.chance(0.5)) reprotect();
        }
        std::unique_ptr<SPyr::Level> held;
        for(int k = r.range(5, 60); k; --k)
        {
            int what = r.below(12);
            if(what < 8) step();
            else if(what < 10)
            {
                // protection, at some level
                std::unique_ptr<SPyr::Level> q;
                unsigned i = lev.size() - 1;
                if(!sd.doAutoProtection && r.chance(0.5)) { i = r.below(lev.size()); q.reset(p->getLevel(i)); }
                const CellStatistics &c = q ? q->cellStatistics() : p->topLevel().cellStatistics();
                if(lev[i].edge.empty()) continue;
                auto it = lev[i].edge.begin(); std::advance(it, r.below(lev[i].edge.size()));
                unsigned flag = r.chance(0.5) ? EPManual : EPCanny; bool on = r.chance(0.7);
                note(VF_STR((on ? "protect" : "unprotect") << " edge " << it->first << " at level " << i));
                bool changed = false;
                for(unsigned e : lev[i].parts[it->first]) { unsigned f = on ? flags[e] | flag : flags[e] & ~flag; changed = changed || f != flags[e]; flags[e] = f; }
                bool res = c.protectEdge(it->first, flag, on);
                CHECK(res == changed, "protect-result", "protectEdge() returned " << res);
                verifyFlags("after protecting an edge");
                if(lev[i].parts[it->first].size() > 1) stats().count("protected_merged_edges");
                stats().count("protections");
            }
            else if(what == 10 && sd.doAutoProtection)
                reprotect();
            else if(what == 10 && !sd.doAutoProtection)
            {
                unsigned i = r.below(lev.size());
                if(!held || r.chance(0.4)) held.reset(p->getLevel(i));
                else
                {
                    held->cellStatistics().clearLastChanges();
                    CSnap a = csnap(held->segmentation());
                    held->gotoLevel(i);
                    changes(a, csnap(held->segmentation()), held->cellStatistics(), "gotoLevel()");
                }
                note(VF_STR("visit level " << i));
                verify(*held, lev[i], "visited level");
                CSnap s = csnap(held->segmentation());
                CHECK(s == snaps[i], "level-differs", "level " << i << " differs: " << cdiff(snaps[i], s));
                stats().count("levels_visited");
            }
            else if(what == 11 && !sd.doAutoProtection && lev.size() > 1 && r.chance(0.5))
            {
                unsigned i = lev.size() - 1 - std::min<size_t>(lev.size() - 1, r.below(4));
                note(VF_STR("cutAbove(" << i << ")"));
                p->cutAbove(i); lev.resize(i + 1); snaps.resize(i + 1); held.reset();
                plain.reset(new CMap(p->topLevel().segmentation()));
                verify(p->topLevel(), lev.back(), "after cutAbove()");
            }
        }
        stats().count("pyramid_levels", lev.size());
    }

    // protection by edgels, for all edges of the top level
    void autoProtect()
    {
        const CSnap &s = snaps.back(); StatModel &t = lev.back();
        CRect u; bool any = false;
        for(auto &e : s.edges)
        {
            double n = sumCell(s, sd.edgelImage, 1, e.first).s;
            unsigned on = n > e.second.size * sd.autoProtectionThreshold ? EPCanny : 0;
            bool changed = false;
            for(unsigned k : t.parts[e.first])
            {
                unsigned f = (flags[k] & ~EPCanny) | on;
                if(!n && (flags[k] & EPCanny) && !on) stats().count("auto_cleared");
                changed = changed || f != flags[k]; flags[k] = f;
            }
            if(changed)
            {
                const CRect &q = e.second.b;
                if(!any) u = q;
                else { u.x1 = std::min(u.x1, q.x1); u.y1 = std::min(u.y1, q.y1); u.x2 = std::max(u.x2, q.x2); u.y2 = std::max(u.y2, q.y2); }
                any = true;
            }
            stats().count(on ? "auto_protected" : "auto_unprotected");
        }
        note("automatic protection");
        vigra::Rect2D res = p->topLevel().cellStatistics().initAutoProtection(p->topLevel().segmentation());
        verifyFlags("after automatic protection");
        CHECK(any ? CRect(res).str() == u.str() : res.isEmpty(), "protection-changes", "initAutoProtection() reports changes in " << CRect(res).str() << ", but the edges whose protection changed cover " << (any ? u.str() : "nothing"));
    }
    // the same with other edgels and another threshold
    void reprotect()
    {
        static const double thr[] = {0.3, 0.0, 0.5, 1.0}, dens[] = {0.0, 0.1, 0.5, 0.9};
        sd.autoProtectionThreshold = thr[r.below(4)];
        double d = dens[r.below(4)];
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) sd.edgelImage(x, y) = r.chance(d);
        note("new edgels");
        autoProtect();
        stats().count("auto_again");
    }

    void changes(const CSnap &a, const CSnap &b, const CellStatistics &c, const char *how)
    {
        CRect l(c.lastChanges());
        for(int y = -2; y < h + 2; ++y) for(int x = -2; x < w + 2; ++x)
            if(a.type(x, y) != b.type(x, y) || a.label(x, y) != b.label(x, y))
                CHECK(x >= l.x1 && y >= l.y1 && x < l.x2 && y < l.y2, "last-changes", how << " changed pixel (" << x << "," << y << ") outside of the recorded changes " << l.str());
    }

    void step()
    {
        COp o;
        bool valid = !r.chance(0.08);
        if(!pickCOp(r, *plain, o, valid)) return;
        note(o.str());
        CMap &seg = const_cast<CMap &>(p->topLevel().segmentation());
        if(!valid)
        {
            COpResult res = runCOp(*p, seg, o);
            CHECK(res.threw, "pyramid-accepted", o.str() << " should have been rejected");
            verify(p->topLevel(), lev.back(), "after a rejected operation");
            stats().count("ops_refused");
            return;
        }
        StatModel t = lev.back(); const CSnap b = snaps.back();
        CDart d(&*plain, o.dart);
        CDart nx(d); nx.nextSigma();
        unsigned left = d.leftFaceLabel(), right = d.rightFaceLabel(), node = d.startNodeLabel(), e1 = 0, e2 = 0;
        if(o.t != CO_ISOLATED) { e1 = d.edgeLabel(); if(o.t == CO_EDGES) e2 = nx.edgeLabel(); }
        bool clear = r.chance(0.5);
        if(clear) p->topLevel().cellStatistics().clearLastChanges();
        COpResult res = runCOp(*p, seg, o), pr = runCOp(*plain, *plain, o);
        CHECK(!res.threw && !pr.threw && res.label == pr.label, "pyramid-op", o.str() << " failed: " << res.what);
        CSnap a = csnap(seg), pa = csnap(*plain);
        CHECK(a == pa, "pyramid-op", o.str() << " has another effect on the pyramid than on a map: " << cdiff(pa, a));
        changes(b, a, p->topLevel().cellStatistics(), o.str().c_str());
        if(o.t == CO_FACES || o.t == CO_BRIDGE)
        {
            Sum u = t.face[left];
            if(o.t == CO_FACES) u.add(t.face[right]);
            u.add(sumCell(b, sd.preparedOriginal_, 1, e1));
            t.face.erase(left); t.face.erase(right); t.face[res.label] = u;
            t.edge.erase(e1); t.outer.erase(e1); t.parts.erase(e1);
        }
        else if(o.t == CO_EDGES)
        {
            unsigned gone = res.label == e1 ? e2 : e1;
            bool outer = !left || !right;
            t.edge[res.label].add(t.edge[gone]); t.edge[res.label].add(sumCell(b, sd.gradientMagnitude_, 2, node));
            t.outer[res.label] = outer;
            t.parts[res.label].insert(t.parts[gone].begin(), t.parts[gone].end());
            t.edge.erase(gone); t.outer.erase(gone); t.parts.erase(gone);
            if(sd.doAutoProtection)
            {
                const CRect &q = a.edges[res.label].b;
                if(q.x1 >= 0 && q.y1 >= 0 && q.x2 <= w && q.y2 <= h)
                {
                    unsigned on = sumCell(a, sd.edgelImage, 1, res.label).s > a.edges[res.label].size * sd.autoProtectionThreshold ? EPCanny : 0;
                    for(unsigned e : t.parts[res.label]) flags[e] = (flags[e] & ~EPCanny) | on;
                    stats().count(on ? "auto_protected" : "auto_unprotected");
                }
            }
            stats().count("edges_merged");
        }
        lev.push_back(t); snaps.push_back(a);
        verify(p->topLevel(), t, o.str().c_str());
        verifyFlags(o.str().c_str());
        hash = mix(hash, csnapHash(a)); stats().state(hash);
        stats().count("ops");
    }
};

int main(int argc, char **argv)
{
    std::cerr.rdbuf(0);
    std::map<std::string, CaseFn> p;
    p["C20"] = [](Rng &r, long long) { PyrCase c(r); c.run(); };
    p["C21"] = [](Rng &r, long long) { StatCase c(r); c.run(); };
    return runMain(argc, argv, p);
}
