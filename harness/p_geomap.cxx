// Histories of Euler operations: properties C01..C08
#include "hist.hxx"
using namespace vf;

static bool thorough() { return opts().tier == "thorough"; }

// C01: planar subdivision stays valid over arbitrary histories
static void caseTopology(Rng &r, long long)
{
    Subject s = makeSubject(r, -1);
    GeoMap &m = *s.map;
    Snap cur = takeSnap(m);
    verifyGraph(m, cur, !s.crack); verifyFaces(m, cur, true);
    stats().state(topoHash(cur));
    int n = r.range(10, 50);
    for(int i = 0; i < n; ++i)
    {
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        note(op.str());
        OpResult res = runOp(m, op);
        CHECK(!res.threw, "valid-op-threw", op.str() << " raised: " << res.what);
        cur = takeSnap(m);
        verifyGraph(m, cur, !s.crack);
        verifyFaces(m, cur, true);
        CHECK(m.checkConsistency(), "checkConsistency", "checkConsistency() fails after " << op.str());
        stats().count(std::string("op_") + opNames[op.kind]);
        stats().state(topoHash(cur));
        stats().sample(VF_STR(s.desc << ": after " << op.str() << " V=" << cur.nodes.size() << " E=" << cur.edges.size() << " F=" << cur.faces.size()));
    }
    for(auto &f : cur.faces)
        if(f.second.contours.size() > 1) stats().count("faces_with_holes");
}

// C02: exact effect of each operation; C04: events
static void caseTransition(Rng &r, long long, bool hooks)
{
    Subject s = makeSubject(r, -1);
    GeoMap &m = *s.map;
    std::unique_ptr<HookMonitor> hm;
    if(hooks) hm.reset(new HookMonitor(m));
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
        if(r.chance(0.3)) (*it)->setFlag(r.chance(0.5) ? r.range(1, 0xffff) : r.range(1, 0xfffffff));
    for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it)
        if(r.chance(0.3)) (*it)->setFlag(r.chance(0.5) ? r.range(1, 0xffff) : r.range(1, 0xfffffff));
    Snap cur = takeSnap(m);
    int n = r.range(10, 50);
    for(int i = 0; i < n; ++i)
    {
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        if(r.chance(0.3)) touchCaches(r, m, cur);
        note(op.str());
        Snap atPost; bool post = false;
        bool look = hm && r.chance(0.3);
        std::string bad;
        if(hm)
        {
            hm->clear();
            hm->onEvent = nullptr;
            if(look) hm->onEvent = [&](const std::string &n)
            {
                // listeners may look at the map: nothing has happened yet in
                // 'pre' callbacks, everything has in 'post' callbacks
                if(n.compare(0, 3, "pre") == 0)
                {
                    std::string d = snapDiff(cur, takeSnap(m));
                    if(!d.empty() && bad.empty()) bad = n + ": map already changed: " + d;
                    stats().count("looked_at_pre");
                }
                else if(n.compare(0, 4, "post") == 0) { atPost = takeSnap(m); post = true; }
            };
        }
        OpResult res = runOp(m, op);
        if(hm) hm->onEvent = nullptr;
        Snap after = takeSnap(m);
        checkTransition(cur, after, op, res, hm.get());
        CHECK(bad.empty(), "pre-callback-too-late", op.str() << ": " << bad);
        if(post)
        {
            // pixels are handed over after the post callback (associatePixels)
            for(auto &f : atPost.faces) if(after.faces.count(f.first)) f.second.pixelArea = after.faces[f.first].pixelArea;
            std::string d = snapDiff(atPost, after, true);
            CHECK(d.empty(), "post-callback-too-early", op.str() << ": map changed after the post callback: " << d);
            stats().count("looked_at_post");
        }
        cur = after;
        stats().state(topoHash(cur));
        stats().sample(VF_STR(s.desc << ": " << op.str() << (hm ? " events " + hm->str() : std::string())));
    }
}

// C05: lazily cached geometry is never stale
static void caseCaches(Rng &r, long long)
{
    Subject s = makeSubject(r, -1);
    GeoMap &m = *s.map;
    Snap cur = takeSnap(m);
    int n = r.range(10, 50), mid = s.crack && !cur.hasImg && r.chance(0.5) ? r.below(10) : -1;
    for(int i = 0; i < n; ++i)
    {
        if(i == mid)
        {
            touchCaches(r, m, cur);
            note("crackEdgesToMidcracks");
            crackEdgesToMidcracks(m);
            cur = takeSnap(m);
            verifyCaches(m, cur);
            verifyCachedScanlines(m, cur);
            stats().count("midcracks");
        }
        if(!cur.hasImg && !cur.nodes.empty() && r.chance(0.15)) // slightly move a node together with its edges
        {
            auto it = cur.nodes.begin(); std::advance(it, r.below(cur.nodes.size()));
            P2 to(it->second.first + r.uni(-0.01, 0.01), it->second.second + r.uni(-0.01, 0.01));
            if(r.chance(0.5)) touchCaches(r, m, cur);
            note(VF_STR("setPosition(node " << it->first << ")"));
            m.node(it->first)->setPosition(toV(to));
            Snap want(cur), got = takeSnap(m);
            want.nodes[it->first] = to;
            for(auto &e : want.edges) { if(e.second.s == it->first) e.second.p.front() = to; if(e.second.e == it->first) e.second.p.back() = to; }
            for(auto &f : want.faces) f.second.area = got.faces[f.first].area;
            std::string d = snapDiff(want, got);
            CHECK(d.empty(), "setPosition", "moving node " << it->first << ": " << d);
            GeoMap::NodePtr nn = m.nearestNode(toV(to));
            CHECK(nn && nn->label() == it->first, "setPosition-nearest", "moved node " << it->first << " is not found at its new position");
            cur = got;
            if(r.chance(0.5)) verifyCaches(m, cur);
            if(r.chance(0.2)) verifyCachedScanlines(m, cur);
            stats().count("op_setPosition");
            continue;
        }
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        if(r.chance(0.5)) touchCaches(r, m, cur);
        note(op.str());
        OpResult res = runOp(m, op);
        CHECK(!res.threw, "valid-op-threw", op.str() << " raised: " << res.what);
        cur = takeSnap(m);
        if(r.chance(0.4)) verifyCaches(m, cur);
        if(r.chance(0.15)) verifyCachedScanlines(m, cur);
        stats().state(topoHash(cur));
        stats().count(std::string("op_") + opNames[op.kind]);
    }
    verifyCaches(m, cur);
    verifyCachedScanlines(m, cur);
}

// C06: label image follows the geometry
static void caseLabelImage(Rng &r, long long)
{
    Subject s = makeSubject(r, 1);
    GeoMap &m = *s.map;
    Snap cur = takeSnap(m);
    verifyLabelImage(m, cur);
    int n = r.range(10, 40);
    for(int i = 0; i < n; ++i)
    {
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        note(op.str());
        OpResult res = runOp(m, op);
        CHECK(!res.threw, "valid-op-threw", op.str() << " raised: " << res.what);
        cur = takeSnap(m);
        verifyLabelImage(m, cur);
        stats().state(imgHash(cur));
        stats().count(std::string("op_") + opNames[op.kind]);
    }
}

// C03: vetoed and invalid operations have no effect
static void caseRefused(Rng &r, long long)
{
    Subject s = makeSubject(r, -1);
    GeoMap &m = *s.map;
    HookMonitor hm(m);
    Snap cur = takeSnap(m);
    int n = r.range(10, 40);
    for(int i = 0; i < n; ++i)
    {
        int what = r.below(10);
        hm.clear();
        if(what < 4) // vetoed operation
        {
            Op op;
            if(!pickOp(r, cur, randomKind(r), op)) continue;
            if(op.kind == OP_SPLIT_EDGE || op.kind == OP_ADD_NODE) continue; // cannot be vetoed
            // a second listener must not be able to override the veto, nor be needed
            boost::signals2::scoped_connection extra(m.preMergeFacesHook.connect([](const GeoMap::Dart &) { return true; }));
            boost::signals2::scoped_connection extra2(m.preRemoveBridgeHook.connect(boost::signals2::at_front, [](const GeoMap::Dart &) { return true; }) );
            hm.vetoAt = (op.kind == OP_MERGE_EDGES) ? r.below(2) : 0;
            note("VETO " + op.str());
            OpResult res = runOp(m, op);
            CHECK(hm.vetoed, "veto-not-asked", op.str() << ": listener was not asked (" << hm.str() << ")");
            CHECK(!res.threw, "veto-threw", op.str() << ": vetoed operation raised " << res.what);
            CHECK(res.null, "veto-ignored", op.str() << ": vetoed operation returned a result");
            CHECK(hm.ev.back().find("VETO") != std::string::npos, "event-after-veto", op.str() << ": events after veto: " << hm.str());
            Snap after = takeSnap(m);
            std::string d = snapDiff(cur, after);
            CHECK(d.empty(), "veto-not-without-effect", "vetoed " << op.str() << " changed the map: " << d);
            verifyGraph(m, after, !s.crack); verifyFaces(m, after, false); verifyCaches(m, after);
            CHECK(m.checkConsistency(), "checkConsistency", "inconsistent after vetoed " << op.str());
            stats().count(std::string("vetoed_") + opNames[op.kind]);
            stats().state(mix(topoHash(after), 7 + op.kind));
            continue;
        }
        if(what < 8) // invalid operation
        {
            std::vector<int> darts = dartList(cur);
            std::string name; bool threw = false;
            int k = r.below(12);
            std::vector<int> c;
            std::function<void()> f;
            switch(k)
            {
            case 0: for(int d : darts) if(cur.left(d) == cur.left(-d)) c.push_back(d);
                name = "mergeFaces(bridge)"; if(!c.empty()) { int d = r.pick(c); f = [&m, d] { m.mergeFaces(m.dart(d)); }; } break;
            case 1: for(int d : darts) if(cur.left(d) != cur.left(-d)) c.push_back(d);
                name = "removeBridge(non-bridge)"; if(!c.empty()) { int d = r.pick(c); f = [&m, d] { m.removeBridge(m.dart(d)); }; } break;
            case 2: for(int d : darts) { int x = cur.sigma[d]; if(x == d || cur.sigma[x] != d) c.push_back(d); }
                name = "mergeEdges(degree != 2)"; if(!c.empty()) { int d = r.pick(c); f = [&m, d] { m.mergeEdges(m.dart(d)); }; } break;
            case 3: for(int d : darts) { int x = cur.sigma[d]; if(x == -d && cur.sigma[x] == d) c.push_back(d); }
                name = "mergeEdges(loop)"; if(!c.empty()) { int d = r.pick(c); f = [&m, d] { m.mergeEdges(m.dart(d)); }; } break;
            case 4: name = "splitEdge(bad segment)"; if(!darts.empty()) { int d = std::abs(r.pick(darts)), off = r.below(3);
                f = [&m, d, off] { GeoMap::EdgePtr e = m.edge(d); m.splitEdge(*e, e->size() - 1 + off, Vector2(1, 1)); }; } break;
            case 5: for(CellLabel l = 1; l < cur.maxE; ++l) if(!cur.edges.count(l)) c.push_back(l);
                name = "op on removed edge"; if(!c.empty()) { int d = r.pick(c) * (r.chance(0.5) ? 1 : -1), w = r.below(3);
                f = [&m, d, w] { if(w == 0) m.mergeFaces(m.dart(d)); else if(w == 1) m.removeBridge(m.dart(d)); else m.mergeEdges(m.dart(d)); }; } break;
            case 6: name = "addEdge after initializeMap"; if(!darts.empty()) { int d1 = r.pick(darts), d2 = r.pick(darts);
                f = [&m, d1, d2] { Vector2Array p; p.push_back(m.dart(d1)[0]); p.push_back(m.dart(d2)[0]); m.addEdge(GeoMap::SigmaAnchor(m.dart(d1)), GeoMap::SigmaAnchor(m.dart(d2)), p); }; } break;
            case 7: name = "sortEdgesDirectly after initializeMap"; f = [&m] { m.sortEdgesDirectly(); }; break;
            case 8: name = "second initializeMap"; f = [&m] { m.initializeMap(false); }; break;
            case 9: name = "setSigmaMapping after initializeMap"; f = [&m] { GeoMap::SigmaMapping sm(m.sigmaMapping()); m.setSigmaMapping(sm); }; break;
            case 10: name = "cell access beyond the label range"; { int w = r.below(3), off = r.below(4);
                f = [&m, w, off] { if(w == 0) m.node(m.maxNodeLabel() + off); else if(w == 1) m.edge(m.maxEdgeLabel() + off); else m.face(m.maxFaceLabel() + off); }; } break;
            case 11: name = "changeFaceLabels with invalid mapping"; if(cur.faces.size() >= 2) {
                std::vector<CellLabel> nl(cur.maxF); for(CellLabel l = 0; l < cur.maxF; ++l) nl[l] = l;
                std::vector<CellLabel> ex; for(auto &x : cur.faces) ex.push_back(x.first);
                CellLabel mx = cur.maxF; int w = r.below(3);
                // shuffle first so that partially applied relabellings show
                { std::vector<CellLabel> t(nl); std::vector<int> perm; for(auto &x : cur.faces) if(x.first) perm.push_back(x.first);
                  std::vector<int> p2(perm); r.shuffle(p2); for(size_t j = 0; j < perm.size(); ++j) nl[perm[j]] = p2[j]; }
                if(w == 0) nl[ex[1 + r.below(ex.size() - 1)]] = mx + r.below(3);
                else if(w == 1) { int a = r.below(ex.size()), b = r.below(ex.size()); if(a == b) break; nl[ex[a]] = nl[ex[b]]; }
                else nl.push_back(cur.maxF);
                f = [&m, nl, mx] { m.changeFaceLabels(nl, mx); }; } break;
            }
            if(!f) continue;
            note("INVALID " + name);
            try { f(); } catch(std::exception &) { threw = true; }
            CHECK(threw, "invalid-op-accepted", name << " did not raise an error");
            CHECK(hm.ev.empty(), "event-for-invalid-op", name << " reported events: " << hm.str());
            Snap after = takeSnap(m);
            std::string d = snapDiff(cur, after);
            CHECK(d.empty(), "invalid-op-not-without-effect", "rejected " << name << " changed the map: " << d);
            for(auto &x : after.faces) CHECK(m.face(x.first)->label() == x.first, "invalid-op-not-without-effect", "rejected " << name << " left face " << x.first << " with label " << m.face(x.first)->label());
            stats().count("invalid_" + name);
            stats().state(mix(topoHash(after), 100 + k));
            continue;
        }
        if(what == 8) // isolated node stays if its removal is vetoed, rest of the operation is done
        {
            Op op; std::vector<Op> c;
            for(int d : dartList(cur))
            {
                bool bridge = cur.left(d) == cur.left(-d);
                bool leaf = bridge ? (cur.sigma[d] == d || cur.sigma[-d] == -d)
                                   : (cur.startNode(d) == cur.startNode(-d) && cur.sigma[d] == -d && cur.sigma[-d] == d);
                if(leaf) { op = Op(); op.kind = bridge ? OP_REMOVE_BRIDGE : OP_MERGE_FACES; op.dart = d; c.push_back(op); }
            }
            if(c.empty()) continue;
            op = r.pick(c);
            hm.vetoHook = "removeNode"; hm.vetoAt = 0;
            note("VETO removeNode in " + op.str());
            OpResult res = runOp(m, op);
            CHECK(!res.threw && !res.null, "node-veto-aborts-op", op.str() << " did not succeed when only the removal of the isolated node was vetoed");
            CHECK(hm.vetoed, "veto-not-asked", op.str() << ": removeNode listener not asked");
            Snap after = takeSnap(m);
            int kept = 0;
            for(auto &nd : after.nodes)
                if((nd.first == cur.startNode(op.dart) || nd.first == cur.startNode(-op.dart)) && m.node(nd.first)->isIsolated()) ++kept;
            CHECK(kept == 1, "node-veto-ignored", op.str() << ": vetoed node removal, but " << kept << " isolated end nodes remain");
            verifyGraph(m, after, !s.crack); verifyFaces(m, after, true);
            cur = after;
            stats().count("vetoed_node_removal");
            continue;
        }
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        note(op.str());
        OpResult res = runOp(m, op);
        CHECK(!res.threw && !res.null, "valid-op-threw", op.str() << " raised: " << res.what);
        cur = takeSnap(m);
    }
}

// C07: label image and face labels can be rebuilt at any time
static void caseRebuild(Rng &r, long long)
{
    Subject s = makeSubject(r, -1);
    GeoMap &m = *s.map;
    Snap cur = takeSnap(m);
    int n = r.range(8, 30);
    for(int i = 0; i < n; ++i)
    {
        int what = r.below(10);
        if(what < 2)
        {
            // switching the label image off and on again reproduces it
            std::vector<int> old(cur.img);
            std::map<CellLabel, unsigned int> px;
            bool had = cur.hasImg;
            for(auto &f : cur.faces) px[f.first] = f.second.pixelArea;
            note("toggle label image");
            if(had)
            {
                m.setHasLabelImage(false);
                CHECK(!m.hasLabelImage(), "label-image-still-there", "setHasLabelImage(false) ineffective");
                if(r.chance(0.5)) // operations while there is no label image
                {
                    m.setHasLabelImage(true);
                    Snap a = takeSnap(m);
                    std::string d = imgDiff(old, a.img, a.w);
                    CHECK(d.empty(), "label-image-rebuild", "rebuilt label image differs (old vs. rebuilt): " << d);
                    for(auto &f : a.faces) CHECK(f.second.pixelArea == px[f.first], "pixel-area-rebuild", "pixelArea of face " << f.first << " was " << px[f.first] << ", is " << f.second.pixelArea << " after rebuild");
                    stats().count("rebuilds_compared");
                }
            }
            else
            {
                m.setHasLabelImage(true);
                CHECK(m.hasLabelImage(), "label-image-not-created", "setHasLabelImage(true) ineffective");
                stats().count("rebuilds");
            }
            cur = takeSnap(m);
            verifyLabelImage(m, cur);
            stats().state(imgHash(cur));
            continue;
        }
        if(what < 4)
        {
            // consistent renaming of all faces
            std::vector<CellLabel> nl(cur.maxF, 0);
            std::vector<CellLabel> ex; for(auto &x : cur.faces) if(x.first) ex.push_back(x.first);
            CellLabel mx = r.chance(0.5) ? ex.size() + 1 : cur.maxF + r.below(3);
            std::vector<CellLabel> to; for(CellLabel l = 1; l < mx; ++l) to.push_back(l);
            r.shuffle(to);
            nl[0] = 0;
            for(size_t j = 0; j < ex.size(); ++j) nl[ex[j]] = to[j];
            note("changeFaceLabels");
            m.changeFaceLabels(nl, mx);
            Snap a = takeSnap(m);
            CHECK(a.maxF == mx, "relabel-range", "maxFaceLabel() is " << a.maxF << " instead of " << mx);
            Snap x(cur);
            x.maxF = mx; x.faces.clear();
            for(auto &f : cur.faces) x.faces[nl[f.first]] = f.second;
            for(auto &e : x.edges) { e.second.l = nl[e.second.l]; e.second.r = nl[e.second.r]; }
            for(int &v : x.img) if(v >= 0) v = nl[v];
            std::string d = snapDiff(x, a);
            CHECK(d.empty(), "relabel-not-isomorphic", "map after changeFaceLabels differs from the renamed one: " << d);
            verifyFaces(m, a, false);
            if(a.hasImg) verifyLabelImage(m, a);
            CHECK(m.checkConsistency(), "checkConsistency", "inconsistent after changeFaceLabels");
            cur = a;
            stats().count("relabelings");
            stats().state(topoHash(cur));
            continue;
        }
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        note(op.str());
        OpResult res = runOp(m, op);
        CHECK(!res.threw && !res.null, "valid-op-threw", op.str() << " raised: " << res.what);
        cur = takeSnap(m);
        if(cur.hasImg) verifyLabelImage(m, cur);
        stats().count(std::string("op_") + opNames[op.kind]);
    }
}

// C08: copies are equal and independent
static void caseCopy(Rng &r, long long)
{
    Subject s = makeSubject(r, -1);
    std::shared_ptr<GeoMap> m = s.map;
    Snap cur = takeSnap(*m);
    for(int round = 0; round < 3; ++round)
    {
        int n = r.range(0, 15);
        for(int i = 0; i < n; ++i)
        {
            Op op;
            if(!pickOp(r, cur, randomKind(r), op)) continue;
            note(op.str());
            runOp(*m, op);
            cur = takeSnap(*m);
        }
        if(r.chance(0.5)) touchCaches(r, *m, cur);
        note("copy");
        std::shared_ptr<GeoMap> c(new GeoMap(*m));
        Snap cs = takeSnap(*c);
        std::string d = snapDiff(cur, cs);
        CHECK(d.empty(), "copy-differs", "copy differs from original: " << d);
        CHECK(c->edgesSorted() == m->edgesSorted() && c->imageSize() == m->imageSize(), "copy-attributes", "copy has different state flags / image size");
        verifyGraph(*c, cs, !s.crack); verifyFaces(*c, cs, true); verifyCaches(*c, cs);
        if(cs.hasImg) verifyLabelImage(*c, cs);
        // same history on both gives the same result
        uint64_t seed = r.next();
        Rng r1(seed);
        int k = r.range(1, 12);
        Snap snapM = cur, snapC = cs;
        bool both = r.chance(0.5), onCopy = r.chance(0.5);
        for(int i = 0; i < k; ++i)
        {
            Op op;
            if(!pickOp(r1, snapC, randomKind(r1), op)) continue;
            note((both ? "both: " : (onCopy ? "copy only: " : "original only: ")) + op.str());
            if(both)
            {
                OpResult a = runOp(*m, op), b = runOp(*c, op);
                CHECK(a.threw == b.threw && a.null == b.null && a.label == b.label, "copy-diverges", op.str() << " gives different results on original and copy");
                snapM = takeSnap(*m); snapC = takeSnap(*c);
                std::string d = snapDiff(snapM, snapC);
                CHECK(d.empty(), "copy-diverges", "after " << op.str() << " on both, original and copy differ: " << d);
                stats().count("ops_on_both");
            }
            else
            {
                GeoMap &t = onCopy ? *c : *m, &o = onCopy ? *m : *c;
                runOp(t, op);
                snapC = takeSnap(t);
                Snap os = takeSnap(o);
                std::string d = snapDiff(cur, os);
                CHECK(d.empty(), "copy-not-independent", op.str() << " on " << (onCopy ? "copy" : "original") << " changed the other map: " << d);
                verifyCaches(o, os);
                verifyCaches(t, snapC);
                stats().count("ops_on_one");
            }
            stats().state(topoHash(snapC));
        }
        // lifetime: one of the two dies, the other one stays intact
        Snap keepSnap;
        if(r.chance(0.5)) { std::swap(m, c); }
        keepSnap = takeSnap(*m);
        GeoMap::NodePtr survivingNode; GeoMap::EdgePtr survivingEdge; GeoMap::FacePtr survivingFace;
        if(c->nodeCount()) survivingNode = *c->nodesBegin();
        if(c->edgeCount()) survivingEdge = *c->edgesBegin();
        survivingFace = c->face(0);
        s.map.reset();
        c.reset();
        if(survivingNode) CHECK(!survivingNode->initialized(), "cell-outlives-map", "node handle still claims to belong to a destroyed map");
        if(survivingEdge) CHECK(!survivingEdge->initialized(), "cell-outlives-map", "edge handle still claims to belong to a destroyed map");
        CHECK(!survivingFace->initialized(), "cell-outlives-map", "face handle still claims to belong to a destroyed map");
        cur = takeSnap(*m);
        std::string dd = snapDiff(keepSnap, cur);
        CHECK(dd.empty(), "copy-not-independent", "destroying one map changed the other: " << dd);
        verifyGraph(*m, cur, !s.crack); verifyFaces(*m, cur, false);
    }
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> p;
    p["C01"] = caseTopology;
    p["C02"] = [](Rng &r, long long i) { caseTransition(r, i, false); };
    p["C03"] = caseRefused;
    p["C07"] = caseRebuild;
    p["C08"] = caseCopy;
    p["C04"] = [](Rng &r, long long i) { caseTransition(r, i, true); };
    p["C05"] = caseCaches;
    p["C06"] = caseLabelImage;
    return runMain(argc, argv, p);
}
