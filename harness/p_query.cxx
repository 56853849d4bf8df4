// C09: point location, nearest nodes, navigation and positions on curves
#include "hist.hxx"
#include "vigra/map2d.hxx"
using namespace vf;

static double edgeDist(const Snap &s, const P2 &q)
{
    double d = 1e300;
    for(auto &e : s.edges) d = std::min(d, ptPolylineDist(q, e.second.p));
    return d;
}

// --- point location
static void verifyLocation(Rng &r, GeoMap &m, const Snap &s, int n)
{
    const GeoMap &cm = m;
    FaceLocator loc(s);
    std::vector<P2> anchors;
    for(auto &e : s.edges) anchors.push_back(e.second.p[r.below(e.second.p.size())]);
    for(int i = 0; i < n; ++i)
    {
        P2 q;
        int kind = r.below(5);
        if(kind == 0 && !anchors.empty()) { P2 a = r.pick(anchors); q = P2(a.first + r.uni(-0.6, 0.6), a.second + r.uni(-0.6, 0.6)); }
        else if(kind == 1) q = P2(r.range(-2, s.w + 1), r.range(-2, s.h + 1));           // pixel centres
        else if(kind == 2 && !anchors.empty()) { P2 a = r.pick(anchors); q = P2(r.uni(-3, s.w + 3), a.second); } // same height as a support point
        else q = P2(r.uni(-4, s.w + 4), r.uni(-4, s.h + 4));
        if(edgeDist(s, q) < 1e-6) continue;
        CellLabel want = loc.at(q);
        GeoMap::FacePtr f = m.faceAt(toV(q));
        GeoMap::ConstFacePtr cf = cm.faceAt(toV(q));
        CHECK(f && f->label() == want, "faceAt", "faceAt(" << q.first << ", " << q.second << ") = " << (f ? (int)f->label() : -1) << ", point lies in face " << want);
        CHECK(cf && cf->label() == want, "faceAt-const", "faceAt(" << q.first << ", " << q.second << ") const = " << (cf ? (int)cf->label() : -1) << ", point lies in face " << want);
        for(auto &x : s.faces)
            CHECK(m.face(x.first)->contains(toV(q)) == (x.first == want), "face-contains",
                  "face " << x.first << " contains(" << q.first << ", " << q.second << ") = " << m.face(x.first)->contains(toV(q)) << ", point lies in face " << want);
        stats().count("points_located");
        if(want) stats().count("points_in_finite_faces");
    }
}

// --- nearest node
static void verifyNearest(Rng &r, GeoMap &m, const Snap &s, int n)
{
    std::vector<P2> pos;
    for(auto &x : s.nodes) pos.push_back(x.second);
    for(int i = 0; i < n; ++i)
    {
        P2 q(r.uni(-4, s.w + 4), r.uni(-4, s.h + 4));
        if(!pos.empty() && r.chance(0.5)) { q = r.pick(pos); if(r.chance(0.5)) { q.first += r.uni(-1, 1); q.second += r.uni(-1, 1); } if(r.chance(0.2)) q.second = r.uni(0, s.h); }
        bool limited = r.chance(0.5);
        double lim = limited ? (r.chance(0.3) ? 1e-9 : r.uni(0, 20)) : 0;
        double best = 1e300;
        for(auto &p : pos) best = std::min(best, (p.first - q.first) * (p.first - q.first) + (p.second - q.second) * (p.second - q.second));
        if(limited && std::fabs(best - lim) < 1e-9 * (1 + lim)) continue;
        GeoMap::NodePtr np = limited ? m.nearestNode(toV(q), lim) : m.nearestNode(toV(q));
        bool expect = !pos.empty() && (!limited || best < lim);
        CHECK((bool)np == expect, "nearest-node-null", "nearestNode(" << q.first << ", " << q.second << (limited ? VF_STR(", " << lim) : std::string()) << ") " << (np ? "found a node" : "found nothing")
              << ", nearest node has squared distance " << best);
        if(!np) { stats().count("nearest_none"); continue; }
        CHECK(np->initialized() && m.node(np->label()) == np && s.nodes.count(np->label()), "nearest-node-removed", "nearestNode() returned a removed node");
        P2 p = s.nodes.at(np->label());
        double d = (p.first - q.first) * (p.first - q.first) + (p.second - q.second) * (p.second - q.second);
        CHECK(d <= best + 1e-12 * (1 + best), "nearest-node", "nearestNode(" << q.first << ", " << q.second << ") returned node " << np->label() << " at squared distance " << d << ", nearest one has " << best);
        stats().count("nearest_found");
    }
}

// --- navigation and contours
static void verifyNavigation(GeoMap &m, const Snap &s)
{
    auto near_ = [](double a, double b) { return std::fabs(a - b) <= 1e-7 * (1 + std::fabs(b)); };
    for(auto &x : s.sigma)
    {
        int l = x.first;
        GeoMap::Dart d(m.dart(l));
        CHECK(d.label() == l && (int)d.edgeLabel() == std::abs(l) && d.map() == &m, "dart-label", "dart " << l << " reports wrong label");
        CHECK(d.clone().nextAlpha().label() == -l && d.label() == l, "dart-alpha", "nextAlpha() of " << l);
        CHECK(d.clone().nextSigma().label() == x.second, "dart-sigma", "nextSigma() of " << l);
        CHECK(d.clone().nextSigma().prevSigma().label() == l && d.clone().prevSigma().nextSigma().label() == l, "dart-sigma-inverse", "prevSigma() of " << l);
        int phi = s.inv.at(-l);
        CHECK(d.clone().nextPhi().label() == phi, "dart-phi", "nextPhi() of " << l << " is " << d.clone().nextPhi().label() << " not " << phi);
        CHECK(d.clone().nextPhi().prevPhi().label() == l && d.clone().prevPhi().nextPhi().label() == l, "dart-phi-inverse", "prevPhi() of " << l);
        CHECK(m.dart(phi).startNodeLabel() == d.endNodeLabel(), "dart-phi-node", "nextPhi() of " << l << " does not start where it ends");
        if(s.init) CHECK(m.dart(phi).leftFaceLabel() == d.leftFaceLabel(), "dart-phi-face", "nextPhi() of " << l << " lies at another face");
        Poly p = s.dartPoly(l);
        CHECK(d.size() == p.size(), "dart-size", "size() of dart " << l);
        size_t k = 0;
        for(DartPointIter it(d.pointIter()); it.inRange(); ++it, ++k)
        {
            CHECK(k < p.size() && toP(*it) == p[k] && toP(d[k]) == p[k] && it->operator[](0) == p[k].first, "dart-points", "point " << k << " of dart " << l << " wrong");
            CHECK(!it.atEnd(), "dart-point-iter", "atEnd() == inRange()");
        }
        CHECK(k == p.size(), "dart-points", "iteration over dart " << l << " visits " << k << " of " << p.size() << " points");
        CHECK(near_(d.partialArea(), polyPartialArea(p)), "dart-partial-area", "partialArea() of dart " << l << " is " << d.partialArea() << " not " << polyPartialArea(p));
        if(std::abs(l) % 3) continue;
        // contour queries
        std::vector<int> orbit = s.phiOrbit(l);
        Poly c = s.orbitPoly(orbit);
        double len = 0; for(int o : orbit) len += polyLength(s.dartPoly(o));
        CHECK(near_(contourLength(d), len), "contour-length", "contourLength(" << l << ") = " << contourLength(d) << " not " << len);
        if(s.init)
        {
            double a = closedArea(c);
            CHECK(near_(contourArea(d), a), "contour-area", "contourArea(" << l << ") = " << contourArea(d) << " not " << a);
            if(std::fabs(a) > 1e-3)
                CHECK(near_(isoperimetricQuotient(d), len * len / (4 * M_PI * a)), "isoperimetric-quotient", "isoperimetricQuotient(" << l << ") = " << isoperimetricQuotient(d));
        }
        Vector2Polygon cp(contourPoly(d));
        c.push_back(c.front());
        Poly got; for(size_t i = 0; i < cp.size(); ++i) got.push_back(toP(cp[i]));
        CHECK(got == c, "contour-poly", "contourPoly(" << l << ") has " << got.size() << " points, expected " << c.size());
        CHECK(near_(cp.length(), len) && near_(cp.partialArea(), polyPartialArea(c)), "contour-poly-props", "contourPoly(" << l << ") has wrong cached length/area");
        for(int twice = 0; twice < 2; ++twice)
        {
            Poly it_;
            for(ContourPointIter it(d, twice); it.inRange(); ++it) { it_.push_back(toP(*it)); CHECK(it_.size() <= c.size(), "contour-point-iter", "ContourPointIter(" << l << ") does not end"); }
            Poly want(c); if(!twice) want.erase(want.begin());
            CHECK(it_ == want, "contour-point-iter", "ContourPointIter(" << l << ", " << twice << ") visits " << it_.size() << " points, expected " << want.size());
        }
        stats().count("contours");
    }
}

// --- DartPosition
struct PosModel
{
    Poly p; std::vector<double> al;
    PosModel(const Poly &q) : p(q) { al.push_back(0); for(size_t i = 1; i < q.size(); ++i) al.push_back(al.back() + dist(q[i-1], q[i])); }
    P2 at(double a) const
    {
        size_t k = 1; while(k + 1 < p.size() && al[k] < a) ++k;
        double t = al[k] > al[k-1] ? (a - al[k-1]) / (al[k] - al[k-1]) : 0;
        return P2(p[k-1].first + t * (p[k].first - p[k-1].first), p[k-1].second + t * (p[k].second - p[k-1].second));
    }
};

static void verifyPositions(Rng &r, GeoMap &m, const Snap &s)
{
    if(s.edges.empty()) return;
    std::vector<int> darts = dartList(s);
    int l = r.pick(darts);
    PosModel pm(s.dartPoly(l));
    for(size_t i = 1; i < pm.p.size(); ++i) if(dist(pm.p[i-1], pm.p[i]) < 1e-6) return;
    double L = pm.al.back();
    int nseg = pm.p.size() - 1;
    DartPosition dp(m.dart(l));
    int seg = 0; bool end = false; // expected state; seg = current segment
    double cur = 0;
    std::string ops;
    auto judge = [&](const char *what)
    {
        CHECK(dp.dartLabel() == l, "dp-dart", "dartLabel()");
        CHECK(std::fabs(dp.arcLength() - cur) < 1e-7 * (1 + L), "dp-arc-length", what << ": dart " << l << " arcLength() = " << dp.arcLength() << ", expected " << cur << " (" << ops << ")");
        P2 q = pm.at(cur);
        CHECK(dist(toP(dp()), q) < 1e-6 * (1 + L), "dp-position", what << ": dart " << l << " position (" << dp()[0] << ", " << dp()[1] << "), expected (" << q.first << ", " << q.second << ") at arc length " << cur << " (" << ops << ")");
        CHECK(dp.atEnd() == end, "dp-at-end", what << ": atEnd() = " << dp.atEnd() << " (" << ops << ")");
        CHECK((int)dp.segmentIndex() == seg, "dp-segment", what << ": segmentIndex() = " << dp.segmentIndex() << ", expected " << seg << " (" << ops << ")");
        if(!end)
            CHECK(toP(dp.segmentStart()) == pm.p[seg] && toP(dp.segmentEnd()) == pm.p[seg + 1] && std::fabs(dp.segmentLength() - dist(pm.p[seg], pm.p[seg + 1])) < 1e-9,
                  "dp-segment-points", what << ": segment end points wrong for segment " << seg << " (" << ops << ")");
        stats().count("dart_positions");
    };
    judge("start");
    int n = r.range(1, 12);
    for(int i = 0; i < n; ++i)
    {
        switch(r.below(5))
        {
        case 0:
        {
            if(r.chance(0.1))
            {
                ops += "gotoArcLength(-1) ";
                CHECK(!dp.gotoArcLength(-r.uni(0.01, 3)), "dp-goto-result", "gotoArcLength() succeeded for a negative arc length");
                end = false; seg = 0; cur = 0;
                judge("gotoArcLength(negative)");
                stats().count("goto_negative");
                break;
            }
            double a = r.chance(0.15) ? L + r.uni(0.01, 3) : r.chance(0.1) ? 0.0 : r.uni(0, L * 0.999);
            // stay clear of support points (either segment would do)
            bool amb = false; for(double x : pm.al) if(x > 0 && std::fabs(a - x) < 1e-6) amb = true;
            if(amb) break;
            ops += VF_STR("gotoArcLength(" << a << ") ");
            bool ok = dp.gotoArcLength(a);
            CHECK(ok == (a < L), "dp-goto-result", "gotoArcLength(" << a << ") on dart " << l << " of length " << L << " returned " << ok << " (" << ops << ")");
            if(a >= L) { end = true; seg = nseg - 1; cur = L; }
            else { end = false; cur = a; seg = 0; while(pm.al[seg + 1] < a) ++seg; }
            judge("gotoArcLength");
            if(ok) stats().count("goto_arc_length"); else stats().count("goto_beyond");
            break;
        }
        case 1:
        {
            ops += "gotoNextSegment ";
            bool ok = dp.gotoNextSegment();
            if(end) CHECK(!ok, "dp-next", "gotoNextSegment() at the end returned true");
            else
            {
                CHECK(ok == (seg + 1 < nseg), "dp-next", "gotoNextSegment() returned " << ok << " in segment " << seg << " of " << nseg << " (" << ops << ")");
                if(seg + 1 < nseg) { ++seg; cur = pm.al[seg]; } else { end = true; cur = L; }
            }
            judge("gotoNextSegment");
            break;
        }
        case 2:
        {
            ops += "gotoPrevSegment ";
            bool ok = dp.gotoPrevSegment();
            CHECK(ok == (end || seg > 0), "dp-prev", "gotoPrevSegment() returned " << ok << " in segment " << seg << (end ? " (at end)" : "") << " (" << ops << ")");
            if(end) { end = false; } else if(seg > 0) --seg;
            cur = pm.al[seg];
            judge("gotoPrevSegment");
            stats().count("goto_prev");
            break;
        }
        case 3:
        case 4:
        {
            if(end) break;
            bool leave = r.chance(0.5);
            P2 c = r.chance(0.5) ? pm.p[0] : pm.at(cur);
            double rad = r.uni(0.05, 1.2 * (L + 0.1));
            if(r.chance(0.5)) rad = r.uni(0.05, 2);
            // model: first support point at or after the end of the current
            // segment which lies outside the circle
            int k = seg; bool amb = false;
            while(k < nseg)
            {
                double d = dist(pm.p[k + 1], c);
                if(std::fabs(d - rad) < 1e-6) amb = true;
                if(d >= rad) break;
                ++k;
            }
            if(amb) break;
            if(leave)
            {
                ops += VF_STR("leaveCircle(" << rad << ") ");
                bool ok = dp.leaveCircle(toV(c), rad * rad);
                CHECK(ok == (k < nseg), "dp-leave", "leaveCircle() returned " << ok << " (" << ops << ")");
                if(k < nseg) { seg = k; cur = pm.al[k + 1]; } else { end = true; seg = nseg - 1; cur = L; }
                judge("leaveCircle");
                stats().count("leave_circle");
            }
            else
            {
                if(k < nseg && dist(pm.p[k], c) > rad - 1e-3) break; // segment starts outside: result not defined
                ops += VF_STR("intersectCircle(" << rad << ") ");
                bool ok = dp.intersectCircle(toV(c), rad * rad);
                CHECK(ok == (k < nseg), "dp-intersect", "intersectCircle() returned " << ok << " (" << ops << ")");
                if(k < nseg)
                {
                    double lo = 0, hi = 1;
                    for(int it = 0; it < 80; ++it)
                    {
                        double t = (lo + hi) / 2;
                        P2 q(pm.p[k].first + t * (pm.p[k+1].first - pm.p[k].first), pm.p[k].second + t * (pm.p[k+1].second - pm.p[k].second));
                        (dist(q, c) < rad ? lo : hi) = t;
                    }
                    seg = k; cur = pm.al[k] + lo * (pm.al[k+1] - pm.al[k]);
                    judge("intersectCircle");
                }
                else { end = true; seg = nseg - 1; cur = L; judge("intersectCircle"); }
                stats().count("intersect_circle");
            }
            break;
        }
        }
    }
}

static void caseQuery(Rng &r, long long)
{
    Subject sub = makeSubject(r, -1, 0.15);
    GeoMap &m = *sub.map;
    Snap s = takeSnap(m);
    int steps = r.range(0, 14);
    for(int i = 0; i <= steps; ++i)
    {
        if(i)
        {
            int k = r.below(10);
            if(k == 0 && !s.nodes.empty())
            {
                // another node at exactly the position of an existing one
                auto it = s.nodes.begin(); std::advance(it, r.below(s.nodes.size()));
                note(VF_STR("addNode at position of node " << it->first));
                m.addNode(toV(it->second));
                stats().count("coincident_nodes");
            }
            else if(k == 1 && !s.hasImg)
            {
                std::vector<CellLabel> iso;
                for(auto &n : s.nodes) if(m.node(n.first)->isIsolated()) iso.push_back(n.first);
                if(!iso.empty())
                {
                    CellLabel n = r.pick(iso);
                    auto it = s.nodes.begin(); std::advance(it, r.below(s.nodes.size()));
                    P2 p = r.chance(0.5) ? it->second : P2(r.uni(0, s.w), r.uni(0, s.h));
                    note(VF_STR("setPosition of isolated node " << n << " to " << p.first << "," << p.second));
                    m.node(n)->setPosition(toV(p));
                    stats().count("nodes_moved");
                }
            }
            else if(k == 2)
            {
                std::vector<CellLabel> iso;
                for(auto &n : s.nodes) if(m.node(n.first)->isIsolated()) iso.push_back(n.first);
                if(!iso.empty()) { CellLabel n = r.pick(iso); note(VF_STR("removeIsolatedNode " << n)); m.removeIsolatedNode(*m.node(n)); stats().count("nodes_removed"); }
            }
            else
            {
                Op op;
                if(!pickOp(r, s, randomKind(r), op)) continue;
                note(op.str());
                runOp(m, op);
            }
            s = takeSnap(m);
        }
        stats().state(topoHash(s));
        if(r.chance(0.3)) touchCaches(r, m, s);
        verifyNearest(r, m, s, 12);
        if(r.chance(0.5)) verifyLocation(r, m, s, 8);
        if(r.chance(0.4)) verifyNavigation(m, s);
        verifyPositions(r, m, s);
        verifyPositions(r, m, s);
    }
    if(r.chance(0.2))
    {
        GeoMap copy(m);
        verifyNearest(r, copy, s, 12);
        verifyLocation(r, copy, s, 8);
    }
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> p;
    p["C09"] = caseQuery;
    return runMain(argc, argv, p);
}
