// Geometry, random planar map generation, snapshots and consistency
// monitors for the GeoMap library.  All oracles work on data obtained
// through the public API and recompute geometry independently.
#ifndef VERIF_GM_HXX
#define VERIF_GM_HXX

#include "common.hxx"
#include "geom.hxx"
#include <vigra/config.hxx>
#include "cppmap.hxx"
#include "cppmap_utils.hxx"
#include "crackedgemap.hxx"

namespace vf {

inline P2 toP(const Vector2 &v) { return P2(v[0], v[1]); }
inline Vector2 toV(const P2 &p) { return Vector2(p.first, p.second); }
inline Vector2Array toArray(const Poly &p)
{
    Vector2Array r;
    for(size_t i = 0; i < p.size(); ++i) r.push_back(toV(p[i]));
    return r;
}
/********************************************************************/
/* random planar subdivisions                                       */
/********************************************************************/

struct SpecEdge { int s, e; Poly p; };

struct MapSpec
{
    int w, h;
    bool snapped;       // all coordinates are multiples of 0.5
    std::vector<P2> nodes;
    std::vector<SpecEdge> edges;

    static constexpr double EPS = 0.08;
    static constexpr double MINANGLE = 0.16;

    bool nodeOk(const P2 &p) const
    {
        for(auto &n : nodes) if(dist(n, p) < 2 * EPS) return false;
        for(auto &e : edges) if(ptPolylineDist(p, e.p) < 2 * EPS) return false;
        return true;
    }
    // distance criterion for two segments, allowing a common end point
    static bool segPairOk(const P2 &a, const P2 &b, const P2 &c, const P2 &d, const P2 *ok1, const P2 *ok2 = 0)
    {
        const P2 *s = 0, *u = 0, *v = 0;
        int shared = 0;
        if(a == c) { ++shared; s = &a; u = &b; v = &d; }
        if(a == d) { ++shared; s = &a; u = &b; v = &c; }
        if(b == c) { ++shared; s = &b; u = &a; v = &d; }
        if(b == d) { ++shared; s = &b; u = &a; v = &c; }
        if(shared > 1) return false; // identical segments
        if(shared == 1)
        {
            if(!((ok1 && *s == *ok1) || (ok2 && *s == *ok2))) return false;
            double a1 = std::atan2(u->second - s->second, u->first - s->first);
            double a2 = std::atan2(v->second - s->second, v->first - s->first);
            double da = std::fabs(a1 - a2);
            if(da > M_PI) da = 2 * M_PI - da;
            return da > MINANGLE;
        }
        return segSegDist(a, b, c, d) >= EPS;
    }
    bool edgeOk(int s, int e, const Poly &p) const
    {
        if(p.size() < 2) return false;
        for(size_t i = 1; i < p.size(); ++i)
            if(dist(p[i-1], p[i]) < 2 * EPS) return false;
        if(s == e && p.size() < 4) return false;
        // interior self distance
        for(size_t i = 1; i < p.size(); ++i)
            for(size_t j = i + 1; j < p.size(); ++j)
                if(!segPairOk(p[i-1], p[i], p[j-1], p[j], j == i + 1 ? &p[i] : 0, s == e && i == 1 && j == p.size() - 1 ? &p[0] : 0)) return false;
        // nodes
        for(size_t n = 0; n < nodes.size(); ++n)
        {
            if((int)n == s || (int)n == e)
            {
                for(size_t i = 1; i < p.size(); ++i)
                {
                    if(p[i-1] == nodes[n] || p[i] == nodes[n]) continue;
                    if(ptSegDist(nodes[n], p[i-1], p[i]) < EPS) return false;
                }
            }
            else if(ptPolylineDist(nodes[n], p) < EPS) return false;
        }
        for(auto &o : edges)
            for(size_t i = 1; i < p.size(); ++i)
                for(size_t j = 1; j < o.p.size(); ++j)
                    if(!segPairOk(p[i-1], p[i], o.p[j-1], o.p[j], &nodes[s], &nodes[e])) return false;
        return true;
    }
    bool tryEdge(int s, int e, const Poly &inner)
    {
        Poly p; p.push_back(nodes[s]);
        p.insert(p.end(), inner.begin(), inner.end());
        p.push_back(nodes[e]);
        if(!edgeOk(s, e, p)) return false;
        SpecEdge se; se.s = s; se.e = e; se.p = p;
        edges.push_back(se);
        return true;
    }
};

struct GenOptions
{
    int maxNodes = 14, tries = 60;
    bool isolated = true;
    bool outside = true;   // allow geometry outside the image
    int snapped = -1;      // -1: random
    GenOptions() {}
};

inline double snapc(double v, bool snapped) { return snapped ? std::floor(v * 2 + 0.5) / 2 : v; }

inline P2 randPos(Rng &r, const MapSpec &m, double margin)
{
    double x = r.uni(-margin, m.w - 1 + margin), y = r.uni(-margin, m.h - 1 + margin);
    return P2(snapc(x, m.snapped), snapc(y, m.snapped));
}

inline MapSpec genSpec(Rng &r, const GenOptions &go = GenOptions())
{
    MapSpec m;
    m.w = r.range(3, 22); m.h = r.range(3, 22);
    m.snapped = go.snapped < 0 ? r.chance(0.25) : go.snapped != 0;
    double margin = !go.outside ? -0.2 : (r.chance(0.3) ? r.uni(0.5, 4.0) : r.uni(-1.0, 0.45));
    if(margin < -0.3 * std::min(m.w, m.h)) margin = -0.3 * std::min(m.w, m.h);
    int style = r.below(4);
    if(style <= 1) // jittered grid
    {
        int nx = r.range(2, 4), ny = r.range(2, 4);
        double x0 = -margin, x1 = m.w - 1 + margin, y0 = -margin, y1 = m.h - 1 + margin;
        std::vector<int> idx(nx * ny, -1);
        double jx = (x1 - x0) / (nx - 1) * 0.2, jy = (y1 - y0) / (ny - 1) * 0.2;
        for(int j = 0; j < ny; ++j)
            for(int i = 0; i < nx; ++i)
            {
                P2 p(x0 + (x1 - x0) * i / (nx - 1) + r.uni(-jx, jx), y0 + (y1 - y0) * j / (ny - 1) + r.uni(-jy, jy));
                p.first = snapc(p.first, m.snapped); p.second = snapc(p.second, m.snapped);
                if(m.nodeOk(p)) { idx[j * nx + i] = m.nodes.size(); m.nodes.push_back(p); }
            }
        double drop = r.chance(0.5) ? 0.0 : r.uni(0, 0.5);
        for(int j = 0; j < ny; ++j)
            for(int i = 0; i < nx; ++i)
                for(int dir = 0; dir < 2; ++dir)
                {
                    int i2 = i + (dir == 0), j2 = j + (dir == 1);
                    if(i2 >= nx || j2 >= ny) continue;
                    int a = idx[j * nx + i], b = idx[j2 * nx + i2];
                    if(a < 0 || b < 0 || r.chance(drop)) continue;
                    Poly inner;
                    int k = r.below(3);
                    P2 pa = m.nodes[a], pb = m.nodes[b];
                    for(int t = 1; t <= k; ++t)
                    {
                        double f = t / (k + 1.0), d = dist(pa, pb) * 0.12;
                        inner.push_back(P2(snapc(pa.first + f * (pb.first - pa.first) + r.uni(-d, d), m.snapped),
                                           snapc(pa.second + f * (pb.second - pa.second) + r.uni(-d, d), m.snapped)));
                    }
                    if(!m.tryEdge(a, b, inner)) m.tryEdge(a, b, Poly());
                }
    }
    else
    {
        int n = r.range(1, go.maxNodes / 2);
        for(int i = 0; i < n; ++i)
        {
            P2 p = randPos(r, m, margin);
            if(m.nodeOk(p)) m.nodes.push_back(p);
        }
    }
    int tries = r.range(go.tries / 3, go.tries);
    for(int t = 0; t < tries; ++t)
    {
        int what = r.below(100);
        if(m.nodes.empty()) what = 0;
        if(what < 14) // (possibly) isolated node
        {
            if((int)m.nodes.size() >= go.maxNodes + 8) continue;
            P2 p = randPos(r, m, margin);
            if(m.nodeOk(p)) m.nodes.push_back(p);
        }
        else if(what < 50) // connection
        {
            int a = r.below(m.nodes.size()), b = r.below(m.nodes.size());
            if(a == b) continue;
            Poly inner;
            int k = r.below(4);
            for(int i = 1; i <= k; ++i)
            {
                double f = i / (k + 1.0), d = dist(m.nodes[a], m.nodes[b]) * r.uni(0.05, 0.6);
                inner.push_back(P2(snapc(m.nodes[a].first + f * (m.nodes[b].first - m.nodes[a].first) + r.uni(-d, d), m.snapped),
                                   snapc(m.nodes[a].second + f * (m.nodes[b].second - m.nodes[a].second) + r.uni(-d, d), m.snapped)));
            }
            m.tryEdge(a, b, inner);
        }
        else if(what < 72) // self-loop
        {
            int a = r.below(m.nodes.size());
            double rad = r.chance(0.5) ? r.uni(0.3, 1.6) : r.uni(1.0, 0.45 * std::min(m.w, m.h) + 1.2);
            double dir = r.uni(0, 2 * M_PI);
            int k = r.range(2, 7);
            P2 c(m.nodes[a].first - rad * std::cos(dir), m.nodes[a].second - rad * std::sin(dir));
            Poly inner;
            double sgn = r.chance(0.5) ? 1 : -1;
            for(int i = 1; i <= k; ++i)
            {
                double w = dir + sgn * 2 * M_PI * i / (k + 1.0), rr = rad * r.uni(0.8, 1.15);
                inner.push_back(P2(snapc(c.first + rr * std::cos(w), m.snapped), snapc(c.second + rr * std::sin(w), m.snapped)));
            }
            m.tryEdge(a, a, inner);
        }
        else if(what < 80) // loop closely around a connected component
        {
            std::vector<int> comp(m.nodes.size(), -1);
            std::vector<int> st(1, r.below(m.nodes.size()));
            comp[st[0]] = 1;
            double x0 = m.nodes[st[0]].first, x1 = x0, y0 = m.nodes[st[0]].second, y1 = y0;
            while(!st.empty())
            {
                int c = st.back(); st.pop_back();
                for(auto &e : m.edges)
                    if(e.s == c || e.e == c)
                    {
                        for(auto &q : e.p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); }
                        int o = e.s == c ? e.e : e.s;
                        if(comp[o] < 0) { comp[o] = 1; st.push_back(o); }
                    }
            }
            double dl = r.chance(0.5) ? r.uni(0.15, 0.3) : r.uni(0.3, 1.0);
            x0 = snapc(x0 - dl, m.snapped); y0 = snapc(y0 - dl, m.snapped); x1 = snapc(x1 + dl, m.snapped); y1 = snapc(y1 + dl, m.snapped);
            P2 c[4] = { P2(x0, y0), P2(x1, y0), P2(x1, y1), P2(x0, y1) };
            if(!m.nodeOk(c[0])) continue;
            size_t nn = m.nodes.size();
            m.nodes.push_back(c[0]);
            if(r.chance(0.5) && m.nodeOk(c[2])) // two edges
            {
                m.nodes.push_back(c[2]);
                bool ok1 = m.tryEdge(nn, nn + 1, Poly(1, c[1]));
                if(ok1) m.tryEdge(nn + 1, nn, Poly(1, c[3]));
                if(!ok1) { m.nodes.pop_back(); m.nodes.pop_back(); }
            }
            else if(!m.tryEdge(nn, nn, Poly(c + 1, c + 4)))
                m.nodes.pop_back();
        }
        else // dangling edge
        {
            if((int)m.nodes.size() >= go.maxNodes + 8) continue;
            int a = r.below(m.nodes.size());
            double l = r.uni(0.3, 3.0), dir = r.uni(0, 2 * M_PI);
            P2 p(snapc(m.nodes[a].first + l * std::cos(dir), m.snapped), snapc(m.nodes[a].second + l * std::sin(dir), m.snapped));
            if(!m.nodeOk(p)) continue;
            Poly inner;
            if(r.chance(0.4))
                inner.push_back(P2(snapc((p.first + m.nodes[a].first) / 2 + r.uni(-0.3, 0.3) * l, m.snapped),
                                   snapc((p.second + m.nodes[a].second) / 2 + r.uni(-0.3, 0.3) * l, m.snapped)));
            m.nodes.push_back(p);
            if(!m.tryEdge(a, m.nodes.size() - 1, inner))
                if(!go.isolated || r.chance(0.6)) m.nodes.pop_back();
        }
    }
    if(!go.isolated)
    {
        // drop isolated nodes
        std::vector<int> used(m.nodes.size(), 0), nl(m.nodes.size(), -1);
        for(auto &e : m.edges) used[e.s] = used[e.e] = 1;
        std::vector<P2> nn;
        for(size_t i = 0; i < m.nodes.size(); ++i) if(used[i]) { nl[i] = nn.size(); nn.push_back(m.nodes[i]); }
        m.nodes = nn;
        for(auto &e : m.edges) { e.s = nl[e.s]; e.e = nl[e.e]; }
    }
    return m;
}

struct BuiltMap
{
    std::shared_ptr<GeoMap> map;
    MapSpec spec;
    std::vector<CellLabel> nodeLabel;  // spec node -> label
    std::vector<int> edgeDart;         // spec edge -> dart label with the spec's direction
};

// adds nodes/edges in random order / direction / with label gaps
inline BuiltMap buildGraph(Rng &r, const MapSpec &spec, bool gaps)
{
    BuiltMap b;
    b.spec = spec;
    b.map.reset(new GeoMap(vigra::Size2D(spec.w, spec.h)));
    std::vector<int> order(spec.nodes.size());
    for(size_t i = 0; i < order.size(); ++i) order[i] = i;
    r.shuffle(order);
    b.nodeLabel.resize(spec.nodes.size());
    for(int i : order)
    {
        GeoMap::NodePtr n;
        if(gaps && r.chance(0.3))
            n = b.map->addNode(toV(spec.nodes[i]), b.map->maxNodeLabel() + r.below(3));
        else
            n = b.map->addNode(toV(spec.nodes[i]));
        b.nodeLabel[i] = n->label();
    }
    order.resize(spec.edges.size());
    for(size_t i = 0; i < order.size(); ++i) order[i] = i;
    r.shuffle(order);
    b.edgeDart.resize(spec.edges.size());
    for(int i : order)
    {
        const SpecEdge &e = spec.edges[i];
        bool rev = r.chance(0.5);
        Poly p(e.p);
        int s = e.s, t = e.e;
        if(rev) { std::reverse(p.begin(), p.end()); std::swap(s, t); }
        CellLabel lab = 0;
        if(gaps && r.chance(0.3)) lab = b.map->maxEdgeLabel() + (r.chance(0.05) ? r.below(140) : r.below(4));
        GeoMap::EdgePtr ed = b.map->addEdge(GeoMap::SigmaAnchor(*b.map->node(b.nodeLabel[s])),
                                            GeoMap::SigmaAnchor(*b.map->node(b.nodeLabel[t])),
                                            toArray(p), lab);
        b.edgeDart[i] = rev ? -(int)ed->label() : (int)ed->label();
    }
    return b;
}

inline std::string describeSpec(const MapSpec &s)
{
    return VF_STR(s.w << "x" << s.h << (s.snapped ? " snapped" : "") << " nodes=" << s.nodes.size() << " edges=" << s.edges.size());
}

/********************************************************************/
/* snapshots                                                        */
/********************************************************************/

struct SEdge
{
    CellLabel s, e, l, r; CellFlags flags; Poly p;
    bool operator==(const SEdge &o) const
    { return s == o.s && e == o.e && l == o.l && r == o.r && flags == o.flags && p == o.p; }
};
struct SFace
{
    std::vector<std::vector<int> > contours; // canonical rotation (start at smallest dart label)
    CellFlags flags;
    double area;
    unsigned int pixelArea;
};
const CellFlags FACE_INTERNAL = 0xf0000000U;

struct Snap
{
    std::map<CellLabel, P2> nodes;
    std::map<CellLabel, SEdge> edges;
    std::map<int, int> sigma;
    std::map<CellLabel, SFace> faces;
    CellLabel maxN, maxE, maxF;
    bool init, hasImg, sorted;
    int w, h;
    std::vector<int> img;      // LUT-mapped labels

    std::vector<int> phiOrbit(int d) const
    {
        std::vector<int> r;
        int c = d;
        do {
            r.push_back(c);
            c = prevSigma(-c);
            if(r.size() > 4 * edges.size() + 4) VIOLATE("phi-orbit-not-closed", "phi orbit of dart " << d << " does not return");
        } while(c != d);
        return r;
    }
    std::map<int, int> inv;
    int prevSigma(int d) const
    {
        auto it = inv.find(d);
        if(it == inv.end()) VIOLATE("sigma-not-bijective", "no sigma predecessor of dart " << d);
        return it->second;
    }
    CellLabel startNode(int d) const { const SEdge &e = edges.at(std::abs(d)); return d > 0 ? e.s : e.e; }
    CellLabel left(int d) const { const SEdge &e = edges.at(std::abs(d)); return d > 0 ? e.l : e.r; }
    Poly dartPoly(int d) const
    {
        Poly p = edges.at(std::abs(d)).p;
        if(d < 0) std::reverse(p.begin(), p.end());
        return p;
    }
    Poly orbitPoly(const std::vector<int> &orbit) const
    {
        Poly r;
        for(int d : orbit) { Poly p = dartPoly(d); r.insert(r.end(), p.begin(), p.end() - 1); }
        return r;
    }
};

inline std::vector<int> canonical(const std::vector<int> &o)
{
    std::vector<int> r(o);
    std::rotate(r.begin(), std::min_element(r.begin(), r.end()), r.end());
    return r;
}


// what of the cached properties is to be queried (querying fills caches,
// so the monitors randomise it)
struct SnapOptions { bool img = true; };

inline Snap takeSnap(GeoMap &m, const SnapOptions &so = SnapOptions())
{
    Snap s;
    s.maxN = m.maxNodeLabel(); s.maxE = m.maxEdgeLabel(); s.maxF = m.maxFaceLabel();
    s.init = m.mapInitialized(); s.hasImg = m.hasLabelImage(); s.sorted = m.edgesSorted();
    s.w = m.imageSize().x; s.h = m.imageSize().y;
    for(GeoMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
        s.nodes[(*it)->label()] = toP((*it)->position());
    for(GeoMap::EdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    {
        GeoMap::Edge &e(**it);
        SEdge se;
        se.s = e.startNodeLabel(); se.e = e.endNodeLabel();
        se.l = e.leftFaceLabel(); se.r = e.rightFaceLabel();
        se.flags = e.flags();
        for(size_t i = 0; i < e.size(); ++i) se.p.push_back(toP(e[i]));
        s.edges[e.label()] = se;
        for(int sg = -1; sg <= 1; sg += 2)
        {
            int d = sg * (int)e.label();
            int n = m.dart(d).nextSigma().label();
            s.sigma[d] = n;
            s.inv[n] = d;
        }
    }
    if(s.init)
        for(GeoMap::FaceIterator it = m.facesBegin(); it.inRange(); ++it)
        {
            GeoMap::Face &f(**it);
            SFace sf;
            sf.flags = f.flags() & ~FACE_INTERNAL;
            sf.area = 0;
            sf.pixelArea = f.pixelArea();
            for(GeoMap::Face::ContourIterator c = f.contoursBegin(); c != f.contoursEnd(); ++c)
            {
                std::vector<int> o;
                GeoMap::Dart d(*c);
                do {
                    o.push_back(d.label());
                    if(!m.dart(d.label()).edge()) VIOLATE("contour-dart-removed", "face " << f.label() << " has contour dart " << d.label() << " of a removed edge");
                    if(o.size() > 4 * s.edges.size() + 4) VIOLATE("contour-not-closed", "contour of face " << f.label() << " does not return to its anchor");
                } while(d.nextPhi().label() != c->label());
                sf.contours.push_back(canonical(o));
            }
            for(auto &o : sf.contours) sf.area += closedArea(s.orbitPoly(o));
            s.faces[f.label()] = sf;
        }
    if(s.hasImg && so.img)
    {
        s.img.resize(s.w * s.h);
        GeoMap::LabelImageIterator ul(m.labelsUpperLeft());
        GeoMap::LabelImageAccessor a(m.labelAccessor());
        for(int y = 0; y < s.h; ++y)
            for(int x = 0; x < s.w; ++x)
                s.img[y * s.w + x] = a(ul, vigra::Diff2D(x, y));
    }
    return s;
}

inline uint64_t topoHash(const Snap &s)
{
    uint64_t h = mix(s.nodes.size(), s.edges.size());
    for(auto &e : s.edges) { h = mix(h, e.first); h = mix(h, e.second.s * 1000003ull + e.second.e); h = mix(h, e.second.l * 1000003ull + e.second.r); }
    for(auto &x : s.sigma) h = mix(h, (uint64_t)(x.first * 65599 + x.second));
    for(auto &f : s.faces) { h = mix(h, f.first); h = mix(h, f.second.contours.size()); }
    return h;
}
inline uint64_t imgHash(const Snap &s)
{
    uint64_t h = mix(s.w, s.h);
    for(int v : s.img) h = mix(h, (uint64_t)(int64_t)v);
    return h;
}

inline double tolFor(double magnitude) { return 1e-7 + 1e-9 * std::fabs(magnitude); }

/********************************************************************/
/* consistency monitors                                             */
/********************************************************************/

inline int strictAngles(const Snap &s, CellLabel, const std::vector<int> &orbit, std::vector<double> &angles)
{
    angles.clear();
    for(int d : orbit)
    {
        Poly p = s.dartPoly(d);
        double a = std::atan2(-(p[1].second - p[0].second), p[1].first - p[0].first);
        if(a < 0) a += 2 * M_PI;
        angles.push_back(a);
    }
    for(size_t i = 0; i < angles.size(); ++i)
        for(size_t j = 0; j < i; ++j)
            if(std::fabs(angles[i] - angles[j]) < 1e-9) return 0;
    return 1;
}

// combinatorial consistency of nodes, edges and sigma orbits
inline void verifyGraph(GeoMap &m, const Snap &s, bool ccw)
{
    CHECK(m.nodeCount() == s.nodes.size(), "node-count", "nodeCount() " << m.nodeCount() << " vs. " << s.nodes.size() << " nodes found");
    CHECK(m.edgeCount() == s.edges.size(), "edge-count", "edgeCount() " << m.edgeCount() << " vs. " << s.edges.size() << " edges found");
    CHECK(m.faceCount() == s.faces.size(), "face-count", "faceCount() " << m.faceCount() << " vs. " << s.faces.size() << " faces found");
    std::map<CellLabel, std::set<int> > dartsAt;
    for(auto &e : s.edges)
    {
        CellLabel l = e.first;
        const SEdge &se = e.second;
        CHECK(m.edge(l)->map() == &m && m.edge(l)->initialized(), "edge-map-pointer", "edge " << l << " does not belong to its map");
        CHECK(se.p.size() >= 2, "edge-too-short", "edge " << l << " has " << se.p.size() << " points");
        CHECK(s.nodes.count(se.s) && s.nodes.count(se.e), "edge-endnode-missing", "edge " << l << " (" << se.s << "->" << se.e << ") ends in a removed node");
        CHECK(se.p.front() == s.nodes.at(se.s) && se.p.back() == s.nodes.at(se.e), "edge-endpoint-mismatch",
              "edge " << l << " end points do not coincide with nodes " << se.s << "/" << se.e);
        dartsAt[se.s].insert((int)l);
        dartsAt[se.e].insert(-(int)l);
        GeoMap::Dart d(m.dart((int)l)), rd(m.dart(-(int)l));
        CHECK(d.startNodeLabel() == se.s && d.endNodeLabel() == se.e && rd.startNodeLabel() == se.e && rd.endNodeLabel() == se.s,
              "dart-nodes", "dart end nodes inconsistent for edge " << l);
        CHECK(d.leftFaceLabel() == se.l && d.rightFaceLabel() == se.r && rd.leftFaceLabel() == se.r && rd.rightFaceLabel() == se.l,
              "dart-faces", "dart faces inconsistent for edge " << l);
        CHECK(m.edge(l)->isLoop() == (se.s == se.e), "edge-isLoop", "isLoop() wrong for edge " << l);
    }
    std::set<int> valid;
    for(auto &n : dartsAt) valid.insert(n.second.begin(), n.second.end());
    for(auto &x : s.sigma)
    {
        CHECK(valid.count(x.second), "sigma-to-removed-dart", "sigma(" << x.first << ") = " << x.second << " is not an existing dart");
        CHECK(s.startNode(x.first) == s.startNode(x.second), "sigma-node-mismatch", "sigma(" << x.first << ") = " << x.second << " starts at another node");
        CHECK(m.dart(x.second).prevSigma().label() == x.first, "sigma-inverse", "sigma^-1(sigma(" << x.first << ")) = " << m.dart(x.second).prevSigma().label());
    }
    CHECK(s.inv.size() == s.sigma.size(), "sigma-not-bijective", "sigma is not a permutation");
    for(auto &n : s.nodes)
    {
        GeoMap::NodePtr np = m.node(n.first);
        auto it = dartsAt.find(n.first);
        size_t deg = it == dartsAt.end() ? 0 : it->second.size();
        CHECK(np->map() == &m, "node-map-pointer", "node " << n.first << " does not belong to its map");
        CHECK(np->isIsolated() == (deg == 0), "node-isolated-flag", "node " << n.first << " isIsolated()=" << np->isIsolated() << " but has " << deg << " darts");
        if(!deg) { CHECK(np->degree() == 0 && np->hasDegree(0) && !np->hasMinDegree(1), "node-degree", "isolated node degree"); continue; }
        int a = np->anchor().label();
        CHECK(it->second.count(a), "node-anchor", "anchor " << a << " of node " << n.first << " does not start there");
        std::vector<int> orbit;
        int c = a;
        do {
            orbit.push_back(c); c = s.sigma.at(c);
            CHECK(orbit.size() <= deg, "sigma-orbit-size", "sigma orbit of node " << n.first << " larger than its degree " << deg);
        } while(c != a);
        CHECK(orbit.size() == deg, "sigma-orbit-split", "sigma orbit of node " << n.first << " has " << orbit.size() << " darts, " << deg << " darts start there");
        CHECK(np->degree() == deg && np->hasDegree(deg) && !np->hasDegree(deg + 1) && !np->hasDegree(deg - 1)
              && np->hasMinDegree(deg) && !np->hasMinDegree(deg + 1), "node-degree", "degree() of node " << n.first << " wrong");
        for(size_t k = 1; k < deg; ++k)
            CHECK(np->hasMinDegree(k) && !np->hasDegree(k), "node-degree", "node " << n.first << " of degree " << deg << " does not have at least " << k << " edge ends");
        if(ccw && deg > 2)
        {
            std::vector<double> ang;
            if(strictAngles(s, n.first, orbit, ang))
            {
                int drops = 0;
                for(size_t i = 0; i < ang.size(); ++i)
                    if(ang[(i + 1) % ang.size()] < ang[i]) ++drops;
                CHECK(drops == 1, "sigma-not-ccw", "darts around node " << n.first << " are not in counter-clockwise order");
                stats().count("ccw_nodes");
            }
        }
    }
}

// cached geometric properties of edges and faces vs. recomputation
inline void verifyCaches(GeoMap &m, const Snap &s)
{
    for(auto &e : s.edges)
    {
        GeoMap::Edge &ed(*m.edge(e.first));
        double l = polyLength(e.second.p), a = polyPartialArea(e.second.p);
        CHECK(std::fabs(ed.length() - l) <= tolFor(l), "edge-length-cache", "edge " << e.first << " length() = " << ed.length() << ", polyline has " << l);
        double mag = 0; for(auto &p : e.second.p) mag = std::max(mag, std::fabs(p.first) * std::fabs(p.second) + 1);
        CHECK(std::fabs(ed.partialArea() - a) <= tolFor(mag * e.second.p.size()), "edge-area-cache", "edge " << e.first << " partialArea() = " << ed.partialArea() << ", polyline gives " << a);
        GeoMap::Edge::BoundingBox bb = ed.boundingBox();
        double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
        for(auto &p : e.second.p) { x0 = std::min(x0, p.first); x1 = std::max(x1, p.first); y0 = std::min(y0, p.second); y1 = std::max(y1, p.second); }
        CHECK(bb.begin()[0] == x0 && bb.begin()[1] == y0 && bb.end()[0] == x1 && bb.end()[1] == y1, "edge-bbox-cache",
              "edge " << e.first << " boundingBox() does not enclose its points tightly");
    }
    for(auto &f : s.faces)
    {
        GeoMap::Face &fa(*m.face(f.first));
        double a = 0, mag = 0;
        double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
        bool first = true;
        for(auto &c : f.second.contours)
        {
            Poly p = s.orbitPoly(c);
            double ca = closedArea(p);
            a += ca; mag += std::fabs(ca) + p.size();
            if(first && f.first)
                for(auto &q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); }
            first = false;
        }
        CHECK(std::fabs(fa.area() - a) <= 1e-7 + 1e-8 * mag, "face-area-cache", "face " << f.first << " area() = " << fa.area() << ", contours enclose " << a);
        if(f.first)
        {
            const GeoMap::Face::BoundingBox &bb(fa.boundingBox());
            CHECK(bb.begin()[0] == x0 && bb.begin()[1] == y0 && bb.end()[0] == x1 && bb.end()[1] == y1, "face-bbox-cache",
                  "face " << f.first << " boundingBox() [" << bb.begin()[0] << "," << bb.begin()[1] << "]..[" << bb.end()[0] << "," << bb.end()[1]
                  << "] differs from outer contour's [" << x0 << "," << y0 << "]..[" << x1 << "," << y1 << "]");
        }
    }
}

// one set of scanlines against the curve it has to describe; 'closed': also judge the pixels in between
inline void verifyScanlines(const vigra::Scanlines &sl, const Poly &p, bool closed, const std::string &what)
{
    const double T = 1e-7;
    double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
    for(auto &q : p) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); }
    int ya = (int)std::floor(y0 - 0.6), yb = (int)std::ceil(y1 + 0.6), xa = (int)std::floor(x0 - 0.6), xb = (int)std::ceil(x1 + 0.6);
    CHECK(sl.startIndex() >= ya - 1 && sl.endIndex() <= yb + 2, "scanline-range", what << ": scanlines cover lines " << sl.startIndex() << ".." << sl.endIndex() << ", the curve " << y0 << ".." << y1);
    for(int y = ya; y <= yb; ++y)
    {
        static const vigra::Scanlines::Scanline none;
        const vigra::Scanlines::Scanline &line = y >= sl.startIndex() && y < sl.endIndex() ? sl[y] : none;
        for(size_t i = 0; i < line.size(); ++i)
            CHECK(line[i].begin >= xa - 1 && line[i].end <= xb + 2, "scanline-range", what << ": line " << y << " has a segment [" << line[i].begin << "," << line[i].end << ") off the curve");
        int sum = 0; size_t j = 0;
        for(int x = xa; x <= xb; ++x)
        {
            while(j < line.size() && line[j].end <= x) { sum += line[j].direction; ++j; }
            bool cov = j < line.size() && line[j].begin <= x && x < line[j].end;
            bool may = polyHitsBox(p, x - 0.5 - T, y - 0.5 - T, x + 0.5 + T, y + 0.5 + T);
            if(cov != may)
            {
                bool must = polyHitsBox(p, x - 0.5 + T, y - 0.5 + T, x + 0.5 - T, y + 0.5 - T);
                CHECK(!cov ? !must : may, "scanline-cache", what << ": pixel (" << x << "," << y << ") is " << (cov ? "" : "not ") << "covered by the scanlines but " << (must ? "" : "not ") << "crossed by the curve");
            }
            if(closed && !cov && !may)
            {
                int wn = windingNumber(P2(x, y), p);
                CHECK(sum == 2 * wn, "scanline-cache", what << ": pixel (" << x << "," << y << ") has winding number " << wn << " but scanline direction sum " << sum);
                stats().count("scanline_inner_pixels", wn != 0);
            }
            stats().eval();
        }
    }
    stats().count("scanlines_verified");
}

inline void verifyCachedScanlines(GeoMap &m, const Snap &s)
{
    for(auto &e : s.edges)
        verifyScanlines(m.edge(e.first)->scanLines(), e.second.p, false, VF_STR("edge " << e.first));
    for(auto &f : s.faces)
        if(f.first && !f.second.contours.empty())
        {
            Poly p = s.orbitPoly(f.second.contours[0]);
            if(!(p.front() == p.back())) p.push_back(p.front());
            verifyScanlines(*m.face(f.first)->scanLines(), p, true, VF_STR("face " << f.first));
        }
}

// faces, contours, nesting (requires initialised map)
inline void verifyFaces(GeoMap &m, const Snap &s, bool nesting)
{
    if(!s.init) return;
    CHECK(s.faces.count(0), "no-infinite-face", "face 0 is missing");
    std::map<int, std::pair<CellLabel, int> > owner; // dart -> (face, contour index)
    struct CInfo { CellLabel face; int idx; std::vector<int> orbit; Poly poly; double area; };
    std::vector<CInfo> cs;
    for(auto &f : s.faces)
    {
        GeoMap::FacePtr fp = m.face(f.first);
        CHECK(fp->map() == &m && fp->label() == f.first, "face-map-pointer", "face " << f.first << " does not belong to its map");
        CHECK(f.first == 0 || !f.second.contours.empty(), "face-without-contour", "face " << f.first << " has no outer contour");
        CHECK(fp->holeCount() == f.second.contours.size() - (f.first ? 1 : 0), "hole-count", "holeCount() of face " << f.first);
        int i = 0;
        for(auto &o : f.second.contours)
        {
            for(int d : o)
            {
                CHECK(s.left(d) == f.first, "contour-wrong-left-face", "dart " << d << " in contour of face " << f.first << " has left face " << s.left(d));
                CHECK(!owner.count(d), "dart-in-two-contours", "dart " << d << " is part of two contours (faces " << owner[d].first << ", " << f.first << ")");
                owner[d] = std::make_pair(f.first, i);
            }
            CInfo ci; ci.face = f.first; ci.idx = i; ci.orbit = o; ci.poly = s.orbitPoly(o); ci.area = closedArea(ci.poly);
            cs.push_back(ci);
            ++i;
        }
    }
    for(auto &x : s.sigma)
        CHECK(owner.count(x.first), "dart-without-contour", "dart " << x.first << " (left face " << s.left(x.first) << ") is not part of any contour of that face");
    for(auto &c : cs)
    {
        bool outer = c.face && c.idx == 0;
        // tree contours have area 0 up to rounding
        double tol = 1e-7;
        if(outer) CHECK(c.area > tol, "outer-contour-not-positive", "outer contour of face " << c.face << " has area " << c.area);
        else CHECK(c.area < tol, "hole-contour-positive", "hole contour (dart " << c.orbit[0] << ") of face " << c.face << " has positive area " << c.area);
    }
    for(auto &e : s.edges)
        CHECK(m.edge(e.first)->isBridge() == (e.second.l == e.second.r), "isBridge", "isBridge() wrong");
    // Euler-Poincare by union-find
    std::map<CellLabel, CellLabel> uf;
    std::function<CellLabel(CellLabel)> find = [&](CellLabel a) { while(uf[a] != a) a = uf[a] = uf[uf[a]]; return a; };
    std::set<CellLabel> used;
    for(auto &e : s.edges) { if(!uf.count(e.second.s)) uf[e.second.s] = e.second.s; if(!uf.count(e.second.e)) uf[e.second.e] = e.second.e; uf[find(e.second.s)] = find(e.second.e); }
    long C = 0, V = uf.size(), E = s.edges.size(), F = s.faces.size();
    for(auto &x : uf) if(find(x.first) == x.first) ++C;
    CHECK(V - E + F - C == 1, "euler-poincare", "V-E+F-C = " << V << "-" << E << "+" << F << "-" << C << " != 1");
    if(!nesting) return;
    // every hole contour has to lie in the innermost positive contour around it
    for(auto &c : cs)
    {
        if(c.face && c.idx == 0) continue;
        // contours of different components may touch in single points (crack
        // edges), so probe with a point of the hole off the candidate contour
        std::vector<P2> probes;
        for(size_t i = 1; i < c.poly.size() && probes.size() < 24; ++i)
            probes.push_back(P2(0.5 * (c.poly[i-1].first + c.poly[i].first), 0.5 * (c.poly[i-1].second + c.poly[i].second)));
        for(size_t i = 0; i < c.poly.size() && probes.size() < 48; ++i)
            probes.push_back(c.poly[i]);
        CellLabel comp = find(s.startNode(c.orbit[0]));
        CellLabel want = 0; double best = 1e300; bool ambiguous = false;
        for(auto &o : cs)
        {
            if(!(o.face && o.idx == 0)) continue;
            if(find(s.startNode(o.orbit[0])) == comp) continue;
            if(o.area >= best) continue;
            const P2 *q = 0;
            for(auto &pr : probes)
                if(ptPolylineDist(pr, o.poly) > 1e-6) { q = &pr; break; }
            if(!q) { ambiguous = true; break; }
            if(pointInPoly(*q, o.poly)) { best = o.area; want = o.face; }
        }
        if(ambiguous) { stats().count("holes_ambiguous"); continue; }
        CHECK(want == c.face, "hole-in-wrong-face", "component with dart " << c.orbit[0] << " is embedded in face " << c.face << " but lies inside face " << want);
        stats().count("holes_nested");
    }
}

/* --- label image --------------------------------------------------*/

struct FaceLocator
{
    struct C { CellLabel face; double area; Poly poly; double x0, y0, x1, y1; };
    std::vector<C> cs;
    FaceLocator(const Snap &s)
    {
        for(auto &f : s.faces)
            if(f.first && !f.second.contours.empty())
            {
                C c; c.face = f.first; c.poly = s.orbitPoly(f.second.contours[0]); c.area = closedArea(c.poly);
                c.x0 = c.y0 = 1e300; c.x1 = c.y1 = -1e300;
                for(auto &q : c.poly) { c.x0 = std::min(c.x0, q.first); c.x1 = std::max(c.x1, q.first); c.y0 = std::min(c.y0, q.second); c.y1 = std::max(c.y1, q.second); }
                cs.push_back(c);
            }
        std::sort(cs.begin(), cs.end(), [](const C &a, const C &b) { return a.area < b.area; });
    }
    CellLabel at(const P2 &q) const
    {
        for(auto &c : cs)
            if(q.first >= c.x0 && q.first <= c.x1 && q.second >= c.y0 && q.second <= c.y1 && pointInPoly(q, c.poly))
                return c.face;
        return 0;
    }
};

// Checks the label image against the geometry: pixels whose facet is not
// touched by any edge carry the label of the face around them, pixels
// crossed by k edges carry -k.  'pixelCounts': also check pixelArea().
inline void verifyLabelImage(GeoMap &m, const Snap &s)
{
    if(!s.hasImg) return;
    const double T = 1e-6;
    std::vector<int> lo(s.w * s.h, 0), hi(s.w * s.h, 0);
    for(auto &e : s.edges)
    {
        const Poly &p = e.second.p;
        std::set<int> hl, hh;
        for(size_t i = 1; i < p.size(); ++i)
        {
            int xa = std::max(0, (int)std::floor(std::min(p[i-1].first, p[i].first) - 0.6)), xb = std::min(s.w - 1, (int)std::ceil(std::max(p[i-1].first, p[i].first) + 0.6));
            int ya = std::max(0, (int)std::floor(std::min(p[i-1].second, p[i].second) - 0.6)), yb = std::min(s.h - 1, (int)std::ceil(std::max(p[i-1].second, p[i].second) + 0.6));
            for(int y = ya; y <= yb; ++y)
                for(int x = xa; x <= xb; ++x)
                {
                    int k = y * s.w + x;
                    if(segHitsBox(p[i-1], p[i], x - 0.5 - T, y - 0.5 - T, x + 0.5 + T, y + 0.5 + T))
                    {
                        hh.insert(k);
                        if(segHitsBox(p[i-1], p[i], x - 0.5 + T, y - 0.5 + T, x + 0.5 - T, y + 0.5 - T)) hl.insert(k);
                    }
                }
        }
        for(int k : hl) ++lo[k];
        for(int k : hh) ++hi[k];
    }
    FaceLocator loc(s);
    std::map<CellLabel, unsigned int> pix;
    for(int y = 0; y < s.h; ++y)
        for(int x = 0; x < s.w; ++x)
        {
            int k = y * s.w + x, v = s.img[k];
            int crossings = v < 0 ? -v : 0;
            CHECK(crossings >= lo[k] && crossings <= hi[k], "label-image-edge-pixel",
                  "pixel (" << x << "," << y << ") has label " << v << " but between " << lo[k] << " and " << hi[k] << " edges cross its facet");
            if(v >= 0)
            {
                ++pix[v];
                if(lo[k] == 0 && hi[k] == 0)
                {
                    CellLabel f = loc.at(P2(x, y));
                    CHECK((int)f == v, "label-image-face-pixel", "pixel (" << x << "," << y << ") has label " << v << " but lies in face " << f);
                    if(v > 0)
                    {
                        const GeoMap &cm = m;
                        CellLabel f1 = m.faceAt(Vector2(x, y))->label(), f2 = cm.faceAt(Vector2(x, y))->label();
                        CHECK((int)f1 == v && (int)f2 == v, "label-image-face-lookup",
                              "pixel (" << x << "," << y << ") of face " << v << " is looked up as face " << f1 << " / " << f2);
                    }
                    stats().count("face_pixels");
                }
                else
                {
                    // facet only touched at its border: any adjacent face is fine, but must exist
                    CHECK(s.faces.count(v), "label-image-dead-face", "pixel (" << x << "," << y << ") labelled with removed face " << v);
                    stats().count("touched_pixels");
                }
            }
            else stats().count("edge_pixels");
        }
    for(auto &f : s.faces)
        CHECK(m.face(f.first)->pixelArea() == pix[f.first], "pixel-area",
              "face " << f.first << " pixelArea() = " << m.face(f.first)->pixelArea() << " but " << pix[f.first] << " pixels carry its label");
}

// compare label images exactly; returns description of first difference
inline std::string imgDiff(const std::vector<int> &a, const std::vector<int> &b, int w)
{
    if(a.size() != b.size()) return "sizes differ";
    for(size_t i = 0; i < a.size(); ++i)
        if(a[i] != b[i]) return VF_STR("pixel (" << i % w << "," << i / w << "): " << a[i] << " vs. " << b[i]);
    return "";
}

// state equality; contours are compared as (outer contour, set of holes)
inline std::string snapDiff(const Snap &a, const Snap &b, bool ignoreImg = false)
{
    if(a.nodes != b.nodes) return "nodes differ";
    if(a.maxN != b.maxN || a.maxE != b.maxE || a.maxF != b.maxF) return VF_STR("max labels differ (" << a.maxN << "," << a.maxE << "," << a.maxF << " vs. " << b.maxN << "," << b.maxE << "," << b.maxF << ")");
    if(a.edges.size() != b.edges.size()) return "edge sets differ";
    for(auto &e : a.edges)
    {
        auto it = b.edges.find(e.first);
        if(it == b.edges.end()) return VF_STR("edge " << e.first << " missing");
        if(!(it->second == e.second)) return VF_STR("edge " << e.first << " differs (" << e.second.s << "->" << e.second.e << " faces " << e.second.l << "/" << e.second.r << " flags " << e.second.flags << " size " << e.second.p.size()
                << " vs. " << it->second.s << "->" << it->second.e << " faces " << it->second.l << "/" << it->second.r << " flags " << it->second.flags << " size " << it->second.p.size() << ")");
    }
    if(a.sigma != b.sigma) return "sigma orbits differ";
    if(a.faces.size() != b.faces.size()) return "face sets differ";
    for(auto &f : a.faces)
    {
        auto it = b.faces.find(f.first);
        if(it == b.faces.end()) return VF_STR("face " << f.first << " missing");
        if(it->second.flags != f.second.flags) return VF_STR("flags of face " << f.first << " differ");
        if(it->second.pixelArea != f.second.pixelArea) return VF_STR("pixelArea of face " << f.first << " differs: " << f.second.pixelArea << " vs. " << it->second.pixelArea);
        if(std::fabs(it->second.area - f.second.area) > 1e-6 + 1e-8 * std::fabs(f.second.area)) return VF_STR("area of face " << f.first << " differs");
        std::vector<std::vector<int> > c1(f.second.contours), c2(it->second.contours);
        if(c1.size() != c2.size()) return VF_STR("contour count of face " << f.first << " differs");
        if(f.first && !c1.empty() && c1[0] != c2[0]) return VF_STR("outer contour of face " << f.first << " differs");
        std::sort(c1.begin(), c1.end()); std::sort(c2.begin(), c2.end());
        if(c1 != c2) return VF_STR("contours of face " << f.first << " differ");
    }
    if(a.hasImg != b.hasImg) return "hasLabelImage differs";
    if(!ignoreImg && a.hasImg)
    {
        std::string d = imgDiff(a.img, b.img, a.w);
        if(!d.empty()) return "label image differs: " + d;
    }
    return "";
}

/********************************************************************/
/* event monitor                                                    */
/********************************************************************/

struct HookMonitor
{
    GeoMap &m;
    std::vector<std::string> ev;
    std::vector<boost::signals2::scoped_connection *> conns;
    // veto control: number of the veto-able call that is to be vetoed
    std::string vetoHook; int vetoAt = -1, vetoCalls = 0;
    bool vetoed = false;
    std::vector<vigra::Point2D> assoc; int assocFace = -1;
    int mergeDart = 0, mergeEdgesDart = 0, bridgeDart = 0;
    std::function<void(const std::string &)> onEvent;

    explicit HookMonitor(GeoMap &mm) : m(mm)
    {
        add(m.removeNodeHook.connect([this](GeoMap::Node &n) { return gate("removeNode", VF_STR(n.label())); }));
        add(m.preMergeEdgesHook.connect([this](const GeoMap::Dart &d) { mergeEdgesDart = d.label(); return gate("preMergeEdges", VF_STR(d.label())); }));
        add(m.postMergeEdgesHook.connect([this](GeoMap::Edge &e) { log("postMergeEdges", VF_STR(e.label())); }));
        add(m.preSplitEdgeHook.connect([this](GeoMap::Edge &e, unsigned int i, const Vector2 &, bool ins) { log("preSplitEdge", VF_STR(e.label() << "," << i << "," << ins)); }));
        add(m.postSplitEdgeHook.connect([this](GeoMap::Edge &e, GeoMap::Edge &n) { log("postSplitEdge", VF_STR(e.label() << "," << n.label())); }));
        add(m.preRemoveBridgeHook.connect([this](const GeoMap::Dart &d) { bridgeDart = d.label(); return gate("preRemoveBridge", VF_STR(d.label())); }));
        add(m.postRemoveBridgeHook.connect([this](GeoMap::Face &f) { log("postRemoveBridge", VF_STR(f.label())); }));
        add(m.preMergeFacesHook.connect([this](const GeoMap::Dart &d) { mergeDart = d.label(); return gate("preMergeFaces", VF_STR(d.label())); }));
        add(m.postMergeFacesHook.connect([this](GeoMap::Face &f) { log("postMergeFaces", VF_STR(f.label())); }));
        add(m.associatePixelsHook.connect([this](const GeoMap::Face &f, const PixelList &p) {
            assocFace = f.label(); assoc.assign(p.begin(), p.end()); log("associatePixels", VF_STR(f.label() << "," << p.size())); }));
    }
    ~HookMonitor() { for(auto *c : conns) delete c; }
    void add(const boost::signals2::connection &c) { conns.push_back(new boost::signals2::scoped_connection(c)); }
    void log(const std::string &n, const std::string &a)
    {
        ev.push_back(n + "(" + a + ")");
        stats().count("hook_" + n);
        if(onEvent) onEvent(n);
    }
    bool gate(const std::string &n, const std::string &a)
    {
        log(n, a);
        if(vetoAt >= 0 && (vetoHook.empty() || vetoHook == n))
            if(vetoCalls++ == vetoAt)
            {
                vetoed = true;
                ev.back() += "VETO";
                return false;
            }
        return true;
    }
    void clear() { ev.clear(); assoc.clear(); assocFace = -1; vetoed = false; vetoCalls = 0; vetoAt = -1; vetoHook.clear(); mergeDart = mergeEdgesDart = bridgeDart = 0; }
    std::string str() const { std::string r; for(auto &e : ev) r += e + " "; return r; }
};

} // namespace vf
#endif
