// shared parts of the cell image (pixel based map) harnesses
#ifndef VF_CELL_HXX
#define VF_CELL_HXX
#include "common.hxx"
#include <cmath>
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <vector>
#include "foureightsegmentation.hxx"

namespace vf {

namespace ci = vigra::cellimage;
typedef ci::GeoMap CMap;
typedef CMap::DartTraverser CDart;

/* --- generator: thinned boundary images ------------------------------*/

struct Bin
{
    int w, h; // of the image without frame
    std::vector<unsigned char> p; // (w+4)*(h+4), as seen by the map
    unsigned char &at(int x, int y) { return p[(y + 2) * (w + 4) + x + 2]; }
    unsigned char at(int x, int y) const { return p[(y + 2) * (w + 4) + x + 2]; }
    bool in(int x, int y) const { return x >= 0 && y >= 0 && x < w && y < h; }
};

static const int DX8[8] = {1, 1, 0, -1, -1, -1, 0, 1}, DY8[8] = {0, -1, -1, -1, 0, 1, 1, 1};

inline Bin emptyBin(int w, int h)
{
    Bin b; b.w = w; b.h = h; b.p.assign((w + 4) * (h + 4), 0);
    for(int x = -1; x <= w; ++x) b.at(x, -1) = b.at(x, h) = 1;
    for(int y = -1; y <= h; ++y) b.at(-1, y) = b.at(w, y) = 1;
    return b;
}

// foreground 8-connected, background 4-connected: removal keeps topology?
inline bool simplePoint(const Bin &b, int x, int y, int &fg)
{
    int n[8]; fg = 0;
    for(int i = 0; i < 8; ++i) { n[i] = b.at(x + DX8[i], y + DY8[i]); fg += n[i]; }
    // number of 4-connected background components in the neighbourhood which touch the pixel
    int comps = 0;
    bool seen[8] = {0};
    for(int i = 0; i < 8; i += 2)
    {
        if(n[i] || seen[i]) continue;
        ++comps;
        for(int k = i; !n[k & 7] && !seen[k & 7]; ++k) seen[k & 7] = true;
        for(int k = i + 7; !n[k & 7] && !seen[k & 7]; k += 7) seen[k & 7] = true;
    }
    return comps == 1;
}

inline Bin genBoundary(Rng &r, bool thinned)
{
    int big = r.below(5);
    int w = big ? r.range(1, 10) : r.range(8, 22), h = big ? r.range(1, 10) : r.range(8, 22);
    Bin b = emptyBin(w, h);
    int kind = r.below(6);
    if(kind == 0) { double d = r.uni(0.1, 0.8); for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) b.at(x, y) = r.chance(d); }
    else if(kind == 1 || kind == 2) // boundaries of Voronoi cells or blobs
    {
        int n = r.range(1, 2 + w * h / 12);
        std::vector<std::pair<double, double> > s;
        for(int i = 0; i < n; ++i) s.push_back(std::make_pair(r.uni(-1, w), r.uni(-1, h)));
        std::vector<int> l(w * h);
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        {
            double best = 1e9;
            for(int i = 0; i < n; ++i) { double d = std::pow(s[i].first - x, 2) + std::pow(s[i].second - y, 2); if(d < best) { best = d; l[y * w + x] = i; } }
        }
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
            b.at(x, y) = (x + 1 < w && l[y * w + x] != l[y * w + x + 1]) || (y + 1 < h && l[y * w + x] != l[(y + 1) * w + x]);
    }
    else if(kind == 3) // rectangles and their diagonals
    {
        for(int k = r.range(1, 5); k; --k)
        {
            int x1 = r.range(-1, w - 1), y1 = r.range(-1, h - 1), x2 = r.range(x1, w), y2 = r.range(y1, h);
            bool diag = r.chance(0.3);
            for(int x = x1; x <= x2; ++x) { if(b.in(x, y1)) b.at(x, y1) = 1; if(b.in(x, y2)) b.at(x, y2) = 1; if(diag && b.in(x, y1 + x - x1)) b.at(x, y1 + x - x1) = 1; }
            for(int y = y1; y <= y2; ++y) { if(b.in(x1, y)) b.at(x1, y) = 1; if(b.in(x2, y)) b.at(x2, y) = 1; }
        }
    }
    else if(kind == 4) // walks
    {
        for(int k = r.range(1, 6); k; --k)
        {
            int x = r.range(0, w - 1), y = r.range(0, h - 1), d = r.below(8);
            for(int n = r.range(1, 25); n; --n)
            {
                if(b.in(x, y)) b.at(x, y) = 1;
                if(r.chance(0.35)) d = (d + (r.chance(0.5) ? 1 : 7)) % 8;
                x += DX8[d]; y += DY8[d];
            }
        }
    }
    else // rings within rings
    {
        int x1 = r.range(0, 2), y1 = r.range(0, 2), x2 = w - 1 - r.range(0, 2), y2 = h - 1 - r.range(0, 2);
        while(x1 <= x2 && y1 <= y2)
        {
            for(int x = x1; x <= x2; ++x) b.at(x, y1) = b.at(x, y2) = 1;
            for(int y = y1; y <= y2; ++y) b.at(x1, y) = b.at(x2, y) = 1;
            x1 += r.range(2, 3); y1 += r.range(2, 3); x2 -= r.range(2, 3); y2 -= r.range(2, 3);
        }
        for(int k = r.below(6); k; --k) { int x = r.range(0, w - 1), y = r.range(0, h - 1); b.at(x, y) = !b.at(x, y); }
    }
    // thinning (frame stays), in random order
    bool endpoints = r.chance(0.8);
    std::vector<std::pair<int, int> > px;
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) px.push_back(std::make_pair(x, y));
    if(thinned || !r.chance(0.15))
        for(bool again = true; again;)
        {
            again = false;
            if(r.chance(0.7)) for(size_t i = px.size(); i > 1; --i) std::swap(px[i - 1], px[r.below(i)]);
            for(auto &q : px)
            {
                int fg;
                if(b.at(q.first, q.second) && simplePoint(b, q.first, q.second, fg) && (fg > 1 || (!endpoints && fg == 1)))
                { b.at(q.first, q.second) = 0; again = true; }
            }
        }
    return b;
}

inline std::string describeBin(const Bin &b)
{
    std::ostringstream s; s << b.w << "x" << b.h << "\n";
    for(int y = 0; y < b.h; ++y) { for(int x = 0; x < b.w; ++x) s << (b.at(x, y) ? '#' : '.'); s << "\n"; }
    return s.str();
}
inline uint64_t binHash(const Bin &b)
{
    uint64_t h = mix(b.w, b.h);
    for(unsigned char c : b.p) h = mix(h, c);
    return h;
}

inline CMap *makeCells(const Bin &b, ci::CellType corner)
{
    vigra::BImage img(b.w, b.h);
    for(int y = 0; y < b.h; ++y) for(int x = 0; x < b.w; ++x) img(x, y) = b.at(x, y) ? 7 : 3;
    return new CMap(srcImageRange(img), (unsigned char)7, corner);
}

/* --- snapshot ----------------------------------------------------------*/

struct CRect
{
    int x1, y1, x2, y2; // lower right exclusive
    CRect() : x1(1 << 20), y1(1 << 20), x2(-(1 << 20)), y2(-(1 << 20)) {}
    CRect(const vigra::Rect2D &r) : x1(r.left()), y1(r.top()), x2(r.right()), y2(r.bottom()) {}
    void add(int x, int y) { x1 = std::min(x1, x); y1 = std::min(y1, y); x2 = std::max(x2, x + 1); y2 = std::max(y2, y + 1); }
    bool operator==(const CRect &o) const { return x1 == o.x1 && y1 == o.y1 && x2 == o.x2 && y2 == o.y2; }
    std::string str() const { std::ostringstream s; s << "(" << x1 << "," << y1 << ")-(" << x2 << "," << y2 << ")"; return s.str(); }
};
struct CCell
{
    CRect b; unsigned size; unsigned degree; std::vector<unsigned> darts;
    bool operator==(const CCell &o) const { return b == o.b && size == o.size && degree == o.degree && darts == o.darts; }
};
struct CSnap
{
    int w, h;
    std::vector<int> px;
    std::map<unsigned, CCell> nodes, edges, faces;
    unsigned nc, ec, fc, nm, em, fm;
    bool operator==(const CSnap &o) const
    { return w == o.w && h == o.h && px == o.px && nodes == o.nodes && edges == o.edges && faces == o.faces && nc == o.nc && ec == o.ec && fc == o.fc && nm == o.nm && em == o.em && fm == o.fm; }
    int type(int x, int y) const { return px[(y + 2) * w + x + 2] & 3; }
    unsigned label(int x, int y) const { return (unsigned)px[(y + 2) * w + x + 2] >> 2; }
    bool valid(int x, int y) const { return x >= -2 && y >= -2 && x < w - 2 && y < h - 2; }
};

inline std::string cdiff(const CSnap &a, const CSnap &b)
{
    std::ostringstream s;
    if(a.px != b.px) { size_t n = 0, f = 0; for(size_t i = 0; i < a.px.size() && i < b.px.size(); ++i) if(a.px[i] != b.px[i]) { if(!n++) f = i; } s << n << " pixels differ (first at " << (int)(f % a.w) - 2 << "," << (int)(f / a.w) - 2 << "); "; }
    auto cmp = [&](const std::map<unsigned, CCell> &x, const std::map<unsigned, CCell> &y, const char *n)
    {
        for(auto &c : x) { auto it = y.find(c.first); if(it == y.end()) s << n << " " << c.first << " missing; "; else if(!(it->second == c.second)) s << n << " " << c.first << " differs; "; }
        for(auto &c : y) if(!x.count(c.first)) s << n << " " << c.first << " additional; ";
    };
    cmp(a.nodes, b.nodes, "node"); cmp(a.edges, b.edges, "edge"); cmp(a.faces, b.faces, "face");
    if(a.nc != b.nc || a.ec != b.ec || a.fc != b.fc) s << "counts differ; ";
    if(a.nm != b.nm || a.em != b.em || a.fm != b.fm) s << "label ranges differ; ";
    return s.str();
}

inline CSnap csnap(const CMap &m)
{
    CSnap s;
    s.w = m.cellImage.width(); s.h = m.cellImage.height();
    ci::CellPixelSerializer ser;
    for(int y = 0; y < s.h; ++y) for(int x = 0; x < s.w; ++x) s.px.push_back(ser(m.cellImage(x, y)));
    for(CMap::ConstNodeIterator it = m.nodesBegin(); it.inRange(); ++it)
    { CCell &c = s.nodes[it->label]; c.b = CRect(it->bounds); c.size = it->size; c.degree = it->degree; c.darts.push_back(it->anchor.serialize()); }
    for(CMap::ConstEdgeIterator it = m.edgesBegin(); it.inRange(); ++it)
    { CCell &c = s.edges[it->label]; c.b = CRect(it->bounds); c.size = it->size; c.degree = 0; c.darts.push_back(it->start.serialize()); c.darts.push_back(it->end.serialize()); }
    for(CMap::ConstFaceIterator it = m.facesBegin(); it.inRange(); ++it)
    {
        CCell &c = s.faces[it->label]; c.b = CRect(it->bounds); c.size = it->size; c.degree = 0;
        for(CMap::ConstContourComponentsIterator k = it->contours.begin(); k != it->contours.end(); ++k) c.darts.push_back(k->serialize());
    }
    s.nc = m.nodeCount(); s.ec = m.edgeCount(); s.fc = m.faceCount();
    s.nm = m.maxNodeLabel(); s.em = m.maxEdgeLabel(); s.fm = m.maxFaceLabel();
    return s;
}

inline uint64_t csnapHash(const CSnap &s)
{
    uint64_t h = mix(s.w, s.h);
    for(int v : s.px) h = mix(h, v);
    return h;
}

/* --- structure monitor -------------------------------------------------*/

struct Comps { std::vector<int> id; int n; };
template<class F> Comps components(const CSnap &s, bool eight, F same)
{
    Comps c; c.id.assign(s.w * s.h, -1); c.n = 0;
    for(int i = 0; i < s.w * s.h; ++i)
    {
        if(c.id[i] >= 0 || !same(i, i)) continue;
        std::vector<int> st(1, i); c.id[i] = c.n;
        while(!st.empty())
        {
            int p = st.back(); st.pop_back();
            for(int k = 0; k < 8; k += eight ? 1 : 2)
            {
                int x = p % s.w + DX8[k], y = p / s.w + DY8[k];
                if(x < 0 || y < 0 || x >= s.w || y >= s.h) continue;
                int q = y * s.w + x;
                if(c.id[q] < 0 && same(p, q)) { c.id[q] = c.n; st.push_back(q); }
            }
        }
        ++c.n;
    }
    return c;
}

inline void verifyCells(CMap &m, const CSnap &s, bool outerFirst)
{
    CHECK(m.initialized(), "cell-initialized", "initialized() is false");
    CHECK(s.nc == s.nodes.size() && s.ec == s.edges.size() && s.fc == s.faces.size(), "cell-counts", "counts " << s.nc << "/" << s.ec << "/" << s.fc << " but " << s.nodes.size() << "/" << s.edges.size() << "/" << s.faces.size() << " cells");
    // pixels of cells
    std::map<unsigned, CRect> b[3]; std::map<unsigned, unsigned> n[3];
    for(int y = -2; y < s.h - 2; ++y) for(int x = -2; x < s.w - 2; ++x)
    {
        int t = s.type(x, y); unsigned l = s.label(x, y);
        CHECK(t < 3, "cell-type", "pixel (" << x << "," << y << ") has type " << t);
        CHECK(t == 0 ? s.faces.count(l) : t == 1 ? s.edges.count(l) : s.nodes.count(l), "pixel-of-dead-cell", "pixel (" << x << "," << y << ") belongs to " << (t == 0 ? "face " : t == 1 ? "edge " : "node ") << l << " which does not exist");
        if(t == 0 && (x == -2 || y == -2 || x == s.w - 3 || y == s.h - 3)) CHECK(l == 0, "outer-face-pixel", "pixel (" << x << "," << y << ") does not belong to the infinite face");
        b[t][l].add(x, y); ++n[t][l];
    }
    for(auto &c : s.nodes) { CHECK(n[2][c.first] == c.second.size, "node-size", "node " << c.first << " has size " << c.second.size << ", but " << n[2][c.first] << " pixels"); CHECK(b[2][c.first] == c.second.b, "node-bounds", "node " << c.first << " has bounds " << c.second.b.str() << ", its pixels " << b[2][c.first].str()); }
    for(auto &c : s.edges) { CHECK(n[1][c.first] == c.second.size, "edge-size", "edge " << c.first << " has size " << c.second.size << ", but " << n[1][c.first] << " pixels"); CHECK(b[1][c.first] == c.second.b, "edge-bounds", "edge " << c.first << " has bounds " << c.second.b.str() << ", its pixels " << b[1][c.first].str()); }
    for(auto &c : s.faces)
    {
        if(c.first) CHECK(n[0][c.first] == c.second.size, "face-size", "face " << c.first << " has size " << c.second.size << ", but " << n[0][c.first] << " pixels");
        CHECK(b[0][c.first] == c.second.b, "face-bounds", "face " << c.first << " has bounds " << c.second.b.str() << ", its pixels " << b[0][c.first].str());
    }
    CHECK(s.faces.count(0), "infinite-face", "infinite face vanished");
    // connectivity of cells
    Comps f4 = components(s, false, [&](int p, int q) { return (s.px[p] & 3) == 0 && (s.px[q] & 3) == 0; });
    std::map<int, unsigned> lab; std::map<unsigned, int> of;
    for(int i = 0; i < s.w * s.h; ++i)
        if((s.px[i] & 3) == 0)
        {
            unsigned l = (unsigned)s.px[i] >> 2;
            if(!lab.count(f4.id[i])) { lab[f4.id[i]] = l; CHECK(!of.count(l), "face-disconnected", "face " << l << " consists of several 4-connected parts"); of[l] = f4.id[i]; }
            CHECK(lab[f4.id[i]] == l, "faces-touch", "faces " << lab[f4.id[i]] << " and " << l << " are not separated by boundary pixels");
        }
    Comps nn = components(s, true, [&](int p, int q) { return (s.px[p] & 3) == 2 && (s.px[q] & 3) == 2; });
    std::map<int, unsigned> nl; std::map<unsigned, int> no;
    for(int i = 0; i < s.w * s.h; ++i)
        if((s.px[i] & 3) == 2)
        {
            unsigned l = (unsigned)s.px[i] >> 2;
            if(!nl.count(nn.id[i])) { nl[nn.id[i]] = l; CHECK(!no.count(l), "node-disconnected", "node " << l << " consists of several parts"); no[l] = nn.id[i]; }
            CHECK(nl[nn.id[i]] == l, "nodes-touch", "nodes " << nl[nn.id[i]] << " and " << l << " touch each other");
        }
    Comps ee = components(s, true, [&](int p, int q) { return (s.px[p] & 3) == 1 && s.px[p] == s.px[q]; });
    std::set<unsigned> eseen; std::set<int> ecomp;
    for(int i = 0; i < s.w * s.h; ++i)
        if((s.px[i] & 3) == 1 && ecomp.insert(ee.id[i]).second)
            CHECK(eseen.insert((unsigned)s.px[i] >> 2).second, "edge-disconnected", "edge " << ((unsigned)s.px[i] >> 2) << " consists of several parts");
    // navigation
    std::map<unsigned, unsigned> left; // serialised dart -> left face
    std::map<unsigned, CDart> darts;
    for(auto &c : s.nodes)
    {
        CMap::NodeInfo &node = m.node(c.first);
        CDart a = node.anchor;
        CHECK(a.segmentation() == &m && a.startNodeLabel() == c.first && a.neighborCirculator().center()->type() == ci::CellTypeVertex, "node-anchor", "anchor of node " << c.first << " does not start at it");
        CHECK(a.isSingular() == (node.degree == 0), "node-singular", "node " << c.first << " of degree " << node.degree << (a.isSingular() ? " has a singular anchor" : " has an edge at its anchor"));
        if(a.isSingular()) continue;
        unsigned deg = 0;
        CDart d(a);
        do
        {
            CHECK(++deg <= node.degree, "node-degree", "more than " << node.degree << " darts around node " << c.first);
            CHECK(d.startNodeLabel() == c.first && !d.isSingular(), "sigma-node", "darts around node " << c.first << " leave it");
            CHECK(!darts.count(d.serialize()), "dart-twice", "dart occurs at two nodes");
            darts[d.serialize()] = d;
            CDart e(d); e.nextSigma().prevSigma(); CHECK(e == d && e.serialize() == d.serialize(), "sigma-inverse", "prevSigma(nextSigma()) at node " << c.first);
            d.nextSigma();
        }
        while(d != a);
        CHECK(deg == node.degree, "node-degree", "node " << c.first << " reports degree " << node.degree << ", has " << deg << " darts");
    }
    CHECK(darts.size() == 2 * s.edges.size(), "dart-count", darts.size() << " darts, " << s.edges.size() << " edges");
    for(auto &c : s.edges)
    {
        CMap::EdgeInfo &e = m.edge(c.first);
        CHECK(e.start.segmentation() == &m && e.end.segmentation() == &m && e.start.edgeLabel() == c.first && e.end.edgeLabel() == c.first, "edge-darts", "darts of edge " << c.first << " point to edges " << e.start.edgeLabel() << ", " << e.end.edgeLabel());
        CHECK(e.start.serialize() != e.end.serialize() && darts.count(e.start.serialize()) && darts.count(e.end.serialize()), "edge-ends", "ends of edge " << c.first << " are no darts of its nodes");
        CHECK(e.isLoop() == (e.start.startNodeLabel() == e.end.startNodeLabel()) && e.isBridge() == (e.start.leftFaceLabel() == e.end.leftFaceLabel()), "edge-predicates", "isLoop()/isBridge() of edge " << c.first);
        // faces along the edge
        std::set<unsigned> f;
        for(int y = c.second.b.y1; y < c.second.b.y2; ++y) for(int x = c.second.b.x1; x < c.second.b.x2; ++x)
            if(s.type(x, y) == 1 && s.label(x, y) == c.first)
                for(int k = 0; k < 8; k += 2) if(s.type(x + DX8[k], y + DY8[k]) == 0) f.insert(s.label(x + DX8[k], y + DY8[k]));
        std::set<unsigned> g; g.insert(e.start.leftFaceLabel()); g.insert(e.start.rightFaceLabel());
        CHECK(f == g, "edge-faces", "edge " << c.first << " reports faces " << e.start.leftFaceLabel() << " and " << e.start.rightFaceLabel() << " at its sides, its pixels touch " << f.size() << " faces (first: " << (f.empty() ? -1 : (int)*f.begin()) << ")");
    }
    for(auto &x : darts)
    {
        CDart d(x.second);
        CHECK(s.faces.count(d.leftFaceLabel()) && s.faces.count(d.rightFaceLabel()), "dart-face", "face of a dart of edge " << d.edgeLabel() << " does not exist");
        CDart a(d); a.nextAlpha();
        CHECK(a != d && darts.count(a.serialize()) && a.edgeLabel() == d.edgeLabel(), "alpha", "nextAlpha() on edge " << d.edgeLabel());
        CDart aa(a); aa.nextAlpha(); CHECK(aa == d, "alpha-involution", "nextAlpha() twice on edge " << d.edgeLabel());
        CHECK(d.endNodeLabel() == a.startNodeLabel() && &d.endNode() == &m.node(a.startNodeLabel()) && &d.startNode() == &m.node(d.startNodeLabel()), "dart-end", "endNodeLabel() on edge " << d.edgeLabel());
        CHECK(d.leftFaceLabel() == a.rightFaceLabel() && d.rightFaceLabel() == a.leftFaceLabel(), "dart-sides", "edge " << d.edgeLabel() << ": sides (" << d.leftFaceLabel() << "," << d.rightFaceLabel() << ") from one end, (" << a.leftFaceLabel() << "," << a.rightFaceLabel() << ") from the other");
        CDart p(d); p.nextPhi(); CDart pp(p); pp.prevPhi();
        CHECK(pp == d, "phi-inverse", "prevPhi(nextPhi()) on edge " << d.edgeLabel());
        CHECK(p.leftFaceLabel() == d.leftFaceLabel(), "phi-face", "contour leaves face " << d.leftFaceLabel() << " for " << p.leftFaceLabel());
        CDart z(&m, d.serialize()); CHECK(z == d && z.segmentation() == &m, "dart-serialize", "dart restored from serialize() differs");
        left[x.first] = d.leftFaceLabel();
    }
    // contours
    Comps bc = components(s, true, [&](int p, int q) { return (s.px[p] & 3) != 0 && (s.px[q] & 3) != 0; });
    std::map<int, CRect> cb;
    std::map<unsigned, std::set<int> > touching;
    for(int i = 0; i < s.w * s.h; ++i)
    {
        int x = i % s.w - 2, y = i / s.w - 2;
        if(bc.id[i] >= 0)
        {
            cb[bc.id[i]].add(x, y);
            for(int k = 0; k < 8; k += 2) if(s.type(x + DX8[k], y + DY8[k]) == 0) touching[s.label(x + DX8[k], y + DY8[k])].insert(bc.id[i]);
        }
    }
    std::set<unsigned> covered; size_t singular = 0;
    for(auto &c : s.faces)
    {
        CMap::FaceInfo &face = m.face(c.first);
        std::set<int> mine;
        for(size_t i = 0; i < face.contours.size(); ++i)
        {
            CDart d(face.contours[i]), start(d);
            CHECK(d.segmentation() == &m && d.neighborCirculator().center()->type() == ci::CellTypeVertex && s.nodes.count(d.startNodeLabel()), "contour-anchor", "contour " << i << " of face " << c.first << " does not start at a node");
            CHECK(d.leftFaceLabel() == c.first, "contour-face", "contour " << i << " of face " << c.first << " has face " << d.leftFaceLabel() << " at its left");
            vigra::Diff2D o = d.neighborCirculator().center() - m.cellImage.upperLeft();
            int comp = bc.id[o.y * s.w + o.x];
            CHECK(mine.insert(comp).second, "contour-listed-twice", "face " << c.first << " lists two contours along the same boundary component");
            if(c.first)
            {
                const CRect &q = cb[comp], &fb = c.second.b;
                bool outer = q.x1 < fb.x1 && q.y1 < fb.y1 && q.x2 > fb.x2 && q.y2 > fb.y2;
                if(outerFirst) CHECK(outer == (i == 0), "contour-order", "contour " << i << " of face " << c.first << (outer ? " encloses it" : " lies inside it"));
                stats().count(outer ? "cell_outer_contours" : "cell_holes");
            }
            if(d.isSingular()) { CHECK(m.node(d.startNodeLabel()).degree == 0, "contour-singular", "contour " << i << " of face " << c.first << " starts with a singular dart at a node of degree > 0"); ++singular; continue; }
            do
            {
                CHECK(darts.count(d.serialize()), "contour-dart", "contour of face " << c.first << " contains an unknown dart");
                CHECK(covered.insert(d.serialize()).second, "contour-dart-twice", "dart of edge " << d.edgeLabel() << " lies on two contours");
                d.nextPhi();
            }
            while(d != start);
        }
        CHECK(mine == touching[c.first], "contour-missing", "face " << c.first << " lists " << mine.size() << " contours, but touches " << touching[c.first].size() << " boundary components");
    }
    CHECK(covered.size() == darts.size(), "contour-coverage", covered.size() << " of " << darts.size() << " darts lie on listed contours");
    // Euler relation
    CHECK((int)s.nodes.size() - (int)s.edges.size() + (int)s.faces.size() == 1 + bc.n, "cell-euler", s.nodes.size() << " nodes - " << s.edges.size() << " edges + " << s.faces.size() << " faces != 1 + " << bc.n << " components");
    stats().count("cell_darts", darts.size());
    stats().count("cell_isolated_nodes", singular);
    // scan iterators
    for(int t = 0; t < 3; ++t)
        for(auto &c : t == 0 ? s.faces : t == 1 ? s.edges : s.nodes)
            for(int crop = 0; crop < 2; ++crop)
            {
                typedef CMap::ScanIterator<vigra::Point2D>::type It;
                It it = t == 0 ? m.faceScanIterator(c.first, vigra::Point2D(0, 0), crop) : t == 1 ? m.edgeScanIterator(c.first, vigra::Point2D(0, 0), crop) : m.nodeScanIterator(c.first, vigra::Point2D(0, 0), crop);
                unsigned k = 0, want = 0; int last = -(1 << 30);
                const CRect &q = c.second.b;
                for(int y = q.y1; y < q.y2; ++y) for(int x = q.x1; x < q.x2; ++x)
                    if(s.type(x, y) == t && s.label(x, y) == c.first && (!crop || (x >= 0 && y >= 0 && x < s.w - 4 && y < s.h - 4))) ++want;
                for(; it.inRange(); ++it)
                {
                    ++k;
                    int x = it->x, y = it->y;
                    CHECK(k <= want && !it.atEnd(), "scan-count", "scan of " << (t == 0 ? "face " : t == 1 ? "edge " : "node ") << c.first << " visits more than " << want << " pixels");
                    CHECK(s.valid(x, y) && s.type(x, y) == t && s.label(x, y) == c.first, "scan-pixel", "scan visits pixel (" << x << "," << y << ") of another cell");
                    CHECK(y * 10000 + x > last, "scan-order", "scan visits pixels twice"); last = y * 10000 + x;
                }
                CHECK(k == want && it.atEnd(), "scan-count", "scan of " << (t == 0 ? "face " : t == 1 ? "edge " : "node ") << c.first << (crop ? " (cropped)" : "") << " visits " << k << " of " << want << " pixels");
            }
}

/* --- operations ---------------------------------------------------------*/

enum COpType { CO_ISOLATED, CO_FACES, CO_BRIDGE, CO_EDGES, CO_REMOVE_EDGE, CO_REMOVE_EDGE_WITH_ENDS };
struct COp { COpType t; unsigned dart; std::string str() const { static const char *n[] = {"removeIsolatedNode", "mergeFaces", "removeBridge", "mergeEdges"}; std::ostringstream s; s << n[t] << "(" << (int)((dart >> 14) & 0x3fff) - 2 << "," << (int)(dart & 0x3fff) - 2 << ":" << (dart >> 28) << ")"; return s.str(); } };

// all darts, one singular dart per isolated node
inline std::vector<unsigned> allDarts(CMap &m)
{
    std::vector<unsigned> r;
    for(CMap::NodeIterator it = m.nodesBegin(); it.inRange(); ++it)
    {
        if(it->anchor.isSingular()) { r.push_back(it->anchor.serialize()); continue; }
        CDart d(it->anchor);
        do r.push_back(d.serialize()); while(d.nextSigma() != it->anchor);
    }
    return r;
}
inline bool applicable(CMap &m, const COp &o)
{
    CDart d(&m, o.dart);
    switch(o.t)
    {
        case CO_ISOLATED: return d.isSingular();
        case CO_FACES: return !d.isSingular() && d.leftFaceLabel() != d.rightFaceLabel();
        case CO_BRIDGE: return !d.isSingular() && d.leftFaceLabel() == d.rightFaceLabel();
        default: return !d.isSingular() && d.startNode().degree == 2 && !d.edge().isLoop();
    }
}
inline bool pickCOp(Rng &r, CMap &m, COp &o, bool valid)
{
    std::vector<unsigned> d = allDarts(m);
    if(d.empty()) return false;
    for(int tries = 0; tries < 40; ++tries)
    {
        o.t = (COpType)r.below(4); o.dart = d[r.below(d.size())];
        if(applicable(m, o) == valid) return true;
    }
    return false;
}

struct COpResult { bool threw; std::string what; int kind; unsigned label; };
template<class M> COpResult runCOp(M &m, CMap &seg, const COp &o)
{
    COpResult r; r.threw = false; r.kind = 0; r.label = 0;
    try
    {
        CDart d(&seg, o.dart);
        switch(o.t)
        {
            case CO_ISOLATED: r.label = m.removeIsolatedNode(d).label; break;
            case CO_FACES: r.label = m.mergeFaces(d).label; break;
            case CO_BRIDGE: r.label = m.removeBridge(d).label; break;
            case CO_EDGES: r.label = m.mergeEdges(d).label; r.kind = 1; break;
        }
    }
    catch(std::exception &e) { r.threw = true; r.what = e.what(); }
    return r;
}

// what the operation had to change, in terms of pixels and cells
struct CExpect { std::set<unsigned> node, edge, face; unsigned node1, node2; int survivorType; std::set<unsigned> survivor; };
inline CExpect expectCOp(CMap &m, const COp &o)
{
    CExpect x;
    CDart d(&m, o.dart);
    x.node1 = x.node2 = d.startNodeLabel();
    x.survivorType = 0;
    if(o.t == CO_ISOLATED) { x.node.insert(d.startNodeLabel()); x.survivor.insert(d.leftFaceLabel()); return x; }
    if(o.t == CO_EDGES)
    {
        CDart e(d); e.nextSigma();
        x.node.insert(d.startNodeLabel());
        x.survivorType = 1; x.survivor.insert(d.edgeLabel()); x.survivor.insert(e.edgeLabel());
        return x;
    }
    x.node2 = d.endNodeLabel();
    x.edge.insert(d.edgeLabel());
    x.survivor.insert(d.leftFaceLabel()); x.survivor.insert(d.rightFaceLabel());
    return x;
}

inline void checkCTransition(const CSnap &b, const CSnap &a, const COp &o, const CExpect &x, const COpResult &res)
{
    std::string w = o.str();
    CHECK(!res.threw, "cell-op-threw", w << " raised " << res.what);
    CHECK(x.survivor.count(res.label) && res.kind == x.survivorType, "cell-survivor", w << " returned cell " << res.label << " which is none of the merged ones");
    if(x.survivorType == 0 && x.survivor.count(0)) CHECK(res.label == 0, "cell-infinite-absorbed", w << " absorbed the infinite face");
    // pixels
    int surv = (int)(res.label << 2) | x.survivorType;
    for(int i = 0; i < b.w * b.h; ++i)
    {
        int t = b.px[i] & 3; unsigned l = (unsigned)b.px[i] >> 2;
        bool changed = (t == 2 && x.node.count(l)) || (t == 1 && (x.edge.count(l) || (x.survivorType == 1 && x.survivor.count(l)))) || (t == 0 && x.survivorType == 0 && x.survivor.count(l));
        CHECK(a.px[i] == (changed ? surv : b.px[i]), "cell-pixel", w << ": pixel (" << i % b.w - 2 << "," << i / b.w - 2 << ") changed from " << t << "/" << l << " to " << (a.px[i] & 3) << "/" << ((unsigned)a.px[i] >> 2));
    }
    // cells
    std::set<unsigned> gone[3];
    gone[2] = x.node; gone[1] = x.edge;
    for(unsigned l : x.survivor) if(l != res.label) gone[x.survivorType].insert(l);
    CHECK(a.nodes.size() == b.nodes.size() - gone[2].size() && a.edges.size() == b.edges.size() - gone[1].size() && a.faces.size() == b.faces.size() - gone[0].size(), "cell-op-counts", w << " changed the number of cells wrongly");
    for(int t = 0; t < 3; ++t)
    {
        const std::map<unsigned, CCell> &A = t == 0 ? a.faces : t == 1 ? a.edges : a.nodes, &B = t == 0 ? b.faces : t == 1 ? b.edges : b.nodes;
        for(auto &c : B)
        {
            CHECK((A.count(c.first) == 0) == (gone[t].count(c.first) != 0), "cell-op-cells", w << ": " << (t == 0 ? "face " : t == 1 ? "edge " : "node ") << c.first << (A.count(c.first) ? " still exists" : " vanished"));
            if(!A.count(c.first)) continue;
            const CCell &n = A.at(c.first);
            if(t == 2)
            {
                int dec = o.t == CO_FACES || o.t == CO_BRIDGE ? (c.first == x.node1) + (c.first == x.node2) : 0;
                CHECK(n.degree + dec == c.second.degree, "cell-op-degree", w << ": degree of node " << c.first << " changed from " << c.second.degree << " to " << n.degree);
                if(!dec) CHECK(n.darts == c.second.darts, "cell-op-anchor", w << ": anchor of uninvolved node " << c.first << " changed");
            }
            if(t == 1 && !x.survivor.count(c.first)) CHECK(n == c.second, "cell-op-edge", w << ": uninvolved edge " << c.first << " changed");
            if(t == 1 && x.survivorType == 0) CHECK(n == c.second, "cell-op-edge", w << ": edge " << c.first << " changed");
            if(t == 0 && x.survivorType == 0 && !x.survivor.count(c.first)) CHECK(n == c.second, "cell-op-face", w << ": uninvolved face " << c.first << " changed");
            if(t == 0 && x.survivorType == 1) CHECK(n.b == c.second.b && n.size == c.second.size && n.darts.size() == c.second.darts.size(), "cell-op-face", w << ": face " << c.first << " changed");
        }
    }
}

} // namespace vf
#endif
