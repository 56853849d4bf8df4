// C11: crack-edge maps represent exactly the connected regions of a label image
#include "hist.hxx"
using namespace vf;

struct Regions
{
    int w, h, n = 0;
    std::vector<int> id; // component per pixel
    std::vector<int> label, count;
};

static Regions regions(const vigra::IImage &img, bool eight)
{
    Regions R; R.w = img.width(); R.h = img.height();
    std::vector<int> uf(R.w * R.h);
    for(size_t i = 0; i < uf.size(); ++i) uf[i] = i;
    std::function<int(int)> find = [&](int a) { while(uf[a] != a) a = uf[a] = uf[uf[a]]; return a; };
    auto join = [&](int a, int b) { uf[find(a)] = find(b); };
    auto at = [&](int x, int y) { return img(x, y); };
    for(int y = 0; y < R.h; ++y)
        for(int x = 0; x < R.w; ++x)
        {
            if(x + 1 < R.w && at(x, y) == at(x + 1, y)) join(y * R.w + x, y * R.w + x + 1);
            if(y + 1 < R.h && at(x, y) == at(x, y + 1)) join(y * R.w + x, (y + 1) * R.w + x);
            if(eight && x + 1 < R.w && y + 1 < R.h)
            {
                int a = at(x, y), b = at(x + 1, y), c = at(x, y + 1), d = at(x + 1, y + 1);
                if(a == b || a == c || b == d || c == d) continue;
                bool ad = a == d, bc = b == c;
                if(ad && bc) { if(a > b) bc = false; else ad = false; } // higher label stays connected
                if(ad) join(y * R.w + x, (y + 1) * R.w + x + 1);
                if(bc) join(y * R.w + x + 1, (y + 1) * R.w + x);
            }
        }
    std::map<int, int> num;
    R.id.resize(R.w * R.h);
    for(int i = 0; i < R.w * R.h; ++i)
    {
        int r = find(i);
        if(!num.count(r)) { num[r] = R.n++; R.label.push_back(at(i % R.w, i / R.w)); R.count.push_back(0); }
        R.id[i] = num[r]; ++R.count[num[r]];
    }
    return R;
}

typedef std::pair<std::pair<int, int>, std::pair<int, int> > Crack; // corner coordinates (x+0.5)

static std::string showImg(const vigra::IImage &img)
{
    std::ostringstream s;
    for(int y = 0; y < img.height(); ++y) { for(int x = 0; x < img.width(); ++x) s << img(x, y) << ' '; s << "/ "; }
    return s.str();
}

static vigra::IImage labelImage(Rng &r)
{
    int kind = r.below(5);
    if(kind >= 2) { vigra::IImage img = randomLabelImage(r, kind == 2 ? 5 : 12); if(r.chance(0.3)) { int off = r.range(-3, 300); for(int y = 0; y < img.height(); ++y) for(int x = 0; x < img.width(); ++x) img(x, y) += off; } return img; }
    // many diagonal configurations
    int w = r.range(1, 8), h = r.range(1, 8);
    vigra::IImage img(w, h);
    int n = r.range(2, 3);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        img(x, y) = kind == 0 ? ((x + y) & 1 ? r.below(n) : 1) : (r.chance(0.7) ? (x + y) & 1 : r.below(n));
    return img;
}

static void caseCrack(Rng &r, long long)
{
    vigra::IImage img = labelImage(r);
    bool eight = r.chance(0.6), li = r.chance(0.5);
    note(VF_STR((eight ? "8" : "4") << "-connected " << showImg(img)));
    int w = img.width(), h = img.height();
    vigra::IImage orig(img);
    // (4-connected regions are the default)
    std::unique_ptr<CrackEdgeMapGenerator> genPtr(eight || r.chance(0.5) ? new CrackEdgeMapGenerator(srcImageRange(img), eight) : new CrackEdgeMapGenerator(srcImageRange(img)));
    CrackEdgeMapGenerator &gen = *genPtr;
    gen.initializeMap(li);
    std::shared_ptr<GeoMap> map(gen.result.release());
    GeoMap &m = *map;
    Regions R = regions(img, eight);
    Snap s = takeSnap(m);
    uint64_t hh = hashStr(showImg(img)) + eight;
    stats().state(hh);
    stats().count("regions", R.n);
    if(eight) stats().count("eight_connected");

    CHECK(m.imageSize() == vigra::Size2D(w, h), "image-size", "map has wrong image size");
    verifyGraph(m, s, false); verifyFaces(m, s, true); verifyCaches(m, s);
    CHECK(m.checkConsistency(), "checkConsistency", "checkConsistency() fails");
    CHECK((int)s.faces.size() == R.n + 1, "crack-face-count", s.faces.size() - 1 << " finite faces for " << R.n << " regions");

    // faces <-> regions
    std::map<int, CellLabel> face; std::set<CellLabel> used;
    for(int y = 0; y < h; ++y)
        for(int x = 0; x < w; ++x)
        {
            int id = R.id[y * w + x];
            CellLabel f = m.faceAt(Vector2(x, y))->label();
            CHECK(f != 0, "crack-pixel-outside", "pixel (" << x << "," << y << ") lies in the infinite face");
            if(!face.count(id)) { face[id] = f; CHECK(used.insert(f).second, "crack-face-mixes-regions", "face " << f << " covers several regions"); }
            CHECK(face[id] == f, "crack-region-split", "pixels of one region lie in faces " << face[id] << " and " << f << " (pixel " << x << "," << y << ")");
        }
    for(int i = 0; i < R.n; ++i)
        CHECK(std::fabs(m.face(face[i])->area() - R.count[i]) < 1e-9, "crack-face-area", "face " << face[i] << " has area " << m.face(face[i])->area() << " but its region has " << R.count[i] << " pixels");

    // source labels
    std::vector<CellLabel> src(m.maxFaceLabel() + r.below(3), 77777);
    gen.result = std::auto_ptr<GeoMap>(new GeoMap(m));
    gen.getSourceLabels(srcImage(img), &src);
    gen.result.reset();
    for(int i = 0; i < R.n; ++i)
        CHECK(src[face[i]] == (CellLabel)R.label[i], "crack-source-label", "source label of face " << face[i] << " is " << src[face[i]] << " instead of " << R.label[i]);

    // cracks <-> edge segments
    std::set<Crack> cracks;
    auto add = [&](int x0, int y0, int x1, int y1) { cracks.insert(Crack(std::make_pair(x0, y0), std::make_pair(x1, y1))); };
    for(int y = 0; y <= h; ++y)
        for(int x = 0; x <= w; ++x)
        {
            auto id = [&](int a, int b) { return a < 0 || b < 0 || a >= w || b >= h ? -1 : R.id[b * w + a]; };
            auto lab = [&](int a, int b) { return a < 0 || b < 0 || a >= w || b >= h ? -1000000 : img(a, b); };
            (void)id;
            if(x < w && lab(x, y - 1) != lab(x, y)) add(x, y, x + 1, y);
            if(y < h && lab(x - 1, y) != lab(x, y)) add(x, y, x, y + 1);
        }
    std::set<Crack> seen;
    for(auto &e : s.edges)
    {
        const Poly &p = e.second.p;
        for(size_t i = 1; i < p.size(); ++i)
        {
            std::pair<int, int> a((int)std::lround(p[i-1].first + 0.5), (int)std::lround(p[i-1].second + 0.5)), b((int)std::lround(p[i].first + 0.5), (int)std::lround(p[i].second + 0.5));
            CHECK(p[i-1] == P2(a.first - 0.5, a.second - 0.5) && p[i] == P2(b.first - 0.5, b.second - 0.5) && std::abs(a.first - b.first) + std::abs(a.second - b.second) == 1,
                  "crack-segment", "edge " << e.first << " has a segment which is not a single crack");
            Crack c(std::min(a, b), std::max(a, b));
            CHECK(cracks.count(c), "crack-foreign", "edge " << e.first << " runs along a crack between pixels of the same label");
            CHECK(seen.insert(c).second, "crack-twice", "a crack is covered twice (edge " << e.first << ")");
        }
        bool border = e.second.l == 0 || e.second.r == 0;
        CHECK(((m.edge(e.first)->flags() & GeoMap::Edge::BORDER_PROTECTION) != 0) == border, "crack-border-flag", "edge " << e.first << (border ? " at the image border is not protected" : " is protected though not at the border"));
        if(border) stats().count("border_edges");
        stats().count("edges");
    }
    CHECK(seen.size() == cracks.size(), "crack-missing", cracks.size() - seen.size() << " cracks are not covered by edges");
    // nodes: only where at least three curves meet, or one per closed curve
    for(auto &n : s.nodes)
    {
        int deg = 0; bool loop = false;
        for(auto &e : s.edges) { if(e.second.s == n.first) ++deg; if(e.second.e == n.first) ++deg; if(e.second.s == n.first && e.second.e == n.first) loop = true; }
        CHECK(deg > 2 || (deg == 2 && loop), "crack-superfluous-node", "node " << n.first << " at (" << n.second.first << "," << n.second.second << ") has degree " << deg);
        if(eight && deg == 4)
        {
            // in an 8-connected map curves do not cross where diagonal neighbours are connected
            int x = (int)std::lround(n.second.first + 0.5), y = (int)std::lround(n.second.second + 0.5);
            if(x > 0 && y > 0 && x < w && y < h)
                CHECK(!(R.id[(y-1) * w + x - 1] == R.id[y * w + x] && img(x - 1, y - 1) != img(x, y - 1) && img(x, y) == img(x - 1, y - 1) && img(x, y - 1) != img(x - 1, y)), "crack-node-in-diagonal",
                      "four edges meet at (" << x << "," << y << ") although the diagonal neighbours are connected");
        }
    }
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) CHECK(img(x, y) == orig(x, y), "source-modified", "source image was modified");

    if(li) { verifyLabelImage(m, s); return; }

    // midcracks
    if(r.chance(0.6)) touchCaches(r, m, s);
    note("crackEdgesToMidcracks");
    crackEdgesToMidcracks(m);
    Snap c = takeSnap(m);
    CHECK(c.sigma == s.sigma && c.edges.size() == s.edges.size() && c.faces.size() == s.faces.size() && c.nodes.size() == s.nodes.size() && c.maxN == s.maxN && c.maxE == s.maxE && c.maxF == s.maxF,
          "midcrack-topology", "crackEdgesToMidcracks() changed the topology");
    for(auto &e : s.edges)
    {
        SEdge x = c.edges.at(e.first);
        const Poly &p = e.second.p;
        bool moved = x.s == x.e && s.sigma.at((int)e.first) == -(int)e.first && s.sigma.at(-(int)e.first) == (int)e.first;
        Poly want;
        if(!moved) want.push_back(p.front());
        for(size_t i = 1; i < p.size(); ++i) want.push_back(P2(0.5 * (p[i-1].first + p[i].first), 0.5 * (p[i-1].second + p[i].second)));
        if(moved) want.insert(want.begin(), want.back()); else want.push_back(p.back());
        CHECK(x.p == want, "midcrack-geometry", "edge " << e.first << " does not run through its crack midpoints");
        CHECK(x.s == e.second.s && x.e == e.second.e && x.l == e.second.l && x.r == e.second.r && x.flags == e.second.flags, "midcrack-topology", "crackEdgesToMidcracks() changed edge " << e.first);
        if(moved) stats().count("midcrack_loops"); else stats().count("midcrack_edges");
    }
    verifyGraph(m, c, false); verifyCaches(m, c); verifyCachedScanlines(m, c); verifyFaces(m, c, false);
    CHECK(m.checkConsistency(), "checkConsistency", "checkConsistency() fails after crackEdgesToMidcracks()");
    for(auto &n : c.nodes)
    {
        GeoMap::NodePtr nn = m.nearestNode(toV(n.second));
        CHECK(nn && dist(toP(nn->position()), n.second) < 1e-9, "midcrack-nearest-node", "node " << n.first << " is not found at its new position");
    }
    for(int y = 0; y < h; ++y)
        for(int x = 0; x < w; ++x)
            CHECK(m.faceAt(Vector2(x, y))->label() == face[R.id[y * w + x]], "midcrack-face", "pixel (" << x << "," << y << ") moved to another face");
    int k = r.range(0, 12);
    Snap cur = c;
    for(int i = 0; i < k; ++i)
    {
        Op op;
        if(!pickOp(r, cur, randomKind(r), op)) continue;
        note(op.str());
        OpResult res = runOp(m, op);
        Snap after = takeSnap(m);
        checkTransition(cur, after, op, res, 0);
        cur = after;
        verifyCaches(m, cur);
        stats().count("midcrack_ops");
    }
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> p;
    p["C11"] = caseCrack;
    return runMain(argc, argv, p);
}
