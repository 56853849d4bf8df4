// Polygon class, scanline rasterisation and polygon algorithms.
#include "common.hxx"
#include "geom.hxx"
#include <vigra/config.hxx>
#include <vigra/stdimage.hxx>
#include <vigra/multi_array.hxx>
#include "polygon.hxx"

using namespace vf;
typedef vigra::TinyVector<double, 2> V2;
typedef vigra::PointArray<V2> Arr;
typedef vigra::Polygon<V2> Pg;
typedef vigra::BBoxPolygon<V2> BP;

static P2 P(const V2 &v) { return P2(v[0], v[1]); }
static V2 V(const P2 &p) { return V2(p.first, p.second); }
template<class A> static Poly toPoly(const A &a) { Poly r; for(size_t i = 0; i < a.size(); ++i) r.push_back(P(a[i])); return r; }
template<class A> static A fromPoly(const Poly &p) { A r; for(auto &q : p) static_cast<Arr &>(r).push_back(V(q)); A s(r.begin(), r.end()); return s; }

struct CoordGen
{
    int mode; double lo, hi;
    CoordGen(Rng &r, double l, double h) : mode(r.below(4)), lo(l), hi(h) {}
    double c(Rng &r) const
    {
        double v = r.uni(lo, hi);
        switch(mode)
        {
          case 0: return v;
          case 1: return std::floor(v * 2) / 2;
          case 2: return std::floor(v);
          default: return r.chance(0.5) ? v : std::floor(v * 2) / 2;
        }
    }
    P2 p(Rng &r) const { double x = c(r); return P2(x, c(r)); }
};

static std::string show(const Poly &p)
{
    std::string s = "[";
    for(auto &q : p) { s += VF_STR("(" << q.first << "," << q.second << ") "); if(s.size() > 1500) { s += "..."; break; } }
    return s + "]";
}
static uint64_t polyHash(const Poly &p) { uint64_t h = p.size(); for(auto &q : p) { h = mixd(h, q.first); h = mixd(h, q.second); } return h; }

/********************************************************************/
// C15: cached polygon properties under all mutators

static void verifyPoly(const BP &p, const Poly &ref, int which, const std::string &after)
{
    CHECK(p.size() == ref.size(), "poly-size", after << ": size " << p.size() << " != " << ref.size());
    for(size_t i = 0; i < ref.size(); ++i)
        CHECK(P(p[i]) == ref[i], "poly-points", after << ": point " << i << " differs");
    double scale = 1 + polyLength(ref);
    if(which & 1)
        CHECK(std::fabs(p.length() - polyLength(ref)) <= 1e-9 * scale, "poly-length", after << ": length() " << p.length() << " but recomputed " << polyLength(ref) << " for " << show(ref));
    if(which & 2)
        CHECK(std::fabs(p.partialArea() - polyPartialArea(ref)) <= 1e-8 * scale * 200, "poly-area", after << ": partialArea() " << p.partialArea() << " but recomputed " << polyPartialArea(ref) << " for " << show(ref));
    if(which & 4)
    {
        BP::BoundingBox b = p.boundingBox();
        if(ref.empty())
            CHECK(b.isEmpty(), "poly-bbox", after << ": bounding box of empty polygon is not empty");
        else
        {
            double x0 = 1e300, y0 = 1e300, x1 = -1e300, y1 = -1e300;
            for(auto &q : ref) { x0 = std::min(x0, q.first); x1 = std::max(x1, q.first); y0 = std::min(y0, q.second); y1 = std::max(y1, q.second); }
            CHECK(b.begin()[0] == x0 && b.begin()[1] == y0 && b.end()[0] == x1 && b.end()[1] == y1, "poly-bbox",
                  after << ": boundingBox() (" << b.begin()[0] << "," << b.begin()[1] << ")-(" << b.end()[0] << "," << b.end()[1] << ") but points span (" << x0 << "," << y0 << ")-(" << x1 << "," << y1 << ") for " << show(ref));
        }
    }
    if((which & 8) && ref.size())
    {
        CHECK(p.closed() == (ref.front() == ref.back()), "poly-closed", after << ": closed()");
        vigra::ArrayVector<double> al;
        p.arcLengthList(al);
        CHECK(al.size() == ref.size(), "poly-arclength", after << ": arc length list size");
        double l = 0;
        for(size_t i = 0; i < ref.size(); ++i)
        {
            if(i) l += dist(ref[i-1], ref[i]);
            CHECK(std::fabs(al[i] - l) <= 1e-9 * scale, "poly-arclength", after << ": arc length " << i);
        }
    }
    uint64_t h = polyHash(ref); h = mix(h, which);
    stats().state(h);
}

// a point that is close to q, but different
static P2 nearby(Rng &r, P2 q)
{
    double d = std::pow(10.0, -r.range(2, 12));
    if(r.chance(0.7)) q.first += r.chance(0.5) ? d : -d;
    if(r.chance(0.7)) q.second += r.chance(0.5) ? d : -d;
    return q;
}

static void caseC15(Rng &r, long long)
{
    CoordGen g(r, r.chance(0.3) ? -30 : 0, r.uni(5, 60));
    BP p; Poly ref;
    int form = r.below(4);
    if(form > 0)
    {
        int n = r.range(1, 12);
        for(int i = 0; i < n; ++i) ref.push_back(g.p(r));
        if(r.chance(0.3)) ref.push_back(r.chance(0.7) ? ref[0] : nearby(r, ref[0]));
        Arr a = fromPoly<Arr>(ref);
        if(form == 1) p = BP(a);
        else if(form == 2) { Pg q(a.begin(), a.end()); q.length(); p = BP(q); }
        else p = BP(a.begin(), a.end());
    }
    note(VF_STR("start with " << ref.size() << " points"));
    verifyPoly(p, ref, r.below(16), "construction");
    int n = r.range(4, 30);
    for(int k = 0; k < n; ++k)
    {
        std::string what;
        switch(r.below(14))
        {
          case 0: case 1: { P2 q = r.chance(0.15) && ref.size() ? (r.chance(0.6) ? ref[r.below(ref.size())] : nearby(r, ref[0])) : g.p(r); what = "push_back"; p.push_back(V(q)); ref.push_back(q); break; }
          case 2:
          {
            Poly o; int m = r.below(7);
            for(int i = 0; i < m; ++i) o.push_back(g.p(r));
            if(m && ref.size() && r.chance(0.6)) o[0] = r.chance(0.7) ? ref.back() : nearby(r, ref.back());
            BP op(fromPoly<Arr>(o));
            if(r.chance(0.5)) op.length();
            if(r.chance(0.5)) op.partialArea();
            if(r.chance(0.5)) op.boundingBox();
            what = "extend"; p.extend(op);
            verifyPoly(op, o, 15, "extend (argument)");
            if(m) ref.insert(ref.end(), o.begin() + (ref.size() && o[0] == ref.back() ? 1 : 0), o.end());
            break;
          }
          case 3: case 4: if(!ref.size()) continue; { int i = r.below(ref.size()); P2 q = g.p(r); if(r.chance(0.3)) q = P2(ref[i].first + (r.below(3) - 1) * 3, ref[i].second + (r.below(3) - 1) * 3); what = "setPoint"; p.setPoint(i, V(q)); ref[i] = q; break; }
          case 5: if(!ref.size()) continue; { int i = r.below(ref.size()); what = "erase"; p.erase(p.begin() + i); ref.erase(ref.begin() + i); break; }
          case 6: { int i = r.below(ref.size() + 1); P2 q = g.p(r); what = "insert"; BP::iterator it = p.insert(p.begin() + i, V(q)); ref.insert(ref.begin() + i, q); CHECK(it - p.begin() == i, "insert-iterator", "insert() returned a wrong position"); break; }
          case 7:
          {
            int i = r.below(ref.size() + 1), m = r.below(5); Poly o; for(int j = 0; j < m; ++j) o.push_back(g.p(r));
            Arr oa = fromPoly<Arr>(o);
            what = "insert range"; BP::iterator it = p.insert(p.begin() + i, oa.begin(), oa.end()); ref.insert(ref.begin() + i, o.begin(), o.end());
            CHECK(it - p.begin() == i, "insert-iterator", "range insert() returned a wrong position");
            break;
          }
          case 8: if(!ref.size()) continue;
          {
            int i = r.below(ref.size()); what = VF_STR("split(" << i << ")");
            BP rest = p.split(i);
            Poly rr(ref.begin() + i, ref.end()); ref.resize(i + 1);
            verifyPoly(rest, rr, 15, what + " (second part)");
            if(r.chance(0.3)) { p.swap(rest); ref.swap(rr); what += "+swap"; verifyPoly(rest, rr, 15, what); }
            break;
          }
          case 9:
          {
            Poly o; int m = r.below(6); for(int i = 0; i < m; ++i) o.push_back(g.p(r));
            BP op(fromPoly<Arr>(o)); if(r.chance(0.6)) { op.length(); op.boundingBox(); op.partialArea(); }
            what = "swap"; p.swap(op); std::swap(ref, o); verifyPoly(op, o, 15, "swap (other)"); break;
          }
          case 10:
          {
            Poly o; int m = r.below(6); for(int i = 0; i < m; ++i) o.push_back(g.p(r));
            Arr op = fromPoly<Arr>(o);
            what = "swap points"; p.swap(op); std::swap(ref, o);
            CHECK(toPoly(op) == o, "poly-points", "swap with point array lost points"); break;
          }
          case 11: what = "reverse"; p.reverse(); std::reverse(ref.begin(), ref.end()); break;
          case 12: if(!ref.size()) continue; { what = "in-place change + invalidateProperties"; int i = r.below(ref.size()); ref[i] = g.p(r); p[i] = V(ref[i]); p.invalidateProperties(); break; }
          default:
            if(r.chance(0.4)) { what = "clear"; p.clear(); ref.clear(); }
            else { what = "copy"; BP q(p); p = q; verifyPoly(q, ref, 15, "copy"); if(r.chance(0.5)) { q.push_back(V2(1, 2)); } }
        }
        stats().count("mut_" + what.substr(0, what.find_first_of("(+ ")));
        note(what);
        verifyPoly(p, ref, r.chance(0.3) ? 15 : r.below(16), what);
    }
    verifyPoly(p, ref, 15, "end");
}

/********************************************************************/
// C16: scanline rasterisation

struct Cover { std::map<int, std::vector<std::pair<int, int> > > rows; }; // y -> sorted [b,e)

static Poly randomClosed(Rng &r, const CoordGen &g)
{
    Poly p; int kind = r.below(4);
    if(kind == 0) // simple star-shaped
    {
        P2 c = g.p(r); int n = r.range(3, 14); double R = r.uni(0.3, 9); bool cw = r.chance(0.4);
        std::vector<double> a; for(int i = 0; i < n; ++i) a.push_back(r.uni(0, 2 * M_PI)); std::sort(a.begin(), a.end()); if(cw) std::reverse(a.begin(), a.end());
        for(int i = 0; i < n; ++i) { double rr = R * r.uni(0.2, 1); P2 q(c.first + rr * cos(a[i]), c.second + rr * sin(a[i])); if(g.mode == 1) q = P2(std::floor(q.first * 2) / 2, std::floor(q.second * 2) / 2); p.push_back(q); }
    }
    else if(kind == 1) // axis-parallel walk
    {
        P2 q = g.p(r); q = P2(std::floor(q.first) + 0.5, std::floor(q.second) + 0.5); P2 q0 = q; int n = r.range(2, 20);
        p.push_back(q);
        for(int i = 0; i < n; ++i) { int d = r.below(4), s = r.range(1, 3); q = P2(q.first + (d == 0) * s - (d == 1) * s, q.second + (d == 2) * s - (d == 3) * s); p.push_back(q); }
        if(q.first != q0.first) p.push_back(P2(q0.first, q.second));
    }
    else // arbitrary, self-intersecting
    {
        int n = r.range(1, 10);
        for(int i = 0; i < n; ++i) p.push_back(r.chance(0.15) && i ? p[r.below(i)] : g.p(r));
    }
    p.push_back(p[0]);
    return p;
}

static void caseC16(Rng &r, long long)
{
    int w = r.range(1, 18), h = r.range(1, 18);
    CoordGen g(r, -5, 22);
    Poly p = randomClosed(r, g);
    bool open = r.chance(0.25);
    if(open && p.size() > 2) p.pop_back(); else open = false;
    note(show(p));
    BP bp(fromPoly<Arr>(p));
    std::auto_ptr<vigra::Scanlines> sl = vigra::scanPoly(bp);
    const double T = 1e-7;
    int y0 = 1000000, y1 = -1000000, x0 = 1000000, x1 = -1000000;
    for(auto &q : p)
    {
        y0 = std::min(y0, (int)std::floor(q.second - 1)); y1 = std::max(y1, (int)std::ceil(q.second + 1));
        x0 = std::min(x0, (int)std::floor(q.first - 2)); x1 = std::max(x1, (int)std::ceil(q.first + 2));
    }
    std::map<std::pair<int, int>, int> state; // pixel -> 1 touched / 0 untouched (from scanlines), value = 1 | winding sum
    std::vector<std::pair<int, int> > covered;
    uint64_t hh = 0;
    for(int y = std::min(y0, sl->startIndex()); y <= std::max(y1, sl->endIndex()); ++y)
    {
        bool has = y >= sl->startIndex() && y < sl->endIndex();
        static const vigra::Scanlines::Scanline none;
        const vigra::Scanlines::Scanline &line = has ? (*sl)[y] : none;
        int sum = 0; size_t j = 0;
        for(size_t i = 0; i < line.size(); ++i)
        {
            CHECK(line[i].begin <= line[i].end, "segment-order", "scanline " << y << ": segment [" << line[i].begin << "," << line[i].end << ")");
            if(i) CHECK(line[i].begin > line[i-1].end, "segments-not-normalized", "scanline " << y << ": segments " << i - 1 << " and " << i << " overlap or touch");
            hh = mix(mix(mix(hh, line[i].begin), line[i].end), line[i].direction + 7);
            sum += line[i].direction;
        }
        if(!open) CHECK(sum == 0, "scanline-not-closed", "scanline " << y << " of a closed polygon has direction sum " << sum);
        sum = 0;
        for(int x = x0; x <= x1; ++x)
        {
            while(j < line.size() && line[j].end <= x) { sum += line[j].direction; ++j; }
            bool cov = j < line.size() && line[j].begin <= x && x < line[j].end;
            if(cov) covered.push_back(std::make_pair(y, x));
            bool must = polyHitsBox(p, x - 0.5 + T, y - 0.5 + T, x + 0.5 - T, y + 0.5 - T);
            bool may = polyHitsBox(p, x - 0.5 - T, y - 0.5 - T, x + 0.5 + T, y + 0.5 + T);
            if(p.size() == 1) { must = false; may = std::fabs(p[0].first - x) <= 0.5 + T && std::fabs(p[0].second - y) <= 0.5 + T; }
            if(must) { CHECK(cov, "crossed-pixel-missed", "pixel (" << x << "," << y << ") is crossed by the polygon but not in its scanlines: " << show(p)); stats().count("crossed_pixels"); }
            if(cov) CHECK(may, "uncrossed-pixel-marked", "pixel (" << x << "," << y << ") is in the scanlines but not crossed by the polygon: " << show(p));
            if(!cov && !open)
            {
                // untouched pixel (up to its boundary): inside sum is twice the winding number
                bool inner = !polyHitsBox(p, x - T, y - T, x + T, y + T);
                int wn = windingNumber(P2(x, y), p);
                if(inner && !may) { CHECK(sum == 2 * wn, "wrong-inside-state", "pixel (" << x << "," << y << ") has winding number " << wn << " but scanline direction sum " << sum << ": " << show(p)); stats().count(wn > 0 ? "inside_pixels" : (wn < 0 ? "inside_pixels_neg" : "outside_pixels")); }
            }
        }
    }
    // iteration over crossed pixels
    {
        std::vector<std::pair<int, int> > got;
        long guard = 0;
        for(vigra::ScanlinesIter it(*sl); it.inRange(); ++it)
        {
            got.push_back(std::make_pair((*it).y, (*it).x));
            if(++guard > 200000) VIOLATE("pixel-iteration-endless", "iterating over crossed pixels does not end");
        }
        CHECK(got == covered, "pixel-iteration", "iteration visits " << got.size() << " pixels, scanlines cover " << covered.size() << ": " << show(p));
        stats().count("pixels_iterated", got.size());
    }
    // drawing / filling into an image
    {
        vigra::IImage img(w, h), img2(w, h); img = 7; img2 = 7;
        typedef vigra::MultiArrayView<2, int> View;
        View v(vigra::TinyVector<std::ptrdiff_t, 2>(w, h), img.data()), v2(vigra::TinyVector<std::ptrdiff_t, 2>(w, h), img2.data());
        vigra::TinyVector<int, 2> sz(w, h);
        unsigned cnt = vigra::drawScannedPoly(*sl, -3, v.traverser_begin(), sz, vigra::StandardValueAccessor<int>());
        std::set<std::pair<int, int> > cs(covered.begin(), covered.end());
        unsigned want = 0;
        for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        {
            bool c = cs.count(std::make_pair(y, x)) > 0; want += c;
            CHECK(img(x, y) == (c ? -3 : 7), "draw-pixels", "drawing set pixel (" << x << "," << y << ") to " << img(x, y));
        }
        CHECK(cnt == want, "draw-count", "drawing returned " << cnt << " instead of " << want);
        if(!open)
        {
            unsigned fc = vigra::fillScannedPoly(*sl, 9, v2.traverser_begin(), sz, vigra::StandardValueAccessor<int>());
            unsigned fw = 0;
            for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
            {
                if(img2(x, y) == 9) ++fw;
                if(cs.count(std::make_pair(y, x))) { CHECK(img2(x, y) == 7, "fill-boundary", "filling changed the boundary pixel (" << x << "," << y << ")"); continue; }
                if(polyHitsBox(p, x - 0.5 - T, y - 0.5 - T, x + 0.5 + T, y + 0.5 + T)) continue;
                int wn = windingNumber(P2(x, y), p);
                CHECK(img2(x, y) == (wn > 0 ? 9 : 7), "fill-pixels", "filling left pixel (" << x << "," << y << ") with winding number " << wn << " at " << img2(x, y) << ": " << show(p));
                stats().count("filled_checked");
            }
            CHECK(fc == fw, "fill-count", "filling returned " << fc << " but set " << fw << " pixels");
        }
    }
    // restricted scan = restriction of the full scan
    {
        int s = r.range(-6, 20), c = r.range(0, 20);
        std::auto_ptr<vigra::Scanlines> part = vigra::scanPoly(static_cast<const Arr &>(bp), (unsigned)c, s);
        CHECK(part->startIndex() == s && part->endIndex() == s + c && (int)part->size() == c, "scan-range", "scanning " << c << " lines from " << s);
        for(int y = s; y < s + c; ++y)
        {
            bool has = y >= sl->startIndex() && y < sl->endIndex();
            if(has) CHECK((*part)[y] == (*sl)[y], "scan-restriction", "line " << y << " of a restricted scan differs");
            else CHECK((*part)[y].empty(), "scan-restriction", "line " << y << " outside the polygon is not empty");
        }
    }
    // additivity over split polygons, reversal
    if(p.size() > 2)
    {
        BP a(bp); BP b = a.split(r.range(1, p.size() - 2));
        std::auto_ptr<vigra::Scanlines> sa = vigra::scanPoly(a), sb = vigra::scanPoly(b);
        bool front = r.chance(0.5);
        vigra::Scanlines sum(front ? *sa : *sb);
        sum += front ? *sb : *sa;
        for(int y = std::min(sl->startIndex(), sum.startIndex()); y < std::max(sl->endIndex(), sum.endIndex()); ++y)
        {
            static const vigra::Scanlines::Scanline none;
            const vigra::Scanlines::Scanline &l1 = y >= sl->startIndex() && y < sl->endIndex() ? (*sl)[y] : none;
            const vigra::Scanlines::Scanline &l2 = y >= sum.startIndex() && y < sum.endIndex() ? sum[y] : none;
            CHECK(l1 == l2, "scan-additivity", "line " << y << ": merged scanlines of both parts of a split polygon differ from those of the polygon " << show(p));
        }
        stats().count("additivity_checked");
        vigra::Scanlines rev(*sl); rev.reverse();
        for(int y = sl->startIndex(); y < sl->endIndex(); ++y)
        {
            CHECK(rev[y].size() == (*sl)[y].size(), "scan-reverse", "reversal changes the number of segments");
            for(size_t i = 0; i < rev[y].size(); ++i)
                CHECK(rev[y][i].begin == (*sl)[y][i].begin && rev[y][i].end == (*sl)[y][i].end && rev[y][i].direction == -(*sl)[y][i].direction, "scan-reverse", "reversal does not just negate directions");
        }
    }
    stats().state(hh);
}

/********************************************************************/
// C17: polygon algorithms

static Poly refHull(Poly p) // monotone chain, visually counter-clockwise
{
    std::sort(p.begin(), p.end()); p.erase(std::unique(p.begin(), p.end()), p.end());
    if(p.size() < 3) return p;
    Poly h(2 * p.size()); size_t k = 0;
    for(size_t i = 0; i < p.size(); ++i) { while(k >= 2 && cross(h[k-2], h[k-1], p[i]) <= 0) --k; h[k++] = p[i]; }
    for(size_t i = p.size() - 1, t = k + 1; i-- > 0;) { while(k >= t && cross(h[k-2], h[k-1], p[i]) <= 0) --k; h[k++] = p[i]; }
    h.resize(k - 1);
    return h;
}

static void refSimplify(const Poly &p, size_t a, size_t b, double eps, double maxStep2, std::vector<size_t> &out, bool &tie)
{
    if(b - a < 2) return;
    double L2 = std::pow(dist(p[a], p[b]), 2), best = eps; size_t at = b;
    for(size_t i = a + 1; i < b; ++i)
    {
        double d = L2 > 1e-16 ? std::fabs(cross(p[a], p[b], p[i])) / std::sqrt(L2) : dist(p[i], p[a]);
        if(std::fabs(d - best) < 1e-9 * (1 + best)) tie = true;
        if(d > best) { best = d; at = i; }
    }
    if(at == b && L2 > maxStep2)
    {
        double bd = 1e300;
        for(size_t i = a + 1; i < b; ++i)
        {
            double d = std::fabs(std::pow(dist(p[i], p[a]), 2) - std::pow(dist(p[i], p[b]), 2));
            if(std::fabs(d - bd) < 1e-7 * (1 + d)) tie = true;
            if(d < bd) { bd = d; at = i; }
        }
    }
    if(std::fabs(L2 - maxStep2) < 1e-7) tie = true;
    if(at == b) return;
    refSimplify(p, a, at, eps, maxStep2, out, tie);
    out.push_back(at);
    refSimplify(p, at, b, eps, maxStep2, out, tie);
}

static P2 atArc(const Poly &p, double s)
{
    for(size_t i = 1; i < p.size(); ++i)
    {
        double l = dist(p[i-1], p[i]);
        if(s <= l || i + 1 == p.size()) { double t = l > 0 ? s / l : 0; return P2(p[i-1].first + t * (p[i].first - p[i-1].first), p[i-1].second + t * (p[i].second - p[i-1].second)); }
        s -= l;
    }
    return p.back();
}

typedef std::function<Poly(const Poly &)> Filter;

// a linear smoothing filter commutes with translation, rotation by 90 degree and scaling (parameters scaled too)
static void equivariance(Rng &r, const std::string &name, const Poly &p, const Filter &f, const Filter &fs, double sc)
{
    Poly a = f(p);
    double ext = 1; for(auto &q : p) ext = std::max(ext, std::max(std::fabs(q.first), std::fabs(q.second)));
    double tol = 1e-6 * ext;
    auto cmp = [&](const std::string &what, const Poly &want, const Poly &got)
    {
        CHECK(want.size() == got.size(), name + "-equivariance", name << " under " << what << ": " << got.size() << " points instead of " << want.size() << " for " << show(p));
        for(size_t i = 0; i < want.size(); ++i)
            CHECK(dist(want[i], got[i]) < tol, name + "-equivariance", name << " under " << what << ": point " << i << " is (" << got[i].first << "," << got[i].second << ") instead of (" << want[i].first << "," << want[i].second << ") for " << show(p));
        stats().count("equivariance");
    };
    double tx = r.uni(-20, 20), ty = r.uni(-20, 20);
    Poly q(p), w(a);
    for(auto &x : q) x = P2(x.first + tx, x.second + ty);
    q.back() = p.front() == p.back() ? q.front() : q.back();
    for(auto &x : w) x = P2(x.first + tx, x.second + ty);
    cmp("translation", w, f(q));
    q = p; w = a;
    for(auto &x : q) x = P2(-x.second, x.first);
    for(auto &x : w) x = P2(-x.second, x.first);
    cmp("rotation", w, f(q));
    if(!fs) return;
    q = p; w = a;
    for(auto &x : q) x = P2(sc * x.first, sc * x.second);
    for(auto &x : w) x = P2(sc * x.first, sc * x.second);
    cmp("scaling", w, fs(q));
}

static double bspline3(double t)
{
    t = std::fabs(t);
    return t < 1 ? 2.0 / 3 - t * t + t * t * t / 2 : t < 2 ? (2 - t) * (2 - t) * (2 - t) / 6 : 0;
}

// least-squares cubic spline approximation: the error is orthogonal to all basis functions
static void splinePoints(Rng &r, uint64_t *hh)
{
    int n = r.range(3, 14), sz = r.range(4, 20);
    bool closed = r.chance(0.5);
    Poly p; P2 q(r.uni(0, 5), r.uni(0, 5)); double dir = r.uni(0, 6);
    for(int i = 0; i < sz; ++i)
    {
        if(closed) { double a = 2 * M_PI * i / sz, R = r.uni(2, 5); q = P2(6 + R * cos(a), 6 + R * sin(a)); }
        p.push_back(q);
        if(!closed) { dir += r.uni(-1, 1); double st = r.chance(0.2) ? r.uni(2, 6) : r.uni(0.2, 1.5); q = P2(q.first + st * cos(dir), q.second + st * sin(dir)); }
    }
    if(closed) { p.push_back(p[0]); }
    note(VF_STR("spline with " << n << " segments of " << show(p)));
    *hh = mix(polyHash(p), 1000 + n);
    BP in(fromPoly<Arr>(p)), out;
    vigra::polygonSplineControlPoints(in, out, n);
    Poly c = toPoly(out);
    CHECK((int)c.size() == (closed ? n + 1 : n + 3), "spline-count", c.size() << " control points for " << n << " segments");
    if(closed) CHECK(c.front() == c.back(), "spline-open", "spline of a closed polygon is not closed");
    double L = polyLength(p);
    std::function<P2(int)> ctl = [&](int j) -> P2 {
        if(closed) return c[((j % n) + n) % n];
        if(j < 0) { P2 a = c[1], b = ctl(-j); return P2(2 * a.first - b.first, 2 * a.second - b.second); }
        if(j > n) { P2 a = c[n + 1], b = ctl(2 * n - j); return P2(2 * a.first - b.first, 2 * a.second - b.second); }
        return c[j + 1];
    };
    if(!closed)
    {
        P2 e0 = ctl(-1), e1 = ctl(n + 1);
        CHECK(dist(e0, c[0]) < 1e-8 && dist(e1, c.back()) < 1e-8, "spline-ends", "additional control points at the ends");
    }
    std::function<P2(double)> curve = [&](double t) -> P2 {
        if(closed) { t -= n * std::floor(t / n); return atArc(p, t * L / n); }
        if(t < 0) { P2 b = curve(-t); return P2(2 * p[0].first - b.first, 2 * p[0].second - b.second); }
        if(t > n) { P2 b = curve(2 * n - t); return P2(2 * p.back().first - b.first, 2 * p.back().second - b.second); }
        return atArc(p, t * L / n);
    };
    std::set<double> base;
    { double a = 0; for(size_t i = 0; i < p.size(); ++i) { if(i) a += dist(p[i-1], p[i]); double t = a * n / L; for(int m = -2; m <= 2; ++m) { base.insert(t + m * n); base.insert(-t + m * n); } } }
    static const double gx[4] = {-0.8611363115940526, -0.3399810435848563, 0.3399810435848563, 0.8611363115940526}, gw[4] = {0.3478548451374538, 0.6521451548625461, 0.6521451548625461, 0.3478548451374538};
    for(int k = 0; k <= n; ++k)
    {
        std::vector<double> br;
        for(int i = -2; i <= 2; ++i) br.push_back(k + i);
        for(std::set<double>::iterator it = base.lower_bound(k - 2); it != base.end() && *it < k + 2; ++it) br.push_back(*it);
        std::sort(br.begin(), br.end());
        double ex = 0, ey = 0;
        for(size_t i = 1; i < br.size(); ++i)
        {
            double h = (br[i] - br[i-1]) / 2, m = (br[i] + br[i-1]) / 2;
            if(h < 1e-13) continue;
            for(int gidx = 0; gidx < 4; ++gidx)
            {
                double t = m + h * gx[gidx], w = h * gw[gidx] * bspline3(t - k);
                P2 v = curve(t); double sx = 0, sy = 0;
                for(int j = (int)std::floor(t) - 1; j <= (int)std::floor(t) + 2; ++j) { double b = bspline3(t - j); P2 cj = ctl(j); sx += b * cj.first; sy += b * cj.second; }
                ex += w * (sx - v.first); ey += w * (sy - v.second);
            }
        }
        CHECK(std::hypot(ex, ey) < 1e-5 * (1 + L), "spline-residual", "the error of the spline approximation with " << n << " segments is not orthogonal to basis function " << k << " (" << ex << "," << ey << ") for " << (closed ? "closed " : "open ") << show(p));
        stats().count("spline_residuals");
    }
}

// brute force recognition of digital straight segments p[i..j]
static bool isDSS(const Poly &p, size_t i, size_t j, int conn)
{
    for(size_t u = i; u <= j; ++u) for(size_t v = u + 1; v <= j; ++v)
    {
        long dx = std::lround(p[v].first - p[u].first), dy = std::lround(p[v].second - p[u].second), g = std::labs(dx), h = std::labs(dy);
        while(h) { long t = g % h; g = h; h = t; }
        dx /= g; dy /= g;
        double lo = 1e9, hi = -1e9;
        for(size_t k = i; k <= j; ++k) { double d = dy * p[k].first - dx * p[k].second; lo = std::min(lo, d); hi = std::max(hi, d); }
        if(hi - lo <= (conn == 4 ? std::labs(dx) + std::labs(dy) : std::max(std::labs(dx), std::labs(dy))) - 1) return true;
    }
    return false;
}

// digital curves: digital lines are reduced to their end points
static void digitalLines(Rng &r, uint64_t *hh)
{
    int conn = r.chance(0.5) ? 4 : 8, n = r.range(3, 40);
    int b = r.range(1, 12), a = r.range(0, b), mu = r.range(0, b - 1), sx = r.chance(0.5) ? 1 : -1, sy = r.chance(0.5) ? 1 : -1; bool sw = r.chance(0.5);
    bool wild = r.chance(0.4);
    Poly p; int x = r.range(-5, 5), y = r.range(-5, 5), acc = mu;
    for(int i = 0; i < n; ++i)
    {
        p.push_back(P2(sx * (sw ? y : x), sy * (sw ? x : y)));
        if(wild && r.chance(0.15)) { a = r.range(0, b); }
        if(conn == 8) { ++x; acc += a; if(acc >= b) { acc -= b; ++y; } }
        else { acc += a; if(acc >= a + b) { acc -= a + b; ++y; } else ++x; }
    }
    bool closedCurve = r.chance(0.25);
    if(closedCurve)
    {
        // outline of a staircase region: monotone up and to the right, then back
        int w = r.range(1, 9), h = r.range(1, 9); p.clear(); wild = true; conn = 4;
        std::vector<int> lo(w), hi(w); int l = 0;
        for(int i = 0; i < w; ++i) { l = std::min(h - 1, l + (int)r.below(2)); lo[i] = l; }
        int u = h; for(int i = w; i-- > 0; ) { u = std::max(lo[i] + 1, u - (int)r.below(2)); hi[i] = u; }
        Poly q; int cy = lo[0]; q.push_back(P2(0, cy));
        for(int i = 0; i < w; ++i) { while(cy < lo[i]) q.push_back(P2(i, ++cy)); q.push_back(P2(i + 1, cy)); }
        while(cy < hi[w - 1]) q.push_back(P2(w, ++cy));
        for(int i = w; i-- > 0; ) { while(cy > hi[i]) q.push_back(P2(i + 1, --cy)); while(cy < hi[i]) q.push_back(P2(i + 1, ++cy)); q.push_back(P2(i, cy)); }
        while(cy > lo[0] + 1) q.push_back(P2(0, --cy));
        int off = r.below((int)q.size());
        for(size_t i = 0; i < q.size(); ++i) p.push_back(q[(i + off) % q.size()]);
        p.push_back(p[0]);
    }
    note(VF_STR("digital line simplification, connectivity " << conn << " " << show(p)));
    *hh = mix(polyHash(p), conn);
    Arr in = fromPoly<Arr>(p), out;
    vigra::simplifyPolygonDigitalLine(in, out, conn);
    Poly o = toPoly(out);
    for(size_t i = 0; i < o.size(); ++i) CHECK(std::isfinite(o[i].first) && std::isfinite(o[i].second), "digital-finite", "simplification of " << show(p) << " gave " << show(o));
    if(closedCurve) { CHECK(o.size() >= 2 && o.front() == o.back(), "digital-open", "simplification of " << show(p) << " opened the curve: " << show(o)); CHECK(o.size() <= p.size() + 1, "digital-count", "simplification of " << show(p) << " added points: " << show(o)); stats().count("digital_closed"); return; }
    CHECK(o.size() >= 2 && o.front() == p.front() && o.back() == p.back(), "digital-ends", "simplification of " << show(p) << " moved the end points: " << show(o));
    CHECK(o.size() <= p.size(), "digital-count", "simplification of " << show(p) << " added points: " << show(o));
    if(!wild) CHECK(o.size() == 2, "digital-straight", "digital line " << a << "/" << b << " " << show(p) << " is simplified to " << show(o));
    size_t segs = 1, start = 0;
    for(size_t k = 2; k < p.size(); ++k) if(k - start >= 2 && !isDSS(p, start, k, conn)) { ++segs; start = k - 1; }
    CHECK(o.size() == segs + 1, "digital-segments", show(p) << " consists of " << segs << " maximal digital segments (greedily from its start), but is simplified to " << show(o));
    stats().count(wild ? "digital_curves" : "digital_lines");
}

static void caseC17(Rng &r, long long)
{
    CoordGen g(r, 0, 12);
    int kind = r.below(10);
    note(VF_STR("kind " << kind));
    uint64_t hh = kind;
    if(kind == 0) // convex hull
    {
        int n = r.range(2, 20); Poly p; for(int i = 0; i < n; ++i) p.push_back(r.chance(0.2) && i ? p[r.below(i)] : g.p(r));
        if(r.chance(0.5)) p.push_back(p[0]);
        note(show(p));
        Arr in = fromPoly<Arr>(p), out; // closed polygons are valid input, too
        vigra::convexHull(in, out);
        Poly h = toPoly(out), ref = refHull(p);
        hh = mix(polyHash(p), 0);
        CHECK(h.size() >= 2 && h.front() == h.back(), "hull-not-closed", "convex hull is not closed: " << show(h));
        std::set<P2> pts(p.begin(), p.end());
        for(auto &q : h) CHECK(pts.count(q), "hull-foreign-point", "convex hull contains a point which is not part of the input");
        double wantA = ref.size() < 3 ? 0 : std::fabs(closedArea(ref));
        double gotA = closedArea(Poly(h.begin(), h.end() - 1));
        CHECK(std::fabs(gotA - wantA) < 1e-7, "hull-area", "convex hull has signed area " << gotA << ", expected " << wantA << " for " << show(p) << " -> " << show(h));
        for(auto &q : p)
            for(size_t i = 1; i < h.size(); ++i)
                if(dist(h[i-1], h[i]) > 0)
                    CHECK(-cross(h[i-1], h[i], q) > -1e-7, "hull-excludes-point", "point (" << q.first << "," << q.second << ") outside the convex hull " << show(h) << " of " << show(p));
        std::set<P2> hs(h.begin(), h.end());
        for(auto &q : ref) // every strictly extreme point is a vertex
            if(g.mode == 2 || g.mode == 1) CHECK(hs.count(q), "hull-misses-vertex", "extreme point (" << q.first << "," << q.second << ") is not a hull vertex: " << show(p) << " -> " << show(h));
        // no vertex is visited twice
        CHECK(hs.size() == h.size() - 1 || ref.size() < 3, "hull-repeats-vertex", "convex hull visits a vertex twice: " << show(p) << " -> " << show(h));
        stats().count("hulls");
    }
    else if(kind == 1 || kind == 2) // Douglas-Peucker
    {
        int n = r.range(2, 30); Poly p; P2 q = g.p(r);
        bool walk = r.chance(0.6);
        for(int i = 0; i < n; ++i) { q = walk ? P2(q.first + r.uni(-0.3, 1.5), q.second + r.uni(-1, 1)) : g.p(r); p.push_back(q); }
        if(n > 2 && r.chance(0.4)) p.push_back(p[0]);
        double eps = r.chance(0.1) ? 0 : r.uni(0.01, 2), ms = r.uni(0.5, 6);
        note(VF_STR("simplify eps " << eps << " step " << ms << " " << show(p)));
        Arr in = fromPoly<Arr>(p), out;
        if(kind == 1) vigra::simplifyPolygon(in, out, eps); else vigra::simplifyPolygon(in, out, eps, ms);
        std::vector<size_t> idx; bool tie = false;
        idx.push_back(0); refSimplify(p, 0, p.size() - 1, eps, kind == 2 ? ms * ms : 1e300, idx, tie); idx.push_back(p.size() - 1);
        Poly s = toPoly(out);
        CHECK(s.size() >= 2 && s.front() == p.front() && s.back() == p.back(), "simplify-endpoints", "simplification changed the end points of " << show(p));
        // subsequence
        size_t at = 0;
        for(size_t i = 0; i < s.size(); ++i, ++at)
        {
            while(at < p.size() && !(p[at] == s[i])) ++at;
            CHECK(at < p.size(), "simplify-not-subsequence", "simplified points are not a subsequence of the input: " << show(p) << " -> " << show(s));
        }
        if(!tie)
        {
            Poly want; for(size_t i : idx) want.push_back(p[i]);
            CHECK(want == s, "simplify-result", "simplification of " << show(p) << " with epsilon " << eps << (kind == 2 ? VF_STR(" and max. step " << ms) : std::string()) << " gave " << show(s) << ", expected " << show(want));
            stats().count("simplify_compared");
        }
        hh = mix(polyHash(p), kind);
    }
    else if(kind == 3) // contains / centroid / nearestPoint
    {
        Poly p = randomClosed(r, g); BP bp(fromPoly<Arr>(p)); hh = mix(polyHash(p), 3);
        note(show(p));
        for(int i = 0; i < 20; ++i)
        {
            P2 q = CoordGen(r, -3, 15).p(r);
            V2 nv = bp.nearestPoint(V(q)); P2 np = P(nv);
            double d = ptPolylineDist(q, p);
            if(p.size() > 1)
            {
                CHECK(std::fabs(dist(np, q) - d) < 1e-7, "nearest-point", "nearestPoint() has distance " << dist(np, q) << " but the polygon is " << d << " away: " << show(p));
                CHECK(ptPolylineDist(np, p) < 1e-7, "nearest-point-off", "nearestPoint() is not on the polygon");
            }
            if(d > 1e-6)
            {
                CHECK(bp.contains(V(q)) == pointInPoly(q, p), "contains", "contains((" << q.first << "," << q.second << ")) is " << bp.contains(V(q)) << ": " << show(p));
                CHECK(Pg(bp).contains(V(q)) == pointInPoly(q, p), "contains", "contains() without bounding box differs");
                stats().count("contains_checked");
            }
        }
        double A = closedArea(Poly(p.begin(), p.end() - 1));
        CHECK(std::fabs(bp.partialArea() - A) < 1e-8 * 400, "area", "area of closed polygon " << bp.partialArea() << " != " << A);
        if(std::fabs(A) > 0.05)
        {
            long double cx = 0, cy = 0, a = 0;
            for(size_t i = 1; i < p.size(); ++i)
            {
                long double w = (long double)(p[i-1].first - p[0].first) * (p[i].second - p[0].second) - (long double)(p[i].first - p[0].first) * (p[i-1].second - p[0].second);
                a += w; cx += w * (p[i-1].first + p[i].first + p[0].first - 3 * p[0].first) / 3; cy += w * (p[i-1].second + p[i].second - 2 * p[0].second) / 3;
            }
            P2 c(p[0].first + (double)(cx / a), p[0].second + (double)(cy / a));
            V2 got = vigra::centroid(static_cast<const Pg &>(bp));
            CHECK(dist(c, P(got)) < 1e-5, "centroid", "centroid (" << got[0] << "," << got[1] << ") should be (" << c.first << "," << c.second << ") for " << show(p));
            stats().count("centroids");
        }
        vigra::PointArray<vigra::Point2D> ri = bp.roundToInteger();
        for(size_t i = 0; i < p.size(); ++i) CHECK(ri[i].x == (int)std::floor(p[i].first + 0.5) && ri[i].y == (int)std::floor(p[i].second + 0.5), "round", "roundToInteger()");
        Arr sc = bp * 2.5, tr = bp + V2(1.5, -2);
        for(size_t i = 0; i < p.size(); ++i) { CHECK(P(sc[i]) == P2(p[i].first * 2.5, p[i].second * 2.5), "scale", "operator*"); CHECK(P(tr[i]) == P2(p[i].first + 1.5, p[i].second - 2), "translate", "operator+"); }
        for(size_t i = 0; i + 1 < p.size(); ++i) { double t = r.uni(); P2 e(p[i].first * (1 - t) + p[i+1].first * t, p[i].second * (1 - t) + p[i+1].second * t); CHECK(dist(P(bp.interpolate(i, t)), e) < 1e-9, "interpolate", "interpolate()"); }
    }
    else if(kind == 8) splinePoints(r, &hh);
    else if(kind == 9) digitalLines(r, &hh);
    else
    {
        // smooth random curve
        int n = r.range(3, 30); Poly p; bool closed = r.chance(0.5);
        double st = r.uni(0.3, 2);
        if(closed)
        {
            double R = st * n / 6, ph = r.uni(0, 6);
            for(int i = 0; i < n; ++i) { double a = ph + 2 * M_PI * i / n, rr = R * r.uni(0.7, 1.3); p.push_back(P2(15 + rr * cos(a), 15 + rr * sin(a))); }
            p.push_back(p[0]);
        }
        else
        {
            P2 q(r.uni(0, 5), r.uni(0, 5)); double dir = r.uni(0, 6);
            bool straight = r.chance(0.2);
            for(int i = 0; i < n; ++i) { p.push_back(q); if(!straight) dir += r.uni(-0.6, 0.6); double s = st * r.uni(0.3, 1.5); q = P2(q.first + s * cos(dir), q.second + s * sin(dir)); }
        }
        double L = polyLength(p), d = r.uni(0.15, 1.2) * L / r.range(2, 12), sc = r.chance(0.5) ? 2.0 : 0.5;
        hh = mix(polyHash(p), kind); hh = mixd(hh, d);
        note(VF_STR(show(p) << " d=" << d));
        auto call = [](void (*f)(const BP &, BP &, double), double a) { return Filter([f, a](const Poly &x) { BP in(fromPoly<Arr>(x)), out; f(in, out, a); return toPoly(out); }); };
        if(kind == 4)
        {
            Poly s = call(&vigra::resamplePolygonLinearInterpolation<BP>, d)(p);
            int steps = (int)std::ceil(L / d);
            if(p.size() > 2 && std::fabs(L / d - std::round(L / d)) > 1e-6)
            {
                CHECK((int)s.size() == steps + 1, "resample-count", "linear resampling of length " << L << " to " << d << " gave " << s.size() << " points, expected " << steps + 1);
                for(int k = 0; k <= steps; ++k)
                    CHECK(dist(s[k], atArc(p, L * k / steps)) < 1e-6, "resample-position", "linear resampling: point " << k << " is not at arc length " << L * k / steps << " of " << show(p));
                stats().count("linear_resampled");
            }
        }
        else if(kind == 5)
        {
            Poly s = call(&vigra::resamplePolygon<BP>, d)(p);
            CHECK(s.size() >= 2, "resample-empty", "resampling lost the polygon");
            if(closed) CHECK(dist(s.front(), s.back()) < 1e-9 || s.size() == 3, "resample-open", "resampling opened a closed polygon: " << show(p) << " -> " << show(s));
            else CHECK(dist(s.front(), p.front()) < 1e-9 && dist(s.back(), p.back()) < 1e-9, "resample-endpoints", "resampling moved the end points");
            if(!closed) equivariance(r, "resample", p, call(&vigra::resamplePolygon<BP>, d), call(&vigra::resamplePolygon<BP>, d * sc), sc);
        }
        else if(kind == 6 || kind == 7)
        {
            double sg = r.uni(0.02, 0.25) * L;
            bool gauss = kind == 6;
            auto mk = [&](double sgm, double dd) { return Filter([=](const Poly &x) { BP in(fromPoly<Arr>(x)), out; if(gauss) vigra::resamplePolygonGaussianFilter(in, out, sgm, dd); else vigra::resamplePolygonExponentialFilter(in, out, sgm, dd); return toPoly(out); }); };
            if(gauss) { double seg = 0; for(size_t i = 1; i < p.size(); ++i) seg = std::max(seg, dist(p[i-1], p[i])); sg = std::max(sg, 0.5 * seg); }
            if(gauss && !(L > vigra::Gaussian<double>(sg).radius())) return;
            double frac = L / d;
            if(std::fabs(frac - std::round(frac)) < 1e-6 || std::fabs(frac - std::floor(frac) - 0.5) < 1e-6) return;
            Poly s = mk(sg, d)(p);
            for(auto &q : s) if(!(std::isfinite(q.first) && std::isfinite(q.second))) VIOLATE("resample-not-finite", "smoothing gave a non-finite point for " << show(p) << " scale " << sg << " distance " << d);
            if(closed) CHECK(dist(s.front(), s.back()) < 1e-9, "resample-open", "smoothing opened a closed polygon");
            else if(gauss) CHECK(dist(s.front(), p.front()) < 1e-6 && dist(s.back(), p.back()) < 1e-6, "resample-endpoints", "smoothing moved the end points of an open polygon: " << show(p) << " -> " << show(s));
            if(gauss)
            {
                // independent reference: normalized Gaussian mean over the (reflected / periodic) vertices
                double rad = vigra::Gaussian<double>(sg).radius();
                std::vector<std::pair<double, P2> > ext; double a = 0;
                size_t np = closed ? p.size() - 1 : p.size();
                for(size_t i = 0; i < np; ++i)
                {
                    if(i) a += dist(p[i-1], p[i]);
                    if(closed) for(int t = -2; t <= 2; ++t) ext.push_back(std::make_pair(a + t * L, p[i]));
                    else
                    {
                        ext.push_back(std::make_pair(a, p[i]));
                        if(i) ext.push_back(std::make_pair(-a, P2(2 * p[0].first - p[i].first, 2 * p[0].second - p[i].second)));
                        if(i + 1 < np) ext.push_back(std::make_pair(2 * L - a, P2(2 * p.back().first - p[i].first, 2 * p.back().second - p[i].second)));
                    }
                }
                int steps = (int)std::ceil(L / d);
                CHECK((int)s.size() == steps + 1, "gauss-count", "Gaussian resampling of length " << L << " to " << d << " gave " << s.size() << " points, expected " << steps + 1);
                for(int k = 0; k < steps; ++k)
                {
                    double at = L * k / steps, sw = 0; P2 sum(0, 0); bool tie = false;
                    for(auto &x : ext)
                    {
                        double df = std::fabs(x.first - at);
                        if(std::fabs(df - rad) < 1e-9) tie = true;
                        if(df > rad) continue;
                        double w = std::exp(-df * df / 2 / sg / sg); sw += w; sum.first += w * x.second.first; sum.second += w * x.second.second;
                    }
                    if(tie || sw < 1e-12) continue;
                    CHECK(dist(s[k], P2(sum.first / sw, sum.second / sw)) < 1e-6, "gauss-value", "Gaussian smoothing: point " << k << " is (" << s[k].first << "," << s[k].second << ") instead of (" << sum.first / sw << "," << sum.second / sw << ") for " << show(p) << " scale " << sg);
                    stats().count("gauss_points");
                }
            }
            equivariance(r, gauss ? "gauss" : "exponential", p, mk(sg, d), gauss ? Filter() : mk(sg * sc, d * sc), sc);
        }
    }
    stats().state(hh);
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> m;
    m["C15"] = caseC15; m["C16"] = caseC16; m["C17"] = caseC17;
    return runMain(argc, argv, m);
}
