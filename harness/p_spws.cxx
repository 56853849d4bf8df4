// C25: critical points of spline-interpolated images and the flow lines (watersheds) between them.
#include "common.hxx"
#include <iostream>
#include <vigra/stdimage.hxx>
#include <vigra/splineimageview.hxx>
#include "vigra/subpixel_watershed.hxx"
using namespace vf;
using namespace vigra;

struct Cp { double x, y; int type; double cond; };

template<class V> static void derivs(const V &v, double x, double y, double &dx, double &dy, double &dxx, double &dxy, double &dyy)
{
    dx = v.dx(x, y); dy = v.dy(x, y); dxx = v.dxx(x, y); dxy = v.dxy(x, y); dyy = v.dyy(x, y);
}

// well-conditioned hessians only: relative size of the smaller eigenvalue
static double conditioning(double dxx, double dxy, double dyy, double range, double &l1, double &l2)
{
    double m = 0.5 * (dxx + dyy), d = std::sqrt(0.25 * (dxx - dyy) * (dxx - dyy) + dxy * dxy);
    l1 = m - d; l2 = m + d;
    return std::min(fabs(l1), fabs(l2)) / std::max(range, 1e-12);
}

// one own Newton run in double precision; -2: none
template<class V> static int newton(const V &v, double x0, double y0, double &x, double &y, int *iter)
{
    x = x0; y = y0;
    for(int i = 0; i < 30; ++i)
    {
        double dx, dy, a, b, c;
        derivs(v, x, y, dx, dy, a, b, c);
        double det = a * c - b * b;
        if(fabs(det) < 1e-12) return -2;
        double sx = (b * dy - c * dx) / det, sy = (b * dx - a * dy) / det;
        x += sx; y += sy;
        if(x < 0 || y < 0 || x > v.width() - 1 || y > v.height() - 1) return -2;
        if(sx * sx + sy * sy < 1e-10) { *iter = i; return det < 0 ? 0 : (a + c > 0 ? -1 : 1); }
        if((x - x0) * (x - x0) + (y - y0) * (y - y0) > 3.9) return -2;
    }
    return -2;
}

static FImage makeImage(Rng &rng, int w, int h, std::string *desc)
{
    FImage img(w, h);
    int mode = rng.range(0, 5);
    double A = rng.uni(0.5, 100);
    *desc = VF_STR("image " << w << "x" << h << " kind " << mode << " amplitude " << A);
    double fx = rng.uni(0.3, 1.6), fy = rng.uni(0.3, 1.6), px = rng.uni(0, 6), py = rng.uni(0, 6), ga = rng.uni(0, 3);
    std::vector<double> bx, by, bs, ba;
    for(int k = rng.range(1, 8); k >= 0; --k) { bx.push_back(rng.uni(0, w)); by.push_back(rng.uni(0, h)); bs.push_back(rng.uni(0.8, 3)); ba.push_back(rng.uni(-1, 1)); }
    for(int y = 0; y < h; ++y)
        for(int x = 0; x < w; ++x)
        {
            double v = 0;
            switch(mode)
            {
              case 0: v = cos(fx * x + px) * cos(fy * y + py); break;
              case 1: v = rng.uni(-1, 1); break;
              case 2: for(size_t k = 0; k < bx.size(); ++k) v += ba[k] * exp(-((x - bx[k]) * (x - bx[k]) + (y - by[k]) * (y - by[k])) / (2 * bs[k] * bs[k])); break;
              case 3: v = cos(fx * (x * cos(ga) + y * sin(ga)) + px) + cos(fy * (y * cos(ga) - x * sin(ga)) + py); break;
              case 4: v = rng.range(0, 3); break;     // plateaus and exact ties
              case 5: v = cos(fx * x + px) * cos(fy * y + py) + 0.05 * rng.uni(-1, 1) + 0.02 * x; break;
            }
            img(x, y) = (float)(A * v);
        }
    return img;
}

template<int ORDER> static void watersheds(Rng &rng)
{
    typedef SubPixelWatersheds<SplineImageView<ORDER, float> > SPWS;
    typedef typename SPWS::PointArray PA;
    int w = rng.range(ORDER + 4, 22), h = rng.range(ORDER + 4, 22); // (smaller images overflow in VIGRA itself)
    std::string desc;
    FImage img(makeImage(rng, w, h, &desc));
    desc += VF_STR(" spline order " << ORDER);
    note(desc);
    float mn = img(0, 0), mx = mn;
    for(float v : img) { mn = std::min(mn, v); mx = std::max(mx, v); }
    double range = mx - mn;
    SplineImageView<ORDER, double> ref(srcImageRange(img));
    SPWS ws(srcImageRange(img));
    CHECK(ws.width() == w && ws.height() == h, "spws-size", ws.width() << "x" << ws.height());
    if(rng.chance(0.3)) ws.minCPDist_ = rng.uni(0.01, 0.6);
    if(rng.chance(0.3)) ws.cpOversampling_ = rng.range(1, 4);
    if(rng.chance(0.3)) ws.initialStep_ = rng.uni(0.03, 0.2);
    bool masked = rng.chance(0.35);
    BImage mask(w, h);
    int maskMode = rng.range(0, 3);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
        mask(x, y) = maskMode == 0 ? 1 : maskMode == 1 ? 0 : maskMode == 2 ? rng.chance(0.1) : (x < w / 2);
    note(VF_STR("minimal distance " << ws.minCPDist_ << " oversampling " << ws.cpOversampling_ << " initial step " << ws.initialStep_ << (masked ? " masked" : "")));
    if(masked) ws.findCriticalPoints(srcImage(mask)); else ws.findCriticalPoints();
    std::vector<Cp> all;
    const PA *arrays[3] = {&ws.minima_, &ws.saddles_, &ws.maxima_};
    const char *names[3] = {"minimum", "saddle", "maximum"};
    double eps = ws.stepEpsilon_;
    uint64_t hsh = 7;
    for(int t = 0; t < 3; ++t)
    {
        CHECK(arrays[t]->size() >= 1, "cp-one-based", "no dummy entry at index 0");
        for(size_t i = 1; i < arrays[t]->size(); ++i)
        {
            double x = (*arrays[t])[i][0], y = (*arrays[t])[i][1];
            std::string at = VF_STR(names[t] << " at " << x << "," << y << " of " << desc);
            CHECK(x >= -eps && y >= -eps && x <= w - 1 + eps && y <= h - 1 + eps, "cp-outside", at);
            double dx, dy, a, b, c, l1, l2;
            derivs(ref, x, y, dx, dy, a, b, c);
            double cond = conditioning(a, b, c, range, l1, l2);
            double big = std::max(fabs(l1), fabs(l2));
            CHECK(std::sqrt(dx * dx + dy * dy) <= 20 * std::max(big, range) * eps + 1e-5 * range, "cp-not-critical", at << ": gradient " << dx << "," << dy);
            // the type is decided by the signs of the hessian's eigenvalues (unless it jumps or is nearly singular here)
            bool clear = cond > 0.02;
            if(clear && ORDER == 2)
            {
                double fx = fabs(x - floor(x) - 0.5), fy = fabs(y - floor(y) - 0.5);
                clear = fx > 2e-3 && fy > 2e-3;
            }
            if(clear)
            {
                int want = l1 * l2 < 0 ? 1 : (l1 > 0 ? 0 : 2);
                CHECK(want == t, "cp-type", at << " is a " << names[want] << " (curvatures " << l1 << ", " << l2 << ")");
                stats().count(std::string(names[t]) + "_classified");
            }
            Cp p = {x, y, t - 1, cond};
            all.push_back(p);
            stats().count("critical_points");
            hsh = mixd(mixd(mix(hsh, t), x), y);
        }
    }
    stats().state(hsh);
    for(size_t i = 0; i < all.size(); ++i)
        for(size_t j = 0; j < i; ++j)
        {
            double d = hypot(all[i].x - all[j].x, all[i].y - all[j].y);
            CHECK(d >= ws.minCPDist_ * (1 - 1e-9), "cp-too-close", "points " << all[i].x << "," << all[i].y << " and " << all[j].x << "," << all[j].y << " are " << d << " apart, of " << desc);
        }
    stats().count("point_pairs", all.size() * (all.size() > 0 ? all.size() - 1 : 0) / 2);
    double os = 1.0 / ws.cpOversampling_;
    if(masked)
    {
        stats().count("masked_searches");
        for(auto &p : all)
        {
            bool near = false;
            for(int y = 0; y < h && !near; ++y) for(int x = 0; x < w && !near; ++x)
                if(mask(x, y))
                {
                    double qx = std::max(x + 0.0, std::min(x + 1 - os, p.x)), qy = std::max(y + 0.0, std::min(y + 1 - os, p.y));
                    near = hypot(p.x - qx, p.y - qy) <= 2 + 2 * eps;
                }
            CHECK(near, "cp-unmasked", "critical point " << p.x << "," << p.y << " is far from every masked pixel");
        }
        if(maskMode == 0)
        {
            SPWS ws2(srcImageRange(img));
            ws2.minCPDist_ = ws.minCPDist_; ws2.cpOversampling_ = ws.cpOversampling_;
            ws2.findCriticalPoints();
            CHECK(ws2.minima_ == ws.minima_ && ws2.maxima_ == ws.maxima_ && ws2.saddles_ == ws.saddles_, "cp-full-mask", "a full mask changes the result");
        }
    }
    // completeness: well-conditioned points which Newton's method reaches safely from a start point must be reported
    for(int k = 0; k < 60; ++k)
    {
        int ix = rng.range(0, w - 1), iy = rng.range(0, h - 1);
        if(masked && !mask(ix, iy)) continue;
        int ov = ws.cpOversampling_;
        double sx = ix, sy = iy;
        for(int j = rng.range(0, ov - 1); j > 0; --j) sx += os;
        for(int j = rng.range(0, ov - 1); j > 0; --j) sy += os;
        if(sx > w - 1.01 || sy > h - 1.01 || sx < 0.01 || sy < 0.01) continue;
        double x, y; int it, type = newton(ref, sx, sy, x, y, &it);
        if(type == -2 || it > 6) continue;
        bool robust = true;
        for(int j = 0; j < 4 && robust; ++j)
        {
            double x2, y2; int it2;
            int t2 = newton(ref, sx + (j & 1 ? 0.004 : -0.004), sy + (j & 2 ? 0.004 : -0.004), x2, y2, &it2);
            robust = t2 == type && it2 <= 7 && hypot(x2 - x, y2 - y) < 1e-4;
        }
        double dx, dy, a, b, c, l1, l2;
        derivs(ref, x, y, dx, dy, a, b, c);
        if(!robust || conditioning(a, b, c, range, l1, l2) < 0.02) continue;
        stats().count("expected_points");
        double best = 1e9;
        for(auto &p : all) best = std::min(best, hypot(p.x - x, p.y - y));
        CHECK(best <= ws.minCPDist_ + 5e-3, "cp-missing", "critical point of type " << type << " at " << x << "," << y << " (start " << sx << "," << sy << ") is not reported, nearest is " << best << " away, of " << desc);
    }
    // lookup of the nearest maximum ahead
    std::map<std::pair<int, int>, int> perPixel;
    bool crowded = false;
    for(size_t i = 1; i < ws.maxima_.size(); ++i)
        if(++perPixel[std::make_pair((int)floor(ws.maxima_[i][0] + 0.5), (int)floor(ws.maxima_[i][1] + 0.5))] > 2) crowded = true;
    for(int k = 0; k < 60 && !crowded && ws.maxima_.size() > 1; ++k)
    {
        int m = rng.range(1, (int)ws.maxima_.size() - 1);
        double x = ws.maxima_[m][0] + rng.uni(-0.6, 0.6), y = ws.maxima_[m][1] + rng.uni(-0.6, 0.6);
        if(x < 0 || y < 0 || x > w - 1 || y > h - 1) continue;
        double a = rng.uni(0, 6.3), dx = cos(a), dy = sin(a);
        double best = 1e9; int bi = -1; bool border = false;
        for(size_t i = 1; i < ws.maxima_.size(); ++i)
        {
            double ex = ws.maxima_[i][0] - x, ey = ws.maxima_[i][1] - y, d = hypot(ex, ey), p = ex * dx + ey * dy;
            if(d < 0.5 && fabs(p) < 1e-9) border = true;
            if(p >= 0 && d < best) { best = d; bi = i; }
        }
        if(border || best > 0.49) continue;
        int idx = -7;
        double got = ws.nearestMaximum(x, y, dx, dy, idx);
        CHECK(fabs(got - best) < 1e-9, "nearest-maximum", "from " << x << "," << y << " direction " << dx << "," << dy << ": " << got << " instead of " << best << " of " << desc);
        CHECK(idx > 0 && idx < (int)ws.maxima_.size() && (idx == bi || fabs(hypot(ws.maxima_[idx][0] - x, ws.maxima_[idx][1] - y) - best) < 1e-9), "nearest-maximum", "wrong index " << idx << " instead of " << bi);
        stats().count("maximum_lookups");
    }
    // flow lines
    for(size_t i = 1; i < ws.saddles_.size() && i < 40; ++i)
    {
        double x = ws.saddles_[i][0], y = ws.saddles_[i][1], dx, dy, a, b, c, l1, l2;
        derivs(ref, x, y, dx, dy, a, b, c);
        double cond = conditioning(a, b, c, range, l1, l2);
        PA edge, fwd, bwd;
        note(VF_STR("flow lines from saddle " << i << " at " << x << "," << y));
        int fi = ws.flowLine(x, y, true, 1e-4, fwd), bi = ws.flowLine(x, y, false, 1e-4, bwd);
        std::pair<int, int> ends(0, 0);
        { vigra::pair<int, int> e = ws.findEdge(x, y, 1e-4, edge); ends = std::make_pair(e.first, e.second); }
        CHECK(ends.first == fi && ends.second == bi && edge.size() + 1 == fwd.size() + bwd.size(), "edge-assembly", "edge of saddle " << i << " has " << edge.size() << " points, flow lines " << fwd.size() << "+" << bwd.size());
        for(size_t k = 0; k < edge.size(); ++k)
            CHECK(edge[k] == (k < fwd.size() ? fwd[fwd.size() - 1 - k] : bwd[k - fwd.size() + 1]), "edge-assembly", "edge of saddle " << i << " differs from its flow lines at point " << k);
        stats().count("edges_assembled");
        for(int dir = 0; dir < 2; ++dir)
        {
            const PA &f = dir ? bwd : fwd;
            int idx = dir ? bi : fi;
            std::string at = VF_STR((dir ? "backward" : "forward") << " flow line of saddle " << x << "," << y << " of " << desc);
            CHECK(f.size() >= 2 && f[0][0] == x && f[0][1] == y, "flow-start", at << " starts elsewhere");
            CHECK(idx < (int)ws.maxima_.size(), "flow-end-index", at << ": index " << idx << " of " << ws.maxima_.size());
            double len = 0;
            for(size_t k = 1; k < f.size(); ++k)
            {
                double st = hypot(f[k][0] - f[k-1][0], f[k][1] - f[k-1][1]);
                len += st;
                CHECK(st <= 2.5, "flow-step", at << ": step of length " << st);
                CHECK(f[k][0] >= -ws.initialStep_ - 1e-3 && f[k][1] >= -ws.initialStep_ - 1e-3 && f[k][0] <= w - 1 + ws.initialStep_ + 1e-3 && f[k][1] <= h - 1 + ws.initialStep_ + 1e-3, "flow-outside", at << " reaches " << f[k][0] << "," << f[k][1]);
            }
            if(idx > 0)
            {
                CHECK(f.back() == ws.maxima_[idx], "flow-end", at << " should end in maximum " << idx << " but ends at " << f.back()[0] << "," << f.back()[1]);
                size_t n = f.size();
                CHECK(hypot(f[n-1][0] - f[n-2][0], f[n-1][1] - f[n-2][1]) < ws.initialStep_ + 1e-12, "flow-end-jump", at << " jumps " << hypot(f[n-1][0] - f[n-2][0], f[n-1][1] - f[n-2][1]) << " into its maximum");
                stats().count("flow_lines_to_maxima");
            }
            else if(idx >= -1)
            {
                // it may only stop where it cannot go on: at a flat spot, or (if it left the image) at the border
                double ex = f.back()[0], ey = f.back()[1];
                double g = ex < 0 || ey < 0 || ex > w - 1 || ey > h - 1 ? 0 : hypot(ref.dx(ex, ey), ref.dy(ex, ey));
                double ib = std::min(std::min(ex, ey), std::min(w - 1 - ex, h - 1 - ey));
                CHECK(g <= 0.01 * range || (idx == -1 && ib < 0.01), "flow-stops-early", at << " gives up at " << ex << "," << ey << " with gradient " << g << " (range " << range << ", result " << idx << ")");
            }
            if(idx <= 0) stats().count(idx == 0 ? "flow_lines_given_up" : "flow_lines_leaving");
            stats().count("flow_points", f.size());
            // direction of the first step: eigenvector of the larger curvature
            if(cond > 0.02 && f.size() > 2 && l1 < 0 && l2 > 0)
            {
                double ux = f[1][0] - x, uy = f[1][1] - y, n = hypot(ux, uy);
                CHECK(fabs(n - ws.initialStep_) < 1e-9, "flow-first-step", at << ": first step " << n);
                ux /= n; uy /= n;
                double rx = a * ux + b * uy - l2 * ux, ry = b * ux + c * uy - l2 * uy;
                CHECK(hypot(rx, ry) < 0.02 * std::max(fabs(l1), l2) || ORDER == 2, "flow-first-direction", at << " starts in direction " << ux << "," << uy);
                stats().count("flow_directions");
                if(dir == 1 && fwd.size() > 2)
                    CHECK(ux * (fwd[1][0] - x) + uy * (fwd[1][1] - y) < 0, "flow-both-directions", at << " runs in the same direction as the other one");
            }
            // values increase along the line
            double worst = 0; size_t wk = 0;
            for(size_t k = 2; k < f.size(); ++k)
            {
                if(f[k][0] < 0 || f[k][1] < 0 || f[k][0] > w - 1 || f[k][1] > h - 1 || f[k-1][0] < 0 || f[k-1][1] < 0 || f[k-1][0] > w - 1 || f[k-1][1] > h - 1) continue;
                double dv = ref(f[k][0], f[k][1]) - ref(f[k-1][0], f[k-1][1]);
                if(dv < worst) { worst = dv; wk = k; }
                stats().count("ascents");
            }
            CHECK(worst >= -0.003 * range, "flow-descends", at << " descends by " << -worst << " (range " << range << ") at point " << wk << " of " << f.size());
        }
    }
}

// pixel-precise variant
static void pixels(Rng &rng)
{
    int w = rng.range(1, 14), h = rng.range(1, 14), levels = rng.range(2, 12);
    FImage img(w, h);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) img(x, y) = (float)rng.range(0, levels);
    bool eight = rng.chance(0.5);
    note(VF_STR("pixel grid " << w << "x" << h << " levels " << levels << (eight ? " 8" : " 4")));
    typedef ArrayVector<TinyVector<double, 2> > PA;
    PA mi, sa, ma;
    if(w > 1 && h > 1) findCriticalPoints48Neighborhood(srcImageRange(img), &mi, &sa, &ma, eight);
    static const int ox[8] = {1, 1, 0, -1, -1, -1, 0, 1}, oy[8] = {0, -1, -1, -1, 0, 1, 1, 1};
    size_t nmi = 0, nsa = 0, nma = 0;
    for(int y = 1; y < h - 1; ++y) for(int x = 1; x < w - 1; ++x)
    {
        std::vector<int> s; int zeros = 0;
        for(int k = 0; k < 8; k += eight ? 1 : 2)
        {
            float d = img(x, y) - img(x + ox[k], y + oy[k]);
            if(d > 0) s.push_back(1); else if(d < 0) s.push_back(-1); else ++zeros;
        }
        if(s.empty()) continue;
        int changes = 0;
        for(size_t k = 0; k < s.size(); ++k) changes += s[k] != s[(k + 1) % s.size()];
        auto at = [&](const PA &a, size_t i) { return i < a.size() && a[i][0] == x && a[i][1] == y; };
        if(changes >= 4) { CHECK(at(sa, nsa), "pixel-saddle", x << "," << y); ++nsa; }
        else if(!changes && !zeros && s[0] < 0) { CHECK(at(mi, nmi), "pixel-minimum", x << "," << y); ++nmi; }
        else if(!changes && !zeros) { CHECK(at(ma, nma), "pixel-maximum", x << "," << y); ++nma; }
        stats().count("pixels_classified");
    }
    CHECK(mi.size() == nmi && sa.size() == nsa && ma.size() == nma, "pixel-extra", mi.size() << "/" << sa.size() << "/" << ma.size() << " instead of " << nmi << "/" << nsa << "/" << nma);
    stats().state(mix(mix(mix(hashStr(VF_STR(w << h << levels)), nmi), nsa), nma));
}

// bilinear interpolation: extrema and saddles of the grid, saddles inside of facets
static void bilinear(Rng &rng)
{
    int w = rng.range(2, 14), h = rng.range(2, 14), levels = rng.range(2, 30);
    FImage img(w, h);
    bool smooth = rng.chance(0.3);
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) img(x, y) = smooth ? (float)rng.uni(-3, 3) : (float)rng.range(0, levels);
    note(VF_STR("bilinear " << w << "x" << h << (smooth ? " real" : "") << " levels " << levels));
    typedef ArrayVector<TinyVector<double, 2> > PA;
    PA mi, sa, ma;
    findCriticalPointsLinearInterpolation(srcImageRange(img), &mi, &sa, &ma);
    struct P { double x, y; };
    std::vector<P> emi, esa, ema;
    for(int y = 1; y < h - 1; ++y) for(int x = 1; x < w - 1; ++x)
    {
        double v = img(x, y), e = img(x + 1, y), n = img(x, y - 1), we = img(x - 1, y), s = img(x, y + 1);
        if(v != e && v != n && v != we && v != s)
        {
            int up = (e > v) + (n > v) + (we > v) + (s > v);
            if(up == 4) emi.push_back(P{(double)x, (double)y});
            else if(up == 0) ema.push_back(P{(double)x, (double)y});
            else if(up == 2 && (e > v) == (we > v)) esa.push_back(P{(double)x, (double)y});
        }
        if(x + 2 < w && y + 2 < h)
        {
            double se = img(x + 1, y + 1);
            if((std::min(v, se) > std::max(e, s)) || (std::max(v, se) < std::min(e, s)))
            {
                double q = v - s + se - e;
                esa.push_back(P{x + (v - s) / q, y + (v - e) / q});
                stats().count("facet_saddles");
            }
        }
        stats().count("bilinear_positions");
    }
    auto same = [&](const PA &got, const std::vector<P> &want, const char *what)
    {
        CHECK(got.size() == want.size(), "bilinear-count", got.size() << " " << what << " instead of " << want.size());
        for(auto &q : want)
        {
            bool found = false;
            for(size_t i = 0; i < got.size() && !found; ++i) found = std::fabs(got[i][0] - q.x) < 1e-4 && std::fabs(got[i][1] - q.y) < 1e-4;
            CHECK(found, "bilinear-point", what << " at " << q.x << "," << q.y << " is missing");
        }
    };
    same(mi, emi, "minima"); same(sa, esa, "saddles"); same(ma, ema, "maxima");
    stats().state(mix(mix(mix(hashStr("bilinear"), mi.size()), sa.size()), ma.size()));
}

static void C25(Rng &rng, long long i)
{
    switch(i % 8)
    {
      case 0: case 3: watersheds<2>(rng); break;
      case 1: case 4: watersheds<3>(rng); break;
      case 2: case 5: watersheds<5>(rng); break;
      case 6: pixels(rng); break;
      case 7: bilinear(rng); break;
    }
}

int main(int argc, char **argv) { std::cerr.setstate(std::ios::badbit); return runMain(argc, argv, {{"C25", C25}}); }
