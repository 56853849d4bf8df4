// Independent 2D geometry used by the oracles.
#ifndef VERIF_GEOM_HXX
#define VERIF_GEOM_HXX
#include "common.hxx"

namespace vf {

typedef std::pair<double, double> P2;
typedef std::vector<P2> Poly;

inline double dist(const P2 &a, const P2 &b) { return std::hypot(a.first - b.first, a.second - b.second); }
inline double cross(const P2 &o, const P2 &a, const P2 &b)
{
    return (a.first - o.first) * (b.second - o.second) - (a.second - o.second) * (b.first - o.first);
}
inline double ptSegDist(const P2 &p, const P2 &a, const P2 &b)
{
    double dx = b.first - a.first, dy = b.second - a.second;
    double l2 = dx * dx + dy * dy;
    double t = l2 > 0 ? ((p.first - a.first) * dx + (p.second - a.second) * dy) / l2 : 0;
    t = t < 0 ? 0 : (t > 1 ? 1 : t);
    return dist(p, P2(a.first + t * dx, a.second + t * dy));
}
inline bool segsCross(const P2 &a, const P2 &b, const P2 &c, const P2 &d)
{
    double d1 = cross(a, b, c), d2 = cross(a, b, d), d3 = cross(c, d, a), d4 = cross(c, d, b);
    return ((d1 > 0) != (d2 > 0)) && ((d3 > 0) != (d4 > 0));
}
inline double segSegDist(const P2 &a, const P2 &b, const P2 &c, const P2 &d)
{
    if(segsCross(a, b, c, d)) return 0;
    return std::min(std::min(ptSegDist(a, c, d), ptSegDist(b, c, d)),
                    std::min(ptSegDist(c, a, b), ptSegDist(d, a, b)));
}
inline double polyLength(const Poly &p)
{
    double r = 0;
    for(size_t i = 1; i < p.size(); ++i) r += dist(p[i-1], p[i]);
    return r;
}
// signed area contribution; positive for visually counter-clockwise contours
// (y axis pointing down)
inline double polyPartialArea(const Poly &p)
{
    long double r = 0;
    for(size_t i = 1; i < p.size(); ++i)
        r += (long double)p[i-1].first * p[i].second - (long double)p[i].first * p[i-1].second;
    return (double)(-r / 2);
}
// even-odd containment in a closed polygon (p need not repeat first point)
inline bool pointInPoly(const P2 &q, const Poly &p)
{
    bool in = false;
    size_t n = p.size();
    for(size_t i = 0, j = n - 1; i < n; j = i++)
    {
        if((p[i].second > q.second) != (p[j].second > q.second))
        {
            double x = (p[j].first - p[i].first) * (q.second - p[i].second)
                       / (p[j].second - p[i].second) + p[i].first;
            if(q.first < x) in = !in;
        }
    }
    return in;
}
inline double ptPolylineDist(const P2 &q, const Poly &p)
{
    double r = 1e300;
    if(p.size() == 1) return dist(q, p[0]);
    for(size_t i = 1; i < p.size(); ++i) r = std::min(r, ptSegDist(q, p[i-1], p[i]));
    return r;
}
inline bool segHitsBox(P2 a, P2 b, double x0, double y0, double x1, double y1)
{
    // Liang-Barsky
    double t0 = 0, t1 = 1, dx = b.first - a.first, dy = b.second - a.second;
    double pp[4] = { -dx, dx, -dy, dy };
    double qq[4] = { a.first - x0, x1 - a.first, a.second - y0, y1 - a.second };
    for(int i = 0; i < 4; ++i)
    {
        if(pp[i] == 0) { if(qq[i] < 0) return false; }
        else
        {
            double t = qq[i] / pp[i];
            if(pp[i] < 0) { if(t > t1) return false; if(t > t0) t0 = t; }
            else          { if(t < t0) return false; if(t < t1) t1 = t; }
        }
    }
    return true;
}
inline bool polyHitsBox(const Poly &p, double x0, double y0, double x1, double y1)
{
    for(size_t i = 1; i < p.size(); ++i)
        if(segHitsBox(p[i-1], p[i], x0, y0, x1, y1)) return true;
    return false;
}

inline double closedArea(const Poly &p)
{
    long double r = 0;
    if(p.empty()) return 0;
    // relative to the first point for precision
    for(size_t i = 0, n = p.size(); i < n; ++i)
    {
        const P2 &a = p[i], &b = p[(i + 1) % n];
        r += (long double)(a.first - p[0].first) * (b.second - p[0].second)
             - (long double)(b.first - p[0].first) * (a.second - p[0].second);
    }
    return (double)(-r / 2);
}

// winding number of a closed polyline, positive for visually
// counter-clockwise contours (y axis pointing down)
inline int windingNumber(const P2 &q, const Poly &p)
{
    int w = 0;
    for(size_t i = 1; i < p.size(); ++i)
    {
        const P2 &a = p[i-1], &b = p[i];
        if(a.second <= q.second)
        {
            if(b.second > q.second && cross(a, b, q) > 0) ++w;
        }
        else if(b.second <= q.second && cross(a, b, q) < 0) --w;
    }
    return -w;
}

} // namespace vf
#endif
