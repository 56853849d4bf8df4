// C24: digital straight lines, tangents of digital curves, label merge tables.
#include "common.hxx"
#include <vigra/rational.hxx>
#include "vigra/dsl.hxx"
#include "labellut.hxx"
#include <set>
#include <list>
using namespace vf;
using vigra::DigitalStraightLine;
typedef DigitalStraightLine<int, true> DSL8;
typedef DigitalStraightLine<int, false> DSL4;
typedef std::pair<int, int> P;

// naive definition: the integer points of the band 0 <= a*x - b*y - pos < width
static bool inBand(long a, long b, long pos, bool eight, long x, long y)
{
    long w = eight ? std::max(labs(a), labs(b)) : labs(a) + labs(b), v = a * x - b * y - pos;
    return v >= 0 && v < w;
}
// does any first-octant digital line contain all points? (smallest b wins)
static bool straight(const std::vector<P> &pts, int maxB, int *ra = 0, int *rb = 0)
{
    for(int b = 1; b <= maxB; ++b)
        for(int a = 0; a <= b; ++a)
        {
            long lo = 0, hi = 0; bool first = true;
            for(auto &p : pts)
            {
                long v = (long)a * p.first - (long)b * p.second;
                if(first) { lo = hi = v; first = false; }
                lo = std::min(lo, v); hi = std::max(hi, v);
                if(hi - lo >= b) break;
            }
            if(hi - lo < b) { if(ra) { *ra = a; *rb = b; } return true; }
        }
    return false;
}

template<class D> static std::string str(const D &d) { return VF_STR("(" << d.a() << "," << d.b() << "," << d.pos() << ")"); }

template<class D> static void algebra(Rng &rng, bool eight)
{
    int a = rng.range(-9, 9), b = rng.range(-9, 9), pos = rng.range(-12, 12);
    if(b == 0) b = 1;
    D d(a, b, pos);
    note(VF_STR("line " << a << " " << b << " " << pos << (eight ? " 8" : " 4")));
    stats().state(mix(mix(mix(17, a + 100), b + 100), pos + 100) ^ eight);
    long w = eight ? std::max(labs(a), labs(b)) : labs(a) + labs(b);
    CHECK(d.eightConnected() == eight && d.a() == a && d.b() == b && d.pos() == pos && d.width() == w, "dsl-parameters", str(d) << " width " << d.width());
    D mx(d), my(d), mxy(d);
    mx.mirrorX(); my.mirrorY(); mxy.mirrorXY();
    long cnt = 0;
    for(int x = -12; x <= 12; ++x)
        for(int y = -12; y <= 12; ++y)
        {
            bool in = inBand(a, b, pos, eight, x, y);
            cnt += in;
            CHECK(d(x, y) == a * x - b * y, "dsl-value", str(d));
            CHECK(d.contains(x, y) == in, "dsl-contains", str(d) << " at " << x << "," << y);
            CHECK(mx.contains(-x, y) == in, "dsl-mirror-x", str(d) << " at " << x << "," << y);
            CHECK(my.contains(x, -y) == in, "dsl-mirror-y", str(d) << " at " << x << "," << y);
            CHECK(mxy.contains(-x, -y) == in, "dsl-mirror-xy", str(d) << " at " << x << "," << y);
        }
    stats().count("line_points", cnt);
    stats().count("mirrored");
    double sl = vigra::rational_cast<double>(d.slope());
    CHECK(fabs(sl - (double)a / b) < 1e-12, "dsl-slope", str(d) << " slope " << sl);
    double ic = vigra::rational_cast<double>(d.axisIntercept(vigra::DSL::CenterLine)),
           il = vigra::rational_cast<double>(d.axisIntercept(vigra::DSL::LowerLeaningLine)),
           iu = vigra::rational_cast<double>(d.axisIntercept(vigra::DSL::UpperLeaningLine));
    CHECK(fabs(-il * b - (pos + w - 1)) < 1e-9 && fabs(-iu * b - pos) < 1e-9 && fabs(ic - (il + iu) / 2) < 1e-9, "dsl-intercept",
          str(d) << " lower " << il << " upper " << iu << " center " << ic);
    CHECK(fabs(vigra::rational_cast<double>(d.axisIntercept()) - ic) < 1e-12, "dsl-intercept", "default is not the center line");
    // setters
    d.setA(b); d.setB(a ? a : 1); d.setPos(-pos);
    CHECK(d.a() == b && d.b() == (a ? a : 1) && d.pos() == -pos, "dsl-parameters", "setters");
    // 4-connected version of a first octant line: (x4+y4, y4) on the 8-connected line
    if(eight)
    {
        int bb = rng.range(1, 12), aa = rng.range(0, bb);
        DSL8 l(aa, bb, pos);
        DSL4 f(l.convertToFourConnected());
        stats().count("converted");
        for(int x = -10; x <= 10; ++x)
            for(int y = -10; y <= 10; ++y)
                CHECK(f.contains(x, y) == l.contains(x + y, y), "dsl-four-connected", str(l) << " -> " << str(f) << " at " << x << "," << y);
        CHECK(!f.eightConnected() && f.width() == l.width(), "dsl-four-connected", str(f));
    }
}

// growing a line point by point at both ends (first octant)
static void grow(Rng &rng)
{
    // a path which mostly follows a random line, with rare deviations
    int B = rng.range(1, 14), A = rng.range(0, B), mu = rng.range(0, B - 1);
    auto yOf = [&](int x) { // smallest y with a*x - b*y - pos >= 0 ... digital line
        long v = (long)A * x - mu; return (int)(v >= 0 ? v / B : -((-v + B - 1) / B)); };
    double dev = rng.chance(0.5) ? 0.0 : 0.08;
    std::vector<P> pts(1, P(0, 0));
    int y0 = yOf(0);
    P right(0, 0), left(0, 0);
    bool firstUp = rng.chance(0.5);
    DSL8 d(firstUp ? 1 : 0, 1, 0);
    note(VF_STR("grow along " << A << "/" << B << " pos " << mu << " deviations " << dev));
    uint64_t h = 99;
    int steps = rng.range(2, 40);
    bool only = rng.chance(0.3);
    for(int k = 0; k < steps; ++k)
    {
        bool toRight = only || rng.chance(0.5) || k == 0;
        P p;
        if(toRight) { p = P(right.first + 1, yOf(right.first + 1) - y0); if(rng.chance(dev)) p.second += rng.range(-1, 1);
                      p.second = std::max(right.second, std::min(right.second + 1, p.second)); }
        else        { p = P(left.first - 1, yOf(left.first - 1) - y0); if(rng.chance(dev)) p.second += rng.range(-1, 1);
                      p.second = std::min(left.second, std::max(left.second - 1, p.second)); }
        if(k == 0) { d = DSL8(p.second, 1, 0); }
        // addPoint() wants coordinates relative to the opposite end
        P o = toRight ? left : right;
        std::vector<P> np(pts); np.push_back(p);
        DSL8 before(d);
        d.setPos(d.pos() - d(o.first, o.second));
        bool ok = d.addPoint(p.first - o.first, p.second - o.second);
        d.setPos(d.pos() + d(o.first, o.second));
        int a, b;
        bool want = straight(np, (int)np.size() + 1, &a, &b);
        h = mix(mix(h, toRight), p.second - (toRight ? right.second : left.second));
        stats().state(h);
        CHECK(ok == want, "dsl-recognition", "adding point " << p.first << "," << p.second << " to " << str(before) << (ok ? " succeeded" : " was refused") << " but the points are " << (want ? "" : "not ") << "a digital line");
        if(!ok)
        {
            CHECK(d.a() == before.a() && d.b() == before.b() && d.pos() == before.pos(), "dsl-refused-changed", str(before) << " became " << str(d));
            stats().count("points_refused");
            break;
        }
        stats().count("points_added");
        pts = np;
        if(toRight) right = p; else left = p;
        for(auto &q : pts)
            CHECK(d.contains(q.first, q.second), "dsl-lost-point", str(d) << " after adding " << p.first << "," << p.second << " does not contain " << q.first << "," << q.second);
        CHECK(d.b() == b && d.a() == a, "dsl-not-minimal", str(d) << " but " << a << "/" << b << " is the simplest line through all points");
    }
}

// tangents of digital curves
static void tangents(Rng &rng)
{
    std::vector<unsigned char> fc;
    bool closed = rng.chance(0.5);
    if(closed)
    {
        // boundary of a random 4-connected shape: random staircase polygon (union of columns)
        int w = rng.range(1, 12);
        std::vector<int> top(w), bot(w);
        int c = 0;
        for(int i = 0; i < w; ++i)
        {
            int lo = c - rng.range(1, 8), hi = c + rng.range(1, 8);
            top[i] = hi; bot[i] = lo;
        }
        // walk: bottoms left to right, then tops right to left (codes 0:+x 1:+y 2:-x 3:-y)
        int y = bot[0];
        for(int i = 0; i < w; ++i)
        {
            while(y < bot[i]) { fc.push_back(1); ++y; }
            while(y > bot[i]) { fc.push_back(3); --y; }
            fc.push_back(0);
        }
        for(int i = w - 1; i >= 0; --i)
        {
            while(y < top[i]) { fc.push_back(1); ++y; }
            while(y > top[i]) { fc.push_back(3); --y; }
            fc.push_back(2);
        }
        while(y > bot[0]) { fc.push_back(3); --y; }
        // random starting point
        size_t r = rng.range(0, (int)fc.size() - 1);
        std::rotate(fc.begin(), fc.begin() + r, fc.end());
    }
    else
    {
        int n = rng.range(2, 40), mode = rng.range(0, 2), A = rng.range(0, 9), B = rng.range(1, 9), acc = rng.range(0, 8);
        int q = rng.range(0, 3);
        for(int i = 0; i < n; ++i)
        {
            int c;
            if(mode == 0) { acc += A; c = acc >= A + B; if(c) acc -= A + B; if(rng.chance(0.03)) c = rng.range(0, 3); }
            else if(mode == 1) c = rng.chance(0.3);
            else c = rng.chance(0.1) ? rng.range(0, 3) : (i / 6) & 1;
            c = (c + q) & 3;
            if(!fc.empty() && (fc.back() ^ 2) == c) c = fc.back(); // a boundary never runs back into itself
            fc.push_back(c);
        }
    }
    std::string s; for(unsigned char c : fc) s += (char)('0' + c);
    note((closed ? "closed " : "open ") + s);
    int n = fc.size();
    for(int rep = 0; rep < 6; ++rep)
    {
        int idx = closed ? rng.range(-3 * n, 3 * n) : rng.range(-2, n + 1);
        note(VF_STR("tangent at " << idx));
        DSL8 d(0, 1, 0);
        int dist = -1; bool threw = false;
        try { dist = vigra::tangentDSL(fc.begin(), fc.end(), idx, closed, d); }
        catch(std::exception &e) { threw = true; note(e.what()); }
        bool bad = !closed && (idx <= 0 || idx >= n);
        CHECK(threw == bad, "tangent-rejection", "tangent at " << idx << " of " << (closed ? "closed " : "open ") << s << (threw ? " rejected" : " accepted"));
        if(bad) { stats().count("tangents_rejected"); continue; }
        int i0 = closed ? (idx % n + n) % n : idx;
        auto code = [&](int k, bool *ok) -> int { // code of step k relative to the point (k >= 0 forward, k < 0 backward)
            int j = i0 + k;
            if(closed) { j = ((j % n) + n) % n; *ok = true; return fc[j]; }
            *ok = j >= 0 && j < n;
            return *ok ? fc[j] : -1;
        };
        // symmetric neighbourhoods: points -k..k as long as at most two codes occur (in first-octant coordinates)
        std::set<int> codes;
        std::vector<P> pts(1, P(0, 0));
        P f(0, 0), b(0, 0);
        int best = 0; int k = 1;
        for(; k <= 2 * n + 2; ++k)
        {
            bool o1, o2;
            int c1 = code(k - 1, &o1), c2 = code(-k, &o2);
            if(!o1 || !o2) break;
            codes.insert(c1); codes.insert(c2);
            if(codes.size() > 2) break;
            f = P(f.first + 1, f.second + (c1 & 1)); b = P(b.first - 1, b.second - (c2 & 1));
            pts.push_back(f); pts.push_back(b);
            if(codes.size() == 2 && ((*codes.begin() ^ *codes.rbegin()) & 1) == 0) break; // back and forth: no digital line
            if(!straight(pts, 2 * k + 2)) break;
            best = k;
        }
        stats().state(mix(mix(hashStr(s), idx), closed));
        // nothing is promised for a point in the middle of a straight run which ends (or turns) on both sides at once
        if(dist == 0)
        {
            bool o1, o2; std::set<int> cc; int kk = 1; bool run = true;
            int c0 = code(0, &o1);
            for(; run; ++kk)
            {
                int c1 = code(kk - 1, &o1), c2 = code(-kk, &o2);
                if(!o1 || !o2) break;
                if(c1 != c0 || c2 != c0) { cc.insert(c1); cc.insert(c2); run = false; }
            }
            bool excused = run || cc.size() > 1 ? true : false;
            if(!run) { cc.insert(c0); excused = cc.size() > 2; }
            CHECK(best == 0 || excused, "tangent-missing", "no tangent at " << idx << " of " << s << ", but there is one of half length " << best);
            stats().count(excused ? "tangents_undefined" : "tangents_none");
            continue;
        }
        CHECK(dist == best, "tangent-length", "tangent at " << idx << " of " << (closed ? "closed " : "open ") << s << " has half length " << dist << " instead of " << best);
        f = b = P(0, 0);
        CHECK(d.contains(0, 0), "tangent-point", "tangent " << str(d) << " does not contain its own point");
        for(int j = 1; j <= dist; ++j)
        {
            bool o; f = P(f.first + 1, f.second + (code(j - 1, &o) & 1)); b = P(b.first - 1, b.second - (code(-j, &o) & 1));
            CHECK(d.contains(f.first, f.second) && d.contains(b.first, b.second), "tangent-point", "tangent " << str(d) << " at " << idx << " of " << s << " misses point " << j);
        }
        stats().count(closed ? "tangents_closed" : "tangents_open");
        stats().count("tangent_steps", dist);
    }
}

static void lut(Rng &rng)
{
    int n = rng.range(1, 24);
    LabelLUT l(rng.chance(0.5) ? n : 0);
    if((int)l.size() != n) l.initIdentity(n);
    std::vector<std::set<unsigned> > groups(n);
    std::vector<unsigned> rep(n);
    for(int i = 0; i < n; ++i) { groups[i].insert(i); rep[i] = i; }
    note(VF_STR("label table of size " << n));
    auto verify = [&](const LabelLUT &t) {
        CHECK((int)t.size() == n, "lut-size", t.size());
        for(int i = 0; i < n; ++i)
            CHECK(t[i] == rep[i], "lut-lookup", "label " << i << " maps to " << t[i] << " instead of " << rep[i]);
        for(int i = 0; i < n; ++i)
            if(!groups[i].empty())
            {
                std::multiset<unsigned> got; int guard = 0;
                for(LabelLUT::MergedIterator it = t.mergedBegin(i); it.inRange(); ++it)
                {
                    got.insert(*it);
                    CHECK(++guard <= n, "lut-merged-endless", "labels merged into " << i);
                }
                CHECK(got == std::multiset<unsigned>(groups[i].begin(), groups[i].end()), "lut-merged", "iteration over labels merged into " << i << " yields " << got.size() << " instead of " << groups[i].size());
            }
    };
    uint64_t h = 5;
    int ops = rng.range(1, 30);
    for(int k = 0; k < ops; ++k)
    {
        if(rng.chance(0.15)) { l.appendOne(); groups.push_back(std::set<unsigned>()); groups.back().insert(n); rep.push_back(n); ++n; stats().count("lut_appended"); h = mix(h, 1); }
        else
        {
            int a = rng.range(0, n - 1), b = rng.range(0, n - 1);
            a = rep[a]; b = rep[b];
            if(a == b) continue;
            note(VF_STR("relabel " << a << " -> " << b));
            LabelLUT copy(l);
            std::vector<std::set<unsigned> > g0; std::vector<unsigned> r0;
            l.relabel(a, b);
            if(rng.chance(0.2)) { verify(copy); stats().count("lut_copies"); }
            for(unsigned x : groups[a]) { rep[x] = b; groups[b].insert(x); }
            groups[a].clear();
            stats().count("lut_merges");
            h = mix(mix(h, a), b);
        }
        verify(l);
        stats().state(mix(h, n));
    }
}

static void C24(Rng &rng, long long i)
{
    switch(i % 5)
    {
      case 0: algebra<DSL8>(rng, true); break;
      case 1: algebra<DSL4>(rng, false); break;
      case 2: grow(rng); break;
      case 3: tangents(rng); break;
      case 4: lut(rng); break;
    }
}

int main(int argc, char **argv) { return runMain(argc, argv, {{"C24", C24}}); }
