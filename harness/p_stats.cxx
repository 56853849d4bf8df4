// C14: color statistics of faces follow the map
#include "hist.hxx"
#include <vigra/multi_array.hxx>
#include "facestatistics.hxx"
#include <boost/shared_ptr.hpp>
using namespace vf;

template<class T> struct Px;
template<> struct Px<float>
{
    enum { N = 1 };
    static float rnd(Rng &r, int style, int x, int y, const std::vector<double> &c) { return style == 0 ? 77 : style == 1 ? r.range(0, 255) : (float)(r.range(0, 40) + (x > 4) * 100 + (y > 5) * 60); }
    static double get(const float &v, int) { return v; }
};
template<> struct Px<vigra::TinyVector<float, 3> >
{
    enum { N = 3 };
    static vigra::TinyVector<float, 3> rnd(Rng &r, int style, int x, int y, const std::vector<double> &c)
    { vigra::TinyVector<float, 3> v; for(int i = 0; i < 3; ++i) v[i] = Px<float>::rnd(r, style, x + 2 * i, y - i, c); return v; }
    static double get(const vigra::TinyVector<float, 3> &v, int i) { return v[i]; }
};

template<class T>
struct Watched
{
    typedef vigra::MultiArray<2, T> Image;
    typedef FaceColorStatistics<Image> FCS;
    boost::shared_ptr<GeoMap> map;
    std::unique_ptr<FCS> st;
    std::map<CellLabel, bool> gaveUp; // faces that are too small to be sampled
    std::map<CellLabel, bool> exact; // faces containing at least one face that was not super-sampled
    Image img;
    unsigned int minCount;
    double maxDiff;
    bool constant;

    void judge(const std::string &what)
    {
        Snap s = takeSnap(*map);
        CHECK(st->checkConsistency(), "statistics-inconsistent", what << ": checkConsistency() fails (superSampledCount() = " << st->superSampledCount() << ")");
        CHECK(st->size() >= s.maxF, "statistics-size", what << ": size");
        struct Acc { double n = 0, s[3] = {0,0,0}, q[3] = {0,0,0}; };
        std::map<CellLabel, Acc> acc;
        for(int y = 0; y < s.h; ++y) for(int x = 0; x < s.w; ++x)
        {
            int l = s.img[y * s.w + x];
            if(l < 0) continue;
            Acc &a = acc[l]; a.n += 1;
            for(int i = 0; i < Px<T>::N; ++i) { double v = Px<T>::get(img(x, y), i); a.s[i] += v; a.q[i] += v * v; }
        }
        unsigned int notExact = 0;
        for(unsigned int l = 0; l < st->size(); ++l)
        {
            bool alive = s.faces.count(l) != 0;
            CHECK(((*st)[l] != 0) == alive, "statistics-of-dead-face", what << ": statistics of face " << l << (alive ? " missing" : " still present"));
            if(!alive) continue;
            double n = acc[l].n;
            if(constant && st->pixelCount(l))
                for(int i = 0; i < Px<T>::N; ++i)
                    CHECK(std::fabs(Px<T>::get(st->average(l), i) - Px<T>::get(img(0, 0), i)) < 0.5, "constant-average", what << ": average of face " << l << " is " << Px<T>::get(st->average(l), i) << " in an image with constant value " << Px<T>::get(img(0, 0), i));
            if(minCount && n >= minCount) { exact[l] = true; stats().count("enough_pixels"); }
            if(!exact[l]) { ++notExact; stats().count("supersampled_faces"); CHECK(st->pixelCount(l) > 0 || n == 0, "no-samples", what << ": face " << l << " has no samples");
                             if(!gaveUp[l]) CHECK(st->pixelCount(l) >= minCount, "too-few-samples", what << ": face " << l << " has only " << st->pixelCount(l) << " samples, " << minCount << " requested"); continue; }
            CHECK(st->pixelCount(l) == n, "pixel-count", what << ": face " << l << " has " << st->pixelCount(l) << " samples, but " << n << " pixels carry its label");
            if(n == 0) continue;
            for(int i = 0; i < Px<T>::N; ++i)
            {
                double mean = acc[l].s[i] / n, var = std::max(0.0, acc[l].q[i] / n - mean * mean);
                CHECK(std::fabs(Px<T>::get(st->average(l), i) - mean) < 2e-3, "face-average", what << ": average of face " << l << " is " << Px<T>::get(st->average(l), i) << ", its pixels have " << mean);
                CHECK(std::fabs(Px<T>::get(st->variance(l, false), i) - var) < 1e-2 + 1e-3 * var, "face-variance", what << ": variance of face " << l << " is " << Px<T>::get(st->variance(l, false), i) << ", its pixels have " << var);
                if(n > 1) CHECK(std::fabs(Px<T>::get(st->variance(l, true), i) - var * n / (n - 1)) < 1e-2 + 1e-3 * var * n / (n - 1), "face-variance", what << ": unbiased variance of face " << l);
            }
            stats().count("faces_compared");
        }
        // region image: average of the face or zero
        Image reg(img.shape());
        reg.init(T(-1.f));
        st->copyRegionImage(destImage(reg));
        for(int y = 0; y < s.h; ++y) for(int x = 0; x < s.w; ++x)
        {
            int l = s.img[y * s.w + x];
            for(int i = 0; i < Px<T>::N; ++i)
            {
                double want = l < 0 ? 0.0 : Px<T>::get(st->average(l), i);
                CHECK(std::fabs(Px<T>::get(reg(x, y), i) - want) < 1e-3, "region-image", what << ": region image at (" << x << "," << y << ") is " << Px<T>::get(reg(x, y), i) << ", expected " << want);
            }
        }
        for(auto &e : s.edges)
        {
            if(e.second.l == e.second.r || !e.second.l || !e.second.r || !st->pixelCount(e.second.l) || !st->pixelCount(e.second.r)) continue;
            double d = 0;
            for(int i = 0; i < Px<T>::N; ++i) { double x = Px<T>::get(st->average(e.second.l), i) - Px<T>::get(st->average(e.second.r), i); d += x * x; }
            d = std::sqrt(d) / maxDiff;
            double a1 = s.faces[e.second.l].area, a2 = s.faces[e.second.r].area, h = a1 * a2 / (a1 + a2);
            GeoMap::Dart dart(map->dart(e.first));
            CHECK(std::fabs(st->faceMeanDiff(dart) - d) <= 1e-4 * (1 + d), "face-mean-diff", what << ": faceMeanDiff() of dart " << e.first << " is " << st->faceMeanDiff(dart) << ", expected " << d);
            CHECK(std::fabs(st->faceHomogeneity(dart) - d * std::sqrt(h)) <= 1e-4 * (1 + d * std::sqrt(h)), "face-homogeneity", what << ": faceHomogeneity() of dart " << e.first << " is " << st->faceHomogeneity(dart) << ", expected " << d * std::sqrt(h));
            stats().count("differences_compared");
        }
        stats().state(imgHash(s));
    }
};

template<class T>
static void caseStats(Rng &r)
{
    typedef Watched<T> W;
    GenOptions go; 
    bool sample = r.chance(0.6);
    // (the spline view is valid some pixels around the image, too, but VIGRA takes a first
    // request at (-1,-1) for a repeated one)
    double margin = r.chance(0.5) ? 0.95 : 0;
    if(sample && margin == 0) go.outside = false;
    Subject sub;
    for(int t = 0; ; ++t)
    {
        sub = makeSubject(r, 1, 0.3, go);
        if(!sample) break;
        // spline interpolation needs some room and geometry within the image
        bool ok = sub.map->imageSize().x > 6 && sub.map->imageSize().y > 6;
        Snap s = takeSnap(*sub.map);
        for(auto &e : s.edges) for(auto &p : e.second.p) if(p.first < -margin || p.second < -margin || p.first > s.w - 1 + margin || p.second > s.h - 1 + margin) ok = false;
        if(ok) break;
        if(t > 30) { sample = false; break; }
    }
    std::vector<std::unique_ptr<W> > ws;
    std::unique_ptr<W> w(new W);
    {
        std::shared_ptr<GeoMap> keep(sub.map);
        w->map = boost::shared_ptr<GeoMap>(keep.get(), [keep](GeoMap *) {});
    }
    GeoMap &m = *w->map;
    vigra::Size2D sz(m.imageSize());
    w->img.reshape(typename W::Image::difference_type(sz.x, sz.y));
    int style = r.below(3);
    for(int y = 0; y < sz.y; ++y) for(int x = 0; x < sz.x; ++x) w->img(x, y) = Px<T>::rnd(r, style, x, y, std::vector<double>());
    w->constant = style == 0;
    w->minCount = sample ? r.range(1, 14) : 0;
    w->maxDiff = r.chance(0.5) ? 1.0 : 255 * std::sqrt(3.0);
    // optional listener that objects
    bool veto = r.chance(0.3), vetoFirst = r.chance(0.5);
    boost::signals2::scoped_connection vc;
    std::shared_ptr<Rng> vr(new Rng(r.next()));
    auto objector = [vr](const GeoMap::Dart &) { return vr->uni() > 0.3; };
    if(veto && vetoFirst) vc = m.preMergeFacesHook.connect(objector);
    note(VF_STR("statistics minSampleCount=" << w->minCount));
    w->st.reset(new typename W::FCS(w->map, w->img, w->maxDiff, w->minCount));
    if(veto && !vetoFirst) vc = m.preMergeFacesHook.connect(objector);
    Snap s0 = takeSnap(m);
    for(auto &f : s0.faces) w->exact[f.first] = f.first == 0 || f.second.pixelArea >= w->minCount;
    for(auto &f : s0.faces) w->gaveUp[f.first] = w->st->pixelCount(f.first) < w->minCount && takeSnap(m).faces[f.first].area < 0.5;
    w->judge("initially");
    if(w->minCount)
    {
        unsigned int ss = 0;
        for(auto &x : w->exact) if(!x.second) ++ss;
        CHECK(ss == w->st->superSampledCount(), "supersampled-count", "superSampledCount() = " << w->st->superSampledCount() << ", " << ss << " faces have too few pixels");
        if(ss) stats().count("maps_with_supersampling");
    }
    ws.push_back(std::move(w));
    int n = r.range(8, 40);
    for(int i = 0; i < n; ++i)
    {
        size_t k = r.below(ws.size());
        W &c = *ws[k];
        Snap cur = takeSnap(*c.map);
        Op op;
        static const OpKind ks[] = { OP_MERGE_FACES, OP_MERGE_FACES, OP_MERGE_FACES, OP_REMOVE_EDGE, OP_REMOVE_BRIDGE, OP_MERGE_EDGES, OP_SPLIT_EDGE };
        if(!pickOp(r, cur, ks[r.below(7)], op)) continue;
        note(VF_STR("[" << k << "] " << op.str()));
        bool merging = op.dart && op.kind != OP_MERGE_EDGES && cur.left(op.dart) != cur.left(-op.dart);
        OpResult res = runOp(*c.map, op);
        CHECK(!res.threw, "op-threw", op.str() << " raised " << res.what);
        if(merging && !res.null) { c.exact[res.label] = c.exact[cur.left(op.dart)] || c.exact[cur.left(-op.dart)]; c.gaveUp[res.label] = c.gaveUp[cur.left(op.dart)] || c.gaveUp[cur.left(-op.dart)]; stats().count("merges"); }
        if(merging && res.null) stats().count("merges_vetoed");
        for(auto &x : ws) x->judge(VF_STR("[" << k << "] after " << op.str()));
        if(c.st->superSampledCount() == 0 && c.minCount) stats().count("all_sampled");
        if(r.chance(0.06) && ws.size() < 3) // copy statistics together with the map
        {
            std::unique_ptr<W> o(new W);
            o->map.reset(new GeoMap(*c.map));
            o->st.reset(new typename W::FCS(*c.st));
            o->st->attachHooks(o->map);
            o->img = c.img; o->exact = c.exact; o->gaveUp = c.gaveUp; o->minCount = c.minCount; o->maxDiff = c.maxDiff; o->constant = c.constant;
            note(VF_STR("copy [" << k << "]"));
            o->judge("copy");
            ws.push_back(std::move(o));
            stats().count("copies");
        }
        else if(r.chance(0.03)) // destroy statistics, keep on using the map
        {
            note(VF_STR("destroy statistics [" << k << "]"));
            boost::shared_ptr<GeoMap> mp(c.map);
            if(r.chance(0.5)) c.st->detachHooks();
            ws.erase(ws.begin() + k);
            for(int j = 0; j < 4; ++j)
            {
                Snap cs = takeSnap(*mp);
                if(pickOp(r, cs, OP_MERGE_FACES, op)) runOp(*mp, op);
            }
            stats().count("destroyed");
            if(ws.empty()) break;
        }
    }
}

int main(int argc, char **argv)
{
    std::map<std::string, CaseFn> p;
    p["C14"] = [](Rng &r, long long i) { if(i % 3) caseStats<float>(r); else caseStats<vigra::TinyVector<float, 3> >(r); };
    return runMain(argc, argv, p);
}
