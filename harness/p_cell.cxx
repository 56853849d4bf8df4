// C18: decomposition of boundary images into cells, C19: operations on cell images
#include "cell.hxx"
using namespace vf;

static CMap *tryCells(const Bin &b, ci::CellType corner, std::string &why)
{
    try { return makeCells(b, corner); }
    catch(vigra::PreconditionViolation &e) { why = e.what(); return 0; }
}

static void verifyInit(const Bin &b, CMap &m, const CSnap &s)
{
    CHECK(s.w == b.w + 4 && s.h == b.h + 4, "cell-image-size", "cell image has size " << s.w << "x" << s.h);
    CHECK(m.cells == m.cellImage.upperLeft() + vigra::Diff2D(2, 2), "cell-origin", "cells does not point to the upper left corner");
    int stuffed = 0;
    for(int y = -2; y < b.h + 2; ++y) for(int x = -2; x < b.w + 2; ++x)
    {
        bool fg = b.at(x, y) != 0;
        if(fg) CHECK(s.type(x, y) != 0, "boundary-pixel-lost", "boundary pixel (" << x << "," << y << ") belongs to face " << s.label(x, y));
        else if(s.type(x, y) != 0)
        {
            // only holes completely enclosed by one node may be filled
            CHECK(s.type(x, y) == 2, "region-pixel-lost", "region pixel (" << x << "," << y << ") belongs to an edge"); ++stuffed;
            for(int k = 0; k < 8; k += 2) CHECK(s.type(x + DX8[k], y + DY8[k]) == 2 && s.label(x + DX8[k], y + DY8[k]) == s.label(x, y), "region-pixel-lost", "region pixel (" << x << "," << y << ") was added to a node which does not enclose it");
        }
    }
    if(stuffed) stats().count("stuffed_pixels", stuffed);
}

static void caseInit(Rng &r)
{
    ci::CellType corner = r.chance(0.5) ? ci::CellTypeLine : ci::CellTypeVertex;
    Bin b = genBoundary(r, corner == ci::CellTypeLine);
    note(VF_STR("corners are " << (corner == ci::CellTypeLine ? "edges" : "nodes") << "\n" << describeBin(b)));
    std::string why;
    std::unique_ptr<CMap> m(tryCells(b, corner, why));
    bool thin = true;
    for(int y = 0; y < b.h && thin; ++y) for(int x = 0; x < b.w && thin; ++x)
    { int fg; if(b.at(x, y) && simplePoint(b, x, y, fg) && fg > 1) thin = false; }
    if(!m)
    {
        stats().count("rejected");
        CHECK(!thin, "thin-rejected", "a thin boundary image was rejected: " << why);
        stats().count("rejected_unthinned");
        return;
    }
    stats().count("accepted"); if(!thin) stats().count("accepted_unthinned");
    CSnap s = csnap(*m);
    verifyInit(b, *m, s);
    verifyCells(*m, s, true);
    // copies and re-import
    CMap c(*m);
    CSnap sc = csnap(c);
    CHECK(sc == s, "cell-copy", "copy differs: " << cdiff(s, sc));
    CHECK(c.cellImage.data() != m->cellImage.data(), "cell-copy-shared", "copy shares the cell image");
    verifyCells(c, sc, true);
    CMap im(m->cellImage);
    CSnap si = csnap(im);
    verifyCells(im, si, true);
    CHECK(si.px == s.px && si.nc == s.nc && si.ec == s.ec && si.fc == s.fc, "cell-import", "map imported from a cell image differs: " << cdiff(s, si));
    // the other handling of corners: same regions
    if(thin && r.chance(0.5))
    {
        std::unique_ptr<CMap> o(tryCells(b, corner == ci::CellTypeLine ? ci::CellTypeVertex : ci::CellTypeLine, why));
        if(o)
        {
            CSnap so = csnap(*o);
            verifyCells(*o, so, true);
            if(so.nc > s.nc ? corner == ci::CellTypeLine : so.nc < s.nc) stats().count("corner_nodes");
        }
    }
    stats().state(mix(binHash(b), corner));
    stats().sample(describeBin(b));
}

static void caseOps(Rng &r)
{
    ci::CellType corner = r.chance(0.5) ? ci::CellTypeLine : ci::CellTypeVertex;
    Bin b = genBoundary(r, corner == ci::CellTypeLine);
    note(VF_STR("corners are " << (corner == ci::CellTypeLine ? "edges" : "nodes") << "\n" << describeBin(b)));
    std::string why;
    std::unique_ptr<CMap> m(tryCells(b, corner, why));
    if(!m) { stats().count("rejected"); return; }
    std::unique_ptr<CMap> twin;
    CSnap cur = csnap(*m);
    uint64_t h = binHash(b);
    static const char *n[] = {"op_removeIsolatedNode", "op_mergeFaces", "op_removeBridge", "op_mergeEdges"};
    static const char *ref[] = {"refused_removeIsolatedNode", "refused_mergeFaces", "refused_removeBridge", "refused_mergeEdges"};
    for(int k = r.range(3, 40); k; --k)
    {
        COp o;
        bool valid = !r.chance(0.15);
        if(!pickCOp(r, *m, o, valid)) { if(valid) break; else continue; }
        note(o.str());
        CExpect x = valid ? expectCOp(*m, o) : CExpect();
        COpResult res = runCOp(*m, *m, o);
        CSnap a = csnap(*m);
        if(!valid)
        {
            CHECK(res.threw, "cell-op-accepted", o.str() << " should have been rejected");
            CHECK(a == cur, "cell-refused-changed", o.str() << " was rejected but changed the map: " << cdiff(cur, a));
            stats().count(ref[o.t]);
        }
        else
        {
            checkCTransition(cur, a, o, x, res);
            stats().count(n[o.t]);
        }
        verifyCells(*m, a, false);
        if(twin)
        {
            if(valid && r.chance(0.5))
            {
                CSnap tb = csnap(*twin);
                if(tb == cur)
                {
                    COpResult r2 = runCOp(*twin, *twin, o);
                    CSnap ta = csnap(*twin);
                    CHECK(!r2.threw && r2.label == res.label && ta == a, "cell-copy-op", o.str() << " has another effect on a copy: " << cdiff(a, ta));
                    stats().count("copies_in_step");
                }
                CSnap now = csnap(*m);
                CHECK(now == a, "cell-copy-shared", "operation on a copy changed the original");
            }
        }
        if(r.chance(0.1)) { if(twin && r.chance(0.5)) *twin = *m; else twin.reset(new CMap(*m)); stats().count("copies"); }
        cur = a;
        h = mix(h, csnapHash(a));
        stats().state(h);
    }
    stats().sample(describeBin(b));
}

int main(int argc, char **argv)
{
    std::cerr.rdbuf(0);
    std::map<std::string, CaseFn> p;
    p["C18"] = [](Rng &r, long long) { caseInit(r); };
    p["C19"] = [](Rng &r, long long) { caseOps(r); };
    return runMain(argc, argv, p);
}
