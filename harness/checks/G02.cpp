// G02 area booleans and offsets contain exactly the expected points
// SOURCES: utils/linearAlg2D.cpp geometry/*.cpp utils/ListPolyIt.cpp utils/PolylineStitcher.cpp
#include "geo.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/MixedLinesSet.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;

static constexpr ld TOL = 6; // micron; coordinates of new vertices are rounded

static coord_t genScale(Gen& g)
{
    return g.oneof<coord_t>({ 1000, 5000, 40000, 200000 });
}
static bool fillIn(int w, ClipperLib::PolyFillType f)
{
    switch (f)
    {
    case ClipperLib::pftEvenOdd:
        return w & 1;
    case ClipperLib::pftNonZero:
        return w != 0;
    case ClipperLib::pftPositive:
        return w > 0;
    default:
        return w < 0;
    }
}
template<class S>
static int wind(const S& s, const Point2LL& p)
{
    bool b = false;
    return windingSum(s, p, b);
}
// Result sets are in normal form: even-odd and winding agree, winding is 0 or 1 away from the borders. (Clipper itself
// can get the orientation of a sliver wrong when the input is self-intersecting; there only the point set counts.)
static bool g_strict;
static bool memberNormal(const Shape& res, const Point2LL& p, const char* op)
{
    const int w = wind(res, p);
    PBT_CHECK(w == 0 || w == 1 || ! g_strict, "%s: winding number %d at %s in the result %s", op, w, str(p).c_str(), strShape(res).substr(0, 1500).c_str());
    return w & 1;
}

static void booleans(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = genScale(g);
    const bool areaA = g.flip(), areaB = g.flip();
    const Shape A = areaA ? genArea(g, sc) : genSoup(g, sc);
    const Shape B = areaB ? genArea(g, sc) : genSoup(g, sc);
    c.note("A=%s B=%s", strShape(A).c_str(), strShape(B).c_str());
    const Shape Bu = B.unionPolygons();
    const auto fill = g.oneof<ClipperLib::PolyFillType>({ ClipperLib::pftNonZero, ClipperLib::pftEvenOdd, ClipperLib::pftPositive, ClipperLib::pftNegative });
    const Shape uni = A.unionPolygons(B), uniF = A.unionPolygons(B, fill), dif = A.difference(B), inter = A.intersection(B), xr = A.xorPolygons(B), self = A.unionPolygons();
    const Shape eo = A.processEvenOdd(fill), ex = A.execute(fill);
    Shape simp = A;
    simp.simplify(fill);
    Shape uniP, difP, interP;
    const bool with_poly = ! B.empty() && B.size() >= 1;
    if (with_poly)
    {
        uniP = A.unionPolygons(B[0]);
        difP = A.difference(B[0]);
        if (! A.empty())
        {
            interP = A[0].intersection(B[0]);
        }
    }
    Shape both = A;
    both.push_back(B);
    int n_in = 0, n_out = 0;
    g_strict = areaA && areaB;
    const ld tol = g_strict ? TOL : 20;
    for (int k = 0; k < 24; k++)
    {
        const Point2LL p = genProbe(g, both.empty() ? Shape() : both, 40);
        if (borderDist(A, p) <= tol || borderDist(B, p) <= tol)
        {
            continue;
        }
        const int wa = wind(A, p), wb = wind(B, p);
        const bool a = wa & 1, b = wb & 1;
        (a && b ? n_in : n_out)++;
        const std::string at = str(p);
        PBT_CHECK(memberNormal(uni, p, "union") == (wa + wb != 0), "union at %s", at.c_str());
        PBT_CHECK(memberNormal(uniF, p, "union") == fillIn(wa + wb, fill), "union with fill rule %d at %s", fill, at.c_str());
        PBT_CHECK(memberNormal(self, p, "self-union") == (wa != 0), "self-union at %s", at.c_str());
        PBT_CHECK(memberNormal(dif, p, "difference") == (B.empty() ? a : a && ! b), "difference at %s", at.c_str());
        PBT_CHECK(memberNormal(inter, p, "intersection") == (a && b), "intersection at %s", at.c_str());
        PBT_CHECK(memberNormal(xr, p, "xor") == (a != b), "xor at %s", at.c_str());
        PBT_CHECK(memberNormal(eo, p, "processEvenOdd") == fillIn(wa, fill), "processEvenOdd rule %d at %s", fill, at.c_str());
        PBT_CHECK(memberNormal(simp, p, "simplify") == fillIn(wa, fill), "simplify rule %d at %s", fill, at.c_str());
        PBT_CHECK(memberNormal(ex, p, "execute") == fillIn(wa, fill), "execute rule %d at %s", fill, at.c_str());
        if (with_poly)
        {
            bool bb = false;
            const int wp = winding(B[0], p, bb);
            PBT_CHECK(memberNormal(uniP, p, "union") == (wa + wp != 0), "union with a polygon at %s", at.c_str());
            PBT_CHECK(memberNormal(difP, p, "difference") == (a && ! (wp & 1)), "difference with a polygon at %s", at.c_str());
            if (! A.empty())
            {
                const int w0 = winding(A[0], p, bb);
                PBT_CHECK(memberNormal(interP, p, "intersection") == ((w0 & 1) && (wp & 1)), "intersection of polygons at %s", at.c_str());
            }
        }
    }
    if (n_in && n_out)
    {
        c.nontrivial();
    }
    // measure: |A| + |B| = |A u B| + |A n B| for areas in normal form
    PBT_CHECK(std::fabs(A.area() - shapeArea(A)) <= 1e-6L * sc * sc, "area %.1f, want %.1Lf", A.area(), shapeArea(A));
    if (! areaA || ! areaB)
    {
        return; // Clipper's own rounding error is unbounded on slivers of self-intersecting input
    }
    const Shape a1 = A.unionPolygons(), b1 = B.unionPolygons();
    const ld lhs = shapeArea(a1) + shapeArea(b1), rhs = shapeArea(a1.unionPolygons(b1)) + shapeArea(a1.intersection(b1));
    PBT_CHECK(std::fabs(lhs - rhs) <= 3 * (perimeter(a1) + perimeter(b1)) + 1000, "areas: |A|+|B| = %.0Lf but |union|+|intersection| = %.0Lf", lhs, rhs);
}

// Reach of a corner of the offset: mitred up to the limit (Clipper takes limits below 2 as 2), squared off beyond it, or rounded.
static ld reach(ClipperLib::JoinType jt, double miter)
{
    return jt == ClipperLib::jtRound ? 1.0L : std::max<ld>(2.0L, miter) * 1.0001L;
}
static ld arcLoss(ClipperLib::JoinType jt)
{
    return jt == ClipperLib::jtRound ? 25 : 0; // arcs are approximated to within 10 micron, with the number of steps rounded to nearest
}

static void offsets(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 2000, 10000, 60000 });
    const bool area = g.chance(2, 3);
    Shape A;
    if (area)
    {
        A = genArea(g, sc);
    }
    else // overlapping outlines, not united yet
    {
        const int n = g.range(1, 4);
        for (int i = 0; i < n; i++)
        {
            A.push_back(toPolygon(genSimpleRing(g, genPoint(g, sc / 2), g.range(sc / 10, sc / 2))));
        }
    }
    const auto jt = g.oneof<ClipperLib::JoinType>({ ClipperLib::jtMiter, ClipperLib::jtRound, ClipperLib::jtSquare });
    const double miter = g.oneof({ 1.2, 2.0, 5.0 });
    const coord_t d = g.around(g.oneof<coord_t>({ 30, sc / 20, sc / 4 }));
    c.note("d=%lld join=%d miter=%g A=%s", (long long)d, jt, miter, strShape(A).c_str());
    if (A.empty())
    {
        c.discard();
    }
    const Shape R = A.offset(d, jt, miter);
    const Shape L = static_cast<const LinesSet<Polygon>&>(A).offset(d, jt, miter);
    const Shape N = A.unionPolygons(); // what is offset is the union
    const bool zero = d == 0;
    if (zero)
    {
        PBT_CHECK(countPts(R) == countPts(A), "offset by nothing is the identity");
        return;
    }
    const Shape P1 = A[0].offset(d, jt, miter);
    const Shape N1 = Shape(A[0]);
    const bool simple0 = ringSimple(A[0]) && ringArea(A[0]) > 0;
    const ld tol = TOL + 4;
    const ld far = reach(jt, miter) * std::llabs(d) + tol + 2, near_ = std::llabs(d) - tol - arcLoss(jt);
    int n_near = 0, n_far = 0;
    Box bx;
    bx.addShape(A);
    for (int k = 0; k < 24; k++)
    {
        const Point2LL p = genProbe(g, A, 2 * std::llabs(d) + 20);
        const auto want = [&](const Shape& S) -> int // 1 in, 0 out, -1 undecided
        {
            const bool in = wind(S, p) != 0;
            const ld bd = borderDist(S, p);
            if (d > 0)
            {
                return in || bd < near_ ? (in && bd < tol ? -1 : 1) : bd > far ? 0 : -1;
            }
            return ! in ? (bd < tol ? -1 : 0) : bd < near_ ? 0 : bd > far ? 1 : -1;
        };
        const int w = want(N);
        if (w >= 0)
        {
            (w ? n_near : n_far)++;
            PBT_CHECK((wind(R, p) != 0) == (w == 1), "offset by %lld at %s: border distance %.1Lf, inside %d", (long long)d, str(p).c_str(), borderDist(N, p), wind(N, p) != 0);
            PBT_CHECK((wind(L, p) != 0) == (w == 1), "offset of the line set by %lld at %s", (long long)d, str(p).c_str());
        }
        if (simple0)
        {
            const int w1 = want(N1);
            if (w1 >= 0)
            {
                PBT_CHECK((wind(P1, p) != 0) == (w1 == 1), "offset of one polygon by %lld at %s: border distance %.1Lf", (long long)d, str(p).c_str(), borderDist(N1, p));
            }
        }
    }
    if (n_near && n_far)
    {
        c.nontrivial();
    }
    c.label(d > 0 ? "outward" : "inward");
    // tube: points of S grown by `out` that are not in S shrunk by `in`
    if (d > 0 && area)
    {
        const coord_t in = g.range(1, d);
        const Shape T = A.createTubeShape(in, d);
        for (int k = 0; k < 8; k++)
        {
            const Point2LL p = genProbe(g, A, 2 * d);
            const bool ins = wind(N, p) != 0;
            const ld bd = borderDist(N, p);
            const ld r = reach(ClipperLib::jtMiter, 1.2);
            if (bd > tol && (ins ? bd < in - tol : bd < d - tol))
            {
                PBT_CHECK(wind(T, p) != 0, "tube misses %s at border distance %.1Lf (inside: %d)", str(p).c_str(), bd, ins);
            }
            if (ins ? bd > in * r + tol : bd > d * r + tol)
            {
                PBT_CHECK(wind(T, p) == 0, "tube covers %s at border distance %.1Lf (inside: %d)", str(p).c_str(), bd, ins);
            }
        }
    }
}

static void lineOffsets(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 4000, 30000 });
    OpenLinesSet open;
    ClosedLinesSet closed;
    Shape polys;
    const int n = g.range(1, 3);
    for (int i = 0; i < n; i++)
    {
        ClipperLib::Path pts;
        const int m = g.range(2, 6);
        for (int k = 0; k < m; k++)
        {
            pts.push_back(genPoint(g, sc));
        }
        open.push_back(OpenPolyline(pts));
    }
    const std::vector<Point2LL> ring = genSimpleRing(g, genPoint(g, sc), sc / 3);
    closed.push_back(ClosedPolyline(ClipperLib::Path(ring.begin(), ring.end()), false));
    const coord_t d = g.range(20, sc / 4);
    const auto jt = g.oneof<ClipperLib::JoinType>({ ClipperLib::jtMiter, ClipperLib::jtRound });
    c.note("d=%lld join=%d open=%s closed=%s", (long long)d, jt, strShape(open).c_str(), strPts(ring).c_str());
    c.nontrivial();
    const Shape O = open.offset(d, jt, 1.2), C = closed.offset(d, jt, 1.2);
    polys.push_back(toPolygon(genSimpleRing(g, genPoint(g, sc), sc / 3)));
    MixedLinesSet mixed;
    mixed.push_back(open);
    mixed.push_back(closed);
    mixed.push_back(polys);
    const Shape M = mixed.offset(d, jt, 1.2);
    const ld tol = 8, far = reach(jt, 1.2) * d + tol, near_ = d - tol - arcLoss(jt);
    std::vector<std::vector<Point2LL>> rings{ ring };
    for (int k = 0; k < 24; k++)
    {
        Point2LL p;
        if (g.flip())
        {
            p = genProbe(g, open, 2 * d);
        }
        else
        {
            p = genProbe(g, rings, 2 * d);
        }
        const ld od = openDist(open, p), cd = borderDist(rings, p), pd = wind(polys, p) != 0 ? 0 : borderDist(polys, p);
        const auto chk = [&](const Shape& S, ld dd, const char* what)
        {
            if (dd < near_)
            {
                PBT_CHECK(wind(S, p) != 0, "%s offset by %lld misses %s at distance %.1Lf", what, (long long)d, str(p).c_str(), dd);
            }
            if (dd > far)
            {
                PBT_CHECK(wind(S, p) == 0, "%s offset by %lld covers %s at distance %.1Lf", what, (long long)d, str(p).c_str(), dd);
            }
        };
        chk(O, od, "open lines");
        chk(C, cd, "closed lines");
        chk(M, std::min(pd, std::min(od, cd)), "mixed lines");
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r(
        "G02",
        {
            { "booleans", 110000, 1500000, "pairs of polygon sets (simple areas with holes, or soups that overlap, self-intersect and share grid points), 24 probe points each, two thirds of them near borders; non-trivial: probes in the intersection and outside it", booleans },
            { "offsets", 60000, 900000, "polygon sets offset in and out with all join types; non-trivial: decided probes on both sides", offsets },
            { "lineOffsets", 40000, 500000, "open, closed and mixed polylines thickened; all count", lineOffsets },
        });
    return r.main(argc, argv);
}
