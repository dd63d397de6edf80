// G01 planar and integer arithmetic agrees with exact arithmetic
// SOURCES: utils/linearAlg2D.cpp geometry/PointMatrix.cpp geometry/Point3LL.cpp geometry/Point2LL.cpp geometry/*.cpp utils/ListPolyIt.cpp utils/PolylineStitcher.cpp
#include <limits>
#include <type_traits>
#include "geo.h"
#include "geometry/Point3Matrix.h"
#include "geometry/PointMatrix.h"
#include "utils/linearAlg2D.h"
#include "utils/math.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;

static coord_t genRange(Gen& g)
{
    return g.oneof<coord_t>({ 20, 300, 5000, 100000, 400000 });
}
static Point2LL genPt(Gen& g, coord_t r)
{
    return g.chance(1, 4) ? genPointMixed(g, r, std::max<coord_t>(1, r / 5)) : genPoint(g, r);
}

static void division(Case& c)
{
    Gen& g = c.g;
    int64_t a = g.signedMagnitude(g.oneof({ 4, 12, 40, 61 })), b = g.signedMagnitude(g.oneof({ 3, 10, 40, 61 }));
    if (g.chance(1, 3) && b != 0 && std::abs(b) < (1ll << 30))
    {
        a = b * g.around(1 << 20) + g.around(1); // at and next to exact multiples
    }
    if (g.chance(1, 3) && std::abs(b) > 1 && std::abs(b) < (1ll << 30))
    {
        a = b * g.around(1000) + b / 2 + g.around(1); // at and next to ties
    }
    if (b == 0)
    {
        b = 1;
    }
    c.note("a=%lld b=%lld", (long long)a, (long long)b);
    if (std::abs(b) > 1 && a % b != 0)
    {
        c.nontrivial();
    }
    const i128 A = a, B = b;
    i128 fl = A / B;
    if (A % B != 0 && ((A < 0) != (B < 0)))
    {
        fl--;
    }
    const i128 ce = (A % B == 0) ? A / B : fl + 1;
    PBT_CHECK(floor_divide_signed(a, b) == (int64_t)fl, "floor(%lld/%lld) = %lld, want %lld", (long long)a, (long long)b, (long long)floor_divide_signed(a, b), (long long)fl);
    PBT_CHECK(ceil_divide_signed(a, b) == (int64_t)ce, "ceil(%lld/%lld) = %lld, want %lld", (long long)a, (long long)b, (long long)ceil_divide_signed(a, b), (long long)ce);
    const i128 r = round_divide_signed(a, b);
    i128 err = 2 * (A - r * B);
    err = err < 0 ? -err : err;
    PBT_CHECK(err <= (B < 0 ? -B : B), "round(%lld/%lld) = %lld is not a nearest integer", (long long)a, (long long)b, (long long)r);
    if (a >= 0 && b > 0)
    {
        const i128 ru = round_divide(a, b);
        i128 e2 = 2 * (A - ru * B);
        e2 = e2 < 0 ? -e2 : e2;
        PBT_CHECK(e2 <= B, "unsigned round(%lld/%lld) = %lld", (long long)a, (long long)b, (long long)ru);
        PBT_CHECK(round_up_divide(a, b) == (uint64_t)ce, "unsigned ceil(%lld/%lld)", (long long)a, (long long)b);
    }
}

static void conversions(Case& c)
{
    Gen& g = c.g;
    const int64_t mu = g.signedMagnitude(g.oneof({ 6, 20, 40 }));
    c.note("mu=%lld", (long long)mu);
    if (mu != 0)
    {
        c.nontrivial();
    }
    const double mm = INT2MM(mu);
    PBT_CHECK(MM2INT(mm) == mu, "%lld um -> %.17g mm -> %lld um", (long long)mu, mm, (long long)MM2INT(mm));
    const double off = mm + g.real(-0.00049, 0.00049);
    PBT_CHECK(std::abs(MM2INT(off) - mu) <= (std::abs(off * 1000 - mu) > 0.499 ? 1 : 0), "%.17g mm -> %lld um, want %lld", off, (long long)MM2INT(off), (long long)mu);
    PBT_CHECK(MM2INT(-mm) == -mu, "sign symmetry");
    // interpolation
    const int64_t a = g.signedMagnitude(30), b = g.signedMagnitude(30);
    const double t = g.real(0, 1);
    const ld want = (ld)a + ((ld)b - (ld)a) * (ld)t;
    const int64_t got = cura::lerp(a, b, t);
    PBT_CHECK(std::fabs((ld)got - want) <= 0.51L, "lerp(%lld,%lld,%g)=%lld want %.3Lf", (long long)a, (long long)b, t, (long long)got, want);
    PBT_CHECK(cura::lerp(a, b, 0.0) == a && cura::lerp(a, b, 1.0) == b, "lerp end points");
    if (a != b)
    {
        const double il = inverse_lerp<int64_t>(a, b, got);
        PBT_CHECK(std::fabs(il - t) <= 0.6 / std::fabs((double)b - a) + 1e-9, "inverse_lerp(lerp(t)) = %g, t = %g", il, t);
    }
    const coord_t d = g.around(8);
    PBT_CHECK(fuzzy_equal(a, a + d) == (std::abs(d) <= 5), "fuzzy_equal at %lld", (long long)d);
    PBT_CHECK(fuzzy_not_equal(a, a + d) == (std::abs(d) > 5), "fuzzy_not_equal at %lld", (long long)d);
    PBT_CHECK(fuzzy_is_greater(a + d, a) == (d > 5), "fuzzy_is_greater at %lld", (long long)d);
    PBT_CHECK(fuzzy_is_lesser(a + d, a) == (d < -5), "fuzzy_is_lesser at %lld", (long long)d);
    PBT_CHECK(fuzzy_is_greater_or_equal(a + d, a) == (d > -5), "fuzzy_is_greater_or_equal at %lld", (long long)d);
    PBT_CHECK(fuzzy_is_lesser_or_equal(a + d, a) == (d < 5), "fuzzy_is_lesser_or_equal at %lld", (long long)d);
    PBT_CHECK(cura::square<int64_t>(d) == d * d, "square");
}

static void vectors(Case& c)
{
    Gen& g = c.g;
    const coord_t r = genRange(g);
    const Point2LL p = genPt(g, r), q = genPt(g, r);
    c.note("p=%s q=%s", str(p).c_str(), str(q).c_str());
    if (p != q && p.X && p.Y)
    {
        c.nontrivial();
    }
    const ld len = std::hypot((ld)p.X, (ld)p.Y);
    PBT_CHECK(std::fabs(vSize(p) - len) <= 0.501L, "vSize(%s)=%lld", str(p).c_str(), (long long)vSize(p));
    PBT_CHECK(vSize2(p) == p.X * p.X + p.Y * p.Y && dot(p, q) == p.X * q.X + p.Y * q.Y && cross(p, q) == p.X * q.Y - p.Y * q.X, "products");
    PBT_CHECK(std::fabs(vSizeMM(p) - (double)len / 1000) <= 1e-9 * (1 + (double)len), "vSizeMM");
    const coord_t lim = g.oneof<coord_t>({ (coord_t)len, (coord_t)len + 1, (coord_t)len - 1, g.range(0, 2 * r) });
    if (lim >= 0)
    {
        PBT_CHECK(shorterThen(p, lim) == (vSize2(p) <= lim * lim), "shorterThen(%s,%lld)", str(p).c_str(), (long long)lim);
        PBT_CHECK(shorterThan(p, lim) == (vSize2(p) <= lim * lim), "shorterThan(%s,%lld)", str(p).c_str(), (long long)lim);
    }
    const Point2LL l = turn90CCW(p);
    PBT_CHECK(dot(l, p) == 0 && cross(p, l) >= 0 && vSize2(l) == vSize2(p), "turn90CCW(%s)=%s", str(p).c_str(), str(l).c_str());
    const coord_t want = g.range(0, r);
    if (len >= 1)
    {
        const Point2LL n = normal(p, want);
        const ld e = want * 0.51L / std::max((ld)1, len - 0.5L) + 1.5L;
        PBT_CHECK(std::fabs(std::hypot((ld)n.X, (ld)n.Y) - want) <= e, "|normal(%s,%lld)| = %s", str(p).c_str(), (long long)want, str(n).c_str());
        PBT_CHECK(std::fabs((ld)n.X * p.Y - (ld)n.Y * p.X) <= 1.5L * len && dot(n, p) >= 0, "direction of normal(%s,%lld)=%s", str(p).c_str(), (long long)want, str(n).c_str());
    }
    const double ang = g.real(-7, 7);
    const Point2LL rt = cura::rotate(p, ang);
    const ld wx = std::cos((ld)ang) * p.X - std::sin((ld)ang) * p.Y, wy = std::sin((ld)ang) * p.X + std::cos((ld)ang) * p.Y;
    PBT_CHECK(std::fabs(rt.X - wx) <= 0.51L && std::fabs(rt.Y - wy) <= 0.51L, "rotate(%s,%g)=%s", str(p).c_str(), ang, str(rt).c_str());
    PointMatrix m(AngleRadians{ ang });
    const Point2LL ma = m.apply(p), mu = m.unapply(ma);
    // the matrix turns clockwise or counter-clockwise, but in any case by the angle given, and unapply undoes apply
    PBT_CHECK(std::fabs(std::hypot((ld)ma.X, (ld)ma.Y) - len) <= 1 && std::abs(mu.X - p.X) <= 1 && std::abs(mu.Y - p.Y) <= 1, "matrix round trip %s -> %s -> %s", str(p).c_str(), str(ma).c_str(), str(mu).c_str());
    PBT_CHECK(std::fabs(ma.X - wx) <= 0.51L && std::fabs(ma.Y - wy) <= 0.51L, "matrix rotation of %s by %g = %s", str(p).c_str(), ang, str(ma).c_str());
    const Point2LL inv = m.inverse().apply(ma);
    PBT_CHECK(std::abs(inv.X - p.X) <= 1 && std::abs(inv.Y - p.Y) <= 1, "inverse matrix");
    if (len >= 1)
    {
        const PointMatrix al(p); // aligns p with the X axis
        const Point2LL x = al.apply(p);
        PBT_CHECK(std::abs(x.Y) <= 1 && std::fabs(x.X - len) <= 1, "alignment of %s gives %s", str(p).c_str(), str(x).c_str());
    }
    const Point2LL ra = LinearAlg2D::rotateAround(q, ang * 180 / M_PI).apply(p);
    const ld dx = p.X - q.X, dy = p.Y - q.Y;
    PBT_CHECK(std::fabs(ra.X - (q.X + std::cos((ld)ang) * dx - std::sin((ld)ang) * dy)) <= 1 && std::fabs(ra.Y - (q.Y + std::sin((ld)ang) * dx + std::cos((ld)ang) * dy)) <= 1,
              "rotateAround(%s,%g) of %s = %s", str(q).c_str(), ang, str(p).c_str(), str(ra).c_str());
}

static void pointLine(Case& c)
{
    Gen& g = c.g;
    const coord_t r = genRange(g);
    Point2LL a = genPt(g, r), b = genPt(g, r), p = genPt(g, r);
    if (g.chance(1, 4)) // on or next to the line
    {
        const ld t = g.real(-0.5, 1.5);
        p = Point2LL(a.X + std::llround(t * (b.X - a.X)) + g.around(1), a.Y + std::llround(t * (b.Y - a.Y)) + g.around(1));
        c.label("near-line");
    }
    c.note("a=%s b=%s p=%s", str(a).c_str(), str(b).c_str(), str(p).c_str());
    const ld len = dist(a, b);
    if (len > 0 && p != a && p != b)
    {
        c.nontrivial();
    }
    PBT_CHECK(sgn(LinearAlg2D::pointIsLeftOfLine(p, a, b)) == sgn(crossx(a, b, p)), "side of line");
    const ld ds = distSeg(p, a, b);
    int16_t beyond = 7;
    const coord_t d2 = LinearAlg2D::getDist2FromLineSegment(a, p, b, &beyond);
    PBT_CHECK(d2 >= 0 && std::fabs(std::sqrt((ld)d2) - ds) <= 4, "distance to segment: sqrt(%lld) vs %.3Lf", (long long)d2, ds);
    const ld along = len > 0 ? ((ld)(p.X - a.X) * (b.X - a.X) + (ld)(p.Y - a.Y) * (b.Y - a.Y)) / len : 0;
    if (len > 0)
    {
        if (along < -3)
        {
            PBT_CHECK(beyond == -1 && d2 == vSize2(p - a), "before a: %d", beyond);
        }
        else if (along > len + 3)
        {
            PBT_CHECK(beyond == 1 && d2 == vSize2(p - b), "after b: %d", beyond);
        }
        else if (along > 3 && along < len - 3)
        {
            PBT_CHECK(beyond == 0, "between: %d", beyond);
        }
        const i128 dp = (i128)(p.X - a.X) * (b.X - a.X) + (i128)(p.Y - a.Y) * (b.Y - a.Y);
        const i128 l2 = (i128)(b.X - a.X) * (b.X - a.X) + (i128)(b.Y - a.Y) * (b.Y - a.Y);
        PBT_CHECK(LinearAlg2D::pointIsProjectedBeyondLine(p, a, b) == (dp < 0 ? -1 : dp > l2 ? 1 : 0), "projection side");
    }
    const Point2LL q = LinearAlg2D::getClosestOnLineSegment(p, a, b);
    PBT_CHECK(distSeg(q, a, b) <= 1.5L && dist(q, p) <= ds + 1.5L, "closest point on segment %s", str(q).c_str());
    if (len >= 1)
    {
        const ld dl = std::fabs((ld)crossx(a, b, p)) / len;
        const ld tol = 1.01L + dl * 0.55L / std::max((ld)1, len - 0.5L);
        PBT_CHECK(std::fabs(LinearAlg2D::getDistFromLine(p, a, b) - dl) <= tol, "distance to line %lld vs %.3Lf", (long long)LinearAlg2D::getDistFromLine(p, a, b), dl);
        PBT_CHECK(std::fabs(std::sqrt((ld)LinearAlg2D::getDist2FromLine(p, a, b)) - dl) <= tol, "squared distance to line");
    }
    if (len >= 10)
    {
        const Point2LL q2 = LinearAlg2D::getClosestOnLine(p, a, b);
        const ld wx = a.X + along * (b.X - a.X) / len, wy = a.Y + along * (b.Y - a.Y) / len;
        PBT_CHECK(std::hypot(q2.X - wx, q2.Y - wy) <= 3 + std::fabs(along) * 1.2L / len, "closest point on line %s, want (%.2Lf,%.2Lf)", str(q2).c_str(), wx, wy);
    }
    // ray crossing classification: 0 on the segment, 1 segment strictly to the right, -1 otherwise (half-open in Y)
    const short right = LinearAlg2D::pointLiesOnTheRightOfLine(p, a, b);
    if (onSeg(p, a, b) && a != b)
    {
        // a point on the segment must not be classed as a plain crossing
        PBT_CHECK(right != 1, "point on segment classed as crossing");
        if (p.Y != std::max(a.Y, b.Y) || a.Y == b.Y)
        {
            PBT_CHECK(right == 0, "point on segment classed %d", right);
        }
    }
    else
    {
        const bool spans = (a.Y <= p.Y) != (b.Y <= p.Y);
        const int want = spans && sgn(crossx(a, b, p)) * (b.Y > a.Y ? 1 : -1) > 0 ? 1 : -1;
        if (a != b)
        {
            PBT_CHECK(right == want, "crossing class %d want %d", right, want);
        }
    }
    const coord_t y = g.chance(1, 3) ? (g.flip() ? a.Y : b.Y) : p.Y;
    const auto hx = LinearAlg2D::lineHorizontalLineIntersection(a, b, y);
    const auto sx = LinearAlg2D::segmentHorizontalLineIntersection(a, b, y);
    PBT_CHECK(hx.has_value() == (a.Y != b.Y), "horizontal intersection exists: %d", hx.has_value());
    if (hx)
    {
        const ld wx = a.X + (ld)(b.X - a.X) * (y - a.Y) / (b.Y - a.Y);
        const ld tol = 1 + 1e-9L * (std::fabs(wx) + r) * (1 + std::fabs((ld)(b.X - a.X) / (b.Y - a.Y)));
        PBT_CHECK(std::fabs(*hx - wx) <= tol, "horizontal intersection %lld, want %.3Lf", (long long)*hx, wx);
        const bool in = std::min(a.Y, b.Y) <= y && y <= std::max(a.Y, b.Y);
        PBT_CHECK(sx.has_value() == in, "segment/horizontal intersection exists %d want %d", sx.has_value(), in);
        if (sx)
        {
            PBT_CHECK(*sx == *hx && *sx >= std::min(a.X, b.X) - 1 && *sx <= std::max(a.X, b.X) + 1, "on the segment");
        }
    }
}

static void segmentPairs(Case& c)
{
    Gen& g = c.g;
    const coord_t r = genRange(g);
    Point2LL a1 = genPt(g, r), a2 = genPt(g, r), b1 = genPt(g, r), b2 = genPt(g, r);
    if (g.chance(1, 4))
    {
        const ld t = g.real(0, 1);
        b1 = Point2LL(a1.X + std::llround(t * (a2.X - a1.X)) + g.around(2), a1.Y + std::llround(t * (a2.Y - a1.Y)) + g.around(2));
    }
    c.note("a=%s-%s b=%s-%s", str(a1).c_str(), str(a2).c_str(), str(b1).c_str(), str(b2).c_str());
    const ld la = dist(a1, a2), lb = dist(b1, b2);
    const bool touch = segsTouch(a1, a2, b1, b2);
    if (la > 0 && lb > 0)
    {
        c.nontrivial();
    }
    c.label(touch ? "touching" : "apart");
    if (! touch)
    {
        const ld d = distSegSeg(a1, a2, b1, b2);
        const ld got = std::sqrt((ld)LinearAlg2D::getDist2BetweenLineSegments(a1, a2, b1, b2));
        PBT_CHECK(std::fabs(got - d) <= 4, "distance between segments %.2Lf want %.2Lf", got, d);
        const auto [pa, pb] = LinearAlg2D::getClosestConnection(a1, a2, b1, b2);
        PBT_CHECK(distSeg(pa, a1, a2) <= 1.5L, "first point %s is not on the first segment", str(pa).c_str());
        PBT_CHECK(distSeg(pb, b1, b2) <= 1.5L, "second point %s is not on the second segment", str(pb).c_str());
        PBT_CHECK(dist(pa, pb) <= d + 3, "connection %s-%s has length %.2Lf, the closest is %.2Lf", str(pa).c_str(), str(pb).c_str(), dist(pa, pb), d);
        const coord_t lim = std::llround(d) + g.around(20);
        if (lim >= 0 && std::fabs(lim - d) > 4.5L)
        {
            PBT_CHECK(LinearAlg2D::lineSegmentsAreCloserThan(a1, a2, b1, b2, lim) == (d <= lim), "closer than %lld, distance %.2Lf", (long long)lim, d);
        }
    }
    // intersection parameters in single precision
    float t = -9, u = -9;
    const bool seg = LinearAlg2D::segmentSegmentIntersection(a1, a2, b1, b2, t, u);
    const ld cr = (ld)(a2.X - a1.X) * (b2.Y - b1.Y) - (ld)(a2.Y - a1.Y) * (b2.X - b1.X);
    if (la > 0 && lb > 0 && std::fabs(cr) > 0.02L * la * lb)
    {
        const ld wt = ((ld)(b1.X - a1.X) * (b2.Y - b1.Y) - (ld)(b1.Y - a1.Y) * (b2.X - b1.X)) / cr;
        const ld wu = ((ld)(b1.X - a1.X) * (a2.Y - a1.Y) - (ld)(b1.Y - a1.Y) * (a2.X - a1.X)) / cr;
        const ld e = 1e-4L * (1 + std::fabs(wt)) * (1 + lb / la * 0.1L + dist(a1, b1) / la), f = 1e-4L * (1 + std::fabs(wu)) * (1 + dist(a1, b1) / lb);
        const auto clearIn = [](ld v, ld m) { return v > m && v < 1 - m; };
        const auto clearOut = [](ld v, ld m) { return v < -m || v > 1 + m; };
        if (clearIn(wt, e) && clearIn(wu, f))
        {
            c.label("crossing");
            PBT_CHECK(seg, "crossing not found (t=%.4Lf u=%.4Lf)", wt, wu);
            PBT_CHECK(std::fabs(t - wt) <= e && std::fabs(u - wu) <= f, "parameters %g %g, want %.5Lf %.5Lf", t, u, wt, wu);
        }
        if (clearOut(wt, e) || clearOut(wu, f))
        {
            PBT_CHECK(! seg, "no crossing, but one was reported (t=%.4Lf u=%.4Lf)", wt, wu);
        }
        Point2LL x;
        const ld wx = a1.X + wt * (a2.X - a1.X), wy = a1.Y + wt * (a2.Y - a1.Y);
        if (std::fabs(wx) < 1e9L && std::fabs(wy) < 1e9L)
        {
            const ld tol = 2 + e * la * 1.5L;
            PBT_CHECK(LinearAlg2D::lineLineIntersection(a1, a2, b1, b2, x), "lines are not parallel");
            PBT_CHECK(std::hypot(x.X - wx, x.Y - wy) <= tol, "line intersection %s, want (%.1Lf,%.1Lf)", str(x).c_str(), wx, wy);
        }
    }
    // collision with an axis-aligned segment
    const coord_t y = a1.Y;
    const Point2LL h1(std::min(a1.X, a2.X), y), h2(std::max(a1.X, a2.X), y);
    const bool col = LinearAlg2D::lineSegmentsCollide(h1, h2, b1, b2);
    if (b1.Y == b2.Y)
    {
        PBT_CHECK(col == segsTouch(h1, h2, b1, b2), "horizontal segments collide: %d", col);
    }
    else if ((b1.Y <= y) == (b2.Y <= y) && b1.Y != y && b2.Y != y)
    {
        PBT_CHECK(! col, "segment that stays on one side reported as colliding");
    }
    else
    {
        const ld wx = b1.X + (ld)(b2.X - b1.X) * (y - b1.Y) / (b2.Y - b1.Y);
        if (std::fabs(wx - h1.X) > 1 && std::fabs(wx - h2.X) > 1)
        {
            PBT_CHECK(col == (wx > h1.X && wx < h2.X), "collision %d, crossing at x=%.2Lf", col, wx);
        }
    }
}

static void corners(Case& c)
{
    Gen& g = c.g;
    const coord_t r = g.oneof<coord_t>({ 300, 5000, 100000, 400000 });
    const Point2LL b = genPt(g, r), a = genPt(g, r), d = genPt(g, r), q = genPt(g, r);
    const ld la = dist(a, b), ld_ = dist(d, b), lq = dist(q, b);
    if (la < 20 || ld_ < 20 || lq < 20)
    {
        c.discard();
    }
    c.nontrivial();
    c.note("a=%s b=%s c=%s q=%s", str(a).c_str(), str(b).c_str(), str(d).c_str(), str(q).c_str());
    const auto ang = [&](const Point2LL& p) { return std::atan2((ld)(p.Y - b.Y), (ld)(p.X - b.X)); };
    const auto norm = [](ld x) { const ld w = std::fmod(x, 2 * M_PIl); return w < 0 ? w + 2 * M_PIl : w; };
    const ld interior = norm(ang(a) - ang(d)); // sweeping counter-clockwise from bc to ba: the left side of a->b->c
    const ld at = norm(ang(q) - ang(d));
    // angle to the left of b when coming from a
    const ld got = LinearAlg2D::getAngleLeft(a, b, d);
    const ld diff = std::fabs(got - interior);
    PBT_CHECK(std::min(diff, 2 * M_PIl - diff) <= 1e-6L, "left angle %.6Lf want %.6Lf", got, interior);
    const i128 dp = (i128)(a.X - b.X) * (d.X - b.X) + (i128)(a.Y - b.Y) * (d.Y - b.Y);
    PBT_CHECK(sgn(LinearAlg2D::isAcuteCorner(a, b, d)) == sgn(dp), "acute corner");
    const ld margin = 0.002L + 1.5L / std::min(la, ld_);
    const auto clear = [&](ld x) { return x > margin && x < 2 * M_PIl - margin; };
    // the arms are rounded to whole microns before they are compared along the query direction
    const bool comparable = std::fabs(std::cos(at) - std::cos(at - interior)) > 0.8L / la + 0.8L / ld_ + 0.001L || (std::sin(at) * std::sin(at - interior) < 0 && std::fabs(std::sin(at)) > 0.001L && std::fabs(std::sin(at - interior)) > 0.001L);
    if (clear(at) && clear(norm(at - interior)) && clear(interior) && comparable)
    {
        const bool want = at < interior;
        c.label(want ? "inside" : "outside");
        PBT_CHECK(LinearAlg2D::isInsideCorner(a, b, d, q) == want, "inside corner: interior %.4Lf, query at %.4Lf", interior, at);
    }
    const coord_t vl = g.range(1000, 20000);
    const Point2LL bi = LinearAlg2D::getBisectorVector(b, a, d, vl);
    const ld wx = ((a.X - b.X) / la + (d.X - b.X) / ld_) * vl / 2, wy = ((a.Y - b.Y) / la + (d.Y - b.Y) / ld_) * vl / 2;
    PBT_CHECK(std::hypot(bi.X - wx, bi.Y - wy) <= 3 + vl * 0.6L / std::min(la, ld_), "bisector %s want (%.1Lf,%.1Lf)", str(bi).c_str(), wx, wy);
}

static void pointAtDistance(Case& c)
{
    Gen& g = c.g;
    const coord_t r = g.oneof<coord_t>({ 500, 3000, 20000 });
    const Point2LL a = genPt(g, r), b = genPt(g, r);
    const ld len = dist(a, b);
    if (len < 2)
    {
        c.discard();
    }
    const Point2LL p = genPt(g, r);
    const coord_t want = g.range(1, 2 * r);
    c.note("p=%s a=%s b=%s dist=%lld", str(p).c_str(), str(a).c_str(), str(b).c_str(), (long long)want);
    Point2LL res(-999999999, -999999999);
    const bool ok = LinearAlg2D::getPointOnLineWithDist(p, a, b, want, res);
    const ld along = ((ld)(p.X - a.X) * (b.X - a.X) + (ld)(p.Y - a.Y) * (b.Y - a.Y)) / len;
    const ld px = std::fabs((ld)crossx(a, b, p)) / len;
    const ld delta = 2 + std::fabs(along) * 0.8L / len;
    const ld tol = 4 + delta + (std::sqrt(px * px + 2 * std::fabs(along) * delta + delta * delta) - px);
    if (len < 20 * 1 && tol > r)
    {
        c.discard();
    }
    if (ok)
    {
        c.nontrivial();
        c.label("found");
        PBT_CHECK(distSeg(res, a, b) <= 3 + std::sqrt(len) * 0 + len * 0.6L / len, "result %s is not on the segment", str(res).c_str());
        PBT_CHECK(std::fabs(dist(res, p) - want) <= tol, "result %s is at distance %.2Lf, want %lld", str(res).c_str(), dist(res, p), (long long)want);
    }
    // where a solution exists with margin it has to be found, and the one nearest to a is to be taken
    if (want > px + tol)
    {
        const ld xr = std::sqrt((ld)want * want - px * px);
        const ld m = tol + (std::sqrt(xr * xr + 2 * want * tol) - xr) + 2;
        const auto in = [&](ld s) { return s > m && s < len - m; };
        const ld s1 = along - xr, s2 = along + xr;
        if (in(s1) || (in(s2) && s1 < -m))
        {
            c.label(in(s1) && in(s2) ? "two" : "one");
            PBT_CHECK(ok, "a point exists at %.1Lf along ab (length %.1Lf) but none was found", in(s1) ? s1 : s2, len);
            const ld s = in(s1) ? s1 : s2;
            const ld at = dist(res, a);
            PBT_CHECK(std::fabs(at - s) <= m, "result at %.1Lf along ab, want %.1Lf", at, s);
        }
        if ((s1 < -m || s1 > len + m) && (s2 < -m || s2 > len + m))
        {
            PBT_CHECK(! ok, "no point at that distance, but %s was returned", str(res).c_str());
        }
    }
    if (want < px - tol)
    {
        PBT_CHECK(! ok, "line is farther away than the distance");
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r(
        "G01",
        {
            { "division", 9000000, 60000000, "integer pairs of log-uniform magnitude, with exact multiples and ties; non-trivial: inexact quotient", division },
            { "conversions", 2400000, 20000000, "micron values, interpolation parameters and near-equal pairs; non-trivial: non-zero", conversions },
            { "vectors", 2400000, 20000000, "vectors up to 0.4 m, arbitrary rotation; non-trivial: general position", vectors },
            { "pointLine", 4800000, 40000000, "point and segment, a quarter within 1 micron of the line; non-trivial: proper segment, point not an end", pointLine },
            { "segmentPairs", 4800000, 40000000, "two segments, a quarter nearly touching; non-trivial: both proper", segmentPairs },
            { "corners", 2400000, 20000000, "corner and query point; non-trivial: all arms at least 20 micron", corners },
            { "pointAtDistance", 2400000, 20000000, "segment, point and distance; non-trivial: a point was found", pointAtDistance },
        });
    return r.main(argc, argv);
}
