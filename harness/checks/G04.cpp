// G04 simplification and smoothing stay within their limits
// SOURCES: utils/linearAlg2D.cpp geometry/*.cpp utils/ListPolyIt.cpp utils/PolylineStitcher.cpp utils/Simplify.cpp utils/ExtrusionLine.cpp utils/ExtrusionJunction.cpp settings/Settings.cpp
#include "geo.h"
#include "geometry/ClosedLinesSet.h"
#include "geometry/MixedLinesSet.h"
#include "utils/ExtrusionLine.h"
#include "utils/Simplify.h"
#include "utils/actions/smooth.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
using Pts = std::vector<Point2LL>;

// ---- path shapes that simplification meets: fine arcs, noise on straight lines, staircases, mixtures of long and short edges
static Pts genFinePath(Gen& g, coord_t res, bool& stairs)
{
    Pts p;
    Point2LL at = genPoint(g, 20000);
    ld dir = g.real(0, 6.283);
    p.push_back(at);
    const int sections = g.range(1, 4);
    for (int s = 0; s < sections; s++)
    {
        const int n = g.range(1, 12);
        const int kind = g.draw(4);
        const ld step = res * g.oneof<ld>({ 0.1L, 0.5L, 0.9L, 1.1L, 2.5L, 8 });
        const ld turn = g.oneof<ld>({ 0, 0.02L, 0.15L, -0.15L, 0.6L });
        for (int i = 0; i < n; i++)
        {
            ld x = at.X, y = at.Y;
            ld len = step;
            switch (kind)
            {
            case 0:
                dir += turn;
                break;
            case 1: // noise
                dir += (g.real(0, 2) - 1) * 0.05L;
                len = step * g.real(0.2, 2);
                break;
            case 2: // staircase
                stairs = true;
                dir += (i & 1) ? M_PIl / 2 : -M_PIl / 2;
                len = (i & 1) ? step : res * 0.05L;
                break;
            case 3: // long and short
                len = (i & 1) ? res * g.real(0.02, 0.6) : res * g.real(2, 12);
                dir += turn + (g.real(0, 2) - 1) * 0.2L;
                break;
            default:
                dir += g.real(0, 2) - 1;
            }
            at = Point2LL(std::llround(x + len * std::cos(dir)), std::llround(y + len * std::sin(dir)));
            p.push_back(at);
        }
        dir += g.real(0, 2) - 1;
    }
    return p;
}
static Pts genFineRing(Gen& g, coord_t res)
{
    // subdivided simple ring with noise below or above the deviation
    const Pts base = genSimpleRing(g, genPoint(g, 10000), res * g.oneof<coord_t>({ 1, 3, 10, 40 }));
    Pts p;
    const coord_t noise = g.oneof<coord_t>({ 0, 1, 4, 12, 60 });
    for (size_t i = 0; i < base.size(); i++)
    {
        const Point2LL a = base[i], b = base[(i + 1) % base.size()];
        p.push_back(a);
        const int k = g.range(0, 4);
        for (int j = 1; j <= k; j++)
        {
            p.push_back(Point2LL(a.X + (b.X - a.X) * j / (k + 1) + g.around(noise), a.Y + (b.Y - a.Y) * j / (k + 1) + g.around(noise)));
        }
    }
    return p;
}
template<class R>
static ld distToPath(const R& path, bool closed, const Point2LL& p)
{
    ld d = 1e30L;
    const size_t n = path.size();
    if (n == 1)
    {
        return dist(p, path[0]);
    }
    for (size_t i = 0; i + (closed ? 0 : 1) < n; i++)
    {
        d = std::min(d, distSeg(p, path[i], path[(i + 1) % n]));
    }
    return d;
}
// smallest width of a point set: how far it is from being a line
static ld width(const Pts& p)
{
    ld best = 1e30L;
    for (size_t i = 0; i < p.size(); i++)
    {
        for (size_t j = i + 1; j < p.size(); j++)
        {
            const ld l = dist(p[i], p[j]);
            if (l < 1)
            {
                continue;
            }
            ld lo = 0, hi = 0;
            for (const Point2LL& q : p)
            {
                const ld d = (ld)crossx(p[i], p[j], q) / l;
                lo = std::min(lo, d);
                hi = std::max(hi, d);
            }
            best = std::min(best, hi - lo);
        }
    }
    return best > 1e29L ? 0 : best;
}

// Deviation limits that hold for what is removed step by step: a removed vertex is within the deviation of the path at
// that moment, and the path may move again while further vertices go.
static ld limit(coord_t dev)
{
    return 3.0L * dev + 12;
}

// Where a path folds back on itself, the spike counts as width, not as length: its tip may go. A spike may have a blunt
// end, of a size that is removed itself.
static bool folds(const Pts& p, bool closed, coord_t dev)
{
    const size_t n = p.size();
    const ld blunt = 6 * dev + 30;
    for (size_t i = 0; i + (closed ? 0 : 1) < n; i++)
    {
        const Point2LL u = p[(i + 1) % n] - p[i];
        ld between = 0;
        for (size_t k = 1; k < n && (closed || i + k + 1 < n) && between <= blunt; k++)
        {
            const Point2LL v = p[(i + k + 1) % n] - p[(i + k) % n];
            const ld lu = std::hypot((ld)u.X, (ld)u.Y), lv = std::hypot((ld)v.X, (ld)v.Y);
            if (lu * lv == 0 || ((ld)u.X * v.X + (ld)u.Y * v.Y) / (lu * lv) < -0.3L)
            {
                return true;
            }
            between += lv;
        }
    }
    return false;
}

template<class Out>
static void checkSimplified(Case& c, const Pts& in, const Out& out, bool closed, coord_t res, coord_t dev, bool stairs)
{
    const ld lim = limit(dev) * (stairs ? 3 : 1);
    const size_t n = out.size();
    if (closed && n == 0)
    {
        PBT_CHECK(width(in) <= lim || [&] {
            Box b;
            for (const Point2LL& p : in)
            {
                b.add(p);
            }
            return b.x1 - b.x0 <= res + 2 * lim && b.y1 - b.y0 <= res + 2 * lim;
        }(), "a polygon of width %.1Lf disappears", width(in));
        return;
    }
    if (! closed)
    {
        if (n == 0)
        {
            for (const Point2LL& p : in)
            {
                PBT_CHECK(dist(p, in[0]) <= lim + 6, "a line reaching %.1Lf disappears", dist(p, in[0]));
            }
            return;
        }
        PBT_CHECK(n >= 2, "a line of one point");
        PBT_CHECK(out[0] == in.front() && out[n - 1] == in.back(), "end points %s %s become %s %s", str(in.front()).c_str(), str(in.back()).c_str(), str(out[0]).c_str(), str(out[n - 1]).c_str());
    }
    else
    {
        PBT_CHECK(n >= 3, "a polygon of %zu points", n);
    }
    PBT_CHECK(n <= in.size(), "more points than before");
    const bool fold = folds(in, closed, dev);
    c.label(fold ? "folds back" : "no fold");
    for (const Point2LL& p : in)
    {
        if (fold)
        {
            break;
        }
        const ld d = distToPath(out, closed, p);
        PBT_CHECK(d <= lim, "original vertex %s is %.1Lf from the result %s (deviation limit %lld)", str(p).c_str(), d, strPts(out).c_str(), (long long)dev);
    }
    for (size_t i = 0; i < n; i++)
    {
        const ld d = distToPath(in, closed, out[i]);
        PBT_CHECK(d <= lim, "result vertex %s is %.1Lf from the original path", str(out[i]).c_str(), d);
        // nothing left that must go: a vertex within 5 micron of the line through its neighbours
        if (n > (closed ? 3u : 2u) && (closed || (i > 0 && i + 1 < n)))
        {
            const Point2LL a = out[(i + n - 1) % n], b = out[(i + 1) % n];
            const ld l = dist(a, b);
            const ld h = l < 1 ? dist(a, out[i]) : std::fabs((ld)crossx(a, b, out[i])) / l;
            PBT_CHECK(h > 3.9L, "vertex %s is %.2Lf from the line through its neighbours but was kept in %s", str(out[i]).c_str(), h, strPts(out).c_str());
        }
    }
    // long segments stay where they are for most of their length
    for (size_t i = 0; i + (closed ? 0 : 1) < in.size(); i++)
    {
        const Point2LL a = in[i], b = in[(i + 1) % in.size()];
        if (! fold && dist(a, b) > 6 * res + 20 * dev)
        {
            for (ld t : { 0.3L, 0.5L, 0.7L })
            {
                const Point2LL m(a.X + std::llround(t * (b.X - a.X)), a.Y + std::llround(t * (b.Y - a.Y)));
                const ld d = distToPath(out, closed, m);
                PBT_CHECK(d <= (stairs ? lim : std::max<ld>(20, dev + 10)), "the middle of long segment %s-%s moves by %.1Lf", str(a).c_str(), str(b).c_str(), d);
            }
        }
    }
    if (n < in.size())
    {
        c.nontrivial();
    }
}

static void simplify(Case& c)
{
    Gen& g = c.g;
    const coord_t res = g.oneof<coord_t>({ 500, 100, 2000, 40 });
    const coord_t dev = g.oneof<coord_t>({ 25, 10, 50, 5, 100 });
    if (dev * 4 > res)
    {
        c.discard();
    }
    const Simplify s(res, dev, 0);
    if (g.flip())
    {
        const Pts in = genFineRing(g, res);
        c.note("closed res=%lld dev=%lld %s", (long long)res, (long long)dev, strPts(in).c_str());
        const Polygon P = toPolygon(in);
        const Polygon out = s.polygon(P);
        c.label("closed");
        checkSimplified(c, in, out, true, res, dev, false);
        Shape set;
        set.push_back(P);
        set.push_back(P);
        const Shape outs = s.polygon(set);
        PBT_CHECK(outs.size() == (out.empty() ? 0u : 2u) && (out.empty() || strPts(outs[1]) == strPts(out)), "the set gives something else than its polygons");
        // the same for a line with widths (all equal)
        ExtrusionLine el(0, false, true);
        for (const Point2LL& p : in)
        {
            el.junctions_.emplace_back(p, 400, 0);
        }
        const ExtrusionLine eo = s.polygon(el);
        PBT_CHECK(eo.size() == out.size() && eo.is_closed_ && eo.inset_idx_ == 0, "constant-width line is simplified differently");
        for (size_t i = 0; i < eo.size(); i++)
        {
            PBT_CHECK(eo[i].p_ == out[i] && eo[i].w_ == 400, "constant-width line is simplified differently at %zu", i);
        }
        // where it lies does not matter
        Polygon moved = P;
        const Point2LL t = genPoint(g, 50000);
        moved.translate(t);
        Polygon out2 = s.polygon(moved);
        out2.translate(Point2LL(-t.X, -t.Y));
        PBT_CHECK(strPts(out) == strPts(out2), "moved polygon is simplified differently");
    }
    else
    {
        bool stairs = false;
        const Pts in = genFinePath(g, res, stairs);
        c.note("open res=%lld dev=%lld %s", (long long)res, (long long)dev, strPts(in).c_str());
        const OpenPolyline L{ ClipperLib::Path(in.begin(), in.end()) };
        const OpenPolyline out = s.polyline(L);
        c.label("open");
        checkSimplified(c, in, out, false, res, dev, stairs);
        OpenLinesSet set;
        set.push_back(L);
        const auto outs = s.polyline(set);
        PBT_CHECK(outs.size() == (out.empty() ? 0u : 1u) && (out.empty() || strPts(outs[0]) == strPts(out)), "the set gives something else than its lines");
        MixedLinesSet mixed;
        mixed.push_back(L);
        const MixedLinesSet mo = s.polyline(mixed);
        PBT_CHECK(mo.size() == 1 && strPts(*mo[0]) == strPts(out), "the mixed set gives something else than its lines");
    }
}

// variable width: how much material changes place
static void widths(Case& c)
{
    Gen& g = c.g;
    const coord_t res = 500, dev = g.oneof<coord_t>({ 25, 100 });
    const coord_t maxA = g.oneof<coord_t>({ 0, 50000, 5000 });
    ExtrusionLine el(1, true, false);
    const int n = g.range(3, 14);
    coord_t x = 0;
    std::vector<coord_t> ws;
    for (int i = 0; i < n; i++)
    {
        ws.push_back(g.oneof<coord_t>({ 400, 400, 401, 410, 350, 600 }));
    }
    const bool mono = g.flip();
    if (mono)
    {
        std::sort(ws.begin(), ws.end());
        if (g.flip())
        {
            std::reverse(ws.begin(), ws.end());
        }
    }
    for (int i = 0; i < n; i++)
    {
        el.junctions_.emplace_back(Point2LL(x, 0), ws[i], 1);
        x += g.range(1, 700);
    }
    std::string desc;
    for (const auto& j : el.junctions_)
    {
        desc += pbt::strf("(%lld w%lld)", (long long)j.p_.X, (long long)j.w_);
    }
    c.note("dev=%lld area=%lld %s", (long long)dev, (long long)maxA, desc.c_str());
    const ExtrusionLine out = Simplify(res, dev, maxA).polyline(el);
    if (el.length() >= 6)
    {
        PBT_CHECK(out.size() >= 2 && out.front().p_ == el.front().p_ && out.back().p_ == el.back().p_, "the ends move");
        PBT_CHECK(out.front().w_ == el.front().w_ && out.back().w_ == el.back().w_, "the widths at the ends change");
    }
    PBT_CHECK(out.inset_idx_ == 1 && out.is_odd_ && ! out.is_closed_, "the kind of line changes");
    ld vin = 0, vout = 0;
    for (size_t i = 1; i < el.size(); i++)
    {
        vin += (ld)(el[i].p_.X - el[i - 1].p_.X) * (el[i].w_ + el[i - 1].w_) / 2;
    }
    for (size_t i = 1; i < out.size(); i++)
    {
        PBT_CHECK(out[i].p_.X >= out[i - 1].p_.X && out[i].p_.Y == 0, "the line turns");
        vout += (ld)(out[i].p_.X - out[i - 1].p_.X) * (out[i].w_ + out[i - 1].w_) / 2;
    }
    const size_t removed = el.size() - out.size();
    if (removed && out.size() > 2)
    {
        c.nontrivial();
    }
    if (el.length() >= 6 && maxA == 0 && mono)
    {
        // nothing may change: every junction with another width than its neighbour stays
        for (size_t i = 1; i + 1 < el.size(); i++)
        {
            if (el[i].w_ != el[i - 1].w_ || el[i].w_ != el[i + 1].w_)
            {
                bool found = false;
                for (const auto& j : out.junctions_)
                {
                    found |= j.p_ == el[i].p_ && j.w_ == el[i].w_;
                }
                PBT_CHECK(found, "junction %zu is dropped although the width changes there and no deviation of the area is allowed", i);
            }
        }
    }
    // the widths stay in range
    for (const auto& j : out.junctions_)
    {
        PBT_CHECK(j.w_ >= 350 && j.w_ <= 600, "width %lld appears", (long long)j.w_);
    }
    if (el.length() >= 6 && maxA == 0 && mono)
    {
        PBT_CHECK(std::fabs(vin - vout) < 1, "covered area %.0Lf becomes %.0Lf after dropping %zu junctions", vin, vout, removed);
    }
}

static bool isSubsequence(const Polygon& out, const Pts& in)
{
    // up to rotation of the start
    if (out.empty())
    {
        return true;
    }
    for (size_t s = 0; s < in.size(); s++)
    {
        size_t k = 0;
        for (size_t i = 0; i < in.size() && k < out.size(); i++)
        {
            if (in[(s + i) % in.size()] == out[k])
            {
                k++;
            }
        }
        if (k == out.size())
        {
            return true;
        }
    }
    return false;
}

static void smoothing(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 3000, 20000 });
    const bool star = g.chance(2, 3);
    Pts ring = ! star ? genFineRing(g, sc / 4) : genStar(g, genPoint(g, sc), sc / g.oneof<coord_t>({ 2, 10, 30 }), sc, 4, 30);
    if (ringArea(ring) < 0)
    {
        reversed(ring);
    }
    if (! ringSimple(ring))
    {
        c.discard();
    }
    const bool hole = g.chance(1, 3);
    if (hole)
    {
        reversed(ring);
    }
    Shape S;
    S.push_back(toPolygon(ring));
    const int len = g.oneof({ (int)sc / 20, 200, (int)sc / 5 });
    const ld perim = perimeter(S);
    c.note("len=%d %s", len, strPts(ring).c_str());
    // smooth: zigzags lose the vertex that is on the inside
    {
        const Shape R = S.smooth(len);
        PBT_CHECK(R.size() <= 1, "smooth makes %zu polygons", R.size());
        if (R.size() == 1)
        {
            const Polygon& out = R[0];
            PBT_CHECK(out.size() >= 3, "smooth leaves a polygon of %zu points", out.size());
            PBT_CHECK(isSubsequence(out, ring), "smooth makes up vertices: %s", strPts(out).c_str());
            std::set<std::pair<coord_t, coord_t>> kept;
            for (const Point2LL& p : out)
            {
                kept.insert({ p.X, p.Y });
            }
            bool prev_gone = false;
            for (size_t i = 0; i < ring.size(); i++)
            {
                const bool gone = ! kept.count({ ring[i].X, ring[i].Y });
                if (gone)
                {
                    const Point2LL p0 = ring[(i + ring.size() - 1) % ring.size()], p1 = ring[i], p2 = ring[(i + 1) % ring.size()], p3 = ring[(i + 2) % ring.size()];
                    PBT_CHECK(dist(p1, p2) <= len + 1, "smooth drops %s, whose segment is %.1Lf long", str(p1).c_str(), dist(p1, p2));
                    PBT_CHECK(! prev_gone, "smooth drops two vertices in a row at %s", str(p1).c_str());
                    // the area only grows: the vertex is on the inner side
                    PBT_CHECK(crossx(p0, p1, p2) < 0, "smooth drops %s, which is not an inner corner", str(p1).c_str());
                    PBT_CHECK(crossx(p1, p2, p3) > 0, "smooth drops %s, which is not a zigzag", str(p1).c_str());
                }
                prev_gone = gone;
            }
            if (out.size() < ring.size())
            {
                c.label("smooth dropped");
            }
        }
    }
    // smooth2: vertices between two short segments
    {
        const Shape R = S.smooth2(len, 0);
        PBT_CHECK(R.size() <= 1, "smooth2 makes %zu polygons", R.size());
        if (R.size())
        {
            const Polygon& out = R[0];
            PBT_CHECK(isSubsequence(out, ring), "smooth2 makes up vertices: %s", strPts(out).c_str());
            size_t k = 0;
            for (size_t i = 0; i < ring.size(); i++)
            {
                if (k < out.size() && out[k] == ring[i])
                {
                    k++;
                    continue;
                }
                const Point2LL p0 = ring[(i + ring.size() - 1) % ring.size()], p2 = ring[(i + 1) % ring.size()];
                PBT_CHECK(dist(p0, ring[i]) <= len + 1 && dist(ring[i], p2) <= len + 1, "smooth2 drops %s, next to a long segment", str(ring[i]).c_str());
                PBT_CHECK(ring.size() > 5 && ringArea(ring) >= 0, "smooth2 touches a small polygon or a hole");
                PBT_CHECK(i == 0 || i + 1 >= ring.size() || (k > 0 && out[k - 1] == ring[i - 1]), "smooth2 drops two in a row");
            }
        }
    }
    // smoothOutward: sharp inner corners are cut off, nothing else (for shortcuts much smaller than the polygon)
    if (star && len * 8 <= sc)
    {
        const double angle = g.oneof({ 60.0, 30.0, 100.0, 150.0 });
        const Shape R = S.smoothOutward(AngleDegrees(angle), len);
        PBT_CHECK(R.size() <= 1, "smoothOutward makes %zu polygons", R.size());
        // as an area: an outline grows, a hole shrinks
        for (int k = 0; k < 16; k++)
        {
            const Point2LL p = genProbe(g, S, len);
            const ld bd = borderDist(S, p);
            if (bd < 20)
            {
                continue;
            }
            bool b = false;
            const bool before = windingSum(S, p, b) != 0, after = windingSum(R, p, b) != 0;
            if (b || (R.size() && borderDist(R, p) < 20))
            {
                continue;
            }
            if (before != after)
            {
                PBT_CHECK(after == ! hole, "smoothOutward loses %s at %.1Lf from the border: %s", str(p).c_str(), bd, strShape(R).c_str());
                PBT_CHECK(bd <= len + 30, "smoothOutward moves the border over %s, which is %.1Lf from it", str(p).c_str(), bd);
                c.nontrivial();
            }
        }
        if (R.size())
        {
            for (const Point2LL& q : R[0])
            {
                PBT_CHECK(borderDist(S, q) <= len + 12, "smoothOutward makes up vertex %s", str(q).c_str());
            }
        }
        bool inner = false;
        for (size_t i = 0; i < ring.size(); i++)
        {
            const Point2LL p0 = ring[(i + ring.size() - 1) % ring.size()], p1 = ring[i], p2 = ring[(i + 1) % ring.size()];
            inner |= crossx(p0, p1, p2) <= 0 || dist(p1, p2) < 12;
        }
        if (! inner && ring.size() > 3)
        {
            PBT_CHECK(R.size() == 1 && strPts(R[0]) == strPts(ring), "a convex polygon changes: %s", strShape(R).c_str());
            c.label("convex");
        }
        (void)perim;
    }
}

static void sharpCorner(Case& c)
{
    // one sharp inner corner in a block: it is cut off by a shortcut of the desired length, others stay
    Gen& g = c.g;
    const coord_t w = 40000, depth = g.range(8000, 30000);
    const double max_angle = g.real(20, 120);
    const int len = g.range(300, 4000);
    const double half = g.real(0.02, 0.95);
    const coord_t open = std::llround(depth * std::tan(half)); // half opening at the top
    c.note("depth=%lld opening=%lld len=%d max=%g", (long long)depth, (long long)open, len, max_angle);
    if (open > 18000 || 2 * open < len * 1.1)
    {
        c.discard();
    }
    const Pts ring{ { -w / 2, 0 }, { w / 2, 0 }, { w / 2, w }, { open, w }, { 0, w - depth }, { -open, w } , { -w / 2, w } };
    Shape S;
    S.push_back(toPolygon(ring));
    const Shape R = S.smoothOutward(AngleDegrees(max_angle), len);
    PBT_CHECK(R.size() == 1, "polygon lost");
    const double angle = 2 * std::atan2((double)open, (double)depth) * 180 / M_PI;
    if (std::fabs(angle - max_angle) < 0.5)
    {
        c.discard();
    }
    bool kept = false;
    for (const Point2LL& p : R[0])
    {
        kept |= p == ring[4];
    }
    PBT_CHECK(kept == (angle > max_angle), "corner of %.2f degrees is %s, limit %.2f", angle, kept ? "kept" : "cut", max_angle);
    c.nontrivial();
    if (! kept)
    {
        // the shortcut
        ld best = 1e30L;
        const Polygon& out = R[0];
        for (size_t i = 0; i < out.size(); i++)
        {
            const Point2LL a = out[i], b = out[(i + 1) % out.size()];
            if (distSeg(ring[4], a, b) < 1.2L * len / (2 * std::tan(angle * M_PI / 360)) + 50 && std::llabs(a.Y - b.Y) < 30)
            {
                best = std::min(best, std::fabs(dist(a, b) - len));
            }
        }
        PBT_CHECK(best <= 30, "no shortcut of length %d in %s", len, strPts(out).c_str());
    }
}

static void colinear(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 2000, 50000 });
    Pts base = genSimpleRing(g, genPoint(g, sc), sc);
    Pts ring;
    size_t extra = 0;
    for (size_t i = 0; i < base.size(); i++)
    {
        const Point2LL a = base[i], b = base[(i + 1) % base.size()];
        ring.push_back(a);
        const int k = g.range(0, 3);
        for (int j = 1; j <= k; j++)
        {
            ring.push_back(Point2LL(a.X + (b.X - a.X) * j / (k + 1), a.Y + (b.Y - a.Y) * j / (k + 1)));
            extra++;
        }
    }
    const double maxa = g.oneof({ 0.0005, 0.005, 0.02 });
    c.note("angle=%g %s", maxa, strPts(ring).c_str());
    Shape S;
    S.push_back(toPolygon(ring));
    S.removeColinearEdges(AngleRadians(maxa));
    PBT_CHECK(S.size() == 1 && S[0].size() >= 3, "polygon lost");
    const Polygon& out = S[0];
    PBT_CHECK(isSubsequence(out, ring), "new vertices in %s", strPts(out).c_str());
    if (extra)
    {
        c.nontrivial();
    }
    const auto bend = [](const Point2LL& p, const Point2LL& q, const Point2LL& r)
    {
        const ld a1 = std::atan2((ld)(q.Y - p.Y), (ld)(q.X - p.X)), a2 = std::atan2((ld)(r.Y - q.Y), (ld)(r.X - q.X));
        ld d = std::fabs(a1 - a2);
        return d > M_PIl ? 2 * M_PIl - d : d;
    };
    for (size_t i = 0; i < out.size() && out.size() > 3; i++)
    {
        const ld t = bend(out[(i + out.size() - 1) % out.size()], out[i], out[(i + 1) % out.size()]);
        PBT_CHECK(t > maxa * 0.999 && t < M_PIl - maxa * 0.999, "vertex %s bends by %.6Lf only but is kept", str(out[i]).c_str(), t);
    }
    for (size_t i = 0; i < base.size(); i++)
    {
        const Point2LL q = base[i];
        const ld t = bend(base[(i + base.size() - 1) % base.size()], q, base[(i + 1) % base.size()]);
        bool kept = false;
        for (const Point2LL& p : out)
        {
            kept |= p == q;
        }
        if (t > 0.1L && t < M_PIl - 0.1L && sc >= 50000)
        {
            PBT_CHECK(kept, "corner %s, which bends by %.4Lf, is dropped", str(q).c_str(), t);
        }
    }
}

static void degenerate(Case& c)
{
    Gen& g = c.g;
    // spikes of zero width are removed, the area stays
    const coord_t sc = 20000;
    const Pts base = genSimpleRing(g, genPoint(g, sc), sc);
    Pts ring;
    size_t spikes = 0;
    for (size_t i = 0; i < base.size(); i++)
    {
        // "opposite" is decided with rounded lengths: keep clear of almost opposite
        const Point2LL e = base[(i + 1) % base.size()] - base[i];
        const coord_t lo = std::min(std::llabs(e.X), std::llabs(e.Y)), hi = std::max(std::llabs(e.X), std::llabs(e.Y));
        if (lo != 0 && lo * 5 < hi)
        {
            c.discard();
        }
    }
    for (size_t i = 0; i < base.size(); i++)
    {
        ring.push_back(base[i]);
        if (g.chance(1, 3))
        {
            // out and back along an axis: exactly opposite
            const coord_t l = g.range(200, 3000) * (g.flip() ? 1 : -1);
            const bool vert = g.flip();
            ring.push_back(base[i] + (vert ? Point2LL(0, l) : Point2LL(l, 0)));
            if (g.flip())
            {
                ring.push_back(base[i]);
            }
            else
            {
                ring.push_back(base[i] + (vert ? Point2LL(0, l / 2) : Point2LL(l / 2, 0)));
                ring.push_back(base[i]);
            }
            spikes++;
        }
    }
    c.note("%s", strPts(ring).c_str());
    Shape S;
    S.push_back(toPolygon(ring));
    S.removeDegenerateVerts();
    if (spikes)
    {
        c.nontrivial();
    }
    PBT_CHECK(S.size() == 1, "polygon lost");
    const ld a0 = ringArea(ring), a1 = ringArea(S[0]);
    PBT_CHECK(std::fabs(a0 - a1) < 1, "area %.1Lf becomes %.1Lf", a0, a1);
    const Polygon& out = S[0];
    const size_t n = out.size();
    for (size_t i = 0; i < n; i++)
    {
        const Point2LL u = out[i] - out[(i + n - 1) % n], v = out[(i + 1) % n] - out[i];
        const bool axis = (u.X == 0 && v.X == 0) || (u.Y == 0 && v.Y == 0);
        PBT_CHECK(! axis || u.X * v.X + u.Y * v.Y >= 0 || i == 0 || i + 1 == n, "spike at %s is left: %s", str(out[i]).c_str(), strPts(out).c_str());
    }
    for (const Point2LL& p : base)
    {
        PBT_CHECK(borderDist(S, p) <= 2, "corner %s is lost", str(p).c_str());
    }
    // an open line keeps its ends
    OpenLinesSet lines;
    lines.push_back(OpenPolyline{ ClipperLib::Path(ring.begin(), ring.end()) });
    lines.removeDegenerateVerts();
    PBT_CHECK(lines.size() == 1 && lines[0].front() == ring.front() && lines[0].back() == ring.back(), "open line loses an end");
}

static void hullAndManifold(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 50, 20000 });
    Shape S = genSoup(g, sc, 3, 14);
    c.note("%s", strShape(S).c_str());
    Shape H = S;
    H.makeConvex();
    {
        Pts all;
        for (const Polygon& poly : S)
        {
            all.insert(all.end(), poly.begin(), poly.end());
        }
        Pts p = all;
        // exact hull by monotone chain
        auto lt = [](const Point2LL& a, const Point2LL& b)
        {
            return a.X < b.X || (a.X == b.X && a.Y < b.Y);
        };
        std::sort(p.begin(), p.end(), lt);
        p.erase(std::unique(p.begin(), p.end()), p.end());
        if (p.size() < 3)
        {
            return;
        }
        Pts hull(2 * p.size());
        size_t m = 0;
        for (size_t i = 0; i < p.size(); i++)
        {
            while (m >= 2 && crossx(hull[m - 2], hull[m - 1], p[i]) <= 0)
            {
                m--;
            }
            hull[m++] = p[i];
        }
        for (size_t i = p.size() - 1, t = m + 1; i-- > 0;)
        {
            while (m >= t && crossx(hull[m - 2], hull[m - 1], p[i]) <= 0)
            {
                m--;
            }
            hull[m++] = p[i];
        }
        hull.resize(m - 1);
        if (hull.size() < 3)
        {
            return;
        }
        c.nontrivial();
        PBT_CHECK(H.size() == 1, "%zu hulls", H.size());
        const Polygon& out = H[0];
        PBT_CHECK(std::fabs(ringArea(out) - ringArea(hull)) < 0.5L, "hull of %s is %s, want %s", strPts(all).c_str(), strPts(out).c_str(), strPts(hull).c_str());
        for (const Point2LL& q : hull)
        {
            bool found = false;
            for (const Point2LL& o : out)
            {
                found |= o == q;
            }
            PBT_CHECK(found, "hull misses corner %s", str(q).c_str());
        }
        for (const Point2LL& o : out)
        {
            bool found = false;
            for (const Point2LL& q : all)
            {
                found |= o == q;
            }
            PBT_CHECK(found, "hull makes up %s", str(o).c_str());
        }
    }
    if (sc < 1000)
    {
        return;
    }
    // touching corners are separated
    Shape A = genArea(g, sc);
    std::vector<Point2LL> dups;
    if (! A.empty() && g.flip())
    {
        // a square that touches a corner from outside
        const Point2LL v = A[0][g.draw(A[0].size() - 1)];
        const coord_t r = g.range(200, 3000);
        const Pts sq{ v, v + Point2LL(r, r / 3), v + Point2LL(r, r), v + Point2LL(r / 3, r) };
        A.push_back(toPolygon(sq));
        A = A.unionPolygons();
    }
    std::set<std::pair<coord_t, coord_t>> seen;
    for (const Polygon& p : A)
    {
        for (const Point2LL& v : p)
        {
            if (! seen.insert({ v.X, v.Y }).second)
            {
                dups.push_back(v);
            }
        }
    }
    Shape M = A;
    M.ensureManifold();
    for (const Point2LL& v : dups)
    {
        c.label("touching");
        PBT_CHECK(! M.inside(v, true), "after ensureManifold, touching point %s is still part of the area", str(v).c_str());
    }
    for (int k = 0; k < 10 && ! A.empty(); k++)
    {
        const Point2LL p = genProbe(g, A, 60);
        ld d = borderDist(A, p);
        for (const Point2LL& v : dups)
        {
            d = std::min(d, dist(v, p) - 5);
        }
        if (d > 6)
        {
            PBT_CHECK(M.inside(p) == A.inside(p), "ensureManifold changes the area at %s, far from touching points", str(p).c_str());
        }
    }
}

// Fluid motion: reference model of one sweep of three-segment windows.
static void fluid(Case& c)
{
    Gen& g = c.g;
    const coord_t shift = g.oneof<coord_t>({ 50, 100, 20 }), small = g.oneof<coord_t>({ 10, 100, 400 });
    const double ang = g.oneof({ 15.0, 5.0, 40.0 }) * M_PI / 180;
    ClipperLib::Path in;
    const int n = g.range(1, 24);
    Point2LL at = genPoint(g, 10000);
    ld dir = g.real(0, 6.28);
    for (int i = 0; i < n; i++)
    {
        in.push_back(at);
        const ld len = g.flip() ? g.real(1, 1.6 * small) : shift * g.real(2, 20);
        dir += g.oneof<ld>({ 0, 0.05L, 0.5L, -0.5L, 1.5L, -1.5L, 2.8L });
        at = Point2LL(std::llround(at.X + len * std::cos(dir)), std::llround(at.Y + len * std::sin(dir)));
    }
    c.note("shift=%lld small=%lld angle=%g %s", (long long)shift, (long long)small, ang, strPts(in).c_str());
    auto smoother = actions::smooth(shift, small, ang);
    const ClipperLib::Path before = in;
    const ClipperLib::Path out = smoother(in);
    PBT_CHECK(out.size() == in.size(), "number of points changes");
    ld maxmove = 0;
    bool any_small = false;
    for (size_t i = 0; i < in.size(); i++)
    {
        PBT_CHECK(in[i] == before[i], "the input is modified");
        maxmove = std::max(maxmove, dist(in[i], out[i]));
        const Point2LL a = in[(i + n - 1) % n], b = in[(i + 1) % n];
        // a point only moves if a short segment ends in it (or became short by moving its other end)
        if (dist(in[i], a) > small + 4 * shift + 8 && dist(in[i], b) > small + 4 * shift + 8)
        {
            PBT_CHECK(in[i] == out[i], "%s moves although only long segments end there", str(in[i]).c_str());
        }
        any_small |= dist(in[i], b) <= small;
    }
    PBT_CHECK(maxmove <= 4 * (shift + 2), "a point moves by %.1Lf", maxmove);
    if (! any_small || n <= 4)
    {
        PBT_CHECK(maxmove == 0, "points move without any short segment");
    }
    // reference
    std::vector<std::pair<ld, ld>> dummy;
    ClipperLib::Path ref = in;
    bool doubt = false;
    if (n > 4)
    {
        const auto D = [](const Point2LL& p, const Point2LL& q)
        {
            return dist(p, q);
        };
        const auto toward = [](const Point2LL& p, const Point2LL& q, ld by, ld d)
        {
            return Point2LL(p.X + (coord_t)((double)(q.X - p.X) * ((double)by / (double)d)), p.Y + (coord_t)((double)(q.Y - p.Y) * ((double)by / (double)d)));
        };
        const auto cosv = [](const Point2LL& u, const Point2LL& v)
        {
            const ld l = std::hypot((ld)u.X, (ld)u.Y) * std::hypot((ld)v.X, (ld)v.Y);
            return l == 0 ? 0 : ((ld)u.X * v.X + (ld)u.Y * v.Y) / l;
        };
        for (int k = 0; k < n + 3; k++)
        {
            Point2LL &a = ref[(k + n - 1) % n], &b = ref[k % n], &cc = ref[(k + 1) % n], &d = ref[(k + 2) % n];
            const ld ab = D(a, b), bc = D(b, cc), cd = D(cc, d);
            for (const auto& [x, y] : { std::pair<ld, ld>(bc, small), { ab, 3 * shift }, { cd, 3 * shift } })
            {
                doubt |= std::fabs(x - y) < 1e-6L && x != y;
            }
            if (bc > small || ab < 3 * shift || cd < 3 * shift)
            {
                continue;
            }
            const Point2LL a_ = toward(b, a, 300, ab), d_ = toward(cc, d, 300, cd);
            const ld lim = std::cos(ang);
            // the angle at a corner is measured with the marker at its nominal distance of 300
            const Point2LL v1 = b - a_, v2 = cc - b, v3 = d_ - cc;
            const ld c1 = cosv(d_ - a_, v2), c2 = bc == 0 ? 0 : ((ld)v1.X * v2.X + (ld)v1.Y * v2.Y) / (300 * bc), c3 = bc == 0 ? 0 : ((ld)v2.X * v3.X + (ld)v2.Y * v3.Y) / (300 * bc);
            doubt |= std::fabs(c1 - lim) < 1e-3L || std::fabs(c2 - lim) < 1e-3L || std::fabs(c3 - lim) < 1e-3L;
            if (! (c1 >= lim || c2 >= lim || c3 >= lim))
            {
                const Point2LL nb = toward(b, a, shift, ab), nc = toward(cc, d, shift, cd);
                b = nb;
                cc = nc;
            }
        }
    }
    if (maxmove > 0)
    {
        c.nontrivial();
    }
    if (! doubt)
    {
        for (int i = 0; i < n; i++)
        {
            PBT_CHECK(dist(ref[i], out[i]) <= 2.9L, "point %d becomes %s, want %s", i, str(out[i]).c_str(), str(ref[i]).c_str());
        }
    }
    else
    {
        c.label("near a threshold");
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r(
        "G04",
        {
            { "simplify", 480000, 5000000, "fine arcs, noisy lines, staircases and mixtures of long and short edges, open and closed; non-trivial: something was removed", simplify },
            { "widths", 400000, 4000000, "straight lines of varying width; non-trivial: some junctions dropped, some inner ones kept", widths },
            { "smoothing", 240000, 3000000, "simple rings as outlines and holes; non-trivial: the border moved over a probe", smoothing },
            { "sharpCorner", 400000, 4000000, "a block with one V-shaped notch; all count", sharpCorner },
            { "colinear", 240000, 3000000, "rings with inserted points on their edges; non-trivial: at least one inserted", colinear },
            { "degenerate", 400000, 4000000, "rings with zero-width spikes; non-trivial: at least one spike", degenerate },
            { "hullAndManifold", 240000, 3000000, "polygon soups for hulls, touching areas for manifoldness; non-trivial: a proper hull", hullAndManifold },
            { "fluid", 480000, 5000000, "paths of short and long segments and bends around the limit; non-trivial: points moved", fluid },
        });
    return r.main(argc, argv);
}
