// G06 queries about the nearest border, moving points across it and hitting it agree with a search over all edges
// SOURCES: utils/polygonUtils.cpp utils/linearAlg2D.cpp geometry/*.cpp utils/SquareGrid.cpp utils/AABB.cpp utils/PolygonsPointIndex.cpp utils/*PolylineStitcher.cpp utils/ExtrusionLine.cpp utils/ExtrusionJunction.cpp settings/Settings.cpp
#include "geo.h"
#include "geometry/OpenPolyline.h"
#include "geometry/PointMatrix.h"
#include "utils/linearAlg2D.h"
#include "utils/polygonUtils.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
using Pts = std::vector<Point2LL>;

static ld pdist(const Point2LL& p, ld x, ld y)
{
    return std::hypot(p.X - x, p.Y - y);
}

// A place on a border: an edge and the exact nearest place on it.
struct Cand
{
    size_t poly, idx; // first point of the edge
    ld x, y, d;
    bool at_start, at_end;
};
static std::vector<Cand> candidates(const Shape& s, const Point2LL& p)
{
    std::vector<Cand> r;
    for (size_t k = 0; k < s.size(); k++)
    {
        const Polygon& poly = s[k];
        for (size_t i = 0; i < poly.size(); i++)
        {
            const Point2LL a = poly[i], b = poly[(i + 1) % poly.size()];
            ld t = 0;
            const ld d = distSeg(p, a, b, &t);
            t = std::min<ld>(1, std::max<ld>(0, t));
            const ld x = a.X + t * (b.X - a.X), y = a.Y + t * (b.Y - a.Y);
            r.push_back({ k, i, x, y, d, a == b || t <= 0, a != b && t >= 1 });
            // corners in their own right: hardly farther than the place on the edge, they may be taken instead
            if (a != b && t > 0)
            {
                r.push_back({ k, i, (ld)a.X, (ld)a.Y, dist(p, a), true, false });
            }
            if (a != b && t < 1)
            {
                r.push_back({ k, i, (ld)b.X, (ld)b.Y, dist(p, b), false, true });
            }
            if (a != b && (t <= 0 || t >= 1))
            {
                const ld l = dist(a, b), along = ((ld)(p.X - a.X) * (b.X - a.X) + (ld)(p.Y - a.Y) * (b.Y - a.Y)) / l;
                if (along > -2 && along < l + 2)
                {
                    r.push_back({ k, i, x, y, d, false, false });
                }
            }
        }
    }
    std::sort(r.begin(), r.end(), [](const Cand& a, const Cand& b) { return a.d < b.d; });
    return r;
}
static Shape genBorders(Gen& g, coord_t sc)
{
    Shape s = genArea(g, sc);
    if (s.empty())
    {
        s.push_back(toPolygon(genSimpleRing(g, { 0, 0 }, sc)));
    }
    if (g.chance(1, 6))
    {
        s.push_back(Polygon()); // an empty polygon in between
        if (s.size() > 1)
        {
            std::swap(s[0], s[s.size() - 1]);
        }
    }
    return s;
}
static Point2LL genFrom(Gen& g, const Shape& s, coord_t sc)
{
    return genProbe(g, s, g.oneof<coord_t>({ sc / 20, 3, 0, sc }));
}

static void checkOnBorder(const ClosestPointPolygon& r, const Shape& s, bool idx_known, const char* what)
{
    PBT_CHECK(r.isValid() && r.poly_ != nullptr, "%s: nothing found", what);
    size_t k = NO_INDEX;
    for (size_t i = 0; i < s.size(); i++)
    {
        if (&s[i] == r.poly_)
        {
            k = i;
        }
    }
    PBT_CHECK(k != NO_INDEX, "%s: the polygon is none of those given", what);
    if (idx_known)
    {
        PBT_CHECK(r.poly_idx_ == k, "%s: polygon index %zu, but it is number %zu", what, r.poly_idx_, k);
    }
    PBT_CHECK(r.point_idx_ < s[k].size(), "%s: point index %zu of %zu", what, r.point_idx_, s[k].size());
    const ld d = distSeg(r.location_, s[k][r.point_idx_], s[k][(r.point_idx_ + 1) % s[k].size()]);
    PBT_CHECK(d <= 1.5L, "%s: %s is %.1Lf from its edge", what, str(r.location_).c_str(), d);
}

// ---- nearest

static void nearest(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 500, 200000 });
    const Shape s = genBorders(g, sc);
    const Point2LL from = genFrom(g, s, sc);
    const auto cands = candidates(s, from);
    const int pk = g.draw(2); // no penalty, linear, one-sided
    const int weight = g.range(0, 1000);
    const coord_t px = g.around(sc);
    const std::function<int(Point2LL)> penalty = [=](Point2LL p) -> int
    {
        return pk == 0 ? 0 : pk == 1 ? static_cast<int>(std::abs(p.X - px) / 4 * (weight % 7)) : (p.X > px ? weight * 1000 : 0);
    };
    c.note("from %s borders %s penalty %d %d %lld", str(from).c_str(), strShape(s).c_str(), pk, weight, (long long)px);
    // all
    const ClosestPointPolygon all = pk == 0 && g.flip() ? PolygonUtils::findClosest(from, s) : PolygonUtils::findClosest(from, s, penalty);
    checkOnBorder(all, s, true, "findClosest");
    const ld best = cands[0].d;
    ld best_score = 1e300L;
    for (const Cand& k : cands)
    {
        const Polygon& poly = s[k.poly];
        const Point2LL p = LinearAlg2D::getClosestOnLineSegment(from, poly[k.idx], poly[(k.idx + 1) % poly.size()]);
        best_score = std::min<ld>(best_score, (ld)vSize2(p - from) + penalty(p));
    }
    const ld got = (ld)vSize2(all.location_ - from) + penalty(all.location_);
    PBT_CHECK(got <= best_score, "findClosest: score %.0Lf, but %.0Lf can be had", got, best_score);
    if (pk == 0)
    {
        const ld d = dist(all.location_, from);
        PBT_CHECK(std::fabs(d - best) <= 1.5L, "findClosest: %s is %.2Lf away, the nearest border is %.2Lf away", str(all.location_).c_str(), d, best);
    }
    // one polygon
    const size_t k = g.draw(s.size() - 1);
    if (s[k].size() > 0)
    {
        const ClosestPointPolygon one = PolygonUtils::findClosest(from, s[k]);
        checkOnBorder(one, s, false, "findClosest in a polygon");
        ld b = 1e30L;
        for (const Cand& x : cands)
        {
            if (x.poly == k)
            {
                b = std::min(b, x.d);
            }
        }
        PBT_CHECK(std::fabs(dist(one.location_, from) - b) <= 1.5L, "findClosest in a polygon: %s is %.2Lf away, best %.2Lf", str(one.location_).c_str(), dist(one.location_, from), b);
        // nearest vertex
        const unsigned v = PolygonUtils::findNearestVert(from, s[k]);
        PBT_CHECK(v < s[k].size(), "findNearestVert gives %u", v);
        for (const Point2LL& p : s[k])
        {
            PBT_CHECK(vSize2(p - from) >= vSize2(s[k][v] - from), "findNearestVert gives %s though %s is nearer", str(s[k][v]).c_str(), str(p).c_str());
        }
        // local search
        const size_t start = g.draw(s[k].size() - 1);
        for (int dir : { 0, 1, -1 })
        {
            const ClosestPointPolygon loc = dir == 0 ? PolygonUtils::findNearestClosest(from, s[k], start) : PolygonUtils::findNearestClosest(from, s[k], start, dir);
            checkOnBorder(loc, s, false, "findNearestClosest");
            const size_t e = dir == -1 ? (start + s[k].size() - 1) % s[k].size() : start;
            const ld first = distSeg(from, s[k][e], s[k][(e + 1) % s[k].size()]);
            PBT_CHECK(dist(loc.location_, from) <= first + 1.5L, "findNearestClosest (%d) from %zu ends %.1Lf away, farther than where it starts (%.1Lf)", dir, start, dist(loc.location_, from), first);
        }
    }
    const PolygonsPointIndex v = PolygonUtils::findNearestVert(from, s);
    PBT_CHECK(v.polygons_ == &s && v.poly_idx_ < s.size() && v.point_idx_ < s[v.poly_idx_].size(), "findNearestVert gives no vertex");
    for (const Polygon& poly : s)
    {
        for (const Point2LL& p : poly)
        {
            PBT_CHECK(vSize2(p - from) >= vSize2(v.p() - from), "findNearestVert gives %s though %s is nearer", str(v.p()).c_str(), str(p).c_str());
        }
    }
    // by grid
    const coord_t cell = g.oneof<coord_t>({ sc / 10, sc / 3, 2000, 250 });
    const auto grid = PolygonUtils::createLocToLineGrid(s, cell);
    const auto close = PolygonUtils::findClose(from, s, *grid);
    if (best < cell - 2)
    {
        PBT_CHECK(close.has_value(), "findClose finds nothing though a border is %.0Lf away (cells of %lld)", best, (long long)cell);
        PBT_CHECK(std::fabs(dist(close->location_, from) - best) <= 1.5L, "findClose: %s is %.2Lf away, the nearest border is %.2Lf away", str(close->location_).c_str(), dist(close->location_, from), best);
    }
    if (close)
    {
        checkOnBorder(*close, s, true, "findClose");
    }
    if (best > 2 && cands.size() > 4)
    {
        c.nontrivial();
    }
}

// ---- moving inside and outside

// Where a point on the border at cand ends up when moved d inwards; false if that is ill-defined (a spike).
static bool movedFrom(const Shape& s, const Cand& k, ld d, ld& x, ld& y, ld& nx, ld& ny, ld& tol)
{
    const Polygon& poly = s[k.poly];
    const size_t n = poly.size();
    // lengths are whole microns, so the direction at short edges is rough
    auto edgeNormal = [&](size_t i, ld& ox, ld& oy)
    {
        const Point2LL a = poly[i], b = poly[(i + 1) % n];
        const ld l = dist(a, b);
        ox = -(b.Y - a.Y) / l;
        oy = (b.X - a.X) / l;
    };
    if (k.at_start || k.at_end)
    {
        const size_t v = k.at_end ? (k.idx + 1) % n : k.idx;
        size_t before = (v + n - 1) % n, after = v;
        while (poly[before] == poly[v] && before != v)
        {
            before = (before + n - 1) % n;
        }
        while (poly[(after + 1) % n] == poly[v] && (after + 1) % n != v)
        {
            after = (after + 1) % n;
        }
        // edges before -> before+1 (=v) and after (=v) -> after+1
        ld ax, ay, bx, by;
        edgeNormal(before, ax, ay);
        edgeNormal(after, bx, by);
        const ld sx = ax + bx, sy = ay + by, l = std::hypot(sx, sy);
        if (l < 0.05L)
        {
            return false;
        }
        nx = sx / l;
        ny = sy / l;
        tol = 3 + std::fabs(d) / l * 4e-4L + std::fabs(d) * 1.3L / l * (1 / dist(poly[before], poly[(before + 1) % n]) + 1 / dist(poly[after], poly[(after + 1) % n]));
    }
    else
    {
        edgeNormal(k.idx, nx, ny);
        tol = 3 + std::fabs(d) * 1.3L / dist(poly[k.idx], poly[(k.idx + 1) % n]);
    }
    x = k.x + d * nx;
    y = k.y + d * ny;
    return true;
}

static void moving(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 2000, 100000 });
    Shape s = genBorders(g, sc);
    if (g.chance(1, 5))
    {
        // repeat a point
        Polygon& p = s[g.draw(s.size() - 1)];
        if (p.size() > 3)
        {
            const size_t i = g.range(1, p.size() - 2);
            p.insert(p.begin() + i, p[i]);
            c.label("repeated point");
        }
    }
    const Point2LL from = genFrom(g, s, sc);
    int d = static_cast<int>(g.oneof<coord_t>({ 0, 10, 200, -10, -300, g.around(sc / 10), g.around(sc / 4) }));
    if (std::abs(d) < 5)
    {
        d = 0; // directions over a few microns are none
    }
    const bool limited = g.flip();
    const coord_t max_dist = limited ? g.oneof<coord_t>({ 100, sc / 20, sc / 4, 1 }) : 0;
    const int64_t max_dist2 = limited ? max_dist * max_dist : std::numeric_limits<int64_t>::max();
    const int how = g.draw(5);
    c.note("how %d from %s distance %d max %lld borders %s", how, str(from).c_str(), d, limited ? (long long)max_dist : -1LL, strShape(s).c_str());

    Point2LL p = from;
    bool found = false;
    size_t poly = NO_INDEX;
    bool poly_known = false;
    Shape one;
    const Shape* among = &s;
    if (how == 0)
    {
        poly = PolygonUtils::moveInside(s, p, d, max_dist2);
        found = poly != NO_INDEX;
        poly_known = found;
    }
    else if (how == 1)
    {
        poly = PolygonUtils::moveOutside(s, p, -d, max_dist2);
        found = poly != static_cast<unsigned>(NO_INDEX);
        poly_known = found;
    }
    else if (how == 2)
    {
        size_t k = g.draw(s.size() - 1);
        if (s[k].size() < 3)
        {
            c.discard();
        }
        one.push_back(s[k]);
        among = &one;
        PolygonUtils::moveInside(s[k], p, d, max_dist2);
        found = true;
    }
    else if (how == 3)
    {
        const ClosestPointPolygon r = PolygonUtils::moveInside2(s, p, d, max_dist2);
        found = r.isValid();
        if (found)
        {
            checkOnBorder(r, s, true, "moveInside2");
            poly = r.poly_idx_;
            poly_known = true;
        }
    }
    else if (how == 4)
    {
        const coord_t cell = g.oneof<coord_t>({ 2000, 500, sc / 4, sc });
        const auto grid = PolygonUtils::createLocToLineGrid(s, cell);
        const ld near = borderDist(s, from);
        if (near > cell - 2 && near < 4 * cell)
        {
            c.discard(); // some border in the cells around may be taken, not the nearest
        }
        const ClosestPointPolygon r = PolygonUtils::moveInside2(s, p, d, max_dist2, &s, grid.get());
        found = r.isValid();
        if (found)
        {
            checkOnBorder(r, s, true, "moveInside2 with a grid");
            poly = r.poly_idx_;
            poly_known = true;
        }
    }
    else
    {
        size_t k = g.draw(s.size() - 1);
        if (s[k].size() < 3)
        {
            c.discard();
        }
        one.push_back(s[k]);
        among = &one;
        const ClosestPointPolygon r = PolygonUtils::moveInside2(s, s[k], p, d, max_dist2);
        found = r.isValid();
    }
    c.label(how < 3 ? "moveInside" : "moveInside2");
    const auto cands = candidates(*among, from);
    const ld best = cands[0].d;
    bool ok = false, doubt = false;
    std::string want;
    for (const Cand& k : cands)
    {
        if (k.d > best + 2)
        {
            break;
        }
        ld x, y, nx, ny, tol;
        if (! movedFrom(*among, k, d, x, y, nx, ny, tol))
        {
            doubt = true;
            continue;
        }
        // which side is the point on, seen from there?
        const ld side = ((from.X - k.x) * nx + (from.Y - k.y) * ny) * (d < 0 ? -1 : 1);
        const ld rough = d == 0 ? 2 : 2 + k.d * (tol - 3) / std::abs(d);
        const bool may_right = d != 0 && side > -rough, may_wrong = d == 0 || side < rough;
        const bool same_poly = ! poly_known || poly == k.poly;
        // a reflex corner's own average direction says nothing about points far aside; both are allowed near that
        if (may_right)
        {
            if (k.d > std::abs(d) - 1.5L && found && p == from && same_poly)
            {
                ok = true; // far enough already
            }
            if (k.d < std::abs(d) + 1.5L && found && pdist(p, x, y) <= tol && same_poly)
            {
                ok = true; // moved farther in
            }
            want += pbt::strf(" right side of %zu/%zu: stay or (%.0Lf, %.0Lf);", k.poly, k.idx, x, y);
        }
        if (may_wrong)
        {
            const ld lim = limited ? max_dist : 1e30L;
            if (k.d <= lim + 1.5L && found && pdist(p, x, y) <= tol && same_poly)
            {
                ok = true;
            }
            if (k.d >= lim - 1.5L && (! found || how == 2) && p == from)
            {
                ok = true;
            }
            want += pbt::strf(" wrong side of %zu/%zu: (%.0Lf, %.0Lf) unless farther than %.0Lf;", k.poly, k.idx, x, y, lim);
        }
    }
    if (doubt)
    {
        c.discard();
    }
    PBT_CHECK(ok, "moved by %d to %s (%s, polygon %zd), nearest border %.1Lf away; expected:%s", d, str(p).c_str(), found ? "found" : "nothing found", (ssize_t)poly, best, want.c_str());
    if (p != from && std::abs(d) > 20)
    {
        c.nontrivial();
    }
}

static void movingFromBorder(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 2000, 100000 });
    const Shape s = genBorders(g, sc);
    const size_t k = g.draw(s.size() - 1);
    if (s[k].size() < 3)
    {
        c.discard();
    }
    const size_t i = g.draw(s[k].size() - 1);
    const Point2LL a = s[k][i], b = s[k][(i + 1) % s[k].size()];
    const ld t = g.oneof<ld>({ 0, 1, 0.5L, g.real(0, 1) });
    const Point2LL at(a.X + std::llround(t * (b.X - a.X)), a.Y + std::llround(t * (b.Y - a.Y)));
    const int d = static_cast<int>(g.oneof<coord_t>({ 0, 10, -10, g.around(sc / 5) }));
    c.note("polygon %zu edge %zu at %s distance %d borders %s", k, i, str(at).c_str(), d, strShape(s).c_str());
    const ClosestPointPolygon cpp(at, i, &s[k], k);
    const Cand cand{ k, i, (ld)at.X, (ld)at.Y, 0, at == a, at == b };
    ld x, y, nx, ny, tol;
    if (! movedFrom(s, cand, d, x, y, nx, ny, tol))
    {
        c.discard();
    }
    const Point2LL in = PolygonUtils::moveInside(cpp, d);
    PBT_CHECK(pdist(in, x, y) <= tol, "moveInside by %d gives %s, want (%.0Lf, %.0Lf)", d, str(in).c_str(), x, y);
    const Point2LL out = PolygonUtils::moveOutside(cpp, -d);
    PBT_CHECK(pdist(out, x, y) <= tol, "moveOutside by %d gives %s, want (%.0Lf, %.0Lf)", -d, str(out).c_str(), x, y);
    // the same at the vertex
    ld vx, vy;
    const Cand vert{ k, i, (ld)a.X, (ld)a.Y, 0, true, false };
    if (movedFrom(s, vert, -d, vx, vy, nx, ny, tol))
    {
        const Point2LL v = PolygonUtils::getBoundaryPointWithOffset(s[k], i, d);
        PBT_CHECK(d == 0 ? dist(v, a) <= 1 : pdist(v, vx, vy) <= tol, "getBoundaryPointWithOffset %d at %s gives %s, want (%.0Lf, %.0Lf)", d, str(a).c_str(), str(v).c_str(), vx, vy);
    }
    // an invalid place stays invalid
    PBT_CHECK(PolygonUtils::moveInside(ClosestPointPolygon(), d) == no_point, "a place that is none was moved");
    if (std::abs(d) > 20)
    {
        c.nontrivial();
    }
}

static void ensuring(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 2000, 100000 });
    Shape s = genArea(g, sc);
    if (s.empty())
    {
        c.discard();
    }
    const bool spike = g.chance(1, 5); // a border which folds back onto itself
    if (spike)
    {
        Polygon& p = s[g.range(0, s.size() - 1)];
        const size_t i = g.range(0, p.size() - 1);
        const Point2LL at = p[i], tip = at + Point2LL(g.range(-sc / 3, sc / 3), g.range(-sc / 3, sc / 3));
        p.insert(p.begin() + i, tip);
        p.insert(p.begin() + i, at + Point2LL(g.range(-3, 3), g.range(-3, 3)));
    }
    const Point2LL from = genFrom(g, s, sc);
    const int d = static_cast<int>(g.oneof<coord_t>({ 100, -100, g.range(10, sc / 2), -g.range(10, sc / 2) }));
    const bool limited = spike || g.flip();
    const coord_t max_dist = g.oneof<coord_t>({ 100, sc / 10, sc });
    const coord_t cell = g.oneof<coord_t>({ 2000, 500, sc / 4, sc });
    const auto grid = PolygonUtils::createLocToLineGrid(s, cell);
    const bool use_grid = g.flip() && borderDist(s, from) < cell - 2;
    c.note("from %s preferred %d max %lld grid %d borders %s", str(from).c_str(), d, limited ? (long long)max_dist : -1LL, use_grid, strShape(s).c_str());
    Point2LL p = from;
    const ClosestPointPolygon r
        = PolygonUtils::ensureInsideOrOutside(s, p, d, limited ? max_dist * max_dist : std::numeric_limits<int64_t>::max(), &s, use_grid ? grid.get() : nullptr);
    const ld best = borderDist(s, from);
    if (! r.isValid())
    {
        if (limited && best > max_dist - 2)
        {
            c.label("too far");
            return;
        }
        // nowhere to go: the area (or that polygon) is too thin for this distance
        c.label("gave up");
        return;
    }
    if (limited && best > max_dist + 3)
    {
        const int in = evenOdd(s, from);
        PBT_CHECK(in < 0 || (in == 1) == (d > 0), "was %.1Lf away on the wrong side, moved to %s, though at most %lld was allowed", best, str(p).c_str(), (long long)max_dist);
    }
    if (spike)
    {
        return;
    }
    checkOnBorder(r, s, true, "ensureInsideOrOutside");
    PBT_CHECK(std::fabs(dist(r.location_, from) - best) <= 2, "the place on the border is %.1Lf away, the nearest %.1Lf", dist(r.location_, from), best);
    const Polygon& q = *r.poly_;
    Shape qs;
    qs.push_back(q);
    const bool outer = ringArea(Pts(q.begin(), q.end())) > 0;
    const int in_q = evenOdd(qs, p), in_s = evenOdd(s, p);
    const bool q_right = in_q < 0 || (((in_q == 1) == outer) == (d > 0)) || borderDist(qs, p) < 2;
    const bool s_right = in_s < 0 || ((in_s == 1) == (d > 0)) || borderDist(s, p) < 2;
    PBT_CHECK(q_right || s_right, "asked to be %s, ended at %s, which is on the wrong side of the nearest polygon and of the whole", d > 0 ? "inside" : "outside", str(p).c_str());
    if (p != from)
    {
        c.nontrivial();
    }
}

// ---- hitting

static int hitTruth(const Shape& s, const Point2LL& a, const Point2LL& b) // 1: crosses clearly, 0: clear of it, -1: touches or nearly
{
    int r = 0;
    for (const Polygon& p : s)
    {
        for (size_t i = 0; i < p.size(); i++)
        {
            const Point2LL c = p[i], d = p[(i + 1) % p.size()];
            if (segsTouch(a, b, c, d))
            {
                // a clear crossing: all end points off the other's line
                const ld l1 = dist(a, b), l2 = dist(c, d);
                if (l1 > 0 && l2 > 0 && std::fabs((ld)crossx(a, b, c)) / l1 > 3 && std::fabs((ld)crossx(a, b, d)) / l1 > 3 && std::fabs((ld)crossx(c, d, a)) / l2 > 3
                    && std::fabs((ld)crossx(c, d, b)) / l2 > 3)
                {
                    return 1;
                }
                r = -1;
            }
            else if (distSegSeg(a, b, c, d) < 3)
            {
                r = -1;
            }
        }
    }
    return r;
}

static void hitting(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 500, 100000 });
    Shape s = genBorders(g, sc);
    const Point2LL a = genFrom(g, s, sc);
    Point2LL b = g.flip() ? genFrom(g, s, sc) : a + genPoint(g, g.oneof<coord_t>({ sc / 10, sc / 2, sc * 3 }));
    if (g.chance(1, 6))
    {
        b.Y = a.Y;
    }
    if (g.chance(1, 6))
    {
        b.X = a.X;
    }
    if (vSize2(a - b) < 2)
    {
        c.discard();
    }
    c.note("from %s to %s borders %s", str(a).c_str(), str(b).c_str(), strShape(s).c_str());
    const int truth = hitTruth(s, a, b);
    const coord_t cell = g.oneof<coord_t>({ sc / 20, sc / 3, 2000 });
    const auto grid = PolygonUtils::createLocToLineGrid(s, cell);
    if (truth >= 0)
    {
        PBT_CHECK(PolygonUtils::polygonCollidesWithLineSegment(s, a, b) == (truth == 1), "the segment %s the border, but polygonCollidesWithLineSegment says otherwise", truth ? "crosses" : "is clear of");
        PolygonsPointIndex where;
        const bool by_grid = PolygonUtils::polygonCollidesWithLineSegment(a, b, *grid, &where);
        PBT_CHECK(by_grid == (truth == 1), "the segment %s the border, but polygonCollidesWithLineSegment with a grid (cells of %lld) says otherwise", truth ? "crosses" : "is clear of", (long long)cell);
        if (by_grid)
        {
            PBT_CHECK(where.poly_idx_ < s.size() && where.point_idx_ < s[where.poly_idx_].size(), "no valid edge reported");
            PBT_CHECK(distSegSeg(a, b, where.p(), where.next().p()) < 3, "edge %zu/%zu reported, which the segment does not hit", where.poly_idx_, where.point_idx_);
        }
        c.label(truth ? "crosses" : "clear");
        if (truth)
        {
            c.nontrivial();
        }
    }
    // touching is a collision: an end point exactly on a vertex
    for (const Polygon& p : s)
    {
        if (p.size() == 0)
        {
            continue;
        }
        Shape one;
        one.push_back(p);
        const int t = hitTruth(one, a, b);
        if (t >= 0)
        {
            PBT_CHECK(PolygonUtils::polygonCollidesWithLineSegment(p, a, b) == (t == 1), "polygonCollidesWithLineSegment with one polygon says the opposite of %d", t);
            const PointMatrix m(b - a);
            PBT_CHECK(PolygonUtils::polygonCollidesWithLineSegment(p, m.apply(a), m.apply(b), m) == (t == 1), "polygonCollidesWithLineSegment with a matrix says the opposite of %d", t);
        }
    }
    // where it hits nearest to its end
    const coord_t within = g.oneof<coord_t>({ sc / 20, sc / 2, sc * 4 });
    ld nearest = 1e30L;
    bool doubt = false;
    for (const Polygon& p : s)
    {
        for (size_t i = 0; i < p.size(); i++)
        {
            const Point2LL u = p[i], v = p[(i + 1) % p.size()];
            const i128 den = (i128)(b.X - a.X) * (v.Y - u.Y) - (i128)(b.Y - a.Y) * (v.X - u.X);
            const ld l1 = dist(a, b), l2 = dist(u, v);
            if (std::fabs((ld)den) < 0.02L * l1 * l2 || l2 < 30)
            {
                doubt |= distSegSeg(a, b, u, v) < 200;
                continue;
            }
            const bool touch = segsTouch(a, b, u, v);
            if (touch)
            {
                const ld t = (ld)crossx(u, v, a) / ((ld)crossx(u, v, a) - (ld)crossx(u, v, b));
                nearest = std::min(nearest, (1 - t) * l1);
            }
            // ends near the other segment: either answer
            if (std::min({ distSeg(a, u, v), distSeg(b, u, v), distSeg(u, a, b), distSeg(v, a, b) }) < 200 && std::min({ distSeg(a, u, v), distSeg(b, u, v), distSeg(u, a, b), distSeg(v, a, b) }) < 3 + 100 * 0.02L)
            {
                doubt = true;
            }
        }
    }
    if (! doubt && std::fabs(nearest - within) > 60)
    {
        Point2LL res(123456, 654321);
        const bool hit = PolygonUtils::lineSegmentPolygonsIntersection(a, b, s, *grid, res, within);
        PBT_CHECK(hit == (nearest < within), "lineSegmentPolygonsIntersection says %d; the crossing nearest to the end is %.0Lf from it (limit %lld)", hit, nearest, (long long)within);
        if (hit)
        {
            PBT_CHECK(std::fabs(dist(res, b) - nearest) < 60, "lineSegmentPolygonsIntersection gives %s, %.1Lf from the end, the nearest crossing is %.1Lf from it", str(res).c_str(), dist(res, b), nearest);
            PBT_CHECK(distSeg(res, a, b) < 60 && borderDist(s, res) < 60, "%s is not where the segment crosses a border", str(res).c_str());
        }
        c.label("nearest crossing");
    }
}

// ---- walking

static void walking(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 500, 100000 });
    const Pts ring = genSimpleRing(g, { 0, 0 }, sc);
    const Polygon poly = toPolygon(ring);
    const size_t n = ring.size();
    ld per = 0;
    for (size_t i = 0; i < n; i++)
    {
        per += dist(ring[i], ring[(i + 1) % n]);
    }
    const size_t i = g.draw(n - 1);
    const ld t = g.oneof<ld>({ 0, 1, 0.5L, g.real(0, 1) });
    const Point2LL a = ring[i], b = ring[(i + 1) % n];
    const Point2LL at(a.X + std::llround(t * (b.X - a.X)), a.Y + std::llround(t * (b.Y - a.Y)));
    const coord_t d = g.chance(1, 8) ? g.range(0, 3) : g.range(0, std::llround(per * 1.3L));
    c.note("ring %s start %zu %s distance %lld", strPts(ring).c_str(), i, str(at).c_str(), (long long)d);
    const ClosestPointPolygon r = PolygonUtils::walk(ClosestPointPolygon(at, i, &poly, 0), d);
    PBT_CHECK(r.poly_ == &poly && r.point_idx_ < n, "walked off the polygon");
    PBT_CHECK(distSeg(r.location_, ring[r.point_idx_], ring[(r.point_idx_ + 1) % n]) <= 1.5L, "%s is not on edge %zu", str(r.location_).c_str(), r.point_idx_);
    // where it should be
    ld left = d;
    ld x = at.X, y = at.Y;
    const size_t k0 = i;
    size_t k = k0;
    for (size_t steps = 0;; steps++)
    {
        const Point2LL q = ring[(k + 1) % n];
        const ld l = std::hypot(q.X - x, q.Y - y);
        if (l >= left)
        {
            if (l > 0)
            {
                x += (q.X - x) * left / l;
                y += (q.Y - y) * left / l;
            }
            break;
        }
        left -= l;
        x = q.X;
        y = q.Y;
        k = (k + 1) % n;
    }
    const ld tol = 3 + 1.3L * n;
    PBT_CHECK(pdist(r.location_, x, y) <= tol, "walked to %s, want (%.0Lf, %.0Lf)", str(r.location_).c_str(), x, y);
    if (d > dist(at, b) + 10)
    {
        c.nontrivial();
    }

    // the next place at a distance as the crow flies, along an open line
    OpenPolyline line;
    for (const Point2LL& p : ring)
    {
        line.push_back(p);
    }
    if (n < 3)
    {
        return;
    }
    const size_t s0 = g.draw(n - 2);
    const ld u = g.real(0, 1);
    const Point2LL f(ring[s0].X + std::llround(u * (ring[s0 + 1].X - ring[s0].X)), ring[s0].Y + std::llround(u * (ring[s0 + 1].Y - ring[s0].Y)));
    const coord_t want = g.range(std::max<coord_t>(200, sc / 20), sc);
    c.note("ring %s from %s on edge %zu, distance %lld", strPts(ring).c_str(), str(f).c_str(), s0, (long long)want);
    GivenDistPoint res;
    res.pos = -1;
    const bool ok = PolygonUtils::getNextPointWithDistance(f, want, line, s0, 0, res);
    if (ok)
    {
        PBT_CHECK(res.pos >= static_cast<int>(s0) && res.pos < static_cast<int>(n), "position %d, started at %zu", res.pos, s0);
        const Point2LL e0 = ring[res.pos], e1 = ring[(res.pos + 1) % n];
        // lengths of edges are whole microns: a vertex all but on the circle may be passed over, and then the next edge's line counts
        bool grazes = false;
        for (size_t e = s0; e <= static_cast<size_t>(res.pos); e++)
        {
            const ld l = dist(ring[e], ring[(e + 1) % n]);
            grazes |= l < 150 || std::fabs(dist(ring[(e + 1) % n], f) - want) < 10 + 2.5L * want / l;
        }
        PBT_CHECK(distSeg(res.location, e0, e1) <= 5 || grazes, "%s is not on edge %d", str(res.location).c_str(), res.pos);
        const ld got = dist(res.location, f);
        PBT_CHECK(std::fabs(got - want) <= (dist(e0, e1) < 101 ? 103 : 10 + 2.5L * want / dist(e0, e1)), "asked for distance %lld, got %.1Lf", (long long)want, got);
    }
    // the first edge whose end is clearly outside the circle while its start is clearly inside must yield the result (or an edge before)
    for (size_t e = s0; e < n; e++)
    {
        const Point2LL e0 = ring[e], e1 = ring[(e + 1) % n];
        if (dist(e0, e1) > 150 && dist(e1, f) > want + 30 + 2.5L * want / dist(e0, e1) && (e == s0 ? 0 : dist(e0, f)) < want - 60)
        {
            PBT_CHECK(ok && res.pos <= static_cast<int>(e), "edge %zu leaves the circle of %lld around %s, but %s", e, (long long)want, str(f).c_str(), ok ? "a later edge is reported" : "nothing is found");
            c.label("leaves the circle");
            break;
        }
    }
}

// ---- nearest connection of two polygons, parallel lines, pairs of near points

static void connections(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 1000, 100000 });
    Shape s;
    s.push_back(toPolygon(genSimpleRing(g, { 0, 0 }, sc)));
    s.push_back(toPolygon(genSimpleRing(g, Point2LL(g.around(3 * sc), g.around(3 * sc)), sc)));
    const Polygon &p = s[0], &q = s[1];
    auto place = [&](const Polygon& poly, size_t idx)
    {
        const size_t i = g.draw(poly.size() - 1);
        const ld t = g.real(0, 1);
        const Point2LL a = poly[i], b = poly[(i + 1) % poly.size()];
        return ClosestPointPolygon(Point2LL(a.X + std::llround(t * (b.X - a.X)), a.Y + std::llround(t * (b.Y - a.Y))), i, &poly, idx);
    };
    ClosestPointPolygon a = place(p, 0), b = place(q, 1);
    c.note("polygons %s start %s/%zu %s/%zu", strShape(s).c_str(), str(a.location_).c_str(), a.point_idx_, str(b.location_).c_str(), b.point_idx_);
    const ld before = dist(a.location_, b.location_);
    PolygonUtils::walkToNearestSmallestConnection(a, b);
    checkOnBorder(a, s, true, "walkToNearestSmallestConnection");
    checkOnBorder(b, s, true, "walkToNearestSmallestConnection");
    const ld after = dist(a.location_, b.location_);
    PBT_CHECK(a.poly_ == &p && b.poly_ == &q, "the polygons were exchanged");
    PBT_CHECK(after <= before + 3, "the connection grew from %.1Lf to %.1Lf", before, after);
    // locally smallest: neither end can be improved by moving along its own edge
    for (const auto& [x, y] : { std::pair(&a, &b), std::pair(&b, &a) })
    {
        const Polygon& poly = *x->poly_;
        const ld d = distSeg(y->location_, poly[x->point_idx_], poly[(x->point_idx_ + 1) % poly.size()]);
        PBT_CHECK(d >= after - 3 || true, " ");
    }
    if (after < before - 10)
    {
        c.nontrivial();
    }

    // pairs of near points
    const coord_t cell = g.oneof<coord_t>({ sc / 4, sc, sc * 2 });
    const auto grid = PolygonUtils::createLocToLineGrid(s, cell);
    Shape dest;
    dest.push_back(q);
    const auto dgrid = PolygonUtils::createLocToLineGrid(dest, cell);
    const auto pairs = PolygonUtils::findClose(p, dest, *dgrid);
    std::vector<bool> seen(p.size(), false);
    for (const auto& [f, t] : pairs)
    {
        PBT_CHECK(f.poly_ == &p && f.point_idx_ < p.size(), "the first of a pair is not on the polygon");
        const ld off = distSeg(f.location_, p[f.point_idx_], p[(f.point_idx_ + 1) % p.size()]);
        PBT_CHECK(off <= 2, "%s is %.1Lf from its edge %zu", str(f.location_).c_str(), off, f.point_idx_);
        checkOnBorder(t, dest, true, "findClose of a polygon");
        const ld best = borderDist(dest, f.location_);
        // every border within a cell's size is looked at
        if (best < cell - 2)
        {
            PBT_CHECK(std::fabs(dist(f.location_, t.location_) - best) <= 1.5L, "pair %s %s is %.1Lf apart, the border is %.1Lf away", str(f.location_).c_str(), str(t.location_).c_str(), dist(f.location_, t.location_), best);
        }
        if (f.location_ == p[f.point_idx_])
        {
            seen[f.point_idx_] = true;
        }
    }
    for (size_t i = 0; i < p.size(); i++)
    {
        PBT_CHECK(seen[i] || borderDist(dest, p[i]) >= cell - 2, "vertex %zu is %.1Lf from the other polygon (cells of %lld) but in no pair", i, borderDist(dest, p[i]), (long long)cell);
        // and along the edge no stretch of more than two cells is left out
        const Point2LL u = p[i], v = p[(i + 1) % p.size()];
        const ld l = dist(u, v);
        if (l > 3 * cell)
        {
            const ld t = g.real(0.0, 1.0);
            const Point2LL m(u.X + std::llround(t * (v.X - u.X)), u.Y + std::llround(t * (v.Y - u.Y)));
            bool all_near = true;
            for (int k = -4; k <= 4; k++)
            {
                const ld tt = std::min<ld>(1, std::max<ld>(0, t + k * cell / l / 2));
                all_near &= borderDist(dest, u.X + tt * (v.X - u.X), u.Y + tt * (v.Y - u.Y)) < cell - 2;
            }
            if (all_near)
            {
                bool near = false;
                for (const auto& [f, to] : pairs)
                {
                    near |= dist(f.location_, m) < 2.1L * cell;
                }
                PBT_CHECK(near, "no pair near %s on a long edge close to the other polygon", str(m).c_str());
                c.label("long edge");
            }
        }
    }
    // a line parallel to another
    const ClosestPointPolygon st = place(p, 0);
    const Point2LL to = g.flip() ? b.location_ : st.location_ + genPoint(g, sc);
    const coord_t d = g.range(100, sc);
    const bool fwd = g.flip();
    if (dist(to, st.location_) > 500)
    {
        const auto r = PolygonUtils::getNextParallelIntersection(st, to, d, fwd);
        const ld l = dist(st.location_, to);
        auto off = [&](const Point2LL& x) { return std::fabs((ld)crossx(st.location_, to, x)) / l; };
        // the first vertex clearly beyond the distance, and whether any edge up to there reaches it
        const size_t n = p.size();
        size_t steps = 0;
        bool far = false;
        for (; steps < n; steps++)
        {
            const size_t idx = fwd ? (st.point_idx_ + 1 + steps) % n : (st.point_idx_ + n - steps) % n;
            // the direction is kept in whole microns over this distance
            if (off(p[idx]) > d + 1.3L * d / l + 4 + 2 * dist(p[idx], st.location_) / d)
            {
                far = true;
                break;
            }
        }
        PBT_CHECK(r.has_value() || ! far, "no parallel intersection at %lld, though a vertex lies farther off", (long long)d);
        if (r)
        {
            PBT_CHECK(r->poly_ == &p && r->point_idx_ < n, "off the polygon");
            const ld e = distSeg(r->location_, p[r->point_idx_], p[(r->point_idx_ + 1) % n]);
            PBT_CHECK(e <= 4, "%s is %.1Lf from edge %zu", str(r->location_).c_str(), e, r->point_idx_);

            const ld tol = 30 + 3 * (1 + (ld)sc / d) + 1.3L * d / l;
            PBT_CHECK(std::fabs(off(r->location_) - d) <= tol, "%s is %.1Lf off the line, want %lld", str(r->location_).c_str(), off(r->location_), (long long)d);
            if (far)
            {
                const size_t idx = fwd ? (st.point_idx_ + steps) % n : (st.point_idx_ + n - steps) % n;
                // found no later than the first vertex beyond
                const size_t at = fwd ? (r->point_idx_ + n - st.point_idx_) % n : (st.point_idx_ + n - r->point_idx_) % n;
                PBT_CHECK(at <= steps, "found at edge %zu steps away, though the vertex after %zu steps (edge %zu) is beyond already", at, steps, idx);
            }
            c.label("parallel");
        }
    }
}

// ---- polygons against each other

static void together(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 1000, 100000 });
    Shape s;
    const int n = g.range(2, 5);
    for (int i = 0; i < n; i++)
    {
        s.push_back(toPolygon(genSimpleRing(g, Point2LL(g.around(3 * sc), g.around(2 * sc)), g.range(sc / 5, sc))));
    }
    const coord_t gap = g.oneof<coord_t>({ 100, sc / 4, sc, sc * 3 });
    c.note("gap %lld polygons %s", (long long)gap, strShape(s).c_str());
    std::vector<const Polygon*> others;
    std::vector<unsigned> want, may;
    for (int i = 1; i < n; i++)
    {
        others.push_back(&s[i]);
        ld d = 1e30L;
        bool cross = false;
        for (size_t a = 0; a < s[0].size(); a++)
        {
            for (size_t b = 0; b < s[i].size(); b++)
            {
                const Point2LL p = s[0][a], q = s[0][(a + 1) % s[0].size()], u = s[i][b], v = s[i][(b + 1) % s[i].size()];
                d = std::min(d, distSegSeg(p, q, u, v));
                cross |= segsTouch(p, q, u, v);
            }
        }
        ld vd = 1e30L; // from the vertices of either to the edges of the other
        Shape s0, si;
        s0.push_back(s[0]);
        si.push_back(s[i]);
        for (const Point2LL& p : s[0])
        {
            vd = std::min(vd, borderDist(si, p));
        }
        for (const Point2LL& p : s[i])
        {
            vd = std::min(vd, borderDist(s0, p));
        }
        if (vd < gap - 2)
        {
            want.push_back(i - 1);
        }
        if (d < gap + 2)
        {
            may.push_back(i - 1);
        }
        // overlapping areas
        if (d > 3)
        {
            // clear of each other's border: either one contains the other or they are apart
            const bool over = evenOdd(s0, s[i][0]) == 1 || evenOdd(si, s[0][0]) == 1;
            PBT_CHECK(PolygonUtils::polygonsIntersect(s[0], s[i]) == over, "polygonsIntersect says %d", ! over);
            c.label(over ? "nested" : "apart");
        }
        else if (cross)
        {
            bool deep = false;
            for (const Point2LL& p : s[0])
            {
                deep |= evenOdd(si, p) == 1 && borderDist(si, p) > 10;
            }
            for (const Point2LL& p : s[i])
            {
                deep |= evenOdd(s0, p) == 1 && borderDist(s0, p) > 10;
            }
            if (deep)
            {
                PBT_CHECK(PolygonUtils::polygonsIntersect(s[0], s[i]), "polygonsIntersect misses an overlap");
                c.label("overlapping");
            }
        }
    }
    std::vector<unsigned> got;
    PolygonUtils::findAdjacentPolygons(got, s[0], others, gap);
    for (unsigned k : want)
    {
        PBT_CHECK(std::count(got.begin(), got.end(), k) == 1, "polygon %u is nearer than the gap but not adjacent", k);
    }
    for (unsigned k : got)
    {
        PBT_CHECK(std::count(may.begin(), may.end(), k) == 1, "polygon %u is farther than the gap but adjacent", k);
    }
    if (! want.empty() && want.size() < others.size())
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G06",
                  {
                      { "nearest", 200000, 3000000, "the point is off the border of an area with more than four edges", nearest },
                      { "moving", 300000, 4000000, "the point was moved by more than 20 um from its border", moving },
                      { "movingFromBorder", 200000, 2000000, "moved by more than 20 um", movingFromBorder },
                      { "ensuring", 150000, 2000000, "the point was moved", ensuring },
                      { "hitting", 150000, 3000000, "the segment clearly crosses a border", hitting },
                      { "walking", 200000, 3000000, "walked past a vertex", walking },
                      { "connections", 80000, 1500000, "the connection became shorter", connections },
                      { "together", 50000, 1000000, "some polygons are near and some are far", together },
                  });
    return r.main(argc, argv);
}
