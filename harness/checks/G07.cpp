// G07 spatial lookups, boxes and voxels find everything near and nothing else
// SOURCES: ALL
#include "geo.h"
#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "utils/AABB.h"
#include "utils/AABB3D.h"
#include "utils/PolygonsPointIndex.h"
#include "utils/SparseLineGrid.h"
#include "utils/SparsePointGrid.h"
#include "utils/SparsePointGridInclusive.h"
#include "utils/SpatialLookup.h"
#include "utils/VoxelGrid.h"
#include "utils/VoxelUtils.h"
#include "utils/polygonUtils.h"
#include <set>

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
using Pts = std::vector<Point2LL>;

static coord_t genCell(Gen& g)
{
    return g.oneof<coord_t>({ 10, 100, 1000, 7, g.range(1, 5001) });
}
// Points of all kinds around cell borders and the origin
static Point2LL genAt(Gen& g, coord_t cell)
{
    auto one = [&]() -> coord_t
    {
        switch (g.draw(3))
        {
        case 0:
            return g.around(6) * cell;
        case 1:
            return g.around(6) * cell + g.around(1);
        case 2:
            return g.around(8 * cell);
        default:
            return g.around(40 * cell);
        }
    };
    const coord_t x = one();
    return Point2LL(x, one());
}

struct Item
{
    Point2LL point; // as getNearest needs it
    int id;
};
struct ItemLoc
{
    Point2LL operator()(const Item& i) const
    {
        return i.point;
    }
};
struct LineItem
{
    Point2LL a, b;
    int id;
};
struct LineLoc
{
    std::pair<Point2LL, Point2LL> operator()(const LineItem& i) const
    {
        return { i.a, i.b };
    }
};

static void pointGrid(Case& c)
{
    Gen& g = c.g;
    const coord_t cell = genCell(g);
    const int n = g.range(0, 30);
    SparsePointGrid<Item, ItemLoc> grid(cell, g.flip() ? n : 0);
    SparsePointGridInclusive<int> inc(cell);
    std::vector<Item> items;
    std::string d;
    for (int i = 0; i < n; i++)
    {
        Item it{ i > 0 && g.chance(1, 6) ? items[g.draw(i - 1)].point : genAt(g, cell), i };
        items.push_back(it);
        grid.insert(it);
        inc.insert(it.point, i);
        d += str(it.point);
    }
    PBT_CHECK(std::distance(grid.begin(), grid.end()) == n, "%zd elements iterated, %d inserted", (ssize_t)std::distance(grid.begin(), grid.end()), n);
    const Point2LL q = n > 0 && g.flip() ? items[g.draw(n - 1)].point + genPoint(g, cell * 2) : genAt(g, cell);
    const coord_t r = g.oneof<coord_t>({ cell, cell / 2, cell * 3, g.range(0, cell * 5), 0, 1 });
    c.note("cell %lld query %s radius %lld points %s", (long long)cell, str(q).c_str(), (long long)r, d.c_str());
    std::vector<int> count(n, 0), count_inc(n, 0);
    for (const Item& it : grid.getNearby(q, r))
    {
        count[it.id]++;
    }
    for (int v : inc.getNearbyVals(q, r))
    {
        count_inc[v]++;
    }
    const int parity = g.draw(2); // 2: no precondition
    i128 best = -1;
    bool any = false;
    for (const Item& it : items)
    {
        const i128 dx = it.point.X - q.X, dy = it.point.Y - q.Y, d2 = dx * dx + dy * dy;
        PBT_CHECK(count[it.id] <= 1 && count_inc[it.id] <= 1, "point %d reported %d times", it.id, std::max(count[it.id], count_inc[it.id]));
        if (d2 <= (i128)r * r)
        {
            PBT_CHECK(count[it.id] == 1 && count_inc[it.id] == 1, "%s is %.1Lf from the query point but not reported", str(it.point).c_str(), std::sqrt((ld)d2));
        }
        // and nothing from cells that do not touch the square (cells at the origin are twice as wide)
        const coord_t far = std::max(std::abs((coord_t)dx), std::abs((coord_t)dy));
        PBT_CHECK(count[it.id] == 0 || far <= r + 2 * cell, "%s is %lld away but reported", str(it.point).c_str(), (long long)far);
        if (d2 < (i128)r * r && (parity == 2 || it.id % 2 == parity))
        {
            best = best < 0 ? d2 : std::min(best, d2);
        }
        any |= d2 <= (i128)r * r;
    }
    Item got{ Point2LL(1, 1), -7 };
    const bool ok = parity == 2 ? grid.getNearest(q, r, got) : grid.getNearest(q, r, got, [parity](const Item& i) { return i.id % 2 == parity; });
    PBT_CHECK(ok == (best >= 0), "getNearest says %d", ok);
    if (ok)
    {
        PBT_CHECK(parity == 2 || got.id % 2 == parity, "getNearest ignores the precondition");
        PBT_CHECK((i128)vSize2(got.point - q) == best, "getNearest gives %s, not the nearest", str(got.point).c_str());
    }
    else
    {
        PBT_CHECK(got.id == -7, "getNearest found nothing but wrote a result");
    }
    const Item* a = grid.getAnyNearby(q, r);
    PBT_CHECK((a != nullptr) == any, "getAnyNearby says %d", a != nullptr);
    PBT_CHECK(! a || shorterThen(a->point - q, r), "getAnyNearby gives one too far");
    // stopping early
    int calls = 0;
    const int limit = g.range(1, 5);
    const bool done = grid.processNearby(q, r, [&](const Item&) { return ++calls < limit; });
    const int total = std::count(count.begin(), count.end(), 1);
    PBT_CHECK(calls == std::min(limit, total) && done == (total < limit), "processNearby made %d calls (%d in reach, stop at %d) and returned %d", calls, total, limit, done);
    if (total > 0 && total < n)
    {
        c.nontrivial();
    }
}

static void lineGrid(Case& c)
{
    Gen& g = c.g;
    const coord_t cell = genCell(g);
    const Point2LL a = genAt(g, cell), b = g.chance(1, 10) ? a : g.chance(1, 4) ? Point2LL(a.X, genAt(g, cell).Y) : g.chance(1, 4) ? Point2LL(genAt(g, cell).X, a.Y) : genAt(g, cell);
    c.note("cell %lld line %s-%s", (long long)cell, str(a).c_str(), str(b).c_str());
    SquareGrid sq(cell);
    PBT_CHECK(sq.getCellSize() == cell, "cell size %lld", (long long)sq.getCellSize());
    std::vector<Point2LL> cells;
    const bool r = sq.processLineCells({ a, b },
                                       [&](Point2LL p)
                                       {
                                           cells.push_back(p);
                                           if (cells.size() > 100000)
                                           {
                                               pbt::fail("walks without end");
                                           }
                                           return true;
                                       });
    PBT_CHECK(r, "processLineCells says it was stopped");
    auto key = [](const Point2LL& p) { return std::make_pair(p.X, p.Y); };
    std::set<std::pair<coord_t, coord_t>> set;
    for (const Point2LL& p : cells)
    {
        PBT_CHECK(set.insert(key(p)).second, "cell %s visited twice", str(p).c_str());
        // no cell far from the line: its (closed) square is within one row or column of it
        const Point2LL lo(p.X > 0 ? p.X * cell : (p.X - 1) * cell, p.Y > 0 ? p.Y * cell : (p.Y - 1) * cell), hi(p.X < 0 ? p.X * cell : (p.X + 1) * cell, p.Y < 0 ? p.Y * cell : (p.Y + 1) * cell);
        const Point2LL mid = (lo + hi) / 2;
        const ld half = std::hypot((ld)hi.X - lo.X, (ld)hi.Y - lo.Y) / 2;
        PBT_CHECK(distSeg(mid, a, b) <= half + cell * 1.5L + 2, "cell %s is far from the line", str(p).c_str());
    }
    PBT_CHECK(set.count(key(sq.toGridPoint(a))) && set.count(key(sq.toGridPoint(b))), "the cell of an end is not visited");
    for (int k = 0; k < 24; k++)
    {
        const ld t = g.real(0, 1);
        const ld x = a.X + t * (b.X - a.X), y = a.Y + t * (b.Y - a.Y);
        // rounding decides right at a border
        auto near = [&](ld v) { const ld m = std::fabs(std::fmod(v, (ld)cell)); return m < 1.01L || m > cell - 1.01L; };
        if ((near(x) && a.X != b.X) || (near(y) && a.Y != b.Y))
        {
            continue;
        }
        const auto kk = std::make_pair((coord_t)(x / cell), (coord_t)(y / cell));
        PBT_CHECK(set.count(kk), "the line passes (%.1Lf, %.1Lf) in cell (%lld,%lld), which is not visited", x, y, (long long)kk.first, (long long)kk.second);
    }
    if (cells.size() > 3)
    {
        c.nontrivial();
    }
    size_t calls = 0;
    const size_t limit = 1 + g.draw(cells.size());
    const bool done = sq.processLineCells({ a, b }, [&](Point2LL) { return ++calls < limit; });
    PBT_CHECK(calls == std::min(limit, cells.size()) && done == (cells.size() < limit), "stopping after %zu of %zu: %zu calls, returned %d", limit, cells.size(), calls, done);
    // lower corners
    const Point2LL lc = sq.toLowerCorner(sq.toGridPoint(a));
    PBT_CHECK(std::abs(lc.X) <= std::abs(a.X) && std::abs(a.X - lc.X) < cell && lc.X % cell == 0 && std::abs(lc.Y) <= std::abs(a.Y) && std::abs(a.Y - lc.Y) < cell && lc.Y % cell == 0, "corner %s of the cell of %s", str(lc).c_str(), str(a).c_str());
    // lines in a grid: any line within reach is found from any point and along any other line crossing it
    SparseLineGrid<LineItem, LineLoc> grid(cell);
    std::vector<LineItem> lines{ { a, b, 0 } };
    const int n = g.range(0, 6);
    for (int i = 1; i <= n; i++)
    {
        lines.push_back({ genAt(g, cell), genAt(g, cell), i });
    }
    for (const LineItem& l : lines)
    {
        grid.insert(l);
    }
    const Point2LL q = genAt(g, cell), q2 = genAt(g, cell);
    const coord_t rad = g.oneof<coord_t>({ cell, cell * 3, g.range(0, 4 * cell) });
    std::set<int> found, crossed;
    for (const LineItem& l : grid.getNearby(q, rad))
    {
        found.insert(l.id);
    }
    grid.processLine({ q, q2 }, [&](const LineItem& l) { crossed.insert(l.id); return true; });
    for (const LineItem& l : lines)
    {
        PBT_CHECK(found.count(l.id) || distSeg(q, l.a, l.b) >= rad - 2, "line %d passes %s at %.1Lf but is not found within %lld", l.id, str(q).c_str(), distSeg(q, l.a, l.b), (long long)rad);
        const ld l1 = dist(q, q2), l2 = dist(l.a, l.b);
        if (segsTouch(q, q2, l.a, l.b) && l1 > 0 && l2 > 0)
        {
            // where they cross, if that is clear of the cells' borders
            const ld den = (ld)crossx(l.a, l.b, q) - (ld)crossx(l.a, l.b, q2);
            if (den != 0)
            {
                const ld t = (ld)crossx(l.a, l.b, q) / den;
                const ld x = q.X + t * (q2.X - q.X), y = q.Y + t * (q2.Y - q.Y);
                auto near = [&](ld v) { const ld m = std::fabs(std::fmod(v, (ld)cell)); return m < 1.5L || m > cell - 1.5L; };
                if (! near(x) && ! near(y))
                {
                    PBT_CHECK(crossed.count(l.id), "line %d crosses at (%.1Lf, %.1Lf) but is not met along it", l.id, x, y);
                }
            }
        }
    }
}

static void boxes(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10, 1000, 500000 });
    const Shape s = genSoup(g, sc);
    auto pts = [](const Shape& x)
    {
        Pts p;
        for (const Polygon& q : x)
        {
            p.insert(p.end(), q.begin(), q.end());
        }
        return p;
    };
    const Pts all = pts(s);
    coord_t x0 = all[0].X, x1 = x0, y0 = all[0].Y, y1 = y0;
    OpenLinesSet lines;
    for (const Polygon& q : s)
    {
        OpenPolyline l;
        for (const Point2LL& p : q)
        {
            x0 = std::min(x0, p.X);
            x1 = std::max(x1, p.X);
            y0 = std::min(y0, p.Y);
            y1 = std::max(y1, p.Y);
            l.push_back(p);
        }
        lines.push_back(l);
    }
    c.note("points %s", strShape(s).c_str());
    auto is = [&](const AABB& b, const char* what) { PBT_CHECK(b.min_ == Point2LL(x0, y0) && b.max_ == Point2LL(x1, y1), "%s: %s-%s", what, str(b.min_).c_str(), str(b.max_).c_str()); };
    AABB box(s);
    is(box, "of a shape");
    is(AABB(lines), "of lines");
    AABB b1, b2, b3;
    PBT_CHECK(b1.area() == -1 && ! b1.contains(all[0]), "the box of nothing contains a point");
    for (const Point2LL& p : all)
    {
        b1.include(p);
    }
    is(b1, "point by point");
    for (const Polygon& q : s)
    {
        b2.include(AABB(q));
        b3.include(q);
    }
    is(b2, "box by box");
    is(b3, "polygon by polygon");
    b3.include(AABB());
    is(b3, "and nothing");
    b3.calculate(s);
    is(b3, "calculated again");
    b3.calculate(lines);
    is(b3, "calculated from lines");
    PBT_CHECK(box.area() == (x1 - x0) * (y1 - y0) && box.width() == x1 - x0 && box.height() == y1 - y0, "area %lld width %lld height %lld", (long long)box.area(), (long long)box.width(), (long long)box.height());
    PBT_CHECK(box.getMiddle() == Point2LL((x0 + x1) / 2, (y0 + y1) / 2), "middle %s", str(box.getMiddle()).c_str());
    const Polygon tp = box.toPolygon();
    PBT_CHECK(tp.size() == 4 && ringArea(Pts(tp.begin(), tp.end())) == (ld)box.area(), "polygon of the box");
    const coord_t e = g.around(sc / 4);
    AABB ex = box;
    ex.expand(e);
    PBT_CHECK(ex.min_ == Point2LL(x0 - e, y0 - e) && ex.max_ == Point2LL(x1 + e, y1 + e), "expanded by %lld to %s-%s", (long long)e, str(ex.min_).c_str(), str(ex.max_).c_str());
    AABB none;
    none.expand(e);
    PBT_CHECK(none.min_ == AABB().min_ && none.max_ == AABB().max_, "the box of nothing expanded");
    // against points and each other
    const Shape s2 = genSoup(g, sc);
    const AABB other(g.flip() ? s2 : Shape(s2).getOutsidePolygons());
    if (other.area() < 0)
    {
        return;
    }
    for (int k = 0; k < 6; k++)
    {
        const Point2LL p = g.flip() ? genPoint(g, sc * 3 / 2) : Point2LL(g.pick(std::vector<coord_t>{ x0, x1, (x0 + x1) / 2 }) + g.around(1), g.pick(std::vector<coord_t>{ y0, y1, (y0 + y1) / 2 }) + g.around(1));
        const bool in = p.X >= x0 && p.X <= x1 && p.Y >= y0 && p.Y <= y1;
        PBT_CHECK(box.contains(p) == in, "contains %s: %d", str(p).c_str(), ! in);
        Shape outline;
        outline.push_back(tp);
        const ld d = x0 == x1 && y0 == y1 ? dist(p, Point2LL(x0, y0)) : borderDist(outline, p);
        const coord_t d2 = box.distanceSquared(p);
        PBT_CHECK((d2 <= 0) == in || d < 1, "the sign of %lld at %s", (long long)d2, str(p).c_str());
        PBT_CHECK(std::fabs(std::sqrt((ld)std::abs(d2)) - d) <= 1.01L, "squared distance of %s: %lld, distance %.2Lf", str(p).c_str(), (long long)d2, d);
    }
    const bool hit = ! (other.max_.X < x0 || other.min_.X > x1 || other.max_.Y < y0 || other.min_.Y > y1);
    PBT_CHECK(box.hit(other) == hit && other.hit(box) == hit, "hit says %d", ! hit);
    const bool has = other.min_.X >= x0 && other.max_.X <= x1 && other.min_.Y >= y0 && other.max_.Y <= y1;
    PBT_CHECK(box.contains(other) == has, "contains says %d", ! has);
    PBT_CHECK(box.contains(AABB()) && ! AABB().contains(box), "containing nothing");
    if (! hit)
    {
        const ld dx = std::max<ld>({ 0, (ld)other.min_.X - x1, (ld)x0 - other.max_.X }), dy = std::max<ld>({ 0, (ld)other.min_.Y - y1, (ld)y0 - other.max_.Y });
        PBT_CHECK(std::fabs(std::sqrt((ld)std::max<coord_t>(0, box.distanceSquared(other))) - std::hypot(dx, dy)) <= 1.01L, "squared distance of the boxes: %lld, distance %.2Lf", (long long)box.distanceSquared(other), std::hypot(dx, dy));
        c.label("apart");
    }
    else
    {
        c.nontrivial();
    }
    // the smallest box of any direction
    const Polygon& q = s[0];
    bool long_edge = false;
    for (size_t i = 0; i < q.size(); i++)
    {
        long_edge |= vSize(q[i] - q[(i + 1) % q.size()]) >= 5;
    }
    if (q.size() >= 3 && long_edge && sc >= 1000)
    {
        const auto [ob, angle] = AABB::minimumAreaOrientedBoundingBox(s);
        ld best = 1e40L, at_best = 0;
        for (size_t i = 0; i < q.size(); i++)
        {
            const Point2LL u = q[i], v = q[(i + 1) % q.size()];
            const ld l = dist(u, v);
            if (vSize(u - v) < 5)
            {
                continue;
            }
            const ld cx = (v.X - u.X) / l, cy = (v.Y - u.Y) / l;
            ld mx = 1e30L, Mx = -1e30L, my = 1e30L, My = -1e30L;
            for (const Point2LL& p : q)
            {
                const ld a = p.X * cx + p.Y * cy, b = -p.X * cy + p.Y * cx;
                mx = std::min(mx, a);
                Mx = std::max(Mx, a);
                my = std::min(my, b);
                My = std::max(My, b);
            }
            best = std::min(best, (Mx - mx) * (My - my));
            const ld diff = std::remainder(std::atan2(cy, cx) - (ld)static_cast<double>(angle), 2 * M_PIl);
            if (std::fabs(diff) < 1e-9L)
            {
                at_best = (Mx - mx) * (My - my);
            }
        }
        // edges of few microns have rough directions: lengths are whole
        const ld slack = 0.25L * best + 8.0L * sc + 10;
        PBT_CHECK(at_best > 0 || best < 1, "the direction %f is that of no edge", static_cast<double>(angle));
        PBT_CHECK(at_best <= best + slack && std::fabs((ld)ob.area() - at_best) <= slack + 0.5L * at_best, "the box along %f has area %.0Lf (reported %lld), the smallest %.0Lf", static_cast<double>(angle), at_best, (long long)ob.area(), best);
    }
}

static Point3LL genAt3(Gen& g, coord_t sc)
{
    const coord_t x = g.around(sc), y = g.around(sc);
    return Point3LL(x, y, g.around(sc));
}

static void boxes3(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10, 1000, 500000 });
    AABB3D b, o;
    coord_t lo[3] = { 1 << 30, 1 << 30, 1 << 30 }, hi[3] = { -(1 << 30), -(1 << 30), -(1 << 30) };
    const int n = g.range(1, 5);
    std::vector<Point3LL> pts;
    for (int i = 0; i < n; i++)
    {
        const Point3LL p = genAt3(g, sc);
        pts.push_back(p);
        const AABB3D r = b.include(p);
        PBT_CHECK(r.min_ == b.min_ && r.max_ == b.max_, "include gives back another box");
        for (int k = 0; k < 3; k++)
        {
            lo[k] = std::min(lo[k], p[k]);
            hi[k] = std::max(hi[k], p[k]);
        }
    }
    auto is = [&](const AABB3D& x, const char* what)
    {
        for (int k = 0; k < 3; k++)
        {
            PBT_CHECK(x.min_[k] == lo[k] && x.max_[k] == hi[k], "%s: dimension %d is %lld..%lld, want %lld..%lld", what, k, (long long)x.min_[k], (long long)x.max_[k], (long long)lo[k], (long long)hi[k]);
        }
    };
    is(b, "included");
    PBT_CHECK(b.spanX() == hi[0] - lo[0] && b.spanY() == hi[1] - lo[1] && b.spanZ() == hi[2] - lo[2], "spans");
    const AABB f = b.flatten();
    PBT_CHECK(f.min_ == Point2LL(lo[0], lo[1]) && f.max_ == Point2LL(hi[0], hi[1]), "flattened");
    const Point3LL m = b.getMiddle();
    for (int k = 0; k < 3; k++)
    {
        PBT_CHECK(std::abs(2 * m[k] - lo[k] - hi[k]) <= 1, "middle");
    }
    AABB3D by_box;
    for (const Point3LL& p : pts)
    {
        by_box.include(AABB3D(p, p));
    }
    by_box.include(AABB3D());
    is(by_box, "box by box");
    o = AABB3D();
    const Point3LL p1 = genAt3(g, sc), p2 = genAt3(g, sc);
    o.include(p1);
    o.include(p2);
    bool hit = true;
    for (int k = 0; k < 3; k++)
    {
        hit &= std::max(lo[k], o.min_[k]) <= std::min(hi[k], o.max_[k]);
    }
    PBT_CHECK(b.hit(o) == hit && o.hit(b) == hit, "hit says %d", ! hit);
    const coord_t e = g.around(sc / 3);
    const int how = g.draw(4);
    c.note("%d points scale %lld, step %d by %lld", n, (long long)sc, how, (long long)e);
    const Point3LL t = genAt3(g, sc);
    if (how == 0)
    {
        b.translate(t);
        for (int k = 0; k < 3; k++)
        {
            lo[k] += t[k];
            hi[k] += t[k];
        }
    }
    else if (how == 1)
    {
        b.translate(Point2LL(t.x_, t.y_));
        for (int k = 0; k < 2; k++)
        {
            lo[k] += t[k];
            hi[k] += t[k];
        }
    }
    else if (how == 2)
    {
        b.includeZ(t.z_);
        lo[2] = std::min(lo[2], t.z_);
        hi[2] = std::max(hi[2], t.z_);
    }
    else
    {
        const int dims = how == 3 ? 3 : 2;
        how == 3 ? b.expand(e) : b.expandXY(e);
        bool valid = true;
        for (int k = 0; k < dims; k++)
        {
            lo[k] -= e;
            hi[k] += e;
            valid &= lo[k] <= hi[k];
        }
        if (! valid)
        {
            PBT_CHECK(b.min_ == AABB3D().min_ && b.max_ == AABB3D().max_, "shrunk to nothing but not the box of nothing");
            c.label("nothing left");
            return;
        }
    }
    is(b, "changed");
    if (hit)
    {
        c.nontrivial();
    }
}

// ---- voxels

static ld distTri(const ld p[3], const Point3LL* t)
{
    // distance to a triangle by projection and edges
    auto sub = [](const ld* a, const ld* b, ld* r) { for (int k = 0; k < 3; k++) r[k] = a[k] - b[k]; };
    auto dotp = [](const ld* a, const ld* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; };
    ld v[3][3];
    for (int i = 0; i < 3; i++)
    {
        v[i][0] = t[i].x_;
        v[i][1] = t[i].y_;
        v[i][2] = t[i].z_;
    }
    ld best = 1e30L;
    for (int i = 0; i < 3; i++)
    {
        ld e[3], w[3];
        sub(v[(i + 1) % 3], v[i], e);
        sub(p, v[i], w);
        const ld l = dotp(e, e);
        const ld u = l == 0 ? 0 : std::min<ld>(1, std::max<ld>(0, dotp(w, e) / l));
        ld q[3];
        for (int k = 0; k < 3; k++)
        {
            q[k] = w[k] - u * e[k];
        }
        best = std::min(best, std::sqrt(dotp(q, q)));
    }
    ld a[3], b[3], w[3];
    sub(v[1], v[0], a);
    sub(v[2], v[0], b);
    sub(p, v[0], w);
    const ld n[3] = { a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0] };
    const ld nn = dotp(n, n);
    if (nn > 0)
    {
        const ld aa = dotp(a, a), bb = dotp(b, b), ab = dotp(a, b), wa = dotp(w, a), wb = dotp(w, b), den = aa * bb - ab * ab;
        const ld s = (wa * bb - wb * ab) / den, u = (wb * aa - wa * ab) / den;
        if (s >= 0 && u >= 0 && s + u <= 1)
        {
            best = std::min(best, std::fabs(dotp(w, n)) / std::sqrt(nn));
        }
    }
    return best;
}

static void voxelGrid(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 10000, 1000, 100000 });
    AABB3D box;
    box.include(genAt3(g, sc));
    const Point3LL sz(g.range(sc / 10, sc), g.range(sc / 10, sc), g.range(sc / 10, sc));
    box.include(box.min_ + sz);
    const coord_t res = g.range(std::max<coord_t>(20, sc / 24), sc / 2);
    VoxelGrid vg(box, res);
    const Point3D r = vg.getResolution();
    const Point3LL cnt = vg.getSlicesCount();
    const coord_t span[3] = { box.spanX(), box.spanY(), box.spanZ() };
    const double rr[3] = { r.x_, r.y_, r.z_ };
    for (int k = 0; k < 3; k++)
    {
        PBT_CHECK(rr[k] <= res + 1e-9 && std::fabs(rr[k] * cnt[k] - span[k]) < 1e-3, "resolution %f times %lld for a span of %lld (at most %lld)", rr[k], (long long)cnt[k], (long long)span[k], (long long)res);
        PBT_CHECK(cnt[k] <= span[k] / res + 1, "more slices than needed");
    }
    c.note("box %lld,%lld,%lld +%lld,%lld,%lld resolution %lld", (long long)box.min_.x_, (long long)box.min_.y_, (long long)box.min_.z_, (long long)sz.x_, (long long)sz.y_, (long long)sz.z_, (long long)res);
    auto local = [&](const double x, int k) { return (uint16_t)((x - (double)box.min_[k]) / rr[k]); };
    // positions
    for (int k = 0; k < 4; k++)
    {
        const Point3D p(box.min_.x_ + g.real(0.0, 0.9999) * sz.x_, box.min_.y_ + g.real(0.0, 0.9999) * sz.y_, box.min_.z_ + g.real(0.0, 0.9999) * sz.z_);
        const auto l = vg.toLocalCoordinates(p);
        PBT_CHECK(l.position.x == local(p.x_, 0) && l.position.y == local(p.y_, 1) && l.position.z == local(p.z_, 2), "local coordinates %d %d %d", l.position.x, l.position.y, l.position.z);
        const Point3D ce = vg.toGlobalCoordinates(l), co = vg.toGlobalCoordinates(l, false);
        PBT_CHECK(std::fabs(ce.x_ - p.x_) <= rr[0] / 2 + 1e-3 && std::fabs(ce.y_ - p.y_) <= rr[1] / 2 + 1e-3 && std::fabs(ce.z_ - p.z_) <= rr[2] / 2 + 1e-3, "the voxel of a point does not contain it");
        PBT_CHECK(std::fabs(ce.x_ - co.x_ - rr[0] / 2) < 1e-3 && std::fabs(ce.y_ - co.y_ - rr[1] / 2) < 1e-3 && std::fabs(ce.z_ - co.z_ - rr[2] / 2) < 1e-3, "corner and centre");
        PBT_CHECK(vg.toLocalCoordinates(ce) == l, "the centre of a voxel lies in another");
    }
    // a history of occupations against a map
    std::map<uint64_t, std::pair<VoxelGrid::LocalCoordinates, int>> model;
    const int ops = g.range(1, 24);
    auto somewhere = [&] { return VoxelGrid::LocalCoordinates(g.draw(std::min<coord_t>(3, cnt.x_ - 1)), g.draw(std::min<coord_t>(2, cnt.y_ - 1)), g.flip() ? cnt.z_ - 1 : g.draw(std::min<coord_t>(2, cnt.z_ - 1))); };
    for (int i = 0; i < ops; i++)
    {
        const auto at = somewhere();
        const uint8_t e = g.oneof<int>({ 0, 1, 2, 7, 255 });
        auto it = model.find(at.key);
        if (g.flip())
        {
            vg.setOccupation(at, e);
            model.insert_or_assign(at.key, std::make_pair(at, (int)e));
        }
        else
        {
            vg.setOrUpdateOccupation(at, e);
            if (it == model.end())
            {
                model.emplace(at.key, std::make_pair(at, (int)e));
            }
            else
            {
                it->second.second = std::min<int>(it->second.second, e);
            }
        }
        const auto probe = somewhere();
        const auto got = vg.getOccupation(probe);
        it = model.find(probe.key);
        PBT_CHECK(got.has_value() == (it != model.end()) && vg.hasOccupation(probe) == got.has_value() && (! got || *got == it->second.second), "occupation of %d %d %d is %d, want %d", probe.position.x, probe.position.y, probe.position.z, got ? *got : -1, it == model.end() ? -1 : it->second.second);
    }
    PBT_CHECK(vg.occupiedCount() == model.size(), "%zu occupied, want %zu", vg.occupiedCount(), model.size());
    std::mutex mu;
    size_t visited = 0;
    std::string wrong;
    vg.visitOccupiedVoxels(
        [&](const auto& v)
        {
            std::lock_guard lock(mu);
            visited++;
            if (! model.count(v.first.key) || model.at(v.first.key).second != v.second)
            {
                wrong = "a voxel visited is not occupied so";
            }
        });
    PBT_CHECK(wrong.empty() && visited == model.size(), "%s, %zu visited of %zu", wrong.c_str(), visited, model.size());
    // the nearest
    const SpatialLookup lookup = SpatialLookup::makeSpatialLookupFromVoxelGrid(vg);
    const Point3D q(box.min_.x_ + g.real(-0.3, 1.3) * sz.x_, box.min_.y_ + g.real(-0.3, 1.3) * sz.y_, box.min_.z_ + g.real(-0.3, 1.3) * sz.z_);
    const auto near = lookup.findClosestOccupation(q);
    PBT_CHECK(near.has_value(), "no nearest occupation");
    double best = 1e30;
    bool same = false;
    auto d3 = [](const Point3D& a, const Point3D& b) { return std::sqrt((a.x_ - b.x_) * (a.x_ - b.x_) + (a.y_ - b.y_) * (a.y_ - b.y_) + (a.z_ - b.z_) * (a.z_ - b.z_)); };
    for (const auto& [key, v] : model)
    {
        const Point3D ce = vg.toGlobalCoordinates(v.first);
        best = std::min(best, d3(ce, q));
        same |= d3(ce, near->position) < 1e-6 && v.second == near->occupation;
    }
    PBT_CHECK(same && std::fabs(d3(near->position, q) - best) < 1e-6 * sc, "the nearest occupation found is %f away, the nearest %f", d3(near->position, q), best);
    // around
    const auto at = somewhere();
    std::set<uint64_t> around;
    for (const auto& v : vg.getVoxelsAround(at))
    {
        PBT_CHECK(around.insert(v.key).second, "a neighbour twice");
        PBT_CHECK(v.position.x < cnt.x_ && v.position.y < cnt.y_ && v.position.z < cnt.z_, "a neighbour off the grid");
        PBT_CHECK(std::abs(v.position.x - at.position.x) <= 1 && std::abs(v.position.y - at.position.y) <= 1 && std::abs(v.position.z - at.position.z) <= 1 && v != at, "not a neighbour");
    }
    size_t want = 1;
    for (int k = 0; k < 3; k++)
    {
        const int p = k == 0 ? at.position.x : k == 1 ? at.position.y : at.position.z;
        want *= 1 + (p > 0) + (p + 1 < cnt[k]);
    }
    PBT_CHECK(around.size() == want - 1, "%zu neighbours, want %zu", around.size(), want - 1);
    // triangles
    Triangle3LL tri;
    Point3LL tp[3];
    for (int i = 0; i < 3; i++)
    {
        tp[i] = i > 0 && g.chance(1, 4) ? tp[i - 1] + Point3LL(g.around(std::min<coord_t>(20, 1)), 0, 0) : Point3LL(box.min_.x_ + g.range(0, sz.x_ - 1), box.min_.y_ + g.range(0, sz.y_ - 1), box.min_.z_ + g.range(0, sz.z_ - 1));
        for (int k = 0; k < 3; k++)
        {
            tp[i][k] = std::min(std::max(tp[i][k], box.min_[k]), box.max_[k] - 1);
        }
        if (i > 0 && g.chance(1, 5))
        {
            const int k = g.draw(2);
            tp[i][k] = tp[0][k];
        }
        tri[i] = tp[i];
    }
    c.note("box %lld,%lld,%lld +%lld,%lld,%lld resolution %lld triangle %lld,%lld,%lld %lld,%lld,%lld %lld,%lld,%lld", (long long)box.min_.x_, (long long)box.min_.y_, (long long)box.min_.z_, (long long)sz.x_, (long long)sz.y_, (long long)sz.z_, (long long)res, (long long)tp[0].x_, (long long)tp[0].y_, (long long)tp[0].z_, (long long)tp[1].x_, (long long)tp[1].y_, (long long)tp[1].z_, (long long)tp[2].x_, (long long)tp[2].y_, (long long)tp[2].z_);
    std::set<uint64_t> tv;
    for (const auto& v : vg.getTraversedVoxels(tri))
    {
        tv.insert(v.key);
        const Point3D ce = vg.toGlobalCoordinates(v);
        const ld p[3] = { ce.x_, ce.y_, ce.z_ };
        const ld half = std::sqrt(rr[0] * rr[0] + rr[1] * rr[1] + rr[2] * rr[2]) / 2;
        PBT_CHECK(distTri(p, tp) <= half + 4, "voxel %d %d %d is %.1Lf from the triangle", v.position.x, v.position.y, v.position.z, distTri(p, tp));
    }
    // pieces of the triangle are cut at whole microns: a sliver may slip by more than its width
    auto len = [&](int i, int j) { return d3(Point3D(tp[i]), Point3D(tp[j])); };
    const double shortest = std::min({ len(0, 1), len(1, 2), len(2, 0) });
    const double slack = shortest < 50 ? 10 : 3;
    for (int k = 0; k < 20; k++)
    {
        double u = g.real(0, 1), w = g.real(0, 1);
        if (u + w > 1)
        {
            u = 1 - u;
            w = 1 - w;
        }
        double p[3];
        bool border = false;
        for (int d = 0; d < 3; d++)
        {
            p[d] = tp[0][d] + u * (tp[1][d] - tp[0][d]) + w * (tp[2][d] - tp[0][d]);
            const double f = std::fmod(p[d] - box.min_[d], rr[d]);
            border |= f < slack || f > rr[d] - slack;
        }
        if (border)
        {
            continue;
        }
        const VoxelGrid::LocalCoordinates l(local(p[0], 0), local(p[1], 1), local(p[2], 2));
        PBT_CHECK(tv.count(l.key), "the triangle passes (%.0f, %.0f, %.0f) in voxel %d %d %d, which is not traversed", p[0], p[1], p[2], l.position.x, l.position.y, l.position.z);
    }
    if (tv.size() > 4)
    {
        c.nontrivial();
    }
}

static void voxelWalks(Case& c)
{
    Gen& g = c.g;
    const Point3LL cell(g.range(2, 60) * 10, g.range(2, 60) * 10, g.range(2, 60) * 10);
    const VoxelUtils vu(cell);
    auto at = [&]
    {
        Point3LL p;
        for (int k = 0; k < 3; k++)
        {
            p[k] = g.chance(1, 5) ? g.around(6) * cell[k] : g.around(10 * cell[k]);
        }
        return p;
    };
    const Point3LL a = at();
    Point3LL b = g.chance(1, 10) ? a : at();
    if (g.chance(1, 4))
    {
        b.z_ = a.z_;
    }
    c.note("cell %lld,%lld,%lld line %lld,%lld,%lld %lld,%lld,%lld", (long long)cell.x_, (long long)cell.y_, (long long)cell.z_, (long long)a.x_, (long long)a.y_, (long long)a.z_, (long long)b.x_, (long long)b.y_, (long long)b.z_);
    for (int k = 0; k < 3; k++)
    {
        // a cell contains its points; exact multiples may go to either side
        const coord_t gc = vu.toGridCoord(a[k], k);
        const coord_t lo = vu.toLowerCoord(gc, k);
        PBT_CHECK(lo == gc * cell[k] && lo <= a[k] && a[k] <= lo + cell[k], "coordinate %lld in the cell from %lld of %lld", (long long)a[k], (long long)lo, (long long)cell[k]);
    }
    std::vector<GridPoint3> cells;
    auto visit = [&](GridPoint3 p)
    {
        cells.push_back(p);
        if (cells.size() > 10000)
        {
            pbt::fail("walks without end");
        }
        return true;
    };
    PBT_CHECK(vu.walkLine(a, b, visit), "walkLine says it was stopped");
    PBT_CHECK(! cells.empty() && cells[0] == vu.toGridPoint(a), "does not begin in the cell of its start");
    for (size_t i = 0; i < cells.size(); i++)
    {
        if (i > 0)
        {
            const Point3LL d = cells[i] - cells[i - 1];
            PBT_CHECK(std::abs(d.x_) + std::abs(d.y_) + std::abs(d.z_) == 1, "jumps from cell %zu to the next", i - 1);
        }
        // the closed cell meets the line: clip the parameter range
        ld t0 = 0, t1 = 1;
        for (int k = 0; k < 3; k++)
        {
            const ld lo = (ld)cells[i][k] * cell[k], hi = lo + cell[k], d = b[k] - a[k];
            if (d == 0)
            {
                PBT_CHECK(a[k] >= lo && a[k] <= hi, "cell %zu does not meet the line", i);
                continue;
            }
            const ld u = (lo - a[k]) / d, v = (hi - a[k]) / d;
            t0 = std::max(t0, std::min(u, v));
            t1 = std::min(t1, std::max(u, v));
        }
        PBT_CHECK(t0 <= t1 + 1e-9L, "cell %zu does not meet the line", i);
    }
    std::set<std::tuple<coord_t, coord_t, coord_t>> set;
    for (const GridPoint3& p : cells)
    {
        set.insert({ p.x_, p.y_, p.z_ });
    }
    for (int k = 0; k < 16; k++)
    {
        const ld t = g.real(0, 1);
        coord_t gp[3];
        bool border = false;
        for (int d = 0; d < 3; d++)
        {
            const ld v = a[d] + t * (b[d] - a[d]);
            const ld f = v / cell[d];
            gp[d] = (coord_t)std::floor(f);
            border |= std::fabs(f - std::round(f)) < 1e-7L;
        }
        PBT_CHECK(border || set.count({ gp[0], gp[1], gp[2] }), "the line passes cell %lld,%lld,%lld, which is not visited", (long long)gp[0], (long long)gp[1], (long long)gp[2]);
    }
    if (cells.size() > 3)
    {
        c.nontrivial();
    }
    size_t calls = 0;
    const size_t limit = 1 + g.draw(cells.size());
    const bool done = vu.walkLine(a, b, [&](GridPoint3) { return ++calls < limit; });
    PBT_CHECK(calls == std::min(limit, cells.size()) && done == (cells.size() < limit), "stopping after %zu of %zu: %zu calls, returned %d", limit, cells.size(), calls, done);
    const Polygon sq = vu.toPolygon(cells[0]);
    PBT_CHECK(sq.size() == 4 && ringArea(Pts(sq.begin(), sq.end())) == (ld)cell.x_ * cell.y_, "polygon of a cell");

    // kernels
    const DilationKernel::Type type = g.oneof<DilationKernel::Type>({ DilationKernel::Type::CUBE, DilationKernel::Type::DIAMOND, DilationKernel::Type::PRISM });
    const GridPoint3 ks(g.range(1, 5), g.range(1, 5), g.range(1, 5));
    const DilationKernel kernel(ks, type);
    std::set<std::tuple<coord_t, coord_t, coord_t>> rel;
    for (const GridPoint3& p : kernel.relative_cells_)
    {
        PBT_CHECK(rel.insert({ p.x_, p.y_, p.z_ }).second, "a cell of the kernel twice");
    }
    for (coord_t x = -4; x <= 4; x++)
    {
        for (coord_t y = -4; y <= 4; y++)
        {
            for (coord_t z = -4; z <= 4; z++)
            {
                const coord_t p[3] = { x, y, z };
                bool in = true;
                ld man[3];
                for (int k = 0; k < 3; k++)
                {
                    const coord_t lo = -(ks[k] / 2), hi = ks[k] - ks[k] / 2 - 1;
                    in &= p[k] >= lo && p[k] <= hi;
                    const coord_t lim = p[k] < 0 ? -lo : hi;
                    man[k] = std::abs(p[k]) / (ld)std::max<coord_t>(1, lim);
                }
                bool want = in, sure = true;
                if (in && type != DilationKernel::Type::CUBE)
                {
                    const ld sum = man[0] + man[1] + (type == DilationKernel::Type::DIAMOND ? man[2] : 0);
                    want = sum <= 1 + 1e-9L;
                    sure = std::fabs(sum - 1) > 3.0L / (ks.x_ * ks.y_ * ks.z_) || sum <= 1 + 1e-9L;
                }
                PBT_CHECK(! sure || rel.count({ x, y, z }) == want, "kernel %lld,%lld,%lld of type %d: cell %lld,%lld,%lld", (long long)ks.x_, (long long)ks.y_, (long long)ks.z_, (int)type, (long long)x, (long long)y, (long long)z);
            }
        }
    }
}

static void voxelAreas(Case& c)
{
    Gen& g = c.g;
    const coord_t cx = g.range(2, 60) * 10, cy = g.range(2, 60) * 10, cz = g.range(2, 60) * 10;
    const VoxelUtils vu(Point3LL(cx, cy, cz));
    const coord_t sc = std::max(cx, cy) * g.range(2, 9);
    const Shape A = genArea(g, sc);
    const coord_t z = g.range(0, 2000);
    c.note("cells %lld,%lld z %lld area %s", (long long)cx, (long long)cy, (long long)z, strShape(A).c_str());
    if (A.empty())
    {
        c.discard();
    }
    const coord_t zc = vu.toGridCoord(z, 2);
    std::set<std::pair<coord_t, coord_t>> in, border, dil, dilp;
    auto sane = [&](GridPoint3 p)
    {
        PBT_CHECK(p.z_ == zc, "height %lld, want %lld", (long long)p.z_, (long long)zc);
        return true;
    };
    vu.walkAreas(A, z, [&](GridPoint3 p) { in.insert({ p.x_, p.y_ }); return sane(p); });
    vu.walkPolygons(A, z, [&](GridPoint3 p) { border.insert({ p.x_, p.y_ }); return sane(p); });
    const DilationKernel odd(GridPoint3(3, 3, 1), g.flip() ? DilationKernel::Type::CUBE : DilationKernel::Type::DIAMOND);
    const std::function<bool(GridPoint3)> fa = [&](GridPoint3 p)
    {
        dil.insert({ p.x_, p.y_ });
        // dilated areas are taken half a cell lower
        PBT_CHECK(p.z_ == zc || p.z_ == vu.toGridCoord(z - cz / 2, 2), "height %lld, want %lld", (long long)p.z_, (long long)zc);
        return true;
    };
    const std::function<bool(GridPoint3)> fp = [&](GridPoint3 p) { dilp.insert({ p.x_, p.y_ }); return sane(p); };
    vu.walkDilatedAreas(A, z, odd, fa);
    vu.walkDilatedPolygons(A, z, odd, fp);
    // every cell whose centre is well inside, none whose centre is well outside
    Box bb;
    bb.addShape(A);
    bool some = false;
    std::set<std::pair<coord_t, coord_t>> want_dil, want_dilp;
    for (const auto& [x, y] : in)
    {
        for (const GridPoint3& r : odd.relative_cells_)
        {
            want_dil.insert({ x + r.x_, y + r.y_ });
        }
    }
    for (const auto& [x, y] : border)
    {
        for (const GridPoint3& r : odd.relative_cells_)
        {
            want_dilp.insert({ x + r.x_, y + r.y_ });
        }
    }
    PBT_CHECK(dil == want_dil, "dilated: %zu cells, want %zu", dil.size(), want_dil.size());
    PBT_CHECK(dilp == want_dilp, "dilated borders: %zu cells, want %zu", dilp.size(), want_dilp.size());
    for (coord_t x = (coord_t)std::floor((ld)bb.x0 / cx) - 2; x <= bb.x1 / cx + 2; x++)
    {
        for (coord_t y = (coord_t)std::floor((ld)bb.y0 / cy) - 2; y <= bb.y1 / cy + 2; y++)
        {
            const Point2LL mid(x * cx + cx / 2, y * cy + cy / 2);
            const bool inside = evenOdd(A, mid) == 1;
            const ld d = borderDist(A, mid);
            if (d <= 30)
            {
                continue;
            }
            PBT_CHECK(in.count({ x, y }) == inside, "cell %lld,%lld around %s is %s (%.0Lf from the border) but %s", (long long)x, (long long)y, str(mid).c_str(), inside ? "inside" : "outside", d, inside ? "not visited" : "visited");
            some |= inside;
        }
    }
    if (some)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G07",
                  {
                      { "pointGrid", 300000, 3000000, "some but not all points are in reach", pointGrid },
                      { "lineGrid", 200000, 2000000, "the line passes more than three cells", lineGrid },
                      { "boxes", 150000, 1500000, "the boxes overlap", boxes },
                      { "boxes3", 200000, 2000000, "the boxes overlap", boxes3 },
                      { "voxelGrid", 60000, 600000, "the triangle traverses more than four voxels", voxelGrid },
                      { "voxelWalks", 150000, 1500000, "the line passes more than three cells", voxelWalks },
                      { "voxelAreas", 40000, 400000, "some cell's centre is well inside", voxelAreas },
                  });
    return r.main(argc, argv);
}
