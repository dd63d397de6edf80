// Exact / high-precision planar geometry used as oracle, and generators of planar inputs.
#pragma once
#include <algorithm>
#include <cmath>
#include <set>
#include <vector>

#include "geometry/OpenLinesSet.h"
#include "geometry/OpenPolyline.h"
#include "geometry/Point2LL.h"
#include "geometry/Polygon.h"
#include "geometry/Shape.h"
#include "geometry/SingleShape.h"
#include "pbt.h"

namespace geo
{
using namespace cura;
using cura::coord_t;
using cura::Point2LL;
using cura::Polygon;
using cura::Shape;
using i128 = __int128;
using ld = long double;

inline std::string str(const Point2LL& p)
{
    return pbt::strf("(%lld,%lld)", (long long)p.X, (long long)p.Y);
}
template<class Pts>
inline std::string strPts(const Pts& pts)
{
    std::string s = "[";
    for (const Point2LL& p : pts)
    {
        s += str(p);
    }
    return s + "]";
}
template<class S>
inline std::string strShape(const S& shape)
{
    std::string s = "{";
    for (const auto& l : shape)
    {
        s += strPts(l);
    }
    return s + "}";
}

inline int sgn(i128 v)
{
    return v > 0 ? 1 : v < 0 ? -1 : 0;
}
inline i128 crossx(const Point2LL& a, const Point2LL& b, const Point2LL& c) // (b-a) x (c-a)
{
    return (i128)(b.X - a.X) * (c.Y - a.Y) - (i128)(b.Y - a.Y) * (c.X - a.X);
}
inline ld dist(const Point2LL& a, const Point2LL& b)
{
    return std::hypot((ld)(a.X - b.X), (ld)(a.Y - b.Y));
}
// Distance from a point to a segment, and the parameter of the closest point.
inline ld distSeg(ld px, ld py, const Point2LL& a, const Point2LL& b, ld* t_out = nullptr)
{
    const ld dx = b.X - a.X, dy = b.Y - a.Y;
    const ld l2 = dx * dx + dy * dy;
    ld t = l2 == 0 ? 0 : ((px - a.X) * dx + (py - a.Y) * dy) / l2;
    t = std::max((ld)0, std::min((ld)1, t));
    if (t_out)
    {
        *t_out = t;
    }
    return std::hypot(px - (a.X + t * dx), py - (a.Y + t * dy));
}
inline ld distSeg(const Point2LL& p, const Point2LL& a, const Point2LL& b, ld* t_out = nullptr)
{
    return distSeg((ld)p.X, (ld)p.Y, a, b, t_out);
}
inline bool onSeg(const Point2LL& p, const Point2LL& a, const Point2LL& b)
{
    return crossx(a, b, p) == 0 && std::min(a.X, b.X) <= p.X && p.X <= std::max(a.X, b.X) && std::min(a.Y, b.Y) <= p.Y && p.Y <= std::max(a.Y, b.Y);
}
// Do the closed segments share a point? (exact)
inline bool segsTouch(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d)
{
    const int s1 = sgn(crossx(a, b, c)), s2 = sgn(crossx(a, b, d)), s3 = sgn(crossx(c, d, a)), s4 = sgn(crossx(c, d, b));
    if (s1 * s2 < 0 && s3 * s4 < 0)
    {
        return true;
    }
    return onSeg(c, a, b) || onSeg(d, a, b) || onSeg(a, c, d) || onSeg(b, c, d);
}
inline ld distSegSeg(const Point2LL& a, const Point2LL& b, const Point2LL& c, const Point2LL& d)
{
    if (segsTouch(a, b, c, d))
    {
        return 0;
    }
    return std::min(std::min(distSeg(a, c, d), distSeg(b, c, d)), std::min(distSeg(c, a, b), distSeg(d, a, b)));
}

// Winding number of a closed ring around p; on_border set if p lies on an edge. Exact.
template<class Ring>
inline int winding(const Ring& ring, const Point2LL& p, bool& on_border)
{
    int w = 0;
    const size_t n = ring.size();
    for (size_t i = 0; i < n; i++)
    {
        const Point2LL& a = ring[i];
        const Point2LL& b = ring[(i + 1) % n];
        if (onSeg(p, a, b))
        {
            on_border = true;
        }
        if (a.Y <= p.Y)
        {
            if (b.Y > p.Y && crossx(a, b, p) > 0)
            {
                w++;
            }
        }
        else if (b.Y <= p.Y && crossx(a, b, p) < 0)
        {
            w--;
        }
    }
    return w;
}
// Even-odd membership: 1 inside, 0 outside, -1 on the border. Exact.
template<class S>
inline int evenOdd(const S& shape, const Point2LL& p)
{
    bool border = false;
    int w = 0;
    for (const auto& poly : shape)
    {
        w += winding(poly, p, border);
    }
    // winding parity equals crossing parity
    return border ? -1 : (w & 1) ? 1 : 0;
}
template<class S>
inline int windingSum(const S& shape, const Point2LL& p, bool& border)
{
    int w = 0;
    for (const auto& poly : shape)
    {
        w += winding(poly, p, border);
    }
    return w;
}
// Distance of p to the nearest edge of the shape.
template<class S>
inline ld borderDist(const S& shape, ld x, ld y)
{
    ld d = 1e30L;
    for (const auto& poly : shape)
    {
        const size_t n = poly.size();
        for (size_t i = 0; i < n; i++)
        {
            d = std::min(d, distSeg(x, y, poly[i], poly[(i + 1) % n]));
        }
    }
    return d;
}
template<class S>
inline ld borderDist(const S& shape, const Point2LL& p)
{
    return borderDist(shape, (ld)p.X, (ld)p.Y);
}
template<class S>
inline ld openDist(const S& lines, const Point2LL& p)
{
    ld d = 1e30L;
    for (const auto& line : lines)
    {
        if (line.size() == 1)
        {
            d = std::min(d, dist(p, line[0]));
        }
        for (size_t i = 0; i + 1 < line.size(); i++)
        {
            d = std::min(d, distSeg(p, line[i], line[i + 1]));
        }
    }
    return d;
}
template<class Ring>
inline ld ringArea(const Ring& r)
{
    i128 a = 0;
    const size_t n = r.size();
    for (size_t i = 0; i < n; i++)
    {
        a += (i128)r[i].X * r[(i + 1) % n].Y - (i128)r[i].Y * r[(i + 1) % n].X;
    }
    return (ld)a / 2;
}
template<class S>
inline ld shapeArea(const S& s)
{
    ld a = 0;
    for (const auto& r : s)
    {
        a += ringArea(r);
    }
    return a;
}
template<class S>
inline ld perimeter(const S& s)
{
    ld a = 0;
    for (const auto& r : s)
    {
        for (size_t i = 0; i < r.size(); i++)
        {
            a += dist(r[i], r[(i + 1) % r.size()]);
        }
    }
    return a;
}
template<class S>
inline size_t countPts(const S& s)
{
    size_t n = 0;
    for (const auto& r : s)
    {
        n += r.size();
    }
    return n;
}
struct Box
{
    coord_t x0 = INT64_MAX, y0 = INT64_MAX, x1 = INT64_MIN, y1 = INT64_MIN;
    void add(const Point2LL& p)
    {
        x0 = std::min(x0, p.X);
        y0 = std::min(y0, p.Y);
        x1 = std::max(x1, p.X);
        y1 = std::max(y1, p.Y);
    }
    template<class S>
    void addShape(const S& s)
    {
        for (const auto& r : s)
        {
            for (const Point2LL& p : r)
            {
                add(p);
            }
        }
    }
    bool valid() const
    {
        return x0 <= x1;
    }
};

// Is the ring simple (no two edges touch except neighbours at their shared corner)?
template<class Ring>
inline bool ringSimple(const Ring& r)
{
    const size_t n = r.size();
    if (n < 3)
    {
        return false;
    }
    for (size_t i = 0; i < n; i++)
    {
        if (r[i] == r[(i + 1) % n])
        {
            return false;
        }
        // neighbours must not fold back
        if (crossx(r[i], r[(i + 1) % n], r[(i + 2) % n]) == 0)
        {
            const Point2LL u = r[(i + 1) % n] - r[i], v = r[(i + 2) % n] - r[(i + 1) % n];
            if ((i128)u.X * v.X + (i128)u.Y * v.Y < 0)
            {
                return false;
            }
        }
        for (size_t j = i + 2; j < n; j++)
        {
            if (i == 0 && j == n - 1)
            {
                continue;
            }
            if (segsTouch(r[i], r[(i + 1) % n], r[j], r[(j + 1) % n]))
            {
                return false;
            }
        }
    }
    return true;
}

// ---- generators -------------------------------------------------------------------------------------------------

inline Point2LL genPoint(pbt::Gen& g, coord_t range)
{
    return Point2LL(g.around(range), g.around(range));
}
// Grid-aligned or free point: small grids make coincidences (collinear, touching, equal) common.
inline Point2LL genPointMixed(pbt::Gen& g, coord_t range, coord_t grid)
{
    if (grid <= 1)
    {
        return genPoint(g, range);
    }
    const coord_t k = std::max<coord_t>(1, range / grid);
    return Point2LL(g.around(k) * grid, g.around(k) * grid);
}
inline std::vector<Point2LL> genStar(pbt::Gen& g, Point2LL c, coord_t rmin, coord_t rmax, int nmin = 3, int nmax = 16)
{
    const int n = g.range(nmin, nmax);
    std::vector<Point2LL> pts;
    const ld phase = g.real(0, 1);
    for (int i = 0; i < n; i++)
    {
        const ld ang = 2 * M_PIl * (i + phase * 0.9L + 0.05L) / n;
        const ld r = rmin + (rmax - rmin) * g.real(0, 1);
        pts.emplace_back(c.X + std::llround(r * std::cos(ang)), c.Y + std::llround(r * std::sin(ang)));
    }
    return pts;
}
inline std::vector<Point2LL> genRect(pbt::Gen& g, Point2LL c, coord_t hmax)
{
    const coord_t w = g.range(std::max<coord_t>(1, hmax / 10), hmax), h = g.range(std::max<coord_t>(1, hmax / 10), hmax);
    return { { c.X - w, c.Y - h }, { c.X + w, c.Y - h }, { c.X + w, c.Y + h }, { c.X - w, c.Y + h } };
}
// Rectilinear staircase / comb outline: many thin parts and concavities.
inline std::vector<Point2LL> genComb(pbt::Gen& g, Point2LL c, coord_t size)
{
    const int teeth = g.range(1, 5);
    const coord_t w = std::max<coord_t>(4, size / (2 * teeth));
    std::vector<Point2LL> pts;
    const coord_t x0 = c.X - size / 2, y0 = c.Y - size / 2;
    pts.emplace_back(x0, y0);
    pts.emplace_back(x0 + w * (2 * teeth - 1), y0);
    coord_t x = x0 + w * (2 * teeth - 1);
    for (int i = teeth - 1; i >= 0; i--)
    {
        const coord_t h = g.range(size / 4, size);
        pts.emplace_back(x, y0 + h);
        pts.emplace_back(x - w, y0 + h);
        x -= w;
        if (i > 0)
        {
            const coord_t low = g.range(size / 20 + 1, size / 5 + 1);
            pts.emplace_back(x, y0 + low);
            pts.emplace_back(x - w, y0 + low);
            x -= w;
        }
    }
    return pts;
}
inline void reversed(std::vector<Point2LL>& v)
{
    std::reverse(v.begin(), v.end());
}
inline Polygon toPolygon(const std::vector<Point2LL>& pts)
{
    return Polygon(ClipperLib::Path(pts.begin(), pts.end()), false);
}
inline std::vector<Point2LL> rotated(std::vector<Point2LL> pts, Point2LL c, ld ang)
{
    for (Point2LL& p : pts)
    {
        const ld x = p.X - c.X, y = p.Y - c.Y;
        p = Point2LL(c.X + std::llround(x * std::cos(ang) - y * std::sin(ang)), c.Y + std::llround(x * std::sin(ang) + y * std::cos(ang)));
    }
    return pts;
}
// A simple ring (counter-clockwise) of the given scale around c.
inline std::vector<Point2LL> genSimpleRing(pbt::Gen& g, Point2LL c, coord_t scale)
{
    for (int tries = 0; tries < 20; tries++)
    {
        std::vector<Point2LL> r;
        switch (g.draw(4))
        {
        case 0:
            r = genRect(g, c, scale);
            break;
        case 1:
            r = genStar(g, c, scale / 2, scale, 3, 12);
            break;
        case 2:
            r = genStar(g, c, scale / 8 + 1, scale, 5, 24);
            break;
        case 3:
            r = genComb(g, c, scale);
            break;
        default:
            r = genStar(g, c, scale * 9 / 10, scale, 12, 60);
        }
        if (g.chance(1, 2))
        {
            r = rotated(r, c, g.real(0, 6.283));
        }
        if (ringArea(r) < 0)
        {
            reversed(r);
        }
        if (ringSimple(r))
        {
            return r;
        }
    }
    return { { c.X - scale, c.Y - scale }, { c.X + scale, c.Y - scale }, { c.X + scale, c.Y + scale }, { c.X - scale, c.Y + scale } };
}
// Arbitrary polygon soup: may self-intersect, overlap, repeat points. Not normalised.
inline Shape genSoup(pbt::Gen& g, coord_t range, int max_polys = 4, int max_pts = 10)
{
    Shape s;
    const coord_t grid = g.oneof<coord_t>({ 1, range / 8, range / 4, 10 });
    const int n = g.range(1, max_polys);
    for (int i = 0; i < n; i++)
    {
        std::vector<Point2LL> pts;
        if (g.chance(1, 2))
        {
            const int m = g.range(3, max_pts);
            for (int k = 0; k < m; k++)
            {
                pts.push_back(genPointMixed(g, range, grid));
            }
        }
        else
        {
            pts = genSimpleRing(g, genPointMixed(g, range / 2, grid), std::max<coord_t>(10, g.range(range / 10, range / 2)));
            if (g.chance(1, 3))
            {
                reversed(pts);
            }
        }
        s.push_back(toPolygon(pts));
    }
    return s;
}
// Well-formed area: union of simple rings minus simple rings (as the pipeline would hold it).
inline Shape genArea(pbt::Gen& g, coord_t range, int max_pos = 3, int max_neg = 3)
{
    Shape pos;
    const int n = g.range(1, max_pos);
    for (int i = 0; i < n; i++)
    {
        const coord_t sc = std::max<coord_t>(20, g.range(range / 8, range / 2));
        pos.push_back(toPolygon(genSimpleRing(g, genPoint(g, range - sc), sc)));
    }
    pos = pos.unionPolygons(Shape(), ClipperLib::pftNonZero);
    Shape neg;
    const int m = g.range(0, max_neg);
    for (int i = 0; i < m; i++)
    {
        const coord_t sc = std::max<coord_t>(20, g.range(range / 40 + 10, range / 5 + 10));
        neg.push_back(toPolygon(genSimpleRing(g, genPoint(g, range), sc)));
    }
    if (! neg.empty())
    {
        pos = pos.difference(neg.unionPolygons(Shape(), ClipperLib::pftNonZero));
    }
    return pos;
}
// Probe points that matter for membership questions: around corners and edges, and anywhere in the bounding box.
template<class S>
inline Point2LL genProbe(pbt::Gen& g, const S& s, coord_t near)
{
    Box b;
    b.addShape(s);
    if (! b.valid())
    {
        return genPoint(g, 1000);
    }
    if (g.chance(2, 3))
    {
        const auto& poly = s[g.draw(s.size() - 1)];
        if (poly.size() > 0)
        {
            const size_t i = g.draw(poly.size() - 1);
            const Point2LL a = poly[i], c = poly[(i + 1) % poly.size()];
            const ld t = g.oneof<ld>({ 0, 1, 0.5L, g.real(0, 1) });
            return Point2LL(a.X + std::llround(t * (c.X - a.X)) + g.around(near), a.Y + std::llround(t * (c.Y - a.Y)) + g.around(near));
        }
    }
    const coord_t m = near + 2;
    return Point2LL(g.range(b.x0 - m, b.x1 + m), g.range(b.y0 - m, b.y1 + m));
}

} // namespace geo
