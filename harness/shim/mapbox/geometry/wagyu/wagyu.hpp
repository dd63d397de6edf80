// Stand-in for mapbox wagyu (not installable offline), used by one function (Shape::removeNearSelfIntersections). The polygon clipping is done with ClipperLib instead.
#ifndef SHIM_WAGYU_HPP
#define SHIM_WAGYU_HPP
#include <polyclipping/clipper.hpp>
#include <vector>
namespace mapbox::geometry
{
template<class T>
struct point
{
    T x, y;
};
template<class T>
struct linear_ring : std::vector<point<T>>
{
    using std::vector<point<T>>::vector;
    linear_ring(std::vector<point<T>>&& o)
        : std::vector<point<T>>(std::move(o))
    {
    }
};
template<class T>
using polygon = std::vector<linear_ring<T>>;
template<class T>
using multi_polygon = std::vector<polygon<T>>;
namespace wagyu
{
enum clip_type
{
    clip_type_union
};
enum fill_type
{
    fill_type_even_odd
};
template<class T>
class wagyu
{
    ClipperLib::Paths paths_;

public:
    bool add_ring(const linear_ring<T>& r)
    {
        ClipperLib::Path p;
        for (auto& q : r)
            p.emplace_back(q.x, q.y);
        paths_.push_back(std::move(p));
        return true;
    }
    void execute(clip_type, multi_polygon<T>& out, fill_type, fill_type)
    {
        ClipperLib::Clipper c(ClipperLib::ioStrictlySimple);
        c.AddPaths(paths_, ClipperLib::ptSubject, true);
        ClipperLib::Paths ret;
        c.Execute(ClipperLib::ctUnion, ret, ClipperLib::pftEvenOdd, ClipperLib::pftEvenOdd);
        for (auto& p : ret)
        {
            polygon<T> poly(1);
            for (auto& q : p)
                poly[0].push_back({ q.X, q.Y });
            if (! p.empty())
                poly[0].push_back({ p[0].X, p[0].Y }); // wagyu rings are explicitly closed
            out.push_back(std::move(poly));
        }
    }
};
} // namespace wagyu
} // namespace mapbox::geometry
#endif
