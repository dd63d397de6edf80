// What a model should look like in a layer, and what was printed there
#ifndef VERIF_ENGINE_GEO_H
#define VERIF_ENGINE_GEO_H
#include "engine_gen.h"

namespace eng
{
struct V2
{
    double x = 0, y = 0;
};
inline double segDist(V2 p, V2 a, V2 b)
{
    const double dx = b.x - a.x, dy = b.y - a.y, l2 = dx * dx + dy * dy;
    const double t = l2 > 0 ? std::clamp(((p.x - a.x) * dx + (p.y - a.y) * dy) / l2, 0.0, 1.0) : 0.0;
    return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy);
}
// Cross-section of a closed mesh
struct Section
{
    std::vector<std::pair<V2, V2>> segs;
    double x0 = 1e9, y0 = 1e9, x1 = -1e9, y1 = -1e9;

    Section() = default;
    Section(const Mesh& m, double z) // mm
    {
        for (const auto& t : m.tris)
        {
            std::vector<V2> cut;
            for (int i = 0; i < 3; i++)
            {
                P3 a = t[i], b = t[(i + 1) % 3];
                if (a.z > b.z)
                {
                    std::swap(a, b); // the same point whichever triangle is looked at
                }
                const double za = a.z / 1000.0, zb = b.z / 1000.0;
                if ((za < z) != (zb < z))
                {
                    const double f = (z - za) / (zb - za);
                    cut.push_back({ (a.x + f * (b.x - a.x)) / 1000.0, (a.y + f * (b.y - a.y)) / 1000.0 });
                }
            }
            if (cut.size() == 2)
            {
                add(cut[0], cut[1]);
            }
        }
    }
    void add(V2 a, V2 b)
    {
        segs.emplace_back(a, b);
        for (V2 p : { a, b })
        {
            x0 = std::min(x0, p.x);
            y0 = std::min(y0, p.y);
            x1 = std::max(x1, p.x);
            y1 = std::max(y1, p.y);
        }
    }
    bool inside(V2 p) const
    {
        bool in = false;
        for (const auto& [a, b] : segs)
        {
            if ((a.y > p.y) != (b.y > p.y) && p.x < a.x + (p.y - a.y) / (b.y - a.y) * (b.x - a.x))
            {
                in = ! in;
            }
        }
        return in;
    }
    double dist(V2 p) const
    {
        double d = 1e9;
        for (const auto& [a, b] : segs)
        {
            d = std::min(d, segDist(p, a, b));
        }
        return d;
    }
    // depth below the surface, negative outside
    double depth(V2 p) const
    {
        return inside(p) ? dist(p) : -dist(p);
    }
    double area() const // by sweeping between the heights of all ends; the section may not cross itself
    {
        std::vector<double> ys;
        for (const auto& [a, b] : segs)
        {
            ys.push_back(a.y);
            ys.push_back(b.y);
        }
        std::sort(ys.begin(), ys.end());
        double sum = 0;
        for (size_t i = 0; i + 1 < ys.size(); i++)
        {
            const double h = ys[i + 1] - ys[i], y = (ys[i + 1] + ys[i]) / 2;
            if (h <= 0)
            {
                continue;
            }
            std::vector<double> xs;
            for (const auto& [a, b] : segs)
            {
                if ((a.y > y) != (b.y > y))
                {
                    xs.push_back(a.x + (y - a.y) / (b.y - a.y) * (b.x - a.x));
                }
            }
            std::sort(xs.begin(), xs.end());
            for (size_t k = 0; k + 1 < xs.size(); k += 2)
            {
                sum += (xs[k + 1] - xs[k]) * h;
            }
        }
        return sum;
    }
};

struct Printed
{
    V2 a, b;
    double w; // width
    double vol, len, f, z;
    std::string type;
    int no, tool;
};
using Layers = std::map<int, std::vector<Printed>>;
// the lines printed in each layer; h0 and h are layer heights in mm
inline Layers printedLines(const GCode& gc, double h0, double h, double filament_area = M_PI / 4 * 1.75 * 1.75)
{
    Layers out;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0)
        {
            const double len = v.len();
            const double vol = v.e * filament_area;
            out[v.layer].push_back({ { v.x0, v.y0 }, { v.x, v.y }, len > 0.002 ? vol / len / (v.layer == 0 ? h0 : h) : 0, vol, len, v.f, v.z, v.type, v.no, v.tool });
        }
    }
    return out;
}
// distance from the nearest line, with a filter on the type
template<class F>
inline double nearest(const std::vector<Printed>& ls, V2 p, F&& f, const Printed** which = nullptr)
{
    double d = 1e9;
    for (const Printed& l : ls)
    {
        if (f(l))
        {
            const double e = segDist(p, l.a, l.b);
            if (e < d)
            {
                d = e;
                if (which)
                {
                    *which = &l;
                }
            }
        }
    }
    return d;
}
inline double nearest(const std::vector<Printed>& ls, V2 p)
{
    return nearest(ls, p, [](const Printed&) { return true; });
}
// height at which layer k is cut, mm
inline double sliceZ(int k, double h0, double h)
{
    return k == 0 ? h0 / 2 : h0 + (k - 0.5) * h;
}
} // namespace eng
#endif
