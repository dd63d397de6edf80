// Generators of models and settings for runs of the whole engine
#ifndef VERIF_ENGINE_GEN_H
#define VERIF_ENGINE_GEN_H
#include "engine.h"

namespace eng
{
using pbt::Gen;

inline Pts ringAt(const Pts& r, Point2LL c, double scale, Point2LL move = Point2LL(0, 0))
{
    Pts o;
    for (const Point2LL& p : r)
    {
        o.emplace_back(c.X + move.X + std::llround((p.X - c.X) * scale), c.Y + move.Y + std::llround((p.Y - c.Y) * scale));
    }
    return o;
}
// A closed solid of the given half width around c, from z 0 to about h
inline Mesh genSolid(Gen& g, Point2LL c, coord_t half, coord_t h, std::string* what = nullptr, int kind_limit = 6)
{
    Mesh m;
    const int kind = g.draw(kind_limit);
    const Pts ring = kind == 0 ? Pts{ Point2LL(c.X - half, c.Y - half), Point2LL(c.X + half, c.Y - half), Point2LL(c.X + half, c.Y + half), Point2LL(c.X - half, c.Y + half) } : genSimpleRing(g, c, half);
    std::string d;
    switch (kind)
    {
    case 0:
    case 1:
        m.loft({ ring, ring }, { 0, h });
        d = "prism";
        break;
    case 2: // prism with a hole
    {
        m.loft({ ring, ring }, { 0, h });
        Pts hole = genStar(g, c, half / 8, half / 3, 4, 12);
        if (ringArea(hole) > 0)
        {
            reversed(hole);
        }
        cura::Shape s;
        s.push_back(toPolygon(ring));
        bool in = true;
        for (size_t i = 0; i < hole.size(); i++)
        {
            in &= evenOdd(s, hole[i]) == 1 && borderDist(s, hole[i]) > 800;
            for (size_t k = 0; k < ring.size(); k++)
            {
                in &= ! segsTouch(hole[i], hole[(i + 1) % hole.size()], ring[k], ring[(k + 1) % ring.size()]);
            }
        }
        if (in)
        {
            m.loft({ hole, hole }, { 0, h });
            d = "prism with a hole " + strPts(hole);
        }
        else
        {
            d = "prism";
        }
        break;
    }
    case 3: // tapered
    {
        const double s = g.real(0.2, 1.0);
        m.loft({ ring, ringAt(ring, c, s) }, { 0, h });
        d = "frustum to " + num(s);
        break;
    }
    case 4: // several tiers, some of them overhanging
    {
        const int n = g.range(2, 4);
        std::vector<Pts> rs;
        std::vector<long long> zs;
        for (int i = 0; i <= n; i++)
        {
            const double s = i == 0 ? 1.0 : g.real(0.4, 1.0);
            d += " x" + num(s);
            rs.push_back(ringAt(ring, c, s));
            zs.push_back(h * i / n);
        }
        m.loft(rs, zs);
        d = "tiers" + d;
        break;
    }
    case 5: // a step
    {
        const coord_t z = g.range(1, 9) * h / 10;
        const double s = g.real(0.3, 0.9);
        const bool over = g.flip();
        const Pts small = ringAt(ring, c, s);
        m.loft(over ? std::vector<Pts>{ small, small, ring, ring } : std::vector<Pts>{ ring, ring, small, small }, { 0, z, z, h });
        d = std::string(over ? "overhang" : "step") + " at " + mm(z) + " of " + num(s);
        break;
    }
    default: // two solids, overlapping or apart
    {
        m.loft({ ring, ring }, { 0, h });
        const Point2LL c2 = c + genPoint(g, half);
        const Pts r2 = genSimpleRing(g, c2, half / 2);
        const coord_t h2 = g.range(h / 3, h);
        m.loft({ r2, r2 }, { 0, h2 });
        d = "prism and " + strPts(r2) + " to " + mm(h2);
    }
    }
    if (what)
    {
        *what += d + " " + strPts(ring) + " h " + mm(h) + "; ";
    }
    return m;
}

// Settings that change how, not what is printed
inline void genPrintSettings(Gen& g, Job& j)
{
    auto maybe = [&](const char* k, std::vector<std::string> vs)
    {
        if (g.chance(1, 2))
        {
            j.set(k, g.pick(vs));
        }
    };
    const coord_t lw = g.oneof<coord_t>({ 400, 400, 300, 600 });
    j.lineWidth(lw);
    j.layerHeight(g.oneof<coord_t>({ 200, 100, 150, 300 }), g.oneof<coord_t>({ 200, 270, 300 }));
    j.set("wall_line_count", num(g.range(0, 3)));
    j.set("top_layers", num(g.range(0, 3)));
    j.set("bottom_layers", num(g.range(0, 3)));
    j.set("initial_bottom_layers", j.get("bottom_layers"));
    j.set("infill_line_distance", g.oneof<std::string>({ "0", "0.8", "2", "4", mm(lw) }));
    j.set("infill_pattern", g.oneof<std::string>({ "lines", "grid", "triangles", "trihexagon", "cubic", "tetrahedral", "quarter_cubic", "cubicsubdiv", "concentric", "zigzag", "cross", "cross_3d", "gyroid", "lightning", "honeycomb", "octagon" }));
    if (const std::string p = j.get("infill_pattern"); (p == "gyroid" || p == "honeycomb" || p == "octagon") && j.getD("infill_line_distance") > 0 && j.getD("infill_line_distance") < 0.8)
    {
        j.set("infill_line_distance", "0.8"); // takes minutes otherwise
    }
    maybe("top_bottom_pattern", { "lines", "concentric", "zigzag" });
    maybe("top_bottom_pattern_0", { "lines", "concentric", "zigzag" });
    maybe("zig_zaggify_infill", { "True" });
    maybe("connect_infill_polygons", { "True" });
    maybe("connect_skin_polygons", { "True" });
    maybe("infill_wall_line_count", { "1", "2" });
    maybe("skin_outline_count", { "0", "1", "2" });
    maybe("skin_monotonic", { "False" });
    maybe("retraction_combing", { "off", "all", "no_outer_surfaces", "noskin", "infill" });
    maybe("retraction_min_travel", { "0", "1", "10" });
    maybe("retraction_combing_max_distance", { "0", "5" });
    maybe("z_seam_type", { "back", "shortest", "random", "sharpest_corner" });
    maybe("z_seam_corner", { "z_seam_corner_none", "z_seam_corner_inner", "z_seam_corner_outer", "z_seam_corner_any", "z_seam_corner_weighted" });
    maybe("inset_direction", { "inside_out", "outside_in" });
    maybe("infill_before_walls", { "True" });
    maybe("optimize_wall_printing_order", { "False" });
    maybe("group_outer_walls", { "False" });
    maybe("alternate_extra_perimeter", { "True" });
    maybe("infill_multiplier", { "2" });
    maybe("fill_outline_gaps", { "False" });
    maybe("bridge_settings_enabled", { "False" });
    maybe("infill_enable_travel_optimization", { "True" });
    maybe("meshfix_fluid_motion_enabled", { "False" });
    maybe("travel_retract_before_outer_wall", { "True" });
    maybe("speed_slowdown_layers", { "0", "3" });
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
}
} // namespace eng
#endif
