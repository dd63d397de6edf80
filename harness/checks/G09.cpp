// G09 what is printed is the model
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

struct Setup
{
    Job job;
    std::string what;
    Mesh mesh;
    double h0, h, lw;
    long long top = 0;
    coord_t half;
};

// A model that has no thin features but those that genSimpleRing makes
static Setup setup(Case& c)
{
    Gen& g = c.g;
    Setup s;
    s.job = plainJob();
    Job& j = s.job;
    const coord_t lw = g.oneof<coord_t>({ 400, 300, 600 });
    j.lineWidth(lw);
    j.layerHeight(g.oneof<coord_t>({ 200, 150, 300 }), g.oneof<coord_t>({ 200, 270, 300 }));
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("wall_line_count", num(g.range(1, 3)));
    j.set("z_seam_type", g.oneof<std::string>({ "sharpest_corner", "back", "shortest", "random" }));
    j.set("inset_direction", g.oneof<std::string>({ "inside_out", "outside_in" }));
    j.set("optimize_wall_printing_order", g.flip() ? "True" : "False");
    j.set("group_outer_walls", g.flip() ? "True" : "False");
    j.set("bridge_settings_enabled", "False");
    j.set("relative_extrusion", "True");
    j.set("infill_overlap_mm", "0");
    j.set("skin_overlap_mm", "0");
    s.h0 = j.getD("layer_height_0");
    s.h = j.getD("layer_height");
    s.lw = j.getD("line_width");
    s.half = g.range(2000, 8000);
    const Point2LL at(g.around(60000), g.around(60000));
    s.mesh = genSolid(g, at, s.half, g.range(400, 3000), &s.what, 5);
    for (const auto& t : s.mesh.tris)
    {
        for (const P3& p : t)
        {
            s.top = std::max(s.top, p.z);
        }
    }
    j.groups[0].push_back({ s.mesh.stl(), {} });
    return s;
}
static GCode run(Case& c, Setup& s)
{
    const Job plain = plainJob();
    c.note("%s%s", s.what.c_str(), describe(s.job, plain).c_str());
    const Result r = slice(s.job);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}
// layers that the model has
static int layersOf(const Setup& s)
{
    int n = 0;
    while (sliceZ(n, s.h0, s.h) * 1000 < s.top + 2)
    {
        n++;
    }
    return n;
}
// the cut is not through a corner of the model, where rounding decides
static bool clear(const Setup& s, int k)
{
    for (const auto& t : s.mesh.tris)
    {
        for (const P3& p : t)
        {
            if (std::fabs(p.z / 1000.0 - sliceZ(k, s.h0, s.h)) < 0.003)
            {
                return false;
            }
        }
    }
    return true;
}
static V2 probe(Gen& g, const Section& sec)
{
    // mostly near the border
    if (g.chance(1, 2) && ! sec.segs.empty())
    {
        const auto& [a, b] = sec.segs[g.draw(sec.segs.size() - 1)];
        const double t = g.real(0, 1), l = std::hypot(b.x - a.x, b.y - a.y), d = g.real(-1.5, 1.5);
        return { a.x + t * (b.x - a.x) - (l > 0 ? (b.y - a.y) / l * d : 0), a.y + t * (b.y - a.y) + (l > 0 ? (b.x - a.x) / l * d : 0) };
    }
    return { g.real(sec.x0, sec.x1), g.real(sec.y0, sec.y1) };
}
// The engine drops empty first layers: be sure there is something in the first
static void needFirst(Case& c, const Setup& s)
{
    Gen& g = c.g;
    // the engine drops empty first layers
    bool thick = false;
    const Section first(s.mesh, sliceZ(0, s.h0, s.h));
    for (int i = 0; i < 20 && ! thick; i++)
    {
        thick = first.depth(probe(g, first)) > s.lw;
    }
    if (! thick)
    {
        c.discard();
    }
}

// Everything inside is filled, nothing outside
static void solid(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    const std::string how = g.oneof<std::string>({ "skin", "infill" });
    if (how == "skin")
    {
        j.set("top_layers", "1000");
        j.set("bottom_layers", "1000");
        j.set("initial_bottom_layers", "1000");
        j.set("top_bottom_pattern", g.oneof<std::string>({ "lines", "zigzag" }));
        j.set("top_bottom_pattern_0", j.get("top_bottom_pattern"));
        j.set("skin_monotonic", g.flip() ? "True" : "False");
    }
    else
    {
        j.set("top_layers", "0");
        j.set("bottom_layers", "0");
        j.set("initial_bottom_layers", "0");
        j.set("infill_line_distance", num(s.lw));
        j.set("infill_pattern", g.oneof<std::string>({ "lines", "zigzag" }));
        j.set("zig_zaggify_infill", g.flip() ? "True" : "False");
    }
    needFirst(c, s);
    GCode gc = run(c, s);
    const Layers printed = printedLines(gc, s.h0, s.h);
    const int n = layersOf(s);
    for (const auto& [k, ls] : printed)
    {
        PBT_CHECK(k < n, "layer %d of %d", k, n);
    }
    double model = 0, fed = 0;
    for (int k = 0; k < n; k++)
    {
        if (! clear(s, k))
        {
            continue;
        }
        const Section sec(s.mesh, sliceZ(k, s.h0, s.h));
        const std::vector<Printed> none;
        const std::vector<Printed>& ls = printed.count(k) ? printed.at(k) : none;
        const double hk = k == 0 ? s.h0 : s.h;
        const double a = sec.area() * hk;
        double v = 0;
        for (const Printed& l : ls)
        {
            v += l.vol;
        }
        double per = 0;
        for (const auto& [p, q] : sec.segs)
        {
            per += std::hypot(q.x - p.x, q.y - p.y);
        }
        const double thin = sec.area() > 0 ? per * s.lw / sec.area() : 9;
        const bool zz = j.get(how == "skin" ? "top_bottom_pattern" : "infill_pattern") == "zigzag" || j.get("zig_zaggify_infill") == "True"; // overlaps at borders along the lines
        if (sec.area() > 1 && thin < 0.4)
        {
            const double tol = thin < 0.2 ? 0.05 : 0.16;
            PBT_CHECK(v > (1 - (zz ? 0.16 : tol)) * a && (zz || v < (1 + tol) * a), "layer %d has %.4f mm3, of which %.4f are printed", k, a, v);
        }
        model += a;
        fed += v;
        // nothing outside
        for (const Printed& l : ls)
        {
            for (double t : { 0.0, 0.37, 1.0 })
            {
                const V2 p{ l.a.x + t * (l.b.x - l.a.x), l.a.y + t * (l.b.y - l.a.y) };
                const double d = sec.depth(p);
                PBT_CHECK(d > -0.2 * s.lw, "line %d: %s %.3f mm outside the model at (%.3f,%.3f), layer %d", l.no, l.type.c_str(), -d, p.x, p.y, k);
            }
        }
        // everything inside
        for (int i = 0; i < 30; i++)
        {
            const V2 p = probe(g, sec);
            if (sec.depth(p) > 0.75 * s.lw)
            {
                const double d = nearest(ls, p);
                PBT_CHECK(d < (thin < 0.2 ? 1.15 : 1.5) * s.lw, "(%.3f,%.3f), %.3f inside the model in layer %d, is %.3f from all lines", p.x, p.y, sec.depth(p), k, d);
            }
        }
    }
    if (n >= 2 && model > 30 * s.h)
    {
        c.nontrivial();
    }
    c.label(how);
}
// the walls follow the outline, half a line inside it
static void outline(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    j.set("infill_line_distance", "4");
    j.set("top_layers", num(g.draw(2)));
    const double xy = g.oneof<double>({ 0, 0, 0.15, -0.15 }); // horizontal expansion
    j.set("xy_offset", num(xy));
    j.set("xy_offset_layer_0", num(xy));
    needFirst(c, s);
    GCode gc = run(c, s);
    const Layers printed = printedLines(gc, s.h0, s.h);
    const int n = layersOf(s);
    bool seen = false;
    const int walls = atoi(j.get("wall_line_count").c_str());
    for (int k = 0; k < n; k++)
    {
        if (! clear(s, k))
        {
            continue;
        }
        const Section sec(s.mesh, sliceZ(k, s.h0, s.h));
        const std::vector<Printed> none;
        const std::vector<Printed>& ls = printed.count(k) ? printed.at(k) : none;
        for (const Printed& l : ls)
        {
            if (l.type != "WALL-OUTER" || l.len < 0.1)
            {
                continue;
            }
            const double t = g.real(0.1, 0.9);
            const V2 p{ l.a.x + t * (l.b.x - l.a.x), l.a.y + t * (l.b.y - l.a.y) };
            const double d = sec.depth(p) + xy - l.w / 2;
            PBT_CHECK(d < 0.45 * s.lw && d > -0.3 - s.lw / 2, "line %d: outer wall %.3f wide at (%.3f,%.3f) in layer %d is %.3f inside the outline", l.no, l.w, p.x, p.y, k, d + l.w / 2);
        }
        for (int i = 0; i < 20 && ! sec.segs.empty(); i++)
        {
            const auto& [a, b] = sec.segs[g.draw(sec.segs.size() - 1)];
            const double t = g.real(0, 1);
            const V2 p{ a.x + t * (b.x - a.x), a.y + t * (b.y - a.y) };
            const double len = std::hypot(b.x - a.x, b.y - a.y);
            if (len < 2 * s.lw)
            {
                continue;
            }
            // thick enough for all walls here?
            double nx = -(b.y - a.y) / len, ny = (b.x - a.x) / len;
            const double deep = (walls + 1) * s.lw * 1.5 + std::fabs(xy);
            if (sec.depth({ p.x + nx * deep, p.y + ny * deep }) < sec.depth({ p.x - nx * deep, p.y - ny * deep }))
            {
                nx = -nx;
                ny = -ny;
            }
            if (sec.depth({ p.x + nx * deep, p.y + ny * deep }) < deep * 0.98 || std::min(t, 1 - t) * len < s.lw)
            {
                continue;
            }
            seen = true;
            for (int w = 0; w <= walls; w++)
            {
                const double at = (w + 0.5) * s.lw - xy;
                const V2 q{ p.x + nx * at, p.y + ny * at };
                const double d = nearest(ls, q, [&](const Printed& l) { return l.type == (w == 0 ? "WALL-OUTER" : "WALL-INNER"); });
                if (w == walls)
                {
                    PBT_CHECK(d > 0.85 * s.lw, "layer %d has a wall %.3f from (%.3f,%.3f), where wall %d would be", k, d, q.x, q.y, w);
                }
                else
                {
                    PBT_CHECK(d < (xy > 0 ? 0.5 : 0.1) * s.lw, "layer %d: (%.3f,%.3f), where wall %d should be, is %.3f from all such walls", k, q.x, q.y, w, d);
                }
            }
        }
    }
    if (seen) c.nontrivial();
}

// Whatever is visible from above or below within the given numbers of layers is closed, and only that
static void surfaces(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    const int top = g.range(0, 4), bottom = g.range(0, 4);
    j.set("top_layers", num(top));
    j.set("bottom_layers", num(bottom));
    j.set("initial_bottom_layers", num(bottom));
    for (const char* k : { "top_skin_preshrink", "bottom_skin_preshrink", "top_skin_expand_distance", "bottom_skin_expand_distance" })
    {
        j.set(k, "0");
    }
    const bool narrow = g.flip();
    j.set("small_skin_width", narrow ? num(2 * s.lw) : "0");
    j.set("skin_no_small_gaps_heuristic", g.flip() ? "True" : "False");
    j.set("top_bottom_pattern", g.oneof<std::string>({ "lines", "zigzag", "concentric" }));
    j.set("top_bottom_pattern_0", j.get("top_bottom_pattern"));
    j.set("skin_outline_count", num(g.draw(2)));
    j.set("roofing_layer_count", num(std::min(top, (int)g.draw(2))));
    j.set("flooring_layer_count", num(std::min(bottom, (int)g.draw(2))));
    j.set("infill_line_distance", "60");
    j.set("infill_pattern", "grid");
    needFirst(c, s);
    GCode gc = run(c, s);
    const Layers printed = printedLines(gc, s.h0, s.h);
    const int n = layersOf(s);
    std::vector<Section> secs;
    for (int k = 0; k < n; k++)
    {
        if (! clear(s, k))
        {
            c.discard();
        }
        secs.emplace_back(s.mesh, sliceZ(k, s.h0, s.h));
    }
    // the least depth in the layers that decide whether there is skin; the heuristic looks at the furthest layer only
    const bool heuristic = j.get("skin_no_small_gaps_heuristic") == "True";
    auto cover = [&](V2 p, int k)
    {
        double d = 1e9;
        for (int i = heuristic && top > 0 ? top : 1; i <= top; i++)
        {
            d = std::min(d, k + i < n ? secs[k + i].depth(p) : -99.0);
        }
        for (int i = heuristic && bottom > 0 ? bottom : 1; i <= bottom; i++)
        {
            d = std::min(d, k - i >= 0 ? secs[k - i].depth(p) : -99.0);
        }
        return d;
    };
    int exposed = 0, hidden = 0;
    for (int k = 0; k < n; k++)
    {
        const std::vector<Printed> none;
        const std::vector<Printed>& ls = printed.count(k) ? printed.at(k) : none;
        for (int i = 0; i < 15; i++)
        {
            const V2 p = probe(g, secs[k]);
            if (secs[k].depth(p) > 0.75 * s.lw && cover(p, k) < -0.75 * s.lw)
            {
                exposed++;
                const double d = nearest(ls, p);
                PBT_CHECK(d < 2.2 * s.lw, "layer %d: (%.3f,%.3f), %.3f inside and exposed, is %.3f from all lines", k, p.x, p.y, secs[k].depth(p), d);
            }
        }
        for (const Printed& l : ls)
        {
            if (l.type == "SKIN")
            {
                hidden++;
                const V2 p{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
                PBT_CHECK(cover(p, k) < 4 * s.lw, "line %d: skin at (%.3f,%.3f) in layer %d, which is covered on all sides", l.no, p.x, p.y, k);
            }
        }
    }
    if (exposed > 0 && n > top + bottom)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G09",
                  {
                      { "solid", 6000, 20000, "at least two layers of 30 mm2", solid, 60 },
                      { "outline", 3000, 20000, "printed", outline, 60 },
                      { "surfaces", 3000, 20000, "more layers than skins, something exposed", surfaces, 60 },
                  });
    return r.main(argc, argv);
}
