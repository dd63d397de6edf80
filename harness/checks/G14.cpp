// G14 infill
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

struct Setup
{
    Job job = plainJob();
    Pts ring, hole;
    Mesh mesh;
    std::string what;
    double h0, h, lw, ld;
    int walls, layers;
    V2 mid; // of the model
    Section sec;
};

static Setup setup(Case& c, int min_layers, int max_layers, bool skins)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job;
    j.lineWidth(g.oneof<coord_t>({ 400, 350, 500 }));
    const coord_t h = g.oneof<coord_t>({ 200, 150, 300 });
    j.layerHeight(h, g.oneof<coord_t>({ h, 270 }));
    s.h0 = j.getD("layer_height_0");
    s.h = j.getD("layer_height");
    s.lw = j.getD("line_width");
    s.walls = g.range(0, 2);
    j.set("wall_line_count", num(s.walls));
    if (! skins)
    {
        j.set("top_layers", "0");
        j.set("bottom_layers", "0");
        j.set("initial_bottom_layers", "0");
    }
    const coord_t ld = g.range(1000, 5000);
    s.ld = ld / 1000.0;
    j.set("infill_line_distance", mm(ld));
    j.set("infill_overlap_mm", "0");
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("hole_xy_offset", "0");
    j.set("infill_multiplier", "1");
    j.set("infill_wall_line_count", "0");
    j.set("gradual_infill_steps", "0");
    j.set("zig_zaggify_infill", "False");
    j.set("min_infill_area", "0");
    j.set("minimum_infill_area", "0");
    j.set("minimum_infill_line_length", "0");
    j.set("infill_wipe_dist", "0");
    j.set("skin_edge_support_thickness", "0");
    j.set("skin_support_density", "0");
    j.set("retraction_combing", g.oneof<std::string>({ "off", "all" }));
    const coord_t half = g.range(7000, 15000);
    const Point2LL at(g.around(20000), g.around(20000));
    s.ring = genStar(g, at, half * 2 / 3, half, 4, 9);
    if (ringArea(s.ring) < 0)
    {
        reversed(s.ring);
    }
    s.layers = g.range(min_layers, max_layers);
    const coord_t top = static_cast<coord_t>(std::llround(s.h0 * 1000)) + (s.layers - 1) * h + h / 4; // (a layer is cut halfway its height)
    s.mesh.loft({ s.ring, s.ring }, { 0, top });
    if (g.chance(1, 3))
    {
        s.hole = genStar(g, at, half / 5, half / 3, 3, 6);
        if (ringArea(s.hole) > 0)
        {
            reversed(s.hole);
        }
    }
    coord_t x0 = s.ring[0].X, x1 = x0, y0 = s.ring[0].Y, y1 = y0;
    for (const Point2LL& p : s.ring)
    {
        x0 = std::min(x0, p.X), x1 = std::max(x1, p.X), y0 = std::min(y0, p.Y), y1 = std::max(y1, p.Y);
    }
    s.mid = { (x0 + x1) / 2 / 1000.0, (y0 + y1) / 2 / 1000.0 };
    s.what = "prism " + strPts(s.ring) + " of " + num(s.layers) + " layers; ";
    Model m;
    m.file = s.mesh.stl();
    j.groups[0].push_back(m);
    s.sec = Section(s.mesh, s.h0 / 2);
    return s;
}
static GCode run(Case& c, const Setup& s, const Job& j)
{
    static const Job plain = plainJob();
    c.note("%s", (s.what + describe(j, plain)).c_str());
    const Result r = slice(j, 100);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}
static std::string angles(Gen& g, std::vector<double>& out)
{
    std::string t = "[";
    const int n = g.range(1, 3);
    for (int i = 0; i < n; i++)
    {
        out.push_back(g.flip() ? g.oneof<double>({ 0, 45, 90, 135, 30 }) : g.range(-180, 180));
        t += (i ? "," : "") + num(static_cast<long long>(out.back()));
    }
    return t + "]";
}

// Straight patterns: which lines are where
struct Family
{
    double angle, d, shift; // lines at n.(p - origin) = shift mod d
};
static std::vector<Family> families(const std::string& pattern, double a, double ld, double z, double lw)
{
    if (pattern == "grid")
    {
        return { { a, ld, 0 }, { a + 90, ld, 0 } };
    }
    if (pattern == "triangles")
    {
        return { { a, ld, 0 }, { a + 60, ld, 0 }, { a + 120, ld, 0 } };
    }
    if (pattern == "trihexagon")
    {
        return { { a, ld, 0 }, { a + 60, ld, 0 }, { a + 120, ld, ld / 2 } };
    }
    if (pattern == "cubic") // the sections of a stack of cubes that stand on their corners
    {
        return { { a, ld, z / std::sqrt(2) }, { a + 120, ld, z / std::sqrt(2) }, { a + 240, ld, z / std::sqrt(2) } };
    }
    if (pattern == "tetrahedral" || pattern == "quarter_cubic")
    {
        std::vector<Family> f;
        for (int i = 0; i < 2; i++)
        {
            const double period = 2 * ld, high = pattern == "quarter_cubic" && i ? z + period : z;
            double t = std::fmod(high / std::sqrt(2), period);
            t = std::min(t, period - t);
            t = std::clamp(t, lw / 2, ld - lw / 2);
            f.push_back({ a + 90 * i, period, ld + t });
            f.push_back({ a + 90 * i, period, ld - t });
        }
        return f;
    }
    return { { a, ld, 0 } };
}
static void straight(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 2, 8, false);
    Job& j = s.job;
    const std::string pattern = g.oneof<std::string>({ "lines", "grid", "triangles", "trihexagon", "cubic", "tetrahedral", "quarter_cubic", "zigzag" });
    j.set("infill_pattern", pattern);
    std::vector<double> as;
    const std::string at = angles(g, as);
    if (g.chance(1, 4))
    {
        as = { 45 };
        if (pattern == "lines" || pattern == "zigzag")
        {
            as.push_back(135);
        }
        j.set("infill_angles", "[ ]");
    }
    else
    {
        j.set("infill_angles", at);
    }
    const double ox = g.chance(1, 3) ? g.range(-3000, 3000) / 1000.0 : 0, oy = g.chance(1, 3) ? g.range(-3000, 3000) / 1000.0 : 0;
    j.set("infill_offset_x", mm(std::llround(ox * 1000)));
    j.set("infill_offset_y", mm(std::llround(oy * 1000)));
    const double overlap = g.oneof<double>({ 0, 0, 0.1, -0.1 });
    j.set("infill_overlap_mm", num(overlap));
    const bool zz = pattern == "zigzag" || g.chance(1, 4);
    j.set("zig_zaggify_infill", zz ? "True" : "False");
    c.label(pattern.c_str());
    const GCode gc = run(c, s, j);
    const Layers printed = printedLines(gc, s.h0, s.h);
    const double edge = s.walls * s.lw; // how deep the infill begins
    const V2 origin{ s.mid.x + ox, s.mid.y + oy };
    const double tol = zz && pattern != "zigzag" ? s.lw * 0.75 : 0.02; // (where lines cross near the edge their ends are moved)
    int probes = 0;
    for (int k = 0; k < s.layers; k++)
    {
        const double z = s.h0 + k * s.h;
        const std::vector<Family> fs = families(pattern, as[k % as.size()], s.ld, z, s.lw);
        std::vector<Printed> fill;
        if (printed.count(k))
        {
            for (const Printed& l : printed.at(k))
            {
                if (l.type == "FILL" && l.len > 0.002)
                {
                    fill.push_back(l);
                }
            }
        }
        const auto off = [&](const Family& f, V2 p)
        {
            const double r = f.angle * M_PI / 180, q = (p.x - origin.x) * std::cos(r) - (p.y - origin.y) * std::sin(r) - f.shift;
            return q - f.d * std::round(q / f.d);
        };
        // every line is one of the pattern, or a connection along the edge
        for (const Printed& l : fill)
        {
            const V2 mid{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
            const double depth = s.sec.depth(mid);
            PBT_CHECK(depth > edge - overlap - 0.03, "line %d (layer %d): infill at (%.3f,%.3f), at a depth of %.3f", l.no, k, mid.x, mid.y, depth);
            PBT_CHECK(l.w > s.lw * 0.93 && l.w < s.lw * 1.07, "line %d (layer %d): infill of width %.3f", l.no, k, l.w);
            if (depth < edge - overlap + s.lw * 2 || (zz && depth < edge + s.ld) || l.len < 0.3)
            {
                continue;
            }
            bool on = false;
            for (const Family& f : fs)
            {
                on = on || (std::fabs(off(f, l.a)) < tol && std::fabs(off(f, l.b)) < tol && std::fabs(off(f, mid)) < tol);
            }
            PBT_CHECK(on, "line %d (layer %d): infill from (%.3f,%.3f) to (%.3f,%.3f) is not on a line of the pattern", l.no, k, l.a.x, l.a.y, l.b.x, l.b.y);
        }
        // every line of the pattern is there
        for (const Family& f : fs)
        {
            const double r = f.angle * M_PI / 180;
            const V2 n{ std::cos(r), -std::sin(r) }, dir{ std::sin(r), std::cos(r) };
            double lo = 1e9, hi = -1e9, a0 = 1e9, a1 = -1e9;
            for (double x : { s.sec.x0, s.sec.x1 })
            {
                for (double y : { s.sec.y0, s.sec.y1 })
                {
                    const double q = (x - origin.x) * n.x + (y - origin.y) * n.y - f.shift, t = (x - origin.x) * dir.x + (y - origin.y) * dir.y;
                    lo = std::min(lo, q), hi = std::max(hi, q), a0 = std::min(a0, t), a1 = std::max(a1, t);
                }
            }
            for (int i = std::ceil(lo / f.d); i * f.d <= hi; i++)
            {
                std::vector<Printed> mine;
                for (const Printed& l : fill)
                {
                    const V2 m{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
                    if (std::fabs((m.x - origin.x) * n.x + (m.y - origin.y) * n.y - f.shift - i * f.d) < tol + 0.05)
                    {
                        mine.push_back(l);
                    }
                }
                for (double t = a0 + g.real(0, 1); t < a1; t += 0.9)
                {
                    const double q = f.shift + i * f.d;
                    const V2 p{ origin.x + q * n.x + t * dir.x, origin.y + q * n.y + t * dir.y };
                    if (s.sec.depth(p) < edge + s.lw * 1.5 + (pattern == "zigzag" ? 0.6 : zz ? 0.6 * s.ld + 0.3 : 0))
                    {
                        continue;
                    }
                    probes++;
                    PBT_CHECK(nearest(mine, p) < tol + 0.01, "layer %d: no line of the infill (at %.0f degrees) through (%.3f,%.3f)", k, f.angle, p.x, p.y);
                }
            }
        }
    }
    if (probes > 20)
    {
        c.nontrivial();
    }
}

// volumes of infill deeper than d, over all layers
static double deepFill(const Setup& s, const Layers& ls, double d, int only = -1)
{
    double v = 0;
    for (const auto& [k, lines] : ls)
    {
        if (only >= 0 && k != only)
        {
            continue;
        }
        for (const Printed& l : lines)
        {
            if (l.type == "FILL" && l.len > 0)
            {
                const int n = std::max(1, static_cast<int>(l.len / 0.1));
                for (int i = 0; i < n; i++)
                {
                    const double f = (i + 0.5) / n;
                    if (s.sec.depth({ l.a.x + f * (l.b.x - l.a.x), l.a.y + f * (l.b.y - l.a.y) }) > d)
                    {
                        v += l.vol / n;
                    }
                }
            }
        }
    }
    return v;
}
// part of the area deeper than d
static double deepArea(const Setup& s, double d)
{
    int in = 0, all = 0;
    for (double x = s.sec.x0; x < s.sec.x1; x += 0.25)
    {
        for (double y = s.sec.y0; y < s.sec.y1; y += 0.25)
        {
            all++;
            in += s.sec.depth({ x, y }) > d;
        }
    }
    return all ? in * 0.0625 : 0;
}
static const std::vector<std::pair<std::string, double>> CURVED = { { "lines", 1 }, { "grid", 2 }, { "triangles", 3 }, { "trihexagon", 3 }, { "cubic", 3 }, { "tetrahedral", 2 }, { "quarter_cubic", 2 }, { "zigzag", 1 }, { "concentric", 1 }, { "gyroid", 1 }, { "cross", 1 }, { "cross_3d", 1 }, { "honeycomb", 1 }, { "octagon", 1 } };

// Each pattern stays in its area and fills it as densely as set; connecting its lines changes nothing in the middle
static void density(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 3, 12, false);
    Job& j = s.job;
    const auto& [pattern, factor] = g.pick(CURVED);
    j.set("infill_pattern", pattern);
    s.ld = g.range(1000, 3000) / 1000.0;
    j.set("infill_line_distance", num(s.ld));
    std::vector<double> as;
    j.set("infill_angles", g.flip() ? "[ ]" : angles(g, as));
    c.label(pattern.c_str());
    const GCode gc = run(c, s, j);
    const Layers ls = printedLines(gc, s.h0, s.h);
    const double edge = s.walls * s.lw, deep = edge + std::max(1.0, s.ld / 2);
    for (const auto& [k, lines] : ls)
    {
        for (const Printed& l : lines)
        {
            if (l.type == "FILL")
            {
                for (const V2 p : { l.a, V2{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 } })
                {
                    PBT_CHECK(s.sec.depth(p) > edge - 0.05, "line %d (layer %d): infill at (%.3f,%.3f), at a depth of %.3f", l.no, k, p.x, p.y, s.sec.depth(p));
                }
            }
        }
    }
    const double area = deepArea(s, deep), v = deepFill(s, ls, deep), height = s.h0 + (s.layers - 1) * s.h;
    const double want = area * height * factor * s.lw / s.ld;
    static const std::map<std::string, std::pair<double, double>> RANGE{ { "concentric", { 0.72, 1.4 } }, { "cross", { 0.5, 1.3 } }, { "cross_3d", { 0.45, 1.9 } }, { "gyroid", { 0.8, 1.3 } }, { "honeycomb", { 1.0, 1.55 } }, { "octagon", { 1.0, 1.55 } } };
    const auto it = RANGE.find(pattern);
    const auto [lo, hi] = it == RANGE.end() ? std::pair<double, double>(0.84, 1.18) : it->second;
    if (area > 60)
    {
        c.nontrivial();
        const double some = 0.5 * std::sqrt(area) * height * s.lw * factor; // half a line for each family, as a line more or less may fit
        PBT_CHECK(v > lo * want - some && v < hi * want + some, "%.3f mm3 of infill deeper than %.2f; the density asks for %.3f", v, deep, want);
    }
    if (pattern == "concentric" || pattern == "zigzag")
    {
        return;
    }
    Job k = j;
    k.set("zig_zaggify_infill", "True");
    const GCode g2 = run(c, s, k);
    const double v2 = deepFill(s, printedLines(g2, s.h0, s.h), deep);
    PBT_CHECK(area <= 60 || std::fabs(v2 - v) < 0.04 * v, "%.3f mm3 of infill deeper than %.2f, %.3f when its lines are connected", v, deep, v2);
}

// Several lines for each, walls around, less of it far from the top, thicker every few layers
static void variants(Case& c)
{
    Gen& g = c.g;
    const std::string what = g.oneof<std::string>({ "multiply", "walls", "gradual", "combine" });
    c.label(what.c_str());
    Setup s = setup(c, 4, what == "gradual" ? 24 : 12, what == "gradual");
    Job& j = s.job;
    s.ld = g.range(1000, 3000) / 1000.0;
    j.set("infill_line_distance", num(s.ld));
    std::vector<std::string> ps{ "lines", "grid", "triangles", "cubic", "gyroid" };
    if (what == "multiply")
    {
        ps = { "lines", "gyroid" };
        s.ld = std::max(s.ld, 2.2);
        j.set("infill_line_distance", num(s.ld));
    }
    const std::string pattern = g.pick(ps);
    j.set("infill_pattern", pattern);
    const double factor = pattern == "grid" ? 2 : pattern == "triangles" || pattern == "cubic" ? 3 : 1, edge = s.walls * s.lw;
    const double deep = edge + std::max(1.0, s.ld / 2), area = deepArea(s, deep);
    if (area < 60)
    {
        c.discard();
    }
    c.nontrivial();
    if (what == "multiply")
    {
        const GCode g1 = run(c, s, j);
        const int m = g.range(2, 4);
        j.set("infill_multiplier", num(m));
        const GCode g2 = run(c, s, j);
        const double v1 = deepFill(s, printedLines(g1, s.h0, s.h), deep), v2 = deepFill(s, printedLines(g2, s.h0, s.h), deep);
        PBT_CHECK(std::fabs(v2 - m * v1) < (pattern == "gyroid" ? 0.2 : 0.13) * m * v1, "%.3f mm3 of infill, with %d lines for each %.3f", v1, m, v2);
        return;
    }
    if (what == "walls")
    {
        const int n = g.range(1, 3);
        j.set("infill_wall_line_count", num(n));
        const GCode gc = run(c, s, j);
        const Layers ls = printedLines(gc, s.h0, s.h);
        for (int k = 0; k < s.layers; k++)
        {
            PBT_CHECK(ls.count(k), "nothing in layer %d", k);
            for (size_t i = 0; i < s.ring.size(); i++)
            {
                const Point2LL a = s.ring[i], b = s.ring[(i + 1) % s.ring.size()];
                const double l = std::hypot(b.X - a.X, b.Y - a.Y), t = g.real(0.3, 0.7);
                for (int w = 0; w < n; w++)
                {
                    const double d = (edge + (w + 0.5) * s.lw);
                    const V2 p{ (a.X + t * (b.X - a.X)) / 1000 - (b.Y - a.Y) / l * d, (a.Y + t * (b.Y - a.Y)) / 1000 + (b.X - a.X) / l * d };
                    if (std::fabs(s.sec.depth(p) - d) > 0.001 || l < 4000)
                    {
                        continue;
                    }
                    const double e = nearest(ls.at(k), p, [](const Printed& q) { return q.type == "FILL"; });
                    PBT_CHECK(e < 0.05, "layer %d: no wall around the infill at (%.3f,%.3f)", k, p.x, p.y);
                }
            }
        }
        const double in = deep + n * s.lw, v = deepFill(s, ls, in), more = deepArea(s, in), want = more * (s.h0 + (s.layers - 1) * s.h) * factor * s.lw / s.ld;
        PBT_CHECK(more < 60 || std::fabs(v - want) < 0.15 * want, "%.3f mm3 of infill within its walls, not %.3f", v, want);
        return;
    }
    if (what == "gradual")
    {
        const int top = g.range(1, 3), bottom = g.range(0, 2), steps = g.range(1, 3), each = g.range(2, 7);
        j.set("top_layers", num(top));
        j.set("bottom_layers", num(bottom));
        j.set("initial_bottom_layers", num(bottom));
        j.set("skin_no_small_gaps_heuristic", "False");
        j.set("gradual_infill_steps", num(steps));
        j.set("gradual_infill_step_height", num(each * s.h));
        if (pattern == "gyroid")
        {
            j.set("infill_pattern", "lines");
        }
        const GCode gc = run(c, s, j);
        const Layers ls = printedLines(gc, s.h0, s.h);
        for (int k = 0; k < s.layers; k++)
        {
            int i = 0;
            while (i < steps && k + (i + 1) * each <= s.layers - 1 - top)
            {
                i++;
            }
            const bool fill = k >= bottom && k <= s.layers - 1 - top;
            const double v = deepFill(s, ls, deep, k), want = fill ? area * (k ? s.h : s.h0) * factor * s.lw / s.ld / (1 << i) : 0, lines = std::sqrt(area) * s.h * s.lw * factor;
            PBT_CHECK(std::fabs(v - want) < 0.15 * want + 1.2 * lines, "layer %d of %d: %.3f mm3 of infill, not %.3f (after %d steps)", k, s.layers, v, want, i);
        }
        return;
    }
    const int m = g.range(2, 3);
    const GCode g1 = run(c, s, j);
    j.set("infill_sparse_thickness", num(m * s.h));
    const GCode g2 = run(c, s, j);
    const Layers l1 = printedLines(g1, s.h0, s.h), l2 = printedLines(g2, s.h0, s.h);
    const int last = (s.layers - 1) / m * m;
    for (int k = 0; k < s.layers; k++)
    {
        const double one = area * s.h * factor * s.lw / s.ld, want = k == 0 ? one / s.h * s.h0 : k > last ? one : k % m ? 0 : m * one, v = deepFill(s, l2, deep, k), lines = std::sqrt(area) * s.h * s.lw * factor * m;
        PBT_CHECK(std::fabs(v - want) < 0.2 * want + lines, "layer %d of %d: %.3f mm3 of infill, not %.3f (every %d layers)", k, s.layers, v, want, m);
    }
    if (pattern != "cubic" && pattern != "gyroid")
    {
        const double v1 = deepFill(s, l1, deep), v2 = deepFill(s, l2, deep);
        PBT_CHECK(std::fabs(v2 - v1) < 0.05 * v1, "%.3f mm3 of infill, %.3f when it is printed every %d layers", v1, v2, m);
    }
}

// Lightning infill is under everything that would hang inside, and stands on what is below
static void lightning(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 8, 50, true);
    Job& j = s.job;
    j.set("infill_pattern", "lightning");
    const int top = g.range(1, 2), bottom = g.range(0, 2);
    j.set("top_layers", num(top));
    j.set("bottom_layers", num(bottom));
    j.set("initial_bottom_layers", num(bottom));
    const double over = g.range(30, 60), prune = g.range(30, 60), straight = g.range(30, 60);
    j.set("lightning_infill_overhang_angle", num(over));
    j.set("lightning_infill_prune_angle", num(prune));
    j.set("lightning_infill_straightening_angle", num(straight));
    const GCode gc = run(c, s, j);
    const Layers ls = printedLines(gc, s.h0, s.h);
    const double edge = s.walls * s.lw, step = s.h * std::max(std::tan(prune * M_PI / 180), std::tan(straight * M_PI / 180)), radius = s.ld / 2 + s.lw / 2;
    const int high = s.layers - 1 - top; // the last layer with infill
    const auto fill = [](const Printed& l) { return l.type == "FILL"; };
    PBT_CHECK(ls.count(high), "nothing in layer %d", high);
    int probes = 0, hang = 0, all = 0;
    double worst = 0;
    for (double x = s.sec.x0; x < s.sec.x1; x += 0.7)
    {
        for (double y = s.sec.y0; y < s.sec.y1; y += 0.7)
        {
            const V2 p{ x, y };
            const double d = s.sec.depth(p) - edge;
            const double reach = std::max(s.ld / 2, s.h * std::tan(over * M_PI / 180));
            if (d > reach + s.lw)
            {
                probes++;
                const double e = nearest(ls.at(high), p, fill);
                PBT_CHECK(e < radius * 1.15, "layer %d: the skin above (%.3f,%.3f) is %.3f from the infill, the infill supports %.3f", high, p.x, p.y, e, radius);
            }
        }
    }
    for (const auto& [k, lines] : ls)
    {
        if (k <= bottom)
        {
            continue;
        }
        for (const Printed& l : lines)
        {
            if (l.type == "FILL")
            {
                PBT_CHECK(k <= high, "line %d: infill in layer %d, above which there is only skin", l.no, k);
                const int n = std::max(1, static_cast<int>(l.len / 0.5));
                for (int i = 0; i <= n; i++)
                {
                    const double f = 1.0 * i / n;
                    const V2 p{ l.a.x + f * (l.b.x - l.a.x), l.a.y + f * (l.b.y - l.a.y) };
                    const double d = s.sec.depth(p) - edge;
                    PBT_CHECK(d > -0.05, "line %d: infill at (%.3f,%.3f), at a depth of %.3f", l.no, p.x, p.y, d + edge);
                    const double e = std::min(d, ls.count(k - 1) ? nearest(ls.at(k - 1), p, fill) : 1e9);
                    all++;
                    const double by = e - step - s.lw / 2;
                    if (by > 0)
                    {
                        hang++;
                        worst = std::max(worst, by);
                    }
                }
            }
        }
    }
    PBT_CHECK(hang <= std::max(6.0, 0.04 * all) && worst < 2.5 + s.ld, "%d of %d places along the infill hang more than %.3f over the infill below, one by %.3f", hang, all, step + s.lw / 2, worst);
    if (probes > 30)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G14",
                  { { "straight", 700, 5000, "more than 20 places where the pattern has a line", straight },
                    { "density", 300, 2500, "an infill area of more than 60 mm2", density },
                    { "variants", 240, 2000, "an infill area of more than 60 mm2", variants },
                    { "lightning", 120, 1000, "more than 30 places deep inside that need support", lightning } });
    return r.main(argc, argv);
}
