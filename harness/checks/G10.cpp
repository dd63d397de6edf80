// G10 the same job gives the same print, however it is run or encoded
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

// What is printed per layer and feature. The engine breaks ties by the addresses of objects, so the order of printing may
// differ between runs, and with it the places where loops start and what little depends on that.
struct Totals
{
    double vol = 0, len = 0;
};
static std::map<std::pair<int, std::string>, Totals> totals(const GCode& gc)
{
    std::map<std::pair<int, std::string>, Totals> t;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0 && v.layer > -100)
        {
            Totals& k = t[{ v.layer, v.type }];
            k.vol += v.e;
            k.len += std::hypot(v.x - v.x0, v.y - v.y0);
        }
    }
    return t;
}
static void sameTotals(const GCode& a, const GCode& b, double scale, const char* what)
{
    const auto ta = totals(a), tb = totals(b);
    double sum_a = 0, sum_b = 0;
    for (const auto& [k, t] : ta)
    {
        sum_a += t.vol;
        const auto it = tb.find(k);
        if (it == tb.end())
        {
            PBT_CHECK(t.len < 3, "%s: layer %d has %.3f mm of %s and otherwise none", what, k.first, t.len, k.second.c_str());
            continue;
        }
        const double dl = std::fabs(t.len - it->second.len), dv = std::fabs(t.vol * scale - it->second.vol);
        PBT_CHECK(dl < 3 + 0.05 * t.len, "%s: layer %d has %.3f and %.3f mm of %s", what, k.first, t.len, it->second.len, k.second.c_str());
        PBT_CHECK(dv < (0.15 + 0.05 * t.vol) * scale, "%s: layer %d is fed %.5f and %.5f for %s", what, k.first, t.vol * scale, it->second.vol, k.second.c_str());
    }
    for (const auto& [k, t] : tb)
    {
        sum_b += t.vol;
        PBT_CHECK(ta.count(k) || t.len < 3, "%s: layer %d has %.3f mm of %s and otherwise none", what, k.first, t.len, k.second.c_str());
    }
    PBT_CHECK(std::fabs(sum_a * scale - sum_b) < scale * (0.3 + 0.01 * sum_a), "%s: %.5f and %.5f fed", what, sum_a * scale, sum_b);
}
// Some features draw from rand(), which all threads share; those need not repeat
static void withoutChance(Job& j)
{
    if (j.get("z_seam_type") == "random")
    {
        j.set("z_seam_type", "back");
    }
    if (j.get("infill_pattern") == "lightning")
    {
        j.set("infill_pattern", "grid");
    }
    j.set("infill_randomize_start_location", "False");
    j.set("magic_fuzzy_skin_enabled", "False");
}
static Job genJob(Case& c, std::string& what, bool spread)
{
    Gen& g = c.g;
    Job j = plainJob();
    genPrintSettings(g, j);
    withoutChance(j);
    const int n = g.range(1, 3);
    for (int i = 0; i < n; i++)
    {
        const Mesh m = genSolid(g, Point2LL(i * 25000 + g.around(1000), g.around(15000)), g.range(2000, 9000), g.range(300, spread ? 4000 : 2600), &what);
        j.groups[0].push_back({ m.stl(), {} });
    }
    return j;
}

static void threads(Case& c)
{
    Gen& g = c.g;
    std::string what;
    Job j = genJob(c, what, true);
    if (g.chance(1, 3))
    {
        j.set("support_enable", "True");
        j.set("support_angle", "45");
        j.set("support_structure", g.oneof<std::string>({ "normal", "tree" }));
        j.set("support_type", "everywhere");
        j.set("support_infill_rate", "20");
        j.set("support_line_distance", "2");
        j.set("support_pattern", g.oneof<std::string>({ "lines", "zigzag", "grid", "gyroid" }));
    }
    j.set("adhesion_type", g.oneof<std::string>({ "none", "skirt", "brim", "raft" }));
    if (g.chance(1, 4))
    {
        j.set("ironing_enabled", "True");
    }
    if (g.chance(1, 6))
    {
        j.set("magic_spiralize", "True");
    }
    if (g.chance(1, 6))
    {
        j.set("adaptive_layer_height_enabled", "True");
    }
    if (g.chance(1, 6))
    {
        j.set("coasting_enable", "True");
    }
    c.note("%s%s", what.c_str(), describe(j, plainJob()).c_str());
    j.threads = 1;
    const Result a = slice(j);
    PBT_CHECK(a.ok(), "the engine ended with status %d", a.status);
    const GCode gc(a.gcode);
    for (int t : { (int)g.range(2, 8) })
    {
        j.threads = t;
        const Result b = slice(j);
        PBT_CHECK(b.ok(), "the engine ended with status %d with %d threads", b.status, t);
        const GCode gb(b.gcode);
        PBT_CHECK(gc.layer_count == gb.layer_count, "%d and %d layers", gc.layer_count, gb.layer_count);
        sameTotals(gc, gb, 1, ("with one thread and with " + std::to_string(t)).c_str());
    }
    int ext = 0;
    for (const Ev& v : gc.ev)
    {
        ext += v.kind == Ev::MOVE && v.e > 0;
    }
    if (gc.layer_count > 3 && ext > 100)
    {
        c.nontrivial();
    }
    c.label(j.get("adhesion_type"));
}

// The moves of two encodings of the same print
static void encoding(Case& c)
{
    Gen& g = c.g;
    std::string what;
    Job j = genJob(c, what, false);
    j.set("retraction_count_max", "100");
    j.set("machine_gcode_flavor", "RepRap (Marlin/Sprinter)");
    j.set("relative_extrusion", "False");
    Job k = j;
    double scale = 1;
    const int kind = g.draw(3);
    bool digits = false;
    switch (kind)
    {
    case 0:
        k.set("relative_extrusion", "True");
        break;
    case 1:
        k.set("machine_gcode_flavor", g.oneof<std::string>({ "RepRap (RepRap)", "Repetier", "RepRap (Volumetric)" }));
        if (k.get("machine_gcode_flavor") == "RepRap (Volumetric)")
        {
            scale = M_PI / 4 * 1.75 * 1.75;
        }
        break;
    case 2:
    {
        k.set("material_diameter", g.oneof<std::string>({ "2.85", "3", "1" }));
        const double d = k.getD("material_diameter");
        scale = 1.75 * 1.75 / d / d;
        j.set("retraction_enable", "False");
        k.set("retraction_enable", "False");
        digits = true;
        break;
    }
    default:
        k.set("relative_extrusion", "True");
        k.set("machine_gcode_flavor", "Repetier");
        break;
    }
    c.note("%s%s\nsecond: %s, relative %s, diameter %s", what.c_str(), describe(j, plainJob()).c_str(), k.get("machine_gcode_flavor").c_str(), k.get("relative_extrusion").c_str(), k.get("material_diameter").c_str());
    const Result a = slice(j), b = slice(k);
    PBT_CHECK(a.ok() && b.ok(), "the engine ended with status %d and %d", a.status, b.status);
    const GCode ga(a.gcode), gb(b.gcode);
    PBT_CHECK(ga.error.empty() && gb.error.empty(), "%s%s", ga.error.c_str(), gb.error.c_str());
    sameTotals(ga, gb, scale, "first and second");
    size_t ma = 0;
    for (const Ev& v : ga.ev)
    {
        ma += v.kind == Ev::MOVE && v.e > 0;
    }
    (void)digits;
    if (ma > 100)
    {
        c.nontrivial();
    }
    c.label(k.get("machine_gcode_flavor") + (k.get("relative_extrusion") == "True" ? " relative" : "") + (kind == 2 ? " diameter" : ""));
}

// A model placed by settings is the model placed in its file
static void placement(Case& c)
{
    Gen& g = c.g;
    Job j = plainJob();
    genPrintSettings(g, j);
    withoutChance(j);
    std::string what;
    Mesh m = genSolid(g, Point2LL(g.around(3000), g.around(3000)), g.range(2000, 9000), g.range(300, 2600), &what);
    Job k = j;
    const int turns = g.draw(3); // quarter turns around z
    const coord_t dx = g.around(60) * 1000, dy = g.around(60) * 1000, dz = g.chance(1, 3) ? g.range(0, 3) * 500 : 0; // exact as floats
    Sets s;
    s["mesh_position_x"] = mm(dx);
    s["mesh_position_y"] = mm(dy);
    s["mesh_position_z"] = mm(dz);
    static const char* rot[] = { "[[1,0,0],[0,1,0],[0,0,1]]", "[[0,-1,0],[1,0,0],[0,0,1]]", "[[-1,0,0],[0,-1,0],[0,0,1]]", "[[0,1,0],[-1,0,0],[0,0,1]]" };
    j.set("mesh_rotation_matrix", rot[turns]); // must be known when the file is loaded
    j.groups[0].push_back({ m.stl(), s });
    Mesh moved = m;
    for (auto& t : moved.tris)
    {
        for (P3& p : t)
        {
            for (int i = 0; i < turns; i++)
            {
                p = { -p.y, p.x, p.z };
            }
        }
    }
    moved.move(dx, dy, dz);
    k.groups[0].push_back({ moved.stl(), {} });
    c.note("%s%s\nturned %d quarters, moved by %s %s %s", what.c_str(), describe(j, plainJob()).c_str(), turns, mm(dx).c_str(), mm(dy).c_str(), mm(dz).c_str());
    const Result a = slice(j), b = slice(k);
    PBT_CHECK(a.ok() && b.ok(), "the engine ended with status %d and %d", a.status, b.status);
    const GCode ga(a.gcode), gb(b.gcode);
    const double h0 = j.getD("layer_height_0"), h = j.getD("layer_height");
    const Layers la = printedLines(ga, h0, h), lb = printedLines(gb, h0, h);
    PBT_CHECK(la.size() == lb.size(), "%zu and %zu layers", la.size(), lb.size());
    int checked = 0;
    const double lw = j.getD("wall_line_width_0");
    double total = 0, other = 0;
    V2 where{};
    for (const auto& [n, ls] : la)
    {
        PBT_CHECK(lb.count(n), "only one prints layer %d", n);
        const auto& ms = lb.at(n);
        for (int i = 0; i < 12; i++)
        {
            const Printed& l = g.pick(ls);
            if (l.type != "WALL-OUTER")
            {
                continue;
            }
            const V2 mid{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
            const double d = nearest(ms, mid, [](const Printed& q) { return q.type == "WALL-OUTER"; });
            // where details are finer than a line, a micron decides which way a line takes
            PBT_CHECK(d < 0.6 * lw, "layer %d: an outer wall at (%.3f,%.3f) is %.3f from those of the other", n, mid.x, mid.y, d);
            if (d >= 0.05)
            {
                other += l.len;
                where = mid;
            }
            total += l.len;
            checked++;
        }
        double va = 0, vb = 0;
        for (const Printed& l : ls)
        {
            va += l.vol;
        }
        for (const Printed& l : ms)
        {
            vb += l.vol;
        }
        PBT_CHECK(std::fabs(va - vb) < 0.06 * (va + vb) / 2 + 0.05, "layer %d: %f and %f mm3", n, va, vb);
    }
    PBT_CHECK(other <= 0.05 * total + 0.5, "%.2f of %.2f mm of outer walls, as at (%.3f,%.3f), are not where the other has them", other, total, where.x, where.y);
    if (checked > 10)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G10",
                  {
                      { "threads", 800, 10000, "more than three layers and a hundred lines", threads, 120, true },
                      { "encoding", 800, 10000, "more than a hundred moves", encoding, 60 },
                      { "placement", 1000, 10000, "more than ten places on walls compared", placement, 60 },
                  });
    return r.main(argc, argv);
}
