// G13 several extruders
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

struct Tool
{
    double print, first, initial, final, standby, retract, prime, diameter, ox, oy, tower_volume;
    bool shift;
};
struct Part
{
    Pts ring;
    coord_t h;
    std::map<std::string, int> by; // feature -> tool
};
struct Setup
{
    Job job = plainJob();
    std::vector<Tool> tools;
    std::vector<Part> parts;
    std::string what;
    double h0, h, lw;
    bool tower = false;
    double tx = 0, ty = 0, tr = 0, bridge = 5;
};
static const std::pair<const char*, const char*> FEATURES[] = { { "WALL-OUTER", "wall_0_extruder_nr" }, { "WALL-INNER", "wall_x_extruder_nr" }, { "FILL", "infill_extruder_nr" }, { "SKIN", "top_bottom_extruder_nr" } };

static Setup setup(Case& c)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job;
    j.lineWidth(g.oneof<coord_t>({ 400, 600 }));
    j.layerHeight(g.oneof<coord_t>({ 200, 300 }), g.oneof<coord_t>({ 300, 350 }));
    s.h0 = j.getD("layer_height_0");
    s.h = j.getD("layer_height");
    s.lw = j.getD("line_width");
    j.set("wall_line_count", num(g.range(1, 3)));
    j.set("top_layers", num(g.range(0, 2)));
    j.set("bottom_layers", num(g.range(0, 2)));
    j.set("initial_bottom_layers", j.get("bottom_layers"));
    j.set("infill_line_distance", g.oneof<std::string>({ "0", "2", "4" }));
    j.set("infill_pattern", "grid");
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("z_seam_type", g.oneof<std::string>({ "back", "shortest", "sharpest_corner" }));
    j.set("retraction_enable", g.flip() ? "True" : "False");
    j.set("retraction_combing", g.oneof<std::string>({ "off", "all" }));
    j.set("adhesion_type", g.oneof<std::string>({ "none", "none", "skirt", "brim" }));
    j.set("skirt_brim_minimal_length", "50");
    j.set("machine_nozzle_temp_enabled", "True");
    j.set("machine_heated_bed", "False");
    j.set("material_print_temp_prepend", "True");
    j.set("material_print_temp_wait", "True");
    j.set("cool_min_layer_time", g.oneof<std::string>({ "0", "0", "10" }));
    const bool relative = g.chance(1, 4);
    j.set("relative_extrusion", relative ? "True" : "False");
    const int n = g.range(2, 3);
    j.set("machine_extruder_count", num(n));
    const bool use_offsets = g.flip();
    j.set("machine_use_extruder_offset_to_offset_coords", use_offsets ? "True" : "False");
    j.extruders.clear();
    for (int e = 0; e < n; e++)
    {
        Tool t;
        t.print = 200 + 10 * e;
        t.first = t.print + g.range(0, 3);
        t.initial = t.print - g.range(0, 8);
        t.final = t.print - g.range(0, 9);
        t.standby = g.oneof<double>({ 150.0 + e, 180.0 + e, t.print - 20 });
        t.retract = g.oneof<double>({ 0, 4, 16 });
        t.prime = g.oneof<double>({ 0, 0, 1.5 });
        t.diameter = g.oneof<double>({ 1.75, 2.85 });
        t.ox = e && use_offsets ? g.oneof<double>({ 0, 18, 22.5 }) : 0;
        t.oy = e && use_offsets ? g.oneof<double>({ 0, -3.25 }) : 0;
        t.tower_volume = g.oneof<double>({ 2, 6, 15 });
        s.tools.push_back(t);
        Sets x;
        x["material_print_temperature"] = num(t.print);
        x["material_print_temperature_layer_0"] = num(t.first);
        x["material_initial_print_temperature"] = num(t.initial);
        x["material_final_print_temperature"] = num(t.final);
        x["material_standby_temperature"] = num(t.standby);
        x["material_diameter"] = num(t.diameter);
        x["switch_extruder_retraction_amount"] = num(t.retract);
        x["switch_extruder_extra_prime_amount"] = num(t.prime);
        x["cool_min_temperature"] = num(t.print);
        x["machine_nozzle_offset_x"] = num(t.ox);
        x["machine_nozzle_offset_y"] = num(t.oy);
        x["machine_extruder_start_code"] = ";begin " + num(e);
        x["machine_extruder_end_code"] = ";finish " + num(e);
        x["prime_tower_min_volume"] = num(t.tower_volume);
        x["extruder_nr"] = num(e);
        j.extruders.push_back(x);
    }
    const int m = g.range(1, 3);
    for (int i = 0; i < m; i++)
    {
        Part p;
        const Point2LL at((i - 1) * 30000, g.around(5000));
        const coord_t half = g.range(2500, 9000);
        p.ring = genStar(g, at, half * 2 / 3, half, 4, 9);
        if (ringArea(p.ring) < 0)
        {
            reversed(p.ring);
        }
        p.h = g.range(500, 3000);
        const int own = g.draw(n - 1);
        Model mo;
        mo.settings["extruder_nr"] = num(own);
        for (const auto& [type, key] : FEATURES)
        {
            p.by[type] = own;
            if (g.chance(1, 3))
            {
                p.by[type] = g.draw(n - 1);
                mo.settings[key] = num(p.by[type]);
            }
        }
        Mesh me;
        me.loft({ p.ring, p.ring }, { 0, p.h });
        mo.file = me.stl();
        j.groups[0].push_back(mo);
        s.what += "prism " + strPts(p.ring) + " h " + mm(p.h) + "; ";
        s.parts.push_back(p);
    }
    s.tower = g.flip();
    if (s.tower)
    {
        j.set("prime_tower_enable", "True");
        j.set("prime_tower_mode", g.oneof<std::string>({ "normal", "interleaved" }));
        const double size = g.oneof<double>({ 20, 30 });
        s.tr = size / 2;
        s.tx = 60;
        s.ty = g.range(-30, 30);
        s.bridge = g.oneof<double>({ 3, 5, 8 });
        j.set("prime_tower_size", num(size));
        j.set("prime_tower_position_x", num(s.tx + s.tr));
        j.set("prime_tower_position_y", num(s.ty - s.tr));
        j.set("prime_tower_max_bridging_distance", num(s.bridge));
        j.set("prime_tower_wipe_enabled", g.flip() ? "True" : "False");
        j.set("prime_tower_min_shell_thickness", num(s.lw * g.range(1, 3)));
    }
    return s;
}
static int partAt(const Setup& s, V2 p)
{
    int best = -1;
    double d = 1.5;
    for (size_t i = 0; i < s.parts.size(); i++)
    {
        cura::Shape sh;
        sh.push_back(toPolygon(s.parts[i].ring));
        const Point2LL q(std::llround(p.x * 1000), std::llround(p.y * 1000));
        const double e = evenOdd(sh, q) ? 0 : borderDist(sh, q) / 1000;
        if (e < d)
        {
            d = e;
            best = i;
        }
    }
    return best;
}

static void prints(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    c.note("%s%s", s.what.c_str(), describe(j, plainJob()).c_str());
    const Result r = slice(j);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    const GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    const int n = s.tools.size();

    // ---- which extruder prints what, where, and how much
    struct Sum
    {
        double len = 0, vol = 0;
    };
    std::map<std::pair<int, std::string>, Sum> sum;
    std::map<int, std::vector<int>> uses; // per layer the tools in order of use
    int changes = 0;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::TOOL)
        {
            changes++;
        }
        if (v.kind != Ev::MOVE || v.e <= 0 || v.len() < 0.0005)
        {
            continue;
        }
        PBT_CHECK(v.tool >= 0 && v.tool < n, "extruder %d", v.tool);
        const Tool& t = s.tools[v.tool];
        const V2 mid{ (v.x0 + v.x) / 2 + t.ox, (v.y0 + v.y) / 2 + t.oy };
        const double len = v.len(), vol = v.e * M_PI / 4 * t.diameter * t.diameter, hh = v.layer == 0 ? s.h0 : s.h;
        auto& u = uses[v.layer];
        if (u.empty() || u.back() != v.tool)
        {
            u.push_back(v.tool);
        }
        auto& a = sum[{ v.layer, v.type }];
        a.len += len;
        a.vol += vol;
        if (v.type == "PRIME-TOWER" || v.type == "SKIRT")
        {
            continue;
        }
        const int i = partAt(s, mid);
        PBT_CHECK(i >= 0, "line %d: %s at (%.3f,%.3f), where no model is", v.no, v.type.c_str(), mid.x, mid.y);
        const Part& p = s.parts[i];
        auto it = p.by.find(v.type);
        PBT_CHECK(it != p.by.end(), "line %d: %s", v.no, v.type.c_str());
        PBT_CHECK(it->second == v.tool, "line %d: %s of part %d is printed by extruder %d, not %d", v.no, v.type.c_str(), i, v.tool, it->second);
        if (len > 0.5 && v.type != "FILL" && v.type != "SKIN")
        {
            PBT_CHECK(vol / len / hh > 0.4 * s.lw && vol / len / hh < 2.1 * s.lw, "line %d: %s of width %.3f", v.no, v.type.c_str(), vol / len / hh);
        }
    }
    // ---- each extruder once per layer, the one of the layer before first
    int last = -1;
    for (const auto& [k, u] : uses)
    {
        std::set<int> once(u.begin(), u.end());
        PBT_CHECK(once.size() == u.size(), "layer %d: %zu extruders take %zu turns", k, once.size(), u.size());
        last = u.back();
    }
    // ---- changing extruders
    std::vector<double> at(n, 0), temp(n, -1);
    std::vector<bool> begun(n, false), used(n, false), ready(n, false);
    int tool = 0;
    bool fresh = false, first = true;
    std::string seen; // since the last extrusion
    for (const Ev& v : gc.ev)
    {
        switch (v.kind)
        {
        case Ev::COMMENT:
            if (v.text.starts_with(";begin ") || v.text.starts_with(";finish "))
            {
                seen += v.text[1] == 'b' ? "b" : "f";
                seen += v.text.back();
            }
            break;
        case Ev::TOOL:
            tool = v.value;
            PBT_CHECK(tool >= 0 && tool < n, "T%d", tool);
            seen += "T" + num(tool);
            fresh = true;
            break;
        case Ev::TEMP:
        {
            const int which = v.arg >= 0 ? v.arg : tool;
            PBT_CHECK(which < n, "%s", v.text.c_str());
            const Tool& t = s.tools[which];
            temp[which] = v.value;
            const double x = v.value;
            PBT_CHECK(x == 0 || x == t.print || x == t.first || x == t.initial || x == t.final || x == t.standby || (x > t.standby && x < std::max(t.print, t.first)), "line %d: %s: not a temperature of that extruder", v.no, v.text.c_str());
            break;
        }
        case Ev::FILAMENT:
        case Ev::MOVE:
        {
            if (v.e == 0)
            {
                break;
            }
            const Tool& t = s.tools[tool];
            if (v.kind == Ev::FILAMENT || v.e < 0 || std::hypot(v.x - v.x0, v.y - v.y0) < 0.0005)
            {
                at[tool] += v.e;
                break;
            }
            // extruding
            if (fresh || first)
            {
                if (! first && last != tool)
                {
                    // (sometimes over an extruder that turns out to have nothing to print)
                    std::string expect;
                    for (int from = last, k = 0; k < n && expect.size() < seen.size(); k++)
                    {
                        const int to = expect.size() + 3 < seen.size() ? seen[expect.size() + 3] - '0' : tool;
                        expect += "f" + num(from) + "T" + num(to) + "b" + num(to);
                        PBT_CHECK(to != from, "line %d: from extruder %d to %d", v.no, from, to);
                        from = to;
                    }
                    PBT_CHECK(seen == expect && seen.ends_with(num(tool)), "line %d: from extruder %d to %d: %s", v.no, last, tool, seen.c_str());
                    PBT_CHECK(std::fabs(at[last] + s.tools[last].retract) < 0.0011 || s.tools[last].retract == 0 || j.get("retraction_enable") == "False", "line %d: extruder %d is left with the filament at %.4f, not %.4f", v.no, last, at[last], -s.tools[last].retract);
                }
                PBT_CHECK(temp[tool] >= std::min({ t.print, t.first, t.initial, t.final }) - 0.01, "line %d: extruder %d prints at %.1f degrees", v.no, tool, temp[tool]);
                const bool extra = ! first && fresh && std::stod(j.get("retraction_amount")) > 0 && j.get("retraction_enable") != "False";
                const double prime = extra ? t.prime / (M_PI / 4 * t.diameter * t.diameter) : 0;
                PBT_CHECK(std::fabs(at[tool] - prime) < 0.0011 || ! used[tool], "line %d: extruder %d starts with the filament at %.4f, not %.4f", v.no, tool, at[tool], prime);
                at[tool] = 0;
                fresh = false;
                first = false;
            }
            else
            {
                PBT_CHECK(std::fabs(at[tool]) < 0.0011, "line %d: extruder %d prints with the filament at %.4f", v.no, tool, at[tool]);
                at[tool] = 0;
            }
            PBT_CHECK(temp[tool] > t.standby || t.standby >= t.final, "line %d: extruder %d prints at its standby temperature", v.no, tool);
            used[tool] = true;
            last = tool;
            seen.clear();
            break;
        }
        default:;
        }
    }
    (void)begun;
    (void)ready;
    // ---- prime tower
    std::set<int> all;
    int top = -1; // the last layer with a change
    for (const auto& [k, u] : uses)
    {
        std::set<int> real;
        all.insert(u.begin(), u.end());
    }
    {
        int tool_before = -1;
        for (const auto& [k, u] : uses)
        {
            if (u.size() > 1 || (tool_before >= 0 && u[0] != tool_before))
            {
                top = k;
            }
            tool_before = u.back();
        }
    }
    if (s.tower && all.size() > 1)
    {
        std::map<int, std::vector<Printed>> tower;
        std::map<std::pair<int, int>, double> vol;
        std::set<std::pair<int, int>> prints; // more than the tower
        int prev = -1, fresh_tool = -1, fresh_layer = 0;
        for (const Ev& v : gc.ev)
        {
            if (v.kind != Ev::MOVE || v.e <= 0 || v.len() < 0.0005)
            {
                continue;
            }
            const Tool& t = s.tools[v.tool];
            const double x0 = v.x0 + t.ox, y0 = v.y0 + t.oy, x = v.x + t.ox, y = v.y + t.oy;
            if (v.tool != prev)
            {
                if (prev >= 0)
                {
                    fresh_tool = v.tool;
                    fresh_layer = v.layer;
                }
                prev = v.tool;
            }
            if (v.type == "PRIME-TOWER")
            {
                vol[{ v.layer, v.tool }] += v.e * M_PI / 4 * t.diameter * t.diameter;
                tower[v.layer].push_back({ { x0, y0 }, { x, y }, 0, 0, v.len(), 0, 0, v.type, v.no, v.tool });
                const double d = std::max(std::hypot(x0 - s.tx, y0 - s.ty), std::hypot(x - s.tx, y - s.ty));
                PBT_CHECK(d < s.tr - s.lw / 2 + 0.03, "line %d: the prime tower at (%.3f,%.3f), %.3f from its middle", v.no, x, y, d);
                fresh_tool = -1;
            }
            else if (v.type != "SKIRT")
            {
                prints.insert({ v.layer, v.tool });
                PBT_CHECK(fresh_tool < 0, "line %d: extruder %d prints %s before the prime tower (layer %d)", v.no, v.tool, v.type.c_str(), fresh_layer);
            }
        }
        for (int k = 0; k <= top; k++)
        {
            PBT_CHECK(tower.count(k), "no prime tower in layer %d; there is a change of extruders in layer %d", k, top);
        }
        const double full = M_PI * (s.tr * s.tr) * s.h * 0.9;
        for (const auto& [k, u] : uses)
        {
            for (size_t i = 1; i < u.size(); i++)
            {
                const double want = s.tools[u[i]].tower_volume;
                double got = vol[{ k, u[i] }];
                PBT_CHECK(! prints.count({ k, u[i] }) || got >= std::min(want, full / 3) - 0.05, "layer %d: extruder %d primes %.3f mm3, not %.3f", k, u[i], got, want);
            }
        }
        for (const auto& [k, lines] : tower)
        {
            if (! k)
            {
                continue;
            }
            PBT_CHECK(tower.count(k - 1), "the prime tower floats in layer %d", k);
            for (int i = 0; i < 6; i++)
            {
                const Printed& l = g.pick(lines);
                const V2 p{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
                const double d = nearest(tower[k - 1], p);
                PBT_CHECK(d < std::max(s.bridge, s.lw) * 0.75 + s.lw, "layer %d: the prime tower at (%.3f,%.3f) is %.3f from the one below", k, p.x, p.y, d);
            }
        }
    }
    else if (! s.tower)
    {
        for (const auto& [k, v] : sum)
        {
            PBT_CHECK(k.second != "PRIME-TOWER", "a prime tower in layer %d", k.first);
        }
    }
    // ---- the same as with one extruder
    Job one = j;
    one.set("machine_extruder_count", "1");
    one.set("prime_tower_enable", "False");
    one.extruders.resize(1);
    for (Model& m : one.groups[0])
    {
        m.settings.clear();
    }
    const Result r1 = slice(one);
    PBT_CHECK(r1.ok(), "with one extruder the engine ended with status %d", r1.status);
    const GCode g1(r1.gcode);
    std::map<std::pair<int, std::string>, Sum> sum1;
    for (const Ev& v : g1.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0 && v.len() > 0.0005)
        {
            auto& a = sum1[{ v.layer, v.type }];
            a.len += v.len();
            a.vol += v.e * M_PI / 4 * s.tools[0].diameter * s.tools[0].diameter;
        }
    }
    for (const auto* m : { &sum, &sum1 })
    {
        for (const auto& [k, x] : *m)
        {
            if (k.second == "PRIME-TOWER" || k.second == "SKIRT")
            {
                continue;
            }
            const Sum &a = sum[k], &b = sum1[k];
            PBT_CHECK(std::fabs(a.vol - b.vol) < 0.02 * b.vol + 0.02, "layer %d: %.4f mm3 of %s, %.4f with one extruder", k.first, a.vol, k.second.c_str(), b.vol);
        }
    }
    if (changes >= 4)
    {
        c.nontrivial();
    }
    c.label(all.size() == 1 ? "one extruder used" : s.tower ? j.get("prime_tower_mode") + " tower" : "no tower");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G13",
                  {
                      { "prints", 1200, 8000, "at least four changes of extruder", prints, 60 },
                  });
    return r.main(argc, argv);
}
