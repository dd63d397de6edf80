// G16 speeds, accelerations, cooling and temperatures
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

struct Setup
{
    Job job;
    Mesh mesh;
    int layers = 0, top = 0, bottom = 0, roofing = 0, flooring = 0;
    bool prisms = true;
    std::string what;
};
static Setup setup(Case& c, bool may_step)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job = plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset", "infill_wipe_dist", "wall_0_wipe_dist", "small_hole_max_size", "small_feature_max_length", "skin_outline_count", "skin_overlap_mm", "infill_overlap_mm" })
    {
        j.set(k, "0");
    }
    j.set("bridge_settings_enabled", "False");
    j.set("coasting_enable", "False");
    j.set("wall_overhang_angle", "90");
    j.set("speed_equalize_flow_width_factor", "0");
    j.set("meshfix_fluid_motion_enabled", "False");
    j.set("skin_preshrink", "0");
    j.set("ironing_enabled", "False");
    j.set("wall_line_count", num(g.range(1, 3)));
    s.layers = g.range(3, 9);
    s.top = g.range(0, 3);
    s.bottom = g.range(0, 3);
    j.set("top_layers", num(s.top));
    j.set("bottom_layers", num(s.bottom));
    j.set("initial_bottom_layers", num(s.bottom));
    j.set("roofing_layer_count", num(g.range(0, 2)));
    j.set("flooring_layer_count", num(g.range(0, 2)));
    s.roofing = std::min<int>(s.top, j.getD("roofing_layer_count"));
    s.flooring = std::min<int>(s.bottom, j.getD("flooring_layer_count"));
    j.set("infill_line_distance", g.oneof<std::string>({ "2", "0", "3" }));
    j.set("infill_pattern", g.oneof<std::string>({ "lines", "grid", "triangles" }));
    j.set("retraction_combing", g.oneof<std::string>({ "off", "all" }));
    j.set("speed_slowdown_layers", num(g.range(0, 4)));
    const int n = g.range(1, 2);
    s.prisms = ! may_step || g.flip();
    for (int i = 0; i < n; i++)
    {
        const coord_t half = g.range(4000, 9000);
        const Point2LL at(i * 22000, 0);
        Pts r = genStar(g, at, half * 2 / 3, half, 4, 9);
        if (ringArea(r) < 0)
        {
            reversed(r);
        }
        const coord_t h = 200 * s.layers;
        if (s.prisms)
        {
            s.mesh.loft({ r, r }, { 0, h });
            s.what += "prism " + strPts(r);
        }
        else
        {
            const coord_t z = 200 * g.range(1, s.layers - 1) + 10;
            const Pts small = ringAt(r, at, g.real(0.2, 0.6));
            s.mesh.loft({ small, small, r, r }, { 0, z, z, h });
            s.what += "overhang at " + mm(z) + " of " + strPts(r) + " from " + strPts(small);
        }
    }
    s.what += " of " + num(s.layers) + " layers; ";
    if (! s.prisms)
    {
        j.set("support_enable", "True");
        j.set("support_structure", "normal");
        j.set("support_roof_enable", g.flip() ? "True" : "False");
        j.set("support_xy_distance", "0.7");
        j.set("support_xy_distance_overhang", "0.2");
    }
    if (g.chance(1, 3))
    {
        j.set("adhesion_type", g.oneof<std::string>({ "skirt", "brim" }));
    }
    Model m;
    m.file = s.mesh.stl();
    j.groups[0].push_back(m);
    return s;
}
static GCode run(Case& c, const Setup& s)
{
    static const Job plain = plainJob();
    c.note("%s", (s.what + describe(s.job, plain)).c_str());
    const Result r = slice(s.job, 60);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}

// How a feature is set to be printed
struct Recipe
{
    double v, a, jerk, flow;
};
static const char* const kinds[] = { "wall_0", "wall_x", "wall_0_roofing", "wall_x_roofing", "wall_0_flooring", "wall_x_flooring", "topbottom", "roofing", "flooring", "infill", "support_infill", "support_roof", "support_bottom" };
static std::string speedName(const std::string& k)
{
    return k == "skirt_brim" ? "skirt_brim_speed" : "speed_" + k;
}
static void genRecipes(Gen& g, Job& j, bool flows)
{
    std::vector<std::string> all(std::begin(kinds), std::end(kinds));
    for (const char* k : { "skirt_brim", "travel", "print_layer_0", "travel_layer_0" })
    {
        all.push_back(k);
    }
    std::set<int> used;
    for (const std::string& k : all)
    {
        int v;
        do
        {
            v = g.range(k.find("travel") == std::string::npos ? 5 : 100, k.find("travel") == std::string::npos ? 90 : 250);
        } while (! used.insert(v).second);
        j.set(speedName(k), num(v));
        j.set("acceleration_" + k, num(g.range(100, 4000)));
        j.set("jerk_" + k, num(g.range(2, 40)));
    }
    if (flows)
    {
        for (auto& [k, v] : j.general)
        {
            if (k.find("material_flow") != std::string::npos && k.find("dependent") == std::string::npos && k.find("graph") == std::string::npos && k.find("temp") == std::string::npos
                && k.find("bridge") == std::string::npos && k.find("skin_support") == std::string::npos)
            {
                v = num(g.range(60, 140));
            }
        }
    }
}
static Recipe recipe(const Job& j, const std::string& k, int layer)
{
    Recipe r{ j.getD(speedName(k)), j.getD("acceleration_" + k), j.getD("jerk_" + k), 1 };
    const auto f = [&](const std::string& n) { return j.getD(n) / 100; };
    if (k.starts_with("wall"))
    {
        const std::string base = k.substr(0, 6);
        r.flow = f(base + "_material_flow" + k.substr(6)) * (layer == 0 ? f(base + "_material_flow_layer_0") : 1);
    }
    else if (k == "topbottom")
    {
        r.flow = f("skin_material_flow") * (layer == 0 ? f("skin_material_flow_layer_0") : 1);
    }
    else if (k != "travel")
    {
        r.flow = f((k == "support_infill" ? "support" : k) + "_material_flow") * (layer == 0 ? f("material_flow_layer_0") : 1);
    }
    const int n = j.getD("speed_slowdown_layers");
    if (layer >= 0 && layer < n && k != "skirt_brim")
    {
        const std::string o = k == "travel" ? "travel_layer_0" : "print_layer_0";
        const double t = 1.0 * layer / n;
        r.v = r.v * t + std::min(r.v, j.getD("speed_" + o)) * (1 - t);
        r.a = r.a * t + std::min(r.a, j.getD("acceleration_" + o)) * (1 - t);
        r.jerk = r.jerk * t + std::min(r.jerk, j.getD("jerk_" + o)) * (1 - t);
    }
    return r;
}
// The features that a line may be of
static std::vector<std::string> featuresOf(const Setup& s, const std::string& type, int layer)
{
    const bool roof = s.roofing > 0 && layer + s.roofing >= s.layers, floor = s.flooring > 0 && layer < s.flooring;
    const bool all = ! s.prisms;
    std::vector<std::string> out;
    if (type == "WALL-OUTER" || type == "WALL-INNER")
    {
        const std::string w = type == "WALL-OUTER" ? "wall_0" : "wall_x";
        if (layer == 0) // (never a surface for the walls)
        {
            return { w };
        }
        if (all || ! roof)
        {
            out.push_back(w); // (near the build plate it may count as filled below)
        }
        if (s.roofing > 0 && (all || roof))
        {
            out.push_back(w + "_roofing");
        }
        if (s.flooring > 0 && (all || (floor && ! roof)))
        {
            out.push_back(w + "_flooring");
        }
    }
    else if (type == "SKIN")
    {
        if (all || ! roof)
        {
            out.push_back("topbottom");
        }
        if (s.roofing > 0 && (all || roof))
        {
            out.push_back("roofing");
        }
        if (s.flooring > 0 && all) // (on the build plate there is no flooring)
        {
            out.push_back("flooring");
        }
    }
    else if (type == "FILL")
    {
        out.push_back("infill");
    }
    else if (type == "SUPPORT")
    {
        out.push_back("support_infill");
    }
    else if (type == "SUPPORT-INTERFACE")
    {
        out.push_back("support_roof");
        out.push_back("support_bottom");
    }
    else if (type == "SKIRT")
    {
        out.push_back("skirt_brim");
    }
    return out;
}

// ---- every feature its own recipe
static void recipes(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, true);
    Job& j = s.job;
    genRecipes(g, j, true);
    j.set("cool_min_layer_time", "0");
    j.set("cool_min_layer_time_overhang", "0");
    const double eq = g.oneof<double>({ 0, 0, 50, 100 });
    j.set("speed_equalize_flow_width_factor", num(eq));
    const bool acc = g.chance(3, 4), jerk = g.chance(3, 4), acc_travel = g.flip(), jerk_travel = g.flip();
    const auto b = [](bool x) { return x ? "True" : "False"; };
    j.set("acceleration_enabled", b(acc));
    j.set("jerk_enabled", b(jerk));
    j.set("acceleration_travel_enabled", b(acc_travel));
    j.set("jerk_travel_enabled", b(jerk_travel));
    j.set("machine_gcode_flavor", g.oneof<std::string>({ "RepRap (Marlin/Sprinter)", "RepRap (RepRap)", "Repetier" }));
    const std::string flavor = j.get("machine_gcode_flavor");
    const GCode gc = run(c, s);
    double pa = -1, ta = -1, jk = -1; // in force
    struct Line
    {
        const Ev* v;
        double pa, ta, jk;
    };
    std::vector<Line> lines;
    for (const Ev& v : gc.ev)
    {
        const auto word = [&](char w)
        {
            const size_t p = v.text.find(std::string(" ") + w);
            return p == std::string::npos ? -1.0 : atof(v.text.c_str() + p + 2);
        };
        if (v.kind == Ev::OTHER)
        {
            if (v.text.starts_with("M204 S"))
            {
                pa = ta = word('S');
            }
            else if (v.text.starts_with("M204 P"))
            {
                pa = word('P');
            }
            else if (v.text.starts_with("M204 T"))
            {
                ta = word('T');
            }
            else if (v.text.starts_with("M201 "))
            {
                pa = word('X');
                PBT_CHECK(word('Y') == pa, "line %d: %s", v.no, v.text.c_str());
            }
            else if (v.text.starts_with("M202 "))
            {
                ta = word('X');
            }
            else if (v.text.starts_with("M205 ") || v.text.starts_with("M207 "))
            {
                jk = word('X');
            }
            else if (v.text.starts_with("M566 "))
            {
                jk = word('X') / 60;
                PBT_CHECK(word('Y') == word('X'), "line %d: %s", v.no, v.text.c_str());
            }
        }
        else if (v.kind == Ev::MOVE && (v.has_x || v.has_y) && v.layer >= 0)
        {
            lines.push_back({ &v, pa, ta, jk });
        }
    }
    PBT_CHECK(acc || (pa < 0 && ta < 0), "accelerations are set, though that is not enabled");
    PBT_CHECK(jerk || jk < 0, "jerks are set, though that is not enabled");
    const bool one = flavor == "RepRap (Marlin/Sprinter)"; // the same for printing and travelling
    std::set<std::string> seen;
    double right[2] = {}, total[2] = {};
    const double area = M_PI / 4 * 1.75 * 1.75;
    for (size_t i = 0; i < lines.size(); i++)
    {
        const Ev& v = *lines[i].v;
        if (v.e > 0)
        {
            const std::vector<std::string> fs = featuresOf(s, v.type, v.layer);
            PBT_CHECK(! fs.empty(), "line %d: a line of %s on layer %d", v.no, v.type.c_str(), v.layer);
            bool ok = false, flow_ok = false;
            std::string want;
            for (const std::string& k : fs)
            {
                const Recipe r = recipe(j, k, v.layer);
                double speed = r.v;
                const double width = v.e * area / v.len() / 0.2 / r.flow;
                double slack = 0.01;
                bool is = ! v.type.starts_with("WALL") && std::fabs(v.f / 60 - speed) < slack;
                if (eq > 0 && ! is)
                {
                    if (v.len() < 0.3 || v.type.starts_with("SUPPORT"))
                    {
                        ok = true; // too short to tell its width, or no telling what it is from the flow
                        continue;
                    }
                    speed *= 1 + (0.4 / width - 1) * eq / 100;
                    slack = 0.01 + speed * 0.006 / v.len() + 0.02 * speed;
                }
                is = is || std::fabs(v.f / 60 - speed) < slack;
                const bool is_a = ! acc || std::fabs(lines[i].pa - r.a) < 0.6;
                const bool is_j = ! jerk || std::fabs(lines[i].jk - r.jerk) < 0.011;
                ok = ok || (is && is_a && is_j);
                flow_ok = flow_ok || (is && std::fabs(width - 0.4) < 0.004 + 0.01 / v.len());
                if (is && is_a && is_j)
                {
                    seen.insert(k);
                }
                want += " " + k + ": " + num(speed) + " mm/s, " + num(r.a) + " mm/s2, jerk " + num(r.jerk) + ";";
            }
            PBT_CHECK(ok, "line %d of %s on layer %d is printed at %.2f mm/s, %.0f mm/s2, jerk %.2f; set:%s", v.no, v.type.c_str(), v.layer, v.f / 60, lines[i].pa, lines[i].jk, want.c_str());
            if (v.len() > 0.5 && s.prisms)
            {
                const bool wall = v.type.starts_with("WALL");
                if (! wall)
                {
                    PBT_CHECK(flow_ok || v.type == "SKIRT", "line %d of %s on layer %d: %.4f mm3/mm is not what is set", v.no, v.type.c_str(), v.layer, v.e * area / v.len());
                }
                total[wall] += v.len();
                right[wall] += flow_ok ? v.len() : 0;
            }
        }
        else if (v.rapid && v.len() > 0.01)
        {
            // what it leads to
            size_t k = i + 1;
            while (k < lines.size() && ! (lines[k].v->e > 0) && lines[k].v->layer == v.layer)
            {
                k++;
            }
            const bool leads = k < lines.size() && lines[k].v->e > 0 && lines[k].v->layer == v.layer;
            const Recipe r = recipe(j, "travel", v.layer);
            PBT_CHECK(std::fabs(v.f / 60 - r.v) < 0.01 || ! leads, "line %d: travels at %.2f mm/s, not %.2f", v.no, v.f / 60, r.v);
            if (! leads)
            {
                continue; // (may belong to the next layer already)
            }
            if (acc)
            {
                const double want = acc_travel ? r.a : lines[k].pa, is = one ? lines[i].pa : lines[i].ta;
                PBT_CHECK(std::fabs(is - want) < 0.6, "line %d: travels at %.0f mm/s2, not %.0f", v.no, is, want);
            }
            if (jerk)
            {
                const double want = jerk_travel ? r.jerk : lines[k].jk;
                PBT_CHECK(std::fabs(lines[i].jk - want) < 0.011, "line %d: travels with a jerk of %.2f, not %.2f", v.no, lines[i].jk, want);
            }
        }
    }
    PBT_CHECK(total[1] < 20 || right[1] > 0.5 * total[1], "of %.1f mm of walls only %.1f have the set width and flow", total[1], right[1]);
    if (seen.size() >= 4)
    {
        c.nontrivial();
    }
}

// ---- several extruders with their own recipes
static void tools(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, false);
    Job& j = s.job;
    // a spool
    const coord_t half = g.range(4000, 9000);
    Pts r = genStar(g, Point2LL(0, 0), half * 2 / 3, half, 4, 9);
    if (ringArea(r) < 0)
    {
        reversed(r);
    }
    const Pts small = ringAt(r, Point2LL(0, 0), g.real(0.2, 0.5));
    const int k1 = g.range(1, 4), k2 = k1 + g.range(3, 8), k3 = k2 + g.range(2, 4);
    s.mesh = Mesh();
    s.mesh.loft({ r, r, small, small, r, r }, { 0, k1 * 200 + 10, k1 * 200 + 10, k2 * 200 + 10, k2 * 200 + 10, k3 * 200 });
    s.what = "spool of " + strPts(r) + " and " + strPts(small) + ", " + num(k1) + ", " + num(k2) + ", " + num(k3) + " layers; ";
    s.layers = k3;
    s.prisms = false;
    j.groups[0].clear();
    j.set("support_enable", "True");
    j.set("support_structure", "normal");
    j.set("support_roof_enable", "True");
    j.set("support_bottom_enable", "True");
    j.set("support_roof_height", "0.4");
    j.set("support_bottom_height", "0.4");
    j.set("support_top_distance", g.oneof<std::string>({ "0", "0.2" }));
    j.set("support_bottom_distance", g.oneof<std::string>({ "0", "0.2" }));
    for (const char* k : { "support_roof_pattern", "support_bottom_pattern" })
    {
        j.set(k, g.oneof<std::string>({ "lines", "grid" }));
    }
    const bool raft = g.flip();
    j.set("adhesion_type", raft ? "raft" : "skirt");
    struct Kind
    {
        const char* name;
        int count;
        double h, w;
    } raftKinds[] = { { "base", 1, 0.3, 0.8 }, { "interface", int(g.range(1, 2)), 0.27, 0.6 }, { "surface", int(g.range(1, 2)), 0.22, 0.5 } };
    for (const Kind& k : raftKinds)
    {
        const std::string n = std::string("raft_") + k.name + "_";
        j.set(n + "thickness", num(k.h));
        j.set(n + "line_width", num(k.w));
        j.set(n + "line_spacing", num(k.w * 1.5));
        j.set(n + "wall_count", "0");
    }
    j.set("raft_interface_layers", num(raftKinds[1].count));
    j.set("raft_surface_layers", num(raftKinds[2].count));
    j.set("cool_min_layer_time", "0");
    j.set("cool_min_layer_time_overhang", "0");
    j.set("cool_fan_enabled", "False");
    j.set("machine_nozzle_temp_enabled", "False");
    j.set("small_skin_width", "0");
    const int n = g.range(2, 3);
    j.set("machine_extruder_count", num(n));
    j.extruders.clear();
    std::vector<Job> per; // what an extruder is set to
    for (int e = 0; e < n; e++)
    {
        Job o = j;
        genRecipes(g, o, true);
        std::set<int> used;
        for (const Kind& k : raftKinds)
        {
            const std::string b = std::string("raft_") + k.name + "_";
            o.set(b + "speed", num(g.range(5, 90)));
            o.set(b + "flow", num(g.range(60, 140)));
        }
        Sets x;
        for (const auto& [k, v] : o.general)
        {
            if (j.get(k) != v)
            {
                x[k] = v;
            }
        }
        x["extruder_nr"] = num(e);
        j.extruders.push_back(x);
        per.push_back(std::move(o));
    }
    const auto any = [&]
    {
        return g.draw(n - 1);
    };
    std::map<std::string, int> by; // which prints what
    Model m;
    m.file = s.mesh.stl();
    const int own = any();
    m.settings["extruder_nr"] = num(own);
    for (const char* k : { "wall_0", "wall_x", "top_bottom", "infill", "roofing", "flooring" })
    {
        by[k] = any();
        m.settings[std::string(k) + "_extruder_nr"] = num(by[k]);
    }
    j.groups[0].push_back(m);
    for (const char* k : { "support_infill", "support_roof", "support_bottom", "skirt_brim", "raft_base", "raft_interface", "raft_surface" })
    {
        by[k] = any();
        j.set(std::string(k) + "_extruder_nr", num(by[k]));
    }
    j.set("support_extruder_nr_layer_0", num(by["support_infill"]));
    const GCode gc = run(c, s);
    const double area = M_PI / 4 * 1.75 * 1.75;
    std::set<int> under;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0 && v.layer < 0)
        {
            under.insert(v.layer);
        }
    }
    const std::vector<int> order(under.begin(), under.end());
    const int rafts = raft ? 1 + raftKinds[1].count + raftKinds[2].count : 0;
    std::map<std::string, std::pair<double, double>> amounts; // right, total
    for (const Ev& v : gc.ev)
    {
        if (v.kind != Ev::MOVE || ! (v.e > 0) || v.len() < 0.002)
        {
            continue;
        }
        const int at = std::find(order.begin(), order.end(), v.layer) - order.begin();
        std::string want;
        bool ok = false;
        if (v.layer < 0 && at < rafts)
        {
            const Kind& k = raftKinds[at == 0 ? 0 : at <= raftKinds[1].count ? 1 : 2];
            const std::string b = std::string("raft_") + k.name;
            const Job& o = per[by[b]];
            if (v.type == "SKIRT")
            {
                continue;
            }
            ok = v.tool == by[b] && std::fabs(v.f / 60 - o.getD(b + "_speed")) < 0.01;
            want = b + ": extruder " + num(by[b]) + ", " + o.get(b + "_speed") + " mm/s";
            const double flow = v.e * area / v.len() / (k.w * k.h);
            amounts[b].second += v.len();
            amounts[b].first += std::fabs(flow - o.getD(b + "_flow") / 100) < 0.005 + 0.02 / v.len() ? v.len() : 0;
        }
        else
        {
            std::string name;
            double good = 0;
            int matches = 0;
            for (const std::string& k : featuresOf(s, v.type, v.layer))
            {
                const bool ofMesh = v.type != "SUPPORT" && v.type != "SUPPORT-INTERFACE" && v.type != "SKIRT";
                const std::string b = ofMesh ? (k == "topbottom" ? "top_bottom" : k.starts_with("wall") ? k.substr(0, 6) : k) : k;
                const int tool = v.type == "SKIRT" ? v.tool : by.at(b); // (all prime themselves with a skirt)
                // (the model takes its settings from its own extruder)
                const Recipe rc = recipe(per[ofMesh ? own : tool], k, v.layer);
                const bool is = std::fabs(v.f / 60 - rc.v) < 0.01;
                if (is && v.tool == tool)
                {
                    ok = true;
                    matches++;
                    if (k == "infill" || k == "topbottom" || k.starts_with("support"))
                    {
                        const double flow = v.e * area / v.len() / (0.4 * 0.2);
                        name = k;
                        good = std::fabs(flow - rc.flow) < 0.005 + 0.02 / v.len() ? v.len() : 0;
                    }
                }
                want += " " + k + ": extruder " + num(tool) + ", " + num(rc.v) + " mm/s;";
            }
            if (matches == 1 && ! name.empty()) // (otherwise no telling which it is)
            {
                amounts[name].first += good;
                amounts[name].second += v.len();
            }
        }
        PBT_CHECK(ok, "line %d of %s on layer %d is printed by extruder %d at %.2f mm/s; set: %s", v.no, v.type.c_str(), v.layer, v.tool, v.f / 60, want.c_str());
    }
    for (const auto& [k, a] : amounts)
    {
        PBT_CHECK(a.second < (k == "topbottom" ? 150 : 10) || a.first > 0.5 * a.second, "of %.1f mm of %s only %.1f have the set flow", a.second, k.c_str(), a.first);
        c.label(k);
    }
    if (amounts.size() >= 3)
    {
        c.nontrivial();
    }
}

// ---- minimum layer time and fans
static void times(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, false);
    Job& j = s.job;
    genRecipes(g, j, false);
    j.set("retraction_enable", g.flip() ? "True" : "False");
    const double T = g.oneof<double>({ 0, 5, 10, 20, 60 }), vmin = g.oneof<double>({ 1, 5, 10, 20 });
    j.set("cool_min_layer_time", num(T));
    j.set("cool_min_layer_time_overhang", num(T));
    j.set("cool_min_speed", num(vmin));
    j.set("cool_min_layer_time_fan_speed_max", num(T + g.oneof<double>({ 0, 5, 20 })));
    const double Tmax = j.getD("cool_min_layer_time_fan_speed_max");
    j.set("cool_fan_enabled", g.chance(5, 6) ? "True" : "False");
    const double f0 = g.range(0, 100), f1 = g.range(0, 100), f2 = g.range(f1, 100);
    j.set("cool_fan_speed_0", num(f0));
    j.set("cool_fan_speed_min", num(f1));
    j.set("cool_fan_speed", num(f1));
    j.set("cool_fan_speed_max", num(f2));
    const int full = g.range(0, 5);
    j.set("cool_fan_full_layer", num(full));
    const bool lift = g.chance(1, 3);
    j.set("cool_lift_head", lift ? "True" : "False");
    j.set("cool_min_temperature", j.get("material_print_temperature"));
    const bool scaled = g.chance(1, 5);
    j.set("machine_scale_fan_speed_zero_to_one", scaled ? "True" : "False");
    const GCode gc = run(c, s);
    const bool fans = j.get("cool_fan_enabled") == "True";
    struct Of
    {
        double time = 0, wait = 0, at_min = 0, lines = 0, slowed = 0;
        std::set<double> fan; // while printing
        double lowest = 1e9;
        bool any = false, pure = true;
    };
    std::map<int, Of> of;
    double fan = 0;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::FAN)
        {
            fan = scaled ? v.value * 100 : v.value / 2.55;
        }
        if (v.layer < 0)
        {
            continue;
        }
        Of& o = of[v.layer];
        if (v.kind == Ev::OTHER && v.text.starts_with("G4 P"))
        {
            o.wait += atof(v.text.c_str() + 4) / 1000;
        }
        if (v.kind == Ev::MOVE)
        {
            const double len = std::hypot(v.len(), v.z - v.z0), t = len / (v.f / 60);
            o.time += v.has_z && std::fabs(v.z - v.z0) > 2 ? 0 : t; // (the head is lifted on top of it)
            if (v.e > 0 && len > 0.002)
            {
                const std::vector<std::string> fs = featuresOf(s, v.type, v.layer);
                double best = 1e9;
                double normal = 0;
                for (const std::string& k : fs)
                {
                    const double n = recipe(j, k, v.layer).v;
                    if (v.f / 60 <= n + 0.01 && n < best)
                    {
                        best = normal = n;
                    }
                }
                PBT_CHECK(normal > 0, "line %d of %s on layer %d is printed at %.2f mm/s, faster than set", v.no, v.type.c_str(), v.layer, v.f / 60);
                o.pure = o.pure && fs.size() == 1;
                PBT_CHECK(v.f / 60 > std::min(normal, vmin) - 0.01, "line %d of %s on layer %d is printed at %.2f mm/s, below the minimum", v.no, v.type.c_str(), v.layer, v.f / 60);
                o.lines += t;
                o.at_min += v.f / 60 < vmin + 0.011 ? t : 0;
                o.slowed += v.f / 60 < normal - 0.02 ? t : 0;
                o.lowest = std::min(o.lowest, v.f / 60);
                o.any = true;
                o.fan.insert(fan);
            }
        }
        else if (v.kind == Ev::FILAMENT)
        {
            o.time += std::fabs(v.e) / (v.f / 60);
        }
    }
    int seen = 0;
    for (const auto& [k, o] : of)
    {
        if (! o.any)
        {
            continue;
        }
        // travels between layers and retractions are counted a little differently
        const double loose = 0.6 + 0.15 * (o.time - o.lines) + 0.01 * o.time;
        const bool all_min = o.at_min > o.lines - 0.001;
        if (o.slowed > 0.001 * o.lines && o.slowed > 0.001)
        {
            seen++;
            PBT_CHECK(o.time < T + loose, "layer %d is slowed down to %.2f s, though %.2f are enough", k, o.time, T);
        }
        PBT_CHECK(all_min || o.time > T - loose, "layer %d takes %.2f s, not at least %.2f, though it could be slower", k, o.time, T);
        if (lift)
        {
            PBT_CHECK(std::fabs(o.wait - std::max(0.0, T - o.time)) < loose, "layer %d takes %.2f of at least %.2f s, the printer waits for %.2f", k, o.time, T, o.wait);
        }
        else
        {
            PBT_CHECK(o.wait == 0, "layer %d: waits for %.2f s", k, o.wait);
        }
        // fans
        if (! fans)
        {
            PBT_CHECK(o.fan.size() == 1 && *o.fan.begin() == 0, "layer %d: a fan is on", k);
            continue;
        }
        double base = f1;
        if (k < full - 1) // (layers are counted from 1 there)
        {
            base = f0 + (f1 - f0) * k / (full - 1);
        }
        double lo = 1e9, hi = -1e9;
        for (double d : { -loose, 0.0, loose })
        {
            const double slope = Tmax - T, t = std::max(o.time + d, 0.0), fr = slope > 0 ? std::clamp((t - T) / slope, 0.0, 1.0) : 1;
            const double f = f2 + (base - f2) * fr;
            lo = std::min(lo, f);
            hi = std::max(hi, f);
        }
        for (double f : o.fan)
        {
            const double one = scaled ? 1.02 : 0.25; // (the last digit)
            PBT_CHECK(f > lo - one && f < hi + one, "layer %d, which takes %.2f s: the fan is at %.2f %%, not between %.2f and %.2f", k, o.time, f, lo, hi);
        }
    }
    if (seen > 0 || T == 0)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G16",
                  { { "recipes", 1500, 15000, "at least 4 features", recipes }, //
                    { "tools", 1000, 10000, "at least 3 features", tools }, //
                    { "times", 1500, 15000, "layers which are slowed down, or no minimum", times } });
    return r.main(argc, argv);
}
