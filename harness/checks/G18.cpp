// G18 estimated times, heating times and material
// SOURCES: ALL
#include "engine_geo.h"
#include "engine_gen.h"

#include "ExtruderTrain.h"
#include "Preheat.h"
#include "Slice.h"
#include "timeEstimate.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;
using cura::PrintFeatureType;

// ---------------------------------------------------------------- how long a machine takes
struct Limits
{
    double v[4] = { 300, 300, 40, 45 }, a[4] = { 9000, 9000, 100, 10000 };
    double jerk_xy = 20, jerk_z = 0.4, jerk_e = 5, v_min = 0, acc = 3000;
};
// A machine that speeds up and slows down evenly and may change its speed at once by as much as the jerk
struct Planner
{
    static constexpr double CRAWL = 0.05;
    struct Block
    {
        double d = 0, v = 0, a = 0, junction = 0;
        std::array<double, 4> dir{}; // speeds along the axes
        int feature = 0;
    };
    Limits lim;
    std::array<double, 4> at{};
    std::vector<Block> blocks;
    double extra = 0;
    double fastest = 0; // time at full speed
    double slowest = 0; // time with a stop at each end of each move

    bool on_edge = false; // rounding decides between two plans
    void edge(double a, double b)
    {
        on_edge = on_edge || std::fabs(a - b) <= 1e-5 * b;
    }
    void plan(std::array<double, 4> to, double f, int feature)
    {
        Block b;
        std::array<double, 4> d{};
        double most = 0;
        for (int n = 0; n < 4; n++)
        {
            d[n] = to[n] - at[n];
            most = std::max(most, std::fabs(d[n]));
        }
        if (most == 0)
        {
            return;
        }
        b.feature = feature;
        b.v = std::max(f, lim.v_min);
        b.d = std::hypot(d[0], d[1], d[2]);
        if (b.d == 0)
        {
            b.d = std::fabs(d[3]);
        }
        b.a = lim.acc;
        for (int n = 0; n < 4; n++)
        {
            const double share = std::fabs(d[n]) / b.d;
            if (share * std::max(f, lim.v_min) > lim.v[n])
            {
                b.v = std::min(b.v, lim.v[n] / share);
            }
        }
        for (int n = 0; n < 4; n++)
        {
            b.dir[n] = d[n] / b.d * b.v;
            edge(b.a * std::fabs(d[n]) / b.d, lim.a[n]);
            if (b.a * std::fabs(d[n]) / b.d > lim.a[n])
            {
                b.a = lim.a[n];
            }
        }
        if (blocks.empty() || blocks.back().v <= 0.0001)
        {
            // from standstill
            b.junction = std::min(b.v, lim.jerk_xy / 2);
            edge(std::fabs(b.dir[2]), lim.jerk_z / 2);
            edge(std::fabs(b.dir[3]), lim.jerk_e / 2);
            if (std::fabs(b.dir[2]) > lim.jerk_z / 2)
            {
                b.junction = std::min(b.junction, lim.jerk_z / 2);
            }
            if (std::fabs(b.dir[3]) > lim.jerk_e / 2)
            {
                b.junction = std::min(b.junction, lim.jerk_e / 2);
            }
        }
        else
        {
            const Block& p = blocks.back();
            double k = 1;
            auto limit = [&](double jump, double jerk)
            {
                if (jump > jerk)
                {
                    k = std::min(k, jerk / jump);
                }
            };
            limit(std::hypot(b.dir[0] - p.dir[0], b.dir[1] - p.dir[1]), lim.jerk_xy);
            limit(std::fabs(b.dir[2] - p.dir[2]), lim.jerk_z);
            limit(std::fabs(b.dir[3] - p.dir[3]), lim.jerk_e);
            b.junction = std::min(p.v, b.v * k);
        }
        on_edge = on_edge || b.junction < CRAWL || b.v < CRAWL;
        blocks.push_back(b);
        at = to;
        fastest += b.d / b.v;
        slowest += b.d / b.v + b.v / b.a;
    }
    std::map<int, double> times() const
    {
        std::map<int, double> t;
        t[0] = extra;
        const size_t n = blocks.size();
        std::vector<double> in(n + 1, CRAWL);
        auto reach = [&](double v, const Block& b) { return std::sqrt(v * v + 2 * b.a * b.d); };
        for (size_t i = n; i-- > 0;)
        {
            // the first move starts as slowly as if it would end at a crawl
            in[i] = std::min(blocks[i].junction, reach(i == 0 ? CRAWL : in[i + 1], blocks[i]));
        }
        for (size_t i = 0; i + 1 < n; i++)
        {
            in[i + 1] = std::min(in[i + 1], reach(in[i], blocks[i]));
        }
        for (size_t i = 0; i < n; i++)
        {
            const Block& b = blocks[i];
            const double v0 = in[i], v1 = in[i + 1];
            const double up = (b.v * b.v - v0 * v0) / (2 * b.a), down = (b.v * b.v - v1 * v1) / (2 * b.a);
            double x = 0;
            if (up + down <= b.d)
            {
                x = (b.v - v0) / b.a + (b.v - v1) / b.a + (b.d - up - down) / b.v;
            }
            else
            {
                const double peak = std::sqrt(std::max({ b.a * b.d + (v0 * v0 + v1 * v1) / 2, v0 * v0, v1 * v1 }));
                x = (2 * peak - v0 - v1) / b.a;
                if (v1 > reach(v0, b))
                {
                    x = (reach(v0, b) - v0) / b.a;
                }
            }
            t[b.feature] += x;
        }
        return t;
    }
    void clear()
    {
        blocks.clear();
        extra = 0;
    }
};
static double sum(const std::map<int, double>& m)
{
    double s = 0;
    for (auto& [k, v] : m)
    {
        s += v;
    }
    return s;
}

using cura::TimeEstimateCalculator;
static Limits genLimits(Gen& g)
{
    Limits l;
    auto some = [&](double d) { return g.chance(1, 3) ? d : g.oneof<double>({ 20, 30, 50, 120, 300, 1000, 20000 }); };
    for (int n = 0; n < 4; n++)
    {
        l.v[n] = some(l.v[n]);
        l.a[n] = some(l.a[n]);
    }
    auto jerk = [&](double d) { return g.chance(1, 2) ? d : g.oneof<double>({ 1, 5, 10, 20, 100 }); };
    l.jerk_xy = jerk(20);
    l.jerk_z = jerk(0.4);
    l.jerk_e = jerk(5);
    l.v_min = g.chance(1, 2) ? 0 : g.oneof<double>({ 1, 5, 20 });
    l.acc = some(3000);
    return l;
}
static cura::Settings firmware(const Limits& l)
{
    cura::Settings s;
    const char* ax[4] = { "x", "y", "z", "e" };
    for (int n = 0; n < 4; n++)
    {
        s.add(std::string("machine_max_feedrate_") + ax[n], num(l.v[n]));
        s.add(std::string("machine_max_acceleration_") + ax[n], num(l.a[n]));
    }
    s.add("machine_max_jerk_xy", num(l.jerk_xy));
    s.add("machine_max_jerk_z", num(l.jerk_z));
    s.add("machine_max_jerk_e", num(l.jerk_e));
    s.add("machine_minimum_feedrate", num(l.v_min));
    s.add("machine_acceleration", num(l.acc));
    return s;
}
static void compare(const std::vector<cura::Duration>& got, const std::map<int, double>& want, const char* what)
{
    double total = 0, want_total = sum(want);
    for (size_t k = 0; k < got.size(); k++)
    {
        auto it = want.find(k);
        const double w = it == want.end() ? 0 : it->second;
        PBT_CHECK(std::fabs((double)got[k] - w) <= 1e-4 + 1e-4 * w, "%s: feature %zu takes %.6f s, not %.6f", what, k, (double)got[k], w);
        total += got[k];
    }
    PBT_CHECK(std::fabs(total - want_total) <= 1e-3 + 1e-4 * want_total, "%s: %.6f s in total, not %.6f", what, total, want_total);
}
static void estimate(Case& c)
{
    Gen& g = c.g;
    TimeEstimateCalculator e;
    Planner p;
    p.lim = genLimits(g);
    e.setFirmwareDefaults(firmware(p.lim));
    const int n = g.range(1, 60);
    const int features = static_cast<int>(PrintFeatureType::NumPrintFeatureTypes);
    int moves = 0, segments = 0;
    double heading = g.real(0, 6.2831853);
    c.note("speeds %g %g %g %g, accelerations %g %g %g %g, jerks %g %g %g, at least %g, acceleration %g",
           p.lim.v[0], p.lim.v[1], p.lim.v[2], p.lim.v[3], p.lim.a[0], p.lim.a[1], p.lim.a[2], p.lim.a[3], p.lim.jerk_xy, p.lim.jerk_z, p.lim.jerk_e, p.lim.v_min, p.lim.acc);
    auto go = [&](std::array<double, 4> to, double f, int feature)
    {
        c.note("to %.9g %.9g %.9g %.9g at %g as %d", to[0], to[1], to[2], to[3], f, feature);
        p.plan(to, f, feature);
        if (p.on_edge)
        {
            c.discard();
        }
        e.plan(TimeEstimateCalculator::Position(to[0], to[1], to[2], to[3]), f, static_cast<PrintFeatureType>(feature));
    };
    for (int i = 0; i < n; i++)
    {
        switch (g.range(0, 13))
        {
        case 0:
            p.lim.acc = g.oneof<double>({ 20, 100, 500, 1500, 3000, 10000 });
            c.note("acceleration %g", p.lim.acc);
            e.setAcceleration(p.lim.acc);
            break;
        case 1:
            p.lim.jerk_xy = g.oneof<double>({ 2, 8, 20, 30 });
            c.note("jerk %g", p.lim.jerk_xy);
            e.setMaxXyJerk(p.lim.jerk_xy);
            break;
        case 2:
        {
            const double t = g.range(0, 5000) / 1000.0;
            c.note("wait %g", t);
            p.extra += t;
            e.addTime(t);
            break;
        }
        case 3:
            if (g.chance(1, 3))
            {
                std::array<double, 4> at{ (double)g.range(-50, 50), (double)g.range(-50, 50), (double)g.range(0, 20), (double)g.range(0, 100) };
                c.note("is at %g %g %g %g", at[0], at[1], at[2], at[3]);
                p.at = at;
                e.setPosition(TimeEstimateCalculator::Position(at[0], at[1], at[2], at[3]));
            }
            else if (g.chance(1, 3))
            {
                // a layer
                c.note("layer");
                compare(e.calculate(), p.times(), "at the end of a layer");
                e.reset();
                p.clear();
                segments++;
            }
            else
            {
                c.note("asked");
                compare(e.calculate(), p.times(), "when asked in between");
            }
            break;
        default:
        {
            std::array<double, 4> to = p.at;
            const double len = g.oneof<double>({ 0.005, 0.05, 0.3, 1, 4, 20, 100 }) * g.real(0.5, 1.5);
            const int kind = g.range(0, 7);
            if (kind < 5)
            {
                heading += g.oneof<double>({ 0, 0, 0.05, 0.4, 1.5707963, 3.1415926, -0.8 });
                to[0] += len * std::cos(heading);
                to[1] += len * std::sin(heading);
                if (kind < 3)
                {
                    to[3] += len * g.real(0.01, 0.2);
                }
            }
            if (kind == 5 || (kind == 6 && g.flip()))
            {
                to[2] += g.oneof<double>({ 0.1, 0.2, 1, -1, -0.2 });
            }
            if (kind == 6 || kind == 7)
            {
                to[3] += g.oneof<double>({ -5, 5, -1, 0.8, 3 });
            }
            if (g.chance(1, 30))
            {
                to = p.at;
            }
            go(to, g.oneof<double>({ 4, 8, 21, 40, 63, 150, 370 }), g.range(0, (int64_t)features - 1));
            moves++;
        }
        }
    }
    const auto got = e.calculate();
    PBT_CHECK(got.size() == static_cast<size_t>(features), "%zu features", got.size());
    compare(got, p.times(), "in the end");
    compare(e.calculate(), p.times(), "asked once more");
    // no machine is faster than its speed, nor slower than one that always stops
    double all = 0;
    for (const auto& d : got)
    {
        all += d;
    }
    if (segments == 0)
    {
        PBT_CHECK(all >= p.fastest + p.extra - 1e-4 * (1 + all), "%.6f s, but at full speed it is %.6f", all, p.fastest + p.extra);
        PBT_CHECK(all <= p.slowest + p.extra + 1e-3 * (1 + all) || p.lim.jerk_xy < 0.3, "%.6f s, but even with stops it is %.6f", all, p.slowest + p.extra);
    }
    e.reset();
    for (const auto& d : e.calculate())
    {
        PBT_CHECK(d == 0, "%f s left after a reset", (double)d);
    }
    if (moves > 8)
    {
        c.nontrivial();
    }
    c.label(segments ? "layers" : "one layer");
}

// ---------------------------------------------------------------- when to heat and cool
static void preheat(Case& c)
{
    Gen& g = c.g;
    auto s = std::make_shared<cura::Slice>(1);
    cura::Application::getInstance().current_slice_ = s;
    const int n = g.range(1, 3), e = g.range(0, (int64_t)n - 1);
    s->scene.extruders.reserve(n);
    double heat = 0, cool = 0, mod = 0;
    double print = 0, print_0 = 0;
    for (int i = 0; i < n; i++)
    {
        s->scene.extruders.emplace_back(i, &s->scene.settings);
        cura::Settings& t = s->scene.extruders.back().settings_;
        const double h = g.range(10, 60) / 10.0, k = g.range(3, 50) / 10.0, m = g.range(0, 9) / 10.0 * std::min(h, 1.0);
        const int pt = g.range(170, 280), p0 = g.chance(1, 3) ? 0 : g.range(170, 280);
        t.add("machine_nozzle_heat_up_speed", num(h));
        t.add("machine_nozzle_cool_down_speed", num(k));
        t.add("material_extrusion_cool_down_speed", num(m));
        t.add("material_print_temperature", num(pt));
        t.add("material_print_temperature_layer_0", num(p0));
        if (i == e)
        {
            heat = h;
            cool = k;
            mod = m;
            print = pt;
            print_0 = p0;
        }
    }
    const bool printing = g.flip();
    const double up = printing ? heat - mod : heat, down = printing ? cool + mod : cool;
    cura::Preheat ph;
    const double start = g.range(150, 260), end = g.range(150, 260), window = g.oneof<double>({ 0, 0.5, 2, 10, 30, 100, 600 }) * g.real(0.5, 1.5);
    c.note("heats %g, cools %g, printing %g: %s; %g to %g in %g s", heat, cool, mod, printing ? "yes" : "no", start, end, window);

    PBT_CHECK(ph.getTemp(e, true) == (print_0 != 0 ? print_0 : print), "%g for the first layer", (double)ph.getTemp(e, true));
    PBT_CHECK(ph.getTemp(e, false) == print, "%g for other layers", (double)ph.getTemp(e, false));
    const double t = ph.getTimeToGoFromTempToTemp(e, start, end, printing), want = end > start ? (end - start) / up : (start - end) / down;
    PBT_CHECK(std::fabs(t - want) < 1e-6 * (1 + want), "%.4f s from %g to %g, not %.4f", t, start, end, want);

    // cool down, wait, heat up again
    {
        const double low = std::max(0.0, std::min(start, end) - g.oneof<int>({ 0, 1, 10, 50, 150 }));
        const auto r = ph.getWarmUpPointAfterCoolDown(window, e, start, low, end, printing);
        PBT_CHECK(std::fabs((double)r.total_time_window - window) < 1e-9, "window %f", (double)r.total_time_window);
        const double l = r.lowest_temperature, h = r.heating_time;
        PBT_CHECK(l >= low - 1e-6 && l <= std::min(start, end) + 1e-6, "cools down to %.3f, asked %.3f between %g and %g", l, low, start, end);
        const double direct = end > start ? (end - start) / up : (start - end) / down;
        if (direct > window)
        {
            c.label("no time to cool down");
            PBT_CHECK(h <= window + 1e-6, "heating for %.3f s in %.3f", h, window);
        }
        else
        {
            PBT_CHECK(h >= -1e-9 && h <= window + 1e-6, "heating for %.3f s in %.3f", h, window);
            // hot at the end
            PBT_CHECK(std::fabs(l + h * up - end) < 1e-3, "heating for %.4f s from %.3f gives %.3f, not %g", h, l, l + h * up, end);
            const double cooling = (start - l) / down;
            PBT_CHECK(cooling + h <= window + 1e-3, "cooling %.3f s and heating %.3f s take more than %.3f", cooling, h, window);
            // no warmer than necessary
            PBT_CHECK(l <= low + 1e-3 || cooling + h >= window - 1e-3, "cools down to %.3f only: %.3f s of %.3f used", l, cooling + h, window);
            c.label(l <= low + 1e-3 ? "cools down fully" : "cools down partly");
            c.nontrivial();
        }
    }
    // heat up, wait, cool down again
    {
        const double high = std::max(start, end) + g.oneof<int>({ 0, 1, 10, 50, 150 });
        const auto r = ph.getCoolDownPointAfterWarmUp(window, e, start, high, end, printing);
        PBT_CHECK(std::fabs((double)r.total_time_window - window) < 1e-9, "window %f", (double)r.total_time_window);
        const double l = r.highest_temperature, h = r.cooling_time;
        PBT_CHECK(l <= high + 1e-6 && l >= std::max(start, end) - 1e-6, "heats up to %.3f, asked %.3f above %g and %g", l, high, start, end);
        const double direct = end > start ? (end - start) / up : (start - end) / down;
        if (direct > window)
        {
            PBT_CHECK(h <= window + 1e-6, "cooling for %.3f s in %.3f", h, window);
        }
        else
        {
            PBT_CHECK(h >= -1e-9 && h <= window + 1e-6, "cooling for %.3f s in %.3f", h, window);
            PBT_CHECK(std::fabs(l - h * down - end) < 1e-3, "cooling for %.4f s from %.3f gives %.3f, not %g", h, l, l - h * down, end);
            const double heating = (l - start) / up;
            PBT_CHECK(heating + h <= window + 1e-3, "heating %.3f s and cooling %.3f s take more than %.3f", heating, h, window);
            PBT_CHECK(l >= high - 1e-3 || heating + h >= window - 1e-3, "heats up to %.3f only: %.3f s of %.3f used", l, heating + h, window);
        }
    }
}

// ---------------------------------------------------------------- whole prints
static void print(Case& c)
{
    Gen& g = c.g;
    Job j = plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset" })
    {
        j.set(k, "0");
    }
    const Limits l = genLimits(g);
    const cura::Settings fw = firmware(l);
    for (const auto& k : fw.getKeys())
    {
        j.set(k, fw.get<std::string>(k));
    }
    j.set("machine_max_feedrate_z", num(std::max(10.0, l.v[2])));
    Limits lim = l;
    lim.v[2] = std::max(10.0, l.v[2]);
    const std::string flavor = g.oneof<std::string>({ "RepRap (Marlin/Sprinter)", "RepRap (RepRap)", "Repetier", "RepRap (Volumetric)", "UltiGCode", "Mach3" });
    j.set("machine_gcode_flavor", flavor);
    const bool volumetric = flavor == "RepRap (Volumetric)" || flavor == "UltiGCode";
    const double diameter = g.oneof<double>({ 1.75, 2.85 }), area = M_PI / 4 * diameter * diameter;
    j.set("material_diameter", num(diameter));
    j.set("relative_extrusion", g.chance(1, 3) ? "True" : "False");
    // where prints and travels have accelerations of their own, which one a lift has is up to the printer
    const bool acc = flavor != "RepRap (RepRap)" && flavor != "Repetier" && g.flip(), jerk = g.flip();
    j.set("acceleration_enabled", acc ? "True" : "False");
    j.set("acceleration_travel_enabled", g.flip() ? "True" : "False");
    j.set("jerk_enabled", jerk ? "True" : "False");
    j.set("jerk_travel_enabled", g.flip() ? "True" : "False");
    for (auto& [k, v] : j.general)
    {
        if (k.starts_with("acceleration_") && k.find("enabled") == std::string::npos)
        {
            v = num(g.range(1, 60) * 50);
        }
        if (k.starts_with("jerk_") && k.find("enabled") == std::string::npos)
        {
            v = num(g.range(1, 60) / 2.0);
        }
        if (k.starts_with("speed_") && (k.find("wall") != std::string::npos || k.find("infill") != std::string::npos || k.find("topbottom") != std::string::npos || k.find("travel") != std::string::npos))
        {
            v = num(g.range(10, 150));
        }
    }
    j.set("wall_line_count", num(g.range(1, 3)));
    j.set("infill_line_distance", g.oneof<std::string>({ "0", "2", "4" }));
    j.set("top_layers", num(g.range(0, 2)));
    j.set("bottom_layers", num(g.range(0, 2)));
    j.set("initial_bottom_layers", j.get("bottom_layers"));
    j.set("machine_firmware_retract", "False");
    j.set("retraction_enable", g.chance(3, 4) ? "True" : "False");
    j.set("retraction_hop_enabled", g.chance(1, 3) ? "True" : "False");
    j.set("retraction_extra_prime_amount", g.chance(1, 3) ? "0.05" : "0");
    j.set("retract_at_layer_change", g.flip() ? "True" : "False");
    j.set("cool_min_layer_time", g.chance(1, 2) ? "0" : num(g.range(1, 15)));
    j.set("cool_lift_head", g.chance(1, 3) ? "True" : "False");
    j.set("cool_min_speed", num(g.range(2, 20)));
    if (g.chance(1, 3))
    {
        j.set("adhesion_type", "skirt");
        j.set("skirt_line_count", "1");
    }
    const int n_ext = g.chance(1, 3) ? 2 : 1;
    std::vector<std::array<double, 3>> change(n_ext); // start, end, change
    j.extruders.resize(n_ext);
    for (int e = 0; e < n_ext; e++)
    {
        for (int k = 0; k < 3; k++)
        {
            change[e][k] = g.chance(1, 3) ? 0 : g.range(1, 200) / 10.0;
        }
        j.extruders[e]["machine_extruder_start_code_duration"] = num(change[e][0]);
        j.extruders[e]["machine_extruder_end_code_duration"] = num(change[e][1]);
        j.extruders[e]["machine_extruder_change_duration"] = num(change[e][2]);
        j.extruders[e]["extruder_nr"] = num(e);
    }
    const int layers = g.range(1, 8), n_models = g.range(n_ext > 1 ? 2 : 1, 3);
    const bool one_at_a_time = n_ext == 1 && n_models > 1 && g.chance(1, 3);
    j.set("print_sequence", one_at_a_time ? "one_at_a_time" : "all_at_once");
    j.groups.resize(one_at_a_time ? n_models : 1);
    const coord_t step = g.range(12000, 40000);
    for (int m = 0; m < n_models; m++)
    {
        eng::Mesh ms;
        const Pts r = genSimpleRing(g, Point2LL(0, 0), (coord_t)g.range(3000, 5500));
        Pts at;
        for (const Point2LL& p : r)
        {
            at.push_back(p + Point2LL(m * step - 20000, 0));
        }
        ms.loft({ at, at }, { 0, 200 * layers });
        Model mo{ ms.stl(), {} };
        if (n_ext > 1)
        {
            mo.settings["extruder_nr"] = num(m % n_ext);
        }
        (one_at_a_time ? j.groups[m] : j.groups[0]).push_back(mo);
    }
    j.set("machine_end_gcode", ";end");
    c.note("%s", describe(j, plainJob()).c_str());
    const Result r = slice(j);
    PBT_CHECK(r.ok(), "the engine ends with %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "%s", gc.error.c_str());

    // replay
    // Where a limit is just reached, rounding of the g-code decides: once with slightly lower and once with slightly higher limits
    struct Both
    {
        Planner lo, hi;
        void each(const std::function<void(Planner&)>& f)
        {
            f(lo);
            f(hi);
        }
    } both;
    both.each(
        [&](Planner& p)
        {
            p.lim = lim;
            p.at[2] = 20; // taken to start there
        });
    for (int n = 0; n < 4; n++)
    {
        both.lo.lim.a[n] *= 0.985;
        both.hi.lim.a[n] *= 1.015;
    }
    both.lo.lim.jerk_z *= 0.99;
    both.lo.lim.jerk_e *= 0.99;
    both.hi.lim.jerk_z *= 1.01;
    both.hi.lim.jerk_e *= 1.01;
    double total = 0, elapsed = 0, slack = 0, changes = 0;
    bool started_first = false, seen_z = false;
    int tool = 0, n_layers = 0, groups = 0;
    std::vector<double> fed(n_ext, 0.0); // mm
    // the first extruder's start takes time too, but which one it is shows later only
    std::optional<int> first_tool;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE && v.extrudes())
        {
            first_tool = v.tool;
            break;
        }
    }
    if (! first_tool)
    {
        c.label("nothing printed");
        return;
    }
    double e_at = 0;
    for (const Ev& v : gc.ev)
    {
        switch (v.kind)
        {
        case Ev::TOOL:
            changes += 2; // a lift of a micron is planned after each, which may slow down what it goes with
            if (! started_first || v.tool != tool)
            {
                const double t = (v.tool != tool ? change[v.tool][2] : 0) + change[v.tool][0] + (started_first ? change[tool][1] : 0);
                both.each([&](Planner& p) { p.extra += t; });
            }
            started_first = true;
            tool = v.tool;
            break;
        case Ev::LAYER:
            if (! started_first)
            {
                both.each([&](Planner& p) { p.extra += change[v.tool][0]; });
                started_first = true;
            }
            if (v.layer == 0 && groups++ > 0)
            {
                changes += 3; // the way to the next group is planned with the accelerations of the machine, not with those last set
            }
            n_layers++;
            break;
        case Ev::MOVE:
        case Ev::FILAMENT:
        {
            const double de = volumetric ? v.e / area : v.e;
            fed[v.tool] += de;
            e_at += de;
            both.each([&](Planner& p) { p.plan({ v.x, v.y, v.has_z || seen_z ? v.z : 20, e_at }, v.f / 60, 1); });
            seen_z = seen_z || v.has_z;
            break;
        }
        case Ev::OTHER:
            if (v.text.starts_with("G4 P"))
            {
                both.each([&](Planner& p) { p.extra += atof(v.text.c_str() + 4) / 1000; });
            }
            else if (v.text.starts_with("M204 S"))
            {
                both.each([&](Planner& p) { p.lim.acc = atof(v.text.c_str() + 6); });
            }
            else if (v.text.starts_with("M205 X") || v.text.starts_with("M207 X"))
            {
                both.each([&](Planner& p) { p.lim.jerk_xy = atof(v.text.c_str() + 6); });
            }
            else if (v.text.starts_with("M566 X"))
            {
                both.each([&](Planner& p) { p.lim.jerk_xy = atof(v.text.c_str() + 6) / 60; });
            }
            break;
        case Ev::COMMENT:
            if (v.text.starts_with(";TIME_ELAPSED:"))
            {
                const double a = sum(both.lo.times()), b = sum(both.hi.times()), t = (a + b) / 2;
                total += t;
                slack += std::fabs(a - b) + changes;
                const double got = atof(v.text.c_str() + 14) - elapsed;
                elapsed += got;
                PBT_CHECK(std::fabs(got - t) <= 0.03 + 0.02 * t + std::fabs(a - b) + elapsed * 2e-5 + changes, "line %d: layer %d (%d) takes %.4f s, but its moves take %.4f s", v.no, v.layer, n_layers, got, t);
                changes = 0;
                both.each([](Planner& p) { p.clear(); });
            }
            break;
        default:
            break;
        }
    }
    PBT_CHECK(std::fabs(elapsed - total) <= 0.1 + 0.02 * total + slack, "%.3f s elapsed in the end, but the moves take %.3f s", elapsed, total);
    if (gc.header.count("TIME"))
    {
        const double t = atof(gc.header["TIME"].c_str());
        PBT_CHECK(t >= std::floor(elapsed - 0.01) - 1e-4 * elapsed && t <= elapsed + 0.01 + 1e-4 * elapsed, "header says %g s, %.3f elapsed", t, elapsed);
        c.label("time in the header");
    }
    if (n_layers > 2)
    {
        c.nontrivial();
    }
    c.label(flavor);
    if (one_at_a_time)
    {
        c.label("one at a time");
    }
    if (n_ext > 1)
    {
        c.label("two extruders");
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G18",
                  {
                      { "estimate", 40000, 400000, "more than eight moves", estimate },
                      { "preheat", 40000, 400000, "there is time to cool down", preheat },
                      { "print", 1500, 12000, "more than two layers", print, 60 },
                  });
    return r.main(argc, argv);
}
