// G15 travels and retractions
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

// What happens between two printed lines
struct Hop
{
    V2 from, to;
    double direct = 0, len = 0;
    struct Leg
    {
        V2 a, b;
        double z0, z1, f;
        bool retracted; // all along
        int no;
    };
    std::vector<Leg> legs;
    int retracts = 0;
    int layer = 0; // where it begins
    int next_layer = 0; // where it ends
    std::string from_type, to_type;
    int no = 0;
};
static std::vector<Hop> hops(const GCode& gc)
{
    std::vector<Hop> out;
    Hop h;
    bool open = false, any = false;
    double back = 0; // filament pulled back
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::FILAMENT || (v.kind == Ev::MOVE && v.e < 0) || (v.kind == Ev::MOVE && v.has_e && ! v.extrudes()))
        {
            back -= v.e;
            if (v.e < 0)
            {
                h.retracts++;
            }
        }
        if (v.kind == Ev::MOVE && v.e > 0)
        {
            if (open && any && h.legs.size() > 0)
            {
                h.to = { v.x0, v.y0 };
                h.direct = std::hypot(h.to.x - h.from.x, h.to.y - h.from.y);
                h.next_layer = v.layer;
                h.to_type = v.type;
                out.push_back(h);
            }
            any = open = true;
            h = Hop{};
            h.from = { v.x, v.y };
            h.layer = v.layer;
            h.from_type = v.type;
            h.no = v.no;
        }
        else if (v.kind == Ev::MOVE)
        {
            h.legs.push_back({ { v.x0, v.y0 }, { v.x, v.y }, v.z0, v.z, v.f, back > 0.001, v.no });
            h.len += v.len();
        }
    }
    return out;
}

struct Setup
{
    Job job = plainJob();
    Mesh mesh;
    std::vector<Section> parts; // prisms only
    std::vector<Section> holes;
    Section all;
    std::string what;
    double h0 = 0.2, h = 0.2, lw = 0.4;
    int layers = 3, walls = 1;
};
static Setup setup(Case& c, int min_parts, int max_parts, bool convex, coord_t gap_min, int max_layers)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job;
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("hole_xy_offset", "0");
    s.walls = g.range(1, 3);
    j.set("wall_line_count", num(s.walls));
    j.set("top_layers", num(g.range(0, 1)));
    j.set("bottom_layers", num(g.range(0, 1)));
    j.set("initial_bottom_layers", j.get("bottom_layers"));
    j.set("infill_line_distance", g.oneof<std::string>({ "0", "2", "4", "3" }));
    j.set("infill_pattern", g.oneof<std::string>({ "lines", "grid", "triangles" }));
    j.set("infill_wipe_dist", "0");
    j.set("wall_0_wipe_dist", "0");
    j.set("meshfix_maximum_travel_resolution", "0.01");
    j.set("travel_retract_before_outer_wall", "automatic");
    j.set("retraction_amount", num(g.range(5, 60) / 10.0));
    j.set("retraction_count_max", "100000");
    j.set("retraction_min_travel", num(g.oneof<double>({ 0.5, 1, 1.5, 3, 6 })));
    j.set("z_seam_type", g.oneof<std::string>({ "back", "shortest", "random", "sharpest_corner" }));
    j.set("retract_at_layer_change", "False");
    j.set("retraction_combing_max_distance", "0");
    s.layers = g.range(2, max_layers);
    const coord_t top = 200 * s.layers;
    const int n = g.range(min_parts, max_parts);
    const coord_t half = g.range(convex ? 7000 : 3000, 10000), step = 2 * half + gap_min + g.range(0, 6000);
    const int cols = g.range(1, n);
    for (int i = 0; i < n; i++)
    {
        const Point2LL at((i % cols) * step - 20000, (i / cols) * step - 20000);
        Pts r = convex ? genStar(g, at, half * 4 / 5, half, 5, 10) : genStar(g, at, half / 3, half, 4, 12);
        if (ringArea(r) < 0)
        {
            reversed(r);
        }
        Mesh m;
        m.loft({ r, r }, { 0, top });
        s.what += "part " + strPts(r);
        if (g.chance(1, 3))
        {
            Pts hole = genStar(g, at, half / 12, half / 5, 3, 6);
            if (ringArea(hole) > 0)
            {
                reversed(hole);
            }
            if (convex || half / 5 < half / 3 * 0.5)
            {
                m.loft({ hole, hole }, { 0, top });
                s.what += " with hole " + strPts(hole);
            }
        }
        s.parts.emplace_back(m, 0.1);
        s.mesh.add(m);
    }
    s.what += " of " + num(s.layers) + " layers; ";
    s.all = Section(s.mesh, 0.1);
    Model m;
    m.file = s.mesh.stl();
    j.groups[0].push_back(m);
    return s;
}
static GCode run(Case& c, const Setup& s)
{
    static const Job plain = plainJob();
    c.note("%s", (s.what + describe(s.job, plain)).c_str());
    const Result r = slice(s.job, 60);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}
static bool inAir(const Section& s, V2 a, V2 b, double by)
{
    const int n = std::max(2, static_cast<int>(std::hypot(b.x - a.x, b.y - a.y) / 0.05));
    for (int i = 0; i <= n; i++)
    {
        const double t = 1.0 * i / n;
        if (s.depth({ a.x + t * (b.x - a.x), a.y + t * (b.y - a.y) }) < -by)
        {
            return true;
        }
    }
    return false;
}

// Long travels, and those that leave the model, are retracted; short ones are not
static void retract(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 1, 4, g.flip(), 300, 5);
    Job& j = s.job;
    const std::string comb = g.oneof<std::string>({ "off", "all", "all", "infill", "noskin" });
    c.label(comb.c_str());
    j.set("retraction_combing", comb);
    const bool enable = ! g.chance(1, 6), at_change = g.chance(1, 3), before_outer = g.chance(1, 4);
    j.set("retraction_enable", enable ? "True" : "False");
    j.set("retract_at_layer_change", at_change ? "True" : "False");
    j.set("travel_retract_before_outer_wall", before_outer ? "force_retracted" : "automatic");
    j.set("travel_avoid_other_parts", g.flip() ? "True" : "False");
    double max = 0;
    if (comb != "off" && g.chance(1, 3))
    {
        max = g.range(5, 30);
        j.set("retraction_combing_max_distance", num(max));
    }
    const double tip = g.oneof<double>({ 1, 0.6, 2 });
    j.set("machine_nozzle_tip_outer_diameter", num(tip));
    const GCode gc = run(c, s);
    const double min = j.getD("retraction_min_travel");
    int seen = 0;
    for (const Hop& h : hops(gc))
    {
        if (! enable)
        {
            PBT_CHECK(! h.retracts, "line %d: a retraction, though they are disabled", h.no);
            continue;
        }
        const bool change = h.layer != h.next_layer;
        // every retraction spans one travel
        PBT_CHECK(h.retracts <= 1, "after line %d: %d retractions before the next line", h.no, h.retracts);
        if (! change && h.len < min - 0.01)
        {
            PBT_CHECK(! h.retracts, "after line %d: a retraction for a travel of %.3f", h.no, h.len);
        }
        if (change && at_change)
        {
            PBT_CHECK(h.retracts, "after line %d: no retraction between the layers", h.no);
        }
        if (h.direct < min + 0.01)
        {
            continue;
        }
        seen++;
        if (comb == "off")
        {
            PBT_CHECK(h.retracts, "after line %d: no retraction for a travel of %.3f", h.no, h.direct);
            continue;
        }
        if (h.retracts)
        {
            if (comb == "all" && h.legs.size() == 1 && max == 0 && ! change && ! before_outer && min < h.direct)
            {
                // could have been a straight line inside
            }
            continue;
        }
        PBT_CHECK(max == 0 || h.len < max + (change ? 2 : 0.01), // (a move into the part may come before that to the next layer)
                  "after line %d: no retraction for a travel of %.3f", h.no, h.len);
        if (h.direct < std::max(tip, 2 * min) + 0.01) // (two travels may follow each other)
        {
            continue;
        }
        for (const Hop::Leg& l : h.legs)
        {
            PBT_CHECK(! inAir(s.all, l.a, l.b, 0.05), "line %d: leaves the model without a retraction, from (%.3f,%.3f) to (%.3f,%.3f)", l.no, l.a.x, l.a.y, l.b.x, l.b.y);
            if (comb == "infill")
            {
                const V2 m{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
                PBT_CHECK(s.all.depth(m) > 0.1, "line %d: over the walls without a retraction, at (%.3f,%.3f)", l.no, m.x, m.y);
            }
        }
    }
    if (seen > 10)
    {
        c.nontrivial();
    }
}

// With the straight way inside there is no need to retract; a way around, if there is one, is taken
static void comb(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 1, 3, true, 1500, 4);
    Job& j = s.job;
    j.set("retraction_combing", "all");
    const GCode gc = run(c, s);
    int seen = 0;
    for (const Hop& h : hops(gc))
    {
        if (h.layer != h.next_layer)
        {
            continue;
        }
        for (const Section& p : s.parts)
        {
            if (p.depth(h.from) > 0.1 && p.depth(h.to) > 0.1)
            {
                seen++;
                PBT_CHECK(! h.retracts, "after line %d: a retraction for a travel within a part, from (%.3f,%.3f) to (%.3f,%.3f)", h.no, h.from.x, h.from.y, h.to.x, h.to.y);
                const double straight = h.direct + 0.01;
                if (! inAir(p, h.from, h.to, -0.9))
                {
                    PBT_CHECK(h.len < straight * 1.05 + 1.5, "after line %d: a detour of %.3f, %.3f would do", h.no, h.len, h.direct);
                }
            }
        }
    }
    if (seen > 10)
    {
        c.nontrivial();
    }
}


// Unless told otherwise there is no travel over the top (or bottom) surfaces of the model without a retraction
static void surfaces(Case& c)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job;
    const bool outer = g.chance(2, 3);
    c.label(outer ? "no_outer_surfaces" : "noskin");
    j.set("retraction_combing", outer ? "no_outer_surfaces" : "noskin");
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("hole_xy_offset", "0");
    s.walls = g.range(1, 2);
    j.set("wall_line_count", num(s.walls));
    j.set("top_layers", "1");
    j.set("bottom_layers", "1");
    j.set("initial_bottom_layers", "1");
    j.set("skin_no_small_gaps_heuristic", "False");
    j.set("infill_line_distance", g.oneof<std::string>({ "2", "4", "3" }));
    j.set("infill_wipe_dist", "0");
    j.set("wall_0_wipe_dist", "0");
    j.set("meshfix_maximum_travel_resolution", "0.01");
    j.set("retraction_count_max", "100000");
    j.set("retraction_combing_max_distance", "0");
    const double min = g.oneof<double>({ 0.5, 1 });
    j.set("retraction_min_travel", num(min));
    j.set("z_seam_type", g.oneof<std::string>({ "back", "shortest", "random", "sharpest_corner" }));
    for (const char* k : { "top_skin_expand_distance", "bottom_skin_expand_distance", "top_skin_preshrink", "bottom_skin_preshrink", "skin_preshrink", "expand_skins_expand_distance" })
    {
        j.set(k, "0");
    }
    // a plate with towers on it, and feet below it
    const int foot = g.range(0, 4), plate = g.range(1, 4), tower = g.range(1, 4);
    const coord_t w = g.range(16000, 30000), d = g.range(8000, 20000);
    const coord_t z1 = foot * 200, z2 = z1 + plate * 200, z3 = z2 + tower * 200;
    s.mesh.box(0, 0, z1, w, d, z2);
    struct Box
    {
        double x0, y0, x1, y1;
    };
    std::vector<Box> up, down;
    for (int side = 0; side < 2; side++)
    {
        const int n = side ? g.range(1, 2) : (foot ? 2 : 0);
        for (int i = 0; i < n; i++)
        {
            const coord_t a = g.range(1500, w / n - 5500), b = g.range(1500, d - 5500), p = g.range(3500, std::min<coord_t>(w / n - a - 800, 9000)), q = g.range(3500, std::min<coord_t>(d - b - 1000, 9000));
            const coord_t x = a + i * (w / n);
            side ? s.mesh.box(x, b, z2, x + p, b + q, z3) : s.mesh.box(x, b, 0, x + p, b + q, z1);
            (side ? up : down).push_back({ x / 1e3, b / 1e3, (x + p) / 1e3, (b + q) / 1e3 });
        }
    }
    s.what = "plate " + mm(w) + " by " + mm(d) + " at layers " + num(foot) + " to " + num(foot + plate) + ", towers of " + num(tower) + " layers; ";
    for (const auto* bs : { &up, &down })
    {
        for (const Box& b : *bs)
        {
            s.what += std::string(bs == &up ? "tower " : "foot ") + num(b.x0) + "," + num(b.y0) + " to " + num(b.x1) + "," + num(b.y1) + "; ";
        }
    }
    Model m;
    m.file = s.mesh.stl();
    j.groups[0].push_back(m);
    const GCode gc = run(c, s);
    const auto within = [](const std::vector<Box>& bs, V2 p, double by)
    {
        return std::any_of(bs.begin(), bs.end(), [&](const Box& b) { return p.x > b.x0 - by && p.x < b.x1 + by && p.y > b.y0 - by && p.y < b.y1 + by; });
    };
    const double off = s.walls * s.lw + 0.1;
    int seen = 0, inner = 0;
    for (const Hop& h : hops(gc))
    {
        if (h.layer != h.next_layer || h.direct < std::max(2 * min, 1.0) + 0.01)
        {
            continue;
        }
        seen++;
        const int k = h.layer;
        const bool top = k == foot + plate - 1, bottom = k == foot && (foot > 0 || true);
        inner += ! top && ! bottom && k >= foot && k < foot + plate;
        if (h.retracts)
        {
            continue;
        }
        for (const Hop::Leg& l : h.legs)
        {
            const int n = std::max(2, static_cast<int>(std::hypot(l.b.x - l.a.x, l.b.y - l.a.y) / 0.1));
            for (int i = 0; i <= n; i++)
            {
                const double t = 1.0 * i / n;
                const V2 p{ l.a.x + t * (l.b.x - l.a.x), l.a.y + t * (l.b.y - l.a.y) };
                const double in = std::min({ p.x, p.y, w / 1e3 - p.x, d / 1e3 - p.y }); // depth in the plate
                if (std::hypot(p.x - h.from.x, p.y - h.from.y) < 1.2 || std::hypot(p.x - h.to.x, p.y - h.to.y) < 1.2)
                {
                    continue; // near its ends it may have to
                }
                // whichever of the surfaces this is: what is not under a tower, or over a foot
                const bool exposed = (top && ! within(up, p, outer ? 0.1 : off)) || (bottom && foot > 0 && ! within(down, p, outer ? 0.1 : off));
                PBT_CHECK(! exposed || in < (outer ? 0.1 : off), "line %d (layer %d): over a surface without a retraction, at (%.3f,%.3f)", l.no, k, p.x, p.y);
            }
        }
    }
    if (seen > 5)
    {
        c.nontrivial();
    }
}

// The nozzle is lifted for each retracted travel, and only for those, by the height set and lowered before printing
static void lift(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 1, 4, g.flip(), 1500, 5);
    Job& j = s.job;
    j.set("retraction_combing", g.oneof<std::string>({ "off", "all", "noskin" }));
    j.set("travel_avoid_other_parts", g.flip() ? "True" : "False");
    const bool collides = g.chance(1, 3);
    j.set("retraction_hop_enabled", "True");
    j.set("retraction_hop_only_when_collides", collides ? "True" : "False");
    const double hop = g.range(1, 40) / 10.0, zf = g.range(2, 30);
    j.set("retraction_hop", num(hop));
    j.set("speed_z_hop", num(zf));
    c.label(collides ? "only when it collides" : "always");
    const GCode gc = run(c, s);
    int seen = 0;
    for (const Hop& h : hops(gc))
    {
        const double z = s.h0 + h.layer * s.h, z2 = s.h0 + h.next_layer * s.h;
        double top = -1;
        for (const Hop::Leg& l : h.legs)
        {
            top = std::max({ top, l.z0, l.z1 });
            const double len = std::hypot(l.b.x - l.a.x, l.b.y - l.a.y);
            if (std::fabs(l.z1 - l.z0) > 0.001)
            {
                PBT_CHECK(len < 0.002, "line %d: moves up or down while travelling", l.no);
                PBT_CHECK(h.layer != h.next_layer || std::fabs(l.f - zf * 60) < 1, "line %d: the height changes at %.1f mm/s, not %.1f", l.no, l.f / 60, zf);
            }
        }
        PBT_CHECK(std::fabs(h.legs.back().z1 - z2) < 0.0015, "after line %d: printing goes on at a height of %.3f, not %.3f", h.no, h.legs.back().z1, z2);
        if (h.layer != h.next_layer)
        {
            PBT_CHECK(top < std::max(z, z2) + hop + 0.0015, "after line %d: lifted to %.3f", h.no, top);
            continue;
        }
        const bool lifted = top > z + 0.0015;
        PBT_CHECK(! lifted || std::fabs(top - z - hop) < 0.0015, "after line %d: lifted to %.3f from %.3f", h.no, top, z);
        PBT_CHECK(! lifted || h.retracts, "after line %d: lifted without a retraction", h.no);
        if (! collides && h.retracts && j.get("retraction_combing") == "off")
        {
            PBT_CHECK(lifted, "after line %d: retracted, but not lifted", h.no);
        }
        if (! h.retracts)
        {
            continue;
        }
        seen++;
        // across the gap between two parts
        bool air = false;
        for (const Hop::Leg& l : h.legs)
        {
            air = air || inAir(s.all, l.a, l.b, 0.4);
        }
        if (! collides && air && h.direct > j.getD("retraction_min_travel") + 0.01)
        {
            PBT_CHECK(lifted, "after line %d: not lifted while it leaves the model", h.no);
        }
    }
    if (seen > 3)
    {
        c.nontrivial();
    }
}

// No more retractions than set within the set length of filament
static void limit(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 2, 6, g.flip(), 1500, 5);
    Job& j = s.job;
    j.set("retraction_combing", g.oneof<std::string>({ "off", "all" }));
    j.set("retraction_min_travel", "0.5");
    const int most = g.oneof<int>({ 0, 1, 2, 5, 10 });
    const double window = g.range(1, 40) / 10.0;
    j.set("retraction_count_max", num(most));
    j.set("retraction_extrusion_window", num(window));
    const GCode gc = run(c, s);
    double fed = 0, back = 0;
    int last_line = 0;
    for (const Ev& v : gc.ev)
    {
        last_line = v.extrudes() ? v.no : last_line; // (when all is done it always retracts)
    }
    std::vector<double> at;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE || v.kind == Ev::FILAMENT)
        {
            if (v.e < 0 && v.no < last_line)
            {
                PBT_CHECK(most > 0, "line %d: a retraction, none are allowed", v.no);
                if (at.size() >= static_cast<size_t>(most))
                {
                    PBT_CHECK(fed >= at[at.size() - most] + window - 1e-3, "line %d: more than %d retractions within %.3f mm of filament, %.3f allowed", v.no, most, fed - at[at.size() - most], window);
                }
                at.push_back(fed);
            }
            if (v.kind == Ev::MOVE && v.e > 0)
            {
                fed += v.e;
            }
            back -= v.e;
        }
    }
    // and none is left out before that
    if (most > 0 && j.get("retraction_combing") == "off")
    {
        double f2 = 0;
        std::deque<double> last;
        std::vector<Hop> hs = hops(gc);
        size_t i = 0;
        for (const Ev& v : gc.ev)
        {
            if ((v.kind == Ev::MOVE || v.kind == Ev::FILAMENT) && v.e < 0)
            {
                last.push_back(f2);
                if (last.size() > static_cast<size_t>(most))
                {
                    last.pop_front();
                }
            }
            if (v.kind == Ev::MOVE && v.e > 0)
            {
                f2 += v.e;
                while (i < hs.size() && hs[i].no <= v.no)
                {
                    if (hs[i].no == v.no && hs[i].layer == hs[i].next_layer && hs[i].direct > 0.52)
                    {
                        const bool full = last.size() == static_cast<size_t>(most) && f2 < last.front() + window + 0.01;
                        PBT_CHECK(full || hs[i].retracts, "after line %d: no retraction for a travel of %.3f, though only %d were made lately", hs[i].no, hs[i].direct, (int)last.size());
                    }
                    i++;
                }
            }
        }
    }
    if (at.size() > 3 || most == 0)
    {
        c.nontrivial();
    }
}

// Travels between parts go around the others
static void avoid(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 3, 6, true, 4000, 3);
    Job& j = s.job;
    j.set("retraction_combing", "all");
    j.set("travel_avoid_other_parts", "True");
    const double dist = g.range(1, 18) / 10.0;
    j.set("travel_avoid_distance", num(dist));
    const GCode gc = run(c, s);
    int seen = 0;
    for (const Hop& h : hops(gc))
    {
        if (h.layer != h.next_layer || h.direct < 4)
        {
            continue;
        }
        for (const Section& p : s.parts)
        {
            if (p.depth(h.from) > -0.3 || p.depth(h.to) > -0.3)
            {
                continue;
            }
            double in = 1e9;
            for (const Hop::Leg& l : h.legs)
            {
                const int n = std::max(2, static_cast<int>(std::hypot(l.b.x - l.a.x, l.b.y - l.a.y) / 0.1));
                for (int i = 0; i <= n; i++)
                {
                    const double t = 1.0 * i / n;
                    in = std::min(in, -p.depth({ l.a.x + t * (l.b.x - l.a.x), l.a.y + t * (l.b.y - l.a.y) }));
                }
            }
            if (inAir(p, h.from, h.to, -0.2))
            {
                seen++;
            }
            PBT_CHECK(in > dist - 0.05, "after line %d: travels past another part at a distance of %.3f", h.no, in);
        }
    }
    if (seen > 0)
    {
        c.nontrivial();
    }
}


// Retracting and priming while travelling: the same way, the same amounts if there is time, all of it back before printing
static void moving(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c, 1, 4, g.flip(), 1500, 4);
    Job& j = s.job;
    j.set("retraction_combing", g.oneof<std::string>({ "off", "all" }));
    const double rr = g.oneof<double>({ 0, 30, 50, 100 }), rp = g.oneof<double>({ 0, 20, 50, 100 }), amount = j.getD("retraction_amount"), sr = g.range(5, 60), sp = g.range(5, 60);
    j.set("retraction_retract_speed", num(sr));
    j.set("retraction_prime_speed", num(sp));
    const bool hop = g.chance(1, 4);
    if (hop)
    {
        j.set("retraction_hop_enabled", "True");
        j.set("retraction_hop", "0.6");
    }
    const double extra = g.chance(1, 3) ? g.range(1, 20) / 10.0 : 0; // mm3
    j.set("retraction_extra_prime_amount", num(extra));
    const GCode plain = run(c, s);
    j.set("retraction_during_travel_ratio", num(rr));
    j.set("prime_during_travel_ratio", num(rp));
    const bool keep = g.chance(1, 3);
    j.set("keep_retracting_during_travel", keep ? "True" : "False");
    const GCode gc = run(c, s);
    const double area = M_PI / 4 * 1.75 * 1.75, vt = j.getD("speed_travel");
    // volumes fed and pulled in each travel
    struct Flow
    {
        double low = 0, end = 0, still = 0, len = 0, back = 0;
        bool last_up = false;
    };
    const auto flows = [](const GCode& gc)
    {
        std::vector<std::pair<int, Flow>> out;
        Flow f;
        double at = 0;
        int from = -1;
        bool any = false;
        for (const Ev& v : gc.ev)
        {
            if (v.kind == Ev::FILAMENT || v.kind == Ev::MOVE)
            {
                const bool line = v.kind == Ev::MOVE && v.e > 0 && ! v.rapid && at > -1e-4;
                if (line)
                {
                    if (any)
                    {
                        f.end = at;
                        out.push_back({ from, f });
                    }
                    any = false;
                    f = Flow{};
                    at = 0;
                    from = v.no;
                }
                else
                {
                    any = any || v.e != 0;
                    at += v.e;
                    f.low = std::min(f.low, at);
                    f.len += v.len();
                    f.back += v.e != 0 || at < -1e-4 ? v.len() : 0;
                    if (v.kind == Ev::FILAMENT && v.e < 0)
                    {
                        f.still -= v.e;
                    }
                }
            }
        }
        return out;
    };
    const auto fa = flows(plain), fb = flows(gc);
    PBT_CHECK(std::fabs(1.0 * fa.size() - fb.size()) <= 2 + 0.1 * fa.size(), "%zu retractions, %zu when they are made during travels", fa.size(), fb.size());
    int seen = 0;
    for (size_t i = 1; i < fb.size(); i++)
    {
        const Flow& y = fb[i].second;
        PBT_CHECK(y.low > -amount - 2e-3, "after line %d: %.4f mm pulled back, not %.4f", fb[i].first, -y.low, amount);
        PBT_CHECK(std::fabs(y.end - extra / area) < 3e-3, "after line %d: primed by %.4f more than was pulled back, not %.4f", fb[i].first, y.end, extra / area);
        const double need = amount * rr / 100 / sr + (amount + extra / area) * rp / 100 / sp;
        if (y.back / vt > need * 1.01 + 0.001)
        {
            seen++;
            PBT_CHECK(std::fabs(y.low + amount) < 3e-3 + (keep ? amount * rr / 100 * 0.4 : 0), // (the last bit may come after it is primed)
                      "after line %d: %.4f mm pulled back during a travel of %.3f, not %.4f", fb[i].first, -y.low, y.len, amount);
            PBT_CHECK(std::fabs(y.still - amount * (100 - rr) / 100) < 3e-3 || hop, "after line %d: %.4f mm pulled back while still, not %.4f", fb[i].first, y.still, amount * (100 - rr) / 100);
        }
    }
    if (seen > 3)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G15",
                  { { "retract", 500, 4000, "more than 10 travels longer than the minimum", retract },
                    { "comb", 200, 2000, "more than 10 travels within a part", comb },
                    { "surfaces", 200, 2000, "more than 5 long travels", surfaces },
                    { "lift", 200, 2000, "more than 3 retracted travels", lift },
                    { "limit", 150, 1500, "more than 3 retractions, or none allowed", limit },
                    { "avoid", 150, 1500, "a part beside the way", avoid },
                    { "moving", 150, 1500, "more than 3 travels with time for it all", moving } });
    return r.main(argc, argv);
}
