// G22 special ways to print: spirals, sheets, fuzz, adaptive layers, coasting, shields, one at a time
// SOURCES: ALL
#include <map>
#include <set>

#include "engine_geo.h"
#include "geo.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
using eng::num;
using eng::V2;

static eng::Job job(coord_t w)
{
    eng::Job j = eng::plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset", "wall_0_wipe_dist", "infill_wipe_dist", "top_layers", "bottom_layers", "initial_bottom_layers", "scarf_joint_seam_length", "coasting_volume", "infill_line_distance", "roofing_layer_count", "flooring_layer_count", "wall_0_inset", "multiple_mesh_overlap", "infill_overlap", "infill_overlap_mm", "minimum_polygon_circumference" })
        j.set(k, "0");
    j.set("meshfix_maximum_resolution", "0.01");
    j.set("meshfix_maximum_deviation", "0.004");
    j.set("meshfix_maximum_extrusion_area_deviation", "2000");
    j.set("meshfix_fluid_motion_enabled", "False");
    j.set("coasting_enable", "False");
    j.set("wall_line_count", "1");
    j.set("bridge_settings_enabled", "False");
    j.set("support_enable", "False");
    j.set("material_diameter", "1.75");
    j.lineWidth(w);
    return j;
}
static eng::GCode run(Case& c, const eng::Job& j, const std::string& what)
{
    static const eng::Job plain = eng::plainJob();
    if (! what.empty())
        c.note("%s", (what + "; " + eng::describe(j, plain)).c_str());
    const eng::Result res = eng::slice(j, 60);
    PBT_CHECK(res.ok(), "the engine ended with status %d", res.status);
    eng::GCode gc(res.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}
static void place(eng::Job& j, const eng::Mesh& m, const std::string& name = "m.stl", size_t group = 0)
{
    eng::Model M;
    M.file = m.stl();
    M.name = name;
    while (j.groups.size() <= group)
        j.groups.emplace_back();
    j.groups[group].push_back(M);
}
static std::vector<Point2LL> ccw(std::vector<Point2LL> r)
{
    if (ringArea(r) < 0)
        std::reverse(r.begin(), r.end());
    return r;
}
static std::vector<Point2LL> scaled(const std::vector<Point2LL>& r, double s)
{
    std::vector<Point2LL> o;
    for (const Point2LL& p : r)
        o.emplace_back(std::llround(p.X * s), std::llround(p.Y * s));
    return o;
}
static void addRing(eng::Section& s, const std::vector<Point2LL>& ring)
{
    for (size_t i = 0; i < ring.size(); i++)
    {
        const Point2LL &a = ring[i], &b = ring[(i + 1) % ring.size()];
        s.add({ a.X / 1000.0, a.Y / 1000.0 }, { b.X / 1000.0, b.Y / 1000.0 });
    }
}
static double perimeter(const std::vector<Point2LL>& r)
{
    double l = 0;
    for (size_t i = 0; i < r.size(); i++)
        l += std::hypot(r[i].X - r[(i + 1) % r.size()].X, r[i].Y - r[(i + 1) % r.size()].Y) / 1000;
    return l;
}
static const double AREA = M_PI / 4 * 1.75 * 1.75; // of the filament

// ---------------------------------------------------------------------------------------------- one long line
static void spiral(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)600);
    const double W = w / 1000.0;
    eng::Job j = job(w);
    const int h0 = (int)g.range((int64_t)10, (int64_t)30) * 10, h = (int)g.range((int64_t)10, (int64_t)30) * 10;
    j.layerHeight(h, h0);
    const int bottoms = (int)g.range((int64_t)0, (int64_t)3), layers = bottoms + (int)g.range((int64_t)2, (int64_t)7);
    const bool smooth = g.flip(), slanted = g.chance(2, 3);
    j.set("magic_spiralize", "True");
    j.set("smooth_spiralized_contours", smooth ? "True" : "False");
    j.set("initial_bottom_layers", num(bottoms));
    j.set("bottom_layers", num(bottoms));
    j.set("wall_line_count", num(g.range((int64_t)1, (int64_t)2)));
    const auto r = ccw(genStar(g, Point2LL(0, 0), 6000, 15000, 4, 12));
    const double s = slanted ? g.real(0.9, 1.1) : 1;
    eng::Mesh m;
    const long long top = h0 + (layers - 1) * h;
    m.loft({ r, scaled(r, s) }, { 0, top });
    place(j, m);
    const std::string what = strPts(r) + " x" + num(s) + " at " + num(top / 1000.0);
    const eng::GCode gc = run(c, j, what);
    const double slope = std::abs(s - 1) * 15 / layers + 0.02; // how much one layer stands out
    std::map<int, std::vector<const eng::Ev*>> by;
    for (const eng::Ev& v : gc.ev)
        if (v.kind == eng::Ev::MOVE && v.layer >= 0 && (v.has_x || v.has_y || v.has_z))
            by[v.layer].push_back(&v);
    PBT_CHECK((int)by.size() == layers, "%zu layers, not %d", by.size(), layers);
    double end_z = 0;
    V2 end{};
    int points = 0;
    for (int k = bottoms; k < layers; k++)
    {
        const double z = (h0 + (double)h * k) / 1000.0, H = (k ? h : h0) / 1000.0;
        const eng::Section sec(m, eng::sliceZ(k, h0 / 1000.0, h / 1000.0)), below(m, eng::sliceZ(std::max(k - 1, 0), h0 / 1000.0, h / 1000.0));
        // the first layer starts with a plain wall; then there is nothing but the spiral
        std::vector<const eng::Ev*> es;
        bool started = k > bottoms;
        for (const eng::Ev* v : by[k])
        {
            if (v->extrudes())
                PBT_CHECK(v->type == "WALL-OUTER", "layer %d: there is %s in the spiral", k, v->type.c_str());
            if (! started && v->extrudes() && v->z > z + 0.0005)
                started = true;
            if (! started)
            {
                PBT_CHECK(! v->extrudes() || std::abs(v->z - z) < 0.002, "layer %d: the plain wall is at %.3f", k, v->z);
                continue;
            }
            es.push_back(v);
        }
        PBT_CHECK(es.size() > 2, "layer %d: no spiral", k);
        double total = 0, done = 0;
        size_t n = es.size(); // where the spiral proper ends and what tapers it off begins
        if (k == layers - 1)
        {
            // it ends when it is back at its start, a layer higher
            while (n > 0 && ! (es[n - 1]->extrudes() && es[n - 1]->z0 < z + H - 0.0025))
                n--;
        }
        for (size_t i = 0; i < n; i++)
            total += es[i]->len();
        for (size_t i = 0; i < n; i++)
        {
            const eng::Ev& v = *es[i];
            if (k > bottoms && i == 0)
                PBT_CHECK(std::hypot(v.x0 - end.x, v.y0 - end.y) < 0.005 && std::abs(v.z0 - end_z) < 0.005, "layer %d starts at (%.3f, %.3f, %.3f), the one before ended at (%.3f, %.3f, %.3f)", k, v.x0, v.y0, v.z0, end.x, end.y, end_z);
            if (v.len() < 0.002)
                continue;
            PBT_CHECK(v.extrudes(), "layer %d: the spiral is interrupted at (%.3f, %.3f)", k, v.x, v.y);
            done += v.len();
            PBT_CHECK(std::abs(v.z - (z + H * done / total)) < 0.003 + 0.02 * H, "layer %d: after %.3f of %.3f mm the nozzle is at %.4f, not at %.4f", k, done, total, v.z, z + H * done / total);
            const double depth = sec.depth({ v.x, v.y }), was = below.depth({ v.x, v.y });
            const double tol = 0.03 + (i == 0 || i + 1 == n ? slope : 0);
            double corner = 1e9; // (corners are mitred)
            for (const eng::Section* x : { &sec, &below })
                for (const auto& [a, b] : x->segs)
                    corner = std::min({ corner, std::hypot(a.x - v.x, a.y - v.y), std::hypot(b.x - v.x, b.y - v.y) });
            const double mitre = corner < W ? 0.45 * W / 2 : 0;
            if (! smooth || k == bottoms)
                PBT_CHECK(depth > W / 2 - tol && depth < W / 2 + tol + mitre, "layer %d: the spiral is %.3f inside of the outline at (%.3f, %.3f)", k, depth, v.x, v.y);
            else
                PBT_CHECK(std::min(depth, was) < W / 2 + tol + mitre && std::max(depth, was) > W / 2 - tol, "layer %d: the spiral is %.3f and %.3f inside of the outlines here and below at (%.3f, %.3f)", k, depth, was, v.x, v.y);
            // the first round begins with a quarter of the material
            const double flow = k == bottoms ? 0.25 + 0.75 * done / total : 1;
            const double got = v.e * AREA / v.len() / (W * H);
            if (v.len() > 0.3)
                PBT_CHECK(std::abs(got - flow) < 0.03 + (k == bottoms ? 0.05 : 0), "layer %d: a flow of %.3f, not %.3f, after %.3f of %.3f mm", k, got, flow, done, total);
            points++;
        }
        PBT_CHECK(std::abs(es[n - 1]->z - z - H) < 0.003, "layer %d ends at %.3f", k, es[n - 1]->z);
        end_z = es[n - 1]->z;
        end = { es[n - 1]->x, es[n - 1]->y };
        if (k == layers - 1)
        {
            double walked = 0, coasted = 0, last = 1;
            for (size_t i = n; i < es.size() && coasted < 10; i++)
            {
                const eng::Ev& v = *es[i];
                if (v.len() < 0.002)
                    continue;
                if (walked >= total - 0.02)
                    break;
                walked += v.len();
                const double depth = sec.depth({ v.x, v.y });
                PBT_CHECK(depth > W / 2 - 0.03 - slope && depth < W / 2 * 1.45 + 0.03 + slope, "the end of the spiral is %.3f inside of the outline at (%.3f, %.3f)", depth, v.x, v.y);
                PBT_CHECK(std::abs(v.z - z - H) < 0.003, "the end of the spiral is at %.3f", v.z);
                const double flow = 1 - walked / total, got = v.e * AREA / v.len() / (W * H);
                if (flow < 0.2)
                    PBT_CHECK(v.e <= 0, "the end of the spiral has a flow of %.3f after %.3f of %.3f mm", got, walked, total);
                else if (v.len() > 0.3 && flow > 0.3)
                    PBT_CHECK(got > flow - 0.08 && got < flow + 0.03, "the end of the spiral has a flow of %.3f after %.3f of %.3f mm", got, walked, total);
                PBT_CHECK(v.len() < 0.3 || got <= last + 0.03, "the flow rises at the end of the spiral");
                last = v.len() < 0.3 ? last : got;
                coasted += v.e <= 0 ? v.len() : 0;
            }
            PBT_CHECK(coasted >= 10 || walked >= total * 0.95 - 0.05, "the spiral ends after %.3f of %.3f mm", walked, total);
        }
    }
    if (points > 10)
        c.nontrivial();
    c.label(smooth ? slanted ? "smooth slanted" : "smooth" : slanted ? "slanted" : "straight");
}

// ---------------------------------------------------------------------------------------------- surfaces
static void sheets(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(w);
    const std::string mode = g.oneof<std::string>({ "surface", "surface", "both", "both", "normal" });
    j.set("magic_mesh_surface_mode", mode);
    j.set("minimum_polygon_circumference", "1"); // (a fold may be taken for a speck)
    j.set("infill_line_distance", g.flip() ? "0" : "2");
    const int layers = (int)g.range((int64_t)2, (int64_t)5);
    std::string what = mode;
    eng::Mesh m;
    eng::Section closed, open;
    const auto addLine = [](eng::Section& s, const std::vector<Point2LL>& l, bool back)
    {
        for (size_t i = 0; i + (back ? 0 : 1) < l.size(); i++)
            s.add({ l[i].X / 1000.0, l[i].Y / 1000.0 }, { l[(i + 1) % l.size()].X / 1000.0, l[(i + 1) % l.size()].Y / 1000.0 });
    };
    const int nc = (int)g.range((int64_t)0, (int64_t)2), no = (int)g.range((int64_t)(nc ? 0 : 1), (int64_t)(mode == "normal" ? 1 : 2));
    std::vector<std::vector<Point2LL>> lines;
    for (int i = 0; i < nc; i++)
    {
        const auto r = ccw(genStar(g, Point2LL(i * 24000, 0), 4000, 9000, 3, 9));
        m.loft({ r, r }, { 0, layers * 200 });
        addLine(closed, r, true);
        what += " solid " + strPts(r);
    }
    for (int i = 0; i < no; i++)
    {
        // a wavy wall without thickness
        std::vector<Point2LL> l;
        const int n = (int)g.range((int64_t)(mode == "normal" ? 4 : 2), (int64_t)6); // (gaps of up to 10 mm are closed there)
        for (int k = 0; k < n; k++)
            l.emplace_back(k * 5000 + g.range((int64_t)-1500, (int64_t)1500), -20000 - i * 12000 + g.range((int64_t)-4000, (int64_t)4000));
        const auto P = [&](int k, long long z) { return eng::P3{ l[k].X, l[k].Y, z }; };
        for (int k = 0; k + 1 < n; k++)
        {
            m.tri(P(k, 0), P(k + 1, 0), P(k + 1, layers * 200));
            m.tri(P(k, 0), P(k + 1, layers * 200), P(k, layers * 200));
        }
        addLine(open, l, false);
        lines.push_back(l);
        what += " sheet " + strPts(l);
    }
    place(j, m);
    const eng::GCode gc = run(c, j, what);
    const auto printed = eng::printedLines(gc, 0.2, 0.2);
    static const std::vector<eng::Printed> none;
    for (int k = 0; k < layers; k++)
    {
        const auto it = printed.find(k);
        const auto& ls = it == printed.end() ? none : it->second;
        const auto wall = [](const eng::Printed& q) { return q.type == "WALL-OUTER"; };
        // along the sheets
        for (const auto& l : lines)
            for (size_t i = 0; i + 1 < l.size(); i++)
                for (double t : { 0.03, 0.5, 0.97 })
                {
                    const V2 p{ (l[i].X + t * (l[i + 1].X - l[i].X)) / 1000, (l[i].Y + t * (l[i + 1].Y - l[i].Y)) / 1000 };
                    const double d = eng::nearest(ls, p, wall);
                    if (mode == "normal")
                        PBT_CHECK(d > 1, "layer %d: a sheet is printed at (%.3f, %.3f)", k, p.x, p.y);
                    else
                        PBT_CHECK(d < 0.02, "layer %d: the sheet at (%.3f, %.3f) is %.3f from the nearest wall", k, p.x, p.y, d);
                }
        for (const auto& [sa, sb] : closed.segs)
            for (double t : { 0.1, 0.5, 0.9 })
            {
                const V2 p{ sa.x + t * (sb.x - sa.x), sa.y + t * (sb.y - sa.y) };
                const double d = eng::nearest(ls, p, wall);
                if (mode == "surface")
                    PBT_CHECK(d < 0.02, "layer %d: the border at (%.3f, %.3f) is %.3f from the nearest wall", k, p.x, p.y, d);
                else
                    PBT_CHECK(d > W / 2 - 0.02, "layer %d: there is a wall %.3f from the border at (%.3f, %.3f)", k, d, p.x, p.y);
            }
        for (const eng::Printed& l : ls)
        {
            const V2 mid{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
            const double dc = nc ? closed.dist(mid) : 1e9, d_open = no ? open.dist(mid) : 1e9;
            if (mode == "surface")
                PBT_CHECK(std::min(dc, d_open) < 0.02 && l.type == "WALL-OUTER", "layer %d: %s at (%.3f, %.3f), %.3f from the surface", k, l.type.c_str(), mid.x, mid.y, std::min(dc, d_open));
            else if (l.type == "WALL-OUTER")
                PBT_CHECK((mode == "both" && d_open < 0.02) || (nc && closed.depth(mid) > W / 2 - 0.06), "layer %d: a wall at (%.3f, %.3f), %.3f from the sheets and %.3f in the solids", k, mid.x, mid.y, d_open, nc ? closed.depth(mid) : 0);
            else
                PBT_CHECK(nc && closed.depth(mid) > 0, "layer %d: %s at (%.3f, %.3f), outside", k, l.type.c_str(), mid.x, mid.y);
        }
    }
    if (no || mode != "normal")
        c.nontrivial();
    c.label(mode);
}

// ---------------------------------------------------------------------------------------------- fuzz
struct Wall
{
    std::vector<V2> pts;
    std::vector<double> width; // of the line to the point
    std::string type;
};
static std::map<int, std::vector<Wall>> wallsOf(const eng::GCode& gc, double h)
{
    std::map<int, std::vector<Wall>> out;
    bool going = false;
    for (const eng::Ev& v : gc.ev)
    {
        if (v.kind == eng::Ev::LAYER)
            going = false;
        if (v.kind != eng::Ev::MOVE || ! (v.has_x || v.has_y))
            continue;
        if (! v.extrudes() || v.type.rfind("WALL", 0) != 0)
        {
            going = going && v.len() < 1e-6;
            continue;
        }
        auto& ls = out[v.layer];
        if (! going || ls.back().type != v.type || (ls.back().pts.size() > 4 && std::hypot(ls.back().pts.back().x - ls.back().pts.front().x, ls.back().pts.back().y - ls.back().pts.front().y) < 0.002))
            ls.push_back({ { { v.x0, v.y0 } }, {}, v.type });
        going = true;
        ls.back().pts.push_back({ v.x, v.y });
        ls.back().width.push_back(v.len() > 1e-9 ? v.e * AREA / v.len() / h : 0);
    }
    for (auto& [k, ls] : out) // what is left of a loop after it came back to its start
        ls.erase(
            std::remove_if(
                ls.begin(),
                ls.end(),
                [](const Wall& l)
                {
                    double len = 0;
                    for (size_t i = 0; i + 1 < l.pts.size(); i++)
                        len += std::hypot(l.pts[i].x - l.pts[i + 1].x, l.pts[i].y - l.pts[i + 1].y);
                    return len < 0.02;
                }),
            ls.end());
    return out;
}
static void fuzz(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(w);
    const double T = g.real(0.05, W / 2), D = g.real(0.3, 1.2);
    const bool only = g.flip(), brim = g.chance(1, 4), inner = g.flip();
    j.set("wall_line_count", inner ? "2" : "1");
    j.set("magic_fuzzy_skin_thickness", num(T));
    j.set("magic_fuzzy_skin_point_dist", num(D));
    j.set("magic_fuzzy_skin_outside_only", only ? "True" : "False");
    j.set("adhesion_type", brim ? "brim" : "none");
    const coord_t x = g.range((coord_t)15000, (coord_t)30000), y = g.range((coord_t)15000, (coord_t)30000);
    const coord_t a = g.chance(1, 2) ? 0 : g.range((coord_t)2500, (coord_t)3500);
    const double turn = g.real(0, 6.28);
    const auto box = [&](coord_t X, coord_t Y)
    {
        std::vector<Point2LL> r;
        for (const auto& [sx, sy] : { std::pair(-1, -1), std::pair(1, -1), std::pair(1, 1), std::pair(-1, 1) })
            r.emplace_back(std::llround(0.5 * (sx * X * std::cos(turn) - sy * Y * std::sin(turn))), std::llround(0.5 * (sx * X * std::sin(turn) + sy * Y * std::cos(turn))));
        return r;
    };
    const auto r = box(x, y);
    eng::Mesh m;
    const int layers = (int)g.range((int64_t)2, (int64_t)4);
    m.loft({ r, r }, { 0, layers * 200 });
    eng::Section out, hole;
    addRing(out, r);
    std::string what = strPts(r);
    if (a)
    {
        auto hr = box(a * 2, a);
        addRing(hole, hr);
        what += " hole " + strPts(hr);
        std::reverse(hr.begin(), hr.end());
        m.loft({ hr, hr }, { 0, layers * 200 });
    }
    place(j, m);
    j.set("magic_fuzzy_skin_enabled", "True");
    const auto walls = wallsOf(run(c, j, what), 0.2);
    double moved = 0;
    int n = 0;
    for (int k = 0; k < layers; k++)
    {
        PBT_CHECK(walls.count(k), "layer %d has no walls", k);
        int outer = 0, inside = 0;
        for (const Wall& l : walls.at(k))
        {
            const bool in_hole = a && hole.dist(l.pts[0]) < out.dist(l.pts[0]);
            const eng::Section& s = in_hole ? hole : out;
            const double len = 2 * (in_hole ? 3 * a : x + y) / 1000.0 + (in_hole ? 4 : -4) * W; // (of the middle of the line)
            const double at = l.type == "WALL-INNER" ? 1.5 * W : 0.5 * W;
            const bool rough = l.type == "WALL-OUTER" && ! (in_hole && only) && ! (brim && k == 0);
            if (l.type == "WALL-OUTER")
                (in_hole ? inside : outer)++;
            for (size_t i = 0; i < l.pts.size(); i++)
            {
                const V2& p = l.pts[i];
                if (rough && i > 0 && i + 1 < l.pts.size() && eng::segDist(p, l.pts[i - 1], l.pts[i + 1]) <= 0.0021)
                    continue; // where the speed changes
                const double off = s.dist(p) - at;
                PBT_CHECK(std::abs(off) <= (rough ? T + 0.02 : 0.03), "layer %d: %s %s is off by %.3f at (%.3f, %.3f)", k, l.type.c_str(), in_hole ? "of the hole" : "outside", off, p.x, p.y);
                if (rough)
                    moved += std::abs(off), n++;
            }
            if (rough)
            {
                double points = 0; // but for those where the speed changes
                for (size_t i = 0; i < l.pts.size(); i++)
                    points += i == 0 || i + 1 == l.pts.size() || eng::segDist(l.pts[i], l.pts[i - 1], l.pts[i + 1]) > 0.0021;
                // (a corner may begin with a point of its own)
                PBT_CHECK(points >= len / (1.25 * D) * 0.92 - 6 && points <= len / (0.75 * D - 0.001) * 1.1 + (in_hole ? 40 : 15), "layer %d: %.0f points on %.3f mm", k, points, len);
            }
        }
        PBT_CHECK(outer == 1 && inside == (a ? 1 : 0), "layer %d: %d walls outside, %d of the hole", k, outer, inside);
    }
    if (n > 100) // an even spread has a mean of half the thickness
        PBT_CHECK(moved / n > 0.2 * T && moved / n < 0.75 * T, "the points are moved by %.3f on average", moved / n);
    if (n > 60)
        c.nontrivial();
    c.label(std::string(a ? only ? "hole, outside only" : "hole" : "no hole") + (brim ? ", brim" : ""));
}
// The lines keep their widths
static void fuzzWidth(Case& c)
{
    Gen& g = c.g;
    const coord_t w = 400;
    eng::Job j = job(w);
    const double T = g.real(0.01, 0.03), D = g.real(0.5, 1.2);
    j.set("wall_line_count", "2");
    j.set("magic_fuzzy_skin_thickness", num(T));
    j.set("magic_fuzzy_skin_point_dist", num(D));
    j.set("magic_fuzzy_skin_outside_only", "False");
    const coord_t len = g.range((coord_t)8000, (coord_t)25000), t0 = g.range((coord_t)500, (coord_t)760), t1 = g.range((coord_t)500, (coord_t)760);
    const double turn = g.real(0, 6.28);
    std::vector<Point2LL> r;
    for (const auto& [X, Y] : { std::pair<coord_t, coord_t>(0, -t0), { len, -t1 }, { len, t1 }, { 0, t0 } })
        r.emplace_back(std::llround(X * std::cos(turn) - Y / 2.0 * std::sin(turn)), std::llround(X * std::sin(turn) + Y / 2.0 * std::cos(turn)));
    eng::Mesh m;
    m.loft({ r, r }, { 0, 400 });
    place(j, m);
    eng::Job k = j;
    k.set("magic_fuzzy_skin_enabled", "True");
    j.set("magic_fuzzy_skin_enabled", "False");
    const auto plain = wallsOf(run(c, j, strPts(r)), 0.2), rough = wallsOf(run(c, k, ""), 0.2);
    int n = 0;
    double spread = 0, lo = 1e9;
    for (int layer = 0; layer < 2; layer++)
    {
        PBT_CHECK(plain.count(layer) && rough.count(layer), "layer %d is empty", layer);
        for (const Wall& l : rough.at(layer))
            for (size_t i = 0; i + 1 < l.pts.size(); i++)
            {
                const V2 mid{ (l.pts[i].x + l.pts[i + 1].x) / 2, (l.pts[i].y + l.pts[i + 1].y) / 2 };
                const double at = (mid.x * std::cos(turn) + mid.y * std::sin(turn)) * 1000;
                if (at < 2500 || at > len - 2500)
                    continue;
                double d = 1e9, width = 0;
                for (const Wall& q : plain.at(layer))
                    for (size_t e = 0; e + 1 < q.pts.size(); e++)
                        if (const double dist = eng::segDist(mid, q.pts[e], q.pts[e + 1]); dist < d)
                            d = dist, width = q.width[e];
                double a = 1e9, b = 0; // widths around
                for (const Wall& q : plain.at(layer))
                    for (size_t e = 0; e + 1 < q.pts.size(); e++)
                        if (eng::segDist(mid, q.pts[e], q.pts[e + 1]) < 2)
                            a = std::min(a, q.width[e]), b = std::max(b, q.width[e]);
                if (b - a > 0.12)
                    continue; // one line here, two there
                PBT_CHECK(d < T + 0.08, "layer %d: a wall at (%.3f, %.3f) is %.3f from those without fuzz", layer, mid.x, mid.y, d);
                PBT_CHECK(std::abs(l.width[i] - width) < 0.04, "layer %d: the wall at (%.3f, %.3f) is %.3f wide, without fuzz %.3f", layer, mid.x, mid.y, l.width[i], width);
                n++;
                lo = std::min(lo, width);
                spread = std::max(spread, width - lo);
            }
    }
    if (n > 10 && spread > 0.03)
        c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- layers that adapt
static void adaptive(Case& c)
{
    Gen& g = c.g;
    eng::Job j = job(400);
    const coord_t base = g.range((coord_t)5, (coord_t)30) * 10, h0 = g.range((coord_t)5, (coord_t)40) * 10;
    const coord_t step = g.range((coord_t)1, (coord_t)6) * 10, variation = g.range((coord_t)0, (coord_t)5) * step + (g.flip() ? 0 : g.range((coord_t)0, (coord_t)9));
    const coord_t threshold = g.range((coord_t)5, (coord_t)60) * 10;
    j.layerHeight(base, h0);
    j.set("adaptive_layer_height_enabled", "True");
    j.set("adaptive_layer_height_variation", eng::mm(variation));
    j.set("adaptive_layer_height_variation_step", eng::mm(step));
    j.set("adaptive_layer_height_threshold", eng::mm(threshold));
    const std::string tolerance = g.oneof<std::string>({ "middle", "middle", "exclusive", "inclusive" });
    j.set("slicing_tolerance", tolerance);
    // a tower of frusta
    const int n = (int)g.range((int64_t)1, (int64_t)4);
    const auto r = ccw(genStar(g, Point2LL(0, 0), 10000, 14000, 4, 7));
    std::vector<std::vector<Point2LL>> rings{ r };
    std::vector<long long> zs{ 0 };
    double s = 1;
    std::string what = strPts(r);
    for (int i = 0; i < n; i++)
    {
        s = g.chance(1, 3) ? s : s * g.real(0.7, 1.1);
        rings.push_back(scaled(r, s));
        zs.push_back(zs.back() + g.range((coord_t)20, (coord_t)300) * 10);
        what += " x" + num(s) + " at " + num(zs.back() / 1000.0);
    }
    eng::Mesh m;
    m.loft(rings, zs);
    place(j, m);
    if (zs.back() <= h0 + base + variation)
        return c.discard(); // (layers are cut at their tops: there may be nothing to print)
    const eng::GCode gc = run(c, j, what + " (" + num(threshold) + ")");
    std::map<int, double> z_of;
    for (const eng::Ev& v : gc.ev)
        if (v.extrudes())
        {
            PBT_CHECK(! z_of.count(v.layer) || std::abs(z_of[v.layer] - v.z) < 0.0005, "layer %d is printed at %.3f and %.3f", v.layer, z_of[v.layer], v.z);
            z_of[v.layer] = v.z;
        }
    // thicknesses to choose from, and the slopes there are
    std::vector<coord_t> allowed;
    for (coord_t h = base + variation; h >= base - variation && h > 0; h -= step)
        allowed.push_back(h);
    struct Face
    {
        double lo, hi, tan;
    };
    std::vector<Face> faces;
    for (const auto& t : m.tris)
    {
        const double ux = t[1].x - t[0].x, uy = t[1].y - t[0].y, uz = t[1].z - t[0].z, vx = t[2].x - t[0].x, vy = t[2].y - t[0].y, vz = t[2].z - t[0].z;
        const double nx = uy * vz - uz * vy, ny = uz * vx - ux * vz, nz = ux * vy - uy * vx;
        const double flat = std::hypot(nx, ny);
        faces.push_back({ std::min({ (double)t[0].z, (double)t[1].z, (double)t[2].z }), std::max({ (double)t[0].z, (double)t[1].z, (double)t[2].z }), flat < 1e-9 * std::abs(nz) ? 0 : std::abs(nz) < 1e-9 * flat ? 1e9 : flat / std::abs(nz) });
    }
    coord_t z = 0, before = 0;
    int thin = 0, thick = 0;
    PBT_CHECK(! z_of.empty() && z_of.begin()->first == 0, "the first layer is missing");
    for (const auto& [layer, at] : z_of)
    {
        const coord_t now = std::llround(at * 1000), h = now - z;
        if (layer == 0)
            PBT_CHECK(now == h0, "the first layer is at %lld", (long long)now);
        else
        {
            PBT_CHECK(z_of.count(layer - 1), "layer %d is missing", layer - 1);
            PBT_CHECK(std::count(allowed.begin(), allowed.end(), h), "layer %d is %lld thick", layer, (long long)h);
            // would a layer this thick step out too far?
            const auto steep = [&](coord_t t, double eps) -> bool
            {
                const double to = z + (tolerance == "middle" ? t / 2 : t);
                for (const Face& f : faces)
                    if (f.tan > 0 && f.lo <= to + eps && f.hi >= z - eps && t / f.tan > threshold * (1 - 0.001 * eps))
                        return true;
                return false;
            };
            const coord_t least = allowed.back();
            if (h > before)
                PBT_CHECK(h - before <= step || h == least, "layer %d is %lld thick after %lld", layer, (long long)h, (long long)before);
            const bool forced = before - h > step; // got thinner as fast as may be
            if (forced)
                PBT_CHECK(before - h <= 2 * step || h == allowed.front(), "layer %d is %lld thick after %lld", layer, (long long)h, (long long)before);
            if (h != least && ! forced)
                PBT_CHECK(! steep(h, -1), "layer %d is %lld thick at %lld: more than %lld wide steps", layer, (long long)h, (long long)z, (long long)threshold);
            for (const coord_t t : allowed)
                if (t > h && (t - before <= step || t == least))
                {
                    PBT_CHECK(steep(t, 1), "layer %d is only %lld thick at %lld, after %lld: it could be %lld", layer, (long long)h, (long long)z, (long long)before, (long long)t);
                    PBT_CHECK(before - t <= step, "layer %d is %lld thick at %lld, after %lld", layer, (long long)h, (long long)z, (long long)before);
                }
            thin += h < base;
            thick += h > base;
        }
        z = now;
        before = h;
    }
    const coord_t top = zs.back();
    PBT_CHECK(z >= top - allowed.front() * (tolerance == "exclusive" ? 2 : 1) && z <= top + allowed.front(), "the print ends at %lld, the model at %lld", (long long)z, (long long)top);
    if (thin && thick)
        c.nontrivial();
    c.label(thin ? thick ? "thin and thick" : "thin" : thick ? "thick" : "base");
}

// ---------------------------------------------------------------------------------------------- coasting
struct Path
{
    std::vector<V2> pts;
    std::vector<double> vol, speed;
    double volume = 0, length = 0;
    std::string type;
};
static void coasting(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    eng::Job j = job(w);
    j.set("wall_line_count", num(g.range((int64_t)1, (int64_t)2)));
    j.set("infill_line_distance", g.flip() ? "0" : "3");
    j.set("travel_retract_before_outer_wall", "no_retract");
    j.set("retraction_enable", g.flip() ? "True" : "False");
    j.set("z_seam_type", "back");
    j.set("z_seam_position", "back");
    j.set("z_seam_corner", "z_seam_corner_none");
    const double V = g.real(0.01, 2), least = g.flip() ? V * g.real(0.2, 1) : g.real(0.01, 6), slow = g.real(20, 150);
    eng::Mesh m;
    const int n = (int)g.range((int64_t)1, (int64_t)3);
    std::string what;
    for (int i = 0; i < n; i++)
    {
        const auto r = ccw(genStar(g, Point2LL(i * 25000, 0), 1500, 10000, 3, 9));
        m.loft({ r, r }, { 0, 400 });
        what += strPts(r);
    }
    place(j, m);
    eng::Job k = j;
    k.set("coasting_enable", "True");
    k.set("coasting_volume", num(V));
    k.set("coasting_min_volume", num(least));
    k.set("coasting_speed", num(slow));
    const eng::GCode off = run(c, j, what + " coasting " + num(V) + " from " + num(least)), on = run(c, k, "");
    const auto paths = [](const eng::GCode& gc)
    {
        std::map<int, std::vector<Path>> out;
        bool going = false;
        for (const eng::Ev& v : gc.ev)
        {
            if (v.kind == eng::Ev::LAYER)
                going = false;
            if (v.kind != eng::Ev::MOVE || ! (v.has_x || v.has_y))
                continue;
            if (! v.extrudes())
            {
                if (going && v.len() > 1e-6 && v.type.rfind("WALL", 0) != 0)
                    out[v.layer].back().type = v.type; // (it goes on with something for which nothing is fed)
                going = going && v.len() < 1e-6;
                continue;
            }
            auto& ls = out[v.layer];
            if (! going)
                ls.push_back({ { { v.x0, v.y0 } }, {}, {}, 0, 0, v.type });
            going = true;
            ls.back().pts.push_back({ v.x, v.y });
            ls.back().vol.push_back(v.e * AREA);
            ls.back().volume += v.e * AREA;
            ls.back().length += v.len();
            ls.back().type = v.type; // of the end
        }
        return out;
    };
    const auto a = paths(off), b = paths(on);
    int coasted = 0, whole = 0;
    for (const auto& [layer, ps] : a)
    {
        std::vector<bool> used;
        const auto bl = b.find(layer);
        static const std::vector<Path> none;
        const auto& qs = bl == b.end() ? none : bl->second;
        used.assign(qs.size(), false);
        for (const Path& p : ps)
        {
            // the path that starts at the same place and goes the same way
            const Path* q = nullptr;
            for (size_t i = 0; i < qs.size(); i++)
                if (! used[i] && std::hypot(qs[i].pts[0].x - p.pts[0].x, qs[i].pts[0].y - p.pts[0].y) < 0.003)
                {
                    const double cross = std::abs((qs[i].pts[1].x - p.pts[0].x) * (p.pts[1].y - p.pts[0].y) - (qs[i].pts[1].y - p.pts[0].y) * (p.pts[1].x - p.pts[0].x));
                    if (cross < 0.005 * std::hypot(p.pts[1].x - p.pts[0].x, p.pts[1].y - p.pts[0].y) + 1e-9)
                    {
                        q = &qs[i];
                        used[i] = true;
                        break;
                    }
                }
            const bool is_wall = p.type.rfind("WALL", 0) == 0;
            // (lengths are whole µm)
            const double tol = 0.004 + 0.003 * p.volume + V * std::min(0.1, 0.0008 * (double)p.pts.size() / p.length);
            if (is_wall && std::abs(p.volume - least) < tol)
                continue;
            if (is_wall && p.volume > least && std::abs(p.volume - V) < tol)
                continue;
            const bool coast = is_wall && p.volume >= least;
            const double want = coast ? std::max(0.0, p.volume - V) : p.volume;
            PBT_CHECK((q ? q->volume : 0) > want - tol && (q ? q->volume : 0) < want + tol, "layer %d: %s from (%.3f, %.3f) of %.4f mm³: %.4f mm³ with coasting, not %.4f", layer, p.type.c_str(), p.pts[0].x, p.pts[0].y, p.volume, q ? q->volume : 0, want);
            if (q)
            {
                // it lies on the path
                for (const V2& x : q->pts)
                {
                    double d = 1e9;
                    for (size_t i = 0; i + 1 < p.pts.size(); i++)
                        d = std::min(d, eng::segDist(x, p.pts[i], p.pts[i + 1]));
                    PBT_CHECK(d < 0.005, "layer %d: the path from (%.3f, %.3f) leaves its way", layer, p.pts[0].x, p.pts[0].y);
                }
            }
            coasted += coast && want > 0;
            whole += coast && want == 0;
        }
    }
    // where nothing is fed, the nozzle goes on along the path at the set speed
    std::map<int, std::vector<std::pair<V2, V2>>> coast_moves;
    std::map<int, std::vector<double>> speeds;
    const eng::Ev* last = nullptr;
    bool tail = false;
    double done = 0;
    int checked = 0;
    std::map<int, std::vector<const Path*>> ends;
    for (const eng::Ev& v : on.ev)
    {
        if (v.kind == eng::Ev::LAYER)
            tail = false, last = nullptr;
        if (v.kind != eng::Ev::MOVE || ! (v.has_x || v.has_y))
        {
            if (v.kind == eng::Ev::FILAMENT)
                tail = false;
            continue;
        }
        if (v.extrudes())
        {
            last = &v;
            tail = v.type.rfind("WALL", 0) == 0;
            done = 0;
            continue;
        }
        if (! tail || ! last || v.len() < 0.02)
            continue;
        // is it along some wall that ends here?
        const V2 mid{ (v.x0 + v.x) / 2, (v.y0 + v.y) / 2 };
        bool along = false;
        const auto ap = a.find(v.layer);
        if (ap != a.end())
            for (const Path& p : ap->second)
                for (size_t i = 0; i + 1 < p.pts.size(); i++)
                    along = along || (p.type == last->type && eng::segDist(mid, p.pts[i], p.pts[i + 1]) < 0.003 && eng::segDist({ v.x, v.y }, p.pts[i], p.pts[i + 1]) < 0.003 && eng::segDist({ v.x0, v.y0 }, p.pts[i], p.pts[i + 1]) < 0.003);
        if (! along)
        {
            tail = false;
            continue;
        }
        const double A = last->e * AREA / last->len();
        if (last->len() < 0.3 || done + v.len() > V / A * 0.95)
        {
            tail = false;
            continue;
        }
        done += v.len();
        PBT_CHECK(std::abs(v.f - last->f * slow / 100) < 0.02 * last->f + 1, "layer %d: coasting to (%.3f, %.3f) at %.1f mm/min, the wall at %.1f", v.layer, v.x, v.y, v.f, last->f);
        checked++;
    }
    if (coasted || whole)
        c.nontrivial();
    c.label(whole ? "whole paths" : coasted ? "coasted" : "too short");
}

// ---------------------------------------------------------------------------------------------- shields
static void shield(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    eng::Job j = job(w);
    const int h0 = (int)g.range((int64_t)10, (int64_t)30) * 10, h = (int)g.range((int64_t)10, (int64_t)60) * 10;
    j.layerHeight(h, h0);
    const bool limited = g.flip();
    const coord_t dist = g.range((coord_t)20, (coord_t)150) * 100, height = g.range((coord_t)10, (coord_t)400) * 10;
    j.set("draft_shield_enabled", "True");
    j.set("draft_shield_height_limitation", limited ? "limited" : "full");
    j.set("draft_shield_height", eng::mm(height));
    j.set("draft_shield_dist", eng::mm(dist));
    const coord_t sw = g.range((coord_t)300, (coord_t)600);
    j.set("skirt_brim_line_width", eng::mm(sw));
    eng::Mesh m;
    const int n = (int)g.range((int64_t)1, (int64_t)3), layers = (int)g.range((int64_t)2, (int64_t)9);
    std::string what;
    std::vector<Point2LL> all;
    for (int i = 0; i < n; i++)
    {
        const auto r = ccw(genStar(g, Point2LL(i * 20000, i == 1 ? 9000 : 0), 2000, 7000, 3, 8));
        m.loft({ r, r }, { 0, h0 + (layers - 1) * h });
        what += strPts(r);
        all.insert(all.end(), r.begin(), r.end());
    }
    place(j, m);
    const eng::GCode gc = run(c, j, what);
    // their hull
    std::sort(all.begin(), all.end(), [](const Point2LL& p, const Point2LL& q) { return p.X != q.X ? p.X < q.X : p.Y < q.Y; });
    std::vector<Point2LL> hull;
    for (int pass = 0; pass < 2; pass++)
    {
        const size_t start = hull.size();
        for (const Point2LL& p : all)
        {
            while (hull.size() >= start + 2 && (__int128)(hull.back().X - hull[hull.size() - 2].X) * (p.Y - hull.back().Y) <= (__int128)(hull.back().Y - hull[hull.size() - 2].Y) * (p.X - hull.back().X))
                hull.pop_back();
            hull.push_back(p);
        }
        hull.pop_back();
        std::reverse(all.begin(), all.end());
    }
    eng::Section sec;
    addRing(sec, hull);
    int with = 0, without = 0;
    for (int k = 0; k < layers; k++)
    {
        const coord_t bottom = k ? h0 + (k - 1) * h : 0, top = h0 + k * h;
        double len = 0;
        std::vector<std::pair<V2, V2>> ls;
        for (const eng::Ev& v : gc.ev)
            if (v.layer == k && v.extrudes() && v.type == "SKIRT")
            {
                len += v.len();
                ls.push_back({ { v.x0, v.y0 }, { v.x, v.y } });
                const double width = v.e * AREA / v.len() / ((k ? h : h0) / 1000.0);
                PBT_CHECK(v.len() < 0.3 || std::abs(width - sw / 1000.0) < 0.02, "layer %d: the shield is %.3f wide", k, width);
                for (double t : { 0.0, 0.5, 1.0 })
                {
                    const V2 p{ v.x0 + t * (v.x - v.x0), v.y0 + t * (v.y - v.y0) };
                    const double d = -sec.depth(p);
                    // (corners are mitred)
                    PBT_CHECK(d > dist / 1000.0 - 0.03 && d < dist / 1000.0 * 2 + 0.03, "layer %d: the shield is %.3f from the models at (%.3f, %.3f)", k, d, p.x, p.y);
                }
            }
        if (! limited || top <= height)
        {
            with++;
            PBT_CHECK(len > 0, "layer %d, up to %lld, has no shield", k, (long long)top);
            // all around
            for (size_t i = 0; i < hull.size(); i++)
            {
                const Point2LL &a = hull[i], &b = hull[(i + 1) % hull.size()];
                const double l = std::hypot(b.X - a.X, b.Y - a.Y);
                if (l < 1000)
                    continue;
                const V2 p{ ((a.X + b.X) / 2 + (b.Y - a.Y) / l * dist) / 1000, ((a.Y + b.Y) / 2 - (b.X - a.X) / l * dist) / 1000 };
                double d = 1e9;
                for (const auto& [x, y] : ls)
                    d = std::min(d, eng::segDist(p, x, y));
                PBT_CHECK(d < 0.03, "layer %d: the shield is %.3f from (%.3f, %.3f)", k, d, p.x, p.y);
            }
        }
        else if (bottom >= height)
        {
            without++;
            PBT_CHECK(len == 0, "layer %d, from %lld, has a shield", k, (long long)bottom);
        }
    }
    if (with > 1 && (without || ! limited))
        c.nontrivial();
    c.label(limited ? without ? "ends" : "limit not reached" : "full");
}

// ---------------------------------------------------------------------------------------------- one at a time
static void sequence(Case& c)
{
    Gen& g = c.g;
    const coord_t w = 400;
    eng::Job j = job(w);
    const int n = (int)g.range((int64_t)2, (int64_t)4);
    j.set("print_sequence", "one_at_a_time");
    j.set("retraction_enable", g.flip() ? "True" : "False");
    j.set("retraction_hop_enabled", g.chance(1, 3) ? "True" : "False");
    j.set("infill_line_distance", g.flip() ? "0" : "4");
    std::string what;
    struct Object
    {
        double x0, y0, x1, y1, top;
    };
    std::vector<Object> os;
    std::vector<int> spot;
    for (int i = 0; i < n; i++)
        spot.push_back(i);
    for (int i = n - 1; i > 0; i--)
        std::swap(spot[i], spot[g.draw(i)]);
    for (int i = 0; i < n; i++)
    {
        const auto r = ccw(genStar(g, Point2LL((spot[i] % 2) * 60000 - 30000, (spot[i] / 2) * 60000 - 30000), 3000, 10000, 3, 8));
        const int layers = (int)g.range((int64_t)1, (int64_t)(g.chance(1, 3) ? 40 : 8));
        eng::Mesh m;
        m.loft({ r, r }, { 0, layers * 200 });
        place(j, m, "g" + std::to_string(i) + ".stl", i);
        Object o{ 1e9, 1e9, -1e9, -1e9, layers * 0.2 };
        for (const Point2LL& p : r)
        {
            o.x0 = std::min(o.x0, p.X / 1000.0), o.x1 = std::max(o.x1, p.X / 1000.0);
            o.y0 = std::min(o.y0, p.Y / 1000.0), o.y1 = std::max(o.y1, p.Y / 1000.0);
        }
        os.push_back(o);
        what += strPts(r) + " " + num(o.top) + "; ";
    }
    const eng::GCode gc = run(c, j, what);
    int at = -1, layer = -1;
    double high = 0;
    std::vector<double> reached(n, 0);
    bool between = false;
    double between_z = 0;
    for (const eng::Ev& v : gc.ev)
    {
        if (v.kind == eng::Ev::LAYER)
            layer = (int)v.value;
        if (v.kind != eng::Ev::MOVE)
            continue;
        if (v.extrudes())
        {
            // which object is it?
            int o = -1;
            for (int i = 0; i < n; i++)
                if (v.x > os[i].x0 - 0.5 && v.x < os[i].x1 + 0.5 && v.y > os[i].y0 - 0.5 && v.y < os[i].y1 + 0.5)
                    o = i;
            PBT_CHECK(o >= 0, "something is printed at (%.3f, %.3f), on no object", v.x, v.y);
            if (o != at)
            {
                PBT_CHECK(o == at + 1, "object %d is begun after %d", o, at);
                if (at >= 0)
                    PBT_CHECK(reached[at] > os[at].top - 0.3, "object %d is begun when %d is only %.3f high, of %.3f", o, at, reached[at], os[at].top);
                at = o;
                PBT_CHECK(std::abs(v.z - 0.2) < 0.002, "object %d begins at %.3f", o, v.z);
            }
            reached[o] = std::max(reached[o], v.z);
            high = std::max(high, v.z);
        }
        // what is finished is not run into
        if (v.len() > 1e-6)
            for (int i = 0; i < n; i++)
                if (i < at || (i == at && reached[i] > os[i].top - 0.1 && ! v.extrudes()))
                {
                    const double low = std::min(v.z, v.z0);
                    bool over = false;
                    for (int s = 0; s <= 40 && ! over; s++)
                    {
                        const double x = v.x0 + (v.x - v.x0) * s / 40, y = v.y0 + (v.y - v.y0) * s / 40;
                        over = x > os[i].x0 && x < os[i].x1 && y > os[i].y0 && y < os[i].y1;
                    }
                    if (over)
                        PBT_CHECK(low > reached[i] - 0.001, "the nozzle goes through object %d, which is %.3f high, at %.3f", i, reached[i], low);
                    if (over && i < at)
                        PBT_CHECK(low > reached[i] + 4, "the nozzle goes over object %d, which is %.3f high, at %.3f", i, reached[i], low);
                    // from one object to the next, it goes above all of them
                    const bool leaves = i == at && ! (v.x > os[i].x0 - 5 && v.x < os[i].x1 + 5 && v.y > os[i].y0 - 5 && v.y < os[i].y1 + 5);
                    if (leaves && at + 1 < n && v.x0 > os[i].x0 - 0.5 && v.x0 < os[i].x1 + 0.5 && v.y0 > os[i].y0 - 0.5 && v.y0 < os[i].y1 + 0.5)
                        PBT_CHECK(low > high + 4.5, "object %d is left at %.3f, while there is something %.3f high", i, low, high);
                }
    }
    PBT_CHECK(at == n - 1 && reached[at] > os[at].top - 0.3, "the last object printed is %d of %d, up to %.3f", at, n, at >= 0 ? reached[at] : 0);
    (void)between, (void)between_z, (void)layer;
    c.nontrivial();
    c.label(num(n) + " objects");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G22",
                  {
                      { "spiral", 1500, 15000, "over ten points on the spiral", spiral },
                      { "sheets", 1500, 15000, "sheets, or solids printed as surfaces", sheets },
                      { "fuzz", 1200, 12000, "over 60 points", fuzz },
                      { "fuzzWidth", 500, 5000, "walls of varying width", fuzzWidth },
                      { "adaptive", 1500, 15000, "layers thinner and thicker than the base", adaptive },
                      { "coasting", 1500, 15000, "paths long enough to coast", coasting },
                      { "shield", 1500, 15000, "two layers with a shield, and the end of it if limited", shield },
                      { "sequence", 1200, 12000, "every case", sequence },
                  });
    return r.main(argc, argv);
}
