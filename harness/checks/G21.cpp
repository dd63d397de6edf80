// G21 where models, cutters, fillers, moulds and offsets end up in the print
// SOURCES: ALL
#include <map>
#include <set>

#include "engine_geo.h"
#include "geo.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
using eng::num;
using eng::V2;

struct Loop
{
    std::vector<V2> pts;
    std::string mesh;
    int no = 0;
    bool closed() const
    {
        return pts.size() > 3 && std::hypot(pts.front().x - pts.back().x, pts.front().y - pts.back().y) < 0.01;
    }
};
struct Print
{
    std::map<int, std::vector<Loop>> walls; // outer walls by layer
    std::map<int, std::vector<std::pair<std::string, std::pair<V2, V2>>>> fill; // infill lines by layer, with the mesh
    std::map<int, double> z;
};
static std::string base(const std::string& f)
{
    std::string s = f.substr(f.rfind('/') + 1);
    if (s.rfind("kj-", 0) == 0)
        s = s.substr(3);
    while (! s.empty() && isdigit(s[0])) // the harness numbers the files
        s = s.substr(1);
    return s.substr(0, s.rfind('.'));
}
static Print printOf(const eng::GCode& gc)
{
    Print p;
    bool going = false;
    for (const eng::Ev& v : gc.ev)
    {
        if (v.kind == eng::Ev::LAYER || v.kind == eng::Ev::MESH)
            going = false;
        if (v.kind != eng::Ev::MOVE || ! (v.has_x || v.has_y))
            continue;
        if (! v.extrudes())
        {
            going = going && v.len() < 1e-6;
            continue;
        }
        p.z[v.layer] = v.z;
        if (v.type == "FILL")
            p.fill[v.layer].push_back({ base(v.mesh), { { v.x0, v.y0 }, { v.x, v.y } } });
        if (v.type != "WALL-OUTER")
        {
            going = false;
            continue;
        }
        auto& ls = p.walls[v.layer];
        if (! going || ls.back().closed())
        {
            ls.push_back({ { { v.x0, v.y0 } }, base(v.mesh), v.no });
        }
        going = true;
        ls.back().pts.push_back({ v.x, v.y });
    }
    return p;
}
// whether a place is inside of the outer walls of a mesh
static int within(const std::vector<Loop>& ls, const std::string& mesh, V2 p)
{
    // Thin bits are open lines, and where walls meet a loop may come in pieces: with and without them, and seen from several sides
    int got = -1;
    for (int k = 0; k < 5; k++)
    {
        const double cs = std::cos(0.3 + k * 1.2566), sn = std::sin(0.3 + k * 1.2566);
        bool in = false, all = false;
        for (const Loop& l : ls)
            if (mesh.empty() || l.mesh == mesh)
                for (size_t i = 0; i + 1 < l.pts.size(); i++)
                {
                    const double ax = (l.pts[i].x - p.x) * cs + (l.pts[i].y - p.y) * sn, ay = (l.pts[i].y - p.y) * cs - (l.pts[i].x - p.x) * sn;
                    const double bx = (l.pts[i + 1].x - p.x) * cs + (l.pts[i + 1].y - p.y) * sn, by = (l.pts[i + 1].y - p.y) * cs - (l.pts[i + 1].x - p.x) * sn;
                    if ((ay > 0) != (by > 0) && 0 < ax - ay / (by - ay) * (bx - ax))
                    {
                        all = ! all;
                        in = in != l.closed();
                    }
                }
        if (in != all || (got >= 0 && got != (int)in))
            return 2;
        got = in;
    }
    return got;
}
static bool differs(int got, bool want) // 2: not known
{
    return got != 2 && (got == 1) != want;
}
static double wallDist(const std::vector<Loop>& ls, const std::string& mesh, V2 p)
{
    double d = 1e9;
    for (const Loop& l : ls)
        if (mesh.empty() || l.mesh == mesh)
            for (size_t i = 0; i + 1 < l.pts.size(); i++)
                d = std::min(d, eng::segDist(p, l.pts[i], l.pts[i + 1]));
    return d;
}

// 1: for sure, -1: for sure not, 0: not judged
static int tri(double depth, double at, double margin)
{
    return depth > at + margin ? 1 : depth < at - margin ? -1 : 0;
}
static int operator_and(int a, int b)
{
    return a == -1 || b == -1 ? -1 : a == 0 || b == 0 ? 0 : 1;
}
static int operator_or(int a, int b)
{
    return -operator_and(-a, -b);
}
#define AND operator_and
#define OR operator_or

static eng::Job job(Case& c, coord_t w)
{
    (void)c;
    eng::Job j = eng::plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset", "wall_0_wipe_dist", "infill_wipe_dist", "top_layers", "bottom_layers", "initial_bottom_layers", "scarf_joint_seam_length", "coasting_volume", "infill_line_distance", "roofing_layer_count", "flooring_layer_count", "wall_0_inset", "multiple_mesh_overlap", "infill_overlap", "infill_overlap_mm", "minimum_polygon_circumference" })
        j.set(k, "0");
    j.set("meshfix_maximum_resolution", "0.01");
    j.set("meshfix_maximum_deviation", "0.004");
    j.set("meshfix_fluid_motion_enabled", "False");
    j.set("coasting_enable", "False");
    j.set("wall_line_count", "1");
    j.set("alternate_carve_order", "False");
    j.set("bridge_settings_enabled", "False");
    j.set("support_enable", "False");
    j.lineWidth(w);
    return j;
}
static eng::GCode run(Case& c, const eng::Job& j, const std::string& what)
{
    static const eng::Job plain = eng::plainJob();
    c.note("%s", (what + "; " + eng::describe(j, plain)).c_str());
    const eng::Result res = eng::slice(j, 60);
    PBT_CHECK(res.ok(), "the engine ended with status %d", res.status);
    eng::GCode gc(res.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}
static std::vector<V2> probes(Gen& g, double x0, double y0, double x1, double y1, int n)
{
    std::vector<V2> ps;
    for (int i = 0; i < n; i++)
        ps.push_back({ g.real(x0, x1), g.real(y0, y1) });
    return ps;
}
static std::vector<Point2LL> ccw(std::vector<Point2LL> r)
{
    if (ringArea(r) < 0)
        std::reverse(r.begin(), r.end());
    return r;
}

// ---------------------------------------------------------------------------------------------- models in each other's way
static void volumes(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    j.set("infill_line_distance", num(g.range((int64_t)1, (int64_t)3)));
    j.set("infill_pattern", g.oneof<std::string>({ "lines", "grid", "zigzag" }));
    const int layers = (int)g.range((int64_t)2, (int64_t)6);
    const bool carve = g.chance(2, 3), alternate = g.flip();
    j.set("carve_multiple_volumes", carve ? "True" : "False");
    j.set("alternate_carve_order", alternate ? "True" : "False");
    const double overlap = g.oneof<double>({ 0, 0, 0.15, 0.4 });
    j.set("multiple_mesh_overlap", num(overlap));
    const int n = (int)g.range((int64_t)2, (int64_t)4);
    enum Role
    {
        PLAIN,
        CUTTER,
        CHANGER, // a cutter with an extruder of its own
        FILLER,
        BLOCKER
    };
    std::vector<eng::Mesh> meshes;
    std::vector<Role> role;
    std::vector<int> order;
    std::string what;
    const bool ordered = g.chance(1, 2);
    for (int i = 0; i < n; i++)
    {
        const Point2LL at = i ? genPoint(g, 6000) : Point2LL(0, 0);
        const auto r = ccw(genStar(g, at, 3500, 8000, 4, 8));
        long long z0 = i == 0 || g.flip() ? 0 : g.range((int64_t)0, (int64_t)layers - 1) * 200;
        long long z1 = i == 0 ? layers * 200 : z0 + g.range((int64_t)1, (int64_t)layers) * 200;
        eng::Mesh m;
        m.loft({ r, r }, { z0, z1 });
        meshes.push_back(m);
        role.push_back(i == 0 ? PLAIN : g.oneof<Role>({ PLAIN, PLAIN, CUTTER, CHANGER, FILLER, BLOCKER }));
        order.push_back(ordered ? (int)g.range((int64_t)0, (int64_t)3) : 0);
        if (role[i] == FILLER && ! ordered)
            order[i] = 1;
        what += strPts(r) + " z " + num(z0 / 1000.0) + " to " + num(z1 / 1000.0) + "; ";
    }
    // the first one need not come first
    const int k = (int)g.range((int64_t)0, (int64_t)n - 1);
    std::swap(meshes[0], meshes[k]);
    std::swap(role[0], role[k]);
    std::swap(order[0], order[k]);
    for (int i = 0; i < n; i++)
    {
        eng::Model M;
        M.file = meshes[i].stl();
        M.name = "m" + std::to_string(i) + ".stl";
        if (role[i] == CUTTER || role[i] == CHANGER)
            M.settings["cutting_mesh"] = "True";
        if (role[i] == CHANGER)
            M.settings["extruder_nr"] = "0";
        if (role[i] == FILLER)
            M.settings["infill_mesh"] = "True";
        if (role[i] == BLOCKER)
            M.settings["anti_overhang_mesh"] = "True";
        M.settings["infill_mesh_order"] = std::to_string(order[i]);
        j.groups[0].push_back(M);
    }
    const Print pr = printOf(run(c, j, what));
    const double margin = (1.5 + std::count(role.begin(), role.end(), FILLER)) * W + 0.1 + overlap / 2; // (a filler starts inside of the walls of what it is in)
    int shared = 0, seen = 0;
    const auto ps = probes(g, -10, -10, 10, 10, 60);
    // where the infill goes, when it is not in the middle of it
    std::vector<int> rank(n);
    for (int i = 0; i < n; i++)
        rank[i] = i;
    std::stable_sort(rank.begin(), rank.end(), [&](int a, int b) { return order[a] < order[b]; });
    for (int layer = 0; layer < layers; layer++)
    {
        std::vector<eng::Section> secs;
        for (int i = 0; i < n; i++)
            secs.emplace_back(meshes[i], eng::sliceZ(layer, 0.2, 0.2));
        const auto at = [&](V2 p, std::vector<int>& in, std::vector<int>& infill) -> bool
        {
            in.assign(n, -1);
            infill.assign(n, -1);
            int several = 0;
            for (int i = 0; i < n; i++)
            {
                in[i] = tri(secs[i].depth(p), 0, margin);
                if (in[i] == 0)
                    return false; // too near to some border
                several += in[i] > 0;
            }
            shared += several > 1;
            std::vector<bool> model(n); // takes part in carving
            int any = -1;
            for (int i = 0; i < n; i++)
            {
                model[i] = role[i] == PLAIN;
                if (role[i] == PLAIN || role[i] == FILLER)
                    any = OR(any, in[i]);
            }
            std::vector<bool> printed(n);
            for (int i = 0; i < n; i++)
                printed[i] = role[i] == PLAIN || role[i] == FILLER;
            for (int i = 0; i < n; i++)
                if (role[i] == CUTTER || role[i] == CHANGER)
                {
                    const int cut = role[i] == CHANGER ? AND(in[i], any) : in[i];
                    int got = -1;
                    for (int k = 0; k < n; k++)
                        if (k != i && printed[k])
                        {
                            got = OR(got, AND(cut, in[k]));
                            in[k] = AND(in[k], -cut);
                        }
                    in[i] = got;
                    if (role[i] == CHANGER)
                        printed[i] = model[i] = true;
                }
            if (carve)
                for (int a = 1; a < n; a++)
                    for (int b = 0; b < a; b++)
                    {
                        const int i = rank[a], k = rank[b];
                        if (! model[i] || ! model[k])
                            continue;
                        if (alternate && layer % 2 == 0 && order[i] == order[k])
                            in[k] = AND(in[k], -in[i]);
                        else
                            in[i] = AND(in[i], -in[k]);
                    }
            for (int a = 0; a < n; a++)
            {
                const int i = rank[a];
                if (role[i] == BLOCKER)
                {
                    in[i] = -1;
                    continue;
                }
                if (role[i] == FILLER)
                {
                    int hosts = 0;
                    for (int b = 0; b < a; b++)
                        if (in[i] > 0 && infill[rank[b]] > 0)
                        {
                            hosts++;
                            infill[rank[b]] = -1;
                        }
                    in[i] = hosts > 0 ? 1 : -1;
                    if (hosts > 1)
                        return false; // it would be there several times
                }
                infill[i] = in[i];
            }
            return true;
        };
        std::vector<int> in, infill;
        const auto walls = pr.walls.find(layer);
        static const std::vector<Loop> none;
        const auto& ls = walls == pr.walls.end() ? none : walls->second;
        for (const V2& p : ps)
        {
            if (! at(p, in, infill))
                continue;
            for (int i = 0; i < n; i++)
            {
                if (role[i] == CUTTER)
                    continue; // what is cut out this way may be left open
                const std::string name = "m" + std::to_string(i);
                PBT_CHECK(! differs(within(ls, name, p), in[i] > 0), "layer %d: model %d is %sprinted at (%.3f, %.3f)", layer, i, in[i] > 0 ? "not " : "", p.x, p.y);
                seen++;
            }
        }
        const auto fill = pr.fill.find(layer);
        if (fill != pr.fill.end())
            for (const auto& [mesh, s] : fill->second)
                for (double t : { 0.1, 0.5, 0.8 })
                {
                    const V2 p{ s.first.x + t * (s.second.x - s.first.x), s.first.y + t * (s.second.y - s.first.y) };
                    if (mesh.size() != 2 || ! at(p, in, infill))
                        continue;
                    PBT_CHECK(infill[mesh[1] - '0'] > 0, "layer %d: there is infill of model %c at (%.3f, %.3f)", layer, mesh[1], p.x, p.y);
                }
    }
    if (shared > 3 && seen > 10)
        c.nontrivial();
    for (Role r : role)
        c.label(r == PLAIN ? "plain" : r == CUTTER ? "cutting" : r == CHANGER ? "changing extruder" : r == FILLER ? "filling" : "blocking support");
}

// ---------------------------------------------------------------------------------------------- overlapping neighbours
static void overlap(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    const bool carve = g.flip(), alternate = g.flip();
    j.set("carve_multiple_volumes", carve ? "True" : "False");
    j.set("alternate_carve_order", alternate ? "True" : "False");
    const coord_t a = 2 * g.range((coord_t)0, (coord_t)300), b = g.chance(1, 3) ? 2 * g.range((coord_t)0, (coord_t)300) : a;
    // left and right of a border, touching, apart or (carved) overlapping
    const coord_t gap = g.oneof<coord_t>({ 0, 0, 10, 1000, -600 });
    const coord_t x = g.range((coord_t)-3000, (coord_t)3000), la = g.range((coord_t)-12000, (coord_t)-5000), lb = g.range((coord_t)5000, (coord_t)12000), ra = g.range((coord_t)-12000, (coord_t)-5000), rb = g.range((coord_t)5000, (coord_t)12000);
    eng::Mesh m[2];
    m[0].box(x - 6000, la, 0, x, lb, 400);
    m[1].box(x + gap, ra, 0, x + 6000, rb, 400);
    const int first = (int)g.range((int64_t)0, (int64_t)1);
    for (int i : { first, 1 - first })
    {
        eng::Model M;
        M.file = m[i].stl();
        M.name = i ? "right.stl" : "left.stl";
        M.settings["multiple_mesh_overlap"] = eng::mm(i ? b : a);
        j.groups[0].push_back(M);
    }
    const Print pr = printOf(run(c, j, "border " + num(x) + " gap " + num(gap) + " left " + num(la) + ".." + num(lb) + " right " + num(ra) + ".." + num(rb) + (first ? ", right one first" : "")));
    for (int layer = 0; layer < 2; layer++)
    {
        PBT_CHECK(pr.walls.count(layer), "layer %d is missing", layer);
        // borders of the left and of the right one
        double l = x / 1000.0, r = (x + gap) / 1000.0;
        double o[2] = { a / 2000.0, b / 2000.0 };
        if (gap < 0 && carve)
        {
            const bool leftStays = (first == 0) != (alternate && layer % 2 == 0);
            (leftStays ? r : l) = leftStays ? l : r;
        }
        if (gap < 500)
                for (int i : { first, 1 - first })
                    if (o[i] > 0 && o[i] + 0.02 > r - l + 0.005)
                        (i ? r : l) += i ? -o[i] : o[i];
        const double yl = std::max(la, ra) / 1000.0 + 3.5, yh = std::min(lb, rb) / 1000.0 - 3.5; // (not where the width of the line changes towards the corner)
        if (yl > yh)
            continue;
        const double y = g.real(yl, yh);
        for (int i = 0; i < 2; i++)
        {
            const std::string name = i ? "right" : "left";
            const double want = i ? r + W / 2 : l - W / 2;
            double off = 1e9;
            for (const Loop& lp : pr.walls.at(layer))
                if (lp.mesh == name)
                    for (size_t k = 0; k + 1 < lp.pts.size(); k++)
                    {
                        const V2 &p = lp.pts[k], &q = lp.pts[k + 1];
                        if ((p.y > y) != (q.y > y))
                        {
                            const double at = p.x + (y - p.y) / (q.y - p.y) * (q.x - p.x);
                            if (std::abs(at - want) < std::abs(off))
                                off = at - want;
                        }
                    }
            PBT_CHECK(std::abs(off) < 0.015, "layer %d: the wall of the %s model, which should be at x=%.3f, is off by %.3f", layer, i ? "right" : "left", want, off);
            // and nothing of it beyond
            const V2 beyond{ want + (i ? -1 : 1) * (W / 2 + 0.05), y };
            PBT_CHECK(! differs(within(pr.walls.at(layer), name, beyond), false), "layer %d: the %s model goes on at (%.3f, %.3f)", layer, i ? "right" : "left", beyond.x, beyond.y);
        }
        c.nontrivial();
    }
    c.label(gap < 0 ? "overlapping" : gap > 500 ? "apart" : "touching");
}

// ---------------------------------------------------------------------------------------------- offsets
static void offsets(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    const int layers = (int)g.range((int64_t)2, (int64_t)4);
    const auto amount = [&] { return g.chance(1, 3) ? (coord_t)0 : g.range((coord_t)-300, (coord_t)300); };
    const coord_t xy = amount(), xy0 = amount(), hole = amount(), diameter = g.chance(1, 2) ? 0 : g.range((coord_t)1000, (coord_t)8000);
    j.set("xy_offset", eng::mm(xy));
    j.set("xy_offset_layer_0", eng::mm(xy0));
    j.set("hole_xy_offset", eng::mm(hole));
    j.set("hole_xy_offset_max_diameter", eng::mm(diameter));
    const auto r = ccw(genStar(g, Point2LL(0, 0), 6500, 9500, 4, 8));
    eng::Mesh m;
    m.loft({ r, r }, { 0, 200 * layers });
    std::string what = "part " + strPts(r);
    std::vector<Point2LL> h;
    using R = const std::vector<Point2LL>*;
    if (g.chance(3, 4))
    {
        h = ccw(genStar(g, Point2LL(0, 0), 1800, 3200, 4, 7));
        // leaving room for two walls everywhere
        for (const auto& [a, b] : { std::pair<R, R>(&r, &h), std::pair<R, R>(&h, &r) })
            for (const Point2LL& p : *a)
                for (size_t q = 0; q < b->size(); q++)
                    if (eng::segDist({ p.X / 1000.0, p.Y / 1000.0 }, { (*b)[q].X / 1000.0, (*b)[q].Y / 1000.0 }, { (*b)[(q + 1) % b->size()].X / 1000.0, (*b)[(q + 1) % b->size()].Y / 1000.0 }) < 2.2)
                        c.discard();
        auto back = h;
        std::reverse(back.begin(), back.end());
        m.loft({ back, back }, { 0, 200 * layers });
        what += " with hole " + strPts(h);
    }
    eng::Model M;
    M.file = m.stl();
    M.name = "m.stl";
    j.groups[0].push_back(M);
    const Print pr = printOf(run(c, j, what));
    for (int layer = 0; layer < layers; layer++)
    {
        PBT_CHECK(pr.walls.count(layer), "layer %d is missing", layer);
        const double off = (layer == 0 ? xy0 : xy) / 1000.0;
        for (int k = 0; k < 2; k++)
        {
            const auto& ring = k ? h : r;
            const size_t n = ring.size();
            double grow = 0, slack = 0.02;
            if (k && hole != 0)
            {
                // the hole as it is after the offset of everything: about its length times the offset smaller
                double len = 0;
                for (size_t i = 0; i < n; i++)
                    len += dist(ring[i], ring[(i + 1) % n]) / 1000.0;
                const double area = std::abs((double)ringArea(ring)) / 1e6 - len * off, top = M_PI / 4 * diameter * diameter / 1e6;
                grow = diameter == 0 ? hole / 1000.0 : area < top ? hole / 1000.0 * (1 - area / top) : 0;
                if (diameter != 0 && off != 0)
                    slack = 0.02 + std::abs(hole / 1000.0) * 10 * off * off / top;
                if (diameter != 0 && std::abs(area - top) < 0.1 * top)
                    continue;
            }
            for (size_t i = 0; i < n; i++)
            {
                // the wall by the middle of each long edge; the material of the part is to its left, of the hole to its right
                const Point2LL &a = ring[i], &b = ring[(i + 1) % n];
                const double l = dist(a, b) / 1000.0;
                if (l < 2.5)
                    continue;
                const double ux = (b.X - a.X) / 1000.0 / l, uy = (b.Y - a.Y) / 1000.0 / l, t = g.real(1.2, l - 1.2);
                const double want = k ? -(W / 2 - off + grow) : W / 2 - off; // to the left
                const V2 at{ a.X / 1000.0 + ux * t - uy * want, a.Y / 1000.0 + uy * t + ux * want };
                // not where other edges are near
                bool free = true;
                for (R o : { R(&r), R(&h) })
                    for (size_t q = 0; q < o->size(); q++)
                        if (o != &ring || q != i)
                            free = free && eng::segDist(at, { (*o)[q].X / 1000.0, (*o)[q].Y / 1000.0 }, { (*o)[(q + 1) % o->size()].X / 1000.0, (*o)[(q + 1) % o->size()].Y / 1000.0 }) > 1.3;
                if (! free)
                    continue;
                const double d = wallDist(pr.walls.at(layer), "", at);
                PBT_CHECK(d < slack, "layer %d: the wall of the %s is %.3f from (%.3f, %.3f), where it should be", layer, k ? "hole" : "part", d, at.x, at.y);
                c.nontrivial();
            }
        }
    }
    c.label(h.empty() ? "without a hole" : hole == 0 ? "the same for holes" : diameter ? "small holes more" : "holes more");
}

// ---------------------------------------------------------------------------------------------- how a model is cut into layers
static void tolerance(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    const coord_t h = g.oneof<coord_t>({ 200, 100, 300 }), h0 = g.chance(1, 2) ? h : g.range((coord_t)20, (coord_t)40) * 10;
    j.layerHeight(h, h0);
    const std::string how = g.oneof<std::string>({ "middle", "exclusive", "inclusive" });
    j.set("slicing_tolerance", how);
    // tiers of different sizes, steps and slopes
    const auto r = ccw(genStar(g, Point2LL(0, 0), 5000, 9000, 4, 8));
    std::vector<std::vector<Point2LL>> rings;
    std::vector<long long> zs{ 0 };
    const int n = (int)g.range((int64_t)1, (int64_t)4);
    std::string what = strPts(r);
    double s = 1;
    const auto ring = [&](double by)
    {
        std::vector<Point2LL> o;
        for (const Point2LL& p : r)
            o.emplace_back(std::llround(p.X * by), std::llround(p.Y * by));
        return o;
    };
    rings.push_back(r);
    for (int i = 0; i < n; i++)
    {
        const long long z = zs.back() + g.range((int64_t)50, (int64_t)700);
        if (g.flip()) // a slope, else straight up
            s = g.real(0.3, 1.2);
        rings.push_back(ring(s));
        zs.push_back(z);
        what += " " + num(z) + ": x" + num(s);
        if (i + 1 < n && g.flip()) // a step
        {
            s = g.real(0.3, 1.2);
            rings.push_back(ring(s));
            zs.push_back(z);
            what += ", then x" + num(s);
        }
    }
    eng::Mesh m;
    m.loft(rings, zs);
    // nothing may be level with where it is cut
    const auto plane = [&](int k) -> long long // the bottom of a layer (or its middle)
    {
        if (how == "middle")
            return k == 0 ? h0 / 2 : h0 + h / 2 + h * (k - 1);
        return k == 0 ? (how == "inclusive" ? 0 : std::max<long long>(0, h0 - h)) : h0 + h * (k - 1);
    };
    for (int k = 0; k < 40; k++)
        for (size_t i = 1; i < zs.size(); i++)
            if (std::abs(plane(k) - zs[i]) < 5)
                c.discard();
    eng::Model M;
    M.file = m.stl();
    M.name = "m.stl";
    j.groups[0].push_back(M);
    const Print pr = printOf(run(c, j, what));
    const long long top = zs.back();
    const auto cut = [&](int k) { return eng::Section(m, std::max<long long>(1, plane(k)) / 1000.0); };
    const auto ps = probes(g, -10, -10, 10, 10, 40);
    int layers = 0, seen = 0;
    for (int k = 0; k == 0 || plane(k) < top + 3 * h; k++)
    {
        const eng::Section a = cut(k), b = cut(k + 1);
        bool must = false, may = false;
        const auto walls = pr.walls.find(k);
        for (const V2& p : ps)
        {
            const double margin = 1.5 * W;
            const double da = a.segs.empty() ? -9 : a.depth(p), db = b.segs.empty() ? -9 : b.depth(p);
            int in = tri(da, 0, margin);
            if (how == "exclusive")
                in = AND(in, tri(db, 0, margin));
            if (how == "inclusive")
                in = OR(in, tri(db, 0, margin));
            if (in == 0)
                continue;
            (in > 0 ? must : may) = true;
            const int got = walls == pr.walls.end() ? 0 : within(walls->second, "", p);
            PBT_CHECK(! differs(got, in > 0), "layer %d: there is %s at (%.3f, %.3f)", k, in > 0 ? "nothing" : "something", p.x, p.y);
            seen++;
        }
        if (must)
            layers = k + 1;
        if (walls != pr.walls.end() && ! walls->second.empty())
        {
            const double z = (h0 + h * k) / 1000.0;
            PBT_CHECK(std::abs(pr.z.at(k) - z) < 0.002, "layer %d is printed at %.3f, not at %.3f", k, pr.z.at(k), z);
        }
    }
    if (layers > 1 && seen > 20)
        c.nontrivial();
    c.label(how.c_str());
}

// ---------------------------------------------------------------------------------------------- several solids in one model
static void unions(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    const bool all = g.flip(), holes = g.chance(1, 3);
    j.set("meshfix_union_all", all ? "True" : "False");
    j.set("meshfix_union_all_remove_holes", holes ? "True" : "False");
    const int n = (int)g.range((int64_t)2, (int64_t)4);
    std::string what;
    eng::Mesh m;
    std::vector<std::vector<Point2LL>> solids, cavities;
    for (int i = 0; i < n; i++)
    {
        const auto r = ccw(genStar(g, genPoint(g, 6000), 2000, 8000, 3, 7));
        m.loft({ r, r }, { 0, 400 });
        solids.push_back(r);
        what += "solid " + strPts(r);
    }
    if (g.chance(1, 2))
    {
        auto r = ccw(genStar(g, Point2LL(16000, 0), 5000, 8000, 4, 7)), h = ccw(genStar(g, Point2LL(16000, 0), 1200, 3500, 4, 7));
        m.loft({ r, r }, { 0, 400 });
        solids.push_back(r);
        cavities.push_back(h);
        what += "solid " + strPts(r) + " with hole " + strPts(h);
        std::reverse(h.begin(), h.end());
        m.loft({ h, h }, { 0, 400 });
    }
    eng::Model M;
    M.file = m.stl();
    M.name = "m.stl";
    j.groups[0].push_back(M);
    const Print pr = printOf(run(c, j, what));
    const auto side = [&](const std::vector<Point2LL>& r, V2 p)
    {
        double d = 1e9;
        for (size_t i = 0; i < r.size(); i++)
        {
            const Point2LL &a = r[i], &b = r[(i + 1) % r.size()];
            d = std::min(d, eng::segDist(p, { a.X / 1000.0, a.Y / 1000.0 }, { b.X / 1000.0, b.Y / 1000.0 }));
        }
        bool on = false;
        const int in = winding(r, Point2LL(std::llround(p.x * 1000), std::llround(p.y * 1000)), on);
        return d < 1.5 * W ? 0 : in ? 1 : -1;
    };
    int several = 0;
    for (const V2& p : probes(g, -14, -14, 24, 14, 150))
    {
        int in = 0, out = 0;
        bool near = false;
        for (const auto& r : solids)
            in += side(r, p) > 0, near = near || side(r, p) == 0;
        for (const auto& r : cavities)
            out += side(r, p) > 0, near = near || side(r, p) == 0;
        if (near)
            continue;
        several += in > 1;
        bool want = all ? in > out : (in + out) % 2;
        if (holes)
        {
            if (in == 0) // maybe enclosed
                continue;
            want = true;
        }
        for (int layer = 0; layer < 2; layer++)
            PBT_CHECK(! differs(pr.walls.count(layer) ? within(pr.walls.at(layer), "", p) : 0, want), "layer %d: there is %s at (%.3f, %.3f), which is in %d solids and %d holes", layer, want ? "nothing" : "something", p.x, p.y, in, out);
    }
    if (several > 1)
        c.nontrivial();
    c.label(holes ? "no holes" : all ? "all one" : "even-odd");
}

// ---------------------------------------------------------------------------------------------- moulds and sloped sides
static void mould(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    j.layerHeight(200, 200);
    const coord_t width = g.range((coord_t)20, (coord_t)60) * 100, roof = g.chance(1, 2) ? 0 : g.range((int64_t)1, (int64_t)3) * 200;
    const int angle = g.chance(1, 3) ? 90 : (int)g.range((int64_t)0, (int64_t)85);
    j.set("mold_enabled", "True");
    j.set("mold_width", eng::mm(width));
    j.set("mold_angle", num(angle));
    j.set("mold_roof_height", eng::mm(roof));
    const int layers = (int)g.range((int64_t)2, (int64_t)7);
    const auto r = ccw(genStar(g, Point2LL(0, 0), 3000, 8000, 4, 8));
    eng::Mesh m;
    std::string what = strPts(r);
    const double s = g.chance(1, 2) ? 1 : g.real(0.3, 1.5);
    std::vector<Point2LL> r2;
    for (const Point2LL& p : r)
        r2.emplace_back(std::llround(p.X * s), std::llround(p.Y * s));
    const long long z = g.range((int64_t)1, (int64_t)layers - 1) * 200;
    if (s == 1)
        m.loft({ r, r }, { 0, 200 * layers });
    else
        m.loft({ r, r, r2, r2 }, { 0, z, z, 200 * layers });
    what += " x" + num(s) + " from " + num(z);
    eng::Model M;
    M.file = m.stl();
    M.name = "m.stl";
    j.groups[0].push_back(M);
    const Print pr = printOf(run(c, j, what));
    const double step = angle >= 90 ? 1e9 : std::tan(angle * M_PI / 180) * 0.2, margin = 1.5 * W, D = width / 1000.0;
    std::vector<eng::Section> secs;
    for (int k = 0; k < layers; k++)
        secs.emplace_back(m, eng::sliceZ(k, 0.2, 0.2));
    int seen = 0, outside = 0;
    const auto ps = probes(g, -17, -17, 17, 17, 80);
    const int above = (int)(roof / 200);
    for (int k = 0; k < layers; k++)
        for (const V2& p : ps)
        {
            int in = -1, maybe = -1;
            for (int q = k; q < layers; q++)
            {
                const double d = secs[q].depth(p);
                in = OR(in, tri(d, q == k ? -D : -(D - step * (q - k)), q == k ? margin : margin * 1.5));
                maybe = OR(maybe, tri(d, -D, margin));
                // the roof above what lies that much lower
                if (above > 0 && q > 0)
                    for (const double e = secs[std::max(0, q - above)].depth(p); true;)
                    {
                        in = OR(in, tri(e, q == k ? -D : -(D - step * (q - k)), q == k ? margin : margin * 1.5));
                        maybe = OR(maybe, tri(e, -D, margin));
                        break;
                    }
            }
            // what shrinks from several at once may be more than from each
            if (in < 0 && maybe >= 0 && (s != 1 || above > 0 || angle < 90))
                in = s == 1 && above == 0 ? in : 0;
            const int want = AND(in, -tri(secs[k].depth(p), 0, margin));
            if (want == 0)
                continue;
            const int got = pr.walls.count(k) ? within(pr.walls.at(k), "", p) : 0;
            PBT_CHECK(! differs(got, want > 0), "layer %d: there is %s of the mould at (%.3f, %.3f), %.3f mm inside of the model", k, want > 0 ? "nothing" : "something", p.x, p.y, secs[k].depth(p));
            seen += want > 0;
            outside += want < 0;
        }
    if (seen > 5 && outside > 5)
        c.nontrivial();
    c.label(angle >= 90 ? "straight" : "sloped");
    if (roof)
        c.label("roof");
}

static void cones(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)300, (coord_t)500);
    const double W = w / 1000.0;
    eng::Job j = job(c, w);
    j.layerHeight(200, 200);
    const int angle = (int)g.range((int64_t)2, (int64_t)80);
    j.set("conical_overhang_enabled", "True");
    j.set("conical_overhang_angle", num(angle));
    const double size = g.chance(1, 2) ? 0 : g.real(0.5, 40);
    j.set("conical_overhang_hole_size", num(size));
    // a foot (maybe with a pit that the cap covers), and a cap
    const int layers = (int)g.range((int64_t)2, (int64_t)12), cap = (int)g.range((int64_t)1, (int64_t)layers - 1);
    const auto r = ccw(genStar(g, Point2LL(0, 0), 6000, 9500, 4, 8)), f = ccw(genStar(g, genPoint(g, 1000), 1500, 5000, 4, 8));
    eng::Mesh m;
    m.loft({ f, f }, { 0, cap * 200 });
    m.loft({ r, r }, { cap * 200, layers * 200 });
    const auto h = ccw(genStar(g, Point2LL(0, 0), 400, 1200, 3, 6));
    const bool pit = g.chance(1, 3);
    std::string what = "foot " + strPts(f) + " cap " + strPts(r) + " from layer " + num(cap);
    std::vector<Point2LL> foot(f);
    if (pit)
    {
        foot = ccw(genStar(g, Point2LL(0, 0), 3000, 5500, 4, 8));
        m = eng::Mesh();
        m.loft({ foot, foot }, { 0, cap * 200 });
        m.loft({ r, r }, { cap * 200, layers * 200 });
        auto back = h;
        std::reverse(back.begin(), back.end());
        m.loft({ back, back }, { 0, cap * 200 });
        what = "foot " + strPts(foot) + " with pit " + strPts(h) + " cap " + strPts(r) + " from layer " + num(cap);
    }
    eng::Model M;
    M.file = m.stl();
    M.name = "m.stl";
    j.groups[0].push_back(M);
    const Print pr = printOf(run(c, j, what));
    const double step = std::tan(angle * M_PI / 180) * 0.2;
    eng::Section top, low, hole;
    const auto addRing = [](eng::Section& s, const std::vector<Point2LL>& ring)
    {
        for (size_t i = 0; i < ring.size(); i++)
        {
            const Point2LL &a = ring[i], &b = ring[(i + 1) % ring.size()];
            s.add({ a.X / 1000.0, a.Y / 1000.0 }, { b.X / 1000.0, b.Y / 1000.0 });
        }
    };
    addRing(top, r);
    addRing(low, foot);
    addRing(hole, h);
    const double margin = 1.5 * W, area = std::abs((double)ringArea(h)) / 1e6;
    const bool stays = pit && size > 0 && area < size * 0.98;
    if (pit && size > 0 && std::abs(area - size) < 0.02 * size)
        c.discard();
    auto ps = probes(g, -10, -10, 10, 10, 60);
    for (const V2& p : probes(g, -1, -1, 1, 1, 10))
        ps.push_back(p);
    int seen = 0;
    for (int k = 0; k < layers; k++)
        for (const V2& p : ps)
        {
            int want;
            if (k >= cap)
                want = tri(top.depth(p), 0, margin);
            else
            {
                const int n = cap - k;
                const int in = tri(top.depth(p), step * n, margin), inFoot = tri(low.depth(p), 0, margin), inPit = pit ? tri(hole.depth(p), 0, 0.8 * W) : -1;
                // what grows out of the foot may join with what grows down from the cap, in between
                const bool apart = low.depth(p) < -(step * n + margin) || in != -1;
                want = OR(AND(inFoot, -inPit), in);
                if (inPit >= 0)
                    want = inPit == 0 ? 0 : stays ? -1 : in > 0 ? 1 : 0; // (what fills it further up goes on below)
                else if (want == -1 && ! apart)
                    want = 0;
                if (inPit < 0 && pit && hole.depth(p) > -(step * n + margin) && want == -1)
                    want = 0;
                if (stays && inPit < 0 && inFoot <= 0)
                    want = hole.depth(p) < -(step * n + margin) ? want : 0;
                seen += want > 0 && inFoot < 0;
            }
            if (want == 0)
                continue;
            const int got = pr.walls.count(k) ? within(pr.walls.at(k), "", p) : 0;
            PBT_CHECK(! differs(got, want > 0), "layer %d: there is %s at (%.3f, %.3f)", k, want > 0 ? "nothing" : "something", p.x, p.y);
        }
    if (seen > 3 || pit)
        c.nontrivial();
    c.label(pit ? stays ? "pit stays" : "pit goes" : "no pit");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G21",
                  {
                      { "volumes", 3000, 30000, "several models at the same place", volumes },
                      { "overlap", 1500, 15000, "a common border", overlap },
                      { "offsets", 1500, 15000, "an edge long enough to measure at", offsets },
                      { "tolerance", 2000, 20000, "two or more layers", tolerance },
                      { "unions", 1500, 15000, "places in several solids", unions },
                      { "mould", 1500, 15000, "places in and around the mould", mould },
                      { "cones", 1500, 15000, "places under the overhang that get filled, or a pit", cones },
                  });
    return r.main(argc, argv);
}
