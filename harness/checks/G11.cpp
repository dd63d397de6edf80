// G11 supports: under every overhang, resting on something, clear of the model
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

// several closed solids that may touch or overlap
struct Solids
{
    std::vector<Mesh> parts;
    std::vector<std::vector<Section>> at; // per part and layer
    double h0, h;
    int layers = 0;
    Mesh all() const
    {
        Mesh m;
        for (const Mesh& p : parts)
        {
            m.add(p);
        }
        return m;
    }
    void cut(double first, double height)
    {
        h0 = first;
        h = height;
        long long top = 0;
        for (const Mesh& m : parts)
        {
            for (const auto& t : m.tris)
            {
                for (const P3& p : t)
                {
                    top = std::max(top, p.z);
                }
            }
        }
        for (layers = 0; sliceZ(layers, h0, h) * 1000 < top; layers++)
        {
        }
        for (const Mesh& m : parts)
        {
            at.emplace_back();
            for (int k = 0; k < layers; k++)
            {
                at.back().emplace_back(m, sliceZ(k, h0, h));
            }
        }
    }
    // how deep inside the solid, negative outside; a lower bound where parts overlap
    double depth(int k, V2 p) const
    {
        double d = -1e9;
        if (k < 0 || k >= layers)
        {
            return d;
        }
        for (const auto& a : at)
        {
            if (! a[k].segs.empty())
            {
                d = std::max(d, a[k].depth(p));
            }
        }
        return d;
    }
};
struct Setup
{
    Job job = plainJob();
    Solids model;
    std::string what;
    double h0, h, lw, margin;
};

static Pts rect(coord_t x0, coord_t y0, coord_t x1, coord_t y1)
{
    return { Point2LL(x0, y0), Point2LL(x1, y0), Point2LL(x1, y1), Point2LL(x0, y1) };
}
static void prism(Setup& s, const Pts& r, coord_t z0, coord_t z1)
{
    Mesh m;
    m.loft({ r, r }, { z0, z1 });
    s.model.parts.push_back(m);
    s.what += "prism " + mm(z0) + ".." + mm(z1) + " " + strPts(r) + "; ";
}
// tables, bridges, mushrooms on a base
static void genOverhangs(Gen& g, Setup& s)
{
    const Point2LL c(g.around(30000), g.around(30000));
    const coord_t half = g.range(3000, 9000), leg = g.range(700, half - 1500), gap = g.range(1000, 5000), thick = g.range(300, 1000);
    const int kind = g.draw(4);
    coord_t z = 0;
    if (g.chance(1, 2)) // something to rest on
    {
        const coord_t t = g.range(400, 1200);
        const coord_t w = g.range(leg, half + 3000);
        prism(s, rect(c.X - w, c.Y - w, c.X + w, c.Y + w), 0, t);
        z = t - 100;
    }
    const Pts plate = g.chance(1, 2) ? rect(c.X - half, c.Y - half, c.X + half, c.Y + half) : genStar(g, c, half * 2 / 3, half, 5, 14);
    switch (kind)
    {
    case 0:
    case 1: // a plate on a leg, in the middle or at the side
    {
        const coord_t off = kind ? g.around(half - leg) : 0;
        prism(s, rect(c.X - leg + off, c.Y - leg, c.X + leg + off, c.Y + leg), 0, z + gap + 50);
        prism(s, plate, z + gap, z + gap + thick);
        break;
    }
    case 2: // a bridge
        prism(s, rect(c.X - half, c.Y - leg, c.X - half + 1500, c.Y + leg), 0, z + gap + 50);
        prism(s, rect(c.X + half - 1500, c.Y - leg, c.X + half, c.Y + leg), 0, z + gap + 50);
        prism(s, rect(c.X - half, c.Y - leg, c.X + half, c.Y + leg), z + gap, z + gap + thick);
        break;
    case 3: // two plates
        prism(s, rect(c.X - leg, c.Y - leg, c.X + leg, c.Y + leg), 0, z + gap * 2 + thick + 50);
        prism(s, plate, z + gap, z + gap + thick);
        prism(s, rect(c.X - half, c.Y - leg, c.X + half + 2000, c.Y + half), z + gap * 2 + thick, z + gap * 2 + thick * 2);
        break;
    default: // widening
    {
        const double f = g.real(0.2, 1.0);
        Mesh m;
        m.loft({ ringAt(plate, c, f), plate, plate }, { 0, z + gap, z + gap + thick });
        s.model.parts.push_back(m);
        s.what += "from " + num(f) + " at " + mm(0) + " to " + mm(z + gap) + ".." + mm(z + gap + thick) + " " + strPts(plate);
    }
    }
}
static Setup setup(Case& c)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job;
    const coord_t lw = g.oneof<coord_t>({ 400, 300, 500 });
    j.lineWidth(lw);
    j.layerHeight(g.oneof<coord_t>({ 200, 150, 250 }), g.oneof<coord_t>({ 200, 270 }));
    s.lw = lw / 1000.0;
    s.h0 = j.getD("layer_height_0");
    s.h = j.getD("layer_height");
    j.set("wall_line_count", "1");
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("top_layers", "0");
    j.set("bottom_layers", "0");
    j.set("initial_bottom_layers", "0");
    j.set("infill_line_distance", "0");
    j.set("support_enable", "True");
    j.set("support_angle", g.oneof<std::string>({ "50", "45", "60", "30" }));
    j.set("support_type", g.oneof<std::string>({ "everywhere", "buildplate" }));
    j.set("support_structure", "normal");
    j.set("support_xy_distance", g.oneof<std::string>({ "0.7", "0.4", "1.2" }));
    j.set("support_xy_distance_overhang", "0.2");
    j.set("support_xy_overrides_z", g.oneof<std::string>({ "xy_overrides_z", "z_overrides_xy" }));
    j.set("support_top_distance", g.oneof<std::string>({ "0", mm(j.getD("layer_height") * 1000), "0.3", "0.55" }));
    j.set("support_bottom_distance", g.oneof<std::string>({ "0", "0.15", "0.4" }));
    j.set("support_pattern", g.oneof<std::string>({ "lines", "zigzag", "grid", "triangles" }));
    j.set("support_line_distance", g.oneof<std::string>({ "2", "1", "3" }));
    j.set("support_initial_layer_line_distance", j.get("support_line_distance"));
    j.set("support_wall_thickness", g.flip() ? j.get("line_width") : "0");
    j.set("support_offset", g.oneof<std::string>({ "0", "0.8" }));
    j.set("support_join_distance", g.oneof<std::string>({ "0", "2" }));
    j.set("support_bottom_enable", "False");
    j.set("support_roof_enable", "False");
    j.set("support_infill_sparse_thickness", j.get("layer_height"));
    j.set("minimum_support_area", "0");
    j.set("retraction_enable", g.flip() ? "True" : "False");
    j.set("support_line_width", j.get("line_width"));
    genOverhangs(g, s);
    s.model.cut(s.h0, s.h);
    return s;
}
static bool isSupport(const Printed& l)
{
    return l.type.starts_with("SUPPORT");
}
static Layers run(Case& c, Setup& s)
{
    for (const Mesh& m : s.model.parts)
    {
        for (const auto& t : m.tris)
        {
            for (const P3& p : t)
            {
                for (int k = 0; k < s.model.layers; k++)
                {
                    if (std::fabs(p.z / 1000.0 - sliceZ(k, s.h0, s.h)) < 0.003)
                    {
                        c.discard(); // cut where rounding decides
                    }
                }
            }
        }
    }
    s.job.groups[0].push_back({ s.model.all().stl(), {} });
    c.note("%s%s", s.what.c_str(), describe(s.job, plainJob()).c_str());
    const Result r = slice(s.job);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return printedLines(gc, s.h0, s.h);
}
static int gapLayers(const Setup& s)
{
    return int(s.job.getD("support_top_distance") * 1000) / int(std::llround(s.h * 1000));
}
static int emptyBelow(const Setup& s)
{
    return (int(s.job.getD("support_bottom_distance") * 1000) + int(std::llround(s.h * 1000)) - 1) / int(std::llround(s.h * 1000));
}
static double slope(const Setup& s) // how far an overhang may stick out of the layer below
{
    return std::tan(s.job.getD("support_angle") * M_PI / 180) * s.h;
}

// Clear of the model, with something below
static void safe(Case& c, Setup& s, const Layers& ls, bool tree)
{
    Gen& g = c.g;
    const Job& j = s.job;
    const bool xy_first = j.get("support_xy_overrides_z") == "xy_overrides_z";
    const double xy = xy_first ? j.getD("support_xy_distance") : j.getD("support_xy_distance_overhang");
    const int gap = gapLayers(s), below = emptyBelow(s);
    const bool plate_only = j.get("support_type") == "buildplate", with_roof = j.get("support_roof_enable") == "True";
    for (const auto& [k, lines] : ls)
    {
        std::vector<const Printed*> sup;
        for (const Printed& l : lines)
        {
            if (isSupport(l) && l.len > 0.01)
            {
                sup.push_back(&l);
            }
        }
        for (int i = 0; i < 8 && ! sup.empty(); i++)
        {
            const Printed& l = *g.pick(sup);
            const double t = g.real(0, 1);
            const V2 q{ l.a.x + t * (l.b.x - l.a.x), l.a.y + t * (l.b.y - l.a.y) };
            const double d = s.model.depth(k, q);
            // the model's own outline may deviate by a few hundredths; branches may come closer to slopes
            const bool sloped = tree && (std::fabs(s.model.depth(k + 1, q) - d) > 0.03 || std::fabs(s.model.depth(k - 1, q) - d) > 0.03);
            PBT_CHECK(d < (sloped ? -0.1 : -xy + (tree ? 0.3 : 0.06)), "layer %d: support at (%.3f,%.3f) is %.3f from the model", k, q.x, q.y, -d);
            if (! tree)
            {
                for (int n = 1; n <= gap; n++)
                {
                    const double up = s.model.depth(k + n, q);
                    PBT_CHECK(up < 0.06 + (n < gap ? slope(s) * n + 0.05 : 0), "layer %d: support at (%.3f,%.3f), and the model %d layers above, %.3f deep", k, q.x, q.y, n, up);
                }
                if (below && k >= below)
                {
                    const double down = s.model.depth(k - below, q);
                    PBT_CHECK(down < 0.06, "layer %d: support at (%.3f,%.3f), and the model %d layers below, %.3f deep", k, q.x, q.y, below, down);
                }
            }
            if (k > 0 && ! tree)
            {
                const double reach = j.getD("support_line_distance") * (j.get("support_wall_thickness") == "0" ? 4 : 1.5) + 1.0;
                bool stands = false;
                for (int n = 1; n <= below + 1 && k - n >= 0 && ! stands; n++)
                {
                    stands = s.model.depth(k - n, q) > -reach && ! plate_only;
                    if (auto it = ls.find(k - n); it != ls.end())
                    {
                        stands |= nearest(it->second, q, isSupport) < reach;
                    }
                }
                // where a roof starts within a narrow area, neither it nor the rest may have room for a line; and the
                // pattern may leave out areas narrower than its lines are apart
                const bool narrow = l.type == "SUPPORT-INTERFACE" && (with_roof || l.len < 1.5 * j.getD("support_line_distance"));
                PBT_CHECK(stands || narrow, "layer %d: support at (%.3f,%.3f) has nothing below", k, q.x, q.y);
                if (plate_only)
                {
                    for (int n = 0; n < k; n++)
                    {
                        PBT_CHECK(s.model.depth(n, q) < 0.06, "layer %d: support at (%.3f,%.3f) stands on layer %d of the model", k, q.x, q.y, n);
                    }
                }
            }
        }
    }
}

// places that need support: the layer and the place
struct Need
{
    int n;
    V2 p;
};
static std::vector<Need> needs(Gen& g, const Setup& s, double room, int tries)
{
    std::vector<Need> out;
    const int smooth = std::max(1, (int)std::lround(0.4 / s.h));
    const int gap = gapLayers(s) + 1;
    const bool plate_only = s.job.get("support_type") == "buildplate";
    const double xy = s.job.getD("support_xy_distance") + 0.1;
    for (int i = 0; i < tries; i++)
    {
        const auto& part = s.model.at[g.draw(s.model.at.size() - 1)];
        std::vector<int> ns;
        int n = -1;
        for (int k = 1; k < s.model.layers; k++)
        {
            if (! part[k].segs.empty() && part[k - 1].segs.empty())
            {
                n = k; // starts here
            }
        }
        if (n < 0 || g.chance(1, 4))
        {
            n = g.range(1, s.model.layers - 1);
        }
        if (part[n].segs.empty())
        {
            continue;
        }
        const V2 p{ g.real(part[n].x0, part[n].x1), g.real(part[n].y0, part[n].y1) };
        auto open = [&](V2 q)
        {
            bool ok = s.model.depth(n, q) > 0.05;
            for (int k = 1; ok && k <= smooth && k <= n; k++)
            {
                ok = s.model.depth(n - k, q) < -(k * slope(s) + 0.1);
            }
            // from there down
            for (int k = n - 1; ok && k >= (plate_only ? 0 : n - gap); k--)
            {
                ok = s.model.depth(k, q) < -xy;
            }
            return ok;
        };
        bool ok = n - gap >= 0 && open(p);
        for (int a = 0; ok && a < 12; a++)
        {
            ok = open({ p.x + room * std::cos(a * M_PI / 6), p.y + room * std::sin(a * M_PI / 6) }) && open({ p.x + room / 2 * std::cos(a * M_PI / 6), p.y + room / 2 * std::sin(a * M_PI / 6) });
        }
        if (ok)
        {
            out.push_back({ n, p });
        }
    }
    return out;
}

static void plain(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    // without walls the pattern may leave out places narrower than its lines are apart
    const std::vector<Need> need = needs(g, s, s.job.get("support_wall_thickness") == "0" ? 0.2 + 0.75 * s.job.getD("support_line_distance") : 0.8, 60);
    const Layers ls = run(c, s);
    const double reach = s.job.getD("support_line_distance") + 0.8 + s.lw;
    const int below = emptyBelow(s);
    for (const Need& q : need)
    {
        // from under the overhang down to what it rests on
        for (int k = q.n - gapLayers(s) - 1; k >= 0; k--)
        {
            bool free = true;
            for (int n = 0; n <= below + 1 && free; n++)
            {
                free = s.model.depth(k - n, q.p) < -s.job.getD("support_xy_distance") - 0.9;
            }
            if (! free)
            {
                break;
            }
            const auto it = ls.find(k);
            const double d = it == ls.end() ? 1e9 : nearest(it->second, q.p, isSupport);
            PBT_CHECK(d < reach, "layer %d overhangs at (%.3f,%.3f); in layer %d the nearest support is %.3f away", q.n, q.p.x, q.p.y, k, d);
        }
    }
    if (need.size() > 5)
    {
        c.nontrivial();
    }
    c.label(s.job.get("support_type") + " " + s.job.get("support_pattern"));
    safe(c, s, ls, false);
}
static void roofs(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    j.set("support_roof_enable", "True");
    j.set("support_roof_height", g.oneof<std::string>({ num(s.h), num(2 * s.h), num(3 * s.h) }));
    j.set("support_roof_line_distance", g.oneof<std::string>({ j.get("line_width"), "0.8" }));
    j.set("support_roof_pattern", g.oneof<std::string>({ "lines", "zigzag", "concentric", "grid" }));
    j.set("support_roof_offset", "0");
    j.set("support_top_distance", g.oneof<std::string>({ "0", num(s.h), num(2 * s.h) })); // whole layers
    j.set("minimum_roof_area", "0");
    j.set("support_offset", "0");
    j.set("support_wall_thickness", j.get("line_width")); // the pattern alone would leave out narrow places
    const std::vector<Need> need = needs(g, s, 0.8, 60);
    const Layers ls = run(c, s);
    const int roof = std::lround(j.getD("support_roof_height") / s.h);
    for (const Need& q : need)
    {
        for (int k = q.n - gapLayers(s) - 1, i = 0; k >= 0 && i < roof; k--, i++)
        {
            bool free = true;
            for (int n = 0; n <= emptyBelow(s) + 1 && free; n++)
            {
                free = s.model.depth(k - n, q.p) < -j.getD("support_xy_distance") - 0.9;
            }
            if (! free)
            {
                break;
            }
            const auto it = ls.find(k);
            const double d = it == ls.end() ? 1e9 : nearest(it->second, q.p, [](const Printed& l) { return l.type == "SUPPORT-INTERFACE"; });
            PBT_CHECK(d < j.getD("support_roof_line_distance") * (j.get("support_roof_pattern") == "concentric" ? 0.75 : 0.5) + s.lw / 2 + 0.15, "layer %d overhangs at (%.3f,%.3f); in layer %d the nearest roof is %.3f away", q.n, q.p.x, q.p.y, k, d);
        }
    }
    if (need.size() > 5)
    {
        c.nontrivial();
    }
    c.label(j.get("support_roof_pattern"));
    safe(c, s, ls, false);
}
static void trees(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    j.set("support_structure", "tree");
    j.set("support_xy_overrides_z", "xy_overrides_z");
    j.set("support_tree_branch_diameter", g.oneof<std::string>({ "2", "5" }));
    j.set("support_tree_angle", g.oneof<std::string>({ "60", "45" }));
    j.set("support_tree_angle_slow", "40");
    j.set("support_tree_min_height_to_model", "0.3");
    j.set("support_tree_limit_branch_reach", "False");
    j.set("support_wall_thickness", j.get("line_width"));
    const Layers ls = run(c, s);
    size_t n = 0;
    for (const auto& [k, lines] : ls)
    {
        for (const Printed& l : lines)
        {
            n += isSupport(l);
        }
    }
    if (n > 50)
    {
        c.nontrivial();
    }
    c.label(n ? "with support" : "without");
    safe(c, s, ls, true);
    // something under every large overhang; where a branch would have to stand on the model there may be no room for one
    for (const Need& q : needs(g, s, 2.5, 20))
    {
        bool free = q.n * s.h > 2;
        for (int k = 0; free && k < q.n; k++)
        {
            free = s.model.depth(k, q.p) < -3;
        }
        if (! free)
        {
            continue;
        }
        double d = 1e9;
        for (int k = std::max(0, q.n - gapLayers(s) - 4); k < q.n; k++)
        {
            if (auto it = ls.find(k); it != ls.end())
            {
                d = std::min(d, nearest(it->second, q.p, isSupport));
            }
        }
        PBT_CHECK(d < 6, "layer %d overhangs at (%.3f,%.3f); the nearest support is %.3f away", q.n, q.p.x, q.p.y, d);
    }
}
// Nothing overhangs: nothing is supported
static void unneeded(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    s.model = Solids();
    s.what.clear();
    Job& j = s.job;
    j.set("support_structure", g.oneof<std::string>({ "normal", "tree" }));
    const bool off = g.chance(1, 4);
    if (off)
    {
        j.set("support_enable", "False");
        genOverhangs(g, s);
    }
    else
    {
        // every layer within the one below, up to what the angle allows
        const Point2LL at(g.around(20000), g.around(20000));
        const coord_t half = g.range(3000, 8000);
        const Pts ring = genStar(g, at, half * 2 / 3, half, 4, 14);
        for (size_t i = 0; i < ring.size(); i++)
        {
            const V2 a{ double(ring[i].X - at.X), double(ring[i].Y - at.Y) };
            const Point2LL& q = ring[(i + 1) % ring.size()];
            const V2 b{ double(q.X - at.X), double(q.Y - at.Y) };
            if (a.x * b.y - a.y * b.x < 500.0 * std::hypot(b.x - a.x, b.y - a.y))
            {
                c.discard(); // the centre must see every side, or shrinking sticks out
            }
        }
        const int n = g.range(1, 4);
        std::vector<Pts> rs;
        std::vector<long long> zs;
        double f = 1;
        const coord_t h = g.range(500, 4000);
        for (int i = 0; i <= n; i++)
        {
            rs.push_back(ringAt(ring, at, f));
            zs.push_back(h * i / n);
            f *= g.real(0.5, 1.0);
        }
        Mesh m;
        m.loft(rs, zs);
        s.model.parts.push_back(m);
        s.what += "tapering " + strPts(ring) + " h " + mm(h);
    }
    s.model.cut(s.h0, s.h);
    const Layers ls = run(c, s);
    double len = 0;
    for (const auto& [k, lines] : ls)
    {
        for (const Printed& l : lines)
        {
            PBT_CHECK(! isSupport(l), "layer %d has support at (%.3f,%.3f)", k, l.a.x, l.a.y);
            len += l.len;
        }
    }
    if (len > 100)
    {
        c.nontrivial();
    }
    c.label(off ? "disabled" : "tapering");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G11",
                  {
                      { "plain", 1500, 10000, "more than five places that need support", plain, 60 },
                      { "roofs", 800, 5000, "more than five places that need support", roofs, 60 },
                      { "trees", 300, 2000, "more than fifty lines of support", trees, 120 },
                      { "unneeded", 600, 4000, "more than 100 mm printed", unneeded, 60 },
                  });
    return r.main(argc, argv);
}
