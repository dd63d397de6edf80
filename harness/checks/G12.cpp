// G12 skirt, brim and raft
// SOURCES: ALL
#include "engine_geo.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

struct Setup
{
    Job job = plainJob();
    std::vector<Mesh> parts; // apart from each other
    std::string what;
    std::vector<std::vector<Section>> at; // per layer and part
    std::vector<std::vector<Pts>> rings; // outer ring and holes per part, of layer 0
    std::vector<V2> centre;
    double h0, h, lw; // lw: of skirt and brim
    int layers = 0;
    bool convex = true;

    double dist(int k, V2 p) const // outside
    {
        double d = 1e9;
        for (const Section& s : at[k])
        {
            if (! s.segs.empty())
            {
                d = std::min(d, s.inside(p) ? -s.dist(p) : s.dist(p));
            }
        }
        return d;
    }
};
static double cross(V2 o, V2 a, V2 b)
{
    return (a.x - o.x) * (b.y - o.y) - (a.y - o.y) * (b.x - o.x);
}
static std::vector<V2> hullOf(std::vector<V2> ps)
{
    std::sort(ps.begin(), ps.end(), [](V2 a, V2 b) { return a.x < b.x || (a.x == b.x && a.y < b.y); });
    std::vector<V2> h;
    for (int pass = 0; pass < 2; pass++)
    {
        const size_t base = h.size();
        for (V2 p : ps)
        {
            while (h.size() >= base + 2 && cross(h[h.size() - 2], h.back(), p) <= 0)
            {
                h.pop_back();
            }
            h.push_back(p);
        }
        h.pop_back();
        std::reverse(ps.begin(), ps.end());
    }
    return h;
}
static double hullDist(const std::vector<V2>& h, V2 p) // negative inside
{
    double d = 1e9;
    bool in = true;
    for (size_t i = 0; i < h.size(); i++)
    {
        const V2 a = h[i], b = h[(i + 1) % h.size()];
        d = std::min(d, segDist(p, a, b));
        in &= cross(a, b, p) >= 0;
    }
    return in ? -d : d;
}

static Setup setup(Case& c)
{
    Gen& g = c.g;
    Setup s;
    Job& j = s.job;
    j.lineWidth(g.oneof<coord_t>({ 400, 300, 600 }));
    j.layerHeight(g.oneof<coord_t>({ 200, 150, 250 }), g.oneof<coord_t>({ 200, 270 }));
    s.h0 = j.getD("layer_height_0");
    s.h = j.getD("layer_height");
    j.set("wall_line_count", num(g.range(1, 2)));
    j.set("top_layers", "0");
    j.set("bottom_layers", "0");
    j.set("initial_bottom_layers", "0");
    j.set("infill_line_distance", "0");
    j.set("xy_offset", "0");
    j.set("xy_offset_layer_0", "0");
    j.set("retraction_enable", g.flip() ? "True" : "False");
    j.set("initial_layer_line_width_factor", g.oneof<std::string>({ "100", "150", "200" }));
    s.lw = j.getD("line_width") * j.getD("initial_layer_line_width_factor") / 100;
    const int n = g.chance(1, 3) ? g.range(2, 3) : 1;
    const coord_t pitch = g.range(9000, 30000);
    for (int i = 0; i < n; i++)
    {
        const Point2LL at(g.around(8000) + (i - n / 2) * pitch, g.around(8000));
        const coord_t half = g.range(1500, n == 1 ? 12000 : pitch / 2 - 300);
        const coord_t h = g.range(600, 3000);
        const bool conv = g.flip();
        Pts ring;
        if (conv)
        {
            // points on a circle
            const int m = g.range(3, 10);
            std::vector<double> as;
            for (int k = 0; k < m; k++)
            {
                as.push_back((k + g.real(0.0, 0.7)) * 2 * M_PI / m);
            }
            for (double a : as)
            {
                ring.emplace_back(at.X + std::llround(half * std::cos(a)), at.Y + std::llround(half * std::sin(a)));
            }
        }
        else
        {
            ring = genStar(g, at, half / 2, half, 5, 12);
        }
        s.convex &= conv && n == 1;
        Mesh m;
        const double top = g.chance(1, 3) ? g.real(0.5, 1.6) : 1.0;
        m.loft({ ring, ringAt(ring, at, n == 1 ? top : 1.0) }, { 0, h });
        s.rings.push_back({ ring });
        s.what += "at " + mm(at.X) + "," + mm(at.Y) + " " + strPts(ring) + (n == 1 ? " to " + num(top) : "") + " h " + mm(h) + "; ";
        if (g.chance(1, 3) && half > 4000)
        {
            const coord_t r = half / 4;
            Pts hole;
            for (int k = 7; k >= 0; k--)
            {
                hole.emplace_back(at.X + std::llround(r * std::cos(k * M_PI / 4)), at.Y + std::llround(r * std::sin(k * M_PI / 4)));
            }
            cura::Shape sh;
            sh.push_back(toPolygon(ring));
            bool in = true;
            for (size_t k = 0; k < hole.size(); k++)
            {
                in &= evenOdd(sh, hole[k]) == 1 && borderDist(sh, hole[k]) > 800;
            }
            if (in && (n > 1 || top >= 1))
            {
                m.loft({ hole, hole }, { 0, h });
                s.rings.back().push_back(hole);
                s.what += "hole of " + mm(r) + "; ";
                s.convex = false;
            }
        }
        s.centre.push_back({ at.X / 1000.0, at.Y / 1000.0 });
        s.parts.push_back(m);
    }
    long long top = 0;
    for (const Mesh& m : s.parts)
    {
        for (const auto& t : m.tris)
        {
            for (const P3& p : t)
            {
                top = std::max(top, p.z);
            }
        }
    }
    for (s.layers = 0; sliceZ(s.layers, s.h0, s.h) * 1000 < top; s.layers++)
    {
    }
    for (int k = 0; k < s.layers; k++)
    {
        s.at.emplace_back();
        for (const Mesh& m : s.parts)
        {
            s.at.back().emplace_back(m, sliceZ(k, s.h0, s.h));
        }
    }
    // apart from each other
    for (size_t a = 0; a < s.rings.size(); a++)
    {
        for (size_t b = 0; b < s.rings.size(); b++)
        {
            for (const auto& [p, q] : s.at[0][a].segs)
            {
                if (a != b && (s.at[0][b].dist(p) < 0.2 || s.at[0][b].inside(p)))
                {
                    c.discard();
                }
            }
        }
    }
    return s;
}
static GCode run(Case& c, Setup& s)
{
    for (const Mesh& m : s.parts)
    {
        for (const auto& t : m.tris)
        {
            for (const P3& p : t)
            {
                for (int k = 0; k < s.layers; k++)
                {
                    if (std::fabs(p.z / 1000.0 - sliceZ(k, s.h0, s.h)) < 0.003)
                    {
                        c.discard(); // cut where rounding decides
                    }
                }
            }
        }
        s.job.groups[0].push_back({ m.stl(), {} });
    }
    c.note("%s%s", s.what.c_str(), describe(s.job, plainJob()).c_str());
    const Result r = slice(s.job);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    return gc;
}
static bool isSkirt(const Printed& l)
{
    return l.type == "SKIRT";
}

static void skirt(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    const int count = g.range(1, 4), height = g.range(1, 4);
    const double gap = g.range(3, 60) / 10.0, minimal = g.oneof<double>({ 0, 50, 250, 600 });
    j.set("adhesion_type", "skirt");
    j.set("skirt_line_count", num(count));
    j.set("skirt_gap", num(gap));
    j.set("skirt_height", num(height));
    j.set("skirt_brim_minimal_length", num(minimal));
    std::vector<V2> ps;
    for (int k = 0; k < std::min(height, s.layers); k++)
    {
        for (const Section& sec : s.at[k])
        {
            for (const auto& [a, b] : sec.segs)
            {
                ps.push_back(a);
                ps.push_back(b);
            }
        }
    }
    const std::vector<V2> hull = hullOf(ps);
    double around = 0;
    for (size_t i = 0; i < hull.size(); i++)
    {
        const V2 a = hull[i], b = hull[(i + 1) % hull.size()];
        around += std::hypot(b.x - a.x, b.y - a.y);
    }
    const GCode gc = run(c, s);
    const Layers ls = printedLines(gc, s.h0, s.h);
    if (s.rings.size() > 1 || ! s.convex)
    {
        c.nontrivial();
    }
    for (int k = 0; k < s.layers; k++)
    {
        const auto it = ls.find(k);
        PBT_CHECK(it != ls.end(), "nothing in layer %d", k);
        std::map<int, double> len;
        double all = 0, last = 0;
        for (const Printed& l : it->second)
        {
            if (! isSkirt(l))
            {
                continue;
            }
            PBT_CHECK(k < height, "skirt in layer %d", k);
            // which loop
            const V2 mid{ (l.a.x + l.b.x) / 2, (l.a.y + l.b.y) / 2 };
            for (V2 p : { l.a, l.b, mid })
            {
                const double d = hullDist(hull, p), x = (d - gap) / s.lw - 0.5;
                const int i = std::max(0, (int)std::lround(x));
                PBT_CHECK(std::fabs(x - i) * s.lw < 0.09 + 0.03 * i, "layer %d: skirt at (%.3f,%.3f), %.3f from the hull of the model", k, p.x, p.y, d);
                last = i;
            }
            len[(int)last] += l.len;
            all += l.len;
            const double w = l.vol / l.len / (k == 0 ? s.h0 : s.h), expect = j.getD("skirt_brim_line_width") * (k == 0 ? j.getD("initial_layer_line_width_factor") / 100 : 1);
            PBT_CHECK(l.len < 0.3 || std::fabs(w - expect) < 0.02 + 0.002 / l.len, "layer %d: skirt of width %.3f, not %.3f", k, w, expect);
        }
        if (k >= height)
        {
            continue;
        }
        const int loops = len.empty() ? 0 : len.rbegin()->first + 1;
        if (k)
        {
            PBT_CHECK(loops >= 1, "layer %d has no skirt", k);
        }
        else
        {
            PBT_CHECK(loops >= count, "%d loops of skirt, not %d", loops, count);
            PBT_CHECK(all > minimal - 1, "%.1f mm of skirt, not %.1f", all, minimal);
            PBT_CHECK(loops == count || all - len[loops - 1] < minimal + 1, "%d loops of skirt; %d (%.1f mm) would do", loops, loops - 1, all - len[loops - 1]);
        }
        for (int i = 0; i < loops; i++)
        {
            const double expect = around + 2 * M_PI * (gap + (i + 0.5) * s.lw);
            PBT_CHECK(std::fabs(len[i] - expect) < 0.02 * expect + 0.3, "layer %d: loop %d of the skirt is %.2f mm long, not %.2f", k, i, len[i], expect);
        }
    }
    c.label(num(count) + " asked");
}

static void brim(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    const int count = g.range(1, 8);
    const double gap = g.oneof<double>({ 0, 0, 0.2, 0.6 });
    const std::string where = g.oneof<std::string>({ "outside", "outside", "inside", "everywhere" });
    const double minimal = g.oneof<double>({ 0, 0, 0, 300 }), margin = g.oneof<double>({ 0.8, 1.6, 3 });
    const bool smart = g.flip();
    j.set("adhesion_type", "brim");
    j.set("brim_line_count", num(count));
    j.set("brim_width", num(count * s.lw));
    j.set("brim_gap", num(gap));
    j.set("brim_location", where);
    j.set("brim_inside_margin", num(margin));
    j.set("brim_smart_ordering", smart ? "True" : "False");
    j.set("skirt_brim_minimal_length", num(minimal));
    const GCode gc = run(c, s);
    const Layers ls = printedLines(gc, s.h0, s.h);
    double all = 0, first = 1e9, lastd = -1;
    std::vector<const Printed*> br;
    for (const auto& [k, lines] : ls)
    {
        for (const Printed& l : lines)
        {
            if (isSkirt(l))
            {
                PBT_CHECK(k == 0, "brim in layer %d", k);
                br.push_back(&l);
                all += l.len;
                const double w = l.vol / l.len / s.h0;
                PBT_CHECK(l.len < 0.3 || std::fabs(w - s.lw) < 0.02 + 0.002 / l.len, "brim of width %.3f, not %.3f", w, s.lw);
            }
        }
    }
    // outer side or hole, of which part
    auto side = [&](V2 p, double& d)
    {
        int hole = -1;
        d = 1e9;
        for (size_t i = 0; i < s.rings.size(); i++)
        {
            const double di = s.at[0][i].dist(p);
            if (s.at[0][i].inside(p))
            {
                d = -di;
                return -1;
            }
            if (di < d)
            {
                d = di;
                hole = 0;
                if (s.rings[i].size() > 1)
                {
                    cura::Shape sh;
                    sh.push_back(toPolygon(s.rings[i][1]));
                    hole = evenOdd(sh, Point2LL(std::llround(p.x * 1000), std::llround(p.y * 1000))) ? 1 : 0;
                }
            }
        }
        return hole;
    };
    bool any_hole = false;
    for (const auto& r : s.rings)
    {
        any_hole |= r.size() > 1;
    }
    const double far = gap + count * s.lw;
    std::map<int, double> len;
    std::vector<int> order;
    for (const Printed* l : br)
    {
        for (int i = 0; i <= 2; i++)
        {
            const V2 p{ l->a.x + (l->b.x - l->a.x) * i / 2, l->a.y + (l->b.y - l->a.y) * i / 2 };
            double d;
            const int in = side(p, d);
            PBT_CHECK(d > gap + s.lw / 2 - 0.12, "brim at (%.3f,%.3f), %.3f from the model", p.x, p.y, d);
            PBT_CHECK(in == 1 ? where != "outside" : where != "inside", "brim at (%.3f,%.3f), %s", p.x, p.y, in ? "in a hole" : "outside");
            if (minimal == 0)
            {
                PBT_CHECK(d < far - s.lw / 2 + 0.12 + 0.02 * count, "brim at (%.3f,%.3f), %.3f from the model", p.x, p.y, d);
            }
            lastd = d;
        }
        if (s.convex)
        {
            const int i = std::lround((lastd - gap) / s.lw - 0.5);
            len[i] += l->len;
            if (order.empty() || order.back() != i)
            {
                order.push_back(i);
            }
        }
    }
    if (s.convex && where != "inside")
    {
        std::vector<V2> ps;
        for (const Point2LL& p : s.rings[0][0])
        {
            ps.push_back({ p.X / 1000.0, p.Y / 1000.0 });
        }
        const auto hull = hullOf([&]
                                 {
                                     std::vector<V2> q;
                                     for (const auto& [a, b] : s.at[0][0].segs)
                                     {
                                         q.push_back(a);
                                     }
                                     return q;
                                 }());
        double around = 0;
        for (size_t i = 0; i < hull.size(); i++)
        {
            around += std::hypot(hull[(i + 1) % hull.size()].x - hull[i].x, hull[(i + 1) % hull.size()].y - hull[i].y);
        }
        const int loops = len.empty() ? 0 : len.rbegin()->first + 1;
        PBT_CHECK(loops >= count && (minimal > 0 || loops == count), "%d loops of brim, not %d", loops, count);
        for (int i = 0; i < loops; i++)
        {
            const double expect = around + 2 * M_PI * (gap + (i + 0.5) * s.lw);
            PBT_CHECK(std::fabs(len[i] - expect) < 0.03 * expect + 0.4, "loop %d of the brim is %.2f mm long, not %.2f", i, len[i], expect);
        }
        PBT_CHECK(all > minimal - 1, "%.1f mm of brim, not %.1f", all, minimal);
        // from the outside in, so that the wall is printed last; "smart": the innermost but one is the last
        std::vector<int> expect;
        for (int i = loops - 1; i >= 0; i--)
        {
            expect.push_back(i);
        }
        if (smart && loops > 1)
        {
            std::swap(expect[loops - 1], expect[loops - 2]);
        }
        std::string o;
        for (int i : order)
        {
            o += " " + num(i);
        }
        PBT_CHECK(order == expect, "loops of the brim are printed in the order%s", o.c_str());
    }
    // covered
    int probes = 0;
    for (int t = 0; t < 120; t++)
    {
        const auto& part = s.at[0][g.draw(s.rings.size() - 1)];
        const auto& [a, b] = g.pick(part.segs);
        const double f = g.real(0, 1), len2 = std::hypot(b.x - a.x, b.y - a.y), r = g.real(-1, 1) * (far + 0.5);
        if (len2 < 1e-6)
        {
            continue;
        }
        const V2 p{ a.x + f * (b.x - a.x) - (b.y - a.y) / len2 * r, a.y + f * (b.y - a.y) + (b.x - a.x) / len2 * r };
        double d;
        const int in = side(p, d);
        const bool wanted = in == 1 ? where != "outside" : where != "inside";
        if (d < gap + s.lw / 2 || ! wanted)
        {
            continue;
        }
        // parts that are told to keep clear of brim
        bool clear = true;
        for (size_t i = 0; i < s.rings.size(); i++)
        {
            clear &= s.rings.size() == 1 || s.at[0][i].dist(p) > 2 * far || s.at[0][i].dist(p) == d;
        }
        double room = 1e9; // in the hole, for another loop
        if (in == 1)
        {
            room = 0;
            for (const auto& r : s.rings)
            {
                for (size_t i = 1; i < r.size(); i++)
                {
                    const double side = std::hypot(r[i][0].X - r[i][4].X, r[i][0].Y - r[i][4].Y) / 2000;
                    const V2 m{ (r[i][0].X + r[i][4].X) / 2000.0, (r[i][0].Y + r[i][4].Y) / 2000.0 };
                    if (std::hypot(p.x - m.x, p.y - m.y) < side)
                    {
                        room = side * 0.92;
                    }
                }
            }
        }
        if (d < far - s.lw / 2 && clear && (in == 0 || (d < far - s.lw && d < room - 1.3 * s.lw)))
        {
            probes++;
            const double n = nearest(ls.at(0), p, isSkirt);
            PBT_CHECK(n < (s.convex ? s.lw / 2 + 0.12 : s.lw + 0.25), "(%.3f,%.3f), %.3f from the model, is %.3f from the brim", p.x, p.y, d, n);
        }
    }
    (void)first;
    if (probes > 15 && (any_hole || ! s.convex || count > 3))
    {
        c.nontrivial();
    }
    c.label(where + (any_hole ? ", with holes" : ""));
}

static void raft(Case& c)
{
    Gen& g = c.g;
    Setup s = setup(c);
    Job& j = s.job;
    j.set("initial_layer_line_width_factor", "100");
    j.set("adhesion_type", "none");
    Setup without = s;
    struct Kind
    {
        const char* name;
        int count;
        double th, w, spacing, margin, z;
    } kinds[3] = { { "base", 1 }, { "interface" }, { "surface" } };
    j.set("adhesion_type", "raft");
    kinds[1].count = g.range(0, 3);
    kinds[2].count = g.range(0, 3);
    j.set("raft_interface_layers", num(kinds[1].count));
    j.set("raft_surface_layers", num(kinds[2].count));
    const double margin = g.oneof<double>({ 1, 3, 6 });
    for (int i = 0; i < 3; i++)
    {
        Kind& k = kinds[i];
        const std::string n = std::string("raft_") + k.name + "_";
        k.th = g.oneof<double>({ 0.2, 0.15, 0.3 });
        k.w = g.oneof<double>({ 0.4, 0.5, 0.8 });
        k.spacing = k.w * g.oneof<double>({ 1, 1.5, 2 });
        k.margin = g.flip() ? margin : margin + g.oneof<double>({ -0.5, 1 });
        k.z = i == 0 ? 0 : g.oneof<double>({ 0, 0, 0.05 });
        j.set(n + "thickness", num(k.th));
        j.set(n + "line_width", num(k.w));
        j.set(n + "line_spacing", num(k.spacing));
        j.set(n + "margin", num(k.margin));
        j.set(n + "smoothing", g.oneof<std::string>({ "0", "2", "5" }));
        j.set(n + "wall_count", g.oneof<std::string>({ "0", "1", "2" }));
        j.set(n + "remove_inside_corners", g.chance(1, 4) ? "True" : "False");
        if (i)
        {
            j.set(n + "z_offset", num(k.z));
        }
    }
    const double airgap = g.oneof<double>({ 0.25, 0, 0.1, 0.3, 0.6 }), overlap = g.oneof<double>({ 0, 0.1, 0.15 });
    j.set("raft_airgap", num(airgap));
    j.set("layer_0_z_overlap", num(overlap));
    j.set("skirt_brim_line_width", j.get("line_width"));
    const GCode gc = run(c, s);
    without.what = s.what;
    const GCode plain = run(c, without);
    // every layer: its lines
    std::map<int, std::vector<Ev>> at;
    std::set<int> seen;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0)
        {
            at[v.layer].push_back(v);
        }
    }
    // layers of the raft come first, numbered from below
    const int filler = airgap / s.h + 0.5;
    const int n = 1 + kinds[1].count + kinds[2].count, start = -(n + (int)std::lround(airgap * 1000 / (s.h * 1000)));
    (void)filler;
    double z = 0;
    int no = start;
    size_t probes = 0;
    for (const Kind& k : kinds)
    {
        z += k.z;
        for (int i = 0; i < k.count; i++, no++)
        {
            z += k.th;
            PBT_CHECK(at.count(no) && ! at[no].empty(), "nothing is printed in layer %d of the raft (%s)", no, k.name);
            double area = 0;
            std::vector<Printed> lines;
            for (const Ev& v : at[no])
            {
                PBT_CHECK(v.type == "SKIRT" || v.type == "SUPPORT-INTERFACE" || v.type == "SUPPORT" || v.type == "FILL" || v.type == "SKIN", "layer %d of the raft has %s", no, v.type.c_str());
                PBT_CHECK(std::fabs(v.z - z) < 0.0021, "layer %d of the raft (%s) is printed at %.4f, not %.4f", no, k.name, v.z, z);
                const double vol = v.e * M_PI / 4 * 1.75 * 1.75, len = v.len();
                lines.push_back({ { v.x0, v.y0 }, { v.x, v.y }, 0, vol, len, v.f, v.z, v.type, v.no, v.tool });
                area += vol / k.th;
                const double w = vol / len / k.th;
                PBT_CHECK(len < 0.3 || (w < k.w * 2 + 0.05 && w > k.w * 0.4 - 0.05), "layer %d of the raft (%s) has a line of width %.3f, not %.3f", no, k.name, w, k.w);
                const V2 mid{ (v.x0 + v.x) / 2, (v.y0 + v.y) / 2 };
                if (j.get(std::string("raft_") + k.name + "_remove_inside_corners") == "False" && len < 3)
                {
                    const double d = s.dist(0, mid);
                    PBT_CHECK(d < k.margin + j.getD(std::string("raft_") + k.name + "_smoothing") + 0.06 + k.w / 2, "layer %d of the raft (%s) at (%.3f,%.3f) is %.3f from the model", no, k.name, mid.x, mid.y, d);
                }
            }
            // everything within the margin is covered
            for (int t = 0; t < 40; t++)
            {
                const auto& part = s.at[0][g.draw(s.rings.size() - 1)];
                const double m = k.margin - 0.5 - k.w;
                const V2 p{ g.real(part.x0 - m, part.x1 + m), g.real(part.y0 - m, part.y1 + m) };
                if (s.dist(0, p) < m)
                {
                    probes++;
                    const double d = nearest(lines, p);
                    PBT_CHECK(d < k.spacing / 2 + k.w / 2 + 0.15, "layer %d of the raft (%s): (%.3f,%.3f), %.3f from the model, is %.3f from the nearest line", no, k.name, p.x, p.y, s.dist(0, p), d);
                }
            }
        }
    }
    // the model, as without a raft, higher up
    std::map<int, std::pair<double, double>> sum, psum;
    for (const Ev& v : gc.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0 && v.layer >= 0)
        {
            PBT_CHECK(v.type != "SKIRT", "layer %d has %s", v.layer, v.type.c_str());
            const double expect = z + airgap + s.h0 + v.layer * s.h - (v.layer ? overlap : 0);
            PBT_CHECK(std::fabs(v.z - expect) < 0.0025, "layer %d of the model is printed at %.4f, not %.4f", v.layer, v.z, expect);
            sum[v.layer].first += v.len();
            sum[v.layer].second += v.e;
        }
    }
    for (const Ev& v : plain.ev)
    {
        if (v.kind == Ev::MOVE && v.e > 0)
        {
            psum[v.layer].first += v.len();
            psum[v.layer].second += v.e;
        }
    }
    PBT_CHECK(sum.size() == psum.size(), "%zu layers, %zu without raft", sum.size(), psum.size());
    for (const auto& [k, v] : psum)
    {
        PBT_CHECK(std::fabs(sum[k].first - v.first) < 0.01 * v.first + 0.1 && std::fabs(sum[k].second - v.second) < 0.01 * v.second + 0.01, "layer %d: %.3f mm (%.4f), without raft %.3f (%.4f)", k, sum[k].first, sum[k].second, v.first, v.second);
    }
    if (probes > 40 && kinds[1].count && kinds[2].count)
    {
        c.nontrivial();
    }
    c.label(airgap == 0 ? "no airgap" : "airgap");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G12",
                  {
                      { "skirt", 1000, 8000, "several parts, or not convex", skirt, 60 },
                      { "brim", 1000, 8000, "more than fifteen covered places, and several parts, concave, holes or more than three lines", brim, 60 },
                      { "raft", 600, 5000, "more than 40 covered places; interface and surface layers", raft, 60 },
                  });
    return r.main(argc, argv);
}
