// G19 walls of varying width
// SOURCES: ALL
#include "BeadingStrategy/BeadingStrategyFactory.h"
#include "Application.h"
#include "ExtruderTrain.h"
#include "Slice.h"
#include "WallToolPaths.h"
#include "WallsComputation.h"
#include "geo.h"
#include "settings/types/Angle.h"
#include "sliceDataStorage.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
static FILE* show = getenv("SHOW") ? fopen(getenv("SHOW"), "a") : nullptr;

template<class S>
static int wind(const S& s, const Point2LL& p)
{
    bool b = false;
    return windingSum(s, p, b);
}

// ---------------------------------------------------------------------------------------------- how a thickness is divided
static void beads(Case& c)
{
    Gen& g = c.g;
    const coord_t w0 = g.range((coord_t)150, (coord_t)1200), wx = g.flip() ? w0 : g.range((coord_t)150, (coord_t)1200);
    const bool thin = g.flip();
    const coord_t minOut = g.range((coord_t)50, w0), minIn = g.range((coord_t)20, g.flip() ? minOut : w0 * 3 / 4);
    const double split = g.flip() ? g.range((int64_t)1, (int64_t)99) / 100.0 : g.oneof<double>({ 0.5, 0.7, 0.01, 0.99 }), add = g.flip() ? g.range((int64_t)1, (int64_t)99) / 100.0 : g.oneof<double>({ 0.5, 0.85, 0.01, 0.99 });
    const coord_t walls = g.range((int64_t)1, (int64_t)6), N = 2 * walls;
    const coord_t o0 = g.chance(2, 3) ? 0 : g.range((coord_t)1, w0), ox = g.chance(3, 4) ? 0 : g.range(-wx / 2, wx / 2);
    const int spread = (int)g.range((int64_t)1, (int64_t)5);
    const coord_t len = g.range((coord_t)10, (coord_t)2000);
    const double ang = g.real(0.01, 1.5), m = 0.5;
    c.note("w0=%lld wx=%lld thin=%d in=%lld out=%lld split=%g add=%g N=%lld o0=%lld ox=%lld spread=%d;", (long long)w0, (long long)wx, thin, (long long)minIn, (long long)minOut, split, add, (long long)N, (long long)o0, (long long)ox, spread);
    const auto S = BeadingStrategyFactory::makeStrategy(w0, wx, len, ang, thin, minOut, minIn, split, add, N, o0, ox, spread, m);
    PBT_CHECK(S->getTransitioningLength(2) == len && std::abs((double)S->getTransitioningAngle() - ang) < 1e-9, "transition length or angle is not as set");
    const auto optimum = [&](coord_t n) { return n <= 2 ? n * w0 : 2 * w0 + (n - 2) * wx; };
    // thickness from which on n + 1 beads are used
    const auto from = [&](coord_t n) -> double
    {
        if (n == 0)
            return thin ? (double)minIn : m * w0;
        if (n == 1)
            return (1 + split) * w0;
        return optimum(n) + (n % 2 ? split : add) * wx;
    };
    const auto count = [&](coord_t t, bool& sure)
    {
        coord_t n = 0;
        sure = true;
        for (; n <= N; n++)
        {
            const double f = n == N ? std::max(from(N), optimum(N + 1) - 10.0) : from(n);
            if (std::abs(f - t) <= 2)
                sure = false;
            if (t < f)
                break;
        }
        return n;
    };
    // the largest thickness of interest
    coord_t prev = -1, prevT = 0;
    for (coord_t n = 0; n <= N; n++)
    {
        const double f = n == N ? optimum(N + 1) - 10 : from(n);
        PBT_CHECK(std::abs(S->getTransitionThickness(n) - f) <= 2, "%lld to %lld beads at %lld instead of %.1f", (long long)n, (long long)(n + 1), (long long)S->getTransitionThickness(n), f);
        PBT_CHECK(S->getOptimalThickness(n) == optimum(n), "optimal thickness of %lld beads: %lld", (long long)n, (long long)S->getOptimalThickness(n));
        const double a = S->getTransitionAnchorPos(n);
        PBT_CHECK(a >= -0.01 && a <= 1.01, "anchor %g of the transition from %lld beads", a, (long long)n);
    }
    const bool monotone = ! thin || minIn < (1 + split) * w0 - 3;
    std::vector<coord_t> ts;
    for (int k = 0; k < 16; k++)
    {
        coord_t t;
        switch (g.draw(3))
        {
        case 0:
            t = std::max<coord_t>(1, (coord_t)from(g.range((int64_t)0, N)) + g.around(12));
            break;
        case 1:
            t = std::max<coord_t>(1, optimum(g.range((int64_t)1, N + 2)) + g.around(12));
            break;
        default:
            t = g.range((coord_t)1, optimum(N + 3));
        }
        ts.push_back(t);
    }
    std::sort(ts.begin(), ts.end());
    if (! monotone)
        return c.discard();
    for (coord_t t : ts)
    {
        bool sure;
        const coord_t want = count(t, sure), n = S->getOptimalBeadCount(t);
        if (sure)
            PBT_CHECK(n == want, "%lld beads instead of %lld in %lld", (long long)n, (long long)want, (long long)t);
        PBT_CHECK(n >= prev && n <= N + 1, "%lld beads in %lld, but %lld in %lld", (long long)n, (long long)t, (long long)prev, (long long)prevT);
        prev = n;
        prevT = t;
        // beads that are asked for need not be the optimal number (in transitions)
        const coord_t ask = t > 2 * w0 && n <= N && n > 3 && g.chance(1, 3) ? (n == 4 ? n : g.flip() && n < N ? n + 1 : n - 1) : n;
        const auto b = S->compute(t, ask);
        std::string all;
        for (size_t i = 0; i < b.bead_widths.size(); i++)
            all += std::to_string(b.bead_widths[i]) + "@" + std::to_string(b.toolpath_locations[i]) + " ";
        const auto fail = [&](const char* what) { PBT_CHECK(false, "%s: %lld beads in %lld: %s left %lld", what, (long long)ask, (long long)t, all.c_str(), (long long)b.left_over); };
        if (b.bead_widths.size() != b.toolpath_locations.size() || b.total_thickness != t)
            fail("malformed");
        // the beads of one side, from the outside in, and the middle one
        const bool over = ask == N + 1;
        const size_t real = std::min(ask, N);
        const size_t markers = over ? 2 : ask == N ? 1 : 0;
        if (b.bead_widths.size() != real + markers)
            fail("wrong number of beads");
        if (ask > N / 2 * 2 - 1 || ask > 2)
            c.nontrivial();
        if (real == 0)
        {
            if (b.left_over != t)
                fail("left over");
            continue;
        }
        std::vector<double> w(real);
        const double inner = (over ? optimum(N) : t) - 2.0 * w0;
        if (real == 1)
            w[0] = thin && t < w0 ? std::max(t, minOut) : t;
        else if (real == 2)
            w[0] = w[1] = over ? w0 : t / 2.0;
        else
        {
            const coord_t k = real - 2;
            const double extra = inner - k * wx, mid = (k - 1) / 2.0;
            double sum = 0;
            std::vector<double> share(k);
            for (coord_t i = 0; i < k; i++)
            {
                const double dev = std::abs(i - mid), r = std::max(1, spread - 1);
                share[i] = k <= 2 ? 1 : std::max(0.0, 1 - dev * dev / (r * r));
                sum += share[i];
            }
            for (coord_t i = 0; i < k; i++)
                w[i + 1] = wx + extra * share[i] / sum;
            w[0] = w[real - 1] = w0;
        }
        coord_t sum = 0;
        for (size_t i = 0; i < b.bead_widths.size(); i++)
            sum += b.bead_widths[i];
        const double target = real == 1 ? w[0] : t;
        if (std::abs((double)sum + (real == 1 && thin ? 0 : b.left_over) - target) > (real == 1 ? 0 : (double)real + 1))
            fail("widths and what is left over do not add up");
        if (std::abs((double)b.left_over - (over ? t - optimum(N) : 0)) > real + 1 && real > 1)
            fail("left over");
        const size_t half = (real + 1) / 2;
        double at = 0;
        const double cap = (over ? optimum(N) : t) / 2.0; // no wall is moved past the middle of all
        for (size_t i = 0; i < half; i++)
        {
            const double tol = 2 + i;
            if (std::abs(b.bead_widths[i] - w[i]) > tol)
                fail("width");
            double loc = real == 1 ? t / 2.0 : at + w[i] / 2;
            if (real > 1)
                loc += i == 0 ? o0 : ox;
            if (i == 0 && real > 1)
                loc = std::min(loc, cap);
            const bool middle = real % 2 && i == half - 1;
            if (middle)
                loc = t / 2.0;
            else if (i > 0)
                loc = std::min(loc, cap);
            if (std::abs(b.toolpath_locations[i] - loc) > tol + 2)
                fail(middle ? "the middle bead is not in the middle" : "location");
            at += w[i];
        }
        // the marks of where the walls end
        for (size_t i = half; i < half + markers; i++)
            if (b.bead_widths[i] != 0)
                fail("mark");
        if (markers && o0 == 0 && ox == 0 && (std::abs(b.toolpath_locations[half] - at) > 4 + N || (markers == 2 && std::abs(b.toolpath_locations[half + 1] - (t - at)) > 4 + N)))
            fail("place of the mark");
        if (over && o0 == 0 && ox == 0)
            for (size_t i = 0; i < b.bead_widths.size(); i++)
                if (std::abs(b.bead_widths[i] - b.bead_widths[b.bead_widths.size() - 1 - i]) > N || std::abs(t - b.toolpath_locations[i] - b.toolpath_locations[b.bead_widths.size() - 1 - i]) > N)
                    fail("not symmetric");
    }
    c.label("walls " + std::to_string(walls));
}

// ------------------------------------------------------------------------------------------------------ walls of an area
struct Walls
{
    coord_t w0, wx, n, o0 = 0, ox = 0, dev;
    bool thin, fine;
    coord_t minIn, minOut, minEven, minOdd, openClose;
    Settings s;
};
static Walls genWalls(Gen& g)
{
    Walls p;
    p.w0 = g.range((coord_t)200, (coord_t)800);
    p.wx = g.flip() ? p.w0 : g.range(p.w0 * 2 / 3, p.w0 * 3 / 2);
    p.n = g.range((int64_t)1, (int64_t)6);
    p.thin = g.flip();
    p.minOut = p.w0 * g.range((int64_t)50, (int64_t)100) / 100;
    p.minIn = p.w0 * g.range((int64_t)25, (int64_t)75) / 100;
    p.minEven = p.w0 * g.range((int64_t)55, (int64_t)95) / 100;
    p.minOdd = p.wx * g.range((int64_t)55, (int64_t)95) / 100;
    p.dev = g.oneof<coord_t>({ 10, 25 });
    const coord_t minLine = std::min(p.minEven, p.minOdd);
    p.openClose = p.thin ? p.minIn / 2 - 5 : minLine / 2 - 5;
    Settings& s = p.s;
    const auto mm = [](double v) { return std::to_string(v / 1000); };
    s.add("fill_outline_gaps", p.thin ? "true" : "false");
    s.add("meshfix_maximum_deviation", mm(p.dev));
    s.add("meshfix_maximum_extrusion_area_deviation", "500");
    s.add("meshfix_fluid_motion_enabled", "false");
    p.fine = g.flip();
    s.add("meshfix_maximum_resolution", p.fine ? "0.01" : g.oneof<std::string>({ "0.05", "0.25" }));
    s.add("min_wall_line_width", mm(minLine));
    s.add("min_bead_width", mm(p.minOut));
    s.add("min_feature_size", mm(p.minIn));
    s.add("wall_0_extruder_nr", "0");
    s.add("wall_x_extruder_nr", "0");
    s.add("wall_line_count", std::to_string(p.n));
    s.add("wall_line_width_0", mm(p.w0));
    s.add("wall_line_width_x", mm(p.wx));
    s.add("min_even_wall_line_width", mm(p.minEven));
    s.add("min_odd_wall_line_width", mm(p.minOdd));
    s.add("wall_transition_angle", std::to_string(g.range((int64_t)5, (int64_t)30)));
    s.add("wall_transition_filter_distance", g.oneof<std::string>({ "0.5", "1", "10", "100" }));
    s.add("wall_transition_filter_deviation", mm(p.w0 / 4));
    s.add("wall_transition_length", mm(p.w0));
    s.add("wall_distribution_count", std::to_string(g.range((int64_t)1, (int64_t)3)));
    return p;
}
struct Line
{
    std::vector<ExtrusionJunction> j;
    size_t inset;
    bool odd, closed;
};
static std::string strLines(const std::vector<VariableWidthLines>& t)
{
    std::string s;
    for (auto& v : t)
        for (auto& l : v)
        {
            s += " [" + std::to_string(l.inset_idx_) + (l.is_odd_ ? "o" : "") + (l.is_closed_ ? "c" : "") + ":";
            for (auto& j : l.junctions_)
                s += " " + std::to_string(j.p_.X) + "," + std::to_string(j.p_.Y) + "w" + std::to_string(j.w_);
            s += "]";
        }
    return s;
}
// The walls of shape A: inside it, cover it up to the inner contour, once.
static void checkWalls(Case& c, const Walls& p, const Shape& A, const std::vector<VariableWidthLines>& T, const Shape& inner)
{
    Gen& g = c.g;
    const coord_t d = p.openClose;
    const Shape S = A.offset(-d).offset(2 * d + 2 * p.dev).offset(-d - 2 * p.dev); // bits too thin to print, and gaps too thin to see
    const ld tol = 2 * p.dev + 15;
    const coord_t total = p.w0 + (p.n - 1) * p.wx, wmax = std::max(p.w0, p.wx);
    const Shape wide = S.offset(-p.w0).offset(p.w0 - 5, ClipperLib::jtRound); // where at least two walls fit
    const bool clear = std::abs(shapeArea(S) - shapeArea(A.offset(-d).offset(2 * d).offset(-d))) < 500;
    const coord_t room = total + 2 * wmax + p.n * wmax / 2;
    const Shape roomy = S.offset(-room).offset(room - 5, ClipperLib::jtRound); // where all walls and more fit, so that all are as wide as set
    const Shape narrow = S.difference(roomy).offset(-20).offset(20 + 2 * wmax + total / 2, ClipperLib::jtRound);
    ld volume = 0;
    int64_t prev = -1;
    for (auto& v : T)
    {
        PBT_CHECK(! v.empty(), "empty set of walls");
        const int64_t k = v[0].inset_idx_;
        PBT_CHECK(k > prev && k < p.n, "wall number %lld after %lld, %lld walls", (long long)k, (long long)prev, (long long)p.n);
        prev = k;
        for (auto& l : v)
        {
            PBT_CHECK((int64_t)l.inset_idx_ == k, "walls %lld and %lld together", (long long)k, (long long)l.inset_idx_);
            PBT_CHECK(l.junctions_.size() >= 2, "a wall of %zu points", l.junctions_.size());
            PBT_CHECK(! (l.is_odd_ && l.is_closed_ && false), "odd");
            for (size_t i = 0; i < l.junctions_.size(); i++)
            {
                const auto& j = l.junctions_[i];
                PBT_CHECK(j.w_ >= -p.wx / 4 && j.w_ < 3 * wmax, "width %lld; walls:%s", (long long)j.w_, strLines(T).c_str());
                const ld dep = borderDist(S, j.p_);
                const bool in = wind(S, j.p_) != 0;
                const ld half = (k == 0 && (l.is_odd_ || ! clear) || wind(wide, j.p_) == 0 ? 0 : j.w_) / 2.0L;
                PBT_CHECK((wide.empty() && l.is_odd_) || (in ? dep : -dep) > half - tol - (half ? 0.3L * wmax : 0), "wall %lld of width %lld at %s, which is only %.0Lf inside; walls:%s", (long long)k, (long long)j.w_, str(j.p_).c_str(), in ? dep : -dep, strLines(T).c_str());
                if (clear && ! l.is_odd_ && wind(roomy, j.p_) && ! wind(narrow, j.p_))
                {
                    const ld nominal = k == 0 ? p.w0 / 2.0L : p.w0 + (k - 0.5L) * p.wx;
                    PBT_CHECK(std::abs(dep - nominal) < (p.fine ? 3 * p.dev + 30 : 4 * p.dev + 50), "wall %lld at %s is %.0Lf inside instead of %.0Lf; walls:%s", (long long)k, str(j.p_).c_str(), dep, nominal, strLines(T).c_str());
                    static ld worst;
                    if (show && std::abs(dep - nominal) > worst)
                    {
                        worst = std::abs(dep - nominal);
                        fprintf(show, "deep: wall %lld depth %.0Lf instead of %.0Lf at %s\n", (long long)k, dep, nominal, str(j.p_).c_str()), fflush(show);
                    }
                }
                if (i)
                {
                    const auto& q = l.junctions_[i - 1];
                    volume += dist(q.p_, j.p_) * (q.w_ + j.w_) / 2;
                }
            }
        }
    }
    const ld area = shapeArea(S) - shapeArea(inner);
    c.note("area %.3Lf volume %.3Lf inner %.3Lf;", shapeArea(S) / 1e6L, volume / 1e6L, shapeArea(inner) / 1e6L);
    // what is fed fills the walled area, except for the tips of sharp corners
    ld tips = 0;
    for (const auto& ring : S)
        for (size_t i = 0; i < ring.size(); i++)
        {
            const Point2LL a = ring[i] - ring[(i + ring.size() - 1) % ring.size()], b = ring[(i + 1) % ring.size()] - ring[i];
            const ld turn = std::atan2((ld)a.X * b.Y - (ld)a.Y * b.X, (ld)a.X * b.X + (ld)a.Y * b.Y); // positive at convex corners
            if (turn > 0)
                tips += std::min(30.0L, std::tan(std::min(turn, 3.1L) / 2) - turn / 2) * p.w0 * p.w0 / 4;
        }
    const bool bulky = clear && shapeArea(wide) > 0.97L * shapeArea(S);
    const bool simple = shapeArea(roomy) > 0.9L * shapeArea(S); // no places where the walls of both sides meet
    if (bulky)
    {
        PBT_CHECK((! simple || volume > area * 0.93L - 2 * tips) && volume < area * 1.1L, "%.3Lf mm2 of walls for %.3Lf mm2; walls: %s", volume / 1e6L, area / 1e6L, strLines(T).c_str());
        if (show)
            fprintf(show, "ratio %.4Lf %.4Lf tips %.4Lf\n", volume / area, (volume - area) / (perimeter(S) * p.w0), tips / area), fflush(show);
    }
    int hitIn = 0, hitWall = 0;
    for (int k = 0; k < 40; k++)
    {
        const Point2LL q = genProbe(g, S, total * 2);
        if (wind(S, q) == 0)
            continue;
        const ld dep = borderDist(S, q);
        const bool in = wind(inner, q) != 0;
        if (in)
        {
            PBT_CHECK(dep > total - tol - (wind(roomy, q) && ! wind(narrow, q) ? 15 : p.wx / 2 + p.w0 / 4), "only %.0Lf inside and behind the walls at %s", dep, str(q).c_str());
            hitIn++;
            continue;
        }
        if (clear && dep > total + p.wx + p.n * p.w0 / 4 + tol)
            PBT_CHECK(false, "%.0Lf inside and not behind the walls at %s", dep, str(q).c_str());
        ld best = 1e18L, bw = 0;
        for (auto& v : T)
            for (auto& l : v)
                for (size_t i = 1; i < l.junctions_.size(); i++)
                {
                    ld t;
                    const ld dd = distSeg(q, l.junctions_[i - 1].p_, l.junctions_[i].p_, &t) - ((1 - t) * l.junctions_[i - 1].w_ + t * l.junctions_[i].w_) / 2;
                    best = std::min(best, dd);
                }
        hitWall++;
        static ld worst = 0;
        if (show && best > worst)
        {
            worst = best;
            fprintf(show, "uncovered %.0Lf at depth %.0Lf %s w0 %lld\n", best, dep, str(q).c_str(), (long long)p.w0), fflush(show);
        }
    }
    if (hitIn && hitWall > 3)
        c.nontrivial();
}
static void walls(Case& c)
{
    Gen& g = c.g;
    Walls p = genWalls(g);
    if (g.chance(1, 4))
        p.o0 = g.range((coord_t)0, p.w0 / 3);
    if (g.chance(1, 4))
        p.ox = g.range(-p.wx / 3, p.wx / 3);
    const coord_t sc = g.oneof<coord_t>({ 4000, 10000, 20000 });
    const Shape A = genArea(g, sc);
    c.note("w0=%lld wx=%lld n=%lld o0=%lld ox=%lld thin=%d min in %lld out %lld even %lld odd %lld;%s", (long long)p.w0, (long long)p.wx, (long long)p.n, (long long)p.o0, (long long)p.ox, p.thin, (long long)p.minIn, (long long)p.minOut, (long long)p.minEven, (long long)p.minOdd, strShape(A).c_str());
    WallToolPaths w(A, p.w0, p.wx, p.n, p.o0, p.ox, p.s, 3, SectionType::WALL);
    const auto T = w.getToolPaths();
    if (p.o0 || p.ox)
    {
        // moving the walls in does not change which there are
        WallToolPaths w2(A, p.w0, p.wx, p.n, 0, 0, p.s, 3, SectionType::WALL);
        const auto T2 = w2.getToolPaths();
        const auto len = [](const std::vector<VariableWidthLines>& t, bool odd)
        {
            ld sum = 0;
            for (auto& v : t)
                for (auto& l : v)
                    if (l.is_odd_ == odd)
                        sum += l.length();
            return sum;
        };
        const ld a = len(T, true), b = len(T2, true);
        PBT_CHECK(std::abs(a - b) < 0.2L * b + 4000, "middle walls of %.3Lf mm instead of %.3Lf when moved by %lld and %lld", a / 1000, b / 1000, (long long)p.o0, (long long)p.ox);
        return;
    }
    checkWalls(c, p, A, T, w.getInnerContour());
}

// --------------------------------------------------------------------------------------------------- walls of the layers
static void parts(Case& c)
{
    Gen& g = c.g;
    Walls p = genWalls(g);
    static std::shared_ptr<Slice> slice; // stays alive until the next one is there
    auto fresh = std::make_shared<Slice>(1);
    Application::getInstance().current_slice_ = fresh;
    slice = fresh;
    slice->scene.extruders.reserve(2);
    slice->scene.current_mesh_group = slice->scene.mesh_groups.begin();
    const int f0 = (int)g.range((int64_t)60, (int64_t)150), f1 = (int)g.range((int64_t)60, (int64_t)150), e0 = (int)g.draw(1), e1 = (int)g.draw(1);
    for (int e = 0; e < 2; e++)
    {
        slice->scene.extruders.emplace_back(e, &slice->scene.settings);
        Settings& t = slice->scene.extruders.back().settings_;
        t.add("initial_layer_line_width_factor", std::to_string(e ? f1 : f0));
        t.add("meshfix_maximum_deviation", std::to_string(p.dev / 1000.0));
        t.add("meshfix_maximum_resolution", "0.05");
        t.add("meshfix_maximum_extrusion_area_deviation", "500");
    }
    Settings& s = p.s;
    const int layer = (int)g.range((int64_t)-2, (int64_t)5), bottoms = (int)g.range((int64_t)0, (int64_t)4);
    const bool alternate = g.flip(), spiral = g.chance(1, 3), support = g.flip();
    const size_t count = g.chance(1, 8) ? 0 : p.n;
    if (g.chance(1, 4))
        p.o0 = g.range((coord_t)0, p.w0 / 3);
    s.add("wall_line_count", std::to_string(count));
    s.add("alternate_extra_perimeter", alternate ? "true" : "false");
    s.add("magic_spiralize", spiral ? "true" : "false");
    s.add("initial_bottom_layers", std::to_string(bottoms));
    s.add("support_enable", support ? "true" : "false");
    s.add("wall_0_inset", std::to_string(p.o0 / 1000.0));
    s.add("wall_x_inset", "0");
    s.add("wall_0_extruder_nr", std::to_string(e0));
    s.add("wall_x_extruder_nr", std::to_string(e1));
    const coord_t sc = g.oneof<coord_t>({ 4000, 10000, 20000 });
    const Shape A = genArea(g, sc);
    c.note("layer %d of walls %zu w0=%lld wx=%lld o0=%lld thin=%d dev=%lld min %lld even %lld odd %lld alternate=%d spiral=%d bottoms=%d support=%d factors %d %d extruders %d %d;%s", layer, count, (long long)p.w0, (long long)p.wx, (long long)p.o0, p.thin, (long long)p.dev, (long long)p.minIn, (long long)p.minEven, (long long)p.minOdd, alternate, spiral, bottoms, support, f0, f1, e0, e1, strShape(A).c_str());
    if (A.empty())
        return c.discard();
    SliceLayer L;
    for (SingleShape& one : A.splitIntoParts())
    {
        L.parts.emplace_back();
        L.parts.back().outline = one;
    }
    const size_t before = L.parts.size();
    std::vector<Shape> outlines;
    for (auto& q : L.parts)
        outlines.push_back(q.outline);
    WallsComputation(s, LayerIndex(layer)).generateWalls(&L, SectionType::WALL);
    if (layer == 0)
    {
        p.w0 = p.w0 * (e0 ? f1 : f0) / 100;
        p.wx = p.wx * (e1 ? f1 : f0) / 100;
    }
    const bool odd = (layer & 1) != 0;
    coord_t n = count;
    if (spiral && odd && layer < bottoms)
        n += 5;
    if (alternate && odd)
        n++;
    size_t at = 0;
    for (auto& q : L.parts)
    {
        // which one it was
        size_t from = before;
        double most = 0;
        for (size_t k = at; k < before; k++)
        {
            const double shared = outlines[k].intersection(q.outline).area();
            if (shared > most)
            {
                most = shared;
                from = k;
            }
        }
        PBT_CHECK(from < before, "a part that was not there");
        const Shape& O = outlines[from];
        for (size_t k = at; k < from; k++)
        {
            const Shape mid = outlines[k].offset(-p.w0 - p.o0);
            PBT_CHECK((count > 0 && ! p.thin && shapeArea(mid) < 400) || shapeArea(outlines[k]) < 2000, "part %zu got lost: %s", k, strShape(outlines[k]).c_str());
        }
        at = from + 1;
        if (count == 0)
        {
            PBT_CHECK(q.wall_toolpaths.empty() && q.spiral_wall.empty() && q.inner_area.size() == O.size() && shapeArea(q.inner_area) == shapeArea(O) && shapeArea(q.print_outline) == shapeArea(O), "no walls");
            continue;
        }
        const bool lines = ! spiral || layer <= bottoms;
        PBT_CHECK(lines || (q.wall_toolpaths.empty() && q.inner_area.empty()), "walls above the bottom of a spiral");
        if (! p.thin)
            PBT_CHECK(! q.wall_toolpaths.empty() || ! q.spiral_wall.empty(), "a part without walls");
        if (lines && p.o0 == 0)
        {
            Walls pp = p;
            pp.n = n;
            checkWalls(c, pp, O, q.wall_toolpaths, q.inner_area);
        }
        if (! spiral)
        {
            PBT_CHECK(q.spiral_wall.empty(), "a spiral");
            continue;
        }
        const coord_t d = p.w0 / 2 + p.o0;
        const ld tol = 3 * p.dev + 10;
        int both = 0;
        const Shape want = O.offset(-d);
        for (int k = 0; k < 30; k++)
        {
            const Point2LL x = genProbe(g, O, 2 * d);
            const ld dep = borderDist(O, x);
            const bool in = wind(O, x) != 0, inside = wind(q.spiral_wall, x) != 0, printed = wind(q.print_outline, x) != 0;
            const ld dd = borderDist(want, x);
            if (wind(want, x) && dd > tol)
            {
                both |= 1;
                PBT_CHECK(inside, "%s is %.0Lf inside, but not within the spiral at %lld: %s, offset %s", str(x).c_str(), dep, (long long)d, strShape(q.spiral_wall).c_str(), strShape(O.offset(-d)).c_str());
                PBT_CHECK(printed, "%s is not printed", str(x).c_str());
            }
            if (! in || dep < d - tol || (! wind(want, x) && dd > tol))
            {
                both |= 2;
                PBT_CHECK(! inside, "%s is %.0Lf %s, but within the spiral at %lld", str(x).c_str(), dep, in ? "inside" : "outside", (long long)d);
            }
            if (! in && dep > tol)
                PBT_CHECK(! printed, "%s is outside but printed", str(x).c_str());
            if (in && dep > tol && ! (support && ! p.thin))
                PBT_CHECK(printed, "%s is inside but not printed", str(x).c_str());
        }
        if (both == 3)
            c.nontrivial();
    }
    for (size_t k = at; k < before; k++)
        PBT_CHECK((count > 0 && ! p.thin && shapeArea(outlines[k].offset(-p.w0 - p.o0)) < 400) || shapeArea(outlines[k]) < 2000, "part %zu got lost: %s", k, strShape(outlines[k]).c_str());
    c.label(spiral ? "spiral" : "walls");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G19",
                  {
                      { "beads", 200000, 2000000, "several walls or the limit reached", beads },
                      { "walls", 20000, 200000, "some probes in the walls and some behind them", walls },
                      { "parts", 10000, 100000, "some probes in the walls and some behind them, or on both sides of the spiral", parts },
                  });
    return r.main(argc, argv);
}
