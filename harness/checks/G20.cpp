// G20 order of printing and seams
// SOURCES: ALL
#include <map>
#include <numbers>
#include <set>

#include "InsetOrderOptimizer.h"
#include "PathOrderMonotonic.h"
#include "PathOrderOptimizer.h"
#include "WallToolPaths.h"
#include "engine_geo.h"
#include "geo.h"
#include "settings/ZSeamConfig.h"
#include "utils/MinimumSpanningTree.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
static FILE* show = getenv("SHOW") ? fopen(getenv("SHOW"), "a") : nullptr;

struct Line
{
    std::vector<Point2LL> pts;
    bool closed;
};

static std::vector<Line> genLines(Gen& g, size_t n, coord_t R, bool allowEmpty)
{
    std::vector<Line> lines;
    const coord_t step = g.oneof<coord_t>({ 1, 100, 1000, 2500 });
    const auto pt = [&] { return Point2LL(g.range(-R, R) / step * step, g.range(-R, R) / step * step); };
    const int kinds = (int)g.range((int64_t)0, (int64_t)2);
    for (size_t i = 0; i < n; i++)
    {
        Line l;
        const bool ring = kinds == 2 ? g.flip() : kinds == 1;
        if (allowEmpty && g.chance(1, 12))
        {
            l.closed = g.flip();
        }
        else if (ring)
        {
            l.pts = genSimpleRing(g, pt(), g.range((coord_t)200, R / 2));
            l.closed = true;
        }
        else
        {
            l.closed = false;
            const size_t k = g.chance(1, 10) ? 1 : (size_t)g.range((int64_t)2, (int64_t)5);
            l.pts.push_back(i && g.chance(1, 3) && ! lines.back().pts.empty() ? lines.back().pts.back() : pt());
            for (size_t j = 1; j < k; j++)
                l.pts.push_back(pt());
            if (k >= 3 && g.chance(1, 4))
                l.pts.back() = l.pts[0] + Point2LL(g.range((coord_t)-12, (coord_t)12), g.range((coord_t)-12, (coord_t)12));
        }
        lines.push_back(l);
    }
    return lines;
}

struct Paths
{
    std::vector<Polygon> rings;
    std::vector<OpenPolyline> open;
    std::vector<const Polyline*> at;
    Paths(const std::vector<Line>& ls)
    {
        rings.reserve(ls.size());
        open.reserve(ls.size());
        for (const Line& l : ls)
        {
            if (l.closed)
            {
                rings.push_back(toPolygon(l.pts));
                at.push_back(&rings.back());
            }
            else
            {
                open.emplace_back();
                for (const Point2LL& p : l.pts)
                    open.back().push_back(p);
                at.push_back(&open.back());
            }
        }
    }
};

static ld lineLength(const Line& l)
{
    ld s = 0;
    for (size_t i = 0; i + 1 < l.pts.size(); i++)
        s += dist(l.pts[i], l.pts[i + 1]);
    if (l.closed && l.pts.size() > 1)
        s += dist(l.pts.back(), l.pts[0]);
    return s;
}

static std::string describe(const std::vector<Line>& ls)
{
    std::string s;
    for (const Line& l : ls)
        s += (l.closed ? "ring" : "line") + strPts(l.pts) + " ";
    return s;
}

// ---------------------------------------------------------------------------------------------- the nearest next
static void order(Case& c)
{
    Gen& g = c.g;
    const coord_t R = g.oneof<coord_t>({ 10000, 3000, 100000 });
    const auto lines = genLines(g, (size_t)g.range((int64_t)0, (int64_t)10), R, true);
    Paths P(lines);
    const Point2LL from(g.range(-R, R), g.range(-R, R));
    const bool loops = g.flip(), reverse = g.chance(1, 4), longest = g.chance(1, 5);
    const EZSeamType type = g.oneof<EZSeamType>({ EZSeamType::SHORTEST, EZSeamType::SHORTEST, EZSeamType::USER_SPECIFIED, EZSeamType::RANDOM, EZSeamType::SHARPEST_CORNER });
    const Point2LL pos(g.range(-R, R), g.range(-R, R));
    Shape comb;
    if (g.chance(1, 4))
        comb = genArea(g, R, 2, 2);
    c.note("from %s loops=%d reverse=%d longest=%d seam=%d at %s boundary %s %s", str(from).c_str(), loops, reverse, longest, (int)type, str(pos).c_str(), strShape(comb).c_str(), describe(lines).c_str());
    PathOrderOptimizer<const Polyline*> o(from, ZSeamConfig(type, pos), loops, &comb, reverse, PathOrderOptimizer<const Polyline*>::no_order_requirements_, false, {}, false, Shape(), nullptr, longest);
    for (size_t i = 0; i < lines.size(); i++)
        if (lines[i].closed)
            o.addPolygon(P.at[i]);
        else
            o.addPolyline(P.at[i]);
    o.optimize(g.flip());
    PBT_CHECK(o.paths_.size() == lines.size(), "%zu of %zu paths are ordered", o.paths_.size(), lines.size());
    std::vector<size_t> seq;
    std::set<size_t> left;
    for (size_t i = 0; i < lines.size(); i++)
        left.insert(i);
    for (const auto& p : o.paths_)
    {
        const size_t i = std::find(P.at.begin(), P.at.end(), p.vertices_) - P.at.begin();
        PBT_CHECK(i < lines.size() && std::find(seq.begin(), seq.end(), i) == seq.end(), "path %zu is ordered twice", i);
        seq.push_back(i);
        const Line& l = lines[i];
        const bool closed = l.closed || (loops && ! l.pts.empty() && dist(l.pts.front(), l.pts.back()) < 10);
        PBT_CHECK(p.is_closed_ == closed, "path %zu is %s", i, p.is_closed_ ? "closed" : "open");
        if (l.pts.empty())
            continue;
        PBT_CHECK(p.start_vertex_ < l.pts.size(), "path %zu starts at vertex %zu of %zu", i, p.start_vertex_, l.pts.size());
        if (! closed)
        {
            PBT_CHECK(p.start_vertex_ == 0 || p.start_vertex_ == l.pts.size() - 1, "line %zu starts at vertex %zu of %zu", i, p.start_vertex_, l.pts.size());
            if (l.pts.size() > 1)
                PBT_CHECK(p.backwards_ == (p.start_vertex_ != 0), "line %zu starts at vertex %zu and goes %s", i, p.start_vertex_, p.backwards_ ? "backwards" : "forwards");
        }
        else
        {
            PBT_CHECK(p.backwards_ == reverse, "ring %zu goes %s", i, p.backwards_ ? "backwards" : "forwards");
        }
    }
    if (reverse)
        std::reverse(seq.begin(), seq.end());
    Point2LL at = from;
    for (size_t k = 0; k < seq.size(); k++)
    {
        const Line& l = lines[seq[k]];
        const auto& p = o.paths_[reverse ? seq.size() - 1 - k : k];
        left.erase(seq[k]);
        if (l.pts.empty())
        {
            for (size_t i : left)
                PBT_CHECK(lines[i].pts.empty() || (k == 0 && longest && lineLength(lines[i]) < 2), "an empty path comes before path %zu", i);
            continue;
        }
        const size_t start = reverse && ! p.is_closed_ ? l.pts.size() - 1 - p.start_vertex_ : p.start_vertex_;
        if (k == 0 && longest)
        {
            // the longest is first wherever it is
            for (size_t i : left)
                if (! lines[i].pts.empty() && (lines.size() < 2 || true))
                {
                    bool near = false; // paths that start where the nozzle is go first
                    for (size_t j = 0; j < lines.size(); j++)
                        for (const Point2LL& q : lines[j].pts)
                            near |= dist(q, from) < 40;
                    if (! near)
                        PBT_CHECK(lineLength(l) > lineLength(lines[i]) - 2 - 2 * lines[i].pts.size(), "path %zu comes first, %zu is longer", seq[k], i);
                }
        }
        else if (type == EZSeamType::SHORTEST && comb.empty())
        {
            const ld d = dist(at, l.pts[start]);
            const auto starts = [&](size_t i, const auto& f)
            {
                const Line& m = lines[i];
                const bool closed = m.closed || (loops && dist(m.pts.front(), m.pts.back()) < 10);
                if (closed)
                    for (const Point2LL& q : m.pts)
                        f(q);
                else
                    f(m.pts.front()), f(m.pts.back());
            };
            starts(seq[k], [&](const Point2LL& q) { PBT_CHECK(d <= dist(at, q) + 0.01, "path %zu starts at %s, %.2Lf from %s, not at %s, %.2Lf from it", seq[k], str(l.pts[start]).c_str(), d, str(at).c_str(), str(q).c_str(), dist(at, q)); });
            for (size_t i : left)
                if (! lines[i].pts.empty())
                    starts(i, [&](const Point2LL& q) { PBT_CHECK(d <= dist(at, q) + 45, "path %zu, %.1Lf from %s, comes before path %zu, which starts %.1Lf from it", seq[k], d, str(at).c_str(), i, dist(at, q)); });
            if (left.size() > 1)
                c.nontrivial();
        }
        else if (left.size() > 1)
            c.nontrivial();
        at = p.is_closed_ ? l.pts[start] : l.pts[l.pts.size() - 1 - start];
    }
    c.label(type == EZSeamType::SHORTEST ? "shortest" : "other");
}

// ---------------------------------------------------------------------------------------------- one before the other
static void before(Case& c)
{
    Gen& g = c.g;
    const coord_t R = 20000;
    const size_t n = (size_t)g.range((int64_t)1, (int64_t)14);
    auto lines = genLines(g, n, R, false);
    Paths P(lines);
    const Point2LL from(g.range(-R, R), g.range(-R, R));
    const bool reverse = g.flip(), group = g.flip();
    // walls around each other: every one has at most one around it
    std::unordered_multimap<const Polyline*, const Polyline*> need;
    std::vector<std::pair<size_t, size_t>> pairs;
    std::vector<size_t> depth(n, 0);
    const bool layered = g.chance(1, 3); // or all of one inset before all of the next
    std::vector<size_t> inset(n);
    for (size_t i = 0; i < n; i++)
        inset[i] = (size_t)g.range((int64_t)0, (int64_t)3);
    for (size_t i = 1; i < n; i++)
    {
        if (layered)
        {
            for (size_t j = 0; j < n; j++)
                if (inset[j] + 1 == inset[i])
                    pairs.push_back(reverse ? std::pair(i, j) : std::pair(j, i));
        }
        else if (g.chance(3, 4))
        {
            const size_t j = (size_t)g.range((int64_t)0, (int64_t)i - 1);
            pairs.push_back(reverse ? std::pair(i, j) : std::pair(j, i));
        }
    }
    for (auto [a, b] : pairs)
        need.emplace(P.at[a], P.at[b]);
    const EZSeamType type = g.oneof<EZSeamType>({ EZSeamType::SHORTEST, EZSeamType::USER_SPECIFIED, EZSeamType::RANDOM, EZSeamType::SHARPEST_CORNER });
    const bool inner = g.flip();
    std::string s;
    for (auto [a, b] : pairs)
        s += pbt::strf("%zu<%zu ", a, b);
    c.note("from %s reverse=%d group=%d seam=%d inner=%d %s%s", str(from).c_str(), reverse, group, (int)type, inner, s.c_str(), describe(lines).c_str());
    PathOrderOptimizer<const Polyline*> o(from, ZSeamConfig(type, Point2LL(g.range(-R, R), g.range(-R, R))), false, nullptr, reverse, need, group, {}, inner);
    for (size_t i = 0; i < n; i++)
        if (lines[i].closed)
            o.addPolygon(P.at[i], std::nullopt, inset[i] == 0);
        else
            o.addPolyline(P.at[i]);
    o.optimize();
    std::vector<size_t> when(n, n);
    PBT_CHECK(o.paths_.size() == n, "%zu of %zu paths are ordered", o.paths_.size(), n);
    for (size_t k = 0; k < n; k++)
    {
        const auto& p = o.paths_[k];
        const size_t i = std::find(P.at.begin(), P.at.end(), p.vertices_) - P.at.begin();
        PBT_CHECK(i < n && when[i] == n, "path %zu is ordered twice", i);
        when[i] = k;
        PBT_CHECK(p.start_vertex_ < lines[i].pts.size() && (lines[i].closed || p.start_vertex_ == 0 || p.start_vertex_ + 1 == lines[i].pts.size()), "path %zu starts at vertex %zu", i, p.start_vertex_);
        if (! lines[i].closed && lines[i].pts.size() > 1 && ! pairs.empty())
            PBT_CHECK(p.backwards_ == (p.start_vertex_ != 0), "line %zu starts at vertex %zu and goes %s", i, p.start_vertex_, p.backwards_ ? "backwards" : "forwards");
    }
    for (auto [a, b] : pairs)
        PBT_CHECK(when[a] < when[b], "path %zu is printed before path %zu", b, a);
    if (group && ! pairs.empty())
    {
        // the outermost, which nothing is around, go first, or last
        std::vector<bool> outer(n, true);
        for (auto [a, b] : pairs)
            outer[reverse ? a : b] = false;
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                if (outer[i] && ! outer[j])
                    PBT_CHECK(reverse ? when[i] > when[j] : when[i] < when[j], "wall %zu, which has none around, is printed %s wall %zu", i, reverse ? "before" : "after", j);
    }
    if (pairs.size() > 2)
        c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- where a ring starts
static ld corner(const std::vector<Point2LL>& p, size_t i)
{
    ld total = 0;
    const size_t n = p.size();
    for (size_t k = 0; k < n; k++)
        total += dist(p[k], p[(k + 1) % n]);
    const ld far = std::min<ld>(1000, total / 2);
    const auto along = [&](int dir, ld& x, ld& y)
    {
        ld left = far;
        size_t k = i;
        while (true)
        {
            const size_t m = (k + (dir > 0 ? 1 : n - 1)) % n;
            const ld d = dist(p[k], p[m]);
            if (d >= left)
            {
                const ld t = d > 0 ? left / d : 0;
                x = p[k].X + (p[m].X - p[k].X) * t;
                y = p[k].Y + (p[m].Y - p[k].Y) * t;
                return;
            }
            left -= d;
            k = m;
        }
    };
    ld ax, ay, bx, by;
    along(-1, ax, ay);
    along(1, bx, by);
    ax -= p[i].X, ay -= p[i].Y, bx -= p[i].X, by -= p[i].Y;
    // the turn at the corner: walls go clockwise around an island, so 1 is a spike pointing out of one and -1 one pointing in
    const ld turn = -std::atan2(-ax * by + ay * bx, -ax * bx - ay * by);
    return turn / std::numbers::pi_v<ld>;
}

static void seam(Case& c)
{
    Gen& g = c.g;
    const coord_t R = g.oneof<coord_t>({ 10000, 2000, 50000 });
    std::vector<Point2LL> p = genSimpleRing(g, genPoint(g, R), R);
    std::vector<Point2LL> q;
    for (const Point2LL& x : p)
        if (q.empty() || dist(q.back(), x) > 0)
            q.push_back(x);
    while (q.size() > 1 && dist(q.back(), q[0]) == 0)
        q.pop_back();
    p = q;
    if (p.size() < 3)
        c.discard();
    if (g.chance(1, 3)) // rounded corners
    {
        std::vector<Point2LL> r;
        for (size_t i = 0; i < p.size(); i++)
        {
            const Point2LL &a = p[(i + p.size() - 1) % p.size()], &b = p[i], &d = p[(i + 1) % p.size()];
            const coord_t w = g.range((coord_t)20, (coord_t)800);
            const ld u = std::min<ld>(0.4, w / std::max<ld>(1, dist(a, b))), v = std::min<ld>(0.4, w / std::max<ld>(1, dist(b, d)));
            r.emplace_back(b.X + (a.X - b.X) * u, b.Y + (a.Y - b.Y) * u);
            if (g.flip())
                r.push_back(b + Point2LL((a.X - b.X) * u + (d.X - b.X) * v, (a.Y - b.Y) * u + (d.Y - b.Y) * v) / 4);
            r.emplace_back(b.X + (d.X - b.X) * v, b.Y + (d.Y - b.Y) * v);
        }
        p = r;
    }
    const EZSeamType type = g.oneof<EZSeamType>({ EZSeamType::SHORTEST, EZSeamType::USER_SPECIFIED, EZSeamType::SHARPEST_CORNER, EZSeamType::SHARPEST_CORNER, EZSeamType::RANDOM });
    using Pref = EZSeamCornerPrefType;
    const Pref pref = g.oneof<Pref>({ Pref::Z_SEAM_CORNER_PREF_INNER, Pref::Z_SEAM_CORNER_PREF_OUTER, Pref::Z_SEAM_CORNER_PREF_ANY, Pref::Z_SEAM_CORNER_PREF_WEIGHTED });
    const Point2LL from = genPoint(g, 2 * R), pos = genPoint(g, 2 * R);
    Shape avoid, never;
    if (g.chance(1, 3))
        avoid = genArea(g, R, 2, 1);
    if (g.chance(1, 4))
        never = genArea(g, R, 2, 1);
    std::optional<size_t> force;
    if (g.chance(1, 8))
        force = (size_t)g.range((int64_t)0, (int64_t)p.size() - 1);
    c.note("seam=%d pref=%d from %s pos %s avoid %s never %s force=%d %s", (int)type, (int)pref, str(from).c_str(), str(pos).c_str(), strShape(avoid).c_str(), strShape(never).c_str(), force ? (int)*force : -1, strPts(p).c_str());
    const auto run = [&](const std::vector<Point2LL>& pts, std::optional<size_t> f)
    {
        Polygon ring = toPolygon(pts);
        PathOrderOptimizer<const Polyline*> o(from, ZSeamConfig(type, pos, pref), false, nullptr, false, PathOrderOptimizer<const Polyline*>::no_order_requirements_, false, never, false, avoid);
        o.addPolygon(&ring, f);
        o.optimize();
        PBT_CHECK(o.paths_.size() == 1 && o.paths_[0].start_vertex_ < pts.size(), "no start");
        return o.paths_[0].start_vertex_;
    };
    const auto in = [&](const Shape& s, const Point2LL& x)
    {
        const int e = evenOdd(s, x);
        return e != 0; // the border counts as in
    };
    const size_t n = p.size();
    std::vector<ld> score(n), back(n), right(n);
    Box box;
    coord_t maxx = p[0].X, maxy = p[0].Y;
    for (const Point2LL& x : p)
        maxx = std::max(maxx, x.X), maxy = std::max(maxy, x.Y);
    bool corners = false;
    for (size_t i = 0; i < n; i++)
    {
        if (force)
            score[i] = 1 / (1 + dist(p[i], p[*force]) / 1000);
        else if (type == EZSeamType::SHARPEST_CORNER)
        {
            const ld a = corner(p, i);
            score[i] = pref == Pref::Z_SEAM_CORNER_PREF_INNER ? (1 - a) / 2 : pref == Pref::Z_SEAM_CORNER_PREF_OUTER ? (1 + a) / 2 : pref == Pref::Z_SEAM_CORNER_PREF_ANY ? std::abs(a) : a < 0 ? -a : a / 2;
            corners = true;
        }
        else if (type != EZSeamType::RANDOM)
            score[i] = 1 / (1 + dist(p[i], type == EZSeamType::SHORTEST ? from : pos) / 20000);
        if (! avoid.empty() && ! in(avoid, p[i]))
            score[i] += 2;
        back[i] = 1 / (1 + (maxy - p[i].Y) / (ld)20000);
        right[i] = 1 / (1 + (maxx - p[i].X) / (ld)20000);
    }
    const auto judge = [&](const std::vector<Point2LL>& pts, size_t shift, std::optional<size_t> f)
    {
        const size_t s = (run(pts, f) + shift) % n;
        if (! never.empty())
        {
            bool can = false;
            for (const Point2LL& x : p)
                can |= ! in(never, x);
            if (can)
            {
                PBT_CHECK(! in(never, p[s]), "starts at %s in the disallowed area", str(p[s]).c_str());
                bool moved = false;
                for (size_t i = 0; i < n; i++)
                    moved |= in(never, p[i]);
                if (moved)
                    return s; // the best one may have been in there
            }
        }
        if (type == EZSeamType::RANDOM && ! force)
        {
            bool can = false;
            for (size_t i = 0; i < n; i++)
                can |= score[i] > 1;
            PBT_CHECK(! can || score[s] > 1, "starts at %s in the area to avoid", str(p[s]).c_str());
            return s;
        }
        ld around = 0;
        for (size_t i = 0; i < n; i++)
            around += dist(p[i], p[(i + 1) % n]);
        for (size_t i = 0; corners && ! force && i < n; i++)
            if (around < 2100 || std::abs(corner(p, i)) > 0.98)
                return s; // going 1 mm both ways meets: a spike, as well in as out
        const ld eps = corners && ! force ? 0.004 : 1e-6;
        const bool fallback = type == EZSeamType::SHARPEST_CORNER;
        const ld best = *std::max_element(score.begin(), score.end());
        PBT_CHECK(score[s] >= best - (fallback ? 0.05 : 0) - eps, "starts at %s, whose score is %.4Lf; the best is %.4Lf", str(p[s]).c_str(), score[s], best);
        if (! fallback)
            return s;
        ld far = 0, farAny = 0;
        for (size_t i = 0; i < n; i++)
        {
            if (score[i] >= best - 0.05 + eps)
                far = std::max(far, back[i]);
            if (score[i] >= best - 0.05 - eps)
                farAny = std::max(farAny, back[i]);
        }
        PBT_CHECK(back[s] >= far - 0.01 - 1e-9, "starts at %s, not as far back as another corner", str(p[s]).c_str());
        for (size_t i = 0; i < n; i++)
            if (score[i] >= best - 0.05 + eps && back[i] >= farAny - 0.01 + 1e-9)
                PBT_CHECK(right[s] >= right[i] - 1e-9, "starts at %s, not as far right as %s", str(p[s]).c_str(), str(p[i]).c_str());
        c.label("corner");
        return s;
    };
    judge(p, 0, force);
    const size_t shift = (size_t)g.range((int64_t)0, (int64_t)n - 1);
    std::vector<Point2LL> turned(p);
    std::rotate(turned.begin(), turned.begin() + shift, turned.end());
    judge(turned, shift, force ? std::optional<size_t>((*force + n - shift) % n) : std::nullopt);
    if (n > 4)
        c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- monotonic
static void monotonic(Case& c)
{
    Gen& g = c.g;
    const ld ang = g.flip() ? g.range((int64_t)0, (int64_t)7) * std::numbers::pi_v<ld> / 4 : g.real(0, 6.28);
    const coord_t gap = g.range((coord_t)200, (coord_t)1200);
    const bool interlaced = g.chance(1, 3);
    const ld ux = -std::cos(ang), uy = std::sin(ang), vx = -uy, vy = ux; // along the order, along the lines
    struct Seg
    {
        ld row, a, b;
        std::vector<Point2LL> pts;
    };
    std::vector<Seg> segs;
    const size_t rows = (size_t)g.range((int64_t)1, (int64_t)12);
    const coord_t L = g.range((coord_t)2000, (coord_t)20000);
    for (size_t r = 0; r < rows; r++)
    {
        ld x = -L + g.range((coord_t)0, L);
        const size_t k = (size_t)g.range((int64_t)0, (int64_t)3);
        for (size_t i = 0; i < k; i++)
        {
            const ld len = g.range((coord_t)300, L);
            Seg s{ (ld)r * gap, x, x + len, {} };
            const auto at = [&](ld t) { return Point2LL(std::llroundl(ux * s.row + vx * t), std::llroundl(uy * s.row + vy * t)); };
            s.pts = { at(s.a), at(s.b) };
            if (g.chance(1, 4))
                s.pts.insert(s.pts.begin() + 1, at(s.a + len * g.real(0.2, 0.8)));
            if (g.flip())
                std::reverse(s.pts.begin(), s.pts.end());
            segs.push_back(s);
            x += len + g.range((coord_t)30, L);
        }
    }
    for (size_t i = segs.size(); i > 1; i--)
        std::swap(segs[i - 1], segs[(size_t)g.range((int64_t)0, (int64_t)i - 1)]);
    std::vector<Line> lines;
    for (const Seg& s : segs)
        lines.push_back({ s.pts, false });
    const size_t nrings = g.chance(1, 4) ? (size_t)g.range((int64_t)1, (int64_t)3) : 0;
    for (size_t i = 0; i < nrings; i++)
        lines.push_back({ genSimpleRing(g, genPoint(g, L), L), true });
    const coord_t near = gap + g.range((coord_t)10, gap / 3);
    const Point2LL from = genPoint(g, 2 * L);
    c.note("angle=%.4Lf gap=%lld near=%lld interlaced=%d from %s %s", ang, (long long)gap, (long long)near, interlaced, str(from).c_str(), describe(lines).c_str());
    Paths P(lines);
    PathOrderMonotonic<const Polyline*> o(AngleRadians((double)ang), near, from, interlaced);
    for (size_t i = 0; i < lines.size(); i++)
        if (lines[i].closed)
            o.addPolygon(P.at[i]);
        else
            o.addPolyline(P.at[i]);
    o.optimize();
    PBT_CHECK(o.paths_.size() == lines.size(), "%zu of %zu paths are ordered", o.paths_.size(), lines.size());
    std::vector<size_t> when(lines.size(), lines.size());
    for (size_t k = 0; k < o.paths_.size(); k++)
    {
        const auto& p = o.paths_[k];
        const size_t i = std::find(P.at.begin(), P.at.end(), p.vertices_) - P.at.begin();
        PBT_CHECK(i < lines.size() && when[i] == lines.size(), "path %zu is ordered twice", i);
        when[i] = k;
        PBT_CHECK(p.is_closed_ == lines[i].closed && p.start_vertex_ < lines[i].pts.size(), "path %zu starts at vertex %zu", i, p.start_vertex_);
        if (! lines[i].closed)
            PBT_CHECK((p.start_vertex_ == 0 && ! p.backwards_) || (p.start_vertex_ + 1 == lines[i].pts.size() && p.backwards_), "line %zu starts at vertex %zu and goes %s", i, p.start_vertex_, p.backwards_ ? "backwards" : "forwards");
    }
    bool some = false;
    // every second of the rows that have lines goes first
    const auto row = [&](const Seg& s) { return std::lround((double)(s.row / gap)); };
    std::map<long, int> pass;
    {
        std::set<long> used;
        for (const Seg& s : segs)
            used.insert(row(s));
        int k = 0;
        for (long r : used)
            pass[r] = k++ % 2;
    }
    for (size_t i = 0; i < segs.size(); i++)
        for (size_t j = 0; j < segs.size(); j++)
        {
            const ld d = segs[j].row - segs[i].row;
            if (d < gap / 2 || segs[i].a > segs[j].b || segs[j].a > segs[i].b)
                continue;
            if (d > (interlaced ? 2 : 1) * near - 3)
                continue;
            if (interlaced && pass[row(segs[i])] != pass[row(segs[j])])
                continue;
            some = true;
            PBT_CHECK(when[i] < when[j], "line %zu lies after line %zu, but is printed before", j, i);
        }
    if (interlaced)
    {
        for (size_t i = 0; i < segs.size(); i++)
            for (size_t j = 0; j < segs.size(); j++)
                if (pass[row(segs[i])] == 1 && pass[row(segs[j])] == 0)
                    PBT_CHECK(when[i] < when[j], "line %zu, of a row in between, is printed after line %zu", i, j);
    }
    if (some)
        c.nontrivial();
    c.label(interlaced ? "interlaced" : "monotonic");
}

// ---------------------------------------------------------------------------------------------- walls around each other
static void walls(Case& c)
{
    Gen& g = c.g;
    const coord_t w = g.range((coord_t)200, (coord_t)600);
    struct Ring
    {
        int inset;
        std::vector<Point2LL> pts;
        int around; // the next wall around it, or -1
        int part;
    };
    std::vector<Ring> rings;
    // islands with holes in them, and islands in those holes: rectangles, each with some walls inwards (or outwards, for a hole)
    const auto rect = [](coord_t x0, coord_t y0, coord_t x1, coord_t y1, coord_t d) { return std::vector<Point2LL>{ { x0 + d, y0 + d }, { x1 - d, y0 + d }, { x1 - d, y1 - d }, { x0 + d, y1 - d } }; };
    const int n = (int)g.range((int64_t)1, (int64_t)3);
    const std::function<void(coord_t, coord_t, coord_t, coord_t, int, int)> island = [&](coord_t x0, coord_t y0, coord_t x1, coord_t y1, int around, int deep)
    {
        const int part = (int)rings.size();
        int last = around;
        for (int k = 0; k < n && x1 - x0 > 2 * w * (k + 1) && y1 - y0 > 2 * w * (k + 1); k++)
        {
            rings.push_back({ k, rect(x0, y0, x1, y1, k * w), last, part });
            last = (int)rings.size() - 1;
        }
        const coord_t in = n * w;
        if (deep >= 2 || ! g.chance(2, 3))
            return;
        const coord_t W = x1 - x0 - 2 * in, H = y1 - y0 - 2 * in;
        const int m = (int)g.range((int64_t)1, (int64_t)2);
        if (W < 40 * w * m || H < 40 * w)
            return;
        for (int h = 0; h < m; h++)
        {
            // a hole: walls from the outermost to the innermost, which is its border
            const coord_t a = x0 + in + W * h / m + w, b = x0 + in + W * (h + 1) / m - w, l = y0 + in + w, t = y1 - in - w;
            const int k = n;
            int around2 = last;
            const int border = (int)rings.size();
            for (int i = k - 1; i >= 0; i--)
            {
                rings.push_back({ i, rect(a, l, b, t, (k - 1 - i) * w), around2, border });
                std::reverse(rings.back().pts.begin(), rings.back().pts.end());
                around2 = (int)rings.size() - 1;
            }
            if (g.flip() && b - a > 20 * w)
                island(a + 2 * k * w, l + 2 * k * w, b - 2 * k * w, t - 2 * k * w, around2, deep + 1);
        }
    };
    const int islands = (int)g.range((int64_t)1, (int64_t)2);
    for (int i = 0; i < islands; i++)
        island(i * 60000, 0, i * 60000 + g.range((coord_t)3000, (coord_t)50000), g.range((coord_t)3000, (coord_t)50000), -1, 0);
    if (rings.empty())
        c.discard();
    const bool outin = g.flip();
    std::vector<size_t> idx(rings.size());
    for (size_t i = 0; i < idx.size(); i++)
        idx[i] = i;
    for (size_t i = idx.size(); i > 1; i--)
        std::swap(idx[i - 1], idx[(size_t)g.range((int64_t)0, (int64_t)i - 1)]);
    std::vector<ExtrusionLine> lines;
    std::string s;
    for (size_t i : idx)
    {
        ExtrusionLine l(rings[i].inset, false, true);
        const size_t turn = (size_t)g.range((int64_t)0, (int64_t)3);
        for (size_t k = 0; k <= 4; k++)
            l.junctions_.emplace_back(rings[i].pts[(k + turn) % 4], w, rings[i].inset);
        lines.push_back(l);
        s += pbt::strf("%zu: wall %d %s in %d; ", i, rings[i].inset, strPts(rings[i].pts).c_str(), rings[i].around);
    }
    c.note("outside in=%d %s", outin, s.c_str());
    const auto order = InsetOrderOptimizer::getRegionOrder(lines, outin);
    // which has to come before which, over any number of others
    const size_t N = lines.size();
    std::vector<std::vector<bool>> pre(N, std::vector<bool>(N, false));
    std::vector<size_t> at(N);
    for (size_t k = 0; k < N; k++)
        at[idx[k]] = k;
    for (const auto& [a, b] : order)
    {
        PBT_CHECK(a >= lines.data() && a < lines.data() + N && b >= lines.data() && b < lines.data() + N && a != b, "an order of other walls");
        pre[idx[a - lines.data()]][idx[b - lines.data()]] = true;
    }
    for (size_t k = 0; k < N; k++)
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < N; j++)
                if (pre[i][k] && pre[k][j])
                    pre[i][j] = true;
    for (size_t i = 0; i < N; i++)
        PBT_CHECK(! pre[i][i], "wall %zu has to be printed before itself", i);
    int inner = 0;
    for (size_t i = 0; i < N; i++)
    {
        // the walls of one border: each next to one which is nearer to the border
        if (rings[i].inset == 0)
            continue;
        for (size_t j = 0; j < N; j++)
        {
            const bool nested = rings[i].around == (int)j || rings[j].around == (int)i;
            if (rings[j].part != rings[i].part || rings[j].inset != rings[i].inset - 1 || ! nested)
                continue;
            inner++;
            if (outin)
                PBT_CHECK(pre[j][i], "nothing makes wall %zu come before wall %zu, which is farther from the border", j, i);
            else
                PBT_CHECK(pre[i][j], "nothing makes wall %zu come before wall %zu, which is nearer to the border", i, j);
        }
    }
    if (inner > 1)
        c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- the shortest tree
static void tree(Case& c)
{
    Gen& g = c.g;
    const size_t n = (size_t)g.range((int64_t)0, (int64_t)25);
    const coord_t R = g.oneof<coord_t>({ 10, 10000, 1000000 });
    std::set<std::pair<coord_t, coord_t>> have;
    std::vector<Point2LL> v;
    for (size_t i = 0; i < n; i++)
    {
        const Point2LL p = genPoint(g, R);
        if (have.insert({ p.X, p.Y }).second)
            v.push_back(p);
    }
    c.note("%s", strPts(v).c_str());
    const MinimumSpanningTree t(v);
    const auto all = t.vertices();
    PBT_CHECK(all.size() == v.size(), "%zu of %zu points", all.size(), v.size());
    std::map<std::pair<coord_t, coord_t>, size_t> id;
    for (size_t i = 0; i < v.size(); i++)
        id[{ v[i].X, v[i].Y }] = i;
    ld sum = 0;
    std::vector<size_t> root(v.size());
    for (size_t i = 0; i < v.size(); i++)
        root[i] = i;
    const std::function<size_t(size_t)> find = [&](size_t i) { return root[i] == i ? i : root[i] = find(root[i]); };
    size_t edges = 0;
    std::set<size_t> leaves;
    for (size_t i = 0; i < v.size(); i++)
    {
        const auto adj = t.adjacentNodes(v[i]);
        if (adj.size() <= 1)
            leaves.insert(i);
        for (const Point2LL& q : adj)
        {
            PBT_CHECK(id.count({ q.X, q.Y }), "%s is not a point", str(q).c_str());
            const auto back = t.adjacentNodes(q);
            PBT_CHECK(std::find(back.begin(), back.end(), v[i]) != back.end(), "%s is next to %s but not the other way round", str(q).c_str(), str(v[i]).c_str());
            if (id[{ q.X, q.Y }] > i)
            {
                sum += dist(v[i], q);
                edges++;
                const size_t a = find(i), b = find(id[{ q.X, q.Y }]);
                PBT_CHECK(a != b, "%s and %s are joined twice", str(v[i]).c_str(), str(q).c_str());
                root[a] = b;
            }
        }
    }
    PBT_CHECK(v.empty() ? edges == 0 : edges == v.size() - 1, "%zu edges join %zu points", edges, v.size());
    const auto ends = t.leaves();
    PBT_CHECK(ends.size() == leaves.size(), "%zu ends, not %zu", ends.size(), leaves.size());
    for (const Point2LL& q : ends)
        PBT_CHECK(leaves.count(id[{ q.X, q.Y }]), "%s is no end", str(q).c_str());
    // Kruskal
    std::vector<std::tuple<ld, size_t, size_t>> e;
    for (size_t i = 0; i < v.size(); i++)
    {
        root[i] = i;
        for (size_t j = 0; j < i; j++)
            e.emplace_back(dist(v[i], v[j]), i, j);
    }
    std::sort(e.begin(), e.end());
    ld best = 0;
    for (auto [d, i, j] : e)
        if (find(i) != find(j))
        {
            root[find(i)] = find(j);
            best += d;
        }
    PBT_CHECK(std::abs(best - sum) < 1e-3 + best * 1e-9, "the tree is %.3Lf long, the shortest one %.3Lf", sum, best);
    if (v.size() > 3)
        c.nontrivial();
}

// ---------------------------------------------------------------------------------------------- whole prints
struct Loop
{
    bool outer = false, infill = false, other = false;
    std::vector<eng::V2> pts;
    int part = -1, when = 0, no = 0;
    bool closed() const
    {
        return pts.size() > 3 && std::hypot(pts.front().x - pts.back().x, pts.front().y - pts.back().y) < 0.01;
    }
    double area() const
    {
        double a = 0;
        for (size_t i = 0; i + 1 < pts.size(); i++)
            a += pts[i].x * pts[i + 1].y - pts[i].y * pts[i + 1].x;
        return a / 2;
    }
};

static std::map<int, std::vector<Loop>> loopsOf(const eng::GCode& gc)
{
    std::map<int, std::vector<Loop>> out;
    bool going = false;
    std::string last;
    for (const eng::Ev& v : gc.ev)
    {
        if (v.kind == eng::Ev::LAYER)
            going = false;
        if (v.kind != eng::Ev::MOVE || ! (v.has_x || v.has_y))
            continue;
        if (! v.extrudes())
        {
            going = going && v.len() < 1e-6;
            continue;
        }
        auto& ls = out[v.layer];
        if (! going || v.type != last)
        {
            Loop l;
            l.outer = v.type == "WALL-OUTER";
            l.infill = v.type == "FILL";
            l.other = ! l.outer && ! l.infill && v.type != "WALL-INNER";
            l.when = (int)ls.size();
            l.no = v.no;
            l.pts.push_back({ v.x0, v.y0 });
            ls.push_back(l);
        }
        going = true;
        last = v.type;
        ls.back().pts.push_back({ v.x, v.y });
    }
    return out;
}

static void print(Case& c)
{
    using eng::num;
    Gen& g = c.g;
    eng::Job j = eng::plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset", "wall_0_wipe_dist", "infill_wipe_dist", "top_layers", "bottom_layers", "initial_bottom_layers", "scarf_joint_seam_length", "coasting_volume" })
        j.set(k, "0");
    j.set("meshfix_fluid_motion_enabled", "False");
    j.set("coasting_enable", "False");
    const int walls = (int)g.range((int64_t)1, (int64_t)4), layers = (int)g.range((int64_t)2, (int64_t)4);
    j.set("wall_line_count", num(walls));
    const bool fill = g.flip(), first = g.flip();
    j.set("infill_line_distance", fill ? num(g.range((int64_t)1, (int64_t)3)) : "0");
    j.set("infill_pattern", "lines");
    j.set("infill_before_walls", first ? "True" : "False");
    const auto dir = [&] { return g.flip() ? "outside_in" : "inside_out"; };
    const std::string in0 = dir(), inx = dir();
    j.set("initial_layer_inset_direction", in0);
    j.set("inset_direction", inx);
    const bool best = g.flip(), group = g.flip(), alternate = g.chance(1, 3), onVertex = g.flip(), relative = g.flip();
    j.set("optimize_wall_printing_order", best ? "True" : "False");
    j.set("group_outer_walls", group ? "True" : "False");
    j.set("material_alternate_walls", alternate ? "True" : "False");
    j.set("z_seam_on_vertex", onVertex ? "True" : "False");
    j.set("z_seam_relative", relative ? "True" : "False");
    const std::string seam = g.oneof<std::string>({ "back", "back", "sharpest_corner", "sharpest_corner", "shortest", "random" });
    j.set("z_seam_type", seam);
    const std::string pref = g.oneof<std::string>({ "z_seam_corner_inner", "z_seam_corner_outer", "z_seam_corner_any", "z_seam_corner_weighted" });
    j.set("z_seam_corner", pref);
    const double sx = g.range((int64_t)-40, (int64_t)40), sy = g.range((int64_t)-40, (int64_t)40);
    j.set("z_seam_x", num(sx));
    j.set("z_seam_y", num(sy));
    // parts of one or several models
    const int n = (int)g.range((int64_t)1, (int64_t)3);
    const bool apart = g.flip();
    std::vector<std::vector<Point2LL>> rings, holes;
    std::string what;
    eng::Mesh all;
    std::vector<eng::Mesh> meshes;
    for (int i = 0; i < n; i++)
    {
        const Point2LL at(i * 22000 - 22000, g.range((coord_t)-5000, (coord_t)5000));
        auto r = genStar(g, at, 5000, 9500, 4, 9);
        if (ringArea(r) < 0)
            reversed(r);
        eng::Mesh m;
        m.loft({ r, r }, { 0, 200 * layers });
        what += "part " + strPts(r);
        std::vector<Point2LL> h;
        if (g.chance(1, 3))
        {
            h = genStar(g, at, 600, 1500, 3, 6);
            if (ringArea(h) > 0)
                reversed(h);
            m.loft({ h, h }, { 0, 200 * layers });
            what += " with hole " + strPts(h);
        }
        rings.push_back(r);
        holes.push_back(h);
        meshes.push_back(m);
        all.add(m);
    }
    if (apart)
        for (auto& m : meshes)
        {
            eng::Model M;
            M.file = m.stl();
            j.groups[0].push_back(M);
        }
    else
    {
        eng::Model M;
        M.file = all.stl();
        j.groups[0].push_back(M);
    }
    static const eng::Job plain = eng::plainJob();
    c.note("%s", (what + (apart ? "; apart " : "; ") + eng::describe(j, plain)).c_str());
    const eng::Result res = eng::slice(j, 60);
    PBT_CHECK(res.ok(), "the engine ended with status %d", res.status);
    eng::GCode gc(res.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    auto all_loops = loopsOf(gc);
    PBT_CHECK((int)all_loops.size() == layers, "%zu layers are printed, not %d", all_loops.size(), layers);
    // middle of a model
    const auto middle = [&](int i)
    {
        coord_t x0 = 1e9, x1 = -1e9, y0 = 1e9, y1 = -1e9;
        for (int k = 0; k < n; k++)
            if (k == i || ! apart)
                for (const Point2LL& p : rings[k])
                    x0 = std::min(x0, p.X), x1 = std::max(x1, p.X), y0 = std::min(y0, p.Y), y1 = std::max(y1, p.Y);
        return eng::V2{ (x0 + x1) / 2000.0, (y0 + y1) / 2000.0 };
    };
    std::map<int, int> turn;
    int seen = 0;
    for (auto& [layer, loops] : all_loops)
    {
        for (Loop& l : loops)
        {
            for (int i = 0; i < n; i++)
            {
                bool b = false;
                if (winding(rings[i], Point2LL(std::llround(l.pts[0].x * 1000), std::llround(l.pts[0].y * 1000)), b) || b)
                    l.part = i;
            }
            PBT_CHECK(l.part >= 0, "line %d: prints outside of all parts", l.no);
        }
        const bool outin = (layer == 0 ? in0 : inx) == "outside_in";
        for (int i = 0; i < n; i++)
        {
            std::vector<const Loop*> outer, inner, infill;
            for (const Loop& l : loops)
                if (l.part == i)
                    (l.outer ? outer : l.infill ? infill : inner).push_back(&l);
            const size_t want = holes[i].empty() ? 1 : 2;
            std::vector<const Loop*> rim;
            for (const Loop* l : outer)
                if (l->closed())
                    rim.push_back(l);
            if (rim.size() != want || outer.size() != want)
                continue; // thin places, or the hole too near to the border
            // all of a part at once
            for (const Loop& l : loops)
            {
                int lo = 1 << 30, hi = -1;
                for (const Loop& m : loops)
                    if (m.part == i)
                        lo = std::min(lo, m.when), hi = std::max(hi, m.when);
                PBT_CHECK(l.part == i || l.when < lo || l.when > hi || (holes.empty()), "layer %d line %d: part %d is printed while part %d is not finished", layer, l.no, l.part, i);
            }
            // infill before or after the walls
            if (walls > 0)
                for (const Loop* f : infill)
                    for (const auto* ls : { &outer, &inner })
                        for (const Loop* w : *ls)
                            PBT_CHECK(first ? f->when < w->when : f->when > w->when, "layer %d: the infill in line %d comes %s the wall in line %d", layer, f->no, first ? "after" : "before", w->no);
            // outer walls before or after the inner ones
            size_t closed = 0;
            for (const Loop* w : inner)
                closed += w->closed();
            if (closed == inner.size() && inner.size() == want * (walls - 1))
            {
                seen++;
                for (const Loop* w : inner)
                {
                    if (want == 1 || ! best || group)
                        for (const Loop* o : outer)
                        {
                            PBT_CHECK(outin ? o->when < w->when : o->when > w->when, "layer %d: the inner wall in line %d comes %s the outer one in line %d", layer, w->no, outin ? "before" : "after", o->no);
                        }
                }
                if (want == 1)
                {
                    // from one wall to the next
                    std::vector<const Loop*> in(inner);
                    std::sort(in.begin(), in.end(), [](const Loop* a, const Loop* b) { return a->when < b->when; });
                    for (size_t k = 0; k + 1 < in.size(); k++)
                        PBT_CHECK(outin == (std::abs(in[k]->area()) > std::abs(in[k + 1]->area())), "layer %d: the walls of part %d are not printed one after the other %s", layer, i, outin ? "inwards" : "outwards");
                    // directions: the same for all walls in all layers, or alternating
                    for (const Loop* w : outer)
                        in.insert(outin ? in.begin() : in.end(), w);
                    if (! outin)
                        std::reverse(in.begin(), in.end());
                    for (size_t k = 0; k < in.size(); k++)
                    {
                        const int d = (in[k]->area() > 0 ? 1 : -1) * (alternate && (k + layer) % 2 ? -1 : 1);
                        if (! turn.count(layer == 0))
                            turn[layer == 0] = d;
                        PBT_CHECK(turn[layer == 0] == d, "layer %d: wall %zu of part %d, in line %d, goes the wrong way round", layer, k, i, in[k]->no);
                    }
                }
            }
            // the seam of the outer walls
            for (const Loop* o : outer)
            {
                const std::vector<eng::V2> v(o->pts.begin(), o->pts.end() - 1);
                const eng::V2 s = v[0];
                if (seam == "back")
                {
                    const eng::V2 m = middle(i);
                    const eng::V2 at{ sx + (relative ? m.x : 0), sy + (relative ? m.y : 0) };
                    if (onVertex)
                    {
                        for (const eng::V2& p : v)
                            PBT_CHECK(std::hypot(s.x - at.x, s.y - at.y) <= std::hypot(p.x - at.x, p.y - at.y) + 0.004, "layer %d: the wall in line %d starts at (%.3f, %.3f), not at (%.3f, %.3f), which is nearer to (%.3f, %.3f)", layer, o->no, s.x, s.y, p.x, p.y, at.x, at.y);
                    }
                    else if (std::hypot(at.x - m.x, at.y - m.y) > 1)
                    {
                        // where the ray from the middle of the model leaves the wall
                        double far = -1, margin = 1e9;
                        const double dx = (at.x - m.x) * 10, dy = (at.y - m.y) * 10;
                        for (size_t k = 0; k < v.size(); k++)
                        {
                            const eng::V2 &a = v[k], &b = v[(k + 1) % v.size()];
                            const double ex = b.x - a.x, ey = b.y - a.y, den = dx * ey - dy * ex;
                            const double ax = a.x - m.x, ay = a.y - m.y;
                            margin = std::min(margin, eng::segDist({ m.x, m.y }, a, b));
                            if (std::abs(den) < 1e-9)
                                continue;
                            const double t = (ax * ey - ay * ex) / den, u = (ax * dy - ay * dx) / den;
                            if (t >= 0 && t <= 1 && u >= -1e-9 && u <= 1 + 1e-9)
                                far = std::max(far, t);
                            // a ray that just misses or just hits a corner is not judged
                            if (t > 0 && t < 1 && (std::abs(u) * std::hypot(ex, ey) < 0.02 || std::abs(u - 1) * std::hypot(ex, ey) < 0.02))
                                margin = 0;
                        }
                        if (margin > 0.05)
                        {
                            if (far >= 0)
                            {
                                const double x = m.x + far * dx, y = m.y + far * dy;
                                PBT_CHECK(std::hypot(s.x - x, s.y - y) < 0.03, "layer %d: the wall in line %d starts at (%.3f, %.3f), not at (%.3f, %.3f)", layer, o->no, s.x, s.y, x, y);
                            }
                            else
                            {
                                const eng::V2 q{ m.x + dx, m.y + dy };
                                const double d = std::hypot(s.x - q.x, s.y - q.y);
                                for (size_t k = 0; k < v.size(); k++)
                                    PBT_CHECK(d < eng::segDist(q, v[k], v[(k + 1) % v.size()]) + 0.03, "layer %d: the wall in line %d starts at (%.3f, %.3f), not nearest to (%.3f, %.3f)", layer, o->no, s.x, s.y, q.x, q.y);
                            }
                        }
                    }
                }
                else if (seam == "sharpest_corner")
                {
                    // (a fresh look at the ring, whichever way it is printed)
                    std::vector<Point2LL> r;
                    for (const eng::V2& p : v)
                        r.emplace_back(std::llround(p.x * 1000), std::llround(p.y * 1000));
                    const ld side = ringArea(r) > 0 ? -1 : 1; // corner() takes rings to be clockwise
                    const bool hole = want == 2 && std::abs(o->area()) < 0.5 * std::max(std::abs(outer[0]->area()), std::abs(outer[1]->area()));
                    const auto score = [&](size_t k)
                    {
                        const ld a = corner(r, k) * side * (hole ? -1 : 1);
                        return pref == "z_seam_corner_inner" ? (1 - a) / 2 : pref == "z_seam_corner_outer" ? (1 + a) / 2 : pref == "z_seam_corner_any" ? std::abs(a) : a < 0 ? -a : a / 2;
                    };
                    ld top = 0;
                    for (size_t k = 0; k < r.size(); k++)
                        top = std::max(top, score(k));
                    PBT_CHECK(score(0) > top - 0.07, "layer %d: the wall in line %d starts at (%.3f, %.3f), a corner of %.3Lf; the best has %.3Lf", layer, o->no, s.x, s.y, score(0), top);
                }
            }
            if (group && want == 2 && closed == inner.size() && inner.size() == want * (walls - 1))
                PBT_CHECK(std::abs(outer[0]->when - outer[1]->when) == 1, "layer %d: the outer walls of part %d are not printed together", layer, i);
        }
    }
    if (seen > 0)
        c.nontrivial();
    c.label(seam.c_str());
}

static void skin(Case& c)
{
    using eng::num;
    Gen& g = c.g;
    eng::Job j = eng::plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset", "wall_0_wipe_dist", "infill_wipe_dist", "top_layers", "roofing_layer_count", "flooring_layer_count", "skin_outline_count", "small_skin_width" })
        j.set(k, "0");
    j.set("meshfix_fluid_motion_enabled", "False");
    const int layers = (int)g.range((int64_t)1, (int64_t)3), angle = (int)g.range((int64_t)0, (int64_t)35) * 5;
    j.set("wall_line_count", num(g.range((int64_t)0, (int64_t)2)));
    j.set("infill_line_distance", "0");
    const int kind = (int)g.range((int64_t)0, (int64_t)1); // all of it skin, or top surface
    j.set("bottom_layers", "999");
    j.set("initial_bottom_layers", "999");
    j.set("roofing_layer_count", kind ? "1" : "0");
    j.set("top_bottom_pattern", "lines");
    j.set("top_bottom_pattern_0", "lines");
    for (const char* k : { "skin_monotonic", "roofing_monotonic", "flooring_monotonic" })
        j.set(k, "True");
    for (const char* k : { "skin_angles", "roofing_angles", "flooring_angles" })
        j.set(k, "[" + num(angle) + "]");
    j.set("z_seam_type", "shortest");
    const coord_t w = g.range((coord_t)300, (coord_t)700);
    j.lineWidth(w);
    const bool star = g.flip();
    auto r = star ? genStar(g, Point2LL(0, 0), 2000, 9500, 4, 12) : genComb(g, Point2LL(0, 0), 8000);
    if (ringArea(r) < 0)
        reversed(r);
    eng::Mesh m;
    m.loft({ r, r }, { 0, 200 * layers });
    std::string what = "part " + strPts(r);
    if (star && g.chance(1, 3))
    {
        auto h = genStar(g, Point2LL(0, 0), 600, 1500, 3, 6);
        if (ringArea(h) > 0)
            reversed(h);
        m.loft({ h, h }, { 0, 200 * layers });
        what += " with hole " + strPts(h);
    }
    eng::Model M;
    M.file = m.stl();
    j.groups[0].push_back(M);
    static const eng::Job plain = eng::plainJob();
    c.note("%s", (what + "; " + eng::describe(j, plain)).c_str());
    const eng::Result res = eng::slice(j, 60);
    PBT_CHECK(res.ok(), "the engine ended with status %d", res.status);
    eng::GCode gc(res.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    struct Seg
    {
        double row, a, b;
        int no;
    };
    std::map<int, std::vector<Seg>> segs;
    const double W = w / 1000.0;
    for (const eng::Ev& v : gc.ev)
    {
        if (! v.extrudes() || v.type != "SKIN" || v.len() < 2 * W)
            continue;
        const double ux = (v.x - v.x0) / v.len(), uy = (v.y - v.y0) / v.len();
        // lines at the set angle are turned by it from the Y axis
        const double t = angle * M_PI / 180, lx = std::sin(t), ly = std::cos(t);
        PBT_CHECK(std::abs(ux * ly - uy * lx) < 0.02, "line %d: the skin goes another way", v.no);
        const double px = ly, py = -lx;
        const double a = v.x0 * lx + v.y0 * ly, b = v.x * lx + v.y * ly;
        segs[v.layer].push_back({ (v.x * px + v.y * py), std::min(a, b), std::max(a, b), v.no });
    }
    int sign = 0, seen = 0;
    for (auto& [layer, ls] : segs)
        for (size_t i = 0; i < ls.size(); i++)
            for (size_t k = i + 1; k < ls.size(); k++)
            {
                const double d = ls[k].row - ls[i].row;
                if (std::abs(d) < 0.6 * W || std::abs(d) > 1.05 * W || std::min(ls[i].b, ls[k].b) - std::max(ls[i].a, ls[k].a) < 0.1)
                    continue;
                seen++;
                const int s = d > 0 ? 1 : -1;
                if (! sign)
                    sign = s;
                PBT_CHECK(s == sign, "layer %d: the skin line in g-code line %d is on the other side of the one in line %d than others are", layer, ls[k].no, ls[i].no);
            }
    if (seen > 10)
        c.nontrivial();
    c.label(kind == 0 ? "skin" : kind == 1 ? "top surface" : "bottom surface");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G20",
                  {
                      { "order", 100000, 1000000, "two or more paths left to choose from", order },
                      { "before", 60000, 600000, "three or more requirements", before },
                      { "seam", 150000, 1500000, "a ring of five or more corners", seam },
                      { "monotonic", 100000, 1000000, "some lines next to each other", monotonic },
                      { "walls", 60000, 600000, "two or more walls next to another of the same border", walls },
                      { "tree", 30000, 300000, "four or more points", tree },
                      { "skin", 1500, 15000, "more than 10 pairs of lines side by side", skin },
                      { "print", 3000, 30000, "a part with all of its walls closed", print },
                  });
    return r.main(argc, argv);
}
