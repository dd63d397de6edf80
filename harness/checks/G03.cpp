// G03 point membership and the partition of an area into parts
// SOURCES: utils/linearAlg2D.cpp geometry/*.cpp utils/ListPolyIt.cpp utils/PolylineStitcher.cpp
#include "geo.h"
#include "geometry/PartsView.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;

// Nested area: rings with holes with islands ..., in normal form.
static Shape genNested(Gen& g, coord_t sc)
{
    Shape s = genArea(g, sc, 3, 3);
    for (int level = 0; level < 2 && g.chance(2, 3); level++)
    {
        // islands in and around what is there, so that some fall into holes
        Shape isl;
        const int n = g.range(1, 3);
        for (int i = 0; i < n; i++)
        {
            const coord_t r = std::max<coord_t>(8, g.range(sc / 60 + 4, sc / 12 + 8));
            Point2LL at = genPoint(g, sc);
            if (s.size() > 1 && g.chance(2, 3))
            {
                const auto& h = s[g.draw(s.size() - 1)];
                Box b;
                std::vector<Polygon> one{ h };
                b.addShape(one);
                at = Point2LL((b.x0 + b.x1) / 2, (b.y0 + b.y1) / 2);
            }
            isl.push_back(toPolygon(genSimpleRing(g, at, r)));
        }
        s = g.flip() ? s.unionPolygons(isl) : s.xorPolygons(isl.unionPolygons());
        s = s.unionPolygons();
    }
    return s;
}

static void membership(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 8, 200, 20000, 300000 });
    const Shape S = g.flip() && sc > 100 ? genNested(g, sc) : genSoup(g, std::max<coord_t>(sc, 8), 5, 8);
    if (S.empty())
    {
        c.discard();
    }
    c.note("%s", strShape(S).c_str());
    int in = 0, out = 0, bord = 0;
    for (int k = 0; k < 16; k++)
    {
        const Point2LL p = genProbe(g, S, g.oneof<coord_t>({ 0, 1, 30 }));
        const int m = evenOdd(S, p);
        (m < 0 ? bord : m ? in : out)++;
        for (bool br : { false, true })
        {
            const bool want = m < 0 ? br : m == 1;
            PBT_CHECK(S.inside(p, br) == want, "inside(%s, %d) is not %d", str(p).c_str(), br, want);
        }
        bool b0 = false;
        const int w0 = winding(S[0], p, b0);
        for (bool br : { false, true })
        {
            // crossing parity of one polygon
            const bool want = b0 ? br : (w0 & 1);
            PBT_CHECK(S[0].inside(p, br) == want, "polygon %s inside(%s, %d) is not %d", strPts(S[0]).c_str(), str(p).c_str(), br, want);
        }
        // which polygon
        std::vector<std::pair<ld, size_t>> odd;
        size_t border_idx = NO_INDEX;
        for (size_t i = 0; i < S.size(); i++)
        {
            bool b = false;
            const int w = winding(S[i], p, b);
            if (b && border_idx == NO_INDEX)
            {
                border_idx = i;
            }
            if (w & 1)
            {
                ld x = 1e30L;
                for (size_t j = 0; j < S[i].size(); j++)
                {
                    const Point2LL u = S[i][j], v = S[i][(j + 1) % S[i].size()];
                    if ((u.Y <= p.Y) != (v.Y <= p.Y))
                    {
                        const ld xx = u.X + (ld)(v.X - u.X) * (p.Y - u.Y) / (v.Y - u.Y);
                        if (xx >= p.X)
                        {
                            x = std::min(x, xx);
                        }
                    }
                }
                odd.emplace_back(x, i);
            }
        }
        const size_t found = S.findInside(p, false), foundb = S.findInside(p, true);
        if (border_idx != NO_INDEX)
        {
            bool b = false;
            PBT_CHECK(foundb != NO_INDEX && foundb < S.size(), "findInside(%s, true) finds nothing although the point is on polygon %zu", str(p).c_str(), border_idx);
            winding(S[foundb], p, b);
            PBT_CHECK(b, "findInside(%s, true) gives %zu, which is not on the point", str(p).c_str(), foundb);
        }
        else
        {
            PBT_CHECK(found == foundb, "findInside(%s) depends on the border result away from borders", str(p).c_str());
            if (odd.size() % 2 == 0)
            {
                PBT_CHECK(found == NO_INDEX, "findInside(%s) = %zu, but the point is outside", str(p).c_str(), found);
            }
            else
            {
                std::sort(odd.begin(), odd.end());
                bool ok = false;
                for (const auto& [x, i] : odd)
                {
                    ok |= i == found && x <= odd[0].first + 2;
                }
                PBT_CHECK(ok, "findInside(%s) = %zu, want %zu", str(p).c_str(), found, odd[0].second);
            }
        }
    }
    if (in && out)
    {
        c.nontrivial();
    }
    if (bord)
    {
        c.label("border points");
    }
}

static std::vector<std::vector<Point2LL>> canon(const std::vector<Shape>& groups)
{
    std::vector<std::vector<Point2LL>> r;
    for (const Shape& s : groups)
    {
        for (const Polygon& p : s)
        {
            std::vector<Point2LL> v(p.begin(), p.end());
            auto lt = [](const Point2LL& a, const Point2LL& b)
            {
                return a.X < b.X || (a.X == b.X && a.Y < b.Y);
            };
            std::rotate(v.begin(), std::min_element(v.begin(), v.end(), lt), v.end());
            r.push_back(v);
        }
    }
    std::sort(
        r.begin(),
        r.end(),
        [](const auto& a, const auto& b)
        {
            return std::lexicographical_compare(
                a.begin(),
                a.end(),
                b.begin(),
                b.end(),
                [](const Point2LL& x, const Point2LL& y)
                {
                    return x.X < y.X || (x.X == y.X && x.Y < y.Y);
                });
        });
    return r;
}

static void partition(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 20000, 100000, 200000 });
    const bool over = g.chance(1, 4); // overlapping outlines: union_all matters
    Shape S = genNested(g, sc);
    if (over)
    {
        S.push_back(toPolygon(genSimpleRing(g, genPoint(g, sc), sc / 3)));
    }
    const bool all = g.flip();
    if (S.empty())
    {
        c.discard();
    }
    c.note("all=%d %s", all, strShape(S).c_str());
    const std::vector<SingleShape> parts = S.splitIntoParts(all);
    Shape V = S;
    const PartsView view = V.splitIntoPartsView(all);
    const std::vector<Shape> nest = S.sortByNesting();
    const Shape outside = S.getOutsidePolygons();
    // structure
    size_t holes = 0;
    for (const SingleShape& part : parts)
    {
        PBT_CHECK(! part.empty(), "an empty part");
        PBT_CHECK(ringArea(part[0]) > 0 && &part.outerPolygon() == &part[0], "a part does not start with an outline: %s", strShape(part).c_str());
        for (size_t i = 1; i < part.size(); i++)
        {
            PBT_CHECK(ringArea(part[i]) < 0, "a part has a second outline: %s", strShape(part).c_str());
            holes++;
            for (const Point2LL& v : part[i])
            {
                bool b = false;
                PBT_CHECK(winding(part[0], v, b) != 0 || b || borderDist(std::vector<Polygon>{ part[0] }, v) < 4, "hole corner %s is outside its outline", str(v).c_str());
            }
        }
    }
    c.label(parts.size() > 1 ? "several parts" : "one part");
    if (parts.size() > 1 && holes)
    {
        c.nontrivial();
    }
    // the view describes the same partition
    PBT_CHECK(view.size() == parts.size(), "view has %zu parts, split has %zu", view.size(), parts.size());
    std::vector<int> seen(V.size(), 0);
    std::vector<Shape> a, b;
    for (size_t i = 0; i < view.size(); i++)
    {
        for (size_t idx : view[i])
        {
            PBT_CHECK(idx < V.size() && ! seen[idx]++, "polygon %zu is in no or several parts", idx);
            size_t boundary = 12345;
            PBT_CHECK(view.getPartContaining(idx, &boundary) == i && boundary == view[i][0], "polygon %zu is in part %zu with outline %zu, got %zu", idx, i, view[i][0], boundary);
            const SingleShape as2 = view.assemblePartContaining(idx);
            PBT_CHECK(as2.size() == view[i].size(), "assembled part has the wrong number of polygons");
        }
        const SingleShape as = view.assemblePart(i);
        PBT_CHECK(as.size() == view[i].size() && ringArea(as[0]) > 0, "assembled part is not a part");
        for (size_t k = 0; k < as.size(); k++)
        {
            PBT_CHECK(strPts(as[k]) == strPts(V[view[i][k]]), "assembled part differs");
            PBT_CHECK(k == 0 || ringArea(as[k]) < 0, "hole of assembled part is not a hole");
        }
        a.push_back(as);
    }
    PBT_CHECK(view.getPartContaining(V.size()) == NO_INDEX, "a polygon which is not there has a part");
    for (int s : seen)
    {
        PBT_CHECK(s == 1, "a polygon is in no part");
    }
    for (const auto& p : parts)
    {
        b.push_back(p);
    }
    PBT_CHECK(canon(a) == canon(b), "view and split differ");
    // nesting: level k is inside k others
    std::vector<std::pair<const Polygon*, size_t>> rings;
    for (size_t l = 0; l < nest.size(); l++)
    {
        for (const Polygon& p : nest[l])
        {
            rings.emplace_back(&p, l);
        }
    }
    PBT_CHECK(nest.empty() || ! nest.back().empty(), "empty nesting level");
    for (const auto& [p, l] : rings)
    {
        PBT_CHECK((ringArea(*p) > 0) == (l % 2 == 0), "level %zu has the wrong kind of polygon", l);
        for (const Point2LL& v : *p)
        {
            size_t depth = 0;
            bool touch = false;
            for (const auto& [q, m] : rings)
            {
                if (q == p)
                {
                    continue;
                }
                bool bd = false;
                depth += winding(*q, v, bd) != 0;
                touch |= bd || borderDist(std::vector<Polygon>{ *q }, v) < 4;
            }
            if (! touch)
            {
                PBT_CHECK(depth == l, "polygon with corner %s is at nesting level %zu but inside %zu others", str(v).c_str(), l, depth);
                break;
            }
        }
    }
    // rings that touch themselves or each other make "enclosed" ambiguous
    bool touching = false;
    for (size_t i = 0; i < S.size() && ! touching; i++)
    {
        std::set<std::pair<coord_t, coord_t>> own;
        for (const Point2LL& v : S[i])
        {
            touching |= ! own.insert({ v.X, v.Y }).second;
            for (size_t j = 0; j < S.size() && ! touching; j++)
            {
                touching |= i != j && borderDist(std::vector<Polygon>{ S[j] }, v) < 4;
            }
        }
    }
    // same point set
    const Shape nz = S.unionPolygons();
    for (int k = 0; k < 20; k++)
    {
        const Point2LL p = genProbe(g, S, 40);
        if (borderDist(S, p) < 15)
        {
            continue;
        }
        bool bd = false;
        const int w = windingSum(S, p, bd);
        const bool want = all ? w != 0 : (w & 1);
        size_t n = 0;
        for (const SingleShape& part : parts)
        {
            bool bb = false;
            const bool po = winding(part[0], p, bb) != 0;
            bool ph = false;
            for (size_t i = 1; i < part.size(); i++)
            {
                ph |= winding(part[i], p, bb) != 0;
            }
            n += po && ! ph;
            PBT_CHECK(part.inside(p) == (po && ! ph), "part %s inside(%s)", strShape(part).c_str(), str(p).c_str());
        }
        PBT_CHECK(n == (want ? 1u : 0u), "%s is in %zu parts, want %d", str(p).c_str(), n, want);
        // outside polygons: everything enclosed by some outline
        if (! over && ! touching)
        {
            bool any = false;
            for (const Polygon& q : S)
            {
                any |= winding(q, p, bd) != 0;
            }
            if (S.size() > 1 || ringArea(S[0]) > 0)
            {
                PBT_CHECK((windingSum(outside, p, bd) != 0) == any, "outside polygons and %s: want %d", str(p).c_str(), any);
            }
        }
    }
    for (const SingleShape& part : parts)
    {
        for (const Polygon& poly : part)
        {
            const Point2LL v = poly[g.draw(poly.size() - 1)];
            bool near_other = false; // rounded corners may lie a micron across a neighbouring border
            for (const Polygon& other : part)
            {
                near_other |= &other != &poly && borderDist(std::vector<Polygon>{ other }, v) < 4;
            }
            if (near_other)
            {
                continue;
            }
            PBT_CHECK(part.inside(v, true), "corner %s of a part is not inside with border result true", str(v).c_str());
            PBT_CHECK(! part.inside(v, false), "corner %s of a part is inside with border result false", str(v).c_str());
        }
    }
}

static void smallAreas(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 4000, 20000 });
    Shape S = genNested(g, sc);
    const bool holes = g.flip();
    std::vector<double> areas;
    for (const Polygon& p : S)
    {
        areas.push_back(std::fabs((double)ringArea(p)) / 1e6);
    }
    if (S.empty())
    {
        c.discard();
    }
    std::vector<Polygon> order(S.begin(), S.end());
    g.shuffle(order);
    S = Shape(order);
    std::sort(areas.begin(), areas.end());
    const double min = areas[g.draw(areas.size() - 1)] * g.oneof({ 1.001, 0.999, 1.5 });
    c.note("min=%g holes=%d %s", min, holes, strShape(S).c_str());
    Shape R = S;
    R.removeSmallAreas(min, holes);
    std::vector<Shape> want(1), maybe(1);
    bool doubt = false;
    size_t removed = 0;
    for (const Polygon& p : S)
    {
        const ld ar = ringArea(p) / 1e6L;
        bool keep = true;
        doubt |= std::fabs(std::fabs(ar) - min) < 1e-9L * min;
        if (std::fabs(ar) < min && (holes || ar >= 0))
        {
            keep = false;
        }
        else if (std::fabs(ar) < min)
        {
            for (const Polygon& q : S)
            {
                const ld qa = ringArea(q) / 1e6L;
                if (qa >= 0 && qa < min)
                {
                    bool b = false;
                    const int w = winding(q, p[0], b);
                    doubt |= b;
                    keep &= ! w;
                }
            }
        }
        if (keep)
        {
            want[0].push_back(p);
        }
        else
        {
            removed++;
        }
    }
    if (doubt)
    {
        c.discard();
    }
    if (removed && want[0].size())
    {
        c.nontrivial();
    }
    std::vector<Shape> got{ R };
    PBT_CHECK(canon(got) == canon(want), "kept %s, want %s", strShape(R).c_str(), strShape(want[0]).c_str());
}

static void samePolygons(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = 10000;
    const int d = g.oneof({ 0, 5, 50 });
    Shape S, rem;
    std::vector<bool> expect;
    const int n = g.range(1, 5);
    for (int i = 0; i < n; i++)
    {
        // spread corners: no two corners of a polygon within 4d
        std::vector<Point2LL> r = genStar(g, genPoint(g, sc), sc / 2, sc, 3, 9);
        S.push_back(toPolygon(r));
        bool gone = false;
        if (g.chance(2, 3))
        {
            std::rotate(r.begin(), r.begin() + g.draw(r.size() - 1), r.end());
            gone = true;
            for (Point2LL& p : r)
            {
                const ld a = g.real(0, 6.28);
                p = p + Point2LL(std::llround(d * 0.9L * std::cos(a) * 0.99L), std::llround(d * 0.9L * std::sin(a) * 0.99L));
            }
            if (g.flip())
            {
                switch (g.draw(2))
                {
                case 0: // one corner too far
                {
                    Point2LL& p = r[g.draw(r.size() - 1)];
                    p = p + (g.flip() ? Point2LL(2 * d + 2, 0) : Point2LL(0, -2 * d - 2));
                    break;
                }
                case 1:
                    r.pop_back();
                    break;
                default:
                    r.push_back(r.back() + Point2LL(1, 1));
                }
                gone = false;
            }
            rem.push_back(toPolygon(r));
        }
        expect.push_back(gone);
    }
    c.note("d=%d S=%s rem=%s", d, strShape(S).c_str(), strShape(rem).c_str());
    const Shape R = S.removePolygon(rem, d);
    std::vector<Shape> want(1), got{ R };
    size_t k = 0;
    for (size_t i = 0; i < S.size(); i++)
    {
        if (! expect[i])
        {
            want[0].push_back(S[i]);
        }
        else
        {
            k++;
        }
    }
    if (k && k < S.size())
    {
        c.nontrivial();
    }
    PBT_CHECK(canon(got) == canon(want), "left %s, want %s", strShape(R).c_str(), strShape(want[0]).c_str());
}

static void centre(Case& c)
{
    Gen& g = c.g;
    const coord_t sc = g.oneof<coord_t>({ 500, 20000, 300000 });
    std::vector<Point2LL> r = genSimpleRing(g, genPoint(g, sc), sc / 2 + 10);
    if (g.flip())
    {
        reversed(r);
    }
    c.note("%s", strPts(r).c_str());
    const ld A = ringArea(r);
    ld x = 0, y = 0;
    for (size_t i = 0; i < r.size(); i++)
    {
        const Point2LL a = r[i], b = r[(i + 1) % r.size()];
        const ld cr = (ld)a.X * b.Y - (ld)a.Y * b.X;
        x += (a.X + b.X) * cr;
        y += (a.Y + b.Y) * cr;
    }
    x /= 6 * A;
    y /= 6 * A;
    c.nontrivial();
    const Polygon P = toPolygon(r);
    const Point2LL got = P.centerOfMass();
    const ld tol = 1.01L + 1e-13L * (ld)sc * sc * sc * r.size() / std::fabs(A);
    PBT_CHECK(std::fabs(got.X - x) <= tol && std::fabs(got.Y - y) <= tol, "centre of mass %s, want (%.2Lf,%.2Lf)", str(got).c_str(), x, y);
    PBT_CHECK(std::fabs(P.area() - A) <= 1e-12L * sc * sc * r.size(), "area %.1f, want %.1Lf", P.area(), A);
    ld len = 0;
    for (size_t i = 0; i < r.size(); i++)
    {
        len += dist(r[i], r[(i + 1) % r.size()]);
    }
    PBT_CHECK(std::fabs(P.length() - len) <= r.size() + 1, "length %lld, want %.1Lf", (long long)P.length(), len);
}

int main(int argc, char** argv)
{
    pbt::Runner r(
        "G03",
        {
            { "membership", 300000, 6000000, "nested areas and polygon soups at scales from 8 micron to 30 cm, 16 probes each, many exactly on borders and corners; non-trivial: probes inside and outside", membership },
            { "partition", 80000, 1500000, "areas with holes and islands in holes; split into parts, viewed as parts, sorted by nesting; non-trivial: several parts, some with holes", partition },
            { "smallAreas", 60000, 800000, "threshold next to the area of one of the polygons; non-trivial: some kept, some removed", smallAreas },
            { "samePolygons", 60000, 800000, "polygons rotated in order, jittered within the distance, or changed beyond it; non-trivial: some removed, some kept", samePolygons },
            { "centre", 100000, 1000000, "simple rings of both orientations; all count", centre },
        });
    return r.main(argc, argv);
}
