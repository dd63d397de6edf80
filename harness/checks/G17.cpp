// G17 settings: how values are read, and at which levels they apply
// SOURCES: ALL
#include "engine_geo.h"

#include "ExtruderTrain.h"
#include "Slice.h"
#include "gcode_export/GcodeTemplateResolver.h"
#include "settings/EnumSettings.h"
#include "settings/FlowTempGraph.h"
#include "settings/types/Angle.h"
#include "settings/types/Duration.h"
#include "settings/types/LayerIndex.h"
#include "settings/types/Ratio.h"
#include "settings/types/Temperature.h"
#include "settings/types/Velocity.h"
#include "utils/Point3D.h"
#include "utils/Matrix4x3D.h"
#include "utils/string.h"
#include <cura-formulae-engine/eval.h>

using namespace eng;
using pbt::Case;
using pbt::Gen;

static std::shared_ptr<cura::Slice> newSlice(size_t groups, size_t extruders)
{
    auto s = std::make_shared<cura::Slice>(groups);
    cura::Application::getInstance().current_slice_ = s;
    s->scene.extruders.reserve(extruders);
    for (size_t e = 0; e < extruders; e++)
    {
        s->scene.extruders.emplace_back(e, &s->scene.settings);
    }
    return s;
}

// ---------------------------------------------------------------- values
static std::string decimal(Gen& g, double& v)
{
    char b[64];
    switch (g.range(0, (int64_t)(4) - 1))
    {
    case 0:
        snprintf(b, sizeof b, "%lld", (long long)g.around(1000));
        break;
    case 1:
        snprintf(b, sizeof b, "%.3f", g.around(400000000) / 1000.0);
        break;
    case 2:
        snprintf(b, sizeof b, "%.1f", g.around(100000) / 10.0);
        break;
    default:
        snprintf(b, sizeof b, "%s.%03d", g.flip() ? "-" : "", (int)g.range(0, (int64_t)(1000) - 1));
    }
    v = strtod(b, nullptr);
    return b;
}
static std::string sp(Gen& g)
{
    return std::string(g.chance(1, 3) ? g.range(0, (int64_t)(3) - 1) : 0, ' ');
}
static bool near(double a, double b)
{
    return std::fabs(a - b) <= 1e-9 * (1 + std::fabs(a) + std::fabs(b));
}
template<class T>
static void enums(cura::Settings& s, Case& c, std::vector<std::pair<const char*, T>> names, T other)
{
    const size_t k = c.g.range(0, (int64_t)(names.size() + 1) - 1);
    const std::string n = k < names.size() ? names[k].first : "no such value";
    s.add("v", n);
    const T got = s.get<T>("v");
    PBT_CHECK(got == (k < names.size() ? names[k].second : other), "\"%s\" is taken for number %d", n.c_str(), (int)got);
}
static void values(Case& c)
{
    using namespace cura;
    Gen& g = c.g;
    const size_t n_extruders = g.range(1, 4);
    auto slice = newSlice(1, n_extruders);
    Settings& s = slice->scene.settings;
    c.label("numbers");
    for (int k = 0; k < 6; k++)
    {
        double v;
        const std::string t = decimal(g, v);
        c.note("%s ", t.c_str());
        s.add("v", t);
        PBT_CHECK(s.get<std::string>("v") == t, "%s is kept as %s", t.c_str(), s.get<std::string>("v").c_str());
        PBT_CHECK(s.get<double>("v") == v, "%s", t.c_str());
        PBT_CHECK(std::fabs((double)s.get<coord_t>("v") - v * 1000) < 0.501, "%s mm is %lld", t.c_str(), (long long)s.get<coord_t>("v"));
        PBT_CHECK(near(s.get<Ratio>("v"), v / 100), "%s %% is %g", t.c_str(), (double)s.get<Ratio>("v"));
        PBT_CHECK(std::fabs(std::remainder((double)s.get<AngleDegrees>("v") - v, 360)) < 1e-6, "%s degrees is %g", t.c_str(), (double)s.get<AngleDegrees>("v"));
        PBT_CHECK(std::fabs(std::remainder((double)s.get<AngleRadians>("v") - v * std::numbers::pi / 180, 2 * std::numbers::pi)) < 1e-6, "%s degrees is %g", t.c_str(), (double)s.get<AngleRadians>("v"));
        PBT_CHECK(near(s.get<Temperature>("v"), v) && near(s.get<Velocity>("v"), v) && near(s.get<Acceleration>("v"), v), "%s", t.c_str());
        PBT_CHECK(near(s.get<Duration>("v"), std::max(0.0, v)), "%s s is %g", t.c_str(), (double)s.get<Duration>("v"));
        const int i = g.around(100000);
        s.add("v", num(i));
        PBT_CHECK(s.get<int>("v") == i && s.get<double>("v") == i, "%d", i);
        PBT_CHECK(i < 0 || s.get<size_t>("v") == (size_t)i, "%d", i);
        PBT_CHECK(s.get<LayerIndex>("v") == LayerIndex(i - 1), "layer %d is %d", i, (int)s.get<LayerIndex>("v"));
        PBT_CHECK(s.get<bool>("v") == (i != 0), "%d", i);
        s.add("v", g.oneof<std::string>({ "True", "true", "yes", "on" }));
        PBT_CHECK(s.get<bool>("v"), "%s", s.get<std::string>("v").c_str());
        s.add("v", g.oneof<std::string>({ "False", "false", "no", "off", "" }));
        PBT_CHECK(! s.get<bool>("v"), "%s", s.get<std::string>("v").c_str());
    }
    // extruders
    {
        const int e = g.range(-1, (int64_t)n_extruders - 1);
        const size_t own = g.range(0, (int64_t)(n_extruders) - 1);
        s.add("v", num(e));
        s.add("extruder_nr", num(own));
        PBT_CHECK(&s.get<ExtruderTrain&>("v") == &slice->scene.extruders[e < 0 ? own : e], "extruder %d", e);
        const auto all = s.get<std::vector<ExtruderTrain*>>("v");
        PBT_CHECK(all.size() == (e < 0 ? n_extruders : 1), "extruder %d stands for %zu", e, all.size());
        for (size_t k = 0; k < all.size(); k++)
        {
            PBT_CHECK(all[k] == &slice->scene.extruders[e < 0 ? k : e], "extruder %d", e);
        }
    }
    // lists
    {
        std::string t = sp(g) + "[";
        std::vector<double> w;
        for (int n = g.range(0, 6), k = 0; k < n; k++)
        {
            double v;
            t += sp(g) + decimal(g, v) + sp(g) + (k + 1 < n ? "," : "");
            w.push_back(v);
        }
        t += g.chance(1, 5) ? "" : "]";
        c.note("%s ", t.c_str());
        s.add("v", t);
        const auto d = s.get<std::vector<double>>("v");
        PBT_CHECK(d == w, "%s has %zu numbers", t.c_str(), d.size());
        const auto i = s.get<std::vector<int>>("v");
        const auto a = s.get<std::vector<AngleDegrees>>("v");
        const auto r = s.get<std::vector<Ratio>>("v");
        PBT_CHECK(i.size() == w.size() && a.size() == w.size() && r.size() == w.size(), "%s", t.c_str());
        for (size_t k = 0; k < w.size(); k++)
        {
            PBT_CHECK(std::fabs(i[k] - w[k]) <= 0.5 && near(r[k], w[k] / 100) && std::fabs(std::remainder((double)a[k] - w[k], 360)) < 1e-6, "%s: number %zu", t.c_str(), k);
        }
    }
    // a matrix
    {
        double m[3][3];
        std::string t = sp(g) + "[";
        for (int r = 0; r < 3; r++)
        {
            t += sp(g) + "[";
            for (int k = 0; k < 3; k++)
            {
                char b[64];
                snprintf(b, sizeof b, g.flip() ? "%.6g" : "%.17g", g.chance(1, 3) ? (double)g.range(-2, 2) : g.real(-2, 2));
                m[r][k] = strtod(b, nullptr);
                t += sp(g) + b + sp(g) + (k < 2 ? "," : "]");
            }
            t += sp(g) + (r < 2 ? "," : "]");
        }
        c.note("%s ", t.c_str());
        s.add("v", t);
        const Matrix4x3D mat = s.get<Matrix4x3D>("v");
        for (int k = 0; k < 3; k++)
        {
            const double p[3] = { g.around(200000) / 1000.0, g.around(200000) / 1000.0, g.around(200000) / 1000.0 };
            const Point3LL q = mat.apply(Point3D(p[0], p[1], p[2])); // millimetres to microns
            const long long got[3] = { q.x_, q.y_, q.z_ };
            for (int r = 0; r < 3; r++)
            {
                const double want = (m[r][0] * p[0] + m[r][1] * p[1] + m[r][2] * p[2]) * 1000;
                PBT_CHECK(std::fabs(got[r] - want) < 0.51, "%s times (%g, %g, %g): coordinate %d is %lld, not %.1f", t.c_str(), p[0], p[1], p[2], r, got[r], want);
            }
        }
        s.add("v", "");
        const Point3LL q = s.get<Matrix4x3D>("v").apply(Point3D(1, 2, 3));
        PBT_CHECK(q == Point3LL(1000, 2000, 3000), "no matrix changes things");
    }
    // polygons
    {
        std::string t = "[";
        std::vector<Pts> w;
        for (int n = g.range(0, 3), k = 0; k < n; k++)
        {
            t += sp(g) + "[";
            w.emplace_back();
            for (int m = g.range(1, 5), i = 0; i < m; i++)
            {
                double x, y;
                t += "[" + sp(g) + decimal(g, x) + sp(g) + "," + sp(g);
                t += decimal(g, y) + sp(g) + "]" + (i + 1 < m ? "," + sp(g) : "");
                w.back().push_back(Point2LL(std::llround(x * 1000), std::llround(y * 1000)));
            }
            t += std::string("]") + (k + 1 < n ? "," : "");
        }
        t += "]";
        c.note("%s ", t.c_str());
        s.add("v", t);
        const Shape p = s.get<Shape>("v");
        PBT_CHECK(p.size() == w.size(), "%s: %zu polygons", t.c_str(), p.size());
        for (size_t k = 0; k < w.size(); k++)
        {
            PBT_CHECK(p[k].size() == w[k].size(), "%s: %zu corners in polygon %zu", t.c_str(), p[k].size(), k);
            for (size_t i = 0; i < w[k].size(); i++)
            {
                PBT_CHECK(std::llabs(p[k][i].X - w[k][i].X) <= 1 && std::llabs(p[k][i].Y - w[k][i].Y) <= 1, "%s: corner %zu", t.c_str(), i);
            }
        }
    }
    // a graph of temperatures
    {
        const int n = g.range(0, 5);
        std::vector<std::pair<double, double>> w;
        double f = g.range(0, 3);
        std::string t = "[";
        for (int k = 0; k < n; k++)
        {
            w.push_back({ f, g.range(150, 300) + g.range(0, (int64_t)(10) - 1) / 10.0 });
            t += sp(g) + "[" + sp(g) + num(f) + sp(g) + "," + sp(g) + num(w.back().second) + sp(g) + "]" + (k + 1 < n ? "," : "");
            f += g.range(1, 50) / 10.0;
        }
        t += "]";
        c.note("%s ", t.c_str());
        s.add("v", t);
        const FlowTempGraph graph = s.get<FlowTempGraph>("v");
        PBT_CHECK(graph.data_.size() == w.size(), "%s: %zu places", t.c_str(), graph.data_.size());
        for (int k = 0; k < 6; k++)
        {
            const double q = n && g.chance(1, 3) ? w[g.range(0, (int64_t)(n) - 1)].first : g.real(0, 30), plain = g.range(150, 300);
            double want = plain;
            if (n > 0)
            {
                want = q <= w[0].first ? w[0].second : w.back().second;
                for (int i = 0; i + 1 < n; i++)
                {
                    if (q >= w[i].first && q <= w[i + 1].first)
                    {
                        want = w[i].second + (w[i + 1].second - w[i].second) * (q - w[i].first) / (w[i + 1].first - w[i].first);
                    }
                }
            }
            PBT_CHECK(std::fabs(graph.getTemp(q, plain, true) - want) < 1e-6, "%s: %g degrees at %g, not %g", t.c_str(), graph.getTemp(q, plain, true), q, want);
            PBT_CHECK(graph.getTemp(q, plain, false) == plain, "the graph is used though it is off");
        }
    }
    // names
    using E = EFillMethod;
    enums<E>(s, c, { { "none", E::NONE }, { "lines", E::LINES }, { "grid", E::GRID }, { "cubic", E::CUBIC }, { "cubicsubdiv", E::CUBICSUBDIV }, { "tetrahedral", E::TETRAHEDRAL }, { "quarter_cubic", E::QUARTER_CUBIC }, { "triangles", E::TRIANGLES }, { "trihexagon", E::TRIHEXAGON }, { "concentric", E::CONCENTRIC }, { "zigzag", E::ZIG_ZAG }, { "cross", E::CROSS }, { "cross_3d", E::CROSS_3D }, { "gyroid", E::GYROID }, { "lightning", E::LIGHTNING }, { "honeycomb", E::HONEYCOMB }, { "octagon", E::OCTAGON } }, E::NONE);
    using F = EGCodeFlavor;
    enums<F>(s, c, { { "Marlin", F::MARLIN }, { "Griffin", F::GRIFFIN }, { "Cheetah", F::CHEETAH }, { "UltiGCode", F::ULTIGCODE }, { "Makerbot", F::MAKERBOT }, { "BFB", F::BFB }, { "MACH3", F::MACH3 }, { "RepRap (Volumetric)", F::MARLIN_VOLUMATRIC }, { "Repetier", F::REPETIER }, { "RepRap (RepRap)", F::REPRAP } }, F::MARLIN);
    using A = EPlatformAdhesion;
    enums<A>(s, c, { { "skirt", A::SKIRT }, { "brim", A::BRIM }, { "raft", A::RAFT }, { "none", A::NONE } }, A::SKIRT);
    using T = ESupportType;
    enums<T>(s, c, { { "none", T::NONE }, { "everywhere", T::EVERYWHERE }, { "buildplate", T::PLATFORM_ONLY } }, T::NONE);
    using U = ESupportStructure;
    enums<U>(s, c, { { "normal", U::NORMAL }, { "tree", U::TREE } }, U::NORMAL);
    using Z = EZSeamType;
    enums<Z>(s, c, { { "shortest", Z::SHORTEST }, { "random", Z::RANDOM }, { "back", Z::USER_SPECIFIED }, { "sharpest_corner", Z::SHARPEST_CORNER } }, Z::SHORTEST);
    using Y = EZSeamCornerPrefType;
    enums<Y>(s, c, { { "z_seam_corner_none", Y::Z_SEAM_CORNER_PREF_INNER }, { "z_seam_corner_inner", Y::Z_SEAM_CORNER_PREF_INNER }, { "z_seam_corner_outer", Y::Z_SEAM_CORNER_PREF_OUTER }, { "z_seam_corner_any", Y::Z_SEAM_CORNER_PREF_ANY }, { "z_seam_corner_weighted", Y::Z_SEAM_CORNER_PREF_WEIGHTED } }, Y::Z_SEAM_CORNER_PREF_INNER);
    using M = ESurfaceMode;
    enums<M>(s, c, { { "normal", M::NORMAL }, { "surface", M::SURFACE }, { "both", M::BOTH } }, M::NORMAL);
    using B = CombingMode;
    enums<B>(s, c, { { "all", B::ALL }, { "off", B::OFF }, { "noskin", B::NO_SKIN }, { "no_outer_surfaces", B::NO_OUTER_SURFACES }, { "infill", B::INFILL } }, B::ALL);
    using P = SupportDistPriority;
    enums<P>(s, c, { { "xy_overrides_z", P::XY_OVERRIDES_Z }, { "z_overrides_xy", P::Z_OVERRIDES_XY } }, P::XY_OVERRIDES_Z);
    using S = SlicingTolerance;
    enums<S>(s, c, { { "middle", S::MIDDLE }, { "inclusive", S::INCLUSIVE }, { "exclusive", S::EXCLUSIVE } }, S::MIDDLE);
    using I = InsetDirection;
    enums<I>(s, c, { { "inside_out", I::INSIDE_OUT }, { "outside_in", I::OUTSIDE_IN } }, I::INSIDE_OUT);
    using BS = BuildPlateShape;
    enums<BS>(s, c, { { "rectangular", BS::RECTANGULAR }, { "elliptic", BS::ELLIPTIC } }, BS::RECTANGULAR);
    using D = DraftShieldHeightLimitation;
    enums<D>(s, c, { { "full", D::FULL }, { "limited", D::LIMITED } }, D::FULL);
    enums<FillPerimeterGapMode>(s, c, { { "nowhere", FillPerimeterGapMode::NOWHERE }, { "everywhere", FillPerimeterGapMode::EVERYWHERE } }, FillPerimeterGapMode::NOWHERE);
    enums<PrimeTowerMode>(s, c, { { "interleaved", PrimeTowerMode::INTERLEAVED }, { "normal", PrimeTowerMode::NORMAL } }, PrimeTowerMode::NORMAL);
    enums<BrimLocation>(s, c, { { "everywhere", BrimLocation::EVERYWHERE }, { "inside", BrimLocation::INSIDE }, { "outside", BrimLocation::OUTSIDE } }, BrimLocation::OUTSIDE);
    using Q = CoolDuringExtruderSwitch;
    enums<Q>(s, c, { { "all_fans", Q::ALL_FANS }, { "only_last_extruder", Q::ONLY_LAST_EXTRUDER }, { "unchanged", Q::UNCHANGED } }, Q::UNCHANGED);
    using R = RetractBeforeOuterWall;
    enums<R>(s, c, { { "force_retracted", R::RETRACTED }, { "force_not_retracted", R::NOT_RETRACTED }, { "force_not_retracted_from_infill", R::NOT_RETRACTED_FROM_INFILL }, { "automatic", R::AUTOMATIC } }, R::AUTOMATIC);
    c.nontrivial();
}

// ---------------------------------------------------------------- numbers in g-code
static void numbers(Case& c)
{
    Gen& g = c.g;
    for (int k = 0; k < 20; k++)
    {
        const int32_t v = g.chance(1, 10) ? 0 : g.signedMagnitude(g.range(1, 31));
        std::ostringstream o;
        o << "X";
        cura::writeInt2mm(v, o);
        const std::string s = o.str();
        c.note("%s ", s.c_str());
        char* end = nullptr;
        PBT_CHECK(s[0] == 'X' && s.size() > 1 && s.find_first_not_of("-.0123456789", 1) == std::string::npos, "%d is written as %s", v, s.c_str());
        PBT_CHECK(std::llround(strtod(s.c_str() + 1, &end) * 1000) == v && *end == 0, "%d is written as %s", v, s.c_str());
        PBT_CHECK(s.find('.') == std::string::npos || (s.back() != '0' && s.back() != '.' && s.size() - s.find('.') <= 4), "%d is written as %s", v, s.c_str());

        const int precision = g.range(0, 9);
        const double d = g.chance(1, 10) ? 0 : g.signedMagnitude(g.range(1, 46)) / std::pow(10.0, g.range(0, 12));
        std::ostringstream p;
        p << cura::PrecisionedDouble{ static_cast<uint8_t>(precision), d };
        const std::string t = p.str();
        c.note("%s ", t.c_str());
        PBT_CHECK(! t.empty() && t.find_first_not_of("-.0123456789") == std::string::npos, "%.12g is written as %s", d, t.c_str());
        PBT_CHECK(std::fabs(strtod(t.c_str(), &end) - d) <= 0.5001 * std::pow(10.0, -precision) + 1e-15 * std::fabs(d) && *end == 0, "%.12g is written as %s with %d digits", d, t.c_str(), precision);
        PBT_CHECK(t.find('.') == std::string::npos || (t.back() != '0' && t.back() != '.'), "%.12g is written as %s", d, t.c_str());
        PBT_CHECK(! cura::PrecisionedDouble({ static_cast<uint8_t>(precision), d }).wouldWriteZero() || std::fabs(d) < std::pow(10.0, -precision), "%.12g counts as nothing", d);
    }
    c.nontrivial();
}

// ---------------------------------------------------------------- levels
using Level = std::map<std::string, std::string>;
static std::string hex(const std::string& s)
{
    std::string r;
    for (unsigned char ch : s)
    {
        char b[3];
        snprintf(b, sizeof b, "%02x", ch);
        r += b;
    }
    return r;
}
static std::string jsonStr(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char ch : s)
    {
        if (ch == '"' || ch == '\\')
        {
            r += '\\';
            r += ch;
        }
        else if (ch < 32)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", ch);
            r += b;
        }
        else
        {
            r += ch;
        }
    }
    return r + "\"";
}
static constexpr int n_keys = 6;
static std::string key(int k)
{
    return "vf_key_" + std::to_string(k);
}
static std::string text(Gen& g)
{
    static int nr = 0;
    nr = (nr + 1) % 100000;
    return g.oneof<std::string>({ "", "a=b ", "-s x=1 ", "\xc3\xa9 ", "'\"\\ ", "{x} " }) + std::to_string(nr);
}
// a value in JSON and the text it stands for
static std::pair<std::string, std::string> jsonValue(Gen& g, bool nest = true)
{
    switch (g.range(0, (int64_t)(nest ? 6 : 5) - 1))
    {
    case 0:
    {
        const std::string t = text(g);
        return { jsonStr(t), t };
    }
    case 1:
        return { "true", "true" };
    case 2:
        return { "false", "false" };
    case 3:
    {
        const int v = g.around(5000);
        return { std::to_string(v), std::to_string(v) };
    }
    case 4:
    {
        const std::string t = mm(g.around(5000000));
        return { t, t };
    }
    default:
    {
        std::string j = "[", t = "[";
        for (int n = g.range(0, 3), k = 0; k < n; k++)
        {
            const auto [a, b] = jsonValue(g, g.chance(1, 3));
            j += (k ? ", " : "") + a;
            t += (k ? "," : "") + b;
        }
        return { j + "]", t + "]" };
    }
    }
}
// the same text, or the same numbers
static bool sameText(const std::string& a, const std::string& b)
{
    if (a == b)
    {
        return true;
    }
    size_t i = 0, j = 0;
    while (i < a.size() && j < b.size())
    {
        if (isdigit((unsigned char)a[i]) && isdigit((unsigned char)b[j]))
        {
            char *e, *f;
            if (std::fabs(strtod(a.c_str() + i, &e) - strtod(b.c_str() + j, &f)) > 1e-6 || e == a.c_str() + i || f == b.c_str() + j)
            {
                return false;
            }
            i = e - a.c_str();
            j = f - b.c_str();
        }
        else if (a[i++] != b[j++])
        {
            return false;
        }
    }
    return i == a.size() && j == b.size();
}
struct MeshLevel
{
    Level own;
    int extruder = 0;
};
struct World
{
    Level scene;
    std::vector<Level> extruders{ Level{} };
    std::vector<Level> groups;
    std::vector<std::vector<MeshLevel>> meshes;
    std::map<std::string, int> limit;

    std::optional<std::string> find(const Level& l, const std::string& k) const
    {
        auto it = l.find(k);
        return it == l.end() ? std::nullopt : std::optional(it->second);
    }
    // what is set for all, for a group of models
    std::optional<std::string> ofGroup(int g, const std::string& k) const
    {
        if (auto v = find(groups[g], k))
        {
            return v;
        }
        if (limit.count(k))
        {
            return ofLimit(g, k);
        }
        return find(scene, k);
    }
    std::optional<std::string> ofLimit(int g, const std::string& k) const
    {
        if (auto v = find(extruders[limit.at(k)], k))
        {
            return v;
        }
        if (auto v = find(groups[g], k))
        {
            return v;
        }
        return find(scene, k);
    }
    std::optional<std::string> ofExtruder(int g, int e, const std::string& k) const
    {
        if (auto v = find(extruders[e], k))
        {
            return v;
        }
        return limit.count(k) ? ofLimit(g, k) : ofGroup(g, k);
    }
    std::optional<std::string> ofMesh(int g, int m, const std::string& k) const
    {
        if (auto v = find(meshes[g][m].own, k))
        {
            return v;
        }
        return limit.count(k) ? ofLimit(g, k) : ofExtruder(g, meshes[g][m].extruder, k);
    }
};
// a definition file of settings, and what it sets
static std::string definition(Gen& g, Scratch& sc, const std::string& base, Level& out, bool read_parent, bool read_value, int& nr, int depth)
{
    std::string j = "{ \"version\": 2, \"name\": \"x\"";
    if (depth < 2 && g.chance(1, 3))
    {
        const std::string parent = base + "p";
        const std::string content = definition(g, sc, parent, out, read_parent, read_value, nr, depth + 1);
        sc.add(parent + ".def.json", &content);
        j += ", \"inherits\": " + jsonStr(parent);
    }
    std::function<std::string(int)> entry = [&](int level) -> std::string
    {
        // settings in categories, some with settings below them
        std::string r;
        const int n = g.range(1, 3);
        for (int i = 0; i < n; i++)
        {
            const bool children = level == 0 || (level < 3 && g.chance(1, 3));
            const bool has_key = level > 0;
            const std::string k = has_key ? key(g.range(0, (int64_t)(n_keys) - 1)) : "category" + std::to_string(i);
            std::string o = "\"type\": \"str\"";
            // what is below is read first
            if (children)
            {
                o += ", \"children\": {" + entry(level + 1) + "}";
            }
            if (has_key)
            {
                const bool def = g.chance(4, 5), val = g.chance(1, 3);
                const auto a = jsonValue(g), b = jsonValue(g);
                if (def)
                {
                    o += ", \"default_value\": " + a.first;
                }
                if (val)
                {
                    o += ", \"value\": " + b.first;
                }
                if (! children || read_parent)
                {
                    if (def)
                    {
                        out[k] = a.second;
                    }
                    else if (val && read_value && ! out.count(k))
                    {
                        out[k] = b.second;
                    }
                }
            }
            r += (r.empty() ? "" : ", ") + jsonStr(k) + ": {" + o + "}";
        }
        return r;
    };
    if (g.chance(4, 5))
    {
        j += ", \"settings\": {" + entry(0) + "}";
    }
    if (g.flip())
    {
        j += ", \"overrides\": {" + entry(1) + "}";
    }
    nr++;
    return j + "}";
}
static void levels(Case& c)
{
    Gen& g = c.g;
    Scratch sc;
    eng::Mesh box;
    box.box(-2000, -2000, 0, 2000, 2000, 1000);
    const std::string stl = box.stl();
    std::vector<std::string> a{ "CuraEngine", "slice" };
    static const Job plain = plainJob();
    for (const auto& [k, v] : plain.general)
    {
        a.push_back("-s");
        a.push_back(k + "=" + v);
    }
    const bool slices = g.chance(1, 6); // else there are only models which are not printed
    a.push_back("-s");
    a.push_back(std::string("cutting_mesh=") + (slices ? "False" : "True"));
    const size_t head = a.size();
    World w;
    w.groups.emplace_back();
    w.meshes.emplace_back();
    enum
    {
        SCENE,
        EXTRUDER,
        GROUP,
        MESH
    } at = SCENE;
    int extruder = 0, files = 0;
    bool read_parent = false, read_value = false, next = false, resolved = false;
    int sets = 0;
    auto level = [&]() -> Level&
    {
        switch (at)
        {
        case SCENE:
            return w.scene;
        case EXTRUDER:
            return w.extruders[extruder];
        case GROUP:
            return w.groups.back();
        default:
            return w.meshes.back().back().own;
        }
    };
    const int steps = g.range(4, 22);
    for (int s = 0; s < steps; s++)
    {
        switch (g.range(0, (int64_t)(12) - 1))
        {
        default:
        {
            const std::string k = key(g.range(0, (int64_t)(n_keys) - 1)), v = text(g);
            level()[k] = v;
            a.push_back("-s");
            a.push_back(k + "=" + v);
            sets++;
            break;
        }
        case 5:
        case 6:
        {
            extruder = g.range(0, 4);
            while ((int)w.extruders.size() <= extruder)
            {
                w.extruders.emplace_back();
            }
            at = EXTRUDER;
            a.push_back("-e" + std::to_string(extruder));
            break;
        }
        case 7:
        case 8:
        {
            const std::string name = "m" + std::to_string(files++) + ".stl";
            a.push_back("-l");
            a.push_back(sc.add(name, &stl));
            w.meshes.back().push_back({ {}, extruder });
            at = MESH;
            break;
        }
        case 9:
            a.push_back("-g");
            at = GROUP;
            break;
        case 10:
            if (w.groups.size() < 4)
            {
                a.push_back("--next");
                w.groups.emplace_back();
                w.meshes.emplace_back();
                at = GROUP;
                next = true;
            }
            break;
        case 11:
            switch (g.range(0, (int64_t)(4) - 1))
            {
            case 0:
                a.push_back("--force-read-parent");
                read_parent = true;
                break;
            case 1:
                a.push_back("--force-read-nondefault");
                read_value = true;
                break;
            case 2:
                a.push_back("--end-force-read");
                read_parent = read_value = false;
                break;
            }
            if (g.flip())
            {
                if (at == MESH)
                {
                    break; // definitions are of printers and extruders
                }
                Level out = level();
                int n = 0;
                const std::string name = "d" + std::to_string(files++);
                std::string j = definition(g, sc, name, out, read_parent, read_value, n, 0);
                if (at == SCENE && g.chance(1, 3)) // with extruders of its own
                {
                    std::string trains;
                    for (int t = g.range(1, 2); t > 0; t--)
                    {
                        const int e = g.range(0, 4);
                        while ((int)w.extruders.size() <= e)
                        {
                            w.extruders.emplace_back();
                        }
                        const std::string en = "x" + std::to_string(files++);
                        const std::string ej = definition(g, sc, en, w.extruders[e], read_parent, read_value, n, 0);
                        sc.add(en + ".def.json", &ej);
                        trains += (trains.empty() ? "" : ", ") + jsonStr(std::to_string(e)) + ": " + jsonStr(en);
                        if (e == t + 1)
                        {
                            break;
                        }
                    }
                    j.insert(1, "\"metadata\": {\"machine_extruder_trains\": {" + trains + "}},");
                }
                level() = out;
                a.push_back("-j");
                a.push_back(sc.add(name + ".def.json", &j));
                sets++;
            }
            else
            {
                // everything in one file
                std::string j;
                auto section = [&](const std::string& name, Level& l, const std::string& more = "")
                {
                    std::string o = more;
                    std::set<std::string> used;
                    for (int n = g.range(1, 4); n > 0; n--)
                    {
                        const std::string k = key(g.range(0, (int64_t)(n_keys) - 1));
                        if (used.insert(k).second)
                        {
                            const auto v = jsonValue(g);
                            l[k] = v.second;
                            o += (o.empty() ? "" : ", ") + jsonStr(k) + ": " + v.first;
                        }
                    }
                    j += (j.empty() ? "" : ",\n") + jsonStr(name) + ": {" + o + "}";
                };
                if (g.flip())
                {
                    section("global", w.scene);
                }
                for (int e = 0; e < 5; e++)
                {
                    if (g.chance(1, 3))
                    {
                        while ((int)w.extruders.size() <= e)
                        {
                            w.extruders.emplace_back();
                        }
                        section("extruder." + std::to_string(e), w.extruders[e]);
                    }
                }
                if (g.chance(2, 3)) // (several would come in any order)
                {
                    const std::string name = "r" + std::to_string(files++) + ".stl";
                    sc.add(name, &stl);
                    MeshLevel m;
                    m.extruder = g.range(0, (int64_t)(w.extruders.size()) - 1);
                    section(name, m.own, "\"extruder_nr\": " + std::to_string(m.extruder) + ", \"mesh_rotation_matrix\": [[1,0,0],[0,1,0],[0,0,1]]");
                    w.meshes.back().push_back(m);
                    resolved = true;
                }
                if (g.chance(1, 3))
                {
                    const std::string k = key(g.range(0, (int64_t)(n_keys) - 1));
                    const int e = g.range(0, (int64_t)(w.extruders.size()) - 1);
                    w.limit[k] = e;
                    j += (j.empty() ? "" : ",\n") + std::string("\"limit_to_extruder\": {") + jsonStr(k) + ": \"extruder." + std::to_string(e) + "\"}";
                }
                j = "{" + j + "}";
                if (at == MESH)
                {
                    at = GROUP; // (its settings are not added to)
                    a.push_back("-g");
                }
                a.push_back("-r");
                a.push_back(sc.add("j" + std::to_string(files++) + ".json", &j));
                sets++;
            }
            break;
        }
    }
    const std::string out = sc.add("out.gcode"), dump = sc.add("dump");
    a.push_back("-o");
    a.push_back(out);
    for (size_t i = head; i < a.size(); i++)
    {
        const std::string& t = a[i];
        c.note("%s ", (t.ends_with(".json") ? "<" + readFile(t) + ">" : t.rfind('/') != std::string::npos ? t.substr(t.rfind('/') + 1) : t).c_str());
    }
    if (next)
    {
        c.label("groups");
    }
    if (resolved)
    {
        c.label("resolved");
    }
    const size_t n_groups = w.groups.size();
    const Result r = runArgs(
        a,
        out,
        sc.add("log"),
        40,
        [&]()
        {
            auto slice = cura::Application::getInstance().current_slice_;
            std::ofstream f(dump);
            auto put = [&](const std::string& what, const cura::Settings& s)
            {
                for (int k = 0; k < n_keys; k++)
                {
                    f << what << " " << key(k) << " " << (s.has(key(k), true) ? "=" + hex(s.get<std::string>(key(k))) : "-") << "\n";
                }
            };
            auto& scene = slice->scene;
            f << "extruders " << scene.extruders.size() << " groups " << scene.mesh_groups.size() << "\n";
            for (auto& e : scene.extruders)
            {
                f << "nr " << e.extruder_nr_ << "\n";
            }
            for (int gr = (int)scene.mesh_groups.size() - 1; gr >= 0; gr--) // the last one is the current one
            {
                auto& mg = scene.mesh_groups[gr];
                const std::string gn = "g" + std::to_string(gr);
                if (gr + 1 < (int)scene.mesh_groups.size())
                {
                    for (auto& e : scene.extruders)
                    {
                        e.settings_.setParent(&mg.settings);
                    }
                }
                put(gn, mg.settings);
                for (size_t e = 0; e < scene.extruders.size(); e++)
                {
                    put(gn + "e" + std::to_string(e), scene.extruders[e].settings_);
                }
                f << gn << " meshes " << mg.meshes.size() << "\n";
                for (size_t m = 0; m < mg.meshes.size(); m++)
                {
                    put(gn + "m" + std::to_string(m), mg.meshes[m].settings_);
                }
            }
        });
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    // what it should be
    std::map<std::string, std::string> got;
    std::istringstream in(readFile(dump));
    std::string l;
    std::getline(in, l);
    const std::string want_head = "extruders " + std::to_string(w.extruders.size()) + " groups " + std::to_string(n_groups);
    PBT_CHECK(l == want_head, "%s, not %s", l.c_str(), want_head.c_str());
    int nr = 0;
    while (std::getline(in, l))
    {
        if (l.starts_with("nr "))
        {
            PBT_CHECK(l == "nr " + std::to_string(nr), "extruder %d has number %s", nr, l.c_str() + 3);
            nr++;
            continue;
        }
        const size_t q = l.rfind(' ');
        got[l.substr(0, q)] = l.substr(q + 1);
    }
    auto check = [&](const std::string& what, const std::string& k, const std::optional<std::string>& want)
    {
        auto it = got.find(what + " " + k);
        PBT_CHECK(it != got.end(), "nothing is said about %s of %s", k.c_str(), what.c_str());
        if (it->second == "-")
        {
            PBT_CHECK(! want, "%s of %s is not set, it should be \"%s\"", k.c_str(), what.c_str(), want->c_str());
            return;
        }
        std::string v;
        for (size_t i = 1; i + 1 < it->second.size(); i += 2)
        {
            v += (char)strtol(it->second.substr(i, 2).c_str(), nullptr, 16);
        }
        PBT_CHECK(want, "%s of %s is \"%s\", it should not be set", k.c_str(), what.c_str(), v.c_str());
        PBT_CHECK(sameText(v, *want), "%s of %s is \"%s\", it should be \"%s\"", k.c_str(), what.c_str(), v.c_str(), want->c_str());
    };
    for (size_t gr = 0; gr < n_groups; gr++)
    {
        const std::string gn = "g" + std::to_string(gr);
        PBT_CHECK(got[gn + " meshes"] == std::to_string(w.meshes[gr].size()), "group %zu has %s models, not %zu", gr, got[gn + " meshes"].c_str(), w.meshes[gr].size());
        for (int k = 0; k < n_keys; k++)
        {
            check(gn, key(k), w.ofGroup(gr, key(k)));
            for (size_t e = 0; e < w.extruders.size(); e++)
            {
                check(gn + "e" + std::to_string(e), key(k), w.ofExtruder(gr, e, key(k)));
            }
            for (size_t m = 0; m < w.meshes[gr].size(); m++)
            {
                check(gn + "m" + std::to_string(m), key(k), w.ofMesh(gr, m, key(k)));
            }
        }
    }
    if (sets >= 3 && w.extruders.size() + n_groups > 2)
    {
        c.nontrivial();
    }
}

// ---------------------------------------------------------------- groups: each is printed where and as it is set
static void groups(Case& c)
{
    Gen& g = c.g;
    Job j = plainJob();
    for (const char* k : { "xy_offset", "xy_offset_layer_0", "hole_xy_offset", "infill_wipe_dist", "wall_0_wipe_dist" })
    {
        j.set(k, "0");
    }
    j.set("wall_line_count", "1");
    j.set("infill_line_distance", "0");
    j.set("top_layers", "0");
    j.set("bottom_layers", "0");
    j.set("initial_bottom_layers", "0");
    j.set("speed_slowdown_layers", "0");
    j.set("speed_equalize_flow_width_factor", "0");
    j.set("wall_overhang_angle", "90");
    j.set("meshfix_fluid_motion_enabled", "False");
    j.set("small_feature_max_length", "0");
    j.set("retraction_combing", "off");
    const bool zero = g.flip();
    j.set("machine_center_is_zero", zero ? "True" : "False");
    const double cx = zero ? 0 : 200, cy = zero ? 0 : 200;
    const double sxy = g.chance(1, 2) ? 1 : g.range(98, 104) / 100.0, sz = g.chance(1, 2) ? 1 : g.range(98, 104) / 100.0;
    j.set("material_shrinkage_percentage_xy", num(sxy * 100));
    j.set("material_shrinkage_percentage_z", num(sz * 100));
    struct Want
    {
        double x0, y0, x1, y1, z1;
    };
    std::vector<std::vector<Want>> want;
    std::vector<double> speeds;
    const int n = g.range(1, 3);
    j.groups.clear();
    std::string what;
    for (int k = 0; k < n; k++)
    {
        j.groups.emplace_back();
        want.emplace_back();
        j.group_settings.emplace_back();
        speeds.push_back(30);
        if (g.flip())
        {
            speeds[k] = 31 + k;
            for (const char* f : { "speed_wall_0", "speed_wall_0_roofing", "speed_wall_0_flooring", "speed_print_layer_0" })
            {
                j.group_settings[k][f] = num(speeds[k]);
            }
        }
        const int models = g.range(1, 2);
        double lo[2] = { 1e9, 1e9 }, hi[2] = { -1e9, -1e9 };
        for (int m = 0; m < models; m++)
        {
            Model model;
            eng::Mesh mesh;
            // somewhere off the origin
            const long long x = g.around(20000), y = g.around(20000), sx = g.range(3000, 12000), sy = g.range(3000, 12000), h = 200 * g.range(2, 6);
            mesh.box(x, y, 0, x + sx, y + sy, h);
            model.file = mesh.stl();
            const bool center = g.chance(1, 3);
            const int turn = g.chance(1, 2) ? 0 : g.range(1, 3);
            double r[4] = { x / 1e3, y / 1e3, (x + sx) / 1e3, (y + sy) / 1e3 };
            static const char* const turns[4] = { "[[1,0,0],[0,1,0],[0,0,1]]", "[[0,-1,0],[1,0,0],[0,0,1]]", "[[-1,0,0],[0,-1,0],[0,0,1]]", "[[0,1,0],[-1,0,0],[0,0,1]]" };
            for (int t = 0; t < turn; t++) // a quarter to the left
            {
                const double q[4] = { -r[3], r[0], -r[1], r[2] };
                std::copy(q, q + 4, r);
            }
            // the matrix is taken from what was set before the model
            Sets& before = j.extruders[0];
            before["mesh_rotation_matrix"] = turns[turn];
            const double px = g.around(60000) / 1e3 + (m ? 40 : -40), py = g.around(60000) / 1e3;
            model.settings = { { "mesh_position_x", num(px) }, { "mesh_position_y", num(py) }, { "mesh_position_z", "0" }, { "center_object", center ? "True" : "False" } };
            if (turn)
            {
                model.settings["@turn"] = turns[turn];
            }
            double dx = px + cx, dy = py + cy;
            if (center)
            {
                dx -= (r[0] + r[2]) / 2;
                dy -= (r[1] + r[3]) / 2;
            }
            want.back().push_back({ r[0] + dx, r[1] + dy, r[2] + dx, r[3] + dy, h / 1e3 });
            lo[0] = std::min(lo[0], r[0] + dx);
            lo[1] = std::min(lo[1], r[1] + dy);
            hi[0] = std::max(hi[0], r[2] + dx);
            hi[1] = std::max(hi[1], r[3] + dy);
            what += "group " + num(k) + ": " + num(sx) + "x" + num(sy) + " at (" + num(x) + "," + num(y) + ") " + (center ? "centred " : "") + "turned " + num(turn) + " to (" + num(px) + "," + num(py) + "); ";
            j.groups.back().push_back(model);
        }
        // the material shrinks towards the middle of all of them
        const double mx = (lo[0] + hi[0]) / 2, my = (lo[1] + hi[1]) / 2;
        for (Want& q : want.back())
        {
            q.x0 = mx + (q.x0 - mx) * sxy;
            q.x1 = mx + (q.x1 - mx) * sxy;
            q.y0 = my + (q.y0 - my) * sxy;
            q.y1 = my + (q.y1 - my) * sxy;
            q.z1 *= sz;
        }
    }
    j.extruders[0].erase("mesh_rotation_matrix");
    c.note("%s", (what + "shrinkage " + num(sxy) + " " + num(sz) + (zero ? "" : ", origin in the corner")).c_str());
    c.label(num(n) + " groups");
    // run it
    Scratch sc;
    const std::string out = sc.add("out.gcode");
    std::vector<std::string> a{ "CuraEngine", "slice", "-m1" };
    auto put = [&](const Sets& s)
    {
        for (const auto& [k, v] : s)
        {
            a.push_back("-s");
            a.push_back(k + "=" + v);
        }
    };
    for (const char* f : { "speed_wall_0", "speed_wall_0_roofing", "speed_wall_0_flooring", "speed_print_layer_0" })
    {
        j.set(f, "30");
    }
    put(j.general);
    int nr = 0;
    for (int k = 0; k < n; k++)
    {
        if (k)
        {
            a.push_back("--next");
        }
        a.push_back("-g");
        put(j.group_settings[k]);
        for (Model& m : j.groups[k])
        {
            a.push_back("-e0");
            const auto t = m.settings.find("@turn");
            put({ { "mesh_rotation_matrix", t == m.settings.end() ? "[[1,0,0],[0,1,0],[0,0,1]]" : t->second } });
            if (t != m.settings.end())
            {
                m.settings.erase(t);
            }
            a.push_back("-l");
            a.push_back(sc.add(num(nr++) + ".stl", &m.file));
            put(m.settings);
        }
    }
    a.push_back("-o");
    a.push_back(out);
    const Result r = runArgs(a, out, "");
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());
    // the lines of each group
    int k = -1;
    std::vector<std::vector<Ev>> lines(n);
    for (const Ev& e : gc.ev)
    {
        if (e.kind == Ev::COMMENT && e.text.starts_with(";LAYER_COUNT"))
        {
            k++;
        }
        if (e.extrudes())
        {
            PBT_CHECK(k >= 0 && k < n, "a line in group %d", k);
            lines[k].push_back(e);
        }
    }
    PBT_CHECK(k == n - 1, "%d groups are printed", k + 1);
    for (k = 0; k < n; k++)
    {
        std::vector<Want> box(want[k].size(), { 1e9, 1e9, -1e9, -1e9, 0 });
        for (const Ev& e : lines[k])
        {
            PBT_CHECK(std::fabs(e.f - speeds[k] * 60) < 0.5, "group %d: printed at %g mm/s, not %g", k, e.f / 60, speeds[k]);
            int of = -1;
            for (size_t m = 0; m < box.size(); m++)
            {
                const Want& q = want[k][m];
                if (e.x > q.x0 && e.x < q.x1 && e.y > q.y0 && e.y < q.y1 && e.x0 > q.x0 && e.x0 < q.x1 && e.y0 > q.y0 && e.y0 < q.y1 && e.z < q.z1 + 0.21)
                {
                    of = m;
                    Want& b = box[m];
                    b.x0 = std::min({ b.x0, e.x, e.x0 });
                    b.x1 = std::max({ b.x1, e.x, e.x0 });
                    b.y0 = std::min({ b.y0, e.y, e.y0 });
                    b.y1 = std::max({ b.y1, e.y, e.y0 });
                    b.z1 = std::max(b.z1, e.z);
                }
            }
            PBT_CHECK(of >= 0, "group %d: a line from (%.3f, %.3f) to (%.3f, %.3f) at %.2f, where no model is", k, e.x0, e.y0, e.x, e.y, e.z);
        }
        for (size_t m = 0; m < box.size(); m++)
        {
            const Want &q = want[k][m], &b = box[m];
            bool overlaps = false;
            for (size_t o = 0; o < box.size(); o++)
            {
                overlaps = overlaps || (o != m && want[k][o].x0 < q.x1 + 1 && want[k][o].x1 > q.x0 - 1 && want[k][o].y0 < q.y1 + 1 && want[k][o].y1 > q.y0 - 1);
            }
            if (overlaps)
            {
                continue;
            }
            c.nontrivial();
            PBT_CHECK(std::fabs(b.x0 - q.x0 - 0.2) < 0.012 && std::fabs(b.x1 - q.x1 + 0.2) < 0.012 && std::fabs(b.y0 - q.y0 - 0.2) < 0.012 && std::fabs(b.y1 - q.y1 + 0.2) < 0.012,
                      "group %d, model %zu: printed from (%.3f, %.3f) to (%.3f, %.3f), its outline is (%.3f, %.3f) to (%.3f, %.3f)", k, m, b.x0, b.y0, b.x1, b.y1, q.x0, q.y0, q.x1, q.y1);
            PBT_CHECK(std::fabs(b.z1 - q.z1) < 0.11, "group %d, model %zu: printed up to %.2f, it is %.3f high", k, m, b.z1, q.z1);
        }
    }
}

// ---------------------------------------------------------------- templates
static void templates(Case& c)
{
    using CuraFormulaeEngine::eval::Value;
    Gen& g = c.g;
    const int n_extruders = g.range(1, 3);
    auto slice = newSlice(1, n_extruders);
    std::map<std::string, int> all;
    std::vector<std::map<std::string, int>> of(n_extruders);
    static const char* const names[] = { "aa", "bb", "cc", "dd" };
    for (const char* k : names)
    {
        all[k] = g.range(0, 99);
        slice->scene.settings.add(k, num(all[k]));
        for (int e = 0; e < n_extruders; e++)
        {
            if (g.flip())
            {
                of[e][k] = g.range(0, 99);
                slice->scene.extruders[e].settings_.add(k, num(of[e][k]));
            }
        }
    }
    const int initial = g.range(0, (int64_t)(n_extruders) - 1);
    std::unordered_map<std::string, Value> global_extra, extra;
    std::map<std::string, int> gx, lx;
    if (g.flip())
    {
        gx["ee"] = g.range(0, 99);
        global_extra["ee"] = static_cast<int64_t>(gx["ee"]);
    }
    if (g.flip())
    {
        const char* k = g.oneof<const char*>({ "ff", "aa" });
        lx[k] = g.range(100, 199);
        extra[k] = static_cast<int64_t>(lx[k]);
    }
    auto value = [&](const std::string& k, int e) -> std::optional<int>
    {
        if (lx.count(k))
        {
            return lx[k];
        }
        if (e >= 0 && of[e].count(k))
        {
            return of[e][k];
        }
        if (all.count(k))
        {
            return all[k];
        }
        if (k == "initial_extruder_nr")
        {
            return initial;
        }
        return gx.count(k) ? std::optional(gx[k]) : std::nullopt;
    };
    const int context = g.range(-2, n_extruders - 1); // -1: none, -2: the initial one
    const int ctx = context == -2 ? initial : context;
    std::string in, want;
    bool broken = false;
    int conditions = 0;
    auto extruder = [&](int& e) -> std::string
    {
        e = ctx;
        switch (g.range(0, (int64_t)(5) - 1))
        {
        case 0:
            e = g.range(0, (int64_t)(n_extruders) - 1);
            return ", " + num(e);
        case 1:
            e = initial;
            return ",initial_extruder_nr";
        case 2:
            e = (initial + 1) % n_extruders;
            return ", (initial_extruder_nr + 1) % " + num(n_extruders);
        default:
            return "";
        }
    };
    auto expr = [&](int e, std::string& t, bool use) -> int
    {
        const std::string k = g.chance(1, 40) ? "nothing" : g.oneof<std::string>({ "aa", "bb", "cc", "dd", "aa", "bb", "cc", "initial_extruder_nr", "ee", "ff" });
        const auto v = value(k, e);
        if (! v && use)
        {
            broken = true;
        }
        const int add = g.range(0, 9);
        switch (g.range(0, (int64_t)(3) - 1))
        {
        case 0:
            t = k;
            return v.value_or(0);
        case 1:
            t = k + " + " + num(add);
            return v.value_or(0) + add;
        default:
            t = "(" + k + " * " + num(add) + ")";
            return v.value_or(0) * add;
        }
    };
    auto plainText = [&](bool use, std::string& w)
    {
        const std::string t = g.oneof<std::string>({ "G1 X1 ", "M104 S", " \n", ";comment, with comma\n", "T0\n", "   ", "x\n\n" });
        in += t;
        if (use)
        {
            w += t;
        }
    };
    auto body = [&](bool use)
    {
        for (int n = g.range(0, 4); n > 0; n--)
        {
            if (g.flip())
            {
                plainText(use, want);
            }
            else
            {
                int e;
                std::string t;
                const std::string x = extruder(e);
                const int v = expr(e, t, use);
                in += "{" + sp(g) + t + x + sp(g) + "}";
                if (use)
                {
                    want += num(v);
                }
            }
        }
    };
    for (int n = g.range(1, 5); n > 0; n--)
    {
        if (g.flip())
        {
            body(true);
            continue;
        }
        conditions++;
        bool done = false;
        const int arms = g.range(1, 4);
        for (int k = 0; k < arms; k++)
        {
            int e;
            std::string t;
            const std::string x = extruder(e);
            const int v = expr(e, t, ! done), limit = g.range(0, 120);
            const bool more = g.flip();
            const bool yes = ! done && (more ? v > limit : v <= limit);
            in += std::string("{") + sp(g) + (k ? "elif " : "if ") + t + (more ? " > " : " <= ") + num(limit) + x + sp(g) + "}" + (g.chance(3, 4) ? "\n" : "");
            body(yes);
            done = done || yes;
        }
        if (g.flip())
        {
            in += g.flip() ? "{else}\n" : "{ else }";
            body(! done);
        }
        in += g.chance(3, 4) ? "{endif}\n" : "{endif}";
    }
    if (broken || in.empty())
    {
        want = in;
    }
    if (! want.empty() && want.back() != '\n')
    {
        want += '\n';
    }
    c.note("extruders %d, in %d (initial %d): %s", n_extruders, context, initial, in.c_str());
    if (conditions)
    {
        c.label("conditions");
    }
    if (broken)
    {
        c.label("unknown name");
    }
    cura::GcodeTemplateResolver resolver;
    resolver.prepareForResolving(initial, global_extra);
    const cura::ResolvingExtruderContext where
        = context == -1 ? cura::ResolvingExtruderContext(cura::DynamicExtruderContext::Global) : context == -2 ? cura::ResolvingExtruderContext(cura::DynamicExtruderContext::Initial) : cura::ResolvingExtruderContext(static_cast<size_t>(context));
    const std::string got = resolver.resolveGCodeTemplate(in, where, extra);
    PBT_CHECK(got == want, "resolved to \"%s\", not \"%s\"", got.c_str(), want.c_str());
    if (in.find('{') != std::string::npos)
    {
        c.nontrivial();
    }
}

int main(int argc, char** argv)
{
    pbt::Runner r("G17",
                  { { "values", 12000, 120000, "always", values }, //
                    { "numbers", 30000, 300000, "always", numbers }, //
                    { "templates", 100000, 1000000, "with something in braces", templates }, //
                    { "levels", 1500, 15000, "at least 3 values on several levels", levels }, //
                    { "groups", 1200, 12000, "a model that overlaps no other", groups } });
    return r.main(argc, argv);
}
