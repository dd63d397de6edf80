// G23 model files and textures are read as written
// SOURCES: ALL
#include <fstream>
#include <png.h>
#include <unistd.h>

#include "engine_geo.h"
#include "geo.h"

#include "Application.h"
#include "MeshGroup.h"
#include "Slice.h"
#include "SlicedUVCoordinates.h"
#include "TextureDataProvider.h"
#include "geometry/Triangle2F.h"
#include "geometry/Triangle3LL.h"
#include "mesh.h"
#include "slicer.h"
#include "utils/MeshUtils.h"
#include "utils/Point3D.h"

using namespace cura;
using namespace geo;
using pbt::Case;
using pbt::Gen;
using eng::num;

namespace cura
{
bool loadMeshIntoMeshGroup(MeshGroup* meshgroup, const std::filesystem::path& filename, const Matrix4x3D& transformation, Settings& object_parent_settings);
}

// A folder of our own
struct Folder
{
    std::string path;
    std::vector<std::string> files;
    Folder()
    {
        char t[] = "/tmp/vh-g23-XXXXXX";
        const char* d = mkdtemp(t);
        path = d ? d : "";
    }
    ~Folder()
    {
        for (const std::string& f : files)
            unlink(f.c_str());
        rmdir(path.c_str());
    }
    std::string put(const std::string& name, const std::string& data)
    {
        const std::string f = path + "/" + name;
        std::ofstream(f, std::ios::binary) << data;
        files.push_back(f);
        return f;
    }
};
struct V3
{
    double x, y, z;
};
static std::string show(const std::string& s)
{
    std::string o;
    for (char ch : s.substr(0, 700))
        o += ch == '\r' ? "\\r" : ch == '\n' ? "\\n" : (ch >= 32 && ch < 127) ? std::string(1, ch) : "?";
    return o;
}
// Points at least a tenth of a millimetre apart
static std::vector<V3> genPoints(Gen& g, int n)
{
    std::vector<V3> ps;
    const double cell = g.oneof<double>({ 0.25, 1, 7.5, 60 });
    std::set<std::array<int, 3>> used;
    while ((int)ps.size() < n)
    {
        std::array<int, 3> k{ (int)g.range((int64_t)-4, (int64_t)4), (int)g.range((int64_t)-4, (int64_t)4), (int)g.range((int64_t)-4, (int64_t)4) };
        for (int i = 0; used.count(k); i++)
            k[i % 3] += 1 + i / 3;
        used.insert(k);
        const auto r = [&] { return g.range((int64_t)-50, (int64_t)50) / 1000.0; };
        ps.push_back({ k[0] * cell + r(), k[1] * cell + r(), k[2] * cell + r() });
    }
    return ps;
}
static Matrix4x3D genMatrix(Gen& g)
{
    Matrix4x3D M;
    if (g.flip())
        return M;
    const double a = g.flip() ? 0 : g.real(0, 6.28), s = g.flip() ? 1 : g.real(1, 3);
    const int axis = (int)g.range((int64_t)0, (int64_t)2);
    const int i = axis, j = (axis + 1) % 3;
    for (int x = 0; x < 3; x++)
        M.m[x][x] = s;
    M.m[i][i] = s * std::cos(a), M.m[j][j] = s * std::cos(a);
    M.m[i][j] = s * std::sin(a), M.m[j][i] = -s * std::sin(a);
    if (g.flip())
        for (int x = 0; x < 3; x++)
            M.m[3][x] = g.real(-200, 200);
    return M;
}
static V3 apply(const Matrix4x3D& M, const V3& p)
{
    const auto f = [&](int c) { return p.x * M.m[0][c] + p.y * M.m[1][c] + p.z * M.m[2][c] + M.m[3][c]; };
    return { f(0) * 1000, f(1) * 1000, f(2) * 1000 };
}
static bool near(const Point3LL& a, const V3& b, double tol = 1.01)
{
    return std::abs(a.x_ - b.x) <= tol && std::abs(a.y_ - b.y) <= tol && std::abs(a.z_ - b.z) <= tol;
}
using Tri = std::array<int, 3>;
// The model has these faces and nothing else
static void sameFaces(Case&, const Mesh& m, const std::vector<V3>& ps, const std::vector<Tri>& ts, const Matrix4x3D& M, double tol = 1.6)
{
    PBT_CHECK(m.faces_.size() == ts.size(), "%zu faces, not %zu", m.faces_.size(), ts.size());
    std::map<int, int> id; // of our points
    for (size_t i = 0; i < ts.size(); i++)
        for (int k = 0; k < 3; k++)
        {
            const int v = m.faces_[i].vertex_index_[k];
            PBT_CHECK(v >= 0 && v < (int)m.vertices_.size(), "face %zu has vertex %d of %zu", i, v, m.vertices_.size());
            const V3 want = apply(M, ps[ts[i][k]]);
            const Point3LL& p = m.vertices_[v].p_;
            PBT_CHECK(near(p, want, tol), "corner %d of face %zu is at (%lld, %lld, %lld), not at (%.1f, %.1f, %.1f)", k, i, (long long)p.x_, (long long)p.y_, (long long)p.z_, want.x, want.y, want.z);
            PBT_CHECK(! id.count(ts[i][k]) || id[ts[i][k]] == v, "a point is at two vertices, %d and %d", id[ts[i][k]], v);
            id[ts[i][k]] = v;
        }
    std::set<int> all;
    AABB3D box;
    for (const auto& [p, v] : id)
        all.insert(v), box.include(m.vertices_[v].p_);
    PBT_CHECK(all.size() == id.size() && all.size() == m.vertices_.size(), "%zu points became %zu vertices, and there are %zu", id.size(), all.size(), m.vertices_.size());
    if (! id.empty())
        PBT_CHECK(box.min_ == m.min() && box.max_ == m.max(), "the bounding box is wrong");
    // which faces there are at a vertex
    for (size_t v = 0; v < m.vertices_.size(); v++)
    {
        std::set<uint32_t> want, got(m.vertices_[v].connected_faces_.begin(), m.vertices_[v].connected_faces_.end());
        for (size_t i = 0; i < m.faces_.size(); i++)
            for (int k : m.faces_[i].vertex_index_)
                if (k == (int)v)
                    want.insert(i);
        PBT_CHECK(want == got, "vertex %zu knows %zu of its %zu faces", v, got.size(), want.size());
    }
    // a neighbour shares the edge, and where there is one alone it is that
    for (size_t i = 0; i < m.faces_.size(); i++)
        for (int k = 0; k < 3; k++)
        {
            const int a = m.faces_[i].vertex_index_[k], b = m.faces_[i].vertex_index_[(k + 1) % 3], n = m.faces_[i].connected_face_index_[k];
            std::vector<int> others;
            for (size_t o = 0; o < m.faces_.size(); o++)
            {
                const int* f = m.faces_[o].vertex_index_;
                if (o != i && std::count(f, f + 3, a) && std::count(f, f + 3, b))
                    others.push_back(o);
            }
            PBT_CHECK(others.empty() ? n == -1 : std::count(others.begin(), others.end(), n) == 1, "edge %d of face %zu: the neighbour is %d, there are %zu", k, i, n, others.size());
        }
}
static std::vector<Tri> genTris(Gen& g, int n, int points)
{
    std::vector<Tri> ts;
    for (int i = 0; i < n; i++)
    {
        const int a = (int)g.draw(points - 1), b = (a + 1 + (int)g.draw(points - 2)) % points;
        int c = (int)g.draw(points - 1);
        while (c == a || c == b)
            c = (c + 1) % points;
        ts.push_back({ a, b, c });
    }
    return ts;
}
static std::string number(Gen& g, double v, bool exact)
{
    char b[64];
    const char* f = exact ? g.oneof<const char*>({ "%.4f", "%.6f", "%g", "%.9g", "%e", "%+.3f", "%.3f" }) : "%.6f";
    snprintf(b, sizeof b, f, v);
    return b;
}
struct Read
{
    MeshGroup group;
    bool ok = false;
};
static Read load(const std::string& file, const Matrix4x3D& M)
{
    static Settings parent;
    Read r;
    r.ok = loadMeshIntoMeshGroup(&r.group, file, M, parent);
    return r;
}

// ---------------------------------------------------------------------------------------------- STL
static std::string asciiStl(Gen& g, const std::vector<V3>& ps, const std::vector<Tri>& ts)
{
    const std::string nl = g.oneof<std::string>({ "\n", "\n", "\r\n", "\r" }), in = g.oneof<std::string>({ "", " ", "  ", "\t" }), sp = g.oneof<std::string>({ " ", "  ", "\t" });
    std::string s = g.oneof<std::string>({ "", "", "\n", "  ", " \r\n" });
    s += g.oneof<std::string>({ "solid", "solid a model", "SOLID x", "solid vertex", "Solid\tfacet normal 0 0 1" }) + nl;
    for (const Tri& t : ts)
    {
        s += in + "facet" + sp + "normal 0 0 1" + nl + in + in + "outer loop" + nl;
        for (int k : t)
            s += in + in + in + "vertex" + sp + number(g, ps[k].x, true) + sp + number(g, ps[k].y, true) + sp + number(g, ps[k].z, true) + nl;
        s += in + in + "endloop" + nl + in + "endfacet" + nl;
    }
    return s + "endsolid" + (g.flip() ? nl : "");
}
static std::string binaryStl(Gen& g, const std::vector<V3>& ps, const std::vector<Tri>& ts)
{
    std::string s = g.oneof<std::string>({ "", "solid", "solid made by something", "STLB ATF", "  binary" });
    const char pad = g.oneof<char>({ ' ', '\0', '\n', 'x' });
    s.resize(80, pad);
    const auto put = [&](const void* p, size_t n) { s.append(static_cast<const char*>(p), n); };
    const uint32_t n = g.chance(1, 4) ? (uint32_t)g.range((int64_t)0, (int64_t)4000000000ll) : (uint32_t)ts.size();
    put(&n, 4);
    for (const Tri& t : ts)
    {
        float f[12] = { 0, 0, 1 };
        for (int k = 0; k < 3; k++)
            f[3 + 3 * k] = ps[t[k]].x, f[4 + 3 * k] = ps[t[k]].y, f[5 + 3 * k] = ps[t[k]].z;
        put(f, 48);
        const uint16_t a = (uint16_t)g.range((int64_t)0, (int64_t)65535);
        put(&a, 2);
    }
    return s;
}
static void stl(Case& c)
{
    Gen& g = c.g;
    const int n = (int)g.range((int64_t)3, (int64_t)12);
    const auto ps = genPoints(g, n);
    const auto ts = genTris(g, (int)g.range((int64_t)1, (int64_t)14), n);
    const Matrix4x3D M = genMatrix(g);
    const bool ascii = g.flip();
    std::string data = ascii ? asciiStl(g, ps, ts) : binaryStl(g, ps, ts);
    const bool cut = g.chance(1, 4);
    const size_t whole = data.size();
    if (cut)
        data.resize(ascii ? g.range((int64_t)0, (int64_t)(whole - 1)) : g.range((int64_t)0, (int64_t)(whole - 1)));
    else if (! ascii && g.chance(1, 4))
        data += std::string(g.range((int64_t)1, (int64_t)49), '\7');
    c.note("%s STL%s of %zu faces, %zu bytes: %s", ascii ? "ascii" : "binary", cut ? ", cut," : "", ts.size(), data.size(), show(data).c_str());
    Folder dir;
    const std::string name = g.oneof<std::string>({ "m", "a b", "x.y" });
    // places in a texture lie beside it
    std::vector<float> uvs;
    size_t whole_uvs = 0;
    if (! ascii && data.compare(0, 5, "solid") != 0 && g.flip())
    {
        for (size_t i = 0; i < ts.size() * 6; i++)
            uvs.push_back((float)(g.range((int64_t)0, (int64_t)1000) / 1000.0));
        const uint32_t count = (uint32_t)ts.size() * 3;
        std::string f(reinterpret_cast<const char*>(&count), 4);
        f.append(reinterpret_cast<const char*>(uvs.data()), uvs.size() * 4);
        whole_uvs = f.size();
        if (g.chance(1, 4)) // part of it says nothing
            f.resize(g.range((int64_t)0, (int64_t)(f.size() - 1))), uvs.clear();
        dir.put(name + ".uv", f);
    }
    const Read r = load(dir.put(name + g.oneof<std::string>({ ".stl", ".STL", ".Stl" }), data), M);
    if (! cut)
    {
        PBT_CHECK(r.ok && r.group.meshes.size() == 1, "the file is not read");
        sameFaces(c, r.group.meshes[0], ps, ts, M);
    }
    if (r.ok && ! r.group.meshes.empty())
        for (size_t i = 0; i < r.group.meshes[0].faces_.size() && i < ts.size(); i++)
            for (int k = 0; k < 3; k++)
            {
                const auto& got = r.group.meshes[0].faces_[i].uv_coordinates_[k];
                PBT_CHECK(got.has_value() == ! uvs.empty(), "corner %d of face %zu has %s", k, i, uvs.empty() ? "a place in the texture" : "no place in the texture");
                if (got)
                    PBT_CHECK(got->x_ == uvs[i * 6 + k * 2] && got->y_ == uvs[i * 6 + k * 2 + 1], "corner %d of face %zu is at (%f, %f) of the texture, not at (%f, %f)", k, i, got->x_, got->y_, uvs[i * 6 + k * 2], uvs[i * 6 + k * 2 + 1]);
            }
    if (cut && r.ok)
    {
        // what is whole of it is read
        PBT_CHECK(r.group.meshes.size() == 1, "no model");
        std::vector<Tri> part = ts;
        const size_t got = r.group.meshes[0].faces_.size();
        PBT_CHECK(got <= ts.size(), "%zu faces of %zu", got, ts.size());
        if (! ascii)
            PBT_CHECK(got == (data.size() - 84) / 50, "%zu faces in %zu bytes", got, data.size());
        part.resize(got);
        if (! ascii)
            sameFaces(c, r.group.meshes[0], ps, part, M);
    }
    else if (cut)
        PBT_CHECK(ascii || data.size() < 134 /* not a face */, "the file is not read");
    if (! cut)
        c.nontrivial();
    c.label(std::string(ascii ? cut ? "ascii, cut" : "ascii" : cut ? "binary, cut" : "binary") + std::string(whole_uvs ? ", texture" : ""));
}

// ---------------------------------------------------------------------------------------------- OBJ
static void obj(Case& c)
{
    Gen& g = c.g;
    const int n = (int)g.range((int64_t)3, (int64_t)12);
    const auto ps = genPoints(g, n);
    const Matrix4x3D M = genMatrix(g);
    const std::string nl = g.oneof<std::string>({ "\n", "\n", "\r\n" }), tail = g.oneof<std::string>({ "", "", " ", "\t" }), sp = g.oneof<std::string>({ " ", "  ", "\t" });
    const int more = (int)g.range((int64_t)0, (int64_t)3); // w, colours
    const int uv_n = g.flip() ? 0 : (int)g.range((int64_t)1, (int64_t)8), uv_size = (int)g.range((int64_t)2, (int64_t)3);
    std::string s = g.flip() ? "# a comment" + nl + "mtllib x.mtl" + nl : "";
    std::vector<std::pair<double, double>> uvs;
    const auto vt = [&](int)
    {
        const double u = g.range((int64_t)0, (int64_t)1000) / 1000.0, v = g.range((int64_t)0, (int64_t)1000) / 1000.0;
        uvs.push_back({ u, v });
        s += "vt" + sp + num(u) + sp + num(v) + (uv_size == 3 ? sp + "0.0" : "") + tail + nl;
    };
    const bool early = g.flip();
    if (early)
        for (int i = 0; i < uv_n; i++)
            vt(i);
    std::vector<Tri> ts;
    std::vector<std::array<int, 3>> tuv; // texture corner of each corner, or -1
    const auto face = [&](int known)
    {
        const int k = g.chance(2, 3) ? 3 : (int)g.range((int64_t)4, (int64_t)std::max(4, std::min(known, 6)));
        if (k > known)
            return;
        std::vector<int> ring;
        for (int i = 0; i < known; i++)
            ring.push_back(i);
        for (int i = 0; i < k; i++)
            std::swap(ring[i], ring[i + g.draw(known - 1 - i)]);
        ring.resize(k);
        const int style = (int)g.range((int64_t)0, (int64_t)3); // a a/b a//c a/b/c
        const bool negative = g.chance(1, 4);
        std::vector<int> tx(k, -1);
        s += "f";
        for (int i = 0; i < k; i++)
        {
            s += sp + num(negative ? ring[i] - known : ring[i] + 1);
            const bool has = (style == 1 || style == 3) && ! uvs.empty();
            if (has)
            {
                tx[i] = (int)g.draw(uvs.size() - 1);
                s += "/" + num(negative ? tx[i] - (int)uvs.size() : tx[i] + 1);
            }
            if (style == 2 || (style == 3 && has))
                s += (has ? "/" : "//") + num(negative ? -1 : 1);
        }
        s += tail + nl;
        for (int i = 1; i + 1 < k; i++)
            ts.push_back({ ring[0], ring[i], ring[i + 1] }), tuv.push_back({ tx[0], tx[i], tx[i + 1] });
    };
    const bool mixed = g.chance(1, 3); // faces in between
    for (int i = 0; i < n; i++)
    {
        s += "v" + sp + number(g, ps[i].x, true) + sp + number(g, ps[i].y, true) + sp + number(g, ps[i].z, true);
        if (more == 1)
            s += sp + "1.0";
        if (more == 2)
            s += sp + "0.5" + sp + "0.25" + sp + "1";
        s += tail + nl;
        if (mixed && i >= 2 && g.chance(1, 3) && (uv_n == 0 || early))
            face(i + 1);
    }
    if (! early)
        for (int i = 0; i < uv_n; i++)
            vt(i);
    s += "vn 0 0 1" + nl + g.oneof<std::string>({ "", "g part" + nl, "usemtl m" + nl + "s off" + nl });
    for (int i = (int)g.range((int64_t)1, (int64_t)10); i > 0; i--)
        face(n);
    if (ts.empty())
        return c.discard();
    if (g.chance(1, 3))
        s.resize(s.size() - nl.size());
    c.note("OBJ: %s", show(s).c_str());
    Folder dir;
    const Read r = load(dir.put(g.oneof<std::string>({ "m.obj", "M.OBJ" }), s), M);
    PBT_CHECK(r.ok && r.group.meshes.size() == 1, "the file is not read");
    const Mesh& m = r.group.meshes[0];
    sameFaces(c, m, ps, ts, M);
    for (size_t i = 0; i < ts.size(); i++)
        for (int k = 0; k < 3; k++)
        {
            const auto& got = m.faces_[i].uv_coordinates_[k];
            const int want = tuv[i][k];
            PBT_CHECK(got.has_value() == (want >= 0), "corner %d of face %zu has %s", k, i, want >= 0 ? "no place in the texture" : "a place in the texture");
            if (want >= 0)
                PBT_CHECK(std::abs(got->x_ - uvs[want].first) < 1e-5 && std::abs(got->y_ - uvs[want].second) < 1e-5, "corner %d of face %zu is at (%f, %f) of the texture, not at (%f, %f)", k, i, got->x_, got->y_, uvs[want].first, uvs[want].second);
        }
    c.nontrivial();
    c.label(std::string(nl == "\n" ? "LF" : "CRLF") + (uvs.empty() ? "" : ", texture") + (more ? ", more numbers" : ""));
}

// ---------------------------------------------------------------------------------------------- what is broken
static void broken(Case& c)
{
    Gen& g = c.g;
    std::string s;
    const bool is_obj = g.flip();
    const int n = (int)g.range((int64_t)3, (int64_t)8);
    const auto ps = genPoints(g, n);
    if (is_obj)
    {
        static const std::vector<std::string> words{ "v", "vt", "vn", "f", "0", "1", "2", "3", "-1", "99", "1/1", "1//", "/", "1/2/3", "1e-320", "1e400", "-4.9e-324", "18446744073709551616", "99999999999999999999999", "nan", "inf", "-", ".", "1.", "#", "\r", "\t", "0.5", "-0", "1e", "f 1 2 3\n", "v 1 2 3\n", "v 4 5 6\n", "v 1e-46 0 0\n", "v 9 0 2\n" };
        for (int i = (int)g.range((int64_t)0, (int64_t)60); i > 0; i--)
            s += words[g.draw(words.size() - 1)] + (g.chance(1, 3) ? "\n" : " ");
    }
    else
    {
        s = g.flip() ? asciiStl(g, ps, genTris(g, 4, n)) : binaryStl(g, ps, genTris(g, 4, n));
        for (int i = (int)g.range((int64_t)0, (int64_t)5); i > 0 && ! s.empty(); i--)
        {
            const size_t at = g.draw(s.size() - 1);
            switch (g.draw(3))
            {
            case 0:
                if (s.compare(0, 5, "solid") == 0 || at < 84)
                    s[at] = (char)g.range((int64_t)0, (int64_t)255);
                break;
            case 1:
                s.erase(at, g.range((int64_t)1, (int64_t)60));
                break;
            case 2:
                s.insert(at, std::string(g.range((int64_t)1, (int64_t)2000), (char)g.range((int64_t)0, (int64_t)255)));
                break;
            default:
                s.resize(at);
            }
        }
    }
    c.note("%s: %s", is_obj ? "OBJ" : "STL", show(s).c_str());
    Folder dir;
    const Read r = load(dir.put(is_obj ? "m.obj" : "m.stl", s), Matrix4x3D());
    PBT_CHECK(r.group.meshes.size() == (r.ok ? 1 : 0), "%zu models, and the file was %sread", r.group.meshes.size(), r.ok ? "" : "not ");
    if (r.ok)
        for (const MeshFace& f : r.group.meshes[0].faces_)
            for (int k = 0; k < 3; k++)
            {
                PBT_CHECK(f.vertex_index_[k] >= 0 && f.vertex_index_[k] < (int)r.group.meshes[0].vertices_.size(), "a face has vertex %d of %zu", f.vertex_index_[k], r.group.meshes[0].vertices_.size());
                PBT_CHECK(f.connected_face_index_[k] >= -1 && f.connected_face_index_[k] < (int)r.group.meshes[0].faces_.size(), "a face has neighbour %d of %zu", f.connected_face_index_[k], r.group.meshes[0].faces_.size());
            }
    if (s.size() > 20)
        c.nontrivial();
    c.label(is_obj ? r.ok ? "OBJ, read" : "OBJ, refused" : r.ok ? "STL, read" : "STL, refused");
}

// ---------------------------------------------------------------------------------------------- edges of many faces
static void wedges(Case& c)
{
    Gen& g = c.g;
    // solids that have an edge in common
    const int k = (int)g.range((int64_t)1, (int64_t)4);
    std::vector<double> cuts;
    for (int i = 0; i < 2 * k; i++)
        cuts.push_back(i);
    double total = 0;
    std::vector<double> gaps;
    for (int i = 0; i < 2 * k; i++)
        gaps.push_back(g.real(0.2, 1)), total += gaps.back();
    double at = g.real(0, 6.28);
    for (int i = 0; i < 2 * k; i++)
        cuts[i] = at, at += gaps[i] / total * 2 * M_PI;
    if (k == 1 && gaps[0] / total * 2 * M_PI > 3)
        return c.discard();
    for (int i = 0; i < k; i++)
        if (gaps[2 * i] / total * 2 * M_PI > 3)
            return c.discard();
    // turned in space
    const double yaw = g.real(0, 6.28), pitch = g.real(0, 6.28);
    const auto turn = [&](V3 p) -> Point3LL
    {
        const double x = p.x * std::cos(pitch) - p.z * std::sin(pitch), z = p.x * std::sin(pitch) + p.z * std::cos(pitch);
        return Point3LL(std::llround(x * std::cos(yaw) - p.y * std::sin(yaw)), std::llround(x * std::sin(yaw) + p.y * std::cos(yaw)), std::llround(z));
    };
    const Point3LL lo = turn({ 0, 0, 0 }), hi = turn({ 0, 0, 8000 });
    struct Side
    {
        Point3LL far;
        bool starts; // its solid comes after it, counter-clockwise
    };
    std::vector<Side> sides;
    std::vector<std::array<Point3LL, 3>> faces;
    for (int i = 0; i < k; i++)
    {
        // a tetrahedron
        Point3LL p[2];
        for (int e = 0; e < 2; e++)
        {
            const double r = g.real(3000, 9000), a = cuts[2 * i + e];
            p[e] = turn({ r * std::cos(a), r * std::sin(a), g.real(-4000, 12000) });
            sides.push_back({ p[e], e == 0 });
        }
        // its solid is counter-clockwise from p[0] to p[1], seen from above
        faces.push_back({ lo, p[0], hi });
        faces.push_back({ lo, hi, p[1] });
        faces.push_back({ lo, p[1], p[0] });
        faces.push_back({ hi, p[0], p[1] });
    }
    for (size_t i = faces.size(); i > 1; i--)
        std::swap(faces[i - 1], faces[g.draw(i - 1)]);
    Mesh m;
    for (const auto& f : faces)
    {
        const int r = (int)g.draw(2);
        m.addFace(f[r], f[(r + 1) % 3], f[(r + 2) % 3]);
    }
    m.finish();
    std::string what;
    for (double a : cuts)
        what += num(a) + " ";
    c.note("%d solids around an edge, at %s, turned by %f and %f", k, what.c_str(), yaw, pitch);
    PBT_CHECK(m.faces_.size() == faces.size(), "%zu faces of %zu", m.faces_.size(), faces.size());
    const auto third = [&](const MeshFace& f) -> int // the side of the common edge it is
    {
        for (size_t s = 0; s < sides.size(); s++)
            for (int v : f.vertex_index_)
                if (m.vertices_[v].p_ == sides[s].far)
                    return (int)s;
        return -1;
    };
    int seen = 0;
    for (const MeshFace& f : m.faces_)
        for (int e = 0; e < 3; e++)
        {
            const Point3LL &a = m.vertices_[f.vertex_index_[e]].p_, &b = m.vertices_[f.vertex_index_[(e + 1) % 3]].p_;
            PBT_CHECK(f.connected_face_index_[e] >= 0, "a face of a closed model has no neighbour");
            const MeshFace& other = m.faces_[f.connected_face_index_[e]];
            // the neighbour's neighbour there is this one
            bool back = false;
            for (int o = 0; o < 3; o++)
                back = back || (other.connected_face_index_[o] == &f - m.faces_.data() && m.vertices_[other.vertex_index_[o]].p_ == b && m.vertices_[other.vertex_index_[(o + 1) % 3]].p_ == a);
            PBT_CHECK(back, "a neighbour goes the same way, or has another neighbour");
            if (! ((a == lo && b == hi) || (a == hi && b == lo)))
                continue;
            seen++;
            const int s = third(f), o = third(other), n = 2 * k;
            // across what is outside: from where a solid ends to where the next begins
            const int want = s % 2 ? (s + 1) % n : (s + n - 1) % n;
            PBT_CHECK(o == want, "side %d of the edge is connected to side %d, not to %d", s, o, want);
        }
    PBT_CHECK(seen == 2 * k, "%d faces at the edge", seen);
    if (k > 1)
        c.nontrivial();
    c.label(num(k) + " solids");
}

// ---------------------------------------------------------------------------------------------- textures
static std::string png(int w, int h, int channels, const std::vector<uint8_t>& px, const std::string& text)
{
    std::string out;
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    png_infop i = png_create_info_struct(p);
    png_set_write_fn(
        p,
        &out,
        [](png_structp q, png_bytep d, png_size_t n) { static_cast<std::string*>(png_get_io_ptr(q))->append((const char*)d, n); },
        [](png_structp) {});
    static const int types[] = { 0, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA };
    png_set_IHDR(p, i, w, h, 8, types[channels], PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    png_text t{};
    std::string key = "Description", value = text;
    t.compression = PNG_TEXT_COMPRESSION_NONE;
    t.key = key.data();
    t.text = value.data();
    t.text_length = value.size();
    png_set_text(p, i, &t, 1);
    png_write_info(p, i);
    for (int y = 0; y < h; y++)
        png_write_row(p, px.data() + (size_t)y * w * channels);
    png_write_end(p, nullptr);
    png_destroy_write_struct(&p, &i);
    return out;
}
static void texture(Case& c)
{
    Gen& g = c.g;
    const int w = (int)g.range((int64_t)1, (int64_t)20), h = (int)g.range((int64_t)1, (int64_t)20), ch = (int)g.range((int64_t)1, (int64_t)4);
    std::vector<uint8_t> px;
    for (int i = 0; i < w * h * ch; i++)
        px.push_back((uint8_t)g.range((int64_t)0, (int64_t)255));
    // features in some bits each
    std::vector<std::array<int, 2>> bits;
    int at = 0;
    std::string json = "{";
    while (at < ch * 8)
    {
        const int end = std::min<int>(ch * 8 - 1, at + (int)g.range((int64_t)0, (int64_t)(g.chance(1, 4) ? 31 : 9)));
        if (g.chance(3, 4) || bits.empty())
        {
            json += (bits.empty() ? "" : ", ") + std::string("\"f") + num(bits.size()) + "\": [" + num(at) + ", " + num(end) + "]";
            bits.push_back({ at, end });
        }
        at = end + 1;
    }
    json += "}";
    c.note("%d x %d pixels of %d bytes, %s", w, h, ch, json.c_str());
    Folder dir;
    const bool by_obj = g.flip();
    Mesh mesh;
    if (by_obj)
    {
        dir.put("m.png", png(w, h, ch, px, json));
        Read r = load(dir.put("m.obj", "v 0 0 0\nv 1 0 0\nv 0 1 0\nvt 0 0 0\nvt 1 0 0\nvt 0 1 0\nf 1/1 2/2 3/3\n"), Matrix4x3D());
        PBT_CHECK(r.ok, "the model is not read");
        mesh = r.group.meshes[0];
    }
    else
        MeshUtils::loadTextureFromString(png(w, h, ch, px, json), mesh);
    PBT_CHECK(mesh.texture_ && mesh.texture_data_mapping_, "there is no texture");
    PBT_CHECK((int)mesh.texture_->getWidth() == w && (int)mesh.texture_->getHeight() == h, "the texture is %zu x %zu", mesh.texture_->getWidth(), mesh.texture_->getHeight());
    PBT_CHECK(mesh.texture_data_mapping_->size() == bits.size(), "%zu features", mesh.texture_data_mapping_->size());
    TextureDataProvider tex(nullptr, mesh.texture_, mesh.texture_data_mapping_);
    for (int y = 0; y < h; y++)
        for (int x = 0; x < w; x++)
        {
            uint64_t v = 0;
            for (int k = 0; k < ch; k++)
                v = v << 8 | px[((size_t)y * w + x) * ch + k];
            const double fx = g.range((int64_t)5, (int64_t)95) / 100.0, fy = g.range((int64_t)5, (int64_t)95) / 100.0;
            for (size_t f = 0; f < bits.size(); f++)
            {
                const uint64_t want = v >> bits[f][0] & ((1ull << (bits[f][1] - bits[f][0] + 1)) - 1);
                const auto a = tex.getValue(x, y, "f" + num(f)), b = tex.getValue(Point2F((x + fx) / w, (y + fy) / h), "f" + num(f));
                PBT_CHECK(a.has_value() && *a == want, "feature %zu of pixel (%d, %d) is %lld, not %llu", f, x, y, a ? (long long)*a : -1, (unsigned long long)want);
                PBT_CHECK(b.has_value() && *b == want, "feature %zu at (%f, %f) is %lld, not %llu", f, (x + fx) / w, (y + fy) / h, b ? (long long)*b : -1, (unsigned long long)want);
            }
            PBT_CHECK(! tex.getValue(x, y, "none").has_value(), "a feature that is not there has a value");
        }
    // at the border
    for (const auto& [u, v] : { std::pair(0.f, 0.f), std::pair(1.f, 0.f), std::pair(0.f, 1.f), std::pair(1.f, 1.f) })
    {
        const auto q = mesh.texture_->getPixelCoordinates(Point2F(u, v));
        PBT_CHECK((int)q.first == (u > 0 ? w - 1 : 0) && (int)q.second == (v > 0 ? h - 1 : 0), "(%g, %g) is pixel (%zu, %zu)", u, v, q.first, q.second);
    }
    if (w * h > 4)
        c.nontrivial();
    c.label(num(ch) + " bytes");
}
// Where a point of a triangle is in the texture
static void corners(Case& c)
{
    Gen& g = c.g;
    const int64_t size = g.oneof<int64_t>({ 100, 3000, 30000, 150000, 500000 });
    const auto pt = [&] { return Point3LL(g.range(-size, size), g.range(-size, size), g.range(-size, size)); };
    const Triangle3LL t{ pt(), pt(), pt() };
    const auto len = [](const Point3LL& p) { return std::sqrt((double)p.x_ * p.x_ + (double)p.y_ * p.y_ + (double)p.z_ * p.z_); };
    const Point3LL a = t[1] - t[0], b = t[2] - t[0];
    const double cx = (double)a.y_ * b.z_ - (double)a.z_ * b.y_, cy = (double)a.z_ * b.x_ - (double)a.x_ * b.z_, cz = (double)a.x_ * b.y_ - (double)a.y_ * b.x_;
    const double area = std::sqrt(cx * cx + cy * cy + cz * cz), longest = std::max({ len(a), len(b), len(t[2] - t[1]) });
    if (area < longest * 20)
        return c.discard(); // too thin to tell
    double u = g.real(0, 1), v = g.real(0, 1);
    if (u + v > 1)
        u = 1 - u, v = 1 - v;
    const Point3LL p(std::llround(t[0].x_ + u * a.x_ + v * b.x_), std::llround(t[0].y_ + u * a.y_ + v * b.y_), std::llround(t[0].z_ + u * a.z_ + v * b.z_));
    c.note("(%lld, %lld, %lld) (%lld, %lld, %lld) (%lld, %lld, %lld) at %f, %f", (long long)t[0].x_, (long long)t[0].y_, (long long)t[0].z_, (long long)t[1].x_, (long long)t[1].y_, (long long)t[1].z_, (long long)t[2].x_, (long long)t[2].y_, (long long)t[2].z_, u, v);
    const auto q = MeshUtils::getBarycentricCoordinates(p, t);
    PBT_CHECK(q.has_value(), "the triangle is taken for a line");
    const double tol = 2 * longest / area + 1e-6; // a µm off
    PBT_CHECK(std::abs(q->x_ - (1 - u - v)) < tol && std::abs(q->y_ - u) < tol && std::abs(q->z_ - v) < tol, "the point is at (%f, %f, %f), not at (%f, %f, %f)", q->x_, q->y_, q->z_, 1 - u - v, u, v);
    const Triangle2F uv{ Point2F(g.real(0, 1), g.real(0, 1)), Point2F(g.real(0, 1), g.real(0, 1)), Point2F(g.real(0, 1), g.real(0, 1)) };
    const Point2F got = MeshUtils::getUVCoordinates(*q, uv);
    const double wx = uv[0].x_ * (1 - u - v) + uv[1].x_ * u + uv[2].x_ * v, wy = uv[0].y_ * (1 - u - v) + uv[1].y_ * u + uv[2].y_ * v;
    PBT_CHECK(std::abs(got.x_ - wx) < 4 * tol && std::abs(got.y_ - wy) < 4 * tol, "the point is at (%f, %f) of the texture, not at (%f, %f)", got.x_, got.y_, wx, wy);
    c.nontrivial();
    c.label("up to " + num(size));
}
// Outlines know where in the texture they are
static void slices(Case& c)
{
    Gen& g = c.g;
    const int n = (int)g.range((int64_t)3, (int64_t)7);
    const coord_t far = g.oneof<coord_t>({ 4000, 20000, 90000 });
    auto r = genStar(g, Point2LL(0, 0), far / 2, far, n, n);
    if (ringArea(r) < 0)
        std::reverse(r.begin(), r.end());
    const double s = g.real(0.7, 1.4);
    eng::Mesh em;
    const long long top = g.range((int64_t)600, (int64_t)20000);
    std::vector<Point2LL> r2;
    for (const Point2LL& p : r)
        r2.emplace_back(std::llround(p.X * s), std::llround(p.Y * s));
    em.loft({ r, r2 }, { 0, top });
    Mesh m;
    m.settings_ = Settings();
    for (const auto& [k, v] : std::initializer_list<std::pair<const char*, const char*>>{ { "adhesion_type", "none" },
                                                                                           { "raft_surface_layers", "0" },
                                                                                           { "raft_surface_thickness", "0" },
                                                                                           { "raft_interface_layers", "0" },
                                                                                           { "raft_interface_thickness", "0" },
                                                                                           { "raft_base_thickness", "0" },
                                                                                           { "raft_airgap", "0" },
                                                                                           { "layer_0_z_overlap", "0" },
                                                                                           { "magic_mesh_surface_mode", "normal" },
                                                                                           { "meshfix_extensive_stitching", "False" },
                                                                                           { "meshfix_keep_open_polygons", "False" },
                                                                                           { "minimum_polygon_circumference", "0" },
                                                                                           { "meshfix_maximum_resolution", "0.01" },
                                                                                           { "meshfix_maximum_deviation", "0.005" },
                                                                                           { "meshfix_maximum_extrusion_area_deviation", "0" },
                                                                                           { "support_mesh", "False" },
                                                                                           { "anti_overhang_mesh", "False" },
                                                                                           { "cutting_mesh", "False" },
                                                                                           { "infill_mesh", "False" },
                                                                                           { "xy_offset", "0" },
                                                                                           { "xy_offset_layer_0", "0" },
                                                                                           { "hole_xy_offset", "0" },
                                                                                           { "hole_xy_offset_max_diameter", "0" },
                                                                                           { "raft_surface_extruder_nr", "0" },
                                                                                           { "layer_height", "0.2" },
                                                                                           { "layer_height_0", "0.2" } })
        m.settings_.add(k, v);
    // the texture is a projection
    const double k[6] = { g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1), g.real(-1, 1) };
    const auto uv = [&](double x, double y, double z) { return Point2F((float)((k[0] * x + k[1] * y + k[2] * z) / 100000), (float)((k[3] * x + k[4] * y + k[5] * z) / 100000)); };
    for (const auto& t : em.tris)
    {
        const int o = (int)g.draw(2);
        const auto at = [&](int i) -> const eng::P3& { return t[(i + o) % 3]; };
        const auto P = [&](int i) { return Point3LL(at(i).x, at(i).y, at(i).z); };
        const auto U = [&](int i) { return uv(at(i).x, at(i).y, at(i).z); };
        m.addFace(P(0), P(1), P(2), U(0), U(1), U(2));
    }
    m.finish();
    m.settings_.add("wall_line_width_0", "0.4");
    const coord_t h = 200;
    const size_t layers = std::max<size_t>(1, top / h);
    c.note("%s x%f over %lld", strPts(r).c_str(), s, top);
    auto scene = std::make_shared<Slice>(1);
    Application::getInstance().current_slice_ = scene;
    scene->scene.current_mesh_group = scene->scene.mesh_groups.begin();
    scene->scene.mesh_groups[0].settings.setParent(&m.settings_);
    scene->scene.extruders.emplace_back(0, &m.settings_);
    Application::getInstance().startThreadPool(1);
    Slicer slicer(&m, h, layers, false, nullptr, SlicingTolerance::MIDDLE, h);
    PBT_CHECK(slicer.layers.size() == layers, "%zu layers", slicer.layers.size());
    int seen = 0;
    for (size_t l = 0; l < layers; l += 1 + layers / 5)
    {
        const SlicerLayer& layer = slicer.layers[l];
        PBT_CHECK(layer.sliced_uv_coordinates_ != nullptr, "layer %zu knows nothing of the texture", l);
        const double z = layer.z_;
        for (const Polygon& p : layer.polygons_)
            for (size_t i = 0; i < p.size(); i++)
            {
                const Point2LL &a = p[i], &b = p[(i + 1) % p.size()];
                const double f = g.real(0, 1);
                const Point2LL q(std::llround(a.X + f * (b.X - a.X)), std::llround(a.Y + f * (b.Y - a.Y)));
                const auto got = layer.sliced_uv_coordinates_->getClosestUVCoordinates(q);
                PBT_CHECK(got.has_value(), "layer %zu: (%lld, %lld) is nowhere in the texture", l, (long long)q.X, (long long)q.Y);
                const Point2F want = uv(q.X, q.Y, z);
                // a millimetre off at most
                double ends = 1e9; // how far the next end of a line is
                PBT_CHECK(std::hypot(got->x_ - want.x_, got->y_ - want.y_) < 1.1 * 1000 * std::sqrt(k[0] * k[0] + k[1] * k[1] + k[3] * k[3] + k[4] * k[4]) / 100000 + 1e-4, "layer %zu: (%lld, %lld) is at (%f, %f) of the texture, not at (%f, %f)", l, (long long)q.X, (long long)q.Y, got->x_, got->y_, want.x_, want.y_);
                for (size_t o = 0; o < p.size(); o++)
                    ends = std::min(ends, std::hypot((double)p[o].X - q.X, (double)p[o].Y - q.Y));
                // a corner is where it is
                const auto corner = layer.sliced_uv_coordinates_->getClosestUVCoordinates(a);
                const Point2F at = uv(a.X, a.Y, z);
                PBT_CHECK(corner.has_value() && std::hypot(corner->x_ - at.x_, corner->y_ - at.y_) < 30. / 100000 + 1e-4, "layer %zu: the corner (%lld, %lld) is at (%f, %f) of the texture, not at (%f, %f)", l, (long long)a.X, (long long)a.Y, corner ? corner->x_ : -1, corner ? corner->y_ : -1, at.x_, at.y_);
                seen++;
            }
    }
    if (seen > 3)
        c.nontrivial();
    c.label("radius " + num(far));
}

// ---------------------------------------------------------------------------------------------- where models are put
static void placed(Case& c)
{
    Gen& g = c.g;
    MeshGroup group;
    const bool zero = g.flip();
    const coord_t W = g.range((coord_t)100, (coord_t)400) * 1000, D = g.range((coord_t)100, (coord_t)400) * 1000;
    const double sxy = g.flip() ? 1 : g.real(0.9, 1.2), sz = g.flip() ? 1 : g.real(0.9, 1.2);
    group.settings.add("machine_center_is_zero", zero ? "True" : "False");
    group.settings.add("machine_width", eng::mm(W));
    group.settings.add("machine_depth", eng::mm(D));
    char b[32];
    snprintf(b, sizeof b, "%.6f", sxy * 100);
    group.settings.add("material_shrinkage_percentage_xy", b);
    snprintf(b, sizeof b, "%.6f", sz * 100);
    group.settings.add("material_shrinkage_percentage_z", b);
    const int n = (int)g.range((int64_t)1, (int64_t)3);
    std::vector<std::vector<V3>> want(n);
    V3 lo{ 1e18, 1e18, 1e18 }, hi{ -1e18, -1e18, -1e18 };
    std::string what;
    for (int i = 0; i < n; i++)
    {
        Mesh m;
        const auto ps = genPoints(g, 6);
        for (int k = 0; k < 4; k++)
        {
            const auto P = [&](int q) { return Point3LL(std::llround(ps[q].x * 1000), std::llround(ps[q].y * 1000), std::llround(ps[q].z * 1000)); };
            m.addFace(P(k), P(k + 1), P(k + 2));
        }
        m.finish();
        const Point3LL off(g.flip() ? 0 : g.around((int64_t)200000), g.flip() ? 0 : g.around((int64_t)200000), g.flip() ? 0 : g.around((int64_t)50000));
        const bool center = g.flip();
        // what is not printed does not count
        const std::string role = i ? g.oneof<std::string>({ "", "", "infill_mesh", "cutting_mesh", "anti_overhang_mesh", "support_mesh" }) : "";
        for (const char* k : { "infill_mesh", "cutting_mesh", "anti_overhang_mesh", "support_mesh" })
            m.settings_.add(k, role == k ? "True" : "False");
        m.settings_.add("mesh_position_x", eng::mm(off.x_));
        m.settings_.add("mesh_position_y", eng::mm(off.y_));
        m.settings_.add("mesh_position_z", eng::mm(off.z_));
        m.settings_.add("center_object", center ? "True" : "False");
        const Point3LL a = m.min(), z = m.max();
        V3 d{ (double)off.x_, (double)off.y_, (double)off.z_ };
        if (center)
            d.x -= (a.x_ + z.x_) / 2.0, d.y -= (a.y_ + z.y_) / 2.0, d.z -= a.z_;
        if (! zero)
            d.x += W / 2, d.y += D / 2;
        for (const MeshVertex& v : m.vertices_)
        {
            want[i].push_back({ v.p_.x_ + d.x, v.p_.y_ + d.y, v.p_.z_ + d.z });
            const V3& p = want[i].back();
            if (role.empty() || role == "support_mesh")
            {
                lo = { std::min(lo.x, p.x), std::min(lo.y, p.y), std::min(lo.z, p.z) };
                hi = { std::max(hi.x, p.x), std::max(hi.y, p.y), std::max(hi.z, p.z) };
            }
        }
        what += role + (center ? " centred" : "") + " at " + num(off.x_) + " " + num(off.y_) + " " + num(off.z_) + "; ";
        group.meshes.push_back(m);
    }
    c.note("%s shrinking by %f and %f%s", what.c_str(), sxy, sz, zero ? "" : ", on a bed from a corner");
    group.finalize();
    const double cx = (lo.x + hi.x) / 2, cy = (lo.y + hi.y) / 2;
    for (int i = 0; i < n; i++)
    {
        const Mesh& m = group.meshes[i];
        AABB3D box;
        for (size_t k = 0; k < want[i].size(); k++)
        {
            const V3 p{ cx + (want[i][k].x - cx) * sxy, cy + (want[i][k].y - cy) * sxy, want[i][k].z * sz };
            PBT_CHECK(near(m.vertices_[k].p_, p, 3), "vertex %zu of model %d is at (%lld, %lld, %lld), not at (%.0f, %.0f, %.0f)", k, i, (long long)m.vertices_[k].p_.x_, (long long)m.vertices_[k].p_.y_, (long long)m.vertices_[k].p_.z_, p.x, p.y, p.z);
            box.include(m.vertices_[k].p_);
        }
        PBT_CHECK(near(m.min(), { (double)box.min_.x_, (double)box.min_.y_, (double)box.min_.z_ }, 3) && near(m.max(), { (double)box.max_.x_, (double)box.max_.y_, (double)box.max_.z_ }, 3), "the bounding box of model %d is wrong", i);
    }
    if (n > 1)
        c.nontrivial();
    c.label(num(n) + " models");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G23",
                  {
                      { "stl", 6000, 60000, "whole files", stl },
                      { "obj", 6000, 60000, "every case", obj },
                      { "broken", 6000, 60000, "over 20 bytes", broken },
                      { "wedges", 6000, 60000, "over one solid", wedges },
                      { "texture", 3000, 30000, "over four pixels", texture },
                      { "corners", 20000, 200000, "every case", corners },
                      { "slices", 3000, 30000, "over three corners", slices },
                      { "placed", 6000, 60000, "over one model", placed },
                  });
    return r.main(argc, argv);
}
