// Running the whole engine on generated models: meshes, settings, g-code
#ifndef VERIF_ENGINE_H
#define VERIF_ENGINE_H
#include "geo.h"
#include "Application.h"
#include <charconv>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

namespace eng
{
using namespace geo;
using cura::Point2LL;
using Pts = std::vector<Point2LL>;
using Sets = std::map<std::string, std::string>;

inline std::string num(double v)
{
    char b[64];
    snprintf(b, sizeof b, "%.6g", v);
    return b;
}
inline std::string mm(long long microns)
{
    char b[64];
    snprintf(b, sizeof b, "%s%lld.%03lld", microns < 0 ? "-" : "", std::llabs(microns) / 1000, std::llabs(microns) % 1000);
    return b;
}

// ---------------------------------------------------------------- meshes (in microns)
struct P3
{
    long long x, y, z;
};
struct Mesh
{
    std::vector<std::array<P3, 3>> tris;
    void tri(P3 a, P3 b, P3 c)
    {
        tris.push_back({ a, b, c });
    }
    // Rings with the same number of corners, one above the other; ccw rings are solid, cw ones holes
    void loft(const std::vector<Pts>& rings, const std::vector<long long>& zs)
    {
        const size_t n = rings[0].size();
        auto at = [&](size_t k, size_t i) { return P3{ rings[k][i].X, rings[k][i].Y, zs[k] }; };
        for (size_t i = 1; i + 1 < n; i++)
        {
            tri(at(0, 0), at(0, i + 1), at(0, i));
            tri(at(rings.size() - 1, 0), at(rings.size() - 1, i), at(rings.size() - 1, i + 1));
        }
        for (size_t k = 0; k + 1 < rings.size(); k++)
        {
            for (size_t i = 0; i < n; i++)
            {
                const size_t j = (i + 1) % n;
                tri(at(k, i), at(k, j), at(k + 1, j));
                tri(at(k, i), at(k + 1, j), at(k + 1, i));
            }
        }
    }
    void prism(const cura::Shape& s, long long z0, long long z1)
    {
        for (const cura::Polygon& p : s)
        {
            const Pts r(p.begin(), p.end());
            loft({ r, r }, { z0, z1 });
        }
    }
    void box(long long x0, long long y0, long long z0, long long x1, long long y1, long long z1)
    {
        const Pts r{ Point2LL(x0, y0), Point2LL(x1, y0), Point2LL(x1, y1), Point2LL(x0, y1) };
        loft({ r, r }, { z0, z1 });
    }
    void add(const Mesh& o)
    {
        tris.insert(tris.end(), o.tris.begin(), o.tris.end());
    }
    void move(long long x, long long y, long long z)
    {
        for (auto& t : tris)
        {
            for (P3& p : t)
            {
                p = { p.x + x, p.y + y, p.z + z };
            }
        }
    }
    std::string stl() const
    {
        std::string s(80, ' ');
        auto put = [&](const void* p, size_t n) { s.append(static_cast<const char*>(p), n); };
        const uint32_t n = tris.size();
        put(&n, 4);
        for (const auto& t : tris)
        {
            float f[12] = {};
            for (int i = 0; i < 3; i++)
            {
                f[3 + i * 3] = t[i].x / 1000.0;
                f[4 + i * 3] = t[i].y / 1000.0;
                f[5 + i * 3] = t[i].z / 1000.0;
            }
            put(f, 48);
            const uint16_t a = 0;
            put(&a, 2);
        }
        return s;
    }
};

// ---------------------------------------------------------------- jobs
struct Model
{
    std::string file; // contents
    Sets settings;
    std::string name = "model.stl";
};
struct Job
{
    Sets general;
    std::vector<Sets> extruders{ Sets{} };
    std::vector<std::vector<Model>> groups{ {} };
    std::vector<Sets> group_settings{};
    int threads = 1;
    void set(const std::string& k, const std::string& v)
    {
        general[k] = v;
    }
    std::string get(const std::string& k) const
    {
        auto it = general.find(k);
        return it == general.end() ? "" : it->second;
    }
    double getD(const std::string& k) const
    {
        return atof(get(k).c_str());
    }
    // values that the front end derives from others
    void layerHeight(long long h, long long h0)
    {
        set("layer_height", mm(h));
        set("layer_height_0", mm(h0));
        set("infill_sparse_thickness", mm(h));
        set("support_infill_sparse_thickness", mm(h));
    }
    void lineWidth(long long w)
    {
        for (auto& [k, v] : general)
        {
            if ((k.ends_with("line_width") && ! k.starts_with("raft") && k.find("min_") == std::string::npos) || k == "wall_line_width_0" || k == "wall_line_width_x")
            {
                v = mm(w);
            }
        }
        set("min_wall_line_width", mm(w * 34 / 40));
        set("min_even_wall_line_width", mm(w * 34 / 40));
        set("min_odd_wall_line_width", mm(w * 34 / 40));
        set("min_bead_width", mm(w * 34 / 40));
        set("min_feature_size", mm(w / 4));
        set("machine_nozzle_size", mm(w));
        set("wall_transition_filter_deviation", mm(w / 4));
        set("wall_transition_length", mm(w));
    }
    void allFlows(const std::string& v)
    {
        for (auto& [k, x] : general)
        {
            if (k.find("material_flow") != std::string::npos && k.find("dependent") == std::string::npos && k.find("graph") == std::string::npos && k.find("temp") == std::string::npos)
            {
                x = v;
            }
        }
    }
};

inline const Sets& baseSettings()
{
    static const Sets base = []
    {
        Sets s;
        std::ifstream f(std::string(__FILE__).substr(0, std::string(__FILE__).rfind('/')) + "/data/base.settings");
        for (std::string l; std::getline(f, l);)
        {
            const size_t e = l.find('=');
            if (e != std::string::npos && l[0] != '#')
            {
                s[l.substr(0, e)] = l.substr(e + 1);
            }
        }
        if (s.size() < 300)
        {
            fprintf(stderr, "check error: no base settings\n");
            _exit(3);
        }
        return s;
    }();
    return base;
}
// A plain printer: origin in the middle, everything at 100 %, nothing optional
inline Job plainJob()
{
    Job j;
    j.general = baseSettings();
    j.set("machine_center_is_zero", "True");
    j.set("machine_width", "400");
    j.set("machine_depth", "400");
    j.set("machine_height", "300");
    j.set("machine_disallowed_areas", "");
    j.set("adhesion_type", "none");
    j.set("cool_min_layer_time", "0");
    j.set("clean_between_layers", "False");
    j.set("roofing_pattern", "lines");
    j.set("flooring_pattern", "lines");
    j.set("roofing_monotonic", "True");
    j.set("flooring_monotonic", "True");
    j.set("machine_start_gcode", ";start");
    j.set("machine_end_gcode", ";end");
    j.allFlows("100");
    j.set("initial_layer_line_width_factor", "100");
    j.lineWidth(400);
    j.layerHeight(200, 200);
    return j;
}

struct Result
{
    int status = -1; // exit status, or 1000 + signal
    std::string gcode;
    std::string log;
    bool ok() const
    {
        return status == 0;
    }
};

inline std::string readFile(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    return std::string(std::istreambuf_iterator<char>(f), {});
}

class Scratch
{
public:
    Scratch()
    {
        char t[] = "/tmp/vh-eng-XXXXXX";
        const char* d = mkdtemp(t);
        if (! d)
        {
            throw pbt::Discard();
        }
        dir_ = d;
    }
    ~Scratch()
    {
        for (const std::string& f : files_)
        {
            unlink(f.c_str());
        }
        rmdir(dir_.c_str());
    }
    std::string add(const std::string& name, const std::string* content = nullptr)
    {
        const std::string p = dir_ + "/" + name;
        if (content)
        {
            std::ofstream(p, std::ios::binary) << *content;
        }
        files_.insert(p);
        return p;
    }

private:
    std::string dir_;
    std::set<std::string> files_;
};

// Runs the engine's command line in a child of its own
inline Result runArgs(const std::vector<std::string>& args, const std::string& out_file, const std::string& log_file, int cpu_s = 40, const std::function<void()>& after = {})
{
    if (const char* keep = getenv("VERIF_KEEP_JOB")) // for looking into a failure
    {
        std::ofstream f(std::string(keep) + ".args");
        for (std::string a : args)
        {
            if (a.ends_with(".stl"))
            {
                std::ofstream(std::string(keep) + "-" + a.substr(a.rfind('/') + 1), std::ios::binary) << readFile(a);
                a = std::string(keep) + "-" + a.substr(a.rfind('/') + 1);
            }
            f << (a == out_file ? std::string(keep) + ".gcode" : a) << "\n";
        }
    }
    fflush(stdout);
    fflush(stderr);
    const pid_t pid = fork();
    if (pid < 0)
    {
        throw pbt::Discard();
    }
    if (pid == 0)
    {
        struct itimerval off{};
        setitimer(ITIMER_PROF, &off, nullptr);
        signal(SIGPROF, SIG_DFL);
        for (int s : { SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL })
        {
            signal(s, SIG_DFL);
        }
        struct rlimit rl{ (rlim_t)cpu_s, (rlim_t)cpu_s + 1 };
        setrlimit(RLIMIT_CPU, &rl);
        rl = { (rlim_t)6 << 30, (rlim_t)6 << 30 };
        setrlimit(RLIMIT_AS, &rl);
        rl = { (rlim_t)512 << 20, (rlim_t)512 << 20 };
        setrlimit(RLIMIT_FSIZE, &rl);
        rl = { 0, 0 };
        setrlimit(RLIMIT_CORE, &rl);
        const int lf = log_file.empty() ? open("/dev/null", O_WRONLY) : open(log_file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        dup2(lf, 1);
        dup2(lf, 2);
        std::vector<char*> argv;
        for (const std::string& a : args)
        {
            argv.push_back(const_cast<char*>(a.c_str()));
        }
        argv.push_back(nullptr);
        int rc = 0;
        try
        {
            cura::Application::getInstance().run(args.size(), argv.data());
            if (after) // what the engine has made of it
            {
                after();
            }
        }
        catch (const std::exception& e)
        {
            fprintf(stderr, "\nuncaught exception: %s\n", e.what());
            rc = 134;
        }
        // files are closed in destructors of the statics, as in the engine itself
        fflush(stdout);
        exit(rc);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0)
    {
        if (errno != EINTR)
        {
            throw pbt::Discard();
        }
    }
    Result r;
    r.status = WIFEXITED(st) ? WEXITSTATUS(st) : 1000 + WTERMSIG(st);
    if (r.status == 1000 + SIGKILL)
    {
        throw pbt::Discard(); // memory ran out, or the box was cleaned up
    }
    r.gcode = readFile(out_file);
    if (! log_file.empty())
    {
        r.log = readFile(log_file);
    }
    return r;
}

inline std::vector<std::string> jobArgs(const Job& j, Scratch& sc, const std::string& out, bool verbose)
{
    std::vector<std::string> a{ "CuraEngine", "slice" };
    if (verbose)
    {
        a.push_back("-v");
    }
    if (j.threads > 0)
    {
        a.push_back("-m" + std::to_string(j.threads));
    }
    auto put = [&](const Sets& s)
    {
        for (const auto& [k, v] : s)
        {
            a.push_back("-s");
            a.push_back(k + "=" + v);
        }
    };
    put(j.general);
    for (size_t e = 0; e < j.extruders.size(); e++)
    {
        a.push_back("-e" + std::to_string(e));
        Sets s = j.extruders[e];
        s.emplace("extruder_nr", std::to_string(e));
        put(s);
    }
    int nr = 0;
    for (size_t k = 0; k < j.groups.size(); k++)
    {
        if (k > 0)
        {
            a.push_back("--next");
        }
        if (k < j.group_settings.size())
        {
            a.push_back("-g");
            put(j.group_settings[k]);
        }
        for (const Model& m : j.groups[k])
        {
            const std::string f = sc.add(std::to_string(nr++) + m.name, &m.file);
            if (m.settings.count("extruder_nr"))
            {
                a.push_back("-e" + m.settings.at("extruder_nr")); // what the model does not set, it takes from this extruder
            }
            a.push_back("-l");
            a.push_back(f);
            put(m.settings);
        }
    }
    a.push_back("-o");
    a.push_back(out);
    return a;
}

inline Result slice(const Job& j, int cpu_s = 40, bool log = false)
{
    Scratch sc;
    const std::string out = sc.add("out.gcode"), lf = log ? sc.add("log") : "";
    const std::vector<std::string> args = jobArgs(j, sc, out, log);
    return runArgs(args, out, lf, cpu_s);
}
inline std::string describe(const Job& j, const Job& plain)
{
    std::string d;
    for (const auto& [k, v] : j.general)
    {
        auto it = plain.general.find(k);
        if (it == plain.general.end() || it->second != v)
        {
            d += " " + k + "=" + v;
        }
    }
    for (size_t e = 0; e < j.extruders.size(); e++)
    {
        for (const auto& [k, v] : j.extruders[e])
        {
            d += " e" + std::to_string(e) + "." + k + "=" + v;
        }
    }
    for (size_t g = 0; g < j.groups.size(); g++)
    {
        for (size_t m = 0; m < j.groups[g].size(); m++)
        {
            for (const auto& [k, v] : j.groups[g][m].settings)
            {
                d += " g" + std::to_string(g) + ".m" + std::to_string(m) + "." + k + "=" + v;
            }
        }
    }
    return d;
}

// ---------------------------------------------------------------- g-code
struct Ev
{
    enum Kind
    {
        MOVE, // G0/G1 that goes somewhere
        FILAMENT, // G1 F E only: retracts and primes
        FW_RETRACT, // G10/G11
        LAYER,
        TYPE,
        MESH,
        TOOL,
        TEMP, // M104/M109
        BED,
        FAN,
        OTHER, // another command
        COMMENT,
    } kind;
    double x = 0, y = 0, z = 0; // where it ends
    double x0 = 0, y0 = 0, z0 = 0;
    double e = 0; // how much is fed
    double f = 0; // speed in force, mm/min
    bool rapid = false; // G0
    bool has_x = false, has_y = false, has_z = false, has_e = false, has_f = false;
    int layer = -1000000, tool = 0, no = 0;
    double value = 0; // S, layer number, tool number
    int arg = -1; // T of a temperature, P of a fan
    bool wait = false;
    std::string type, mesh; // of the moment
    std::string text;
    double len() const
    {
        return std::hypot(x - x0, y - y0);
    }
    bool extrudes() const
    {
        return kind == MOVE && e > 0 && (has_x || has_y);
    }
};
struct GCode
{
    std::vector<Ev> ev;
    std::map<std::string, std::string> header; // ;KEY:value before the first layer
    std::string error; // a line that is no g-code
    int layer_count = -1;
    double total_e = 0;
    std::vector<std::string> lines;

    explicit GCode(const std::string& text, bool keep_lines = false)
    {
        bool abs_e = true, started = false;
        double x = 0, y = 0, z = 0, e = 0, f = 0;
        std::map<int, double> e_of;
        int tool = 0, layer = -1000000, no = 0;
        std::string type, mesh;
        size_t pos = 0;
        while (pos < text.size())
        {
            size_t nl = text.find('\n', pos);
            if (nl == std::string::npos)
            {
                nl = text.size();
            }
            const std::string l = text.substr(pos, nl - pos);
            pos = nl + 1;
            no++;
            if (keep_lines)
            {
                lines.push_back(l);
            }
            if (l.empty())
            {
                continue;
            }
            Ev v;
            v.no = no;
            v.x = v.x0 = x;
            v.y = v.y0 = y;
            v.z = v.z0 = z;
            v.f = f;
            v.tool = tool;
            v.layer = layer;
            v.type = type;
            v.mesh = mesh;
            v.text = l;
            if (l[0] == ';')
            {
                const size_t c = l.find(':');
                const std::string key = l.substr(1, c == std::string::npos ? std::string::npos : c - 1), val = c == std::string::npos ? "" : l.substr(c + 1);
                v.kind = Ev::COMMENT;
                if (key == "LAYER")
                {
                    v.kind = Ev::LAYER;
                    v.value = layer = v.layer = atoi(val.c_str());
                    started = true;
                }
                else if (key == "LAYER_COUNT")
                {
                    layer_count = std::max(0, layer_count) + atoi(val.c_str());
                }
                else if (key == "TYPE")
                {
                    v.kind = Ev::TYPE;
                    v.type = type = val;
                }
                else if (key == "MESH")
                {
                    v.kind = Ev::MESH;
                    v.mesh = mesh = val;
                }
                else if (! started)
                {
                    header.emplace(key, val);
                }
                ev.push_back(v);
                continue;
            }
            // words
            std::vector<std::pair<char, double>> w;
            size_t q = 0;
            bool bad = false;
            while (q < l.size())
            {
                if (l[q] == ' ')
                {
                    q++;
                    continue;
                }
                if (l[q] == ';')
                {
                    break;
                }
                const char c = l[q];
                size_t r = q + 1;
                while (r < l.size() && l[r] != ' ' && l[r] != ';')
                {
                    r++;
                }
                const std::string ns = l.substr(q + 1, r - q - 1);
                char* end = nullptr;
                const double d = strtod(ns.c_str(), &end);
                if (! isalpha(c) || (*end && c != 'P' && c != 'M') || (! ns.empty() && (ns.find_first_not_of("+-.0123456789") != std::string::npos)) || ! std::isfinite(d))
                {
                    bad = true;
                }
                w.push_back({ c, d });
                q = r;
            }
            if (w.empty())
            {
                continue;
            }
            auto has = [&](char c) { return std::any_of(w.begin() + 1, w.end(), [c](auto& p) { return p.first == c; }); };
            auto val = [&](char c, double d = 0)
            {
                for (size_t i = 1; i < w.size(); i++)
                {
                    if (w[i].first == c)
                    {
                        return w[i].second;
                    }
                }
                return d;
            };
            const char c = w[0].first;
            const int n = (int)w[0].second;
            if (bad && (c == 'G' || c == 'M' || c == 'T'))
            {
                if (error.empty())
                {
                    error = "line " + std::to_string(no) + ": " + l;
                }
                continue;
            }
            v.kind = Ev::OTHER;
            if (c == 'G' && (n == 0 || n == 1))
            {
                v.rapid = n == 0;
                v.has_x = has('X');
                v.has_y = has('Y');
                v.has_z = has('Z');
                v.has_e = has('E');
                v.has_f = has('F');
                v.x = x = val('X', x);
                v.y = y = val('Y', y);
                v.z = z = val('Z', z);
                v.f = f = val('F', f);
                if (v.has_e)
                {
                    const double d = val('E');
                    v.e = abs_e ? d - e : d;
                    e = abs_e ? d : e + d;
                }
                total_e += v.e;
                v.kind = v.has_x || v.has_y || v.has_z ? Ev::MOVE : Ev::FILAMENT;
            }
            else if (c == 'G' && (n == 10 || n == 11))
            {
                v.kind = Ev::FW_RETRACT;
                v.value = n == 10 ? 1 : 0;
                v.arg = has('S') ? (int)val('S') : 0;
            }
            else if (c == 'G' && n == 92)
            {
                e = val('E', e);
            }
            else if (c == 'M' && n == 82)
            {
                abs_e = true;
            }
            else if (c == 'M' && n == 83)
            {
                abs_e = false;
            }
            else if (c == 'T')
            {
                v.kind = Ev::TOOL;
                v.value = tool = v.tool = n;
            }
            else if (c == 'M' && (n == 104 || n == 109))
            {
                v.kind = Ev::TEMP;
                v.wait = n == 109;
                v.value = val('S');
                v.arg = has('T') ? (int)val('T') : -1;
            }
            else if (c == 'M' && (n == 140 || n == 190))
            {
                v.kind = Ev::BED;
                v.wait = n == 190;
                v.value = val('S');
            }
            else if (c == 'M' && (n == 106 || n == 107 || n == 126 || n == 127))
            {
                v.kind = Ev::FAN;
                v.value = n == 106 ? val('S') : n == 126 ? 255 : 0;
                v.arg = has('P') ? (int)val('P') : 0;
            }
            ev.push_back(v);
        }
    }
};
inline Point2LL pt(double x, double y)
{
    return Point2LL(std::llround(x * 1000), std::llround(y * 1000));
}
} // namespace eng
#endif
