// G08 the g-code is a legal and self-consistent program for the printer
// SOURCES: ALL
#include "engine_gen.h"

using namespace eng;
using pbt::Case;
using pbt::Gen;

static const double AREA = M_PI / 4 * 1.75 * 1.75;

struct Setup
{
    Job job;
    std::string what;
    Box box;
    coord_t top = 0;
};

static Setup gen(Case& c)
{
    Gen& g = c.g;
    Setup s;
    s.job = plainJob();
    genPrintSettings(g, s.job);
    const int n = g.chance(1, 4) ? 2 : 1;
    for (int i = 0; i < n; i++)
    {
        const coord_t half = g.range(2000, 9000);
        const Point2LL at(i * 24000 + g.around(1000), g.around(15000));
        const coord_t h = g.range(300, 2600);
        Mesh m = genSolid(g, at, half, h, &s.what);
        for (const auto& t : m.tris)
        {
            for (const P3& p : t)
            {
                s.box.add(Point2LL(p.x, p.y));
                s.top = std::max<coord_t>(s.top, p.z);
            }
        }
        s.job.groups[0].push_back({ m.stl(), {} });
    }
    return s;
}

static void stream(Case& c)
{
    Gen& g = c.g;
    Setup s = gen(c);
    Job& j = s.job;
    const std::string flavor = g.oneof<std::string>({ "RepRap (Marlin/Sprinter)", "RepRap (RepRap)", "Griffin", "Cheetah", "Repetier", "RepRap (Volumetric)", "Makerbot" });
    j.set("machine_gcode_flavor", flavor);
    const bool volumetric = flavor == "RepRap (Volumetric)";
    j.set("relative_extrusion", g.flip() ? "True" : "False");
    const bool relative = j.get("relative_extrusion") == "True";
    const bool fw = g.chance(1, 8);
    j.set("machine_firmware_retract", fw ? "True" : "False");
    j.set("retraction_enable", g.chance(1, 6) ? "False" : "True");
    j.set("retraction_hop_enabled", g.chance(1, 3) ? "True" : "False");
    j.set("retraction_hop", "0.7");
    const bool hop = j.get("retraction_hop_enabled") == "True";
    const double amount = g.oneof<double>({ 3.5, 0.8, 6.25 });
    j.set("retraction_amount", num(amount));
    j.set("retraction_count_max", g.oneof<std::string>({ "100", "3", "0" }));
    j.set("retraction_extrusion_window", g.oneof<std::string>({ "1", "3.5" }));
    j.set("cool_min_layer_time", g.oneof<std::string>({ "0", "8" }));
    const bool equal = g.flip(); // narrower lines are printed faster
    j.set("speed_equalize_flow_width_factor", equal ? "110" : "0");
    const double lh = j.getD("layer_height"), lh0 = j.getD("layer_height_0"), lw = j.getD("line_width");
    // infill and skin overlap the walls
    const double out = j.get("wall_line_count") == "0" ? 0.45 : 0.05;
    const Job plain = plainJob();
    c.note("%s%s", s.what.c_str(), describe(j, plain).c_str());
    const Result r = slice(j);
    PBT_CHECK(r.ok(), "the engine ended with status %d", r.status);
    const GCode gc(r.gcode);
    PBT_CHECK(gc.error.empty(), "not g-code: %s", gc.error.c_str());

    if (std::none_of(gc.ev.begin(), gc.ev.end(), [](const Ev& v) { return v.kind == Ev::MOVE && v.e > 0; }))
    {
        c.label("nothing printed");
        return;
    }

    // layers: numbered one by one, as many as announced
    int layers = 0, last = -1;
    double retracted = 0, x0 = 1e9, y0 = 1e9, z0 = 1e9, x1 = -1e9, y1 = -1e9, z1 = -1e9, fed = 0, time_low = 0, elapsed = 0;
    bool fw_retracted = false, heated = false, any = false, left = false;
    int extrusions = 0, retractions = 0;
    double net = 0;
    std::map<std::string, std::string> hdr = gc.header;
    for (const Ev& v : gc.ev)
    {
        const char* t = v.text.c_str();
        switch (v.kind)
        {
        case Ev::LAYER:
            PBT_CHECK(v.value == last + 1 || layers == 0, "layer %d after %d", (int)v.value, last);
            PBT_CHECK(layers > 0 || v.value == 0, "begins with layer %d", (int)v.value);
            last = (int)v.value;
            layers++;
            break;
        case Ev::TEMP:
            PBT_CHECK(v.value >= 0 && v.value < 300, "line %d: %s", v.no, t);
            heated |= v.value > 150;
            break;
        case Ev::FAN:
            PBT_CHECK(v.value >= 0 && v.value <= 255, "line %d: %s", v.no, t);
            break;
        case Ev::FW_RETRACT:
            PBT_CHECK(fw, "line %d: firmware retraction not asked for", v.no);
            PBT_CHECK((v.value == 1) != fw_retracted, "line %d: %s twice", v.no, t);
            fw_retracted = v.value == 1;
            retractions += fw_retracted;
            break;
        case Ev::FILAMENT:
        {
            const double e = volumetric ? v.e / AREA : v.e;
            PBT_CHECK(! fw || std::fabs(e) < 1e-6, "line %d: %s with firmware retraction", v.no, t);
            retracted -= e;
            net += e;
            PBT_CHECK(retracted > -2e-4 && retracted < amount + 2e-4, "line %d: %s leaves the filament retracted by %f", v.no, t, retracted);
            PBT_CHECK(std::fabs(retracted) < 2e-4 || std::fabs(retracted - amount) < 2e-4, "line %d: %s retracts by %f, not %f", v.no, t, retracted, amount);
            retractions += e < 0;
            if (e != 0)
            {
                PBT_CHECK(std::fabs(v.f - 45 * 60) < 1, "line %d: %s", v.no, t);
                time_low += std::fabs(e) / (v.f / 60);
            }
            break;
        }
        case Ev::MOVE:
        {
            PBT_CHECK(v.f > 0 || layers == 0, "line %d: %s without a speed", v.no, t);
            PBT_CHECK(std::fabs(v.x) <= 200.001 && std::fabs(v.y) <= 200.001 && v.z >= 0 && v.z <= 300, "line %d: %s is off the printer", v.no, t);
            PBT_CHECK(v.e >= 0, "line %d: %s pulls filament while moving", v.no, t);
            PBT_CHECK(! v.rapid || v.e == 0, "line %d: %s extrudes in a travel", v.no, t);
            if (any && v.z0 < 15) // not the way down from where Griffin primes
            {
                time_low += v.f > 0 ? std::hypot(v.len(), v.z - v.z0) / (v.f / 60) : 0;
            }
            if (v.e > 0)
            {
                extrusions++;
                const double vol = volumetric ? v.e : v.e * AREA;
                net += volumetric ? v.e / AREA : v.e;
                fed += vol;
                PBT_CHECK(std::fabs(retracted) < 2e-4 && ! fw_retracted, "line %d: %s prints while the filament is retracted", v.no, t);
                PBT_CHECK(layers > 0, "line %d: %s prints before the first layer", v.no, t);
                // at the height of the layer
                const double want = lh0 + v.layer * lh;
                PBT_CHECK(std::fabs(v.z - want) < 0.0015 && std::fabs(v.z0 - want) < 0.0015, "line %d: %s prints layer %d from %.3f to %.3f, not at %.3f", v.no, t, v.layer, v.z0, v.z, want);
                // the amount is that of a line of a plausible width
                const double len = v.len(), h = v.layer == 0 ? lh0 : lh;
                const double quantum = (relative ? 0.6e-5 : 1.1e-5) * (volumetric ? 1 : AREA);
                const double w_hi = (vol + quantum) / h / std::max(1e-9, len - 0.0015), w_lo = std::max(0.0, vol - quantum) / h / (len + 0.0015);
                PBT_CHECK(w_lo < 2.2 * lw && w_hi > 0.05 * lw, "line %d: %s prints a line %.3f to %.3f wide", v.no, t, w_lo, w_hi);
                if (v.type == "SKIRT" || (v.type == "FILL" && j.get("bridge_settings_enabled") == "False" && j.get("infill_wall_line_count") == "0" && j.get("infill_pattern") != "concentric"))
                {
                    const double mult = 1;
                    PBT_CHECK(w_lo <= lw * mult * 1.01 && w_hi >= lw * mult * 0.99, "line %d: %s prints a line of type %s %.4f to %.4f wide, not %.3f", v.no, t, v.type.c_str(), w_lo, w_hi, lw);
                }
                PBT_CHECK(v.x >= s.box.x0 / 1000.0 - out && v.x <= s.box.x1 / 1000.0 + out && v.y >= s.box.y0 / 1000.0 - out && v.y <= s.box.y1 / 1000.0 + out, "line %d: %s prints outside the model's box", v.no, t);
                const double limit = v.type == "WALL-OUTER" ? 45 : v.type == "WALL-INNER" ? 50 : v.type == "FILL" ? 60 : v.type == "SKIN" ? 60 : 60;
                const double faster = equal ? std::max(1.0, lw / std::max(0.01, w_lo)) * 1.101 : 1.001;
                PBT_CHECK(v.f <= limit * 60 * faster + 1, "line %d: %s prints %s at %.0f mm/min", v.no, t, v.type.c_str(), v.f);
            }
            if (layers > 0)
            {
                x0 = std::min({ x0, v.x });
                y0 = std::min({ y0, v.y });
                z0 = std::min({ z0, v.z });
                x1 = std::max({ x1, v.x });
                y1 = std::max({ y1, v.y });
                z1 = std::max({ z1, v.z });
            }
            if (! hop && v.layer >= 0)
            {
                PBT_CHECK(v.z + 1e-6 >= v.z0 || layers <= 1 || ! any || v.z0 > 15, "line %d: %s goes down", v.no, t);
            }
            any = true;
            break;
        }
        case Ev::COMMENT:
            if (v.text.starts_with(";TIME_ELAPSED:"))
            {
                const double e = atof(t + 14);
                PBT_CHECK(e >= elapsed, "line %d: %s after %f", v.no, t, elapsed);
                PBT_CHECK(e >= time_low * 0.999 - 0.01, "line %d: %s, but the moves alone take %f s at full speed", v.no, t, time_low);
                PBT_CHECK(e <= time_low * 6 + 60, "line %d: %s, but the moves take %f s at full speed", v.no, t, time_low);
                elapsed = e;
            }
            break;
        default:
            break;
        }
    }
    PBT_CHECK(gc.layer_count < 0 || gc.layer_count == layers, "%d layers announced, %d printed", gc.layer_count, layers);
    if (extrusions == 0)
    {
        c.label("nothing printed");
        return;
    }
    // the header
    if (hdr.count("Filament used"))
    {
        const double used = atof(hdr["Filament used"].c_str());
        const double want = volumetric ? fed : fed / AREA / 1000;
        PBT_CHECK(std::fabs(used - want) <= 1e-4 + want * 1e-3, "filament used: %f in the header, %f fed", used, want);
    }
    if (hdr.count("EXTRUDER_TRAIN.0.MATERIAL.VOLUME_USED"))
    {
        const double used = atof(hdr["EXTRUDER_TRAIN.0.MATERIAL.VOLUME_USED"].c_str());
        PBT_CHECK(used <= fed * 1.001 + 0.01 && used > fed * 0.999 - 1.01, "volume used: %.0f in the header, %f fed", used, fed);
    }
    for (const std::string pre : { "", "PRINT.SIZE." })
    {
        auto key = [&](const char* k, const char* ax) { return pre + k + (pre.empty() ? "" : ".") + ax; };
        if (! hdr.count(key("MIN", "X")))
        {
            continue;
        }
        auto of = [&](const char* k, const char* ax) { return atof(hdr[key(k, ax)].c_str()); };
        const double got[6] = { of("MIN", "X"), of("MIN", "Y"), of("MIN", "Z"), of("MAX", "X"), of("MAX", "Y"), of("MAX", "Z") };
        const double want[6] = { x0, y0, z0, x1, y1, z1 };
        for (int k = 0; k < 6; k++)
        {
            PBT_CHECK(std::fabs(got[k] - want[k]) < 0.0015, "bound %d is %f in the header, %f in the moves", k, got[k], want[k]);
        }
    }
    for (const char* k : { "TIME", "PRINT.TIME" })
    {
        PBT_CHECK(! hdr.count(k) || std::fabs(atof(hdr[k].c_str()) - elapsed) <= 1.01, "%s s in the header, %f elapsed", hdr[k].c_str(), elapsed);
    }
    PBT_CHECK(hdr.count("FLAVOR") || flavor == "Makerbot", "no flavor in the header");
    if (retractions > 3 && layers > 3)
    {
        c.nontrivial();
    }
    c.label(flavor);
}

int main(int argc, char** argv)
{
    pbt::Runner r("G08",
                  {
                      { "stream", 3000, 20000, "more than three layers and retractions", stream, 60 },
                  });
    return r.main(argc, argv);
}
