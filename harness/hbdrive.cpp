// hbdrive: drives the hydrobricks core from scenario files and records what happened.
//
// Input : a file with one JSON scenario per line {"id": str, "ops": [[name, args...], ...]}
// Output: NDJSON. One line {"sc": id, "ev": [event, ...]} per scenario; every event echoes its
//         operation. Doubles are written as shortest round-trip decimal strings, so that equality
//         of strings is equality of bits.
// Every scenario runs in a forked child: a crash or a hang is itself an event.
//
// Only public interfaces of hydrobricks are used (the ones its tests and Python bindings use).

#include <fcntl.h>
#include <netcdf.h>
#include <sys/wait.h>
#include <unistd.h>
#include <yaml-cpp/yaml.h>

#include <charconv>
#include <cmath>
#include <csignal>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>

#include "Action.h"
#include "ActionGlacierEvolutionAreaScaling.h"
#include "ActionGlacierEvolutionDeltaH.h"
#include "ActionGlacierSnowToIceTransformation.h"
#include "ActionLandCoverChange.h"
#include "FluxToBrick.h"
#include "Glacier.h"
#include "LandCover.h"
#include "Log.h"
#include "ModelBuilder.h"
#include "ModelHydro.h"
#include "Parameter.h"
#include "ParameterModifier.h"
#include "ParametersUpdater.h"
#include "SettingsBasin.h"
#include "SettingsModel.h"
#include "Snowpack.h"
#include "Splitter.h"
#include "SurfaceComponent.h"
#include "TimeSeriesData.h"
#include "TimeSeriesDistributed.h"
#include "TimeSeriesUniform.h"
#include "UtilsDateTime.h"

using std::string;
using YAML::Node;

// ---------------------------------------------------------------- JSON output
static string Esc(const string& s) {
    string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            o += '\\';
            o += c;
        } else if (c < 0x20) {
            char b[8];
            snprintf(b, 8, "\\u%04x", c);
            o += b;
        } else if (c < 0x80) {
            o += c;
        } else {
            o += '?';
        }
    }
    return o + "\"";
}
static string D(double v) {
    if (std::isnan(v)) return "\"NaN\"";
    if (std::isinf(v)) return v > 0 ? "\"Infinity\"" : "\"-Infinity\"";
    if (v == 0) v = 0;  // no negative zero
    char b[64];
    auto r = std::to_chars(b, b + 63, v);
    return "\"" + string(b, r.ptr) + "\"";
}
static string B(bool b) {
    return b ? "true" : "false";
}
template <class C, class F>
static string Arr(const C& c, F f) {
    string o = "[";
    bool first = true;
    for (const auto& x : c) {
        if (!first) o += ",";
        first = false;
        o += f(x);
    }
    return o + "]";
}
static string AD(const axd& a) {
    string o = "[";
    for (int i = 0; i < a.size(); ++i) o += (i ? "," : "") + D(a(i));
    return o + "]";
}
static string A2(const axxd& a) {
    string o = "[";
    for (int i = 0; i < a.rows(); ++i) {
        o += i ? ",[" : "[";
        for (int j = 0; j < a.cols(); ++j) o += (j ? "," : "") + D(a(i, j));
        o += "]";
    }
    return o + "]";
}

// ---------------------------------------------------------------- helpers on input
static double Num(const Node& n) {
    string s = n.as<string>();
    if (s == "NaN") return NAN;
    if (s == "Infinity") return INFINITY;
    if (s == "-Infinity") return -INFINITY;
    return std::strtod(s.c_str(), nullptr);
}
static TimeUnit Unit(const string& s) {
    if (s == "week") return TimeUnit::Week;
    if (s == "day") return TimeUnit::Day;
    if (s == "hour") return TimeUnit::Hour;
    if (s == "minute") return TimeUnit::Minute;
    return TimeUnit::Variable;
}
static VariableType Var(const string& s) {
    if (s == "precipitation") return VariableType::Precipitation;
    if (s == "temperature") return VariableType::Temperature;
    if (s == "temperature_min") return VariableType::TemperatureMin;
    if (s == "temperature_max") return VariableType::TemperatureMax;
    if (s == "radiation") return VariableType::Radiation;
    if (s == "pet") return VariableType::PET;
    if (s == "custom1") return VariableType::Custom1;
    if (s == "custom2") return VariableType::Custom2;
    return VariableType::Custom3;
}
static ContentType Cont(const string& s) {
    if (s == "snow") return ContentType::Snow;
    if (s == "ice") return ContentType::Ice;
    return ContentType::Water;
}
static string ContName(ContentType t) {
    return t == ContentType::Snow ? "snow" : t == ContentType::Ice ? "ice" : "water";
}
static axd Vec(const Node& n) {
    axd a(n.size());
    for (size_t i = 0; i < n.size(); ++i) a(i) = Num(n[i]);
    return a;
}
static vecDouble VecD(const Node& n) {
    vecDouble a;
    for (const auto& x : n) a.push_back(Num(x));
    return a;
}
static vecFloat VecF(const Node& n) {
    vecFloat a;
    for (const auto& x : n) a.push_back(static_cast<float>(Num(x)));
    return a;
}
static axi VecI(const Node& n) {
    axi a(n.size());
    for (size_t i = 0; i < n.size(); ++i) a(i) = n[i].as<int>();
    return a;
}
static axxd Mat(const Node& n) {
    if (n.size() == 0) return axxd(0, 0);
    axxd a(n.size(), n[0].size());
    for (size_t i = 0; i < n.size(); ++i)
        for (size_t j = 0; j < n[i].size(); ++j) a(i, j) = Num(n[i][j]);
    return a;
}

// ---------------------------------------------------------------- snapshots
// The amounts of every output of a splitter (the public accessor stops at five outputs).
struct SplitterPeek : Splitter {
    static string Amounts(Splitter* s) {
        string o;
        bool first = true;
        for (auto& f : s->*(&SplitterPeek::_outputs)) {
            o += (first ? "" : ",") + D(*f->GetAmountPointer());
            first = false;
        }
        return o;
    }
};
static string SnapBrick(Brick* b) {
    string o = "{\"n\":" + Esc(b->GetName());
    bool snow = dynamic_cast<Snowpack*>(b) != nullptr;
    bool ice = dynamic_cast<Glacier*>(b) != nullptr;
    o += ",\"w\":" + D(b->GetContent(ContentType::Water));
    o += ",\"s\":" + (snow ? D(b->GetContent(ContentType::Snow)) : string("\"0\""));
    o += ",\"i\":" + (ice ? D(b->GetContent(ContentType::Ice)) : string("\"0\""));
    // deposits not committed yet (in transit to this store)
    double pw = b->GetWaterContainer()->GetContentWithChanges() - b->GetWaterContainer()->GetContentWithoutChanges();
    double ps = 0;
    if (auto sp = dynamic_cast<Snowpack*>(b)) {
        ps = sp->GetSnowContainer()->GetContentWithChanges() - sp->GetSnowContainer()->GetContentWithoutChanges();
    }
    o += ",\"pw\":" + D(pw) + ",\"ps\":" + D(ps);
    string frac = "\"1\"";
    if (auto lc = dynamic_cast<LandCover*>(b)) {
        frac = D(lc->GetAreaFraction());
    } else if (auto sc = dynamic_cast<SurfaceComponent*>(b)) {
        frac = sc->HasParent() ? D(sc->GetParentAreaFraction()) : "\"1\"";
    }
    o += ",\"f\":" + frac;
    auto wc = b->GetWaterContainer();
    o += ",\"cap\":" + (wc->HasMaximumCapacity() ? D(wc->GetMaximumCapacity()) : string("\"none\""));
    o += ",\"neg\":" + B(wc->AllowsNegativeContent());
    o += ",\"p\":[";
    for (size_t i = 0; i < b->GetProcessCount(); ++i) {
        auto p = b->GetProcess(i);
        o += i ? ",{" : "{";
        o += "\"n\":" + Esc(p->GetName()) + ",\"o\":[";
        for (int j = 0; j < p->GetOutputFluxCount(); ++j) {
            o += (j ? "," : "") + D(*p->GetOutputFlux(j)->GetAmountPointer());
        }
        o += "]";
        for (const char* item : {"internal_storage", "routing_store", "exp_store", "q_routing", "q_exp", "q_direct"}) {
            double* v = p->GetValuePointer(item);
            if (v != nullptr) o += string(",\"") + item + "\":" + D(*v);
        }
        o += "}";
    }
    return o + "]}";
}

static const std::vector<std::pair<string, VariableType>> kVars = {
    {"precipitation", VariableType::Precipitation}, {"temperature", VariableType::Temperature},
    {"temperature_min", VariableType::TemperatureMin}, {"temperature_max", VariableType::TemperatureMax},
    {"radiation", VariableType::Radiation}, {"pet", VariableType::PET}};

static string Snapshot(ModelHydro* m, bool forcing) {
    SubBasin* sb = m->GetSubBasin();
    string o = "{\"date\":" + D(m->GetTimeMachine()->GetDate()) + ",\"units\":[";
    for (int i = 0; i < sb->GetHydroUnitCount(); ++i) {
        HydroUnit* u = sb->GetHydroUnit(i);
        o += i ? ",{" : "{";
        o += "\"id\":" + std::to_string(u->GetId()) + ",\"area\":" + D(u->GetArea()) +
             ",\"sid\":" + std::to_string(u->GetStructureId()) + ",\"b\":[";
        for (int j = 0; j < u->GetBrickCount(); ++j) o += (j ? "," : "") + SnapBrick(u->GetBrick(j));
        o += "],\"sp\":[";
        for (int j = 0; j < u->GetSplitterCount(); ++j) {
            auto s = u->GetSplitter(j);
            o += (j ? ",{" : "{") + string("\"n\":") + Esc(s->GetName()) + ",\"o\":[";
            o += SplitterPeek::Amounts(s);
            o += "]}";
        }
        o += "],\"fo\":{";
        bool first = true;
        if (forcing) {
            for (auto& [n, t] : kVars) {
                if (u->HasForcing(t)) {
                    o += (first ? "" : ",") + Esc(n) + ":" + D(u->GetForcing(t)->GetValue());
                    first = false;
                }
            }
        }
        o += "}}";
    }
    o += "],\"sub\":[";
    for (int j = 0; j < sb->GetBrickCount(); ++j) o += (j ? "," : "") + SnapBrick(sb->GetBrick(j));
    o += "],\"outlet\":" + D(*sb->GetValuePointer("outlet"));
    return o + "}";
}

// ---------------------------------------------------------------- probes
struct Ctx;
struct Probe : Action {
    ModelHydro* model = nullptr;
    std::vector<string>* sink = nullptr;
    string tag;
    string mode;                              // "snap" | "mark"
    std::function<void()> onDate;             // mutation, optional
    bool everyStep = false;
    Probe(bool every) : everyStep(every) {
        if (every) _recursive = true;
    }
    void SetDates(const vecDouble& d) {
        _sporadicDates = d;
    }
    void Emit(const char* how, double date) {
        if (mode == "snap") {
            sink->push_back("{\"tag\":" + Esc(tag) + ",\"s\":" + Snapshot(model, true) + "}");
        } else {
            sink->push_back("{\"tag\":" + Esc(tag) + ",\"how\":\"" + how + "\",\"date\":" + D(date) +
                            ",\"now\":" + D(model->GetTimeMachine()->GetDate()) +
                            ",\"cur\":" + std::to_string(_cursor) + "}");
        }
    }
    bool Apply(double date = 0) override {
        Emit("apply", date);
        if (onDate) onDate();
        return true;
    }
    bool ApplyIfRecursive(const Time t) override {
        if (everyStep) {
            // once per step boundary, even if the scheduler considers several days at one boundary
            double now = model->GetTimeMachine()->GetDate();
            if (now != lastNow) Emit("step", 0);
            lastNow = now;
            return true;
        }
        return Action::ApplyIfRecursive(t);
    }
    double lastNow = -1;
    void Reset() override {
        lastNow = -1;
    }
};

// ---------------------------------------------------------------- per-model context
struct Ctx {
    SettingsModel settings;
    SettingsBasin basin;
    std::unique_ptr<SubBasin> sub;
    std::unique_ptr<ModelHydro> model;
    std::vector<std::unique_ptr<Action>> actions;
    std::vector<string> sink;
    SubBasin* Sub() {
        return model ? model->GetSubBasin() : sub.get();
    }
};

static string g_dir;  // scratch directory of this scenario

using Args = Node;
using Fn = std::function<string(Ctx&, const Args&)>;  // returns extra JSON (",...") or ""

static string S(const Args& a, int i, const string& def = "") {
    return static_cast<int>(a.size()) > i ? a[i].as<string>() : def;
}

static string DumpBrickSettings(SettingsModel& st, const BrickSettings& b) {
    string o = "{\"n\":" + Esc(b.name) + ",\"type\":" + Esc(b.type) + ",\"parent\":" + Esc(b.parent) +
               ",\"direct\":" + B(b.computedDirectly) + ",\"par\":{";
    bool first = true;
    for (const auto& p : b.parameters) {
        o += (first ? "" : ",") + Esc(p.GetName()) + ":" + D(p.GetValue());
        first = false;
    }
    o += "},\"forc\":" + std::to_string(b.forcing.size()) + ",\"log\":" + Arr(b.logItems, Esc) + ",\"p\":[";
    first = true;
    for (const auto& p : b.processes) {
        o += first ? "{" : ",{";
        first = false;
        o += "\"n\":" + Esc(p.name) + ",\"type\":" + Esc(p.type) + ",\"par\":{";
        bool f2 = true;
        for (const auto& q : p.parameters) {
            o += (f2 ? "" : ",") + Esc(q.GetName()) + ":" + D(q.GetValue());
            f2 = false;
        }
        o += "},\"log\":" + Arr(p.logItems, Esc) + ",\"out\":" + Arr(p.outputs, [](const OutputSettings& x) {
            return "{\"t\":" + Esc(x.target) + ",\"c\":\"" + ContName(x.fluxType) + "\",\"inst\":" +
                   B(x.isInstantaneous) + ",\"stat\":" + B(x.isStatic) + "}";
        });
        o += "}";
    }
    (void)st;
    return o + "]}";
}

static string DumpSettings(SettingsModel& st) {
    string o = "\"structures\":[";
    for (int id = 1; id <= st.GetStructureCount(); ++id) {
        st.SelectStructure(id);
        o += id > 1 ? ",{" : "{";
        o += "\"hu\":[";
        for (int i = 0; i < st.GetHydroUnitBrickCount(); ++i)
            o += (i ? "," : "") + DumpBrickSettings(st, st.GetHydroUnitBrickSettings(i));
        o += "],\"sub\":[";
        for (int i = 0; i < st.GetSubBasinBrickCount(); ++i)
            o += (i ? "," : "") + DumpBrickSettings(st, st.GetSubBasinBrickSettings(i));
        o += "],\"lc\":" + Arr(st.GetLandCoverBricksIndices(), [](int i) { return std::to_string(i); });
        o += ",\"sc\":" + Arr(st.GetSurfaceComponentBricksIndices(), [](int i) { return std::to_string(i); });
        auto spl = [&](const SplitterSettings& s) {
            string q = "{\"n\":" + Esc(s.name) + ",\"type\":" + Esc(s.type) + ",\"par\":{";
            bool f2 = true;
            for (const auto& p : s.parameters) {
                q += (f2 ? "" : ",") + Esc(p.GetName()) + ":" + D(p.GetValue());
                f2 = false;
            }
            return q + "},\"out\":" + Arr(s.outputs, [](const OutputSettings& x) {
                       return "{\"t\":" + Esc(x.target) + ",\"c\":\"" + ContName(x.fluxType) + "\"}";
                   }) +
                   "}";
        };
        o += ",\"spl\":[";
        for (int i = 0; i < st.GetHydroUnitSplitterCount(); ++i)
            o += (i ? "," : "") + spl(st.GetHydroUnitSplitterSettings(i));
        o += "],\"subspl\":[";
        for (int i = 0; i < st.GetSubBasinSplitterCount(); ++i)
            o += (i ? "," : "") + spl(st.GetSubBasinSplitterSettings(i));
        o += "]}";
    }
    st.SelectStructure(1);
    o += "]";
    return o;
}

static string DumpLog(ModelHydro* m) {
    Logger* l = m->GetLogger();
    string o = "\"time\":" + AD(l->GetTime());
    o += ",\"sublab\":" + Arr(l->GetSubBasinLabels(), Esc);
    o += ",\"subval\":" + Arr(l->GetSubBasinValues(), AD);
    o += ",\"hulab\":" + Arr(l->GetHydroUnitLabels(), Esc);
    o += ",\"huval\":" + Arr(l->GetHydroUnitValues(), A2);
    o += ",\"frlab\":" + Arr(l->GetHydroUnitFractionLabels(), Esc);
    o += ",\"frval\":" + Arr(l->GetHydroUnitFractions(), A2);
    o += ",\"ids\":" + Arr(l->GetHydroUnitIds(), [](int i) { return std::to_string(i); });
    o += ",\"areas\":" + AD(l->GetHydroUnitAreas());
    return o;
}

// Read back a NetCDF result file with the C library (independent of hydrobricks' own reader).
static string ReadNc(const string& path) {
    int nc;
    if (nc_open(path.c_str(), NC_NOWRITE, &nc) != NC_NOERR) return "\"ncerr\":\"open\"";
    string o = "\"vars\":{";
    int nvars = 0;
    nc_inq_nvars(nc, &nvars);
    for (int v = 0; v < nvars; ++v) {
        char name[NC_MAX_NAME + 1];
        nc_type t;
        int nd, dims[NC_MAX_VAR_DIMS];
        nc_inq_var(nc, v, name, &t, &nd, dims, nullptr);
        size_t total = 1;
        string dn = "[", ds = "[";
        for (int d = 0; d < nd; ++d) {
            char dname[NC_MAX_NAME + 1];
            size_t len;
            nc_inq_dim(nc, dims[d], dname, &len);
            total *= len;
            dn += (d ? "," : "") + Esc(dname);
            ds += (d ? "," : "") + std::to_string(len);
        }
        std::vector<double> vals(total ? total : 1);
        nc_get_var_double(nc, v, vals.data());
        vals.resize(total);
        o += (v ? "," : "") + Esc(name) + ":{\"dims\":" + dn + "],\"shape\":" + ds + "],\"type\":" +
             std::to_string(t) + ",\"v\":" + Arr(vals, D) + "}";
    }
    o += "},\"atts\":{";
    int natts = 0;
    nc_inq_natts(nc, &natts);
    bool first = true;
    for (int a = 0; a < natts; ++a) {
        char name[NC_MAX_NAME + 1];
        nc_inq_attname(nc, NC_GLOBAL, a, name);
        nc_type t;
        size_t len;
        nc_inq_att(nc, NC_GLOBAL, name, &t, &len);
        string val;
        if (t == NC_STRING) {
            std::vector<char*> strs(len ? len : 1, nullptr);
            nc_get_att_string(nc, NC_GLOBAL, name, strs.data());
            val = "[";
            for (size_t i = 0; i < len; ++i) val += (i ? "," : "") + Esc(strs[i] ? strs[i] : "");
            val += "]";
            nc_free_string(len, strs.data());
        } else if (t == NC_CHAR) {
            std::vector<char> c(len + 1, 0);
            nc_get_att_text(nc, NC_GLOBAL, name, c.data());
            val = Esc(c.data());
        } else {
            std::vector<double> d(len ? len : 1);
            nc_get_att_double(nc, NC_GLOBAL, name, d.data());
            val = Arr(d, D);
        }
        o += (first ? "" : ",") + Esc(name) + ":" + val;
        first = false;
    }
    o += "}";
    nc_close(nc);
    return o;
}

static Brick* FindBrick(Ctx& c, const string& unit, const string& name) {
    if (unit == "sub") return c.Sub()->GetBrick(name);
    return c.Sub()->GetHydroUnitById(std::stoi(unit))->GetBrick(name);
}

static string Ret(bool b) {
    return ",\"ret\":" + B(b);
}
static string Res(const ModelResult& r) {
    return ",\"ret\":" + B(static_cast<bool>(r)) + (r ? "" : ",\"msg\":" + Esc(r.error()));
}

static std::map<string, Fn> Table() {
    std::map<string, Fn> t;
    // ---- model settings
#define OP(name) t[name] = [](Ctx & c, const Args& a) -> string
#define ST c.settings
    OP("LogAll") { ST.SetLogAll(a[1].as<bool>()); return ""; };
    OP("RecordFractions") { ST.SetRecordFractions(a[1].as<bool>()); return ""; };
    OP("Solver") { ST.SetSolver(S(a, 1)); return ""; };
    OP("Timer") { ST.SetTimer(S(a, 1), S(a, 2), a[3].as<int>(), S(a, 4)); return ""; };
    OP("Spinup") { ST.SetSpinupDays(a[1].as<int>()); return ""; };
    OP("HuBrick") { ST.AddHydroUnitBrick(S(a, 1), S(a, 2, "storage")); return ""; };
    OP("SubBrick") { ST.AddSubBasinBrick(S(a, 1), S(a, 2, "storage")); return ""; };
    OP("LandCover") { ST.AddLandCoverBrick(S(a, 1), S(a, 2)); return ""; };
    OP("SurfComp") { ST.AddSurfaceComponentBrick(S(a, 1), S(a, 2)); return ""; };
    OP("Parent") { ST.SetSurfaceComponentParent(S(a, 1)); return ""; };
    OP("BrickPar") { ST.AddBrickParameter(S(a, 1), (float)Num(a[2])); return ""; };
    OP("BrickParSet") { ST.SetBrickParameterValue(S(a, 1), (float)Num(a[2])); return ""; };
    OP("Direct") { ST.SetCurrentBrickComputedDirectly(); return ""; };
    OP("BrickForcing") { ST.AddBrickForcing(S(a, 1)); return ""; };
    OP("Process") {
        ST.AddBrickProcess(S(a, 1), S(a, 2), S(a, 3), a.size() > 4 && a[4].as<bool>());
        return "";
    };
    OP("ProcPar") { ST.AddProcessParameter(S(a, 1), (float)Num(a[2])); return ""; };
    OP("ProcParSet") { ST.SetProcessParameterValue(S(a, 1), (float)Num(a[2])); return ""; };
    OP("ProcForcing") { ST.AddProcessForcing(S(a, 1)); return ""; };
    OP("ProcOut") { ST.AddProcessOutput(S(a, 1), Cont(S(a, 2, "water"))); return ""; };
    OP("Inst") { ST.SetProcessOutputsAsInstantaneous(); return ""; };
    OP("Static") { ST.SetProcessOutputsAsStatic(); return ""; };
    OP("SameBrick") { ST.OutputProcessToSameBrick(); return ""; };
    OP("HuSplitter") { ST.AddHydroUnitSplitter(S(a, 1), S(a, 2)); return ""; };
    OP("SubSplitter") { ST.AddSubBasinSplitter(S(a, 1), S(a, 2)); return ""; };
    OP("SplPar") { ST.AddSplitterParameter(S(a, 1), (float)Num(a[2])); return ""; };
    OP("SplParSet") { ST.SetSplitterParameterValue(S(a, 1), (float)Num(a[2])); return ""; };
    OP("SplForcing") { ST.AddSplitterForcing(S(a, 1)); return ""; };
    OP("SplOut") { ST.AddSplitterOutput(S(a, 1), Cont(S(a, 2, "water"))); return ""; };
    OP("SplRetarget") { ST.ChangeSplitterOutputTarget(S(a, 1), S(a, 2)); return ""; };
    OP("Canopy") { ST.GenerateCanopyInterception(S(a, 1), S(a, 2)); return ""; };
    OP("Log") { ST.AddLoggingToItem(S(a, 1)); return ""; };
    OP("BrickLog") { ST.AddBrickLogging(S(a, 1)); return ""; };
    OP("ProcLog") { ST.AddProcessLogging(S(a, 1)); return ""; };
    OP("SplLog") { ST.AddSplitterLogging(S(a, 1)); return ""; };
    OP("PrecipSplitters") {
        if (a.size() > 2) ST.GeneratePrecipitationSplitters(a[1].as<bool>(), S(a, 2));
        else ST.GeneratePrecipitationSplitters(a[1].as<bool>());
        return "";
    };
    OP("Snowpacks") { ST.GenerateSnowpacks(S(a, 1)); return ""; };
    OP("SnowIce") { if (a.size() > 1) ST.AddSnowIceTransformation(S(a, 1)); else ST.AddSnowIceTransformation(); return ""; };
    OP("SnowRedist") { ST.AddSnowRedistribution(S(a, 1, "transport:snow_slide"), a.size() > 2 && a[2].as<bool>()); return ""; };
    OP("SnowpacksWR") { ST.GenerateSnowpacksWithWaterRetention(S(a, 1), S(a, 2), a.size() > 3 && a[3].as<bool>()); return ""; };
    OP("Refreeze") { ST.AddSnowpackRefreezing(S(a, 1, "refreeze:degree_day")); return ""; };
    OP("Sublim") { ST.AddSnowpackSublimation(S(a, 1)); return ""; };
    OP("Structure") { return ",\"ret\":" + std::to_string(ST.AddStructure()); };
    OP("SelStructure") { return Ret(ST.SelectStructure(a[1].as<int>())); };
    OP("SelBrick") { ST.SelectHydroUnitBrick(S(a, 1)); return ""; };
    OP("SelSubBrick") { ST.SelectSubBasinBrick(S(a, 1)); return ""; };
    OP("SelProcess") { ST.SelectProcess(S(a, 1)); return ""; };
    OP("SelSplitter") { ST.SelectHydroUnitSplitter(S(a, 1)); return ""; };
    OP("SetParam") { return Ret(ST.SetParameterValue(S(a, 1), S(a, 2), (float)Num(a[3]))); };
    OP("SettingsValid") { return Ret(ST.IsValid()); };
    OP("settings") { return "," + DumpSettings(ST); };
    // ---- basin
#define BA c.basin
    OP("Unit") { BA.AddHydroUnit(a[1].as<int>(), Num(a[2]), a.size() > 3 ? Num(a[3]) : -9999); return ""; };
    OP("Cover") { BA.AddLandCover(S(a, 1), S(a, 2), Num(a[3])); return ""; };
    OP("Prop") { BA.AddHydroUnitPropertyDouble(S(a, 1), Num(a[2]), S(a, 3)); return ""; };
    OP("PropS") { BA.AddHydroUnitPropertyString(S(a, 1), S(a, 2)); return ""; };
    OP("Lateral") { BA.AddLateralConnection(a[1].as<int>(), a[2].as<int>(), Num(a[3]), S(a, 4)); return ""; };
    OP("SubInit") {
        c.sub = std::make_unique<SubBasin>();
        return Res(c.sub->Initialize(c.basin));
    };
    // ---- model
    OP("Init") {
        c.sub = std::make_unique<SubBasin>();
        auto r = c.sub->Initialize(c.basin);
        if (!r) return Res(r);
        c.model = std::make_unique<ModelHydro>(c.sub.get());
        return Res(c.model->Initialize(c.settings, c.basin, a.size() > 1 ? a[1].as<bool>() : true));
    };
    OP("InitBasin") {
        c.model = std::make_unique<ModelHydro>();
        return Res(c.model->InitializeWithBasin(c.settings, c.basin));
    };
    OP("IsValid") { return Ret(c.model->IsValid()); };
    OP("ForcingLoaded") { return Ret(c.model->ForcingLoaded()); };
    OP("UpdateParams") { c.model->UpdateParameters(c.settings); return ""; };
    OP("Run") { return Res(c.model->Run()); };
    OP("Reset") { c.model->Reset(); return ""; };
    OP("Save") { c.model->SaveAsInitialState(); return ""; };
    OP("Snap") { return ",\"s\":" + Snapshot(c.model.get(), a.size() > 1 && a[1].as<bool>()); };
    OP("Record") { return "," + DumpLog(c.model.get()); };
    OP("RecordLite") {
        Logger* l = c.model->GetLogger();
        return ",\"time\":" + AD(l->GetTime()) + ",\"q\":" + AD(c.model->GetOutletDischarge());
    };
    OP("Totals") {
        auto m = c.model.get();
        return ",\"q\":" + D(m->GetTotalOutletDischarge()) + ",\"et\":" + D(m->GetTotalET()) + ",\"dw\":" +
               D(m->GetTotalWaterStorageChanges()) + ",\"ds\":" + D(m->GetTotalSnowStorageChanges()) + ",\"dg\":" +
               D(m->GetTotalGlacierStorageChanges());
    };
    OP("Timer?") {
        auto tm = c.model->GetTimeMachine();
        return ",\"date\":" + D(tm->GetDate()) + ",\"start\":" + D(tm->GetStart()) + ",\"end\":" + D(tm->GetEnd()) +
               ",\"n\":" + std::to_string(tm->GetTimeStepCount()) + ",\"dt\":" + D(*tm->GetTimeStepPointer());
    };
    OP("Dump") {
        string d = g_dir + "/" + S(a, 1, "out");
        std::filesystem::create_directories(d);
        bool ok = c.model->DumpOutputs(d);
        return Ret(ok) + "," + ReadNc(d + "/results.nc");
    };
    OP("Values") { return ",\"v\":" + A2(c.model->GetHydroUnitValues(S(a, 1))); };
    OP("Fractions") { return ",\"v\":" + A2(c.model->GetHydroUnitFractions(S(a, 1))); };
    // ---- state
    OP("Set") { FindBrick(c, S(a, 1), S(a, 2))->UpdateContent(Num(a[4]), Cont(S(a, 3))); return ""; };
    OP("SetInit") { FindBrick(c, S(a, 1), S(a, 2))->SetInitialState(Num(a[4]), Cont(S(a, 3))); return ""; };
    OP("Fraction") {
        return Ret(c.Sub()->GetHydroUnitById(a[1].as<int>())->ChangeLandCoverAreaFraction(S(a, 2), Num(a[3])));
    };
    OP("UnitValid") { return Ret(c.Sub()->GetHydroUnitById(a[1].as<int>())->IsValid()); };
    // ---- forcing
    OP("TS") {
        // ["TS", var, start, end, step, unit, values]
        auto data = std::make_unique<TimeSeriesDataRegular>(Num(a[2]), Num(a[3]), a[4].as<int>(), Unit(S(a, 5)));
        bool okv = data->SetValues(VecD(a[6]));
        auto ts = std::make_unique<TimeSeriesUniform>(Var(S(a, 1)));
        ts->SetData(std::move(data));
        bool ok = c.model->AddTimeSeries(std::move(ts));
        return Ret(ok) + ",\"vals\":" + B(okv);
    };
    OP("TSD") {
        // ["TSD", var, start, end, step, unit, ids, [[values of id 0], ...]]
        auto ts = std::make_unique<TimeSeriesDistributed>(Var(S(a, 1)));
        bool okv = true;
        for (size_t i = 0; i < a[6].size(); ++i) {
            auto data = std::make_unique<TimeSeriesDataRegular>(Num(a[2]), Num(a[3]), a[4].as<int>(), Unit(S(a, 5)));
            okv = data->SetValues(VecD(a[7][i])) && okv;
            ts->AddData(std::move(data), a[6][i].as<int>());
        }
        bool ok = c.model->AddTimeSeries(std::move(ts));
        return Ret(ok) + ",\"vals\":" + B(okv);
    };
    OP("CTS") {
        // ["CTS", name, times, ids, matrix(time x unit)]
        return Ret(c.model->CreateTimeSeries(S(a, 1), Vec(a[2]), VecI(a[3]), Mat(a[4])));
    };
    OP("TSX") {
        // ["TSX", var, uniform?, step, unit, [[id, start, end, values], ...]]: each unit's data has its own period
        // (or ["TSX", ..., [[id, start, end, values, step, unit], ...]])
        std::unique_ptr<TimeSeriesUniform> u;
        std::unique_ptr<TimeSeriesDistributed> t;
        if (a[2].as<bool>()) u = std::make_unique<TimeSeriesUniform>(Var(S(a, 1)));
        else t = std::make_unique<TimeSeriesDistributed>(Var(S(a, 1)));
        bool okv = true;
        for (const auto& x : a[5]) {
            int step = x.size() > 4 ? x[4].as<int>() : a[3].as<int>();
            TimeUnit unit = Unit(x.size() > 4 ? x[5].as<string>() : S(a, 4));
            auto data = std::make_unique<TimeSeriesDataRegular>(Num(x[1]), Num(x[2]), step, unit);
            okv = data->SetValues(VecD(x[3])) && okv;
            if (u) u->SetData(std::move(data));
            else t->AddData(std::move(data), x[0].as<int>());
        }
        bool ok = u ? c.model->AddTimeSeries(std::move(u)) : c.model->AddTimeSeries(std::move(t));
        return Ret(ok) + ",\"vals\":" + B(okv);
    };
    OP("NcWrite") {
        // ["NcWrite", name, type of time ("float"|"double"), time first?, times, ids, [[variable, matrix unit x time]]]
        string path = g_dir + "/" + S(a, 1);
        int nc, dt, du, vi, vt;
        auto chk = [](int r) { if (r != NC_NOERR) throw std::runtime_error(nc_strerror(r)); };
        chk(nc_create(path.c_str(), NC_NETCDF4 | NC_CLOBBER, &nc));
        vecDouble times = VecD(a[4]);
        axi ids = VecI(a[5]);
        bool tf = a[3].as<bool>();
        chk(nc_def_dim(nc, "hydro_units", ids.size(), &du));
        chk(nc_def_dim(nc, "time", times.size(), &dt));
        chk(nc_def_var(nc, "id", NC_INT, 1, &du, &vi));
        chk(nc_def_var(nc, "time", S(a, 2) == "float" ? NC_FLOAT : NC_DOUBLE, 1, &dt, &vt));
        std::vector<int> vs;
        for (const auto& x : a[6]) {
            int d[2] = {tf ? dt : du, tf ? du : dt}, v;
            chk(nc_def_var(nc, x[0].as<string>().c_str(), NC_FLOAT, 2, d, &v));
            vs.push_back(v);
        }
        chk(nc_enddef(nc));
        std::vector<int> idv(ids.data(), ids.data() + ids.size());
        chk(nc_put_var_int(nc, vi, idv.data()));
        chk(nc_put_var_double(nc, vt, times.data()));
        for (size_t k = 0; k < vs.size(); ++k) {
            const auto& m = a[6][k][1];
            vecDouble flat;
            if (tf) {
                for (size_t t = 0; t < times.size(); ++t)
                    for (int u = 0; u < ids.size(); ++u) flat.push_back(Num(m[u][t]));
            } else {
                for (int u = 0; u < ids.size(); ++u)
                    for (size_t t = 0; t < times.size(); ++t) flat.push_back(Num(m[u][t]));
            }
            chk(nc_put_var_double(nc, vs[k], flat.data()));
        }
        chk(nc_close(nc));
        return "";
    };
    OP("TSParse") {
        // ["TSParse", name]: every variable of the file becomes a forcing of the model
        vector<std::unique_ptr<TimeSeries>> v;
        bool ok = TimeSeries::Parse(g_dir + "/" + S(a, 1), v);
        string o;
        for (auto& x : v) o += (o.empty() ? "" : ",") + B(c.model->AddTimeSeries(std::move(x)));
        return Ret(ok) + ",\"added\":[" + o + "]";
    };
    OP("Attach") { return Ret(c.model->AttachTimeSeriesToHydroUnits()); };
    OP("ClearTS") { c.model->ClearTimeSeries(); return ""; };
    // ---- actions
    OP("ActLandCover") {
        auto act = std::make_unique<ActionLandCoverChange>();
        for (const auto& x : a[1]) act->AddChange(Num(x[0]), x[1].as<int>(), x[2].as<string>(), Num(x[3]));
        Action* p = act.get();
        c.actions.push_back(std::move(act));
        return Ret(c.model->AddAction(p)) + ",\"k\":" + std::to_string(c.actions.size() - 1);
    };
    OP("ActDeltaH") {
        auto act = std::make_unique<ActionGlacierEvolutionDeltaH>();
        act->AddLookupTables(a[1].as<int>(), S(a, 2), VecI(a[3]), Mat(a[4]), Mat(a[5]));
        Action* p = act.get();
        c.actions.push_back(std::move(act));
        return Ret(c.model->AddAction(p)) + ",\"k\":" + std::to_string(c.actions.size() - 1);
    };
    OP("ActAreaScaling") {
        auto act = std::make_unique<ActionGlacierEvolutionAreaScaling>();
        act->AddLookupTables(a[1].as<int>(), S(a, 2), VecI(a[3]), Mat(a[4]), Mat(a[5]));
        Action* p = act.get();
        c.actions.push_back(std::move(act));
        return Ret(c.model->AddAction(p)) + ",\"k\":" + std::to_string(c.actions.size() - 1);
    };
    OP("ActSnowToIce") {
        auto act = std::make_unique<ActionGlacierSnowToIceTransformation>(a[1].as<int>(), a[2].as<int>(), S(a, 3));
        Action* p = act.get();
        c.actions.push_back(std::move(act));
        return Ret(c.model->AddAction(p)) + ",\"k\":" + std::to_string(c.actions.size() - 1);
    };
    OP("ActApply") { return Ret(c.actions[a[1].as<int>()]->Apply(Num(a[2]))); };
    OP("ProbeStep") {
        // ["ProbeStep", tag, mode]: called at every step boundary
        auto act = std::make_unique<Probe>(true);
        act->tag = S(a, 1);
        act->mode = S(a, 2, "snap");
        act->model = c.model.get();
        act->sink = &c.sink;
        Action* p = act.get();
        c.actions.push_back(std::move(act));
        return Ret(c.model->AddAction(p));
    };
    OP("ProbeDates") {
        // ["ProbeDates", tag, mode, [dates], [[month, day], ...]]
        auto act = std::make_unique<Probe>(false);
        act->tag = S(a, 1);
        act->mode = S(a, 2, "mark");
        act->model = c.model.get();
        act->sink = &c.sink;
        act->SetDates(VecD(a[3]));
        if (a.size() > 4)
            for (const auto& md : a[4]) act->AddRecursiveDate(md[0].as<int>(), md[1].as<int>());
        Action* p = act.get();
        c.actions.push_back(std::move(act));
        return Ret(c.model->AddAction(p));
    };
    OP("ActionCounts") {
        return ",\"n\":" + std::to_string(c.model->GetActionCount()) + ",\"items\":" +
               std::to_string(c.model->GetSporadicActionItemCount()) + ",\"dates\":" +
               Arr(c.model->GetActionsManager()->GetSporadicActionDates(), D);
    };
    OP("Sink") {
        string o = ",\"sink\":[";
        for (size_t i = 0; i < c.sink.size(); ++i) o += (i ? "," : "") + c.sink[i];
        o += "]";
        c.sink.clear();
        return o;
    };
    // ---- stand-alone components
    OP("SerValues") {
        // ["SerValues", start, end, step, unit, values, [op, arg]...]: a regular series driven by hand
        TimeSeriesDataRegular d(Num(a[1]), Num(a[2]), a[3].as<int>(), Unit(S(a, 4)));
        string o = ",\"vals\":" + B(d.SetValues(VecD(a[5]))) + ",\"res\":[";
        for (size_t i = 6; i < a.size(); ++i) {
            string op = a[i][0].as<string>();
            o += i > 6 ? "," : "";
            try {
                if (op == "cur") o += D(d.GetCurrentValue());
                else if (op == "at") o += D(d.GetValueFor(Num(a[i][1])));
                else if (op == "set") o += B(d.SetCursorToDate(Num(a[i][1])));
                else if (op == "adv") o += B(d.AdvanceOneTimeStep());
                else if (op == "sum") o += D(d.GetSum());
                else o += "null";
            } catch (const std::exception& e) {
                o += "{\"exc\":" + Esc(e.what()) + "}";
            }
        }
        return o + "]";
    };
    OP("SerIrr") {
        vecDouble dates = VecD(a[1]);
        TimeSeriesDataIrregular d(dates);
        string o = ",\"vals\":" + B(d.SetValues(VecD(a[2]))) + ",\"res\":[";
        for (size_t i = 3; i < a.size(); ++i) {
            string op = a[i][0].as<string>();
            o += i > 3 ? "," : "";
            try {
                if (op == "cur") o += D(d.GetCurrentValue());
                else if (op == "at") o += D(d.GetValueFor(Num(a[i][1])));
                else if (op == "set") o += B(d.SetCursorToDate(Num(a[i][1])));
                else if (op == "adv") o += B(d.AdvanceOneTimeStep());
                else if (op == "sum") o += D(d.GetSum());
                else o += "null";
            } catch (const std::exception& e) {
                o += "{\"exc\":" + Esc(e.what()) + "}";
            }
        }
        return o + "]";
    };
    OP("Find") {
        // ["Find", values, value, tol, kind]
        string kind = S(a, 4, "double");
        int r;
        if (kind == "int") {
            vecInt v;
            for (const auto& x : a[1]) v.push_back(x.as<int>());
            if (v.empty()) return ",\"r\":-999";
            r = Find(&v[0], &v[v.size() - 1], a[2].as<int>(), a[3].as<int>(), false);
        } else if (kind == "float") {
            vecFloat v = VecF(a[1]);
            r = Find(&v[0], &v[v.size() - 1], (float)Num(a[2]), (float)Num(a[3]), false);
        } else {
            vecDouble v = VecD(a[1]);
            r = Find(&v[0], &v[v.size() - 1], Num(a[2]), Num(a[3]), false);
        }
        return ",\"r\":" + std::to_string(r);
    };
    OP("MJD") {
        return ",\"r\":" + D(GetMJD(a[1].as<int>(), a[2].as<int>(), a[3].as<int>(), a[4].as<int>(), a[5].as<int>(),
                                    a[6].as<int>()));
    };
    OP("FromMJD") {
        Time x = GetTimeStructFromMJD(Num(a[1]));
        return ",\"r\":[" + std::to_string(x.year) + "," + std::to_string(x.month) + "," + std::to_string(x.day) + "," +
               std::to_string(x.hour) + "," + std::to_string(x.min) + "," + std::to_string(x.sec) + "]";
    };
    OP("ParseDate") {
        static const std::map<string, TimeFormat> f = {{"ISOdate", ISOdate},
                                                       {"ISOdateTime", ISOdateTime},
                                                       {"YYYY_MM_DD", YYYY_MM_DD},
                                                       {"YYYY_MM_DD_hh_mm", YYYY_MM_DD_hh_mm},
                                                       {"YYYY_MM_DD_hh_mm_ss", YYYY_MM_DD_hh_mm_ss},
                                                       {"DD_MM_YYYY", DD_MM_YYYY},
                                                       {"DD_MM_YYYY_hh_mm", DD_MM_YYYY_hh_mm},
                                                       {"DD_MM_YYYY_hh_mm_ss", DD_MM_YYYY_hh_mm_ss},
                                                       {"guess", guess}};
        return ",\"r\":" + D(ParseDate(S(a, 1), f.at(S(a, 2))));
    };
    OP("IncDate") { return ",\"r\":" + D(IncrementDateBy(Num(a[1]), a[2].as<int>(), Unit(S(a, 3)))); };
    OP("Clock") {
        // ["Clock", start, end, step, unit, maxSteps]: the clock alone
        TimeMachine tm;
        tm.Initialize(Num(a[1]), Num(a[2]), a[3].as<int>(), Unit(S(a, 4)));
        string o = ",\"valid\":" + B(tm.IsValid()) + ",\"n\":" + std::to_string(tm.GetTimeStepCount()) + ",\"dt\":" +
                   D(*tm.GetTimeStepPointer()) + ",\"dates\":[";
        int lim = a[5].as<int>();
        int i = 0;
        for (; i < lim && !tm.IsOver(); ++i) {
            o += (i ? "," : "") + D(tm.GetDate());
            tm.IncrementTime();
        }
        o += "],\"over\":" + B(tm.IsOver());
        tm.Reset();
        return o + ",\"reset\":" + D(tm.GetDate());
    };
    OP("DayOfYear") {
        TimeMachine tm;
        tm.Initialize(Num(a[1]), Num(a[1]) + 10, 1, TimeUnit::Day);
        return ",\"r\":" + std::to_string(tm.GetCurrentDayOfYear());
    };
    OP("ParUpdater") {
        // ["ParUpdater", [ {kind, ...} ], [dates]]
        std::vector<std::unique_ptr<Parameter>> ps;
        ParametersUpdater up;
        string o = ",\"set\":[";
        bool first = true;
        for (const auto& x : a[1]) {
            auto p = std::make_unique<Parameter>(x["name"].as<string>(), (float)Num(x["value"]));
            string kind = x["kind"].as<string>();
            bool ok = true;
            if (kind == "yearly") {
                ParameterModifier m(ParameterModifierType::Yearly);
                ok = m.SetYearlyValues(x["y0"].as<int>(), x["y1"].as<int>(), VecF(x["values"]));
                if (ok) p->SetModifier(m);
            } else if (kind == "monthly") {
                ParameterModifier m(ParameterModifierType::Monthly);
                ok = m.SetMonthlyValues(VecF(x["values"]));
                if (ok) p->SetModifier(m);
            } else if (kind == "dates") {
                ParameterModifier m(ParameterModifierType::Dates);
                ok = m.SetDatesAndValues(VecD(x["dates"]), VecF(x["values"]));
                if (ok) p->SetModifier(m);
            }
            if (p->HasModifier()) up.AddParameter(p.get());
            ps.push_back(std::move(p));
            o += (first ? "" : ",") + B(ok);
            first = false;
        }
        o += "],\"res\":[";
        first = true;
        for (const auto& d : a[2]) {
            up.DateUpdate(Num(d));
            o += first ? "[" : ",[";
            first = false;
            for (size_t i = 0; i < ps.size(); ++i) o += (i ? "," : "") + D(ps[i]->GetValue());
            o += "]";
        }
        return o + "]";
    };
    return t;
}

static string RunScenario(const Node& sc) {
    static const std::map<string, Fn> table = Table();
    std::map<int, std::unique_ptr<Ctx>> ctxs;
    int cur = 0;
    ctxs[0] = std::make_unique<Ctx>();
    string out;
    bool quiet = sc["quiet"] && sc["quiet"].as<bool>();
    bool first = true;
    const Node& ops = sc["ops"];
    for (size_t i = 0; i < ops.size(); ++i) {
        const Node& a = ops[i];
        string name = a[0].as<string>();
        string extra, err;
        bool exc = false;
        if (name == "Ctx") {
            cur = a[1].as<int>();
            if (!ctxs.count(cur)) ctxs[cur] = std::make_unique<Ctx>();
            continue;
        }
        try {
            auto it = table.find(name);
            if (it == table.end()) {
                fprintf(stderr, "hbdrive: unknown op %s\n", name.c_str());
                _exit(97);
            }
            extra = it->second(*ctxs[cur], a);
        } catch (const std::exception& e) {
            exc = true;
            err = e.what();
        }
        if (quiet && extra.empty() && !exc) continue;
        out += first ? "" : ",";
        first = false;
        out += "{\"k\":" + std::to_string(i) + ",\"op\":" + Esc(name) + ",\"c\":" + std::to_string(cur);
        if (exc) out += ",\"exc\":" + Esc(err);
        out += extra + "}";
        // A model that could not be initialized is not driven any further.
        if ((name == "Init" || name == "InitBasin") && (exc || extra.find("\"ret\":false") != string::npos)) break;
    }
    // Leave without running destructors of half-built models twice: the child exits with _exit.
    return out;
}

int main(int argc, char** argv) {
    if (argc < 4) {
        fprintf(stderr, "usage: hbdrive scenarios.ndjson out.ndjson scratchdir [timeout]\n");
        return 2;
    }
    std::ifstream in(argv[1]);
    std::ofstream out(argv[2]);
    int timeout = argc > 4 ? atoi(argv[4]) : 20;
    string line;
    long n = 0;
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        n++;
        string dir = string(argv[3]) + "/s" + std::to_string(n);
        std::filesystem::create_directories(dir);
        string part = dir + "/events";
        pid_t pid = fork();
        if (pid == 0) {
            alarm(timeout);
            g_dir = dir;
            int devnull = ::open("/dev/null", O_WRONLY);
            if (!getenv("HBDRIVE_DEBUG")) dup2(devnull, 1);
            LogSetLevel(LogLevel::Error);
            if (!getenv("HBDRIVE_DEBUG")) {
                std::cout.setstate(std::ios::failbit);
                std::cerr.setstate(std::ios::failbit);
            }
            Node sc = YAML::Load(line);
            string ev = RunScenario(sc);
            std::ofstream f(part);
            f << ev;
            f.close();
            _exit(0);
        }
        int status = 0;
        waitpid(pid, &status, 0);
        string ev;
        bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
        if (WIFEXITED(status) && WEXITSTATUS(status) == 97) return 3;
        if (ok) {
            std::ifstream f(part);
            std::stringstream ss;
            ss << f.rdbuf();
            ev = ss.str();
        } else {
            int sig = WIFSIGNALED(status) ? WTERMSIG(status) : 0;
            ev = "{\"k\":-1,\"op\":\"Crash\",\"c\":0,\"sig\":" + std::to_string(sig) + ",\"code\":" +
                 std::to_string(WIFEXITED(status) ? WEXITSTATUS(status) : -1) + "}";
        }
        // id is the first string field of the line
        string id;
        auto p = line.find("\"id\"");
        if (p != string::npos) {
            auto q = line.find('"', line.find(':', p));
            auto r = line.find('"', q + 1);
            id = line.substr(q + 1, r - q - 1);
        }
        out << "{\"sc\":" << Esc(id) << ",\"ev\":[" << ev << "]}\n";
        std::filesystem::remove_all(dir);
    }
    return 0;
}
