// K01: devices, channels and setup items from the configuration file and templates (README "Файл конфигурации и шаблоны").
//
// One case: templates (generated, or one of the templates of the repository) and a configuration file. The real
// LoadConfig reads both. The oracle derives from the same JSON what every device, channel, register and setup item
// must be, or that the configuration must be refused.
#include "pbt.h"

#include <cmath>
#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

#include "confed_protocol_schemas_map.h"
#include "devices/modbus_device.h"
#include "log.h"
#include "serial_config.h"
#include "templates_map.h"

const char* PROPERTY_ID = "K01";
const char* NONTRIVIAL_RULE = "one case = up to 3 ports with up to 3 devices and their templates, read by LoadConfig. Non-trivial: the configuration "
                              "was accepted and at least one device got channels or setup items both from the template and from the configuration, "
                              "or it was refused";

using namespace pbt;
namespace fs = std::filesystem;
using J = Json::Value;

namespace
{
    std::string RepoDir()
    {
        return getenv("VERIF_REPO_DIR");
    }

    J Load(const std::string& name)
    {
        return WBMQTT::JSON::Parse(RepoDir() + "/" + name);
    }

    struct TStatic
    {
        J Common = Load("wb-mqtt-serial-confed-common.schema.json");
        J Schema = LoadConfigTemplatesSchema(RepoDir() + "/wb-mqtt-serial-device-template.schema.json", Common);
        J Ports = Load("wb-mqtt-serial-ports.schema.json");
        TSerialDeviceFactory Factory;
        TProtocolConfedSchemasMap ProtocolSchemas{RepoDir() + "/protocols", Common};
        std::vector<std::pair<std::string, J>> Real; // file, content
        TStatic()
        {
            RegisterProtocols(Factory);
            std::set<std::string> names;
            for (auto& e: fs::directory_iterator(RepoDir() + "/templates"))
                if (e.path().extension() == ".json")
                    names.insert(e.path().string());
            for (auto& n: names) {
                J t = WBMQTT::JSON::Parse(n);
                std::string p = t["device"].get("protocol", "modbus").asString();
                if (p == "modbus" || p == "modbus_io")
                    if (t["device"].get("channels", J()).size() <= 200) // validation of long ones takes seconds
                        Real.emplace_back(n, t);
            }
        }
    };
    TStatic& Static()
    {
        static TStatic s;
        return s;
    }

    struct TRefused
    {
        std::string Why;
    };

    // --- Conditions: numbers, parameters, comparisons, && and ||, parentheses, isDefined

    struct TCond
    {
        const std::string& S;
        const J& Params;
        size_t P = 0;

        void Space()
        {
            while (P < S.size() && isspace((unsigned char)S[P]))
                ++P;
        }
        bool Take(const char* t)
        {
            Space();
            if (S.compare(P, strlen(t), t))
                return false;
            P += strlen(t);
            return true;
        }
        std::optional<int> Param(const std::string& n)
        {
            if (Params.isMember(n) && Params[n].isNumeric() && Params[n].asDouble() == std::floor(Params[n].asDouble()))
                return Params[n].asInt();
            return std::nullopt;
        }
        struct TVal
        {
            bool Ok;
            long long V;
        };
        std::string Name()
        {
            Space();
            std::string n;
            while (P < S.size() && (isalnum((unsigned char)S[P]) || S[P] == '_'))
                n += S[P++];
            return n;
        }
        TVal Atom()
        {
            if (Take("(")) {
                auto r = Or();
                Take(")");
                return r;
            }
            Space();
            bool neg = P < S.size() && S[P] == '-';
            if (neg)
                ++P;
            if (P < S.size() && isdigit((unsigned char)S[P])) {
                long long v = 0;
                while (P < S.size() && isdigit((unsigned char)S[P]))
                    v = v * 10 + (S[P++] - '0');
                return {true, neg ? -v : v};
            }
            auto n = Name();
            if (n.empty())
                throw std::runtime_error("reference can't parse condition: " + S);
            if (n == "isDefined" && Take("(")) {
                auto x = Name();
                Take(")");
                return {true, Param(x) ? 1 : 0};
            }
            auto v = Param(n);
            return {bool(v), v ? *v : 0};
        }
        TVal Cmp()
        {
            auto l = Atom();
            for (auto op: {"==", "!=", "<=", ">=", "<", ">"}) {
                if (Take(op)) {
                    auto r = Atom();
                    std::string o = op;
                    if (!l.Ok || !r.Ok)
                        return {true, o == "!="};
                    return {true,
                            o == "==" ? l.V == r.V : o == "!=" ? l.V != r.V : o == "<=" ? l.V <= r.V : o == ">=" ? l.V >= r.V : o == "<" ? l.V < r.V : l.V > r.V};
                }
            }
            return l;
        }
        TVal And()
        {
            auto l = Cmp();
            while (Take("&&")) {
                auto r = Cmp();
                l = {true, (l.Ok && l.V) && (r.Ok && r.V)};
            }
            return l;
        }
        TVal Or()
        {
            auto l = And();
            while (Take("||")) {
                auto r = And();
                l = {true, (l.Ok && l.V) || (r.Ok && r.V)};
            }
            return l;
        }
    };
    bool Holds(const J& item, const J& params)
    {
        if (!item.isMember("condition") || item["condition"].asString().empty())
            return true;
        std::string s = item["condition"].asString();
        TCond c{s, params};
        auto r = c.Or();
        return r.Ok && r.V;
    }

    // --- What must be

    struct TReg
    {
        int Type = 0;
        std::string TypeName;
        std::optional<uint32_t> Addr, WAddr;
        uint32_t Off = 0, Width = 0;
        RegisterFormat Format = U16;
        double Scale = 1, Offset = 0, Round = 0;
        int Sporadic = 0; // 1 - only events, 2 - with polling
        int Access = 0;   // 0 - rw, 1 - ro, 2 - wo
        bool WordLe = false, ByteLe = false;
        std::optional<uint64_t> Err, Unsup;
        std::optional<long long> Rate, Period;
        std::string Fw;
        std::string ControlType;
    };
    using TTitles = std::map<std::string, std::string>;
    struct TChan
    {
        std::string Id, Type, On, Off, Units;
        bool ReadOnly = false, Hidden = false;
        std::optional<double> Min, Max;
        TTitles Titles;
        std::map<std::string, TTitles> Enum;
        std::vector<TReg> Regs;
    };
    struct TSetup
    {
        std::string Name, Value;
        TReg Reg;
        size_t Order;
    };
    struct TDev
    {
        std::string Id, Name, Slave, Type, Protocol;
        std::map<std::string, long long> Num; // numeric settings
        std::vector<int> Password;
        std::vector<TChan> Channels;
        std::vector<TSetup> Setup;
        std::optional<TReg> Sn;
        bool Wb = false;
        bool SporadicOnly = true;
        // statistics
        int FromTemplate = 0, FromUser = 0;
    };

    struct TCtx
    {
        std::string Name, Mqtt;
        uint32_t Base = 0;
        int Stride = 0;
        TTitles Prefix;
        J Translations;
    };

    uint64_t Uint(const J& v)
    {
        if (v.isString())
            return std::stoull(v.asString(), 0, 0);
        return v.asUInt64();
    }
    std::string IntText(const J& v)
    {
        if (!v.isString())
            return v.asString();
        auto s = v.asString();
        return std::to_string(std::stoll(s, 0, s.find("0x") != std::string::npos ? 16 : 10));
    }

    const std::map<std::string, std::pair<RegisterFormat, uint32_t>> FORMATS = {
        {"s16", {S16, 2}},   {"u16", {U16, 2}},    {"s8", {S8, 1}},       {"u8", {U8, 1}},       {"s24", {S24, 3}},     {"u24", {U24, 3}},     {"s32", {S32, 4}},
        {"u32", {U32, 4}},   {"s64", {S64, 8}},    {"u64", {U64, 8}},     {"bcd8", {BCD8, 1}},   {"bcd16", {BCD16, 2}}, {"bcd24", {BCD24, 3}}, {"bcd32", {BCD32, 4}},
        {"float", {Float, 4}}, {"double", {Double, 8}}, {"char8", {Char8, 1}}, {"string", {String, 0}}, {"string8", {String8, 0}}};

    struct TRegType
    {
        int Type;
        const char* Control;
        const char* Format;
        bool Ro;
    };
    const std::map<std::string, TRegType> TYPES = {{"holding", {Modbus::REG_HOLDING, "value", "u16", false}},
                                                   {"holding_single", {Modbus::REG_HOLDING_SINGLE, "value", "u16", false}},
                                                   {"holding_multi", {Modbus::REG_HOLDING_MULTI, "value", "u16", false}},
                                                   {"coil", {Modbus::REG_COIL, "switch", "u8", false}},
                                                   {"discrete", {Modbus::REG_DISCRETE, "switch", "u8", true}},
                                                   {"input", {Modbus::REG_INPUT, "value", "u16", true}},
                                                   {"press_counter", {Modbus::REG_INPUT, "value", "u16", true}}};

    // "reg", "reg:shift:width"
    void Address(const J& v, uint32_t& a, uint32_t& off, uint32_t& width)
    {
        off = width = 0;
        if (!v.isString()) {
            a = v.asUInt();
            return;
        }
        std::stringstream ss(v.asString());
        std::string x, y, z;
        std::getline(ss, x, ':');
        std::getline(ss, y, ':');
        std::getline(ss, z, ':');
        a = std::stoul(x, 0, 0);
        if (!y.empty())
            off = std::stoul(y);
        if (!z.empty())
            width = std::stoul(z);
    }

    std::optional<long long> Interval(const J& r, const char* key)
    {
        if (!r.isMember(key) || r[key].asInt64() < 0)
            return std::nullopt;
        return r[key].asInt64();
    }

    TReg Register(const J& r, const TCtx& c, const std::string& protocol)
    {
        TReg x;
        x.TypeName = r.get("reg_type", "holding").asString();
        auto t = TYPES.find(x.TypeName);
        if (t == TYPES.end() || (protocol == "modbus_io" && (x.TypeName == "holding_single" || x.TypeName == "holding_multi" || x.TypeName == "press_counter")))
            throw TRefused{"register type"};
        x.Type = t->second.Type;
        x.ControlType = t->second.Control;
        auto f = FORMATS.at(r.get("format", t->second.Format).asString());
        x.Format = f.first;
        bool str = x.Format == String || x.Format == String8;
        uint32_t strideRegs = (c.Stride * f.second + 1) / 2; // registers have 2 bytes
        auto has = [&](const char* k) { return r.isMember(k) && !(r[k].isString() && r[k].asString().empty()); };
        if (has("address")) {
            uint32_t a;
            Address(r["address"], a, x.Off, x.Width);
            if (r.isMember("string_data_size"))
                x.Width = r["string_data_size"].asInt() * 8;
            x.Addr = x.WAddr = c.Base + a + strideRegs;
        }
        if (has("write_address")) {
            uint32_t a, off, width;
            Address(r["write_address"], a, off, width);
            if (r.isMember("string_data_size"))
                width = r["string_data_size"].asInt() * 8;
            if (width && (!x.Addr || off != x.Off || width != x.Width))
                throw TRefused{"bits of write_address"};
            x.WAddr = c.Base + a + strideRegs;
        }
        if (str && !x.Width)
            throw TRefused{"no string size"};
        if (!str && x.Off >= f.second * 8)
            throw TRefused{"bit offset"};
        if (!x.Addr && !x.WAddr)
            throw TRefused{"no address"};
        bool ro = t->second.Ro || r.get("readonly", false).asBool() || r.get("channel_readonly", false).asBool();
        if (!x.Addr) {
            if (ro)
                throw TRefused{"read only without address"};
            x.Access = 2;
        } else {
            x.Access = ro;
        }
        x.Scale = r.get("scale", 1.0).asDouble();
        x.Offset = r.get("offset", 0.0).asDouble();
        x.Round = r.get("round_to", 0.0).asDouble();
        x.Sporadic = r.get("semi-sporadic", false).asBool() ? 2 : r.get("sporadic", false).asBool() ? 1 : 0;
        x.WordLe = r.get("word_order", "").asString() == "little_endian";
        x.ByteLe = r.get("byte_order", "").asString() == "little_endian";
        if (r.isMember("error_value"))
            x.Err = Uint(r["error_value"]);
        if (r.isMember("unsupported_value"))
            x.Unsup = Uint(r["unsupported_value"]);
        x.Rate = Interval(r, "read_rate_limit_ms");
        x.Period = Interval(r, "read_period_ms");
        return x;
    }

    // The name in all languages of the web interface
    TTitles Titles(const std::string& name, bool withId, const TCtx& c, bool prefix = true)
    {
        TTitles res;
        const TTitles none;
        const TTitles& pre = prefix ? c.Prefix : none;
        std::string mqtt = prefix && !c.Mqtt.empty() ? c.Mqtt + " " : "";
        std::set<std::string> langs;
        if (c.Translations.isObject())
            for (auto& l: c.Translations.getMemberNames())
                if (c.Translations[l].isMember(name))
                    langs.insert(l);
        for (auto& p: pre)
            langs.insert(p.first);
        for (auto& l: langs) {
            bool translated = c.Translations.isObject() && c.Translations.isMember(l) && c.Translations[l].isMember(name);
            std::string text = translated ? c.Translations[l][name].asString() : name;
            if (pre.count(l))
                res[l] = pre.at(l) + " " + text;
            else if (pre.count("en"))
                res[l] = pre.at("en") + " " + text;
            else
                res[l] = mqtt + text;
        }
        if (withId && !res.count("en"))
            res["en"] = mqtt + name;
        return res;
    }

    bool IsSerial(const J& ch)
    {
        auto n = ch["name"].asString();
        return n == "Serial" || n == "serial_number" || n == "Serial NO";
    }

    void AddSetup(TDev& d, const J& s, const TCtx& c)
    {
        TSetup x;
        x.Name = s.get("title", "<unnamed>").asString();
        if (!c.Name.empty())
            x.Name = c.Name + " " + x.Name;
        x.Reg = Register(s, c, d.Protocol);
        const auto& v = s["value"];
        if (v.isDouble() && !v.isInt64()) {
            char buf[64];
            snprintf(buf, sizeof(buf), "%.15g", v.asDouble());
            x.Value = buf;
        } else if (v.isDouble() && v.isInt64()) {
            x.Value = std::to_string(v.asInt64());
        } else {
            x.Value = v.asString();
        }
        // The same register is set once: the first one counts
        for (auto& y: d.Setup) {
            if (y.Reg.TypeName == x.Reg.TypeName && y.Reg.Off == x.Reg.Off && y.Reg.Width == x.Reg.Width &&
                (x.Reg.Access == 2 ? x.Reg.WAddr : x.Reg.Addr) == (y.Reg.Access == 2 ? y.Reg.WAddr : y.Reg.Addr))
                return;
        }
        // A set can't hold two items with the same type, write address and bit offset
        if (!d.Num["preserve_setup_order"])
            for (auto& y: d.Setup)
                if (y.Reg.Type == x.Reg.Type && y.Reg.Off == x.Reg.Off && y.Reg.WAddr == x.Reg.WAddr)
                    return;
        x.Order = d.Setup.size();
        d.Setup.push_back(x);
    }

    void AddChannel(TDev& d, const J& ch, const TCtx& c)
    {
        if (!ch.get("enabled", true).asBool() && !ch.get("hidden", false).asBool()) {
            if (IsSerial(ch))
                d.Sn = Register(ch, c, d.Protocol);
            return;
        }
        if (!ch.get("sporadic", false).asBool())
            d.SporadicOnly = false;
        TChan x;
        std::string name = ch["name"].asString();
        x.Id = ch.isMember("id") ? ch["id"].asString() : name;
        if (!c.Mqtt.empty())
            x.Id = c.Mqtt + " " + x.Id;
        std::string control;
        if (ch.isMember("consists_of")) {
            for (auto& r: ch["consists_of"]) {
                auto reg = Register(r, c, d.Protocol);
                reg.Rate = Interval(ch, "read_rate_limit_ms");
                reg.Period = Interval(ch, "read_period_ms");
                x.Regs.push_back(reg);
                if (reg.Access != x.Regs[0].Access)
                    throw TRefused{"mixed access in consists_of"};
            }
        } else {
            try {
                x.Regs.push_back(Register(ch, c, d.Protocol));
            } catch (const TRefused&) {
                return; // the rest of the device works
            }
            x.Regs[0].Fw = ch.get("fw", "").asString();
        }
        x.Type = ch.get("type", x.Regs[0].ControlType).asString();
        if (x.Type == "wo-switch" || x.Type == "pushbutton") {
            if (x.Type == "wo-switch")
                x.Type = "switch";
            for (auto& r: x.Regs)
                r.Access = 2;
        }
        x.ReadOnly = x.Regs[0].Access == 1;
        x.Titles = Titles(name, ch.isMember("id"), c);
        if (ch.isMember("enum")) {
            const auto& e = ch["enum"];
            bool titles = ch.isMember("enum_titles");
            if (!titles || e.size() == ch["enum_titles"].size())
                for (unsigned i = 0; i < e.size(); ++i)
                    x.Enum[e[i].asString()] = titles ? Titles(ch["enum_titles"][i].asString(), true, c, false) : TTitles();
        }
        for (auto k: {"max", "min"})
            if (ch.isMember(k)) {
                auto& to = std::string(k) == "max" ? x.Max : x.Min;
                const auto& v = ch[k];
                if (v.isString()) {
                    auto s = v.asString();
                    std::replace(s.begin(), s.end(), ',', '.');
                    to = s.find("0x") == 0 ? double(std::stoull(s, 0, 16)) : std::stod(s);
                } else {
                    to = v.asDouble();
                }
            }
        for (auto k: {"on_value", "off_value"})
            if (ch.isMember(k)) {
                if (x.Regs.size() != 1)
                    throw TRefused{"on_value of several registers"};
                (std::string(k) == "on_value" ? x.On : x.Off) = IntText(ch[k]);
            }
        x.Units = ch.get("units", "").asString();
        x.Hidden = ch.get("hidden", false).asBool();
        if (IsSerial(ch))
            d.Sn = x.Regs[0];
        d.Channels.push_back(x);
    }

    // Parameters: [id, declaration]
    std::vector<std::pair<std::string, J>> Parameters(const J& p)
    {
        std::vector<std::pair<std::string, J>> res;
        if (p.isArray()) {
            for (auto& x: p)
                res.emplace_back(x["id"].asString(), x);
        } else if (p.isObject()) {
            for (auto& n: p.getMemberNames())
                res.emplace_back(n, p[n]);
        }
        return res;
    }

    // The web interface and the schema: type and range of parameters
    void CheckParameters(const J& params, const J& user, bool conditions)
    {
        for (auto& p: Parameters(params)) {
            if (conditions && !Holds(p.second, user))
                continue;
            if (!user.isMember(p.first)) {
                if (p.second.get("required", false).asBool())
                    throw TRefused{"no required parameter " + p.first};
                continue;
            }
            const auto& v = user[p.first];
            if (!v.isNumeric())
                throw TRefused{"parameter isn't a number"};
            if (p.second.isMember("min") && v.asDouble() < p.second["min"].asDouble())
                throw TRefused{"less than minimum"};
            if (p.second.isMember("max") && v.asDouble() > p.second["max"].asDouble())
                throw TRefused{"more than maximum"};
            if (p.second.isMember("enum")) {
                bool found = false;
                for (auto& e: p.second["enum"])
                    found |= e.asDouble() == v.asDouble();
                if (!found)
                    throw TRefused{"not in enum"};
            }
        }
    }

    // Types and parameters of subdevices. Subdevices that are switched off or whose conditions are false are checked too
    void CheckSubdevices(const J& tmplChannels, const J& userChannels, const std::map<std::string, J>& subdevices)
    {
        for (auto& t: tmplChannels)
            for (auto& u: userChannels) {
                if (u["name"] != t["name"])
                    continue;
                if (t.isMember("oneOf")) {
                    bool found = false;
                    for (auto& o: t["oneOf"])
                        found |= u.isMember("device_type") && o == u["device_type"];
                    if (!found)
                        throw TRefused{"subdevice type"};
                } else if (t.isMember("device_type") != u.isMember("device_type") || (t.isMember("device_type") && u["device_type"] != t["device_type"])) {
                    throw TRefused{"subdevice type"};
                }
                if (u.isMember("device_type")) {
                    auto& s = subdevices.at(u["device_type"].asString());
                    CheckParameters(s["parameters"], u, false);
                    CheckSubdevices(s["channels"], u["channels"], subdevices);
                }
            }
    }

    // Setup items of a device or of a subdevice: of the configuration, parameters, of the template
    void AddSetups(TDev& d, const J& tmpl, const J& user, const J* params, const TCtx& c)
    {
        static const J nothing;
        for (auto& s: user["setup"]) {
            AddSetup(d, s, c);
            ++d.FromUser;
        }
        for (auto& p: Parameters(tmpl["parameters"])) {
            if (!user.isMember(p.first) || !user[p.first].isNumeric() || p.second.get("readonly", false).asBool())
                continue;
            if (params && !Holds(p.second, *params))
                continue;
            J s(p.second);
            s["value"] = user[p.first];
            AddSetup(d, s, c);
            ++d.FromUser;
        }
        for (auto& s: tmpl["setup"]) {
            if (params && !Holds(s, *params))
                continue;
            AddSetup(d, s, c);
            ++d.FromTemplate;
        }
    }

    // A channel of the template with user's settings
    J Merged(J ch, const J& user)
    {
        bool sub = ch.isMember("device_type") || ch.isMember("oneOf");
        static const std::set<std::string> fixed = {"id",        "type",      "reg_type",   "address",   "format",      "max",               "scale",      "offset",
                                                    "round_to",  "on_value",  "off_value",  "error_value", "unsupported_value", "word_order", "byte_order", "consists_of"};
        for (auto& k: user.getMemberNames()) {
            if (k == "name" || k == "device_type" || (sub ? k == "id" || k == "oneOf" : fixed.count(k)))
                continue;
            if (k == "readonly" && ch.get("readonly", false).asBool())
                continue;
            ch[k] = user[k];
        }
        return ch;
    }

    void AddChannels(TDev& d, const J& tmplChannels, const J& userChannels, const J* params, const TCtx& c, const std::map<std::string, J>& subdevices);

    void AddSubdevice(TDev& d, const J& ch, const TCtx& c, const std::map<std::string, J>& subdevices)
    {
        if (!ch.get("enabled", true).asBool() && !ch.get("hidden", false).asBool())
            return;
        d.SporadicOnly = false;
        auto type = ch["device_type"].asString();
        const J& s = subdevices.at(type);
        TCtx n;
        n.Translations = c.Translations;
        std::string name = ch["name"].asString();
        n.Name = c.Name.empty() ? name : c.Name + " " + name;
        n.Base = c.Base + (ch.isMember("shift") ? Uint(ch["shift"]) : 0);
        n.Stride = ch.get("stride", 0).asInt();
        bool withId = ch.isMember("id");
        std::string id = withId ? ch["id"].asString() : name;
        if (!id.empty())
            n.Prefix = Titles(name, withId, c);
        n.Mqtt = c.Mqtt.empty() ? id : id.empty() ? c.Mqtt : c.Mqtt + " " + id;
        AddSetups(d, s, ch, nullptr, n);
        AddChannels(d, s["channels"], ch["channels"], nullptr, n, subdevices);
    }

    void AddChannels(TDev& d, const J& tmplChannels, const J& userChannels, const J* params, const TCtx& c, const std::map<std::string, J>& subdevices)
    {
        std::set<std::string> names;
        std::vector<J> res;
        for (auto& t: tmplChannels) {
            J ch(t);
            names.insert(t["name"].asString());
            for (auto& u: userChannels)
                if (u["name"] == t["name"]) {
                    if (t.isMember("oneOf"))
                        ch["device_type"] = u["device_type"];
                    ch = Merged(ch, u);
                    ++d.FromUser;
                }
            res.push_back(ch);
            ++d.FromTemplate;
        }
        for (auto& u: userChannels)
            if (!names.count(u["name"].asString())) {
                if (u.isMember("device_type"))
                    throw TRefused{"unknown subdevice"};
                res.push_back(u);
                ++d.FromUser;
            }
        for (auto& ch: res) {
            if (params && !Holds(ch, *params))
                continue;
            if (ch.isMember("device_type"))
                AddSubdevice(d, ch, c, subdevices);
            else
                AddChannel(d, ch, c);
        }
    }

    const std::vector<std::pair<std::string, long long>> SETTINGS = {{"frame_timeout_ms", 20},
                                                                     {"response_timeout_ms", -1},
                                                                     {"device_timeout_ms", 3000},
                                                                     {"device_max_fail_cycles", 2},
                                                                     {"max_write_fail_time_s", 600},
                                                                     {"max_reg_hole", 0},
                                                                     {"max_bit_hole", 0},
                                                                     {"max_read_registers", 1},
                                                                     {"min_read_registers", 1},
                                                                     {"max_write_registers", 1},
                                                                     {"guard_interval_us", 0},
                                                                     {"stride", 0},
                                                                     {"shift", 0},
                                                                     {"access_level", 1},
                                                                     {"min_request_interval", 0}};

    uint32_t Slave(const std::string& s)
    {
        return std::stoul(s, 0, 0);
    }

    // Old formats of the configuration file
    void Upgrade(J& d, const std::map<std::string, J>& templates)
    {
        auto rate = [](J& n) {
            if (n.isMember("poll_interval")) {
                if (!n.isMember("read_rate_limit_ms"))
                    n["read_rate_limit_ms"] = n["poll_interval"];
                n.removeMember("poll_interval");
            }
        };
        rate(d);
        if (d.isMember("slave_id") && !d["slave_id"].isString())
            d["slave_id"] = d["slave_id"].asString();
        if (d.isMember("slave_id") && d["slave_id"].asString().empty())
            d.removeMember("slave_id");
        J channels(Json::arrayValue);
        for (auto c: d["channels"]) {
            rate(c);
            bool keep = c.isMember("address") || c.isMember("write_address") || c.isMember("consists_of");
            if (d.isMember("device_type"))
                for (auto& t: templates.at(d["device_type"].asString())["device"]["channels"])
                    keep |= t["name"] == c["name"];
            if (keep)
                channels.append(c);
        }
        d.removeMember("channels");
        if (channels.size())
            d["channels"] = channels;
    }

    TDev Device(J user, const J& port, const std::string& defaultId, const std::map<std::string, J>& templates)
    {
        TDev d;
        J tmpl; // section "device" of the template
        bool wb = false;
        if (user.isMember("device_type")) {
            auto t = templates.find(user["device_type"].asString());
            if (t == templates.end())
                throw TRefused{"unknown device type"};
            tmpl = t->second["device"];
            wb = t->second["hw"].size() || tmpl.get("enable_wb_continuous_read", false).asBool();
        }
        Upgrade(user, templates);
        if (!user.isMember("slave_id"))
            throw TRefused{"no slave_id"};
        d.Type = user.get("device_type", "").asString();
        d.Slave = user["slave_id"].asString();
        d.Protocol = user.isMember("device_type") ? tmpl.get("protocol", "modbus").asString() : user.get("protocol", "modbus").asString();
        d.Wb = wb;
        d.Name = user.isMember("name") ? user["name"].asString() : user.isMember("device_type") ? tmpl["name"].asString() + " " + d.Slave : "";
        d.Id = user.isMember("id") ? user["id"].asString() : tmpl.isMember("id") ? tmpl["id"].asString() + "_" + d.Slave : defaultId;
        J values(tmpl.isObject() ? tmpl : J(Json::objectValue));
        for (auto& k: user.getMemberNames())
            values[k] = user[k];
        for (auto& s: SETTINGS)
            d.Num[s.first] = values.isMember(s.first) ? values[s.first].asInt64() : s.first == "max_write_registers" && wb ? 123 : s.second;
        if (d.Num["frame_timeout_ms"] < 0)
            d.Num["frame_timeout_ms"] = 20;
        if (!d.Num["guard_interval_us"])
            d.Num["guard_interval_us"] = port.get("guard_interval_us", 0).asInt64();
        for (auto k: {"preserve_setup_order", "continue_polling_on_illegal_modbus_exception"})
            d.Num[k] = values.get(k, false).asBool();
        for (auto& p: values["password"])
            d.Password.push_back(Uint(p));

        // Values of parameters for conditions: the configuration and default values
        J params(user);
        for (auto& p: Parameters(tmpl["parameters"]))
            if (!params.isMember(p.first) && p.second.isMember("default"))
                params[p.first] = p.second["default"];
        CheckParameters(tmpl["parameters"], user, !tmpl.isMember("subdevices"));
        TCtx c;
        c.Translations = tmpl["translations"];
        std::map<std::string, J> subdevices;
        for (auto& s: tmpl["subdevices"])
            subdevices[s["device_type"].asString()] = s["device"];
        CheckSubdevices(tmpl["channels"], user["channels"], subdevices);
        AddSetups(d, tmpl, user, &params, c);
        AddChannels(d, tmpl["channels"], user["channels"], &params, c, subdevices);
        auto rate = Interval(values, "read_rate_limit_ms");
        if (!rate)
            rate = Interval(port, port.isMember("read_rate_limit_ms") ? "read_rate_limit_ms" : "poll_interval");
        for (auto& ch: d.Channels)
            for (auto& r: ch.Regs)
                if (!r.Rate)
                    r.Rate = rate;
        if (!d.Num["preserve_setup_order"])
            std::stable_sort(d.Setup.begin(), d.Setup.end(), [](const TSetup& a, const TSetup& b) {
                return std::make_tuple(a.Reg.Type, *a.Reg.WAddr, a.Reg.Off) < std::make_tuple(b.Reg.Type, *b.Reg.WAddr, b.Reg.Off);
            });
        return d;
    }

    // --- Comparison

    template<class A, class B> void Same(const A& a, const B& b, const std::string& what)
    {
        if (!(a == b)) {
            std::stringstream ss;
            ss << what << ": " << a << ", must be " << b;
            PBT_FAIL(ss.str());
        }
    }

    void Compare(const TRegisterConfig& r, const TReg& e, const std::string& w, bool rate = true)
    {
        Same(r.Type, e.Type, w + " type");
        Same(r.TypeName, e.TypeName, w + " type name");
        Same(int(r.AccessType), e.Access, w + " access");
        if (e.Access != 2)
            Same(GetUint32RegisterAddress(r.GetAddress()), *e.Addr, w + " address");
        Same(GetUint32RegisterAddress(r.GetWriteAddress()), *e.WAddr, w + " write address");
        Same(r.GetDataOffset(), e.Off, w + " bit offset");
        Same(r.IsPartial(), e.Width != 0, w + " is partial");
        if (e.Width)
            Same(r.GetDataWidth(), e.Width, w + " width");
        Same(int(r.Format), int(e.Format), w + " format");
        Same(r.Scale, e.Scale, w + " scale");
        Same(r.Offset, e.Offset, w + " offset");
        Same(r.RoundTo, e.Round, w + " round_to");
        Same(int(r.SporadicMode), e.Sporadic, w + " sporadic");
        Same(r.WordOrder == EWordOrder::LittleEndian, e.WordLe, w + " word order");
        Same(r.ByteOrder == EByteOrder::LittleEndian, e.ByteLe, w + " byte order");
        Same(bool(r.ErrorValue), bool(e.Err), w + " has error value");
        if (e.Err)
            Same(r.ErrorValue->Get<uint64_t>(), *e.Err, w + " error value");
        Same(bool(r.UnsupportedValue), bool(e.Unsup), w + " has unsupported value");
        if (e.Unsup)
            Same(r.UnsupportedValue->Get<uint64_t>(), *e.Unsup, w + " unsupported value");
        Same(r.ReadPeriod ? r.ReadPeriod->count() : -1, e.Period.value_or(-1), w + " period");
        if (rate)
            Same(r.ReadRateLimit ? r.ReadRateLimit->count() : -1, e.Rate.value_or(-1), w + " rate limit");
        Same(r.FwVersion, e.Fw, w + " fw");
    }

    std::string Text(const TTitles& t)
    {
        std::string s;
        for (auto& x: t)
            s += x.first + "=" + x.second + ";";
        return s;
    }
    TTitles Map(const TTitleTranslations& t)
    {
        return TTitles(t.begin(), t.end());
    }

    void Compare(const TSerialDeviceWithChannels& dev, const TDev& e, bool tcp)
    {
        const auto& c = *dev.Device->DeviceConfig();
        std::string w = "device " + e.Id;
        Same(c.Id, e.Id, w + " id");
        Same(c.Name, e.Name, w + " name");
        Same(c.SlaveId, e.Slave, w + " slave id");
        Same(c.DeviceType, e.Type, w + " type");
        Same(dev.Device->Protocol()->GetName(), e.Protocol + (tcp ? "-tcp" : ""), w + " protocol");
        auto n = e.Num;
        Same(c.FrameTimeout.count(), n["frame_timeout_ms"], w + " frame_timeout_ms");
        Same(c.ResponseTimeout.count(), n["response_timeout_ms"] * (std::is_same_v<decltype(c.ResponseTimeout), std::chrono::microseconds> ? 1000 : 1), w + " response_timeout_ms");
        Same(c.DeviceTimeout.count(), n["device_timeout_ms"], w + " device_timeout_ms");
        Same(c.DeviceMaxFailCycles, n["device_max_fail_cycles"], w + " device_max_fail_cycles");
        Same(c.MaxWriteFailTime.count(), n["max_write_fail_time_s"], w + " max_write_fail_time_s");
        Same(c.MaxRegHole, n["max_reg_hole"], w + " max_reg_hole");
        Same(c.MaxBitHole, n["max_bit_hole"], w + " max_bit_hole");
        Same(c.MaxReadRegisters, n["max_read_registers"], w + " max_read_registers");
        Same((long long)c.MinReadRegisters, n["min_read_registers"], w + " min_read_registers");
        Same((long long)c.MaxWriteRegisters, n["max_write_registers"], w + " max_write_registers");
        Same(c.RequestDelay.count(), n["guard_interval_us"], w + " guard_interval_us");
        Same(c.Stride, n["stride"], w + " stride");
        Same(c.Shift, n["shift"], w + " shift");
        Same(c.AccessLevel, n["access_level"], w + " access_level");
        Same(c.MinRequestInterval.count(), n["min_request_interval"], w + " min_request_interval");
        Same((long long)c.PreserveSetupOrder, n["preserve_setup_order"], w + " preserve_setup_order");
        Same((long long)c.ContinuePollingOnIllegalModbusException, n["continue_polling_on_illegal_modbus_exception"], w + " continue_polling_on_illegal_modbus_exception");
        PBT_CHECK(std::vector<int>(c.Password.begin(), c.Password.end()) == e.Password, w << " password");
        Same(dev.Device->IsWbDevice(), e.Wb, w + " is WB");
        Same(dev.Device->IsSporadicOnly(), e.SporadicOnly, w + " has only sporadic channels");

        Same(dev.Channels.size(), e.Channels.size(), w + " number of channels");
        for (size_t i = 0; i < e.Channels.size(); ++i) {
            const auto& x = *dev.Channels[i];
            const auto& y = e.Channels[i];
            std::string wc = w + " channel " + y.Id;
            Same(x.MqttId, y.Id, wc + " id");
            Same(x.DeviceId, e.Id, wc + " device");
            Same(x.Type, y.Type, wc + " type");
            Same(x.Order, int(i + 1), wc + " order");
            Same(x.ReadOnly, y.ReadOnly, wc + " readonly");
            Same(x.Hidden, y.Hidden, wc + " hidden");
            Same(x.Units, y.Units, wc + " units");
            Same(x.OnValue, y.On, wc + " on_value");
            Same(x.OffValue, y.Off, wc + " off_value");
            Same(std::isnan(x.Max), !y.Max, wc + " has max");
            if (y.Max)
                Same(x.Max, *y.Max, wc + " max");
            Same(std::isnan(x.Min), !y.Min, wc + " has min");
            if (y.Min)
                Same(x.Min, *y.Min, wc + " min");
            Same(x.Precision, y.Regs.size() == 1 ? y.Regs[0].Round : 0, wc + " precision");
            Same(Text(Map(x.GetTitles())), Text(y.Titles), wc + " titles");
            Same(x.GetEnumTitles().size(), y.Enum.size(), wc + " enum size");
            for (auto& en: y.Enum) {
                PBT_CHECK(x.GetEnumTitles().count(en.first), wc << " has no enum " << en.first);
                Same(Text(Map(x.GetEnumTitles().at(en.first))), Text(en.second), wc + " title of enum " + en.first);
            }
            Same(x.Registers.size(), y.Regs.size(), wc + " registers");
            for (size_t r = 0; r < y.Regs.size(); ++r)
                Compare(*x.Registers[r]->GetConfig(), y.Regs[r], wc + " register " + std::to_string(r));
        }
        size_t regs = 0;
        for (auto& ch: e.Channels)
            regs += ch.Regs.size();
        Same(dev.Device->GetRegisters().size(), regs, w + " polled registers");

        Same(dev.Device->GetSetupItems().size(), e.Setup.size(), w + " number of setup items");
        auto it = dev.Device->GetSetupItems().begin();
        for (auto& y: e.Setup) {
            const auto& x = **it++;
            std::string ws = w + " setup item " + y.Name;
            Same(x.Name, y.Name, ws);
            Same(x.HumanReadableValue, y.Value, ws + " value");
            Compare(*x.RegisterConfig, y.Reg, ws, false);
            std::stringstream a, b;
            a << x.RawValue;
            b << ConvertToRawValue(*x.RegisterConfig, y.Value);
            Same(a.str(), b.str(), ws + " raw value");
        }
        Same(bool(dev.Device->GetSnRegister()), bool(e.Sn), w + " has serial number");
        if (e.Sn)
            Compare(*dev.Device->GetSnRegister()->GetConfig(), *e.Sn, w + " serial number", false);
    }

    // --- Generation

    const std::vector<std::string> NAMES = {"Temp", "Input 1", "Input 2", "Serial", "serial_number", "Свет", "K1", "A b c", "Mode"};
    const std::vector<std::string> PARAMS = {"p0", "p1", "p2", "p3", "baud", "in1_mode"};

    std::string AddressText(Gen& g, unsigned a)
    {
        char buf[32];
        snprintf(buf, sizeof(buf), g.flip() ? "0x%04x" : "0x%X", a);
        return g.flip() ? std::to_string(a) : buf;
    }
    J AddressValue(Gen& g, unsigned a)
    {
        return g.flip() ? J(a) : J(AddressText(g, a));
    }

    std::string Condition(Gen& g, int depth = 0)
    {
        int k = depth > 2 ? g.below(2) : g.weighted({5, 2, 2, 2});
        if (k == 0) {
            static const std::vector<std::string> ops = {"==", "!=", "<", ">", "<=", ">="};
            return g.pick(PARAMS) + g.pick(ops) + std::to_string(g.below(4));
        }
        if (k == 1)
            return "isDefined(" + g.pick(PARAMS) + ")";
        auto l = Condition(g, depth + 1), r = Condition(g, depth + 1);
        if (k == 2) {
            if (l.find("||") != std::string::npos)
                l = "(" + l + ")";
            if (r.find("||") != std::string::npos)
                r = "(" + r + ")";
            return l + "&&" + r;
        }
        if (g.chance(1, 3))
            return "(" + l + "||" + r + ")";
        return l + "||" + r;
    }

    struct TWorld
    {
        std::string Dir;
        std::map<std::string, J> Templates; // by device_type
        int Counter = 0;
        bool Odd = false; // settings that the service ignores or refuses
        std::set<std::string> Labels;
    };

    const std::vector<std::string> FORMAT_NAMES = {"s16", "u16", "s8", "u8", "s24", "u24", "s32", "u32", "s64", "u64", "bcd8", "bcd16", "bcd24", "bcd32", "float", "double", "char8", "string", "string8"};

    // Register's fields of a channel or a setup item
    void GenRegister(Gen& g, J& r, const std::string& protocol, bool setup, int access = -1)
    {
        static const std::vector<std::string> writable = {"holding", "holding_single", "holding_multi", "coil"};
        static const std::vector<std::string> all = {"holding", "holding_single", "holding_multi", "coil", "input", "discrete", "press_counter"};
        static const std::vector<std::string> ioWritable = {"holding", "coil"};
        static const std::vector<std::string> ioAll = {"holding", "coil", "input", "discrete"};
        bool io = protocol == "modbus_io";
        bool onlyWritable = setup || access == 0 || access == 2;
        std::string type = "holding";
        if (g.chance(2, 3))
            r["reg_type"] = type = g.pick(onlyWritable ? (io ? ioWritable : writable) : (io ? ioAll : all));
        bool ro = TYPES.at(type).Ro;
        std::string format = TYPES.at(type).Format;
        if (g.chance(1, 2)) {
            format = setup ? g.pick(std::vector<std::string>{"u16", "s16", "u8", "s8", "u32", "s32", "u64", "float", "bcd16"}) : g.pick(FORMAT_NAMES);
            r["format"] = format;
        }
        bool str = format == "string" || format == "string8";
        if (str)
            r["string_data_size"] = int(g.size(1, 20));
        unsigned a = setup ? g.below(60) : g.below(g.flip() ? 20 : 65536);
        bool writeOnly = access == 2 || (access < 0 && !ro && !setup && g.chance(1, 12));
        if (!writeOnly) {
            unsigned bits = FORMATS.at(format).second * 8;
            // bits are a function of the address in setup items, because two items for the same bits of a register are one item
            if (!str && (setup ? a % 4 == 0 && bits >= 16 && format[0] != 'f' && format[0] != 'b' : g.chance(1, 6))) {
                unsigned off = setup ? a % 8 : g.below(bits), width = setup ? 8 : 1 + g.below(bits - off);
                std::string s = AddressText(g, a) + ":" + std::to_string(off) + ":" + std::to_string(width);
                r["address"] = s;
                if (!setup && g.chance(1, 4))
                    r["write_address"] = AddressText(g, g.below(1000)) + ":" + std::to_string(off) + ":" + std::to_string(width);
            } else {
                r["address"] = AddressValue(g, a);
                if (!str && !setup && g.chance(1, 8))
                    r["write_address"] = AddressValue(g, g.below(1000));
                if (str && g.chance(1, 12))
                    r["write_address"] = AddressValue(g, g.below(1000));
            }
        } else {
            // bits or a string need the address
            if (str) {
                r.removeMember("format");
                r.removeMember("string_data_size");
            }
            r["write_address"] = AddressValue(g, a);
        }
        if (access == 1 && !ro)
            r["readonly"] = true;
        if (g.chance(1, 3))
            r["word_order"] = g.flip() ? "little_endian" : "big_endian";
        if (g.chance(1, 3))
            r["byte_order"] = g.flip() ? "little_endian" : "big_endian";
        if (setup) {
            if (format == "float" && g.flip())
                r["scale"] = 0.5;
            return;
        }
        if (g.chance(1, 4))
            r["scale"] = g.pick(std::vector<double>{0.1, 2, 10, 0.001, -1});
        if (g.chance(1, 5))
            r["offset"] = g.pick(std::vector<double>{0.5, -12.5, 100});
        if (g.chance(1, 4))
            r["round_to"] = g.pick(std::vector<double>{0.1, 1, 0.01, 5});
        if (g.chance(1, 5)) {
            uint64_t v = g.pick(std::vector<uint64_t>{0, 0x7fff, 0xffff, 0xffffffff, 0x100000000ull, 0xffffffffffffffffull, 12345});
            char buf[32];
            snprintf(buf, sizeof(buf), "0x%llX", (unsigned long long)v);
            r["error_value"] = g.chance(1, 2) ? J(buf) : g.flip() ? J(Json::UInt64(v)) : J(std::to_string(v));
        }
        if (g.chance(1, 6))
            r["unsupported_value"] = g.pick(std::vector<std::string>{"0xFFFE", "0xfffe", "0x7FFFFFFF", "0xFFFFFFFFFFFFFFFF"});
        if (g.chance(1, 8))
            r["sporadic"] = g.chance(3, 4);
        if (g.chance(1, 8))
            r["semi-sporadic"] = g.chance(3, 4);
        if (access < 0 && !writeOnly && g.chance(1, 5))
            r["readonly"] = g.flip();
        else if (access < 0 && !writeOnly && g.chance(1, 20))
            r["channel_readonly"] = g.flip();
    }

    void GenIntervals(Gen& g, J& ch, bool old)
    {
        if (g.chance(1, 4))
            ch["read_period_ms"] = int(10 + g.below(5000));
        if (g.chance(1, 4))
            ch["read_rate_limit_ms"] = int(g.below(5000));
        if (old && g.chance(1, 8))
            ch["poll_interval"] = int(g.below(5000));
    }

    J GenChannel(Gen& g, TWorld& w, const std::string& name, const std::string& protocol, bool tmpl)
    {
        J ch;
        ch["name"] = name;
        bool serial = name == "Serial" || name == "serial_number";
        if (!serial && g.chance(1, 8)) {
            size_t n = g.size(1, 3);
            int access = g.below(3);
            for (size_t i = 0; i < n; ++i) {
                J r;
                GenRegister(g, r, protocol, false, access);
                ch["consists_of"].append(r);
            }
        } else {
            GenRegister(g, ch, protocol, false);
            if (!g.chance(2, 3)) {
                auto k = g.below(3);
                if (k != 1)
                    ch["on_value"] = g.pick(std::vector<J>{J(1), J("0xFF"), J(-5), J("-7"), J(70000), J("255")});
                if (k != 0)
                    ch["off_value"] = g.pick(std::vector<J>{J(0), J("0xAA"), J("3"), J(2)});
            }
            if (g.chance(1, 8))
                ch["fw"] = "1." + std::to_string(g.below(20)) + ".3";
        }
        if (g.chance(1, 6))
            ch["id"] = "id " + std::to_string(w.Counter++);
        if (g.chance(1, 2)) {
            std::vector<std::string> types = {"value", "text", "switch", "range", "temperature", "alarm", "rgb", "pushbutton", "wo-switch"};
            ch["type"] = g.pick(types);
            bool ro = false;
            for (auto& r: ch.isMember("consists_of") ? ch["consists_of"] : J(Json::arrayValue))
                ro |= TYPES.at(r.get("reg_type", "holding").asString()).Ro || r.isMember("readonly");
            ro |= TYPES.at(ch.get("reg_type", "holding").asString()).Ro || ch.isMember("readonly") || ch.isMember("channel_readonly");
            if (ro && (ch["type"] == "pushbutton" || ch["type"] == "wo-switch"))
                ch["type"] = "value";
        }
        if (g.chance(1, 5))
            ch["units"] = g.pick(std::vector<std::string>{"V", "deg C", "%"});
        if (g.chance(1, 5))
            ch["max"] = g.pick(std::vector<J>{J(100), J(0.5), J("255"), J("0xFF"), J("-3"), J("12.5"), J("1,5"), J(-4)});
        if (g.chance(1, 5))
            ch["min"] = g.pick(std::vector<J>{J(0), J(-0.5), J(1)});
        if (g.chance(1, 5)) {
            size_t n = g.size(1, 3);
            for (size_t i = 0; i < n; ++i)
                ch["enum"].append(g.flip() ? J(int(i)) : J(std::to_string(i)));
            if (g.flip())
                for (size_t i = 0; i < n + g.chance(1, 6); ++i)
                    ch["enum_titles"].append(g.pick(std::vector<std::string>{"zero", "one", "On", "Off"}) + std::to_string(i));
        }
        if (g.chance(1, 6))
            ch["enabled"] = g.chance(1, 4);
        if (g.chance(1, 10))
            ch["hidden"] = g.chance(3, 4);
        GenIntervals(g, ch, !tmpl);
        return ch;
    }

    J GenSetup(Gen& g, const std::string& protocol, bool tmpl)
    {
        J s;
        GenRegister(g, s, protocol, true);
        if (tmpl || g.chance(3, 4))
            s["title"] = "s" + std::to_string(g.below(100));
        std::string f = s.get("format", "").asString();
        if (f == "float")
            s["value"] = g.flip() ? J(int(g.below(100))) : J(std::to_string(g.below(50)));
        else
            s["value"] = g.pick(std::vector<J>{J(int(g.below(100))), J(std::to_string(g.below(100))), J("0x1f"), J("0x05")});
        return s;
    }

    J GenParameter(Gen& g, const std::string& protocol, bool condition)
    {
        J p;
        p["title"] = "P" + std::to_string(g.below(100));
        GenRegister(g, p, protocol, true);
        p.removeMember("scale");
        if (g.chance(1, 6))
            p["readonly"] = true;
        if (p.isMember("readonly") && g.flip())
            p.removeMember("address");
        if (condition && g.chance(1, 2))
            p["condition"] = Condition(g);
        if (g.chance(1, 3))
            p["default"] = int(g.below(4));
        // Ranges of parameters with conditions are checked only if the condition is true without default values
        if (!p.isMember("condition")) {
            if (g.chance(1, 4))
                p["min"] = int(g.below(2));
            if (g.chance(1, 4))
                p["max"] = int(2 + g.below(100));
            if (g.chance(1, 6))
                for (int i = 0; i < 4; ++i)
                    p["enum"].append(i);
            if (g.chance(1, 8))
                p["required"] = g.chance(3, 4);
        }
        return p;
    }

    void GenParameters(Gen& g, J& d, const std::string& protocol, bool sub)
    {
        std::set<std::string> ids;
        for (size_t n = g.size(1, 4); n; --n)
            ids.insert(g.pick(PARAMS));
        bool array = g.flip();
        for (auto& id: ids) {
            auto p = GenParameter(g, protocol, !sub);
            if (array) {
                p["id"] = id;
                if (!sub && !d.isMember("subdevices") && g.chance(1, 6)) {
                    // declared twice for two cases
                    std::string other = g.pick(PARAMS);
                    for (auto k: {"min", "max", "enum", "required", "default"})
                        p.removeMember(k);
                    J q(p);
                    p["condition"] = other + "==1";
                    q["condition"] = other + "!=1";
                    q["title"] = "other " + q["title"].asString();
                    if (g.flip())
                        q["readonly"] = true;
                    d["parameters"].append(q);
                }
                d["parameters"].append(p);
            } else {
                d["parameters"][id] = p;
            }
        }
    }

    void GenCommon(Gen& g, J& d)
    {
        for (auto& s: SETTINGS)
            if (s.first != "stride" && s.first != "shift" && g.chance(1, 7))
                d[s.first] = s.first == "access_level" ? int(g.below(3)) : int(g.below(200)) - (s.second == -1 || s.first == "frame_timeout_ms" || s.first == "device_timeout_ms" || s.first == "device_max_fail_cycles" ? (g.flip() ? 1 : 0) : 0);
        for (auto& s: SETTINGS)
            if (d.isMember(s.first) && d[s.first].asInt() < -1)
                d[s.first] = -1;
        if (g.chance(1, 6))
            d["preserve_setup_order"] = g.chance(3, 4);
        if (g.chance(1, 10))
            d["continue_polling_on_illegal_modbus_exception"] = g.flip();
        if (g.chance(1, 6))
            d["force_frame_timeout"] = g.flip();
        if (g.chance(1, 5))
            d["read_rate_limit_ms"] = int(g.below(3000));
        if (g.chance(1, 8))
            for (size_t n = g.size(1, 4); n; --n)
                d["password"].append(g.pick(std::vector<J>{J("0x10"), J("7"), J("255")}));
    }

    void GenTranslations(Gen& g, J& d)
    {
        for (auto l: {"ru", "en", "de"}) {
            if (!g.chance(1, 2))
                continue;
            for (auto& n: NAMES)
                if (g.chance(1, 3))
                    d["translations"][l][n] = std::string(l) + " " + n;
            for (auto n: {"Sub 0", "Sub 1", "Sub 2", "zero0", "one1", "On0", "Off1"})
                if (g.chance(1, 3))
                    d["translations"][l][n] = std::string(l) + " " + n;
        }
    }

    J GenSubdeviceChannel(Gen& g, const std::vector<std::string>& types, int i)
    {
        J ch;
        ch["name"] = "Sub " + std::to_string(i);
        ch["device_type"] = g.pick(types);
        if (g.chance(1, 3)) {
            ch["oneOf"].append(ch["device_type"]);
            for (auto& t: types)
                if (ch["device_type"] != t && g.flip())
                    ch["oneOf"].append(t);
        }
        if (g.flip())
            ch["shift"] = AddressValue(g, g.below(3) * 100);
        if (g.flip())
            ch["stride"] = int(g.below(30));
        if (g.chance(1, 3))
            ch["id"] = g.chance(1, 3) ? "" : "sub " + std::to_string(i);
        if (g.chance(1, 6))
            ch["enabled"] = g.chance(1, 4);
        if (g.chance(1, 12))
            ch["hidden"] = true;
        return ch;
    }

    J GenTemplate(Gen& g, TWorld& w, const std::string& type)
    {
        J t;
        t["device_type"] = type;
        if (g.flip())
            t["title"] = "Title " + type;
        if (g.chance(1, 4))
            t["hw"][0]["signature"] = "SIG";
        auto& d = t["device"];
        d["name"] = "Device " + type;
        if (g.chance(3, 4))
            d["id"] = "dev-" + type;
        std::string protocol = "modbus";
        if (g.chance(1, 3))
            d["protocol"] = protocol = g.chance(1, 3) ? "modbus_io" : "modbus";
        if (protocol == "modbus_io") {
            d["stride"] = 1000;
            d["shift"] = 500;
        }
        GenCommon(g, d);
        d.removeMember("password");
        if (g.chance(1, 6))
            d["enable_wb_continuous_read"] = g.flip();
        GenTranslations(g, d);
        std::vector<std::string> subs;
        if (g.chance(1, 3)) {
            for (size_t n = g.size(1, 3); n; --n)
                subs.push_back("sub" + std::to_string(n));
            for (size_t i = 0; i < subs.size(); ++i) {
                J s;
                s["device_type"] = subs[i];
                auto& sd = s["device"];
                sd["channels"] = J(Json::arrayValue);
                std::set<std::string> names;
                for (size_t n = g.size(0, 3); n; --n)
                    names.insert(g.pick(NAMES));
                for (auto& n: names)
                    sd["channels"].append(GenChannel(g, w, n, protocol, true));
                if (i + 1 < subs.size() && g.flip()) // nested
                    sd["channels"].append(GenSubdeviceChannel(g, std::vector<std::string>(subs.begin() + i + 1, subs.end()), i));
                for (size_t n = g.size(0, 2); n; --n)
                    sd["setup"].append(GenSetup(g, protocol, true));
                if (g.flip())
                    GenParameters(g, sd, protocol, true);
                d["subdevices"].append(s);
            }
        }
        for (size_t n = g.size(0, 5); n; --n) {
            auto ch = GenChannel(g, w, g.pick(NAMES), protocol, true);
            if (g.chance(1, 4))
                ch["condition"] = Condition(g);
            bool dup = false;
            for (auto& x: d["channels"])
                if (x["name"] == ch["name"])
                    dup = true;
            if (dup && g.flip())
                continue;
            d["channels"].append(ch);
        }
        for (size_t n = subs.empty() ? 0 : g.size(0, 3); n; --n) {
            auto ch = GenSubdeviceChannel(g, subs, n - 1);
            if (g.chance(1, 4))
                ch["condition"] = Condition(g);
            d["channels"].append(ch);
        }
        for (size_t n = g.size(0, 3); n; --n) {
            auto s = GenSetup(g, protocol, true);
            if (g.chance(1, 3))
                s["condition"] = Condition(g);
            d["setup"].append(s);
        }
        if (g.chance(2, 3))
            GenParameters(g, d, protocol, false);
        return t;
    }

    // Values of parameters in the configuration
    void GenValues(Gen& g, TWorld& w, const J& params, J& d)
    {
        for (auto& p: Parameters(params)) {
            if (d.isMember(p.first) || (!p.second.get("required", false).asBool() && g.flip()))
                continue;
            if (p.second.get("required", false).asBool() && w.Odd && g.chance(1, 3))
                continue;
            J v;
            if (p.second.isMember("enum"))
                v = p.second["enum"][unsigned(g.below(p.second["enum"].size()))];
            else if (p.second.isMember("min") && p.second["min"].asInt() > 1)
                v = p.second["min"];
            else
                v = int(1 + g.below(3));
            if (p.second.isMember("max") && v.asDouble() > p.second["max"].asDouble())
                v = p.second["max"];
            if (p.second.isMember("min") && v.asDouble() < p.second["min"].asDouble())
                v = p.second["min"];
            // danfoss_ekc_204a1_wb_ref has an unsigned parameter with a negative range
            if (v.asDouble() < 0 && p.second.get("format", "u16").asString()[0] == 'u')
                continue;
            if (w.Odd && g.chance(1, 4))
                v = g.pick(std::vector<J>{J(1000), J(0), J(3), J("1")});
            d[p.first] = v;
        }
    }

    void GenUserChannels(Gen& g, TWorld& w, const J& channels, const std::map<std::string, J>& subs, const std::string& protocol, bool top, J& d)
    {
        std::set<std::string> used;
        for (auto& t: channels) {
            std::string name = t["name"].asString();
            if (!g.chance(1, 3) || used.count(name))
                continue;
            used.insert(name);
            J ch;
            ch["name"] = name;
            if (t.isMember("device_type")) {
                ch["device_type"] = t.isMember("oneOf") ? t["oneOf"][unsigned(g.below(t["oneOf"].size()))] : t["device_type"];
                if (w.Odd && g.chance(1, 5)) {
                    if (g.flip())
                        ch.removeMember("device_type");
                    else
                        ch["device_type"] = subs.begin()->first;
                }
                if (ch.isMember("device_type") && subs.count(ch["device_type"].asString())) {
                    auto& s = subs.at(ch["device_type"].asString());
                    GenValues(g, w, s["parameters"], ch);
                    GenUserChannels(g, w, s["channels"], subs, protocol, false, ch);
                }
            } else {
                GenIntervals(g, ch, top);
                if (g.chance(1, 5))
                    ch["readonly"] = g.flip();
                if (g.chance(1, 6))
                    ch["units"] = "A";
                if (g.chance(1, 6)) // can't be changed
                    ch[g.pick(std::vector<std::string>{"address", "scale", "max", "on_value"})] = 77;
                if (g.chance(1, 8))
                    ch["id"] = "other";
            }
            if (g.chance(1, 3))
                ch["enabled"] = g.flip();
            d["channels"].append(ch);
        }
        if (!top)
            return;
        for (size_t n = g.size(0, 2); n; --n) {
            std::string name = g.flip() ? "My " + std::to_string(n) : g.pick(NAMES);
            bool known = used.count(name);
            for (auto& t: channels)
                known |= t["name"].asString() == name;
            if (known)
                continue;
            used.insert(name);
            auto ch = GenChannel(g, w, name, protocol, false);
            if (g.chance(1, 8)) { // left from an old version of the template
                ch = J();
                ch["name"] = name;
                ch["read_period_ms"] = 100;
            }
            d["channels"].append(ch);
        }
    }

    J GenDevice(Gen& g, TWorld& w, const std::vector<std::string>& types)
    {
        J d;
        J tmpl;
        std::string protocol = "modbus";
        if (!types.empty() && g.chance(4, 5)) {
            auto type = g.pick(types);
            d["device_type"] = type;
            tmpl = w.Templates.at(type)["device"];
            protocol = tmpl.get("protocol", "modbus").asString();
            if (w.Odd && g.chance(1, 10))
                d["device_type"] = "unknown";
        } else {
            if (g.flip())
                d["protocol"] = protocol = g.chance(1, 4) ? "modbus_io" : "modbus";
            if (protocol == "modbus_io") {
                d["stride"] = 1000;
                d["shift"] = 500;
            }
        }
        unsigned id = 1 + g.below(g.chance(1, 4) ? 4 : 247);
        d["slave_id"] = g.chance(1, 4) ? J(id) : J(AddressText(g, id));
        if (protocol == "modbus_io")
            d["slave_id"] = AddressText(g, id) + ":" + std::to_string(1 + g.below(4));
        if (w.Odd && g.chance(1, 10))
            d["slave_id"] = "";
        if (g.chance(1, 3))
            d["name"] = "My device " + std::to_string(g.below(100));
        if (g.chance(1, 3))
            d["id"] = "my-" + std::to_string(g.below(w.Odd ? 2 : 1000));
        if (g.chance(1, 6))
            d["enabled"] = g.flip();
        GenCommon(g, d);
        if (d.isMember("password"))
            for (auto& p: d["password"])
                if (p.asString()[1] != 'x' && g.flip())
                    p = std::stoi(p.asString());
        if (g.chance(1, 10))
            d["poll_interval"] = int(g.below(1000));
        GenValues(g, w, tmpl["parameters"], d);
        std::map<std::string, J> subs;
        for (auto& s: tmpl["subdevices"])
            subs[s["device_type"].asString()] = s["device"];
        GenUserChannels(g, w, tmpl["channels"], subs, protocol, true, d);
        for (size_t n = g.chance(1, 3) ? g.size(1, 3) : 0; n; --n)
            d["setup"].append(GenSetup(g, protocol, false));
        return d;
    }

    J GenPort(Gen& g, int index, bool& tcp)
    {
        J p;
        int n = g.chance(1, 8) ? 0 : index;
        switch (g.weighted({3, 1, 1})) {
            case 0:
                if (g.flip())
                    p["port_type"] = "serial";
                p["path"] = "/dev/ttyVERIF" + std::to_string(n);
                if (g.flip())
                    p["baud_rate"] = g.pick(std::vector<int>{110, 9600, 115200});
                if (g.flip())
                    p["parity"] = g.pick(std::vector<std::string>{"N", "E", "O"});
                if (g.flip())
                    p["data_bits"] = int(5 + g.below(4));
                if (g.flip())
                    p["stop_bits"] = int(1 + g.below(2));
                break;
            case 1:
                p["port_type"] = "tcp";
                p["address"] = "192.0.2.1";
                p["port"] = 500 + n;
                break;
            default:
                tcp = true;
                p["port_type"] = "modbus tcp";
                p["address"] = "192.0.2.1";
                p["port"] = 500 + n;
                if (g.flip())
                    p["connected_to_mge"] = g.flip();
        }
        if (g.chance(1, 4))
            p["response_timeout_ms"] = int(g.below(1000));
        if (g.chance(1, 4))
            p["guard_interval_us"] = int(g.below(10000));
        if (g.chance(1, 4))
            p["connection_timeout_ms"] = int(g.below(1000)) - 1;
        if (g.chance(1, 4))
            p["connection_max_fail_cycles"] = int(g.below(10)) - 1;
        if (g.chance(1, 5))
            p["read_rate_limit_ms"] = int(g.below(3000));
        if (g.chance(1, 12))
            p["poll_interval"] = int(g.below(3000));
        if (g.chance(1, 8))
            p["enabled"] = g.flip();
        return p;
    }

    void Write(Gen& g, const std::string& path, const J& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = g.flip() ? "  " : "";
        std::ofstream f(path);
        if (g.chance(1, 8))
            f << "// a comment\n";
        f << Json::writeString(b, v) << "\n";
    }

    struct TExpPort
    {
        const J* Port;
        bool Tcp;
        std::vector<TDev> Devices;
    };

    void Run(Gen& g)
    {
        TWorld w;
        w.Dir = scratch() + "/k." + std::to_string(getpid());
        fs::remove_all(w.Dir);
        fs::create_directories(w.Dir + "/t");
        auto& st = Static();
        w.Odd = g.chance(1, 4);
        std::vector<std::string> types;
        for (size_t n = g.size(0, 3); n; --n) {
            J t;
            if (g.chance(1, 8)) {
                t = g.pick(st.Real).second;
                label("template of the repository");
            } else {
                t = GenTemplate(g, w, "T" + std::to_string(n));
            }
            auto type = t["device_type"].asString();
            if (w.Templates.count(type))
                continue;
            types.push_back(type);
            w.Templates[type] = t;
            Write(g, w.Dir + "/t/config-" + std::to_string(n) + ".json", t);
        }
        J root;
        root["ports"] = J(Json::arrayValue);
        size_t ports = g.size(1, 3);
        std::vector<bool> tcp(ports);
        for (size_t i = 0; i < ports; ++i) {
            bool t = false;
            auto p = GenPort(g, i, t);
            tcp[i] = t;
            p["devices"] = J(Json::arrayValue);
            for (size_t n = g.size(0, 3); n; --n)
                p["devices"].append(GenDevice(g, w, types));
            root["ports"].append(p);
        }
        if (g.flip())
            root["debug"] = g.flip();
        if (g.flip())
            root["rate_limit"] = int(1 + g.below(1000));
        if (g.flip())
            root["max_unchanged_interval"] = int(g.below(20)) - 2;
        Write(g, w.Dir + "/c.json", root);

        // What must be
        std::string refused;
        std::vector<TExpPort> exp;
        int both = 0;
        bool either = false;
        try {
            std::set<std::string> paths, ids;
            for (unsigned i = 0; i < root["ports"].size(); ++i) {
                const auto& p = root["ports"][i];
                TExpPort e{&p, tcp[i], {}};
                std::vector<TDev> all;
                bool on = p.get("enabled", true).asBool();
                for (unsigned n = 0; n < p["devices"].size(); ++n) {
                    const auto& dev = p["devices"][n];
                    bool devOn = on && dev.get("enabled", true).asBool();
                    TDev d;
                    try {
                        d = Device(dev, p, "wb-modbus-" + std::to_string(i) + "-" + std::to_string(n), w.Templates);
                    } catch (const TRefused& e) {
                        static const std::set<std::string> always = {"unknown device type", "no slave_id", "parameter isn't a number", "less than minimum", "more than maximum", "not in enum"};
                        if (devOn || always.count(e.Why) || e.Why.rfind("no required", 0) == 0)
                            throw;
                        either = true; // can be left unnoticed
                    }
                    if (!devOn)
                        continue;
                    for (auto& x: e.Devices)
                        if (x.Protocol == d.Protocol && Slave(x.Slave) == Slave(d.Slave) &&
                            (d.Protocol != "modbus_io" || x.Slave.substr(x.Slave.find(':')) == d.Slave.substr(d.Slave.find(':'))))
                            throw TRefused{"two devices with the same slave_id"};
                    if (!ids.insert(d.Id).second)
                        throw TRefused{"two devices with the same id"};
                    both += d.FromTemplate && d.FromUser;
                    e.Devices.push_back(d);
                }
                if (!on)
                    continue;
                if (!paths.insert(p.isMember("path") ? p["path"].asString() : p["address"].asString() + ":" + p["port"].asString()).second)
                    throw TRefused{"two ports with the same path"};
                exp.push_back(std::move(e));
            }
        } catch (const TRefused& e) {
            refused = e.Why;
        }
        {
            static std::set<std::string> names;
            label(refused.empty() ? "accepted" : names.insert("refused: " + refused.substr(0, 30)).first->c_str());
        }
        if (refused.size() || both)
            nontrivial();

        auto rpc = std::make_shared<TRPCConfig>();
        PHandlerConfig h;
        std::string error;
        try {
            TTemplateMap templates(st.Schema);
            templates.AddTemplatesDir(w.Dir + "/t", false);
            h = LoadConfig(w.Dir + "/c.json", st.Factory, st.Common, templates, rpc, st.Ports, st.ProtocolSchemas);
        } catch (const std::exception& e) {
            error = e.what();
        }
        auto dump = [&] {
            Json::StreamWriterBuilder b;
            b["indentation"] = " ";
            for (auto& t: w.Templates)
                g.note("template " + t.first + ": " + Json::writeString(b, t.second));
            g.note("configuration: " + Json::writeString(b, root));
        };
        if (g.replaying())
            dump();
        if (getenv("K01_SAVE") && g.replaying())
            fs::copy(w.Dir, getenv("K01_SAVE"), fs::copy_options::recursive | fs::copy_options::overwrite_existing);
        if (wantSample())
            sample("ports " + std::to_string(ports) + ", templates " + std::to_string(types.size()) + ", " + (refused.empty() ? "accepted" : "refused: " + refused));
        if (!refused.empty()) {
            PBT_CHECK(!error.empty(), "accepted, but " << refused);
            return;
        }
        if (either && !error.empty())
            return;
        PBT_CHECK(error.empty(), "a valid configuration is refused: " << error);

        Same(h->Debug, root.get("debug", false).asBool(), "debug");
        int maxUnchanged = root.get("max_unchanged_interval", -1).asInt();
        if (maxUnchanged > 0 && maxUnchanged < 5)
            maxUnchanged = 5;
        WBMQTT::TPublishParameters pp;
        pp.Set(maxUnchanged);
        Same(int(h->PublishParameters.Policy), int(pp.Policy), "publish policy");
        Same(h->PublishParameters.PublishUnchangedInterval.count(), pp.PublishUnchangedInterval.count(), "max_unchanged_interval");
        if (root.isMember("rate_limit"))
            Same((long long)h->LowPriorityRegistersRateLimit, root["rate_limit"].asInt64(), "rate_limit");
        Same(h->PortConfigs.size(), exp.size(), "number of ports");
        Same(rpc->GetPortConfigs().size(), unsigned(exp.size()), "number of ports for RPC");
        for (size_t i = 0; i < exp.size(); ++i) {
            const auto& p = *exp[i].Port;
            const auto& x = *h->PortConfigs[i];
            std::string wp = "port " + std::to_string(i);
            std::string path = p.isMember("path") ? p["path"].asString() : p["address"].asString() + ":" + p["port"].asString();
            Same(x.Port->GetDescription(false), path, wp + " path");
            Same(x.Port->IsModbusTcp(), exp[i].Tcp, wp + " is Modbus TCP");
            auto r = rpc->GetPortConfigs()[unsigned(i)];
            if (p.isMember("path")) {
                Same(r["path"].asString(), path, wp + " path");
                Same(r["baud_rate"].asInt(), p.get("baud_rate", 9600).asInt(), wp + " baud_rate");
                Same(r["parity"].asString(), p.get("parity", "N").asString(), wp + " parity");
                Same(r["data_bits"].asInt(), p.get("data_bits", 8).asInt(), wp + " data_bits");
                Same(r["stop_bits"].asInt(), p.get("stop_bits", 1).asInt(), wp + " stop_bits");
            } else {
                Same(r["address"].asString() + ":" + r["port"].asString(), path, wp + " address");
            }
            Same(x.RequestDelay.count(), p.get("guard_interval_us", 0).asInt64(), wp + " guard_interval_us");
            Same(x.OpenCloseSettings.MaxFailTime.count(), p.get("connection_timeout_ms", 5000).asInt64(), wp + " connection_timeout_ms");
            Same(x.OpenCloseSettings.ConnectionMaxFailCycles, p.get("connection_max_fail_cycles", 2).asInt(), wp + " connection_max_fail_cycles");
            Same(x.Port->GetMinimalResponseTimeout().count(), p.isMember("response_timeout_ms") ? p["response_timeout_ms"].asInt64() * 1000 : std::chrono::microseconds(RESPONSE_TIMEOUT_NOT_SET).count(), wp + " response_timeout_ms");
            Same(x.Devices.size(), exp[i].Devices.size(), wp + " number of devices");
            for (size_t n = 0; n < exp[i].Devices.size(); ++n)
                Compare(*x.Devices[n], exp[i].Devices[n], exp[i].Tcp);
        }
    }
}

void setup()
{
    Error.SetEnabled(false);
    Warn.SetEnabled(false);
    Info.SetEnabled(false);
    Debug.SetEnabled(false);
}

void property(Gen& g)
{
    Run(g);
}
