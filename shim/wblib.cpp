#include "wblib/rpc.h"
#include "wblib/unit_types.h"
#include "wblib/wbmqtt_core.h"

#include <cstdarg>
#include <fstream>
#include <optional>
#include <regex>
#include <set>

namespace WBMQTT
{
    std::function<void(const std::string&, const std::string&)>& TLogger::Sink()
    {
        static std::function<void(const std::string&, const std::string&)> sink;
        return sink;
    }
    TLogger Error("ERROR: [wbmqtt] ", TLogger::StdErr, TLogger::RED);
    TLogger Warn("WARNING: [wbmqtt] ", TLogger::StdErr, TLogger::YELLOW);
    TLogger Info("INFO: [wbmqtt] ", TLogger::StdErr, TLogger::GREY);
    TLogger Debug("DEBUG: [wbmqtt] ", TLogger::StdErr, TLogger::WHITE, false);

    bool StringStartsWith(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(0, p.size(), p) == 0;
    }
    bool StringHasSuffix(const std::string& s, const std::string& p)
    {
        return s.size() >= p.size() && s.compare(s.size() - p.size(), p.size(), p) == 0;
    }
    // as libwbmqtt1: pieces read with std::getline, so a trailing empty piece is not reported
    std::vector<std::string> StringSplit(const std::string& s, char delim)
    {
        std::vector<std::string> res;
        std::stringstream ss(s);
        std::string item;
        while (std::getline(ss, item, delim)) {
            res.push_back(item);
        }
        return res;
    }
    std::vector<std::string> StringSplit(const std::string& s, const std::string& d)
    {
        std::vector<std::string> res;
        size_t start = 0;
        while (true) {
            auto p = s.find(d, start);
            if (p == std::string::npos || d.empty()) {
                res.push_back(s.substr(start));
                return res;
            }
            res.push_back(s.substr(start, p - start));
            start = p + d.size();
        }
    }
    std::string StringReplace(std::string s, const std::string& a, const std::string& b)
    {
        size_t pos = 0;
        while (!a.empty() && (pos = s.find(a, pos)) != std::string::npos) {
            s.replace(pos, a.size(), b);
            pos += b.size();
        }
        return s;
    }
    std::string StringFormat(const char* fmt, ...)
    {
        va_list a, b;
        va_start(a, fmt);
        va_copy(b, a);
        int n = vsnprintf(nullptr, 0, fmt, a);
        va_end(a);
        std::string r(n > 0 ? n : 0, '\0');
        if (n > 0) {
            vsnprintf(&r[0], n + 1, fmt, b);
        }
        va_end(b);
        return r;
    }
    std::string HexDump(const uint8_t* buf, size_t count)
    {
        std::string r;
        char t[8];
        for (size_t i = 0; i < count; ++i) {
            snprintf(t, sizeof(t), i ? " %02X" : "%02X", buf[i]);
            r += t;
        }
        return r;
    }
    std::string HexDump(const std::vector<uint8_t>& b)
    {
        return HexDump(b.data(), b.size());
    }
    void SetThreadName(const std::string&)
    {}
    const std::vector<std::string>& GetUnitTypes()
    {
        static const std::vector<std::string> u = {"mm/h",  "m/s", "W",    "kWh",  "V",   "mV",     "m^3/h", "m^3",
                                                   "Gcal/h", "cal", "Gcal", "Ohm",  "mOhm", "bar",   "mbar",  "s",
                                                   "min",    "h",   "m",    "g",    "kg",  "mol",    "cd",    "%, RH",
                                                   "deg C",  "%",   "ppm",  "ppb",  "A",   "mA",     "deg",   "rad"};
        return u;
    }

    // ------------------------------------------------------------ driver
    void TDeviceDriver::Record(TShimPublication p)
    {
        std::lock_guard<std::recursive_mutex> lk(Mutex);
        if (OnPublish) {
            OnPublish(p);
        }
        if (KeepPublications) {
            Publications.push_back(std::move(p));
        }
    }
    bool TDeviceDriver::Deliver(const std::string& device, const std::string& control, const std::string& value)
    {
        auto d = Devices.find(device);
        if (d == Devices.end()) {
            return false;
        }
        auto c = d->second->GetControl(control);
        // libwbmqtt1 drops "/on" messages for read-only controls
        if (!c || c->IsReadonly()) {
            return false;
        }
        TControlOnValueEvent ev{c, value};
        for (auto& h: OnValueHandlers) {
            h(ev);
        }
        return true;
    }
    TFuture<PLocalDevice> TDriverTx::CreateDevice(const TLocalDeviceArgs& args)
    {
        std::lock_guard<std::recursive_mutex> lk(Driver->Mutex);
        auto d = std::make_shared<TLocalDevice>();
        d->Id = args.Id;
        d->Title = args.Title;
        d->Driver = Driver;
        Driver->Devices[args.Id] = d;
        return TFuture<PLocalDevice>(d);
    }
    TFuture<void> TDriverTx::RemoveDeviceById(const std::string& id)
    {
        std::lock_guard<std::recursive_mutex> lk(Driver->Mutex);
        Driver->Devices.erase(id);
        return {};
    }
    PDevice TDriverTx::GetDevice(const std::string& id)
    {
        std::lock_guard<std::recursive_mutex> lk(Driver->Mutex);
        auto it = Driver->Devices.find(id);
        return it == Driver->Devices.end() ? nullptr : std::static_pointer_cast<TDevice>(it->second);
    }
    TFuture<PControl> TLocalDevice::CreateControl(const PDriverTx&, const TControlArgs& args)
    {
        auto c = std::make_shared<TControl>();
        c->Args = args;
        c->Device = shared_from_this();
        c->Driver = Driver;
        Controls[args.Id] = c;
        return TFuture<PControl>(c);
    }
    TFuture<void> TLocalDevice::SetError(const PDriverTx&, const std::string& error)
    {
        Error = error;
        Driver->Record({Id, "", false, "", true, error});
        return {};
    }
    TFuture<void> TControl::UpdateRawValueAndError(const PDriverTx&, const std::string& v, const std::string& e)
    {
        RawValue = v;
        Error = e;
        auto d = Device.lock();
        Driver->Record({d ? d->Id : "", Args.Id, true, v, true, e});
        return {};
    }
    TFuture<void> TControl::SetRawValue(const PDriverTx&, const std::string& v)
    {
        RawValue = v;
        auto d = Device.lock();
        Driver->Record({d ? d->Id : "", Args.Id, true, v, false, ""});
        return {};
    }
    TFuture<void> TControl::SetError(const PDriverTx&, const std::string& e)
    {
        Error = e;
        auto d = Device.lock();
        Driver->Record({d ? d->Id : "", Args.Id, false, "", true, e});
        return {};
    }
    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&)
    {
        return std::make_shared<TMqttClient>();
    }
    PMqttRpcServer NewMqttRpcServer(PMqttClient, const std::string&)
    {
        return std::make_shared<TMqttRpcServer>();
    }

    // ------------------------------------------------------------ JSON
    namespace JSON
    {
        static Json::Value ParseFile(const std::string& fileName, const Json::Value& settings)
        {
            std::ifstream f(fileName);
            if (!f.is_open()) {
                throw std::runtime_error("Can't open file " + fileName);
            }
            Json::CharReaderBuilder b;
            if (settings.isObject()) {
                for (auto it = settings.begin(); it != settings.end(); ++it) {
                    b.settings_[it.name()] = *it;
                }
            }
            Json::Value root;
            std::string errs;
            if (!Json::parseFromStream(b, f, &root, &errs)) {
                throw std::runtime_error("Failed to parse JSON " + fileName + ":" + errs);
            }
            return root;
        }
        Json::Value Parse(const std::string& fileName)
        {
            return ParseFile(fileName, Json::Value());
        }
        Json::Value ParseWithSettings(const std::string& fileName, const Json::Value& settings)
        {
            return ParseFile(fileName, settings);
        }
        std::unique_ptr<Json::StreamWriter> MakeWriter(const std::string& indentation, const std::string&)
        {
            Json::StreamWriterBuilder b;
            b["indentation"] = indentation;
            return std::unique_ptr<Json::StreamWriter>(b.newStreamWriter());
        }

        struct TValidator::TImpl
        {
            Json::Value Root;
            static thread_local std::map<std::string, std::regex> Regexes;
            std::vector<std::string> Errors;

            bool Quiet(const Json::Value& v, const Json::Value& s, const std::string& ctx)
            {
                auto saved = Errors;
                bool r = Check(v, s, ctx);
                Errors = saved;
                return r;
            }
            bool Err(const std::string& ctx, const std::string& d)
            {
                Errors.push_back("  context: " + ctx + "\n  desc: " + d + "\n");
                return false;
            }
            const Json::Value& Resolve(const std::string& ref)
            {
                if (ref.empty() || ref[0] != '#') {
                    throw std::runtime_error("unsupported $ref " + ref);
                }
                const Json::Value* cur = &Root;
                std::stringstream ss(ref.substr(1));
                std::string part;
                while (std::getline(ss, part, '/')) {
                    if (part.empty()) {
                        continue;
                    }
                    part = StringReplace(StringReplace(part, "~1", "/"), "~0", "~");
                    if (cur->isObject() && cur->isMember(part)) {
                        cur = &(*cur)[part];
                    } else if (cur->isArray() && std::all_of(part.begin(), part.end(), ::isdigit)) {
                        cur = &(*cur)[Json::ArrayIndex(std::stoul(part))];
                    } else {
                        throw std::runtime_error("Failed to resolve JSON reference " + ref);
                    }
                }
                return *cur;
            }
            static bool TypeIs(const Json::Value& v, const std::string& t)
            {
                if (t == "string") {
                    return v.isString();
                }
                if (t == "number") {
                    return v.isNumeric();
                }
                if (t == "integer") {
                    return v.isIntegral();
                }
                if (t == "boolean") {
                    return v.isBool();
                }
                if (t == "null") {
                    return v.isNull();
                }
                if (t == "array") {
                    return v.isArray();
                }
                if (t == "object") {
                    return v.isObject();
                }
                return t == "any";
            }
            static bool Same(const Json::Value& a, const Json::Value& b)
            {
                if (a.isNumeric() && b.isNumeric()) {
                    if (a.isUInt64() && b.isUInt64()) {
                        return a.asUInt64() == b.asUInt64();
                    }
                    return a.asDouble() == b.asDouble();
                }
                if (a.isArray() && b.isArray()) {
                    if (a.size() != b.size()) {
                        return false;
                    }
                    for (Json::ArrayIndex i = 0; i < a.size(); ++i) {
                        if (!Same(a[i], b[i])) {
                            return false;
                        }
                    }
                    return true;
                }
                if (a.isObject() && b.isObject()) {
                    if (a.size() != b.size()) {
                        return false;
                    }
                    for (auto it = a.begin(); it != a.end(); ++it) {
                        if (!b.isMember(it.name()) || !Same(*it, b[it.name()])) {
                            return false;
                        }
                    }
                    return true;
                }
                return a == b;
            }
            const std::regex& Re(const std::string& p)
            {
                auto it = Regexes.find(p);
                if (it == Regexes.end()) {
                    it = Regexes.emplace(p, std::regex(p, std::regex::ECMAScript)).first;
                }
                return it->second;
            }
            static size_t Utf8Len(const std::string& s)
            {
                size_t n = 0;
                for (unsigned char c: s) {
                    n += (c & 0xC0) != 0x80;
                }
                return n;
            }
            bool Check(const Json::Value& v, const Json::Value& s, const std::string& ctx)
            {
                if (s.isBool()) {
                    return s.asBool() || Err(ctx, "Schema is 'false'");
                }
                if (!s.isObject()) {
                    return true;
                }
                if (s.isMember("$ref")) {
                    return Check(v, Resolve(s["$ref"].asString()), ctx);
                }
                bool ok = true;
                if (s.isMember("type")) {
                    const auto& t = s["type"];
                    bool m = false;
                    if (t.isArray()) {
                        for (const auto& x: t) {
                            m = m || (x.isString() ? TypeIs(v, x.asString()) : Quiet(v, x, ctx));
                        }
                    } else {
                        m = TypeIs(v, t.asString());
                    }
                    if (!m) {
                        ok = Err(ctx, "Value type not permitted by 'type' constraint.");
                    }
                }
                if (s.isMember("enum")) {
                    bool m = false;
                    for (const auto& x: s["enum"]) {
                        m = m || Same(x, v);
                    }
                    if (!m) {
                        ok = Err(ctx, "Failed to match against any enum values.");
                    }
                }
                if (s.isMember("const") && !Same(s["const"], v)) {
                    ok = Err(ctx, "Failed to match expected value set by 'const' constraint.");
                }
                if (v.isNumeric()) {
                    if (s.isMember("minimum") && v.asDouble() < s["minimum"].asDouble()) {
                        ok = Err(ctx, "Expected number greater than or equal to " + s["minimum"].asString());
                    }
                    if (s.isMember("maximum") && v.asDouble() > s["maximum"].asDouble()) {
                        ok = Err(ctx, "Expected number less than or equal to " + s["maximum"].asString());
                    }
                }
                if (v.isString()) {
                    if (s.isMember("minLength") && Utf8Len(v.asString()) < s["minLength"].asUInt()) {
                        ok = Err(ctx, "String should be no fewer than " + s["minLength"].asString() +
                                          " characters in length.");
                    }
                    if (s.isMember("maxLength") && Utf8Len(v.asString()) > s["maxLength"].asUInt()) {
                        ok = Err(ctx, "String should be no greater than " + s["maxLength"].asString() +
                                          " characters in length.");
                    }
                    if (s.isMember("pattern") && !std::regex_search(v.asString(), Re(s["pattern"].asString()))) {
                        ok = Err(ctx, "Failed to match regex specified by 'pattern' constraint.");
                    }
                }
                if (v.isArray()) {
                    if (s.isMember("minItems") && v.size() < s["minItems"].asUInt()) {
                        ok = Err(ctx, "Array should contain no fewer than " + s["minItems"].asString() + " elements.");
                    }
                    if (s.isMember("maxItems") && v.size() > s["maxItems"].asUInt()) {
                        ok = Err(ctx, "Array should contain no more than " + s["maxItems"].asString() + " elements.");
                    }
                    if (s.isMember("items")) {
                        const auto& it = s["items"];
                        for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                            auto c = ctx + "[" + std::to_string(i) + "]";
                            if (it.isArray()) {
                                if (i < it.size()) {
                                    ok = Check(v[i], it[i], c) && ok;
                                }
                            } else {
                                ok = Check(v[i], it, c) && ok;
                            }
                        }
                    }
                    if (s.isMember("uniqueItems") && s["uniqueItems"].isBool() && s["uniqueItems"].asBool()) {
                        for (Json::ArrayIndex i = 0; i < v.size(); ++i) {
                            for (Json::ArrayIndex j = i + 1; j < v.size(); ++j) {
                                if (Same(v[i], v[j])) {
                                    ok = Err(ctx, "Elements should be unique");
                                }
                            }
                        }
                    }
                }
                if (v.isObject()) {
                    if (s.isMember("required") && s["required"].isArray()) {
                        for (const auto& r: s["required"]) {
                            if (!v.isMember(r.asString())) {
                                ok = Err(ctx, "Missing required property '" + r.asString() + "'.");
                            }
                        }
                    }
                    if (s.isMember("minProperties") && v.size() < s["minProperties"].asUInt()) {
                        ok = Err(ctx, "Object should have no fewer properties");
                    }
                    if (s.isMember("maxProperties") && v.size() > s["maxProperties"].asUInt()) {
                        ok = Err(ctx, "Object should have no more properties");
                    }
                    std::set<std::string> seen;
                    if (s.isMember("properties") && s["properties"].isObject()) {
                        const auto& p = s["properties"];
                        for (auto it = p.begin(); it != p.end(); ++it) {
                            if (v.isMember(it.name())) {
                                seen.insert(it.name());
                                ok = Check(v[it.name()], *it, ctx + "[" + it.name() + "]") && ok;
                            }
                        }
                    }
                    if (s.isMember("patternProperties")) {
                        const auto& p = s["patternProperties"];
                        for (auto it = p.begin(); it != p.end(); ++it) {
                            for (const auto& n: v.getMemberNames()) {
                                if (std::regex_search(n, Re(it.name()))) {
                                    seen.insert(n);
                                    ok = Check(v[n], *it, ctx + "[" + n + "]") && ok;
                                }
                            }
                        }
                    }
                    if (s.isMember("additionalProperties")) {
                        const auto& a = s["additionalProperties"];
                        for (const auto& n: v.getMemberNames()) {
                            if (!seen.count(n)) {
                                if (a.isBool()) {
                                    if (!a.asBool()) {
                                        ok = Err(ctx, "Object contains a property that could not be validated using "
                                                      "'properties' or 'additionalProperties' constraints: '" +
                                                          n + "'.");
                                    }
                                } else {
                                    ok = Check(v[n], a, ctx + "[" + n + "]") && ok;
                                }
                            }
                        }
                    }
                    if (s.isMember("propertyNames")) {
                        for (const auto& n: v.getMemberNames()) {
                            ok = Check(Json::Value(n), s["propertyNames"], ctx) && ok;
                        }
                    }
                    if (s.isMember("dependencies") && s["dependencies"].isObject()) {
                        const auto& d = s["dependencies"];
                        for (auto it = d.begin(); it != d.end(); ++it) {
                            if (!v.isMember(it.name())) {
                                continue;
                            }
                            if (it->isArray()) {
                                for (const auto& r: *it) {
                                    if (!v.isMember(r.asString())) {
                                        ok = Err(ctx, "Missing dependency '" + r.asString() + "'.");
                                    }
                                }
                            } else if (it->isObject()) {
                                ok = Check(v, *it, ctx) && ok;
                            }
                        }
                    }
                }
                if (s.isMember("allOf")) {
                    for (const auto& x: s["allOf"]) {
                        ok = Check(v, x, ctx) && ok;
                    }
                }
                if (s.isMember("anyOf")) {
                    bool m = false;
                    for (const auto& x: s["anyOf"]) {
                        m = m || Quiet(v, x, ctx);
                    }
                    if (!m) {
                        ok = Err(ctx, "Failed to validate against any schemas allowed by anyOf constraint.");
                    }
                }
                if (s.isMember("oneOf")) {
                    int n = 0;
                    for (const auto& x: s["oneOf"]) {
                        n += Quiet(v, x, ctx);
                    }
                    if (n != 1) {
                        ok = Err(ctx, n == 0 ? "Failed to validate against any child schemas allowed by oneOf constraint."
                                             : "Failed to validate against exactly one child schema.");
                    }
                }
                if (s.isMember("not") && Quiet(v, s["not"], ctx)) {
                    ok = Err(ctx, "Target should not validate against schema specified in 'not' constraint.");
                }
                if (s.isMember("if")) {
                    if (Quiet(v, s["if"], ctx)) {
                        if (s.isMember("then")) {
                            ok = Check(v, s["then"], ctx) && ok;
                        }
                    } else if (s.isMember("else")) {
                        ok = Check(v, s["else"], ctx) && ok;
                    }
                }
                return ok;
            }
        };
        thread_local std::map<std::string, std::regex> TValidator::TImpl::Regexes;

        TValidator::TValidator(const Json::Value& schema): Impl(std::make_unique<TImpl>())
        {
            Impl->Root = schema;
        }
        TValidator::~TValidator() = default;
        void TValidator::Validate(const Json::Value& value)
        {
            Impl->Errors.clear();
            if (!Impl->Check(value, Impl->Root, "<root>")) {
                std::string m = "Validation failed.";
                int i = 1;
                for (const auto& e: Impl->Errors) {
                    m += "\nError " + std::to_string(i++) + "\n" + e;
                }
                throw std::runtime_error(m);
            }
        }
        void Validate(const Json::Value& value, const Json::Value& schema)
        {
            TValidator v(schema);
            v.Validate(value);
        }
    }
}
