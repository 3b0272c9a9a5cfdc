// T01: user templates: MQTT RPC templates/Upload and templates/Delete (README "Загрузка пользовательского шаблона").
//
// One case: a folder of stock templates, a folder of user templates, a configuration, and a history of uploads,
// deletions and changes of the files by others (with the events of the file watcher). The model is the content of both
// folders. After every operation the files, the device types, the editor's schemas and the answers must be the model's,
// and the same as after a restart of the service.
#include "pbt.h"

#include <filesystem>
#include <fstream>
#include <map>
#include <set>
#include <unistd.h>

#include "confed_device_schemas_map.h"
#include "confed_schema_generator.h"
#include "device_template_generator.h"
#include "log.h"
#include "rpc/rpc_exception.h"
#include "rpc/rpc_templates_handler.h"
#include "serial_config.h"
#include "templates_map.h"

const char* PROPERTY_ID = "T01";
const char* NONTRIVIAL_RULE =
    "one case = a history of up to 14 uploads, deletions and external changes of template files. Non-trivial: an upload replaced another "
    "template or was refused, and another one succeeded";

using namespace pbt;
namespace fs = std::filesystem;

namespace
{
    struct TFile
    {
        std::string Content;
        // of a template that the service can load
        bool Loaded = false;
        std::string Type, Title, TitleRu, Group, Protocol = "modbus", Id, Name;
        std::vector<std::pair<std::string, std::string>> Hw;
        bool Subdevices = false;
        bool Usable = true; // the editor's schema can be generated
    };

    std::string RepoDir()
    {
        return getenv("VERIF_REPO_DIR");
    }

    Json::Value Load(const std::string& name)
    {
        return WBMQTT::JSON::Parse(RepoDir() + "/" + name);
    }

    // What doesn't change
    struct TStatic
    {
        Json::Value Common = Load("wb-mqtt-serial-confed-common.schema.json");
        Json::Value Schema = LoadConfigTemplatesSchema(RepoDir() + "/wb-mqtt-serial-device-template.schema.json", Common);
        Json::Value Groups = Load("groups.json");
        TSerialDeviceFactory Factory;
        TStatic()
        {
            RegisterProtocols(Factory);
        }
    };
    TStatic& Static()
    {
        static TStatic s;
        return s;
    }

    std::string Print(Gen& g, const Json::Value& v)
    {
        Json::StreamWriterBuilder b;
        b["indentation"] = g.flip() ? "  " : "";
        std::string s = Json::writeString(b, v);
        if (g.chance(1, 8))
            s = "// a comment\n" + s;
        if (g.chance(1, 8))
            s += "\n";
        return s;
    }

    const std::vector<std::string> TYPES = {"A", "B", "type c", "Ж", "D.1"};
    const std::vector<std::string> GROUPS = {"", "g-wb", "g-custom", "g-unknown", "g-relay"};

    Json::Value Channel(const std::string& name, int address)
    {
        Json::Value c;
        c["name"] = name;
        c["reg_type"] = "input";
        c["address"] = address;
        return c;
    }

    // A valid template and what it says
    Json::Value MakeTemplate(Gen& g, const std::string& type, TFile& f)
    {
        static int counter = 0;
        Json::Value r;
        f = TFile();
        f.Loaded = true;
        f.Type = type;
        r["device_type"] = type;
        f.Name = "name " + std::to_string(g.below(1000)) + "." + std::to_string(++counter);
        auto& d = r["device"];
        d["name"] = f.Name;
        if (g.flip()) {
            f.Id = "id" + std::to_string(g.below(5));
            d["id"] = f.Id;
        }
        f.Title = type;
        f.TitleRu = type;
        if (g.flip()) {
            std::string key = "T" + std::to_string(g.below(10));
            r["title"] = key;
            f.Title = f.TitleRu = key;
            if (g.flip()) {
                f.TitleRu = "Название " + key;
                d["translations"]["ru"][key] = f.TitleRu;
            }
            if (g.chance(1, 3)) {
                f.Title = "Title " + key;
                d["translations"]["en"][key] = f.Title;
                if (!d["translations"].isMember("ru"))
                    f.TitleRu = f.Title;
            }
        }
        f.Group = g.pick(GROUPS);
        if (!f.Group.empty())
            r["group"] = f.Group;
        for (size_t n = g.chance(1, 4) ? g.size(1, 3) : 0; n; --n) {
            Json::Value hw;
            hw["signature"] = "SIG" + std::to_string(n);
            std::string fw = g.flip() ? "1.2." + std::to_string(n) : "";
            if (!fw.empty())
                hw["fw"] = fw;
            r["hw"].append(hw);
            f.Hw.emplace_back("SIG" + std::to_string(n), fw);
        }
        size_t kind = g.weighted({4, 1, 1});
        if (kind == 1) {
            f.Protocol = g.pick({"uniel", "milur", "modbus_io"});
            d["protocol"] = f.Protocol;
            for (size_t i = 0, n = g.size(1, 3); i < n; ++i) {
                auto c = Channel("ch" + std::to_string(i), int(i));
                if (f.Protocol != "modbus_io")
                    c["reg_type"] = f.Protocol == "uniel" ? "param" : "energy";
                d["channels"].append(c);
            }
            return r;
        }
        if (g.chance(1, 4))
            d["protocol"] = "modbus";
        for (size_t i = 0, n = g.size(1, 3); i < n; ++i)
            d["channels"].append(Channel("ch" + std::to_string(i), int(i)));
        if (kind == 2) {
            // sub0 uses sub1 uses sub2 ... (no cycles)
            f.Subdevices = true;
            size_t n = g.size(1, 4);
            for (size_t i = 0; i < n; ++i) {
                Json::Value s;
                s["device_type"] = "sub" + std::to_string(i);
                s["device"]["channels"].append(Channel("c" + std::to_string(i), 100 + int(i)));
                if (i + 1 < n) {
                    Json::Value c;
                    c["name"] = "next";
                    c["device_type"] = "sub" + std::to_string(i + 1);
                    c["shift"] = 10;
                    if (g.flip())
                        c["oneOf"].append("sub" + std::to_string(i + 1));
                    s["device"]["channels"].append(c);
                }
                d["subdevices"].append(s);
            }
            Json::Value c;
            c["name"] = "first";
            c["device_type"] = "sub0";
            d["channels"].append(c);
            return r;
        }
        bool params = g.chance(1, 2);
        if (params) {
            bool arr = g.flip();
            size_t n = g.size(1, 3);
            for (size_t i = 0; i < n; ++i) {
                Json::Value p;
                p["title"] = "p" + std::to_string(i);
                p["address"] = int(1000 + i);
                p["order"] = int(i);
                if (g.flip())
                    p["condition"] = "p0>=" + std::to_string(i);
                if (arr) {
                    p["id"] = "p" + std::to_string(i);
                    d["parameters"].append(p);
                    if (g.chance(1, 3)) { // another declaration of the same parameter
                        p["title"] = "other";
                        p["condition"] = "p0==5";
                        d["parameters"].append(p);
                    }
                } else
                    d["parameters"]["p" + std::to_string(i)] = p;
            }
            if (g.flip())
                d["channels"][0]["condition"] = g.pick({"p0==1", "isDefined(p0)&&p1!=2", "(p0<3)||p2"});
        }
        if (g.chance(1, 4)) {
            Json::Value s;
            s["title"] = "s";
            s["address"] = 2000;
            s["value"] = 5;
            if (params && g.flip())
                s["condition"] = "p0==1";
            d["setup"].append(s);
        }
        if (g.chance(1, 4)) {
            d["channels"][0]["reg_type"] = "holding";
            d["channels"][0]["address"] = "5:2:3";
            d["channels"][0]["write_address"] = "7:2:3";
        }
        return r;
    }

    // Damages a valid template; returns false if the damage doesn't suit it
    bool Spoil(Gen& g, Json::Value& r, std::string& why)
    {
        auto& d = r["device"];
        bool modbus = d.get("protocol", "modbus").asString() == "modbus";
        switch (g.below(20)) {
            case 0:
                why = "no device_type";
                r.removeMember("device_type");
                return true;
            case 1:
                why = "empty device_type";
                r["device_type"] = "";
                return true;
            case 2:
                why = "device_type is a number";
                r["device_type"] = 5;
                return true;
            case 3:
                why = "deprecated";
                r["deprecated"] = true;
                return true;
            case 4:
                why = "no device";
                r.removeMember("device");
                return true;
            case 5:
                why = "unknown protocol";
                d["protocol"] = "no such protocol";
                return true;
            case 6:
                why = "bad channel name";
                d["channels"][0]["name"] = "a/b";
                return true;
            case 7:
                why = "bad address";
                d["channels"][0]["address"] = "0xzz";
                return true;
            case 8:
                why = "channels isn't an array";
                d["channels"] = 5;
                return true;
            case 9:
                if (!modbus)
                    return false;
                why = "bad condition of a channel";
                d["channels"][0]["condition"] = g.pick({"p0==", "==1", "(p0", "p0 1", "p0==1)", "&&"});
                return true;
            case 10: {
                if (!modbus)
                    return false;
                why = "bad condition of a setup item";
                Json::Value s;
                s["title"] = "bad";
                s["address"] = 1;
                s["value"] = 5;
                s["condition"] = "p0=1";
                d["setup"].append(s);
                return true;
            }
            case 11: {
                if (!modbus || d.isMember("parameters"))
                    return false;
                why = "bad condition of a parameter";
                Json::Value p;
                p["title"] = "p";
                p["address"] = 1;
                p["condition"] = "p0>>1";
                d["parameters"]["px"] = p;
                return true;
            }
            case 12: {
                if (!modbus || d.isMember("parameters"))
                    return false;
                why = "declarations of a parameter with different addresses";
                Json::Value p;
                p["title"] = "p";
                p["id"] = "px";
                bool wr = g.flip();
                p["address"] = 1;
                if (wr)
                    p["write_address"] = 1;
                d["parameters"].append(p);
                if (g.flip()) {
                    auto q = p;
                    q["id"] = "py";
                    d["parameters"].append(q);
                }
                p[wr ? "write_address" : "address"] = 2;
                d["parameters"].append(p);
                return true;
            }
            case 13:
                if (!modbus)
                    return false;
                why = "bits of write_address differ";
                d["channels"][0]["reg_type"] = "holding";
                d["channels"][0]["address"] = "5:2:3";
                d["channels"][0]["write_address"] = g.pick({"7:1:3", "7:2:4", "7:0:1"});
                return true;
            case 14: {
                if (!modbus)
                    return false;
                why = "unknown subdevice";
                Json::Value c;
                c["name"] = "s";
                c["device_type"] = "nobody";
                if (!d.isMember("subdevices"))
                    d["subdevices"] = Json::Value(Json::arrayValue);
                auto n = d["subdevices"].size();
                if (n && g.flip())
                    d["subdevices"][n - 1]["device"]["channels"].append(c);
                else
                    d["channels"].append(c);
                return true;
            }
            case 15: {
                if (!d.isMember("subdevices"))
                    return false;
                why = "cyclic subdevices";
                Json::Value c;
                auto n = d["subdevices"].size();
                c["name"] = "cycle";
                c["device_type"] = "sub" + std::to_string(g.below(n));
                if (g.flip()) {
                    c["oneOf"].append(c["device_type"]);
                    if (n > 1)
                        c["oneOf"].append("sub" + std::to_string(n - 1));
                }
                d["subdevices"][n - 1]["device"]["channels"].append(c);
                return true;
            }
            case 16:
                why = "title isn't a string";
                r["title"] = g.flip() ? Json::Value(5) : Json::Value(Json::objectValue);
                return true;
            case 17:
                why = "bad hardware";
                r["hw"] = Json::Value(Json::arrayValue);
                r["hw"].append(g.flip() ? Json::Value("SIG") : Json::Value(Json::objectValue));
                return true;
            case 18:
                why = "no channel name";
                if (!g.flip())
                    r["device"]["id"] = "a/b";
                else
                    r["group"] = 7;
                return true;
            case 19:
                why = "setup that the protocol hasn't";
                if (d.get("protocol", "").asString() != "milur")
                    return false;
                d["setup"] = Json::Value(Json::arrayValue);
                return true;
        }
        return false;
    }

    using TFolder = std::map<std::string, TFile>;

    struct TWorld
    {
        fs::path Root;
        std::string StockDir, UserDir, ConfigPath;
        TFolder Stock, User;
        std::map<std::string, std::string> Foreign; // files of others in the user's folder (relative name -> content)
        std::string Config;
        std::set<std::string> InUse;
        std::shared_ptr<TTemplateMap> Templates;
        std::unique_ptr<TDevicesConfedSchemasMap> Schemas;
        std::unique_ptr<TRPCTemplatesHandler> Handler;

        explicit TWorld(): Root(scratch() + "/t01." + std::to_string(getpid()))
        {
            fs::remove_all(Root);
            StockDir = (Root / "stock").string();
            UserDir = (Root / "etc/conf.d/templates").string();
            ConfigPath = (Root / "etc/config.conf").string();
            fs::create_directories(StockDir);
            fs::create_directories(UserDir);
        }
        ~TWorld()
        {
            Handler.reset();
            fs::remove_all(Root);
        }
        static void Write(const fs::path& p, const std::string& content)
        {
            std::ofstream f(p, std::ios::binary);
            f << content;
            f.close();
            if (!f)
                throw std::runtime_error("harness: can't write " + p.string());
        }
        void Start()
        {
            Templates = std::make_shared<TTemplateMap>(Static().Schema, UserDir);
            Templates->AddTemplatesDir(StockDir);
            Templates->AddTemplatesDir(UserDir);
            Schemas = std::make_unique<TDevicesConfedSchemasMap>(*Templates, Static().Factory, Static().Common);
            Handler = std::make_unique<TRPCTemplatesHandler>(UserDir,
                                                             ConfigPath,
                                                             Templates,
                                                             *Schemas,
                                                             Static().Groups,
                                                             RepoDir() + "/wb-mqtt-serial-rpc-templates-upload-request.schema.json",
                                                             RepoDir() + "/wb-mqtt-serial-rpc-templates-delete-request.schema.json");
        }
        // main.cpp HandleTemplateChangeEvent
        void Event(const std::string& path, bool deleted)
        {
            if (deleted) {
                Schemas->InvalidateCache(Templates->DeleteTemplate(path));
                return;
            }
            try {
                for (const auto& t: Templates->UpdateTemplate(path))
                    Schemas->InvalidateCache(t);
            } catch (const std::exception&) {
            }
        }
        std::map<std::string, std::string> Files() const
        {
            std::map<std::string, std::string> res;
            for (const auto& e: fs::recursive_directory_iterator(Root)) {
                auto rel = fs::relative(e.path(), Root).string();
                if (e.is_directory()) {
                    res[rel] = "(directory)";
                    continue;
                }
                std::ifstream f(e.path(), std::ios::binary);
                res[rel] = std::string(std::istreambuf_iterator<char>(f), {});
            }
            return res;
        }
        std::map<std::string, std::string> Expected() const
        {
            std::map<std::string, std::string> res{{"stock", "(directory)"}, {"etc", "(directory)"}, {"etc/conf.d", "(directory)"},
                                                   {"etc/conf.d/templates", "(directory)"}};
            if (!Config.empty())
                res["etc/config.conf"] = Config;
            for (auto& f: Stock)
                res["stock/" + f.first] = f.second.Content;
            for (auto& f: User)
                res["etc/conf.d/templates/" + f.first] = f.second.Content;
            for (auto& f: Foreign)
                res["etc/conf.d/templates/" + f.first] = f.second;
            return res;
        }
        const TFile* UserFile(const std::string& type, std::string* name = nullptr) const
        {
            for (auto& f: User)
                if (f.second.Loaded && f.second.Type == type) {
                    if (name)
                        *name = f.first;
                    return &f.second;
                }
            return nullptr;
        }
        const TFile* Active(const std::string& type, std::string* path = nullptr) const
        {
            std::string name;
            if (auto f = UserFile(type, &name)) {
                if (path)
                    *path = UserDir + "/" + name;
                return f;
            }
            for (auto& f: Stock)
                if (f.second.Loaded && f.second.Type == type) {
                    if (path)
                        *path = StockDir + "/" + f.first;
                    return &f.second;
                }
            return nullptr;
        }
        void CheckAll(const std::string& what, bool schemas)
        {
            auto got = Files();
            auto exp = Expected();
            for (auto& f: exp) {
                auto it = got.find(f.first);
                PBT_CHECK(it != got.end(), what << ": file " << quote(f.first) << " is missing");
                PBT_CHECK(it->second == f.second, what << ": file " << quote(f.first) << " has other content: " << quote(it->second) << ", expected " << quote(f.second));
            }
            for (auto& f: got)
                PBT_CHECK(exp.count(f.first), what << ": unexpected file " << quote(f.first) << ": " << quote(f.second));

            TTemplateMap restarted(Static().Schema, UserDir);
            restarted.AddTemplatesDir(StockDir);
            restarted.AddTemplatesDir(UserDir);
            std::set<std::string> types;
            for (auto& t: Templates->GetTemplates())
                PBT_CHECK(types.insert(t->Type).second, what << ": type " << quote(t->Type) << " twice in the list of device types");
            std::set<std::string> all(TYPES.begin(), TYPES.end());
            all.insert(types.begin(), types.end());
            for (const auto& type: all) {
                std::string path;
                auto f = Active(type, &path);
                auto w = what + ": type " + quote(type);
                PBT_EQ(types.count(type) != 0, f != nullptr, w << " in the list of device types");
                PBT_EQ(Templates->FindUserDefinedTemplate(type) != nullptr, UserFile(type) != nullptr, w << " has a user-defined template");
                if (!f) {
                    bool thrown = false;
                    try {
                        Templates->GetTemplate(type);
                    } catch (const std::exception&) {
                        thrown = true;
                    }
                    PBT_CHECK(thrown, w << " is still known");
                    thrown = false;
                    try {
                        Schemas->GetSchema(type);
                    } catch (const std::exception&) {
                        thrown = true;
                    }
                    PBT_CHECK(thrown, w << " still has a schema");
                    continue;
                }
                for (int k = 0; k < 2; ++k) {
                    auto t = (k ? restarted : *Templates).GetTemplate(type);
                    auto wk = w + (k ? " after a restart" : "");
                    PBT_EQ(t->Type, type, wk);
                    PBT_EQ(t->GetFilePath(), path, wk << ": file");
                    PBT_EQ(t->GetTitle("en"), f->Title, wk << ": title");
                    PBT_EQ(t->GetTitle("ru"), f->TitleRu, wk << ": Russian title");
                    PBT_EQ(t->GetGroup(), f->Group, wk << ": group");
                    PBT_EQ(t->GetProtocol(), f->Protocol, wk << ": protocol");
                    PBT_EQ(t->GetMqttId(), f->Id, wk << ": id");
                    PBT_EQ(t->WithSubdevices(), f->Subdevices, wk << ": with subdevices");
                    PBT_EQ(t->IsUserDefined(), UserFile(type) != nullptr, wk << ": user-defined");
                    PBT_EQ(t->GetHardware().size(), f->Hw.size(), wk << ": hardware");
                    if (f->Usable)
                        PBT_EQ(t->GetTemplate()["name"].asString(), f->Name, wk << ": template content");
                }
                if (schemas && f->Usable) {
                    auto s = Schemas->GetSchema(type);
                    auto e = GenerateSchemaForConfed(*restarted.GetTemplate(type), Static().Factory, Static().Common);
                    PBT_CHECK(*s == e, w << ": outdated editor schema");
                }
            }
        }
    };

    std::string GroupName(const std::string& group, const std::string& lang)
    {
        auto key = group.empty() ? std::string("g-custom") : group;
        if (key == "g-custom" && lang == "en")
            return "Custom devices";
        if (key == "g-custom" && lang == "ru")
            return "Произвольные устройства";
        const auto& l = Static().Groups;
        if (l.isMember(lang) && l[lang].isMember(key))
            return l[lang][key].asString();
        return key;
    }

    void CheckAnswer(const Json::Value& res, const TFile* f, bool user, const std::string& lang, const std::string& what)
    {
        PBT_CHECK(res.isObject() && res["types"].isArray(), what << ": answer without types");
        if (!f) {
            PBT_EQ(res["types"].size(), 0u, what << ": groups in the answer");
            return;
        }
        PBT_EQ(res["types"].size(), 1u, what << ": groups in the answer");
        const auto& gr = res["types"][0];
        PBT_EQ(gr["name"].asString(), GroupName(f->Group, lang), what << ": group in the answer");
        PBT_EQ(gr["types"].size(), 1u, what << ": types in the answer");
        const auto& t = gr["types"][0];
        PBT_EQ(t["name"].asString(), lang == "ru" ? f->TitleRu : f->Title, what << ": name in the answer");
        PBT_EQ(t["type"].asString(), f->Type, what << ": type in the answer");
        PBT_EQ(t["protocol"].asString(), f->Protocol, what << ": protocol in the answer");
        PBT_EQ(t["mqtt-id"].asString(), f->Id, what << ": mqtt-id in the answer");
        PBT_EQ(t["deprecated"].asBool(), false, what << ": deprecated in the answer");
        PBT_EQ(t["with-subdevices"].asBool(), f->Subdevices, what << ": with-subdevices in the answer");
        PBT_EQ(t.get("user-defined", false).asBool(), user, what << ": user-defined in the answer");
        PBT_EQ(t.isMember("user-defined"), user, what << ": user-defined present in the answer");
        PBT_EQ(t["hw"].size(), f->Hw.size(), what << ": hw in the answer");
        for (size_t i = 0; i < f->Hw.size(); ++i) {
            PBT_EQ(t["hw"][int(i)]["signature"].asString(), f->Hw[i].first, what << ": signature");
            PBT_EQ(t["hw"][int(i)].get("fw", "").asString(), f->Hw[i].second, what << ": fw");
        }
    }

    // The file name that the documentation gives to an uploaded template; empty: refused
    std::string FileName(const std::string& requested)
    {
        auto p = requested.rfind('/');
        std::string n = p == std::string::npos ? requested : requested.substr(p + 1);
        for (auto& c: n)
            if (!(isalnum((unsigned char)c) && (unsigned char)c < 128) && c != '.' && c != '_' && c != '-')
                c = '_';
        if (n.size() < 5 || n.substr(n.size() - 5) != ".json")
            n += ".json";
        return n == ".json" ? "" : n;
    }

    std::string RequestedName(Gen& g, const TWorld& w)
    {
        static const std::vector<std::string> pool = {"a.json", "b.json", "a", "a-1.json", "b-1", "A.json", "c d.json", "имя.json", "x.json.json", "..", ".", "a.JSON",
                                                      "config-a.json", ".hidden.json", "a\\b.json", "x.tmp", "-.json", "..json", "dir.json", "notes.txt", "q\"'$.json"};
        std::string n = g.pick(pool);
        switch (g.weighted({12, 2, 2, 1, 1, 1, 1})) {
            case 1:
                return "../" + n;
            case 2:
                return (w.Root / "stock" / n).string();
            case 3:
                return "../../" + n;
            case 4:
                return "some/where/" + n;
            case 5:
                return std::string(g.chance(1, 2) ? size_t(g.range(100, 230)) : size_t(g.range(260, 600)), 'n') + ".json";
            case 6: {
                std::string s;
                for (size_t k = g.size(1, 12); k; --k) {
                    if (g.chance(1, 6))
                        s += g.pick({"Ж", "é", "€", "日"});
                    else
                        s += char(g.range(1, 126));
                }
                return s;
            }
        }
        return n;
    }

    struct TRefused
    {
        std::string Msg;
        bool Documented = false;
    };

    template<class F> Json::Value Call(F f, TRefused& r)
    {
        try {
            r = TRefused();
            return f();
        } catch (const TRPCException& e) {
            r.Msg = e.GetResultMessage();
            r.Documented = true;
            if (r.Msg.empty())
                r.Msg = "(empty message)";
        } catch (const std::exception& e) {
            r.Msg = e.what();
        }
        return Json::Value();
    }

    void Run(Gen& g)
    {
        TWorld w;
        const size_t nTypes = g.range(2, TYPES.size());
        auto type = [&] { return TYPES[g.below(nTypes)]; };
        // stock and user files
        for (size_t i = 0; i < nTypes; ++i) {
            if (g.chance(2, 5)) {
                TFile f;
                auto j = MakeTemplate(g, TYPES[i], f);
                f.Content = Print(g, j);
                w.Stock["config-" + std::to_string(i) + ".json"] = f;
            }
            if (g.chance(2, 5)) {
                TFile f;
                auto j = MakeTemplate(g, TYPES[i], f);
                f.Content = Print(g, j);
                w.User[g.pick({"a", "b", "u", "a-1"}) + std::string(g.flip() ? ".json" : std::to_string(i) + ".json")] = f;
            }
        }
        if (g.chance(1, 3))
            w.Foreign["notes.txt"] = "notes";
        if (g.chance(1, 4)) {
            w.Foreign["dir.json"] = "(directory)";
            w.Foreign["dir.json/x"] = "y";
        }
        if (g.chance(1, 6)) {
            w.Foreign["b-1.json.tmp"] = "(directory)";
            w.Foreign["b-1.json.tmp/x"] = "y";
        }
        if (g.chance(1, 4))
            w.Foreign[g.flip() ? "a.json" : "broken.json"] = g.pick({"{ broken", "[]", "5", "{}"});
        for (auto& f: w.Foreign)
            w.User.erase(f.first); // one of them has this name
        for (auto& f: w.Stock)
            w.Write(fs::path(w.StockDir) / f.first, f.second.Content);
        for (auto& f: w.User)
            w.Write(fs::path(w.UserDir) / f.first, f.second.Content);
        for (auto& f: w.Foreign) {
            if (f.second == "(directory)")
                fs::create_directories(fs::path(w.UserDir) / f.first);
            else
                w.Write(fs::path(w.UserDir) / f.first, f.second);
        }
        // "{}" is loaded with an empty type
        for (auto& f: w.Foreign)
            if (f.second == "{}")
                f.second = "(unknown)";
        for (auto& f: w.Foreign)
            if (f.second == "(unknown)") {
                w.Write(fs::path(w.UserDir) / f.first, "{ broken");
                f.second = "{ broken";
            }
        auto writeConfig = [&] {
            w.InUse.clear();
            size_t kind = g.weighted({6, 1, 1});
            w.Config.clear();
            fs::remove(w.ConfigPath);
            if (kind == 1)
                return;
            if (kind == 2)
                w.Config = "{ \"ports\": [ { \"devices\": [ { \"device_type\": \"A\" }";
            else {
                Json::Value c;
                c["ports"] = Json::Value(Json::arrayValue);
                for (size_t p = 0, n = g.size(0, 2); p < n; ++p) {
                    Json::Value port;
                    port["path"] = "/dev/ttyX" + std::to_string(p);
                    for (size_t k = 0, m = g.size(0, 2); k < m; ++k) {
                        Json::Value dev;
                        dev["slave_id"] = int(k + 1);
                        if (g.chance(4, 5)) {
                            dev["device_type"] = type();
                            if (g.chance(1, 5))
                                dev["enabled"] = false;
                            w.InUse.insert(dev["device_type"].asString());
                        }
                        port["devices"].append(dev);
                    }
                    if (g.chance(1, 5))
                        port["enabled"] = false;
                    c["ports"].append(port);
                }
                w.Config = Print(g, c);
            }
            w.Write(w.ConfigPath, w.Config);
        };
        writeConfig();
        w.Start();
        w.CheckAll("start", true);

        bool refused = false, replaced = false, uploaded = false;
        std::set<std::string> touched;
        for (size_t op = 0, n = g.size(1, 14); op < n; ++op) {
            std::string what = "operation " + std::to_string(op + 1) + " ";
            auto lang = g.pick({"", "en", "ru", "de"});
            const std::string langKey = *lang ? lang : "en";
            bool force = g.chance(1, 3);
            size_t kind = g.weighted({6, 3, 2, 2, 2, 1, 1, 1});
            if (kind == 7) {
                what += "restart";
                if (g.replaying())
                    g.note(what);
                w.Start();
            } else if (kind == 6) {
                what += "config changed";
                if (g.replaying())
                    g.note(what);
                writeConfig();
            } else if (kind == 4 || kind == 5) {
                // somebody changes files; the events arrive before the next request
                bool stock = g.chance(1, 3);
                auto& folder = stock ? w.Stock : w.User;
                const auto& dir = stock ? w.StockDir : w.UserDir;
                if (kind == 5 || g.chance(1, 3)) {
                    if (folder.empty())
                        continue;
                    auto it = std::next(folder.begin(), g.below(folder.size()));
                    what += "deleted by others: " + dir + "/" + it->first;
                    if (g.replaying())
                        g.note(what);
                    touched.insert(it->second.Type);
                    auto path = dir + "/" + it->first;
                    fs::remove(path);
                    folder.erase(it);
                    w.Event(path, true);
                    label("file deleted by others");
                } else {
                    std::string name = stock ? "config-" + std::to_string(g.below(6)) + ".json" : g.pick({"a.json", "b.json", "u.json", "ext.json"});
                    if (!stock && w.Foreign.count(name))
                        continue;
                    auto t = type();
                    bool dup = false;
                    for (auto& f: folder)
                        dup = dup || (f.second.Type == t && f.first != name);
                    if (dup)
                        continue;
                    TFile f;
                    auto j = MakeTemplate(g, t, f);
                    f.Content = Print(g, j);
                    what += "written by others: " + dir + "/" + name + " " + quote(t);
                    if (g.replaying())
                        g.note(what + ": " + f.Content);
                    touched.insert(t);
                    if (folder.count(name))
                        touched.insert(folder[name].Type);
                    w.Write(fs::path(dir) / name, f.Content);
                    folder[name] = f;
                    w.Event(dir + "/" + name, false);
                    label("file written by others");
                }
            } else if (kind == 2 || kind == 3) {
                auto t = g.chance(1, 12) ? std::string("nobody") : type();
                Json::Value req;
                req["type"] = t;
                if (*lang)
                    req["lang"] = lang;
                if (force || g.flip())
                    req["force"] = force;
                bool badRequest = g.chance(1, 15);
                if (badRequest) {
                    switch (g.below(4)) {
                        case 0:
                            req.removeMember("type");
                            break;
                        case 1:
                            req["type"] = "";
                            break;
                        case 2:
                            req["force"] = "true";
                            break;
                        case 3:
                            req["type"] = 5;
                            break;
                    }
                }
                what += "Delete " + req.toStyledString();
                if (g.replaying())
                    g.note(what);
                std::string name;
                auto user = w.UserFile(t, &name);
                TRefused r;
                auto res = Call([&] { return w.Handler->DeleteTemplate(req); }, r);
                if (badRequest || !user || (w.InUse.count(t) && !force)) {
                    PBT_CHECK(!r.Msg.empty(), what << ": wasn't refused");
                    if (!badRequest && user)
                        PBT_EQ(r.Msg, std::string("template-in-use"), what << ": error");
                    else
                        PBT_CHECK(r.Msg != "template-in-use", what << ": refused as in use");
                    refused = true;
                    label("deletion refused");
                } else {
                    PBT_CHECK(r.Msg.empty(), what << ": refused: " << r.Msg);
                    touched.insert(t);
                    w.User.erase(name);
                    CheckAnswer(res, w.Active(t), false, langKey, what);
                    w.Event(w.UserDir + "/" + name, true);
                    label(w.Active(t) ? "stock template is active again" : "type is gone");
                }
            } else {
                auto t = type();
                TFile f;
                auto j = MakeTemplate(g, t, f);
                size_t quality = kind == 0 ? g.weighted({8, 2}) : 1 + g.weighted({3, 2, 1});
                std::string why, content;
                bool valid = true, unknown = false;
                if (quality == 1) {
                    valid = !Spoil(g, j, why);
                    content = Print(g, j);
                } else if (quality == 2) {
                    content = Print(g, j);
                    switch (g.below(7)) {
                        case 0:
                            content.resize(1 + g.below(content.rfind('}')));
                            why = "cut";
                            valid = false;
                            break;
                        case 1:
                            content = g.pick({"[]", "5", "\"text\"", "null", "true", "[{}]", "{}", " ", "}"});
                            why = content;
                            valid = false;
                            break;
                        case 2: {
                            // some byte is changed
                            content[g.below(content.size())] = char(g.range(1, 255));
                            why = "byte changed";
                            unknown = true;
                            break;
                        }
                        case 3: {
                            // translations and other parts that the schema leaves open
                            Json::Value v = g.pick<Json::Value>({Json::Value(5), Json::Value("text"), Json::Value(Json::arrayValue), Json::Value(true)});
                            why = "odd translations";
                            j["title"] = "T0";
                            if (g.flip())
                                j["device"]["translations"] = v;
                            else if (g.flip())
                                j["device"]["translations"]["ru"] = v;
                            else
                                j["device"]["translations"]["ru"]["T0"] = g.flip() ? v : Json::Value(Json::objectValue);
                            content = Print(g, j);
                            unknown = true;
                            break;
                        }
                        case 4:
                            content.erase(g.below(content.size()), 1);
                            why = "byte removed";
                            unknown = true;
                            break;
                        case 5:
                            j["deprecated"] = g.pick<Json::Value>({Json::Value(false), Json::Value("true"), Json::Value(1), Json::Value(Json::objectValue), Json::Value()});
                            valid = j["deprecated"].isBool();
                            why = "odd deprecated";
                            content = Print(g, j);
                            break;
                        case 6:
                            j["unknown"] = "property";
                            content = Print(g, j);
                            break;
                    }
                } else
                    content = Print(g, j);
                Json::Value req;
                req["content"] = content;
                auto asked = RequestedName(g, w);
                req["filename"] = asked;
                if (*lang)
                    req["lang"] = lang;
                if (force || g.flip())
                    req["force"] = force;
                bool badRequest = g.chance(1, 20);
                if (badRequest) {
                    switch (g.below(5)) {
                        case 0:
                            req.removeMember("content");
                            break;
                        case 1:
                            req.removeMember("filename");
                            break;
                        case 2:
                            req["filename"] = "";
                            break;
                        case 3:
                            req["content"] = j;
                            break;
                        case 4:
                            req["force"] = 1;
                            break;
                    }
                }
                what += "Upload " + req.toStyledString() + (why.empty() ? "" : " (" + why + ")");
                if (g.replaying())
                    g.note(what);
                auto before = w.Files();
                TRefused r;
                auto res = Call([&] { return w.Handler->UploadTemplate(req); }, r);
                auto name = FileName(asked);
                std::string oldName;
                bool had = w.UserFile(t, &oldName);
                auto taken = [&](const std::string& nm) { return (w.User.count(nm) || w.Foreign.count(nm)) && !(had && nm == oldName); };
                if (!name.empty()) {
                    auto stem = name.substr(0, name.size() - 5);
                    for (int s = 1; taken(name); ++s)
                        name = stem + "-" + std::to_string(s) + ".json";
                }
                bool canWrite = !name.empty() && name.size() <= 250 && !w.Foreign.count(name + ".tmp");
                if (unknown && r.Msg.empty()) {
                    // the damaged content was accepted: it must be stored, but what it means isn't known
                    label("odd content accepted");
                    auto got = w.Files();
                    size_t changed = 0;
                    for (auto& x: got)
                        changed += !before.count(x.first) || before[x.first] != x.second;
                    for (auto& x: got)
                        if ((!before.count(x.first) || before[x.first] != x.second) && x.first.rfind("etc/conf.d/templates/", 0) != 0)
                            PBT_FAIL(what << ": file " << x.first << " changed");
                    PBT_CHECK(changed <= 1, what << ": " << changed << " files changed");
                    PBT_CHECK(!w.InUse.count(t) || force || why != "odd translations", what << ": a template in use was replaced without force");
                    return;
                }
                if (unknown)
                    valid = false;
                bool inUse = w.InUse.count(t) && !force;
                if (badRequest || !valid || inUse || !canWrite) {
                    PBT_CHECK(!r.Msg.empty(), what << ": wasn't refused");
                    PBT_CHECK(r.Documented || !valid || !canWrite, what << ": refused with " << r.Msg);
                    if (inUse && valid && canWrite && !badRequest)
                        PBT_EQ(r.Msg, std::string("template-in-use"), what << ": error");
                    if (!inUse)
                        PBT_CHECK(r.Msg != "template-in-use", what << ": refused as in use");
                    refused = true;
                    label(badRequest ? "upload refused: request" : unknown ? "odd content refused" : !valid ? "upload refused: invalid" : inUse ? "upload refused: in use" : "upload refused: file name");
                    auto after = w.Files();
                    PBT_CHECK(before == after, what << ": refused (" << r.Msg << "), but files have changed");
                } else {
                    PBT_CHECK(r.Msg.empty(), what << ": refused: " << r.Msg);
                    f.Content = content;
                    if (had) {
                        replaced = true;
                        label(oldName == name ? "same file replaced" : "moved to another file");
                        w.User.erase(oldName);
                    }
                    labelIf(name != FileName(asked), "file name with a number");
                    labelIf(w.Active(t), "another template overridden");
                    touched.insert(t);
                    w.User[name] = f;
                    uploaded = true;
                    CheckAnswer(res, &f, true, langKey, what);
                    label("uploaded");
                    w.CheckAll(what + " (before events)", g.flip());
                    if (had && oldName != name)
                        w.Event(w.UserDir + "/" + oldName, true);
                    w.Event(w.UserDir + "/" + name, false);
                }
            }
            w.CheckAll(what, g.flip() || op + 1 == n);
        }
        if (refused + replaced && uploaded)
            nontrivial();
        if (wantSample())
            sample("stock " + std::to_string(w.Stock.size()) + ", user " + std::to_string(w.User.size()) + ", types touched " + std::to_string(touched.size()));
    }
}

void setup()
{
    Error.SetEnabled(false);
    Warn.SetEnabled(false);
    Info.SetEnabled(false);
}

void property(Gen& g)
{
    Run(g);
}
