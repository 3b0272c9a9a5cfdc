// The RPC server of the driver over a simulated line: requests are issued by their MQTT method names, every answer and
// every byte on the line goes to the check.
#pragma once
#include "rpc/rpc_port_handler.h"
#include "rpc/rpc_device_handler.h"
#include "rpc/rpc_config.h"
#include "serial_driver.h"
#include "world.h"
#include <cstdlib>
#include <deque>
#include <wblib/wbmqtt.h>

struct LineSettings
{
    int Baud = 0, Data = 0, Stop = 0;
    char Parity = 0;
    bool operator==(const LineSettings& o) const
    {
        return Baud == o.Baud && Data == o.Data && Stop == o.Stop && Parity == o.Parity;
    }
    std::string Str() const
    {
        return Baud ? std::to_string(Baud) + " " + std::to_string(Data) + Parity + std::to_string(Stop) : std::string("configured");
    }
};

struct RpcCall
{
    std::string Method;
    Json::Value Request;
    int64_t IssuedAt = 0;
    unsigned Answers = 0;
    bool Ok = false;
    int Code = 0;
    std::string Message;
    Json::Value Result;
};

inline std::string jsonText(const Json::Value& v)
{
    Json::StreamWriterBuilder b;
    b["indentation"] = "";
    return Json::writeString(b, v);
}

inline std::string repoDir()
{
    const char* p = getenv("VERIF_REPO_DIR");
    PBT_CHECK(p && *p, "VERIF_REPO_DIR is not set");
    return p;
}

class RpcServerStub
{
public:
    WBMQTT::PMqttRpcServer Server = std::make_shared<WBMQTT::TMqttRpcServer>();
    // called on every answer
    std::function<void(RpcCall&)> OnAnswer;
    std::vector<std::shared_ptr<RpcCall>> Calls;

    std::shared_ptr<RpcCall> Call(const std::string& method, const Json::Value& request)
    {
        auto c = std::make_shared<RpcCall>();
        c->Method = method;
        c->Request = request;
        c->IssuedAt = sim::nowNs();
        Calls.push_back(c);
        Issue(c);
        return c;
    }
    void Issue(std::shared_ptr<RpcCall> c)
    {
        auto it = Server->AsyncMethods.find(c->Method);
        auto it2 = Server->Methods.find(c->Method);
        PBT_CHECK(it != Server->AsyncMethods.end() || it2 != Server->Methods.end(), "no RPC method " << c->Method);
        try {
            if (it == Server->AsyncMethods.end()) {
                Answer(*c, true, 0, "", it2->second(c->Request));
                return;
            }
            it->second(
                c->Request,
                [this, c](const Json::Value& r) { Answer(*c, true, 0, "", r); },
                [this, c](const WBMQTT::TMqttRpcErrorCode code, const std::string& m) { Answer(*c, false, int(code), m, Json::Value()); });
        } catch (const std::exception& e) { // the RPC server replies with a server error
            Answer(*c, false, -32000, e.what(), Json::Value());
        }
    }

private:
    void Answer(RpcCall& c, bool ok, int code, const std::string& msg, const Json::Value& r)
    {
        ++c.Answers;
        PBT_CHECK(c.Answers == 1, c.Method << " " << jsonText(c.Request) << " is answered twice: " << (ok ? jsonText(r) : msg) << " after "
                                           << (c.Ok ? jsonText(c.Result) : c.Message));
        c.Ok = ok;
        c.Code = code;
        c.Message = msg;
        c.Result = r;
        if (OnAnswer)
            OnAnswer(c);
    }
};
