#pragma once
#include "json_utils.h"
#include "wbmqtt_core.h"
#include <functional>
#include <map>
#include <memory>
#include <string>
namespace WBMQTT
{
    enum TMqttRpcErrorCode
    {
        E_RPC_PARSE_ERROR = -32700,
        E_RPC_SERVER_ERROR = -32000,
        E_RPC_REQUEST_TIMEOUT = -32600,
    };
    class TMqttRpcServer
    {
    public:
        using TMethodHandler = std::function<Json::Value(const Json::Value&)>;
        using TResultCallback = std::function<void(const Json::Value&)>;
        using TErrorCallback = std::function<void(const TMqttRpcErrorCode, const std::string&)>;
        using TAsyncMethodHandler = std::function<void(const Json::Value&, TResultCallback, TErrorCallback)>;
        void RegisterMethod(const std::string& service, const std::string& method, TMethodHandler h)
        {
            Methods[service + "/" + method] = h;
        }
        void RegisterAsyncMethod(const std::string& service, const std::string& method, TAsyncMethodHandler h)
        {
            AsyncMethods[service + "/" + method] = h;
        }
        void Start()
        {}
        void Stop()
        {}
        std::map<std::string, TMethodHandler> Methods;
        std::map<std::string, TAsyncMethodHandler> AsyncMethods;
    };
    using PMqttRpcServer = std::shared_ptr<TMqttRpcServer>;
    PMqttRpcServer NewMqttRpcServer(PMqttClient mqtt, const std::string& name);
}
