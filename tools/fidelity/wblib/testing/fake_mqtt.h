#pragma once
#include <wblib/wbmqtt_core.h>
#include <wblib/promise.h>
#include "testlog.h"
namespace WBMQTT
{
    namespace Testing
    {
        class TFakeMqttClient: public TMqttClient
        {};
        using PFakeMqttClient = std::shared_ptr<TFakeMqttClient>;
        struct TFakeMqttBroker
        {
            PFakeMqttClient MakeClient(const std::string&)
            {
                return std::make_shared<TFakeMqttClient>();
            }
            void Publish(const std::string&, const std::vector<TMqttMessage>&)
            {}
            struct TFuture
            {
                void Wait()
                {}
            };
            TFuture WaitForPublish(const std::string&)
            {
                return {};
            }
        };
        using PFakeMqttBroker = std::shared_ptr<TFakeMqttBroker>;
        inline PFakeMqttBroker NewFakeMqttBroker(TLoggedFixture&)
        {
            return std::make_shared<TFakeMqttBroker>();
        }
    }
}
