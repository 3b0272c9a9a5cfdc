#pragma once
#include <memory>
namespace WBMQTT
{
    class TDeviceDriver;
    class TDriverTx;
    class TDevice;
    class TLocalDevice;
    class TControl;
    class TControlArgs;
    class TLocalDeviceArgs;
    struct TControlOnValueEvent;
    class TMqttClient;
    class TDriverBackend;
    using PDeviceDriver = std::shared_ptr<TDeviceDriver>;
    using PDriverTx = std::shared_ptr<TDriverTx>;
    using PDevice = std::shared_ptr<TDevice>;
    using PLocalDevice = std::shared_ptr<TLocalDevice>;
    using PControl = std::shared_ptr<TControl>;
    using PMqttClient = std::shared_ptr<TMqttClient>;
    using PDriverBackend = std::shared_ptr<TDriverBackend>;
}
