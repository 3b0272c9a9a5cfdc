// In-memory stand-in for libwbmqtt1's device driver: records what is published to "MQTT" so that a harness can
// compare it with a model, and lets the harness deliver "/on" messages.
#pragma once
#include "declarations.h"
#include "exceptions.h"
#include "json_utils.h"
#include "log.h"
#include "utils.h"
#include <any>
#include <chrono>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <string>
#include <typeindex>
#include <unordered_map>
#include <vector>
namespace WBMQTT
{
    template<class T> class TFuture
    {
    public:
        explicit TFuture(T v): Value(std::move(v))
        {}
        T GetValue()
        {
            return Value;
        }
        void Sync()
        {}
        void Wait()
        {}

    private:
        T Value;
    };
    template<> class TFuture<void>
    {
    public:
        void Sync()
        {}
        void Wait()
        {}
        void GetValue()
        {}
    };

    struct TAny
    {
        std::any Value;
        template<class T> const T& As() const
        {
            return std::any_cast<const T&>(Value);
        }
        template<class T> T& As()
        {
            return std::any_cast<T&>(Value);
        }
    };

    struct TPublishParameters
    {
        enum TPublishPolicy
        {
            PublishOnlyOnChange,
            PublishAll,
            PublishSomeUnchanged
        };
        TPublishPolicy Policy = PublishOnlyOnChange;
        std::chrono::milliseconds PublishUnchangedInterval{0};
        // seconds: <0 publish only on change, 0 publish every update, >0 republish unchanged values with the interval
        void Set(int seconds)
        {
            if (seconds < 0) {
                Policy = PublishOnlyOnChange;
            } else if (seconds == 0) {
                Policy = PublishAll;
            } else {
                Policy = PublishSomeUnchanged;
                PublishUnchangedInterval = std::chrono::seconds(seconds);
            }
        }
    };

    class TLocalDeviceArgs
    {
    public:
        std::string Id;
        std::string Title;
        bool IsVirtual = false;
        bool DoLoadPrevious = false;
        TLocalDeviceArgs& SetId(const std::string& v)
        {
            Id = v;
            return *this;
        }
        TLocalDeviceArgs& SetTitle(const std::string& v)
        {
            Title = v;
            return *this;
        }
        TLocalDeviceArgs& SetIsVirtual(bool v)
        {
            IsVirtual = v;
            return *this;
        }
        TLocalDeviceArgs& SetDoLoadPrevious(bool v)
        {
            DoLoadPrevious = v;
            return *this;
        }
    };

    class TControlArgs
    {
    public:
        std::string Id;
        std::string Type;
        std::string Units;
        std::map<std::string, std::string> Titles;
        std::map<std::string, std::unordered_map<std::string, std::string>> EnumTitles;
        int Order = 0;
        bool Readonly = false;
        bool Hidden = false;
        bool Durable = false;
        double Min = 0, Max = 0, Precision = 0;
        bool HasMin = false, HasMax = false, HasPrecision = false;
        TAny UserData;
        TControlArgs& SetId(const std::string& v)
        {
            Id = v;
            return *this;
        }
        TControlArgs& SetType(const std::string& v)
        {
            Type = v;
            return *this;
        }
        TControlArgs& SetUnits(const std::string& v)
        {
            Units = v;
            return *this;
        }
        TControlArgs& SetOrder(int v)
        {
            Order = v;
            return *this;
        }
        TControlArgs& SetReadonly(bool v)
        {
            Readonly = v;
            return *this;
        }
        TControlArgs& SetHidden(bool v)
        {
            Hidden = v;
            return *this;
        }
        TControlArgs& SetDurable(bool v = true)
        {
            Durable = v;
            return *this;
        }
        TControlArgs& SetMin(double v)
        {
            Min = v;
            HasMin = true;
            return *this;
        }
        TControlArgs& SetMax(double v)
        {
            Max = v;
            HasMax = true;
            return *this;
        }
        TControlArgs& SetPrecision(double v)
        {
            Precision = v;
            HasPrecision = true;
            return *this;
        }
        TControlArgs& SetTitle(const std::string& t, const std::string& lang = "en")
        {
            Titles[lang] = t;
            return *this;
        }
        TControlArgs& SetEnumValueTitles(const std::string& v, const std::unordered_map<std::string, std::string>& t)
        {
            EnumTitles[v] = t;
            return *this;
        }
        template<class M> TControlArgs& SetEnumValueTitles(const std::string& v, const M& t)
        {
            EnumTitles[v] = std::unordered_map<std::string, std::string>(t.begin(), t.end());
            return *this;
        }
        template<class T> TControlArgs& SetUserData(T v)
        {
            UserData.Value = std::move(v);
            return *this;
        }
    };

    // What the harness sees
    struct TShimPublication
    {
        std::string Device;
        std::string Control; // empty: device error
        bool HasValue = false;
        std::string Value;
        bool HasError = false;
        std::string Error;
    };

    class TDevice: public std::enable_shared_from_this<TDevice>
    {
    public:
        virtual ~TDevice() = default;
        const std::string& GetId() const
        {
            return Id;
        }
        PControl GetControl(const std::string& id) const
        {
            auto it = Controls.find(id);
            return it == Controls.end() ? nullptr : it->second;
        }
        std::string Id;
        std::string Title;
        std::string Error;
        std::map<std::string, PControl> Controls;
        TDeviceDriver* Driver = nullptr;
    };

    class TLocalDevice: public TDevice
    {
    public:
        TFuture<PControl> CreateControl(const PDriverTx& tx, const TControlArgs& args);
        TFuture<void> RemoveUnusedControls(const PDriverTx&)
        {
            return {};
        }
        TFuture<void> SetError(const PDriverTx& tx, const std::string& error);
    };

    class TControl
    {
    public:
        const std::string& GetId() const
        {
            return Args.Id;
        }
        PDevice GetDevice() const
        {
            return Device.lock();
        }
        const TAny& GetUserData() const
        {
            return Args.UserData;
        }
        const std::string& GetRawValue() const
        {
            return RawValue;
        }
        const std::string& GetError() const
        {
            return Error;
        }
        bool IsReadonly() const
        {
            return Args.Readonly;
        }
        TFuture<void> UpdateRawValueAndError(const PDriverTx& tx, const std::string& value, const std::string& error);
        TFuture<void> SetRawValue(const PDriverTx& tx, const std::string& value);
        TFuture<void> UpdateRawValue(const PDriverTx& tx, const std::string& value)
        {
            return SetRawValue(tx, value);
        }
        TFuture<void> SetError(const PDriverTx& tx, const std::string& error);
        TControlArgs Args;
        std::string RawValue;
        std::string Error;
        std::weak_ptr<TDevice> Device;
        TDeviceDriver* Driver = nullptr;
    };

    struct TControlOnValueEvent
    {
        PControl Control;
        std::string RawValue;
    };

    class TDriverTx
    {
    public:
        explicit TDriverTx(TDeviceDriver* d): Driver(d)
        {}
        TFuture<PLocalDevice> CreateDevice(const TLocalDeviceArgs& args);
        TFuture<void> RemoveDeviceById(const std::string& id);
        PDevice GetDevice(const std::string& id);
        void End()
        {}

    private:
        TDeviceDriver* Driver;
    };

    class TDeviceDriver
    {
    public:
        PDriverTx BeginTx()
        {
            return std::make_shared<TDriverTx>(this);
        }
        template<class TEvent, class THandler> void* On(THandler handler)
        {
            static_assert(std::is_same_v<TEvent, TControlOnValueEvent>);
            OnValueHandlers.push_back(handler);
            return nullptr;
        }
        void StartLoop()
        {}
        void StopLoop()
        {}
        void Close()
        {}
        void WaitForReady()
        {}
        // harness side
        bool Deliver(const std::string& device, const std::string& control, const std::string& value);
        void Record(TShimPublication p);
        std::map<std::string, PLocalDevice> Devices;
        std::vector<TShimPublication> Publications;
        std::vector<std::function<void(const TControlOnValueEvent&)>> OnValueHandlers;
        std::function<void(const TShimPublication&)> OnPublish;
        std::recursive_mutex Mutex;
        bool KeepPublications = true;
    };

    class TMqttMessage
    {
    public:
        std::string Topic, Payload;
        int Qos;
        bool Retained;
        TMqttMessage(const std::string& topic, const std::string& payload, int qos = 0, bool retained = false)
            : Topic(topic),
              Payload(payload),
              Qos(qos),
              Retained(retained)
        {}
    };

    class TMqttClient
    {
    public:
        virtual ~TMqttClient() = default;
        virtual void Publish(const TMqttMessage& m)
        {
            std::lock_guard<std::mutex> lk(Mutex);
            Messages.push_back(m);
        }
        virtual void Start()
        {}
        virtual void Stop()
        {}
        std::mutex Mutex;
        std::vector<TMqttMessage> Messages;
    };

    struct TMosquittoMqttConfig
    {
        std::string Host = "localhost";
        int Port = 1883;
        int Keepalive = 60;
        std::string Id, User, Password, Prefix;
    };
    PMqttClient NewMosquittoMqttClient(const TMosquittoMqttConfig&);

    class TDriverBackend
    {};
    inline PDriverBackend NewDriverBackend(PMqttClient)
    {
        return std::make_shared<TDriverBackend>();
    }
    class TDriverArgs
    {
    public:
        TDriverArgs& SetId(const std::string&)
        {
            return *this;
        }
        TDriverArgs& SetBackend(PDriverBackend)
        {
            return *this;
        }
        TDriverArgs& SetIsTesting(bool)
        {
            return *this;
        }
        TDriverArgs& SetUseStorage(bool)
        {
            return *this;
        }
        TDriverArgs& SetReownUnknownDevices(bool)
        {
            return *this;
        }
        TDriverArgs& SetStoragePath(const std::string&)
        {
            return *this;
        }
    };
    inline PDeviceDriver NewDriver(const TDriverArgs&)
    {
        return std::make_shared<TDeviceDriver>();
    }
}
