// A serial port with several Modbus devices polled by the real serial client in virtual time.
#pragma once
#include "modbus_dev.h"
#include "port/feature_port.h"
#include "serial_client.h"
#include "simwait.h"
#include <memory>

struct WReg
{
    RegSpec S;
    PRegister R;
    int Dev = 0;
    int64_t PeriodMs = 0, LimitMs = 0; // 0: not set
    bool High() const
    {
        return PeriodMs > 0;
    }
};
struct WSetup
{
    unsigned Addr;
    uint16_t Value;
};
struct WDevice
{
    ModbusSlave Slave;
    bool Online = true;
    PDeviceConfig Config;
    std::shared_ptr<TModbusDevice> Device;
    std::vector<WSetup> Setup;
    std::vector<size_t> Regs;
};

class World
{
public:
    std::shared_ptr<SimPort> Base;
    PFeaturePort Port;
    std::vector<std::unique_ptr<WDevice>> Devices;
    std::vector<WReg> Regs;
    std::shared_ptr<TSerialClient> Client;
    TPortOpenCloseLogic::TSettings OpenClose;
    // what happened
    std::function<void(WReg&, bool error)> OnCallback;
    std::function<void(WDevice&)> OnState;
    std::function<void(WDevice&, const ModbusRequest&)> OnRequest;

    explicit World(uint64_t byteNs)
    {
        sim::resetClock();
        sim::onWait = nullptr;
        Base = std::make_shared<SimPort>("sim", byteNs);
        Port = std::make_shared<TFeaturePort>(Base, false);
        Base->OnWrite = [this](const std::vector<uint8_t>& q) {
            for (auto& d: Devices)
                if (!q.empty() && q[0] == d->Slave.Id) {
                    d->Slave.Handle(q);
                    return;
                }
            PBT_FAIL("request to a device that is not configured: " << pbt::hex(q));
        };
    }
    ~World()
    {
        sim::onWait = nullptr;
    }
    WDevice& AddDevice(unsigned id, uint64_t seed)
    {
        auto d = std::make_unique<WDevice>();
        d->Slave.Id = id;
        d->Slave.Seed = seed;
        d->Slave.Port = Base.get();
        d->Config = std::make_shared<TDeviceConfig>("dev" + std::to_string(id), std::to_string(id), "modbus");
        d->Config->Id = d->Config->Name;
        auto* raw = d.get();
        d->Slave.OnRequest = [this, raw](const ModbusRequest& q) {
            if (OnRequest)
                OnRequest(*raw, q);
            return raw->Online ? Fault::None : Fault::Timeout;
        };
        Devices.push_back(std::move(d));
        return *Devices.back();
    }
    // after Config is filled
    void CreateDevice(WDevice& d)
    {
        static SimProtocol protocol;
        TModbusDeviceConfig mc;
        mc.CommonConfig = d.Config;
        d.Device = std::make_shared<TModbusDevice>(std::make_unique<Modbus::TModbusRTUTraits>(), mc, &protocol);
        auto* raw = &d;
        d.Device->AddOnConnectionStateChangedCallback([this, raw](PSerialDevice) {
            if (OnState)
                OnState(*raw);
        });
    }
    void AddSetup(WDevice& d, unsigned addr, uint16_t value)
    {
        RegSpec s;
        s.Addr = addr;
        d.Device->AddSetupItem(std::make_shared<TDeviceSetupItemConfig>("s" + std::to_string(addr), s.Config(), std::to_string(value)));
        d.Setup.push_back({addr, value});
    }
    void AddRegister(int dev, const RegSpec& s, int64_t periodMs, int64_t limitMs)
    {
        WReg r;
        r.S = s;
        r.Dev = dev;
        r.PeriodMs = periodMs;
        r.LimitMs = limitMs;
        auto c = s.Config();
        if (periodMs)
            c->ReadPeriod = std::chrono::milliseconds(periodMs);
        if (limitMs)
            c->ReadRateLimit = std::chrono::milliseconds(limitMs);
        r.R = Devices[dev]->Device->AddRegister(c);
        Devices[dev]->Regs.push_back(Regs.size());
        Regs.push_back(r);
    }
    void Start(size_t lowPriorityRateLimit)
    {
        Client = std::make_shared<TSerialClient>(Port, OpenClose, std::chrono::steady_clock::now, lowPriorityRateLimit);
        for (auto& d: Devices)
            Client->AddDevice(d->Device);
        for (size_t i = 0; i < Regs.size(); ++i)
            Index[Regs[i].R.get()] = i;
        Client->SetReadCallback([this](PRegister r) { Callback(r, false); });
        Client->SetErrorCallback([this](PRegister r) { Callback(r, true); });
    }
    WReg* Find(const PRegister& r)
    {
        auto it = Index.find(r.get());
        return it == Index.end() ? nullptr : &Regs[it->second];
    }

private:
    std::map<const TRegister*, size_t> Index;
    void Callback(const PRegister& r, bool error)
    {
        auto* w = Find(r);
        PBT_CHECK(w, "callback for an unknown register");
        if (OnCallback)
            OnCallback(*w, error);
    }
};
