// Serial/TCP line in virtual time. The harness decides which bytes arrive and when; the code under test sees the
// contract of TPort::ReadFrame: up to responseTimeout for the first byte, up to frameTimeout between chunks.
#pragma once
#include "pbt.h"
#include "port/port.h"
#include "serial_exc.h"
#include "simclock.h"
#include <cerrno>
#include <cmath>
#include <deque>
#include <functional>
#include <string>
#include <vector>

struct SimChunk
{
    int64_t AtNs; // arrival time
    std::vector<uint8_t> Bytes;
};

class SimPort: public TPort
{
public:
    explicit SimPort(const std::string& description = "sim", uint64_t byteNs = 0): Description(description), ByteNs(byteNs)
    {}
    void Open() override
    {
        ++OpenTries;
        if (OpenFails)
            throw TSerialDeviceErrnoException("can't open ", ENOENT);
        Opened = true;
        ++OpenCount;
        Rx.clear();
        if (OnOpen)
            OnOpen();
    }
    void Close() override
    {
        Opened = false;
        ++CloseCount;
    }
    bool IsOpen() const override
    {
        return Opened;
    }
    void CheckPortOpen() const override
    {
        if (!Opened)
            throw TSerialDeviceException("port not open");
    }
    using TPort::WriteBytes;
    void WriteBytes(const uint8_t* buf, int count) override
    {
        CheckPortOpen();
        if (IoError)
            throw TSerialDeviceErrnoException("write error ", EBADF);
        std::vector<uint8_t> v(buf, buf + count);
        if (DrainOnWrite)
            while (!Rx.empty() && Rx.front().AtNs <= sim::nowNs())
                Rx.pop_front();
        sim::advanceNs(int64_t(ByteNs) * count);
        LastInteraction = sim::nowNs();
        Written.push_back(v);
        if (OnWrite)
            OnWrite(v);
    }
    // queue bytes to arrive after delay
    void Push(int64_t delayNs, const std::vector<uint8_t>& bytes)
    {
        Rx.push_back({sim::nowNs() + delayNs, bytes});
    }
    uint8_t ReadByte(const std::chrono::microseconds& timeout) override
    {
        uint8_t b;
        auto r = ReadFrame(&b, 1, timeout, timeout);
        return b;
    }
    TReadFrameResult ReadFrame(uint8_t* buf,
                               size_t count,
                               const std::chrono::microseconds& responseTimeout,
                               const std::chrono::microseconds& frameTimeout,
                               TFrameCompletePred pred = 0) override
    {
        CheckPortOpen();
        if (IoError)
            throw TSerialDeviceErrnoException("read error ", EBADF);
        if (!count) {
            return {};
        }
        ++ReadCalls;
        LastCount = count;
        LastFrameTimeout = frameTimeout;
        LastResponseTimeout = responseTimeout;
        int64_t start = sim::nowNs();
        TReadFrameResult res;
        int64_t first = std::chrono::nanoseconds(CalcResponseTimeout(responseTimeout)).count();
        int64_t gap = std::chrono::nanoseconds(frameTimeout).count();
        if (gap < 0)
            gap = 0;
        LastPredComplete = false;
        while (res.Count < count) {
            if (pred && pred(buf, res.Count)) {
                LastPredComplete = true;
                break;
            }
            int64_t limit = sim::nowNs() + (res.Count ? gap : first);
            if (Rx.empty() || Rx.front().AtNs > limit) {
                sim::advanceNs(limit - sim::nowNs());
                break;
            }
            sim::advanceNs(Rx.front().AtNs - sim::nowNs());
            if (res.Count == 0)
                res.ResponseTime = std::chrono::microseconds((sim::nowNs() - start) / 1000);
            auto& c = Rx.front().Bytes;
            size_t n = std::min(count - res.Count, c.size());
            std::copy(c.begin(), c.begin() + n, buf + res.Count);
            res.Count += n;
            if (n == c.size())
                Rx.pop_front();
            else
                c.erase(c.begin(), c.begin() + n);
        }
        LastInteraction = sim::nowNs();
        Got.assign(buf, buf + res.Count);
        AllGot.push_back(Got);
        if (res.Count == 0)
            throw TResponseTimeoutException();
        return res;
    }
    void SkipNoise() override
    {
        // whatever arrived so far is dropped
        CheckPortOpen();
        ++SkipNoiseCalls;
        SkippedNs = sim::nowNs();
        while (!Rx.empty() && Rx.front().AtNs <= sim::nowNs())
            Rx.pop_front();
    }
    void SleepSinceLastInteraction(const std::chrono::microseconds& us) override
    {
        int64_t until = LastInteraction + std::chrono::nanoseconds(us).count();
        sim::advanceNs(until - sim::nowNs());
    }
    std::chrono::microseconds GetSendTimeBytes(double bytes) const override
    {
        return std::chrono::microseconds(int64_t(std::ceil(bytes * double(ByteNs) / 1000.0)));
    }
    std::chrono::microseconds GetSendTimeBits(size_t bits) const override
    {
        return std::chrono::microseconds(int64_t(std::ceil(double(bits) / 11.0 * double(ByteNs) / 1000.0)));
    }
    std::string GetDescription(bool = true) const override
    {
        return Description;
    }
    void ApplySerialPortSettings(const TSerialPortConnectionSettings& s) override
    {
        if (OnApply)
            OnApply(s);
    }
    void ResetSerialPortSettings() override
    {
        ++ResetSettingsCalls;
        if (OnReset)
            OnReset();
    }

    std::string Description;
    uint64_t ByteNs;
    bool Opened = false, OpenFails = false, IoError = false;
    int OpenCount = 0, OpenTries = 0, CloseCount = 0, SkipNoiseCalls = 0, ReadCalls = 0, ResetSettingsCalls = 0;
    std::deque<SimChunk> Rx;
    bool DrainOnWrite = false; // as ports made of a file descriptor do
    int64_t SkippedNs = 0; // time of the last SkipNoise
    std::vector<std::vector<uint8_t>> Written;
    std::vector<std::vector<uint8_t>> AllGot;
    std::vector<uint8_t> Got;
    size_t LastCount = 0;
    bool LastPredComplete = false;
    std::chrono::microseconds LastFrameTimeout{0}, LastResponseTimeout{0};
    int64_t LastInteraction = 0;
    std::function<void(const std::vector<uint8_t>&)> OnWrite;
    std::function<void(const TSerialPortConnectionSettings&)> OnApply;
    std::function<void()> OnReset, OnOpen;
};
