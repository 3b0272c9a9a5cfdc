// A Modbus slave written from the specification: memory, requests on the wire (RTU or TCP framing), answers and faults.
// Shared by the checks of Modbus devices.
#pragma once
#include "pbt.h"
#include "ref.h"
#include "simclock.h"
#include "simport.h"
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

struct ModbusRequest
{
    unsigned Slave = 0, Fn = 0, Addr = 0, Count = 0;
    std::vector<uint8_t> Data;
    bool IsWrite() const
    {
        return Fn == 5 || Fn == 6 || Fn == 15 || Fn == 16;
    }
    std::string Str() const
    {
        return "fn " + std::to_string(Fn) + " addr " + std::to_string(Addr) + " count " + std::to_string(Count) +
               (Data.empty() ? "" : " data " + pbt::hex(Data));
    }
};

enum class Fault
{
    None,
    Timeout,       // the request is lost
    LostAnswer,    // the request is performed, the answer is lost
    Exception,     // answered with ExceptionCode
    BadCrc,        // RTU: damaged answer; TCP: damaged header
    Short,         // consistent answer with fewer registers than asked
    WrongFunction, // an answer of another function
    WrongSlave     // an answer of another slave
};

class ModbusSlave
{
public:
    enum Table
    {
        HOLDING,
        INPUT,
        COIL,
        DISCRETE
    };
    bool Tcp = false;
    unsigned Id = 1;
    uint64_t Seed = 0;
    // cells that were written; others have pseudo-random content
    std::map<unsigned, uint16_t> Cells[4];
    std::set<unsigned> Illegal[4];      // any access is refused with exception 2
    std::set<unsigned> WriteIllegal[4]; // write is refused with exception 2
    std::vector<ModbusRequest> Log;
    int64_t AnswerNs = 1000000; // time to answer
    // decides the fault of the next request
    std::function<Fault(const ModbusRequest&)> OnRequest;
    unsigned ExceptionCode = 4;
    // other slaves and protocols on the same line may take the bytes
    std::function<bool(const std::vector<uint8_t>&)> Other;

    uint16_t Get(Table t, unsigned addr) const
    {
        auto it = Cells[t].find(addr);
        if (it != Cells[t].end())
            return it->second;
        uint64_t x = Seed ^ (uint64_t(t) << 32) ^ (addr * 0x9E3779B97F4A7C15ull);
        x ^= x >> 29;
        x *= 0xBF58476D1CE4E5B9ull;
        x ^= x >> 32;
        if (t == COIL || t == DISCRETE)
            return x & 1;
        return uint16_t(x);
    }
    void Set(Table t, unsigned addr, uint16_t v)
    {
        Cells[t][addr] = v;
    }

    void Attach(SimPort& port)
    {
        Port = &port;
        port.OnWrite = [this](const std::vector<uint8_t>& q) { Handle(q); };
    }

    void Handle(const std::vector<uint8_t>& q)
    {
        if (Other && Other(q))
            return;
        std::vector<uint8_t> pdu;
        ModbusRequest r;
        unsigned tid = 0;
        if (Tcp) {
            PBT_CHECK(q.size() >= 8, "request is too short: " << pbt::hex(q));
            tid = q[0] << 8 | q[1];
            PBT_CHECK(q[2] == 0 && q[3] == 0, "protocol is not Modbus: " << pbt::hex(q));
            PBT_CHECK(size_t(q[4] << 8 | q[5]) == q.size() - 6, "length in the header: " << pbt::hex(q));
            r.Slave = q[6];
            pdu.assign(q.begin() + 7, q.end());
        } else {
            PBT_CHECK(q.size() >= 4 && ref::crcOk(q), "CRC of the request: " << pbt::hex(q));
            r.Slave = q[0];
            pdu.assign(q.begin() + 1, q.end() - 2);
        }
        r.Fn = pdu[0];
        if (r.Slave != Id)
            return; // someone else's
        PBT_CHECK(pdu.size() >= 5, "request is too short: " << pbt::hex(q));
        r.Addr = pdu[1] << 8 | pdu[2];
        r.Count = pdu[3] << 8 | pdu[4];
        std::vector<uint8_t> answer;
        Table t = r.Fn == 1 || r.Fn == 5 || r.Fn == 15 ? COIL : r.Fn == 2 ? DISCRETE : r.Fn == 4 ? INPUT : HOLDING;
        switch (r.Fn) {
            case 1:
            case 2:
                PBT_CHECK(pdu.size() == 5, "length of a read request: " << pbt::hex(q));
                PBT_CHECK(r.Count >= 1 && r.Count <= 2000, "reads " << r.Count << " bits in one request");
                break;
            case 3:
            case 4:
                PBT_CHECK(pdu.size() == 5, "length of a read request: " << pbt::hex(q));
                PBT_CHECK(r.Count >= 1 && r.Count <= 125, "reads " << r.Count << " registers in one request");
                break;
            case 5:
            case 6:
                PBT_CHECK(pdu.size() == 5, "length of a write request: " << pbt::hex(q));
                r.Data.assign(pdu.begin() + 3, pdu.end());
                r.Count = 1;
                if (r.Fn == 5)
                    PBT_CHECK((r.Data[0] == 0xff || r.Data[0] == 0) && r.Data[1] == 0, "value of a coil: " << pbt::hex(q));
                break;
            case 15:
                PBT_CHECK(pdu.size() >= 6 && size_t(pdu[5]) == pdu.size() - 6 && pdu[5] == (r.Count + 7) / 8 && r.Count >= 1,
                          "length of a write request: " << pbt::hex(q));
                r.Data.assign(pdu.begin() + 6, pdu.end());
                break;
            case 16:
                PBT_CHECK(pdu.size() >= 6 && size_t(pdu[5]) == pdu.size() - 6 && pdu[5] == r.Count * 2 && r.Count >= 1,
                          "length of a write request: " << pbt::hex(q));
                PBT_CHECK(r.Count <= 123, "writes " << r.Count << " registers in one request");
                r.Data.assign(pdu.begin() + 6, pdu.end());
                break;
            default:
                PBT_FAIL("unexpected function in the request " << pbt::hex(q));
        }
        PBT_CHECK(r.Addr + r.Count <= 65536, "the request goes beyond the address space: " << r.Str());
        Log.push_back(r);
        LastException = 0;
        auto fault = OnRequest ? OnRequest(r) : Fault::None;
        LastFault = fault;
        bool ok = fault == Fault::None || fault == Fault::LostAnswer || fault == Fault::BadCrc;
        if (fault == Fault::Timeout)
            return;
        unsigned exc = 0;
        bool refused = fault == Fault::Exception;
        if (refused)
            exc = ExceptionCode;
        for (unsigned a = r.Addr; a < r.Addr + r.Count && !refused; ++a)
            if (Illegal[t].count(a) || (r.IsWrite() && WriteIllegal[t].count(a))) {
                exc = 2;
                refused = true;
            }
        LastException = exc;
        if (refused) {
            answer = {uint8_t(r.Fn | 0x80), uint8_t(exc)};
        } else if (!r.IsWrite()) {
            answer = {uint8_t(r.Fn)};
            std::vector<uint8_t> d;
            if (r.Fn <= 2) {
                d.assign((r.Count + 7) / 8, 0);
                for (unsigned i = 0; i < r.Count; ++i)
                    if (Get(t, r.Addr + i))
                        d[i / 8] |= 1 << (i % 8);
            } else {
                for (unsigned i = 0; i < r.Count; ++i)
                    ref::be16(d, Get(t, r.Addr + i));
            }
            if (fault == Fault::Short) {
                size_t unit = r.Fn <= 2 ? 1 : 2;
                size_t n = d.size() / unit;
                d.resize((n - 1 - ShortBy % n) * unit);
            }
            answer.push_back(uint8_t(d.size()));
            answer.insert(answer.end(), d.begin(), d.end());
        } else {
            if (ok) {
                if (r.Fn == 5)
                    Set(COIL, r.Addr, r.Data[0] ? 1 : 0);
                else if (r.Fn == 6)
                    Set(HOLDING, r.Addr, r.Data[0] << 8 | r.Data[1]);
                else if (r.Fn == 15)
                    for (unsigned i = 0; i < r.Count; ++i)
                        Set(COIL, r.Addr + i, (r.Data[i / 8] >> (i % 8)) & 1);
                else
                    for (unsigned i = 0; i < r.Count; ++i)
                        Set(HOLDING, r.Addr + i, r.Data[2 * i] << 8 | r.Data[2 * i + 1]);
            }
            answer.assign(pdu.begin(), pdu.begin() + 5);
            if (fault == Fault::Short)
                answer.resize(3);
        }
        if (fault == Fault::LostAnswer)
            return;
        if (fault == Fault::WrongFunction)
            answer[0] = (answer[0] & 0x80) | (r.Fn == 3 ? 4 : 3);
        std::vector<uint8_t> frame;
        unsigned slave = fault == Fault::WrongSlave ? (r.Slave + 1) & 0xff : r.Slave;
        if (Tcp) {
            ref::be16(frame, tid);
            ref::be16(frame, 0);
            ref::be16(frame, unsigned(answer.size() + 1));
            frame.push_back(uint8_t(slave));
            frame.insert(frame.end(), answer.begin(), answer.end());
            if (fault == Fault::BadCrc)
                frame[4] = frame[5] = 0;
        } else {
            frame.push_back(uint8_t(slave));
            frame.insert(frame.end(), answer.begin(), answer.end());
            ref::appendCrc(frame);
            if (fault == Fault::BadCrc)
                frame.back() ^= 0x10;
        }
        Port->Push(AnswerNs, frame);
    }
    SimPort* Port = nullptr;
    unsigned ShortBy = 0;
    Fault LastFault = Fault::None;
    unsigned LastException = 0;
};
