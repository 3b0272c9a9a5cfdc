// Devices of the Fast Modbus extension (events, scan, requests by serial number) written from its public description:
//   FD 46 10 <min slave> <max data> <confirmed slave> <confirmed flag>  ->  <slave> 46 11 <flag> <count> <size> events | FD 46 12
//   event: <size of data> <type> <id hi> <id lo> <data, little endian>
//   <slave> 46 18 <size> { <type> <addr hi> <addr lo> <count> priorities }  ->  <slave> 46 18 <size> bit masks of the records
// RTU answers of the broadcast commands follow an arbitration of 0xFF bytes.
#pragma once
#include "modbus_sim.h"
#include <deque>

namespace fm
{
    struct Event
    {
        uint8_t Type = 0;
        uint16_t Id = 0;
        std::vector<uint8_t> Data;
        uint64_t Serial = 0;
        int Accepted = 0; // times the client took it
        size_t Size() const
        {
            return 4 + Data.size();
        }
    };
    using RegKey = std::pair<uint8_t, uint16_t>; // type, address

    struct Device
    {
        uint8_t Id = 1;
        std::set<RegKey> Capable;          // registers that can send events
        std::map<RegKey, uint8_t> Enabled; // priorities
        bool RebootEvents = true;
        std::deque<Event> Queue;
        size_t Outstanding = 0; // events in the last packet
        uint8_t Flag = 0;
        // change of a register: an event if enabled
        bool Changed(RegKey k, std::vector<uint8_t> data, uint64_t serial)
        {
            auto it = Enabled.find(k);
            if (it == Enabled.end() || !it->second)
                return false;
            Queue.push_back({k.first, k.second, std::move(data), serial});
            return true;
        }
        void Reboot()
        {
            Enabled.clear();
            Queue.clear();
            Outstanding = 0;
            RebootEvents = true;
            Queue.push_back({15, 0, {}, 0});
        }
        void Confirm(uint8_t flag)
        {
            if (!Outstanding || flag != Flag)
                return;
            for (; Outstanding; --Outstanding) {
                auto& e = Queue.front();
                PBT_CHECK(e.Accepted, "the client confirms an event it did not get: slave " << int(Id) << " type " << int(e.Type) << " id "
                                                                                            << e.Id);
                PBT_CHECK(e.Accepted == 1, "the client got an event " << e.Accepted << " times: slave " << int(Id) << " id " << e.Id);
                Queue.pop_front();
            }
        }
        // packet of events, PDU; empty if there are none
        std::vector<uint8_t> Events(size_t maxData)
        {
            std::vector<uint8_t> d;
            size_t n = 0;
            for (auto& e: Queue) {
                if (d.size() + e.Size() > maxData)
                    break;
                d.push_back(uint8_t(e.Data.size()));
                d.push_back(e.Type);
                d.push_back(uint8_t(e.Id >> 8));
                d.push_back(uint8_t(e.Id));
                d.insert(d.end(), e.Data.begin(), e.Data.end());
                ++n;
            }
            PBT_CHECK(n || Queue.empty(), "the client leaves no room for an event: " << maxData << " bytes allowed, the event takes "
                                                                                     << Queue.front().Size());
            if (!n)
                return {};
            if (!Outstanding)
                Flag ^= 1;
            Outstanding = n;
            std::vector<uint8_t> p{0x46, 0x11, Flag, uint8_t(std::min<size_t>(255, Queue.size() - n)), uint8_t(d.size())};
            p.insert(p.end(), d.begin(), d.end());
            return p;
        }
        struct EnableRecord
        {
            uint8_t Type;
            uint16_t Addr;
            std::vector<uint8_t> Prio;
        };
        static std::vector<EnableRecord> ParseEnable(const std::vector<uint8_t>& pdu)
        {
            PBT_CHECK(pdu.size() >= 3 && pdu[0] == 0x46 && pdu[1] == 0x18, "request to enable events: " << pbt::hex(pdu));
            PBT_CHECK(pdu[2] == pdu.size() - 3, "size in the request to enable events: " << pbt::hex(pdu));
            PBT_CHECK(pdu.size() <= 253, "the request to enable events is too long: " << pdu.size());
            std::vector<EnableRecord> res;
            for (size_t i = 3; i < pdu.size();) {
                PBT_CHECK(i + 4 < pdu.size(), "record of the request to enable events: " << pbt::hex(pdu));
                EnableRecord r{pdu[i], uint16_t(pdu[i + 1] << 8 | pdu[i + 2]), {}};
                size_t n = pdu[i + 3];
                PBT_CHECK(n >= 1 && i + 4 + n <= pdu.size() && r.Addr + n <= 65536, "record of the request to enable events: " << pbt::hex(pdu));
                r.Prio.assign(pdu.begin() + i + 4, pdu.begin() + i + 4 + n);
                res.push_back(r);
                i += 4 + n;
            }
            return res;
        }
        std::vector<uint8_t> Enable(const std::vector<EnableRecord>& recs)
        {
            std::vector<uint8_t> masks;
            for (auto& r: recs) {
                std::vector<uint8_t> m((r.Prio.size() + 7) / 8, 0);
                for (size_t i = 0; i < r.Prio.size(); ++i) {
                    RegKey k(r.Type, uint16_t(r.Addr + i));
                    bool on = false;
                    if (r.Type == 15) {
                        RebootEvents = r.Prio[i] != 0;
                        on = RebootEvents;
                        if (!on)
                            Drop(k);
                    } else if (r.Prio[i] && Capable.count(k)) {
                        Enabled[k] = r.Prio[i];
                        on = true;
                    } else {
                        Enabled.erase(k);
                        Drop(k);
                    }
                    if (on)
                        m[i / 8] |= uint8_t(1 << (i % 8));
                }
                masks.insert(masks.end(), m.begin(), m.end());
            }
            std::vector<uint8_t> p{0x46, 0x18, uint8_t(masks.size())};
            p.insert(p.end(), masks.begin(), masks.end());
            return p;
        }
        // events that are not wanted any more
        void Drop(RegKey k)
        {
            for (size_t i = 0; i < Queue.size();)
                if (Queue[i].Type == k.first && Queue[i].Id == k.second) {
                    // a packet nobody got is as if it were never sent
                    if (i < Outstanding && --Outstanding == 0 && !Queue[i].Accepted)
                        Flag ^= 1;
                    Queue.erase(Queue.begin() + i);
                } else {
                    ++i;
                }
        }
    };

    // one packet of the broadcast commands that ends with the received bytes; npos if there is none
    inline size_t FindPacket(const std::vector<uint8_t>& b)
    {
        for (size_t i = 0; i + 5 <= b.size(); ++i) {
            if (b[i] == 0xff || (b[i + 1] != 0x46 && b[i + 1] != 0x60))
                continue;
            size_t n = b.size() - i;
            bool fits = false;
            switch (b[i + 2]) {
                case 0x11:
                    fits = n >= 8 && n == size_t(b[i + 5]) + 8;
                    break;
                case 0x12:
                case 0x04:
                    fits = n == 5;
                    break;
                case 0x03:
                    fits = n == 10;
                    break;
            }
            if (fits && ref::crcOk(std::vector<uint8_t>(b.begin() + i, b.end())))
                return i;
        }
        return size_t(-1);
    }
}
