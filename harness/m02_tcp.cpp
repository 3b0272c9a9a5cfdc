// M02: Modbus TCP framing: an answer is matched to its request by transaction id, whatever else is in the stream.
#include "modbus_base.h"
#include "pbt.h"
#include "ref.h"
#include "simport.h"
#include <map>
const char* PROPERTY_ID = "M02";
const char* NONTRIVIAL_RULE =
    "one case = a history of 1..12 Modbus TCP transactions over 1..3 ports (with resets), the stream before each answer "
    "holding 0..3 frames of other transactions. Non-trivial: a stale frame precedes an answer, or a history with a reset "
    "or a second port, or a damaged header";
using namespace pbt;
using namespace std::chrono;

void property(Gen& g)
{
    sim::resetClock();
    size_t nPorts = g.range(1, 3);
    std::vector<std::shared_ptr<SimPort>> ports;
    std::vector<std::unique_ptr<Modbus::IModbusTraits>> traits;
    // one case must not see the counters of another: start from a reset
    Modbus::TModbusTCPTraitsFactory factory;
    for (size_t i = 0; i < nPorts; ++i) {
        ports.push_back(std::make_shared<SimPort>("host" + std::to_string(i) + ":502"));
        ports.back()->Open();
        traits.push_back(factory.GetModbusTraits(false));
        Modbus::TModbusTCPTraits::ResetTransactionId(*ports.back());
    }
    std::vector<unsigned> lastId(nPorts, 0);
    bool reset = false, stale = false, damaged = false;
    size_t steps = g.size(1, 12);
    // sometimes start close to the wrap-around of the 16-bit id
    if (g.chance(1, 600)) {
        label("wrap-around");
        auto& p = *ports[0];
        p.OnWrite = nullptr;
        for (size_t i = 0; i < 65530; ++i) {
            p.Rx.clear();
            unsigned id = (lastId[0] + 1) & 0xffff;
            p.Push(0, {uint8_t(id >> 8), uint8_t(id), 0, 0, 0, 3, 1, 3, 0});
            try {
                traits[0]->Transaction(p, 1, {3, 0, 0, 0, 1}, 4, milliseconds(10), milliseconds(10));
            } catch (const std::exception& e) {
                PBT_FAIL("transaction " << i << " of a long history is refused: " << e.what());
            }
            p.Written.clear();
            p.AllGot.clear();
            lastId[0] = id;
        }
    }
    for (size_t s = 0; s < steps; ++s) {
        size_t pi = g.below(nPorts);
        auto& port = *ports[pi];
        if (g.chance(1, 8)) {
            Modbus::TModbusTCPTraits::ResetTransactionId(port);
            lastId[pi] = 0;
            reset = true;
            continue;
        }
        unsigned id = (lastId[pi] + 1) & 0xffff;
        lastId[pi] = id;
        uint8_t slave = uint8_t(g.range(0, 255));
        bool match = !g.chance(1, 6);
        auto pdu = g.bytes(1, 40);
        size_t expected = g.size(0, 253);
        milliseconds respTimeout(g.pick({50, 500})), frameTimeout(g.pick({20, 100}));

        auto frame = [&](unsigned tid, uint8_t unit, const std::vector<uint8_t>& p) {
            std::vector<uint8_t> r;
            ref::be16(r, tid);
            ref::be16(r, 0);
            ref::be16(r, p.size() + 1);
            r.push_back(unit);
            r.insert(r.end(), p.begin(), p.end());
            return r;
        };
        std::vector<uint8_t> stream;
        size_t nStale = g.weighted({4, 2, 1, 1});
        for (size_t i = 0; i < nStale; ++i) {
            unsigned tid;
            switch (g.below(4)) {
                case 0:
                    tid = (id - 1 - g.below(3)) & 0xffff;
                    break;
                case 1:
                    tid = id ^ (1u << g.below(16));
                    break;
                case 2:
                    tid = ((id & 0xff) << 8 | id >> 8);
                    break;
                default:
                    tid = g.bits(16);
            }
            if (tid == id)
                tid ^= 0x100;
            auto f = frame(tid, g.flip() ? slave : uint8_t(g.below(256)), g.bytes(1, 260));
            stream.insert(stream.end(), f.begin(), f.end());
            stale = true;
            label("stale frame before the answer");
        }
        auto ansPdu = g.bytes(1, 260);
        enum
        {
            Good,
            Unit,
            LenZero,
            Trunc,
            Silent
        } scen = decltype(Good)(g.weighted({8, 2, 1, 2, 2}));
        uint8_t unit = slave;
        if (scen == Unit)
            unit = uint8_t(slave + g.range(1, 255));
        auto f = frame(id, unit, ansPdu);
        if (scen == LenZero) {
            f[4] = f[5] = 0;
            damaged = true;
        }
        if (scen == Trunc) {
            f.resize(g.range(1, f.size() - 1));
            damaged = true;
        }
        if (scen != Silent)
            stream.insert(stream.end(), f.begin(), f.end());
        // bytes after the answer must not disturb it
        if (scen == Good && g.chance(1, 4)) {
            auto x = frame(g.bits(16), slave, g.bytes(1, 10));
            stream.insert(stream.end(), x.begin(), x.end());
        }
        std::ostringstream ns;
        ns << "port " << pi << " transaction " << id << " slave " << int(slave) << (match ? "" : " any unit") << " request ["
           << hex(pdu) << "] scenario " << int(scen) << " stream [" << hex(stream).substr(0, 900) << "]";
        auto note = ns.str();
        g.note(note);
        port.Rx.clear();
        port.Written.clear();
        auto chunk = g.pick({size_t(100000), size_t(1), size_t(7), size_t(64)});
        port.OnWrite = [&](const std::vector<uint8_t>&) {
            int64_t at = 100000;
            for (size_t i = 0; i < stream.size(); i += chunk) {
                port.Push(at, {stream.begin() + i, stream.begin() + std::min(stream.size(), i + chunk)});
                at += 5000;
            }
        };
        enum
        {
            Ok,
            Malformed,
            Unexpected,
            Timeout
        } kind;
        Modbus::TReadResult r;
        int64_t started = sim::nowNs();
        try {
            r = traits[pi]->Transaction(port, slave, pdu, expected, respTimeout, frameTimeout, match);
            kind = Ok;
        } catch (const Modbus::TMalformedResponseError& e) {
            kind = Malformed;
        } catch (const Modbus::TUnexpectedResponseError& e) {
            kind = Unexpected;
        } catch (const TResponseTimeoutException& e) {
            kind = Timeout;
        }
        auto want = frame(id, slave, pdu);
        PBT_CHECK(port.Written.size() == 1 && port.Written[0] == want,
                  note << ": request on the wire [" << (port.Written.empty() ? "" : hex(port.Written[0])) << "], expected ["
                       << hex(want) << "]");
        switch (scen) {
            case Good:
                PBT_CHECK(kind == Ok, note << ": the answer of this transaction is refused, kind " << kind);
                PBT_CHECK(r.Pdu == ansPdu, note << ": pdu [" << hex(r.Pdu) << "]");
                PBT_CHECK(r.SlaveId == unit, note << ": unit identifier " << int(r.SlaveId));
                break;
            case Unit:
                if (match) {
                    PBT_CHECK(kind == Unexpected, note << ": answer of another unit is accepted, kind " << kind);
                } else {
                    PBT_CHECK(kind == Ok && r.Pdu == ansPdu && r.SlaveId == unit, note << ": kind " << kind);
                }
                break;
            case LenZero:
                PBT_CHECK(kind == Malformed, note << ": zero length is accepted, kind " << kind);
                break;
            case Trunc:
                PBT_CHECK(kind == Malformed || kind == Timeout, note << ": truncated frame is accepted, kind " << kind);
                break;
            case Silent:
                PBT_CHECK(kind == Timeout, note << ": frames of other transactions are taken for the answer, kind " << kind);
                PBT_CHECK(sim::nowNs() - started < nanoseconds(2 * (respTimeout + frameTimeout)).count() + 100000000,
                          note << ": waited " << (sim::nowNs() - started) << " ns");
                break;
        }
        evaluations(1);
        if (wantSample())
            sample(note);
    }
    // unrelated traffic may not keep the bus busy for ever
    if (g.chance(1, 10)) {
        label("endless foreign traffic");
        auto& port = *ports[0];
        port.Rx.clear();
        milliseconds respTimeout(100), frameTimeout(20);
        unsigned id = (lastId[0] + 1) & 0xffff;
        port.OnWrite = [&](const std::vector<uint8_t>&) {
            unsigned tid = id ^ 0x5555;
            for (int i = 0; i < 2000; ++i)
                port.Push(1000000ll * i, {uint8_t(tid >> 8), uint8_t(tid), 0, 0, 0, 3, 1, 3, 0});
        };
        int64_t started = sim::nowNs();
        bool timeout = false;
        try {
            traits[0]->Transaction(port, 1, {3, 0, 0, 0, 1}, 4, respTimeout, frameTimeout);
        } catch (const TResponseTimeoutException&) {
            timeout = true;
        }
        PBT_CHECK(timeout, "frames of another transaction are taken for the answer");
        PBT_CHECK(sim::nowNs() - started <= 400000000,
                  "kept waiting " << (sim::nowNs() - started) / 1000000 << " ms while only foreign frames arrive");
        nontrivial();
    }
    if (reset || stale || damaged || nPorts > 1)
        nontrivial();
}
