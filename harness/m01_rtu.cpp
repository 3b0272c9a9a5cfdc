// M01: Modbus RTU framing. Oracle: bit-by-bit CRC and the frame rules of the Modbus serial line specification,
// applied to the bytes the line really delivered.
#include "modbus_base.h"
#include "pbt.h"
#include "ref.h"
#include "simport.h"
#include "crc16.h"
const char* PROPERTY_ID = "M01";
const char* NONTRIVIAL_RULE =
    "one case = 1..6 RTU transactions over a simulated line; each answer is built by a scenario (intact, exception, "
    "short/long but CRC-correct, foreign address, 1..3 bit flips, burst, truncated, noise before/after, chunked, silent). "
    "Non-trivial: at least one corrupted/foreign/partial answer and at least one intact one, or a CRC comparison over >= 2 bytes";
using namespace pbt;
using namespace std::chrono;

static void CrcCase(Gen& g)
{
    // any buffer, including the longest possible ones
    size_t n = g.chance(1, 30) ? g.uniform(0, 65535) : g.size(0, 300);
    std::vector<uint8_t> b(n);
    if (n > 400) {
        uint64_t x = g.bits();
        for (auto& v: b) {
            x = x * 6364136223846793005ull + 1442695040888963407ull;
            v = uint8_t(x >> 56);
        }
    } else {
        for (auto& v: b)
            v = uint8_t(g.below(256));
    }
    auto r = ref::crc16(b);
    uint16_t got = CRC16::CalculateCRC16(b.data(), uint16_t(n));
    // the code keeps the byte sent first (low byte of the CRC) in the high half
    uint16_t want = uint16_t((r & 0xff) << 8 | r >> 8);
    label("crc");
    if (n >= 2)
        nontrivial();
    PBT_CHECK(got == want, "CRC of [" << hex(b).substr(0, 300) << "]: got " << got << ", reference " << want);
}

struct Outcome
{
    enum
    {
        Ok,
        Malformed,
        Unexpected,
        Timeout,
        Other
    } Kind;
    std::vector<uint8_t> Pdu;
    std::string What;
};

void property(Gen& g)
{
    sim::resetClock();
    if (g.chance(1, 8)) {
        CrcCase(g);
        return;
    }
    uint64_t byteNs = 11ull * 1000000000ull / g.pick({115200, 9600, 1200});
    SimPort port("rtu", byteNs);
    port.Open();
    bool force = g.chance(1, 4);
    Modbus::TModbusRTUTraitsFactory factory;
    auto traits = factory.GetModbusTraits(force);
    PBT_CHECK(traits->GetForceFrameTimeout() == force, "force_frame_timeout is not passed to the RTU transport");
    size_t transactions = g.size(1, 6);
    bool sawBad = false, sawGood = false;
    for (size_t t = 0; t < transactions; ++t) {
        uint8_t slave = uint8_t(g.range(0, 255));
        bool match = !g.chance(1, 6);
        std::vector<uint8_t> pdu;
        size_t expected;
        bool write = false;
        Modbus::EFunction fn;
        switch (g.below(4)) {
            case 0: {
                fn = g.pick({Modbus::FN_READ_HOLDING, Modbus::FN_READ_INPUT});
                auto cnt = g.range(1, 125);
                pdu = {uint8_t(fn)};
                ref::be16(pdu, g.range(0, 65535));
                ref::be16(pdu, cnt);
                expected = 2 + 2 * cnt;
                break;
            }
            case 1: {
                fn = g.pick({Modbus::FN_READ_COILS, Modbus::FN_READ_DISCRETE});
                auto cnt = g.range(1, 2000);
                pdu = {uint8_t(fn)};
                ref::be16(pdu, g.range(0, 65535));
                ref::be16(pdu, cnt);
                expected = 2 + (cnt + 7) / 8;
                break;
            }
            case 2: {
                fn = g.pick({Modbus::FN_WRITE_SINGLE_REGISTER, Modbus::FN_WRITE_SINGLE_COIL});
                pdu = {uint8_t(fn)};
                ref::be16(pdu, g.range(0, 65535));
                ref::be16(pdu, g.range(0, 65535));
                expected = 5;
                write = true;
                break;
            }
            default: { // anything the raw RPC may send
                pdu = g.bytes(1, 60);
                expected = g.size(0, 253);
                fn = Modbus::EFunction(pdu[0] & 0x7f);
            }
        }
        milliseconds respTimeout(g.pick({20, 100, 500}));
        milliseconds frameTimeout(g.pick({2, 20, 100}));

        // ---- build the answer
        auto frame = [&](uint8_t addr, std::vector<uint8_t> p) {
            p.insert(p.begin(), addr);
            ref::appendCrc(p);
            return p;
        };
        auto goodPdu = [&](size_t len) {
            std::vector<uint8_t> p;
            if (write && len == 5) {
                p = pdu;
            } else if (len > 0) {
                p.push_back(uint8_t(fn) & 0x7f);
                if (len > 1)
                    p.push_back(uint8_t(len - 2));
                while (p.size() < len)
                    p.push_back(uint8_t(g.below(256)));
            }
            return p;
        };
        std::vector<uint8_t> ans;
        bool silent = false, needGap = false;
        const char* name = "";
        size_t scen = g.weighted({5, 2, 2, 2, 1, 4, 3, 2, 1, 2, 2});
        switch (scen) {
            case 0:
                name = "intact";
                ans = frame(slave, goodPdu(expected));
                break;
            case 1:
                name = "exception";
                ans = frame(slave, {uint8_t((pdu[0] & 0x7f) | 0x80), uint8_t(g.range(0, 255))});
                break;
            case 2:
                name = "short but CRC-correct";
                ans = frame(slave, goodPdu(expected ? g.below(expected) : 0));
                break;
            case 3:
                name = "foreign address";
                ans = frame(uint8_t(slave + g.range(1, 255)), goodPdu(expected));
                break;
            case 4:
                name = "long but CRC-correct";
                ans = frame(slave, goodPdu(expected + g.range(1, 40)));
                break;
            case 5: {
                name = "bit flips";
                ans = frame(slave, g.chance(1, 4) ? std::vector<uint8_t>{uint8_t(fn | 0x80), 2} : goodPdu(expected));
                size_t flips = g.range(1, 3);
                for (size_t i = 0; i < flips; ++i) {
                    auto bit = g.below(ans.size() * 8);
                    ans[bit / 8] ^= uint8_t(1 << (bit % 8));
                }
                break;
            }
            case 6: {
                name = "burst";
                ans = frame(slave, goodPdu(expected));
                size_t pos = g.below(ans.size());
                ans[pos] ^= uint8_t(g.range(1, 255));
                if (pos + 1 < ans.size())
                    ans[pos + 1] ^= uint8_t(g.below(256));
                break;
            }
            case 7:
                name = "truncated";
                ans = frame(slave, goodPdu(expected));
                ans.resize(g.range(1, ans.size() - 1));
                break;
            case 8:
                name = "silent";
                silent = true;
                break;
            case 9:
                name = "noise around";
                ans = frame(slave, goodPdu(expected));
                if (g.flip()) {
                    auto n = g.bytes(1, 3);
                    ans.insert(ans.begin(), n.begin(), n.end());
                } else {
                    auto n = g.bytes(1, 20);
                    ans.insert(ans.end(), n.begin(), n.end());
                }
                break;
            default:
                name = "garbage";
                ans = g.bytes(1, 80);
        }
        label(name);
        (scen == 0 || scen == 1 ? sawGood : sawBad) = true;
        // ---- how it arrives
        port.Rx.clear();
        auto wbefore = port.Written.size();
        auto gbefore = port.AllGot.size();
        int64_t delay = g.range(0, 1) ? 1000000ll * g.uniform(0, respTimeout.count() - 1) : 500000;
        int64_t sentAt = -1;
        std::string note = std::string("slave ") + std::to_string(slave) + " request " + hex(pdu) + " expected pdu size " +
                           std::to_string(expected) + (match ? "" : " any slave") + " scenario " + name + " answer [" +
                           hex(ans) + "]";
        std::vector<size_t> cuts;
        size_t nCuts = g.chance(1, 3) ? g.range(1, 3) : 0;
        for (size_t i = 0; i < nCuts; ++i)
            cuts.push_back(g.below(ans.size() + 1));
        std::sort(cuts.begin(), cuts.end());
        bool bigGap = nCuts && g.chance(1, 3);
        int64_t lastByteAt = 0, firstByteAt = 0;
        port.OnWrite = [&](const std::vector<uint8_t>& w) {
            sentAt = sim::nowNs();
            if (silent)
                return;
            int64_t at = delay;
            firstByteAt = sentAt + at;
            size_t from = 0;
            for (size_t i = 0; i <= cuts.size(); ++i) {
                size_t to = i < cuts.size() ? cuts[i] : ans.size();
                if (to > from) {
                    port.Push(at, std::vector<uint8_t>(ans.begin() + from, ans.begin() + to));
                    lastByteAt = sentAt + at;
                    at += bigGap ? nanoseconds(frameTimeout).count() + 1000000 : nanoseconds(frameTimeout).count() / 2;
                }
                from = to;
            }
        };
        if (nCuts)
            label(bigGap ? "split by a frame gap" : "chunked");
        g.note(note);
        Outcome o{Outcome::Other, {}, {}};
        Modbus::TReadResult r;
        try {
            r = traits->Transaction(port, slave, pdu, expected, respTimeout, frameTimeout, match);
            o.Kind = Outcome::Ok;
            o.Pdu = r.Pdu;
        } catch (const Modbus::TMalformedResponseError& e) {
            o.Kind = Outcome::Malformed;
        } catch (const Modbus::TUnexpectedResponseError& e) {
            o.Kind = Outcome::Unexpected;
        } catch (const TResponseTimeoutException& e) {
            o.Kind = Outcome::Timeout;
        }
        // ---- request on the wire
        auto want = frame(slave, pdu);
        PBT_CHECK(port.Written.size() == wbefore + 1, note << ": request was not written exactly once");
        PBT_CHECK(port.Written.back() == want,
                  note << ": request on the wire [" << hex(port.Written.back()) << "], expected [" << hex(want) << "]");
        // ---- outcome, from the bytes handed to the code
        PBT_CHECK(port.AllGot.size() > gbefore, note << ": the answer was not read");
        auto got = port.AllGot[gbefore];
        std::ostringstream where;
        where << note << " received [" << hex(got) << "]";
        if (got.empty()) {
            PBT_CHECK(o.Kind == Outcome::Timeout, where.str() << ": silence is not reported as a timeout");
        } else if (got.size() < 3 || !ref::crcOk(got)) {
            PBT_CHECK(o.Kind == Outcome::Malformed, where.str() << ": a corrupted frame is accepted, result pdu ["
                                                                << hex(o.Pdu) << "] kind " << o.Kind);
        } else if (match && got[0] != slave) {
            PBT_CHECK(o.Kind == Outcome::Unexpected, where.str() << ": answer of another device is accepted, kind "
                                                                 << o.Kind);
        } else {
            PBT_CHECK(o.Kind == Outcome::Ok, where.str() << ": an intact frame is refused, kind " << o.Kind);
            std::vector<uint8_t> p(got.begin() + 1, got.end() - 2);
            PBT_CHECK(o.Pdu == p, where.str() << ": pdu [" << hex(o.Pdu) << "], expected [" << hex(p) << "]");
            if (!silent && !match)
                label("accepted from any slave");
        }
        // an intact answer of the expected size, or an exception, delivered in time is accepted whatever the chunking
        bool inTime = !silent && !bigGap;
        if (inTime && (scen == 0 || (scen == 1 && expected >= 2)) && (!match || ans[0] == slave)) {
            if (scen == 1 || !(ans.size() > 1 && (ans[1] & 0x80))) {
                PBT_CHECK(o.Kind == Outcome::Ok, where.str() << ": a complete answer delivered in time is refused");
                PBT_CHECK(got == ans, where.str() << ": part of a complete answer is not read");
                // and the bus is free as soon as its last byte is there
                if (!force) {
                    PBT_CHECK(sim::nowNs() == lastByteAt,
                              where.str() << ": waited " << (sim::nowNs() - lastByteAt) << " ns after a complete answer");
                } else {
                    PBT_CHECK(sim::nowNs() >= lastByteAt + nanoseconds(frameTimeout).count(),
                              where.str() << ": silence after the frame is not kept");
                }
                PBT_CHECK(r.ResponseTime.count() * 1000 >= firstByteAt - sentAt - 1000 &&
                              r.ResponseTime.count() * 1000 <= firstByteAt - sentAt + 1000,
                          where.str() << ": response time " << r.ResponseTime.count() << " us");
            }
        }
        evaluations(1);
        if (wantSample())
            sample(note);
    }
    if (sawBad && sawGood)
        nontrivial();
}
