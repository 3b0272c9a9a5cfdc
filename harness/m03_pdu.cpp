// M03: Modbus application protocol: request PDUs and interpretation of response PDUs, against the specification tables.
#include "modbus_base.h"
#include "pbt.h"
#include "ref.h"
#include <optional>
const char* PROPERTY_ID = "M03";
const char* NONTRIVIAL_RULE =
    "one case = one request PDU or one response PDU (any function code, any byte count, exceptions, truncated, foreign "
    "function). Non-trivial: a response that is not the plain matching one, or a write request";
using namespace pbt;
using namespace Modbus;

static const std::vector<int> READS = {1, 2, 3, 4};
static const std::vector<int> WRITES = {5, 6, 15, 16};

static void Request(Gen& g)
{
    int fn = g.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 15, 16, 23});
    uint16_t addr = g.bits(16), waddr = g.bits(16);
    unsigned count, wcount = 0;
    std::vector<uint8_t> data;
    bool bad = g.chance(1, 5);
    size_t need = 0;
    switch (fn) {
        case 1:
        case 2:
            count = g.range(1, 2000);
            break;
        case 3:
        case 4:
            count = g.range(1, 125);
            break;
        case 5:
        case 6:
            count = 1;
            need = 2;
            break;
        case 15:
            count = g.range(1, 1968);
            need = (count + 7) / 8;
            break;
        case 16:
            count = g.range(1, 123);
            need = count * 2;
            break;
        default:
            count = g.range(1, 125);
            wcount = g.range(1, 121);
            need = wcount * 2;
    }
    size_t size = need;
    if (bad && need) {
        do {
            size = g.below(need + 4);
        } while (size == need && !g.replaying());
        if (size == need)
            size = need + 1;
    }
    for (size_t i = 0; i < size; ++i)
        data.push_back(uint8_t(g.below(256)));
    std::vector<uint8_t> want = {uint8_t(fn)};
    ref::be16(want, addr);
    switch (fn) {
        case 1:
        case 2:
        case 3:
        case 4:
            ref::be16(want, count);
            break;
        case 5:
        case 6:
            want.insert(want.end(), data.begin(), data.end());
            break;
        case 15:
        case 16:
            ref::be16(want, count);
            want.push_back(uint8_t(size));
            want.insert(want.end(), data.begin(), data.end());
            break;
        case 23:
            ref::be16(want, count);
            ref::be16(want, waddr);
            ref::be16(want, wcount);
            want.push_back(uint8_t(size));
            want.insert(want.end(), data.begin(), data.end());
    }
    std::ostringstream ns;
    ns << "request function " << fn << " address " << addr << " count " << count << " write address " << waddr
       << " write count " << wcount << " data [" << hex(data) << "]";
    g.note(ns.str());
    auto f = EFunction(fn);
    PBT_CHECK(IsSupportedFunction(fn), ns.str() << ": function is not supported");
    for (int variant = 0; variant < 2; ++variant) {
        if (fn == 23 && variant == 0)
            continue;
        std::vector<uint8_t> got;
        bool refused = false;
        try {
            got = variant ? MakePDU(f, addr, count, waddr, wcount, data) : MakePDU(f, addr, count, data);
        } catch (const TMalformedRequestError&) {
            refused = true;
        }
        if (need && size != need) {
            PBT_CHECK(refused, ns.str() << ": data of a wrong size is sent as [" << hex(got) << "]");
        } else {
            PBT_CHECK(!refused, ns.str() << ": request is refused");
            PBT_CHECK(got == want, ns.str() << ": got [" << hex(got) << "], expected [" << hex(want) << "]");
        }
    }
    size_t respSize = (fn == 1 || fn == 2)                ? 2 + (count + 7) / 8
                      : (fn == 3 || fn == 4 || fn == 23) ? 2 + 2 * count
                                                          : 5;
    PBT_EQ(CalcResponsePDUSize(f, count), respSize, ns.str() << ": size of the answer");
    if (need)
        nontrivial();
    label(bad && need ? "request with data of a wrong size" : "request");
    if (wantSample())
        sample(ns.str());
}

static void Response(Gen& g)
{
    int reqFn = g.pick(std::vector<int>{1, 2, 3, 4, 5, 6, 15, 16, 23});
    bool isWrite = reqFn == 5 || reqFn == 6 || reqFn == 15 || reqFn == 16;
    std::vector<uint8_t> pdu;
    const char* name;
    switch (g.weighted({4, 4, 3, 2, 3, 2})) {
        case 0:
            name = "matching";
            pdu = {uint8_t(reqFn)};
            if (isWrite) {
                for (int i = 0; i < 4; ++i)
                    pdu.push_back(g.below(256));
            } else {
                size_t n = g.range(0, 251);
                pdu.push_back(uint8_t(n));
                for (size_t i = 0; i < n; ++i)
                    pdu.push_back(g.below(256));
            }
            break;
        case 1:
            name = "exception";
            pdu = {uint8_t(reqFn | 0x80), uint8_t(g.range(0, 255))};
            for (auto b: g.bytes(0, 4))
                pdu.push_back(b);
            break;
        case 2:
            name = "wrong byte count";
            pdu = {uint8_t(reqFn), uint8_t(g.range(0, 255))};
            for (auto b: g.bytes(0, 250))
                pdu.push_back(b);
            break;
        case 3:
            name = "tiny";
            pdu = g.bytes(0, 3);
            break;
        case 4:
            name = "foreign function";
            pdu = {uint8_t(g.below(256))};
            {
                auto r = g.bytes(1, 10);
                pdu.insert(pdu.end(), r.begin(), r.end());
                if (g.flip() && r.size())
                    pdu[1] = pdu.size() - 2;
            }
            break;
        default:
            name = "near write answer";
            pdu = {uint8_t(reqFn)};
            for (auto b: g.bytes(1, 8))
                pdu.push_back(b);
    }
    label(name);
    std::ostringstream ns;
    ns << "request function " << reqFn << " response [" << hex(pdu) << "]";
    auto note = ns.str();
    g.note(note);
    enum
    {
        Ok,
        Exc,
        Malformed,
        Unexpected
    } kind;
    std::vector<uint8_t> data;
    unsigned code = 0;
    try {
        data = ExtractResponseData(EFunction(reqFn), pdu);
        kind = Ok;
    } catch (const TModbusExceptionError& e) {
        kind = Exc;
        code = e.GetExceptionCode();
    } catch (const TMalformedResponseError&) {
        kind = Malformed;
    } catch (const TUnexpectedResponseError&) {
        kind = Unexpected;
    }
    if (pdu.size() < 2) {
        PBT_CHECK(kind == Malformed, note << ": truncated answer is accepted, kind " << kind);
    } else if ((pdu[0] & 0x7f) != reqFn) {
        PBT_CHECK(kind == Unexpected, note << ": answer to another function is accepted, kind " << kind);
    } else if (pdu[0] & 0x80) {
        if (pdu[1] == 0) {
            // not a code of the specification, but the device did refuse the request
            PBT_CHECK(kind != Ok, note << ": refusal of the device is taken for success");
        } else {
            PBT_CHECK(kind == Exc, note << ": exception is not reported as one, kind " << kind);
            PBT_EQ(code, unsigned(pdu[1]), note << ": exception code");
        }
    } else if (isWrite) {
        PBT_CHECK(kind == (pdu.size() == 5 ? Ok : Malformed), note << ": kind " << kind);
        if (kind == Ok)
            PBT_CHECK(data.empty(), note << ": data of a write answer");
    } else {
        PBT_CHECK(kind == (pdu.size() == size_t(pdu[1]) + 2 ? Ok : Malformed), note << ": kind " << kind);
        if (kind == Ok)
            PBT_CHECK(std::equal(data.begin(), data.end(), pdu.begin() + 2, pdu.end()),
                      note << ": data [" << hex(data) << "]");
    }
    if (std::string(name) != "matching")
        nontrivial();
    if (wantSample())
        sample(note);
}

static void Sizes(Gen& g)
{
    // what the protocol allows beyond the usual sizes must not wrap around
    unsigned count = g.range(0, 65535);
    for (int fn: {1, 2})
        PBT_EQ(CalcResponsePDUSize(EFunction(fn), count), size_t(2 + (count + 7) / 8), "answer size for " << count);
    for (int fn: {3, 4, 23})
        PBT_EQ(CalcResponsePDUSize(EFunction(fn), count), size_t(2) + 2 * count, "answer size for " << count);
    for (int b = 0; b < 256; ++b) {
        PBT_EQ(IsException(uint8_t(b)), (b & 0x80) != 0, "IsException " << b);
        bool sup = (b >= 1 && b <= 6) || b == 15 || b == 16 || b == 23;
        PBT_EQ(IsSupportedFunction(uint8_t(b)), sup, "IsSupportedFunction " << b);
    }
    for (int c = 1; c < 256; ++c) {
        TModbusExceptionError e(c);
        PBT_EQ(unsigned(e.GetExceptionCode()), unsigned(c), "exception code");
        static const char* names[] = {"illegal function", "illegal data address", "illegal data value", "server device failure"};
        if (c <= 4)
            PBT_CHECK(std::string(e.what()) == names[c - 1], "text of exception " << c << ": " << e.what());
        else if (c > 11)
            PBT_CHECK(std::string(e.what()).find(std::to_string(c)) != std::string::npos, "text of exception " << c << ": " << e.what());
    }
    label("tables");
}

void property(Gen& g)
{
    switch (g.weighted({10, 12, 1})) {
        case 0:
            Request(g);
            break;
        case 1:
            Response(g);
            break;
        default:
            Sizes(g);
    }
}
