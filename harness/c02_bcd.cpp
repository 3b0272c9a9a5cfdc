// C02: packed BCD: digits survive the round trip; packing keeps the bytes in reading order.
#include "bcd_utils.h"
#include "pbt.h"
#include <memory>
const char* PROPERTY_ID = "C02";
const char* NONTRIVIAL_RULE =
    "one case = one decimal number and one digit string at one of the four sizes. Non-trivial: at least two different "
    "non-zero digits";
using namespace pbt;

void property(Gen& g)
{
    unsigned size = 1 + g.below(4);
    auto ws = WordSizes(size);
    // digits, most significant first
    std::vector<unsigned> d(2 * size);
    bool bad = g.chance(1, 6);
    for (auto& x: d)
        x = bad ? g.below(16) : g.below(10);
    if (g.chance(1, 4))
        for (size_t i = 0; i < g.below(d.size()); ++i)
            d[i] = 0;
    auto bytes = std::make_unique<uint8_t[]>(size);
    uint64_t packed = 0, value = 0;
    std::string text;
    for (unsigned i = 0; i < size; ++i) {
        bytes[i] = d[2 * i] * 16 + d[2 * i + 1];
        packed = packed * 256 + bytes[i];
    }
    for (auto x: d) {
        value = value * 10 + x;
        text += "0123456789abcdef"[x];
    }
    g.note("digits " + text);
    PBT_EQ(uint64_t(PackBytes(bytes.get(), ws)), packed, "packing of digits " << text);
    uint64_t above = g.chance(1, 3) && size < 4 ? g.bits(32) << (8 * size) : 0;
    PBT_EQ(PackedBCD2Int(packed, ws), value, "number of digits " << text);
    PBT_EQ(PackedBCD2Int(packed | above, ws), value, "number of digits " << text << " below other bytes");
    uint64_t limit = 1;
    for (unsigned i = 0; i < 2 * size; ++i)
        limit *= 10;
    if (!bad) {
        auto arr = IntToBCDArray(value, ws);
        PBT_EQ(hex(arr), hex(bytes.get(), size), "digits of number " << value << " in " << size << " bytes");
        PBT_EQ(uint64_t(IntToPackedBCD(uint32_t(value), ws)), packed, "packed digits of number " << value << " in " << size << " bytes");
        PBT_EQ(PackedBCD2Int(IntToPackedBCD(uint32_t(value), ws), ws), value, "number " << value << " there and back");
        // a number that does not fit keeps its low digits
        uint64_t big = value + limit * g.range(0, 1000);
        PBT_EQ(hex(IntToBCDArray(big, ws)), hex(bytes.get(), size), "low digits of " << big << " in " << size << " bytes");
        labelIf(big >= limit, "number does not fit");
    }
    labelIf(bad, "nibbles above 9");
    bool nt = false;
    for (auto x: d)
        for (auto y: d)
            nt = nt || (x && y && x != y);
    if (nt)
        nontrivial();
    label(size == 1 ? "1 byte" : size == 2 ? "2 bytes" : size == 3 ? "3 bytes" : "4 bytes");
    if (wantSample())
        sample("digits " + text);
}
