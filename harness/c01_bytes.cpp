// C01: numbers <-> bytes in both orders, for every width, against arithmetic on the digits.
#include "bin_utils.h"
#include "pbt.h"
#include <array>
#include <deque>
#include <iterator>
#include <list>
const char* PROPERTY_ID = "C01";
const char* NONTRIVIAL_RULE =
    "one case = one byte sequence or number taken through every width and both byte orders. Non-trivial: more than one "
    "byte and not all bytes equal";
using namespace pbt;
using namespace BinUtils;

static uint64_t Le(const std::vector<uint8_t>& b)
{
    uint64_t r = 0;
    for (size_t i = b.size(); i-- > 0;)
        r = r * 256 + b[i];
    return r;
}
static uint64_t Be(const std::vector<uint8_t>& b)
{
    uint64_t r = 0;
    for (auto x: b)
        r = r * 256 + x;
    return r;
}

template<class T> static void Width(Gen& g, const std::vector<uint8_t>& all, uint64_t num, const char* name)
{
    const size_t W = sizeof(T);
    size_t n = g.range(0, W);
    std::vector<uint8_t> b(all.begin(), all.begin() + n);
    std::string what = std::string(name) + " [" + hex(b) + "]";
    std::list<uint8_t> l(b.begin(), b.end());
    PBT_EQ(uint64_t((T)Get<T>(b.begin(), b.end())), uint64_t(T(Le(b))), what << ": little endian value");
    PBT_EQ(uint64_t((T)Get<T>(l.begin(), l.end())), uint64_t(T(Le(b))), what << ": little endian value of a list");
    PBT_EQ(uint64_t((T)GetBigEndian<T>(b.begin(), b.end())), uint64_t(T(Be(b))), what << ": big endian value");
    PBT_EQ(uint64_t((T)GetBigEndian<T>(l.begin(), l.end())), uint64_t(T(Be(b))), what << ": big endian value of a list");
    std::vector<uint8_t> w(all.begin(), all.begin() + W);
    // exact-size heap copies: reading beyond is an error
    std::vector<uint8_t> exact(w);
    exact.shrink_to_fit();
    what = std::string(name) + " [" + hex(w) + "]";
    PBT_EQ(uint64_t((T)GetFrom<T>(exact.data())), uint64_t(T(Le(w))), what << ": little endian value from a position");
    PBT_EQ(uint64_t((T)GetFromBigEndian<T>(exact.data())), uint64_t(T(Be(w))), what << ": big endian value from a position");
    T v = T(num);
    size_t k = g.range(1, W);
    auto s = std::string(name) + " " + std::to_string(num);
    std::vector<uint8_t> want, pre = {0xEE};
    for (size_t i = 0; i < W; ++i)
        want.push_back(uint8_t(uint64_t(num) >> (8 * i)));
    auto check = [&](const std::vector<uint8_t>& got, size_t len, bool be) {
        std::vector<uint8_t> e = {0xEE};
        for (size_t i = 0; i < len; ++i)
            e.push_back(be ? want[len - 1 - i] : want[i]);
        PBT_CHECK(got == e, s << (be ? " big" : " little") << " endian in " << len << " bytes: [" << hex(got)
                              << "], expected [" << hex(e) << "]");
    };
    auto o = pre;
    Append(std::back_inserter(o), v);
    check(o, W, false);
    o = pre;
    Append(std::back_inserter(o), v, k);
    check(o, k, false);
    o = pre;
    AppendBigEndian(std::back_inserter(o), v);
    check(o, W, true);
    o = pre;
    AppendBigEndian(std::back_inserter(o), v, k);
    check(o, k, true);
    // there and back
    o.clear();
    Append(std::back_inserter(o), v);
    PBT_EQ(uint64_t((T)GetFrom<T>(o.begin())), uint64_t(v), s << ": little endian there and back");
    o.clear();
    AppendBigEndian(std::back_inserter(o), v);
    PBT_EQ(uint64_t((T)GetFromBigEndian<T>(o.begin())), uint64_t(v), s << ": big endian there and back");
}

void property(Gen& g)
{
    std::vector<uint8_t> b(8);
    for (auto& x: b)
        x = g.byte();
    uint64_t num = g.bits(64);
    g.note("bytes [" + hex(b) + "] number " + std::to_string(num));
    Width<uint8_t>(g, b, num, "u8");
    Width<uint16_t>(g, b, num, "u16");
    Width<uint32_t>(g, b, num, "u32");
    Width<uint64_t>(g, b, num, "u64");
    Width<int32_t>(g, b, num, "s32");
    Width<int64_t>(g, b, num, "s64");
    evaluations(48);
    // masks
    unsigned bits = g.range(0, 255);
    auto m = GetLSBMask(uint8_t(bits));
    for (unsigned i = 0; i < 64; ++i)
        PBT_EQ(unsigned((m >> i) & 1), unsigned(i < bits), "bit " << i << " of the mask of " << bits << " bits");
    uint8_t two[4] = {0x55, 0x55, 0x55, 0x55};
    WriteAs2Bytes(two + 1, uint16_t(num));
    PBT_CHECK(two[0] == 0x55 && two[3] == 0x55 && two[1] == uint8_t(num >> 8) && two[2] == uint8_t(num),
              "two bytes of " << uint16_t(num) << ": [" << hex(two, 4) << "]");
    std::vector<uint8_t> o = {1};
    Append(std::back_inserter(o), {b[0], b[1], b[2]});
    PBT_CHECK((o == std::vector<uint8_t>{1, b[0], b[1], b[2]}), "list of bytes: [" << hex(o) << "]");
    bool eq = true;
    for (auto x: b)
        eq = eq && x == b[0];
    if (!eq)
        nontrivial();
    labelIf(num >> 63, "top bit set");
    labelIf(bits > 64, "mask wider than the word");
    if (wantSample())
        sample("bytes [" + hex(b) + "] number " + std::to_string(num));
}
