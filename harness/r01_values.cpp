// R01: register raw value <-> text, for every format, scale, offset and rounding.
#include "pbt.h"
#include "register.h"
#include <cmath>
#include <cstring>
const char* PROPERTY_ID = "R01";
const char* NONTRIVIAL_RULE =
    "one case = one register format with scale, offset and rounding, and one raw value or text. Non-trivial: scaled, "
    "shifted or rounded, or a value at or beyond the sign bit, or a text that must be refused";
using namespace pbt;

namespace
{
    struct Fmt
    {
        RegisterFormat F;
        const char* Name;
        unsigned Bits;
        bool Signed;
        bool Bcd;
    };
    const Fmt INTS[] = {{U8, "u8", 8, false, false},     {S8, "s8", 8, true, false},       {U16, "u16", 16, false, false},
                        {S16, "s16", 16, true, false},   {U24, "u24", 24, false, false},   {S24, "s24", 24, true, false},
                        {U32, "u32", 32, false, false},  {S32, "s32", 32, true, false},    {U64, "u64", 64, false, false},
                        {S64, "s64", 64, true, false},   {BCD8, "bcd8", 8, false, true},   {BCD16, "bcd16", 16, false, true},
                        {BCD24, "bcd24", 24, false, true}, {BCD32, "bcd32", 32, false, true}};

    PRegisterConfig Config(RegisterFormat f, double scale, double offset, double roundTo)
    {
        return TRegisterConfig::Create(0, 0u, f, scale, offset, roundTo);
    }
    uint64_t Mask(unsigned bits)
    {
        return bits >= 64 ? UINT64_MAX : (uint64_t(1) << bits) - 1;
    }
    std::string Dec(__int128 v)
    {
        if (v < 0)
            return "-" + Dec(-v);
        std::string s;
        do {
            s.insert(s.begin(), char('0' + int(v % 10)));
            v /= 10;
        } while (v);
        return s;
    }
    std::string Fstr(const char* f, double v)
    {
        char b[100];
        snprintf(b, sizeof(b), f, v);
        return b;
    }
    // value of the raw bits, raw bits of the value
    __int128 ValueOf(const Fmt& f, uint64_t raw)
    {
        if (f.Bcd) {
            __int128 r = 0, p = 1;
            for (unsigned i = 0; i < f.Bits; i += 4, p *= 10)
                r += ((raw >> i) & 15) * p;
            return r;
        }
        raw &= Mask(f.Bits);
        if (f.Signed && f.Bits < 64 && (raw >> (f.Bits - 1)))
            return __int128(raw) - (__int128(1) << f.Bits);
        return f.Signed ? __int128(int64_t(raw)) : __int128(raw);
    }
    uint64_t RawOf(const Fmt& f, __int128 v)
    {
        if (!f.Bcd)
            return uint64_t(v) & Mask(f.Bits);
        uint64_t r = 0;
        for (unsigned i = 0; i < f.Bits; i += 4, v /= 10)
            r |= uint64_t(v % 10) << i;
        return r;
    }
    __int128 RandomValue(Gen& g, const Fmt& f)
    {
        if (f.Bcd) {
            uint64_t lim = 1;
            for (unsigned i = 0; i < f.Bits; i += 4)
                lim *= 10;
            return g.range(0, lim - 1);
        }
        return ValueOf(f, g.bits(f.Bits));
    }
    struct Scaling
    {
        double Scale = 1, Offset = 0, Round = 0;
        bool Plain() const
        {
            return Scale == 1 && Offset == 0;
        }
        std::string Text() const
        {
            std::ostringstream s;
            s << " scale " << Scale << " offset " << Offset << " round " << Round;
            return s.str();
        }
    };
    Scaling RandomScaling(Gen& g)
    {
        Scaling s;
        if (g.chance(1, 2))
            s.Scale = g.pick({1.0, 0.1, 0.01, 0.001, 2.0, 10.0, 100.0, 0.5, 0.075, -1.0, 1.0 / 65536, 3.0, -0.01});
        if (g.chance(1, 3))
            s.Offset = g.pick({0.0, 10.0, -12.5, 0.3, -273.15, 1e6, -1.0});
        if (g.chance(1, 3))
            s.Round = g.pick({0.0, 0.1, 1.0, 0.01, 5.0, 10.0, 0.25});
        return s;
    }
    uint64_t ToRaw(const TRegisterConfig& c, const std::string& text, const std::string& what)
    {
        try {
            return ConvertToRawValue(c, text).Get<uint64_t>();
        } catch (const std::exception& e) {
            PBT_FAIL(what << ": text " << quote(text) << " is refused: " << e.what());
        }
    }

    void Read(Gen& g)
    {
        auto& f = INTS[g.below(14)];
        auto s = RandomScaling(g);
        auto v = RandomValue(g, f);
        auto raw = RawOf(f, v);
        auto c = Config(f.F, s.Scale, s.Offset, s.Round);
        auto what = std::string(f.Name) + s.Text() + " raw " + std::to_string(raw);
        g.note(what);
        auto text = ConvertFromRawValue(*c, TRegisterValue(raw));
        if (s.Plain() && s.Round == 0) {
            PBT_EQ(text, Dec(v), what << ": text");
        } else {
            long double exact = (long double)(s.Scale) * (long double)(v) + (long double)(s.Offset);
            char* end;
            long double got = strtold(text.c_str(), &end);
            PBT_CHECK(*end == 0 && !text.empty(), what << ": " << quote(text) << " is not a number");
            long double tol = std::max(fabsl(exact), fabsl((long double)s.Offset)) * 1e-14L + 1e-300L;
            if (s.Round > 0) {
                PBT_CHECK(fabsl(got - exact) <= s.Round / 2 * (1 + 1e-9L) + tol, what << ": text " << text << " is too far from the value");
                long double k = got / s.Round;
                PBT_CHECK(fabsl(k - roundl(k)) <= 1e-9L + fabsl(k) * 1e-14L, what << ": text " << text << " is not rounded");
            } else {
                PBT_CHECK(fabsl(got - exact) <= tol, what << ": text " << text << ", expected about " << Fstr("%.17g", exact));
            }
            nontrivial();
        }
        if (f.Signed && v < 0)
            nontrivial();
        labelIf(v < 0, "read negative");
        labelIf(s.Round > 0, "read rounded");
        label(f.Bcd ? "read bcd" : "read integer");
        // bits above the format do not matter for signed and BCD formats
        if (f.Bits < 64 && (f.Signed || f.Bcd)) {
            auto dirty = raw | (g.bits(64) << f.Bits);
            PBT_EQ(ConvertFromRawValue(*c, TRegisterValue(dirty)), text, what << ": text with other bits above the value");
        }
        if (wantSample())
            sample(what + " -> " + text);
    }

    void Write(Gen& g)
    {
        auto& f = INTS[g.below(14)];
        auto s = RandomScaling(g);
        s.Round = 0;
        auto v = RandomValue(g, f);
        if (!s.Plain()) {
            const __int128 lim = __int128(1) << 36;
            v = v % lim;
        }
        auto raw = RawOf(f, v);
        auto c = Config(f.F, s.Scale, s.Offset, 0);
        std::string text;
        auto what = std::string(f.Name) + s.Text() + " value " + Dec(v);
        if (!s.Plain()) {
            // what would be published
            text = Fstr("%.15g", double((long double)(s.Scale) * (long double)(v) + (long double)(s.Offset)));
            label("write scaled");
            nontrivial();
        } else {
            switch (g.weighted({4, 2, 1, 1, 1, 1})) {
                case 0:
                    text = Dec(v);
                    break;
                case 1: {
                    // hexadecimal: the bits
                    if (f.Bcd || f.F == S64) {
                        if (v < 0)
                            v = -(v + 1);
                        raw = RawOf(f, v);
                    }
                    uint64_t bits = f.Bcd ? uint64_t(v) : raw;
                    char b[40];
                    snprintf(b, sizeof(b), g.flip() ? "0x%lx" : g.flip() ? "0X%lX" : "0x%04lX", (unsigned long)bits);
                    text = b;
                    label("write hexadecimal");
                    break;
                }
                case 2:
                    text = v < 0 ? "-00" + Dec(-v) : "00" + Dec(v);
                    break;
                case 3:
                    v = v % (1 << 30);
                    raw = RawOf(f, v);
                    text = Dec(v) + g.pick<const char*>({".0", ".", ".000", "e0", "E0"});
                    label("write decimal point or exponent");
                    break;
                case 4:
                    v = v % (1 << 30);
                    raw = RawOf(f, v);
                    text = Dec(v) + (v < 0 || Dec(v)[0] == '-' ? ".4" : ".4");
                    label("write fraction");
                    break;
                default:
                    v = v % (1 << 30);
                    raw = RawOf(f, v);
                    text = Dec(v) + "0e-1";
            }
        }
        what += " text " + text;
        g.note(what);
        auto got = ToRaw(*c, text, what);
        PBT_EQ(got, raw, what << ": raw value");
        if (f.Signed && v < 0)
            nontrivial();
        label("write");
        // there and back: what is published after the write is what was written
        if (!s.Plain() || f.Bits < 64) {
            auto back = ConvertFromRawValue(*c, TRegisterValue(got));
            if (s.Plain())
                PBT_EQ(back, Dec(v), what << ": published after the write");
        }
        if (wantSample())
            sample(what);
    }

    void Floats(Gen& g)
    {
        bool dbl = g.flip();
        auto s = RandomScaling(g);
        auto c = Config(dbl ? Double : RegisterFormat::Float, s.Scale, s.Offset, s.Round);
        double v;
        if (g.flip()) {
            v = double(int64_t(g.bits(40))) * g.pick({1.0, 0.1, 1e-3, 1e5}) * (g.flip() ? -1 : 1);
        } else {
            uint64_t b = g.bits(64);
            memcpy(&v, &b, 8);
            if (!std::isfinite(v) || fabs(v) > 1e30 || (v != 0 && fabs(v) < 1e-30))
                v = 1.5;
        }
        uint64_t raw = 0;
        if (dbl) {
            memcpy(&raw, &v, 8);
        } else {
            float fl = float(v);
            memcpy(&raw, &fl, 4);
            v = fl;
        }
        auto what = std::string(dbl ? "double" : "float") + s.Text() + " value " + Fstr("%.17g", v);
        g.note(what);
        auto text = ConvertFromRawValue(*c, TRegisterValue(raw));
        long double exact = (long double)(s.Scale) * v + (long double)(s.Offset);
        char* end;
        long double got = strtold(text.c_str(), &end);
        PBT_CHECK(*end == 0 && !text.empty(), what << ": " << quote(text) << " is not a number");
        long double rel = dbl ? 1e-14L : 6e-7L;
        long double tol = std::max(fabsl(exact), dbl ? fabsl((long double)s.Offset) : fabsl((long double)s.Offset)) * rel + 1e-300L;
        if (s.Round > 0)
            tol += s.Round / 2 * (1 + 1e-9L);
        PBT_CHECK(fabsl(got - exact) <= tol, what << ": text " << text);
        // back
        if (s.Round == 0) {
            auto r = ToRaw(*c, text, what);
            double b;
            if (dbl) {
                memcpy(&b, &r, 8);
            } else {
                PBT_CHECK((r >> 32) == 0, what << ": more than 32 bits");
                float fl;
                memcpy(&fl, &r, 4);
                b = fl;
            }
            long double btol = std::max(fabsl((long double)v), fabsl((long double)s.Offset / s.Scale)) * rel * 3 + 1e-300L;
            PBT_CHECK(fabsl((long double)b - v) <= btol, what << ": published " << text << ", written back " << Fstr("%.17g", b));
        } else {
            // rounding is applied to what is written
            double t = double(g.irange(-100000, 100000)) * g.pick({1.0, 0.01, 0.37});
            auto r = ToRaw(*c, Fstr("%.10f", t), what);
            double b;
            if (dbl) {
                memcpy(&b, &r, 8);
            } else {
                float fl;
                memcpy(&fl, &r, 4);
                b = fl;
            }
            long double back = (long double)b * s.Scale + s.Offset;
            long double lim = s.Round / 2 * (1 + 1e-9L) + (fabsl(t) + fabsl((long double)s.Offset) + 1) * rel * 4;
            PBT_CHECK(fabsl(back - t) <= lim, what << ": text " << Fstr("%.10f", t) << " written as " << Fstr("%.17g", b));
        }
        label(dbl ? "double" : "float");
        nontrivial();
        if (wantSample())
            sample(what + " -> " + text);
    }

    void Strings(Gen& g)
    {
        auto b = g.bytes(0, 20);
        std::string t(b.begin(), b.end());
        g.note("string " + quote(t));
        for (auto f: {String, String8}) {
            auto c = Config(f, 1, 0, 0);
            PBT_CHECK(ConvertToRawValue(*c, t).Get<std::string>() == t, "string " << quote(t) << " to be written");
            PBT_CHECK(ConvertFromRawValue(*c, TRegisterValue(t)) == t, "string " << quote(t) << " to be published");
        }
        auto c = Config(Char8, 1, 0, 0);
        PBT_EQ(ConvertToRawValue(*c, t).Get<uint64_t>(), uint64_t(t.empty() ? 0 : uint8_t(t[0])), "character of " << quote(t));
        auto ch = g.byte();
        PBT_CHECK(ConvertFromRawValue(*c, TRegisterValue(uint64_t(ch))) == std::string(1, char(ch)), "character " << int(ch));
        label("string or character");
    }

    void Refuse(Gen& g)
    {
        static const std::vector<RegisterFormat> all = {U8, S8, U16, S16, U24, S24, U32, S32, U64, S64, BCD8, BCD16, BCD24, BCD32, RegisterFormat::Float, Double};
        auto f = g.pick(all);
        auto s = RandomScaling(g);
        auto c = Config(f, s.Scale, s.Offset, s.Round);
        std::string text;
        auto num = std::to_string(int(g.range(0, 300)));
        switch (g.below(6)) {
            case 0:
                text = "";
                break;
            case 1:
                text = num + g.pick<const char*>({"a", " ", "x", "-", "..", "_", ",5", " 1", "%", "e", "\n"});
                break;
            case 2:
                text = g.pick<const char*>({"a", "x", "--", "+-", "#", "on", "off", "true"}) + num;
                break;
            case 3:
                text = g.pick<const char*>({"-", "+", ".", "e5", "abc", "0x", "0xg", "0x 1", "0x12z", "on", " "});
                break;
            case 4:
                text = "0x" + num + g.pick<const char*>({"g", " ", ".", "-", "x", "h"});
                break;
            default:
                text = num + std::string(1, char(0)) + num;
        }
        if (f == RegisterFormat::Float || f == Double) {
            // hexadecimal numbers are floating point numbers too
            if (text.rfind("0x", 0) == 0 && (text.size() > 2 && (text[2] != 'g' && text[2] != ' ')))
                text = "abc";
        }
        auto what = std::string(RegisterFormatName(f)) + s.Text() + " text " + quote(text);
        g.note(what);
        bool refused = false;
        uint64_t got = 0;
        try {
            got = ConvertToRawValue(*c, text).Get<uint64_t>();
        } catch (const std::exception&) {
            refused = true;
        }
        PBT_CHECK(refused, what << ": is written as " << got);
        label("refused text");
        nontrivial();
        if (wantSample())
            sample(what);
    }

    void Values(Gen& g)
    {
        // the value itself: a number is not a string and the other way round; comparison follows the content
        uint64_t a = g.bits(64), b = g.flip() ? a : g.bits(64);
        auto sa = std::to_string(g.range(0, 3)), sb = std::to_string(g.range(0, 3));
        TRegisterValue va(a), vb(b), vs(sa), vt(sb), u;
        PBT_EQ(va == vb, a == b, "equality of " << a << " and " << b);
        PBT_EQ(va != vb, a != b, "inequality of " << a << " and " << b);
        PBT_EQ(va == b, a == b, "equality of " << a << " and " << b);
        PBT_EQ(vs == vt, sa == sb, "equality of " << sa << " and " << sb);
        PBT_CHECK(!(va == vs) && !(va == u) && !(vs == u) && u == TRegisterValue(), "values of different types are equal");
        PBT_EQ(va.Get<uint64_t>(), a, "u64");
        PBT_EQ(va.Get<int64_t>(), int64_t(a), "s64");
        PBT_EQ(va.Get<uint32_t>(), uint32_t(a), "u32");
        PBT_EQ(va.Get<int32_t>(), int32_t(a), "s32");
        PBT_EQ(va.Get<uint16_t>(), uint16_t(a), "u16");
        PBT_EQ(va.Get<int16_t>(), int16_t(a), "s16");
        PBT_EQ(int(va.Get<uint8_t>()), int(uint8_t(a)), "u8");
        PBT_EQ(int(va.Get<int8_t>()), int(int8_t(a)), "s8");
        auto throws = [](auto fn) {
            try {
                fn();
                return false;
            } catch (const TRegisterValueException&) {
                return true;
            }
        };
        PBT_CHECK(throws([&] { va.Get<std::string>(); }) && throws([&] { vs.Get<uint64_t>(); }) && throws([&] { u.Get<uint64_t>(); }) &&
                      throws([&] { u.Get<std::string>(); }),
                  "a value is given as another type");
        auto hist = va;
        TRegisterValue* all[] = {&va, &vs, &u, &vb};
        for (int i = 0; i < 4; ++i) {
            auto& src = *all[g.below(4)];
            bool mv = g.chance(1, 3);
            TRegisterValue copy = src;
            if (mv) {
                TRegisterValue tmp = src;
                hist = std::move(tmp);
            } else {
                hist = src;
            }
            PBT_CHECK(hist == copy && src == copy, "assignment changes the value");
        }
        label("value object");
    }

    void Widths(Gen& g)
    {
        // occupied 16-bit words and data width
        static const std::pair<RegisterFormat, unsigned> bytes[] = {
            {U8, 1}, {S8, 1}, {U16, 2}, {S16, 2}, {U24, 3}, {S24, 3}, {U32, 4}, {S32, 4}, {U64, 8}, {S64, 8}, {BCD8, 1}, {BCD16, 2}, {BCD24, 3}, {BCD32, 4}, {RegisterFormat::Float, 4}, {Double, 8}, {Char8, 1}};
        auto& p = bytes[g.below(17)];
        unsigned off = g.range(0, 40), width = g.range(0, 64);
        auto what = std::string(RegisterFormatName(p.first)) + " bit offset " + std::to_string(off) + " bit width " + std::to_string(width);
        g.note(what);
        PRegisterConfig c;
        try {
            c = TRegisterConfig::Create(0, 5u, p.first, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false, "", EWordOrder::BigEndian, EByteOrder::BigEndian, off, width);
        } catch (const TSerialDeviceException&) {
        }
        PBT_EQ(bool(c), off < p.second * 8, what << ": can be created");
        if (c) {
            PBT_EQ(c->GetByteWidth(), p.second, what << ": bytes");
            PBT_EQ(c->GetDataWidth(), width ? width : p.second * 8, what << ": bits");
            PBT_EQ(unsigned(c->Get16BitWidth()), (std::max(p.second * 8, off + (width ? width : p.second * 8)) + 15) / 16, what << ": 16-bit words");
            PBT_EQ(c->IsPartial(), width != 0, what << ": is a part of a register");
        }
        label("widths");
    }
}

void property(Gen& g)
{
    switch (g.weighted({6, 8, 4, 1, 3, 1, 1})) {
        case 0:
            return Read(g);
        case 1:
            return Write(g);
        case 2:
            return Floats(g);
        case 3:
            return Strings(g);
        case 4:
            return Refuse(g);
        case 5:
            return Values(g);
        default:
            return Widths(g);
    }
}
