// Generated Modbus register layouts and their value according to the documentation (README: format, word_order,
// byte_order, address with bit offset and width, string_data_size)
#pragma once
#include "devices/modbus_device.h"
#include "modbus_common.h"
#include "modbus_sim.h"
#include "register.h"
#include "serial_device.h"
#include <algorithm>

struct SimProtocol: IProtocol
{
    SimProtocol(const std::string& name = "modbus")
        : IProtocol(name,
                    {{Modbus::REG_HOLDING, "holding", "value", U16},
                     {Modbus::REG_HOLDING_SINGLE, "holding_single", "value", U16},
                     {Modbus::REG_HOLDING_MULTI, "holding_multi", "value", U16},
                     {Modbus::REG_COIL, "coil", "switch", U8},
                     {Modbus::REG_DISCRETE, "discrete", "switch", U8, true},
                     {Modbus::REG_INPUT, "input", "value", U16, true}})
    {}
    bool IsSameSlaveId(const std::string& a, const std::string& b) const override
    {
        return TUInt32SlaveId(a) == TUInt32SlaveId(b);
    }
    bool IsModbus() const override
    {
        return true;
    }
};

// One register of the layout as the documentation describes it
struct RegSpec
{
    int Type = Modbus::REG_HOLDING;
    unsigned Addr = 0;
    RegisterFormat Format = U16;
    unsigned Offset = 0, Width = 0; // bits; Width is the number of registers for strings
    bool WordLittle = false, ByteLittle = false;
    int WriteAddr = -1; // -1: the same
    bool WriteOnly = false;

    unsigned WAddr() const
    {
        return WriteAddr < 0 ? Addr : unsigned(WriteAddr);
    }

    bool IsString() const
    {
        return Format == RegisterFormat::String || Format == RegisterFormat::String8;
    }
    bool IsBit() const
    {
        return Type == Modbus::REG_COIL || Type == Modbus::REG_DISCRETE;
    }
    static unsigned FormatBits(RegisterFormat f)
    {
        switch (f) {
            case U8:
            case S8:
            case BCD8:
            case Char8:
                return 8;
            case U16:
            case S16:
            case BCD16:
                return 16;
            case U24:
            case S24:
            case BCD24:
                return 24;
            case U64:
            case S64:
            case RegisterFormat::Double:
                return 64;
            default:
                return 32;
        }
    }
    unsigned Bits() const
    {
        return Width ? Width : FormatBits(Format);
    }
    // registers it occupies
    unsigned Words() const
    {
        if (IsString())
            return Width;
        return (std::max(FormatBits(Format), Offset + Bits()) + 15) / 16;
    }
    ModbusSlave::Table Table() const
    {
        switch (Type) {
            case Modbus::REG_COIL:
                return ModbusSlave::COIL;
            case Modbus::REG_DISCRETE:
                return ModbusSlave::DISCRETE;
            case Modbus::REG_INPUT:
                return ModbusSlave::INPUT;
            default:
                return ModbusSlave::HOLDING;
        }
    }
    uint64_t Mask() const
    {
        return Bits() >= 64 ? ~0ull : (1ull << Bits()) - 1;
    }
    // words, most significant first (or in reading order for strings)
    std::vector<uint16_t> Load(const ModbusSlave& s, unsigned shift = 0) const
    {
        std::vector<uint16_t> w;
        for (unsigned i = 0; i < Words(); ++i) {
            auto v = s.Get(Table(), Addr + shift + i);
            w.push_back(ByteLittle ? uint16_t(v << 8 | v >> 8) : v);
        }
        if (WordLittle)
            std::reverse(w.begin(), w.end());
        return w;
    }
    void Store(ModbusSlave& s, std::vector<uint16_t> w, unsigned at) const
    {
        if (WordLittle)
            std::reverse(w.begin(), w.end());
        for (unsigned i = 0; i < w.size(); ++i)
            s.Set(Table(), at + i, ByteLittle ? uint16_t(w[i] << 8 | w[i] >> 8) : w[i]);
    }
    uint64_t Number(const ModbusSlave& s, unsigned shift = 0) const
    {
        if (IsBit())
            return s.Get(Table(), Addr + shift);
        uint64_t n = 0;
        for (auto w: Load(s, shift))
            n = n << 16 | w;
        return (n >> Offset) & Mask();
    }
    std::string Text(const ModbusSlave& s, unsigned shift = 0) const
    {
        std::string r;
        for (auto w: Load(s, shift)) {
            if (Format == RegisterFormat::String8) {
                char hi = char(w >> 8);
                if (hi == 0 || hi == '\xff')
                    return r;
                r += hi;
            }
            char lo = char(w);
            if (lo == 0 || lo == '\xff')
                return r;
            r += lo;
        }
        return r;
    }
    // memory after writing n into the register's bits
    void Put(ModbusSlave& s, uint64_t n, unsigned at) const
    {
        auto w = Load(s, at - Addr);
        uint64_t all = 0;
        for (auto x: w)
            all = all << 16 | x;
        all &= ~(Mask() << Offset);
        all |= (n & Mask()) << Offset;
        for (size_t i = w.size(); i-- > 0; all >>= 16)
            w[i] = uint16_t(all);
        Store(s, w, at);
    }
    TRegisterValue Expected(const ModbusSlave& s, unsigned shift = 0) const
    {
        if (IsString())
            return TRegisterValue(Text(s, shift));
        return TRegisterValue(Number(s, shift));
    }
    std::string Str() const
    {
        static const char* T[] = {"holding", "input", "coil", "discrete", "holding_single", "holding_multi"};
        std::string r = std::string(T[Type]) + " " + std::to_string(Addr) + " " + RegisterFormatName(Format);
        if (Offset || Width)
            r += ":" + std::to_string(Offset) + ":" + std::to_string(Width);
        if (WriteAddr >= 0)
            r += " written at " + std::to_string(WriteAddr);
        return r + (WriteOnly ? " write-only" : "") + (WordLittle ? " word-le" : "") + (ByteLittle ? " byte-le" : "");
    }
    TRegisterDesc Desc() const
    {
        TRegisterDesc d;
        d.Address = std::make_shared<TUint32RegisterAddress>(Addr);
        d.WriteAddress = std::make_shared<TUint32RegisterAddress>(WAddr());
        if (WriteOnly)
            d.Address = nullptr;
        d.DataOffset = Offset;
        d.DataWidth = IsString() ? Width * 8 : Width;
        return d;
    }
    PRegisterConfig Config() const
    {
        static const char* T[] = {"holding", "input", "coil", "discrete", "holding_single", "holding_multi"};
        return TRegisterConfig::Create(Type, Desc(), Format, 1, 0, 0, TRegisterConfig::TSporadicMode::DISABLED, false,
                                       T[Type], WordLittle ? EWordOrder::LittleEndian : EWordOrder::BigEndian,
                                       ByteLittle ? EByteOrder::LittleEndian : EByteOrder::BigEndian);
    }
};

inline RegisterFormat GenNumberFormat(pbt::Gen& g)
{
    static const std::vector<RegisterFormat> f = {U16, S16, U8, S8, U32, S32, U24, S24, U64, S64, BCD8, BCD16, BCD24, BCD32,
                                                  RegisterFormat::Float, RegisterFormat::Double, Char8};
    return g.pick(f);
}
// offset and width of a bit field that fits into 64 bits
inline void GenBits(pbt::Gen& g, RegSpec& r)
{
    unsigned full = RegSpec::FormatBits(r.Format);
    switch (g.weighted({6, 3, 1})) {
        case 0:
            return;
        case 1:
            // the usual field: inside of the format's size
            r.Width = unsigned(g.uniform(1, full));
            r.Offset = unsigned(g.uniform(0, full - r.Width));
            return;
        default:
            r.Width = unsigned(g.uniform(1, full));
            r.Offset = unsigned(g.uniform(0, std::min(64 - r.Width, full - 1)));
    }
}
