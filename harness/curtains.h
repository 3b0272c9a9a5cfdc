// Simulators of curtain motors: WinDeco, Dooya, Somfy SDN and A-OK
#pragma once
#include "meters.h"

class Curtain: public Meter
{
public:
    using Meter::Meter;
    virtual std::optional<uint64_t> WriteValue(const Chan& c) = 0;
    // expected result of writing; takes its exchanges from the log
    virtual bool Write(const Chan& c, uint64_t v, Cursor& cur) = 0;
    void PushButton(uint64_t address)
    {
        auto& c = New("command", AddrText(G, address), nullptr);
        c.J["type"] = "pushbutton";
        c.Id = uint32_t(address);
        c.Key = "";
        c.Writable = true;
    }
};

// ---------------------------------------------------------------- WinDeco: 81 00 00 zone id cmd crc -> 01 00 00 zone id data crc
class WinDecoSim: public Curtain
{
public:
    uint8_t Id, Pos = 0, St = 0;
    WinDecoSim(pbt::Gen& g, SimPort& p): Curtain(g, p, "windeco")
    {
        Id = uint8_t(g.uniform(1, 255));
        Config["slave_id"] = std::to_string(Id);
        SkipsNoise = true;
        Mutate();
    }
    static void Seal(Bytes& b)
    {
        unsigned s = 0;
        for (size_t i = 0; i < b.size(); ++i)
            s += b[i] * unsigned(i + 1);
        b.push_back(uint8_t(s));
    }
    void AddChannel() override
    {
        switch (G.below(3)) {
            case 0: {
                auto& c = New("position", "0", &FU8);
                c.Key = "cmd 06";
                c.Writable = true;
                break;
            }
            case 1: {
                auto& c = New("param", AddrText(G, 7), &FU8);
                c.Key = "cmd 07";
                break;
            }
            default:
                PushButton(G.pick({2, 3, 4, 8, 9}));
        }
    }
    void Mutate() override
    {
        Pos = G.chance(1, 6) ? G.pick<uint8_t>({0xAA, 0xBB, 101, 0xFF, 0x7f}) : G.pick<uint8_t>({0, 100, uint8_t(G.below(101))});
        St = uint8_t(G.chance(1, 3) ? G.byte() : G.below(8));
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() == 7, "bad request " << pbt::hex(q));
        Bytes w{0x81, 0, 0, 1, Id, q[5]};
        Seal(w);
        PBT_CHECK(q == w, "bad request " << pbt::hex(q) << " to " << int(Id));
        uint8_t d = q[5];
        if (d == 6)
            d = Pos;
        else if (d == 7)
            d = St;
        else if (d & 0x80) {
            if (Pos <= 100)
                Pos = d & 0x7f;
            d = Pos;
        }
        Bytes r{1, 0, 0, 1, Id, d};
        Seal(r);
        a = r;
        return "cmd " + Hex(q[5], 2);
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto b = e.Got;
        if (b.size() != 7 || b[0] != 1 || b[3] != 1 || b[4] != Id)
            return {};
        auto w = b;
        w.pop_back();
        Seal(w);
        if (w != b)
            return {};
        if (b[1] || b[2])
            throw Abandon();
        return Bytes{b[5]};
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        if (c.Type == "position" && p[0] > 100)
            return {};
        return Val::UInt(p[0]);
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        a.pop_back();
        switch (G.below(4)) {
            case 0:
                a[0] = G.pick<uint8_t>({0x81, 0, 2});
                break;
            case 1:
                a[3] ^= uint8_t(1 << G.below(8));
                break;
            case 2:
                a[4] ^= uint8_t(1 << G.below(8));
                break;
            default:
                a[5] = G.byte();
        }
        Seal(a);
        return a;
    }
    std::optional<uint64_t> WriteValue(const Chan& c) override
    {
        return c.Type == "position" ? G.pick<uint64_t>({0, 100, G.below(101)}) : 1;
    }
    bool Write(const Chan& c, uint64_t v, Cursor& cur) override
    {
        uint8_t cmd = c.Type == "command" ? uint8_t(c.Id) : v == 0 ? 4 : v == 100 ? 2 : uint8_t(0x80 | v);
        auto p = Accept(cur.Next("cmd " + Hex(cmd, 2), c.Str()));
        if (!p)
            return false;
        if (cmd & 0x80)
            return (*p)[0] <= 100;
        return (*p)[0] == cmd;
    }
};

// ---------------------------------------------------------------- Dooya: 55 addr2 fn data crc
class DooyaSim: public Curtain
{
public:
    uint16_t Id;
    std::map<uint8_t, uint8_t> Mem;
    bool Refuse = false;
    DooyaSim(pbt::Gen& g, SimPort& p): Curtain(g, p, "dooya")
    {
        Id = uint16_t(g.bits(16));
        Config["slave_id"] = g.flip() ? std::to_string(Id) : "0x" + Hex(Id, 4);
        SkipsNoise = true;
        Mem[2] = Mem[6] = Mem[0xF0] = Mem[5] = 0;
    }
    static Bytes Seal(Bytes b)
    {
        ref::appendCrc(b);
        return b;
    }
    Bytes Frame(const Bytes& body) const
    {
        Bytes b{0x55, uint8_t(Id), uint8_t(Id >> 8)};
        b.insert(b.end(), body.begin(), body.end());
        return Seal(b);
    }
    void AddChannel() override
    {
        unsigned k = unsigned(G.below(6));
        if (k == 5) {
            PushButton(G.flip() ? G.pick({1, 2, 3, 5, 7, 8}) : G.pick({0x0501, 0x0900, 0x09FF, 0x0402}));
            return;
        }
        static const char* T[] = {"position", "param", "angle", "type", "status"};
        uint8_t addr = uint8_t(k == 0 ? 2 : k == 1 ? 3 + G.below(3) * 7 : k == 2 ? 6 : k == 3 ? 0xF0 : 5);
        Mem[addr];
        auto& c = New(T[k], k == 0 || k == 2 ? "0" : AddrText(G, addr), &FU8);
        c.Id = addr;
        c.Key = "r " + Hex(addr, 2);
        c.Writable = k < 3;
        if (k > 2) {
            c.J["format"] = "string";
            c.J["string_data_size"] = 1;
        }
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            m.second = G.byte();
        if (!G.chance(1, 5))
            Mem[2] = G.pick<uint8_t>({0, 100, uint8_t(G.below(101))});
        Mem[0xF0] = G.pick<uint8_t>({0x11, 0x12, 0x13, 0, 0xAB});
        Mem[5] = uint8_t(G.below(6));
        Refuse = G.chance(1, 5);
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() >= 7 && q[0] == 0x55 && LE(q, 1, 2) == Id && ref::crcOk(q), "bad request " << pbt::hex(q) << " to " << Id);
        switch (q[3]) {
            case 1:
                PBT_CHECK(q.size() == 8 && q[5] == 1 && Mem.count(q[4]), "bad request " << pbt::hex(q));
                a = Frame({1, 1, Mem[q[4]]});
                return "r " + Hex(q[4], 2);
            case 2:
                PBT_CHECK(q.size() == 9 && q[5] == 1, "bad request " << pbt::hex(q));
                if (Refuse)
                    a = Frame({2, q[4], 0xFF});
                else {
                    a = Frame({2, q[4], 1});
                    Mem[q[4]] = q[6];
                }
                return "w " + Hex(q[4], 2) + " " + Hex(q[6], 2);
            case 3: {
                PBT_CHECK(q.size() <= 9, "bad request " << pbt::hex(q));
                if (Refuse)
                    a = Frame({3, q[4], 0xFF});
                else {
                    a = q;
                    if (q[4] == 4 && q.size() == 8)
                        Mem[2] = q[5];
                    if (q[4] == 4 && q.size() == 9)
                        Mem[6] = q[6];
                }
                std::string k = "c " + Hex(q[4], 2);
                for (size_t i = 5; i + 2 < q.size(); ++i)
                    k += " " + Hex(q[i], 2);
                return k;
            }
        }
        PBT_FAIL("bad request " << pbt::hex(q));
    }
    // frame without checksum
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() < 7 || !ref::crcOk(b) || b[0] != 0x55 || LE(b, 1, 2) != Id || b[3] != e.Q[3])
            return {};
        if (b[4] != (b[3] == 1 ? 1 : e.Q[4]))
            return {};
        if (b[3] == 3 ? b.size() > 9 : b.size() > 8)
            throw Abandon();
        if (b[3] != 3 && b.size() < 8)
            return {};
        return Bytes(b.begin(), b.end() - 2);
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        uint8_t v = p[5];
        if (c.Type == "position" && v > 100)
            return {};
        if (c.Type == "type")
            return Val::T(v == 0x11 ? "roller" : v == 0x12 ? "venetian" : "0x" + Hex(v, 2));
        if (c.Type == "status") {
            static const char* S[] = {"stopped", "opening", "closing", "setting"};
            return Val::T(v < 4 ? S[v] : "0x" + Hex(v, 2));
        }
        return Val::UInt(v);
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        a.resize(a.size() - 2);
        switch (G.below(6)) {
            case 0:
                a[0] ^= uint8_t(1 << G.below(8));
                break;
            case 1:
                a[1 + G.below(2)] ^= uint8_t(1 << G.below(8));
                break;
            case 2:
                a[3] ^= uint8_t(1 << G.below(3));
                break;
            case 3:
                a[4] ^= uint8_t(1 << G.below(8));
                break;
            case 4:
                a.resize(G.uniform(1, a.size()));
                break;
            default:
                a.back() = 0xFF;
        }
        return Seal(a);
    }
    std::optional<uint64_t> WriteValue(const Chan& c) override
    {
        return c.Type == "position" ? G.pick<uint64_t>({0, 100, G.below(101)}) : c.Type == "command" ? 1 : G.byte();
    }
    bool Write(const Chan& c, uint64_t v, Cursor& cur) override
    {
        if (c.Type == "param") {
            auto& e = cur.Next("w " + Hex(c.Id, 2) + " " + Hex(v, 2), c.Str());
            auto p = Accept(e);
            return p && (*p)[5] == 1;
        }
        if (c.Type == "angle") {
            auto& e = cur.Next("c 04 FF " + Hex(v, 2), c.Str());
            auto p = Accept(e);
            if (!p || p->size() < 6)
                return false;
            if (p->size() == 6)
                return (*p)[5] != 0xFF ? throw Abandon() : false;
            if (e.Got != e.Q)
                throw Abandon();
            return true;
        }
        if (c.Type == "position" && v != 0 && v != 100) {
            auto& e = cur.Next("c 04 " + Hex(v, 2), c.Str());
            auto p = Accept(e);
            if (!p || p->size() < 6 || (*p)[5] > 100)
                return false;
            if (e.Got != e.Q)
                throw Abandon();
            return true;
        }
        unsigned cmd = c.Type == "command" ? c.Id : v ? 1 : 2;
        auto& e = cur.Next(cmd > 0xFF ? "c " + Hex(cmd >> 8, 2) + " " + Hex(cmd & 0xFF, 2) : "c " + Hex(cmd, 2), c.Str());
        return e.Got == e.Q;
    }
};

// ---------------------------------------------------------------- Somfy SDN: [msg][len][node][src3][dst3][data][crc2], inverted
class SomfySim: public Curtain
{
public:
    uint32_t Id;
    unsigned Node = 2, Mode = 1;
    struct Item
    {
        uint8_t Response;
        Bytes Data;
        size_t Width; // bytes known to the protocol
        uint8_t WriteHeader;
    };
    std::map<uint8_t, Item> Mem;
    std::map<uint8_t, Bytes> Last; // data that the service has read
    bool Refuse = false;
    SomfySim(pbt::Gen& g, SimPort& p): Curtain(g, p, "somfy")
    {
        Id = uint32_t(g.bits(24));
        Config["slave_id"] = "0x" + Hex(Id, 6);
        if (g.flip()) {
            Node = g.pick({2u, 5u, 6u, 7u, 8u, 9u, 9u});
            Config["node_type"] = Node;
        }
        if (g.flip()) {
            Mode = unsigned(g.below(2));
            Config["application_mode"] = Mode;
        }
        SkipsNoise = true;
        UseCache = true;
        Mem[0x0C] = {0x0D, Bytes(5), 5, 0};
        Mem[0x0E] = {0x0F, Bytes(4), 4, 0};
        Mem[0x21] = {0x31, Bytes(4), 4, 0};
        Mem[0x22] = {0x32, Bytes(1 + g.below(3)), 1, 0x12};
        Mem[0x23] = {0x33, Bytes(3 + g.below(3)), 3, 0x13};
        size_t n = g.uniform(1, 6);
        Mem[0x2A] = {0x3A, Bytes(n), n, 0x1A};
    }
    static Bytes Seal(Bytes b)
    {
        for (auto& x: b)
            x = uint8_t(~x);
        unsigned s = 0;
        for (auto x: b)
            s += x;
        b.push_back(uint8_t(s >> 8));
        b.push_back(uint8_t(s));
        return b;
    }
    Bytes Frame(uint8_t msg, const Bytes& data)
    {
        Bytes b{msg, uint8_t(11 + data.size()), uint8_t(Node << 4), uint8_t(Id), uint8_t(Id >> 8), uint8_t(Id >> 16), 0xFF, 0xFF, 0};
        b.insert(b.end(), data.begin(), data.end());
        return Seal(b);
    }
    void AddChannel() override
    {
        switch (G.below(6)) {
            case 0: {
                auto& c = New("position", "0", &FU8);
                c.Key = "0C";
                c.Writable = true;
                return;
            }
            case 1: {
                auto& c = New("angle", "0", &FU16);
                c.Key = "0C";
                c.Writable = true;
                return;
            }
            case 2: {
                PushButton(G.pick({0x02, 0x04, 0x11}));
                return;
            }
        }
        auto it = Mem.begin();
        std::advance(it, G.below(Mem.size()));
        auto& m = *it;
        size_t w = G.uniform(1, std::min<size_t>(m.second.Width, 3)), off = G.below(m.second.Width - w + 1);
        std::string a = AddrText(G, m.first);
        bool whole = m.first == 0x22 && m.second.Data.size() == 1 && G.flip();
        if (!whole)
            a += ":" + std::to_string(off * 8) + ":" + std::to_string(w * 8);
        auto& c = New("param", a, &FU64);
        c.Id = m.first;
        c.Offset = unsigned(off << 8 | w);
        c.Key = Hex(m.first, 2);
        if (G.flip())
            c.J["response_header"] = "0x" + Hex(m.second.Response, 2);
        else
            c.J["response_header"] = m.second.Response;
        if (m.second.WriteHeader && G.chance(3, 4)) {
            c.J["write_address"] = "0x" + Hex(m.second.WriteHeader, 2);
            c.Writable = true;
            if (w == 1 && off == 0 && G.chance(1, 3))
                c.J["format"] = "u8";
        }
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            for (auto& b: m.second.Data)
                b = G.byte();
        if (!G.chance(1, 5))
            Mem[0x0C].Data[2] = G.pick<uint8_t>({0, 100, uint8_t(G.below(101))});
        Refuse = G.chance(1, 6);
    }
    std::string Request(const Bytes& wire, std::optional<Bytes>& a) override
    {
        PBT_CHECK(wire.size() >= 11, "bad request " << pbt::hex(wire));
        Bytes q(wire.begin(), wire.end() - 2);
        for (auto& x: q)
            x = uint8_t(~x);
        PBT_CHECK(Seal(q) == wire, "bad checksum of request " << pbt::hex(wire));
        PBT_CHECK(q[1] == (0x80 | wire.size()) && q[2] == Node && LE(q, 3, 3) == 0xFFFF && LE(q, 6, 3) == Id, "bad request " << pbt::hex(q) << " to " << Id);
        Bytes d(q.begin() + 9, q.end());
        std::string key = Hex(q[0], 2);
        auto it = Mem.find(q[0]);
        if (it != Mem.end()) {
            PBT_CHECK(d.empty(), "bad request " << pbt::hex(q));
            a = Frame(it->second.Response, it->second.Data);
        } else {
            for (auto& m: Mem)
                if (m.second.WriteHeader && m.second.WriteHeader == q[0] && !Refuse)
                    std::copy_n(d.begin(), std::min(d.size(), m.second.Data.size()), m.second.Data.begin());
            a = Refuse ? Frame(0x6F, {uint8_t(G.below(16))}) : Frame(0x7F, {});
            for (auto b: d)
                key += " " + Hex(b, 2);
        }
        return key;
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        return Accept(e, Mem.count(uint8_t(~e.Q[0])) ? Mem[uint8_t(~e.Q[0])].Response : 0x7F);
    }
    std::optional<Bytes> Accept(const Exchange& e, uint8_t header)
    {
        auto& w = e.Got;
        if (w.size() < 11)
            return {};
        Bytes b(w.begin(), w.end() - 2);
        for (auto& x: b)
            x = uint8_t(~x);
        if (Seal(b) != w || (b[1] & 0x1f) != int(w.size()) || b[0] != header || LE(b, 3, 3) != Id || LE(b, 6, 3) != 0xFFFF)
            return {};
        return Bytes(b.begin() + 9, b.end());
    }
    std::optional<Val> Walk(const Chan& c, Cursor& cur, bool& permanent) override
    {
        bool cached = Cache.count(c.Key);
        auto v = Meter::Walk(c, cur, permanent);
        if (!cached && Cache.count(c.Key))
            Last[uint8_t(strtoul(c.Key.c_str(), nullptr, 16))] = Cache[c.Key];
        return v;
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        size_t off = c.Offset >> 8, w = c.Offset & 0xff;
        if (c.Type == "position")
            off = 2, w = 1;
        if (c.Type == "angle")
            off = 3, w = 1;
        if (off + w > p.size()) // too short data
            throw Abandon();
        if (c.Type == "param" && c.J["address"].asString().find(':') == std::string::npos)
            w = std::min<size_t>(c.J.isMember("format") ? 1 : 8, p.size()); // all the data
        auto v = LE(p, off, w);
        if (c.Type == "position" && v > 100)
            return {};
        return Val::UInt(v);
    }
    Bytes Tamper(const Bytes&, Bytes w) override
    {
        Bytes a(w.begin(), w.end() - 2);
        for (auto& x: a)
            x = uint8_t(~x);
        switch (G.below(8)) {
            case 0:
                a[0] = G.pick<uint8_t>({0x6F, 0x7F, 0x0D, 0x0F, 0x33, G.byte()});
                break;
            case 1:
                a[1] ^= uint8_t(1 << G.below(5));
                break;
            case 2:
                a[1] |= uint8_t(G.bits(3) << 5);
                break;
            case 3:
                a[3 + G.below(3)] ^= uint8_t(1 << G.below(8));
                break;
            case 4:
                a[6 + G.below(3)] ^= uint8_t(1 << G.below(8));
                break;
            case 5:
                a.resize(G.uniform(1, 9));
                if (a.size() > 1)
                    a[1] = uint8_t(a.size() + 2);
                break;
            case 6: // refusal
                a[0] = 0x6F;
                a.resize(9);
                if (G.flip())
                    a.push_back(G.byte());
                a[1] = uint8_t(a.size() + 2);
                break;
            default: { // another length of data
                auto x = G.bytes(0, 20);
                a.resize(9);
                a.insert(a.end(), x.begin(), x.end());
                a[1] = uint8_t(a.size() + 2);
            }
        }
        return Seal(a);
    }
    std::optional<uint64_t> WriteValue(const Chan& c) override
    {
        if (c.Type == "position")
            return G.pick<uint64_t>({0, 100, G.below(101)});
        if (c.Type == "angle")
            return G.chance(1, 3) ? G.bits(16) : G.below(101);
        if (c.Type == "command") {
            unsigned n = unsigned(G.below(6));
            return n | G.bits(8 * n) << 8;
        }
        return G.bits(8 * (c.Offset & 0xff));
    }
    bool Write(const Chan& c, uint64_t v, Cursor& cur) override
    {
        Bytes d;
        uint8_t msg = 3, readHeader = 0;
        if (c.Type == "position") {
            if (v == 0)
                d = {1, 0, 0, 0};
            else if (v == 100)
                d = {0, 0, 0, 0};
            else if (Node == 9 && Mode == 1)
                d = {7, uint8_t(v), 0, 0, 0, 0};
            else
                d = {4, uint8_t(v), 0, 0};
        } else if (c.Type == "angle")
            d = {0x0F, 0, 0, 0, uint8_t(v), uint8_t(v >> 8)};
        else if (c.Type == "command") {
            msg = uint8_t(c.Id);
            for (unsigned i = 0; i < (v & 0xff); ++i)
                d.push_back(uint8_t(v >> (8 * (i + 1))));
        } else {
            readHeader = uint8_t(c.Id);
            auto it = Last.find(readHeader);
            if (it == Last.end())
                return false; // its other settings aren't known
            d = it->second;
            auto& m = Mem[readHeader];
            msg = m.WriteHeader;
            if (msg != 0x1A)
                d.resize(m.Width);
            size_t off = c.Offset >> 8, w = c.Offset & 0xff;
            if (off + w > d.size())
                throw Abandon();
            for (size_t i = 0; i < w; ++i)
                d[off + i] = uint8_t(v >> (8 * i));
        }
        std::string key = Hex(msg, 2);
        for (auto b: d)
            key += " " + Hex(b, 2);
        auto& e = cur.Next(key, c.Str());
        auto p = Accept(e, 0x7F);
        if (p && readHeader)
            Last[readHeader] = d;
        return !!p;
    }
};

// ---------------------------------------------------------------- A-OK: 9a id ch2 cmd data xor -> d8 id ch2 data5 xor
class AokSim: public Curtain
{
public:
    uint32_t Id;
    std::map<uint16_t, Bytes> Mem;
    bool AnswersAll;
    AokSim(pbt::Gen& g, SimPort& p): Curtain(g, p, g.chance(1, 4) ? "dauerhaft" : "a_ok")
    {
        Id = uint32_t(g.bits(24));
        Config["slave_id"] = "0x" + Hex(Id, 6);
        SkipsNoise = true;
        UseCache = true;
        Mem[0xcc00] = Mem[0xcaca] = Mem[0xcbcb] = Bytes(5);
        AnswersAll = g.chance(1, 3);
    }
    static Bytes Seal(Bytes b)
    {
        uint8_t x = 0;
        for (size_t i = 1; i < b.size(); ++i)
            x ^= b[i];
        b.push_back(x);
        return b;
    }
    void AddChannel() override
    {
        switch (G.below(5)) {
            case 0: {
                auto& c = New("position", "0", &FU8);
                c.Key = "CC 00";
                c.Offset = 24 << 8 | 8;
                c.Writable = true;
                return;
            }
            case 1:
                PushButton(G.pick({0xcc, 0xdd, 0xee, 0xaa, 0xa6}));
                return;
            case 2: {
                uint8_t bit = uint8_t(G.below(8));
                auto& c = New("zonebit", AddrText(G, bit), &FU8);
                c.Key = "CA CA";
                c.Offset = (32u + bit) << 8 | 1;
                c.Id = bit;
                c.Writable = true;
                return;
            }
            case 3: {
                uint32_t a = G.pick({0xd9, 0xda, 0xd6});
                auto& c = New("param", AddrText(G, a), &FU8);
                c.Id = a;
                c.Key = "";
                c.J["type"] = "pushbutton"; // as written only; settings aren't channels
                c.Writable = true;
                return;
            }
        }
        uint16_t a = G.pick<uint16_t>({0xcc00, 0xcaca, 0xcbcb});
        unsigned w = G.pick({8u, 1u, 4u, 16u}), off = unsigned(G.below(40 / w)) * w;
        if (off + w > 40)
            off = 0;
        auto& c = New("status", AddrText(G, a) + ":" + std::to_string(off) + ":" + std::to_string(w), &FU64);
        c.Key = Hex(a >> 8, 2) + " " + Hex(a & 0xff, 2);
        c.Offset = off << 8 | w;
    }
    void Mutate() override
    {
        for (auto& m: Mem)
            for (auto& b: m.second)
                b = G.byte();
        Mem[0xcc00][3] = G.pick<uint8_t>({0, 100, uint8_t(G.below(101))});
    }
    std::string Request(const Bytes& q, std::optional<Bytes>& a) override
    {
        PBT_CHECK(q.size() == 7, "bad request " << pbt::hex(q));
        PBT_CHECK(q[0] == 0x9a && BE(q, 1, 3) == Id && Seal(Bytes(q.begin(), q.end() - 1)) == q, "bad request " << pbt::hex(q) << " to " << Id);
        auto it = Mem.find(uint16_t(q[4] << 8 | q[5]));
        Bytes d;
        if (it != Mem.end())
            d = it->second;
        else {
            if (q[4] == 0xd5)
                Mem[0xcaca][4] = q[5];
            if (q[4] == 0xdd)
                Mem[0xcc00][3] = q[5];
            if (AnswersAll)
                d = Mem[0xcc00];
        }
        if (!d.empty()) {
            Bytes r{0xd8, q[1], q[2], q[3]};
            r.insert(r.end(), d.begin(), d.end());
            a = Seal(r);
        }
        return Hex(q[4], 2) + " " + Hex(q[5], 2);
    }
    std::optional<Bytes> Accept(const Exchange& e) override
    {
        auto& b = e.Got;
        if (b.size() != 10 || b[0] != 0xd8 || BE(b, 1, 3) != Id || Seal(Bytes(b.begin(), b.end() - 1)) != b)
            return {};
        return Bytes(b.begin() + 4, b.end() - 1);
    }
    std::optional<Val> Value(const Chan& c, const Bytes& p) override
    {
        return Val::UInt(LE(p, 0, 5) >> (c.Offset >> 8) & ((1u << (c.Offset & 0xff)) - 1));
    }
    Bytes Tamper(const Bytes&, Bytes a) override
    {
        a.pop_back();
        switch (G.below(3)) {
            case 0:
                a[0] = G.pick<uint8_t>({0x9a, 0, 0xd9});
                break;
            case 1:
                a[1 + G.below(3)] ^= uint8_t(1 << G.below(8));
                break;
            default:
                a.resize(G.uniform(1, a.size()));
        }
        return Seal(a);
    }
    std::optional<uint64_t> WriteValue(const Chan& c) override
    {
        return c.Type == "position" ? G.below(101) : c.Type == "zonebit" ? G.below(2) : c.Type == "param" ? G.byte() : 1;
    }
    bool Write(const Chan& c, uint64_t v, Cursor& cur) override
    {
        uint8_t cmd = 0x0a, data = uint8_t(c.Id);
        if (c.Type == "position")
            cmd = 0xdd, data = uint8_t(v);
        if (c.Type == "param")
            cmd = uint8_t(c.Id), data = uint8_t(v);
        if (c.Type == "zonebit") {
            auto p = Accept(cur.Next("CA CA", c.Str()));
            if (!p)
                return false;
            cmd = 0xd5;
            data = uint8_t(((*p)[4] & ~(1 << c.Id)) | v << c.Id);
        }
        cur.Next(Hex(cmd, 2) + " " + Hex(data, 2), c.Str());
        return true;
    }
};
