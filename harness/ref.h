// Reference implementations written from the published specifications, independent of /repo/src
#pragma once
#include <cstdint>
#include <string>
#include <vector>
namespace ref
{
    // CRC-16/MODBUS, bit by bit
    inline uint16_t crc16(const uint8_t* p, size_t n)
    {
        uint16_t c = 0xffff;
        for (size_t i = 0; i < n; ++i) {
            c ^= p[i];
            for (int b = 0; b < 8; ++b)
                c = (c & 1) ? uint16_t((c >> 1) ^ 0xa001) : uint16_t(c >> 1);
        }
        return c;
    }
    inline uint16_t crc16(const std::vector<uint8_t>& v)
    {
        return crc16(v.data(), v.size());
    }
    // low byte goes first on the wire
    inline void appendCrc(std::vector<uint8_t>& v)
    {
        auto c = crc16(v);
        v.push_back(uint8_t(c));
        v.push_back(uint8_t(c >> 8));
    }
    inline bool crcOk(const std::vector<uint8_t>& v)
    {
        if (v.size() < 2)
            return false;
        auto c = crc16(v.data(), v.size() - 2);
        return v[v.size() - 2] == uint8_t(c) && v[v.size() - 1] == uint8_t(c >> 8);
    }
    inline void be16(std::vector<uint8_t>& v, unsigned x)
    {
        v.push_back(uint8_t(x >> 8));
        v.push_back(uint8_t(x));
    }
}
