#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <sstream>
#include <string>
#include <unordered_map>
#include <vector>
namespace WBMQTT
{
    bool StringStartsWith(const std::string& str, const std::string& prefix);
    bool StringHasSuffix(const std::string& str, const std::string& suffix);
    std::vector<std::string> StringSplit(const std::string& s, char delim);
    std::vector<std::string> StringSplit(const std::string& s, const std::string& delim);
    std::string StringReplace(std::string subject, const std::string& search, const std::string& replace);
    std::string StringFormat(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
    template<class... TArgs> std::string StringFormat(const std::string& fmt, TArgs... args)
    {
        int n = snprintf(nullptr, 0, fmt.c_str(), args...);
        std::string r(n > 0 ? n : 0, '\0');
        if (n > 0) {
            snprintf(&r[0], n + 1, fmt.c_str(), args...);
        }
        return r;
    }
    std::string HexDump(const uint8_t* buf, size_t count);
    std::string HexDump(const std::vector<uint8_t>& buf);
    void SetThreadName(const std::string& name);
}
