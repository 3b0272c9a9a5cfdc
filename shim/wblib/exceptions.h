#pragma once
#include <stdexcept>
#include <string>
namespace WBMQTT
{
    class TBaseException: public std::runtime_error
    {
    public:
        TBaseException(const char* file, int line, const std::string& message): std::runtime_error(message)
        {
            (void)file;
            (void)line;
        }
    };
}
// args is a parenthesized list: wb_throw(TSomeException, ("message"))
#define WB_SHIM_UNPAREN(...) __VA_ARGS__
#define wb_throw(type, args) throw type(__FILE__, __LINE__, WB_SHIM_UNPAREN args)
