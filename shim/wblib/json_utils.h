#pragma once
#include "json/json.h"
#include "utils.h"
#include <chrono>
#include <memory>
#include <stdexcept>
#include <string>
namespace WBMQTT
{
    namespace JSON
    {
        Json::Value Parse(const std::string& fileName);
        Json::Value ParseWithSettings(const std::string& fileName, const Json::Value& settings);

        template<class T> bool Is(const Json::Value& value)
        {
            return value.is<T>();
        }
        template<class T> T As(const Json::Value& value)
        {
            return value.as<T>();
        }
        template<> inline bool Is<std::chrono::milliseconds>(const Json::Value& value)
        {
            return value.isInt64();
        }
        template<> inline std::chrono::milliseconds As<std::chrono::milliseconds>(const Json::Value& value)
        {
            return std::chrono::milliseconds(value.asInt64());
        }
        template<> inline bool Is<std::chrono::microseconds>(const Json::Value& value)
        {
            return value.isInt64();
        }
        template<> inline std::chrono::microseconds As<std::chrono::microseconds>(const Json::Value& value)
        {
            return std::chrono::microseconds(value.asInt64());
        }
        template<> inline bool Is<std::chrono::seconds>(const Json::Value& value)
        {
            return value.isInt64();
        }
        template<> inline std::chrono::seconds As<std::chrono::seconds>(const Json::Value& value)
        {
            return std::chrono::seconds(value.asInt64());
        }

        //! false if there is no such member, throws if the type differs
        template<class T> bool Get(const Json::Value& item, const std::string& key, T& value)
        {
            if (!item.isMember(key)) {
                return false;
            }
            const auto& v = item[key];
            if (!Is<T>(v)) {
                throw std::runtime_error(key + " is not a value of the expected type: " + v.toStyledString());
            }
            value = As<T>(v);
            return true;
        }

        class TValidator
        {
        public:
            explicit TValidator(const Json::Value& schema);
            ~TValidator();
            void Validate(const Json::Value& value);

        private:
            struct TImpl;
            std::unique_ptr<TImpl> Impl;
        };
        void Validate(const Json::Value& value, const Json::Value& schema);
        std::unique_ptr<Json::StreamWriter> MakeWriter(const std::string& indentation = "",
                                                       const std::string& commentStyle = "All");
    }
}
