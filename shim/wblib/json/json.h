// Stand-in for jsoncpp (as re-exported by libwbmqtt1), written for this verification framework:
// the sandbox has neither. Follows jsoncpp 1.9 semantics for the part of the API a C++ project uses.
#pragma once
#include <cstdint>
#include <cstring>
#include <exception>
#include <initializer_list>
#include <iosfwd>
#include <istream>
#include <map>
#include <memory>
#include <ostream>
#include <string>
#include <variant>
#include <vector>

namespace Json
{
    using Int = int;
    using UInt = unsigned int;
    using Int64 = int64_t;
    using UInt64 = uint64_t;
    using LargestInt = Int64;
    using LargestUInt = UInt64;
    using ArrayIndex = unsigned int;
    using String = std::string;
    using IStream = std::istream;
    using OStream = std::ostream;
    using IStringStream = std::istringstream;
    using OStringStream = std::ostringstream;

    class Exception: public std::exception
    {
    public:
        explicit Exception(std::string msg): Msg(std::move(msg))
        {}
        const char* what() const noexcept override
        {
            return Msg.c_str();
        }

    protected:
        std::string Msg;
    };

    class RuntimeError: public Exception
    {
    public:
        using Exception::Exception;
    };

    class LogicError: public Exception
    {
    public:
        using Exception::Exception;
    };

    [[noreturn]] void throwRuntimeError(const std::string& msg);
    [[noreturn]] void throwLogicError(const std::string& msg);

    enum ValueType
    {
        nullValue = 0,
        intValue,
        uintValue,
        realValue,
        stringValue,
        booleanValue,
        arrayValue,
        objectValue
    };

    enum PrecisionType
    {
        significantDigits = 0,
        decimalPlaces
    };

    class StaticString
    {
    public:
        explicit StaticString(const char* s): Str(s)
        {}
        operator const char*() const
        {
            return Str;
        }
        const char* c_str() const
        {
            return Str;
        }

    private:
        const char* Str;
    };

    class ValueIterator;
    class ValueConstIterator;

    class Value
    {
    public:
        using Members = std::vector<std::string>;
        using iterator = ValueIterator;
        using const_iterator = ValueConstIterator;
        using Int = Json::Int;
        using UInt = Json::UInt;
        using Int64 = Json::Int64;
        using UInt64 = Json::UInt64;
        using LargestInt = Json::LargestInt;
        using LargestUInt = Json::LargestUInt;
        using ArrayIndex = Json::ArrayIndex;
        using value_type = Value;

        static const Value& null;
        static const Value& nullRef;
        static Value const& nullSingleton();
        static constexpr LargestInt minLargestInt = INT64_MIN;
        static constexpr LargestInt maxLargestInt = INT64_MAX;
        static constexpr LargestUInt maxLargestUInt = UINT64_MAX;
        static constexpr Int minInt = INT32_MIN;
        static constexpr Int maxInt = INT32_MAX;
        static constexpr UInt maxUInt = UINT32_MAX;
        static constexpr Int64 minInt64 = INT64_MIN;
        static constexpr Int64 maxInt64 = INT64_MAX;
        static constexpr UInt64 maxUInt64 = UINT64_MAX;

        Value(ValueType type = nullValue);
        Value(Int value);
        Value(UInt value);
        Value(Int64 value);
        Value(UInt64 value);
        Value(long long value);
        Value(unsigned long long value);
        Value(double value);
        Value(const char* value);
        Value(const char* begin, const char* end);
        Value(const StaticString& value);
        Value(const std::string& value);
        Value(bool value);
        Value(std::nullptr_t ptr) = delete;
        Value(const Value& other);
        Value(Value&& other) noexcept;
        ~Value();

        Value& operator=(const Value& other);
        Value& operator=(Value&& other) noexcept;
        void swap(Value& other);
        void swapPayload(Value& other);
        void copy(const Value& other);
        void copyPayload(const Value& other);

        ValueType type() const;

        bool operator<(const Value& other) const;
        bool operator<=(const Value& other) const;
        bool operator>=(const Value& other) const;
        bool operator>(const Value& other) const;
        bool operator==(const Value& other) const;
        bool operator!=(const Value& other) const;
        int compare(const Value& other) const;

        const char* asCString() const;
        std::string asString() const;
        bool getString(char const** begin, char const** end) const;
        Int asInt() const;
        UInt asUInt() const;
        Int64 asInt64() const;
        UInt64 asUInt64() const;
        LargestInt asLargestInt() const;
        LargestUInt asLargestUInt() const;
        float asFloat() const;
        double asDouble() const;
        bool asBool() const;

        bool isNull() const;
        bool isBool() const;
        bool isInt() const;
        bool isInt64() const;
        bool isUInt() const;
        bool isUInt64() const;
        bool isIntegral() const;
        bool isDouble() const;
        bool isNumeric() const;
        bool isString() const;
        bool isArray() const;
        bool isObject() const;

        template<typename T> T as() const = delete;
        template<typename T> bool is() const = delete;

        bool isConvertibleTo(ValueType other) const;

        ArrayIndex size() const;
        bool empty() const;
        explicit operator bool() const;
        void clear();
        void resize(ArrayIndex newSize);

        Value& operator[](ArrayIndex index);
        Value& operator[](int index);
        const Value& operator[](ArrayIndex index) const;
        const Value& operator[](int index) const;
        Value get(ArrayIndex index, const Value& defaultValue) const;
        bool isValidIndex(ArrayIndex index) const;
        Value& append(const Value& value);
        Value& append(Value&& value);
        bool insert(ArrayIndex index, const Value& newValue);
        bool insert(ArrayIndex index, Value&& newValue);

        Value& operator[](const char* key);
        const Value& operator[](const char* key) const;
        Value& operator[](const std::string& key);
        const Value& operator[](const std::string& key) const;
        Value& operator[](const StaticString& key);
        Value get(const char* key, const Value& defaultValue) const;
        Value get(const char* begin, const char* end, const Value& defaultValue) const;
        Value get(const std::string& key, const Value& defaultValue) const;
        Value const* find(char const* begin, char const* end) const;
        Value const* find(const std::string& key) const;
        Value* demand(char const* begin, char const* end);
        void removeMember(const char* key);
        void removeMember(const std::string& key);
        bool removeMember(const char* key, Value* removed);
        bool removeMember(const std::string& key, Value* removed);
        bool removeMember(const char* begin, const char* end, Value* removed);
        bool removeIndex(ArrayIndex index, Value* removed);
        bool isMember(const char* key) const;
        bool isMember(const std::string& key) const;
        bool isMember(const char* begin, const char* end) const;
        Members getMemberNames() const;

        std::string toStyledString() const;

        const_iterator begin() const;
        const_iterator end() const;
        iterator begin();
        iterator end();
        const Value& front() const;
        Value& front();
        const Value& back() const;
        Value& back();

    private:
        friend class ValueIteratorBase;
        using TArray = std::vector<Value>;
        using TObject = std::map<std::string, Value>;
        ValueType Type;
        Int64 IntV = 0;
        UInt64 UIntV = 0;
        double RealV = 0;
        bool BoolV = false;
        std::string Str;
        std::unique_ptr<TArray> Arr;
        std::unique_ptr<TObject> Obj;
        bool NumberInRange(double lo, double hi) const;
    };

    template<> inline bool Value::as<bool>() const
    {
        return asBool();
    }
    template<> inline bool Value::is<bool>() const
    {
        return isBool();
    }
    template<> inline Int Value::as<Int>() const
    {
        return asInt();
    }
    template<> inline bool Value::is<Int>() const
    {
        return isInt();
    }
    template<> inline UInt Value::as<UInt>() const
    {
        return asUInt();
    }
    template<> inline bool Value::is<UInt>() const
    {
        return isUInt();
    }
    template<> inline Int64 Value::as<Int64>() const
    {
        return asInt64();
    }
    template<> inline bool Value::is<Int64>() const
    {
        return isInt64();
    }
    template<> inline UInt64 Value::as<UInt64>() const
    {
        return asUInt64();
    }
    template<> inline bool Value::is<UInt64>() const
    {
        return isUInt64();
    }
    template<> inline double Value::as<double>() const
    {
        return asDouble();
    }
    template<> inline bool Value::is<double>() const
    {
        return isDouble();
    }
    template<> inline float Value::as<float>() const
    {
        return asFloat();
    }
    template<> inline std::string Value::as<std::string>() const
    {
        return asString();
    }
    template<> inline bool Value::is<std::string>() const
    {
        return isString();
    }

    class ValueIteratorBase
    {
    public:
        using iterator_category = std::bidirectional_iterator_tag;
        using size_t = unsigned int;
        using difference_type = int;

        bool operator==(const ValueIteratorBase& other) const
        {
            return isEqual(other);
        }
        bool operator!=(const ValueIteratorBase& other) const
        {
            return !isEqual(other);
        }
        difference_type operator-(const ValueIteratorBase& other) const;
        Value key() const;
        UInt index() const;
        std::string name() const;
        const char* memberName() const;

    protected:
        friend class Value;
        Value* Owner = nullptr; // null: iterator over a value that is neither array nor object
        size_t Idx = 0;
        std::map<std::string, Value>::iterator It{};
        bool IsArray = false;
        ValueIteratorBase() = default;
        bool isEqual(const ValueIteratorBase& other) const;
        Value& deref() const;
        void increment();
        void decrement();
        static ValueIteratorBase MakeBegin(Value* v);
        static ValueIteratorBase MakeEnd(Value* v);
    };

    class ValueConstIterator: public ValueIteratorBase
    {
    public:
        using value_type = const Value;
        using reference = const Value&;
        using pointer = const Value*;
        ValueConstIterator() = default;
        ValueConstIterator(ValueIterator const& other);
        ValueConstIterator operator++(int)
        {
            auto t(*this);
            increment();
            return t;
        }
        ValueConstIterator operator--(int)
        {
            auto t(*this);
            decrement();
            return t;
        }
        ValueConstIterator& operator++()
        {
            increment();
            return *this;
        }
        ValueConstIterator& operator--()
        {
            decrement();
            return *this;
        }
        reference operator*() const
        {
            return deref();
        }
        pointer operator->() const
        {
            return &deref();
        }

    private:
        friend class Value;
        explicit ValueConstIterator(const ValueIteratorBase& b): ValueIteratorBase(b)
        {}
    };

    class ValueIterator: public ValueIteratorBase
    {
    public:
        using value_type = Value;
        using reference = Value&;
        using pointer = Value*;
        ValueIterator() = default;
        ValueIterator operator++(int)
        {
            auto t(*this);
            increment();
            return t;
        }
        ValueIterator operator--(int)
        {
            auto t(*this);
            decrement();
            return t;
        }
        ValueIterator& operator++()
        {
            increment();
            return *this;
        }
        ValueIterator& operator--()
        {
            decrement();
            return *this;
        }
        reference operator*() const
        {
            return deref();
        }
        pointer operator->() const
        {
            return &deref();
        }

    private:
        friend class Value;
        explicit ValueIterator(const ValueIteratorBase& b): ValueIteratorBase(b)
        {}
    };

    inline ValueConstIterator::ValueConstIterator(ValueIterator const& other): ValueIteratorBase(other)
    {}

    inline void swap(Value& a, Value& b)
    {
        a.swap(b);
    }

    std::string valueToString(Int value);
    std::string valueToString(UInt value);
    std::string valueToString(LargestInt value);
    std::string valueToString(LargestUInt value);
    std::string valueToString(double value,
                              unsigned int precision = 17,
                              PrecisionType precisionType = PrecisionType::significantDigits);
    std::string valueToString(bool value);
    std::string valueToQuotedString(const char* value);
    std::string valueToQuotedString(const std::string& value);

    class CharReader
    {
    public:
        virtual ~CharReader() = default;
        virtual bool parse(char const* beginDoc, char const* endDoc, Value* root, std::string* errs) = 0;
        class Factory
        {
        public:
            virtual ~Factory() = default;
            virtual CharReader* newCharReader() const = 0;
        };
    };

    class CharReaderBuilder: public CharReader::Factory
    {
    public:
        Value settings_;
        CharReaderBuilder();
        CharReader* newCharReader() const override;
        Value& operator[](const std::string& key)
        {
            return settings_[key];
        }
        static void setDefaults(Value* settings);
        static void strictMode(Value* settings);
    };

    bool parseFromStream(CharReader::Factory const&, std::istream&, Value* root, std::string* errs);
    std::istream& operator>>(std::istream&, Value&);

    class Reader
    {
    public:
        bool parse(const std::string& document, Value& root, bool collectComments = true);
        bool parse(std::istream& is, Value& root, bool collectComments = true);
        std::string getFormattedErrorMessages() const
        {
            return Errs;
        }

    private:
        std::string Errs;
    };

    class StreamWriter
    {
    public:
        virtual ~StreamWriter() = default;
        virtual int write(Value const& root, std::ostream* sout) = 0;
        class Factory
        {
        public:
            virtual ~Factory() = default;
            virtual StreamWriter* newStreamWriter() const = 0;
        };
    };

    class StreamWriterBuilder: public StreamWriter::Factory
    {
    public:
        Value settings_;
        StreamWriterBuilder();
        StreamWriter* newStreamWriter() const override;
        Value& operator[](const std::string& key)
        {
            return settings_[key];
        }
        static void setDefaults(Value* settings);
    };

    std::string writeString(StreamWriter::Factory const& factory, Value const& root);
    std::ostream& operator<<(std::ostream&, const Value& root);

    class FastWriter
    {
    public:
        std::string write(const Value& root);
    };

    class StyledWriter
    {
    public:
        std::string write(const Value& root);
    };
}
