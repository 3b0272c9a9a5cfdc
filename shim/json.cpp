#include "wblib/json/json.h"

#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <iterator>
#include <limits>
#include <sstream>

namespace Json
{
    void throwRuntimeError(const std::string& msg)
    {
        throw RuntimeError(msg);
    }
    void throwLogicError(const std::string& msg)
    {
        throw LogicError(msg);
    }

#define JSON_REQUIRE(cond, msg)                                                                                        \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            throwLogicError(msg);                                                                                      \
        }                                                                                                              \
    } while (0)

    Value const& Value::nullSingleton()
    {
        static const Value v;
        return v;
    }
    const Value& Value::null = Value::nullSingleton();
    const Value& Value::nullRef = Value::nullSingleton();

    Value::Value(ValueType type): Type(type)
    {
        if (type == arrayValue) {
            Arr = std::make_unique<TArray>();
        } else if (type == objectValue) {
            Obj = std::make_unique<TObject>();
        }
    }
    Value::Value(Int v): Type(intValue), IntV(v)
    {}
    Value::Value(UInt v): Type(uintValue), UIntV(v)
    {}
    Value::Value(Int64 v): Type(intValue), IntV(v)
    {}
    Value::Value(UInt64 v): Type(uintValue), UIntV(v)
    {}
    Value::Value(long long v): Type(intValue), IntV(v)
    {}
    Value::Value(unsigned long long v): Type(uintValue), UIntV(v)
    {}
    Value::Value(double v): Type(realValue), RealV(v)
    {}
    Value::Value(const char* v): Type(stringValue)
    {
        JSON_REQUIRE(v != nullptr, "Null Value Passed to Value Constructor");
        Str = v;
    }
    Value::Value(const char* b, const char* e): Type(stringValue), Str(b, e)
    {}
    Value::Value(const StaticString& v): Type(stringValue), Str(v.c_str())
    {}
    Value::Value(const std::string& v): Type(stringValue), Str(v)
    {}
    Value::Value(bool v): Type(booleanValue), BoolV(v)
    {}
    Value::Value(const Value& o)
        : Type(o.Type),
          IntV(o.IntV),
          UIntV(o.UIntV),
          RealV(o.RealV),
          BoolV(o.BoolV),
          Str(o.Str),
          Arr(o.Arr ? std::make_unique<TArray>(*o.Arr) : nullptr),
          Obj(o.Obj ? std::make_unique<TObject>(*o.Obj) : nullptr)
    {}
    Value::Value(Value&& o) noexcept: Type(nullValue)
    {
        swap(o);
    }
    Value::~Value() = default;
    Value& Value::operator=(const Value& o)
    {
        Value(o).swap(*this);
        return *this;
    }
    Value& Value::operator=(Value&& o) noexcept
    {
        o.swap(*this);
        return *this;
    }
    void Value::swap(Value& o)
    {
        std::swap(Type, o.Type);
        std::swap(IntV, o.IntV);
        std::swap(UIntV, o.UIntV);
        std::swap(RealV, o.RealV);
        std::swap(BoolV, o.BoolV);
        Str.swap(o.Str);
        Arr.swap(o.Arr);
        Obj.swap(o.Obj);
    }
    void Value::swapPayload(Value& o)
    {
        swap(o);
    }
    void Value::copy(const Value& o)
    {
        *this = o;
    }
    void Value::copyPayload(const Value& o)
    {
        *this = o;
    }
    ValueType Value::type() const
    {
        return Type;
    }

    int Value::compare(const Value& o) const
    {
        return *this < o ? -1 : (*this > o ? 1 : 0);
    }
    bool Value::operator<(const Value& o) const
    {
        if (Type != o.Type) {
            return Type < o.Type;
        }
        switch (Type) {
            case nullValue:
                return false;
            case intValue:
                return IntV < o.IntV;
            case uintValue:
                return UIntV < o.UIntV;
            case realValue:
                return RealV < o.RealV;
            case booleanValue:
                return BoolV < o.BoolV;
            case stringValue:
                return Str < o.Str;
            case arrayValue:
                if (Arr->size() != o.Arr->size()) {
                    return Arr->size() < o.Arr->size();
                }
                return *Arr < *o.Arr;
            case objectValue:
                if (Obj->size() != o.Obj->size()) {
                    return Obj->size() < o.Obj->size();
                }
                return *Obj < *o.Obj;
        }
        return false;
    }
    bool Value::operator<=(const Value& o) const
    {
        return !(o < *this);
    }
    bool Value::operator>=(const Value& o) const
    {
        return !(*this < o);
    }
    bool Value::operator>(const Value& o) const
    {
        return o < *this;
    }
    bool Value::operator==(const Value& o) const
    {
        if (Type != o.Type) {
            return false;
        }
        switch (Type) {
            case nullValue:
                return true;
            case intValue:
                return IntV == o.IntV;
            case uintValue:
                return UIntV == o.UIntV;
            case realValue:
                return RealV == o.RealV;
            case booleanValue:
                return BoolV == o.BoolV;
            case stringValue:
                return Str == o.Str;
            case arrayValue:
                return *Arr == *o.Arr;
            case objectValue:
                return *Obj == *o.Obj;
        }
        return false;
    }
    bool Value::operator!=(const Value& o) const
    {
        return !(*this == o);
    }

    const char* Value::asCString() const
    {
        JSON_REQUIRE(Type == stringValue, "in Json::Value::asCString(): requires stringValue");
        return Str.c_str();
    }
    bool Value::getString(char const** b, char const** e) const
    {
        if (Type != stringValue) {
            return false;
        }
        *b = Str.data();
        *e = Str.data() + Str.size();
        return true;
    }
    std::string Value::asString() const
    {
        switch (Type) {
            case nullValue:
                return "";
            case stringValue:
                return Str;
            case booleanValue:
                return BoolV ? "true" : "false";
            case intValue:
                return valueToString((LargestInt)IntV);
            case uintValue:
                return valueToString((LargestUInt)UIntV);
            case realValue:
                return valueToString(RealV);
            default:
                throwLogicError("Type is not convertible to string");
        }
    }

    static bool IsIntegralD(double d)
    {
        double i;
        return std::modf(d, &i) == 0.0;
    }
    bool Value::NumberInRange(double lo, double hi) const
    {
        return RealV >= lo && RealV <= hi;
    }

    Int Value::asInt() const
    {
        switch (Type) {
            case intValue:
                JSON_REQUIRE(isInt(), "LargestInt out of Int range");
                return Int(IntV);
            case uintValue:
                JSON_REQUIRE(isInt(), "LargestUInt out of Int range");
                return Int(UIntV);
            case realValue:
                JSON_REQUIRE(NumberInRange(minInt, maxInt), "double out of Int range");
                return Int(RealV);
            case nullValue:
                return 0;
            case booleanValue:
                return BoolV ? 1 : 0;
            default:
                throwLogicError("Value is not convertible to Int.");
        }
    }
    UInt Value::asUInt() const
    {
        switch (Type) {
            case intValue:
                JSON_REQUIRE(isUInt(), "LargestInt out of UInt range");
                return UInt(IntV);
            case uintValue:
                JSON_REQUIRE(isUInt(), "LargestUInt out of UInt range");
                return UInt(UIntV);
            case realValue:
                JSON_REQUIRE(NumberInRange(0, maxUInt), "double out of UInt range");
                return UInt(RealV);
            case nullValue:
                return 0;
            case booleanValue:
                return BoolV ? 1 : 0;
            default:
                throwLogicError("Value is not convertible to UInt.");
        }
    }
    Int64 Value::asInt64() const
    {
        switch (Type) {
            case intValue:
                return IntV;
            case uintValue:
                JSON_REQUIRE(isInt64(), "LargestUInt out of Int64 range");
                return Int64(UIntV);
            case realValue:
                JSON_REQUIRE(RealV >= (double)minInt64 && RealV < 9223372036854775808.0, "double out of Int64 range");
                return Int64(RealV);
            case nullValue:
                return 0;
            case booleanValue:
                return BoolV ? 1 : 0;
            default:
                throwLogicError("Value is not convertible to Int64.");
        }
    }
    UInt64 Value::asUInt64() const
    {
        switch (Type) {
            case intValue:
                JSON_REQUIRE(isUInt64(), "LargestInt out of UInt64 range");
                return UInt64(IntV);
            case uintValue:
                return UIntV;
            case realValue:
                JSON_REQUIRE(RealV >= 0 && RealV < 18446744073709551616.0, "double out of UInt64 range");
                return UInt64(RealV);
            case nullValue:
                return 0;
            case booleanValue:
                return BoolV ? 1 : 0;
            default:
                throwLogicError("Value is not convertible to UInt64.");
        }
    }
    LargestInt Value::asLargestInt() const
    {
        return asInt64();
    }
    LargestUInt Value::asLargestUInt() const
    {
        return asUInt64();
    }
    double Value::asDouble() const
    {
        switch (Type) {
            case intValue:
                return static_cast<double>(IntV);
            case uintValue:
                return static_cast<double>(UIntV);
            case realValue:
                return RealV;
            case nullValue:
                return 0.0;
            case booleanValue:
                return BoolV ? 1.0 : 0.0;
            default:
                throwLogicError("Value is not convertible to double.");
        }
    }
    float Value::asFloat() const
    {
        return static_cast<float>(asDouble());
    }
    bool Value::asBool() const
    {
        switch (Type) {
            case booleanValue:
                return BoolV;
            case nullValue:
                return false;
            case intValue:
                return IntV != 0;
            case uintValue:
                return UIntV != 0;
            case realValue: {
                const auto c = std::fpclassify(RealV);
                return (c != FP_ZERO) && (c != FP_NAN);
            }
            default:
                throwLogicError("Value is not convertible to bool.");
        }
    }
    bool Value::isConvertibleTo(ValueType other) const
    {
        switch (other) {
            case nullValue:
                return (isNumeric() && asDouble() == 0.0) || (Type == booleanValue && !BoolV) ||
                       (Type == stringValue && asString().empty()) || (Type == arrayValue && Arr->empty()) ||
                       (Type == objectValue && Obj->empty()) || Type == nullValue;
            case intValue:
                return isInt() || (Type == realValue && NumberInRange(minInt, maxInt)) || Type == booleanValue ||
                       Type == nullValue;
            case uintValue:
                return isUInt() || (Type == realValue && NumberInRange(0, maxUInt)) || Type == booleanValue ||
                       Type == nullValue;
            case realValue:
                return isNumeric() || Type == booleanValue || Type == nullValue;
            case booleanValue:
                return isNumeric() || Type == booleanValue || Type == nullValue;
            case stringValue:
                return isNumeric() || Type == booleanValue || Type == stringValue || Type == nullValue;
            case arrayValue:
                return Type == arrayValue || Type == nullValue;
            case objectValue:
                return Type == objectValue || Type == nullValue;
        }
        return false;
    }

    bool Value::isNull() const
    {
        return Type == nullValue;
    }
    bool Value::isBool() const
    {
        return Type == booleanValue;
    }
    bool Value::isInt() const
    {
        switch (Type) {
            case intValue:
                return IntV >= minInt && IntV <= maxInt;
            case uintValue:
                return UIntV <= UInt64(maxInt);
            case realValue:
                return RealV >= minInt && RealV <= maxInt && IsIntegralD(RealV);
            default:
                return false;
        }
    }
    bool Value::isUInt() const
    {
        switch (Type) {
            case intValue:
                return IntV >= 0 && UInt64(IntV) <= UInt64(maxUInt);
            case uintValue:
                return UIntV <= maxUInt;
            case realValue:
                return RealV >= 0 && RealV <= maxUInt && IsIntegralD(RealV);
            default:
                return false;
        }
    }
    bool Value::isInt64() const
    {
        switch (Type) {
            case intValue:
                return true;
            case uintValue:
                return UIntV <= UInt64(maxInt64);
            case realValue:
                return RealV >= double(minInt64) && RealV < 9223372036854775808.0 && IsIntegralD(RealV);
            default:
                return false;
        }
    }
    bool Value::isUInt64() const
    {
        switch (Type) {
            case intValue:
                return IntV >= 0;
            case uintValue:
                return true;
            case realValue:
                return RealV >= 0 && RealV < 18446744073709551616.0 && IsIntegralD(RealV);
            default:
                return false;
        }
    }
    bool Value::isIntegral() const
    {
        switch (Type) {
            case intValue:
            case uintValue:
                return true;
            case realValue:
                return RealV >= double(minInt64) && RealV < 18446744073709551616.0 && IsIntegralD(RealV);
            default:
                return false;
        }
    }
    bool Value::isDouble() const
    {
        return Type == intValue || Type == uintValue || Type == realValue;
    }
    bool Value::isNumeric() const
    {
        return isDouble();
    }
    bool Value::isString() const
    {
        return Type == stringValue;
    }
    bool Value::isArray() const
    {
        return Type == arrayValue;
    }
    bool Value::isObject() const
    {
        return Type == objectValue;
    }

    ArrayIndex Value::size() const
    {
        if (Type == arrayValue) {
            return ArrayIndex(Arr->size());
        }
        if (Type == objectValue) {
            return ArrayIndex(Obj->size());
        }
        return 0;
    }
    bool Value::empty() const
    {
        if (isNull() || isArray() || isObject()) {
            return size() == 0;
        }
        return false;
    }
    Value::operator bool() const
    {
        return !isNull();
    }
    void Value::clear()
    {
        JSON_REQUIRE(Type == nullValue || Type == arrayValue || Type == objectValue,
                     "in Json::Value::clear(): requires complex value");
        if (Arr) {
            Arr->clear();
        }
        if (Obj) {
            Obj->clear();
        }
    }
    void Value::resize(ArrayIndex n)
    {
        JSON_REQUIRE(Type == nullValue || Type == arrayValue, "in Json::Value::resize(): requires arrayValue");
        if (Type == nullValue) {
            *this = Value(arrayValue);
        }
        Arr->resize(n);
    }
    Value& Value::operator[](ArrayIndex i)
    {
        JSON_REQUIRE(Type == nullValue || Type == arrayValue,
                     "in Json::Value::operator[](ArrayIndex): requires arrayValue");
        if (Type == nullValue) {
            *this = Value(arrayValue);
        }
        if (i >= Arr->size()) {
            Arr->resize(i + 1);
        }
        return (*Arr)[i];
    }
    Value& Value::operator[](int i)
    {
        JSON_REQUIRE(i >= 0, "in Json::Value::operator[](int index): index cannot be negative");
        return (*this)[ArrayIndex(i)];
    }
    const Value& Value::operator[](ArrayIndex i) const
    {
        JSON_REQUIRE(Type == nullValue || Type == arrayValue,
                     "in Json::Value::operator[](ArrayIndex)const: requires arrayValue");
        if (Type == nullValue || i >= Arr->size()) {
            return nullSingleton();
        }
        return (*Arr)[i];
    }
    const Value& Value::operator[](int i) const
    {
        JSON_REQUIRE(i >= 0, "in Json::Value::operator[](int index) const: index cannot be negative");
        return (*this)[ArrayIndex(i)];
    }
    Value Value::get(ArrayIndex i, const Value& def) const
    {
        const Value* v = &((*this)[i]);
        return v == &nullSingleton() ? def : *v;
    }
    bool Value::isValidIndex(ArrayIndex i) const
    {
        return i < size();
    }
    Value& Value::append(const Value& v)
    {
        return append(Value(v));
    }
    Value& Value::append(Value&& v)
    {
        JSON_REQUIRE(Type == nullValue || Type == arrayValue, "in Json::Value::append: requires arrayValue");
        if (Type == nullValue) {
            *this = Value(arrayValue);
        }
        Arr->push_back(std::move(v));
        return Arr->back();
    }
    bool Value::insert(ArrayIndex i, const Value& v)
    {
        return insert(i, Value(v));
    }
    bool Value::insert(ArrayIndex i, Value&& v)
    {
        JSON_REQUIRE(Type == nullValue || Type == arrayValue, "in Json::Value::insert: requires arrayValue");
        if (i > size()) {
            return false;
        }
        if (Type == nullValue) {
            *this = Value(arrayValue);
        }
        Arr->insert(Arr->begin() + i, std::move(v));
        return true;
    }

    Value const* Value::find(char const* b, char const* e) const
    {
        return find(std::string(b, e));
    }
    Value const* Value::find(const std::string& key) const
    {
        JSON_REQUIRE(Type == nullValue || Type == objectValue,
                     "in Json::Value::find(begin, end): requires objectValue or nullValue");
        if (Type == nullValue) {
            return nullptr;
        }
        auto it = Obj->find(key);
        return it == Obj->end() ? nullptr : &it->second;
    }
    Value* Value::demand(char const* b, char const* e)
    {
        return &(*this)[std::string(b, e)];
    }
    Value& Value::operator[](const std::string& key)
    {
        JSON_REQUIRE(Type == nullValue || Type == objectValue, "in Json::Value::resolveReference(): requires objectValue");
        if (Type == nullValue) {
            *this = Value(objectValue);
        }
        return (*Obj)[key];
    }
    const Value& Value::operator[](const std::string& key) const
    {
        auto f = find(key);
        return f ? *f : nullSingleton();
    }
    Value& Value::operator[](const char* key)
    {
        return (*this)[std::string(key)];
    }
    const Value& Value::operator[](const char* key) const
    {
        return (*this)[std::string(key)];
    }
    Value& Value::operator[](const StaticString& key)
    {
        return (*this)[std::string(key.c_str())];
    }
    Value Value::get(const std::string& key, const Value& def) const
    {
        auto f = find(key);
        return f ? *f : def;
    }
    Value Value::get(const char* key, const Value& def) const
    {
        return get(std::string(key), def);
    }
    Value Value::get(const char* b, const char* e, const Value& def) const
    {
        return get(std::string(b, e), def);
    }
    bool Value::removeMember(const std::string& key, Value* removed)
    {
        if (Type != objectValue) {
            return false;
        }
        auto it = Obj->find(key);
        if (it == Obj->end()) {
            return false;
        }
        if (removed) {
            *removed = std::move(it->second);
        }
        Obj->erase(it);
        return true;
    }
    bool Value::removeMember(const char* key, Value* removed)
    {
        return removeMember(std::string(key), removed);
    }
    bool Value::removeMember(const char* b, const char* e, Value* removed)
    {
        return removeMember(std::string(b, e), removed);
    }
    void Value::removeMember(const std::string& key)
    {
        JSON_REQUIRE(Type == nullValue || Type == objectValue, "in Json::Value::removeMember(): requires objectValue");
        if (Type == nullValue) {
            return;
        }
        Obj->erase(key);
    }
    void Value::removeMember(const char* key)
    {
        removeMember(std::string(key));
    }
    bool Value::removeIndex(ArrayIndex i, Value* removed)
    {
        if (Type != arrayValue || i >= Arr->size()) {
            return false;
        }
        if (removed) {
            *removed = (*Arr)[i];
        }
        Arr->erase(Arr->begin() + i);
        return true;
    }
    bool Value::isMember(const std::string& key) const
    {
        return find(key) != nullptr;
    }
    bool Value::isMember(const char* key) const
    {
        return find(std::string(key)) != nullptr;
    }
    bool Value::isMember(const char* b, const char* e) const
    {
        return find(std::string(b, e)) != nullptr;
    }
    Value::Members Value::getMemberNames() const
    {
        JSON_REQUIRE(Type == nullValue || Type == objectValue,
                     "in Json::Value::getMemberNames(), value must be objectValue");
        Members res;
        if (Type == objectValue) {
            for (const auto& i: *Obj) {
                res.push_back(i.first);
            }
        }
        return res;
    }

    ValueIteratorBase ValueIteratorBase::MakeBegin(Value* v)
    {
        ValueIteratorBase r;
        if (v->Type == arrayValue) {
            r.Owner = v;
            r.IsArray = true;
        } else if (v->Type == objectValue) {
            r.Owner = v;
            r.It = v->Obj->begin();
        }
        return r;
    }
    ValueIteratorBase ValueIteratorBase::MakeEnd(Value* v)
    {
        ValueIteratorBase r;
        if (v->Type == arrayValue) {
            r.Owner = v;
            r.IsArray = true;
            r.Idx = size_t(v->Arr->size());
        } else if (v->Type == objectValue) {
            r.Owner = v;
            r.It = v->Obj->end();
        }
        return r;
    }
    bool ValueIteratorBase::isEqual(const ValueIteratorBase& o) const
    {
        if (Owner == nullptr) {
            return o.Owner == nullptr;
        }
        return Owner == o.Owner && IsArray == o.IsArray && (IsArray ? Idx == o.Idx : It == o.It);
    }
    Value& ValueIteratorBase::deref() const
    {
        return IsArray ? (*Owner->Arr)[Idx] : It->second;
    }
    void ValueIteratorBase::increment()
    {
        if (IsArray) {
            ++Idx;
        } else {
            ++It;
        }
    }
    void ValueIteratorBase::decrement()
    {
        if (IsArray) {
            --Idx;
        } else {
            --It;
        }
    }
    ValueIteratorBase::difference_type ValueIteratorBase::operator-(const ValueIteratorBase& o) const
    {
        if (Owner == nullptr) {
            return 0;
        }
        if (IsArray) {
            return int(Idx) - int(o.Idx);
        }
        auto begin = Owner->Obj->begin();
        auto a = It;
        auto b = o.It;
        return int(std::distance(begin, a)) - int(std::distance(begin, b));
    }
    Value ValueIteratorBase::key() const
    {
        if (Owner == nullptr) {
            return Value();
        }
        return IsArray ? Value(Idx) : Value(It->first);
    }
    UInt ValueIteratorBase::index() const
    {
        return IsArray ? Idx : UInt(-1);
    }
    std::string ValueIteratorBase::name() const
    {
        return (Owner == nullptr || IsArray) ? std::string() : It->first;
    }
    const char* ValueIteratorBase::memberName() const
    {
        return (Owner == nullptr || IsArray) ? "" : It->first.c_str();
    }
    Value::const_iterator Value::begin() const
    {
        return const_iterator(ValueIteratorBase::MakeBegin(const_cast<Value*>(this)));
    }
    Value::const_iterator Value::end() const
    {
        return const_iterator(ValueIteratorBase::MakeEnd(const_cast<Value*>(this)));
    }
    Value::iterator Value::begin()
    {
        return iterator(ValueIteratorBase::MakeBegin(this));
    }
    Value::iterator Value::end()
    {
        return iterator(ValueIteratorBase::MakeEnd(this));
    }
    const Value& Value::front() const
    {
        return *begin();
    }
    Value& Value::front()
    {
        return *begin();
    }
    const Value& Value::back() const
    {
        return *--end();
    }
    Value& Value::back()
    {
        return *--end();
    }

    // ---------------------------------------------------------------- writer
    std::string valueToString(Int v)
    {
        return std::to_string(v);
    }
    std::string valueToString(UInt v)
    {
        return std::to_string(v);
    }
    std::string valueToString(LargestInt v)
    {
        return std::to_string(v);
    }
    std::string valueToString(LargestUInt v)
    {
        return std::to_string(v);
    }
    std::string valueToString(bool v)
    {
        return v ? "true" : "false";
    }
    std::string valueToString(double v, unsigned int precision, PrecisionType pt)
    {
        if (std::isnan(v)) {
            return "null";
        }
        if (std::isinf(v)) {
            return v < 0 ? "-1e+9999" : "1e+9999";
        }
        char buf[512];
        snprintf(buf, sizeof(buf), pt == significantDigits ? "%.*g" : "%.*f", precision, v);
        std::string s(buf);
        for (auto& c: s) {
            if (c == ',') {
                c = '.';
            }
        }
        if (pt == decimalPlaces && s.find('.') != std::string::npos) {
            auto e = s.find_last_not_of('0');
            if (s[e] == '.') {
                ++e;
            }
            s.erase(e + 1);
        }
        if (s.find('.') == std::string::npos && s.find('e') == std::string::npos) {
            s += ".0";
        }
        return s;
    }

    static std::string Quote(const std::string& v, bool emitUtf8)
    {
        std::string r = "\"";
        for (size_t i = 0; i < v.size(); ++i) {
            unsigned char c = v[i];
            switch (c) {
                case '"':
                    r += "\\\"";
                    break;
                case '\\':
                    r += "\\\\";
                    break;
                case '\b':
                    r += "\\b";
                    break;
                case '\f':
                    r += "\\f";
                    break;
                case '\n':
                    r += "\\n";
                    break;
                case '\r':
                    r += "\\r";
                    break;
                case '\t':
                    r += "\\t";
                    break;
                default: {
                    if (c < 0x20) {
                        char b[8];
                        snprintf(b, sizeof(b), "\\u%04x", c);
                        r += b;
                    } else if (c < 0x80 || emitUtf8) {
                        r += char(c);
                    } else {
                        unsigned cp = 0xFFFD;
                        size_t n = 0;
                        auto cont = [&](size_t k) { return i + k < v.size() ? (unsigned char)v[i + k] & 0x3F : 0; };
                        if (c < 0xE0 && i + 1 < v.size()) {
                            cp = ((c & 0x1F) << 6) | cont(1);
                            n = 1;
                            if (cp < 0x80) {
                                cp = 0xFFFD;
                            }
                        } else if (c < 0xF0 && i + 2 < v.size()) {
                            cp = ((c & 0x0F) << 12) | (cont(1) << 6) | cont(2);
                            n = 2;
                        } else if (c < 0xF8 && i + 3 < v.size()) {
                            cp = ((c & 0x07) << 18) | (cont(1) << 12) | (cont(2) << 6) | cont(3);
                            n = 3;
                        }
                        i += n;
                        char b[16];
                        if (cp > 0xFFFF) {
                            cp -= 0x10000;
                            snprintf(b, sizeof(b), "\\u%04x\\u%04x", 0xD800 + ((cp >> 10) & 0x3FF), 0xDC00 + (cp & 0x3FF));
                        } else {
                            snprintf(b, sizeof(b), "\\u%04x", cp);
                        }
                        r += b;
                    }
                }
            }
        }
        return r + "\"";
    }
    std::string valueToQuotedString(const char* v)
    {
        return Quote(v, false);
    }
    std::string valueToQuotedString(const std::string& v)
    {
        return Quote(v, false);
    }

    namespace
    {
        struct TWriter: public StreamWriter
        {
            std::string Indent;
            std::string Colon = " : ";
            unsigned Precision = 17;
            PrecisionType PType = significantDigits;
            bool DropNull = false;
            bool EmitUtf8 = false;

            void Put(std::ostream& s, const Value& v, const std::string& cur)
            {
                switch (v.type()) {
                    case nullValue:
                        if (!DropNull) {
                            s << "null";
                        }
                        break;
                    case intValue:
                        s << v.asLargestInt();
                        break;
                    case uintValue:
                        s << v.asLargestUInt();
                        break;
                    case realValue:
                        s << valueToString(v.asDouble(), Precision, PType);
                        break;
                    case booleanValue:
                        s << (v.asBool() ? "true" : "false");
                        break;
                    case stringValue:
                        s << Quote(v.asString(), EmitUtf8);
                        break;
                    case arrayValue: {
                        if (v.empty()) {
                            s << "[]";
                            break;
                        }
                        auto in = cur + Indent;
                        s << "[";
                        bool first = true;
                        for (const auto& i: v) {
                            if (!first) {
                                s << ",";
                            }
                            first = false;
                            NewLine(s, in);
                            Put(s, i, in);
                        }
                        NewLine(s, cur);
                        s << "]";
                        break;
                    }
                    case objectValue: {
                        if (v.empty()) {
                            s << "{}";
                            break;
                        }
                        auto in = cur + Indent;
                        s << "{";
                        bool first = true;
                        for (auto it = v.begin(); it != v.end(); ++it) {
                            if (!first) {
                                s << ",";
                            }
                            first = false;
                            NewLine(s, in);
                            s << Quote(it.name(), EmitUtf8) << Colon;
                            Put(s, *it, in);
                        }
                        NewLine(s, cur);
                        s << "}";
                        break;
                    }
                }
            }
            void NewLine(std::ostream& s, const std::string& in)
            {
                if (!Indent.empty()) {
                    s << "\n" << in;
                }
            }
            int write(Value const& root, std::ostream* sout) override
            {
                Put(*sout, root, "");
                return 0;
            }
        };
    }

    StreamWriterBuilder::StreamWriterBuilder()
    {
        setDefaults(&settings_);
    }
    void StreamWriterBuilder::setDefaults(Value* s)
    {
        (*s)["commentStyle"] = "All";
        (*s)["indentation"] = "\t";
        (*s)["enableYAMLCompatibility"] = false;
        (*s)["dropNullPlaceholders"] = false;
        (*s)["useSpecialFloats"] = false;
        (*s)["emitUTF8"] = false;
        (*s)["precision"] = 17;
        (*s)["precisionType"] = "significant";
    }
    StreamWriter* StreamWriterBuilder::newStreamWriter() const
    {
        auto w = new TWriter();
        w->Indent = settings_["indentation"].asString();
        w->Colon = settings_["enableYAMLCompatibility"].asBool() ? ": " : (w->Indent.empty() ? ":" : " : ");
        w->Precision = std::min(17u, settings_["precision"].asUInt());
        w->PType = settings_["precisionType"].asString() == "decimal" ? decimalPlaces : significantDigits;
        w->DropNull = settings_["dropNullPlaceholders"].asBool();
        w->EmitUtf8 = settings_["emitUTF8"].asBool();
        return w;
    }
    std::string writeString(StreamWriter::Factory const& f, Value const& root)
    {
        std::ostringstream s;
        std::unique_ptr<StreamWriter> w(f.newStreamWriter());
        w->write(root, &s);
        return s.str();
    }
    std::ostream& operator<<(std::ostream& s, const Value& root)
    {
        StreamWriterBuilder b;
        std::unique_ptr<StreamWriter> w(b.newStreamWriter());
        w->write(root, &s);
        return s;
    }
    std::string Value::toStyledString() const
    {
        StreamWriterBuilder b;
        b["indentation"] = "   ";
        return writeString(b, *this) + "\n";
    }
    std::string FastWriter::write(const Value& root)
    {
        StreamWriterBuilder b;
        b["indentation"] = "";
        return writeString(b, root) + "\n";
    }
    std::string StyledWriter::write(const Value& root)
    {
        return root.toStyledString();
    }

    // ---------------------------------------------------------------- reader
    namespace
    {
        struct TParseError
        {
            std::string Msg;
        };

        struct TParser: public CharReader
        {
            bool AllowComments = true;
            bool AllowTrailingCommas = true;
            bool StrictRoot = false;
            bool FailIfExtra = false;
            bool RejectDupKeys = false;
            bool AllowSpecialFloats = false;
            bool AllowSingleQuotes = false;
            unsigned StackLimit = 1000;
            const char* B = nullptr;
            const char* P = nullptr;
            const char* E = nullptr;

            [[noreturn]] void Fail(const std::string& m)
            {
                int line = 1, col = 1;
                for (const char* c = B; c < P && c < E; ++c) {
                    if (*c == '\n') {
                        ++line;
                        col = 1;
                    } else {
                        ++col;
                    }
                }
                throw TParseError{"* Line " + std::to_string(line) + ", Column " + std::to_string(col) + "\n  " + m +
                                  "\n"};
            }
            void Skip()
            {
                while (P < E) {
                    if (*P == ' ' || *P == '\t' || *P == '\r' || *P == '\n') {
                        ++P;
                    } else if (AllowComments && *P == '/' && P + 1 < E && P[1] == '/') {
                        while (P < E && *P != '\n' && *P != '\r') {
                            ++P;
                        }
                    } else if (AllowComments && *P == '/' && P + 1 < E && P[1] == '*') {
                        P += 2;
                        while (P + 1 < E && !(*P == '*' && P[1] == '/')) {
                            ++P;
                        }
                        if (P + 1 >= E) {
                            Fail("Syntax error: value, object or array expected.");
                        }
                        P += 2;
                    } else {
                        break;
                    }
                }
            }
            bool Lit(const char* s)
            {
                size_t n = strlen(s);
                if (size_t(E - P) >= n && memcmp(P, s, n) == 0) {
                    P += n;
                    return true;
                }
                return false;
            }
            static void Utf8(std::string& r, unsigned cp)
            {
                if (cp <= 0x7f) {
                    r += char(cp);
                } else if (cp <= 0x7FF) {
                    r += char(0xC0 | (cp >> 6));
                    r += char(0x80 | (cp & 0x3F));
                } else if (cp <= 0xFFFF) {
                    r += char(0xE0 | (cp >> 12));
                    r += char(0x80 | ((cp >> 6) & 0x3F));
                    r += char(0x80 | (cp & 0x3F));
                } else {
                    r += char(0xF0 | (cp >> 18));
                    r += char(0x80 | ((cp >> 12) & 0x3F));
                    r += char(0x80 | ((cp >> 6) & 0x3F));
                    r += char(0x80 | (cp & 0x3F));
                }
            }
            unsigned Hex4()
            {
                if (E - P < 4) {
                    Fail("Bad unicode escape sequence in string: four digits expected.");
                }
                unsigned v = 0;
                for (int i = 0; i < 4; ++i) {
                    char c = *P++;
                    v <<= 4;
                    if (c >= '0' && c <= '9') {
                        v |= c - '0';
                    } else if (c >= 'a' && c <= 'f') {
                        v |= c - 'a' + 10;
                    } else if (c >= 'A' && c <= 'F') {
                        v |= c - 'A' + 10;
                    } else {
                        Fail("Bad unicode escape sequence in string: hexadecimal digit expected.");
                    }
                }
                return v;
            }
            std::string Str()
            {
                char q = *P++;
                std::string r;
                while (true) {
                    if (P >= E) {
                        Fail("Syntax error: value, object or array expected.");
                    }
                    char c = *P++;
                    if (c == q) {
                        return r;
                    }
                    if (c != '\\') {
                        r += c;
                        continue;
                    }
                    if (P >= E) {
                        Fail("Empty escape sequence in string");
                    }
                    c = *P++;
                    switch (c) {
                        case '"':
                        case '/':
                        case '\\':
                            r += c;
                            break;
                        case 'b':
                            r += '\b';
                            break;
                        case 'f':
                            r += '\f';
                            break;
                        case 'n':
                            r += '\n';
                            break;
                        case 'r':
                            r += '\r';
                            break;
                        case 't':
                            r += '\t';
                            break;
                        case 'u': {
                            unsigned u = Hex4();
                            if (u >= 0xD800 && u <= 0xDBFF) {
                                if (E - P >= 6 && *P == '\\' && P[1] == 'u') {
                                    P += 2;
                                    unsigned lo = Hex4();
                                    u = 0x10000 + ((u & 0x3FF) << 10) + (lo & 0x3FF);
                                } else {
                                    Fail("expecting another \\u token to begin the second half of a unicode surrogate "
                                         "pair");
                                }
                            }
                            Utf8(r, u);
                            break;
                        }
                        default:
                            Fail("Bad escape sequence in string");
                    }
                }
            }
            Value Num()
            {
                const char* s = P;
                bool real = false;
                if (P < E && *P == '-') {
                    ++P;
                }
                if (P >= E || *P < '0' || *P > '9') {
                    P = s;
                    Fail("Syntax error: value, object or array expected.");
                }
                while (P < E && *P >= '0' && *P <= '9') {
                    ++P;
                }
                if (P < E && *P == '.') {
                    real = true;
                    ++P;
                    while (P < E && *P >= '0' && *P <= '9') {
                        ++P;
                    }
                }
                if (P < E && (*P == 'e' || *P == 'E')) {
                    real = true;
                    ++P;
                    if (P < E && (*P == '+' || *P == '-')) {
                        ++P;
                    }
                    while (P < E && *P >= '0' && *P <= '9') {
                        ++P;
                    }
                }
                std::string t(s, P);
                if (!real) {
                    errno = 0;
                    if (t[0] == '-') {
                        auto v = strtoll(t.c_str(), nullptr, 10);
                        if (errno == 0) {
                            return Value(Int64(v));
                        }
                    } else {
                        auto v = strtoull(t.c_str(), nullptr, 10);
                        if (errno == 0) {
                            if (v <= UInt64(INT32_MAX)) {
                                return Value(Int64(v));
                            }
                            return Value(UInt64(v));
                        }
                    }
                }
                return Value(strtod(t.c_str(), nullptr));
            }
            Value Val(unsigned depth)
            {
                if (depth > StackLimit) {
                    throwRuntimeError("Exceeded stackLimit in readValue().");
                }
                Skip();
                if (P >= E) {
                    Fail("Syntax error: value, object or array expected.");
                }
                switch (*P) {
                    case '{': {
                        ++P;
                        Value r(objectValue);
                        Skip();
                        if (P < E && *P == '}') {
                            ++P;
                            return r;
                        }
                        while (true) {
                            Skip();
                            if (AllowTrailingCommas && P < E && *P == '}') {
                                ++P;
                                return r;
                            }
                            if (P >= E || (*P != '"' && !(AllowSingleQuotes && *P == '\''))) {
                                Fail("Missing '}' or object member name");
                            }
                            auto k = Str();
                            Skip();
                            if (P >= E || *P != ':') {
                                Fail("Missing ':' after object member name");
                            }
                            ++P;
                            if (RejectDupKeys && r.isMember(k)) {
                                Fail("Duplicate key: '" + k + "'");
                            }
                            auto v = Val(depth + 1);
                            r[k] = std::move(v);
                            Skip();
                            if (P < E && *P == ',') {
                                ++P;
                                continue;
                            }
                            if (P < E && *P == '}') {
                                ++P;
                                return r;
                            }
                            Fail("Missing ',' or '}' in object declaration");
                        }
                    }
                    case '[': {
                        ++P;
                        Value r(arrayValue);
                        while (true) {
                            Skip();
                            if (P < E && *P == ']' && (r.empty() || AllowTrailingCommas)) {
                                ++P;
                                return r;
                            }
                            r.append(Val(depth + 1));
                            Skip();
                            if (P < E && *P == ',') {
                                ++P;
                                continue;
                            }
                            if (P < E && *P == ']') {
                                ++P;
                                return r;
                            }
                            Fail("Missing ',' or ']' in array declaration");
                        }
                    }
                    case '"':
                        return Value(Str());
                    case '\'':
                        if (AllowSingleQuotes) {
                            return Value(Str());
                        }
                        break;
                    case 't':
                        if (Lit("true")) {
                            return Value(true);
                        }
                        break;
                    case 'f':
                        if (Lit("false")) {
                            return Value(false);
                        }
                        break;
                    case 'n':
                        if (Lit("null")) {
                            return Value();
                        }
                        break;
                    case 'N':
                        if (AllowSpecialFloats && Lit("NaN")) {
                            return Value(std::numeric_limits<double>::quiet_NaN());
                        }
                        break;
                    default:
                        return Num();
                }
                Fail("Syntax error: value, object or array expected.");
            }
            bool parse(char const* b, char const* e, Value* root, std::string* errs) override
            {
                B = P = b;
                E = e;
                if (E - P >= 3 && memcmp(P, "\xEF\xBB\xBF", 3) == 0) {
                    P += 3;
                }
                try {
                    Value v = Val(1);
                    if (FailIfExtra) {
                        Skip();
                        if (P < E) {
                            *root = v;
                            Fail("Extra non-whitespace after JSON value.");
                        }
                    }
                    if (StrictRoot && !v.isArray() && !v.isObject()) {
                        Fail("A valid JSON document must be either an array or an object value.");
                    }
                    *root = std::move(v);
                    if (errs) {
                        errs->clear();
                    }
                    return true;
                } catch (const TParseError& err) {
                    if (errs) {
                        *errs = err.Msg;
                    }
                    return false;
                }
            }
        };
    }

    CharReaderBuilder::CharReaderBuilder()
    {
        setDefaults(&settings_);
    }
    void CharReaderBuilder::setDefaults(Value* s)
    {
        (*s)["collectComments"] = true;
        (*s)["allowComments"] = true;
        (*s)["allowTrailingCommas"] = true;
        (*s)["strictRoot"] = false;
        (*s)["allowDroppedNullPlaceholders"] = false;
        (*s)["allowNumericKeys"] = false;
        (*s)["allowSingleQuotes"] = false;
        (*s)["stackLimit"] = 1000;
        (*s)["failIfExtra"] = false;
        (*s)["rejectDupKeys"] = false;
        (*s)["allowSpecialFloats"] = false;
        (*s)["skipBom"] = true;
    }
    void CharReaderBuilder::strictMode(Value* s)
    {
        setDefaults(s);
        (*s)["allowComments"] = false;
        (*s)["allowTrailingCommas"] = false;
        (*s)["strictRoot"] = true;
        (*s)["failIfExtra"] = true;
        (*s)["rejectDupKeys"] = true;
    }
    CharReader* CharReaderBuilder::newCharReader() const
    {
        auto p = new TParser();
        p->AllowComments = settings_["allowComments"].asBool();
        p->AllowTrailingCommas = settings_["allowTrailingCommas"].asBool();
        p->StrictRoot = settings_["strictRoot"].asBool();
        p->FailIfExtra = settings_["failIfExtra"].asBool();
        p->RejectDupKeys = settings_["rejectDupKeys"].asBool();
        p->AllowSpecialFloats = settings_["allowSpecialFloats"].asBool();
        p->AllowSingleQuotes = settings_["allowSingleQuotes"].asBool();
        p->StackLimit = settings_["stackLimit"].asUInt();
        return p;
    }
    bool parseFromStream(CharReader::Factory const& f, std::istream& is, Value* root, std::string* errs)
    {
        std::ostringstream ss;
        ss << is.rdbuf();
        std::string doc = ss.str();
        std::unique_ptr<CharReader> r(f.newCharReader());
        return r->parse(doc.data(), doc.data() + doc.size(), root, errs);
    }
    std::istream& operator>>(std::istream& is, Value& root)
    {
        CharReaderBuilder b;
        std::string errs;
        if (!parseFromStream(b, is, &root, &errs)) {
            throwRuntimeError(errs);
        }
        return is;
    }
    bool Reader::parse(const std::string& doc, Value& root, bool)
    {
        CharReaderBuilder b;
        std::unique_ptr<CharReader> r(b.newCharReader());
        return r->parse(doc.data(), doc.data() + doc.size(), &root, &Errs);
    }
    bool Reader::parse(std::istream& is, Value& root, bool)
    {
        CharReaderBuilder b;
        return parseFromStream(b, is, &root, &Errs);
    }
}
