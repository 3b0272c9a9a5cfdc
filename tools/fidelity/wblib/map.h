#pragma once
#include <map>
namespace WBMQTT
{
    template<class K, class V> using TMap = std::map<K, V>;
}
