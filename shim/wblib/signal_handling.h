#pragma once
#include <chrono>
#include <functional>
#include <initializer_list>
namespace WBMQTT
{
    namespace SignalHandling
    {
        inline void Handle(std::initializer_list<int>)
        {}
        inline void OnSignals(std::initializer_list<int>, std::function<void()>)
        {}
        template<class T> inline void SetOnTimeout(T, std::function<void()>)
        {}
        inline void Start()
        {}
        inline void Stop()
        {}
        inline void Wait()
        {}
    }
}
