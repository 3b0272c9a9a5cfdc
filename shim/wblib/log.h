#pragma once
#include <atomic>
#include <chrono>
#include <mutex>
#include <thread>
#include <functional>
#include <iostream>
#include <ostream>
#include <sstream>
#include <string>
#include <memory>
namespace WBMQTT
{
    // Stand-in logger: builds the message (so that evaluating it is exercised) and hands it to an optional sink.
    class TLogger
    {
    public:
        enum EDestination
        {
            StdOut,
            StdErr,
            Syslog
        };
        enum EColor
        {
            RED = 31,
            GREEN = 32,
            YELLOW = 33,
            BLUE = 34,
            GREY = 37,
            WHITE = 97
        };
        enum class EColorUsage
        {
            AUTO,
            ON,
            OFF
        };
        TLogger(const std::string& prefix,
                std::ostream& (*)(),
                int color = -1,
                bool enabled = true,
                EColorUsage = EColorUsage::AUTO)
            : Prefix(prefix),
              Enabled(enabled)
        {
            (void)color;
        }
        TLogger(const std::string& prefix,
                EDestination,
                int color = -1,
                bool enabled = true,
                EColorUsage = EColorUsage::AUTO)
            : Prefix(prefix),
              Enabled(enabled)
        {
            (void)color;
        }
        class TMessage
        {
        public:
            explicit TMessage(TLogger* l): Logger(l && l->Enabled ? l : nullptr)
            {}
            TMessage(TMessage&& o): Logger(o.Logger), Stream(std::move(o.Stream))
            {
                o.Logger = nullptr;
            }
            ~TMessage()
            {
                if (Logger && Stream && Sink()) {
                    Sink()(Logger->Prefix, Stream->str());
                }
            }
            template<class T> TMessage& operator<<(const T& v)
            {
                if (Logger && Sink()) {
                    if (!Stream) {
                        Stream = std::make_unique<std::ostringstream>();
                    }
                    (*Stream) << v;
                }
                return *this;
            }
            TMessage& operator<<(std::ostream& (*)(std::ostream&))
            {
                return *this;
            }

        private:
            TLogger* Logger;
            std::unique_ptr<std::ostringstream> Stream;
        };
        TMessage Log()
        {
            return TMessage(this);
        }
        bool IsEnabled() const
        {
            return Enabled;
        }
        void SetEnabled(bool e)
        {
            Enabled = e;
        }
        static std::function<void(const std::string&, const std::string&)>& Sink();

    private:
        std::string Prefix;
        std::atomic<bool> Enabled;
    };
    extern TLogger Error;
    extern TLogger Warn;
    extern TLogger Info;
    extern TLogger Debug;
}
