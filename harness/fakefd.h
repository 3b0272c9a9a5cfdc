// A kernel for the port classes: one serial device and one TCP peer whose data arrives at given moments of virtual time.
// The libc calls of the linked objects are redirected by -Wl,--wrap (see checks.py); descriptors that are not ours go
// to libc. Every misuse of a descriptor is recorded as an error of the code under test.
#pragma once
#include <cstdint>
#include <deque>
#include <map>
#include <string>
#include <termios.h>
#include <utility>
#include <vector>
namespace fakefd
{
    struct Written
    {
        int64_t At;
        std::vector<uint8_t> Data;
        termios Tio;
    };
    enum class ConnectResult
    {
        Immediately,
        Later,
        RefusedNow,
        RefusedLater,
        Never
    };
    struct Kernel
    {
        std::string SerialPath;
        // what the next calls do: errno or 0
        int FailOpen = 0;      // open() of the device or socket()
        int FailGetattr = 0;
        int FailSetattr = 0;   // number of tcsetattr calls to fail
        int FailFlush = 0;
        int FailRead = 0;
        int FailWrite = 0;
        int FailIoctl = 0;
        int FailNodelay = 0;
        int FailResolve = 0;
        size_t PartialWrite = SIZE_MAX; // the next write takes only so many bytes
        ConnectResult Connect = ConnectResult::Immediately;
        int64_t ConnectDelayNs = 1000000;

        // state
        std::deque<std::pair<int64_t, uint8_t>> Rx; // ascending
        int64_t RemoteCloseAt = INT64_MAX;          // TCP only
        bool LazyReset = false;                     // TCP: the first write after the peer closed is accepted and lost
        int64_t NoisePeriodNs = 0;                  // an endless flow: one byte each period
        int64_t NoiseNext = 0;
        int64_t NoiseUntil = INT64_MAX;
        termios Line = {};    // attributes of the serial device
        termios Initial = {};
        struct TFd
        {
            bool Tcp = false;
            bool NonBlock = false;
            bool Connected = false;
            int64_t ConnectedAt = 0;
            int SoError = 0;
            bool NoDelay = false;
            termios AtOpen = {};
        };
        std::map<int, TFd> Fds;
        int NextFd = 700;
        std::vector<Written> Out;
        std::vector<int64_t> OpenTries;
        std::vector<int64_t> Closes;
        std::vector<bool> ClosedWithInitial; // serial: the attributes were restored
        unsigned Selects = 0;
        std::vector<std::string> Misuse;

        void arrive(int64_t at, const std::vector<uint8_t>& b)
        {
            for (auto x: b)
                Rx.emplace_back(at, x);
        }
        void noise(int64_t now);
        size_t available(int64_t now);
        // when something (data, end of stream) can be read, INT64_MAX if never
        int64_t readableAt(const TFd& f, int64_t now);
    };
    extern Kernel* K;
}
