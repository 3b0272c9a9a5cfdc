// N01: the serial and TCP transports (src/port) over a simulated kernel in virtual time.
#include "fakefd.h"
#include "pbt.h"
#include "port/feature_port.h"
#include "port/serial_port.h"
#include "port/tcp_port.h"
#include "serial_exc.h"
#include "simclock.h"
#include "log.h"
#include <cerrno>
#include <cmath>
#include <cstring>
#include <memory>
const char* PROPERTY_ID = "N01";
const char* NONTRIVIAL_RULE =
    "one case = 1..18 operations (write, read a frame, read a byte, skip noise, pause since the last interaction, apply/reset settings, "
    "reopen, close, open, idle) on a real TSerialPort or TTcpPort whose descriptor is simulated: bytes arrive in chunks at generated "
    "moments, the peer closes, noise, failing system calls; or 2..60 steps of the open/close logic. Non-trivial: at least one frame of "
    "several chunks or a split by a gap, or a failure, or the port is closed and opened by the logic";
using namespace pbt;
using namespace std::chrono;
using fakefd::ConnectResult;
namespace
{
    const char* DEV = "/nonexistent/verif_tty0";
    const int64_t US = 1000, MS = 1000000;
    int64_t ceilDiv(int64_t a, int64_t b)
    {
        return (a + b - 1) / b;
    }
    struct Line
    {
        int Baud = 9600;
        char Parity = 'N';
        int Data = 8, Stop = 1;
        int64_t bits(int64_t n) const // ns
        {
            return ceilDiv(n * 1000000, Baud) * US;
        }
        int64_t bytes(int64_t n) const
        {
            return bits(n * (1 + Data + Stop + (Parity != 'N')));
        }
        TSerialPortConnectionSettings cpp() const
        {
            return TSerialPortConnectionSettings(Baud, Parity, Data, Stop);
        }
        std::string str() const
        {
            return std::to_string(Baud) + " " + std::to_string(Data) + Parity + std::to_string(Stop);
        }
        bool operator==(const Line& o) const
        {
            return Baud == o.Baud && Parity == o.Parity && Data == o.Data && Stop == o.Stop;
        }
    };
    const std::vector<std::pair<int, speed_t>> SPEEDS = {{9600, B9600}, {110, B110}, {300, B300}, {600, B600}, {1200, B1200}, {2400, B2400},
        {4800, B4800}, {19200, B19200}, {38400, B38400}, {57600, B57600}, {115200, B115200}};
    Line genLine(Gen& g)
    {
        Line l;
        l.Baud = g.pick(SPEEDS).first;
        l.Parity = g.pick({'N', 'E', 'O'});
        l.Data = int(g.pick({8, 7, 6, 5}));
        l.Stop = int(1 + g.below(2));
        return l;
    }
    // what the attributes of the device mean; "?" something else than raw 8-bit clean I/O
    std::string decode(const termios& t)
    {
        std::string bad;
        int baud = 0;
        for (auto& s: SPEEDS)
            if (cfgetospeed(&t) == s.second && cfgetispeed(&t) == s.second)
                baud = s.first;
        if (!baud)
            bad += " speed";
        int data = (t.c_cflag & CSIZE) == CS8 ? 8 : (t.c_cflag & CSIZE) == CS7 ? 7 : (t.c_cflag & CSIZE) == CS6 ? 6 : 5;
        char parity = !(t.c_cflag & PARENB) ? 'N' : (t.c_cflag & PARODD) ? 'O' : 'E';
        if ((parity != 'N') != bool(t.c_iflag & INPCK))
            bad += " INPCK";
        if (!(t.c_cflag & CREAD) || !(t.c_cflag & CLOCAL))
            bad += " CREAD/CLOCAL";
        if (t.c_lflag & (ICANON | ECHO | ECHOE | ISIG))
            bad += " local modes";
        if (t.c_iflag & (IXON | IXOFF | IXANY | ICRNL | INLCR | IGNCR | ISTRIP))
            bad += " input modes";
        if (t.c_oflag & OPOST)
            bad += " OPOST";
        if (t.c_cc[VMIN] || t.c_cc[VTIME])
            bad += " VMIN/VTIME";
        Line l{baud, parity, data, t.c_cflag & CSTOPB ? 2 : 1};
        return l.str() + (bad.empty() ? "" : " with wrong" + bad);
    }

    enum class Exc
    {
        None,
        Timeout,   // TResponseTimeoutException
        Transient, // TSerialDeviceTransientErrorException
        Device,    // any TSerialDeviceException
        Any        // any std::exception
    };
    const char* excName(Exc e)
    {
        const char* n[] = {"no error", "response timeout", "transient error", "device error", "an error"};
        return n[int(e)];
    }

    struct Case
    {
        Gen& g;
        fakefd::Kernel k;
        bool Tcp;
        PPort Base, P;
        std::shared_ptr<TSerialPort> Ser;
        // model
        bool Open = false;
        static const int64_t UNKNOWN = INT64_MIN, NEVER = INT64_MIN / 4;
        int64_t T = 0, LI = NEVER;
        Line Initial, Cur, Applied; // settings of the port; attributes in force
        std::deque<std::pair<int64_t, uint8_t>> Rx;
        int64_t PeerCloses = INT64_MAX;
        int64_t MinResponse = -1 * MS;
        size_t Written = 0;
        std::string Trace;

        explicit Case(Gen& g): g(g)
        {
            fakefd::K = &k;
            k.SerialPath = DEV;
            // what the previous user of the device left
            cfsetospeed(&k.Line, B300);
            cfsetispeed(&k.Line, B300);
            k.Line.c_cflag |= CS5 | PARENB | PARODD;
            k.Line.c_lflag |= ICANON | ECHO;
            k.Initial = k.Line;
        }
        ~Case()
        {
            fakefd::K = nullptr;
        }
        void log(const std::string& s)
        {
            auto l = "@" + std::to_string(T / US) + "us " + s;
            Trace += l + "\n";
            g.note(l);
        }
        int64_t responseTimeout(int64_t req) const
        {
            auto t = std::max(MinResponse, req);
            if (t < 0)
                t = 500 * MS;
            if (Tcp)
                return t + 500 * MS;
            return t + (Cur.Baud < 9600 ? 34 : 24) * MS + Cur.bytes(1);
        }
        int64_t frameTimeout(int64_t req) const
        {
            return req + (Tcp ? 150 * MS : 15 * MS + Cur.bytes(1));
        }
        // --- model of reading
        int64_t next() const
        {
            auto n = Rx.empty() ? INT64_MAX : Rx.front().first;
            return Tcp ? std::min(n, PeerCloses) : n;
        }
        bool waitModel(int64_t timeout)
        {
            auto n = next();
            if (n == INT64_MAX || n > T + timeout) {
                T += timeout;
                return false;
            }
            T = std::max(T, n);
            return true;
        }
        std::vector<uint8_t> take(size_t max)
        {
            std::vector<uint8_t> r;
            while (r.size() < max && !Rx.empty() && Rx.front().first <= T) {
                r.push_back(Rx.front().second);
                Rx.pop_front();
            }
            return r;
        }
        void closeModel()
        {
            Open = false;
        }
        // model of SkipNoise, false if the flow is too long for the model to decide
        bool skipNoiseModel(Exc& e)
        {
            auto start = T;
            while (waitModel(1 * MS)) {
                if (take(255).empty()) { // the peer closed
                    closeModel();
                    e = Exc::Transient;
                    return true;
                }
                LI = T;
                if (T - start > 99 * MS)
                    return false;
            }
            return true;
        }
        template<class F> void run(const std::string& what, Exc expected, F f)
        {
            Exc got = Exc::None;
            std::string msg;
            try {
                f();
            } catch (const TResponseTimeoutException& e) {
                got = Exc::Timeout;
                msg = e.what();
            } catch (const TSerialDeviceTransientErrorException& e) {
                got = Exc::Transient;
                msg = e.what();
            } catch (const TSerialDeviceException& e) {
                got = Exc::Device;
                msg = e.what();
            } catch (const std::exception& e) {
                got = Exc::Any;
                msg = e.what();
            }
            bool ok = got == expected || (expected == Exc::Device && got != Exc::None && got != Exc::Any) || (expected == Exc::Any && got != Exc::None) ||
                      (expected == Exc::Transient && got == Exc::Timeout);
            PBT_CHECK(ok, what << ": got " << excName(got) << " (" << msg << "), expected " << excName(expected) << "\n" << Trace);
            settle(what);
        }
        // the port and the model agree
        void settle(const std::string& what)
        {
            auto now = sim::nowNs();
            PBT_CHECK(k.Misuse.empty(), what << ": " << k.Misuse[0] << "\n" << Trace);
            PBT_CHECK(P->IsOpen() == Open, what << ": the port is " << (P->IsOpen() ? "open" : "closed") << ", expected " << (Open ? "open" : "closed") << "\n" << Trace);
            PBT_CHECK(k.Fds.size() == size_t(Open), what << ": " << k.Fds.size() << " descriptors are open while the port is " << (Open ? "open" : "closed") << "\n" << Trace);
            PBT_CHECK(now >= T - 1 * US && now <= T + 20 * US, what << ": finished at " << now / US << " us, expected " << T / US << " us\n" << Trace);
            T = now;
            k.available(now);
            PBT_CHECK(k.Rx == Rx, what << ": " << k.Rx.size() << " bytes are left unread, expected " << Rx.size() << "\n" << Trace);
            bool throws = false;
            try {
                P->CheckPortOpen();
            } catch (const TSerialDeviceException&) {
                throws = true;
            }
            PBT_CHECK(throws == !Open, what << ": CheckPortOpen() disagrees with the state of the port\n" << Trace);
            if (!Tcp) {
                for (auto r: k.ClosedWithInitial)
                    PBT_CHECK(r, what << ": the device is closed without restoring its attributes\n" << Trace);
                if (Open) {
                    auto d = decode(k.Line);
                    PBT_CHECK(d == Applied.str(), what << ": the device is set to " << d << ", expected " << Applied.str() << "\n" << Trace);
                }
            }
        }
        // bytes that will arrive; gaps are chosen around the given timeouts
        void genArrivals(int64_t first, int64_t gap, size_t maxBytes)
        {
            if (PeerCloses != INT64_MAX)
                return;
            auto at = Rx.empty() ? T : std::max(T, Rx.back().first);
            size_t chunks = g.size(0, 6);
            std::string s;
            for (size_t i = 0; i < chunks; ++i) {
                auto lim = i == 0 ? first : gap;
                switch (g.weighted({4, 4, 2, 1})) {
                    case 0:
                        at += int64_t(g.uniform(0, uint64_t(lim / 2 / US))) * US;
                        break;
                    case 1:
                        at += lim - 200 * US;
                        break;
                    case 2:
                        at += lim + 5 * MS + int64_t(g.uniform(0, 100)) * MS;
                        break;
                    case 3:
                        break;
                }
                auto n = g.size(1, maxBytes);
                std::vector<uint8_t> b;
                for (size_t j = 0; j < n; ++j)
                    b.push_back(uint8_t(g.below(256)));
                for (auto x: b)
                    Rx.emplace_back(at, x);
                k.arrive(at, b);
                s += " [" + hex(b) + "] at " + std::to_string(at / US);
            }
            if (!s.empty())
                log("  arrives:" + s);
            if (Tcp && g.chance(1, 12)) {
                at += int64_t(g.uniform(0, 700)) * MS;
                PeerCloses = k.RemoteCloseAt = at;
                k.LazyReset = g.flip();
                log("  the peer closes at " + std::to_string(at / US));
            }
        }
        void opWrite()
        {
            std::vector<uint8_t> b;
            auto n = g.size(1, 40);
            for (size_t i = 0; i < n; ++i)
                b.push_back(uint8_t(g.below(256)));
            auto fault = Open ? g.weighted({12, 1, 1, 1}) : 0;
            Exc e = Exc::None;
            log("write " + hex(b) + (fault == 1 ? " (EIO)" : fault == 2 ? " (EPIPE)" : fault == 3 ? " (partial)" : ""));
            auto before = k.Out.size();
            std::vector<uint8_t> sent = b;
            auto start = T;
            if (!Open) {
                sent.clear();
                if (!Tcp)
                    e = Exc::Device;
            } else {
                // received before the request: not an answer to it
                take(SIZE_MAX);
                bool gone = Tcp && PeerCloses <= T;
                if (fault == 1) {
                    k.FailWrite = EIO;
                    e = Exc::Device;
                    sent.clear();
                } else if (fault == 2 || (gone && !k.LazyReset)) {
                    if (fault == 2)
                        k.FailWrite = EPIPE;
                    e = Exc::Device;
                    closeModel();
                    sent.clear();
                    label("write: EPIPE");
                } else if (gone) {
                    sent.clear();
                    LI = T;
                } else if (fault == 3) {
                    k.PartialWrite = g.uniform(0, n - 1);
                    sent.resize(k.PartialWrite);
                    e = Exc::Device;
                } else {
                    if (!Tcp)
                        T += Cur.bytes(int64_t(n));
                    LI = T;
                }
                if (fault)
                    nontrivial();
            }
            run("write", e, [&] {
                if (g.flip())
                    P->WriteBytes(b);
                else
                    P->WriteBytes(b.data(), int(b.size()));
            });
            k.FailWrite = 0;
            k.PartialWrite = SIZE_MAX;
            std::vector<uint8_t> out;
            for (size_t i = before; i < k.Out.size(); ++i) {
                out.insert(out.end(), k.Out[i].Data.begin(), k.Out[i].Data.end());
                PBT_CHECK(k.Out[i].At <= start + 20 * US, "write: a part of the data is sent " << (k.Out[i].At - start) / US << " us later\n" << Trace);
                if (!Tcp)
                    PBT_CHECK(decode(k.Out[i].Tio) == Applied.str(), "write: sent with " << decode(k.Out[i].Tio) << ", expected " << Applied.str() << "\n" << Trace);
            }
            PBT_CHECK(out == sent, "write: sent [" << hex(out) << "], expected [" << hex(sent) << "]\n" << Trace);
        }
        void opReadFrame()
        {
            int64_t rt = g.chance(1, 8) ? -1 * MS : int64_t(g.range(0, 300)) * MS;
            int64_t ft = int64_t(g.range(0, 100)) * MS;
            size_t size = g.chance(1, 20) ? 0 : g.size(1, 40);
            auto tr = responseTimeout(rt), tf = frameTimeout(ft);
            auto pred = g.weighted({3, 3, 2});
            size_t need = g.uniform(1, size + 5);
            uint8_t term = uint8_t(g.below(8));
            if (Open)
                genArrivals(tr, tf, 12);
            auto fault = Open ? g.weighted({16, 1, 1}) : 0;
            log("read up to " + std::to_string(size) + " bytes, response " + std::to_string(rt / MS) + " ms, frame " + std::to_string(ft / MS) + " ms" +
                (pred == 1 ? ", until " + std::to_string(need) + " bytes" : pred == 2 ? ", until byte < " + std::to_string(term) : "") +
                (fault == 1 ? " (FIONREAD fails)" : fault == 2 ? " (read fails)" : ""));
            auto complete = [&](const uint8_t* b, size_t n) { return pred == 1 ? n >= need : pred == 2 ? n > 0 && b[n - 1] < term : false; };
            // model
            auto start = T;
            Exc e = Exc::None;
            std::vector<uint8_t> want;
            int64_t firstAt = 0;
            size_t chunks = 0;
            if (!Open) {
                if (!Tcp)
                    e = Exc::Device;
            } else if (size) {
                auto timeout = tr;
                while (want.size() < size && !complete(want.data(), want.size())) {
                    if (!waitModel(timeout))
                        break;
                    if (fault) {
                        e = Exc::Device;
                        // the end of the stream is seen before anything is read
                        if (fault == 2 && (Rx.empty() || Rx.front().first > T)) {
                            e = Exc::Transient;
                            closeModel();
                        }
                        break;
                    }
                    auto b = take(size - want.size());
                    if (b.empty()) {
                        e = Exc::Transient;
                        closeModel();
                        label("read: closed by the peer");
                        nontrivial();
                        break;
                    }
                    if (want.empty())
                        firstAt = T;
                    want.insert(want.end(), b.begin(), b.end());
                    ++chunks;
                    timeout = tf;
                }
                if (e == Exc::None) {
                    if (want.empty())
                        e = Exc::Timeout;
                    else {
                        LI = T;
                    }
                }
            }
            if (!Tcp && Open && e == Exc::None) {
                T += Cur.bits(1);
                LI = T;
            }
            if (chunks > 1 || (!want.empty() && !Rx.empty()))
                nontrivial();
            labelIf(chunks > 1, "read: several chunks");
            labelIf(!want.empty() && !Rx.empty(), "read: something is left for later");
            labelIf(e == Exc::Timeout, "read: timeout");
            k.FailIoctl = fault == 1 ? EIO : 0;
            k.FailRead = fault == 2 ? EIO : 0;
            std::vector<uint8_t> buf(size);
            TReadFrameResult res;
            run("read frame", e, [&] {
                res = P->ReadFrame(buf.data(),
                                   size,
                                   microseconds(rt / US),
                                   microseconds(ft / US),
                                   pred ? TPort::TFrameCompletePred([&](uint8_t* b, size_t n) {
                                       PBT_CHECK(b == buf.data() && n <= size, "the predicate gets a wrong buffer");
                                       return complete(b, n);
                                   })
                                        : TPort::TFrameCompletePred());
            });
            k.FailIoctl = k.FailRead = 0;
            if (e == Exc::None) {
                PBT_EQ(res.Count, want.size(), "read frame: number of bytes\n" << Trace);
                buf.resize(res.Count);
                PBT_CHECK(buf == want, "read frame: got [" << hex(buf) << "], expected [" << hex(want) << "]\n" << Trace);
                if (!want.empty())
                    PBT_EQ(res.ResponseTime.count(), (firstAt - start) / US, "read frame: response time\n" << Trace);
            }
        }
        void opReadByte()
        {
            int64_t rt = g.chance(1, 8) ? -1 * MS : int64_t(g.range(0, 300)) * MS;
            auto tr = responseTimeout(rt);
            if (Open)
                genArrivals(tr, tr, 3);
            log("read a byte, timeout " + std::to_string(rt / MS) + " ms");
            Exc e = Exc::None;
            std::vector<uint8_t> want;
            if (!Open)
                e = Exc::Device;
            else if (!waitModel(tr))
                e = Exc::Transient;
            else {
                want = take(1);
                if (want.empty())
                    e = Exc::Device; // end of the stream
                else {
                    LI = T;
                    if (!Tcp) {
                        T += Cur.bits(1);
                        LI = T;
                    }
                }
            }
            uint8_t b = 0;
            run("read a byte", e, [&] { b = P->ReadByte(microseconds(rt / US)); });
            if (e == Exc::None)
                PBT_EQ(int(b), int(want[0]), "read a byte\n" << Trace);
        }
        void opSkipNoise()
        {
            if (Open && PeerCloses == INT64_MAX && g.chance(2, 3)) {
                auto at = Rx.empty() ? T : std::max(T, Rx.back().first);
                auto n = g.size(0, 30);
                for (size_t i = 0; i < n; ++i) {
                    at += g.chance(1, 8) ? int64_t(g.uniform(1200, 3000)) * US : int64_t(g.uniform(0, 900)) * US;
                    std::vector<uint8_t> b(g.size(1, 3), uint8_t(i));
                    for (auto x: b)
                        Rx.emplace_back(at, x);
                    k.arrive(at, b);
                }
                log("  " + std::to_string(n) + " chunks of noise until " + std::to_string(at / US));
            }
            log("skip noise");
            Exc e = Exc::None;
            if (Open && !skipNoiseModel(e)) {
                // too long to predict: it must end somehow
                auto tries = k.OpenTries.size();
                try {
                    P->SkipNoise();
                } catch (const TSerialDeviceException&) {
                }
                resync("skip noise", k.OpenTries.size() > tries);
                return;
            }
            run("skip noise", e, [&] { P->SkipNoise(); });
        }
        // takes the state of the port after an operation whose outcome is not predicted
        void resync(const std::string& what, bool reopened)
        {
            T = sim::nowNs();
            Open = P->IsOpen();
            Rx.assign(k.Rx.begin(), k.Rx.end());
            PeerCloses = k.RemoteCloseAt;
            if (reopened)
                Applied = Cur;
            LI = UNKNOWN;
            settle(what);
        }
        void opEndlessNoise()
        {
            if (!Open || PeerCloses != INT64_MAX)
                return;
            bool reopen = !Tcp && g.chance(1, 3);
            k.Rx.clear();
            Rx.clear();
            k.NoisePeriodNs = int64_t(g.uniform(50, 900)) * US;
            k.NoiseNext = T + k.NoisePeriodNs;
            bool endless = g.chance(2, 3);
            if (!endless)
                k.NoiseUntil = T + int64_t(g.uniform(1, 900)) * MS;
            log(std::string(reopen ? "reopen" : "skip noise") + " while a byte comes every " + std::to_string(k.NoisePeriodNs / US) + " us" +
                (endless ? "" : " until " + std::to_string(k.NoiseUntil / US)));
            nontrivial();
            label("endless noise");
            auto tries = k.OpenTries.size();
            bool transient = false, threw = false;
            std::string msg;
            try {
                if (reopen)
                    P->Reopen();
                else
                    P->SkipNoise();
            } catch (const TSerialDeviceTransientErrorException& e) {
                transient = threw = true;
                msg = e.what();
            } catch (const TSerialDeviceException& e) {
                threw = true;
                msg = e.what();
            }
            auto spent = sim::nowNs() - T;
            PBT_CHECK(spent < 3000 * MS, "noise: gives up only after " << spent / MS << " ms\n" << Trace);
            tries = k.OpenTries.size() - tries;
            PBT_CHECK(tries <= 3 + size_t(reopen), "noise: the port is opened " << tries << " times\n" << Trace);
            if (endless)
                PBT_CHECK(transient, "noise: endless flow of data is not reported as a transient error (" << (threw ? msg : "no error") << ")\n" << Trace);
            else if (!threw) {
                auto silent = sim::nowNs() - std::min(k.NoiseUntil / k.NoisePeriodNs * k.NoisePeriodNs, k.NoiseUntil);
                (void)silent;
                PBT_CHECK(k.available(sim::nowNs()) == 0, "noise: something is left\n" << Trace);
            }
            k.NoisePeriodNs = 0;
            k.NoiseUntil = INT64_MAX;
            k.Rx.clear();
            resync("noise", tries > 0);
        }
        void opSleep()
        {
            auto d = int64_t(g.range(0, 100000)) * US;
            log("pause of " + std::to_string(d / US) + " us since the last interaction");
            if (LI == UNKNOWN) {
                P->SleepSinceLastInteraction(microseconds(d / US));
                PBT_CHECK(sim::nowNs() <= T + d, "pause of " << (sim::nowNs() - T) / US << " us\n" << Trace);
                T = sim::nowNs();
                return;
            }
            if (LI != NEVER)
                T = std::max(T, LI + d);
            run("pause", Exc::None, [&] { P->SleepSinceLastInteraction(microseconds(d / US)); });
        }
        void opApply()
        {
            auto l = genLine(g);
            bool fails = Open && !Tcp && g.chance(1, 8);
            log("apply settings " + l.str() + (fails ? " (fails)" : ""));
            if (Tcp) {
                run("apply settings", Exc::None, [&] { P->ApplySerialPortSettings(l.cpp()); });
                return;
            }
            if (!Open) {
                // RPC requests are not executed on closed ports
                return;
            }
            k.FailSetattr = fails;
            if (!fails) {
                Cur = Applied = l;
                take(SIZE_MAX);
            }
            run("apply settings", fails ? Exc::Any : Exc::None, [&] { P->ApplySerialPortSettings(l.cpp()); });
            k.FailSetattr = 0;
            checkTimes();
        }
        void opReset()
        {
            bool fails = Open && !Tcp && g.chance(1, 8);
            log(std::string("reset settings") + (fails ? " (fails)" : ""));
            if (!Tcp && !Open)
                return;
            k.FailSetattr = fails;
            if (!Tcp) {
                Cur = Initial;
                if (!fails) {
                    Applied = Initial;
                    take(SIZE_MAX);
                }
            }
            run("reset settings", fails ? Exc::Any : Exc::None, [&] { P->ResetSerialPortSettings(); });
            k.FailSetattr = 0;
            checkTimes();
        }
        void checkTimes()
        {
            auto n = g.uniform(0, 260);
            auto bytes = Tcp ? ceilDiv(int64_t(n) * 11 * 1000000, 9600) * US : Cur.bytes(int64_t(n));
            auto bits = Tcp ? ceilDiv(int64_t(n) * 1000000, 9600) * US : Cur.bits(int64_t(n));
            auto gotBytes = P->GetSendTimeBytes(double(n)).count() * US, gotBits = P->GetSendTimeBits(n).count() * US;
            // the time a transmission takes is never underestimated
            PBT_CHECK(gotBytes >= bytes && gotBytes <= bytes + 1 * US, "time to send " << n << " bytes: " << gotBytes / US << " us, expected " << bytes / US << "\n" << Trace);
            PBT_CHECK(gotBits >= bits && gotBits <= bits + 1 * US, "time to send " << n << " bits: " << gotBits / US << " us, expected " << bits / US << "\n" << Trace);
        }
        void opClose()
        {
            log("close");
            closeModel();
            run("close", Exc::None, [&] { P->Close(); });
        }
        void openModel(Exc& e)
        {
            if (Tcp) {
                if (k.FailResolve || k.FailOpen) {
                    e = Exc::Device;
                    return;
                }
                Rx.clear();
                PeerCloses = INT64_MAX;
                switch (k.Connect) {
                    case ConnectResult::Immediately:
                        break;
                    case ConnectResult::RefusedNow:
                        e = Exc::Device;
                        return;
                    case ConnectResult::Later:
                    case ConnectResult::RefusedLater:
                        if (k.ConnectDelayNs > 5000 * MS) {
                            T += 5000 * MS;
                            e = Exc::Device;
                            return;
                        }
                        T += k.ConnectDelayNs;
                        if (k.Connect == ConnectResult::RefusedLater) {
                            e = Exc::Device;
                            return;
                        }
                        break;
                    case ConnectResult::Never:
                        T += 5000 * MS;
                        e = Exc::Device;
                        return;
                }
                Open = true;
                LI = T;
                return;
            }
            if (k.FailOpen || k.FailGetattr || k.FailSetattr || k.FailFlush) {
                if (k.FailFlush && !k.FailOpen && !k.FailGetattr && !k.FailSetattr)
                    Applied = Cur;
                e = Exc::Device;
                return;
            }
            Open = true;
            Applied = Cur;
            take(SIZE_MAX);
            LI = T;
            skipNoiseModel(e);
        }
        void opOpen(bool reopen, bool first = false)
        {
            if (reopen ? !Open : Open)
                return;
            // faults
            bool faults = !first && g.chance(1, 3);
            std::string f;
            k.Connect = ConnectResult::Immediately;
            if (Tcp) {
                switch (faults ? g.below(7) : g.below(2)) {
                    case 0:
                        break;
                    case 1:
                        k.Connect = ConnectResult::Later;
                        k.ConnectDelayNs = int64_t(g.uniform(1, 4990)) * MS;
                        f = " (connected in " + std::to_string(k.ConnectDelayNs / MS) + " ms)";
                        break;
                    case 2:
                        k.Connect = ConnectResult::RefusedNow;
                        f = " (refused)";
                        break;
                    case 3:
                        k.Connect = ConnectResult::RefusedLater;
                        k.ConnectDelayNs = int64_t(g.uniform(1, 4990)) * MS;
                        f = " (refused in " + std::to_string(k.ConnectDelayNs / MS) + " ms)";
                        break;
                    case 4:
                        k.Connect = ConnectResult::Never;
                        f = " (no answer)";
                        break;
                    case 5:
                        k.FailOpen = EMFILE;
                        f = " (no socket)";
                        break;
                    case 6:
                        k.FailResolve = 1;
                        f = " (unknown host)";
                        break;
                }
                k.FailNodelay = g.chance(1, 6) ? EINVAL : 0;
            } else if (faults) {
                switch (g.below(4)) {
                    case 0:
                        k.FailOpen = ENODEV;
                        f = " (no device)";
                        break;
                    case 1:
                        k.FailGetattr = EIO;
                        f = " (tcgetattr fails)";
                        break;
                    case 2:
                        k.FailSetattr = 10; // restoring the attributes at closing fails as well
                        f = " (tcsetattr fails)";
                        break;
                    case 3:
                        k.FailFlush = EIO;
                        f = " (tcflush fails)";
                        break;
                }
            }
            log((reopen ? "reopen" : "open") + f);
            if (!f.empty())
                nontrivial();
            if (reopen)
                closeModel();
            Exc e = Exc::None;
            openModel(e);
            auto restored = k.ClosedWithInitial;
            if (k.FailSetattr || k.FailFlush) {
                // what a failed opening leaves in the device is not decided
                try {
                    if (reopen)
                        P->Reopen();
                    else
                        P->Open();
                    PBT_FAIL("opening succeeds though the device can't be set up\n" << Trace);
                } catch (const TSerialDeviceException&) {
                }
                k.ClosedWithInitial = restored;
                k.Line = k.Initial;
                k.FailSetattr = k.FailFlush = 0;
                T = sim::nowNs();
                Rx.assign(k.Rx.begin(), k.Rx.end());
                settle("open");
                return;
            }
            run("open", e, [&] {
                if (reopen)
                    P->Reopen();
                else
                    P->Open();
            });
            if (Open && Tcp) {
                auto& fd = k.Fds.begin()->second;
                PBT_CHECK(!fd.NonBlock, "the socket is left non-blocking\n" << Trace);
                PBT_CHECK(fd.NoDelay || k.FailNodelay, "TCP_NODELAY is not set\n" << Trace);
            }
            k.FailOpen = k.FailGetattr = k.FailResolve = k.FailNodelay = 0;
            k.Connect = ConnectResult::Immediately;
        }
        void opIdle()
        {
            auto d = int64_t(g.range(0, 2000)) * MS;
            if (Open)
                genArrivals(std::max<int64_t>(d, 400 * US), std::max<int64_t>(d / 2, 400 * US), 5);
            log("idle " + std::to_string(d / MS) + " ms");
            sim::advanceNs(d);
            T += d;
        }
        void opMinimal()
        {
            MinResponse = g.chance(1, 3) ? -1 * MS : int64_t(g.range(0, 800)) * MS;
            log("minimal response timeout " + std::to_string(MinResponse / MS) + " ms");
            P->SetMinimalResponseTimeout(microseconds(MinResponse / US));
        }
        void make()
        {
            Tcp = g.flip();
            Initial = Cur = Applied = genLine(g);
            if (Tcp)
                Base = std::make_shared<TTcpPort>(TTcpPortSettings("gateway", 502));
            else
                Base = std::make_shared<TSerialPort>(TSerialPortSettings(DEV, Initial.cpp()));
            P = Base;
        }
    };

    void logicCase(Gen& g)
    {
        Case c(g);
        c.make();
        int64_t maxFail = g.pick({5000, 0, 1000, 300, -1}), reopenMs = g.pick({5000, 1000, 100});
        int cycles = int(g.pick({2, 0, 1, 5, -1}));
        TPortOpenCloseLogic::TSettings s;
        s.MaxFailTime = milliseconds(maxFail);
        s.ConnectionMaxFailCycles = cycles;
        s.ReopenTimeout = milliseconds(reopenMs);
        TPortOpenCloseLogic logic(s, steady_clock::now);
        c.log("open/close logic: max fail time " + std::to_string(maxFail) + " ms, fail cycles " + std::to_string(cycles) + ", reopen timeout " +
              std::to_string(reopenMs) + " ms" + (c.Tcp ? ", TCP" : ", serial"));
        label("open/close logic");
        int64_t nextTry = INT64_MIN, lastOk = 0;
        int failed = 0;
        bool closedOnce = false, reopened = false;
        auto n = g.size(2, 60);
        for (size_t i = 0; i < n; ++i) {
            auto dt = int64_t(g.range(1, 3000)) * MS + 137 * US;
            sim::advanceNs(dt);
            c.T = sim::nowNs();
            // a poll cycle
            bool openFails = g.chance(1, 3), ok = g.chance(1, 3);
            bool open = c.P->IsOpen();
            PBT_EQ(open, c.Open, "the port changes its state by itself\n" << c.Trace);
            auto tries = c.k.OpenTries.size();
            c.k.FailOpen = openFails ? ENODEV : 0;
            bool allowed = !open && c.T >= nextTry, threw = false;
            c.log("cycle: " + std::string(open ? "" : openFails ? "opening would fail, " : "opening would succeed, ") + (ok ? "exchange succeeds" : "all exchanges fail"));
            auto started = c.T;
            try {
                logic.OpenIfAllowed(c.P);
            } catch (const TSerialDeviceException&) {
                threw = true;
            }
            tries = c.k.OpenTries.size() - tries;
            PBT_EQ(tries, size_t(allowed), "attempts to open the port\n" << c.Trace);
            PBT_EQ(threw, allowed && openFails, "failure to open is reported\n" << c.Trace);
            if (allowed) {
                if (openFails)
                    nextTry = started + reopenMs * MS;
                else {
                    c.Open = true;
                    lastOk = sim::nowNs();
                    failed = 0;
                    reopened |= closedOnce;
                }
            }
            PBT_EQ(c.P->IsOpen(), c.Open, "port is open after OpenIfAllowed\n" << c.Trace);
            c.k.FailOpen = 0;
            sim::advanceNs(int64_t(g.range(1, 1000)) * MS + 11 * US);
            c.T = sim::nowNs();
            if (c.Open) {
                if (ok) {
                    lastOk = c.T;
                    failed = 0;
                } else {
                    ++failed;
                    if (maxFail >= 0 && cycles >= 0 && c.T - lastOk > maxFail * MS && failed >= cycles) {
                        c.Open = false;
                        closedOnce = true;
                    }
                }
            }
            logic.CloseIfNeeded(c.P, !ok);
            PBT_EQ(c.P->IsOpen(), c.Open, "port is open after CloseIfNeeded: " << failed << " failed cycles, " << (c.T - lastOk) / MS << " ms without success\n" << c.Trace);
            PBT_EQ(c.k.Fds.size(), size_t(c.Open), "number of open descriptors\n" << c.Trace);
            PBT_CHECK(c.k.Misuse.empty(), c.k.Misuse[0] << "\n" << c.Trace);
        }
        if (reopened)
            nontrivial();
        c.P.reset();
        c.Base.reset();
        PBT_CHECK(c.k.Fds.empty(), "a descriptor is left open\n" << c.Trace);
        if (wantSample())
            sample(c.Trace);
    }
}

void property(Gen& g)
{
    static bool once = [] {
        Debug.SetEnabled(false);
        Warn.SetEnabled(false);
        return true;
    }();
    (void)once;
    sim::resetClock();
    if (g.chance(1, 6)) {
        logicCase(g);
        return;
    }
    Case c(g);
    c.make();
    if (g.chance(1, 3)) {
        // the object the rest of the service works with
        c.P = std::make_shared<TFeaturePort>(c.Base, g.flip(), g.flip());
        label("through TFeaturePort");
    }
    c.log(std::string(c.Tcp ? "TCP port" : "serial port " + c.Initial.str()));
    label(c.Tcp ? "tcp" : "serial");
    c.checkTimes();
    if (!g.chance(1, 12))
        c.opOpen(false, true);
    auto n = g.size(1, 18);
    for (size_t i = 0; i < n; ++i) {
        switch (g.weighted({6, 8, 3, 3, 3, 2, 2, 1, 2, 1, 2, 1, 1})) {
            case 0:
                c.opWrite();
                break;
            case 1:
                c.opReadFrame();
                break;
            case 2:
                c.opReadByte();
                break;
            case 3:
                c.opSkipNoise();
                break;
            case 4:
                c.opSleep();
                break;
            case 5:
                c.opApply();
                break;
            case 6:
                c.opReset();
                break;
            case 7:
                c.opClose();
                break;
            case 8:
                c.opOpen(false);
                break;
            case 9:
                c.opOpen(true);
                break;
            case 10:
                c.opIdle();
                break;
            case 11:
                c.opMinimal();
                break;
            case 12:
                c.opEndlessNoise();
                break;
        }
        if (!c.Open && g.chance(1, 2))
            c.opOpen(false);
    }
    c.Ser.reset();
    c.P.reset();
    c.Base.reset();
    PBT_CHECK(c.k.Fds.empty(), "a descriptor is left open when the port is destroyed\n" << c.Trace);
    PBT_CHECK(c.k.Misuse.empty(), c.k.Misuse[0] << "\n" << c.Trace);
    if (wantSample())
        sample(c.Trace);
}
