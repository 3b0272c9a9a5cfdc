#include "pbt.h"
#include <algorithm>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>

namespace pbt
{
    namespace
    {
        const size_t MAX_CHOICES = 1 << 17;
        const size_t MAX_HASHES = 1 << 20;
        const size_t MAX_LABELS = 96;
        const size_t MAX_SAMPLES = 4;

        struct Shared
        {
            uint64_t Count;
            uint64_t Choices[MAX_CHOICES];
            char Msg[8192];
            uint64_t Failed;
            uint64_t Done;
            uint64_t Cases, Evaluations, NonTrivial;
            uint64_t CurWorkerCase;
            uint64_t LabelCount;
            char LabelName[MAX_LABELS][64];
            uint64_t Labels[MAX_LABELS];
            uint64_t SampleCount;
            char Samples[MAX_SAMPLES][1500];
            uint64_t HashCount;
            uint64_t Hashes[MAX_HASHES];
            char Notes[1 << 17];
            uint64_t NotesLen;
        };

        Shared* Sh = nullptr;
        bool CurNonTrivial = false;
        std::unordered_set<std::string> CurLabels;
        std::string CurSample;
        bool CollectNotes = false;
        std::string ScratchDir;
        double CpuLimit = 20;

        uint64_t splitmix(uint64_t& x)
        {
            uint64_t z = (x += 0x9e3779b97f4a7c15ull);
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            return z ^ (z >> 31);
        }

        double RealNow()
        {
            // clock_gettime may be replaced by a check that owns the clock
            struct timespec ts;
            syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
            return double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9;
        }

        void RealSleepMs(int ms)
        {
            struct timespec ts = {ms / 1000, (ms % 1000) * 1000000L};
            syscall(SYS_nanosleep, &ts, nullptr);
        }

        Shared* NewShared()
        {
            void* p =
                mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (p == MAP_FAILED) {
                perror("mmap");
                _exit(3);
            }
            return (Shared*)p;
        }

        // CPU time of the whole process, so a starved machine is not taken for a hang
        void ArmCpuTimer()
        {
            struct itimerval t = {};
            t.it_value.tv_sec = (long)CpuLimit;
            setitimer(ITIMER_PROF, &t, nullptr);
        }

        void OnProf(int)
        {
            if (Sh && !Sh->Failed) {
                snprintf(Sh->Msg, sizeof(Sh->Msg), "the case did not end within %d s of CPU time", (int)CpuLimit);
                Sh->Failed = 2;
            }
            _exit(78);
        }

        // runs one case, returns true if it failed
        bool RunCase(Gen& g)
        {
            CurNonTrivial = false;
            CurLabels.clear();
            CurSample.clear();
            ArmCpuTimer();
            try {
                property(g);
                return false;
            } catch (const Violation& v) {
                snprintf(Sh->Msg, sizeof(Sh->Msg), "%s", v.Msg.c_str());
            } catch (const std::exception& e) {
                snprintf(Sh->Msg,
                         sizeof(Sh->Msg),
                         "unexpected exception %s: %s",
                         typeid(e).name(),
                         e.what());
            } catch (...) {
                snprintf(Sh->Msg, sizeof(Sh->Msg), "unexpected exception");
            }
            Sh->Failed = 1;
            return true;
        }

        void CommitCase()
        {
            ++Sh->Cases;
            for (const auto& l: CurLabels) {
                size_t i = 0;
                for (; i < Sh->LabelCount; ++i) {
                    if (l == Sh->LabelName[i])
                        break;
                }
                if (i == Sh->LabelCount) {
                    if (i == MAX_LABELS)
                        continue;
                    snprintf(Sh->LabelName[i], 64, "%s", l.c_str());
                    ++Sh->LabelCount;
                }
                ++Sh->Labels[i];
            }
            if (CurNonTrivial) {
                ++Sh->NonTrivial;
                uint64_t h = 1469598103934665603ull;
                for (size_t i = 0; i < Sh->Count; ++i) {
                    h ^= Sh->Choices[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
                    h *= 1099511628211ull;
                }
                if (Sh->HashCount < MAX_HASHES) {
                    Sh->Hashes[Sh->HashCount++] = h;
                }
            }
            if (!CurSample.empty() && Sh->SampleCount < MAX_SAMPLES) {
                snprintf(Sh->Samples[Sh->SampleCount++], 1500, "%s", CurSample.c_str());
            }
        }

        void RedirectStd(const std::string& file)
        {
            int fd = open(file.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
            if (fd >= 0) {
                dup2(fd, 1);
                dup2(fd, 2);
                close(fd);
            }
        }

        void WorkerMain(uint64_t seed, int worker, uint64_t cases, double deadline)
        {
            signal(SIGPROF, OnProf);
            RedirectStd(ScratchDir + "/worker" + std::to_string(worker) + ".log");
            if (setup)
                setup();
            for (uint64_t i = 0; i < cases; ++i) {
                if ((i & 7) == 0 && RealNow() > deadline)
                    break;
                Gen g;
                uint64_t x = seed * 0x100000001b3ull + uint64_t(worker) * 0x632be59bd9b4e019ull + i * 0xd1342543de82ef95ull;
                g.S[0] = splitmix(x);
                g.S[1] = splitmix(x);
                g.Out = Sh->Choices;
                g.OutCount = &Sh->Count;
                g.OutMax = MAX_CHOICES;
                Sh->Count = 0;
                Sh->CurWorkerCase = i;
                if (RunCase(g)) {
                    _exit(77);
                }
                CommitCase();
            }
            Sh->Done = 1;
            _exit(0);
        }

        std::string FileHead(const std::string& f, size_t n)
        {
            std::ifstream s(f);
            std::string l, r;
            bool interesting = false;
            while (std::getline(s, l)) {
                if (l.find("ERROR: ") != std::string::npos || l.find("runtime error") != std::string::npos ||
                    l.find("terminate called") != std::string::npos || l.find("Assertion") != std::string::npos)
                    interesting = true;
                if (interesting)
                    r += l + "\n";
                if (r.size() > n)
                    break;
            }
            return r.substr(0, n);
        }

        struct Outcome
        {
            bool Failed = false;
            std::string Msg;
            std::string Notes;
            std::vector<uint64_t> Used;
        };

        Shared* ReplaySh = nullptr;

        Outcome RunChoices(const std::vector<uint64_t>& c, bool notes)
        {
            if (!ReplaySh)
                ReplaySh = NewShared();
            auto sh = ReplaySh;
            sh->Count = 0;
            sh->Failed = 0;
            sh->Msg[0] = 0;
            sh->NotesLen = 0;
            std::string log = ScratchDir + "/replay.log";
            fflush(stdout);
            fflush(stderr);
            pid_t p = fork();
            if (p == 0) {
                signal(SIGPROF, OnProf);
                Sh = sh;
                CollectNotes = notes;
                RedirectStd(log);
                if (setup)
                    setup();
                Gen g;
                g.Replay = true;
                g.In = c.data();
                g.InCount = c.size();
                g.Out = sh->Choices;
                g.OutCount = &sh->Count;
                g.OutMax = MAX_CHOICES;
                _exit(RunCase(g) ? 77 : 0);
            }
            int st = 0;
            // wall-clock guard only against a case that blocks without using CPU
            double t0 = RealNow();
            bool killed = false;
            while (true) {
                pid_t r = waitpid(p, &st, WNOHANG);
                if (r == p)
                    break;
                if (RealNow() - t0 > 120) {
                    kill(p, SIGKILL);
                    waitpid(p, &st, 0);
                    killed = true;
                    break;
                }
                struct timespec ts = {0, 300000};
                syscall(SYS_nanosleep, &ts, nullptr);
            }
            Outcome o;
            o.Used.assign(sh->Choices, sh->Choices + std::min<uint64_t>(sh->Count, MAX_CHOICES));
            o.Notes.assign(sh->Notes, sh->NotesLen);
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && !killed) {
                return o;
            }
            o.Failed = true;
            if (sh->Failed) {
                o.Msg = sh->Msg;
            } else if (killed) {
                o.Msg = "the case blocked for 120 s";
            } else {
                o.Msg = "process died: " +
                        (WIFSIGNALED(st) ? std::string("signal ") + std::to_string(WTERMSIG(st))
                                         : std::string("exit code ") + std::to_string(WEXITSTATUS(st))) +
                        "\n" + FileHead(log, 3000);
            }
            return o;
        }

        std::vector<uint64_t> Shrink(std::vector<uint64_t> cur, double budget, uint64_t& runs)
        {
            double end = RealNow() + budget;
            auto better = [](const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
                if (a.size() != b.size())
                    return a.size() < b.size();
                return a < b;
            };
            auto attempt = [&](const std::vector<uint64_t>& c) {
                if (RealNow() > end || runs > 6000)
                    return false;
                ++runs;
                auto o = RunChoices(c, false);
                if (o.Failed) {
                    auto u = o.Used.size() <= c.size() ? o.Used : c;
                    while (!u.empty() && u.back() == 0)
                        u.pop_back();
                    if (better(u, cur)) {
                        cur = u;
                        return true;
                    }
                }
                return false;
            };
            attempt(cur);
            bool progress = true;
            while (progress && RealNow() < end) {
                progress = false;
                for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1; len /= 2) {
                    for (size_t i = 0; i + len <= cur.size();) {
                        auto c = cur;
                        c.erase(c.begin() + i, c.begin() + i + len);
                        if (attempt(c)) {
                            progress = true;
                        } else {
                            i += len;
                        }
                        if (RealNow() > end)
                            return cur;
                    }
                    if (len == 1)
                        break;
                }
                for (size_t len: {8, 4, 2}) {
                    for (size_t i = 0; i + len <= cur.size(); i += len) {
                        auto c = cur;
                        bool any = false;
                        for (size_t k = 0; k < len; ++k) {
                            any |= c[i + k] != 0;
                            c[i + k] = 0;
                        }
                        if (any && attempt(c))
                            progress = true;
                    }
                }
                // lowering one value while dropping what depended on it (list lengths)
                for (size_t i = 0; i < cur.size() && RealNow() < end; ++i) {
                    if (cur[i] == 0)
                        continue;
                    uint64_t lo = 0;
                    {
                        auto c = cur;
                        c[i] = 0;
                        if (attempt(c)) {
                            progress = true;
                            continue;
                        }
                    }
                    for (size_t drop = 1; drop <= 6 && i < cur.size() && cur[i] > 0 && i + 1 + drop <= cur.size(); ++drop) {
                        auto c = cur;
                        c[i] -= 1;
                        c.erase(c.begin() + i + 1, c.begin() + i + 1 + drop);
                        if (attempt(c)) {
                            progress = true;
                            break;
                        }
                    }
                    while (i < cur.size() && lo + 1 < cur[i] && RealNow() < end) {
                        uint64_t mid = lo + (cur[i] - lo) / 2;
                        auto c = cur;
                        c[i] = mid;
                        if (attempt(c)) {
                            progress = true;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            return cur;
        }

        std::string JsonStr(const std::string& s)
        {
            std::string r = "\"";
            for (unsigned char c: s) {
                if (c == '"' || c == '\\') {
                    r += '\\';
                    r += char(c);
                } else if (c == '\n') {
                    r += "\\n";
                } else if (c < 0x20 || c >= 0x7f) {
                    char t[8];
                    snprintf(t, sizeof(t), "\\u%04x", c);
                    r += t;
                } else {
                    r += char(c);
                }
            }
            return r + "\"";
        }
    }

    uint64_t Gen::raw(uint64_t n)
    {
        uint64_t v;
        if (Replay) {
            size_t i = *OutCount;
            v = i < InCount ? In[i] : 0;
            if (n && v >= n)
                v = n - 1;
        } else {
            // xoroshiro128+
            uint64_t s0 = S[0], s1 = S[1];
            v = s0 + s1;
            s1 ^= s0;
            S[0] = ((s0 << 24) | (s0 >> 40)) ^ s1 ^ (s1 << 16);
            S[1] = (s1 << 37) | (s1 >> 27);
            if (n)
                v = (uint64_t)(((unsigned __int128)v * n) >> 64);
        }
        if (*OutCount < OutMax) {
            Out[(*OutCount)++] = v;
        }
        return v;
    }

    uint64_t Gen::below(uint64_t n)
    {
        return n <= 1 ? 0 : raw(n);
    }

    uint64_t Gen::range(uint64_t lo, uint64_t hi)
    {
        if (lo >= hi)
            return lo;
        auto mode = raw(10);
        if (mode == 0)
            return lo;
        if (mode == 1) // close to lo
            return lo + raw(std::min<uint64_t>(hi - lo, 7) + 1);
        if (mode == 2) // close to hi
            return hi - raw(std::min<uint64_t>(hi - lo, 3) + 1);
        return uniform(lo, hi);
    }

    size_t Gen::size(size_t lo, size_t hi)
    {
        if (lo >= hi)
            return lo;
        auto mode = raw(8);
        size_t span = hi - lo;
        if (mode < 2)
            span = std::min<size_t>(span, 4);
        else if (mode < 5)
            span = std::min<size_t>(span, std::max<size_t>(4, span / 4));
        return lo + raw(span + 1);
    }

    uint64_t Gen::bits(unsigned width)
    {
        uint64_t mask = width >= 64 ? UINT64_MAX : ((uint64_t(1) << width) - 1);
        switch (raw(6)) {
            case 0:
                return raw(std::min<uint64_t>(mask, 15) + (mask == UINT64_MAX && mask < 15 ? 0 : 1)) & mask;
            case 1:
                return (mask - raw(3)) & mask;
            case 2:
                return ((uint64_t(1) << raw(width)) - raw(2)) & mask;
            case 3: // repeated / ascii digits bytes
            {
                uint64_t v = 0;
                for (unsigned i = 0; i < width; i += 8)
                    v |= raw(4) == 0 ? (uint64_t(0xff) << i) : (raw(256) << i);
                return v & mask;
            }
            default:
                return raw(0) & mask;
        }
    }

    std::vector<uint8_t> Gen::bytes(size_t lo, size_t hi)
    {
        std::vector<uint8_t> r(size(lo, hi));
        for (auto& b: r)
            b = uint8_t(raw(256));
        return r;
    }

    size_t Gen::weighted(std::initializer_list<unsigned> w)
    {
        uint64_t sum = 0;
        for (auto x: w)
            sum += x;
        auto v = below(sum);
        size_t i = 0;
        for (auto x: w) {
            if (v < x)
                return i;
            v -= x;
            ++i;
        }
        return 0;
    }

    void Gen::note(const std::string& s)
    {
        if (CollectNotes && Sh->NotesLen + s.size() + 1 < sizeof(Sh->Notes)) {
            memcpy(Sh->Notes + Sh->NotesLen, s.data(), s.size());
            Sh->NotesLen += s.size();
            Sh->Notes[Sh->NotesLen++] = '\n';
        }
    }

    void label(const char* n)
    {
        CurLabels.insert(n);
    }
    void labelIf(bool c, const char* n)
    {
        if (c)
            label(n);
    }
    void nontrivial()
    {
        CurNonTrivial = true;
    }
    void evaluations(uint64_t n)
    {
        if (Sh)
            Sh->Evaluations += n;
    }
    bool wantSample()
    {
        return Sh && (CollectNotes || (Sh->SampleCount < MAX_SAMPLES && Sh->CurWorkerCase % 97 == 5));
    }
    void sample(const std::string& s)
    {
        if (CurSample.empty())
            CurSample = s;
    }
    void fail(const std::string& msg)
    {
        throw Violation{msg};
    }
    std::string hex(const uint8_t* p, size_t n)
    {
        std::string r;
        char t[4];
        for (size_t i = 0; i < n; ++i) {
            snprintf(t, sizeof(t), i ? " %02x" : "%02x", p[i]);
            r += t;
        }
        return r;
    }
    std::string hex(const std::vector<uint8_t>& v)
    {
        return hex(v.data(), v.size());
    }
    std::string quote(const std::string& s)
    {
        return JsonStr(s);
    }
    const std::string& scratch()
    {
        return ScratchDir;
    }
}

using namespace pbt;

// usage: check --seed N --cases N --seconds S --jobs J --scratch DIR --out FILE --replay-out FILE [--replay FILE]
int main(int argc, char** argv)
{
    uint64_t seed = 1, cases = 1000;
    double seconds = 60, shrinkBudget = 45;
    int jobs = 8;
    std::string out, replayOut, replayIn;
    for (int i = 1; i + 1 < argc; i += 2) {
        std::string a = argv[i], v = argv[i + 1];
        if (a == "--seed")
            seed = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--cases")
            cases = strtoull(v.c_str(), nullptr, 10);
        else if (a == "--seconds")
            seconds = atof(v.c_str());
        else if (a == "--jobs")
            jobs = atoi(v.c_str());
        else if (a == "--scratch")
            ScratchDir = v;
        else if (a == "--out")
            out = v;
        else if (a == "--replay-out")
            replayOut = v;
        else if (a == "--replay")
            replayIn = v;
        else if (a == "--shrink-seconds")
            shrinkBudget = atof(v.c_str());
        else if (a == "--cpu-limit")
            CpuLimit = atof(v.c_str());
    }
    if (!replayIn.empty()) {
        std::ifstream f(replayIn);
        std::string all((std::istreambuf_iterator<char>(f)), {});
        std::vector<uint64_t> c;
        auto p = all.find("\"choices\"");
        p = p == std::string::npos ? p : all.find('[', p);
        if (p == std::string::npos) {
            fprintf(stderr, "no choices in %s\n", replayIn.c_str());
            return 3;
        }
        ++p;
        while (p < all.size() && all[p] != ']') {
            if (isdigit((unsigned char)all[p])) {
                char* e;
                c.push_back(strtoull(&all[p], &e, 10));
                p = e - all.data();
            } else {
                ++p;
            }
        }
        auto o = RunChoices(c, true);
        printf("%s\n%s\n", o.Notes.c_str(), o.Failed ? ("FAILED: " + o.Msg).c_str() : "passed");
        return o.Failed ? 1 : 0;
    }

    double t0 = RealNow();
    double deadline = t0 + seconds;
    std::vector<Shared*> sh(jobs);
    std::vector<pid_t> pid(jobs);
    for (int w = 0; w < jobs; ++w) {
        sh[w] = NewShared();
        uint64_t n = cases / jobs + (uint64_t(w) < cases % jobs ? 1 : 0);
        fflush(stdout);
        pid[w] = fork();
        if (pid[w] == 0) {
            Sh = sh[w];
            WorkerMain(seed, w, n, deadline);
        }
    }
    // a failing worker ends the search of the others after a grace period
    std::vector<int> failed;
    int alive = jobs;
    double stopAt = deadline + 150;
    std::vector<double> lastMove(jobs, RealNow());
    std::vector<uint64_t> lastCase(jobs, 0);
    std::vector<bool> blocked(jobs, false);
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < jobs; ++w) {
            if (pid[w] <= 0)
                continue;
            int st = 0;
            if (waitpid(pid[w], &st, WNOHANG) == pid[w]) {
                pid[w] = 0;
                --alive;
                any = true;
                if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) {
                    if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL && !blocked[w]) {
                        continue; // ended by us or by the memory guard
                    }
                    failed.push_back(w);
                    stopAt = std::min(stopAt, RealNow() + 3);
                }
                continue;
            }
            uint64_t c = sh[w]->Cases;
            if (c != lastCase[w]) {
                lastCase[w] = c;
                lastMove[w] = RealNow();
            } else if (RealNow() - lastMove[w] > 120) {
                blocked[w] = true;
                kill(pid[w], SIGKILL);
            }
        }
        if (RealNow() > stopAt) {
            for (int w = 0; w < jobs; ++w) {
                if (pid[w] > 0)
                    kill(pid[w], SIGKILL);
            }
        }
        if (!any)
            RealSleepMs(10);
    }
    uint64_t total = 0, evals = 0, nontriv = 0, unrepro = 0;
    std::map<std::string, uint64_t> labels;
    std::unordered_set<uint64_t> hashes;
    std::vector<std::string> samples;
    bool finished = true;
    for (int w = 0; w < jobs; ++w) {
        total += sh[w]->Cases;
        evals += sh[w]->Evaluations;
        nontriv += sh[w]->NonTrivial;
        finished = finished && sh[w]->Done;
        for (size_t i = 0; i < sh[w]->LabelCount; ++i)
            labels[sh[w]->LabelName[i]] += sh[w]->Labels[i];
        for (size_t i = 0; i < sh[w]->HashCount; ++i)
            hashes.insert(sh[w]->Hashes[i]);
        for (size_t i = 0; i < sh[w]->SampleCount && samples.size() < 12; ++i)
            samples.push_back(sh[w]->Samples[i]);
    }
    bool violation = false;
    std::string vmsg;
    uint64_t shrinkRuns = 0;
    for (int w: failed) {
        std::vector<uint64_t> c(sh[w]->Choices, sh[w]->Choices + std::min<uint64_t>(sh[w]->Count, MAX_CHOICES));
        int ok = 0;
        for (int i = 0; i < 3; ++i)
            ok += RunChoices(c, false).Failed;
        if (ok < 3) {
            ++unrepro;
            fprintf(stderr,
                    "case of worker %d failed once but only %d of 3 times on replay: %s\n",
                    w,
                    ok,
                    sh[w]->Failed ? sh[w]->Msg : "process died");
            continue;
        }
        auto m = Shrink(c, shrinkBudget, shrinkRuns);
        Outcome o;
        int rep = 0;
        for (int i = 0; i < 3; ++i) {
            auto t = RunChoices(m, true);
            rep += t.Failed;
            if (t.Failed)
                o = t;
        }
        if (rep < 3) {
            m = c;
            o = RunChoices(m, true);
        }
        violation = true;
        vmsg = o.Msg;
        std::ofstream f(replayOut);
        f << "{\n \"property\": " << JsonStr(PROPERTY_ID) << ",\n \"seed\": " << seed
          << ",\n \"original_choices\": " << c.size() << ",\n \"shrink_runs\": " << shrinkRuns
          << ",\n \"message\": " << JsonStr(o.Msg) << ",\n \"case\": " << JsonStr(o.Notes) << ",\n \"choices\": [";
        for (size_t i = 0; i < m.size(); ++i)
            f << (i ? ", " : "") << m[i];
        f << "]\n}\n";
        break;
    }
    std::ofstream f(out);
    f << "{\n \"cases\": " << total << ",\n \"evaluations\": " << std::max(total, evals) << ",\n \"nontrivial\": " << nontriv
      << ",\n \"distinct_nontrivial\": " << hashes.size() << ",\n \"finished\": " << (finished ? "true" : "false")
      << ",\n \"unreproduced\": " << unrepro << ",\n \"search_s\": " << RealNow() - t0
      << ",\n \"rule\": " << JsonStr(NONTRIVIAL_RULE) << ",\n \"violation\": " << (violation ? "true" : "false")
      << ",\n \"message\": " << JsonStr(vmsg) << ",\n \"labels\": {";
    bool first = true;
    for (auto& [k, v]: labels) {
        f << (first ? "" : ", ") << JsonStr(k) << ": " << v;
        first = false;
    }
    f << "},\n \"samples\": [";
    for (size_t i = 0; i < samples.size(); ++i)
        f << (i ? ", " : "") << JsonStr(samples[i]);
    f << "]\n}\n";
    f.close();
    return violation ? 1 : 0;
}
