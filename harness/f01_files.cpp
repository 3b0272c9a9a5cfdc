// F01: file helpers: search order, complete writes, directory walks.
#include "file_utils.h"
#include "pbt.h"
#include <algorithm>
#include <filesystem>
#include <map>
#include <set>
#include <unistd.h>
const char* PROPERTY_ID = "F01";
const char* NONTRIVIAL_RULE =
    "one case = a scratch directory with generated entries and one walk, search or write. Non-trivial: at least two "
    "entries and a pattern or list that matches some of them but not all";
using namespace pbt;
namespace fs = std::filesystem;

static std::string Name(Gen& g)
{
    static const std::vector<std::string> parts = {"a", "b", ".json", "config-", "tmp", ".jinja", " ", "\xd0\xb0", "Z", "0", "_"};
    std::string s;
    size_t n = g.range(1, 4);
    for (size_t i = 0; i < n; ++i)
        s += g.pick(parts);
    return s;
}

void property(Gen& g)
{
    auto dir = scratch() + "/f01." + std::to_string(getpid());
    fs::remove_all(dir);
    fs::create_directory(dir);
    std::map<std::string, std::string> files; // name -> content, directories have no content
    std::set<std::string> dirs;
    size_t n = g.size(0, 8);
    std::ostringstream log;
    for (size_t i = 0; i < n; ++i) {
        auto name = Name(g);
        if (files.count(name) || dirs.count(name) || name == "." || name == "..")
            continue;
        if (g.chance(1, 6)) {
            fs::create_directory(dir + "/" + name);
            dirs.insert(name);
            log << "dir ";
        } else {
            auto b = g.bytes(0, 20);
            std::string content(b.begin(), b.end());
            // twice: the second write replaces the first completely
            if (g.flip())
                WriteToFile(dir + "/" + name, content + std::string(g.range(0, 5000), 'x'));
            WriteToFile(dir + "/" + name, content);
            files[name] = content;
        }
        log << quote(name) << " ";
    }
    for (auto& f: files) {
        std::ifstream s;
        OpenWithException(s, dir + "/" + f.first);
        std::string c((std::istreambuf_iterator<char>(s)), {});
        PBT_CHECK(c == f.second, "file " << quote(f.first) << " has " << c.size() << " bytes, " << f.second.size() << " were written");
    }
    std::set<std::string> all = dirs;
    for (auto& f: files)
        all.insert(f.first);
    g.note(log.str());
    bool nt = false;
    switch (g.weighted({2, 3, 4, 2, 1})) {
        case 0: { // full walk
            std::multiset<std::string> seen;
            IterateDir(dir, [&](const std::string& s) {
                seen.insert(s);
                return false;
            });
            PBT_CHECK(std::vector<std::string>(seen.begin(), seen.end()) == std::vector<std::string>(all.begin(), all.end()),
                      log.str() << ": walk visits " << seen.size() << " entries of " << all.size());
            size_t stopAt = g.range(1, 5), calls = 0;
            IterateDir(dir, [&](const std::string& s) { return ++calls == stopAt; });
            PBT_EQ(calls, std::min(stopAt, all.size()), log.str() << ": entries visited before the stop");
            nt = all.size() > 1;
            label("walk");
            break;
        }
        case 1:
        case 2: {
            bool sort = g.flip();
            static const std::vector<std::string> pats = {"", "a", ".json", "config", "tmp", "zz", "0", "b.", "."};
            auto pat = g.pick(pats);
            std::vector<std::string> match;
            for (auto& s: all)
                if (s.find(pat) != std::string::npos)
                    match.push_back(dir + "/" + s);
            std::sort(match.begin(), match.end());
            size_t stopAt = g.flip() ? 0 : g.range(1, 4);
            std::vector<std::string> seen;
            auto res = IterateDirByPattern(
                dir,
                pat,
                [&](const std::string& s) {
                    seen.push_back(s);
                    return seen.size() == stopAt;
                },
                sort);
            auto what = log.str() + " pattern " + quote(pat) + (sort ? " sorted" : "") + " stop at " + std::to_string(stopAt);
            g.note(what);
            bool stopped = stopAt && stopAt <= match.size();
            PBT_EQ(seen.size(), stopped ? stopAt : match.size(), what << ": visited entries");
            if (sort)
                PBT_CHECK(std::equal(seen.begin(), seen.end(), match.begin()), what << ": visited in another order");
            auto u = seen;
            std::sort(u.begin(), u.end());
            PBT_CHECK(std::unique(u.begin(), u.end()) == u.end(), what << ": visited twice");
            for (auto& s: u)
                PBT_CHECK(std::binary_search(match.begin(), match.end(), s), what << ": visited " << s);
            PBT_EQ(res, stopped ? seen.back() : std::string(), what << ": result");
            nt = match.size() != all.size() && match.size();
            label(sort ? "sorted search" : "search");
            break;
        }
        case 3: {
            std::vector<std::string> list;
            std::string want, first;
            size_t k = g.range(0, 5);
            for (size_t i = 0; i < k; ++i) {
                std::string nm = (g.flip() && !files.empty()) ? std::next(files.begin(), g.below(files.size()))->first : "missing" + std::to_string(i);
                list.push_back(dir + "/" + nm);
                if (files.count(nm) && first.empty()) {
                    first = nm;
                    want = files[nm];
                }
            }
            std::ifstream f;
            bool ok = TryOpen(list, f);
            PBT_EQ(ok, !first.empty(), log.str() << ": one of " << k << " files can be opened");
            if (ok) {
                std::string c((std::istreambuf_iterator<char>(f)), {});
                PBT_CHECK(c == want, log.str() << ": content is not that of the first file that exists, " << quote(first));
            }
            nt = !first.empty() && k > 1;
            label("first of a list");
            break;
        }
        default: {
            bool thrown = false;
            try {
                IterateDir(dir + "/no such", [](auto&) { return false; });
            } catch (const TNoDirError&) {
                thrown = true;
            }
            PBT_CHECK(thrown, "walk over a missing directory is silent");
            thrown = false;
            try {
                IterateDirByPattern(dir + "/no such", "a", [](auto&) { return false; }, g.flip());
            } catch (const TNoDirError&) {
                thrown = true;
            }
            PBT_CHECK(thrown, "search in a missing directory is silent");
            thrown = false;
            try {
                std::ifstream f;
                OpenWithException(f, dir + "/no such");
            } catch (const std::runtime_error& e) {
                thrown = std::string(e.what()).find(dir + "/no such") != std::string::npos;
            }
            PBT_CHECK(thrown, "missing file is opened silently or not named");
            thrown = false;
            try {
                WriteToFile(dir + "/no such/f", "x");
            } catch (const std::runtime_error&) {
                thrown = true;
            }
            PBT_CHECK(thrown, "write that can't be done is silent");
            label("missing");
        }
    }
    if (nt && all.size() >= 2)
        nontrivial();
    if (wantSample())
        sample(log.str());
    fs::remove_all(dir);
}
