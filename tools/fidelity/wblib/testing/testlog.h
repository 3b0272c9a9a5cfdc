#pragma once
#include <regex>
// Minimal TLoggedFixture: only used by tools/fidelity/run.sh, which runs the repository's own tests over /verif/shim.
#include <wblib/json_utils.h>
#include <wblib/log.h>
#include <wblib/utils.h>
#include <algorithm>
#include <cstdint>
#include <fstream>
#include <gtest/gtest.h>
#include <iomanip>
#include <mutex>
#include <sstream>
#include <string>
#include <vector>
namespace WBMQTT
{
    namespace Testing
    {
        inline ::testing::AssertionResult ArraysMatch(const std::vector<uint8_t>& a, const std::vector<uint8_t>& b)
        {
            if (std::equal(std::begin(a), std::end(a), std::begin(b), std::end(b)))
                return ::testing::AssertionSuccess();
            return ::testing::AssertionFailure() << "arrays differ";
        }
        inline ::testing::AssertionResult JsonsMatch(const Json::Value& a, const Json::Value& b)
        {
            if (a == b)
                return ::testing::AssertionSuccess();
            return ::testing::AssertionFailure() << a.toStyledString() << " != " << b.toStyledString();
        }
        using WBMQTT::HexDump;
        class TLoggedFixture: public ::testing::Test
        {
        public:
            enum EMode
            {
                E_Normal,
                E_Unordered
            };
            struct TItem
            {
                TLoggedFixture* F;
                std::shared_ptr<std::stringstream> S;
                bool Keep;
                TItem(TLoggedFixture* f, bool keep): F(f), S(std::make_shared<std::stringstream>()), Keep(keep)
                {}
                template<class T> TItem& operator<<(const T& v)
                {
                    *S << v;
                    return *this;
                }
                TItem& operator<<(const std::vector<uint8_t>& v)
                {
                    *S << HexDump(v);
                    return *this;
                }
                ~TItem()
                {
                    if (Keep) {
                        std::lock_guard<std::mutex> lk(F->M);
                        F->Lines.push_back(std::string(F->Ind * 4, ' ') + S->str());
                    }
                }
            };
            TItem Emit()
            {
                return TItem(this, true);
            }
            TItem Note()
            {
                return TItem(this, false);
            }
            void SetMode(EMode m)
            {
                Mode = m;
            }
            static std::string GetDataFilePath(const std::string& s)
            {
                return "/repo/test/" + s;
            }
            static void SetExecutableName(const std::string&)
            {}
            void TearDown() override
            {
                auto info = ::testing::UnitTest::GetInstance()->current_test_info();
                std::string fn =
                    std::string("/repo/test/") + info->test_case_name() + "." + info->name() + ".dat";
                std::ifstream f(fn);
                if (!f) {
                    if (!Lines.empty())
                        ADD_FAILURE() << "no " << fn;
                    return;
                }
                std::vector<std::string> exp;
                std::string l;
                while (std::getline(f, l))
                    exp.push_back(l);
                auto trim = [](std::vector<std::string> v) {
                    std::string all;
                    for (auto& s: v)
                        all += s + "\n";
                    std::vector<std::string> r;
                    std::stringstream ss(all);
                    std::string t;
                    while (std::getline(ss, t)) {
                        while (!t.empty() && isspace((unsigned char)t.back()))
                            t.pop_back();
                        // traffic of MQTT is not reproduced by the shim
                        static const std::regex mqtt("\\s*(Publish:|Subscribe:|Unsubscribe|\\(retain\\)|-> |stop:|>>> ).*");
                        if (!t.empty() && !std::regex_match(t, mqtt))
                            r.push_back(t);
                    }
                    return r;
                };
                auto a = trim(Lines), b = trim(exp);
                if (auto dir = getenv("FIDELITY_DUMP")) {
                    std::ofstream o(std::string(dir) + "/" + info->test_case_name() + "." + info->name());
                    for (auto& x: a)
                        o << x << "\n";
                }
                if (Mode == E_Unordered) {
                    std::sort(a.begin(), a.end());
                    std::sort(b.begin(), b.end());
                }
                if (a != b) {
                    size_t i = 0;
                    while (i < a.size() && i < b.size() && a[i] == b[i])
                        ++i;
                    ADD_FAILURE() << "line " << i << ": got '" << (i < a.size() ? a[i] : "<end>") << "' expected '"
                                  << (i < b.size() ? b[i] : "<end>") << "'";
                }
            }
            std::mutex M;
            std::vector<std::string> Lines;
            int Ind = 0;
            EMode Mode = E_Normal;
        };
        struct TTestLogIndent
        {
            TLoggedFixture& F;
            TTestLogIndent(TLoggedFixture& f): F(f)
            {
                ++F.Ind;
            }
            ~TTestLogIndent()
            {
                --F.Ind;
            }
        };
    }
}
