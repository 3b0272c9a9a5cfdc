// C04: firmware version order.
#include "common_utils.h"
#include "pbt.h"
const char* PROPERTY_ID = "C04";
const char* NONTRIVIAL_RULE =
    "one case = three version strings (well-formed, related to each other, or garbage). Non-trivial: at least two differ "
    "and both are non-empty";
using namespace pbt;

namespace
{
    struct Ver
    {
        std::vector<uint64_t> Num;
        int Kind = 0; // -1 rc, 0 release, 1 wb
        uint64_t Suffix = 0;
        bool WellFormed = true;
        std::string Text;
        void Make()
        {
            Text.clear();
            for (size_t i = 0; i < Num.size(); ++i)
                Text += (i ? "." : "") + std::to_string(Num[i]);
            if (Kind)
                Text += (Kind < 0 ? "-rc" : "+wb") + std::to_string(Suffix);
        }
    };
    uint64_t Number(Gen& g)
    {
        switch (g.weighted({8, 2, 1})) {
            case 0:
                return g.range(0, 20);
            case 1:
                return g.range(0, 1000);
            default:
                return g.range(0, 999999999);
        }
    }
    Ver Make(Gen& g, const Ver* base)
    {
        Ver v;
        if (base && base->WellFormed && !base->Num.empty() && g.chance(3, 5)) {
            v = *base;
            switch (g.below(5)) {
                case 0:
                    v.Num[g.below(v.Num.size())] = Number(g);
                    break;
                case 1:
                    v.Kind = int(g.below(3)) - 1;
                    break;
                case 2:
                    v.Suffix = Number(g);
                    break;
                case 3:
                    v.Num[v.Num.size() - 1] += g.range(0, 2);
                    break;
                default:
                    if (!v.Kind)
                        v.Num.push_back(g.range(0, 3));
            }
            v.Make();
            return v;
        }
        if (g.chance(1, 6)) {
            v.WellFormed = false;
            size_t n = g.size(0, 20);
            static const std::string alphabet = "0123456789....--rc+wbX \xff\x01";
            for (size_t i = 0; i < n; ++i)
                v.Text += alphabet[g.below(alphabet.size())];
            if (g.chance(1, 4))
                v.Text += std::to_string(g.bits(64)) + std::to_string(g.bits(64));
            if (v.Text.empty()) {
                v.Num.clear();
                v.WellFormed = true;
            }
            return v;
        }
        size_t n = g.chance(1, 5) ? 1 + g.below(5) : 3;
        for (size_t i = 0; i < n; ++i)
            v.Num.push_back(Number(g));
        v.Kind = int(g.weighted({3, 2, 2}));
        v.Kind = v.Kind == 2 ? -1 : v.Kind;
        v.Suffix = Number(g);
        v.Make();
        return v;
    }
    int Sign(int a)
    {
        return a < 0 ? -1 : a > 0 ? 1 : 0;
    }
    int Cmp(const std::string& a, const std::string& b)
    {
        try {
            int r = util::CompareVersionStrings(a, b);
            PBT_CHECK(r >= -1 && r <= 1, quote(a) << " vs " << quote(b) << ": result " << r);
            return r;
        } catch (const std::exception& e) {
            PBT_FAIL(quote(a) << " vs " << quote(b) << ": no order, " << e.what());
        }
    }
    // nullopt: the order of these two is not defined by the documentation
    bool Ref(const Ver& a, const Ver& b, int& r)
    {
        if (!a.WellFormed || !b.WellFormed)
            return false;
        if (a.Num.empty() || b.Num.empty()) {
            r = int(!a.Num.empty()) - int(!b.Num.empty());
            return true;
        }
        size_t n = std::max(a.Num.size(), b.Num.size());
        bool sameLen = a.Num.size() == b.Num.size();
        for (size_t i = 0; i < n; ++i) {
            // the position where the suffix of the shorter one would be compared to a number
            if (!sameLen && ((i >= a.Num.size() && a.Kind) || (i >= b.Num.size() && b.Kind)))
                return false;
            uint64_t x = i < a.Num.size() ? a.Num[i] : 0, y = i < b.Num.size() ? b.Num[i] : 0;
            if (x != y) {
                r = x < y ? -1 : 1;
                return true;
            }
        }
        auto key = [](const Ver& v) { return std::make_pair(v.Kind, v.Kind ? v.Suffix : 0); };
        if (a.Kind != b.Kind)
            r = a.Kind < b.Kind ? -1 : 1;
        else if (key(a) != key(b))
            r = key(a) < key(b) ? -1 : 1;
        else
            r = 0;
        return true;
    }
}

void property(Gen& g)
{
    Ver v[3];
    v[0] = Make(g, nullptr);
    v[1] = Make(g, &v[0]);
    v[2] = Make(g, &v[1]);
    std::string ns = quote(v[0].Text) + " " + quote(v[1].Text) + " " + quote(v[2].Text);
    g.note(ns);
    int c[3][3];
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            c[i][j] = Cmp(v[i].Text, v[j].Text);
    for (int i = 0; i < 3; ++i) {
        PBT_EQ(c[i][i], 0, quote(v[i].Text) << " compared to itself");
        for (int j = 0; j < 3; ++j) {
            PBT_EQ(c[i][j], -c[j][i], quote(v[i].Text) << " and " << quote(v[j].Text) << " in the two orders");
            int r;
            if (Ref(v[i], v[j], r))
                PBT_EQ(c[i][j], r, quote(v[i].Text) << " compared to " << quote(v[j].Text));
            for (int k = 0; k < 3; ++k)
                PBT_CHECK(!(c[i][j] <= 0 && c[j][k] <= 0) || c[i][k] <= 0,
                          quote(v[i].Text) << " <= " << quote(v[j].Text) << " <= " << quote(v[k].Text)
                                           << " but the first is after the last");
        }
        PBT_EQ(Cmp("", v[i].Text), v[i].Text.empty() ? 0 : -1, "empty string compared to " << quote(v[i].Text));
    }
    evaluations(12);
    int r;
    labelIf(Ref(v[0], v[1], r) && c[0][1] != 0, "ordered by the documentation");
    labelIf(!v[0].WellFormed || !v[1].WellFormed || !v[2].WellFormed, "has garbage");
    labelIf(v[0].Kind != v[1].Kind && v[0].WellFormed && v[1].WellFormed, "different kinds of suffix");
    labelIf(v[0].Num.size() != v[1].Num.size(), "different lengths");
    if ((v[0].Text != v[1].Text && !v[0].Text.empty() && !v[1].Text.empty()) || (v[1].Text != v[2].Text && !v[1].Text.empty() && !v[2].Text.empty()))
        nontrivial();
    if (wantSample())
        sample(ns);
}
