// E01: conditions in templates: value of any well-formed condition for any set of parameters.
#include "expression_evaluator.h"
#include "pbt.h"
#include <map>
#include <memory>
#include <set>
const char* PROPERTY_ID = "E01";
const char* NONTRIVIAL_RULE =
    "one case = one condition tree printed with random redundant brackets and evaluated for several parameter sets. "
    "Non-trivial: at least two operators, or an operator with a parameter that is not set";
using namespace pbt;

namespace
{
    struct Node
    {
        int Op = 0; // 0 number, 1 ident, 2 isDefined, 3.. operators
        int32_t Num = 0;
        std::string Name;
        std::unique_ptr<Node> L, R;
    };
    const char* OPS[] = {"==", "!=", ">", "<", ">=", "<=", "||", "&&"};
    int Prio(int op) // higher binds tighter
    {
        switch (op) {
            case 2:
            case 3:
            case 4:
            case 5:
                return 4;
            case 0:
            case 1:
                return 3;
            case 7:
                return 2;
            default:
                return 1;
        }
    }
    const std::vector<std::string> NAMES = {"a", "b", "c", "p1", "long_Name_2", "isDefined", "Z"};

    std::unique_ptr<Node> Make(Gen& g, unsigned depth)
    {
        auto n = std::make_unique<Node>();
        if (depth == 0 || g.chance(1, 4)) {
            switch (g.weighted({3, 3, 1})) {
                case 0:
                    n->Op = 1;
                    n->Name = g.pick(NAMES);
                    break;
                case 1:
                    n->Op = 0;
                    n->Num = g.chance(1, 4) ? int32_t(g.bits(32)) : g.irange(-2, 3);
                    break;
                default:
                    n->Op = 2;
                    n->Name = g.pick(NAMES);
            }
            return n;
        }
        n->Op = 3 + g.below(8);
        n->L = Make(g, depth - 1);
        n->R = Make(g, depth - 1);
        return n;
    }
    void Print(Gen& g, const Node& n, std::string& out, int outer, bool right)
    {
        bool need = false;
        if (n.Op >= 3) {
            int p = Prio(n.Op - 3);
            need = p < outer || (p == outer && right);
        }
        int extra = need ? 1 : 0;
        while (g.chance(1, 8))
            ++extra;
        out.append(extra, '(');
        if (extra)
            outer = 0;
        switch (n.Op) {
            case 0:
                if (n.Num >= 0 && g.chance(1, 10))
                    out += "0";
                out += std::to_string(n.Num);
                break;
            case 1:
                out += n.Name;
                break;
            case 2:
                out += "isDefined(" + n.Name + ")";
                break;
            default:
                Print(g, *n.L, out, Prio(n.Op - 3), false);
                out += OPS[n.Op - 3];
                Print(g, *n.R, out, Prio(n.Op - 3), true);
        }
        out.append(extra, ')');
    }
    using Params = std::map<std::string, int32_t>;
    std::optional<int64_t> Value(const Node& n, const Params& p)
    {
        auto get = [&](const std::string& s) -> std::optional<int64_t> {
            auto it = p.find(s);
            if (it == p.end())
                return std::nullopt;
            return it->second;
        };
        if (n.Op == 0)
            return n.Num;
        if (n.Op == 1)
            return get(n.Name);
        if (n.Op == 2)
            return get(n.Name).has_value();
        auto l = Value(*n.L, p), r = Value(*n.R, p);
        int op = n.Op - 3;
        if (!l || !r)
            return op == 1; // only "not equal" is true when a parameter is not set
        switch (op) {
            case 0:
                return *l == *r;
            case 1:
                return *l != *r;
            case 2:
                return *l > *r;
            case 3:
                return *l < *r;
            case 4:
                return *l >= *r;
            case 5:
                return *l <= *r;
            case 6:
                return *l != 0 || *r != 0;
            default:
                return *l != 0 && *r != 0;
        }
    }
    size_t Ops(const Node& n)
    {
        return n.Op < 3 ? 0 : 1 + Ops(*n.L) + Ops(*n.R);
    }
    void Names(const Node& n, std::set<std::string>& s)
    {
        if (n.Op == 1 || n.Op == 2)
            s.insert(n.Name);
        if (n.Op >= 3) {
            Names(*n.L, s);
            Names(*n.R, s);
        }
    }
    struct P: Expressions::IParams
    {
        const Params& V;
        mutable std::set<std::string> Asked;
        P(const Params& v): V(v)
        {}
        std::optional<int32_t> Get(const std::string& name) const override
        {
            Asked.insert(name);
            auto it = V.find(name);
            if (it == V.end())
                return std::nullopt;
            return it->second;
        }
    };
}

void property(Gen& g)
{
    auto n = Make(g, g.size(0, 5));
    std::string text;
    Print(g, *n, text, 0, false);
    g.note(text);
    Expressions::TParser parser;
    std::unique_ptr<Expressions::TAstNode> ast;
    try {
        ast = parser.Parse(text);
    } catch (const std::exception& e) {
        PBT_FAIL("condition " << text << " is refused: " << e.what());
    }
    std::set<std::string> names;
    Names(*n, names);
    auto deps = Expressions::GetDependencies(ast.get());
    PBT_CHECK(deps == std::vector<std::string>(names.begin(), names.end()),
              "condition " << text << ": " << deps.size() << " parameters it depends on, expected " << names.size());
    bool undef = false;
    for (int k = 0; k < 4; ++k) {
        Params p;
        std::string ps;
        for (auto& s: NAMES) {
            if (g.chance(2, 3)) {
                p[s] = g.chance(1, 6) ? int32_t(g.bits(32)) : g.irange(-2, 3);
                ps += " " + s + "=" + std::to_string(p[s]);
            } else if (names.count(s)) {
                undef = true;
            }
        }
        g.note("with" + ps);
        P pp(p);
        bool got;
        try {
            got = Expressions::Eval(ast.get(), pp);
        } catch (const std::exception& e) {
            PBT_FAIL("condition " << text << " with" << ps << " can't be evaluated: " << e.what());
        }
        auto v = Value(*n, p);
        bool want = v && *v != 0;
        PBT_EQ(got, want, "condition " << text << " with" << ps);
        labelIf(want, "true");
        labelIf(!want, "false");
    }
    evaluations(4);
    auto ops = Ops(*n);
    labelIf(ops >= 2, "several operators");
    labelIf(undef && ops, "operator and a parameter that is not set");
    labelIf(ops > 10, "more than 10 operators");
    if (ops >= 2 || (ops && undef))
        nontrivial();
    if (wantSample())
        sample(text);
}
