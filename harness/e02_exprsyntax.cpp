// E02: which strings are conditions: the grammar of the documentation, for any string, without crashing.
#include "expression_evaluator.h"
#include "pbt.h"
const char* PROPERTY_ID = "E02";
const char* NONTRIVIAL_RULE =
    "one case = one string made of tokens, of a damaged condition, or of arbitrary bytes. Non-trivial: at least 3 tokens";
using namespace pbt;

namespace
{
    // Recogniser written from the grammar: true if the whole string is an expression
    struct Ref
    {
        const std::string& S;
        size_t I = 0;
        std::vector<std::string> T;
        explicit Ref(const std::string& s): S(s)
        {}
        static bool Al(char c)
        {
            return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z');
        }
        static bool Dg(char c)
        {
            return c >= '0' && c <= '9';
        }
        bool Lex()
        {
            size_t i = 0;
            while (i < S.size()) {
                char c = S[i];
                auto two = S.substr(i, 2);
                if (two == "==" || two == "!=" || two == ">=" || two == "<=" || two == "||" || two == "&&") {
                    T.push_back("o");
                    i += 2;
                } else if (c == '<' || c == '>') {
                    T.push_back("o");
                    ++i;
                } else if (c == '(' || c == ')') {
                    T.push_back(std::string(1, c));
                    ++i;
                } else if (Dg(c) || (c == '-' && i + 1 < S.size() && Dg(S[i + 1]))) {
                    ++i;
                    while (i < S.size() && Dg(S[i]))
                        ++i;
                    T.push_back("n");
                } else if (Al(c)) {
                    size_t b = i;
                    while (i < S.size() && (Al(S[i]) || Dg(S[i]) || S[i] == '_'))
                        ++i;
                    T.push_back(S.substr(b, i - b) == "isDefined" ? "d" : "i");
                } else {
                    return false;
                }
            }
            T.push_back("$");
            return true;
        }
        bool Operand()
        {
            if (T[I] == "d" || T[I] == "i") {
                bool d = T[I] == "d";
                ++I;
                if (T[I] != "(")
                    return true;
                if (!d)
                    return false;
                ++I;
                if (T[I] != "i" && T[I] != "d")
                    return false;
                ++I;
                if (T[I] != ")")
                    return false;
                ++I;
                return true;
            }
            if (T[I] == "n") {
                ++I;
                return true;
            }
            if (T[I] == "(") {
                ++I;
                if (!Cond() || T[I] != ")")
                    return false;
                ++I;
                return true;
            }
            return false;
        }
        bool Cond()
        {
            if (!Operand())
                return false;
            while (T[I] == "o") {
                ++I;
                if (!Operand())
                    return false;
            }
            return true;
        }
        bool Ok()
        {
            return Lex() && Cond() && T[I] == "$";
        }
    };
    const std::vector<std::string> TOKENS = {"a", "(", ")", "==", "1", "!=", "||", "&&", ">", "<", ">=", "<=", "isDefined",
                                             "isDefined(a)", "-1", "b_2", "f(a)", "-", "=", "!", "|", "&", " ", "_", "\xd0\xb0", "0", ".", "00007"};
    // tokens of a well-formed condition
    void Operand(Gen& g, std::vector<std::string>& t, unsigned depth);
    void Cond(Gen& g, std::vector<std::string>& t, unsigned depth)
    {
        static const std::vector<std::string> ops = {"==", "!=", "||", "&&", ">", "<", ">=", "<="};
        size_t n = 1 + g.below(depth > 2 ? 1 : 3);
        for (size_t i = 0; i < n; ++i) {
            if (i)
                t.push_back(g.pick(ops));
            Operand(g, t, depth);
        }
    }
    void Operand(Gen& g, std::vector<std::string>& t, unsigned depth)
    {
        switch (g.weighted({3, 2, 3, depth < 4 ? 3u : 0u})) {
            case 0:
                t.push_back(g.pick({std::string("a"), std::string("b_2"), std::string("isDefined"), std::string("Z")}));
                return;
            case 1:
                t.push_back(g.pick({std::string("1"), std::string("-1"), std::string("007")}));
                return;
            case 2:
                t.insert(t.end(), {"isDefined", "(", "b", ")"});
                return;
            default:
                t.push_back("(");
                Cond(g, t, depth + 1);
                t.push_back(")");
        }
    }
    struct NoParams: Expressions::IParams
    {
        std::optional<int32_t> Get(const std::string&) const override
        {
            return std::nullopt;
        }
    };
}

void property(Gen& g)
{
    std::string s;
    switch (g.weighted({5, 3, 1, 2, 8})) {
        case 0: {
            size_t n = g.size(0, 12);
            for (size_t i = 0; i < n; ++i)
                s += g.chance(2, 3) ? TOKENS[g.below(13)] : g.pick(TOKENS);
            label("tokens");
            break;
        }
        case 1: {
            // a chain that is right, then damaged
            size_t n = g.size(1, 10);
            static const std::vector<std::string> operands = {"a", "1", "(a==1)", "isDefined(b)", "-7", "((b))"};
            for (size_t i = 0; i < n; ++i) {
                if (i)
                    s += TOKENS[3 + (g.below(8) == 1 ? 0 : g.pick(std::vector<int>{0, 2, 3, 4, 5, 6, 7, 8}))];
                s += g.pick(operands);
            }
            size_t k = g.below(3);
            for (size_t i = 0; i < k && !s.empty(); ++i) {
                size_t at = g.below(s.size());
                switch (g.below(3)) {
                    case 0:
                        s.erase(at, 1 + g.below(2));
                        break;
                    case 1:
                        s.insert(at, g.pick(TOKENS));
                        break;
                    default:
                        s[at] = char(g.below(256));
                }
            }
            label("damaged condition");
            break;
        }
        case 2: {
            auto b = g.bytes(0, 30);
            s.assign(b.begin(), b.end());
            label("bytes");
            break;
        }
        case 4: {
            // well-formed, then up to two tokens removed, added, replaced or moved
            std::vector<std::string> t;
            Cond(g, t, 0);
            size_t k = g.below(3);
            for (size_t i = 0; i < k && !t.empty(); ++i) {
                size_t at = g.below(t.size());
                switch (g.below(4)) {
                    case 0:
                        t.erase(t.begin() + at);
                        break;
                    case 1:
                        t.insert(t.begin() + at, TOKENS[g.below(16)]);
                        break;
                    case 2:
                        t[at] = TOKENS[g.below(16)];
                        break;
                    default:
                        std::swap(t[at], t[g.below(t.size())]);
                }
            }
            for (auto& x: t)
                s += x;
            label("edited tokens");
            break;
        }
        default: {
            // brackets
            size_t n = g.size(0, 40);
            s = std::string(n, '(') + "a";
            size_t m = g.chance(1, 2) ? n : g.size(0, 40);
            s += std::string(m, ')');
            if (g.flip())
                s += g.pick(TOKENS);
            label("brackets");
        }
    }
    g.note(quote(s));
    Ref ref(s);
    bool want = ref.Ok();
    Expressions::TParser parser;
    std::unique_ptr<Expressions::TAstNode> ast;
    bool got = false;
    std::string err;
    try {
        ast = parser.Parse(s);
        got = true;
    } catch (const std::runtime_error& e) {
        err = e.what();
    } catch (const std::exception& e) {
        PBT_FAIL(quote(s) << ": unexpected kind of error: " << e.what());
    }
    PBT_CHECK(got == want, quote(s) << (got ? " is accepted" : " is refused: " + err));
    if (got) {
        PBT_CHECK(ast, quote(s) << ": nothing to evaluate");
        NoParams p;
        Expressions::Eval(ast.get(), p);
        Expressions::GetDependencies(ast.get());
    } else {
        PBT_CHECK(!err.empty(), quote(s) << " is refused without an explanation");
        auto at = err.rfind("position ");
        if (at != std::string::npos) {
            auto pos = strtoul(err.c_str() + at + 9, nullptr, 10);
            PBT_CHECK(pos >= 1 && pos <= s.size() + 1, quote(s) << ": error outside of the string: " << err);
        }
    }
    label(want ? "well-formed" : "malformed");
    if (ref.T.size() > 3)
        nontrivial();
    if (wantSample())
        sample(quote(s));
}
