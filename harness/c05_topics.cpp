// C05: names become usable MQTT topic parts.
#include "common_utils.h"
#include "pbt.h"
const char* PROPERTY_ID = "C05";
const char* NONTRIVIAL_RULE = "one case = one byte string. Non-trivial: it has at least one character that a topic can't have";
using namespace pbt;

void property(Gen& g)
{
    std::string s;
    size_t n = g.size(0, 40);
    static const std::string special = "'\"/+$#";
    for (size_t i = 0; i < n; ++i)
        s += g.chance(1, 3) ? special[g.below(6)] : g.chance(1, 3) ? char(g.below(256)) : char('a' + g.below(26));
    g.note(quote(s));
    std::string want;
    bool bad = false;
    for (char c: s) {
        switch (c) {
            case '\'':
            case '"':
            case '/':
                want += '|';
                bad = true;
                break;
            case '+':
                want += "_plus_";
                bad = true;
                break;
            case '$':
            case '#':
                want += '_';
                bad = true;
                break;
            default:
                want += c;
        }
    }
    PBT_EQ(util::IsValidMqttTopicString(s), !bad, quote(s) << " usable in a topic");
    auto r = util::ConvertToValidMqttTopicString(s);
    PBT_CHECK(r == want, quote(s) << " converted to " << quote(r) << ", expected " << quote(want));
    PBT_CHECK(util::IsValidMqttTopicString(r), quote(s) << ": the result " << quote(r) << " is not usable");
    PBT_CHECK(util::ConvertToValidMqttTopicString(r) == r, quote(s) << ": converting twice changes the result");
    labelIf(bad, "needs conversion");
    if (bad)
        nontrivial();
    if (wantSample())
        sample(quote(s));
}
