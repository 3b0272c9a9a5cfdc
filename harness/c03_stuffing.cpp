// C03: byte stuffing round trip for any prefix-free rule set and any data.
#include "bin_utils.h"
#include "pbt.h"
#include <iterator>
#include <set>
const char* PROPERTY_ID = "C03";
const char* NONTRIVIAL_RULE =
    "one case = one rule set (one escape byte, prefix-free codes) and one message. Non-trivial: the message has at least "
    "one byte that has to be escaped";
using namespace pbt;

void property(Gen& g)
{
    std::unordered_map<uint8_t, std::vector<uint8_t>> rules;
    uint8_t esc = g.chance(1, 3) ? 0xdb : g.byte();
    std::vector<uint8_t> special = {esc};
    size_t n = g.range(1, 4);
    for (size_t i = 0; i < n; ++i) {
        uint8_t b = (i == 0 && esc == 0xdb) ? 0xc0 : g.byte();
        if (std::find(special.begin(), special.end(), b) == special.end())
            special.push_back(b);
    }
    std::set<uint8_t> used;
    for (auto s: special) {
        uint8_t x = g.byte();
        // the second byte tells the codes apart and never needs escaping itself
        while (used.count(x) || std::find(special.begin(), special.end(), x) != special.end())
            ++x;
        used.insert(x);
        std::vector<uint8_t> code = {esc, x};
        if (g.chance(1, 5))
            code.push_back(g.byte());
        rules[s] = code;
    }
    std::vector<uint8_t> data;
    size_t len = g.size(0, 24);
    size_t escaped = 0;
    for (size_t i = 0; i < len; ++i) {
        if (g.chance(2, 5))
            data.push_back(g.pick(special));
        else if (g.chance(1, 4))
            data.push_back(g.pick(std::vector<uint8_t>(used.begin(), used.end())));
        else
            data.push_back(g.byte());
        escaped += rules.count(data.back());
    }
    std::ostringstream ns;
    ns << "rules";
    for (auto& r: rules)
        ns << " " << hex({r.first}) << "->" << hex(r.second);
    ns << " data [" << hex(data) << "]";
    g.note(ns.str());
    std::vector<uint8_t> want = {0x77}, got = {0x77};
    for (auto b: data) {
        if (rules.count(b))
            want.insert(want.end(), rules[b].begin(), rules[b].end());
        else
            want.push_back(b);
    }
    BinUtils::ApplyByteStuffing(data, rules, std::back_inserter(got));
    PBT_CHECK(got == want, ns.str() << ": encoded [" << hex(got) << "], expected [" << hex(want) << "]");
    want.erase(want.begin());
    auto dec = want;
    dec.shrink_to_fit();
    BinUtils::DecodeByteStuffing(dec, rules);
    PBT_CHECK(dec == data, ns.str() << ": encoded [" << hex(want) << "] decoded to [" << hex(dec) << "]");
    // a terminator after the message stays in place
    uint8_t term = 0;
    while (term == esc)
        ++term;
    auto framed = want;
    framed.push_back(term);
    BinUtils::DecodeByteStuffing(framed, rules);
    auto e = data;
    e.push_back(term);
    PBT_CHECK(framed == e, ns.str() << ": framed [" << hex(want) << " " << hex({term}) << "] decoded to [" << hex(framed) << "]");
    // arbitrary (damaged) data: no growth, bytes that start no code are kept
    auto junk = g.bytes(0, 12);
    if (g.flip())
        junk.push_back(esc);
    auto j = junk;
    j.shrink_to_fit();
    BinUtils::DecodeByteStuffing(j, rules);
    std::vector<uint8_t> model;
    for (size_t i = 0; i < junk.size();) {
        bool hit = false;
        for (auto& r: rules) {
            if (i + r.second.size() <= junk.size() && std::equal(r.second.begin(), r.second.end(), junk.begin() + i)) {
                model.push_back(r.first);
                i += r.second.size();
                hit = true;
                break;
            }
        }
        if (!hit)
            model.push_back(junk[i++]);
    }
    PBT_CHECK(j == model, ns.str() << ": [" << hex(junk) << "] decoded to [" << hex(j) << "], expected [" << hex(model) << "]");
    evaluations(3);
    labelIf(!data.empty() && rules.count(data.back()), "last byte is escaped");
    labelIf(escaped > 0, "has escapes");
    if (escaped)
        nontrivial();
    if (wantSample())
        sample(ns.str());
}
