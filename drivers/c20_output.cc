// C20: what is written as JSON or as YAML reads back as the value it was.
#include "mc.hpp"
#include "jv.hpp"
#include "ref_utf8.hpp"
#include "utils/so/JsonIo.h"
#include "utils/so/YamlIo.h"
#include <sstream>

using namespace drafter::utils;

namespace
{
    using jv::J;

    so::Value make(const J& j)
    {
        switch (j.kind) {
            case jv::Null:
                return so::Null{};
            case jv::True:
                return so::True{};
            case jv::False:
                return so::False{};
            case jv::String:
                return so::String{ j.text };
            case jv::Number:
                return so::Number{ j.text };
            case jv::Object: {
                so::Object o;
                for (auto& m : j.members)
                    o.data.emplace_back(m.first, make(m.second));
                return o;
            }
            default: {
                so::Array a;
                for (auto& i : j.items)
                    a.data.emplace_back(make(i));
                return a;
            }
        }
    }

    // may it stand in a YAML stream?
    bool printable(std::uint32_t c)
    {
        return c == 0x9 || c == 0xA || c == 0xD || (c >= 0x20 && c <= 0x7E) || c == 0x85 || (c >= 0xA0 && c <= 0xD7FF)
            || (c >= 0xE000 && c <= 0xFFFD && c != 0xFEFF) || (c >= 0x10000 && c <= 0x10FFFF);
    }

    // JSON layout: two spaces for each level, one value or member a line
    std::string layout(const J& j, int indent)
    {
        auto in = [](int n) { return "\n" + std::string(2 * n, ' '); };
        std::string o;
        if (j.kind == jv::Object) {
            for (auto& m : j.members)
                o += (o.empty() ? "" : ",") + in(indent + 1) + "\"" + m.first + "\": " + layout(m.second, indent + 1);
            return "{" + o + (o.empty() ? "" : in(indent)) + "}";
        }
        if (j.kind == jv::Array) {
            for (auto& i : j.items)
                o += (o.empty() ? "" : ",") + in(indent + 1) + layout(i, indent + 1);
            return "[" + o + (o.empty() ? "" : in(indent)) + "]";
        }
        return jv::show(j);
    }

    template <typename F>
    void reads(mc::Ctx& ctx, const char* how, const std::string& out, const J& want, F read)
    {
        ctx.step();
        try {
            const J got = read(out);
            if (got != want)
                ctx.violation(std::string("written as ") + how + " it reads as " + jv::show(got) + ": " + mc::quote(out));
        } catch (const jv::Bad& b) {
            ctx.violation(std::string("written as ") + how + " it cannot be read, " + b.what() + ": " + mc::quote(out));
        }
        ctx.outcome(out);
    }

    void check(mc::Ctx& ctx, const J& j, bool plain)
    {
        const so::Value v = make(j);
        std::ostringstream json, packed, yaml;
        ctx.expect(&so::serialize_json(json, v) == &json, "another stream is returned");
        so::serialize_json(packed, v, so::packed{});
        so::serialize_yaml(yaml, v);
        reads(ctx, "JSON", json.str(), j, jv::readJson);
        reads(ctx, "packed JSON", packed.str(), j, jv::readJson);
        reads(ctx, "YAML", yaml.str(), j, jv::readYaml);
        if (plain) {
            if (json.str() != layout(j, 0))
                ctx.violation("JSON is laid out as " + mc::quote(json.str()));
            if (packed.str() != jv::show(j))
                ctx.violation("packed JSON is laid out as " + mc::quote(packed.str()));
        }
        for (auto& c : ref::decode(yaml.str()))
            if (!printable(c.cp))
                ctx.violation("a character that is not printable in YAML: " + mc::quote(yaml.str()));
        ctx.state(jv::show(j));
        ctx.trace();
    }
}

SCENARIO("characters", 8)
{
    // every character, alone and among others, as a string and as a key
    for (std::uint32_t c = 0; c < 0x110000; c += 16) {
        if (!ctx.mine() || ctx.full())
            continue;
        char name[32];
        std::snprintf(name, sizeof name, "U+%04X", c);
        if (!ctx.begin(name))
            continue;
        J a(jv::Array);
        for (std::uint32_t d = c; d < c + 16; ++d) {
            if (d >= 0xD800 && d <= 0xDFFF)
                continue;
            const std::string x = ref::encode(d);
            a.items.push_back(jv::str(x));
            a.items.push_back(jv::str("a" + x + "0"));
            a.items.push_back(jv::obj({ { x, jv::str(x + x) }, { "f" + x + "f", J(jv::Null) } }));
        }
        check(ctx, a, false);
    }
}

SCENARIO("strings", 8)
{
    const std::vector<std::string> alphabet{ "\"", "\\", "\n", "/", ":", " ", "#", "-", "'", "n", "0", std::string(1, '\0'), "\x1f", "\x7f",
        "\xC2\x85", "\xE2\x80\xA8", "\xF0\x9F\x98\x80" };
    const unsigned max = ctx.thorough ? 4 : 3;
    std::uint64_t n = 0;
    for (unsigned len = 0; len <= max; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            ++n;
            if (ctx.mine() && !ctx.full()) {
                std::string s;
                for (auto i : at)
                    s += alphabet[i];
                auto describe = [&] { return mc::quote(s); };
                if (ctx.beginN(n, describe)) {
                    check(ctx, jv::str(s), false);
                    check(ctx, jv::obj({ { s, jv::arr({ jv::str(s) }) } }), false);
                }
            }
            unsigned i = 0;
            while (i < len && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("words", 4)
{
    // words that mean something else than themselves where they are not quoted, in every letter case
    std::uint64_t n = 0;
    for (auto w : { "null", "true", "false", "yes", "no", "on", "off", "y", "n", "~", "", "-", "--", "- a", "?", "? a", "1", "1.5", "-1", "0x1", "1e3", ".inf",
             ".nan", "a: b", "a:", ":", "[", "[]", "{}", "{", "#", "a #b", "&a", "*a", "!a", "|", ">", "'", "%a", "@a", "`a", "...", "---",
             "<<", "=", "element", "a_b", "a-b", "A[b", "a^b", "a`b", "a]b", "data\\structure", "content " }) {
        const std::string s = w;
        for (unsigned mask = 0; mask < (1u << std::min<std::size_t>(s.size(), 5)); ++mask) {
            ++n;
            std::string x = s;
            bool same = true;
            for (unsigned i = 0; i < s.size() && i < 5; ++i)
                if (mask & (1u << i)) {
                    x[i] = static_cast<char>(std::toupper(s[i]));
                    same = same && x[i] == s[i];
                }
            if (!ctx.mine() || ctx.full() || (mask && same))
                continue;
            auto describe = [&] { return mc::quote(x); };
            if (!ctx.beginN(n, describe))
                continue;
            check(ctx, jv::str(x), false);
            check(ctx, jv::obj({ { x, jv::str("v") } }), false);
            check(ctx, jv::arr({ jv::obj({ { x, jv::obj({ { x, J(jv::Null) } }) }, { "z", jv::arr({}) } }) }), false);
        }
    }
}

SCENARIO("shapes", 8)
{
    // every value of up to three levels of up to two items
    std::vector<J> level{ J(jv::Null), J(jv::True), J(jv::False), jv::str(""), jv::str("s"), jv::num("-1.5e3"), J(jv::Object), J(jv::Array) };
    std::uint64_t n = 0;
    auto tell = [&](const J& j) {
        ++n;
        if (!ctx.mine() || ctx.full())
            return;
        auto describe = [&] { return jv::show(j); };
        if (ctx.beginN(n, describe))
            check(ctx, j, true);
    };
    for (auto& j : level)
        tell(j);
    const std::vector<J> leaves = level;
    for (int depth = 1; depth <= (ctx.thorough ? 3 : 3); ++depth) {
        std::vector<J> bigger = leaves;
        auto both = [&](const J& j, bool keep) {
            tell(j);
            if (keep)
                bigger.push_back(j);
        };
        for (std::size_t a = 0; a < level.size(); ++a) {
            both(jv::arr({ level[a] }), true);
            both(jv::obj({ { "k", level[a] } }), true);
            for (std::size_t b = 0; b < level.size(); ++b) {
                // the third level: pairs with a leaf only, in quick
                if (depth == 3 && !ctx.thorough && a >= leaves.size() && b >= leaves.size() && (a * 7 + b) % 5)
                    continue;
                const bool keep = depth == 1;
                both(jv::arr({ level[a], level[b] }), keep);
                both(jv::obj({ { "a", level[a] }, { "b c", level[b] } }), keep);
            }
        }
        level = bigger;
    }
}

SCENARIO("sizes", 4)
{
    // values, strings and keys of any size
    for (unsigned n : { 10, 31, 32, 33, 63, 64, 65, 70, 79, 80, 81, 99, 100, 101, 119, 120, 121, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097, 10000, 65537 })
        for (int form = 0; form < 7; ++form) {
            if (!ctx.mine() || ctx.full() || (form < 4 && n > 4097) || !ctx.begin(std::to_string(n) + " in form " + std::to_string(form)))
                continue;
            J j(form == 0 ? jv::Array : jv::Object);
            std::string s;
            for (unsigned i = 0; i < n; ++i) {
                const std::string t = std::to_string(i);
                const J leaf = i % 4 == 0 ? jv::num(t) : i % 4 == 1 ? jv::str(t) : i % 4 == 2 ? J(jv::True) : J(jv::Null);
                switch (form) {
                    case 0:
                        j.items.push_back(leaf);
                        break;
                    case 1:
                        j.members.emplace_back("k" + t, leaf);
                        break;
                    case 2:
                        j.members.emplace_back(t, jv::arr({ leaf, jv::obj({ { "m", leaf } }) }));
                        break;
                    case 3:
                        j.members.emplace_back("o" + t, jv::arr({}));
                        break;
                    case 4:
                        s += static_cast<char>('a' + i % 26);
                        break;
                    case 5:
                        s += " \n\"\\:x"[i % 6];
                        break;
                    default:
                        s += i % 3 ? "\xC3\xA9" : i % 2 ? "\xF0\x90\x8D\x88" : "\x01";
                }
            }
            if (form < 4)
                check(ctx, j, true);
            else {
                check(ctx, jv::str(s), false);
                check(ctx, jv::obj({ { s, jv::str(s) }, { s + "2", jv::arr({ jv::str(s) }) } }), false);
                check(ctx, jv::num(std::string(n, '7') + ".5"), true);
            }
        }
}

SCENARIO("deep", 1)
{
    for (int d = 1; d <= 100; d += d < 40 ? 1 : 20) {
        if (!ctx.begin("nested " + std::to_string(d) + " deep"))
            continue;
        J a = jv::str("x"), o = jv::num("1");
        for (int i = 0; i < d; ++i) {
            a = jv::arr({ a });
            o = i % 2 ? jv::arr({ o, J(jv::True) }) : jv::obj({ { "k", o }, { "l", J(jv::Object) } });
        }
        check(ctx, a, true);
        check(ctx, o, true);
    }
}

MC_MAIN
