// C02: byte ranges to character ranges, over every document of a bounded length and every range into it.
#include "mc.hpp"
#include <set>
#include "ref_utf8.hpp"
#include "ByteBuffer.h"

using namespace mdp;

namespace
{
    struct Doc {
        std::string s;
        std::vector<std::size_t> starts; // byte offset of each character, then the size
        std::vector<std::size_t> charOf; // character each byte belongs to
    };

    Doc make(const std::string& s)
    {
        Doc d;
        d.s = s;
        std::size_t at = 0;
        for (const auto& c : ref::decode(s)) {
            for (std::size_t i = 0; i < c.length; ++i)
                d.charOf.push_back(d.starts.size());
            d.starts.push_back(at);
            at += c.length;
        }
        d.starts.push_back(s.size());
        return d;
    }

    std::string show(const std::vector<Range>& r)
    {
        std::string o;
        for (auto& x : r)
            o += "[" + std::to_string(x.location) + "," + std::to_string(x.length) + ")";
        return o;
    }

    // characters of bytes [loc, loc + len), cut at the end of the document
    Range expected(const Doc& d, std::size_t loc, std::size_t len)
    {
        if (d.s.empty())
            return Range(0, 0);
        std::size_t n = d.starts.size() - 1;
        if (loc >= d.s.size())
            return Range(n, 0);
        std::size_t end = std::min(loc + len, d.s.size());
        std::size_t first = d.charOf[loc];
        std::size_t last = end == d.s.size() ? n : d.charOf[end];
        return Range(first, len == 0 ? 0 : last - first);
    }

    bool same(const Range& a, const Range& b)
    {
        return a.location == b.location && a.length == b.length;
    }

    void index(mc::Ctx& ctx, const Doc& d, ByteBufferCharacterIndex& idx)
    {
        BuildCharacterIndex(idx, d.s);
        ctx.step();
        if (ctx.expect(idx.size() == d.s.size(), "the index has " + std::to_string(idx.size()) + " entries"))
            for (std::size_t i = 0; i < idx.size(); ++i)
                if (!ctx.expect(idx[i] == d.charOf[i], "byte " + std::to_string(i) + " is in character "
                            + std::to_string(idx[i]) + ", expected " + std::to_string(d.charOf[i])))
                    break;
    }

    // every pair of character boundaries, with ends beyond the document: both conversions are exact
    void aligned(mc::Ctx& ctx, const Doc& d)
    {
        const std::string id = "document " + mc::quote(d.s);
        if (!ctx.begin(id))
            return;
        ByteBufferCharacterIndex idx;
        index(ctx, d, idx);
        std::string outcome;
        for (std::size_t a = 0; a < d.starts.size(); ++a) {
            std::vector<std::size_t> ends(d.starts.begin() + static_cast<long>(a), d.starts.end());
            for (std::size_t over : { 1, 2, 9 })
                ends.push_back(d.s.size() + over);
            for (std::size_t e : ends) {
                std::size_t loc = d.starts[a], len = e - loc;
                BytesRangeSet set;
                set.push_back(Range(loc, len));
                const Range want = expected(d, loc, len);
                const auto byBuffer = BytesRangeSetToCharactersRangeSet(set, d.s);
                const auto byIndex = BytesRangeSetToCharactersRangeSet(set, idx);
                ctx.step(2);
                ctx.expect(byBuffer.size() == 1 && same(byBuffer[0], want), "bytes " + show(set) + " are characters "
                        + show(byBuffer) + " (from the text), expected " + show({ want }));
                ctx.expect(byIndex.size() == 1 && same(byIndex[0], want), "bytes " + show(set) + " are characters "
                        + show(byIndex) + " (from the index), expected " + show({ want }));
                ctx.outcome(show({ want }));

                // the text itself
                const std::string text = MapBytesRangeSet(set, d.s);
                const std::string wantText = d.s.empty() || loc + len > d.s.size() + 1 ? "" : d.s.substr(loc, len);
                ctx.step();
                ctx.expect(text == wantText, "bytes " + show(set) + " map to " + mc::quote(text));
            }
        }
        ctx.state(d.s);
        ctx.trace();
        ctx.sample(id);
    }

    // any range at all, inside characters and beyond the end too: the result lies within the document
    void anyRange(mc::Ctx& ctx, const Doc& d)
    {
        const std::string id = "document " + mc::quote(d.s);
        if (!ctx.begin(id))
            return;
        ByteBufferCharacterIndex idx;
        index(ctx, d, idx);
        const std::size_t n = d.starts.size() - 1;
        for (std::size_t loc = 0; loc <= d.s.size() + 3; ++loc)
            for (std::size_t len = 0; len <= d.s.size() + 4; ++len) {
                BytesRangeSet set;
                set.push_back(Range(loc, len));
                const auto byIndex = BytesRangeSetToCharactersRangeSet(set, idx);
                ctx.step();
                const Range want = expected(d, loc, len);
                ctx.expect(byIndex.size() == 1 && same(byIndex[0], want), "bytes " + show(set) + " are characters "
                        + show(byIndex) + " (from the index), expected " + show({ want }));
                const auto byBuffer = BytesRangeSetToCharactersRangeSet(set, d.s);
                ctx.step();
                ctx.expect(byBuffer.size() == 1 && byBuffer[0].location <= d.s.size()
                        && byBuffer[0].length <= d.s.size() && byBuffer[0].length <= len,
                    "bytes " + show(set) + " are characters " + show(byBuffer) + " (from the text)");
                const std::string wantText = d.s.empty() || loc > d.s.size() || loc + len > d.s.size() + 1
                    ? ""
                    : d.s.substr(loc, len);
                ctx.step();
                try {
                    ctx.expect(MapBytesRangeSet(set, d.s) == wantText, "bytes " + show(set) + " map to "
                            + mc::quote(MapBytesRangeSet(set, d.s)));
                } catch (const std::exception& e) {
                    ctx.violation("mapping bytes " + show(set) + " throws " + e.what());
                }
                if (loc >= d.s.size())
                    ctx.expect(byBuffer.size() == 1 && same(byBuffer[0], Range(n, 0)), "bytes " + show(set)
                            + " beyond the end are characters " + show(byBuffer) + " (from the text)");
                ctx.outcome(show({ want }));
            }
        ctx.state(d.s);
        ctx.trace();
    }

    template <typename F>
    void documents(mc::Ctx& ctx, const std::vector<std::string>& alphabet, unsigned maxChars, F&& f)
    {
        for (unsigned len = 0; len <= maxChars; ++len) {
            std::vector<unsigned> pick(len, 0);
            for (;;) {
                if (ctx.full())
                    return;
                if (ctx.mine()) {
                    std::string s;
                    for (unsigned p : pick)
                        s += alphabet[p];
                    f(make(s));
                }
                unsigned i = 0;
                while (i < len && ++pick[i] == alphabet.size())
                    pick[i++] = 0;
                if (i == len)
                    break;
            }
        }
    }
}

SCENARIO("well-formed", 8)
{
    documents(ctx, { "a", "\n", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x90\x8D\x88" }, ctx.thorough ? 7 : 6,
        [&](const Doc& d) { aligned(ctx, d); });
}

SCENARIO("one-of-each-lead", 1)
{
    // each first byte of a multi-byte character, at its smallest and largest
    for (std::uint32_t cp : { 0x1u, 0x7Fu, 0x80u, 0x7FFu, 0x800u, 0xFFFu, 0x1000u, 0xCFFFu, 0xD7FFu, 0xE000u, 0xFFFDu,
             0xFFFFu, 0x10000u, 0x3FFFFu, 0x40000u, 0xFFFFFu, 0x100000u, 0x10FFFFu })
        for (std::uint32_t cq : { 0x41u, 0xE9u, 0x20ACu, 0x10348u })
            aligned(ctx, make("x" + ref::encode(cp) + ref::encode(cq) + ref::encode(cp) + "\n"));
    for (std::uint32_t cp = 0x80; cp < 0x800; ++cp)
        aligned(ctx, make("x" + ref::encode(cp) + "y\n"));
}

SCENARIO("long", 8)
{
    // documents of any length: ranges at and over every power of two, and sets of as many ranges
    static const char* const FORMS[] = { "one byte each", "two bytes each", "three bytes each", "four bytes each", "mixed",
        "one byte each, then others" };
    const std::vector<std::string> chars{ "a", "\xC3\xA9", "\xE2\x82\xAC", "\xF0\x90\x8D\x88" };
    for (std::size_t n : { 60, 64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513, 1000, 1024, 1025, 2047, 2049, 4095, 4097, 5000, 16385, 66000 })
        for (int form = 0; form < 6; ++form) {
            if (!ctx.mine() || ctx.full() || !ctx.begin(std::to_string(n) + " characters, " + FORMS[form]))
                continue;
            std::string s;
            for (std::size_t i = 0; i < n; ++i)
                s += i % 50 == 49 ? "\n" : chars[form < 4 ? form : form == 4 ? i * i % 7 % 4 : i + 9 < n ? 0 : i % 4];
            const Doc d = make(s);
            ByteBufferCharacterIndex idx;
            index(ctx, d, idx);
            std::set<std::size_t> at{ 0, 1, n / 3, n / 2, n - 2, n - 1, n };
            for (std::size_t p = 32; p < n; p *= 2)
                for (std::size_t q : { p - 1, p, p + 1 })
                    at.insert(std::min(q, n));
            for (auto a : at)
                for (auto e : at) {
                    if (e < a || (n > 5000 && e != n && e - a > 3 && a > 1))
                        continue;
                    BytesRangeSet set;
                    set.push_back(Range(d.starts[a], d.starts[e] - d.starts[a]));
                    const Range want(a, e - a);
                    const auto byBuffer = BytesRangeSetToCharactersRangeSet(set, s);
                    const auto byIndex = BytesRangeSetToCharactersRangeSet(set, idx);
                    ctx.expect(byBuffer.size() == 1 && same(byBuffer[0], want), "bytes " + show(set) + " are characters " + show(byBuffer) + " (from the text)");
                    ctx.expect(byIndex.size() == 1 && same(byIndex[0], want), "bytes " + show(set) + " are characters " + show(byIndex) + " (from the index)");
                    ctx.expect(MapBytesRangeSet(set, s) == s.substr(d.starts[a], d.starts[e] - d.starts[a]), "bytes " + show(set) + " map to another text");
                    ctx.step(3);
                }
            // so many ranges: every second character
            BytesRangeSet set;
            std::vector<Range> want;
            std::string text;
            for (std::size_t i = 0; i < n && i < 5000; i += 2) {
                set.push_back(Range(d.starts[i], d.starts[i + 1] - d.starts[i]));
                want.push_back(Range(i, 1));
                text += s.substr(d.starts[i], d.starts[i + 1] - d.starts[i]);
            }
            const auto byIndex = BytesRangeSetToCharactersRangeSet(set, idx);
            bool ok = byIndex.size() == want.size();
            for (std::size_t i = 0; ok && i < want.size(); ++i)
                ok = same(byIndex[i], want[i]);
            ctx.expect(ok, std::to_string(want.size()) + " ranges are others (from the index)");
            if (n <= 1025) {
                const auto byBuffer = BytesRangeSetToCharactersRangeSet(set, s);
                ok = byBuffer.size() == want.size();
                for (std::size_t i = 0; ok && i < want.size(); ++i)
                    ok = same(byBuffer[i], want[i]);
                ctx.expect(ok, std::to_string(want.size()) + " ranges are others (from the text)");
            }
            ctx.expect(MapBytesRangeSet(set, s) == text, std::to_string(want.size()) + " ranges map to another text");
            // put together one by one, and all that is left of them when they touch
            BytesRangeSet sum, all;
            for (std::size_t i = 0; i < set.size(); ++i) {
                BytesRangeSet one;
                one.push_back(set[i]);
                sum.append(one);
            }
            for (std::size_t i = 0; i < n && i < 5000; ++i) {
                BytesRangeSet one;
                one.push_back(Range(d.starts[i], d.starts[i + 1] - d.starts[i]));
                all.append(one);
            }
            ctx.expect(show(sum) == show(set), "put together one by one they are " + show(sum).substr(0, 300));
            ctx.expect(all.size() == 1 && all[0].location == 0 && all[0].length == d.starts[std::min<std::size_t>(n, 5000)],
                "ranges that touch, put together, are " + show(all).substr(0, 300));
            ctx.step(5);
            ctx.state(std::to_string(n) + "/" + std::to_string(form));
            ctx.trace();
        }
}

SCENARIO("malformed", 4)
{
    documents(ctx, { "a", "\n", "\x80", "\xBF", "\xC3", "\xE2", "\xF0", "\xFF" }, ctx.thorough ? 5 : 4,
        [&](const Doc& d) { anyRange(ctx, d); });
}

SCENARIO("embedded-nul", 2)
{
    documents(ctx, { "a", std::string(1, '\0'), "\xC3\xA9", "\xF0\x90\x8D\x88" }, 4,
        [&](const Doc& d) { aligned(ctx, d); });
}

SCENARIO("range-sets", 4)
{
    // sets of ranges are converted range by range; their texts are concatenated
    const std::string text = "a\xC3\xA9\n\xE2\x82\xAC"
                             "b\xF0\x90\x8D\x88\n";
    const Doc d = make(text);
    ByteBufferCharacterIndex idx;
    BuildCharacterIndex(idx, text);
    std::vector<Range> all;
    for (std::size_t a = 0; a < d.starts.size(); ++a)
        for (std::size_t e = a; e < d.starts.size(); ++e)
            all.push_back(Range(d.starts[a], d.starts[e] - d.starts[a]));
    const std::size_t n = all.size();
    for (std::size_t i = 0; i < n * n * n + n * n + 1 && !ctx.full(); ++i) {
        if (!ctx.mine())
            continue;
        BytesRangeSet set;
        if (i < n * n * n) {
            set.push_back(all[i % n]);
            set.push_back(all[i / n % n]);
            set.push_back(all[i / n / n]);
        } else if (i < n * n * n + n * n) {
            set.push_back(all[(i - n * n * n) % n]);
            set.push_back(all[(i - n * n * n) / n]);
        }
        auto describe = [&] { return "ranges " + show(set); };
        if (!ctx.beginN(i, describe))
            continue;
        const auto c = BytesRangeSetToCharactersRangeSet(set, text);
        const auto x = BytesRangeSetToCharactersRangeSet(set, idx);
        std::string whole;
        ctx.step(3);
        bool ok = c.size() == set.size() && x.size() == set.size();
        for (std::size_t k = 0; ok && k < set.size(); ++k) {
            const Range want = expected(d, set[k].location, set[k].length);
            ok = same(c[k], want) && same(x[k], want);
            whole += text.substr(set[k].location, set[k].length);
        }
        ctx.expect(ok, "characters " + show(c) + " / " + show(x));
        // as one stretch, from where the first starts to where the last ends
        const auto one = BytesRangeSetToConsecutiveCharactersRangeSet(set, idx);
        ctx.step();
        if (set.empty())
            ctx.expect(one.empty(), "taken as one gives " + show(one));
        else if (set.back().location + set.back().length >= set.front().location) {
            const std::size_t end = set.back().location + set.back().length;
            const Range want = expected(d, set.front().location, end - set.front().location);
            if (one.size() == 1 && !same(one[0], want) && same(one[0], Range(set.front().location, end)))
                ctx.finding("F45", "the ranges " + show(set) + " as one are " + show(one) + ", not " + show({ want }));
            else
                ctx.expect(one.size() == 1 && same(one[0], want), "taken as one gives " + show(one) + ", expected " + show({ want }));
        }
        ctx.expect(MapBytesRangeSet(set, text) == whole, "text " + mc::quote(MapBytesRangeSet(set, text)));
        ctx.trace();
    }
    ctx.state(text);
}

namespace
{
    using Bits = std::vector<std::size_t>;

    // the positions covered, in order
    Bits positions(const BytesRangeSet& r)
    {
        Bits o;
        for (auto& x : r)
            for (std::size_t i = 0; i < x.length; ++i)
                o.push_back(x.location + i);
        return o;
    }
}

SCENARIO("append", 4)
{
    // appending one set to another: what is covered is the concatenation, and where one goes on where the other
    // ended the two become one range
    std::vector<Range> pool;
    for (std::size_t loc = 0; loc < 5; ++loc)
        for (std::size_t len = 0; len < 4; ++len)
            pool.push_back(Range(loc, len));
    const std::size_t n = pool.size();
    std::vector<BytesRangeSet> sets(1);
    for (std::size_t i = 0; i < n; ++i) {
        BytesRangeSet s;
        s.push_back(pool[i]);
        sets.push_back(s);
    }
    for (std::size_t i = 0; i < n; ++i)
        for (std::size_t j = 0; j < n; ++j) {
            BytesRangeSet s;
            s.push_back(pool[i]);
            s.push_back(pool[j]);
            sets.push_back(s);
        }
    for (std::size_t a = 0; a < sets.size(); ++a)
        for (std::size_t b = 0; b < sets.size() && !ctx.full(); ++b) {
            if (!ctx.mine())
                continue;
            auto describe = [&] { return show(sets[a]) + " append " + show(sets[b]); };
            if (!ctx.beginN(a * sets.size() + b, describe))
                continue;
            BytesRangeSet r = sets[a];
            r.append(sets[b]);
            ctx.step();
            Bits want = positions(sets[a]), more = positions(sets[b]);
            want.insert(want.end(), more.begin(), more.end());
            ctx.expect(positions(r) == want, "gives " + show(r));
            bool joins = !sets[a].empty() && !sets[b].empty()
                && sets[a].back().location + sets[a].back().length == sets[b].front().location;
            ctx.expect(r.size() == sets[a].size() + sets[b].size() - (joins ? 1 : 0), "gives " + show(r));
            ctx.outcome(show(r));
            ctx.trace();
        }
    // a set appended to itself
    for (std::size_t a = 0; a < sets.size(); ++a) {
        if (!ctx.begin(show(sets[a]) + " append a copy of itself"))
            continue;
        BytesRangeSet r = sets[a], copy = sets[a];
        r.append(copy);
        Bits want = positions(copy), more = positions(copy);
        want.insert(want.end(), more.begin(), more.end());
        ctx.expect(positions(r) == want, "gives " + show(r));
    }
    ctx.state("append");
    ctx.sample("[0,2)[4,1) append [5,2)[1,0)");
}

MC_MAIN
