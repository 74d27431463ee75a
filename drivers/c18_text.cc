// C18: trimming, splitting, replacing, unquoting and comparing texts.
#include "mc.hpp"
#include "StringUtility.h"
#include "BlueprintUtility.h"

using namespace snowcrash;

namespace
{
    using S = std::string;

    bool white(char c)
    {
        return c == ' ' || (c >= 9 && c <= 13);
    }
    S trimmed(const S& s)
    {
        std::size_t a = 0, b = s.size();
        while (a < b && white(s[a]))
            ++a;
        while (b > a && white(s[b - 1]))
            --b;
        return s.substr(a, b - a);
    }

    // every string over the alphabet up to the length
    template <typename F>
    void strings(mc::Ctx& ctx, const S& alphabet, unsigned max, F f)
    {
        std::uint64_t n = 0;
        for (unsigned len = 0; len <= max; ++len) {
            std::vector<unsigned> at(len, 0);
            for (;;) {
                ++n;
                if (ctx.mine() && !ctx.full()) {
                    S s;
                    for (auto a : at)
                        s += alphabet[a];
                    auto describe = [&] { return mc::quote(s); };
                    if (ctx.beginN(n, describe)) {
                        ctx.outcome(f(s));
                        ctx.step();
                        ctx.state(s);
                        ctx.trace();
                    }
                }
                unsigned i = 0;
                while (i < len && ++at[i] == alphabet.size())
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
    }

    S list(const std::vector<S>& v)
    {
        S o;
        for (auto& s : v)
            o += "<" + mc::quote(s) + ">";
        return o;
    }
}

SCENARIO("trimming", 4)
{
    // every character at the ends, every kind of white space anywhere
    for (int c = 0; c < 256; ++c) {
        if (!ctx.mine() || !ctx.begin("character " + std::to_string(c)))
            continue;
        const char ch = static_cast<char>(c);
        ctx.expect(isSpace(ch) == white(ch), "is it white space?");
        S s = S(1, ch) + "x" + S(1, ch);
        ctx.expect(TrimString(s) == trimmed(S(1, ch) + "x" + S(1, ch)), "gives " + mc::quote(s));
        ctx.trace();
    }
    strings(ctx, S(" \t\n\r\v\fa\0\xc2\x85", 10), ctx.thorough ? 6 : 5, [&](const S& s) {
        S a = s, b = s, c = s;
        S left = s, right = s;
        while (!left.empty() && white(left[0]))
            left.erase(0, 1);
        while (!right.empty() && white(right.back()))
            right.pop_back();
        S& ra = TrimString(a);
        ctx.expect(a == trimmed(s), "trimmed is " + mc::quote(a));
        ctx.expect(&ra == &a, "the trimmed text is another one");
        ctx.expect(TrimStringStart(b) == left, "trimmed at the start is " + mc::quote(b));
        ctx.expect(TrimStringEnd(c) == right, "trimmed at the end is " + mc::quote(c));
        const S inside = "<" + s + ">"; // as part of a bigger text
        const TrimRange r = GetTrimInfo(inside.begin() + 1, inside.end() - 1);
        ctx.expect(std::get<1>(r) == static_cast<long>(a.size()), "the length of what remains is " + std::to_string(std::get<1>(r)));
        ctx.expect(std::get<0>(r) == static_cast<long>(s.size() - left.size()), "what remains starts at " + std::to_string(std::get<0>(r)));
        return a;
    });
}

SCENARIO("splitting", 4)
{
    strings(ctx, S("a:\nb"), ctx.thorough ? 9 : 7, [&](const S& s) {
        for (char d : { ':', '\n' }) {
            std::vector<S> parts, first;
            S cur;
            for (std::size_t i = 0; i < s.size(); ++i)
                if (s[i] == d) {
                    parts.push_back(cur);
                    cur.clear();
                } else
                    cur += s[i];
            if (!cur.empty())
                parts.push_back(cur);
            const auto got = Split(s, d);
            ctx.expect(got == parts, "splits into " + list(got));
            std::vector<S> before{ "kept" }, want{ "kept" };
            want.insert(want.end(), parts.begin(), parts.end());
            ctx.expect(Split(s, d, before) == want, "what was there before is lost");
            const auto p = s.find(d);
            if (p == S::npos)
                first = { s };
            else
                first = { s.substr(0, p), s.substr(p + 1) };
            ctx.expect(SplitOnFirst(s, d) == first, "splits at the first into " + list(SplitOnFirst(s, d)));
            if (d == '\n') {
                S rest = "unchanged";
                const S line = GetFirstLine(s, rest);
                ctx.expect(line == first[0], "first line is " + mc::quote(line));
                ctx.expect(rest == (first.size() > 1 ? first[1] : S("unchanged")), "the rest is " + mc::quote(rest));
            }
        }
        return list(Split(s, ':'));
    });
}

SCENARIO("two-new-lines", 1)
{
    strings(ctx, S("a\n\r "), 7, [&](const S& s) {
        S t = s, want = s;
        TwoNewLines(t);
        if (want.empty() || want.back() != '\n')
            want += "\n\n";
        else if (want.size() < 2 || want[want.size() - 2] != '\n')
            want += "\n";
        // a single newline is followed by another one; other texts end with the two of their own
        ctx.expect(t == want, "gives " + mc::quote(t) + ", expected " + mc::quote(want));
        S again = t;
        ctx.expect(TwoNewLines(again) == t, "doing it again gives " + mc::quote(again));
        return t;
    });
}

SCENARIO("replacing", 4)
{
    const std::vector<S> find{ "a", "b", "ab", "aa", "aba", "abc" }, with{ "", "a", "b", "aa", "ab", "bab", "xyz" };
    strings(ctx, S("abc"), ctx.thorough ? 9 : 7, [&](const S& s) {
        S all;
        for (auto& f : find)
            for (auto& r : with) {
                S want;
                for (std::size_t i = 0; i < s.size();)
                    if (s.compare(i, f.size(), f) == 0) {
                        want += r;
                        i += f.size();
                    } else
                        want += s[i++];
                const S got = ReplaceString(s, f, r);
                ctx.expect(got == want, mc::quote(f) + " with " + mc::quote(r) + " gives " + mc::quote(got));
                all += got + ";";
            }
        return all;
    });
}

namespace
{
    // the piece that starts at begin with a run of one character and ends with as many of it
    bool escaped(const S& s, std::size_t begin, S& outer, S& inner)
    {
        std::size_t levels = 0;
        while (begin + levels < s.size() && s[begin + levels] == s[begin])
            ++levels;
        for (std::size_t e = begin + levels; e + levels <= s.size(); ++e)
            if (s.compare(e, levels, S(levels, s[begin])) == 0) {
                outer = s.substr(begin, e + levels - begin);
                inner = s.substr(begin + levels, e - begin - levels);
                return true;
            }
        return false;
    }
}

SCENARIO("escaped", 8)
{
    strings(ctx, S("`a *"), ctx.thorough ? 9 : 8, [&](const S& s) {
        S all;
        for (std::size_t b = 0; b < s.size(); ++b) {
            S outer, inner;
            const bool is = escaped(s, b, outer, inner);
            S left = s;
            const S got = RetrieveEscaped(left, b);
            ctx.expect(got == (is ? outer : S()), "from " + std::to_string(b) + " takes " + mc::quote(got));
            ctx.expect(left == (is ? s.substr(b + outer.size()) : s), "from " + std::to_string(b) + " leaves " + mc::quote(left));
            S left2 = s;
            const S got2 = RetrieveEscaped(left2, b, true);
            ctx.expect(got2 == (is ? inner : S()), "from " + std::to_string(b) + " takes inside " + mc::quote(got2));
            ctx.expect(left2 == (is ? s.substr(b + outer.size() - (outer.size() - inner.size()) / 2) : s),
                "from " + std::to_string(b) + " leaves after the inside " + mc::quote(left2));
            all += got + "|";
        }
        S t = s, outer, inner;
        S want = s;
        if (!s.empty() && s[0] == '`' && s.back() == '`' && escaped(s, 0, outer, inner) && !inner.empty())
            want = trimmed(inner);
        const S got = StripBackticks(t);
        ctx.expect(got == want, "without backticks is " + mc::quote(got) + ", expected " + mc::quote(want));
        return all + got;
    });
}

SCENARIO("links", 8)
{
    // "[text][reference]" and "[text](target)"
    strings(ctx, S("[]()a "), ctx.thorough ? 9 : 7, [&](const S& s) {
        if (s.empty())
            return S();
        S want = s;
        if (s[0] == '[') {
            want = "";
            std::size_t e = s.size();
            while (e && s[e - 1] == ' ')
                --e;
            if (e && (s[e - 1] == ']' || s[e - 1] == ')')) {
                const char open = s[e - 1] == ']' ? '[' : '(';
                std::size_t b = e - 1;
                while (b && S("[]()").find(s[b - 1]) == S::npos)
                    --b;
                if (b && s[b - 1] == open && (open == '[' || b < e - 1)) {
                    std::size_t t = b - 1;
                    while (t && s[t - 1] == ' ')
                        --t;
                    if (t >= 2 && s[t - 1] == ']')
                        want = trimmed(s.substr(1, t - 2));
                }
            }
            if (want.empty())
                return S(); // no link
        }
        const S got = StripMarkdownLink(s);
        ctx.expect(got == want, "links " + mc::quote(got) + ", expected " + mc::quote(want));
        return got;
    });
}

SCENARIO("long", 2)
{
    // texts of any length
    std::vector<std::size_t> sizes;
    for (std::size_t n = 8; n < 300; ++n)
        sizes.push_back(n);
    for (std::size_t n : { 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 65535, 65536, 65537 })
        sizes.push_back(n);
    for (auto n : sizes) {
        if (!ctx.mine() || ctx.full() || !ctx.begin("of " + std::to_string(n)))
            continue;
        S mid;
        for (std::size_t i = 0; i < n; ++i)
            mid += "ab cd\n:"[i * i % 7];
        mid = "x" + mid + "y";
        for (auto& pad : { S(), S(n, ' '), S(n, '\n') + "\t" }) {
            S a = pad + mid + pad, b = a, c = a;
            ctx.expect(TrimString(a) == mid, "trimmed is another");
            ctx.expect(TrimStringStart(b) == mid + pad, "trimmed at the start is another");
            ctx.expect(TrimStringEnd(c) == pad + mid, "trimmed at the end is another");
            const S whole = pad + mid + pad;
            const TrimRange r = GetTrimInfo(whole.begin(), whole.end());
            ctx.expect(std::get<0>(r) == static_cast<long>(pad.size()) && std::get<1>(r) == static_cast<long>(mid.size()), "what remains is elsewhere");
            if (!pad.empty()) {
                S w = pad;
                ctx.expect(TrimString(w).empty(), "white space remains");
                S two = mid + pad;
                TwoNewLines(two);
                const bool had = pad.back() == '\n' && pad.size() > 1 && pad[pad.size() - 2] == '\n';
                ctx.expect(had ? two == mid + pad : two.compare(0, mid.size() + pad.size(), mid + pad) == 0 && two.compare(two.size() - 2, 2, "\n\n") == 0, "it does not end in two new lines");
            }
        }
        for (char d : { ':', '\n', '#' }) {
            std::vector<S> parts(1);
            for (char c : mid)
                if (c == d)
                    parts.push_back("");
                else
                    parts.back() += c;
            ctx.expect(Split(mid, d) == parts, "splits otherwise");
            const auto p = mid.find(d);
            ctx.expect(SplitOnFirst(mid, d) == (p == S::npos ? std::vector<S>{ mid } : std::vector<S>{ mid.substr(0, p), mid.substr(p + 1) }), "splits otherwise at the first");
            S many;
            for (std::size_t i = 0; i < n; ++i)
                many += d;
            ctx.expect(Split(many, d) == std::vector<S>(n), "so many empty pieces are others");
        }
        S rest = "-";
        ctx.expect(GetFirstLine(S(n, 'l') + "\n" + mid, rest) == S(n, 'l') && rest == mid, "the first line is another");
        S want, as(n, 'a');
        for (char c : mid)
            want += c == 'a' ? S("bab") : S(1, c);
        ctx.expect(ReplaceString(mid, "a", "bab") == want, "replaced otherwise");
        ctx.expect(ReplaceString(as, "a", "bb") == S(2 * n, 'b') && ReplaceString(as, as, "c") == "c" && ReplaceString(as + "z", as + "z", as) == as
                && ReplaceString(as, "aa", "") == S(n % 2, 'a') && ReplaceString(mid, as + as, "") == mid, "replaced otherwise");
        for (auto& q : { S("`"), S("```"), S(n, '`') }) {
            S t = q + mid + q + "left";
            ctx.expect(RetrieveEscaped(t, 0) == q + mid + q && t == "left", "takes another piece");
            t = mid + q + mid + q;
            ctx.expect(RetrieveEscaped(t, mid.size(), true) == mid, "takes another inside");
            t = q + mid + q;
            ctx.expect(StripBackticks(t) == mid, "without backticks is another");
        }
        const S word(n, 'w');
        ctx.expect(StripMarkdownLink("[" + word + "][" + mid + "]") == word && StripMarkdownLink("[" + word + "](" + word + ")") == word, "links another");
        S upper(n, 'W'), other = upper;
        other.back() = 'X';
        ctx.expect(IEqual<S>()(word, upper) && !IEqual<S>()(word, other) && !IEqual<S>()(word, upper + "w") && Equal<S>()(word, S(n, 'w')) && !Equal<S>()(word, upper), "compares otherwise");
        mdp::MarkdownNode h(mdp::HeaderMarkdownNodeType, nullptr, mid, 3);
        ctx.expect(ReconstructMarkdownHeader(h) == "###" + mid, "the header is another");
        ctx.step(30);
        ctx.state(std::to_string(n));
        ctx.trace();
    }
}

SCENARIO("comparing", 4)
{
    std::vector<S> all{ "" };
    const S letters = "aAbB-\xe4";
    for (std::size_t i = 0; i < all.size(); ++i)
        if (all[i].size() < (ctx.thorough ? 4 : 3))
            for (char c : letters)
                all.push_back(all[i] + c);
    auto low = [](S s) {
        for (auto& c : s)
            if (c >= 'A' && c <= 'Z')
                c = static_cast<char>(c + 32);
        return s;
    };
    std::uint64_t n = 0;
    for (auto& a : all)
        for (auto& b : all) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return mc::quote(a) + " and " + mc::quote(b); };
            if (!ctx.beginN(n, describe))
                continue;
            ctx.expect(Equal<S>()(a, b) == (a == b), "equal");
            ctx.expect(IEqual<S>()(a, b) == (low(a) == low(b)), "equal but for letter case");
            ctx.expect(MatchContainers(a, b, IsIEqual()) == (low(a) == low(b)), "equal containers");
            using H = std::pair<S, S>;
            ctx.expect(MatchFirsts<H>()(H(a, "x"), H(b, "y")) == (a == b), "names of headers");
            ctx.expect((MatchFirsts<H, IEqual<S> >()(H(a, "x"), H(b, "y")) == (low(a) == low(b))), "names of headers but for letter case");
            ctx.expect((MatchFirstWith<H, S, IEqual<S> >()(H(a, "x"), b) == (low(a) == low(b))), "name of a header");
            ctx.step(5);
            ctx.state(a + "\n" + b);
            ctx.trace();
        }
    for (int c = 0; c < 128; ++c)
        for (int d = 0; d < 128; ++d) {
            if (!ctx.mine() || !ctx.begin("characters " + std::to_string(c) + " " + std::to_string(d)))
                continue;
            ctx.expect(IsEqual()(char(c), char(d)) == (c == d), "equal");
            ctx.expect(IsIEqual()(char(c), char(d)) == (low(S(1, char(c))) == low(S(1, char(d)))), "equal but for letter case");
        }
}

SCENARIO("headers-rebuilt", 1)
{
    for (int level = 1; level <= 6; ++level)
        for (auto& t : { S(), S("a"), S(" b [c] "), S("#"), S("x\ny") })
            for (int type = 0; type <= static_cast<int>(mdp::HTMLMarkdownNodeType); ++type) {
                if (!ctx.begin(std::to_string(level) + " " + mc::quote(t) + " " + std::to_string(type)))
                    continue;
                mdp::MarkdownNode n(static_cast<mdp::MarkdownNodeType>(type), nullptr, t, level);
                const S want = type == mdp::HeaderMarkdownNodeType ? S(level, '#') + t : S();
                ctx.expect(ReconstructMarkdownHeader(n) == want, "gives " + mc::quote(ReconstructMarkdownHeader(n)));
                ctx.trace();
            }
}

MC_MAIN
