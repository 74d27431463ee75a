// C06: matching and capturing with regular expressions.
#include "mc.hpp"
#include "RegexMatch.h"
#include <regex.h>
#include <memory>

using namespace snowcrash;

namespace
{
    // Small regular expressions as trees: the reference decides membership without any regex engine
    struct Re;
    using R = std::shared_ptr<Re>;
    struct Re {
        enum Kind { Char, Any, Seq, Alt, Star, Plus, Opt, Group, Begin, End } kind;
        char c = 0;
        R a, b;
    };

    R re(Re::Kind k, char c = 0, R a = nullptr, R b = nullptr)
    {
        return R(new Re{ k, c, a, b });
    }

    std::string text(const R& r)
    {
        switch (r->kind) {
            case Re::Char:
                return std::string(1, r->c);
            case Re::Any:
                return ".";
            case Re::Seq:
                return text(r->a) + text(r->b);
            case Re::Alt:
                return "(" + text(r->a) + "|" + text(r->b) + ")";
            case Re::Star:
                return "(" + text(r->a) + ")*";
            case Re::Plus:
                return "(" + text(r->a) + ")+";
            case Re::Opt:
                return "(" + text(r->a) + ")?";
            case Re::Group:
                return "(" + text(r->a) + ")";
            case Re::Begin:
                return "^" + text(r->a);
            case Re::End:
                return text(r->a) + "$";
        }
        return "";
    }

    // all ends of a match of r that starts at `at`
    std::set<std::size_t> ends(const R& r, const std::string& s, std::size_t at)
    {
        std::set<std::size_t> o;
        switch (r->kind) {
            case Re::Char:
                if (at < s.size() && s[at] == r->c)
                    o.insert(at + 1);
                break;
            case Re::Any:
                if (at < s.size())
                    o.insert(at + 1);
                break;
            case Re::Seq:
                for (std::size_t m : ends(r->a, s, at))
                    for (std::size_t e : ends(r->b, s, m))
                        o.insert(e);
                break;
            case Re::Alt:
                o = ends(r->a, s, at);
                for (std::size_t e : ends(r->b, s, at))
                    o.insert(e);
                break;
            case Re::Group:
                o = ends(r->a, s, at);
                break;
            case Re::Opt:
                o = ends(r->a, s, at);
                o.insert(at);
                break;
            case Re::Begin:
                if (at == 0)
                    o = ends(r->a, s, at);
                break;
            case Re::End:
                for (std::size_t e : ends(r->a, s, at))
                    if (e == s.size())
                        o.insert(e);
                break;
            case Re::Star:
            case Re::Plus: {
                std::vector<std::size_t> todo{ at };
                std::set<std::size_t> seen;
                if (r->kind == Re::Star)
                    o.insert(at);
                while (!todo.empty()) {
                    const std::size_t m = todo.back();
                    todo.pop_back();
                    for (std::size_t e : ends(r->a, s, m)) {
                        o.insert(e);
                        if (seen.insert(e).second)
                            todo.push_back(e);
                    }
                }
                break;
            }
        }
        return o;
    }

    // leftmost longest match
    bool find(const R& r, const std::string& s, std::size_t& from, std::size_t& to)
    {
        for (from = 0; from <= s.size(); ++from) {
            auto e = ends(r, s, from);
            if (!e.empty()) {
                to = *e.rbegin();
                return true;
            }
        }
        return false;
    }

    std::vector<R> expressions(bool thorough)
    {
        std::vector<R> atoms{ re(Re::Char, 'a'), re(Re::Char, 'b'), re(Re::Any) }, all = atoms, two;
        for (auto& x : atoms) {
            for (auto k : { Re::Star, Re::Plus, Re::Opt, Re::Group })
                two.push_back(re(k, 0, x));
            for (auto& y : atoms) {
                two.push_back(re(Re::Seq, 0, x, y));
                two.push_back(re(Re::Alt, 0, x, y));
            }
        }
        all.insert(all.end(), two.begin(), two.end());
        std::vector<R> base = all;
        for (auto& x : two) {
            for (auto k : { Re::Star, Re::Plus, Re::Opt, Re::Group })
                all.push_back(re(k, 0, x));
            for (auto& y : thorough ? base : atoms) {
                all.push_back(re(Re::Seq, 0, x, y));
                all.push_back(re(Re::Seq, 0, y, x));
                all.push_back(re(Re::Alt, 0, x, y));
            }
        }
        std::vector<R> anchored;
        for (auto& x : all) {
            anchored.push_back(x);
            anchored.push_back(re(Re::Begin, 0, x));
            anchored.push_back(re(Re::End, 0, x));
            anchored.push_back(re(Re::Begin, 0, re(Re::End, 0, x)));
        }
        return anchored;
    }

    std::vector<std::string> targets(const std::string& alphabet, unsigned max)
    {
        std::vector<std::string> o{ "" };
        for (std::size_t i = 0; i < o.size(); ++i)
            if (o[i].size() < max)
                for (char c : alphabet)
                    o.push_back(o[i] + c);
        return o;
    }

    std::string show(const CaptureGroups& g)
    {
        std::string o;
        for (auto& s : g)
            o += "<" + mc::quote(s) + ">";
        return o;
    }

    // What the groups have to be, from POSIX itself
    bool posix(const std::string& target, const std::string& expression, std::size_t n, CaptureGroups& out)
    {
        regex_t re;
        if (target.empty() || expression.empty() || regcomp(&re, expression.c_str(), REG_EXTENDED))
            return false;
        std::vector<regmatch_t> m(n + 1);
        const bool ok = regexec(&re, target.c_str(), n, m.data(), 0) == 0;
        regfree(&re);
        for (std::size_t i = 0; ok && i < n; ++i)
            out.push_back(m[i].rm_so < 0 ? std::string()
                                         : target.substr(static_cast<std::size_t>(m[i].rm_so),
                                               static_cast<std::size_t>(m[i].rm_eo - m[i].rm_so)));
        return ok;
    }

    void check(mc::Ctx& ctx, const std::string& target, const std::string& expression, const R& tree)
    {
        std::size_t from = 0, to = 0;
        CaptureGroups want;
        const bool expected = posix(target, expression, 8, want);
        if (tree) {
            const bool matches = !target.empty() && find(tree, target, from, to);
            if (!ctx.expect(matches == expected, "the reference and POSIX disagree"))
                return;
            if (matches)
                ctx.expect(want[0] == target.substr(from, to - from), "the reference and POSIX disagree");
        }
        ctx.expect(RegexMatch(target, expression) == expected, expected ? "is not found" : "is found");
        for (std::size_t n : { 8, 0, 1, 2, 3 }) {
            CaptureGroups groups{ "left", "over" };
            const bool ok = n == 8 ? RegexCapture(target, expression, groups) : RegexCapture(target, expression, groups, n);
            if (!ctx.expect(ok == expected, std::string(ok ? "is" : "is not") + " captured, with room for "
                        + std::to_string(n)))
                return;
            if (ok)
                ctx.expect(groups == CaptureGroups(want.begin(), want.begin() + static_cast<long>(n)),
                    "groups " + show(groups) + " of room for " + std::to_string(n) + ", expected " + show(want));
            else if (!target.empty() && !expression.empty())
                ctx.expect(groups.empty(), "keeps groups " + show(groups) + " of an earlier match");
            ctx.step();
        }
        ctx.expect(RegexCaptureFirst(target, expression) == (expected ? want[1] : std::string()),
            "first group " + mc::quote(RegexCaptureFirst(target, expression)));
        ctx.step(2);
        ctx.outcome(show(want));
        ctx.trace();
    }
}

SCENARIO("expressions", 8)
{
    const auto all = expressions(ctx.thorough);
    const auto words = targets("abc", ctx.thorough ? 5 : 4);
    std::uint64_t n = 0;
    for (auto& r : all) {
        const std::string e = text(r);
        ctx.state(e);
        for (auto& w : words) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return mc::quote(e) + " in " + mc::quote(w); };
            if (!ctx.beginN(n, describe))
                continue;
            check(ctx, w, e, r);
        }
        ctx.sample(mc::quote(e) + " in every word of a, b, c of up to four letters");
    }
}

SCENARIO("case-and-lines", 2)
{
    // letter case matters, a newline is a character like any other, ^ and $ are the ends of the text
    const std::vector<std::string> es{ "a", "A", "^a", "a$", "^A$", "a.b", "a\nb", "[^a]", "[[:space:]]", "^b", "^[ab]+$",
        "(a)|(b)", "((a)(b)?)+", "(A)?(b)?$", "[[:upper:]]", "(a|A)(\n)?" };
    std::uint64_t n = 0;
    for (auto& e : es)
        for (auto& w : targets("aAb\n", 5)) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return mc::quote(e) + " in " + mc::quote(w); };
            if (!ctx.beginN(n, describe))
                continue;
            check(ctx, w, e, nullptr);
        }
    // POSIX knows these; spelled out where it matters
    struct Fact {
        const char *target, *expression;
        bool found;
    };
    for (auto& f : { Fact{ "A", "a", false }, Fact{ "x\na", "^a", false }, Fact{ "a\nx", "a$", false },
             Fact{ "a\nb", "a.b", true }, Fact{ "\n", "[^a]", true }, Fact{ "a\nb", "a[^b]b", true } })
        if (ctx.begin(mc::quote(f.expression) + " in " + mc::quote(f.target) + (f.found ? " is found" : " is not found"))) {
            ctx.expect(RegexMatch(f.target, f.expression) == f.found, "otherwise");
            CaptureGroups g;
            ctx.expect(RegexCapture(f.target, f.expression, g) == f.found, "otherwise, in capturing");
            ctx.step(2);
        }
    ctx.state("case");
    ctx.sample("\"((a)(b)?)+\" in every word of a, A, b and newline of up to five");
}

SCENARIO("malformed", 4)
{
    // every text of up to four of the special characters as an expression: never found when malformed, and harmless
    const std::string special = "()[]{}*+?|^$.\\a1,";
    std::uint64_t n = 0;
    for (auto& e : targets(special, ctx.thorough ? 4 : 3))
        for (auto w : { "", "a", "aa", "(a)", "1,a", "\\" }) {
            ++n;
            if (!ctx.mine() || ctx.full())
                continue;
            auto describe = [&] { return mc::quote(e) + " in " + mc::quote(w); };
            if (!ctx.beginN(n, describe))
                continue;
            check(ctx, w, e, nullptr);
            ctx.state(e);
        }
}

SCENARIO("sizes", 4)
{
    // long texts, long expressions, many expressions one after another: a match anywhere in it, of any length
    std::vector<std::size_t> sizes;
    for (std::size_t n = 0; n <= 300; ++n)
        sizes.push_back(n);
    for (std::size_t n : { 511, 512, 513, 1000, 1022, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10000 })
        sizes.push_back(n);
    for (auto n : sizes)
        for (int form = 0; form < 9; ++form) {
            if (!ctx.mine() || ctx.full() || !ctx.begin("form " + std::to_string(form) + " of " + std::to_string(n)))
                continue;
            const std::string a(n, 'a'), b(n, 'b');
            std::string t, e;
            CaptureGroups want; // empty: no match
            switch (form) {
                case 0: // behind a long text
                    t = a + "xy";
                    e = "(x)(y)$";
                    want = { "xy", "x", "y" };
                    break;
                case 1: // before one
                    t = "xy" + a;
                    e = "^(x)(y)";
                    want = { "xy", "x", "y" };
                    break;
                case 2: // of one
                    t = "x" + a + "y" + b + "z";
                    e = "x(a*)y(b*)z";
                    want = { t, a, b };
                    break;
                case 3: // none behind it
                    t = a + "x";
                    e = "y";
                    break;
                case 4: // not up to its end
                    t = a + "x";
                    e = "^a*$";
                    break;
                case 5: // a long expression
                    t = "--" + a + "x--";
                    e = a + "(x)";
                    want = { a + "x", "x" };
                    break;
                case 6: // that does not match
                    t = "--" + a + "--";
                    e = a + "a";
                    break;
                case 7: // long expression with a group far behind
                    if (n > 2100)
                        continue;
                    for (std::size_t i = 0; i < n; ++i) {
                        e += i % 2 ? "[b]" : "a";
                        t += i % 2 ? "b" : "a";
                    }
                    e += "(c|d)";
                    want = { t + "d", "d" };
                    t += "d";
                    break;
                default: // lines
                    for (std::size_t i = 0; i < n; ++i)
                        t += i % 10 == 9 ? "\n" : ".";
                    t += "\n(x)";
                    e = "\\(([^\n]*)\\)";
                    want = { "(x)", "x" };
            }
            const bool found = !want.empty();
            ctx.expect(RegexMatch(t, e) == found, found ? "is not found" : "is found");
            want.resize(8);
            for (std::size_t room : { 8, 1, 3 }) {
                CaptureGroups got;
                const bool ok = RegexCapture(t, e, got, room);
                ctx.expect(ok == found, found ? "is not captured" : "is captured");
                if (ok && found)
                    ctx.expect(got == CaptureGroups(want.begin(), want.begin() + static_cast<long>(room)), "groups " + show(got));
            }
            ctx.expect(RegexCaptureFirst(t, e) == want[1], "first group " + mc::quote(RegexCaptureFirst(t, e)));
            ctx.step(5);
            ctx.state(std::to_string(form) + "/" + std::to_string(n));
            ctx.trace();
        }
    // as much room as one likes
    for (std::size_t room = 0; room < 600; room += room < 40 ? 1 : 37)
        if (ctx.mine() && ctx.begin("room for " + std::to_string(room))) {
            std::string t = "-", e = "-";
            CaptureGroups want, got;
            for (std::size_t i = 1; i < room; ++i) {
                const char c = static_cast<char>('a' + i % 26);
                t += c;
                e += std::string("(") + c + ")";
            }
            for (std::size_t i = 0; i < room; ++i)
                want.push_back(i ? std::string(1, static_cast<char>('a' + i % 26)) : t);
            ctx.expect(RegexCapture(t, e, got, room) && got == want, "groups " + show(got));
            ctx.step();
            ctx.trace();
        }
}

SCENARIO("many-groups", 1)
{
    // more groups than there is room for, and more room than there are groups
    for (unsigned groups = 0; groups <= 12; ++groups)
        for (std::size_t room = 0; room <= 14; ++room) {
            if (!ctx.begin(std::to_string(groups) + " groups, room for " + std::to_string(room)))
                continue;
            std::string e = "x", t = "--x";
            for (unsigned i = 0; i < groups; ++i) {
                e += i % 3 == 2 ? "(Q)?(" : "(";
                e += static_cast<char>('a' + i);
                e += ")";
                t += static_cast<char>('a' + i);
            }
            CaptureGroups want, got{ "old" };
            std::vector<std::string> parts{ t.substr(2) };
            for (unsigned i = 0; i < groups; ++i) {
                if (i % 3 == 2)
                    parts.push_back("");
                parts.push_back(std::string(1, static_cast<char>('a' + i)));
            }
            for (std::size_t i = 0; i < room; ++i)
                want.push_back(i < parts.size() ? parts[i] : "");
            const bool ok = RegexCapture(t, e, got, room);
            ctx.step();
            ctx.expect(ok && got == want, "groups " + show(got) + ", expected " + show(want));
            ctx.outcome(show(want));
            ctx.state(e);
            ctx.trace();
        }
}

MC_MAIN
