// C24: numbers are kept as they are written, and whole ones read back exactly.
#include "elems.hpp"
#include <limits>

using namespace em;
using N = refract::dsd::Number;

namespace
{
    // -?(0|[1-9][0-9]*)([.][0-9]+)?([eE][+-]?[0-9]+)?
    bool isNumber(const std::string& s)
    {
        std::size_t i = 0;
        auto digits = [&] {
            const std::size_t b = i;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9')
                ++i;
            return i - b;
        };
        if (i < s.size() && s[i] == '-')
            ++i;
        if (i < s.size() && s[i] == '0')
            ++i;
        else if (!digits())
            return false;
        if (i < s.size() && s[i] == '.') {
            ++i;
            if (!digits())
                return false;
        }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i;
            if (i < s.size() && (s[i] == '+' || s[i] == '-'))
                ++i;
            if (!digits())
                return false;
        }
        return i == s.size();
    }

    // of the whole part, if it fits
    bool whole(const std::string& s, std::int64_t& v)
    {
        const bool minus = s[0] == '-';
        __int128 n = 0;
        for (std::size_t i = minus; i < s.size() && s[i] >= '0' && s[i] <= '9'; ++i) {
            n = n * 10 + (s[i] - '0');
            if (n > (__int128(1) << 64))
                return false;
        }
        n = minus ? -n : n;
        v = static_cast<std::int64_t>(n);
        return n == v;
    }

    void check(mc::Ctx& ctx, const std::string& s)
    {
        const N n{ s };
        N copy = n, assigned;
        assigned = copy;
        N moved = std::move(copy);
        ctx.expect(n.get() == s && assigned.get() == s && moved.get() == s, "reads " + n.get());
        ctx.expect(n == assigned && !(n != moved), "a copy differs");
        ctx.expect((n == N{}) == (s == "0"), "equal to another number");
        std::int64_t want;
        if (whole(s, want)) {
            const auto got = static_cast<std::int64_t>(n);
            if (got != want)
                ctx.violation("its whole part is " + std::to_string(got));
            ctx.outcome(std::to_string(want));
        } else
            ctx.count("too big for an integer");
        ctx.step();
        ctx.state(s);
        ctx.trace();
    }

    // of those types that elements are made from
    template <typename T>
    auto element(mc::Ctx& ctx, T x, const std::string& text, int) -> decltype(refract::from_primitive(x), void())
    {
        auto e = refract::from_primitive(x);
        if (dump(*e) != dump(num(text)))
            ctx.violation("makes " + dump(*e));
    }
    template <typename T>
    void element(mc::Ctx&, T, const std::string&, long)
    {
    }

    template <typename T>
    void integral(mc::Ctx& ctx, const char* type)
    {
        using L = std::numeric_limits<T>;
        std::vector<T> v;
        for (int d = 0; d < 70; ++d)
            for (T base : { L::min(), T(L::min() / 2), T(0), T(L::max() / 2), L::max() })
                for (int sign : { 1, -1 }) {
                    const __int128 x = __int128(base) + sign * (d < 32 ? __int128(d) : __int128(1) << (d - 32));
                    if (x >= L::min() && x <= L::max())
                        v.push_back(T(x));
                }
        for (T x : v) {
            const std::string text = std::to_string(x);
            auto describe = [&] { return std::string(type) + " " + text; };
            if (!ctx.begin(describe()))
                continue;
            const N n(x);
            ctx.expect(n.get() == text, "reads " + n.get());
            if (__int128(x) <= std::numeric_limits<std::int64_t>::max())
                ctx.expect(static_cast<std::int64_t>(n) == static_cast<std::int64_t>(x), "reads back otherwise");
            element(ctx, x, text, 0);
            ctx.step();
            ctx.state(text);
            ctx.trace();
        }
    }
}

SCENARIO("texts", 4)
{
    const std::string alphabet = "-0159.eE+";
    const unsigned max = ctx.thorough ? 7 : 6;
    std::uint64_t c = 0;
    for (unsigned len = 1; len <= max; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            std::string s;
            for (auto i : at)
                s += alphabet[i];
            if (isNumber(s)) {
                ++c;
                auto describe = [&] { return s; };
                if (ctx.mine() && !ctx.full() && ctx.beginN(c, describe))
                    check(ctx, s);
            }
            unsigned i = 0;
            while (i < len && ++at[i] == alphabet.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
}

SCENARIO("long", 1)
{
    // powers of ten and of two and their neighbours, with and without fraction and exponent
    for (auto sign : { "", "-" })
        for (auto tail : { "", ".0", ".5", ".99999999999999999999", "e0", "E+2", "e-1", ".25e400" }) {
            __int128 two = 1, ten = 1;
            for (int i = 0; i < 66; ++i, two *= 2, ten *= i <= 19 ? 10 : 1)
                for (int d = -1; d <= 1; ++d)
                    for (__int128 x : { two + d, ten + d }) {
                        std::string s;
                        for (; x > 0; x /= 10)
                            s.insert(s.begin(), char('0' + int(x % 10)));
                        s = sign + (s.empty() ? "0" : s) + tail;
                        if (ctx.begin(s))
                            check(ctx, s);
                    }
            const std::string many = sign + std::string(200, '9') + tail;
            if (ctx.begin(many))
                check(ctx, many);
        }
}

SCENARIO("integers", 1)
{
    integral<short>(ctx, "short");
    integral<unsigned short>(ctx, "unsigned short");
    integral<int>(ctx, "int");
    integral<unsigned>(ctx, "unsigned");
    integral<long>(ctx, "long");
    integral<unsigned long>(ctx, "unsigned long");
    integral<long long>(ctx, "long long");
    integral<unsigned long long>(ctx, "unsigned long long");
}

MC_MAIN
