// C24: which texts count as numbers and booleans.
#include "mc.hpp"
#include "Serialize.h"

using namespace refract;

namespace
{
    // a recogniser by states, of numbers as in JSON with white space after them
    bool accepted(const std::string& s, std::string& number)
    {
        std::size_t end = s.size();
        while (end && std::string(" \t\n\v\f\r").find(s[end - 1]) != std::string::npos)
            --end;
        number = s.substr(0, end);
        enum
        {
            Start,
            Minus,
            Zero,
            Whole,
            Point,
            Fraction,
            Exp,
            Sign,
            Power,
            Bad
        } q = Start;
        for (char c : number) {
            const bool zero = c == '0', digit = c >= '0' && c <= '9', exp = c == 'e' || c == 'E';
            switch (q) {
                case Start:
                    q = c == '-' ? Minus : zero ? Zero : digit ? Whole : Bad;
                    break;
                case Minus:
                    q = zero ? Zero : digit ? Whole : Bad;
                    break;
                case Zero:
                    q = c == '.' ? Point : exp ? Exp : Bad;
                    break;
                case Whole:
                    q = digit ? Whole : c == '.' ? Point : exp ? Exp : Bad;
                    break;
                case Point:
                    q = digit ? Fraction : Bad;
                    break;
                case Fraction:
                    q = digit ? Fraction : exp ? Exp : Bad;
                    break;
                case Exp:
                    q = digit ? Power : c == '+' || c == '-' ? Sign : Bad;
                    break;
                case Sign:
                case Power:
                    q = digit ? Power : Bad;
                    break;
                default:
                    break;
            }
        }
        return q == Zero || q == Whole || q == Fraction || q == Power;
    }

    void check(mc::Ctx& ctx, const std::string& s)
    {
        std::string text;
        const bool number = accepted(s, text);
        const auto n = drafter::LiteralTo<dsd::Number>(s);
        ctx.expect(n.first == number, number ? "is a number" : "is no number");
        if (n.first)
            ctx.expect(n.second.get() == text, "reads as another number");
        const auto b = drafter::LiteralTo<dsd::Boolean>(s);
        ctx.expect(b.first == (s == "true" || s == "false"), "whether it is a boolean");
        if (b.first)
            ctx.expect(b.second.get() == (s == "true"), "reads as another boolean");
        const auto t = drafter::LiteralTo<dsd::String>(s);
        ctx.expect(t.first == !s.empty() && t.second.get() == s, "reads as another text");
        ctx.outcome(number ? "number" : b.first ? "boolean" : "text");
        ctx.step();
        ctx.state(s);
        ctx.trace();
    }

    void all(mc::Ctx& ctx, const std::string& alphabet, unsigned max)
    {
        std::uint64_t c = 0;
        for (unsigned len = 0; len <= max; ++len) {
            std::vector<unsigned> at(len, 0);
            for (;;) {
                ++c;
                if (ctx.mine() && !ctx.full()) {
                    std::string s;
                    for (auto i : at)
                        s += alphabet[i];
                    auto describe = [&] { return mc::quote(s); };
                    if (ctx.beginN(c, describe))
                        check(ctx, s);
                }
                unsigned i = 0;
                while (i < len && ++at[i] == alphabet.size())
                    at[i++] = 0;
                if (i == len)
                    break;
            }
        }
    }
}

SCENARIO("numbers", 8)
{
    all(ctx, "-+0 19.eE", ctx.thorough ? 7 : 6);
}

SCENARIO("bytes", 1)
{
    std::string every;
    for (int c = 0; c < 256; ++c)
        every += char(c);
    all(ctx, every, 2);
}

SCENARIO("words", 1)
{
    for (std::string w : { "true", "false" })
        for (std::size_t i = 0; i <= w.size(); ++i)
            for (auto put : { "", " ", "a", "T", "\n" })
                for (std::size_t drop = 0; drop < 3; ++drop) {
                    std::string s = w.substr(0, i) + put + (i + drop <= w.size() ? w.substr(i + drop) : "");
                    if (ctx.begin(mc::quote(s)))
                        check(ctx, s);
                }
}

MC_MAIN
