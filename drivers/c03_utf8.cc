// C03: the UTF-8 decoder and encoder against a table-driven reference, over every code point and every byte
// string of a bounded length.
#include "mc.hpp"
#include "ref_utf8.hpp"
#include <utils/Utf8.h>

#include <iterator>
#include <string>
#include <vector>

using namespace drafter::utils;

namespace
{
    using Bytes = std::vector<char>; // on the heap, exactly sized: the sanitizer sees every read past the end
    using It = utf8::input_iterator<Bytes::const_iterator>;

    std::string str(const Bytes& b)
    {
        return std::string(b.begin(), b.end());
    }

    // Decode one string, by single steps and by iteration
    void check(mc::Ctx& ctx, const Bytes& in)
    {
        const std::string s = str(in);
        const Bytes b(in.begin(), in.end());
        const auto expected = ref::decode(s);

        std::size_t at = 0;
        std::string shape;
        for (const auto& e : expected) {
            auto r = utf8::decode_one(b.begin() + static_cast<long>(at), b.end());
            ctx.step();
            if (!ctx.expect(r.first == e.cp, "code point " + std::to_string(r.first) + " at offset " + std::to_string(at)
                        + ", expected " + std::to_string(e.cp)))
                return;
            if (!ctx.expect(r.second - b.begin() == static_cast<long>(at + e.length), "offset after the character at "
                        + std::to_string(at) + " is " + std::to_string(r.second - b.begin())))
                return;
            at += e.length;
            shape += std::to_string(e.length) + (e.cp == ref::replacement ? "r" : "c");
        }
        auto r = utf8::decode_one(b.end(), b.end());
        ctx.expect(r.first == utf8::invalid && r.second == b.end(), "decoding at the end yields a character");

        It it{ b.begin(), b.end() };
        It end{ b.end(), b.end() };
        std::size_t i = 0;
        for (; it != end; ++i) {
            ctx.step();
            if (!ctx.expect(i < expected.size(), "the iteration goes on after the last character"))
                return;
            if (!ctx.expect(*it == expected[i].cp, "character " + std::to_string(i) + " of the iteration differs"))
                return;
            if (!ctx.expect(!(it == end), "both equal to and different from the end"))
                return;
            if (i % 2)
                ++it;
            else {
                It old = it++;
                if (!ctx.expect(*old == expected[i].cp, "post-increment"))
                    return;
            }
        }
        ctx.expect(i == expected.size(), "the iteration ends after " + std::to_string(i) + " characters, expected "
                + std::to_string(expected.size()));

        // the container form
        std::size_t n = 0;
        It whole{ b };
        for (; whole != end && n <= expected.size(); ++whole)
            ++n;
        ctx.expect(n == expected.size(), "iteration over the container differs");

        // what is well-formed is written back as it was
        bool wellFormed = true;
        std::string back;
        for (const auto& e : expected)
            wellFormed = wellFormed && !e.malformed;
        if (wellFormed) {
            for (It w{ b.begin(), b.end() }; w != end; ++w)
                utf8::encode(*w, std::back_inserter(back));
            ctx.expect(back == s, "encoding what was decoded gives other bytes");
        }
        ctx.state(shape);
        ctx.outcome(shape);
        ctx.trace();
    }
}

SCENARIO("code-points", 2)
{
    // every scalar value, alone and between neighbours
    for (std::uint32_t cp = 0; cp < 0x110000 && !ctx.full(); ++cp) {
        if (cp >= 0xD800 && cp <= 0xDFFF)
            continue;
        if (!ctx.mine())
            continue;
        auto describe = [&] { return "U+" + std::to_string(cp); };
        if (!ctx.beginN(cp, describe))
            continue;
        char buffer[8] = { 1, 1, 1, 1, 1, 1, 1, 1 };
        char* e = utf8::encode(cp, buffer);
        std::string expected = ref::encode(cp);
        ctx.step(2);
        ctx.expect(std::string(buffer, e) == expected, "encoded as " + mc::quote(std::string(buffer, e)));
        for (char* p = e; p != buffer + 8; ++p)
            ctx.expect(*p == 1, "writes past the encoded character");
        for (const char* suffix : { "", "a", "\xC3\xA9", "\n" }) {
            std::string t = expected + suffix;
            Bytes b(t.begin(), t.end());
            auto r = utf8::decode_one(b.begin(), b.end());
            ctx.step();
            ctx.expect(r.first == cp && r.second - b.begin() == static_cast<long>(expected.size()), "decoded as "
                    + std::to_string(r.first));
        }
        if (cp % 977 == 0)
            ctx.state(expected);
        ctx.trace();
    }
    ctx.outcome("code points");
    ctx.sample("all scalar values U+0000..U+10FFFF, each followed by nothing, 'a', U+00E9 and a newline");
}

SCENARIO("short-strings", 4)
{
    // every byte string of length 0..2, and length 3 with any first two bytes and every class of third byte
    for (unsigned len = 0; len <= 3; ++len) {
        std::uint64_t n = 1;
        for (unsigned i = 0; i < len; ++i)
            n *= 256;
        for (std::uint64_t v = 0; v < n && !ctx.full(); ++v) {
            if (len == 3) {
                unsigned char third = static_cast<unsigned char>(v >> 16);
                bool probe = third == 0 || third == 'a' || third == '\n' || third == 0x7F || third == 0x80
                    || third == 0xBF || third == 0xC2 || third == 0xE0 || third == 0xF0 || third == 0xFF;
                if (!probe)
                    continue;
            }
            if (!ctx.mine())
                continue;
            Bytes b;
            for (unsigned i = 0; i < len; ++i)
                b.push_back(static_cast<char>(v >> (8 * i)));
            auto describe = [&] { return "bytes " + mc::quote(str(b)); };
            if (!ctx.beginN((static_cast<std::uint64_t>(len) << 32) | v, describe))
                continue;
            check(ctx, b);
        }
    }
}

namespace
{
    const unsigned char boundary[] = { 'a', '\n', 0x00, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF,
        0xE0, 0xE1, 0xED, 0xEF, 0xF0, 0xF1, 0xF4, 0xF5, 0xF8, 0xFF };
}

SCENARIO("boundary-strings", 8)
{
    const std::uint64_t k = sizeof boundary;
    const unsigned maxLen = ctx.thorough ? 5 : 4;
    for (unsigned len = 3; len <= maxLen; ++len) {
        std::uint64_t n = 1;
        for (unsigned i = 0; i < len; ++i)
            n *= k;
        for (std::uint64_t v = 0; v < n && !ctx.full(); ++v) {
            if (!ctx.mine())
                continue;
            Bytes b;
            std::uint64_t w = v;
            for (unsigned i = 0; i < len; ++i, w /= k)
                b.push_back(static_cast<char>(boundary[w % k]));
            auto describe = [&] { return "bytes " + mc::quote(str(b)); };
            if (!ctx.beginN((static_cast<std::uint64_t>(len) << 40) | v, describe))
                continue;
            check(ctx, b);
        }
    }
    ctx.sample("every string of 3.." + std::to_string(maxLen) + " bytes over 24 boundary bytes");
}

MC_MAIN
