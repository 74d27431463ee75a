// Reference for how drafter reads bytes as characters. A character is a well-formed UTF-8 sequence, or a malformed
// one, which stands for U+FFFD and extends over as many bytes as its first byte announces (as far as there are any).
#ifndef VERIF_REF_UTF8_HPP
#define VERIF_REF_UTF8_HPP

#include <cstdint>
#include <string>
#include <vector>

namespace ref
{
    constexpr std::uint32_t replacement = 0xFFFD;

    struct Char {
        std::uint32_t cp;
        std::size_t length;
        bool malformed;
    };

    inline std::string encode(std::uint32_t c)
    {
        std::string o;
        int n = c < 0x80 ? 1 : c < 0x800 ? 2 : c < 0x10000 ? 3 : 4;
        static const int lead[] = { 0, 0x00, 0xC0, 0xE0, 0xF0 };
        for (int i = 0; i < n; ++i) {
            int shift = 6 * (n - 1 - i);
            std::uint32_t bits = c >> shift;
            o += static_cast<char>(i == 0 ? (lead[n] | bits) : (0x80 | (bits & 0x3F)));
        }
        return o;
    }

    inline Char decode_at(const std::string& s, std::size_t at)
    {
        unsigned char b = static_cast<unsigned char>(s[at]);
        if (b < 0x80)
            return { b, 1, false };
        if (b < 0xC0)
            return { replacement, 1, true };
        std::size_t n = b < 0xE0 ? 2 : b < 0xF0 ? 3 : 4;
        if (s.size() - at < n)
            return { replacement, s.size() - at, true };
        std::uint32_t cp = n == 2 ? b & 0x1Fu : n == 3 ? b & 0x0Fu : b & 0x07u;
        bool ok = b < 0xF8;
        for (std::size_t i = 1; i < n; ++i) {
            unsigned char c = static_cast<unsigned char>(s[at + i]);
            ok = ok && c >= 0x80 && c < 0xC0;
            cp = (cp << 6) | (c & 0x3Fu);
        }
        ok = ok && cp <= 0x10FFFF && !(cp >= 0xD800 && cp <= 0xDFFF) && encode(cp).size() == n;
        return ok ? Char{ cp, n, false } : Char{ replacement, n, true };
    }

    inline std::vector<Char> decode(const std::string& s)
    {
        std::vector<Char> o;
        for (std::size_t at = 0; at < s.size(); at += o.back().length)
            o.push_back(decode_at(s, at));
        return o;
    }
}

#endif
