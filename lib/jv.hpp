// Values read back from JSON (RFC 8259) and from the block subset of YAML 1.2, by strict readers that share no code with drafter.
#ifndef VERIF_JV_HPP
#define VERIF_JV_HPP

#include <cctype>
#include <cstdint>
#include <cstdlib>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace jv
{
    enum Kind
    {
        Null,
        True,
        False,
        String,
        Number,
        Object,
        Array
    };

    struct J {
        Kind kind = Null;
        std::string text; // of strings (decoded, UTF-8) and numbers (as written)
        std::vector<J> items;
        std::vector<std::pair<std::string, J> > members;

        J() = default;
        explicit J(Kind k) : kind(k) {}
        J(Kind k, std::string t) : kind(k), text(std::move(t)) {}

        const J* get(const std::string& key) const
        {
            for (auto& m : members)
                if (m.first == key)
                    return &m.second;
            return nullptr;
        }
        bool operator==(const J& o) const
        {
            return kind == o.kind && text == o.text && items == o.items && members == o.members;
        }
        bool operator!=(const J& o) const
        {
            return !(*this == o);
        }
    };

    inline J str(const std::string& s)
    {
        return J(String, s);
    }
    inline J num(const std::string& s)
    {
        return J(Number, s);
    }
    inline J arr(std::vector<J> v)
    {
        J j(Array);
        j.items = std::move(v);
        return j;
    }
    inline J obj(std::vector<std::pair<std::string, J> > v)
    {
        J j(Object);
        j.members = std::move(v);
        return j;
    }

    // one line, to compare and to show
    inline std::string show(const J& j)
    {
        std::string o;
        auto quoted = [](const std::string& s) {
            std::string q = "\"";
            char b[8];
            for (unsigned char c : s)
                if (c < 0x20 || c >= 0x7f || c == '"' || c == '\\') {
                    std::snprintf(b, sizeof b, "\\x%02x", c);
                    q += b;
                } else
                    q += static_cast<char>(c);
            return q + "\"";
        };
        switch (j.kind) {
            case Null:
                return "null";
            case True:
                return "true";
            case False:
                return "false";
            case Number:
                return j.text;
            case String:
                return quoted(j.text);
            case Object:
                for (auto& m : j.members)
                    o += (o.empty() ? "" : ",") + quoted(m.first) + ":" + show(m.second);
                return "{" + o + "}";
            default:
                for (auto& i : j.items)
                    o += (o.empty() ? "" : ",") + show(i);
                return "[" + o + "]";
        }
    }

    inline void put(std::string& o, std::uint32_t c)
    {
        if (c < 0x80)
            o += static_cast<char>(c);
        else if (c < 0x800) {
            o += static_cast<char>(0xC0 | (c >> 6));
            o += static_cast<char>(0x80 | (c & 0x3F));
        } else if (c < 0x10000) {
            o += static_cast<char>(0xE0 | (c >> 12));
            o += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            o += static_cast<char>(0x80 | (c & 0x3F));
        } else {
            o += static_cast<char>(0xF0 | (c >> 18));
            o += static_cast<char>(0x80 | ((c >> 12) & 0x3F));
            o += static_cast<char>(0x80 | ((c >> 6) & 0x3F));
            o += static_cast<char>(0x80 | (c & 0x3F));
        }
    }

    struct Bad : std::runtime_error {
        using std::runtime_error::runtime_error;
    };

    // is it a JSON number?
    inline bool isNumber(const std::string& s)
    {
        std::size_t i = 0;
        auto digits = [&] {
            std::size_t n = 0;
            while (i < s.size() && s[i] >= '0' && s[i] <= '9')
                ++i, ++n;
            return n;
        };
        if (i < s.size() && s[i] == '-')
            ++i;
        const std::size_t b = i;
        const std::size_t n = digits();
        if (!n || (n > 1 && s[b] == '0'))
            return false;
        if (i < s.size() && s[i] == '.') {
            ++i;
            if (!digits())
                return false;
        }
        if (i < s.size() && (s[i] == 'e' || s[i] == 'E')) {
            ++i;
            if (i < s.size() && (s[i] == '+' || s[i] == '-'))
                ++i;
            if (!digits())
                return false;
        }
        return i == s.size();
    }

    class JsonReader
    {
        const std::string& s;
        std::size_t i = 0;

        [[noreturn]] void bad(const std::string& what) const
        {
            throw Bad(what + " at " + std::to_string(i));
        }
        void space()
        {
            while (i < s.size() && (s[i] == ' ' || s[i] == '\n' || s[i] == '\r' || s[i] == '\t'))
                ++i;
        }
        std::uint32_t hex4()
        {
            std::uint32_t v = 0;
            for (int k = 0; k < 4; ++k, ++i) {
                if (i >= s.size() || !std::isxdigit(static_cast<unsigned char>(s[i])))
                    bad("not a \\u escape");
                v = v * 16 + static_cast<std::uint32_t>(std::strtol(std::string(1, s[i]).c_str(), nullptr, 16));
            }
            return v;
        }
        std::string string()
        {
            std::string o;
            ++i;
            for (;;) {
                if (i >= s.size())
                    bad("open string");
                const unsigned char c = static_cast<unsigned char>(s[i]);
                if (c == '"') {
                    ++i;
                    return o;
                }
                if (c < 0x20)
                    bad("control character in a string");
                ++i;
                if (c != '\\') {
                    o += static_cast<char>(c);
                    continue;
                }
                const char e = i < s.size() ? s[i] : 0;
                ++i;
                switch (e) {
                    case '"':
                    case '\\':
                    case '/':
                        o += e;
                        break;
                    case 'b':
                        o += '\b';
                        break;
                    case 'f':
                        o += '\f';
                        break;
                    case 'n':
                        o += '\n';
                        break;
                    case 'r':
                        o += '\r';
                        break;
                    case 't':
                        o += '\t';
                        break;
                    case 'u': {
                        std::uint32_t c = hex4();
                        if (c >= 0xD800 && c < 0xDC00 && s.compare(i, 2, "\\u") == 0) {
                            i += 2;
                            const std::uint32_t d = hex4();
                            if (d < 0xDC00 || d > 0xDFFF)
                                bad("lone surrogate");
                            c = 0x10000 + ((c - 0xD800) << 10) + (d - 0xDC00);
                        } else if (c >= 0xD800 && c <= 0xDFFF)
                            bad("lone surrogate");
                        put(o, c);
                        break;
                    }
                    default:
                        bad("unknown escape");
                }
            }
        }
        J value(int depth)
        {
            if (depth > 500)
                bad("too deep");
            space();
            if (i >= s.size())
                bad("nothing");
            J j;
            if (s[i] == '"') {
                j.kind = String;
                j.text = string();
            } else if (s[i] == '{') {
                j.kind = Object;
                ++i;
                space();
                if (i < s.size() && s[i] == '}')
                    ++i;
                else
                    for (;;) {
                        space();
                        if (i >= s.size() || s[i] != '"')
                            bad("no key");
                        std::string k = string();
                        space();
                        if (i >= s.size() || s[i] != ':')
                            bad("no colon");
                        ++i;
                        j.members.emplace_back(std::move(k), value(depth + 1));
                        space();
                        if (i < s.size() && s[i] == ',') {
                            ++i;
                            continue;
                        }
                        if (i >= s.size() || s[i] != '}')
                            bad("object not closed");
                        ++i;
                        break;
                    }
            } else if (s[i] == '[') {
                j.kind = Array;
                ++i;
                space();
                if (i < s.size() && s[i] == ']')
                    ++i;
                else
                    for (;;) {
                        j.items.push_back(value(depth + 1));
                        space();
                        if (i < s.size() && s[i] == ',') {
                            ++i;
                            continue;
                        }
                        if (i >= s.size() || s[i] != ']')
                            bad("array not closed");
                        ++i;
                        break;
                    }
            } else {
                std::string word;
                while (i < s.size() && (std::isalnum(static_cast<unsigned char>(s[i])) || s[i] == '-' || s[i] == '+' || s[i] == '.'))
                    word += s[i++];
                if (word == "null")
                    j.kind = Null;
                else if (word == "true")
                    j.kind = True;
                else if (word == "false")
                    j.kind = False;
                else if (isNumber(word)) {
                    j.kind = Number;
                    j.text = word;
                } else
                    bad("no value");
            }
            return j;
        }

    public:
        explicit JsonReader(const std::string& t) : s(t) {}
        J read()
        {
            J j = value(0);
            space();
            if (i != s.size())
                bad("something after the value");
            return j;
        }
    };

    inline J readJson(const std::string& s)
    {
        return JsonReader(s).read();
    }

    // Block mappings and sequences, plain and double-quoted scalars on one line, {} and []
    class YamlReader
    {
        struct Line {
            std::size_t indent;
            std::string text;
        };
        std::vector<Line> lines;
        std::size_t at = 0;

        [[noreturn]] void bad(const std::string& what) const
        {
            throw Bad(what + " in line " + std::to_string(at + 1) + (at < lines.size() ? ": " + lines[at].text : ""));
        }

        std::string quoted(const std::string& t, std::size_t& i) const
        {
            std::string o;
            ++i;
            for (;;) {
                if (i >= t.size())
                    bad("open string");
                const unsigned char c = static_cast<unsigned char>(t[i]);
                ++i;
                if (c == '"')
                    return o;
                if (c < 0x20 || c == 0x7f)
                    bad("control character in a string");
                if (c != '\\') {
                    o += static_cast<char>(c);
                    continue;
                }
                const char e = i < t.size() ? t[i] : 0;
                ++i;
                int digits = 0;
                switch (e) {
                    case '0':
                        o += '\0';
                        break;
                    case 'a':
                        o += '\a';
                        break;
                    case 'b':
                        o += '\b';
                        break;
                    case 't':
                        o += '\t';
                        break;
                    case 'n':
                        o += '\n';
                        break;
                    case 'v':
                        o += '\v';
                        break;
                    case 'f':
                        o += '\f';
                        break;
                    case 'r':
                        o += '\r';
                        break;
                    case 'e':
                        o += '\x1b';
                        break;
                    case ' ':
                    case '"':
                    case '/':
                    case '\\':
                        o += e;
                        break;
                    case 'N':
                        put(o, 0x85);
                        break;
                    case '_':
                        put(o, 0xA0);
                        break;
                    case 'L':
                        put(o, 0x2028);
                        break;
                    case 'P':
                        put(o, 0x2029);
                        break;
                    case 'x':
                        digits = 2;
                        break;
                    case 'u':
                        digits = 4;
                        break;
                    case 'U':
                        digits = 8;
                        break;
                    default:
                        bad("unknown escape");
                }
                if (digits) {
                    std::uint32_t v = 0;
                    for (; digits; --digits, ++i) {
                        if (i >= t.size() || !std::isxdigit(static_cast<unsigned char>(t[i])))
                            bad("not an escape");
                        v = v * 16 + static_cast<std::uint32_t>(std::strtol(std::string(1, t[i]).c_str(), nullptr, 16));
                    }
                    if (v > 0x10FFFF || (v >= 0xD800 && v <= 0xDFFF))
                        bad("escape of no character");
                    put(o, v);
                }
            }
        }

        // what a plain scalar stands for (core schema, and the words YAML 1.1 takes for booleans)
        J plain(const std::string& w) const
        {
            auto is = [&](std::initializer_list<const char*> l) {
                for (auto x : l)
                    if (w == x)
                        return true;
                return false;
            };
            if (is({ "", "~", "null", "Null", "NULL" }))
                return J(Null);
            if (is({ "true", "True", "TRUE", "yes", "Yes", "YES", "on", "On", "ON", "y", "Y" }))
                return J(True);
            if (is({ "false", "False", "FALSE", "no", "No", "NO", "off", "Off", "OFF", "n", "N" }))
                return J(False);
            if (isNumber(w))
                return num(w);
            for (char c : w)
                if (!std::isalnum(static_cast<unsigned char>(c)) && c != '-' && c != '_')
                    bad("no plain scalar: " + w);
            return str(w);
        }

        J scalar(const std::string& t) const
        {
            if (t == "{}")
                return J(Object);
            if (t == "[]")
                return J(Array);
            if (!t.empty() && t[0] == '"') {
                std::size_t i = 0;
                J j = str(quoted(t, i));
                if (i != t.size())
                    bad("something after a string");
                return j;
            }
            return plain(t);
        }

        // after "key:" or "-"
        J rest(const std::string& t, std::size_t indent)
        {
            ++at;
            if (!t.empty()) {
                if (t[0] != ' ' || t.size() < 2 || t[1] == ' ')
                    bad("one space expected");
                return scalar(t.substr(1));
            }
            if (at < lines.size() && lines[at].indent > indent)
                return block(lines[at].indent);
            return J(Null);
        }

        J block(std::size_t indent)
        {
            J j;
            bool first = true;
            while (at < lines.size() && lines[at].indent >= indent) {
                const std::string t = lines[at].text;
                if (lines[at].indent != indent)
                    bad("indented too far");
                const bool item = t[0] == '-' && (t.size() == 1 || t[1] == ' ');
                if (first)
                    j.kind = item ? Array : Object;
                else if ((j.kind == Array) != item)
                    bad("items and members mixed");
                first = false;
                if (item)
                    j.items.push_back(rest(t.substr(1), indent));
                else {
                    std::size_t i = 0;
                    std::string key;
                    if (t[0] == '"')
                        key = quoted(t, i);
                    else {
                        while (i < t.size() && t[i] != ':')
                            ++i;
                        key = t.substr(0, i);
                        if (plain(key).kind != String)
                            bad("a key that is no string");
                    }
                    if (i >= t.size() || t[i] != ':')
                        bad("no colon");
                    j.members.emplace_back(key, rest(t.substr(i + 1), indent));
                }
            }
            return j;
        }

    public:
        explicit YamlReader(const std::string& s)
        {
            std::size_t b = 0;
            for (;;) {
                const std::size_t e = s.find('\n', b);
                const std::string l = s.substr(b, e == std::string::npos ? e : e - b);
                const std::size_t indent = std::min(l.find_first_not_of(' '), l.size());
                lines.push_back(Line{ indent, l.substr(indent) });
                if (e == std::string::npos)
                    break;
                b = e + 1;
            }
            for (at = 0; at < lines.size(); ++at)
                if (lines[at].text.empty() && lines.size() > 1)
                    bad("empty line");
            at = 0;
        }
        J read()
        {
            if (lines.size() == 1) {
                const std::string& t = lines[0].text;
                const bool member = t[0] != '"' && t.find(':') != std::string::npos;
                bool quotedMember = false;
                if (t[0] == '"') {
                    std::size_t i = 0;
                    quoted(t, i);
                    quotedMember = i < t.size() && t[i] == ':';
                }
                if (!member && !quotedMember && !(t[0] == '-' && (t.size() == 1 || t[1] == ' ')))
                    return scalar(t);
            }
            J j = block(0);
            if (at != lines.size())
                bad("something after the value");
            return j;
        }
    };

    inline J readYaml(const std::string& s)
    {
        return YamlReader(s).read();
    }
}

#endif
