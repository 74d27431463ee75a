// Is a JSON value an instance of a JSON Schema (draft 7, but for references and formats)? And is it such a schema at all?
#ifndef VERIF_SCHEMA_HPP
#define VERIF_SCHEMA_HPP

#include "jv.hpp"
#include <map>
#include <regex>
#include <set>

namespace js
{
    using jv::J;

    inline bool same(const J& a, const J& b)
    {
        if (a.kind != b.kind)
            return false;
        switch (a.kind) {
            case jv::Number:
                return a.text == b.text || std::strtod(a.text.c_str(), nullptr) == std::strtod(b.text.c_str(), nullptr);
            case jv::String:
                return a.text == b.text;
            case jv::Array:
                if (a.items.size() != b.items.size())
                    return false;
                for (std::size_t i = 0; i < a.items.size(); ++i)
                    if (!same(a.items[i], b.items[i]))
                        return false;
                return true;
            case jv::Object:
                if (a.members.size() != b.members.size())
                    return false;
                for (auto& m : a.members) {
                    auto o = b.get(m.first);
                    if (!o || !same(m.second, *o))
                        return false;
                }
                return true;
            default:
                return true;
        }
    }

    inline bool matches(const std::string& pattern, const std::string& s)
    {
        if (pattern == "(?:)")
            return true;
        static std::map<std::string, std::regex> known;
        auto it = known.find(pattern);
        if (it == known.end())
            it = known.emplace(pattern, std::regex(pattern, std::regex::ECMAScript)).first;
        return std::regex_search(s, it->second);
    }

    // the reason it is no schema, or nothing
    inline std::string malformed(const J& s)
    {
        if (s.kind == jv::True || s.kind == jv::False)
            return "";
        if (s.kind != jv::Object)
            return "a schema that is " + jv::show(s);
        std::set<std::string> seen;
        for (auto& m : s.members) {
            if (!seen.insert(m.first).second)
                return "'" + m.first + "' twice";
            const std::string& k = m.first;
            const J& v = m.second;
            auto schemas = [&](const J& list) -> std::string {
                if (list.kind != jv::Array || list.items.empty())
                    return "'" + k + "' of no schemas";
                for (auto& x : list.items) {
                    auto r = malformed(x);
                    if (!r.empty())
                        return r;
                }
                return "";
            };
            std::string r;
            if (k == "$schema")
                r = v.kind == jv::String && v.text == "http://json-schema.org/draft-07/schema#" ? "" : "of another version";
            else if (k == "type") {
                static const std::set<std::string> types{ "null", "boolean", "object", "array", "number", "string", "integer" };
                r = v.kind == jv::String && types.count(v.text) ? "" : "unknown type";
            } else if (k == "const")
                ;
            else if (k == "enum") {
                r = v.kind == jv::Array ? "" : "an enum that is no list";
                for (std::size_t i = 0; r.empty() && i < v.items.size(); ++i)
                    for (std::size_t j = 0; j < i; ++j)
                        if (same(v.items[i], v.items[j]))
                            r = "an enum with a value twice";
            } else if (k == "anyOf" || k == "oneOf" || k == "allOf")
                r = schemas(v);
            else if (k == "properties" || k == "patternProperties") {
                if (v.kind != jv::Object)
                    r = "'" + k + "' that is no object";
                std::set<std::string> keys;
                for (auto& p : v.members) {
                    if (!keys.insert(p.first).second)
                        r = "property '" + p.first + "' twice";
                    if (r.empty())
                        r = malformed(p.second);
                    if (k == "patternProperties")
                        try {
                            matches(p.first, "");
                        } catch (const std::regex_error&) {
                            r = "a pattern that is no regular expression: " + p.first;
                        }
                }
            } else if (k == "required") {
                if (v.kind != jv::Array)
                    r = "'required' that is no array";
                std::set<std::string> keys;
                for (auto& x : v.items)
                    if (x.kind != jv::String || !keys.insert(x.text).second)
                        r = "'required' with a key twice";
            } else if (k == "items")
                r = v.kind == jv::Array ? (v.items.empty() ? "" : schemas(v)) : malformed(v);
            else if (k == "additionalItems" || k == "additionalProperties")
                r = malformed(v);
            else if (k == "minItems" || k == "maxItems")
                r = v.kind == jv::Number && v.text.find_first_not_of("0123456789") == std::string::npos ? "" : "'" + k + "' that is no count";
            else
                r = "unknown keyword '" + k + "'";
            if (!r.empty())
                return r;
        }
        return "";
    }

    inline bool valid(const J& s, const J& v)
    {
        if (s.kind == jv::True)
            return true;
        if (s.kind == jv::False)
            return false;
        const J* properties = s.get("properties");
        const J* patterns = s.get("patternProperties");
        const J* items = s.get("items");
        for (auto& m : s.members) {
            const std::string& k = m.first;
            const J& a = m.second;
            bool ok = true;
            if (k == "type") {
                static const std::map<std::string, jv::Kind> kinds{ { "null", jv::Null }, { "object", jv::Object }, { "array", jv::Array }, { "number", jv::Number }, { "string", jv::String } };
                if (a.text == "boolean")
                    ok = v.kind == jv::True || v.kind == jv::False;
                else
                    ok = kinds.at(a.text) == v.kind;
            } else if (k == "const")
                ok = same(a, v);
            else if (k == "enum") {
                ok = false;
                for (auto& x : a.items)
                    ok = ok || same(x, v);
            } else if (k == "anyOf" || k == "oneOf" || k == "allOf") {
                unsigned n = 0;
                for (auto& x : a.items)
                    n += valid(x, v);
                ok = k == "anyOf" ? n : k == "oneOf" ? n == 1 : n == a.items.size();
            } else if (v.kind == jv::Object) {
                if (k == "required")
                    for (auto& x : a.items)
                        ok = ok && v.get(x.text);
                else if (k == "properties") {
                    for (auto& p : v.members)
                        if (auto x = a.get(p.first))
                            ok = ok && valid(*x, p.second);
                } else if (k == "patternProperties") {
                    for (auto& p : v.members)
                        for (auto& x : a.members)
                            if (matches(x.first, p.first))
                                ok = ok && valid(x.second, p.second);
                } else if (k == "additionalProperties")
                    for (auto& p : v.members) {
                        bool known = properties && properties->get(p.first);
                        if (patterns)
                            for (auto& x : patterns->members)
                                known = known || matches(x.first, p.first);
                        ok = ok && (known || valid(a, p.second));
                    }
            } else if (v.kind == jv::Array) {
                if (k == "minItems")
                    ok = v.items.size() >= std::strtoul(a.text.c_str(), nullptr, 10);
                else if (k == "maxItems")
                    ok = v.items.size() <= std::strtoul(a.text.c_str(), nullptr, 10);
                else if (k == "items")
                    for (std::size_t i = 0; i < v.items.size(); ++i) {
                        if (a.kind != jv::Array)
                            ok = ok && valid(a, v.items[i]);
                        else if (i < a.items.size())
                            ok = ok && valid(a.items[i], v.items[i]);
                    }
                else if (k == "additionalItems" && items && items->kind == jv::Array)
                    for (std::size_t i = items->items.size(); i < v.items.size(); ++i)
                        ok = ok && valid(a, v.items[i]);
            }
            if (!ok)
                return false;
        }
        return true;
    }
}

#endif
