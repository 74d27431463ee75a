// Spaces of API Blueprint documents, and reading of parse results.
#ifndef VERIF_DOCS_HPP
#define VERIF_DOCS_HPP

#include "mc.hpp"
#include "drafter.h"
#include "options.h"
#include "elems.hpp"
#include "jv.hpp"
#include "ref_utf8.hpp"

namespace docs
{
    // one line of everything the format knows, and of things it does not
    inline const std::vector<std::string>& lines()
    {
        static const std::vector<std::string> l{ "", "FORMAT: 1A", "HOST: http://a.b", "# API", "# Group G", "## /r/{id}", "# GET /x{?q}", "### A [PUT /y]",
            "## M [/m/{a,b*}]", "### D [DELETE]", "# Data Structures", "## T (object)", "## U (T)", "## V (enum)", "## W (array[T])", "## T", "+ Parameters",
            "    + id: `1` (required, number) - text", "    + id (enum[string], optional)", "        + Default: `a`", "        + Members", "            + `a`",
            "+ Attributes (T)", "+ Attributes", "+ Attributes (array[U], fixed-type)", "    + a: 1, 2 (number, required) - d", "    + a (object)",
            "    + *v* (T, nullable)", "    + Include T", "    + One Of", "        + Properties", "            + b", "        + Sample: x", "        + Items",
            "+ a: 1 (boolean, fixed)", "+ Items", "+ Include U", "+ [Model][]", "+ Model (application/json)", "+ Request Name (text/plain)", "+ Response 200 (application/json)", "+ Response",
            "    + Headers", "            X-A: 1", "    + Body", "            {\"k\": 1}", "    + Schema", "        [M][]", "        body", "    body",
            "+ Relation: r", "text", "- x [link](http://a)", "> quote", "```", "---", "\xC3\xA9 \xE2\x82\xAC &amp; <b>", "[M][]", "1. one" };
        return l;
    }

    // where a document may have got to
    inline const std::vector<std::string>& contexts()
    {
        static const std::vector<std::string> c{ "", "FORMAT: 1A\n# API\n\n", "# Group G\n## R [/r/{id}]\n", "# GET /x\n+ Response 200\n", "## R [/r/{id}]\n+ Model (text/plain)\n\n        m\n\n### G [GET]\n",
            "# Data Structures\n## T (object)\n", "# Data Structures\n## T (object)\n+ a: 1 (number)\n\n## U (T)\n", "# POST /x\n+ Request\n    + Attributes (object)\n", "# GET /r/{id}\n+ Parameters\n" };
        return c;
    }

    struct Parsed {
        int code = 0;
        drafter_result* result = nullptr;
        Parsed() = default;
        Parsed(Parsed&& o) : code(o.code), result(o.result)
        {
            o.result = nullptr;
        }
        ~Parsed()
        {
            if (result)
                drafter_free_result(result);
        }
    };

    inline Parsed parse(const std::string& doc, const drafter_parse_options* options = nullptr)
    {
        Parsed p;
        p.code = drafter_parse_blueprint(doc.c_str(), &p.result, options);
        return p;
    }

    struct SerializeOptions {
        drafter_serialize_options* o = drafter_init_serialize_options();
        SerializeOptions(bool json, bool maps)
        {
            if (json)
                drafter_set_format(o, DRAFTER_SERIALIZE_JSON);
            if (maps)
                drafter_set_sourcemaps_included(o);
        }
        ~SerializeOptions()
        {
            drafter_free_serialize_options(o);
        }
    };

    inline std::string serialize(drafter_result* r, bool json, bool maps)
    {
        SerializeOptions o(json, maps);
        char* t = drafter_serialize(r, o.o);
        std::string s = t ? t : "<none>";
        std::free(t);
        return s;
    }

    inline std::string number(const em::Val& v)
    {
        return v.kind == em::Number ? v.text : "";
    }

    inline const em::Val* at(const em::Info& i, const std::string& k)
    {
        for (auto& e : i)
            if (e.first == k)
                return &e.second;
        return nullptr;
    }

    // f(source map attribute, element it is of) for every source map in the tree
    template <typename F>
    void sourceMaps(const em::Val& v, F& f)
    {
        for (auto i : { &v.attrs, &v.meta })
            for (auto& e : *i)
                if (e.first == "sourceMap")
                    f(e.second, v);
                else
                    sourceMaps(e.second, f);
        for (auto& k : v.kids)
            sourceMaps(k, f);
    }

    // every document made of a context and up to n lines of the vocabulary
    template <typename F>
    void each(mc::Ctx& ctx, unsigned maxLines, F f, const std::vector<std::string>& ctxs = contexts(), const std::vector<std::string>& vocabulary = lines())
    {
        std::uint64_t n = 0;
        for (auto& c : ctxs)
            for (unsigned len = 0; len <= maxLines; ++len) {
                std::vector<unsigned> at(len, 0);
                for (;;) {
                    ++n;
                    if (ctx.mine() && !ctx.full()) {
                        std::string doc = c;
                        for (auto i : at)
                            doc += vocabulary[i] + "\n";
                        auto describe = [&] { return mc::quote(doc); };
                        if (ctx.beginN(n, describe))
                            f(doc);
                    }
                    unsigned i = 0;
                    while (i < len && ++at[i] == vocabulary.size())
                        at[i++] = 0;
                    if (i == len)
                        break;
                }
            }
    }
}


#ifdef FIXTURES
#include <algorithm>
#include <filesystem>
#include <fstream>
#include <sstream>

namespace docs
{
    // the documents of the repository's own tests, less the few that are longer than that
    inline std::vector<std::pair<std::string, std::string> > fixtures(std::size_t most)
    {
        namespace fs = std::filesystem;
        std::vector<std::pair<std::string, std::string> > o;
        std::error_code none;
        for (fs::recursive_directory_iterator i(FIXTURES, none), end; i != end; i.increment(none)) {
            if (i->path().extension() != ".apib" || !i->is_regular_file(none) || i->file_size(none) > most)
                continue;
            std::ifstream f(i->path(), std::ios::binary);
            std::stringstream s;
            s << f.rdbuf();
            o.emplace_back(i->path().string(), s.str());
        }
        std::sort(o.begin(), o.end());
        return o;
    }

    // false if there is nothing to edit
    inline bool edit(std::vector<std::string>& l, std::size_t at, unsigned how)
    {
        switch (how) {
            case 0:
                l.erase(l.begin() + static_cast<long>(at));
                return true;
            case 1:
                l.insert(l.begin() + static_cast<long>(at), std::string(l[at]));
                return true;
            case 2:
                if (at + 1 == l.size() || l[at] == l[at + 1])
                    return false;
                std::swap(l[at], l[at + 1]);
                return true;
            case 3:
                l[at] = "    " + l[at];
                return true;
            case 4:
                if (l[at].compare(0, 4, "    ") != 0)
                    return false;
                l[at].erase(0, 4);
                return true;
            case 5:
                if (l[at] == "\n")
                    return false;
                l[at] = "\n";
                return true;
            case 6:
                if (at + 1 == l.size() || l[at].empty() || l[at].back() != '\n')
                    return false;
                l[at].pop_back();
                return true;
            default: // a line before which a section may not start
                l.insert(l.begin() + static_cast<long>(at), "+ x\n");
                return true;
        }
    }

    // the fixtures of up to so many bytes with one edit, or two: cut at each character (up to a length); a line removed,
    // doubled, moved down, moved in or out, made blank, joined with the next
    template <typename F>
    void edits(mc::Ctx& ctx, std::size_t cut, std::size_t most, bool two, F f)
    {
        std::uint64_t n = 0;
        auto run = [&](const std::string& doc) {
            auto describe = [&] { return mc::quote(doc); };
            if (ctx.beginN(n, describe))
                f(doc);
        };
        const unsigned kinds = 8;
        for (auto& file : fixtures(most)) {
            const std::string& whole = file.second;
            ++n;
            if (ctx.mine() && !ctx.full())
                run(whole);
            for (std::size_t end = 0; end < whole.size() && whole.size() < cut; ++end) {
                ++n;
                if (ctx.mine() && !ctx.full())
                    run(whole.substr(0, end));
            }
            std::vector<std::string> lines;
            for (std::size_t i = 0; i < whole.size();) {
                const std::size_t e = whole.find('\n', i);
                lines.push_back(whole.substr(i, e == std::string::npos ? e : e + 1 - i));
                i += lines.back().size();
            }
            auto join = [](const std::vector<std::string>& l) {
                std::string o;
                for (auto& x : l)
                    o += x;
                return o;
            };
            for (std::size_t i = 0; i < lines.size(); ++i)
                for (unsigned a = 0; a < kinds; ++a) {
                    auto once = lines;
                    ++n;
                    const bool mine = ctx.mine() && !ctx.full();
                    if (!edit(once, i, a))
                        continue;
                    if (mine)
                        run(join(once));
                    if (!two || lines.size() > 24)
                        continue;
                    for (std::size_t j = i; j < once.size(); ++j)
                        for (unsigned b = 0; b < kinds; ++b) {
                            ++n;
                            if (!ctx.mine() || ctx.full())
                                continue;
                            auto twice = once;
                            if (edit(twice, j, b))
                                run(join(twice));
                        }
                }
        }
    }
}
#endif

#endif
