// See markdown.h. The block structure follows sundown 1.16 with lists always in block mode; inline text is passed on with
// its backslash escapes undone. Every byte of text knows its place in the source, so that the maps are exact.
#include "markdown.h"

#include <cctype>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <vector>

extern "C" struct buf* bufnew(size_t unit)
{
    buf* b = static_cast<buf*>(std::calloc(1, sizeof(buf)));
    b->unit = unit;
    return b;
}
extern "C" void bufput(struct buf* b, const void* p, size_t n)
{
    if (b->size + n > b->asize) {
        b->asize = (b->size + n) * 2;
        b->data = static_cast<uint8_t*>(std::realloc(b->data, b->asize));
    }
    std::memcpy(b->data + b->size, p, n);
    b->size += n;
}
extern "C" void bufrelease(struct buf* b)
{
    if (b)
        std::free(b->data);
    std::free(b);
}

struct sd_markdown {
    sd_callbacks cb;
    void* opaque;
    unsigned ext;
    size_t max_nesting;
};

namespace
{
    struct Text {
        std::vector<uint8_t> c;
        std::vector<size_t> at; // where each byte is in the source
        void put(uint8_t x, size_t a)
        {
            c.push_back(x);
            at.push_back(a);
        }
    };

    struct View {
        const uint8_t* d;
        const size_t* at;
        size_t n;
        uint8_t operator[](size_t i) const { return d[i]; }
        View from(size_t i) const { return View{ d + i, at + i, n - i }; }
        View sub(size_t i, size_t m) const { return View{ d + i, at + i, m }; }
        explicit View(const Text& t) : d(t.c.data()), at(t.at.data()), n(t.c.size()) {}
        View(const uint8_t* d, const size_t* at, size_t n) : d(d), at(at), n(n) {}
    };

    bool space(uint8_t c)
    {
        return c == ' ' || c == '\n';
    }

    size_t is_empty(View v)
    {
        size_t i;
        for (i = 0; i < v.n && v[i] != '\n'; i++)
            if (v[i] != ' ')
                return 0;
        return i + 1;
    }

    size_t indent3(View v)
    {
        size_t i = 0;
        while (i < 3 && i < v.n && v[i] == ' ')
            i++;
        return i;
    }

    bool is_hrule(View v)
    {
        if (v.n < 3)
            return false;
        size_t i = indent3(v), n = 0;
        if (i + 2 >= v.n || (v[i] != '*' && v[i] != '-' && v[i] != '_'))
            return false;
        const uint8_t c = v[i];
        for (; i < v.n && v[i] != '\n'; i++)
            if (v[i] == c)
                n++;
            else if (v[i] != ' ')
                return false;
        return n >= 3;
    }

    size_t prefix_codefence(View v)
    {
        if (v.n < 3)
            return 0;
        size_t i = indent3(v), n = 0;
        if (i + 2 >= v.n || !(v[i] == '~' || v[i] == '`'))
            return 0;
        const uint8_t c = v[i];
        while (i < v.n && v[i] == c)
            n++, i++;
        return n < 3 ? 0 : i;
    }

    size_t is_codefence(View v, View* syntax)
    {
        size_t i = prefix_codefence(v), len = 0;
        if (!i)
            return 0;
        while (i < v.n && v[i] == ' ')
            i++;
        size_t start = i;
        if (i < v.n && v[i] == '{') {
            i++, start++;
            while (i < v.n && v[i] != '}' && v[i] != '\n')
                len++, i++;
            if (i == v.n || v[i] != '}')
                return 0;
            while (len && space(v[start]))
                start++, len--;
            while (len && space(v[start + len - 1]))
                len--;
            i++;
        } else
            while (i < v.n && !space(v[i]))
                len++, i++;
        if (syntax)
            *syntax = v.sub(start, len);
        for (; i < v.n && v[i] != '\n'; i++)
            if (!space(v[i]))
                return 0;
        return i + 1;
    }

    int is_headerline(View v)
    {
        if (!v.n || (v[0] != '=' && v[0] != '-'))
            return 0;
        size_t i = 1;
        while (i < v.n && v[i] == v[0])
            i++;
        while (i < v.n && v[i] == ' ')
            i++;
        return (i >= v.n || v[i] == '\n') ? (v[0] == '=' ? 1 : 2) : 0;
    }

    int is_next_headerline(View v)
    {
        size_t i = 0;
        while (i < v.n && v[i] != '\n')
            i++;
        return ++i >= v.n ? 0 : is_headerline(v.from(i));
    }

    size_t prefix_quote(View v)
    {
        const size_t i = indent3(v);
        if (i < v.n && v[i] == '>')
            return i + 1 < v.n && v[i + 1] == ' ' ? i + 2 : i + 1;
        return 0;
    }

    size_t prefix_code(View v)
    {
        return v.n > 3 && v[0] == ' ' && v[1] == ' ' && v[2] == ' ' && v[3] == ' ' ? 4 : 0;
    }

    size_t prefix_oli(View v)
    {
        size_t i = indent3(v);
        if (i >= v.n || !std::isdigit(v[i]))
            return 0;
        while (i < v.n && std::isdigit(v[i]))
            i++;
        if (i + 1 >= v.n || v[i] != '.' || v[i + 1] != ' ' || is_next_headerline(v.from(i)))
            return 0;
        return i + 2;
    }

    size_t prefix_uli(View v)
    {
        const size_t i = indent3(v);
        if (i + 1 >= v.n || (v[i] != '*' && v[i] != '+' && v[i] != '-') || v[i + 1] != ' ' || is_next_headerline(v.from(i)))
            return 0;
        return i + 2;
    }

    const char* const block_tags[] = { "p", "dl", "h1", "h2", "h3", "h4", "h5", "h6", "ol", "ul", "del", "div", "ins", "pre", "form",
        "math", "table", "figure", "iframe", "script", "style", "fieldset", "noscript", "blockquote" };

    const char* find_block_tag(const uint8_t* s, size_t n)
    {
        for (auto t : block_tags)
            if (std::strlen(t) == n && !strncasecmp(t, reinterpret_cast<const char*>(s), n))
                return t;
        return nullptr;
    }

    struct Parser {
        sd_markdown& md;
        size_t depth = 0;
        bool told = false; // of both blocks that came out of one

        explicit Parser(sd_markdown& md) : md(md) {}

        void did(View v, size_t beg, size_t n)
        {
            std::vector<range> r;
            for (size_t i = beg; i < beg + n && i < v.n; ++i) {
                if (!r.empty() && r.back().loc + r.back().len == v.at[i])
                    r.back().len++;
                else
                    r.push_back(range{ v.at[i], 1 });
            }
            if (r.empty() || !md.cb.block_did_parse)
                return;
            std::vector<void*> p;
            for (auto& x : r)
                p.push_back(&x);
            src_map m{ p.data(), p.size(), p.size() };
            md.cb.block_did_parse(&m, v.d + beg, n, md.opaque);
        }

        // inline text: only escapes mean anything, as no inline callback is ever set
        std::vector<uint8_t> inlined(View v)
        {
            std::vector<uint8_t> o;
            for (size_t i = 0; i < v.n; ++i) {
                if (v[i] == '\\' && i + 1 < v.n && v[i + 1] && std::strchr("\\`*_{}[]()#+-.!:|&<>^~", v[i + 1]))
                    ++i;
                o.push_back(v[i]);
            }
            return o;
        }

        static buf as(const std::vector<uint8_t>& o)
        {
            return buf{ const_cast<uint8_t*>(o.data()), o.size(), o.size(), 0 };
        }

        void paragraph(View v)
        {
            const auto t = inlined(v);
            const buf b = as(t);
            if (md.cb.paragraph)
                md.cb.paragraph(nullptr, &b, md.opaque);
        }

        void header(View v, int level)
        {
            const auto t = inlined(v);
            const buf b = as(t);
            if (md.cb.header)
                md.cb.header(nullptr, &b, level, md.opaque);
        }

        size_t htmlblock_end_tag(const char* tag, size_t len, View v)
        {
            if (len + 3 >= v.n || strncasecmp(reinterpret_cast<const char*>(v.d) + 2, tag, len) || v[len + 2] != '>')
                return 0;
            size_t i = len + 3, w = 0;
            if (i < v.n && (w = is_empty(v.from(i))) == 0)
                return 0;
            i += w;
            w = 0;
            if (i < v.n)
                w = is_empty(v.from(i));
            return i + w;
        }

        size_t htmlblock_end(const char* tag, View v, bool start_of_line)
        {
            const size_t len = std::strlen(tag);
            size_t i = 1;
            int lines = 0;
            while (i < v.n) {
                i++;
                while (i < v.n && !(v[i - 1] == '<' && v[i] == '/')) {
                    if (v[i] == '\n')
                        lines++;
                    i++;
                }
                if (start_of_line && lines > 0 && v[i - 2] != '\n')
                    continue;
                if (i + 2 + len >= v.n)
                    break;
                if (const size_t e = htmlblock_end_tag(tag, len, v.from(i - 1)))
                    return i + e - 1;
            }
            return 0;
        }

        size_t html(View v, size_t n, bool render)
        {
            if (n > v.n)
                n = v.n;
            const buf b{ const_cast<uint8_t*>(v.d), n, n, 0 };
            if (render && md.cb.blockhtml)
                md.cb.blockhtml(nullptr, &b, md.opaque);
            return n;
        }

        size_t parse_htmlblock(View v, bool render)
        {
            if (v.n < 2 || v[0] != '<')
                return 0;
            size_t i = 1, j = 0;
            while (i < v.n && v[i] != '>' && v[i] != ' ')
                i++;
            const char* tag = i < v.n ? find_block_tag(v.d + 1, i - 1) : nullptr;
            if (!tag) {
                if (v.n > 5 && v[1] == '!' && v[2] == '-' && v[3] == '-') {
                    i = 5;
                    while (i < v.n && !(v[i - 2] == '-' && v[i - 1] == '-' && v[i] == '>'))
                        i++;
                    i++;
                    if (i < v.n)
                        j = is_empty(v.from(i));
                    if (j)
                        return html(v, i + j, render);
                }
                if (v.n > 4 && (v[1] == 'h' || v[1] == 'H') && (v[2] == 'r' || v[2] == 'R')) {
                    i = 3;
                    while (i < v.n && v[i] != '>')
                        i++;
                    if (i + 1 < v.n) {
                        i++;
                        j = is_empty(v.from(i));
                        if (j)
                            return html(v, i + j, render);
                    }
                }
                return 0;
            }
            size_t e = htmlblock_end(tag, v, true);
            if (!e && std::strcmp(tag, "ins") && std::strcmp(tag, "del"))
                e = htmlblock_end(tag, v, false);
            return e ? html(v, e, render) : 0;
        }

        size_t parse_atxheader(View v)
        {
            size_t level = 0, i, end;
            while (level < v.n && level < 6 && v[level] == '#')
                level++;
            for (i = level; i < v.n && v[i] == ' '; i++)
                ;
            for (end = i; end < v.n && v[end] != '\n'; end++)
                ;
            const size_t skip = end;
            while (end && v[end - 1] == '#')
                end--;
            while (end && v[end - 1] == ' ')
                end--;
            if (end > i)
                header(v.sub(i, end - i), static_cast<int>(level));
            return skip;
        }

        size_t parse_fencedcode(View v)
        {
            View lang(nullptr, nullptr, 0);
            size_t beg = is_codefence(v, &lang), end;
            if (!beg)
                return 0;
            std::vector<uint8_t> work;
            while (beg < v.n) {
                View trail(nullptr, nullptr, 0);
                const size_t fence = is_codefence(v.from(beg), &trail);
                if (fence && !trail.n) {
                    beg += fence;
                    break;
                }
                for (end = beg + 1; end < v.n && v[end - 1] != '\n'; end++)
                    ;
                if (is_empty(v.sub(beg, end - beg)))
                    work.push_back('\n');
                else
                    work.insert(work.end(), v.d + beg, v.d + end);
                beg = end;
            }
            if (!work.empty() && work.back() != '\n')
                work.push_back('\n');
            const buf b = as(work);
            const buf l{ const_cast<uint8_t*>(lang.d), lang.n, lang.n, 0 };
            if (md.cb.blockcode)
                md.cb.blockcode(nullptr, &b, lang.n ? &l : nullptr, md.opaque);
            return beg;
        }

        size_t parse_blockcode(View v)
        {
            std::vector<uint8_t> work;
            size_t beg = 0, end;
            while (beg < v.n) {
                for (end = beg + 1; end < v.n && v[end - 1] != '\n'; end++)
                    ;
                const size_t pre = prefix_code(v.sub(beg, end - beg));
                if (pre)
                    beg += pre;
                else if (!is_empty(v.sub(beg, end - beg)))
                    break;
                if (beg < end) {
                    if (is_empty(v.sub(beg, end - beg)))
                        work.push_back('\n');
                    else
                        work.insert(work.end(), v.d + beg, v.d + end);
                }
                beg = end;
            }
            while (!work.empty() && work.back() == '\n')
                work.pop_back();
            work.push_back('\n');
            const buf b = as(work);
            if (md.cb.blockcode)
                md.cb.blockcode(nullptr, &b, nullptr, md.opaque);
            return beg;
        }

        size_t parse_blockquote(View v)
        {
            Text work;
            size_t beg = 0, end = 0;
            if (md.cb.blockquote_begin)
                md.cb.blockquote_begin(md.opaque);
            while (beg < v.n) {
                for (end = beg + 1; end < v.n && v[end - 1] != '\n'; end++)
                    ;
                const size_t pre = prefix_quote(v.sub(beg, end - beg));
                if (pre)
                    beg += pre;
                else if (is_empty(v.sub(beg, end - beg)) && (end >= v.n || (!prefix_quote(v.from(end)) && !is_empty(v.from(end)))))
                    break;
                for (size_t i = beg; i < end; ++i)
                    work.put(v[i], v.at[i]);
                beg = end;
            }
            ++depth;
            parse_block(View(work));
            --depth;
            const buf b{ nullptr, 0, 0, 0 };
            if (md.cb.blockquote)
                md.cb.blockquote(nullptr, &b, md.opaque);
            return end;
        }

        size_t parse_paragraph(View v)
        {
            size_t i = 0, end = 0;
            int level = 0;
            while (i < v.n) {
                for (end = i + 1; end < v.n && v[end - 1] != '\n'; end++)
                    ;
                const View r = v.from(i);
                if (is_empty(r))
                    break;
                if ((level = is_headerline(r)) != 0)
                    break;
                if (r[0] == '#' || is_hrule(r) || prefix_quote(r)) {
                    end = i;
                    break;
                }
                if ((md.ext & MKDEXT_LAX_SPACING) && !std::isalnum(r[0])) {
                    if (prefix_oli(r) || prefix_uli(r) || (r[0] == '<' && md.cb.blockhtml && parse_htmlblock(r, false))
                        || ((md.ext & MKDEXT_FENCED_CODE) && is_codefence(r, nullptr))) {
                        end = i;
                        break;
                    }
                }
                i = end;
            }
            View w = v.sub(0, i);
            while (w.n && v[w.n - 1] == '\n')
                w.n--;
            if (!level) {
                paragraph(w);
                return end;
            }
            if (w.n) {
                const size_t all = w.n;
                w.n--;
                while (w.n && v[w.n] != '\n')
                    w.n--;
                const size_t beg = w.n + 1;
                while (w.n && v[w.n - 1] == '\n')
                    w.n--;
                if (w.n) {
                    paragraph(w);
                    did(v, 0, beg);
                    header(v.sub(beg, all - beg), level);
                    did(v, beg, end - beg);
                    told = true;
                    return end;
                }
                w.n = all;
            }
            header(w, level);
            return end;
        }

        size_t parse_listitem(View v, int* flags)
        {
            size_t orgpre = indent3(v), sublist = 0, end, i;
            bool in_empty = false, in_fence = false;
            size_t blank = 0;
            size_t beg = prefix_uli(v);
            if (!beg)
                beg = prefix_oli(v);
            if (!beg)
                return 0;
            for (end = beg; end < v.n && v[end - 1] != '\n'; end++)
                ;
            if (md.cb.listitem_begin)
                md.cb.listitem_begin(*flags, md.opaque);
            Text work;
            for (i = beg; i < end; ++i)
                work.put(v[i], v.at[i]);
            beg = end;
            while (beg < v.n) {
                size_t uli = 0, oli = 0;
                end++;
                while (end < v.n && v[end - 1] != '\n')
                    end++;
                const View line = v.sub(beg, end - beg);
                if (is_empty(line)) {
                    if (!in_empty)
                        blank = beg;
                    in_empty = true;
                    beg = end;
                    continue;
                }
                for (i = 0; i < 4 && i < line.n && line[i] == ' '; i++)
                    ;
                const size_t pre = i;
                if ((md.ext & MKDEXT_FENCED_CODE) && is_codefence(line.from(i), nullptr))
                    in_fence = !in_fence;
                if (!in_fence) {
                    uli = prefix_uli(line.from(i));
                    oli = prefix_oli(line.from(i));
                }
                if (in_empty && (((*flags & MKD_LIST_ORDERED) && uli) || (!(*flags & MKD_LIST_ORDERED) && oli))) {
                    *flags |= MKD_LI_END;
                    break;
                }
                if ((uli && !is_hrule(line.from(i))) || oli) {
                    if (pre <= orgpre)
                        break;
                    if (!sublist)
                        sublist = work.c.size();
                } else if (in_empty && pre == 0) {
                    *flags |= MKD_LI_END;
                    break;
                } else if (in_empty)
                    work.put('\n', v.at[blank]);
                in_empty = false;
                for (; i < line.n; ++i)
                    work.put(line[i], line.at[i]);
                beg = end;
            }
            const View w(work);
            depth += 2;
            if (sublist && sublist < w.n) {
                parse_block(w.sub(0, sublist));
                parse_block(w.from(sublist));
            } else
                parse_block(w);
            depth -= 2;
            const buf b{ nullptr, 0, 0, 0 };
            if (md.cb.listitem)
                md.cb.listitem(nullptr, &b, (*flags & ~MKD_LI_END) | MKD_LI_BLOCK, md.opaque);
            return beg;
        }

        size_t parse_list(View v, int flags)
        {
            size_t i = 0;
            if (md.cb.list_begin)
                md.cb.list_begin(flags, md.opaque);
            ++depth;
            while (i < v.n) {
                const size_t j = parse_listitem(v.from(i), &flags);
                if (j)
                    did(v, i, j);
                i += j;
                if (!j || (flags & MKD_LI_END))
                    break;
            }
            --depth;
            const buf b{ nullptr, 0, 0, 0 };
            if (md.cb.list)
                md.cb.list(nullptr, &b, flags, md.opaque);
            return i;
        }

        void parse_block(View v)
        {
            if (depth > md.max_nesting)
                return;
            size_t beg = 0, i;
            while (beg < v.n) {
                const View r = v.from(beg);
                if (r[0] == '#')
                    i = parse_atxheader(r);
                else if (r[0] == '<' && md.cb.blockhtml && (i = parse_htmlblock(r, true)) != 0) {
                } else if ((i = is_empty(r)) != 0) {
                } else if (is_hrule(r)) {
                    if (md.cb.hrule)
                        md.cb.hrule(nullptr, md.opaque);
                    for (i = 0; i < r.n && r[i] != '\n'; i++)
                        ;
                    i++;
                } else if ((md.ext & MKDEXT_FENCED_CODE) && (i = parse_fencedcode(r)) != 0) {
                } else if (prefix_quote(r))
                    i = parse_blockquote(r);
                else if (prefix_code(r))
                    i = parse_blockcode(r);
                else if (prefix_uli(r))
                    i = parse_list(r, 0);
                else if (prefix_oli(r))
                    i = parse_list(r, MKD_LIST_ORDERED);
                else
                    i = parse_paragraph(r);
                if (!told)
                    did(v, beg, i);
                told = false;
                beg += i;
            }
        }
    };
}

extern "C" struct sd_markdown* sd_markdown_new(unsigned int ext, size_t max_nesting, const struct sd_callbacks* cb, void* opaque)
{
    return new sd_markdown{ *cb, opaque, ext, max_nesting };
}

extern "C" void sd_markdown_free(struct sd_markdown* md)
{
    delete md;
}

extern "C" void sd_markdown_render(struct buf*, const uint8_t* d, size_t n, struct sd_markdown* md)
{
    Text t;
    size_t beg = 0;
    if (n >= 3 && !std::memcmp(d, "\xEF\xBB\xBF", 3))
        beg = 3;
    size_t column = 0;
    for (; beg < n; ++beg) {
        if (d[beg] == '\r') {
            if (beg + 1 < n && d[beg + 1] == '\n')
                continue;
            t.put('\n', beg);
            column = 0;
        } else if (d[beg] == '\t') {
            do
                t.put(' ', beg);
            while (++column % 4);
        } else {
            t.put(d[beg], beg);
            column = d[beg] == '\n' ? 0 : column + 1;
        }
    }
    if (t.c.empty())
        return;
    if (t.c.back() != '\n')
        t.put('\n', n);
    Parser(*md).parse_block(View(t));
}
