// Lines and columns of character ranges: a reference.
#ifndef VERIF_REF_LINES_HPP
#define VERIF_REF_LINES_HPP

#include "SourceMapUtils.h"
#include "ref_utf8.hpp"

namespace ref
{
    struct Doc {
        std::string s;
        std::vector<bool> newline; // of each character
        std::size_t lines = 0;     // how many are terminated
        std::size_t tail = 0;      // where the last, unterminated line starts
    };

    inline Doc make(const std::string& s)
    {
        Doc d;
        d.s = s;
        for (auto& c : decode(s)) {
            d.newline.push_back(c.cp == '\n');
            if (c.cp == '\n') {
                ++d.lines;
                d.tail = d.newline.size();
            }
        }
        return d;
    }

    struct Pos {
        std::size_t line, column;
    };

    inline Pos position(const Doc& d, std::size_t at)
    {
        Pos p{ 1, 1 };
        for (std::size_t i = 0; i < at && i < d.newline.size(); ++i) {
            ++p.column;
            if (d.newline[i])
                p = Pos{ p.line + 1, 1 };
        }
        if (at > d.newline.size())
            p.column += at - d.newline.size();
        return p;
    }

    inline drafter::AnnotationPosition expected(const Doc& d, const mdp::Range& r)
    {
        drafter::AnnotationPosition a;
        Pos from = position(d, r.location);
        a.fromLine = from.line;
        a.fromColumn = from.column;
        // a range is followed to the last newline of the document; what ends beyond that ends on the line after it
        Pos to = r.length == 0 ? from : position(d, r.location + r.length - 1);
        if (r.length > 0 && r.location + r.length > d.tail)
            to = Pos{ d.lines + 1, 1 };
        a.toLine = to.line;
        a.toColumn = to.column;
        return a;
    }
}

#endif
