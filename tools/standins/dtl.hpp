// Only what draftertest.cc asks of dtl: which lines differ, without looking for the shortest difference.
#pragma once
#include <ostream>
#include <vector>
#include <string>
namespace dtl
{
    template <typename T>
    struct Diff {
        std::vector<T> a, b;
        Diff(const std::vector<T>& a, const std::vector<T>& b) : a(a), b(b) {}
        void compose() {}
        void composeUnifiedHunks() {}
        void printUnifiedFormat(std::ostream& o)
        {
            size_t i = 0, n = 0;
            while (i < a.size() && i < b.size() && a[i] == b[i])
                ++i;
            for (; n < 12 && (i < a.size() || i < b.size()); ++i, ++n) {
                if (i < a.size())
                    o << "-" << a[i] << "\n";
                if (i < b.size())
                    o << "+" << b[i] << "\n";
            }
        }
    };
}
