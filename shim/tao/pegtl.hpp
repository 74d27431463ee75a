// A stand-in for PEGTL 2.8 (a submodule that is not in this tree): the part of it the grammars of this repository use,
// with the semantics PEGTL documents. tools/standins.sh runs the repository's own grammar tests against it.
#ifndef VERIF_TAO_PEGTL_HPP
#define VERIF_TAO_PEGTL_HPP
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cxxabi.h>
#include <stdexcept>
#include <string>
#include <tuple>
#include <typeinfo>
#include <type_traits>
#include <utility>
#include <vector>
#include <cassert>
#include <sstream>

#define TAO_PEGTL_NAMESPACE pegtl

namespace tao
{
    namespace pegtl
    {
        struct position {
            std::size_t byte = 0, line = 1, byte_in_line = 0;
            std::string source;
        };

        inline std::string to_string(const position& p)
        {
            return p.source + ':' + std::to_string(p.line) + ':' + std::to_string(p.byte_in_line) + '(' + std::to_string(p.byte) + ')';
        }

        // what an action is given: what its rule matched
        class action_input
        {
            const char *b, *e;
            const char* start;
            std::string source;

        public:
            action_input(const char* b, const char* e, const char* start, std::string source) : b(b), e(e), start(start), source(std::move(source)) {}
            const char* begin() const { return b; }
            const char* end() const { return e; }
            std::size_t size() const { return e - b; }
            bool empty() const { return b == e; }
            std::string string() const { return std::string(b, e); }
            pegtl::position position() const
            {
                pegtl::position p;
                p.byte = b - start;
                p.source = source;
                for (const char* c = start; c != b; ++c)
                    if (*c == '\n')
                        ++p.line, p.byte_in_line = 0;
                    else
                        ++p.byte_in_line;
                return p;
            }
        };

        template <typename Dummy = void>
        class basic_memory_input
        {
            std::string source_;
            const char *start_, *cur_, *end_;

        public:
            basic_memory_input(const std::string& s, std::string source)
                : source_(std::move(source)), start_(s.data()), cur_(s.data()), end_(s.data() + s.size())
            {
            }
            basic_memory_input(const char* s, std::string source)
                : source_(std::move(source)), start_(s), cur_(s), end_(s + std::char_traits<char>::length(s))
            {
            }
            basic_memory_input(const basic_memory_input&) = delete;

            bool empty() const { return cur_ == end_; }
            std::size_t size(std::size_t = 0) const { return end_ - cur_; }
            const char* current() const { return cur_; }
            void current(const char* c) { cur_ = c; }
            const char* begin() const { return start_; }
            const char* end(std::size_t = 0) const { return end_; }
            const std::string& source() const { return source_; }
            void bump(std::size_t n) { cur_ += n; }
            pegtl::position position() const { return action_input(cur_, cur_, start_, source_).position(); }
        };

        template <int = 0>
        struct memory_input : basic_memory_input<> {
            using basic_memory_input<>::basic_memory_input;
        };

        struct parse_error : std::runtime_error {
            std::vector<position> positions;
            parse_error(const std::string& msg, position p) : std::runtime_error(to_string(p) + ": " + msg), positions{ p } {}
            template <typename Input>
            parse_error(const std::string& msg, const Input& in) : parse_error(msg, in.position())
            {
            }
        };

        namespace detail
        {
            struct changes {
            };

            template <typename T>
            std::string demangle()
            {
                int s = 0;
                char* n = abi::__cxa_demangle(typeid(T).name(), nullptr, nullptr, &s);
                std::string r = n ? n : typeid(T).name();
                std::free(n);
                return r;
            }
        }

        template <typename Rule>
        struct nothing {
        };

        template <bool A, typename Rule, template <typename> class Action, typename In, typename... St>
        bool match(In& in, St&... st);

        namespace detail
        {
            template <typename Void, typename Act, typename... St>
            struct has_apply : std::false_type {
            };
            template <typename Act, typename... St>
            struct has_apply<std::void_t<decltype(Act::apply(std::declval<const action_input&>(), std::declval<St&>()...))>, Act, St...> : std::true_type {
            };
            template <typename Void, typename Act, typename... St>
            struct has_apply0 : std::false_type {
            };
            template <typename Act, typename... St>
            struct has_apply0<std::void_t<decltype(Act::apply0(std::declval<St&>()...))>, Act, St...> : std::true_type {
            };

            // match the rule; on failure the input is where it was; then act
            template <bool A, typename Rule, template <typename> class Action, typename In, typename... St>
            bool plain(In& in, St&... st)
            {
                const char* at = in.current();
                if (!Rule::template match<A, Action>(in, st...)) {
                    in.current(at);
                    return false;
                }
                if constexpr (A) {
                    using Act = Action<Rule>;
                    if constexpr (has_apply<void, Act, St...>::value) {
                        const action_input i(at, in.current(), in.begin(), in.source());
                        if constexpr (std::is_same<decltype(Act::apply(i, st...)), bool>::value) {
                            if (!Act::apply(i, st...)) {
                                in.current(at);
                                return false;
                            }
                        } else
                            Act::apply(i, st...);
                    } else if constexpr (has_apply0<void, Act, St...>::value)
                        Act::apply0(st...);
                }
                return true;
            }
        }

        template <typename NewState>
        struct change_state : detail::changes {
            template <bool A, typename Rule, template <typename> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                NewState s(static_cast<const In&>(in), st...);
                if (!detail::plain<A, Rule, Action>(in, s))
                    return false;
                if constexpr (A)
                    s.success(static_cast<const In&>(in), st...);
                return true;
            }
        };

        template <typename... NewStates>
        struct change_states : detail::changes {
            template <bool A, typename Rule, template <typename> class Action, typename In, typename... St>
            static bool match(In& in, St&... st)
            {
                std::tuple<NewStates...> s;
                return std::apply(
                    [&](NewStates&... n) {
                        if (!detail::plain<A, Rule, Action>(in, n...))
                            return false;
                        if constexpr (A)
                            Action<Rule>::success(static_cast<const In&>(in), n..., st...);
                        return true;
                    },
                    s);
            }
        };

        template <bool A, typename Rule, template <typename> class Action, typename In, typename... St>
        bool match(In& in, St&... st)
        {
            if constexpr (std::is_base_of<detail::changes, Action<Rule> >::value)
                return Action<Rule>::template match<A, Rule, Action>(in, st...);
            else
                return detail::plain<A, Rule, Action>(in, st...);
        }

#define RULE                                                                                                           \
    template <bool A, template <typename> class Action, typename In, typename... St>                                   \
    static bool match(In& in, St&... st)

        template <typename... R>
        struct seq {
            RULE { return (pegtl::match<A, R, Action>(in, st...) && ...); }
        };
        template <typename... R>
        struct sor {
            RULE { return (pegtl::match<A, R, Action>(in, st...) || ...); }
        };
        template <typename... R>
        struct opt {
            RULE
            {
                pegtl::match<A, seq<R...>, Action>(in, st...);
                return true;
            }
        };
        template <typename... R>
        struct star {
            RULE
            {
                while (pegtl::match<A, seq<R...>, Action>(in, st...)) {
                }
                return true;
            }
        };
        template <typename... R>
        struct plus {
            RULE
            {
                if (!pegtl::match<A, seq<R...>, Action>(in, st...))
                    return false;
                while (pegtl::match<A, seq<R...>, Action>(in, st...)) {
                }
                return true;
            }
        };
        template <typename... R>
        struct at {
            RULE
            {
                const char* c = in.current();
                const bool r = pegtl::match<false, seq<R...>, Action>(in, st...);
                in.current(c);
                return r;
            }
        };
        template <typename... R>
        struct not_at {
            RULE
            {
                const char* c = in.current();
                const bool r = pegtl::match<false, seq<R...>, Action>(in, st...);
                in.current(c);
                return !r;
            }
        };
        // at most that often, and no more often than that
        template <unsigned Max, typename... R>
        struct rep_max {
            RULE
            {
                for (unsigned i = 0; i < Max; ++i)
                    if (!pegtl::match<A, seq<R...>, Action>(in, st...))
                        return true;
                return pegtl::match<A, not_at<R...>, Action>(in, st...);
            }
        };
        template <typename R, typename S>
        struct list : seq<R, star<S, R> > {
        };
        namespace detail
        {
            template <typename R>
            struct must1 {
                RULE
                {
                    if (!pegtl::match<A, R, Action>(in, st...))
                        throw parse_error("parse error matching " + demangle<R>(), in);
                    return true;
                }
            };
        }
        template <typename... R>
        struct must : seq<detail::must1<R>...> {
        };
        template <typename C, typename... R>
        struct if_must : seq<C, must<R...> > {
        };
        template <typename... R>
        struct try_catch {
            RULE
            {
                try {
                    return pegtl::match<A, seq<R...>, Action>(in, st...);
                } catch (const parse_error&) {
                    return false; // the caller puts the input back
                }
            }
        };
        struct eof {
            RULE { return in.empty(); }
        };

        namespace ascii
        {
            template <char... C>
            struct one {
                RULE
                {
                    if (in.empty() || !((*in.current() == C) || ...))
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            template <char... C>
            struct not_one {
                RULE
                {
                    if (in.empty() || ((*in.current() == C) || ...))
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            template <char L, char H>
            struct range {
                RULE
                {
                    if (in.empty() || *in.current() < L || *in.current() > H)
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            template <char L, char H>
            struct not_range {
                RULE
                {
                    if (in.empty() || !(*in.current() < L || *in.current() > H))
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            struct any {
                RULE
                {
                    if (in.empty())
                        return false;
                    in.bump(1);
                    return true;
                }
            };
            struct eol {
                RULE
                {
                    if (in.size() && *in.current() == '\n') {
                        in.bump(1);
                        return true;
                    }
                    if (in.size() > 1 && in.current()[0] == '\r' && in.current()[1] == '\n') {
                        in.bump(2);
                        return true;
                    }
                    return false;
                }
            };
            struct eolf : sor<eof, eol> {
            };
            struct alpha : sor<range<'a', 'z'>, range<'A', 'Z'> > {
            };
            struct digit : range<'0', '9'> {
            };
            struct alnum : sor<alpha, digit> {
            };
        }
        using namespace ascii;

        namespace utf8
        {
            namespace detail
            {
                // the code point at the input and its size; size 0 if there is none
                inline std::pair<char32_t, unsigned> peek(const char* p, std::size_t n)
                {
                    const auto b = [p](unsigned i) { return static_cast<unsigned char>(p[i]); };
                    const auto c = [b](unsigned i) { return (b(i) & 0xC0) == 0x80; };
                    if (n < 1)
                        return { 0, 0 };
                    if (b(0) < 0x80)
                        return { b(0), 1 };
                    if ((b(0) & 0xE0) == 0xC0 && n >= 2 && c(1)) {
                        const char32_t r = (b(0) & 0x1F) << 6 | (b(1) & 0x3F);
                        if (r >= 0x80)
                            return { r, 2 };
                    } else if ((b(0) & 0xF0) == 0xE0 && n >= 3 && c(1) && c(2)) {
                        const char32_t r = (b(0) & 0xF) << 12 | (b(1) & 0x3F) << 6 | (b(2) & 0x3F);
                        if (r >= 0x800 && !(r >= 0xD800 && r <= 0xDFFF))
                            return { r, 3 };
                    } else if ((b(0) & 0xF8) == 0xF0 && n >= 4 && c(1) && c(2) && c(3)) {
                        const char32_t r = (b(0) & 7) << 18 | (b(1) & 0x3F) << 12 | (b(2) & 0x3F) << 6 | (b(3) & 0x3F);
                        if (r >= 0x10000 && r <= 0x10FFFF)
                            return { r, 4 };
                    }
                    return { 0, 0 };
                }
                template <char32_t... P>
                bool within(char32_t c)
                {
                    const char32_t p[] = { P... };
                    std::size_t i = 0;
                    for (; i + 1 < sizeof...(P); i += 2)
                        if (p[i] <= c && c <= p[i + 1])
                            return true;
                    return i < sizeof...(P) && p[i] == c;
                }
            }
            struct any {
                RULE
                {
                    const auto c = detail::peek(in.current(), in.size());
                    in.bump(c.second);
                    return c.second != 0;
                }
            };
            template <char32_t... P>
            struct ranges {
                RULE
                {
                    const auto c = detail::peek(in.current(), in.size());
                    if (!c.second || !detail::within<P...>(c.first))
                        return false;
                    in.bump(c.second);
                    return true;
                }
            };
        }
#undef RULE

        template <typename Rule, template <typename> class Action = nothing, typename In, typename... St>
        bool parse(In&& in, St&&... st)
        {
            return pegtl::match<true, Rule, Action>(in, st...);
        }
    }
}
#endif
