// C19: the entries of the log, under every schedule of the threads that write them.
//
// The threads are fibers of one process: the driver decides at every scheduling point which of them goes on. Scheduling
// points are the locking and unlocking of the log's mutex (pthread_mutex_* are defined here, ahead of the C library's),
// every piece of text that reaches the stream, every printing of a logged object, and the ends of operations.
#include "mc.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <ucontext.h>
#define LOGGING
#include "utils/log/Trivial.cc"

using namespace drafter::utils::log;

namespace
{
    const std::size_t STACK = 256 * 1024;

    struct Fiber {
        ucontext_t at;
        std::vector<char> stack;
        std::function<void()> body;
        bool done = false;
        pthread_mutex_t* waits = nullptr;
        std::string error;
    };

    struct Schedule {
        std::vector<unsigned> choices, options; // what was chosen, out of how many
        std::size_t pos = 0;
        unsigned choose(unsigned n)
        {
            if (pos == choices.size()) {
                choices.push_back(0);
                options.push_back(n);
            }
            options[pos] = n;
            return choices[pos++];
        }
        bool next()
        {
            while (!choices.empty() && choices.back() + 1 >= options.back()) {
                choices.pop_back();
                options.pop_back();
            }
            if (choices.empty())
                return false;
            ++choices.back();
            return true;
        }
    };

    ucontext_t mainAt;
    std::vector<std::unique_ptr<Fiber> > fibers;
    Fiber* current = nullptr;
    std::map<pthread_mutex_t*, Fiber*> held;
    std::uint64_t switches = 0;

    void yield()
    {
        if (current)
            swapcontext(&current->at, &mainAt);
    }

    void entry()
    {
        current->body();
        current->done = true;
        yield();
    }

    // runs the fibers to their ends; false: a deadlock
    bool run(Schedule& s, unsigned preemptions)
    {
        s.pos = 0;
        held.clear();
        for (auto& f : fibers) {
            f->done = false;
            f->waits = nullptr;
            getcontext(&f->at);
            f->at.uc_stack.ss_sp = f->stack.data();
            f->at.uc_stack.ss_size = f->stack.size();
            f->at.uc_link = nullptr;
            makecontext(&f->at, entry, 0);
        }
        Fiber* last = nullptr;
        for (;;) {
            std::vector<Fiber*> ready;
            bool left = false;
            for (auto& f : fibers) {
                if (f->done)
                    continue;
                left = true;
                if (!f->waits || !held.count(f->waits))
                    ready.push_back(f.get());
            }
            if (!left)
                return true;
            if (ready.empty())
                return false;
            // the one that ran last comes first: another choice is a preemption
            auto it = std::find(ready.begin(), ready.end(), last);
            bool could = it != ready.end();
            if (could)
                std::rotate(ready.begin(), it, it + 1);
            if (could && !preemptions)
                ready.resize(1);
            unsigned c = ready.size() > 1 ? s.choose(static_cast<unsigned>(ready.size())) : 0;
            if (could && c)
                --preemptions;
            last = current = ready[c];
            ++switches;
            swapcontext(&mainAt, &current->at);
            current = nullptr;
        }
    }
}

extern "C" int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!current) {
        static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_lock"));
        return real(m);
    }
    yield();
    while (held.count(m)) {
        current->waits = m;
        yield();
    }
    current->waits = nullptr;
    held[m] = current;
    return 0;
}

extern "C" int pthread_mutex_trylock(pthread_mutex_t* m)
{
    if (!current) {
        static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_trylock"));
        return real(m);
    }
    yield();
    if (held.count(m))
        return EBUSY;
    held[m] = current;
    return 0;
}

extern "C" int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (!current) {
        static auto real = reinterpret_cast<int (*)(pthread_mutex_t*)>(dlsym(RTLD_NEXT, "pthread_mutex_unlock"));
        return real(m);
    }
    auto it = held.find(m);
    if (it == held.end() || it->second != current)
        current->error = "unlocks a mutex it does not hold";
    else
        held.erase(it);
    yield();
    return 0;
}

namespace
{
    // the stream the log writes to: every piece that reaches it is a scheduling point
    struct Buffer : std::streambuf {
        std::string text;
        std::streamsize xsputn(const char* s, std::streamsize n) override
        {
            text.append(s, static_cast<std::size_t>(n));
            yield();
            return n;
        }
        int overflow(int c) override
        {
            if (c != EOF)
                text += static_cast<char>(c);
            yield();
            return c == EOF ? 0 : c;
        }
    };

    // something to log whose printing takes a while
    struct Slow {
        const char* text;
    };
    std::ostream& operator<<(std::ostream& o, const Slow& s)
    {
        yield();
        o << s.text;
        yield();
        return o;
    }

    struct Op {
        int what; // 0..3: an entry of that severity
        int pieces;
    };

    bool written(int severity)
    {
        return severity != debug;
    }

    std::string idOf(const std::vector<std::vector<Op> >& program)
    {
        static const char* NAMES[] = { "debug", "info", "warning", "error" };
        std::string o;
        for (auto& p : program) {
            o += "{ ";
            for (auto& op : p)
                o += std::string(NAMES[op.what]) + "/" + std::to_string(op.pieces) + " ";
            o += "} ";
        }
        return o;
    }

    std::string text(unsigned thread, unsigned at)
    {
        return "T" + std::to_string(thread) + "." + std::to_string(at);
    }

    // header of an entry, less the thread
    std::string header(int severity, unsigned line)
    {
        static const char* NAMES[] = { "DEBUG", "INFO ", "WARN ", "ERROR" };
        std::ostringstream o;
        o << "[" << NAMES[severity] << "][" << std::this_thread::get_id() << "][file.cc:" << line << "] ";
        return o.str();
    }

    void perform(const Op& op, unsigned thread, unsigned at)
    {
        const std::string t = text(thread, at);
        trivial_entry e{ trivial_log::instance(), static_cast<severity>(op.what), 100 * thread + at, "file.cc" };
        if (op.pieces == 1)
            e << t;
        else if (op.pieces == 2)
            e << Slow{ t.c_str() } << '!';
        else if (op.pieces == 3)
            e << t << Slow{ " and " } << 17;
    }

    std::string line(const Op& op, unsigned thread, unsigned at)
    {
        const std::string t = text(thread, at);
        return header(op.what, 100 * thread + at) + (op.pieces == 1 ? t : op.pieces == 2 ? t + "!" : op.pieces == 3 ? t + " and 17" : "");
    }

    Buffer& buffer()
    {
        static Buffer b;
        static bool once = [] {
            trivial_log::instance().enable();
            if (auto* o = trivial_log::instance().out())
                static_cast<std::ios*>(o)->rdbuf(&b);
            return true;
        }();
        (void)once;
        return b;
    }

    void explore(mc::Ctx& ctx, const std::vector<std::vector<Op> >& program, unsigned preemptions)
    {
        if (!ctx.begin(idOf(program)))
            return;
        Buffer& b = buffer();
        while (fibers.size() < program.size()) {
            fibers.emplace_back(new Fiber);
            fibers.back()->stack.resize(STACK);
        }
        fibers.resize(program.size());
        for (unsigned t = 0; t < program.size(); ++t)
            fibers[t]->body = [&program, t] {
                for (unsigned i = 0; i < program[t].size(); ++i) {
                    perform(program[t][i], t, i);
                    yield();
                }
            };
        Schedule s;
        do {
            b.text.clear();
            ctx.alive();
            for (auto& f : fibers)
                f->error.clear();
            switches = 0;
            const bool ended = run(s, preemptions);
            ctx.step(switches);
            ctx.count("schedules");
            std::string how;
            for (auto c : s.choices)
                how += std::to_string(c);
            if (!ctx.expect(ended, "the threads wait for each other, schedule " + how))
                return;
            for (auto& f : fibers)
                if (!ctx.expect(f->error.empty(), f->error + ", schedule " + how))
                    return;
            // every entry is a line, whole and in one piece, once; those of a thread are in its order
            std::vector<unsigned> next(program.size(), 0);
            std::string rest = b.text, bad;
            for (unsigned t = 0; t < program.size(); ++t)
                while (next[t] < program[t].size() && !written(program[t][next[t]].what))
                    ++next[t];
            while (!rest.empty() && bad.empty()) {
                const auto end = rest.find('\n');
                bad = rest.substr(0, end);
                for (unsigned t = 0; t < program.size() && end != std::string::npos; ++t)
                    if (next[t] < program[t].size() && bad == line(program[t][next[t]], t, next[t])) {
                        do
                            ++next[t];
                        while (next[t] < program[t].size() && !written(program[t][next[t]].what));
                        bad.clear();
                        rest.erase(0, end + 1);
                        break;
                    }
            }
            if (!ctx.expect(bad.empty(), "line " + mc::quote(bad) + " is no entry, schedule " + how + ", log " + mc::quote(b.text)))
                return;
            for (unsigned t = 0; t < program.size(); ++t)
                if (!ctx.expect(next[t] == program[t].size(), "entry " + text(t, next[t]) + " is missing, schedule " + how))
                    return;
            ctx.state(how + idOf(program));
            ctx.outcome(b.text);
            ctx.trace();
        } while (s.next());
    }

    void programs(mc::Ctx& ctx, unsigned threads, unsigned length, const std::vector<Op>& ops, unsigned preemptions)
    {
        std::vector<std::vector<Op> > single;
        std::vector<unsigned> pick;
        for (unsigned len = 1; len <= length; ++len) {
            pick.assign(len, 0);
            for (;;) {
                std::vector<Op> p;
                for (auto i : pick)
                    p.push_back(ops[i]);
                single.push_back(p);
                unsigned i = 0;
                while (i < len && ++pick[i] == ops.size())
                    pick[i++] = 0;
                if (i == len)
                    break;
            }
        }
        pick.assign(threads, 0);
        for (;;) {
            if (ctx.full())
                return;
            bool sorted = true; // threads are alike
            for (unsigned i = 1; i < threads; ++i)
                sorted = sorted && pick[i - 1] <= pick[i];
            if (sorted && ctx.mine()) {
                std::vector<std::vector<Op> > p;
                for (auto i : pick)
                    p.push_back(single[i]);
                explore(ctx, p, preemptions);
            }
            unsigned i = 0;
            while (i < threads && ++pick[i] == single.size())
                pick[i++] = 0;
            if (i == threads)
                break;
        }
    }
}

SCENARIO("one-thread", 1)
{
    programs(ctx, 1, 3, { { 0, 0 }, { 0, 1 }, { 0, 3 }, { 1, 1 }, { 2, 0 }, { 2, 2 }, { 3, 3 } }, 0);
}

SCENARIO("two-threads", 8)
{
    programs(ctx, 2, 2, { { 0, 2 }, { 1, 0 }, { 2, 2 }, { 3, 3 } }, ctx.thorough ? 4 : 2);
}

SCENARIO("three-threads", 8)
{
    programs(ctx, 3, 1, { { 0, 2 }, { 1, 0 }, { 2, 2 }, { 3, 3 } }, ctx.thorough ? 3 : 2);
    if (ctx.thorough)
        programs(ctx, 3, 2, { { 0, 1 }, { 2, 2 } }, 2);
}

SCENARIO("turned-on-meanwhile", 1)
{
    // an entry that is under way while the log is turned on is written whole or not at all
    for (int severity = 0; severity < 4; ++severity)
        for (int pieces = 0; pieces < 4; ++pieces) {
            if (!ctx.begin(std::to_string(severity) + "/" + std::to_string(pieces)))
                continue;
            struct Fresh { // a log that is not turned on yet
                alignas(trivial_log) unsigned char at[sizeof(trivial_log)] = {};
            };
            Buffer& b = buffer();
            static std::vector<std::unique_ptr<Fresh> > logs;
            fibers.clear();
            for (int i = 0; i < 2; ++i) {
                fibers.emplace_back(new Fiber);
                fibers.back()->stack.resize(STACK);
            }
            const Op op{ severity, pieces };
            trivial_log* log = nullptr;
            fibers[0]->body = [&] {
                const std::string t = text(0, 0);
                for (unsigned at = 0; at < 2; ++at) {
                    trivial_entry e{ *log, static_cast<enum severity>(severity), at, "file.cc" };
                    if (pieces == 1)
                        e << t;
                    else if (pieces == 2)
                        e << Slow{ t.c_str() } << '!';
                    else if (pieces == 3)
                        e << t << Slow{ " and " } << 17;
                }
            };
            fibers[1]->body = [&] { log->enable(); };
            auto whole = [&](unsigned at) {
                const std::string l = line(op, 0, 0);
                std::string o = header(severity, at) + l.substr(header(severity, 0).size()) + "\n";
                return written(severity) ? o : std::string();
            };
            Schedule s;
            do {
                logs.clear();
                logs.emplace_back(new Fresh);
                log = reinterpret_cast<trivial_log*>(logs.back()->at); // all zero: as constructed
                b.text.clear();
                switches = 0;
                ctx.alive();
                const bool ended = run(s, 6);
                ctx.step(switches);
                ctx.count("schedules");
                std::string how;
                for (auto c : s.choices)
                    how += std::to_string(c);
                if (!ctx.expect(ended, "waits for itself, schedule " + how))
                    break;
                const bool ok = b.text.empty() || b.text == whole(1) || b.text == whole(0) + whole(1);
                if (!ctx.expect(ok, "the log is " + mc::quote(b.text) + ", schedule " + how))
                    break;
                ctx.state(how + std::to_string(severity) + std::to_string(pieces));
                ctx.outcome(b.text);
                ctx.trace();
            } while (s.next());
        }
}

SCENARIO("texts", 1)
{
    // texts, file names and lines of every size, one entry after another in one log
    Buffer& b = buffer();
    std::vector<std::size_t> sizes;
    for (std::size_t n = 0; n < 300; ++n)
        sizes.push_back(n);
    for (std::size_t n : { 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537, 200000 })
        sizes.push_back(n);
    auto filled = [](std::size_t n) {
        std::string t;
        for (std::size_t i = 0; i < n; ++i) {
            const char c = static_cast<char>(i * 7 + n);
            t += c == '\n' ? ' ' : c;
        }
        return t;
    };
    std::ostringstream thread;
    thread << std::this_thread::get_id();
    static const char* NAMES[] = { "DEBUG", "INFO ", "WARN ", "ERROR" };
    std::string want;
    b.text.clear();
    for (int severity = 0; severity < 4; ++severity)
        for (int form = 0; form < 4; ++form)
            for (auto n : sizes) {
                if (!ctx.begin(std::string(NAMES[severity]) + " " + std::to_string(form) + " of " + std::to_string(n)))
                    continue;
                if (b.text.size() > 1000000) { // mostly seen
                    b.text.clear();
                    want.clear();
                }
                const std::string t = filled(n), file = form == 2 ? std::string(n, 'f') : "file.cc";
                const std::size_t line = form == 3 ? (n < 64 ? (std::size_t{ 1 } << n) - 1 : n * n * n * n) : n;
                bool thrown = false;
                try {
                    trivial_entry e{ trivial_log::instance(), static_cast<enum severity>(severity), line, file.c_str() };
                    if (form == 0)
                        e << t;
                    else if (form == 1)
                        for (char c : t) // in as many pieces
                            e << c;
                    else if (form == 3) {
                        e << "before ";
                        throw n;
                    }
                } catch (std::size_t) {
                    thrown = true;
                }
                std::string one;
                if (written(severity))
                    one = std::string("[") + NAMES[severity] + "][" + thread.str() + "][" + file + ":" + std::to_string(line) + "] "
                        + (form < 2 ? t : thrown ? "before " : "") + "\n";
                want += one;
                const bool same = b.text == want;
                if (!ctx.expect(same, "the log ends in " + mc::quote(b.text.substr(b.text.size() > one.size() ? b.text.size() - one.size() : 0))
                            + ", expected " + mc::quote(one)))
                    want = b.text;
                ctx.state(one);
                ctx.trace();
            }
}

SCENARIO("more-threads", 1)
{
    // four threads in every order they may start and end in, and two threads of many entries
    for (unsigned n : { 4u, 6u, 9u, 17u }) {
        std::vector<std::vector<Op> > p;
        for (unsigned i = 0; i < n; ++i)
            p.push_back({ { static_cast<int>(i % 4), static_cast<int>(i % 3) + 1 } });
        if (n < 6)
            explore(ctx, p, 0);
        std::vector<std::vector<Op> > two{ {}, {} };
        for (unsigned i = 0; i < n; ++i)
            two[i % 2].push_back({ static_cast<int>(1 + i % 3), static_cast<int>(i % 4) });
        explore(ctx, two, 1);
    }
}

SCENARIO("severities", 1)
{
    static const char* NAMES[] = { "DEBUG", "INFO ", "WARN ", "ERROR", "", "" };
    for (int s = -1; s < 5; ++s)
        if (ctx.begin("severity " + std::to_string(s))) {
            ctx.expect(severity_to_str(static_cast<severity>(s)) == std::string(s < 0 ? "" : NAMES[s]), "is called otherwise");
            ctx.trace();
        }
}

MC_MAIN
