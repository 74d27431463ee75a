// Bounded exhaustive exploration harness: one process per (scenario, shard).
//
// A driver registers scenarios; check.py starts one process for each shard of each scenario, watches the
// status page this header maps (so that a crash or a hang is pinned to the exact case), merges the results and
// confirms every violation by replaying that single case in a fresh process before reporting it.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>
#include <vector>

namespace mc
{
    inline std::string quote(const std::string& s)
    {
        std::string o;
        char b[8];
        for (unsigned char c : s) {
            if (c == '\\')
                o += "\\\\";
            else if (c >= 0x20 && c < 0x7f)
                o += static_cast<char>(c);
            else {
                std::snprintf(b, sizeof b, "\\x%02x", c);
                o += b;
            }
        }
        return o;
    }

    inline std::uint64_t hash(const std::string& s)
    {
        std::uint64_t h = 1469598103934665603ull;
        for (unsigned char c : s) {
            h ^= c;
            h *= 1099511628211ull;
        }
        h ^= h >> 29;
        h *= 0xbf58476d1ce4e5b9ull;
        h ^= h >> 32;
        return h;
    }

    struct Status {
        volatile std::uint64_t counter;
        volatile std::uint32_t len;
        char text[4096 * 4 - 16];
    };

    struct Violation {
        std::string key, text, detail;
    };

    class Ctx
    {
    public:
        std::string scenario;
        unsigned shard = 0, nshards = 1;
        bool thorough = false;
        bool filtered = false;
        std::string filter;
        Status* status = nullptr;

        std::uint64_t cases = 0, steps = 0, traces = 0, nontrivial = 0;
        std::unordered_set<std::uint64_t> states, outcomes;
        std::vector<std::string> samples;
        std::map<std::string, std::uint64_t> counts;
        std::vector<Violation> violations;
        std::map<std::string, Violation> findings; // by the id they are listed under; the first case of each
        std::string key, text;
        std::uint64_t ordinal = 0;
        std::vector<std::string> notes;

        // Start of a case whose id is also its description; false: not to be run (replay of another case)
        bool begin(const std::string& id)
        {
            if (filtered && id != filter)
                return false;
            key = id;
            text = id;
            publish();
            ++cases;
            if (telling())
                sample(id, 8);
            return true;
        }

        // As begin, for large spaces: the id is a number, described only on demand
        // (`describe` has to outlive the case)
        template <typename F>
        bool beginN(std::uint64_t n, F& describe)
        {
            if (filtered) {
                std::string id = "#" + std::to_string(n);
                if (id != filter)
                    return false;
                key = id;
                text = describe();
                publish();
                ++cases;
                return true;
            }
            number = n;
            numbered = true;
            describer = [&describe]() { return describe(); };
            status->counter = status->counter + 1;
            char* p = status->text;
            int len = std::snprintf(p, 32, "#%llu", static_cast<unsigned long long>(n));
            status->len = static_cast<std::uint32_t>(len);
            ++cases;
            if (telling())
                sample(describe(), 8);
            return true;
        }

        // Start of a case of a search whose later cases depend on this one: it is run in every mode
        void enter(const std::string& id)
        {
            key = id;
            text = id;
            publish();
            ++cases;
            if (telling())
                sample(id, 8);
        }

        // Round-robin share of this shard
        bool mine()
        {
            return (ordinal++ % nshards) == shard;
        }

        void step(std::uint64_t n = 1)
        {
            steps += n;
        }
        // In the middle of a long case: it goes on
        void alive()
        {
            status->counter = status->counter + 1;
        }
        void trace()
        {
            ++traces;
        }
        bool state(const std::string& s)
        {
            return states.insert(hash(s)).second;
        }
        void outcome(const std::string& s)
        {
            outcomes.insert(hash(s));
        }
        void count(const std::string& what, std::uint64_t n = 1)
        {
            counts[what] += n;
        }
        void sample(const std::string& s, std::size_t max = 3)
        {
            if (samples.size() < max)
                samples.push_back(s);
        }

        bool full() const
        {
            return violations.size() >= 25;
        }

        // The current case breaks the property
        void violation(const std::string& detail)
        {
            std::string k = key, t = text;
            if (numbered && !filtered) {
                k = "#" + std::to_string(number);
                t = describer ? describer() : k;
            }
            if (filtered && k != filter)
                return;
            if (!violations.empty() && violations.back().key == k)
                return; // one per case
            if (full())
                return;
            violations.push_back(Violation{ k, t, detail });
        }

        // The current case breaks the property in exactly the way known_findings.jsonl describes under this id. It is a
        // violation like any other when the file does not list it.
        void finding(const std::string& id, const std::string& detail)
        {
            count("finding " + id);
            if (findings.count(id))
                return;
            std::string k = key, t = text;
            if (numbered && !filtered) {
                k = "#" + std::to_string(number);
                t = describer ? describer() : k;
            }
            if (!filtered || k == filter)
                findings[id] = Violation{ k, t, detail };
        }

        bool expect(bool ok, const std::string& detail)
        {
            if (!ok)
                violation(detail);
            return ok;
        }

    private:
        // The cases of the first shard that are written out in the evidence
        bool telling() const
        {
            return shard == 0 && (cases == 2 || cases == 50 || cases == 1000 || cases == 20000);
        }

        std::uint64_t number = 0;
        bool numbered = false;
        std::function<std::string()> describer;

        void publish()
        {
            numbered = false;
            status->counter = status->counter + 1;
            std::size_t n = std::min(text.size(), sizeof(status->text) - 1);
            std::memcpy(status->text, text.data(), n);
            status->len = static_cast<std::uint32_t>(n);
        }
    };

    using Fn = std::function<void(Ctx&)>;

    struct Scenario {
        std::string name;
        unsigned shards;
        Fn fn;
    };

    inline std::vector<Scenario>& scenarios()
    {
        static std::vector<Scenario> s;
        return s;
    }

    struct Register {
        Register(const char* name, unsigned shards, Fn fn)
        {
            scenarios().push_back(Scenario{ name, shards, std::move(fn) });
        }
    };

#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define SCENARIO(name, shards)                                                                                         \
    static void MC_CAT(mc_fn_, __LINE__)(mc::Ctx & ctx);                                                               \
    static mc::Register MC_CAT(mc_reg_, __LINE__)(name, shards, MC_CAT(mc_fn_, __LINE__));                             \
    static void MC_CAT(mc_fn_, __LINE__)(mc::Ctx & ctx)

    inline std::string json(const std::string& s)
    {
        std::string o = "\"";
        char b[8];
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += static_cast<char>(c);
            } else if (c >= 0x20 && c < 0x7f)
                o += static_cast<char>(c);
            else {
                std::snprintf(b, sizeof b, "\\u%04x", c);
                o += b;
            }
        }
        return o + "\"";
    }

    inline int main(int argc, char** argv)
    {
        std::string scenario, out, statusFile, filter;
        unsigned shard = 0;
        bool list = false, thorough = false, filtered = false;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--list")
                list = true;
            else if (a == "--scenario")
                scenario = next();
            else if (a == "--shard")
                shard = static_cast<unsigned>(std::atoi(next().c_str()));
            else if (a == "--out")
                out = next();
            else if (a == "--status")
                statusFile = next();
            else if (a == "--thorough")
                thorough = true;
            else if (a == "--filter-file") {
                std::ifstream f(next(), std::ios::binary);
                std::stringstream ss;
                ss << f.rdbuf();
                filter = ss.str();
                filtered = true;
            }
        }
        if (list) {
            for (auto& s : scenarios())
                std::cout << s.name << " " << s.shards << "\n";
            return 0;
        }
        for (auto& s : scenarios()) {
            if (s.name != scenario)
                continue;
            Ctx ctx;
            ctx.scenario = scenario;
            ctx.shard = shard;
            ctx.nshards = s.shards;
            ctx.thorough = thorough;
            ctx.filtered = filtered;
            ctx.filter = filter;
            if (statusFile.empty()) {
                ctx.status = static_cast<Status*>(
                    mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            } else {
                int fd = open(statusFile.c_str(), O_RDWR | O_CREAT, 0644);
                if (fd < 0 || ftruncate(fd, sizeof(Status)) != 0) {
                    std::perror("status");
                    return 3;
                }
                ctx.status
                    = static_cast<Status*>(mmap(nullptr, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
                close(fd);
            }
            s.fn(ctx);

            std::ostringstream o;
            o << "{\"cases\":" << ctx.cases << ",\"steps\":" << ctx.steps << ",\"traces\":" << ctx.traces
              << ",\"nontrivial\":" << ctx.nontrivial << ",\"samples\":[";
            for (std::size_t i = 0; i < ctx.samples.size(); ++i)
                o << (i ? "," : "") << json(ctx.samples[i]);
            o << "],\"notes\":[";
            for (std::size_t i = 0; i < ctx.notes.size(); ++i)
                o << (i ? "," : "") << json(ctx.notes[i]);
            o << "],\"counts\":{";
            bool first = true;
            for (auto& c : ctx.counts) {
                o << (first ? "" : ",") << json(c.first) << ":" << c.second;
                first = false;
            }
            o << "},\"findings\":{";
            first = true;
            for (auto& f : ctx.findings) {
                o << (first ? "" : ",") << json(f.first) << ":{\"key\":" << json(f.second.key) << ",\"text\":"
                  << json(f.second.text) << ",\"detail\":" << json(f.second.detail) << "}";
                first = false;
            }
            o << "},\"violations\":[";
            for (std::size_t i = 0; i < ctx.violations.size(); ++i)
                o << (i ? "," : "") << "{\"key\":" << json(ctx.violations[i].key)
                  << ",\"text\":" << json(ctx.violations[i].text) << ",\"detail\":" << json(ctx.violations[i].detail)
                  << "}";
            o << "]}\n";
            if (!out.empty()) {
                auto dump = [](const std::string& f, const std::unordered_set<std::uint64_t>& set) {
                    std::vector<std::uint64_t> v(set.begin(), set.end());
                    std::ofstream fs(f, std::ios::binary);
                    fs.write(reinterpret_cast<const char*>(v.data()), static_cast<long>(v.size() * 8));
                };
                dump(out + ".states", ctx.states);
                dump(out + ".outcomes", ctx.outcomes);
                std::ofstream(out, std::ios::binary) << o.str();
            } else {
                std::cout << o.str() << "states " << ctx.states.size() << " outcomes " << ctx.outcomes.size() << "\n";
            }
            std::fflush(nullptr);
            _exit(0);
        }
        std::cerr << "no such scenario: " << scenario << "\n";
        return 3;
    }
} // namespace mc

#define MC_MAIN                                                                                                        \
    int main(int argc, char** argv)                                                                                    \
    {                                                                                                                  \
        return mc::main(argc, argv);                                                                                   \
    }

#endif
