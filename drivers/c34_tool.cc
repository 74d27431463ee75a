// C34: what the command line tool reads, writes, reports and returns.
#include "docs.hpp"
#include "ref_lines.hpp"

#include <csignal>
#include <fcntl.h>
#include <fstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

// the tool itself
#define main tool
#include "config.cc"
#include "main.cc"
#undef main

using namespace em;

namespace
{
    const std::vector<std::string>& documents()
    {
        static const std::vector<std::string> d{
            "# A\n\n## R [/r]\n\n### X [GET]\n\n+ Response 200 (application/json)\n\n        {}\n", // nothing to be said
            "",
            "\n",
            "# A\n\n## R [/r]\n\n### X [GET]\n\n### X [GET]\n",                                        // remarks
            "# \xC3\xA9\n\n\xE2\x82\xAC \xF0\x9F\x98\x80\n\n## R [/\xC3\xA9{a,\xC3\xA9}]\n\n### \xC3\xA9 [GET]\n\n+ Response\n\n    x\n\n    + Body\n", // beyond ASCII
            "# A\n\n# Data Structures\n\n## T (U)\n\n+ a\n",                                           // a structure of nothing
            "# A\n\n# Data Structures\n\n## T (T)\n\n+ a\n",                                           // an error
            "# A\n\n## R [/r]\n\n### X [GET]\n\n+ Response 200\n\n    [M][]\n\n### Y [GET]\n",         // another, and remarks
            "# A\r\n\ttext", // not read any further
            "FORMAT: 1A\nFORMAT: 1A\n\n# A\n\ntext\n\n# Group G\n\n# Group G\n\n+ x\n\n+ y\n\n1. z\n",
        };
        return d;
    }

    std::string slurp(const std::string& name)
    {
        std::ifstream f(name, std::ios::binary);
        return std::string((std::istreambuf_iterator<char>(f)), {});
    }
    void spit(const std::string& name, const std::string& s)
    {
        std::ofstream f(name, std::ios::binary);
        f << s;
    }
    bool exists(const std::string& name)
    {
        struct stat s;
        return ::stat(name.c_str(), &s) == 0;
    }

    // a scratch directory, in which all runs take place
    struct Scratch {
        std::string at;
        Scratch()
        {
            char t[] = "/tmp/verif-tool-XXXXXX";
            if (!::mkdtemp(t))
                throw std::runtime_error("no scratch directory");
            at = t;
        }
        ~Scratch()
        {
            for (auto f : { "in.apib", "other.apib", "out", "stdin", "stdout", "stderr", "dir" })
                ::remove((at + "/" + f).c_str());
            ::rmdir(at.c_str());
        }
        std::string operator/(const char* f) const
        {
            return at + "/" + f;
        }
    };

    struct Ran {
        int status = -1; // 1000 and more: of a signal
        std::string out, err;
    };

    // the tool, in a process of its own
    Ran run(const Scratch& s, const std::vector<std::string>& args, const std::string& input, const char* output = nullptr, long limit = -1)
    {
        spit(s / "stdin", input);
        std::fflush(nullptr);
        std::cout.flush();
        const pid_t pid = ::fork();
        if (pid == 0) {
            if (::chdir(s.at.c_str()))
                ::_exit(99);
            const int i = ::open("stdin", O_RDONLY), o = ::open(output ? output : "stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), e = ::open("stderr", O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0600);
            if (i < 0 || o < 0 || e < 0 || ::dup2(i, 0) < 0 || ::dup2(o, 1) < 0 || ::dup2(e, 2) < 0)
                ::_exit(99);
            if (limit >= 0) {
                ::signal(SIGXFSZ, SIG_IGN);
                struct rlimit l = { rlim_t(limit), rlim_t(limit) };
                ::setrlimit(RLIMIT_FSIZE, &l);
            }
            std::vector<const char*> argv{ "drafter" };
            for (auto& a : args)
                argv.push_back(a.c_str());
            argv.push_back(nullptr);
            std::exit(tool(int(argv.size()) - 1, argv.data()));
        }
        Ran r;
        int status = 0;
        if (pid < 0 || ::waitpid(pid, &status, 0) != pid)
            throw std::runtime_error("no process");
        r.status = WIFEXITED(status) ? WEXITSTATUS(status) : 1000 + WTERMSIG(status);
        r.out = output ? "" : slurp(s / "stdout");
        r.err = slurp(s / "stderr");
        return r;
    }

    // the report, of what the library says
    std::string report(const std::string& doc, const drafter_result& result, int code, bool lines)
    {
        std::string o = "\n";
        if (!code)
            o += "OK.\n";
        const auto source = ref::make(doc);
        for (auto& a : em::read(result).kids) {
            if (a.name != "annotation")
                continue;
            std::string klass, number, where;
            for (auto& m : a.meta)
                if (m.first == "classes")
                    klass = m.second.kids.at(0).text;
            for (auto& m : a.attrs) {
                if (m.first == "code")
                    number = m.second.text;
                if (m.first == "sourceMap")
                    for (auto& range : m.second.kids.at(0).kids) {
                        const auto at = std::stoull(range.kids.at(0).text), length = std::stoull(range.kids.at(1).text);
                        if (lines) {
                            const auto p = ref::expected(source, mdp::Range(at, length));
                            where += "; line " + std::to_string(p.fromLine) + ", column " + std::to_string(p.fromColumn) + " - line " + std::to_string(p.toLine) + ", column " + std::to_string(p.toColumn);
                        } else
                            where += (where.empty() ? " :" : ";") + range.kids.at(0).text + ":" + range.kids.at(1).text;
                    }
            }
            o += klass + ": (" + number + ")  " + a.text + where + "\n";
        }
        return o;
    }

    // every line of one in the other, in order: log entries may come between
    bool within(const std::string& part, const std::string& whole)
    {
        std::istringstream p(part), w(whole);
        std::string a, b;
        while (std::getline(p, a)) {
            do
                if (!std::getline(w, b))
                    return false;
            while (a != b);
        }
        return true;
    }

    std::string show(const std::vector<std::string>& args)
    {
        std::string o = "drafter";
        for (auto& a : args)
            o += " " + a;
        return o;
    }

    struct Expected {
        std::string out, err;
        int status;
    };
    // by document, format and options
    const Expected& expected(unsigned doc, bool json, bool maps, bool lines)
    {
        static std::map<std::tuple<unsigned, bool, bool, bool>, Expected> all;
        auto& e = all[std::make_tuple(doc, json, maps, lines)];
        if (e.out.empty()) {
            auto p = docs::parse(documents()[doc]);
            e.status = p.code;
            e.out = docs::serialize(p.result, json, maps) + "\n";
            e.err = report(documents()[doc], *p.result, p.code, lines);
        }
        return e;
    }

    const std::string warning = "WARN: While validation is enabled, output file will not be created\n";
}

// all options with all documents, in all ways of writing them
SCENARIO("options", 8)
{
    Scratch s;
    for (unsigned doc = 0; doc < documents().size(); ++doc)
        for (unsigned flags = 0; flags < 16; ++flags) // source maps, line numbers, validation, logging
            for (unsigned format = 0; format < 3; ++format)
                for (unsigned file = 0; file < 3; ++file) // none, one that is not there, one that is
                    for (bool byFile : { false, true })
                        for (unsigned way = 0; way < 4; ++way) {
                            if (!ctx.mine() || ctx.full())
                                continue;
                            const bool maps = flags & 1, lines = flags & 2, validate = flags & 4, log = flags & 8;
                            if (!ctx.thorough && log && (way + doc) % 4)
                                continue;
                            std::vector<std::string> args;
                            auto flag = [&](bool is, const char* name, const char* letter) {
                                if (!is)
                                    return;
                                if (way == 2 && !args.empty() && args.back()[1] != '-')
                                    args.back() += letter; // together
                                else
                                    args.push_back(way == 0 ? std::string("--") + name : std::string("-") + letter);
                            };
                            auto value = [&](const std::string& v, const char* name, const char* letter) {
                                if (v.empty())
                                    return;
                                if (way == 0)
                                    args.push_back(std::string("--") + name + "=" + v);
                                else {
                                    args.push_back(way == 3 ? std::string("--") + name : std::string("-") + letter);
                                    args.push_back(v);
                                }
                            };
                            flag(maps, "sourcemap", "s");
                            flag(lines, "use-line-num", "u");
                            flag(validate, "validate", "l");
                            flag(log, "enable-log", "L");
                            value(format == 0 ? "" : format == 1 ? "json" : "yaml", "format", "f");
                            value(file ? "out" : "", "output", "o");
                            if (byFile)
                                args.insert(way % 2 ? args.begin() : args.end(), "in.apib");
                            if (!ctx.begin(show(args) + " on " + mc::quote(documents()[doc])))
                                continue;
                            spit(s / "in.apib", byFile ? documents()[doc] : "# not this");
                            if (file == 2)
                                spit(s / "out", "before");
                            else
                                ::remove((s / "out").c_str());
                            const Ran r = run(s, args, byFile ? "# not this" : documents()[doc]);
                            const Expected& e = expected(doc, format == 1, maps, lines);
                            const std::string err = (validate && file ? warning : "") + e.err;
                            ctx.step();
                            ctx.expect(r.status == e.status, "status " + std::to_string(r.status) + ", expected " + std::to_string(e.status));
                            ctx.expect(r.out == (validate || file ? "" : e.out), "written: " + mc::quote(r.out));
                            if (file && !validate)
                                ctx.expect(slurp(s / "out") == e.out, "written to the file: " + mc::quote(slurp(s / "out")));
                            else
                                ctx.expect(exists(s / "out") == (file == 2) && (file != 2 || slurp(s / "out") == "before"), "the file was touched");
                            ctx.expect(log ? within(err, r.err) : r.err == err, "reported: " + mc::quote(r.err) + ", expected " + mc::quote(err));
                            ctx.expect(!byFile || slurp(s / "in.apib") == documents()[doc], "the input was changed");
                            ctx.state(show(args) + documents()[doc]);
                            ctx.outcome(r.out + r.err);
                            ctx.trace();
                            ctx.sample(show(args), 1);
                        }
}

// arguments that ask for help or the version, or make no sense
SCENARIO("usage", 4)
{
    Scratch s;
    spit(s / "in.apib", documents()[0]);
    spit(s / "other.apib", documents()[3]);
    const std::vector<std::string> words{ "in.apib", "other.apib", "-h", "--help", "-v", "--version", "--nope", "-x", "-f", "--format=xml", "-l", "-o", "out", "json", "--output=out" };
    const unsigned most = ctx.thorough ? 4 : 3;
    for (unsigned len = 1; len <= most; ++len) {
        std::vector<unsigned> at(len, 0);
        for (;;) {
            std::vector<std::string> args;
            for (auto i : at)
                args.push_back(words[i]);
            if (ctx.mine() && !ctx.full() && ctx.begin(show(args))) {
                // what they mean
                bool help = false, version = false, wrong = false, validate = false;
                std::string format = "yaml", output;
                std::vector<std::string> inputs;
                for (std::size_t i = 0; i < args.size(); ++i) {
                    const auto& a = args[i];
                    if (a == "-h" || a == "--help")
                        help = true;
                    else if (a == "-v" || a == "--version")
                        version = true;
                    else if (a == "-l")
                        validate = true;
                    else if (a == "-f" || a == "-o") {
                        if (i + 1 == args.size())
                            wrong = true;
                        else if (a == "-o")
                            output = args[++i];
                        else {
                            format = args[++i];
                            wrong = wrong || (format != "yaml" && format != "json");
                        }
                    } else if (a == "--output=out")
                        output = "out";
                    else if (a[0] == '-')
                        wrong = true;
                    else
                        inputs.push_back(a);
                }
                for (auto f : { "out", "json" })
                    ::remove((s / f).c_str());
                spit(s / "in.apib", documents()[0]);
                spit(s / "other.apib", documents()[3]);
                const bool overwrites = !help && !wrong && inputs.size() < 2 && !version && !validate && (output == "in.apib" || output == "other.apib");
                const bool absent = !inputs.empty() && (inputs[0] == "out" || inputs[0] == "json");
                if (overwrites) { // and may read what it writes: whose wish that was
                    ctx.step();
                } else {
                    const Ran r = run(s, args, documents()[3]);
                    ctx.step();
                    const std::string doc = inputs.empty() || inputs[0] == "other.apib" ? documents()[3] : documents()[0];
                    int status = 0;
                    std::string out, err;
                    if (help) {
                        ctx.expect(r.err.find("usage: drafter ") == 0 && r.err.find("--use-line-num") != std::string::npos, "no usage: " + mc::quote(r.err));
                    } else if (wrong) {
                        status = 1;
                        ctx.expect(r.err.find("usage: drafter ") != std::string::npos, "no usage: " + mc::quote(r.err));
                    } else if (inputs.size() > 1) {
                        status = 1;
                        ctx.expect(r.err == "one input file expected, got " + std::to_string(inputs.size()) + "\n", "reported: " + mc::quote(r.err));
                    } else if (version) {
                        out = std::string(drafter_version_string()) + "\n";
                        ctx.expect(r.err.empty(), "reported: " + mc::quote(r.err));
                    } else if (absent) {
                        status = 1;
                        err = (validate && !output.empty() ? warning : "") + "fatal: unable to open file '" + inputs[0] + "'\n";
                        ctx.expect(r.err == err, "reported: " + mc::quote(r.err));
                    } else {
                        const Expected& e = expected(doc == documents()[3] ? 3 : 0, format == "json", false, false);
                        status = e.status;
                        out = validate || !output.empty() ? "" : e.out;
                        if (!validate && !output.empty())
                            ctx.expect(slurp(s / output.c_str()) == e.out, "written to the file: " + mc::quote(slurp(s / output.c_str())));
                        err = (validate && !output.empty() ? warning : "") + e.err;
                        ctx.expect(r.err == err, "reported: " + mc::quote(r.err) + ", expected " + mc::quote(err));
                    }
                    ctx.expect(r.status == status, "status " + std::to_string(r.status) + ", expected " + std::to_string(status));
                    ctx.expect(r.out == out, "written: " + mc::quote(r.out));
                    ctx.outcome(r.out + r.err);
                    if (output.size() && output[0] == '-')
                        ::remove((s / output.c_str()).c_str());
                }
                ctx.state(show(args));
                ctx.trace();
                ctx.sample(show(args), 1);
            }
            unsigned i = 0;
            while (i < len && ++at[i] == words.size())
                at[i++] = 0;
            if (i == len)
                break;
        }
    }
    for (auto f : { "out", "json", "-h", "-v", "-x", "-f", "-l", "-o", "--help", "--version", "--nope", "--format=xml", "--output=out" })
        ::remove((s / f).c_str());
}

// files that cannot be opened or written, at any point
SCENARIO("faults", 4)
{
    Scratch s;
    ::mkdir((s / "dir").c_str(), 0700);
    for (unsigned doc = 0; doc < documents().size(); ++doc)
        for (unsigned format = 0; format < 2; ++format)
            for (bool validate : { false, true }) {
                std::vector<std::string> base{ "-f", format ? "json" : "yaml" };
                if (validate)
                    base.push_back("-l");
                const Expected& e = expected(doc, format, false, false);
                auto check = [&](const std::string& what, const std::vector<std::string>& more, const char* output, long limit, bool fails, const std::string& says, const char* file) {
                    auto args = base;
                    args.insert(args.end(), more.begin(), more.end());
                    if (!ctx.mine() || ctx.full() || !ctx.begin(show(args) + ", " + what + ", on " + mc::quote(documents()[doc])))
                        return;
                    spit(s / "in.apib", documents()[doc]);
                    for (auto f : { "out", "stdout" })
                        ::remove((s / f).c_str());
                    const Ran r = run(s, args, documents()[doc], output, limit);
                    ctx.step();
                    if (fails)
                        ctx.expect(r.status != 0 && r.status < 1000, "status " + std::to_string(r.status));
                    else
                        ctx.expect(r.status == e.status, "status " + std::to_string(r.status) + ", expected " + std::to_string(e.status));
                    if (!says.empty())
                        ctx.expect(r.err.find(says) != std::string::npos, "not said: " + says + " in " + mc::quote(r.err));
                    if (file) { // no more than the beginning
                        const std::string got = slurp(s / file);
                        ctx.expect(e.out.compare(0, got.size(), got) == 0 && (fails || validate || got == e.out), "written: " + mc::quote(got));
                    }
                    ctx.state(what + show(args) + documents()[doc]);
                    ctx.outcome(r.err);
                    ctx.trace();
                    ctx.sample(show(args) + ", " + what, 1);
                };
                const std::string open = "fatal: unable to open file ";
                check("no such input", { "none.apib" }, nullptr, -1, true, open + "'none.apib'", nullptr);
                check("no such directory for the output", { "-o", "none/out", "in.apib" }, nullptr, -1, !validate, validate ? "" : open + "'none/out'", nullptr);
                check("the output is a directory", { "-o", "dir", "in.apib" }, nullptr, -1, !validate, validate ? "" : open + "'dir'", nullptr);
                check("a full device for standard output", { "in.apib" }, "/dev/full", -1, !validate, "", nullptr);
                check("a full device for the output", { "-o", "/dev/full" }, nullptr, -1, !validate, "", nullptr);
                // space for all of the report, and for ever more of the output
                const long most = long(e.out.size()), from = long(e.err.size() + warning.size() + 200);
                for (long limit = from; limit <= most + 1; limit += ctx.thorough ? 1 : 7) {
                    check("space for " + std::to_string(limit) + " bytes", { "-o", "out" }, nullptr, limit, !validate && limit < most, "", "out");
                    check("space for " + std::to_string(limit) + " bytes", { "in.apib" }, nullptr, limit, !validate && limit < most, "", validate ? nullptr : "stdout");
                }
            }
    ::rmdir((s / "dir").c_str());
}

MC_MAIN
