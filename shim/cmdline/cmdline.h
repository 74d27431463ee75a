// Stand-in for cmdline (https://github.com/tanakh/cmdline), which is not installed here: what packages/drafter/src/config.cc
// uses of it, with the behaviour of the original: long options with "=value" or the next argument, short options alone or
// together of which the last may take the next argument, everything else is the rest; usage and status 0 on help, the
// first error, usage and status 1 on wrong arguments.
#ifndef CMDLINE_STAND_IN_H
#define CMDLINE_STAND_IN_H

#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace cmdline
{
    template <typename T>
    struct oneof_reader {
        std::vector<T> alternatives;
        void operator()(const T& v) const
        {
            for (auto& a : alternatives)
                if (a == v)
                    return;
            throw std::logic_error("none of the values");
        }
    };
    template <typename T, typename... Ts>
    oneof_reader<T> oneof(const Ts&... alternatives)
    {
        return { { T(alternatives)... } };
    }

    class parser
    {
        struct option {
            std::string name;
            char letter = 0;
            std::string description;
            bool takesValue = false, has = false;
            std::string value;
            std::vector<std::string> alternatives;
        };
        std::string program, foot;
        std::vector<option> options;
        std::vector<std::string> others, errors;

        option* find(const std::string& name)
        {
            for (auto& o : options)
                if (o.name == name)
                    return &o;
            return nullptr;
        }
        const option& get(const std::string& name) const
        {
            for (auto& o : options)
                if (o.name == name)
                    return o;
            throw std::logic_error("there is no flag: --" + name);
        }
        option* find(char letter)
        {
            for (auto& o : options)
                if (o.letter == letter)
                    return &o;
            return nullptr;
        }
        void set(option& o)
        {
            if (o.takesValue)
                errors.push_back("option needs value: --" + o.name);
            else
                o.has = true;
        }
        void set(option& o, const std::string& value)
        {
            bool ok = o.takesValue;
            if (ok && !o.alternatives.empty()) {
                ok = false;
                for (auto& a : o.alternatives)
                    ok = ok || a == value;
            }
            if (!ok) {
                errors.push_back("option value is invalid: --" + o.name + "=" + value);
                return;
            }
            o.value = value;
            o.has = true;
        }

    public:
        void set_program_name(const std::string& name) { program = name; }
        void footer(const std::string& f) { foot = f; }

        void add(const std::string& name, char letter, const std::string& description)
        {
            option o;
            o.name = name;
            o.letter = letter;
            o.description = description;
            options.push_back(o);
        }
        template <typename T>
        void add(const std::string& name, char letter, const std::string& description, bool, const T& def = T())
        {
            add(name, letter, description);
            options.back().takesValue = true;
            options.back().value = def;
        }
        template <typename T>
        void add(const std::string& name, char letter, const std::string& description, bool need, const T& def, const oneof_reader<T>& reader)
        {
            add<T>(name, letter, description, need, def);
            options.back().alternatives = reader.alternatives;
        }

        bool parse(int argc, const char* const argv[])
        {
            for (int i = 1; i < argc; ++i) {
                const std::string a = argv[i];
                if (a.compare(0, 2, "--") == 0) {
                    const std::size_t eq = a.find('=', 2);
                    const std::string name = a.substr(2, eq == std::string::npos ? eq : eq - 2);
                    option* o = find(name);
                    if (!o) {
                        errors.push_back("undefined option: --" + name);
                        continue;
                    }
                    if (eq != std::string::npos)
                        set(*o, a.substr(eq + 1));
                    else if (!o->takesValue)
                        set(*o);
                    else if (i + 1 >= argc)
                        errors.push_back("option needs value: --" + name);
                    else
                        set(*o, argv[++i]);
                } else if (a.compare(0, 1, "-") == 0) {
                    if (a.size() < 2)
                        continue;
                    for (std::size_t j = 1; j < a.size(); ++j) {
                        option* o = find(a[j]);
                        if (!o) {
                            errors.push_back(std::string("undefined short option: -") + a[j]);
                            if (j + 1 == a.size())
                                break;
                            continue;
                        }
                        if (j + 1 == a.size() && i + 1 < argc && o->takesValue)
                            set(*o, argv[++i]);
                        else
                            set(*o);
                    }
                } else
                    others.push_back(a);
            }
            return errors.empty();
        }
        void parse_check(int argc, const char* const argv[])
        {
            const bool ok = parse(argc, argv);
            if ((argc == 1 && !ok) || exist("help")) {
                std::cerr << usage();
                std::exit(0);
            }
            if (!ok) {
                std::cerr << errors.front() << std::endl << usage();
                std::exit(1);
            }
        }
        bool exist(const std::string& name) const { return get(name).has; }
        template <typename T>
        T get(const std::string& name) const
        {
            return get(name).value;
        }
        const std::vector<std::string>& rest() const { return others; }
        std::string usage() const
        {
            std::ostringstream o;
            o << "usage: " << program << " [options] ... " << foot << "\noptions:\n";
            for (auto& x : options)
                o << "  -" << x.letter << ", --" << x.name << "    " << x.description << "\n";
            return o.str();
        }
    };
}

#endif
