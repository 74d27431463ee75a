// C31: data structures written in a document are the elements they describe.
#include "api.hpp"

using namespace em;

namespace
{
    enum Base { None, Str, Num, Bool, Arr, Obj, Enm, Missing };

    struct Lit {
        std::string text;
        bool sample = false; // *in emphasis*
    };

    struct M;

    struct Section {
        enum What { Members, Sample, Default } what = Members;
        std::vector<Lit> values; // on the line
        std::vector<M> items;    // or below
        bool wrapped = false;    // members under "+ Properties" or "+ Items"
    };

    // a property, an item, a mixin, a choice, or the members of one option
    struct M {
        enum Form { Property, Item, Mixin, OneOf, Group } form = Property;
        std::string key;
        bool variable = false;
        std::vector<Lit> values;
        std::string type;
        std::vector<std::string> nested;
        std::vector<std::string> traits;
        std::string about;
        std::vector<std::string> more; // paragraphs below
        std::vector<Section> sections;

        M() {}
        explicit M(Form f) : form(f) {}
        M of(const std::string& t) const
        {
            M m = *this;
            m.type = t;
            return m;
        }
        M of(const std::string& t, const std::vector<std::string>& n) const
        {
            M m = of(t);
            m.nested = n;
            return m;
        }
        M is(const std::vector<std::string>& t) const
        {
            M m = *this;
            m.traits = t;
            return m;
        }
        M with(const std::vector<Lit>& v) const
        {
            M m = *this;
            m.values = v;
            return m;
        }
        M says(const std::string& a) const
        {
            M m = *this;
            m.about = a;
            return m;
        }
        M plus(const Section& s) const
        {
            M m = *this;
            m.sections.push_back(s);
            return m;
        }
        M plus(const std::vector<M>& items) const
        {
            Section s;
            s.items = items;
            return plus(s);
        }
    };

    M property(const std::string& k)
    {
        M m;
        m.key = k;
        return m;
    }
    M item(const std::string& v = "")
    {
        M m(M::Item);
        if (!v.empty())
            m.values = { { v } };
        return m;
    }
    M mixin(const std::string& t)
    {
        return M(M::Mixin).of(t);
    }

    struct Named {
        std::string name;
        M head; // type, nested, traits
        std::string about;
        bool headers = false; // its sections under headers of their own
    };

    // --- as text

    struct Writer {
        std::string out;
        bool blocks = false;

        static std::string lit(const Lit& l)
        {
            std::string t = l.text;
            if (t.find_first_of(",:()-*_[]{}") != std::string::npos)
                t = "`" + t + "`";
            return l.sample ? "*" + t + "*" : t;
        }
        static std::string lits(const std::vector<Lit>& v)
        {
            std::string o;
            for (auto& l : v)
                o += (o.empty() ? "" : ", ") + lit(l);
            return o;
        }
        static std::string spec(const M& m)
        {
            std::string t = m.type;
            if (!m.nested.empty()) {
                t += "[";
                for (auto& n : m.nested)
                    t += (n == m.nested[0] ? "" : ", ") + n;
                t += "]";
            }
            for (auto& a : m.traits)
                t += (t.empty() ? "" : ", ") + a;
            return t.empty() ? "" : " (" + t + ")";
        }

        void member(const M& m, unsigned depth)
        {
            const std::string in(depth * 4, ' ');
            out += in + "+";
            switch (m.form) {
                case M::Property:
                    out += " " + (m.variable ? "*" + m.key + "*" : m.key);
                    if (!m.values.empty())
                        out += ": " + lits(m.values);
                    out += spec(m);
                    break;
                case M::Item:
                    if (!m.values.empty())
                        out += " " + lits(m.values);
                    out += spec(m);
                    break;
                case M::Mixin:
                    out += " Include " + m.type;
                    break;
                case M::OneOf:
                    out += " One Of";
                    break;
                case M::Group:
                    out += " Properties";
                    break;
            }
            if (!m.about.empty())
                out += " - " + m.about;
            out += "\n";
            for (auto& p : m.more)
                out += "\n" + in + "    " + p + "\n";
            if (!m.more.empty())
                out += "\n";
            sections(m, depth + 1);
        }
        void sections(const M& m, unsigned depth)
        {
            const std::string in(depth * 4, ' ');
            for (auto& s : m.sections) {
                if (s.what == Section::Members) {
                    if (s.wrapped)
                        out += in + (m.type == "object" || m.type.empty() ? "+ Properties\n" : "+ Items\n");
                } else
                    out += in + (s.what == Section::Sample ? "+ Sample" : "+ Default") + (s.values.empty() ? "" : ": " + lits(s.values)) + "\n";
                for (auto& i : s.items)
                    member(i, depth + (s.what != Section::Members || s.wrapped));
            }
        }
    };

    std::string text(const std::vector<Named>& types)
    {
        Writer w;
        w.out = "# A\n\n# Data Structures\n";
        for (auto& t : types) {
            w.out += "\n## " + t.name + Writer::spec(t.head) + "\n";
            if (!t.about.empty())
                w.out += t.about + "\n";
            bool bare = t.about.empty();
            for (auto& s : t.head.sections) {
                if (s.what == Section::Members && bare && !t.headers)
                    w.out += "\n";
                else if (s.what == Section::Members)
                    w.out += t.head.type == "array" || t.head.type == "enum" ? "\n### Items\n\n" : "\n### Properties\n\n";
                else
                    w.out += std::string("\n### ") + (s.what == Section::Sample ? "Sample" : "Default") + (s.values.empty() ? "" : ": " + Writer::lits(s.values)) + "\n\n";
                for (auto& i : s.items)
                    w.member(i, 0);
                bare = false;
            }
        }
        return w.out;
    }

    // --- as elements

    struct Model {
        std::map<std::string, const Named*> names;
        unsigned notes = 0;

        static Base word(const std::string& t)
        {
            static const std::map<std::string, Base> words{ { "string", Str }, { "number", Num }, { "boolean", Bool }, { "array", Arr }, { "object", Obj }, { "enum", Enm } };
            auto it = words.find(t);
            return it == words.end() ? None : it->second;
        }
        Base base(const std::string& t, unsigned depth = 0) const
        {
            if (t.empty())
                return None;
            if (word(t) != None)
                return word(t);
            auto it = names.find(t);
            if (it == names.end() || depth > 20)
                return Missing;
            const M& h = it->second->head;
            return h.type.empty() ? h.nested.empty() ? Obj : Arr : base(h.type, depth + 1);
        }
        static Kind kind(Base b)
        {
            return b == Num ? Number : b == Bool ? Boolean : b == Arr ? Array : b == Obj ? Object : b == Enm ? Enum : String;
        }

        Val leaf(Base b, const std::string& t) const
        {
            return Val(kind(b), t);
        }

        // what one type, of several or not, makes of values without types of their own
        static Base plain(const std::vector<std::string>& nested)
        {
            const Base b = nested.size() == 1 ? word(nested[0]) : Str;
            return b == Num || b == Bool ? b : Str;
        }

        static bool literal(const Val& v)
        {
            return v.has && (v.kind == String || v.kind == Number || v.kind == Boolean);
        }
        static Val fixed(Val v)
        {
            if (!literal(v))
                return v;
            for (auto& a : v.attrs)
                if (a.first == "typeAttributes") {
                    for (auto& t : a.second.kids)
                        if (t.text == "fixed")
                            return v;
                    a.second.kids.push_back(str("fixed"));
                    return v;
                }
            return v.attr("typeAttributes", typed({ "fixed" }));
        }

        Val attributes(const std::vector<std::string>& traits) const
        {
            Val t = arr();
            for (auto& p : std::vector<std::pair<const char*, const char*> >{ { "required", "required" }, { "optional", "optional" }, { "fixed", "fixed" }, { "fixed-type", "fixedType" }, { "nullable", "nullable" } })
                if (std::find(traits.begin(), traits.end(), p.first) != traits.end())
                    t.kids.push_back(str(p.second));
            return t;
        }
        static bool has(const M& m, const char* t)
        {
            return std::find(m.traits.begin(), m.traits.end(), t) != m.traits.end();
        }

        void clashes(const M& m)
        {
            notes += has(m, "fixed") && has(m, "optional");
            notes += has(m, "required") && has(m, "optional");
            notes += has(m, "default") && has(m, "sample");
            notes += has(m, "fixed") && has(m, "fixed-type");
        }

        std::vector<Val> hints(const M& m)
        {
            std::vector<Val> o;
            for (auto& n : m.nested) {
                const Base b = base(n);
                if (b == Missing) {
                    ++notes;
                    continue;
                }
                Val v(kind(b));
                o.push_back(word(n) == None ? v.named(n) : v);
            }
            return o;
        }

        Val element(const M& m, Base inherited)
        {
            Base b = base(m.type);
            bool members = false;
            for (auto& s : m.sections)
                members = members || (s.what == Section::Members && !s.items.empty());
            if (b == None)
                b = !m.nested.empty() || m.values.size() > 1 ? Arr : members ? Obj : inherited == None ? Str : inherited;
            return fill(m, b);
        }

        Val fill(const M& m, Base b)
        {
            Val v(kind(b));
            if (!m.type.empty() && word(m.type) == None)
                v.name = m.type;
            if (b != Obj && m.form != M::Mixin && m.values.empty())
                notes += has(m, "default") + has(m, "sample");
            const bool asDefault = has(m, "default"), asSample = !asDefault && has(m, "sample");
            const Base inside = plain(m.nested);
            std::vector<Val> samples, contents;
            const Val* last = nullptr;
            Val byDefault;
            auto put = [&](const Val& x) {
                byDefault = x;
                last = &byDefault;
            };

            if (kind(b) == String || kind(b) == Number || kind(b) == Boolean) {
                if (!m.values.empty()) {
                    const Val x = leaf(b, m.values[0].text);
                    if (asDefault)
                        put(x);
                    else if (asSample || m.values[0].sample)
                        samples.push_back(x);
                    else {
                        v.has = true;
                        v.text = x.text;
                    }
                }
                for (auto& s : m.sections)
                    if (s.what != Section::Members && !s.values.empty()) {
                        const Val x = leaf(b, s.values[0].text);
                        if (s.what == Section::Default)
                            put(x);
                        else
                            samples.push_back(x);
                    }
            } else if (b == Arr) {
                auto valued = [&](const std::vector<Lit>& l, Base of) {
                    std::vector<Val> o;
                    for (auto& x : l)
                        o.push_back(x.sample ? Val(kind(of)).attr("samples", arr({ leaf(of, x.text) })) : leaf(of, x.text));
                    return o;
                };
                if (!m.values.empty()) {
                    const Val x = arr(valued(m.values, inside));
                    if (asDefault)
                        put(x);
                    else if (asSample)
                        samples.push_back(x);
                }
                if (m.values.empty() || m.nested.size() > 1)
                    contents = hints(m);
                if (!asDefault && !asSample)
                    for (auto& x : valued(m.values, inside))
                        contents.push_back(x);
                for (auto& s : m.sections) {
                    std::vector<Val> l = valued(s.values, inside);
                    for (auto& x : list(s.items, inside))
                        l.push_back(x);
                    if (l.empty())
                        continue;
                    if (s.what == Section::Members)
                        contents.insert(contents.end(), l.begin(), l.end());
                    else if (s.what == Section::Sample)
                        samples.push_back(arr(l));
                    else
                        put(arr(l));
                }
                v.has = !contents.empty();
                v.kids = contents;
            } else if (b == Obj) {
                for (auto& s : m.sections) {
                    const std::vector<Val> l = list(s.items, None);
                    if (l.empty())
                        continue;
                    if (s.what == Section::Members)
                        contents.insert(contents.end(), l.begin(), l.end());
                    else if (s.what == Section::Sample)
                        samples.push_back(obj(l));
                    else
                        put(obj(l));
                }
                v.has = !contents.empty();
                v.kids = contents;
            } else { // an enum: whatever is said is one of its values
                std::vector<Val> in, values, sampled, defaults;
                for (auto& x : m.values)
                    in.push_back(fixed(leaf(inside, x.text)));
                if (asDefault)
                    defaults.swap(in);
                else if (asSample)
                    sampled.swap(in);
                unsigned first = 0;
                for (auto& s : m.sections) {
                    std::vector<Val> l;
                    for (auto& x : s.values)
                        l.push_back(fixed(leaf(inside, x.text)));
                    for (auto& x : list(s.items, inside))
                        l.push_back(fixed(x));
                    if (s.what == Section::Members) {
                        if (values.empty())
                            first = unsigned(l.size());
                        values.insert(values.end(), l.begin(), l.end());
                    } else
                        for (auto& x : l)
                            (s.what == Section::Sample ? sampled : defaults).push_back(x);
                }
                const Val* one = in.size() == 1 ? &in[0] : first == 1 && values[0].has ? &values[0] : nullptr;
                if (one) {
                    v.has = true;
                    v.kids = { *one };
                }
                std::vector<Val> all;
                auto same = [&](const Val& a, const Val& x) {
                    Val p = a, q = x;
                    p.meta.clear();
                    q.meta.clear();
                    return dump(p) == dump(q);
                };
                auto add = [&](const std::vector<Val>& l, bool remark, const std::vector<Val>* later = nullptr) {
                    bool said = false;
                    for (auto& x : l) {
                        bool twice = false, known = false;
                        for (auto& a : all)
                            known = known || same(a, x);
                        if (later)
                            for (auto& a : *later)
                                twice = twice || same(a, x);
                        if (twice)
                            continue;
                        if (known)
                            said = remark;
                        else
                            all.push_back(x);
                    }
                    return said;
                };
                notes += add(in, true, &values);
                bool said = add(values, true); // once for them all
                add(sampled, false);
                add(defaults, false);
                if (m.values.empty() || m.nested.size() > 1)
                    said = add(hints(m), true) || said;
                notes += said;
                if (!all.empty())
                    v = v.attr("enumerations", arr(all));
                for (auto& x : sampled)
                    samples.push_back(Val(Enum, std::vector<Val>{ x }));
                notes += defaults.size() > 1;
                if (!defaults.empty())
                    put(Val(Enum, std::vector<Val>{ defaults.back() }));
            }
            if (!samples.empty())
                v = v.attr("samples", arr(samples));
            if (last)
                v = v.attr("default", *last);
            return v;
        }

        std::vector<Val> list(const std::vector<M>& items, Base inherited)
        {
            std::vector<Val> o;
            for (auto& m : items)
                o.push_back(one(m, inherited));
            return o;
        }

        static std::string description(const M& m)
        {
            std::string d = m.about;
            for (auto& p : m.more)
                d += (d.empty() ? "" : "\n\n") + p;
            return d;
        }

        Val one(const M& m, Base inherited)
        {
            switch (m.form) {
                case M::Mixin:
                    return em::ref(m.type).attr("path", str("content"));
                case M::OneOf: {
                    Val s(Select, std::vector<Val>());
                    for (auto& sec : m.sections)
                        for (auto& i : sec.items)
                            s.kids.push_back(Val(Option, i.form == M::Group ? list(i.sections[0].items, None) : std::vector<Val>{ one(i, None) }));
                    return s;
                }
                default:
                    break;
            }
            clashes(m);
            Val v = element(m, inherited);
            const Val t = attributes(m.traits);
            if (m.form == M::Property) {
                v = mem(m.key, v);
                if (m.variable)
                    v = v.attr("variable", boolean(true));
            }
            if (!t.kids.empty())
                v = v.attr("typeAttributes", t);
            const std::string d = description(m);
            if (!d.empty())
                v = v.metaOf("description", str(d));
            return v;
        }

        Val type(const Named& n)
        {
            const Base b = n.head.type.empty() ? n.head.nested.empty() ? Obj : Arr : base(n.head.type);
            Val v = fill(n.head, b).metaOf("id", str(n.name));
            const Val t = attributes(n.head.traits);
            if (!t.kids.empty())
                v = v.attr("typeAttributes", t);
            if (!n.about.empty())
                v = v.metaOf("description", str(n.about));
            return v;
        }
    };

    std::vector<unsigned> codes(const std::vector<Val>& notes, std::string& texts)
    {
        std::vector<unsigned> o;
        for (auto& n : notes)
            for (auto& x : n.attrs)
                if (x.first == "code") {
                    o.push_back(unsigned(std::stoul(x.second.text)));
                    texts += " " + x.second.text + " '" + n.text + "'";
                }
        return o;
    }

    void one(mc::Ctx& ctx, const std::vector<Named>& types)
    {
        const std::string doc = text(types);
        if (!ctx.begin(mc::quote(doc)))
            return;
        Model model;
        for (auto& t : types)
            model.names[t.name] = &t;
        Val structures = api::list("category").metaOf("classes", arr({ str("dataStructures") }));
        for (auto& t : types) {
            Val d = Val(Holder, std::vector<Val>{ model.type(t) }).named("dataStructure");
            structures.kids.push_back(d);
        }
        const Val want = api::list("category").metaOf("classes", arr({ str("api") })).metaOf("title", str("A"));
        Val whole = want;
        whole.kids = { structures };
        std::string texts;
        const auto got = codes(api::check(ctx, doc, whole), texts);
        if (got.size() != model.notes)
            ctx.violation("remarks:" + texts + ", expected " + std::to_string(model.notes));
        ctx.sample(mc::quote(doc), 1);
    }

    // a document that is an error
    void wrong(mc::Ctx& ctx, const std::vector<Named>& types)
    {
        const std::string doc = text(types);
        if (!ctx.begin(mc::quote(doc)))
            return;
        auto p = docs::parse(doc);
        if (ctx.expect(p.result != nullptr, "no result"))
            ctx.expect(p.code == 4, "code " + std::to_string(p.code) + ", expected the error 4");
        ctx.step();
        ctx.trace();
    }

    Named named(const std::string& n, const M& head = M())
    {
        Named t;
        t.name = n;
        t.head = head;
        return t;
    }
    Named having(const std::vector<M>& members)
    {
        return named("T", M().plus(members));
    }

    struct Kindly {
        std::string type;
        std::vector<std::string> nested;
        std::vector<std::vector<Lit> > values;
    };

    std::vector<Kindly> kinds(bool sampled)
    {
        std::vector<Kindly> o{
            { "", {}, { {}, { { "v" } }, { { "v w" } }, { { "a-b" } }, { { "v" }, { "w" } } } },
            { "string", {}, { {}, { { "v" } }, { { "1" } } } },
            { "number", {}, { {}, { { "1" } }, { { "-2.5" } } } },
            { "boolean", {}, { {}, { { "true" } }, { { "false" } } } },
            { "object", {}, { {} } },
            { "array", {}, { {}, { { "v" } }, { { "v" }, { "w" } } } },
            { "array", { "string" }, { {}, { { "v" } }, { { "v" }, { "w" } } } },
            { "array", { "number" }, { {}, { { "1" } }, { { "1" }, { "2" } } } },
            { "array", { "boolean" }, { {}, { { "true" }, { "false" } } } },
            { "array", { "object" }, { {} } },
            { "array", { "string", "number" }, { {}, { { "v" }, { "w" } } } },
            { "enum", {}, { {}, { { "v" } }, { { "v" }, { "w" } } } },
            { "enum", { "string" }, { {}, { { "v" } } } },
            { "enum", { "number" }, { {}, { { "1" } } } },
        };
        if (sampled)
            for (auto& k : o) {
                auto values = k.values;
                for (auto& v : values)
                    if (!v.empty() && v[0].text.find('-') == std::string::npos && k.type != "enum") {
                        auto w = v;
                        for (auto& l : w)
                            l.sample = true;
                        k.values.push_back(w);
                    }
            }
        return o;
    }

    const std::vector<std::vector<std::string> >& traits(bool thorough)
    {
        static std::vector<std::vector<std::string> > few, all;
        if (all.empty()) {
            const std::vector<std::string> names{ "required", "optional", "fixed", "fixed-type", "nullable", "sample", "default" };
            for (unsigned m = 0; m < 128; ++m) {
                std::vector<std::string> l;
                for (unsigned i = 0; i < names.size(); ++i)
                    if (m >> i & 1)
                        l.push_back(names[i]);
                all.push_back(l);
                if (l.size() <= 2)
                    few.push_back(l);
            }
        }
        return thorough ? all : few;
    }
}

// one property: types, values, attributes, description
SCENARIO("properties", 8)
{
    for (auto& k : kinds(true))
        for (auto& v : k.values)
            for (auto& t : traits(ctx.thorough))
                for (auto about : { "", "text", "a: b (c) - d" })
                    for (bool variable : { false, true }) {
                        if (!ctx.mine() || ctx.full())
                            continue;
                        M m = property("key").of(k.type, k.nested).with(v).is(t).says(about);
                        m.variable = variable;
                        one(ctx, { having({ property("a"), m }) });
                    }
}

namespace
{
    Section listed(Section::What what, const std::vector<M>& items, bool wrapped = false)
    {
        Section s;
        s.what = what;
        s.items = items;
        s.wrapped = wrapped;
        return s;
    }
    Section lined(Section::What what, const std::vector<Lit>& values)
    {
        Section s;
        s.what = what;
        s.values = values;
        return s;
    }

    // what may be under a property of a type
    std::vector<Section> parts(const Kindly& k)
    {
        const bool collection = k.type == "array" || k.type == "enum";
        std::vector<Section> o;
        std::vector<Lit> l{ { "v" } }, l2{ { "v w" }, { "u" } };
        if (!k.nested.empty() && k.nested[0] == "number")
            l = { { "1" } }, l2 = { { "2" }, { "3" } };
        if (!k.nested.empty() && k.nested[0] == "boolean")
            l = { { "true" } }, l2 = { { "false" }, { "true" } };
        if (collection) {
            for (auto w : { Section::Sample, Section::Default }) {
                o.push_back(lined(w, l));
                o.push_back(lined(w, l2));
                o.push_back(listed(w, { item(l[0].text) }));
                o.push_back(listed(w, { item(l2[0].text), item(l2[1].text).says("about") }));
                if (k.type == "enum")
                    o.push_back(listed(w, { item(l[0].text).says("told") }));
            }
            if (k.type == "enum")
                o.push_back(listed(Section::Members, { item(l2[1].text), item(l[0].text).says("told") }));
            o.push_back(listed(Section::Members, { item(l[0].text) }));
            o.push_back(listed(Section::Members, { item(l2[0].text), item(l2[1].text).says("about") }));
            o.push_back(listed(Section::Members, { item(l2[1].text) }, true));
            if (k.type == "array")
                o.push_back(listed(Section::Members, { item().of("object").plus({ property("p") }), item("5").of("number") }));
        } else if (k.type == "object") {
            for (auto w : { Section::Sample, Section::Default, Section::Members }) {
                o.push_back(listed(w, { property("p") }));
                o.push_back(listed(w, { property("q").with({ { "1" } }).of("number"), property("r").is({ "required" }).says("about") }));
            }
            o.push_back(listed(Section::Members, { property("s").of("array").plus({ item("x") }) }, true));
        } else if (!k.type.empty()) {
            const std::string v = k.type == "number" ? "7" : k.type == "boolean" ? "false" : "v w", u = k.type == "number" ? "0.5" : k.type == "boolean" ? "true" : "v-w";
            for (auto w : { Section::Sample, Section::Default }) {
                o.push_back(lined(w, { { v } }));
                o.push_back(lined(w, { { u } }));
            }
        }
        return o;
    }
}

// values, members, samples and defaults below a property, in any order
SCENARIO("sections", 8)
{
    const unsigned depth = ctx.thorough ? 4 : 3;
    for (auto& k : kinds(false))
        for (auto& v : k.values) {
            const auto p = parts(k);
            if (p.empty())
                continue;
            std::vector<unsigned> at;
            for (;;) {
                if (ctx.mine()) {
                    if (ctx.full())
                        return;
                    M m = property("key").of(k.type, k.nested).with(v);
                    bool apart = true; // members that are no section of their own come once, and first
                    for (unsigned i = 0; i < at.size(); ++i) {
                        m.sections.push_back(p[at[i]]);
                        if (i && p[at[i]].what == Section::Members && !p[at[i]].wrapped)
                            apart = false;
                        if (k.type == "object" && p[at[i]].what == Section::Members && std::count(at.begin(), at.end(), at[i]) > 1)
                            apart = false; // the later of two properties of one name replaces the earlier
                    }
                    if (apart)
                        one(ctx, { having({ m, property("z") }) });
                }
                unsigned i = 0;
                for (; i < at.size() && ++at[i] == p.size(); ++i)
                    at[i] = 0;
                if (i == at.size()) {
                    if (at.size() == depth)
                        break;
                    at.assign(at.size() + 1, 0);
                }
            }
        }
}

// the items of arrays and enumerations, of every kind
SCENARIO("items", 8)
{
    std::vector<M> items;
    for (auto& k : kinds(true))
        for (auto& v : k.values) {
            if (k.type.empty() && v.empty())
                continue;
            for (unsigned t = 0; t < (k.type.empty() ? 1 : 3); ++t)
                for (auto about : { "", "text" }) {
                    M m = item().of(k.type, k.nested).with(v).says(about);
                    if (t)
                        m = m.is({ t == 1 ? "nullable" : "fixed" });
                    if (k.type == "object")
                        m = m.plus({ property("p").with({ { "1" } }).of("number") });
                    items.push_back(m);
                }
        }
    for (auto& n : std::vector<std::vector<std::string> >{ {}, { "string" }, { "number" }, { "boolean" }, { "object" }, { "string", "number" } })
        for (auto& type : { "array", "enum" })
            for (unsigned i = 0; i < items.size(); ++i)
                for (unsigned j = 0; j <= items.size(); ++j) {
                    if (!ctx.thorough && j != items.size() && (i + j) % 17)
                        continue;
                    if (!ctx.mine() || ctx.full())
                        continue;
                    std::vector<M> l{ items[i] };
                    if (j != items.size())
                        l.push_back(items[j]);
                    if (type == std::string("enum") && l.size() == 2 && !l[0].sections.empty() && !l[1].sections.empty())
                        continue; // the same members in two places
                    unsigned at = 0;
                    for (auto& m : l) // what has no type is of the type asked for
                        if (m.type.empty() && m.values.size() == 1 && !n.empty() && (n[0] == "number" || n[0] == "boolean"))
                            m.values[0].text = n[0] == "number" ? at++ ? "1.5" : "3" : at++ ? "false" : "true";
                    one(ctx, { having({ property("key").of(type, n).plus(l) }) });
                }
}

// one of several properties, groups of them, mixins and further choices
SCENARIO("choices", 4)
{
    M group(M::Group);
    group = group.plus({ property("c").of("number"), property("d").says("about") });
    M single(M::Group);
    single = single.plus({ property("s") });
    M inner(M::OneOf);
    inner = inner.plus({ property("e"), property("f").with({ { "1" } }).of("number", {}) });
    M mixed(M::Group);
    mixed = mixed.plus({ property("g"), mixin("S"), inner });
    const std::vector<M> options{ property("b"), property("b2").with({ { "1" } }).of("number").is({ "required" }).says("about"), property("n").of("object").plus({ property("o") }),
        property("r").of("array", { "S" }), group, single, inner, mixed, mixin("S"), mixin("T2") };
    const std::vector<M> around{ property("a"), mixin("S"), property("z").of("S").is({ "nullable" }) };
    const Named S = named("S", M().plus({ property("x").with({ { "v" } }) })), T2 = named("T2", M().of("S").plus({ property("y") }));
    const unsigned n = unsigned(options.size());
    for (unsigned depth = 1; depth <= (ctx.thorough ? 4u : 3u); ++depth) {
        std::vector<unsigned> at(depth, 0);
        for (;;) {
            if (ctx.mine()) {
                if (ctx.full())
                    return;
                std::vector<M> l;
                for (auto i : at)
                    l.push_back(options[i]);
                M choice(M::OneOf);
                choice = choice.plus(l);
                for (unsigned place = 0; place < 4; ++place) {
                    std::vector<M> members{ around[0] };
                    members.insert(members.begin() + (place & 1), choice);
                    if (place & 2)
                        members.insert(members.begin() + 1, around[1 + depth % 2]);
                    one(ctx, { having(members), S, T2 });
                    one(ctx, { S, having({ property("in").of("object").plus(members) }), T2 });
                }
            }
            unsigned i = 0;
            for (; i < depth && ++at[i] == n; ++i)
                at[i] = 0;
            if (i == depth)
                break;
        }
    }
}

// types of types, in whatever order they are declared
SCENARIO("names", 8)
{
    // A is of a word, B of A or in it, C of B or in it
    struct Shape {
        std::string type;
        std::vector<std::string> nested;
    };
    const std::vector<Shape> bases{ { "", {} }, { "string", {} }, { "number", {} }, { "boolean", {} }, { "object", {} }, { "array", {} }, { "array", { "number" } }, { "enum", {} }, { "enum", { "string" } } };
    for (auto& a : bases)
        for (unsigned b = 0; b < 6; ++b)
            for (unsigned c = 0; c < 6; ++c)
                for (unsigned order = 0; order < 6; ++order)
                    for (unsigned use = 0; use < 5; ++use) {
                        if (!ctx.mine() || ctx.full())
                            continue;
                        const bool object = a.type.empty() || a.type == "object", list = a.type == "array", choice = a.type == "enum";
                        auto members = [&](M m, const std::string& p, const std::string& base) {
                            m = m.of(base);
                            if (base == "A" || base == "B" || base == "C") // resolved below
                                return m;
                            return object ? m.plus({ property(p) }) : list || choice ? m.plus({ item(a.nested.empty() || a.nested[0] == "string" ? p : "7") }) : m;
                        };
                        auto made = [&](unsigned how, const std::string& name, const std::string& before) {
                            Named t = named(name);
                            switch (how) {
                                case 0: // a subtype that says nothing more
                                    t.head = t.head.of(before);
                                    break;
                                case 1: // a subtype with attributes
                                    t.head = t.head.of(before).is({ "nullable" });
                                    t.about = "about " + name;
                                    break;
                                case 2: // an array of them
                                    t.head = t.head.of("array", { before });
                                    break;
                                case 3: // a property of that type
                                    t.head = t.head.plus({ property("of").of(before), property("more") });
                                    break;
                                case 4: // an array with an item of that type
                                    t.head = t.head.of("array").plus({ item().of(before), item("v") });
                                    break;
                                case 5: // an enumeration of them
                                    t.head = t.head.of("enum", { before });
                                    break;
                            }
                            return t;
                        };
                        Named A = named("A", M().of(a.type, a.nested));
                        A.head = members(A.head, "m", a.type);
                        A.head.nested = a.nested;
                        std::vector<Named> l{ A, made(b, "B", "A"), made(c, "C", "B") };
                        const std::vector<std::vector<unsigned> > orders{ { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
                        std::vector<Named> types;
                        for (auto i : orders[order])
                            types.push_back(l[i]);
                        // and what uses them all
                        std::vector<M> uses;
                        for (auto n : { "A", "B", "C" }) {
                            M m = property(std::string("p") + n);
                            switch (use) {
                                case 0:
                                    m = m.of(n);
                                    break;
                                case 1:
                                    m = m.of(n).is({ "required", "nullable" }).says("about");
                                    break;
                                case 2:
                                    m = m.of("array", { n });
                                    break;
                                case 3:
                                    m = m.of("array", { n, "string" });
                                    break;
                                case 4:
                                    m = m.of("enum", { n });
                                    break;
                            }
                            uses.push_back(m);
                        }
                        types.insert(types.begin() + (b + c + order) % 4, named("U", M().plus(uses)));
                        one(ctx, types);
                    }
}

// whatever place a type is used in, it is known by its name, declared before or after
SCENARIO("uses", 2)
{
    const std::vector<std::pair<M, std::vector<Lit> > > types{ { M().of("number"), { { "5" } } }, { M().of("boolean"), { { "true" } } }, { M().of("string"), { { "v" } } }, { M().of("enum"), { { "v" } } }, { M().of("enum", { "number" }), {} },
        { M().of("array"), { { "v" }, { "w" } } }, { M().of("array", { "number" }), {} }, { M().of("object"), {} } };
    for (auto& k : types)
        for (unsigned chain = 0; chain < 2; ++chain)
            for (unsigned place = 0; place < 10; ++place)
                for (unsigned deep = 0; deep < 3; ++deep)
                    for (unsigned order = 0; order < 24; ++order) {
                        if (!ctx.mine() || ctx.full())
                            continue;
                        const M use = property("c").of("C").with(k.second), thing = item().of("C").with(k.second);
                        std::vector<M> in{ use };
                        for (unsigned i = 0; i < deep; ++i) {
                            M outer = property("o" + std::to_string(i)).of(i ? "A" : "");
                            in = { outer.plus(in) };
                        }
                        M group(M::Group), choice(M::OneOf);
                        std::vector<M> members;
                        switch (place) {
                            case 0:
                                members = in;
                                break;
                            case 1:
                                members = { choice.plus(in) };
                                break;
                            case 2:
                                members = { choice.plus({ property("x"), group.plus(in) }) };
                                break;
                            case 3:
                                members = { property("a").of("A").plus(in) };
                                break;
                            case 4:
                                members = { property("a").of("L").plus({ item("x"), thing }) };
                                break;
                            case 5:
                                members = { property("a").of("array", { "A" }).plus({ thing }) };
                                break;
                            case 6:
                                members = { property("a").of("array").plus({ item().of("A").plus(in) }) };
                                break;
                            case 7:
                                members = { property("a").of("array").plus({ item().of("L").plus({ thing, thing }) }) };
                                break;
                            case 8:
                                members = { property("a").of("object").plus(listed(Section::Sample, in)) };
                                break;
                            case 9:
                                members = { property("a").of("enum", { "A" }).plus({ thing }) };
                                break;
                        }
                        std::vector<Named> all{ having(members), named("A"), named("L", M().of("array")), chain ? named("C", M().of("B")) : named("C", k.first) };
                        std::vector<Named> l;
                        std::vector<unsigned> left{ 0, 1, 2, 3 };
                        for (unsigned n = 4, o = order; n; o /= n, --n) {
                            l.push_back(all[left[o % n]]);
                            left.erase(left.begin() + o % n);
                        }
                        if (chain)
                            l.insert(l.begin() + order % 5, named("B", k.first));
                        one(ctx, l);
                    }
}

// names that are of nothing, of themselves, of two things
SCENARIO("nameless", 1)
{
    const std::vector<M> members{ property("a").of("Nothing"), property("a").of("array", { "Nothing" }), property("a").of("enum", { "Nothing" }), property("a").of("array", { "string", "Nothing" }), mixin("Nothing"), property("a").of("array").plus({ item().of("Nothing") }),
        property("a").of("object").plus({ property("b").of("Nothing") }), M(M::OneOf).plus({ property("b").of("Nothing"), property("c") }), M(M::OneOf).plus({ mixin("Nothing") }) };
    for (auto& m : members)
        for (unsigned place = 0; place < 3; ++place) {
            if (!ctx.mine() || ctx.full())
                continue;
            std::vector<Named> l{ named("S"), having({ property("x"), m }) };
            if (place == 1)
                std::swap(l[0], l[1]);
            if (place == 2)
                l.push_back(named("U", M().of("T")));
            wrong(ctx, l);
        }
    for (auto& l : std::vector<std::vector<Named> >{
             { named("A", M().of("Nothing")) },
             { named("A", M().of("A")) },
             { named("A", M().of("B")), named("B", M().of("A")) },
             { named("A", M().of("B")), named("B", M().of("C")), named("C", M().of("A")) },
             { named("A", M().plus({ mixin("A") })) },
             { named("A", M().plus({ mixin("B") })), named("B", M().plus({ mixin("A") })) },
             { named("A"), named("A") },
             { named("A"), named("B"), named("A", M().of("B")) },
             { named("string") },
             { named("array", M().of("object")) },
         }) {
        if (!ctx.mine() || ctx.full())
            continue;
        wrong(ctx, l);
    }
    for (auto type : { "array", "enum" })
        for (auto& n : std::vector<std::vector<std::string> >{ { "Nothing" }, { "string", "Nothing" }, { "Nothing", "S" } }) {
            if (!ctx.mine() || ctx.full())
                continue;
            one(ctx, { named("A", M().of(type, n)), named("S") });
        }
}

// named types with sections of their own, under headers
SCENARIO("headers", 4)
{
    const unsigned depth = ctx.thorough ? 3 : 2;
    for (auto& k : kinds(false)) {
        std::vector<Section> p;
        for (auto& x : parts(k))
            if (!x.wrapped)
                p.push_back(x);
        if (p.empty())
            continue;
        std::vector<unsigned> at;
        for (;;) {
            for (unsigned way = 0; way < 8; ++way)
                if (ctx.mine()) {
                    if (ctx.full())
                        return;
                    Named t = named("T", M().of(k.type, k.nested));
                    t.headers = true;
                    if (way & 1)
                        t.about = way & 2 ? "Some text.\n\nMore of it." : "text";
                    if (way & 4)
                        t.head.traits = { "nullable" };
                    if ((way & 3) == 2)
                        t.headers = false;
                    bool apart = true;
                    for (unsigned i = 0; i < at.size(); ++i) {
                        t.head.sections.push_back(p[at[i]]);
                        if (k.type == "object" && p[at[i]].what == Section::Members && std::count(at.begin(), at.end(), at[i]) > 1)
                            apart = false;
                    }
                    if (apart)
                        one(ctx, { t, named("U", M().plus({ property("t").of("T") })) });
                }
            unsigned i = 0;
            for (; i < at.size() && ++at[i] == p.size(); ++i)
                at[i] = 0;
            if (i == at.size()) {
                if (at.size() == depth)
                    break;
                at.assign(at.size() + 1, 0);
            }
        }
    }
}

// text below a property, before its members
SCENARIO("descriptions", 2)
{
    const std::vector<std::vector<std::string> > texts{ { "below" }, { "below with `code` and *more*" }, { "two", "paragraphs" }, { "three", "short: a (b)", "ones" } };
    for (auto& k : kinds(false))
        for (auto& v : k.values)
            for (auto about : { "", "text" })
                for (auto& more : texts)
                    for (unsigned deep = 0; deep < 2; ++deep)
                        for (unsigned sub = 0; sub < 2; ++sub) {
                            if (!ctx.mine() || ctx.full())
                                continue;
                            M m = property("key").of(k.type, k.nested).with(v).says(about);
                            m.more = more;
                            const auto p = parts(k);
                            if (sub && p.empty())
                                continue;
                            if (sub)
                                m.sections.push_back(p[p.size() / 2]);
                            one(ctx, { deep ? having({ property("a"), property("o").of("object").plus({ m, property("z") }) }) : having({ property("a"), m, property("z") }) });
                        }
}

MC_MAIN
