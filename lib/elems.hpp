// Reference model of the element tree: plain values that are built into real elements through their public
// constructors, and read back through their public accessors.
#ifndef VERIF_ELEMS_HPP
#define VERIF_ELEMS_HPP

#include "mc.hpp"
#include "refract/Element.h"
#include "refract/InfoElements.h"
#include "refract/Utils.h"

namespace em
{
    using namespace refract;

    enum Kind { Null, Holder, String, Number, Boolean, Array, Member, Object, Enum, Ref, Extend, Option, Select, Kinds };

    inline const char* defaultName(Kind k)
    {
        static const char* n[] = { "null", "", "string", "number", "boolean", "array", "member", "object", "enum", "ref",
            "extend", "option", "select" };
        return n[k];
    }
    inline const char* kindName(Kind k)
    {
        return k == Holder ? "holder" : defaultName(k);
    }

    struct Val;
    using Info = std::vector<std::pair<std::string, Val> >;

    struct Val {
        Kind kind = Null;
        std::string name;        // what element() says
        bool has = false;        // a value is set
        std::string text;        // of a string, a number, a reference; "true" or "false"
        std::vector<Val> kids;   // members, entries, options; key [and value]; value of an enum or a holder
        Info attrs, meta;

        Val() {}
        explicit Val(Kind k) : kind(k), name(defaultName(k)) {}
        Val(Kind k, std::string t) : kind(k), name(defaultName(k)), has(true), text(std::move(t)) {}
        Val(Kind k, std::vector<Val> v) : kind(k), name(defaultName(k)), has(true), kids(std::move(v)) {}

        Val named(const std::string& n) const
        {
            Val v = *this;
            v.name = n;
            return v;
        }
        Val attr(const std::string& n, const Val& x) const
        {
            Val v = *this;
            v.attrs.emplace_back(n, x);
            return v;
        }
        Val metaOf(const std::string& n, const Val& x) const
        {
            Val v = *this;
            v.meta.emplace_back(n, x);
            return v;
        }
    };

    inline Val str(const std::string& s)
    {
        return Val(String, s);
    }
    inline Val num(const std::string& s)
    {
        return Val(Number, s);
    }
    inline Val boolean(bool b)
    {
        return Val(Boolean, std::string(b ? "true" : "false"));
    }
    inline Val null()
    {
        Val v(Null);
        v.has = true;
        return v;
    }
    inline Val ref(const std::string& s)
    {
        return Val(Ref, s);
    }
    inline Val arr(std::vector<Val> v = {})
    {
        return Val(Array, std::move(v));
    }
    inline Val obj(std::vector<Val> v = {})
    {
        return Val(Object, std::move(v));
    }
    inline Val mem(const Val& k, const Val& v)
    {
        return Val(Member, std::vector<Val>{ k, v });
    }
    inline Val mem(const std::string& k, const Val& v)
    {
        return mem(str(k), v);
    }
    inline Val typed(std::initializer_list<const char*> names)
    {
        Val a(Array, std::vector<Val>());
        for (auto n : names)
            a.kids.push_back(str(n));
        return a;
    }

    inline std::string dump(const Val& v);

    inline std::string dump(const Info& i)
    {
        std::string o;
        for (auto& e : i)
            o += (o.empty() ? "" : ",") + mc::quote(e.first) + "=" + dump(e.second);
        return o;
    }

    inline std::string assemble(Kind k, const std::string& name, bool has, const std::string& content,
        const std::string& attrs, const std::string& meta)
    {
        std::string o = kindName(k);
        if (name != defaultName(k))
            o += ":" + mc::quote(name);
        if (!attrs.empty())
            o += " a{" + attrs + "}";
        if (!meta.empty())
            o += " m{" + meta + "}";
        if (!has)
            o += " -";
        else
            o += content;
        return o;
    }

    inline std::string dump(const Val& v)
    {
        std::string c;
        switch (v.kind) {
            case Null:
                break;
            case String:
            case Number:
            case Boolean:
            case Ref:
                c = "'" + mc::quote(v.text) + "'";
                break;
            default:
                for (auto& k : v.kids)
                    c += (c.empty() ? "" : ",") + dump(k);
                c = "[" + c + "]";
        }
        return assemble(v.kind, v.name, v.has, c, dump(v.attrs), dump(v.meta));
    }

    inline std::unique_ptr<IElement> build(const Val& v);

    inline void fill(InfoElements& to, const Info& from)
    {
        for (auto& e : from)
            to.set(e.first, build(e.second));
    }

    template <typename E>
    std::unique_ptr<IElement> finish(std::unique_ptr<E> e, const Val& v)
    {
        if (v.name != defaultName(v.kind))
            e->element(v.name);
        fill(e->attributes(), v.attrs);
        fill(e->meta(), v.meta);
        return std::unique_ptr<IElement>(e.release());
    }

    template <typename E>
    std::unique_ptr<IElement> container(const Val& v)
    {
        auto e = refract::make_unique<E>();
        if (v.has) {
            e->set();
            for (auto& k : v.kids)
                e->get().insert(e->get().end(), build(k));
        }
        return finish(std::move(e), v);
    }

    template <typename E, typename D>
    std::unique_ptr<IElement> leaf(const Val& v, D d)
    {
        auto e = refract::make_unique<E>();
        if (v.has)
            e->set(std::move(d));
        return finish(std::move(e), v);
    }

    inline std::unique_ptr<IElement> build(const Val& v)
    {
        switch (v.kind) {
            case Null:
                return leaf<NullElement>(v, dsd::Null());
            case String:
                return leaf<StringElement>(v, dsd::String(v.text));
            case Number:
                return leaf<NumberElement>(v, dsd::Number(v.text));
            case Boolean:
                return leaf<BooleanElement>(v, dsd::Boolean(v.text == "true"));
            case Ref:
                return leaf<RefElement>(v, dsd::Ref(v.text));
            case Array:
                return container<ArrayElement>(v);
            case Object:
                return container<ObjectElement>(v);
            case Extend:
                return container<ExtendElement>(v);
            case Option:
                return container<OptionElement>(v);
            case Select: {
                auto e = refract::make_unique<SelectElement>();
                if (v.has) {
                    e->set();
                    for (auto& k : v.kids)
                        e->get().insert(
                            e->get().end(), std::unique_ptr<OptionElement>(static_cast<OptionElement*>(build(k).release())));
                }
                return finish(std::move(e), v);
            }
            case Member:
                return leaf<MemberElement>(v,
                    v.kids.empty() ? dsd::Member()
                                   : dsd::Member(build(v.kids[0]), v.kids.size() > 1 ? build(v.kids[1]) : nullptr));
            case Enum:
                return leaf<EnumElement>(v, v.kids.empty() ? dsd::Enum() : dsd::Enum(build(v.kids[0])));
            case Holder:
                return leaf<HolderElement>(v, v.kids.empty() ? dsd::Holder() : dsd::Holder(build(v.kids[0])));
            default:
                std::abort();
        }
    }

    Val read(const IElement& e);

    inline Info read(const InfoElements& i)
    {
        Info o;
        for (auto& e : i)
            o.emplace_back(e.first, e.second ? read(*e.second) : Val(Null).named("<null pointer>"));
        return o;
    }

    struct Reader : IVisitor {
        Val v;

        static Val entry(const IElement* e)
        {
            return e ? read(*e) : Val(Null).named("<null pointer>");
        }

        template <typename E>
        bool start(Kind k, const E& e)
        {
            v.kind = k;
            v.name = e.element();
            v.has = !e.empty();
            v.attrs = read(e.attributes());
            v.meta = read(e.meta());
            return v.has;
        }
        template <typename E>
        void list(Kind k, const E& e)
        {
            if (start(k, e))
                for (const auto& c : e.get())
                    v.kids.push_back(entry(c.get()));
        }

        void operator()(const NullElement& e) override
        {
            start(Null, e);
        }
        void operator()(const HolderElement& e) override
        {
            if (start(Holder, e) && e.get().data())
                v.kids.push_back(read(*e.get().data()));
        }
        void operator()(const StringElement& e) override
        {
            if (start(String, e))
                v.text = e.get().get();
        }
        void operator()(const NumberElement& e) override
        {
            if (start(Number, e))
                v.text = e.get().get();
        }
        void operator()(const BooleanElement& e) override
        {
            if (start(Boolean, e))
                v.text = e.get().get() ? "true" : "false";
        }
        void operator()(const ArrayElement& e) override
        {
            list(Array, e);
        }
        void operator()(const EnumElement& e) override
        {
            if (start(Enum, e) && e.get().value())
                v.kids.push_back(read(*e.get().value()));
        }
        void operator()(const MemberElement& e) override
        {
            if (start(Member, e) && e.get().key()) {
                v.kids.push_back(read(*e.get().key()));
                if (e.get().value())
                    v.kids.push_back(read(*e.get().value()));
            }
        }
        void operator()(const ObjectElement& e) override
        {
            list(Object, e);
        }
        void operator()(const RefElement& e) override
        {
            if (start(Ref, e))
                v.text = e.get().symbol();
        }
        void operator()(const ExtendElement& e) override
        {
            list(Extend, e);
        }
        void operator()(const OptionElement& e) override
        {
            list(Option, e);
        }
        void operator()(const SelectElement& e) override
        {
            list(Select, e);
        }
    };

    inline Val read(const IElement& e)
    {
        Reader r;
        e.visit(r);
        return r.v;
    }

    inline std::string dump(const IElement& e)
    {
        return dump(read(e));
    }
    inline std::string dump(const IElement* e)
    {
        return e ? dump(*e) : "<none>";
    }

    // ------------------------------------------------------------------ spaces of values

    // one of every kind, set and not set, small
    inline std::vector<Val> leaves()
    {
        std::vector<Val> o;
        for (int k = 0; k < Kinds; ++k)
            o.push_back(Val(static_cast<Kind>(k)));
        o.push_back(null());
        o.push_back(str(""));
        o.push_back(str("a"));
        o.push_back(str("b"));
        o.push_back(num("0"));
        o.push_back(num("7"));
        o.push_back(num("1.5"));
        o.push_back(boolean(false));
        o.push_back(boolean(true));
        o.push_back(ref("a"));
        o.push_back(ref(""));
        o.push_back(arr());
        o.push_back(obj());
        o.push_back(Val(Extend, std::vector<Val>()));
        o.push_back(Val(Option, std::vector<Val>()));
        o.push_back(Val(Select, std::vector<Val>()));
        o.push_back(mem("a", Val(String)));
        o.push_back(mem("a", str("b")));
        o.push_back(mem("b", str("b")));
        o.push_back(Val(Enum, std::vector<Val>{ str("a") }));
        o.push_back(Val(Enum, std::vector<Val>{ num("7") }));
        o.push_back(Val(Holder, std::vector<Val>{ str("a") }));
        return o;
    }

    // containers of up to `max` entries from `entries`
    inline std::vector<Val> containers(const std::vector<Val>& entries, unsigned max)
    {
        std::vector<std::vector<Val> > lists(1);
        for (std::size_t i = 0; i < lists.size(); ++i)
            if (lists[i].size() < max)
                for (auto& e : entries) {
                    auto l = lists[i];
                    l.push_back(e);
                    lists.push_back(l);
                }
        std::vector<Val> o;
        for (auto& l : lists) {
            bool options = true, members = true;
            for (auto& e : l) {
                options = options && e.kind == Option;
                members = members && (e.kind == Member || e.kind == Select || e.kind == Ref || e.kind == Object);
            }
            o.push_back(Val(Array, l));
            o.push_back(Val(Extend, l));
            o.push_back(Val(Option, l));
            if (members)
                o.push_back(Val(Object, l));
            if (options)
                o.push_back(Val(Select, l));
        }
        return o;
    }

    // every name the code gives an attribute, a meta entry or a member, and some it does not
    inline const std::vector<std::string>& vocabulary()
    {
        static const std::vector<std::string> words{ "id", "ref", "classes", "title", "description", "links", "prefix",
            "namespace", "typeAttributes", "enumerations", "default", "samples", "sample", "variable", "resolved", "fixed",
            "fixedType", "required", "optional", "nullable", "sourceMap", "validation", "path", "content", "element", "meta",
            "attributes", "value", "key", "href", "hrefVariables", "data", "method", "statusCode", "headers", "contentType",
            "code", "message", "line", "column", "metadata", "relation", "generic", "option", "select", "", "Id", "ids", "i",
            "x-y", "a b", "1", "\xC3\xA9", std::string("i\0d", 3), std::string(300, 'k') };
        return words;
    }

    // an element for every size: i entries of one container, or a nesting of i levels
    inline Val wide(Kind k, unsigned n)
    {
        Val v(k, std::vector<Val>());
        for (unsigned i = 0; i < n; ++i) {
            const std::string s = std::to_string(i);
            if (k == Object)
                v.kids.push_back(mem("k" + s, i % 3 ? str(s) : num(s)));
            else if (k == Select)
                v.kids.push_back(Val(Option, std::vector<Val>{ mem("k" + s, num(s)) }));
            else
                v.kids.push_back(i % 3 ? str(s) : num(s));
        }
        return v;
    }
    inline Val deep(unsigned n)
    {
        Val v = str("bottom").attr("x", num("1"));
        for (unsigned i = 0; i < n; ++i)
            switch (i % 5) {
                case 0:
                    v = arr({ num(std::to_string(i)), v });
                    break;
                case 1:
                    v = obj({ mem("k" + std::to_string(i), v) });
                    break;
                case 2:
                    v = Val(Extend, std::vector<Val>{ v });
                    break;
                case 3:
                    v = Val(Enum, std::vector<Val>{ v });
                    break;
                default:
                    v = str(std::to_string(i)).attr("a", v).metaOf("m", v.kind == String ? str("s") : num("0"));
            }
        return v;
    }

    // sizes far beyond what is enumerated otherwise, around the powers of two
    inline std::vector<unsigned> beyond(unsigned most)
    {
        std::vector<unsigned> o;
        for (unsigned n : { 63u, 64u, 65u, 99u, 100u, 101u, 127u, 128u, 129u, 255u, 256u, 257u, 300u, 511u, 512u, 513u, 1000u, 1024u, 1025u })
            if (n <= most)
                o.push_back(n);
        return o;
    }

    // elements of such sizes: entries, levels, letters, digits, names, keys, attributes and meta
    inline std::vector<Val> large(unsigned width, unsigned depth)
    {
        std::vector<Val> o;
        for (auto n : beyond(width)) {
            for (auto k : { Array, Object, Extend, Option, Select })
                o.push_back(wide(k, n));
            std::vector<Val> infos(2, str("x"));
            for (unsigned i = 0; i < n && n < 300; ++i) {
                infos[0].attrs.push_back({ "a" + std::to_string(i), num(std::to_string(i)) });
                infos[1].meta.push_back({ "m" + std::to_string(i), str(std::to_string(i)) });
            }
            for (auto& v : infos)
                o.push_back(v);
        }
        for (auto n : beyond(depth))
            o.push_back(deep(n));
        for (unsigned n : { 63u, 64u, 65u, 127u, 128u, 129u, 254u, 255u, 256u, 257u, 511u, 512u, 513u, 1023u, 1024u, 1025u, 4095u, 4096u, 4097u, 20000u }) {
            const std::string t = std::string(n / 2, 'a') + std::string(n - n / 2 - 1, 'b') + "c";
            o.push_back(str(t));
            o.push_back(num(std::string(n, '7')));
            o.push_back(str("s").named(t));
            o.push_back(obj({ mem(t, str("s")), mem(t + "d", str(t)) }));
            o.push_back(str("s").attr(t, str("t")).metaOf(t, str(t)));
        }
        return o;
    }
}
#endif
