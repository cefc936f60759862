// P14: generated C++ lexers, compiled and executed
#include "lexgen.hpp"

#include <lexertl/generate_cpp.hpp>

#include <dlfcn.h>
#include <filesystem>
#include <fstream>
#include <unistd.h>

using namespace model;

namespace
{
    std::string scratch;

#ifdef SAN_BUILD
    const std::string compiler = "clang++ -fsanitize=address,undefined "
        "-fno-sanitize-recover=all";
#else
    const std::string compiler = "g++";
#endif
    const std::string options_ = " -std=c++17 -O0 -w -fPIC -I" REPO_INCLUDE;

    void sh(const std::string& cmd, const std::string& log)
    {
        if (std::system((cmd + " > " + log + " 2>&1").c_str()) == 0) return;

        std::ifstream f(log);
        std::string line, msg;

        while (msg.size() < 600 && std::getline(f, line)) msg += line + "\n";

        pbt::fail("the generated code does not compile:\n" + msg);
    }

    // A shared library, compiled from `code`
    struct Library
    {
        std::string base;
        void* so = nullptr;

        explicit Library(const std::string& code)
        {
            static int n = 0;

            base = scratch + "/" + std::to_string(getpid()) + "_" +
                std::to_string(n++);
            std::ofstream(base + ".cpp") << code;
            sh(compiler + options_ + " -include " + scratch +
                "/pre.hpp -shared -o " + base + ".so " + base + ".cpp",
                base + ".log");
            so = dlopen((base + ".so").c_str(), RTLD_NOW | RTLD_LOCAL);

            if (!so) pbt::fail(std::string("dlopen: ") + dlerror());
        }

        ~Library()
        {
            if (so) dlclose(so);

            for (auto e : { ".cpp", ".so", ".log" })
                std::filesystem::remove(base + e);
        }

        Library(const Library&) = delete;
        Library& operator=(const Library&) = delete;
    };

    // Declared in the same way in the generated code
    using Out = unsigned long long;
    using Fn = int (*)(const void* b, const void* e, int state, int bol,
        Out* out, int max);

    template<typename T>
    std::string type_name()
    {
        if (std::is_same<T, char>::value) return "char";
        if (std::is_same<T, wchar_t>::value) return "wchar_t";
        if (std::is_same<T, char16_t>::value) return "char16_t";
        if (std::is_same<T, char32_t>::value) return "char32_t";
        if (sizeof(T) == 1) return "std::uint8_t";
        if (sizeof(T) == 2) return "std::uint16_t";
        if (sizeof(T) == 4) return "std::uint32_t";

        return "std::size_t";
    }

    const char* const driver = R"(
extern "C" int run_NAME(const void* b_, const void* e_, int state_, int bol_,
    unsigned long long* out_, int max_)
{
    using iter = const CHAR*;
    lexertl::RESULTS<iter, ID> r_(static_cast<iter>(b_),
        static_cast<iter>(e_), bol_ != 0, static_cast<ID>(state_));
    int n_ = 0;

    for (; n_ < max_; ++n_)
    {
        try
        {
            NAME(r_);
        }
        catch (const std::exception&)
        {
            return -1 - n_;
        }

        unsigned long long* t_ = out_ + 6 * n_;

        t_[0] = r_.id;
        t_[1] = r_.user_id;
        t_[2] = static_cast<unsigned long long>(r_.first -
            static_cast<iter>(b_));
        t_[3] = static_cast<unsigned long long>(r_.second -
            static_cast<iter>(b_));
        t_[4] = r_.state;
        t_[5] = DEPTH;

        if (r_.id == 0 && r_.first == r_.eoi) return n_ + 1;
    }

    return n_;
}
)";

    void replace_all(std::string& s, const std::string& from,
        const std::string& to)
    {
        for (std::size_t i = 0; (i = s.find(from, i)) != std::string::npos;
            i += to.size()) s.replace(i, from.size(), to);
    }

    template<typename SM>
    std::string code(const SM& sm, const std::string& name, bool pointers)
    {
        using Char = typename SM::traits::input_char_type;

        std::ostringstream out;

        lexertl::table_based_cpp::generate(name, sm, pointers, out);

        const bool rec = (sm.data()._features & static_cast<std::size_t>(
            *lexertl::feature_bit::recursive)) != 0;
        std::string d = driver;

        replace_all(d, "NAME", name);
        replace_all(d, "CHAR", type_name<Char>());
        replace_all(d, "RESULTS", rec ? "recursive_match_results" :
            "match_results");
        replace_all(d, "DEPTH", rec ? "r_.stack.size()" : "0");
        replace_all(d, "ID", type_name<typename SM::id_type>());
        return out.str() + d;
    }

    template<typename Id>
    int out_id(Out v)
    {
        return model_id(static_cast<Id>(v));
    }

    template<typename Id, typename S>
    Run execute(Fn f, const S& in, const Cursor& from)
    {
        const int max = static_cast<int>(4 * in.size() + 9);
        std::vector<Out> out(static_cast<std::size_t>(max) * 6);
        // No terminator that could be read by accident
        std::vector<typename S::value_type> exact(in.begin(), in.end());
        int n = f(exact.data(), exact.data() + exact.size(), from.state,
            from.bol, out.data(), max);
        Run r;

        if (n < 0)
        {
            r.underflow = true;
            n = -1 - n;
        }

        for (int i = 0; i < n; ++i)
        {
            Out* o = &out[static_cast<std::size_t>(i) * 6];
            Tok t;

            t.id = out_id<Id>(o[0]);
            t.uid = out_id<Id>(o[1]);
            t.first = o[2];
            t.second = o[3];
            t.state = static_cast<int>(o[4]);
            t.depth = o[5];
            r.toks.push_back(t);
        }

        pbt::check(n < max, "the generated code makes no progress: " +
            str(r.toks));
        return r;
    }

    template<typename CharT>
    constexpr cp max_of()
    {
        return sizeof(CharT) == 1 ? 0xff : sizeof(CharT) == 2 ? 0xffff :
            0x10ffff;
    }

    template<typename CharT, typename Id = uint16_t>
    void prop(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT, Id>;
        using SM = lexertl::basic_state_machine<CharT, Id>;
        Src& s = c.src;
        // several lexers per compilation
        const std::size_t n = 1 + s.below(3);
        std::vector<SM> sms(n);
        std::vector<Lexer> ls(n);
        std::vector<std::vector<cp>> alphas(n);
        std::string all;
        // The tables are unique in the process, even after dlclose()
        static int serial = 0;
        const std::string tag = std::to_string(serial++) + "_";

        for (std::size_t i = 0; i < n; ++i)
        {
            LexOpts o;

            o.max = max_of<CharT>();
            o.states = s.chance(10) ? 5 : 3;
            o.rules = 5;
            o.flags = true;
            o.stack = s.chance(60);
            o.anchors = s.chance(75);
            o.depth = s.chance(70) ? 2 : 1;
            o.weight = 10;

            Lexer& l = ls[i];

            for (int tries = 0;; ++tries)
            {
                try
                {
                    l = gen_lexer(s, o, alphas[i]);
                    break;
                }
                catch (const pbt::Discard&)
                {
                    if (tries > 5) throw;
                }
            }

            // Many lexer states
            if (s.chance(10))
            {
                const std::size_t more = 6 + s.below(16);

                for (std::size_t k = 0; k < more; ++k)
                {
                    Rule r = s.of(l.rules);
                    const int id = static_cast<int>(l.states.size());

                    if (r.next == Rule::none) r.next = Rule::same;

                    l.states.push_back("M" + std::to_string(id));
                    r.star = false;
                    r.states = { id };
                    l.rules.push_back(r);
                    Rule g = l.rules[0];

                    g.star = false;
                    g.states = { static_cast<int>(s.below(l.states.size())) };
                    g.next = Rule::go;
                    g.to = id;
                    g.id = 3;
                    l.rules.insert(l.rules.begin() + static_cast<long>(s.below(
                        l.rules.size())), g);
                }

                // * must cover the new states, too
                for (auto& r : l.rules)
                {
                    if (!r.star) continue;

                    r.states.clear();

                    for (std::size_t k = 0; k < l.states.size(); ++k)
                        r.states.push_back(static_cast<int>(k));
                }

                bool eol = false;

                for (auto& r : l.rules) eol = eol || r.any_eol();

                if (o.max == 0xff && eol && nfa::newline_clash(l, 400))
                    throw pbt::Discard();

                c.label("many lexer states");
            }

            c.desc << "\nlexer " << i << " " << describe(l, {});

            Rules rules(rule_flags(l.flags));

            fill(l, rules);

            try
            {
                build(l, rules, sms[i]);
            }
            catch (const lexertl::runtime_error& e)
            {
                if (sizeof(Id) == 1 && strstr(e.what(), "cannot hold"))
                    throw pbt::Discard();

                throw;
            }

            if (s.chance(50)) sms[i].minimise();

            all += code(sms[i], "index" + tag + std::to_string(i), false);
            all += code(sms[i], "pointer" + tag + std::to_string(i), true);
        }

        Library lib(all);

        for (std::size_t i = 0; i < n; ++i)
        {
            const Lexer& l = ls[i];
            auto sym = [&](const std::string& name)
            {
                void* p = dlsym(lib.so, ("run_" + name + tag + std::to_string(i)).
                    c_str());

                pbt::check(p, "no " + name);
                return reinterpret_cast<Fn>(p);
            };
            Fn index = sym("index"), pointer = sym("pointer");

            for (int k = 0; k < 25; ++k)
            {
                text in = gen_input(s, l, alphas[i], 40);
                Cursor from;

                from.state = static_cast<int>(s.below(l.states.size()));
                from.bol = s.chance(70);
                c.desc << "\nlexer " << i << " from state " << from.state <<
                    " bol " << from.bol << " input " << pbt::show(in);

                auto str = rx::to_input<CharT>(in);
                Run want = run(l, in, from);
                Run real = lex_any(sms[i], str, l.recursive(), from.state,
                    from.bol);

                compare(want, real, "lookup against the model");
                compare(real, execute<Id>(index, str, from),
                    "generated code with indices");
                compare(real, execute<Id>(pointer, str, from),
                    "generated code with pointers");
                run_labels(c, want);

                if (want.toks.size() > 2 && (want.longest || want.moved ||
                    want.stacked || want.eol_used || want.bol_used))
                    c.nontrivial = true;
            }
        }
    }
}

int main(int argc, char** argv)
{
    std::string t = SCRATCH "/P14-XXXXXX";

    if (!mkdtemp(&t[0])) return 3;

    scratch = t;

    int rc = 0;

    {
        std::ofstream(t + "/pre.hpp") << "#include <lexertl/match_results.hpp>"
            "\n";

        if (std::system((compiler + options_ + " -x c++-header " + t +
            "/pre.hpp -o " + t + "/pre.hpp.gch").c_str())) return 3;

        pbt::Main m("P14", "multi-state lexers with anchors, flags, pushes, "
            "skip and again, minimised or not; the code that is generated for "
            "them with index and with pointer tables is compiled, loaded and "
            "run on 25 inputs from any state and line position; non-trivial: "
            "at least two tokens and rules that competed, changed the state or "
            "stack or were anchored");

        m.cpu_limit(120);
        m.add("char", 400, 20000, prop<char>);
        m.add("char32", 120, 6000, prop<char32_t>);
        m.add("char 8 bit ids", 60, 3000, prop<char, uint8_t>);
        m.add("char16 32 bit ids", 60, 3000, prop<char16_t, uint32_t>);
        m.add("wchar size_t ids", 60, 3000, prop<wchar_t, std::size_t>);
        rc = m.run(argc, argv);
    }

    std::filesystem::remove_all(t);
    return rc;
}
