// P16: stream_shared_iterator
#include <cstdlib>
#include <new>

namespace
{
    // Allocations made while tracking is on and not given back yet
    bool tracking = false;
    long outstanding = 0;

    struct alignas(16) Head { long counted; };
}

void* operator new(std::size_t n)
{
    auto* h = static_cast<Head*>(std::malloc(n + sizeof(Head)));

    if (!h) throw std::bad_alloc();

    h->counted = tracking;
    outstanding += h->counted;
    return h + 1;
}

void operator delete(void* p) noexcept
{
    if (!p) return;

    Head* h = static_cast<Head*>(p) - 1;

    outstanding -= h->counted;
    std::free(h);
}

void operator delete(void* p, std::size_t) noexcept { operator delete(p); }

#include "lexgen.hpp"

#include <lexertl/replace.hpp>
#include <lexertl/stream_shared_iterator.hpp>

#include <istream>
#include <streambuf>

using namespace model;

namespace
{
    struct Track
    {
        bool was = tracking;

        Track() { tracking = true; }
        ~Track() { tracking = was; }
    };

    // A stream over a text.  It needs no facets, so works for all characters.
    template<typename CharT>
    struct Buf : std::basic_streambuf<CharT>
    {
        std::basic_string<CharT> data;
        std::size_t step, at = 0;

        Buf(std::basic_string<CharT> d, std::size_t st) :
            data(std::move(d)), step(st) {}

        // delivers it in parts of step characters
        typename std::basic_streambuf<CharT>::int_type underflow() override
        {
            using T = typename std::basic_streambuf<CharT>::traits_type;
            std::size_t n = std::min(step, data.size() - at);

            if (!n) return T::eof();

            this->setg(&data[at], &data[at], &data[at] + n);
            at += n;
            return T::to_int_type(*this->gptr());
        }
    };

    template<typename CharT>
    std::basic_string<CharT> str_of(const text& in)
    {
        return rx::to_input<CharT>(in);
    }

    // ---- histories of copies, assignments, advances -------------------

    template<typename CharT>
    void history(pbt::Case& c)
    {
        using It = lexertl::basic_stream_shared_iterator<CharT>;
        Src& s = c.src;
        const std::size_t n_streams = s.chance(25) ? 2 : 1;
        std::vector<std::basic_string<CharT>> texts;
        std::vector<std::unique_ptr<Buf<CharT>>> bufs;
        std::vector<std::unique_ptr<std::basic_istream<CharT>>> streams;

        for (std::size_t i = 0; i < n_streams; ++i)
        {
            std::basic_string<CharT> t;

            for (std::size_t n = s.chance(10) ? 0 : s.below(40); n; --n)
                t.push_back(static_cast<CharT>('a' + t.size() % 26));

            texts.push_back(t);
            bufs.push_back(std::make_unique<Buf<CharT>>(t, 1 + s.below(9)));
            streams.push_back(std::make_unique<std::basic_istream<CharT>>(
                bufs.back().get()));
        }

        // what every iterator should be: a stream and a position, or the
        // default constructed end
        struct Slot
        {
            std::unique_ptr<It> it;
            int stream = -1;
            std::size_t pos = 0;
        };

        std::vector<Slot> v;
        const long before = outstanding;
        std::size_t moves = 0, reloads = 0, copies = 0;
        std::size_t sizes[2];

        auto at_end = [&](const Slot& x)
        {
            return x.stream < 0 || x.pos == texts[static_cast<std::size_t>(
                x.stream)].size();
        };
        auto name = [&](std::size_t i) { return "i" + std::to_string(i); };
        auto read = [&](std::size_t i)
        {
            Slot& x = v[i];
            CharT got;

            {
                Track t;

                got = **x.it;
            }

            const CharT want = texts[static_cast<std::size_t>(x.stream)]
                [x.pos];

            if (got != want)
                pbt::fail("*" + name(i) + " should be character " +
                    std::to_string(x.pos) + " (" + std::to_string(
                    static_cast<long>(want)) + ") but is " + std::to_string(
                    static_cast<long>(got)));
        };
        auto equal = [&](const Slot& a, const Slot& b)
        {
            if (at_end(a) || at_end(b)) return at_end(a) && at_end(b);

            return a.pos == b.pos;
        };
        auto compare = [&](std::size_t a, std::size_t b)
        {
            // those of different streams cannot be compared
            if (v[a].stream >= 0 && v[b].stream >= 0 && v[a].stream !=
                v[b].stream) return;

            const bool want = equal(v[a], v[b]);

            if ((*v[a].it == *v[b].it) != want || (*v[a].it != *v[b].it) ==
                want)
                pbt::fail(name(a) + " and " + name(b) + " should " +
                    (want ? "" : "not ") + "be equal");
        };
        auto drop = [&](std::size_t i)
        {
            Track t;

            v.erase(v.begin() + static_cast<long>(i));
        };

        // the end
        {
            Track t;
            v.push_back({ std::make_unique<It>(), -1, 0 });
        }

        for (std::size_t i = 0; i < n_streams; ++i)
        {
            const std::size_t size = 1 + s.below(12), inc = 1 + s.below(6);

            sizes[i] = size;
            c.desc << "i" << v.size() << " = stream " << i << " of " <<
                texts[i].size() << " characters, buffer " << size <<
                ", increment " << inc << "\n";

            {
                Track t;

                v.push_back({ std::make_unique<It>(*streams[i], size, inc),
                    static_cast<int>(i), 0 });
            }

            // The constructed iterator stands for the lowest position of all
            // its copies until it is used, so use it or lose it.
            const std::size_t k = v.size() - 1;

            if (s.chance(50)) compare(k, 0);

            if (!at_end(v[k]) && s.chance(40)) read(k);
            else if (s.chance(50))
            {
                c.desc << "i" << k << " = copy of " << name(k) << "\n";
                Track t;

                v[k].it = std::make_unique<It>(*v[k].it);
            }
            else
            {
                c.desc << "i" << k << " = default, assigned " << name(k) <<
                    "\n";

                Track t;
                auto d = std::make_unique<It>();

                *d = *v[k].it;
                v[k].it = std::move(d);
            }

            if (s.chance(50)) compare(k, 0);
        }

        const std::size_t n = 1 + s.below(60);

        for (std::size_t step = 0; step < n && !v.empty(); ++step)
        {
            const std::size_t i = s.below(v.size()), j = s.below(v.size());

            switch (s.pick({ 40, 12, 12, 10, 8, 10, 6, 4, 3, 3 }))
            {
            case 0:
            case 1:
            {
                // advance, usually by several
                if (at_end(v[i])) break;

                for (std::size_t k = 1 + s.below(8); k && !at_end(v[i]); --k)
                {
                    const bool post = s.chance(30);

                    c.desc << (post ? name(i) + "++ " : "++" + name(i) +
                        " ");
                    read(i);

                    if (post)
                    {
                        CharT got = 0;
                        {
                            Track t;
                            It old = (*v[i].it)++;

                            got = *old;
                        }

                        pbt::check(got == texts[static_cast<std::size_t>(
                            v[i].stream)][v[i].pos], name(i) + "++ should be "
                            "the position before");
                    }
                    else
                    {
                        Track t;
                        It& r = ++*v[i].it;

                        pbt::check(&r == v[i].it.get(), "++ returns itself");
                    }

                    ++v[i].pos;
                    ++moves;
                    reloads += v[i].pos > sizes[v[i].stream];
                }

                c.desc << "\n";

                if (!at_end(v[i])) read(i);

                break;
            }
            case 2:
            {
                c.desc << "i" << v.size() << " = copy of " << name(i) << "\n";
                ++copies;
                Track t;

                v.push_back({ std::make_unique<It>(*v[i].it), v[i].stream,
                    v[i].pos });
                break;
            }
            case 3:
            case 4:
            {
                c.desc << name(i) << " = " << name(j) << "\n";
                ++copies;
                Track t;
                It& r = (*v[i].it = *v[j].it);

                pbt::check(&r == v[i].it.get(), "= returns itself");
                v[i].stream = v[j].stream;
                v[i].pos = v[j].pos;
                break;
            }
            case 5:
                c.desc << "compare " << name(i) << " " << name(j) << "\n";
                compare(i, j);
                compare(i, 0);
                break;
            case 6:
                c.desc << "destroy " << name(i) << "\n";
                drop(i);
                break;
            case 7:
            {
                c.desc << "swap " << name(i) << " " << name(j) << "\n";
                Track t;

                std::swap(*v[i].it, *v[j].it);
                std::swap(v[i].stream, v[j].stream);
                std::swap(v[i].pos, v[j].pos);
                break;
            }
            case 8:
            {
                c.desc << "i" << v.size() << " = end\n";
                Track t;

                v.push_back({ std::make_unique<It>(), -1, 0 });
                break;
            }
            default:
            {
                // copy everything into a container and read it all there
                c.desc << "read the rest through a copy of " << name(i) <<
                    "\n";

                if (v[i].stream < 0) break;

                std::basic_string<CharT> got;

                got.reserve(100);
                {
                    Track t;
                    It k = *v[i].it;
                    const It end;

                    for (; k != end && got.size() < 99; ++k)
                        got.push_back(*k);
                }

                pbt::check(got == texts[static_cast<std::size_t>(
                    v[i].stream)].substr(v[i].pos), "the rest of the text "
                    "read from " + name(i) + " is wrong");
            }
            }

            // everything else is where it was
            if (!v.empty() && s.chance(30))
                for (std::size_t k = 0; k < v.size(); ++k)
                    if (!at_end(v[k])) read(k);
        }

        c.desc << "read everything\n";

        for (std::size_t k = 0; k < v.size(); ++k)
        {
            if (!at_end(v[k])) read(k);
            compare(k, s.below(v.size()));
        }

        c.desc << "destroy everything\n";

        while (!v.empty()) drop(s.below(v.size()));

        {
            Track t;
            v = std::vector<Slot>();
        }

        if (outstanding != before)
        {
            const long n_left = outstanding - before;

            outstanding = before;
            pbt::fail(std::to_string(n_left) + " blocks of memory were not "
                "released");
        }

        if (copies && reloads) c.nontrivial = true;
        if (reloads) c.label("buffer refilled");
        if (n_streams == 2) c.label("two streams");
        for (auto& t : texts) if (t.empty()) c.label("empty stream");
    }

    // ---- lexing --------------------------------------------------------

    template<typename Results, typename SM, typename It, typename CharT>
    void lexing(const SM& sm, std::basic_istream<CharT>& stream,
        std::size_t size, std::size_t inc, const Run& want,
        const std::basic_string<CharT>& str, const char* what, bool keep,
        std::size_t start)
    {
        std::vector<It> saved;
        std::vector<std::size_t> where;
        It begin(stream, size, inc);
        Results r(begin, It());
        std::size_t n = 0, pos = 0;

        (void)start;

        for (;; ++n)
        {
            Tok t;
            bool under = false;

            try
            {
                lexertl::lookup(sm, r);
            }
            catch (const lexertl::runtime_error&)
            {
                under = true;
            }

            if (n == want.toks.size())
            {
                pbt::check(under && want.underflow, std::string(what) +
                    ": more tokens than from memory");
                break;
            }

            pbt::check(!under, std::string(what) + ": throws where lexing "
                "from memory does not");

            const Tok& w = want.toks[n];

            t.id = model_id(r.id);
            t.uid = model_id(r.user_id);
            t.state = static_cast<int>(r.state);
            t.depth = depth(r, 0);

            std::basic_string<CharT> body;

            for (It k = r.first; k != r.second && body.size() < 250; ++k)
                body.push_back(*k);

            pbt::check(body == str.substr(w.first, w.second - w.first),
                std::string(what) + ": the text of token " +
                std::to_string(n) + " is wrong (length " +
                std::to_string(body.size()) + ", should be " +
                std::to_string(w.second - w.first) + ")");
            t.first = w.first;
            t.second = w.second;
            pbt::check(t == w, std::string(what) + ": token " +
                std::to_string(n) + " should be " + model::str(w) +
                " but is " + model::str(t));
            pbt::check((r.second == It()) == (w.second == str.size()),
                std::string(what) + ": end of token " + std::to_string(n) +
                (w.second == str.size() ? " should" : " should not") +
                " be the end of the stream");

            if (w.id == 0 && w.first == str.size()) break;

            if (keep && n % 2 == 0)
            {
                saved.push_back(r.first);
                where.push_back(w.first);
            }

            pos = w.second;
        }

        (void)pos;

        for (std::size_t i = 0; i < saved.size(); ++i)
        {
            std::basic_string<CharT> rest;

            for (It k = saved[i]; k != It() && rest.size() < 250; ++k)
                rest.push_back(*k);

            pbt::check(rest == str.substr(where[i]), std::string(what) +
                ": a copy of the start of token " + std::to_string(2 * i) +
                " is no longer valid");
        }
    }

    template<typename CharT>
    void lex_prop(pbt::Case& c)
    {
        using Rules = lexertl::basic_rules<CharT, CharT>;
        using SM = lexertl::basic_state_machine<CharT>;
        using It = lexertl::basic_stream_shared_iterator<CharT>;
        using Id = typename SM::id_type;
        Src& s = c.src;
        LexOpts o;

        o.max = sizeof(CharT) == 1 ? 0xff : 0x10ffff;
        o.stack = s.chance(50);

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        Rules rules(rule_flags(l.flags));
        SM sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        for (int k = 0; k < 3; ++k)
        {
            const text in = s.chance(5) ? text() : gen_input(s, l, alpha);
            const auto str = str_of<CharT>(in);
            const std::size_t size = s.chance(20) ? 1024 : 1 + s.below(16);
            const std::size_t inc = s.chance(20) ? 1024 : 1 + s.below(9);
            const std::size_t step = 1 + s.below(20);
            const bool keep = s.chance(30);

            c.desc << "\ninput " << pbt::show(in) << " buffer " << size <<
                " increment " << inc;

            const Run want = run(l, in);

            auto go = [&](auto f)
            {
                Buf<CharT> buf(str, step);
                std::basic_istream<CharT> stream(&buf);

                f(stream);
            };

            go([&](auto& st)
            {
                lexing<lexertl::recursive_match_results<It, Id>, SM, It,
                    CharT>(sm, st, size, inc, want, str,
                    "recursive_match_results", keep, 0);
            });

            if (!l.recursive())
            {
                go([&](auto& st)
                {
                    lexing<lexertl::match_results<It, Id>, SM, It, CharT>(sm,
                        st, size, inc, want, str, "match_results", keep, 0);
                });
                // lexertl::iterator
                go([&](auto& st)
                {
                    using LI = lexertl::iterator<It, SM, lexertl::
                        match_results<It, Id>>;
                    LI i(It(st, size, inc), It(), sm), end;
                    std::size_t n = 0;

                    for (; i != end && n < want.toks.size(); ++i, ++n)
                    {
                        const Tok& w = want.toks[n];

                        pbt::check(model_id(i->id) == w.id && i->str() ==
                            str.substr(w.first, w.second - w.first),
                            "iterator: token " + std::to_string(n) +
                            " is wrong");
                    }

                    pbt::check(i == end && n + 1 == want.toks.size(),
                        "iterator: " + std::to_string(n) + " tokens");
                });
                // replace
                go([&](auto& st)
                {
                    std::basic_string<CharT> got, exp;
                    const std::basic_string<CharT> dash(1, CharT('-'));
                    std::size_t at = 0;

                    for (auto& t : want.toks)
                    {
                        if (t.id == 0) continue;

                        exp += str.substr(at, t.first - at) + dash;
                        at = t.second;
                    }

                    exp += str.substr(at);
                    lexertl::replace(std::back_inserter(got), It(st, size,
                        inc), It(), sm, dash);
                    pbt::check(exp == got, "replace() from a stream");
                });
            }

            if (in.size() > size && want.toks.size() > 2) c.nontrivial = true;
            if (in.empty()) c.label("empty stream");
            if (in.size() > size) c.label("buffer refilled");
            for (auto& t : want.toks)
                if (t.second - t.first > size) c.label("token longer than the "
                    "buffer");
        }
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P16", "histories: up to 60 operations (advance, copy, "
        "assign, swap, compare, destroy, read the rest) on iterators of one "
        "or two streams with buffers of 1-12 and increments of 1-6 "
        "characters, memory balanced at the end; lexing: lexers of 1-3 "
        "states from streams with buffers of 1-16 or 1024 characters; "
        "non-trivial: the buffer was refilled and there were copies, or more "
        "than one token");

    m.assume("Buffer size and increment are at least 1; the end is not read.");
    m.add("char history", 250000, 6000000, history<char>);
    m.add("wchar history", 60000, 1500000, history<wchar_t>);
    m.add("char32 history", 40000, 1000000, history<char32_t>);
    m.add("char lexing", 50000, 1500000, lex_prop<char>);
    m.add("wchar lexing", 15000, 400000, lex_prop<wchar_t>);
    m.add("char32 lexing", 15000, 400000, lex_prop<char32_t>);
    return m.run(argc, argv);
}
