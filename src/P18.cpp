// P18: memory_file
#include "lexgen.hpp"

#include <lexertl/memory_file.hpp>

#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

#ifndef SCRATCH
#define SCRATCH "/tmp"
#endif

using namespace model;

namespace
{
    // A directory of its own, removed at the end of the process
    struct Dir
    {
        std::string path;
        pid_t owner = getpid();
        std::vector<std::string> files;

        Dir()
        {
            std::string t = std::string(SCRATCH) + "/scratch-XXXXXX";

            if (!mkdtemp(t.data())) { perror("mkdtemp"); exit(2); }

            path = t;
        }

        ~Dir() { clear(); rmdir(path.c_str()); }

        void clear()
        {
            for (auto& f : files) unlink(f.c_str());

            files.clear();
        }

        std::string put(const std::string& name, const std::string& data)
        {
            std::string p = path + "/" + name;
            FILE* f = fopen(p.c_str(), "wb");

            if (!f || fwrite(data.data(), 1, data.size(), f) != data.size())
            {
                perror(p.c_str());
                _exit(2);
            }

            fclose(f);

            if (std::find(files.begin(), files.end(), p) == files.end())
                files.push_back(p);

            return p;
        }
    };

    std::vector<int> descriptors()
    {
        std::vector<int> v;
        DIR* d = opendir("/proc/self/fd");

        if (!d) return v;

        while (dirent* e = readdir(d))
        {
            const int n = atoi(e->d_name);

            if (e->d_name[0] != '.' && n != dirfd(d)) v.push_back(n);
        }

        closedir(d);
        std::sort(v.begin(), v.end());
        return v;
    }

    // bytes of files in the directory that are mapped
    std::size_t mapped(const std::string& dir)
    {
        std::size_t sum = 0;
        FILE* f = fopen("/proc/self/maps", "r");
        char line[4096];

        if (!f) return 0;

        while (fgets(line, sizeof(line), f))
        {
            unsigned long a, b;

            if (strstr(line, dir.c_str()) && sscanf(line, "%lx-%lx", &a, &b)
                == 2) sum += b - a;
        }

        fclose(f);
        return sum;
    }

    std::size_t pages(std::size_t n)
    {
        const std::size_t p = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));

        return (n + p - 1) / p * p;
    }

    template<typename CharT>
    void history(pbt::Case& c)
    {
        using File = lexertl::basic_memory_file<CharT>;
        Dir dir;
        Src& s = c.src;
        const auto page = static_cast<std::size_t>(sysconf(_SC_PAGESIZE));
        std::vector<std::string> data, names;

        dir.clear();

        for (std::size_t n = 1 + s.below(4); n; --n)
        {
            std::size_t size = 0;

            switch (s.pick({ 15, 25, 25, 25, 10 }))
            {
            case 0: break;
            case 1: size = 1 + s.below(9); break;
            case 2: size = s.below(300); break;
            case 3: size = (1 + s.below(3)) * page + s.below(11) - 5; break;
            default: size = s.below(9 * page);
            }

            std::string d;
            unsigned x = static_cast<unsigned>(s.below(1000));

            for (; d.size() < size; x = x * 1103515245 + 12345)
                d.push_back(static_cast<char>(x >> 16));

            c.desc << "file " << data.size() << ": " << size << " bytes\n";
            names.push_back(dir.put("f" + std::to_string(data.size()), d));
            data.push_back(d);
        }

        struct Slot
        {
            std::unique_ptr<File> f;
            int file = -1;          // open
        };

        const auto fds = descriptors();
        std::vector<Slot> v;
        bool reopened = false, big = false;

        auto look = [&]
        {
            std::size_t n_open = 0, sum = 0;

            for (std::size_t i = 0; i < v.size(); ++i)
            {
                const std::string none;
                const std::string& d = v[i].file < 0 ? none :
                    data[static_cast<std::size_t>(v[i].file)];
                const std::size_t n = d.size() / sizeof(CharT);

                if (v[i].f->size() != n)
                    pbt::fail("m" + std::to_string(i) + ": size() should be " +
                        std::to_string(n) + " but is " +
                        std::to_string(v[i].f->size()));

                if (n && (!v[i].f->data() || memcmp(v[i].f->data(), d.data(),
                    n * sizeof(CharT))))
                    pbt::fail("m" + std::to_string(i) + ": data() is wrong");

                if (v[i].file < 0 && v[i].f->data())
                    pbt::fail("m" + std::to_string(i) +
                        ": data() should be null");

                n_open += v[i].file != -1;
                sum += pages(d.size());
                big |= d.size() > page;
            }

            const auto now = descriptors();

            if (now.size() > fds.size() + n_open || now.size() < fds.size())
                pbt::fail(std::to_string(now.size()) + " descriptors are open "
                    "where " + std::to_string(fds.size()) + " were, and " +
                    std::to_string(n_open) + " files are open");

            if (!std::includes(now.begin(), now.end(), fds.begin(),
                fds.end()))
                pbt::fail("a descriptor that is not its own was closed");

            const std::size_t m = mapped(dir.path);

            if (m > sum)
                pbt::fail(std::to_string(m) + " bytes are mapped where " +
                    std::to_string(sum) + " should be");
        };

        // -2: a path that opens but cannot be mapped
        auto target = [&](std::string& path)
        {
            switch (s.pick({ 80, 12, 8 }))
            {
            case 0:
            {
                const std::size_t k = s.below(data.size());

                path = names[k];
                return static_cast<int>(k);
            }
            case 1: path = dir.path + "/missing"; return -1;
            default: path = dir.path; return -2;
            }
        };

        for (std::size_t n = 1 + s.below(14); n; --n)
        {
            const std::size_t i = v.empty() ? 0 : s.below(v.size());
            std::string path;

            // sometimes when descriptor 0 is free
            int saved = -1;

            if (s.chance(15))
            {
                c.desc << "(stdin closed) ";
                saved = fcntl(0, F_DUPFD_CLOEXEC, 500);

                if (saved >= 0) ::close(0);
            }

            switch (v.empty() ? s.below(2) : s.pick({ 10, 25, 30, 20, 15 }))
            {
            case 0:
                c.desc << "m" << v.size() << "\n";
                v.push_back({ std::make_unique<File>(), -1 });
                break;
            case 1:
            {
                const int k = target(path);

                c.desc << "m" << v.size() << "(" << k << ")\n";
                v.push_back({ std::make_unique<File>(path.c_str()), k });
                break;
            }
            case 2:
            {
                const int k = target(path);

                c.desc << "m" << i << ".open(" << k << ")\n";
                reopened |= v[i].file != -1;
                v[i].f->open(path.c_str());
                v[i].file = k;
                break;
            }
            case 3:
                c.desc << "m" << i << ".close()\n";
                v[i].f->close();
                v[i].file = -1;
                break;
            default:
                c.desc << "destroy m" << i << "\n";
                v.erase(v.begin() + static_cast<long>(i));
            }

            if (saved >= 0)
            {
                // give 0 back, unless a file got it
                struct stat a;
                const bool taken = fstat(0, &a) == 0;

                if (taken)
                {
                    // close what got it before anything else is done
                    c.desc << "(descriptor 0 taken: close all)\n";

                    for (auto& x : v) { x.f->close(); x.file = -1; }

                    const bool still = fstat(0, &a) == 0;

                    dup2(saved, 0);
                    ::close(saved);
                    pbt::check(!still, "descriptor 0 is not closed");
                    c.label("descriptor 0 used");
                }
                else
                {
                    dup2(saved, 0);
                    ::close(saved);
                }
            }

            look();
        }

        c.desc << "destroy all\n";
        v.clear();
        look();
        pbt::check(descriptors() == fds, "descriptors are left open");
        pbt::check(mapped(dir.path) == 0, "a mapping is left");

        if (reopened) c.label("reopened");
        if (big) c.label("several pages");

        c.nontrivial = reopened || big;
    }

    // lexing a file is lexing its contents
    void lexing(pbt::Case& c)
    {
        Dir dir;
        Src& s = c.src;
        LexOpts o;

        o.stack = false;

        std::vector<cp> alpha;
        Lexer l = gen_lexer(s, o, alpha);
        lexertl::rules rules(rule_flags(l.flags));
        lexertl::state_machine sm;

        c.desc << describe(l, {});
        fill(l, rules);
        build(l, rules, sm);

        const text in = s.chance(5) ? text() : gen_input(s, l, alpha);
        const std::string str = rx::to_input<char>(in);

        c.desc << "\ninput " << pbt::show(in);

        lexertl::memory_file f(dir.put("in", str).c_str());

        compare(run(l, in), lex<Plain<const char*, uint16_t>>(sm, f.data(),
            f.data() + f.size(), in.size()), "memory_file");
        c.nontrivial = in.size() > 3;
    }
}

int main(int argc, char** argv)
{
    pbt::Main m("P18", "1-4 files of 0 bytes to 9 pages, and up to 14 "
        "operations (construct, open, reopen, close, destroy; also of missing "
        "files and of a directory, and with descriptor 0 free) on several "
        "objects; contents, descriptors and mappings are checked after every "
        "one; non-trivial: an object was reopened, or a file has more than "
        "one page");

    m.assume("The files do not change while they are open.  Linux only.");
    m.add("char", 25000, 600000, history<char>);
    m.add("wchar", 6000, 150000, history<wchar_t>);
    m.add("char16", 4000, 100000, history<char16_t>);
    m.add("char32", 4000, 100000, history<char32_t>);
    m.add("lexing", 5000, 100000, lexing);
    return m.run(argc, argv);
}
