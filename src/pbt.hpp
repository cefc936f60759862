// pbt.hpp - a small property-based testing engine.
//
// Every random decision of a case is a draw from a Src.  A case is therefore
// fully described by its sequence of draws, which is what gets shrunk and what
// is saved as the replay file.  Cases run in forked workers so that crashes,
// sanitizer reports, failed assertions and runaway loops are ordinary failures.
#ifndef PBT_HPP
#define PBT_HPP

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

extern "C" void __sanitizer_set_death_callback(void (*)(void))
    __attribute__((weak));

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerRunDriver(int*, char***,
    int (*)(const uint8_t*, size_t));
#endif

namespace pbt
{
    struct Fail
    {
        std::string msg;
    };

    [[noreturn]] inline void fail(const std::string& m)
    {
        throw Fail{ m };
    }

    inline void check(bool ok, const std::string& m)
    {
        if (!ok) fail(m);
    }

    // Thrown by a generator when the drawn case is outside the domain.
    struct Discard
    {
    };

    inline uint64_t mix(uint64_t x)
    {
        x += 0x9e3779b97f4a7c15ull;
        x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
        x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
        return x ^ (x >> 31);
    }

    inline uint64_t hash_str(const std::string& s)
    {
        uint64_t h = 1469598103934665603ull;

        for (unsigned char c : s)
        {
            h ^= c;
            h *= 1099511628211ull;
        }

        return mix(h);
    }

    class Src
    {
    public:
        explicit Src(uint64_t seed) : _random(true), _state(seed)
        {
        }

        explicit Src(std::vector<uint64_t> in) : _in(std::move(in))
        {
        }

        // uniform in [0, n); 0 is the simplest choice
        uint64_t below(uint64_t n)
        {
            if (n <= 1) return 0;

            uint64_t v = 0;

            if (_random)
            {
                _state += 0x9e3779b97f4a7c15ull;
                v = mix(_state) % n;
            }
            else if (_pos < _in.size())
            {
                v = _in[_pos++];

                if (v >= n) v %= n;
            }

            rec.push_back(v);
            return v;
        }

        // inclusive
        int64_t range(int64_t lo, int64_t hi)
        {
            return lo + static_cast<int64_t>
                (below(static_cast<uint64_t>(hi - lo) + 1));
        }

        // true with probability pct%; shrinks to false
        bool chance(unsigned pct)
        {
            return below(100) >= 100 - pct;
        }

        // weighted index; shrinks to index 0
        std::size_t pick(std::initializer_list<unsigned> weights)
        {
            uint64_t total = 0;

            for (auto w : weights) total += w;

            uint64_t v = below(total);
            std::size_t i = 0;

            for (auto w : weights)
            {
                if (v < w) return i;

                v -= w;
                ++i;
            }

            return 0;
        }

        template<typename C>
        const typename C::value_type& of(const C& c)
        {
            return c[below(c.size())];
        }

        std::vector<uint64_t> rec;

    private:
        bool _random = false;
        uint64_t _state = 0;
        std::vector<uint64_t> _in;
        std::size_t _pos = 0;
    };

    struct Case
    {
        Src& src;
        std::ostringstream desc; // human readable description
        bool nontrivial = false;
        std::set<std::string> labels;

        explicit Case(Src& s) : src(s)
        {
        }

        void label(const std::string& l)
        {
            labels.insert(l);
        }
    };

    inline std::string json_str(const std::string& s)
    {
        std::string out = "\"";

        for (unsigned char c : s)
        {
            switch (c)
            {
            case '"': out += "\\\""; break;
            case '\\': out += "\\\\"; break;
            case '\n': out += "\\n"; break;
            case '\r': out += "\\r"; break;
            case '\t': out += "\\t"; break;
            default:
                if (c < 0x20 || c >= 0x7f)
                {
                    char buf[16];

                    snprintf(buf, sizeof(buf), "\\u%04x", c);
                    out += buf;
                }
                else
                    out += static_cast<char>(c);
            }
        }

        return out + "\"";
    }

    // printable rendering of arbitrary code units
    template<typename S>
    std::string show(const S& s)
    {
        std::string out = "\"";

        for (auto ch : s)
        {
            uint64_t c = static_cast<uint64_t>(ch);

            if (sizeof(ch) == 1) c &= 0xff;

            if (c == '"' || c == '\\')
            {
                out += '\\';
                out += static_cast<char>(c);
            }
            else if (c >= 0x20 && c < 0x7f)
                out += static_cast<char>(c);
            else if (c == '\n')
                out += "\\n";
            else if (c == '\r')
                out += "\\r";
            else
            {
                char buf[24];

                snprintf(buf, sizeof(buf), "\\x{%llx}",
                    static_cast<unsigned long long>(c));
                out += buf;
            }
        }

        return out + "\"";
    }

    using Prop = std::function<void(Case&)>;

    struct Sub
    {
        std::string name;
        uint64_t quick;
        uint64_t thorough;
        Prop prop;
        bool example = false;
    };

    struct Known
    {
        std::string key;
        std::string what;
        std::function<void()> run; // throws Fail while the defect is there
    };

    struct Stats
    {
        uint64_t evals = 0;
        uint64_t discards = 0;
        uint64_t nontrivial = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::vector<std::string> samples;
    };

    class Main
    {
    public:
        Main(std::string id, std::string rule) :
            _id(std::move(id)),
            _rule(std::move(rule))
        {
        }

        void add(const std::string& name, uint64_t quick, uint64_t thorough,
            Prop p)
        {
            _subs.push_back({ name, quick, thorough, std::move(p), false });
        }

        // Deterministic case: run once, before the generated ones
        void example(const std::string& name, std::function<void(Case&)> p)
        {
            _subs.push_back({ name, 1, 1, std::move(p), true });
        }

        void known(const std::string& key, const std::string& what,
            std::function<void()> p)
        {
            _known.push_back({ key, what, std::move(p) });
        }

        void assume(const std::string& a)
        {
            _assumptions.push_back(a);
        }

        void cpu_limit(int seconds)
        {
            _cpu = seconds;
        }

        void jobs(int n)
        {
            _jobs_max = n;
        }

        int run(int argc, char** argv);

    private:
        struct Outcome
        {
            bool failed = false;
            std::string msg;
            std::string desc;
            std::vector<uint64_t> rec;
        };

        std::string _id;
        std::string _rule;
        std::vector<Sub> _subs;
        std::vector<Known> _known;
        std::vector<std::string> _assumptions;
        int _cpu = 20;
        int _jobs_max = 8;
        std::string _tmp;
        double _scale = 1;

        static uint64_t case_seed(uint64_t seed, const std::string& sub,
            uint64_t idx)
        {
            return mix(mix(seed * 0x100000001b3ull + 12345) ^
                hash_str(sub) ^ mix(idx + 77));
        }

        static void set_cpu_timer(int s)
        {
            itimerval tv{};

            tv.it_value.tv_sec = s;
            setitimer(ITIMER_PROF, &tv, nullptr);
        }

        static void dump_live(int bad, const std::string& msg)
        {
            if (!_live) return;

            Case* c = _live;

            _live = nullptr;

            std::ofstream f(_live_out, std::ios::binary);

            f << bad << '\n';
            put(f, msg);
            put(f, c->desc.str());
            f << c->src.rec.size() << '\n';

            for (auto v : c->src.rec) f << v << ' ';
        }

        static void on_prof(int)
        {
            dump_live(2, "");
            _exit(77);
        }

        static void on_death()
        {
            dump_live(2, "");
        }

        // Runs one case in this process.
        static bool run_case(const Sub& sub, Src& src, Case& c,
            std::string& msg, bool& discarded)
        {
            (void)src;
            discarded = false;

            try
            {
                sub.prop(c);
                return true;
            }
            catch (const Fail& f)
            {
                msg = f.msg;
            }
            catch (const Discard&)
            {
                discarded = true;
                return true;
            }
            catch (const std::exception& e)
            {
                msg = std::string("unexpected exception: ") + e.what();
            }
            catch (...)
            {
                msg = "unexpected exception of unknown type";
            }

            return false;
        }

        static void put(std::ostream& os, const std::string& s)
        {
            os << s.size() << ' ' << s << '\n';
        }

        static bool get(std::istream& is, std::string& s)
        {
            std::size_t n = 0;

            if (!(is >> n)) return false;

            is.get();
            s.resize(n);
            is.read(&s[0], static_cast<std::streamsize>(n));
            is.get();
            return static_cast<bool>(is);
        }

        static std::string tail(const std::string& path, std::size_t n)
        {
            std::ifstream f(path, std::ios::binary);
            std::stringstream ss;

            ss << f.rdbuf();
            std::string s = ss.str();

            return s.size() > n ? s.substr(0, n) : s;
        }

        static std::string death(int status, const std::string& err)
        {
            std::ostringstream ss;

            if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
                ss << "the case does not finish (CPU limit exceeded)";
            else if (WIFSIGNALED(status))
                ss << "the process died with signal " << WTERMSIG(status);
            else
                ss << "the process died with exit status " <<
                    WEXITSTATUS(status);

            std::string t = tail(err, 1500);

            if (!t.empty()) ss << "\n" << t;

            return ss.str();
        }

        // One case in a forked child: from explicit choices or from a seed.
        Outcome forked(const Sub& sub, const std::vector<uint64_t>* choices,
            uint64_t seed)
        {
            const std::string out = _tmp + "/child.out";
            const std::string err = _tmp + "/child.err";

            unlink(out.c_str());
            std::cout.flush();

            pid_t pid = fork();

            if (pid == 0)
            {
                int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);

                dup2(fd, 2);
                dup2(fd, 1);
                signal(SIGPROF, on_prof);
                set_cpu_timer(_cpu);

                Src src = choices ? Src(*choices) : Src(seed);
                Case c(src);
                std::string msg;
                bool discarded = false;

                // The description and the choices are left behind even if
                // the case kills this process.
                _live = &c;
                _live_out = out;
                signal(SIGABRT, on_abort);
                crash_handlers();

                if (__sanitizer_set_death_callback)
                    __sanitizer_set_death_callback(on_death);

                bool ok = run_case(sub, src, c, msg, discarded);
                dump_live(ok ? 0 : 1, msg);
                _exit(0);
            }

            int status = 0;

            while (waitpid(pid, &status, 0) < 0 && errno == EINTR);

            Outcome o;
            std::ifstream f(out, std::ios::binary);
            int bad = 0;
            std::size_t n = 0;

            if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && f >> bad)
            {
                o.failed = bad != 0;
                get(f, o.msg);
                get(f, o.desc);
                f >> n;
                o.rec.resize(n);

                for (auto& v : o.rec) f >> v;
            }
            else
            {
                o.failed = true;
                o.msg = death(status, err);

                if (f >> bad)
                {
                    std::string none;

                    get(f, none);
                    get(f, o.desc);
                    f >> n;
                    o.rec.resize(n);

                    for (auto& v : o.rec) f >> v;
                }
                else if (choices)
                    o.rec = *choices;
            }

            return o;
        }

#ifdef PBT_FUZZ
        // Coverage-guided generation: libFuzzer supplies the choices
        static inline const Sub* _fz_sub = nullptr;
        static inline Stats _fz;
        static inline std::string _fz_out;
        static inline int _fz_cpu = 20;

        static int fuzz_one(const uint8_t* data, size_t size)
        {
            std::vector<uint64_t> in;

            for (size_t i = 0; i + 1 < size; i += 2)
                in.push_back(data[i] | (static_cast<uint64_t>(data[i + 1]) <<
                    8));

            Src src(std::move(in));
            Case c(src);
            std::string msg;
            bool discarded = false;

            _live = &c;
            set_cpu_timer(_fz_cpu);

            bool ok = run_case(*_fz_sub, src, c, msg, discarded);

            if (!ok)
            {
                dump_live(1, msg);
                fuzz_stats();
                _exit(79);
            }

            _live = nullptr;

            if (discarded)
            {
                ++_fz.discards;
                return -1;
            }

            ++_fz.evals;

            if (c.nontrivial)
            {
                std::string d = c.desc.str();

                _fz.distinct.insert(hash_str(_fz_sub->name + d));

                if (_fz.samples.empty() && _fz.evals > 50)
                    _fz.samples.push_back(d.substr(0, 700));
            }

            for (auto& l : c.labels) ++_fz.labels[l];

            return 0;
        }

        static void fuzz_stats()
        {
            write_stats(_fz_out, _fz, ~0ull, "", "");
        }

        [[noreturn]] void fuzz_child(const Sub& sub, uint64_t seed,
            uint64_t runs, int w, double seconds)
        {
            _fz_sub = &sub;
            _fz_cpu = _cpu;
            _fz_out = _tmp + "/w" + std::to_string(w) + ".out";
            _live_out = _tmp + "/w" + std::to_string(w) + ".live";
            signal(SIGPROF, on_prof);
            signal(SIGABRT, on_abort);

            if (__sanitizer_set_death_callback)
                __sanitizer_set_death_callback(on_death);

            const std::string dir = _tmp + "/corpus";

            mkdir(dir.c_str(), 0777);
            // Random cases to start from
            for (int i = 0; i < 12; ++i)
            {
                Src src(mix(seed * 977 + static_cast<uint64_t>(w * 12 + i)));
                Case c(src);
                std::string msg;
                bool discarded = false;

                _live = &c;
                set_cpu_timer(_fz_cpu);
                run_case(sub, src, c, msg, discarded);
                _live = nullptr;

                if (discarded || src.rec.size() > 3000) continue;

                std::ofstream f(dir + "/s" + std::to_string(w) + "-" +
                    std::to_string(i), std::ios::binary);

                for (auto v : src.rec)
                    f << static_cast<char>(v & 0xff) << static_cast<char>
                        ((v >> 8) & 0xff);
            }

            set_cpu_timer(0);
            atexit(fuzz_stats);

            std::vector<std::string> a = { "fuzz", "-seed=" + std::to_string
                (1 + (mix(seed + static_cast<uint64_t>(w)) & 0x7ffffff)),
                "-runs=" + std::to_string(runs), "-max_total_time=" +
                std::to_string(static_cast<int>(seconds)), "-max_len=6000",
                "-len_control=20", "-timeout=600", "-rss_limit_mb=0",
                "-handle_abrt=0", "-handle_int=0", "-reload=5",
                "-artifact_prefix=" + _tmp + "/", dir };
            std::vector<char*> v;

            for (auto& x : a) v.push_back(&x[0]);

            v.push_back(nullptr);

            int n = static_cast<int>(a.size());
            char** p = v.data();

            LLVMFuzzerRunDriver(&n, &p, fuzz_one);
            exit(0);
        }
#endif

        static void write_stats(const std::string& path, const Stats& st,
            uint64_t fidx, const std::string& fmsg, const std::string& fdesc)
        {
            std::ofstream f(path, std::ios::binary);

            f << st.evals << ' ' << st.discards << ' ' <<
                st.nontrivial << ' ' << fidx << '\n';
            put(f, fmsg);
            put(f, fdesc);
            f << st.distinct.size() << '\n';

            for (auto h : st.distinct) f << h << ' ';

            f << '\n' << st.labels.size() << '\n';

            for (auto& l : st.labels)
            {
                put(f, l.first);
                f << l.second << '\n';
            }

            f << st.samples.size() << '\n';

            for (auto& s : st.samples) put(f, s);
        }

        static inline Case* _live = nullptr;
        static inline std::string _live_out;

        // Without a sanitizer, leave the description behind on a crash
        static void on_crash(int sig)
        {
            signal(sig, SIG_DFL);
            dump_live(2, "");
            raise(sig);
        }

        static void crash_handlers()
        {
#ifndef SAN_BUILD
            static char stack[1 << 18];
            stack_t alt{};
            struct sigaction sa{};

            alt.ss_sp = stack;
            alt.ss_size = sizeof(stack);
            sigaltstack(&alt, nullptr);
            sa.sa_handler = on_crash;
            sa.sa_flags = SA_ONSTACK;

            for (int sig : { SIGSEGV, SIGBUS, SIGFPE, SIGILL })
                sigaction(sig, &sa, nullptr);
#endif
        }

        static void on_abort(int)
        {
            dump_live(2, "");
            _exit(78);
        }

        Outcome shrink(const Sub& sub, Outcome best, double budget_s)
        {
            auto start = std::chrono::steady_clock::now();
            auto left = [&]
            {
                return std::chrono::duration<double>
                    (std::chrono::steady_clock::now() - start).count() <
                    budget_s;
            };
            auto attempt = [&](std::vector<uint64_t> cand) -> bool
            {
                if (cand == best.rec) return false;

                Outcome o = forked(sub, &cand, 0);

                if (!o.failed) return false;

                // Prefer the child's own record (unused choices dropped)
                if (o.rec.size() > cand.size()) o.rec = cand;

                bool smaller = o.rec.size() < best.rec.size() ||
                    (o.rec.size() == best.rec.size() && o.rec < best.rec);

                if (smaller) best = o;

                return smaller;
            };
            bool progress = true;

            while (progress && left())
            {
                progress = false;

                for (std::size_t len : {64, 32, 16, 8, 4, 3, 2, 1})
                {
                    for (std::size_t i = best.rec.size(); i-- > 0 && left();)
                    {
                        if (i + len > best.rec.size()) continue;

                        auto cand = best.rec;

                        cand.erase(cand.begin() + static_cast<long>(i),
                            cand.begin() + static_cast<long>(i + len));

                        if (attempt(cand)) progress = true;
                    }
                }

                for (std::size_t i = 0; i < best.rec.size() && left(); ++i)
                {
                    if (best.rec[i] == 0) continue;

                    auto cand = best.rec;

                    cand[i] = 0;

                    if (attempt(cand))
                    {
                        progress = true;
                        continue;
                    }

                    uint64_t lo = 0, hi = best.rec[i];

                    while (lo + 1 < hi && left() && i < best.rec.size())
                    {
                        uint64_t mid = lo + (hi - lo) / 2;

                        cand = best.rec;
                        cand[i] = mid;

                        if (attempt(cand))
                        {
                            hi = mid;
                            progress = true;
                        }
                        else
                            lo = mid;
                    }
                }
            }

            return best;
        }
    };

    inline int Main::run(int argc, char** argv)
    {
        uint64_t seed = 1;
        bool thorough = false;
        std::string out, known_file, replay, replay_dir = ".", only;
        int jobs = 8;
        uint64_t max_s = 700;

        for (int i = 1; i < argc; ++i)
        {
            std::string a = argv[i];
            auto next = [&] { return std::string(i + 1 < argc ?
                argv[++i] : ""); };

            if (a == "--seed") seed = strtoull(next().c_str(), nullptr, 10);
            else if (a == "--thorough") thorough = true;
            else if (a == "--out") out = next();
            else if (a == "--known") known_file = next();
            else if (a == "--replay") replay = next();
            else if (a == "--replays") replay_dir = next();
            else if (a == "--jobs") jobs = atoi(next().c_str());
            else if (a == "--only") only = next();
            else if (a == "--scale") _scale = atof(next().c_str());
            else if (a == "--max-s") max_s = strtoull(next().c_str(), nullptr,
                10);
        }

        jobs = std::min(jobs, _jobs_max);

        char tmpl[] = "/tmp/pbtXXXXXX";

        _tmp = mkdtemp(tmpl);

        struct Cleaner
        {
            std::string dir;

            ~Cleaner()
            {
                std::string cmd = "rm -rf '" + dir + "'";

                if (dir.rfind("/tmp/pbt", 0) == 0 && system(cmd.c_str())) {}
            }
        } cleaner{ _tmp };

        auto t0 = std::chrono::steady_clock::now();
        auto elapsed = [&]
        {
            return std::chrono::duration<double>
                (std::chrono::steady_clock::now() - t0).count();
        };

        if (!replay.empty())
        {
            std::ifstream f(replay);
            std::string line, sub_name;
            std::vector<uint64_t> ch;
            uint64_t case_s = 0;
            bool by_seed = false;

            while (std::getline(f, line))
            {
                if (line.rfind("sub: ", 0) == 0) sub_name = line.substr(5);
                else if (line.rfind("choices: ", 0) == 0)
                {
                    std::istringstream ss(line.substr(9));
                    uint64_t v = 0;

                    while (ss >> v) ch.push_back(v);
                }
                else if (line.rfind("case-seed: ", 0) == 0)
                {
                    by_seed = true;
                    case_s = strtoull(line.c_str() + 11, nullptr, 10);
                }
            }

            for (auto& k : _known)
            {
                if ("known/" + k.key == sub_name)
                {
                    try { k.run(); }
                    catch (const Fail& fl)
                    {
                        std::cout << "still fails: " << fl.msg << std::endl;
                        std::cout << "VIOLATION property=" << _id <<
                            " replay=" << replay << std::endl;
                        return 1;
                    }
                }
            }

            for (auto& s : _subs)
            {
                if (s.name != sub_name) continue;

                Outcome o = forked(s, by_seed ? nullptr : &ch, case_s);

                std::cout << o.desc << "\n" << (o.failed ? "FAILS: " :
                    "passes") << o.msg << std::endl;

                if (o.failed)
                    std::cout << "VIOLATION property=" << _id << " replay=" <<
                        replay << std::endl;

                return o.failed ? 1 : 0;
            }

            std::cout << "replay: passes, or no sub-check " << sub_name <<
                std::endl;
            return 0;
        }

        // known findings file
        std::set<std::string> listed;
        {
            std::ifstream f(known_file);
            std::string line;

            while (std::getline(f, line))
            {
                const std::string pre = "known: property=" + _id + " key=";

                if (line.rfind(pre, 0) == 0)
                {
                    std::istringstream ss(line.substr(pre.size()));
                    std::string key;

                    ss >> key;
                    listed.insert(key);
                }
            }
        }

        uint64_t evals = 0, discards = 0, nontrivial = 0;
        std::unordered_set<uint64_t> distinct;
        std::map<std::string, uint64_t> labels;
        std::map<std::string, uint64_t> per_sub;
        std::vector<std::string> samples;
        bool truncated = false;
        bool violated = false;

        auto write_replay = [&](const std::string& sub, const Outcome& o,
            bool by_seed, uint64_t cs)
        {
            mkdir(replay_dir.c_str(), 0777);

            std::ostringstream name;

            name << replay_dir << "/" << _id << "-" << sub << "-" <<
                std::hex << (hash_str(o.msg + o.desc) & 0xffffffff) << ".txt";

            std::string path = name.str();

            for (auto& chr : path) if (chr == ' ') chr = '_';

            std::ofstream f(path);

            f << "property: " << _id << "\nsub: " << sub << "\nseed: " <<
                seed << "\n";

            if (by_seed)
                f << "case-seed: " << cs << "\n";
            else
            {
                f << "choices:";

                for (auto v : o.rec) f << ' ' << v;

                f << "\n";
            }

            f << "---- case ----\n" << o.desc << "\n---- failure ----\n" <<
                o.msg << "\n";
            return path;
        };

        for (auto& k : _known)
        {
            std::string msg;
            bool bad = false;

            ++evals;

            try { k.run(); }
            catch (const Fail& f) { bad = true; msg = f.msg; }
            catch (const std::exception& e) { bad = true; msg = e.what(); }

            if (!bad) continue;

            if (listed.count(k.key))
                std::cout << "KNOWN-FINDING: property=" << _id << " " <<
                    k.key << ": " << k.what << std::endl;
            else
            {
                Outcome o;

                o.msg = msg;
                o.desc = k.what;
                std::cout << k.what << ": " << msg << std::endl;
                std::cout << "VIOLATION property=" << _id << " replay=" <<
                    write_replay("known/" + k.key, o, false, 0) << std::endl;
                violated = true;
            }
        }

        for (std::size_t si = 0; si < _subs.size() && !violated; ++si)
        {
            const Sub& sub = _subs[si];

            if (!only.empty() && sub.name != only) continue;

            uint64_t total = thorough ? sub.thorough : sub.quick;

            if (!sub.example) total = std::max<uint64_t>(1,
                static_cast<uint64_t>(static_cast<double>(total) * _scale));

            const int j = sub.example ? 1 : std::min<int>(jobs,
                static_cast<int>(std::max<uint64_t>(1, total)));
            struct Shared
            {
                volatile uint64_t cur[64];
                volatile int stop;
            };
            auto* sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared),
                PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

            memset(const_cast<uint64_t*>(sh->cur), 0xff, sizeof(sh->cur));
            sh->stop = 0;

            std::vector<pid_t> pids;

            std::cout.flush();

            for (int w = 0; w < j; ++w)
            {
                pid_t pid = fork();

                if (pid == 0)
                {
                    const std::string err = _tmp + "/w" + std::to_string(w) +
                        ".err";
                    int fd = open(err.c_str(), O_CREAT | O_TRUNC | O_WRONLY,
                        0600);

                    dup2(fd, 2);
                    dup2(fd, 1);
                    signal(SIGPROF, on_prof);

#ifdef PBT_FUZZ
                    if (!sub.example)
                        fuzz_child(sub, seed, 1 + total /
                            static_cast<uint64_t>(j), w, std::max(1.0,
                            static_cast<double>(max_s) - elapsed()));
#endif

                    Stats st;
                    std::string fmsg, fdesc;
                    uint64_t fidx = ~0ull;
                    int ret = 0;

                    for (uint64_t idx = static_cast<uint64_t>(w); idx < total;
                        idx += static_cast<uint64_t>(j))
                    {
                        if (sh->stop) break;

                        if (elapsed() > static_cast<double>(max_s))
                        {
                            ret = 3;
                            break;
                        }

                        sh->cur[w] = idx;
                        set_cpu_timer(_cpu);

                        Src src(case_seed(seed, sub.name, idx));
                        Case c(src);
                        std::string msg;
                        bool discarded = false;
                        bool ok = run_case(sub, src, c, msg, discarded);

                        if (discarded)
                        {
                            ++st.discards;
                            continue;
                        }

                        ++st.evals;

                        std::string d = c.desc.str();

                        if (c.nontrivial)
                        {
                            ++st.nontrivial;
                            st.distinct.insert(hash_str(sub.name + d));

                            if (st.samples.size() < 1)
                                st.samples.push_back(d.substr(0, 700));
                        }

                        for (auto& l : c.labels) ++st.labels[l];

                        if (!ok)
                        {
                            fmsg = msg;
                            fdesc = d;
                            fidx = idx;
                            ret = 2;
                            sh->stop = 1;
                            break;
                        }
                    }

                    set_cpu_timer(0);

                    write_stats(_tmp + "/w" + std::to_string(w) + ".out",
                        st, fidx, fmsg, fdesc);
                    _exit(ret);
                }

                pids.push_back(pid);
            }

            struct Bad
            {
                uint64_t idx;
                bool crash;
                std::string msg, desc;
                std::vector<uint64_t> rec;
            };
            std::vector<Bad> bads;

            for (int w = 0; w < j; ++w)
            {
                int status = 0;

                while (waitpid(pids[static_cast<std::size_t>(w)], &status, 0) <
                    0 && errno == EINTR);

                const int code = WIFEXITED(status) ? WEXITSTATUS(status) : -1;

                if (code == 0 || code == 2 || code == 3)
                {
                    std::ifstream f(_tmp + "/w" + std::to_string(w) + ".out",
                        std::ios::binary);
                    uint64_t e = 0, d = 0, nt = 0, fidx = 0, n = 0;
                    std::string m, ds;

                    f >> e >> d >> nt >> fidx;
                    f.get();
                    get(f, m);
                    get(f, ds);
                    evals += e;
                    discards += d;
                    nontrivial += nt;
                    per_sub[sub.name] += e;
                    f >> n;

                    for (; n; --n)
                    {
                        uint64_t h = 0;

                        f >> h;
                        distinct.insert(h);
                    }

                    f >> n;

                    for (; n; --n)
                    {
                        std::string l;
                        uint64_t v = 0;

                        get(f, l);
                        f >> v;
                        labels[l] += v;
                    }

                    f >> n;

                    for (; n; --n)
                    {
                        std::string s;

                        get(f, s);

                        if (w < 2) samples.push_back(sub.name + ": " + s);
                    }

                    if (code == 3) truncated = true;

                    if (code == 2) bads.push_back({ fidx, false, m, ds, {} });
                }
                else
                {
                    sh->stop = 1;
                    bads.push_back({ sh->cur[w], true, death(status, _tmp +
                        "/w" + std::to_string(w) + ".err"), "", {} });

                    // coverage-guided: the choices were left behind
                    std::ifstream f(_tmp + "/w" + std::to_string(w) + ".live",
                        std::ios::binary);
                    int bad = 0;
                    std::size_t n = 0;
                    std::string a, d;

                    if (f >> bad && get(f, a) && get(f, d) && f >> n)
                    {
                        bads.back().rec.resize(n);

                        for (auto& v : bads.back().rec) f >> v;
                    }
                }
            }

            munmap(sh, sizeof(Shared));

            std::sort(bads.begin(), bads.end(), [](const Bad& a, const Bad& b)
                {
                    return a.idx < b.idx;
                });

            for (auto& b : bads)
            {
                const uint64_t cs = case_seed(seed, sub.name, b.idx);
                bool all = true;
                Outcome o;

                // replay three times before reporting
                for (int r = 0; r < 3 && all; ++r)
                {
                    o = forked(sub, b.rec.empty() ? nullptr : &b.rec, cs);
                    all = o.failed;
                }

                if (!all)
                {
                    std::cout << "note: case " << b.idx << " of " << sub.name
                        << " failed once but does not replay: " << b.msg <<
                        std::endl;
                    continue;
                }

                bool by_seed = o.rec.empty() && b.rec.empty();

                if (by_seed)
                {
                    // The case kills its process: recover its choices by
                    // running the generator again with recording to a file.
                    Src src(cs);
                    // Draws are recorded lazily; a generous prefix of the
                    // raw stream replays the same case.
                    std::vector<uint64_t> raw;
                    uint64_t st = cs;

                    for (int i = 0; i < 4000; ++i)
                    {
                        st += 0x9e3779b97f4a7c15ull;
                        raw.push_back(mix(st));
                    }

                    Outcome o2 = forked(sub, &raw, 0);

                    if (o2.failed)
                    {
                        o2.rec = raw;
                        o = o2;
                        by_seed = false;
                    }
                }

                if (!by_seed) o = shrink(sub, o, 45);

                std::cout << "---- " << sub.name << " ----\n" << o.desc <<
                    "\nFAILS: " << o.msg << std::endl;
                std::cout << "VIOLATION property=" << _id << " replay=" <<
                    write_replay(sub.name, o, by_seed, cs) << std::endl;
                violated = true;
                break;
            }
        }

        if (!out.empty())
        {
            std::ofstream f(out);

            f << "{\n  \"property\": " << json_str(_id) << ",\n  \"tier\": \""
                << (thorough ? "thorough" : "quick") << "\",\n  \"seed\": " <<
                seed << ",\n  \"level\": \"exploration\",\n  \"coverage\": {\n"
                "    \"evaluations\": " << evals <<
                ",\n    \"distinct_nontrivial\": " << distinct.size() <<
                ",\n    \"discarded\": " << discards <<
                ",\n    \"truncated_by_time\": " << (truncated ? "true" :
                "false") << ",\n    \"rule\": " << json_str(_rule) <<
                ",\n    \"per_subcheck\": {";

            const char* sep = "";

            for (auto& p : per_sub)
            {
                f << sep << "\n      " << json_str(p.first) << ": " <<
                    p.second;
                sep = ",";
            }

            f << "\n    },\n    \"classes\": {";
            sep = "";

            for (auto& p : labels)
            {
                f << sep << "\n      " << json_str(p.first) << ": " <<
                    p.second;
                sep = ",";
            }

            f << "\n    },\n    \"samples\": [";
            sep = "";

            for (auto& s : samples)
            {
                f << sep << "\n      " << json_str(s);
                sep = ",";
            }

            f << "\n    ]\n  },\n  \"assumptions\": [";
            sep = "";

            for (auto& s : _assumptions)
            {
                f << sep << "\n    " << json_str(s);
                sep = ",";
            }

            f << "\n  ],\n  \"wall_s\": " << elapsed() <<
                ",\n  \"violations\": " << (violated ? 1 : 0) << "\n}\n";
        }

        std::cout << _id << ": " << evals << " cases (" << distinct.size() <<
            " distinct non-trivial, " << discards << " discarded) in " <<
            elapsed() << " s" << (truncated ? " [truncated by time]" : "") <<
            std::endl;
        return violated ? 1 : 0;
    }
}

#endif
