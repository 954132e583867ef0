// A small property-based testing engine.
//
// Every random decision of a case is one bounded integer drawn through pbt::Src. The recorded list of
// choices *is* the case: replaying the list reproduces it, and shrinking edits the list (delete blocks,
// zero, halve, decrement) and keeps an edit when the same check still fails. Cases run in forked workers,
// each in a fresh thread (limbo keeps thread_local generators); a crash, failed assertion or sanitizer
// report ends only the worker and counts as a failure of the case it was running.
#ifndef VERIF_PBT_HPP
#define VERIF_PBT_HPP
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <thread>
#include <unordered_set>
#include <vector>

#include <dirent.h>
#include <fcntl.h>
#include <ftw.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#ifdef USE_TBB
#undef I
#include <tbb/parallel_for.h>
#endif

namespace verif {
    std::atomic<uint64_t>& seed_state(); // defined by the shim when the shim is on the include path
}

namespace pbt {
    inline uint64_t mix(uint64_t z)
    {
        z += 0x9E3779B97F4A7C15ULL;
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
        return z ^ (z >> 31);
    }

    struct Discard {};
    struct Failure {
        std::string sig, msg;
    };

    static const size_t CAP = 1 << 17;

    // what a worker shares with its supervisor
    struct Shared {
        std::atomic<long> running; // index of the running case, -1 when idle
        std::atomic<int> suite;
        std::atomic<double> started;
        std::atomic<int> status; // 0 idle/running, 1 ok, 2 discard, 3 failure
        std::atomic<size_t> n;
        std::atomic<long> evals;
        int nontrivial;
        char sig[256];
        char msg[8192];
        char desc[8192];
        uint64_t seed;
        uint64_t choices[CAP];
    };

    class Src {
    public:
        Src(uint64_t seed, Shared* sh) : _state(mix(seed)), _sh(sh), _replay(nullptr) { _sh->n = 0; }
        Src(const std::vector<uint64_t>* rep, Shared* sh) : _state(0), _sh(sh), _replay(rep) { _sh->n = 0; }

        // uniform in [0, n)
        uint64_t u(uint64_t n)
        {
            if (n == 0)
                n = 1;
            uint64_t v;
            if (_replay) {
                v = _pos < _replay->size() ? (*_replay)[_pos] : 0;
                ++_pos;
                if (v >= n)
                    v %= n;
            }
            else {
                _state += 0x9E3779B97F4A7C15ULL;
                uint64_t z = _state;
                z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
                z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
                z ^= z >> 31;
                v = (uint64_t)(((__uint128_t)z * n) >> 64);
            }
            size_t k = _sh->n;
            if (k >= CAP)
                throw Discard();
            _sh->choices[k] = v;
            _sh->n = k + 1;
            return v;
        }
        int i(int lo, int hi) { return lo + (int)u((uint64_t)((int64_t)hi - lo) + 1); }
        bool b() { return u(2) == 1; }
        bool p(double pr) { return (double)u(1000) >= 1000. * (1. - pr); } // simplest value: false
        // mostly small, sometimes large (block sizes, thresholds)
        int size(int lo, int hi, int big, double pr = 0.005) { return p(pr) ? i(hi + 1, big) : i(lo, hi); }
        double unit() { return (double)u((1ULL << 32) + 1) / (double)(1ULL << 32); } // [0, 1]
        double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
        // mixture: round values, the ends, and uniform ones
        double real(double lo, double hi)
        {
            switch (u(8)) {
            case 0:
                return lo + (hi - lo) * (double)u(9) / 8.;
            case 1:
                return b() ? hi : lo;
            default:
                return uni(lo, hi);
            }
        }
        double logu(double lo, double hi) { return std::exp(uni(std::log(lo), std::log(hi))); }
        double normal()
        {
            double a = 1. - uni(0., 1. - 1e-9), b2 = unit();
            return std::sqrt(-2. * std::log(a)) * std::cos(2. * M_PI * b2);
        }
        template <typename T>
        const T& pick(const std::vector<T>& v) { return v[u(v.size())]; }
        int weighted(const std::vector<int>& w)
        {
            int t = 0;
            for (int x : w)
                t += x;
            int r = (int)u(t);
            for (size_t k = 0; k < w.size(); k++) {
                if (r < w[k])
                    return (int)k;
                r -= w[k];
            }
            return 0;
        }
        std::vector<int> permutation(int n)
        {
            std::vector<int> v(n);
            for (int k = 0; k < n; k++)
                v[k] = k;
            for (int k = n - 1; k > 0; k--)
                std::swap(v[k], v[k - (int)u(k + 1)]);
            return v;
        }
        uint64_t bits() { return (u(1ULL << 32) << 32) | u(1ULL << 32); }

        void nontrivial(bool x = true)
        {
            if (x)
                _sh->nontrivial = 1;
        }
        void label(const std::string& l) { labels.push_back(l); }
        template <typename T>
        Src& operator<<(const T& x)
        {
            if (_d.tellp() < 4000)
                _d << x;
            return *this;
        }
        std::string desc() { return _d.str(); }
        void discard() { throw Discard(); }
        void fail(const std::string& sig, const std::string& msg = "") { throw Failure{sig, msg}; }
        void check(bool ok, const std::string& sig, const std::string& msg = "")
        {
            if (!ok)
                fail(sig, msg);
        }
        // |a-b| <= tol ; NaN is a failure unless both are NaN
        void close(double a, double b, double tol, const std::string& sig, const std::string& msg = "")
        {
            if (a == b || (std::isnan(a) && std::isnan(b)))
                return;
            if (!(std::abs(a - b) <= tol)) {
                std::ostringstream o;
                o.precision(17);
                o << msg << " got " << a << " expected " << b << " tolerance " << tol;
                fail(sig, o.str());
            }
        }
        std::vector<std::string> labels;
        // deterministic sub-seed
        uint64_t case_seed = 0;
        // a directory of this case alone, inside the worker's own scratch directory; removed after the case
        const std::string& dir()
        {
            if (scratch.empty()) {
                scratch = "verif-scratch-case";
                mkdir(scratch.c_str(), 0777);
            }
            return scratch;
        }
        std::string scratch;

    private:
        uint64_t _state;
        Shared* _sh;
        const std::vector<uint64_t>* _replay;
        size_t _pos = 0;
        std::ostringstream _d;
    };

    struct Suite {
        std::string name;
        int weight;
        std::function<void(Src&)> run;
        std::string rule;
        bool fresh_thread = true;
    };
    inline std::vector<Suite>& suites()
    {
        static std::vector<Suite> s;
        return s;
    }
    struct Reg {
        Reg(const char* n, int w, const char* rule, std::function<void(Src&)> f) { suites().push_back({n, w, f, rule, true}); }
    };
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define PBT_SUITE(name, weight, rule)                                                    \
    static void PBT_CAT(pbt_suite_, __LINE__)(pbt::Src & s);                             \
    static pbt::Reg PBT_CAT(pbt_reg_, __LINE__)(name, weight, rule, PBT_CAT(pbt_suite_, __LINE__)); \
    static void PBT_CAT(pbt_suite_, __LINE__)(pbt::Src & s)

    int run_main(int argc, char** argv);
} // namespace pbt

#ifdef PBT_MAIN
namespace pbt {
    static double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    static std::string jesc(const std::string& s)
    {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') {
                o += '\\';
                o += c;
            }
            else if (c == '\n')
                o += "\\n";
            else if (c < 32 || c > 126) {
                char b[8];
                snprintf(b, 8, "\\u%04x", c);
                o += b;
            }
            else
                o += c;
        }
        return o;
    }
    struct Opt {
        uint64_t seed = 1;
        double time = 60;
        long cases = 1000;
        int workers = 8;
        std::string out, replay, variant = "fast", scratch = ".", only;
        double hang = 120;
        double shrink = 45;
    };
    static int rm_cb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
    static void rm_tree(const std::string& d)
    {
        if (d.find("verif-scratch-") == std::string::npos)
            return; // only ever remove our own directories
        nftw(d.c_str(), rm_cb, 32, FTW_DEPTH | FTW_PHYS);
    }
    static int pick_suite(uint64_t cs, const Opt& o)
    {
        auto& S = suites();
        if (!o.only.empty())
            for (size_t k = 0; k < S.size(); k++)
                if (S[k].name == o.only)
                    return (int)k;
        int t = 0;
        for (auto& x : S)
            t += x.weight;
        int r = (int)(mix(cs ^ 0x5157) % t);
        for (size_t k = 0; k < S.size(); k++) {
            if (r < S[k].weight)
                return (int)k;
            r -= S[k].weight;
        }
        return 0;
    }
    // run one case in a fresh thread; result in *sh
    static void run_case(Suite& S, Src& src, Shared* sh, std::vector<std::string>& labels, uint64_t seed)
    {
        sh->status = 0;
        sh->nontrivial = 0;
        sh->sig[0] = sh->msg[0] = sh->desc[0] = 0;
#ifndef PBT_NO_SHIM
        verif::seed_state() = mix(seed ^ 0xABCDEF);
#endif
        src.case_seed = seed;
        auto body = [&]() {
            int st = 1;
            std::string sig, msg;
            try {
#ifdef PBT_ONCE
                int reps = 1;
#else
                // now and then several times in the same thread: nothing may be left over from earlier use
                int reps = 1 + src.weighted({16, 3, 1});
#endif
                for (int r = 0; r < reps; r++) {
                    if (r) {
                        src << " || again: ";
                        if (!src.scratch.empty())
                            rm_tree(src.scratch);
                        src.scratch.clear();
                    }
                    try {
                        S.run(src);
                    }
                    catch (const Discard&) {
                        if (r == 0)
                            st = 2;
                        break;
                    }
                }
            }
            catch (const Discard&) {
                st = 2;
            }
            catch (const Failure& f) {
                st = 3;
                sig = f.sig;
                msg = f.msg;
            }
            catch (const std::exception& e) {
                st = 3;
                sig = std::string("unexpected exception");
                msg = std::string("unexpected exception: ") + e.what();
            }
            catch (...) {
                st = 3;
                sig = "unexpected exception";
                msg = "unexpected exception of unknown type";
            }
            snprintf(sh->sig, sizeof sh->sig, "%s", sig.c_str());
            snprintf(sh->msg, sizeof sh->msg, "%s", msg.c_str());
            snprintf(sh->desc, sizeof sh->desc, "%s", src.desc().c_str());
            sh->status = st;
        };
        auto whole = [&]() {
            body();
            if (!src.scratch.empty())
                rm_tree(src.scratch);
        };
#ifdef USE_TBB
        // The main thread of the process joins the scheduler and stays in it: destroying the scheduler each time that
        // the thread of a case ends races with its exiting workers inside libtbb.
        static bool tbb_started = false;
        if (!tbb_started) {
            tbb_started = true;
            std::atomic<int> k{0};
            tbb::parallel_for(0, 64, [&](int) { k++; });
        }
#endif
        if (S.fresh_thread) {
            std::thread t(whole);
            t.join();
        }
        else
            whole();
        labels = src.labels;
    }
    struct Found {
        int suite;
        uint64_t seed;
        std::vector<uint64_t> choices;
        std::string sig, msg, desc;
    };
    static Shared* map_shared()
    {
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        return new (p) Shared();
    }
    static void silence()
    {
        int n = open("/dev/null", O_WRONLY);
        dup2(n, 1);
        dup2(n, 2);
        close(n);
    }
    // run the choices in a child; returns status (1 ok 2 discard 3 failure incl. crash)
    static int attempt(const Opt& o, int suite, uint64_t seed, const std::vector<uint64_t>* choices, Shared* sh, double timeout, const std::string& errfile)
    {
        sh->status = 0;
        sh->n = 0;
        sh->sig[0] = sh->msg[0] = sh->desc[0] = 0;
        std::string dir = o.scratch + "/verif-scratch-att-" + std::to_string(getpid());
        mkdir(dir.c_str(), 0777);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            int n = open(errfile.empty() ? "/dev/null" : errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(n, 1);
            dup2(n, 2);
            if (chdir(dir.c_str()))
                _exit(97);
            std::vector<std::string> labels;
            if (choices) {
                Src src(choices, sh);
                run_case(suites()[suite], src, sh, labels, seed);
            }
            else {
                Src src(seed, sh);
                run_case(suites()[suite], src, sh, labels, seed);
            }
            _exit(0);
        }
        double t0 = now();
        int ws = 0;
        useconds_t nap = 200;
        while (true) {
            pid_t r = waitpid(pid, &ws, WNOHANG);
            if (r == pid)
                break;
            if (now() - t0 > timeout) {
                kill(pid, SIGKILL);
                waitpid(pid, &ws, 0);
                snprintf(sh->sig, sizeof sh->sig, "hang");
                snprintf(sh->msg, sizeof sh->msg, "the case did not finish within %.0f s", timeout);
                sh->status = 3;
                break;
            }
            usleep(nap);
            if (nap < 20000)
                nap = nap * 3 / 2;
        }
        rm_tree(dir);
        if (sh->status == 0) {
            if (WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGKILL || WTERMSIG(ws) == SIGTERM))
                return 0; // ended from outside: inconclusive
            snprintf(sh->sig, sizeof sh->sig, "crash");
            if (WIFSIGNALED(ws))
                snprintf(sh->msg, sizeof sh->msg, "the process died with signal %d (%s)", WTERMSIG(ws), strsignal(WTERMSIG(ws)));
            else
                snprintf(sh->msg, sizeof sh->msg, "the process exited with status %d", WEXITSTATUS(ws));
            sh->status = 3;
        }
        return sh->status;
    }
    static Found shrink(const Opt& o, Found f, Shared* sh, double case_timeout)
    {
        double end = now() + o.shrink;
        long tries = 0;
        auto test = [&](const std::vector<uint64_t>& c) {
            if (now() > end || tries > 4000)
                return false;
            ++tries;
            int st = attempt(o, f.suite, f.seed, &c, sh, case_timeout, "");
            if (st == 3 && f.sig == sh->sig) {
                std::vector<uint64_t> got(sh->choices, sh->choices + sh->n.load());
                // keep the consumed prefix only
                if (got.size() > c.size())
                    got = c;
                f.choices = got;
                f.msg = sh->msg;
                f.desc = sh->desc;
                return true;
            }
            return false;
        };
        bool progress = true;
        while (progress && now() < end) {
            progress = false;
            // delete blocks
            for (size_t len : {(size_t)64, (size_t)16, (size_t)8, (size_t)4, (size_t)2, (size_t)1}) {
                if (f.choices.size() < len)
                    continue;
                for (size_t k = f.choices.size() - len + 1; k-- > 0 && now() < end;) {
                    if (k + len > f.choices.size())
                        continue;
                    std::vector<uint64_t> c(f.choices);
                    c.erase(c.begin() + k, c.begin() + k + len);
                    if (test(c))
                        progress = true;
                }
            }
            // zero blocks, then single values
            for (size_t len : {(size_t)16, (size_t)4, (size_t)1})
                for (size_t k = 0; k + len <= f.choices.size() && now() < end; k += len) {
                    bool all0 = true;
                    for (size_t j = k; j < k + len; j++)
                        all0 = all0 && f.choices[j] == 0;
                    if (all0)
                        continue;
                    std::vector<uint64_t> c(f.choices);
                    for (size_t j = k; j < k + len; j++)
                        c[j] = 0;
                    if (test(c))
                        progress = true;
                }
            // lower single values
            for (size_t k = 0; k < f.choices.size() && now() < end; k++) {
                uint64_t lo = 0;
                for (int it = 0; it < 12 && k < f.choices.size() && f.choices[k] > lo + 1; it++) {
                    std::vector<uint64_t> c(f.choices);
                    uint64_t mid = lo + (c[k] - lo) / 2;
                    // prefer round values
                    for (int sh2 = 31; sh2 > 0; sh2--)
                        if (((c[k] - 1) >> sh2) << sh2 >= mid && c[k] > 1) {
                            mid = ((c[k] - 1) >> sh2) << sh2;
                            break;
                        }
                    c[k] = mid;
                    if (test(c))
                        progress = true;
                    else
                        lo = mid;
                }
            }
        }
        return f;
    }
    static std::string result_json(const Found& f, const std::string& variant)
    {
        std::ostringstream o;
        o << "{\"suite\":\"" << jesc(suites()[f.suite].name) << "\",\"variant\":\"" << jesc(variant) << "\",\"seed\":\"" << f.seed << "\",\"signature\":\"" << jesc(f.sig) << "\",\"message\":\"" << jesc(f.msg) << "\",\"case\":\"" << jesc(f.desc) << "\",\"choices\":[";
        for (size_t k = 0; k < f.choices.size(); k++)
            o << (k ? "," : "") << f.choices[k];
        o << "]}";
        return o.str();
    }
    static std::vector<std::pair<std::string, std::string>> known()
    {
        // VERIF_KNOWN: lines "suite|signature"
        std::vector<std::pair<std::string, std::string>> r;
        if (const char* e = getenv("VERIF_KNOWN")) {
            std::istringstream in(e);
            std::string l;
            while (std::getline(in, l)) {
                size_t k = l.find('|');
                if (k != std::string::npos)
                    r.push_back({l.substr(0, k), l.substr(k + 1)});
            }
        }
        return r;
    }
    int run_main(int argc, char** argv)
    {
        Opt o;
        for (int a = 1; a + 1 < argc; a += 2) {
            std::string k = argv[a], v = argv[a + 1];
            if (k == "--list") { // does the binary start?
                for (auto& x : suites())
                    puts(x.name.c_str());
                return 0;
            }
            if (k == "--seed")
                o.seed = strtoull(v.c_str(), 0, 10);
            else if (k == "--time")
                o.time = atof(v.c_str());
            else if (k == "--cases")
                o.cases = atol(v.c_str());
            else if (k == "--workers")
                o.workers = atoi(v.c_str());
            else if (k == "--out")
                o.out = v;
            else if (k == "--replay")
                o.replay = v; // file: suite \n seed \n choices...
            else if (k == "--variant")
                o.variant = v;
            else if (k == "--scratch")
                o.scratch = v;
            else if (k == "--suite")
                o.only = v;
            else if (k == "--hang")
                o.hang = atof(v.c_str());
            else if (k == "--shrink")
                o.shrink = atof(v.c_str());
        }
        signal(SIGPIPE, SIG_IGN);
        struct rlimit rl = {0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        if (!o.replay.empty()) {
            FILE* f = fopen(o.replay.c_str(), "r");
            if (!f)
                return 2;
            char name[512];
            unsigned long long sd, v;
            if (fscanf(f, "%500[^\n]\n%llu", name, &sd) != 2)
                return 2;
            std::vector<uint64_t> c;
            while (fscanf(f, "%llu", &v) == 1)
                c.push_back(v);
            fclose(f);
            int si = -1;
            for (size_t k = 0; k < suites().size(); k++)
                if (suites()[k].name == name)
                    si = (int)k;
            if (si < 0)
                return 2;
            Shared* sh = map_shared();
            std::string ef = o.scratch + "/replay-stderr.txt";
            int st = attempt(o, si, sd, &c, sh, o.hang, ef);
            printf("suite: %s\ncase: %s\n", name, sh->desc);
            printf("status: %s\n", st == 3 ? "FAIL" : st == 2 ? "discarded" : st == 1 ? "pass" : "inconclusive");
            if (st == 3) {
                printf("signature: %s\nmessage: %s\n", sh->sig, sh->msg);
                if (FILE* e = fopen(ef.c_str(), "r")) {
                    char buf[4000];
                    size_t n = fread(buf, 1, sizeof buf - 1, e);
                    buf[n] = 0;
                    printf("output of the case:\n%s\n", buf);
                    fclose(e);
                }
            }
            return st == 3 ? 1 : st == 0 ? 3 : 0;
        }
        auto kn = known();
        int W = o.workers;
        std::vector<Shared*> sh(W);
        std::vector<pid_t> pid(W);
        std::vector<bool> alive(W, true);
        std::vector<int> pipes(W);
        double t0 = now();
        std::string base = o.scratch;
        auto spawn = [&](int w, long first) {
            int pp[2];
            if (pipe(pp))
                exit(2);
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                setpgid(0, 0);
                close(pp[0]);
                silence();
                std::string dir = base + "/verif-scratch-w" + std::to_string(getpid());
                mkdir(dir.c_str(), 0777);
                if (chdir(dir.c_str()))
                    _exit(97);
                std::map<std::string, long> labels, per_suite, disc, nont;
                std::unordered_set<uint64_t> distinct;
                std::vector<std::string> samples;
                std::map<int, int> nsamp;
                std::map<std::string, long> kfound;
                long evals = 0, discards = 0, nontriv = 0;
                for (long idx = first; idx < o.cases; idx += W) {
                    if (now() - t0 > o.time)
                        break;
                    uint64_t cs = mix(mix(o.seed * 0x100000001B3ULL + std::hash<std::string>()(o.variant)) + (uint64_t)idx);
                    int si = pick_suite(cs, o);
                    sh[w]->suite = si;
                    sh[w]->seed = cs;
                    sh[w]->started = now();
                    sh[w]->running = idx;
                    Src src(cs, sh[w]);
                    std::vector<std::string> lb;
                    run_case(suites()[si], src, sh[w], lb, cs);
                    sh[w]->running = -1;
                    sh[w]->evals++;
                    int st = sh[w]->status;
                    if (st == 2) {
                        discards++;
                        disc[suites()[si].name]++;
                        continue;
                    }
                    if (st == 3) {
                        bool isk = false;
                        for (auto& k : kn)
                            if (k.first == suites()[si].name && k.second == sh[w]->sig)
                                isk = true;
                        if (!isk)
                            _exit(42); // the supervisor reads the case from shared memory
                        kfound[suites()[si].name + "|" + sh[w]->sig]++;
                    }
                    evals++;
                    per_suite[suites()[si].name]++;
                    std::set<std::string> ul(lb.begin(), lb.end());
                    for (auto& l : ul)
                        labels[suites()[si].name + ": " + l]++;
                    if (sh[w]->nontrivial) {
                        nontriv++;
                        nont[suites()[si].name]++;
                        uint64_t h = mix(si + 77);
                        for (size_t k = 0; k < sh[w]->n; k++)
                            h = mix(h ^ sh[w]->choices[k]);
                        distinct.insert(h);
                        if (nsamp[si] < 1 && w < 2) {
                            nsamp[si]++;
                            samples.push_back(suites()[si].name + ": " + sh[w]->desc);
                        }
                    }
                }
                if (chdir("/") == 0)
                    rm_tree(dir);
                std::ostringstream js;
                js << "E " << evals << "\nD " << discards << "\nN " << nontriv << "\n";
                for (auto& k : distinct)
                    js << "H " << k << "\n";
                for (auto& k : labels)
                    js << "L " << k.second << " " << k.first << "\n";
                for (auto& k : per_suite)
                    js << "S " << k.second << " " << k.first << "\n";
                for (auto& k : nont)
                    js << "O " << k.second << " " << k.first << "\n";
                for (auto& k : disc)
                    js << "X " << k.second << " " << k.first << "\n";
                for (auto& k : kfound)
                    js << "K " << k.second << " " << k.first << "\n";
                for (auto& k : samples) {
                    std::string one = k;
                    for (auto& c : one)
                        if (c == '\n')
                            c = ';';
                    js << "P 0 " << one << "\n";
                }
                std::string out = js.str();
                size_t off = 0;
                while (off < out.size()) {
                    ssize_t r = write(pp[1], out.data() + off, out.size() - off);
                    if (r <= 0)
                        break;
                    off += r;
                }
                _exit(0);
            }
            close(pp[1]);
            fcntl(pp[0], F_SETFL, O_NONBLOCK);
            pid[w] = p;
            pipes[w] = pp[0];
        };
        for (int w = 0; w < W; w++) {
            sh[w] = map_shared();
            sh[w]->running = -1;
            spawn(w, w);
        }
        std::vector<std::string> data(W);
        std::vector<Found> found;
        int left = W;
        bool infra = false;
        auto drain = [&](int w) {
            char buf[65536];
            ssize_t r;
            while ((r = read(pipes[w], buf, sizeof buf)) > 0)
                data[w].append(buf, r);
        };
        auto cleanup = [&](pid_t p) { rm_tree(base + "/verif-scratch-w" + std::to_string(p)); };
        while (left > 0 && found.empty()) {
            for (int w = 0; w < W; w++) {
                if (!alive[w])
                    continue;
                drain(w);
                int ws;
                pid_t r = waitpid(pid[w], &ws, WNOHANG);
                bool hang = false;
                if (r == 0 && sh[w]->running >= 0 && now() - sh[w]->started > o.hang) {
                    hang = true;
                    kill(pid[w], SIGKILL);
                    waitpid(pid[w], &ws, 0);
                    r = pid[w];
                }
                if (r != pid[w])
                    continue;
                drain(w);
                alive[w] = false;
                left--;
                cleanup(pid[w]);
                if (!hang && WIFEXITED(ws) && WEXITSTATUS(ws) == 0)
                    continue;
                if (!hang && WIFSIGNALED(ws) && (WTERMSIG(ws) == SIGKILL || WTERMSIG(ws) == SIGTERM)) {
                    infra = true; // ended from outside (memory): not evidence of anything
                    continue;
                }
                Found f;
                f.suite = sh[w]->suite;
                f.seed = sh[w]->seed;
                f.choices.assign(sh[w]->choices, sh[w]->choices + sh[w]->n.load());
                if (hang) {
                    f.sig = "hang";
                    f.msg = "the case did not finish within the time limit";
                }
                else if (WIFEXITED(ws) && WEXITSTATUS(ws) == 42) {
                    f.sig = sh[w]->sig;
                    f.msg = sh[w]->msg;
                    f.desc = sh[w]->desc;
                }
                else {
                    f.sig = "crash";
                    f.msg = WIFSIGNALED(ws) ? std::string("the process died with signal ") + strsignal(WTERMSIG(ws)) : "the process exited with status " + std::to_string(WEXITSTATUS(ws));
                }
                found.push_back(f);
                break;
            }
            usleep(5000);
        }
        for (int w = 0; w < W; w++)
            if (alive[w]) {
                kill(pid[w], SIGKILL);
                int ws;
                waitpid(pid[w], &ws, 0);
                cleanup(pid[w]);
            }
        double searched = now() - t0;
        // merge
        long E = 0, D = 0, N = 0;
        std::unordered_set<uint64_t> H;
        std::map<std::string, long> L, SU, NO, X, K;
        std::vector<std::string> P;
        for (int w = 0; w < W; w++) {
            std::istringstream in(data[w]);
            std::string line;
            while (std::getline(in, line)) {
                char k = line[0];
                std::istringstream ls(line.substr(1));
                if (k == 'H') {
                    uint64_t v;
                    ls >> v;
                    H.insert(v);
                    continue;
                }
                long v;
                ls >> v;
                std::string rest;
                std::getline(ls, rest);
                if (!rest.empty())
                    rest = rest.substr(1);
                if (k == 'E')
                    E += v;
                else if (k == 'D')
                    D += v;
                else if (k == 'N')
                    N += v;
                else if (k == 'L')
                    L[rest] += v;
                else if (k == 'S')
                    SU[rest] += v;
                else if (k == 'O')
                    NO[rest] += v;
                else if (k == 'X')
                    X[rest] += v;
                else if (k == 'K')
                    K[rest] += v;
                else if (k == 'P')
                    P.push_back(rest);
            }
        }
        std::string fj;
        int reproduced = 0, tries = 0;
        if (!found.empty()) {
            Found f = found[0];
            Shared* s2 = map_shared();
            double lim = f.sig == "hang" ? o.hang : std::min(o.hang, 60.);
            int reps = f.sig == "hang" ? 1 : 3;
            // replay from the recorded choices
            for (int k = 0; k < reps; k++) {
                tries++;
                int st = attempt(o, f.suite, f.seed, &f.choices, s2, lim, "");
                if (st == 3) {
                    reproduced++;
                    f.sig = s2->sig;
                    f.msg = s2->msg;
                    f.desc = s2->desc;
                }
            }
            if (reproduced == 0 && f.sig != "hang")
                for (int k = 0; k < 20 && !reproduced; k++) {
                    tries++;
                    int st = attempt(o, f.suite, f.seed, &f.choices, s2, lim, "");
                    if (st == 3) {
                        reproduced++;
                        f.sig = s2->sig;
                        f.msg = s2->msg;
                        f.desc = s2->desc;
                    }
                }
            if (reproduced >= reps && f.sig != "hang" && o.shrink > 0)
                f = shrink(o, f, s2, lim);
            fj = result_json(f, o.variant);
        }
        FILE* out = o.out.empty() ? stdout : fopen(o.out.c_str(), "w");
        if (!out)
            return 2;
        auto dump = [&](const char* name, std::map<std::string, long>& m) {
            fprintf(out, ",\"%s\":{", name);
            bool first = true;
            for (auto& k : m) {
                fprintf(out, "%s\"%s\":%ld", first ? "" : ",", jesc(k.first).c_str(), k.second);
                first = false;
            }
            fprintf(out, "}");
        };
        long reported = 0;
        for (int w = 0; w < W; w++)
            reported += sh[w]->evals;
        fprintf(out, "{\"variant\":\"%s\",\"evaluations\":%ld,\"executed\":%ld,\"discarded\":%ld,\"nontrivial\":%ld,\"distinct_nontrivial\":%zu,\"search_s\":%.2f,\"requested\":%ld,\"infra\":%s", jesc(o.variant).c_str(), E, reported, D, N, H.size(), searched, o.cases, infra ? "true" : "false");
        dump("labels", L);
        dump("suites", SU);
        dump("suites_nontrivial", NO);
        dump("suites_discarded", X);
        dump("known", K);
        fprintf(out, ",\"rules\":{");
        for (size_t k = 0; k < suites().size(); k++)
            fprintf(out, "%s\"%s\":\"%s\"", k ? "," : "", jesc(suites()[k].name).c_str(), jesc(suites()[k].rule).c_str());
        fprintf(out, "},\"samples\":[");
        for (size_t k = 0; k < P.size(); k++)
            fprintf(out, "%s\"%s\"", k ? "," : "", jesc(P[k]).c_str());
        fprintf(out, "],\"reproduced\":%d,\"replays\":%d,\"failure\":%s}\n", reproduced, tries, fj.empty() ? "null" : fj.c_str());
        if (out != stdout)
            fclose(out);
        return found.empty() ? 0 : 1;
    }
} // namespace pbt
int main(int argc, char** argv) { return pbt::run_main(argc, argv); }
#endif
#endif
