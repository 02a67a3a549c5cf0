// Small explicit enumeration engine shared by every check (see DESIGN.md, "Engine").
//
// A check is a list of families.  A family is a finite, indexable space of executions: `count(thorough)` says how many
// there are and `run(ctx, index)` performs execution number `index` against the code under test and checks it.
// Every index in [0, count) is executed exactly once per run; nothing is sampled.
#ifndef VERIF_MC_HPP
#define VERIF_MC_HPP

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <map>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc {

inline std::string fmt(const char* f, ...)
{
    char buf[4096];
    va_list ap;
    va_start(ap, f);
    vsnprintf(buf, sizeof buf, f, ap);
    va_end(ap);
    return buf;
}

struct Violation
{
    std::string key;
    std::string msg;
};

// FNV style mixing, used for state fingerprints
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdULL;
    h ^= h >> 32;
    return h;
}
inline uint64_t mixd(uint64_t h, double v)
{
    if (v == 0)
        v = 0;
    uint64_t u;
    std::memcpy(&u, &v, sizeof u);
    return mix(h, u);
}
inline uint64_t mixs(uint64_t h, const std::string& s)
{
    for (const char c: s)
        h = mix(h, (unsigned char)c);
    return h;
}

struct Ctx
{
    bool thorough = false;
    bool replay = false;
    uint64_t steps = 0; // transitions of this execution
    std::string trace;  // human readable history of this execution
    std::unordered_set<uint64_t>* states = nullptr;
    std::map<std::string, uint64_t>* outcomes = nullptr;
    std::map<std::string, uint64_t>* counters = nullptr;

    void step(const uint64_t n = 1) { steps += n; }
    // one distinct state of the system under test (fingerprint)
    void state(const uint64_t h)
    {
        if (states)
            states->insert(h);
    }
    void outcome(const std::string& s)
    {
        if (outcomes)
            (*outcomes)[s] += 1;
    }
    void count(const std::string& s, const uint64_t n = 1)
    {
        if (counters)
            (*counters)[s] += n;
    }
    void note(const char* f, ...)
    {
        char buf[2048];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        if (trace.size() < 60000)
        {
            trace += buf;
            trace += '\n';
        }
    }
    [[noreturn]] void fail(const std::string& key, const std::string& msg) { throw Violation {key, msg}; }
    void check(const bool ok, const char* key, const char* f, ...)
    {
        if (ok)
            return;
        char buf[4096];
        va_list ap;
        va_start(ap, f);
        vsnprintf(buf, sizeof buf, f, ap);
        va_end(ap);
        fail(key, buf);
    }
};

struct Family
{
    std::string name;
    std::function<uint64_t(bool thorough)> count;
    std::function<void(Ctx&, uint64_t)> run;
    double timeoutS = 60.0;
    uint64_t chunk = 0; // 0: automatic
    // states/transitions of the reference model itself, when the family replays a model (0 otherwise)
    std::function<void(bool thorough, uint64_t& modelStates, uint64_t& modelTransitions)> model = nullptr;
};

// Mixed radix decoding of an index: `Dec d(idx); int a = d(3), b = d(5);`
struct Dec
{
    uint64_t v;
    explicit Dec(const uint64_t idx) : v(idx) {}
    uint64_t operator()(const uint64_t radix)
    {
        const uint64_t r = v % radix;
        v /= radix;
        return r;
    }
};
inline uint64_t ipow(const uint64_t b, unsigned e)
{
    uint64_t r = 1;
    while (e--)
        r *= b;
    return r;
}
// number of words of length 0..n over an alphabet of k letters, and the decoding of one of them
inline uint64_t words_upto(const uint64_t k, const unsigned n)
{
    uint64_t t = 0;
    for (unsigned l = 0; l <= n; ++l)
        t += ipow(k, l);
    return t;
}
inline std::vector<int> word_upto(uint64_t idx, const uint64_t k)
{
    unsigned l = 0;
    while (idx >= ipow(k, l))
        idx -= ipow(k, l++);
    std::vector<int> w(l);
    for (unsigned i = 0; i < l; ++i)
    {
        w[l - 1 - i] = int(idx % k);
        idx /= k;
    }
    return w;
}

// Run a function in a child process and report how it ended (exit code, or 256+signal, or -1 on timeout).
inline int subprocess(const std::function<void()>& fn, const double timeoutS = 20)
{
    const pid_t p = fork();
    if (p == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        signal(SIGABRT, SIG_DFL);
        alarm(unsigned(timeoutS) + 1);
        fn();
        _exit(0);
    }
    int st = 0;
    waitpid(p, &st, 0);
    if (WIFSIGNALED(st))
        return WTERMSIG(st) == SIGALRM ? -1 : 256 + WTERMSIG(st);
    return WEXITSTATUS(st);
}

namespace detail {

struct Slot
{
    std::atomic<int64_t> family;
    std::atomic<int64_t> index; // -1 when idle
    std::atomic<double> start;
};
struct Shared
{
    std::atomic<uint64_t> next;
    std::atomic<uint64_t> executed;
    std::atomic<uint64_t> steps;
    std::atomic<int> stop;
    Slot slot[64];
};

inline double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (const char ch: s)
    {
        const unsigned char c = (unsigned char)ch;
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (c == '\n')
            o += "\\n";
        else if (c < 32 || c > 126)
            o += fmt("\\u%04x", c);
        else
            o += ch;
    }
    return o + "\"";
}

// executes one case in this process. Returns true when no violation
inline bool run_case(const Family& f, Ctx& ctx, const uint64_t idx, Violation& v)
{
    ctx.steps = 0;
    ctx.trace.clear();
    try
    {
        f.run(ctx, idx);
        return true;
    }
    catch (const Violation& x)
    {
        v = x;
    }
    catch (const std::exception& x)
    {
        v = {"uncaught-exception", std::string("the code under test let an exception escape: ") + x.what()};
    }
    catch (...)
    {
        v = {"uncaught-exception", "the code under test let an unknown exception escape"};
    }
    return false;
}

inline void silence(const std::string& to = "/dev/null")
{
    const int fd = open(to.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
    if (fd >= 0)
    {
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }
}

struct Report
{
    std::string family, key, msg, trace, how;
    uint64_t index;
    uint64_t from = UINT64_MAX;
};

// executes one case in a fresh child, returns "" when it holds, otherwise fills the report
inline bool confirm(const std::vector<Family>& fams,
                    const size_t fi,
                    const uint64_t idx,
                    const bool thorough,
                    const double limit,
                    const std::string& tmp,
                    Report& r,
                    const uint64_t from = UINT64_MAX)
{
    const std::string out = tmp + "/confirm";
    unlink(out.c_str());
    const pid_t p = fork();
    if (p == 0)
    {
        setpgid(0, 0);
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        silence(tmp + "/confirm.log");
        Ctx ctx;
        ctx.thorough = thorough;
        ctx.replay = true;
        Violation v;
        for (uint64_t i = from; i < idx; ++i)
            run_case(fams[fi], ctx, i, v);
        const bool ok = run_case(fams[fi], ctx, idx, v);
        FILE* o = fopen(out.c_str(), "w");
        fprintf(o, "%d\n%s\n%c%s%c%s%c", ok ? 0 : 1, v.key.c_str(), 1, v.msg.c_str(), 1, ctx.trace.c_str(), 1);
        fclose(o);
        _exit(42);
    }
    const double t0 = now();
    int st = 0;
    bool hung = false;
    while (true)
    {
        const pid_t q = waitpid(p, &st, WNOHANG);
        if (q == p)
            break;
        if (now() - t0 > limit)
        {
            hung = true;
            kill(-p, SIGKILL);
            kill(p, SIGKILL);
            waitpid(p, &st, 0);
            break;
        }
        usleep(2000);
    }
    kill(-p, SIGKILL);
    r.family = fams[fi].name;
    r.index = idx;
    if (hung)
    {
        r.key = "no-termination";
        r.msg = fmt("the execution did not end within %.0f s", limit);
        r.how = "timeout";
        return true;
    }
    if (WIFEXITED(st) and WEXITSTATUS(st) == 42)
    {
        FILE* i = fopen(out.c_str(), "r");
        std::string all;
        char buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, i)) > 0)
            all.append(buf, n);
        fclose(i);
        if (all[0] == '0')
            return false;
        const size_t a = all.find('\1');
        const size_t b = all.find('\1', a + 1);
        const size_t c = all.find('\1', b + 1);
        r.key = all.substr(2, a - 3);
        r.msg = all.substr(a + 1, b - a - 1);
        r.trace = all.substr(b + 1, c - b - 1);
        r.how = "oracle";
        return true;
    }
    std::string log;
    if (FILE* i = fopen((tmp + "/confirm.log").c_str(), "r"))
    {
        char buf[4096];
        size_t n;
        while ((n = fread(buf, 1, sizeof buf, i)) > 0)
            log.append(buf, n);
        fclose(i);
    }
    if (log.size() > 3000)
        log = log.substr(log.size() - 3000);
    r.trace = log;
    if (WIFSIGNALED(st))
    {
        r.key = fmt("crash-signal-%d", WTERMSIG(st));
        r.msg = fmt("the execution was ended by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
    }
    else
    {
        r.key = fmt("process-exit-%d", WEXITSTATUS(st));
        r.msg = fmt("the code under test ended the process with exit status %d", WEXITSTATUS(st));
    }
    r.how = "crash";
    return true;
}

} // namespace detail

inline int main_(int argc, char** argv, const std::vector<Family>& fams)
{
    using namespace detail;
    bool thorough = false;
    std::string out = "/dev/stdout", tmp = "/tmp", replayFam, only;
    uint64_t replayIdx = 0, replayFrom = 0;
    unsigned jobs = unsigned(sysconf(_SC_NPROCESSORS_ONLN));
    if (jobs < 1)
        jobs = 1;
    if (jobs > 60)
        jobs = 60;
    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        if (a == "--thorough")
            thorough = true;
        else if (a == "--out")
            out = argv[++i];
        else if (a == "--tmp")
            tmp = argv[++i];
        else if (a == "--only")
            only = argv[++i];
        else if (a == "--jobs")
            jobs = unsigned(atoi(argv[++i]));
        else if (a == "--replay")
        {
            replayFam = argv[++i];
            replayIdx = strtoull(argv[++i], nullptr, 10);
            replayFrom = replayIdx;
        }
        else if (a == "--from")
        {
            replayFrom = strtoull(argv[++i], nullptr, 10);
        }
    }
    std::cout << std::flush;
    if (not replayFam.empty())
    {
        for (const Family& f: fams)
            if (f.name == replayFam)
            {
                Ctx ctx;
                ctx.thorough = thorough;
                ctx.replay = true;
                Violation v;
                for (uint64_t i = replayFrom; i < replayIdx; ++i)
                    run_case(f, ctx, i, v);
                const bool ok = run_case(f, ctx, replayIdx, v);
                printf("%s", ctx.trace.c_str());
                if (ok)
                    printf("HOLDS family=%s index=%llu\n", f.name.c_str(), (unsigned long long)replayIdx);
                else
                    printf("VIOLATED family=%s index=%llu key=%s: %s\n",
                           f.name.c_str(),
                           (unsigned long long)replayIdx,
                           v.key.c_str(),
                           v.msg.c_str());
                fflush(stdout);
                _exit(ok ? 0 : 1);
            }
        fprintf(stderr, "no family %s\n", replayFam.c_str());
        return 2;
    }

    Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    FILE* o = fopen(out.c_str(), "w");
    if (not o)
        return 2;
    fprintf(o, "{\"families\":[");
    std::vector<Report> reports;
    std::unordered_set<uint64_t> allStates;
    uint64_t unreproduced = 0;
    bool first = true;
    const double tAll = now();
    for (size_t fi = 0; fi < fams.size(); ++fi)
    {
        const Family& f = fams[fi];
        if (not only.empty() and only != f.name)
            continue;
        const double t0 = now();
        const uint64_t n = f.count(thorough);
        uint64_t chunk = f.chunk ? f.chunk : n / (uint64_t(jobs) * 16);
        if (chunk < 1)
            chunk = 1;
        if (chunk > 4096)
            chunk = 4096;
        sh->next = 0;
        sh->executed = 0;
        sh->steps = 0;
        sh->stop = 0;
        std::vector<uint64_t> suspects;
        const unsigned nw = unsigned(std::min<uint64_t>(jobs, n));
        std::vector<pid_t> pid(nw, -1);
        std::vector<std::string> files;
        unsigned generation = 0;
        auto spawn = [&](unsigned w, uint64_t from = UINT64_MAX) {
            sh->slot[w].index = -1;
            const std::string file = tmp + fmt("/w%zu_%u_%u", fi, w, generation++);
            files.push_back(file);
            const pid_t p = fork();
            if (p == 0)
            {
                setpgid(0, 0);
                prctl(PR_SET_PDEATHSIG, SIGKILL);
                silence();
                std::unordered_set<uint64_t> states;
                std::map<std::string, uint64_t> outcomes, counters;
                Ctx ctx;
                ctx.thorough = thorough;
                ctx.states = &states;
                ctx.outcomes = &outcomes;
                ctx.counters = &counters;
                std::string bad;
                unsigned nbad = 0;
                std::string sample;
                // one chunk per process: every chunk starts from a pristine process, so that state that the code under
                // test keeps between executions is part of a replayable history (chunk start .. index)
                // (`from`: the rest of a chunk whose first part ended with the death of its process)
                const uint64_t a = from == UINT64_MAX ? sh->next.fetch_add(chunk) : from;
                const uint64_t end = std::min(n, a / chunk * chunk + chunk);
                if (a < n)
                {
                    for (uint64_t i = a; i < end and not sh->stop; ++i)
                    {
                        sh->slot[w].start = now();
                        sh->slot[w].index = int64_t(i);
                        Violation v;
                        if (not run_case(f, ctx, i, v))
                        {
                            bad += fmt("%llu\n", (unsigned long long)i);
                            if (++nbad >= 8)
                                sh->stop = 1;
                        }
                        sh->slot[w].index = -1;
                        sh->executed += 1;
                        sh->steps += ctx.steps;
                        if (sample.empty() and (i % 7 == 3 or i + 1 == n) and not ctx.trace.empty())
                            sample = fmt("%s#%llu: ", f.name.c_str(), (unsigned long long)i) + ctx.trace.substr(0, 700);
                    }
                }
                FILE* ff = fopen(file.c_str(), "w");
                fprintf(ff, "%u\n%s", nbad, bad.c_str());
                fprintf(ff, "%zu\n", states.size());
                for (const uint64_t s: states)
                    fwrite(&s, sizeof s, 1, ff);
                fprintf(ff, "\n%zu\n", outcomes.size());
                for (const auto& [k, c]: outcomes)
                    fprintf(ff, "%llu %s\n", (unsigned long long)c, k.c_str());
                fprintf(ff, "%zu\n", counters.size());
                for (const auto& [k, c]: counters)
                    fprintf(ff, "%llu %s\n", (unsigned long long)c, k.c_str());
                fprintf(ff, "%zu\n", sample.size());
                fwrite(sample.data(), 1, sample.size(), ff);
                fclose(ff);
                _exit(0);
            }
            pid[w] = p;
        };
        for (unsigned w = 0; w < nw; ++w)
            spawn(w);
        unsigned alive = nw;
        while (alive > 0)
        {
            bool did = false;
            for (unsigned w = 0; w < nw; ++w)
            {
                if (pid[w] < 0)
                    continue;
                int st = 0;
                const pid_t q = waitpid(pid[w], &st, WNOHANG);
                if (q == pid[w])
                {
                    did = true;
                    kill(-pid[w], SIGKILL);
                    pid[w] = -1;
                    const int64_t idx = sh->slot[w].index;
                    if (idx < 0 and not sh->stop and sh->next < n)
                    {
                        spawn(w);
                        continue;
                    }
                    if (idx >= 0)
                    {
                        // died in the middle of a case: another process takes the rest of its chunk
                        suspects.push_back(uint64_t(idx));
                        sh->executed += 1;
                        if (suspects.size() >= 4)
                            sh->stop = 1;
                        if (not sh->stop)
                        {
                            spawn(w, uint64_t(idx) + 1);
                            continue;
                        }
                    }
                    alive -= 1;
                }
                else
                {
                    const int64_t idx = sh->slot[w].index;
                    const double s = sh->slot[w].start;
                    if (idx >= 0 and now() - s > f.timeoutS and sh->slot[w].index == idx)
                    {
                        kill(-pid[w], SIGKILL);
                        kill(pid[w], SIGKILL);
                    }
                }
            }
            if (not did)
                usleep(2000);
        }
        std::map<std::string, uint64_t> outcomes, counters;
        std::unordered_set<uint64_t> states;
        std::vector<std::string> samples;
        for (const std::string& file: files)
        {
            FILE* ff = fopen(file.c_str(), "r");
            if (not ff)
                continue;
            unsigned nbad = 0;
            if (fscanf(ff, "%u", &nbad) != 1)
                nbad = 0;
            for (unsigned i = 0; i < nbad; ++i)
            {
                unsigned long long x;
                if (fscanf(ff, "%llu", &x) == 1)
                    suspects.push_back(x);
            }
            size_t ns = 0;
            if (fscanf(ff, "%zu", &ns) != 1)
                ns = 0;
            fgetc(ff);
            for (size_t i = 0; i < ns; ++i)
            {
                uint64_t s;
                if (fread(&s, sizeof s, 1, ff) == 1)
                    states.insert(s);
            }
            auto readMap = [&](std::map<std::string, uint64_t>& m) {
                size_t nm = 0;
                if (fscanf(ff, "%zu", &nm) != 1)
                    nm = 0;
                fgetc(ff);
                for (size_t i = 0; i < nm; ++i)
                {
                    char line[4096];
                    if (not fgets(line, sizeof line, ff))
                        break;
                    char* sp = strchr(line, ' ');
                    if (not sp)
                        continue;
                    std::string k = sp + 1;
                    if (not k.empty() and k.back() == '\n')
                        k.pop_back();
                    m[k] += strtoull(line, nullptr, 10);
                }
            };
            readMap(outcomes);
            readMap(counters);
            size_t nsamp = 0;
            if (fscanf(ff, "%zu", &nsamp) == 1 and nsamp > 0 and nsamp < 100000)
            {
                fgetc(ff);
                std::string s(nsamp, 0);
                if (fread(s.data(), 1, nsamp, ff) == nsamp and samples.size() < 3)
                    samples.push_back(s);
            }
            fclose(ff);
            unlink(file.c_str());
        }
        for (const uint64_t s: states)
            allStates.insert(mixs(s, f.name));
        std::sort(suspects.begin(), suspects.end());
        suspects.erase(std::unique(suspects.begin(), suspects.end()), suspects.end());
        const size_t before = reports.size();
        for (const uint64_t s: suspects)
        {
            if (reports.size() >= 6 + before)
                break;
            Report r;
            // a fresh process, a longer limit
            if (confirm(fams, fi, s, thorough, f.timeoutS * 2, tmp, r))
                reports.push_back(r);
            else if (confirm(fams, fi, s, thorough, f.timeoutS * 4, tmp, r, s / chunk * chunk))
            {
                r.from = s / chunk * chunk;
                r.msg += fmt(" (only after executions %llu..%llu of the family in the same process)",
                             (unsigned long long)r.from,
                             (unsigned long long)s - 1);
                reports.push_back(r);
            }
            else
                unreproduced += 1;
        }
        uint64_t ms = 0, mt = 0;
        if (f.model)
            f.model(thorough, ms, mt);
        fprintf(o,
                "%s\n{\"name\":%s,\"size\":%llu,\"executed\":%llu,\"steps\":%llu,\"states\":%zu,\"modelStates\":%llu,"
                "\"modelTransitions\":%llu,\"complete\":%s,\"wall\":%.2f,\"outcomes\":{",
                first ? "" : ",",
                jstr(f.name).c_str(),
                (unsigned long long)n,
                (unsigned long long)sh->executed.load(),
                (unsigned long long)sh->steps.load(),
                states.size(),
                (unsigned long long)ms,
                (unsigned long long)mt,
                sh->stop ? "false" : "true",
                now() - t0);
        first = false;
        bool c = false;
        for (const auto& [k, v]: outcomes)
        {
            fprintf(o, "%s%s:%llu", c ? "," : "", jstr(k).c_str(), (unsigned long long)v);
            c = true;
        }
        fprintf(o, "},\"counters\":{");
        c = false;
        for (const auto& [k, v]: counters)
        {
            fprintf(o, "%s%s:%llu", c ? "," : "", jstr(k).c_str(), (unsigned long long)v);
            c = true;
        }
        fprintf(o, "},\"samples\":[");
        c = false;
        for (const std::string& s: samples)
        {
            fprintf(o, "%s%s", c ? "," : "", jstr(s).c_str());
            c = true;
        }
        fprintf(o, "]}");
        fflush(o);
        if (reports.size() >= 24)
            break;
    }
    fprintf(o, "],\"states\":%zu,\"unreproduced\":%llu,\"wall\":%.2f,\"violations\":[", allStates.size(), (unsigned long long)unreproduced, now() - tAll);
    first = true;
    for (const Report& r: reports)
    {
        fprintf(o,
                "%s\n{\"family\":%s,\"index\":%llu,\"from\":%llu,\"key\":%s,\"how\":%s,\"message\":%s,\"trace\":%s}",
                first ? "" : ",",
                jstr(r.family).c_str(),
                (unsigned long long)r.index,
                (unsigned long long)std::min(r.from, r.index),
                jstr(r.key).c_str(),
                jstr(r.how).c_str(),
                jstr(r.msg).c_str(),
                jstr(r.trace).c_str());
        first = false;
    }
    fprintf(o, "]}\n");
    fclose(o);
    fflush(stdout);
    _exit(reports.empty() ? 0 : 1);
}

} // namespace mc

#endif
