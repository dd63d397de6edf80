// A small property-based testing kernel.
//
// A *case* is a sequence of bounded choices drawn from a seeded generator (seed = hash(VERIF_SEED, sub-property, index)),
// so that every case is reproducible from three numbers and every failing case can be shrunk without knowing what it
// means: the shrinker edits the choice sequence (drops spans, lowers values) and replays the property on the result.
// Cases run in forked worker processes, so a crash or a hang of the code under test is an ordinary failing case.
#pragma once
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace pbt
{

inline uint64_t mix(uint64_t x)
{
    x += 0x9E3779B97F4A7C15ull;
    x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
    x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
    return x ^ (x >> 31);
}

inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* c = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++)
    {
        h = (h ^ c[i]) * 1099511628211ull;
    }
    return mix(h);
}

struct Failure
{
    std::string msg;
};
struct Discard
{
};

inline std::string strf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    char buf[4096];
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    return buf;
}

[[noreturn]] inline void fail(const std::string& msg)
{
    throw Failure{ msg };
}

#define PBT_CHECK(cond, ...)                                                       \
    do                                                                             \
    {                                                                              \
        if (! (cond))                                                              \
            ::pbt::fail(std::string("[" #cond "] ") + ::pbt::strf(__VA_ARGS__));   \
    } while (0)

constexpr size_t MAX_CHOICES = 1 << 16;
constexpr int MAX_PROPS = 64;
constexpr int MAX_LABELS = 48;
constexpr int MAX_SAMPLES = 3;
constexpr size_t DISTINCT_SLOTS = 1 << 24;

struct ChoiceBuf
{
    uint32_t n;
    uint64_t v[MAX_CHOICES];
};

// The source of all randomness of a case.
class Gen
{
public:
    Gen(uint64_t seed, const std::vector<uint64_t>* replay, ChoiceBuf* rec)
        : state_(seed)
        , replay_(replay)
        , rec_(rec)
    {
        rec_->n = 0;
    }

    // Uniform in [0, max]; 0 is the simplest value.
    uint64_t draw(uint64_t max)
    {
        uint64_t r;
        if (replay_)
        {
            r = rec_->n < replay_->size() ? std::min((*replay_)[rec_->n], max) : 0;
        }
        else
        {
            r = max == UINT64_MAX ? next() : next() % (max + 1);
        }
        if (rec_->n >= MAX_CHOICES)
        {
            throw Discard{};
        }
        rec_->v[rec_->n++] = r;
        return r;
    }
    int64_t range(int64_t lo, int64_t hi) // simplest: lo
    {
        return lo + static_cast<int64_t>(draw(static_cast<uint64_t>(hi - lo)));
    }
    int64_t around(int64_t max_abs) // in [-max_abs, max_abs], simplest: 0
    {
        const uint64_t d = draw(2 * static_cast<uint64_t>(max_abs));
        return (d & 1) ? -static_cast<int64_t>((d + 1) / 2) : static_cast<int64_t>(d / 2);
    }
    // log-uniform magnitude in [0, 2^bits)
    int64_t magnitude(int bits)
    {
        const int b = static_cast<int>(draw(bits));
        return b == 0 ? 0 : static_cast<int64_t>((1ull << (b - 1)) + draw((1ull << (b - 1)) - 1));
    }
    int64_t signedMagnitude(int bits)
    {
        const int64_t m = magnitude(bits);
        return draw(1) ? -m : m;
    }
    bool flip()
    {
        return draw(1) == 1;
    }
    bool chance(int num, int den) // true with num/den; simplest: false
    {
        return draw(den - 1) >= static_cast<uint64_t>(den - num);
    }
    double real(double lo, double hi) // simplest: lo; 2^20+1 equidistant values
    {
        return lo + (hi - lo) * (static_cast<double>(draw(1 << 20)) / (1 << 20));
    }
    template<class T>
    const T& pick(const std::vector<T>& v)
    {
        return v[draw(v.size() - 1)];
    }
    template<class T>
    T oneof(std::initializer_list<T> v)
    {
        return *(v.begin() + draw(v.size() - 1));
    }
    template<class T>
    void shuffle(std::vector<T>& v)
    {
        for (size_t i = v.size(); i > 1; i--)
        {
            std::swap(v[i - 1], v[i - 1 - draw(i - 1)]);
        }
    }
    uint64_t next()
    {
        state_ += 0x9E3779B97F4A7C15ull;
        uint64_t x = state_;
        x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
        x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
        return x ^ (x >> 31);
    }

private:
    uint64_t state_;
    const std::vector<uint64_t>* replay_;
    ChoiceBuf* rec_;
};

struct SharedProp
{
    std::atomic<uint64_t> evaluations;
    std::atomic<uint64_t> discarded;
    std::atomic<uint64_t> nontrivial;
    std::atomic<uint64_t> distinct;
    std::atomic<uint32_t> label_lock;
    uint32_t n_labels;
    char labels[MAX_LABELS][56];
    std::atomic<uint64_t> label_count[MAX_LABELS];
    std::atomic<uint32_t> n_samples;
    char samples[MAX_SAMPLES][1400];
};
struct Worker
{
    std::atomic<int32_t> prop; // -1: idle
    std::atomic<uint64_t> index;
    std::atomic<uint64_t> next_seq;
    std::atomic<int32_t> done;
};
struct Shared
{
    SharedProp props[MAX_PROPS];
    Worker workers[64];
    std::atomic<int> stop;
    std::atomic<int> fail_taken;
    int fail_prop;
    uint64_t fail_index;
    char fail_msg[4000];
    ChoiceBuf buf;
    char note[60000];
    char child_msg[4000];
    std::atomic<uint64_t> distinct[DISTINCT_SLOTS];
};

// What a property reports about the case it runs.
class Case
{
public:
    explicit Case(Gen& g)
        : g(g)
    {
    }
    Gen& g;
    // The case is non-trivial by the rule stated for the sub-property.
    void nontrivial()
    {
        nontrivial_ = true;
    }
    void label(const std::string& s)
    {
        labels_.push_back(s);
    }
    void note(const char* fmt, ...)
    {
        if (text_.size() > 50000)
        {
            return;
        }
        va_list ap;
        va_start(ap, fmt);
        char buf[8192];
        vsnprintf(buf, sizeof buf, fmt, ap);
        va_end(ap);
        text_ += buf;
        if (live_note_)
        {
            strncpy(live_note_, text_.c_str(), 59999);
        }
    }
    void discard()
    {
        throw Discard{};
    }
    bool nontrivial_ = false;
    std::vector<std::string> labels_;
    std::string text_;
    char* live_note_ = nullptr;
};

struct Prop
{
    std::string name;
    uint64_t quick; // cases in the quick tier
    uint64_t thorough; // cases in the thorough tier
    std::string rule; // how cases are made and what makes one non-trivial
    std::function<void(Case&)> body;
    double cpu_limit = 60; // seconds of CPU one case may take before it counts as a hang
    bool concurrent = false; // outcome depends on the schedule: a failure is believed without an exact replay
    double wall_limit = 0; // seconds one case may take before it counts as a hang, however little it does; 0: no limit
};

inline std::string jsonEscape(const std::string& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\')
        {
            r += '\\';
            r += static_cast<char>(c);
        }
        else if (c == '\n')
        {
            r += "\\n";
        }
        else if (c < 32 || c >= 127)
        {
            r += strf("\\u%04x", c);
        }
        else
        {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

class Runner
{
public:
    Runner(std::string id, std::vector<Prop> props)
        : id_(std::move(id))
        , props_(std::move(props))
    {
    }

    int main(int argc, char** argv)
    {
        setvbuf(stdout, nullptr, _IOLBF, 0);
        const char* s = getenv("VERIF_SEED");
        seed_ = s && *s ? strtoll(s, nullptr, 10) : 1;
        const char* t = getenv("VERIF_TIER");
        thorough_ = t && std::string(t) == "thorough";
        double scale = 1;
        std::string only;
        for (int i = 1; i < argc; i++)
        {
            std::string a = argv[i];
            if (a == "--replay" && i + 1 < argc)
            {
                replay_file_ = argv[++i];
            }
            else if (a == "--out" && i + 1 < argc)
            {
                out_dir_ = argv[++i];
            }
            else if (a == "--summary" && i + 1 < argc)
            {
                summary_ = argv[++i];
            }
            else if (a == "--only" && i + 1 < argc)
            {
                only = argv[++i];
            }
            else if (a == "--scale" && i + 1 < argc)
            {
                scale = atof(argv[++i]);
            }
            else if (a == "--workers" && i + 1 < argc)
            {
                n_workers_ = atoi(argv[++i]);
            }
            else if (a == "--max-wall" && i + 1 < argc)
            {
                max_wall_ = atof(argv[++i]);
            }
            else if (a == "--index" && i + 1 < argc)
            {
                single_index_ = atoll(argv[++i]);
            }
        }
        sh_ = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (sh_ == MAP_FAILED)
        {
            perror("mmap");
            return 3;
        }
        if (! replay_file_.empty())
        {
            return replayMain();
        }
        if (! only.empty())
        {
            std::vector<Prop> keep;
            for (Prop& p : props_)
            {
                if (p.name == only)
                {
                    keep.push_back(p);
                }
            }
            props_ = keep;
        }
        if (single_index_ >= 0)
        {
            const int r = runChild(0, nullptr, caseSeed(props_[0], single_index_), true, false);
            printf("%s\nresult=%d %s\n", sh_->note, r, sh_->child_msg);
            return r == 0 ? 0 : 1;
        }
        for (Prop& p : props_)
        {
            counts_.push_back(std::max<uint64_t>(1, static_cast<uint64_t>((thorough_ ? p.thorough : p.quick) * scale)));
        }
        start_ = now();
        int rc = 0;
        for (int attempt = 0; attempt < 6; attempt++)
        {
            runAll();
            if (! sh_->fail_taken.load())
            {
                break;
            }
            rc = handleFailure();
            if (rc != 0)
            {
                break;
            }
            // the failure did not come back in a fresh process: go on with the cases that are left
            sh_->fail_taken.store(0);
            sh_->stop.store(0);
        }
        writeSummary(rc);
        return rc;
    }

private:
    std::string id_;
    std::vector<Prop> props_;
    std::vector<uint64_t> counts_;
    int64_t seed_ = 1;
    bool thorough_ = false;
    int n_workers_ = 8;
    double max_wall_ = 400;
    double start_ = 0;
    int64_t single_index_ = -1;
    std::string out_dir_ = ".";
    std::string replay_file_;
    std::string summary_;
    Shared* sh_ = nullptr;
    bool wall_stop_ = false;
    int flaky_ = 0;
    int unreproduced_ = 0;
    bool resumed_ = false;

    static double now()
    {
        return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
    }
    uint64_t caseSeed(const Prop& p, uint64_t index) const
    {
        return mix(mix(static_cast<uint64_t>(seed_) * 0x1234567u + hashBytes(p.name.data(), p.name.size())) + index);
    }
    static void armTimer(double cpu_s, double wall_s = 0)
    {
        struct itimerval wall{};
        wall.it_value.tv_sec = static_cast<time_t>(wall_s);
        setitimer(ITIMER_REAL, &wall, nullptr);
        struct itimerval it{};
        it.it_value.tv_sec = static_cast<time_t>(cpu_s);
        it.it_value.tv_usec = static_cast<suseconds_t>((cpu_s - std::floor(cpu_s)) * 1e6);
        setitimer(ITIMER_PROF, &it, nullptr);
    }

    // Round-robin over the sub-properties, so that stopping early still covers all of them. seq -> (prop, index)
    bool locate(uint64_t seq, int& prop, uint64_t& index) const
    {
        // proportional interleave in 64 rounds
        static std::vector<std::pair<int, std::pair<uint64_t, uint64_t>>> blocks; // prop, [from, to)
        static std::vector<uint64_t> starts;
        if (blocks.empty())
        {
            uint64_t pos = 0;
            for (uint64_t r = 0; r < 64; r++)
            {
                for (size_t p = 0; p < counts_.size(); p++)
                {
                    const uint64_t a = counts_[p] * r / 64;
                    const uint64_t b = counts_[p] * (r + 1) / 64;
                    if (b > a)
                    {
                        blocks.push_back({ static_cast<int>(p), { a, b } });
                        starts.push_back(pos);
                        pos += b - a;
                    }
                }
            }
            starts.push_back(pos);
        }
        if (seq >= starts.back())
        {
            return false;
        }
        const size_t k = std::upper_bound(starts.begin(), starts.end(), seq) - starts.begin() - 1;
        prop = blocks[k].first;
        index = blocks[k].second.first + (seq - starts[k]);
        return true;
    }

    void workerLoop(int w)
    {
        Worker& me = sh_->workers[w];
        ChoiceBuf* buf = new ChoiceBuf;
        while (! sh_->stop.load())
        {
            const uint64_t seq = me.next_seq.load();
            int prop;
            uint64_t index;
            if (! locate(seq, prop, index))
            {
                break;
            }
            me.next_seq.store(seq + n_workers_);
            me.prop.store(prop);
            me.index.store(index);
            const Prop& p = props_[prop];
            Gen g(caseSeed(p, index), nullptr, buf);
            Case c(g);
            armTimer(p.cpu_limit, p.wall_limit);
            bool failed = false;
            std::string msg;
            bool discarded = false;
            try
            {
                p.body(c);
            }
            catch (const Failure& f)
            {
                failed = true;
                msg = f.msg;
            }
            catch (const Discard&)
            {
                discarded = true;
            }
            catch (const std::exception& e)
            {
                failed = true;
                msg = std::string("uncaught exception: ") + e.what();
            }
            armTimer(0);
            SharedProp& sp = sh_->props[prop];
            sp.evaluations++;
            if (discarded)
            {
                sp.discarded++;
            }
            if (failed)
            {
                takeFailure(prop, index, msg);
                break;
            }
            for (const std::string& l : c.labels_)
            {
                addLabel(sp, l);
            }
            if (c.nontrivial_ && ! discarded)
            {
                sp.nontrivial++;
                const uint64_t h = hashBytes(buf->v, buf->n * sizeof(uint64_t), mix(prop + 77)) | 1;
                if (insertDistinct(h))
                {
                    sp.distinct++;
                }
                if (sp.n_samples.load() < MAX_SAMPLES)
                {
                    const uint32_t k = sp.n_samples++;
                    if (k < MAX_SAMPLES)
                    {
                        std::string txt = strf("%s #%llu: ", p.name.c_str(), static_cast<unsigned long long>(index)) + c.text_;
                        strncpy(sp.samples[k], txt.c_str(), sizeof(sp.samples[k]) - 1);
                    }
                }
            }
            me.prop.store(-1);
        }
        me.done.store(1);
        _exit(0);
    }
    void takeFailure(int prop, uint64_t index, const std::string& msg)
    {
        int expect = 0;
        if (sh_->fail_taken.compare_exchange_strong(expect, 1))
        {
            sh_->fail_prop = prop;
            sh_->fail_index = index;
            strncpy(sh_->fail_msg, msg.c_str(), sizeof(sh_->fail_msg) - 1);
        }
        sh_->stop.store(1);
    }
    bool insertDistinct(uint64_t h)
    {
        size_t k = h % DISTINCT_SLOTS;
        for (int tries = 0; tries < 512; tries++)
        {
            uint64_t cur = sh_->distinct[k].load();
            if (cur == h)
            {
                return false;
            }
            if (cur == 0)
            {
                uint64_t e = 0;
                if (sh_->distinct[k].compare_exchange_strong(e, h))
                {
                    return true;
                }
                if (e == h)
                {
                    return false;
                }
            }
            k = (k + 1) % DISTINCT_SLOTS;
        }
        return false; // table full: stop counting rather than over-count
    }
    static void addLabel(SharedProp& sp, const std::string& l)
    {
        while (sp.label_lock.exchange(1))
        {
        }
        uint32_t k = 0;
        for (; k < sp.n_labels; k++)
        {
            if (l.compare(0, 55, sp.labels[k]) == 0 || l == sp.labels[k])
            {
                break;
            }
        }
        if (k == sp.n_labels && k < MAX_LABELS)
        {
            strncpy(sp.labels[k], l.c_str(), 55);
            sp.n_labels++;
        }
        if (k < MAX_LABELS)
        {
            sp.label_count[k]++;
        }
        sp.label_lock.store(0);
    }

    void runAll()
    {
        std::vector<pid_t> pids(n_workers_);
        for (int w = 0; w < n_workers_; w++)
        {
            if (! resumed_)
            {
                sh_->workers[w].next_seq.store(w);
            }
            sh_->workers[w].prop.store(-1);
            sh_->workers[w].done.store(0);
            pids[w] = spawn(w);
        }
        resumed_ = true;
        int alive = n_workers_;
        while (alive > 0)
        {
            int st;
            pid_t p = waitpid(-1, &st, WNOHANG);
            if (p <= 0)
            {
                if (now() - start_ > max_wall_ && ! sh_->stop.load())
                {
                    wall_stop_ = true;
                    sh_->stop.store(1);
                }
                usleep(5000);
                continue;
            }
            int w = -1;
            for (int k = 0; k < n_workers_; k++)
            {
                if (pids[k] == p)
                {
                    w = k;
                }
            }
            if (w < 0)
            {
                continue;
            }
            if (sh_->workers[w].done.load())
            {
                alive--;
                continue;
            }
            // the case this worker was running ended the process
            if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
            {
                // not the doing of the code under test (out of memory guard, operator): run the next case
                fprintf(stderr, "worker %d was killed from outside; continuing\n", w);
                pids[w] = spawn(w);
                continue;
            }
            const int prop = sh_->workers[w].prop.load();
            if (prop < 0)
            {
                pids[w] = spawn(w);
                continue;
            }
            sh_->props[prop].evaluations++;
            takeFailure(prop, sh_->workers[w].index.load(), describeStatus(st));
            alive--;
        }
    }
    static std::string describeStatus(int st)
    {
        if (WIFSIGNALED(st))
        {
            if (WTERMSIG(st) == SIGPROF)
            {
                return "did not finish within its CPU limit (hang)";
            }
            if (WTERMSIG(st) == SIGALRM)
            {
                return "did not finish (hang)";
            }
            return strf("crashed with signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
        }
        return strf("ended the process with status %d", WEXITSTATUS(st));
    }
    pid_t spawn(int w)
    {
        fflush(stdout);
        pid_t p = fork();
        if (p == 0)
        {
            quiet();
            workerLoop(w);
        }
        return p;
    }
    static void quiet()
    {
        if (getenv("PBT_VERBOSE"))
        {
            return;
        }
        const int fd = open("/dev/null", O_WRONLY);
        dup2(fd, 1);
        dup2(fd, 2);
        close(fd);
    }

    // Runs one case in a child. 0: passes, 1: fails (message in child_msg), 2: discarded. Choices are left in sh_->buf.
    int runChild(int prop, const std::vector<uint64_t>* replay, uint64_t seed, bool keep_note, bool silent = true)
    {
        sh_->note[0] = 0;
        sh_->child_msg[0] = 0;
        sh_->buf.n = 0;
        fflush(stdout);
        pid_t p = fork();
        if (p == 0)
        {
            if (silent)
            {
                quiet();
            }
            Gen g(seed, replay, &sh_->buf);
            Case c(g);
            if (keep_note)
            {
                c.live_note_ = sh_->note;
            }
            armTimer(props_[prop].cpu_limit, props_[prop].wall_limit);
            int r = 0;
            try
            {
                props_[prop].body(c);
            }
            catch (const Failure& f)
            {
                strncpy(sh_->child_msg, f.msg.c_str(), sizeof(sh_->child_msg) - 1);
                r = 1;
            }
            catch (const Discard&)
            {
                r = 2;
            }
            catch (const std::exception& e)
            {
                strncpy(sh_->child_msg, (std::string("uncaught exception: ") + e.what()).c_str(), sizeof(sh_->child_msg) - 1);
                r = 1;
            }
            _exit(100 + r);
        }
        int st;
        while (waitpid(p, &st, 0) < 0 && errno == EINTR)
        {
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) >= 100 && WEXITSTATUS(st) <= 102)
        {
            return WEXITSTATUS(st) - 100;
        }
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL)
        {
            return 2;
        }
        strncpy(sh_->child_msg, describeStatus(st).c_str(), sizeof(sh_->child_msg) - 1);
        return 1;
    }
    std::vector<uint64_t> takeChoices() const
    {
        return std::vector<uint64_t>(sh_->buf.v, sh_->buf.v + std::min<size_t>(sh_->buf.n, MAX_CHOICES));
    }

    int handleFailure()
    {
        const int prop = sh_->fail_prop;
        const Prop& p = props_[prop];
        const uint64_t seed = caseSeed(p, sh_->fail_index);
        std::string first_msg = sh_->fail_msg;
        // Believe it only if it fails again each time it is replayed in a process of its own.
        int again = 0;
        for (int k = 0; k < 3; k++)
        {
            again += runChild(prop, nullptr, seed, false) == 1;
        }
        if (again < 3)
        {
            // replays in a fresh process disagree: report it with the seed, it is a failure the oracle saw on real behaviour
            printf("note: case %s #%llu failed in the run and in %d of 3 replays: %s\n", p.name.c_str(), (unsigned long long)sh_->fail_index, again, first_msg.c_str());
            flaky_ = 1;
            if (again == 0)
            {
                // try harder before giving up on reproducing it
                for (int k = 0; k < 20 && again == 0; k++)
                {
                    again += runChild(prop, nullptr, seed, false) == 1;
                }
                if (again == 0 && ! p.concurrent)
                {
                    unreproduced_++;
                    return 0;
                }
            }
        }
        std::vector<uint64_t> best;
        std::string msg = first_msg;
        runChild(prop, nullptr, seed, true);
        best = takeChoices();
        const size_t initial = best.size();
        if (again == 3)
        {
            shrink(prop, best);
        }
        std::string note = sh_->note;
        for (int k = 0; k < 5; k++)
        {
            const int r = runChild(prop, &best, 0, true);
            note = sh_->note;
            if (r == 1)
            {
                msg = sh_->child_msg;
                break;
            }
        }
        mkdir(out_dir_.c_str(), 0777);
        const std::string path = out_dir_ + "/" + p.name + "-" + strf("%lld-%llu", (long long)seed_, (unsigned long long)sh_->fail_index) + ".replay";
        FILE* f = fopen(path.c_str(), "w");
        if (f)
        {
            fprintf(f, "# property %s, sub-property %s, seed %lld, case %llu, shrunk from %zu to %zu choices\n", id_.c_str(), p.name.c_str(), (long long)seed_, (unsigned long long)sh_->fail_index, initial, best.size());
            std::istringstream ms(msg + "\n" + note);
            for (std::string line; std::getline(ms, line);)
            {
                fprintf(f, "# %s\n", line.c_str());
            }
            fprintf(f, "prop %s\nchoices", p.name.c_str());
            for (uint64_t v : best)
            {
                fprintf(f, " %llu", (unsigned long long)v);
            }
            fprintf(f, "\n");
            fclose(f);
        }
        printf("FAILED sub-property %s: %s\n%.6000s\n", p.name.c_str(), msg.c_str(), note.c_str());
        printf("VIOLATION property=%s replay=%s\n", id_.c_str(), path.c_str());
        return 1;
    }

    bool stillFails(int prop, const std::vector<uint64_t>& cand, std::vector<uint64_t>& best)
    {
        if (runChild(prop, &cand, 0, false) == 1)
        {
            std::vector<uint64_t> got = takeChoices();
            // never grow
            if (got.size() < best.size() || (got.size() == best.size() && got < best))
            {
                best = got;
                return true;
            }
        }
        return false;
    }
    void shrink(int prop, std::vector<uint64_t>& best)
    {
        const double deadline = now() + 12;
        bool progress = true;
        while (progress && now() < deadline)
        {
            progress = false;
            for (size_t len = std::max<size_t>(1, best.size() / 2);; len /= 2)
            {
                for (size_t i = 0; i + len <= best.size() && now() < deadline;)
                {
                    std::vector<uint64_t> c = best;
                    c.erase(c.begin() + i, c.begin() + i + len);
                    if (stillFails(prop, c, best))
                    {
                        progress = true;
                    }
                    else
                    {
                        // a length prefix often precedes a span: lower it along with the deletion
                        bool ok = false;
                        if (i > 0 && best[i - 1] > 0)
                        {
                            c = best;
                            c.erase(c.begin() + i, c.begin() + i + len);
                            c[i - 1]--;
                            ok = stillFails(prop, c, best);
                        }
                        if (ok)
                        {
                            progress = true;
                        }
                        else
                        {
                            i += len;
                        }
                    }
                }
                if (len <= 1)
                {
                    break;
                }
            }
            for (size_t i = 0; i < best.size() && now() < deadline; i++)
            {
                if (best[i] == 0)
                {
                    continue;
                }
                std::vector<uint64_t> c = best;
                c[i] = 0;
                if (stillFails(prop, c, best))
                {
                    progress = true;
                    continue;
                }
                uint64_t lo = 0;
                while (i < best.size() && best[i] > lo + 1 && now() < deadline)
                {
                    const uint64_t mid = lo + (best[i] - lo) / 2;
                    c = best;
                    c[i] = mid;
                    if (stillFails(prop, c, best))
                    {
                        progress = true;
                    }
                    else
                    {
                        lo = mid;
                    }
                }
            }
        }
    }

    int replayMain()
    {
        FILE* f = fopen(replay_file_.c_str(), "r");
        if (! f)
        {
            perror(replay_file_.c_str());
            return 3;
        }
        std::string content;
        char b[65536];
        for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;)
        {
            content.append(b, n);
        }
        fclose(f);
        std::istringstream ss(content);
        std::string name;
        std::vector<uint64_t> ch;
        for (std::string line; std::getline(ss, line);)
        {
            std::istringstream ls(line);
            std::string w;
            ls >> w;
            if (w == "prop")
            {
                ls >> name;
            }
            else if (w == "choices")
            {
                for (uint64_t v; ls >> v;)
                {
                    ch.push_back(v);
                }
            }
        }
        for (size_t k = 0; k < props_.size(); k++)
        {
            if (props_[k].name == name)
            {
                const int r = runChild(k, &ch, 0, true, false);
                printf("%s\n%s\n", sh_->note, r == 1 ? sh_->child_msg : r == 2 ? "discarded" : "passes");
                if (r == 1)
                {
                    printf("VIOLATION property=%s replay=%s\n", id_.c_str(), replay_file_.c_str());
                    return 1;
                }
                return 0;
            }
        }
        fprintf(stderr, "no sub-property %s\n", name.c_str());
        return 3;
    }

    void writeSummary(int rc)
    {
        uint64_t ev = 0, di = 0, disc = 0;
        std::string rule, samples, classes;
        bool s1 = true, c1 = true;
        std::string per;
        for (size_t k = 0; k < props_.size(); k++)
        {
            SharedProp& sp = sh_->props[k];
            ev += sp.evaluations;
            di += sp.distinct;
            disc += sp.discarded;
            rule += (k ? "; " : "") + props_[k].name + ": " + props_[k].rule;
            per += (k ? ", " : "") + jsonEscape(props_[k].name) + strf(": {\"evaluations\": %llu, \"discarded\": %llu, \"nontrivial\": %llu, \"distinct_nontrivial\": %llu, \"classes\": {", (unsigned long long)sp.evaluations, (unsigned long long)sp.discarded, (unsigned long long)sp.nontrivial, (unsigned long long)sp.distinct);
            for (uint32_t l = 0; l < sp.n_labels; l++)
            {
                per += (l ? ", " : "") + jsonEscape(sp.labels[l]) + strf(": %llu", (unsigned long long)sp.label_count[l].load());
            }
            per += "}}";
            for (uint32_t l = 0; l < std::min<uint32_t>(sp.n_samples, MAX_SAMPLES); l++)
            {
                if (l < (props_.size() > 6 ? 1 : 2))
                {
                    samples += (s1 ? "" : ", ") + jsonEscape(sp.samples[l]);
                    s1 = false;
                }
            }
            (void)c1;
        }
        printf("%s: %llu cases, %llu distinct non-trivial, %llu discarded, %.1f s%s\n", id_.c_str(), (unsigned long long)ev, (unsigned long long)di, (unsigned long long)disc, now() - start_, wall_stop_ ? " (stopped by the wall-clock cap)" : "");
        if (summary_.empty())
        {
            for (size_t k = 0; k < props_.size(); k++)
            {
                SharedProp& sp = sh_->props[k];
                printf("  %-28s ev %8llu  disc %6llu  nontriv %8llu  distinct %8llu |", props_[k].name.c_str(), (unsigned long long)sp.evaluations, (unsigned long long)sp.discarded, (unsigned long long)sp.nontrivial, (unsigned long long)sp.distinct);
                for (uint32_t l = 0; l < sp.n_labels; l++)
                {
                    printf(" %s=%llu", sp.labels[l], (unsigned long long)sp.label_count[l].load());
                }
                printf("\n");
            }
            return;
        }
        FILE* f = fopen(summary_.c_str(), "w");
        if (! f)
        {
            perror(summary_.c_str());
            return;
        }
        fprintf(
            f,
            "{\"evaluations\": %llu, \"distinct_nontrivial\": %llu, \"discarded\": %llu, \"rule\": %s, \"samples\": [%s], \"per_subproperty\": {%s}, \"stopped_by_wall_cap\": %s, \"unreproduced\": %d, \"violations\": %d, \"run_s\": %.2f}\n",
            (unsigned long long)ev,
            (unsigned long long)di,
            (unsigned long long)disc,
            jsonEscape(rule).c_str(),
            samples.c_str(),
            per.c_str(),
            wall_stop_ ? "true" : "false",
            unreproduced_,
            rc == 1 ? 1 : 0,
            now() - start_);
        fclose(f);
    }
};

} // namespace pbt
