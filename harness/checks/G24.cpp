// G24 work shared between threads is done once, and in order where it has to
// SOURCES: ALL
#include <atomic>
#include <chrono>
#include <deque>
#include <mutex>
#include <optional>
#include <thread>

#include "engine_geo.h"
#include "geo.h"

#include "Application.h"
#include "utils/ThreadPool.h"

using namespace cura;
using namespace pbt;

static std::string num(long long v)
{
    return std::to_string(v);
}
// How long each piece of work takes, so that threads overtake each other
struct Pace
{
    std::vector<int> us;
    void operator()(size_t i) const
    {
        const int t = us[i % us.size()];
        if (t == 1)
            std::this_thread::yield();
        else if (t > 1)
            std::this_thread::sleep_for(std::chrono::microseconds(t));
    }
};
static Pace genPace(Gen& g)
{
    Pace p;
    const int n = (int)g.range((int64_t)1, (int64_t)12), kind = (int)g.draw(3);
    for (int i = 0; i < n; i++)
        p.us.push_back(kind == 0 ? 0 : kind == 1 ? (int)g.draw(1) : g.chance(1, kind == 2 ? 8 : 3) ? (int)g.range((int64_t)2, (int64_t)400) : 0);
    return p;
}
static int genThreads(Gen& g)
{
    const int n = (int)g.range((int64_t)1, (int64_t)9);
    Application::getInstance().startThreadPool(n);
    return n;
}

// ---------------------------------------------------------------------------------------------- parallel_for
template<typename T>
static void loop(Case& c, T first, size_t n, size_t factor, size_t per_worker, const Pace& pace)
{
    const T last = first + static_cast<T>(n);
    std::vector<std::atomic<int>> times(n);
    std::vector<std::thread::id> who(n);
    std::vector<std::atomic<int>> stamp(n);
    std::atomic<int> clock{ 0 }, outside{ 0 };
    const auto body = [&](T i)
    {
        const size_t k = static_cast<size_t>(i - first);
        if (i < first || k >= n)
        {
            outside++;
            return;
        }
        stamp[k] = clock++;
        pace(k);
        who[k] = std::this_thread::get_id();
        times[k]++;
    };
    parallel_for<T>(first, last, body, factor, per_worker);
    PBT_CHECK(outside == 0, "%d pieces of work outside the range", outside.load());
    const size_t f = std::max<size_t>(factor, 1);
    for (size_t k = 0; k < n; k++)
    {
        PBT_CHECK(times[k] == 1, "piece %zu of %zu is done %d times", k, n, times[k].load());
        // what belongs together is done by one thread, in order
        if (k % f)
            PBT_CHECK(who[k] == who[k - 1] && stamp[k] > stamp[k - 1], "pieces %zu and %zu belong together, but are not done in order by one thread", k - 1, k);
    }
    (void)c;
}
static void each(Case& c)
{
    Gen& g = c.g;
    const int threads = genThreads(g);
    const size_t n = g.chance(1, 10) ? 0 : g.chance(1, 2) ? g.range((int64_t)1, (int64_t)12) : g.range((int64_t)1, (int64_t)400);
    const size_t factor = g.oneof<size_t>({ 0, 1, 1, 2, 3, 7, 50 }), per_worker = g.oneof<size_t>({ 1, 2, 3, 8, 8 });
    const Pace pace = genPace(g);
    const int kind = (int)g.draw(4);
    c.note("%zu pieces by %d threads, %zu together, %zu each, kind %d", n, threads, factor, per_worker, kind);
    if (kind == 0)
        loop<int>(c, (int)g.range((int64_t)-300, (int64_t)300), n, factor, per_worker, pace);
    else if (kind == 1)
        loop<size_t>(c, (size_t)g.range((int64_t)0, (int64_t)300), n, factor, per_worker, pace);
    else if (kind == 2)
        loop<coord_t>(c, g.around((int64_t)1000000000000), n, factor, per_worker, pace);
    else
    {
        // what is in a container
        std::vector<int> v(n);
        std::deque<int> d(n);
        if (kind == 3)
            parallel_for(v, [&](auto it) { pace(it - v.begin()), ++*it; }, factor, per_worker);
        else
            parallel_for(d, [&](auto it) { pace(it - d.begin()), ++*it; }, factor, per_worker);
        for (size_t k = 0; k < n; k++)
            PBT_CHECK((kind == 3 ? v[k] : d[k]) == 1, "element %zu of %zu is visited %d times", k, n, kind == 3 ? v[k] : d[k]);
    }
    // nothing is done where the end is before the start
    bool any = false;
    parallel_for<int>(5, 5 - (int)g.draw(9), [&](int) { any = true; });
    PBT_CHECK(! any, "something is done in an empty range");
    if (n > 1 && threads > 1)
        c.nontrivial();
    c.label(num(threads) + " threads");
}

// Work that is shared out again
static void nested(Case& c)
{
    Gen& g = c.g;
    const int threads = genThreads(g);
    const int levels = (int)g.range((int64_t)2, (int64_t)3);
    std::vector<int> n;
    for (int i = 0; i < levels; i++)
        n.push_back((int)g.range((int64_t)0, (int64_t)(levels == 2 ? 20 : 8)));
    const size_t per_worker = g.oneof<size_t>({ 1, 2, 8 });
    const Pace pace = genPace(g);
    c.note("%d x %d x %d pieces by %d threads, %zu each", n[0], n[1], levels > 2 ? n[2] : 1, threads, per_worker);
    std::vector<std::atomic<int>> times(n[0] * n[1] * (levels > 2 ? n[2] : 1));
    std::atomic<bool> early{ false };
    parallel_for<int>(0, n[0], [&](int i)
    {
        std::atomic<int> inner{ 0 };
        parallel_for<int>(0, n[1], [&](int j)
        {
            if (levels == 2)
                pace(i + j), times[i * n[1] + j]++;
            else
                parallel_for<int>(0, n[2], [&](int k) { pace(i + j + k), times[(i * n[1] + j) * n[2] + k]++; }, 1, per_worker);
            inner++;
        }, 1, per_worker);
        // all of it is done now
        if (inner != n[1])
            early = true;
    }, 1, per_worker);
    PBT_CHECK(! early, "a loop ends before its work is done");
    for (size_t k = 0; k < times.size(); k++)
        PBT_CHECK(times[k] == 1, "piece %zu of %zu is done %d times", k, times.size(), times[k].load());
    if (times.size() > 3 && threads > 1)
        c.nontrivial();
    c.label(num(threads) + " threads");
}

// ---------------------------------------------------------------------------------------------- in order
static void ordered(Case& c)
{
    Gen& g = c.g;
    const int threads = genThreads(g);
    const ptrdiff_t first = g.flip() ? 0 : g.around((int64_t)(g.flip() ? 8 : 200));
    const ptrdiff_t n = g.chance(1, 15) ? -(int)g.draw(3) : g.range((int64_t)1, (int64_t)120), last = first + n;
    const size_t pending = g.oneof<size_t>({ 1, 1, 2, 3, 8, 8 });
    const Pace make = genPace(g), use = genPace(g);
    c.note("from %td to %td by %d threads, %zu waiting for each", first, last, threads, pending);
    struct Item
    {
        ptrdiff_t i;
    };
    std::vector<std::atomic<int>> made(std::max<ptrdiff_t>(n, 0));
    std::vector<ptrdiff_t> used;
    std::atomic<int> waiting{ 0 }, most{ 0 }, users{ 0 }, makers{ 0 }, most_makers{ 0 };
    std::atomic<bool> outside{ false }, two{ false };
    const auto raise = [](std::atomic<int>& m, int v)
    {
        int o = m;
        while (o < v && ! m.compare_exchange_weak(o, v))
            ;
    };
    run_multiple_producers_ordered_consumer(
        first,
        last,
        [&](ptrdiff_t i)
        {
            raise(most_makers, ++makers);
            if (i < first || i >= last)
                outside = true;
            else
                made[i - first]++;
            raise(most, ++waiting);
            make(i - first);
            makers--;
            return std::make_optional(Item{ i });
        },
        [&](std::optional<Item> item)
        {
            if (++users > 1)
                two = true;
            if (! item)
                outside = true;
            else
            {
                use(item->i - first);
                used.push_back(item->i);
            }
            waiting--;
            users--;
        },
        pending);
    PBT_CHECK(! outside, "something outside the range is made");
    PBT_CHECK(! two, "two are used at the same time");
    PBT_CHECK((ptrdiff_t)used.size() == std::max<ptrdiff_t>(n, 0), "%zu of %td are used when it ends", used.size(), n);
    for (ptrdiff_t i = 0; i < n; i++)
        PBT_CHECK(used[i] == first + i && made[i] == 1, "%td is used in the place of %td, which is made %d times", used[i], first + i, made[i].load());
    PBT_CHECK(most <= (int)pending * threads + threads, "%d were waiting to be used, with room for %d", most.load(), (int)pending * threads);
    PBT_CHECK(most_makers <= threads, "%d threads at work, not %d", most_makers.load(), threads);
    if (n > 1 && threads > 1)
        c.nontrivial();
    c.label(first < 0 ? "from below zero" : first ? "from above zero" : "from zero");
}

// Whatever is put in is done before it ends
static void pool(Case& c)
{
    Gen& g = c.g;
    const int threads = (int)g.range((int64_t)0, (int64_t)8);
    const int n = (int)g.range((int64_t)0, (int64_t)60);
    const bool more = g.flip(); // tasks that put in tasks
    const Pace pace = genPace(g);
    c.note("%d tasks for %d threads", n, threads);
    std::vector<std::atomic<int>> times(2 * n);
    std::vector<int> begun; // in order
    {
        ThreadPool p(threads);
        PBT_CHECK((int)p.thread_count() == threads, "%zu threads, not %d", p.thread_count(), threads);
        for (int i = 0; i < n; i++)
        {
            auto lock = p.get_lock();
            p.push(lock, [&, i](ThreadPool::lock_t& l)
            {
                begun.push_back(i);
                if (more)
                    p.push(l, [&, i](ThreadPool::lock_t& k) { k.unlock(), pace(i), times[n + i]++, k.lock(); });
                l.unlock(), pace(i), times[i]++, l.lock();
            });
        }
    }
    for (int i = 0; i < 2 * n; i++)
        PBT_CHECK(times[i] == (i < n || more), "task %d is done %d times", i, times[i].load());
    for (int i = 0; i < n; i++)
        PBT_CHECK(begun[i] == i, "task %d begins in the place of task %d", begun[i], i);
    if (n > 1 && threads > 1)
        c.nontrivial();
    c.label(num(threads) + " threads");
}

int main(int argc, char** argv)
{
    pbt::Runner r("G24",
                  {
                      { "each", 6000, 60000, "over one piece and one thread", each, 60, true, 30 },
                      { "nested", 3000, 30000, "over three pieces and one thread", nested, 60, true, 30 },
                      { "ordered", 6000, 60000, "over one piece and one thread", ordered, 60, true, 30 },
                      { "pool", 3000, 30000, "over one task and one thread", pool, 60, true, 30 },
                  });
    return r.main(argc, argv);
}
