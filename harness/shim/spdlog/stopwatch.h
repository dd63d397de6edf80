// spdlog's stopwatch with the elapsed_ms() of later versions (1.12 is installed).
#pragma once
#include <chrono>
#include <spdlog/fmt/fmt.h>
namespace spdlog
{
class stopwatch
{
    using clock = std::chrono::steady_clock;
    std::chrono::time_point<clock> start_{ clock::now() };

public:
    std::chrono::duration<double> elapsed() const
    {
        return std::chrono::duration<double>(clock::now() - start_);
    }
    std::chrono::milliseconds elapsed_ms() const
    {
        return std::chrono::duration_cast<std::chrono::milliseconds>(clock::now() - start_);
    }
    void reset()
    {
        start_ = clock::now();
    }
};
} // namespace spdlog
template<>
struct fmt::formatter<spdlog::stopwatch> : fmt::formatter<double>
{
    template<typename C>
    auto format(const spdlog::stopwatch& sw, C& ctx) const -> decltype(ctx.out())
    {
        return fmt::formatter<double>::format(sw.elapsed().count(), ctx);
    }
};
