// Third-party and standard headers of the engine, precompiled once per check.
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <cmath>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <execution>
#include <filesystem>
#include <fstream>
#include <functional>
#include <iostream>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <numbers>
#include <numeric>
#include <optional>
#include <queue>
#include <regex>
#include <set>
#include <sstream>
#include <stack>
#include <string>
#include <string_view>
#include <thread>
#include <tuple>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <variant>
#include <vector>
#include <mutex>
#include <condition_variable>
#include <future>
#include <spdlog/spdlog.h>
#include <spdlog/details/os.h>
#include <fmt/format.h>
#include <fmt/ranges.h>
#include <boost/polygon/voronoi.hpp>
#include <boost/unordered/concurrent_flat_map.hpp>
#include <polyclipping/clipper.hpp>
#include <range/v3/all.hpp>
