// Stand-in for boost::concurrent_flat_set (Boost 1.84; 1.83 is installed), over concurrent_flat_map.
#ifndef SHIM_CONCURRENT_FLAT_SET_HPP
#define SHIM_CONCURRENT_FLAT_SET_HPP
#include <boost/unordered/concurrent_flat_map.hpp>
namespace boost
{
template<class K, class H = boost::hash<K>, class E = std::equal_to<K>>
class concurrent_flat_set
{
    using M = boost::concurrent_flat_map<K, char, H, E>;
    M m_;

public:
    concurrent_flat_set() = default;
    bool insert(const K& k)
    {
        return m_.emplace(k, 0);
    }
    template<class... A>
    bool emplace(A&&... a)
    {
        return m_.emplace(K(std::forward<A>(a)...), 0);
    }
    bool contains(const K& k) const
    {
        return m_.contains(k);
    }
    std::size_t count(const K& k) const
    {
        return m_.count(k);
    }
    std::size_t size() const
    {
        return m_.size();
    }
    bool empty() const
    {
        return m_.empty();
    }
    void clear()
    {
        m_.clear();
    }
    std::size_t erase(const K& k)
    {
        return m_.erase(k);
    }
    template<class F>
    std::size_t visit_all(F f) const
    {
        return m_.cvisit_all(
            [&](const auto& kv)
            {
                f(kv.first);
            });
    }
    template<class F>
    std::size_t cvisit_all(F f) const
    {
        return visit_all(f);
    }
    template<class P, class F>
    void visit_all(P&& p, F f) const
    {
        m_.cvisit_all(
            std::forward<P>(p),
            [&](const auto& kv)
            {
                f(kv.first);
            });
    }
    template<class F>
    std::size_t erase_if(F f)
    {
        return m_.erase_if(
            [&](const auto& kv)
            {
                return f(kv.first);
            });
    }
    template<class P, class F>
    void erase_if(P&& p, F f)
    {
        m_.erase_if(
            std::forward<P>(p),
            [&](const auto& kv)
            {
                return f(kv.first);
            });
    }
    template<class F>
    std::size_t visit(const K& k, F f) const
    {
        return m_.cvisit(
            k,
            [&](const auto& kv)
            {
                f(kv.first);
            });
    }
};
} // namespace boost
#endif
