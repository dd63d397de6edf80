// Stand-in for cura-formulae-engine (not installable offline): a small Python-like expression evaluator
// with the part of the API that CuraEngine uses. Numbers, strings, booleans, lists, arithmetic, comparisons,
// and/or/not, "x if c else y", indexing and a few functions.
#ifndef SHIM_FORMULAE_H
#define SHIM_FORMULAE_H
#include <cctype>
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <memory>
#include <optional>
#include <string>
#include <string_view>
#include <unordered_map>
#include <variant>
#include <vector>

#include <fmt/format.h>
#include <spdlog/spdlog.h> // the real library's headers provide it to CuraEngine's sources

#include "zeus/expected.hpp"

namespace CuraFormulaeEngine
{
namespace eval
{
struct Value
{
    std::variant<bool, std::int64_t, double, std::string, std::vector<Value>> value;
    Value()
        : value(false)
    {
    }
    Value(bool b)
        : value(b)
    {
    }
    Value(std::int64_t i)
        : value(i)
    {
    }
    Value(int i)
        : value(static_cast<std::int64_t>(i))
    {
    }
    Value(double d)
        : value(d)
    {
    }
    Value(std::string s)
        : value(std::move(s))
    {
    }
    Value(const char* s)
        : value(std::string(s))
    {
    }
    Value(std::vector<Value> v)
        : value(std::move(v))
    {
    }
    bool isNum() const
    {
        return value.index() <= 2;
    }
    double num() const
    {
        if (auto* b = std::get_if<bool>(&value))
            return *b;
        if (auto* i = std::get_if<std::int64_t>(&value))
            return static_cast<double>(*i);
        return std::get<double>(value);
    }
    bool truthy() const
    {
        if (isNum())
            return num() != 0;
        if (auto* s = std::get_if<std::string>(&value))
            return ! s->empty();
        return ! std::get<4>(value).empty();
    }
    std::string toString() const
    {
        if (auto* b = std::get_if<bool>(&value))
            return *b ? "True" : "False";
        if (auto* i = std::get_if<std::int64_t>(&value))
            return fmt::format("{}", *i);
        if (auto* d = std::get_if<double>(&value))
            return fmt::format("{}", *d);
        if (auto* s = std::get_if<std::string>(&value))
            return *s;
        std::string r = "[";
        for (auto& v : std::get<4>(value))
            r += (r.size() > 1 ? ", " : "") + v.toString();
        return r + "]";
    }
};
struct error_t
{
};
using Result = zeus::expected<Value, error_t>;
} // namespace eval

namespace env
{
class Environment
{
public:
    virtual ~Environment() = default;
    virtual std::optional<eval::Value> get(const std::string& k) const noexcept = 0;
    virtual bool has(const std::string& k) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAll() const noexcept = 0;
};
class EnvironmentMap : public Environment
{
protected:
    std::unordered_map<std::string, eval::Value> m_;

public:
    void set(const std::string& k, const eval::Value& v)
    {
        m_[k] = v;
    }
    void add(const std::unordered_map<std::string, eval::Value>& o)
    {
        for (auto& [k, v] : o)
            m_[k] = v;
    }
    std::optional<eval::Value> get(const std::string& k) const noexcept override
    {
        auto it = m_.find(k);
        return it == m_.end() ? std::nullopt : std::optional(it->second);
    }
    bool has(const std::string& k) const noexcept override
    {
        return m_.count(k);
    }
    std::unordered_map<std::string, eval::Value> getAll() const noexcept override
    {
        return m_;
    }
};
class ChainableEnvironment : public Environment
{
    const Environment* shadow_;

public:
    explicit ChainableEnvironment(const Environment* shadow = nullptr)
        : shadow_(shadow)
    {
    }
    std::optional<eval::Value> get(const std::string& k) const noexcept override
    {
        if (auto r = getImpl(k))
            return r;
        return shadow_ ? shadow_->get(k) : std::nullopt;
    }
    bool has(const std::string& k) const noexcept override
    {
        return hasImpl(k) || (shadow_ && shadow_->has(k));
    }
    std::unordered_map<std::string, eval::Value> getAll() const noexcept override
    {
        auto r = getAllImpl();
        if (shadow_)
            for (auto& [k, v] : shadow_->getAll())
                r.emplace(k, v);
        return r;
    }

protected:
    virtual std::optional<eval::Value> getImpl(const std::string& k) const noexcept = 0;
    virtual bool hasImpl(const std::string& k) const noexcept = 0;
    virtual std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept = 0;
};
class LocalEnvironment : public ChainableEnvironment
{
    EnvironmentMap m_;

public:
    explicit LocalEnvironment(const Environment* shadow = nullptr)
        : ChainableEnvironment(shadow)
    {
    }
    void set(const std::string& k, const eval::Value& v)
    {
        m_.set(k, v);
    }
    void add(const std::unordered_map<std::string, eval::Value>& o)
    {
        m_.add(o);
    }

protected:
    std::optional<eval::Value> getImpl(const std::string& k) const noexcept override
    {
        return m_.get(k);
    }
    bool hasImpl(const std::string& k) const noexcept override
    {
        return m_.has(k);
    }
    std::unordered_map<std::string, eval::Value> getAllImpl() const noexcept override
    {
        return m_.getAll();
    }
};
inline const EnvironmentMap std_env{};
} // namespace env

namespace ast
{
using Fn = std::function<std::optional<eval::Value>(const env::Environment*)>;
struct ExprPtr
{
    Fn fn;
    eval::Result evaluate(const env::Environment* e) const
    {
        if (auto r = fn(e))
            return eval::Result(*r);
        return eval::Result(eval::Result::unexpect{});
    }
};
} // namespace ast

namespace parser
{
struct error_t
{
};
namespace detail
{
using eval::Value;
using ast::Fn;
using OV = std::optional<Value>;
struct Fail
{
};
struct P
{
    std::string_view s;
    size_t i = 0;
    void ws()
    {
        while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i])))
            ++i;
    }
    static bool idc(char c)
    {
        return std::isalnum(static_cast<unsigned char>(c)) || c == '_';
    }
    bool sym(std::string_view t)
    {
        ws();
        if (s.substr(i, t.size()) == t)
        {
            i += t.size();
            return true;
        }
        return false;
    }
    bool kw(std::string_view t)
    {
        ws();
        if (s.substr(i, t.size()) == t && (i + t.size() >= s.size() || ! idc(s[i + t.size()])))
        {
            i += t.size();
            return true;
        }
        return false;
    }
    void need(std::string_view t)
    {
        if (! sym(t))
            throw Fail{};
    }
    Fn tern()
    {
        Fn a = lor();
        if (kw("if"))
        {
            Fn c = lor();
            if (! kw("else"))
                throw Fail{};
            Fn b = tern();
            return [=](const env::Environment* e) -> OV
            {
                auto v = c(e);
                if (! v)
                    return v;
                return v->truthy() ? a(e) : b(e);
            };
        }
        return a;
    }
    Fn lor()
    {
        Fn a = land();
        while (kw("or"))
        {
            Fn l = a, r = land();
            a = [=](const env::Environment* e) -> OV
            {
                auto v = l(e);
                return ! v || v->truthy() ? v : r(e);
            };
        }
        return a;
    }
    Fn land()
    {
        Fn a = lnot();
        while (kw("and"))
        {
            Fn l = a, r = lnot();
            a = [=](const env::Environment* e) -> OV
            {
                auto v = l(e);
                return ! v || ! v->truthy() ? v : r(e);
            };
        }
        return a;
    }
    Fn lnot()
    {
        if (kw("not"))
        {
            Fn a = lnot();
            return [=](const env::Environment* e) -> OV
            {
                auto v = a(e);
                if (! v)
                    return v;
                return Value(! v->truthy());
            };
        }
        return cmp();
    }
    template<class F>
    static Fn bin(Fn l, Fn r, F f)
    {
        return [=](const env::Environment* e) -> OV
        {
            auto a = l(e), b = r(e);
            if (! a || ! b)
                return std::nullopt;
            return f(*a, *b);
        };
    }
    static OV compare(const Value& a, const Value& b, int op)
    {
        int c;
        if (a.isNum() && b.isNum())
        {
            double x = a.num(), y = b.num();
            c = x < y ? -1 : x > y;
        }
        else if (a.value.index() == 3 && b.value.index() == 3)
        {
            int k = std::get<3>(a.value).compare(std::get<3>(b.value));
            c = k < 0 ? -1 : k > 0;
        }
        else if (op == 2)
            return Value(false);
        else if (op == 3)
            return Value(true);
        else
            return std::nullopt;
        switch (op)
        {
        case 0:
            return Value(c <= 0);
        case 1:
            return Value(c >= 0);
        case 2:
            return Value(c == 0);
        case 3:
            return Value(c != 0);
        case 4:
            return Value(c < 0);
        default:
            return Value(c > 0);
        }
    }
    Fn cmp()
    {
        Fn a = sum();
        static const char* ops[] = { "<=", ">=", "==", "!=", "<", ">" };
        for (;;)
        {
            int o = -1;
            for (int k = 0; k < 6 && o < 0; ++k)
                if (sym(ops[k]))
                    o = k;
            if (o < 0)
            {
                if (kw("in"))
                {
                    a = bin(
                        a,
                        sum(),
                        [](const Value& x, const Value& y) -> OV
                        {
                            if (auto* v = std::get_if<4>(&y.value))
                            {
                                for (auto& q : *v)
                                    if (auto r = compare(x, q, 2); r && r->truthy())
                                        return Value(true);
                                return Value(false);
                            }
                            if (y.value.index() == 3 && x.value.index() == 3)
                                return Value(std::get<3>(y.value).find(std::get<3>(x.value)) != std::string::npos);
                            return std::nullopt;
                        });
                    continue;
                }
                return a;
            }
            a = bin(
                a,
                sum(),
                [o](const Value& x, const Value& y)
                {
                    return compare(x, y, o);
                });
        }
    }
    static OV arith(const Value& a, const Value& b, char op)
    {
        if (op == '+' && a.value.index() == 3 && b.value.index() == 3)
            return Value(std::get<3>(a.value) + std::get<3>(b.value));
        if (! a.isNum() || ! b.isNum())
            return std::nullopt;
        const bool ints = a.value.index() <= 1 && b.value.index() <= 1;
        double x = a.num(), y = b.num();
        if ((op == '/' || op == 'd' || op == '%') && y == 0)
            return std::nullopt;
        double r = op == '+' ? x + y : op == '-' ? x - y : op == '*' ? x * y : op == '/' ? x / y : op == 'd' ? std::floor(x / y) : op == '%' ? x - y * std::floor(x / y) : std::pow(x, y);
        if (ints && op != '/' && std::abs(r) < 9e15)
            return Value(static_cast<std::int64_t>(r));
        return Value(r);
    }
    Fn sum()
    {
        Fn a = mul();
        for (;;)
        {
            char o = sym("+") ? '+' : sym("-") ? '-' : 0;
            if (! o)
                return a;
            a = bin(
                a,
                mul(),
                [o](const Value& x, const Value& y)
                {
                    return arith(x, y, o);
                });
        }
    }
    Fn mul()
    {
        Fn a = una();
        for (;;)
        {
            char o = sym("//") ? 'd' : sym("*") ? '*' : sym("/") ? '/' : sym("%") ? '%' : 0;
            if (! o)
                return a;
            a = bin(
                a,
                una(),
                [o](const Value& x, const Value& y)
                {
                    return arith(x, y, o);
                });
        }
    }
    Fn una()
    {
        if (sym("-"))
        {
            Fn a = una();
            return [=](const env::Environment* e) -> OV
            {
                auto v = a(e);
                if (! v)
                    return v;
                return arith(Value(0), *v, '-');
            };
        }
        if (sym("+"))
            return una();
        Fn a = post();
        if (sym("**"))
            return bin(
                a,
                una(),
                [](const Value& x, const Value& y)
                {
                    return arith(x, y, '^');
                });
        return a;
    }
    Fn post()
    {
        Fn a = prim();
        while (sym("["))
        {
            Fn k = tern();
            need("]");
            a = bin(
                a,
                k,
                [](const Value& x, const Value& y) -> OV
                {
                    auto* v = std::get_if<4>(&x.value);
                    if (! v || y.value.index() > 1)
                        return std::nullopt;
                    auto n = static_cast<std::int64_t>(y.num());
                    if (n < 0)
                        n += static_cast<std::int64_t>(v->size());
                    if (n < 0 || n >= static_cast<std::int64_t>(v->size()))
                        return std::nullopt;
                    return (*v)[n];
                });
        }
        return a;
    }
    std::vector<Fn> list(const char* close)
    {
        std::vector<Fn> r;
        if (sym(close))
            return r;
        do
            r.push_back(tern());
        while (sym(","));
        need(close);
        return r;
    }
    Fn prim()
    {
        ws();
        if (i >= s.size())
            throw Fail{};
        if (sym("("))
        {
            Fn a = tern();
            need(")");
            return a;
        }
        if (sym("["))
        {
            auto items = list("]");
            return [=](const env::Environment* e) -> OV
            {
                std::vector<Value> v;
                for (auto& f : items)
                {
                    auto x = f(e);
                    if (! x)
                        return x;
                    v.push_back(*x);
                }
                return Value(v);
            };
        }
        char c = s[i];
        if (c == '\'' || c == '"')
        {
            size_t j = s.find(c, i + 1);
            if (j == std::string_view::npos)
                throw Fail{};
            Value v(std::string(s.substr(i + 1, j - i - 1)));
            i = j + 1;
            return [=](const env::Environment*) -> OV
            {
                return v;
            };
        }
        if (std::isdigit(static_cast<unsigned char>(c)) || c == '.')
        {
            size_t j = i;
            bool fl = false;
            while (j < s.size()
                   && (std::isdigit(static_cast<unsigned char>(s[j])) || s[j] == '.' || s[j] == 'e' || s[j] == 'E' || ((s[j] == '-' || s[j] == '+') && j > i && (s[j - 1] == 'e' || s[j - 1] == 'E'))))
            {
                fl = fl || ! std::isdigit(static_cast<unsigned char>(s[j]));
                ++j;
            }
            std::string t(s.substr(i, j - i));
            if ((j < s.size() && idc(s[j])) || t == ".")
                throw Fail{};
            char* end = nullptr;
            Value v = fl ? Value(std::strtod(t.c_str(), &end)) : Value(static_cast<std::int64_t>(std::strtoll(t.c_str(), &end, 10)));
            if (*end)
                throw Fail{};
            i = j;
            return [=](const env::Environment*) -> OV
            {
                return v;
            };
        }
        if (! idc(c))
            throw Fail{};
        size_t j = i;
        while (j < s.size() && idc(s[j]))
            ++j;
        std::string id(s.substr(i, j - i));
        i = j;
        for (const char* k : { "if", "else", "and", "or", "not", "in" })
            if (id == k)
                throw Fail{};
        if (id == "True" || id == "true" || id == "False" || id == "false")
        {
            bool b = id[0] == 'T' || id[0] == 't';
            return [=](const env::Environment*) -> OV
            {
                return Value(b);
            };
        }
        if (sym("("))
        {
            auto args = list(")");
            return [=](const env::Environment* e) -> OV
            {
                std::vector<Value> v;
                for (auto& f : args)
                {
                    auto x = f(e);
                    if (! x)
                        return x;
                    v.push_back(*x);
                }
                if (id == "str" && v.size() == 1)
                    return Value(v[0].toString());
                if (id == "len" && v.size() == 1 && v[0].value.index() == 4)
                    return Value(static_cast<std::int64_t>(std::get<4>(v[0].value).size()));
                for (auto& x : v)
                    if (! x.isNum())
                        return std::nullopt;
                if (v.empty())
                    return std::nullopt;
                if (id == "int")
                    return Value(static_cast<std::int64_t>(v[0].num()));
                if (id == "float")
                    return Value(v[0].num());
                if (id == "abs")
                    return v[0].num() < 0 ? arith(Value(0), v[0], '-') : OV(v[0]);
                if (id == "round" && v.size() == 1)
                    return Value(static_cast<std::int64_t>(std::nearbyint(v[0].num())));
                if (id == "max" || id == "min")
                {
                    Value b = v[0];
                    for (auto& x : v)
                        if (id == "max" ? x.num() > b.num() : x.num() < b.num())
                            b = x;
                    return b;
                }
                return std::nullopt;
            };
        }
        return [=](const env::Environment* e) -> OV
        {
            return e ? e->get(id) : std::nullopt;
        };
    }
};
} // namespace detail
inline zeus::expected<ast::ExprPtr, error_t> parse(std::string_view text)
{
    using R = zeus::expected<ast::ExprPtr, error_t>;
    auto keep = std::make_shared<std::string>(text);
    detail::P p{ *keep };
    try
    {
        ast::ExprPtr e{ p.tern() };
        p.ws();
        if (p.i != keep->size())
            return R(R::unexpect{});
        return R(e);
    }
    catch (detail::Fail&)
    {
        return R(R::unexpect{});
    }
}
} // namespace parser
} // namespace CuraFormulaeEngine
#endif
