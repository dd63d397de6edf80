// Stand-in for Ultimaker's "scripta" visual-debug logger (not installable offline). It only ever logs, so it does nothing here.
#ifndef SHIM_SCRIPTA_LOGGER_H
#define SHIM_SCRIPTA_LOGGER_H
#include <string>
namespace scripta
{
template<class... A>
struct CellVDI
{
    template<class... B>
    constexpr CellVDI(B&&...)
    {
    }
};
template<class... A>
CellVDI(A&&...) -> CellVDI<>;
template<class... A>
struct PointVDI
{
    template<class... B>
    constexpr PointVDI(B&&...)
    {
    }
};
template<class... A>
PointVDI(A&&...) -> PointVDI<>;
template<class... A>
inline void log(A&&...)
{
}
template<class... A>
inline void setAll(A&&...)
{
}
} // namespace scripta
#endif
