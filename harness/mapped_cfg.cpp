// one container class configuration per -DCFG value
#define VP_NO_MAIN
#include "mapped.hpp"
namespace mp {
using US = reference_stability;
template<class V, class K, bool ST, int ORD> struct TMapped : Traits<gc::MappedVector<V, K, ST ? US::stable : US::unstable, ORD>, K, K, V> {
    static constexpr bool stable = ST, copyElem = true;
};
template<class V, int ORD> struct TString : Traits<gc::StringMappedVector<V, US::stable, ORD>, ViewTag, ViewTag, V> {
    static constexpr bool stable = true, addIndexTerm = false, copyElem = true;
};
template<class V> struct TStringU : Traits<gc::StringMappedVector<V, US::unstable>, ViewTag, ViewTag, V> {
    static constexpr bool stable = false, addIndexTerm = false, copyElem = true;
};
template<class V, class K> struct TPtr : Traits<gc::MappedPointerVector<V, K>, K, K, V> {
    static constexpr bool pointer = true, copyable = false, hasAt = false, copyElem = true;
};
template<class V, class K1, class K2, bool ST, int ORD> struct TDual : Traits<gc::DualMappedVector<V, K1, K2, ST ? US::stable : US::unstable, ORD>, K1, K2, V> {
    static constexpr bool dual = true, stable = ST, addTerm = true, copyElem = true;
};
template<class V, class K2, int ORD> struct TDualString : Traits<gc::DualStringMappedVector<V, K2, US::stable, ORD>, ViewTag, K2, V> {
    static constexpr bool dual = true, stable = true, addTerm = true, copyElem = true, keep1 = true;
};
template<class V, class K2> struct TDualStringU : Traits<gc::DualStringMappedVector<V, K2, US::unstable>, ViewTag, K2, V> {
    static constexpr bool dual = true, stable = false, addTerm = true, copyElem = true, keep1 = true;
};
template<class V, class K1, class K2> struct TDualPtr : Traits<gc::DualMappedPointerVector<V, K1, K2>, K1, K2, V> {
    static constexpr bool dual = true, pointer = true, copyable = false, addIndexTerm = false, noSearch = false, copyElem = true, keep1 = true, keep2 = true, assignNeedsBoth = true;
};
using MO = ValT<false>;
template<class V, class K, bool ST, int ORD> struct TMappedMO : TMapped<V, K, ST, ORD> { static constexpr bool copyable = false, copyElem = false; };
template<class V, class K1, class K2, bool ST, int ORD> struct TDualMO : TDual<V, K1, K2, ST, ORD> { static constexpr bool copyable = false, copyElem = false; };
#define REG(dual, name, ...) static Registrar r_(dual, name, Runner<__VA_ARGS__>::entry)
#if CFG == 0
REG(false, "MappedVector<string>", TMapped<Val, std::string, false, 5>);
#elif CFG == 1
REG(false, "MappedVector<string,stable,1>", TMapped<Val, std::string, true, 1>);
#elif CFG == 2
REG(false, "MappedVector<int,stable,0>", TMapped<Val, int, true, 0>);
#elif CFG == 3
REG(false, "MappedVector<struct>", TMapped<Val, SKey, false, 5>);
#elif CFG == 4
REG(false, "MappedVector<wstring,stable,2> move-only", TMappedMO<MO, std::wstring, true, 2>);
#elif CFG == 5
REG(false, "StringMappedVector<stable,1>", TString<Val, 1>);
#elif CFG == 6
REG(false, "StringMappedVector<stable,5>", TString<Val, 5>);
#elif CFG == 7
REG(false, "StringMappedVector<unstable>", TStringU<Val>);
#elif CFG == 8
REG(false, "MappedPointerVector<string>", TPtr<Val, std::string>);
#elif CFG == 9
REG(false, "MappedPointerVector<struct>", TPtr<Val, SKey>);
#elif CFG == 10
REG(true, "DualMappedVector<string,int>", TDual<Val, std::string, int, false, 5>);
#elif CFG == 11
REG(true, "DualMappedVector<enum,string,stable,1>", TDual<Val, EKey, std::string, true, 1>);
#elif CFG == 12
REG(true, "DualMappedVector<struct,double,stable,0> move-only", TDualMO<MO, SKey, double, true, 0>);
#elif CFG == 13
REG(true, "DualStringMappedVector<int,stable,1>", TDualString<Val, int, 1>);
#elif CFG == 14
REG(true, "DualStringMappedVector<struct,stable,5>", TDualString<Val, SKey, 5>);
#elif CFG == 15
REG(true, "DualStringMappedVector<int,unstable>", TDualStringU<Val, int>);
#elif CFG == 16
REG(true, "DualMappedPointerVector<string,int>", TDualPtr<Val, std::string, int>);
#elif CFG == 17
REG(true, "DualMappedPointerVector<int,struct>", TDualPtr<Val, int, SKey>);
#elif CFG == 18
REG(false, "MappedVector<int> move-only", TMappedMO<MO, int, false, 5>);
#elif CFG == 19
REG(true, "DualMappedVector<int,wstring>", TDual<Val, int, std::wstring, false, 5>);
#elif CFG == 20
REG(false, "StringMappedVector<stable,0>", TString<Val, 0>);
#elif CFG == 21
REG(true, "DualStringMappedVector<int,stable,0>", TDualString<Val, int, 0>);
#elif CFG == 22
REG(true, "DualMappedVector<string,int,stable,5>", TDual<Val, std::string, int, true, 5>);
#elif CFG == 23
REG(false, "MappedVector<double,stable,5>", TMapped<Val, double, true, 5>);
#elif CFG == 24
REG(true, "DualMappedVector<int,enum,stable,3>", TDual<Val, int, EKey, true, 3>);
#elif CFG == 25
REG(true, "DualStringMappedVector<wstring,stable,3>", TDualString<Val, std::wstring, 3>);
#elif CFG == 26
REG(false, "StringMappedVector<stable,3>", TString<Val, 3>);
#elif CFG == 27
REG(true, "DualStringMappedVector<enum,unstable>", TDualStringU<Val, EKey>);
#endif
}  // namespace mp
