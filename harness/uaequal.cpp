// OPC UA values: == says whether two values are the same.
#include "uacodec.h"
#include "fake.h"
using namespace app;
using namespace app::ua;

namespace
{
template <class T> void compareThem(T const& a, T const& b)
{
    absentVsEmpty = false;
    bool const expected = same(a, b);
    bool const r = a == b;
    if (!absentVsEmpty || !expected) CHECK(r == expected, "equality of two values");
    if (r) CHECK(b == a, "equality depends on the order"); else CHECK(!(b == a), "equality depends on the order");
    CHECK(a == a && b == b, "a value differs from itself");
    if (r) sym_reach("equal"); else sym_reach("different");
}
// a takes every structure; b the structure of a except one (two) decision(s) that is (are) free
template <class T> void values(unsigned maxStr, unsigned maxArr, unsigned maxDepth, unsigned points)
{
    fake::quiet();
    static Gen ga, gb;
    ga.maxStr = gb.maxStr = maxStr; ga.maxArr = gb.maxArr = maxArr; ga.maxDepth = gb.maxDepth = maxDepth;
    T a, b;
    gen(ga, a);
    gb.like = &ga;
    gb.pick = choose("pick", points + 1);
    if (THOROUGH && gb.pick) gb.pick2 = choose("pick2", gb.pick);
    if (gb.pick > ga.count) sym_end_path();
    gen(gb, b);
    CHECK(ga.count <= points, "harness: too few decision points");
    compareThem(a, b);
}
template <class T, class B> void notZeroNorNaN(T& v)
{
    T x = v;
    B bits;
    std::memcpy(&bits, &x, sizeof(bits));
    B const sign = (B)1 << (8 * sizeof(B) - 1), inf = sizeof(B) == 4 ? (B)0x7f800000 : (B)0x7ff0000000000000ull;
    ASSUME((bits & ~sign) != 0);
    ASSUME((bits & inf) != inf);
}
template <class T> void ordinary(T&) {}
void ordinary(Float& v) { notZeroNorNaN<float, uint32_t>(reinterpret_cast<float&>(v)); }
void ordinary(Double& v) { notZeroNorNaN<double, uint64_t>(reinterpret_cast<double&>(v)); }
template <class T> void ordinary(DynamicArray<T>& v) { if constexpr (!std::is_same_v<T, Boolean>) for (auto& x : v) ordinary(x); }
void ordinary(Variant& v) { if (v.value) std::visit([](auto& x) { ordinary(x); }, *v.value); }
}

extern "C" void h_ueq_text() { values<LocalizedText>(2, 0, 0, 4); }
extern "C" void h_ueq_qname() { values<QualifiedName>(3, 0, 0, 1); }
extern "C" void h_ueq_nodeid() { values<NodeId>(3, 0, 0, 2); }
extern "C" void h_ueq_expnodeid() { values<ExpandedNodeId>(2, 0, 0, 5); }
extern "C" void h_ueq_extobj() { values<ExtensionObject>(2, 0, 0, 4); }
extern "C" void h_ueq_diag() { values<DiagnosticInfo>(1, 0, 0, 7); }
extern "C" void h_ueq_nested()
{
    fake::quiet();
    static Gen ga, gb;
    for (Gen* g : {&ga, &gb}) { g->maxStr = 1; g->maxDepth = 2; g->free = false; }
    DiagnosticInfo a, b;
    ga.base = choose("base", 2);
    ga.pick = choose("pick", 24);
    if (THOROUGH && ga.pick) ga.pick2 = choose("pick2", ga.pick);
    gen(ga, a);
    if (ga.pick > ga.count) sym_end_path();
    gb.like = &ga;
    gb.pick = choose("pickB", 24);
    gen(gb, b);
    if (gb.pick > gb.count) sym_end_path();
    CHECK(ga.count <= 24, "harness: too few decision points");
    compareThem(a, b);
}
extern "C" void h_ueq_datavalue() { values<DataValue>(2, 1, 0, 8); }
extern "C" void h_ueq_guid()
{
    fake::quiet();
    static Gen g;
    Guid a, b;
    gen(g, a); gen(g, b);
    compareThem(a, b);
}
// two Variants of the same type in every pair of shapes
extern "C" void h_ueq_variant()
{
    fake::quiet();
    static Gen ga, gb;
    ga.maxStr = gb.maxStr = 1; ga.maxArr = gb.maxArr = 2; ga.maxDepth = gb.maxDepth = 0;
    Variant a, b;
    unsigned const t = 1 + choose("type", 22), shape = choose("shape", 3);
    ga.free = gb.free = false;
    ga.base = choose("base", 2);
    ga.pick = choose("pick", 8);
    genVariant(ga, a, t, shape);
    if (ga.pick > ga.count) sym_end_path();
    gb.like = &ga;
    gb.pick = choose("pickB", 8);
    genVariant(gb, b, t, shape);
    if (gb.pick > gb.count) sym_end_path();
    ordinary(a); ordinary(b);
    compareThem(a, b);
}
// Variants of different types or shapes, or without a value, are different however alike their content is
extern "C" void h_ueq_types()
{
    fake::quiet();
    static Gen ga, gb;
    Variant a, b;
    for (Gen* g : {&ga, &gb}) { g->maxStr = 2; g->maxArr = 1; g->maxDepth = 0; g->free = false; g->base = 1; g->concrete = true; }
    unsigned const ta = choose("type", 23), tb = choose("typeB", 23);
    unsigned const sa = ta ? choose("shape", 3) : 0, sb = tb ? choose("shapeB", 3) : 0;
    if (ta) genVariant(ga, a, ta, sa);
    if (tb) genVariant(gb, b, tb, sb);
    compareThem(a, b);
}
