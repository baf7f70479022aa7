ID="C12-throw-while-emplacing"; PROP="C12"
NEEDS="an alternative whose constructor throws while it is emplaced by type over another"
BREAKS="the variant still names the alternative it has already destroyed, and destroys it again"
EDITS=[("internal/variant.h","        // Unset index just in case exception is thrown during construction\n        index_ = variant_npos();\n\n        T* const v","        T* const v")]
DEMO=r"""
#include <cstdint>
#include <estd/string_view.h>
#include <estd/variant.h>
static int alive;
struct A { A() { ++alive; } A(const A&) { ++alive; } ~A() { --alive; } };
struct B { B(int v) { if(v) throw v; ++alive; } B(const B&) { ++alive; } ~B() { --alive; } };
int main()
{
    bool gone = false;
    {
        estd::variant<A, B> v;
        try { v.emplace<B>(1); } catch(int) { gone = v.valueless_by_exception(); }
    }
    if(!gone || alive) return 1;
    { estd::variant<A, B> v; v.emplace<B>(0); if(v.index() != 1) return 1; }
    return alive;
}
"""
