/* Instantiates the container macros of the public headers so that they can be analysed.  Never executed. */
#include <Zycore/Vector.h>
#include <Zycore/String.h>
#include <Zycore/List.h>

#ifdef __cplusplus
extern "C" {
#endif
typedef struct Elem_ { ZyanU32 a; ZyanU32 b; ZyanU32 c; } Elem;

void mac_visit(ZyanU32 value);
void mac_visit_pointer(Elem* element);
void mac_visit_pair(ZyanU32 x, ZyanU32 y);
void mac_visit_names(ZyanU32 x, ZyanUSize a, ZyanUSize b, ZyanUSize c, ZyanUSize d, ZyanUSize e, ZyanUSize f, ZyanUSize g);

void mac_vector_initializer(ZyanVector* out) { ZyanVector v = ZYAN_VECTOR_INITIALIZER; *out = v; }
void mac_string_initializer(ZyanString* out) { ZyanString v = ZYAN_STRING_INITIALIZER; *out = v; }
void mac_list_initializer(ZyanList* out) { ZyanList v = ZYAN_LIST_INITIALIZER; *out = v; }
void mac_view(ZyanStringView* out) { ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("zydis"); *out = v; }
void mac_view_empty(ZyanStringView* out) { ZyanStringView v = ZYAN_DEFINE_STRING_VIEW(""); *out = v; }
void mac_view_array(ZyanStringView* out)
{
    static const char text[] = "abcdefg";
    ZyanStringView v = ZYAN_DEFINE_STRING_VIEW(text);
    *out = v;
}
void mac_view_embedded(ZyanStringView* out) { ZyanStringView v = ZYAN_DEFINE_STRING_VIEW("a\0b"); *out = v; }
const ZyanStringView* mac_to_view_element(const ZyanString* string) { return ZYAN_STRING_TO_VIEW(string + 1); }
const ZyanStringView* mac_to_view(const ZyanString* string) { return ZYAN_STRING_TO_VIEW(string); }

ZyanU32 mac_vector_get(const ZyanVector* v, ZyanUSize i) { return ZYAN_VECTOR_GET(Elem, v, i).b; }
ZyanU32 mac_vector_get_expression(const ZyanVector* v, ZyanUSize i, ZyanUSize j) { return ZYAN_VECTOR_GET(Elem, v, i - j).b; }
ZyanU32 mac_list_get(const ZyanListNode* n) { return ZYAN_LIST_GET(Elem, n).b; }
/* a prefix of the element, and arguments of lower precedence than the operators of the macro */
ZyanU32 mac_vector_get_prefix(const ZyanVector* v, ZyanUSize i) { return ZYAN_VECTOR_GET(ZyanU32, v, i); }
ZyanU32 mac_vector_get_either(const ZyanVector* v, const ZyanVector* w, ZyanUSize i, int c) { return ZYAN_VECTOR_GET(Elem, c ? v : w, i).b; }
ZyanU32 mac_vector_get_shifted(const ZyanVector* v, ZyanUSize i, ZyanUSize j) { return ZYAN_VECTOR_GET(Elem, v, i & j).b; }
ZyanU32 mac_list_get_either(const ZyanListNode* n, const ZyanListNode* m, int c) { return ZYAN_LIST_GET(Elem, c ? n : m).b; }
ZyanU32 mac_list_get_element(const ZyanListNode* n) { return ZYAN_LIST_GET(ZyanU32, n); }

void mac_foreach(const ZyanVector* v) { ZYAN_VECTOR_FOREACH(Elem, v, x, mac_visit(x.b); ) }
void mac_foreach_mutable(ZyanVector* v) { ZYAN_VECTOR_FOREACH_MUTABLE(Elem, v, x, mac_visit_pointer(x); ) }
void mac_foreach_write(ZyanVector* v, ZyanU32 value) { ZYAN_VECTOR_FOREACH_MUTABLE(Elem, v, x, x->b = value; ) }
/* the arguments may be any expressions, and loops can be nested */
void mac_foreach_expression(const ZyanVector* v) { ZYAN_VECTOR_FOREACH(Elem, v + 1, x, mac_visit(x.b); ) }
/* the body is the body of a loop, and its names are its own */
void mac_foreach_continue(const ZyanVector* v) { ZYAN_VECTOR_FOREACH(Elem, v, x, mac_visit(x.b); continue; ) }
void mac_foreach_break(const ZyanVector* v) { ZYAN_VECTOR_FOREACH(Elem, v, x, mac_visit(x.b); break; ) }
void mac_foreach_names(const ZyanVector* v, ZyanUSize i, ZyanUSize j, ZyanUSize n, ZyanUSize size, ZyanUSize index, ZyanUSize count, ZyanUSize item)
{
    ZYAN_VECTOR_FOREACH(Elem, v, x, mac_visit_names(x.b, i, j, n, size, index, count, item); )
}
void mac_foreach_mutable_continue(ZyanVector* v) { ZYAN_VECTOR_FOREACH_MUTABLE(Elem, v, x, mac_visit_pointer(x); continue; ) }
void mac_foreach_mutable_break(ZyanVector* v) { ZYAN_VECTOR_FOREACH_MUTABLE(Elem, v, x, mac_visit_pointer(x); break; ) }
void mac_foreach_mutable_names(ZyanVector* v, ZyanUSize i, ZyanUSize j, ZyanUSize n, ZyanUSize size, ZyanUSize index, ZyanUSize count, ZyanUSize item)
{
    ZYAN_VECTOR_FOREACH_MUTABLE(Elem, v, x, mac_visit_names(x->b, i, j, n, size, index, count, item); )
}
void mac_foreach_nested(const ZyanVector* v, const ZyanVector* w)
{
    ZYAN_VECTOR_FOREACH(ZyanU32, v, x, ZYAN_VECTOR_FOREACH(ZyanU32, w, y, mac_visit_pair(x, y); ))
}
#ifdef __cplusplus
}
#endif
