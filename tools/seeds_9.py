"""the build without a C library, the interface and the macros"""
B = r"""
#include <Zycore/ArgParse.h>
#include <Zycore/Allocator.h>
#include <Zycore/Bitset.h>
#include <Zycore/Format.h>
#include <Zycore/List.h>
#include <Zycore/String.h>
#include <Zycore/Vector.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
"""
# compiles everything without a C library and shows what is missing
NOLIBC = """
for f in src/*.c src/API/*.c; do
    gcc -O1 -w -DZYAN_NO_LIBC -DZYCORE_STATIC_BUILD -ffreestanding -nostdinc -isystem "$(gcc -print-file-name=include)" -Iinclude -Isrc -c $f -o "$d/$(basename $f).o" || exit 1
done
ld -r -o "$d/all.o" "$d"/*.c.o || exit 1
nm -u "$d/all.o" > "$d/undefined"
cat "$d/undefined"
[ ! -s "$d/undefined" ]
"""
# a C++ program against the library built as C
CXX = """
for f in src/*.c src/API/*.c; do
    gcc -O1 -w -DZYCORE_STATIC_BUILD -D_GNU_SOURCE -Iinclude -Isrc -c $f -o "$d/$(basename $f).o" || exit 1
done
g++ -std=c++17 -O1 -w -DZYCORE_STATIC_BUILD -Iinclude "$here/demo.cpp" "$d"/*.c.o -lpthread -o "$d/demo" && timeout 100 "$d/demo"
"""
# a user program without a C library, with stubs only for what it provides itself
NOLIBC_USER = """
for f in src/*.c src/API/*.c; do
    gcc -O1 -w -DZYAN_NO_LIBC -DZYCORE_STATIC_BUILD -Iinclude -Isrc -c $f -o "$d/$(basename $f).o" || exit 1
done
gcc -O1 -w -DZYAN_NO_LIBC -DZYCORE_STATIC_BUILD -Iinclude "$here/demo.c" "$d"/*.c.o -lpthread -o "$d/demo" && timeout 100 "$d/demo"
"""
SEEDS = [
dict(id="nolibc-strlen", prop="N01",
  edits=[("src/String.c", "    view->string.vector.size = ZYAN_STRLEN(string) + 1;\n", "    view->string.vector.size = strlen(string) + 1;\n")],
  needs="a build with ZYAN_NO_LIBC", breaks="the library needs strlen although there is no C library", sh=NOLIBC),
dict(id="nolibc-memmove", prop="N01",
  edits=[("src/Vector.c", "    const ZyanUSize size     = (vector->size - index) * vector->element_size;\n    ZYAN_MEMMOVE(", "    const ZyanUSize size     = (vector->size - index) * vector->element_size;\n    memmove(")],
  needs="a build with ZYAN_NO_LIBC", breaks="the library needs memmove although there is no C library", sh=NOLIBC),
dict(id="nolibc-format", prop="N01",
  edits=[("src/Format.c", "#ifndef ZYAN_NO_LIBC\n\nZyanStatus ZyanStringAppendFormat(", "#if !defined(ZYAN_KERNEL)\n\nZyanStatus ZyanStringAppendFormat(")],
  needs="a build with ZYAN_NO_LIBC", breaks="the formatting functions that need vsnprintf are built without a C library", sh=NOLIBC),
dict(id="iface-guard", prop="X01",
  edits=[("include/Zycore/Bitset.h", "#ifdef __cplusplus\nextern \"C\" {\n#endif\n", "#ifdef _CPLUSPLUS\nextern \"C\" {\n#endif\n"),
         ("include/Zycore/Bitset.h", "#ifdef __cplusplus\n}\n#endif\n", "#ifdef _CPLUSPLUS\n}\n#endif\n")],
  needs="a C++ program that uses bitsets", breaks="C++ programs look for mangled names and do not link", ext="cpp",
  demo="""
#include <Zycore/Bitset.h>
int main()
{
    ZyanBitset b;
    return ZYAN_SUCCESS(ZyanBitsetInit(&b, 8)) && ZYAN_SUCCESS(ZyanBitsetSet(&b, 3)) && ZyanBitsetTest(&b, 3) == ZYAN_STATUS_TRUE && ZYAN_SUCCESS(ZyanBitsetDestroy(&b)) ? 0 : 1;
}
""", sh=CXX),
dict(id="iface-restrict", prop="X01",
  edits=[("include/Zycore/Bitset.h", "ZyanBitsetXOR(ZyanBitset* destination, const ZyanBitset* source);", "ZyanBitsetXOR(ZyanBitset* restrict destination, const ZyanBitset* source);")],
  needs="a C++ program that includes the header", breaks="the header is not C++", ext="cpp",
  demo="""
#include <Zycore/Bitset.h>
int main()
{
    ZyanBitset b;
    return ZYAN_SUCCESS(ZyanBitsetInit(&b, 8)) && ZYAN_SUCCESS(ZyanBitsetXOR(&b, &b)) && ZYAN_SUCCESS(ZyanBitsetDestroy(&b)) ? 0 : 1;
}
""", sh=CXX),
dict(id="iface-vector-guard", prop="X01",
  edits=[("src/Vector.c", "        ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR, ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD);\n}\n\n#endif // ZYAN_NO_LIBC\n\nZyanStatus ZyanVectorInitEx(",
          "        ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR, ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD);\n}\n\nZyanStatus ZyanVectorInitEx("),
         ("src/Vector.c", "ZyanStatus ZyanVectorInitCustomBuffer(ZyanVector* vector, ZyanUSize element_size,\n", "#endif // ZYAN_NO_LIBC\n\nZyanStatus ZyanVectorInitCustomBuffer(ZyanVector* vector, ZyanUSize element_size,\n")],
  needs="a program built with ZYAN_NO_LIBC that brings its own allocator", breaks="ZyanVectorInitEx is declared but missing",
  demo="""
#include <Zycore/Vector.h>
static char memory[1024];
static ZyanStatus allocate(ZyanAllocator* a, void** p, ZyanUSize n, ZyanUSize k)
{
    *p = memory;
    return n * k <= sizeof(memory) ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_NOT_ENOUGH_MEMORY;
}
static ZyanStatus deallocate(ZyanAllocator* a, void* p, ZyanUSize n, ZyanUSize k) { return ZYAN_STATUS_SUCCESS; }
int main(void)
{
    ZyanAllocator a;
    ZyanVector v;
    int x = 5;
    return ZYAN_SUCCESS(ZyanAllocatorInit(&a, allocate, allocate, deallocate)) && ZYAN_SUCCESS(ZyanVectorInitEx(&v, sizeof(int), 8, 0, &a, 2, 0)) &&
        ZYAN_SUCCESS(ZyanVectorPushBack(&v, &x)) && *(const int*)ZyanVectorGet(&v, 0) == 5 ? 0 : 1;
}
""", sh=NOLIBC_USER),
dict(id="macro-foreach-names", prop="H01",
  edits=[("include/Zycore/Vector.h", """#define ZYAN_VECTOR_FOREACH(type, vector, item_name, body) \\
    { \\
        const ZyanUSize ZYAN_MACRO_CONCAT_EXPAND(size_d50d3303, item_name) = (vector)->size; \\
        for (ZyanUSize ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name) = 0; \\
            ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name) < \\
            ZYAN_MACRO_CONCAT_EXPAND(size_d50d3303, item_name); \\
            ++ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)) \\
        { \\
            const type item_name = ZYAN_VECTOR_GET(type, vector, \\
                ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)); \\
""", """#define ZYAN_VECTOR_FOREACH(type, vector, item_name, body) \\
    { \\
        const ZyanUSize ZYAN_MACRO_CONCAT_EXPAND(size_d50d3303, item_name) = (vector)->size; \\
        for (ZyanUSize index = 0; \\
            index < \\
            ZYAN_MACRO_CONCAT_EXPAND(size_d50d3303, item_name); \\
            ++index) \\
        { \\
            const type item_name = ZYAN_VECTOR_GET(type, vector, \\
                index); \\
""")],
  needs="a loop whose body uses a variable called index", breaks="the body sees the counter of the macro",
  demo=B + """
int main(void)
{
    ZyanVector v;
    int index = 100, sum = 0, k;
    CHECK(ZYAN_SUCCESS(ZyanVectorInit(&v, sizeof(int), 4, ZYAN_NULL)));
    for (k = 0; k < 4; ++k) ZyanVectorPushBack(&v, &k);
    ZYAN_VECTOR_FOREACH(int, &v, x, sum += x + index; )
    CHECK(sum == 406);
    ZyanVectorDestroy(&v);
    return 0;
}
"""),
dict(id="macro-foreach-walk", prop="H01",
  edits=[("include/Zycore/Vector.h", """            type* const item_name = (type*)ZyanVectorGetMutable(vector, \\
                ZYAN_MACRO_CONCAT_EXPAND(i_bfd62679, item_name)); \\
""" if False else """#define ZYAN_VECTOR_GET(type, vector, index) \\
    (*(const type*)ZyanVectorGet(vector, index))
""", """#define ZYAN_VECTOR_GET(type, vector, index) \\
    (((const type*)(vector)->data)[index])
""")],
  needs="a macro whose type is only the beginning of the elements", breaks="the elements are counted in units of the type instead of their real size",
  demo=B + """
typedef struct { int key; int rest[3]; } Entry;
int main(void)
{
    ZyanVector v;
    int sum = 0, k;
    CHECK(ZYAN_SUCCESS(ZyanVectorInit(&v, sizeof(Entry), 4, ZYAN_NULL)));
    for (k = 1; k < 5; ++k) { Entry e = { k, { 0, 0, 0 } }; ZyanVectorPushBack(&v, &e); }
    ZYAN_VECTOR_FOREACH(int, &v, key, sum += key; )
    CHECK(sum == 10 && ZYAN_VECTOR_GET(int, &v, 2) == 3);
    ZyanVectorDestroy(&v);
    return 0;
}
"""),
dict(id="macro-list-node", prop="H01",
  edits=[("include/Zycore/List.h", "    (*(const type*)ZyanListGetNodeData(node))\n", "    (*(const type*)(node + 1))\n")],
  needs="a conditional expression as the node", breaks="reads from behind the wrong node, or the node itself",
  demo=B + """
int main(void)
{
    ZyanList l;
    int k;
    const ZyanListNode *h, *t;
    CHECK(ZYAN_SUCCESS(ZyanListInit(&l, sizeof(int), ZYAN_NULL)));
    for (k = 1; k < 5; ++k) ZyanListPushBack(&l, &k);
    CHECK(ZYAN_SUCCESS(ZyanListGetHeadNode(&l, &h)) && ZYAN_SUCCESS(ZyanListGetTailNode(&l, &t)));
    for (k = 0; k < 2; ++k) CHECK(ZYAN_LIST_GET(int, k ? h : t) == (k ? 1 : 4));
    ZyanListDestroy(&l);
    return 0;
}
"""),
]
