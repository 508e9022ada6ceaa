"""changes from the later blind batteries (Vector, String, List, Bitset, Format)"""
import runpy, os
B = runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)), "seeds_10.py"))["B"]
F = "src/Format.c"; S = "src/String.c"; V = "src/Vector.c"; L = "src/List.c"; BI = "src/Bitset.c"
SEEDS = [
dict(id="str-upper-seven-bit", prop="S07",
  edits=[(S, "        if ((c >= 'a') && (c <= 'z'))", "        if (((c & 0x7F) >= 'a') && ((c & 0x7F) <= 'z'))")],
  needs="characters outside ASCII", breaks="characters that are no letters are changed",
  demo=B + """
int main(void)
{
    ZyanString s;
    char c;
    OK(ZyanStringInit(&s, 8));
    OK(ZyanStringResize(&s, 2));
    OK(ZyanStringSetChar(&s, 0, (char)0xE1));
    OK(ZyanStringSetChar(&s, 1, 'q'));
    OK(ZyanStringToUpperCase(&s));
    OK(ZyanStringGetChar((const ZyanStringView*)&s, 0, &c));
    CHECK(c == (char)0xE1);
    OK(ZyanStringDestroy(&s));
    return 0;
}
"""),
dict(id="str-min-capacity-terminator", prop="S02",
  edits=[(S, "    capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;", "    capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity + 1);")],
  needs="a string created with a small capacity", breaks="one character of the documented minimum capacity is missing, as the terminator takes its place",
  demo=B + """
int main(void)
{
    ZyanString s;
    ZyanUSize n;
    OK(ZyanStringInit(&s, 31));
    OK(ZyanStringGetCapacity(&s, &n));
    CHECK(n >= ZYAN_STRING_MIN_CAPACITY);
    OK(ZyanStringDestroy(&s));
    return 0;
}
"""),
dict(id="str-duplicate-stops-at-null", prop="S03",
  edits=[(S, """    ZYAN_ASSERT(destination->vector.capacity >= len);

    ZYAN_MEMCPY(destination->vector.data, source->string.vector.data,
        source->string.vector.size - 1);
    destination->vector.size = len;
    ZYCORE_STRING_NULLTERMINATE(destination);

    return ZYAN_STATUS_SUCCESS;
}

ZyanStatus ZyanStringDuplicateCustomBuffer(""", """    ZYAN_ASSERT(destination->vector.capacity >= len);

    ZYAN_STRNCPY((char*)destination->vector.data, (const char*)source->string.vector.data,
        source->string.vector.size - 1);
    destination->vector.size = len;
    ZYCORE_STRING_NULLTERMINATE(destination);

    return ZYAN_STATUS_SUCCESS;
}

ZyanStatus ZyanStringDuplicateCustomBuffer(""")],
  needs="a view with a null character in the middle", breaks="the characters behind it are lost",
  demo=B + """
int main(void)
{
    ZyanString s;
    ZyanStringView v;
    char c;
    OK(ZyanStringViewInsideBufferEx(&v, "ab\\0cd", 5));
    OK(ZyanStringDuplicate(&s, &v, 0));
    OK(ZyanStringGetChar((const ZyanStringView*)&s, 4, &c));
    CHECK(c == 'd');
    OK(ZyanStringDestroy(&s));
    return 0;
}
"""),
dict(id="str-lpos-strchr", prop="S01",
  edits=[(S, """    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
    {
        if (*s != *b)
        {
            continue;
        }
""", """    for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
    {
        s = ZYAN_STRCHR(s, *b);
        if (!s)
        {
            break;
        }
""")],
  needs="a view of characters that are not followed by a null character", breaks="the search reads on behind the view",
  demo=B + """
#include <sys/mman.h>
#include <unistd.h>
int main(void)
{
    const ZyanUSize page = (ZyanUSize)sysconf(_SC_PAGESIZE);
    char* m = (char*)mmap(0, 2 * page, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    ZyanStringView h, n;
    ZyanISize at = 0;
    CHECK(m != MAP_FAILED && !mprotect(m + page, page, PROT_NONE));
    memset(m + page - 4, 'a', 4);
    OK(ZyanStringViewInsideBufferEx(&h, m + page - 4, 4));
    OK(ZyanStringViewInsideBuffer(&n, "b"));
    CHECK(ZyanStringLPos(&h, &n, &at) == ZYAN_STATUS_FALSE && at == -1);
    return 0;
}
"""),
dict(id="bs-toggle-neighbour", prop="B02",
  edits=[(BI, "    *value ^= (1 << ZYAN_BITSET_BIT_OFFSET(index));", "    *value ^= (1 << ZYAN_BITSET_BIT_OFFSET(index)) | (*value & 1 & (index >> 11));")],
  needs="an index above 2047 in a byte whose last bit is set", breaks="the last bit of the byte is cleared as well",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    OK(ZyanBitsetInit(&b, 4096));
    OK(ZyanBitsetSet(&b, 2055));
    OK(ZyanBitsetToggle(&b, 2048));
    CHECK(ZyanBitsetTest(&b, 2055) == ZYAN_STATUS_TRUE);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
dict(id="bs-capacity-32", prop="B01",
  edits=[(BI, "    *capacity *= 8;", "    *capacity = (ZyanU16)*capacity * (ZyanUSize)8;")],
  needs="room for more than 65535 bytes", breaks="the capacity is reported modulo 65536 bytes",
  demo=B + """
int main(void)
{
    ZyanBitset b;
    ZyanUSize n;
    OK(ZyanBitsetInit(&b, 8));
    OK(ZyanBitsetReserve(&b, 8 * 65536));
    OK(ZyanBitsetGetCapacity(&b, &n));
    CHECK(n >= 8 * 65536);
    OK(ZyanBitsetDestroy(&b));
    return 0;
}
"""),
]
