H = r'''
#define ZYAN_NO_LIBC
#include <Zycore/LibC.h>
#include <stdio.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
F = "include/Zycore/LibC.h"
SEEDS = [
 dict(id="libc-strncmp-signed", prop="P01",
  edits=[(F, "            return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);\n", "            return (s1[-1] < s2[-1]) ? -1 : 1;\n")],
  needs="the first different bytes lie on different sides of 127",
  breaks="ZYAN_STRNCMP orders bytes above 127 before ASCII",
  demo=H + r'''
int main(void)
{
    CHECK(ZYAN_STRNCMP("ab\xc3\xa4", "abz", 3) > 0 && ZYAN_STRNCMP("abz", "ab\xc3\xa4", 4) < 0);
    CHECK(ZYAN_STRNCMP("abc", "abd", 2) == 0 && ZYAN_STRNCMP("abc", "abd", 3) < 0);
    return 0;
}
'''),
 dict(id="libc-memmove-direction", prop="P01",
  edits=[(F, "    if (ps < pd)\n", "    if (ps + n <= pd)\n")],
  needs="a move to a higher address that overlaps its source",
  breaks="the tail of the moved bytes repeats the head",
  demo=H + r'''
int main(void)
{
    char b[] = "abcdefgh";
    ZYAN_MEMMOVE(b + 2, b, 6);
    CHECK(ZYAN_MEMCMP(b, "ababcdef", 8) == 0);
    ZYAN_MEMMOVE(b, b + 2, 6);
    CHECK(ZYAN_MEMCMP(b, "abcdefef", 8) == 0);
    return 0;
}
'''),
 dict(id="libc-strstr-skip", prop="P01",
  edits=[(F, """        if (!ZYAN_MEMCMP(s1++, s2, n))
        {
            return (char*)(s1 - 1);
        }
""", """        ZyanUSize i = 0;
        while (i < n && s1[i] == s2[i])
        {
            ++i;
        }
        if (i == n)
        {
            return (char*)s1;
        }
        s1 += i ? i : 1;
""")],
  needs="a match that begins inside a longer partial match",
  breaks="ZYAN_STRSTR misses the match",
  demo=H + r'''
int main(void)
{
    const char* t = "xaaab";
    CHECK(ZYAN_STRSTR(t, "aab") == t + 2);
    CHECK(ZYAN_STRSTR(t, "xa") == t);
    CHECK(ZYAN_STRSTR(t, "bbb") == 0);
    return 0;
}
'''),
 dict(id="libc-memchr-int", prop="P01",
  edits=[(F, "        if (*p != (ZyanU8)c)\n", "        if (*p != c)\n")],
  needs="a search byte given as a negative char",
  breaks="ZYAN_MEMCHR does not find it",
  demo=H + r'''
int main(void)
{
    char b[3] = { 'a', (char)0xE9, 'c' };
    CHECK(ZYAN_MEMCHR(b, (signed char)b[1], 3) == b + 1);
    CHECK(ZYAN_MEMCHR(b, 'c', 3) == b + 2 && ZYAN_MEMCHR(b, 'c', 2) == 0);
    return 0;
}
'''),
 dict(id="libc-strrchr-end", prop="P01",
  edits=[(F, """    do
    {
        if (*s == (char)c)
        {
            ret = (char*)s;
        }
    } while (*s++);
    return ret;
""", """    for (; *s; s++)
    {
        if (*s == (char)c)
        {
            ret = (char*)s;
        }
    }
    return ret;
""")],
  needs="searching for the terminating null character",
  breaks="ZYAN_STRRCHR returns NULL instead of the end of the string",
  demo=H + r'''
int main(void)
{
    const char* t = "abca";
    CHECK(ZYAN_STRRCHR(t, 'a') == t + 3 && ZYAN_STRRCHR(t, 'x') == 0);
    CHECK(ZYAN_STRRCHR(t, 0) == t + 4);
    return 0;
}
'''),
]
