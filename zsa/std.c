/* What the C standard says the string functions do, for calls the code makes to functions that
   have no dedicated model.  Interpreted like any other function of the program; never executed. */
#include <stddef.h>

void* memchr(const void* s, int c, size_t n)
{
    const unsigned char* p = (const unsigned char*)s;
    for (size_t i = 0; i < n; ++i)
    {
        if (p[i] == (unsigned char)c)
        {
            return (void*)(p + i);
        }
    }
    return 0;
}

char* strchr(const char* s, int c)
{
    for (size_t i = 0;; ++i)
    {
        if (s[i] == (char)c)
        {
            return (char*)s + i;
        }
        if (!s[i])
        {
            return 0;
        }
    }
}

char* strrchr(const char* s, int c)
{
    const char* r = 0;
    for (size_t i = 0;; ++i)
    {
        if (s[i] == (char)c)
        {
            r = s + i;
        }
        if (!s[i])
        {
            return (char*)r;
        }
    }
}

size_t strnlen(const char* s, size_t n)
{
    size_t i = 0;
    while (i < n && s[i])
    {
        ++i;
    }
    return i;
}

char* strcpy(char* d, const char* s)
{
    size_t i = 0;
    for (; s[i]; ++i)
    {
        d[i] = s[i];
    }
    d[i] = 0;
    return d;
}

char* strncpy(char* d, const char* s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; ++i)
    {
        d[i] = s[i];
    }
    for (; i < n; ++i)
    {
        d[i] = 0;
    }
    return d;
}

char* strcat(char* d, const char* s)
{
    size_t k = 0, i = 0;
    while (d[k])
    {
        ++k;
    }
    for (; s[i]; ++i)
    {
        d[k + i] = s[i];
    }
    d[k + i] = 0;
    return d;
}

char* strncat(char* d, const char* s, size_t n)
{
    size_t k = 0, i = 0;
    while (d[k])
    {
        ++k;
    }
    for (; i < n && s[i]; ++i)
    {
        d[k + i] = s[i];
    }
    d[k + i] = 0;
    return d;
}

char* strstr(const char* h, const char* n)
{
    for (;; ++h)
    {
        size_t i = 0;
        while (n[i] && h[i] == n[i])
        {
            ++i;
        }
        if (!n[i])
        {
            return (char*)h;
        }
        if (!*h)
        {
            return 0;
        }
    }
}

/* the "C" locale, which is in force as nothing calls setlocale */
int toupper(int c)
{
    return (c >= 'a' && c <= 'z') ? c - 32 : c;
}

int tolower(int c)
{
    return (c >= 'A' && c <= 'Z') ? c + 32 : c;
}

int strcasecmp(const char* a, const char* b)
{
    for (;; ++a, ++b)
    {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y)
        {
            return x - y;
        }
        if (!x)
        {
            return 0;
        }
    }
}

int strncasecmp(const char* a, const char* b, size_t n)
{
    for (size_t i = 0; i < n; ++i)
    {
        int x = tolower((unsigned char)a[i]), y = tolower((unsigned char)b[i]);
        if (x != y)
        {
            return x - y;
        }
        if (!x)
        {
            return 0;
        }
    }
    return 0;
}

int abs(int x)
{
    return x < 0 ? -x : x;
}
