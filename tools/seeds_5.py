H = r'''
#include <stdio.h>
#include <string.h>
#include <stdlib.h>
#include <errno.h>
#include <pthread.h>
#include <Zycore/Zycore.h>
#include <Zycore/Atomic.h>
#include <Zycore/Comparison.h>
#include <Zycore/Defines.h>
#include <Zycore/Status.h>
#include <Zycore/Vector.h>
#include <Zycore/API/Memory.h>
#include <Zycore/API/Process.h>
#include <Zycore/API/Synchronization.h>
#include <Zycore/API/Terminal.h>
#include <Zycore/API/Thread.h>
#define CHECK(c) do { if (!(c)) { printf("line %d: %s\n", __LINE__, #c); return 1; } } while (0)
'''
SEEDS = [
 dict(id="cmp-signed-order", prop="C01",
  edits=[("include/Zycore/Comparison.h", """        if (*left < *right) \\
        { \\
            return -1; \\
        } \\
        if (*left > *right) \\
""", """        if ((ZyanI64)*left < (ZyanI64)*right) \\
        { \\
            return -1; \\
        } \\
        if (*left != *right) \\
""")],
  needs="two elements of which exactly one exceeds the signed 64-bit range",
  breaks="sorted insertion orders large unsigned values before small ones",
  demo=H + r'''
int main(void)
{
    ZyanU64 a = 1, b = 0x8000000000000000ull, c = 0x7fffffffffffffffull;
    CHECK(ZyanCompareNumeric64(&a, &b) < 0 && ZyanCompareNumeric64(&b, &a) > 0);
    CHECK(ZyanCompareNumeric64(&c, &b) < 0 && ZyanCompareNumeric64(&b, &c) > 0);
    CHECK(ZyanCompareNumeric64(&a, &c) < 0 && ZyanCompareNumeric64(&c, &c) == 0);
    return 0;
}
'''),
 dict(id="cmp-field-type", prop="C01",
  edits=[("include/Zycore/Comparison.h", "        if (left->field_name < right->field_name) \\\n",
          "        if ((left->field_name - right->field_name) < 0) \\\n")],
  needs="a signed field whose difference overflows, or an unsigned one",
  breaks="structures are ordered wrongly by the field",
  demo=H + r'''
typedef struct { int other; ZyanU32 key; } Rec;
ZYAN_DECLARE_COMPARISON_FOR_FIELD(by_key, Rec, key)
int main(void)
{
    Rec a = { 0, 1 }, b = { 0, 4000000000u };
    CHECK(by_key(&a, &b) < 0 && by_key(&b, &a) > 0 && by_key(&a, &a) == 0);
    return 0;
}
'''),
 dict(id="bits-gap", prop="C02",
  edits=[("include/Zycore/Defines.h", "#define ZYAN_NEEDS_BIT(n, b) (((unsigned long)(n) >> (b)) > 0)", "#define ZYAN_NEEDS_BIT(n, b) ((((unsigned long)(n) >> (b)) & 1) > 0)")],
  needs="a value whose binary form has a zero below its highest one",
  breaks="bit fields are declared too narrow for their largest enumerator",
  demo=H + r'''
int main(void)
{
    CHECK(ZYAN_BITS_TO_REPRESENT(7) == 3);
    CHECK(ZYAN_BITS_TO_REPRESENT(8) == 4);
    CHECK(ZYAN_BITS_TO_REPRESENT(0x80000000u) == 32);
    return 0;
}
'''),
 dict(id="aligned-bare-operand", prop="C02",
  edits=[("include/Zycore/Defines.h", "#define ZYAN_IS_ALIGNED_TO(x, align) (((x) & ((align) - 1)) == 0)", "#define ZYAN_IS_ALIGNED_TO(x, align) (((x) % align) == 0)")],
  needs="an alignment given as an expression of lower precedence than a division",
  breaks="an unaligned value is taken for aligned",
  demo=H + r'''
int main(void)
{
    unsigned x = 17, k = 3;
    CHECK(ZYAN_IS_ALIGNED_TO(x, 16) == 0 && ZYAN_IS_ALIGNED_TO(x + 15, 16));
    CHECK(ZYAN_IS_ALIGNED_TO(x + 7, 1 << k));
    CHECK(!ZYAN_IS_ALIGNED_TO(12, 1 << k));
    return 0;
}
'''),
 dict(id="check-twice", prop="C03",
  edits=[("include/Zycore/Status.h", """        if (!ZYAN_SUCCESS(status_047620348)) \\
        { \\
            return status_047620348; \\
        } \\
""", """        if (!ZYAN_SUCCESS(status_047620348)) \\
        { \\
            return (status); \\
        } \\
""")],
  needs="a checked call whose second evaluation behaves differently from the first",
  breaks="a failing call is executed again and its error may get lost",
  demo=H + r'''
static int n;
static ZyanStatus once(void) { return n++ ? ZYAN_STATUS_SUCCESS : ZYAN_STATUS_NOT_ENOUGH_MEMORY; }
static ZyanStatus user(void) { ZYAN_CHECK(once()); return ZYAN_STATUS_SUCCESS; }
int main(void)
{
    CHECK(user() == ZYAN_STATUS_NOT_ENOUGH_MEMORY && n == 1);
    return 0;
}
'''),
 dict(id="atomic-reread", prop="K01",
  edits=[("include/Zycore/Internal/AtomicGNU.h", "    return (ZyanU64)(__sync_fetch_and_add(&destination->value, 1, &destination->value)) + 1;",
          "    __sync_fetch_and_add(&destination->value, 1, &destination->value);\n    return destination->value;")],
  needs="another thread that changes the counter between the increment and the read",
  breaks="two threads get the same ticket",
  demo=H + r'''
#define N 2000000
static ZyanAtomic64 counter;
static unsigned char seen[4 * N + 8];
static volatile int clash, go;
static void* work(void* p)
{
    while (!go) { }
    for (int i = 0; i < N; ++i)
    {
        ZyanU64 v = ZyanAtomicIncrement64(&counter);
        if (v > 4 * N || __sync_fetch_and_add(&seen[v], 1)) clash = 1;
    }
    return p;
}
int main(void)
{
    pthread_t t[4];
    for (int i = 0; i < 4; ++i) pthread_create(&t[i], 0, work, 0);
    go = 1;
    for (int i = 0; i < 4; ++i) pthread_join(t[i], 0);
    CHECK(!clash && counter.value == 4 * N);
    return 0;
}
''', flags="-O2"),
 dict(id="atomic-plain-check", prop="K01",
  edits=[("include/Zycore/Internal/AtomicGNU.h", "    return (ZyanU32)(__sync_val_compare_and_swap(&destination->value, comparand, value, \n        &destination->value));",
          "    return __sync_bool_compare_and_swap(&destination->value, comparand, value) ?\n        comparand : destination->value;")],
  needs="another thread that restores the comparand after the exchange failed and before the value is read",
  breaks="a failed exchange reports the comparand, so that two threads believe to own the object",
  demo=H + r'''
#define N 3000000
static ZyanAtomic32 lock;
static volatile unsigned shared, go;
static void* work(void* p)
{
    unsigned n = 0;
    while (!go) { }
    for (int i = 0; i < N; ++i)
    {
        if (ZyanAtomicCompareExchange32(&lock, 0, 1) == 0)
        {
            if (__sync_fetch_and_add(&shared, 1)) n++;
            __sync_fetch_and_sub(&shared, 1);
            ZyanAtomicCompareExchange32(&lock, 1, 0);
        }
    }
    return (void*)(unsigned long)n;
}
int main(void)
{
    pthread_t t[4];
    unsigned long bad = 0;
    for (int i = 0; i < 4; ++i) pthread_create(&t[i], 0, work, 0);
    go = 1;
    for (int i = 0; i < 4; ++i) { void* r; pthread_join(t[i], &r); bad += (unsigned long)r; }
    CHECK(bad == 0);
    return 0;
}
''', flags="-O2"),
 dict(id="try-enter-busy", prop="T01",
  edits=[("src/API/Synchronization.c", "    return pthread_mutex_trylock(critical_section) ? ZYAN_FALSE : ZYAN_TRUE;",
          "    return (pthread_mutex_trylock(critical_section) == EBUSY) ? ZYAN_FALSE : ZYAN_TRUE;")],
  needs="a lock attempt that fails for another reason than being held, e.g. EAGAIN at the maximum recursion depth",
  breaks="the section counts as entered without having been locked",
  demo=H + r'''
int pthread_mutex_trylock(pthread_mutex_t* m) { return EAGAIN; }
int main(void)
{
    ZyanCriticalSection c;
    CHECK(ZYAN_SUCCESS(ZyanCriticalSectionInitialize(&c)));
    CHECK(!ZyanCriticalSectionTryEnter(&c));
    return 0;
}
''', flags="-O1"),
 dict(id="section-attr-leak", prop="T01",
  edits=[("src/API/Synchronization.c", """    error = pthread_mutex_init(critical_section, &attribute);
    pthread_mutexattr_destroy(&attribute);
    if (error != 0)
    {
        if (error == EAGAIN)
        {
            return ZYAN_STATUS_OUT_OF_RESOURCES;
        }
        if (error == ENOMEM)
        {
            return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
        }
        if (error == EPERM)
        {
            return ZYAN_STATUS_ACCESS_DENIED;
        }
        if ((error == EBUSY) || (error == EINVAL))
        {
            return ZYAN_STATUS_INVALID_ARGUMENT;
        }
        return ZYAN_STATUS_BAD_SYSTEMCALL;
    }

""", """    error = pthread_mutex_init(critical_section, &attribute);
    if (error != 0)
    {
        if (error == EAGAIN)
        {
            return ZYAN_STATUS_OUT_OF_RESOURCES;
        }
        if (error == ENOMEM)
        {
            return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
        }
        if (error == EPERM)
        {
            return ZYAN_STATUS_ACCESS_DENIED;
        }
        if ((error == EBUSY) || (error == EINVAL))
        {
            return ZYAN_STATUS_INVALID_ARGUMENT;
        }
        return ZYAN_STATUS_BAD_SYSTEMCALL;
    }
    pthread_mutexattr_destroy(&attribute);

""")],
  needs="pthread_mutex_init failing",
  breaks="the attribute object is leaked",
  demo=H + r'''
static int live;
int pthread_mutexattr_init(pthread_mutexattr_t* a) { live++; return 0; }
int pthread_mutexattr_destroy(pthread_mutexattr_t* a) { live--; return 0; }
int pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { return 0; }
int pthread_mutex_init(pthread_mutex_t* m, const pthread_mutexattr_t* a) { return EAGAIN; }
int main(void)
{
    ZyanCriticalSection c;
    CHECK(ZyanCriticalSectionInitialize(&c) == ZYAN_STATUS_OUT_OF_RESOURCES);
    CHECK(live == 0);
    return 0;
}
''', flags="-O1"),
 dict(id="tls-null-value", prop="T02",
  edits=[("src/API/Thread.c", "    const int error = pthread_setspecific(index, data);\n    if (error != 0)\n",
          "    const int error = data ? pthread_setspecific(index, data) : 0;\n    if (error != 0)\n")],
  needs="resetting a slot that holds a value to NULL",
  breaks="the old value stays and its destructor still runs",
  demo=H + r'''
int main(void)
{
    ZyanThreadTlsIndex i;
    void* p = 0;
    int v;
    CHECK(ZYAN_SUCCESS(ZyanThreadTlsAlloc(&i, 0)));
    CHECK(ZYAN_SUCCESS(ZyanThreadTlsSetValue(i, &v)));
    CHECK(ZYAN_SUCCESS(ZyanThreadTlsGetValue(i, &p)) && p == &v);
    CHECK(ZYAN_SUCCESS(ZyanThreadTlsSetValue(i, 0)));
    CHECK(ZYAN_SUCCESS(ZyanThreadTlsGetValue(i, &p)) && p == 0);
    CHECK(ZYAN_SUCCESS(ZyanThreadTlsFree(i)));
    return 0;
}
''', flags="-O1"),
 dict(id="protect-swallow", prop="T03",
  edits=[("src/API/Memory.c", "    if (mprotect(address, size, protection))\n", "    if (mprotect(address, size, protection) > 0)\n")],
  needs="a failing mprotect, e.g. an unmapped or misaligned range",
  breaks="a failed change of protection is reported as success",
  demo=H + r'''
int main(void)
{
    CHECK(ZyanMemoryVirtualProtect((void*)(ZyanUPointer)0x1001, 1, ZYAN_PAGE_READONLY) == ZYAN_STATUS_BAD_SYSTEMCALL);
    return 0;
}
''', flags="-O1"),
 dict(id="tty-stale-errno", prop="T03",
  edits=[("src/API/Terminal.c", """    if ( isatty(file))
#endif
    {
        return ZYAN_STATUS_TRUE;
    }
    if (ZYAN_ERRNO == EBADF)
    {
        // Invalid file descriptor
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
""", """    if ( isatty(file) && (ZYAN_ERRNO != EBADF))
#endif
    {
        return ZYAN_STATUS_TRUE;
    }
    if (ZYAN_ERRNO == EBADF)
    {
        // Invalid file descriptor
        return ZYAN_STATUS_INVALID_ARGUMENT;
    }
""")],
  needs="an errno left over from an earlier unrelated failure",
  breaks="a terminal is reported as an invalid stream",
  demo=H + r'''
int isatty(int fd) { return fd == 1; }
int main(void)
{
    errno = EBADF;
    CHECK(ZyanTerminalIsTTY(ZYAN_STDSTREAM_OUT) == ZYAN_STATUS_TRUE);
    return 0;
}
''', flags="-O1"),
]
