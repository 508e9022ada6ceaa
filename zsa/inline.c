/* Instantiates the inline functions and macros of the public headers so that they can be analysed.  Never executed. */
#include <Zycore/Atomic.h>
#include <Zycore/Comparison.h>
#include <Zycore/Defines.h>
#include <Zycore/Format.h>
#include <Zycore/Status.h>
#include <Zycore/Types.h>
#include <Zycore/Zycore.h>

/* keeps the inline functions */
const void* const keep[] = {
    ZyanAtomicCompareExchange, ZyanAtomicIncrement, ZyanAtomicDecrement,
    ZyanAtomicCompareExchange32, ZyanAtomicIncrement32, ZyanAtomicDecrement32,
    ZyanAtomicCompareExchange64, ZyanAtomicIncrement64, ZyanAtomicDecrement64,
    ZyanEqualsPointer, ZyanEqualsBool, ZyanEqualsNumeric8, ZyanEqualsNumeric16, ZyanEqualsNumeric32, ZyanEqualsNumeric64,
    ZyanComparePointer, ZyanCompareBool, ZyanCompareNumeric8, ZyanCompareNumeric16, ZyanCompareNumeric32, ZyanCompareNumeric64,
    ZyanAbsI64,
};

/* the macro forms of the atomic operations, on plain variables as documented */
ZyanUPointer inl_cas(ZyanVoidPointer* d, ZyanUPointer c, ZyanUPointer v) { return ZYAN_ATOMIC_COMPARE_EXCHANGE(*d, c, v); }
ZyanUPointer inl_inc(ZyanVoidPointer* d) { return ZYAN_ATOMIC_INCREMENT(*d); }
ZyanUPointer inl_dec(ZyanVoidPointer* d) { return ZYAN_ATOMIC_DECREMENT(*d); }
ZyanU32 inl_cas32(ZyanU32* d, ZyanU32 c, ZyanU32 v) { return ZYAN_ATOMIC_COMPARE_EXCHANGE32(*d, c, v); }
ZyanU32 inl_inc32(ZyanU32* d) { return ZYAN_ATOMIC_INCREMENT32(*d); }
ZyanU32 inl_dec32(ZyanU32* d) { return ZYAN_ATOMIC_DECREMENT32(*d); }
ZyanU64 inl_cas64(ZyanU64* d, ZyanU64 c, ZyanU64 v) { return ZYAN_ATOMIC_COMPARE_EXCHANGE64(*d, c, v); }
ZyanU64 inl_inc64(ZyanU64* d) { return ZYAN_ATOMIC_INCREMENT64(*d); }
ZyanU64 inl_dec64(ZyanU64* d) { return ZYAN_ATOMIC_DECREMENT64(*d); }

/* comparison functions declared by the user, for signed elements and for a field */
typedef struct Rec_ { ZyanU64 other; ZyanI32 key; ZyanU32 more; } Rec;
ZYAN_DECLARE_EQUALITY_COMPARISON(inl_eq_i8, ZyanI8)
ZYAN_DECLARE_EQUALITY_COMPARISON(inl_eq_i16, ZyanI16)
ZYAN_DECLARE_EQUALITY_COMPARISON(inl_eq_i32, ZyanI32)
ZYAN_DECLARE_EQUALITY_COMPARISON(inl_eq_i64, ZyanI64)
ZYAN_DECLARE_EQUALITY_COMPARISON_FOR_FIELD(inl_eq_key, Rec, key)
ZYAN_DECLARE_COMPARISON(inl_cmp_i8, ZyanI8)
ZYAN_DECLARE_COMPARISON(inl_cmp_i16, ZyanI16)
ZYAN_DECLARE_COMPARISON(inl_cmp_i32, ZyanI32)
ZYAN_DECLARE_COMPARISON(inl_cmp_i64, ZyanI64)
ZYAN_DECLARE_COMPARISON_FOR_FIELD(inl_cmp_key, Rec, key)

/* arithmetic */
#define PER_TYPE(n, T) \
    T inl_min_##n(T a, T b) { return ZYAN_MIN(a, b); } \
    T inl_max_##n(T a, T b) { return ZYAN_MAX(a, b); }
PER_TYPE(u8, ZyanU8) PER_TYPE(u16, ZyanU16) PER_TYPE(u32, ZyanU32) PER_TYPE(u64, ZyanU64)
PER_TYPE(i8, ZyanI8) PER_TYPE(i16, ZyanI16) PER_TYPE(i32, ZyanI32) PER_TYPE(i64, ZyanI64)
ZyanU64 inl_minexpr(ZyanU64 a, ZyanU64 b) { return ZYAN_MIN(a | 1, b & 7) - 0; }
/* operands and uses of lowest precedence: a macro has to treat both as a whole */
ZyanU64 inl_w_min(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_MIN(c ? x : y, c ? y : x) + 1; }
ZyanU64 inl_w_max(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_MAX(c ? x : y, c ? y : x) + 1; }
ZyanI64 inl_w_abs(ZyanU64 c, ZyanI64 x, ZyanI64 y) { return 1 + ZYAN_ABS(c ? x : y) + 1; }
ZyanU64 inl_w_pow(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_IS_POWER_OF_2(c ? x : y) + 1; }
ZyanU64 inl_w_isal(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_IS_ALIGNED_TO(c ? x : y, c ? (ZyanU64)16 : (ZyanU64)64) + 1; }
ZyanU64 inl_w_alup(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_ALIGN_UP(c ? x : y, c ? (ZyanU64)16 : (ZyanU64)64) + 1; }
ZyanU64 inl_w_aldn(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_ALIGN_DOWN(c ? x : y, c ? (ZyanU64)16 : (ZyanU64)64) + 1; }
ZyanU64 inl_w_bits(ZyanU64 c, ZyanU64 x, ZyanU64 y) { return 1 + ZYAN_BITS_TO_REPRESENT(c ? x : y) + 1; }
ZyanI32 inl_abs_i32(ZyanI32 a) { return ZYAN_ABS(a); }
ZyanI64 inl_abs_i64(ZyanI64 a) { return ZYAN_ABS(a); }
ZyanI64 inl_abs_diff(ZyanI64 a, ZyanI64 b) { return ZYAN_ABS(a - b); }
ZyanBool inl_pow2_u32(ZyanU32 x) { return ZYAN_IS_POWER_OF_2(x) ? 1 : 0; }
ZyanBool inl_pow2_u64(ZyanU64 x) { return ZYAN_IS_POWER_OF_2(x) ? 1 : 0; }
#define ALIGN(k) \
    ZyanBool inl_isal_##k(ZyanU64 x) { return ZYAN_IS_ALIGNED_TO(x, (ZyanU64)1 << k) ? 1 : 0; } \
    ZyanU64 inl_alup_##k(ZyanU64 x) { return ZYAN_ALIGN_UP(x, (ZyanU64)1 << k); } \
    ZyanU64 inl_aldn_##k(ZyanU64 x) { return ZYAN_ALIGN_DOWN(x, (ZyanU64)1 << k); }
#define ALIGN32(k) \
    ZyanBool inl_isal32_##k(ZyanU32 x) { return ZYAN_IS_ALIGNED_TO(x, (ZyanU32)1 << k) ? 1 : 0; } \
    ZyanU32 inl_alup32_##k(ZyanU32 x) { return ZYAN_ALIGN_UP(x, (ZyanU32)1 << k); } \
    ZyanU32 inl_aldn32_##k(ZyanU32 x) { return ZYAN_ALIGN_DOWN(x, (ZyanU32)1 << k); }
#define E8(M, a, b, c, d, e, f, g, h) M(a) M(b) M(c) M(d) M(e) M(f) M(g) M(h)
#define ALIGNI(k) \
    ZyanBool inl_isali_##k(ZyanU64 x) { return ZYAN_IS_ALIGNED_TO(x, 1 << k) ? 1 : 0; } \
    ZyanU64 inl_alupi_##k(ZyanU64 x) { return ZYAN_ALIGN_UP(x, 1 << k); } \
    ZyanU64 inl_aldni_##k(ZyanU64 x) { return ZYAN_ALIGN_DOWN(x, 1 << k); }
E8(ALIGN, 0, 1, 2, 3, 4, 5, 6, 7) E8(ALIGN, 8, 9, 10, 11, 12, 13, 14, 15) E8(ALIGN, 16, 17, 18, 19, 20, 21, 22, 23)
E8(ALIGN, 24, 25, 26, 27, 28, 29, 30, 31) E8(ALIGN, 32, 33, 34, 35, 36, 37, 38, 39) E8(ALIGN, 40, 41, 42, 43, 44, 45, 46, 47)
E8(ALIGN, 48, 49, 50, 51, 52, 53, 54, 55) E8(ALIGN, 56, 57, 58, 59, 60, 61, 62, 63)
E8(ALIGN32, 0, 1, 2, 3, 4, 5, 6, 7) E8(ALIGN32, 8, 9, 10, 11, 12, 13, 14, 15) E8(ALIGN32, 16, 17, 18, 19, 20, 21, 22, 23)
E8(ALIGN32, 24, 25, 26, 27, 28, 29, 30, 31)
E8(ALIGNI, 0, 1, 2, 3, 4, 5, 6, 7) E8(ALIGNI, 8, 9, 10, 11, 12, 13, 14, 15) E8(ALIGNI, 16, 17, 18, 19, 20, 21, 22, 23)
ALIGNI(24) ALIGNI(25) ALIGNI(26) ALIGNI(27) ALIGNI(28) ALIGNI(29) ALIGNI(30)
ZyanU32 inl_bits(ZyanU32 n) { return ZYAN_BITS_TO_REPRESENT(n); }
ZyanU64 inl_div64(ZyanU64 n) { ZYAN_DIV64(n, 10); return n; }
static const ZyanU16 eleven[11];
ZyanUSize inl_arraylen(void) { return ZYAN_ARRAY_LENGTH(eleven); }

/* status codes and version */
ZyanStatus inl_make(ZyanU32 e, ZyanU32 m, ZyanU32 c) { return ZYAN_MAKE_STATUS(e, m, c); }
ZyanBool inl_success(ZyanStatus s) { return ZYAN_SUCCESS(s) ? 1 : 0; }
ZyanBool inl_failed(ZyanStatus s) { return ZYAN_FAILED(s) ? 1 : 0; }
ZyanU32 inl_module(ZyanStatus s) { return ZYAN_STATUS_MODULE(s); }
ZyanU32 inl_code(ZyanStatus s) { return ZYAN_STATUS_CODE(s); }
ZyanStatus inl_next(void);
ZyanStatus inl_check(ZyanU32* done) { ZYAN_CHECK(inl_next()); *done = 1; return ZYAN_STATUS_TRUE; }
ZyanU16 inl_vmajor(ZyanU64 v) { return ZYCORE_VERSION_MAJOR(v); }
ZyanU16 inl_vminor(ZyanU64 v) { return ZYCORE_VERSION_MINOR(v); }
ZyanU16 inl_vpatch(ZyanU64 v) { return ZYCORE_VERSION_PATCH(v); }
ZyanU16 inl_vbuild(ZyanU64 v) { return ZYCORE_VERSION_BUILD(v); }

/* width and signedness of the fixed-width types */
#define TYPE(T) const unsigned long long type_##T = sizeof(T) * 8 + ((T)-1 < (T)1 ? 1000 : 0);
TYPE(ZyanU8) TYPE(ZyanU16) TYPE(ZyanU32) TYPE(ZyanU64) TYPE(ZyanI8) TYPE(ZyanI16) TYPE(ZyanI32) TYPE(ZyanI64)
TYPE(ZyanUSize) TYPE(ZyanISize) TYPE(ZyanUPointer) TYPE(ZyanIPointer) TYPE(ZyanBool) TYPE(ZyanTernary) TYPE(ZyanStatus)
const unsigned long long type_pointer = sizeof(void*) * 8;
const long long val_TRUE = ZYAN_TRUE, val_FALSE = ZYAN_FALSE, val_TTRUE = ZYAN_TERNARY_TRUE, val_TFALSE = ZYAN_TERNARY_FALSE, val_TUNKNOWN = ZYAN_TERNARY_UNKNOWN;
#define LIM(n) const unsigned long long lim_##n = (unsigned long long)(long long)ZYAN_##n;
LIM(INT8_MIN) LIM(INT16_MIN) LIM(INT32_MIN) LIM(INT64_MIN) LIM(INT8_MAX) LIM(INT16_MAX) LIM(INT32_MAX) LIM(INT64_MAX)
LIM(UINT8_MAX) LIM(UINT16_MAX) LIM(UINT32_MAX) LIM(UINT64_MAX)
