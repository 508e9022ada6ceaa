/* Compile-time facts of the analysed headers: read from the emitted constants, never executed. */
#include <stddef.h>
#include <Zycore/Zycore.h>
#include <Zycore/Types.h>
#include <Zycore/Status.h>
#include <Zycore/Allocator.h>
#include <Zycore/Vector.h>
#include <Zycore/String.h>
#include <Zycore/List.h>
#include <Zycore/Bitset.h>
#include <Zycore/ArgParse.h>
#include <Zycore/Format.h>
#include <Zycore/API/Memory.h>
#include <Zycore/API/Terminal.h>
#include <sys/mman.h>
#include <errno.h>
#include <unistd.h>
#include <pthread.h>
#define F(T, f) const unsigned long long off_##T##_##f = offsetof(T, f);
#define S(T) const unsigned long long sizeof_##T = sizeof(T);
#define C(n) const unsigned long long val_##n = (unsigned long long)(n);
S(ZyanVector) F(ZyanVector, allocator) F(ZyanVector, growth_factor) F(ZyanVector, shrink_threshold) F(ZyanVector, size)
F(ZyanVector, capacity) F(ZyanVector, element_size) F(ZyanVector, destructor) F(ZyanVector, data)
S(ZyanAllocator) F(ZyanAllocator, allocate) F(ZyanAllocator, reallocate) F(ZyanAllocator, deallocate)
S(ZyanString) F(ZyanString, flags) F(ZyanString, vector) S(ZyanStringView) F(ZyanStringView, string)
const unsigned long long sizeof_flags = sizeof(ZyanStringFlags);
S(ZyanBitset) F(ZyanBitset, size) F(ZyanBitset, bits)
S(ZyanList) F(ZyanList, allocator) F(ZyanList, size) F(ZyanList, element_size) F(ZyanList, destructor) F(ZyanList, head)
F(ZyanList, tail) F(ZyanList, buffer) F(ZyanList, capacity) F(ZyanList, first_unused)
S(ZyanListNode) F(ZyanListNode, prev) F(ZyanListNode, next)
S(ZyanArgParseConfig) F(ZyanArgParseConfig, argv) F(ZyanArgParseConfig, argc) F(ZyanArgParseConfig, min_unnamed_args)
F(ZyanArgParseConfig, max_unnamed_args) F(ZyanArgParseConfig, args)
S(ZyanArgParseDefinition) F(ZyanArgParseDefinition, name) F(ZyanArgParseDefinition, boolean) F(ZyanArgParseDefinition, required)
S(ZyanArgParseArg) F(ZyanArgParseArg, def) F(ZyanArgParseArg, has_value) F(ZyanArgParseArg, value)
C(ZYAN_STATUS_SUCCESS) C(ZYAN_STATUS_FAILED) C(ZYAN_STATUS_TRUE) C(ZYAN_STATUS_FALSE) C(ZYAN_STATUS_INVALID_ARGUMENT)
C(ZYAN_STATUS_INVALID_OPERATION) C(ZYAN_STATUS_ACCESS_DENIED) C(ZYAN_STATUS_NOT_FOUND) C(ZYAN_STATUS_OUT_OF_RANGE)
C(ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE) C(ZYAN_STATUS_NOT_ENOUGH_MEMORY) C(ZYAN_STATUS_BAD_SYSTEMCALL)
C(ZYAN_STATUS_OUT_OF_RESOURCES) C(ZYAN_STATUS_MISSING_DEPENDENCY) C(ZYAN_STATUS_ARG_NOT_UNDERSTOOD)
C(ZYAN_STATUS_TOO_FEW_ARGS) C(ZYAN_STATUS_TOO_MANY_ARGS) C(ZYAN_STATUS_ARG_MISSES_VALUE) C(ZYAN_STATUS_REQUIRED_ARG_MISSING)
C(ZYAN_VECTOR_MIN_CAPACITY) C(ZYAN_VECTOR_DEFAULT_GROWTH_FACTOR) C(ZYAN_VECTOR_DEFAULT_SHRINK_THRESHOLD)
C(ZYAN_STRING_MIN_CAPACITY) C(ZYAN_STRING_DEFAULT_GROWTH_FACTOR) C(ZYAN_STRING_DEFAULT_SHRINK_THRESHOLD)
C(ZYAN_STRING_HAS_FIXED_CAPACITY)
C(ZYAN_PAGE_READONLY) C(ZYAN_PAGE_READWRITE) C(ZYAN_PAGE_EXECUTE) C(ZYAN_PAGE_EXECUTE_READ) C(ZYAN_PAGE_EXECUTE_READWRITE)
C(PROT_READ) C(PROT_WRITE) C(PROT_EXEC) C(_SC_PAGE_SIZE) C(EBUSY) C(EAGAIN) C(ENOMEM) C(EPERM) C(EINVAL)
C(ZYAN_STDSTREAM_IN) C(ZYAN_STDSTREAM_OUT) C(ZYAN_STDSTREAM_ERR)
C(STDIN_FILENO) C(STDOUT_FILENO) C(STDERR_FILENO) C(PTHREAD_MUTEX_RECURSIVE) C(ENOTTY) C(EBADF)
C(ZYCORE_VERSION) C(MS_SYNC) C(MS_INVALIDATE)
const unsigned long long sizeof_mutex = sizeof(pthread_mutex_t);
