/* the code the project compiles on 32-bit targets (same data model as the rest of the analysis) */
#include <Zycore/Defines.h>
#undef ZYAN_X64
#define ZYAN_X86
#include "src/Format.c"
