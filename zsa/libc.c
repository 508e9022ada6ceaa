/* Instantiates the fallbacks for environments without a C library so that they can be analysed.  Never executed. */
#include <Zycore/LibC.h>

const void* const keep[] = {
    ZYAN_MEMCHR, ZYAN_MEMCMP, ZYAN_MEMCPY, ZYAN_MEMMOVE, ZYAN_MEMSET, ZYAN_STRCAT, ZYAN_STRCHR, ZYAN_STRCMP, ZYAN_STRCOLL, ZYAN_STRCPY,
    ZYAN_STRCSPN, ZYAN_STRLEN, ZYAN_STRNCAT, ZYAN_STRNCMP, ZYAN_STRNCPY, ZYAN_STRPBRK, ZYAN_STRRCHR, ZYAN_STRSPN, ZYAN_STRSTR, ZYAN_STRTOK, ZYAN_STRXFRM,
};
