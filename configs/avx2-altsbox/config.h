/* config.h.  Generated from config.h.in by configure.  */
/* config.h.in.  Generated from configure.ac by autoheader.  */

/* Target is big-endian */
/* #undef DVBCSA_ENDIAN_BIG */

/* Target is little-endian */
#define DVBCSA_ENDIAN_LITTLE 1

/* Using AltiVec bitslice. */
/* #undef DVBCSA_USE_ALTIVEC */

/* Using alternative sbox lookup. */
#define DVBCSA_USE_ALT_SBOX 1

/* Using AVX2 bitslice. */
#define DVBCSA_USE_AVX2 1

/* Using MMX bitslice. */
/* #undef DVBCSA_USE_MMX */

/* Using NEON bitslice. */
/* #undef DVBCSA_USE_NEON */

/* Using SSE2 bitslice. */
/* #undef DVBCSA_USE_SSE */

/* Using SSSE3 bitslice. */
/* #undef DVBCSA_USE_SSSE3 */

/* Using 32 bits integer bitslice. */
/* #undef DVBCSA_USE_UINT32 */

/* Using 64 bits integer bitslice. */
/* #undef DVBCSA_USE_UINT64 */

/* Define to 1 if you have the <assert.h> header file. */
#define HAVE_ASSERT_H 1

/* Define to 1 if __attribute__((may_alias)) works */
#define HAVE_ATTRIBUTE_MAY_ALIAS 1

/* Define to 1 if you have the <dlfcn.h> header file. */
#define HAVE_DLFCN_H 1

/* Define to 1 if you have the <inttypes.h> header file. */
#define HAVE_INTTYPES_H 1

/* _mm_malloc is available */
#define HAVE_MM_MALLOC 1

/* posix_memalign is available */
#define HAVE_POSIX_MEMALIGN 1

/* Define to 1 if you have the <stdint.h> header file. */
#define HAVE_STDINT_H 1

/* Define to 1 if you have the <stdio.h> header file. */
#define HAVE_STDIO_H 1

/* Define to 1 if you have the <stdlib.h> header file. */
#define HAVE_STDLIB_H 1

/* Define to 1 if you have the <strings.h> header file. */
#define HAVE_STRINGS_H 1

/* Define to 1 if you have the <string.h> header file. */
#define HAVE_STRING_H 1

/* Define to 1 if you have the <sys/stat.h> header file. */
#define HAVE_SYS_STAT_H 1

/* Define to 1 if you have the <sys/types.h> header file. */
#define HAVE_SYS_TYPES_H 1

/* Define to 1 if you have the <unistd.h> header file. */
#define HAVE_UNISTD_H 1

/* Define to the sub-directory where libtool stores uninstalled libraries. */
#define LT_OBJDIR ".libs/"

/* Name of package */
#define PACKAGE "libdvbcsa"

/* Define to the address where bug reports for this package should be sent. */
#define PACKAGE_BUGREPORT ""

/* Define to the full name of this package. */
#define PACKAGE_NAME "libdvbcsa"

/* Define to the full name and version of this package. */
#define PACKAGE_STRING "libdvbcsa 1.1.0"

/* Define to the one symbol short name of this package. */
#define PACKAGE_TARNAME "libdvbcsa"

/* Define to the home page for this package. */
#define PACKAGE_URL ""

/* Define to the version of this package. */
#define PACKAGE_VERSION "1.1.0"

/* The size of `long', as computed by sizeof. */
#define SIZEOF_LONG 8

/* Define to 1 if all of the C90 standard headers exist (not just the ones
   required in a freestanding environment). This macro is provided for
   backward compatibility; new code need not use it. */
#define STDC_HEADERS 1

/* Version number of package */
#define VERSION "1.1.0"

/* Define WORDS_BIGENDIAN to 1 if your processor stores words with the most
   significant byte first (like Motorola and SPARC, unlike Intel). */
#if defined AC_APPLE_UNIVERSAL_BUILD
# if defined __BIG_ENDIAN__
#  define WORDS_BIGENDIAN 1
# endif
#else
# ifndef WORDS_BIGENDIAN
/* #  undef WORDS_BIGENDIAN */
# endif
#endif

/* Define to empty if `const' does not conform to ANSI C. */
/* #undef const */

/* Define to `__inline__' or `__inline' if that's what the C compiler
   calls it, or to nothing if 'inline' is not supported under any name.  */
#ifndef __cplusplus
/* #undef inline */
#endif
