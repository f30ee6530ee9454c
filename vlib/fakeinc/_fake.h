#ifndef FAKE_H
#define FAKE_H
typedef unsigned long size_t;
typedef long ssize_t;
typedef long ptrdiff_t;
typedef signed char int8_t; typedef unsigned char uint8_t;
typedef short int16_t; typedef unsigned short uint16_t;
typedef int int32_t; typedef unsigned int uint32_t;
typedef long int64_t; typedef unsigned long uint64_t;
typedef long time_t;
typedef int FILE;
typedef _Bool bool;
#define true 1
#define false 0
#define NULL ((void*)0)
#define INT_MAX 2147483647
#define INT_MIN (-2147483647-1)
#define LONG_MAX 9223372036854775807L
#define LONG_MIN (-9223372036854775807L-1)
#define ERANGE 34
#define EINVAL 22
#define BUFSIZ 8192
#define EXIT_FAILURE 1
#define EXIT_SUCCESS 0
struct timespec { long tv_sec; long tv_nsec; };
typedef double __m512d;
typedef double __m256d;
typedef double __m128d;
typedef long __m512i;
typedef long __m256i;
typedef long __m128i;
typedef int __mmask8;
extern FILE *stderr; extern FILE *stdout; extern FILE *stdin;
extern int errno;
extern const double M_PI, M_E, M_SQRT2, M_SQRT1_2, M_PI_2, M_PI_4, M_1_PI, M_2_PI, M_2_SQRTPI, M_LN2, M_LN10, M_LOG2E, M_LOG10E;
extern const double NAN, INFINITY, DBL_EPSILON, DBL_MAX;
#define _CMP_GT_OQ 30
#define _CMP_LT_OQ 17
#define _CMP_GE_OQ 29
#define _CMP_LE_OQ 18
#define _CMP_EQ_OQ 0
#define _CMP_GT_OS 14
#define _CMP_LT_OS 1
#define _CMP_GE_OS 13
#define _CMP_LE_OS 2
#endif
