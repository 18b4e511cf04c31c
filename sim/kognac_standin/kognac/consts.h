#ifndef KS_CONSTS_H
#define KS_CONSTS_H
#include <kognac/logs.h>
#include <stdint.h>
#include <stddef.h>
typedef int64_t nTerm;
typedef char tTerm;
#define MAX_TERM_SIZE 32768
#define MAX_N_PATTERNS 3
#define DICT_HEURISTICS "heuristics"
#define DICT_HASH "hash"
#define DICT_SMART "smart"
#define PARSE_COUNTMIN 0
#define PARSE_MISRAGRIES 1
#ifndef __GNUC_PREREQ
#define __GNUC_PREREQ(a,b) 0
#endif
#endif
