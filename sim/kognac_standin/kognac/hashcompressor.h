#ifndef KS_hashcompressor
#define KS_hashcompressor
#include <kognac/utils.h>
#endif
