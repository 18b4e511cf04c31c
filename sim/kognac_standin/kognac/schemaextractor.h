#ifndef KS_schemaextractor
#define KS_schemaextractor
#include <kognac/utils.h>
#endif
