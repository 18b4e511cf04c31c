#ifndef KS_FPGROWTH_H
#define KS_FPGROWTH_H
#endif
