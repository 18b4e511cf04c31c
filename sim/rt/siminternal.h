#ifndef SIMINTERNAL_H
#define SIMINTERNAL_H
#include "simrt.h"
#include <sys/types.h>
namespace sim {
enum { MAXTH = 512, MAXCHOICES = 1 << 18 };
struct Shared {
    uint64_t hash, obsHash, faults[F_N], schedDecisions, switches, steps, fileOps, simNs, phases, threads;
    int viol; char key[256]; char msg[4000];
    int nontrivial; int traceOn; int choiceOverflow, payloadOverflow; uint64_t badUnlock, destroyBusy; int leftThreads; uint64_t dropMax;
    int outcome, code; char pmsg[4000]; uint64_t psteps, pfileOps, preads, pallocs, psimNs;
    char cname[48][40]; uint64_t cval[48];
    uint32_t sampleLen, traceLen, payloadLen, nChoices; char sample[4096];
    unsigned char funcBits[8192];
    // not cleared between runs
    Choice choices[MAXCHOICES];
    char trace[1 << 20];
    char payload[96 << 20];
};
extern Shared *sh;
extern volatile bool g_active;
extern uint64_t g_step, g_next;
void slowStep();
bool inSim();
void traceLine(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
}
// network hooks (simnet.cpp or the weak stubs in simnet_stub.cpp)
bool sim_net_is(int fd);
int sim_net_close(int fd);
ssize_t sim_net_send(int fd, const void *b, size_t n, int flags);
ssize_t sim_net_recv(int fd, void *b, size_t n, int flags);
void sim_net_reset();
#endif
