#include "siminternal.h"
bool sim_net_is(int) { return false; }
int sim_net_close(int) { return -1; }
ssize_t sim_net_send(int, const void *, size_t, int) { return -1; }
ssize_t sim_net_recv(int, void *, size_t, int) { return -1; }
void sim_net_reset() {}
