#ifndef SIMNET_H
#define SIMNET_H
#include <stddef.h>
#include <stdint.h>
// Configuration of the simulated network; set inside a phase, before the first socket is made. fdLimit: open descriptors (0 = no limit), buffer: bytes in flight per direction.
struct SimNetCfg { int fdLimit; size_t buffer; bool refuse, resolveFails, socketFails; int addresses; SimNetCfg() : fdLimit(0), buffer(0), refuse(false), resolveFails(false), socketFails(false), addresses(1) {} };
void sim_net_config(const SimNetCfg &c);
int sim_net_open_server();          // descriptors on the accepting side still open
int sim_net_open();                 // all open descriptors
uint64_t sim_net_conns();           // connections made
bool sim_net_listening(int port);
void sim_net_abort(int fd);         // close with a reset
#endif
