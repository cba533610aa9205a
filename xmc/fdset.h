// included before everything else in the sources under test: an fd_set only has
// room for FD_SETSIZE descriptors, using it for others is reported
#pragma once
#include <sys/select.h>
extern "C" long xmc_fd_elt(long fd);
#undef __FD_ELT
#define __FD_ELT(d) xmc_fd_elt(d)
