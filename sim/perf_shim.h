// Force-included into pmu.cc: its system calls go to the simulated kernel.
#ifndef VERIF_SIM_PERF_SHIM_H_
#define VERIF_SIM_PERF_SHIM_H_
#include <fcntl.h>
#include <sys/ioctl.h>
#include <syscall.h>
#include <unistd.h>

#include <cstdio>
#include <fstream>
#include <iostream>
#include <sstream>

extern "C" {
long sim_syscall(long number, ...);
int sim_ioctl(int fd, unsigned long request, ...);
ssize_t sim_read(int fd, void* buf, size_t n);
int sim_close(int fd);
}
#define syscall sim_syscall
#define ioctl sim_ioctl
#define read sim_read
#define close sim_close
#endif
