#pragma once
#include <stddef.h>
#include <stdint.h>
void vs_emit(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void vs_snap(int fd);
void vs_snapPath(const char *path);
const char *vs_scenario();
int vs_self();
long vs_live();
long vs_ios();
void vs_point();
void vs_watch(size_t lo, size_t hi);
void vs_off();
void vs_on();
uint64_t vs_rnd();
void vs_verdict(const char *v);
