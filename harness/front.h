// What generated source files (spec/Source.tla) include.
#pragma once
#include <algorithm>
#include <cinttypes>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <string>
#ifdef FRONT_CPP17
#include "NanoLogCpp17.h"
#else
#include "NanoLog.h"
#endif
using namespace NanoLog::LogLevels;
static inline void say(const char *s) { printf("%s\x1e", s); }
static inline int n(int k) { printf("n%d\x1e", k); return k; }
static inline bool yes() { return true; }
static inline bool no() { return false; }
static inline int idx(int a, int b) { return a + b; }
template <int A, int B> int pick() { return A * 10 + B; }
static int arr[] = {0, 11, 22, 33, 44};
static inline void MY_NANO_LOG(const char *s) { say(s); }
static inline void NANO_LOGX(const char *s) { say(s); }
static inline void xNANO_LOG(const char *s) { say(s); }
static inline void NNANO_LOG(const char *s) { say(s); }
static inline void NANO_LOG_(const char *s) { say(s); }
static inline void NANO_LOG1(const char *s) { say(s); }
struct Obj { void xNANO_LOG(const char *s) { say(s); } };
#define TWICE(x) ((x) * 2)
#define WRAP(...) do { __VA_ARGS__ } while (0);
#define LOG2(x) NANO_LOG(NOTICE, "two %d", x); NANO_LOG(WARNING, "two %d", x)
#define LVL_ERROR ERROR
#define LVL_WARNING WARNING
#define LVL_NOTICE NOTICE
#define LVL_DEBUG DEBUG
