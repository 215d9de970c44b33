// File operations as contract points: the code under contract calls these instead of libc
// (renamed by the preprocessor after all system headers are in), for the verifier and for native runs alike.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <list>
#include <set>
#include <queue>
#include <algorithm>
#include <functional>
#include <memory>
#include <mutex>
#include <thread>
#include <condition_variable>
#include <atomic>
#include <array>
#include <iostream>
#include <fstream>
#include <sstream>
#include <iomanip>
#include <random>
#include <chrono>
#include <stdexcept>
#include <cmath>
#include <limits>
#include <utility>
#include <errno.h>
#ifdef VC_NOHARNESS
typedef uint64_t u64; typedef uint32_t u32; typedef uint8_t u8;
#define VC_SYMBOLIC 0
struct vc_failed { const char* what; };
#else
#include "vc.h"
#endif
static FILE* io_fopen(const char* name, const char* mode);
static size_t io_fread(void* p, size_t sz, size_t n, FILE* f);
static size_t io_fwrite(const void* p, size_t sz, size_t n, FILE* f);
static int io_fseek(FILE* f, long off, int wh);
static int io_fclose(FILE* f);
static int io_fflush(FILE* f);
static int io_ferror(FILE* f);
static int io_feof(FILE* f);
static int io_rename(const char* a, const char* b);
static int io_remove(const char* a);
namespace std { using ::io_fopen; using ::io_fread; using ::io_fwrite; using ::io_fseek; using ::io_fclose; using ::io_fflush; using ::io_ferror; using ::io_rename; using ::io_remove; }
#define fopen io_fopen
#define fread io_fread
#define fwrite io_fwrite
#define fseek io_fseek
#define fseeko io_fseek
#define fclose io_fclose
#define fflush io_fflush
#define ferror io_ferror
#define feof io_feof
#define rename io_rename
#define remove io_remove
