#include "mcrt.h"
namespace mc { bool tsan_on = false; uint64_t tsan_accesses() { return 0; } void tsan_watch(const void*, size_t) {} }
