// Fault enumeration: an operation is run once to count its allocations, then once per allocation with that one
// failing, and once per allocation with it and all later ones failing, each in a forked process.
#pragma once
#include "common.h"
#include "mcrt.h"
#include <cstring>
#include <new>
#include <functional>
#include <sys/mman.h>
#include <unistd.h>
namespace F {
// runs the operation; returns "" exact, "!<text>" refused through its documented channel, anything else is a wrong outcome
typedef std::function<std::string()> Op;
inline void say(const std::string& s) { size_t n = s.size(); const char* p = s.data(); while (n) { ssize_t k = write(2, p, n); if (k <= 0) break; p += k; n -= (size_t) k; } }
struct Stat { uint64_t points = 0, exact = 0, refused = 0, ended = 0; };
// after: executed without faults in the same process after a refusal; must return ""
inline void sweep(const std::string& name, const Op& op, const Op& after, Stat& st, bool may_end, uint64_t stride = 1, double cpu = 30) {
  uint64_t total = 0;
  { H::begin("%s, counting allocations", name.c_str());
    auto p = H::run_forked([&] { mc::fault_arm(3, 0); std::string r = op(); mc::fault_pause(); uint64_t n = mc::fault_count(); say("#" + std::to_string(n) + " " + r); return 0; }, cpu);
    auto at = p.err.rfind('#'); if (!p.exited || at == std::string::npos) { H::viol("%s ends abnormally without any fault: %s", name.c_str(), p.err.c_str()); return; }
    total = strtoull(p.err.c_str() + at + 1, nullptr, 10); std::string r = p.err.substr(p.err.find(' ', at) + 1); if (!r.empty()) { H::viol("%s without any fault: %s", name.c_str(), r.c_str()); return; } }
  for (int mode = 1; mode <= 2; mode++) for (uint64_t i = 0; i < total; i++) {
    if (stride > 1 && i >= 200 && total - i > 200 && i % stride) continue;
    if (!H::mine(i)) continue;
    H::begin("%s, allocation %llu of %llu%s fails", name.c_str(), (unsigned long long) i, (unsigned long long) total, mode == 2 ? " and every later one" : "");
    H::evals++; H::distinct++; st.points++;
    auto p = H::run_forked([&] {
      mc::fault_arm(mode, i); std::string r = op(); mc::fault_pause(); uint64_t hits = mc::fault_hits();
      if (!hits) r = "the fault was not reached"; // the allocation sequence is deterministic
      if (r.empty() || r[0] == '!') { std::string a = after(); if (!a.empty()) r = "after the failure: " + a; }
      say("\x01" + r); return 0; }, cpu);
    auto at = p.err.rfind('\x01'); std::string r = at == std::string::npos ? "" : p.err.substr(at + 1);
    if (p.exited && at != std::string::npos && r.empty()) st.exact++;
    else if (p.exited && at != std::string::npos && r[0] == '!') st.refused++;
    // a worker thread that cannot continue ends the process through std::terminate, with a diagnostic and no result
    else if (may_end && p.sig == 6 && p.err.find("terminate called") != std::string::npos) st.ended++;
    else H::viol("%s when allocation %llu of %llu%s fails: %s", name.c_str(), (unsigned long long) i, (unsigned long long) total, mode == 2 ? " and every later one" : "", at != std::string::npos ? r.c_str() : p.sig ? ("signal " + std::to_string(p.sig) + " " + p.err.substr(0, 300)).c_str() : ("exit " + std::to_string(p.code)).c_str());
    if (H::nviol() > 8) return;
  }
}
// a program run: its standard output must be exactly `want` with status 0, or hold no result and the status be nonzero
inline void sweep_main(const std::string& name, const std::function<int()>& prog, const std::string& want, const std::function<bool(const std::string&)>& harmless, Stat& st, double cpu = 30) {
  H::begin("%s, counting allocations", name.c_str());
  static uint64_t* cnt = nullptr; if (!cnt) cnt = (uint64_t*) mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  static int armed; armed = 0;
  auto p = H::run_forked([&] { atexit([] { *cnt = mc::fault_count(); }); mc::fault_arm(3, 0); int rc = prog(); *cnt = mc::fault_count(); return rc; }, cpu);
  uint64_t total = *cnt;
  if (!p.exited || p.code || p.out != want) { H::viol("%s without any fault: status %d, output %s", name.c_str(), p.code, p.out.c_str()); return; }
  for (int mode = 1; mode <= 2; mode++) for (uint64_t i = 0; i < total; i++) {
    if (!H::mine(i)) continue;
    H::begin("%s, allocation %llu of %llu%s fails", name.c_str(), (unsigned long long) i, (unsigned long long) total, mode == 2 ? " and every later one" : "");
    H::evals++; H::distinct++; st.points++;
    auto q = H::run_forked([&] { mc::fault_arm(mode, i); return prog(); }, cpu);
    if (q.exited && q.code == 0 && q.out == want) st.exact++;
    else if (q.exited && q.code != 0 && harmless(q.out)) st.refused++;
    else if (q.sig == 6 && q.err.find("terminate called") != std::string::npos && harmless(q.out)) st.ended++;
    else H::viol("%s when allocation %llu of %llu%s fails: status %d, signal %d, output '%s'", name.c_str(), (unsigned long long) i, (unsigned long long) total, mode == 2 ? " and every later one" : "", q.code, q.sig, q.out.substr(0, 200).c_str());
    if (H::nviol() > 8) return;
  }
}
}
