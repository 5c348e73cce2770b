// C02: every algorithm variant, in-process and through its command line option.
#include "algos.h"
using namespace primesum;
extern "C" int ps_app_main(int, char**);
int main(int argc, char** argv) {
  H::init(argc, argv); mc::set_max_threads(8);
  if (H::on("dense")) {
    uint64_t N = H::thorough ? 400000 : 40000, B = 500;
    for (uint64_t b = 0; b * B < N; b++) {
      if (!H::mine(b)) continue;
      if (!H::time_left()) break;
      for (uint64_t x = b * B; x < (b + 1) * B; x++) {
        u128 w = O::prime_sum_small(x);
        for (auto& a : algos()) { H::begin("%s(%llu)", a.name, (unsigned long long) x); check_algo(a, x, w, 1 + x % 3); }
      }
    }
    if (H::shard == 0) for (i128 x : {(i128) -1, (i128) -2, (i128) -1000, -((i128) 1 << 62), -((i128) 1 << 63)}) for (auto& a : algos()) {
      H::begin("%s(%s)", a.name, H::s128(x).c_str());
      H::evals++;
      int256_t r = a.f(x, 2);
      if (r != 0) H::viol("%s(%s) = %s, expected 0", a.name, H::s128(x).c_str(), str(r).c_str());
    }
    H::sample("every x < %llu under all ten algorithm entry points", (unsigned long long) N);
  }
  if (H::on("structured")) {
    uint64_t max = (uint64_t) (H::thorough ? 1e12 : 3e10), k = 0;
    std::vector<uint64_t> xs; for (uint64_t x : O::structured((1 << 24) - 1, 2)) xs.push_back(x);
    for (uint64_t x : O::anchor_keys()) if (x >= (1 << 24) && x <= max) xs.push_back(x);
    std::reverse(xs.begin(), xs.end());
    for (size_t i = 0; i < xs.size(); i++) {
      uint64_t x = xs[i];
      if (!H::thorough && x > 100000000 && i % 3) continue;
      for (auto& a : algos()) {
        if (x > a.cheap) continue;
        if (!H::mine(k++)) continue;
        if (!H::time_left()) break;
        u128 w = O::prime_sum(x);
        H::begin("%s(%llu)", a.name, (unsigned long long) x);
        check_algo(a, x, w, 1 + i % 4);
        if (k % 100 < 8) H::sample("%s(%llu)", a.name, (unsigned long long) x);
      }
    }
    // where the sum leaves 63, 64 and 65 bits
    for (uint64_t x : {21000000000ull, 21500000000ull, 30500000000ull, 44000000000ull, 63000000000ull}) for (auto& a : algos()) {
      if (x > 2 * a.cheap) continue;
      if (!H::mine(k++)) continue;
      H::begin("%s(%llu)", a.name, (unsigned long long) x); check_algo(a, x, O::lucy_sum(x), 1);
    }
  }
  if (H::on("cli")) { // through the real main(): right number, or nonzero status and no number
    std::vector<std::pair<std::string, std::string>> in; // argument, expected ("" : must be refused for the 63-bit algorithms)
    auto put = [&](i128 v, std::string text) { in.push_back({text.empty() ? (v < 0 ? "0" + H::s128(v) : H::s128(v)) : text, v < 2 ? "0" : H::s128((i128) (v < ((i128) 1 << 50) ? O::prime_sum((uint64_t) v) : 0))}); };
    for (i128 v : {0, 1, 2, 3, 4, 10, 97, 100, 1000, 65537, 1000003}) put(v, "");
    put(10000, "1e4"); put(1024, "2^10"); put(4096, "1<<12"); put(255, "0xff"); put(-5, "0-5");
    put(-((i128) 1 << 63), ""); put(-((i128) 1 << 63) - 1, ""); put(-((i128) 1 << 64), ""); put(-((i128) 1 << 64) + 10, ""); put(-((i128) 1 << 64) - 10, ""); put(-((i128) 1 << 65) + 100, ""); put(-(((i128) 1 << 126) - 1 + ((i128) 1 << 126)), "");
    std::vector<std::string> big = {"2^63", "2^63+10", "2^64", "2^64+10", "2^64+2", "2^65+100", "2^96+7", "2^127", "2^127+9", "2^128+10", "2^128+2", "340282366920938463463374607431768211466", "2^192+30", "2^126+(2^126-1)"};
    uint64_t k = 0;
    for (auto& a : algos()) {
      for (auto& e : in) {
        if (!H::mine(k++)) continue;
        H::begin("primesum %s %s", e.first.c_str(), a.opt); H::evals++; H::distinct++;
        std::string o = a.opt, x = e.first, p = "primesum"; char* av[] = {&p[0], &x[0], &o[0], nullptr};
        auto r = H::run_forked([&] { return ps_app_main(3, av); }, 60);
        bool ok = r.exited && ((r.code == 0 && r.out == e.second + "\n") || (r.code != 0 && x[0] == '0' && x.size() > 15 && r.out.find(e.second + "\n") == std::string::npos));
        if (!ok) H::viol("primesum %s %s: status %d, output \"%s\", expected %s", x.c_str(), a.opt, r.status, r.out.substr(0, 200).c_str(), e.second.c_str());
      }
      bool narrow = std::string(a.opt).find("lmo") != std::string::npos;
      for (auto& b : big) {
        if (!narrow && b.compare(0, 3, "2^6") == 0) continue; // legitimately computes for hours
        if (!narrow && b.compare(0, 4, "2^96") == 0) continue;
        if (!H::mine(k++)) continue;
        H::begin("primesum %s %s", b.c_str(), a.opt); H::evals++; H::distinct++;
        std::string o = a.opt, x = b, p = "primesum"; char* av[] = {&p[0], &x[0], &o[0], nullptr};
        auto r = H::run_forked([&] { return ps_app_main(3, av); }, 10);
        bool digits = !r.out.empty() && r.out.find_first_not_of("0123456789-\n") == std::string::npos;
        if (!r.exited || r.code == 0 || digits) H::viol("primesum %s %s: status %d%s, output \"%s\"; x is outside the range of the algorithm and must be refused", x.c_str(), a.opt, r.status, r.timeout ? " (no refusal within 10 s)" : "", r.out.substr(0, 200).c_str());
      }
    }
    H::sample("%zu in-range and %zu out-of-range arguments through the command line under every algorithm option", in.size(), big.size());
  }
  return H::done();
}
