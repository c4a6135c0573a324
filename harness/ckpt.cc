// Drives the real checkpoint code (DiagInfo and DensMatElements save/load, Workdir) through a script of operations.
// Reports every result on file descriptor 2; the reference model lives in the driver.
#include <complex>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <iostream>
#include <unistd.h>
#include <traits.hpp>
#include <workdir.hpp>
#include <params.hpp>
#include <invar.hpp>
#include <step.hpp>
#include <eigen.hpp>
#include <operators.hpp>

using namespace NRG;
static void say(const std::string &s) { std::string t = s + "\n"; (void)!::write(2, t.data(), t.size()); }

struct Rng {
  uint64_t s;
  uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  size_t below(size_t n) { return n ? next() % n : 0; }
  double d() {
    switch (below(40)) {
      case 0: return 0.0; case 1: return -0.0; case 2: return 5e-324; case 3: return 1.7976931348623157e308; case 4: return std::numeric_limits<double>::infinity();
      default: { uint64_t b = (next() & 0x800fffffffffffffull) | ((1023ull - 30 + below(60)) << 52); double x; memcpy(&x, &b, 8); return x; }
    }
  }
};
template <typename T> T val(Rng &r);
template <> double val<double>(Rng &r) { return r.d(); }
template <> std::complex<double> val<std::complex<double>>(Rng &r) { const double a = r.d(); return {a, r.d()}; }

struct Hash {
  uint64_t h = 1469598103934665603ull;
  void bytes(const void *p, size_t n) { for (size_t i = 0; i < n; i++) { h ^= ((const unsigned char *)p)[i]; h *= 1099511628211ull; } }
  template <typename T> void put(const T &x) { bytes(&x, sizeof x); }
  void put(bool x) { unsigned char c = x; bytes(&c, 1); }
  template <typename T> void seq(const T &v) { put(size_t(v.size())); for (const auto &x : v) { auto y = x; put(y); } }
  template <typename M> void mat(const M &m) { put(size_t(size1(m))); put(size_t(size2(m))); for (size_t i = 0; i < size1(m); i++) for (size_t j = 0; j < size2(m); j++) { auto x = m(i, j); put(x); } }
};
template <typename S> EigenMatrix<S> randmat(Rng &r, size_t a, size_t b) {
  EigenMatrix<S> m(a, b);
  for (size_t i = 0; i < a; i++) for (size_t j = 0; j < b; j++) m(i, j) = val<S>(r);
  return m;
}
static Invar randinv(Rng &r) { const int a = int(r.below(2000)) - 1000; return Invar(a, int(r.below(9)) + 1); }

template <typename S> DiagInfo<S> gen_u(uint64_t seed, size_t shape, const Params &P) {
  Rng r{seed};
  DiagInfo<S> d;
  const auto nsubs = r.below(shape) + (r.below(12) ? 1 : 0);
  while (d.size() < nsubs) {
    const auto I = randinv(r);
    const auto dim = 1 + r.below(shape * 3), M = 1 + r.below(dim);
    Step step{P, RUNTYPE::NRG};
    if (r.below(3) == 0) step.set_last();
    RawEigen<S> raw(M, dim);
    for (auto &x : raw.val) x = r.d();
    raw.vec = randmat<S>(r, M, dim);
    NRG::Eigen<S> e(std::move(raw), step);
    auto vec = [&](size_t n) { std::vector<double> v(n); for (auto &x : v) x = r.d(); return v; };
    if (r.below(4)) e.values.set_corr(vec(M));
    if (r.below(4)) for (size_t i = 0; i < M; i++) e.values.set_crit(i, r.d());
    if (r.below(4)) e.values.set_scale(1.0 + double(r.below(1000)));
    if (r.below(4)) e.values.set_shift(double(r.below(1000)) / 7);
    if (r.below(4)) e.values.set_T_shift(double(r.below(1000)) / 3);
    if (r.below(4)) e.values.set_abs_GS_energy(-double(r.below(1000)));
    if (r.below(2)) { const auto nb = 1 + r.below(4); e.U.resize(nb); for (size_t i = 0; i < nb; i++) e.U.set(i, randmat<S>(r, M, r.below(4) ? 1 + r.below(shape) : 0)); }
    if (r.below(2)) e.truncate_prepare(r.below(M + 1));
    if (r.below(6) == 0) e.clear_eigenvectors();
    d[I] = std::move(e);
  }
  return d;
}
template <typename S> uint64_t dig_u(const DiagInfo<S> &d) {
  Hash h;
  h.put(size_t(d.size()));
  for (const auto &[I, e] : d) {
    h.put(I.getqn(0)); h.put(I.getqn(1));
    h.seq(e.values.all_rel()); h.seq(e.values.all_crit()); h.seq(e.values.all_corr());
    h.put(bool(e.values.has_abs())); h.put(bool(e.values.has_zero())); h.put(bool(e.values.has_abs_T())); h.put(bool(e.values.has_abs_G()));
    // a zero raw energy shows the offsets themselves
    { auto v = e.values; std::vector<double> z{0.0}; v.set(z);
      if (v.has_abs()) { v.set(std::vector<double>{1.0}); h.put(double(v.abs(0))); v.set(z); }
      if (v.has_zero()) h.put(double(v.rel_zero(0)));
      if (v.has_abs_T()) h.put(double(v.abs_T(0)));
      if (v.has_abs_G()) h.put(double(v.abs_G(0))); }
    h.mat(e.vectors.get()); h.put(size_t(e.getdim()));
    h.put(size_t(e.U.size())); for (size_t i = 0; i < e.U.size(); i++) h.mat(e.U.get(i));
    h.put(size_t(e.getnrkept())); h.put(size_t(e.getnrstored())); h.put(size_t(e.getnrcomputed())); h.put(size_t(e.Krange().size())); h.put(size_t(e.Drange().size()));
  }
  return h.h;
}
template <typename S> DensMatElements<S> gen_r(uint64_t seed, size_t shape) {
  Rng r{seed};
  DensMatElements<S> d;
  const auto nsubs = r.below(shape) + (r.below(12) ? 1 : 0);
  while (d.size() < nsubs) { const auto I = randinv(r); const auto n = r.below(12) ? 1 + r.below(shape * 3) : 0; d[I] = randmat<S>(r, n, r.below(5) ? n : r.below(shape)); }
  return d;
}
template <typename S> uint64_t dig_r(const DensMatElements<S> &d) {
  Hash h;
  h.put(size_t(d.size()));
  for (const auto &[I, m] : d) { h.put(I.getqn(0)); h.put(I.getqn(1)); h.mat(m); }
  return h.h;
}

static std::string hex(uint64_t x) { char b[32]; snprintf(b, sizeof b, "%016llx", (unsigned long long)x); return b; }
static std::string prefix(char k) { return k == 'r' || k == 'R' ? fn_rho : fn_rhoFDM; }
static std::string name(char k, size_t N, const Params &P) { return k == 'u' || k == 'U' ? P.workdir->unitaryfn(N) : P.workdir->rhofn(N, prefix(k)); }

template <typename F> static std::string attempt(F f) {
  try { f(); return "ok"; }
  catch (const std::exception &e) { return "err"; }
  catch (...) { return "err-other"; }
}
template <typename S> void do_save(char k, size_t N, uint64_t seed, size_t shape, const Params &P, const std::string &id) {
  if (k == 'u' || k == 'U') { auto d = gen_u<S>(seed, shape, P); const auto h = dig_u(d); say(id + " want " + hex(h)); const auto s = attempt([&] { d.save(N, P); }); say(id + " save " + s + " " + hex(h) + " " + (dig_u(d) == h ? "same" : "CHANGED")); }
  else { auto d = gen_r<S>(seed, shape); const auto h = dig_r(d); say(id + " want " + hex(h)); const auto s = attempt([&] { d.save(N, P, prefix(k)); }); say(id + " save " + s + " " + hex(h) + " " + (dig_r(d) == h ? "same" : "CHANGED")); }
}
template <typename S> void do_load(char k, size_t N, uint64_t seed, size_t shape, bool rm, bool ctor, const Params &P, const std::string &id) {
  if (k == 'u' || k == 'U') {
    auto d = gen_u<S>(seed, shape, P); const auto h = dig_u(d);
    const auto s = ctor ? attempt([&] { DiagInfo<S> x(N, P, rm); d = std::move(x); }) : attempt([&] { d.load(N, P, rm); });
    const auto g = dig_u(d);
    say(id + " load " + s + " " + hex(g) + " " + (g == h ? "same" : "changed"));
  } else {
    auto d = gen_r<S>(seed, shape); const auto h = dig_r(d);
    const auto s = attempt([&] { d.load(N, P, prefix(k), rm); });
    const auto g = dig_r(d);
    say(id + " load " + s + " " + hex(g) + " " + (g == h ? "same" : "changed"));
  }
}
static std::string slurp(const std::string &fn) { std::ifstream F(fn, std::ios::binary); std::ostringstream o; o << F.rdbuf(); return o.str(); }

static int run(char **argv) {
  Invar::invdim = 2;
  Invar::qntype = {additive, additive};
  std::vector<std::string> lines;
  { std::ifstream F(argv[1]); for (std::string l; std::getline(F, l);) lines.push_back(l); if (F.bad() || lines.empty()) throw std::bad_alloc(); }
  {
    Params P;
    P.Nmax = 1000;
    std::string wd = P.workdir->get();
    for (size_t n = 0; n < lines.size(); n++) {
      std::istringstream L(lines[n]);
      std::string c; L >> c;
      const auto id = std::to_string(n);
      if (c == "adopt") { // go on with the directory a dead process left
        std::string old; L >> old;
        ::rmdir(wd.c_str()); // fresh and empty
        if (::rename(old.c_str(), wd.c_str())) { say("adopt failed"); return 9; }
        continue;
      }
      if (c == "ls") {
        std::vector<std::string> v;
        DIR *D = opendir(wd.c_str());
        if (!D) { say(id + " ls-fail"); continue; }
        { while (auto *e = readdir(D)) if (e->d_name[0] != '.' || strlen(e->d_name) > 2) v.push_back(e->d_name); closedir(D); }
        std::sort(v.begin(), v.end());
        std::string s = id + " ls";
        for (auto &x : v) s += " " + x;
        say(s);
        continue;
      }
      char k; size_t N; L >> k >> N;
      if (c == "name") { const auto f = name(k, N, P); say(id + " name " + k + " " + std::to_string(N) + " " + (f.compare(0, wd.size() + 1, wd + "/") ? "OUTSIDE" : f.substr(wd.size() + 1))); continue; }
      try {
      if (c == "save") { uint64_t seed; size_t shape; L >> seed >> shape; if (k == 'U' || k == 'R') do_save<std::complex<double>>(k, N, seed, shape, P, id); else do_save<double>(k, N, seed, shape, P, id); }
      else if (c == "load" || c == "ctor") { int rm; uint64_t seed; size_t shape; L >> rm >> seed >> shape; if (k == 'U' || k == 'R') do_load<std::complex<double>>(k, N, seed, shape, rm, c == "ctor", P, id); else do_load<double>(k, N, seed, shape, rm, c == "ctor", P, id); }
      else if (c == "trunc") { // keep the first part, given in millionths and bytes from there
        long ppm, off; L >> ppm >> off;
        const auto fn = name(k, N, P);
        std::error_code ec;
        const long sz = (long)std::filesystem::file_size(fn, ec);
        if (ec || sz == 0) { say(id + " trunc none"); continue; }
        long to = (long)((double)sz * ppm / 1e6) + off;
        if (to < 0) to = 0;
        if (to >= sz) to = sz - 1;
        std::filesystem::resize_file(fn, to, ec);
        say(id + " trunc " + (ec ? "failed" : "ok"));
      } else if (c == "append") {
        size_t bytes, mode; L >> bytes >> mode;
        const auto fn = name(k, N, P);
        const auto old = slurp(fn);
        std::ofstream F(fn, std::ios::binary | std::ios::app);
        for (size_t i = 0; i < bytes; i++) F.put(mode == 0 ? 0 : mode == 1 ? (char)(i * 37 + 11) : old.empty() ? 'x' : old[i % old.size()]);
        F.close();
        say(id + " append " + (F ? "ok" : "failed"));
      } else if (c == "fill") { // something else altogether under the name of the checkpoint
        size_t bytes, mode; L >> bytes >> mode;
        std::ofstream F(name(k, N, P), std::ios::binary | std::ios::trunc);
        Rng r{bytes * 7 + mode};
        for (size_t i = 0; i < bytes; i++) F.put(mode == 0 ? 0 : mode == 1 ? (char)r.next() : mode == 2 ? "unitary 1 2 3\n"[i % 14] : (char)0xff);
        F.close();
        say(id + " fill " + (F ? "ok" : "failed"));
      } else if (c == "rm") { say(id + " rm " + (::unlink(name(k, N, P).c_str()) ? "failed" : "ok")); }
      } catch (const std::bad_alloc &) { char b[64]; const int l = snprintf(b, sizeof b, "%zu oom\n", n); (void)!::write(2, b, (size_t)l); }
    }
    say("end");
  }
  say("exit");
  return 0;
}

int main(int, char **argv) {
  try { return run(argv); }
  catch (const std::bad_alloc &) { (void)!::write(2, "oom-exit\n", 9); return 0; } // outside the operations under test
}
