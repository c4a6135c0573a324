#pragma once
// Stand-in for the HDF5 library, which is not safe to be used by two threads at once: every call touches the state of
// the file. The datasets are written when the file is closed, sorted by name.
#include <fstream>
#include <map>
#include <string>
namespace H5Easy {
struct File {
  enum M { Overwrite, Truncate, ReadWrite, ReadOnly };
  std::string name;
  std::map<std::string, std::string> data;
  size_t calls = 0;
  File(const std::string &n, M) : name(n) {}
  File(const File &) = delete;
  ~File() {
    std::ofstream f(name);
    for (const auto &[k, v] : data) f << k << '=' << v << '\n';
  }
};
template<class T> std::string h5text(const T &x) {
  std::string s;
  const auto put = [&s](const auto &y) { s.append(reinterpret_cast<const char *>(&y), sizeof y); };
  if constexpr (requires { x.rows(); x.cols(); x(0, 0); }) {
    for (long i = 0; i < long(x.rows()); i++) for (long j = 0; j < long(x.cols()); j++) put(x(i, j));
  } else if constexpr (requires { x.begin(); x.end(); x.size(); }) {
    for (const auto &y : x) s += h5text(y);
  } else if constexpr (requires { put(x); }) put(x);
  std::string h;
  for (const unsigned char c : s) { h += "0123456789abcdef"[c >> 4]; h += "0123456789abcdef"[c & 15]; }
  return h;
}
template<class T> void dump(File &f, const std::string &path, const T &x) {
  f.calls++;
  if (path.ends_with("/diagth") || path.ends_with("/diag_mode")) return; // how the diagonalisations are shared out is not a result
  f.data[path] = h5text(x);
}
}
