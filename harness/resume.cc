// An application that embeds the main program and resumes an interrupted calculation: its work directory receives
// the checkpoints that the interrupted calculation left behind.   resume WORKDIR [LEFTOVER-DIRECTORY]
#include "nrg-general.hpp"
#include <filesystem>
using namespace NRG;
template <scalar S> static void go(std::unique_ptr<Workdir> wd) {
  std::shared_ptr<DiagEngine<S>> eng = std::make_shared<DiagSerial<S>>();
  NRG_calculation<S> calc(std::move(wd), eng, false);
}
int main(int argc, char **argv) {
  auto wd = std::make_unique<Workdir>(argv[1]);
  if (argc > 2)
    for (const auto &e : std::filesystem::directory_iterator(argv[2])) std::filesystem::copy_file(e.path(), wd->get() + "/" + e.path().filename().string());
  if (complex_data()) go<std::complex<double>>(std::move(wd)); else go<double>(std::move(wd));
  return 0;
}
