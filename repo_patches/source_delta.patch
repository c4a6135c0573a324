From 375e07c2d664f11b0a2fe1c2373327b46a0b6f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 01/45] fix: adapt, nrgchain: report read errors instead of
 treating them as end of input

---
 tools/common/io.hpp     | 8 ++++++++
 tools/common/parser.hpp | 4 ++++
 2 files changed, 12 insertions(+)

diff --git a/tools/common/io.hpp b/tools/common/io.hpp
index d7cc393..5eb2fbc 100644
--- a/tools/common/io.hpp
+++ b/tools/common/io.hpp
@@ -21,6 +21,13 @@ inline void open_output(std::ofstream &stream, const std::string &filename, cons
   stream << std::setprecision(precision);
 }
 
+// Report an input error that would otherwise look like the end of the file.
+template<typename Stream>
+void check_input(const Stream &stream) {
+  if (stream.bad())
+    throw std::runtime_error("Error while reading the input file.");
+}
+
 template<typename Stream>
 std::string next_data_line(Stream &stream) {
   std::string line;
@@ -31,6 +38,7 @@ std::string next_data_line(Stream &stream) {
     if (line[0] == '#') continue;
     return line;
   }
+  check_input(stream);
   return "";
 }
 
diff --git a/tools/common/parser.hpp b/tools/common/parser.hpp
index f4ce3e8..744f4bf 100644
--- a/tools/common/parser.hpp
+++ b/tools/common/parser.hpp
@@ -4,6 +4,8 @@
 #include <fstream>
 #include <string>
 
+#include "io.hpp"
+
 namespace NRG::Tools {
 
 inline std::string trim_whitespace(const std::string &value) {
@@ -22,6 +24,7 @@ inline bool find_block(std::ifstream &stream, const std::string &name) {
     std::getline(stream, line);
     if (stream && target == line) break;
   }
+  check_input(stream);
   return bool(stream);
 }
 
@@ -41,6 +44,7 @@ void parse_key_value_block(std::ifstream &stream, Map &params) {
     const auto value   = trim_whitespace(line.substr(pos_eq + 1));
     params.insert_or_assign(keyword, value);
   }
+  check_input(stream);
 }
 
 template<typename Map, typename T, typename Converter>
-- 
2.43.0


From b9063f6edd98dd412f2adbb9cf59bd2de266eaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 02/45] fix: adapt, nrgchain: check result files on close and
 let them appear only when complete

---
 tools/adapt/adapt.hpp      | 10 ++++++----
 tools/adapt/load.hpp       | 14 ++++++--------
 tools/common/io.hpp        | 33 +++++++++++++++++++++++++++++++++
 tools/common/tabulated.hpp |  2 ++
 tools/nrgchain/load.h      | 12 ++++++------
 tools/nrgchain/nrgchain.cc | 17 ++++++++++-------
 6 files changed, 63 insertions(+), 25 deletions(-)

diff --git a/tools/adapt/adapt.hpp b/tools/adapt/adapt.hpp
index 1e4d96a..09b06dc 100644
--- a/tools/adapt/adapt.hpp
+++ b/tools/adapt/adapt.hpp
@@ -162,8 +162,8 @@ class Adapt {
    // returns the g(xmax)/[A/rho(0)] ratio and vecg
    auto shoot_g() {
      const std::string filename_g = "GSOL" + std::string(sign == Sign::POS ? "" : "NEG") + ".dat";
-     std::ofstream OUTG;
-     safe_open(OUTG, filename_g);
+     NRG::Tools::OutputFile file_g(filename_g);
+     auto &OUTG = file_g.stream;
      std::cout << "#  A=" << A << std::endl;
      Vec vecg;
      rho(1); // NECESSARY!
@@ -182,6 +182,7 @@ class Adapt {
        vecg.emplace_back(std::make_pair(x, y));
        if (x > xfine) { dx = dx_fast; }
      } while (x < xmax);
+     file_g.commit();
      const auto factor = A / rho(0);
      const auto ratio  = y / factor;
      std::cout << "#  x_last=" << x << " " << "g_last/factor=" << ratio << std::endl;
@@ -336,8 +337,8 @@ class Adapt {
      std::cout << "# max_error=" << max_error << " (maximum integration error)" << std::endl;
    }
    void calc_f() {
-     std::ofstream OUTF;
-     safe_open(OUTF, f_fn(sign));
+     NRG::Tools::OutputFile file_f(f_fn(sign));
+     auto &OUTF = file_f.stream;
      rho(1); // NECESSARY!
      double dx = dx_fine; // initial step size
      // Initial conditions
@@ -356,6 +357,7 @@ class Adapt {
          std::cout<< "***** Terminating!" << std::endl;
        }
      } while (x < xmax && std::abs(y) <= max_abs);
+     file_f.commit();
    }
    void run() {
      load_init_rho();
diff --git a/tools/adapt/load.hpp b/tools/adapt/load.hpp
index 2a84fcc..11fbb2d 100644
--- a/tools/adapt/load.hpp
+++ b/tools/adapt/load.hpp
@@ -62,17 +62,15 @@ inline Vec flat_rho(const double gamma, const Sign sign) {
 }
 
 inline void save(const std::string &fn, const Vec &v) {
-  std::ofstream F(fn.c_str());
-  if (!F) 
-    throw std::runtime_error("Failed to open " + fn + " for writing.");
-  NRG::Tools::save_pairs(F, v);
+  NRG::Tools::OutputFile F(fn);
+  NRG::Tools::save_pairs(F.stream, v);
+  F.commit();
 }
 
 inline void save(const std::string &fn, const std::vector<double> &v) {
-  std::ofstream F(fn.c_str());
-  if (!F) 
-    throw std::runtime_error("Failed to open " + fn + " for writing.");
-  NRG::Tools::save_values(F, v);
+  NRG::Tools::OutputFile F(fn);
+  NRG::Tools::save_values(F.stream, v);
+  F.commit();
 }
 
 inline void load(const std::string &fn, std::vector<double> &v) {
diff --git a/tools/common/io.hpp b/tools/common/io.hpp
index 5eb2fbc..04bbd1f 100644
--- a/tools/common/io.hpp
+++ b/tools/common/io.hpp
@@ -1,6 +1,7 @@
 #ifndef _tools_common_io_hpp_
 #define _tools_common_io_hpp_
 
+#include <cstdio>
 #include <fstream>
 #include <iomanip>
 #include <stdexcept>
@@ -28,6 +29,38 @@ void check_input(const Stream &stream) {
     throw std::runtime_error("Error while reading the input file.");
 }
 
+// Close an output file. Errors up to and including the final flush are reported.
+inline void close_output(std::ofstream &stream, const std::string &filename) {
+  stream.close();
+  if (!stream)
+    throw std::runtime_error("Error while writing " + filename + ".");
+}
+
+// Output file that appears under its name only when it is complete.
+class OutputFile {
+ private:
+   std::string filename, temporary;
+   bool committed = false;
+ public:
+   std::ofstream stream;
+   explicit OutputFile(const std::string &filename_, const int precision = 16) : filename(filename_), temporary(filename_ + ".tmp") {
+     open_output(stream, temporary, precision);
+   }
+   OutputFile(const OutputFile &) = delete;
+   OutputFile &operator=(const OutputFile &) = delete;
+   ~OutputFile() {
+     if (committed) return;
+     stream.close();
+     std::remove(temporary.c_str());
+   }
+   void commit() {
+     close_output(stream, temporary);
+     if (std::rename(temporary.c_str(), filename.c_str()) != 0)
+       throw std::runtime_error("Can't rename " + temporary + " to " + filename + ".");
+     committed = true;
+   }
+};
+
 template<typename Stream>
 std::string next_data_line(Stream &stream) {
   std::string line;
diff --git a/tools/common/tabulated.hpp b/tools/common/tabulated.hpp
index 73473cf..ddd6bbf 100644
--- a/tools/common/tabulated.hpp
+++ b/tools/common/tabulated.hpp
@@ -101,6 +101,8 @@ template<typename Pair>
 std::string pair_to_string(const Pair &p) {
   std::ostringstream str;
   str << p.first << " " << p.second;
+  if (!str)
+    throw std::runtime_error("Conversion to text failed.");
   return str.str();
 }
 
diff --git a/tools/nrgchain/load.h b/tools/nrgchain/load.h
index dba14ca..a72bf1d 100644
--- a/tools/nrgchain/load.h
+++ b/tools/nrgchain/load.h
@@ -59,15 +59,15 @@ Vec load_rho(const string &filename, SIGN sign) {
 }
 
 void save(const string &fn, const Vec &v) {
-  ofstream F(fn.c_str());
-  if (!F) fail_with_error("Failed to open " + fn + " for writing.");
-  NRG::Tools::save_pairs(F, v);
+  NRG::Tools::OutputFile F(fn);
+  NRG::Tools::save_pairs(F.stream, v);
+  F.commit();
 }
 
 void save(const string &fn, const vector<double> &v) {
-  ofstream F(fn.c_str());
-  if (!F) fail_with_error("Failed to open " + fn + " for writing.");
-  NRG::Tools::save_values(F, v);
+  NRG::Tools::OutputFile F(fn);
+  NRG::Tools::save_values(F.stream, v);
+  F.commit();
 }
 
 void load(const string &fn, vector<double> &v) {
diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index 9cdddbd..b817a15 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -262,10 +262,9 @@ void tables() {
   const double theta = theta2;
   result_theta = theta;
   
-  ofstream THETA;
-  safe_open(THETA, "theta.dat"); // theta (hybridisation fnc. weight)
-  THETA << theta << endl;
-  THETA.close();
+  NRG::Tools::OutputFile THETA("theta.dat", PREC); // theta (hybridisation fnc. weight)
+  THETA.stream << theta << endl;
+  THETA.commit();
 
   Table df_pos(mMAX + 1), df_neg(mMAX + 1);
   Table du0_neg(mMAX + 1), du0_pos(mMAX + 1);
@@ -372,9 +371,10 @@ void fix_norm(vmpf &up, vmpf &um, unsigned int mMAX_) {
 // OUTPUT: written to files "xi.dat" and "zeta.dat"
 
 void tridiag() {
-  ofstream XI, ZETA;
-  safe_open(XI, "xi.dat");     // hopping constants
-  safe_open(ZETA, "zeta.dat"); // on-site energies
+  NRG::Tools::OutputFile file_xi("xi.dat", PREC);     // hopping constants
+  NRG::Tools::OutputFile file_zeta("zeta.dat", PREC); // on-site energies
+  auto &XI   = file_xi.stream;
+  auto &ZETA = file_zeta.stream;
   result_xi.clear();
   result_zeta.clear();
 
@@ -513,6 +513,9 @@ void tridiag() {
       mpf_set(up_prev[m], up[m]);
     }
   }
+
+  file_xi.commit();
+  file_zeta.commit();
 }
 
 void calc_tables() {
-- 
2.43.0


From 3d20321891b5a55a04dce19ee0c7ef25b08158b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:32 +0000
Subject: [PATCH 03/45] fix: nrgchain: reject coefficient tables that are
 shorter than required

---
 tools/nrgchain/nrgchain.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/nrgchain/nrgchain.cc b/tools/nrgchain/nrgchain.cc
index b817a15..3a1bf89 100644
--- a/tools/nrgchain/nrgchain.cc
+++ b/tools/nrgchain/nrgchain.cc
@@ -320,6 +320,8 @@ void load_tables() {
   load("de_neg.dat", de_neg);
   load("du_pos.dat", du_pos);
   load("du_neg.dat", du_neg);
+  for (const auto *table : {&de_pos, &de_neg, &du_pos, &du_neg})
+    if (table->size() < size_t(mMAX) + 1) fail_with_error("Incomplete coefficient table.");
 }
 
 class my_mpf {
-- 
2.43.0


From 000eded06110eb424a401b36834d396947be2291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 04/45] fix: intavg: report read errors instead of treating
 them as end of input

---
 tools/intavg/intavg.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index b1db08a..7618b77 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -102,6 +102,11 @@ Vec load(int i) {
     }
   }
 
+  if (f.bad()) {
+    cerr << "Error reading file " << filename << endl;
+    exit(1);
+  }
+
   if (data.size() < 2) {
     cerr << "At least two data points required in file " << filename << endl;
     exit(1);
-- 
2.43.0


From 9fc10217fea391cd10c37f89ed423ba7df21e167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 05/45] fix: intavg: report write errors

---
 tools/intavg/intavg.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/intavg/intavg.cc b/tools/intavg/intavg.cc
index 7618b77..dcca4d7 100644
--- a/tools/intavg/intavg.cc
+++ b/tools/intavg/intavg.cc
@@ -261,6 +261,12 @@ void save(const Vec &result, string filename) {
 
   const int len = result.size();
   for (int j = 0; j < len; j++) { f_ << result[j].first << " " << result[j].second << endl; }
+
+  f_.close();
+  if (!f_) {
+    cerr << "Error writing " << filename << endl;
+    exit(1);
+  }
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 5251dc84f93c1b5939d9cae5ac698cb13c9cf676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 06/45] fix: binavg: report write errors

---
 tools/binavg/binavg.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/binavg/binavg.hpp b/tools/binavg/binavg.hpp
index eeaf7df..14fee16 100644
--- a/tools/binavg/binavg.hpp
+++ b/tools/binavg/binavg.hpp
@@ -181,6 +181,8 @@ class BinAvg {
        const double vy = y[i];
        F.write((char *)&vy, sizeof(double));
      }
+     F.close();
+     if (!F) throw std::runtime_error("Error writing " + filename);
    }
    
  public:
-- 
2.43.0


From eac48476bc79e3c327515ab34df787af76202418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 07/45] fix: mats: report write errors

---
 tools/mats/mats.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/mats/mats.cc b/tools/mats/mats.cc
index a519a01..f5e5454 100644
--- a/tools/mats/mats.cc
+++ b/tools/mats/mats.cc
@@ -243,6 +243,8 @@ void save(const string filename, const cvec &x, const cvec &y) {
     assert(x[i].real() == 0.0);
     F << x[i].imag() << " " << y[i].real() << " " << y[i].imag() << endl;
   }
+  F.close();
+  if (!F) throw std::runtime_error("Error writing " + filename);
 }
 
 int main(int argc, char *argv[]) {
-- 
2.43.0


From 1b71ebfd66aa566d83ba1752598cb44d1c84de59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 08/45] fix: tdavg: report read errors instead of treating them
 as end of input

---
 tools/tdavg/tdavg.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index c254b09..04d5f78 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -181,6 +181,10 @@ DataType load(const string &filename) {
       if (veryverbose) { cout << "#" << line << endl; }
     }
   } while (f.good() && !f.eof());
+  if (f.bad()) {
+    cerr << "Error reading file " << filename << endl;
+    exit(1);
+  }
   return result;
 }
 
-- 
2.43.0


From 1acd849b0de115ec1414a0e39b6ccbe923c8ae11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 09/45] fix: tdavg: report write errors

---
 tools/tdavg/tdavg.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index 04d5f78..8c0607c 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -378,5 +378,10 @@ int main(int argc, char *argv[]) {
   multiVec result = avg();
   if (copycomments && lastcommentline != "") OF << lastcommentline << endl;
   save(result, OF);
+  OF.close();
+  if (!OF) {
+    cerr << "Error writing " << output_name << endl;
+    exit(1);
+  }
   return 0;
 }
-- 
2.43.0


From 5e87385c3551170ae8f85e5ed5af8df17e094e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 10/45] fix: specmoments: reject binary input with an
 incomplete record

---
 tools/specmoments/specmoments.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 40fc85c..6fb3498 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -148,7 +148,10 @@ void load(int i) {
   f.seekg(0, ios::end);
   const ios::pos_type end_pos = f.tellg();
   const long len              = end_pos - begin_pos;
-  assert(len % (rows * sizeof(double)) == 0);
+  if (len % (rows * sizeof(double)) != 0) {
+    cerr << "Incomplete row data in " << filename << endl;
+    exit(1);
+  }
   const int nr = len / (rows * sizeof(double)); // number of lines
   if (verbose) cout << "len=" << len << " nr=" << nr << " data points" << endl;
   // Allocate the read buffer. The data will be kept in memory for the
-- 
2.43.0


From d67fc92a1a3b3c02844a38e3ee4a78d113b3fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:01 +0000
Subject: [PATCH 11/45] fix: specmoments: report write errors

---
 tools/specmoments/specmoments.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/specmoments/specmoments.cc b/tools/specmoments/specmoments.cc
index 6fb3498..79b7f3f 100644
--- a/tools/specmoments/specmoments.cc
+++ b/tools/specmoments/specmoments.cc
@@ -315,4 +315,9 @@ int main(int argc, char *argv[]) {
     central_moments();
   else
     moments();
+  cout.flush();
+  if (!cout) {
+    cerr << "Error writing the results." << endl;
+    exit(1);
+  }
 }
-- 
2.43.0


From 130c48279159770d6ee11cb8df3e28087f170b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 12/45] fix: kk: report read errors instead of treating them as
 end of input

---
 tools/kk/kk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index fb1fcfa..a3c9953 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -77,6 +77,7 @@ inline auto read(std::istream &F) {
       v.push_back({x, y});
     }
   }
+  if (F.bad()) throw std::runtime_error("Error reading the input.");
   return v;
 }
 
-- 
2.43.0


From 095ca348fb3d5637d44324f612febf223f9d3882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 13/45] fix: kk: report write errors

---
 tools/kk/kk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index a3c9953..456b84f 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -272,6 +272,9 @@ class KK {
      init(im);
      const auto re = calc(Xpts);
      write(re, mode == MODE::FILES ? Fout : std::cout);
+     if (mode == MODE::FILES) Fout.close();
+     std::cout.flush();
+     if (mode == MODE::FILES ? !Fout : !std::cout) throw std::runtime_error("Error writing the output.");
      std::cout << "KK done!" << std::endl;
    }
    
-- 
2.43.0


From b253cb28b3668e3335b787dfa8cf25732d68d029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 14/45] fix: hilb: report read errors instead of treating them
 as end of input

---
 tools/hilb/hilb.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 80f3039..a2f70f6 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -315,6 +315,7 @@ class Hilb {
           OUT << label << " " << res.real() << " " << res.imag() << std::endl;      
       }
     }
+    if (F.bad()) throw std::runtime_error("Error reading the input.");
   }
 
   void do_hilb(std::istream &Fr, std::istream &Fi, std::ostream &Or, std::ostream &Oi) {
@@ -342,6 +343,7 @@ class Hilb {
         Oi << label2 << " " << resim << std::endl;
       }
     }
+    if (Fr.bad() || Fi.bad()) throw std::runtime_error("Error reading the self-energy.");
   }
 
   auto safe_open_rd(const std::string &filename) {
@@ -369,6 +371,7 @@ class Hilb {
         pts.emplace_back(x, y);
       }
     }
+    if (F.bad()) throw std::runtime_error("Error reading file " + filename + ".");
     std::sort(pts.begin(), pts.end());
     Xpts.clear();
     Ypts.clear();
-- 
2.43.0


From 7236184765249796b16384699f591118c2a2b7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 15/45] fix: hilb: report write errors

---
 tools/hilb/hilb.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index a2f70f6..52c359b 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -359,6 +359,13 @@ class Hilb {
     return F;
   }
 
+  // Complete the output. Errors up to and including the final flush are reported.
+  void finish(std::ostream &F) {
+    F.flush();
+    if (auto *file = dynamic_cast<std::ofstream *>(&F)) file->close();
+    if (!F) throw std::runtime_error("Error writing the output.");
+  }
+
   void load_dos(const std::string &filename) {
     if (verbose) { std::cout << "Density of states filename: " << filename << std::endl; }
     auto F = safe_open_rd(filename);
@@ -479,6 +486,7 @@ class Hilb {
       if (verbose) info();
       auto F = safe_open_rd(args[0]);
       do_stream(F, OUTFILE ? OUTFILE.value() : std::cout);
+      finish(OUTFILE ? OUTFILE.value() : std::cout);
       return;
     }
     // Usage case 2: real a single (x,y) pair from the command line.
@@ -486,6 +494,7 @@ class Hilb {
       const auto x = atof(args[0]);
       const auto y = atof(args[1]);
       do_one(x, y, OUTFILE ? OUTFILE.value() : std::cout);
+      finish(OUTFILE ? OUTFILE.value() : std::cout);
       return;
     }
     // Usage case 3: convert self-energy to a spectral function
@@ -497,6 +506,8 @@ class Hilb {
       auto Fra = safe_open_wr(args[2]); // Re[G] or Re[Aw] = -1/pi Re[G] (output) (factor -1/pi controlled by the -G switch)
       auto Fia = safe_open_wr(args[3]); // Im[G] or Im[Aw] = -1/pi Im[G] (output) (factor -1/pi controlled by the -G switch)
       do_hilb(Frs, Fis, Fra, Fia);
+      finish(Fra);
+      finish(Fia);
       return;
     }
     about();
-- 
2.43.0


From ba69fcabb974e993c2fc8fa3d1285dda0ed7f3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 16/45] fix: integ: report read errors instead of treating them
 as end of input

---
 tools/integ/integ.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 6df8912..30c3a83 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -129,6 +129,11 @@ void readtable(istream &F, XYFUNC &v) {
     }
   }
 
+  if (F.bad()) {
+    cerr << "Error reading the input." << endl;
+    exit(1);
+  }
+
   if (verbose) cout << v.size() << " lines read." << endl;
 }
 
-- 
2.43.0


From bb462ce33603efac3d1953c6fe48d038daa5d4af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 17/45] fix: integ: report write errors

---
 tools/integ/integ.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/integ/integ.cc b/tools/integ/integ.cc
index 30c3a83..f9f58fa 100644
--- a/tools/integ/integ.cc
+++ b/tools/integ/integ.cc
@@ -309,4 +309,9 @@ int main(int argv, char *argc[]) {
   if (out == "neg") cout << neg << endl;
   if (out == "abs") cout << totalabs << endl;
   if (out == "fermi") cout << fermi << endl;
+  cout.flush();
+  if (!cout) {
+    cerr << "Error writing the results." << endl;
+    exit(1);
+  }
 }
-- 
2.43.0


From ad9a2852d2753f9b4a95808a353a8b4c67bcc986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 18/45] fix: diag: report read errors instead of treating them
 as end of input

---
 tools/diag/diag.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index bf9a97d..e42e586 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -168,6 +168,10 @@ void diag_stream(istream &F) {
     F >> x;
     if (!F.fail()) { data.push_back(x); }
   }
+  if (F.bad()) {
+    cerr << "ERROR: reading the matrix failed!" << endl;
+    exit(1);
+  }
 
   const auto size = data.size();
   if (size == 0) {
-- 
2.43.0


From 0f73649608db34c78c1a8ade1e43418b27787fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 19/45] fix: diag: report write errors

---
 tools/diag/diag.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/diag/diag.cc b/tools/diag/diag.cc
index e42e586..c3e907c 100644
--- a/tools/diag/diag.cc
+++ b/tools/diag/diag.cc
@@ -43,6 +43,13 @@ void about(ostream &OUT = cout) {
 
 #include "linalg.hpp"
 
+void check_output(const ostream &F) {
+  if (!F) {
+    cerr << "ERROR: writing the results failed!" << endl;
+    exit(1);
+  }
+}
+
 #define IJ(i, j) (dim * (i) + (j))
 
 void diagonalize(unsigned int dim, DVEC &d) {
@@ -118,6 +125,7 @@ void diagonalize(unsigned int dim, DVEC &d) {
     F << setprecision(OUTPUT_PREC);
     for (unsigned int r = 0; r < dim; r++) { F << eigenvalues[r] << endl; }
     F.close();
+    check_output(F);
   }
 
   if (fn_vec != nullptr && output_text) {
@@ -134,6 +142,7 @@ void diagonalize(unsigned int dim, DVEC &d) {
       F << endl;
     }
     F.close();
+    check_output(F);
   }
 
   if (fn_vec != nullptr && output_bin) {
@@ -156,6 +165,7 @@ void diagonalize(unsigned int dim, DVEC &d) {
       }
     }
     F.close();
+    check_output(F);
   }
 }
 
@@ -253,4 +263,6 @@ int main(int argc, char *argv[]) {
   run(argc, argv);
   clock_t end_clock = clock();
   if (!quiet) { cout << "# Elapsed " << double(end_clock - start_clock) / CLOCKS_PER_SEC << " s" << endl; }
+  cout.flush();
+  check_output(cout);
 }
-- 
2.43.0


From a8ffa239efe36bfe97a14c75fe1de69ed589f74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 20/45] fix: broaden: report write errors

---
 tools/broaden/broaden.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tools/broaden/broaden.hpp b/tools/broaden/broaden.hpp
index 474b458..a40f699 100644
--- a/tools/broaden/broaden.hpp
+++ b/tools/broaden/broaden.hpp
@@ -94,6 +94,8 @@ void save(const std::string &filename, const std::vector<S> &x, const std::vecto
   assert(x.size() == y.size());
   const auto nr = x.size();
   for (auto i = 0; i < nr; i++) { F << x[i] << " " << y[i] << std::endl; }
+  F.close();
+  if (!F) throw std::runtime_error("Error writing " + filename + ".");
 }
 
 // Estimate the weight using the trapezoidal rule. The x array must be sorted.
-- 
2.43.0


From ca1b3c489a7f0706a6c3e16309771b28dd7ac909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 21/45] fix: bw: report write errors

---
 tools/bw/bw.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/bw/bw.cc b/tools/bw/bw.cc
index 3c2c797..ad4375a 100644
--- a/tools/bw/bw.cc
+++ b/tools/bw/bw.cc
@@ -444,6 +444,8 @@ void save(const string filename0, const mapdd &m, int iter = 0, double trim_ = 0
     if (trim_ != 0.0 && std::abs(I.first) < trim_) { continue; }
     F << I.first << " " << I.second << endl;
   }
+  F.close();
+  if (!F) throw std::runtime_error("Error writing " + filename);
 }
 
 // Save pairs taken respectively from (mesh) and (data).
@@ -469,6 +471,8 @@ void save(const string filename0, const vec &mesh_, const vec &data, int iter =
       if (veryverbose) { cout << "Warning: " << i << " not finite." << endl; }
     }
   }
+  F.close();
+  if (!F) throw std::runtime_error("Error writing " + filename);
 }
 
 // Eq. (7) in the paper of Freyn & Florens
-- 
2.43.0


From 171dcd798e578fd0a0c41c1e441af3f7848dd9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 22/45] fix: resample, broaden: report read errors instead of
 treating them as end of input

---
 c++/misc.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/c++/misc.hpp b/c++/misc.hpp
index 7df0f5f..72c97d1 100644
--- a/c++/misc.hpp
+++ b/c++/misc.hpp
@@ -211,6 +211,7 @@ std::vector<std::pair<T1, T2>> readtable(const std::string &filename, const bool
       assert(std::isfinite(x) && std::isfinite(y));
       v.push_back(std::make_pair(x, y));
   }
+  if (F.bad()) throw std::runtime_error("Error reading " + filename);
   if (verbose) std::cout << "Reading " << filename << "; " << v.size() << " lines read." << std::endl;
   return v;
 }
-- 
2.43.0


From 4fa2709130da71952b1e8e378f58e6fadb46c889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 23/45] fix: resample: report write errors

---
 c++/misc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/c++/misc.hpp b/c++/misc.hpp
index 72c97d1..8699e18 100644
--- a/c++/misc.hpp
+++ b/c++/misc.hpp
@@ -221,6 +221,8 @@ void writetable(const std::vector<std::pair<T1, T2>> &re, std::string filename,
   auto F = safe_open(filename);
   F << std::setprecision(output_precision);
   for (const auto & [x, y] : re) F << x << " " << y << std::endl;
+  F.close();
+  if (!F) throw std::runtime_error("Error writing " + filename);
 }
 
 inline std::vector<std::string> split (const std::string &s, char delim) {
-- 
2.43.0


From e881714071435f1d4d2f64e74368c7cf28027869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 24/45] fix: matrix input: report read errors instead of
 treating them as end of input

---
 c++/basicio.hpp | 5 ++++-
 c++/io.hpp      | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index 3cf1c36..f8c0b5d 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -131,7 +131,9 @@ inline bool file_exists(const std::string &fn)
 
 inline size_t count_words_in_string(const std::string &s) { // size_t because it should be unsigned
   std::stringstream stream(s);
-  return std::distance(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>());
+  const auto count = std::distance(std::istream_iterator<std::string>(stream), std::istream_iterator<std::string>());
+  if (stream.bad()) throw std::runtime_error("Can't split the string into words.");
+  return count;
 }
 
 inline bool is_blank_or_comment_line(const std::string &s) {
@@ -161,6 +163,7 @@ inline auto get_dims(std::istream &F) {
     dim2 = n;
     dim1++;
   }
+  if (F.bad()) throw std::runtime_error("Error reading the matrix.");
   return std::make_pair(dim1, dim2);
 }
 
diff --git a/c++/io.hpp b/c++/io.hpp
index aa7c8e8..5005ef4 100644
--- a/c++/io.hpp
+++ b/c++/io.hpp
@@ -93,6 +93,7 @@ auto read_matrix_text(GEN && generate_matrix, const std::string &filename, const
     if (is_blank_or_comment_line(line)) continue;
     filtered << line << '\n';
   }
+  if (F.bad() || !filtered) throw std::runtime_error("Error reading " + filename);
   std::istringstream data(filtered.str());
   return read_matrix_data(generate_matrix, [&data]() { return read_one<double>(data); }, dim1, dim2);
 }
-- 
2.43.0


From 0a7332e97642370db984c98ba2676b24ce51c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 25/45] fix: unitary: report write errors

---
 c++/io.hpp                | 1 +
 tools/unitary/unitary.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/c++/io.hpp b/c++/io.hpp
index 5005ef4..0882b46 100644
--- a/c++/io.hpp
+++ b/c++/io.hpp
@@ -141,6 +141,7 @@ inline void save_matrix(const std::string &filename, const M &m, const bool verb
     F << std::endl;
   }
   F.close();
+  if (!F) throw std::runtime_error("Error writing " + filename);
 }
 
 } // namespace
diff --git a/tools/unitary/unitary.hpp b/tools/unitary/unitary.hpp
index 6a19c64..62f1cc7 100644
--- a/tools/unitary/unitary.hpp
+++ b/tools/unitary/unitary.hpp
@@ -84,7 +84,10 @@ class Unitary {
      auto N = matrix_prod<double>(B, C); // XXX: use rotate() instead?
      auto M = matrix_prod<double>(A, N);
      if (scale_factor != 1.0) M = scale_factor * M;
-     if (veryverbose) std::cout << "M=" << M << std::endl;
+     if (veryverbose) {
+       std::cout << "M=" << M << std::endl;
+       if (!std::cout) throw std::runtime_error("Error writing the results.");
+     }
      if (output_filename) save_matrix(output_filename.value(), M, verbose, chop_tol);
    }
 
-- 
2.43.0


From aba7c9fb5ba64dece0f743e580f0fb42ab855973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 26/45] fix: matrix: report read errors instead of treating
 them as end of input

---
 tools/matrix/parser.cc | 14 ++++++++++++--
 tools/matrix/parser.yy | 14 ++++++++++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 610dcc0..74c09d4 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1870,6 +1870,10 @@ void load_vector(string filename, vector<double> &v)
       }
     }
   }
+  if (F.bad()) {
+    cerr << "Error reading " << filename << endl;
+    exit(1);
+  }
   F.close();
 }
 
@@ -1885,7 +1889,10 @@ void load_discretization()
       cerr << "Can't open " << fntheta << endl;
       exit(1);
     }
-    THETA >> theta[ch-1];
+    if (!(THETA >> theta[ch-1])) {
+      cerr << "Error reading " << fntheta << endl;
+      exit(1);
+    }
     THETA.close();
     if (verbose) {
       cerr << "theta[" << ch << "]=" << theta[ch-1] << endl;
@@ -1915,7 +1922,10 @@ void load_discretization_sc()
           cerr << "Can't open " << fnV << endl;
           exit(1);
         }
-        FV >> V[ch-1][i-1][j-1];
+        if (!(FV >> V[ch-1][i-1][j-1])) {
+          cerr << "Error reading " << fnV << endl;
+          exit(1);
+        }
         FV.close();
         if (verbose) {
           cerr << "V[" << ch << "](" << i << ", " << j << ")=" << V[ch-1][i-1][j-1] << endl;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index b067ba3..1b954b7 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -269,6 +269,10 @@ void load_vector(string filename, vector<double> &v)
       }
     }
   }
+  if (F.bad()) {
+    cerr << "Error reading " << filename << endl;
+    exit(1);
+  }
   F.close();
 }
 
@@ -284,7 +288,10 @@ void load_discretization()
       cerr << "Can't open " << fntheta << endl;
       exit(1);
     }
-    THETA >> theta[ch-1];
+    if (!(THETA >> theta[ch-1])) {
+      cerr << "Error reading " << fntheta << endl;
+      exit(1);
+    }
     THETA.close();
     if (verbose) {
       cerr << "theta[" << ch << "]=" << theta[ch-1] << endl;
@@ -314,7 +321,10 @@ void load_discretization_sc()
           cerr << "Can't open " << fnV << endl;
           exit(1);
         }
-        FV >> V[ch-1][i-1][j-1];
+        if (!(FV >> V[ch-1][i-1][j-1])) {
+          cerr << "Error reading " << fnV << endl;
+          exit(1);
+        }
         FV.close();
         if (verbose) {
           cerr << "V[" << ch << "](" << i << ", " << j << ")=" << V[ch-1][i-1][j-1] << endl;
-- 
2.43.0


From 4a86d524f8fea8b234b6b5f7fa3a93bd178230fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 27/45] fix: matrix: report write errors

---
 tools/matrix/parser.cc | 5 +++++
 tools/matrix/parser.yy | 7 ++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index 74c09d4..e3dde34 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2020,6 +2020,11 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
+  cout.flush();
+  if (!cout) {
+    cerr << "Error writing the results." << endl;
+    return 1;
+  }
   return 0;
 }
 
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 1b954b7..e8e59cd 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -419,7 +419,12 @@ int main(int argc, char *argv[])
 
   clear_symtab();
 
- return 0;
+  cout.flush();
+  if (!cout) {
+    cerr << "Error writing the results." << endl;
+    return 1;
+  }
+  return 0;
 }
 
 void dump_vector(struct vec *dvec)
-- 
2.43.0


From 27900b3dcd10c7664e3896c743f07b1d17b3ab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:26 +0000
Subject: [PATCH 28/45] fix: matrix: report a failed parse in the exit status

---
 tools/matrix/parser.cc | 4 +++-
 tools/matrix/parser.yy | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index e3dde34..ae95bab 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -2012,7 +2012,9 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ if (yyparse() != 0) {
+   return 1;
+ }
 
   if (verbose) {
   cerr << "DONE!" << endl;
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index e8e59cd..4db61bb 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -411,7 +411,9 @@ int main(int argc, char *argv[])
    yywrap();
  }
 
- yyparse();
+ if (yyparse() != 0) {
+   return 1;
+ }
 
  if (verbose) {
   cerr << "DONE!" << endl;
-- 
2.43.0


From 3bba281bbacc25b1359e64d10592e11eea346ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 29/45] fix: matrix: report a failed allocation of a symbol
 name

---
 tools/matrix/parser.cc | 4 ++++
 tools/matrix/parser.yy | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/tools/matrix/parser.cc b/tools/matrix/parser.cc
index ae95bab..84bf184 100644
--- a/tools/matrix/parser.cc
+++ b/tools/matrix/parser.cc
@@ -1787,6 +1787,10 @@ struct symtab * symlook(char *s)
 		/* is it free */
 		if(!sp->name) {
 			sp->name = strdup(s);
+			if(!sp->name) {
+				yyerror("Out of memory");
+				exit(1);
+			}
 			return sp;
 		}
 		/* otherwise continue to next */
diff --git a/tools/matrix/parser.yy b/tools/matrix/parser.yy
index 4db61bb..9686b7e 100644
--- a/tools/matrix/parser.yy
+++ b/tools/matrix/parser.yy
@@ -186,6 +186,10 @@ struct symtab * symlook(char *s)
 		/* is it free */
 		if(!sp->name) {
 			sp->name = strdup(s);
+			if(!sp->name) {
+				yyerror("Out of memory");
+				exit(1);
+			}
 			return sp;
 		}
 		/* otherwise continue to next */
-- 
2.43.0


From 3d77f138097bb0a0d976c92fddf9a82f58140373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:52 +0000
Subject: [PATCH 30/45] fix: hilb: do not lose the result when formatting runs
 out of memory

---
 tools/hilb/hilb.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 52c359b..6974c62 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -300,7 +300,7 @@ class Hilb {
     if (!G)
       OUT << res.imag() << std::endl;
     else
-      OUT << res << std::endl;
+      OUT << '(' << res.real() << ',' << res.imag() << ')' << std::endl;
   }
 
   void do_stream(std::istream &F, std::ostream &OUT) {
-- 
2.43.0


From 45dbe7ed8aeb97d8970b58821f3f66ef0b47ea35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:20 +0000
Subject: [PATCH 31/45] fix: hilb: report a failed initialisation of the
 interpolation

---
 tools/hilb/hilb.hpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tools/hilb/hilb.hpp b/tools/hilb/hilb.hpp
index 6974c62..0c68552 100644
--- a/tools/hilb/hilb.hpp
+++ b/tools/hilb/hilb.hpp
@@ -129,21 +129,24 @@ class interpolator {
   double oob_value;                // out-of-boundary value
   std::unique_ptr<gsl_interp_accel, gsl_accel_deleter> acc; // workspace
   std::unique_ptr<gsl_spline, gsl_spline_deleter> spline;   // spline data
+  void init() {
+    acc.reset(gsl_interp_accel_alloc());
+    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
+    if (!acc || !spline) throw std::runtime_error("Failed to allocate GSL spline.");
+    if (const auto status = gsl_spline_init(spline.get(), X.data(), Y.data(), len); status != 0)
+      throw std::runtime_error(std::string("Failed to initialize GSL spline: ") + gsl_strerror(status));
+  }
   public:
   interpolator(const std::vector<double> &_X, const std::vector<double> &_Y, const double _oob_value = 0.0) : X{_X}, Y{_Y}, oob_value{_oob_value} {
     assert(std::is_sorted(X.begin(), X.end()));
     assert(X.size() == Y.size());
-    acc.reset(gsl_interp_accel_alloc());
     len    = X.size();
-    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
-    gsl_spline_init(spline.get(), X.data(), Y.data(), len);
+    init();
     Xmin = X.front();
     Xmax = X.back();
   }
   interpolator(const interpolator &I) : len{I.len}, X{I.X}, Y{I.Y}, Xmin{I.Xmin}, Xmax{I.Xmax}, oob_value{I.oob_value} {
-    acc.reset(gsl_interp_accel_alloc());
-    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
-    gsl_spline_init(spline.get(), X.data(), Y.data(), len);
+    init();
   }
   interpolator(interpolator &&I) = default;
   interpolator &operator=(const interpolator &I) {
@@ -154,9 +157,7 @@ class interpolator {
     Xmin      = I.Xmin;
     Xmax      = I.Xmax;
     oob_value = I.oob_value;
-    acc.reset(gsl_interp_accel_alloc());
-    spline.reset(gsl_spline_alloc(gsl_interp_cspline, len));
-    gsl_spline_init(spline.get(), X.data(), Y.data(), len);
+    init();
     return *this;
   }
   interpolator &operator=(interpolator &&I) = default;
-- 
2.43.0


From 3595450dfc04e99fab95b1625a5ae06890427fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 32/45] fix: checkpoint save: do not lose a failed flush in the
 destructor of the archive

---
 c++/eigen.hpp     | 4 ++--
 c++/operators.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/c++/eigen.hpp b/c++/eigen.hpp
index 50217cf..8f3de4a 100644
--- a/c++/eigen.hpp
+++ b/c++/eigen.hpp
@@ -589,9 +589,9 @@ class DiagInfo : public std::map<Invar, Eigen<S>> {
            eig.save(oa);
            if (MATRIXF.bad()) throw std::runtime_error(fmt::format("Error writing {}", fn));
          }
+         MATRIXF.flush(); // before the archive goes out of scope: its destructor also flushes, but ignores errors
+         if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        }
-       MATRIXF.flush();
-       if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        MATRIXF.close();
        if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        std::filesystem::rename(tmp_fn, fn);
diff --git a/c++/operators.hpp b/c++/operators.hpp
index 5610731..a54a033 100644
--- a/c++/operators.hpp
+++ b/c++/operators.hpp
@@ -112,9 +112,9 @@ class DensMatElements : public std::map<Invar, Matrix> {
            NRG::save(oa, mat);
            if (MATRIXF.bad()) throw std::runtime_error(fmt::format("Error writing {}", fn));
          }
+         MATRIXF.flush(); // before the archive goes out of scope: its destructor also flushes, but ignores errors
+         if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        }
-       MATRIXF.flush();
-       if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        MATRIXF.close();
        if (!MATRIXF) throw std::runtime_error(fmt::format("Error writing {}", fn));
        std::filesystem::rename(tmp_fn, fn);
-- 
2.43.0


From 3b2e0276c5e821dfcd759f4414f08ec13b68d405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:20 +0000
Subject: [PATCH 33/45] fix: checkpoint load: reject a file that continues
 after the checkpoint

---
 c++/eigen.hpp     | 1 +
 c++/operators.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/c++/eigen.hpp b/c++/eigen.hpp
index 8f3de4a..9ec00a2 100644
--- a/c++/eigen.hpp
+++ b/c++/eigen.hpp
@@ -611,6 +611,7 @@ class DiagInfo : public std::map<Invar, Eigen<S>> {
            if (MATRIXF.bad()) throw std::runtime_error(fmt::format("Error reading {}", fn));
          }
        }
+       if (MATRIXF.peek() != std::ifstream::traits_type::eof() || MATRIXF.bad()) throw std::runtime_error(fmt::format("Unexpected data at the end of {}", fn));
        MATRIXF.close();
        if (!MATRIXF) throw std::runtime_error(fmt::format("Error reading {}", fn));
        if (remove_files) {
diff --git a/c++/operators.hpp b/c++/operators.hpp
index a54a033..dfe7fa4 100644
--- a/c++/operators.hpp
+++ b/c++/operators.hpp
@@ -134,6 +134,7 @@ class DensMatElements : public std::map<Invar, Matrix> {
            if (MATRIXF.bad()) throw std::runtime_error(fmt::format("Error reading {}", fn));
          }
        }
+       if (MATRIXF.peek() != std::ifstream::traits_type::eof() || MATRIXF.bad()) throw std::runtime_error(fmt::format("Unexpected data at the end of {}", fn));
        MATRIXF.close();
        if (!MATRIXF) throw std::runtime_error(fmt::format("Error reading {}", fn));
        if (remove_files) {
-- 
2.43.0


From d8aedd12d89bdd271562355eea7413ad783a2c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 34/45] fix: spectral functions: report write errors

---
 c++/basicio.hpp  |  6 ++++++
 c++/spectrum.hpp | 12 ++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/c++/basicio.hpp b/c++/basicio.hpp
index f8c0b5d..4693f19 100644
--- a/c++/basicio.hpp
+++ b/c++/basicio.hpp
@@ -114,6 +114,12 @@ inline std::ofstream safe_open(const std::string &filename, const bool binary =
   return F;
 }
 
+// Close an output file. Reports any error since the file was opened.
+inline void safe_close(std::ofstream &F, const std::string &filename) {
+  F.close();
+  if (!F) throw std::runtime_error(fmt::format("Error writing {}", filename));
+}
+
 inline std::ifstream safe_open_for_reading(const std::string &filename, const bool binary = false) {
   my_assert(filename != "");
   std::ios::openmode flag = std::ios::in;
diff --git a/c++/spectrum.hpp b/c++/spectrum.hpp
index 4fbc03d..d21fceb 100644
--- a/c++/spectrum.hpp
+++ b/c++/spectrum.hpp
@@ -171,6 +171,7 @@ void SpectrumRealFreq<S>::savebins() {
     if (P.reim)
       Fbins.write((char *)&wi, sizeof(double));
   }
+  safe_close(Fbins, fn);
 }
 
 // Energy mesh for spectral functions
@@ -224,6 +225,7 @@ void SpectrumRealFreq<S>::continuous() {
   std::ofstream Fdensity = safe_open(fn);
   densityneg.save(Fdensity, P.prec_xy, P.reim);
   densitypos.save(Fdensity, P.prec_xy, P.reim);
+  safe_close(Fdensity, fn);
 }
 
 template<scalar S>
@@ -240,7 +242,10 @@ class GFMatsubara {
    }
    void save() {
      color_print(P.pretty_out, fmt::emphasis::bold, "GF Matsubara: {} {} -> {}\n", name, algoname, filename);
-     results.save(safe_open(filename + ".dat"), P.prec_xy);
+     const auto fn = filename + ".dat";
+     auto F = safe_open(fn);
+     results.save(F, P.prec_xy);
+     safe_close(F, fn);
    }
 };
 
@@ -259,7 +264,10 @@ class TempDependence {
    void save() {
      color_print(P.pretty_out, fmt::emphasis::bold, "Temperature dependence: {} {} -> {}\n", name, algoname, filename);
      ranges::sort(results, sortfirst());
-     results.save(safe_open(filename + ".dat"), P.prec_xy, P.reim);
+     const auto fn = filename + ".dat";
+     auto F = safe_open(fn);
+     results.save(F, P.prec_xy, P.reim);
+     safe_close(F, fn);
    }
 };
 
-- 
2.43.0


From 5fc5b5ea1c8a4d02223a061336db9ae6e0e323eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 35/45] fix: absolute_energies.dat, subspaces.dat: report open
 and write errors

---
 c++/store.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/c++/store.hpp b/c++/store.hpp
index 4183500..77bf511 100644
--- a/c++/store.hpp
+++ b/c++/store.hpp
@@ -64,12 +64,13 @@ class ThermoStore : public std::vector<ThermoSubs<S>> {
      }
    }
    void dump_all_absolute_energies(const std::string &filename = "absolute_energies.dat"s) {
-     std::ofstream F(filename);
+     auto F = safe_open(filename);
      this->dump_abs_G(F);
+     safe_close(F, filename);
    }
    // Save a dump of all subspaces, with dimension info, etc.
    void dump_subspaces(const std::string &filename = "subspaces.dat"s) const {
-     std::ofstream O(filename);
+     auto O = safe_open(filename);
      for (const auto N : Nall()) {
        O << "Iteration " << N << std::endl;
        O << "len_dm=" << this->at(N).size() << std::endl;
@@ -77,6 +78,7 @@ class ThermoStore : public std::vector<ThermoSubs<S>> {
          O << "I=" << I << " kept=" << sub.kept() << " total=" << sub.total() << std::endl;
         O << std::endl;
       }
+     safe_close(O, filename);
     }
     void shift_abs_energies(const double GS_energy) {
       for (const auto N : Nall())
-- 
2.43.0


From febba19f82974b23c5fd25b7431a7f869e3a7405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 36/45] fix: td, tdfdm: report open and write errors

---
 c++/nrg-general.hpp | 3 +++
 c++/outfield.hpp    | 6 +++++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/c++/nrg-general.hpp b/c++/nrg-general.hpp
index 5cf4450..10d315c 100644
--- a/c++/nrg-general.hpp
+++ b/c++/nrg-general.hpp
@@ -213,6 +213,9 @@ public:
       run_dm_phase(operators_seed, coef_seed, diag_seed);
     }
 
+    stats.td.close();
+    stats.td_fdm.close();
+
     if (P.done) { std::ofstream D("DONE"); } // Indicate successful completion by creating a flag file
   }
   NRG_calculation(const NRG_calculation &) = delete;
diff --git a/c++/outfield.hpp b/c++/outfield.hpp
index 8732c07..1c74cb5 100644
--- a/c++/outfield.hpp
+++ b/c++/outfield.hpp
@@ -84,11 +84,15 @@ class TD_generic {
   template<typename T> void set(const std::string &desc, const T &x) { allfields.set(desc,x); }
   void save_values() {
     if (!O) {
-      O.emplace(filename);
+      O = safe_open(filename);
       allfields.save_header(O.value());
     }
     allfields.save_values(O.value());
   }
+  void close() { // call when all values have been saved
+    if (O) safe_close(O.value(), filename);
+    O.reset();
+  }
 };
 
 // Setup output fields that will appear in the file "td". Additional elements are defined in sym* files.
-- 
2.43.0


From 7e40e1c39c548123e4be238d7f679c5b90abe232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 37/45] fix: custom, customfdm, annotated.dat, energies.nrg,
 states.nrg, report.nrg: report write errors

---
 c++/nrg-general.hpp |  1 +
 c++/output.hpp      | 23 ++++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/c++/nrg-general.hpp b/c++/nrg-general.hpp
index 10d315c..5dd1bb5 100644
--- a/c++/nrg-general.hpp
+++ b/c++/nrg-general.hpp
@@ -187,6 +187,7 @@ private:
       if (P.h5raw) stats.h5save_dmnrg(*output.h5raw); // saved in raw-dm.h5
     }
     oprecalc.sl.save();
+    output.close();
     fmt::print("\n** Iteration completed.\n\n");
     return diag;
   }
diff --git a/c++/output.hpp b/c++/output.hpp
index 5c72a06..a6d1383 100644
--- a/c++/output.hpp
+++ b/c++/output.hpp
@@ -29,6 +29,7 @@ namespace NRG {
 template<scalar S, typename t_expv = expv_traits<S>>
 class ExpvOutput {
  private:
+   const std::string filename;
    std::ofstream F;                     // output stream
    std::map<std::string, t_expv> &m;    // reference to the name->value mapping (e.g. from class Stats)
    const std::list<std::string> fields; // list of fields to be output (may be a subset of the fields actually present in m)
@@ -55,11 +56,12 @@ class ExpvOutput {
          color_print(P.pretty_out, fmt::emphasis::bold | fg(fmt::color::red), "<{}>={}\n", op, formatted_output(m[op], P)); // NOTE: real and imaginary part shown
    }
     ExpvOutput(const std::string &fn, std::map<std::string, t_expv> &m_,
-               std::list<std::string> fields_, const Params &P_) : m(m_), fields(std::move(fields_)), P(P_) {
+               std::list<std::string> fields_, const Params &P_) : filename(fn), m(m_), fields(std::move(fields_)), P(P_) {
       F = safe_open(fn);
       field_numbers();
       field_names();
     }
+   void close() { safe_close(F, filename); }
 };
 
 // scaled = true -> output scaled energies (i.e. do not multiply by the rescale factor). note: dumpEscale is not applied here.
@@ -71,16 +73,21 @@ inline auto scaled_energy(const T e, const Step &step, const Stats<S> &stats, co
 // Store eigenvalue & quantum numbers information (RG flow diagrams)
 class Annotated {
  private:
+   std::string fn;
    std::ofstream F;
    const Params &P;
  public:
+   void close() {
+     if (F.is_open()) safe_close(F, fn);
+   }
    explicit Annotated(const Params &P_) : P(P_) {}
    template<scalar S, typename MF>
    void dump(const Step &step, const DiagInfo<S> &diag, const Stats<S> &stats,
              MF mult, const std::string &filename = "annotated.dat") {
       if (!P.dumpannotated) return;
       if (!F.is_open()) { // open output file
-        F = safe_open(filename);
+        fn = filename;
+        F = safe_open(fn);
         F << std::setprecision(P.dumpprecision);
       }
       std::vector<std::pair<double, Invar>> seznam;
@@ -191,7 +198,17 @@ struct Output {
     }
     if (!step.last())
       Freport << std::endl;
-  }};
+  }
+  // Call when the output is complete. Reports any write error.
+  void close() {
+    annotated.close();
+    if (Fenergies.is_open()) safe_close(Fenergies, "energies file");
+    if (Fstates.is_open()) safe_close(Fstates, "states file");
+    if (Freport.is_open()) safe_close(Freport, "report file");
+    if (custom) custom->close();
+    if (customfdm) customfdm->close();
+  }
+};
 } // namespace
 
 #endif
-- 
2.43.0


From ea57e142dace7285c5266dead82757a9afd47355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:01 +0000
Subject: [PATCH 38/45] fix: DONE: remove the marker of a previous run, report
 a failure to create it

---
 c++/nrg-general.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/c++/nrg-general.hpp b/c++/nrg-general.hpp
index 5dd1bb5..fd96bee 100644
--- a/c++/nrg-general.hpp
+++ b/c++/nrg-general.hpp
@@ -197,6 +197,8 @@ public:
     P("param", "param", std::move(workdir), embedded), eng(_eng), input(P, "data"), Sym(input.Sym),
     stats(P, Sym->get_td_fields(), input.GS_energy), store(P.Ninit, P.Nlen), store_all(P.Ninit, P.Nlen)
   {
+    std::filesystem::remove("DONE"); // The results of a previous run will be overwritten
+
     auto operators_seed = std::move(input.operators);
     auto diag_seed = std::move(input.diag);
     auto coef_seed = std::move(input.coef);
@@ -217,7 +219,10 @@ public:
     stats.td.close();
     stats.td_fdm.close();
 
-    if (P.done) { std::ofstream D("DONE"); } // Indicate successful completion by creating a flag file
+    if (P.done) { // Indicate successful completion by creating a flag file
+      auto D = safe_open("DONE");
+      safe_close(D, "DONE");
+    }
   }
   NRG_calculation(const NRG_calculation &) = delete;
   NRG_calculation(NRG_calculation &&) = delete;
-- 
2.43.0


From be52be8ac9f773ca8dbfa4ee254e308dd2692287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:30 +0000
Subject: [PATCH 39/45] fix: param, data: report read errors instead of
 treating them as end of input

---
 c++/misc.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/c++/misc.hpp b/c++/misc.hpp
index 8699e18..8706804 100644
--- a/c++/misc.hpp
+++ b/c++/misc.hpp
@@ -107,6 +107,7 @@ inline auto parse_block(std::istream &F) {
       parsed_params[keyword] = value;
     }
   }
+  if (F.bad()) throw std::runtime_error("Error reading a parameter block.");
   return parsed_params;
 }
 
@@ -119,6 +120,7 @@ inline bool find_block(std::istream &F, const std::string &s) {
     if (auto l = nextline(F))
       if(target.compare(strip_whitespace(l.value())) == 0) { return true; }
   }
+  if (F.bad()) throw std::runtime_error("Error searching for block " + target);
   return false;
 }
 
@@ -181,6 +183,7 @@ inline bool complex_data(const std::string &filename = "data") {
     if (trimmed[0] != '#') return false;
     if (trimmed.find("COMPLEX") != std::string::npos) return true;
   }
+  if (F.bad()) throw std::runtime_error("Error reading " + filename);
   return false;
 }
 
-- 
2.43.0


From 6d3460e401eb8553b1febd328aebc8397138ad67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:12 +0000
Subject: [PATCH 40/45] fix: binavg: never overwrite the averaged input in
 place with -o

---
 tools/binavg/binavg.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tools/binavg/binavg.hpp b/tools/binavg/binavg.hpp
index 14fee16..d6c1eb3 100644
--- a/tools/binavg/binavg.hpp
+++ b/tools/binavg/binavg.hpp
@@ -1,6 +1,7 @@
 #ifndef _binavg_binavg_hpp_
 #define _binavg_binavg_hpp_
 
+#include <cstdio>
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -167,7 +168,9 @@ class BinAvg {
    // Save a map of (double,double) pairs to a BINARY file.
    void save_binary(const std::string filename, const vec &x, const vec &y, const int SAVE_PREC = 18) {
      if (verbose) { std::cout << "Saving " << filename << std::endl; }
-     std::ofstream F(filename.c_str(), std::ios::out | std::ios::binary);
+     // With -o the result may replace the input file: it appears only when it is complete.
+     const std::string temporary = filename + ".tmp";
+     std::ofstream F(temporary.c_str(), std::ios::out | std::ios::binary);
      if (!F) {
        std::cerr << "Failed to open " << filename << " for writing." << std::endl;
        exit(1);
@@ -182,7 +185,10 @@ class BinAvg {
        F.write((char *)&vy, sizeof(double));
      }
      F.close();
-     if (!F) throw std::runtime_error("Error writing " + filename);
+     if (!F || std::rename(temporary.c_str(), filename.c_str()) != 0) {
+       std::remove(temporary.c_str());
+       throw std::runtime_error("Error writing " + filename);
+     }
    }
    
  public:
-- 
2.43.0


From a53a91378d543fd2dce7743dbc06f98268627121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 41/45] fix: kk: report read and write errors of the standard
 streams

---
 tools/kk/kk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/kk/kk.hpp b/tools/kk/kk.hpp
index 456b84f..9cfef8a 100644
--- a/tools/kk/kk.hpp
+++ b/tools/kk/kk.hpp
@@ -23,6 +23,7 @@
 #include <cassert>
 #include <string>
 #include <cstring>
+#include <cstdio>
 #include <algorithm>
 #include <cmath>
 #include <functional>
@@ -269,6 +270,7 @@ class KK {
    KK(int argv, char *argc[]) {
      parse_cmd_line(argv, argc);
      const auto im = read(mode == MODE::FILES ? Fin : std::cin);
+     if (mode == MODE::STD && std::ferror(stdin)) throw std::runtime_error("Error reading the input.");
      init(im);
      const auto re = calc(Xpts);
      write(re, mode == MODE::FILES ? Fout : std::cout);
@@ -276,6 +278,7 @@ class KK {
      std::cout.flush();
      if (mode == MODE::FILES ? !Fout : !std::cout) throw std::runtime_error("Error writing the output.");
      std::cout << "KK done!" << std::endl;
+     if (mode == MODE::STD && !std::cout) throw std::runtime_error("Error writing the output.");
    }
    
    // Modern interface when kk is used as a library
-- 
2.43.0


From 37736ed7afcd47b0915ad4e76afc9c4daa98829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 42/45] fix: tdavg: an unreadable reference file is an error

---
 tools/tdavg/tdavg.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tools/tdavg/tdavg.cc b/tools/tdavg/tdavg.cc
index 8c0607c..6de126c 100644
--- a/tools/tdavg/tdavg.cc
+++ b/tools/tdavg/tdavg.cc
@@ -21,6 +21,7 @@
 #include <string>
 #include <algorithm>
 #include <cstring>
+#include <cerrno>
 #include <sys/stat.h>
 
 #include <unistd.h>
@@ -62,6 +63,10 @@ bool file_exists(string filename) {
   struct stat s{};
   int result = stat(filename.c_str(), &s);
   if (result == 0 && S_ISREG(s.st_mode)) return true;
+  if (result != 0 && errno != ENOENT && errno != ENOTDIR) {
+    cerr << "Error accessing file " << filename << endl;
+    exit(1);
+  }
   return false;
 }
 
-- 
2.43.0


From 069a1b3a642191804a86280af17ee1e5904af285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 43/45] fix: instantiate: report input and output errors

---
 tools/instantiate/instantiate.cc | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/tools/instantiate/instantiate.cc b/tools/instantiate/instantiate.cc
index 45df6f8..cad3d53 100644
--- a/tools/instantiate/instantiate.cc
+++ b/tools/instantiate/instantiate.cc
@@ -28,6 +28,7 @@
 
 #include "matrix_evaluator.hpp"
 #include "nrgchain.hpp"
+#include "../common/io.hpp"
 
 namespace {
 
@@ -90,6 +91,7 @@ std::string read_text_file(const std::filesystem::path &filename) {
   if (!in) throw std::runtime_error("Can't open " + filename.string() + " for reading.");
   std::ostringstream text;
   text << in.rdbuf();
+  if (!text) throw std::runtime_error("Error reading " + filename.string() + ".");
   return text.str();
 }
 
@@ -99,7 +101,7 @@ std::filesystem::path resolve_template_file(const std::filesystem::path &templat
 
   std::error_code ec;
   if (std::filesystem::exists(in_template_dir, ec)) return in_template_dir;
-  ec.clear();
+  if (ec) throw std::runtime_error("Can't access " + in_template_dir.string() + ": " + ec.message());
   if (std::filesystem::exists(filename, ec)) return filename;
   return in_template_dir;
 }
@@ -129,14 +131,17 @@ ParamSections parse_param_sections(const std::string &filename) {
     if (eq == std::string::npos) continue;
     sections.values[section][trim(stripped.substr(0, eq))] = trim(stripped.substr(eq + 1));
   }
+  NRG::Tools::check_input(in);
   return sections;
 }
 
 void write_param_section_files(const ParamSections &sections, const std::string &param_filename) {
   for (const auto &[section, lines] : sections.lines) {
-    std::ofstream out(param_filename + "." + section);
-    if (!out) throw std::runtime_error("Can't open " + param_filename + "." + section + " for writing.");
+    const auto filename = param_filename + "." + section;
+    std::ofstream out(filename);
+    if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
     for (const auto &line : lines) out << line << '\n';
+    NRG::Tools::close_output(out, filename);
   }
 }
 
@@ -202,12 +207,14 @@ void write_values(const std::string &filename, const std::vector<double> &values
   if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
   out << std::setprecision(16);
   for (const auto value : values) out << value << '\n';
+  NRG::Tools::close_output(out, filename);
 }
 
 void write_scalar(const std::string &filename, const double value) {
   std::ofstream out(filename);
   if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
   out << std::setprecision(16) << value << '\n';
+  NRG::Tools::close_output(out, filename);
 }
 
 void write_wilson_channel(const NRG::Tools::NrgChain::WilsonChannel &channel, const size_t index) {
@@ -228,6 +235,7 @@ void save_text_matrix(const std::string &filename, const NRG::Matrix_traits<doub
     }
     out << '\n';
   }
+  NRG::Tools::close_output(out, filename);
 }
 
 void save_binary_matrix(const std::string &filename, const NRG::Matrix_traits<double> &matrix) {
@@ -245,6 +253,7 @@ void save_binary_matrix(const std::string &filename, const NRG::Matrix_traits<do
       const auto value = matrix(row, col);
       out.write(reinterpret_cast<const char *>(&value), sizeof(value));
     }
+  NRG::Tools::close_output(out, filename);
 }
 
 void save_values(const std::string &filename, const std::vector<double> &values) {
@@ -252,6 +261,7 @@ void save_values(const std::string &filename, const std::vector<double> &values)
   if (!out) throw std::runtime_error("Can't open " + filename + " for writing.");
   out << std::setprecision(18);
   for (const auto value : values) out << value << '\n';
+  NRG::Tools::close_output(out, filename);
 }
 
 std::vector<std::string> fields(const std::string &line) {
@@ -295,6 +305,7 @@ class DataTemplateReader {
       }
       return stripped;
     }
+    NRG::Tools::check_input(in);
     return std::nullopt;
   }
 
@@ -662,13 +673,17 @@ NRG::Spawn::MatrixEvaluator make_matrix_evaluator(const ParamSections &sections,
 class ScopedCoutRedirect {
  private:
   std::ostringstream sink;
+  std::ios_base::iostate old_state = std::cout.rdstate(); // changing the buffer clears the state
   std::streambuf *old_buffer = nullptr;
 
  public:
   ScopedCoutRedirect() : old_buffer(std::cout.rdbuf(sink.rdbuf())) {}
   ScopedCoutRedirect(const ScopedCoutRedirect &) = delete;
   ScopedCoutRedirect &operator=(const ScopedCoutRedirect &) = delete;
-  ~ScopedCoutRedirect() { std::cout.rdbuf(old_buffer); }
+  ~ScopedCoutRedirect() {
+    std::cout.rdbuf(old_buffer);
+    std::cout.setstate(old_state);
+  }
 };
 
 std::unique_ptr<NRG::Params> make_instantiate_params(const std::string &param_filename) {
@@ -748,9 +763,9 @@ void run_full_instantiation(const Options &options) {
   const auto data_text = data_buffer.str();
   validate_generated_data(options.param_filename, data_text);
 
-  std::ofstream data_out("data");
-  if (!data_out) throw std::runtime_error("Can't open data for writing.");
-  data_out << data_text;
+  NRG::Tools::OutputFile data_out("data");
+  data_out.stream << data_text;
+  data_out.commit();
 
   std::cout << "E_gs=" << std::setprecision(18) << seed.ground_energy << '\n';
 }
@@ -776,6 +791,8 @@ int main(int argc, char *argv[]) {
     } else {
       run_full_instantiation(options);
     }
+    std::cout.flush();
+    if (!std::cout) throw std::runtime_error("Error writing the output.");
     return EXIT_SUCCESS;
   } catch (const std::exception &e) {
     std::cerr << "instantiate: error: " << e.what() << '\n';
-- 
2.43.0


From 2c2ef7505d859b2886312fd766e46ba1a2d52178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:13 +0000
Subject: [PATCH 44/45] fix: diagnostic dumps in threaded diagonalisation do
 not race on the format of std::cout

---
 c++/core.hpp |  7 ++++++-
 c++/diag.hpp | 10 +++++++---
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/c++/core.hpp b/c++/core.hpp
index b70f638..6400cb5 100644
--- a/c++/core.hpp
+++ b/c++/core.hpp
@@ -3,6 +3,7 @@
 
 #include <cstddef>
 #include <set>
+#include <sstream>
 #include <algorithm>
 #include <range/v3/all.hpp>
 
@@ -92,7 +93,11 @@ auto hamiltonian(const Step &step, const Invar &I, const Opch<S> &opch, const Co
       h(r,r) = P.nrg_step_scale_factor() * diagprev.at(anc[i]).values.corr(n); // H_{N+1}=\lambda^{1/2} H_N+\xi_N (hopping terms)
   }
   Sym->make_matrix(h, step, rm, I, anc, opch, coef);  // Symmetry-type-specific matrix initialization steps
-  if (P.logletter('m')) dump_matrix(h);
+  if (P.logletter('m')) { // formatted separately: this may run in several threads, and the format flags of std::cout are shared
+    std::ostringstream text;
+    dump_matrix(h, text);
+    std::cout << text.str() << std::flush;
+  }
   if (P.h5raw && (P.h5all || (P.h5last && step.last())) && P.h5ham) {
 #if NRG_ENABLE_APP_OPENMP
 #pragma omp critical(nrgljubljana_h5raw)
diff --git a/c++/diag.hpp b/c++/diag.hpp
index 7544482..508a8d0 100644
--- a/c++/diag.hpp
+++ b/c++/diag.hpp
@@ -11,6 +11,7 @@
 #include <memory>
 #include <iostream>
 #include <iomanip> // std::setprecision
+#include <sstream>
 #include <stdexcept>
 #include <limits>
 #include <string>
@@ -650,10 +651,13 @@ template<matrix M> auto diagonalise(M &m, const DiagParams &DP, const int myrank
   const auto nr_computed = d.getnrcomputed();
   my_assert(nr_computed > 0); // zero computed eigenvalues signals serious failure
   my_assert(has_lesseq_rows(d.vec, m)); // sanity check
-  if (DP.logletter('e'))
-    d.dump_eigenvalues();
+  if (DP.logletter('e')) { // formatted separately: this may run in several threads, and the format flags of std::cout are shared
+    std::ostringstream text;
+    d.dump_eigenvalues(std::numeric_limits<size_t>::max(), text);
+    std::cout << text.str() << std::flush;
+  }
   nrglogdp('A', "LAPACK, dim=" << dim(m) << " M=" << nr_computed << rank_string);
-  nrglogdp('t', "Elapsed: " << std::setprecision(3) << timer.total_in_seconds() << rank_string);
+  nrglogdp('t', "Elapsed: " << prec3(timer.total_in_seconds()) << rank_string);
   return d;
 }
 
-- 
2.43.0


From eba5ed2e5e1fefb91153118fa8fa2c920d89253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:18 +0000
Subject: [PATCH 45/45] fix: reject impossible matrix dimensions in a damaged
 checkpoint

Dimensions read from a damaged file (e.g. negative when taken as signed numbers) were passed on to Eigen unchecked, so that loading ended in a segmentation fault instead of an exception.
---
 c++/numerics_Eigen.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/c++/numerics_Eigen.hpp b/c++/numerics_Eigen.hpp
index c21fbcc..f02ca6d 100644
--- a/c++/numerics_Eigen.hpp
+++ b/c++/numerics_Eigen.hpp
@@ -3,6 +3,10 @@
 #ifndef _NUMERICS_EIGEN_HPP_
 #define _NUMERICS_EIGEN_HPP_
 
+#include <cstddef>
+#include <limits>
+#include <stdexcept>
+
 #include <Eigen/Dense>
 
 #include <boost/archive/binary_iarchive.hpp>
@@ -54,7 +58,11 @@ template <scalar T>
 auto load_Eigen(boost::archive::binary_iarchive &ia) {
   const auto isize1 = read_one<size_t>(ia);
   const auto isize2 = read_one<size_t>(ia);
+  constexpr size_t max_size = std::numeric_limits<std::ptrdiff_t>::max() / sizeof(T);
+  if (isize1 > max_size || isize2 > max_size || (isize2 != 0 && isize1 > max_size / isize2))
+    throw std::runtime_error("load() error. Invalid matrix dimensions.");
   auto m = EigenMatrix<T>(isize1, isize2);
+  if (isize2 == 0) return m;
   for (const auto i : range0(isize1))
     for (const auto j : range0(isize2))
       m(i, j) = read_one<T>(ia);
-- 
2.43.0

