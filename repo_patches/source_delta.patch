From 87d979b3346e1e68d698ad08fc1b2434e316b2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:37 +0000
Subject: [PATCH 01/43] fix: return copies of array properties to python
 instead of views of memory that the next run() frees

---
 src/_booz_xform/bindings.cpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/bindings.cpp b/src/_booz_xform/bindings.cpp
index 28a3b91..42c9224 100644
--- a/src/_booz_xform/bindings.cpp
+++ b/src/_booz_xform/bindings.cpp
@@ -8,10 +8,38 @@ namespace py = pybind11;
 using namespace booz_xform;
 using namespace pybind11::literals; // For documenting function arguments
 
+/** pybind11's default for data members is to return numpy arrays that
+ *  point to the memory of the C++ object. Such an array would change,
+ *  or point to memory that has been freed, the next time run() or
+ *  read_wout() is called. Therefore return copies instead.
+ */
+class Booz_xform_class : public py::class_<Booz_xform> {
+public:
+  using py::class_<Booz_xform>::class_;
+
+  template <typename... Args>
+  Booz_xform_class& def(Args&&... args) {
+    py::class_<Booz_xform>::def(std::forward<Args>(args)...);
+    return *this;
+  }
+
+  template <typename T>
+  Booz_xform_class& def_readwrite(const char* name, T Booz_xform::*member, const char* doc) {
+    py::class_<Booz_xform>::def_readwrite(name, member, py::return_value_policy::copy, doc);
+    return *this;
+  }
+
+  template <typename T>
+  Booz_xform_class& def_readonly(const char* name, const T Booz_xform::*member, const char* doc) {
+    py::class_<Booz_xform>::def_readonly(name, member, py::return_value_policy::copy, doc);
+    return *this;
+  }
+};
+
 PYBIND11_MODULE(_booz_xform, m) {
   m.doc() = "Transformation to Boozer coordinates";
 
-  py::class_<Booz_xform>(m, "Booz_xform", R"(
+  Booz_xform_class(m, "Booz_xform", R"(
 A class holding the input and output information for a
 transformation to Boozer coordinates)")
 
-- 
2.43.0


From 9be6a69387aa7a6186a51bff216c1158b92e7ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 02/43] fix: write zeros for beta_b instead of uninitialized
 memory when the flux profiles are available

---
 src/_booz_xform/write_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 5e9814c..543e53b 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -82,7 +82,7 @@ void Booz_xform::write_boozmn(std::string filename) {
   // backwards-compatibility of the boozmn.nc files.
   Vector pres_b(ns_in + 1), beta_b(ns_in + 1);
   beta_b.setZero();
-  nc.put(radius_dim, "beta_b", pres_b, placeholder_str, "dimensionless");
+  nc.put(radius_dim, "beta_b", beta_b, placeholder_str, "dimensionless");
   Vector phip_dummy(ns_in + 1), chi_dummy(ns_in + 1), phi_dummy(ns_in+1);
   phip_dummy.setZero();
   chi_dummy.setZero();
-- 
2.43.0


From b51962076a4b74500544d37ebc895a22da6be971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 03/43] fix: discard the asymmetric output of an earlier run
 when a symmetric configuration is run

---
 src/_booz_xform/init.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97fba17..bd4ed40 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -169,6 +169,13 @@ void Booz_xform::init() {
     zmnc_b.setZero(mnboz, ns_b);
     numnc_b.setZero(mnboz, ns_b);
     gmns_b.setZero(mnboz, ns_b);
+  } else {
+    // Do not keep results from an earlier asymmetric calculation.
+    bmns_b.resize(0, 0);
+    rmns_b.resize(0, 0);
+    zmnc_b.resize(0, 0);
+    numnc_b.resize(0, 0);
+    gmns_b.resize(0, 0);
   }
 
 }
-- 
2.43.0


From 04ec44a0a677d2eb8c541a99a1727f230a2db8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 04/43] fix: read_boozmn() left chi uninitialized when the file
 has no chi_b

---
 src/_booz_xform/read_boozmn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 5fd0152..aee57e7 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -40,7 +40,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   Boozer_I_all.resize(ns_in);
   phi.resize(ns_in+1);
   phip.resize(ns_in+1);
-  chi.resize(ns_in+1);
+  chi.setZero(ns_in+1); // chi_b may be missing from the file
   pres.resize(ns_in+1);
   nc.get("iota_b", iota_in);
   nc.get("bvco_b", Boozer_G_in);
-- 
2.43.0


From d280b755d45f5ef65e5af7ed49adde201e059652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 05/43] fix: read_boozmn() did not set Boozer_G, Boozer_I, and
 s_in, or left those of an earlier calculation

---
 src/_booz_xform/read_boozmn.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index aee57e7..a57e1f9 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -112,6 +112,18 @@ void Booz_xform::read_boozmn(std::string filename) {
   boozfloat hs = 1.0 / (ns_vmec - 1.0);
   s_b.resize(ns_b);
   for (j = 0; j < ns_b; j++) s_b[j] = hs * (compute_surfs[j] + 0.5);
+  s_in.resize(ns_in);
+  for (j = 0; j < ns_in; j++) s_in[j] = hs * (j + 0.5);
+
+  // The flux functions on the surfaces used for output quantities:
+  Boozer_G.resize(ns_b);
+  Boozer_I.resize(ns_b);
+  for (j = 0; j < ns_b; j++) {
+    if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
+      throw std::runtime_error("jlist has an entry that is outside the radial grid");
+    Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
+    Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
+  }
   if (verbose > 0) std::cout << "s_b=" << s_b << std::endl;
 
   nc.close();
-- 
2.43.0


From 7ddaff83b93fe8d8b52462653874161a981ef205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:16 +0000
Subject: [PATCH 06/43] fix: read_boozmn() did not read the aspect ratio that
 write_boozmn() saves

---
 src/_booz_xform/read_boozmn.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index a57e1f9..0924e60 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -19,6 +19,11 @@ void Booz_xform::read_boozmn(std::string filename) {
   asym = (bool) asym_int;
 
   nc.get("nfp_b", nfp);
+  try {
+      nc.get("aspect_b", aspect);
+  } catch (std::runtime_error error) {
+      aspect = 0;
+  }
 
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
-- 
2.43.0


From 624a66398067ea018e67456527e4fb60c6e07bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 07/43] fix: init_from_vmec() read past the end of rmnc, zmns,
 etc for m=1 when ns is 2

---
 src/_booz_xform/init_from_vmec.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 6b180df..dda680b 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -267,17 +267,21 @@ void Booz_xform::init_from_vmec(int ns,
 	// Interpolate:
 	//rmnc(j, 1) = 0.5 * (val_over_sqrt_s_on_axis + rmnc0(j, 1) / sqrt_s_full[1]) * sqrt_s_half[0];
 
+	// If there is only 1 full grid point after s = 0, take
+	// rmnc/sqrt(s) to be constant.
+	int k2 = std::min(2, ns - 1);
+
 	rmnc(j, 0) = (1.5 * rmnc0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * rmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * rmnc0(j, k2) / sqrt_s_full[k2]) * sqrt_s_half[0];
 
 	zmns(j, 0) = (1.5 * zmns0(j, 1) / sqrt_s_full[1]
-		      - 0.5 * zmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+		      - 0.5 * zmns0(j, k2) / sqrt_s_full[k2]) * sqrt_s_half[0];
 	if (asym) {
 	  rmns(j, 0) = (1.5 * rmns0(j, 1) / sqrt_s_full[1]
-			- 0.5 * rmns0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * rmns0(j, k2) / sqrt_s_full[k2]) * sqrt_s_half[0];
 
 	  zmnc(j, 0) = (1.5 * zmnc0(j, 1) / sqrt_s_full[1]
-			- 0.5 * zmnc0(j, 2) / sqrt_s_full[2]) * sqrt_s_half[0];
+			- 0.5 * zmnc0(j, k2) / sqrt_s_full[k2]) * sqrt_s_half[0];
 	}
       }
     }
-- 
2.43.0


From 1503e567dcef309f403472356337b461923b70bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 08/43] fix: printing rmnc with verbose=2 read past its end for
 fewer than 4 surfaces or modes

---
 src/_booz_xform/init_from_vmec.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index dda680b..0362649 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -185,11 +185,11 @@ void Booz_xform::init_from_vmec(int ns,
       std::cout << "xn = " << xn << std::endl;
 
       std::cout << "rmnc, increasing ns index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(0, j);
+      for (j = 0; j < std::min(4, ns); j++) std::cout << " " << rmnc0(0, j);
       std::cout << std::endl;
 
       std::cout << "rmnc, ncreasing mnmax index:";
-      for (j = 0; j < 4; j++) std::cout << " " << rmnc0(j, 0);
+      for (j = 0; j < std::min(4, mnmax); j++) std::cout << " " << rmnc0(j, 0);
       std::cout << std::endl;
     }
   }
-- 
2.43.0


From 69ba8c57e6cfb43f2aad93db9e30a63954751e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 09/43] fix: init_trig() wrote past the end of cosm and sinm
 when only m=0 is present

---
 src/_booz_xform/init_trig.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/init_trig.cpp b/src/_booz_xform/init_trig.cpp
index 628c6e9..a2257b5 100644
--- a/src/_booz_xform/init_trig.cpp
+++ b/src/_booz_xform/init_trig.cpp
@@ -23,8 +23,12 @@ void booz_xform::init_trig(Vector& theta_grid_x, Vector& zeta_grid_x,
   for (j = 0; j < n_theta_zeta_x; j++) {
     cosmx(j, 0) = 1.0;
     cosnx(j, 0) = 1.0;
-    cosmx(j, 1) = cos(theta_grid_x[j]);
-    sinmx(j, 1) = sin(theta_grid_x[j]);
+  }
+  if (mmax >= 1) {
+    for (j = 0; j < n_theta_zeta_x; j++) {
+      cosmx(j, 1) = cos(theta_grid_x[j]);
+      sinmx(j, 1) = sin(theta_grid_x[j]);
+    }
   }
   if (nmax >= 1) {
     for (j = 0; j < n_theta_zeta_x; j++) {
-- 
2.43.0


From a2ef32ffb8b2a03d6046675413463089c2531101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:40 +0000
Subject: [PATCH 10/43] fix: run() read past the end of cosm and sinm when mpol
 is the largest m, as documented

---
 src/_booz_xform/init.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index bd4ed40..2c36d1e 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -119,8 +119,10 @@ void Booz_xform::init() {
     }
   }
 
-  cosm.setZero(n_theta_zeta, mpol);
-  sinm.setZero(n_theta_zeta, mpol);
+  // In VMEC the maximum value of xm is mpol - 1. However mpol is
+  // documented as the maximum value of xm, so space is needed for m = mpol.
+  cosm.setZero(n_theta_zeta, mpol + 1);
+  sinm.setZero(n_theta_zeta, mpol + 1);
   cosn.setZero(n_theta_zeta, ntor + 1);
   sinn.setZero(n_theta_zeta, ntor + 1);
   cosm_nyq.setZero(n_theta_zeta, mpol_nyq + 1);
@@ -130,7 +132,7 @@ void Booz_xform::init() {
   
   init_trig(theta_grid, zeta_grid,
 	    cosm, sinm, cosn, sinn,
-	    mpol - 1, ntor, nfp);
+	    mpol, ntor, nfp);
   
   init_trig(theta_grid, zeta_grid,
 	    cosm_nyq, sinm_nyq, cosn_nyq, sinn_nyq,
-- 
2.43.0


From 55e75c1c9d349b6714dcd2485bb5af97a9ff485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 11/43] fix: read_wout() divided by nfp and used mnmax_nyq
 before checking that they are positive

---
 src/_booz_xform/read_wout.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index bf05824..72f28cb 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -26,6 +26,10 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   nc.get("mnmax", mnmax);
   nc.get("mnmax_nyq", mnmax_nyq);
   nc.get("aspect", aspect);
+  if (ns < 2) throw std::runtime_error("ns must be at least 2");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
 
   Vector phip0;
   Vector chi0;
-- 
2.43.0


From 6a7c80f84a64aa94bebc495962a8795c7f236b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:05 +0000
Subject: [PATCH 12/43] fix: init_from_vmec() read xm[0] etc of empty arrays

---
 src/_booz_xform/init_from_vmec.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 0362649..2184039 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -33,6 +33,8 @@ void Booz_xform::init_from_vmec(int ns,
 
   if (ns < 2) throw std::runtime_error("ns must be at least 2");
   if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
+  if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (iotas.size() != ns) throw std::runtime_error("iotas.size() is not ns");
   bool skip_phip0 = (phip0.size()==0);
   if (!skip_phip0) {
-- 
2.43.0


From c46c9efceb6e38552ae2bd11636f0333b797f38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 13/43] fix: reading a NetCDF variable whose dimensions differ
 from those expected wrote out of bounds

---
 src/_booz_xform/netcdf_reader.cpp | 39 ++++++++++++++++++++++++++-----
 src/_booz_xform/netcdf_reader.hpp |  3 +++
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 01c6255..8644834 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <iostream>
 #include <stdexcept>
 #include <netcdf.h>
@@ -31,10 +32,35 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+/** Throw an exception unless the dimensions of a variable in the file
+    are as expected, since otherwise reading it would write out of bounds.
+    NetCDF's order of dimensions is used. Dimensions of length 1 are ignored.
+ */
+void booz_xform::NetCDFReader::check_size(std::string varname, int var_id,
+					  std::vector<size_t> expected) {
+  int var_ndims, retval;
+  if ((retval = nc_inq_varndims(ncid, var_id, &var_ndims)))
+    ERR(retval, varname);
+  std::vector<int> dim_ids(var_ndims + 1);
+  if ((retval = nc_inq_vardimid(ncid, var_id, &dim_ids[0])))
+    ERR(retval, varname);
+  std::vector<size_t> dims;
+  for (int j = 0; j < var_ndims; j++) {
+    size_t dimval;
+    if ((retval = nc_inq_dimlen(ncid, dim_ids[j], &dimval)))
+      ERR(retval, varname);
+    if (dimval != 1) dims.push_back(dimval);
+  }
+  expected.erase(std::remove(expected.begin(), expected.end(), (size_t)1), expected.end());
+  if (dims != expected)
+    throw std::runtime_error("Variable " + varname + " in the NetCDF file does not have the expected dimensions");
+}
+
 void booz_xform::NetCDFReader::get(std::string varname, int& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, {});
   if ((retval = nc_get_var_int(ncid, var_id, &var)))
     ERR(retval, varname);
 }
@@ -43,39 +69,40 @@ void booz_xform::NetCDFReader::get(std::string varname, boozfloat& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, {});
   if ((retval = nc_get_var_double(ncid, var_id, &var)))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the Vector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The Vector must already have been sized to the correct dimension.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Vector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, {(size_t)var.size()});
   if ((retval = nc_get_var_double(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the IntVector has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The IntVector must already have been sized to the correct dimension.
  */
 void booz_xform::NetCDFReader::get(std::string varname, IntVector& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, {(size_t)var.size()});
   if ((retval = nc_get_var_int(ncid, var_id, &var[0])))
     ERR(retval, varname);
 }
 
-/** This subroutine presently assumes the matrix has already been
-    sized to the correct dimension. If not, there may be a seg fault.
+/** The matrix must already have been sized to the correct dimensions.
  */
 void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
   int var_id, retval;
   if ((retval = nc_inq_varid(ncid, varname.c_str(), &var_id)))
     ERR(retval, varname);
+  check_size(varname, var_id, {(size_t)var.cols(), (size_t)var.rows()});
   if ((retval = nc_get_var_double(ncid, var_id, &var(0,0))))
     ERR(retval, varname);
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index fc93111..986133a 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -1,6 +1,8 @@
 #ifndef BOOZ_NETCDF_READER_H
 #define BOOZ_NETCDF_READER_H
 
+#include <string>
+#include <vector>
 #include "vector_matrix.hpp"
 
 namespace booz_xform {
@@ -11,6 +13,7 @@ namespace booz_xform {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
     static void ERR(int, std::string);
+    void check_size(std::string, int, std::vector<size_t>);
     
   public:
     NetCDFReader(std::string);
-- 
2.43.0


From fd6d0e191c12055a387c4e625c965c30e7e82b92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:35 +0000
Subject: [PATCH 14/43] fix: NetCDF files were left open when reading or
 writing failed

---
 src/_booz_xform/netcdf_reader.cpp | 12 ++++++++++--
 src/_booz_xform/netcdf_reader.hpp |  4 ++++
 src/_booz_xform/netcdf_writer.cpp |  8 +++++++-
 src/_booz_xform/netcdf_writer.hpp |  4 ++++
 4 files changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 8644834..b82b230 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -7,13 +7,20 @@
 
 using namespace booz_xform;
 
-booz_xform::NetCDFReader::NetCDFReader(std::string filename) {
+booz_xform::NetCDFReader::NetCDFReader(std::string filename) : is_open(false) {
   int retval;
   if ((retval = nc_open(filename.c_str(), NC_NOWRITE, &ncid)))
     ERR(retval, filename);
   // Get the number of dimensions, variables, etc:
-  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid)))
+  if ((retval = nc_inq(ncid, &ndims, &nvars, &ngatts, &unlimdimid))) {
+    nc_close(ncid); // The destructor is not called if the constructor throws.
     ERR(retval, filename);
+  }
+  is_open = true;
+}
+
+booz_xform::NetCDFReader::~NetCDFReader() {
+  if (is_open) nc_close(ncid);
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
@@ -109,5 +116,6 @@ void booz_xform::NetCDFReader::get(std::string varname, Matrix& var) {
 
 void booz_xform::NetCDFReader::close() {
   int retval;
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval, "close()");
 }
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index 986133a..f115c8e 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -12,11 +12,15 @@ namespace booz_xform {
   class NetCDFReader {
   private:
     int ncid, ndims, nvars, ngatts, unlimdimid;
+    bool is_open;
     static void ERR(int, std::string);
     void check_size(std::string, int, std::vector<size_t>);
     
   public:
     NetCDFReader(std::string);
+    ~NetCDFReader(); // Closes the file if close() was not reached due to an exception
+    NetCDFReader(const NetCDFReader&) = delete;
+    NetCDFReader& operator=(const NetCDFReader&) = delete;
 
     size_t getdim(std::string);
     
diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index dca832a..c02ad0b 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -13,12 +13,17 @@
 
 using namespace booz_xform;
 
-booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) {
+booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) : is_open(false) {
   int retval;
   // If you want to use the netcdf4 format, "|NC_NETCDF4" must be included
   // in the file type, but such files cannot be read with
   // scipy.io.netcdf.
   if ((retval = nc_create(filename.c_str(), NC_CLOBBER, &ncid))) ERR(retval);
+  is_open = true;
+}
+
+booz_xform::NetCDFWriter::~NetCDFWriter() {
+  if (is_open) nc_abort(ncid);
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
@@ -163,6 +168,7 @@ void booz_xform::NetCDFWriter::write_and_close() {
   }
   
   // Close the file
+  is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
 }
 
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 28730e0..1e942d2 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -26,6 +26,7 @@ namespace booz_xform {
   class NetCDFWriter {
   private:
     int ncid;
+    bool is_open;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
@@ -34,6 +35,9 @@ namespace booz_xform {
     
   public:
     NetCDFWriter(std::string);
+    ~NetCDFWriter(); // Closes the file if write_and_close() was not completed due to an exception
+    NetCDFWriter(const NetCDFWriter&) = delete;
+    NetCDFWriter& operator=(const NetCDFWriter&) = delete;
     dim_id_type dim(std::string, int);
     void add_attribute(int, std::string, std::string);
     
-- 
2.43.0


From 65cce9ab4cfde091231a738f3171534b3f7924fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 15/43] fix: run() accessed memory out of bounds when the input
 quantities were inconsistent

---
 src/_booz_xform/booz_xform.hpp |  1 +
 src/_booz_xform/init.cpp       | 66 ++++++++++++++++++++++++++++++++++
 2 files changed, 67 insertions(+)

diff --git a/src/_booz_xform/booz_xform.hpp b/src/_booz_xform/booz_xform.hpp
index 0b1a487..507b7cc 100644
--- a/src/_booz_xform/booz_xform.hpp
+++ b/src/_booz_xform/booz_xform.hpp
@@ -53,6 +53,7 @@ namespace booz_xform {
     Matrix sinn_nyq; //!< Stores sin(n*zeta) for xn_nyq
 
     void defaults();
+    void check_inputs();
     void check_accuracy(int, int, Vector&, Vector&, Vector&, Matrix&, Matrix&, Matrix&, Matrix&);
 
   public:
diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 2c36d1e..fc2861a 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -1,6 +1,8 @@
 #include <iostream>
 #include <iomanip>
 #include <cassert>
+#include <climits>
+#include <stdexcept>
 #ifdef OPENMP
 #include <omp.h>
 #endif
@@ -22,6 +24,68 @@ int booz_xform::omp_max_threads() {
 #endif
 }
 
+/** Throw an exception if (xm, xn) are not valid mode numbers. */
+static void check_modes(std::string name, IntVector& xm, IntVector& xn,
+			int mnmax, int mpol, int ntor, int nfp) {
+  if (mnmax < 1) throw std::runtime_error("There must be at least 1 mode for xm" + name);
+  if (mpol < 0 || ntor < 0) throw std::runtime_error("The maximum mode numbers for xm" + name + " and xn" + name + " cannot be negative");
+  if (xm.size() != mnmax) throw std::runtime_error("xm" + name + " has the wrong size");
+  if (xn.size() != mnmax) throw std::runtime_error("xn" + name + " has the wrong size");
+  for (int j = 0; j < mnmax; j++) {
+    if (xm[j] < 0 || xm[j] > mpol)
+      throw std::runtime_error("xm" + name + " has an entry that is negative or exceeds the maximum poloidal mode number");
+    if (xn[j] % nfp != 0)
+      throw std::runtime_error("xn" + name + " has an entry that is not a multiple of nfp");
+    if (xn[j] / nfp > ntor || xn[j] / nfp < -ntor)
+      throw std::runtime_error("xn" + name + " has an entry that exceeds the maximum toroidal mode number");
+  }
+}
+
+static void check_matrix(std::string name, Matrix& matrix, int rows, int cols) {
+  if (matrix.rows() != rows || matrix.cols() != cols)
+    throw std::runtime_error(name + " has the wrong size");
+}
+
+/** Throw an exception if the input quantities are not consistent with
+ *  each other, in which case the transformation would read or write
+ *  out of bounds.
+ */
+void Booz_xform::check_inputs() {
+  if (mboz < 1) throw std::runtime_error("mboz must be at least 1");
+  if (nboz < 0) throw std::runtime_error("nboz cannot be negative");
+  if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  // The product of the numbers of theta and zeta grid points must fit in an int:
+  if ((4.0 * mboz + 2) * (4.0 * nboz + 2) > INT_MAX || (double)nboz * nfp > INT_MAX)
+    throw std::runtime_error("mboz or nboz is too large");
+
+  check_modes("", xm, xn, mnmax, mpol, ntor, nfp);
+  check_modes("_nyq", xm_nyq, xn_nyq, mnmax_nyq, mpol_nyq, ntor_nyq, nfp);
+  if (xm_nyq[0] != 0 || xn_nyq[0] != 0)
+    throw std::runtime_error("The first element of xm_nyq and xn_nyq must be 0");
+
+  if (ns_in < 1) throw std::runtime_error("ns_in must be at least 1");
+  if (iota.size() != ns_in) throw std::runtime_error("iota has the wrong size");
+  for (int j = 0; j < compute_surfs.size(); j++) {
+    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
+    if (compute_surfs[j] >= ns_in) throw std::runtime_error("compute_surfs has an entry that is too large");
+  }
+
+  check_matrix("rmnc", rmnc, mnmax, ns_in);
+  check_matrix("zmns", zmns, mnmax, ns_in);
+  check_matrix("lmns", lmns, mnmax, ns_in);
+  check_matrix("bmnc", bmnc, mnmax_nyq, ns_in);
+  check_matrix("bsubumnc", bsubumnc, mnmax_nyq, ns_in);
+  check_matrix("bsubvmnc", bsubvmnc, mnmax_nyq, ns_in);
+  if (asym) {
+    check_matrix("rmns", rmns, mnmax, ns_in);
+    check_matrix("zmnc", zmnc, mnmax, ns_in);
+    check_matrix("lmnc", lmnc, mnmax, ns_in);
+    check_matrix("bmns", bmns, mnmax_nyq, ns_in);
+    check_matrix("bsubumns", bsubumns, mnmax_nyq, ns_in);
+    check_matrix("bsubvmns", bsubvmns, mnmax_nyq, ns_in);
+  }
+}
+
 /** Initialize variables that are common to all surfaces that share
  *  the same (mpol, ntor) resolution.
  *
@@ -29,6 +93,8 @@ int booz_xform::omp_max_threads() {
  *  setup_booz.f, boozer_coords.f, and foranl.f.
  */
 void Booz_xform::init() {
+  check_inputs();
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
-- 
2.43.0


From f1c77da61fb83fb50e4afb2af8182527868b75bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 16/43] fix: read_wout() rejected a file with fewer surfaces
 than the one read before, due to the earlier compute_surfs

---
 src/_booz_xform/init_from_vmec.cpp | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 2184039..11de1ce 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -89,11 +89,6 @@ void Booz_xform::init_from_vmec(int ns,
     if (bsubvmns0.rows() != mnmax_nyq) throw std::runtime_error("bsubvmns0 has the wrong number of rows");
   }
 
-  for (j = 0; j < compute_surfs.size(); j++) {
-    if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
-    if (compute_surfs[j] >= ns - 1) throw std::runtime_error("compute_surfs has an entry that is too large for the given ns");
-  }
-
   // Done with validation.
 
   iota.resize(ns_in);
-- 
2.43.0


From c208770320d0dbb5a85e99957c76b6b4d76c66e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 17/43] fix: integer overflow for extreme values of mpol and
 ntor

---
 src/_booz_xform/init.cpp           | 2 +-
 src/_booz_xform/init_from_vmec.cpp | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index fc2861a..f92f468 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -28,7 +28,7 @@ int booz_xform::omp_max_threads() {
 static void check_modes(std::string name, IntVector& xm, IntVector& xn,
 			int mnmax, int mpol, int ntor, int nfp) {
   if (mnmax < 1) throw std::runtime_error("There must be at least 1 mode for xm" + name);
-  if (mpol < 0 || ntor < 0) throw std::runtime_error("The maximum mode numbers for xm" + name + " and xn" + name + " cannot be negative");
+  if (mpol < 0 || ntor < 0 || mpol == INT_MAX || ntor == INT_MAX) throw std::runtime_error("The maximum mode numbers for xm" + name + " and xn" + name + " are out of range");
   if (xm.size() != mnmax) throw std::runtime_error("xm" + name + " has the wrong size");
   if (xn.size() != mnmax) throw std::runtime_error("xn" + name + " has the wrong size");
   for (int j = 0; j < mnmax; j++) {
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 11de1ce..bbeb57d 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -1,6 +1,7 @@
 #include <iostream>
 #include <fstream>
 #include <iomanip>
+#include <climits>
 #include <stdexcept>
 #include <algorithm>
 #include "booz_xform.hpp"
@@ -33,6 +34,8 @@ void Booz_xform::init_from_vmec(int ns,
 
   if (ns < 2) throw std::runtime_error("ns must be at least 2");
   if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
+  if (mpol < 0 || mpol > INT_MAX / 6) throw std::runtime_error("mpol is out of range");
+  if (ntor < 0 || ntor > INT_MAX / nfp / 2) throw std::runtime_error("ntor is out of range");
   if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
   if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (iotas.size() != ns) throw std::runtime_error("iotas.size() is not ns");
-- 
2.43.0


From 05fc273ecf2251d64f7774582d6f5719a5f1677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 18/43] fix: run() read past the end of s_in if it was not
 provided

---
 src/_booz_xform/init.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index f92f468..d68646a 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -64,6 +64,7 @@ void Booz_xform::check_inputs() {
     throw std::runtime_error("The first element of xm_nyq and xn_nyq must be 0");
 
   if (ns_in < 1) throw std::runtime_error("ns_in must be at least 1");
+  if (s_in.size() != 0 && s_in.size() != ns_in) throw std::runtime_error("s_in has the wrong size");
   if (iota.size() != ns_in) throw std::runtime_error("iota has the wrong size");
   for (int j = 0; j < compute_surfs.size(); j++) {
     if (compute_surfs[j] < 0) throw std::runtime_error("compute_surfs cannot be negative");
@@ -212,7 +213,8 @@ void Booz_xform::init() {
   */
   ns_b = compute_surfs.size();
   s_b.resize(ns_b);
-  for (j = 0; j < ns_b; j++) s_b[j] = s_in[compute_surfs[j]];
+  // s_in is only used for plotting, so it need not be provided.
+  for (j = 0; j < ns_b; j++) s_b[j] = (s_in.size() == 0) ? 0.0 : s_in[compute_surfs[j]];
   Boozer_I.setZero(ns_b);
   Boozer_G.setZero(ns_b);
   Boozer_I_all.setZero(ns_in);
-- 
2.43.0


From 70baeeefc421c087854bc5fea3455368d18f055a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:25 +0000
Subject: [PATCH 19/43] fix: scalar quantities were uninitialized until set,
 e.g. toroidal_flux and mnmax after read_boozmn()

---
 src/_booz_xform/booz_xform.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/_booz_xform/booz_xform.cpp b/src/_booz_xform/booz_xform.cpp
index 0f7e571..f4387fe 100644
--- a/src/_booz_xform/booz_xform.cpp
+++ b/src/_booz_xform/booz_xform.cpp
@@ -9,6 +9,18 @@ void Booz_xform::defaults() {
   mboz = 16;
   nboz = 16;
   aspect = 0;
+  toroidal_flux = 0;
+  asym = false;
+  nfp = 1;
+  mpol = 0;
+  ntor = 0;
+  mnmax = 0;
+  mpol_nyq = 0;
+  ntor_nyq = 0;
+  mnmax_nyq = 0;
+  ns_in = 0;
+  ns_b = 0;
+  mnboz = 0;
 }
 
 Booz_xform::Booz_xform() {
-- 
2.43.0


From a882b5439e7a0b56157cfdf824a8c75d1c421d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 20/43] fix: write_boozmn() read out of bounds when there were
 no results consistent with the inputs

---
 src/_booz_xform/init.cpp           |  1 +
 src/_booz_xform/init_from_vmec.cpp |  2 ++
 src/_booz_xform/read_boozmn.cpp    |  3 ++-
 src/_booz_xform/read_wout.cpp      |  1 +
 src/_booz_xform/run.cpp            |  1 +
 src/_booz_xform/write_boozmn.cpp   | 13 +++++++++++++
 6 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index d68646a..5b474f1 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -95,6 +95,7 @@ void Booz_xform::check_inputs() {
  */
 void Booz_xform::init() {
   check_inputs();
+  completed = false;
 
   // First comes some initialization from read_wout_booz.f:
   
diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index bbeb57d..02f06b0 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -94,6 +94,8 @@ void Booz_xform::init_from_vmec(int ns,
 
   // Done with validation.
 
+  completed = false; // Any earlier results are not for this new equilibrium.
+
   iota.resize(ns_in);
   for (j = 0; j < ns_in; j++)  {
       iota[j] = iotas[j + 1];
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 0924e60..df43ed0 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -13,6 +13,7 @@ void Booz_xform::read_boozmn(std::string filename) {
 
   if (verbose > 0) std::cout << "About to try reading boozmn netcdf file " << filename << std::endl;
   booz_xform::NetCDFReader nc(filename);
+  completed = false;
 
   int asym_int;
   nc.get("lasym__logical__", asym_int);
@@ -132,5 +133,5 @@ void Booz_xform::read_boozmn(std::string filename) {
   if (verbose > 0) std::cout << "s_b=" << s_b << std::endl;
 
   nc.close();
-
+  completed = true;
 }
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index 72f28cb..4431b61 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -12,6 +12,7 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   int j, k;
   if (verbose > 0) std::cout << "About to try reading VMEC wout file " << filename << std::endl;
   booz_xform::NetCDFReader nc(filename);
+  completed = false;
 
   int asym_int;
   nc.get("lasym__logical__", asym_int);
diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index f593e7a..ea0f2ef 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -23,4 +23,5 @@ void Booz_xform::run() {
   for (int j = 0; j < compute_surfs.size(); j++) {
     surface_solve(j);
   }
+  completed = true;
 }
diff --git a/src/_booz_xform/write_boozmn.cpp b/src/_booz_xform/write_boozmn.cpp
index 543e53b..7fe8fba 100644
--- a/src/_booz_xform/write_boozmn.cpp
+++ b/src/_booz_xform/write_boozmn.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <stdexcept>
 #include <vector>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
@@ -7,6 +8,18 @@ using namespace booz_xform;
 
 void Booz_xform::write_boozmn(std::string filename) {
   int j;
+
+  if (!completed) throw std::runtime_error("There are no results to write. Call run() or read_boozmn() first");
+  // Results could have become inconsistent with inputs that were changed afterwards:
+  if (compute_surfs.size() != ns_b || ns_b < 1) throw std::runtime_error("The size of compute_surfs is not ns_b");
+  if (bmnc_b.rows() != mnboz || bmnc_b.cols() != ns_b) throw std::runtime_error("Results have the wrong size");
+  if (asym && (bmns_b.rows() != mnboz || bmns_b.cols() != ns_b)) throw std::runtime_error("Stellarator-asymmetric results are not available");
+  if (iota.size() != ns_in || Boozer_I_all.size() != ns_in || Boozer_G_all.size() != ns_in)
+    throw std::runtime_error("Radial profiles have the wrong size");
+  if (phip.size() != 0 && (phip.size() != ns_in + 1 || chi.size() != ns_in + 1
+			   || pres.size() != ns_in + 1 || phi.size() != ns_in + 1))
+    throw std::runtime_error("phip, chi, pres, and phi must have size ns_in + 1");
+
   if (verbose > 0) std::cout << "Writing output to " << filename << std::endl;
   NetCDFWriter nc(filename);
 
-- 
2.43.0


From 7c486256b7fbc15a60262543979d883d6db06909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 21/43] fix: data race in printing with verbose=2

---
 src/_booz_xform/surface_solve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index e037a2c..6bdd6da 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -17,7 +17,11 @@ void Booz_xform::surface_solve(int js_b) {
   int js = compute_surfs[js_b];
   // js is the 0-based radial index into the input data arrays
   // js_b is the 0-based index among the subset of surfaces on which the transformation is done.
-  if (verbose > 1) std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  if (verbose > 1) {
+    // Only 1 thread should print at a time:
+#pragma omp critical
+    std::cout << "Solving for js_b=" << js_b << ", js=" << js << std::endl;
+  }
 
   int jmn, m, n, abs_n, j;
 
-- 
2.43.0


From 152cc5b31a185e043f3a1a31629f19d82ba709ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 22/43] fix: xbooz_xform printed uninitialized nboz when it
 cannot be read

---
 src/_booz_xform/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/_booz_xform/driver.cpp b/src/_booz_xform/driver.cpp
index fd8d637..3f48482 100644
--- a/src/_booz_xform/driver.cpp
+++ b/src/_booz_xform/driver.cpp
@@ -45,7 +45,7 @@ int booz_xform::driver(int argc, char* argv[]) {
   file.open(argv[1]);
   if (!file.is_open()) throw std::runtime_error(std::string("Unable to open input file ") + argv[1]);
 
-  int mboz_in, nboz_in;
+  int mboz_in = 0, nboz_in = 0;
   file >> mboz_in >> nboz_in;
   std::cout << "Read mboz = " << mboz_in << ", nboz = " << nboz_in << std::endl;
   if (file.fail()) throw std::runtime_error("Unable to read mboz and nboz");
-- 
2.43.0


From 1cb2f8d754befeafd85a1119e5df0867a85b0863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 23/43] fix: modeplot raised IndexError if nmodes exceeds the
 number of modes

---
 src/booz_xform/plots.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 1417533..fc5dc72 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -346,7 +346,7 @@ def modeplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
-    for jmode in range(nmodes):
+    for jmode in range(len(indices)):
         index = indices[jmode]
         plt.plot(rad, my_abs(data[index, :]),
                  label='$m=${}, $n=${}'.format(xm[index], xn[index]),
-- 
2.43.0


From ecb382b26d1b9d939d91992f12da0582174a5ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 24/43] fix: wireplot failed with its default orig=True for a
 boozmn file

---
 src/booz_xform/plots.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index fc5dc72..56b95e6 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -476,7 +476,8 @@ def wireplot(b,
                                      showlegend=False))
 
     # Also show curves along which the original angles are constant:
-    if orig:
+    # (They are not available if b was read from a boozmn file.)
+    if orig and b.rmnc.size > 0:
         js = b.compute_surfs[js]
         R = np.zeros_like(theta)
         Z = np.zeros_like(theta)
-- 
2.43.0


From 0932e0bf22dc0d5a1568c8930f825d4574f66b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:36 +0000
Subject: [PATCH 25/43] fix: wireplot showed no curves for refine=1

---
 src/booz_xform/plots.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 56b95e6..0c36782 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -462,7 +462,7 @@ def wireplot(b,
         showlegend = True
         if index > 1:
             showlegend = False
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=showlegend,
@@ -470,7 +470,7 @@ def wireplot(b,
     index = 0
     for i, j, k in zip(X.T, Y.T, Z.T):
         index += 1
-        if np.mod(index, refine) == 1:
+        if np.mod(index - 1, refine) == 0:
             data.append(go.Scatter3d(x=i, y=j, z=k,
                                      mode='lines', line=line_marker,
                                      showlegend=False))
@@ -503,7 +503,7 @@ def wireplot(b,
             showlegend = True
             if index > 1:
                 showlegend = False
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=showlegend,
@@ -511,7 +511,7 @@ def wireplot(b,
         index = 0
         for i, j, k in zip(X.T, Y.T, Z.T):
             index += 1
-            if np.mod(index, refine) == 1:
+            if np.mod(index - 1, refine) == 0:
                 data.append(go.Scatter3d(x=i, y=j, z=k,
                                          mode='lines', line=line_marker,
                                          showlegend=False))
-- 
2.43.0


From f24ff1cd959e91ab065751c3e05b4460f991f5f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:24 +0000
Subject: [PATCH 26/43] fix: a NetCDF error was printed, even with verbose=0,
 when reading a boozmn file without chi_b succeeded

---
 src/_booz_xform/netcdf_reader.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index b82b230..920e55d 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -24,9 +24,8 @@ booz_xform::NetCDFReader::~NetCDFReader() {
 }
 
 void booz_xform::NetCDFReader::ERR(int e, std::string details) {
-  std::cout << "NetCDF Error! " << nc_strerror(e)
-            << " [" << details << "]" << std::endl;
-  throw std::runtime_error(nc_strerror(e));
+  throw std::runtime_error(std::string("NetCDF Error! ") + nc_strerror(e)
+			   + " [" + details + "]");
 }
 
 size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
-- 
2.43.0


From b716d055a3bbd9f7eb6eb6d8f763f5bdeb2b3eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 27/43] fix: keep the arrays returned to python read-only, as
 they were, so edits of a copy are not lost silently

---
 src/_booz_xform/bindings.cpp | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/_booz_xform/bindings.cpp b/src/_booz_xform/bindings.cpp
index 42c9224..7e25c5e 100644
--- a/src/_booz_xform/bindings.cpp
+++ b/src/_booz_xform/bindings.cpp
@@ -8,12 +8,23 @@ namespace py = pybind11;
 using namespace booz_xform;
 using namespace pybind11::literals; // For documenting function arguments
 
-/** pybind11's default for data members is to return numpy arrays that
- *  point to the memory of the C++ object. Such an array would change,
- *  or point to memory that has been freed, the next time run() or
- *  read_wout() is called. Therefore return copies instead.
+/** pybind11's default for data members is to return read-only numpy
+ *  arrays that point to the memory of the C++ object. Such an array
+ *  would change, or point to memory that has been freed, the next time
+ *  run() or read_wout() is called. Therefore return read-only copies
+ *  instead.
  */
 class Booz_xform_class : public py::class_<Booz_xform> {
+private:
+  template <typename T>
+  static py::cpp_function getter(T Booz_xform::*member) {
+    return py::cpp_function([member](const Booz_xform& b) {
+      py::object val = py::cast(b.*member, py::return_value_policy::copy);
+      if (py::isinstance<py::array>(val)) val.attr("setflags")("write"_a=false);
+      return val;
+    });
+  }
+
 public:
   using py::class_<Booz_xform>::class_;
 
@@ -25,13 +36,14 @@ public:
 
   template <typename T>
   Booz_xform_class& def_readwrite(const char* name, T Booz_xform::*member, const char* doc) {
-    py::class_<Booz_xform>::def_readwrite(name, member, py::return_value_policy::copy, doc);
+    def_property(name, getter(member),
+		 py::cpp_function([member](Booz_xform& b, const T& val) { b.*member = val; }), doc);
     return *this;
   }
 
   template <typename T>
-  Booz_xform_class& def_readonly(const char* name, const T Booz_xform::*member, const char* doc) {
-    py::class_<Booz_xform>::def_readonly(name, member, py::return_value_policy::copy, doc);
+  Booz_xform_class& def_readonly(const char* name, T Booz_xform::*member, const char* doc) {
+    def_property_readonly(name, getter(member), doc);
     return *this;
   }
 };
-- 
2.43.0


From 3caacd819c80cc93da3aebff0ba5452079e0a702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:11 +0000
Subject: [PATCH 28/43] fix: a symmetric equilibrium kept the asymmetric arrays
 of an earlier asymmetric one

---
 src/_booz_xform/init_from_vmec.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index 02f06b0..c9f5579 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -174,6 +174,14 @@ void Booz_xform::init_from_vmec(int ns,
 	bsubvmns(k, j) = bsubvmns0(k, j + 1);
       }
     }
+  } else {
+    // Do not keep data from an earlier asymmetric equilibrium.
+    rmns.resize(0, 0);
+    zmnc.resize(0, 0);
+    lmnc.resize(0, 0);
+    bmns.resize(0, 0);
+    bsubumns.resize(0, 0);
+    bsubvmns.resize(0, 0);
   }
 
   if (verbose > 0) {
-- 
2.43.0


From 71d6151a8f143ed8c9c0be77f2223e164caf6046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:39 +0000
Subject: [PATCH 29/43] fix: an exception in the parallel loop (such as running
 out of memory) ended the process instead of reaching the caller

---
 src/_booz_xform/run.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/run.cpp b/src/_booz_xform/run.cpp
index ea0f2ef..cd3cc46 100644
--- a/src/_booz_xform/run.cpp
+++ b/src/_booz_xform/run.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <exception>
 #include "booz_xform.hpp"
 
 using namespace booz_xform;
@@ -18,10 +19,20 @@ void Booz_xform::run() {
     std::cout << "------------------------------------------------------------------------------------" << std::endl;
   }
 
+  // An exception must not leave the parallel region, so it is kept and
+  // thrown afterwards.
+  std::exception_ptr error;
+
   // In the next line would could try to add something like "schedule(static, 1)" for more order.
 #pragma omp parallel for
   for (int j = 0; j < compute_surfs.size(); j++) {
-    surface_solve(j);
+    try {
+      surface_solve(j);
+    } catch (...) {
+#pragma omp critical
+      error = std::current_exception();
+    }
   }
+  if (error) std::rethrow_exception(error);
   completed = true;
 }
-- 
2.43.0


From 94043e9bd44e8ccaf609eef15149dd3147c4372b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 30/43] fix: read_boozmn accepted impossible sizes (nfp_b or
 mnboz_b < 1, ns_b different from the radius dimension)

---
 src/_booz_xform/read_boozmn.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index df43ed0..df3e3ac 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -20,6 +20,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   asym = (bool) asym_int;
 
   nc.get("nfp_b", nfp);
+  if (nfp < 1) throw std::runtime_error("nfp_b must be at least 1");
   try {
       nc.get("aspect_b", aspect);
   } catch (std::runtime_error error) {
@@ -29,6 +30,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
   nc.get("mnboz_b", mnboz);
+  if (mnboz < 1) throw std::runtime_error("mnboz_b must be at least 1");
 
   xm_b.resize(mnboz);
   xn_b.resize(mnboz);
@@ -36,6 +38,10 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("ixn_b", xn_b);
 
   int radius = nc.getdim("radius");
+  int ns_vmec;
+  nc.get("ns_b", ns_vmec);
+  if (ns_vmec != radius || ns_vmec < 2)
+    throw std::runtime_error("ns_b must be at least 2 and match the radius dimension");
   Vector iota_in, Boozer_G_in, Boozer_I_in;
   iota_in.resize(radius);
   Boozer_G_in.resize(radius);
@@ -113,8 +119,6 @@ void Booz_xform::read_boozmn(std::string filename) {
   }
 
   // Set up the s grid for output quantites.
-  int ns_vmec;
-  nc.get("ns_b", ns_vmec);
   boozfloat hs = 1.0 / (ns_vmec - 1.0);
   s_b.resize(ns_b);
   for (j = 0; j < ns_b; j++) s_b[j] = hs * (compute_surfs[j] + 0.5);
-- 
2.43.0


From 0900562c254d8cb446dbcdf16e8809aac1a108df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:13 +0000
Subject: [PATCH 31/43] fix: read_boozmn took any error with aspect_b or chi_b,
 such as a read error or wrong dimensions, for a missing variable

---
 src/_booz_xform/netcdf_reader.cpp | 10 ++++++++++
 src/_booz_xform/netcdf_reader.hpp |  1 +
 src/_booz_xform/read_boozmn.cpp   | 13 ++++---------
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/_booz_xform/netcdf_reader.cpp b/src/_booz_xform/netcdf_reader.cpp
index 920e55d..cd299a5 100644
--- a/src/_booz_xform/netcdf_reader.cpp
+++ b/src/_booz_xform/netcdf_reader.cpp
@@ -38,6 +38,16 @@ size_t booz_xform::NetCDFReader::getdim(std::string dimname) {
   return dimval;
 }
 
+/** Return whether the file has a variable of this name.
+ */
+bool booz_xform::NetCDFReader::has(std::string varname) {
+  int var_id, retval;
+  retval = nc_inq_varid(ncid, varname.c_str(), &var_id);
+  if (retval == NC_ENOTVAR) return false;
+  if (retval) ERR(retval, varname);
+  return true;
+}
+
 /** Throw an exception unless the dimensions of a variable in the file
     are as expected, since otherwise reading it would write out of bounds.
     NetCDF's order of dimensions is used. Dimensions of length 1 are ignored.
diff --git a/src/_booz_xform/netcdf_reader.hpp b/src/_booz_xform/netcdf_reader.hpp
index f115c8e..5e0426d 100644
--- a/src/_booz_xform/netcdf_reader.hpp
+++ b/src/_booz_xform/netcdf_reader.hpp
@@ -23,6 +23,7 @@ namespace booz_xform {
     NetCDFReader& operator=(const NetCDFReader&) = delete;
 
     size_t getdim(std::string);
+    bool has(std::string);
     
     // Scalars:
     void get(std::string, int&);
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index df3e3ac..9965d14 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -21,11 +21,9 @@ void Booz_xform::read_boozmn(std::string filename) {
 
   nc.get("nfp_b", nfp);
   if (nfp < 1) throw std::runtime_error("nfp_b must be at least 1");
-  try {
-      nc.get("aspect_b", aspect);
-  } catch (std::runtime_error error) {
-      aspect = 0;
-  }
+  // Older files do not have aspect_b or chi_b.
+  aspect = 0;
+  if (nc.has("aspect_b")) nc.get("aspect_b", aspect);
 
   nc.get("mboz_b", mboz);
   nc.get("nboz_b", nboz);
@@ -59,10 +57,7 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("buco_b", Boozer_I_in);
   nc.get("phi_b", phi);
   nc.get("phip_b", phip);
-  try {
-      nc.get("chi_b", chi);
-  } catch (std::runtime_error error) {
-  }
+  if (nc.has("chi_b")) nc.get("chi_b", chi);
   nc.get("pres_b", pres);
   for (j = 0; j < ns_in; j++) {
       iota[j] = iota_in[j+1];
-- 
2.43.0


From 4267f74d8bcee5d2c9dfb602543a3df324702674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 32/43] fix: init_from_vmec overflowed for extreme ns or
 ntor_nyq, and changed ns_in although it rejected its arguments

---
 src/_booz_xform/init_from_vmec.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/_booz_xform/init_from_vmec.cpp b/src/_booz_xform/init_from_vmec.cpp
index c9f5579..dbf0694 100644
--- a/src/_booz_xform/init_from_vmec.cpp
+++ b/src/_booz_xform/init_from_vmec.cpp
@@ -28,7 +28,6 @@ void Booz_xform::init_from_vmec(int ns,
         Vector& pres0,
         Vector& phi0) {
   int j, k;
-  ns_in = ns - 1;
 
   // Do some validation.
 
@@ -36,6 +35,7 @@ void Booz_xform::init_from_vmec(int ns,
   if (nfp < 1) throw std::runtime_error("nfp must be at least 1");
   if (mpol < 0 || mpol > INT_MAX / 6) throw std::runtime_error("mpol is out of range");
   if (ntor < 0 || ntor > INT_MAX / nfp / 2) throw std::runtime_error("ntor is out of range");
+  if (ntor_nyq < 0 || ntor_nyq > INT_MAX / nfp) throw std::runtime_error("ntor_nyq is out of range");
   if (mnmax < 1) throw std::runtime_error("mnmax must be at least 1");
   if (mnmax_nyq < 1) throw std::runtime_error("mnmax_nyq must be at least 1");
   if (iotas.size() != ns) throw std::runtime_error("iotas.size() is not ns");
@@ -94,6 +94,7 @@ void Booz_xform::init_from_vmec(int ns,
 
   // Done with validation.
 
+  ns_in = ns - 1;
   completed = false; // Any earlier results are not for this new equilibrium.
 
   iota.resize(ns_in);
-- 
2.43.0


From 718b3e1f1fd54a85b0a8e196c385fe11bc047c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:21 +0000
Subject: [PATCH 33/43] fix: integer overflow in read_boozmn for an extreme
 entry of jlist

---
 src/_booz_xform/read_boozmn.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index 9965d14..d61864c 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -75,7 +75,11 @@ void Booz_xform::read_boozmn(std::string filename) {
   nc.get("jlist", compute_surfs);
   // Fortran jlist is 1-based and includes an extra 1 from the 0 at
   // the first entry of half-grid quantities. compute_surfs is 0-based.
-  for (j = 0; j < ns_b; j++) compute_surfs[j] -= 2;
+  for (j = 0; j < ns_b; j++) {
+    if (compute_surfs[j] < 2 || compute_surfs[j] - 2 >= ns_in)
+      throw std::runtime_error("jlist has an entry that is outside the radial grid");
+    compute_surfs[j] -= 2;
+  }
   if (verbose > 0) std::cout << "Read compute_surfs=" << compute_surfs << std::endl;
 
   bmnc_b.resize(mnboz, ns_b);
@@ -124,8 +128,6 @@ void Booz_xform::read_boozmn(std::string filename) {
   Boozer_G.resize(ns_b);
   Boozer_I.resize(ns_b);
   for (j = 0; j < ns_b; j++) {
-    if (compute_surfs[j] < 0 || compute_surfs[j] >= ns_in)
-      throw std::runtime_error("jlist has an entry that is outside the radial grid");
     Boozer_G[j] = Boozer_G_all[compute_surfs[j]];
     Boozer_I[j] = Boozer_I_all[compute_surfs[j]];
   }
-- 
2.43.0


From 09c17b7312d42eb252dc005930296d9d0eb84272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:32 +0000
Subject: [PATCH 34/43] fix: running out of memory in run() or the readers left
 dangling arrays, freed twice later

---
 src/_booz_xform/init.cpp        | 7 +++++++
 src/_booz_xform/read_boozmn.cpp | 6 ++++++
 src/_booz_xform/read_wout.cpp   | 4 ++++
 3 files changed, 17 insertions(+)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 5b474f1..97792b3 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -97,6 +97,13 @@ void Booz_xform::init() {
   check_inputs();
   completed = false;
 
+  // If Eigen runs out of memory while resizing an array that is not
+  // empty, it leaves the array invalid, so empty the arrays first.
+  for (IntVector* v : {&xm_b, &xn_b}) v->resize(0);
+  for (Vector* v : {&theta_grid, &zeta_grid, &s_b, &Boozer_I, &Boozer_G, &Boozer_I_all, &Boozer_G_all}) v->resize(0);
+  for (Matrix* m : {&cosm, &sinm, &cosn, &sinn, &cosm_nyq, &sinm_nyq, &cosn_nyq, &sinn_nyq}) m->resize(0, 0);
+  for (Matrix* m : {&bmnc_b, &rmnc_b, &zmns_b, &numns_b, &gmnc_b, &bmns_b, &rmns_b, &zmnc_b, &numnc_b, &gmns_b}) m->resize(0, 0);
+
   // First comes some initialization from read_wout_booz.f:
   
   // Set resolution for the real-space grids:
diff --git a/src/_booz_xform/read_boozmn.cpp b/src/_booz_xform/read_boozmn.cpp
index d61864c..1068bea 100644
--- a/src/_booz_xform/read_boozmn.cpp
+++ b/src/_booz_xform/read_boozmn.cpp
@@ -15,6 +15,12 @@ void Booz_xform::read_boozmn(std::string filename) {
   booz_xform::NetCDFReader nc(filename);
   completed = false;
 
+  // If Eigen runs out of memory while resizing an array that is not
+  // empty, it leaves the array invalid, so empty the arrays first.
+  for (IntVector* v : {&xm_b, &xn_b, &compute_surfs}) v->resize(0);
+  for (Vector* v : {&iota, &Boozer_G_all, &Boozer_I_all, &phi, &phip, &chi, &pres, &s_b, &s_in, &Boozer_G, &Boozer_I}) v->resize(0);
+  for (Matrix* m : {&bmnc_b, &rmnc_b, &zmns_b, &numns_b, &gmnc_b, &bmns_b, &rmns_b, &zmnc_b, &numnc_b, &gmns_b}) m->resize(0, 0);
+
   int asym_int;
   nc.get("lasym__logical__", asym_int);
   asym = (bool) asym_int;
diff --git a/src/_booz_xform/read_wout.cpp b/src/_booz_xform/read_wout.cpp
index 4431b61..bdd526a 100644
--- a/src/_booz_xform/read_wout.cpp
+++ b/src/_booz_xform/read_wout.cpp
@@ -14,6 +14,10 @@ void Booz_xform::read_wout(std::string filename, bool flux) {
   booz_xform::NetCDFReader nc(filename);
   completed = false;
 
+  // If Eigen runs out of memory while resizing an array that is not
+  // empty, it leaves the array invalid, so empty the arrays first.
+  for (IntVector* v : {&xm, &xn, &xm_nyq, &xn_nyq}) v->resize(0);
+
   int asym_int;
   nc.get("lasym__logical__", asym_int);
   asym = (bool) asym_int;
-- 
2.43.0


From a137abbc0013e8718e3e2767da44a6531eca3158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:01 +0000
Subject: [PATCH 35/43] fix: write errors of data buffered by NetCDF were not
 reported by write_boozmn

---
 src/_booz_xform/netcdf_writer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index c02ad0b..b099b48 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -167,6 +167,10 @@ void booz_xform::NetCDFWriter::write_and_close() {
     }
   }
   
+  // nc_close() does not report errors when writing data that are still
+  // in NetCDF's buffers, so write them first:
+  if ((retval = nc_sync(ncid))) ERR(retval);
+
   // Close the file
   is_open = false;
   if ((retval = nc_close(ncid))) ERR(retval);
-- 
2.43.0


From 6a133e969f253c67a7a5923d8c2d1f494a6971d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:00 +0000
Subject: [PATCH 36/43] fix: a failed write_boozmn deleted its target even if
 it was a device or a link

---
 src/_booz_xform/netcdf_writer.cpp | 13 +++++++++++--
 src/_booz_xform/netcdf_writer.hpp |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/netcdf_writer.cpp b/src/_booz_xform/netcdf_writer.cpp
index b099b48..ec4f598 100644
--- a/src/_booz_xform/netcdf_writer.cpp
+++ b/src/_booz_xform/netcdf_writer.cpp
@@ -3,6 +3,7 @@
 #include <stdexcept>
 #include <iomanip>
 #include <sstream>
+#include <sys/stat.h>
 #include <netcdf.h>
 #include "booz_xform.hpp"
 #include "netcdf_writer.hpp"
@@ -13,7 +14,7 @@
 
 using namespace booz_xform;
 
-booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) : is_open(false) {
+booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) : is_open(false), path(filename) {
   int retval;
   // If you want to use the netcdf4 format, "|NC_NETCDF4" must be included
   // in the file type, but such files cannot be read with
@@ -23,7 +24,15 @@ booz_xform::NetCDFWriter::NetCDFWriter(std::string filename) : is_open(false) {
 }
 
 booz_xform::NetCDFWriter::~NetCDFWriter() {
-  if (is_open) nc_abort(ncid);
+  if (!is_open) return;
+  // nc_abort() deletes the incomplete file, which must never happen to
+  // a device or anything else that is not an ordinary file:
+  struct stat st;
+  if (lstat(path.c_str(), &st) == 0 && S_ISREG(st.st_mode)) {
+    nc_abort(ncid);
+  } else {
+    nc_close(ncid);
+  }
 }
 
 void booz_xform::NetCDFWriter::ERR(int e) {
diff --git a/src/_booz_xform/netcdf_writer.hpp b/src/_booz_xform/netcdf_writer.hpp
index 1e942d2..ff1f654 100644
--- a/src/_booz_xform/netcdf_writer.hpp
+++ b/src/_booz_xform/netcdf_writer.hpp
@@ -27,6 +27,7 @@ namespace booz_xform {
   private:
     int ncid;
     bool is_open;
+    std::string path;
     std::vector<int> var_ids;
     std::vector<void*> pointers;
     enum {BOOZ_NC_INT, BOOZ_NC_FLOAT, BOOZ_NC_STRING};
-- 
2.43.0


From f27af621e75cdad1e9268349070d60b35cbed428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:58 +0000
Subject: [PATCH 37/43] fix: the accuracy report ran js_b and js together for
 surfaces from 1000 on

---
 src/_booz_xform/check_accuracy.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/_booz_xform/check_accuracy.cpp b/src/_booz_xform/check_accuracy.cpp
index aa13ae8..4896d28 100644
--- a/src/_booz_xform/check_accuracy.cpp
+++ b/src/_booz_xform/check_accuracy.cpp
@@ -126,8 +126,8 @@ void Booz_xform::check_accuracy(int js, int js_b,
   #pragma omp critical
   {
   std::cout << std::setprecision(3) << std::scientific
-	    << std::setw(4) << thread << std::setw(6) << js_b
-	    << std::setw(4) << js
+	    << std::setw(4) << thread << " " << std::setw(5) << js_b
+	    << " " << std::setw(3) << js
 	    << "   0" << std::setprecision(3) << std::scientific
 	    << std::setw(11) << bmod_vmec[0]
 	    << std::setw(11) << bmod_boozer[0]
-- 
2.43.0


From 30f9f4860f11748f4b71ee2181566e604be2728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:20 +0000
Subject: [PATCH 38/43] fix: G and I came from only one of several entries for
 the (0,0) mode, e.g. G = 0 for input padded with zeros

---
 src/_booz_xform/init.cpp          | 7 +++++--
 src/_booz_xform/surface_solve.cpp | 5 +++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/_booz_xform/init.cpp b/src/_booz_xform/init.cpp
index 97792b3..2e93b51 100644
--- a/src/_booz_xform/init.cpp
+++ b/src/_booz_xform/init.cpp
@@ -230,8 +230,11 @@ void Booz_xform::init() {
   assert (xm_nyq[0] == 0);
   assert (xn_nyq[0] == 0);
   for (j = 0; j < ns_in; j++) {
-    Boozer_I_all[j] = bsubumnc(0, j);
-    Boozer_G_all[j] = bsubvmnc(0, j);
+    for (int jmn = 0; jmn < mnmax_nyq; jmn++) {
+      if (xm_nyq[jmn] != 0 || xn_nyq[jmn] != 0) continue;
+      Boozer_I_all[j] += bsubumnc(jmn, j);
+      Boozer_G_all[j] += bsubvmnc(jmn, j);
+    }
   }
       
   //wmns.setZero(mnmax_nyq, ns_b); // Note mnmax_nyq instead of mnboz for this one.
diff --git a/src/_booz_xform/surface_solve.cpp b/src/_booz_xform/surface_solve.cpp
index 6bdd6da..96da0b6 100644
--- a/src/_booz_xform/surface_solve.cpp
+++ b/src/_booz_xform/surface_solve.cpp
@@ -104,8 +104,9 @@ void Booz_xform::surface_solve(int js_b) {
       if (asym) wmnc(jmn) = bsubvmns(jmn, js) / n;
     } else {
       // So m = n = 0.
-      Boozer_I[js_b] = bsubumnc(jmn, js);
-      Boozer_G[js_b] = bsubvmnc(jmn, js);
+      // As for any other mode, all entries for this mode add up.
+      Boozer_I[js_b] += bsubumnc(jmn, js);
+      Boozer_G[js_b] += bsubvmnc(jmn, js);
       // Without loss of generality, these modes of p can be set to 0.
     }
   }
-- 
2.43.0


From 27f8073f49e535550d2052b15f33193c04f4a8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 39/43] fix: modeplot and wireplot took the last surface for
 the outermost one also if compute_surfs is not sorted

---
 src/booz_xform/plots.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 0c36782..dbc47b3 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -29,6 +29,11 @@ def handle_b_input(b):
     else:
         raise ValueError("b argument must be a booz_xform.Booz_xform instance or string")
 
+def outermost_surface(b):
+    # compute_surfs need not be sorted, so the outermost surface is
+    # not necessarily the last one.
+    return len(b.s_b) - 1 - int(np.argmax(b.s_b[::-1]))
+
 def surfplot(b,
              js = 0,
              fill = True,
@@ -328,7 +333,7 @@ def modeplot(b,
     # Sort by the absolute value of the mode amplitudes at the
     # outermost radius. Minus sign gives a decreasing instead of
     # increasing sort.
-    sorted_indices = np.argsort(-np.abs(data[:, -1]))
+    sorted_indices = np.argsort(-np.abs(data[:, outermost_surface(b)]))
     indices = sorted_indices[:nmodes]
 
     if sqrts:
@@ -404,7 +409,7 @@ def wireplot(b,
 
     # If not otherwise specified, choose the outermost surface:
     if js is None:
-        js = b.ns_b - 1
+        js = outermost_surface(b)
 
     for jmn in range(b.mnboz):
         m = b.xm_b[jmn]
-- 
2.43.0


From e0846d3f4ac90b2cf9441cf1f9590b2b41aa9a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 40/43] fix: symplot excluded the modes with n = +-nfp m from
 the wrong group in the legend

---
 src/booz_xform/plots.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index dbc47b3..11fb06e 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -207,14 +207,14 @@ def symplot(b,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
+               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
         for imode in range(mnmax):
-            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
-               and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
+            if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
                 break
-- 
2.43.0


From 54ce09085350753850a9073480c5a4a2c815300d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 41/43] fix: symplot drew modes beyond max_m and max_n for the
 legend

---
 src/booz_xform/plots.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index 11fb06e..a44b7c9 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -177,43 +177,47 @@ def symplot(b,
     if not log:
         plt.plot([0, 1], [0, 0], ':k')
         
+    # Modes with |m| <= max_m and |n| <= max_n * nfp:
+    included = [imode for imode in range(mnmax)
+                if np.abs(b.xm_b[imode]) <= max_m and np.abs(b.xn_b[imode]) <= max_n * b.nfp]
+
     # First, plot just the 1st mode of each type, so the legend looks nice.
     if B0:
-        for imode in range(mnmax):
+        for imode in included:
             if b.xn_b[imode] == 0 and b.xm_b[imode] == 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=background_color,
                              label='m = 0, n = 0 (Background)', **kwargs)
                 break
-    for imode in range(mnmax):
+    for imode in included:
         if b.xn_b[imode] == 0 and b.xm_b[imode] != 0:
             plt.plot(rad, my_abs(data[imode, :]), color=QA_color,
                          label=r'm $\ne$ 0, n = 0 (Quasiaxisymmetric)', **kwargs)
             break
-    for imode in range(mnmax):
+    for imode in included:
         if b.xn_b[imode] != 0 and b.xm_b[imode] == 0:
             plt.plot(rad, my_abs(data[imode, :]), color=mirror_color,
                          label=r'm = 0, n $\ne$ 0 (Mirror)', **kwargs)
             break
 
     if helical_detail:
-        for imode in range(mnmax):
+        for imode in included:
             if b.xn_b[imode] == b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_plus_color,
                              label=r'n = n$_{fp}$ m (Helical)', **kwargs)
                 break
-        for imode in range(mnmax):
+        for imode in included:
             if b.xn_b[imode] == -b.xm_b[imode] * b.nfp and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_minus_color,
                              label=r'n = -n$_{fp}$ m (Helical)', **kwargs)
                 break
-        for imode in range(mnmax):
+        for imode in included:
             if b.xn_b[imode] != 0 and b.xm_b[imode] != 0 \
                and b.xn_b[imode] != b.xm_b[imode] * b.nfp and b.xn_b[imode] != -b.xm_b[imode] * b.nfp:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'Other helical', **kwargs)
                 break
     else:
-        for imode in range(mnmax):
+        for imode in included:
             if b.xn_b[imode] != 0 and b.xm_b[imode] != 0:
                 plt.plot(rad, my_abs(data[imode, :]), color=helical_color,
                              label=r'm $\ne$ 0, n $\ne$ 0 (Helical)', **kwargs)
-- 
2.43.0


From 2deb8d9cb0868050944d02ae36c8bed2d737c4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:18 +0000
Subject: [PATCH 42/43] fix: wireplot shifted the surface along a wrong normal
 for asymmetric results

---
 src/booz_xform/plots.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/booz_xform/plots.py b/src/booz_xform/plots.py
index a44b7c9..55d2037 100644
--- a/src/booz_xform/plots.py
+++ b/src/booz_xform/plots.py
@@ -429,6 +429,8 @@ def wireplot(b,
         if b.asym:
             R += b.rmns_b[jmn, js] * sinangle
             Z += b.zmnc_b[jmn, js] * cosangle
+            d_R_d_theta += m * b.rmns_b[jmn, js] * cosangle
+            d_Z_d_theta += -m * b.zmnc_b[jmn, js] * sinangle
             nu += b.numnc_b[jmn, js] * cosangle
 
     # Following the sign convention in the code, to convert from the
-- 
2.43.0


From 1c3363813676a7ce87ada52665952e1646b82f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:38:34 +0000
Subject: [PATCH 43/43] fix: a failed allocation in Eigen's resize() left a
 dangling pointer

DenseStorage::resize() released the old array before allocating the new one.
If the allocation threw, the matrix kept the pointer and its old size, so that
after running out of memory in run(), read_wout(), init_from_vmec() or
read_boozmn() the same array was released twice.
---
 externalPackages/eigen/Eigen/src/Core/DenseStorage.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/externalPackages/eigen/Eigen/src/Core/DenseStorage.h b/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
index 6966513..7dbba78 100644
--- a/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
+++ b/externalPackages/eigen/Eigen/src/Core/DenseStorage.h
@@ -432,6 +432,7 @@ template<typename T, int _Options> class DenseStorage<T, Dynamic, Dynamic, Dynam
       if(size != m_rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, m_rows*m_cols);
+        m_data = 0; m_rows = m_cols = 0; // the allocation may throw
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -509,6 +510,7 @@ template<typename T, int _Rows, int _Options> class DenseStorage<T, Dynamic, _Ro
       if(size != _Rows*m_cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Rows*m_cols);
+        m_data = 0; m_cols = 0; // the allocation may throw
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
@@ -585,6 +587,7 @@ template<typename T, int _Cols, int _Options> class DenseStorage<T, Dynamic, Dyn
       if(size != m_rows*_Cols)
       {
         internal::conditional_aligned_delete_auto<T,(_Options&DontAlign)==0>(m_data, _Cols*m_rows);
+        m_data = 0; m_rows = 0; // the allocation may throw
         if (size>0) // >0 and not simply !=0 to let the compiler knows that size cannot be negative
           m_data = internal::conditional_aligned_new_auto<T,(_Options&DontAlign)==0>(size);
         else
-- 
2.43.0

