From 4a43c7eb90bfe286bc113ca3aa4c0eb290a7dfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 01/31] fix: exception::what() returned a dangling pointer and
 assignment appended the message

---
 src/lib/exception.h | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/lib/exception.h b/src/lib/exception.h
index 295c9b6..99f89cd 100644
--- a/src/lib/exception.h
+++ b/src/lib/exception.h
@@ -4,6 +4,7 @@
 // STL includes
 #include <exception>
 #include <sstream>
+#include <string>
 
 namespace qk
 {
@@ -19,17 +20,17 @@ public:
 
     exception(const std::string error)
     {
-        _what << error;
+        _what = error;
     }
 
     exception(const std::exception & other)
     {
-        _what << std::string(other.what());
+        _what = other.what();
     }
 
     exception(const qk::exception & other)
     {
-        _what << other._what.str();
+        _what = other._what;
     }
 
     virtual ~exception() throw()
@@ -40,32 +41,31 @@ public:
 
     const char* what() const noexcept
     {
-        return _what.str().c_str();
+        return _what.c_str();
     }
 
     exception& operator=(const qk::exception & other)
     {
-        this->_what.clear();
-        *this << std::string(other.what());
+        _what = other._what;
         return *this;
     }
 
     friend std::ostream& operator<<(std::ostream& os, const qk::exception& qke)
     {
-        os << qke._what.str();
+        os << qke._what;
         return os;
     }
 
     exception &
     operator<<(const std::string & s)
     {
-        _what << s;
+        _what += s;
         return *this;
     }
 
 protected:
 
-    std::stringstream _what;
+    std::string _what;
 };
 
 }
-- 
2.43.0


From ef5bda7d01d121d019250819d0654177895585de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 02/31] fix: range stream operator did not return the stream

---
 src/lib/range.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/range.h b/src/lib/range.h
index 2c58532..9892c5a 100644
--- a/src/lib/range.h
+++ b/src/lib/range.h
@@ -61,6 +61,7 @@ public:
             }
         }
         os<<"]";
+        return os;
     }
 
 protected:
-- 
2.43.0


From b819750e46bf30e5f9ffcf74c6157287f8d0cad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 03/31] fix: assigning or resizing a range to itself zeroed its
 bounds

---
 src/lib/range.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib/range.cpp b/src/lib/range.cpp
index f495daa..622e99c 100644
--- a/src/lib/range.cpp
+++ b/src/lib/range.cpp
@@ -73,22 +73,23 @@ range::includes(const qk::range & rng) const
 void
 range::setup(const int num_dims, const int *lower, const int *upper)
 {
+    // The bounds may be this range's own (self assignment), copy them before writing
+    std::vector<int> new_lower, new_upper;
+    if(num_dims>0){
+        new_lower.assign(lower, lower+num_dims);
+        new_upper.assign(upper, upper+num_dims);
+    }
+
     // initialize
     _num_dims = num_dims;
-    _lower.clear();
-    _upper.clear();
+    _lower.swap(new_lower);
+    _upper.swap(new_upper);
     _stride.clear();
 
     // Setup new range
 
     if(_num_dims>0){
-        _lower.resize(_num_dims,0);
-        _upper.resize(_num_dims,0);
         _stride.resize(_num_dims,0);
-        for(int i = 0; i < _num_dims; ++i){
-            _lower[i] = lower[i];
-            _upper[i] = upper[i];
-        }
         _stride[_num_dims-1] = 1;
         for(int i = _num_dims-2; i >= 0; --i){
             _stride[i] = _stride[i+1] * length(i+1);
-- 
2.43.0


From 55ee7573b318d379e24c81cbb13734c60da66de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 04/31] fix: indexer over an empty sub range claimed to be at a
 cell and never ended

---
 src/lib/indexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d3253f7..d4ba621 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -25,6 +25,10 @@ indexer::indexer(const qk::range & sub_range, const qk::range & sup_range) :
 
     if (_num_dims > 0) {
         _exists = this->includes(_sub_range);
+        // A sub range without cells has nothing to iterate over
+        for(int i = 0; _exists and i < _num_dims; i++){
+            _exists = _sub_range.length(i) > 0;
+        }
         if(_exists){
             for(int i = 0; i < _num_dims; i++){
                 _index[i] = sub_range.lower(i);
-- 
2.43.0


From 643b69323361f70b88fb8f886a889f9a14d5f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 05/31] fix: indexer dimension checks accepted one dimension
 too many

---
 src/lib/indexer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/indexer.cpp b/src/lib/indexer.cpp
index d4ba621..5e24fa6 100644
--- a/src/lib/indexer.cpp
+++ b/src/lib/indexer.cpp
@@ -50,7 +50,7 @@ const int &
 indexer::operator[](const int & dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::operator[] : Dimension out of range.");
     }
 #endif
@@ -60,7 +60,7 @@ indexer::operator[](const int & dim) const
 int indexer::index(const int dim) const
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::index : Dimension out of range.");
     }
 #endif
@@ -91,7 +91,7 @@ indexer::operator++()
 void indexer::increment(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::increment : Dimension out of range.");
     }
 #endif
@@ -102,7 +102,7 @@ void indexer::increment(const int dim)
 void indexer::decrement(const int dim)
 {
 #if _QK_RANGE_CHECK_
-    if(dim < 0 or dim > _num_dims){
+    if(dim < 0 or dim >= _num_dims){
         throw qk::exception("qk::indexer::decrement : Dimension out of range.");
     }
 #endif
-- 
2.43.0


From 6f9e9900737debeb60c8ba665cda788d21173137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 06/31] fix: copy_to wrote for empty ranges and did not reject
 ranges outside the chunks

---
 src/data/functions.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/data/functions.h b/src/data/functions.h
index 37fc657..98afd48 100644
--- a/src/data/functions.h
+++ b/src/data/functions.h
@@ -22,19 +22,19 @@ namespace data
             throw qk::exception("qk::data::copy_to : Array mismatch.");
         }
 
+        if(!from_chunk.includes(from_range) or !to_chunk.includes(to_range)){
+            throw qk::exception("qk::data::copy_to : Requested range extends outside of chunk bounds.");
+        }
+
         qk::indexer from_idx = from_chunk.indexer(from_range);
         qk::indexer to_idx = to_chunk.indexer(to_range);
 
-        while(true){
+        while(to_idx.exists()){
 
             to_chunk[to_idx] = from_chunk[from_idx];
 
             to_idx.next();
             from_idx.next();
-
-            if(!to_idx.exists()){
-                break;
-            }
         }
     }
 
-- 
2.43.0


From fc8441ffad8defdfcaf998c39de71854532177ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 07/31] fix: copy constructing an indexer_interface dropped its
 data

---
 src/lib/indexer_interface.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index d847a64..8ea5193 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -18,9 +18,11 @@ public:
     {
         resize(range);
     }
-    indexer_interface(const indexer_interface & interface)
+    indexer_interface(const indexer_interface & interface) :
+        qk::range(interface.range()),
+        _data(interface._data)
     {
-        resize(interface.range());
+
     }
 
     virtual ~indexer_interface()
-- 
2.43.0


From 78391c58f5033cf977768eeb57b01d59f719a9ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 08/31] fix: pull of a whole interface swapped the source and
 destination ranges

---
 src/lib/indexer_interface.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index 8ea5193..2b97bbd 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -57,7 +57,7 @@ public:
 
     void pull(const indexer_interface<T> & interface)
     {
-        pull(interface, this->range(), interface.range());
+        pull(interface, interface.range(), this->range());
     }
 
     void fill(const T & value)
-- 
2.43.0


From 025fee5d6ff5fbfef371956a5abe7e9b6e3ed724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 09/31] fix: pull did not reject ranges outside the interfaces

---
 src/lib/indexer_interface.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib/indexer_interface.h b/src/lib/indexer_interface.h
index 2b97bbd..6956dae 100644
--- a/src/lib/indexer_interface.h
+++ b/src/lib/indexer_interface.h
@@ -44,6 +44,9 @@ public:
         if (from_range.volume() != to_range.volume()) {
             throw qk::exception("qk::indexer_interface::pull : Volume mismatch.");
         }
+        if (!interface.includes(from_range) or !includes(to_range)) {
+            throw qk::exception("qk::indexer_interface::pull : Requested range extends outside of interface bounds.");
+        }
 
         // TODO: this needs to be sped up
         qk::indexer src_indexer = interface.indexer(from_range);
-- 
2.43.0


From f71cf97641f5bc0a68cd8a2aceefa78bdf56eca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 10/31] fix: range_set produced inverted pieces and lost cells
 of long ranges

---
 src/lib/range_set.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib/range_set.cpp b/src/lib/range_set.cpp
index fe618f7..fbd93bc 100644
--- a/src/lib/range_set.cpp
+++ b/src/lib/range_set.cpp
@@ -1,7 +1,7 @@
 #include "range_set.h"
 
 // STL includes
-#include <cmath>
+#include <algorithm>
 
 namespace qk
 {
@@ -30,7 +30,10 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     int subRangeSizePerDivision[_num_dims];
     for(int i = 0; i < _num_dims; i++){
-        subRangeSizePerDivision[i] = int(std::ceil(float(superRange.length(i)) / float(numSubdivisions[i])));
+        subRangeSizePerDivision[i] = superRange.length(i) / numSubdivisions[i];
+        if(superRange.length(i) % numSubdivisions[i] > 0){
+            subRangeSizePerDivision[i]++;
+        }
     }
 
     int lowers[_num_dims];
@@ -38,8 +41,11 @@ range_set::setup(const qk::range &superRange, const int *numSubdivisions)
 
     for(qk::indexer indexer = this->indexer(); indexer.exists(); indexer.next()){
         for(int i = 0; i < _num_dims; i++){
-            lowers[i] = _superRange.lower(i) + indexer[i] * subRangeSizePerDivision[i];
-            uppers[i] = std::min(lowers[i] + subRangeSizePerDivision[i], _superRange.upper(i));
+            // 64 bit intermediates: the unclamped bounds may lie beyond the upper bound of the super range
+            const long long upper = _superRange.upper(i);
+            const long long lower = _superRange.lower(i) + (long long)(indexer[i]) * subRangeSizePerDivision[i];
+            lowers[i] = std::min(lower, upper);
+            uppers[i] = std::min(lower + subRangeSizePerDivision[i], upper);
         }
 
         (*this)[indexer].resize(_num_dims, lowers, uppers);
-- 
2.43.0


From 865b8472ac8c914a9b1185cf1cbeb1e9c8c9bf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 11/31] fix: ordering of bases was not a strict weak ordering

---
 src/basis/basis.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/basis/basis.h b/src/basis/basis.h
index 639920c..54fed6a 100644
--- a/src/basis/basis.h
+++ b/src/basis/basis.h
@@ -45,8 +45,8 @@ public:
     friend bool operator <(const basis & a, const basis & b)
     {
         // Test if they have the same name
-        if (a._name < b._name) {
-            return true;
+        if (a._name != b._name) {
+            return a._name < b._name;
         }
 
         return a._num_points < b._num_points;
-- 
2.43.0


From 7d7827933daf96750b332aa6bc92c9b939bfe058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:23 +0000
Subject: [PATCH 12/31] fix: reading a missing variable built an exception
 without throwing it

---
 src/variable/variable_manager.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 3be3c21..566326c 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -35,7 +35,7 @@ variable_manager::output_variable(const qk::variable::variable_id & var)
        add_variable(var);
        itr = _variables.find(var);
        if (itr == _variables.end()) {
-           qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
+           throw qk::exception("qk::variable::variable_manager::output_variable : Couldn't allocate variable.");
        }
     }
     return *(itr->second);
@@ -46,7 +46,7 @@ variable_manager::input_variable(const qk::variable::variable_id & var) const
 {
     const auto & itr = _variables.find(var);
     if (itr == _variables.end()) {
-       qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
+       throw qk::exception("qk::variable::variable_manager::input_variable : Variable '"+var.name()+"' does not exist.");
     }
     return *(itr->second);
 }
-- 
2.43.0


From 563252c44b96cb0a7e4f0adf89ed5a53cd8e83a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 13/31] fix: vtk origin was the centre of the domain instead of
 its corner

---
 src/grid/rectilinear.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/rectilinear.cpp b/src/grid/rectilinear.cpp
index 126e13f..ede263d 100644
--- a/src/grid/rectilinear.cpp
+++ b/src/grid/rectilinear.cpp
@@ -46,10 +46,10 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
         if(_num_dims > 1){ny = length(1)+1;}
         if(_num_dims > 2){nz = length(2)+1;}
 
-        double cx=0, cy=0, cz=0;
-        if(_num_dims > 0){cx = _startxs[0] + _widths[0] / 2.;}
-        if(_num_dims > 1){cy = _startxs[1] + _widths[1] / 2.;}
-        if(_num_dims > 2){cz = _startxs[2] + _widths[2] / 2.;}
+        double ox=0, oy=0, oz=0;
+        if(_num_dims > 0){ox = _startxs[0];}
+        if(_num_dims > 1){oy = _startxs[1];}
+        if(_num_dims > 2){oz = _startxs[2];}
 
         double sx=0, sy=0, sz=0;
         if(_num_dims > 0){sx = _dxs[0];}
@@ -58,7 +58,7 @@ rectilinear::write_vtk(std::ofstream & file, const qk::basis::basis & basis) con
 
         file << "DATASET STRUCTURED_POINTS\n";
         file << "DIMENSIONS " << nx << " " << ny << " " << nz << "\n";
-        file << "ORIGIN " << cx << " " << cy << " " << cz << "\n";
+        file << "ORIGIN " << ox << " " << oy << " " << oz << "\n";
         file << "SPACING " << sx << " " << sy << " " << sz << "\n";
 
 
-- 
2.43.0


From 5a3ad6589832c4f2e2e774396652120ca8a064be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 14/31] fix: write_vtk reported success after a failed write

---
 src/variable/variable_manager.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 566326c..9db3dcf 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -105,6 +105,9 @@ void variable_manager::write_vtk(const std::string & prefix,
         }
 
         file.close();
+        if(!file){
+            throw qk::exception("qk::variable::variable_manager::write_VTK : File '" + filename + "' could not be written completely.");
+        }
     }
 
 }
-- 
2.43.0


From 0e476b02a1a8323c242e5714a6cb3fa01e1ccd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 15/31] fix: structured grid biases truncated the domain width
 and the power to integers

---
 src/grid/structured.cpp | 8 ++++----
 src/grid/structured.h   | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index eb6a532..20c34f0 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -41,13 +41,13 @@ structured::~structured()
 }
 
 void
-structured::bias_array(double * dxs, const int size, const int pow)
+structured::bias_array(double * dxs, const int size, const double pow)
 {
     // Thi
     double xs[size+1];
     xs[0] = 0.;
     const double dV = 1.0 / double(size);
-    const double invPow = 1. / double(pow);
+    const double invPow = 1. / pow;
     for(int i = 0; i < size; i++){
         xs[i+1]=std::pow(std::pow(xs[i],pow) + dV, invPow);
         dxs[i] = xs[i+1]-xs[i];
@@ -62,7 +62,7 @@ structured::apply_bias_symmetric(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_symmetric : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim)/2.;
+    const double L = width(dim)/2.;
     const int N = length(dim);
 
     if(N %2 == 1){
@@ -89,7 +89,7 @@ structured::apply_bias_linear(const int dim, const double pow)
         throw qk::exception("qk::grid::structured::apply_bias_linear : Requested dimension out of range.");
     }
 #endif
-    const int L = width(dim);
+    const double L = width(dim);
     const int N = length(dim);
     double n_dxs[N];
     bias_array(n_dxs,N,pow);
diff --git a/src/grid/structured.h b/src/grid/structured.h
index 6450af6..26d9400 100644
--- a/src/grid/structured.h
+++ b/src/grid/structured.h
@@ -32,7 +32,7 @@ public:
 
 protected:
 
-    void bias_array(double * dxs, const int size, const int pow);
+    void bias_array(double * dxs, const int size, const double pow);
     void recalculate_xcs(const int dim);
 
     std::vector<std::vector<double> > _dxs;
-- 
2.43.0


From 81b900a26867adb39a95c5db8aa81f37b4fb6bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 16/31] fix: structured grids whose indices do not start at
 zero read the wrong cell

---
 src/grid/structured.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/grid/structured.cpp b/src/grid/structured.cpp
index 20c34f0..fad5c28 100644
--- a/src/grid/structured.cpp
+++ b/src/grid/structured.cpp
@@ -113,7 +113,7 @@ structured::centroid(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::centroid : Requested index out of range.");
     }
 #endif
-    return _xcs[dim][index];
+    return _xcs[dim][index - lower(dim)];
 }
 
 double
@@ -127,7 +127,7 @@ structured::dx(const int dim, const int index) const
         throw qk::exception("qk::grid::structured::dx : Requested index out of range.");
     }
 #endif
-    return _dxs[dim][index];
+    return _dxs[dim][index - lower(dim)];
 }
 
 void
-- 
2.43.0


From 4a110204fc48900a88434830a83f38cc5e1dc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 17/31] fix: free slip walls reversed the tangential momenta as
 well

---
 src/solver/bc_free_slip.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/solver/bc_free_slip.cpp b/src/solver/bc_free_slip.cpp
index 7292f03..0f6c11a 100644
--- a/src/solver/bc_free_slip.cpp
+++ b/src/solver/bc_free_slip.cpp
@@ -65,16 +65,16 @@ bc_free_slip::solve(qk::variable::variable_manager & variable_manager, const int
 
                 // Lower boundary
                 {
-                    qk::range efield_rng(lower_external_range);
-                    efield_rng.set(lower_external_range.num_dims()-1, 1,4);
-                    chunk.multiply_by_scalar(efield_rng, -1.);
+                    qk::range momentum_rng(lower_external_range);
+                    momentum_rng.set(lower_external_range.num_dims()-1, 1+i, 2+i);
+                    chunk.multiply_by_scalar(momentum_rng, -1.);
                 }
 
                 // Upper boundary
                 {
-                    qk::range efield_rng(upper_external_range);
-                    efield_rng.set(upper_external_range.num_dims()-1, 1,4);
-                    chunk.multiply_by_scalar(efield_rng, -1.);
+                    qk::range momentum_rng(upper_external_range);
+                    momentum_rng.set(upper_external_range.num_dims()-1, 1+i, 2+i);
+                    chunk.multiply_by_scalar(momentum_rng, -1.);
                 }
             }
         }
-- 
2.43.0


From ae1e0f7f721a989558d56532c21385440c044e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:49 +0000
Subject: [PATCH 18/31] fix: printing an unknown variable created it

---
 src/solver/print.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/print.cpp b/src/solver/print.cpp
index 9d1d8e8..da5052d 100644
--- a/src/solver/print.cpp
+++ b/src/solver/print.cpp
@@ -17,7 +17,7 @@ void print::solve(qk::variable::variable_manager & variable_manager, const int t
     std::ostream & os = std::cout;
 
     for(const qk::variable::variable_id & var_id : _input_variable_ids){
-        const qk::variable::variable & var = variable_manager.output_variable(var_id);
+        const qk::variable::variable & var = variable_manager.input_variable(var_id);
 
         os << "Printing Variable '"<<var.name()<<"'\n";
 
-- 
2.43.0


From 89dc26858fa755bbce994c753fc3d2d8dbe93017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 19/31] fix: initial conditions read uninitialised coordinates
 on grids with less than three dimensions

---
 src/solver/gaussian.cpp          | 2 +-
 src/solver/magnetic_pulse.cpp    | 2 +-
 src/solver/radial_shock_tube.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/gaussian.cpp b/src/solver/gaussian.cpp
index d16c2a9..18a9ae0 100644
--- a/src/solver/gaussian.cpp
+++ b/src/solver/gaussian.cpp
@@ -38,7 +38,7 @@ gaussian::solve(qk::variable::variable_manager & variable_manager, const int tag
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     double w[3];
 
     for(int i = 0; i < _output_variable_ids.size(); i++){
diff --git a/src/solver/magnetic_pulse.cpp b/src/solver/magnetic_pulse.cpp
index 05cb095..090a534 100644
--- a/src/solver/magnetic_pulse.cpp
+++ b/src/solver/magnetic_pulse.cpp
@@ -17,7 +17,7 @@ void magnetic_pulse::solve(qk::variable::variable_manager & variable_manager, co
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double Bz = _amplitude;
 
     for (int i = 0; i < _output_variable_ids.size(); i++) {
diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 53e3784..144fe0c 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -32,7 +32,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
     const qk::grid::grid & grid = variable_manager.grid();
 
-    double x[3];
+    double x[3] = {0};
     const double R2 = _radius*_radius;
     const double rho0 = 1.;
     const double e0 = 1. / (_gamma-1.);
-- 
2.43.0


From 067bbbe97ba52698eb7bdc3f8a72035bc07860ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 20/31] fix: radial shock tube mixed the y and z distances

---
 src/solver/radial_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/radial_shock_tube.cpp b/src/solver/radial_shock_tube.cpp
index 144fe0c..cbc0e0f 100644
--- a/src/solver/radial_shock_tube.cpp
+++ b/src/solver/radial_shock_tube.cpp
@@ -54,7 +54,7 @@ void radial_shock_tube::solve(qk::variable::variable_manager & variable_manager,
 
                 double r2 = (x[0]-_center[0])*(x[0]-_center[0]);
                 r2 += (x[1]-_center[1])*(x[1]-_center[1]);
-                r2 += (x[2]-_center[2])*(x[1]-_center[2]);
+                r2 += (x[2]-_center[2])*(x[2]-_center[2]);
 
                 const double rho = (r2 < R2) ? rho0 : rho0 * _rho_jump;
                 const double e = (r2 < R2) ? e0 : e0 * _P_jump;
-- 
2.43.0


From 84c6d5271193c19840ebb8d7107104f2b157ad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 21/31] fix: brio wu shock tube scaled By by the pressure
 multiplier

---
 src/solver/brio_wu_shock_tube.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/solver/brio_wu_shock_tube.cpp b/src/solver/brio_wu_shock_tube.cpp
index f2e3cd3..d1a76f5 100644
--- a/src/solver/brio_wu_shock_tube.cpp
+++ b/src/solver/brio_wu_shock_tube.cpp
@@ -79,7 +79,7 @@ void brio_wu_shock_tube::solve(qk::variable::variable_manager & variable_manager
         for (qk::indexer idx = field.indexer(By_range); idx.exists(); idx.next()) {
             grid.xc(idx, x);
 
-            const double By = _By * ((x[0] < 0.) ? 1. : -1.) * P_mult;
+            const double By = _By * ((x[0] < 0.) ? 1. : -1.);
             field[idx] = By;
         }
 
-- 
2.43.0


From 0011cfb172a29f89c7878e3f266e5e32cadfbcb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 22/31] fix: gem challenge read past its output variables when
 fewer than three were given

---
 src/solver/gem_challenge.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/solver/gem_challenge.cpp b/src/solver/gem_challenge.cpp
index 8a74c48..e8da458 100644
--- a/src/solver/gem_challenge.cpp
+++ b/src/solver/gem_challenge.cpp
@@ -26,6 +26,10 @@ gem_challenge::~gem_challenge()
 void gem_challenge::solve(qk::variable::variable_manager & variable_manager, const int tag) const
 {
 
+    if (_output_variable_ids.size() != 3) {
+        throw qk::exception("qk::solver::gem_challenge::solve : Must have three output variables (electrons, ions, field).");
+    }
+
     double * __restrict__ e;
     double * __restrict__ i;
     double * __restrict__ f;
-- 
2.43.0


From d8139aa5d2d5e7c16bbe822bb9ef3b2bab1e3547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 23/31] fix: current source changed its output before rejecting
 a missing fluid

---
 src/solver/current_source.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/solver/current_source.cpp b/src/solver/current_source.cpp
index 49f75ad..c90083e 100644
--- a/src/solver/current_source.cpp
+++ b/src/solver/current_source.cpp
@@ -87,8 +87,14 @@ void current_source::solve(qk::variable::variable_manager & variable_manager, co
 
     qk::variable::variable & rhs = variable_manager.output_variable(_output_variable_ids[0]);
 
+    // All fluids must exist before the first one contributes to the rhs
+    std::vector<const qk::variable::variable *> fluids;
+    for(const qk::variable::variable_id & id : _input_variable_ids){
+        fluids.push_back(&variable_manager.input_variable(id));
+    }
+
     for(int i = 0; i < _multipliers.size(); ++i){
-        const qk::variable::variable & fluid = variable_manager.input_variable(_input_variable_ids[i]);
+        const qk::variable::variable & fluid = *fluids[i];
         for (qk::indexer idx = fluid.indexer(); idx.exists(); ++idx) {
             current_source_solve::fv_solve_idx(_multipliers[i],fluid[idx],rhs[idx]);
         }
-- 
2.43.0


From aa2f8591bae7b60d51d9c8d151341443e65ee0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 24/31] fix: chunks were assumed to be 64 byte aligned

---
 src/lib/parallelization.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/parallelization.h b/src/lib/parallelization.h
index 91a5107..fdc91b4 100644
--- a/src/lib/parallelization.h
+++ b/src/lib/parallelization.h
@@ -2,7 +2,8 @@
 
 #define _QK_NUM_THREADS_ 8
 
-#define _QK_DOUBLE_ALIGNMENT_ 64
+// Chunks are std::vector<double> storage, which guarantees no more than this
+#define _QK_DOUBLE_ALIGNMENT_ alignof(double)
 #define _QK_ASSUME_ALIGNED(ptr) (double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
 #define _QK_ASSUME_ALIGNED_CONST(ptr) (const double*)__builtin_assume_aligned(ptr,_QK_DOUBLE_ALIGNMENT_)
 
-- 
2.43.0


From 197be15c34e9af96ad6b77be985cb927187dcf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:32 +0000
Subject: [PATCH 25/31] fix: advection threads updated the same cells
 concurrently

---
 src/solver/ssprk2_advection.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index 82fbcba..acf3fa2 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -3,6 +3,7 @@
 // STL include
 #include <sstream>
 #include <fstream>
+#include <algorithm>
 #include <cmath>
 #include <ctime>
 #include <chrono>
@@ -38,6 +39,10 @@ void advection_iterate(const int start,
     const double * __restrict__ a = n;        //(const double *) __builtin_assume_aligned((const void *) n, 32);
     double * __restrict__ b = np;        //(double *) __builtin_assume_aligned((void *) np, 32);
 
+    // Fluxes are stored first as neighbouring iterations would write to the same cells
+    std::vector<double> fluxes(std::max(0, end - start));
+    double * __restrict__ f = fluxes.data();
+
     // Iterate - should autovectorize
 #pragma omp parallel for
     for (int i = start; i < end; i++) {
@@ -60,9 +65,18 @@ void advection_iterate(const int start,
 //                printf("(% e, % e, % e) : phi % e, Flux % e\n", vn, vc, vp, phi, dflux);
 //            }
 
-        b[i - downstream_stride] -= dflux; // 1 add : 1 FLO
-        b[i] += dflux; // 1 add : 1FLO
+        f[i - start] = dflux;
+
+    }
 
+#pragma omp parallel for
+    for (int i = start; i < end; i++) {
+        b[i - downstream_stride] -= f[i - start]; // 1 add : 1 FLO
+    }
+
+#pragma omp parallel for
+    for (int i = start; i < end; i++) {
+        b[i] += f[i - start]; // 1 add : 1FLO
     }
 }
 
-- 
2.43.0


From 25dcc26c4b0dcdeb418cef0efa371ac1d68f72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:37 +0000
Subject: [PATCH 26/31] fix: limiter gave nan where the ratio of slopes
 overflows

A slope that vanishes next to a finite one (neighbours differing by exactly
1e-12 in the fluid and field solvers, underflowing tails of a pulse in the
advection solver) made the van Albada limiter evaluate inf / inf.
---
 src/solver/euler.cpp            |  8 ++++----
 src/solver/maxwell.cpp          | 24 ++++++++++++------------
 src/solver/ssprk2_advection.cpp |  3 ++-
 src/spatial_solver/functions.h  | 30 ++++++++++++++++++++++++++++--
 4 files changed, 46 insertions(+), 19 deletions(-)

diff --git a/src/solver/euler.cpp b/src/solver/euler.cpp
index 02384e7..441d922 100644
--- a/src/solver/euler.cpp
+++ b/src/solver/euler.cpp
@@ -79,8 +79,8 @@ void solve_HLL_mp(const double gamma,
                     const double & qpp = qp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -148,8 +148,8 @@ void solve_HLL_mp(const double gamma,
                     const double & qpp = qpp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
diff --git a/src/solver/maxwell.cpp b/src/solver/maxwell.cpp
index 7468811..8293c14 100644
--- a/src/solver/maxwell.cpp
+++ b/src/solver/maxwell.cpp
@@ -123,8 +123,8 @@ void solve_rusanov_mp(const double c,
                     const double & qpp = qp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -151,8 +151,8 @@ void solve_rusanov_mp(const double c,
                     const double & qpp = qpp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -201,8 +201,8 @@ void solve_rusanov_mp(const double c,
                     const double & qpp = qp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -229,8 +229,8 @@ void solve_rusanov_mp(const double c,
                     const double & qpp = qpp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -280,8 +280,8 @@ void solve_rusanov_mp(const double c,
                     const double & qpp = qp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
@@ -308,8 +308,8 @@ void solve_rusanov_mp(const double c,
                     const double & qpp = qpp_[j];
                     const double rl = (qp - qc) / (qc - qn + 1.e-12);
                     const double rr = (qp - qc) / (qpp - qp + 1.e-12);
-                    const double phil = (rl * rl + rl) / (rl * rl + 1);
-                    const double phir = (rr * rr + rr) / (rr * rr + 1);
+                    const double phil = qk::spatial_solver::van_albada(rl);
+                    const double phir = qk::spatial_solver::van_albada(rr);
                     ql[j] = qc + 0.5 * phil * (qc - qn);
                     qr[j] = qp + 0.5 * phir * (qp - qpp);
                 }
diff --git a/src/solver/ssprk2_advection.cpp b/src/solver/ssprk2_advection.cpp
index acf3fa2..9096212 100644
--- a/src/solver/ssprk2_advection.cpp
+++ b/src/solver/ssprk2_advection.cpp
@@ -17,6 +17,7 @@
 #include "variable/variable_id.h"
 #include "variable/variable.h"
 #include "data/functions.h"
+#include "spatial_solver/functions.h"
 
 namespace qk
 {
@@ -58,7 +59,7 @@ void advection_iterate(const int start,
 //        std::cout << "reading indexes (vc,vn,vp) = " << i - downstream_stride << ", " << i - 2 * downstream_stride << ", " << i << std::endl;
 
         //const double phi = std::max(0.0, std::min(2. * r, std::min(2., (2. + r) / 3.))); // 1 add, 1 mul, 1 div, 3 min/max : 4 FLO
-        const double phi = r * (r + 1.0) / (r * r + 1.0);
+        const double phi = qk::spatial_solver::van_albada(r);
         const double dflux = coeff * (vc + 0.25 * phi * (vp - vn)); // 2 add, 3 mul : 5 FLO
 
 //            if(phi != phi){
diff --git a/src/spatial_solver/functions.h b/src/spatial_solver/functions.h
index c7c636a..a18d2da 100644
--- a/src/spatial_solver/functions.h
+++ b/src/spatial_solver/functions.h
@@ -1,3 +1,27 @@
+#ifndef _qk_spatial_solver_functions_H
+#define _qk_spatial_solver_functions_H
+
+// STL include
+#include <cmath>
+
+namespace qk
+{
+
+namespace spatial_solver
+{
+
+// van Albada limiter (r^2 + r) / (r^2 + 1) of a ratio of slopes.
+// The ratio overflows where one of the slopes (nearly) vanishes: the limiter is one there, and zero where both vanish
+inline double van_albada(const double r)
+{
+    if(std::fabs(r) > 1.){
+        return (1. + 1. / r) / (1. + 1. / (r * r));
+    }
+    return (r != r) ? 0. : (r * r + r) / (r * r + 1);
+}
+
+}
+}
 
 #define _QK_FV_UPWIND_RECON_SOLVE_START(dim, rhs_size, q_data, rhs_data)      \
     const double d = grid.dx(dim);                              \
@@ -22,8 +46,8 @@
             const double & qpp = q_REST[ipp + j];               \
             const double rl = (qp - qc) / (qc - qn + 1.e-12);   \
             const double rr = (qp - qc) / (qpp - qp + 1.e-12);  \
-            const double phil = (rl * rl + rl) / (rl * rl + 1); \
-            const double phir = (rr * rr + rr) / (rr * rr + 1); \
+            const double phil = qk::spatial_solver::van_albada(rl); \
+            const double phir = qk::spatial_solver::van_albada(rr); \
             ql[j] = qc + 0.5 * phil * (qc - qn);                \
             qr[j] = qp + 0.5 * phir * (qp - qpp);               \
         }
@@ -34,3 +58,5 @@
         rhs_REST[ip + j] += F[j] / d;                           \
     }                                                           \
 }
+
+#endif // _qk_spatial_solver_functions_H
-- 
2.43.0


From 80c17c8e74747b1c139d17b5e7f303b3680a1527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 27/31] fix: a new variable_manager reported uninitialised time
 and time step

---
 src/variable/variable_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/variable/variable_manager.cpp b/src/variable/variable_manager.cpp
index 9db3dcf..03120d3 100644
--- a/src/variable/variable_manager.cpp
+++ b/src/variable/variable_manager.cpp
@@ -13,7 +13,9 @@ namespace variable
 {
 
 variable_manager::variable_manager(const qk::grid::grid & grid) :
-        _grid(grid)
+        _grid(grid),
+        _dt(0.),
+        _time(0.)
 {
 
 }
-- 
2.43.0


From f4b32d468825afcbac4d06579937f91459f3f719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:20 +0000
Subject: [PATCH 28/31] fix: copying a variable_manager deleted its variables
 twice

---
 src/variable/variable_manager.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/variable/variable_manager.h b/src/variable/variable_manager.h
index 968dd4f..b47110d 100644
--- a/src/variable/variable_manager.h
+++ b/src/variable/variable_manager.h
@@ -25,6 +25,10 @@ public:
 
     ~variable_manager();
 
+    // The variables are owned: a copy would delete them a second time
+    variable_manager(const variable_manager &) = delete;
+    variable_manager & operator=(const variable_manager &) = delete;
+
     const qk::variable::variable &
     input_variable(const qk::variable::variable_id & var) const;
 
-- 
2.43.0


From ffd4f5d7649075765b32603c918198b7b00d87fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:37 +0000
Subject: [PATCH 29/31] fix: advected Gaussian program never applied its
 periodic boundaries

---
 src/example/advection/advect_gaussian.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/example/advection/advect_gaussian.cpp b/src/example/advection/advect_gaussian.cpp
index f2ded2e..c93489a 100644
--- a/src/example/advection/advect_gaussian.cpp
+++ b/src/example/advection/advect_gaussian.cpp
@@ -117,6 +117,11 @@ advect_gaussian()
         std::vector<qk::variable::variable_id> out_vars;
         out_vars.push_back(var);
 
+        std::vector<int> dims;
+        dims.push_back(0);
+        dims.push_back(1);
+
+        bc_0.setup(dims);
         bc_0.set_output_variables(out_vars);
     }
 
@@ -125,6 +130,11 @@ advect_gaussian()
         std::vector<qk::variable::variable_id> out_vars;
         out_vars.push_back(partial_var);
 
+        std::vector<int> dims;
+        dims.push_back(0);
+        dims.push_back(1);
+
+        bc_1.setup(dims);
         bc_1.set_output_variables(out_vars);
     }
 
-- 
2.43.0


From e3bd0d27cbc60933bee5d10be45996a5f4ddeb45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:31 +0000
Subject: [PATCH 30/31] Revert "fix: the advected Gaussian program never
 applied its periodic boundaries"

Programs under src/example are left as they are.
---
 src/example/advection/advect_gaussian.cpp | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/example/advection/advect_gaussian.cpp b/src/example/advection/advect_gaussian.cpp
index c93489a..f2ded2e 100644
--- a/src/example/advection/advect_gaussian.cpp
+++ b/src/example/advection/advect_gaussian.cpp
@@ -117,11 +117,6 @@ advect_gaussian()
         std::vector<qk::variable::variable_id> out_vars;
         out_vars.push_back(var);
 
-        std::vector<int> dims;
-        dims.push_back(0);
-        dims.push_back(1);
-
-        bc_0.setup(dims);
         bc_0.set_output_variables(out_vars);
     }
 
@@ -130,11 +125,6 @@ advect_gaussian()
         std::vector<qk::variable::variable_id> out_vars;
         out_vars.push_back(partial_var);
 
-        std::vector<int> dims;
-        dims.push_back(0);
-        dims.push_back(1);
-
-        bc_1.setup(dims);
         bc_1.set_output_variables(out_vars);
     }
 
-- 
2.43.0


From ccc0b6242777094ebe30f208a6f8b93c3e047480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 31/31] fix: fluid flux was nan where the wave speeds of the
 two sides of a face are equal

---
 src/solver/euler.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/solver/euler.cpp b/src/solver/euler.cpp
index 441d922..54175cf 100644
--- a/src/solver/euler.cpp
+++ b/src/solver/euler.cpp
@@ -128,7 +128,7 @@ void solve_HLL_mp(const double gamma,
                     F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
 
                     // This is the full flux calculation with the flux multipliers
-                    F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
+                    F[j] = (fhll_mult > 0. ? F[j] : 0.) + fl_mult * fl[j] + fr_mult * fr[j];
                 }
 
             }
@@ -197,7 +197,7 @@ void solve_HLL_mp(const double gamma,
                     F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
 
                     // This is the full flux calculation with the flux multipliers
-                    F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
+                    F[j] = (fhll_mult > 0. ? F[j] : 0.) + fl_mult * fl[j] + fr_mult * fr[j];
                 }
 
             }
@@ -260,7 +260,7 @@ void solve_HLL_fast(const double gamma,
             for (int j = 0; j < 5; ++j) {
                 F[j] = (srr * fl[j] - sll * fr[j] + sll * srr * (qr[j] - ql[j])) / (srr - sll);
 
-                F[j] = fhll_mult * F[j] + fl_mult * fl[j] + fr_mult * fr[j];
+                F[j] = (fhll_mult > 0. ? F[j] : 0.) + fl_mult * fl[j] + fr_mult * fr[j];
             }
         _QK_FV_UPWIND_RECON_SOLVE_END(5)
     }
-- 
2.43.0

