From f37a161cd098b0d9197cf815faf5eef4d38beecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:35 +0000
Subject: [PATCH 01/40] fix: use the given energy in catima_range

catima_range built a projectile without setting its kinetic energy, so
the T argument was ignored and every call returned the range at T=0.
---
 src/cwrapper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 8ed94a3..4fd3bae 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -58,7 +58,7 @@ extern "C" {
         catima::default_config.scattering = 255;
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p, mat);
+        return range(p(T), mat);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-- 
2.43.0


From dbd791f7bb388d2cd9e601cd3ef642f73bb732d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:36:57 +0000
Subject: [PATCH 02/40] fix: do not modify the global default configuration
 from the C interface

The C functions wrote their effective charge and scattering settings into
catima::default_config, so a C call silently changed later C++ results,
and functions which did not write all settings depended on which C
function was called before. Each call now uses its own configuration
built from catima_defaults.
---
 src/cwrapper.cpp | 38 +++++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/src/cwrapper.cpp b/src/cwrapper.cpp
index 4fd3bae..0a4e5e2 100644
--- a/src/cwrapper.cpp
+++ b/src/cwrapper.cpp
@@ -24,12 +24,18 @@ extern "C" {
         return mat;
     }
 
+    static catima::Config make_config(){
+        catima::Config c = catima::default_config;
+        c.z_effective = catima_defaults.z_effective;
+        c.scattering = 255;
+        return c;
+    }
+
     CatimaResult catima_calculate(double pa, int pz, double T, double ta, double tz, double thickness, double density){
-        catima::default_config.z_effective = catima_defaults.z_effective;
-        catima::default_config.scattering = 255;
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, thickness, density);
-        catima::Result r =  catima::calculate(p(T),mat);    
+        catima::Result r =  catima::calculate(p(T),mat,c);    
         CatimaResult res;
         res.Ein = r.Ein;
         res.Eout = r.Eout;
@@ -46,51 +52,49 @@ extern "C" {
     }
 
     double catima_Eout(double pa, int pz, double T, double ta, double tz, double thickness, double density){
-        catima::default_config.z_effective = catima_defaults.z_effective;
-        catima::default_config.scattering = 255;
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, thickness, density);          
-        return energy_out(p(T), mat);
+        return energy_out(p(T), mat, c);
     }
 
     double catima_range(double pa, int pz, double T, double ta, double tz){
-        catima::default_config.z_effective = catima_defaults.z_effective;
-        catima::default_config.scattering = 255;
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range(p(T), mat);
+        return range(p(T), mat, c);
     }
 
     double catima_range_straggling(double pa, int pz, double T, double ta, double tz){
-        catima::default_config.z_effective = catima_defaults.z_effective;
-        catima::default_config.scattering = 255;
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return range_straggling(p, T, mat);
+        return range_straggling(p, T, mat, c);
     }
 
     double catima_angular_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
-        catima::default_config.scattering = 255;
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);        
         catima::Material mat = make_material(ta,tz, 0, -1);
 
-        return catima::angular_straggling_from_E(p(Tin),Tout,mat);
+        return catima::angular_straggling_from_E(p(Tin),Tout,mat,c);
     }
 
     double catima_energy_straggling_from_E(double pa, int pz, double Tin, double Tout,double ta, double tz){
-        catima::default_config.scattering = 255;
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);
         catima::Material mat = make_material(ta,tz, 0, -1);
-        return catima::energy_straggling_from_E(p,Tin,Tout,mat);
+        return catima::energy_straggling_from_E(p,Tin,Tout,mat,c);
     }
 
     double atomic_weight(int i){return catima::element_atomic_weight(i);}
 
     double catima_nonreaction_rate(double pa, int pz, double T, double ta, double tz, double thickness){
+        catima::Config c = make_config();
         catima::Projectile p(pa,pz);
         p.T = T;
         catima::Material mat = make_material(ta,tz, thickness, -1);
-        return catima::nonreaction_rate(p,mat);
+        return catima::nonreaction_rate(p,mat,c);
     }
 
 }
\ No newline at end of file
-- 
2.43.0


From 09d8305c0d844ad9a495bc651d80da3e575deac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:02 +0000
Subject: [PATCH 03/40] fix: pass the configuration to the time of flight
 calculation

calculate() computed the time of flight with the default configuration
even when a different one was given.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index c42c1cc..72630ca 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -336,7 +336,7 @@ Result calculate(Projectile p, const Material &t, const Config &c){
         }
         //Interpolator tof_spline(energy_table.values, tofdata.data(), energy_table.num,interpolation_t::linear);
         //res.tof = tof_spline(res.Ein) - tof_spline(res.Eout);
-        res.tof = calculate_tof_from_E(p,res.Eout,t);
+        res.tof = calculate_tof_from_E(p,res.Eout,t,c);
             
     } //end of else for non stopped case
     
-- 
2.43.0


From 53ff603d8ec308b877d75a04bed8da1b75a835bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:37:36 +0000
Subject: [PATCH 04/40] fix: keep energy table indices inside the table

EnergyTable::index() and the similar LogVArray and LinearVArray lookups
returned arbitrary indices for NaN and could return the last index for
values just below the upper limit because of rounding, so interpolation
read past the end of the table. The energy 1e7 MeV/u gave a wrong
Lindhard correction and NaN energy crashed.
---
 include/catima/storage.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 93ce59e..1b57844 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -51,12 +51,12 @@ namespace catima{
 	const double* begin()const{return values;}
     const double* end()const{return &values[num];}
     int index(double v)const noexcept{        
-        if(v<values[0] || step==0.0)return -1;
+        if(!(v>=values[0]) || step==0.0)return -1;
         if(v>=values[N-1]-numeric_epsilon)return N-1;
         
         #ifdef ET_CALCULATED_INDEX
         double lxval = (std::log(v/values[0])/LN10);
-        int i = static_cast<int> (std::floor(lxval/step));
+        int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);
         if(v >= values[i+1]-numeric_epsilon)i++; // this is correction for floating point precision
         return i;
         #else
@@ -70,9 +70,9 @@ namespace catima{
 	template<typename T>
 	double EnergyTable_interpolate(const T &table, double xval, double *y){
 	    double r;
-	    if(xval<table.values[0] || xval>table.values[table.size()-1])return 0.0;
-	    if(xval==table.values[table.size()-1])return y[table.size()-1];
+	    if(!(xval>=table.values[0]) || xval>table.values[table.size()-1])return 0.0;
         int i = table.index(xval);
+	    if(i>=table.size()-1)return y[table.size()-1];
 	    double linstep = table.values[i+1] - table.values[i];
         if(linstep == 0.0)return table.values[i];
 	    double x = 1.0 - ((xval - table.values[i])/linstep);
@@ -94,10 +94,10 @@ namespace catima{
         double operator()(int i)const noexcept{return value(i);}
         double step_size()const noexcept{return step;}
         int index(double v)const noexcept{
-            if(v<value(0) || step==0.0)return -1;
+            if(!(v>=value(0)) || step==0.0)return -1;
             if(v>= (value(N-1)-numeric_epsilon))return N-1;
             double lxval = (log(v/value(0))/LN10);
-            int i = static_cast<int> (std::floor(lxval/step));
+            int i = std::min(static_cast<int> (std::floor(lxval/step)), N-2);
             if(v >= value(i+1)-numeric_epsilon)i++; // this is correction for floating point precision
             return i;
         }
@@ -119,10 +119,10 @@ namespace catima{
         constexpr static int size() noexcept{return N;}
         double operator[](int i)const noexcept{return i*step + min;}
         int index(double v)const noexcept{
-            if(v<min || step==0.0)return -1;
+            if(!(v>=min) || step==0.0)return -1;
             if(v>=max)return N-1;
             assert(step>0.0);
-            return static_cast<int> (std::floor((v-min)/step));
+            return std::min(static_cast<int> (std::floor((v-min)/step)), N-2);
         }
         private:
             double step=0.0;
-- 
2.43.0


From 234ed809d9f25d81036afa1957e6385d4958e08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:11 +0000
Subject: [PATCH 05/40] fix: limit the Lindhard table lookup to the tabulated
 elements

LS_MAX_Z was 110 but the generated tables have rows only up to Z=108,
so projectiles with Z>108 read past the end of the tables.
---
 include/catima/generated_LS_coeff.h | 2 +-
 utils/generator.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index e55117e..840e4d2 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -2,7 +2,7 @@
  #include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
-#define LS_MAX_Z 110
+#define LS_MAX_Z 108
 namespace catima{
 
 namespace ls_coefficients{
diff --git a/utils/generator.cpp b/utils/generator.cpp
index bfaffea..f5ef309 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -38,7 +38,7 @@ int main(){
     file<<"#include \"catima/storage.h\"";
     file<<"\n\n";
     file<<"#define LS_NUM_ENERGY_POINTS "<<num_LS_datapoints<<"\n";
-    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ<<"\n";
+    file<<"#define LS_MAX_Z "<<ATOMIC_WEIGHT_MAXZ-2<<"\n";
     file<<"namespace catima{\n\n";
     file<<"namespace ls_coefficients{\n\n";
     file<<"// relative difference of mass number for 2nd mass point ls_coefficients_ahi \n\n";
-- 
2.43.0


From b0e818b7f267a4960b2ddaaaf73501459e41e269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:16 +0000
Subject: [PATCH 06/40] fix: do not read before the Lindhard tables for
 projectiles with Z<1

A default constructed or neutral projectile has Z=0, which was turned
into the row index -1.
---
 src/calculations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index bbbea36..b6df262 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -581,6 +581,7 @@ double precalculated_lindhard(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
@@ -599,6 +600,7 @@ double precalculated_lindhard_X(const Projectile &p){
     double T = p.T;
     int z = (int)p.Z ;
     if(z>LS_MAX_Z)z=LS_MAX_Z;
+    if(z<1)z=1;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
-- 
2.43.0


From 8e7d6a69c91223e49f8af82cc1db8ac31daaa8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:20 +0000
Subject: [PATCH 07/40] fix: use the last Lindhard coefficient above the
 tabulated energies

The lookup returned 0 above the last tabulated energy, while the
documentation promises the coefficient of the highest energy.
---
 src/calculations.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index b6df262..feb1382 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -583,6 +583,7 @@ double precalculated_lindhard(const Projectile &p){
     if(z>LS_MAX_Z)z=LS_MAX_Z;
     if(z<1)z=1;
     if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
 
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
@@ -603,6 +604,7 @@ double precalculated_lindhard_X(const Projectile &p){
     if(z<1)z=1;
     //if(p.T<ls_coefficients::ls_energy_table(0))T=ls_coefficients::ls_energy_table(0);
     if(p.T<ls_coefficients::ls_energy_table(0))return 1.0;
+    if(p.T>ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1))T=ls_coefficients::ls_energy_table(LS_NUM_ENERGY_POINTS-1);
     double da = (p.A - element_atomic_weight(z))/element_atomic_weight(z);
     z = z-1;
 
-- 
2.43.0


From e0ccbf20561ca7c71d7b860a8f7e7125c52b7043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:23 +0000
Subject: [PATCH 08/40] fix: reject negative isotope numbers in the abundance
 database

A negative isotope number returned the data of a different element or
read before the table.
---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 2cda3b5..0f44698 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || (i+1) > num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return 0;
+        if(num==0|| i<0 || (i+1) > num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| (i+1) > num)return res;
+        if(num==0|| i<0 || (i+1) > num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From 98ad755b55ff2fd406a814c5a02bd27114c6187b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:35 +0000
Subject: [PATCH 09/40] fix: store the spline matrix diagonals where the solver
 expects them

The element access put the sub-diagonal into c and the super-diagonal
into a, while trig_solve() reads them the other way around. The
resulting curve had jumps in its first derivative at the table points.
---
 include/catima/spline.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 153b1e6..721a6f4 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -60,18 +60,18 @@ template<int N>
 double & tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j)
 {
     int k=j-i;
-    if(k == -1)return c[i];
+    if(k == -1)return a[i];
     else if(k==0) return d[i];
-    else return a[i];
+    else return c[i];
 }
 
 template<int N>
 double tridiagonal_matrix<N>::operator () (unsigned int i, unsigned int j) const
 {
     int k=j-i;
-    if(k==-1)return c[i];
+    if(k==-1)return a[i];
     else if(k==0) return d[i];
-    else if(k==1)return a[i];
+    else if(k==1)return c[i];
     else return 0.0;
 }
 
-- 
2.43.0


From 2fc52b8c58b929e51443728b6b6c2f04338d8d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:38:47 +0000
Subject: [PATCH 10/40] fix: return zeros instead of uninitialised values for a
 singular matrix

trig_solve() returned an uninitialised array when the first diagonal
element was zero.
---
 include/catima/spline.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/catima/spline.h b/include/catima/spline.h
index 721a6f4..cbc8d12 100644
--- a/include/catima/spline.h
+++ b/include/catima/spline.h
@@ -79,7 +79,10 @@ template<int N>
 std::array<double, N> tridiagonal_matrix<N>::trig_solve(const std::array<double, N>& b) const
 {
     std::array<double, N> x;
-    if(d[0] == 0.0){return x;}
+    if(d[0] == 0.0){
+        x.fill(0.0);
+        return x;
+    }
     std::array<double, N> g;
     x[0] = b[0]/d[0];
     double bet = d[0];
-- 
2.43.0


From 52dededb60e65cee2f6c9942809df82a0a30b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:06 +0000
Subject: [PATCH 11/40] fix: report exit energies below the energy cut-off as
 stopped

When the search started close enough to the solution energy_out()
returned energies between 0 and the cut-off, while all other paths
report such particles as stopped.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 72630ca..6f4f4f5 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -213,7 +213,7 @@ double energy_out(double T, double thickness, const Interpolator &range_spline){
     e = T - (thickness*dedx);
     while(1){
         r = range - range_spline(e) - thickness;
-        if(fabs(r)<Eout_th_epsilon)return e;
+        if(fabs(r)<Eout_th_epsilon)return (e<Ezero)?0.0:e;
         double step = -r*dedx;
         e = e-step;
         if(e<Ezero)return 0.0;
-- 
2.43.0


From 0defc67c8c6026aafc936db98646c149bd2c0c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:10 +0000
Subject: [PATCH 12/40] fix: never return an unused slot from the data storage

An empty material with a default projectile compared equal to the
unused slots, so the storage returned a data point without any tables
and the interpolation crashed.
---
 src/storage.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/storage.cpp b/src/storage.cpp
index acd6ece..21d13be 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -112,6 +112,7 @@ double InterpolatorGSL::derivative(double x)const{
 void Data::Add(const Projectile &p, const Material &t, const Config &c){
 	DataPoint dp(p,t,c);
 	for(auto &e:storage){
+	    if(e.range.empty())continue; // unused slot
 	    if(e==dp)return; 
 	}
     if(index==storage.end())index=storage.begin();
@@ -129,6 +130,7 @@ void Data::Add(const Projectile &p, const Material &t, const Config &c){
     
  DataPoint& Data::Get(const Projectile &p, const Material &t, const Config &c){
 	for(auto &e:storage){
+	    if(e.range.empty())continue; // unused slot
 	    if( (e.p==p) && (e.m==t) && (e.config==c)){
         return e;
 	    }
-- 
2.43.0


From 0df089dfa42cf77a8a4ed089210f911f16a2f951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:39:42 +0000
Subject: [PATCH 13/40] fix: compare the scattering factor exactly when looking
 up stored data

Configurations whose scattering factor differed by less than 1e-3
shared the stored angular variance table, so the second one got the
scattering of the first one.
---
 src/catima.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index 6f4f4f5..7ebb526 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -23,7 +23,7 @@ bool operator==(const Config &a, const Config&b){
     if(a.corrections != b.corrections)return false;
     if(a.calculation != b.calculation)return false;
     if(a.low_energy != b.low_energy)return false;
-    if(fabs(a.scattering_factor-b.scattering_factor)>1e-3) return false;
+    if(a.scattering_factor != b.scattering_factor)return false;
     return true;
     }
 
-- 
2.43.0


From 1a34142911029f38a2afe4f5a5752467479f63ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:02 +0000
Subject: [PATCH 14/40] fix: pass the velocity to Pierce-Blann in z_eff_global

The energy was passed where the velocity is expected, so light
projectiles were always treated as fully stripped.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index feb1382..2581192 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -754,7 +754,7 @@ double z_eff_global(double pz, double E, double tz){
     if(E>2000)
         return pz;
     else if(E<30.0 || pz<29){        
-        return z_eff_Pierce_Blann(pz, E);
+        return z_eff_Pierce_Blann(pz, beta_from_T(E));
     }
     else{
         #ifdef GLOBAL
-- 
2.43.0


From 241ba050940586d2b56cbfef7944668811bb1687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:06 +0000
Subject: [PATCH 15/40] fix: report the incoming energy as exit energy of empty
 layers

calculate() with no layers returned the exit energy 0.
---
 src/catima.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/catima.cpp b/src/catima.cpp
index 7ebb526..d17f9ff 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -359,6 +359,7 @@ MultiResult calculate(const Projectile &p, const Phasespace &ps, const Layers &l
     MultiResult res;
     double e = p.T;
     res.total_result.Ein = e;
+    res.total_result.Eout = e;
     res.total_result.sigma_a = ps.sigma_a*ps.sigma_a;
     res.total_result.sigma_x = ps.sigma_x*ps.sigma_x;
     res.total_result.cov = ps.cov_x;
-- 
2.43.0


From 50cc390e968706fd2061a92cc21a2e0ec78e1cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:09 +0000
Subject: [PATCH 16/40] fix: do not truncate the atomic weight in
 scattering_length

The target weight was converted to int, eg. 35.45 was used as 35.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 2581192..18dbb2d 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -561,7 +561,7 @@ double radiation_length(const Material &material){
     return 1/sum;
 }
 
-double scattering_length(int a, int z){
+double scattering_length(double a, int z){
     double c = 0.00034896*z*z*(2*std::log(33219*std::pow(a*z,-1.0/3.0))-1)/a;
     return 1.0/c;
 }
-- 
2.43.0


From 56ebca3cd1725570fc9428142ba33d6506b1d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:13 +0000
Subject: [PATCH 17/40] fix: bound the number of terms in the Lindhard
 correction sums

The hypergeometric series never stopped once its terms overflowed to
infinity, eg. bethek_lindhard_X() for A=200, Z=80 at 1e8 MeV/u did not
return.
---
 src/calculations.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 18dbb2d..73255fb 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -236,7 +236,7 @@ double bethek_lindhard(const Projectile &p){
                     double asum = a0;
                     double bsum = b0;
                     double nn = 1.0;
-                    while(fabs(anm1/asum)>1e-6 && fabs(anm1/asum)>1e-6){
+                    while(fabs(anm1/asum)>1e-6 && nn<10000.0){
                         double bn = ((rho-gz)*an + fine_structure*z1*anm1/2.0)/(2.0*nn+2.0*fabs(k)+1.0);
                         double anp1 = ((gz+rho)*bn - fine_structure*z1*bnm1/2.0)/(2.0*nn + 2.0);
                         asum += an;
@@ -354,7 +354,7 @@ double bethek_lindhard_X(const Projectile &p){
                     double asum = a0;
                     double bsum = b0;
                     double nn = 1.0;
-                    while(fabs(anm1/asum)>1e-6 ){
+                    while(fabs(anm1/asum)>1e-6 && nn<10000.0){
                         double bn = ((rho-gz)*an + fine_structure*z1*anm1/2.0)/(2.0*nn+2.0*fabs(k)+1.0);
                         double anp1 = ((gz+rho)*bn - fine_structure*z1*bnm1/2.0)/(2.0*nn + 2.0);
                         asum += an;
@@ -854,7 +854,7 @@ std::complex<double> hyperg(const std::complex<double> &a,
             std::complex<double> Cm(dm-1.0, 0.0);
             term = previousterm * ((a + Cm)/(b + Cm)) * (z/dm);
             sumterm += term;
-        } while( std::abs(term) > 1.0e-6 && std::abs(previousterm) > 1.0e-6 );
+        } while( std::abs(term) > 1.0e-6 && std::abs(previousterm) > 1.0e-6 && dm < 10000.0 );
         return(sumterm);
 }
 
-- 
2.43.0


From 10a88a1c2dc9eaae1c26d212c987453384a91aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:42 +0000
Subject: [PATCH 18/40] fix: make copied data points independent of their
 source

The splines of a copy assigned DataPoint pointed to the tables of the
source, so their values changed when the source slot was reused.
---
 include/catima/storage.h |  2 +-
 src/storage.cpp          | 18 ++++++++++++++++++
 2 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/include/catima/storage.h b/include/catima/storage.h
index 1b57844..9158a53 100644
--- a/include/catima/storage.h
+++ b/include/catima/storage.h
@@ -220,7 +220,7 @@ class DataPoint{
     DataPoint(const Projectile _p, const Material _m,const Config &_c=default_config):p(_p),m(_m),config(_c){}
     DataPoint(const DataPoint&)=delete;
     DataPoint(DataPoint&&)=default;
-    DataPoint& operator=(const DataPoint&)=default;
+    DataPoint& operator=(const DataPoint&);
     DataPoint& operator=(DataPoint&&)=default;
 	friend bool operator==(const DataPoint &a, const DataPoint &b);
     };
diff --git a/src/storage.cpp b/src/storage.cpp
index 21d13be..7a92b67 100644
--- a/src/storage.cpp
+++ b/src/storage.cpp
@@ -34,6 +34,24 @@ namespace catima {
         }
     }
 
+    DataPoint& DataPoint::operator=(const DataPoint &other){
+        p = other.p;
+        m = other.m;
+        config = other.config;
+        range = other.range;
+        range_straggling = other.range_straggling;
+        angular_variance = other.angular_variance;
+#ifdef STORE_SPLINES
+        // splines point to the tables they are made from, so they cannot be copied
+        if(!range.empty()){
+            range_spline = Interpolator(energy_table, range);
+            range_straggling_spline = Interpolator(energy_table, range_straggling);
+            angular_variance_spline = Interpolator(energy_table, angular_variance);
+        }
+#endif
+        return *this;
+    }
+
 #ifdef GSL_INTERPOLATION
 //////////// Interpolator ////////////////////////////////
 InterpolatorGSL::InterpolatorGSL(const EnergyTable<max_datapoints>& x, const std::vector<double>& y, interpolation_t type){
-- 
2.43.0


From e9a7d3711fd66f0e09345b567199df845fe98230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:50 +0000
Subject: [PATCH 19/40] fix: close the namespace inside the include guard of
 reactions.h

Including the header twice left an unmatched closing brace.
---
 include/catima/reactions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/reactions.h b/include/catima/reactions.h
index 2318e4d..e000120 100644
--- a/include/catima/reactions.h
+++ b/include/catima/reactions.h
@@ -63,5 +63,5 @@ inline double Ecm_from_T(double T, double Ap, double At){
 }
 
 #endif //NUREX
-#endif
 } // end of catime namespace
+#endif
-- 
2.43.0


From 667f68f0c4c3e689aa59443d141d9f95160068f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:53 +0000
Subject: [PATCH 20/40] fix: add an include guard to srim.h

Including the header twice redefined the default argument of
srim_dedx_e().
---
 include/catima/srim.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/catima/srim.h b/include/catima/srim.h
index 52043bd..812efdd 100644
--- a/include/catima/srim.h
+++ b/include/catima/srim.h
@@ -1,3 +1,5 @@
+#ifndef SRIM_H
+#define SRIM_H
 
 namespace catima{
 
@@ -22,4 +24,6 @@ extern const double pse_95[92][8];
 extern const double atima_lambda_screening[92];
 extern const double atima_vfermi[92];
 extern const double proton_stopping_coef[92][8];
-}
\ No newline at end of file
+}
+
+#endif
-- 
2.43.0


From d574b1cb064aa82cf8bb318c3de367916b768b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:42:55 +0000
Subject: [PATCH 21/40] fix: declare the SRIM 85 proton stopping function which
 is defined

srim.h declared p_se95(), which does not exist, and missed p_se85().
---
 include/catima/srim.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/srim.h b/include/catima/srim.h
index 812efdd..9db50d0 100644
--- a/include/catima/srim.h
+++ b/include/catima/srim.h
@@ -18,7 +18,7 @@ double srim_dedx_e(int pZ, int tZ, double energy, bool use_v95=1);
   * @param energy - energy per nuclein in MeV/u
   */
 double p_se(int Z, double energy);
-double p_se95(int Z, double energy);
+double p_se85(int Z, double energy);
 
 extern const double pse_95[92][8];
 extern const double atima_lambda_screening[92];
-- 
2.43.0


From 4e4b95e25216215af6b0927be6061ee10b25fa1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:12 +0000
Subject: [PATCH 22/40] fix: allow including the Lindhard coefficients header
 more than once

The header had no include guard and defined its tables with external
linkage, so it could be used by one source file only.
---
 include/catima/generated_LS_coeff.h | 17 +++++++++++------
 utils/generator.cpp                 | 15 +++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/catima/generated_LS_coeff.h b/include/catima/generated_LS_coeff.h
index 840e4d2..a5dc6ce 100644
--- a/include/catima/generated_LS_coeff.h
+++ b/include/catima/generated_LS_coeff.h
@@ -1,5 +1,8 @@
 //LS precalculated LS coefficients 
- #include "catima/storage.h"
+#ifndef GENERATED_LS_COEFF_H
+#define GENERATED_LS_COEFF_H
+
+#include "catima/storage.h"
 
 #define LS_NUM_ENERGY_POINTS 200
 #define LS_MAX_Z 108
@@ -13,12 +16,12 @@ constexpr double a_rel_increase=0.05;
 constexpr double logEmin = 0;
 constexpr double logEmax = 7;
 // energy points array in MeV/u 
-EnergyTable<200> ls_energy_table(0,7);
+static EnergyTable<200> ls_energy_table(0,7);
 
 //arrays dimensions are [z][energy], z=1 starts from index=0
 
 //LS coefficient for A=atomic weight
-double ls_coefficients_a[][200]=
+static double ls_coefficients_a[][200]=
 {
 	{-0.0286005,-0.0263509,-0.0242674,-0.0223377,-0.0205507,-0.0188958,-0.0173631,-0.0159436,-0.0146287,-0.0134106,-0.0122818,-0.0112356,-0.0102656,-0.00936584,-0.00853095,-0.00775583,-0.00703578,-0.00636642,-0.00574372,-0.00516391,-0.00462353,-0.00411935,-0.00364839,-0.00320786,-0.0027952,-0.00240803,-0.00204415,-0.00170149,-0.00137817,-0.0010724,-0.000782569,-0.00050714,-0.000244704,6.05339e-06,0.000246351,0.000477324,0.000700027,0.000915441,0.00112448,0.00132799,0.00152676,0.00172153,0.00191297,0.00210173,0.00228837,0.00247346,0.00265747,0.00284088,0.0030241,0.00320751,0.00339145,0.00357622,0.0037621,0.00394932,0.00413806,0.00432849,0.00452071,0.00471481,0.00491083,0.00510875,0.00530853,0.00551008,0.00571328,0.00591794,0.00612386,0.00633076,0.00653836,0.00674629,0.00695419,0.00716164,0.00736819,0.00757335,0.00777664,0.00797753,0.00817548,0.00836998,0.00856048,0.00874647,0.00892743,0.0091029,0.00927243,0.00943562,0.0095921,0.00974157,0.00988379,0.0100185,0.0101457,0.0102652,0.0103771,0.0104813,0.010578,0.0106673,0.0107493,0.0108244,0.0108928,0.0109547,0.0110104,0.0110602,0.0111044,0.0111433,0.0111772,0.0112063,0.0112308,0.0112509,0.0112667,0.0112785,0.0112861,0.0112897,0.0112891,0.0112843,0.0112749,0.0112607,0.0112412,0.011216,0.0111844,0.0111455,0.0110983,0.0110418,0.0109744,0.0108944,0.0107998,0.0106883,0.010557,0.0104025,0.010221,0.0100079,0.00975777,0.00946418,0.00911965,0.00871544,0.00824121,0.00768487,0.00703223,0.00626666,0.00536864,0.00431533,0.00308082,0.00163284,-6.46211e-05,-0.00205405,-0.00438502,-0.00711439,-0.0103099,-0.0140484,-0.0184192,-0.0235286,-0.0294905,-0.0364416,-0.0445351,-0.0539529,-0.064881,-0.0775421,-0.0921619,-0.10902,-0.128367,-0.150515,-0.175754,-0.204357,-0.236634,-0.272773,-0.312985,-0.357326,-0.40583,-0.458386,-0.514793,-0.574743,-0.637815,-0.703546,-0.771486,-0.841323,-0.912767,-0.985608,-1.05954,-1.1345,-1.21054,-1.28726,-1.36441,-1.44249,-1.52058,-1.59934,-1.67847,-1.75815,-1.83693,-1.91822,-1.99469,-2.05956,-2.14053,-2.22151,-2.30248,-2.38346,-2.46444,-2.54542,-2.6264,-2.70739,-2.78837,-2.86935,-2.95034,-3.03133,-3.11231,-3.1933},
 	{-0.108683,-0.100696,-0.0932398,-0.0862849,-0.0798018,-0.073762,-0.0681385,-0.0629051,-0.0580369,-0.05351,-0.049302,-0.0453914,-0.041758,-0.0383825,-0.0352471,-0.0323346,-0.0296292,-0.0271159,-0.0247806,-0.0226102,-0.0205924,-0.0187158,-0.0169695,-0.0153437,-0.013829,-0.0124167,-0.0110986,-0.00986737,-0.00871585,-0.00763756,-0.00662644,-0.00567683,-0.00478351,-0.00394158,-0.00314653,-0.00239414,-0.00168051,-0.001002,-0.000355228,0.000262924,0.000855371,0.00142481,0.00197374,0.00250449,0.00301919,0.00351985,0.00400827,0.00448616,0.00495507,0.00541641,0.00587147,0.00632143,0.00676735,0.00721016,0.00765069,0.00808966,0.00852767,0.00896524,0.00940276,0.00984051,0.0102787,0.0107173,0.0111565,0.0115959,0.0120355,0.0124748,0.0129134,0.0133508,0.0137864,0.0142194,0.0146492,0.0150748,0.0154954,0.0159099,0.0163176,0.0167172,0.017108,0.0174889,0.0178589,0.0182172,0.0185629,0.0188953,0.0192136,0.0195175,0.0198062,0.0200796,0.0203374,0.0205794,0.0208057,0.0210164,0.0212116,0.0213917,0.021557,0.021708,0.0218452,0.0219691,0.0220803,0.0221793,0.0222668,0.0223432,0.0224091,0.0224648,0.0225109,0.0225475,0.0225749,0.0225932,0.0226024,0.0226024,0.0225928,0.0225731,0.0225427,0.0225007,0.0224459,0.0223769,0.0222919,0.0221887,0.0220648,0.021917,0.0217415,0.0215341,0.0212895,0.0210016,0.0206631,0.0202655,0.0197988,0.0192513,0.0186091,0.0178561,0.0169732,0.0159384,0.0147258,0.0133048,0.0116401,0.00969028,0.00740718,0.00473508,0.00160861,-0.00204738,-0.00631984,-0.0113088,-0.0171323,-0.0239181,-0.0318172,-0.0410021,-0.0516599,-0.0640046,-0.0782643,-0.0947017,-0.113579,-0.135189,-0.159824,-0.187766,-0.219302,-0.254658,-0.294033,-0.337531,-0.385196,-0.436927,-0.492555,-0.551783,-0.614218,-0.67942,-0.746953,-0.816428,-0.887562,-0.96013,-1.03391,-1.10872,-1.18453,-1.26111,-1.33824,-1.41611,-1.49436,-1.57296,-1.65227,-1.73117,-1.81123,-1.89068,-1.97001,-2.03345,-2.11441,-2.19537,-2.27633,-2.3573,-2.43827,-2.51924,-2.60021,-2.68119,-2.76216,-2.84314,-2.92412,-3.0051,-3.08608,-3.16706,-3.24805,-3.32903,-3.41002,-3.491,-3.57199,-3.65298},
@@ -131,7 +134,7 @@ double ls_coefficients_a[][200]=
 };
 
 //LS coefficient for A=atomic weight * 1.05
-double ls_coefficients_ahi[][200]=
+static double ls_coefficients_ahi[][200]=
 {
 	{-0.0286005,-0.0263509,-0.0242674,-0.0223377,-0.0205507,-0.0188958,-0.0173631,-0.0159436,-0.0146287,-0.0134106,-0.0122818,-0.0112356,-0.0102656,-0.00936584,-0.00853095,-0.00775584,-0.00703578,-0.00636642,-0.00574372,-0.00516392,-0.00462354,-0.00411936,-0.00364839,-0.00320786,-0.0027952,-0.00240804,-0.00204415,-0.00170149,-0.00137817,-0.00107241,-0.000782573,-0.000507144,-0.000244708,6.04904e-06,0.000246346,0.000477319,0.000700021,0.000915435,0.00112447,0.00132798,0.00152675,0.00172152,0.00191297,0.00210172,0.00228836,0.00247345,0.00265746,0.00284087,0.00302408,0.00320749,0.00339143,0.0035762,0.00376208,0.0039493,0.00413804,0.00432847,0.00452069,0.00471479,0.0049108,0.00510871,0.00530849,0.00551004,0.00571324,0.0059179,0.00612381,0.00633071,0.0065383,0.00674623,0.00695413,0.00716157,0.00736812,0.00757328,0.00777655,0.00797743,0.00817538,0.00836987,0.00856036,0.00874634,0.00892729,0.00910275,0.00927227,0.00943544,0.00959191,0.00974136,0.00988355,0.0100183,0.0101454,0.0102649,0.0103767,0.0104809,0.0105776,0.0106668,0.0107488,0.0108239,0.0108921,0.010954,0.0110096,0.0110593,0.0111034,0.0111422,0.0111759,0.0112048,0.0112291,0.0112489,0.0112645,0.011276,0.0112832,0.0112864,0.0112853,0.0112798,0.0112698,0.0112548,0.0112344,0.0112081,0.0111752,0.0111349,0.011086,0.0110274,0.0109577,0.0108749,0.0107772,0.0106619,0.0105261,0.0103665,0.010179,0.00995886,0.0097004,0.0093971,0.00904119,0.00862363,0.00813377,0.00755911,0.006885,0.00609425,0.00516675,0.00407938,0.00280401,0.0013087,-0.000444126,-0.00249831,-0.00490495,-0.00772254,-0.011021,-0.0148795,-0.0193897,-0.0246615,-0.0308112,-0.0379795,-0.0463278,-0.0560302,-0.0672887,-0.0803185,-0.0953726,-0.112713,-0.132596,-0.15534,-0.181235,-0.210547,-0.243591,-0.280538,-0.321579,-0.366756,-0.416083,-0.469427,-0.52658,-0.587179,-0.650834,-0.717057,-0.785375,-0.855555,-0.927295,-1.00039,-1.07454,-1.14975,-1.22595,-1.30273,-1.37996,-1.45822,-1.53632,-1.61553,-1.69404,-1.7744,-1.85265,-1.93465,-2.01376,-2.07582,-2.1568,-2.23777,-2.31875,-2.39972,-2.4807,-2.56168,-2.64267,-2.72365,-2.80463,-2.88562,-2.9666,-3.04759,-3.12858,-3.20956},
 	{-0.108683,-0.100696,-0.0932398,-0.0862849,-0.0798018,-0.073762,-0.0681385,-0.0629051,-0.0580369,-0.05351,-0.049302,-0.0453914,-0.041758,-0.0383825,-0.0352471,-0.0323346,-0.0296292,-0.0271159,-0.0247806,-0.0226102,-0.0205924,-0.0187158,-0.0169696,-0.0153437,-0.013829,-0.0124167,-0.0110986,-0.00986737,-0.00871586,-0.00763757,-0.00662645,-0.00567685,-0.00478352,-0.0039416,-0.00314654,-0.00239416,-0.00168052,-0.00100201,-0.000355246,0.000262905,0.00085535,0.00142479,0.00197372,0.00250446,0.00301917,0.00351982,0.00400824,0.00448613,0.00495503,0.00541637,0.00587143,0.00632139,0.0067673,0.0072101,0.00765063,0.00808959,0.00852761,0.00896517,0.00940268,0.00984043,0.0102786,0.0107172,0.0111564,0.0115958,0.0120353,0.0124746,0.0129132,0.0133506,0.0137862,0.0142193,0.014649,0.0150746,0.0154951,0.0159097,0.0163173,0.016717,0.0171077,0.0174885,0.0178585,0.0182168,0.0185625,0.0188948,0.0192131,0.0195169,0.0198056,0.020079,0.0203367,0.0205787,0.0208049,0.0210154,0.0212105,0.0213905,0.0215557,0.0217065,0.0218435,0.0219673,0.0220782,0.022177,0.0222642,0.0223402,0.0224057,0.022461,0.0225065,0.0225425,0.0225692,0.0225867,0.022595,0.0225938,0.0225829,0.0225617,0.0225296,0.0224856,0.0224284,0.0223566,0.0222684,0.0221614,0.022033,0.02188,0.0216986,0.0214841,0.0212313,0.0209337,0.0205839,0.0201732,0.019691,0.0191254,0.018462,0.0176842,0.0167724,0.0157035,0.0144514,0.0129839,0.0112649,0.00925167,0.00689451,0.00413605,0.000908886,-0.00286433,-0.00727305,-0.012422,-0.0184274,-0.0254251,-0.0335685,-0.043035,-0.0540149,-0.0667272,-0.0814032,-0.0983111,-0.117713,-0.139908,-0.165186,-0.193827,-0.226116,-0.262266,-0.302466,-0.346799,-0.395295,-0.447823,-0.504197,-0.564103,-0.627131,-0.692839,-0.760788,-0.830604,-0.902061,-0.974879,-1.04885,-1.12387,-1.19986,-1.27657,-1.35384,-1.43182,-1.51017,-1.58887,-1.66798,-1.74743,-1.82669,-1.90751,-1.98598,-2.04971,-2.13067,-2.21163,-2.29259,-2.37356,-2.45453,-2.5355,-2.61647,-2.69745,-2.77843,-2.8594,-2.94038,-3.02136,-3.10234,-3.18333,-3.26431,-3.3453,-3.42628,-3.50727,-3.58825,-3.66924},
@@ -246,7 +249,7 @@ double ls_coefficients_ahi[][200]=
 //arrays dimensions are [z][energy], z=1 starts from index=0
 
 //LS X coefficient (dE straggling) for A=atomic weight
-double ls_X_coefficients_a[][200]=
+static double ls_X_coefficients_a[][200]=
 {
 	{0.999182,0.999099,0.999009,0.998911,0.998804,0.998688,0.998561,0.998424,0.998275,0.998113,0.997937,0.997746,0.997538,0.997312,0.997067,0.996802,0.996513,0.9962,0.99586,0.995491,0.995092,0.994658,0.994187,0.993677,0.993125,0.992526,0.991876,0.991173,0.990411,0.989586,0.988693,0.987727,0.986681,0.98555,0.984327,0.983005,0.981577,0.980034,0.978369,0.976571,0.974632,0.972542,0.97029,0.967865,0.965255,0.962449,0.959433,0.956195,0.952722,0.948999,0.945012,0.940748,0.936192,0.93133,0.926149,0.920635,0.914775,0.908558,0.901974,0.895012,0.887666,0.87993,0.871802,0.86328,0.854369,0.845074,0.835406,0.825378,0.815009,0.80432,0.79334,0.782099,0.770633,0.758982,0.747189,0.735302,0.72337,0.711444,0.699577,0.687824,0.676236,0.664866,0.653762,0.642971,0.632536,0.622494,0.612878,0.603714,0.595025,0.586824,0.579123,0.571923,0.565225,0.55902,0.553298,0.548044,0.54324,0.538865,0.534896,0.531309,0.528078,0.525178,0.522584,0.52027,0.518211,0.516386,0.51477,0.513343,0.512086,0.51098,0.510008,0.509155,0.508406,0.507748,0.50717,0.50666,0.50621,0.505809,0.505451,0.505127,0.504831,0.504555,0.504295,0.504043,0.503794,0.503542,0.503281,0.503005,0.502706,0.502377,0.502011,0.501597,0.501126,0.500584,0.49996,0.499237,0.498397,0.497419,0.496279,0.494949,0.493396,0.491584,0.489469,0.487002,0.484126,0.480776,0.476881,0.472358,0.467118,0.461054,0.454063,0.446025,0.436827,0.426331,0.414438,0.401023,0.386004,0.369337,0.350991,0.33106,0.309654,0.287039,0.26352,0.239535,0.215577,0.192201,0.169949,0.149255,0.130423,0.113578,0.0986664,0.0855366,0.0739774,0.0638143,0.0549195,0.047223,0.0405315,0.0347511,0.0297793,0.0254633,0.0218185,0.0185929,0.0159823,0.0136131,0.0120651,0.0437761,0.0440744,0.0490788,0.0293036,0,0,0,0,0,0,0,0,0,0,0},
 	{0.999599,0.999523,0.99944,0.99935,0.999251,0.999143,0.999025,0.998897,0.998757,0.998604,0.998438,0.998258,0.998061,0.997847,0.997613,0.99736,0.997084,0.996784,0.996459,0.996104,0.99572,0.995302,0.994848,0.994355,0.99382,0.993239,0.992609,0.991926,0.991185,0.990382,0.989512,0.988569,0.987548,0.986442,0.985246,0.983951,0.982551,0.981038,0.979403,0.977638,0.975732,0.973676,0.971459,0.969071,0.966499,0.963732,0.960757,0.957561,0.954131,0.950453,0.946512,0.942296,0.937789,0.932977,0.927848,0.922387,0.916582,0.91042,0.903892,0.896989,0.889702,0.882026,0.873959,0.8655,0.856652,0.847421,0.837816,0.827853,0.817548,0.806924,0.796008,0.784832,0.77343,0.761842,0.750112,0.738286,0.726414,0.714547,0.702737,0.691039,0.679505,0.668187,0.657133,0.646389,0.635999,0.625999,0.616423,0.607297,0.598642,0.590474,0.582803,0.575631,0.568957,0.562775,0.557074,0.551838,0.54705,0.542688,0.538731,0.535153,0.531929,0.529035,0.526444,0.524131,0.522071,0.520242,0.518621,0.517186,0.515917,0.514797,0.513807,0.512931,0.512155,0.511466,0.51085,0.510295,0.509792,0.509329,0.508897,0.508487,0.508089,0.507695,0.507296,0.506881,0.506442,0.505967,0.505444,0.504862,0.504204,0.503456,0.502599,0.501612,0.500469,0.499144,0.497605,0.495814,0.49373,0.491303,0.488479,0.485195,0.481378,0.476949,0.47182,0.465889,0.45905,0.451188,0.442186,0.431914,0.420259,0.407106,0.392364,0.375975,0.357915,0.338238,0.317055,0.294587,0.271129,0.247103,0.222979,0.199307,0.176628,0.155412,0.136001,0.118564,0.103095,0.089448,0.077432,0.0668554,0.0575906,0.049531,0.042556,0.0365099,0.0312993,0.0267903,0.0229297,0.01959,0.0167675,0.0143002,0.0122902,0.0469836,0.0451951,0.0405494,0.0284276,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
@@ -359,7 +362,7 @@ double ls_X_coefficients_a[][200]=
 };
 
 //LS X coefficient for A=atomic weight * 1.05
-double ls_X_coefficients_ahi[][200]=
+static double ls_X_coefficients_ahi[][200]=
 {
 	{0.999182,0.999099,0.999009,0.998911,0.998804,0.998688,0.998561,0.998424,0.998275,0.998113,0.997937,0.997746,0.997538,0.997312,0.997067,0.996802,0.996513,0.9962,0.99586,0.995491,0.995092,0.994658,0.994187,0.993677,0.993125,0.992526,0.991876,0.991173,0.990411,0.989586,0.988693,0.987727,0.986681,0.98555,0.984327,0.983005,0.981577,0.980034,0.978369,0.976571,0.974632,0.972542,0.97029,0.967865,0.965255,0.962449,0.959433,0.956195,0.952722,0.948999,0.945012,0.940748,0.936192,0.93133,0.926149,0.920635,0.914775,0.908558,0.901974,0.895012,0.887666,0.87993,0.871802,0.86328,0.854369,0.845074,0.835406,0.825378,0.815009,0.80432,0.79334,0.782099,0.770633,0.758982,0.747189,0.735302,0.723369,0.711444,0.699577,0.687824,0.676236,0.664865,0.653762,0.642971,0.632536,0.622494,0.612878,0.603714,0.595024,0.586824,0.579122,0.571923,0.565224,0.55902,0.553298,0.548044,0.54324,0.538865,0.534895,0.531308,0.528077,0.525177,0.522582,0.520268,0.51821,0.516384,0.514768,0.513341,0.512084,0.510977,0.510005,0.509151,0.508401,0.507743,0.507163,0.506653,0.506201,0.5058,0.50544,0.505114,0.504815,0.504537,0.504274,0.504019,0.503766,0.503509,0.503243,0.50296,0.502654,0.502316,0.501939,0.501513,0.501028,0.50047,0.499826,0.49908,0.498213,0.497204,0.496027,0.494655,0.493052,0.491183,0.489,0.486455,0.48349,0.480035,0.476021,0.471361,0.465961,0.459721,0.45253,0.444272,0.434819,0.424049,0.41186,0.39813,0.38278,0.36578,0.347103,0.326861,0.305189,0.282366,0.258718,0.234699,0.210818,0.18762,0.165649,0.145311,0.126879,0.110429,0.0958906,0.0830858,0.07183,0.0619197,0.0532781,0.0457991,0.0393122,0.033703,0.0288678,0.0246887,0.0211438,0.018018,0.0154468,0.0134189,0.0112932,0.0334208,0.0338724,0.0358214,0.0348094,0,0,0,0,0,0,0,0,0,0,0},
 	{0.999599,0.999523,0.99944,0.99935,0.999251,0.999143,0.999025,0.998897,0.998757,0.998604,0.998438,0.998258,0.998061,0.997847,0.997613,0.99736,0.997084,0.996784,0.996459,0.996104,0.99572,0.995302,0.994848,0.994355,0.99382,0.993239,0.992609,0.991926,0.991185,0.990382,0.989512,0.988569,0.987548,0.986442,0.985246,0.983951,0.982551,0.981038,0.979403,0.977638,0.975732,0.973676,0.971459,0.969071,0.966499,0.963732,0.960757,0.957561,0.954131,0.950453,0.946512,0.942296,0.937789,0.932977,0.927848,0.922387,0.916581,0.91042,0.903892,0.896989,0.889702,0.882026,0.873959,0.8655,0.856652,0.847421,0.837816,0.827853,0.817548,0.806924,0.796008,0.784832,0.77343,0.761842,0.750112,0.738286,0.726413,0.714546,0.702737,0.691039,0.679505,0.668186,0.657132,0.646389,0.635998,0.625999,0.616422,0.607296,0.598642,0.590474,0.582802,0.57563,0.568956,0.562774,0.557073,0.551837,0.547048,0.542687,0.538729,0.535151,0.531927,0.529032,0.526441,0.524127,0.522068,0.520238,0.518616,0.51718,0.515911,0.514789,0.513798,0.512921,0.512144,0.511452,0.510834,0.510277,0.50977,0.509304,0.508868,0.508453,0.50805,0.50765,0.507243,0.50682,0.50637,0.505883,0.505346,0.504747,0.504071,0.5033,0.502417,0.501398,0.50022,0.498854,0.497265,0.495418,0.493268,0.490765,0.487853,0.484466,0.480533,0.47597,0.470688,0.464582,0.457547,0.449464,0.440216,0.429674,0.417727,0.404261,0.389191,0.372468,0.354075,0.334084,0.312621,0.289929,0.266319,0.242238,0.218161,0.194647,0.172227,0.151352,0.132333,0.115299,0.100206,0.0869075,0.0751949,0.0648919,0.0558755,0.0480527,0.041267,0.0353954,0.0303403,0.025957,0.0222187,0.0189759,0.0162443,0.0138382,0.0118533,0.0432512,0.046155,0.0494109,0.0433639,0.0117346,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0},
@@ -474,3 +477,5 @@ double ls_X_coefficients_ahi[][200]=
 }
 
 }
+
+#endif
diff --git a/utils/generator.cpp b/utils/generator.cpp
index f5ef309..32c7d09 100644
--- a/utils/generator.cpp
+++ b/utils/generator.cpp
@@ -34,7 +34,9 @@ int main(){
     std::stringstream sx1;
     std::stringstream sx2;
     
-    file<<"//LS precalculated LS coefficients \n ";
+    file<<"//LS precalculated LS coefficients \n";
+    file<<"#ifndef GENERATED_LS_COEFF_H\n";
+    file<<"#define GENERATED_LS_COEFF_H\n\n";
     file<<"#include \"catima/storage.h\"";
     file<<"\n\n";
     file<<"#define LS_NUM_ENERGY_POINTS "<<num_LS_datapoints<<"\n";
@@ -47,7 +49,7 @@ int main(){
     file<<"constexpr double logEmax = "<<logEmax_forLS<<";\n";
     file<<"// energy points array in MeV/u \n";
     //file<<"constexpr EnergyTable<"<<num_LS_datapoints<<"> ls_energy_table("<<logEmin_forLS<<","<<logEmax_forLS<<");\n";
-    file<<"EnergyTable<"<<num_LS_datapoints<<"> ls_energy_table("<<logEmin_forLS<<","<<logEmax_forLS<<");\n";
+    file<<"static EnergyTable<"<<num_LS_datapoints<<"> ls_energy_table("<<logEmin_forLS<<","<<logEmax_forLS<<");\n";
      
 /*
     file<<"double ls_energy_points["<<num_LS_datapoints<<"]={";
@@ -106,12 +108,12 @@ int main(){
     file<<"\n";
     file<<"//arrays dimensions are [z][energy], z=1 starts from index=0\n";
     file<<"\n//LS coefficient for A=atomic weight\n";
-    file<<"double ls_coefficients_a[]["<<num_LS_datapoints<<"]=\n";
+    file<<"static double ls_coefficients_a[]["<<num_LS_datapoints<<"]=\n";
     file<<sv1.str();
     file<<"\n";
     
     file<<"\n//LS coefficient for A=atomic weight * 1.05\n";
-    file<<"double ls_coefficients_ahi[]["<<num_LS_datapoints<<"]=\n";
+    file<<"static double ls_coefficients_ahi[]["<<num_LS_datapoints<<"]=\n";
     file<<sv2.str();
     file<<"\n";
     
@@ -119,17 +121,18 @@ int main(){
     file<<"\n";
     file<<"//arrays dimensions are [z][energy], z=1 starts from index=0\n";
     file<<"\n//LS X coefficient (dE straggling) for A=atomic weight\n";
-    file<<"double ls_X_coefficients_a[]["<<num_LS_datapoints<<"]=\n";
+    file<<"static double ls_X_coefficients_a[]["<<num_LS_datapoints<<"]=\n";
     file<<sx1.str();
     file<<"\n";
     
     file<<"\n//LS X coefficient for A=atomic weight * 1.05\n";
-    file<<"double ls_X_coefficients_ahi[]["<<num_LS_datapoints<<"]=\n";
+    file<<"static double ls_X_coefficients_ahi[]["<<num_LS_datapoints<<"]=\n";
     file<<sx2.str();
     file<<"\n";
     
     file<<"\n}\n"; // end of ls_coefficient namespace
     file<<"\n}\n"; // end of catima namespace
+    file<<"\n#endif\n";
     file.close();
     
     #endif
-- 
2.43.0


From 6093fd2bf6b9b341d7895361200d968c03ed5a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:35 +0000
Subject: [PATCH 23/40] fix: make the functions in convert.h inline

The header defined ordinary functions, so a program including it from
two source files did not link.
---
 include/catima/convert.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index 9370865..ab9b787 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -25,7 +25,7 @@
 
 using namespace catima;
 
-bool mocadi_material_match(const Material &a, const Material&b){
+inline bool mocadi_material_match(const Material &a, const Material&b){
     if(std::fabs(a.density() - b.density())> 1e-6)return false;
     if(a.ncomponents() != b.ncomponents())return false;
     for(int i=0;i<a.ncomponents();i++){
@@ -37,7 +37,7 @@ bool mocadi_material_match(const Material &a, const Material&b){
     return true;
 }
 
-int materialdb_id(const Material &m){
+inline int materialdb_id(const Material &m){
     for(int i=201;i<=347;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
@@ -46,7 +46,7 @@ int materialdb_id(const Material &m){
     return 0;
 }
 
-bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
+inline bool save_mocadi(const char* filename, const Projectile p, const Layers &layers, const Phasespace &psx={}, const Phasespace &psy={}){
     std::ofstream fw;
     fw.open(filename, std::ios::out);
     if (!fw.is_open()) { return false;}
-- 
2.43.0


From eedd7c27f4005b0c4cf4775302d6fddbfb6510c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:43 +0000
Subject: [PATCH 24/40] fix: define p_from_T only once

p_from_T() was defined inline in reactions.h and as ordinary function in
calculations.cpp, which breaks the one definition rule. reactions.h now
uses the function declared in calculations.h.
---
 include/catima/calculations.h | 2 +-
 include/catima/reactions.h    | 4 +---
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/catima/calculations.h b/include/catima/calculations.h
index 72a91af..1eaf3ff 100644
--- a/include/catima/calculations.h
+++ b/include/catima/calculations.h
@@ -221,7 +221,7 @@ namespace catima{
     //helper
     double gamma_from_T(double T);
     double beta_from_T(double T);
-    double p_from_T(double T, double M);
+    double p_from_T(double T, double M=1.0);
     std::complex<double> lngamma( const std::complex<double> &z );
     std::complex<double> hyperg(const std::complex<double> &a,
                                                 const std::complex<double> &b,
diff --git a/include/catima/reactions.h b/include/catima/reactions.h
index e000120..74d76a0 100644
--- a/include/catima/reactions.h
+++ b/include/catima/reactions.h
@@ -20,6 +20,7 @@
 #include "catima/structures.h"
 #include "catima/config.h"
 #include "catima/integrator.h"
+#include "catima/calculations.h"
 #include <cmath>
 
 namespace catima{
@@ -53,9 +54,6 @@ namespace catima{
     
 #ifndef NUREX
 double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt);
-inline double p_from_T(double T, double M=1.0){
-    return M*sqrt(T*T + 2*T*atomic_mass_unit);
-}
 
 /// calculates Ecm fom T, return in MeV units
 inline double Ecm_from_T(double T, double Ap, double At){
-- 
2.43.0


From 5ec4d67d104d93ce0d376f5948908d81472168e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:51 +0000
Subject: [PATCH 25/40] fix: compile with the reactions option disabled

reactions.cpp needs emin_reaction also when REACTIONS is OFF.
---
 include/catima/constants.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/constants.h b/include/catima/constants.h
index 4620abd..96d4ad4 100644
--- a/include/catima/constants.h
+++ b/include/catima/constants.h
@@ -15,8 +15,8 @@ constexpr double Eout_th_epsilon = 1e-5;  //
 
 constexpr double thin_target_limit = 1 - 1e-3;
 
-#ifdef REACTIONS
 constexpr double emin_reaction = 30.0;
+#ifdef REACTIONS
 constexpr bool reactions = true;
 #else
 constexpr bool reactions = false;
-- 
2.43.0


From ee212e778e384f4d929fd142bcf1beb254daeec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:55 +0000
Subject: [PATCH 26/40] fix: define da2de for a given energy

catima.h declares and documents the function but its definition was
commented out, so programs using it did not link.
---
 src/catima.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/catima.cpp b/src/catima.cpp
index d17f9ff..b63d349 100644
--- a/src/catima.cpp
+++ b/src/catima.cpp
@@ -118,14 +118,12 @@ double da2dx(const Projectile &p, const Material &mat, const Config &c){
     return c.scattering_factor*angular_scattering_power(p,mat, Es2);
 }
 
-/*
 double da2de(const Projectile &p, double T, const Material &t, const Config &c){
     auto& data = _storage.Get(p,t,c);
     //Interpolator angular_variance_spline(energy_table.values,data.angular_variance.data(),energy_table.num);
     spline_type angular_variance_spline = get_angular_variance_spline(data);
     return angular_variance_spline.derivative(T);
 }
-*/
 
 double da2de(const Projectile &p, const Material &mat, const Config &c){
     return da2dx(p,mat,c)/dedx(p,mat,c);    
-- 
2.43.0


From a4a2d094267c7c462052044f4f7bda9c13f5cf16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:44 +0000
Subject: [PATCH 27/40] fix: return the correct integration points for odd
 orders

get_points() used the central point of odd order rules twice and left
the last point uninitialised.
---
 include/catima/gkq_integrator.h | 6 ++++--
 include/catima/glq_integrator.h | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/catima/gkq_integrator.h b/include/catima/gkq_integrator.h
index 51db896..9407554 100644
--- a/include/catima/gkq_integrator.h
+++ b/include/catima/gkq_integrator.h
@@ -158,8 +158,10 @@ std::array<double,order> GaussKronrodIntegration<order>::get_points(double a,  d
     double q = 0.5*(b+a);
 
     int num = (order/2);
-    for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
+    int odd = order%2;
+    if(odd){points[num] = p*x(0) + q;} // central point
+    for(int i=odd;i< num+odd;i++){
+        points[num-i-1+odd] = -p*x(i) + q;
         points[num+i] = p*x(i) + q;
     }
     return points;
diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index d3aaf3e..664c5b2 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -56,8 +56,10 @@ std::array<double,order> GaussLegendreIntegration<order>::get_points(double a,
     double q = 0.5*(b+a);
 
     int num = (order/2);
-    for(int i=0;i< num;i++){
-        points[num-i-1] = -p*x(i) + q;
+    int odd = order%2;
+    if(odd){points[num] = p*x(0) + q;} // central point
+    for(int i=odd;i< num+odd;i++){
+        points[num-i-1+odd] = -p*x(i) + q;
         points[num+i] = p*x(i) + q;
     }
     return points;
-- 
2.43.0


From dbf5574b4a9dd4c77253875be1a61bc1717e0e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:44:53 +0000
Subject: [PATCH 28/40] fix: use all points in odd order 2D integrations

The 2D integrators skipped the last abscissa and used the weight of the
central point twice for odd orders, so they did not integrate even low
order polynomials.
---
 include/catima/glq_integrator.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/catima/glq_integrator.h b/include/catima/glq_integrator.h
index 664c5b2..5f57b8f 100644
--- a/include/catima/glq_integrator.h
+++ b/include/catima/glq_integrator.h
@@ -87,13 +87,15 @@ double GaussLegendreIntegration2D<order>::integrate(F& f, double a, double b, do
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order/2;j++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is added twice
+        for(int j=0;j<order/2 + order%2;j++){
             yy = (r*integrator.x(j));
+            double wj = (order%2 && j==0)?0.5*integrator.w(j):integrator.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
@@ -121,13 +123,15 @@ double GaussLegendreIntegration2DA<order, order2>::integrate(F& f, double a, dou
     double s = (d+c)/2.0;
 
     double xx, yy, sum;
-    for(int i=0;i<order/2;i++){
+    for(int i=0;i<order/2 + order%2;i++){
         xx = (p*integrator.x(i));
-        for(int j=0;j<order2/2;j++){
+        double wi = (order%2 && i==0)?0.5*integrator.w(i):integrator.w(i); // central point is added twice
+        for(int j=0;j<order2/2 + order2%2;j++){
             yy = (r*integrator2.x(j));
+            double wj = (order2%2 && j==0)?0.5*integrator2.w(j):integrator2.w(j);
             sum = (f(xx + q, yy + s) + f(xx + q, -yy+s));
             sum += (f(-xx + q, yy + s) + f(-xx + q, -yy+s));
-            res += integrator.w(i) * integrator2.w(j) * sum;
+            res += wi * wj * sum;
         }
     }
     return p*r*res;
-- 
2.43.0


From 01fb5e679bf88a0e8593d3b1638e4ce54f0d351d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:25 +0000
Subject: [PATCH 29/40] fix: use two sodium atoms in the Na2CO3 compound

---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 114cc81..9bb60ba 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -118,7 +118,7 @@ namespace catima{
 		 case material::Muscle_strained:	 return Material({{0,1,0.101997},{0,6,0.123},{0,7,0.035},{0,8,0.729003},{0,11,0.0008},{0,12,0.0002},{0,15,0.002},{0,16,0.005},{0,19,0.003}},1.04);
 		 case material::Muscle_sucrose:	 return Material({{0,1,0.0982341},{0,6,0.156214},{0,7,0.035451},{0,8,0.710101}},1.11);
 		 case material::Muscle_no_sucrose:	 return Material({{0,1,0.101969},{0,6,0.120058},{0,7,0.035451},{0,8,0.742522}},1.07);
-		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,1}},2.532);
+		 case material::Na2CO3:	 return Material({{0,6,1},{0,8,3},{0,11,2}},2.532);
 		 case material::NaI:	 return Material({{0,11,1},{0,53,1}},3.667);
 		 case material::NaCl:	 return Material({{0,11,1},{0,17,1}},2.165);
 		 case material::Na2O:	 return Material({{0,8,1},{0,11,2}},2.27);
-- 
2.43.0


From 89029e0b7a73599c79812fbab210b0eda07cd8f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:29 +0000
Subject: [PATCH 30/40] fix: use oxygen in the RW3 compound

RW3 is polystyrene with TiO2, the oxygen fraction was entered as a
second carbon fraction.
---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 9bb60ba..ef69673 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -160,7 +160,7 @@ namespace catima{
 		 case material::LLZO_electrolyte:	 return Material({{0,3,7},{0,57,3},{0,40,2},{0,8,12}},5.1);
 		 case material::Nylon:	 return Material({{0,6,6},{0,1,11},{0,7,1},{0,8,1}},1.14);
 		 case material::Brass:   return Material({{0,29,0.63},{0,30,0.35},{0,82,0.02}},8.73);
-	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,6,0.008},{0,22,0.012}},1.045);
+	         case material::RW3:  return Material({{0,1,0.0759},{0,6,0.9041},{0,8,0.008},{0,22,0.012}},1.045);
             default:break;
              }
         return Material();
-- 
2.43.0


From a90dc5bd5e5e2b50c55e53026d4c888f357d8a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:33 +0000
Subject: [PATCH 31/40] fix: use carbon in the Polyolefin compound

Polyolefin is C8H16, the carbon was entered as oxygen.
---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index ef69673..622c739 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -28,7 +28,7 @@ namespace catima{
 		 case material::Mylar:	 return Material({{0,6,10},{0,1,8},{0,8,4}},1.38);
 		 case material::NaF:	 return Material({{0,11,1},{0,9,1}},2.56);
 		 case material::P10:	 return Material({{0,18,9},{0,6,1},{0,1,4}},0.00166);
-		 case material::Polyolefin:	 return Material({{0,8,8},{0,1,16}},0.9);
+		 case material::Polyolefin:	 return Material({{0,6,8},{0,1,16}},0.9);
 		 case material::CmO2:	 return Material({{0,96,1},{0,8,2}},12);
 		 case material::Suprasil:	 return Material({{0,14,0.37722},{0,8,0.539562},{0,5,0.040064},{0,11,0.028191},{0,13,0.011644},{0,19,0.003321}},2.2);
 		 case material::HAVAR:	 return Material({{0,27,0.403228},{0,24,0.169412},{0,28,0.124301},{0,74,0.089847},{0,42,0.031259},{0,26,0.181952}},8.3);
-- 
2.43.0


From 77029d41be96b352d79cd263f2527af04cb02e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:36 +0000
Subject: [PATCH 32/40] fix: add the missing iodine to the photographic
 emulsion

The weight fractions summed up to 0.99688 only.
---
 src/material_database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/material_database.cpp b/src/material_database.cpp
index 622c739..18551dd 100644
--- a/src/material_database.cpp
+++ b/src/material_database.cpp
@@ -129,7 +129,7 @@ namespace catima{
 		 case material::Octane:	 return Material({{0,1,18},{0,6,8}},0.703);
 		 case material::Paraffin:	 return Material({{0,1,0.148605},{0,6,0.851395}},0.93);
 		 case material::nPentane:	 return Material({{0,1,12},{0,6,5}},0.626);
-		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105}},3.815);
+		 case material::PhotoEmulsion:	 return Material({{0,1,0.0141},{0,6,0.072261},{0,7,0.01932},{0,8,0.066101},{0,16,0.00189},{0,35,0.349103},{0,47,0.474105},{0,53,0.00312}},3.815);
 		 case material::PuO2:	 return Material({{0,8,2},{0,94,1}},11.46);
 		 case material::Polyacrylonitrile:	 return Material({{0,1,3},{0,6,3},{0,7,1}},1.184);
 		 case material::Polycarbonate:	 return Material({{0,1,0.055491},{0,6,0.755751},{0,8,0.188758}},1.2);
-- 
2.43.0


From 202f87e5ce1f481874cc440360436007cafd2e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:39 +0000
Subject: [PATCH 33/40] fix: search all predefined compounds in materialdb_id

The last two compounds of the database were never found.
---
 include/catima/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/convert.h b/include/catima/convert.h
index ab9b787..8706a24 100644
--- a/include/catima/convert.h
+++ b/include/catima/convert.h
@@ -38,7 +38,7 @@ inline bool mocadi_material_match(const Material &a, const Material&b){
 }
 
 inline int materialdb_id(const Material &m){
-    for(int i=201;i<=347;i++){
+    for(int i=201;i<=349;i++){
         if(mocadi_material_match(get_material(i),m)){
             return i;
         }
-- 
2.43.0


From 2ff5ba37cb3444bba0be0798db9cd4c66a665a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:41 +0000
Subject: [PATCH 34/40] fix: use the requested configuration in
 catima_calculator

The configuration was read from the input file but not passed to the
calculation.
---
 bin/catima_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 2b4d482..598ce5c 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -158,7 +158,7 @@ int main( int argc, char * argv[] )
     for(double e:energies){ 
         cout<<"-------- T = "<<e<<" MeV/u -------\n";
         projectile.T = e;
-        auto res = calculate(projectile,layers);
+        auto res = calculate(projectile,layers,conf);
         for(unsigned int i=0;i<res.results.size();i++){
             auto entry = res.results[i];
             cout<<"material #"<<i<<":\n";
-- 
2.43.0


From 54b7eece95d5f8b797a28ca2db1ad3c908ef5c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:45:54 +0000
Subject: [PATCH 35/40] fix: accept fractional energy steps in
 catima_calculator

The step was read as an integer, so steps below 1 MeV/u divided by
zero.
---
 bin/catima_calculator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/catima_calculator.cpp b/bin/catima_calculator.cpp
index 598ce5c..3f3d7f2 100644
--- a/bin/catima_calculator.cpp
+++ b/bin/catima_calculator.cpp
@@ -82,7 +82,7 @@ int main( int argc, char * argv[] )
                         double emax = e["max"].get<double>();
                         int num=0;
                         if(e.count("step")){
-                            num = 1+(emax-emin)/e["step"].get<int>();
+                            num = 1+(emax-emin)/e["step"].get<double>();
                         }
                         if(e.count("num")){
                             num = e["num"].get<int>();
-- 
2.43.0


From beaa241885163ecf47b95761c02978ae3c2390ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:50:20 +0000
Subject: [PATCH 36/40] fix: make the density effect of astatine and francium
 continuous

The exponents of the density-effect correction of these two elements were
placeholders, so the correction dropped from 0 to about -4 at its onset.
---
 include/catima/data_atima.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/catima/data_atima.h b/include/catima/data_atima.h
index f302e25..cf8ecec 100644
--- a/include/catima/data_atima.h
+++ b/include/catima/data_atima.h
@@ -64,7 +64,7 @@ const double m[97]= {
 2.9319, 3.0354,  2.7276, 2.7414, 2.8866, 2.8906, 2.8828, 2.8592, 2.7331, 2.7050,
 2.6674, 2.6403,  2.6245, 2.5977, 2.6056, 2.5849, 2.5726, 2.5573, 2.5469, 2.5141,
 2.5643, 2.6155,  2.7623, 2.8447, 2.8627, 2.9608, 2.9658, 3.0417, 3.1101, 3.0519,
-3.1450, 3.1608,  3.1671, 3.1830, 1.1111, 2.7409, 1.1111, 3.2454, 3.2683, 3.2610,
+3.1450, 3.1608,  3.1671, 3.1830, 3.0600, 2.7409, 3.2437, 3.2454, 3.2683, 3.2610,
 2.9845, 2.8171,  2.8082, 2.7679, 2.7615, 2.7579, 2.7560 };
 
 const double del_0[97]= {
-- 
2.43.0


From e8eba8a82b264bc1fe4b4e6cb4ee015cc716e85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 01:00:37 +0000
Subject: [PATCH 37/40] fix: reject the largest isotope index without
 overflowing

The bounds check computed i+1, which overflows for INT_MAX. Without optimisation the check then passed and the read crashed.
---
 src/abundance_database.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/abundance_database.cpp b/src/abundance_database.cpp
index 0f44698..cc02125 100644
--- a/src/abundance_database.cpp
+++ b/src/abundance_database.cpp
@@ -25,20 +25,20 @@ namespace abundance{
     
     int get_isotope_a(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| i<0 || (i+1) > num)return 0;
+        if(num==0|| i<0 || i >= num)return 0;
         return isotopes_a[abundance_z_index[z-1]+i];
     }
     
     float get_abundance(int z, int i){
         int num = get_isotopes_num(z);
-        if(num==0|| i<0 || (i+1) > num)return 0;
+        if(num==0|| i<0 || i >= num)return 0;
         return isotopes_abundance[abundance_z_index[z-1]+i];
     }
     
     std::pair<int,float> get_isotope(int z, int i){
         std::pair<int,float> res{0,0.0};
         int num = get_isotopes_num(z);
-        if(num==0|| i<0 || (i+1) > num)return res;
+        if(num==0|| i<0 || i >= num)return res;
         
         res.first = isotopes_a[abundance_z_index[z-1]+i];
         res.second = isotopes_abundance[abundance_z_index[z-1]+i];
-- 
2.43.0


From d3af3424c3f849754b017c531f168fc31eae393b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:08:47 +0000
Subject: [PATCH 38/40] fix: allow a stack of layers to be appended to itself

Layers::add walked through the other stack while its own list grew. When both are the same object the list was read after it had been freed.
---
 src/structures.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/structures.cpp b/src/structures.cpp
index 6257663..171fc73 100644
--- a/src/structures.cpp
+++ b/src/structures.cpp
@@ -68,7 +68,8 @@ void Layers::add(Material m){
 }
 
 void Layers::add(const Layers& l){
-    for(auto m: l.get_materials()){
+    const std::vector<Material> added = l.get_materials(); // copy, l can be this object
+    for(auto &m: added){
       add(m);
     }
 }
-- 
2.43.0


From c09158c05cf8e00a359c9076405c02f772b57f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:02 +0000
Subject: [PATCH 39/40] fix: correct the sign of the Coulomb correction in
 radiation_length

The correction is subtracted in the published formula. The calculated
radiation length of silver was 8.36 instead of 8.97 g/cm2.
---
 src/calculations.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/calculations.cpp b/src/calculations.cpp
index 73255fb..f716e27 100644
--- a/src/calculations.cpp
+++ b/src/calculations.cpp
@@ -547,7 +547,7 @@ double radiation_length(int z, double m){
     double a2 = fine_structure*fine_structure*z2;
     double a4 = a2*a2;
     double a6 = a4*a2;
-    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - -1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
+    lr= 716.405*m/(z2* (log(184.15*z_13) + log(1194.0*z_23)/z - 1.202*a2 + 1.0369*a4 - 1.008*a6/(1+a2) ) );
     return lr;
 }
 
-- 
2.43.0


From f1af2eade904e34395a33d3e6093b94de52e0727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 04:15:02 +0000
Subject: [PATCH 40/40] fix: include the elementary charge in the Coulomb
 barrier of SigmaR_Kox

The barrier is e^2 Z1 Z2 / r in MeV, the factor e^2 of 1.44 MeV fm was
missing.
---
 src/reactions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reactions.cpp b/src/reactions.cpp
index 6ce7958..f8d26b8 100644
--- a/src/reactions.cpp
+++ b/src/reactions.cpp
@@ -77,7 +77,7 @@ double SigmaR_Kox(int Ap, int Zp, double E, int At, int Zt){
     double Ap13 = pow(Ap,1.0/3.0);
     double At13 = pow(At,1.0/3.0);
     double D = 5.0*(At-2*Zt)*Zp/(Ap*At);
-    double Bc = Zp*Zt/(rc*(Ap13+At13));
+    double Bc = 0.1*hbar*c_light*fine_structure*Zp*Zt/(rc*(Ap13+At13)); // e^2 in MeV fm
     double logE = std::log10(E);
     double c = 0;
     if(logE < 1.5){
-- 
2.43.0

