From a21d2926e6286711c07a8e76af3c2d901ddaf26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:22 +0000
Subject: [PATCH 01/81] fix: a control appended without phase distribution
 keeps no stale one

---
 opm/core/wells/wells.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index c1327f7..6708a6d 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -557,6 +557,11 @@ append_well_controls(enum WellControlType type,
             memcpy(ctrl->distr + (ctrl->num * np), distr,
                    np * sizeof *ctrl->distr);
         }
+        else {
+            /* Slot may hold values from a control since cleared. */
+            memset(ctrl->distr + (ctrl->num * np), 0,
+                   np * sizeof *ctrl->distr);
+        }
 
         ctrl->num += 1;
     }
-- 
2.43.0


From f7a964f0d15fed6f0116e8d5887a81ef8ba51f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:59 +0000
Subject: [PATCH 02/81] fix: cloning wells whose controls were cleared no
 longer aborts

---
 opm/core/wells/wells.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/wells.c b/opm/core/wells/wells.c
index 6708a6d..3f23609 100644
--- a/opm/core/wells/wells.c
+++ b/opm/core/wells/wells.c
@@ -658,7 +658,9 @@ clone_wells(const struct Wells *W)
                 }
 
                 if (ok) {
-                    set_current_control(w, ctrls->current, ret);
+                    /* Copied as is: the controls may have been cleared
+                     * after the current one was selected. */
+                    ret->ctrls[ w ]->current = ctrls->current;
                 }
 
                 pos = W->well_connpos[w + 1];
-- 
2.43.0


From 2f590db0fff4a3c0f23482a891c2191245a3d5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:16 +0000
Subject: [PATCH 03/81] fix: splitting disconnected blocks sees the connections
 of the first cell

---
 opm/core/pressure/msmfem/partition.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/pressure/msmfem/partition.c b/opm/core/pressure/msmfem/partition.c
index db55831..b1d6809 100644
--- a/opm/core/pressure/msmfem/partition.c
+++ b/opm/core/pressure/msmfem/partition.c
@@ -362,6 +362,8 @@ partition_create_c2c(int nc, int nneigh, const int *neigh,
                 }
             }
 
+            (*pc2c)[0] = 0;
+
             ret = nc;
         } else {
             free(*pc2c);
-- 
2.43.0


From ddfa6e192bdbe91dd0baed4e61833820feca33c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 04/81] fix: a second compressible boundary condition no longer
 aborts

The table's capacity was never recorded when its arrays were (re)allocated.
---
 opm/core/pressure/tpfa/compr_bc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/compr_bc.c b/opm/core/pressure/tpfa/compr_bc.c
index 32c5bc1..4832b58 100644
--- a/opm/core/pressure/tpfa/compr_bc.c
+++ b/opm/core/pressure/tpfa/compr_bc.c
@@ -62,7 +62,7 @@ expand_source_tables(int alloc, struct compr_bc *bc)
     } else {
         bc->type       = t;  bc->face = f;
         bc->press      = p;  bc->flux = v;
-        bc->saturation = s;
+        bc->saturation = s;  bc->cpty = alloc;
     }
 
     return alloc;
-- 
2.43.0


From 2aa149845a9ee2bb8df0d4ce848deb7fcbaed968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:18 +0000
Subject: [PATCH 05/81] fix: writing a matrix or vector to a file that cannot
 be opened does not crash

---
 opm/core/linalg/sparse_sys.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opm/core/linalg/sparse_sys.c b/opm/core/linalg/sparse_sys.c
index 3546965..62c7dce 100644
--- a/opm/core/linalg/sparse_sys.c
+++ b/opm/core/linalg/sparse_sys.c
@@ -211,9 +211,8 @@ csrmatrix_write(const struct CSRMatrix *A, const char *fn)
 
     if (fp != NULL) {
         csrmatrix_write_stream(A, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
@@ -245,9 +244,8 @@ vector_write(size_t n, const double *v, const char *fn)
 
     if (fp != NULL) {
         vector_write_stream(n, v, fp);
+        fclose(fp);
     }
-
-    fclose(fp);
 }
 
 
-- 
2.43.0


From 3ecb1a36e1a0a5446b2fbf4596430d5f15605786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:23 +0000
Subject: [PATCH 06/81] fix: SparseVector::addElement rejects a negative first
 index

---
 opm/core/utility/SparseVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/SparseVector.hpp b/opm/core/utility/SparseVector.hpp
index 2ca6711..756d601 100644
--- a/opm/core/utility/SparseVector.hpp
+++ b/opm/core/utility/SparseVector.hpp
@@ -102,6 +102,7 @@ namespace Opm
 	void addElement(const T& elem, int index)
 	{
 	    ASSERT(indices_.empty() || index > indices_.back());
+	    ASSERT(index >= 0);
 	    ASSERT(index < size_);
 	    data_.push_back(elem);
 	    indices_.push_back(index);
-- 
2.43.0


From ad31615bbef27f9b91106906f1e89e632f3a9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:46 +0000
Subject: [PATCH 07/81] fix: setCurrentStepNum checks the step number it is
 given

It checked the old one, so an invalid number was accepted (reading past
the list of steps).
---
 opm/core/simulator/SimulatorTimer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index 4aa52ec..f46cc20 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -72,8 +72,8 @@ namespace Opm
     /// Set current step number.
     void SimulatorTimer::setCurrentStepNum(int step)
     {
-        if (current_step_ < 0 || current_step_ > int(timesteps_.size())) {
-            // Note that we do allow current_step_ == timesteps_.size(),
+        if (step < 0 || step > int(timesteps_.size())) {
+            // Note that we do allow step == timesteps_.size(),
             // that is the done() state.
             THROW("Trying to set invalid step number: " << step);
         }
-- 
2.43.0


From d8ec768e92f3fb9d10535d1ebdd886fe322ee4d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 08/81] fix: the current date does not wrap around 68 years
 after the start

---
 opm/core/simulator/SimulatorTimer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/SimulatorTimer.cpp b/opm/core/simulator/SimulatorTimer.cpp
index f46cc20..995c425 100644
--- a/opm/core/simulator/SimulatorTimer.cpp
+++ b/opm/core/simulator/SimulatorTimer.cpp
@@ -98,7 +98,7 @@ namespace Opm
 
     boost::posix_time::ptime SimulatorTimer::currentDateTime() const
     {
-      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( (int) current_time_ );
+      return boost::posix_time::ptime(start_date_) + boost::posix_time::seconds( static_cast<long>(current_time_) );
     }
     
 
-- 
2.43.0


From 750cc880c245879b6e4c129d4fdf3c6c8ee1894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 09/81] fix: a comment before the end of a deck keyword does
 not swallow the terminator

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 96 ++++++++++----------
 1 file changed, 48 insertions(+), 48 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 9041b28..a23e7c8 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -149,14 +149,14 @@ struct FAULTS : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
-            if (fltname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (fltname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine >> fltname;
             }
+            if (fltname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             FaultSegment fault_segment;
             fault_segment.ijk_coord.resize(6);
             fault_segment.fault_name = fltname;
@@ -219,14 +219,14 @@ struct MULTFLT : public SpecialBase
         while(is) {
             std::string fltname;
             is >> fltname;
+            while (fltname.find("--") == 0) {
+                // This line is a comment
+                is >> ignoreLine >> fltname;
+            }
             if (fltname[0] == '/') {
                 is >> ignoreLine;
                 break;
             }
-            while (fltname == "--") {
-                // This line is a comment
-                is >> ignoreLine >> fltname;
-            }
             MultfltLine multflt_line;
             multflt_line.fault_name = fltname;
             std::vector<double> data(2,1.0);
@@ -806,15 +806,15 @@ struct WELSPECS : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
@@ -928,15 +928,15 @@ struct COMPDAT : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             CompdatLine compdat_line;
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
@@ -1033,15 +1033,15 @@ struct GCONINJE : public SpecialBase
     {
         while(is) {
             std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconinjeLine gconinje_line;
             gconinje_line.group_ = groupname;
             gconinje_line.injector_type_ = readString(is);
@@ -1136,15 +1136,15 @@ struct WCONINJE : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconinjeLine wconinje_line;
             wconinje_line.well_ = wellname;
             wconinje_line.injector_type_ = readString(is);
@@ -1245,15 +1245,15 @@ struct GCONPROD : public SpecialBase
     {
         while(is) {
             std::string groupname = readString(is); 
-            if (groupname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (groupname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 groupname = readString(is);
             }
+            if (groupname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             GconprodLine gconprod_line;
             gconprod_line.group_ = groupname;
             gconprod_line.control_mode_ = readString(is);
@@ -1385,15 +1385,15 @@ struct WGRUPCON : public SpecialBase
     {
         while(is) {
             std::string wname = readString(is); 
-            if (wname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wname = readString(is);
             }
+            if (wname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WgrupconLine wgrupcon_line;
             wgrupcon_line.well_ = wname;
             std::string available = readString(is);
@@ -1496,15 +1496,15 @@ struct WCONPROD : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WconprodLine wconprod_line;
             wconprod_line.well_ = wellname;
             wconprod_line.open_shut_flag_ = readString(is);
@@ -1605,15 +1605,15 @@ struct WELTARG : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WeltargLine weltarg_line;
             weltarg_line.well_ = wellname;
             weltarg_line.control_change_ = readString(is);
@@ -1686,15 +1686,15 @@ struct WELOPEN : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is); 
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WelopenLine welopen_line;
             welopen_line.well_ = wellname;
             welopen_line.openshutflag_ = readString(is);
@@ -2153,15 +2153,15 @@ struct WPOLYMER : public SpecialBase
     {
         while(is) {
             std::string wellname = readString(is);
-            if (wellname[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
             while (wellname.find("--") == 0) {
                 // This line is a comment
                 is >> ignoreLine;
                 wellname = readString(is);
             }
+            if (wellname[0] == '/') {
+                is >> ignoreLine;
+                break;
+            }
             WpolymerLine wpolymer_line;
             wpolymer_line.well_ = wellname;
             is >> wpolymer_line.polymer_concentration_;    
-- 
2.43.0


From 0324074f0ca6f7502be066a219636b9d404c8fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 10/81] fix: reading a deck again forgets start date, reading
 mode and ignored fields of the previous one

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index 8a1905e..cd5ea27 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -320,6 +320,9 @@ void EclipseGridParser::read(istream& is, bool convert_to_SI)
     floating_field_map_.clear();
     special_field_by_epoch_.clear();
     special_field_by_epoch_.push_back(SpecialMap());
+    ignored_fields_.clear();
+    current_reading_mode_ = Regular;
+    start_date_ = boost::gregorian::date(boost::date_time::not_a_date_time);
     current_time_days_ = 0.0;
     current_epoch_ = 0;
 
-- 
2.43.0


From c2fc765b2a7a39709b53670e7e519a0a78f72942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 11/81] fix: comments around the records of DATES are skipped

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 2 ++
 opm/core/io/eclipse/SpecialEclipseFields.hpp     | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index a476cd1..9a20acc 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -243,8 +243,10 @@ namespace
 
     inline boost::gregorian::date readDate(std::istream& is)
     {
+        is >> ignoreWhitespace;
         while (is.peek() == int('-')) {
             is >> ignoreLine;   // This line is a comment
+            is >> ignoreWhitespace;
         }
         int day, year;
         std::string month_name;
diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index a23e7c8..1aed389 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -332,6 +332,10 @@ struct DATES : public SpecialBase
         while(is) {
             dates.push_back(readDate(is));
             is >> ignoreWhitespace;
+            while (is.peek() == int('-')) {
+                is >> ignoreLine;   // This line is a comment
+                is >> ignoreWhitespace;
+            }
             if (is.peek() == int('/')) {
                 is >> ignoreLine;
                 break;
-- 
2.43.0


From 8dbf9b5d1e8da812780a447fd19e09812d72e8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 12/81] fix: the reservoir rate limit of GCONINJE is converted
 to SI

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 1aed389..fb69c93 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1089,6 +1089,7 @@ struct GCONINJE : public SpecialBase
             } else {
                 gconinje[i].surface_flow_max_rate_ *= units.liqvol_s/units.time;
             }
+            gconinje[i].resv_flow_max_rate_ *= units.liqvol_r/units.time;
         }
     }
 };
-- 
2.43.0


From b366ba7214fe1a1689ebdce095180bc48adb9a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 13/81] fix: GCONPROD counts several groups of defaulted items
 before the reservoir rate

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index fb69c93..1346bad 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1283,21 +1283,20 @@ struct GCONPROD : public SpecialBase
                 }
                 int read_ignored = 0;
                 int to_read = 6;
-                for (; read_ignored < to_read; ++read_ignored) {
+                while (read_ignored < to_read) {
                     std::string ignored_value = readString(is);
                     if (ignored_value[ignored_value.size()-1]=='*') {
                         // we've got defaulted argument, increment
                         
-                        int num_defaulted;
+                        int num_defaulted = 1;
                         std::string num_defaulted_str = ignored_value.substr(0, ignored_value.size()-1);
                         std::istringstream(num_defaulted_str) >> num_defaulted;
                         read_ignored += num_defaulted;
-                        if (read_ignored >= to_read) {
-                            break;
-                        }
                     } else if(ignored_value[0] == '/') {
                         is.putback('/');
                         break;
+                    } else {
+                        ++read_ignored;
                     }
                 }
                 if ( read_ignored <= to_read) {
-- 
2.43.0


From 51ec93789e318a0599a84e094a58a1ea8de73d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 14/81] fix: a WGRUPCON record without phase is kept and does
 not end the keyword

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 33 ++++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 1346bad..3bec4e6 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1410,26 +1410,25 @@ struct WGRUPCON : public SpecialBase
             const int num_to_read = 1;
             int num_read = readDefaultedVectorData(is, double_data, num_to_read);
             wgrupcon_line.guide_rate_ = double_data[0];
-            
-            std::string phase = readString(is); 
-            if (phase[0] == '/') {
-                is >> ignoreLine;
-                break;
-            }
-            while (phase.find("--") == 0) {
-                // This line is a comment
-                is >> ignoreLine;
-                phase = readString(is);
-            }
-            
-            wgrupcon_line.phase_ = phase;
-            
-            wgrupcon.push_back(wgrupcon_line);
-            // HACK! Ignore any further items
+
             if (num_read == num_to_read) {
-                ignoreSlashLine(is);
+                std::string phase = readString(is);
+                while (phase.find("--") == 0) {
+                    // This line is a comment
+                    is >> ignoreLine;
+                    phase = readString(is);
+                }
+                if (phase[0] == '/') {
+                    is >> ignoreLine; // Phase is defaulted
+                } else {
+                    wgrupcon_line.phase_ = phase;
+                    // HACK! Ignore any further items
+                    ignoreSlashLine(is);
+                }
             }
 
+            wgrupcon.push_back(wgrupcon_line);
+
         }
     }
 
-- 
2.43.0


From 72e7cfc08c91f561858d2aedee2d8718be61bef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 15/81] fix: a SPECGRID record that leaves out trailing items
 does not swallow the next keyword

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 3bec4e6..89859bf 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -91,6 +91,9 @@ struct SPECGRID : public SpecialBase
         int nd = std::min(nread, ndim);
         copy(data.begin(), data.begin()+nd, &dimensions[0]);
         numres = data[ndim];
+        if (nread < ndim+1) {
+            return;     // The terminating slash has been read.
+        }
         std::string candidate;
         is >> candidate;
         if (candidate == "/") {
-- 
2.43.0


From f7e7a1af63ac21a808b644862f32b5816e9df4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 16/81] fix: TITLE reads the line after the keyword, not the
 one after that

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 89859bf..35af10a 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -266,7 +266,7 @@ struct TITLE : public SpecialBase
     virtual std::string name() const
     { return std::string("TITLE"); }
     virtual void read(std::istream& is)
-    { is >> ignoreLine; std::getline(is, title); }
+    { is >> ignoreWhitespace; std::getline(is, title); }
     virtual void write(std::ostream& os) const
     { os << name() << '\n' << title << '\n'; }
     virtual void convertToSI(const EclipseUnits&)
-- 
2.43.0


From e1fa79066b90fe8dbf0ba1435f05fbdd58a0854b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:29 +0000
Subject: [PATCH 17/81] fix: COMPDAT keeps the position of items after defaults
 spanning several of them

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 35af10a..6a00782 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -948,17 +948,16 @@ struct COMPDAT : public SpecialBase
             compdat_line.well_ = wellname;
             readDefaultedVectorData(is, compdat_line.grid_ind_, 4);
             compdat_line.open_shut_flag_ = readString(is);
-            std::vector<int> int_data(1,-1);
-            readDefaultedVectorData(is, int_data, 1);
-            compdat_line.sat_table_number_ = int_data[0];
-            std::vector<double> double_data(2, 0.0);
-            int num_to_read = 2;
-            int num_read = readDefaultedVectorData(is, double_data, num_to_read);
-            compdat_line.connect_trans_fac_ = double_data[0];
-            compdat_line.diameter_ = double_data[1];
+            std::vector<double> item_data(3, 0.0);
+            item_data[0] = -1;
+            const int num_to_read = 3;
+            const int num_read = readDefaultedVectorData(is, item_data, num_to_read);
+            compdat_line.sat_table_number_ = int(item_data[0]);
+            compdat_line.connect_trans_fac_ = item_data[1];
+            compdat_line.diameter_ = item_data[2];
 
             // HACK! Ignore items 10-14.
-            if (num_read == num_to_read) {
+            if (num_read >= num_to_read) {
                 ignoreSlashLine(is);
             }
             compdat.push_back(compdat_line);
-- 
2.43.0


From b6a6c60119702212867fb7269caee6a20e44a553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 18/81] fix: a defaulted procedure in GCONPROD is NONE

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 6a00782..5872fbe 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -1284,6 +1284,13 @@ struct GCONPROD : public SpecialBase
                     procedure = "NONE";
                 }
                 int read_ignored = 0;
+                if (procedure[procedure.size()-1] == '*') {
+                    // Defaulted, possibly together with items after it.
+                    int num_defaulted = 1;
+                    std::istringstream(procedure) >> num_defaulted;
+                    read_ignored = num_defaulted - 1;
+                    procedure = "NONE";
+                }
                 int to_read = 6;
                 while (read_ignored < to_read) {
                     std::string ignored_value = readString(is);
-- 
2.43.0


From 4915c166c0dadc39bb68f9f6015d130ab5b29a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:31 +0000
Subject: [PATCH 19/81] fix: a capillary pressure of -1 in SWOF or SGOF is not
 taken as a default

---
 .../io/eclipse/EclipseGridParserHelpers.hpp   | 22 ++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 9a20acc..7c47964 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -184,10 +184,10 @@ namespace
 
 
     // Keywords SGOF and SWOF. Reads data until '/' or an error is encountered.
-    // Default values represented by 1* is replaced by -1. Use linear interpolation
-    // outside this function to replace -1.
+    // Default values represented by 1* is replaced by default_flag. Use linear
+    // interpolation outside this function to replace it.
     template<typename T>
-    inline void readRelPermTable(std::istream& is, std::vector<T>& data)
+    inline void readRelPermTable(std::istream& is, std::vector<T>& data, T default_flag)
     {
 	data.clear();
 	while (is) {
@@ -209,7 +209,7 @@ namespace
 		if (is.peek() == int('*')) {
 		    is.ignore(); // ignore the '*'
 		    ASSERT(int(candidate) == 1);
-		    data.push_back(-1); // Set new flag for interpolation.
+		    data.push_back(default_flag); // Set new flag for interpolation.
 		} else {
 		    data.push_back(candidate);
 		}
@@ -379,18 +379,19 @@ namespace
 	}
     }
 
-    // Replace default values -1 by linear interpolation
+    // Replace default values (equal to flag) by linear interpolation
     inline void insertDefaultValues(std::vector<std::vector<double> >& table,
                                     int ncol,
                                     double defaultOut = 0.0,
-                                    bool defaultInterpolation = true)
+                                    bool defaultInterpolation = true,
+                                    double flag = -1.0)
     {
 	const int sz = table[0].size();
 	for (int k=1; k<ncol; ++k) {
 	    std::vector<int> indx;
 	    std::vector<double> x;
 	    for (int i=0; i<sz; ++i) {
-		if (table[k][i] == -1) {
+		if (table[k][i] == flag) {
 		    indx.push_back(i);
 		    x.push_back(table[0][i]);    
 		}
@@ -398,7 +399,7 @@ namespace
 	    if (!indx.empty()) {
 		std::vector<double> xv, yv;
 		for (int i=0; i<sz; ++i) {
-		    if (table[k][i] != -1) {
+		    if (table[k][i] != flag) {
 			xv.push_back(table[0][i]);		    
 			yv.push_back(table[k][i]);		    
 		    }
@@ -428,11 +429,12 @@ namespace
     inline void readSGWOF(std::istream& is, table_t& relperm_table,
 			  const std::string& field_name, int ncol)
     {
+	const double default_flag = -1.0e100; // Capillary pressure may be -1.
 	std::vector<double> record;
 	std::vector<std::vector<double> > table(ncol);	
 	while (!is.eof()) {
 	    record.clear();
-	    readRelPermTable(is, record);
+	    readRelPermTable(is, record, default_flag);
 	    const int rec_size = record.size()/ncol;
 	    for (int k=0; k<ncol; ++k) {
 		table[k].resize(rec_size);
@@ -442,7 +444,7 @@ namespace
 		    table[k][i] = record[++n];
 		}
 	    }
-	    insertDefaultValues(table, ncol);
+	    insertDefaultValues(table, ncol, 0.0, true, default_flag);
 	    relperm_table.push_back(table);
 
 	    int action = next_action(is); // 0:continue  1:return  2:throw
-- 
2.43.0


From b443198417531f3512059c9cb296bc8ac0c879f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 20/81] fix: repeat counts reaching beyond the items read
 neither overrun the data nor lose the next record

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index 7c47964..b3b4fb2 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -36,6 +36,7 @@
 #ifndef OPM_ECLIPSEGRIDPARSERHELPERS_HEADER
 #define OPM_ECLIPSEGRIDPARSERHELPERS_HEADER
 
+#include <algorithm>
 #include <limits>
 #include <string>
 #include <istream>
@@ -163,7 +164,9 @@ namespace
                     } else {
                         is >> candidate;         // Use candidate 'multipler' times
                         for (int i=0; i<multiplier; ++i, ++num_values) {
-                            data[num_values] = candidate;
+                            if (num_values < max_values) {
+                                data[num_values] = candidate;
+                            }
                         }
                     }
                 } else {
@@ -179,7 +182,8 @@ namespace
         if (!is) {
             THROW("Encountered error while reading data values.");
         }
-        return num_values;
+        // A repeat count may reach beyond the items asked for.
+        return std::min(num_values, max_values);
     }
 
 
-- 
2.43.0


From d3215d4d0b0f9f9489708c13f95d6ebd3e8de257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:35 +0000
Subject: [PATCH 21/81] fix: defaults in WELSPECS may span the datum depth

---
 opm/core/io/eclipse/SpecialEclipseFields.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/opm/core/io/eclipse/SpecialEclipseFields.hpp b/opm/core/io/eclipse/SpecialEclipseFields.hpp
index 5872fbe..de79809 100644
--- a/opm/core/io/eclipse/SpecialEclipseFields.hpp
+++ b/opm/core/io/eclipse/SpecialEclipseFields.hpp
@@ -825,13 +825,12 @@ struct WELSPECS : public SpecialBase
             WelspecsLine welspecs_line;
             welspecs_line.name_ = wellname;
             welspecs_line.group_ = readString(is);
-            std::vector<int> int_data(2,1);
-            readDefaultedVectorData(is, int_data, 2);
-            welspecs_line.I_ = int_data[0];
-            welspecs_line.J_ = int_data[1];
-            std::vector<double> double_data(1,-1.0);
-            readDefaultedVectorData(is, double_data, 1);
-            welspecs_line.datum_depth_BHP_ = double_data[0];
+            std::vector<double> item_data(3, 1.0);
+            item_data[2] = -1.0;
+            readDefaultedVectorData(is, item_data, 3);
+            welspecs_line.I_ = int(item_data[0]);
+            welspecs_line.J_ = int(item_data[1]);
+            welspecs_line.datum_depth_BHP_ = item_data[2];
             welspecs_line.pref_phase_ = readString(is);
 
             // HACK! Ignore items 7-13.
-- 
2.43.0


From 6da9fac5587e21373d7c4a7bfcf56a6d56e3fe53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:34 +0000
Subject: [PATCH 22/81] fix: a slash inside a comment does not end the rest of
 a record

---
 opm/core/io/eclipse/EclipseGridParserHelpers.hpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
index b3b4fb2..7e3aa8c 100644
--- a/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
+++ b/opm/core/io/eclipse/EclipseGridParserHelpers.hpp
@@ -59,7 +59,19 @@ namespace
 
     inline std::istream& ignoreSlashLine(std::istream& is)
     {
-	is.ignore(std::numeric_limits<int>::max(), '/');
+	// A slash inside a comment does not end the record.
+	bool after_space = true;
+	while (is.good() && is.peek() != std::istream::traits_type::eof()) {
+	    const char c = is.get();
+	    if (c == '/') {
+		break;
+	    }
+	    if (after_space && c == '-' && is.peek() == int('-')) {
+		is >> ignoreLine;
+		continue;
+	    }
+	    after_space = (c == ' ' || c == '\t' || c == '\n' || c == '\r');
+	}
 	is.ignore(std::numeric_limits<int>::max(), '\n');
 	return is;
     }
-- 
2.43.0


From 719495c25e16351b1606f94d636ed3c88a79cef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 23/81] fix: blank lines in parameter files and empty parameter
 names do not hang

---
 opm/core/utility/parameters/ParameterGroup.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index ce85d4d..c6691fd 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -127,6 +127,7 @@ namespace Opm {
                     int fpos = parameter.find(ID_delimiter_assignment);
                     if (fpos == int(std::string::npos)) {
                         std::cerr << "WARNING: No '" << ID_delimiter_assignment << "' found on line " << lineno << ".\n";
+                        continue;
                     }
                     int pos = fpos + ID_delimiter_assignment.size();
                     int spos = parameter.find(ID_delimiter_assignment, pos);
@@ -208,6 +209,10 @@ namespace Opm {
         {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    while (name_path.first == "") {
+		if (name_path.second == "") {
+		    std::cerr << "ERROR: Cannot insert a parameter without a name.\n";
+		    throw std::exception();
+		}
 		name_path = split(name_path.second);
 	    }
 	    map_type::const_iterator it = map_.find(name_path.first);
-- 
2.43.0


From c86138fd4723e0cca945d644a50b5e6002982d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 24/81] fix: a group moved by merging asks its new parent, not
 the destroyed one

---
 opm/core/utility/parameters/ParameterGroup.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index c6691fd..7af26e3 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -178,6 +178,10 @@ namespace Opm {
 	    std::pair<std::string, std::string> name_path = split(name);
 	    map_type::const_iterator it = map_.find(name_path.first);
 	    assert(name_path.second == "");
+	    if (data->getTag() == ID_xmltag__param_grp) {
+		// The group that enclosed it may be merged away and destroyed.
+		dynamic_cast<ParameterGroup&>(*data).parent_ = this;
+	    }
 	    if (it == map_.end()) {
 		map_[name] = data;
 	    } else {
-- 
2.43.0


From beb84857e98ccd61cf38ac04618d16a02fb9289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 25/81] fix: has() answers for names below a parameter instead
 of throwing

---
 opm/core/utility/parameters/ParameterGroup.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/parameters/ParameterGroup.cpp b/opm/core/utility/parameters/ParameterGroup.cpp
index 7af26e3..7be2ad1 100644
--- a/opm/core/utility/parameters/ParameterGroup.cpp
+++ b/opm/core/utility/parameters/ParameterGroup.cpp
@@ -75,6 +75,8 @@ namespace Opm {
 		return false;
 	    } else if (name_path.second == "") {
 		return true;
+	    } else if ((*it).second->getTag() != ID_xmltag__param_grp) {
+		return false;
 	    } else {
 		ParameterGroup& pg = dynamic_cast<ParameterGroup&>(*(*it).second);
 		return pg.has(name_path.second);
-- 
2.43.0


From ccef00c9b50e3f75601ab575ba28a9849f661d76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:35 +0000
Subject: [PATCH 26/81] fix: ParameterRequirementNonEmpty accepts non-empty
 strings, not empty ones

---
 opm/core/utility/parameters/ParameterRequirement.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/parameters/ParameterRequirement.hpp b/opm/core/utility/parameters/ParameterRequirement.hpp
index c9b19f7..670fc54 100644
--- a/opm/core/utility/parameters/ParameterRequirement.hpp
+++ b/opm/core/utility/parameters/ParameterRequirement.hpp
@@ -167,7 +167,7 @@ namespace Opm {
 	/// @return
 	struct ParameterRequirementNonEmpty {
 	    std::string operator()(const std::string& x) const {
-		if (x != "") {
+		if (x == "") {
 		    return "The string was empty.";
 		} else {
 		    return "";
-- 
2.43.0


From b47ace8402ce76fefcfc55caa2622d005cd4239c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:22 +0000
Subject: [PATCH 27/81] fix: face nodes are ordered by handedness alone when
 ZCORN decreases along pillars

---
 opm/core/grid/cpgpreprocess/preprocess.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 3b465c2..64e1c93 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -928,12 +928,13 @@ void process_grdecl(const struct grdecl   *in,
             out->node_coordinates[i] *= sign;
     }
 
-    /* If an odd number of coordinate reflections were applied, the
+    /* In a left-handed coordinate system (as determined from the
+     * unmodified input, i.e., including the sign of ZCORN), the
      * processing routines--especially facetopology()--will produce
      * node orderings that lead to normals pointing from 2 to 1.
      * Reverse nodes to reestablish expected normal direction (and
      * positive cell volumes). */
-    if (left_handed ^ (sign == -1)) {
+    if (left_handed) {
         reverse_face_nodes(out);
     }
 }
-- 
2.43.0


From dc374876f592db4525ad264d632d711fad844efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 28/81] fix: pillar depths change sign together with ZCORN, so
 that sloping pillars keep their place

---
 opm/core/grid/cpgpreprocess/preprocess.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/opm/core/grid/cpgpreprocess/preprocess.c b/opm/core/grid/cpgpreprocess/preprocess.c
index 64e1c93..3be3e2f 100644
--- a/opm/core/grid/cpgpreprocess/preprocess.c
+++ b/opm/core/grid/cpgpreprocess/preprocess.c
@@ -557,6 +557,23 @@ copy_and_permute_zcorn(int nx, int ny, int nz, const double *in,
     return out;
 }
 
+/* ------------------------------------------------------------------ */
+static double*
+copy_coord(int nx, int ny, const double *in, double sign, double *out)
+/* ------------------------------------------------------------------ */
+{
+    int i;
+
+    /* The depths that define the pillars must undergo the same change
+     * of sign as ZCORN.  Otherwise, points on sloping pillars would be
+     * evaluated at the wrong depth. */
+    for (i = 0; i < 6 * (nx + 1) * (ny + 1); i++) {
+        out[i] = (i % 3 == 2) ? sign * in[i] : in[i];
+    }
+
+    return out;
+}
+
 /* ------------------------------------------------------------------ */
 static int
 get_zcorn_sign(int nx, int ny, int nz, const int *actnum,
@@ -772,6 +789,7 @@ void process_grdecl(const struct grdecl   *in,
     int    *global_cell_index;
 
     double *zcorn;
+    double *coord;
 
     const size_t BIGNUM = 64;
     const int    nx = in->dims[0];
@@ -836,7 +854,8 @@ void process_grdecl(const struct grdecl   *in,
     sign      = get_zcorn_sign(nx, ny, nz, in->actnum, in->zcorn, &error);
     g.zcorn   = copy_and_permute_zcorn(nx, ny, nz, in->zcorn, sign, zcorn);
 
-    g.coord   = in->coord;
+    coord     = malloc (6 * ((size_t)nx + 1) * ((size_t)ny + 1) * sizeof *coord);
+    g.coord   = copy_coord(nx, ny, in->coord, sign, coord);
 
 
     /* allocate space for cornerpoint numbers plus INT_MIN (INT_MAX)
@@ -845,6 +864,7 @@ void process_grdecl(const struct grdecl   *in,
 
     finduniquepoints(&g, plist, tolerance, out);
 
+    free (coord);
     free (zcorn);
     free (actnum);
 
-- 
2.43.0


From 5607f30ce0514a084cfc5b80e89de5ee79981b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 29/81] fix: an imposed group production limit is the group's
 active control

---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 5e9c4ed..30b4659 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -390,6 +390,7 @@ namespace Opm
                 applyProdGroupControl(production_mode_violated, 
                                       getTarget(production_mode_violated),
                                       true);
+                prodSpec().control_mode_ = production_mode_violated;
                 return false;
             case ProductionSpecification::NONE_P:
                 // Do nothing
-- 
2.43.0


From ca900d1e758215484a02a55f63dda76dd99cbb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 30/81] fix: checking limits does not reopen a closed well

---
 opm/core/wells/WellsGroup.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 30b4659..04e8f3b 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -651,9 +651,14 @@ namespace Opm
             }
         }
 
+        const WellControls& ctrls = *wells_->ctrls[self_index_];
+        if (ctrls.current < 0) {
+            // A closed well has no constraints to violate.
+            return true;
+        }
+
         // Check constraints.
         bool is_producer = (wells_->type[self_index_] == PRODUCER);
-        const WellControls& ctrls = *wells_->ctrls[self_index_];
         for (int ctrl_index = 0; ctrl_index < ctrls.num; ++ctrl_index) {
             if (ctrl_index == ctrls.current || ctrl_index == group_control_index_) {
                 // We do not check constraints that either were used
-- 
2.43.0


From 2c3d65df0fa9ba3c61272bb9883bd4d991f4dbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:34 +0000
Subject: [PATCH 31/81] fix: the worst offending well is the open producer that
 produces most

---
 opm/core/wells/WellsGroup.cpp | 20 +++++++++++++++-----
 opm/core/wells/WellsGroup.hpp |  3 ++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 04e8f3b..dfa3891 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -381,10 +381,15 @@ namespace Opm
         if (production_violated) {
             switch (prodSpec().procedure_) {
             case ProductionSpecification::WELL:
-                getWorstOffending(well_reservoirrates_phase,
-                                  well_surfacerates_phase,
-                                  production_mode_violated).first->shutWell();
+            {
+                WellNode* worst = getWorstOffending(well_reservoirrates_phase,
+                                                    well_surfacerates_phase,
+                                                    production_mode_violated).first;
+                if (worst) {
+                    worst->shutWell();
+                }
                 return false;
+            }
             case ProductionSpecification::RATE:
                 std::cout << "Applying group control" << std::endl;
                 applyProdGroupControl(production_mode_violated, 
@@ -424,12 +429,14 @@ namespace Opm
                                                                const std::vector<double>& well_surfacerates_phase,
                                                                ProductionSpecification::ControlMode mode)
     {
-        std::pair<WellNode*, double> max;
+        std::pair<WellNode*, double> max(static_cast<WellNode*>(0), 0.0);
         for (size_t i = 0; i < children_.size(); i++) {
             std::pair<WellNode*, double> child_max = children_[i]->getWorstOffending(well_reservoirrates_phase,
                                                                                      well_surfacerates_phase,
                                                                                      mode);
-            if (i == 0 || max.second < child_max.second) {
+            // Production rates are negative.
+            if (child_max.first
+                && (!max.first || std::fabs(max.second) < std::fabs(child_max.second))) {
                 max = child_max;
             }
         }
@@ -773,6 +780,9 @@ namespace Opm
                                                              const std::vector<double>& well_surfacerates_phase,
                                                              ProductionSpecification::ControlMode mode)
     {
+        if (wells_->type[self_index_] != PRODUCER || wells_->ctrls[self_index_]->current < 0) {
+            return std::pair<WellNode*, double>(static_cast<WellNode*>(0), 0.0);
+        }
         const int np = phaseUsage().num_phases;
         const int index = self_index_*np;
         return std::pair<WellNode*, double>(this,
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 0da2008..30d1d2d 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -150,7 +150,8 @@ namespace Opm
         ///                         with all phase rates of a single well adjacent in the array.
         /// \param[in]   mode
         ///                         The relevant control mode to find the maximum over.
-        /// \return first will be a pointer to the worst offending well, second will be the obtained value at that well.
+        /// \return first will be a pointer to the worst offending well (the open producer with
+        ///         the highest production, NULL if there is none), second will be the obtained value at that well.
         virtual std::pair<WellNode*, double> getWorstOffending(const std::vector<double>& well_reservoirrates_phase,
                                                                const std::vector<double>& well_surfacerates_phase,
                                                                ProductionSpecification::ControlMode mode) = 0;
-- 
2.43.0


From 745c80cc568c0d46b128d1bff311cf3983f2cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:00 +0000
Subject: [PATCH 32/81] fix: a shut well is not reopened by shutting it again
 or by group controls

---
 opm/core/wells/WellsGroup.cpp | 14 +++++++++++---
 opm/core/wells/WellsGroup.hpp |  4 +++-
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index dfa3891..7957335 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -637,7 +637,8 @@ namespace Opm
           wells_(0),
           self_index_(-1),
           group_control_index_(-1),
-          shut_well_(true) // This is default for now
+          shut_well_(true), // This is default for now
+          closed_(false)
     {
     }
 
@@ -751,6 +752,11 @@ namespace Opm
     
     void WellNode::shutWell() 
     {
+        closed_ = true;
+        if (wells_->ctrls[self_index_]->current < 0) {
+            // Already shut.
+            return;
+        }
         if (shut_well_) {
         	// We set the tilde of the current control
             // set_current_control(self_index_, -1, wells_);
@@ -830,7 +836,8 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = target;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        // A well that has been shut stays so.
+        set_current_control(self_index_, closed_ ? ~group_control_index_ : group_control_index_, wells_);
     }
 
 
@@ -942,7 +949,8 @@ namespace Opm
             wells_->ctrls[self_index_]->target[group_control_index_] = ntarget;
             std::copy(distr, distr + np, wells_->ctrls[self_index_]->distr + np*group_control_index_);
         }
-        set_current_control(self_index_, group_control_index_, wells_);
+        // A well that has been shut stays so.
+        set_current_control(self_index_, closed_ ? ~group_control_index_ : group_control_index_, wells_);
     }
 
     
diff --git a/opm/core/wells/WellsGroup.hpp b/opm/core/wells/WellsGroup.hpp
index 30d1d2d..8488438 100644
--- a/opm/core/wells/WellsGroup.hpp
+++ b/opm/core/wells/WellsGroup.hpp
@@ -327,7 +327,8 @@ namespace Opm
         
         virtual int numberOfLeafNodes();
         
-        // Shuts the well (in the well struct)
+        // Shuts the well (in the well struct). The well stays shut
+        // also when group controls are applied later.
         void shutWell();
         
        virtual std::pair<WellNode*, double> getWorstOffending(const std::vector<double>& well_reservoirrates_phase,
@@ -398,6 +399,7 @@ namespace Opm
         int self_index_;
         int group_control_index_;
         bool shut_well_;
+        bool closed_;
     };
 
     /// Creates the WellsGroupInterface for the given name
-- 
2.43.0


From 479c38fb5c3a8137f61a466b8d54559fae4ce562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 33/81] fix: group targets leave individually controlled wells
 in subgroups alone

---
 opm/core/wells/WellsGroup.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 7957335..02dc390 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -269,7 +269,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->injectionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyInjGroupControl(control_mode, child_target, true);
+                children_[i]->applyInjGroupControl(control_mode, child_target, forced);
             }
             injSpec().control_mode_ = InjectionSpecification::FLD;
         }
@@ -294,7 +294,7 @@ namespace Opm
             }
             for (size_t i = 0; i < children_.size(); ++i) {
                 const double child_target = target * children_[i]->productionGuideRate(!forced) / my_guide_rate;
-                children_[i]->applyProdGroupControl(control_mode, child_target, true);
+                children_[i]->applyProdGroupControl(control_mode, child_target, forced);
             }
             prodSpec().control_mode_ = ProductionSpecification::FLD;
         }
-- 
2.43.0


From d3269403e0aa083ad1d42b352f66351417e352b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 34/81] fix: apply gas rate targets of production groups

---
 opm/core/wells/WellsGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 02dc390..4151c62 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -449,6 +449,7 @@ namespace Opm
         switch (prod_mode) {
         case ProductionSpecification::ORAT:
         case ProductionSpecification::WRAT:
+        case ProductionSpecification::GRAT:
         case ProductionSpecification::LRAT:
         case ProductionSpecification::RESV:
         {
-- 
2.43.0


From 3f28b43a12c8ba994fd9df3f047669f4fb0eca31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:19 +0000
Subject: [PATCH 35/81] fix: apply reinjection controls of groups below the
 root

---
 opm/core/wells/WellsGroup.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opm/core/wells/WellsGroup.cpp b/opm/core/wells/WellsGroup.cpp
index 4151c62..060b9d9 100644
--- a/opm/core/wells/WellsGroup.cpp
+++ b/opm/core/wells/WellsGroup.cpp
@@ -624,6 +624,12 @@ namespace Opm
             }
             
         }
+        else {
+            // Call all children
+            for (size_t i = 0; i < children_.size(); ++i) {
+                children_[i]->applyExplicitReinjectionControls(well_reservoirrates_phase, well_surfacerates_phase);
+            }
+        }
     }
 
     // ==============    WellNode members   ============
-- 
2.43.0


From 5c81d9ae0e0128d859d1fb5bdc2bd65575e7c289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 36/81] fix: completions outside the grid are refused instead
 of perforating another cell

---
 opm/core/wells/WellsManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 328abd4..9e313a3 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -367,6 +367,11 @@ namespace Opm
                         kz2 = cpgdim[2] - 1;
                     }
 
+                    if (ix < 0 || ix >= cpgdim[0] || jy < 0 || jy >= cpgdim[1] || kz2 >= cpgdim[2]) {
+                        THROW("Completion outside the grid: i,j,k1,k2 indices " << ix << ' ' << jy << ' '
+                              << kz1 << ' ' << kz2 << " (well = " << name << ')');
+                    }
+
                     for (int kz = kz1; kz <= kz2; ++kz) {
                         int cart_grid_indx = ix + cpgdim[0]*(jy + cpgdim[1]*kz);
                         std::map<int, int>::const_iterator cgit =
-- 
2.43.0


From 050b005f167ae4c199263070338cafed865e2ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 37/81] fix: a completion record with a well name template
 applies to all matching wells

---
 opm/core/wells/WellsManager.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 9e313a3..2e85357 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -399,7 +399,6 @@ namespace Opm
                         wellperf_data[wix].push_back(pd);
                     }
                     found = true;
-                    break;
                 }
             }
             if (!found) {
-- 
2.43.0


From 057d22ec52bc19a93eb99ee836287984ed72148f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:21 +0000
Subject: [PATCH 38/81] fix: a well specified more than once is one node of the
 well tree

---
 opm/core/wells/WellsManager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 2e85357..4310e34 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -763,8 +763,9 @@ namespace Opm
                 well_collection_.addChild(it->first, it->second, deck);
             }
         }
-        for (size_t i = 0; i < welspecs.welspecs.size(); ++i) {
-            WelspecsLine line = welspecs.welspecs[i];
+        for (int w = 0; w < num_wells; ++w) {
+            // Only the last line is used for each well.
+            const WelspecsLine& line = welspecs.welspecs[well_data[w].welspecsline];
             well_collection_.addChild(line.name_, line.group_, deck);
         }
 
-- 
2.43.0


From 84d4dd37b852f5184f00b1452f2031f903b3483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 39/81] fix: wells under group control stay shut when the deck
 shuts them

---
 opm/core/wells/WellsManager.cpp | 53 ++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 21 deletions(-)

diff --git a/opm/core/wells/WellsManager.cpp b/opm/core/wells/WellsManager.cpp
index 4310e34..3dea637 100644
--- a/opm/core/wells/WellsManager.cpp
+++ b/opm/core/wells/WellsManager.cpp
@@ -49,9 +49,20 @@ namespace
         double reference_bhp_depth;
         // Opm::InjectionSpecification::InjectorType injected_phase;
         int welspecsline;
+        int requested_control; // Index of requested control, -1 if (or until) under group control.
+        bool shut;
     };
 
 
+    // Make the requested control of a well its current one. A shut well
+    // holds the complement, so that the control can be retrieved later.
+    void setRequestedControl(const WellData& wd, const int well_index, Wells* w)
+    {
+        const int cpos = wd.requested_control;
+        set_current_control(well_index, (wd.shut && cpos >= 0) ? ~cpos : cpos, w);
+    }
+
+
     struct PerfData
     {
         int cell;
@@ -294,6 +305,8 @@ namespace Opm
                 // perforation.
                 wd.reference_bhp_depth = (refdepth < 0.0) ? -1e100 : refdepth;
                 wd.welspecsline = w;
+                wd.requested_control = -1;
+                wd.shut = false;
                 well_data.push_back(wd);
             } else {
                 // Existing well, change data.
@@ -531,15 +544,14 @@ namespace Opm
                             THROW("Failure occured appending controls for well " << well_names[wix]);
                         }
                         InjectionControl::Mode mode = InjectionControl::mode(wci_line.control_mode_);
-                        int cpos = control_pos[mode];
+                        const int cpos = control_pos[mode];
                         if (cpos == -1 && mode != InjectionControl::GRUP) {
                             THROW("Control for " << wci_line.control_mode_ << " not specified in well " << well_names[wix]);
                         }
                         // We need to check if the well is shut or not
-                        if (wci_line.open_shut_flag_ == "SHUT") {
-                        	cpos = ~cpos;
-                        }
-                        set_current_control(wix, cpos, w_);
+                        well_data[wix].requested_control = cpos;
+                        well_data[wix].shut = (wci_line.open_shut_flag_ == "SHUT");
+                        setRequestedControl(well_data[wix], wix, w_);
 
                         // Set well component fraction.
                         double cf[3] = { 0.0, 0.0, 0.0 };
@@ -659,15 +671,14 @@ namespace Opm
                             THROW("Failure occured appending controls for well " << well_names[wix]);
                         }
                         ProductionControl::Mode mode = ProductionControl::mode(wcp_line.control_mode_);
-                        int cpos = control_pos[mode];
+                        const int cpos = control_pos[mode];
                         if (cpos == -1 && mode != ProductionControl::GRUP) {
                             THROW("Control mode type " << mode << " not present in well " << well_names[wix]);
                         }
-                        // If it's shut, we complement the cpos
-                        if (wcp_line.open_shut_flag_ == "SHUT") {
-                        	cpos = ~cpos; // So we can easily retrieve the cpos later
-                        }
-                        set_current_control(wix, cpos, w_);
+                        // We need to check if the well is shut or not
+                        well_data[wix].requested_control = cpos;
+                        well_data[wix].shut = (wcp_line.open_shut_flag_ == "SHUT");
+                        setRequestedControl(well_data[wix], wix, w_);
                     }
                 }
                 if (!well_found) {
@@ -737,17 +748,11 @@ namespace Opm
                 }
                 const int index = it->second;
                 if (line.openshutflag_ == "SHUT") {
-                    int& cur_ctrl = w_->ctrls[index]->current;
-                    if (cur_ctrl >= 0) {
-                        cur_ctrl = ~cur_ctrl;
-                    }
-                    ASSERT(w_->ctrls[index]->current < 0);
+                    well_data[index].shut = true;
+                    setRequestedControl(well_data[index], index, w_);
                 } else if (line.openshutflag_ == "OPEN") {
-                    int& cur_ctrl = w_->ctrls[index]->current;
-                    if (cur_ctrl < 0) {
-                        cur_ctrl = ~cur_ctrl;
-                    }
-                    ASSERT(w_->ctrls[index]->current >= 0);
+                    well_data[index].shut = false;
+                    setRequestedControl(well_data[index], index, w_);
                 } else {
                     THROW("Unknown Open/close keyword: \"" << line.openshutflag_<< "\". Allowed values: OPEN, SHUT.");
                 }
@@ -804,6 +809,12 @@ namespace Opm
             }
         }
         well_collection_.setWellsPointer(w_);
+        // Wells shut by the deck are not opened by group controls.
+        for (int w = 0; w < num_wells; ++w) {
+            if (well_data[w].shut) {
+                well_collection_.getLeafNodes()[w]->shutWell();
+            }
+        }
         well_collection_.applyGroupControls();
     }
 
-- 
2.43.0


From 4a09e847454be7b2b535d4f293bff361ae3fc9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 40/81] fix: computeWDP() appended to its output, so later
 solves used the heads of the first

---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 468dad6..da009f2 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -489,6 +489,7 @@ namespace Opm
         const size_t np = per_grid_cell ?
             saturations.size()/grid.number_of_cells
             : saturations.size()/wells.well_connpos[nw];
+        wdp.clear();
         // Simple for now:
         for (int i = 0; i < nw; i++) {
             double depth_ref = wells.depth_ref[i];
-- 
2.43.0


From 1d861fab10d2dd71d42cfa8ccf5ec8671ac61d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:20 +0000
Subject: [PATCH 41/81] fix: IncompTpfa and computeWDP() read past the arrays
 of two-dimensional grids with wells

---
 opm/core/pressure/IncompTpfa.cpp   | 2 +-
 opm/core/utility/miscUtilities.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/IncompTpfa.cpp b/opm/core/pressure/IncompTpfa.cpp
index d9e3aac..4ee889a 100644
--- a/opm/core/pressure/IncompTpfa.cpp
+++ b/opm/core/pressure/IncompTpfa.cpp
@@ -336,7 +336,7 @@ namespace Opm
         // wdp_
         if (wells_) {
             Opm::computeWDP(*wells_, grid_, state.saturation(), props_.density(),
-                            gravity_ ? gravity_[2] : 0.0, true, wdp_);
+                            gravity_ ? gravity_[grid_.dimensions - 1] : 0.0, true, wdp_);
         }
         // totmob_, omega_, gpress_omegaweighted_
         if (gravity_) {
diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index da009f2..1f5a339 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -497,7 +497,7 @@ namespace Opm
                 int cell = wells.well_cells[j];
 
                 // Is this correct wrt. depth_ref?
-                double cell_depth = grid.cell_centroids[3 * cell + 2];
+                double cell_depth = grid.cell_centroids[grid.dimensions * cell + grid.dimensions - 1];
 
                 double saturation_sum = 0.0;
                 for (size_t p = 0; p < np; p++) {
-- 
2.43.0


From 28095780fcf02bcc3df8a20cc22753ec06e4bfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 42/81] fix: upwinding without total flux took the oil mobility
 from the wrong side for one orientation of the face

---
 opm/core/transport/minimal/spu_explicit.c | 2 +-
 opm/core/transport/minimal/spu_implicit.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index 91b12bc..f903a63 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -68,7 +68,7 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
 
             else {
                 /* Oil mobility */
-                if (dflux[f]>0) {
+                if (dflux[f]>0 || (dflux[f]==0 && gflux[f]<0)) {
                     m2 = mob[2*c1+1];
                 }
                 else {
diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index d544714..00d92c4 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -245,7 +245,7 @@ phase_upwind_mobility(double darcyflux, double gravityflux,  int i, int c,
     else {
         
         /* Positive oil phase flux */
-        if (darcyflux>0) {
+        if (darcyflux>0 || (darcyflux==0 && gravityflux<0)) {
             m [1]  =  mob[2*i+1];
             dm[1]  = dmob[2*i+1];
             cix[1] = i;
-- 
2.43.0


From 90a68fec468594b8b1ef8c5f37860dcd42754749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 43/81] fix: spu_explicit() divided by zero between segregated
 cells where neither phase can move

---
 opm/core/transport/minimal/spu_explicit.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/opm/core/transport/minimal/spu_explicit.c b/opm/core/transport/minimal/spu_explicit.c
index f903a63..6672dda 100644
--- a/opm/core/transport/minimal/spu_explicit.c
+++ b/opm/core/transport/minimal/spu_explicit.c
@@ -84,10 +84,11 @@ spu_explicit(struct UnstructuredGrid *g, double *s0, double *s, double *mob,
             }
 
             /* Water flux */            
-            assert(m1+m2>0.0);
-            flux = m1/(m1+m2)*(dflux[f] + m2*gflux[f]);
-            s[c1] -= flux*dt;
-            s[c2] += flux*dt;
+            if (m1+m2 > 0.0) {
+                flux = m1/(m1+m2)*(dflux[f] + m2*gflux[f]);
+                s[c1] -= flux*dt;
+                s[c2] += flux*dt;
+            }
         }
     }
 }   
-- 
2.43.0


From f35c2ea4cd323f47bc70627ac21eea8df099ba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:09 +0000
Subject: [PATCH 44/81] fix: spu_implicit() wrote past its matrix on grids with
 few boundary faces

---
 opm/core/transport/minimal/spu_implicit.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/transport/minimal/spu_implicit.c b/opm/core/transport/minimal/spu_implicit.c
index 00d92c4..33622c4 100644
--- a/opm/core/transport/minimal/spu_implicit.c
+++ b/opm/core/transport/minimal/spu_implicit.c
@@ -135,7 +135,7 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
               void (*linear_solver)(int, int*, int*, double *, double *, double *))
 {
     int    nc   = g->number_of_cells;
-    int    nhf  = g->cell_facepos[nc]; /* Too much */
+    int    nhf  = g->cell_facepos[nc];
     double infnorm;
     double *b; 
     double *x;
@@ -148,8 +148,8 @@ spu_implicit(struct UnstructuredGrid *g, double *s0, double *s, double h, double
     sparse_t      *S = malloc(sizeof *S);
     if (S) {
         S->ia = malloc((nc+1) * sizeof *S->ia);
-        S->ja = malloc( nhf   * sizeof *S->ja);
-        S->sa = malloc( nhf   * sizeof *S->sa);
+        S->ja = malloc((nc+nhf) * sizeof *S->ja);
+        S->sa = malloc((nc+nhf) * sizeof *S->sa);
         S->n  = nc;
         S->m  = nc;
     }
-- 
2.43.0


From bda1cbdcf363f07d9a1e572c0f07917794a6a6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:15 +0000
Subject: [PATCH 45/81] fix: SinglePointUpwindTwoPhase divided by zero between
 segregated cells where neither phase can move

---
 opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
index 92d8703..74b7a75 100644
--- a/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
+++ b/opm/core/transport/implicit/SinglePointUpwindTwoPhase.hpp
@@ -385,7 +385,10 @@ namespace Opm {
             assert (! ((m[0] < 0) || (m[1] < 0)));
 
             double mt = m[0] + m[1];
-            assert (mt > 0);
+            if (! (mt > 0)) {
+                // Segregated cells, neither phase can move.
+                return;
+            }
 
             double sgn  = 2.0*(n[0] == c) - 1.0;
             dflux      *= sgn;
-- 
2.43.0


From 9acea966bec82766a528072511f10a70e968d5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:48 +0000
Subject: [PATCH 46/81] fix: TofReorder gave negative tracer values in source
 cells with inflow from other cells

---
 opm/core/tof/TofReorder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 618b541..5e9d17b 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -172,7 +172,8 @@ namespace Opm
                 // face.
                 if (other != -1) {
                     upwind_term += flux*tof_[other];
-                    for (int tr = 0; tr < num_tracers_; ++tr) {
+                    // Do not change tracer solution in source cells.
+                    for (int tr = 0; tr < num_tracers_ && source_[cell] <= 0.0; ++tr) {
                         tracer_[num_tracers_*cell + tr] += flux*tracer_[num_tracers_*other + tr];
                     }
                 }
-- 
2.43.0


From 2a5d0daa66a41b4913fe456a6bcabae32033d375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:15 +0000
Subject: [PATCH 47/81] fix: multidimensional upwind time-of-flight was NaN in
 cells with a face without flow

---
 opm/core/tof/TofReorder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/tof/TofReorder.cpp b/opm/core/tof/TofReorder.cpp
index 5e9d17b..819130c 100644
--- a/opm/core/tof/TofReorder.cpp
+++ b/opm/core/tof/TofReorder.cpp
@@ -220,7 +220,7 @@ namespace Opm
             // Add flux to upwind_term or downwind_term_[face|cell_factor].
             if (flux < 0.0) {
                 upwind_term += flux*face_tof_[f];
-            } else {
+            } else if (flux > 0.0) {
                 double fterm, cterm_factor;
                 multidimUpwindTerms(f, cell, fterm, cterm_factor);
                 downwind_term_face += fterm*flux;
-- 
2.43.0


From 0605a06d13a2cf55fb621dc282e94847ee5dd4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:56 +0000
Subject: [PATCH 48/81] fix: MonotCubicInterpolator::read() took lines with one
 column too few as data

---
 opm/core/utility/MonotCubicInterpolator.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index f2e0200..605da7d 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -142,9 +142,8 @@ read(const std::string & datafilename, int xColumn, int fColumn)
     int columnindex = 0;
     std::vector<double> value; 
     if (linestring.size() > 0 && linestring.at(0) != '#') {
-        while (!(strs.rdstate() & std::ios::failbit)) {
-            double tmp;
-            strs >> tmp;
+        double tmp;
+        while (strs >> tmp) {
             value.push_back(tmp);
             columnindex++;
         }
-- 
2.43.0


From 9c8dfa1afef48a3b134266837deca0339e8ba436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 49/81] fix: MonotCubicInterpolator::chopFlatEndpoints() used
 iterators of erased points

---
 opm/core/utility/MonotCubicInterpolator.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 605da7d..98de0e7 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -527,9 +527,14 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its right value from the left end.
     while ((xf_next_iterator != data.end()) && 
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator++;
         data.erase(xf_iterator);
-	xf_iterator++;
+        xf_iterator = xf_next_iterator;
+        xf_next_iterator++;
+    }
+
+    if (getSize() < 2) {
+        // All data points were similar, only the last one remains.
+        return;
     }
 
     xf_iterator = data.end(); 
@@ -539,9 +544,9 @@ chopFlatEndpoints(const double epsilon) {
     // Erase data points that are similar to its left value from the right end.
     while ((xf_next_iterator != data.begin()) &&
            (fabs(xf_iterator->second - xf_next_iterator->second) < epsilon )) {
-        xf_next_iterator--;
         data.erase(xf_iterator);
-	xf_iterator--;
+        xf_iterator = xf_next_iterator;
+        xf_next_iterator--;
     }
     
     // Finished chopping, so recompute function data:
-- 
2.43.0


From 90ecaa75df61e4424e04c505f45fb9d298b7e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 50/81] fix: MonotCubicInterpolator::shrinkFlatAreas() left the
 curve without derivatives

---
 opm/core/utility/MonotCubicInterpolator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 98de0e7..1c64b09 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -616,7 +616,9 @@ shrinkFlatAreas(const double epsilon) {
             xf_next_iterator++;
         }
     }
-    
+
+    // Finished shrinking, so recompute function data:
+    computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 8b83f4b52b14547a7c5b64d3b7237880a29b009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 51/81] fix: MonotCubicInterpolator::scaleData() kept the
 monotonicity flags of the data before scaling

---
 opm/core/utility/MonotCubicInterpolator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 1c64b09..6e5c111 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -733,6 +733,8 @@ scaleData(double factor) {
       it->second  *= factor ;
     } 
   } 
+  // The factor may change the monotonicity of the data.
+  computeInternalFunctionData();
 }
 
 
-- 
2.43.0


From 0d9db4b50d42f338158625fa4daeb51b172c509f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:57 +0000
Subject: [PATCH 52/81] fix: MonotCubicInterpolator::getMissingX() used an
 iterator while incrementing it

---
 opm/core/utility/MonotCubicInterpolator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/utility/MonotCubicInterpolator.cpp b/opm/core/utility/MonotCubicInterpolator.cpp
index 6e5c111..801e9d6 100644
--- a/opm/core/utility/MonotCubicInterpolator.cpp
+++ b/opm/core/utility/MonotCubicInterpolator.cpp
@@ -327,7 +327,9 @@ getMissingX() const throw(const char*)
     }
   }
   
-  double newXvalue = ((*maxfDiffPair_iterator).first + ((*(++maxfDiffPair_iterator)).first))/2;
+  map<double,double>::const_iterator maxfDiffNext_iterator = maxfDiffPair_iterator;
+  ++maxfDiffNext_iterator;
+  double newXvalue = (maxfDiffPair_iterator->first + maxfDiffNext_iterator->first)/2;
   return make_pair(newXvalue, maxfDiffValue);
   
 }
-- 
2.43.0


From 012920b0c41b76a09429d920f2cf6beacd6ce477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:11 +0000
Subject: [PATCH 53/81] fix: NonuniformTableLinear::inverse() of decreasing
 tables ignored rescaleDomain()

---
 opm/core/utility/NonuniformTableLinear.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/utility/NonuniformTableLinear.hpp b/opm/core/utility/NonuniformTableLinear.hpp
index aac2db2..82ec136 100644
--- a/opm/core/utility/NonuniformTableLinear.hpp
+++ b/opm/core/utility/NonuniformTableLinear.hpp
@@ -151,6 +151,9 @@ namespace Opm
         for (int i = 0; i < int(x_values_.size()); ++i) {
             x_values_[i] = (x_values_[i] - a)*(d - c)/(b - a) + c;
         }
+        // The reversed copies used by inverse() are out of date.
+        x_values_reversed_.clear();
+        y_values_reversed_.clear();
     }
 
     template<typename T>
-- 
2.43.0


From daeaf6c614febcc508055bafd19e3ecaeceabf9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 54/81] fix: dfs() pushed cells on its stack more than once,
 which overran the stack

---
 opm/core/pressure/msmfem/dfs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/pressure/msmfem/dfs.c b/opm/core/pressure/msmfem/dfs.c
index 248b16a..1330c3a 100644
--- a/opm/core/pressure/msmfem/dfs.c
+++ b/opm/core/pressure/msmfem/dfs.c
@@ -59,7 +59,7 @@ void dfs (int size, int *ia, int *ja, int *ncolors, int *color, int* work)
                 
                 if (color[child] == UNVISITED) {
                     *stack++ = child;
-                    color[c] = VISITED;
+                    color[child] = VISITED;
                 }
    
             } else {
-- 
2.43.0


From ca869f5fb2537d68a3b03ac1eaf1903624f28b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:42 +0000
Subject: [PATCH 55/81] fix: RegulaFalsi::solve() did not set the iteration
 count when it needed no iterations

---
 opm/core/utility/RootFinders.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index 47b6057..18c0fbb 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -117,6 +117,7 @@ namespace Opm
                                    int& iterations_used)
         {
             using namespace std;
+            iterations_used = 0;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
 
@@ -134,7 +135,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
@@ -197,6 +197,7 @@ namespace Opm
                                    int& iterations_used)
         {
             using namespace std;
+            iterations_used = 0;
             const double macheps = numeric_limits<double>::epsilon();
             const double eps = tolerance + macheps*max(max(fabs(a), fabs(b)), 1.0);
 
@@ -231,7 +232,6 @@ namespace Opm
             if (f0*f1 > 0.0) {
                 return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
             }
-            iterations_used = 0;
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
-- 
2.43.0


From fb863064af397b596f353cde74b53a9d1d4c84e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:01 +0000
Subject: [PATCH 56/81] fix: RegulaFalsi::solve() with a guess took the guess'
 value for the value at a when no zero is bracketed

---
 opm/core/utility/RootFinders.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opm/core/utility/RootFinders.hpp b/opm/core/utility/RootFinders.hpp
index 18c0fbb..a362843 100644
--- a/opm/core/utility/RootFinders.hpp
+++ b/opm/core/utility/RootFinders.hpp
@@ -226,12 +226,12 @@ namespace Opm
                 x1 = initial_guess;
                 f1 = f_initial;
             } else {
+                if (f_initial*f1 > 0.0) {
+                    return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
+                }
                 x0 = initial_guess;
                 f0 = f_initial;
             }
-            if (f0*f1 > 0.0) {
-                return ErrorPolicy::handleBracketingFailure(a, b, f0, f1);
-            }
             // In every iteraton, x1 is the last point computed,
             // and x0 is the last point computed that makes it a bracket.
             while (fabs(x1 - x0) >= 1e-9*eps) {
-- 
2.43.0


From 94f3a559c866113108bef1975a101ed06b14e65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 57/81] fix: initStateBasic() cut the ref_pressure parameter to
 a whole number

---
 opm/core/simulator/initState_impl.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index d8e53bd..b6492bb 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -337,7 +337,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (segregation_testcase) {
             // Warn against error-prone usage.
@@ -351,7 +351,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterAbove, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             double dens[2] = { props.density()[1], props.density()[0] };
             initHydrostaticPressure(grid, dens, woc, gravity, woc, ref_p, state);
         } else if (param.has("water_oil_contact")) {
@@ -366,7 +366,7 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props.density(), woc, gravity, woc, ref_p, state);
         } else if (param.has("init_saturation")) {
             // Initialise water saturation to init_saturation parameter.
@@ -376,7 +376,7 @@ namespace Opm
                 state.saturation()[2*cell + 1] = 1.0 - init_saturation;
             }
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[0]*init_saturation + props.density()[1]*(1.0 - init_saturation);
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -384,7 +384,7 @@ namespace Opm
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double rho =  props.density()[1];
             const double dens[2] = { rho, rho };
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
@@ -432,7 +432,7 @@ namespace Opm
                 }
             }
             state.setFirstSat(left_cells, props, State::MaxSat);
-            const double init_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double init_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             std::fill(state.pressure().begin(), state.pressure().end(), init_p);
         } else if (param.has("water_oil_contact")) {
             // Warn against error-prone usage.
@@ -446,12 +446,12 @@ namespace Opm
             const double woc = param.get<double>("water_oil_contact");
             initWaterOilContact(grid, props, woc, WaterBelow, state);
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             initHydrostaticPressure(grid, props, woc, gravity, woc, ref_p, state);
         } else {
             // Use default: water saturation is minimum everywhere.
             // Initialise pressure to hydrostatic state.
-            const double ref_p = param.getDefault("ref_pressure", 100)*unit::barsa;
+            const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
             const double woc = -1e100;
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
-- 
2.43.0


From e94f6db3d4d5570522c5809575a33ce1fd833f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 58/81] fix: initStateBasic() for compressible fluids balanced
 the oil-filled default state with the water density

---
 opm/core/simulator/initState_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index b6492bb..dfed116 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -453,7 +453,7 @@ namespace Opm
             // Initialise pressure to hydrostatic state.
             const double ref_p = param.getDefault("ref_pressure", 100.0)*unit::barsa;
             const double ref_z = grid.cell_centroids[0 + grid.dimensions - 1];
-            const double woc = -1e100;
+            const double woc = 1e100; // Oil everywhere.
             initHydrostaticPressure(grid, props, woc, gravity, ref_z, ref_p, state);
         }
 
-- 
2.43.0


From ed84e9d8ba712118a09373cb6167530402963291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:23 +0000
Subject: [PATCH 59/81] fix: initHydrostaticPressure() for compressible fluids
 failed with the datum or the contact at or beyond the ends of the column

---
 opm/core/simulator/initState_impl.hpp | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/opm/core/simulator/initState_impl.hpp b/opm/core/simulator/initState_impl.hpp
index dfed116..96e6792 100644
--- a/opm/core/simulator/initState_impl.hpp
+++ b/opm/core/simulator/initState_impl.hpp
@@ -193,8 +193,17 @@ namespace Opm
                 zlim[1] = std::max(zlim[1], z);
             }
 
-            // We'll use a minimum stepsize of 1/100 of the z range.
-            const double hmin = (zlim[1] - zlim[0])/100.0;
+            // We'll use a minimum stepsize of 1/100 of the z range
+            // (including the datum, if all cells have the same depth).
+            double hmin = (zlim[1] - zlim[0])/100.0;
+            zlim[0] = std::min(zlim[0], datum_z);
+            zlim[1] = std::max(zlim[1], datum_z);
+            if (!(hmin > 0.0)) {
+                hmin = (zlim[1] - zlim[0])/100.0;
+            }
+
+            // A contact outside the z range is equivalent to one at its end.
+            const double woc_z = std::min(std::max(woc, zlim[0]), zlim[1]);
 
             // Store p(z) results in an associative array.
             std::map<double, double> press_by_z;
@@ -205,10 +214,10 @@ namespace Opm
 
             // Solve the ODE from datum_z to woc.
             int phase = (datum_z > woc) ? 0 : 1;
-            int num_steps = int(std::ceil(std::fabs(woc - datum_z)/hmin));
+            int num_steps = (hmin > 0.0) ? int(std::ceil(std::fabs(woc_z - datum_z)/hmin)) : 0;
             double pval = datum_p;
             double zval = datum_z;
-            double h = (woc - datum_z)/double(num_steps);
+            double h = (woc_z - datum_z)/double(num_steps);
             for (int i = 0; i < num_steps; ++i) {
                 zval += h;
                 const double dp = rho(pval, phase)*gravity;
@@ -219,7 +228,7 @@ namespace Opm
 
             // Solve the ODE from datum_z to the end of the interval.
             double z_end = (datum_z > woc) ? zlim[1] : zlim[0];
-            num_steps = int(std::ceil(std::fabs(z_end - datum_z)/hmin));
+            num_steps = (hmin > 0.0) ? int(std::ceil(std::fabs(z_end - datum_z)/hmin)) : 0;
             pval = datum_p;
             zval = datum_z;
             h = (z_end - datum_z)/double(num_steps);
@@ -234,9 +243,10 @@ namespace Opm
             // Switching phase and z_end.
             phase = (phase + 1) % 2;
             z_end = (datum_z > woc) ? zlim[0] : zlim[1];
+            num_steps = (hmin > 0.0) ? int(std::ceil(std::fabs(z_end - woc_z)/hmin)) : 0;
             pval = woc_p;
-            zval = woc;
-            h = (z_end - datum_z)/double(num_steps);
+            zval = woc_z;
+            h = (z_end - woc_z)/double(num_steps);
             for (int i = 0; i < num_steps; ++i) {
                 zval += h;
                 const double dp = rho(pval, phase)*gravity;
-- 
2.43.0


From e5f61942b767b33091466ddb6cc014e879f5f858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 60/81] fix: EclipseGridParser did not read PERMXZ, PERMYX and
 PERMZY, so decks using them failed

---
 opm/core/io/eclipse/EclipseGridParser.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opm/core/io/eclipse/EclipseGridParser.cpp b/opm/core/io/eclipse/EclipseGridParser.cpp
index cd5ea27..335b4a0 100644
--- a/opm/core/io/eclipse/EclipseGridParser.cpp
+++ b/opm/core/io/eclipse/EclipseGridParser.cpp
@@ -91,7 +91,8 @@ namespace EclipseKeywords
         { string("COORD"),    string("ZCORN"),      string("PERMX"),
           string("PERMY"),    string("PERMZ"),      string("PERMXX"),
           string("PERMYY"),   string("PERMZZ"),     string("PERMXY"),
-          string("PERMYZ"),   string("PERMZX"),     string("PORO"),
+          string("PERMYZ"),   string("PERMZX"),     string("PERMYX"),
+          string("PERMZY"),   string("PERMXZ"),     string("PORO"),
           string("BULKMOD"),  string("YOUNGMOD"),   string("LAMEMOD"),
           string("SHEARMOD"), string("POISSONMOD"), string("PWAVEMOD"),
           string("MULTPV"),   string("PRESSURE"),   string("SGAS"),
@@ -555,7 +556,8 @@ void EclipseGridParser::convertToSI()
             unit = units_.length;
         } else if (key == "PERMX"  || key == "PERMY"  || key == "PERMZ"  ||
                    key == "PERMXX" || key == "PERMYY" || key == "PERMZZ" ||
-                   key == "PERMXY" || key == "PERMYZ" || key == "PERMZX") {
+                   key == "PERMXY" || key == "PERMYZ" || key == "PERMZX" ||
+                   key == "PERMYX" || key == "PERMZY" || key == "PERMXZ") {
             unit = units_.permeability;
         } else if (key == "PORO"     || key == "BULKMOD"  || key == "YOUNGMOD" ||
                    key == "LAMEMOD"  || key == "SHEARMOD" || key == "POISSONMOD" ||
-- 
2.43.0


From 7fd22db7f1bd07a5b4b64af1e5c8bac6a3292bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:05 +0000
Subject: [PATCH 61/81] fix: RockFromDeck read beyond the end of porosity and
 permeability fields shorter than the grid

---
 opm/core/props/rock/RockFromDeck.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/opm/core/props/rock/RockFromDeck.cpp b/opm/core/props/rock/RockFromDeck.cpp
index a2349bc..8e72645 100644
--- a/opm/core/props/rock/RockFromDeck.cpp
+++ b/opm/core/props/rock/RockFromDeck.cpp
@@ -71,7 +71,12 @@ namespace Opm
         porosity_.assign(grid.number_of_cells, 1.0);
         const int* gc = grid.global_cell;
         if (parser.hasField("PORO")) {
+            const int num_global_cells = grid.cartdims[0]*grid.cartdims[1]*grid.cartdims[2];
             const std::vector<double>& poro = parser.getFloatingPointValue("PORO");
+            if (int(poro.size()) < num_global_cells) {
+                THROW("Porosity field has " << poro.size()
+                      << " values, but the grid has " << num_global_cells << " logical cells.");
+            }
             for (int c = 0; c < int(porosity_.size()); ++c) {
                 const int deck_pos = (gc == NULL) ? c : gc[c];
                 porosity_[c] = poro[deck_pos];
@@ -113,6 +118,12 @@ namespace Opm
         // chosen) default value...
         //
         if (tensor.size() > 1) {
+            for (std::size_t comp = 0; comp < tensor.size(); ++comp) {
+                if (int(tensor[comp]->size()) < num_global_cells) {
+                    THROW("Permeability field has " << tensor[comp]->size()
+                          << " values, but the grid has " << num_global_cells << " logical cells.");
+                }
+            }
             const int* gc = grid.global_cell;
             int off = 0;
 
-- 
2.43.0


From d6ea1d89e8805f5a81f85458be81daaee7e45e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:45 +0000
Subject: [PATCH 62/81] fix: writeVtkData() divided by zero when writing fields
 of a grid without cells

---
 opm/core/io/vtk/writeVtkData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/io/vtk/writeVtkData.cpp b/opm/core/io/vtk/writeVtkData.cpp
index 4e9ee5a..388bfb1 100644
--- a/opm/core/io/vtk/writeVtkData.cpp
+++ b/opm/core/io/vtk/writeVtkData.cpp
@@ -291,7 +291,7 @@ namespace Opm
             for (DataMap::const_iterator dit = data.begin(); dit != data.end(); ++dit) {
                 pm["Name"] = dit->first;
                 const std::vector<double>& field = *(dit->second);
-                const int num_comps = field.size()/grid.number_of_cells;
+                const int num_comps = (num_cells > 0) ? field.size()/num_cells : 1;
                 pm["NumberOfComponents"] = boost::lexical_cast<std::string>(num_comps);
                 Tag ptag("DataArray", pm, os);
                 const int num_per_line = num_comps == 1 ? 5 : num_comps;
-- 
2.43.0


From a40d21742ad6ff9b8f9a076c6c2dcf7de70e7164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:51 +0000
Subject: [PATCH 63/81] fix: read_grid() wrote beyond its arrays when counts in
 the grid file did not match

---
 opm/core/grid/grid.c | 45 +++++++++++++++++++++++++++++++++++---------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/opm/core/grid/grid.c b/opm/core/grid/grid.c
index 58179b7..4304794 100644
--- a/opm/core/grid/grid.c
+++ b/opm/core/grid/grid.c
@@ -176,7 +176,8 @@ input_error(FILE *fp, const char * const err)
 
 
 static struct UnstructuredGrid *
-allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
+allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap,
+                        size_t *nfacenodes, size_t *ncellfaces)
 {
     struct UnstructuredGrid *G;
 
@@ -193,7 +194,17 @@ allocate_grid_from_file(FILE *fp, int *has_tag, int *has_indexmap)
         i += 1;
     }
 
-    if (i == GRID_NMETA) {
+    if ((i == GRID_NMETA) &&
+        (dimens[GRID_NDIMS] > sizeof G->cartdims / sizeof G->cartdims[0])) {
+        fprintf(stderr, "Unsupported number of grid dimensions: %lu\n",
+                (unsigned long) dimens[GRID_NDIMS]);
+
+        G = NULL;
+    }
+    else if (i == GRID_NMETA) {
+        *nfacenodes = dimens[GRID_NFACENODES];
+        *ncellfaces = dimens[GRID_NCELLFACES];
+
         if (fscanf(fp, "%d %d", has_tag, has_indexmap) == 2) {
             G = allocate_grid(dimens[GRID_NDIMS]     ,
                               dimens[GRID_NCELLS]    ,
@@ -285,7 +296,7 @@ read_grid_nodes(FILE *fp, struct UnstructuredGrid *G)
 
 
 static int
-read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
+read_grid_faces(FILE *fp, size_t nfacenodes, struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
     size_t nf, nfn, i;
@@ -305,6 +316,13 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
     if (! ok) {
         input_error(fp, "Unable to read node indirection array");
     }
+    else if ((G->face_nodepos[ nf ] < 0) ||
+             ((size_t) G->face_nodepos[ nf ] != nfacenodes)) {
+        /* Entries would not match the space allocated for them. */
+        fprintf(stderr, "Node indirection array does not match "
+                "the number of face-nodes\n");
+        ok = 0;
+    }
     else {
         /* G->face_nodes */
         nfn = G->face_nodepos[ nf ];
@@ -390,7 +408,7 @@ read_grid_faces(FILE *fp, struct UnstructuredGrid *G)
 
 static int
 read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
-                struct UnstructuredGrid *G)
+                size_t ncellfaces, struct UnstructuredGrid *G)
 {
     int    save_errno, ok;
     size_t nc, ncf, i;
@@ -409,6 +427,13 @@ read_grid_cells(FILE *fp, int has_tag, int has_indexmap,
     if (! ok) {
         input_error(fp, "Unable to read face indirection array");
     }
+    else if ((G->cell_facepos[ nc ] < 0) ||
+             ((size_t) G->cell_facepos[ nc ] != ncellfaces)) {
+        /* Entries would not match the space allocated for them. */
+        fprintf(stderr, "Face indirection array does not match "
+                "the number of cell-faces\n");
+        ok = 0;
+    }
     else {
         /* G->cell_faces (and G->cell_facetag if applicable) */
         ncf = G->cell_facepos[ nc ];
@@ -510,20 +535,22 @@ read_grid(const char *fname)
     struct UnstructuredGrid *G;
     FILE                    *fp;
 
-    int save_errno;
-    int has_tag, has_indexmap, ok;
+    int    save_errno;
+    int    has_tag, has_indexmap, ok;
+    size_t nfacenodes, ncellfaces;
 
     save_errno = errno;
 
     fp = fopen(fname, "rt");
     if (fp != NULL) {
-        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap);
+        G = allocate_grid_from_file(fp, & has_tag, & has_indexmap,
+                                    & nfacenodes, & ncellfaces);
 
         ok = G != NULL;
 
         if (ok) { ok = read_grid_nodes(fp, G); }
-        if (ok) { ok = read_grid_faces(fp, G); }
-        if (ok) { ok = read_grid_cells(fp, has_tag, has_indexmap, G); }
+        if (ok) { ok = read_grid_faces(fp, nfacenodes, G); }
+        if (ok) { ok = read_grid_cells(fp, has_tag, has_indexmap, ncellfaces, G); }
 
         if (! ok) {
             destroy_grid(G);
-- 
2.43.0


From 8a1d3b497c33e798367dc184d079c6a1f6f2d8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 64/81] fix: do not read beyond records without undersaturated
 rows in PVTG tables

A record with one row next to a complete one, or at either end of the
table, was interpolated in as if it had two rows.
---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index e58a51a..41d3ee0 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -239,7 +239,8 @@ namespace Opm
                                                 press);
             } else {  // Undersaturated case
                 int is = section;
-                if (undersat_gas_tables_[is][0].size() < 2) {
+                if (undersat_gas_tables_[is][0].size() < 2 ||
+                    undersat_gas_tables_[is+1][0].size() < 2) {
                     double val = (saturated_gas_table_[item][is+1]
                                   - saturated_gas_table_[item][is]) /
                         (saturated_gas_table_[0][is+1] -
@@ -267,6 +268,9 @@ namespace Opm
                 int is = section;
                 // Extrapolate from first table section
                 if (is == 0 && press < saturated_gas_table_[0][0]) {
+                    if (undersat_gas_tables_[0][0].size() < 2) {
+                        return saturated_gas_table_[item][0];
+                    }
                     return linearInterpolation(undersat_gas_tables_[0][0],
                                                      undersat_gas_tables_[0][item],
                                                      maxR);
@@ -275,6 +279,9 @@ namespace Opm
                 // Extrapolate from last table section
                 int ltp = saturated_gas_table_[0].size() - 1;
                 if (is+1 == ltp && press > saturated_gas_table_[0][ltp]) {
+                    if (undersat_gas_tables_[ltp][0].size() < 2) {
+                        return saturated_gas_table_[item][ltp];
+                    }
                     return linearInterpolation(undersat_gas_tables_[ltp][0],
                                                      undersat_gas_tables_[ltp][item],
                                                      maxR);
@@ -284,7 +291,8 @@ namespace Opm
                 double w = (press - saturated_gas_table_[0][is]) /
                     (saturated_gas_table_[0][is+1] -
                      saturated_gas_table_[0][is]);
-                if (undersat_gas_tables_[is][0].size() < 2) {
+                if (undersat_gas_tables_[is][0].size() < 2 ||
+                    undersat_gas_tables_[is+1][0].size() < 2) {
                     double val = saturated_gas_table_[item][is] +
                         w*(saturated_gas_table_[item][is+1] -
                            saturated_gas_table_[item][is]);
-- 
2.43.0


From 5f22fabaf887250bca923ef01a6531d3a1c0c564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:23 +0000
Subject: [PATCH 65/81] fix: zero pressure derivative where undersaturated gas
 is held constant

Outside the pressures of a PVTG table the undersaturated gas volume
factor does not change with pressure, but its derivative was non-zero.
---
 opm/core/props/pvt/SinglePvtLiveGas.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/opm/core/props/pvt/SinglePvtLiveGas.cpp b/opm/core/props/pvt/SinglePvtLiveGas.cpp
index 41d3ee0..5ba2a49 100644
--- a/opm/core/props/pvt/SinglePvtLiveGas.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveGas.cpp
@@ -239,6 +239,11 @@ namespace Opm
                                                 press);
             } else {  // Undersaturated case
                 int is = section;
+                if (press < saturated_gas_table_[0].front() ||
+                    press > saturated_gas_table_[0].back()) {
+                    // The value is constant outside the table.
+                    return 0.0;
+                }
                 if (undersat_gas_tables_[is][0].size() < 2 ||
                     undersat_gas_tables_[is+1][0].size() < 2) {
                     double val = (saturated_gas_table_[item][is+1]
-- 
2.43.0


From db9d3146717295318d398097766e6d9763f1cafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:38 +0000
Subject: [PATCH 66/81] fix: refuse PVTO tables whose last record has no
 undersaturated data

The search for the next complete record ran past the end of the table.
---
 opm/core/props/pvt/SinglePvtLiveOil.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveOil.cpp b/opm/core/props/pvt/SinglePvtLiveOil.cpp
index 269eb33..f3bf507 100644
--- a/opm/core/props/pvt/SinglePvtLiveOil.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveOil.cpp
@@ -74,10 +74,12 @@ namespace Opm
         // Fill in additional entries in undersaturated tables by interpolating/extrapolating 1/Bo and mu_o ...
         int iPrev = -1;
         int iNext = 1;
-        while (undersat_oil_tables_[iNext][0].size() < 2) {
+        while (iNext < sz && undersat_oil_tables_[iNext][0].size() < 2) {
                 ++iNext;
         }
-        ASSERT(iNext < sz);
+        if (iNext >= sz) {
+            THROW("PVTO needs two records at least, and undersaturated data in the last of them.");
+        }
         for (int i=0; i<sz; ++i) {
                 if (undersat_oil_tables_[i][0].size() > 1) {
                         iPrev = i;
@@ -90,9 +92,12 @@ namespace Opm
                         iPrev = iNext;
                         flagPrev = true;
                         iNext = i+1;
-                        while (undersat_oil_tables_[iNext][0].size() < 2) {
+                        while (iNext < sz && undersat_oil_tables_[iNext][0].size() < 2) {
                                 ++iNext;
                         }
+                        if (iNext >= sz) {
+                            THROW("PVTO needs undersaturated data in its last record.");
+                        }
                 }
                 double slopePrevBinv = 0.0;
                 double slopePrevVisc = 0.0;
-- 
2.43.0


From fcd1e4e0389353486494ca265edffd7ea75085cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:38 +0000
Subject: [PATCH 67/81] fix: fill in PVTO records from the closest complete
 records

After two or more complete records in a row, the one before the last of
them was used as the lower neighbour.
---
 opm/core/props/pvt/SinglePvtLiveOil.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opm/core/props/pvt/SinglePvtLiveOil.cpp b/opm/core/props/pvt/SinglePvtLiveOil.cpp
index f3bf507..c0edd1c 100644
--- a/opm/core/props/pvt/SinglePvtLiveOil.cpp
+++ b/opm/core/props/pvt/SinglePvtLiveOil.cpp
@@ -89,8 +89,7 @@ namespace Opm
                 bool flagPrev = (iPrev >= 0);
                 bool flagNext = true;
                 if (iNext < i) {
-                        iPrev = iNext;
-                        flagPrev = true;
+                        // iPrev already is the closest complete record below.
                         iNext = i+1;
                         while (iNext < sz && undersat_oil_tables_[iNext][0].size() < 2) {
                                 ++iNext;
-- 
2.43.0


From 806ad680bbabae6f04b020b4d930c56f73b61684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 68/81] fix: derivative of Stone II oil relative permeability
 with respect to gas saturation

---
 opm/core/props/satfunc/SatFuncStone2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index 93cbe00..e4dcc18 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -147,7 +147,7 @@ namespace Opm
             dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+                    + dkrow*(krog/krocw + krg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
@@ -341,7 +341,7 @@ namespace Opm
             dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
-                    + krocw*((dkrow/krocw + krw)*(krog/krocw + krg) - dkrgg);
+                    + dkrow*(krog/krocw + krg);
             return;
         }
         // We have a two-phase situation. We know that oil is active.
-- 
2.43.0


From e562212d0ea0b393a4051a03ebbaacd3fc66866b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:21 +0000
Subject: [PATCH 69/81] fix: no slope of Stone II oil relative permeability
 where it is cut off at zero

---
 opm/core/props/satfunc/SatFuncStone2.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncStone2.cpp b/opm/core/props/satfunc/SatFuncStone2.cpp
index e4dcc18..6d5175e 100644
--- a/opm/core/props/satfunc/SatFuncStone2.cpp
+++ b/opm/core/props/satfunc/SatFuncStone2.cpp
@@ -140,11 +140,13 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
+            dkrds[Aqua + Aqua*np] = dkrww;
+            dkrds[Vapour + Vapour*np] = dkrgg;
             if (kr[Liquid] < 0.0) {
+                // Constant zero here, so derivatives are zero too.
                 kr[Liquid] = 0.0;
+                return;
             }
-            dkrds[Aqua + Aqua*np] = dkrww;
-            dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
                     + dkrow*(krog/krocw + krg);
@@ -334,11 +336,13 @@ namespace Opm
             kr[Aqua] = krw;
             kr[Vapour] = krg;
             kr[Liquid] = krocw*((krow/krocw + krw)*(krog/krocw + krg) - krw - krg);
+            dkrds[Aqua + Aqua*np] = dkrww;
+            dkrds[Vapour + Vapour*np] = dkrgg;
             if (kr[Liquid] < 0.0) {
+                // Constant zero here, so derivatives are zero too.
                 kr[Liquid] = 0.0;
+                return;
             }
-            dkrds[Aqua + Aqua*np] = dkrww;
-            dkrds[Vapour + Vapour*np] = dkrgg;
             dkrds[Liquid + Aqua*np] = krocw*((dkrow/krocw + dkrww)*(krog/krocw + krg) - dkrww);
             dkrds[Liquid + Vapour*np] = krocw*((krow/krocw + krw)*(dkrog/krocw + dkrgg) - dkrgg)
                     + dkrow*(krog/krocw + krg);
-- 
2.43.0


From c9356cd213017517cd6e6e0c2e65fbc99c60ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:17 +0000
Subject: [PATCH 70/81] fix: refuse end point scaling with incompressible
 fluids, whose tables have no end points

---
 opm/core/props/IncompPropertiesFromDeck.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opm/core/props/IncompPropertiesFromDeck.cpp b/opm/core/props/IncompPropertiesFromDeck.cpp
index bcb6bdc..8fefde4 100644
--- a/opm/core/props/IncompPropertiesFromDeck.cpp
+++ b/opm/core/props/IncompPropertiesFromDeck.cpp
@@ -32,6 +32,9 @@ namespace Opm
     {
         rock_.init(deck, grid);
         pvt_.init(deck);
+        if (deck.hasField("ENDSCALE")) {
+            THROW("Sorry, end point scaling currently not available for incompressible fluids.");
+        }
         satprops_.init(deck, grid, 200);
         if (pvt_.numPhases() != satprops_.numPhases()) {
             THROW("IncompPropertiesFromDeck::IncompPropertiesFromDeck() - Inconsistent number of phases in pvt data ("
-- 
2.43.0


From 2adc51669029932819ecdbabf88d4250b4094cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 71/81] fix: three-point scaling of a phase moves with the
 other phase's critical saturation

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 5f1983c..063162c 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -383,7 +383,7 @@ namespace Opm
        
        if (do_3pt_) { // Three-point scaling
            // Transforms for water saturation 
-           if (eps_.swcr_.empty() && eps_.swu_.empty()) {
+           if (eps_.swcr_.empty() && eps_.swu_.empty() && eps_.sowcr_.empty()) {
                ss[wpos] = s[wpos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).sowcr_;
@@ -399,7 +399,7 @@ namespace Opm
                }
            }
            // Transforms for oil saturation 
-           if (eps_.sowcr_.empty() && eps_.swl_.empty()) {
+           if (eps_.sowcr_.empty() && eps_.swl_.empty() && eps_.swcr_.empty()) {
                ss[opos] = s[opos]; 
            } else {
                double s_r = 1.0-funcForCell(cell).swcr_;
-- 
2.43.0


From 392c32c9f203a2b29904848ef856f099a9ac648a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:26 +0000
Subject: [PATCH 72/81] fix: read past KRW when only KRO and KRWR are given

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index 063162c..b0bbf62 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -477,7 +477,7 @@ namespace Opm
            } else if (sr > swmax-1.0e-6) {
                if (do_3pt_) { //Ignore krw and do two-point?
                    kr[wpos] *= eps_.krwr_[cell]/funcForCell(cell).krwr_;
-               } else if (!eps_.kro_.empty()){ //Ignore krwr and do two-point
+               } else if (!eps_.krw_.empty()){ //Ignore krwr and do two-point
                    kr[wpos] *= eps_.krw_[cell]/funcForCell(cell).krwmax_;
                }
            } else if (s[wpos] <= sr) {
-- 
2.43.0


From 9ac68a6aa06e36c76d6e2148c53bd82ccc44a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:26 +0000
Subject: [PATCH 73/81] fix: segregated model's slopes are not NaN where
 neither mobile water nor gas is present

---
 opm/core/props/satfunc/SatFuncGwseg.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/props/satfunc/SatFuncGwseg.cpp b/opm/core/props/satfunc/SatFuncGwseg.cpp
index 94b0131..d77929c 100644
--- a/opm/core/props/satfunc/SatFuncGwseg.cpp
+++ b/opm/core/props/satfunc/SatFuncGwseg.cpp
@@ -153,7 +153,7 @@ namespace Opm
             const double dkrgg = krg_.derivative(ssg);
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
-            const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
+            const double d = std::max(ssg, eps); // = sw - swco + sg (using 'd' for consistency with mrst docs).
             dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
             dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
             dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
@@ -358,7 +358,7 @@ namespace Opm
             const double dkrgg = krg_.derivative(ssg);
             const double dkrow = krow_.derivative(ssw);
             const double dkrog = krog_.derivative(ssg);
-            const double d = ssg; // = sw - swco + sg (using 'd' for consistency with mrst docs).
+            const double d = std::max(ssg, eps); // = sw - swco + sg (using 'd' for consistency with mrst docs).
             dkrds[Aqua   + Aqua*np]   =  (xg/d)*krw + xw*dkrww;
             dkrds[Aqua   + Vapour*np] = -(xw/d)*krw + xw*dkrww;
             dkrds[Liquid + Aqua*np]   =  (xg/d)*krow + xw*dkrow - (xg/d)*krog + xg*dkrog;
-- 
2.43.0


From 0c73b0c98a04ea4a02def6b1450bf9d10b6bc71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 74/81] fix: no negative relative permeability beyond the table
 when only the other end is scaled

---
 opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
index b0bbf62..ee06b2b 100644
--- a/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
+++ b/opm/core/props/satfunc/SaturationPropsFromDeck_impl.hpp
@@ -384,7 +384,7 @@ namespace Opm
        if (do_3pt_) { // Three-point scaling
            // Transforms for water saturation 
            if (eps_.swcr_.empty() && eps_.swu_.empty() && eps_.sowcr_.empty()) {
-               ss[wpos] = s[wpos]; 
+               ss[wpos] = std::max(funcForCell(cell).smin_[wpos], std::min(s[wpos], funcForCell(cell).smax_[wpos]));
            } else {
                double s_r = 1.0-funcForCell(cell).sowcr_;
                double sr = eps_.sowcr_.empty() ? s_r : 1.0-eps_.sowcr_[cell];
@@ -400,7 +400,7 @@ namespace Opm
            }
            // Transforms for oil saturation 
            if (eps_.sowcr_.empty() && eps_.swl_.empty() && eps_.swcr_.empty()) {
-               ss[opos] = s[opos]; 
+               ss[opos] = std::max(funcForCell(cell).smin_[opos], std::min(s[opos], funcForCell(cell).smax_[opos]));
            } else {
                double s_r = 1.0-funcForCell(cell).swcr_;
                double sr = eps_.swcr_.empty() ? s_r : 1.0-eps_.swcr_[cell];
@@ -417,7 +417,7 @@ namespace Opm
        } else { // Two-point scaling
            // Transforms for water saturation 
            if (eps_.swcr_.empty() && eps_.swu_.empty()) {
-               ss[wpos] = s[wpos]; 
+               ss[wpos] = std::max(funcForCell(cell).smin_[wpos], std::min(s[wpos], funcForCell(cell).smax_[wpos]));
            } else {
                double sw_cr = funcForCell(cell).swcr_;
                double swcr = eps_.swcr_.empty() ? sw_cr : eps_.swcr_[cell];
@@ -431,7 +431,7 @@ namespace Opm
            }
            // Transforms for oil saturation 
            if (eps_.sowcr_.empty() && eps_.swl_.empty()) {
-               ss[opos] = s[opos]; 
+               ss[opos] = std::max(funcForCell(cell).smin_[opos], std::min(s[opos], funcForCell(cell).smax_[opos]));
            } else {
                double sow_cr = funcForCell(cell).sowcr_;
                double socr = eps_.sowcr_.empty() ? sow_cr : eps_.sowcr_[cell];
-- 
2.43.0


From c71d8ac9e329e26103836cb1e8626b21e00c07c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 75/81] fix: well report uses each well's own injection
 composition

The water rate of every injecting well was computed with the first well's
component fraction.
---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 1f5a339..813cb9c 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -618,7 +618,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[wells.number_of_phases*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
@@ -676,7 +676,7 @@ namespace Opm
                 well_rate_total += perf_rate;
                 if (perf_rate > 0.0) {
                     // Injection.
-                    well_rate_water += perf_rate*wells.comp_frac[0];
+                    well_rate_water += perf_rate*wells.comp_frac[wells.number_of_phases*w];
                 } else {
                     // Production.
                     const int cell = wells.well_cells[perf];
-- 
2.43.0


From 2aa2c915b1d10dc9fff71a196352305070b025cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 76/81] fix: well report reads the saturations of the
 perforated cell for any number of phases

The saturations were taken from position 2*cell also when there are one or
three phases.
---
 opm/core/utility/miscUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 813cb9c..06be676 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -623,7 +623,7 @@ namespace Opm
                     // Production.
                     const int cell = wells.well_cells[perf];
                     double mob[max_np];
-                    props.relperm(1, &saturation[2*cell], &cell, mob, 0);
+                    props.relperm(1, &saturation[np*cell], &cell, mob, 0);
                     double tmob = 0;
                     for(int i = 0; i < np; ++i) {
                         mob[i] /= visc[i];
-- 
2.43.0


From b68db368bc883c47404d5ba8b3fc08be8ddb1f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 77/81] fix: sources made from wells add up in shared cells and
 start from zero

A second well in the same cell replaced the first one's source, and values
already in the vector were kept in cells without wells.
---
 opm/core/utility/miscUtilities.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 06be676..24f11e8 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -454,7 +454,7 @@ namespace Opm
         if (np != 2) {
             THROW("wellsToSrc() requires a 2 phase case.");
         }
-        src.resize(num_cells);
+        src.assign(num_cells, 0.0);
         for (int w = 0; w < wells.number_of_wells; ++w) {
             const int cur = wells.ctrls[w]->current;
             if (wells.ctrls[w]->num != 1) {
@@ -476,7 +476,7 @@ namespace Opm
                 flow *= wells.comp_frac[np*w + 0]; // Obtaining water rate for inflow source.
             }
             const int cell = wells.well_cells[wells.well_connpos[w]];
-            src[cell] = flow;
+            src[cell] += flow;
         }
     }
 
-- 
2.43.0


From e65fd0b27ff58d57c4e10b5936912d2322abe35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 78/81] fix: flow rates per well replace what the output vector
 held

The rates were appended to the output, so that a vector used for a second
time step still began with the rates of the first.
---
 opm/core/utility/miscUtilities.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opm/core/utility/miscUtilities.cpp b/opm/core/utility/miscUtilities.cpp
index 24f11e8..e0cb11b 100644
--- a/opm/core/utility/miscUtilities.cpp
+++ b/opm/core/utility/miscUtilities.cpp
@@ -531,6 +531,7 @@ namespace Opm
             std::vector<double>& flow_rates_per_well)
     {
         int index_in_flow_rates = 0;
+        flow_rates_per_well.clear();
         for (int w = 0; w < wells.number_of_wells; w++) {
             int number_of_cells = wells.well_connpos[w + 1] - wells.well_connpos[w];
             double flow_sum = 0.0;
-- 
2.43.0


From b846af891a7d477618f3c4a9902f2d20135d925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:51 +0000
Subject: [PATCH 79/81] fix: black-oil mobilities are computed for the cells
 asked for

The number of cells was taken from the properties instead of from the cells
argument, so any subset of cells failed or read beyond the arrays.
---
 opm/core/utility/miscUtilitiesBlackoil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opm/core/utility/miscUtilitiesBlackoil.cpp b/opm/core/utility/miscUtilitiesBlackoil.cpp
index 4584e45..25452b1 100644
--- a/opm/core/utility/miscUtilitiesBlackoil.cpp
+++ b/opm/core/utility/miscUtilitiesBlackoil.cpp
@@ -196,7 +196,7 @@ namespace Opm
                                 const std::vector<double>&              s,
                                 std::vector<double>&                    pmobc)
     {
-        const int nc = props.numCells();
+        const int nc = cells.size();
         const int np = props.numPhases();
 
         ASSERT (int(s.size()) == nc * np);
-- 
2.43.0


From 6fe3476d4554bb19dbfbc5382a307d634c452a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:13 +0000
Subject: [PATCH 80/81] fix: no perforation rates for shut wells in the
 compressible pressure solver

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 001f9a3..0fb708b 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1118,7 +1118,9 @@ compute_wflux(int                        np    ,
                 t += pmob[ p ];
             }
 
-            wflux[ i ] = W->WI[i] * t * dp;
+            /* No flow through the perforations of a shut well. */
+            wflux[ i ] = (W->ctrls[w]->current < 0) ? 0.0
+                                                    : W->WI[i] * t * dp;
         }
     }
 }
-- 
2.43.0


From 378a0dea92999db36558dd62492049e3e1e54f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:13 +0000
Subject: [PATCH 81/81] fix: zero flux through closed boundary faces without
 mobile phases

---
 opm/core/pressure/tpfa/cfs_tpfa_residual.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opm/core/pressure/tpfa/cfs_tpfa_residual.c b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
index 0fb708b..1e3cbee 100644
--- a/opm/core/pressure/tpfa/cfs_tpfa_residual.c
+++ b/opm/core/pressure/tpfa/cfs_tpfa_residual.c
@@ -1072,8 +1072,9 @@ compute_flux(struct UnstructuredGrid *G        ,
             }
 #endif
         } else {
-            /* No BC -> no-flow (== pressure drop offsets gravity) */
-            dp = -g / t;
+            /* No BC -> no-flow, whatever the mobilities on the face. */
+            fflux[f] = 0.0;
+            continue;
         }
 
         fflux[f] = trans[f] * (t*dp + g);
-- 
2.43.0

