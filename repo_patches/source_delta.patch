From 7de47d6561152df6860e4ef1c477b075de19dbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 01/23] fix: shift and mirror the last stored trajectory point,
 too

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index ce0afd5..49f4b97 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -343,7 +343,7 @@ void ChargedParticle::initTrajectory(double t, Vector x, Vector p, Vector a)
 void ChargedParticle::Shift(Vector delta, double f_charge)
 {
     X_current += delta;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         Vector position = X[i];
         X[i] = position + delta;
@@ -366,7 +366,7 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
-    for (int i=0; i<NP-1; i++)
+    for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
         Vector position = X[i];
-- 
2.43.0


From ec9a600a11d0cb5a86283fe39aa4de1d7c8dc675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 02/23] fix: extrapolate backwards from the start time of the
 trajectory

---
 src/particle.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 49f4b97..a1d1e4e 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -648,8 +648,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             // compute the time t at emission of the signal (field)
-            // t is always negative
-            double t0 = obs_time;
+            // t is always negative, it is relative to the time of the first trajectory point
+            double t0 = obs_time - Time[0];
             double bR = dot(SourceBeta,Rc);
             double bb = dot(SourceBeta,SourceBeta);
             double RR = dot(Rc,Rc);
-- 
2.43.0


From ceae4aa67ef74682fcba4e4fe456a7e6cf020561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 03/23] fix: derive the change of velocity from that of the
 momentum in the retarded field

---
 src/particle.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index a1d1e4e..b269f53 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -577,6 +577,8 @@ ElMagField ChargedParticle::RetardedField(int index,
     double gamma2 = betagamma2 + 1.0;
     double gamma = sqrt(gamma2);
     SourceBeta /= gamma;
+    // the trajectory stores the derivative of beta*gamma
+    SourceBetaPrime -= SourceBeta*dot(SourceBeta,SourceBetaPrime);
     SourceBetaPrime /= gamma;
     // now compute the distance and direction to the observer
     Vector RVec = ObservationPoint - SourceX;
@@ -746,6 +748,8 @@ ElMagField ChargedParticle::RetardedField(double obs_time, Vector obs_pos)
             gamma = sqrt(gamma2);
             SourceBeta/=gamma;
             SourceBetaPrime = A[i1]*(1.0-frac) + A[i2]*frac;
+            // the trajectory stores the derivative of beta*gamma
+            SourceBetaPrime -= SourceBeta*dot(SourceBeta,SourceBetaPrime);
             SourceBetaPrime/=gamma;
         }
         // printf("ChargedParticle::RetardedField - SourceX = (%9.6g, %9.6g, %9.6g)\n",SourceX.x,SourceX.y,SourceX.z);
-- 
2.43.0


From d4b91531dce74af760897facb4c802990a820dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 04/23] fix: copy the current fields with a particle

---
 src/particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index b269f53..570e4c7 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -90,6 +90,8 @@ ChargedParticle::ChargedParticle(const ChargedParticle *origin)
     X_current = origin->X_current;
     P_current = origin->P_current;
     A_current = origin->A_current;
+    E_current = origin->E_current;
+    B_current = origin->B_current;
     if (NP > 0)
     {
         Time = origin->Time;
-- 
2.43.0


From bf32f9811cb36af0e692e02f5d256d2af083588c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 05/23] fix: restore particles without trajectory points from a
 buffer

---
 src/particle.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 570e4c7..88d7ebb 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -143,6 +143,7 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
     VY_gamma_i1 = *b++;
     // now restore the trajectory data
     clearTrajectory();
+    Npre = 0;
     if (nPre > 0) preAllocate(nPre);
     for (int n=0; n<nTraj; n++)
     {
@@ -162,10 +163,14 @@ ChargedParticle::ChargedParticle(double *buffer, int nTraj, int nPre)
         double az = *b++;
         A.push_back(Vector(ax,ay,az));
     }
-    t_current = Time.back();
-    X_current = X.back();
-    P_current = P.back();
-    A_current = A.back();
+    t_current = 0.0;
+    if (NP > 0)
+    {
+        t_current = Time.back();
+        X_current = X.back();
+        P_current = P.back();
+        A_current = A.back();
+    }
 }
 
 ChargedParticle::~ChargedParticle()
-- 
2.43.0


From 272f3b20e16d626278435e8357c017cb2722b442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:30 +0000
Subject: [PATCH 06/23] fix: reject the derivative of traces with less than two
 samples

---
 src/fieldtrace.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fieldtrace.cpp b/src/fieldtrace.cpp
index 9f8b816..c965806 100644
--- a/src/fieldtrace.cpp
+++ b/src/fieldtrace.cpp
@@ -199,6 +199,8 @@ Vector FieldTrace::Poynting()
 
 FieldTrace* FieldTrace::derivative()
 {
+    // difference quotients need at least two samples
+    if (N<2) throw(IOexception("FieldTrace::derivative() - trace has less than two samples."));
     // create a new field trace as a copy
     FieldTrace* temp = new FieldTrace(*this);
     if (temp==0) throw(IOexception("FieldTrace::derivative() - error allocating memory."));
-- 
2.43.0


From 47f083854d5ceda6d340477ade500d86209d0f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 07/23] fix: write the charge of the beam in Coulomb to watch
 point files

---
 src/beam.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/beam.cpp b/src/beam.cpp
index c673b6e..a65306f 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -372,7 +372,7 @@ int Beam::WriteWatchPointSDDS(std::string filename)
         return 6;
     }
     if( SDDS_SetParameters(&data,SDDS_SET_BY_NAME|SDDS_PASS_BY_VALUE,
-        "Charge", ElementaryCharge*getTotalCharge(), NULL ) !=1
+        "Charge", getTotalCharge(), NULL ) !=1
         )
     {
         std::cout << "Bunch::WriteWatchPointSDDS - error setting parameters" << std::endl;
-- 
2.43.0


From 1a43292329f47e83c618369d975db3e2c9e663d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 08/23] fix: stop buffering probe particles when there are no
 more

---
 src/beam.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/beam.cpp b/src/beam.cpp
index a65306f..1ca99fd 100644
--- a/src/beam.cpp
+++ b/src/beam.cpp
@@ -194,6 +194,9 @@ unsigned int Beam::getProbeBufferSize(unsigned int number)
 void Beam::bufferProbe(double *buffer, unsigned int number)
 {
     unsigned int N = 0;
+    // there are no more particles than these
+    unsigned int nop = getNOP();
+    if (number > nop) number = nop;
     int i_bunch = 0;
     int i_in_bunch = 0;
     double *bp = buffer;
-- 
2.43.0


From f31ef7fbecd91dfec764440be0465c2da9d105b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:07 +0000
Subject: [PATCH 09/23] fix: do not divide by a zero step size of the loggers

---
 src/logger.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/logger.h b/src/logger.h
index 3520fc3..3dbc671 100644
--- a/src/logger.h
+++ b/src/logger.h
@@ -94,7 +94,7 @@ public:
     void record_bunching(double freq);
     
     /*! Check whether the given tracking step should be logged */
-    bool log_requested(int step) override { return 0 == (step % stepsize); };
+    bool log_requested(int step) override { return stepsize>0 && 0 == (step % stepsize); };
     
     /*! The source has advanced one time step.
      *  Compute and store the quantities of interest.
@@ -211,7 +211,7 @@ public:
     virtual ~TrajectoryLogger();
 
     /*! Check whether the given tracking step should be logged */
-    bool log_requested(int step) override { return 0 == (step % stepsize); };
+    bool log_requested(int step) override { return stepsize>0 && 0 == (step % stepsize); };
     
     /*! The source has advanced one time step.
      *  Compute and store the quantities of interest.
@@ -296,7 +296,7 @@ public:
     virtual ~ProbeLogger();
 
     /*! Check whether the given tracking step should be logged */
-    bool log_requested(int step) override { return 0 == (step % stepsize); };
+    bool log_requested(int step) override { return stepsize>0 && 0 == (step % stepsize); };
     
     /*! The source has advanced one time step.
      *  Compute and store the quantities of interest.
-- 
2.43.0


From 6435d5734cfc73edc7840eff8927f9bd8e5883d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:17 +0000
Subject: [PATCH 10/23] fix: accept particle files with names of any length

---
 src/bunch.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/bunch.cpp b/src/bunch.cpp
index 55444f2..2194f40 100644
--- a/src/bunch.cpp
+++ b/src/bunch.cpp
@@ -192,11 +192,10 @@ Bunch::Bunch(const char *filename, Vector dir)
     NOP = 0;
     std::cout << "reading particles from SDDS file " << filename << std::endl;
     // make a copy of the filename to make it changable
-    char fn[100];
-    strncpy (fn, filename, sizeof(fn)-1);
+    std::vector<char> fn(filename, filename+strlen(filename)+1);
     SDDS_DATASET SDDS_dataset;
     // SDDS_InitializeInput - returns 1 on success, 0 on failure 
-    if (SDDS_InitializeInput(&SDDS_dataset, fn ) != 1)
+    if (SDDS_InitializeInput(&SDDS_dataset, fn.data() ) != 1)
     {
         std::cout << "cannot read SDDS file " << filename;
         std::cout << " : creating empty bunch." << std::endl;
-- 
2.43.0


From c361ef2464b08d520b096c23d8fd7f2bb5386ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:59 +0000
Subject: [PATCH 11/23] fix: no reversed field outside of both edges of a
 soft-edge dipole

---
 src/dipole.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dipole.cpp b/src/dipole.cpp
index cda844e..223499a 100644
--- a/src/dipole.cpp
+++ b/src/dipole.cpp
@@ -224,6 +224,8 @@ ElMagField SoftEdgeDipole::LocalField(double t, Vector X)
     double at1 = atan(2.0*d1/t_1);
     double at2 = atan(2.0*d2/t_2);
     double scal = 1.0 - (at1/Pi+0.5) - (at2/Pi+0.5);
+    // behind both of two inclined edges there is no (reversed) field
+    if (scal<0.0) scal = 0.0;
     B = B_val * scal;
     return ElMagField(E, B);
 }
-- 
2.43.0


From cd8a23afe1640436c8fd4a3c143570beb432d1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 12/23] fix: compute observer buffer sizes without 32-bit
 overflow

---
 src/mesh.cpp        | 2 +-
 src/mesh.h          | 2 +-
 src/screen.cpp      | 4 ++--
 src/screen.h        | 2 +-
 src/snapshot.cpp    | 4 ++--
 src/snapshot.h      | 2 +-
 src/source_screen.h | 2 +-
 7 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 9a696a6..7ab095e 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -682,7 +682,7 @@ void MeshedScreen<SourceT>::writeFile(std::string filename)
     dataspace = H5Screate_simple (3, fdims, NULL);
     if (dataspace<0) throw(IOexception("MeshedScreen - error creating dataspace for ElMagField"));
     // buffer the data
-    double *fbuffer = new double[Np*Nt*6];
+    double *fbuffer = new double[getBufferSize()];
     if (fbuffer==0) throw(IOexception("MeshedScreen - error allocating memory."));
     double *fbp = fbuffer;
     for (int ip=0; ip<Np; ip++)
diff --git a/src/mesh.h b/src/mesh.h
index 9d5673c..b7b6296 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -162,7 +162,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Np*Nt*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Np*Nt*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freed
diff --git a/src/screen.cpp b/src/screen.cpp
index 7d00ab7..97438c4 100644
--- a/src/screen.cpp
+++ b/src/screen.cpp
@@ -273,7 +273,7 @@ double* ScreenObserver<SourceT>::getBuffer()
 template <typename SourceT>
 void ScreenObserver<SourceT>::fromBuffer(double *buffer, std::size_t size)
 {
-    if (size==Nx*Ny*NOTS*6)
+    if (size==getBufferSize())
     {
         double *bp = buffer;
         for (unsigned int ix = 0; ix < Nx; ix++)
@@ -315,7 +315,7 @@ void ScreenObserver<SourceT>::WriteTimeDomainFieldHDF5()
     hid_t pspace = H5Screate_simple (3, pdims, NULL);
     if (pspace<0) throw(IOexception("ScreenObserver::WriteTimeDomainFieldHDF5 - error in H5Screate(pspace) - old"));
     // buffer the data
-    double *pbuffer = new double[Nx*Ny*3];
+    double *pbuffer = new double[(std::size_t)Nx*Ny*3];
     double *bp = pbuffer;
     for (unsigned int ix = 0; ix < Nx; ix++)
 	for (unsigned int iy = 0; iy < Ny; iy++)
diff --git a/src/screen.h b/src/screen.h
index 1345af6..9ce62b0 100644
--- a/src/screen.h
+++ b/src/screen.h
@@ -150,7 +150,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Nx*Ny*NOTS*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Nx*Ny*NOTS*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freeed
diff --git a/src/snapshot.cpp b/src/snapshot.cpp
index be9ec7e..610d4ae 100644
--- a/src/snapshot.cpp
+++ b/src/snapshot.cpp
@@ -201,7 +201,7 @@ double* SnapshotObserver<SourceT>::getBuffer()
 template <typename SourceT>
 void SnapshotObserver<SourceT>::fromBuffer(double *buffer, std::size_t size)
 {
-    if (size==Nx*Ny*6)
+    if (size==getBufferSize())
     {
         ElMagField field;
         double *bp = buffer;
@@ -240,7 +240,7 @@ void SnapshotObserver<SourceT>::WriteFieldHDF5()
     hid_t pspace = H5Screate_simple (3, pdims, NULL);
     if (pspace<0) throw(IOexception("SnapshotObserver::WriteFieldHDF5 - error in H5Screate(pspace)"));
     // buffer the data
-    double *buffer = new double[Nx*Ny*3];
+    double *buffer = new double[(std::size_t)Nx*Ny*3];
     double *bp = buffer;
     for (unsigned int ix = 0; ix < Nx; ix++)
 	for (unsigned int iy = 0; iy < Ny; iy++)
diff --git a/src/snapshot.h b/src/snapshot.h
index b5181fb..e8d847d 100644
--- a/src/snapshot.h
+++ b/src/snapshot.h
@@ -131,7 +131,7 @@ public:
     /*! The method gives the size of the buffer necessary to store
      *  the complete field information as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() override { return Nx*Ny*6; };
+    std::size_t getBufferSize() override { return (std::size_t)Nx*Ny*6; };
     
     /*! Return all field values in a newly allocated buffer.
      *  Memory for the buffer is allocated by this method and must be freed
diff --git a/src/source_screen.h b/src/source_screen.h
index 20d2d2f..e81d80c 100644
--- a/src/source_screen.h
+++ b/src/source_screen.h
@@ -105,7 +105,7 @@ public:
      *  the field information of either the traces or one of the derivatives
      *  as a number of doubles (not bytes!).
      */
-    std::size_t getBufferSize() { return Nx*Ny*NOTS*6; };
+    std::size_t getBufferSize() { return (std::size_t)Nx*Ny*NOTS*6; };
 
     /*! Get the energy flow density vector of one trace
      *  integrated over time
-- 
2.43.0


From 3ebd36598bcf5ce1d978164b013fdf5276da21ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 13/23] fix: return the time step of a mesh screen as a
 floating-point number

---
 src/mesh.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.h b/src/mesh.h
index b7b6296..e5bc978 100644
--- a/src/mesh.h
+++ b/src/mesh.h
@@ -124,7 +124,7 @@ public:
     int get_Nt() { return Nt; }
 
     /* Get the length of the time steps */
-    int get_dt() { return dt; }
+    double get_dt() { return dt; }
 
     //! @todo all index operations should be range-checked
     /*! Get the position of one grid cell */
-- 
2.43.0


From 555973546818eeebf39e98cccc9a7f780e9997d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:32 +0000
Subject: [PATCH 14/23] fix: mesh cells facing the negative y direction have a
 well-defined local frame

---
 src/mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mesh.cpp b/src/mesh.cpp
index 7ab095e..d53a614 100644
--- a/src/mesh.cpp
+++ b/src/mesh.cpp
@@ -253,7 +253,7 @@ void MeshedScreen<SourceT>::init()
             if (DEBUGLEVEL>=1) cout << "WARNING: MeshedScreen normals are not aligned well enough" << std::endl;
     };
     // setup the cell-local coordinate systems
-    if (avg_normal.y < 0.7)
+    if (fabs(avg_normal.y) < 0.7)
     {
         // if the average normal vector is sufficiently far off the y direction
         // xi is confined to lay in the x-z-plane
-- 
2.43.0


From 0d4b7a587493dfc6da887a91f4e3754f121b583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:28 +0000
Subject: [PATCH 15/23] fix: source screens radiate fields in the coordinate
 system of the file for any screen orientation

---
 src/source_screen.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 77e6c53..0047be4 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -119,7 +119,7 @@ SourceScreen::SourceScreen(
     dX *= dx;
     dy = dY.norm();
     dY -= normal*dot(dY,normal);
-    dY -= dX*dot(dY,dX);
+    dY -= ex*dot(dY,ex);
     dY.normalize();
     ey = dY;
     dY *= dy;
@@ -181,11 +181,9 @@ SourceScreen::SourceScreen(
     	    FieldTrace* tr = new FieldTrace(CellTimeZero(ix,iy),dt_src,NOTS);
     	    if (tr==0) throw(IOexception("SourceScreen - error allocating memory."));
     	    tr -> set_buffer(b, NOTS);
-    	    // the field data are expressed in screen-local coordinates
-    	    tr -> transform(ex,ey,normal);
     	    // coax the fields to be purely transversal
-    	    // (cancel the z component in the screen-local frame)
-    	    tr -> cancel_long_fields(Vector(0.0,0.0,1.0));
+    	    // (cancel the component along the screen normal)
+    	    tr -> cancel_long_fields(normal);
     	    Traces[ix][iy] = tr;
     	    b+=NOTS;
     	};
-- 
2.43.0


From 3d67efb94880ce68a5349015f4999ea044fb0ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 16/23] fix: release the field buffer of a source screen as the
 array it is

---
 src/source_screen.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/source_screen.cpp b/src/source_screen.cpp
index 0047be4..b6a6d7c 100644
--- a/src/source_screen.cpp
+++ b/src/source_screen.cpp
@@ -142,7 +142,7 @@ SourceScreen::SourceScreen(
     }    
 
     // read the field dataset
-    ElMagField* field_buf = new ElMagField[getBufferSize()];
+    ElMagField* field_buf = new ElMagField[(std::size_t)Nx*Ny*NOTS];
     if (field_buf==0) throw(IOexception("SourceScreen - error allocating memory."));
     dataset = H5Dopen2(file, "ElMagField", H5P_DEFAULT);
     
@@ -190,7 +190,7 @@ SourceScreen::SourceScreen(
     }
     
     // done with the field data
-    delete field_buf;
+    delete[] field_buf;
         
     // done with the file
     status = H5Fclose (file);
-- 
2.43.0


From f41953dea1a27d9b7dee151216f1e24dff09d4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 17/23] fix: FEL_1D default constructor set e_x twice and never
 e_y

---
 src/fel1d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index ce405a3..5671abf 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -38,7 +38,7 @@ FEL_1D::FEL_1D(
     step_Output = 1;
     prop = Vector(0.0, 0.0, 1.0);
     e_x = Vector(1.0, 0.0, 0.0);
-    e_x = Vector(0.0, 1.0, 0.0);
+    e_y = Vector(0.0, 1.0, 0.0);
     head = Vector(0.0, 0.0, 0.0);
     origin = head;
     createOutput = false;
-- 
2.43.0


From e6930adc0d9ccfccde49b7885734d432c64f1bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 18/23] fix: FEL_1D without log divided by an uninitialized
 output step

---
 src/fel1d.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 5671abf..4e6bfee 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -98,13 +98,13 @@ FEL_1D::FEL_1D(
     e_x.normalize();
     e_y = cross(prop, e_x);
     // define file output if requested
+    step_Output = 1;
     pugi::xml_node lognode = node.child("log");
     if (lognode)
     {
         pugi::xml_attribute fn = lognode.attribute("file");
         if (!fn) throw(IOexception("InputParser::FEL1D - <log> filename for log not found."));
         FileName = fn.as_string();
-        step_Output = 1;
         pugi::xml_attribute st = lognode.attribute("step");
         if (st) step_Output = st.as_int();
         createOutput = true;
@@ -319,7 +319,7 @@ void FEL_1D::step(Beam *beam)
     //! @todo we have to scale the fields according to the change in mode size
     
     // every number of steps we record the fields
-    if (0 == N_steps % step_Output)
+    if (step_Output>0 && 0 == N_steps % step_Output)
     {
         field_storage.push_back(field_E);
         J_storage.push_back(J_x);
-- 
2.43.0


From 89d0ed87c05d6cdb07ef5297e4ed8157805b3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:24 +0000
Subject: [PATCH 19/23] fix: FEL_1D wrote outside of field grids with less than
 two cells

---
 src/fel1d.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fel1d.cpp b/src/fel1d.cpp
index 4e6bfee..efa76ca 100644
--- a/src/fel1d.cpp
+++ b/src/fel1d.cpp
@@ -137,6 +137,9 @@ FEL_1D::FEL_1D(
 
 void FEL_1D::setup(double ZR, double w0, double z_w)
 {
+    // the propagation algorithm needs at least the two cells at the head
+    if (N_field<2)
+        throw(IOexception("FEL1D - the field grid needs at least 2 cells."));
     // proper orthonormalization of (e_x, e_y, prop) is assumed
     dz = prop * (-dt*SpeedOfLight);
     field_E = std::vector<double>(N_field, 0.0);
-- 
2.43.0


From a995f7ef2b7130b70603e43bf19aca2e2d98b381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:11 +0000
Subject: [PATCH 20/23] fix: lattice observers were multiplied by the number of
 nodes

---
 src/teufel_hybrid.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/teufel_hybrid.cpp b/src/teufel_hybrid.cpp
index db0ee40..1482f5c 100644
--- a/src/teufel_hybrid.cpp
+++ b/src/teufel_hybrid.cpp
@@ -710,7 +710,8 @@ int main(int argc, char *argv[])
         if (auto obs = dynamic_cast<Observer<Lattice>*>(observer))
         {
             obs->setSource(lattice);
-            obs->integrate();
+            // every node knows the complete lattice, only one of them may contribute its fields to the sum
+            if (teufel::rank == 0) obs->integrate();
         }
         double stop_time = MPI_Wtime();
         MPI_Barrier(MPI_COMM_WORLD);
-- 
2.43.0


From 76ffd7bc04ca51f1b545962c6ec396dcb74a4c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 21/23] fix: integrateFieldTrace addressed buckets outside the
 trace when an arrival time rounds to its edge

---
 src/particle.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/particle.cpp b/src/particle.cpp
index 88d7ebb..d2675eb 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -813,8 +813,10 @@ void ChargedParticle::integrateFieldTrace(
 		    // both cases are handled with the same code
 	        {
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2>nots) idx2=nots;
+		        double r2 = round((ts2-t0)/dt);
+		        int idx2 = (r2<nots) ? r2 : nots;
+		        // rounding can yield an index just outside the trace
+		        if (idx2<0) idx2=0;
 		        // handle all fully covered buckets
 		        for (int idx=0; idx<idx2; idx++)
 		        {
@@ -840,9 +842,12 @@ void ChargedParticle::integrateFieldTrace(
 	        {
 		        // observation bucket in which the step start falls
 		        int idx1 = round((ts1-t0)/dt);
+		        // rounding can yield an index just outside the trace
+		        if (idx1<0) idx1=0;
+		        if (idx1>nots-1) idx1=nots-1;
 		        // observation bucket in which the step end falls
-		        int idx2 = round((ts2-t0)/dt);
-		        if (idx2>nots) idx2=nots;
+		        double r2 = round((ts2-t0)/dt);
+		        int idx2 = (r2<nots) ? r2 : nots;
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
 		        {
-- 
2.43.0


From 3ed80d1572336758edbd0dd3a2c71ae2a5c294f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:26 +0000
Subject: [PATCH 22/23] fix: Mirror left the momentum used by the next tracking
 step unmirrored

---
 src/particle.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index d2675eb..d0a67c9 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -373,6 +373,9 @@ void ChargedParticle::Mirror(Vector origin, Vector normal, double f_charge)
     // normal acceleration is reversed
     Vector da = normal*dot(A_current,normal);
     A_current -= da*2.0;
+    // normal component of the tracking momentum is reversed
+    Vector dv = normal*dot(VY_p_i1,normal);
+    VY_p_i1 -= dv*2.0;
     for (int i=0; i<NP; i++)
     {
         // normal distance to mirror plane is added 2x to position
-- 
2.43.0


From 9cb053b0c4e89680172af3b014056033e6a1ae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:00 +0000
Subject: [PATCH 23/23] fix: integrateFieldTrace addressed bucket -1 for a time
 step that rounds to the lower edge of the trace

---
 src/particle.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/particle.cpp b/src/particle.cpp
index d0a67c9..53d0e28 100644
--- a/src/particle.cpp
+++ b/src/particle.cpp
@@ -851,6 +851,7 @@ void ChargedParticle::integrateFieldTrace(
 		        // observation bucket in which the step end falls
 		        double r2 = round((ts2-t0)/dt);
 		        int idx2 = (r2<nots) ? r2 : nots;
+		        if (idx2<idx1) idx2=idx1;
 		        if (idx1==idx2)
 		        // time step if fully within one bucket
 		        {
-- 
2.43.0

