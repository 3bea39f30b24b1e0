From 019ba2a7f6cbb62efdf15361cd4166c01eb4f2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:03:06 +0000
Subject: [PATCH 01/29] fix: give the origin a defined polar angle

Converting the point (0,0,0) to spherical coordinates divided zero by zero,
so the polar angle and every component converted back were NaN.
---
 src/components/Spherical.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/components/Spherical.cpp b/src/components/Spherical.cpp
index ba3477e..f298703 100644
--- a/src/components/Spherical.cpp
+++ b/src/components/Spherical.cpp
@@ -18,7 +18,13 @@ SphericalVector::SphericalVector(const mfem::Vector& p)
 	};
 	radius = std::sqrt(t_radius);
 	// For 2D points (in the xy-plane) theta is always pi/2 (equatorial plane).
-	p.Size() == 2 ? theta = M_PI / 2.0 : theta = std::acos(p[2] / radius);
+	// The origin has no direction; the z axis is taken so that the angles stay defined.
+	if (p.Size() == 2) {
+		theta = M_PI / 2.0;
+	}
+	else {
+		theta = radius == 0.0 ? 0.0 : std::acos(p[2] / radius);
+	}
 	phi = std::atan2(p[1], p[0]);
 }
 
-- 
2.43.0


From 5a1e300c6f27beb2b32dc21332721aa369ed9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:09 +0000
Subject: [PATCH 02/29] fix: give interior conductors the full mirror jump in
 the element-wise operator

The jump at an interior electric or magnetic conductor was taken as the
field itself instead of twice the field, which is what exterior conductors
and the assembled operator use. The field could gain energy there.
---
 src/evolution/HesthavenEvolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index f678a83..a0f10d0 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -306,8 +306,8 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 		}
 	};
 
-	applyIntBdrBC(bdrMaps.intPEC, -1.0, 0.0);
-	applyIntBdrBC(bdrMaps.intPMC, 0.0, -1.0);
+	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
+	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
 	applyIntBdrBC(bdrMaps.intSMA, -0.5, -0.5);
 
 }
-- 
2.43.0


From b1b45208d742893154a20c46e21c12640fb909df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:42:53 +0000
Subject: [PATCH 03/29] fix: absorb fully at SMA boundaries of the element-wise
 operator for every upwind factor

The absorbing jump was divided by the upwind factor so that the penalty
came out right, which scaled the other flux term wrongly and gave infinite
values for centered fluxes. Interior absorbing faces used half the jump.
Take the plain jump and a full penalty at absorbing nodes instead.
---
 src/evolution/HesthavenEvolution.cpp | 27 ++++++++++++++++++++++-----
 src/evolution/HesthavenEvolution.h   |  2 ++
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/src/evolution/HesthavenEvolution.cpp b/src/evolution/HesthavenEvolution.cpp
index a0f10d0..840a7d5 100644
--- a/src/evolution/HesthavenEvolution.cpp
+++ b/src/evolution/HesthavenEvolution.cpp
@@ -289,7 +289,7 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyBdrBC(bdrMaps.PEC, -2.0, 0.0);
 	applyBdrBC(bdrMaps.PMC, 0.0, -2.0);
-	applyBdrBC(bdrMaps.SMA, -1.0 / opts_.alpha, -1.0 / opts_.alpha);
+	applyBdrBC(bdrMaps.SMA, -1.0, -1.0);
 
 	auto applyIntBdrBC = [&](const auto& bc, double e_coeff, double h_coeff) {
 		for (int m = 0; m < bc.mapBElem1.size(); m++) {
@@ -308,10 +308,26 @@ void HesthavenEvolution::applyBoundaryConditionsToNodes(const BoundaryMaps& bdrM
 
 	applyIntBdrBC(bdrMaps.intPEC, -2.0, 0.0);
 	applyIntBdrBC(bdrMaps.intPMC, 0.0, -2.0);
-	applyIntBdrBC(bdrMaps.intSMA, -0.5, -0.5);
+	applyIntBdrBC(bdrMaps.intSMA, -1.0, -1.0);
 
 }
 
+void HesthavenEvolution::initUpwindFactors()
+{
+	// Absorbing boundaries are always fully upwinded.
+	upwind_.setConstant(connectivity_.global.size(), opts_.alpha);
+	auto absorb = [&](const auto& maps) {
+		for (const auto& map : maps) {
+			for (const auto& v : map) {
+				upwind_[v] = 1.0;
+			}
+		}
+	};
+	absorb(connectivity_.boundary.SMA.mapB);
+	absorb(connectivity_.boundary.intSMA.mapBElem1);
+	absorb(connectivity_.boundary.intSMA.mapBElem2);
+}
+
 HesthavenEvolution::HesthavenEvolution(ParFiniteElementSpace& fes, Model& model, SourcesManager& srcmngr, EvolutionOptions& opts) :
 	TimeDependentOperator(numberOfFieldComponents* numberOfMaxDimensions* fes.GetNDofs()),
 	fes_(fes),
@@ -343,6 +359,7 @@ HesthavenEvolution::HesthavenEvolution(ParFiniteElementSpace& fes, Model& model,
 	curvedElements_ = elemOrderList.second;
 
 	checkForTFSFInCurvedElements();
+	initUpwindFactors();
 
 	hestElemLinearStorage_.resize(linearElements_.Size());
 
@@ -449,7 +466,6 @@ void loadOutVectors(const Eigen::VectorXd& data, const FiniteElementSpace& fes,
 
 void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 {
-	double alpha = opts_.alpha;
 	in.UseDevice(true);
 	out.UseDevice(true);
 
@@ -505,6 +521,7 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 		}
 
 		HesthavenFields elemFlux(elemFluxSize);
+		const Eigen::VectorXd alpha = upwind_.segment(hestElemLinearStorage_[e].id * elemFluxSize, elemFluxSize);
 
 		for (int x = X; x <= Z; x++) {
 			int y = (x + 1) % 3;
@@ -514,8 +531,8 @@ void HesthavenEvolution::Mult(const Vector& in, Vector& out) const
 			const Eigen::VectorXd& nory = hestElemLinearStorage_[e].normals[y];
 			const Eigen::VectorXd& norz = hestElemLinearStorage_[e].normals[z];
 
-			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
-			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
+			elemFlux.h_[x] = -1.0 * nory.asDiagonal() * jumpsElem.e_[z] +       norz.asDiagonal() * jumpsElem.e_[y] + alpha.asDiagonal() * (jumpsElem.h_[x] - ndotdH.asDiagonal() * norx);
+			elemFlux.e_[x] =        nory.asDiagonal() * jumpsElem.h_[z] - 1.0 * norz.asDiagonal() * jumpsElem.h_[y] + alpha.asDiagonal() * (jumpsElem.e_[x] - ndotdE.asDiagonal() * norx);
 
 		}
 
diff --git a/src/evolution/HesthavenEvolution.h b/src/evolution/HesthavenEvolution.h
index fcf7d3a..5f0f7df 100644
--- a/src/evolution/HesthavenEvolution.h
+++ b/src/evolution/HesthavenEvolution.h
@@ -29,6 +29,7 @@ private:
 	void checkForTFSFInCurvedElements();
 	void applyBoundaryConditionsToNodes(const BoundaryMaps&, const FieldsInputMaps& in, HesthavenFields& out) const;
 	bool isDoFinCurvedElement(const NodeId& d) const;
+	void initUpwindFactors();
 	
 	const Eigen::VectorXd applyLIFT(const Eigen::VectorXd& fscale, Eigen::VectorXd& flux) const;
 	
@@ -46,6 +47,7 @@ private:
 	DynamicMatrix refLIFT_;
 	Connectivities connectivity_;
 	std::vector<Source::Position> positions_;
+	Eigen::VectorXd upwind_;
 
 };
 }
\ No newline at end of file
-- 
2.43.0


From 48b5f21a3842f5d8a298acd039bca22719960512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 19:57:46 +0000
Subject: [PATCH 04/29] fix: give element-wise node positions a zero third
 coordinate in two dimensions

The positions were read from a three-component grid function that a
two-dimensional mesh only fills in two components, so total-field sources
were evaluated at an undefined height.
---
 src/evolution/HesthavenEvolutionMethods.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/evolution/HesthavenEvolutionMethods.cpp b/src/evolution/HesthavenEvolutionMethods.cpp
index ce6e6b0..07cf2dc 100644
--- a/src/evolution/HesthavenEvolutionMethods.cpp
+++ b/src/evolution/HesthavenEvolutionMethods.cpp
@@ -77,14 +77,18 @@ namespace maxwell {
 	const std::vector<Source::Position> buildDoFPositions(const FiniteElementSpace& fes)
 	{
 		auto fec{ dynamic_cast<const L2_FECollection*>(fes.FEColl()) };
-		auto vdimfes = FiniteElementSpace(fes.GetMesh(), fec, 3);
+		const int sdim{ fes.GetMesh()->SpaceDimension() };
+		auto vdimfes = FiniteElementSpace(fes.GetMesh(), fec, sdim);
 		GridFunction nodes(&vdimfes);
 		fes.GetMesh()->GetNodes(nodes);
-		auto dirSize{ nodes.Size() / 3 };
+		auto dirSize{ nodes.Size() / sdim };
 		std::vector<Source::Position> res;
 		res.resize(dirSize);
 		for (auto i{ 0 }; i < dirSize; i++) {
-			res[i] = Source::Position({ nodes[i], nodes[i + dirSize], nodes[i + dirSize * 2] });
+			res[i] = Source::Position({ 0.0, 0.0, 0.0 });
+			for (auto d{ 0 }; d < sdim; d++) {
+				res[i][d] = nodes[i + dirSize * d];
+			}
 		}
 		return res;
 	}
-- 
2.43.0


From 999197ad90fe2f750db73b2e0faa77ea121feeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:01:35 +0000
Subject: [PATCH 05/29] fix: inject through a single total-field point next to
 the first element

A single point between the first two elements was taken for the end of the
domain, and no field was injected.
---
 src/components/SubMesher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/components/SubMesher.cpp b/src/components/SubMesher.cpp
index 29ea54e..ad45d10 100644
--- a/src/components/SubMesher.cpp
+++ b/src/components/SubMesher.cpp
@@ -504,11 +504,11 @@ void TotalFieldScatteredFieldSubMesher::assignIndividualTFSFAttsOnePoint1D(Mesh&
 			auto be_trans{ getFaceElementTransformation(m, be) };
 			std::pair<FaceId, IsTF> set_e1;
 			std::pair<FaceId, IsTF> set_e2;
-			if (be_trans->Elem1No == 0) {
+			if (be_trans->Elem1No == 0 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(0, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-			else if (be_trans->Elem1No == m.GetNE() - 1) {
+			else if (be_trans->Elem1No == m.GetNE() - 1 && be_trans->Elem2No < 0) {
 				set_e1 = std::make_pair(1, true);
 				set_e2 = std::make_pair(NotFound, false);
 			}
-- 
2.43.0


From ee783f3ceb252d87df3b23bad9078f972e391dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:03:36 +0000
Subject: [PATCH 06/29] fix: add up several total-field sources in the per-term
 operator

Only the last total-field source was evaluated, and its field was injected
once for every source.
---
 src/evolution/MaxwellEvolution.cpp | 3 +++
 src/solver/SourcesManager.cpp      | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 3c5b7f9..8a9f07f 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -325,6 +325,9 @@ void MaxwellEvolution::Mult(const Vector& in, Vector& out) const
 				eMap.TransferAdd(eTemp[x], eNew[x]);
 
 			}
+
+			// The evaluated function already adds up all total field sources.
+			break;
 		}
 	}
 }
diff --git a/src/solver/SourcesManager.cpp b/src/solver/SourcesManager.cpp
index 77bf290..8400126 100644
--- a/src/solver/SourcesManager.cpp
+++ b/src/solver/SourcesManager.cpp
@@ -65,7 +65,10 @@ FieldGridFuncs SourcesManager::evalTimeVarField(const Time time, FiniteElementSp
                 };
                 FunctionCoefficient func(f);
                 func.SetTime(time);
-                cached_tfsf_fields_[ft][d].ProjectCoefficient(func);
+                GridFunction gf(fes);
+                gf.UseDevice(true);
+                gf.ProjectCoefficient(func);
+                cached_tfsf_fields_[ft][d] += gf;
             }
         }
     }
-- 
2.43.0


From fba06a5b5991a2e1f6f48364bc01b75e66d82477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 20:09:29 +0000
Subject: [PATCH 07/29] fix: accept initial field centres with fewer
 coordinates than the mesh

The centre was read past its end when it had fewer entries than the mesh
has dimensions. Coordinates that are left out are now zero.
---
 src/components/Sources.cpp | 2 +-
 src/components/Sources.h   | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/components/Sources.cpp b/src/components/Sources.cpp
index e54bb85..893b5f9 100644
--- a/src/components/Sources.cpp
+++ b/src/components/Sources.cpp
@@ -46,7 +46,7 @@ double InitialField::eval(
 	Position pos(p.Size());
 	Position center(p.Size());
 	center = 0.0;
-	for (int v{0}; v < center.Size(); v++){
+	for (int v{0}; v < std::min(center.Size(), center_.Size()); v++){
 		center[v] = center_[v];
 	}
 	for (int i{ 0 }; i < p.Size(); ++i) {
diff --git a/src/components/Sources.h b/src/components/Sources.h
index 1499ba2..820a085 100644
--- a/src/components/Sources.h
+++ b/src/components/Sources.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "math/Function.h"
+#include <algorithm>
 #include <functional>
 #include <memory>
 #include <cassert>
-- 
2.43.0


From 03b6b0d917edfedb195449ab05084a503c0773dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:01:32 +0000
Subject: [PATCH 08/29] fix: treat regions without a material as vacuum and
 refuse unknown boundary tags

---
 src/components/Model.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/components/Model.cpp b/src/components/Model.cpp
index 5dcb966..7a48b07 100644
--- a/src/components/Model.cpp
+++ b/src/components/Model.cpp
@@ -130,7 +130,7 @@ std::size_t Model::numberOfBoundaryMaterials() const
 
 mfem::Vector Model::initialiseGeomTagVector() const
 {
-	int size{ 0 };
+	int size{ pmesh_.attributes.Size() ? pmesh_.attributes.Max() : 0 };
 	for (auto const& [geomTag, mat] : attToMatMap_) {
 		if (geomTag >= size) {
 			size = geomTag;
@@ -145,6 +145,7 @@ mfem::Vector Model::initialiseGeomTagVector() const
 mfem::Vector Model::buildEpsMuPiecewiseVector(const FieldType& f) const
 {
 	auto res{ initialiseGeomTagVector() };
+	res = 1.0;
 
 	for (auto const& [geomTag, mat] : attToMatMap_) {
 		switch (f) {
@@ -186,6 +187,9 @@ void Model::assembleGeomTagToTypeMap(
 		if (geomTag <= 0) {
 			throw std::runtime_error("geomTag <= 0 in GeomTagToTypeMap assembly.");
 		}
+		if (geomTag > pmesh_.bdr_attributes.Max()) {
+			throw std::runtime_error("geomTag in GeomTagToTypeMap assembly is not present in the mesh.");
+		}
 
 		auto& marker{ getMarker(bdr, isInterior) };
 
-- 
2.43.0


From afaa24285c939f0c22487246196a9c4cc68d5921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:02:17 +0000
Subject: [PATCH 09/29] fix: leave Gmsh files of other versions and binary ones
 untouched

---
 src/driver/driver.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c5c2323..0a9abb2 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1103,6 +1103,15 @@ void fixGmshMesh(const std::string& filepath)
         int element_count_line_idx = -1;
 
         while (std::getline(in, line)) {
+            if (line.find("$MeshFormat") != std::string::npos && header_lines.empty()) {
+                header_lines.push_back(line);
+                if (!std::getline(in, line)) break;
+                double version;
+                int is_binary;
+                std::istringstream format(line);
+                if (!(format >> version >> is_binary) || version < 2.0 || version >= 3.0 || is_binary != 0)
+                    return; // Not Gmsh 2.2 ASCII, leave the file as it is.
+            }
             if (line.find("$Elements") != std::string::npos && !in_elements) {
                 in_elements = true;
                 header_lines.push_back(line);
-- 
2.43.0


From dcc0c4bc0ee83a9bad877bac2c0838ac4e20d42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:03:55 +0000
Subject: [PATCH 10/29] fix: wait until every process has read the mesh file
 before it can be rewritten

---
 src/driver/driver.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 0a9abb2..6536ddc 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1188,7 +1188,10 @@ mfem::Mesh assembleMesh(const std::string& mesh_string)
 		fixGmshMesh(mesh_string);
 	}
 	MPI_Barrier(MPI_COMM_WORLD);
-	return mfem::Mesh::LoadFromFile(mesh_string, 1, 0, true);
+	auto mesh = mfem::Mesh::LoadFromFile(mesh_string, 1, 0, true);
+	// The file may be rewritten by the next call, so everyone must be done reading it.
+	MPI_Barrier(MPI_COMM_WORLD);
+	return mesh;
 }
 
 mfem::Mesh assembleMeshNoFix(const std::string& mesh_string)
-- 
2.43.0


From bafae778094420c0d3f965c9ffde64d444ac0cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 11/29] fix: document the defaults, types and file layout the
 solver uses

---
 README.md | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/README.md b/README.md
index 1f76262..240b4fc 100644
--- a/README.md
+++ b/README.md
@@ -117,15 +117,15 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 		- cfl:
 			- Double. Courant–Friedrichs–Lewy condition used to compute the automatic time step in 1D. Not available for 2D or 3D. Ignored if `time_step` is also defined. Must be in the range (0.0, 1.0].
 		- order:
-			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `3`.
+			- Integer. Polynomial order of the finite element basis. If undefined, defaults to `2`.
 		- spectral:
 			- Boolean. Use a spectral evolution operator that assembles the full E/H system matrix and derives the time step from its eigenvalues. High computational cost; does not support all features. If undefined, defaults to `false`.
 		- export_operator:
 			- Boolean. Write the assembled evolution operator matrix to disk for inspection. If undefined, defaults to `false`.
 		- basis_type:
-			- String. Finite element basis type passed to MFEM.
+			- Integer. Finite element basis type passed to MFEM (`0` Gauss-Legendre, `1` Gauss-Lobatto). If undefined, defaults to `1`.
 		- ode_type:
-			- String. ODE time-integration method passed to MFEM.
+			- Integer. Time-integration method: `0` RK4, `1` backward Euler, `2` trapezoidal, `3` implicit midpoint, `4` SDIRK33, `5` SDIRK23, `6` SDIRK34. If undefined, defaults to `0`.
 
 - **model**:
 	- Object. Contains geometry, material, and boundary information.
@@ -191,7 +191,7 @@ An OpenSEMBA/dgtd JSON file must have the following structure; **bold** entries
 				- name: String. Output name.
 				- steps / saves: See exporter above.
 		- mor_state:
-			- Array. Each entry periodically saves the full DG state vector (all E and H DOFs) to disk over a specified time window. The saved vectors are compatible with the exported global operator matrix (`{name}_global.csr`), so that `y = A * x` can be evaluated offline (e.g. in Python). Each snapshot is written as a plain-text file `x_0`, `x_1`, … containing the vector size on the first line followed by one DOF value per line (16-digit precision). The vector layout is `[Ex₀…ExN | Ey | Ez | Hx | Hy | Hz]`.
+			- Array. Each entry periodically saves the full DG state vector (all E and H DOFs) to disk over a specified time window. The saved vectors are compatible with the exported global operator matrix (`{name}_global.csr`), so that `y = A * x` can be evaluated offline (e.g. in Python). Each snapshot is written as a plain-text file `x_0`, `x_1`, … containing the time on the first line and the vector size on the second, followed by one DOF value per line (16-digit precision). The vector layout is `[Ex₀…ExN | Ey | Ez | Hx | Hy | Hz]`.
 				- **record_time_start**: Double. Simulation time at which recording begins.
 				- **record_time_final**: Double. Simulation time at which recording ends.
 				- **saves**: Integer. Number of snapshots to record, distributed uniformly between `record_time_start` and `record_time_final`.
-- 
2.43.0


From 3e98b30a323fe4a919b928f34902462a9881bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 12/29] fix: name unnamed exports after the stem of the mesh
 file

---
 src/driver/driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 6536ddc..6351203 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -738,7 +738,7 @@ Probes buildProbes(const json& case_data)
             if (case_data["probes"]["exporter"].contains("name")) {
                 exporter_probe.name = case_data["probes"]["exporter"]["name"];
             } else {
-                exporter_probe.name = case_data["model"]["filename"];
+                exporter_probe.name = std::filesystem::path(case_data["model"]["filename"].get<std::string>()).stem().string();
             }
             exporter_probe.visSteps = calculate_interval(case_data["probes"]["exporter"]);
             if (case_data["probes"]["exporter"].contains("saves"))
@@ -811,7 +811,7 @@ Probes buildProbes(const json& case_data)
                 probe.name = case_data["probes"]["domain_snapshot"]["name"];
             }
             else{
-                probe.name = case_data["model"]["filename"];
+                probe.name = std::filesystem::path(case_data["model"]["filename"].get<std::string>()).stem().string();
             }
             probe.expSteps = calculate_interval(case_data["probes"]["domain_snapshot"]);
             if (case_data["probes"]["domain_snapshot"].contains("saves"))
-- 
2.43.0


From 43d875a873dcd8a9a58791c5252b2b82b0878491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 13/29] fix: refuse a CFL above one

---
 src/solver/Solver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/Solver.cpp b/src/solver/Solver.cpp
index 9504984..395e5dc 100644
--- a/src/solver/Solver.cpp
+++ b/src/solver/Solver.cpp
@@ -156,8 +156,8 @@ void Solver::checkOptionsAreValid(const SolverOptions& opts) const
         throw std::runtime_error("Incorrect parameters in Options");
     }
 
-    if (opts.cfl <= 0.0) {
-        throw std::runtime_error("CFL must be positive");
+    if (opts.cfl <= 0.0 || opts.cfl > 1.0) {
+        throw std::runtime_error("CFL must be in the range (0.0, 1.0]");
     }
 
 }
-- 
2.43.0


From ae46ce447e8d6b09a9f1f12d751bb24d579a980a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 14/29] fix: report missing parts of a case file instead of
 reading past them

---
 src/driver/driver.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 6351203..cfa95df 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -951,6 +951,8 @@ GeomTagToMaterialInfo assembleAttributeToMaterial(const json& case_data, const m
 	checkIfThrows(case_data["model"].contains("materials"), "JSON data does not include 'materials'.");
 
 	for (auto m = 0; m < case_data["model"]["materials"].size(); m++) {
+		checkIfThrows(case_data["model"]["materials"][m].contains("tags"),
+			"Material " + std::to_string(m) + " does not have defined 'tags'.");
 		for (auto t = 0; t < case_data["model"]["materials"][m]["tags"].size(); t++) {
 			double eps{ 1.0 }, mu{ 1.0 }, sigma{ 0.0 };
 			if (case_data["model"]["materials"][m].contains("relative_permittivity")) {
@@ -1260,8 +1262,8 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
         mesh = assembleMesh(assembleLauncherMeshString(case_data["model"]["filename"], case_path));
     }
 
-    auto att_to_material{ assembleAttributeToMaterial(case_data, mesh) };
     auto att_to_bdr_info{ assembleAttributeToBoundary(case_data, mesh) };
+    auto att_to_material{ assembleAttributeToMaterial(case_data, mesh) };
 
     if (!att_to_bdr_info.gt2b.empty() && !att_to_material.gt2m.empty()) {
         if (isTest) {
@@ -1658,7 +1660,10 @@ void prepareExportDirectories(Model& model)
 
 maxwell::Solver buildSolver(const json& case_data, const std::string& case_path, const bool isTest)
 {
-	
+	checkIfThrows(case_data.contains("model"), "JSON data does not include 'model'.");
+	checkIfThrows(case_data["model"].contains("filename"), "JSON data does not include 'filename' in 'model'.");
+	checkIfThrows(case_data.contains("sources"), "JSON data does not include 'sources'.");
+
 	maxwell::SolverOptions solverOpts{ buildSolverOptions(case_data) };
 	maxwell::Probes probes{ buildProbes(case_data) };
 	// Model (mesh) must be built before sources so that auto-mean computation
-- 
2.43.0


From 65a40b79fd2c7c2d61a292e0edcdcdd4526d22b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 15/29] fix: use default times for probe saves when the case
 file gives none

---
 src/driver/driver.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index cfa95df..b4b0aaf 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -722,8 +722,9 @@ Probes buildProbes(const json& case_data)
             int requested_saves = probe_data["saves"];
             if (requested_saves <= 0) return 1;
 
-            double t_final = case_data["solver_options"]["final_time"].get<double>();
-            double dt = case_data["solver_options"]["time_step"].get<double>();
+            const SolverOptions solver_options{ buildSolverOptions(case_data) };
+            double t_final = solver_options.final_time;
+            double dt = solver_options.time_step;
             if (dt <= 0.0) return 1; // Placeholder; will be corrected by recalculateExportSteps
 
             int total_simulation_steps = static_cast<int>(std::ceil(t_final / dt));
-- 
2.43.0


From 9e5922530168f450021358657921f7b2d0f6c0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 16/29] fix: set the missing components of short vectors to
 zero

---
 src/driver/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index b4b0aaf..7c78e04 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -345,7 +345,9 @@ mfem::Vector assembleCenterVector(const json& source_center)
 
 mfem::Vector assemble3DVector(const json& input)
 {
+	checkIfThrows(input.size() <= 3, "A vector in the JSON data has more than 3 components.");
 	mfem::Vector res(3);
+	res = 0.0;
 	for (int i = 0; i < input.size(); i++) {
 		res[i] = input[i];
 	}
-- 
2.43.0


From f77f159995345addb6aab636e0e6286a8c3b906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:08:30 +0000
Subject: [PATCH 17/29] fix: strip only the extension from the path of a case
 file

---
 src/driver/driver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 7c78e04..f7bc167 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -913,7 +913,7 @@ std::string assembleLauncherMeshString(const std::string& mesh_name, const std::
 	std::string s_msh  = ".msh";
 	std::string s_mesh = ".mesh";
 
-	std::string::size_type input_json = path.find(s_json);
+	std::string::size_type input_json = path.rfind(s_json);
 	std::string::size_type input_msh = mesh_name.find(s_msh);
 	std::string::size_type input_mesh = mesh_name.find(s_mesh);
 
-- 
2.43.0


From a3666484590400fd3dba2faa97d5f7da898db412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:22 +0000
Subject: [PATCH 18/29] fix: refuse initial sources with an unknown magnitude
 type

They were left out without a word, so the run started from zero fields.
---
 src/driver/driver.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index f7bc167..999ec6e 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -563,6 +563,9 @@ Sources buildSources(const json& case_data, const mfem::Mesh* mesh)
 					assemble3DVector(case_data["sources"][s]["polarization"]))
 				);
 			}
+			else {
+				throw std::runtime_error("Unknown magnitude type of an initial source in Json.");
+			}
 		}
 		else if (case_data["sources"][s]["type"] == "planewave") {
 			const auto& mag = case_data["sources"][s]["magnitude"];
-- 
2.43.0


From e258163a7d2393d398723a1033aaa249efa26a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:21:42 +0000
Subject: [PATCH 19/29] fix: delay automatic plane waves by the most upstream
 vertex of the surface

The centres of the surface elements were used, so on coarse surfaces the
pulse had already entered at the upstream corners when the run started.
---
 src/driver/driver.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 999ec6e..c58ec10 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -460,13 +460,17 @@ static double minPhaseOnTFSFSurface(const mfem::Mesh& mesh, const json& tags,
 	double min_phase = std::numeric_limits<double>::max();
 	const double c = physicalConstants::speedOfLight;
 	int dim = mesh.Dimension();
+	mfem::Array<int> verts;
 	for (int be = 0; be < mesh.GetNBE(); ++be) {
 		if (!bdrElemHasTag(mesh, be, tags)) continue;
-		auto x = bdrElemCentroid(mesh, be);
-		double phase = 0.0;
-		for (int d = 0; d < dim && d < d_hat.Size(); ++d) phase += x[d] * d_hat[d];
-		phase /= c;
-		min_phase = std::min(min_phase, phase);
+		mesh.GetBdrElementVertices(be, verts);
+		for (int v = 0; v < verts.Size(); ++v) {
+			const double* x = mesh.GetVertex(verts[v]);
+			double phase = 0.0;
+			for (int d = 0; d < dim && d < d_hat.Size(); ++d) phase += x[d] * d_hat[d];
+			phase /= c;
+			min_phase = std::min(min_phase, phase);
+		}
 	}
 	double global_min_phase;
 	MPI_Allreduce(&min_phase, &global_min_phase, 1, MPI_DOUBLE, MPI_MIN, MPI_COMM_WORLD);
-- 
2.43.0


From 605a76daf36a11dac3cdce33d84415ab6159b5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:30:04 +0000
Subject: [PATCH 20/29] fix: resolve layers for the highest frequency of all
 sources

Plane waves and dipoles without an explicit magnitude type were not looked
at, and one modulated source hid all the others.
---
 src/driver/driver.cpp | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index c58ec10..6701300 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -20,43 +20,28 @@ namespace maxwell::driver {
 double calculateMaximumSourceFrequency(const json& case_data)
 {
     double c_si = physicalConstants::speedOfLight_SI;
-    double min_spread = std::numeric_limits<double>::max();
     double max_freq = 0.0;
-    bool found_gaussian = false;
-    bool found_modulated = false;
 
     if (case_data.contains("sources")) {
         for (const auto& source : case_data["sources"]) {
             if (!source.contains("magnitude")) continue;
             const auto& mag = source["magnitude"];
-            // Modulated Gaussian: has "frequency" (with or without explicit "type")
-            if (mag.contains("frequency") && mag.contains("spread")) {
-                double spread = mag["spread"].get<double>();
-                double f_carrier = mag["frequency"].get<double>();
-                double f_edge = f_carrier + c_si / (2.0 * spread);
-                if (f_edge > max_freq) {
-                    max_freq = f_edge;
-                    found_modulated = true;
-                }
-            // Plain Gaussian: explicit type="gaussian", no frequency
-            } else if (mag.contains("type") && mag["type"] == "gaussian" && mag.contains("spread")) {
-                double spread = mag["spread"].get<double>();
-                if (spread > 0.0 && spread < min_spread) {
-                    min_spread = spread;
-                    found_gaussian = true;
-                }
+            if (!mag.contains("spread")) continue;
+            double spread = mag["spread"].get<double>();
+            if (spread <= 0.0) continue;
+            // Bandwidth of the Gaussian, on top of the carrier if it is modulated
+            double f_edge = c_si / (2.0 * spread);
+            if (mag.contains("frequency")) {
+                f_edge += mag["frequency"].get<double>();
             }
+            max_freq = std::max(max_freq, f_edge);
         }
     }
 
-    if (found_modulated) {
+    if (max_freq > 0.0) {
         return max_freq;
     }
 
-    if (found_gaussian) {
-        return c_si / (2.0 * min_spread);
-    }
-
     return 1e9;
 }
 
-- 
2.43.0


From e0537cecd9e43765c5ebde2b2b2c3e0519e3b8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:36:41 +0000
Subject: [PATCH 21/29] fix: use the solver's automatic delay when normalising
 far fields

The solver takes the most upstream vertex of the surface, the far-field
tools took the centres of its elements.
---
 src/components/FarField.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 290eb3a..0eb62d5 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -235,18 +235,14 @@ PlaneWaveData buildPlaneWaveData(const json& json, const std::string& meshDir)
 					Array<int> verts;
 					mesh.GetBdrElementVertices(be, verts);
 					int dim = mesh.Dimension();
-					Vector c(dim);
-					c = 0.0;
 					for (int v = 0; v < verts.Size(); ++v) {
 						const double* p = mesh.GetVertex(verts[v]);
-						for (int d = 0; d < dim; ++d) c[d] += p[d];
+						double phase = 0.0;
+						for (int d = 0; d < dim && d < d_hat.Size(); ++d)
+							phase += p[d] * d_hat[d];
+						phase /= physicalConstants::speedOfLight;
+						min_phase = std::min(min_phase, phase);
 					}
-					c /= static_cast<double>(verts.Size());
-					double phase = 0.0;
-					for (int d = 0; d < dim && d < d_hat.Size(); ++d)
-						phase += c[d] * d_hat[d];
-					phase /= physicalConstants::speedOfLight;
-					min_phase = std::min(min_phase, phase);
 				}
 				if (min_phase == std::numeric_limits<double>::max()) min_phase = 0.0;
 				projMean = min_phase - 5.0 * spread * std::sqrt(2.0);
-- 
2.43.0


From 01aad0c4892cd85ca5231c3326302178422e43e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:11:22 +0000
Subject: [PATCH 22/29] fix: let layers with absorbing ends absorb

The neighbour slot of an absorbing layer end held the element's own
values, so the jump was zero and outgoing waves were not damped there.
An absorbing end now presents zero fields, as absorbing faces inside the
mesh do.
---
 src/evolution/GlobalEvolution.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index db84650..b51edaa 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -855,8 +855,8 @@ void GlobalEvolution::Mult(const mfem::Vector& in, mfem::Vector& out) const
                 }
             } else if (bdr == BdrCond::SMA) {
                 for (int d = X; d <= Z; ++d) {
-                    multWorkVec_[d * blockSize + target_slot]       = in[d * ndofs + source_dof];
-                    multWorkVec_[(3 + d) * blockSize + target_slot] = in[(3 + d) * ndofs + source_dof];
+                    multWorkVec_[d * blockSize + target_slot]       = 0.0;
+                    multWorkVec_[(3 + d) * blockSize + target_slot] = 0.0;
                 }
             } else {
                 // Transparent: rotate slab local→global
-- 
2.43.0


From 296bf8a4a012f7c545498c8f7fd5f4b51b34b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:37:06 +0000
Subject: [PATCH 23/29] fix: compute the far-field phase from the projection
 onto the direction

The angle between surface point and direction was taken with acos, which is
undefined for a point at the origin and, by rounding, for points along the
direction. The projection gives the same phase without it.
---
 src/components/FarField.cpp | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/components/FarField.cpp b/src/components/FarField.cpp
index 0eb62d5..8935135 100644
--- a/src/components/FarField.cpp
+++ b/src/components/FarField.cpp
@@ -20,16 +20,6 @@ const Vector buildObsPointVec(const SphericalAngles& angles)
 	return res;
 }
 
-double calcPsiAngle2D(const Vector& p, const SphericalAngles& angles)
-{
-	auto vec{ buildObsPointVec(angles) };
-	Vector surfVec(vec.Size());
-	surfVec[0] = p[0];
-	surfVec[1] = p[1];
-	surfVec[2] = 0.0;
-	return std::acos((vec[0] * surfVec[0] + vec[1] * surfVec[1] + vec[2] * surfVec[2])  / (vec.Norml2() * surfVec.Norml2()));
-}
-
 double calcPsiAngle3D(const Vector& p, const SphericalAngles& angles)
 {
 	auto vec{ buildObsPointVec(angles) };
@@ -42,8 +32,10 @@ static double func_exp_part(const Vector& p, const Frequency freq, const Spheric
 {
 	auto landa = physicalConstants::speedOfLight / freq;
 	auto wavenumber = 2.0 * M_PI / landa;
-	auto psi = is3D ? calcPsiAngle3D(p, angles) : calcPsiAngle2D(p, angles);
-	auto rad_term = wavenumber * p.Norml2() * std::cos(psi);
+	// r' cos(psi) is the projection of the point on the direction, which also exists where the angle does not.
+	auto dir = buildObsPointVec(angles);
+	auto projection = dir[0] * p[0] + dir[1] * p[1] + (is3D ? dir[2] * p[2] : 0.0);
+	auto rad_term = wavenumber * projection / dir.Norml2();
 	return isReal ? cos(rad_term) : sin(rad_term);
 }
 
-- 
2.43.0


From b66b48321dce73fb66892760e79ad9c2fe364cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:38:23 +0000
Subject: [PATCH 24/29] fix: do not post-process snapshots that were cut off

A recording that ends within a snapshot was read as if the missing values were
zero, and one that ends within its header or geometry as if it was empty.
---
 src/components/RCSSurfacePostProcessor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/components/RCSSurfacePostProcessor.cpp b/src/components/RCSSurfacePostProcessor.cpp
index e39d8ce..316a2ba 100644
--- a/src/components/RCSSurfacePostProcessor.cpp
+++ b/src/components/RCSSurfacePostProcessor.cpp
@@ -81,6 +81,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
 
     int32_t hdr[5];
     f.read(reinterpret_cast<char*>(hdr), sizeof(hdr));
+    if (!f) throw std::runtime_error("Incomplete header in " + rankPath + "/surface_data.bin");
     rd.geometry.spaceDimension = hdr[0];
     rd.geometry.numDofs        = hdr[1];
     rd.geometry.numBdrElements = hdr[2];
@@ -100,6 +101,7 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
            nqp * 3 * sizeof(double));
     f.read(reinterpret_cast<char*>(rd.geometry.weights.data()),
            nqp * sizeof(double));
+    if (!f) throw std::runtime_error("Incomplete geometry in " + rankPath + "/surface_data.bin");
 
     const int ndofs = rd.geometry.numDofs;
     while (f.peek() != EOF) {
@@ -112,8 +114,10 @@ RCSSurfacePostProcessor::readRankData(const std::string& rankPath) const
             vec->resize(ndofs);
             f.read(reinterpret_cast<char*>(vec->data()), ndofs * sizeof(double));
         }
+        if (!f) break; // The recording was cut off within this snapshot.
         rd.snapshots.push_back(std::move(snap));
     }
+    if (rd.snapshots.empty()) throw std::runtime_error("No complete snapshot in " + rankPath + "/surface_data.bin");
     return rd;
 }
 
-- 
2.43.0


From 30642342b63b3fa8dce68ffd982dd1eb0b0a1fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:42:03 +0000
Subject: [PATCH 25/29] fix: let processes without recorded surface faces take
 part in the run

A process whose part of the mesh holds no face of a recorded surface stopped
with an error about an empty surface. It has nothing to record.
---
 src/solver/ProbesManager.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/solver/ProbesManager.cpp b/src/solver/ProbesManager.cpp
index e338b0e..4aa7b98 100644
--- a/src/solver/ProbesManager.cpp
+++ b/src/solver/ProbesManager.cpp
@@ -562,6 +562,17 @@ void ProbesManager::updateProbe(RCSSurfaceProbe& p, Time t)
     }
 }
 
+static bool hasFacesWithTags(const std::vector<int>& tags, const ParFiniteElementSpace& fes)
+{
+    const auto& mesh = *fes.GetMesh();
+    for (int be = 0; be < mesh.GetNBE(); ++be) {
+        if (std::find(tags.begin(), tags.end(), mesh.GetBdrAttribute(be)) != tags.end()) {
+            return true;
+        }
+    }
+    return false;
+}
+
 void ProbesManager::initRCSSurfaceExporters()
 {
     if (!fields_) return;
@@ -570,6 +581,9 @@ void ProbesManager::initRCSSurfaceExporters()
         if (!dgfec) {
             throw std::runtime_error("The FiniteElementCollection in the FiniteElementSpace is not DG.");
         }
+        if (Mpi::WorldSize() > 1 && !hasFacesWithTags(p.tags, fes_)) {
+            continue; // Other ranks hold the surface.
+        }
         rcsSurfaceExporters_.emplace(&p,
             std::make_unique<RCSSurfaceExporter>(p, dgfec, fes_, *fields_, caseName_));
     }
-- 
2.43.0


From 869237bdf73e393338affda31df3053e5138fe13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:44:58 +0000
Subject: [PATCH 26/29] fix: keep the elements along recorded surfaces on one
 process

The recording looks at both elements of each face of the surface, so a
partition that ran along it brought the run down.
---
 src/driver/driver.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index 6701300..a6d27b6 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1213,6 +1213,23 @@ Array<int> getTFSFTags(const json& case_data)
     return res;
 }
 
+Array<int> getRecordedSurfaceTags(const json& case_data)
+{
+    Array<int> res;
+    if (!case_data.contains("probes")) return res;
+
+    for (const auto& kind : { "farfield", "rcssurface" }) {
+        if (!case_data["probes"].contains(kind)) continue;
+        for (const auto& probe : case_data["probes"][kind]) {
+            if (!probe.contains("tags")) continue;
+            for (const auto& tag : probe["tags"]) {
+                res.Append(tag.get<int>());
+            }
+        }
+    }
+    return res;
+}
+
 Array<int> getSGBCTags(const json& case_data)
 {
     Array<int> res;
@@ -1279,6 +1296,9 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
     mfem::Array<int> tfsf_tags = getTFSFTags(case_data);
     mfem::Array<int> sgbc_tags  = getSGBCTags(case_data);
 
+    // Faces of recorded surfaces are located through both of their elements.
+    tfsf_tags.Append(getRecordedSurfaceTags(case_data));
+
     if (tfsf_tags.Size() || sgbc_tags.Size()){
         applyPairwiseConstraintsPartitioning(mesh, partitioning, tfsf_tags, sgbc_tags);
     }
-- 
2.43.0


From 22ced5845e0ce84b16466f2135ebade0558facc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:53:24 +0000
Subject: [PATCH 27/29] fix: keep both elements of an interior boundary face on
 one process

An interior PEC, PMC or SMA face is stored by one process. When the partition
ran along it, the process with the other element treated it as an ordinary
shared face.
---
 src/driver/driver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/driver/driver.cpp b/src/driver/driver.cpp
index a6d27b6..06e36a4 100644
--- a/src/driver/driver.cpp
+++ b/src/driver/driver.cpp
@@ -1299,6 +1299,12 @@ Model buildModel(const json& case_data, const std::string& case_path, const bool
     // Faces of recorded surfaces are located through both of their elements.
     tfsf_tags.Append(getRecordedSurfaceTags(case_data));
 
+    // An interior boundary face is kept by one process only, so the condition
+    // on it would be missed by a process that had just its second element.
+    for (const auto& [tag, cond] : att_to_bdr_info.gt2ib) {
+        tfsf_tags.Append(tag);
+    }
+
     if (tfsf_tags.Size() || sgbc_tags.Size()){
         applyPairwiseConstraintsPartitioning(mesh, partitioning, tfsf_tags, sgbc_tags);
     }
-- 
2.43.0


From 3617e44729efcddf826a13b23971c342eba7aeb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:53:24 +0000
Subject: [PATCH 28/29] fix: solve implicit steps over all processes together

The linear solver ran per process while each operator application exchanges
data with neighbours, so processes could stop after different iteration counts.
---
 src/evolution/GlobalEvolution.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/evolution/GlobalEvolution.cpp b/src/evolution/GlobalEvolution.cpp
index b51edaa..5ba6865 100644
--- a/src/evolution/GlobalEvolution.cpp
+++ b/src/evolution/GlobalEvolution.cpp
@@ -1147,7 +1147,7 @@ void GlobalEvolution::ImplicitSolve(const double dt,
     // For small serial systems (SGBC sub-solver), use cached dense LU
     // factorization. One-time cost: form A as dense + LU factor.
     // Per-solve cost: O(n^2) back-substitution instead of ~30 GMRES iterations.
-    if (nbrDofs == 0 && n <= dense_solve_threshold_) {
+    if (fes_.GetNRanks() == 1 && n <= dense_solve_threshold_) {
         // One-time: form dense copy of globalOperator_
         if (!dense_A_formed_) {
             globalOperator_->ToDenseMatrix(A_dense_);
@@ -1218,7 +1218,9 @@ void GlobalEvolution::ImplicitSolve(const double dt,
             }
         } J(n, std::function<void(const mfem::Vector&, mfem::Vector&)>(applyA_parallel), dt);
 
-        mfem::GMRESSolver gmres;
+        // All processes iterate together: each application of the operator is
+        // an exchange between neighbours.
+        mfem::GMRESSolver gmres(fes_.GetComm());
         gmres.SetOperator(J);
         gmres.SetRelTol(1e-8);
         gmres.SetMaxIter(400);
-- 
2.43.0


From 119ee588730f8725fa04ff595adf0cc010c5c152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:53:24 +0000
Subject: [PATCH 29/29] fix: build the total-field zone model on the local
 process only

Processes without part of the surface do not build it, so the collective
construction could not complete.
---
 src/evolution/MaxwellEvolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/evolution/MaxwellEvolution.cpp b/src/evolution/MaxwellEvolution.cpp
index 8a9f07f..5b74a2f 100644
--- a/src/evolution/MaxwellEvolution.cpp
+++ b/src/evolution/MaxwellEvolution.cpp
@@ -61,7 +61,7 @@ MaxwellEvolution::MaxwellEvolution(
 		if (pd_.model.getTotalFieldScatteredFieldToMarker().find(BdrCond::TotalFieldIn) != pd_.model.getTotalFieldScatteredFieldToMarker().end()) {
 			srcmngr.initTFSFPreReqs(pd_.model.getConstMesh(), pd_.model.getTotalFieldScatteredFieldToMarker().at(BdrCond::TotalFieldIn));
 			auto globalTFSFfes{ srcmngr.getGlobalTFSFSpace() };			
-			Model tfsfModel(*globalTFSFfes->GetMesh(), GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(GeomTagToBoundary{}, GeomTagToInteriorBoundary{}));
+			Model tfsfModel(*globalTFSFfes->GetMesh(), GeomTagToMaterialInfo(), GeomTagToBoundaryInfo(GeomTagToBoundary{}, GeomTagToInteriorBoundary{}), nullptr, MPI_COMM_SELF);
 			ProblemDescription tfsfPD(tfsfModel, pd_.probes, pd_.sources, pd_.opts);
 			DGOperatorFactory<FiniteElementSpace> tfsfFactory(tfsfPD, *globalTFSFfes);
 
-- 
2.43.0

