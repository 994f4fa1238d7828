From 74645a0361a42f655e6e7a4cbdd838c2746d1c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:57 +0000
Subject: [PATCH 01/19] fix: default-constructed and reassigned Vector/Matrix
 own no dangling or leaked storage

---
 src/LinearAlgebra/Models/Matrix.h | 5 ++---
 src/LinearAlgebra/Models/Vector.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/LinearAlgebra/Models/Matrix.h b/src/LinearAlgebra/Models/Matrix.h
index 6693ec9..46ae833 100644
--- a/src/LinearAlgebra/Models/Matrix.h
+++ b/src/LinearAlgebra/Models/Matrix.h
@@ -93,6 +93,7 @@ protected:
     Matrix<T>::Matrix() {
         this->row = 0;
         this->col = 0;
+        this->values = nullptr;
     }
 
 
@@ -154,9 +155,7 @@ protected:
     template<class T>
     Matrix<T>& Matrix<T>::operator=(const Matrix<T>& _mat){
         if(this != &_mat){
-            if(this->row != 0 && this->col != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->row = _mat.row;
             this->col = _mat.col;
diff --git a/src/LinearAlgebra/Models/Vector.h b/src/LinearAlgebra/Models/Vector.h
index 9102884..48b78c4 100644
--- a/src/LinearAlgebra/Models/Vector.h
+++ b/src/LinearAlgebra/Models/Vector.h
@@ -83,6 +83,7 @@ protected:
     template<class T>
     Vector<T>::Vector(){
         this->size = 0;
+        this->values = nullptr;
     }
 
 
@@ -156,9 +157,7 @@ protected:
     template<class T>
     Vector<T>& Vector<T>::operator=(const Vector<T>& _vec){
         if(this != &_vec){
-            if(this->size != 0){
-                delete[] this->values;
-            }
+            delete[] this->values;
 
             this->size = _vec.size;
             this->values = new T[this->size];
-- 
2.43.0


From 7d45a0825d560cd670ba2a04522b8d4c98986a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:44 +0000
Subject: [PATCH 02/19] fix: scalar * CSR from the left compiles (drop the
 non-friend duplicate overload)

---
 src/LinearAlgebra/Models/CSR.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/src/LinearAlgebra/Models/CSR.h b/src/LinearAlgebra/Models/CSR.h
index 85e8527..3f92bc3 100644
--- a/src/LinearAlgebra/Models/CSR.h
+++ b/src/LinearAlgebra/Models/CSR.h
@@ -167,16 +167,6 @@ inline T CSR<T>::get(int _row, int _col) const {
 }
 
 
-template<class F>
-inline CSR<F> operator*(F _a, const CSR<F>& _m) {
-	CSR<F> m = CSR<F>(_m);
-	for (auto& datai : m.data) {
-		datai *= _a;
-	}
-	return m;
-}
-
-
 template<class T1, class T2>
 inline const CSR<T1> operator+(const CSR<T1>& _m1, const CSR<T2>& _m2) {
 	assert(_m1.ROWS == _m2.ROWS && _m1.COLS == _m2.COLS);
-- 
2.43.0


From 535b97bbf0cbc7b2fd12749ffbd8a30387177b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:20 +0000
Subject: [PATCH 03/19] fix: Krylov solvers return zero instead of NaN for a
 zero right-hand side

---
 src/LinearAlgebra/Solvers/CG.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index 4f08b25..c2858ed 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -127,6 +127,9 @@ std::vector<T> CG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps) {
 	std::vector<T> rk = subtract(_b, _A*xk);
 	std::vector<T> pk = rk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 	T rkrk = std::inner_product(rk.begin(), rk.end(), rk.begin(), T());
 
 	//----------Iteration----------
@@ -164,6 +167,9 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -208,6 +214,9 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 	T beta = T();
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 
 	//----------Iteration----------
 	for(int k = 0; k < _itrmax; k++) {
@@ -324,6 +333,9 @@ std::vector<T> ILU0CG(CSR<T>& _A, CSR<T>& _M, const std::vector<T>& _b, int _itr
 	std::vector<T> pk = PreILU0(_M, rk);				//Preconditioning
 	std::vector<T> Mrk = pk;							
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 	
 	//----------Iteration----------
@@ -362,6 +374,9 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 	std::vector<T> pk = rk;
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -425,6 +440,9 @@ std::vector<T> ScalingCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> pk = Scaling(D, rk);				//Scaling rk
 	std::vector<T> Mrk = pk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
 	//----------Iteration----------
@@ -464,6 +482,9 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 	std::vector<T> pk = Scaling(D, rk);
 	T rdashrk = std::inner_product(rdash.begin(), rdash.end(), rk.begin(), T());
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 
 	//----------Iteration----------
 	for (int k = 0; k < _itrmax; ++k) {
@@ -540,6 +561,9 @@ std::vector<T> SORCG(CSR<T>& _A, const std::vector<T>& _b, int _itrmax, T _eps,
 	std::vector<T> pk = SOR(_A, rk, _soromega, _soritermax, _soreps);		//Preconditioning SOR
 	std::vector<T> Mrk = pk;
 	T bnorm = sqrt(std::inner_product(_b.begin(), _b.end(), _b.begin(), T()));
+	if (bnorm == T()) {
+		return xk;		//The solution is zero for zero right-hand side
+	}
 	T Mrkrk = std::inner_product(Mrk.begin(), Mrk.end(), rk.begin(), T());
 
 	//----------Iteration----------
-- 
2.43.0


From 5d84e7990341be6de58233455a5421f97071c8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:16:44 +0000
Subject: [PATCH 04/19] fix: BiCGSTAB variants return the solution instead of
 NaN when the first half step is exact

---
 src/LinearAlgebra/Solvers/CG.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/LinearAlgebra/Solvers/CG.h b/src/LinearAlgebra/Solvers/CG.h
index c2858ed..299c481 100644
--- a/src/LinearAlgebra/Solvers/CG.h
+++ b/src/LinearAlgebra/Solvers/CG.h
@@ -176,6 +176,10 @@ std::vector<T> BiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		std::vector<T> Apk = _A*pk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, Apk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, pk);		//Already converged: the second half step would be 0/0
+			return xk;
+		}
 		std::vector<T> Ask = _A*sk;
 		T omega = std::inner_product(Ask.begin(), Ask.end(), sk.begin(), T())/std::inner_product(Ask.begin(), Ask.end(), Ask.begin(), T());
 		xeaxpbypcz(1.0, xk, alpha, pk, omega, sk);
@@ -225,6 +229,10 @@ std::vector<T> BiCGSTAB2(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _eps) {
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), Apk.begin(), T());
 		std::vector<T> yk = zeavpbwpcxpdy(1.0, tkm1, -1.0, rk, -alpha, wk, alpha, Apk);
 		std::vector<T> tk = zeaxpby(1.0, rk, -alpha, Apk);
+		if (sqrt(std::inner_product(tk.begin(), tk.end(), tk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, pk);		//Already converged: the second half step would be 0/0
+			return xk;
+		}
 		T zeta, ita;
 		std::vector<T> Atk = _A*tk;
 		T Att = std::inner_product(Atk.begin(), Atk.end(), tk.begin(), T());
@@ -384,6 +392,10 @@ std::vector<T> ILU0BiCGSTAB(CSR<T>& _A, CSR<T>& _M, std::vector<T>& _b, int _itr
 		std::vector<T> AMpk = _A*Mpk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), AMpk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, Mpk);		//Already converged: the second half step would be 0/0
+			return xk;
+		}
 		std::vector<T> Msk = PreILU0(_M, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
 		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
@@ -492,6 +504,10 @@ std::vector<T> ScalingBiCGSTAB(CSR<T>& _A, std::vector<T>& _b, int _itrmax, T _e
 		std::vector<T> AMpk = _A*Mpk;
 		T alpha = rdashrk/std::inner_product(rdash.begin(), rdash.end(), AMpk.begin(), T());
 		std::vector<T> sk = zeaxpby(1.0, rk, -alpha, AMpk);
+		if (sqrt(std::inner_product(sk.begin(), sk.end(), sk.begin(), T())) < _eps*bnorm) {
+			xexpay(xk, alpha, Mpk);		//Already converged: the second half step would be 0/0
+			return xk;
+		}
 		std::vector<T> Msk = Scaling(D, sk);		//Preconditioning
 		std::vector<T> AMsk = _A*Msk;
 		T omega = std::inner_product(AMsk.begin(), AMsk.end(), sk.begin(), T())/std::inner_product(AMsk.begin(), AMsk.end(), AMsk.begin(), T());
-- 
2.43.0


From 31b78883fbfa5778d5723c8108847ff472d7f33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 05/19] fix: 20-node hexahedron node table had a duplicate
 entry that shifted nodes 12-19

---
 src/FEM/Controller/ShapeFunction.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/FEM/Controller/ShapeFunction.h b/src/FEM/Controller/ShapeFunction.h
index 19a14ab..b60ce5f 100644
--- a/src/FEM/Controller/ShapeFunction.h
+++ b/src/FEM/Controller/ShapeFunction.h
@@ -354,7 +354,6 @@ public:
 																	{ 1.0, T(), -1.0 },
 																	{ T(), 1.0, -1.0 },
 																	{ -1.0, T(), -1.0 },
-																	{ -1.0, 1.0, 1.0 },
 																	{ T(), -1.0, 1.0 },
 																	{ 1.0, T(), 1.0 },
 																	{ T(), 1.0, 1.0 },
-- 
2.43.0


From ac4baef99c60e09f55e497c2c46a1947ce36a93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:36:04 +0000
Subject: [PATCH 06/19] fix: WeakSpring maps every degree of freedom of a node
 to its own element row

---
 src/FEM/Equation/General.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/FEM/Equation/General.h b/src/FEM/Equation/General.h
index 586f275..fad4b22 100644
--- a/src/FEM/Equation/General.h
+++ b/src/FEM/Equation/General.h
@@ -127,7 +127,7 @@ namespace PANSFEM2 {
 		_nodetoelement = std::vector<std::vector<std::pair<int, int> > >(_element.size(), std::vector<std::pair<int, int> >(n));
 		for(int i = 0; i < _element.size(); i++) {
             for(int j = 0; j < n; j++) {
-                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i);
+                _nodetoelement[i][j] = std::make_pair(_doulist[j], n*i + j);
             }
 		}
 
-- 
2.43.0


From b49e22a9276d0fcd10f5bef4557d0fe7a4bb22d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 07/19] fix: StokesStiffness viscous coupling block was
 transposed (rigid rotation produced stress)

---
 src/FEM/Equation/Stokes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/FEM/Equation/Stokes.h b/src/FEM/Equation/Stokes.h
index cbd8490..249e45d 100644
--- a/src/FEM/Equation/Stokes.h
+++ b/src/FEM/Equation/Stokes.h
@@ -58,8 +58,8 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++) {
                 for(int j = 0; j < m; j++) {
-                    K(i, j) = 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);    K(i, j + m) = _mu*dMdX(0, i)*dMdX(1, j);
-                    K(i + m, j) = _mu*dMdX(1, i)*dMdX(0, j);                                K(i + m, j + m) = _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);  
+                    K(i, j) = 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);    K(i, j + m) = _mu*dMdX(1, i)*dMdX(0, j);
+                    K(i + m, j) = _mu*dMdX(0, i)*dMdX(1, j);                                K(i + m, j + m) = _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);  
                 }
                 for(int j = 0; j < n; j++) {
                     K(i, j + 2*m) = -N(j)*dMdX(0, i);
-- 
2.43.0


From 9fe65678901ee9e43990e7fb9e8df384ecb73dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:18 +0000
Subject: [PATCH 08/19] fix: NavierStokesTangent puts the viscous cross terms
 in the coupling blocks (tangent is the derivative of the residual)

---
 src/FEM/Equation/NavierStokes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/FEM/Equation/NavierStokes.h b/src/FEM/Equation/NavierStokes.h
index b2b6dfa..bc63032 100644
--- a/src/FEM/Equation/NavierStokes.h
+++ b/src/FEM/Equation/NavierStokes.h
@@ -81,10 +81,10 @@ namespace PANSFEM2 {
             Matrix<T> K = Matrix<T>(2*m + n, 2*m + n);
             for(int i = 0; i < m; i++){
                 for(int j = 0; j < m; j++){
-                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j) + _mu*dMdX(1, i)*dMdX(0, j);	
-					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0);																	
-                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1);																		
-					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(1, j) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
+                    K(i, j) = _rho*M(i)*M(j)*dUdX(0, 0) + _rho*M(i)*dMdX(0, j)*U(0) + _rho*M(i)*dMdX(1, j)*U(1) + 2.0*_mu*dMdX(0, i)*dMdX(0, j) + _mu*dMdX(1, i)*dMdX(1, j);	
+					K(i, j + m) = _rho*M(i)*M(j)*dUdX(1, 0) + _mu*dMdX(1, i)*dMdX(0, j);																	
+                    K(i + m, j) = _rho*M(i)*M(j)*dUdX(0, 1) + _mu*dMdX(0, i)*dMdX(1, j);																		
+					K(i + m, j + m) = _rho*M(i)*M(j)*dUdX(1, 1) + _rho*M(i)*dMdX(1, j)*U(1) + _rho*M(i)*dMdX(0, j)*U(0) + _mu*dMdX(0, i)*dMdX(0, j) + 2.0*_mu*dMdX(1, i)*dMdX(1, j);	
                 }
                 for(int j = 0; j < n; j++){
 					K(i, j + 2*m) = -dMdX(0, i)*N(j);
-- 
2.43.0


From 6aef859150c5e4ad5111b35a9795bd2cadba62d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:18 +0000
Subject: [PATCH 09/19] fix: plane-strain total/updated Lagrange elements
 ignored the thickness argument

---
 src/FEM/Equation/PlaneStrain.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/FEM/Equation/PlaneStrain.h b/src/FEM/Equation/PlaneStrain.h
index 9019649..260e2cd 100644
--- a/src/FEM/Equation/PlaneStrain.h
+++ b/src/FEM/Equation/PlaneStrain.h
@@ -287,7 +287,7 @@ namespace PANSFEM2 {
 				BL(2, 2*n) = F(0, 1)*dNdX(0, n) + F(0, 0)*dNdX(1, n);	BL(2, 2*n + 1) = F(1, 1)*dNdX(0, n) + F(1, 0)*dNdX(1, n);
 			}
 
-			_Ke += BL.Transpose()*D*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*D*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> E = (Z + Z.Transpose() + Z.Transpose()*Z)/2.0;
 			Vector<T> Ev = Vector<T>({ E(0, 0), E(1, 1), E(0, 1) + E(1, 0) });
@@ -305,9 +305,9 @@ namespace PANSFEM2 {
 			Matrix<T> S10 = Sv(2)*Identity<T>(2);	Matrix<T> S11 = Sv(1)*Identity<T>(2);
 			Matrix<T> S = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
 
-			_Ke += BNL.Transpose()*S*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*S*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
@@ -360,7 +360,7 @@ namespace PANSFEM2 {
 				BL(1, 2*n) = T();			BL(1, 2*n + 1) = dNdx(1, n);
 				BL(2, 2*n) = dNdx(1, n);	BL(2, 2*n + 1) = dNdx(0, n);
 			}
-			_Ke += BL.Transpose()*C*BL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BL.Transpose()*C*BL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Matrix<T> S = (mu0/detF)*(F*F.Transpose() - Identity<T>(2)) + (lambda0*log(detF)/detF)*Identity<T>(2);
 			Matrix<T> BNL = Matrix<T>(4, 2*_element.size());
@@ -373,10 +373,10 @@ namespace PANSFEM2 {
 			Matrix<T> S00 = S(0, 0)*Identity<T>(2);	Matrix<T> S01 = S(0, 1)*Identity<T>(2);
 			Matrix<T> S10 = S(1, 0)*Identity<T>(2);	Matrix<T> S11 = S(1, 1)*Identity<T>(2);
 			Matrix<T> Sm = (S00.Hstack(S01)).Vstack((S10.Hstack(S11)));
-			_Ke += BNL.Transpose()*Sm*BNL*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Ke += BNL.Transpose()*Sm*BNL*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 
 			Vector<T> Sv = { S(0, 0), S(1, 1), S(0, 1) };
-			_Fe -= BL.Transpose()*Sv*J*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
+			_Fe -= BL.Transpose()*Sv*J*_t*IC<T>::Weights[g][0]*IC<T>::Weights[g][1];
 		}
 	}
 
-- 
2.43.0


From 16e9ddace4056c3878b6ee19a3c75c27d6dab772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:46 +0000
Subject: [PATCH 10/19] fix: DensityFilter sensitivities apply the transpose of
 the filter (chain rule) for non-uniform weights

---
 src/Optimize/Filter/DensityFilter.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Filter/DensityFilter.h b/src/Optimize/Filter/DensityFilter.h
index ce40c4c..4f041e2 100644
--- a/src/Optimize/Filter/DensityFilter.h
+++ b/src/Optimize/Filter/DensityFilter.h
@@ -62,10 +62,11 @@ private:
         for(int i = 0; i < this->n; i++){
             T wsum = T();
             for(int j = 0; j < this->neighbors[i].size(); j++){
-                dfds[i] += _dfdrho[this->neighbors[i][j]]*this->w[i][j];
                 wsum += this->w[i][j];
             }
-            dfds[i] /= wsum;       
+            for(int j = 0; j < this->neighbors[i].size(); j++){
+                dfds[this->neighbors[i][j]] += _dfdrho[i]*this->w[i][j]/wsum;
+            }
         }
         return dfds;
     }
-- 
2.43.0


From 536cba686183c107072bbfe862b7235c6217bab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:46 +0000
Subject: [PATCH 11/19] fix: IsConvergence of OC, MMA and CONLIN uses the
 magnitude of the objective (negative objectives stopped at once)

---
 src/Optimize/Solver/CONLIN.h | 2 +-
 src/Optimize/Solver/MMA.h    | 2 +-
 src/Optimize/Solver/OC.h     | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index 19d4500..a2d8dcc 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -80,7 +80,7 @@ private:
 
     template<class T>
     bool CONLIN<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index e15daa3..4a6c692 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -106,7 +106,7 @@ private:
 
     template<class T>
     bool MMA<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue) / (_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue) / fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
diff --git a/src/Optimize/Solver/OC.h b/src/Optimize/Solver/OC.h
index 7312ef1..bf93a63 100644
--- a/src/Optimize/Solver/OC.h
+++ b/src/Optimize/Solver/OC.h
@@ -66,7 +66,7 @@ private:
 
     template<class T>
     bool OC<T>::IsConvergence(T _currentf0){
-        if(fabs(_currentf0 - this->previousvalue)/(_currentf0 + this->previousvalue) < this->epsvalue){
+        if(fabs(_currentf0 - this->previousvalue)/fabs(_currentf0 + this->previousvalue) < this->epsvalue){
             return true;
         } 
         return false;
-- 
2.43.0


From 9e7a898b4a2a823221727766a4eceeefc11792a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:46 +0000
Subject: [PATCH 12/19] fix: MMA and CONLIN add each a_i^2 term of the Newton
 matrix once (n <= m branch)

---
 src/Optimize/Solver/CONLIN.h | 4 +++-
 src/Optimize/Solver/MMA.h    | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/Optimize/Solver/CONLIN.h b/src/Optimize/Solver/CONLIN.h
index a2d8dcc..bda02bd 100644
--- a/src/Optimize/Solver/CONLIN.h
+++ b/src/Optimize/Solver/CONLIN.h
@@ -249,9 +249,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
diff --git a/src/Optimize/Solver/MMA.h b/src/Optimize/Solver/MMA.h
index 4a6c692..55294b2 100644
--- a/src/Optimize/Solver/MMA.h
+++ b/src/Optimize/Solver/MMA.h
@@ -301,9 +301,11 @@ private:
                     for(int jj = 0; jj < this->m; jj++){
                         A[ii][this->n] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
                         A[this->n][ii] -= G[jj][ii]*this->a[jj]/Dlambday[jj];
-                        A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
                     }
                 }
+                for(int jj = 0; jj < this->m; jj++){
+                    A[this->n][this->n] += this->a[jj]*this->a[jj]/Dlambday[jj]; 
+                }
                 A[this->n][this->n] += zeta/z;
                 std::vector<T> B = std::vector<T>(this->n + 1);
                 for(int ii = 0; ii < this->n; ii++){
-- 
2.43.0


From 44f85b3e2b9baccaeebd0bb1cabf1af8dfe23894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 13/19] fix: SquareAnnulusMesh::GenerateFixedlist tests the
 coordinates GenerateNodes gives the node

---
 src/PrePost/Mesher/SquareAnnulusMesh.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/PrePost/Mesher/SquareAnnulusMesh.h b/src/PrePost/Mesher/SquareAnnulusMesh.h
index 3d6cf8c..3818763 100644
--- a/src/PrePost/Mesher/SquareAnnulusMesh.h
+++ b/src/PrePost/Mesher/SquareAnnulusMesh.h
@@ -102,28 +102,28 @@ private:
         for(int i = 0; i < this->nt + 1; i++){
             T t = i/(T)this->nt;
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*0.5*this->a + t*0.5*this->c, (1 - t)*this->b*(j/(T)this->ny - 0.5) + t*this->d*(j/(T)this->ny - 0.5) }))) {
+                if(_iscorrespond(Vector<T>({ t*0.5*this->a + (1 - t)*0.5*this->c, t*this->b*(j/(T)this->ny - 0.5) + (1 - t)*this->d*(j/(T)this->ny - 0.5) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(0.5 - j/(T)this->nx) + t*this->c*(0.5 - j/(T)this->nx), (1 - t)*0.5*this->b + t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(0.5 - j/(T)this->nx) + (1 - t)*this->c*(0.5 - j/(T)this->nx), t*0.5*this->b + (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->ny; j++){
-                if(_iscorrespond(Vector<T>({ -(1 - t)*0.5*this->a - t*0.5*this->c, (1 - t)*this->b*(0.5 - j/(T)this->ny) + t*this->d*(0.5 - j/(T)this->ny) }))) {
+                if(_iscorrespond(Vector<T>({ -t*0.5*this->a - (1 - t)*0.5*this->c, t*this->b*(0.5 - j/(T)this->ny) + (1 - t)*this->d*(0.5 - j/(T)this->ny) }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + this->ny + this->nx, ui }, T() });
                     }
                 }
             }
             for(int j = 0; j < this->nx; j++){
-                if(_iscorrespond(Vector<T>({ (1 - t)*this->a*(j/(T)this->nx - 0.5) + t*this->c*(j/(T)this->nx - 0.5), -(1 - t)*0.5*this->b - t*0.5*this->d }))) {
+                if(_iscorrespond(Vector<T>({ t*this->a*(j/(T)this->nx - 0.5) + (1 - t)*this->c*(j/(T)this->nx - 0.5), -t*0.5*this->b - (1 - t)*0.5*this->d }))) {
                     for(auto ui : _ulist) {
                         ufixed.push_back({ { this->nxy*i + j + 2*this->ny + this->nx, ui }, T() });
                     }
-- 
2.43.0


From b8ae6376a85894e72884ab41c9bd98530c2f2c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 14/19] fix: ImportInitialFromCSV leaves components missing
 from a short row alone

---
 src/PrePost/Import/ImportFromCSV.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/PrePost/Import/ImportFromCSV.h b/src/PrePost/Import/ImportFromCSV.h
index b843d93..ab7c2b8 100644
--- a/src/PrePost/Import/ImportFromCSV.h
+++ b/src/PrePost/Import/ImportFromCSV.h
@@ -203,8 +203,7 @@ namespace PANSFEM2 {
 			if (!str.empty()) {
 				int idn = stoi(str);
 				for (int i = 0; i < _u[idn].SIZE(); i++) {
-					std::getline(sbuf, str, ',');
-					if (str != "free") {
+					if (std::getline(sbuf, str, ',') && str != "free") {
 						_u[idn](i) = stod(str);
 					}
 				}
-- 
2.43.0


From d3376abbbfb3ba66b3795d671b8714679eb780ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 15/19] fix: ImportModelFromVTK searches the whole file
 whatever was imported before

---
 src/PrePost/Import/ImportFromVTK.h | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/PrePost/Import/ImportFromVTK.h b/src/PrePost/Import/ImportFromVTK.h
index a9b3837..5eaebbc 100644
--- a/src/PrePost/Import/ImportFromVTK.h
+++ b/src/PrePost/Import/ImportFromVTK.h
@@ -6,7 +6,7 @@
 //*****************************************************************************
 
 
-#pragma oncce
+#pragma once
 #include <vector>
 #include <iostream>
 #include <fstream>
@@ -65,6 +65,8 @@ private:
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportPOINTS(){
         std::string linestrings;
         std::vector<Vector<T> > nodes;
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         while (getline(this->ifs, linestrings)) {
             if(linestrings.find("POINT_DATA") != std::string::npos){
                 std::stringstream keywordstream(linestrings);
@@ -88,8 +90,6 @@ private:
                 return nodes;
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return nodes;
     }
 
@@ -98,6 +98,8 @@ private:
     std::vector<std::vector<int> > ImportModelFromVTK<T>::ImportCELLS(){
         std::string linestrings;
         std::vector<std::vector<int> > elements;
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         while (getline(this->ifs, linestrings)) {
             if(linestrings.find("POINT_DATA") != std::string::npos){
                 std::stringstream keywordstream(linestrings);
@@ -124,8 +126,6 @@ private:
                 return elements;
             }    
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return elements;
     }
 
@@ -134,6 +134,8 @@ private:
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportPOINTVECTORS(std::string _keyword){
         std::string linestrings;
         std::vector<Vector<T> > pointvectors;
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         while (getline(this->ifs, linestrings)) {
             if(linestrings.find("POINT_DATA") != std::string::npos){
                 std::stringstream keywordstream(linestrings);
@@ -159,8 +161,6 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return pointvectors;
     }
 
@@ -169,6 +169,8 @@ private:
     std::vector<T> ImportModelFromVTK<T>::ImportPOINTSCALARS(std::string _keyword){
         std::string linestrings;
         std::vector<T> pointscalars;
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         while (getline(this->ifs, linestrings)) {
             if(linestrings.find("POINT_DATA") != std::string::npos){
                 std::stringstream keywordstream(linestrings);
@@ -193,8 +195,6 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return pointscalars;
     }
 
@@ -203,6 +203,8 @@ private:
     std::vector<Vector<T> > ImportModelFromVTK<T>::ImportCELLVECTORS(std::string _keyword){
         std::string linestrings;
         std::vector<Vector<T> > cellvectors;
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         while (getline(this->ifs, linestrings)) {
             if(linestrings.find("POINT_DATA") != std::string::npos){
                 std::stringstream keywordstream(linestrings);
@@ -228,8 +230,6 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return cellvectors;
     }
 
@@ -238,6 +238,8 @@ private:
     std::vector<T> ImportModelFromVTK<T>::ImportCELLSCALARS(std::string _keyword){
         std::string linestrings;
         std::vector<T> cellscalars;
+        this->ifs.clear();
+        this->ifs.seekg(0, std::ios_base::beg);
         while (getline(this->ifs, linestrings)) {
             if(linestrings.find("POINT_DATA") != std::string::npos){
                 std::stringstream keywordstream(linestrings);
@@ -262,8 +264,6 @@ private:
                 }
             }
 		}
-        this->ifs.clear();
-        this->ifs.seekg(0, std::ios_base::beg); 
         return cellscalars;
     }
 }
\ No newline at end of file
-- 
2.43.0


From a150502eb12399ad9a8771fc50ea02eddfc5d7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 16/19] fix: general Lanczos processes normalise the first
 basis vector in the B inner product

---
 src/LinearAlgebra/Solvers/Lanczos.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index b0631fa..95702ca 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -251,8 +251,10 @@ void GeneralShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>& _eigenv
     std::vector<T> beta = std::vector<T>(_m);                                                           //  Values of side of diagonal
     std::vector<std::vector<T> > q = std::vector<std::vector<T> >(_m, std::vector<T>(_A.ROWS, T()));    //  Orthogonal vectors
     q[0] = GetDiagonal(A);
-    xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T norm = sqrt(std::inner_product(q[0].begin(), q[0].end(), p.begin(), T()));
+    xexda(q[0], norm);
+    xexda(p, norm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
@@ -291,8 +293,10 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
     std::vector<T> beta = std::vector<T>(_m);                                                           //  Values of side of diagonal
     std::vector<std::vector<T> > q = std::vector<std::vector<T> >(_m, std::vector<T>(_A.ROWS, T()));    //  Orthogonal vectors
     q[0] = GetDiagonal(A);
-    xexda(q[0], sqrt(std::inner_product(q[0].begin(), q[0].end(), q[0].begin(), T())));
     std::vector<T> p = _B*q[0];
+    T norm = sqrt(std::inner_product(q[0].begin(), q[0].end(), p.begin(), T()));
+    xexda(q[0], norm);
+    xexda(p, norm);
     int itrmax = std::max(_A.ROWS, 10000);
 
     //----------Lanczos process----------
-- 
2.43.0


From 8905fd97812428574f56d7b186323472b0ad6855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 17/19] fix: GeneralRestartShiftedInvertLanczos
 re-orthogonalises along q, not Bq

---
 src/LinearAlgebra/Solvers/Lanczos.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LinearAlgebra/Solvers/Lanczos.h b/src/LinearAlgebra/Solvers/Lanczos.h
index 95702ca..d7b54cb 100644
--- a/src/LinearAlgebra/Solvers/Lanczos.h
+++ b/src/LinearAlgebra/Solvers/Lanczos.h
@@ -304,7 +304,7 @@ void GeneralRestartShiftedInvertLanczos(CSR<T>& _A, CSR<T>& _B, std::vector<T>&
         std::vector<T> s = ScalingCG(A, p, itrmax, 1.0e-10);
         for(int i = 0; i < k - 2; i++) {
             std::vector<T> Bq = _B*q[i];
-            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), Bq);
+            xexpay(s, -std::inner_product(s.begin(), s.end(), Bq.begin(), T()), q[i]);
         }
         if(k != 0){
             xexpay(s, -beta[k - 1], q[k - 1]);
-- 
2.43.0


From 3fe852901ff6c77a2208777b261cc301600bcc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:16 +0000
Subject: [PATCH 18/19] fix: Delaunay never swaps away an edge of the boundary
 (concave outlines crashed)

---
 src/PrePost/Mesher/Delaunay.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 57f43a2..0a19aff 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -639,8 +639,8 @@ private:
 					&& this->elements[nowstack].inouton(this->elements[neighbortri].nodes[neighbornode], this->nodes) == -1
 					&& this->elements[neighbortri].inouton(this->elements[nowstack].nodes[0], this->nodes) == -(neighbornode + 1)
 					&& this->elements[nowstack].sides[0] == false)
-					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenump1)
-					|| (this->elements[neighbortri].nodes[neighbornode] == _nodenumm1)) {
+					|| (this->elements[nowstack].sides[0] == false
+					&& (this->elements[neighbortri].nodes[neighbornode] == _nodenump1 || this->elements[neighbortri].nodes[neighbornode] == _nodenumm1))) {
 					
 					Element<T> tmpelement = Element<T>(this->elements[neighbortri]);
 
-- 
2.43.0


From 2a16eb1ec7120a4362772c31eb4393e71ff6f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:27 +0000
Subject: [PATCH 19/19] fix: Delaunay: make the start triangle strictly enclose
 every node

---
 src/PrePost/Mesher/Delaunay.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/PrePost/Mesher/Delaunay.h b/src/PrePost/Mesher/Delaunay.h
index 0a19aff..e249381 100644
--- a/src/PrePost/Mesher/Delaunay.h
+++ b/src/PrePost/Mesher/Delaunay.h
@@ -287,7 +287,7 @@ private:
 		
 		//Generate SuperTriangle
 		for (int i = 0; i < 3; i++) {
-			this->nodes.push_back(Node<T>(-2.0*rmax*sin(2.0*M_PI*i/3.0), 2.0*rmax*cos(2.0*M_PI*i/3.0)));
+			this->nodes.push_back(Node<T>(-3.0*rmax*sin(2.0*M_PI*i/3.0), 3.0*rmax*cos(2.0*M_PI*i/3.0)));
 		}
 		this->elements.push_back(Element<T>(this->nodes.size() - 3, this->nodes.size() - 2, this->nodes.size() - 1));
 	}
-- 
2.43.0

