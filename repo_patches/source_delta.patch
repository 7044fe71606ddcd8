From 278a4580dfc091f40c86820e59a78e4d2d612ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 001/129] fix: CrsMatrix from triplets counts entries in its
 row pointers, not rows

The constructor from (rows, cols, vals) set each row pointer to the number of
nonempty rows before it, so any row with two entries, or an empty row, gave a
corrupt matrix. SampleCRSMatrix had the same loop.
---
 src/CrsMatrix.h       | 21 ++++++++-------------
 src/SampleCRSMatrix.h | 21 +++++++++------------
 2 files changed, 17 insertions(+), 25 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 3a3add5..2f319e1 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -208,23 +208,18 @@ public:
 		Vector<SizeType>::Type iperm(rows2.size());
 		Vector<SizeType>::Type rows = rows2;
 		s.sort(rows, iperm);
+		// rowptr_[row] is the number of entries in the rows before row
 		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
-		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
+		for (SizeType row = 0; row < rank; ++row) {
+			rowptr_[row] = counter;
+			for (; counter < rows.size() && rows[counter] == row; ++counter) {
+				colind_.push_back(cols[iperm[counter]]);
+				values_.push_back(vals[iperm[counter]]);
 			}
-
-			colind_.push_back(cols[iperm[i]]);
-			values_.push_back(vals[iperm[i]]);
 		}
 
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank; ++i)
-			rowptr_[i] = counter;
+		assert(counter == rows.size());
+		rowptr_[rank] = counter;
 	}
 
 	// start closure ctors
diff --git a/src/SampleCRSMatrix.h b/src/SampleCRSMatrix.h
index 703c858..94408a4 100644
--- a/src/SampleCRSMatrix.h
+++ b/src/SampleCRSMatrix.h
@@ -203,21 +203,18 @@ private:
 		Sort<typename Vector<SizeType>::Type> s;
 		typename Vector<SizeType>::Type iperm(rows.size());
 		s.sort(rows, iperm);
+		// rowptr_[row] is the number of entries in the rows before row
 		SizeType counter = 0;
-		SizeType prevRow = rows[0] + 1;
-		for (SizeType i = 0; i < rows.size(); i++) {
-			SizeType row = rows[i];
-			if (prevRow != row) {
-				// add new row
-				rowptr_[row] = counter++;
-				prevRow = row;
+		for (SizeType row = 0; row < rank_; row++) {
+			rowptr_[row] = counter;
+			for (; counter < rows.size() && rows[counter] == row; counter++) {
+				colind_.push_back(cols[iperm[counter]]);
+				values_.push_back(vals[iperm[counter]]);
 			}
-			colind_.push_back(cols[iperm[i]]);
-			values_.push_back(vals[iperm[i]]);
 		}
-		SizeType lastNonZeroRow = rows[rows.size() - 1];
-		for (SizeType i = lastNonZeroRow + 1; i <= rank_; i++)
-			rowptr_[i] = counter;
+
+		assert(counter == rows.size());
+		rowptr_[rank_] = counter;
 	}
 
 	SizeType rank_;
-- 
2.43.0


From 5dd914537538147b042d2717aeec7756701213f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 002/129] fix: CrsMatrix::read discards the previous contents

Reading a matrix without nonzero entries, or an empty one, into an object that
held another matrix kept the old columns and values.
---
 src/CrsMatrix.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 2f319e1..51189e0 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -617,9 +617,15 @@ public:
 	}
 	void read(String label, IoSerializer& ioSerializer)
 	{
-		ioSerializer.read(nrow_, label + "/nrow_");
-		ioSerializer.read(ncol_, label + "/ncol_");
-		if (nrow_ == 0 || ncol_ == 0)
+		SizeType nrow = 0;
+		SizeType ncol = 0;
+		ioSerializer.read(nrow, label + "/nrow_");
+		ioSerializer.read(ncol, label + "/ncol_");
+		clear(); // discard previous contents, if any
+		if (nrow == 0 && ncol == 0)
+			return;
+		resize(nrow, ncol);
+		if (nrow == 0 || ncol == 0)
 			return;
 		ioSerializer.read(rowptr_, label + "/rowptr_");
 		assert(rowptr_.size() == nrow_ + 1);
-- 
2.43.0


From 73b2fa4baa1321f6a6fffed5a51821324f2c2c8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 003/129] fix: operator>> of CrsMatrix replaces the contents
 also when it reads an empty matrix

It returned early and kept the old matrix; for n rows and no columns it also
left the rest of what operator<< had written unread.
---
 src/CrsMatrix.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 51189e0..8ab1adb 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -733,8 +733,10 @@ std::istream& operator>>(std::istream& is, CrsMatrix<T>& m)
 		    "is>>CrsMatrix(...): Cols must be positive\n");
 	is >> ncol;
 
-	if (n == 0 || ncol == 0)
+	if (n == 0) {
+		m.clear();
 		return is;
+	}
 
 	m.resize(n, ncol);
 	for (SizeType i = 0; i < m.rowptr_.size(); i++)
-- 
2.43.0


From 4c4e6cbc63d51997e2073949f5743ec84254ee2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:24 +0000
Subject: [PATCH 004/129] fix: a sparse matrix that lacks diagonal entries is
 not the identity

isTheIdentity and isDiagonal(..., checkForIdentity=true) only looked at stored
entries, so the zero matrix passed as the identity.
---
 src/CrsMatrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 8ab1adb..6dae073 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -1544,16 +1544,18 @@ bool isDiagonal(const CrsMatrix<T>& A, double eps = 1e-6, bool checkForIdentity
 	SizeType n = A.rows();
 	const T f1 = (-1.0);
 	for (SizeType i = 0; i < n; i++) {
+		T diagonal = 0; // a diagonal entry that isn't stored is zero
 		for (int k = A.getRowPtr(i); k < A.getRowPtr(i + 1); k++) {
 			SizeType col = A.getCol(k);
 			const T& val = A.getValue(k);
-			if (checkForIdentity && col == i && PsimagLite::norm(val + f1) > eps) {
+			if (col == i)
+				diagonal = val;
+			else if (PsimagLite::norm(val) > eps)
 				return false;
-			}
-			if (col != i && PsimagLite::norm(val) > eps) {
-				return false;
-			}
 		}
+
+		if (checkForIdentity && PsimagLite::norm(diagonal + f1) > eps)
+			return false;
 	}
 	return true;
 }
-- 
2.43.0


From b3d020a5d0531e6f3732adaef12a5e5afa6b60d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 005/129] fix: a non-square dense matrix is not the identity

isTheIdentity read past the last column when there were more rows than
columns, and accepted wider matrices whose left block is the identity.
---
 src/Matrix.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 06c619f..0e5fd7f 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -849,6 +849,8 @@ bool isAntiHermitian(const Matrix<T>& A, bool verbose = false)
 template <typename T>
 bool isTheIdentity(Matrix<T> const& a)
 {
+	if (a.rows() != a.cols())
+		return false;
 
 	for (SizeType i = 0; i < a.rows(); i++) {
 		for (SizeType j = 0; j < a.cols(); j++) {
-- 
2.43.0


From a4fbe75149eb77589cf36a9d404d13fbcc6885ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 006/129] fix: v * M with a matrix M is the row-vector product,
 not M * v

The vector * scalar closure accepted any right operand, so it was preferred over
the vector * matrix one and w <= v * M computed M * v.
---
 src/Vector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vector.h b/src/Vector.h
index 86aa20d..3ccbfc2 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -190,7 +190,8 @@ operator<=(
 }
 
 template <typename T1, typename T2, typename A>
-ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>
+typename PsimagLite::EnableIf<PsimagLite::IsNumber<T1>::True,
+                              ClosureOperator<T1, vector<T2, A>, ClosureOperations::OP_MULT>>::Type
 operator*(const vector<T2, A>& v2, const T1& v1)
 {
 	return v1 * v2;
-- 
2.43.0


From 013968c187368497d552e4a86f9ba451b5364ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 007/129] fix: a refused A += s*B leaves the matrix A as it was

The shape of B was stored in A before the sizes were compared.
---
 src/Matrix.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 0e5fd7f..185a3a1 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -397,12 +397,12 @@ public:
 	                   Matrix,
 	                   std::ClosureOperations::OP_MULT>& c)
 	{
-		nrow_ = c.r2.nrow_;
-		ncol_ = c.r2.ncol_;
-
 		const SizeType cSize = c.r2.data_.size();
 		resizeIfNeeded(cSize);
 
+		nrow_ = c.r2.nrow_;
+		ncol_ = c.r2.ncol_;
+
 		this->data_ += c.r1 * c.r2.data_;
 		return *this;
 	}
@@ -413,12 +413,12 @@ public:
 	                   T1,
 	                   std::ClosureOperations::OP_MULT>& c)
 	{
-		nrow_ = c.r1.nrow_;
-		ncol_ = c.r1.ncol_;
-
 		const SizeType cSize = c.r1.data_.size();
 		resizeIfNeeded(cSize);
 
+		nrow_ = c.r1.nrow_;
+		ncol_ = c.r1.ncol_;
+
 		this->data_ += c.r2 * c.r1.data_;
 		return *this;
 	}
-- 
2.43.0


From 3a7e2a2c641ee76f7260cc0fed7b753cf50ece9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 008/129] fix: multiplyTransposeConjugate of matrices that are
 not square

It took the result, and every loop, to have as many rows and columns as the
operands have rows, and so read outside the operands.
---
 src/Matrix.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 185a3a1..5f5bc42 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -965,17 +965,18 @@ void operator<=(std::vector<T, A>& v,
 template <typename T>
 Matrix<T> multiplyTransposeConjugate(const Matrix<T>& O1, const Matrix<T>& O2, char modifier = 'C')
 {
-	SizeType n = O1.rows();
-	Matrix<T> ret(n, n);
+	assert(O1.rows() == O2.rows());
+	const SizeType n = O1.rows();
+	Matrix<T> ret(O1.cols(), O2.cols());
 	if (modifier == 'C') {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < O1.cols(); s++)
+			for (SizeType t = 0; t < O2.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += PsimagLite::conj(O1(w, s)) * O2(w, t);
 	}
 	else {
-		for (SizeType s = 0; s < n; s++)
-			for (SizeType t = 0; t < n; t++)
+		for (SizeType s = 0; s < O1.cols(); s++)
+			for (SizeType t = 0; t < O2.cols(); t++)
 				for (SizeType w = 0; w < n; w++)
 					ret(s, t) += O1(w, s) * O2(w, t);
 	}
-- 
2.43.0


From b0294ba230549d1954f39d7a56be10dd76d866b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 009/129] fix: Matrix::read of an empty matrix discards the
 previous contents

---
 src/Matrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Matrix.h b/src/Matrix.h
index 5f5bc42..0f1a8fd 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		ioSerializer.read(nrow_, label + "/nrow_");
 		ioSerializer.read(ncol_, label + "/ncol_");
+		data_.clear(); // discard previous contents, if any
 		if (nrow_ == 0 || ncol_ == 0)
 			return;
 		ioSerializer.read(data_, label + "/data_");
-- 
2.43.0


From f00abb6ae1d452e1235b26150da7cd3246c33af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 010/129] fix: crsMatrixToFullMatrix discards the previous
 contents of the destination

Matrix::resize with a value only fills the elements it adds, so entries of what
the dense matrix held before remained where the sparse matrix has none.
---
 src/CrsMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 6dae073..f575f38 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -778,6 +778,7 @@ template <typename T>
 void crsMatrixToFullMatrix(Matrix<T>& m, const CrsMatrix<T>& crsMatrix)
 {
 	m.resize(crsMatrix.rows(), crsMatrix.cols(), 0);
+	m.setTo(0); // resize keeps previous contents, if any
 	for (SizeType i = 0; i < crsMatrix.rows(); i++) {
 		//  for (SizeType k=0;k<crsMatrix.cols();k++) m(i,k)=0;
 		for (int k = crsMatrix.getRowPtr(i);
-- 
2.43.0


From 399f407ecb3725107f05e65c97264d21ff836400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:38 +0000
Subject: [PATCH 011/129] fix: exp and expIpi of a complex Hermitian matrix
 gave the transpose

f(A)_{ij} is sum_k U_{ik} f(e_k) conj(U_{jk}), not its transpose.
---
 src/Matrix.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Matrix.h b/src/Matrix.h
index 0f1a8fd..025a583 100644
--- a/src/Matrix.h
+++ b/src/Matrix.h
@@ -1026,7 +1026,7 @@ void exp(Matrix<T>& m)
 				typename Real<T>::Type alpha = eigs[k];
 				T tmp = 0.0;
 				expComplexOrReal(tmp, alpha);
-				sum += PsimagLite::conj(m(i, k)) * m(j, k) * tmp;
+				sum += m(i, k) * PsimagLite::conj(m(j, k)) * tmp;
 			}
 			expm(i, j) = sum;
 		}
@@ -1094,7 +1094,7 @@ typename EnableIf<IsComplexNumber<T>::True, void>::Type expIpi(Matrix<T>& A)
 			std::complex<RT> sum = 0;
 			for (SizeType k = 0; k < n; ++k) {
 				const RT arg = eigs[k] * M_PI;
-				sum += PsimagLite::conj(A(i, k)) * std::complex<RT>(cos(arg), sin(arg)) * A(j, k);
+				sum += A(i, k) * std::complex<RT>(cos(arg), sin(arg)) * PsimagLite::conj(A(j, k));
 			}
 
 			result(i, j) = sum;
-- 
2.43.0


From d19282cabf50094a22a115ee2806488325a5ecee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:15 +0000
Subject: [PATCH 012/129] fix: the product of a vector of rows and a vector
 never ended

The inner loop tested the outer index, so it read past the end of the row.
---
 src/Vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index 3ccbfc2..ffb6e31 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -97,10 +97,10 @@ template <typename T1, typename T2, typename A, typename AA>
 vector<T2, A> operator*(const vector<vector<T1, A>, AA>& v1,
                         const vector<T2, A>& v2)
 {
-	vector<T2, A> v3(v2.size());
+	vector<T2, A> v3(v1.size());
 	for (SizeType i = 0; i < v3.size(); i++) {
 		v3[i] = 0;
-		for (SizeType j = 0; i < v2.size(); j++)
+		for (SizeType j = 0; j < v2.size(); j++)
 			v3[i] += v1[i][j] * v2[j];
 	}
 	return v3;
-- 
2.43.0


From 68dcf10a23b3c07dbb6c59edd780bcd3b6d9cd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:14 +0000
Subject: [PATCH 013/129] fix: Parallelizer2 with weights did not compile (no
 balancer has setWeights)

---
 src/Parallelizer2Pthread.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 91f4f51..a2c8a11 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -110,8 +110,7 @@ public:
 	template <typename SomeLambdaType>
 	void parallelFor(SizeType start, SizeType end, const SomeLambdaType& lambda, const VectorSizeType& weights)
 	{
-		LoadBalancerType* loadBalancer = new LoadBalancerType(weights.size(), nthreads_);
-		loadBalancer->setWeights(weights);
+		LoadBalancerType* loadBalancer = new LoadBalancerType(weights, nthreads_);
 		parallelFor(start, end, lambda, *loadBalancer);
 		delete loadBalancer;
 		loadBalancer = 0;
-- 
2.43.0


From 298dfdae72c6ec9e7df5760d6639adc87f5da212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:33 +0000
Subject: [PATCH 014/129] fix: the stack size of the threads was set before the
 attributes were initialised, and lost

---
 src/Parallelizer2Pthread.h | 8 ++++----
 src/PthreadsNg.h           | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index a2c8a11..6b04d55 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -133,7 +133,10 @@ public:
 			pfs[j].nthreads = nthreads_;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -153,9 +156,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 19bee89..0492a70 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -237,7 +237,10 @@ public:
 			pfs[j].nthreads = actualThreads;
 
 			attr[j] = new pthread_attr_t;
-			int ret = (stackSize_ > 0)
+			int ret = pthread_attr_init(attr[j]);
+			checkForError(ret);
+
+			ret = (stackSize_ > 0)
 			    ? pthread_attr_setstacksize(attr[j], stackSize_)
 			    : 0;
 			if (ret != 0) {
@@ -257,9 +260,6 @@ public:
 				             "let you continue\n";
 			}
 
-			ret = pthread_attr_init(attr[j]);
-			checkForError(ret);
-
 #ifndef __APPLE__
 			if (setAffinities_)
 				setAffinity(attr[j], &cpuset, j);
-- 
2.43.0


From 5321e1e3ba7ea131166276f8e20dbe3d0d5e0ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:21 +0000
Subject: [PATCH 015/129] fix: GemmR divided by zero when the result has no
 rows or no columns

---
 src/GemmR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GemmR.h b/src/GemmR.h
index 222ef7b..f256031 100644
--- a/src/GemmR.h
+++ b/src/GemmR.h
@@ -118,7 +118,7 @@ private:
 
 	bool isSmall(SizeType m, SizeType n) const
 	{
-		if (nb_ == 0)
+		if (nb_ == 0 || m == 0 || n == 0)
 			return true;
 		return ((m <= nb_) && (n <= nb_));
 	}
-- 
2.43.0


From 9015a6dc9a3c4701906f4af2b18d449da94a3b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:34 +0000
Subject: [PATCH 016/129] fix: the MPI loop with weights did not compile (no
 balancer has setWeights)

---
 src/InterNodeMpi.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/InterNodeMpi.h b/src/InterNodeMpi.h
index f05e23c..2e17328 100644
--- a/src/InterNodeMpi.h
+++ b/src/InterNodeMpi.h
@@ -44,8 +44,7 @@ public:
 	template <typename SomeLambdaType>
 	void parallelFor(SizeType start, SizeType end, const SomeLambdaType& lambda, const VectorSizeType& weights)
 	{
-		LoadBalancerType* loadBalancer = new LoadBalancerType(weights.size(), mpiSize_);
-		loadBalancer->setWeights(weights);
+		LoadBalancerType* loadBalancer = new LoadBalancerType(weights, mpiSize_);
 		parallelFor(start, end, lambda, *loadBalancer);
 		delete loadBalancer;
 		loadBalancer = 0;
-- 
2.43.0


From f8fb42ca9c7ea246beb8635188757d67594e6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 017/129] fix: MPI::allReduce of a scalar used an int for the
 result of every type

---
 src/MpiYes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index ae72953..4f27735 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -467,7 +467,7 @@ namespace MPI {
 	typename EnableIf<Loki::TypeTraits<NumericType>::isArith, void>::Type
 	allReduce(NumericType& v, MPI_Op op = MPI_SUM, CommType mpiComm = COMM_WORLD)
 	{
-		int result = 0;
+		NumericType result = 0;
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
 		int errorCode = MPI_Allreduce(&v, &result, 1, datatype, op, mpiComm);
 		checkError(errorCode, "MPI_Allreduce", mpiComm);
-- 
2.43.0


From 6e53a4b59fe6db4745d0830791f8ff7d68d8a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:01 +0000
Subject: [PATCH 018/129] fix: MPI::send of a vector sent its size as another
 type than MPI::recv receives

---
 src/MpiYes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 4f27735..2495642 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -194,7 +194,7 @@ namespace MPI {
 		typedef typename SomeVectorType::value_type NumericType;
 		String name = "MPI_Send";
 		MPI_Datatype datatype = MpiData<NumericType>::Type;
-		int total = v.size();
+		SizeType total = v.size();
 		send(total, dest, tag, mpiComm);
 		int errorCode = MPI_Send(&(v[0]), v.size(), datatype, dest, tag, mpiComm);
 		checkError(errorCode, name, mpiComm);
@@ -209,7 +209,7 @@ namespace MPI {
 		typedef typename SomeVectorType::value_type NumericType;
 		String name = "MPI_Send";
 		MPI_Datatype datatype = MpiData<typename NumericType::value_type>::Type;
-		int total = v.size();
+		SizeType total = v.size();
 		send(total, dest, tag, mpiComm);
 		int errorCode = MPI_Send(&(v[0]), 2 * v.size(), datatype, dest, tag, mpiComm);
 		checkError(errorCode, name, mpiComm);
-- 
2.43.0


From 5da71eeb2688ef19cf4d4da51f30583c815af10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 019/129] fix: MPI::pointByPointGather sends to its root, on
 its communicator

---
 src/MpiYes.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 2495642..cbd8602 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -234,7 +234,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				MPI::send(v[taskNumber], 0, taskNumber);
+				MPI::send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -246,7 +246,7 @@ namespace MPI {
 					if (taskNumber >= v.size())
 						break;
 					NumericType value;
-					MPI::recv(value, r, taskNumber);
+					MPI::recv(value, r, taskNumber, mpiComm);
 					v[taskNumber] = value;
 				}
 			}
@@ -270,7 +270,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				v[taskNumber].send(0, taskNumber, mpiComm);
+				v[taskNumber].send(root, taskNumber, mpiComm);
 			}
 		}
 		else {
@@ -303,7 +303,7 @@ namespace MPI {
 				SizeType taskNumber = mpiRank * blockSize + p;
 				if (taskNumber >= v.size())
 					break;
-				send(v[taskNumber], 0, taskNumber, mpiComm);
+				send(v[taskNumber], root, taskNumber, mpiComm);
 			}
 		}
 		else {
-- 
2.43.0


From 141df55303e9511fe3766ea9e68e31f7129dfdb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 020/129] fix: MPI::bcast of a complex vector gives every rank
 the root's size, as for real vectors

---
 src/MpiYes.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index cbd8602..16e17c6 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -371,6 +371,10 @@ namespace MPI {
 	    void>::Type
 	bcast(SomeVectorType& v, int root = 0, CommType mpiComm = COMM_WORLD)
 	{
+		SizeType total = v.size();
+		bcast(total, root, mpiComm);
+		if (total != v.size())
+			v.resize(total, 0);
 		MPI_Datatype datatype = MpiData<typename SomeVectorType::value_type::value_type>::Type;
 		int errorCode = MPI_Bcast(&(v[0]), 2 * v.size(), datatype, root, mpiComm);
 		checkError(errorCode, "MPI_Bcast", mpiComm);
-- 
2.43.0


From 702ad5a3f170f03e93da74f5310d35f9c0afa6dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:48 +0000
Subject: [PATCH 021/129] fix: MPI::bcast of nested vectors gives every rank
 the root's number of vectors

---
 src/MpiYes.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/MpiYes.h b/src/MpiYes.h
index 16e17c6..64230b4 100644
--- a/src/MpiYes.h
+++ b/src/MpiYes.h
@@ -328,10 +328,15 @@ namespace MPI {
 	{
 		typedef typename SomeVectorType::value_type DataType;
 		String name = "MPI_Bcast";
+		int n = v.size();
+		int errorCode = MPI_Bcast(&n, 1, MPI_INTEGER, root, mpiComm);
+		checkError(errorCode, name, mpiComm);
+		if (static_cast<SizeType>(n) != v.size())
+			v.resize(n);
 		for (SizeType i = 0; i < v.size(); i++) {
 			DataType& vv = v[i];
 			int total = vv.size();
-			int errorCode = MPI_Bcast(&total, 1, MPI_INTEGER, root, mpiComm);
+			errorCode = MPI_Bcast(&total, 1, MPI_INTEGER, root, mpiComm);
 			checkError(errorCode, name, mpiComm);
 			if (static_cast<SizeType>(total) != vv.size())
 				vv.resize(total);
-- 
2.43.0


From 2032d0be981a2b71e4a7b39736039d9a1d35ca3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 022/129] fix: empty vectors and strings are stored in HDF5
 files, so that they can be read and replace what they overwrite

---
 src/Io/IoNgSerializer.h | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index eb9f781..ef5cca7 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -226,13 +226,10 @@ public:
 	void
 	write(String name2, const std::vector<T>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = what.size();
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
+		const void* ptr = static_cast<const void*>(what.data());
 
 		if (Loki::TypeTraits<T>::isFloat)
 			writeComplexOrReal(name2, 'R');
@@ -246,11 +243,7 @@ public:
 	void
 	write(String name2, const std::vector<std::complex<T>>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T>::isArith, int*>::Type = 0)
 	{
-		if (what.size() == 0)
-			return;
-
-		assert(0 < what.size());
-		const void* ptr = static_cast<const void*>(&what[0]);
+		const void* ptr = static_cast<const void*>(what.data());
 		String name = "Def/" + name2;
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
@@ -561,10 +554,6 @@ private:
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
-		if (n == 0)
-			throw RuntimeError("IoNgSerializer: problem reading "
-			                   "vector dims[0] == 0\n");
-
 		const ReadEnum readEnumOnDisk = getReadEnumOnDisk(name);
 		static const ReadEnum readEnumDest = getReadEnumDestination<
 		    typename SomeVectorType::value_type>();
@@ -573,8 +562,11 @@ private:
 			SizeType complexSize = (readEnumDest == ReadEnum::COMPLEX) ? getHalfSize(n)
 			                                                           : n;
 			what.resize(complexSize, 0);
-			void* ptr = static_cast<void*>(&(what[0]));
-			dataset->read(ptr, typeToH5<UnderlyingType>());
+			if (n > 0) {
+				void* ptr = static_cast<void*>(&(what[0]));
+				dataset->read(ptr, typeToH5<UnderlyingType>());
+			}
+
 			delete[] dims;
 			delete dataset;
 			return;
@@ -585,8 +577,11 @@ private:
 			// this type is complex; but what's on disk is real
 			typename Vector<UnderlyingType>::Type temporary(
 			    dims[0]);
-			void* ptr2 = static_cast<void*>(&(temporary[0]));
-			dataset->read(ptr2, typeToH5<UnderlyingType>());
+			if (n > 0) {
+				void* ptr2 = static_cast<void*>(&(temporary[0]));
+				dataset->read(ptr2, typeToH5<UnderlyingType>());
+			}
+
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
@@ -638,7 +633,8 @@ private:
 			return false;
 		}
 
-		dataset->write(ptr, typeToH5<SomeType>());
+		if (dataspace->getSimpleExtentNpoints() > 0)
+			dataset->write(ptr, typeToH5<SomeType>());
 		delete dataset;
 		delete dataspace;
 		return true;
-- 
2.43.0


From c623113164aa56798567eff7080756211dfe8847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 023/129] fix: overwriting a vector of complex numbers in an
 HDF5 file, and of real by complex and vice versa

---
 src/Io/IoNgSerializer.h | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index ef5cca7..ef0342f 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -231,12 +231,11 @@ public:
 		dims[0] = what.size();
 		const void* ptr = static_cast<const void*>(what.data());
 
-		if (Loki::TypeTraits<T>::isFloat)
+		const bool written = (allowOverwrite == ALLOW_OVERWRITE)
+		    ? overwrite<T>(name, ptr, dims, 1)
+		    : internalWrite<T>(name, ptr, dims, 1);
+		if (written && Loki::TypeTraits<T>::isFloat)
 			writeComplexOrReal(name2, 'R');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
 	}
 
 	template <typename T>
@@ -248,11 +247,11 @@ public:
 		hsize_t dims[1];
 		dims[0] = 2 * what.size();
 
-		writeComplexOrReal(name2, 'C');
-		if (allowOverwrite == ALLOW_OVERWRITE)
-			overwrite<T>(name2, ptr, dims, 1);
-		else
-			internalWrite<T>(name, ptr, dims, 1);
+		const bool written = (allowOverwrite == ALLOW_OVERWRITE)
+		    ? overwrite<T>(name, ptr, dims, 1)
+		    : internalWrite<T>(name, ptr, dims, 1);
+		if (written)
+			writeComplexOrReal(name2, 'C');
 	}
 
 	template <typename T>
@@ -610,6 +609,14 @@ private:
 			std::cerr << "Cannot unlink " << name << "\n";
 		}
 
+		// the label of the contents, if any, goes with the contents
+		try {
+			hdf5file_->unlink(name + "ComplexOrReal");
+		}
+		catch (...) {
+			// there is none
+		}
+
 		return internalWrite<SomeType>(name, ptr, dims, ndims);
 	}
 
-- 
2.43.0


From 169266e16d9fa49729a7456407e2306e149ef8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 024/129] fix: a group written for the first time with
 overwrite allowed was lost

---
 src/CrsMatrix.h         | 2 +-
 src/Io/IoNgSerializer.h | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index f575f38..5fb3366 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -597,7 +597,7 @@ public:
 	{
 		if (nrow_ > 0)
 			checkValidity();
-		if (mode != IoSerializer::ALLOW_OVERWRITE)
+		if (mode != IoSerializer::ALLOW_OVERWRITE || !ioSerializer.doesGroupExist(label))
 			ioSerializer.createGroup(label);
 		ioSerializer.write(label + "/nrow_", nrow_, mode);
 		ioSerializer.write(label + "/ncol_", ncol_, mode);
diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index ef0342f..f580f02 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -186,7 +186,7 @@ public:
 	template <typename T1, typename T2>
 	void write(String name2, const std::pair<T1, T2>& what, WriteMode allowOverwrite = NO_OVERWRITE, typename EnableIf<Loki::TypeTraits<T1>::isArith && Loki::TypeTraits<T2>::isArith, int*>::Type = 0)
 	{
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/0", what.first, allowOverwrite);
 		write(name2 + "/1", what.second, allowOverwrite);
@@ -264,7 +264,7 @@ public:
 	    = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
@@ -296,7 +296,7 @@ public:
 	void write(String name2, const std::vector<T>& what, WriteMode allowOverwrite, typename EnableIf<!Loki::TypeTraits<typename Real<T>::Type>::isArith && !IsPairLike<T>::True && !IsEnumClass<T>::value, int*>::Type = 0)
 	{
 		SizeType n = what.size();
-		if (allowOverwrite != ALLOW_OVERWRITE)
+		if (allowOverwrite != ALLOW_OVERWRITE || !doesGroupExist(name2))
 			createGroup(name2);
 		write(name2 + "/Size", n, allowOverwrite);
 		for (SizeType i = 0; i < n; ++i)
-- 
2.43.0


From 90b7df7a1ca4c3e1e8049dcfc0fd9e8dbd64ef05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:20 +0000
Subject: [PATCH 025/129] fix: reading a stack from an HDF5 file discards the
 previous contents

---
 src/Io/IoNgSerializer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index f580f02..faf3e8b 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -486,6 +486,7 @@ public:
 	{
 		SizeType x = 0;
 		read(x, name + "/Size");
+		what = std::stack<T>(); // discard previous contents, if any
 		for (SizeType i = 0; i < x; ++i) {
 			T t;
 			t.read(name + "/" + ttos(x - i - 1), *this);
-- 
2.43.0


From a6b5b2ab73625030fe0d52827ae0a858c42d7a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 026/129] fix: IoNg open() creates what the constructor
 creates, checks what it checks, and keeps the mode

---
 src/Io/IoNgSerializer.h | 57 ++++++++++++++++-------------------------
 1 file changed, 22 insertions(+), 35 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index faf3e8b..32ecbfb 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -40,38 +40,7 @@ public:
 		dontPrintDebug();
 #endif
 
-		try {
-			hdf5file_ = new H5::H5File(filename, mode);
-		}
-		catch (H5::Exception& e) {
-			delete hdf5file_;
-			hdf5file_ = 0;
-			throw e;
-		}
-
-		if (mode == H5F_ACC_TRUNC) {
-			try {
-				createGroup("");
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
-
-		if (mode == H5F_ACC_RDONLY) {
-			try {
-				readCanary();
-			}
-			catch (H5::Exception& e) {
-				filename_ = "";
-				delete hdf5file_;
-				hdf5file_ = 0;
-				throw e;
-			}
-		}
+		openFile();
 	}
 
 	~IoNgSerializer()
@@ -93,9 +62,8 @@ public:
 			    "IoNgSerializer::open(): object already open\n");
 
 		filename_ = filename;
-		hdf5file_ = new H5::H5File(filename, mode);
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		mode_ = mode;
+		openFile();
 	}
 
 	void close()
@@ -522,6 +490,25 @@ private:
 
 	IoNgSerializer& operator=(const IoNgSerializer&);
 
+	void openFile()
+	{
+		hdf5file_ = new H5::H5File(filename_, mode_);
+
+		try {
+			if (mode_ == H5F_ACC_TRUNC || mode_ == H5F_ACC_EXCL)
+				createGroup("");
+
+			if (mode_ == H5F_ACC_RDONLY)
+				readCanary();
+		}
+		catch (...) {
+			filename_ = "";
+			delete hdf5file_;
+			hdf5file_ = 0;
+			throw;
+		}
+	}
+
 	// We're reading from disk, so we go from type in disk to type in
 	// destination The type of destination is SomeVectorType The underlying
 	// type of destination is SomeVectorType::value_type Therefore, we have
-- 
2.43.0


From 0cb58b5f0e4c605effa479ea29a03bf7834e5bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 027/129] fix: enumerators above 255 were truncated in HDF5
 files

---
 src/Io/IoNgSerializer.h | 2 +-
 src/Io/TypeToH5.h       | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 32ecbfb..14ebcca 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -380,7 +380,7 @@ public:
 	template <typename SomeType>
 	void read(SomeType& value, String name, typename EnableIf<std::is_enum<SomeType>::value || IsEnumClass<SomeType>::value, int*>::Type = 0)
 	{
-		SizeType x = 0;
+		long x = 0;
 		read(x, name);
 		value = static_cast<SomeType>(x);
 	}
diff --git a/src/Io/TypeToH5.h b/src/Io/TypeToH5.h
index 72da053..f6ff92a 100644
--- a/src/Io/TypeToH5.h
+++ b/src/Io/TypeToH5.h
@@ -8,10 +8,11 @@ namespace PsimagLite {
 template <typename T>
 typename EnableIf<!std::is_enum<T>::value, H5::PredType>::Type typeToH5();
 
+// enumerators are stored as the integers they are
 template <typename T>
 typename EnableIf<std::is_enum<T>::value, H5::PredType>::Type typeToH5()
 {
-	return H5::PredType::NATIVE_UINT8;
+	return typeToH5<typename std::underlying_type<T>::type>();
 }
 } // namespace PsimagLite
 #endif // PSI_TYPETOH5_H
-- 
2.43.0


From 672270e334fd32e82a84a2bb722f136891d0a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:51 +0000
Subject: [PATCH 028/129] fix: a refused read left the dataset, and with it the
 HDF5 file, open

---
 src/Io/IoNgSerializer.h | 34 +++++++++++++---------------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 14ebcca..b304989 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -338,9 +338,8 @@ public:
 	void read(SomeType& value, String name, typename EnableIf<Loki::TypeTraits<SomeType>::isArith && !std::is_enum<SomeType>::value, int*>::Type = 0)
 	{
 		void* ptr = static_cast<void*>(&value);
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		dataset->read(ptr, typeToH5<SomeType>());
-		delete dataset;
+		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		dataset.read(ptr, typeToH5<SomeType>());
 	}
 
 	void read(String& what, String name) { readInternal(what, name); }
@@ -350,9 +349,8 @@ public:
 		unsigned char tmp[1];
 		tmp[0] = 0;
 		void* ptr = static_cast<void*>(tmp);
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		dataset->read(ptr, typeToH5<unsigned char>());
-		delete dataset;
+		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		dataset.read(ptr, typeToH5<unsigned char>());
 		value = (tmp[0] & 1);
 	}
 
@@ -530,14 +528,14 @@ private:
 		typedef typename Real<typename SomeVectorType::value_type>::Type
 		    UnderlyingType;
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet("Def/" + name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector ndims != 1\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		const hsize_t n = dims[0];
@@ -551,11 +549,9 @@ private:
 			what.resize(complexSize, 0);
 			if (n > 0) {
 				void* ptr = static_cast<void*>(&(what[0]));
-				dataset->read(ptr, typeToH5<UnderlyingType>());
+				dataset.read(ptr, typeToH5<UnderlyingType>());
 			}
 
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -566,14 +562,12 @@ private:
 			    dims[0]);
 			if (n > 0) {
 				void* ptr2 = static_cast<void*>(&(temporary[0]));
-				dataset->read(ptr2, typeToH5<UnderlyingType>());
+				dataset.read(ptr2, typeToH5<UnderlyingType>());
 			}
 
 			what.resize(dims[0]);
 			for (SizeType i = 0; i < dims[0]; ++i)
 				what[i] = temporary[i]; // real to complex
-			delete[] dims;
-			delete dataset;
 			return;
 		}
 
@@ -663,14 +657,14 @@ private:
 	{
 		static const String name = "/Def/Canary";
 
-		H5::DataSet* dataset = new H5::DataSet(hdf5file_->openDataSet(name));
-		const H5::DataSpace& dspace = dataset->getSpace();
+		H5::DataSet dataset = hdf5file_->openDataSet(name);
+		const H5::DataSpace& dspace = dataset.getSpace();
 		const int ndims = dspace.getSimpleExtentNdims();
 		if (ndims != 1)
 			throw RuntimeError("IoNgSerializer: problem reading "
 			                   "vector<arith> (ndims)\n");
 
-		hsize_t* dims = new hsize_t[ndims];
+		hsize_t dims[1];
 		dspace.getSimpleExtentDims(dims);
 
 		if (dims[0] == 0)
@@ -679,9 +673,7 @@ private:
 
 		unsigned char c = 0;
 		void* ptr = static_cast<void*>(&c);
-		dataset->read(ptr, typeToH5<unsigned char>());
-		delete[] dims;
-		delete dataset;
+		dataset.read(ptr, typeToH5<unsigned char>());
 
 		if (c != CANARY_VALUE)
 			throw RuntimeError("File " + filename_ + " is not valid (dead canary)\n");
-- 
2.43.0


From 17a792c8eb15eb6c21098633c3bd4aef3a1062a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:09:14 +0000
Subject: [PATCH 029/129] fix: a sparse matrix with rows but no columns can be
 written

---
 src/CrsMatrix.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CrsMatrix.h b/src/CrsMatrix.h
index 5fb3366..14d9302 100644
--- a/src/CrsMatrix.h
+++ b/src/CrsMatrix.h
@@ -595,7 +595,7 @@ public:
 	void
 	write(String label, IoSerializer& ioSerializer, IoSerializer::WriteMode mode = IoSerializer::NO_OVERWRITE) const
 	{
-		if (nrow_ > 0)
+		if (nrow_ > 0 && ncol_ > 0)
 			checkValidity();
 		if (mode != IoSerializer::ALLOW_OVERWRITE || !ioSerializer.doesGroupExist(label))
 			ioSerializer.createGroup(label);
-- 
2.43.0


From f7ce692ac65a82e607a089b2c97b1709b93e5211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:15 +0000
Subject: [PATCH 030/129] fix: reading a vector of an HDF5 file into a scalar
 wrote past the scalar

---
 src/Io/IoNgSerializer.h | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index b304989..692bc34 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -339,6 +339,7 @@ public:
 	{
 		void* ptr = static_cast<void*>(&value);
 		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		checkIsScalar(dataset, name);
 		dataset.read(ptr, typeToH5<SomeType>());
 	}
 
@@ -350,6 +351,7 @@ public:
 		tmp[0] = 0;
 		void* ptr = static_cast<void*>(tmp);
 		H5::DataSet dataset = hdf5file_->openDataSet("Def/" + name);
+		checkIsScalar(dataset, name);
 		dataset.read(ptr, typeToH5<unsigned char>());
 		value = (tmp[0] & 1);
 	}
@@ -574,6 +576,12 @@ private:
 		throw RuntimeError("IoNgSerializer: problem reading vector\n");
 	}
 
+	static void checkIsScalar(const H5::DataSet& dataset, String name)
+	{
+		if (dataset.getSpace().getSimpleExtentNpoints() != 1)
+			throw RuntimeError("IoNgSerializer: " + name + " is not a scalar\n");
+	}
+
 	void overwriteNotSupported(WriteMode mode)
 	{
 		if (mode == NO_OVERWRITE)
-- 
2.43.0


From 00c83609b3ea998cc68d67bf94afb1047548cd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:46 +0000
Subject: [PATCH 031/129] fix: an HDF5 file interrupted while it was appended
 to, or changed after a flush, was taken for a complete one

---
 src/Io/IoNgSerializer.h | 49 ++++++++++++++++++++++++++++++++---------
 1 file changed, 39 insertions(+), 10 deletions(-)

diff --git a/src/Io/IoNgSerializer.h b/src/Io/IoNgSerializer.h
index 692bc34..9ce8c84 100644
--- a/src/Io/IoNgSerializer.h
+++ b/src/Io/IoNgSerializer.h
@@ -35,6 +35,7 @@ public:
 	    : hdf5file_(0)
 	    , filename_(filename)
 	    , mode_(mode)
+	    , valid_(false)
 	{
 #ifdef NDEBUG
 		dontPrintDebug();
@@ -45,8 +46,8 @@ public:
 
 	~IoNgSerializer()
 	{
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		if (hdf5file_)
+			markValid();
 
 		filename_ = "";
 		delete hdf5file_;
@@ -68,8 +69,8 @@ public:
 
 	void close()
 	{
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
+		if (hdf5file_)
+			markValid();
 
 		hdf5file_->close();
 		delete hdf5file_;
@@ -79,16 +80,15 @@ public:
 
 	void flush()
 	{
-		if (hdf5file_ && mode_ != H5F_ACC_RDONLY)
-			writeCanary();
-
-		hdf5file_->flush(H5F_SCOPE_GLOBAL);
+		if (hdf5file_)
+			markValid();
 	}
 
 	const String& filename() const { return filename_; }
 
 	void createGroup(String group)
 	{
+		markInvalid();
 		hdf5file_->createGroup("Def/" + group);
 	}
 
@@ -494,6 +494,9 @@ private:
 	{
 		hdf5file_ = new H5::H5File(filename_, mode_);
 
+		// a file opened for append may be valid, until it is changed
+		valid_ = (mode_ == H5F_ACC_RDWR);
+
 		try {
 			if (mode_ == H5F_ACC_TRUNC || mode_ == H5F_ACC_EXCL)
 				createGroup("");
@@ -592,6 +595,8 @@ private:
 	template <typename SomeType>
 	bool overwrite(String name, const void* ptr, hsize_t dims[], SizeType ndims)
 	{
+		markInvalid();
+
 		try {
 			hdf5file_->unlink(name);
 		}
@@ -613,6 +618,8 @@ private:
 	template <typename SomeType>
 	bool internalWrite(String name, const void* ptr, hsize_t dims[], SizeType ndims)
 	{
+		markInvalid();
+
 		H5::DataSpace* dataspace = new H5::DataSpace(ndims, dims); // create new dspace
 		H5::DSetCreatPropList
 		    dsCreatPlist; // What properties here? FIXME
@@ -637,7 +644,29 @@ private:
 		return true;
 	}
 
-	void writeCanary()
+	// Called before the file changes: from now on, and until markValid()
+	// is called, what is on disk isn't complete, and must not be taken for it
+	void markInvalid()
+	{
+		if (!valid_)
+			return;
+		valid_ = false;
+		writeCanary(0);
+		hdf5file_->flush(H5F_SCOPE_GLOBAL);
+	}
+
+	// The canary goes to disk only after everything else is on disk
+	void markValid()
+	{
+		if (valid_ || mode_ == H5F_ACC_RDONLY)
+			return;
+		hdf5file_->flush(H5F_SCOPE_GLOBAL);
+		writeCanary(CANARY_VALUE);
+		hdf5file_->flush(H5F_SCOPE_GLOBAL);
+		valid_ = true;
+	}
+
+	void writeCanary(unsigned char c)
 	{
 		hsize_t dims[1];
 		dims[0] = 1;
@@ -655,7 +684,6 @@ private:
 			    name, typeToH5<unsigned char>(), *dataspace, dsCreatPlist));
 		}
 
-		unsigned char c = CANARY_VALUE;
 		dataset->write(&c, typeToH5<unsigned char>());
 		delete dataset;
 		delete dataspace;
@@ -826,6 +854,7 @@ private:
 	H5::H5File* hdf5file_;
 	String filename_;
 	unsigned int mode_;
+	bool valid_;
 	static const SizeType booleanEncodedSize_ = 4;
 	static const SizeType booleanEncodedStart_ = 4;
 };
-- 
2.43.0


From 64d255108a157beb32ad1b06805b7cd16b185ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 032/129] fix: IoSimple::Out: a line shorter than the one
 before kept the end of the old one

---
 src/Io/IoSimple.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3dbf01c..0b25dd3 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -194,8 +194,7 @@ public:
 			if (rank_ != 0)
 				return;
 			(*fout_) << s().str() << "\n";
-			s().flush();
-			s().seekp(std::ios_base::beg);
+			s().str("");
 		}
 
 		template <typename T>
-- 
2.43.0


From d661df3a6dd74749f16488d29496e3741530c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 033/129] fix: IoSimple::In could not open another file after
 reaching the end of one

---
 src/Io/IoSimple.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 0b25dd3..d67a776 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -282,7 +282,11 @@ public:
 			}
 		}
 
-		void close() { fin_.close(); }
+		void close()
+		{
+			fin_.close();
+			fin_.clear();
+		}
 
 		template <typename X>
 		SizeType readline(X& x, const String& s, LongIntegerType level = 0)
-- 
2.43.0


From 99267549c1cd8e024cab6ab32f5af97396a18aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 034/129] fix: IoSimple::In: the last instance was counted from
 the current position but sought from the start, and reading it gave the one
 before

---
 src/Io/IoSimple.h | 35 +++++++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index d67a776..3ace909 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -295,6 +295,9 @@ public:
 			bool found = false;
 			bool foundOnce = false;
 			LongSizeType counter = 0;
+			// the last instance is that of the whole file
+			if (level == LAST_INSTANCE)
+				rewind();
 			if (fin_.bad() || !fin_.good())
 				throw RuntimeError("Readline\n");
 			while (!fin_.eof()) {
@@ -320,8 +323,7 @@ public:
 			}
 
 			if (level == LAST_INSTANCE) {
-				fin_.close();
-				fin_.open(filename_.c_str());
+				rewind();
 				readline(x, s, counter - 1);
 			}
 
@@ -333,8 +335,8 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
-			int xsize;
+			std::pair<String, SizeType> sc = advanceOnto(s, level, beQuiet);
+			int xsize = 0;
 			fin_ >> xsize;
 			if (xsize == 0)
 				return sc;
@@ -351,7 +353,7 @@ public:
 		void
 		read(X& mat, String const& s, LongIntegerType level = 0, typename EnableIf<IsMatrixLike<X>::True, int>::Type = 0)
 		{
-			advance(s, level);
+			advanceOnto(s, level, false);
 			fin_ >> mat;
 		}
 
@@ -360,11 +362,15 @@ public:
 		                  std::pair<String, SizeType>>::Type
 		read(X& x, String const& s, LongIntegerType level = 0, bool beQuiet = false)
 		{
-			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			std::pair<String, SizeType> sc = advanceOnto(s, level, beQuiet);
+			x = X();
 			fin_ >> x;
 			return sc;
 		}
 
+		// Advances onto the level-th instance of s, counting from the current
+		// position; or for LAST_INSTANCE, to where the next instance of s is
+		// the last one of the whole file
 		std::pair<String, SizeType> advance(String const& s,
 		                                    LongIntegerType level = 0,
 		                                    bool beQuiet = false)
@@ -375,6 +381,9 @@ public:
 			LongSizeType counter = 0;
 			bool found = false;
 
+			if (level == LAST_INSTANCE)
+				rewind();
+
 			while (!fin_.eof()) {
 				fin_ >> temp;
 				if (fin_.eof() || !fin_.good() || fin_.bad())
@@ -391,8 +400,7 @@ public:
 			}
 
 			if (level == LAST_INSTANCE && tempSaved != "NOTFOUND") {
-				fin_.close();
-				fin_.open(filename_.c_str());
+				rewind();
 				if (counter > 1)
 					advance(s, counter - 2);
 				return std::pair<String, SizeType>(tempSaved,
@@ -448,6 +456,17 @@ public:
 
 	private:
 
+		// As advance, but for LAST_INSTANCE steps onto the last instance too
+		std::pair<String, SizeType> advanceOnto(String const& s,
+		                                        LongIntegerType level,
+		                                        bool beQuiet)
+		{
+			std::pair<String, SizeType> sc = advance(s, level, beQuiet);
+			if (level == LAST_INSTANCE)
+				advance(s, 0, beQuiet);
+			return sc;
+		}
+
 		String filename_;
 		std::ifstream fin_;
 	};
-- 
2.43.0


From 0565a8d6997263c996eca3ec8e4c1c4284228dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 035/129] fix: IoSimple::In: an empty vector did not empty the
 target, an incomplete one was accepted

---
 src/Io/IoSimple.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 3ace909..d2f6341 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -338,14 +338,16 @@ public:
 			std::pair<String, SizeType> sc = advanceOnto(s, level, beQuiet);
 			int xsize = 0;
 			fin_ >> xsize;
-			if (xsize == 0)
-				return sc;
+			if (!fin_ || xsize < 0)
+				throw RuntimeError("IoSimple::In::read(): no vector for " + s + "\n");
 			x.resize(xsize);
 			for (int i = 0; i < xsize; i++) {
 				typename X::value_type tmp;
 				fin_ >> tmp;
 				x[i] = tmp;
 			}
+			if (!fin_)
+				throw RuntimeError("IoSimple::In::read(): incomplete vector for " + s + "\n");
 			return sc;
 		}
 
-- 
2.43.0


From 4817584618ec1f7a01503025866997e78503190d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:36 +0000
Subject: [PATCH 036/129] fix: IoSimple::In: an n-th instance that is missing
 was taken for found when an earlier one exists

---
 src/Io/IoSimple.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index d2f6341..16408c8 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -409,7 +409,7 @@ public:
 				                                   counter);
 			}
 
-			if (!found && tempSaved == "NOTFOUND") {
+			if (!found) {
 				if (!beQuiet) {
 					std::cerr << "Not found " << s
 					          << " in file " << filename_;
@@ -438,7 +438,7 @@ public:
 			}
 
 			String ss = "IoSimple::count(...): too many " + s + " in file " + filename_ + "\n";
-			throw RuntimeError(s.c_str());
+			throw RuntimeError(ss.c_str());
 		}
 
 		void rewind()
-- 
2.43.0


From b74d5c6dc51affc8ec512194e36b7998e9963f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 037/129] fix: divisibility in predicates was wrong for
 negative and fractional numbers, and crashed for zero

---
 src/PredicateSimple.h | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/PredicateSimple.h b/src/PredicateSimple.h
index de4e62a..97fcfc7 100644
--- a/src/PredicateSimple.h
+++ b/src/PredicateSimple.h
@@ -4,6 +4,8 @@
 #include "AST/PlusMinusMultiplyDivide.h"
 #include "PsimagLite.h"
 #include "Vector.h"
+#include <cmath>
+#include <type_traits>
 
 /* PSIDOC PredicateSimple
  PredicateSimple is of the form
@@ -95,9 +97,23 @@ private:
 
 	template <typename T>
 	static bool divisibleBy(
-	    SizeType lv,
-	    SizeType rv,
+	    T lv,
+	    T rv,
 	    typename std::enable_if<Loki::TypeTraits<T>::isArith, int*>::type = 0)
+	{
+		if (rv == 0)
+			throw RuntimeError("PredicateSimple: divisibility by zero\n");
+		return remainderIsZero(lv, rv, std::is_floating_point<T>());
+	}
+
+	template <typename T>
+	static bool remainderIsZero(T lv, T rv, std::true_type)
+	{
+		return (std::fmod(lv, rv) == 0);
+	}
+
+	template <typename T>
+	static bool remainderIsZero(T lv, T rv, std::false_type)
 	{
 		return ((lv % rv) == 0);
 	}
-- 
2.43.0


From 9f6dae536741ee1b8dc726f659020a761166574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 038/129] fix: atoi and atof took text such as 1-2 or 1.2.3 for
 a number, and used its beginning

---
 src/PsimagLite.cpp | 36 +++++++++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 1edd10b..305b887 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -66,11 +66,12 @@ String basename(const String& path)
 int atoi(String str)
 {
 	const SizeType n = str.length();
-	for (SizeType i = 0; i < n; ++i) {
+	const SizeType start = (n > 0 && (str[0] == '-' || str[0] == '+')) ? 1 : 0;
+	if (start == n)
+		throw RuntimeError("atoi received no digits: " + str + "\n");
+	for (SizeType i = start; i < n; ++i) {
 		if (isdigit(str[i]))
 			continue;
-		if (str[i] == '-' || str[i] == '+')
-			continue;
 		throw RuntimeError("atoi received a non-digit: " + str + "\n");
 	}
 
@@ -91,20 +92,33 @@ bool isAnInteger(String str)
 
 bool isAfloat(String str)
 {
+	// optional sign, digits with at most one point, optional exponent
 	const SizeType n = str.length();
+	SizeType i = 0;
+	if (i < n && (str[i] == '-' || str[i] == '+'))
+		++i;
+
 	bool hasDigit = false;
-	for (SizeType i = 0; i < n; ++i) {
-		if (isdigit(str[i])) {
+	bool hasPoint = false;
+	for (; i < n; ++i) {
+		if (isdigit(str[i]))
 			hasDigit = true;
-			continue;
-		}
+		else if (str[i] == '.' && !hasPoint)
+			hasPoint = true;
+		else
+			break;
+	}
 
-		if (str[i] == '-' || str[i] == '+' || str[i] == 'e' || str[i] == 'E' || str[i] == '.')
-			continue;
+	if (!hasDigit || i == n)
+		return hasDigit;
+
+	if (str[i] != 'e' && str[i] != 'E')
 		return false;
-	}
+	++i;
+	if (i < n && (str[i] == '-' || str[i] == '+'))
+		++i;
 
-	return hasDigit;
+	return isAnInteger(str.substr(i, n - i));
 }
 
 double atof(String str)
-- 
2.43.0


From e24cdd8960513f30018217edf0c3d971a669d396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:13 +0000
Subject: [PATCH 039/129] fix: complex numbers in expressions lost the sign of
 their imaginary part or all of it, and text that is no number was taken for
 one

---
 src/Complex.h | 57 +++++++++++++++++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 18 deletions(-)

diff --git a/src/Complex.h b/src/Complex.h
index de57113..32550dd 100644
--- a/src/Complex.h
+++ b/src/Complex.h
@@ -22,6 +22,7 @@ Please see full open source license included in file LICENSE.
 #include "../loki/TypeTraits.h"
 #include "AllocatorCpu.h"
 #include <complex>
+#include <cstdlib>
 
 namespace PsimagLite {
 
@@ -113,30 +114,50 @@ norm(const std::complex<T>& t)
 }
 
 inline std::complex<double> stringToComplex(const std::string& str) {
+	// x, yi, x+yi, x-yi or x+-yi, where y may be omitted if it is 1
 	double real = 0;
 	double imag = 0;
-	char dummy = 0;
-	std::stringstream ss(str);
+	size_t i = 0;
+	bool isGood = (str.find_first_not_of("0123456789+-.eEi") == std::string::npos);
+	bool hasReal = false;
+	bool hasImag = false;
+	do {
+		double sign = 1;
+		if (str[i] == '+' || str[i] == '-')
+			sign = (str[i++] == '-') ? -1 : 1;
+		if (hasReal && str[i - 1] == '+' && str[i] == '-') {
+			sign = -1;
+			++i;
+		}
 
-	if (str.find('+') != std::string::npos || str.find('-') != std::string::npos) {
-		ss >> real >> dummy >> imag >> dummy;
-		if (str.back() != 'i') {
-			imag = 0;
+		double value = 1;
+		if (str[i] != 'i') {
+			const char* begin = str.c_str() + i;
+			char* end = 0;
+			if (*begin != '+' && *begin != '-')
+				value = strtod(begin, &end);
+			if (!end || end == begin) {
+				isGood = false;
+				break;
+			}
+
+			i += end - begin;
 		}
-		if (str[str.find('+') + 1] == '-') {
-			imag = -imag;
+
+		if (str[i] == 'i') {
+			imag = sign * value;
+			hasImag = true;
+			++i;
 		}
-	} else if (str.find('i') != std::string::npos) {
-		ss >> imag >> dummy;
-		real = 0;
-		if (str.back() != 'i') {
-			imag = 0;
+		else {
+			real = sign * value;
+			isGood = (isGood && !hasReal);
+			hasReal = true;
 		}
-	}
-	else {
-		ss >> real;
-		imag = 0;
-	}
+	} while (!hasImag && (str[i] == '+' || str[i] == '-'));
+
+	if (!isGood || i < str.length())
+		throw RuntimeError("stringToComplex: not a number " + str + "\n");
 
 	return std::complex<double>(real, imag);
 }
-- 
2.43.0


From 12947008e6b6d9554e89315125533f1ceeb6cd4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:35 +0000
Subject: [PATCH 040/129] fix: expressions with missing operands read past the
 values given

---
 src/AST/ExpressionForAST.h | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/AST/ExpressionForAST.h b/src/AST/ExpressionForAST.h
index 79772ef..68b4330 100644
--- a/src/AST/ExpressionForAST.h
+++ b/src/AST/ExpressionForAST.h
@@ -55,6 +55,11 @@ public:
 				break;
 		}
 
+		if (sumOfA != 0) {
+			clear();
+			throw RuntimeError("ExpressionForAST: operands missing\n");
+		}
+
 		SizeType k = 0;
 		for (SizeType i = 0; i < vecTree_.size(); i++) {
 			SizeType a = va[i];
@@ -70,13 +75,7 @@ public:
 		}
 	}
 
-	~ExpressionForAST()
-	{
-		for (SizeType i = 0; i < vecTree_.size(); i++)
-			delete vecTree_[i];
-
-		vecTree_.clear();
-	}
+	~ExpressionForAST() { clear(); }
 
 	ValueType exec()
 	{
@@ -87,6 +86,14 @@ public:
 
 private:
 
+	void clear()
+	{
+		for (SizeType i = 0; i < vecTree_.size(); i++)
+			delete vecTree_[i];
+
+		vecTree_.clear();
+	}
+
 	VectorTreeType vecTree_;
 }; // class ExpressionForAST
 
-- 
2.43.0


From ad06b696441d4aa2a907419aace135174d5854f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 041/129] fix: canonical expressions whose first term is empty
 added the others to what the result held before

---
 src/CanonicalExpression.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/CanonicalExpression.h b/src/CanonicalExpression.h
index afafb5b..82e0b35 100644
--- a/src/CanonicalExpression.h
+++ b/src/CanonicalExpression.h
@@ -73,6 +73,7 @@ public:
 		// VectorStringType vecStr;
 		const SizeType numberOfTerms = quasiCanonical.numberOfTerms();
 
+		bool isFirst = true;
 		for (SizeType i = 0; i < numberOfTerms; ++i) {
 			AssignAndDestroyType assignAndDestroy(
 			    resultEmpty); // t_ = resultEmpty
@@ -83,12 +84,13 @@ public:
 			if (!assignAndDestroy.metaEqual(result))
 				err("CanonicalExpression: metas not equal\n");
 
-			if (i == 0)
+			if (isFirst)
 				assignAndDestroy.assignBackward(
 				    result); // result = t_;
 			else
 				assignAndDestroy.plusBackward(
 				    result); // result += t_;
+			isFirst = false;
 		}
 
 		return (ItemSpecType::isEmpty(result)) ? false : true;
-- 
2.43.0


From f752c6907d8e18c6177ab8a4431db23803d5a217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 042/129] fix: bra or ket specifications with numbers missing
 or with trailing characters were accepted

---
 src/GetBraOrKet.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index 9ab2b89..c2003be 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -96,14 +96,18 @@ private:
 		else if (str[0] == 'R') {
 			kind_ = Kind::R;
 			pair_.first = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("GetBraOrKet: trailing characters " + str + "\n");
 			return;
 		}
 
-		if (str.size() < 2)
+		if (str == "")
 			return;
 
 		if (str[0] == 'X') {
 			pair_.second = getNumberFrom(str, 1); // modifies str
+			if (str != "")
+				err("GetBraOrKet: trailing characters " + str + "\n");
 		}
 		else {
 			err("A vector spec can only start with P, gs, X or Q " + str + "\n");
@@ -122,7 +126,7 @@ private:
 		}
 
 		if (number == "")
-			RuntimeError("getNumberFrom: no number after character "
+			throw RuntimeError("getNumberFrom: no number after character "
 			             "location "
 			             + ttos(start) + " for string " + str + "\n");
 
-- 
2.43.0


From 10064656db20c9f49d03f983addf6a8e2342b311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 043/129] fix: basenameOf kept the wrong number of characters

---
 src/Vector.h | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/Vector.h b/src/Vector.h
index ffb6e31..3cb0399 100644
--- a/src/Vector.h
+++ b/src/Vector.h
@@ -555,16 +555,14 @@ public:
 
 inline String basenameOf(String s)
 {
-	int j = 0;
-	SizeType l = s.length();
+	const SizeType l = s.length();
 	for (SizeType i = 0; i < l; ++i) {
-		j = l - i - 1;
-		const char letter = s[j];
-		if (letter == '.')
-			break;
+		const SizeType j = l - i - 1;
+		if (s[j] == '.')
+			return s.substr(0, j);
 	}
 
-	return s.substr(0, l - j);
+	return s;
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 86f874332d6b6aa2a6e3600e158fbe83e2fa357e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:06 +0000
Subject: [PATCH 044/129] fix: operator names with unmatched or reversed site
 brackets were split in the wrong place

---
 src/OneOperatorSpec.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/OneOperatorSpec.h b/src/OneOperatorSpec.h
index 2c9841b..1641540 100644
--- a/src/OneOperatorSpec.h
+++ b/src/OneOperatorSpec.h
@@ -63,14 +63,18 @@ struct OneOperatorSpec {
 	{
 		int firstIndex = -1;
 		int lastIndex = -1;
+		SizeType begins = 0;
+		SizeType ends = 0;
 		for (SizeType i = 0; i < name.length(); ++i) {
 			if (name[i] == cBegin) {
 				firstIndex = i;
+				++begins;
 				continue;
 			}
 
 			if (name[i] == cEnd) {
 				lastIndex = i;
+				++ends;
 				continue;
 			}
 		}
@@ -80,7 +84,7 @@ struct OneOperatorSpec {
 
 		bool b1 = (firstIndex < 0 && lastIndex >= 0);
 		bool b2 = (firstIndex >= 0 && lastIndex < 0);
-		if (b1 || b2)
+		if (b1 || b2 || begins != ends || lastIndex < firstIndex)
 			err(name + " has unmatched " + cBegin + " or " + cEnd + "\n");
 
 		String str = name.substr(0, firstIndex);
-- 
2.43.0


From 682951292e99d5fc68f077c7aadedeb35f500bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:14 +0000
Subject: [PATCH 045/129] fix: a ket specification starting with two brackets
 was read past its end

---
 src/GetBraOrKet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GetBraOrKet.h b/src/GetBraOrKet.h
index c2003be..fb443a5 100644
--- a/src/GetBraOrKet.h
+++ b/src/GetBraOrKet.h
@@ -27,7 +27,7 @@ public:
 		const SizeType last = l - 1;
 		if (braOrKet_[0] == '|' && braOrKet_[last] == '>' && l > 2)
 			braOrKet_ = braOrKet.substr(1, l - 2);
-		if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
+		else if (braOrKet_[0] == '<' && braOrKet_[last] == '|' && l > 2) {
 			braOrKet_ = braOrKet.substr(1, l - 2);
 			isKet_ = false;
 		}
-- 
2.43.0


From 50efab309b278260a2fb620f1c4c5fafd4683e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:05 +0000
Subject: [PATCH 046/129] fix: the modulus of complex numbers was that of their
 squares

---
 src/AST/AdditionalFunctions.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/AST/AdditionalFunctions.h b/src/AST/AdditionalFunctions.h
index 6ffa9ee..ebd44c8 100644
--- a/src/AST/AdditionalFunctions.h
+++ b/src/AST/AdditionalFunctions.h
@@ -40,8 +40,9 @@ public:
 
 		assert(v.size() == 2);
 
-		RealType v0 = PsimagLite::norm(v[0]);
-		RealType v1 = PsimagLite::norm(v[1]);
+		// PsimagLite::norm is squared if the type is complex
+		RealType v0 = std::abs(v[0]);
+		RealType v1 = std::abs(v[1]);
 
 		SizeType x = static_cast<int>(v0);
 		SizeType y = static_cast<int>(v1);
-- 
2.43.0


From d84e09fb40d831c1b15ece3e8ae45fb0fc1bbf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 047/129] fix: an input file not ending in a newline had its
 last character duplicated

---
 src/InputNg.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 380f2cc..64e2566 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -232,10 +232,8 @@ public:
 			}
 
 			char c = 0;
-			while (!fin.eof()) {
-				fin.get(c);
+			while (fin.get(c))
 				data += c;
-			}
 
 			fin.close();
 		}
-- 
2.43.0


From e861858edbb9eaf2be5a0df134db8adc025f46d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 048/129] fix: a comment in an input file made the value or
 vector before it disappear

---
 src/InputNg.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 64e2566..b49dc55 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -366,6 +366,7 @@ public:
 		void parseInternal()
 		{
 			String buffer = "";
+			SizeType stateBeforeComment = IN_LABEL;
 			for (SizeType i = 0; i < data_.length(); i++) {
 				SizeType type = findTypeOf(data_.at(i));
 				if (state_ == IN_COMMENT && type != ENDOFLINE)
@@ -373,10 +374,8 @@ public:
 				switch (type) {
 				case ENDOFLINE:
 					line_++;
-					if (state_ == IN_COMMENT) {
-						state_ = IN_LABEL;
-						break;
-					}
+					if (state_ == IN_COMMENT)
+						state_ = stateBeforeComment;
 					if (buffer == "")
 						break;
 					saveBuffer(buffer, ENDOFLINE);
@@ -402,6 +401,10 @@ public:
 					buffer = "";
 					break;
 				case COMMENT:
+					if (buffer != "")
+						saveBuffer(buffer, ENDOFLINE);
+					buffer = "";
+					stateBeforeComment = state_;
 					state_ = IN_COMMENT;
 					break;
 				default:
-- 
2.43.0


From 54ecc5eace1119d5120f3fbd4c0ef57e6aff2ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 049/129] fix: a label without a value in an input file took
 the next line as its value

---
 src/InputNg.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/InputNg.h b/src/InputNg.h
index b49dc55..9b0f2e5 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -376,6 +376,8 @@ public:
 					line_++;
 					if (state_ == IN_COMMENT)
 						state_ = stateBeforeComment;
+					if (buffer == "" && state_ == IN_VALUE_TEXT)
+						throw RuntimeError("No value given for label " + lastLabel_ + " in line " + ttos(line_) + "\n");
 					if (buffer == "")
 						break;
 					saveBuffer(buffer, ENDOFLINE);
-- 
2.43.0


From c052b7dd709fc375d03ad342b0525811428b1def Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 050/129] fix: forced removal of an input label given only once
 erased past the end

---
 src/InputNg.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 9b0f2e5..4017595 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -955,7 +955,8 @@ public:
 
 			if (it2 != labelsForRemoval_.end() || forceRemoval) {
 				mymap.erase(it);
-				labelsForRemoval_.erase(it2);
+				if (it2 != labelsForRemoval_.end())
+					labelsForRemoval_.erase(it2);
 			}
 		}
 
-- 
2.43.0


From 434d28b18b94b52b48f2c5ecfe137452cd13f5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 051/129] fix: reading an input matrix of one number, or of
 complex entries that are not numbers

---
 src/InputNg.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 4017595..ce1db60 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -831,12 +831,12 @@ public:
 				throwWithMessage(label, label2);
 
 			bool b1 = (it->second.size() < 2);
-			bool b2 = (atoi(it->second[0].c_str()) <= 0);
-			bool b3 = (atoi(it->second[1].c_str()) <= 0);
+			bool b2 = (b1 || atoi(it->second[0].c_str()) <= 0);
+			bool b3 = (b1 || atoi(it->second[1].c_str()) <= 0);
 			if (b1 || b2 || b3) {
 				String s(__FILE__);
 				s += " reading a matrix: " + it->second[0];
-				s += " " + it->second[1] + "\n";
+				s += " " + (b1 ? String("") : it->second[1]) + "\n";
 				throw RuntimeError(s.c_str());
 			}
 
@@ -887,8 +887,7 @@ public:
 			SizeType k = 2;
 			for (SizeType i = 0; i < m.rows(); i++) {
 				for (SizeType j = 0; j < m.cols(); j++) {
-					IstringStream is(it->second[k++]);
-					is >> m(i, j);
+					m(i, j) = stringToComplexOrReal<std::complex<FloatingType>>(it->second[k++]);
 				}
 			}
 			cleanLabelsIfNeeded(label2, mapStrVec_, it);
-- 
2.43.0


From a9853223bcbba1af9ef5773f3eb1da4f1ffbeb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:39 +0000
Subject: [PATCH 052/129] fix: reading an input map took the entries of other
 labels that contain its label

---
 src/InputNg.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index ce1db60..9b50a91 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -908,11 +908,7 @@ public:
 			     it != mapStrStr_.end();
 			     ++it) {
 				String mystr = it->first;
-				long unsigned int it0 = mystr.find(label2);
-				if (it0 == String::npos)
-					continue;
-				String::iterator it1 = find(mystr.begin(), mystr.end(), '[');
-				if (it1 == mystr.end())
+				if (mystr.compare(0, label2.length() + 1, label2 + "[") != 0)
 					continue;
 				String::iterator it2 = find(mystr.begin(), mystr.end(), ']');
 				if (it2 == mystr.end()) {
-- 
2.43.0


From 94ff7805f19cbf82c0eb57f62050db8676b68c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 053/129] fix: the words of a comment became values of a
 shorthand line of an input file

---
 src/InputNg.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index 9b50a91..b3d0085 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -342,8 +342,11 @@ public:
 
 			++ind;
 			String rest;
-			for (; ind < n; ++ind)
+			for (; ind < n; ++ind) {
+				if (!ainurMode_ && line[ind] == '#')
+					break; // a comment
 				rest += line[ind];
+			}
 			if (rest == "")
 				throw RuntimeError(
 				    "replaceLine: syntax error near " + line + "\n");
-- 
2.43.0


From adaa602b3c52c3dec9fa37af6b4f857cb75e02da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:08 +0000
Subject: [PATCH 054/129] fix: a complex number without its closing
 parenthesis, or with more after it, was accepted

---
 src/InputNg.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index b3d0085..ba7e69c 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -1010,12 +1010,16 @@ public:
 
 			start++;
 			buffer = "";
-			for (SizeType i = start; i < s.length(); ++i) {
-				if (s[i] == ')')
+			SizeType end = start;
+			for (; end < s.length(); ++end) {
+				if (s[end] == ')')
 					break;
-				buffer += s[i];
+				buffer += s[end];
 			}
 
+			if (end + 1 != s.length())
+				throw RuntimeError(s + " is not a complex number\n");
+
 			RealType img = stringToReal(buffer);
 
 			return ComplexOrRealType(r, img);
-- 
2.43.0


From 36396dda809edb6d0109beb4c7a519de089d003c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 055/129] fix: an Ainur input without a final semicolon was
 read past its end

---
 src/Ainur/AinurSpirit1.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurSpirit1.cpp b/src/Ainur/AinurSpirit1.cpp
index afd55c9..8cd5804 100644
--- a/src/Ainur/AinurSpirit1.cpp
+++ b/src/Ainur/AinurSpirit1.cpp
@@ -83,7 +83,15 @@ Ainur::Ainur(String str)
 	IteratorType last = str.end();
 	qi::phrase_parse(first, last, statement % ";", AINUR_COMMENTS);
 
-	++first;
+	if (first == last) {
+		if (!allEmpty(str.begin(), last))
+			err(AinurState::errLabel(AinurState::ERR_PARSE_FAILED,
+			                         "the end: missing semicolon"));
+	}
+	else {
+		++first;
+	}
+
 	if (first != last && !allEmpty(first, last)) {
 
 		qi::parse(first, last, +('#' >> *(qi::char_ - qi::eol) >> qi::eol | qi::eol | qi::space));
-- 
2.43.0


From d230af8110c48eda34fa24662f288fc87a09a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 056/129] fix: an Ainur label that is not an integer threw a
 pointer to freed text, and not an exception

---
 src/Ainur/AinurConvert.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index 3d12c97..c140985 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -79,9 +79,8 @@ public:
 		try {
 			t = PsimagLite::atoi(label.c_str());
 		}
-		catch (std::exception& e) {
-			std::cerr << "FATAL: AinurState: Label " + label + " must be an integer\n";
-			throw e.what();
+		catch (...) {
+			err("FATAL: AinurState: Label " + label + " must be an integer\n");
 		}
 	}
 
-- 
2.43.0


From 77e1bfb07a6d488071d662f440b1edfc6cc11dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 057/129] fix: an Ainur macro at the end of a value, or
 followed by another macro, was lost

---
 src/Ainur/AinurState.h | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index 3136f73..e19dbe4 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -263,7 +263,7 @@ private:
 		SizeType status = 0; // 0 = outsite a macro, 1 = inside a macro
 		for (SizeType i = 0; i < n; ++i) {
 			const char c = value[i];
-			if (c == '\\') {
+			if (c == '\\' && status == 0) {
 				status = 1;
 				continue;
 			}
@@ -277,24 +277,34 @@ private:
 				macroName += c;
 			}
 			else {
-
-				int x = storageIndexByName(macroName);
-				if (x < 0)
-					err("No macro named " + macroName + "\n");
-
-				assert(static_cast<SizeType>(x) < ainurVariables_.size());
-				retString += unquote(ainurVariables_[x].value) + c;
-
+				retString += macroValue(macroName);
 				macroName = "";
 				hasAtLeastOneMacro = true;
-				status = 0;
+				status = (c == '\\') ? 1 : 0;
+				if (status == 0)
+					retString += c;
 			}
 		}
 
+		if (status == 1) { // value ends with a macro
+			retString += macroValue(macroName);
+			hasAtLeastOneMacro = true;
+		}
+
 		return std::pair<bool, PsimagLite::String>(hasAtLeastOneMacro,
 		                                           unquote(retString));
 	}
 
+	String macroValue(const String& macroName) const
+	{
+		int x = storageIndexByName(macroName);
+		if (x < 0)
+			err("No macro named " + macroName + "\n");
+
+		assert(static_cast<SizeType>(x) < ainurVariables_.size());
+		return unquote(ainurVariables_[x].value);
+	}
+
 	static bool isValidCharForMacroName(char c)
 	{
 		const bool b1 = (c > 96 && c < 123);
-- 
2.43.0


From b8a363126782902998ca5b1067a792f05a7b2633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 058/129] fix: reading an empty Ainur matrix kept the previous
 contents

---
 src/Ainur/AinurConvert1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 247c31b..7b4e4cf 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -23,8 +23,11 @@ template <typename A, typename ContextType>
 void AinurConvert::ActionMatrix<T>::operator()(A& attr, ContextType&, bool&) const
 {
 	SizeType rows = attr.size();
-	if (rows == 0)
+	if (rows == 0) {
+		t_.clear();
 		return;
+	}
+
 	SizeType cols = attr[0].size();
 	t_.resize(rows, cols);
 	for (SizeType i = 0; i < rows; ++i) {
-- 
2.43.0


From f5338e3e8b23eff80d21cb9d67f1ab8f905767a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 059/129] fix: an Ainur ellipsis repeating zero or negative
 times wrote past the vector

---
 src/Ainur/AinurConvert1.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurConvert1.cpp b/src/Ainur/AinurConvert1.cpp
index 7b4e4cf..87418e0 100644
--- a/src/Ainur/AinurConvert1.cpp
+++ b/src/Ainur/AinurConvert1.cpp
@@ -60,7 +60,10 @@ void AinurConvert::Action<T>::operator()(A& attr, ContextType&, bool&) const
 	if (n == 2 && attr[1].length() > 4 && attr[1].substr(0, 4) == "...x") {
 		const SizeType m = t_.size();
 		const SizeType l = attr[1].length();
-		const SizeType mm = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		const int times = PsimagLite::atoi(attr[1].substr(4, l - 4));
+		if (times <= 0)
+			err("Ellipsis must repeat at least once, not " + attr[1] + "\n");
+		const SizeType mm = times;
 		if (m != 0)
 			std::cout << "Resizing vector to " << mm << "\n";
 		t_.resize(mm);
-- 
2.43.0


From a4bed05c98f38df385fc73bcfa21d69a3d9d0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 060/129] fix: AinurFromFile read past its table, ignored its
 separator and hung on long lines

---
 src/Ainur/AinurMacros.hh | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index e57b3a1..d89e46e 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -18,8 +18,6 @@ public:
 
 	class AinurFunction {
 
-		static constexpr SizeType MAX_LINE = 2048;
-
 	public:
 
 		AinurFunction(const std::string& args)
@@ -66,6 +64,8 @@ public:
 			    data_.begin(), data_.end(), [&x](const std::pair<double, double>& pair) {
 				    return (pair.first == x);
 			    });
+			if (it == data_.end())
+				throw RuntimeError("AinurFunction: no value for " + ttos(x) + " in " + filename_ + "\n");
 			return it->second;
 		}
 
@@ -116,7 +116,7 @@ public:
 		static bool emptyLine(const std::string& s)
 		{
 			for (SizeType i = 0; i < s.size(); ++i) {
-				if (s[i] != ' ' || s[i] != '\t')
+				if (s[i] != ' ' && s[i] != '\t')
 					return false;
 			}
 
@@ -129,15 +129,14 @@ public:
 				throw RuntimeError("Could not open " + filename_ + "\n");
 			}
 
-			char s[MAX_LINE];
-			while (!fin.eof()) {
-				fin.getline(s, MAX_LINE);
-				if (emptyLine(std::string(s)))
+			std::string s;
+			while (std::getline(fin, s)) {
+				if (emptyLine(s))
 					continue;
 				std::vector<std::string> tokens;
-				split(tokens, s);
-				if (columnX_ > tokens.size() || columnY_ > tokens.size()) {
-					throw RuntimeError("Line too small: " + std::string(s) + "\n");
+				split(tokens, s, separatorForSplit_);
+				if (columnX_ >= tokens.size() || columnY_ >= tokens.size()) {
+					throw RuntimeError("Line too small: " + s + "\n");
 				}
 
 				double vx = PsimagLite::atof(tokens[columnX_]);
-- 
2.43.0


From 7e66dd08cd6a6b2db77ffbb000fcfd2dc9ae3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:58 +0000
Subject: [PATCH 061/129] fix: values of an AinurFromFile function kept only
 six decimals

---
 src/Ainur/AinurMacros.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/Ainur/AinurMacros.hh b/src/Ainur/AinurMacros.hh
index d89e46e..3b3b591 100644
--- a/src/Ainur/AinurMacros.hh
+++ b/src/Ainur/AinurMacros.hh
@@ -1,7 +1,9 @@
 #ifndef AINURMACROS_HH
 #define AINURMACROS_HH
 #include "../PsimagLite.h"
+#include <limits>
 #include <map>
+#include <sstream>
 #include <string>
 
 namespace PsimagLite {
@@ -210,7 +212,10 @@ public:
 		std::string argument = AinurFunction::deleteEnclosing(nameValue.second, '(', ')');
 		double x = PsimagLite::atof(argument);
 		double y = ainurFunctions_[index](x);
-		return std::to_string(y);
+		std::ostringstream os;
+		os.precision(std::numeric_limits<double>::max_digits10);
+		os << y;
+		return os.str();
 	}
 
 private:
-- 
2.43.0


From 1d1ba4dedd3a20f8a15f67ddc017606812eb43b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:11 +0000
Subject: [PATCH 062/129] fix: an Ainur macro defined in terms of itself grew
 until memory ran out

---
 src/Ainur/AinurState.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index e19dbe4..c41ac45 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -217,8 +217,32 @@ private:
 		}
 	}
 
+	// throws if the macros in value ind lead back to one of those in path
+	void checkMacroCycles(SizeType ind, VectorSizeType path) const
+	{
+		if (std::find(path.begin(), path.end(), ind) != path.end())
+			err("Macro " + ainurVariables_[ind].key + " is defined in terms of itself\n");
+
+		path.push_back(ind);
+		const String& value = ainurVariables_[ind].value;
+		for (SizeType i = value.find('\\'); i < value.length();) {
+			String macroName;
+			for (++i; i < value.length() && isValidCharForMacroName(value[i]); ++i)
+				macroName += value[i];
+			int x = storageIndexByName(macroName);
+			if (x >= 0)
+				checkMacroCycles(x, path);
+			while (i < value.length() && value[i] != '\\')
+				++i;
+		}
+	}
+
 	void expandMacrosRecursively()
 	{
+		for (SizeType i = 0; i < ainurVariables_.size(); ++i)
+			if (used_[i])
+				checkMacroCycles(i, VectorSizeType());
+
 		static const SizeType avoidInfMax = 100;
 		SizeType avoidInfCounter = 0;
 		while (expandMacros()) {
-- 
2.43.0


From f5a96af5570bebd330b1ffcedf802bd9aa8e2882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:38 +0000
Subject: [PATCH 063/129] fix: the modulus of the previous repair did not
 compile for unsigned numbers

---
 src/AST/AdditionalFunctions.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/AST/AdditionalFunctions.h b/src/AST/AdditionalFunctions.h
index ebd44c8..e8d36c8 100644
--- a/src/AST/AdditionalFunctions.h
+++ b/src/AST/AdditionalFunctions.h
@@ -41,8 +41,8 @@ public:
 		assert(v.size() == 2);
 
 		// PsimagLite::norm is squared if the type is complex
-		RealType v0 = std::abs(v[0]);
-		RealType v1 = std::abs(v[1]);
+		RealType v0 = std::hypot(PsimagLite::real(v[0]), PsimagLite::imag(v[0]));
+		RealType v1 = std::hypot(PsimagLite::real(v[1]), PsimagLite::imag(v[1]));
 
 		SizeType x = static_cast<int>(v0);
 		SizeType y = static_cast<int>(v1);
-- 
2.43.0


From 71f8ef667e2f9394a9525a3a1941174964cf8dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 064/129] fix: a sorted SparseVector that was filled from a
 chunk was never sorted again

---
 src/SparseVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index e2213e6..62c7b1e 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -130,6 +130,7 @@ public:
 		values_.clear();
 		indices_.clear();
 		size_ = x;
+		isSorted_ = false;
 	}
 
 	//! adds an index (maybe the indices should be sorted at some point)
-- 
2.43.0


From a2489c560f5ee15679fc70198542bec561d4c83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 065/129] fix: SparseVector::toChunk kept old content, lost
 repeated indices and wrote past its end

---
 src/SparseVector.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 62c7b1e..bbc6c79 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -165,13 +165,15 @@ public:
 	{
 		if (test) {
 			PairType firstLast = findFirstLast();
-			if (i0 > firstLast.first || i0 + total < firstLast.second)
+			if (i0 > firstLast.first || i0 + total <= firstLast.second)
 				throw RuntimeError("SparseVector::toChunk(...)"
 				                   " check failed\n");
 		}
 		dest.resize(total);
+		for (SizeType i = 0; i < total; i++)
+			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
-			dest[indices_[i] - i0] = values_[i];
+			dest[indices_[i] - i0] += values_[i];
 	}
 
 	template <typename SomeBasisType>
@@ -185,7 +187,7 @@ public:
 		for (SizeType i = 0; i < total; i++)
 			dest[i] = 0;
 		for (SizeType i = 0; i < indices_.size(); i++)
-			dest[indices_[i] - offset] = values_[i];
+			dest[indices_[i] - offset] += values_[i];
 		return part;
 	}
 
-- 
2.43.0


From 816c2cbc9359bf9cccb274b8129aeec82421ec91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 066/129] fix: SparseVector::findPartition refused a vector
 ending on a partition's first index

---
 src/SparseVector.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index bbc6c79..48d1e18 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -163,7 +163,7 @@ public:
 
 	void toChunk(typename Vector<FieldType>::Type& dest, SizeType i0, SizeType total, bool test = false) const
 	{
-		if (test) {
+		if (test && indices_.size() > 0) {
 			PairType firstLast = findFirstLast();
 			if (i0 > firstLast.first || i0 + total <= firstLast.second)
 				throw RuntimeError("SparseVector::toChunk(...)"
@@ -194,6 +194,8 @@ public:
 	template <typename SomeBasisType>
 	SizeType findPartition(const SomeBasisType& parts) const
 	{
+		if (indices_.size() == 0)
+			return 0;
 		PairType firstLast = findFirstLast();
 		SizeType ret = 0;
 		for (SizeType i = 0; i < parts.partition(); i++) {
@@ -204,9 +206,9 @@ public:
 				break;
 			}
 		}
-		SizeType ret2 = 1;
+		SizeType ret2 = 0;
 		for (SizeType i = 0; i < parts.partition(); i++) {
-			if (firstLast.second > parts.partition(i)) {
+			if (firstLast.second >= parts.partition(i)) {
 				ret2 = i;
 			}
 			else {
-- 
2.43.0


From 05dfa93de2240450678db4d2306df82730bc889d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 067/129] fix: subtracting a SparseVector from itself never
 ended

---
 src/SparseVector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 48d1e18..81d2069 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -232,7 +232,8 @@ public:
 
 	SparseVector<FieldType> operator-=(const SparseVector<FieldType>& v)
 	{
-		for (SizeType i = 0; i < v.values_.size(); i++) {
+		const SizeType n = v.values_.size();
+		for (SizeType i = 0; i < n; i++) {
 			values_.push_back(-v.values_[i]);
 			indices_.push_back(v.indices_[i]);
 		}
-- 
2.43.0


From c13e0c9398c9daf840eba1dee6984ca3e7f5a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 068/129] fix: SparseVector compared equal to vectors with
 fewer entries and read past its end

---
 src/SparseVector.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 81d2069..d1ee004 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -245,6 +245,8 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
+		if (size_ != v.size_ || values_.size() != v.values_.size())
+			return false;
 		for (SizeType i = 0; i < v.values_.size(); i++) {
 			if (indices_[i] != v.indices_[i])
 				return false;
-- 
2.43.0


From 63412c98051577c80d5bfac6b48db7ecf661d560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 069/129] fix: SparseVector::sort skipped vectors of less than
 two entries

---
 src/SparseVector.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index d1ee004..c3a8a70 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -297,8 +297,12 @@ public:
 
 	void sort()
 	{
-		if (indices_.size() < 2 || isSorted_)
+		if (isSorted_)
 			return;
+		if (indices_.size() == 0) {
+			isSorted_ = true;
+			return;
+		}
 
 		Sort<typename Vector<SizeType>::Type> sort;
 		typename Vector<SizeType>::Type iperm(indices_.size());
-- 
2.43.0


From e62907665192a0eb65bee0c968597e02b61ef5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 070/129] fix: SparseRowCached with an initial size of zero
 wrote past its end

---
 src/SparseRowCached.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseRowCached.h b/src/SparseRowCached.h
index 70cd27d..2667090 100644
--- a/src/SparseRowCached.h
+++ b/src/SparseRowCached.h
@@ -109,7 +109,7 @@ public:
 		                        values_.push_back(value);*/
 		SizeType cacheSize = cols_.size();
 		if (counter_ >= cacheSize) {
-			cacheSize *= 2;
+			cacheSize = (cacheSize == 0) ? 1 : 2 * cacheSize;
 			cols_.resize(cacheSize);
 			values_.resize(cacheSize);
 		}
-- 
2.43.0


From 1173adc30552d8f985eacfefd2e8f91045bb75a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:53 +0000
Subject: [PATCH 071/129] fix: comparing sparse vectors, and the norm of
 complex ones, did not compile

---
 src/SparseVector.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index c3a8a70..92a6a39 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -251,7 +251,7 @@ public:
 			if (indices_[i] != v.indices_[i])
 				return false;
 			FieldType val = values_[i] - v.values_[i];
-			if (!isAlmostZero(val, 1e-8))
+			if (std::abs(val) >= 1e-8)
 				return false;
 		}
 		return true;
@@ -286,7 +286,7 @@ public:
 	{
 		SizeType x = 0;
 		for (SizeType i = 0; i < indices_.size(); i++) {
-			if (isAlmostZero(values_[i], 1e-4))
+			if (std::abs(values_[i]) < 1e-4)
 				continue;
 			x++;
 			if (x > 1)
@@ -402,7 +402,7 @@ inline FieldType norm(const SparseVector<std::complex<FieldType>>& v)
 	std::complex<FieldType> sum = 0;
 	for (SizeType i = 0; i < v.indices(); i++)
 		sum += PsimagLite::conj(v.value(i)) * v.value(i);
-	return real(sqrt(sum));
+	return std::real(sqrt(sum));
 }
 
 } // namespace PsimagLite
-- 
2.43.0


From 0a5a97b2d5541a1450245f173965bb66e0d7a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:58:08 +0000
Subject: [PATCH 072/129] fix: equality of SparseVectors depended on zeros that
 one of them stored

---
 src/SparseVector.h | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/SparseVector.h b/src/SparseVector.h
index 92a6a39..24c7b60 100644
--- a/src/SparseVector.h
+++ b/src/SparseVector.h
@@ -245,12 +245,20 @@ public:
 	{
 		assert(isSorted_);
 		assert(v.isSorted_);
-		if (size_ != v.size_ || values_.size() != v.values_.size())
+		if (size_ != v.size_)
 			return false;
-		for (SizeType i = 0; i < v.values_.size(); i++) {
-			if (indices_[i] != v.indices_[i])
-				return false;
-			FieldType val = values_[i] - v.values_[i];
+		SizeType i = 0;
+		SizeType j = 0;
+		while (i < indices_.size() || j < v.indices_.size()) {
+			FieldType val = 0;
+			const bool fromThis = (i < indices_.size()
+			                       && (j == v.indices_.size() || indices_[i] <= v.indices_[j]));
+			const bool fromThat = (j < v.indices_.size()
+			                       && (i == indices_.size() || v.indices_[j] <= indices_[i]));
+			if (fromThis)
+				val += values_[i++];
+			if (fromThat)
+				val -= v.values_[j++];
 			if (std::abs(val) >= 1e-8)
 				return false;
 		}
-- 
2.43.0


From ba1b9e5fc635f3158091ff6dfd2346e48f6750c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:17 +0000
Subject: [PATCH 073/129] fix: LongChain accepted distances that no pair of its
 sites can have

---
 src/Geometry/LongChain.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index dda4894..d16a75d 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -118,8 +118,8 @@ public:
 		catch (std::exception& e) {
 		}
 
-		if (linSize_ <= distance_)
-			RuntimeError("LongChain::ctor()\n");
+		if (distance_ == 0 || linSize_ <= distance_)
+			throw RuntimeError("LongChain::ctor(): LongChainDistance must be between 1 and the number of sites minus one\n");
 	}
 
 	virtual SizeType maxConnections() const
-- 
2.43.0


From 2f0dea991ac3ac6144b3f94c5d3b0bd87aaa5c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 074/129] fix: two bonds of a periodic chain had the same
 number

---
 src/Geometry/LongChain.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongChain.h b/src/Geometry/LongChain.h
index d16a75d..c13868a 100644
--- a/src/Geometry/LongChain.h
+++ b/src/Geometry/LongChain.h
@@ -131,14 +131,17 @@ public:
 
 	SizeType handle(SizeType i, SizeType j) const
 	{
-		return (i < j) ? i : j;
+		const SizeType imin = (i < j) ? i : j;
+		const SizeType imax = (i < j) ? j : i;
+		// bonds going around the chain are numbered after all others
+		const bool isAround = (isPeriodic_ && imax - imin != distance_);
+		return (isAround) ? imax : imin;
 	}
 
 	SizeType getVectorSize(SizeType dirId) const
 	{
 		assert(dirId == DIRECTION_X);
-		const SizeType oneOrZero = (isPeriodic_) ? 1 : 0;
-		return linSize_ - distance_ + oneOrZero;
+		return (isPeriodic_) ? linSize_ : linSize_ - distance_;
 	}
 
 	bool connected(SizeType i1, SizeType i2) const
-- 
2.43.0


From c94fe96628a3d41cf93d6a4a331e136a0f61868e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 075/129] fix: a ladder with one leg had an undefined
 periodicity, and one with none divided by zero

---
 src/Geometry/Ladder.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 9440024..3df7ffe 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -96,9 +96,13 @@ public:
 	Ladder(SizeType linSize, InputType& io)
 	    : linSize_(linSize)
 	    , isPeriodicX_(false)
+	    , isPeriodicY_(false)
 	{
 
 		io.readline(leg_, "LadderLeg=");
+		if (leg_ == 0)
+			throw RuntimeError("Ladder: LadderLeg=0 not allowed\n");
+
 		if (leg_ != 2) {
 			std::cerr << "WARNING: LadderLeg!=2 is experimental!\n";
 		}
-- 
2.43.0


From 1ad4e82dd1346a41b7295620b0ea54845e9e92d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 076/129] fix: the error for a periodic rung of a two-leg
 ladder was swallowed

---
 src/Geometry/Ladder.h | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/Geometry/Ladder.h b/src/Geometry/Ladder.h
index 3df7ffe..0ce2ae9 100644
--- a/src/Geometry/Ladder.h
+++ b/src/Geometry/Ladder.h
@@ -121,9 +121,6 @@ public:
 			int x = 0;
 			io.readline(x, "IsPeriodicY=");
 			isPeriodicY_ = (x > 0) ? true : false;
-			if (leg_ == 2)
-				throw RuntimeError("LadderLeg==2 cannot have "
-				                   "IsPeriodicY set\n");
 			std::cerr << "INFO: IsPeriodicY=" << isPeriodicY_
 			          << "\n";
 		}
@@ -133,8 +130,9 @@ public:
 				                   "IsPeriodicY= line\n");
 		}
 
-		if (leg_ == 2)
-			isPeriodicY_ = false;
+		if (leg_ == 2 && isPeriodicY_)
+			throw RuntimeError("LadderLeg==2 cannot have "
+			                   "IsPeriodicY set\n");
 
 		if (linSize % leg_ != 0)
 			throw RuntimeError(
-- 
2.43.0


From e20f40ca99d9086aa2f2f78f6139878b7ef09cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 077/129] fix: bonds of a periodic or more than two-leg ladderx
 had the same number

---
 src/Geometry/LadderX.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/Geometry/LadderX.h b/src/Geometry/LadderX.h
index a2ba12a..29985d1 100644
--- a/src/Geometry/LadderX.h
+++ b/src/Geometry/LadderX.h
@@ -164,7 +164,8 @@ public:
 		if (ladder_.sameRow(i1, i2))
 			return DIRECTION_X;
 		SizeType imin = (i1 < i2) ? i1 : i2;
-		if (imin & 1)
+		SizeType imax = (i1 < i2) ? i2 : i1;
+		if (imin % leg_ > imax % leg_)
 			return DIRECTION_XPY;
 		return DIRECTION_XMY;
 	}
@@ -187,13 +188,12 @@ public:
 		SizeType imin = (i1 < i2) ? i1 : i2;
 		switch (dir) {
 		case DIRECTION_X:
-			return imin;
 		case DIRECTION_Y:
+			return ladder_.handle(i1, i2);
+		case DIRECTION_XPY: // leg_-1 of these between two columns
+			return imin - 1 - imin / leg_;
+		case DIRECTION_XMY:
 			return imin - imin / leg_;
-		case DIRECTION_XPY: // only checked for leg_=2
-			return (imin - 1) / leg_;
-		case DIRECTION_XMY: // only checked for leg_=2
-			return imin / leg_;
 		}
 		throw RuntimeError("handle: Unknown direction\n");
 	}
-- 
2.43.0


From 043e90adc29c92a69daee7349fb7fd9d2537278a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 078/129] fix: LadderBath accepted clusters its bath sites
 cannot be shared among

---
 src/Geometry/LadderBath.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/LadderBath.h b/src/Geometry/LadderBath.h
index d43360b..7f3be59 100644
--- a/src/Geometry/LadderBath.h
+++ b/src/Geometry/LadderBath.h
@@ -105,6 +105,10 @@ public:
 	{
 		io.readline(bathSitesPerSite_, "BathSitesPerSite=");
 		clusterSize_ = linSize_ / (1 + bathSitesPerSite_);
+		if (clusterSize_ * (1 + bathSitesPerSite_) != linSize_)
+			throw RuntimeError("LadderBath: 1+BathSitesPerSite must divide number of sites\n");
+		if (bathSitesPerSite_ > 0 && (clusterSize_ & 1))
+			throw RuntimeError("LadderBath: the cluster must have an even number of sites\n");
 
 		ladder_ = new LadderType(clusterSize_, io);
 	}
-- 
2.43.0


From 023ff354e23ac67b818786609e7b7fb5d26f3b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 079/129] fix: KTwoNiFFour without ConstantValues aborted, or
 gave number 0 to all bonds

---
 src/Geometry/KTwoNiFFour.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/Geometry/KTwoNiFFour.h b/src/Geometry/KTwoNiFFour.h
index c8688a8..2d09e3d 100644
--- a/src/Geometry/KTwoNiFFour.h
+++ b/src/Geometry/KTwoNiFFour.h
@@ -113,7 +113,6 @@ public:
 
 	SizeType getVectorSize(SizeType) const
 	{
-		assert(false);
 		throw RuntimeError("getVectorSize: unimplemented\n");
 	}
 
@@ -216,8 +215,7 @@ public:
 	// assumes i1 and i2 are connected
 	SizeType handle(SizeType, SizeType) const
 	{
-		assert(false);
-		return 0;
+		throw RuntimeError("handle: unimplemented\n");
 	}
 
 	// siteNew2 is fringe in the environment
-- 
2.43.0


From 98ef660d063e59aff085e0933e430f9fec24817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 080/129] fix: the honeycomb lattice lacked its bonds in
 direction Y between columns and around X

---
 src/Geometry/Honeycomb.h | 18 +++++-------------
 1 file changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 37cab57..1f27511 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -246,13 +246,9 @@ private:
 		if (x1 == x2)
 			return isDirectionYsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
-		if (dy != 1)
-			return false;
-
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf3(y1) && (y2 < y1))
+		if ((dx == 1) && is4nPlus3(y1) && (y2 + 1 == y1))
 			return true;
 
 		if (!periodicX_)
@@ -263,7 +259,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf3(y2) && (y1 < y2));
+		return (is4nPlus3(y2) && (y1 + 1 == y2));
 	}
 
 	// assumes i1 < i2
@@ -272,13 +268,9 @@ private:
 		if (x1 == x2)
 			return isDirectionXsameCol(y1, y2);
 
-		SizeType dy = y2 - y1;
-		if (dy != 1)
-			return false;
-
 		assert(x1 < x2);
 		SizeType dx = x2 - x1;
-		if ((dx == 1) && isMultipleOf4(y1) && (y1 < y2))
+		if ((dx == 1) && isMultipleOf4(y1) && (y1 + 1 == y2))
 			return true;
 
 		if (!periodicX_)
@@ -289,7 +281,7 @@ private:
 		if (dx + 1 != lx)
 			return false;
 
-		return (isMultipleOf4(y2) && (y2 < y1));
+		return (isMultipleOf4(y2) && (y2 + 1 == y1));
 	}
 
 	bool isDirectionYsameCol(SizeType y1, SizeType y2) const
@@ -320,7 +312,7 @@ private:
 		return false;
 	}
 
-	static bool isMultipleOf3(SizeType y) { return ((y % 3) == 0); }
+	static bool is4nPlus3(SizeType y) { return ((y % 4) == 3); }
 
 	static bool isMultipleOf4(SizeType y) { return ((y % 4) == 0); }
 
-- 
2.43.0


From c4eba047cc946a75adee1e49817d31a840bb58c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 081/129] fix: the honeycomb lattice accepted heights that it
 cannot have

---
 src/Geometry/Honeycomb.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index 1f27511..b68f7ae 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -101,6 +101,10 @@ public:
 	    , periodicX_(false)
 	{
 		io.readline(ly_, "HoneycombLy=");
+		if (ly_ == 0 || ly_ % 4 != 0)
+			throw RuntimeError("Honeycomb: HoneycombLy must be a multiple of 4\n");
+		if (linSize_ % ly_ != 0)
+			throw RuntimeError("Honeycomb: HoneycombLy must divide number of sites\n");
 		int x = 0;
 		io.readline(x, "IsPeriodicY=");
 		periodicY_ = (x > 0);
-- 
2.43.0


From 971b826bc2e12fdcc75425c7b865636cb493d2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 082/129] fix: the honeycomb fringe ignored neighbors of the
 last site of the system

---
 src/Geometry/Honeycomb.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Honeycomb.h b/src/Geometry/Honeycomb.h
index b68f7ae..fb23099 100644
--- a/src/Geometry/Honeycomb.h
+++ b/src/Geometry/Honeycomb.h
@@ -160,7 +160,7 @@ public:
 			return isThereAneighbor(i, emin, linSize_);
 
 		if (i >= emin)
-			return isThereAneighbor(i, 0, smax);
+			return isThereAneighbor(i, 0, smax + 1);
 
 		return false;
 	}
-- 
2.43.0


From 678112eb15ec3f283510c4143deae4e3e9d1aade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 083/129] fix: sites of a LongRange geometry were connected to
 themselves

---
 src/Geometry/LongRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/LongRange.h b/src/Geometry/LongRange.h
index 9593054..4ad5157 100644
--- a/src/Geometry/LongRange.h
+++ b/src/Geometry/LongRange.h
@@ -177,7 +177,7 @@ public:
 		    "LongRange::getVectorSize(): unimplemented\n");
 	}
 
-	bool connected(SizeType i1, SizeType i2) const { return true; }
+	bool connected(SizeType i1, SizeType i2) const { return (i1 != i2); }
 
 	// assumes i1 and i2 are connected
 	SizeType calcDir(SizeType, SizeType) const { return 0; }
-- 
2.43.0


From 305d4a0534190347ce44683af1922b966439fd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 084/129] fix: LongRange accepted Connectors too small for its
 sites

---
 src/Geometry/LongRange.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/LongRange.h b/src/Geometry/LongRange.h
index 4ad5157..37ac2b1 100644
--- a/src/Geometry/LongRange.h
+++ b/src/Geometry/LongRange.h
@@ -129,7 +129,7 @@ public:
 			reinterpretMatrix();
 		}
 		else {
-			if (dofs_ != matrix_.rows() / linSize) {
+			if (matrix_.rows() != dofs_ * linSize || matrix_.cols() != matrix_.rows()) {
 				throw RuntimeError("Wrong Connectors matrix size\n");
 			}
 		}
-- 
2.43.0


From 6ab4b293b24f5770a282053e23e9dcd7747a7b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 085/129] fix: compact LongRange connectors outside the lattice
 were written out of bounds

---
 src/Geometry/LongRange.h | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Geometry/LongRange.h b/src/Geometry/LongRange.h
index 37ac2b1..6f5768b 100644
--- a/src/Geometry/LongRange.h
+++ b/src/Geometry/LongRange.h
@@ -295,28 +295,38 @@ private:
 		SizeType n = linSize_ * dofs_;
 		matrix_.clear();
 		matrix_.resize(n, n);
+		if (values.cols() != ((dofs_ > 1) ? 5 : 3))
+			throw RuntimeError("Wrong number of columns in Connectors matrix with compact option\n");
 		if (dofs_ > 1) {
-			assert(values.cols() == 5);
 			for (SizeType i = 0; i < values.rows(); ++i) {
 				SizeType counter = 0;
 				SizeType site0 = complexToInteger(values(i, counter++));
 				SizeType orb0 = complexToInteger(values(i, counter++));
 				SizeType site1 = complexToInteger(values(i, counter++));
 				SizeType orb1 = complexToInteger(values(i, counter++));
+				checkRange(site0, orb0);
+				checkRange(site1, orb1);
 				matrix_(orb0 + site0 * dofs_, orb1 + site1 * dofs_) = values(i, counter++);
 			}
 		}
 		else {
-			assert(values.cols() == 3);
 			for (SizeType i = 0; i < values.rows(); ++i) {
 				SizeType counter = 0;
 				SizeType site0 = complexToInteger(values(i, counter++));
 				SizeType site1 = complexToInteger(values(i, counter++));
+				checkRange(site0, 0);
+				checkRange(site1, 0);
 				matrix_(site0, site1) = values(i, counter++);
 			}
 		}
 	}
 
+	void checkRange(SizeType site, SizeType orb) const
+	{
+		if (site >= linSize_ || orb >= dofs_)
+			throw RuntimeError("Site or orbital out of range in Connectors matrix with compact option\n");
+	}
+
 	static SizeType complexToInteger(const ComplexOrRealType& value)
 	{
 		if (std::imag(value) != 0) {
@@ -324,7 +334,7 @@ private:
 		}
 
 		RealType val = std::real(value);
-		if (!isInt64(val)) {
+		if (val < 0 || !isInt64(val)) {
 			throw RuntimeError(std::string("Expected an integer in Connectors matrix ") + +" with compact option, not a floating point number\n");
 		}
 
-- 
2.43.0


From 53bf72e4b853c30724f363f1f1f44c5ed466f4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 086/129] fix: Geometry::split repeated sites when half the
 lattice is not a number of blocks

---
 src/Geometry/Geometry.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index 747267e..a7c8599 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -244,13 +244,14 @@ public:
 			i += sitesPerBlock;
 		}
 
+		const SizeType firstOfY = i;
 		SizeType lastMiddle = linSize_ - sitesPerBlock;
 		while (i < lastMiddle) {
 			typename Vector<SizeType>::Type tmpV(sitesPerBlock);
 			typename Vector<SizeType>::Type tmpV2(sitesPerBlock);
 			for (SizeType j = 0; j < sitesPerBlock; j++) {
 				SizeType jj = sitesPerBlock - 1 - j;
-				tmpV[j] = (linSize_ - 1 - i - jj) + (middle - sitesPerBlock);
+				tmpV[j] = lastMiddle - 1 - (i - firstOfY) - jj;
 				tmpV2[j] = jj + i;
 				assert(tmpV[j] < linSize_);
 			}
-- 
2.43.0


From a4e69fea64ee487e146320893245ce2451a30a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:18 +0000
Subject: [PATCH 087/129] fix: Geometry::print did not compile

---
 src/Geometry/Geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Geometry/Geometry.h b/src/Geometry/Geometry.h
index a7c8599..611e717 100644
--- a/src/Geometry/Geometry.h
+++ b/src/Geometry/Geometry.h
@@ -301,7 +301,7 @@ public:
 	void print(std::ostream& os) const
 	{
 		for (SizeType i = 0; i < terms_.size(); i++)
-			terms_[i]->print(os, linSize_);
+			terms_[i]->print(os);
 	}
 
 	SizeType handle(SizeType t, SizeType ind, SizeType jnd) const
-- 
2.43.0


From f3e4f061c0a7cc6ba1c0f3ef0bca88eb99bc6dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:12 +0000
Subject: [PATCH 088/129] fix: Lanczos stopped before the requested state had
 converged, and could run past its steps

---
 src/LanczosCore.h   | 9 ++++-----
 src/LanczosSolver.h | 9 ++++++---
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index e2c703d..33680ed 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -219,8 +219,7 @@ public:
 
 			lanczosVectors_.oneStepDecomposition(V0, V1, V2, ab, j);
 			ab.diag(tmpEigs, j + 1);
-			const SizeType eigsForError = std::min(excitedForStop,
-			                                       static_cast<SizeType>(tmpEigs.size()));
+			const SizeType eigsForError = std::min(excitedForStop, j + 1);
 
 			deltaMax = 0;
 			for (SizeType ii = 0; ii < eigsForError; ++ii) {
@@ -230,10 +229,10 @@ public:
 					deltaMax = delta;
 			}
 
-			if (deltaMax < params_.tolerance)
-				exitFlag = true;
+			// the previous step had j eigenvalues to compare with
+			exitFlag = (deltaMax < params_.tolerance && j >= excitedForStop);
 			if (j == max_nstep - 1)
-				exitFlag = true;
+				break;
 			if (exitFlag && mat_.rows() <= 4)
 				break;
 			if (exitFlag && j >= params_.minSteps)
diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 4722237..3282684 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -38,7 +38,10 @@ public:
 		Profiling profiling("LanczosSolver", std::cout);
 
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
+
+		if (excited >= ab.size())
+			throw RuntimeError("Excited too big\n");
 
 		VectorRealType eigs(ab.size());
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -72,9 +75,9 @@ public:
 	void computeAllStatesBelow(VectorRealType& eigs, VectorVectorType& z, const VectorType& initialVector, SizeType excited)
 	{
 		TridiagonalMatrixType ab;
-		ls_.decomposition(initialVector, ab, excited);
+		ls_.decomposition(initialVector, ab, excited + 1);
 
-		if (excited > ab.size())
+		if (excited >= ab.size())
 			throw RuntimeError("Excited too big\n");
 
 		typename LanczosCoreType::DenseMatrixType ritz;
-- 
2.43.0


From eb13f77534dd26c25900aa7921b232d655e4d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 089/129] fix: Lanczos wrote out of bounds for a matrix with
 one row

---
 src/LanczosCore.h         | 3 ++-
 src/TridiagonalMatrix.cpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 33680ed..eac37d8 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -199,7 +199,8 @@ public:
 		}
 
 		btmp = sqrt(btmp);
-		ab.b(1) = btmp; // beta = sqrt(V1*V1)
+		if (max_nstep > 1)
+			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
 		if (btmp > 0) {
 			btmp = 1.0 / btmp;
diff --git a/src/TridiagonalMatrix.cpp b/src/TridiagonalMatrix.cpp
index cf76644..6d2df3c 100644
--- a/src/TridiagonalMatrix.cpp
+++ b/src/TridiagonalMatrix.cpp
@@ -19,7 +19,7 @@ void TridiagonalMatrix<double>::diag2(
 	TridiagonalMatrix<double>::VectorType e = b_;
 	eigs = a_;
 
-	psimag::LAPACK::dstedc_(&jobz, &n, &(eigs[0]), &(e[1]), &(z[0]), &lz, &(work[0]), &lwork, &(iwork[0]), &liwork, &info);
+	psimag::LAPACK::dstedc_(&jobz, &n, eigs.data(), e.data() + 1, &(z[0]), &lz, &(work[0]), &lwork, &(iwork[0]), &liwork, &info);
 
 	if (info == 0)
 		return;
@@ -44,7 +44,7 @@ void TridiagonalMatrix<float>::diag2(
 	TridiagonalMatrix<float>::VectorType e = b_;
 	eigs = a_;
 
-	psimag::LAPACK::sstedc_(&jobz, &n, &(eigs[0]), &(e[1]), &(z[0]), &lz, &(work[0]), &lwork, &(iwork[0]), &liwork, &info);
+	psimag::LAPACK::sstedc_(&jobz, &n, eigs.data(), e.data() + 1, &(z[0]), &lz, &(work[0]), &lwork, &(iwork[0]), &liwork, &info);
 
 	if (info == 0)
 		return;
-- 
2.43.0


From 230c6c9d346d541b16d0e3a0935881b132b6a91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 090/129] fix: Lanczos added zero eigenvalues when the start
 vector spans an invariant subspace

---
 src/LanczosCore.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index eac37d8..009ee54 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -218,6 +218,10 @@ public:
 		// ---- Starting the loop -------
 		for (j = 1; j < max_nstep; ++j) {
 
+			// the vectors so far span an invariant subspace
+			if (ab.b(j) == 0)
+				break;
+
 			lanczosVectors_.oneStepDecomposition(V0, V1, V2, ab, j);
 			ab.diag(tmpEigs, j + 1);
 			const SizeType eigsForError = std::min(excitedForStop, j + 1);
@@ -249,7 +253,7 @@ public:
 		}
 
 		if (j < max_nstep) {
-			max_nstep = j + 1;
+			max_nstep = (ab.b(j) == 0) ? j : j + 1;
 			ab.resize(max_nstep);
 		}
 
-- 
2.43.0


From 61dc4e5de4467e500fc675f19c12e763df1f0132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 091/129] fix: LanczosVectors::excitedVector added to what the
 vector held

---
 src/LanczosVectors.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index c544eb9..7dc14be 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -192,6 +192,8 @@ public:
 	{
 		SizeType small = data_->cols();
 		SizeType big = data_->rows();
+		for (SizeType i = 0; i < big; i++)
+			z[i] = 0;
 		for (SizeType j = 0; j < small; j++) {
 			ComplexOrRealType ctmp = ritz(j, excited);
 			for (SizeType i = 0; i < big; i++)
-- 
2.43.0


From 476c6725ff511f76778c8dd649aaac7ea3b82e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 092/129] fix: TridiagonalMatrix::buildDenseMatrix kept entries
 of the matrix it was given

---
 src/TridiagonalMatrix.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/TridiagonalMatrix.h b/src/TridiagonalMatrix.h
index a9dd54b..3ccdf26 100644
--- a/src/TridiagonalMatrix.h
+++ b/src/TridiagonalMatrix.h
@@ -153,6 +153,7 @@ public:
 	{
 		if (n == 0)
 			n = a_.size();
+		m.clear();
 		m.resize(n, n, 0);
 		for (SizeType i = 0; i < n - 1; ++i) {
 			m(i, i) = a_[i];
-- 
2.43.0


From ca38696d7758cbdc5f3c9118c83ad8d11193ac0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:40 +0000
Subject: [PATCH 093/129] fix: a second Lanczos decomposition was limited to
 the steps of the first, or refused

---
 src/LanczosCore.h    | 1 +
 src/LanczosVectors.h | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 009ee54..6a3ec7b 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -150,6 +150,7 @@ public:
 	{
 		SizeType& max_nstep = steps_;
 		SizeType matsize = mat_.rows();
+		max_nstep = params_.steps;
 
 		if (initVector.size() != matsize) {
 			String msg("decomposition: vector size ");
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 7dc14be..438a853 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -273,9 +273,9 @@ private:
 			return;
 
 		if (data_) {
-			if (rows != data_->rows() || cols != data_->cols())
-				throw RuntimeError("LanczosVectors: data has "
-				                   "already been set!\n");
+			// from an earlier decomposition
+			data_->clear();
+			data_->resize(rows, cols);
 			return;
 		}
 
-- 
2.43.0


From 0e6b81c82a8979817817a124d0ad437ad40da006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 094/129] fix: Lanczos took rounding for a new direction when
 the start vector spans an invariant subspace

---
 src/LanczosCore.h    |  9 ++-------
 src/LanczosVectors.h | 35 ++++++++++++++++++++++++++---------
 2 files changed, 28 insertions(+), 16 deletions(-)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 6a3ec7b..631397c 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -193,22 +193,17 @@ public:
 			    V1[i] * PsimagLite::conj(V0[i])); // alpha = <V0|V1>
 		ab.a(0) = atmp;
 
+		const RealType scale = norm(V1);
 		RealType btmp = 0.0;
 		for (SizeType i = 0; i < matsize; ++i) {
 			V1[i] -= atmp * V0[i]; // V1 = V1 - alpha*V0
 			btmp += PsimagLite::real(V1[i] * PsimagLite::conj(V1[i]));
 		}
 
-		btmp = sqrt(btmp);
+		btmp = lanczosVectors_.normalizeNext(V1, sqrt(btmp), scale, 0);
 		if (max_nstep > 1)
 			ab.b(1) = btmp; // beta = sqrt(V1*V1)
 
-		if (btmp > 0) {
-			btmp = 1.0 / btmp;
-			for (SizeType i = 0; i < matsize; ++i)
-				V1[i] *= btmp; // normalize V1
-		}
-
 		if (lanczosVectors_.lotaMemory() && 1 < max_nstep)
 			lanczosVectors_.saveVector(V1, 1);
 
diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 438a853..39e3a06 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -86,6 +86,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "Random48.h"
 #include "Vector.h"
 #include <cassert>
+#include <limits>
 
 namespace PsimagLite {
 
@@ -214,33 +215,44 @@ public:
 			    V2[h] * PsimagLite::conj(V1[h])); // <V1|V2>
 		ab.a(iter) = atmp;
 
+		const RealType scale = norm(V2);
 		RealType btmp = 0.0;
 		for (SizeType h = 0; h < nn; h++) {
 			V2[h] = V2[h] - ab.a(iter) * V1[h] - ab.b(iter) * V0[h]; // V2 = V2 - alpha*V1 - beta*V0;
 			btmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
 		}
 
-		btmp = sqrt(btmp);
+		btmp = normalizeNext(V2, sqrt(btmp), scale, iter);
 		if (iter + 1 < ab.size())
 			ab.b(iter + 1) = btmp; // beta = sqrt(V2*V2)
+	}
 
-		if (btmp > 0) {
-			btmp = 1.0 / btmp;
-			for (SizeType i = 0; i < nn; i++)
-				V2[i] *= btmp; // normalize V2
-		}
+	//! Normalizes the candidate for the vector after iter, and returns its
+	//! norm btmp, or zero if what is left of H times the previous
+	//! vector (of norm scale) is only rounding
+	RealType normalizeNext(VectorType& V2, RealType btmp, RealType scale, SizeType iter) const
+	{
+		const RealType small = 100 * std::numeric_limits<RealType>::epsilon() * std::max(RealType(1), scale);
+		if (btmp == 0 || (!isReorthoEnabled_ && btmp < small))
+			return 0;
+
+		const RealType factor = 1.0 / btmp;
+		const SizeType nn = V2.size();
+		for (SizeType i = 0; i < nn; i++)
+			V2[i] *= factor; // normalize V2
 
-		reorthoIfNecessary(V2, iter);
+		return reorthoIfNecessary(V2, iter) ? btmp : 0;
 	}
 
 	void needsDelete(bool b) { needsDelete_ = b; }
 
 private:
 
-	void reorthoIfNecessary(VectorType& V2, SizeType iter) const
+	//! Returns false if V2 is in the span of the previous vectors
+	bool reorthoIfNecessary(VectorType& V2, SizeType iter) const
 	{
 		if (!isReorthoEnabled_)
-			return;
+			return true;
 
 		if (!overlap_ || overlap_->size() <= iter)
 			throw RuntimeError("reorthoIfNecessary failed\n");
@@ -262,9 +274,14 @@ private:
 		for (SizeType h = 0; h < nn; h++)
 			ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
 
+		if (ntmp < std::numeric_limits<RealType>::epsilon())
+			return false;
+
 		ntmp = 1.0 / sqrt(ntmp);
 		for (SizeType h = 0; h < nn; h++)
 			V2[h] = V2[h] * ntmp;
+
+		return true;
 	}
 
 	void dealWithStorageOfV(SizeType rows, SizeType cols)
-- 
2.43.0


From 4e63a0e477164c21e7118afb0e15ed4917890763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:51 +0000
Subject: [PATCH 095/129] fix: Lanczos compared the first step with zero and
 could stop there

---
 src/LanczosCore.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/LanczosCore.h b/src/LanczosCore.h
index 631397c..e0a2374 100644
--- a/src/LanczosCore.h
+++ b/src/LanczosCore.h
@@ -209,6 +209,7 @@ public:
 
 		VectorRealType tmpEigs(ab.size(), 0);
 		VectorRealType eold(ab.size(), 0);
+		eold[0] = ab.a(0); // the eigenvalue of the first step
 		RealType deltaMax = 0;
 
 		// ---- Starting the loop -------
-- 
2.43.0


From c252cf1072e00581e7aceae8dcb76964cec2ee37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 096/129] fix: ContinuedFraction::plotReal wrote out of bounds
 if the step is larger than the interval

---
 src/ContinuedFraction.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ContinuedFraction.h b/src/ContinuedFraction.h
index 0ed099a..2f4a3df 100644
--- a/src/ContinuedFraction.h
+++ b/src/ContinuedFraction.h
@@ -159,6 +159,8 @@ public:
 		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
 		if (result.size() == 0)
 			result.resize(n);
+		if (result.size() == 0)
+			return;
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			ComplexType z(omega, params.delta);
-- 
2.43.0


From 91dad616aa2ec0b6398ca53721afe5709e2bee19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 097/129] fix: ChebyshevSerializer::plot went out of bounds
 with few moments or a large step

---
 src/ChebyshevSerializer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 6e19cb4..5d96b6c 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -144,8 +144,9 @@ public:
 		SizeType n = SizeType((params.omega2 - params.omega1) / params.deltaOmega);
 		if (result.size() == 0)
 			result.resize(n);
+		if (result.size() == 0)
+			return;
 		RealType offset = params_.Eg;
-		std::cerr << "gn[0]=" << gn[0] << " gn[5]=" << gn[5] << "\n";
 		for (RealType omega = params.omega1; omega < params.omega2;
 		     omega += params.deltaOmega) {
 			RealType x = (omega + offset - params_.b) * params_.oneOverA;
-- 
2.43.0


From 6a03f1d41442fd97f48289a2899d193efd1e29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 098/129] fix: ChebyshevSerializer could not be written, and
 read no parameters and out of bounds

---
 src/ChebyshevSerializer.h | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 5d96b6c..9065458 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -99,14 +99,21 @@ public:
 	template <typename IoInputType>
 	ChebyshevSerializer(IoInputType& io)
 	    : progress_("ChebyshevSerializer")
-	    , params_(io, "#Chebyshev")
 	{
+		io.readline(params_.Eg, "#ChebyshevEnergy=");
+		io.readline(params_.oneOverA, "#ChebyshevOneOverA=");
+		io.readline(params_.b, "#ChebyshevB=");
 		VectorRealType tmp;
 		io.read(tmp, "#ChebyshevMoments");
-		SizeType n = tmp.size() / 2;
+		SizeType n = tmp.size();
+		if (n == 0)
+			throw RuntimeError("ChebyshevSerializer: no moments\n");
+		moments_.resize(n, 0);
 		for (SizeType i = 0; i < n; ++i) {
-			moments_.a(i) = tmp[2 * i];
-			moments_.b(i) = tmp[2 * i + 1];
+			if (i & 1)
+				moments_.b(i / 2) = tmp[i];
+			else
+				moments_.a(i / 2) = tmp[i];
 		}
 	}
 
@@ -120,11 +127,15 @@ public:
 
 	void write(IoSimple::Out& io, String) const
 	{
+		io.setPrecision(12);
 		io.write(0, stringMarker_);
-		io.write(params_.Eg, "#ChebyshevEnergy=");
-		io.write(params_.oneOverA, "#ChebyshevOneOverA=");
-		io.write(params_.b, "#ChebyshevB=");
-		io.write(moments_, "#ChebyshevMoments");
+		io.write(params_.Eg, "#ChebyshevEnergy");
+		io.write(params_.oneOverA, "#ChebyshevOneOverA");
+		io.write(params_.b, "#ChebyshevB");
+		VectorRealType tmp(moments_.size());
+		for (SizeType i = 0; i < tmp.size(); ++i)
+			tmp[i] = (i & 1) ? moments_.b(i / 2) : moments_.a(i / 2);
+		io.write(tmp, "#ChebyshevMoments");
 	}
 
 	static const String& stringMarker() { return stringMarker_; }
-- 
2.43.0


From 153cf3b822bf3872c8e28cc6ccee099b424a3c24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 099/129] fix: ChebyshevSolver always threw in its constructor,
 and then used vectors not yet there

---
 src/ChebyshevSolver.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index da3bbca..d3bfa7a 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -182,7 +182,7 @@ public:
 		VectorType x(initVector.size(), 0.0);
 		VectorType y = initVector;
 
-		lanczosVectors_.prepareMemory(y.size(), lanczosVectors_.cols());
+		lanczosVectors_.prepareMemory(y.size(), params_.steps);
 		ab.resize(2 * params_.steps, 0);
 		SizeType cols = lanczosVectors_.cols();
 		for (SizeType j = 0; j < cols; ++j) {
@@ -322,6 +322,7 @@ private:
 		progress_.printline(msgg, std::cout);
 
 		SolverParametersType params;
+		params.lotaMemory = true;
 		InternalMatrix mat2(mat_);
 		RealType eMax = 0;
 		LanczosSolver<SolverParametersType, InternalMatrix, VectorType>
-- 
2.43.0


From 7ce07fecdcd81f98b48243e26bd5891415f1de93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 100/129] fix: ChebyshevSolver doubled the first two moments,
 and got the others wrong

---
 src/ChebyshevSolver.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index d3bfa7a..d1b4482 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -192,8 +192,8 @@ public:
 			RealType atmp = 0;
 			RealType btmp = 0;
 			oneStepDec(x, y, atmp, btmp, j);
-			ab.a(j) = 2 * atmp - ab.a(0);
-			ab.b(j) = 2 * btmp - ab.b(0);
+			ab.a(j) = (j == 0) ? atmp : 2 * atmp - ab.a(0);
+			ab.b(j) = (j == 0) ? btmp : 2 * btmp - ab.b(0);
 		}
 
 		// lanczosVectors_.resize(cols); <--- not needed because all
-- 
2.43.0


From 0940be1217291c8d7a1dbb9df1aebb7878a2a90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 101/129] fix: ChebyshevSolver scaled the spectrum out of
 bounds if it does not enclose zero

---
 src/ChebyshevSolver.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index d1b4482..bf64c27 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -340,8 +340,10 @@ private:
 		lanczosSolver.computeOneState(eMin, z, init, 0);
 
 		eMax = -eMax;
-		eMax *= 3;
-		eMin *= 3;
+		// leave room on both sides, wherever the spectrum is
+		const RealType room = eMax - eMin;
+		eMax += room;
+		eMin -= room;
 		assert(eMax - eMin > 1e-2);
 
 		params_.oneOverA = 2.0 / (eMax - eMin);
-- 
2.43.0


From ee572e52cfc02ec1a514e5b4c1549c6bbd2a6fdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:25 +0000
Subject: [PATCH 102/129] fix: ChebyshevSolver::push did not compile

---
 src/ChebyshevSolver.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ChebyshevSolver.h b/src/ChebyshevSolver.h
index bf64c27..9d8a41a 100644
--- a/src/ChebyshevSolver.h
+++ b/src/ChebyshevSolver.h
@@ -170,8 +170,7 @@ public:
 
 	void push(TridiagonalMatrixType& ab, const RealType& a, const RealType& b) const
 	{
-		ab.push_back(a);
-		ab.push_back(b);
+		ab.push(a, b);
 	}
 
 	//! ab.a contains the even moments
-- 
2.43.0


From f10bb3fbc6fbcbde7d94074e2d1f5d1cce538b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:43 +0000
Subject: [PATCH 103/129] fix: kernelPolynomial read the last but one of
 several Chebyshev expansions

---
 src/ChebyshevSerializer.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ChebyshevSerializer.h b/src/ChebyshevSerializer.h
index 9065458..fcb14f8 100644
--- a/src/ChebyshevSerializer.h
+++ b/src/ChebyshevSerializer.h
@@ -100,6 +100,8 @@ public:
 	ChebyshevSerializer(IoInputType& io)
 	    : progress_("ChebyshevSerializer")
 	{
+		SizeType dummy = 0;
+		io.readline(dummy, stringMarker_ + "=");
 		io.readline(params_.Eg, "#ChebyshevEnergy=");
 		io.readline(params_.oneOverA, "#ChebyshevOneOverA=");
 		io.readline(params_.b, "#ChebyshevB=");
-- 
2.43.0


From e89212047d00904812bb5ebd6d4d526c8b875678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 104/129] fix: LinearPrediction::predict2 went out of bounds if
 it was not asked for as many points as the order

---
 src/LinearPrediction.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 097d765..07c16b7 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -152,6 +152,8 @@ public:
 	{
 		// Fix roots
 		typedef std::complex<double> Complex;
+		const SizeType total = p;
+		p = d_.size(); // order of the recursion
 		SizeType twicep = 2 * p;
 		SizeType pp1 = p + 1;
 		typename Vector<FieldType>::Type nd(p), aa(pp1), zz(twicep);
@@ -197,8 +199,8 @@ public:
 		}
 
 		SizeType n = y_.size();
-		y_.resize(n + p);
-		for (SizeType i = n; i < n + p; i++) {
+		y_.resize(n + total);
+		for (SizeType i = n; i < n + total; i++) {
 			FieldType sum = 0;
 			for (SizeType j = 0; j < d_.size(); j++) {
 				sum += nd[j] * y_[i - j - 1];
-- 
2.43.0


From afb8c5169cc7fbdfd8c1643d5b226125d77a19d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 105/129] fix: LinearPrediction read out of bounds for large
 orders, and ignored singular systems

---
 src/LinearPrediction.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/LinearPrediction.h b/src/LinearPrediction.h
index 07c16b7..b3d789b 100644
--- a/src/LinearPrediction.h
+++ b/src/LinearPrediction.h
@@ -220,6 +220,8 @@ private:
 		    p); // use signed integers here!!
 		int info = 0;
 		psimag::LAPACK::GETRF(p, p, &(A(0, 0)), p, &(ipiv[0]), info);
+		if (info != 0)
+			throw RuntimeError("LinearPrediction: the data have more than one solution; use a smaller order\n");
 
 		typename Vector<FieldType>::Type work(2);
 		int lwork = -1; // query mode
@@ -239,6 +241,8 @@ private:
 	void computeA(MatrixType& A, SizeType n) const
 	{
 		SizeType p = A.rows();
+		if (p == 0 || p > n)
+			throw RuntimeError("LinearPrediction: order must be positive, and at most half of the points\n");
 		for (SizeType l = 0; l < p; l++) {
 			for (SizeType j = 0; j < p; j++) {
 				A(l, j) = 0;
-- 
2.43.0


From bb7d7d1ab4c7cfe86d2af5ea55be3502e6f7f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 106/129] fix: the default array of RungeKutta did not compile

---
 src/RungeKutta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/RungeKutta.h b/src/RungeKutta.h
index 0b26897..a808f40 100644
--- a/src/RungeKutta.h
+++ b/src/RungeKutta.h
@@ -90,7 +90,7 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 
 namespace PsimagLite {
 
-template <typename RealType, typename FunctionType, typename ArrayType = Vector<RealType>>
+template <typename RealType, typename FunctionType, typename ArrayType = typename Vector<RealType>::Type>
 class RungeKutta {
 
 	typedef typename ArrayType::value_type ComplexOrRealType;
-- 
2.43.0


From f48d8b014a85694a13595c56fe640df1248e2a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 107/129] fix: RootFindingBisection refused functions that are
 small at both ends

---
 src/RootFindingBisection.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/RootFindingBisection.h b/src/RootFindingBisection.h
index 2411b00..54b67e1 100644
--- a/src/RootFindingBisection.h
+++ b/src/RootFindingBisection.h
@@ -27,8 +27,10 @@ public:
 	    , a_(a)
 	    , b_(b)
 	{
-		RealType f1 = function_(a_) * function_(b_);
-		if (f1 >= 0)
+		// not their product, which can underflow
+		const RealType fa = function_(a_);
+		const RealType fb = function_(b_);
+		if (!((fa < 0 && fb > 0) || (fa > 0 && fb < 0)))
 			throw RuntimeError(
 			    "RootFindingBisection: condition not met\n");
 	}
-- 
2.43.0


From 28b5fdceeccf86debadb0a0eea01abc424cc7564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:24 +0000
Subject: [PATCH 108/129] fix: Integrator read out of bounds if not given two
 points

---
 src/Integrator.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Integrator.h b/src/Integrator.h
index 4f17c09..30d316a 100644
--- a/src/Integrator.h
+++ b/src/Integrator.h
@@ -84,6 +84,9 @@ private:
 
 	RealType qag(const VectorRealType& pts, int key)
 	{
+		if (pts.size() < 2)
+			throw RuntimeError("Integrator: two points needed\n");
+
 		int status = gslWrapper_.gsl_integration_qag(
 		    &f_, pts[0], pts[1], epsabs_, epsrel_, limit_, key, workspace_, &result_, &abserr_);
 
-- 
2.43.0


From a373f6685d7a5c529e853323e4e227d932fba782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:29 +0000
Subject: [PATCH 109/129] fix: RungeKutta did not compile for arrays that are
 matrices

---
 src/RungeKutta.h | 36 ++++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/RungeKutta.h b/src/RungeKutta.h
index a808f40..c414612 100644
--- a/src/RungeKutta.h
+++ b/src/RungeKutta.h
@@ -119,30 +119,46 @@ public:
 
 		RealType ti = t0;
 		ArrayType yi = y0;
-		ArrayType tmp;
 		RealType f1 = 0.5;
 		for (SizeType i = 0; i < N; i++) {
-			k1 <= h_* f_(ti, yi);
-			tmp <= yi + k1* f1;
-			k2 <= h_* f_(ti + h_ * f1, tmp);
-			tmp <= yi + k2* f1;
-			k3 <= h_* f_(ti + h_ * f1, tmp);
-			tmp <= yi + k3;
-			k4 <= h_* f_(ti + h_, tmp);
+			k1 = f_(ti, yi);
+			k2 = f_(ti + h_ * f1, addTo(yi, h_ * f1, k1));
+			k3 = f_(ti + h_ * f1, addTo(yi, h_ * f1, k2));
+			k4 = f_(ti + h_, addTo(yi, h_, k3));
 
 			VectorType myresult(findSizeOf(yi));
 			for (SizeType j = 0; j < myresult.size(); j++)
 				myresult[j] = findValueOf(yi, j);
 			result.push_back(myresult);
 			ti += h_;
-			tmp <= (w1 * k1 + w2 * k2 + w3 * k3 + w4 * k4);
-			yi += tmp * wtotInverse;
+			yi = addTo(yi, h_ * w1 * wtotInverse, k1);
+			yi = addTo(yi, h_ * w2 * wtotInverse, k2);
+			yi = addTo(yi, h_ * w3 * wtotInverse, k3);
+			yi = addTo(yi, h_ * w4 * wtotInverse, k4);
 			checkNorm(yi, y0);
 		}
 	}
 
 private:
 
+	// y + factor * k
+	static VectorType addTo(VectorType y, RealType factor, const VectorType& k)
+	{
+		for (SizeType i = 0; i < y.size(); ++i)
+			y[i] += factor * k[i];
+		return y;
+	}
+
+	static Matrix<ComplexOrRealType> addTo(Matrix<ComplexOrRealType> y,
+	                                       RealType factor,
+	                                       const Matrix<ComplexOrRealType>& k)
+	{
+		for (SizeType j = 0; j < y.cols(); ++j)
+			for (SizeType i = 0; i < y.rows(); ++i)
+				y(i, j) += factor * k(i, j);
+		return y;
+	}
+
 	ComplexOrRealType findValueOf(const VectorType& yi, SizeType j) const
 	{
 		return yi[j];
-- 
2.43.0


From b5c49d8a6c7b5fb19b3c468db6517cd891d14a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:29 +0000
Subject: [PATCH 110/129] fix: logfermi did not compile together with Matrix.h

---
 src/Fermi.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Fermi.h b/src/Fermi.h
index 66bda02..2c65e6a 100644
--- a/src/Fermi.h
+++ b/src/Fermi.h
@@ -111,7 +111,7 @@ FieldType logfermi(const FieldType& x)
 		return -x;
 	if (x < -20)
 		return 0;
-	res = -log(1.0 + exp(x));
+	res = -std::log(1.0 + std::exp(x));
 	return res;
 }
 
-- 
2.43.0


From cd7f783fdeeb94081348c9e7b50b04a1535f5739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:02 +0000
Subject: [PATCH 111/129] fix: Lanczos with reorthogonalization gave up on
 directions that come from rounding

---
 src/LanczosVectors.h | 43 ++++++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 19 deletions(-)

diff --git a/src/LanczosVectors.h b/src/LanczosVectors.h
index 39e3a06..5592590 100644
--- a/src/LanczosVectors.h
+++ b/src/LanczosVectors.h
@@ -258,30 +258,35 @@ private:
 			throw RuntimeError("reorthoIfNecessary failed\n");
 
 		SizeType nn = V2.size();
-		// cout << "  Re-orthogonalization " << endl;
-		for (SizeType i = 0; i < iter + 1; i++) {
-
-			VectorElementType rij = 0.0;
+		RealType ntmp = 0.0;
+		// what is left may be mostly rounding, which is orthogonal only
+		// after repeating
+		for (SizeType attempt = 0; attempt < 10 && ntmp < 0.5; ++attempt) {
+			// cout << "  Re-orthogonalization " << endl;
+			for (SizeType i = 0; i < iter + 1; i++) {
+
+				VectorElementType rij = 0.0;
+				for (SizeType h = 0; h < nn; h++)
+					rij += PsimagLite::conj(data_->operator()(h, i)) * V2[h];
+
+				// V2 = V2 - <Vi|V2> Vi -- gram-schmid
+				for (SizeType h = 0; h < nn; h++)
+					V2[h] = V2[h] - data_->operator()(h, i) * rij;
+			}
+
+			ntmp = 0.0;
 			for (SizeType h = 0; h < nn; h++)
-				rij += PsimagLite::conj(data_->operator()(h, i)) * V2[h];
+				ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
+
+			if (ntmp == 0)
+				return false;
 
-			// V2 = V2 - <Vi|V2> Vi -- gram-schmid
+			const RealType factor = 1.0 / sqrt(ntmp);
 			for (SizeType h = 0; h < nn; h++)
-				V2[h] = V2[h] - data_->operator()(h, i) * rij;
+				V2[h] = V2[h] * factor;
 		}
 
-		RealType ntmp = 0.0;
-		for (SizeType h = 0; h < nn; h++)
-			ntmp += PsimagLite::real(V2[h] * PsimagLite::conj(V2[h]));
-
-		if (ntmp < std::numeric_limits<RealType>::epsilon())
-			return false;
-
-		ntmp = 1.0 / sqrt(ntmp);
-		for (SizeType h = 0; h < nn; h++)
-			V2[h] = V2[h] * ntmp;
-
-		return true;
+		return (ntmp >= 0.5);
 	}
 
 	void dealWithStorageOfV(SizeType rows, SizeType cols)
-- 
2.43.0


From 85a72a6054c21a71630c90a5e47c0d9da830a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:56 +0000
Subject: [PATCH 112/129] fix: computeAllStatesBelow refused to compute all
 states

---
 src/LanczosSolver.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LanczosSolver.h b/src/LanczosSolver.h
index 3282684..c70ae4c 100644
--- a/src/LanczosSolver.h
+++ b/src/LanczosSolver.h
@@ -77,7 +77,7 @@ public:
 		TridiagonalMatrixType ab;
 		ls_.decomposition(initialVector, ab, excited + 1);
 
-		if (excited >= ab.size())
+		if (excited > ab.size())
 			throw RuntimeError("Excited too big\n");
 
 		typename LanczosCoreType::DenseMatrixType ritz;
@@ -87,6 +87,8 @@ public:
 		SizeType n = z.size();
 		if (n > excited + 1)
 			n = excited + 1;
+		if (n > ab.size())
+			n = ab.size();
 		for (SizeType i = 0; i < n; ++i)
 			ls_.excitedVector(z[i], ritz, i);
 	}
-- 
2.43.0


From 28c23787dfd19412b6eced32c93885d022e8f8c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 113/129] fix: Random48::seed did not reseed

---
 src/Random48.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Random48.h b/src/Random48.h
index b2a5d1d..fee4fa5 100644
--- a/src/Random48.h
+++ b/src/Random48.h
@@ -50,7 +50,11 @@ public:
 
 	LongType seed() const { return seed_; }
 
-	void seed(const LongType& seed) { seed_ = seed; }
+	void seed(const LongType& seed)
+	{
+		seed_ = seed;
+		srand48(seed_);
+	}
 
 private:
 
-- 
2.43.0


From a260a113bb9af37d79b8a7abfbd91115789279b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 114/129] fix: Random48 read out of bounds if the rank was not
 less than the number of processes

---
 src/Random48.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Random48.h b/src/Random48.h
index fee4fa5..2088b47 100644
--- a/src/Random48.h
+++ b/src/Random48.h
@@ -33,8 +33,11 @@ public:
 
 	Random48(LongType seed, SizeType rank = 0, SizeType nprocs = 1)
 	{
+		if (rank >= nprocs)
+			throw RuntimeError("Random48: rank must be less than nprocs\n");
+
 		srand48(seed);
-		Vector<LongType>::Type vOfSeeds(nprocs);
+		typename Vector<LongType>::Type vOfSeeds(nprocs);
 		for (SizeType i = 0; i < vOfSeeds.size(); i++)
 			vOfSeeds[i] = static_cast<LongType>(10000.0 * drand48());
 		seed_ = vOfSeeds[rank];
-- 
2.43.0


From 8370de94dcc0ee6564dda6a3392da4d21de7bc37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 115/129] fix: MersenneTwister gave the first two processes the
 same numbers

---
 src/MersenneTwister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MersenneTwister.cpp b/src/MersenneTwister.cpp
index 546d266..0a91223 100644
--- a/src/MersenneTwister.cpp
+++ b/src/MersenneTwister.cpp
@@ -13,7 +13,7 @@ MersenneTwister::MersenneTwister(unsigned s, int rank, int)
 {
 	seed(s);
 	int news = random();
-	for (int i = 1; i < rank; ++i) {
+	for (int i = 0; i < rank; ++i) {
 		news = random();
 	}
 
-- 
2.43.0


From b4f6ec5e0b67cc70ad4f51e7cc9e2254b9b027a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:37 +0000
Subject: [PATCH 116/129] fix: ProgressIndicator::printMemoryUsage printed the
 whole buffer and then overwrote it

---
 src/ProgressIndicator.h | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 7904590..35f3889 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -190,13 +190,6 @@ public:
 		msg() << "Current virtual memory is " << vmSize
 		      << " maximum was " << vmPeak;
 		printline(msg, std::cout);
-
-		if (!bufferActive_)
-			return;
-
-		buffer_() << "Current virtual memory is " << vmSize
-		          << " maximum was " << vmPeak;
-		printline(buffer_, std::cout);
 	}
 
 	static MemoryUsage::TimeHandle time() { return musage_.time(); }
-- 
2.43.0


From d38b306635c0a1a4258a70d5fca073f6f73a633c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:27 +0000
Subject: [PATCH 117/129] fix: MemoryUsage looped forever on long lines

---
 src/MemoryUsage.h | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/MemoryUsage.h b/src/MemoryUsage.h
index 8847eda..59ad14f 100644
--- a/src/MemoryUsage.h
+++ b/src/MemoryUsage.h
@@ -85,8 +85,6 @@ namespace PsimagLite {
 
 class MemoryUsage {
 
-	static const SizeType MY_MAX_LINE = 40240;
-
 public:
 
 	class TimeHandle {
@@ -149,11 +147,11 @@ public:
 		std::ifstream ifp(myself_.c_str());
 		if (!ifp || !ifp.good() || ifp.bad())
 			return;
-		char tmp[MY_MAX_LINE];
+		String tmp;
 		data_ = "";
-		while (!ifp.eof()) {
-			ifp.getline(tmp, MY_MAX_LINE);
-			data_ += String(tmp);
+		while (!ifp.eof() && ifp.good()) {
+			std::getline(ifp, tmp);
+			data_ += tmp;
 			data_ += String("\n");
 		}
 
-- 
2.43.0


From 374fb7ebd730f51c344862637125426dfb37aac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:57 +0000
Subject: [PATCH 118/129] fix: MersenneTwister was not seeded as published

---
 src/MersenneTwister.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MersenneTwister.cpp b/src/MersenneTwister.cpp
index 0a91223..06b11c5 100644
--- a/src/MersenneTwister.cpp
+++ b/src/MersenneTwister.cpp
@@ -26,7 +26,7 @@ void MersenneTwister::seed(unsigned s)
 	state_[0] = s;
 	for (unsigned i = 1; i < N_; ++i) {
 		unsigned tmp = state_[i - 1] ^ (state_[i - 1] >> 30);
-		state_[i] = keepLast32BitMask_ & (1812433253 * (tmp + i));
+		state_[i] = keepLast32BitMask_ & (1812433253 * tmp + i);
 	}
 }
 
-- 
2.43.0


From 160dd7541cd07f69871f324bcfc63edb2de999f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:36 +0000
Subject: [PATCH 119/129] fix: atoi gave another number for those beyond the
 range of int

---
 src/PsimagLite.cpp | 15 ++++++++++++++-
 src/PsimagLite.h   | 11 +++++++++++
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/PsimagLite.cpp b/src/PsimagLite.cpp
index 305b887..f318da5 100644
--- a/src/PsimagLite.cpp
+++ b/src/PsimagLite.cpp
@@ -1,4 +1,6 @@
 #include "PsimagLite.h"
+#include <cerrno>
+#include <cstdlib>
 
 namespace PsimagLite {
 
@@ -64,6 +66,13 @@ String basename(const String& path)
 }
 
 int atoi(String str)
+{
+	int x = 0;
+	stringToInteger(x, str);
+	return x;
+}
+
+long int atolong(String str)
 {
 	const SizeType n = str.length();
 	const SizeType start = (n > 0 && (str[0] == '-' || str[0] == '+')) ? 1 : 0;
@@ -75,7 +84,11 @@ int atoi(String str)
 		throw RuntimeError("atoi received a non-digit: " + str + "\n");
 	}
 
-	return std::atoi(str.c_str());
+	errno = 0;
+	const long int x = std::strtol(str.c_str(), nullptr, 10);
+	if (errno == ERANGE)
+		throw RuntimeError("atoi received too large a number: " + str + "\n");
+	return x;
 }
 
 bool isAnInteger(String str)
diff --git a/src/PsimagLite.h b/src/PsimagLite.h
index f59dc24..2e9594d 100644
--- a/src/PsimagLite.h
+++ b/src/PsimagLite.h
@@ -29,6 +29,17 @@ bool isAnInteger(String str);
 
 int atoi(String);
 
+long int atolong(String);
+
+template <typename T>
+void stringToInteger(T& t, const String& str)
+{
+	const long int x = atolong(str);
+	t = x;
+	if (static_cast<long int>(t) != x || (t < 0) != (x < 0))
+		throw RuntimeError(str + " does not fit the integer that it is read into\n");
+}
+
 double atof(String);
 
 void err(String);
-- 
2.43.0


From 2104610da3f1d07e5dd463f959968cfdc6c6f1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 120/129] fix: input numbers beyond the range of int, negative
 or not whole were read as other integers

---
 src/InputNg.h | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/InputNg.h b/src/InputNg.h
index ba7e69c..2e99436 100644
--- a/src/InputNg.h
+++ b/src/InputNg.h
@@ -85,13 +85,16 @@ DISCLOSED WOULD NOT INFRINGE PRIVATELY OWNED RIGHTS.
 #include "Map.h"
 #include "Matrix.h"
 #include "PsiBase64.h"
+#include "PsimagLite.h"
 #include "Vector.h"
 #include "loki/TypeTraits.h"
 #include <algorithm>
 #include <cassert>
 #include <cstdlib>
 #include <fstream>
+#include <iomanip>
 #include <iostream>
+#include <sstream>
 #include <stdexcept>
 
 namespace PsimagLite {
@@ -726,7 +729,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			stringToInteger(val, it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -750,7 +753,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			stringToInteger(val, it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -774,7 +777,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			stringToInteger(val, it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -790,7 +793,7 @@ public:
 			if (it == mapStrStr_.end())
 				throwWithMessage(label, label2);
 
-			val = atoi(it->second.c_str());
+			stringToInteger(val, it->second);
 
 			cleanLabelsIfNeeded(label2, mapStrStr_, it);
 		}
@@ -1025,9 +1028,31 @@ public:
 			return ComplexOrRealType(r, img);
 		}
 
+		template <typename IntegerType>
+		typename EnableIf<Loki::TypeTraits<IntegerType>::isIntegral,
+		                  IntegerType>::Type
+		stringToComplexOrReal(const String& s) const
+		{
+			IntegerType x = 0;
+			const SizeType start = (s[0] == '-' || s[0] == '+') ? 1 : 0;
+			if (isAnInteger(s.substr(start))) {
+				stringToInteger(x, s);
+				return x;
+			}
+
+			// such as 1e3 or 2.0
+			const double d = stringToReal(s);
+			std::ostringstream os;
+			os << std::fixed << std::setprecision(0) << d;
+			stringToInteger(x, os.str());
+			if (static_cast<double>(x) != d)
+				throw RuntimeError(s + " is not an integer\n");
+			return x;
+		}
+
 		template <typename ComplexOrRealType>
 		typename EnableIf<
-		    !IsComplexNumber<ComplexOrRealType>::True && Loki::TypeTraits<ComplexOrRealType>::isArith,
+		    !IsComplexNumber<ComplexOrRealType>::True && Loki::TypeTraits<ComplexOrRealType>::isFloat,
 		    typename Real<ComplexOrRealType>::Type>::Type
 		stringToComplexOrReal(const String& s) const
 		{
-- 
2.43.0


From c04a7b38eaa7214ef2315d2eaabfa5a1dc518831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:46 +0000
Subject: [PATCH 121/129] fix: integers in Ainur input beyond the range of int,
 or negative for unsigned, were read as others

---
 src/Ainur/AinurComplex.hh | 8 ++++----
 src/Ainur/AinurConvert.hh | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Ainur/AinurComplex.hh b/src/Ainur/AinurComplex.hh
index 6e788e2..e8f4b82 100644
--- a/src/Ainur/AinurComplex.hh
+++ b/src/Ainur/AinurComplex.hh
@@ -10,22 +10,22 @@ struct AinurComplex {
 
 	static void convert(long unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		stringToInteger(t, str);
 	}
 
 	static void convert(unsigned int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		stringToInteger(t, str);
 	}
 
 	static void convert(long int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		stringToInteger(t, str);
 	}
 
 	static void convert(int& t, std::string str)
 	{
-		t = PsimagLite::atoi(str);
+		stringToInteger(t, str);
 	}
 
 	static void convert(double& t, std::string str)
diff --git a/src/Ainur/AinurConvert.hh b/src/Ainur/AinurConvert.hh
index c140985..6b7c348 100644
--- a/src/Ainur/AinurConvert.hh
+++ b/src/Ainur/AinurConvert.hh
@@ -77,7 +77,7 @@ public:
 		String label = ainurMacros_.valueFromFunction(ainurVariable.value);
 
 		try {
-			t = PsimagLite::atoi(label.c_str());
+			stringToInteger(t, label);
 		}
 		catch (...) {
 			err("FATAL: AinurState: Label " + label + " must be an integer\n");
-- 
2.43.0


From 09e244bca87de82dc8164b47d82ada1ed8834b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:13 +0000
Subject: [PATCH 122/129] fix: a threaded loop whose threads cannot all be
 created joined threads that did not exist and left tasks undone silently

---
 src/Parallelizer2Pthread.h | 15 +++++++++++++--
 src/Pthreads.h             | 15 +++++++++++++--
 src/PthreadsNg.h           | 15 +++++++++++++--
 3 files changed, 39 insertions(+), 6 deletions(-)

diff --git a/src/Parallelizer2Pthread.h b/src/Parallelizer2Pthread.h
index 6b04d55..f822902 100644
--- a/src/Parallelizer2Pthread.h
+++ b/src/Parallelizer2Pthread.h
@@ -124,6 +124,7 @@ public:
 		pthread_t* thread_id = new pthread_t[nthreads_];
 		pthread_attr_t** attr = new pthread_attr_t*[nthreads_];
 
+		SizeType created = 0;
 		for (SizeType j = 0; j < nthreads_; ++j) {
 			pfs[j].pfh = &lambda;
 			pfs[j].loadBalancer = &loadBalancer;
@@ -159,11 +160,18 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper2<SomeLambdaType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
+			if (ret != 0) {
+				pthread_attr_destroy(attr[j]);
+				delete attr[j];
+				break;
+			}
+
+			++created;
 		}
 
-		for (SizeType j = 0; j < nthreads_; ++j)
+		for (SizeType j = 0; j < created; ++j)
 			pthread_join(thread_id[j], 0);
-		for (SizeType j = 0; j < nthreads_; ++j) {
+		for (SizeType j = 0; j < created; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
 			delete attr[j];
@@ -173,6 +181,9 @@ public:
 		delete[] attr;
 		delete[] thread_id;
 		delete[] pfs;
+
+		if (created < nthreads_)
+			throw RuntimeError("Parallelizer2: could not create all threads\n");
 	}
 
 private:
diff --git a/src/Pthreads.h b/src/Pthreads.h
index ab836e7..d6985d5 100644
--- a/src/Pthreads.h
+++ b/src/Pthreads.h
@@ -160,6 +160,7 @@ public:
 		pthread_t* thread_id = new pthread_t[nthreads_];
 		pthread_attr_t** attr = new pthread_attr_t*[nthreads_];
 
+		SizeType created = 0;
 		for (SizeType j = 0; j < nthreads_; j++) {
 			pfs[j].threadNum = j;
 			pfs[j].pfh = &pfh;
@@ -178,11 +179,18 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper<PthreadFunctionHolderType>, &pfs[j]);
 			checkForError(ret);
+			if (ret != 0) {
+				pthread_attr_destroy(attr[j]);
+				delete attr[j];
+				break;
+			}
+
+			++created;
 		}
 
-		for (SizeType j = 0; j < nthreads_; ++j)
+		for (SizeType j = 0; j < created; ++j)
 			pthread_join(thread_id[j], 0);
-		for (SizeType j = 0; j < nthreads_; ++j) {
+		for (SizeType j = 0; j < created; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
 			delete attr[j];
@@ -204,6 +212,9 @@ public:
 		pthread_mutex_destroy(&mutex_);
 		delete[] thread_id;
 		delete[] pfs;
+
+		if (created < nthreads_)
+			throw RuntimeError("Pthreads: could not create all threads\n");
 	}
 
 	String name() const { return "pthreads"; }
diff --git a/src/PthreadsNg.h b/src/PthreadsNg.h
index 0492a70..3a22654 100644
--- a/src/PthreadsNg.h
+++ b/src/PthreadsNg.h
@@ -229,6 +229,7 @@ public:
 		}
 #endif
 
+		SizeType created = 0;
 		for (SizeType j = 0; j < actualThreads; j++) {
 			pfs[j].pfh = &pfh;
 			pfs[j].loadBalancer = &loadBalancer;
@@ -268,11 +269,18 @@ public:
 			ret = pthread_create(
 			    &thread_id[j], attr[j], thread_function_wrapper<PthreadFunctionHolderType, LoadBalancerType>, &pfs[j]);
 			checkForError(ret);
+			if (ret != 0) {
+				pthread_attr_destroy(attr[j]);
+				delete attr[j];
+				break;
+			}
+
+			++created;
 		}
 
-		for (SizeType j = 0; j < actualThreads; ++j)
+		for (SizeType j = 0; j < created; ++j)
 			pthread_join(thread_id[j], 0);
-		for (SizeType j = 0; j < actualThreads; ++j) {
+		for (SizeType j = 0; j < created; ++j) {
 			int ret = pthread_attr_destroy(attr[j]);
 			checkForError(ret);
 			delete attr[j];
@@ -282,6 +290,9 @@ public:
 		delete[] attr;
 		delete[] thread_id;
 		delete[] pfs;
+
+		if (created < actualThreads)
+			throw RuntimeError("PthreadsNg: could not create all threads\n");
 	}
 
 	String name() const { return "PthreadsNg"; }
-- 
2.43.0


From 0bd719cb0fc9e8d34af2cc63c634c34261c52578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:58 +0000
Subject: [PATCH 123/129] fix: a macro used before its definition was pasted
 unexpanded, and ran together with the text that followed

---
 src/Ainur/AinurState.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/Ainur/AinurState.h b/src/Ainur/AinurState.h
index c41ac45..6ccf362 100644
--- a/src/Ainur/AinurState.h
+++ b/src/Ainur/AinurState.h
@@ -278,7 +278,7 @@ private:
 
 	// \[a-zA-Z]+
 	std::pair<bool, PsimagLite::String>
-	expandOneValue(const String& value) const
+	expandOneValue(const String& value)
 	{
 		const SizeType n = value.length();
 		PsimagLite::String macroName;
@@ -319,14 +319,22 @@ private:
 		                                           unquote(retString));
 	}
 
-	String macroValue(const String& macroName) const
+	// The value of a macro, with the macros in it, if any, already expanded
+	String macroValue(const String& macroName)
 	{
 		int x = storageIndexByName(macroName);
 		if (x < 0)
 			err("No macro named " + macroName + "\n");
 
 		assert(static_cast<SizeType>(x) < ainurVariables_.size());
-		return unquote(ainurVariables_[x].value);
+		std::pair<bool, PsimagLite::String> macro = expandOneValue(ainurVariables_[x].value);
+		if (!macro.first)
+			return unquote(ainurVariables_[x].value);
+
+		if (macro.second.size() > 0 && macro.second[0] == '!')
+			macro.second = ainurMacros_.procNativeMacro(macro.second);
+
+		return unquote(macro.second);
 	}
 
 	static bool isValidCharForMacroName(char c)
-- 
2.43.0


From 55cc32a78a612adaad3e1203d2f0cd5f471b1c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:12 +0000
Subject: [PATCH 124/129] fix: writing a number to a text file, or closing it,
 crashed every process but the first

---
 src/Io/IoSimple.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Io/IoSimple.h b/src/Io/IoSimple.h
index 16408c8..e196adf 100644
--- a/src/Io/IoSimple.h
+++ b/src/Io/IoSimple.h
@@ -173,6 +173,8 @@ public:
 		{
 			if (filename_ == "OSTREAM")
 				throw RuntimeError("close: not possible\n");
+			if (rank_ != 0 || !fout_)
+				return;
 			fout_->close();
 		}
 
@@ -200,6 +202,8 @@ public:
 		template <typename T>
 		void write(const T& x, const String& label, typename EnableIf<PrintWithEqualSign<T>::True, int>::Type = 0)
 		{
+			if (rank_ != 0)
+				return;
 			(*fout_) << label << "=" << x << "\n";
 		}
 
-- 
2.43.0


From 0a28f6b97f120e905d3fa967717ab0097cf036c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:53 +0000
Subject: [PATCH 125/129] fix: a progress message shorter than the one before
 in the same stream kept the end of the old one

---
 src/ProgressIndicator.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/ProgressIndicator.h b/src/ProgressIndicator.h
index 35f3889..e7ec6cf 100644
--- a/src/ProgressIndicator.h
+++ b/src/ProgressIndicator.h
@@ -155,14 +155,13 @@ public:
 			return;
 		prefix(os);
 		os << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
 
-		if (!bufferActive_)
-			return;
+		if (bufferActive_) {
+			prefix(buffer_);
+			buffer_() << s().str() << "\n";
+		}
 
-		prefix(buffer_);
-		buffer_() << s().str() << "\n";
-		s().seekp(std::ios_base::beg);
+		s().str("");
 	}
 
 	void print(const String& something, std::ostream& os) const
-- 
2.43.0


From cfcad1916d05efa6f8405b6096286e50cb848092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 126/129] fix: PsiTag: text after the parenthesis that opens a
 block was dropped

---
 scripts/PsiTag.pm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 140fecd..8285ba6 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -162,7 +162,7 @@ sub readTags
 				($tag) or die "$0: FATAL: tag does not exist in line scope $line\n";
 				if ($thisLineParens > 0) {
 					$blockScope = 1;
-					$multilineContent = "";
+					$multilineContent = ($content eq "\n") ? "" : $content;
 					$multilineTag = canonicalTagName($tag);
 					$multilineMode = $mode;
 				} else {
-- 
2.43.0


From d185b0bd6feee782773aeea87edbe711e5666808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 127/129] fix: PsiTag: a block that is never closed was dropped
 without a word

---
 scripts/PsiTag.pm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 8285ba6..99227c3 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -192,6 +192,8 @@ sub readTags
 			}
 		}
 	}
+
+	die "$0: FATAL: Block of tag $multilineTag is never closed\n" if ($blockScope);
 }
 
 sub addTag
-- 
2.43.0


From 099d2f0ab0d4d810e8e5a0c68dda6f0acca420ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 128/129] fix: PsiTag: a tag that contains itself was expanded
 without end

---
 scripts/PsiTag.pm | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index 99227c3..db0033f 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -274,7 +274,7 @@ sub canonicalTagName
 
 sub unWrap
 {
-	my ($tags, $text) = @_;
+	my ($tags, $text, $parents) = @_;
 	my @lines = split/\n/, $text;
 	my $n = scalar(@lines);
 	my $result = "";
@@ -286,12 +286,14 @@ sub unWrap
 			my $existingTag = $1;
 			($existingTag) or die "$0: FATAL: Tag does not exist in unWrap: $line\n";
 			$existingTag = canonicalTagName($existingTag);
+			die "$0: FATAL: Tag $existingTag contains itself\n" if ($parents->{"$existingTag"});
 			my $ptr = $tags->{"$existingTag"};
 			defined($ptr) or die "$0: FATAL: Tag $existingTag doesn't exist\n";
 			(ref($ptr) eq "HASH") or die "$0: FATAL: Tag $existingTag not hash ref but ".ref($ptr)."\n";
 			$content = $ptr->{"content"};
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
-			$content = unWrap($tags, $content);
+			my %parentsAndTag = (%{$parents || {}}, $existingTag => 1);
+			$content = unWrap($tags, $content, \%parentsAndTag);
 		}
 
 		$content =~ s/^[ \t]*\\//; # (4)
-- 
2.43.0


From 27f9bf3be770905bc77e4ca64f9343abc60bd039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:10 +0000
Subject: [PATCH 129/129] fix: PsiTag: escapes were removed once more for every
 level of inclusion

---
 scripts/PsiTag.pm | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/scripts/PsiTag.pm b/scripts/PsiTag.pm
index db0033f..1102233 100644
--- a/scripts/PsiTag.pm
+++ b/scripts/PsiTag.pm
@@ -294,11 +294,11 @@ sub unWrap
 			defined($content) or die "$0: FATAL: No content for $existingTag\n";
 			my %parentsAndTag = (%{$parents || {}}, $existingTag => 1);
 			$content = unWrap($tags, $content, \%parentsAndTag);
+		} else {
+			$content =~ s/^[ \t]*\\//; # (4)
+			$content =~ s/\\([ \t]*)$/$1/; # (5)
 		}
 
-		$content =~ s/^[ \t]*\\//; # (4)
-		$content =~ s/\\([ \t]*)$/$1/; # (5)
-
 		$result .= $content."\n";
 	}
 
-- 
2.43.0

