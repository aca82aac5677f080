From 8953fdccbf0aa226b7c6257dac0e843a73fb9794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:58 +0000
Subject: [PATCH 01/93] fix: ramping and far bounds for problems with a single
 variable or row (0/0 produced NaN bounds)

---
 src/QProblem.cpp  | 2 +-
 src/QProblemB.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 8ea39e1..7c6753e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5518,7 +5518,7 @@ returnValue QProblem::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nC; ++i )
 		{
-			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((nV+i + rampOffset) % nRamp) / static_cast<real_t>(getMax(nRamp-1,(int_t)1));
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lbA_new == 0 )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 52620e0..551d00f 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2176,7 +2176,7 @@ returnValue QProblemB::performRamping( )
 			default: break;
 		}
 
-		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(nV-1);
+		t = static_cast<real_t>((i + rampOffset) % nV) / static_cast<real_t>(getMax(nV-1,(int_t)1));
 		rampVal = (1.0-t) * ramp0 + t * ramp1;
 		bstat = bounds.getStatus(i);
 		if (bstat != ST_LOWER) { lb[i] = x[i] - rampVal; }
@@ -2212,7 +2212,7 @@ returnValue QProblemB::updateFarBounds(	real_t curFarBound, int_t nRamp,
 	{
 		for ( i=0; i<nV; ++i )
 		{
-			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(nRamp-1);
+			t = static_cast<real_t>((i + rampOffset) % nRamp) / static_cast<real_t>(getMax(nRamp-1,(int_t)1));
 			rampVal = curFarBound * (1.0 + (1.0-t)*ramp0 + t*ramp1);
 
 			if ( lb_new == 0 )
-- 
2.43.0


From 499038fcccea926ddda80533dd9f4d2ecf9fff4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:01 +0000
Subject: [PATCH 02/93] fix: QProblem hotstart ignored constraint limits on a
 side on which the first QP had none

---
 src/QProblem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 7c6753e..5213747 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -488,6 +488,15 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
 		return setInfeasibilityFlag(returnvalue,BT_TRUE);
 
+	/* Constraints might have got lower/upper limits although none were present so far. */
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) )
+			constraints.setNoLower( BT_FALSE );
+		if ( ( ubA_new != 0 ) && ( ubA_new[i] < INFTY ) )
+			constraints.setNoUpper( BT_FALSE );
+	}
+
 	++count;
 
 	int_t nWSR_max = nWSR;
-- 
2.43.0


From e611ff962fd3db4fce93f511c952239e95286baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:45 +0000
Subject: [PATCH 03/93] fix: Cholesky refactorisation without active bounds and
 constraints left a stale null space basis

---
 src/QProblem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5213747..ac8b823 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2052,7 +2052,11 @@ returnValue QProblem::computeProjectedCholesky( )
 
 	/* Revert to unprotected Cholesky decomposition */
 	if ( getNFX() + getNAC() == 0 )
+	{
+		/* null space basis has to be trivial for that */
+		setupTQfactorisation( );
 		return QProblemB::computeCholesky( );
+	}
 
 	/* 1) Initialises R with all zeros. */
 	for( i=0; i<nV*nV; ++i )
-- 
2.43.0


From 0c7d0360603c3e078b628584e1e37b35e8fd587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 04/93] fix: a constraint or variable released from being an
 equality kept a status contradicting its multiplier

---
 src/QProblem.cpp  | 17 +++++++++++++++++
 src/QProblemB.cpp | 11 +++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index ac8b823..82cce76 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1932,6 +1932,23 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 	}
 
 
+	/* A constraint that no longer is an equality is at the limit its multiplier indicates. */
+	for ( i=0; i<getNC( ); i++ )
+	{
+		if ( constraints.getType( i ) != ST_EQUALITY )
+			continue;
+
+		if ( ( lbA_new != 0 ) && ( ubA_new != 0 ) && ( lbA_new[i] > ubA_new[i] - options.boundTolerance ) )
+			continue;
+
+		if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( y[nV+i] < 0.0 ) )
+			constraints.setStatus( i,ST_UPPER );
+		else if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( y[nV+i] > 0.0 ) )
+			constraints.setStatus( i,ST_LOWER );
+
+		constraints.setType( i,ST_BOUNDED );
+	}
+
 	// AW TODO: We could also implement something here for the constraints
 
 	return SUCCESSFUL_RETURN;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 551d00f..c694374 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1338,7 +1338,18 @@ returnValue QProblemB::setupSubjectToType( const real_t* const lb_new, const rea
 						&& lb_new[i] > ub_new[i] - options.boundTolerance)
 					bounds.setType( i,ST_EQUALITY );
 				else
+				{
+					/* a formerly fixed variable is at the limit its multiplier indicates */
+					if ( bounds.getType( i ) == ST_EQUALITY )
+					{
+						if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( y[i] < 0.0 ) )
+							bounds.setStatus( i,ST_UPPER );
+						else if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( y[i] > 0.0 ) )
+							bounds.setStatus( i,ST_LOWER );
+					}
+
 					bounds.setType( i,ST_BOUNDED );
+				}
 			}
 		}
 	}
-- 
2.43.0


From 814a99b93c85bd0178f470fddae919517c8db319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:52 +0000
Subject: [PATCH 05/93] fix: do not try to regularise an identity Hessian when
 the initial working set is not empty

---
 src/QProblem.cpp  | 4 ++--
 src/QProblemB.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 82cce76..3f67279 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2167,8 +2167,8 @@ returnValue QProblem::setupInitialCholesky( )
 	returnValue returnvalueCholesky;
 
 	/* If regularisation shall be used, always regularise at beginning
-	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	 * if initial working set is not empty (identity Hessians neither need nor allow it). */
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index c694374..c99f0a1 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1460,8 +1460,8 @@ returnValue QProblemB::setupInitialCholesky( )
 	returnValue returnvalueCholesky;
 
 	/* If regularisation shall be used, always regularise at beginning
-	 * if initial working set is not empty. */
-	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) )
+	 * if initial working set is not empty (identity Hessians neither need nor allow it). */
+	if ( ( getNV() != getNFR()-getNFV() ) && ( options.enableRegularisation == BT_TRUE ) && ( hessianType != HST_IDENTITY ) )
 		if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
 			return RET_INIT_FAILED_REGULARISATION;
 
-- 
2.43.0


From 9802f5a9d50f3f74c1dda5ab10c148316124ec71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:46 +0000
Subject: [PATCH 06/93] fix: QProblemB turned tight but inactive bounds into
 equalities that could never become active

---
 src/QProblemB.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index c99f0a1..ccd3d16 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2421,7 +2421,7 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 								BooleanType isFirstCall
 								)
 {
-	int_t iter;
+	int_t i, iter;
 	int_t nV  = getNV( );
 
 	/* consistency check */
@@ -2466,6 +2466,12 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 	if ( setupSubjectToType( lb_new,ub_new ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_HOTSTART_FAILED );
 
+	/* A tight but inactive bound must not become an inactive equality
+	 * as it would never become active again. */
+	for( i=0; i<nV; ++i )
+		if ( ( bounds.getType( i ) == ST_EQUALITY ) && ( bounds.getStatus( i ) == ST_INACTIVE ) )
+			bounds.setType( i,ST_BOUNDED );
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From 0d0283c931f44c54da6fc87d1616c64a4c71439c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:01 +0000
Subject: [PATCH 07/93] fix: hotstart before a (successful) initialisation or
 without gradient crashed instead of being rejected

---
 src/QProblem.cpp  | 11 +++++++++++
 src/QProblemB.cpp | 11 +++++++++++
 2 files changed, 22 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 3f67279..bc3754f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -459,6 +459,17 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	/* consistency checks */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	/* Possibly update working sets according to guesses for working sets of bounds and constraints. */
 	if ( ( guessedBounds != 0 ) || ( guessedConstraints != 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index ccd3d16..2097dc3 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -425,6 +425,17 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	if ( nV == 0 )
 		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
 
+	/* consistency checks */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
+	}
+
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 
 	/* Possibly update working set according to guess for working set of bounds. */
 	if ( guessedBounds != 0 )
-- 
2.43.0


From dbd4359da882622cf7bc81d66c0d28ea9dd75fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:14 +0000
Subject: [PATCH 08/93] fix: hotstart with contradicting bounds reported
 success

---
 src/QProblem.cpp  | 9 ++++++++-
 src/QProblemB.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index bc3754f..d258e2a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -497,7 +497,14 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds and constraints. */
 	if ( areBoundsConsistent(lb_new, ub_new, lbA_new, ubA_new) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		/* current solution does not belong to the (infeasible) QP handed over */
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+		unbounded = BT_FALSE;
+
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
+	}
 
 	/* Constraints might have got lower/upper limits although none were present so far. */
 	for( i=0; i<nC; ++i )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 2097dc3..fe40e1c 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -461,7 +461,14 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 
 	/* Simple check for consistency of bounds */
 	if ( areBoundsConsistent( lb_new,ub_new ) != SUCCESSFUL_RETURN )
-		return setInfeasibilityFlag(returnvalue,BT_TRUE);
+	{
+		/* current solution does not belong to the (infeasible) QP handed over */
+		if ( status == QPS_SOLVED )
+			status = QPS_HOMOTOPYQPSOLVED;
+		unbounded = BT_FALSE;
+
+		return setInfeasibilityFlag(RET_HOTSTART_STOPPED_INFEASIBILITY,BT_TRUE);
+	}
 
 	++count;
 
-- 
2.43.0


From dc1fe26fa2f4158321b8ba20cc656cde78bea405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:27 +0000
Subject: [PATCH 09/93] fix: a solve stopped before its first iteration was
 reported as solved or left the session unusable

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d258e2a..30e0352 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1756,6 +1756,9 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		*cputime = getCPUtime( ) - starttime;
 
 
+	/* only an intermediate QP along the homotopy path has been solved so far */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 	/* if program gets to here, output information that QP could not be solved
 	 * within the given maximum numbers of working set changes */
 	if ( options.printLevel == PL_HIGH )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index fe40e1c..64a3f00 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2665,6 +2665,9 @@ returnValue QProblemB::solveQP(	const real_t* const g_new,
 		*cputime = getCPUtime( ) - starttime;
 
 
+	/* only an intermediate QP along the homotopy path has been solved so far */
+	status = QPS_HOMOTOPYQPSOLVED;
+
 	/* if programm gets to here, output information that QP could not be solved
 	 * within the given maximum numbers of working set changes */
 	if ( options.printLevel == PL_HIGH )
-- 
2.43.0


From 78922ebd6f17bc325a83b837d1e2a3f65e39d035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:56 +0000
Subject: [PATCH 10/93] fix: rejected matrix hotstart of SQProblem left the
 session unusable, leaked and took over matrices of the caller

---
 src/SQProblem.cpp | 50 +++++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 95dde53..c5bd675 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -111,6 +111,9 @@ returnValue SQProblem::hotstart(	SymmetricMatrix *H_new, const real_t* const g_n
 	}
 
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	real_t starttime = 0.0;
 	real_t auxTime = 0.0;
 
@@ -164,6 +167,9 @@ returnValue SQProblem::hotstart(	const real_t* const H_new, const real_t* const
 		return THROWERROR( RET_HOTSTART_FAILED_AS_QP_NOT_INITIALISED );
 	}
 
+	if ( g_new == 0 )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
 	/* start runtime measurement */
 	real_t starttime = 0.0;
 	if ( cputime != 0 ) {
@@ -353,6 +359,13 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
 	}
 
+	/* Reject invalid arguments before touching the session. */
+	if ( ( nC > 0 ) && ( A_new == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( ( H_new == 0 ) && ( H != 0 ) )
+		return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+
 	status = QPS_PREPARINGAUXILIARYQP;
 
 
@@ -362,9 +375,6 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 	/*    Firstly, shift by -A'*x_opt and ... */
 	if ( nC > 0 )
 	{
-		if ( A_new == 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-
 		for ( i=0; i<nC; ++i )
 		{
 			lbA[i] = -Ax_l[i];
@@ -411,13 +421,7 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 		}
 	}
-	else
-	{
-		/* if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY),
-		   otherwise abort */
-		if ( H != 0 )
-			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
-	}
+	/* else: if no Hessian is specified, keep previous trivial Hessian (HST_ZERO or HST_IDENTITY) */
 
 	/* 3) Setup QP gradient. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
@@ -528,24 +532,32 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 	DenseMatrix *dA = 0;
 	SymDenseMat *sH = 0;
 
-	if ( A_new != 0 )
-	{
-		dA = new DenseMatrix(nC, nV, nV, (real_t*) A_new);
-	}
-	else
+	/* Reject invalid calls before allocating matrices or changing their ownership. */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
 	{
-		if ( nC > 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
+		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
 	}
 
+	if ( ( nC > 0 ) && ( A_new == 0 ) )
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+
+	if ( ( H_new == 0 ) && ( H != 0 ) )
+		return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+
+	if ( nC > 0 )
+		dA = new DenseMatrix(nC, nV, nV, (real_t*) A_new);
+
 	if ( H_new != 0 )
 		sH = new SymDenseMat(nV, nV, nV, (real_t*) H_new);
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
-	if ( H_new != 0 )
+	if ( sH != 0 )
 		freeHessian = BT_TRUE;
-	freeConstraintMatrix = BT_TRUE;
+	if ( dA != 0 )
+		freeConstraintMatrix = BT_TRUE;
 
 	return returnvalue;
 }
-- 
2.43.0


From 11e9a4c682a00c9850e9b4965d5bbf156f2400b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:25 +0000
Subject: [PATCH 11/93] fix: SQProblem kept using matrices read from files
 after releasing them

---
 src/SQProblem.cpp | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index c5bd675..f36b50b 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -237,11 +237,14 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+	if ( nC > 0 )
 	{
-		delete[] A_new;
-		delete[] H_new;
-		return THROWERROR( RET_UNABLE_TO_READ_FILE );
+		if ( readFromFile( A_new, nC,nV, A_file ) != SUCCESSFUL_RETURN )
+		{
+			delete[] A_new;
+			delete[] H_new;
+			return THROWERROR( RET_UNABLE_TO_READ_FILE );
+		}
 	}
 
 	/* 2) Load new QP vectors from files. */
@@ -271,12 +274,28 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	/* 3) Actually perform hotstart. */
-	returnvalue = hotstart(	H_new,g_new,A_new,lb_new,ub_new,lbA_new,ubA_new,
+	/* 3) Actually perform hotstart, matrices are kept by the session. */
+	SymDenseMat* sH = new SymDenseMat( nV,nV,nV,H_new );
+	sH->doFreeMemory( );
+
+	DenseMatrix* dA = new DenseMatrix( nC,nV,nV,A_new );
+	dA->doFreeMemory( );
+
+	returnvalue = hotstart(	sH,g_new,dA,lb_new,ub_new,lbA_new,ubA_new,
 							nWSR,cputime,
 							guessedBounds,guessedConstraints
 							);
 
+	if ( H == sH )
+		freeHessian = BT_TRUE;
+	else
+		delete sH;
+
+	if ( A == dA )
+		freeConstraintMatrix = BT_TRUE;
+	else
+		delete dA;
+
 	if ( ubA_file != 0 )
 		delete[] ubA_new;
 	if ( lbA_file != 0 )
@@ -286,8 +305,6 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	if ( lb_file != 0 )
 		delete[] lb_new;
 	delete[] g_new;
-	delete[] A_new;
-	delete[] H_new;
 
 	return returnvalue;
 }
-- 
2.43.0


From c33c63698badd8e2ebcfdf70c80ba54b9dbdf4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:09 +0000
Subject: [PATCH 12/93] fix: matrix hotstart to an identity Hessian failed
 while regularisation was in use

---
 src/SQProblem.cpp      | 6 +++++-
 src/SQProblemSchur.cpp | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index f36b50b..76abe1b 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -428,7 +428,11 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* b) Regularise new Hessian if necessary. */
-		if ( ( hessianType == HST_ZERO ) ||
+		if ( hessianType == HST_IDENTITY )
+		{
+			regVal = 0.0; /* an identity Hessian cannot and need not be regularised */
+		}
+		else if ( ( hessianType == HST_ZERO ) ||
 			 ( hessianType == HST_SEMIDEF ) ||
 			 ( usingRegularisation( ) == BT_TRUE ) )
 		{
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 5ffca3d..dfbf4d8 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -378,7 +378,11 @@ returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
 		/* b) Regularise new Hessian if necessary. */
-		if ( ( hessianType == HST_ZERO ) ||
+		if ( hessianType == HST_IDENTITY )
+		{
+			regVal = 0.0; /* an identity Hessian cannot and need not be regularised */
+		}
+		else if ( ( hessianType == HST_ZERO ) ||
 			 ( hessianType == HST_SEMIDEF ) ||
 			 ( usingRegularisation( ) == BT_TRUE ) )
 		{
-- 
2.43.0


From 3c5f0b2d7060b7c82597fe285595e15153e13862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:37 +0000
Subject: [PATCH 13/93] fix: matrix hotstart with a working set that could not
 be kept started from an inconsistent auxiliary QP

---
 src/SQProblem.cpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 76abe1b..25c56bb 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -453,6 +453,8 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 	/* 1) Make a copy of current bounds/constraints ... */
 	Bounds      oldBounds      = bounds;
 	Constraints oldConstraints = constraints;
+	const Bounds      prevBounds      = bounds;
+	const Constraints prevConstraints = constraints;
 
     /* we're trying to find an active set with positive definite null
      * space Hessian twice:
@@ -525,9 +527,34 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
             break;
     }
 
-    /* adjust lb/ub if we changed the old active set in the second try
+    /* no active set with positive definite null space Hessian has been found */
+    if ( returnvalue != SUCCESSFUL_RETURN )
+        return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+    /* The old active set might not have been recovered completely (if its constraints have
+     * become linearly dependent or if there are new equalities). Multipliers of everything
+     * that is inactive now have to vanish in order to keep (x,y) optimal. */
+    BooleanType activeSetChanged = BT_FALSE;
+
+    for (int_t ii = 0; ii < nV; ++ii) {
+        if (bounds.getStatus (ii) != prevBounds.getStatus (ii))
+            activeSetChanged = BT_TRUE;
+        if (bounds.getStatus (ii) == ST_INACTIVE)
+            y[ii] = 0.0;
+    }
+    for (int_t ii = 0; ii < nC; ++ii) {
+        if (constraints.getStatus (ii) != prevConstraints.getStatus (ii))
+            activeSetChanged = BT_TRUE;
+        if (constraints.getStatus (ii) == ST_INACTIVE)
+            y[nV+ii] = 0.0;
+    }
+
+    /* adjust gradient and lb/ub if we changed the old active set
      */
-    if (n_try > 0) {
+    if (activeSetChanged == BT_TRUE) {
+		if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
 		// as per setupAuxiliaryQPbounds assumptions ... oh the troubles
 		for (int_t ii = 0; ii < nC; ++ii)
 			Ax_l[ii] = Ax_u[ii] = Ax[ii];
-- 
2.43.0


From 5365f4f1709aecc11385cb526724b31b622508f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:51 +0000
Subject: [PATCH 14/93] fix: multipliers contradicting the guessed working set
 led to wrong solutions

---
 src/QProblem.cpp  | 35 +++++++++++++++++++++++++++++++----
 src/QProblemB.cpp | 21 ++++++++++++++++++---
 2 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 30e0352..97965f8 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1394,7 +1394,25 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	if ( setupAuxiliaryWorkingSet( &auxiliaryBounds,&auxiliaryConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_INIT_FAILED );
 
-	/* d) Copy external Cholesky factor if provided */
+	/* d) Ensure that dual variables are consistent with working set: zero for free bounds and
+	 *    inactive constraints and never of a sign contradicting the status of an active one. */
+	for ( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] > 0.0 ) ) )
+			y[i] = 0.0;
+	}
+
+	for ( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getStatus( i ) == ST_LOWER ) && ( constraints.getType( i ) != ST_EQUALITY ) && ( y[nV+i] < 0.0 ) ) ||
+			 ( ( constraints.getStatus( i ) == ST_UPPER ) && ( constraints.getType( i ) != ST_EQUALITY ) && ( y[nV+i] > 0.0 ) ) )
+			y[nV+i] = 0.0;
+	}
+
+	/* e) Copy external Cholesky factor if provided */
 	haveCholesky = BT_FALSE;
 
 	if ( _R != 0 )
@@ -5763,14 +5781,23 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds and inactive constraints. */
+	/* 1) Ensure that dual variables are consistent with working set: zero for free bounds and
+	 *    inactive constraints and never of a sign contradicting the status of an active one. */
 	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] > 0.0 ) ) )
 			y[i] = 0.0;
+	}
 
 	for ( i=0; i<nC; ++i )
-		if ( constraints.getStatus( i ) == ST_INACTIVE )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( constraints.getStatus( i ) == ST_LOWER ) && ( constraints.getType( i ) != ST_EQUALITY ) && ( y[nV+i] < 0.0 ) ) ||
+			 ( ( constraints.getStatus( i ) == ST_UPPER ) && ( constraints.getType( i ) != ST_EQUALITY ) && ( y[nV+i] > 0.0 ) ) )
 			y[nV+i] = 0.0;
+	}
 
 	/* 2) Setup gradient and (constraints') bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 64a3f00..8d549d7 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2341,7 +2341,17 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 			return THROWERROR( RET_INIT_FAILED_REGULARISATION );
 	}
 
-	/* c) Copy external Cholesky factor if provided */
+	/* c) Ensure that dual variables are consistent with working set: zero for free bounds
+	 *    and never of a sign contradicting the status of an active bound. */
+	for ( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] > 0.0 ) ) )
+			y[i] = 0.0;
+	}
+
+	/* d) Copy external Cholesky factor if provided */
 	haveCholesky = BT_FALSE;
 
 	if ( _R != 0 )
@@ -3058,10 +3068,15 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 
 
 	/* II) SETUP AUXILIARY QP DATA: */
-	/* 1) Ensure that dual variable is zero for free bounds. */
+	/* 1) Ensure that dual variables are consistent with working set: zero for free bounds
+	 *    and never of a sign contradicting the status of an active bound. */
 	for ( i=0; i<nV; ++i )
-		if ( bounds.getStatus( i ) == ST_INACTIVE )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) ||
+			 ( ( bounds.getStatus( i ) == ST_LOWER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] < 0.0 ) ) ||
+			 ( ( bounds.getStatus( i ) == ST_UPPER ) && ( bounds.getType( i ) != ST_EQUALITY ) && ( y[i] > 0.0 ) ) )
 			y[i] = 0.0;
+	}
 
 	/* 2) Setup gradient and bound vectors. */
 	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-- 
2.43.0


From d846b7a0ccda4dac7bd7cca9b7f593b5ba549707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 15/93] fix: guessing all variables fixed left active
 constraints in the working set and corrupted memory

---
 src/QProblem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 97965f8..20c1f97 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2467,7 +2467,9 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 			break;
 		}
 
-	if (WSisTrivial == BT_TRUE)
+	/* (if the working set is not set up afresh, constraints might still be active
+	 *  and bounds might be active at the wrong limit) */
+	if ( ( WSisTrivial == BT_TRUE ) && ( setupAfresh == BT_TRUE ) )
 	{
 		for (i = 0; i < nV; i++)
 			if (bounds.getStatus(i) == ST_INACTIVE)
-- 
2.43.0


From c846679a9960f55b5ba4ce32e01b39f09fcb82b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:22 +0000
Subject: [PATCH 16/93] fix: hotstart with working set guess updated a Cholesky
 factor that did not exist and used an uncomputed step direction

---
 src/QProblem.cpp  | 18 ++++++++++++++++++
 src/QProblemB.cpp |  8 ++++++++
 2 files changed, 26 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 20c1f97..a6e0d06 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -477,6 +477,14 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 		if ( cputime != 0 )
 			starttime = getCPUtime( );
 
+		/* Changing the working set updates the Cholesky factor, thus make sure that there is one. */
+		if ( haveCholesky == BT_FALSE )
+		{
+			returnValue returnvalueCholesky = setupInitialCholesky( );
+			if ( returnvalueCholesky != SUCCESSFUL_RETURN )
+				return THROWERROR( returnvalueCholesky );
+		}
+
 		const Bounds*      actualGuessedBounds      = ( guessedBounds != 0 )      ? guessedBounds      : &bounds;
 		const Constraints* actualGuessedConstraints = ( guessedConstraints != 0 ) ? guessedConstraints : &constraints;
 
@@ -4418,6 +4426,16 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		delete[] nul;
 	}
 
+	if ( returnvalue != SUCCESSFUL_RETURN )
+	{
+		/* step direction has not been computed */
+		delete[] delta_yFX;
+		delete[] delta_yAC;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+		return returnvalue;
+	}
+
 	/* compute the weight in inf-norm */
 	real_t normXi = 0.0;
 	for (ii = 0; ii < nAC; ++ii)
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 8d549d7..57d1459 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -443,6 +443,14 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		if ( cputime != 0 )
 			starttime = getCPUtime( );
 
+		/* Changing the working set updates the Cholesky factor, thus make sure that there is one. */
+		if ( haveCholesky == BT_FALSE )
+		{
+			returnValue returnvalueCholesky = setupInitialCholesky( );
+			if ( returnvalueCholesky != SUCCESSFUL_RETURN )
+				return THROWERROR( returnvalueCholesky );
+		}
+
 		if ( setupAuxiliaryQP( guessedBounds ) != SUCCESSFUL_RETURN )
 			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 
-- 
2.43.0


From 8ee29b3c2c78bcc6780ef986e38c8a60913ebd8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:49 +0000
Subject: [PATCH 17/93] fix: truncated or unreadable data files were accepted
 as complete

---
 src/Utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index f8e142d..e4df05c 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -294,9 +294,9 @@ returnValue readFromFile(	real_t* data, int_t nrow, int_t ncol,
 		for( j=0; j<ncol; ++j )
 		{
 			#ifdef __USE_SINGLE_PRECISION__
-			if ( fscanf( datafile, "%f ", &float_data ) == 0 )
+			if ( ( fscanf( datafile, "%f ", &float_data ) != 1 ) || ( ferror( datafile ) != 0 ) )
 			#else
-			if ( fscanf( datafile, "%lf ", &float_data ) == 0 )
+			if ( ( fscanf( datafile, "%lf ", &float_data ) != 1 ) || ( ferror( datafile ) != 0 ) )
 			#endif /* __USE_SINGLE_PRECISION__ */
 			{
 				fclose( datafile );
@@ -357,9 +357,9 @@ returnValue readFromFile(	int_t* data, int_t n,
 	for( i=0; i<n; ++i )
 	{
 		#ifdef __USE_LONG_INTEGERS__
-		if ( fscanf( datafile, "%ld\n", &(data[i]) ) == 0 )
+		if ( ( fscanf( datafile, "%ld\n", &(data[i]) ) != 1 ) || ( ferror( datafile ) != 0 ) )
 		#else
-		if ( fscanf( datafile, "%d\n", &(data[i]) ) == 0 )
+		if ( ( fscanf( datafile, "%d\n", &(data[i]) ) != 1 ) || ( ferror( datafile ) != 0 ) )
 		#endif
 		{
 			fclose( datafile );
-- 
2.43.0


From 002ac331d893a830345a04910f4f893598fd56b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:28 +0000
Subject: [PATCH 18/93] fix: failed or incomplete file writes were reported as
 success and dumping QP data of a session without matrices crashed

---
 src/QProblem.cpp | 72 ++++++++++++++++++++++++++++++++----------------
 src/Utils.cpp    | 24 ++++++++++++----
 2 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a6e0d06..80421a6 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6462,31 +6462,50 @@ returnValue QProblem::writeQpDataIntoMatFile(	const char* const filename
 {
 	#ifndef __SUPPRESSANYOUTPUT__
 
+	int_t i;
+	int_t nV = getNV();
+	int_t nC = getNC();
+
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
+
 	FILE* matFile;
 	matFile = fopen( filename,"w+" );
 
 	if ( matFile == 0 )
 		return RET_UNABLE_TO_OPEN_FILE;
 
-	int_t nV = getNV();
-	int_t nC = getNC();
+	/* trivial Hessians need not be stored */
+	real_t* Hfull;
+	if ( H != 0 )
+		Hfull = H->full();
+	else
+	{
+		Hfull = new real_t[nV*nV];
+		for( i=0; i<nV*nV; ++i )
+			Hfull[i] = 0.0;
+		if ( hessianType == HST_IDENTITY )
+			for( i=0; i<nV; ++i )
+				Hfull[i*nV+i] = 1.0;
+	}
 
-	real_t* Hfull = H->full();
-	writeIntoMatFile( matFile, Hfull, nV,nV, "H"   );
-	delete[] Hfull;
+	real_t* Afull = ( A != 0 ) ? A->full() : 0;
 
-	writeIntoMatFile( matFile, g,     nV,1,  "g"   );
+	BooleanType success = BT_TRUE;
 
-	real_t* Afull = A->full();
-	writeIntoMatFile( matFile, Afull, nC,nV, "A"   );
-	delete[] Afull;
+	if ( writeIntoMatFile( matFile, Hfull, nV,nV, "H"   ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, g,     nV,1,  "g"   ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Afull, nC,nV, "A"   ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, lb,    nV,1,  "lb"  ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, ub,    nV,1,  "ub"  ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
 
-	writeIntoMatFile( matFile, lb,    nV,1,  "lb"  );
-	writeIntoMatFile( matFile, ub,    nV,1,  "ub"  );
-	writeIntoMatFile( matFile, lbA,   nC,1,  "lbA" );
-	writeIntoMatFile( matFile, ubA,   nC,1,  "ubA" );
+	delete[] Hfull;
+	delete[] Afull;
 
-	fclose( matFile );
+	if ( ( fclose( matFile ) != 0 ) || ( success == BT_FALSE ) )
+		return RET_UNABLE_TO_WRITE_FILE;
 
 	return SUCCESSFUL_RETURN;
 
@@ -6506,6 +6525,9 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 {
 	#ifndef __SUPPRESSANYOUTPUT__
 
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
+
 	FILE* matFile;
 	matFile = fopen( filename,"w+" );
 
@@ -6519,13 +6541,14 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	int_t nAC  = getNAC();
 	int_t nIAC = getNIAC();
 
+	BooleanType success = BT_TRUE;
 
-	writeIntoMatFile( matFile, T, sizeT,sizeT, "T" );
-	writeIntoMatFile( matFile, Q, nV,nV, "Q" );
+	if ( writeIntoMatFile( matFile, T, sizeT,sizeT, "T" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Q, nV,nV, "Q" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
 
-	writeIntoMatFile( matFile, Ax, nC,1, "Ax" );
-	writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" );
-	writeIntoMatFile( matFile, Ax_u, nC,1, "Ax_u" );
+	if ( writeIntoMatFile( matFile, Ax, nC,1, "Ax" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Ax_l, nC,1, "Ax_l" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, Ax_u, nC,1, "Ax_u" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
 
 
 	int_t *FR_idx, *FX_idx, *AC_idx, *IAC_idx;
@@ -6534,12 +6557,13 @@ returnValue QProblem::writeQpWorkspaceIntoMatFile(	const char* const filename
 	constraints.getActive( )->getNumberArray( &AC_idx );
 	constraints.getInactive( )->getNumberArray( &IAC_idx );
 
-	writeIntoMatFile( matFile, FR_idx,  nFR, 1, "FR_idx"  );
-	writeIntoMatFile( matFile, FX_idx,  nFX, 1, "FX_idx"  );
-	writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  );
-	writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" );
+	if ( writeIntoMatFile( matFile, FR_idx,  nFR, 1, "FR_idx"  ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, FX_idx,  nFX, 1, "FX_idx"  ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, AC_idx,  nAC, 1, "AC_idx"  ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
+	if ( writeIntoMatFile( matFile, IAC_idx, nIAC,1, "IAC_idx" ) != SUCCESSFUL_RETURN ) success = BT_FALSE;
 
-	fclose( matFile );
+	if ( ( fclose( matFile ) != 0 ) || ( success == BT_FALSE ) )
+		return RET_UNABLE_TO_WRITE_FILE;
 
 	return SUCCESSFUL_RETURN;
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index e4df05c..ee59822 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -425,8 +425,14 @@ returnValue writeIntoFile(	const real_t* const data, int_t nrow, int_t ncol,
 		fprintf( datafile, "\n" );
 	}
 
-	/* 3) Close file. */
-	fclose( datafile );
+	/* 3) Close file and make sure that all data has been written. */
+	int writeFailed = ferror( datafile );
+	if ( ( fclose( datafile ) != 0 ) || ( writeFailed != 0 ) )
+	{
+		char errstr[MAX_STRING_LENGTH];
+		snprintf( errstr,MAX_STRING_LENGTH,"(%s)",datafilename );
+		return getGlobalMessageHandler( )->throwError( RET_UNABLE_TO_WRITE_FILE,errstr,__FUNC__,__FILE__,__LINE__,VS_VISIBLE );
+	}
 
 	return SUCCESSFUL_RETURN;
 
@@ -488,8 +494,14 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 	for( i=0; i<n; ++i )
 		fprintf( datafile, "%d\n",(int)(integer[i]) );
 
-	/* 3) Close file. */
-	fclose( datafile );
+	/* 3) Close file and make sure that all data has been written. */
+	int writeFailed = ferror( datafile );
+	if ( ( fclose( datafile ) != 0 ) || ( writeFailed != 0 ) )
+	{
+		char errstr[MAX_STRING_LENGTH];
+		snprintf( errstr,MAX_STRING_LENGTH,"(%s)",datafilename );
+		return getGlobalMessageHandler( )->throwError( RET_UNABLE_TO_WRITE_FILE,errstr,__FUNC__,__FILE__,__LINE__,VS_VISIBLE );
+	}
 
 	return SUCCESSFUL_RETURN;
 
@@ -513,7 +525,7 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 
 	#ifndef __SUPPRESSANYOUTPUT__
 
-	if ( ( matFile == 0 ) || ( data == 0 ) || ( nRows < 0 ) || ( nCols < 0 ) || ( name == 0 ) )
+	if ( ( matFile == 0 ) || ( ( data == 0 ) && ( nRows*nCols != 0 ) ) || ( nRows < 0 ) || ( nCols < 0 ) || ( name == 0 ) )
 		return RET_INVALID_ARGUMENTS;
 
 	MatMatrixHeader var;
@@ -529,7 +541,7 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
 		return RET_UNABLE_TO_WRITE_FILE;
 
-	if ( fwrite( name, sizeof(char),(unsigned long)(var.nCharName), matFile ) < 1 )
+	if ( fwrite( name, sizeof(char),(unsigned long)(var.nCharName), matFile ) < (unsigned long)(var.nCharName) )
 		return RET_UNABLE_TO_WRITE_FILE;
 
 	int_t ii, jj;
-- 
2.43.0


From f47ef1070cddaddc8b18d62848455e2212778572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:47 +0000
Subject: [PATCH 19/93] fix: evaluating the objective of a session that has not
 been initialised crashed

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 57d1459..e944132 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -755,6 +755,10 @@ real_t QProblemB::getObjVal( const real_t* const _x ) const
 	if ( nV == 0 )
 		return 0.0;
 
+	/* there is no QP data to be evaluated */
+	if ( getStatus( ) == QPS_NOTINITIALISED )
+		return INFTY;
+
 	real_t objVal = 0.0;
 
 	for( i=0; i<nV; ++i )
-- 
2.43.0


From 74ccf4eebbc53ef7aea361db55c8433c535fbcf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 20/93] fix: Hessian regularisation modified the caller's
 (const) Hessian and that of copied sessions

---
 src/QProblemB.cpp | 20 ++++++++++++++++++++
 src/SQProblem.cpp | 15 +++++++++++++--
 2 files changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e944132..e2c21dc 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2061,6 +2061,26 @@ returnValue QProblemB::regulariseHessian( )
 		{
 			regVal = H->getNorm() * options.epsRegularisation;
 
+			/* Do not alter Hessian data that belongs to the user (or to another QP object):
+			 * make a deep copy before adding the regularisation to its diagonal. */
+			SymDenseMat* dH = dynamic_cast<SymDenseMat*>( H );
+			if ( ( dH != 0 ) && ( ( freeHessian == BT_FALSE ) || ( H->needToFreeMemory( ) == BT_FALSE ) ) )
+			{
+				SymDenseMat* Hcopy = new SymDenseMat( getNV(),getNV(),getNV(),H->full( ) );
+				Hcopy->doFreeMemory( );
+
+				if ( freeHessian == BT_TRUE )
+					delete H;
+
+				H = Hcopy;
+				freeHessian = BT_TRUE;
+			}
+			else if ( freeHessian == BT_FALSE )
+			{
+				H = H->duplicateSym( );
+				freeHessian = BT_TRUE;
+			}
+
 			if ( H->addToDiag( regVal ) == RET_NO_DIAGONAL_AVAILABLE )
 				return THROWERROR( RET_CANNOT_REGULARISE_SPARSE );
 		}
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 25c56bb..8260c5e 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -602,10 +602,21 @@ returnValue SQProblem::setupNewAuxiliaryQP(	const real_t* const H_new, const rea
 
 	returnValue returnvalue = setupNewAuxiliaryQP( sH,dA, lb_new,ub_new,lbA_new,ubA_new );
 
+	/* matrices that are not kept (e.g. because they have been copied for regularisation) are released */
 	if ( sH != 0 )
-		freeHessian = BT_TRUE;
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
+			delete sH;
+	}
 	if ( dA != 0 )
-		freeConstraintMatrix = BT_TRUE;
+	{
+		if ( A == dA )
+			freeConstraintMatrix = BT_TRUE;
+		else
+			delete dA;
+	}
 
 	return returnvalue;
 }
-- 
2.43.0


From e163491d35757e66974a2149a55a506278472a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:35 +0000
Subject: [PATCH 21/93] fix: analysing the solution of a session that has not
 been initialised crashed

---
 src/SolutionAnalysis.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/SolutionAnalysis.cpp b/src/SolutionAnalysis.cpp
index 66d0fd1..606428c 100644
--- a/src/SolutionAnalysis.cpp
+++ b/src/SolutionAnalysis.cpp
@@ -95,11 +95,16 @@ real_t SolutionAnalysis::getKktViolation(	QProblemB* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	/* There is no solution to be analysed before the initialisation. */
+	if ( ( qp->getStatus( ) == QPS_NOTINITIALISED ) || ( qp->getHessianType( ) == HST_UNKNOWN ) )
+		return INFTY;
+
+	int_t nV = qp->getNV();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -168,12 +173,17 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 											) const
 {
 	int_t i;
-	int_t nV = qp->getNV();
-	int_t nC = qp->getNC();
 
 	if ( qp == 0 )
 		return INFTY;
 
+	/* There is no solution to be analysed before the initialisation. */
+	if ( ( qp->getStatus( ) == QPS_NOTINITIALISED ) || ( qp->getHessianType( ) == HST_UNKNOWN ) )
+		return INFTY;
+
+	int_t nV = qp->getNV();
+	int_t nC = qp->getNC();
+
 	/* setup Hessian matrix array (or pass NULL pointer) */
 	real_t* H_ptr = 0;
 	BooleanType hasIdentityHessian = BT_FALSE;
@@ -195,7 +205,7 @@ real_t SolutionAnalysis::getKktViolation(	QProblem* const qp,
 	}
 
 	/* setup constraint matrix array */
-	real_t* A_ptr = qp->A->full();
+	real_t* A_ptr = ( qp->A != 0 ) ? qp->A->full() : 0;
 
 	real_t* workingSetB = new real_t[nV];
 	qp->getWorkingSetBounds( workingSetB );
@@ -280,6 +290,10 @@ returnValue SolutionAnalysis::getVarianceCovariance(	QProblem* qp,
 
   /* DEFINITION OF THE DIMENSIONS nV AND nC:
    * --------------------------------------- */
+  if ( ( qp->getStatus( ) == QPS_NOTINITIALISED ) ||
+       ( qp->getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+       return THROWERROR( RET_QPOBJECT_NOT_SETUP );
+
   int_t nV  = qp->getNV( );                      /* dimension of x / the bounds */
   int_t nC  = qp->getNC( );                      /* dimension of the constraints */
   int_t dim = 2*nV+nC;                           /* dimension of input and output */
-- 
2.43.0


From e5349529b5b02ae90e6f72d7487a09b9c7451dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:12 +0000
Subject: [PATCH 22/93] fix: hotstart from files rejected trivial Hessians that
 may be omitted according to its documentation

---
 src/SQProblem.cpp | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 8260c5e..d560210 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -219,18 +219,18 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	returnValue returnvalue;
 
 	/* consistency checks */
-	if ( ( H_file == 0 ) || ( g_file == 0 ) )
+	if ( g_file == 0 )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 	if ( ( nC > 0 ) && ( A_file == 0 ) )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 
-	/* 1) Load new QP matrices from files. */
-	real_t* H_new  = new real_t[nV*nV];
+	/* 1) Load new QP matrices from files (trivial Hessian might not be given). */
+	real_t* H_new  = ( H_file != 0 ) ? new real_t[nV*nV] : 0;
 	real_t* A_new  = new real_t[nC*nV];
 
-	if ( readFromFile( H_new, nV,nV, H_file ) != SUCCESSFUL_RETURN )
+	if ( ( H_file != 0 ) && ( readFromFile( H_new, nV,nV, H_file ) != SUCCESSFUL_RETURN ) )
 	{
 		delete[] A_new;
 		delete[] H_new;
@@ -275,8 +275,12 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 	}
 
 	/* 3) Actually perform hotstart, matrices are kept by the session. */
-	SymDenseMat* sH = new SymDenseMat( nV,nV,nV,H_new );
-	sH->doFreeMemory( );
+	SymDenseMat* sH = 0;
+	if ( H_new != 0 )
+	{
+		sH = new SymDenseMat( nV,nV,nV,H_new );
+		sH->doFreeMemory( );
+	}
 
 	DenseMatrix* dA = new DenseMatrix( nC,nV,nV,A_new );
 	dA->doFreeMemory( );
@@ -286,10 +290,13 @@ returnValue SQProblem::hotstart(	const char* const H_file, const char* const g_f
 							guessedBounds,guessedConstraints
 							);
 
-	if ( H == sH )
-		freeHessian = BT_TRUE;
-	else
-		delete sH;
+	if ( sH != 0 )
+	{
+		if ( H == sH )
+			freeHessian = BT_TRUE;
+		else
+			delete sH;
+	}
 
 	if ( A == dA )
 		freeConstraintMatrix = BT_TRUE;
-- 
2.43.0


From 96e0a9ec03f64e13c5cc5ec44fab6cc493f0618d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:32 +0000
Subject: [PATCH 23/93] fix: failing memory allocations while creating, copying
 or initialising a QP object led to double releases

---
 include/qpOASES/QProblemB.ipp | 3 +++
 src/QProblem.cpp              | 9 +++++++--
 src/QProblemB.cpp             | 7 +++++--
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 6831374..62ffeb8 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -277,7 +277,10 @@ inline returnValue QProblemB::setH( const real_t* const H_new )
 	else
 	{
 		if ( ( freeHessian == BT_TRUE ) && ( H != 0 ) )
+		{
 			delete H;
+			H = 0; /* avoids double release if memory allocation fails */
+		}
 
 		H = dH = new SymDenseMat( nV, nV, nV, (real_t*) H_new );
 		freeHessian = BT_TRUE;
diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 80421a6..09a5d15 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -122,6 +122,7 @@ QProblem::QProblem( int_t _nV, int_t _nC, HessianType _hessianType, BooleanType
 	constraints.init( _nC );
 
 	delete[] y; /* y of no constraints version too short! */
+	y = 0;      /* avoids double release if memory allocation fails */
 	y = new real_t[_nV+_nC];
 	for( i=0; i<_nV+_nC; ++i ) y[i] = 0.0;
 
@@ -1227,13 +1228,16 @@ returnValue QProblem::copy(	const QProblem& rhs
 		A = 0;
 	}
 
-	freeConstraintMatrix = rhs.freeConstraintMatrix;
+	/* take over ownership flag only after the matrix has successfully been duplicated */
+	freeConstraintMatrix = BT_FALSE;
 
-	if ( freeConstraintMatrix == BT_TRUE )
+	if ( rhs.freeConstraintMatrix == BT_TRUE )
 		A = rhs.A->duplicate();
 	else
 		A = rhs.A;
 
+	freeConstraintMatrix = rhs.freeConstraintMatrix;
+
 	if ( rhs.lbA != 0 )
 	{
 		lbA = new real_t[_nC];
@@ -1253,6 +1257,7 @@ returnValue QProblem::copy(	const QProblem& rhs
 	if ( rhs.y != 0 )
 	{
 		delete[] y; /* y of no constraints version too short! */
+		y = 0;      /* avoids double release if memory allocation fails */
 		y = new real_t[_nV+_nC];
 		memcpy( y,rhs.y,(_nV+_nC)*sizeof(real_t) );
 	}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index e2c21dc..b4b173b 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -1115,13 +1115,16 @@ returnValue QProblemB::copy(	const QProblemB& rhs
 
 	bounds = rhs.bounds;
 
-	freeHessian = rhs.freeHessian;
+	/* take over ownership flag only after the matrix has successfully been duplicated */
+	freeHessian = BT_FALSE;
 
-	if ( freeHessian == BT_TRUE )
+	if ( rhs.freeHessian == BT_TRUE )
 		H = (SymmetricMatrix *)(rhs.H->duplicateSym());
 	else
 		H = rhs.H;
 
+	freeHessian = rhs.freeHessian;
+
 	if ( rhs.g != 0 )
 	{
 		g = new real_t[_nV];
-- 
2.43.0


From b1774e06f57b49270aa6fed169306d62ff13e8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:02 +0000
Subject: [PATCH 24/93] fix: copied QP objects could not restore their
 factorisations when flipping bounds

---
 src/Flipper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Flipper.cpp b/src/Flipper.cpp
index fc77d4e..8770668 100644
--- a/src/Flipper.cpp
+++ b/src/Flipper.cpp
@@ -238,6 +238,9 @@ returnValue Flipper::clear( )
 returnValue Flipper::copy(	const Flipper& rhs
 							)
 {
+	nV = rhs.nV;
+	nC = rhs.nC;
+
 	return set( &(rhs.bounds),rhs.R, &(rhs.constraints),rhs.Q,rhs.T );
 }
 
-- 
2.43.0


From 23bf0497445d53f89fd0d8ba1006e6dc19dd29b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 25/93] fix: reset forgot a declared identity Hessian that is
 not given as a matrix, the next QP was solved as LP

---
 src/QProblemB.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index b4b173b..beb3889 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -228,7 +228,9 @@ returnValue QProblemB::reset( )
 	/* 3) Reset steplength and status flags. */
 	tau = 0.0;
 
-	hessianType = HST_UNKNOWN;
+	/* an identity Hessian that is not given as a matrix is part of the QP data */
+	if ( ( hessianType != HST_IDENTITY ) || ( H != 0 ) )
+		hessianType = HST_UNKNOWN;
 	regVal = 0.0;
 
 	infeasible  = BT_FALSE;
-- 
2.43.0


From 33e41b1ee1a51037d338659bdc138e9fcc4d029b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:46 +0000
Subject: [PATCH 26/93] fix: debug iteration output crashed without Hessian
 matrix or dense factorisations and printed uninitialised memory

---
 src/QProblem.cpp  |  2 +-
 src/QProblemB.cpp | 21 +++++++++++++++++++--
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 09a5d15..d3af9e6 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -6181,7 +6181,7 @@ returnValue QProblem::printIteration( 	int_t iter,
 			for (i = 0; i < nC; i++) if (y[nV+i] < -EPS && getAbs((ubA[i]-AX[i])*y[nV+i]) > ccmpl) ccmpl = getAbs((ubA[i]-AX[i])*y[nV+i]);
 
 			Tmin = 1.0e16; Tmax = 0.0;
-			for (i = 0; i < nAC; i++)
+			for (i = 0; ( T != 0 ) && ( i < nAC ); i++)
 				if (getAbs(TT(i,sizeT-i-1)) < Tmin)
 					Tmin = getAbs(TT(i,sizeT-i-1));
 				else if (getAbs(TT(i,sizeT-i-1)) > Tmax)
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index beb3889..3cc4150 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3809,7 +3809,24 @@ returnValue QProblemB::printIteration( 	int_t iter,
 
 			/* stationarity */
 			for (i = 0; i < nV; i++) grad[i] = g[i] - y[i];
-			H->times(1, 1.0, x, nV, 1.0, grad, nV);
+
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					for( i=0; i<nV; ++i )
+						grad[i] += regVal * x[i];
+					break;
+
+				case HST_IDENTITY:
+					for( i=0; i<nV; ++i )
+						grad[i] += 1.0 * x[i];
+					break;
+
+				default:
+					H->times(1, 1.0, x, nV, 1.0, grad, nV);
+					break;
+			}
+
 			for (i = 0; i < nV; i++) if (getAbs(grad[i]) > stat) stat = getAbs(grad[i]);
 
 			/* feasibility */
@@ -3824,8 +3841,8 @@ returnValue QProblemB::printIteration( 	int_t iter,
 			{
 				snprintf( myPrintfString,MAX_STRING_LENGTH, "\n%5s %4s %4s %9s %9s %9s %9s %9s\n",
 						"iter", "addB", "remB", "hom len", "tau", "stat", "bfeas", "bcmpl");
+				myPrintf( myPrintfString );
 			}
-			myPrintf( myPrintfString );
 
 			snprintf( myPrintfString,MAX_STRING_LENGTH, "%5d ",(int)iter );
 			myPrintf( myPrintfString );
-- 
2.43.0


From 5b69fe40fb3758d6bd51ccf4ab695db2dda4299e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:54 +0000
Subject: [PATCH 27/93] fix: declared identity Hessian is respected after a
 reset whenever no matrix is given

---
 include/qpOASES/QProblemB.hpp |  1 +
 include/qpOASES/QProblemB.ipp |  9 +++++----
 src/QProblemB.cpp             | 14 +++++++++++---
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/qpOASES/QProblemB.hpp b/include/qpOASES/QProblemB.hpp
index 41eeb9f..1ecb98a 100644
--- a/include/qpOASES/QProblemB.hpp
+++ b/include/qpOASES/QProblemB.hpp
@@ -991,6 +991,7 @@ class QProblemB
 		BooleanType unbounded;		/**< QP unbounded? */
 
 		HessianType hessianType;	/**< Type of Hessian matrix. */
+		HessianType declaredHessianType;	/**< Type of Hessian matrix as declared by the user. */
 		real_t regVal;				/**< Holds the offset used to regularise Hessian matrix (zero by default). */
 
 		uint_t count;				/**< Counts the number of hotstart function calls. */
diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 62ffeb8..2b13b10 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -160,6 +160,7 @@ inline HessianType QProblemB::getHessianType( ) const
 inline returnValue QProblemB::setHessianType( HessianType _hessianType )
 {
 	hessianType = _hessianType;
+	declaredHessianType = _hessianType;
 	return SUCCESSFUL_RETURN;
 }
 
@@ -263,10 +264,10 @@ inline returnValue QProblemB::setH( const real_t* const H_new )
 	 *                            (or stays identity matrix) */
 	if ( H_new == 0 )
 	{
-		if ( hessianType == HST_IDENTITY )
-			return SUCCESSFUL_RETURN;
-
-		hessianType = HST_ZERO;
+		if ( ( hessianType != HST_IDENTITY ) && ( ( hessianType != HST_UNKNOWN ) || ( declaredHessianType != HST_IDENTITY ) ) )
+			hessianType = HST_ZERO;
+		else
+			hessianType = HST_IDENTITY; /* possibly declared before the QP object has been reset */
 
 		if ( ( freeHessian == BT_TRUE ) && ( H != 0 ) )
 			delete H;
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3cc4150..5d64c86 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -73,6 +73,7 @@ QProblemB::QProblemB( )
 	tau = 0.0;
 
 	hessianType = HST_UNKNOWN;
+	declaredHessianType = HST_UNKNOWN;
 	regVal = 0.0;
 
 	infeasible  = BT_FALSE;
@@ -144,6 +145,7 @@ QProblemB::QProblemB( int_t _nV, HessianType _hessianType, BooleanType allocDens
 	tau = 0.0;
 
 	hessianType = _hessianType;
+	declaredHessianType = _hessianType;
 	regVal = 0.0;
 
 	infeasible  = BT_FALSE;
@@ -228,9 +230,7 @@ returnValue QProblemB::reset( )
 	/* 3) Reset steplength and status flags. */
 	tau = 0.0;
 
-	/* an identity Hessian that is not given as a matrix is part of the QP data */
-	if ( ( hessianType != HST_IDENTITY ) || ( H != 0 ) )
-		hessianType = HST_UNKNOWN;
+	hessianType = HST_UNKNOWN;
 	regVal = 0.0;
 
 	infeasible  = BT_FALSE;
@@ -1180,6 +1180,7 @@ returnValue QProblemB::copy(	const QProblemB& rhs
 	tau = rhs.tau;
 
 	hessianType = rhs.hessianType;
+	declaredHessianType = rhs.declaredHessianType;
 	regVal = rhs.regVal;
 
 	infeasible = rhs.infeasible;
@@ -1246,6 +1247,13 @@ returnValue QProblemB::determineHessianType( )
 	/* if Hessian has not been allocated, assume it to be all zeros! */
 	if ( H == 0 )
 	{
+		/* identity Hessian declared before the QP object has been reset */
+		if ( ( hessianType == HST_UNKNOWN ) && ( declaredHessianType == HST_IDENTITY ) )
+		{
+			hessianType = HST_IDENTITY;
+			return SUCCESSFUL_RETURN;
+		}
+
 		hessianType = HST_ZERO;
 		THROWINFO( RET_ZERO_HESSIAN_ASSUMED );
 
-- 
2.43.0


From 41c6375924b413c25d7cd43497d97ac47d27c178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:57 +0000
Subject: [PATCH 28/93] fix: solving with the current working set crashed after
 a reset

---
 src/QProblem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d3af9e6..b88b1f1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -764,6 +764,10 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	if ( ( x_out == 0 ) || ( y_out == 0 ) )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
+	/* there is no factorised KKT system without a (at least partly successful) initialisation */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED ) || ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) )
+		return THROWERROR( RET_QPOBJECT_NOT_SETUP );
+
 	returnValue returnvalue = SUCCESSFUL_RETURN;
 	int_t ii, jj;
 	int_t nV  = getNV( );
-- 
2.43.0


From 55a3d6a4b5e49dbd188805c9cf3e239fa92913ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:22 +0000
Subject: [PATCH 29/93] fix: unbounded constraints entered the ratio test with
 uninitialised values if a constraint product function is used

---
 src/QProblem.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b88b1f1..48ab51c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5184,14 +5184,12 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 		{
 			ii = IAC_idx[i];
 
-			if ( constraints.getType( ii ) != ST_UNBOUNDED )
+			/* also required for unbounded constraints as ratio test does not exclude them */
+			if ( (*constraintProduct)( ii,delta_x, &(delta_Ax[ii]) ) != 0 )
 			{
-				if ( (*constraintProduct)( ii,delta_x, &(delta_Ax[ii]) ) != 0 )
-				{
-					delete[] den; delete[] num;
-					delete[] delta_Ax; delete[] delta_Ax_u; delete[] delta_Ax_l; delete[] delta_x;
-					return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
-				}
+				delete[] den; delete[] num;
+				delete[] delta_Ax; delete[] delta_Ax_u; delete[] delta_Ax_l; delete[] delta_x;
+				return THROWERROR( RET_ERROR_IN_CONSTRAINTPRODUCT );
 			}
 		}
 	}
-- 
2.43.0


From d71feed6eca016b7808251959f3040962266934e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 30/93] fix: solving left a flag uninitialised that is passed
 on for printing iterations

---
 src/QProblem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 48ab51c..4b8c5b4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1589,7 +1589,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 	int_t BC_idx;
 	SubjectToStatus BC_status;
-	BooleanType BC_isBound;
+	BooleanType BC_isBound = BT_FALSE;
 
 	real_t homotopyLength;
 
-- 
2.43.0


From aff8c5a9691d9179e711b7dea2ac649d4c34a30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 31/93] fix: expanding a dense matrix without rows copied from
 a null pointer

---
 src/Matrices.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index d41881f..019dc83 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -588,7 +588,8 @@ returnValue DenseMatrix::writeToFile( FILE* output_file, const char* prefix ) co
 real_t* DenseMatrix::full() const
 {
 	real_t* v = new real_t[nRows*nCols];
-	memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
+	if ( val != 0 )
+		memcpy( v,val, ((uint_t)(nRows*nCols))*sizeof(real_t) );
 	return v;
 }
 
-- 
2.43.0


From 1bef0eb63753a10f3720fcb512649fc864515113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:07 +0000
Subject: [PATCH 32/93] fix: a given Cholesky factor of the Hessian was used
 although the initial working set is not empty

---
 src/QProblem.cpp  | 3 ++-
 src/QProblemB.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 4b8c5b4..c010424 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1434,7 +1434,8 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		/* Factor of the full Hessian can only be used if the initial working set is empty. */
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) != 0 ) || ( getNAC( ) != 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 5d64c86..a987d78 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2401,7 +2401,8 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 
 	if ( _R != 0 )
 	{
-		if ( options.initialStatusBounds != ST_INACTIVE )
+		/* Factor of the full Hessian can only be used if the initial working set is empty. */
+		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) != 0 ) )
 		{
 			THROWWARNING( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 		}
-- 
2.43.0


From 5c4b3bd68f8de1b2d25549c7957d96d9f79a7d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:41 +0000
Subject: [PATCH 33/93] fix: a Cholesky factor read from file was used
 transposed

---
 src/QProblem.cpp  | 9 ++++++++-
 src/QProblemB.cpp | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index c010424..2fb898e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1443,7 +1443,14 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 		{
 			if ( _R == R )
 			{
-				/* Cholesky factor read from file and already loaded into R. */
+				/* Cholesky factor read from file and already loaded into R, but stored there in
+				 * row-major format while R is stored in column-major format. */
+				for( i=0; i<nV; ++i )
+					for( j=i+1; j<nV; ++j )
+					{
+						RR(i,j) = RR(j,i);
+						RR(j,i) = 0.0;
+					}
 				haveCholesky = BT_TRUE;
 			}
 			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) && ( guessedConstraints == 0 ) )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index a987d78..3bff913 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2410,7 +2410,14 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 		{
 			if ( _R == R )
 			{
-				/* Cholesky factor read from file and already loaded into R. */
+				/* Cholesky factor read from file and already loaded into R, but stored there in
+				 * row-major format while R is stored in column-major format. */
+				for( i=0; i<nV; ++i )
+					for( j=i+1; j<nV; ++j )
+					{
+						RR(i,j) = RR(j,i);
+						RR(j,i) = 0.0;
+					}
 				haveCholesky = BT_TRUE;
 			}
 			else if ( ( xOpt == 0 ) && ( yOpt == 0 ) && ( guessedBounds == 0 ) )
-- 
2.43.0


From 5fb122ec163e208fb08a111169c9473caf3f7b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:39 +0000
Subject: [PATCH 34/93] fix: QProblemB stopped by a CPU time limit nobody asked
 for once far bounds had to be moved

---
 src/QProblemB.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 3bff913..36bdc02 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -487,6 +487,7 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 	int_t nWSR_performed = 0;
 
 	real_t cputime_remaining = INFTY;
+	real_t *pcputime_rem;
 	real_t cputime_needed = 0.0;
 
 	real_t farbound = options.initialFarBounds;
@@ -529,11 +530,16 @@ returnValue QProblemB::hotstart(	const real_t* const g_new,
 		{
 			nWSR = nWSR_max;
 			if ( cputime != 0 )
+			{
 				cputime_remaining = *cputime - cputime_needed;
+				pcputime_rem = &cputime_remaining;
+			}
+			else
+				pcputime_rem = 0;
 
 			/* Automatically call standard solveQP if regularisation is not active. */
 			returnvalue = solveRegularisedQP(	g_new,lb_new_far,ub_new_far,
-												nWSR,&cputime_remaining,nWSR_performed,
+												nWSR,pcputime_rem,nWSR_performed,
 												isFirstCall
 												);
 
-- 
2.43.0


From 297c75adc2bb51940882948a5ec723dabfcb8e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:13 +0000
Subject: [PATCH 35/93] fix: QProblemB kept a stale Cholesky factor when
 adopting a guessed working set similar to the current one

---
 src/QProblemB.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 36bdc02..ea1239a 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -3113,10 +3113,6 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 		/* 2) Setup guessed working set afresh. */
 		if ( setupAuxiliaryWorkingSet( guessedBounds,BT_TRUE ) != SUCCESSFUL_RETURN )
 			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-		/* 3) Calculate Cholesky decomposition. */
-		if ( computeCholesky( ) != SUCCESSFUL_RETURN )
-			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 	else
 	{
@@ -3125,6 +3121,10 @@ returnValue QProblemB::setupAuxiliaryQP( const Bounds* const guessedBounds )
 			THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
 	}
 
+	/* Calculate Cholesky decomposition (which is not updated while preparing an auxiliary QP). */
+	if ( computeCholesky( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
 
 	/* II) SETUP AUXILIARY QP DATA: */
 	/* 1) Ensure that dual variables are consistent with working set: zero for free bounds
-- 
2.43.0


From 545f45cc1f32dc3916738845af33f7939e52b48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:21 +0000
Subject: [PATCH 36/93] fix: hotstart with new matrices failed if a formerly
 active bound or constraint is unbounded now

---
 src/QProblem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 2fb898e..f209d2c 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2598,7 +2598,7 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 	 *    all formerly active bounds that have been active at the wrong bound. */
 	for( i=0; i<nV; ++i )
 	{
-		if ( ( bounds.getType( i ) != ST_EQUALITY ) && ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) ) )
+		if ( ( bounds.getType( i ) != ST_EQUALITY ) && ( bounds.getType( i ) != ST_UNBOUNDED ) && ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) ) )
 		{
 			/* Add bound only if it is linearly independent from the current working set. */
 			if ( addBound_checkLI( i ) == RET_LINEARLY_INDEPENDENT )
@@ -2613,7 +2613,7 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 	 *    all formerly active constraints that have been active at the wrong bound. */
 	for( i=0; i<nC; ++i )
 	{
-		if ( ( constraints.getType( i ) != ST_EQUALITY ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
+		if ( ( constraints.getType( i ) != ST_EQUALITY ) && ( constraints.getType( i ) != ST_UNBOUNDED ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
 		{
 			/* formerly inactive */
 			if ( constraints.getStatus( i ) == ST_INACTIVE )
-- 
2.43.0


From eaca586d8f5b19fac04cda5b658e25fe1358877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:25 +0000
Subject: [PATCH 37/93] fix: constraints and bounds once passed as unbounded
 could never become active in later hotstarts

---
 src/QProblem.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f209d2c..f7937b4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1551,7 +1551,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 								BooleanType isFirstCall
 								)
 {
-	int_t iter;
+	int_t i, iter;
 	int_t nV  = getNV( );
 	int_t nC  = getNC( );
 
@@ -1616,6 +1616,17 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		return THROWERROR( RET_HOTSTART_FAILED );
 */
 
+	/* However, formerly unbounded variables or constraints for which there are limits now must be able to become active. */
+	for( i=0; i<nV; ++i )
+		if ( ( bounds.getType( i ) == ST_UNBOUNDED ) &&
+			 ( ( ( lb_new != 0 ) && ( lb_new[i] >= -INFTY+options.boundTolerance ) ) || ( ( ub_new != 0 ) && ( ub_new[i] <= INFTY-options.boundTolerance ) ) ) )
+			bounds.setType( i,ST_BOUNDED );
+
+	for( i=0; i<nC; ++i )
+		if ( ( constraints.getType( i ) == ST_UNBOUNDED ) &&
+			 ( ( ( lbA_new != 0 ) && ( lbA_new[i] >= -INFTY+options.boundTolerance ) ) || ( ( ubA_new != 0 ) && ( ubA_new[i] <= INFTY-options.boundTolerance ) ) ) )
+			constraints.setType( i,ST_BOUNDED );
+
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From 363b0c5fdd9b034f537f8662f835a37ad335336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:47 +0000
Subject: [PATCH 38/93] fix: bounds that became equalities were ignored if
 linearly dependent on the working set

---
 src/QProblem.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f7937b4..5ceb781 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2000,8 +2000,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 					if ( returnvalue != SUCCESSFUL_RETURN )
 						return returnvalue;
 				}
-				/* AW: Check: This allows to have variables that are
-				   equalities to be in the set of free variables. */
+				else
+				{
+					/* A bound that is linearly dependent must be able to become active
+					 * later on, thus it must not become an inactive equality. */
+					bounds.setType( i,ST_BOUNDED );
+				}
 			}
 		}
 	}
-- 
2.43.0


From 3776a3968b1a4c553df67a4708004576e6710f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:10 +0000
Subject: [PATCH 39/93] fix: refresh constraint products of constraints that
 are no longer unbounded

---
 src/QProblem.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 5ceb781..e14378f 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1552,6 +1552,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 								)
 {
 	int_t i, iter;
+	BooleanType newLimits = BT_FALSE;
 	int_t nV  = getNV( );
 	int_t nC  = getNC( );
 
@@ -1625,7 +1626,21 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 	for( i=0; i<nC; ++i )
 		if ( ( constraints.getType( i ) == ST_UNBOUNDED ) &&
 			 ( ( ( lbA_new != 0 ) && ( lbA_new[i] >= -INFTY+options.boundTolerance ) ) || ( ( ubA_new != 0 ) && ( ubA_new[i] <= INFTY-options.boundTolerance ) ) ) )
+		{
 			constraints.setType( i,ST_BOUNDED );
+			newLimits = BT_TRUE;
+		}
+
+	/* (the constraint products of unbounded constraints have not been kept up to date) */
+	if ( newLimits == BT_TRUE )
+	{
+		A->times( 1, 1.0, x, nV, 0.0, Ax, nC );
+		for( i=0; i<nC; ++i )
+		{
+			Ax_u[i] = ubA[i] - Ax[i];
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+	}
 
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
-- 
2.43.0


From 025ca6bc6b4fc93d2f6ae510a8e1d0e6a929edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:52 +0000
Subject: [PATCH 40/93] fix: LPs without objective could not be regularised and
 thus not be solved

---
 src/QProblemB.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index ea1239a..9bf397c 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2075,6 +2075,10 @@ returnValue QProblemB::regulariseHessian( )
 		if ( hessianType == HST_ZERO )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
+
+			/* pure feasibility problems also need to be regularised */
+			if ( regVal <= 0.0 )
+				regVal = options.epsRegularisation;
 		}
 		else
 		{
-- 
2.43.0


From 327db0db7253a3a0b843d3a98df41d68118c0a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:11 +0000
Subject: [PATCH 41/93] fix: constraint limits on a side that had none so far
 were ignored if the iterate violates them when a solve was cut short

---
 src/QProblem.cpp | 69 +++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 27 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index e14378f..992a11e 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -516,12 +516,53 @@ returnValue QProblem::hotstart(	const real_t* const g_new,
 	}
 
 	/* Constraints might have got lower/upper limits although none were present so far. */
+	BooleanType newLower = BT_FALSE;
+	BooleanType newUpper = BT_FALSE;
+	BooleanType newType  = BT_FALSE;
+
 	for( i=0; i<nC; ++i )
 	{
 		if ( ( lbA_new != 0 ) && ( lbA_new[i] > -INFTY ) )
+		{
+			if ( constraints.hasNoLower( ) == BT_TRUE )
+				newLower = BT_TRUE;
 			constraints.setNoLower( BT_FALSE );
+		}
 		if ( ( ubA_new != 0 ) && ( ubA_new[i] < INFTY ) )
+		{
+			if ( constraints.hasNoUpper( ) == BT_TRUE )
+				newUpper = BT_TRUE;
 			constraints.setNoUpper( BT_FALSE );
+		}
+
+		/* formerly unbounded constraints must be able to become active */
+		if ( ( constraints.getType( i ) == ST_UNBOUNDED ) &&
+			 ( ( ( lbA_new != 0 ) && ( lbA_new[i] >= -INFTY+options.boundTolerance ) ) || ( ( ubA_new != 0 ) && ( ubA_new[i] <= INFTY-options.boundTolerance ) ) ) )
+		{
+			constraints.setType( i,ST_BOUNDED );
+			newType = BT_TRUE;
+		}
+	}
+
+	/* Products of unbounded constraints have not been kept up to date and
+	 * limits that were not present might be violated by the current iterate. */
+	if ( ( newLower == BT_TRUE ) || ( newUpper == BT_TRUE ) || ( newType == BT_TRUE ) )
+	{
+		A->times( 1, 1.0, x, nV, 0.0, Ax, nC );
+
+		for( i=0; i<nC; ++i )
+		{
+			if ( constraints.getStatus( i ) == ST_INACTIVE )
+			{
+				if ( ( ( newLower == BT_TRUE ) || ( newType == BT_TRUE ) ) && ( lbA[i] > Ax[i] ) )
+					lbA[i] = Ax[i] - options.boundRelaxation;
+				if ( ( ( newUpper == BT_TRUE ) || ( newType == BT_TRUE ) ) && ( ubA[i] < Ax[i] ) )
+					ubA[i] = Ax[i] + options.boundRelaxation;
+			}
+
+			Ax_u[i] = ubA[i] - Ax[i];
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
 	}
 
 	++count;
@@ -1551,8 +1592,7 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 								BooleanType isFirstCall
 								)
 {
-	int_t i, iter;
-	BooleanType newLimits = BT_FALSE;
+	int_t iter;
 	int_t nV  = getNV( );
 	int_t nC  = getNC( );
 
@@ -1617,31 +1657,6 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		return THROWERROR( RET_HOTSTART_FAILED );
 */
 
-	/* However, formerly unbounded variables or constraints for which there are limits now must be able to become active. */
-	for( i=0; i<nV; ++i )
-		if ( ( bounds.getType( i ) == ST_UNBOUNDED ) &&
-			 ( ( ( lb_new != 0 ) && ( lb_new[i] >= -INFTY+options.boundTolerance ) ) || ( ( ub_new != 0 ) && ( ub_new[i] <= INFTY-options.boundTolerance ) ) ) )
-			bounds.setType( i,ST_BOUNDED );
-
-	for( i=0; i<nC; ++i )
-		if ( ( constraints.getType( i ) == ST_UNBOUNDED ) &&
-			 ( ( ( lbA_new != 0 ) && ( lbA_new[i] >= -INFTY+options.boundTolerance ) ) || ( ( ubA_new != 0 ) && ( ubA_new[i] <= INFTY-options.boundTolerance ) ) ) )
-		{
-			constraints.setType( i,ST_BOUNDED );
-			newLimits = BT_TRUE;
-		}
-
-	/* (the constraint products of unbounded constraints have not been kept up to date) */
-	if ( newLimits == BT_TRUE )
-	{
-		A->times( 1, 1.0, x, nV, 0.0, Ax, nC );
-		for( i=0; i<nC; ++i )
-		{
-			Ax_u[i] = ubA[i] - Ax[i];
-			Ax_l[i] = Ax[i] - lbA[i];
-		}
-	}
-
 	/* 3) Reset status flags. */
 	infeasible = BT_FALSE;
 	unbounded  = BT_FALSE;
-- 
2.43.0


From 8cac6b72c363baf26dbb54ff336a22667d6bf306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:36 +0000
Subject: [PATCH 42/93] fix: matrix hotstart kept formerly fixed variables
 active at a limit contradicting their multiplier if they are unbounded now

---
 src/QProblem.cpp  | 2 +-
 src/SQProblem.cpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 992a11e..b582907 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2522,7 +2522,7 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 
 	/* Check for trivial working set (all and only bounds active) */
 	for (i = 0; i < nV; i++)
-		if (auxiliaryBounds->getStatus(i) == ST_INACTIVE)
+		if ((auxiliaryBounds->getStatus(i) == ST_INACTIVE) || (bounds.getType(i) == ST_UNBOUNDED))
 		{
 			WSisTrivial = BT_FALSE;
 			break;
diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index d560210..43b9c5b 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -501,7 +501,7 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 
 		// check for equalities that have become bounds ...
 		for (int_t ii = 0; ii < nC; ++ii) {
-			if (oldConstraints.getType (ii) == ST_EQUALITY && constraints.getType (ii) == ST_BOUNDED) {
+			if (oldConstraints.getType (ii) == ST_EQUALITY && constraints.getType (ii) != ST_EQUALITY) {
 				if (oldConstraints.getStatus (ii) == ST_LOWER && y[nV+ii] < 0.0)
 					oldConstraints.setStatus (ii, ST_UPPER);
 				else if (oldConstraints.getStatus (ii) == ST_UPPER && y[nV+ii] > 0.0)
@@ -512,7 +512,7 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 		// ... and do the same also for the bounds!
 		for (int_t ii = 0; ii < nV; ++ii) {
 			if (oldBounds.getType(ii) == ST_EQUALITY
-					&& bounds.getType(ii) == ST_BOUNDED) {
+					&& bounds.getType(ii) != ST_EQUALITY) {
 				if (oldBounds.getStatus(ii) == ST_LOWER && y[ii] < 0.0)
 					oldBounds.setStatus(ii, ST_UPPER);
 				else if (oldBounds.getStatus(ii) == ST_UPPER && y[ii] > 0.0)
-- 
2.43.0


From df2a8e4c20d2629c8b5bf1692b4bad6430c641de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:51 +0000
Subject: [PATCH 43/93] fix: matrix hotstart to an LP from a point without
 objective chose a vanishing regularisation and returned wrong solutions

---
 src/QProblemB.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 9bf397c..ab6d703 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2076,8 +2076,8 @@ returnValue QProblemB::regulariseHessian( )
 		{
 			regVal = getNorm( g,getNV() ) * options.epsRegularisation;
 
-			/* pure feasibility problems also need to be regularised */
-			if ( regVal <= 0.0 )
+			/* (auxiliary) problems with almost no objective also need to be regularised noticeably */
+			if ( regVal <= 1.0e6*EPS*options.epsRegularisation )
 				regVal = options.epsRegularisation;
 		}
 		else
-- 
2.43.0


From 3e19f927365cb2efa0c79a34bfcf92f3b9f421a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 44/93] fix: matrix hotstart ignored constraint limits on a
 side that had none so far if the iterate violates them

---
 src/SQProblem.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 43b9c5b..2daa227 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -415,6 +415,18 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 			ubA[i] += Ax[i];
 		}
 
+		/* Limits on a side that has none so far might be violated by the current iterate. */
+		for ( i=0; i<nC; ++i )
+		{
+			if ( constraints.getStatus( i ) == ST_INACTIVE )
+			{
+				if ( ( constraints.hasNoLower( ) == BT_TRUE ) && ( lbA[i] > Ax[i] ) )
+					lbA[i] = Ax[i] - options.boundRelaxation;
+				if ( ( constraints.hasNoUpper( ) == BT_TRUE ) && ( ubA[i] < Ax[i] ) )
+					ubA[i] = Ax[i] + options.boundRelaxation;
+			}
+		}
+
 		/* update constraint products. */
 		for ( i=0; i<nC; ++i )
 		{
-- 
2.43.0


From 60c02e1c7ea4bb554f0ae8d14e1838c6fb72bd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:08 +0000
Subject: [PATCH 45/93] fix: hotstart with guessed working set ignored
 constraint limits violated by the current iterate

---
 src/QProblem.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index b582907..062ebed 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -5888,6 +5888,15 @@ returnValue QProblem::setupAuxiliaryQP( const Bounds* const guessedBounds, const
 	{
 		Ax_l[j] = Ax[j];
 		Ax_u[j] = Ax[j];
+
+		/* limits that have been ignored so far might be violated by the current iterate */
+		if ( constraints.getStatus( j ) == ST_INACTIVE )
+		{
+			if ( lbA[j] > Ax[j] + options.boundTolerance )
+				lbA[j] = Ax[j] - options.boundRelaxation;
+			if ( ubA[j] < Ax[j] - options.boundTolerance )
+				ubA[j] = Ax[j] + options.boundRelaxation;
+		}
 	}
 
 	/* (also sets Ax_l and Ax_u) */
-- 
2.43.0


From 36f250e0b7c5bb7f6aab36e64346510adf742da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:36 +0000
Subject: [PATCH 46/93] fix: steps from far away (after unboundedness was
 detected) cancelled digits and led to wrong solutions

---
 src/QProblem.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 062ebed..91166cf 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1749,6 +1749,18 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		nC = getNC( );
 
 		homotopyLength = getRelativeHomotopyLength( g_new,lb_new,ub_new,lbA_new,ubA_new );
+
+		/* Steps coming from far away (e.g. after unboundedness has been detected)
+		 * cancel digits, thus correct iterate before accepting it as solution. */
+		if ( ( homotopyLength <= options.terminationTolerance ) && ( BC_status == ST_UNDEFINED ) &&
+			 ( options.enableDriftCorrection > 0 ) &&
+			 ( EPS * getMax( getNorm( delta_xFR,getNFR( ),1 ),getNorm( delta_xFX,getNFX( ),1 ) ) > options.terminationTolerance ) )
+		{
+			performDriftCorrection( );
+			status = QPS_HOMOTOPYQPSOLVED;
+			continue;
+		}
+
 		if ( homotopyLength <= options.terminationTolerance )
 		{
 			status = QPS_SOLVED;
@@ -5340,6 +5352,11 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 		}
 	}
 
+	/* steps that cancel too many digits to update constraint products incrementally */
+	BooleanType isLongStep = BT_FALSE;
+	if ( EPS * tau * getNorm( delta_x,nV,1 ) > options.terminationTolerance )
+		isLongStep = BT_TRUE;
+
 	delete[] den;
 	delete[] num;
 	delete[] delta_x;
@@ -5411,6 +5428,17 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 				Ax_u[ii] += tau*delta_Ax_u[ii];
 			}
 		}
+
+		if ( isLongStep == BT_TRUE )
+		{
+			A->times( constraints.getInactive(),0, 1, 1.0, x, nV, 0.0, Ax, nC, BT_FALSE );
+			for( i=0; i<nIAC; ++i )
+			{
+				ii = IAC_idx[i];
+				Ax_u[ii] = ubA[ii] - Ax[ii];
+				Ax_l[ii] = Ax[ii] - lbA[ii];
+			}
+		}
 	}
 	else
 	{
-- 
2.43.0


From bd6dfb7d269304a77b3c0e0566fc93b64435477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:30 +0000
Subject: [PATCH 47/93] fix: QP data drifted during steps from far away;
 session was unusable after zero curvature revealed unboundedness

---
 src/QProblem.cpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 91166cf..0706252 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1749,18 +1749,6 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 		nC = getNC( );
 
 		homotopyLength = getRelativeHomotopyLength( g_new,lb_new,ub_new,lbA_new,ubA_new );
-
-		/* Steps coming from far away (e.g. after unboundedness has been detected)
-		 * cancel digits, thus correct iterate before accepting it as solution. */
-		if ( ( homotopyLength <= options.terminationTolerance ) && ( BC_status == ST_UNDEFINED ) &&
-			 ( options.enableDriftCorrection > 0 ) &&
-			 ( EPS * getMax( getNorm( delta_xFR,getNFR( ),1 ),getNorm( delta_xFX,getNFX( ),1 ) ) > options.terminationTolerance ) )
-		{
-			performDriftCorrection( );
-			status = QPS_HOMOTOPYQPSOLVED;
-			continue;
-		}
-
 		if ( homotopyLength <= options.terminationTolerance )
 		{
 			status = QPS_SOLVED;
@@ -1801,7 +1789,10 @@ returnValue QProblem::solveQP(	const real_t* const g_new,
 
 			/* ...unboundedness... */
 			if ( unbounded == BT_TRUE ) /* not necessary since objective function convex! */
+			{
+				status = QPS_HOMOTOPYQPSOLVED;
 				return THROWERROR( RET_HOTSTART_STOPPED_UNBOUNDEDNESS );
+			}
 
 			/* ... and throw unspecific error otherwise */
 			THROWERROR( RET_HOMOTOPY_STEP_FAILED );
@@ -5352,7 +5343,8 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 		}
 	}
 
-	/* steps that cancel too many digits to update constraint products incrementally */
+	/* steps coming from far away (e.g. after unboundedness has been detected) cancel too many
+	 * digits to update QP data and constraint products incrementally */
 	BooleanType isLongStep = BT_FALSE;
 	if ( EPS * tau * getNorm( delta_x,nV,1 ) > options.terminationTolerance )
 		isLongStep = BT_TRUE;
@@ -5438,6 +5430,9 @@ returnValue QProblem::performStep(	const real_t* const delta_g,
 				Ax_u[ii] = ubA[ii] - Ax[ii];
 				Ax_l[ii] = Ax[ii] - lbA[ii];
 			}
+
+			if ( options.enableDriftCorrection > 0 )
+				performDriftCorrection( );
 		}
 	}
 	else
-- 
2.43.0


From 968d5a165bf43cf05abd5cabc68f3e508bfb61eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:45 +0000
Subject: [PATCH 48/93] fix: zero curvature exchange jumped across limits
 violated by rounding errors

---
 src/QProblem.cpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 0706252..cf94d90 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -4530,7 +4530,7 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 	/* relative test against zero in inf-norm */
 	if (normXi < options.epsNZCTests * normS)
 	{
-		/* determine jump in x via ratio tests */
+		/* determine jump in x via ratio tests (limits violated due to rounding block the jump) */
 		real_t sigmaLBnd, sigmaLCnstr, sigmaUBnd, sigmaUCnstr, sigma;
 
 		/* bounds */
@@ -4540,7 +4540,7 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		for (i = 0; i < nFR; i++)
 		{
 			ii = FR_idx[i];
-			x_W[i] = ub[ii] - x[ii];
+			x_W[i] = getMax( ub[ii] - x[ii],0.0 );
 		}
 		/* performRatioTest( nFR,FR_idx,&bounds, x_W,delta_xFR, options.epsNum,options.epsDen, sigmaUBnd,addUBndIdx ); */
 		sigmaUBnd = options.maxPrimalJump;
@@ -4550,7 +4550,7 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		{
 			/* also consider bound which is to be removed */
 			real_t one = 1.0;
-			x_W[0] = ub[remIdx] - x[remIdx];
+			x_W[0] = getMax( ub[remIdx] - x[remIdx],0.0 );
 			performPlainRatioTest(1, &remIdx, x_W, &one, options.epsNum, options.epsDen, sigmaUBnd, addUBndIdx);
 		}
 
@@ -4558,7 +4558,7 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		for (i = 0; i < nFR; i++)
 		{
 			ii = FR_idx[i];
-			x_W[i] = x[ii] - lb[ii];
+			x_W[i] = getMax( x[ii] - lb[ii],0.0 );
 		}
 		for (i = 0; i < nFR; i++)
 			delta_xFR[i] = -delta_xFR[i];
@@ -4570,7 +4570,7 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		{
 			/* also consider bound which is to be removed */
 			real_t one = 1.0;
-			x_W[0] = x[remIdx] - lb[remIdx];
+			x_W[0] = getMax( x[remIdx] - lb[remIdx],0.0 );
 			performPlainRatioTest(1, &remIdx, x_W, &one, options.epsNum, options.epsDen, sigmaLBnd, addLBndIdx);
 		}
 		for (i = 0; i < nFR; i++)
@@ -4590,7 +4590,7 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		for (i = 0; i < nIAC; i++)
 		{
 			ii = IAC_idx[i];
-			Ax_W[i] = Ax_u[ii];
+			Ax_W[i] = getMax( Ax_u[ii],0.0 );
 		}
 		/* performRatioTest( nIAC,IAC_idx,&constraints, Ax_W,As, options.epsNum,options.epsDen, sigmaUCnstr,addUCnstrIdx ); */
 		sigmaUCnstr = options.maxPrimalJump;
@@ -4600,14 +4600,15 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		{
 			/* also consider constraint which is to be removed */
 			real_t one = 1.0;
-			performPlainRatioTest(1, &remIdx, &Ax_u[remIdx], &one, options.epsNum, options.epsDen, sigmaUCnstr, addUCnstrIdx);
+			real_t num = getMax( Ax_u[remIdx],0.0 );
+			performPlainRatioTest(1, &remIdx, &num, &one, options.epsNum, options.epsDen, sigmaUCnstr, addUCnstrIdx);
 		}
 
 		/* compress Ax_l */
 		for (i = 0; i < nIAC; i++)
 		{
 			ii = IAC_idx[i];
-			Ax_W[i] = Ax_l[ii];
+			Ax_W[i] = getMax( Ax_l[ii],0.0 );
 		}
 		for (i = 0; i < nIAC; i++)
 			As[i] = -As[i];
@@ -4619,7 +4620,8 @@ returnValue QProblem::ensureNonzeroCurvature(	BooleanType removeBoundNotConstrai
 		{
 			/* also consider constraint which is to be removed */
 			real_t one = 1.0;
-			performPlainRatioTest(1, &remIdx, &Ax_l[remIdx], &one, options.epsNum, options.epsDen, sigmaLCnstr, addLCnstrIdx);
+			real_t num = getMax( Ax_l[remIdx],0.0 );
+			performPlainRatioTest(1, &remIdx, &num, &one, options.epsNum, options.epsDen, sigmaLCnstr, addLCnstrIdx);
 		}
 
 		/* perform primal jump */
-- 
2.43.0


From cac016e0db3a087a92620a07dfa38e694bd424f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 49/93] fix: an initialisation whose data were rejected
 determined the Hessian type of the next one

---
 src/QProblem.cpp  | 15 +++++++++++++++
 src/QProblemB.cpp | 15 +++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index cf94d90..11c42c9 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -303,8 +303,12 @@ returnValue QProblem::init(	SymmetricMatrix *_H, const real_t* const _g, Matrix
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType initialHessianType = hessianType;
 	if ( setupQPdata( _H,_g,_A,_lb,_ub,_lbA,_ubA ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = initialHessianType; /* has possibly been adapted to the data just rejected */
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,_R, nWSR,cputime );
@@ -361,8 +365,12 @@ returnValue QProblem::init(	const real_t* const _H, const real_t* const _g, cons
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType initialHessianType = hessianType;
 	if ( setupQPdata( _H,_g,_A,_lb,_ub,_lbA,_ubA ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = initialHessianType; /* has possibly been adapted to the data just rejected */
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,_R, nWSR,cputime );
@@ -419,8 +427,12 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data from files. */
+	HessianType initialHessianType = hessianType;
 	if ( setupQPdataFromFile( H_file,g_file,A_file,lb_file,ub_file,lbA_file,ubA_file ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = initialHessianType; /* has possibly been adapted to the data just rejected */
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
+	}
 
 	if ( R_file == 0 )
 	{
@@ -432,7 +444,10 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 		/* Also read Cholesky factor from file and store it directly into R [thus... */
 		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
+		{
+			hessianType = initialHessianType;
 			return THROWWARNING( returnvalue );
+		}
 
 		/* 3) Call to main initialisation routine. ...passing R here!] */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,R, nWSR,cputime );
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index ab6d703..1ca44b7 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -290,8 +290,12 @@ returnValue QProblemB::init( 	SymmetricMatrix *_H, const real_t* const _g,
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType initialHessianType = hessianType;
 	if ( setupQPdata( _H,_g,_lb,_ub ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = initialHessianType; /* has possibly been adapted to the data just rejected */
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,_R, nWSR,cputime );
@@ -339,8 +343,12 @@ returnValue QProblemB::init( 	const real_t* const _H, const real_t* const _g,
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data. */
+	HessianType initialHessianType = hessianType;
 	if ( setupQPdata( _H,_g,_lb,_ub ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = initialHessianType; /* has possibly been adapted to the data just rejected */
 		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
 
 	/* 3) Call to main initialisation routine. */
 	return solveInitialQP( xOpt,yOpt,guessedBounds,_R, nWSR,cputime );
@@ -388,8 +396,12 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 		return THROWERROR( RET_NO_CHOLESKY_WITH_INITIAL_GUESS );
 
 	/* 2) Setup QP data from files. */
+	HessianType initialHessianType = hessianType;
 	if ( setupQPdataFromFile( H_file,g_file,lb_file,ub_file ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = initialHessianType; /* has possibly been adapted to the data just rejected */
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
+	}
 
 	if ( R_file == 0 )
 	{
@@ -401,7 +413,10 @@ returnValue QProblemB::init( 	const char* const H_file, const char* const g_file
 		/* Also read Cholesky factor from file and store it directly into R [thus... */
 		returnValue returnvalue = readFromFile( R, nV,nV, R_file );
 		if ( returnvalue != SUCCESSFUL_RETURN )
+		{
+			hessianType = initialHessianType;
 			return THROWWARNING( returnvalue );
+		}
 
 		/* 3) Call to main initialisation routine. ...passing R here!] */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,R, nWSR,cputime );
-- 
2.43.0


From 16ad8ede23b58e56676c36e82034ff6a3c134b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:40 +0000
Subject: [PATCH 50/93] fix: integers not fitting into an int were truncated
 when written into a file

---
 src/Utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Utils.cpp b/src/Utils.cpp
index ee59822..9d06acc 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -492,7 +492,7 @@ returnValue writeIntoFile(	const int_t* const integer, int_t n,
 
 	/* 2) Write data into file. */
 	for( i=0; i<n; ++i )
-		fprintf( datafile, "%d\n",(int)(integer[i]) );
+		fprintf( datafile, "%ld\n",(long)(integer[i]) );
 
 	/* 3) Close file and make sure that all data has been written. */
 	int writeFailed = ferror( datafile );
-- 
2.43.0


From 62cf4b62f4a548599c2005e444c991c547298c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 51/93] fix: MAT files written on platforms with 64-bit long
 could not be read

---
 include/qpOASES/Types.hpp | 10 +++++-----
 src/Utils.cpp             |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/qpOASES/Types.hpp b/include/qpOASES/Types.hpp
index d47e4d5..faa0128 100644
--- a/include/qpOASES/Types.hpp
+++ b/include/qpOASES/Types.hpp
@@ -327,11 +327,11 @@ struct TabularOutput {
  *	\date 2013-2017
  */
 typedef struct {
-	long numericFormat;		/**< Flag indicating numerical format. */
-	long nRows;				/**< Number of rows. */
-	long nCols;				/**< Number of rows. */
-	long imaginaryPart;		/**< (to be documented) */
-	long nCharName;			/**< Number of character in name. */
+	int numericFormat;		/**< Flag indicating numerical format. */
+	int nRows;				/**< Number of rows. */
+	int nCols;				/**< Number of rows. */
+	int imaginaryPart;		/**< (to be documented) */
+	int nCharName;			/**< Number of character in name. */
 } MatMatrixHeader;
 
 
diff --git a/src/Utils.cpp b/src/Utils.cpp
index 9d06acc..9cc286b 100644
--- a/src/Utils.cpp
+++ b/src/Utils.cpp
@@ -532,10 +532,10 @@ returnValue writeIntoMatFile(	FILE* const matFile,
 
 	// setup variable header
 	var.numericFormat = 0000;  /* IEEE Little Endian - reserved - double precision (64 bits) - numeric full matrix */
-	var.nRows         = nRows; /* number of rows */
-	var.nCols         = nCols; /* number of columns */
+	var.nRows         = (int)nRows; /* number of rows */
+	var.nCols         = (int)nCols; /* number of columns */
 	var.imaginaryPart = 0;     /* no imaginary part */
-	var.nCharName     = (long)(strlen(name))+1; /* matrix name length */
+	var.nCharName     = (int)(strlen(name))+1; /* matrix name length */
 
 	/* write variable header to mat file */
 	if ( fwrite( &var, sizeof(MatMatrixHeader),1,  matFile ) < 1 )
-- 
2.43.0


From 7cd80a6ce95de61726d98bd42290da2b06e483b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:56 +0000
Subject: [PATCH 52/93] fix: reading benchmark files released wrong memory if
 solution files are unreadable and crashed without constraints

---
 src/OQPinterface.cpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/OQPinterface.cpp b/src/OQPinterface.cpp
index f63168a..b5538d4 100644
--- a/src/OQPinterface.cpp
+++ b/src/OQPinterface.cpp
@@ -170,9 +170,9 @@ returnValue readOqpData(	const char* path,
 	}
 	else
 	{
-		*A = 0;
-		*lbA = 0;
-		*ubA = 0;
+		if ( A != 0 )   *A = 0;
+		if ( lbA != 0 ) *lbA = 0;
+		if ( ubA != 0 ) *ubA = 0;
 	}
 
 	if ( xOpt != 0 )
@@ -182,7 +182,7 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sx_opt.oqp",path );
 		if ( readFromFile( *xOpt,nQP,nV,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] xOpt;
+			delete[] *xOpt;
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -196,8 +196,8 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sy_opt.oqp",path );
 		if ( readFromFile( *yOpt,nQP,nV+nC,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] yOpt;
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *yOpt;
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
@@ -211,9 +211,9 @@ returnValue readOqpData(	const char* path,
 		snprintf( filename,MAX_STRING_LENGTH,"%sobj_opt.oqp",path );
 		if ( readFromFile( *objOpt,nQP,1,filename ) != SUCCESSFUL_RETURN )
 		{
-			delete[] objOpt;
-			if ( yOpt != 0 ) { delete[] yOpt; };
-			if ( xOpt != 0 ) { delete[] xOpt; };
+			delete[] *objOpt;
+			if ( yOpt != 0 ) { delete[] *yOpt; };
+			if ( xOpt != 0 ) { delete[] *xOpt; };
 			if ( nC > 0 ) { delete[] *ubA; delete[] *lbA; delete[] *A; };
 			delete[] *ub; delete[] *lb; delete[] *g; delete[] *H;
 			return THROWERROR( RET_UNABLE_TO_READ_FILE );
-- 
2.43.0


From 7e7fe732b6b38b9f451ca7c423b4fc74837f288a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 53/93] fix: C interface set up MPC options if reliable options
 were requested

---
 interfaces/c/qpOASES_wrapper.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index 4b5e5b4..f532dd6 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -146,8 +146,9 @@ int_t qpOASES_Options_init(	qpOASES_Options* const options,
 			#else
 			options->numRefinementSteps            =  2;
 			#endif
+			break;
+
 
-			
 		case 2:
 			/* MPC */
 			options->enableRamping                 =  BT_FALSE;
-- 
2.43.0


From 87c8b0c74622feb0ce3dd2eda69ea9008a1c23eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:21 +0000
Subject: [PATCH 54/93] fix: C interface crashed if a pointer to an output was
 missing

---
 interfaces/c/qpOASES_wrapper.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/interfaces/c/qpOASES_wrapper.cpp b/interfaces/c/qpOASES_wrapper.cpp
index f532dd6..9abd542 100644
--- a/interfaces/c/qpOASES_wrapper.cpp
+++ b/interfaces/c/qpOASES_wrapper.cpp
@@ -302,6 +302,10 @@ int_t QProblem_init(	const real_t* const H,
 	if ( globalQProblemObject == 0 )
 		return -1;
 
+	/* abort if there is nowhere to return the results */
+	if ( ( nWSR == 0 ) || ( x == 0 ) || ( y == 0 ) || ( obj == 0 ) || ( status == 0 ) )
+		return -1;
+
 	/* adjust options if provided */
 	if ( options != 0 )
 	{
@@ -337,6 +341,10 @@ int_t QProblem_hotstart(	const real_t* const g,
 	if ( globalQProblemObject == 0 )
 		return -1;
 
+	/* abort if there is nowhere to return the results */
+	if ( ( nWSR == 0 ) || ( x == 0 ) || ( y == 0 ) || ( obj == 0 ) || ( status == 0 ) )
+		return -1;
+
 	/* actually call solver */
 	returnValue returnvalue = globalQProblemObject->hotstart( g,lb,ub,lbA,ubA, *nWSR,cputime );
 
@@ -405,6 +413,10 @@ int_t QProblemB_init(	const real_t* const H,
 	if ( globalQProblemBObject == 0 )
 		return -1;
 
+	/* abort if there is nowhere to return the results */
+	if ( ( nWSR == 0 ) || ( x == 0 ) || ( y == 0 ) || ( obj == 0 ) || ( status == 0 ) )
+		return -1;
+
 	/* adjust options if provided */
 	if ( options != 0 )
 	{
@@ -438,6 +450,10 @@ int_t QProblemB_hotstart(	const real_t* const g,
 	if ( globalQProblemBObject == 0 )
 		return -1;
 
+	/* abort if there is nowhere to return the results */
+	if ( ( nWSR == 0 ) || ( x == 0 ) || ( y == 0 ) || ( obj == 0 ) || ( status == 0 ) )
+		return -1;
+
 	/* actually call solver */
 	returnValue returnvalue = globalQProblemBObject->hotstart( g,lb,ub, *nWSR,cputime );
 
@@ -510,6 +526,10 @@ int_t SQProblem_init(	const real_t* const H,
 	if ( globalSQProblemObject == 0 )
 		return -1;
 
+	/* abort if there is nowhere to return the results */
+	if ( ( nWSR == 0 ) || ( x == 0 ) || ( y == 0 ) || ( obj == 0 ) || ( status == 0 ) )
+		return -1;
+
 	/* adjust options if provided */
 	if ( options != 0 )
 	{
@@ -547,6 +567,10 @@ int_t SQProblem_hotstart(	const real_t* const H,
 	if ( globalSQProblemObject == 0 )
 		return -1;
 
+	/* abort if there is nowhere to return the results */
+	if ( ( nWSR == 0 ) || ( x == 0 ) || ( y == 0 ) || ( obj == 0 ) || ( status == 0 ) )
+		return -1;
+
 	/* actually call solver */
 	returnValue returnvalue = globalSQProblemObject->hotstart( H,g,A,lb,ub,lbA,ubA, *nWSR,cputime );
 
-- 
2.43.0


From f274eb7aa1d043ea7d157b169b276b5da22e37c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 55/93] fix: an indefinite Hessian refused at initialisation
 was not noticed at the next one and determined its type

---
 src/QProblem.cpp  | 3 +++
 src/QProblemB.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 11c42c9..a67227a 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -1422,7 +1422,10 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	/* I) ANALYSE QP DATA: */
 	/* 1) Check if Hessian happens to be the identity matrix. */
 	if ( determineHessianType( ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = HST_UNKNOWN; /* next initialisation has to check its Hessian itself */
 		return THROWERROR( RET_INIT_FAILED );
+	}
 
 	/* 2) Setup type of bounds and constraints (i.e. unbounded, implicitly fixed etc.). */
 	if ( setupSubjectToType( ) != SUCCESSFUL_RETURN )
diff --git a/src/QProblemB.cpp b/src/QProblemB.cpp
index 1ca44b7..3301881 100644
--- a/src/QProblemB.cpp
+++ b/src/QProblemB.cpp
@@ -2376,7 +2376,10 @@ returnValue QProblemB::solveInitialQP(	const real_t* const xOpt, const real_t* c
 	/* I) ANALYSE QP DATA: */
 	/* 1) Check if Hessian happens to be the identity matrix. */
 	if ( determineHessianType( ) != SUCCESSFUL_RETURN )
+	{
+		hessianType = HST_UNKNOWN; /* next initialisation has to check its Hessian itself */
 		return THROWERROR( RET_INIT_FAILED );
+	}
 
 	/* 2) Setup type of bounds (i.e. unbounded, implicitly fixed etc.). */
 	if ( setupSubjectToType( ) != SUCCESSFUL_RETURN )
-- 
2.43.0


From 4260a7f77bc3462d22feb310e94def991c6b8459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:30 +0000
Subject: [PATCH 56/93] fix: ramping values set by options had no effect before
 a session has been reset

---
 include/qpOASES/QProblemB.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/qpOASES/QProblemB.ipp b/include/qpOASES/QProblemB.ipp
index 2b13b10..b60d435 100644
--- a/include/qpOASES/QProblemB.ipp
+++ b/include/qpOASES/QProblemB.ipp
@@ -195,6 +195,9 @@ inline returnValue QProblemB::setOptions(	const Options& _options
 	options = _options;
 	options.ensureConsistency( );
 
+	ramp0 = options.initialRamping;
+	ramp1 = options.finalRamping;
+
 	setPrintLevel( options.printLevel );
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From c892e3e72093dfd5ad9bcf1b4eddccddccc65ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 57/93] fix: hot start without finite bounds dereferenced null
 pointers if far bounds are disabled

---
 src/QProblem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index a67227a..66770e1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2007,7 +2007,8 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 
 	for ( i=0; i<nV; i++ )
 	{
-		if ( lb_new[i] <= -INFTY && bounds.getStatus(i) == ST_LOWER )
+		/* Limits passed as null pointers are infinite. */
+		if ( ( lb_new == 0 || lb_new[i] <= -INFTY ) && bounds.getStatus(i) == ST_LOWER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -2015,7 +2016,7 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( ub_new[i] >= INFTY && bounds.getStatus(i) == ST_UPPER )
+		if ( ( ub_new == 0 || ub_new[i] >= INFTY ) && bounds.getStatus(i) == ST_UPPER )
 		{
 			returnvalue = removeBound( i, BT_TRUE, BT_FALSE, options.enableNZCTests );
 			if ( returnvalue != SUCCESSFUL_RETURN )
@@ -2023,12 +2024,12 @@ returnValue QProblem::updateActivitiesForHotstart( const real_t* const lb_new, c
 			g[i] -= y[i];
 			y[i] = 0.0;
 		}
-		if ( lb_new[i] > -INFTY && lb[i] <= -INFTY )
+		if ( lb_new != 0 && lb_new[i] > -INFTY && lb[i] <= -INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			lb[i] = x[i] - options.boundRelaxation;
 		}
-		if ( ub_new[i] < INFTY && ub[i] >= INFTY )
+		if ( ub_new != 0 && ub_new[i] < INFTY && ub[i] >= INFTY )
 		{
 			/* Now a lower bound has become finite.  To avoid numerical issues, adjust lb */
 			ub[i] = x[i] + options.boundRelaxation;
-- 
2.43.0


From fb5399ada97ae786ebddbf91a6f02a1ea3c3e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:57 +0000
Subject: [PATCH 58/93] fix: failures of the linear solver during linear
 independence tests of SQProblemSchur were taken for (in)dependence and led to
 false infeasibility verdicts

---
 src/SQProblemSchur.cpp | 7269 ++++++++++++++++++++--------------------
 1 file changed, 3641 insertions(+), 3628 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index dfbf4d8..13f19ea 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1,3628 +1,3641 @@
-/*
- *	This file is part of qpOASES.
- *
- *	qpOASES -- An Implementation of the Online Active Set Strategy.
- *	Copyright (C) 2007-2014 by Hans Joachim Ferreau, Andreas Potschka,
- *	Christian Kirches et al. All rights reserved.
- *
- *	qpOASES is free software; you can redistribute it and/or
- *	modify it under the terms of the GNU Lesser General Public
- *	License as published by the Free Software Foundation; either
- *	version 2.1 of the License, or (at your option) any later version.
- *
- *	qpOASES is distributed in the hope that it will be useful,
- *	but WITHOUT ANY WARRANTY; without even the implied warranty of
- *	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
- *	See the GNU Lesser General Public License for more details.
- *
- *	You should have received a copy of the GNU Lesser General Public
- *	License along with qpOASES; if not, write to the Free Software
- *	Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
- *
- */
-
-
-/**
- *	\file src/SQProblemSchur.cpp
- *	\author Andreas Waechter and Dennis Janka, based on QProblem.cpp by Hans Joachim Ferreau, Andreas Potschka, Christian Kirches
- *	\version 3.2
- *	\date 2012-2017
- *
- *	Implementation of the SQProblemSchur class which is able to use the newly
- *	developed online active set strategy for parametric quadratic programming.
- *	This implementation uses a Schur complement approach to solve the linear
- *	systems.
- */
-
-#include <qpOASES/SQProblemSchur.hpp>
-#include <qpOASES/LapackBlasReplacement.hpp>
-
-
-#ifndef __MATLAB__
-# include <cstdarg>
-void MyPrintf(const char* pformat, ... )
-{
-  va_list ap;
-  va_start(ap, pformat);
-
-  vfprintf(stdout, pformat, ap);
-
-  va_end(ap);
-}
-#else
-# include <mex.h>
-# define MyPrintf mexPrintf
-#endif
-
-
-BEGIN_NAMESPACE_QPOASES
-
-
-/*****************************************************************************
- *  P U B L I C                                                              *
- *****************************************************************************/
-
-
-/*
- *	Q P r o b l e m
- */
-SQProblemSchur::SQProblemSchur( ) : SQProblem( )
-{
-#ifdef SOLVER_MA57
-	sparseSolver = new Ma57SparseSolver();
-#elif defined SOLVER_MA27
-	sparseSolver = new Ma27SparseSolver();
-#elif defined SOLVER_NONE
-	sparseSolver = new DummySparseSolver();
-#endif
-
-	nSmax = 0;
-	nS = -1;
-	S = 0;
-	Q_ = 0;
-	R_ = 0;
-	detS = 0.0;
-	rcondS = 0.0;
-	schurUpdateIndex = 0;
-	schurUpdate = 0;
-	numFactorizations = 0;
-
-	M_physicallength = 0;
-	M_vals = 0;
-	M_ir = 0;
-	M_jc = 0;
-}
-
-
-/*
- *	Q P r o b l e m
- */
-SQProblemSchur::SQProblemSchur( int_t _nV, int_t _nC, HessianType _hessianType, int_t maxSchurUpdates ) 
-	: SQProblem( _nV,_nC,_hessianType, BT_FALSE )
-{
-	/* The interface to the sparse linear solver.  In the long run,
-	   different linear solvers might be optionally chosen. */
-#ifdef SOLVER_MA57
-	sparseSolver = new Ma57SparseSolver();
-#elif defined SOLVER_MA27
-	sparseSolver = new Ma27SparseSolver();
-#elif defined SOLVER_NONE
-	sparseSolver = new DummySparseSolver();
-#endif
-
-	nSmax = maxSchurUpdates;
-	nS = -1;
-	if ( nSmax > 0 )
-	{
-		S = new real_t[nSmax*nSmax];
-		schurUpdateIndex = new int_t[nSmax];
-		schurUpdate = new SchurUpdateType[nSmax];
-		Q_ = new real_t[nSmax*nSmax];
-		R_ = new real_t[nSmax*nSmax];
-		M_physicallength = 10*nSmax;  /* TODO: Decide good default. */
-		M_vals = new real_t[M_physicallength];
-		M_ir = new sparse_int_t[M_physicallength];
-		M_jc = new sparse_int_t[nSmax+1];
-		detS = 1.0;
-		rcondS = 1.0;
-	}
-	else
-	{
-		S = 0;
-		Q_ = 0;
-		R_ = 0;
-		detS = 0.0;
-		rcondS = 0.0;
-		schurUpdateIndex = 0;
-		schurUpdate = 0;
-		M_physicallength = 0;
-		M_vals = 0;
-		M_ir = 0;
-		M_jc = 0;
-	}
-	numFactorizations = 0;
-}
-
-
-/*
- *	Q P r o b l e m
- */
-SQProblemSchur::SQProblemSchur( const SQProblemSchur& rhs ) : SQProblem( rhs )
-{
-#ifdef SOLVER_MA57
-	sparseSolver = new Ma57SparseSolver();
-#elif defined SOLVER_MA27
-	sparseSolver = new Ma27SparseSolver();
-#elif defined SOLVER_NONE
-	sparseSolver = new DummySparseSolver();
-#endif
-	copy( rhs );
-}
-
-
-/*
- *	~ Q P r o b l e m
- */
-SQProblemSchur::~SQProblemSchur( )
-{
-	delete sparseSolver;
-
-	clear( );
-}
-
-
-/*
- *	o p e r a t o r =
- */
-SQProblemSchur& SQProblemSchur::operator=( const SQProblemSchur& rhs )
-{
-	if ( this != &rhs )
-	{
-		clear( );
-		SQProblem::operator=( rhs );
-		copy( rhs );
-	}
-	return *this;
-}
-
-
-/*
- *	r e s e t
- */
-returnValue SQProblemSchur::reset( )
-{
-	/* AW: We probably want to avoid resetting factorization in QProblem */
-	if ( SQProblem::reset( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_RESET_FAILED );
-
-	sparseSolver->reset();
-	nS = -1;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*****************************************************************************
- *  P R O T E C T E D                                                        *
- *****************************************************************************/
-
-/*
- *	c l e a r
- */
-returnValue SQProblemSchur::clear( )
-{
-	nSmax = 0;
-	nS = -1;
-	detS = 0.0;
-	rcondS = 0.0;
-	numFactorizations = 0;
-	delete [] S; S=0;
-	delete [] Q_; Q_=0;
-	delete [] R_; R_=0;
-	delete [] schurUpdateIndex; schurUpdateIndex=0;
-	delete [] schurUpdate; schurUpdate=0;
-	M_physicallength = 0;
-	delete [] M_vals; M_vals=0;
-	delete [] M_ir; M_ir=0;
-	delete [] M_jc; M_jc=0;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	c o p y
- */
-returnValue SQProblemSchur::copy(	const SQProblemSchur& rhs
-									)
-{
-	int_t i, j, length;
-
-	*sparseSolver = *(rhs.sparseSolver);
-
-	nS = rhs.nS;
-	nSmax = rhs.nSmax;
-	if ( nSmax > 0 )
-	{
-		detS = rhs.detS;
-		rcondS = rhs.rcondS;
-		S = new real_t[nSmax*nSmax];
-		Q_ = new real_t[nSmax*nSmax];
-		R_ = new real_t[nSmax*nSmax];
-		schurUpdateIndex = new int_t[nSmax];
-		schurUpdate = new SchurUpdateType[nSmax];
-
-		if ( nS>0 )
-		{
-			for ( i=0; i<nS; i++)
-				for ( j=0; j<nS; j++)
-				{
-					S[i*nSmax + j] = rhs.S[i*nSmax + j];
-					Q_[i*nSmax + j] = rhs.Q_[i*nSmax + j];
-					R_[i*nSmax + j] = rhs.R_[i*nSmax + j];
-				}
-
-			memcpy( schurUpdateIndex, rhs.schurUpdateIndex, ((unsigned int)nS)*sizeof(int_t));
-			memcpy( schurUpdate, rhs.schurUpdate, ((unsigned int)nS)*sizeof(SchurUpdateType));
-		}
-
-		M_physicallength = rhs.M_physicallength;
-		if ( M_physicallength>0 )
-		{
-			M_vals = new real_t[M_physicallength];
-			M_ir = new sparse_int_t[M_physicallength];
-			M_jc = new sparse_int_t[nSmax+1];
-
-			if ( nS>0 )
-			{
-				memcpy(M_jc, rhs.M_jc, ((unsigned int)(nS+1))*sizeof(sparse_int_t));
-				length = M_jc[nS];
-				memcpy(M_vals, rhs.M_vals, ((unsigned int)length)*sizeof(real_t));
-				memcpy(M_ir, rhs.M_ir, ((unsigned int)length)*sizeof(sparse_int_t));
-			}
-			else if ( nS==0 )
-				M_jc[0] = rhs.M_jc[0];
-		}
-	}
-	else
-	{
-		S = 0;
-		Q_ = 0;
-		R_ = 0;
-		detS = 0.0;
-		rcondS = 0.0;
-		schurUpdateIndex = 0;
-		schurUpdate = 0;
-		M_physicallength = 0;
-		M_vals = 0;
-		M_ir = 0;
-		M_jc = 0;
-	}
-	numFactorizations = rhs.numFactorizations;
-
-	boundsFreeStart = rhs.boundsFreeStart;
-	constraintsActiveStart = rhs.constraintsActiveStart;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p A u x i l i a r y Q P
- */
-returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
-												Matrix *A_new,
-												const real_t *lb_new,
-												const real_t *ub_new,
-												const real_t *lbA_new,
-												const real_t *ubA_new
-												)
-{
-	int_t i;
-	int_t nV = getNV( );
-	int_t nC = getNC( );
-	returnValue returnvalue;
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
-		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
-		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
-	{
-		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
-	}
-
-	status = QPS_PREPARINGAUXILIARYQP;
-
-
-	/* I) SETUP NEW QP MATRICES AND VECTORS: */
-	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
-	 *    that old optimal solution remains feasible for new QP data. */
-	/*    Firstly, shift by -A'*x_opt and ... */
-	if ( nC > 0 )
-	{
-		if ( A_new == 0 )
-			return THROWERROR( RET_INVALID_ARGUMENTS );
-
-		for ( i=0; i<nC; ++i )
-		{
-			lbA[i] = -Ax_l[i];
-			ubA[i] =  Ax_u[i];
-		}
-
-		/* Set constraint matrix as well as ... */
-		setA( A_new );
-
-		/* ... secondly, shift by +A_new'*x_opt. */
-		for ( i=0; i<nC; ++i )
-		{
-			lbA[i] += Ax[i];
-			ubA[i] += Ax[i];
-		}
-
-		/* update constraint products. */
-		for ( i=0; i<nC; ++i )
-		{
-			Ax_u[i] = ubA[i] - Ax[i];
-			Ax_l[i] = Ax[i] - lbA[i];
-		}
-	}
-
-	/* 2) Set new Hessian matrix,determine Hessian type and
-	 *    regularise new Hessian matrix if necessary. */
-	/* a) Setup new Hessian matrix and determine its type. */
-	if ( H_new != 0 )
-	{
-		setH( H_new );
-
-		hessianType = HST_UNKNOWN;
-		if ( determineHessianType( ) != SUCCESSFUL_RETURN )
-			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-		/* b) Regularise new Hessian if necessary. */
-		if ( hessianType == HST_IDENTITY )
-		{
-			regVal = 0.0; /* an identity Hessian cannot and need not be regularised */
-		}
-		else if ( ( hessianType == HST_ZERO ) ||
-			 ( hessianType == HST_SEMIDEF ) ||
-			 ( usingRegularisation( ) == BT_TRUE ) )
-		{
-			regVal = 0.0; /* reset previous regularisation */
-
-			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-		}
-	}
-	else
-	{
-		if ( H != 0 )
-			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
-	}
-
-	/* 3) Setup QP gradient. */
-	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	/* II) SETUP WORKING SET AND MATRIX FACTORISATION: */
-
-	/* 1) Check if current active set is linearly independent and has the correct inertia */
-	returnvalue = resetSchurComplement( BT_FALSE );
-	int_t neig = sparseSolver->getNegativeEigenvalues( );
-
-	if ( returnvalue == SUCCESSFUL_RETURN && neig == getNAC( ) )
-	{
-		/* a) This means the proposed working set is linearly independent and
-		 *    leaves no zero curvature exposed in the nullspace and can be used to start QP solve. */
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "In hotstart for new matrices, old working set is linearly independent and has correct inertia.\n");
-
-		status = QPS_AUXILIARYQPSOLVED;
-		return SUCCESSFUL_RETURN;
-	}
-	else if ( returnvalue == SUCCESSFUL_RETURN && neig > getNAC( ) )
-	{
-		/* b) KKT matrix has too many negative eigenvalues. Try to correct the inertia by adding bounds (reduce nullspace dimension). */
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "WARNING: In hotstart for new matrices, reduced Hessian for initial working set has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
-
-		/* If enabling inertia correction is disabled, exit here */
-		if ( options.enableInertiaCorrection )
-		{
-			returnvalue = correctInertia();
-			if ( returnvalue == SUCCESSFUL_RETURN )
-			{
-				status = QPS_AUXILIARYQPSOLVED;
-				return SUCCESSFUL_RETURN;
-			}
-		}
-		else
-			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-	}
-
-	/* 2) If inertia correction has failed or factorization yielded some other error,
-	 *    try to rebuild the active set with all simple bounds set according to initialStatusBounds
-	 *    (Note: in exact arithmetic, this cannot happen) */
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "WARNING: hotstart for old active set failed. Trying to rebuild a working set.\n");
-
-	Bounds      oldBounds      = bounds;
-	Constraints oldConstraints = constraints;
-
-	/* Move all inactive variables to a bound */
-	for ( i=0; i<nV; i++ )
-	{
-		#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
-		if ( bounds.getType( i ) == ST_EQUALITY )
-		{
-			if ( oldBounds.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-		}
-		else
-		#endif
-		{
-			if ( oldBounds.getStatus( i ) == ST_INACTIVE )
-				if ( oldBounds.setStatus( i, options.initialStatusBounds ) != SUCCESSFUL_RETURN )
-					return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-		}
-	}
-
-	/* Set all equalities active */
-	#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
-	for( i=0; i<nC; ++i )
-	{
-		if ( constraints.getType( i ) == ST_EQUALITY )
-			if ( oldConstraints.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-	}
-	#endif
-
-	/* Set all inequalities inactive */
-	for( i=0; i<nC; ++i )
-	{
-		if ( constraints.getType( i ) != ST_EQUALITY )
-			if ( oldConstraints.setStatus( i,ST_INACTIVE ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-	}
-
-	/* Reset bounds and constraints */
-	bounds.init( nV );
-	constraints.init( nC );
-
-	if ( setupSubjectToType(lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	if ( bounds.setupAllFree( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	if ( constraints.setupAllInactive( ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	/* Setup working sets afresh. */
-	if ( setupAuxiliaryWorkingSet( &oldBounds,&oldConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
-
-	/* adjust lb/ub */
-	for (int_t ii = 0; ii < nC; ++ii)
-		Ax_l[ii] = Ax_u[ii] = Ax[ii];
-	setupAuxiliaryQPbounds (&bounds, &constraints, BT_FALSE);
-
-	status = QPS_AUXILIARYQPSOLVED;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p A u x i l i a r y W o r k i n g S e t
- */
-returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBounds,
-														const Constraints* const auxiliaryConstraints,
-														BooleanType setupAfresh
-														)
-{
-	int_t i;
-	int_t nV = getNV( );
-	int_t nC = getNC( );
-
-	/* consistency checks */
-	if ( auxiliaryBounds != 0 )
-	{
-		for( i=0; i<nV; ++i )
-			if ( ( bounds.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryBounds->getStatus( i ) == ST_UNDEFINED ) )
-				return THROWERROR( RET_UNKNOWN_BUG );
-	}
-	else
-	{
-		return THROWERROR( RET_INVALID_ARGUMENTS );
-	}
-
-	if ( auxiliaryConstraints != 0 )
-	{
-		for( i=0; i<nC; ++i )
-			if ( ( constraints.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryConstraints->getStatus( i ) == ST_UNDEFINED ) )
-				return THROWERROR( RET_UNKNOWN_BUG );
-	}
-	else
-	{
-		return THROWERROR( RET_INVALID_ARGUMENTS );
-	}
-
-	/* I.) REMOVE INEQUALITY BOUNDS/CONSTRAINTS */
-
-	/* I.1) Remove inequality bounds that are active now but shall be
-	 *      inactive or active at the other bound according to auxiliaryBounds */
-	for( i=0; i<nV; ++i )
-	{
-		if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( auxiliaryBounds->getStatus( i ) != ST_LOWER ) )
-			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-
-		if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( auxiliaryBounds->getStatus( i ) != ST_UPPER ) )
-			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* I.2.) Remove inequality constraints that are active now but shall be
-	 *       inactive or active at the other bound according to auxiliaryConstraints */
-	for( i=0; i<nC; ++i )
-	{
-		if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( auxiliaryConstraints->getStatus( i ) != ST_LOWER ) )
-			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-
-		if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( auxiliaryConstraints->getStatus( i ) != ST_UPPER ) )
-			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* II.) ADD BOUNDS/CONSTRAINTS */
-
-	/* II.1.) Add bounds according to auxiliaryBounds */
-	for( i=0; i<nV; ++i )
-	{
-		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) )
-			if ( bounds.moveFreeToFixed( i, auxiliaryBounds->getStatus( i ) ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* II.2.) Add constraints according to auxiliaryConstraints */
-	for( i=0; i<nC; ++i )
-	{
-		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
-			if ( constraints.moveInactiveToActive( i,auxiliaryConstraints->getStatus( i ) ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-	}
-
-	/* III) FACTORIZATION */
-
-	/* III.1.) Factorize (resolves linear dependency) */
-	if( resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-
-	/* III.2.) Check if inertia is correct. If so, we now have a linearly independent working set with a pos def reduced Hessian */
-	int_t neig = sparseSolver->getNegativeEigenvalues( );
-	if ( neig == getNAC( ) )
-	{
-		/* We now have a linearly independent working set with a pos def reduced Hessian.
-		 * We need to correct the QP bounds and gradient after this. */
-		return SUCCESSFUL_RETURN;
-	}
-
-	/* IV.) INERTIA CORRECTION IF NECESSARY */
-
-	/* We now have a fresh factorization and can start the usual inertia correction routine */
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "WARNING: In setupAuxiliaryWorkingSet: Initial working set reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
-
-	if ( options.enableInertiaCorrection == BT_TRUE )
-		return correctInertia( );
-	else
-		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-}
-
-
-/*
- *	c h o l e s k y D e c o m p o s i t i o n P r o j e c t e d
- */
-returnValue SQProblemSchur::computeProjectedCholesky( )
-{
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	c o m p u t e I n i t i a l C h o l e s k y
- */
-returnValue SQProblemSchur::computeInitialCholesky( )
-{
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p T Q f a c t o r i s a t i o n
- */
-returnValue SQProblemSchur::setupTQfactorisation( )
-{
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	a d d C o n s t r a i n t
- */
-returnValue SQProblemSchur::addConstraint(	int_t number, 
-											SubjectToStatus C_status,
-											BooleanType updateCholesky,
-											BooleanType ensureLI
-											)
-{
-	int_t idxDeleted = -1;
-
-	/* consistency checks */
-	if ( constraints.getStatus( number ) != ST_INACTIVE )
-		return THROWERROR( RET_CONSTRAINT_ALREADY_ACTIVE );
-
-	if ( ( constraints.getNC( ) - getNAC( ) ) == constraints.getNUC( ) )
-		return THROWERROR( RET_ALL_CONSTRAINTS_ACTIVE );
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
-		 ( getStatus( ) == QPS_SOLVED )            )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-
-	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
-	 *    i.e. remove a constraint or bound if linear dependence occurs. */
-	if ( ensureLI == BT_TRUE )
-	{
-		returnValue ensureLIreturnvalue = addConstraint_ensureLI( number,C_status );
-
-		switch ( ensureLIreturnvalue )
-		{
-			case SUCCESSFUL_RETURN:
-				break;
-
-			case RET_LI_RESOLVED:
-				break;
-
-			case RET_ENSURELI_FAILED_NOINDEX:
-				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_FAILED_CYCLING:
-				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_DROPPED:
-				return SUCCESSFUL_RETURN;
-
-			default:
-				return THROWERROR( RET_ENSURELI_FAILED );
-		}
-	}
-
-	/* IV) UPDATE INDICES */
-	tabularOutput.idxAddC = number;
-	if ( constraints.moveInactiveToActive( number,C_status ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this constraint had been removed before. In that
-	   case delete this constraint from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_ConRemoved && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-			found = true;
-			idxDeleted = i;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Correct inertia if necessary. */
-			returnValue retval = resetSchurComplement( BT_TRUE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-					MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-			}
-			found = true;
-		}
-		else
-		{
-			/* If the constraint was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t* FR_idxStart;
-			boundsFreeStart.getNumberArray( &FR_idxStart );
-
-			sparse_int_t* MNpos = new sparse_int_t[nFRStart+nS]; // This is an overestimate
-			real_t* MNvals = new real_t[nFRStart+nS];
-
-			int_t* irn = new int_t[nFRStart+nS];
-			int_t* jcn = new int_t[nFRStart+nS];
-			real_t* vals = new real_t[nFRStart+nS];
-			int_t* icolsNumber = new int_t[nFRStart+nS];
-			int_t* icolsSIdx = new int_t[nS];
-
-			for ( int_t i=0; i<nFRStart; i++)
-				icolsNumber[i] = FR_idxStart[i];
-
-			int_t icolsLength = nFRStart;
-			for ( int_t i=0; i<nS; i++)
-				if ( schurUpdate[i] == SUT_VarFreed )
-				{
-					icolsNumber[icolsLength] = schurUpdateIndex[i];
-					icolsSIdx[icolsLength-nFRStart] = i;
-					icolsLength++;
-				}
-
-			if ( constraintProduct != 0 )
-			{
-				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
-				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-			}
-			int_t numNonzerosA;
-			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
-			delete [] irn;
-
-			int_t numNonzerosM = 0;
-			int_t numNonzerosN = 0;
-			for ( int_t i=0; i<numNonzerosA; i++ )
-				if ( jcn[i] < nFRStart )
-				{
-					MNpos[numNonzerosM] = jcn[i];
-					MNvals[numNonzerosM] = vals[i];
-					numNonzerosM++;
-				}
-				else
-				{
-					MNpos[nFRStart+numNonzerosN] = icolsSIdx[jcn[i]-nFRStart];
-					MNvals[nFRStart+numNonzerosN] = vals[i];
-					numNonzerosN++;
-				}
-
-			returnValue returnvalue = addToSchurComplement( number, SUT_ConAdded, numNonzerosM, MNpos, MNvals, numNonzerosN, MNpos+nFRStart, MNvals+nFRStart, 0.0 );
-
-			delete [] icolsSIdx;
-			delete [] icolsNumber;
-			delete [] vals;
-			delete [] jcn;
-			delete [] MNvals;
-			delete [] MNpos;
-
-			if ( returnvalue != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-
-			found = true;
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-
-	updateSchurQR( idxDeleted );
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR  && options.printLevel == PL_HIGH )
-				MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-
-/*
- *	a d d C o n s t r a i n t _ c h e c k L I
- */
-returnValue SQProblemSchur::addConstraint_checkLI( int_t number )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
-
-	delete [] xiB;
-	delete [] xiC;
-
-	return returnvalueCheckLI;
-}
-
-
-/*
- *	a d d C o n s t r a i n t _ c h e c k L I S c h u r
- */
-returnValue SQProblemSchur::addConstraint_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
-{
-	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
-
-	int_t ii;
-	int_t nV  = getNV( );
-	int_t nFR = getNFR( );
-	int_t nC  = getNC( );
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	int_t *FR_idx;
-
-	bounds.getFree( )->getNumberArray( &FR_idx );
-
-	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
-	{
-		/*
-		 * expensive LI test. Backsolve with refinement using special right
-		 * hand side. This gives an estimate for what should be considered
-		 * "zero". We then check linear independence relative to this estimate.
-		 */
-
-		int_t *FX_idx, *AC_idx, *IAC_idx;
-
-		real_t *delta_g   = new real_t[nV];
-		real_t *delta_xFX = new real_t[nFX];
-		real_t *delta_xFR = new real_t[nFR];
-		real_t *delta_yAC = xiC;
-		real_t *delta_yFX = xiB;
-
-		bounds.getFixed( )->getNumberArray( &FX_idx );
-		constraints.getActive( )->getNumberArray( &AC_idx );
-		constraints.getInactive( )->getNumberArray( &IAC_idx );
-
-		int_t dim = (nC>nV)?nC:nV;
-		real_t *nul = new real_t[dim];
-		for (ii = 0; ii < dim; ++ii)
-			nul[ii]=0.0;
-
-		A->getRow (number, 0, 1.0, delta_g);
-
-		returnValue dsdreturnvalue = determineStepDirection ( delta_g,
-											  nul, nul, nul, nul,
-											  BT_FALSE, BT_FALSE,
-											  delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
-			returnvalue = dsdreturnvalue;
-
-		delete[] nul;
-
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
-
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
-
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
-
-		delete[] delta_xFR;
-		delete[] delta_xFX;
-		delete[] delta_g;
-
-	}
-	return THROWINFO( returnvalue );
-}
-
-
-/*
- *	a d d C o n s t r a i n t _ e n s u r e L I
- */
-returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatus C_status )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
-
-	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return THROWERROR( RET_ENSURELI_FAILED );
-	}
-
-	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return SUCCESSFUL_RETURN;
-	}
-
- 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
-	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
-	int_t i, ii;
-
-	if ( C_status != ST_LOWER )
-	{
-		for( i=0; i<nAC; ++i )
-			xiC[i] = -xiC[i];
-		for( i=0; i<nFX; ++i )
-			xiB[i] = -xiB[i];
-	}
-
-	int_t nV  = getNV( );
-
-	int_t* FX_idx;
-	bounds.getFixed( )->getNumberArray( &FX_idx );
-
-	int_t* AC_idx;
-	constraints.getActive( )->getNumberArray( &AC_idx );
-
-	real_t* num = new real_t[nV];
-
-	real_t y_min = options.maxDualJump;
-	int_t y_min_number = -1;
-	int_t y_min_number_bound = -1;
-	BooleanType y_min_isBound = BT_FALSE;
-
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-
-	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
-
-	/* 1) Constraints. */
-	for( i=0; i<nAC; ++i )
-	{
-		ii = AC_idx[i];
-		num[i] = y[nV+ii];
-	}
-
-	performRatioTest (nAC, AC_idx, &constraints, num, xiC, options.epsNum, options.epsDen, y_min, y_min_number);
-
-	/* 2) Bounds. */
-	for( i=0; i<nFX; ++i )
-	{
-		ii = FX_idx[i];
-		num[i] = y[ii];
-	}
-
-	performRatioTest (nFX, FX_idx, &bounds, num, xiB, options.epsNum, options.epsDen, y_min, y_min_number_bound);
-
-	if ( y_min_number_bound >= 0 )
-	{
-		y_min_number = y_min_number_bound;
-		y_min_isBound = BT_TRUE;
-	}
-
-	#ifndef __XPCTARGET__
-	/* setup output preferences */
-	char messageString[80];
-	#endif
-
-	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
-	if ( y_min_number >= 0 )
-	{
-		/* Update Lagrange multiplier... */
-		for( i=0; i<nAC; ++i )
-		{
-			ii = AC_idx[i];
-			y[nV+ii] -= y_min * xiC[i];
-		}
-		for( i=0; i<nFX; ++i )
-		{
-			ii = FX_idx[i];
-			y[ii] -= y_min * xiB[i];
-		}
-
-		/* ... also for newly active constraint... */
-		if ( C_status == ST_LOWER )
-			y[nV+number] = y_min;
-		else
-			y[nV+number] = -y_min;
-
-		/* ... and for constraint to be removed. */
-		if ( y_min_isBound == BT_TRUE )
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemB = 1;
-
-			y[y_min_number] = 0.0;
-		}
-		else
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemC = 1;
-
-			y[nV+y_min_number] = 0.0;
-		}
-	}
-	else
-	{
-		if (options.enableDropInfeasibles == BT_TRUE) {
-			/* dropping of infeasible constraints according to drop priorities */
-			returnvalue = dropInfeasibles (number, C_status, BT_FALSE, xiB, xiC);
-		}
-		else
-		{
-			/* no constraint/bound can be removed => QP is infeasible! */
-			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
-			setInfeasibilityFlag( returnvalue );
-		}
-	}
-
-farewell:
-	delete[] num;
-	delete [] xiB;
-	delete [] xiC;
-
-	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-
-	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
-}
-
-
-/*
- *	a d d B o u n d
- */
-returnValue SQProblemSchur::addBound(	int_t number,
-										SubjectToStatus B_status,
-										BooleanType updateCholesky,
-										BooleanType ensureLI
-										)
-{
-	int_t idxDeleted = -1;
-
-	/* consistency checks */
-	if ( bounds.getStatus( number ) != ST_INACTIVE )
-		return THROWERROR( RET_BOUND_ALREADY_ACTIVE );
-
-	if ( getNFR( ) == bounds.getNUV( ) )
-		return THROWERROR( RET_ALL_BOUNDS_ACTIVE );
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
- 		 ( getStatus( ) == QPS_SOLVED )            )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-
-	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
-	 *    i.e. remove a constraint or bound if linear dependence occurs. */
-	if ( ensureLI == BT_TRUE )
-	{
-		returnValue ensureLIreturnvalue = addBound_ensureLI( number,B_status );
-
-		switch ( ensureLIreturnvalue )
-		{
-			case SUCCESSFUL_RETURN:
-				break;
-
-			case RET_LI_RESOLVED:
-				break;
-
-			case RET_ENSURELI_FAILED_NOINDEX:
-				return RET_ADDBOUND_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_FAILED_CYCLING:
-				return RET_ADDBOUND_FAILED_INFEASIBILITY;
-
-			case RET_ENSURELI_DROPPED:
-				return SUCCESSFUL_RETURN;
-
-			default:
-				return THROWERROR( RET_ENSURELI_FAILED );
-		}
-	}
-
-	/* II) UPDATE INDICES */
-	tabularOutput.idxAddB = number;
-	if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_ADDBOUND_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this variable had been freed before. In that
-	   case delete this variable from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_VarFreed && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_ADDBOUND_FAILED );
-			found = true;
-			idxDeleted = i;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Correct inertia if necessary. */
-			returnValue retval = resetSchurComplement( BT_TRUE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-					MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_ADDBOUND_FAILED );
-			}
-			found = true;
-		}
-		else
-		{
-			/* If the variable was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t* FR_idxStart;
-			boundsFreeStart.getNumberArray( &FR_idxStart );
-			for ( int_t i=0; i<nFRStart; i++ )
-				if ( FR_idxStart[i] == number )
-				{
-					real_t one = 1.0;
-					sparse_int_t pos = i;
-					if ( addToSchurComplement( number, SUT_VarFixed, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
-						return THROWERROR( RET_ADDBOUND_FAILED );
-					found = true;
-					break;
-				}
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_ADDBOUND_FAILED );
-
-	updateSchurQR( idxDeleted );
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-				MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	a d d B o u n d _ c h e c k L I
- */
-returnValue SQProblemSchur::addBound_checkLI( int_t number )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
-
-	delete [] xiB;
-	delete [] xiC;
-
-	return returnvalueCheckLI;
-}
-
-/*
- *	a d d B o u n d _ c h e c k L I S c h u r
- */
-returnValue SQProblemSchur::addBound_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
-{
-	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
-
-
-	int_t ii;
-	int_t nV  = getNV( );
-	int_t nFR = getNFR( );
-	int_t nC  = getNC( );
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	int_t *FR_idx;
-
-	bounds.getFree( )->getNumberArray( &FR_idx );
-
-	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
-	{
-		/*
-		 * expensive LI test. Backsolve with refinement using special right
-		 * hand side. This gives an estimate for what should be considered
-		 * "zero". We then check linear independence relative to this estimate.
-		 */
-
-		real_t *delta_g   = new real_t[nV];
-		real_t *delta_xFX = new real_t[nFX];
-		real_t *delta_xFR = new real_t[nFR];
-		real_t *delta_yAC = xiC;
-		real_t *delta_yFX = xiB;
-
-		for (ii = 0; ii < nV; ++ii)
-			delta_g[ii] = 0.0;
-		delta_g[number] = 1.0;
-
-		int_t dim = (nC>nV)?nC:nV;
-		real_t *nul = new real_t[dim];
-		for (ii = 0; ii < dim; ++ii)
-			nul[ii]=0.0;
-
-		returnValue dsdReturnValue = determineStepDirection (
-				delta_g, nul, nul, nul, nul, BT_FALSE, BT_FALSE,
-				delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (dsdReturnValue != SUCCESSFUL_RETURN)
-			returnvalue = dsdReturnValue;
-
-		/* compute the weight in inf-norm */
-		real_t weight = 0.0;
-		for (ii = 0; ii < nAC; ++ii)
-		{
-			real_t a = getAbs (delta_yAC[ii]);
-			if (weight < a) weight = a;
-		}
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_yFX[ii]);
-			if (weight < a) weight = a;
-		}
-
-		/* look at the "zero" in a relative inf-norm */
-		real_t zero = 0.0;
-		for (ii = 0; ii < nFX; ++ii)
-		{
-			real_t a = getAbs (delta_xFX[ii]);
-			if (zero < a) zero = a;
-		}
-		for (ii = 0; ii < nFR; ++ii)
-		{
-			real_t a = getAbs (delta_xFR[ii]);
-			if (zero < a) zero = a;
-		}
-
-		/* relative test against zero in inf-norm */
-		if (zero > options.epsLITests * weight)
-			returnvalue = RET_LINEARLY_INDEPENDENT;
-
-		delete[] nul;
-		delete[] delta_xFR;
-		delete[] delta_xFX;
-		delete[] delta_g;
-
-	}
-	return THROWINFO( returnvalue );
-}
-
-
-/*
- *	a d d B o u n d _ e n s u r e L I
- */
-returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_status )
-{
-	/* Get space for the multipliers xi in linear independence test */
-	int_t nAC = getNAC();
-	int_t nFX = getNFX();
-	real_t *xiC = new real_t[nAC];
-	real_t *xiB = new real_t[nFX];
-
-	/* I) Check if new constraint is linearly independent from the active ones. */
-	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
-
-	if ( returnvalueCheckLI == RET_INDEXLIST_CORRUPTED )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return THROWERROR( RET_ENSURELI_FAILED );
-	}
-
-	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
-	{
-		delete [] xiB;
-		delete [] xiC;
-		return SUCCESSFUL_RETURN;
-	}
-
- 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
-	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
-	int_t i, ii;
-
-	if ( B_status != ST_LOWER )
-	{
-		for( i=0; i<nAC; ++i )
-			xiC[i] = -xiC[i];
-		for( i=0; i<nFX; ++i )
-			xiB[i] = -xiB[i];
-	}
-
-	int_t nV  = getNV( );
-
-	int_t* FX_idx;
-	bounds.getFixed( )->getNumberArray( &FX_idx );
-
-	int_t* AC_idx;
-	constraints.getActive( )->getNumberArray( &AC_idx );
-
-	real_t* num = new real_t[nV];
-
-	real_t y_min = options.maxDualJump;
-	int_t y_min_number = -1;
-	int_t y_min_number_bound = -1;
-	BooleanType y_min_isBound = BT_FALSE;
-
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-
-	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
-
-	/* 1) Constraints. */
-	for( i=0; i<nAC; ++i )
-	{
-		ii = AC_idx[i];
-		num[i] = y[nV+ii];
-	}
-
-	performRatioTest( nAC,AC_idx,&constraints, num,xiC, options.epsNum, options.epsDen, y_min,y_min_number );
-
-	/* 2) Bounds. */
-	for( i=0; i<nFX; ++i )
-	{
-		ii = FX_idx[i];
-		num[i] = y[ii];
-	}
-
-	performRatioTest( nFX,FX_idx,&bounds, num,xiB, options.epsNum, options.epsDen, y_min,y_min_number_bound );
-
-	if ( y_min_number_bound >= 0 )
-	{
-		y_min_number = y_min_number_bound;
-		y_min_isBound = BT_TRUE;
-	}
-
-	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
-	char messageString[80];
-
-	if ( y_min_number >= 0 )
-	{
-		/* Update Lagrange multiplier... */
-		for( i=0; i<nAC; ++i )
-		{
-			ii = AC_idx[i];
-			y[nV+ii] -= y_min * xiC[i];
-		}
-		for( i=0; i<nFX; ++i )
-		{
-			ii = FX_idx[i];
-			y[ii] -= y_min * xiB[i];
-		}
-
-		/* ... also for newly active bound ... */
-		if ( B_status == ST_LOWER )
-			y[number] = y_min;
-		else
-			y[number] = -y_min;
-
-		/* ... and for bound to be removed. */
-		if ( y_min_isBound == BT_TRUE )
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemB = 1;
-
-			y[y_min_number] = 0.0;
-		}
-		else
-		{
-			#ifndef __XPCTARGET__
-			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
-			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-			#endif
-
-			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
-				goto farewell;
-			}
-			tabularOutput.excRemC = 1;
-
-			y[nV+y_min_number] = 0.0;
-		}
-	}
-	else
-	{
-		if (options.enableDropInfeasibles == BT_TRUE) {
-			/* dropping of infeasible constraints according to drop priorities */
-			returnvalue = dropInfeasibles (number, B_status, BT_TRUE, xiB, xiC);
-		}
-		else
-		{
-			/* no constraint/bound can be removed => QP is infeasible! */
-			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
-			setInfeasibilityFlag( returnvalue );
-		}
-	}
-
-farewell:
-	delete[] num;
-	delete[] xiB;
-	delete[] xiC;
-
-	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
-
-	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
-}
-
-
-
-/*
- *	r e m o v e C o n s t r a i n t
- */
-returnValue SQProblemSchur::removeConstraint(	int_t number,
-												BooleanType updateCholesky,
-												BooleanType allowFlipping,
-												BooleanType ensureNZC
-												)
-{
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-
-	int_t sModType = 0;
-	int_t idxDeleted = -1;
-	SubjectToStatus oldStatus;
-	real_t oldDet, newDet;
-
-	/* consistency check */
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
- 		 ( getStatus( ) == QPS_SOLVED )            )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-	/* some definitions */
-	int_t nAC = getNAC( );
-	int_t number_idx = constraints.getActive( )->getIndex( number );
-
-	int_t addIdx;
-	BooleanType addBoundNotConstraint;
-	SubjectToStatus addStatus;
-	BooleanType exchangeHappened = BT_FALSE;
-
-
-	/* consistency checks */
-	if ( constraints.getStatus( number ) == ST_INACTIVE )
-		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
-
-	if ( ( number_idx < 0 ) || ( number_idx >= nAC ) )
-		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
-
-	/* N) PERFORM ZERO CURVATURE TEST. */
-	if (ensureNZC == BT_TRUE)
-	{
-		returnvalue = ensureNonzeroCurvature(BT_FALSE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
-
-		if (returnvalue != SUCCESSFUL_RETURN)
-			return returnvalue;
-	}
-
-	/* save old constraint status and determinant of old S for flipping strategy */
-	oldStatus = constraints.getStatus( number );
-	oldDet = detS;
-
-	/* I) UPDATE INDICES */
-	tabularOutput.idxRemC = number;
-	if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this constraint had been added before. In that
-	   case delete this constraint from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_ConAdded && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-			found = true;
-			idxDeleted = i;
-			sModType = 2;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Don't check inertia here, may be corrected later! */
-			returnValue retval = resetSchurComplement( BT_FALSE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-					MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-			}
-			found = true;
-			sModType = 3;
-		}
-		else
-		{
-			/* If the constraint was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t nACStart = constraintsActiveStart.getLength();
-			int_t* AC_idxStart;
-			constraintsActiveStart.getNumberArray( &AC_idxStart );
-
-			for ( int_t i=0; i<nACStart; i++ )
-				if ( AC_idxStart[i] == number )
-				{
-					real_t one = 1.0;
-					sparse_int_t pos = nFRStart+i;
-					if ( addToSchurComplement( number, SUT_ConRemoved, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-					found = true;
-					break;
-				}
-
-			sModType = 1;
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-
-	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
-
-	/* Flipping bounds strategy */
-	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
-	{
-		if ( sModType == 1 )
-		{/* Case 1: We added a row and column to S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet > 0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				nS--;
-
-				/* Flip bounds */
-				tabularOutput.idxAddC = number;
-				tabularOutput.excAddC = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						constraints.moveInactiveToActive( number, ST_UPPER );
-						ubA[number] = lbA[number];
-						Ax_l[number] = -Ax_u[number];
-						break;
-					case ST_UPPER:
-						constraints.moveInactiveToActive( number, ST_LOWER );
-						lbA[number] = ubA[number];
-						Ax_u[number] = -Ax_l[number];
-						break;
-					default:
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (larger) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 2 )
-		{/* Case 2: We deleted a row and column of S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet < 0.0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				undoDeleteFromSchurComplement( idxDeleted );
-
-				/* Flip bounds */
-				tabularOutput.idxAddC = number;
-				tabularOutput.excAddC = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						constraints.moveInactiveToActive( number, ST_UPPER );
-						ubA[number] = lbA[number];
-						Ax_l[number] = -Ax_u[number];
-						break;
-					case ST_UPPER:
-						constraints.moveInactiveToActive( number, ST_LOWER );
-						lbA[number] = ubA[number];
-						Ax_u[number] = -Ax_l[number];
-						break;
-					default:
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (smaller) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 3 )
-		{/* Case 3: S was reset. */
-
-			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
-			int_t neig = sparseSolver->getNegativeEigenvalues( );
-			if( neig > getNAC( ) ) // Wrong inertia!
-			{
-				/* Flip bounds and update Schur complement */
-				tabularOutput.idxAddC = number;
-				tabularOutput.excAddC = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						ubA[number] = lbA[number];
-						Ax_l[number] = -Ax_u[number];
-						addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE );
-						break;
-					case ST_UPPER:
-						lbA[number] = ubA[number];
-						Ax_u[number] = -Ax_l[number];
-						addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE );
-						break;
-					default:
-						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-				}
-			}
-
-			/* Check if flipping deleted the negative eigenvalue */
-			if( correctInertia( ) )
-				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-		}
-		else
-		{/* None of the three cases happened */
-			return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
-		}
-	}
-	else
-	{/* No flipping strategy, update QR factorization of S */
-		updateSchurQR( idxDeleted );
-	}
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-				MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	if ( exchangeHappened == BT_TRUE )
-	{
-		/* add bound or constraint */
-
-		if ( addBoundNotConstraint )
-		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddB = 1;
-		}
-		else
-		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddC = 1;
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	r e m o v e B o u n d
- */
-returnValue SQProblemSchur::removeBound(	int_t number,
-											BooleanType updateCholesky,
-											BooleanType allowFlipping,
-											BooleanType ensureNZC
-											)
-{
-	returnValue returnvalue = SUCCESSFUL_RETURN;
-	int_t addIdx;
-	BooleanType addBoundNotConstraint;
-	SubjectToStatus addStatus;
-	BooleanType exchangeHappened = BT_FALSE;
-
-	int_t sModType = 0;
-	int_t idxDeleted = -1;
-	SubjectToStatus oldStatus;
-	real_t oldDet, newDet;
-
-	/* consistency checks */
-	if ( bounds.getStatus( number ) == ST_INACTIVE )
-		return THROWERROR( RET_BOUND_NOT_ACTIVE );
-
-	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
-		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
-		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
- 		 ( getStatus( ) == QPS_SOLVED )           )
-	{
-		return THROWERROR( RET_UNKNOWN_BUG );
-	}
-
-	/* N) PERFORM ZERO CURVATURE TEST. */
-	if (ensureNZC == BT_TRUE)
-	{
-		returnvalue = ensureNonzeroCurvature(BT_TRUE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
-
-		if (returnvalue != SUCCESSFUL_RETURN)
-			return returnvalue;
-	}
-
-	/* save old bound status and determinant of old S for flipping strategy */
-	oldStatus = bounds.getStatus( number );
-	oldDet = detS;
-
-	/* I) UPDATE INDICES */
-	tabularOutput.idxRemB = number;
-	if ( bounds.moveFixedToFree( number ) != SUCCESSFUL_RETURN )
-		return THROWERROR( RET_REMOVEBOUND_FAILED );
-
-	/* Also update the Schur complement. */
-
-	/* First check if this variable had been fixed before. In that
-	   case delete this variable from the Schur complement. */
-	bool found = false;
-	for ( int_t i=0; i<nS; i++ )
-	{
-		if ( schurUpdate[i] == SUT_VarFixed && number == schurUpdateIndex[i] )
-		{
-			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-			found = true;
-			idxDeleted = i;
-			sModType = 2;
-			break;
-		}
-	}
-	if ( !found )
-	{
-		if ( nS < 0 || nS==nSmax )
-		{
-			/* The schur complement has become too large, reset. */
-			/* Don't correct inertia here, may be corrected by flipping bounds! */
-			returnValue retval = resetSchurComplement( BT_FALSE );
-			if ( retval != SUCCESSFUL_RETURN )
-			{
-				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH  )
-					MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
-				else if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-			}
-			found = true;
-			sModType = 3;
-		}
-		else
-		{
-			/* If the variable was not yet in Schur complement, add it now. */
-			int_t nFRStart = boundsFreeStart.getLength();
-			int_t nACStart = constraintsActiveStart.getLength();
-			int_t* FR_idxStart;
-			boundsFreeStart.getNumberArray( &FR_idxStart );
-			int_t* AC_idxStart;
-			constraintsActiveStart.getNumberArray( &AC_idxStart );
-
-			int_t numNonzerosM = 0;
-			sparse_int_t* Mpos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
-			real_t* Mvals = new real_t[nFRStart+nACStart+nS];
-			int_t numNonzerosN = 0;
-			sparse_int_t* Npos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
-			real_t* Nvals = new real_t[nFRStart+nACStart+nS];
-			real_t N_diag;
-
-			int_t* irn = new int_t[nFRStart+nACStart+nS+1];
-			int_t* jcn = new int_t[nFRStart+nACStart+nS+1];
-			real_t* vals = new real_t[nFRStart+nACStart+nS+1];
-			int_t iLength;
-			int_t* iNumber = new int_t[nFRStart+nACStart+nS+1];
-			int_t numNonzeros;
-			int_t* iSIdx = new int_t[nS];
-
-			/* First the Hessian part. */
-			real_t regularisation = options.epsRegularisation;
-			switch ( hessianType )
-			{
-				case HST_ZERO:
-					N_diag = regularisation;
-					break;
-
-				case HST_IDENTITY:
-					N_diag = 1.0 + regularisation;
-					break;
-
-				default:
-					N_diag = regularisation;
-					for ( int_t i=0; i<nFRStart; i++ )
-						iNumber[i] = FR_idxStart[i];
-					iLength = nFRStart;
-					for ( int_t i=0; i<nS; i++ )
-						if ( schurUpdate[i] == SUT_VarFreed )
-						{
-							iNumber[iLength] = schurUpdateIndex[i];
-							iSIdx[iLength-nFRStart] = i;
-							iLength++;
-						}
-					iNumber[iLength++] = number;
-
-					H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
-
-					for ( int_t i=0; i<numNonzeros; i++ )
-					{
-						if ( irn[i] < nFRStart )
-						{
-							Mpos[numNonzerosM] = irn[i];
-							Mvals[numNonzerosM] = vals[i];
-							numNonzerosM++;
-						}
-						else if ( irn[i] != iLength-1 )
-						{
-							Npos[numNonzerosN] = iSIdx[irn[i] - nFRStart];
-							Nvals[numNonzerosN] = vals[i];
-							numNonzerosN++;
-						}
-						else
-							N_diag += vals[i];
-					}
-					break;
-			}
-
-			if ( constraintProduct != 0 )
-			{
-				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
-				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-			}
-
-			for ( int_t i=0; i<nACStart; i++ )
-				iNumber[i] = AC_idxStart[i];
-			iLength = nACStart;
-			for ( int_t i=0; i<nS; i++ )
-				if ( schurUpdate[i] == SUT_ConAdded )
-				{
-					iNumber[iLength] = schurUpdateIndex[i];
-					iSIdx[iLength-nACStart] = i;
-					iLength++;
-				}
-
-			A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
-
-			for ( int_t i=0; i<numNonzeros; i++ )
-			{
-				if ( irn[i] < nACStart )
-				{
-					Mpos[numNonzerosM] = irn[i] + nFRStart;
-					Mvals[numNonzerosM] = vals[i];
-					numNonzerosM++;
-				}
-				else
-				{
-					Npos[numNonzerosN] = iSIdx[irn[i] - nACStart];
-					Nvals[numNonzerosN] = vals[i];
-					numNonzerosN++;
-				}
-			}
-
-			delete [] iSIdx;
-			delete [] iNumber;
-			delete [] vals;
-			delete [] jcn;
-			delete [] irn;
-
-			returnvalue = addToSchurComplement( number, SUT_VarFreed, numNonzerosM, Mpos, Mvals, numNonzerosN, Npos, Nvals, N_diag );
-
-			delete [] Mvals;
-			delete [] Mpos;
-			delete [] Nvals;
-			delete [] Npos;
-
-			if ( returnvalue != SUCCESSFUL_RETURN )
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-
-			found = true;
-			sModType = 1;
-		}
-	}
-
-	if ( !found )
-		return THROWERROR( RET_REMOVEBOUND_FAILED );
-
-	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
-
-	/* Flipping bounds strategy */
-	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
-	{
-		if ( sModType == 1 )
-		{/* Case 1: We added a row and column to S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet > 0.0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				nS--;
-
-				/* Flip bounds */
-				tabularOutput.idxAddB = number;
-				tabularOutput.excAddB = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						bounds.moveFreeToFixed( number, ST_UPPER );
-						ub[number] = lb[number];
-						break;
-					case ST_UPPER:
-						bounds.moveFreeToFixed( number, ST_LOWER );
-						lb[number] = ub[number];
-						break;
-					default:
-						return THROWERROR( RET_MOVING_BOUND_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (larger) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 2 )
-		{/* Case 2: We deleted a row and column of S. */
-
-			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
-			newDet = calcDetSchur( idxDeleted );
-
-			if ( oldDet * newDet < 0.0 )
-			{
-				hessianType = HST_SEMIDEF;
-
-				/* Restore old S */
-				undoDeleteFromSchurComplement( idxDeleted );
-
-				/* Flip bounds */
-				tabularOutput.idxAddB = number;
-				tabularOutput.excAddB = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						bounds.moveFreeToFixed( number, ST_UPPER );
-						ub[number] = lb[number];
-						break;
-					case ST_UPPER:
-						bounds.moveFreeToFixed( number, ST_LOWER );
-						lb[number] = ub[number];
-						break;
-					default:
-						return THROWERROR( RET_MOVING_BOUND_FAILED );
-				}
-			}
-			else
-			{/* Determinants have the correct sign, compute QR of new (smaller) S */
-				updateSchurQR( idxDeleted );
-			}
-		}
-		else if ( sModType == 3 )
-		{/* Case 3: S was reset. */
-
-			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
-			int_t neig = sparseSolver->getNegativeEigenvalues( );
-			if( neig > getNAC( ) ) // Wrong inertia, flip bounds!
-			{
-				/* Flip bounds and update Schur complement */
-				tabularOutput.idxAddB = number;
-				tabularOutput.excAddB = 2;
-				switch ( oldStatus )
-				{
-					case ST_LOWER:
-						ub[number] = lb[number];
-						addBound( number, ST_UPPER, BT_TRUE, BT_FALSE );
-						break;
-					case ST_UPPER:
-						lb[number] = ub[number];
-						addBound( number, ST_LOWER, BT_TRUE, BT_FALSE );
-						break;
-					default:
-						return THROWERROR( RET_MOVING_BOUND_FAILED );
-				}
-			}
-
-			/* Check if flipping deleted the negative eigenvalue */
-			if( correctInertia( ) )
-				return THROWERROR( RET_REMOVEBOUND_FAILED );
-		}
-		else
-		{/* None of the three cases happened */
-			return THROWERROR( RET_REMOVEBOUND_FAILED );
-		}
-	}
-	else
-	{/* No flipping strategy, update QR factorization of S */
-		updateSchurQR( idxDeleted );
-	}
-
-	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
-	if( rcondS < options.rcondSMin )
-	{
-		returnValue retval = resetSchurComplement( BT_TRUE );
-		if ( retval != SUCCESSFUL_RETURN )
-		{
-			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
-				MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
-			else if ( options.printLevel == PL_HIGH )
-				MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
-			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
-		}
-	}
-
-	if ( exchangeHappened == BT_TRUE )
-	{
-		/* add bound or constraint */
-
-		if ( addBoundNotConstraint )
-		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddB = 1;
-		}
-		else
-		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
-			tabularOutput.excAddC = 1;
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	s e t u p T Q f a c t o r i s a t i o n
- */
-returnValue SQProblemSchur::backsolveT( const real_t* const b, BooleanType transposed, real_t* const a ) const
-{
-	return THROWERROR( RET_UNKNOWN_BUG );
-}
-
-
-/*
- *	b a c k s o l v e R
- */
-returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, real_t* const a 	) const
-{
-	return THROWERROR( RET_UNKNOWN_BUG );
-}
-
-
-/*
- *	b a c k s o l v e R
- */
-returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, BooleanType removingBound, real_t* const a ) const
-{
-	return THROWERROR( RET_UNKNOWN_BUG );
-}
-
-
-/*
- *	c a l c D e t S c h u r
- */
-real_t SQProblemSchur::calcDetSchur( int_t idxDel )
-{
-	if ( nS <= 0 )
-		return 1.0;
-
-	real_t newDet;
-	int_t i, j;
-	real_t c, s, nu;
-
-	/* Case 1: S has been bordered by one row and column */
-	if( idxDel < 0 )
-	{
-		/* Do a solve with the old S to check determinant of new (bordered) S */
-		real_t *temp1 = new real_t[nS-1];
-		real_t *temp2 = new real_t[nS-1];
-		for( i=0; i<nS-1; i++ )
-			temp1[i] = S[i + (nS-1)*nSmax];
-		backsolveSchurQR( nS-1, temp1, 1, temp2 );
-
-		newDet = S[(nS-1) + (nS-1)*nSmax];
-		for( i=0; i<nS-1; i++ )
-			newDet -= temp1[i]*temp2[i];
-		newDet *= detS;
-		delete [] temp1;
-		delete [] temp2;
-	}
-	/* Case 2: row and column idxDel have been deleted from S */
-	else
-	{
-		const int_t dim = nS+1;
-		real_t *tempR = new real_t[dim*(dim-1)];
-		real_t *tempColQ = new real_t[dim];
-
-		/* Copy current R without column idxDel*/
-		for( j=0; j<idxDel; j++ )
-			for( i=0; i<dim; i++ )
-				tempR[i+j*dim] = R_[i+j*nSmax];
-		for( j=idxDel; j<dim-1; j++ )
-			for( i=0; i<dim; i++ )
-				tempR[i+j*dim] = R_[i+(j+1)*nSmax];
-		/* Copy row idxDel of Q */
-		for( j=0; j<dim; j++ )
-			tempColQ[j] = Q_[idxDel+j*nSmax];
-
-		/* Bring tempR to triangular form with nS-idxDel Givens rotations */
-		for ( i=idxDel; i<nS; i++ )
-		{
-			computeGivens( tempR[i+i*dim], tempR[(i+1)+i*dim], tempR[i+i*dim], tempR[(i+1)+i*dim], c, s );
-			nu = s/(1.0+c);
-			/// \todo I think we do not need to transform all columns of R, i+3 or so should be sufficient
-			for ( j=i+1; j<nS; j++ )
-				applyGivens( c, s, nu, tempR[i+j*dim], tempR[(i+1)+j*dim], tempR[i+j*dim], tempR[(i+1)+j*dim] );
-
-			/* Simultaneously transform relevant column of Q**T */
-			applyGivens( c, s, nu, tempColQ[i], tempColQ[i+1], tempColQ[i], tempColQ[i+1] );
-		}
-
-		/* Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
-		for ( i=nS; i>0; i-- )
-		{
-			computeGivens( tempColQ[nS], tempColQ[i-1], tempColQ[nS], tempColQ[i-1], c, s );
-			nu = s/(1.0+c);
-
-			/* Simultaneously transform diagonal elements of R (coldim is already one less than Q) */
-			applyGivens( c, s, nu, tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim], tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim] );
-		}
-
-		/* Note that we implicitly did a row permutation of Q.
-		 * If we did an  odd permutation AND deleted a positive unity vector or
-		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
-		 * ->Change signs of first column of Q and first row of R */
-		if ( (( (nS - idxDel) % 2 == 1 ) && ( tempColQ[nS] > 0.0 )) ||
-			(( (nS - idxDel) % 2 == 0 ) && ( tempColQ[nS] < 0.0 )) )
-		{
-			tempR[0] = -tempR[0];
-		}
-
-		newDet = 1.0;
-		//for( i=0; i<nS; i++ )
-			//newDet *= tempR[i+i*dim];
-		for( i=0; i<nS; i++ )
-			if( tempR[i+i*dim] < 0.0 ) newDet = -newDet;
-		delete [] tempR;
-		delete [] tempColQ;
-	}
-
-	return newDet;
-}
-
-
-/*
- *	u p d a t e S c h u r Q R
- */
-returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
-{
-	int_t i, j;
-	real_t c, s, nu;
-
-	if ( nS <= 0 )
-	{
-		detS = 1.0;
-		rcondS = 1.0;
-		return SUCCESSFUL_RETURN;
-	}
-
-	/* Case 1: S has been bordered by one row and column */
-	if ( idxDel < 0 )
-	{
-		/* I: Augment Q**T by nS-th unity vector (row and column) */
-		for ( i=0; i<nS; i++ )
-		{
-			Q_[i+(nS-1)*nSmax] = 0.0;
-			Q_[(nS-1)+i*nSmax] = 0.0;
-		}
-		Q_[(nS-1)+(nS-1)*nSmax] = 1.0;
-
-		/* IIa: Augment rows of R by last row of S */
-		for ( i=0; i<nS; i++ )
-			R_[(nS-1)+i*nSmax] = S[(nS-1)+i*nSmax];
-
-		/* IIb: Augment columns of R by Q**T * S[nS,:] */
-		for ( i=0; i<nS; i++ )
-		{
-			R_[i+(nS-1)*nSmax] = 0.0;
-			for ( j=0; j<nS; j++ )
-				R_[i+(nS-1)*nSmax] += Q_[j+i*nSmax] * S[j+(nS-1)*nSmax];
-		}
-
-		/* III: Restore triangular form of R by nS-1 Givens rotations */
-		for ( i=0; i<nS-1; i++ )
-		{
-			computeGivens( R_[i+i*nSmax], R_[(nS-1)+i*nSmax], R_[i+i*nSmax], R_[(nS-1)+i*nSmax], c, s );
-			nu = s/(1.0+c);
-			for ( j=i+1; j<nS; j++ )
-				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(nS-1)+j*nSmax], R_[i+j*nSmax], R_[(nS-1)+j*nSmax] );
-
-			/* Simultaneously transform Q**T */
-			for ( j=0; j<nS; j++ )
-				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax], Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax] );
-		}
-	}
-	/* Case 2: row and column idxDel have been deleted from S */
-	else
-	{
-		/* I: Delete column idxDel of R */
-		for ( j=idxDel; j<nS; j++ )
-			for ( i=0; i<nS+1; i++ )
-				R_[i+j*nSmax] = R_[i+(j+1)*nSmax];
-
-		/* II: Bring R back to triangular form with nS-idxDel Givens rotations */
-		for ( i=idxDel; i<nS; i++ )
-		{
-			computeGivens( R_[i+i*nSmax], R_[(i+1)+i*nSmax], R_[i+i*nSmax], R_[(i+1)+i*nSmax], c, s );
-			nu = s/(1.0+c);
-			for ( j=i+1; j<nS; j++ )
-				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(i+1)+j*nSmax], R_[i+j*nSmax], R_[(i+1)+j*nSmax] );
-
-			/* Simultaneously transform (old) Q**T (coldim is one larger)*/
-			for ( j=0; j<nS+1; j++ )
-				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(i+1)*nSmax], Q_[j+i*nSmax], Q_[j+(i+1)*nSmax] );
-		}
-
-		/* III: Permute rows of Q: move row idxDel to position nS */
-		real_t temp;
-		for ( j=0; j<nS+1; j++ )
-		{
-			temp = Q_[idxDel+j*nSmax];
-			for ( i=idxDel; i<nS; i++ )
-				Q_[i+j*nSmax] = Q_[(i+1)+j*nSmax];
-			Q_[nS+j*nSmax] = temp;
-		}
-
-		/* IV: Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
-		for ( i=nS; i>0; i-- )
-		{
-			computeGivens( Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], c, s );
-			nu = s/(1.0+c);
-			for ( j=0; j<nS; j++ )
-				applyGivens( c, s, nu, Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax], Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax] );
-
-			/* Simultaneously transform R (coldim is already one less than Q) */
-			for ( j=i-1; j<nS; j++ )
-				applyGivens( c, s, nu, R_[nS+j*nSmax], R_[(i-1)+j*nSmax], R_[nS+j*nSmax], R_[(i-1)+j*nSmax] );
-		}
-
-		/* If we did an  odd permutation AND deleted a positive unity vector or
-		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
-		 * ->Change signs of first column of Q and first row of R s.t. we always maintain det(Q)=1 */
-		if ( (( (nS - idxDel) % 2 == 1 ) && ( Q_[nS+nS*nSmax] > 0.0 )) ||
-			(( (nS - idxDel) % 2 == 0 ) && ( Q_[nS+nS*nSmax] < 0.0 )) )
-		{
-			for ( i=0; i<nS+1; i++ )
-				Q_[i] = -Q_[i];
-			for ( i=0; i<nS; i++ )
-				R_[i*nSmax] = -R_[i*nSmax];
-		}
-	}
-
-	/* Compute determinant */
-	detS = 1.0;
-	//for ( i=0; i<nS; i++ )
-		//detS *= R_[i+i*nSmax];
-	for ( i=0; i<nS; i++ )
-		if( R_[i+i*nSmax] < 0.0 ) detS = -detS;
-
-	/* Estimate condition number of R (= condition number of S)*/
-	real_t *WORK;
-	unsigned long N = (unsigned long)nS;
-	unsigned long LDA = (unsigned long)nSmax;
-	unsigned long *IWORK;
-	long INFO = 0;
-	IWORK = new unsigned long[N];
-	WORK = new real_t[3*N];
-	TRCON( "1", "U", "N", &N, R_, &LDA, &rcondS, WORK, IWORK, &INFO );
-	if ( INFO != 0 )
-	{
-		MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
-	}
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "1/cond(S) = %23.16e.\n", rcondS );
-
-	delete[] IWORK;
-	delete[] WORK;
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-/*
- *	b a c k s o l v e S c h u r Q R
- */
-returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rhs, int_t dimRhs, real_t* const sol )
-{
-	if( dimS < 1 || dimRhs < 1 )
-		return SUCCESSFUL_RETURN;
-
-	if( dimRhs > 1 )
-	{
-		MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
-		return RET_QR_FACTORISATION_FAILED;
-	}
-
-	int_t i, j;
-	long INFO = 0;
-	unsigned long NRHS = 1;
-	unsigned long M = (unsigned long)dimS;
-	unsigned long LDA = (unsigned long)nSmax;
-	unsigned long LDC = (unsigned long)dimS;
-
-	for( i=0; i<dimS; i++ )
-		sol[i] = 0.0;
-
-	/* Compute sol = Q**T * rhs */
-	for( i=0; i<dimS; i++ )
-		for( j=0; j<dimS; j++ )
-			sol[i] += Q_[j+i*nSmax] * rhs[j];
-
-	/* Solve Rx = sol */
-	TRTRS( "U", "N", "N", &M, &NRHS, R_, &LDA, sol, &LDC, &INFO );
-	if ( INFO != 0 )
-	{
-		MyPrintf("TRTRS returns INFO = %d\n", INFO);
-		if ( INFO == ((long)0xDEADBEEF) )
-			MyPrintf( "If SQProblemSchur is to be used, system LAPACK must be used instead of the qpOASES LAPACK replacement" );
-		return RET_QR_FACTORISATION_FAILED;
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-returnValue SQProblemSchur::stepCalcRhs(	int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, real_t& rhs_max, 
-											const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
-											const real_t* const delta_lb, const real_t* const delta_ub,
-											BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
-											real_t* const delta_xFX, real_t* const delta_xFR,
-											real_t* const delta_yAC, real_t* const delta_yFX
-											)
-{
-	int_t i, ii;
-	returnValue retval;
-
-	if ( nS < 0 )
-	{
-		retval = resetSchurComplement( BT_FALSE );
-		if (retval != SUCCESSFUL_RETURN)
-		{
-			MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
-			return THROWERROR( retval );
-		}
-	}
-
-	/* tempA and tempB hold the residuals in gFR and bA (= lbA or ubA)
-	 * delta_xFR, delta_yAC hold the steps that get refined */
-	for ( i=0; i<nFR; ++i )
-	{
-		ii = FR_idx[i];
-		tempA[i] = delta_g[ii];
-		delta_xFR[i] = 0.0;
-	}
-	for ( i=0; i<nAC; ++i )
-		delta_yAC[i] = 0.0;
-	if ( Delta_bC_isZero == BT_FALSE )
-	{
-		for ( i=0; i<nAC; ++i )
-		{
-			ii = AC_idx[i];
-			if ( constraints.getStatus( ii ) == ST_LOWER )
-				tempB[i] = delta_lbA[ii];
-			else
-				tempB[i] = delta_ubA[ii];
-		}
-	}
-	else
-	{
-		for ( i=0; i<nAC; ++i )
-			tempB[i] = 0.0;
-	}
-	if ( ( hessianType != HST_IDENTITY ) && ( hessianType != HST_ZERO ) )
-	{
-		/* tempA becomes RHS for reduced augmented system, gFR+H_FX*delta_xFR */
-		H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
-	}
-	/* tempB becomes RHS for reduced augmented system, bA-A_CX*delta_xFR */
-	A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
-
-	/* If iterative refinement is requested, compute max-norm of RHS for termination test. */
-	rhs_max = 0.0;
-	if ( options.numRefinementSteps > 0 )
-	{
-		for ( i=0; i<nFR; i++ )
-			rhs_max = getMax(rhs_max, getAbs(tempA[i]));
-		for ( i=0; i<nAC; i++ )
-			rhs_max = getMax(rhs_max, getAbs(tempB[i]));
-	}
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcReorder(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* rhs)
-{
-	int_t i, ii;
-	/* Reorder information for the new to the old free variables. */
-	i = 0;
-	ii = 0;
-	while ( ii < nFRStart )
-	{
-		if ( i == nFR )
-			rhs[FR_iSortStart[ii++]] = 0.0;
-		else
-		{
-			int_t idx = FR_idx[FR_iSort[i]];
-			int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
-
-			if ( idx == idxStart )
-				rhs[FR_iSortStart[ii++]] = -tempA[FR_iSort[i++]];
-			else if ( idx < idxStart )
-				i++;
-			else
-				rhs[FR_iSortStart[ii++]] = 0.0;
-		}
-	}
-	/* Reorder information for the new to the old active constraints. */
-	i = 0;
-	ii = 0;
-	while ( ii < nACStart )
-	{
-		if ( i == nAC )
-			rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
-		else
-		{
-			int_t idx = AC_idx[AC_iSort[i]];
-			int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
-
-			if ( idx == idxStart )
-				rhs[nFRStart+AC_iSortStart[ii++]] = tempB[AC_iSort[i++]];
-			else if ( idx < idxStart )
-				i++;
-			else
-				rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
-		}
-	}
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, int_t dim, real_t* rhs, real_t* sol )
-{
-	returnValue retval;
-	int_t i, ii;
-
-	real_t* q = new real_t[nS];
-
-	/* Compute extra compoments of the RHS */
-	for ( ii=0; ii<nS; ii++ )
-	{
-		int_t idx = schurUpdateIndex[ii];
-		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
-		{
-			case SUT_VarFixed:
-				q[ii] = 0.0;
-				break;
-
-			case SUT_VarFreed:
-				/* Find index of freed variable */
-				for( i=0; i<nFR; ++i )
-					if ( FR_idx[i] == idx )
-					{
-						q[ii] = -tempA[i];
-						break;
-					}
-				break;
-
-			case SUT_ConAdded:
-				/* Find index of added constraint */
-				for( i=0; i<nAC; ++i )
-					if ( AC_idx[i] == idx )
-					{
-						q[ii] = tempB[i];
-						break;
-					}
-				break;
-
-			case SUT_ConRemoved:
-				q[ii] = 0.0;
-				break;
-
-			default:
-				return THROWERROR( RET_UNKNOWN_BUG );
-		}
-	}
-
-	/* compute q = M^T K^{-1} r - q */
-	computeMTransTimes(1.0, sol, -1.0, q);
-
-	/* Solve linear system with Schur complement. */
-	real_t* p = new real_t[nS];
-	backsolveSchurQR( nS, q, 1, p );
-
-	computeMTimes(-1.0, p, 1.0, rhs);
-
-	retval = sparseSolver->solve(dim, rhs, sol);
-	if (retval != SUCCESSFUL_RETURN)
-	{
-		MyPrintf( "sparseSolver->solve (second time) failed.\n");
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
-	}
-
-	/* Transfer extra compoments of the Schur complement solution to the correct place. */
-	for ( ii=0; ii<nS; ii++ )
-	{
-		int_t idx = schurUpdateIndex[ii];
-		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
-		{
-			case SUT_VarFixed:
-				break;
-
-			case SUT_VarFreed:
-				/* Find index of freed variable */
-				for( i=0; i<nFR; ++i )
-					if ( FR_idx[i] == idx )
-					{
-						delta_xFR_TMP[i] = p[ii];
-						break;
-					}
-				break;
-
-			case SUT_ConAdded:
-				/* Find index of added constraint */
-				for( i=0; i<nAC; ++i )
-					if ( AC_idx[i] == idx )
-					{
-						delta_yAC_TMP[i] = -p[ii];
-						break;
-					}
-				break;
-
-			case SUT_ConRemoved:
-				break;
-
-			default:
-				return THROWERROR( RET_UNKNOWN_BUG );
-		}
-	}
-
-	delete [] p;
-	delete [] q;
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcReorder2(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* sol, real_t* const delta_xFR, real_t* const delta_yAC)
-{
-	int_t i, ii;
-			i = 0;
-			ii = 0;
-			while ( ii < nFRStart && i < nFR )
-			{
-				int_t idx = FR_idx[FR_iSort[i]];
-				int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
-
-				if ( idx == idxStart )
-					delta_xFR_TMP[FR_iSort[i++]] = sol[FR_iSortStart[ii++]];
-				else if ( idx < idxStart )
-					i++;
-				else
-					ii++;
-			}
-			/* Transfer Schur complement solution for the active constraint multipliers to the correct places */
-			i = 0;
-			ii = 0;
-			while ( ii < nACStart && i < nAC )
-			{
-				int_t idx = AC_idx[AC_iSort[i]];
-				int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
-
-				if ( idx == idxStart )
-					delta_yAC_TMP[AC_iSort[i++]] = -sol[nFRStart+AC_iSortStart[ii++]];
-				else if ( idx < idxStart )
-					i++;
-				else
-					ii++;
-			}
-
-			/* refine the solution found so far */
-			for ( i=0; i<nFR; ++i )
-				delta_xFR[i] += delta_xFR_TMP[i];
-			for ( i=0; i<nAC; ++i )
-				delta_yAC[i] += delta_yAC_TMP[i];
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcResid(int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, BooleanType Delta_bC_isZero, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA, real_t& rnrm)
-{
-	int_t i, ii;
-				/* compute residuals in tempA and tempB, and max-norm */
-				for ( i=0; i<nFR; ++i )
-				{
-					ii = FR_idx[i];
-					tempA[i] = delta_g[ii];
-				}
-
-				switch ( hessianType )
-				{
-					case HST_ZERO:
-						break;
-
-					case HST_IDENTITY:
-						for ( i=0; i<nFR; ++i )
-							tempA[i] += delta_xFR[i];
-						break;
-
-					default:
-						H->times(bounds.getFree(), bounds.getFree(),  1, 1.0, delta_xFR, nFR, 1.0, tempA, nFR);
-						H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
-						break;
-				}
-
-				for ( i=0; i<nFR; ++i )
-					tempA[i] += options.epsRegularisation*delta_xFR[i];
-
-				A->transTimes(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_yAC, nAC, 1.0, tempA, nFR);
-				rnrm = 0.0;
-				for ( i=0; i<nFR; ++i )
-					if (rnrm < getAbs (tempA[i]))
-						rnrm = getAbs (tempA[i]);
-
-				if (!Delta_bC_isZero)
-				{
-					for ( i=0; i<nAC; ++i )
-					{
-						ii = AC_idx[i];
-						if ( constraints.getStatus( ii ) == ST_LOWER )
-							tempB[i] = delta_lbA[ii];
-						else
-							tempB[i] = delta_ubA[ii];
-					}
-				}
-				else
-				{
-					for ( i=0; i<nAC; ++i )
-						tempB[i] = 0.0;
-				}
-
-				A->times(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_xFR, nFR, 1.0, tempB, nAC);
-
-				A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
-				for ( i=0; i<nAC; ++i )
-					if (rnrm < getAbs (tempB[i]))
-						rnrm = getAbs (tempB[i]);
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::stepCalcDeltayFx(int_t nFR, int_t nFX, int_t nAC, int_t* FX_idx, const real_t* const delta_g, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, real_t* const delta_yFX)
-{
-	int_t i;
-		for( i=0; i<nFX; ++i )
-			delta_yFX[i] = delta_g[FX_idx[i]];
-
-		A->transTimes(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_yAC, nAC, 1.0, delta_yFX, nFX);
-
-		if ( hessianType == HST_ZERO )
-		{
-		  // TODO: if ( usingRegularisation( ) == BT_TRUE )
-				for( i=0; i<nFX; ++i )
-					delta_yFX[i] += options.epsRegularisation*delta_xFX[i];
-		}
-		else if ( hessianType == HST_IDENTITY )
-		{
-			for( i=0; i<nFX; ++i )
-				delta_yFX[i] += delta_xFX[i];
-		}
-		else
-		{
-			H->times(bounds.getFixed(), bounds.getFree(), 1, 1.0, delta_xFR, nFR, 1.0, delta_yFX, nFX);
-			H->times(bounds.getFixed(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, delta_yFX, nFX);
-		}
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
-												const real_t* const delta_lb, const real_t* const delta_ub,
-												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
-												real_t* const delta_xFX, real_t* const delta_xFR,
-												real_t* const delta_yAC, real_t* const delta_yFX
-												)
-{
-	returnValue retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
-													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
-													delta_yAC, delta_yFX
-													);
-
-	if ( retval == RET_QR_FACTORISATION_FAILED )
-	{
-		retval = resetSchurComplement( BT_FALSE );
-		if (retval != SUCCESSFUL_RETURN)
-		{
-			MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
-			return THROWERROR( retval );
-		}
-		retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
-													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
-													delta_yAC, delta_yFX
-													);
-	}
-	return retval;
-}
-
-/*
- *	d e t e r m i n e S t e p D i r e c t i o n
- */
-returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
-												const real_t* const delta_lb, const real_t* const delta_ub,
-												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
-												real_t* const delta_xFX, real_t* const delta_xFR,
-												real_t* const delta_yAC, real_t* const delta_yFX
-												)
-{
-	/* The linear system to be solved here is this:
-
-	   / H_FF  H_FX  A_CF^T  0 \ /  delta_xFR \   / -delta_g_F \
-	   | H_XF  H_XX  A_CX^T  I | |  delta_xFX |   | -delta_g_X |
-	   | A_CF  A_CX    0     0 | | -delta_yAC | = |  delta_bA  |  <-- active entries of delta_lbA and delta_ubA with corresponding sign
-	   \  0     I      0     0 / \ -delta_yFX /   \  delta_bX  /  <-- fixed entries of delta_lb and delta_ub with corresponding sign
-
-	*/
-
-
-	int_t i, ii, r;
-
-	returnValue retval;
-
-  //int_t nV  = getNV( );
-	int_t nFR = getNFR( );
-	int_t nFX = getNFX( );
-	int_t nAC = getNAC( );
-
-	int_t* FR_idx;
-	int_t* FX_idx;
-	int_t* AC_idx;
-
-	bounds.getFree( )->getNumberArray( &FR_idx );
-	bounds.getFixed( )->getNumberArray( &FX_idx );
-	constraints.getActive( )->getNumberArray( &AC_idx );
-
-
-	/* I) DETERMINE delta_xFX (this is exact, does not need refinement) */
-	if ( Delta_bB_isZero == BT_FALSE )
-	{
-		for( i=0; i<nFX; ++i )
-		{
-			ii = FX_idx[i];
-
-			if ( bounds.getStatus( ii ) == ST_LOWER )
-				delta_xFX[i] = delta_lb[ii];
-			else
-				delta_xFX[i] = delta_ub[ii];
-		}
-	}
-	else
-	{
-		for( i=0; i<nFX; ++i )
-			delta_xFX[i] = 0.0;
-	}
-
-	if ( nFR+nAC>0 ) {
-		real_t rhs_max = 0.0;
-		retval = stepCalcRhs( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, rhs_max, delta_g, delta_lbA, delta_ubA,
-							  delta_lb, delta_ub, Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
-							  delta_yAC, delta_yFX );
-
-		if (retval != SUCCESSFUL_RETURN)
-			return retval;
-		int_t nFRStart = boundsFreeStart.getLength();
-		int_t nACStart = constraintsActiveStart.getLength();
-
-		int_t* FR_iSort;
-		int_t* AC_iSort;
-		bounds.getFree( )->getISortArray( &FR_iSort );
-		constraints.getActive( )->getISortArray( &AC_iSort );
-
-		int_t* FR_idxStart;
-		int_t* AC_idxStart;
-		boundsFreeStart.getNumberArray( &FR_idxStart );
-		constraintsActiveStart.getNumberArray( &AC_idxStart );
-
-		int_t* FR_iSortStart;
-		int_t* AC_iSortStart;
-		boundsFreeStart.getISortArray( &FR_iSortStart );
-		constraintsActiveStart.getISortArray( &AC_iSortStart );
-
-		int_t dim = nFRStart + nACStart;
-		real_t* rhs = new real_t[dim];
-		real_t* sol = new real_t[dim];
-
-		/* Iterative refinement loop for delta_xFR, delta_yAC */
-		for ( r=0; r<=options.numRefinementSteps; ++r )
-		{
-		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
-			if (retval != SUCCESSFUL_RETURN)
-				return retval;
-
-			retval = sparseSolver->solve(dim, rhs, sol);
-
-			if (retval != SUCCESSFUL_RETURN)
-			{
-				MyPrintf( "sparseSolver->solve (first time) failed.\n");
-				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
-			}
-
-			if ( nS > 0 )
-			{
-				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
-				if (retval != SUCCESSFUL_RETURN)
-					return retval;
-			}
-
-			/* Transfer Schur complement solution for the free variables to the correct places */
-			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
-			if (retval != SUCCESSFUL_RETURN)
-				return retval;
-
-			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
-			{
-				real_t rnrm;
-				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
-				if (retval != SUCCESSFUL_RETURN)
-					return retval;
-
-				/* early termination of residual norm small enough */
-				if ( options.printLevel == PL_HIGH )
-					MyPrintf( "In iterative refinement (iter %d) rnrm = %e and epsIterRef*rhs_max = %e.\n", r, rnrm, options.epsIterRef*rhs_max);
-
-				if ( rnrm <= options.epsIterRef*rhs_max )
-					break;
-			}
-
-		}
-
-		delete [] sol;
-		delete [] rhs;
-	}
-
-	/* IV) DETERMINE delta_yFX */
-	if ( nFX > 0 )
-	{
-		retval = stepCalcDeltayFx(nFR, nFX, nAC, FX_idx, delta_g, delta_xFX, delta_xFR, delta_yAC, delta_yFX);
-		if (retval != SUCCESSFUL_RETURN)
-			return retval;
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrection )
-{
-	int_t j;
-	int_t nFR = getNFR( );
-	int_t nAC = getNAC( );
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "Resetting Schur complement.\n");
-
-	nS = 0;
-	detS = 1.0;
-	rcondS = 1.0;
-	boundsFreeStart = *bounds.getFree();
-	constraintsActiveStart = *constraints.getActive();
-
-	if ( nSmax > 0 )
-		M_jc[0] = 0;
-
-	int_t dim = nFR+nAC;
-	// Count the number of nonzeros
-	int_t numNonzeros;
-	switch ( hessianType )
-	{
-		case HST_ZERO:
-			numNonzeros = 0;
-			break;
-
-		case HST_IDENTITY:
-			numNonzeros = nFR;
-			break;
-
-		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
-			break;
-	}
-	// TODO: For now, we regularize every time
-	if (options.epsRegularisation > 0.0)
-		numNonzeros += nFR;
-
-	int_t numNonzerosA;
-
-	if ( constraintProduct != 0 )
-	{
-		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
-		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-	}
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
-	numNonzeros += numNonzerosA;
-
-	// Get the values
-	real_t* avals = new real_t[numNonzeros];
-	int_t* irn = new int_t[numNonzeros];
-	int_t* jcn = new int_t[numNonzeros];
-	numNonzeros = 0;
-	switch ( hessianType )
-	{
-		case HST_ZERO:
-			break;
-
-		case HST_IDENTITY:
-			numNonzeros += nFR;
-			for (j = 0; j<nFR; j++)
-			{
-				irn[j] = j+1;
-				jcn[j] = j+1;
-				avals[j] = 1.0;
-			}
-			break;
-
-		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, irn, jcn, avals, BT_TRUE);
-			break;
-	}
-
-	// For now, we regularize every time
-	if (options.epsRegularisation > 0.0)
-	{
-		for (j = 0; j<nFR; j++)
-		{
-			irn[numNonzeros] = j+1;
-			jcn[numNonzeros] = j+1;
-			avals[numNonzeros++] = options.epsRegularisation;
-		}
-	}
-
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, irn+numNonzeros, jcn+numNonzeros, avals+numNonzeros, BT_FALSE);
-	numNonzeros += numNonzerosA;
-
-	// Call the linear solver
-	sparseSolver->reset();
-	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
-	delete [] jcn;
-	delete [] irn;
-	delete [] avals;
-	
-	if (retval != SUCCESSFUL_RETURN)
-		return THROWERROR(RET_NO_SPARSE_SOLVER);
-
-	// Factorize the matrix for later backsolves
-	retval = sparseSolver->factorize();
-	numFactorizations++;
-
-	// If matrix is singular, add bounds/remove constraints according to zero pivots
-	if (retval == RET_KKT_MATRIX_SINGULAR)
-	{
-		if( repairSingularWorkingSet( ) == SUCCESSFUL_RETURN )
-			return resetSchurComplement( allowInertiaCorrection );
-		else
-			return RET_KKT_MATRIX_SINGULAR;
-	}
-
-	// If matrix has wrong inertia, add bounds until inertia is correct
-	if (retval == SUCCESSFUL_RETURN && allowInertiaCorrection)
-	{
-		int_t neig = sparseSolver->getNegativeEigenvalues( );
-		if( neig > getNAC( ) )
-		{
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf( "WARNING: After new factorization, reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
-
-			retval = correctInertia();
-		}
-	}
-
-	if (retval != SUCCESSFUL_RETURN)
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
-
-	nS = 0;
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::computeMTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
-{
-	if ( isEqual( alpha, -1.0 ) == BT_FALSE || isEqual( beta, 1.0 ) == BT_FALSE )
-		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-
-	int_t i, j;
-
-	for ( j=0; j<nS; j++ )
-	{
-		const real_t xval = x_[j];
-		for ( i=M_jc[j]; i<M_jc[j+1]; i++)
-			y_[M_ir[i]] -= M_vals[i]*xval;
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::computeMTransTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
-{
-	if ( isEqual( alpha, 1.0 ) == BT_FALSE || ( isZero( beta ) == BT_FALSE && isEqual( beta, -1.0 ) == BT_FALSE ) )
-		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
-
-	int_t i, j;
-
-	if ( isZero( beta ) == BT_TRUE )
-	{
-		for ( j=0; j<nS; j++ )
-		{
-			y_[j] = 0.0;
-			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
-				y_[j] += M_vals[i]*x_[M_ir[i]];
-		}
-	}
-	else
-	{
-		for ( j=0; j<nS; j++ )
-		{
-			y_[j] = -y_[j];
-			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
-				y_[j] += M_vals[i]*x_[M_ir[i]];
-		}
-	}
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType update, int_t numNonzerosM, const sparse_int_t* Mpos, const real_t* const Mvals, int_t numNonzerosN, const sparse_int_t* Npos, const real_t* const Nvals, real_t N_diag )
-{
-	int_t i;
-
-	int_t nFRStart = boundsFreeStart.getLength();
-	int_t nACStart = constraintsActiveStart.getLength();
-
-	real_t* new_Scol = new real_t[nS];
-
-	int_t dim = nFRStart + nACStart;
-	real_t* rhs = new real_t[dim];
-	real_t* sol = new real_t[dim];
-
-	for ( i=0; i<dim; i++ )
-		rhs[i] = 0.0;
-
-	for ( i=0; i<numNonzerosM; i++ )
-		rhs[Mpos[i]] = Mvals[i];
-
-	returnValue retval = sparseSolver->solve(dim, rhs, sol);
-	if (retval != SUCCESSFUL_RETURN)
-	{
-		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
-	}
-
-	computeMTransTimes(1.0, sol, 0.0, new_Scol);
-
-	/* Take care of off-diagonal elements in N. */
-	for ( i=0; i<numNonzerosN; i++ )
-		new_Scol[Npos[i]] -= Nvals[i];
-
-	real_t sdiag = -N_diag;
-	for ( i=0; i<numNonzerosM; i++ )
-		sdiag += Mvals[i] * sol[Mpos[i]];
-
-	/* Now augment S */
-	for ( i=0; i<nS; i++)
-		S[nS*nSmax + i] = new_Scol[i];
-	for ( i=0; i<nS; i++)
-		S[i*nSmax + nS] = new_Scol[i];
-	S[nS*nSmax + nS] = sdiag;
-
-	schurUpdateIndex[nS] = number;
-	schurUpdate[nS] = update;
-
-	/* Augment M matrix.  */
-	if ( M_physicallength < M_jc[nS] + numNonzerosM )
-	{
-		/* If necessary, allocate more memory for M. */
-		int_t M_physicallength_new = getMax(2*M_physicallength, M_physicallength + 2*numNonzerosM);
-		real_t* M_vals_new = new real_t[M_physicallength_new];
-		sparse_int_t* M_ir_new = new sparse_int_t[M_physicallength_new];
-		memcpy( M_vals_new, M_vals, ((unsigned int)(M_jc[nS]))*sizeof(real_t) );
-		memcpy( M_ir_new, M_ir, ((unsigned int)(M_jc[nS]))*sizeof(sparse_int_t) );
-		M_physicallength = M_physicallength_new;
-		delete [] M_vals;
-		delete [] M_ir;
-		M_vals = M_vals_new;
-		M_ir = M_ir_new;
-	}
-
-	for ( i=0; i<numNonzerosM; i++ )
-	{
-		M_vals[M_jc[nS] + i] = Mvals[i];
-		M_ir[M_jc[nS] + i] = Mpos[i];
-	}
-	M_jc[nS+1] = M_jc[nS] + numNonzerosM;
-
-	nS++;
-
-	delete [] sol;
-	delete [] rhs;
-	delete [] new_Scol;
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "added index %d with update type %d to Schur complement.  nS = %d\n", number, update, nS);
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-returnValue SQProblemSchur::deleteFromSchurComplement( int_t idx, BooleanType allowUndo )
-{
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "deleting entry %d with idx = %d and type %d from Schur complement.", idx, schurUpdateIndex[idx], schurUpdate[idx]);
-
-	if ( idx != nS-1 )
-	{
-		real_t *temp_vals = NULL;
-		int_t *temp_ir = NULL;
-		int_t schurUpdateIndexTemp = -1;
-		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
-
-		/* temporarily save the column of S to be deleted */
-		if( allowUndo == BT_TRUE )
-		{
-			temp_vals = new real_t[nS];
-			for ( int_t i=0; i<nS; i++ )
-				temp_vals[i] = S[idx*nSmax + i];
-
-			schurUpdateIndexTemp = schurUpdateIndex[idx];
-			schurUpdateTemp = schurUpdate[idx];
-		}
-
-		/* Shift rows and columns >idx of S by one to the upper left */
-		for ( int_t i=0; i<idx; i++ )
-			for ( int_t j=idx+1; j<nS; j++ )
-				S[i*nSmax + j-1] = S[i*nSmax + j];
-		for ( int_t i=idx+1; i<nS; i++ )
-		{
-			for ( int_t j=0; j<idx; j++ )
-				S[(i-1)*nSmax + j] = S[i*nSmax + j];
-			for ( int_t j=idx+1; j<nS; j++ )
-				S[(i-1)*nSmax + j-1] = S[i*nSmax + j];
-		}
-		for ( int_t i=idx+1; i<nS; i++ )
-		{
-			schurUpdateIndex[i-1] = schurUpdateIndex[i];
-			schurUpdate[i-1] = schurUpdate[i];
-		}
-
-		/* Store deleted row/column in the last row/column of S, can retrieve it from there later */
-		if( allowUndo == BT_TRUE )
-		{
-			for ( int_t i=0; i<nS; i++ )
-			{
-				S[(nS-1)*nSmax + i] = temp_vals[i];
-				S[i*nSmax + (nS-1)] = temp_vals[i];
-			}
-			schurUpdateIndex[nS-1] = schurUpdateIndexTemp;
-			schurUpdate[nS-1] = schurUpdateTemp;
-			delete[] temp_vals;
-		}
-
-		/* temporarily save the (sparse) column of M to be deleted */
-		int_t numEntries = M_jc[idx+1] - M_jc[idx];
-		if( allowUndo == BT_TRUE )
-		{
-			temp_ir = new int_t[numEntries];
-			temp_vals = new real_t[numEntries];
-
-			for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
-			{
-				temp_ir[i-M_jc[idx]] = M_ir[i];
-				temp_vals[i-M_jc[idx]] = M_vals[i];
-			}
-		}
-
-		/* Shift all columns >idx one to the left */
-		for ( int_t i=M_jc[idx+1]; i<M_jc[nS]; i++ )
-		{
-			M_ir[i-numEntries] = M_ir[i];
-			M_vals[i-numEntries] = M_vals[i];
-		}
-		for ( int_t i=idx; i<nS; i++ )
-			M_jc[i] = M_jc[i+1] - numEntries;
-
-		/* Store deleted column of M in the last column, can retrieve it from there later */
-		if( allowUndo == BT_TRUE )
-		{
-			for ( int_t i=M_jc[nS-1]; i<M_jc[nS]; i++ )
-			{
-				M_ir[i] = temp_ir[i-M_jc[nS-1]];
-				M_vals[i] = temp_vals[i-M_jc[nS-1]];
-			}
-
-			delete[] temp_ir;
-			delete[] temp_vals;
-		}
-	}
-
-	nS--;
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "  nS = %d\n", nS);
-
-	return SUCCESSFUL_RETURN;
-}
-
-
-returnValue SQProblemSchur::undoDeleteFromSchurComplement( int_t idx )
-{
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS-1], schurUpdate[nS-1],nS+1);
-
-	if ( idx != nS )
-	{
-		real_t *temp_vals;
-		int_t *temp_ir;
-		int_t schurUpdateIndexTemp = -1;
-		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
-
-		/* temporarily save the last column of S */
-		temp_vals = new real_t[nS+1];
-		for ( int_t i=0; i<nS+1; i++ )
-			temp_vals[i] = S[i+nS*nSmax];
-
-		schurUpdateIndexTemp = schurUpdateIndex[nS];
-		schurUpdateTemp = schurUpdate[nS];
-
-		/* Shift rows and columns =>idx of S by one to the lower right */
-		for ( int_t i=idx-1; i>-1; i-- )
-			for ( int_t j=nS-1; j>idx-1; j-- )
-				S[(j+1)+i*nSmax] = S[j+i*nSmax];
-		for ( int_t i=nS-1; i>idx-1; i-- )
-		{
-			for ( int_t j=idx-1; j>-1; j-- )
-				S[j+(i+1)*nSmax] = S[j+i*nSmax];
-			for ( int_t j=nS-1; j>idx-1; j-- )
-				S[(j+1)+(i+1)*nSmax] = S[j+i*nSmax];
-		}
-		for ( int_t i=nS-1; i>idx-1; i-- )
-		{
-			schurUpdateIndex[i+1] = schurUpdateIndex[i];
-			schurUpdate[i+1] = schurUpdate[i];
-		}
-
-		/* Insert stored row/column of S at position idx */
-		for ( int_t i=0; i<nS+1; i++ )
-		{
-			S[idx*nSmax + i] = temp_vals[i];
-			S[i*nSmax + idx] = temp_vals[i];
-		}
-		schurUpdateIndex[idx] = schurUpdateIndexTemp;
-		schurUpdate[idx] = schurUpdateTemp;
-		delete[] temp_vals;
-
-		/* temporarily save the last (sparse) column of M */
-		int_t numEntries = M_jc[nS+1] - M_jc[nS];
-		temp_ir = new int_t[numEntries];
-		temp_vals = new real_t[numEntries];
-		for ( int_t i=M_jc[nS]; i<M_jc[nS+1]; i++ )
-		{
-			temp_ir[i-M_jc[nS]] = M_ir[i];
-			temp_vals[i-M_jc[nS]] = M_vals[i];
-		}
-
-		/* Shift all columns =>idx one to the right */
-		for ( int_t i=M_jc[nS]-1; i>M_jc[idx]-1; i-- )
-		{
-			M_ir[i+numEntries] = M_ir[i];
-			M_vals[i+numEntries] = M_vals[i];
-		}
-		for ( int_t i=nS; i>idx-1; i-- )
-			M_jc[i+1] = M_jc[i] + numEntries;
-
-		/* Insert stored column of M at position idx */
-		for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
-		{
-			M_ir[i] = temp_ir[i-M_jc[idx]];
-			M_vals[i] = temp_vals[i-M_jc[idx]];
-		}
-
-		delete[] temp_ir;
-		delete[] temp_vals;
-	}
-
-	nS++;
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "  nS = %d\n", nS);
-
-	return SUCCESSFUL_RETURN;
-}
-
-returnValue SQProblemSchur::correctInertia( )
-{
-	SubjectToStatus B_status;
-	real_t oldDetS;
-	int_t nFR = getNFR( );
-	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
-	int_t *numberarray;
-
-	/* method may only be called after refactorization or if one bound/constraint
-	 * has been added, i.e. when a bound has flipped after refactorization */
-	if( nS != 0 && nS != 1 )
-		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
-	neig = sparseSolver->getNegativeEigenvalues( );
-
-	/* if a bound flipped, check if it did in fact remove a negative eigenvalue */
-	if( nS == 1 && detS < 0 )
-		neig--;
-
-	/* if this method is triggered after flipping bounds, inertia is now probably correct */
-	if( neig == getNAC( ) )
-		return SUCCESSFUL_RETURN;
-
-	/* get bound numbers in the order in which they are in the non-basis */
-	bounds.getFree()->getNumberArray( &numberarray );
-	for( k=0; k<nFR; k++ )
-		freeBoundIdx[k] = numberarray[k];
-
-	k = 0;
-	nAdded = getNFR( );
-	while ( neig > getNAC( ) && k < nFR )
-	{
-		oldDetS = detS;
-
-		/* If it's linearly independent, fix the next free variable at the nearest bound */
-		number = freeBoundIdx[k];
-		if( addBound_checkLI( number ) == RET_LINEARLY_INDEPENDENT )
-		{
-			/* This is just heuristics: we need the bound which gives correct multiplier sign */
-			if ( x[number] - lb[number] < ub[number] - x[number] )
-				B_status = ST_LOWER;
-			else
-				B_status = ST_UPPER;
-
-			/* Update Schur complement */
-			if( addBound( number, B_status, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
-			{
-				if ( options.printLevel == PL_HIGH )
-					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
-				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
-			}
-
-			/* Adjust bounds */
-			if ( B_status == ST_LOWER )
-				lb[number] = x[number];
-			else
-				ub[number] = x[number];
-		}
-		else
-		{
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf("bound[%i] = %i is linearly dependent. Do not add.\n", k, number );
-			k++;
-			continue;
-		}
-
-		/* Case 1: Schur complement has been reset, check inertia of new factorization */
-		if( nS == 0 )
-			neig = sparseSolver->getNegativeEigenvalues( );
-		/* Case 2: Schur complement has grown, check if determinant changed sign */
-		else if( oldDetS * detS < 0 )
-			neig--;
-		/* NB: Case 3: (Schur complement has shrunk) cannot happen here:
-		 * This method is called after a factorization reset or after ONE bound has been added */
-
-		k++;
-	}
-	nAdded -= getNFR( );
-
-	delete[] freeBoundIdx;
-
-	/* if there are still too many negative eigenvalues, exit */
-	if( neig > getNAC( ) )
-	{
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "Added %i bounds but KKT matrix still has %i negative eigenvalues, should be %i.\n", nAdded, neig, getNAC( ) );
-		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
-	}
-	else
-	{
-		if ( options.printLevel == PL_HIGH )
-			MyPrintf( "After adding %i bounds, reduced Hessian has correct inertia.\n", nAdded, neig );
-		return SUCCESSFUL_RETURN;
-	}
-}
-
-
-returnValue SQProblemSchur::repairSingularWorkingSet( )
-{
-	int_t k, number;
-	SubjectToStatus B_status;
-	int_t rank = sparseSolver->getRank( );
-	int_t nFR = getNFR( );
-	int_t defect = nFR + getNAC( ) - rank;
-
-	/* Rank detection not supported by linear solver */
-	if ( rank < 0 )
-		return RET_KKT_MATRIX_SINGULAR;
-
-	/* Consistency check */
-	if ( defect <= 0 )
-		return RET_UNKNOWN_BUG;
-
-	/* Determine zero pivots */
-	int_t *zeroPivots = new int_t[defect];
-	sparseSolver->getZeroPivots( zeroPivots );
-
-	/* Determination of zero pivots not supported by linear solver */
-	if ( zeroPivots == 0 )
-		return RET_KKT_MATRIX_SINGULAR;
-
-	/* We assume implicitly that pivots are sorted in ascending order */
-	/// \todo make sure that this is so.
-	/* Remove the one with the highest index first so not to mess up index lists */
-	int_t bndsAdded = 0;
-	for ( k=defect-1; k>-1; k-- )
-	{
-		/* Zero curvature in the Hessian: add a bound */
-		if ( zeroPivots[k] < nFR )
-		{
-			number = bounds.getFree()->getNumber( zeroPivots[k] );
-
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf( "WARNING: KKT matrix singular! Add bound %i before refactorization.\n", number);
-
-			/* This is just heuristics: we need the bound which gives correct multiplier sign */
-			if ( x[number] - lb[number] < ub[number] - x[number] )
-				B_status = ST_LOWER;
-			else
-				B_status = ST_UPPER;
-
-			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
-			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
-				return RET_ADDBOUND_FAILED;
-
-			/* Adjust bounds */
-			if ( B_status == ST_LOWER )
-				lb[number] = x[number];
-			else
-				ub[number] = x[number];
-
-			bndsAdded++;
-		}
-		/* Linearly dependent row in the Jacobian: remove a constraint */
-		else
-		{
-			number = constraints.getActive()->getNumber( zeroPivots[k]-nFR );
-			if ( options.printLevel == PL_HIGH )
-				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
-
-			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
-				return RET_REMOVECONSTRAINT_FAILED;
-
-			// AW: If this is an equality constraint, it is now inactive and
-			// will not be considered in the step computation which leads to
-			// violation of that constraint in the future. Here, I try to
-			// fix this by simply making this constraint no longer an
-			// equality.
-			// TODO: This is probably also necessary for bound constraints
-			if ( constraints.getType(number) == ST_EQUALITY )
-			{
-				if ( options.printLevel == PL_HIGH )
-					MyPrintf( "WARNING: Making this constraint no longer an equality.\n");
-				constraints.setType( number, ST_BOUNDED );
-			}
-
-			/* Adjust dual variable */
-			y[number] = 0.0;
-		}
-	}
-
-	if ( options.printLevel == PL_HIGH )
-		MyPrintf( "WARNING: KKT matrix singular! Removed %i constraints and added %i bounds before refactorization.\n",
-					defect-bndsAdded, bndsAdded );
-
-	delete[] zeroPivots;
-
-	return SUCCESSFUL_RETURN;
-}
-
-END_NAMESPACE_QPOASES
-
-
-/*
- *	end of file
- */
+/*
+ *	This file is part of qpOASES.
+ *
+ *	qpOASES -- An Implementation of the Online Active Set Strategy.
+ *	Copyright (C) 2007-2014 by Hans Joachim Ferreau, Andreas Potschka,
+ *	Christian Kirches et al. All rights reserved.
+ *
+ *	qpOASES is free software; you can redistribute it and/or
+ *	modify it under the terms of the GNU Lesser General Public
+ *	License as published by the Free Software Foundation; either
+ *	version 2.1 of the License, or (at your option) any later version.
+ *
+ *	qpOASES is distributed in the hope that it will be useful,
+ *	but WITHOUT ANY WARRANTY; without even the implied warranty of
+ *	MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.
+ *	See the GNU Lesser General Public License for more details.
+ *
+ *	You should have received a copy of the GNU Lesser General Public
+ *	License along with qpOASES; if not, write to the Free Software
+ *	Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA  02110-1301  USA
+ *
+ */
+
+
+/**
+ *	\file src/SQProblemSchur.cpp
+ *	\author Andreas Waechter and Dennis Janka, based on QProblem.cpp by Hans Joachim Ferreau, Andreas Potschka, Christian Kirches
+ *	\version 3.2
+ *	\date 2012-2017
+ *
+ *	Implementation of the SQProblemSchur class which is able to use the newly
+ *	developed online active set strategy for parametric quadratic programming.
+ *	This implementation uses a Schur complement approach to solve the linear
+ *	systems.
+ */
+
+#include <qpOASES/SQProblemSchur.hpp>
+#include <qpOASES/LapackBlasReplacement.hpp>
+
+
+#ifndef __MATLAB__
+# include <cstdarg>
+void MyPrintf(const char* pformat, ... )
+{
+  va_list ap;
+  va_start(ap, pformat);
+
+  vfprintf(stdout, pformat, ap);
+
+  va_end(ap);
+}
+#else
+# include <mex.h>
+# define MyPrintf mexPrintf
+#endif
+
+
+BEGIN_NAMESPACE_QPOASES
+
+
+/*****************************************************************************
+ *  P U B L I C                                                              *
+ *****************************************************************************/
+
+
+/*
+ *	Q P r o b l e m
+ */
+SQProblemSchur::SQProblemSchur( ) : SQProblem( )
+{
+#ifdef SOLVER_MA57
+	sparseSolver = new Ma57SparseSolver();
+#elif defined SOLVER_MA27
+	sparseSolver = new Ma27SparseSolver();
+#elif defined SOLVER_NONE
+	sparseSolver = new DummySparseSolver();
+#endif
+
+	nSmax = 0;
+	nS = -1;
+	S = 0;
+	Q_ = 0;
+	R_ = 0;
+	detS = 0.0;
+	rcondS = 0.0;
+	schurUpdateIndex = 0;
+	schurUpdate = 0;
+	numFactorizations = 0;
+
+	M_physicallength = 0;
+	M_vals = 0;
+	M_ir = 0;
+	M_jc = 0;
+}
+
+
+/*
+ *	Q P r o b l e m
+ */
+SQProblemSchur::SQProblemSchur( int_t _nV, int_t _nC, HessianType _hessianType, int_t maxSchurUpdates ) 
+	: SQProblem( _nV,_nC,_hessianType, BT_FALSE )
+{
+	/* The interface to the sparse linear solver.  In the long run,
+	   different linear solvers might be optionally chosen. */
+#ifdef SOLVER_MA57
+	sparseSolver = new Ma57SparseSolver();
+#elif defined SOLVER_MA27
+	sparseSolver = new Ma27SparseSolver();
+#elif defined SOLVER_NONE
+	sparseSolver = new DummySparseSolver();
+#endif
+
+	nSmax = maxSchurUpdates;
+	nS = -1;
+	if ( nSmax > 0 )
+	{
+		S = new real_t[nSmax*nSmax];
+		schurUpdateIndex = new int_t[nSmax];
+		schurUpdate = new SchurUpdateType[nSmax];
+		Q_ = new real_t[nSmax*nSmax];
+		R_ = new real_t[nSmax*nSmax];
+		M_physicallength = 10*nSmax;  /* TODO: Decide good default. */
+		M_vals = new real_t[M_physicallength];
+		M_ir = new sparse_int_t[M_physicallength];
+		M_jc = new sparse_int_t[nSmax+1];
+		detS = 1.0;
+		rcondS = 1.0;
+	}
+	else
+	{
+		S = 0;
+		Q_ = 0;
+		R_ = 0;
+		detS = 0.0;
+		rcondS = 0.0;
+		schurUpdateIndex = 0;
+		schurUpdate = 0;
+		M_physicallength = 0;
+		M_vals = 0;
+		M_ir = 0;
+		M_jc = 0;
+	}
+	numFactorizations = 0;
+}
+
+
+/*
+ *	Q P r o b l e m
+ */
+SQProblemSchur::SQProblemSchur( const SQProblemSchur& rhs ) : SQProblem( rhs )
+{
+#ifdef SOLVER_MA57
+	sparseSolver = new Ma57SparseSolver();
+#elif defined SOLVER_MA27
+	sparseSolver = new Ma27SparseSolver();
+#elif defined SOLVER_NONE
+	sparseSolver = new DummySparseSolver();
+#endif
+	copy( rhs );
+}
+
+
+/*
+ *	~ Q P r o b l e m
+ */
+SQProblemSchur::~SQProblemSchur( )
+{
+	delete sparseSolver;
+
+	clear( );
+}
+
+
+/*
+ *	o p e r a t o r =
+ */
+SQProblemSchur& SQProblemSchur::operator=( const SQProblemSchur& rhs )
+{
+	if ( this != &rhs )
+	{
+		clear( );
+		SQProblem::operator=( rhs );
+		copy( rhs );
+	}
+	return *this;
+}
+
+
+/*
+ *	r e s e t
+ */
+returnValue SQProblemSchur::reset( )
+{
+	/* AW: We probably want to avoid resetting factorization in QProblem */
+	if ( SQProblem::reset( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_RESET_FAILED );
+
+	sparseSolver->reset();
+	nS = -1;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*****************************************************************************
+ *  P R O T E C T E D                                                        *
+ *****************************************************************************/
+
+/*
+ *	c l e a r
+ */
+returnValue SQProblemSchur::clear( )
+{
+	nSmax = 0;
+	nS = -1;
+	detS = 0.0;
+	rcondS = 0.0;
+	numFactorizations = 0;
+	delete [] S; S=0;
+	delete [] Q_; Q_=0;
+	delete [] R_; R_=0;
+	delete [] schurUpdateIndex; schurUpdateIndex=0;
+	delete [] schurUpdate; schurUpdate=0;
+	M_physicallength = 0;
+	delete [] M_vals; M_vals=0;
+	delete [] M_ir; M_ir=0;
+	delete [] M_jc; M_jc=0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	c o p y
+ */
+returnValue SQProblemSchur::copy(	const SQProblemSchur& rhs
+									)
+{
+	int_t i, j, length;
+
+	*sparseSolver = *(rhs.sparseSolver);
+
+	nS = rhs.nS;
+	nSmax = rhs.nSmax;
+	if ( nSmax > 0 )
+	{
+		detS = rhs.detS;
+		rcondS = rhs.rcondS;
+		S = new real_t[nSmax*nSmax];
+		Q_ = new real_t[nSmax*nSmax];
+		R_ = new real_t[nSmax*nSmax];
+		schurUpdateIndex = new int_t[nSmax];
+		schurUpdate = new SchurUpdateType[nSmax];
+
+		if ( nS>0 )
+		{
+			for ( i=0; i<nS; i++)
+				for ( j=0; j<nS; j++)
+				{
+					S[i*nSmax + j] = rhs.S[i*nSmax + j];
+					Q_[i*nSmax + j] = rhs.Q_[i*nSmax + j];
+					R_[i*nSmax + j] = rhs.R_[i*nSmax + j];
+				}
+
+			memcpy( schurUpdateIndex, rhs.schurUpdateIndex, ((unsigned int)nS)*sizeof(int_t));
+			memcpy( schurUpdate, rhs.schurUpdate, ((unsigned int)nS)*sizeof(SchurUpdateType));
+		}
+
+		M_physicallength = rhs.M_physicallength;
+		if ( M_physicallength>0 )
+		{
+			M_vals = new real_t[M_physicallength];
+			M_ir = new sparse_int_t[M_physicallength];
+			M_jc = new sparse_int_t[nSmax+1];
+
+			if ( nS>0 )
+			{
+				memcpy(M_jc, rhs.M_jc, ((unsigned int)(nS+1))*sizeof(sparse_int_t));
+				length = M_jc[nS];
+				memcpy(M_vals, rhs.M_vals, ((unsigned int)length)*sizeof(real_t));
+				memcpy(M_ir, rhs.M_ir, ((unsigned int)length)*sizeof(sparse_int_t));
+			}
+			else if ( nS==0 )
+				M_jc[0] = rhs.M_jc[0];
+		}
+	}
+	else
+	{
+		S = 0;
+		Q_ = 0;
+		R_ = 0;
+		detS = 0.0;
+		rcondS = 0.0;
+		schurUpdateIndex = 0;
+		schurUpdate = 0;
+		M_physicallength = 0;
+		M_vals = 0;
+		M_ir = 0;
+		M_jc = 0;
+	}
+	numFactorizations = rhs.numFactorizations;
+
+	boundsFreeStart = rhs.boundsFreeStart;
+	constraintsActiveStart = rhs.constraintsActiveStart;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p A u x i l i a r y Q P
+ */
+returnValue SQProblemSchur::setupAuxiliaryQP(	SymmetricMatrix *H_new,
+												Matrix *A_new,
+												const real_t *lb_new,
+												const real_t *ub_new,
+												const real_t *lbA_new,
+												const real_t *ubA_new
+												)
+{
+	int_t i;
+	int_t nV = getNV( );
+	int_t nC = getNC( );
+	returnValue returnvalue;
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )       ||
+		 ( getStatus( ) == QPS_PREPARINGAUXILIARYQP ) ||
+		 ( getStatus( ) == QPS_PERFORMINGHOMOTOPY )   )
+	{
+		return THROWERROR( RET_UPDATEMATRICES_FAILED_AS_QP_NOT_SOLVED );
+	}
+
+	status = QPS_PREPARINGAUXILIARYQP;
+
+
+	/* I) SETUP NEW QP MATRICES AND VECTORS: */
+	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
+	 *    that old optimal solution remains feasible for new QP data. */
+	/*    Firstly, shift by -A'*x_opt and ... */
+	if ( nC > 0 )
+	{
+		if ( A_new == 0 )
+			return THROWERROR( RET_INVALID_ARGUMENTS );
+
+		for ( i=0; i<nC; ++i )
+		{
+			lbA[i] = -Ax_l[i];
+			ubA[i] =  Ax_u[i];
+		}
+
+		/* Set constraint matrix as well as ... */
+		setA( A_new );
+
+		/* ... secondly, shift by +A_new'*x_opt. */
+		for ( i=0; i<nC; ++i )
+		{
+			lbA[i] += Ax[i];
+			ubA[i] += Ax[i];
+		}
+
+		/* update constraint products. */
+		for ( i=0; i<nC; ++i )
+		{
+			Ax_u[i] = ubA[i] - Ax[i];
+			Ax_l[i] = Ax[i] - lbA[i];
+		}
+	}
+
+	/* 2) Set new Hessian matrix,determine Hessian type and
+	 *    regularise new Hessian matrix if necessary. */
+	/* a) Setup new Hessian matrix and determine its type. */
+	if ( H_new != 0 )
+	{
+		setH( H_new );
+
+		hessianType = HST_UNKNOWN;
+		if ( determineHessianType( ) != SUCCESSFUL_RETURN )
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+		/* b) Regularise new Hessian if necessary. */
+		if ( hessianType == HST_IDENTITY )
+		{
+			regVal = 0.0; /* an identity Hessian cannot and need not be regularised */
+		}
+		else if ( ( hessianType == HST_ZERO ) ||
+			 ( hessianType == HST_SEMIDEF ) ||
+			 ( usingRegularisation( ) == BT_TRUE ) )
+		{
+			regVal = 0.0; /* reset previous regularisation */
+
+			if ( regulariseHessian( ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		}
+	}
+	else
+	{
+		if ( H != 0 )
+			return THROWERROR( RET_NO_HESSIAN_SPECIFIED );
+	}
+
+	/* 3) Setup QP gradient. */
+	if ( setupAuxiliaryQPgradient( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* II) SETUP WORKING SET AND MATRIX FACTORISATION: */
+
+	/* 1) Check if current active set is linearly independent and has the correct inertia */
+	returnvalue = resetSchurComplement( BT_FALSE );
+	int_t neig = sparseSolver->getNegativeEigenvalues( );
+
+	if ( returnvalue == SUCCESSFUL_RETURN && neig == getNAC( ) )
+	{
+		/* a) This means the proposed working set is linearly independent and
+		 *    leaves no zero curvature exposed in the nullspace and can be used to start QP solve. */
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "In hotstart for new matrices, old working set is linearly independent and has correct inertia.\n");
+
+		status = QPS_AUXILIARYQPSOLVED;
+		return SUCCESSFUL_RETURN;
+	}
+	else if ( returnvalue == SUCCESSFUL_RETURN && neig > getNAC( ) )
+	{
+		/* b) KKT matrix has too many negative eigenvalues. Try to correct the inertia by adding bounds (reduce nullspace dimension). */
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "WARNING: In hotstart for new matrices, reduced Hessian for initial working set has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
+
+		/* If enabling inertia correction is disabled, exit here */
+		if ( options.enableInertiaCorrection )
+		{
+			returnvalue = correctInertia();
+			if ( returnvalue == SUCCESSFUL_RETURN )
+			{
+				status = QPS_AUXILIARYQPSOLVED;
+				return SUCCESSFUL_RETURN;
+			}
+		}
+		else
+			return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+	}
+
+	/* 2) If inertia correction has failed or factorization yielded some other error,
+	 *    try to rebuild the active set with all simple bounds set according to initialStatusBounds
+	 *    (Note: in exact arithmetic, this cannot happen) */
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "WARNING: hotstart for old active set failed. Trying to rebuild a working set.\n");
+
+	Bounds      oldBounds      = bounds;
+	Constraints oldConstraints = constraints;
+
+	/* Move all inactive variables to a bound */
+	for ( i=0; i<nV; i++ )
+	{
+		#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
+		if ( bounds.getType( i ) == ST_EQUALITY )
+		{
+			if ( oldBounds.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		}
+		else
+		#endif
+		{
+			if ( oldBounds.getStatus( i ) == ST_INACTIVE )
+				if ( oldBounds.setStatus( i, options.initialStatusBounds ) != SUCCESSFUL_RETURN )
+					return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+		}
+	}
+
+	/* Set all equalities active */
+	#ifdef __ALWAYS_INITIALISE_WITH_ALL_EQUALITIES__
+	for( i=0; i<nC; ++i )
+	{
+		if ( constraints.getType( i ) == ST_EQUALITY )
+			if ( oldConstraints.setStatus( i,ST_LOWER ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+	}
+	#endif
+
+	/* Set all inequalities inactive */
+	for( i=0; i<nC; ++i )
+	{
+		if ( constraints.getType( i ) != ST_EQUALITY )
+			if ( oldConstraints.setStatus( i,ST_INACTIVE ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+	}
+
+	/* Reset bounds and constraints */
+	bounds.init( nV );
+	constraints.init( nC );
+
+	if ( setupSubjectToType(lb_new,ub_new,lbA_new,ubA_new ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	if ( bounds.setupAllFree( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	if ( constraints.setupAllInactive( ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* Setup working sets afresh. */
+	if ( setupAuxiliaryWorkingSet( &oldBounds,&oldConstraints,BT_TRUE ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_AUXILIARYQP_FAILED );
+
+	/* adjust lb/ub */
+	for (int_t ii = 0; ii < nC; ++ii)
+		Ax_l[ii] = Ax_u[ii] = Ax[ii];
+	setupAuxiliaryQPbounds (&bounds, &constraints, BT_FALSE);
+
+	status = QPS_AUXILIARYQPSOLVED;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p A u x i l i a r y W o r k i n g S e t
+ */
+returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBounds,
+														const Constraints* const auxiliaryConstraints,
+														BooleanType setupAfresh
+														)
+{
+	int_t i;
+	int_t nV = getNV( );
+	int_t nC = getNC( );
+
+	/* consistency checks */
+	if ( auxiliaryBounds != 0 )
+	{
+		for( i=0; i<nV; ++i )
+			if ( ( bounds.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryBounds->getStatus( i ) == ST_UNDEFINED ) )
+				return THROWERROR( RET_UNKNOWN_BUG );
+	}
+	else
+	{
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
+	if ( auxiliaryConstraints != 0 )
+	{
+		for( i=0; i<nC; ++i )
+			if ( ( constraints.getStatus( i ) == ST_UNDEFINED ) || ( auxiliaryConstraints->getStatus( i ) == ST_UNDEFINED ) )
+				return THROWERROR( RET_UNKNOWN_BUG );
+	}
+	else
+	{
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
+	/* I.) REMOVE INEQUALITY BOUNDS/CONSTRAINTS */
+
+	/* I.1) Remove inequality bounds that are active now but shall be
+	 *      inactive or active at the other bound according to auxiliaryBounds */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_LOWER ) && ( auxiliaryBounds->getStatus( i ) != ST_LOWER ) )
+			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+
+		if ( ( bounds.getStatus( i ) == ST_UPPER ) && ( auxiliaryBounds->getStatus( i ) != ST_UPPER ) )
+			if ( bounds.moveFixedToFree( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* I.2.) Remove inequality constraints that are active now but shall be
+	 *       inactive or active at the other bound according to auxiliaryConstraints */
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_LOWER ) && ( auxiliaryConstraints->getStatus( i ) != ST_LOWER ) )
+			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+
+		if ( ( constraints.getStatus( i ) == ST_UPPER ) && ( auxiliaryConstraints->getStatus( i ) != ST_UPPER ) )
+			if ( constraints.moveActiveToInactive( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* II.) ADD BOUNDS/CONSTRAINTS */
+
+	/* II.1.) Add bounds according to auxiliaryBounds */
+	for( i=0; i<nV; ++i )
+	{
+		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) )
+			if ( bounds.moveFreeToFixed( i, auxiliaryBounds->getStatus( i ) ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* II.2.) Add constraints according to auxiliaryConstraints */
+	for( i=0; i<nC; ++i )
+	{
+		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
+			if ( constraints.moveInactiveToActive( i,auxiliaryConstraints->getStatus( i ) ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+	}
+
+	/* III) FACTORIZATION */
+
+	/* III.1.) Factorize (resolves linear dependency) */
+	if( resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+
+	/* III.2.) Check if inertia is correct. If so, we now have a linearly independent working set with a pos def reduced Hessian */
+	int_t neig = sparseSolver->getNegativeEigenvalues( );
+	if ( neig == getNAC( ) )
+	{
+		/* We now have a linearly independent working set with a pos def reduced Hessian.
+		 * We need to correct the QP bounds and gradient after this. */
+		return SUCCESSFUL_RETURN;
+	}
+
+	/* IV.) INERTIA CORRECTION IF NECESSARY */
+
+	/* We now have a fresh factorization and can start the usual inertia correction routine */
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "WARNING: In setupAuxiliaryWorkingSet: Initial working set reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
+
+	if ( options.enableInertiaCorrection == BT_TRUE )
+		return correctInertia( );
+	else
+		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+}
+
+
+/*
+ *	c h o l e s k y D e c o m p o s i t i o n P r o j e c t e d
+ */
+returnValue SQProblemSchur::computeProjectedCholesky( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	c o m p u t e I n i t i a l C h o l e s k y
+ */
+returnValue SQProblemSchur::computeInitialCholesky( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p T Q f a c t o r i s a t i o n
+ */
+returnValue SQProblemSchur::setupTQfactorisation( )
+{
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	a d d C o n s t r a i n t
+ */
+returnValue SQProblemSchur::addConstraint(	int_t number, 
+											SubjectToStatus C_status,
+											BooleanType updateCholesky,
+											BooleanType ensureLI
+											)
+{
+	int_t idxDeleted = -1;
+
+	/* consistency checks */
+	if ( constraints.getStatus( number ) != ST_INACTIVE )
+		return THROWERROR( RET_CONSTRAINT_ALREADY_ACTIVE );
+
+	if ( ( constraints.getNC( ) - getNAC( ) ) == constraints.getNUC( ) )
+		return THROWERROR( RET_ALL_CONSTRAINTS_ACTIVE );
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+		 ( getStatus( ) == QPS_SOLVED )            )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+
+	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
+	 *    i.e. remove a constraint or bound if linear dependence occurs. */
+	if ( ensureLI == BT_TRUE )
+	{
+		returnValue ensureLIreturnvalue = addConstraint_ensureLI( number,C_status );
+
+		switch ( ensureLIreturnvalue )
+		{
+			case SUCCESSFUL_RETURN:
+				break;
+
+			case RET_LI_RESOLVED:
+				break;
+
+			case RET_ENSURELI_FAILED_NOINDEX:
+				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_FAILED_CYCLING:
+				return RET_ADDCONSTRAINT_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_DROPPED:
+				return SUCCESSFUL_RETURN;
+
+			default:
+				return THROWERROR( RET_ENSURELI_FAILED );
+		}
+	}
+
+	/* IV) UPDATE INDICES */
+	tabularOutput.idxAddC = number;
+	if ( constraints.moveInactiveToActive( number,C_status ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this constraint had been removed before. In that
+	   case delete this constraint from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_ConRemoved && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+			found = true;
+			idxDeleted = i;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Correct inertia if necessary. */
+			returnValue retval = resetSchurComplement( BT_TRUE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+					MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+			}
+			found = true;
+		}
+		else
+		{
+			/* If the constraint was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t* FR_idxStart;
+			boundsFreeStart.getNumberArray( &FR_idxStart );
+
+			sparse_int_t* MNpos = new sparse_int_t[nFRStart+nS]; // This is an overestimate
+			real_t* MNvals = new real_t[nFRStart+nS];
+
+			int_t* irn = new int_t[nFRStart+nS];
+			int_t* jcn = new int_t[nFRStart+nS];
+			real_t* vals = new real_t[nFRStart+nS];
+			int_t* icolsNumber = new int_t[nFRStart+nS];
+			int_t* icolsSIdx = new int_t[nS];
+
+			for ( int_t i=0; i<nFRStart; i++)
+				icolsNumber[i] = FR_idxStart[i];
+
+			int_t icolsLength = nFRStart;
+			for ( int_t i=0; i<nS; i++)
+				if ( schurUpdate[i] == SUT_VarFreed )
+				{
+					icolsNumber[icolsLength] = schurUpdateIndex[i];
+					icolsSIdx[icolsLength-nFRStart] = i;
+					icolsLength++;
+				}
+
+			if ( constraintProduct != 0 )
+			{
+				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
+				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			}
+			int_t numNonzerosA;
+			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
+			delete [] irn;
+
+			int_t numNonzerosM = 0;
+			int_t numNonzerosN = 0;
+			for ( int_t i=0; i<numNonzerosA; i++ )
+				if ( jcn[i] < nFRStart )
+				{
+					MNpos[numNonzerosM] = jcn[i];
+					MNvals[numNonzerosM] = vals[i];
+					numNonzerosM++;
+				}
+				else
+				{
+					MNpos[nFRStart+numNonzerosN] = icolsSIdx[jcn[i]-nFRStart];
+					MNvals[nFRStart+numNonzerosN] = vals[i];
+					numNonzerosN++;
+				}
+
+			returnValue returnvalue = addToSchurComplement( number, SUT_ConAdded, numNonzerosM, MNpos, MNvals, numNonzerosN, MNpos+nFRStart, MNvals+nFRStart, 0.0 );
+
+			delete [] icolsSIdx;
+			delete [] icolsNumber;
+			delete [] vals;
+			delete [] jcn;
+			delete [] MNvals;
+			delete [] MNpos;
+
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+
+			found = true;
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+
+	updateSchurQR( idxDeleted );
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR  && options.printLevel == PL_HIGH )
+				MyPrintf( "In addConstraint: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In addConstraint, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+
+/*
+ *	a d d C o n s t r a i n t _ c h e c k L I
+ */
+returnValue SQProblemSchur::addConstraint_checkLI( int_t number )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
+
+	delete [] xiB;
+	delete [] xiC;
+
+	return returnvalueCheckLI;
+}
+
+
+/*
+ *	a d d C o n s t r a i n t _ c h e c k L I S c h u r
+ */
+returnValue SQProblemSchur::addConstraint_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
+{
+	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
+
+	int_t ii;
+	int_t nV  = getNV( );
+	int_t nFR = getNFR( );
+	int_t nC  = getNC( );
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	int_t *FR_idx;
+
+	bounds.getFree( )->getNumberArray( &FR_idx );
+
+	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
+	{
+		/*
+		 * expensive LI test. Backsolve with refinement using special right
+		 * hand side. This gives an estimate for what should be considered
+		 * "zero". We then check linear independence relative to this estimate.
+		 */
+
+		int_t *FX_idx, *AC_idx, *IAC_idx;
+
+		real_t *delta_g   = new real_t[nV];
+		real_t *delta_xFX = new real_t[nFX];
+		real_t *delta_xFR = new real_t[nFR];
+		real_t *delta_yAC = xiC;
+		real_t *delta_yFX = xiB;
+
+		bounds.getFixed( )->getNumberArray( &FX_idx );
+		constraints.getActive( )->getNumberArray( &AC_idx );
+		constraints.getInactive( )->getNumberArray( &IAC_idx );
+
+		int_t dim = (nC>nV)?nC:nV;
+		real_t *nul = new real_t[dim];
+		for (ii = 0; ii < dim; ++ii)
+			nul[ii]=0.0;
+
+		A->getRow (number, 0, 1.0, delta_g);
+
+		returnValue dsdreturnvalue = determineStepDirection ( delta_g,
+											  nul, nul, nul, nul,
+											  BT_FALSE, BT_FALSE,
+											  delta_xFX, delta_xFR, delta_yAC, delta_yFX);
+		delete[] nul;
+
+		if (dsdreturnvalue!=SUCCESSFUL_RETURN)
+		{
+			/* nothing is known about linear independence */
+			delete[] delta_xFR;
+			delete[] delta_xFX;
+			delete[] delta_g;
+			return dsdreturnvalue;
+		}
+
+		/* compute the weight in inf-norm */
+		real_t weight = 0.0;
+		for (ii = 0; ii < nAC; ++ii)
+		{
+			real_t a = getAbs (delta_yAC[ii]);
+			if (weight < a) weight = a;
+		}
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_yFX[ii]);
+			if (weight < a) weight = a;
+		}
+
+		/* look at the "zero" in a relative inf-norm */
+		real_t zero = 0.0;
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_xFX[ii]);
+			if (zero < a) zero = a;
+		}
+		for (ii = 0; ii < nFR; ++ii)
+		{
+			real_t a = getAbs (delta_xFR[ii]);
+			if (zero < a) zero = a;
+		}
+
+		/* relative test against zero in inf-norm */
+		if (zero > options.epsLITests * weight)
+			returnvalue = RET_LINEARLY_INDEPENDENT;
+
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+		delete[] delta_g;
+
+	}
+	return THROWINFO( returnvalue );
+}
+
+
+/*
+ *	a d d C o n s t r a i n t _ e n s u r e L I
+ */
+returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatus C_status )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addConstraint_checkLISchur( number, xiC, xiB );
+
+	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return SUCCESSFUL_RETURN;
+	}
+
+	if ( returnvalueCheckLI != RET_LINEARLY_DEPENDENT )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return THROWERROR( RET_ENSURELI_FAILED );
+	}
+
+ 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
+	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
+	int_t i, ii;
+
+	if ( C_status != ST_LOWER )
+	{
+		for( i=0; i<nAC; ++i )
+			xiC[i] = -xiC[i];
+		for( i=0; i<nFX; ++i )
+			xiB[i] = -xiB[i];
+	}
+
+	int_t nV  = getNV( );
+
+	int_t* FX_idx;
+	bounds.getFixed( )->getNumberArray( &FX_idx );
+
+	int_t* AC_idx;
+	constraints.getActive( )->getNumberArray( &AC_idx );
+
+	real_t* num = new real_t[nV];
+
+	real_t y_min = options.maxDualJump;
+	int_t y_min_number = -1;
+	int_t y_min_number_bound = -1;
+	BooleanType y_min_isBound = BT_FALSE;
+
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+
+	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
+
+	/* 1) Constraints. */
+	for( i=0; i<nAC; ++i )
+	{
+		ii = AC_idx[i];
+		num[i] = y[nV+ii];
+	}
+
+	performRatioTest (nAC, AC_idx, &constraints, num, xiC, options.epsNum, options.epsDen, y_min, y_min_number);
+
+	/* 2) Bounds. */
+	for( i=0; i<nFX; ++i )
+	{
+		ii = FX_idx[i];
+		num[i] = y[ii];
+	}
+
+	performRatioTest (nFX, FX_idx, &bounds, num, xiB, options.epsNum, options.epsDen, y_min, y_min_number_bound);
+
+	if ( y_min_number_bound >= 0 )
+	{
+		y_min_number = y_min_number_bound;
+		y_min_isBound = BT_TRUE;
+	}
+
+	#ifndef __XPCTARGET__
+	/* setup output preferences */
+	char messageString[80];
+	#endif
+
+	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
+	if ( y_min_number >= 0 )
+	{
+		/* Update Lagrange multiplier... */
+		for( i=0; i<nAC; ++i )
+		{
+			ii = AC_idx[i];
+			y[nV+ii] -= y_min * xiC[i];
+		}
+		for( i=0; i<nFX; ++i )
+		{
+			ii = FX_idx[i];
+			y[ii] -= y_min * xiB[i];
+		}
+
+		/* ... also for newly active constraint... */
+		if ( C_status == ST_LOWER )
+			y[nV+number] = y_min;
+		else
+			y[nV+number] = -y_min;
+
+		/* ... and for constraint to be removed. */
+		if ( y_min_isBound == BT_TRUE )
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemB = 1;
+
+			y[y_min_number] = 0.0;
+		}
+		else
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemC = 1;
+
+			y[nV+y_min_number] = 0.0;
+		}
+	}
+	else
+	{
+		if (options.enableDropInfeasibles == BT_TRUE) {
+			/* dropping of infeasible constraints according to drop priorities */
+			returnvalue = dropInfeasibles (number, C_status, BT_FALSE, xiB, xiC);
+		}
+		else
+		{
+			/* no constraint/bound can be removed => QP is infeasible! */
+			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
+			setInfeasibilityFlag( returnvalue );
+		}
+	}
+
+farewell:
+	delete[] num;
+	delete [] xiB;
+	delete [] xiC;
+
+	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+
+	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
+}
+
+
+/*
+ *	a d d B o u n d
+ */
+returnValue SQProblemSchur::addBound(	int_t number,
+										SubjectToStatus B_status,
+										BooleanType updateCholesky,
+										BooleanType ensureLI
+										)
+{
+	int_t idxDeleted = -1;
+
+	/* consistency checks */
+	if ( bounds.getStatus( number ) != ST_INACTIVE )
+		return THROWERROR( RET_BOUND_ALREADY_ACTIVE );
+
+	if ( getNFR( ) == bounds.getNUV( ) )
+		return THROWERROR( RET_ALL_BOUNDS_ACTIVE );
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+ 		 ( getStatus( ) == QPS_SOLVED )            )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+
+	/* I) ENSURE LINEAR INDEPENDENCE OF THE WORKING SET,
+	 *    i.e. remove a constraint or bound if linear dependence occurs. */
+	if ( ensureLI == BT_TRUE )
+	{
+		returnValue ensureLIreturnvalue = addBound_ensureLI( number,B_status );
+
+		switch ( ensureLIreturnvalue )
+		{
+			case SUCCESSFUL_RETURN:
+				break;
+
+			case RET_LI_RESOLVED:
+				break;
+
+			case RET_ENSURELI_FAILED_NOINDEX:
+				return RET_ADDBOUND_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_FAILED_CYCLING:
+				return RET_ADDBOUND_FAILED_INFEASIBILITY;
+
+			case RET_ENSURELI_DROPPED:
+				return SUCCESSFUL_RETURN;
+
+			default:
+				return THROWERROR( RET_ENSURELI_FAILED );
+		}
+	}
+
+	/* II) UPDATE INDICES */
+	tabularOutput.idxAddB = number;
+	if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_ADDBOUND_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this variable had been freed before. In that
+	   case delete this variable from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_VarFreed && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_ADDBOUND_FAILED );
+			found = true;
+			idxDeleted = i;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Correct inertia if necessary. */
+			returnValue retval = resetSchurComplement( BT_TRUE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+					MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_ADDBOUND_FAILED );
+			}
+			found = true;
+		}
+		else
+		{
+			/* If the variable was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t* FR_idxStart;
+			boundsFreeStart.getNumberArray( &FR_idxStart );
+			for ( int_t i=0; i<nFRStart; i++ )
+				if ( FR_idxStart[i] == number )
+				{
+					real_t one = 1.0;
+					sparse_int_t pos = i;
+					if ( addToSchurComplement( number, SUT_VarFixed, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
+						return THROWERROR( RET_ADDBOUND_FAILED );
+					found = true;
+					break;
+				}
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_ADDBOUND_FAILED );
+
+	updateSchurQR( idxDeleted );
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+				MyPrintf( "In addBound: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In addBound, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	a d d B o u n d _ c h e c k L I
+ */
+returnValue SQProblemSchur::addBound_checkLI( int_t number )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
+
+	delete [] xiB;
+	delete [] xiC;
+
+	return returnvalueCheckLI;
+}
+
+/*
+ *	a d d B o u n d _ c h e c k L I S c h u r
+ */
+returnValue SQProblemSchur::addBound_checkLISchur( int_t number, real_t* xiC, real_t* xiB )
+{
+	returnValue returnvalue = RET_LINEARLY_DEPENDENT;
+
+
+	int_t ii;
+	int_t nV  = getNV( );
+	int_t nFR = getNFR( );
+	int_t nC  = getNC( );
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	int_t *FR_idx;
+
+	bounds.getFree( )->getNumberArray( &FR_idx );
+
+	/* For the Schur complement version we only use options.enableFullLITests = TRUE */
+	{
+		/*
+		 * expensive LI test. Backsolve with refinement using special right
+		 * hand side. This gives an estimate for what should be considered
+		 * "zero". We then check linear independence relative to this estimate.
+		 */
+
+		real_t *delta_g   = new real_t[nV];
+		real_t *delta_xFX = new real_t[nFX];
+		real_t *delta_xFR = new real_t[nFR];
+		real_t *delta_yAC = xiC;
+		real_t *delta_yFX = xiB;
+
+		for (ii = 0; ii < nV; ++ii)
+			delta_g[ii] = 0.0;
+		delta_g[number] = 1.0;
+
+		int_t dim = (nC>nV)?nC:nV;
+		real_t *nul = new real_t[dim];
+		for (ii = 0; ii < dim; ++ii)
+			nul[ii]=0.0;
+
+		returnValue dsdReturnValue = determineStepDirection (
+				delta_g, nul, nul, nul, nul, BT_FALSE, BT_FALSE,
+				delta_xFX, delta_xFR, delta_yAC, delta_yFX);
+		if (dsdReturnValue != SUCCESSFUL_RETURN)
+		{
+			/* nothing is known about linear independence */
+			delete[] nul;
+			delete[] delta_xFR;
+			delete[] delta_xFX;
+			delete[] delta_g;
+			return dsdReturnValue;
+		}
+
+		/* compute the weight in inf-norm */
+		real_t weight = 0.0;
+		for (ii = 0; ii < nAC; ++ii)
+		{
+			real_t a = getAbs (delta_yAC[ii]);
+			if (weight < a) weight = a;
+		}
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_yFX[ii]);
+			if (weight < a) weight = a;
+		}
+
+		/* look at the "zero" in a relative inf-norm */
+		real_t zero = 0.0;
+		for (ii = 0; ii < nFX; ++ii)
+		{
+			real_t a = getAbs (delta_xFX[ii]);
+			if (zero < a) zero = a;
+		}
+		for (ii = 0; ii < nFR; ++ii)
+		{
+			real_t a = getAbs (delta_xFR[ii]);
+			if (zero < a) zero = a;
+		}
+
+		/* relative test against zero in inf-norm */
+		if (zero > options.epsLITests * weight)
+			returnvalue = RET_LINEARLY_INDEPENDENT;
+
+		delete[] nul;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+		delete[] delta_g;
+
+	}
+	return THROWINFO( returnvalue );
+}
+
+
+/*
+ *	a d d B o u n d _ e n s u r e L I
+ */
+returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_status )
+{
+	/* Get space for the multipliers xi in linear independence test */
+	int_t nAC = getNAC();
+	int_t nFX = getNFX();
+	real_t *xiC = new real_t[nAC];
+	real_t *xiB = new real_t[nFX];
+
+	/* I) Check if new constraint is linearly independent from the active ones. */
+	returnValue returnvalueCheckLI = addBound_checkLISchur( number, xiC, xiB );
+
+	if ( returnvalueCheckLI == RET_LINEARLY_INDEPENDENT )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return SUCCESSFUL_RETURN;
+	}
+
+	if ( returnvalueCheckLI != RET_LINEARLY_DEPENDENT )
+	{
+		delete [] xiB;
+		delete [] xiC;
+		return THROWERROR( RET_ENSURELI_FAILED );
+	}
+
+ 	/* II) NEW BOUND IS LINEARLY DEPENDENT: */
+	/* 1) Coefficients of linear combination, have already been computed, but we need to correct the sign.  */
+	int_t i, ii;
+
+	if ( B_status != ST_LOWER )
+	{
+		for( i=0; i<nAC; ++i )
+			xiC[i] = -xiC[i];
+		for( i=0; i<nFX; ++i )
+			xiB[i] = -xiB[i];
+	}
+
+	int_t nV  = getNV( );
+
+	int_t* FX_idx;
+	bounds.getFixed( )->getNumberArray( &FX_idx );
+
+	int_t* AC_idx;
+	constraints.getActive( )->getNumberArray( &AC_idx );
+
+	real_t* num = new real_t[nV];
+
+	real_t y_min = options.maxDualJump;
+	int_t y_min_number = -1;
+	int_t y_min_number_bound = -1;
+	BooleanType y_min_isBound = BT_FALSE;
+
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+
+	/* III) DETERMINE CONSTRAINT/BOUND TO BE REMOVED. */
+
+	/* 1) Constraints. */
+	for( i=0; i<nAC; ++i )
+	{
+		ii = AC_idx[i];
+		num[i] = y[nV+ii];
+	}
+
+	performRatioTest( nAC,AC_idx,&constraints, num,xiC, options.epsNum, options.epsDen, y_min,y_min_number );
+
+	/* 2) Bounds. */
+	for( i=0; i<nFX; ++i )
+	{
+		ii = FX_idx[i];
+		num[i] = y[ii];
+	}
+
+	performRatioTest( nFX,FX_idx,&bounds, num,xiB, options.epsNum, options.epsDen, y_min,y_min_number_bound );
+
+	if ( y_min_number_bound >= 0 )
+	{
+		y_min_number = y_min_number_bound;
+		y_min_isBound = BT_TRUE;
+	}
+
+	/* IV) REMOVE CONSTRAINT/BOUND FOR RESOLVING LINEAR DEPENDENCE: */
+	char messageString[80];
+
+	if ( y_min_number >= 0 )
+	{
+		/* Update Lagrange multiplier... */
+		for( i=0; i<nAC; ++i )
+		{
+			ii = AC_idx[i];
+			y[nV+ii] -= y_min * xiC[i];
+		}
+		for( i=0; i<nFX; ++i )
+		{
+			ii = FX_idx[i];
+			y[ii] -= y_min * xiB[i];
+		}
+
+		/* ... also for newly active bound ... */
+		if ( B_status == ST_LOWER )
+			y[number] = y_min;
+		else
+			y[number] = -y_min;
+
+		/* ... and for bound to be removed. */
+		if ( y_min_isBound == BT_TRUE )
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"bound no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeBound( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemB = 1;
+
+			y[y_min_number] = 0.0;
+		}
+		else
+		{
+			#ifndef __XPCTARGET__
+			snprintf( messageString,80,"constraint no. %d.",(int)y_min_number );
+			getGlobalMessageHandler( )->throwInfo( RET_REMOVE_FROM_ACTIVESET,messageString,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+			#endif
+
+			if ( removeConstraint( y_min_number,BT_TRUE,BT_FALSE,BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				returnvalue = RET_REMOVE_FROM_ACTIVESET_FAILED;
+				goto farewell;
+			}
+			tabularOutput.excRemC = 1;
+
+			y[nV+y_min_number] = 0.0;
+		}
+	}
+	else
+	{
+		if (options.enableDropInfeasibles == BT_TRUE) {
+			/* dropping of infeasible constraints according to drop priorities */
+			returnvalue = dropInfeasibles (number, B_status, BT_TRUE, xiB, xiC);
+		}
+		else
+		{
+			/* no constraint/bound can be removed => QP is infeasible! */
+			returnvalue = RET_ENSURELI_FAILED_NOINDEX;
+			setInfeasibilityFlag( returnvalue );
+		}
+	}
+
+farewell:
+	delete[] num;
+	delete[] xiB;
+	delete[] xiC;
+
+	getGlobalMessageHandler( )->throwInfo( RET_LI_RESOLVED,0,__FUNCTION__,__FILE__,__LINE__,VS_VISIBLE );
+
+	return (returnvalue != SUCCESSFUL_RETURN) ? THROWERROR (returnvalue) : returnvalue;
+}
+
+
+
+/*
+ *	r e m o v e C o n s t r a i n t
+ */
+returnValue SQProblemSchur::removeConstraint(	int_t number,
+												BooleanType updateCholesky,
+												BooleanType allowFlipping,
+												BooleanType ensureNZC
+												)
+{
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+
+	int_t sModType = 0;
+	int_t idxDeleted = -1;
+	SubjectToStatus oldStatus;
+	real_t oldDet, newDet;
+
+	/* consistency check */
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+ 		 ( getStatus( ) == QPS_SOLVED )            )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+	/* some definitions */
+	int_t nAC = getNAC( );
+	int_t number_idx = constraints.getActive( )->getIndex( number );
+
+	int_t addIdx;
+	BooleanType addBoundNotConstraint;
+	SubjectToStatus addStatus;
+	BooleanType exchangeHappened = BT_FALSE;
+
+
+	/* consistency checks */
+	if ( constraints.getStatus( number ) == ST_INACTIVE )
+		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
+
+	if ( ( number_idx < 0 ) || ( number_idx >= nAC ) )
+		return THROWERROR( RET_CONSTRAINT_NOT_ACTIVE );
+
+	/* N) PERFORM ZERO CURVATURE TEST. */
+	if (ensureNZC == BT_TRUE)
+	{
+		returnvalue = ensureNonzeroCurvature(BT_FALSE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
+
+		if (returnvalue != SUCCESSFUL_RETURN)
+			return returnvalue;
+	}
+
+	/* save old constraint status and determinant of old S for flipping strategy */
+	oldStatus = constraints.getStatus( number );
+	oldDet = detS;
+
+	/* I) UPDATE INDICES */
+	tabularOutput.idxRemC = number;
+	if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this constraint had been added before. In that
+	   case delete this constraint from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_ConAdded && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+			found = true;
+			idxDeleted = i;
+			sModType = 2;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Don't check inertia here, may be corrected later! */
+			returnValue retval = resetSchurComplement( BT_FALSE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+					MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+			}
+			found = true;
+			sModType = 3;
+		}
+		else
+		{
+			/* If the constraint was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t nACStart = constraintsActiveStart.getLength();
+			int_t* AC_idxStart;
+			constraintsActiveStart.getNumberArray( &AC_idxStart );
+
+			for ( int_t i=0; i<nACStart; i++ )
+				if ( AC_idxStart[i] == number )
+				{
+					real_t one = 1.0;
+					sparse_int_t pos = nFRStart+i;
+					if ( addToSchurComplement( number, SUT_ConRemoved, 1, &pos, &one, 0, 0, 0, 0.0 ) != SUCCESSFUL_RETURN )
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+					found = true;
+					break;
+				}
+
+			sModType = 1;
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+
+	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
+
+	/* Flipping bounds strategy */
+	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
+	{
+		if ( sModType == 1 )
+		{/* Case 1: We added a row and column to S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet > 0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				nS--;
+
+				/* Flip bounds */
+				tabularOutput.idxAddC = number;
+				tabularOutput.excAddC = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						constraints.moveInactiveToActive( number, ST_UPPER );
+						ubA[number] = lbA[number];
+						Ax_l[number] = -Ax_u[number];
+						break;
+					case ST_UPPER:
+						constraints.moveInactiveToActive( number, ST_LOWER );
+						lbA[number] = ubA[number];
+						Ax_u[number] = -Ax_l[number];
+						break;
+					default:
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (larger) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 2 )
+		{/* Case 2: We deleted a row and column of S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet < 0.0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				undoDeleteFromSchurComplement( idxDeleted );
+
+				/* Flip bounds */
+				tabularOutput.idxAddC = number;
+				tabularOutput.excAddC = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						constraints.moveInactiveToActive( number, ST_UPPER );
+						ubA[number] = lbA[number];
+						Ax_l[number] = -Ax_u[number];
+						break;
+					case ST_UPPER:
+						constraints.moveInactiveToActive( number, ST_LOWER );
+						lbA[number] = ubA[number];
+						Ax_u[number] = -Ax_l[number];
+						break;
+					default:
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (smaller) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 3 )
+		{/* Case 3: S was reset. */
+
+			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
+			int_t neig = sparseSolver->getNegativeEigenvalues( );
+			if( neig > getNAC( ) ) // Wrong inertia!
+			{
+				/* Flip bounds and update Schur complement */
+				tabularOutput.idxAddC = number;
+				tabularOutput.excAddC = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						ubA[number] = lbA[number];
+						Ax_l[number] = -Ax_u[number];
+						addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						break;
+					case ST_UPPER:
+						lbA[number] = ubA[number];
+						Ax_u[number] = -Ax_l[number];
+						addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						break;
+					default:
+						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+				}
+			}
+
+			/* Check if flipping deleted the negative eigenvalue */
+			if( correctInertia( ) )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+		}
+		else
+		{/* None of the three cases happened */
+			return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
+		}
+	}
+	else
+	{/* No flipping strategy, update QR factorization of S */
+		updateSchurQR( idxDeleted );
+	}
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+				MyPrintf( "In removeConstraint: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In removeConstraint, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	if ( exchangeHappened == BT_TRUE )
+	{
+		/* add bound or constraint */
+
+		if ( addBoundNotConstraint )
+		{
+			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddB = 1;
+		}
+		else
+		{
+			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddC = 1;
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	r e m o v e B o u n d
+ */
+returnValue SQProblemSchur::removeBound(	int_t number,
+											BooleanType updateCholesky,
+											BooleanType allowFlipping,
+											BooleanType ensureNZC
+											)
+{
+	returnValue returnvalue = SUCCESSFUL_RETURN;
+	int_t addIdx;
+	BooleanType addBoundNotConstraint;
+	SubjectToStatus addStatus;
+	BooleanType exchangeHappened = BT_FALSE;
+
+	int_t sModType = 0;
+	int_t idxDeleted = -1;
+	SubjectToStatus oldStatus;
+	real_t oldDet, newDet;
+
+	/* consistency checks */
+	if ( bounds.getStatus( number ) == ST_INACTIVE )
+		return THROWERROR( RET_BOUND_NOT_ACTIVE );
+
+	if ( ( getStatus( ) == QPS_NOTINITIALISED )    ||
+		 ( getStatus( ) == QPS_AUXILIARYQPSOLVED ) ||
+		 ( getStatus( ) == QPS_HOMOTOPYQPSOLVED )  ||
+ 		 ( getStatus( ) == QPS_SOLVED )           )
+	{
+		return THROWERROR( RET_UNKNOWN_BUG );
+	}
+
+	/* N) PERFORM ZERO CURVATURE TEST. */
+	if (ensureNZC == BT_TRUE)
+	{
+		returnvalue = ensureNonzeroCurvature(BT_TRUE, number, exchangeHappened, addBoundNotConstraint, addIdx, addStatus);
+
+		if (returnvalue != SUCCESSFUL_RETURN)
+			return returnvalue;
+	}
+
+	/* save old bound status and determinant of old S for flipping strategy */
+	oldStatus = bounds.getStatus( number );
+	oldDet = detS;
+
+	/* I) UPDATE INDICES */
+	tabularOutput.idxRemB = number;
+	if ( bounds.moveFixedToFree( number ) != SUCCESSFUL_RETURN )
+		return THROWERROR( RET_REMOVEBOUND_FAILED );
+
+	/* Also update the Schur complement. */
+
+	/* First check if this variable had been fixed before. In that
+	   case delete this variable from the Schur complement. */
+	bool found = false;
+	for ( int_t i=0; i<nS; i++ )
+	{
+		if ( schurUpdate[i] == SUT_VarFixed && number == schurUpdateIndex[i] )
+		{
+			if ( deleteFromSchurComplement( i, BT_TRUE ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+			found = true;
+			idxDeleted = i;
+			sModType = 2;
+			break;
+		}
+	}
+	if ( !found )
+	{
+		if ( nS < 0 || nS==nSmax )
+		{
+			/* The schur complement has become too large, reset. */
+			/* Don't correct inertia here, may be corrected by flipping bounds! */
+			returnValue retval = resetSchurComplement( BT_FALSE );
+			if ( retval != SUCCESSFUL_RETURN )
+			{
+				if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH  )
+					MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
+				else if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+			}
+			found = true;
+			sModType = 3;
+		}
+		else
+		{
+			/* If the variable was not yet in Schur complement, add it now. */
+			int_t nFRStart = boundsFreeStart.getLength();
+			int_t nACStart = constraintsActiveStart.getLength();
+			int_t* FR_idxStart;
+			boundsFreeStart.getNumberArray( &FR_idxStart );
+			int_t* AC_idxStart;
+			constraintsActiveStart.getNumberArray( &AC_idxStart );
+
+			int_t numNonzerosM = 0;
+			sparse_int_t* Mpos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
+			real_t* Mvals = new real_t[nFRStart+nACStart+nS];
+			int_t numNonzerosN = 0;
+			sparse_int_t* Npos = new sparse_int_t[nFRStart+nACStart+nS]; // This is an overestimate
+			real_t* Nvals = new real_t[nFRStart+nACStart+nS];
+			real_t N_diag;
+
+			int_t* irn = new int_t[nFRStart+nACStart+nS+1];
+			int_t* jcn = new int_t[nFRStart+nACStart+nS+1];
+			real_t* vals = new real_t[nFRStart+nACStart+nS+1];
+			int_t iLength;
+			int_t* iNumber = new int_t[nFRStart+nACStart+nS+1];
+			int_t numNonzeros;
+			int_t* iSIdx = new int_t[nS];
+
+			/* First the Hessian part. */
+			real_t regularisation = options.epsRegularisation;
+			switch ( hessianType )
+			{
+				case HST_ZERO:
+					N_diag = regularisation;
+					break;
+
+				case HST_IDENTITY:
+					N_diag = 1.0 + regularisation;
+					break;
+
+				default:
+					N_diag = regularisation;
+					for ( int_t i=0; i<nFRStart; i++ )
+						iNumber[i] = FR_idxStart[i];
+					iLength = nFRStart;
+					for ( int_t i=0; i<nS; i++ )
+						if ( schurUpdate[i] == SUT_VarFreed )
+						{
+							iNumber[iLength] = schurUpdateIndex[i];
+							iSIdx[iLength-nFRStart] = i;
+							iLength++;
+						}
+					iNumber[iLength++] = number;
+
+					H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+
+					for ( int_t i=0; i<numNonzeros; i++ )
+					{
+						if ( irn[i] < nFRStart )
+						{
+							Mpos[numNonzerosM] = irn[i];
+							Mvals[numNonzerosM] = vals[i];
+							numNonzerosM++;
+						}
+						else if ( irn[i] != iLength-1 )
+						{
+							Npos[numNonzerosN] = iSIdx[irn[i] - nFRStart];
+							Nvals[numNonzerosN] = vals[i];
+							numNonzerosN++;
+						}
+						else
+							N_diag += vals[i];
+					}
+					break;
+			}
+
+			if ( constraintProduct != 0 )
+			{
+				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
+				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+			}
+
+			for ( int_t i=0; i<nACStart; i++ )
+				iNumber[i] = AC_idxStart[i];
+			iLength = nACStart;
+			for ( int_t i=0; i<nS; i++ )
+				if ( schurUpdate[i] == SUT_ConAdded )
+				{
+					iNumber[iLength] = schurUpdateIndex[i];
+					iSIdx[iLength-nACStart] = i;
+					iLength++;
+				}
+
+			A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+
+			for ( int_t i=0; i<numNonzeros; i++ )
+			{
+				if ( irn[i] < nACStart )
+				{
+					Mpos[numNonzerosM] = irn[i] + nFRStart;
+					Mvals[numNonzerosM] = vals[i];
+					numNonzerosM++;
+				}
+				else
+				{
+					Npos[numNonzerosN] = iSIdx[irn[i] - nACStart];
+					Nvals[numNonzerosN] = vals[i];
+					numNonzerosN++;
+				}
+			}
+
+			delete [] iSIdx;
+			delete [] iNumber;
+			delete [] vals;
+			delete [] jcn;
+			delete [] irn;
+
+			returnvalue = addToSchurComplement( number, SUT_VarFreed, numNonzerosM, Mpos, Mvals, numNonzerosN, Npos, Nvals, N_diag );
+
+			delete [] Mvals;
+			delete [] Mpos;
+			delete [] Nvals;
+			delete [] Npos;
+
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+
+			found = true;
+			sModType = 1;
+		}
+	}
+
+	if ( !found )
+		return THROWERROR( RET_REMOVEBOUND_FAILED );
+
+	/* Now we have a new Schur complement (might be smaller, larger, or empty). Update QR factorization. */
+
+	/* Flipping bounds strategy */
+	if ( ( options.enableFlippingBounds == BT_TRUE ) && ( allowFlipping == BT_TRUE ) && ( exchangeHappened == BT_FALSE ) )
+	{
+		if ( sModType == 1 )
+		{/* Case 1: We added a row and column to S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have THE SAME sign */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet > 0.0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				nS--;
+
+				/* Flip bounds */
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						bounds.moveFreeToFixed( number, ST_UPPER );
+						ub[number] = lb[number];
+						break;
+					case ST_UPPER:
+						bounds.moveFreeToFixed( number, ST_LOWER );
+						lb[number] = ub[number];
+						break;
+					default:
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (larger) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 2 )
+		{/* Case 2: We deleted a row and column of S. */
+
+			/* Check if a direction of negative curvature showed up, i.e. determinants have DIFFERENT signs */
+			newDet = calcDetSchur( idxDeleted );
+
+			if ( oldDet * newDet < 0.0 )
+			{
+				hessianType = HST_SEMIDEF;
+
+				/* Restore old S */
+				undoDeleteFromSchurComplement( idxDeleted );
+
+				/* Flip bounds */
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						bounds.moveFreeToFixed( number, ST_UPPER );
+						ub[number] = lb[number];
+						break;
+					case ST_UPPER:
+						bounds.moveFreeToFixed( number, ST_LOWER );
+						lb[number] = ub[number];
+						break;
+					default:
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
+			}
+			else
+			{/* Determinants have the correct sign, compute QR of new (smaller) S */
+				updateSchurQR( idxDeleted );
+			}
+		}
+		else if ( sModType == 3 )
+		{/* Case 3: S was reset. */
+
+			/* Check inertia of new factorization given by the sparse solver: must be ( nFR, nAC, 0 ) */
+			int_t neig = sparseSolver->getNegativeEigenvalues( );
+			if( neig > getNAC( ) ) // Wrong inertia, flip bounds!
+			{
+				/* Flip bounds and update Schur complement */
+				tabularOutput.idxAddB = number;
+				tabularOutput.excAddB = 2;
+				switch ( oldStatus )
+				{
+					case ST_LOWER:
+						ub[number] = lb[number];
+						addBound( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						break;
+					case ST_UPPER:
+						lb[number] = ub[number];
+						addBound( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						break;
+					default:
+						return THROWERROR( RET_MOVING_BOUND_FAILED );
+				}
+			}
+
+			/* Check if flipping deleted the negative eigenvalue */
+			if( correctInertia( ) )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
+		}
+		else
+		{/* None of the three cases happened */
+			return THROWERROR( RET_REMOVEBOUND_FAILED );
+		}
+	}
+	else
+	{/* No flipping strategy, update QR factorization of S */
+		updateSchurQR( idxDeleted );
+	}
+
+	/* If reciprocal of condition number becomes to small, refactorize KKT matrix */
+	if( rcondS < options.rcondSMin )
+	{
+		returnValue retval = resetSchurComplement( BT_TRUE );
+		if ( retval != SUCCESSFUL_RETURN )
+		{
+			if ( retval == RET_KKT_MATRIX_SINGULAR && options.printLevel == PL_HIGH )
+				MyPrintf( "In removeBound: KKT matrix singular when resetting Schur complement\n" );
+			else if ( options.printLevel == PL_HIGH )
+				MyPrintf( "In removeBound, resetSchurComplement failed with retval = %d\n", retval);
+			return THROWERROR( RET_ADDCONSTRAINT_FAILED );
+		}
+	}
+
+	if ( exchangeHappened == BT_TRUE )
+	{
+		/* add bound or constraint */
+
+		if ( addBoundNotConstraint )
+		{
+			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddB = 1;
+		}
+		else
+		{
+			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			tabularOutput.excAddC = 1;
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	s e t u p T Q f a c t o r i s a t i o n
+ */
+returnValue SQProblemSchur::backsolveT( const real_t* const b, BooleanType transposed, real_t* const a ) const
+{
+	return THROWERROR( RET_UNKNOWN_BUG );
+}
+
+
+/*
+ *	b a c k s o l v e R
+ */
+returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, real_t* const a 	) const
+{
+	return THROWERROR( RET_UNKNOWN_BUG );
+}
+
+
+/*
+ *	b a c k s o l v e R
+ */
+returnValue SQProblemSchur::backsolveR(	const real_t* const b, BooleanType transposed, BooleanType removingBound, real_t* const a ) const
+{
+	return THROWERROR( RET_UNKNOWN_BUG );
+}
+
+
+/*
+ *	c a l c D e t S c h u r
+ */
+real_t SQProblemSchur::calcDetSchur( int_t idxDel )
+{
+	if ( nS <= 0 )
+		return 1.0;
+
+	real_t newDet;
+	int_t i, j;
+	real_t c, s, nu;
+
+	/* Case 1: S has been bordered by one row and column */
+	if( idxDel < 0 )
+	{
+		/* Do a solve with the old S to check determinant of new (bordered) S */
+		real_t *temp1 = new real_t[nS-1];
+		real_t *temp2 = new real_t[nS-1];
+		for( i=0; i<nS-1; i++ )
+			temp1[i] = S[i + (nS-1)*nSmax];
+		backsolveSchurQR( nS-1, temp1, 1, temp2 );
+
+		newDet = S[(nS-1) + (nS-1)*nSmax];
+		for( i=0; i<nS-1; i++ )
+			newDet -= temp1[i]*temp2[i];
+		newDet *= detS;
+		delete [] temp1;
+		delete [] temp2;
+	}
+	/* Case 2: row and column idxDel have been deleted from S */
+	else
+	{
+		const int_t dim = nS+1;
+		real_t *tempR = new real_t[dim*(dim-1)];
+		real_t *tempColQ = new real_t[dim];
+
+		/* Copy current R without column idxDel*/
+		for( j=0; j<idxDel; j++ )
+			for( i=0; i<dim; i++ )
+				tempR[i+j*dim] = R_[i+j*nSmax];
+		for( j=idxDel; j<dim-1; j++ )
+			for( i=0; i<dim; i++ )
+				tempR[i+j*dim] = R_[i+(j+1)*nSmax];
+		/* Copy row idxDel of Q */
+		for( j=0; j<dim; j++ )
+			tempColQ[j] = Q_[idxDel+j*nSmax];
+
+		/* Bring tempR to triangular form with nS-idxDel Givens rotations */
+		for ( i=idxDel; i<nS; i++ )
+		{
+			computeGivens( tempR[i+i*dim], tempR[(i+1)+i*dim], tempR[i+i*dim], tempR[(i+1)+i*dim], c, s );
+			nu = s/(1.0+c);
+			/// \todo I think we do not need to transform all columns of R, i+3 or so should be sufficient
+			for ( j=i+1; j<nS; j++ )
+				applyGivens( c, s, nu, tempR[i+j*dim], tempR[(i+1)+j*dim], tempR[i+j*dim], tempR[(i+1)+j*dim] );
+
+			/* Simultaneously transform relevant column of Q**T */
+			applyGivens( c, s, nu, tempColQ[i], tempColQ[i+1], tempColQ[i], tempColQ[i+1] );
+		}
+
+		/* Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
+		for ( i=nS; i>0; i-- )
+		{
+			computeGivens( tempColQ[nS], tempColQ[i-1], tempColQ[nS], tempColQ[i-1], c, s );
+			nu = s/(1.0+c);
+
+			/* Simultaneously transform diagonal elements of R (coldim is already one less than Q) */
+			applyGivens( c, s, nu, tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim], tempR[nS+(i-1)*dim], tempR[(i-1)+(i-1)*dim] );
+		}
+
+		/* Note that we implicitly did a row permutation of Q.
+		 * If we did an  odd permutation AND deleted a positive unity vector or
+		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
+		 * ->Change signs of first column of Q and first row of R */
+		if ( (( (nS - idxDel) % 2 == 1 ) && ( tempColQ[nS] > 0.0 )) ||
+			(( (nS - idxDel) % 2 == 0 ) && ( tempColQ[nS] < 0.0 )) )
+		{
+			tempR[0] = -tempR[0];
+		}
+
+		newDet = 1.0;
+		//for( i=0; i<nS; i++ )
+			//newDet *= tempR[i+i*dim];
+		for( i=0; i<nS; i++ )
+			if( tempR[i+i*dim] < 0.0 ) newDet = -newDet;
+		delete [] tempR;
+		delete [] tempColQ;
+	}
+
+	return newDet;
+}
+
+
+/*
+ *	u p d a t e S c h u r Q R
+ */
+returnValue SQProblemSchur::updateSchurQR( int_t idxDel )
+{
+	int_t i, j;
+	real_t c, s, nu;
+
+	if ( nS <= 0 )
+	{
+		detS = 1.0;
+		rcondS = 1.0;
+		return SUCCESSFUL_RETURN;
+	}
+
+	/* Case 1: S has been bordered by one row and column */
+	if ( idxDel < 0 )
+	{
+		/* I: Augment Q**T by nS-th unity vector (row and column) */
+		for ( i=0; i<nS; i++ )
+		{
+			Q_[i+(nS-1)*nSmax] = 0.0;
+			Q_[(nS-1)+i*nSmax] = 0.0;
+		}
+		Q_[(nS-1)+(nS-1)*nSmax] = 1.0;
+
+		/* IIa: Augment rows of R by last row of S */
+		for ( i=0; i<nS; i++ )
+			R_[(nS-1)+i*nSmax] = S[(nS-1)+i*nSmax];
+
+		/* IIb: Augment columns of R by Q**T * S[nS,:] */
+		for ( i=0; i<nS; i++ )
+		{
+			R_[i+(nS-1)*nSmax] = 0.0;
+			for ( j=0; j<nS; j++ )
+				R_[i+(nS-1)*nSmax] += Q_[j+i*nSmax] * S[j+(nS-1)*nSmax];
+		}
+
+		/* III: Restore triangular form of R by nS-1 Givens rotations */
+		for ( i=0; i<nS-1; i++ )
+		{
+			computeGivens( R_[i+i*nSmax], R_[(nS-1)+i*nSmax], R_[i+i*nSmax], R_[(nS-1)+i*nSmax], c, s );
+			nu = s/(1.0+c);
+			for ( j=i+1; j<nS; j++ )
+				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(nS-1)+j*nSmax], R_[i+j*nSmax], R_[(nS-1)+j*nSmax] );
+
+			/* Simultaneously transform Q**T */
+			for ( j=0; j<nS; j++ )
+				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax], Q_[j+i*nSmax], Q_[j+(nS-1)*nSmax] );
+		}
+	}
+	/* Case 2: row and column idxDel have been deleted from S */
+	else
+	{
+		/* I: Delete column idxDel of R */
+		for ( j=idxDel; j<nS; j++ )
+			for ( i=0; i<nS+1; i++ )
+				R_[i+j*nSmax] = R_[i+(j+1)*nSmax];
+
+		/* II: Bring R back to triangular form with nS-idxDel Givens rotations */
+		for ( i=idxDel; i<nS; i++ )
+		{
+			computeGivens( R_[i+i*nSmax], R_[(i+1)+i*nSmax], R_[i+i*nSmax], R_[(i+1)+i*nSmax], c, s );
+			nu = s/(1.0+c);
+			for ( j=i+1; j<nS; j++ )
+				applyGivens( c, s, nu, R_[i+j*nSmax], R_[(i+1)+j*nSmax], R_[i+j*nSmax], R_[(i+1)+j*nSmax] );
+
+			/* Simultaneously transform (old) Q**T (coldim is one larger)*/
+			for ( j=0; j<nS+1; j++ )
+				applyGivens( c, s, nu, Q_[j+i*nSmax], Q_[j+(i+1)*nSmax], Q_[j+i*nSmax], Q_[j+(i+1)*nSmax] );
+		}
+
+		/* III: Permute rows of Q: move row idxDel to position nS */
+		real_t temp;
+		for ( j=0; j<nS+1; j++ )
+		{
+			temp = Q_[idxDel+j*nSmax];
+			for ( i=idxDel; i<nS; i++ )
+				Q_[i+j*nSmax] = Q_[(i+1)+j*nSmax];
+			Q_[nS+j*nSmax] = temp;
+		}
+
+		/* IV: Delete row: nS Givens rotations to transform last column (and row!) of (old) Q**T to getAbs((nS+1)-th unity vector) */
+		for ( i=nS; i>0; i-- )
+		{
+			computeGivens( Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], Q_[nS+nS*nSmax], Q_[nS+(i-1)*nSmax], c, s );
+			nu = s/(1.0+c);
+			for ( j=0; j<nS; j++ )
+				applyGivens( c, s, nu, Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax], Q_[j+nS*nSmax], Q_[j+(i-1)*nSmax] );
+
+			/* Simultaneously transform R (coldim is already one less than Q) */
+			for ( j=i-1; j<nS; j++ )
+				applyGivens( c, s, nu, R_[nS+j*nSmax], R_[(i-1)+j*nSmax], R_[nS+j*nSmax], R_[(i-1)+j*nSmax] );
+		}
+
+		/* If we did an  odd permutation AND deleted a positive unity vector or
+		 * if we did an even permutation AND deleted a negative unity vector, then det(Q)=-1
+		 * ->Change signs of first column of Q and first row of R s.t. we always maintain det(Q)=1 */
+		if ( (( (nS - idxDel) % 2 == 1 ) && ( Q_[nS+nS*nSmax] > 0.0 )) ||
+			(( (nS - idxDel) % 2 == 0 ) && ( Q_[nS+nS*nSmax] < 0.0 )) )
+		{
+			for ( i=0; i<nS+1; i++ )
+				Q_[i] = -Q_[i];
+			for ( i=0; i<nS; i++ )
+				R_[i*nSmax] = -R_[i*nSmax];
+		}
+	}
+
+	/* Compute determinant */
+	detS = 1.0;
+	//for ( i=0; i<nS; i++ )
+		//detS *= R_[i+i*nSmax];
+	for ( i=0; i<nS; i++ )
+		if( R_[i+i*nSmax] < 0.0 ) detS = -detS;
+
+	/* Estimate condition number of R (= condition number of S)*/
+	real_t *WORK;
+	unsigned long N = (unsigned long)nS;
+	unsigned long LDA = (unsigned long)nSmax;
+	unsigned long *IWORK;
+	long INFO = 0;
+	IWORK = new unsigned long[N];
+	WORK = new real_t[3*N];
+	TRCON( "1", "U", "N", &N, R_, &LDA, &rcondS, WORK, IWORK, &INFO );
+	if ( INFO != 0 )
+	{
+		MyPrintf( "TRCON returns INFO = %d\n",(int)INFO );
+	}
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "1/cond(S) = %23.16e.\n", rcondS );
+
+	delete[] IWORK;
+	delete[] WORK;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+/*
+ *	b a c k s o l v e S c h u r Q R
+ */
+returnValue SQProblemSchur::backsolveSchurQR( int_t dimS, const real_t* const rhs, int_t dimRhs, real_t* const sol )
+{
+	if( dimS < 1 || dimRhs < 1 )
+		return SUCCESSFUL_RETURN;
+
+	if( dimRhs > 1 )
+	{
+		MyPrintf("backsolve not implemented for dimRhs = %d\n", dimRhs);
+		return RET_QR_FACTORISATION_FAILED;
+	}
+
+	int_t i, j;
+	long INFO = 0;
+	unsigned long NRHS = 1;
+	unsigned long M = (unsigned long)dimS;
+	unsigned long LDA = (unsigned long)nSmax;
+	unsigned long LDC = (unsigned long)dimS;
+
+	for( i=0; i<dimS; i++ )
+		sol[i] = 0.0;
+
+	/* Compute sol = Q**T * rhs */
+	for( i=0; i<dimS; i++ )
+		for( j=0; j<dimS; j++ )
+			sol[i] += Q_[j+i*nSmax] * rhs[j];
+
+	/* Solve Rx = sol */
+	TRTRS( "U", "N", "N", &M, &NRHS, R_, &LDA, sol, &LDC, &INFO );
+	if ( INFO != 0 )
+	{
+		MyPrintf("TRTRS returns INFO = %d\n", INFO);
+		if ( INFO == ((long)0xDEADBEEF) )
+			MyPrintf( "If SQProblemSchur is to be used, system LAPACK must be used instead of the qpOASES LAPACK replacement" );
+		return RET_QR_FACTORISATION_FAILED;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue SQProblemSchur::stepCalcRhs(	int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, real_t& rhs_max, 
+											const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
+											const real_t* const delta_lb, const real_t* const delta_ub,
+											BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
+											real_t* const delta_xFX, real_t* const delta_xFR,
+											real_t* const delta_yAC, real_t* const delta_yFX
+											)
+{
+	int_t i, ii;
+	returnValue retval;
+
+	if ( nS < 0 )
+	{
+		retval = resetSchurComplement( BT_FALSE );
+		if (retval != SUCCESSFUL_RETURN)
+		{
+			MyPrintf( "In SQProblemSchur::stepCalcRhs, resetSchurComplement returns %d\n", retval);
+			return THROWERROR( retval );
+		}
+	}
+
+	/* tempA and tempB hold the residuals in gFR and bA (= lbA or ubA)
+	 * delta_xFR, delta_yAC hold the steps that get refined */
+	for ( i=0; i<nFR; ++i )
+	{
+		ii = FR_idx[i];
+		tempA[i] = delta_g[ii];
+		delta_xFR[i] = 0.0;
+	}
+	for ( i=0; i<nAC; ++i )
+		delta_yAC[i] = 0.0;
+	if ( Delta_bC_isZero == BT_FALSE )
+	{
+		for ( i=0; i<nAC; ++i )
+		{
+			ii = AC_idx[i];
+			if ( constraints.getStatus( ii ) == ST_LOWER )
+				tempB[i] = delta_lbA[ii];
+			else
+				tempB[i] = delta_ubA[ii];
+		}
+	}
+	else
+	{
+		for ( i=0; i<nAC; ++i )
+			tempB[i] = 0.0;
+	}
+	if ( ( hessianType != HST_IDENTITY ) && ( hessianType != HST_ZERO ) )
+	{
+		/* tempA becomes RHS for reduced augmented system, gFR+H_FX*delta_xFR */
+		H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
+	}
+	/* tempB becomes RHS for reduced augmented system, bA-A_CX*delta_xFR */
+	A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
+
+	/* If iterative refinement is requested, compute max-norm of RHS for termination test. */
+	rhs_max = 0.0;
+	if ( options.numRefinementSteps > 0 )
+	{
+		for ( i=0; i<nFR; i++ )
+			rhs_max = getMax(rhs_max, getAbs(tempA[i]));
+		for ( i=0; i<nAC; i++ )
+			rhs_max = getMax(rhs_max, getAbs(tempB[i]));
+	}
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcReorder(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* rhs)
+{
+	int_t i, ii;
+	/* Reorder information for the new to the old free variables. */
+	i = 0;
+	ii = 0;
+	while ( ii < nFRStart )
+	{
+		if ( i == nFR )
+			rhs[FR_iSortStart[ii++]] = 0.0;
+		else
+		{
+			int_t idx = FR_idx[FR_iSort[i]];
+			int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
+
+			if ( idx == idxStart )
+				rhs[FR_iSortStart[ii++]] = -tempA[FR_iSort[i++]];
+			else if ( idx < idxStart )
+				i++;
+			else
+				rhs[FR_iSortStart[ii++]] = 0.0;
+		}
+	}
+	/* Reorder information for the new to the old active constraints. */
+	i = 0;
+	ii = 0;
+	while ( ii < nACStart )
+	{
+		if ( i == nAC )
+			rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
+		else
+		{
+			int_t idx = AC_idx[AC_iSort[i]];
+			int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
+
+			if ( idx == idxStart )
+				rhs[nFRStart+AC_iSortStart[ii++]] = tempB[AC_iSort[i++]];
+			else if ( idx < idxStart )
+				i++;
+			else
+				rhs[nFRStart+AC_iSortStart[ii++]] = 0.0;
+		}
+	}
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, int_t dim, real_t* rhs, real_t* sol )
+{
+	returnValue retval;
+	int_t i, ii;
+
+	real_t* q = new real_t[nS];
+
+	/* Compute extra compoments of the RHS */
+	for ( ii=0; ii<nS; ii++ )
+	{
+		int_t idx = schurUpdateIndex[ii];
+		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
+		{
+			case SUT_VarFixed:
+				q[ii] = 0.0;
+				break;
+
+			case SUT_VarFreed:
+				/* Find index of freed variable */
+				for( i=0; i<nFR; ++i )
+					if ( FR_idx[i] == idx )
+					{
+						q[ii] = -tempA[i];
+						break;
+					}
+				break;
+
+			case SUT_ConAdded:
+				/* Find index of added constraint */
+				for( i=0; i<nAC; ++i )
+					if ( AC_idx[i] == idx )
+					{
+						q[ii] = tempB[i];
+						break;
+					}
+				break;
+
+			case SUT_ConRemoved:
+				q[ii] = 0.0;
+				break;
+
+			default:
+				return THROWERROR( RET_UNKNOWN_BUG );
+		}
+	}
+
+	/* compute q = M^T K^{-1} r - q */
+	computeMTransTimes(1.0, sol, -1.0, q);
+
+	/* Solve linear system with Schur complement. */
+	real_t* p = new real_t[nS];
+	backsolveSchurQR( nS, q, 1, p );
+
+	computeMTimes(-1.0, p, 1.0, rhs);
+
+	retval = sparseSolver->solve(dim, rhs, sol);
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		MyPrintf( "sparseSolver->solve (second time) failed.\n");
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
+	}
+
+	/* Transfer extra compoments of the Schur complement solution to the correct place. */
+	for ( ii=0; ii<nS; ii++ )
+	{
+		int_t idx = schurUpdateIndex[ii];
+		switch ( schurUpdate[ii] ) // TODO: All the loops below could be done faster by binary search or so
+		{
+			case SUT_VarFixed:
+				break;
+
+			case SUT_VarFreed:
+				/* Find index of freed variable */
+				for( i=0; i<nFR; ++i )
+					if ( FR_idx[i] == idx )
+					{
+						delta_xFR_TMP[i] = p[ii];
+						break;
+					}
+				break;
+
+			case SUT_ConAdded:
+				/* Find index of added constraint */
+				for( i=0; i<nAC; ++i )
+					if ( AC_idx[i] == idx )
+					{
+						delta_yAC_TMP[i] = -p[ii];
+						break;
+					}
+				break;
+
+			case SUT_ConRemoved:
+				break;
+
+			default:
+				return THROWERROR( RET_UNKNOWN_BUG );
+		}
+	}
+
+	delete [] p;
+	delete [] q;
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcReorder2(int_t nFR, int_t nAC, int_t* FR_idx, int_t* AC_idx, int_t nFRStart, int_t nACStart, int_t* FR_idxStart, int_t* AC_idxStart, int_t* FR_iSort, int_t* FR_iSortStart, int_t* AC_iSort, int_t* AC_iSortStart, real_t* sol, real_t* const delta_xFR, real_t* const delta_yAC)
+{
+	int_t i, ii;
+			i = 0;
+			ii = 0;
+			while ( ii < nFRStart && i < nFR )
+			{
+				int_t idx = FR_idx[FR_iSort[i]];
+				int_t idxStart = FR_idxStart[FR_iSortStart[ii]];
+
+				if ( idx == idxStart )
+					delta_xFR_TMP[FR_iSort[i++]] = sol[FR_iSortStart[ii++]];
+				else if ( idx < idxStart )
+					i++;
+				else
+					ii++;
+			}
+			/* Transfer Schur complement solution for the active constraint multipliers to the correct places */
+			i = 0;
+			ii = 0;
+			while ( ii < nACStart && i < nAC )
+			{
+				int_t idx = AC_idx[AC_iSort[i]];
+				int_t idxStart = AC_idxStart[AC_iSortStart[ii]];
+
+				if ( idx == idxStart )
+					delta_yAC_TMP[AC_iSort[i++]] = -sol[nFRStart+AC_iSortStart[ii++]];
+				else if ( idx < idxStart )
+					i++;
+				else
+					ii++;
+			}
+
+			/* refine the solution found so far */
+			for ( i=0; i<nFR; ++i )
+				delta_xFR[i] += delta_xFR_TMP[i];
+			for ( i=0; i<nAC; ++i )
+				delta_yAC[i] += delta_yAC_TMP[i];
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcResid(int_t nFR, int_t nFX, int_t nAC, int_t* FR_idx, int_t* FX_idx, int_t* AC_idx, BooleanType Delta_bC_isZero, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA, real_t& rnrm)
+{
+	int_t i, ii;
+				/* compute residuals in tempA and tempB, and max-norm */
+				for ( i=0; i<nFR; ++i )
+				{
+					ii = FR_idx[i];
+					tempA[i] = delta_g[ii];
+				}
+
+				switch ( hessianType )
+				{
+					case HST_ZERO:
+						break;
+
+					case HST_IDENTITY:
+						for ( i=0; i<nFR; ++i )
+							tempA[i] += delta_xFR[i];
+						break;
+
+					default:
+						H->times(bounds.getFree(), bounds.getFree(),  1, 1.0, delta_xFR, nFR, 1.0, tempA, nFR);
+						H->times(bounds.getFree(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, tempA, nFR);
+						break;
+				}
+
+				for ( i=0; i<nFR; ++i )
+					tempA[i] += options.epsRegularisation*delta_xFR[i];
+
+				A->transTimes(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_yAC, nAC, 1.0, tempA, nFR);
+				rnrm = 0.0;
+				for ( i=0; i<nFR; ++i )
+					if (rnrm < getAbs (tempA[i]))
+						rnrm = getAbs (tempA[i]);
+
+				if (!Delta_bC_isZero)
+				{
+					for ( i=0; i<nAC; ++i )
+					{
+						ii = AC_idx[i];
+						if ( constraints.getStatus( ii ) == ST_LOWER )
+							tempB[i] = delta_lbA[ii];
+						else
+							tempB[i] = delta_ubA[ii];
+					}
+				}
+				else
+				{
+					for ( i=0; i<nAC; ++i )
+						tempB[i] = 0.0;
+				}
+
+				A->times(constraints.getActive(), bounds.getFree(), 1, -1.0, delta_xFR, nFR, 1.0, tempB, nAC);
+
+				A->times(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_xFX, nFX, 1.0, tempB, nAC);
+				for ( i=0; i<nAC; ++i )
+					if (rnrm < getAbs (tempB[i]))
+						rnrm = getAbs (tempB[i]);
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::stepCalcDeltayFx(int_t nFR, int_t nFX, int_t nAC, int_t* FX_idx, const real_t* const delta_g, real_t* const delta_xFX, real_t* const delta_xFR, real_t* const delta_yAC, real_t* const delta_yFX)
+{
+	int_t i;
+		for( i=0; i<nFX; ++i )
+			delta_yFX[i] = delta_g[FX_idx[i]];
+
+		A->transTimes(constraints.getActive(), bounds.getFixed(), 1, -1.0, delta_yAC, nAC, 1.0, delta_yFX, nFX);
+
+		if ( hessianType == HST_ZERO )
+		{
+		  // TODO: if ( usingRegularisation( ) == BT_TRUE )
+				for( i=0; i<nFX; ++i )
+					delta_yFX[i] += options.epsRegularisation*delta_xFX[i];
+		}
+		else if ( hessianType == HST_IDENTITY )
+		{
+			for( i=0; i<nFX; ++i )
+				delta_yFX[i] += delta_xFX[i];
+		}
+		else
+		{
+			H->times(bounds.getFixed(), bounds.getFree(), 1, 1.0, delta_xFR, nFR, 1.0, delta_yFX, nFX);
+			H->times(bounds.getFixed(), bounds.getFixed(), 1, 1.0, delta_xFX, nFX, 1.0, delta_yFX, nFX);
+		}
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
+												const real_t* const delta_lb, const real_t* const delta_ub,
+												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
+												real_t* const delta_xFX, real_t* const delta_xFR,
+												real_t* const delta_yAC, real_t* const delta_yFX
+												)
+{
+	returnValue retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
+													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
+													delta_yAC, delta_yFX
+													);
+
+	if ( retval == RET_QR_FACTORISATION_FAILED )
+	{
+		retval = resetSchurComplement( BT_FALSE );
+		if (retval != SUCCESSFUL_RETURN)
+		{
+			MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
+			return THROWERROR( retval );
+		}
+		retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
+													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
+													delta_yAC, delta_yFX
+													);
+	}
+	return retval;
+}
+
+/*
+ *	d e t e r m i n e S t e p D i r e c t i o n
+ */
+returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g, const real_t* const delta_lbA, const real_t* const delta_ubA,
+												const real_t* const delta_lb, const real_t* const delta_ub,
+												BooleanType Delta_bC_isZero, BooleanType Delta_bB_isZero,
+												real_t* const delta_xFX, real_t* const delta_xFR,
+												real_t* const delta_yAC, real_t* const delta_yFX
+												)
+{
+	/* The linear system to be solved here is this:
+
+	   / H_FF  H_FX  A_CF^T  0 \ /  delta_xFR \   / -delta_g_F \
+	   | H_XF  H_XX  A_CX^T  I | |  delta_xFX |   | -delta_g_X |
+	   | A_CF  A_CX    0     0 | | -delta_yAC | = |  delta_bA  |  <-- active entries of delta_lbA and delta_ubA with corresponding sign
+	   \  0     I      0     0 / \ -delta_yFX /   \  delta_bX  /  <-- fixed entries of delta_lb and delta_ub with corresponding sign
+
+	*/
+
+
+	int_t i, ii, r;
+
+	returnValue retval;
+
+  //int_t nV  = getNV( );
+	int_t nFR = getNFR( );
+	int_t nFX = getNFX( );
+	int_t nAC = getNAC( );
+
+	int_t* FR_idx;
+	int_t* FX_idx;
+	int_t* AC_idx;
+
+	bounds.getFree( )->getNumberArray( &FR_idx );
+	bounds.getFixed( )->getNumberArray( &FX_idx );
+	constraints.getActive( )->getNumberArray( &AC_idx );
+
+
+	/* I) DETERMINE delta_xFX (this is exact, does not need refinement) */
+	if ( Delta_bB_isZero == BT_FALSE )
+	{
+		for( i=0; i<nFX; ++i )
+		{
+			ii = FX_idx[i];
+
+			if ( bounds.getStatus( ii ) == ST_LOWER )
+				delta_xFX[i] = delta_lb[ii];
+			else
+				delta_xFX[i] = delta_ub[ii];
+		}
+	}
+	else
+	{
+		for( i=0; i<nFX; ++i )
+			delta_xFX[i] = 0.0;
+	}
+
+	if ( nFR+nAC>0 ) {
+		real_t rhs_max = 0.0;
+		retval = stepCalcRhs( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, rhs_max, delta_g, delta_lbA, delta_ubA,
+							  delta_lb, delta_ub, Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
+							  delta_yAC, delta_yFX );
+
+		if (retval != SUCCESSFUL_RETURN)
+			return retval;
+		int_t nFRStart = boundsFreeStart.getLength();
+		int_t nACStart = constraintsActiveStart.getLength();
+
+		int_t* FR_iSort;
+		int_t* AC_iSort;
+		bounds.getFree( )->getISortArray( &FR_iSort );
+		constraints.getActive( )->getISortArray( &AC_iSort );
+
+		int_t* FR_idxStart;
+		int_t* AC_idxStart;
+		boundsFreeStart.getNumberArray( &FR_idxStart );
+		constraintsActiveStart.getNumberArray( &AC_idxStart );
+
+		int_t* FR_iSortStart;
+		int_t* AC_iSortStart;
+		boundsFreeStart.getISortArray( &FR_iSortStart );
+		constraintsActiveStart.getISortArray( &AC_iSortStart );
+
+		int_t dim = nFRStart + nACStart;
+		real_t* rhs = new real_t[dim];
+		real_t* sol = new real_t[dim];
+
+		/* Iterative refinement loop for delta_xFR, delta_yAC */
+		for ( r=0; r<=options.numRefinementSteps; ++r )
+		{
+		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
+			if (retval != SUCCESSFUL_RETURN)
+				return retval;
+
+			retval = sparseSolver->solve(dim, rhs, sol);
+
+			if (retval != SUCCESSFUL_RETURN)
+			{
+				MyPrintf( "sparseSolver->solve (first time) failed.\n");
+				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
+			}
+
+			if ( nS > 0 )
+			{
+				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
+				if (retval != SUCCESSFUL_RETURN)
+					return retval;
+			}
+
+			/* Transfer Schur complement solution for the free variables to the correct places */
+			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
+			if (retval != SUCCESSFUL_RETURN)
+				return retval;
+
+			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
+			{
+				real_t rnrm;
+				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
+				if (retval != SUCCESSFUL_RETURN)
+					return retval;
+
+				/* early termination of residual norm small enough */
+				if ( options.printLevel == PL_HIGH )
+					MyPrintf( "In iterative refinement (iter %d) rnrm = %e and epsIterRef*rhs_max = %e.\n", r, rnrm, options.epsIterRef*rhs_max);
+
+				if ( rnrm <= options.epsIterRef*rhs_max )
+					break;
+			}
+
+		}
+
+		delete [] sol;
+		delete [] rhs;
+	}
+
+	/* IV) DETERMINE delta_yFX */
+	if ( nFX > 0 )
+	{
+		retval = stepCalcDeltayFx(nFR, nFX, nAC, FX_idx, delta_g, delta_xFX, delta_xFR, delta_yAC, delta_yFX);
+		if (retval != SUCCESSFUL_RETURN)
+			return retval;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrection )
+{
+	int_t j;
+	int_t nFR = getNFR( );
+	int_t nAC = getNAC( );
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "Resetting Schur complement.\n");
+
+	nS = 0;
+	detS = 1.0;
+	rcondS = 1.0;
+	boundsFreeStart = *bounds.getFree();
+	constraintsActiveStart = *constraints.getActive();
+
+	if ( nSmax > 0 )
+		M_jc[0] = 0;
+
+	int_t dim = nFR+nAC;
+	// Count the number of nonzeros
+	int_t numNonzeros;
+	switch ( hessianType )
+	{
+		case HST_ZERO:
+			numNonzeros = 0;
+			break;
+
+		case HST_IDENTITY:
+			numNonzeros = nFR;
+			break;
+
+		default:
+			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
+			break;
+	}
+	// TODO: For now, we regularize every time
+	if (options.epsRegularisation > 0.0)
+		numNonzeros += nFR;
+
+	int_t numNonzerosA;
+
+	if ( constraintProduct != 0 )
+	{
+		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
+		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+	}
+	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	numNonzeros += numNonzerosA;
+
+	// Get the values
+	real_t* avals = new real_t[numNonzeros];
+	int_t* irn = new int_t[numNonzeros];
+	int_t* jcn = new int_t[numNonzeros];
+	numNonzeros = 0;
+	switch ( hessianType )
+	{
+		case HST_ZERO:
+			break;
+
+		case HST_IDENTITY:
+			numNonzeros += nFR;
+			for (j = 0; j<nFR; j++)
+			{
+				irn[j] = j+1;
+				jcn[j] = j+1;
+				avals[j] = 1.0;
+			}
+			break;
+
+		default:
+			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, irn, jcn, avals, BT_TRUE);
+			break;
+	}
+
+	// For now, we regularize every time
+	if (options.epsRegularisation > 0.0)
+	{
+		for (j = 0; j<nFR; j++)
+		{
+			irn[numNonzeros] = j+1;
+			jcn[numNonzeros] = j+1;
+			avals[numNonzeros++] = options.epsRegularisation;
+		}
+	}
+
+	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, irn+numNonzeros, jcn+numNonzeros, avals+numNonzeros, BT_FALSE);
+	numNonzeros += numNonzerosA;
+
+	// Call the linear solver
+	sparseSolver->reset();
+	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
+	delete [] jcn;
+	delete [] irn;
+	delete [] avals;
+	
+	if (retval != SUCCESSFUL_RETURN)
+		return THROWERROR(RET_NO_SPARSE_SOLVER);
+
+	// Factorize the matrix for later backsolves
+	retval = sparseSolver->factorize();
+	numFactorizations++;
+
+	// If matrix is singular, add bounds/remove constraints according to zero pivots
+	if (retval == RET_KKT_MATRIX_SINGULAR)
+	{
+		if( repairSingularWorkingSet( ) == SUCCESSFUL_RETURN )
+			return resetSchurComplement( allowInertiaCorrection );
+		else
+			return RET_KKT_MATRIX_SINGULAR;
+	}
+
+	// If matrix has wrong inertia, add bounds until inertia is correct
+	if (retval == SUCCESSFUL_RETURN && allowInertiaCorrection)
+	{
+		int_t neig = sparseSolver->getNegativeEigenvalues( );
+		if( neig > getNAC( ) )
+		{
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf( "WARNING: After new factorization, reduced Hessian has %i negative eigenvalues, should be %i.\n", neig, getNAC( ) );
+
+			retval = correctInertia();
+		}
+	}
+
+	if (retval != SUCCESSFUL_RETURN)
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
+
+	nS = 0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::computeMTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
+{
+	if ( isEqual( alpha, -1.0 ) == BT_FALSE || isEqual( beta, 1.0 ) == BT_FALSE )
+		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+
+	int_t i, j;
+
+	for ( j=0; j<nS; j++ )
+	{
+		const real_t xval = x_[j];
+		for ( i=M_jc[j]; i<M_jc[j+1]; i++)
+			y_[M_ir[i]] -= M_vals[i]*xval;
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::computeMTransTimes( real_t alpha, const real_t* const x_, real_t beta, real_t* const y_ )
+{
+	if ( isEqual( alpha, 1.0 ) == BT_FALSE || ( isZero( beta ) == BT_FALSE && isEqual( beta, -1.0 ) == BT_FALSE ) )
+		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
+
+	int_t i, j;
+
+	if ( isZero( beta ) == BT_TRUE )
+	{
+		for ( j=0; j<nS; j++ )
+		{
+			y_[j] = 0.0;
+			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
+				y_[j] += M_vals[i]*x_[M_ir[i]];
+		}
+	}
+	else
+	{
+		for ( j=0; j<nS; j++ )
+		{
+			y_[j] = -y_[j];
+			for ( i=M_jc[j]; i<M_jc[j+1]; i++)
+				y_[j] += M_vals[i]*x_[M_ir[i]];
+		}
+	}
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType update, int_t numNonzerosM, const sparse_int_t* Mpos, const real_t* const Mvals, int_t numNonzerosN, const sparse_int_t* Npos, const real_t* const Nvals, real_t N_diag )
+{
+	int_t i;
+
+	int_t nFRStart = boundsFreeStart.getLength();
+	int_t nACStart = constraintsActiveStart.getLength();
+
+	real_t* new_Scol = new real_t[nS];
+
+	int_t dim = nFRStart + nACStart;
+	real_t* rhs = new real_t[dim];
+	real_t* sol = new real_t[dim];
+
+	for ( i=0; i<dim; i++ )
+		rhs[i] = 0.0;
+
+	for ( i=0; i<numNonzerosM; i++ )
+		rhs[Mpos[i]] = Mvals[i];
+
+	returnValue retval = sparseSolver->solve(dim, rhs, sol);
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
+	}
+
+	computeMTransTimes(1.0, sol, 0.0, new_Scol);
+
+	/* Take care of off-diagonal elements in N. */
+	for ( i=0; i<numNonzerosN; i++ )
+		new_Scol[Npos[i]] -= Nvals[i];
+
+	real_t sdiag = -N_diag;
+	for ( i=0; i<numNonzerosM; i++ )
+		sdiag += Mvals[i] * sol[Mpos[i]];
+
+	/* Now augment S */
+	for ( i=0; i<nS; i++)
+		S[nS*nSmax + i] = new_Scol[i];
+	for ( i=0; i<nS; i++)
+		S[i*nSmax + nS] = new_Scol[i];
+	S[nS*nSmax + nS] = sdiag;
+
+	schurUpdateIndex[nS] = number;
+	schurUpdate[nS] = update;
+
+	/* Augment M matrix.  */
+	if ( M_physicallength < M_jc[nS] + numNonzerosM )
+	{
+		/* If necessary, allocate more memory for M. */
+		int_t M_physicallength_new = getMax(2*M_physicallength, M_physicallength + 2*numNonzerosM);
+		real_t* M_vals_new = new real_t[M_physicallength_new];
+		sparse_int_t* M_ir_new = new sparse_int_t[M_physicallength_new];
+		memcpy( M_vals_new, M_vals, ((unsigned int)(M_jc[nS]))*sizeof(real_t) );
+		memcpy( M_ir_new, M_ir, ((unsigned int)(M_jc[nS]))*sizeof(sparse_int_t) );
+		M_physicallength = M_physicallength_new;
+		delete [] M_vals;
+		delete [] M_ir;
+		M_vals = M_vals_new;
+		M_ir = M_ir_new;
+	}
+
+	for ( i=0; i<numNonzerosM; i++ )
+	{
+		M_vals[M_jc[nS] + i] = Mvals[i];
+		M_ir[M_jc[nS] + i] = Mpos[i];
+	}
+	M_jc[nS+1] = M_jc[nS] + numNonzerosM;
+
+	nS++;
+
+	delete [] sol;
+	delete [] rhs;
+	delete [] new_Scol;
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "added index %d with update type %d to Schur complement.  nS = %d\n", number, update, nS);
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue SQProblemSchur::deleteFromSchurComplement( int_t idx, BooleanType allowUndo )
+{
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "deleting entry %d with idx = %d and type %d from Schur complement.", idx, schurUpdateIndex[idx], schurUpdate[idx]);
+
+	if ( idx != nS-1 )
+	{
+		real_t *temp_vals = NULL;
+		int_t *temp_ir = NULL;
+		int_t schurUpdateIndexTemp = -1;
+		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
+
+		/* temporarily save the column of S to be deleted */
+		if( allowUndo == BT_TRUE )
+		{
+			temp_vals = new real_t[nS];
+			for ( int_t i=0; i<nS; i++ )
+				temp_vals[i] = S[idx*nSmax + i];
+
+			schurUpdateIndexTemp = schurUpdateIndex[idx];
+			schurUpdateTemp = schurUpdate[idx];
+		}
+
+		/* Shift rows and columns >idx of S by one to the upper left */
+		for ( int_t i=0; i<idx; i++ )
+			for ( int_t j=idx+1; j<nS; j++ )
+				S[i*nSmax + j-1] = S[i*nSmax + j];
+		for ( int_t i=idx+1; i<nS; i++ )
+		{
+			for ( int_t j=0; j<idx; j++ )
+				S[(i-1)*nSmax + j] = S[i*nSmax + j];
+			for ( int_t j=idx+1; j<nS; j++ )
+				S[(i-1)*nSmax + j-1] = S[i*nSmax + j];
+		}
+		for ( int_t i=idx+1; i<nS; i++ )
+		{
+			schurUpdateIndex[i-1] = schurUpdateIndex[i];
+			schurUpdate[i-1] = schurUpdate[i];
+		}
+
+		/* Store deleted row/column in the last row/column of S, can retrieve it from there later */
+		if( allowUndo == BT_TRUE )
+		{
+			for ( int_t i=0; i<nS; i++ )
+			{
+				S[(nS-1)*nSmax + i] = temp_vals[i];
+				S[i*nSmax + (nS-1)] = temp_vals[i];
+			}
+			schurUpdateIndex[nS-1] = schurUpdateIndexTemp;
+			schurUpdate[nS-1] = schurUpdateTemp;
+			delete[] temp_vals;
+		}
+
+		/* temporarily save the (sparse) column of M to be deleted */
+		int_t numEntries = M_jc[idx+1] - M_jc[idx];
+		if( allowUndo == BT_TRUE )
+		{
+			temp_ir = new int_t[numEntries];
+			temp_vals = new real_t[numEntries];
+
+			for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
+			{
+				temp_ir[i-M_jc[idx]] = M_ir[i];
+				temp_vals[i-M_jc[idx]] = M_vals[i];
+			}
+		}
+
+		/* Shift all columns >idx one to the left */
+		for ( int_t i=M_jc[idx+1]; i<M_jc[nS]; i++ )
+		{
+			M_ir[i-numEntries] = M_ir[i];
+			M_vals[i-numEntries] = M_vals[i];
+		}
+		for ( int_t i=idx; i<nS; i++ )
+			M_jc[i] = M_jc[i+1] - numEntries;
+
+		/* Store deleted column of M in the last column, can retrieve it from there later */
+		if( allowUndo == BT_TRUE )
+		{
+			for ( int_t i=M_jc[nS-1]; i<M_jc[nS]; i++ )
+			{
+				M_ir[i] = temp_ir[i-M_jc[nS-1]];
+				M_vals[i] = temp_vals[i-M_jc[nS-1]];
+			}
+
+			delete[] temp_ir;
+			delete[] temp_vals;
+		}
+	}
+
+	nS--;
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "  nS = %d\n", nS);
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue SQProblemSchur::undoDeleteFromSchurComplement( int_t idx )
+{
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "undo deletion of entry %d with idx = %d and type %d from Schur complement. nS = %i\n", idx, schurUpdateIndex[nS-1], schurUpdate[nS-1],nS+1);
+
+	if ( idx != nS )
+	{
+		real_t *temp_vals;
+		int_t *temp_ir;
+		int_t schurUpdateIndexTemp = -1;
+		SchurUpdateType schurUpdateTemp = SUT_UNDEFINED;
+
+		/* temporarily save the last column of S */
+		temp_vals = new real_t[nS+1];
+		for ( int_t i=0; i<nS+1; i++ )
+			temp_vals[i] = S[i+nS*nSmax];
+
+		schurUpdateIndexTemp = schurUpdateIndex[nS];
+		schurUpdateTemp = schurUpdate[nS];
+
+		/* Shift rows and columns =>idx of S by one to the lower right */
+		for ( int_t i=idx-1; i>-1; i-- )
+			for ( int_t j=nS-1; j>idx-1; j-- )
+				S[(j+1)+i*nSmax] = S[j+i*nSmax];
+		for ( int_t i=nS-1; i>idx-1; i-- )
+		{
+			for ( int_t j=idx-1; j>-1; j-- )
+				S[j+(i+1)*nSmax] = S[j+i*nSmax];
+			for ( int_t j=nS-1; j>idx-1; j-- )
+				S[(j+1)+(i+1)*nSmax] = S[j+i*nSmax];
+		}
+		for ( int_t i=nS-1; i>idx-1; i-- )
+		{
+			schurUpdateIndex[i+1] = schurUpdateIndex[i];
+			schurUpdate[i+1] = schurUpdate[i];
+		}
+
+		/* Insert stored row/column of S at position idx */
+		for ( int_t i=0; i<nS+1; i++ )
+		{
+			S[idx*nSmax + i] = temp_vals[i];
+			S[i*nSmax + idx] = temp_vals[i];
+		}
+		schurUpdateIndex[idx] = schurUpdateIndexTemp;
+		schurUpdate[idx] = schurUpdateTemp;
+		delete[] temp_vals;
+
+		/* temporarily save the last (sparse) column of M */
+		int_t numEntries = M_jc[nS+1] - M_jc[nS];
+		temp_ir = new int_t[numEntries];
+		temp_vals = new real_t[numEntries];
+		for ( int_t i=M_jc[nS]; i<M_jc[nS+1]; i++ )
+		{
+			temp_ir[i-M_jc[nS]] = M_ir[i];
+			temp_vals[i-M_jc[nS]] = M_vals[i];
+		}
+
+		/* Shift all columns =>idx one to the right */
+		for ( int_t i=M_jc[nS]-1; i>M_jc[idx]-1; i-- )
+		{
+			M_ir[i+numEntries] = M_ir[i];
+			M_vals[i+numEntries] = M_vals[i];
+		}
+		for ( int_t i=nS; i>idx-1; i-- )
+			M_jc[i+1] = M_jc[i] + numEntries;
+
+		/* Insert stored column of M at position idx */
+		for ( int_t i=M_jc[idx]; i<M_jc[idx+1]; i++ )
+		{
+			M_ir[i] = temp_ir[i-M_jc[idx]];
+			M_vals[i] = temp_vals[i-M_jc[idx]];
+		}
+
+		delete[] temp_ir;
+		delete[] temp_vals;
+	}
+
+	nS++;
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "  nS = %d\n", nS);
+
+	return SUCCESSFUL_RETURN;
+}
+
+returnValue SQProblemSchur::correctInertia( )
+{
+	SubjectToStatus B_status;
+	real_t oldDetS;
+	int_t nFR = getNFR( );
+	int_t k, number, neig, nAdded;
+	int_t *freeBoundIdx = new int_t[nFR];
+	int_t *numberarray;
+
+	/* method may only be called after refactorization or if one bound/constraint
+	 * has been added, i.e. when a bound has flipped after refactorization */
+	if( nS != 0 && nS != 1 )
+		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
+	neig = sparseSolver->getNegativeEigenvalues( );
+
+	/* if a bound flipped, check if it did in fact remove a negative eigenvalue */
+	if( nS == 1 && detS < 0 )
+		neig--;
+
+	/* if this method is triggered after flipping bounds, inertia is now probably correct */
+	if( neig == getNAC( ) )
+		return SUCCESSFUL_RETURN;
+
+	/* get bound numbers in the order in which they are in the non-basis */
+	bounds.getFree()->getNumberArray( &numberarray );
+	for( k=0; k<nFR; k++ )
+		freeBoundIdx[k] = numberarray[k];
+
+	k = 0;
+	nAdded = getNFR( );
+	while ( neig > getNAC( ) && k < nFR )
+	{
+		oldDetS = detS;
+
+		/* If it's linearly independent, fix the next free variable at the nearest bound */
+		number = freeBoundIdx[k];
+		if( addBound_checkLI( number ) == RET_LINEARLY_INDEPENDENT )
+		{
+			/* This is just heuristics: we need the bound which gives correct multiplier sign */
+			if ( x[number] - lb[number] < ub[number] - x[number] )
+				B_status = ST_LOWER;
+			else
+				B_status = ST_UPPER;
+
+			/* Update Schur complement */
+			if( addBound( number, B_status, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+			{
+				if ( options.printLevel == PL_HIGH )
+					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
+			}
+
+			/* Adjust bounds */
+			if ( B_status == ST_LOWER )
+				lb[number] = x[number];
+			else
+				ub[number] = x[number];
+		}
+		else
+		{
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf("bound[%i] = %i is linearly dependent. Do not add.\n", k, number );
+			k++;
+			continue;
+		}
+
+		/* Case 1: Schur complement has been reset, check inertia of new factorization */
+		if( nS == 0 )
+			neig = sparseSolver->getNegativeEigenvalues( );
+		/* Case 2: Schur complement has grown, check if determinant changed sign */
+		else if( oldDetS * detS < 0 )
+			neig--;
+		/* NB: Case 3: (Schur complement has shrunk) cannot happen here:
+		 * This method is called after a factorization reset or after ONE bound has been added */
+
+		k++;
+	}
+	nAdded -= getNFR( );
+
+	delete[] freeBoundIdx;
+
+	/* if there are still too many negative eigenvalues, exit */
+	if( neig > getNAC( ) )
+	{
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "Added %i bounds but KKT matrix still has %i negative eigenvalues, should be %i.\n", nAdded, neig, getNAC( ) );
+		return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
+	}
+	else
+	{
+		if ( options.printLevel == PL_HIGH )
+			MyPrintf( "After adding %i bounds, reduced Hessian has correct inertia.\n", nAdded, neig );
+		return SUCCESSFUL_RETURN;
+	}
+}
+
+
+returnValue SQProblemSchur::repairSingularWorkingSet( )
+{
+	int_t k, number;
+	SubjectToStatus B_status;
+	int_t rank = sparseSolver->getRank( );
+	int_t nFR = getNFR( );
+	int_t defect = nFR + getNAC( ) - rank;
+
+	/* Rank detection not supported by linear solver */
+	if ( rank < 0 )
+		return RET_KKT_MATRIX_SINGULAR;
+
+	/* Consistency check */
+	if ( defect <= 0 )
+		return RET_UNKNOWN_BUG;
+
+	/* Determine zero pivots */
+	int_t *zeroPivots = new int_t[defect];
+	sparseSolver->getZeroPivots( zeroPivots );
+
+	/* Determination of zero pivots not supported by linear solver */
+	if ( zeroPivots == 0 )
+		return RET_KKT_MATRIX_SINGULAR;
+
+	/* We assume implicitly that pivots are sorted in ascending order */
+	/// \todo make sure that this is so.
+	/* Remove the one with the highest index first so not to mess up index lists */
+	int_t bndsAdded = 0;
+	for ( k=defect-1; k>-1; k-- )
+	{
+		/* Zero curvature in the Hessian: add a bound */
+		if ( zeroPivots[k] < nFR )
+		{
+			number = bounds.getFree()->getNumber( zeroPivots[k] );
+
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf( "WARNING: KKT matrix singular! Add bound %i before refactorization.\n", number);
+
+			/* This is just heuristics: we need the bound which gives correct multiplier sign */
+			if ( x[number] - lb[number] < ub[number] - x[number] )
+				B_status = ST_LOWER;
+			else
+				B_status = ST_UPPER;
+
+			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
+			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
+				return RET_ADDBOUND_FAILED;
+
+			/* Adjust bounds */
+			if ( B_status == ST_LOWER )
+				lb[number] = x[number];
+			else
+				ub[number] = x[number];
+
+			bndsAdded++;
+		}
+		/* Linearly dependent row in the Jacobian: remove a constraint */
+		else
+		{
+			number = constraints.getActive()->getNumber( zeroPivots[k]-nFR );
+			if ( options.printLevel == PL_HIGH )
+				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
+
+			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+				return RET_REMOVECONSTRAINT_FAILED;
+
+			// AW: If this is an equality constraint, it is now inactive and
+			// will not be considered in the step computation which leads to
+			// violation of that constraint in the future. Here, I try to
+			// fix this by simply making this constraint no longer an
+			// equality.
+			// TODO: This is probably also necessary for bound constraints
+			if ( constraints.getType(number) == ST_EQUALITY )
+			{
+				if ( options.printLevel == PL_HIGH )
+					MyPrintf( "WARNING: Making this constraint no longer an equality.\n");
+				constraints.setType( number, ST_BOUNDED );
+			}
+
+			/* Adjust dual variable */
+			y[number] = 0.0;
+		}
+	}
+
+	if ( options.printLevel == PL_HIGH )
+		MyPrintf( "WARNING: KKT matrix singular! Removed %i constraints and added %i bounds before refactorization.\n",
+					defect-bndsAdded, bndsAdded );
+
+	delete[] zeroPivots;
+
+	return SUCCESSFUL_RETURN;
+}
+
+END_NAMESPACE_QPOASES
+
+
+/*
+ *	end of file
+ */
-- 
2.43.0


From 7a3fcac08f12bde8e21f7e6c86ef0884a29a88c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 59/93] fix: SQProblemSchur used uninitialised matrix data if a
 matrix does not provide a sparse submatrix

---
 src/SQProblemSchur.cpp | 58 +++++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 13f19ea..afeec87 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -771,12 +771,22 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 			if ( constraintProduct != 0 )
 			{
 				MyPrintf( "In SQProblemSchur::addConstraint, constraintProduct not yet implemented.\n");
+				delete [] icolsSIdx;
+				delete [] icolsNumber;
+				delete [] vals;
+				delete [] jcn;
+				delete [] irn;
+				delete [] MNvals;
+				delete [] MNpos;
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
-			int_t numNonzerosA;
-			A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
+			int_t numNonzerosA = 0;
+			returnValue returnvalue = A->getSparseSubmatrix( 1, &number, icolsLength, icolsNumber, 0, 0, numNonzerosA, irn, jcn, vals );
 			delete [] irn;
 
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				numNonzerosA = 0;
+
 			int_t numNonzerosM = 0;
 			int_t numNonzerosN = 0;
 			for ( int_t i=0; i<numNonzerosA; i++ )
@@ -793,7 +803,8 @@ returnValue SQProblemSchur::addConstraint(	int_t number,
 					numNonzerosN++;
 				}
 
-			returnValue returnvalue = addToSchurComplement( number, SUT_ConAdded, numNonzerosM, MNpos, MNvals, numNonzerosN, MNpos+nFRStart, MNvals+nFRStart, 0.0 );
+			if ( returnvalue == SUCCESSFUL_RETURN )
+				returnvalue = addToSchurComplement( number, SUT_ConAdded, numNonzerosM, MNpos, MNvals, numNonzerosN, MNpos+nFRStart, MNvals+nFRStart, 0.0 );
 
 			delete [] icolsSIdx;
 			delete [] icolsNumber;
@@ -1918,7 +1929,7 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 			real_t* vals = new real_t[nFRStart+nACStart+nS+1];
 			int_t iLength;
 			int_t* iNumber = new int_t[nFRStart+nACStart+nS+1];
-			int_t numNonzeros;
+			int_t numNonzeros = 0;
 			int_t* iSIdx = new int_t[nS];
 
 			/* First the Hessian part. */
@@ -1947,7 +1958,10 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 						}
 					iNumber[iLength++] = number;
 
-					H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+					returnvalue = H->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+
+					if ( returnvalue != SUCCESSFUL_RETURN )
+						numNonzeros = 0;
 
 					for ( int_t i=0; i<numNonzeros; i++ )
 					{
@@ -1972,6 +1986,15 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 			if ( constraintProduct != 0 )
 			{
 				MyPrintf( "In SQProblemSchur::removeBound, constraintProduct not yet implemented.\n");
+				delete [] iSIdx;
+				delete [] iNumber;
+				delete [] vals;
+				delete [] jcn;
+				delete [] irn;
+				delete [] Mvals;
+				delete [] Mpos;
+				delete [] Nvals;
+				delete [] Npos;
 				return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 			}
 
@@ -1986,7 +2009,11 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 					iLength++;
 				}
 
-			A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+			if ( returnvalue == SUCCESSFUL_RETURN )
+				returnvalue = A->getSparseSubmatrix( iLength, iNumber, 1, &number, 0, 0, numNonzeros, irn, jcn, vals );
+
+			if ( returnvalue != SUCCESSFUL_RETURN )
+				numNonzeros = 0;
 
 			for ( int_t i=0; i<numNonzeros; i++ )
 			{
@@ -2010,7 +2037,8 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 			delete [] jcn;
 			delete [] irn;
 
-			returnvalue = addToSchurComplement( number, SUT_VarFreed, numNonzerosM, Mpos, Mvals, numNonzerosN, Npos, Nvals, N_diag );
+			if ( returnvalue == SUCCESSFUL_RETURN )
+				returnvalue = addToSchurComplement( number, SUT_VarFreed, numNonzerosM, Mpos, Mvals, numNonzerosN, Npos, Nvals, N_diag );
 
 			delete [] Mvals;
 			delete [] Mpos;
@@ -3019,7 +3047,8 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 
 	int_t dim = nFR+nAC;
 	// Count the number of nonzeros
-	int_t numNonzeros;
+	int_t numNonzeros = 0;
+	returnValue retval = SUCCESSFUL_RETURN;
 	switch ( hessianType )
 	{
 		case HST_ZERO:
@@ -3031,21 +3060,26 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 			break;
 
 		default:
-			H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
+			retval = H->getSparseSubmatrix( bounds.getFree(), bounds.getFree(), 1, 1, numNonzeros, 0, 0, 0, BT_TRUE);
 			break;
 	}
+	if (retval != SUCCESSFUL_RETURN)
+		return THROWERROR( retval );
+
 	// TODO: For now, we regularize every time
 	if (options.epsRegularisation > 0.0)
 		numNonzeros += nFR;
 
-	int_t numNonzerosA;
+	int_t numNonzerosA = 0;
 
 	if ( constraintProduct != 0 )
 	{
 		MyPrintf( "In SQProblemSchur::determineStepDirection, constraintProduct not yet implemented.\n");
 		return THROWERROR(RET_NOT_YET_IMPLEMENTED);
 	}
-	A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	retval = A->getSparseSubmatrix( constraints.getActive(), bounds.getFree(), nFR+1, 1, numNonzerosA, 0, 0, 0, BT_FALSE);
+	if (retval != SUCCESSFUL_RETURN)
+		return THROWERROR( retval );
 	numNonzeros += numNonzerosA;
 
 	// Get the values
@@ -3089,7 +3123,7 @@ returnValue SQProblemSchur::resetSchurComplement( BooleanType allowInertiaCorrec
 
 	// Call the linear solver
 	sparseSolver->reset();
-	returnValue retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
+	retval = sparseSolver->setMatrixData(dim, numNonzeros, irn, jcn, avals);
 	delete [] jcn;
 	delete [] irn;
 	delete [] avals;
-- 
2.43.0


From 3b5a05471a8f035a9abbff89c47701270d8ce9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:24 +0000
Subject: [PATCH 60/93] fix: SQProblemSchur leaked memory whenever the linear
 solver failed

---
 src/SQProblemSchur.cpp | 35 ++++++++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index afeec87..9137036 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -2661,6 +2661,7 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 				break;
 
 			default:
+				delete [] q;
 				return THROWERROR( RET_UNKNOWN_BUG );
 		}
 	}
@@ -2678,6 +2679,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 	if (retval != SUCCESSFUL_RETURN)
 	{
 		MyPrintf( "sparseSolver->solve (second time) failed.\n");
+		delete [] p;
+		delete [] q;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
@@ -2714,6 +2717,8 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 				break;
 
 			default:
+				delete [] p;
+				delete [] q;
 				return THROWERROR( RET_UNKNOWN_BUG );
 		}
 	}
@@ -2973,13 +2978,19 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 		{
 		  retval = stepCalcReorder(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, rhs);
 			if (retval != SUCCESSFUL_RETURN)
+			{
+				delete [] sol;
+				delete [] rhs;
 				return retval;
+			}
 
 			retval = sparseSolver->solve(dim, rhs, sol);
 
 			if (retval != SUCCESSFUL_RETURN)
 			{
 				MyPrintf( "sparseSolver->solve (first time) failed.\n");
+				delete [] sol;
+				delete [] rhs;
 				return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 			}
 
@@ -2987,20 +2998,32 @@ returnValue SQProblemSchur::determineStepDirection2(	const real_t* const delta_g
 			{
 				retval = stepCalcBacksolveSchur( nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, dim, rhs, sol );
 				if (retval != SUCCESSFUL_RETURN)
+				{
+					delete [] sol;
+					delete [] rhs;
 					return retval;
+				}
 			}
 
 			/* Transfer Schur complement solution for the free variables to the correct places */
 			retval = stepCalcReorder2(nFR, nAC, FR_idx, AC_idx, nFRStart, nACStart, FR_idxStart, AC_idxStart, FR_iSort, FR_iSortStart, AC_iSort, AC_iSortStart, sol, delta_xFR, delta_yAC);
 			if (retval != SUCCESSFUL_RETURN)
+			{
+				delete [] sol;
+				delete [] rhs;
 				return retval;
+			}
 
 			if ( r < options.numRefinementSteps ) // TODO: use "<" to avoid computation in last round
 			{
 				real_t rnrm;
 				retval = stepCalcResid(nFR, nFX, nAC, FR_idx, FX_idx, AC_idx, Delta_bC_isZero, delta_xFX, delta_xFR, delta_yAC, delta_g, delta_lbA, delta_ubA, rnrm);
 				if (retval != SUCCESSFUL_RETURN)
+				{
+					delete [] sol;
+					delete [] rhs;
 					return retval;
+				}
 
 				/* early termination of residual norm small enough */
 				if ( options.printLevel == PL_HIGH )
@@ -3234,6 +3257,9 @@ returnValue SQProblemSchur::addToSchurComplement( int_t number, SchurUpdateType
 	if (retval != SUCCESSFUL_RETURN)
 	{
 		MyPrintf( "sparseSolver->solve in SQProblemSchur::addToSchurComplement failed.\n");
+		delete [] sol;
+		delete [] rhs;
+		delete [] new_Scol;
 		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED); // TODO: Different return code
 	}
 
@@ -3483,7 +3509,6 @@ returnValue SQProblemSchur::correctInertia( )
 	real_t oldDetS;
 	int_t nFR = getNFR( );
 	int_t k, number, neig, nAdded;
-	int_t *freeBoundIdx = new int_t[nFR];
 	int_t *numberarray;
 
 	/* method may only be called after refactorization or if one bound/constraint
@@ -3501,6 +3526,7 @@ returnValue SQProblemSchur::correctInertia( )
 		return SUCCESSFUL_RETURN;
 
 	/* get bound numbers in the order in which they are in the non-basis */
+	int_t *freeBoundIdx = new int_t[nFR];
 	bounds.getFree()->getNumberArray( &numberarray );
 	for( k=0; k<nFR; k++ )
 		freeBoundIdx[k] = numberarray[k];
@@ -3526,6 +3552,7 @@ returnValue SQProblemSchur::correctInertia( )
 			{
 				if ( options.printLevel == PL_HIGH )
 					MyPrintf("In correctInertia: Adding bound[%i] = %i failed!\n", k, number );
+				delete[] freeBoundIdx;
 				return THROWERROR( RET_INERTIA_CORRECTION_FAILED );
 			}
 
@@ -3620,7 +3647,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 
 			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
 			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_ADDBOUND_FAILED;
+			}
 
 			/* Adjust bounds */
 			if ( B_status == ST_LOWER )
@@ -3638,7 +3668,10 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 				MyPrintf( "WARNING: KKT matrix singular! Removing constraint %i before refactorization.\n", number);
 
 			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
+			{
+				delete[] zeroPivots;
 				return RET_REMOVECONSTRAINT_FAILED;
+			}
 
 			// AW: If this is an equality constraint, it is now inactive and
 			// will not be considered in the step computation which leads to
-- 
2.43.0


From eebd6d274549d637e6fbbf05c230c4137b0bf6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 61/93] fix: sparse submatrix leaked memory if called with
 inconsistent arguments

---
 src/Matrices.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/Matrices.cpp b/src/Matrices.cpp
index 019dc83..0707ff1 100644
--- a/src/Matrices.cpp
+++ b/src/Matrices.cpp
@@ -977,7 +977,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
@@ -1013,7 +1016,10 @@ returnValue SparseMatrix::getSparseSubmatrix(	int_t irowsLength, const int_t* co
 		if (irn == 0)
 		{
 			if (jcn != 0 || avals != 0)
+			{
+				delete [] rowNumberInv;
 				return THROWERROR( RET_INVALID_ARGUMENTS );
+			}
 			for (k = 0; k < icolsLength; k++)
 			{
 				j = icolsNumber[k];
-- 
2.43.0


From 5e0d7ab592c3cca0846c7b82e9211e15ae74289e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 62/93] fix: SQProblemSchur crashed if a Cholesky factor is
 given (it does not use dense factorisations)

---
 src/QProblem.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index 66770e1..f919cf4 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -434,9 +434,9 @@ returnValue QProblem::init(	const char* const H_file, const char* const g_file,
 		return THROWERROR( RET_UNABLE_TO_READ_FILE );
 	}
 
-	if ( R_file == 0 )
+	if ( ( R_file == 0 ) || ( R == 0 ) )
 	{
-		/* 3) Call to main initialisation routine. */
+		/* 3) Call to main initialisation routine (without dense factorisations, there is no use for R). */
 		return solveInitialQP( xOpt,yOpt,guessedBounds,guessedConstraints,0, nWSR,cputime );
 	}
 	else
@@ -1491,7 +1491,7 @@ returnValue QProblem::solveInitialQP(	const real_t* const xOpt, const real_t* co
 	/* e) Copy external Cholesky factor if provided */
 	haveCholesky = BT_FALSE;
 
-	if ( _R != 0 )
+	if ( ( _R != 0 ) && ( R != 0 ) )
 	{
 		/* Factor of the full Hessian can only be used if the initial working set is empty. */
 		if ( ( options.initialStatusBounds != ST_INACTIVE ) || ( getNFX( ) != 0 ) || ( getNAC( ) != 0 ) )
-- 
2.43.0


From c66e1a71608fd9506847758e86410ac6334bbe27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 63/93] fix: SQProblemSchur continued with uninitialised values
 if solving with a singular Schur complement failed

---
 src/SQProblemSchur.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 9137036..0eeae84 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -2671,7 +2671,13 @@ returnValue SQProblemSchur::stepCalcBacksolveSchur( int_t nFR, int_t nFX, int_t
 
 	/* Solve linear system with Schur complement. */
 	real_t* p = new real_t[nS];
-	backsolveSchurQR( nS, q, 1, p );
+	retval = backsolveSchurQR( nS, q, 1, p );
+	if (retval != SUCCESSFUL_RETURN)
+	{
+		delete [] p;
+		delete [] q;
+		return retval;
+	}
 
 	computeMTimes(-1.0, p, 1.0, rhs);
 
@@ -2872,12 +2878,20 @@ returnValue SQProblemSchur::determineStepDirection(	const real_t* const delta_g,
 
 	if ( retval == RET_QR_FACTORISATION_FAILED )
 	{
+		int_t nFR = getNFR( );
+		int_t nAC = getNAC( );
+
 		retval = resetSchurComplement( BT_FALSE );
 		if (retval != SUCCESSFUL_RETURN)
 		{
 			MyPrintf( "In SQProblem::determineStepDirection, resetSchurComplement returns %d\n", retval);
 			return THROWERROR( retval );
 		}
+
+		/* Working set had to be changed: arrays of the caller do not fit anymore. */
+		if ( ( nFR != getNFR( ) ) || ( nAC != getNAC( ) ) )
+			return THROWERROR( RET_QR_FACTORISATION_FAILED );
+
 		retval = determineStepDirection2(	delta_g, delta_lbA, delta_ubA, delta_lb, delta_ub,
 													Delta_bC_isZero, Delta_bB_isZero, delta_xFX, delta_xFR,
 													delta_yAC, delta_yFX
-- 
2.43.0


From 7974f09c642758ff4039a5baec87b8b2cf3ad80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 64/93] fix: repairing a singular working set relied on sorted
 pivots and zeroed the multiplier of a bound instead of that of the removed
 constraint

---
 src/SQProblemSchur.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 0eeae84..d1ee15f 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -3639,8 +3639,16 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 	if ( zeroPivots == 0 )
 		return RET_KKT_MATRIX_SINGULAR;
 
-	/* We assume implicitly that pivots are sorted in ascending order */
-	/// \todo make sure that this is so.
+	/* The linear solver may report pivots in any order: sort them in ascending order */
+	for ( k=1; k<defect; k++ )
+	{
+		int_t pivot = zeroPivots[k];
+		int_t kk = k;
+		for ( ; kk>0 && zeroPivots[kk-1]>pivot; kk-- )
+			zeroPivots[kk] = zeroPivots[kk-1];
+		zeroPivots[kk] = pivot;
+	}
+
 	/* Remove the one with the highest index first so not to mess up index lists */
 	int_t bndsAdded = 0;
 	for ( k=defect-1; k>-1; k-- )
@@ -3701,7 +3709,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 			}
 
 			/* Adjust dual variable */
-			y[number] = 0.0;
+			y[getNV( )+number] = 0.0;
 		}
 	}
 
-- 
2.43.0


From e1f348073456f508d9e92f484c0480f112102537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:08 +0000
Subject: [PATCH 65/93] fix: pivots were read from uninitialised memory if MA57
 failed to factorise

---
 src/SparseSolver.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 39b30c0..8cb4af0 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -826,6 +826,14 @@ returnValue Ma57SparseSolver::factorize( )
 	neig = info_ma57[23];   /* Number of negative eigenvalues */
 	rank = info_ma57[24];   /* Rank of matrix */
 
+	if ( ( iflag != 0 ) && ( iflag != 4 ) )
+	{
+		/* There are no pivots to be read. */
+		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
+		clear( );
+		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
+	}
+
 	/* Read pivot sequence (see MA57UD source code) */
 	pivots = new fint_t[dim];
 	fint_t nrows, ncols;
@@ -852,12 +860,6 @@ returnValue Ma57SparseSolver::factorize( )
 
 		return RET_KKT_MATRIX_SINGULAR;
 	}
-	else if (iflag != 0)
-	{
-		MyPrintf("MA57BD returns iflag = %d with ierror = %d\n", iflag, ierror);
-		clear( );
-		return THROWERROR(RET_MATRIX_FACTORISATION_FAILED);
-	}
 
 	have_factorization = true;
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From 62dd629a30978247f0310cd685779d0d33b06456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:54 +0000
Subject: [PATCH 66/93] fix: SQProblemSchur solved a QP with modified bounds if
 its initial working set had to be repaired

---
 include/qpOASES/SQProblemSchur.hpp |  6 ++++++
 src/SQProblemSchur.cpp             | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/include/qpOASES/SQProblemSchur.hpp b/include/qpOASES/SQProblemSchur.hpp
index 309e903..d10137c 100644
--- a/include/qpOASES/SQProblemSchur.hpp
+++ b/include/qpOASES/SQProblemSchur.hpp
@@ -159,6 +159,12 @@ class SQProblemSchur : public SQProblem
 														BooleanType setupAfresh
 														);
 
+		/** Factorizes the KKT matrix of the working set just set up and corrects its inertia if necessary.
+		 *	\return SUCCESSFUL_RETURN \n
+					RET_SETUP_WORKINGSET_FAILED \n
+					RET_INERTIA_CORRECTION_FAILED */
+		returnValue factorizeAuxiliaryWorkingSet( );
+
 
 		/** Adds a constraint to active set.
 		 *	\return SUCCESSFUL_RETURN \n
diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index d1ee15f..4bbd513 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -594,6 +594,30 @@ returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxili
 
 	/* III) FACTORIZATION */
 
+	/* Bounds that have to be added in order to resolve linear dependency or to correct
+	 * the inertia are moved to the current iterate. As the bounds of the auxiliary QP are
+	 * only set up once the working set is known, the given ones have to be kept. */
+	real_t* lb_original = new real_t[nV];
+	real_t* ub_original = new real_t[nV];
+	memcpy( lb_original,lb,((unsigned int)nV)*sizeof(real_t) );
+	memcpy( ub_original,ub,((unsigned int)nV)*sizeof(real_t) );
+
+	returnValue returnvalue = factorizeAuxiliaryWorkingSet( );
+
+	memcpy( lb,lb_original,((unsigned int)nV)*sizeof(real_t) );
+	memcpy( ub,ub_original,((unsigned int)nV)*sizeof(real_t) );
+	delete[] ub_original;
+	delete[] lb_original;
+
+	return returnvalue;
+}
+
+
+/*
+ *	f a c t o r i z e A u x i l i a r y W o r k i n g S e t
+ */
+returnValue SQProblemSchur::factorizeAuxiliaryWorkingSet( )
+{
 	/* III.1.) Factorize (resolves linear dependency) */
 	if( resetSchurComplement( BT_FALSE ) != SUCCESSFUL_RETURN )
 		return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
-- 
2.43.0


From 37f0551f24f6898af903c51572fab502688ed1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:07 +0000
Subject: [PATCH 67/93] fix: current iterate lost stationarity when a singular
 working set was repaired by removing a constraint

---
 src/SQProblemSchur.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 4bbd513..d34161c 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -594,20 +594,24 @@ returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxili
 
 	/* III) FACTORIZATION */
 
-	/* Bounds that have to be added in order to resolve linear dependency or to correct
-	 * the inertia are moved to the current iterate. As the bounds of the auxiliary QP are
-	 * only set up once the working set is known, the given ones have to be kept. */
+	/* Bounds that have to be added in order to resolve linear dependency or to correct the inertia
+	 * are moved to the current iterate, removing constraints adapts the gradient. As the auxiliary QP
+	 * is only set up once the working set is known, the given bounds and gradient have to be kept. */
+	real_t* g_original = new real_t[nV];
 	real_t* lb_original = new real_t[nV];
 	real_t* ub_original = new real_t[nV];
+	memcpy( g_original,g,((unsigned int)nV)*sizeof(real_t) );
 	memcpy( lb_original,lb,((unsigned int)nV)*sizeof(real_t) );
 	memcpy( ub_original,ub,((unsigned int)nV)*sizeof(real_t) );
 
 	returnValue returnvalue = factorizeAuxiliaryWorkingSet( );
 
+	memcpy( g,g_original,((unsigned int)nV)*sizeof(real_t) );
 	memcpy( lb,lb_original,((unsigned int)nV)*sizeof(real_t) );
 	memcpy( ub,ub_original,((unsigned int)nV)*sizeof(real_t) );
 	delete[] ub_original;
 	delete[] lb_original;
+	delete[] g_original;
 
 	return returnvalue;
 }
@@ -3643,6 +3647,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 {
 	int_t k, number;
 	SubjectToStatus B_status;
+	int_t nV = getNV( );
 	int_t rank = sparseSolver->getRank( );
 	int_t nFR = getNFR( );
 	int_t defect = nFR + getNAC( ) - rank;
@@ -3673,6 +3678,8 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 		zeroPivots[kk] = pivot;
 	}
 
+	real_t* AC_row = new real_t[nV];
+
 	/* Remove the one with the highest index first so not to mess up index lists */
 	int_t bndsAdded = 0;
 	for ( k=defect-1; k>-1; k-- )
@@ -3694,6 +3701,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 			/* Here we do not need to update the Schur complement because KKT matrix is factorized afterwards */
 			if ( bounds.moveFreeToFixed( number, B_status ) != SUCCESSFUL_RETURN )
 			{
+				delete[] AC_row;
 				delete[] zeroPivots;
 				return RET_ADDBOUND_FAILED;
 			}
@@ -3715,6 +3723,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 
 			if ( constraints.moveActiveToInactive( number ) != SUCCESSFUL_RETURN )
 			{
+				delete[] AC_row;
 				delete[] zeroPivots;
 				return RET_REMOVECONSTRAINT_FAILED;
 			}
@@ -3732,8 +3741,11 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 				constraints.setType( number, ST_BOUNDED );
 			}
 
-			/* Adjust dual variable */
-			y[getNV( )+number] = 0.0;
+			/* Adjust dual variable and keep current iterate stationary */
+			A->getRow( number,0,1.0,AC_row );
+			for ( int_t i=0; i<nV; i++ )
+				g[i] -= AC_row[i] * y[nV+number];
+			y[nV+number] = 0.0;
 		}
 	}
 
@@ -3741,6 +3753,7 @@ returnValue SQProblemSchur::repairSingularWorkingSet( )
 		MyPrintf( "WARNING: KKT matrix singular! Removed %i constraints and added %i bounds before refactorization.\n",
 					defect-bndsAdded, bndsAdded );
 
+	delete[] AC_row;
 	delete[] zeroPivots;
 
 	return SUCCESSFUL_RETURN;
-- 
2.43.0


From d1273469263eca86afef3ac61c91fc733577b9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:15 +0000
Subject: [PATCH 68/93] fix: SQProblemSchur ignored equalities that are missing
 in a guessed working set

---
 src/SQProblemSchur.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index d34161c..c2af3d7 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -579,17 +579,39 @@ returnValue SQProblemSchur::setupAuxiliaryWorkingSet(	const Bounds* const auxili
 	/* II.1.) Add bounds according to auxiliaryBounds */
 	for( i=0; i<nV; ++i )
 	{
-		if ( ( bounds.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) )
+		if ( bounds.getStatus( i ) != ST_INACTIVE )
+			continue;
+
+		if ( ( auxiliaryBounds->getStatus( i ) != ST_INACTIVE ) && ( bounds.getType( i ) != ST_UNBOUNDED ) )
+		{
 			if ( bounds.moveFreeToFixed( i, auxiliaryBounds->getStatus( i ) ) != SUCCESSFUL_RETURN )
 				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+		}
+		else if ( bounds.getType( i ) == ST_EQUALITY )
+		{
+			/* force equalities active */
+			if ( bounds.moveFreeToFixed( i, ST_LOWER ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+		}
 	}
 
 	/* II.2.) Add constraints according to auxiliaryConstraints */
 	for( i=0; i<nC; ++i )
 	{
-		if ( ( constraints.getStatus( i ) == ST_INACTIVE ) && ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) )
+		if ( constraints.getStatus( i ) != ST_INACTIVE )
+			continue;
+
+		if ( ( auxiliaryConstraints->getStatus( i ) != ST_INACTIVE ) && ( constraints.getType( i ) != ST_UNBOUNDED ) )
+		{
 			if ( constraints.moveInactiveToActive( i,auxiliaryConstraints->getStatus( i ) ) != SUCCESSFUL_RETURN )
 				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+		}
+		else if ( constraints.getType( i ) == ST_EQUALITY )
+		{
+			/* force equalities active */
+			if ( constraints.moveInactiveToActive( i,ST_LOWER ) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_SETUP_WORKINGSET_FAILED );
+		}
 	}
 
 	/* III) FACTORIZATION */
-- 
2.43.0


From b3b109320cc26d7c508f8a3fe2e2474e706411be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:29 +0000
Subject: [PATCH 69/93] fix: MA27 interface did not compile with long integers

---
 include/qpOASES/SparseSolver.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/qpOASES/SparseSolver.hpp b/include/qpOASES/SparseSolver.hpp
index 4d07490..18a86b3 100644
--- a/include/qpOASES/SparseSolver.hpp
+++ b/include/qpOASES/SparseSolver.hpp
@@ -175,7 +175,7 @@ class Ma27SparseSolver: public SparseSolver
 		virtual int_t getNegativeEigenvalues( );
 
 		/** Return the rank after a factorization */
-		virtual int getRank( );
+		virtual int_t getRank( );
 
 	/*
 	 *	PROTECTED MEMBER FUNCTIONS
-- 
2.43.0


From e0d6cfc18db12ed454039c6fdf84a075fd470772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:09 +0000
Subject: [PATCH 70/93] fix: infeasible or unbounded verdict on the previous QP
 stayed in place if a hot start with new matrices failed

---
 src/SQProblem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SQProblem.cpp b/src/SQProblem.cpp
index 2daa227..9056b26 100644
--- a/src/SQProblem.cpp
+++ b/src/SQProblem.cpp
@@ -392,6 +392,10 @@ returnValue SQProblem::setupNewAuxiliaryQP(	SymmetricMatrix *H_new, Matrix *A_ne
 
 	status = QPS_PREPARINGAUXILIARYQP;
 
+	/* Verdicts on the previous QP do not apply to the new one. */
+	infeasible = BT_FALSE;
+	unbounded = BT_FALSE;
+
 
 	/* I) SETUP NEW QP MATRICES AND VECTORS: */
 	/* 1) Shift constraints' bounds vectors by (A_new - A)'*x_opt to ensure
-- 
2.43.0


From 70f3fdd63bc763c983b467524b27fe3dd74900b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 71/93] fix: copying a session without degrees of freedom
 copied pivots of MA57 that do not exist

---
 src/SparseSolver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SparseSolver.cpp b/src/SparseSolver.cpp
index 8cb4af0..aaf7949 100644
--- a/src/SparseSolver.cpp
+++ b/src/SparseSolver.cpp
@@ -1058,7 +1058,7 @@ returnValue Ma57SparseSolver::copy( 	const Ma57SparseSolver& rhs
 	else
 		ifact_ma57 = 0;
 
-	if ( have_factorization )
+	if ( rhs.pivots != 0 )
 	{
 		pivots = new fint_t[dim];
 		memcpy( pivots, rhs.pivots, dim*sizeof(fint_t) );
-- 
2.43.0


From 2c4d7b26c116344ae290abe7c264576836019f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:15 +0000
Subject: [PATCH 72/93] fix: SQProblemSchur corrupted its index lists if a
 variable was fixed by a repair while ensuring linear independence

---
 src/SQProblemSchur.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index c2af3d7..3c7819a 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1236,6 +1236,10 @@ returnValue SQProblemSchur::addBound(	int_t number,
 		}
 	}
 
+	/* Repairing a singular working set while ensuring linear independence might have fixed the variable. */
+	if ( bounds.getStatus( number ) != ST_INACTIVE )
+		return THROWERROR( RET_ADDBOUND_FAILED );
+
 	/* II) UPDATE INDICES */
 	tabularOutput.idxAddB = number;
 	if ( bounds.moveFreeToFixed( number,B_status ) != SUCCESSFUL_RETURN )
-- 
2.43.0


From 8bc1dbb64ad82e6476bd0d16e1060eb21f220ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:04 +0000
Subject: [PATCH 73/93] fix: failures to exchange or flip bounds and
 constraints in SQProblemSchur were ignored

---
 src/SQProblemSchur.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index 3c7819a..d208eea 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1815,12 +1815,14 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 					case ST_LOWER:
 						ubA[number] = lbA[number];
 						Ax_l[number] = -Ax_u[number];
-						addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						if ( addConstraint( number, ST_UPPER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 						break;
 					case ST_UPPER:
 						lbA[number] = ubA[number];
 						Ax_u[number] = -Ax_l[number];
-						addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						if ( addConstraint( number, ST_LOWER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 						break;
 					default:
 						return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
@@ -1861,12 +1863,14 @@ returnValue SQProblemSchur::removeConstraint(	int_t number,
 
 		if ( addBoundNotConstraint )
 		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addBound(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			tabularOutput.excAddB = 1;
 		}
 		else
 		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVECONSTRAINT_FAILED );
 			tabularOutput.excAddC = 1;
 		}
 	}
@@ -2199,11 +2203,13 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 				{
 					case ST_LOWER:
 						ub[number] = lb[number];
-						addBound( number, ST_UPPER, BT_TRUE, BT_FALSE );
+						if ( addBound( number, ST_UPPER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVEBOUND_FAILED );
 						break;
 					case ST_UPPER:
 						lb[number] = ub[number];
-						addBound( number, ST_LOWER, BT_TRUE, BT_FALSE );
+						if ( addBound( number, ST_LOWER, BT_TRUE, BT_FALSE ) != SUCCESSFUL_RETURN )
+							return THROWERROR( RET_REMOVEBOUND_FAILED );
 						break;
 					default:
 						return THROWERROR( RET_MOVING_BOUND_FAILED );
@@ -2244,12 +2250,14 @@ returnValue SQProblemSchur::removeBound(	int_t number,
 
 		if ( addBoundNotConstraint )
 		{
-			addBound(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addBound(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
 			tabularOutput.excAddB = 1;
 		}
 		else
 		{
-			addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE);
+			if ( addConstraint(addIdx, addStatus, BT_TRUE, BT_FALSE) != SUCCESSFUL_RETURN )
+				return THROWERROR( RET_REMOVEBOUND_FAILED );
 			tabularOutput.excAddC = 1;
 		}
 	}
-- 
2.43.0


From 7236893529ab519ab6f7cba455d56fb1f11cdb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 74/93] fix: MEX interfaces wrote a second output if only the
 handle is requested

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 8 ++++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 5a10400..3f953a1 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -688,6 +688,10 @@ returnValue allocateOutputs(	int nlhs, mxArray* plhs[], int_t nV, int_t nC = 0,
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleMatrix( 1, 1, mxREAL );
 
+	/* only the handle is requested */
+	if ( ( curIdx > 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	plhs[curIdx++] = mxCreateDoubleMatrix( nV, nP, mxREAL );
 
@@ -755,6 +759,10 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleScalar( handle );
 
+	/* only the handle is requested */
+	if ( ( curIdx > 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	double* x = mxGetPr( plhs[curIdx++] );
 	qp->getPrimalSolution( &(x[k*nV]) );
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index bc48616..bfd5060 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -678,6 +678,10 @@ returnValue allocateOutputs(	int nlhs, mxArray* plhs[], int_t nV, int_t nC = 0,
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleMatrix( 1, 1, mxREAL );
 
+	/* only the handle is requested */
+	if ( ( curIdx > 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	plhs[curIdx++] = mxCreateDoubleMatrix( nV, nP, mxREAL );
 
@@ -745,6 +749,10 @@ returnValue obtainOutputs(	int_t k, QProblemB* qp, returnValue returnvalue, int_
 	if ( handle >= 0 )
 		plhs[curIdx++] = mxCreateDoubleScalar( handle );
 
+	/* only the handle is requested */
+	if ( ( curIdx > 0 ) && ( nlhs <= curIdx ) )
+		return SUCCESSFUL_RETURN;
+
 	/* x */
 	double* x = mxGetPr( plhs[curIdx++] );
 	qp->getPrimalSolution( &(x[k*nV]) );
-- 
2.43.0


From de631875911a492916219de097964ec97e28dad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 75/93] fix: MEX interfaces released the Cholesky factor with
 the wrong operator

---
 interfaces/matlab/qpOASES.cpp          | 4 ++--
 interfaces/matlab/qpOASES_sequence.cpp | 2 +-
 interfaces/octave/qpOASES.cpp          | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 2 +-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index 5c5274f..ff59118 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -564,7 +564,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -590,7 +590,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							isSparse
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index b10aede..9c97a42 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -660,7 +660,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 0c1fd01..7c3c6c5 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -541,7 +541,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,R
 							);
 		
-        if (R != 0) delete R;
+        if (R != 0) delete[] R;
 		if (H != 0) delete H;
 		if (Hv != 0) delete[] Hv;
 		if (Hjc != 0) delete[] Hjc;
@@ -566,7 +566,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							guessedBounds,guessedConstraints,R
 							);
 		
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		if (A != 0) delete A;
 		if (H != 0) delete H;
 		if (Av != 0) delete[] Av;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 7ddfa32..84d6bc8 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -649,7 +649,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 							);
 		}
 
-		if (R != 0) delete R;
+		if (R != 0) delete[] R;
 		return;
 	}
 
-- 
2.43.0


From 1b4b3e1ef1872a81020a689baaac4cc0cc3f4d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 76/93] fix: MEX interfaces crashed if the current EQP is
 solved for a simply bounded QP or for several right-hand sides without
 multipliers

---
 interfaces/matlab/qpOASES_sequence.cpp | 8 +++++++-
 interfaces/octave/qpOASES_sequence.cpp | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 9c97a42..61045da 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -986,6 +986,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Current equality constrained QP can only be solved for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
@@ -1060,7 +1066,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 84d6bc8..41c998f 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -975,6 +975,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Current equality constrained QP can only be solved for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		int_t nRHS = (int_t)mxGetN(prhs[2]);
 		nV = globalQP->getNV( );
@@ -1049,7 +1055,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			}
 		}
 		else
-			y_out = new real_t[nV+nC];
+			y_out = new real_t[(nV+nC)*nRHS];
 
 		/* Solve equality constrained QP */
 		returnValue returnvalue = globalQP->sqp->solveCurrentEQP( nRHS,g,lb,ub,lbA,ubA, x_out,y_out );
-- 
2.43.0


From 25427620bf7be4690e4f8bfce76de2e09ed254ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 77/93] fix: MEX interfaces deleted matrices of a QP that were
 still in use if a hotstart with new matrices was refused

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 53 ++++++++++++++++++++++
 interfaces/matlab/qpOASES_matlab_utils.hpp | 22 +++++++++
 interfaces/matlab/qpOASES_sequence.cpp     | 12 ++++-
 interfaces/octave/qpOASES_octave_utils.cpp | 53 ++++++++++++++++++++++
 interfaces/octave/qpOASES_octave_utils.hpp | 22 +++++++++
 interfaces/octave/qpOASES_sequence.cpp     | 12 ++++-
 6 files changed, 172 insertions(+), 2 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index 3f953a1..aa35790 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -75,6 +75,8 @@ QPInstance::QPInstance(	uint_t _nV, uint_t _nC, HessianType _hessianType,
 	Ajc = 0;
 	Hv = 0;
 	Av = 0;
+
+	previous = 0;
 }	
 
 
@@ -146,6 +148,57 @@ returnValue QPInstance::deleteQPMatrices( )
 		Air = 0;
 	}
 
+	return deletePreviousQPMatrices( );
+}
+
+
+returnValue QPInstance::keepPreviousQPMatrices( )
+{
+	PreviousMatrices* kept = new PreviousMatrices;
+
+	kept->H = H;
+	kept->A = A;
+	kept->Hir = Hir;
+	kept->Hjc = Hjc;
+	kept->Air = Air;
+	kept->Ajc = Ajc;
+	kept->Hv = Hv;
+	kept->Av = Av;
+
+	kept->next = previous;
+	previous = kept;
+
+	H = 0;
+	A = 0;
+	Hir = 0;
+	Hjc = 0;
+	Air = 0;
+	Ajc = 0;
+	Hv = 0;
+	Av = 0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue QPInstance::deletePreviousQPMatrices( )
+{
+	while ( previous != 0 )
+	{
+		PreviousMatrices* kept = previous;
+		previous = kept->next;
+
+		delete kept->H;
+		delete[] kept->Hv;
+		delete[] kept->Hjc;
+		delete[] kept->Hir;
+		delete kept->A;
+		delete[] kept->Av;
+		delete[] kept->Ajc;
+		delete[] kept->Air;
+		delete kept;
+	}
+
 	return SUCCESSFUL_RETURN;
 }
 
diff --git a/interfaces/matlab/qpOASES_matlab_utils.hpp b/interfaces/matlab/qpOASES_matlab_utils.hpp
index 9ad078e..2ec96b9 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.hpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.hpp
@@ -75,6 +75,12 @@ class QPInstance
 		~QPInstance( );
 	
 		returnValue deleteQPMatrices();
+
+		/** Puts current matrices aside: sessions refer to them until a hotstart with new ones succeeded. */
+		returnValue keepPreviousQPMatrices();
+
+		/** Deletes all matrices that have been put aside. */
+		returnValue deletePreviousQPMatrices();
 		
 		int_t getNV() const;
 		int_t getNC() const;
@@ -94,6 +100,22 @@ class QPInstance
 		sparse_int_t* Ajc;
 		real_t* Hv;
 		real_t* Av;
+
+	private:
+		struct PreviousMatrices
+		{
+			SymmetricMatrix* H;
+			Matrix* A;
+			sparse_int_t* Hir;
+			sparse_int_t* Hjc;
+			sparse_int_t* Air;
+			sparse_int_t* Ajc;
+			real_t* Hv;
+			real_t* Av;
+			PreviousMatrices* next;
+		};
+
+		PreviousMatrices* previous;
 };
 
 
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 61045da..d422b5d 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -309,6 +309,9 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
+	if ( returnvalue == SUCCESSFUL_RETURN )
+		getQPInstance(handle)->deletePreviousQPMatrices( );
+
 	switch (returnvalue)
 	{
 		case SUCCESSFUL_RETURN:
@@ -835,6 +838,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Matrices can only be changed for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
 		
@@ -931,7 +940,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if ( ( !mxIsEmpty( prhs[9] ) ) && ( mxIsStruct( prhs[9] ) ) )
 				setupOptions( &options,prhs[9],nWSRin,maxCpuTimeIn );
 
-		globalQP->deleteQPMatrices( );
+		/* QP still refers to its current matrices if hotstart with new ones fails */
+		globalQP->keepPreviousQPMatrices( );
 
 		/* make a deep-copy of the user-specified Hessian matrix (possibly sparse) */
 		if ( H_idx >= 0 )
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index bfd5060..3a507b6 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -65,6 +65,8 @@ QPInstance::QPInstance(	uint_t _nV, uint_t _nC, HessianType _hessianType,
 	Ajc = 0;
 	Hv = 0;
 	Av = 0;
+
+	previous = 0;
 }	
 
 
@@ -136,6 +138,57 @@ returnValue QPInstance::deleteQPMatrices( )
 		Air = 0;
 	}
 
+	return deletePreviousQPMatrices( );
+}
+
+
+returnValue QPInstance::keepPreviousQPMatrices( )
+{
+	PreviousMatrices* kept = new PreviousMatrices;
+
+	kept->H = H;
+	kept->A = A;
+	kept->Hir = Hir;
+	kept->Hjc = Hjc;
+	kept->Air = Air;
+	kept->Ajc = Ajc;
+	kept->Hv = Hv;
+	kept->Av = Av;
+
+	kept->next = previous;
+	previous = kept;
+
+	H = 0;
+	A = 0;
+	Hir = 0;
+	Hjc = 0;
+	Air = 0;
+	Ajc = 0;
+	Hv = 0;
+	Av = 0;
+
+	return SUCCESSFUL_RETURN;
+}
+
+
+returnValue QPInstance::deletePreviousQPMatrices( )
+{
+	while ( previous != 0 )
+	{
+		PreviousMatrices* kept = previous;
+		previous = kept->next;
+
+		delete kept->H;
+		delete[] kept->Hv;
+		delete[] kept->Hjc;
+		delete[] kept->Hir;
+		delete kept->A;
+		delete[] kept->Av;
+		delete[] kept->Ajc;
+		delete[] kept->Air;
+		delete kept;
+	}
+
 	return SUCCESSFUL_RETURN;
 }
 
diff --git a/interfaces/octave/qpOASES_octave_utils.hpp b/interfaces/octave/qpOASES_octave_utils.hpp
index 0d77895..36c7ac6 100644
--- a/interfaces/octave/qpOASES_octave_utils.hpp
+++ b/interfaces/octave/qpOASES_octave_utils.hpp
@@ -67,6 +67,12 @@ class QPInstance
 		~QPInstance( );
 	
 		returnValue deleteQPMatrices();
+
+		/** Puts current matrices aside: sessions refer to them until a hotstart with new ones succeeded. */
+		returnValue keepPreviousQPMatrices();
+
+		/** Deletes all matrices that have been put aside. */
+		returnValue deletePreviousQPMatrices();
 		
 		int_t getNV() const;
 		int_t getNC() const;
@@ -85,6 +91,22 @@ class QPInstance
 		sparse_int_t* Ajc;
 		real_t* Hv;
 		real_t* Av;
+
+	private:
+		struct PreviousMatrices
+		{
+			SymmetricMatrix* H;
+			Matrix* A;
+			sparse_int_t* Hir;
+			sparse_int_t* Hjc;
+			sparse_int_t* Air;
+			sparse_int_t* Ajc;
+			real_t* Hv;
+			real_t* Av;
+			PreviousMatrices* next;
+		};
+
+		PreviousMatrices* previous;
 };
 
 
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 41c998f..f036068 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -309,6 +309,9 @@ int_t SQProblem_hotstart(	int_t handle,
 	globalSQP->setOptions( *options );
 	returnValue returnvalue = globalSQP->hotstart( H,g,A,lb,ub,lbA,ubA, nWSRout,&maxCpuTimeOut );
 
+	if ( returnvalue == SUCCESSFUL_RETURN )
+		getQPInstance(handle)->deletePreviousQPMatrices( );
+
 	switch (returnvalue)
 	{
 		case SUCCESSFUL_RETURN:
@@ -824,6 +827,12 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
+		if ( globalQP->sqp == 0 )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Matrices can only be changed for QPs with general constraints!" );
+			return;
+		}
+
 		/* Check inputs dimensions and assign pointers to inputs. */
 		g_idx = 3;
 		
@@ -920,7 +929,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if ( ( !mxIsEmpty( prhs[9] ) ) && ( mxIsStruct( prhs[9] ) ) )
 				setupOptions( &options,prhs[9],nWSRin,maxCpuTimeIn );
 
-		globalQP->deleteQPMatrices( );
+		/* QP still refers to its current matrices if hotstart with new ones fails */
+		globalQP->keepPreviousQPMatrices( );
 
 		/* make a deep-copy of the user-specified Hessian matrix (possibly sparse) */
 		if ( H_idx >= 0 )
-- 
2.43.0


From ed69c313ccead568652f7624aab706b08d533d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 78/93] fix: MEX interfaces ignored invalid auxiliary inputs or
 leaked memory and an instance without handle

---
 interfaces/matlab/qpOASES.cpp              |  3 +-
 interfaces/matlab/qpOASES_matlab_utils.cpp | 35 +++++++++++++++++++++-
 interfaces/matlab/qpOASES_sequence.cpp     |  3 +-
 interfaces/octave/qpOASES.cpp              |  3 +-
 interfaces/octave/qpOASES_octave_utils.cpp | 35 +++++++++++++++++++++-
 interfaces/octave/qpOASES_sequence.cpp     |  3 +-
 6 files changed, 76 insertions(+), 6 deletions(-)

diff --git a/interfaces/matlab/qpOASES.cpp b/interfaces/matlab/qpOASES.cpp
index ff59118..878c004 100644
--- a/interfaces/matlab/qpOASES.cpp
+++ b/interfaces/matlab/qpOASES.cpp
@@ -520,7 +520,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 	}
 
 	if ( auxInput_idx >= 0 )
-		setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+		if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+			return;
 
 	/* convert Cholesky factor to C storage format */
 	if ( R_for != 0 )
diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index aa35790..bc530d9 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -645,6 +645,24 @@ returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nW
 
 
 
+/*
+ *	i s W o r k i n g S e t S t a t u s
+ */
+BooleanType isWorkingSetStatus( const double* const status, uint_t dim )
+{
+	uint_t i;
+
+	if ( status == 0 )
+		return BT_TRUE;
+
+	for ( i=0; i<dim; ++i )
+		if ( ( isEqual( status[i],-1.0 ) == BT_FALSE ) && ( isEqual( status[i],0.0 ) == BT_FALSE ) && ( isEqual( status[i],1.0 ) == BT_FALSE ) )
+			return BT_FALSE;
+
+	return BT_TRUE;
+}
+
+
 /*
  *	s e t u p A u x i l i a r y I n p u t s
  */
@@ -666,8 +684,11 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		}
 		else
 		{
-			if ( mxIsScalar(curField) == false )
+			if ( ( mxIsDouble(curField) == false ) || ( mxIsScalar(curField) == false ) )
+			{
+				myMexErrMsgTxt( "ERROR (qpOASES): Hessian type has to be given as a scalar!" );
 				return RET_INVALID_ARGUMENTS;
+			}
 
 			double* hessianTypeTmp = mxGetPr(curField);
 			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
@@ -699,6 +720,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*guessedBounds = mxGetPr(curField);
 		if ( smartDimensionCheck( guessedBounds,nV,1, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( isWorkingSetStatus( *guessedBounds,nV ) == BT_FALSE )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Only {-1, 0, 1} allowed for status of bounds!" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	/* guessedWorkingSetC */
@@ -710,6 +737,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*guessedConstraints = mxGetPr(curField);
 		if ( smartDimensionCheck( guessedConstraints,nC,1, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( isWorkingSetStatus( *guessedConstraints,nC ) == BT_FALSE )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Only {-1, 0, 1} allowed for status of constraints!" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	/* R */
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index d422b5d..1dcc8bc 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -609,7 +609,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 
 		if ( auxInput_idx >= 0 )
-			setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+			if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+				return;
 
 		/* convert Cholesky factor to C storage format */
 		if ( R_for != 0 )
diff --git a/interfaces/octave/qpOASES.cpp b/interfaces/octave/qpOASES.cpp
index 7c3c6c5..bb7c393 100644
--- a/interfaces/octave/qpOASES.cpp
+++ b/interfaces/octave/qpOASES.cpp
@@ -503,7 +503,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 	}
 
 	if ( auxInput_idx >= 0 )
-		setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+		if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+			return;
 
 	/* convert Cholesky factor to C storage format */
 	if ( R_for != 0 )
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 3a507b6..41dab33 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -635,6 +635,24 @@ returnValue setupOptions( Options* options, const mxArray* optionsPtr, int_t& nW
 
 
 
+/*
+ *	i s W o r k i n g S e t S t a t u s
+ */
+BooleanType isWorkingSetStatus( const double* const status, uint_t dim )
+{
+	uint_t i;
+
+	if ( status == 0 )
+		return BT_TRUE;
+
+	for ( i=0; i<dim; ++i )
+		if ( ( isEqual( status[i],-1.0 ) == BT_FALSE ) && ( isEqual( status[i],0.0 ) == BT_FALSE ) && ( isEqual( status[i],1.0 ) == BT_FALSE ) )
+			return BT_FALSE;
+
+	return BT_TRUE;
+}
+
+
 /*
  *	s e t u p A u x i l i a r y I n p u t s
  */
@@ -656,8 +674,11 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		}
 		else
 		{
-			if ( mxIsScalar(curField) == false )
+			if ( ( mxIsDouble(curField) == false ) || ( mxIsScalar(curField) == false ) )
+			{
+				myMexErrMsgTxt( "ERROR (qpOASES): Hessian type has to be given as a scalar!" );
 				return RET_INVALID_ARGUMENTS;
+			}
 
 			double* hessianTypeTmp = mxGetPr(curField);
 			int_t hessianTypeInt = (int_t)*hessianTypeTmp;
@@ -689,6 +710,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*guessedBounds = mxGetPr(curField);
 		if ( smartDimensionCheck( guessedBounds,nV,1, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( isWorkingSetStatus( *guessedBounds,nV ) == BT_FALSE )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Only {-1, 0, 1} allowed for status of bounds!" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	/* guessedWorkingSetC */
@@ -700,6 +727,12 @@ returnValue setupAuxiliaryInputs(	const mxArray* auxInput, uint_t nV, uint_t nC,
 		*guessedConstraints = mxGetPr(curField);
 		if ( smartDimensionCheck( guessedConstraints,nC,1, BT_TRUE,((const mxArray**)&curField),0 ) != SUCCESSFUL_RETURN )
 			return RET_INVALID_ARGUMENTS;
+
+		if ( isWorkingSetStatus( *guessedConstraints,nC ) == BT_FALSE )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): Only {-1, 0, 1} allowed for status of constraints!" );
+			return RET_INVALID_ARGUMENTS;
+		}
 	}
 
 	/* R */
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index f036068..5fb6346 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -604,7 +604,8 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 
 		if ( auxInput_idx >= 0 )
-			setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for );
+			if ( setupAuxiliaryInputs( prhs[auxInput_idx],nV,nC, &hessianType,&x0,&guessedBounds,&guessedConstraints,&R_for ) != SUCCESSFUL_RETURN )
+				return;
 
 		/* convert Cholesky factor to C storage format */
 		if ( R_for != 0 )
-- 
2.43.0


From 7f96909c2a7df9cd7bf38531cb86f03167134507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 79/93] fix: MEX interfaces read values beyond the end of
 inputs that are not given in double precision

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 19 +++++++++++++++++--
 interfaces/octave/qpOASES_octave_utils.cpp | 19 +++++++++++++++++--
 2 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index bc530d9..f828f5b 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -326,6 +326,12 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == false )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -412,6 +418,15 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	/* ensure that data is given in double precision */
+	if ( ( mxIsEmpty(prhs[rhs_index]) == false ) && ( mxIsDouble(prhs[rhs_index]) == false ) )
+	{
+		snprintf(msg, MAX_STRING_LENGTH,
+				"ERROR (qpOASES): Argument %d has to be provided in double precision!", (int)(rhs_index + 1));
+		myMexErrMsgTxt(msg);
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
@@ -475,7 +490,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) && ( mxIsDouble( optionName ) == true ) )
 	{
 		*optionValue = mxGetPr( optionName );
 		return BT_TRUE;
@@ -483,7 +498,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar in double precision, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 41dab33..10ea50c 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -316,6 +316,12 @@ returnValue smartDimensionCheck(	real_t** input, uint_t m, uint_t n, BooleanType
 	else
 	{
 		/* input is non-empty */
+		if ( mxIsDouble( prhs[ idx ] ) == false )
+		{
+			myMexErrMsgTxt( "ERROR (qpOASES): All data has to be provided in double precision!" );
+			return RET_INVALID_ARGUMENTS;
+		}
+
         if ( mxIsSparse( prhs[ idx ] ) == 0 )
         {
             if ( ( mxGetM( prhs[ idx ] ) == m ) && ( mxGetN( prhs[ idx ] ) == n ) )
@@ -402,6 +408,15 @@ BooleanType containsNaNorInf(	const mxArray* prhs[], int_t rhs_index,
 	if ( rhs_index < 0 )
 		return BT_FALSE;
 
+	/* ensure that data is given in double precision */
+	if ( ( mxIsEmpty(prhs[rhs_index]) == false ) && ( mxIsDouble(prhs[rhs_index]) == false ) )
+	{
+		snprintf(msg, MAX_STRING_LENGTH,
+				"ERROR (qpOASES): Argument %d has to be provided in double precision!", (int)(rhs_index + 1));
+		myMexErrMsgTxt(msg);
+		return BT_TRUE;
+	}
+
 	/* overwrite dim for sparse matrices */
 	if (mxIsSparse(prhs[rhs_index]) == 1)
 		dim = (uint_t)mxGetNzmax(prhs[rhs_index]);
@@ -465,7 +480,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 		return BT_FALSE;
 	}
 
-	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) )
+	if ( ( mxIsEmpty(optionName) == false ) && ( mxIsScalar( optionName ) == true ) && ( mxIsDouble( optionName ) == true ) )
 	{
 		*optionValue = mxGetPr( optionName );
 		return BT_TRUE;
@@ -473,7 +488,7 @@ BooleanType hasOptionsValue( const mxArray* optionsPtr, const char* const option
 	else
 	{
 		char msg[MAX_STRING_LENGTH];
-		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar, using default value instead!", optionString );
+		snprintf(msg, MAX_STRING_LENGTH, "Option '%s' is not a scalar in double precision, using default value instead!", optionString );
 		mexWarnMsgTxt( msg );
 		return BT_FALSE;
 	}
-- 
2.43.0


From c2901dff660587e08578a6e437a9a7bce5e7f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 80/93] fix: MEX interfaces read beyond the end of constraint
 matrices without columns

---
 interfaces/matlab/qpOASES_sequence.cpp | 4 ++--
 interfaces/octave/qpOASES_sequence.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 1dcc8bc..8f3e485 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -551,7 +551,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( ( mxGetN( prhs[ A_idx ] ) != 0 ) || ( nC > 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -912,7 +912,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( ( mxGetN( prhs[ A_idx ] ) != 0 ) || ( nC > 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index 5fb6346..dfa697d 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -546,7 +546,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			if (containsNaNorInf( prhs,ubA_idx, 1 ) == BT_TRUE)
 				return;
 
-			if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+			if ( ( ( mxGetN( prhs[ A_idx ] ) != 0 ) || ( nC > 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 			{
 				myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 				return;
@@ -901,7 +901,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 			return;
 		}
 
-		if ( ( mxGetN( prhs[ A_idx ] ) != 0 ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
+		if ( ( ( mxGetN( prhs[ A_idx ] ) != 0 ) || ( nC > 0 ) ) && ( mxGetN( prhs[ A_idx ] ) != nV ) )
 		{
 			myMexErrMsgTxt( "ERROR (qpOASES): Constraint matrix dimension mismatch!" );
 			return;
-- 
2.43.0


From d2a2af83dec3cc0ad8f0d75ae41c2da9125425b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 81/93] fix: MEX interfaces took values that are no handles for
 handles of other instances

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 15 +++++++++++++++
 interfaces/matlab/qpOASES_sequence.cpp     |  8 ++++----
 interfaces/octave/qpOASES_octave_utils.cpp | 15 +++++++++++++++
 interfaces/octave/qpOASES_sequence.cpp     |  8 ++++----
 4 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index f828f5b..a0cdeeb 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -258,6 +258,21 @@ int_t allocateQPInstance(	int_t nV, int_t nC, HessianType hessianType,
 }
 
 
+/*
+ *	g e t H a n d l e
+ */
+int_t getHandle( const mxArray *pm )
+{
+	double value = mxGetScalar( pm );
+
+	/* handles are (positive) integers */
+	if ( ( value >= 1.0 ) && ( value <= 2147483647.0 ) && ( value == (double)((int_t)value) ) )
+		return (int_t)value;
+	else
+		return -1;
+}
+
+
 /*
  *  g e t Q P r o b l e m I n s t a n c e
  */
diff --git a/interfaces/matlab/qpOASES_sequence.cpp b/interfaces/matlab/qpOASES_sequence.cpp
index 8f3e485..b33275c 100644
--- a/interfaces/matlab/qpOASES_sequence.cpp
+++ b/interfaces/matlab/qpOASES_sequence.cpp
@@ -698,7 +698,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		globalQP = getQPInstance( handle );
 		if ( globalQP == 0 )
 		{
@@ -831,7 +831,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		globalQP = getQPInstance( handle );
 		if ( globalQP == 0 )
 		{
@@ -989,7 +989,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		globalQP = getQPInstance( handle );
 		if ( globalQP == 0 )
 		{
@@ -1119,7 +1119,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* Cleanup SQProblem instance. */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		deleteQPInstance( handle );
 		
 		return;
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 10ea50c..777e397 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -248,6 +248,21 @@ int_t allocateQPInstance(	int_t nV, int_t nC, HessianType hessianType,
 }
 
 
+/*
+ *	g e t H a n d l e
+ */
+int_t getHandle( const mxArray *pm )
+{
+	double value = mxGetScalar( pm );
+
+	/* handles are (positive) integers */
+	if ( ( value >= 1.0 ) && ( value <= 2147483647.0 ) && ( value == (double)((int_t)value) ) )
+		return (int_t)value;
+	else
+		return -1;
+}
+
+
 /*
  *  g e t Q P r o b l e m I n s t a n c e
  */
diff --git a/interfaces/octave/qpOASES_sequence.cpp b/interfaces/octave/qpOASES_sequence.cpp
index dfa697d..b31ac8b 100644
--- a/interfaces/octave/qpOASES_sequence.cpp
+++ b/interfaces/octave/qpOASES_sequence.cpp
@@ -687,7 +687,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		globalQP = getQPInstance( handle );
 		if ( globalQP == 0 )
 		{
@@ -820,7 +820,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		globalQP = getQPInstance( handle );
 		if ( globalQP == 0 )
 		{
@@ -978,7 +978,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* get QP instance */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		globalQP = getQPInstance( handle );
 		if ( globalQP == 0 )
 		{
@@ -1108,7 +1108,7 @@ void mexFunction( int nlhs, mxArray* plhs[], int nrhs, const mxArray* prhs[] )
 		}
 
 		/* Cleanup SQProblem instance. */
-		handle = (uint_t)mxGetScalar( prhs[1] );
+		handle = getHandle( prhs[1] );
 		deleteQPInstance( handle );
 		
 		return;
-- 
2.43.0


From 0c75ff861ba2e55571140bce41d83527022ac8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:55 +0000
Subject: [PATCH 82/93] fix: MEX interfaces did not add missing diagonal
 elements at the end of columns of sparse Hessians

---
 interfaces/matlab/qpOASES_matlab_utils.cpp | 8 ++++++++
 interfaces/octave/qpOASES_octave_utils.cpp | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/interfaces/matlab/qpOASES_matlab_utils.cpp b/interfaces/matlab/qpOASES_matlab_utils.cpp
index a0cdeeb..cfa46c6 100644
--- a/interfaces/matlab/qpOASES_matlab_utils.cpp
+++ b/interfaces/matlab/qpOASES_matlab_utils.cpp
@@ -1008,6 +1008,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+			/* all entries are above the diagonal */
+			if ( needInsertDiag == BT_TRUE )
+			{
+				(*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+				(*Hv)[mat_jc[j+1] + nfill] = 0.0;
+				nfill++;
+			}
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
diff --git a/interfaces/octave/qpOASES_octave_utils.cpp b/interfaces/octave/qpOASES_octave_utils.cpp
index 777e397..10610a0 100644
--- a/interfaces/octave/qpOASES_octave_utils.cpp
+++ b/interfaces/octave/qpOASES_octave_utils.cpp
@@ -998,6 +998,14 @@ returnValue setupHessianMatrix(	const mxArray* prhsH, int_t nV,
 				(*Hir)[i + nfill] = (sparse_int_t)(mat_ir[i]);
 				(*Hv)[i + nfill] = (real_t)(v[i]);
 			}
+
+			/* all entries are above the diagonal */
+			if ( needInsertDiag == BT_TRUE )
+			{
+				(*Hir)[mat_jc[j+1] + nfill] = (sparse_int_t)j;
+				(*Hv)[mat_jc[j+1] + nfill] = 0.0;
+				nfill++;
+			}
 		}
 		(*Hjc)[nV] = (sparse_int_t)(mat_jc[nV]) + nfill;
 
-- 
2.43.0


From 185bc896730c99a7f4acfe63c86318a6139ed807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:46 +0000
Subject: [PATCH 83/93] fix: solving the current EQP crashed if limits that are
 needed are not given and hid failures of all but the last right-hand side

---
 src/QProblem.cpp | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index f919cf4..d7a597b 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -817,7 +817,7 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 										real_t* y_out
 										)
 {
-	if ( ( x_out == 0 ) || ( y_out == 0 ) )
+	if ( ( g_in == 0 ) || ( x_out == 0 ) || ( y_out == 0 ) )
 		return THROWERROR( RET_INVALID_ARGUMENTS );
 
 	/* there is no factorised KKT system without a (at least partly successful) initialisation */
@@ -846,6 +846,25 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 	bounds.getFixed( )->getNumberArray( &FX_idx );
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
+	/* limits may only be omitted if none of them is active */
+	BooleanType limitsMissing = BT_FALSE;
+	for ( jj = 0; jj < nFX; ++jj )
+		if ( ( ( bounds.getStatus( FX_idx[jj] ) == ST_LOWER ) ? lb_in : ub_in ) == 0 )
+			limitsMissing = BT_TRUE;
+	for ( jj = 0; jj < nAC; ++jj )
+		if ( ( ( constraints.getStatus( AC_idx[jj] ) == ST_LOWER ) ? lbA_in : ubA_in ) == 0 )
+			limitsMissing = BT_TRUE;
+
+	if ( limitsMissing == BT_TRUE )
+	{
+		delete[] delta_yFX;
+		delete[] delta_yAC;
+		delete[] delta_xFR;
+		delete[] delta_xFX;
+
+		return THROWERROR( RET_INVALID_ARGUMENTS );
+	}
+
 	for ( ii = 0 ; ii < (nV+nC)*n_rhs; ++ii )
 		y_out[ii] = 0.0;
 
@@ -855,6 +874,9 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			g_in, lbA_in, ubA_in, lb_in, ub_in, BT_FALSE, BT_FALSE,
 			delta_xFX, delta_xFR, delta_yAC, delta_yFX );
 
+		if ( returnvalue != SUCCESSFUL_RETURN )
+			break;
+
 		for ( jj = 0; jj < nFX; ++jj )
 			x_out[FX_idx[jj]] = delta_xFX[jj];
 		for ( jj = 0; jj < nFR; ++jj )
@@ -865,10 +887,14 @@ returnValue QProblem::solveCurrentEQP(	const int_t n_rhs,
 			y_out[nV+AC_idx[jj]] = delta_yAC[jj];
 
 		g_in += nV;
-		lb_in += nV;
-		ub_in += nV;
-		lbA_in += nC;
-		ubA_in += nC;
+		if ( lb_in != 0 )
+			lb_in += nV;
+		if ( ub_in != 0 )
+			ub_in += nV;
+		if ( lbA_in != 0 )
+			lbA_in += nC;
+		if ( ubA_in != 0 )
+			ubA_in += nC;
 		x_out += nV;
 		y_out += nV+nC;
 	}
-- 
2.43.0


From 78a397195435a5a95129dc4f90260943fcfecd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 84/93] fix: index lists read in front of their arrays when
 asked for a number smaller than all members

---
 src/Indexlist.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Indexlist.cpp b/src/Indexlist.cpp
index d6fb383..45c33da 100644
--- a/src/Indexlist.cpp
+++ b/src/Indexlist.cpp
@@ -157,6 +157,11 @@ returnValue Indexlist::getISortArray( int_t** const iSortArray ) const
 int_t Indexlist::getIndex( int_t givennumber ) const
 {
 	int_t index = findInsert(givennumber);
+
+	/* number is smaller than all members */
+	if ( index < 0 )
+		return -1;
+
 	return number[iSort[index]] == givennumber ? iSort[index] : -1;
 }
 
@@ -188,12 +193,13 @@ returnValue Indexlist::removeNumber( int_t removenumber )
 {
 	int_t i;
 	int_t idx = findInsert( removenumber );
-	int_t iSidx = iSort[idx];
 
 	/* nothing to be done if number is not contained in index set */
-	if ( number[iSidx] != removenumber )
+	if ( ( idx < 0 ) || ( number[iSort[idx]] != removenumber ) )
 		return SUCCESSFUL_RETURN;
 
+	int_t iSidx = iSort[idx];
+
 	/* update sorted indices iSort first */
 	for (i = 0; i < length; i++)
 		if (iSort[i] > iSidx) iSort[i]--;
@@ -220,6 +226,9 @@ returnValue Indexlist::swapNumbers( int_t number1, int_t number2 )
 	int_t index2 = findInsert( number2 );
 
 	/* consistency check */
+	if ( ( index1 < 0 ) || ( index2 < 0 ) )
+		return THROWERROR( RET_INDEXLIST_CORRUPTED );
+
 	if ( ( number[iSort[index1]] != number1 ) || ( number[iSort[index2]] != number2 ) )
 		return THROWERROR( RET_INDEXLIST_CORRUPTED );
 
-- 
2.43.0


From 5d95c4028032c249dfd3d049cecd90b9f896e8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 85/93] fix: Simulink blocks read input signals as if their
 elements were contiguous in memory

---
 interfaces/simulink/qpOASES_QProblem.cpp  | 10 +++++-----
 interfaces/simulink/qpOASES_QProblemB.cpp |  6 +++---
 interfaces/simulink/qpOASES_SQProblem.cpp | 16 +++++++++-------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index 1defe13..a77e0e9 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -394,30 +394,30 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	convertFortranToC( mxGetPr(in_A),nV,nC, A );
 
 	for ( ii=0; ii<nV; ++ii )
-		g[ii] = (*in_g)[ii];
+		g[ii] = *in_g[ii];
 
 	if ( lb != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			lb[ii] = (*in_lb)[ii];
+			lb[ii] = *in_lb[ii];
 	}
 
 	if ( ub != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			ub[ii] = (*in_ub)[ii];
+			ub[ii] = *in_ub[ii];
 	}
 
 	if ( lbA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			lbA[ii] = (*in_lbA)[ii];
+			lbA[ii] = *in_lbA[ii];
 	}
 
 	if ( ubA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			ubA[ii] = (*in_ubA)[ii];
+			ubA[ii] = *in_ubA[ii];
 	}
 
 	xOpt = new real_t[nV];
diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index 8a0c401..fbfb77e 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -334,18 +334,18 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	}
 
 	for ( ii=0; ii<nV; ++ii )
-		g[ii] = (*in_g)[ii];
+		g[ii] = *in_g[ii];
 
 	if ( lb != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			lb[ii] = (*in_lb)[ii];
+			lb[ii] = *in_lb[ii];
 	}
 
 	if ( ub != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			ub[ii] = (*in_ub)[ii];
+			ub[ii] = *in_ub[ii];
 	}
 
 	xOpt = new real_t[nV];
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index 8f1fd95..1ec7f83 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -356,36 +356,38 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	{
 		/* no conversion from FORTRAN to C as Hessian is symmetric! */
 		for ( ii=0; ii<nV*nV; ++ii )
-			H[ii] = (*in_H)[ii];
+			H[ii] = *in_H[ii];
 	}
 
-	convertFortranToC( *in_A,nV,nC, A );
+	/* conversion from FORTRAN to C */
+	for ( ii=0; ii<nV*nC; ++ii )
+		A[(ii%nC)*nV + ii/nC] = *in_A[ii];
 
 	for ( ii=0; ii<nV; ++ii )
-		g[ii] = (*in_g)[ii];
+		g[ii] = *in_g[ii];
 
 	if ( lb != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			lb[ii] = (*in_lb)[ii];
+			lb[ii] = *in_lb[ii];
 	}
 
 	if ( ub != 0 )
 	{
 		for ( ii=0; ii<nV; ++ii )
-			ub[ii] = (*in_ub)[ii];
+			ub[ii] = *in_ub[ii];
 	}
 
 	if ( lbA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			lbA[ii] = (*in_lbA)[ii];
+			lbA[ii] = *in_lbA[ii];
 	}
 
 	if ( ubA != 0 )
 	{
 		for ( ii=0; ii<nC; ++ii )
-			ubA[ii] = (*in_ubA)[ii];
+			ubA[ii] = *in_ubA[ii];
 	}
 
 	xOpt = new real_t[nV];
-- 
2.43.0


From 851e12c7c724dfc0056f144c14dd1761177f9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:05 +0000
Subject: [PATCH 86/93] fix: Simulink block for simply bounded QPs took the
 width of the lower bounds for the number of variables

---
 interfaces/simulink/qpOASES_QProblemB.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index fbfb77e..6662cbe 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -324,7 +324,7 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 
 
 	/* setup QP data */
-	nV = ssGetInputPortWidth(S, 1); /* nV = size_g */
+	nV = ssGetInputPortWidth(S, 0); /* nV = size_g */
 
 	if ( H != 0 )
 	{
-- 
2.43.0


From 0e42a4703059214c5f6c475ea45f4fbb268e5db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 87/93] fix: Simulink blocks did not check the number of
 columns of the constraint matrix and mixed up the limits' dimensions

---
 interfaces/simulink/qpOASES_QProblem.cpp  | 10 +++++++++-
 interfaces/simulink/qpOASES_SQProblem.cpp |  8 ++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index a77e0e9..d19f033 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -242,6 +242,14 @@ static void mdlStart(SimStruct *S)
 		return;
 	}
 
+	if ( ( nCols_A != nV ) && ( size_A != 0 ) )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Dimension mismatch in A!" );
+		#endif
+		return;
+	}
+
 	if ( ( nU < 1 ) || ( nU > nV ) )
 	{
 		#ifndef __SUPPRESSANYOUTPUT__
@@ -258,7 +266,7 @@ static void mdlStart(SimStruct *S)
 		return;
 	}
 
-	if ( ( size_ub != nV ) && ( size_lb != 0 ) )
+	if ( ( size_ub != nV ) && ( size_ub != 0 ) )
 	{
 		#ifndef __SUPPRESSANYOUTPUT__
 		mexErrMsgTxt( "ERROR (qpOASES): Dimension mismatch in ub!" );
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index 1ec7f83..0f7c257 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -209,6 +209,14 @@ static void mdlStart(SimStruct *S)
 		return;
 	}
 
+	if ( size_A != nC*nV )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Dimension mismatch in A!" );
+		#endif
+		return;
+	}
+
 	if ( ( nU < 1 ) || ( nU > nV ) )
 	{
 		#ifndef __SUPPRESSANYOUTPUT__
-- 
2.43.0


From d2030b4c5f6a49ff3f881c36a93055931f8a1c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 88/93] fix: Simulink blocks and Scilab functions returned
 uninitialised memory if no solution is available

---
 interfaces/scilab/qpOASESroutines.cpp     | 25 +++++++++++++++++++++++
 interfaces/simulink/qpOASES_QProblem.cpp  |  2 ++
 interfaces/simulink/qpOASES_QProblemB.cpp |  2 ++
 interfaces/simulink/qpOASES_SQProblem.cpp |  2 ++
 4 files changed, 31 insertions(+)

diff --git a/interfaces/scilab/qpOASESroutines.cpp b/interfaces/scilab/qpOASESroutines.cpp
index 472a57f..93796d1 100644
--- a/interfaces/scilab/qpOASESroutines.cpp
+++ b/interfaces/scilab/qpOASESroutines.cpp
@@ -115,6 +115,24 @@ void transformA( real_t* A, int_t nV, int_t nC )
 }
 
 
+/*
+ *	i n i t S o l u t i o n
+ *	(solution vectors keep these values if no solution is available)
+ */
+void initSolution( int_t nV, int_t nC, real_t* x, real_t* y )
+{
+	int_t i;
+
+	for( i=0; i<nV; ++i )
+		x[i] = 0.0;
+
+	for( i=0; i<nV+nC; ++i )
+		y[i] = 0.0;
+
+	return;
+}
+
+
 /*
  *	q p O A S E S
  */
@@ -132,6 +150,7 @@ void sci_qpOASES(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub, real_
 	returnValue returnvalue = single_qp.init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( *nV,*nC, x,y );
 	single_qp.getPrimalSolution( x );
 	*obj = single_qp.getObjVal( );
 	*status = getSimpleStatus( returnvalue );
@@ -161,6 +180,7 @@ void sci_QProblem_init( 	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	returnValue returnvalue = qp->init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( qp->getNV( ),qp->getNC( ), x,y );
 	qp->getPrimalSolution( x );
 	*obj = qp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
@@ -187,6 +207,7 @@ void sci_QProblemB_init(	real_t* H, real_t* g, real_t* lb, real_t* ub,
 	returnValue returnvalue = qpb->init( H,g,lb,ub, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( qpb->getNV( ),0, x,y );
 	qpb->getPrimalSolution( x );
 	*obj = qpb->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
@@ -216,6 +237,7 @@ void sci_SQProblem_init(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	returnValue returnvalue = sqp->init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( sqp->getNV( ),sqp->getNC( ), x,y );
 	sqp->getPrimalSolution( x );
 	*obj = sqp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
@@ -246,6 +268,7 @@ void sci_QProblem_hotstart( 	real_t* g, real_t* lb, real_t* ub, real_t* lbA, rea
 	returnValue returnvalue = qp->hotstart( g,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( qp->getNV( ),qp->getNC( ), x,y );
 	qp->getPrimalSolution( x );
 	*obj = qp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
@@ -276,6 +299,7 @@ void sci_QProblemB_hotstart(	real_t* g, real_t* lb, real_t* ub,
 	returnValue returnvalue = qpb->hotstart( g,lb,ub, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( qpb->getNV( ),0, x,y );
 	qpb->getPrimalSolution( x );
 	*obj = qpb->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
@@ -309,6 +333,7 @@ void sci_SQProblem_hotstart(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t
 	returnValue returnvalue = sqp->hotstart( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
+	initSolution( sqp->getNV( ),sqp->getNC( ), x,y );
 	sqp->getPrimalSolution( x );
 	*obj = sqp->getObjVal( );
 	*status = getSimpleStatus( returnvalue );
diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index d19f033..b4a3c28 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -429,6 +429,8 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	}
 
 	xOpt = new real_t[nV];
+	for ( ii=0; ii<nV; ++ii )
+		xOpt[ii] = 0.0;
 
 	if ( problem->getCount() == 0 )
 	{
diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index 6662cbe..322a417 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -349,6 +349,8 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	}
 
 	xOpt = new real_t[nV];
+	for ( ii=0; ii<nV; ++ii )
+		xOpt[ii] = 0.0;
 
 	if ( problem->getCount() == 0 )
 	{
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index 0f7c257..3e8a7a2 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -399,6 +399,8 @@ static void mdlOutputs(SimStruct *S, int_T tid)
 	}
 
 	xOpt = new real_t[nV];
+	for ( ii=0; ii<nV; ++ii )
+		xOpt[ii] = 0.0;
 
 	if ( problem->getCount() == 0 )
 	{
-- 
2.43.0


From 8f36a4c6b76dd864d3a8d1ec66006fdf594420e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:31 +0000
Subject: [PATCH 89/93] fix: Simulink blocks ignored limits or crashed if
 memory for QP data could not be allocated

---
 interfaces/simulink/qpOASES_QProblem.cpp  | 14 ++++++++++++++
 interfaces/simulink/qpOASES_QProblemB.cpp | 11 +++++++++++
 interfaces/simulink/qpOASES_SQProblem.cpp | 14 ++++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/interfaces/simulink/qpOASES_QProblem.cpp b/interfaces/simulink/qpOASES_QProblem.cpp
index b4a3c28..371378b 100644
--- a/interfaces/simulink/qpOASES_QProblem.cpp
+++ b/interfaces/simulink/qpOASES_QProblem.cpp
@@ -342,6 +342,20 @@ static void mdlStart(SimStruct *S)
 		ssGetPWork(S)[7] = (void *) calloc( size_ubA, sizeof(real_t) );	/* ubA */
 	else
 		ssGetPWork(S)[7] = 0;
+
+	if ( ( ( size_H > 0 ) && ( ssGetPWork(S)[1] == 0 ) ) ||
+		 ( ( size_g > 0 ) && ( ssGetPWork(S)[2] == 0 ) ) ||
+		 ( ( size_A > 0 ) && ( ssGetPWork(S)[3] == 0 ) ) ||
+		 ( ( size_lb > 0 ) && ( ssGetPWork(S)[4] == 0 ) ) ||
+		 ( ( size_ub > 0 ) && ( ssGetPWork(S)[5] == 0 ) ) ||
+		 ( ( size_lbA > 0 ) && ( ssGetPWork(S)[6] == 0 ) ) ||
+		 ( ( size_ubA > 0 ) && ( ssGetPWork(S)[7] == 0 ) ) )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Unable to allocate memory for QP data!" );
+		#endif
+		return;
+	}
 }
 
 
diff --git a/interfaces/simulink/qpOASES_QProblemB.cpp b/interfaces/simulink/qpOASES_QProblemB.cpp
index 322a417..6a3aff6 100644
--- a/interfaces/simulink/qpOASES_QProblemB.cpp
+++ b/interfaces/simulink/qpOASES_QProblemB.cpp
@@ -284,6 +284,17 @@ static void mdlStart(SimStruct *S)
 		ssGetPWork(S)[4] = (void *) calloc( size_ub, sizeof(real_t) );	/* ub */
 	else
 		ssGetPWork(S)[4] = 0;
+
+	if ( ( ( size_H > 0 ) && ( ssGetPWork(S)[1] == 0 ) ) ||
+		 ( ( size_g > 0 ) && ( ssGetPWork(S)[2] == 0 ) ) ||
+		 ( ( size_lb > 0 ) && ( ssGetPWork(S)[3] == 0 ) ) ||
+		 ( ( size_ub > 0 ) && ( ssGetPWork(S)[4] == 0 ) ) )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Unable to allocate memory for QP data!" );
+		#endif
+		return;
+	}
 }
 
 
diff --git a/interfaces/simulink/qpOASES_SQProblem.cpp b/interfaces/simulink/qpOASES_SQProblem.cpp
index 3e8a7a2..79611eb 100644
--- a/interfaces/simulink/qpOASES_SQProblem.cpp
+++ b/interfaces/simulink/qpOASES_SQProblem.cpp
@@ -309,6 +309,20 @@ static void mdlStart(SimStruct *S)
 		ssGetPWork(S)[7] = (void *) calloc( size_ubA, sizeof(real_t) );	/* ubA */
 	else
 		ssGetPWork(S)[7] = 0;
+
+	if ( ( ( size_H > 0 ) && ( ssGetPWork(S)[1] == 0 ) ) ||
+		 ( ( size_g > 0 ) && ( ssGetPWork(S)[2] == 0 ) ) ||
+		 ( ( size_A > 0 ) && ( ssGetPWork(S)[3] == 0 ) ) ||
+		 ( ( size_lb > 0 ) && ( ssGetPWork(S)[4] == 0 ) ) ||
+		 ( ( size_ub > 0 ) && ( ssGetPWork(S)[5] == 0 ) ) ||
+		 ( ( size_lbA > 0 ) && ( ssGetPWork(S)[6] == 0 ) ) ||
+		 ( ( size_ubA > 0 ) && ( ssGetPWork(S)[7] == 0 ) ) )
+	{
+		#ifndef __SUPPRESSANYOUTPUT__
+		mexErrMsgTxt( "ERROR (qpOASES): Unable to allocate memory for QP data!" );
+		#endif
+		return;
+	}
 }
 
 
-- 
2.43.0


From 65077e2242be26f12eb128b2c1be374cfe4bbd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:55 +0000
Subject: [PATCH 90/93] fix: Scilab sessions kept pointers to matrices whose
 memory is gone after the call

---
 interfaces/scilab/qpOASESroutines.cpp | 62 +++++++++++++++++++++++++--
 1 file changed, 58 insertions(+), 4 deletions(-)

diff --git a/interfaces/scilab/qpOASESroutines.cpp b/interfaces/scilab/qpOASESroutines.cpp
index 93796d1..e1537e8 100644
--- a/interfaces/scilab/qpOASESroutines.cpp
+++ b/interfaces/scilab/qpOASESroutines.cpp
@@ -52,6 +52,13 @@ static QProblem*  qp  = 0;
 static QProblemB* qpb = 0;
 static SQProblem* sqp = 0;
 
+/* matrices of these objects (memory of scilab variables is only valid during a call) */
+static real_t* qp_H  = 0;
+static real_t* qp_A  = 0;
+static real_t* qpb_H = 0;
+static real_t* sqp_H = 0;
+static real_t* sqp_A = 0;
+
 
 extern "C"
 {
@@ -115,6 +122,20 @@ void transformA( real_t* A, int_t nV, int_t nC )
 }
 
 
+/*
+ *	c o p y M a t r i x
+ */
+void copyMatrix( const real_t* M, int_t n, real_t* M_copy )
+{
+	int_t i;
+
+	for( i=0; i<n; ++i )
+		M_copy[i] = M[i];
+
+	return;
+}
+
+
 /*
  *	i n i t S o l u t i o n
  *	(solution vectors keep these values if no solution is available)
@@ -174,10 +195,16 @@ void sci_QProblem_init( 	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	/* transform A into C style matrix */
 	transformA( A, *nV,*nC );
 
+	/* keep matrices */
+	qp_H = new real_t[(*nV)*(*nV)];
+	qp_A = new real_t[(*nC)*(*nV)];
+	copyMatrix( H,(*nV)*(*nV), qp_H );
+	copyMatrix( A,(*nC)*(*nV), qp_A );
+
 	/* setup and solve initial QP */
 	qp = new QProblem( *nV,*nC );
 	qp->setPrintLevel( PL_LOW );
-	returnValue returnvalue = qp->init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
+	returnValue returnvalue = qp->init( qp_H,g,qp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
 	initSolution( qp->getNV( ),qp->getNC( ), x,y );
@@ -201,10 +228,14 @@ void sci_QProblemB_init(	real_t* H, real_t* g, real_t* lb, real_t* ub,
 {
 	sci_QProblemB_cleanup( );
 
+	/* keep Hessian */
+	qpb_H = new real_t[(*nV)*(*nV)];
+	copyMatrix( H,(*nV)*(*nV), qpb_H );
+
 	/* setup and solve initial QP */
 	qpb = new QProblemB( *nV );
 	qpb->setPrintLevel( PL_LOW );
-	returnValue returnvalue = qpb->init( H,g,lb,ub, *nWSR,0 );
+	returnValue returnvalue = qpb->init( qpb_H,g,lb,ub, *nWSR,0 );
 
 	/* assign lhs arguments */
 	initSolution( qpb->getNV( ),0, x,y );
@@ -231,10 +262,16 @@ void sci_SQProblem_init(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t* ub
 	/* transform A into C style matrix */
 	transformA( A, *nV,*nC );
 
+	/* keep matrices */
+	sqp_H = new real_t[(*nV)*(*nV)];
+	sqp_A = new real_t[(*nC)*(*nV)];
+	copyMatrix( H,(*nV)*(*nV), sqp_H );
+	copyMatrix( A,(*nC)*(*nV), sqp_A );
+
 	/* setup and solve initial QP */
 	sqp = new SQProblem( *nV,*nC );
 	sqp->setPrintLevel( PL_LOW );
-	returnValue returnvalue = sqp->init( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
+	returnValue returnvalue = sqp->init( sqp_H,g,sqp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
 	initSolution( sqp->getNV( ),sqp->getNC( ), x,y );
@@ -329,8 +366,12 @@ void sci_SQProblem_hotstart(	real_t* H, real_t* g, real_t* A, real_t* lb, real_t
 	/* transform A into C style matrix */
 	transformA( A, sqp->getNV( ),sqp->getNC( ) );
 
+	/* keep matrices */
+	copyMatrix( H,sqp->getNV( )*sqp->getNV( ), sqp_H );
+	copyMatrix( A,sqp->getNC( )*sqp->getNV( ), sqp_A );
+
 	/* solve QP */
-	returnValue returnvalue = sqp->hotstart( H,g,A,lb,ub,lbA,ubA, *nWSR,0 );
+	returnValue returnvalue = sqp->hotstart( sqp_H,g,sqp_A,lb,ub,lbA,ubA, *nWSR,0 );
 
 	/* assign lhs arguments */
 	initSolution( sqp->getNV( ),sqp->getNC( ), x,y );
@@ -355,6 +396,11 @@ void sci_QProblem_cleanup( )
 		qp = 0;
 	}
 
+	delete[] qp_H;
+	qp_H = 0;
+	delete[] qp_A;
+	qp_A = 0;
+
 	return;
 }
 
@@ -370,6 +416,9 @@ void sci_QProblemB_cleanup( )
 		qpb = 0;
 	}
 
+	delete[] qpb_H;
+	qpb_H = 0;
+
 	return;
 }
 
@@ -385,6 +434,11 @@ void sci_SQProblem_cleanup( )
 		sqp = 0;
 	}
 
+	delete[] sqp_H;
+	sqp_H = 0;
+	delete[] sqp_A;
+	sqp_A = 0;
+
 	return;
 }
 
-- 
2.43.0


From 948f12aee368c592536c2a215dfd9a3319e6c0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:58 +0000
Subject: [PATCH 91/93] fix: initialFarBounds repaired by ensureConsistency
 exceeds boundRelaxation again

---
 src/Options.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Options.cpp b/src/Options.cpp
index 2b3a362..ef9dbfd 100644
--- a/src/Options.cpp
+++ b/src/Options.cpp
@@ -310,7 +310,8 @@ returnValue Options::ensureConsistency( )
 
 	if ( initialFarBounds <= boundRelaxation )
 	{
-		initialFarBounds = boundRelaxation+EPS;
+		/* (adding EPS alone has no effect on a boundRelaxation that is not small) */
+		initialFarBounds = boundRelaxation*(1.0+EPS) + EPS;
 		needToAdjust = BT_TRUE;
 	}
 
-- 
2.43.0


From f5dd1a2b9bc8f014a0757b443acd9c1287b1647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:15 +0000
Subject: [PATCH 92/93] fix: QProblem lost the option enableFullLITests if a
 given working set could not be set up

---
 src/QProblem.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/QProblem.cpp b/src/QProblem.cpp
index d7a597b..0b328a1 100644
--- a/src/QProblem.cpp
+++ b/src/QProblem.cpp
@@ -2607,8 +2607,16 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 		updateCholesky = BT_TRUE;
 
 
-	BooleanType was_fulli = options.enableFullLITests;
-	real_t backupEpsLITests = options.epsLITests;
+	/* Use simple linear independence tests only; the option set by the user
+	 * is restored whenever this function is left, also in case of errors. */
+	struct RestoreFullLITests
+	{
+		RestoreFullLITests( Options& _options ) : opt( _options ), value( _options.enableFullLITests ) {}
+		~RestoreFullLITests( ) { opt.enableFullLITests = value; }
+
+		Options& opt;
+		BooleanType value;
+	} restoreFullLITests( options );
 
 	options.enableFullLITests = BT_FALSE;
 	/* options.epsLITests = 1e-1; */
@@ -2721,9 +2729,6 @@ returnValue QProblem::setupAuxiliaryWorkingSet(	const Bounds* const auxiliaryBou
 		}
 	}
 
-	options.enableFullLITests = was_fulli;
-	options.epsLITests = backupEpsLITests;
-
 	return SUCCESSFUL_RETURN;
 }
 
-- 
2.43.0


From 2097fe52a9afa58b27522a13f251954eaba5a83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:26 +0000
Subject: [PATCH 93/93] fix: SQProblemSchur wrote beyond an array if more than
 nV constraints became active

---
 src/SQProblemSchur.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/SQProblemSchur.cpp b/src/SQProblemSchur.cpp
index d208eea..9aaf685 100644
--- a/src/SQProblemSchur.cpp
+++ b/src/SQProblemSchur.cpp
@@ -1061,7 +1061,8 @@ returnValue SQProblemSchur::addConstraint_ensureLI( int_t number, SubjectToStatu
 	int_t* AC_idx;
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
-	real_t* num = new real_t[nV];
+	/* (tolerances of the linear independence test may let more than nV constraints become active) */
+	real_t* num = new real_t[getMax( nV,nAC )];
 
 	real_t y_min = options.maxDualJump;
 	int_t y_min_number = -1;
@@ -1482,7 +1483,8 @@ returnValue SQProblemSchur::addBound_ensureLI( int_t number, SubjectToStatus B_s
 	int_t* AC_idx;
 	constraints.getActive( )->getNumberArray( &AC_idx );
 
-	real_t* num = new real_t[nV];
+	/* (tolerances of the linear independence test may let more than nV constraints become active) */
+	real_t* num = new real_t[getMax( nV,nAC )];
 
 	real_t y_min = options.maxDualJump;
 	int_t y_min_number = -1;
-- 
2.43.0

