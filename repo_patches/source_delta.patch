From 2327bc0815ed36f95a837d9f7ae37b41fb4bb520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:34 +0000
Subject: [PATCH 01/69] fix: CglClique must not treat a row with a possibly
 negative term as a clique

selectRowCliques() only looked at the sign of the coefficients of the columns
that were not selected; a column with a negative lower bound and a positive
coefficient lets several of the binaries be one, so the cuts were not valid.
---
 src/CglClique/CglCliqueHelper.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index 2fadaab..d1215ca 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -115,6 +115,7 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
    // coefficients 
    const CoinPackedMatrix& mrow = *si.getMatrixByRow();
    const double* rub = si.getRowUpper();
+   const double* clb = si.getColLower();
    for (i = 0; i < numrows; ++i) {
       if (rub[i] != 1.0||i>=numOriginalRows) {
 	 clique[i] = 0;
@@ -122,9 +123,12 @@ CglClique::selectRowCliques(const OsiSolverInterface& si,int numOriginalRows)
       }
       if (clique[i] == 1) {
 	 const CoinShallowPackedVector& vec = mrow.getVector(i);
+	 const int* ind = vec.getIndices();
 	 const double* elem = vec.getElements();
 	 for (j = vec.getNumElements() - 1; j >= 0; --j) {
-	    if (elem[j] < 0) {
+	    // a term that can be negative would leave room for more than one
+	    // of the fractional variables
+	    if (elem[j] < 0 || (elem[j] > 0 && clb[ind[j]] < 0)) {
 	       clique[i] = 0;
 	       break;
 	    }
-- 
2.43.0


From 6130cc032da312e2596dbc6df25bafac1ceeaec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:34 +0000
Subject: [PATCH 02/69] fix: CglClique read before the index array of an empty
 column

---
 src/CglClique/CglCliqueHelper.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglClique/CglCliqueHelper.cpp b/src/CglClique/CglCliqueHelper.cpp
index d1215ca..8163011 100644
--- a/src/CglClique/CglCliqueHelper.cpp
+++ b/src/CglClique/CglCliqueHelper.cpp
@@ -205,7 +205,7 @@ CglClique::createSetPackingSubMatrix(const OsiSolverInterface& si)
       const CoinShallowPackedVector& vec = mcol.getVector(sp_orig_col_ind[j]);
       const int len = vec.getNumElements();
       const int* ind = vec.getIndices();
-      if (ind[0] < ind[len-1]) {
+      if (len && ind[0] < ind[len-1]) {
 	for (i = 0; i < len; ++i) {
 	   const int sp_row = clique[ind[i]];
 	   if (sp_row >= 0) {
-- 
2.43.0


From 76508dbd872563cefd71df89d7196fad8d87bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 03/69] fix: CglOddHole ignored the user's minimum violation
 and maximum entries

The work was done by a default constructed object, so the values set with
setMinimumViolation(), setMinimumViolationPer() and setMaximumEntries() were
never used.
---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index cb9b0f5..c608387 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -44,6 +44,9 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   // If it does then suitable rows are subset of information
   
   CglOddHole temp;
+  temp.minimumViolation_ = minimumViolation_;
+  temp.minimumViolationPer_ = minimumViolationPer_;
+  temp.maximumEntries_ = maximumEntries_;
   int * checkRow = new int[nRows];
   int i;
   if (!suitableRows_) {
-- 
2.43.0


From 4c1de3f4f16e8f81deb74b86c8512cc0976ab57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 04/69] fix: CglOddHole overran mrow when a cycle visits rows
 repeatedly

The array has one entry for each row but is reused to hold the row of every
arc of the cycle, of which there can be more than rows.
---
 src/CglOddHole/CglOddHole.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index c608387..fa8170a 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -172,7 +172,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 
   // we need only look at suitable rows and variables with unsatisfied 0-1
   // lookup from true row to compressed matrix
-  int * mrow = new int[nRows];
+  // (later used for the rows of a cycle, which may visit a row several times)
+  int * mrow = new int[nRows+2*nCols];
   // lookup from true column to compressed
   int * lookup = new int[nCols];
   // number of columns in compressed matrix
-- 
2.43.0


From d489ee7fe308ea128dcc03bcb6461f29275c0463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 05/69] fix: CglOddHole assignment turned "all rows" into "no
 rows"

A generator without a row list considers all rows; after assignment it had an
empty list and considered none.
---
 src/CglOddHole/CglOddHole.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index fa8170a..e88bb1a 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -781,8 +781,12 @@ CglOddHole::operator=(
     delete [] suitableRows_;
     // copy list of suitable rows
     numberRows_=rhs.numberRows_;
-    suitableRows_=new int[numberRows_];
-    memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    if (numberRows_) {
+      suitableRows_=new int[numberRows_];
+      memcpy(suitableRows_,rhs.suitableRows_,numberRows_*sizeof(int));
+    } else {
+      suitableRows_=NULL;
+    }
     delete [] startClique_;
     delete [] member_;
     // copy list of cliques
-- 
2.43.0


From 1bf754d9d0a791570a753dd1b11d13c4c698663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 06/69] fix: CglOddHole leaked the old row and clique lists
 when new ones were set

---
 src/CglOddHole/CglOddHole.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index e88bb1a..d0ea3d7 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -664,6 +664,7 @@ void CglOddHole::createRowList( const OsiSolverInterface & si,
   /// This version passes in a list - 1 marks possible
 void CglOddHole::createRowList(int numberRows, const int * whichRow)
 {
+  delete [] suitableRows_;
   suitableRows_=new int [numberRows];
   numberRows_=numberRows;
   memcpy(suitableRows_,whichRow,numberRows*sizeof(int));
@@ -674,6 +675,8 @@ void CglOddHole::createRowList(int numberRows, const int * whichRow)
 void CglOddHole::createCliqueList(int numberCliques, const int * cliqueStart,
 		     const int * cliqueMember)
 {
+  delete [] startClique_;
+  delete [] member_;
   numberCliques_=numberCliques;
   startClique_=new int[numberCliques_+1];
   memcpy(startClique_,cliqueStart,(numberCliques_+1)*sizeof(int));
-- 
2.43.0


From d7ce30013b17cd53d3b3bf78eb3169ae7831c554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:12 +0000
Subject: [PATCH 07/69] fix: CglOddHole cuts were invalid with columns fixed at
 nonzero values

createRowList() accepts rows that become set packing or covering rows once the
fixed columns are moved to the right hand side, whatever the coefficients of
these are. generateCuts() then looked at the original sides and put the fixed
columns into the cut as if they had coefficient one.
---
 src/CglOddHole/CglOddHole.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/CglOddHole/CglOddHole.cpp b/src/CglOddHole/CglOddHole.cpp
index d0ea3d7..defef08 100644
--- a/src/CglOddHole/CglOddHole.cpp
+++ b/src/CglOddHole/CglOddHole.cpp
@@ -77,7 +77,8 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       fixed[i]=0;
       if (colupper[i]-collower[i]<epsilon_) {
 	solution[i]=0.0;
-	fixed[i]=2;
+	// 4 - fixed at nonzero value - must not appear in cuts
+	fixed[i]= fabs(collower[i])<epsilon_ ? 2 : 4;
       } else if (solution[i]<epsilon_) {
 	solution[i]=0.0;
 	fixed[i]=-1;
@@ -88,16 +89,25 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     } else {
       //mark as fixed even if not (can not intersect any interesting rows)
       solution[i]=0.0;
-      fixed[i]=3;
+      fixed[i]= fabs(collower[i])<epsilon_ ? 3 : 4;
     }
   }
   // first do packed
-  const double * rowlower = si.getRowLower();
-  const double * rowupper = si.getRowUpper();
+  // sides of rows after taking out columns fixed at nonzero
+  double * rowlower = CoinCopyOfArray(si.getRowLower(),nRows);
+  double * rowupper = CoinCopyOfArray(si.getRowUpper(),nRows);
+  const double * rowElements = rowCopy->getElements();
   for (i=0;i<nRows;i++) {
     if (suitable[i]) {
       CoinBigIndex k;
       double sum=0.0;
+      for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
+	int icol=column[k];
+	if (fixed[icol]==4) {
+	  rowlower[i] -= collower[icol]*rowElements[k];
+	  rowupper[i] -= collower[icol]*rowElements[k];
+	}
+      }
       if (rowupper[i]>1.001) suitable[i]=-1;
       for (k=rowStart[i]; k<rowStart[i]+rowLength[i];k++) {
 	int icol=column[k];
@@ -144,6 +154,8 @@ void CglOddHole::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   delete [] checkRow;
   delete [] solution;
   delete [] fixed;
+  delete [] rowlower;
+  delete [] rowupper;
     
 }
 void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
@@ -446,6 +458,8 @@ void CglOddHole::generateCuts(const OsiRowCutDebugger * /*debugger*/,
 	    int irow=mrow[k];
 	    for (j=rowStart[irow];j<rowStart[irow]+rowLength[irow];j++) {
 	      int icol=column[j];
+	      // rows are used with such columns moved to the right hand side
+	      if (fixedColumn[icol]==4) continue;
 	      if (!countcol[icol]) candidate[nincut++]=icol;
 	      countcol[icol]++;
 	    }
-- 
2.43.0


From 6676b390a43c525256c651222cd52bc1e43358ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 08/69] fix: CglSimpleRounding rounded right hand sides down by
 one too much

A right hand side such as -0.07 scaled by 100 is -7.000000000000001, which was
rounded to -8 and gave an invalid cut.
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 92687db..679679c 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -7,6 +7,7 @@
 #include <cstdio>
 #include <cfloat> 
 #include <cassert>
+#include <algorithm>
 
 #include "CoinPragma.hpp"
 #include "CglSimpleRounding.hpp" 
@@ -130,7 +131,10 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     for (k=0; k<irow.getNumElements(); k++){
         cut.insert(irow.getIndices()[k],xInt[k]/gcd);
     }
-    double cutRhs = floor((b*pow(10.0,power))/gcd);
+    // (with a tolerance, as b may be just below an integer because of
+    // roundoff, and then rounding down would cut off feasible points)
+    double cutRhs = (b*pow(10.0,power))/gcd;
+    cutRhs = floor(cutRhs + epsilon_*std::max(1.0,fabs(cutRhs)));
 
     // un-negate the negated variables in the cut
     {
-- 
2.43.0


From 487bc095c78f7ada56eae84159ea90cd495ccaf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:04 +0000
Subject: [PATCH 09/69] fix: CglSimpleRounding overflowed int when scaling
 mixed coefficients

The power of 10 is checked for each element alone, but the largest one is used
for all of them, so 2000000000 together with 0.5 overflowed. An element that
vanishes when made an integer led to a division by zero in gcd().
---
 src/CglSimpleRounding/CglSimpleRounding.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/CglSimpleRounding/CglSimpleRounding.cpp b/src/CglSimpleRounding/CglSimpleRounding.cpp
index 679679c..2ac0990 100644
--- a/src/CglSimpleRounding/CglSimpleRounding.cpp
+++ b/src/CglSimpleRounding/CglSimpleRounding.cpp
@@ -94,6 +94,12 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 
       for (k=0; k<irow.getNumElements(); k++){
 	dxInt = irow.getElements()[k]*pow(10.0,power);
+	// the power needed for one element may be too big for another,
+	// and an element may vanish
+	if (dxInt+0.5 >= 2147483647.0 || dxInt+0.5 < 1.0) {
+	  power = -1;
+	  break;
+	}
 	xInt[k]= static_cast<int> (dxInt+0.5); // Need to add the 0.5 
 	// so that a dxInt=9.999 will give a xInt=1
 
@@ -103,7 +109,8 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 
       }
 
-    } else {
+    }
+    if (power < 0) {
 
       // If overflow is detected, one warning message is printed and 
       // the row is skipped.
@@ -115,6 +122,7 @@ CglSimpleRounding::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
       // reset local data for next iteration
       for(k=0; k<irow.getNumElements(); k++) negative[irow.getIndices()[k]]=false;
       irow.setVector(0,NULL,NULL);
+      delete [] xInt;
       continue;
     }
 
-- 
2.43.0


From fef5e6abaf5cb06419e9406be2afccf120e05849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:24 +0000
Subject: [PATCH 10/69] fix: CglLiftAndProject tested the type of the wrong
 column

The loop over columns looked at the type of column i, which is the number of
rows at that point: it read past the end of the array, and disjunctions were
taken on continuous or general integer columns, giving invalid cuts.
---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index fccfb35..c0e18a0 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -244,7 +244,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const char * intVar = si.getColType();
 
   for (j=0;j<n;j++){
-    if (intVar[i]!=1) continue; // Better to ask coneSi? No! 
+    if (intVar[j]!=1) continue; // Better to ask coneSi? No! 
                                    // coneSi has no binInfo.
     equalObj1=eq(x[j],0);
     equalObj2=eq(x[j],1);
-- 
2.43.0


From df631a50fd7fa1ece5220ae14f38f03eecbc8b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:13:24 +0000
Subject: [PATCH 11/69] fix: CglLiftAndProject leaked its solver, warm starts
 and a work array

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c0e18a0..148d08f 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -279,6 +279,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
       coneSi->initialSolve();
     }
     if(coneSi->isProvenOptimal()){
+      delete warmStart;
       warmStart = coneSi->getWarmStart();
       haveWarmStart=true;
       const double * wstar = coneSi->getColSolution();
@@ -319,6 +320,9 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   delete [] BStarts;
   delete [] BIndices;
   delete [] BElements;
+  delete [] Atildex;
+  delete warmStart;
+  delete coneSi;
 }
 
 //-------------------------------------------------------------------
-- 
2.43.0


From cbde26076c3add19126c5e80d28ed4bd44ae3d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:46 +0000
Subject: [PATCH 12/69] fix: CglLiftAndProject printed the log of its cut
 generating LPs

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 148d08f..c2787fe 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -195,6 +195,8 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   // Problem sense should default to "min" by default, 
   // but just to be virtuous...
   coneSi->setObjSense(1.0);
+  // and quiet
+  coneSi->messageHandler()->setLogLevel(0);
 
   // The plot outline from here on down:
   // coneSi has been assigned B without the u_0 and v_0 columns
-- 
2.43.0


From 9f7b75e15ab976f4db86434d6bf5cc528fecdf3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:18:46 +0000
Subject: [PATCH 13/69] fix: CglLiftAndProject returned invalid cuts from
 inaccurate multipliers

The cut generating LP is often nearly unbounded. The solver then declares
solutions optimal that are not nonnegative, violate the equations or have
multipliers of 1e10, and the resulting inequality cuts off feasible points.
---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 31 +++++++++++++++++----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index c2787fe..b3d2db8 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -241,6 +241,8 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   double * ustar = new double[m];
   CoinFillN(ustar, m, 0.0);
 
+  double * Bw = new double[BNumRows];
+
   double* alpha = new double[n];
   CoinFillN(alpha, n, 0.0);
   const char * intVar = si.getColType();
@@ -300,12 +302,30 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
       }
 #endif
 
+      // The multipliers prove the cut only if they are nonnegative and
+      // satisfy <B,w> = (0,...,0,beta_,beta_)^T, and if they are not so
+      // large that this is lost in roundoff. The cone is unbounded, so do
+      // not rely on the solver for that.
+      bool proved = true;
+      for (k=0; k<twoM; k++) {
+	if (wstar[k] < -1.0e-8 || wstar[k] > 1.0e5)
+	  proved = false;
+      }
+      coneSi->getMatrixByCol()->times(wstar,Bw);
+      for (k=0; k<BNumRows; k++) {
+	double rhs = (k<n) ? 0.0 : beta_;
+	if (fabs(Bw[k]-rhs) > 1.0e-8)
+	  proved = false;
+      }
+
       // add <alpha^T,x> >= beta_ to cutset
-      OsiRowCut rc;
-      rc.setRow(n,nVectorIndices,alpha);
-      rc.setLb(beta_);
-      rc.setUb(solverINFINITY);
-      cs.insertIfNotDuplicate(rc);
+      if (proved) {
+	OsiRowCut rc;
+	rc.setRow(n,nVectorIndices,alpha);
+	rc.setLb(beta_);
+	rc.setUb(solverINFINITY);
+	cs.insertIfNotDuplicate(rc);
+      }
     }
     // delete col for u_o and v_0
     coneSi->deleteCols(2,delCols);
@@ -315,6 +335,7 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   // clean up
   delete [] alpha;
   delete [] ustar;
+  delete [] Bw;
   delete [] nVectorIndices;
   // BMatrix, BColLowers,BColUppers, BObjective, BRowLowers, BRowUppers
   // are all freed by OsiSolverInterface destructor (?)
-- 
2.43.0


From 7bc7cb7326f051b3a13db12fe7328f81fb2262dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:09 +0000
Subject: [PATCH 14/69] fix: CglRedSplit returned cuts the LP solution does not
 violate

The minimum violation was only tested for cuts that are violated at all.
---
 src/CglRedSplit/CglRedSplit.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 9eb89d6..7b5b005 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -734,16 +734,14 @@ int CglRedSplit::generate_packed_row(const double *lclXlp,
     value += lclXlp[rowind[i]] * rowelem[i];
   }
 
-  if(value > rhs) {
-    value -= rhs;
-    if(value < param.getMINVIOL()*(*card_row)) {
+  value -= rhs;
+  if(value < param.getMINVIOL()*(*card_row)) {
 
 #ifdef RS_TRACE
-      printf("CglRedSplit::generate_packed_row(): Cut discarded: violation: %12.10f\n", value);
+    printf("CglRedSplit::generate_packed_row(): Cut discarded: violation: %12.10f\n", value);
 #endif	
       
-      return(0);
-    }
+    return(0);
   }
   
   return(1);
-- 
2.43.0


From ae48a34582202988a232729ef0a7662248f52090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:09 +0000
Subject: [PATCH 15/69] fix: CglRedSplit read one past the basis index array
 when wrapping

The wrapped row index reached nrow, so row 0 was skipped as well and fewer
tableau rows than expected could be collected.
---
 src/CglRedSplit/CglRedSplit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 7b5b005..ea12728 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1448,7 +1448,7 @@ double *slack_val = new double[nrow];
     }
 
     int ind_row = start + i;
-    if(ind_row > nrow) {
+    if(ind_row >= nrow) {
       ind_row -= nrow;
     }
 
-- 
2.43.0


From 5a19839c361cdb8d5374de7b7af94f859e58dc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:22 +0000
Subject: [PATCH 16/69] fix: CglRedSplitParam::getMAXDYN returned the other
 dynamic range limit

The generator reads the limit through the getter, so a value set with
setMAXDYN had no effect.
---
 src/CglRedSplit/CglRedSplitParam.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplitParam.hpp b/src/CglRedSplit/CglRedSplitParam.hpp
index 3cbb4bb..1bb073c 100644
--- a/src/CglRedSplit/CglRedSplitParam.hpp
+++ b/src/CglRedSplit/CglRedSplitParam.hpp
@@ -99,7 +99,7 @@ public:
   // coefficients in a cut. Default: 1e8.
   virtual void setMAXDYN(double value);
   /** Get the value of MAXDYN */
-  inline double getMAXDYN() const {return MAXDYN_LUB;}
+  inline double getMAXDYN() const {return MAXDYN;}
 
   // Set the maximum ratio between largest and smallest non zero 
   // coefficient in a cut involving structural variables with
-- 
2.43.0


From c42631e37ee2591a3a0a1e62c00ba3156abee968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:32 +0000
Subject: [PATCH 17/69] fix: CglLiftAndProject exported the default
 aggressiveness as a changed setting

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index b3d2db8..04010b7 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -416,7 +416,6 @@ CglLiftAndProject::generateCpp( FILE * fp)
     fprintf(fp,"3  liftAndProject.setBeta(%d);\n",static_cast<int> (beta_));
   else
     fprintf(fp,"4  liftAndProject.setBeta(%d);\n",static_cast<int> (beta_));
-  fprintf(fp,"3  liftAndProject.setAggressiveness(%d);\n",getAggressiveness());
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  liftAndProject.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0


From 3695269295dbc08b9954b212dec02252d0b091c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:29 +0000
Subject: [PATCH 18/69] fix: CglAllDifferent tightened the wrong columns

The translated member index was mapped back through the list of members as
given, which is only right when that list is sorted and has no repeats.
---
 src/CglAllDifferent/CglAllDifferent.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 6f4a8c7..f55afa6 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -473,6 +473,8 @@ originalWhich_(NULL)
       iColumn = translate[iColumn];
       assert (iColumn>=0);
       which_[i]=iColumn;
+      // back to column in model
+      originalWhich_[iColumn]=which[i];
     }
     delete [] translate;
   }
-- 
2.43.0


From 0f62b947c8f082d2ba46cb27a88d0a37dbd143f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:29 +0000
Subject: [PATCH 19/69] fix: CglAllDifferent without sets dereferenced a null
 pointer

---
 src/CglAllDifferent/CglAllDifferent.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index f55afa6..798807f 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -30,6 +30,8 @@ namespace { int nPath = 0 ; }
 void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 			      const CglTreeInfo )
 {
+  if (!numberSets_)
+    return; // nothing to do
 #ifndef NDEBUG
   int nCols=si.getNumCols();
 #endif
@@ -435,7 +437,8 @@ CglAllDifferent::CglAllDifferent (int numberSets,
                                   const int * starts, const int * which)
 :
 CglCutGenerator(),
-numberSets_(numberSets),
+numberSets_(std::max(numberSets,0)),
+numberDifferent_(0),
 maxLook_(2),
 logLevel_(0),
 start_(NULL),
-- 
2.43.0


From 59007c0b8fe5a7b7ea542df74611cb84c1cd4b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:29 +0000
Subject: [PATCH 20/69] fix: CglAllDifferent printed its deductions whatever
 the log level

---
 src/CglAllDifferent/CglAllDifferent.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 798807f..4eccaad 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -341,10 +341,11 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
           for (int jj=0;jj<gap;jj++) {
             if ((mapped&iBit)==0) {
               if (allowed[jj]) {
-                if (!nnFix)
+                if (!nnFix&&logLevel_>1)
                   printf("for con %d x ",i);
                 nnFix++;
-                printf("%d not %d ",j,jj+1);
+                if (logLevel_>1)
+                  printf("%d not %d ",j,jj+1);
                 allowed[jj]=0;
                 finished=false;
               }
@@ -352,7 +353,7 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
             iBit  = iBit << 1;
           }
         }
-        if (nnFix)
+        if (nnFix&&logLevel_>1)
           printf("\n");
       }
     }
-- 
2.43.0


From 3f46a7ff60698cf21ec7b78e1013558bbe361248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:29 +0000
Subject: [PATCH 21/69] fix: CglAllDifferent wrote outside its table of
 possible values

When the sets span too many values only the first ones are looked at, but
variables of the others were entered in the table as well.
---
 src/CglAllDifferent/CglAllDifferent.cpp | 32 ++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/CglAllDifferent/CglAllDifferent.cpp b/src/CglAllDifferent/CglAllDifferent.cpp
index 4eccaad..249b8f3 100644
--- a/src/CglAllDifferent/CglAllDifferent.cpp
+++ b/src/CglAllDifferent/CglAllDifferent.cpp
@@ -64,6 +64,12 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   for (i=0;i<numberDifferent_;i++) {
     int iColumn = originalWhich_[i];
     assert (iColumn<nCols);
+    if (lower[iColumn]<-1.0e9||upper[iColumn]>1.0e9) {
+      // sets with such a variable are never looked at - see below
+      lo[i] = -1000000000;
+      up[i] = 1000000000;
+      continue;
+    }
     lo[i]  = static_cast<int> (lower[iColumn]);
     assert (floor(lower[iColumn]+0.5)==lower[iColumn]);
     up[i]  = static_cast<int> (upper[iColumn]);
@@ -83,19 +89,29 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   //int * which = new int [numberTotal];
   //int * start = new int [numberSets_+1];
   for (i=0;i<numberSets_;i++) {
+    int newOffset = offset;
+    int newMaxValue = maxValue;
     for (int j=start_[i];j<start_[i+1];j++) {
       int k=which_[j];
-      offset = std::min(offset,lo[k]);
-      maxValue = std::max(maxValue,up[k]);
+      newOffset = std::min(newOffset,lo[k]);
+      newMaxValue = std::max(newMaxValue,up[k]);
     }
-    numberLook++;
-    int gap = maxValue-offset+1;
-    double size = static_cast<double> (gap) * numberDifferent_;
+    double gap = static_cast<double> (newMaxValue) - newOffset + 1.0;
+    double size = gap * numberDifferent_;
     if (size>1.0e7) {
       if (logLevel_)
         printf("Only looking at %d sets\n",numberLook);
       break;
     }
+    offset = newOffset;
+    maxValue = newMaxValue;
+    numberLook++;
+  }
+  if (maxValue<offset) {
+    // no set small enough
+    delete [] lo;
+    delete [] up;
+    return;
   }
   // Which sets a variable is in
   int * back = new int [start_[numberSets_]];
@@ -132,13 +148,15 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   int * alreadyFixed = new int[numberDifferent_];
   for (i=0;i<numberDifferent_;i++) {
     alreadyFixed[i]=-1;
+    if (backStart[i]==backStart[i+1])
+      continue; // not in any set we are looking at
     int startV = i*gap + lo[i] - offset;
     int n = up[i]-lo[i]+1;
     memset(possible+startV,1,n);
   }
   for (i=0;i<numberDifferent_;i++) {
     int n = up[i]-lo[i]+1;
-    if (n==1) {
+    if (n==1&&backStart[i]<backStart[i+1]) {
       int fixedAt = lo[i]-offset;
       numberFixed++;
       alreadyFixed[i]=fixedAt;
@@ -373,6 +391,8 @@ void CglAllDifferent::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
     CoinPackedVector ubs;
     int nTightened=0;
     for (i=0;i<numberDifferent_;i++) {
+      if (backStart[i]==backStart[i+1])
+        continue; // not in any set we looked at
       int iColumn = originalWhich_[i];
       char * allowed = possible+i*gap;
       int firstLo=-1;
-- 
2.43.0


From 1f53e4ef5f54b8d234870fff6ae2f5a1b6a5b06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:47 +0000
Subject: [PATCH 22/69] fix: CglStored never returned when reading a truncated
 cut file

---
 src/CglCommon/CglStored.cpp | 25 +++++++------------------
 1 file changed, 7 insertions(+), 18 deletions(-)

diff --git a/src/CglCommon/CglStored.cpp b/src/CglCommon/CglStored.cpp
index 432726a..4583011 100644
--- a/src/CglCommon/CglStored.cpp
+++ b/src/CglCommon/CglStored.cpp
@@ -283,22 +283,14 @@ CglStored::CglStored(const char *fileName)
 {
   FILE *fp = fopen(fileName, "rb");
   if (fp) {
-#ifndef NDEBUG
-    size_t numberRead;
-#endif
     int maxInCut = 0;
     int *index = NULL;
     double *coefficient = NULL;
     double rhs[2];
     int n = 0;
     while (n >= 0) {
-#ifndef NDEBUG
-      numberRead = fread(&n, sizeof(int), 1, fp);
-      assert(numberRead == 1);
-#else
-      fread(&n, sizeof(int), 1, fp);
-#endif
-      if (n < 0)
+      // stop at end of file as well - the file may be truncated
+      if (fread(&n, sizeof(int), 1, fp) != 1 || n < 0)
         break;
       if (n > maxInCut) {
         maxInCut = n;
@@ -307,14 +299,11 @@ CglStored::CglStored(const char *fileName)
         index = new int[maxInCut];
         coefficient = new double[maxInCut];
       }
-#ifndef NDEBUG
-      numberRead = fread(rhs, sizeof(double), 2, fp);
-      assert(numberRead == 2);
-#else
-      fread(rhs, sizeof(double), 2, fp);
-#endif
-      fread(index, sizeof(int), n, fp);
-      fread(coefficient, sizeof(double), n, fp);
+      size_t size = static_cast< size_t >(n);
+      if (fread(rhs, sizeof(double), 2, fp) != 2
+        || fread(index, sizeof(int), size, fp) != size
+        || fread(coefficient, sizeof(double), size, fp) != size)
+        break;
       OsiRowCut rc;
       rc.setRow(n, index, coefficient, false);
       rc.setLb(rhs[0]);
-- 
2.43.0


From c0b7fdebb5873e25195e0128b968ed70fa9f248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:21 +0000
Subject: [PATCH 23/69] fix: CglTreeProbingInfo lost the implication whose
 number equals its sort sentinel

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 9e6b3cd..e69d5aa 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -1340,7 +1340,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_); // larger than any
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
@@ -1363,7 +1363,7 @@ void CglTreeProbingInfo::convert()
           reinterpret_cast< unsigned int * >(fixEntry_) + n);
         CliqueEntry temp2;
         temp2.fixes = 0;
-        setSequenceInCliqueEntry(temp2, numberVariables_ + 1);
+        setSequenceInCliqueEntry(temp2, numberIntegers_ + numberVariables_); // larger than any
         for (int i = last; i < n; i++) {
           if (sequenceInCliqueEntry(temp2) != sequenceInCliqueEntry(fixEntry_[i]) || oneFixesInCliqueEntry(temp2) || oneFixesInCliqueEntry(fixEntry_[i])) {
             temp2 = fixEntry_[i];
-- 
2.43.0


From 0eddfaf577ed69c44b92112947608e39caa4c9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:36 +0000
Subject: [PATCH 24/69] fix: CglTreeProbingInfo::analyze wrote through NULL
 when given extra cliques

---
 src/CglCommon/CglTreeInfo.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index e69d5aa..4be5e65 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -668,13 +668,14 @@ CglTreeProbingInfo::analyze(const OsiSolverInterface &si, int createSolver,
       }
     }
 #endif
-    if (numberExtraCliques) {
+    // extra cliques are already allowed for when arrays allocated
+    if (numberExtraCliques && iPass) {
       CoinBigIndex numberExtraEntries = starts[numberExtraCliques];
       memcpy(entry + numberEntries, entries, numberExtraEntries * sizeof(CliqueEntry));
       for (int iClique = 0; iClique < numberExtraCliques; iClique++) {
         cliqueType[numberCliques] = type[iClique];
         numberCliques++;
-        cliqueStart[numberCliques] = starts[iClique] + numberEntries;
+        cliqueStart[numberCliques] = starts[iClique + 1] + numberEntries;
       }
       numberEntries += numberExtraEntries;
     }
-- 
2.43.0


From 6e6eee52e42ec8496ae1c905266546e5a3f5fdbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:52 +0000
Subject: [PATCH 25/69] fix: CglTreeProbingInfo leaked in assignment and when
 finding infeasibility

---
 src/CglCommon/CglTreeInfo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index 4be5e65..a3cbe36 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -200,8 +200,6 @@ CglTreeProbingInfo::operator=(const CglTreeProbingInfo &rhs)
         toZero_ = NULL;
         toOne_ = NULL;
       }
-      toZero_ = CoinCopyOfArray(rhs.toZero_, numberIntegers_ + 1);
-      toOne_ = CoinCopyOfArray(rhs.toOne_, numberIntegers_);
       integerVariable_ = CoinCopyOfArray(rhs.integerVariable_, numberIntegers_);
       backward_ = CoinCopyOfArray(rhs.backward_, numberVariables_);
     } else {
@@ -1681,6 +1679,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
@@ -1715,6 +1714,7 @@ void CglTreeProbingInfo::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
           rc.setUb(0.0);
           cs.insertIfNotDuplicate(rc);
           //printf("IMPINFEAS!\n");
+          delete[] fixed;
           return;
         }
       }
-- 
2.43.0


From 787b8cd3e163b5713b236c197ed7e72e7adcc663 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:52:49 +0000
Subject: [PATCH 26/69] fix: CglDuplicateRow dropped an equality that follows
 an inequality with the same columns

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index c74e8b0..7fca4d2 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2735,7 +2735,11 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	if (iValue<numberIntegers) 
 	  break;
 	if (cliqueType[kClique]=='E') {
-	  iLowest = std::min(iLowest,kClique);
+	  // an equality must be kept in preference to any inequality
+	  if (type=='S')
+	    iLowest = kClique;
+	  else
+	    iLowest = std::min(iLowest,kClique);
 	  type='E';
 	} else if (type=='S') {
 	  iLowest = std::min(iLowest,kClique);
-- 
2.43.0


From 8e3db932a097799d73fba9d8f5e37db2235eb43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:25 +0000
Subject: [PATCH 27/69] fix: CglDuplicateRow read past the end of a clique when
 looking for subsets

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 7fca4d2..3100ab3 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -2835,7 +2835,8 @@ static int outDupsEtc(int numberIntegers, int numberCliques, int * statusClique,
 	// what about different fixes bool odd=false;
 	for (j=cliqueStart[kClique];j<cliqueStart[kClique+1];j++) {
 	  int kColumn = entry[j];
-	  int iColumn = entry[j+offset];
+	  // columns of iClique may have run out
+	  int iColumn = (j+offset<cliqueStart[iClique+1]) ? entry[j+offset] : numberIntegers;
 	  while (iColumn<kColumn) {
 	    offset++;
 	    if (j+offset<cliqueStart[iClique+1]) {
-- 
2.43.0


From e6d4dd571c31f33093e064a69824292a9aed42c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:42 +0000
Subject: [PATCH 28/69] fix: assigning to a used CglZeroHalf aborted

---
 src/CglZeroHalf/Cgl012cut.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglZeroHalf/Cgl012cut.cpp b/src/CglZeroHalf/Cgl012cut.cpp
index 3fedc6f..6bcf8c9 100644
--- a/src/CglZeroHalf/Cgl012cut.cpp
+++ b/src/CglZeroHalf/Cgl012cut.cpp
@@ -4472,7 +4472,7 @@ Cgl012Cut::operator=(
 #ifdef CGL_ZH_ADVANCED_DEBUG_CONSTRAINT_PROFILING
     cglZeroHalfConstraintProfileStates().erase(this);
 #endif
-    if (rhs.p_ilp||rhs.vlog||inp_ilp)
+    if (rhs.p_ilp||rhs.vlog||rhs.inp_ilp)
       abort();  
     free_log_var();
     free_parity_ilp();
-- 
2.43.0


From 15cdf029188e0fd3b24043bfd289c5559a034f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:08:25 +0000
Subject: [PATCH 29/69] fix: CglMixedIntegerRounding returned empty cuts after
 dividing by a zero norm

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index 81535da..f644ed9 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -1475,7 +1475,8 @@ CglMixedIntegerRounding::cMirSeparation(
   }
   cutLen=n;
   violation -= cutRHS;
-  violation /= sqrt(normCut);
+  if (normCut)
+    violation /= sqrt(normCut);
 
   if ( violation > TOLERANCE_ ) {
     cMirCut.setRow(cutLen, cutInd, cutCoef);
-- 
2.43.0


From 358fb79a3d3a6d42ca8b4e4393cbce506881197e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:21 +0000
Subject: [PATCH 30/69] fix: CglTreeProbingInfo::analyze read past the end of a
 clique when looking for subsets

---
 src/CglCommon/CglTreeInfo.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index a3cbe36..d88bb34 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -416,7 +416,8 @@ static int outDupsEtc(int numberIntegers, int &numberCliques, int &numberMatrixC
         // what about different fixes bool odd=false;
         for (j = cliqueStart[kClique] + 1; j < cliqueStart[kClique + 1]; j++) {
           int kColumn = sequenceInCliqueEntry(entry[j]);
-          int iColumn = sequenceInCliqueEntry(entry[j + offset]);
+          // entries of iClique may have run out
+          int iColumn = (j + offset < cliqueStart[iClique + 1]) ? static_cast< int >(sequenceInCliqueEntry(entry[j + offset])) : numberIntegers;
           if (iColumn > kColumn) {
             subset = false;
           } else {
-- 
2.43.0


From d7a3d7ed571e58dfdd6201e52506bb3728175098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:05 +0000
Subject: [PATCH 31/69] fix: CglMixedIntegerRounding crashed on a model without
 rows

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index f644ed9..ce0ea79 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -54,6 +54,10 @@ CglMixedIntegerRounding::generateCuts(const OsiSolverInterface& si,
     }
   }
 
+  // nothing to aggregate (and no row lists) without rows
+  if (numRows_ == 0)
+    return;
+
   const double* xlp        = si.getColSolution();  // LP solution
   const double* colUpperBound = si.getColUpper();  // vector of upper bounds
   const double* colLowerBound = si.getColLower();  // vector of lower bounds
-- 
2.43.0


From 2e859cf0a442c473270512e91338201afd03ad14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:13:20 +0000
Subject: [PATCH 32/69] fix: CglLiftAndProject read before its column starts on
 a model without rows

---
 src/CglLiftAndProject/CglLiftAndProject.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglLiftAndProject/CglLiftAndProject.cpp b/src/CglLiftAndProject/CglLiftAndProject.cpp
index 04010b7..a2b4133 100644
--- a/src/CglLiftAndProject/CglLiftAndProject.cpp
+++ b/src/CglLiftAndProject/CglLiftAndProject.cpp
@@ -56,6 +56,10 @@ void CglLiftAndProject::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
   const int n = si.getNumCols(); 
   const double * x = si.getColSolution();
 
+  // No cut can be derived without rows
+  if (m==0)
+    return;
+
   // Remember - Atildes may have gaps..
   const CoinPackedMatrix * Atilde = si.getMatrixByRow();
   const double * AtildeElements =  Atilde->getElements();
-- 
2.43.0


From 37cfa81d61193cd5950f04fc2979b2292d841f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:15:31 +0000
Subject: [PATCH 33/69] fix: CglDuplicateRow::refreshSolver overflowed int on
 rows with a large negative right hand side

---
 src/CglDuplicateRow/CglDuplicateRow.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index 3100ab3..c87a4d8 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -3261,7 +3261,8 @@ CglDuplicateRow::refreshSolver(OsiSolverInterface * solver)
     lower_[iRow]=markBad;
     duplicate_[iRow]=-1;
     if (rowUpper[iRow]<100) {
-      int iRhs= static_cast<int> (floor(rowUpper[iRow]));
+      // a negative rhs is never used
+      int iRhs= static_cast<int> (floor(std::max(-1.0,rowUpper[iRow])));
       // check elements
       bool good=true;
       for (CoinBigIndex j=rowStart[iRow];j<rowStart[iRow]+rowLength[iRow];j++) {
@@ -3274,7 +3275,7 @@ CglDuplicateRow::refreshSolver(OsiSolverInterface * solver)
         }
       }
       if (good) {
-        lower_[iRow] = static_cast<int> (std::max(0.0,ceil(rowLower[iRow])));
+        lower_[iRow] = static_cast<int> (std::max(0.0,std::min(100.0,ceil(rowLower[iRow]))));
         if (iRhs>=lower_[iRow]) {
           rhs_[iRow]=iRhs;
           //numberGood++;
-- 
2.43.0


From 6d65cecd92c48b0f4d74213324ec2f05dece9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:03 +0000
Subject: [PATCH 34/69] fix: CglKnapsackCover read before an empty cover when
 coefficients dwarf the right hand side

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 873fcc2..1fb4ef6 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -1504,7 +1504,14 @@ CglKnapsackCover::findExactMostViolatedMinCover(
   exactSolveKnapsack(krow.getNumElements(), (elementSum-b-epsilon_), p, w,
 		     exactOptVal, exactOptSol);
   
-  if(objConst-exactOptVal < 1){
+  // with coefficients very much larger than b nothing may be left for the cover
+  int nCover = 0;
+  for (kk=0; kk<krow.getNumElements(); kk++){
+    if (exactOptSol[kk]==0)
+      nCover++;
+  }
+
+  if(nCover && objConst-exactOptVal < 1){
     cover.reserve(krow.getNumElements());
     remainder.reserve(krow.getNumElements());
 
@@ -1529,7 +1536,7 @@ CglKnapsackCover::findExactMostViolatedMinCover(
     // elements 
     double oneLessCoverElementSum =
        coverElementSum - cover.getElements()[cover.getNumElements()-1];
-    while (oneLessCoverElementSum > b){
+    while (cover.getNumElements() > 1 && oneLessCoverElementSum > b){
       // move the excess cover member into the set of remainders
       remainder.insert(cover.getIndices()[cover.getNumElements()-1],
 		       cover.getElements()[cover.getNumElements()-1]);
@@ -1773,7 +1780,7 @@ CglKnapsackCover::findPseudoJohnAndEllisCover(
     // elements 
     double oneLessCoverElementSum =
        coverElementSum - cover.getElements()[cover.getNumElements()-1];
-    while (oneLessCoverElementSum > b){
+    while (cover.getNumElements() > 1 && oneLessCoverElementSum > b){
       // move the excess cover member into the set of remainders
       remainder.insert(cover.getIndices()[cover.getNumElements()-1],
 		       cover.getElements()[cover.getNumElements()-1]);
-- 
2.43.0


From f35330ad61bd34fcc7ba95a1a10af576c748c7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:20:12 +0000
Subject: [PATCH 35/69] fix: row bounds far below or above zero overflowed int
 when looking for cliques

---
 src/CglCommon/CglTreeInfo.cpp             | 4 ++--
 src/CglDuplicateRow/CglDuplicateRow.cpp   | 4 ++--
 src/CglKnapsackCover/CglKnapsackCover.cpp | 8 ++++----
 3 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/CglCommon/CglTreeInfo.cpp b/src/CglCommon/CglTreeInfo.cpp
index d88bb34..d3c7a86 100644
--- a/src/CglCommon/CglTreeInfo.cpp
+++ b/src/CglCommon/CglTreeInfo.cpp
@@ -596,8 +596,8 @@ CglTreeProbingInfo::analyze(const OsiSolverInterface &si, int createSolver,
           whichM[numberM1++] = iColumn;
         }
       }
-      int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast<int> (floor(upperValue+1.0e-5));
-      int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast<int> (ceil(lowerValue-1.0e-5));
+      int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast<int> (floor(std::max(upperValue,-2.0e9)+1.0e-5));
+      int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast<int> (ceil(std::min(lowerValue,2.0e9)-1.0e-5));
       int state = 0;
       if (upperValue < 1.0e6) {
         if (iUpper == 1 - numberM1)
diff --git a/src/CglDuplicateRow/CglDuplicateRow.cpp b/src/CglDuplicateRow/CglDuplicateRow.cpp
index c87a4d8..eccc6ff 100644
--- a/src/CglDuplicateRow/CglDuplicateRow.cpp
+++ b/src/CglDuplicateRow/CglDuplicateRow.cpp
@@ -3003,8 +3003,8 @@ void CglDuplicateRow::generateCuts8(const OsiSolverInterface & si, OsiCuts & cs,
 	  whichP[numberP1++]=iColumn;;
 	}
       }
-      int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast<int> (floor(upperValue+1.0e-5));
-      int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast<int> (ceil(lowerValue-1.0e-5));
+      int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast<int> (floor(std::max(upperValue,-2.0e9)+1.0e-5));
+      int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast<int> (ceil(std::min(lowerValue,2.0e9)-1.0e-5));
       int state=0;
       if (upperValue<1.0e6) {
 	if (iUpper==1)
diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 1fb4ef6..8618b66 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3913,8 +3913,8 @@ CglKnapsackCover::createCliques( OsiSolverInterface & si,
 	which[numberIntegers-numberM1]=iColumn;
       }
     }
-    int iUpper = upperValue > 2.0e9 ? INT_MAX : static_cast<int> (floor(upperValue+1.0e-5));
-    int iLower = lowerValue < -2.0e9 ? -2147483647 : static_cast<int> (ceil(lowerValue-1.0e-5));
+    int iUpper = upperValue > 2.0e9 ? INT_MAX : static_cast<int> (floor(std::max(upperValue,-2.0e9)+1.0e-5));
+    int iLower = lowerValue < -2.0e9 ? -2147483647 : static_cast<int> (ceil(std::min(lowerValue,2.0e9)-1.0e-5));
 
     int state=0;
     if (upperValue<1.0e6) {
@@ -4044,8 +4044,8 @@ CglKnapsackCover::createCliques( OsiSolverInterface & si,
 	  which[numberIntegers-numberM1]=iColumn;
 	}
       }
-      int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast<int> (floor(upperValue+1.0e-5));
-      int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast<int> (ceil(lowerValue-1.0e-5));
+      int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast<int> (floor(std::max(upperValue,-2.0e9)+1.0e-5));
+      int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast<int> (ceil(std::min(lowerValue,2.0e9)-1.0e-5));
       int state=0;
       if (upperValue<1.0e6) {
 	if (iUpper==1-numberM1)
-- 
2.43.0


From fd915636ae8fcbb6ca3436a51c1e780d57e007a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 36/69] fix: CglRedSplit::generateCpp wrote calls that do not
 compile

---
 src/CglRedSplit/CglRedSplit.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index ea12728..5cd3f8c 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -1908,21 +1908,21 @@ CglRedSplit::generateCpp(FILE * fp)
   else
     fprintf(fp,"4  redSplit.setLUB(%g);\n",param.getLUB());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  redSplit.set.EPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  redSplit.setEPS(%g);\n",param.getEPS());
   else
     fprintf(fp,"4  redSplit.setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
     fprintf(fp,"3  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  redSplit.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_COEFF_LUB()!=other.param.getEPS_COEFF_LUB())
-    fprintf(fp,"3  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"3  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   else
-    fprintf(fp,"4  redSplit.set.EPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
+    fprintf(fp,"4  redSplit.setEPS_COEFF_LUB(%g);\n",param.getEPS_COEFF_LUB());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  redSplit.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  redSplit.setEPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
   if (param.getNormIsZero()!=other.param.getNormIsZero())
     fprintf(fp,"3  redSplit.setNormIsZero(%g);\n",param.getNormIsZero());
   else
-- 
2.43.0


From 7ea3c00660db362d2d21584179accf0d3cf10d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 37/69] fix: CglRedSplit2Param::setMAX_SUPP_REL set the minimum
 violation and could not be linked

---
 src/CglRedSplit2/CglRedSplit2Param.cpp | 6 +++---
 src/CglRedSplit2/CglRedSplit2Param.hpp | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglRedSplit2/CglRedSplit2Param.cpp b/src/CglRedSplit2/CglRedSplit2Param.cpp
index 82cedad..2ef51cb 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.cpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.cpp
@@ -72,11 +72,11 @@ void CglRedSplit2Param::setMINVIOL(double value)
 /***********************************************************************/
 void CglRedSplit2Param::setMAX_SUPP_REL(double value)
 {
-  if (value > 0.0 && value <= 0.1) {
-    MINVIOL = value;
+  if (value >= 0.0 && value <= 1.0) {
+    MAX_SUPP_REL = value;
   }
   else {
-    printf("### WARNING: CglRedSplit2Param::setMINVIOL(): value: %f ignored\n", 
+    printf("### WARNING: CglRedSplit2Param::setMAX_SUPP_REL(): value: %f ignored\n", 
 	   value);
   }
 } /* setMAX_SUPP_REL */
diff --git a/src/CglRedSplit2/CglRedSplit2Param.hpp b/src/CglRedSplit2/CglRedSplit2Param.hpp
index 6444951..a96af7f 100644
--- a/src/CglRedSplit2/CglRedSplit2Param.hpp
+++ b/src/CglRedSplit2/CglRedSplit2Param.hpp
@@ -213,7 +213,7 @@ public:
 
   /** Maximum relative support of the cutting planes. Default: 0.0.
       The maximum support is MAX_SUPP_ABS + MAX_SUPPREL*ncols. */
-  inline void setMAX_SUPP_REL(double value); 
+  void setMAX_SUPP_REL(double value); 
   inline double getMAX_SUPP_REL() const {return MAX_SUPP_REL;}
 
   /** Set the value of USE_INTSLACKS. Default: 0 */
-- 
2.43.0


From 6b2f71bcfa0a0d79923636a2645a0003af066fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:15 +0000
Subject: [PATCH 38/69] fix: CglZeroHalf::generateCpp did not write the flags

---
 src/CglZeroHalf/CglZeroHalf.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index c22c89f..feff95f 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -508,6 +508,8 @@ CglZeroHalf::generateCpp( FILE * fp)
     fprintf(fp,"3  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
   else
     fprintf(fp,"4  zeroHalf.setAggressiveness(%d);\n",getAggressiveness());
+  if (getFlags()!=other.getFlags())
+    fprintf(fp,"3  zeroHalf.setFlags(%d);\n",getFlags());
   if (getSepGraphSparseThreshold()!=other.getSepGraphSparseThreshold())
     fprintf(fp,"3  zeroHalf.setSepGraphSparseThreshold(%d);\n",getSepGraphSparseThreshold());
   if (getRowMaxPairCount()!=other.getRowMaxPairCount())
-- 
2.43.0


From fe6ab2b7c7f79ff637b2df1ccff5092d893e6124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:47 +0000
Subject: [PATCH 39/69] fix: CglClique kept the solver's tolerance as minimum
 violation after an early return

---
 src/CglClique/CglClique.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglClique/CglClique.cpp b/src/CglClique/CglClique.cpp
index 4772d0c..3242850 100644
--- a/src/CglClique/CglClique.cpp
+++ b/src/CglClique/CglClique.cpp
@@ -123,6 +123,8 @@ CglClique::generateCuts(const OsiSolverInterface& si, OsiCuts & cs,
    if (sp_numrows > MAX_CGLCLIQUE_ROWS || sp_numcols < 2 || sp_numcols>MAX_CGLCLIQUE_COLS) {
      //printf("sp_numrows is %d\n",sp_numrows);
      deleteSetPackingSubMatrix();
+     if (! has_petol_set)
+       petol = -1;
      return; // too many rows or too few columns!
    }
 
-- 
2.43.0


From a2fbe826f61712918f33c0f1eee8ccf581b9388e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:55 +0000
Subject: [PATCH 40/69] fix: CglMixedIntegerRounding's constructor accepted the
 preprocessing option 2

---
 src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
index ce0ea79..b127020 100644
--- a/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
+++ b/src/CglMixedIntegerRounding/CglMixedIntegerRounding.cpp
@@ -183,7 +183,7 @@ CglMixedIntegerRounding::gutsOfConstruct (const int maxaggr,
     throw CoinError("Unallowable value. criterion must be 1, 2 or 3",
                       "gutsOfConstruct","CglMixedIntegerRounding");
   }
-  if ((preproc >= -1) && (preproc <= 2)) {
+  if ((preproc >= -1) && (preproc <= 1)) {
     doPreproc_ = preproc;
   }
   else {
-- 
2.43.0


From 36737404885354b62097b36ab0e665694b52e957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:12 +0000
Subject: [PATCH 41/69] fix: CglFlowCover took a free row for an equality with
 zero right hand side

---
 src/CglFlowCover/CglFlowCover.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglFlowCover/CglFlowCover.cpp b/src/CglFlowCover/CglFlowCover.cpp
index 57ff1e3..1c95c26 100644
--- a/src/CglFlowCover/CglFlowCover.cpp
+++ b/src/CglFlowCover/CglFlowCover.cpp
@@ -1303,8 +1303,8 @@ CglFlowCover::determineOneRowType(const OsiSolverInterface& si,
 {
   if (rowLen == 0) 
     return CGLFLOW_ROW_UNDEFINED;
-  if (sense == 'R')
-    return CGLFLOW_ROW_UNINTERSTED; // Could be fixed
+  if (sense == 'R' || sense == 'N')
+    return CGLFLOW_ROW_UNINTERSTED; // Could be fixed (ranges)
     
   CglFlowRowType rowType = CGLFLOW_ROW_UNDEFINED;
   // Get integer types
-- 
2.43.0


From 5aa23c2eb617caf23e0212e4f41515236a18d528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:16 +0000
Subject: [PATCH 42/69] fix: CglProbing::probeCliques took the first row kept
 for the first row of the model

---
 src/CglProbing/CglProbing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 5e9b1b2..f352c64 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -8146,7 +8146,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowLower[irow] < -1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
@@ -8226,7 +8226,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowUpper[irow] > 1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
@@ -8514,7 +8514,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowLower[irow] < -1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
@@ -8594,7 +8594,7 @@ int CglProbing::probeCliques(const OsiSolverInterface &si,
                         }
 #endif
                         int realRow = (rowUpper[irow] > 1.0e20) ? irow : -1;
-                        if (realRows && realRow > 0)
+                        if (realRows && realRow >= 0)
                           realRow = realRows[realRow];
                         rowCut.addCutIfNotDuplicate(rc, realRow);
                       }
-- 
2.43.0


From c5f8fb78fcfba048a84e2750ec808613fc71a202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:16 +0000
Subject: [PATCH 43/69] fix: CglProbing numbered strengthened big-M rows
 without the rows it had left out

---
 src/CglProbing/CglProbing.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index f352c64..83a01ab 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -6778,7 +6778,9 @@ int CglProbing::probe(const OsiSolverInterface &si,
   if (!ninfeas && (info->strengthenRow || !rowCut.numberCuts()) && rowCuts) {
     // Try and find ALL big M's
     for (int i = 0; i < nRowsSafe; ++i) {
-      if ((rowLower[i] > -1.0e20 || rowUpper[i] < 1.0e20) && (!info->strengthenRow || !info->strengthenRow[i])) {
+      // row as numbered by caller
+      const int realRow = realRows ? realRows[i] : i;
+      if ((rowLower[i] > -1.0e20 || rowUpper[i] < 1.0e20) && (!info->strengthenRow || realRow < 0 || !info->strengthenRow[realRow])) {
         int iflagu = 0;
         int iflagl = 0;
         double dmaxup = 0.0;
@@ -6962,7 +6964,7 @@ int CglProbing::probe(const OsiSolverInterface &si,
                     printf("<= %g\n", rowUpper[irow]);
                   }
 #endif
-                  int returnCode = rowCut.addCutIfNotDuplicate(rc, i);
+                  int returnCode = rowCut.addCutIfNotDuplicate(rc, realRow);
                   if (returnCode < 0)
                     break; // out of space
                 }
-- 
2.43.0


From f4851be760563f33448e52af430419a6e3b3b436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:28 +0000
Subject: [PATCH 44/69] fix: CglProbing::createCliques left arrays behind when
 no clique remained

---
 src/CglProbing/CglProbing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 83a01ab..f65e4eb 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10945,6 +10945,9 @@ int CglProbing::createCliques(OsiSolverInterface &si,
   delete[] which;
   delete[] whichRow;
   delete[] lookup;
+  // all may have turned out to be fixed
+  if (!numberCliques_)
+    deleteCliques();
   return numberCliques_;
 }
 // Delete all clique information
-- 
2.43.0


From 56f66183ec7fab3df4148846b38fbee90721d256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 45/69] fix: CglKnapsackCover::setTestedRowIndices kept a
 pointer to freed memory when told of no rows

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 8618b66..0754460 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -801,8 +801,8 @@ void CglKnapsackCover::generateCuts(const OsiSolverInterface& si, OsiCuts& cs,
 void
 CglKnapsackCover::setTestedRowIndices(int num, const int* ind)
 {
-   if (rowsToCheck_)
-      delete[] rowsToCheck_;
+   delete[] rowsToCheck_;
+   rowsToCheck_ = NULL;
    numRowsToCheck_ = num;
    if (num > 0) {
       rowsToCheck_ = new int[num];
-- 
2.43.0


From 6f3199d53faa21b5e7fc59949fd645d1283190fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:00 +0000
Subject: [PATCH 46/69] fix: CglKnapsackCover could not be copied after
 createCliques found the problem infeasible

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 0754460..77dc35d 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -4151,7 +4151,11 @@ CglKnapsackCover::createCliques( OsiSolverInterface & si,
   delete [] which;
   delete [] whichRow;
   delete [] lookup;
-  return numberCliques_;
+  const int numberFound = numberCliques_;
+  // infeasible - nothing is stored, so nothing to copy
+  if (numberCliques_<0)
+    numberCliques_ = 0;
+  return numberFound;
 }
 // Delete all clique information
 void 
-- 
2.43.0


From 09afccf1c79f8fd7302cd1dd6b293ca0d4241679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:47 +0000
Subject: [PATCH 47/69] fix: CglKnapsackCover::createCliques wrote past its
 arrays when asked for cliques of size zero or more

---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 77dc35d..585a16e 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3967,7 +3967,7 @@ CglKnapsackCover::createCliques( OsiSolverInterface & si,
 	}
         totalP1 += numberP1;
         totalM1 += numberM1;
-	if (length >= minimumSize&&length<maximumSize) {
+	if (length && length >= minimumSize&&length<maximumSize) {
 	  whichRow[numberCliques_++]=iRow;
 	  numberEntries += length;
 	} else if (length >= maximumSize) {
-- 
2.43.0


From 93aabc267c211ea7686a75b86bf64406dab8733f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:46 +0000
Subject: [PATCH 48/69] hook: CGL_VERIF_HOOKS lets a monitor set how often
 zero-half looks at the clock

---
 src/CglZeroHalf/Cgl012cut.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/CglZeroHalf/Cgl012cut.cpp b/src/CglZeroHalf/Cgl012cut.cpp
index 6bcf8c9..e69d393 100644
--- a/src/CglZeroHalf/Cgl012cut.cpp
+++ b/src/CglZeroHalf/Cgl012cut.cpp
@@ -119,9 +119,16 @@ cglZeroHalfGetAuxiliaryArcEdge(const auxiliary_graph *a_graph, int from, int to)
   return NULL;
 }
 
+#ifdef CGL_VERIF_HOOKS
+/* lets a monitor have the clock looked at more often */
+int cglVerifTimeCheckPollInterval = 1024;
+#define TIME_CHECK_POLL_INTERVAL cglVerifTimeCheckPollInterval
+#else
+#define TIME_CHECK_POLL_INTERVAL 1024
+#endif
+
 bool Cgl012Cut::checkTimeLimit(const char *, const char *)
 {
-  enum { TIME_CHECK_POLL_INTERVAL = 1024 };
   if (timeLimitReached_ || maxSeconds_ <= 0.0)
     return timeLimitReached_;
   if (--timeCheckCountdown_ > 0)
@@ -140,7 +147,7 @@ bool Cgl012Cut::timeLimitReached() const
 void Cgl012Cut::resetTimeCheckState()
 {
   timeLimitReached_ = false;
-  timeCheckCountdown_ = 1024;
+  timeCheckCountdown_ = TIME_CHECK_POLL_INTERVAL;
 }
 
 void Cgl012Cut::ensureBestWeakeningBufferCapacity(int requiredSize)
-- 
2.43.0


From a96239f888eb6a87d8cb466de892c9d7b6f34d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:31 +0000
Subject: [PATCH 49/69] fix: CglZeroHalf converted bounds beyond the range of
 int to int

---
 src/CglZeroHalf/CglZeroHalf.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/CglZeroHalf/CglZeroHalf.cpp b/src/CglZeroHalf/CglZeroHalf.cpp
index feff95f..768e721 100644
--- a/src/CglZeroHalf/CglZeroHalf.cpp
+++ b/src/CglZeroHalf/CglZeroHalf.cpp
@@ -35,10 +35,14 @@ CglZeroHalf::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
 	  double lo = columnLower[iColumn];
 	  if (lo<-COIN_INT_MAX)
 	    lo=-COIN_INT_MAX;
+	  else if (lo>COIN_INT_MAX-1)
+	    lo=COIN_INT_MAX-1; // COIN_INT_MAX marks continuous
 	  ilo= static_cast<int> (ceil(lo));
 	  double up = columnUpper[iColumn];
 	  if (up>COIN_INT_MAX)
 	    up=COIN_INT_MAX;
+	  else if (up<-COIN_INT_MAX)
+	    up=-COIN_INT_MAX;
 	  iup= static_cast<int> (floor(up));
 	  vlb_[iColumn]=ilo;
 	  vub_[iColumn]=iup;
@@ -314,7 +318,8 @@ CglZeroHalf::refreshSolver(OsiSolverInterface * solver)
   vub_ = new int [numberColumns];
   for (iColumn=0;iColumn<numberColumns;iColumn++) {
     int ilo,iup;
-    if (intVar[iColumn]) {
+    if (intVar[iColumn]&&columnLower[iColumn]<COIN_INT_MAX&&
+	columnUpper[iColumn]>-COIN_INT_MAX) {
       double lo = columnLower[iColumn];
       if (lo<-COIN_INT_MAX)
 	lo=-COIN_INT_MAX;
@@ -324,6 +329,7 @@ CglZeroHalf::refreshSolver(OsiSolverInterface * solver)
 	up=COIN_INT_MAX;
       iup= static_cast<int> (floor(up));
     } else {
+      // continuous (or beyond the range of int)
       ilo=COIN_INT_MAX;
       iup=-COIN_INT_MAX;
     }
-- 
2.43.0


From 11b22287c27bfd568e6b7af26501b82424907277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:23:41 +0000
Subject: [PATCH 50/69] fix: CglZeroHalf leaked the weakening of an edge whose
 slack is exactly the limit

---
 src/CglZeroHalf/Cgl012cut.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/CglZeroHalf/Cgl012cut.cpp b/src/CglZeroHalf/Cgl012cut.cpp
index e69d393..8172c61 100644
--- a/src/CglZeroHalf/Cgl012cut.cpp
+++ b/src/CglZeroHalf/Cgl012cut.cpp
@@ -2810,6 +2810,7 @@ cut_list *Cgl012Cut::basic_separation()
 		sep_graph = update_weight_sep_graph
 		  (j,k,weight,parity,i,info_even_weak,sep_graph);
 	      }
+	      else free_info_weak(info_even_weak);
 	    }
 	    if ( ok_weak == BOTH || ok_weak == ODD ) {
 	      if ( best_odd_slack < MAX_SLACK - EPS ) {
@@ -2817,6 +2818,7 @@ cut_list *Cgl012Cut::basic_separation()
 		sep_graph = update_weight_sep_graph
 		  (j,k,weight,parity,i,info_odd_weak,sep_graph);
 	      }
+	      else free_info_weak(info_odd_weak);
 	    }
  EXITJK:;  }
 	}
-- 
2.43.0


From 9049c9edd1bdd49b07dcf04edc3b72a37dd03674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:25 +0000
Subject: [PATCH 51/69] fix: knapsack cover: compare lifted coefficients'
 breakpoints with the same tolerance throughout

A coefficient equal to a breakpoint up to rounding was lifted to the next
higher value, giving a cut that removes feasible points.
---
 src/CglKnapsackCover/CglKnapsackCover.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglKnapsackCover/CglKnapsackCover.cpp b/src/CglKnapsackCover/CglKnapsackCover.cpp
index 585a16e..2f2c33b 100644
--- a/src/CglKnapsackCover/CglKnapsackCover.cpp
+++ b/src/CglKnapsackCover/CglKnapsackCover.cpp
@@ -3239,7 +3239,7 @@ CglKnapsackCover::liftCoverCut(
         int found=0;
         i=2;
         while (!found && i<(cover.getNumElements()+1)){
-          if (remainder.getElements()[h] <= muMinusLambda[i]){
+          if (remainder.getElements()[h] <= muMinusLambda[i]+epsilon_){
 #ifdef CGL_DEBUG
 	    bool e = cut.isExistingIndex(remainder.getIndices()[h]);
             assert( !e );
@@ -3277,7 +3277,7 @@ CglKnapsackCover::liftCoverCut(
       int found=0; // Todo: searcing is inefficient: sort...
       i=0;
       while(!found && i<cover.getNumElements()){
-        if (remainder.getElements()[h] <= muMinusLambda[i+1]){
+        if (remainder.getElements()[h] <= muMinusLambda[i+1]+epsilon_){
 #ifdef CGL_DEBUG
 	  bool notE = !cut.isExistingIndex(remainder.getIndices()[h]);
           assert( notE );
-- 
2.43.0


From 794a4cfd7cd595900eda87472f5f13d5d2a3af40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:21 +0000
Subject: [PATCH 52/69] fix: CglRedSplit returned empty cuts when all
 coefficients were relaxed away

The minimum violation is per entry, so the test let a cut without entries pass.
---
 src/CglRedSplit/CglRedSplit.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglRedSplit/CglRedSplit.cpp b/src/CglRedSplit/CglRedSplit.cpp
index 5cd3f8c..0346645 100644
--- a/src/CglRedSplit/CglRedSplit.cpp
+++ b/src/CglRedSplit/CglRedSplit.cpp
@@ -735,7 +735,7 @@ int CglRedSplit::generate_packed_row(const double *lclXlp,
   }
 
   value -= rhs;
-  if(value < param.getMINVIOL()*(*card_row)) {
+  if(*card_row == 0 || value < param.getMINVIOL()*(*card_row)) {
 
 #ifdef RS_TRACE
     printf("CglRedSplit::generate_packed_row(): Cut discarded: violation: %12.10f\n", value);
-- 
2.43.0


From 0fc66f9a0e9aa7555722eb82525485460b97be14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:37 +0000
Subject: [PATCH 53/69] fix: CglProbing kept the list of columns looked at when
 used on a larger model

The array was only allocated once, so a reused object (or a copy of a used one)
wrote past its end.
---
 src/CglProbing/CglProbing.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index f65e4eb..eb4935e 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -2241,9 +2241,8 @@ int CglProbing::gutsOfGenerateCuts(const OsiSolverInterface &si,
   const int *rowLength = rowCopy->getVectorLengths();
   const double *rowElements = rowCopy->getElements();
   // Arrays so user can find out what happened
-  if (!lookedAt_) {
-    lookedAt_ = new int[nCols];
-  }
+  delete[] lookedAt_; // may be from a smaller problem
+  lookedAt_ = new int[nCols];
   numberThisTime_ = 0;
   // Let us never add more than twice the number of rows worth of row cuts
   // Keep cuts out of cs until end so we can find duplicates quickly
-- 
2.43.0


From 912f5a77ad4bac701ce081d65c576e1190c4d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:55 +0000
Subject: [PATCH 54/69] fix: copies of CglMixedIntegerRounding2 lacked the
 saved row types

Only half of the array was copied; the other half is put back after each
aggregation, so a copy went on with random row types.
---
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index 16561b9..e1c840f 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -395,7 +395,7 @@ CglMixedIntegerRounding2::gutsOfCopy (const CglMixedIntegerRounding2& rhs)
 #define SAFE_ROWS
 #ifdef SAFE_ROWS
     rowTypes_ = new RowType [2*numRows_];
-    CoinDisjointCopyN(rhs.rowTypes_, numRows_, rowTypes_);
+    CoinDisjointCopyN(rhs.rowTypes_, 2*numRows_, rowTypes_);
 #else
     rowTypes_ = new RowType [numRows_];
 #endif
-- 
2.43.0


From 145a9f592cd5a29722ae9068b386cdac325ac63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 55/69] fix: CglRedSplit2 leaked its list of cut qualities

---
 src/CglRedSplit2/CglRedSplit2.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CglRedSplit2/CglRedSplit2.cpp b/src/CglRedSplit2/CglRedSplit2.cpp
index fb7d17e..2f1fa4e 100644
--- a/src/CglRedSplit2/CglRedSplit2.cpp
+++ b/src/CglRedSplit2/CglRedSplit2.cpp
@@ -2149,6 +2149,7 @@ int CglRedSplit2::generateCuts(OsiCuts* cs, int maxNumCuts, int* lambda)
       }
       delete[] bufflambda;
     }
+    delete[] quality;
     if (numCuts > maxNumCuts){
       numCuts = maxNumCuts;
     }
-- 
2.43.0


From f0242bf86fbca412ac1723c782f35e4d81c25f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:07 +0000
Subject: [PATCH 56/69] fix: CglFlowCover's assignment leaked the preprocessing
 it replaces

---
 src/CglFlowCover/CglFlowCover.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CglFlowCover/CglFlowCover.cpp b/src/CglFlowCover/CglFlowCover.cpp
index 1c95c26..edc2f5d 100644
--- a/src/CglFlowCover/CglFlowCover.cpp
+++ b/src/CglFlowCover/CglFlowCover.cpp
@@ -432,6 +432,12 @@ CglFlowCover::operator=(const CglFlowCover& rhs)
     //    numFlowCuts_ = rhs.numFlowCuts_;
     setNumFlowCuts(rhs.numFlowCuts_);
     doneInitPre_ = rhs.doneInitPre_;
+    delete [] vubs_;
+    vubs_ = 0;
+    delete [] vlbs_;
+    vlbs_ = 0;
+    delete [] rowTypes_;
+    rowTypes_ = 0;
     if (numCols_ > 0) {
       vubs_ = new CglFlowVUB [numCols_];
       vlbs_ = new CglFlowVLB [numCols_];
-- 
2.43.0


From cb5ea588692742c8492e61615ceb57c5c32f2100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:53 +0000
Subject: [PATCH 57/69] fix: CglResidualCapacity crashed on a model without
 rows

---
 src/CglResidualCapacity/CglResidualCapacity.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglResidualCapacity/CglResidualCapacity.cpp b/src/CglResidualCapacity/CglResidualCapacity.cpp
index 2c22c19..3c5c31e 100644
--- a/src/CglResidualCapacity/CglResidualCapacity.cpp
+++ b/src/CglResidualCapacity/CglResidualCapacity.cpp
@@ -29,6 +29,10 @@ CglResidualCapacity::generateCuts(const OsiSolverInterface& si,
 				  const CglTreeInfo /*info*/)
 {
 
+  // Nothing to do (and no row to take out of the matrix) without rows
+  if (!si.getNumRows())
+    return;
+
   // If the LP or integer presolve is used, then need to redo preprocessing
   // everytime this function is called. Otherwise, just do once.
   bool preInit = false;
-- 
2.43.0


From bd2650c4f513587a74014d835c876a75225864a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:03 +0000
Subject: [PATCH 58/69] fix: CglMixedIntegerRounding2 aborted on a model
 without rows or columns

---
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index e1c840f..181605f 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -30,6 +30,10 @@ CglMixedIntegerRounding2::generateCuts(const OsiSolverInterface& si,
 				      const CglTreeInfo info)
 {
 
+  // Nothing to do (and no matrix to copy) without rows or columns
+  if (!si.getNumRows() || !si.getNumCols())
+    return;
+
   // If the LP or integer presolve is used, then need to redo preprocessing
   // everytime this function is called. Otherwise, just do once.
   bool preInit = false;
-- 
2.43.0


From d7508e72378394336b6aae82714c0274433573bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 59/69] fix: CglTwomir converted scales too large for an int

---
 src/CglTwomir/CglTwomir.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglTwomir/CglTwomir.cpp b/src/CglTwomir/CglTwomir.cpp
index da533d5..1a9f570 100644
--- a/src/CglTwomir/CglTwomir.cpp
+++ b/src/CglTwomir/CglTwomir.cpp
@@ -1686,7 +1686,7 @@ int DGG_generateFormulationCutsFromBase( DGG_constraint_t *base,
 	scaled_base->sense = 'G';
       }
       
-      int_skala = int(100*skala);
+      int_skala = int(std::max(-2.0e9, std::min(2.0e9, 100*skala)));
 
       for(i = 0; i< num_inlist; i++) 
 	if(int_skala == skala_list[i]) 
-- 
2.43.0


From 71d72dd9b2fbd89cd56c43013d8c4dd73bfeeb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:05 +0000
Subject: [PATCH 60/69] fix: CglMixedIntegerRounding2 read column bounds beyond
 the end for slacks with tiny coefficients

---
 src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
index 181605f..8b0291c 100644
--- a/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
+++ b/src/CglMixedIntegerRounding2/CglMixedIntegerRounding2.cpp
@@ -1294,8 +1294,8 @@ CglMixedIntegerRounding2::boundSubstitution(
       continue;
     }
 
-    if (fabs(coefCol) < EPSILON_) {
-      // relax as far as possible
+    if ( (indCol < numCols_) && (fabs(coefCol) < EPSILON_) ) {
+      // relax as far as possible (a slack has no column bounds)
       if (coefCol<0.0)
 	rhsMixedKnapsack -= coefCol*colUpperBound[indCol];
       else
-- 
2.43.0


From 271df161c2c635b2fb14a829eee7f481501053d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:38 +0000
Subject: [PATCH 61/69] fix: CglProbing aborted on a model without columns

---
 src/CglProbing/CglProbing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index eb4935e..9446c10 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -2143,7 +2143,7 @@ int CglProbing::gutsOfGenerateCuts(const OsiSolverInterface &si,
       nRows = nKeep;
     }
     delete[] which;
-    if (!nRows) {
+    if (!nRows || !nCols) {
 #ifdef COIN_DEVELOP
       printf("All rows too long for probing\n");
 #endif
-- 
2.43.0


From 2c02a6c20aedf6d591a96e848142eb6409dba588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:21 +0000
Subject: [PATCH 62/69] fix: CglGomory printed its tree information whenever
 cuts at nodes are to be global

---
 src/CglGomory/CglGomory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/CglGomory/CglGomory.cpp b/src/CglGomory/CglGomory.cpp
index 3b9fe28..132a720 100644
--- a/src/CglGomory/CglGomory.cpp
+++ b/src/CglGomory/CglGomory.cpp
@@ -72,10 +72,9 @@ void CglGomory::generateCuts(const OsiSolverInterface & si, OsiCuts & cs,
   const double * colUpper = si.getColUpper();
   const double * colLower = si.getColLower();
   //#define CLP_INVESTIGATE2
-#ifndef CLP_INVESTIGATE2
-  if ((info.options&16)!=0)
+#ifdef CLP_INVESTIGATE2
+  printf("%d %d %d\n",info.inTree,info.options,info.pass);
 #endif
-     printf("%d %d %d\n",info.inTree,info.options,info.pass);
   for (i=0;i<numberColumns;i++) {
     if (intInfo[i]) {
       if (colUpper[i]>colLower[i]+0.5) {
-- 
2.43.0


From 256e7dc5efe4188210363c87e57cb93c2f4dd3ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:39 +0000
Subject: [PATCH 63/69] fix: CglProbing::snapshot kept work arrays too small
 for the next call

---
 src/CglProbing/CglProbing.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 9446c10..4b5bd91 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10014,6 +10014,12 @@ int CglProbing::snapshot(const OsiSolverInterface &si,
     rowLower_, rowUpper_,
     numberRows_, numberColumns_, intVar, 5, primalTolerance_);
   delete[] rowStartPos;
+  // tighten's work arrays are for this call only
+  delete[] markRow_;
+  delete[] lookColumn_;
+  markRow_ = NULL;
+  markColumn_ = NULL;
+  lookColumn_ = NULL;
   if (ninfeas) {
     // let someone else find out
     returnCode = 1;
-- 
2.43.0


From de510526081925adbb47d68c3f001e97a8d52d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:40 +0000
Subject: [PATCH 64/69] fix: CglProbing's assignment leaked or overran the
 implications it replaces

---
 src/CglProbing/CglProbing.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 4b5bd91..5ff78c2 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10537,6 +10537,10 @@ CglProbing::operator=(
     assert(markRow_ == NULL);
     assert(markColumn_ == NULL);
     assert(lookColumn_ == NULL);
+    for (int i = 0; i < number01Integers_; i++) {
+      delete[] cutVector_[i].index;
+    }
+    delete[] cutVector_;
     if (rhs.rowCopy_) {
       rowCopy_ = new CoinPackedMatrix(*(rhs.rowCopy_));
       columnCopy_ = new CoinPackedMatrix(*(rhs.columnCopy_));
@@ -10551,10 +10555,6 @@ CglProbing::operator=(
       int i;
       numberIntegers_ = rhs.numberIntegers_;
       number01Integers_ = rhs.number01Integers_;
-      for (i = 0; i < number01Integers_; i++) {
-        delete[] cutVector_[i].index;
-      }
-      delete[] cutVector_;
       cutVector_ = new disaggregation[number01Integers_];
       CoinMemcpyN(rhs.cutVector_, number01Integers_, cutVector_);
       for (i = 0; i < number01Integers_; i++) {
-- 
2.43.0


From daa4409d4058acdd22db6829f9ade05c46e682a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 65/69] fix: CglProbing::snapshot leaked the row activities
 tighten computes

---
 src/CglProbing/CglProbing.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 5ff78c2..65286bc 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10008,6 +10008,8 @@ int CglProbing::snapshot(const OsiSolverInterface &si,
   delete[] elements2;
 
   int returnCode = 0;
+  minR_ = new double[2 * numberRows_];
+  maxR_ = minR_ + numberRows_;
   int ninfeas = tighten(colLower_, colUpper_, column, rowElements,
     rowStart, rowStartPos, rowLength,
     si.getMatrixByCol(),
@@ -10015,6 +10017,9 @@ int CglProbing::snapshot(const OsiSolverInterface &si,
     numberRows_, numberColumns_, intVar, 5, primalTolerance_);
   delete[] rowStartPos;
   // tighten's work arrays are for this call only
+  delete[] minR_;
+  minR_ = NULL;
+  maxR_ = NULL;
   delete[] markRow_;
   delete[] lookColumn_;
   markRow_ = NULL;
-- 
2.43.0


From cbb9fa94d60da61eaec5d85cd9b39302741c39de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:44 +0000
Subject: [PATCH 66/69] fix: CglProbing lost the bounds of its snapshot in the
 first call

---
 src/CglProbing/CglProbing.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 65286bc..8b41fca 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -1390,10 +1390,13 @@ void CglProbing::generateCuts(const OsiSolverInterface &si, OsiCuts &cs,
   delete[] rowUpper;
   delete[] colLower;
   delete[] colUpper;
-  delete[] colLower_;
-  delete[] colUpper_;
-  colLower_ = NULL;
-  colUpper_ = NULL;
+  // keep bounds which belong to a snapshot
+  if (!rowCopy_) {
+    delete[] colLower_;
+    delete[] colUpper_;
+    colLower_ = NULL;
+    colUpper_ = NULL;
+  }
   rowCuts_ = saveRowCuts;
   return;
 }
-- 
2.43.0


From 13265243a9d71b1f225d8dbeffa9ec174a6bf23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:18 +0000
Subject: [PATCH 67/69] fix: CglProbing::snapshot left the bounds of its
 objective row unset

---
 src/CglProbing/CglProbing.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 8b41fca..48c6ea5 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10084,6 +10084,9 @@ int CglProbing::snapshot(const OsiSolverInterface &si,
     rowCopy_->appendRow(n, columns, elements);
     delete[] columns;
     delete[] elements;
+    // no cutoff yet
+    rowLower_[numberRows_] = -COIN_DBL_MAX;
+    rowUpper_[numberRows_] = COIN_DBL_MAX;
     numberRows_++;
   }
   // create column copy
-- 
2.43.0


From f5d7b92bc8b086c81456a5e1b3dff10ff4fba074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:25 +0000
Subject: [PATCH 68/69] fix: CglProbing::createCliques converted bounds out of
 the range of int

---
 src/CglProbing/CglProbing.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/CglProbing/CglProbing.cpp b/src/CglProbing/CglProbing.cpp
index 48c6ea5..e295b67 100644
--- a/src/CglProbing/CglProbing.cpp
+++ b/src/CglProbing/CglProbing.cpp
@@ -10732,8 +10732,9 @@ int CglProbing::createCliques(OsiSolverInterface &si,
         which[numberIntegers - numberM1] = iColumn;
       }
     }
-    int iUpper = upperValue > INT_MAX ? INT_MAX : static_cast< int >(floor(upperValue + 1.0e-5));
-    int iLower = lowerValue < INT_MIN ? INT_MIN : static_cast< int >(ceil(lowerValue - 1.0e-5));
+    // bounds out of range of int can not make a clique
+    int iUpper = fabs(upperValue) < 1.0e9 ? static_cast< int >(floor(upperValue + 1.0e-5)) : (upperValue > 0.0 ? INT_MAX : INT_MIN);
+    int iLower = fabs(lowerValue) < 1.0e9 ? static_cast< int >(ceil(lowerValue - 1.0e-5)) : (lowerValue > 0.0 ? INT_MAX : -INT_MAX);
     int state = 0;
     if (upperValue < 1.0e6) {
       if (iUpper == 1 - numberM1)
-- 
2.43.0


From 334abd686c3f371e8dc3c72037f73081c2903720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:02 +0000
Subject: [PATCH 69/69] fix: CglGMI::generateCpp exported calls of methods
 which do not exist

---
 src/CglGMI/CglGMI.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/CglGMI/CglGMI.cpp b/src/CglGMI/CglGMI.cpp
index 494cd24..a77d1d1 100644
--- a/src/CglGMI/CglGMI.cpp
+++ b/src/CglGMI/CglGMI.cpp
@@ -1421,25 +1421,25 @@ CglGMI::generateCpp(FILE * fp)
   fprintf(fp,"0#include \"CglGMI.hpp\"\n");
   fprintf(fp,"3  CglGMI GMI;\n");
   if (param.getMAX_SUPPORT()!=other.param.getMAX_SUPPORT())
-    fprintf(fp,"3  GMI.setLimit(%d);\n",param.getMAX_SUPPORT());
+    fprintf(fp,"3  GMI.getParam().setMAX_SUPPORT(%d);\n",param.getMAX_SUPPORT());
   else
-    fprintf(fp,"4  GMI.setLimit(%d);\n",param.getMAX_SUPPORT());
+    fprintf(fp,"4  GMI.getParam().setMAX_SUPPORT(%d);\n",param.getMAX_SUPPORT());
   if (param.getAway()!=other.param.getAway())
-    fprintf(fp,"3  GMI.setAway(%g);\n",param.getAway());
+    fprintf(fp,"3  GMI.getParam().setAway(%g);\n",param.getAway());
   else
-    fprintf(fp,"4  GMI.setAway(%g);\n",param.getAway());
+    fprintf(fp,"4  GMI.getParam().setAway(%g);\n",param.getAway());
   if (param.getEPS()!=other.param.getEPS())
-    fprintf(fp,"3  GMI.setEPS(%g);\n",param.getEPS());
+    fprintf(fp,"3  GMI.getParam().setEPS(%g);\n",param.getEPS());
   else
-    fprintf(fp,"4  GMI.setEPS(%g);\n",param.getEPS());
+    fprintf(fp,"4  GMI.getParam().setEPS(%g);\n",param.getEPS());
   if (param.getEPS_COEFF()!=other.param.getEPS_COEFF())
-    fprintf(fp,"3  GMI.setEPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"3  GMI.getParam().setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   else
-    fprintf(fp,"4  GMI.set.EPS_COEFF(%g);\n",param.getEPS_COEFF());
+    fprintf(fp,"4  GMI.getParam().setEPS_COEFF(%g);\n",param.getEPS_COEFF());
   if (param.getEPS_RELAX_ABS()!=other.param.getEPS_RELAX_ABS())
-    fprintf(fp,"3  GMI.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"3  GMI.getParam().setEPS_RELAX_ABS(%g);\n",param.getEPS_RELAX_ABS());
   else
-    fprintf(fp,"4  GMI.set.EPS_RELAX(%g);\n",param.getEPS_RELAX_ABS());
+    fprintf(fp,"4  GMI.getParam().setEPS_RELAX_ABS(%g);\n",param.getEPS_RELAX_ABS());
   if (getAggressiveness()!=other.getAggressiveness())
     fprintf(fp,"3  GMI.setAggressiveness(%d);\n",getAggressiveness());
   else
-- 
2.43.0

