From 0db88fa258ba605bd4c5ad3cdcd0257aff9f591d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 01/23] fix: pack_C_single_buf_n_first placed edge blocks at
 the wrong offset

The last block column (n_c_t < n_c) and the last block row (m_c_t < p*m_c)
were written at n*p*m_c*n_c_t instead of n*m_c_t*n_c, so they overlapped
earlier blocks or ran past the buffer, and unpack_C did not restore C.
---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..a0e2de1 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -202,7 +202,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From d6c0f1482d4b1c413e90a5005c7ff5d93d1beccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:48 +0000
Subject: [PATCH 02/23] fix: pack_B m-first/n-first read past the end of B on
 edge column tiles

The pad flag of pack_ob_B_single_buf asks for column bounds checks, but was
set for the last core of the last k block instead of the last n block, so the
edge columns of every other block were read outside the matrix.
---
 src/pack_m_first.cpp | 4 +---
 src/pack_n_first.cpp | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..a292aff 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,16 +122,14 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            bool pad = ((n == Nb - 1) && n_pad);
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index a0e2de1..9122844 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,16 +122,14 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
+            bool pad = ((n == Nb - 1) && n_pad);
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-- 
2.43.0


From b251e31385ef7b13a2ab2295d6eb97827e20e5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:36 +0000
Subject: [PATCH 03/23] fix: online and 2-D schedules read outside A and B on
 edge tiles

Edge register tiles were packed with the unchecked packing kernels, which read
rows beyond M and columns beyond N. Pack those tiles with the bounds-checked
packers, which also pad them with zeros.
---
 include/packing.h          | 23 +++++++++++++++++++++++
 src/cake_sgemm_k_first.cpp | 25 +++++++------------------
 2 files changed, 30 insertions(+), 18 deletions(-)

diff --git a/include/packing.h b/include/packing.h
index 1434d90..6a77634 100644
--- a/include/packing.h
+++ b/include/packing.h
@@ -128,4 +128,27 @@ inline void B_packing_kernel
 
 
 
+// pack the m_r x k_c tile of A that starts at row m. Rows beyond M are padded with zeros
+inline void pack_A_tile(float* A, float* A_p, int M, int K, int m, int k_c, int m_r) {
 
+	float kappa = 1.0;
+
+	if(m + m_r > M) {
+		pack_ob_A_single_buf(A, A_p, M, K, m, 0, m_r, k_c, m_r, 1);
+	} else {
+		A_packing_kernel(m_r, k_c, &kappa, A, K, 1, A_p, m_r);
+	}
+}
+
+
+// pack the k_c x n_r tile of B that starts at column n. Columns beyond N are padded with zeros
+inline void pack_B_tile(float* B, float* B_p, int K, int N, int n, int k_c, int n_r) {
+
+	float kappa = 1.0;
+
+	if(n + n_r > N) {
+		pack_ob_B_single_buf(B, B_p, K, N, n, k_c, n_r, n_r, 1);
+	} else {
+		B_packing_kernel(n_r, k_c, &kappa, B, 1, N, B_p, n_r);
+	}
+}
diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..2fcf65e 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -169,8 +169,6 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	int Kb = x->Kb;
  
 	int k, n2, m3, k_c_t, core, p_used;
-	float kappa = 1.0;
-	int lda = 1;
 	p_used = p;
 
 
@@ -190,8 +188,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	// } else {
     	#pragma omp parallel for private(n2)
       	for(n2 = 0; n2 < N_padded; n2 += n_r) {
-         	B_packing_kernel(n_r, k_c_t, &kappa, &B[k*k_c*N + n2], lda, N, 
-                                    &B_p[n2*k_c_t], n_r);
+         	pack_B_tile(&B[k*k_c*N + n2], &B_p[n2*k_c_t], K, N, n2, k_c_t, n_r);
       	}
    	// }
 
@@ -200,8 +197,7 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
    	// } else {          
     	#pragma omp parallel for private(m3)
 		for(m3 = 0; m3 < M_padded; m3 += m_r) {
-			A_packing_kernel(m_r, k_c_t, &kappa, &A[k*k_c + m3*K], K, lda, 
-				&A_p[m3*k_c_t], m_r);
+			pack_A_tile(&A[k*k_c + m3*K], &A_p[m3*k_c_t], M, K, m3, k_c_t, m_r);
 		}     
    	// }
 
@@ -295,8 +291,6 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 	int m, k, n, m1, n1, n2, m3, m_cb, n_cb, k_c_t, core;
 	int m_start, m_end, m_inc, k_start, k_end, k_inc;
 	int A_offset, B_offset, C_offset, p_used, p_used_m, p_used_n;
-	float kappa = 1.0;
-	int lda = 1;
 
 
 	for(n = 0; n < Nb; n++) {
@@ -377,8 +371,7 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
-			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
-			                                    &B_p[n2*k_c_t], n_r);
+			         	pack_B_tile(&B[B_offset + n2], &B_p[n2*k_c_t], K, N, n*pn*n_c + n2, k_c_t, n_r);
 			      	}
 				}
 		
@@ -388,8 +381,7 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
-						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
-							&A_p[m3*k_c_t], m_r);
+						pack_A_tile(&A[A_offset + m3*K], &A_p[m3*k_c_t], M, K, m*pm*m_c + m3, k_c_t, m_r);
 					}     
 				}
 
@@ -649,8 +641,6 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 
 	int m1, n1, n2, A_offset = 0, C_offset = 0;
 
-	float kappa = 1.0;
-	int lda = 1;
 
 
 
@@ -729,8 +719,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
-			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
-			                                    &B_p[n2*k_c_t], n_r);
+			         	pack_B_tile(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], K, N, n1 + n2, k_c_t, n_r);
 			      	}
 				}
 
@@ -758,8 +747,8 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
-							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
-								&A_p[core][m3*k_c_t], m_r);
+							pack_A_tile(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+								M, K, m*p*m_c + core*m_c_x + m3, k_c_t, m_r);
 						}     
 		            }
 
-- 
2.43.0


From 2541608869c77043c8cd9ce15914a3bda4906dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 04/23] fix: M-first, N-first and 2-D schedules ignored the
 register tile of the context

cake_sgemm_ukernel always called the 6x16 (8x12) kernel, so after
update_mr_nr() tiles packed for another register tile were multiplied with the
wrong kernel. Use the kernel the context selects, as schedule_KMN does.
---
 include/kernel_wrapper.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..c7a5edd 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -31,10 +31,8 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 	bli_sgemm_haswell_asm_6x16(m_r, n_r, k_c_t, &alpha_blis, A_p, B_p, &beta_blis, C_p, 
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
-#elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
-#elif USE_CAKE_ARMV8
-	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
+#elif defined(USE_CAKE_HASWELL) || defined(USE_CAKE_ARMV8)
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
 
 }
-- 
2.43.0


From 774f6f6aa322af6ad888407b80e1cf61fe13071f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 05/23] fix: alpha and beta were ignored

The K-first, online and 2-D schedules computed C = A*B whatever alpha and beta
were, and the M-first and N-first schedules took any nonzero beta as 1. Compute
the product into a temporary when scaling is requested and combine it with C;
beta = 0 never reads C.
---
 src/cake_sgemm.cpp | 105 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 81 insertions(+), 24 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..2f03087 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -2,6 +2,35 @@
 
 
 
+// C = alpha*AB + beta*C. C is not read when beta is 0
+static void scale_add(float* C, float* AB, int M, int N, float alpha, float beta) {
+
+	size_t len = ((size_t) M) * N;
+
+	if(beta == 0) {
+		for(size_t i = 0; i < len; i++) {
+			C[i] = alpha*AB[i];
+		}
+	} else {
+		for(size_t i = 0; i < len; i++) {
+			C[i] = alpha*AB[i] + beta*C[i];
+		}
+	}
+}
+
+
+static float* alloc_product(int M, int N) {
+
+	float* AB;
+	if(posix_memalign((void**) &AB, 64, ((size_t) M) * N * sizeof(float))) {
+		printf("posix memalign error\n");
+		exit(1);
+	}
+	return AB;
+}
+
+
+
 
 
 
@@ -10,6 +39,16 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, 
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
+	// the schedules compute C = A*B, so scale and accumulate the product separately
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_product(M, N);
+		double t = cake_sgemm(A, B, AB, M, N, K, p, cake_cntx, argv, 
+			packedA, packedB, 1, 0, sch, mcu, kcu, ncu);
+		scale_add(C, AB, M, N, alpha, beta);
+		free(AB);
+		return t;
+	}
+
 
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
@@ -109,31 +148,9 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	} else {
 
 		float *C_p;
-		// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-		// otherwise just allocate an empty C_p buffer
-		if(beta != 0) {
 
-			clock_gettime(CLOCK_REALTIME, &start);
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-			if(posix_memalign((void**) &C_p, 64, C_sz)) {
-				printf("posix memalign error\n");
-				exit(1);
-			}
-
-			pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-		    clock_gettime(CLOCK_REALTIME, &end);
-		    seconds = end.tv_sec - start.tv_sec;
-		    nanoseconds = end.tv_nsec - start.tv_nsec;
-		    diff_t = seconds + nanoseconds*1e-9;
-			if(DEBUG) printf("C pack time: %f \n", diff_t ); 
-
-		} else {
-
-		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-		    C_p = (float*) calloc(C_sz, sizeof(float));
-		}
+	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
+	    C_p = (float*) calloc(C_sz, sizeof(float));
 
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -180,6 +197,16 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, 
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
+	// the schedules compute C = A*B, so scale and accumulate the product separately
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_product(M, N);
+		double t = cake_sgemm_2d(A, B, AB, M, N, K, p, cake_cntx, argv, 
+			packedA, packedB, 1, 0, sch, mcu, kcu, ncu);
+		scale_add(C, AB, M, N, alpha, beta);
+		free(AB);
+		return t;
+	}
+
 
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
@@ -253,6 +280,16 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
+	// the schedules compute C = A*B, so scale and accumulate the product separately
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_product(M, N);
+		double t = cake_sgemm_2d_small(A, B, AB, M, N, K, p, cake_cntx, argv, 
+			packedA, packedB, 1, 0, sch);
+		scale_add(C, AB, M, N, alpha, beta);
+		free(AB);
+		return t;
+	}
+
 
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
@@ -398,6 +435,16 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, 
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
+	// the schedules compute C = A*B, so scale and accumulate the product separately
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_product(M, N);
+		double t = cake_sgemm_online(A, B, AB, M, N, K, p, cake_cntx, argv, 
+			packedA, packedB, 1, 0, sch, mcu, kcu, ncu);
+		scale_add(C, AB, M, N, alpha, beta);
+		free(AB);
+		return t;
+	}
+
 
 	if(cake_cntx == NULL) {
 		cake_cntx = cake_query_cntx();
@@ -472,6 +519,16 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
+	// the schedules compute C = A*B, so scale and accumulate the product separately
+	if(alpha != 1 || beta != 0) {
+		float* AB = alloc_product(M, N);
+		double t = cake_sgemm_test(A, B, AB, M, N, K, p, cake_cntx, argv, 
+			packedA, packedB, 1, 0, sch);
+		scale_add(C, AB, M, N, alpha, beta);
+		free(AB);
+		return t;
+	}
+
 	sch = KMN;
 
 	if(cake_cntx == NULL) {
-- 
2.43.0


From 81bbc6356d2edd39e8f02f7004ab3df7a875d938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:57 +0000
Subject: [PATCH 06/23] fix: cake_sgemm_test returned zeros

It dispatched through schedule(), whose K-first case is empty. Run
schedule_KMN directly, as cake_sgemm does.
---
 src/cake_sgemm.cpp | 48 ++++++++--------------------------------------
 1 file changed, 8 insertions(+), 40 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 2f03087..8efcef0 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -542,11 +542,11 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	// 	return 1;
 	// }
 
-	size_t A_sz, B_sz, C_sz;	
+	size_t A_sz, B_sz;	
 	struct timespec start, end, start1, end1;
 	long seconds, nanoseconds;
 	double diff_t, times;
-	float *A_p, *B_p, *C_p;
+	float *A_p, *B_p, *C_p[p];
 
 
 	clock_gettime(CLOCK_REALTIME, &start1);
@@ -601,35 +601,13 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 
-	// C = alpha*A*B + beta*C. If beta is !=0, we must explicitly pack C, 
-	// otherwise just allocate an empty C_p buffer
-	if(beta != 0) {
-
-		clock_gettime(CLOCK_REALTIME, &start);
-
-	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch);
-		if(posix_memalign((void**) &C_p, 64, C_sz)) {
-			printf("posix memalign error\n");
-			exit(1);
-		}
-
-		pack_C(C, C_p, M, N, p, x, cake_cntx, sch);
-
-	    clock_gettime(CLOCK_REALTIME, &end);
-	    seconds = end.tv_sec - start.tv_sec;
-	    nanoseconds = end.tv_nsec - start.tv_nsec;
-	    diff_t = seconds + nanoseconds*1e-9;
-		if(DEBUG) printf("C pack time: %f \n", diff_t ); 
-
-	} else {
-	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
-	    C_p = (float*) calloc(C_sz, sizeof(float));
+	for(int i = 0; i < p; i++) {
+		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
 	}
 
 	clock_gettime(CLOCK_REALTIME, &start);
 
-	// schedule_KMN_C_unpacked(A_p, B_p, C_p, M, N, K, p, cake_cntx, x);
-	schedule(A_p, B_p, C_p, M, N, K, p, cake_cntx, x, sch, 0, 0);
+	schedule_KMN(A_p, B_p, C, C_p, M, N, K, p, cake_cntx, x); 
 
     clock_gettime(CLOCK_REALTIME, &end);
     seconds = end.tv_sec - start.tv_sec;
@@ -639,17 +617,6 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	times = diff_t;
 
-	clock_gettime(CLOCK_REALTIME, &start);
-
-	unpack_C(C, C_p, M, N, p, x, cake_cntx, sch); 
-    // cake_sgemm_checker(A, B, C_p, N, M, K);
-
-    clock_gettime(CLOCK_REALTIME, &end);
-    seconds = end.tv_sec - start.tv_sec;
-    nanoseconds = end.tv_nsec - start.tv_nsec;
-    diff_t = seconds + nanoseconds*1e-9;
-	if(DEBUG) printf("unpacking time: %f \n", diff_t); 	// exit(1);
-
     clock_gettime(CLOCK_REALTIME, &end1);
     seconds = end1.tv_sec - start1.tv_sec;
     nanoseconds = end1.tv_nsec - start1.tv_nsec;
@@ -658,10 +625,11 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
-	free(C_p);
+	for(int i = 0; i < p; i++) {
+		free(C_p[i]);
+	}
 	free(x);
 
-
 	return times;
 }
 
-- 
2.43.0


From 0284c8da168c7d9783afdb70142cb477674bee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:53 +0000
Subject: [PATCH 07/23] fix: leaked lscpu pipes, child processes and internally
 queried contexts

get_num_physical_cores closed only the last of its three pipes and
get_cache_size never closed the second one; the GEMM entry points did not free
the context they query when the caller passes none.
---
 src/block_sizing.cpp |  7 ++++++-
 src/cake_sgemm.cpp   | 20 +++++++++++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..49b7686 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -105,6 +105,8 @@ int get_num_physical_cores() {
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
 	}
+
+	pclose(fp);
 	
 
 	char ret2[16];
@@ -121,7 +123,8 @@ int get_num_physical_cores() {
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
 	}
-	
+
+	pclose(fp);
 
 	char ret3[16];
 	char command3[128];
@@ -272,6 +275,7 @@ int get_cache_size(int level) {
 
 	if(fgets(ret, sizeof(ret), fp) == NULL) {
 		printf("lscpu error\n");
+		pclose(fp);
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
 		if(level == 2) {
 			return (32 * (1 << 10));
@@ -280,6 +284,7 @@ int get_cache_size(int level) {
 		}
 	}
 
+	pclose(fp);
 	len = strlen(ret) - 1;
 
 	// set cache size variables
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 8efcef0..ea2ced8 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -50,7 +50,8 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -187,6 +188,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return diff_t;
 }
@@ -208,7 +210,8 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -269,6 +272,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
@@ -291,7 +295,8 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -350,6 +355,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
@@ -446,7 +452,8 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -510,6 +517,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
@@ -531,7 +539,8 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
-	if(cake_cntx == NULL) {
+	bool own_cntx = (cake_cntx == NULL);
+	if(own_cntx) {
 		cake_cntx = cake_query_cntx();
 	}
 
@@ -629,6 +638,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 		free(C_p[i]);
 	}
 	free(x);
+	if(own_cntx) free(cake_cntx);
 
 	return times;
 }
-- 
2.43.0


From 8a028c6ae080f766d7aa6bdb7a51bae129600f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:12 +0000
Subject: [PATCH 08/23] fix: hardware discovery misread cache sizes and CPU
 models

Fractional (1.3M) and gigabyte sizes were truncated or ignored and could
overflow, an unreported L1 cache gave 0, the CPU model was taken from the
'Model name' line where lscpu prints it first (a Neoverse-N1 became model 1),
and an uninitialised buffer was parsed when no model was reported.
---
 src/block_sizing.cpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 49b7686..aa61485 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -1,4 +1,5 @@
 #include "cake.h"
+#include <limits.h>
 
 
 double clamp_val(double d, double min, double max) {
@@ -150,12 +151,13 @@ int get_num_physical_cores() {
 // find cache size at levels L1d,L1i,L2,and L3 using lscpu
 int get_cache_size(int level) {
 
-	int model_id, len, size = 0;
+	int model_id, len;
+	double size;
 	FILE *fp;
 	char ret[16];
 	char command[128];
 
-	sprintf(command, "lscpu | grep Model \
+	sprintf(command, "lscpu | grep Model: \
 					| head -1 \
 					| tr -dc '0-9'");
 	fp = popen(command, "r");
@@ -167,6 +169,7 @@ int get_cache_size(int level) {
 
 	if(fgets(ret, sizeof(ret), fp) == NULL) {
 		printf("lscpu error\n");
+		ret[0] = '\0';
 	}
 	
 	pclose(fp);
@@ -257,13 +260,15 @@ int get_cache_size(int level) {
 	if(level < 3) {
 		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9.]+[KMG]' \
+						| head -1 \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
 		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9.]+[KMG]' \
+						| head -1 \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	}
@@ -277,9 +282,9 @@ int get_cache_size(int level) {
 		printf("lscpu error\n");
 		pclose(fp);
 		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
+		if(level < 3) {
 			return (32 * (1 << 10));
-		} else if(level == 3) {
+		} else {
 			return (512 * (1 << 10));
 		}
 	}
@@ -287,19 +292,17 @@ int get_cache_size(int level) {
 	pclose(fp);
 	len = strlen(ret) - 1;
 
-	// set cache size variables
+	// set cache size variables. lscpu may print fractions e.g., 1.3M
+	size = atof(ret);
 	if(ret[len] == 'K') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 10);
+		size *= (1 << 10);
 	} else if(ret[len] == 'M') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 20);
+		size *= (1 << 20);
 	} else if(ret[len] == 'G') {
-		ret[len] = '\0';
-		size = atoi(ret) * (1 << 30);
+		size *= (1 << 30);
 	}
 
-	return size;
+	return (size < INT_MAX ? (int) size : INT_MAX);
 }
 
 
-- 
2.43.0


From 82bddfa0e450286779e37f666852d82932b11d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:13 +0000
Subject: [PATCH 09/23] fix: get_num_physical_cores divided by zero when lscpu
 reports no sockets

lscpu prints 'Socket(s): -' on many ARM machines; unreported values were also
parsed from uninitialised buffers. Count an unreported value as 1.
---
 src/block_sizing.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index aa61485..b29de8d 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -105,6 +105,7 @@ int get_num_physical_cores() {
 
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
+		ret1[0] = '\0';
 	}
 
 	pclose(fp);
@@ -123,6 +124,7 @@ int get_num_physical_cores() {
 
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
+		ret2[0] = '\0';
 	}
 
 	pclose(fp);
@@ -140,10 +142,16 @@ int get_num_physical_cores() {
 
 	if(fgets(ret3, sizeof(ret3), fp) == NULL) {
 		printf("lscpu error\n");
+		ret3[0] = '\0';
 	}
 
 	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+
+	// lscpu prints no number, or none at all, for values it does not know e.g., 'Socket(s): -'
+	int procs = cake_max(atoi(ret1), 1);
+	int threads = cake_max(atoi(ret2), 1);
+	int sockets = cake_max(atoi(ret3), 1);
+	return cake_max(procs / (threads*sockets), 1);
 }
 
 
-- 
2.43.0


From c62daf39141f93bb20adeaa0c578592aaad18e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 10/23] fix: grid_dims_2d read an uninitialised divisor

The search below the optimum stopped before the divisor 1, so for prime p and
similar cases 'low' was used uninitialised. Also let grid_gen.py build when
lscpu reports no socket or thread count, as get_num_physical_cores does.
---
 python/grid_gen.py   | 4 +++-
 src/block_sizing.cpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/grid_gen.py b/python/grid_gen.py
index d8dfac3..3461cd5 100644
--- a/python/grid_gen.py
+++ b/python/grid_gen.py
@@ -8,7 +8,9 @@ def get_num_cores():
 	ret1 = subprocess.check_output("grep -c ^processor /proc/cpuinfo", shell=True)
 	ret2 = subprocess.check_output("lscpu | grep Thread -m 1 | tr -dc '0-9'", shell=True)
 	ret3 = subprocess.check_output("lscpu | grep Socket -m 1 | tr -dc '0-9'", shell=True)
-	return int(int(ret1) / (int(ret2)*int(ret3)))
+	# count values that lscpu does not report as 1
+	procs, threads, sockets = [max(1,int(i or 1)) for i in (ret1, ret2, ret3)]
+	return max(1,procs // (threads*sockets))
 
 
 def factors(n):    
diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index b29de8d..62f2fe2 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -637,7 +637,7 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 			}
 		}
 
-		for(int i = (pn - 2); i > 0; i--) {
+		for(int i = (pn - 2); i >= 0; i--) {
 			if(grid_dims[ncores - p][i]) {
 				low = i;
 				break;
-- 
2.43.0


From 71b16425312d9e79126ceff5edc8da1937290f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:24 +0000
Subject: [PATCH 11/23] fix: divisor table had no rows for small thread counts

With 15 or more cores the table started at 0.1*ncores threads, and
grid_dims_2d indexed past it for smaller p.
---
 python/grid_gen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/grid_gen.py b/python/grid_gen.py
index 3461cd5..52ec90e 100644
--- a/python/grid_gen.py
+++ b/python/grid_gen.py
@@ -49,5 +49,5 @@ static bool grid_dims[%d][%d] = \n{\n''' % (len(factor_list), p)
 if __name__ == '__main__':
 	ncores = get_num_cores()
 	print("Generating possible processing grids given %d cores" % ncores)
-	gen_factor_table(ncores, 0.1)
+	gen_factor_table(ncores, 0)
 
-- 
2.43.0


From f199b04e90781a6eb20db244471fa8bef9769b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:19 +0000
Subject: [PATCH 12/23] fix: cake_query_cntx_torch left the core count and
 kernel index uninitialised

Block sizing divides by ncores and the schedules index kernel_map with
m_map/n_map.
---
 src/block_sizing.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 62f2fe2..999a3bd 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -25,13 +25,25 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
     ret->blis_cntx = NULL;
     ret->mr = 6;
     ret->nr = 16;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
     ret->mr = 8;
     ret->nr = 12;
+    ret->m_map = (ret->mr/MR_FACT) - (MR_MIN / MR_FACT);
+    ret->n_map = (ret->nr/NR_FACT) - (NR_MIN / NR_FACT);
 #endif
 
+	// these do not change between calls, so only query them once
+	static int L1 = get_cache_size(1);
+	static int ncores = get_num_physical_cores();
+
+	ret->L1 = L1;
+	ret->ncores = ncores;
+	ret->peak_dram_bw = 32 * 1e9; // TODO : hardcoded bw and flops on i9 for now
+	ret->peak_flops = 600 * 1e9;
 	ret->L2 = L2;
 	ret->L3 = L3;
 	return ret;
-- 
2.43.0


From 10c4cc1e5fd9da4748b7dc671c9160b16d2d235d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 13/23] fix: linear_backward scrambled the bias gradient;
 forward/backward leaked and reassigned their arguments

The transposed gradient was reshaped, not transposed back, before it was summed
over the batch. Outputs were never freed and the caller's tensor handles were
replaced by flattened copies.
---
 src/linear.cpp | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/linear.cpp b/src/linear.cpp
index efb730a..2ad6dd9 100644
--- a/src/linear.cpp
+++ b/src/linear.cpp
@@ -18,10 +18,11 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   int N = weight.size(0);
   int K = input.size(1);
   // printf("pytorch M = %d, N = %d, K = %d\n", M,N,K);
-  input = input.reshape({M*K}).contiguous();
-  weight = weight.t().reshape({N*K}).contiguous();
-  float* input_c = (float*) input.data_ptr<float>();
-  float* weight_c = (float*) weight.data_ptr<float>();
+  // the arguments are references, so do not assign to them
+  torch::Tensor input_flat = input.reshape({M*K}).contiguous();
+  torch::Tensor weight_flat = weight.t().reshape({N*K}).contiguous();
+  float* input_c = (float*) input_flat.data_ptr<float>();
+  float* weight_c = (float*) weight_flat.data_ptr<float>();
   float* output_c = (float*) calloc(M * N , sizeof( float ));
   int p = 10; // number of cores to use
 
@@ -36,9 +37,10 @@ torch::Tensor linear_forward(torch::Tensor& cache_sz, torch::Tensor& input,  tor
   // cake_sgemm call
   cake_cntx_t* cake_cntx = cake_query_cntx_torch(cache_sz[0].item<int>(), cache_sz[1].item<int>());
   cake_sgemm(input_c, weight_c, output_c, M, N, K, p, cake_cntx);
+  free(cake_cntx);
 
   auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto output = torch::from_blob((void*) output_c, {M*N}, options);
+  auto output = torch::from_blob((void*) output_c, {M*N}, free, options);
   output = output.reshape({M,N});
 
   if (bias.defined()) {
@@ -57,10 +59,11 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
   int M = grad_output.size(0);
   int N = weight.size(1);
   int K = grad_output.size(1);
-  grad_output = grad_output.reshape({M*K}).contiguous();
-  weight = weight.reshape({N*K}).contiguous();
-  float* grad_output_c = (float*) grad_output.data_ptr<float>();
-  float* weight_c = (float*) weight.data_ptr<float>();
+  // the arguments are references, so do not assign to them
+  torch::Tensor grad_output_flat = grad_output.reshape({M*K}).contiguous();
+  torch::Tensor weight_flat = weight.reshape({N*K}).contiguous();
+  float* grad_output_c = (float*) grad_output_flat.data_ptr<float>();
+  float* weight_c = (float*) weight_flat.data_ptr<float>();
   float* grad_input_c = (float*) calloc(M * N , sizeof( float ));
   int p = 10; // number of cores to use
 
@@ -68,26 +71,26 @@ std::vector<torch::Tensor> linear_backward(torch::Tensor& cache_sz, torch::Tenso
 
 
   auto options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, options);
+  auto grad_input = torch::from_blob((void*) grad_input_c, {M*N}, free, options);
   grad_input = grad_input.reshape({M,N});
 
-  grad_output = grad_output.reshape({M,K}).t();
-  int M1 = grad_output.size(0);
+  torch::Tensor grad_output_t = grad_output.t();
+  int M1 = grad_output_t.size(0);
   int K1 = input.size(0);
   int N1 = input.size(1);
-  grad_output = grad_output.reshape({M1*K1}).contiguous();
-  grad_output_c = (float*) grad_output.data_ptr<float>();
-  input = input.reshape({K1*N1}).contiguous();
-  float* input_c = (float*) input.data_ptr<float>();
+  grad_output_flat = grad_output_t.reshape({M1*K1}).contiguous();
+  grad_output_c = (float*) grad_output_flat.data_ptr<float>();
+  torch::Tensor input_flat = input.reshape({K1*N1}).contiguous();
+  float* input_c = (float*) input_flat.data_ptr<float>();
   float* grad_weight_c = (float*) calloc(M1 * N1 , sizeof( float ));
 
   cake_sgemm(grad_output_c, input_c, grad_weight_c, M1, N1, K1, p, cake_cntx);
+  free(cake_cntx);
 
   options = torch::TensorOptions().dtype(torch::kFloat32).device(torch::kCPU);
-  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, options);
+  auto grad_weight = torch::from_blob((void*) grad_weight_c, {M1*N1}, free, options);
   grad_weight = grad_weight.reshape({M1,N1});
 
-  grad_output = grad_output.reshape({K1,M1});
   auto grad_bias = bias.defined() ? grad_output.sum(0, /*keepdim=*/false) : torch::Tensor{};
 
   // auto grad_input = at::matmul(grad_output, weight);
-- 
2.43.0


From 59635693e92a22927c0c5c45a92859a441e75bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:38 +0000
Subject: [PATCH 14/23] fix: python/cake.py did not pass the cache sizes
 linear_cpp expects

forward and backward take the L2/L3 sizes as their first argument; every call
failed. cake_linear(bias=False) failed as well.
---
 python/cake.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/python/cake.py b/python/cake.py
index 3c2b5f4..b45bff9 100644
--- a/python/cake.py
+++ b/python/cake.py
@@ -5,6 +5,8 @@ from torch.autograd import Variable
 from torch.nn import Module, Parameter
 from torch.autograd import Function
 import linear_cpp
+import re
+import subprocess
 
 # linear_cpp = load(name = 'linear_cpp', 
 #                 sources = ['cake_pytorch_float/linear.cpp', 'cake_pytorch_float/block_sizing.cpp', 
@@ -15,18 +17,31 @@ import linear_cpp
 #                 extra_include_paths = ['.', '/usr/local/include/blis'], 
 #                 verbose=True)
 
+# L2 and L3 cache sizes in bytes, as reported by lscpu
+def get_cache_sz():
+    sizes = []
+    for level, col, default in (('L2', 'ONE-SIZE', '32K'), ('L3', 'ALL-SIZE', '512K')):
+        out = subprocess.check_output(['lscpu', '--caches=NAME,' + col]).decode()
+        size = re.search(level + r'\s+([0-9.]+)([KMG])', out)
+        num, unit = size.groups() if size else (default[:-1], default[-1])
+        sizes.append(int(float(num) * (1 << {'K': 10, 'M': 20, 'G': 30}[unit])))
+    return torch.tensor(sizes, dtype=torch.int32)
+
+cache_sz = get_cache_sz()
+
+
 class cake_linear_function(torch.autograd.Function):
     #
     @staticmethod
     def forward(ctx, data, weight, bias=None):
-        output = linear_cpp.forward(data, weight, bias)
+        output = linear_cpp.forward(cache_sz, data, weight, bias)
         ctx.save_for_backward(data, weight, bias, output)
         return output
     #
     @staticmethod
     def backward(ctx, grad_output): 
         data, weight, bias, output = ctx.saved_tensors
-        grad_input, grad_weight, grad_bias = linear_cpp.backward(grad_output, data, weight, bias)
+        grad_input, grad_weight, grad_bias = linear_cpp.backward(cache_sz, grad_output, data, weight, bias)
         return grad_input, grad_weight, grad_bias
         
 
@@ -42,7 +57,7 @@ class cake_linear(nn.Module):
         else:
             self.register_parameter('bias', None)
         self.weight.data.uniform_(-0.1, 0.1)
-        if bias is not None:
+        if self.bias is not None:
             self.bias.data.uniform_(-0.1, 0.1)
     #
     def forward(self, data):
-- 
2.43.0


From edb68e0a0a9a1ee946719c15ae20214a9e1f3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:01 +0000
Subject: [PATCH 15/23] fix: transpose_mat edge tiles wrote other threads'
 tiles

Each edge tile transposed everything up to the matrix border, so threads wrote
the same elements concurrently (and repeatedly). Limit it to its own tile.
---
 src/transpose.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..0791c4b 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,7 +18,7 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From 31937a81d9dfbc4c4b021e043b028b300e908440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 16/23] fix: the result checkers accepted NaN

A comparison with NaN is false, so a result full of NaN passed mat_equals,
cake_sgemm_checker and add_checker.
---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..339793c 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -146,7 +146,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(!(fabs(C_check[ind1] - C[ind1]) <= eps)) { // also catches NaN
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -221,7 +221,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(!(fabs(C_check[ind1] - C[ind1]) <= eps)) { // also catches NaN
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0


From 5a2f70d1527ec27917ff41c7baf3371f203e594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:18 +0000
Subject: [PATCH 17/23] fix: schedule_KMN_2d_small read past its packed buffers

Cores whose tile starts at or beyond the padded matrix border still multiplied a
full tile, reading past A_p and B_p.
---
 src/cake_sgemm_k_first.cpp | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 2fcf65e..9324fa2 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -163,9 +163,8 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	int m_r = cake_cntx->mr, n_r = cake_cntx->nr;
 	int m_map = cake_cntx->m_map, n_map = cake_cntx->n_map;
 
-	int m_c = x->m_c, k_c = x->k_c, n_c = x->n_c, pm = x->pm, pn = x->pn;
-	int m_c1 = x->m_c1, k_c1 = x->k_c1, n_c1 = x->n_c1;
-	int m_pad = x->m_pad, k_pad = x->k_pad, n_pad = x->n_pad;
+	int m_c = x->m_c, k_c = x->k_c, n_c = x->n_c, pn = x->pn;
+	int k_c1 = x->k_c1, k_pad = x->k_pad;
 	int Kb = x->Kb;
  
 	int k, n2, m3, k_c_t, core, p_used;
@@ -207,22 +206,11 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 
 			// These vars must be private to thread, 
 			// otherwise out of bounds memory access possible
-			int m_c_t, n_c_t, m_reg, n_reg, n1;
+			int m_c_t, n_c_t, m_reg, n_reg;
 
-			if(((core % pn) == (pn - 1)) && n_pad) {
-				n_c_t = n_c1;
-				n1 = (N - (N % n_c));
-			} else {
-				n_c_t = n_c;
-				n1 = (core % pn)*n_c;
-			}
-
-
-			if(((core / pn) == (pm - 1)) && m_pad) {
-				m_c_t = m_c1;
-			} else {
-				m_c_t = m_c;
-			}
+			// trailing cores may have a partial tile, or none at all
+			m_c_t = cake_max(cake_min(m_c, M_padded - (core / pn)*m_c), 0);
+			n_c_t = cake_max(cake_min(n_c, N_padded - (core % pn)*n_c), 0);
 
 			for(n_reg = 0; n_reg < (n_c_t / n_r); n_reg++) {
 				for(m_reg = 0; m_reg < (m_c_t / m_r); m_reg++) {	
@@ -256,8 +244,8 @@ void schedule_KMN_2d_small(float* A, float* B, float* C, float* A_p, float* B_p,
 	#pragma omp parallel for private(core)
 	for(core = 0; core < p_used; core++) {
 
-		int m_c_t = (((core / pn) == (pm - 1)) && m_pad) ? m_c1 : m_c;
-		int n_c_t = (((core % pn) == (pn - 1)) && n_pad) ? n_c1 : n_c; 
+		int m_c_t = cake_max(cake_min(m_c, M_padded - (core / pn)*m_c), 0);
+		int n_c_t = cake_max(cake_min(n_c, N_padded - (core % pn)*n_c), 0);
 
 		unpack_ob_C_single_buf(&C[(core / pn)*m_c*N + (core % pn)*n_c], C_p[core], 
 			M, N, 0, (core % pn)*n_c, (core / pn)*m_c, m_c_t, n_c_t, m_r, n_r);
-- 
2.43.0


From 723c949d45e915f69f72b2f6f09e5c74c74e06e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:21 +0000
Subject: [PATCH 18/23] fix: schedule_KMN_online threads raced on A_offset

---
 src/cake_sgemm_k_first.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index 9324fa2..284fda2 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -711,6 +711,8 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	}
 				}
 
+				A_offset = m*p*m_c*K + k*k_c;
+
 				// pragma omp here (i_c loop)
 				#pragma omp parallel for private(core)
 				for(core = 0; core < p_used; core++) {
@@ -727,8 +729,6 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						m_c_x = m_c; 
 					}
 
-					A_offset = m*p*m_c*K + k*k_c;
-
 			            // pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K], A_p[core], 
 			            //    M, K, m*p*m_c, core*m_c_x, m_c_t, k_c_t, m_r, pad);
 					if((k == k_start) && (m == m_start) && (n != 0))  {
-- 
2.43.0


From 6267a16c13aa8a264834e2d67d8400de7e5e2f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 19/23] fix: cake_sp_sgemm_haswell_3x32 addressed C rows with
 the stride of a 16-wide tile

The kernel keeps four vectors per row of C but indexed them as two, so all
updates to rows other than 0 went to the wrong place; b3 and b4 were not
declared, so the file did not compile.
---
 src/kernels/haswell/sparse.cpp | 42 +++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/kernels/haswell/sparse.cpp b/src/kernels/haswell/sparse.cpp
index 98a41dd..69ee4d0 100644
--- a/src/kernels/haswell/sparse.cpp
+++ b/src/kernels/haswell/sparse.cpp
@@ -143,7 +143,7 @@ void cake_sp_sgemm_haswell_3x32(float* A, float* B, float* C, int m, int n, int
 							int* nnz_outer, int* k_inds, int* loc_m) {
 
 	int m_cnt, k_ind;
-	__m256 a, b1, b2;
+	__m256 a, b1, b2, b3, b4;
 	__m256 c[3*4];
 
 	c[0]  = _mm256_loadu_ps(C);
@@ -182,10 +182,10 @@ void cake_sp_sgemm_haswell_3x32(float* A, float* B, float* C, int m, int n, int
 
 		for(int j = 0; j < m_cnt; j++) {
 			a = _mm256_broadcast_ss(A++);
-			c[*loc_m * 2] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 2]);
-			c[*loc_m * 2 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 2 + 1]);
-			c[*loc_m * 2 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 2 + 2]);
-			c[*loc_m * 2 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 2 + 3]);
+			c[*loc_m * 4] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 4]);
+			c[*loc_m * 4 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 4 + 1]);
+			c[*loc_m * 4 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 4 + 2]);
+			c[*loc_m * 4 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 4 + 3]);
 			loc_m++;
 		}
 
@@ -201,10 +201,10 @@ void cake_sp_sgemm_haswell_3x32(float* A, float* B, float* C, int m, int n, int
 
 		for(int j = 0; j < m_cnt; j++) {
 			a = _mm256_broadcast_ss(A++);
-			c[*loc_m * 2] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 2]);
-			c[*loc_m * 2 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 2 + 1]);
-			c[*loc_m * 2 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 2 + 2]);
-			c[*loc_m * 2 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 2 + 3]);
+			c[*loc_m * 4] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 4]);
+			c[*loc_m * 4 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 4 + 1]);
+			c[*loc_m * 4 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 4 + 2]);
+			c[*loc_m * 4 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 4 + 3]);
 			loc_m++;
 		}
 
@@ -220,10 +220,10 @@ void cake_sp_sgemm_haswell_3x32(float* A, float* B, float* C, int m, int n, int
 
 		for(int j = 0; j < m_cnt; j++) {
 			a = _mm256_broadcast_ss(A++);
-			c[*loc_m * 2] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 2]);
-			c[*loc_m * 2 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 2 + 1]);
-			c[*loc_m * 2 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 2 + 2]);
-			c[*loc_m * 2 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 2 + 3]);
+			c[*loc_m * 4] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 4]);
+			c[*loc_m * 4 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 4 + 1]);
+			c[*loc_m * 4 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 4 + 2]);
+			c[*loc_m * 4 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 4 + 3]);
 			loc_m++;
 		}
 
@@ -239,10 +239,10 @@ void cake_sp_sgemm_haswell_3x32(float* A, float* B, float* C, int m, int n, int
 
 		for(int j = 0; j < m_cnt; j++) {
 			a = _mm256_broadcast_ss(A++);
-			c[*loc_m * 2] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 2]);
-			c[*loc_m * 2 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 2 + 1]);
-			c[*loc_m * 2 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 2 + 2]);
-			c[*loc_m * 2 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 2 + 3]);
+			c[*loc_m * 4] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 4]);
+			c[*loc_m * 4 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 4 + 1]);
+			c[*loc_m * 4 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 4 + 2]);
+			c[*loc_m * 4 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 4 + 3]);
 			loc_m++;
 		}
 	}
@@ -261,10 +261,10 @@ void cake_sp_sgemm_haswell_3x32(float* A, float* B, float* C, int m, int n, int
 
 		for(int j = 0; j < m_cnt; j++) {
 			a = _mm256_broadcast_ss(A++);
-			c[*loc_m * 2] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 2]);
-			c[*loc_m * 2 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 2 + 1]);
-			c[*loc_m * 2 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 2 + 2]);
-			c[*loc_m * 2 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 2 + 3]);
+			c[*loc_m * 4] 	  =  _mm256_fmadd_ps(a, b1, c[*loc_m * 4]);
+			c[*loc_m * 4 + 1] =  _mm256_fmadd_ps(a, b2, c[*loc_m * 4 + 1]);
+			c[*loc_m * 4 + 2] =  _mm256_fmadd_ps(a, b3, c[*loc_m * 4 + 2]);
+			c[*loc_m * 4 + 3] =  _mm256_fmadd_ps(a, b4, c[*loc_m * 4 + 3]);
 			loc_m++;
 		}
 	}
-- 
2.43.0


From 5d6fae9983fa160fb94c8e345ab3d0fb31e66906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 20/23] fix: cake_sgemm_2d_small sized its buffers by k_c even
 when K is smaller

The panel depth was not limited by K, so for a tall matrix with a small K
M_padded*k_c overflowed an int: the call ended the process with a bogus
'posix memalign error', or packed past a buffer that was too small.
---
 src/block_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 999a3bd..03814d4 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -857,8 +857,8 @@ void init_block_dims_2d_small(int M, int N, int K, int p,
 
 	// based on mr*kc + kc*nr + mr*nr <= L1 
 	kc_max = ((cake_cntx->L1 / type_size) - m_r*n_r) / (m_r + n_r); 
-	k_c = K < kc_max ? K : kc_max;
 	k_c = (m_c > kc_max) ? kc_max : m_c;
+	k_c = K < k_c ? K : k_c;
 
 	m_c1 = M_padded - (pm - 1)*m_c;
 	n_c1 = N_padded - (pn - 1)*n_c;
-- 
2.43.0


From 0a39d0f63b821da496664c64653b5e56685afc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:41 +0000
Subject: [PATCH 21/23] fix: the 2-D entry points crashed on empty matrices

The processor grid divides by M and by the padded tile counts, so M = 0 or
N = 0 ended cake_sgemm_2d and cake_sgemm_2d_small with SIGFPE or SIGSEGV, and
K = 0 must not become the panel depth.
---
 src/block_sizing.cpp |  2 +-
 src/cake_sgemm.cpp   | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 03814d4..2b04b12 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -858,7 +858,7 @@ void init_block_dims_2d_small(int M, int N, int K, int p,
 	// based on mr*kc + kc*nr + mr*nr <= L1 
 	kc_max = ((cake_cntx->L1 / type_size) - m_r*n_r) / (m_r + n_r); 
 	k_c = (m_c > kc_max) ? kc_max : m_c;
-	k_c = K < k_c ? K : k_c;
+	k_c = (K && K < k_c) ? K : k_c;
 
 	m_c1 = M_padded - (pm - 1)*m_c;
 	n_c1 = N_padded - (pn - 1)*n_c;
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index ea2ced8..cb34565 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -199,6 +199,11 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, 
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
+	// nothing to compute, and an empty C has no processor grid
+	if(M == 0 || N == 0) {
+		return 0;
+	}
+
 	// the schedules compute C = A*B, so scale and accumulate the product separately
 	if(alpha != 1 || beta != 0) {
 		float* AB = alloc_product(M, N);
@@ -284,6 +289,11 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, int p, 
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
+	// nothing to compute, and an empty C has no processor grid
+	if(M == 0 || N == 0) {
+		return 0;
+	}
+
 	// the schedules compute C = A*B, so scale and accumulate the product separately
 	if(alpha != 1 || beta != 0) {
 		float* AB = alloc_product(M, N);
-- 
2.43.0


From 300dc1a635cd1f315b9486b393bd8f731a3b2780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 22/23] fix: the 2-D grid chooser read outside its table for
 more threads than cores

---
 src/block_sizing.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 2b04b12..8630001 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -626,6 +626,17 @@ void init_block_dims(int M, int N, int K, int p,
 
 
 
+// is d a factor of p. The static table only has rows for the cores it was generated for
+static bool is_factor(int p, int d, int ncores) {
+
+	int rows = sizeof(grid_dims) / sizeof(grid_dims[0]);
+	if(p > ncores || ncores != rows) {
+		return p % d == 0;
+	}
+	return grid_dims[ncores - p][d-1];
+}
+
+
 int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 
 	int pn, low, high, pn_ret;
@@ -638,19 +649,19 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 
 	// index into static table of factors to quickly find factor of p that is closest to optimal pn
 	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	if(is_factor(p, pn, ncores)) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if(is_factor(p, i+1, ncores)) {
 				high = i;
 				break;
 			}
 		}
 
 		for(int i = (pn - 2); i >= 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+			if(is_factor(p, i+1, ncores)) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From 7662a888871ffb060b346f26791889e21eff68b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:21 +0000
Subject: [PATCH 23/23] fix: the thread count of AMD Threadripper models was
 read from the model name

lscpu's 'Model name' line precedes 'Thread(s) per core' and matched 'Thread' first.
---
 src/block_sizing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 8630001..5f20d84 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -126,7 +126,7 @@ int get_num_physical_cores() {
 	char ret2[16];
 	char command2[128];
 
-	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
+	sprintf(command2, "lscpu | grep 'Thread(s)' -m 1 | tr -dc '0-9'");
 	fp = popen(command2, "r");
 
 	if (fp == NULL) {
-- 
2.43.0

