From 1ba89afcda94973e8a2e49c8836a5db39a3bdde3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:13 +0000
Subject: [PATCH 01/17] fix: N-first packing of C uses the block offsets the
 schedule accumulates into

The blocks of one row panel are m_c_t*n_c apart (as schedule_NKM and
unpack_C_single_buf_n_first have it). With a remainder panel in M or N the
old offset, n*p*m_c*n_c_t, placed C elsewhere, so beta != 0 lost or misplaced
elements and could write past the packed buffer.
---
 src/pack_n_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index 336f353..a0e2de1 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -202,7 +202,7 @@ void pack_C_single_buf_n_first(float* C, float* C_p, int M, int N, int p, blk_di
 
          C_offset = m*p*m_c*N + n*n_c;
 
-         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*p*m_c*n_c_t], 
+         pack_ob_C_single_buf(&C[C_offset], &C_p[C_p_offset + n*m_c_t*n_c], 
             M, N, m1, n1, 0, m_c_t, n_c_t, m_r, n_r, pad_m, pad_n);
       }
    }
-- 
2.43.0


From bc99d83a821819454098085be1bbaae50c464032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:40 +0000
Subject: [PATCH 02/17] fix: M-first and N-first packing of B pad on the N
 remainder, not on the K remainder

The flag passed to pack_ob_B_single_buf asked for column padding on the last
core of the K remainder. A column remainder in any other K block was packed
without the bounds check, and on the last row of B read past its end.
---
 src/pack_m_first.cpp | 5 +----
 src/pack_n_first.cpp | 5 +----
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/pack_m_first.cpp b/src/pack_m_first.cpp
index 1c3aa18..c8ed66a 100644
--- a/src/pack_m_first.cpp
+++ b/src/pack_m_first.cpp
@@ -122,20 +122,17 @@ void pack_B_m_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, (n == Nb - 1) && n_pad);
          }
 
          B_p_offset += k_cb*n_c_t;
diff --git a/src/pack_n_first.cpp b/src/pack_n_first.cpp
index a0e2de1..848a19c 100644
--- a/src/pack_n_first.cpp
+++ b/src/pack_n_first.cpp
@@ -122,20 +122,17 @@ void pack_B_n_first(float* B, float* B_p, int K, int N, int p, blk_dims_t* x, ca
          for(core = 0; core < p_used; core++) {
 
             int k_c_t, k_c_x;
-            bool pad;
 
             if((k == Kb - 1) && k_pad) {
                k_c_t = (core == (p_l - 1) ? k_c1_last_core : k_c1);
                k_c_x = k_c1;
-               pad = (core == (p_l - 1) ? 1 : 0);
             } else {
                k_c_t = k_c;
                k_c_x = k_c;
-               pad = 0;
             }
 
             pack_ob_B_single_buf(&B[B_offset + core*k_c_x*N], &B_p[B_p_offset + core*k_c_x*n_c_t], 
-               K, N, n1, k_c_t, n_c_t, n_r, pad);
+               K, N, n1, k_c_t, n_c_t, n_r, (n == Nb - 1) && n_pad);
          }
 
          B_p_offset += k_cb*n_c_t;
-- 
2.43.0


From 38ece932f7512a4a87e80fe6a753cb035e9a0a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:52 +0000
Subject: [PATCH 03/17] fix: online and 2-D drivers bounds-check the remainder
 panels they pack

A panel that straddles the last row of A or the last column of B was copied
with the unchecked packing kernel, which read past the end of the operand.
Use the bounds-checked packers for remainder panels, as the offline K-first
path does.
---
 src/cake_sgemm_k_first.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index d88b65d..c5a5152 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -377,8 +377,13 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(n2)
 			      	for(n2 = 0; n2 < n_cb; n2 += n_r) {
+			        	if((n == Nb - 1) && n_pad) {
+			        		pack_ob_B_single_buf(&B[B_offset + n2], &B_p[n2*k_c_t], 
+			        			K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			        	} else {
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[B_offset + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+			        	}
 			      	}
 				}
 		
@@ -388,8 +393,13 @@ void schedule_KMN_2d(float* A, float* B, float* C, float* A_p, float* B_p, float
 				} else {
 			    	#pragma omp parallel for private(m3)
 					for(m3 = 0; m3 < m_cb; m3 += m_r) {
+						if((m == Mb - 1) && m_pad) {
+							pack_ob_A_single_buf(&A[A_offset + m3*K], &A_p[m3*k_c_t], 
+								M, K, m1, m3, m_r, k_c_t, m_r, 1);
+						} else {
 						A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + m3*K], K, lda, 
 							&A_p[m3*k_c_t], m_r);
+						}
 					}     
 				}
 
@@ -729,8 +739,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 			      	for(n2 = 0; n2 < n_c_t; n2 += n_r) {
 			        	 // bli_spackm_haswell_asm_16xk(n_r, k_c, &kappa, &B[n1 + k1*N + n2], lda, N, 
 			         	//                            &B_p[ind1 + (k1/k_c)*k_c*n_c + n2*k_c], n_r);
+			        	if((n == Nb - 1) && n_pad) {
+			        		pack_ob_B_single_buf(&B[n1 + k*k_c*N + n2], &B_p[n2*k_c_t], 
+			        			K, N, n1 + n2, k_c_t, n_r, n_r, 1);
+			        	} else {
 			         	B_packing_kernel(n_r, k_c_t, &kappa, &B[n1 + k*k_c*N + n2], lda, N, 
 			                                    &B_p[n2*k_c_t], n_r);
+			        	}
 			      	}
 				}
 
@@ -758,8 +773,13 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 						// printf("reuse A\n");
 					} else {
 						for(int m3 = 0; m3 < m_c_t; m3 += m_r) {
+							if((m == Mb - 1) && m_pad) {
+								pack_ob_A_single_buf(&A[A_offset + core*m_c_x*K + m3*K], &A_p[core][m3*k_c_t], 
+									M, K, m1, core*m_c_x + m3, m_r, k_c_t, m_r, 1);
+							} else {
 							A_packing_kernel(m_r, k_c_t, &kappa, &A[A_offset + core*m_c_x*K + m3*K], K, lda, 
 								&A_p[core][m3*k_c_t], m_r);
+							}
 						}     
 		            }
 
-- 
2.43.0


From 0cdb23b5c71006e636b7b5fe81778d53a4ec38fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 04/17] fix: drivers release the context they query when the
 caller passes none

---
 src/cake_sgemm.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index e708fa0..507af68 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -11,8 +11,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -170,6 +172,7 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedA) free(A_p);
 	if(!packedB) free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return diff_t;
 }
@@ -181,8 +184,10 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -242,6 +247,7 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -254,8 +260,10 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	cake_cntx_t* cake_cntx, char* argv[], bool packedA, bool packedB, float alpha, float beta, enum sched sch) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -313,6 +321,7 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -399,8 +408,10 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	float alpha, float beta, enum sched sch, int mcu, int kcu, int ncu) {
 
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -463,6 +474,7 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 	free(B_p);
 	free(x);
+	free(own_cntx);
 
 	return times;
 }
@@ -474,8 +486,10 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	sch = KMN;
 
+	cake_cntx_t* own_cntx = NULL;
 	if(cake_cntx == NULL) {
-		cake_cntx = cake_query_cntx();
+		own_cntx = cake_query_cntx();
+		cake_cntx = own_cntx;
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
@@ -603,6 +617,7 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	if(!packedB) free(B_p);
 	free(C_p);
 	free(x);
+	free(own_cntx);
 
 
 	return times;
-- 
2.43.0


From d6105bc392672ab6ecd9c7c3594d3fa5672e0483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:02 +0000
Subject: [PATCH 05/17] fix: stop with a diagnostic when malloc or calloc fails

posix_memalign was checked everywhere, malloc and calloc nowhere: a failed
allocation was dereferenced (or cleared) instead of being reported.
---
 src/block_sizing.cpp | 12 ++++++++++++
 src/cake_sgemm.cpp   | 44 ++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 1c686c7..2a1aacc 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -10,6 +10,10 @@ double clamp_val(double d, double min, double max) {
 cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+	if(ret == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
  
@@ -40,6 +44,10 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 cake_cntx_t* cake_query_cntx() {
 
     cake_cntx_t* ret = (cake_cntx_t*) malloc(sizeof(cake_cntx_t));
+	if(ret == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
     double alpha_n = 1.0;
     ret->alpha_n = alpha_n;
 	ret->L1 = get_cache_size(1);
@@ -352,6 +360,10 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	}
 
     cache_dims_t* blk_ret = (cache_dims_t*) malloc(sizeof(cache_dims_t));
+	if(blk_ret == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 
 	// set schedule to MEMA-derived optimal value or user-defined
 	blk_ret->sch = (sch == NA ? 
diff --git a/src/cake_sgemm.cpp b/src/cake_sgemm.cpp
index 507af68..35a3758 100644
--- a/src/cake_sgemm.cpp
+++ b/src/cake_sgemm.cpp
@@ -18,6 +18,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -92,6 +96,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		for(int i = 0; i < p; i++) {
 			C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+			if(C_p[i] == NULL) {
+				printf("calloc error\n");
+				exit(1);
+			}
 		}
 
 		clock_gettime(CLOCK_REALTIME, &start);
@@ -135,6 +143,10 @@ double cake_sgemm(float* A, float* B, float* C, int M, int N, int K, int p,
 
 		    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
 		    C_p = (float*) calloc(C_sz, sizeof(float));
+			if(C_p == NULL) {
+				printf("calloc error\n");
+				exit(1);
+			}
 		}
 
 
@@ -191,6 +203,10 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -227,6 +243,10 @@ double cake_sgemm_2d(float* A, float* B, float* C, int M, int N, int K, int p,
 
 	for(int i = 0; i < p; i++) {
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		if(C_p[i] == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -267,6 +287,10 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -301,6 +325,10 @@ double cake_sgemm_2d_small(float* A, float* B, float* C, int M, int N, int K, in
 
 	for(int i = 0; i < p; i++) {
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		if(C_p[i] == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -415,6 +443,10 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -453,6 +485,10 @@ double cake_sgemm_online(float* A, float* B, float* C, int M, int N, int K, int
 
 	for(int i = 0; i < p; i++) {
 		C_p[i] = (float*) calloc(x->m_c * x->n_c, sizeof(float));
+		if(C_p[i] == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 	
 	clock_gettime(CLOCK_REALTIME, &start);
@@ -493,6 +529,10 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	}
 
 	blk_dims_t* x = (blk_dims_t*) malloc(sizeof(blk_dims_t));
+	if(x == NULL) {
+		printf("malloc error\n");
+		exit(1);
+	}
 	omp_set_num_threads(p);
 
 	// if(cake_gemm_small(A, B, C, M, N, K, p, x, cake_cntx, sch)) {
@@ -581,6 +621,10 @@ double cake_sgemm_test(float* A, float* B, float* C, int M, int N, int K, int p,
 	} else {
 	    C_sz = cake_sgemm_packed_C_size(M, N, p, x, cake_cntx, sch) / sizeof(float);
 	    C_p = (float*) calloc(C_sz, sizeof(float));
+		if(C_p == NULL) {
+			printf("calloc error\n");
+			exit(1);
+		}
 	}
 
 	clock_gettime(CLOCK_REALTIME, &start);
-- 
2.43.0


From 8084bc5f0f026c89c362d62549b1e539d34d83d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:34 +0000
Subject: [PATCH 06/17] fix: get_num_physical_cores closes every pipe and
 survives empty probe output

Two of the three pipes were never closed, and a probe that printed nothing
left its buffer uninitialised (or zero, dividing by zero).
---
 src/block_sizing.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 2a1aacc..63a0d9a 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -99,7 +99,7 @@ void update_mr_nr(cake_cntx_t* cake_cntx, int m_r, int n_r) {
 int get_num_physical_cores() {
 
 	FILE *fp;
-	char ret1[16];
+	char ret1[16] = "";
 	char command1[128];
 
 	sprintf(command1, "grep -c ^processor /proc/cpuinfo");
@@ -113,9 +113,10 @@ int get_num_physical_cores() {
 	if(fgets(ret1, sizeof(ret1), fp) == NULL) {
 		printf("cpuinfo error\n");
 	}
+	pclose(fp);
 	
 
-	char ret2[16];
+	char ret2[16] = "";
 	char command2[128];
 
 	sprintf(command2, "lscpu | grep Thread -m 1 | tr -dc '0-9'");
@@ -129,9 +130,10 @@ int get_num_physical_cores() {
 	if(fgets(ret2, sizeof(ret2), fp) == NULL) {
 		printf("lscpu error\n");
 	}
+	pclose(fp);
 	
 
-	char ret3[16];
+	char ret3[16] = "";
 	char command3[128];
 
 	sprintf(command3, "lscpu | grep Socket -m 1 | tr -dc '0-9'");
@@ -147,7 +149,10 @@ int get_num_physical_cores() {
 	}
 
 	pclose(fp);
-	return atoi(ret1) / (atoi(ret2)*atoi(ret3));
+	// a probe that printed nothing usable counts as one
+	int threads = atoi(ret2), sockets = atoi(ret3);
+	int cores = atoi(ret1) / ((threads > 0 ? threads : 1) * (sockets > 0 ? sockets : 1));
+	return (cores > 0 ? cores : 1);
 }
 
 
-- 
2.43.0


From b27d7d44c12bd801ccf7a27e0e0d13856c174d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:48 +0000
Subject: [PATCH 07/17] fix: get_cache_size closes its pipe and falls back when
 lscpu gives no usable size

An empty or unparsable answer left the answer of the previous probe (or
garbage) to be parsed and could return 0, and later divide by a zero tile.
Sizes in G were never matched ("0-9*G") and would have overflowed int.
---
 src/block_sizing.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 63a0d9a..90b789f 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -162,7 +162,7 @@ int get_cache_size(int level) {
 
 	int model_id, len, size = 0;
 	FILE *fp;
-	char ret[16];
+	char ret[16] = "";
 	char command[128];
 
 	sprintf(command, "lscpu | grep Model \
@@ -267,13 +267,13 @@ int get_cache_size(int level) {
 	if(level < 3) {
 		sprintf(command, "lscpu --caches=NAME,ONE-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9]*M|[0-9]*K|[0-9]*G' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	} else {
 		sprintf(command, "lscpu --caches=NAME,ALL-SIZE \
 						| grep L%d \
-						| grep -Eo '[0-9]*M|[0-9]*K|0-9*G' \
+						| grep -Eo '[0-9]*M|[0-9]*K|[0-9]*G' \
 						| tr -d '\n'", level);
 		fp = popen(command, "r");
 	}
@@ -285,15 +285,12 @@ int get_cache_size(int level) {
 
 	if(fgets(ret, sizeof(ret), fp) == NULL) {
 		printf("lscpu error\n");
-		// quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
-		if(level == 2) {
-			return (32 * (1 << 10));
-		} else if(level == 3) {
-			return (512 * (1 << 10));
-		}
+		ret[0] = '\0';
 	}
 
+	pclose(fp);
 	len = strlen(ret) - 1;
+	len = (len < 0) ? 0 : len;
 
 	// set cache size variables
 	if(ret[len] == 'K') {
@@ -304,7 +301,12 @@ int get_cache_size(int level) {
 		size = atoi(ret) * (1 << 20);
 	} else if(ret[len] == 'G') {
 		ret[len] = '\0';
-		size = atoi(ret) * (1 << 30);
+		size = (atoi(ret) > 1 ? 1 : atoi(ret)) * (1 << 30);
+	}
+
+	// no usable answer: quick hack for raspberry pi 3 cache sizes (32 KiB L1, 512 KiB L2 shared)
+	if(size <= 0) {
+		size = (level == 3) ? (512 * (1 << 10)) : (32 * (1 << 10));
 	}
 
 	return size;
-- 
2.43.0


From 7fd605668d99c0ef446529b26907b481edc7c4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 08/17] fix: 2-D grid selection works for every thread count

The factor table was indexed with ncores - p, out of bounds for p > ncores
(and for p below the smallest row generated), and the search for the next
smaller factor skipped 1, leaving it uninitialised (e.g. p=5, pn=2).
---
 src/block_sizing.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 90b789f..6b5a00a 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -619,7 +619,7 @@ void init_block_dims(int M, int N, int K, int p,
 
 int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 
-	int pn, low, high, pn_ret;
+	int pn, low = 0, high = p - 1, pn_ret;
 	
 	// optimal pn
 	pn = (int) roundf(sqrt(((double) p*N) / M));
@@ -627,21 +627,21 @@ int grid_dims_2d(int M, int N, int K, int p, int ncores) {
 	pn = (pn > p) ? p : pn;
 
 
-	// index into static table of factors to quickly find factor of p that is closest to optimal pn
-	// table is created at library creation
-	if(grid_dims[ncores - p][pn-1]) {
+	// find the factor of p that is closest to optimal pn. The table created at library creation 
+	// only has rows for thread counts of the build machine, so test for divisibility instead
+	if(p % pn == 0) {
 		pn_ret = pn;
 		// pm = p / pn;
 	} else {
 		for(int i = pn; i < p; i++) {
-			if(grid_dims[ncores - p][i]) {
+			if(p % (i + 1) == 0) {
 				high = i;
 				break;
 			}
 		}
 
-		for(int i = (pn - 2); i > 0; i--) {
-			if(grid_dims[ncores - p][i]) {
+		for(int i = (pn - 2); i >= 0; i--) {
+			if(p % (i + 1) == 0) {
 				low = i;
 				break;
 			}
-- 
2.43.0


From 7fdaafac0be7142571dc6880af3ebf213b92af32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 09/17] fix: cake_query_cntx_torch fills in every field the
 drivers read

L1, ncores and the kernel table indices were left uninitialised; get_cache_dims
divides by ncores and the K-first schedule calls through the table.
---
 src/block_sizing.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 6b5a00a..aac8943 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -26,17 +26,19 @@ cake_cntx_t* cake_query_cntx_torch(int L2, int L3) {
 
 #elif USE_CAKE_HASWELL
     ret->blis_cntx = NULL;
-    ret->mr = 6;
-    ret->nr = 16;
+    update_mr_nr(ret, MR_MIN, NR_MIN);
 
 #elif USE_CAKE_ARMV8
     ret->blis_cntx = NULL;
-    ret->mr = 8;
-    ret->nr = 12;
+    update_mr_nr(ret, MR_MIN, NR_MIN);
 #endif
 
+	ret->L1 = get_cache_size(1);
 	ret->L2 = L2;
 	ret->L3 = L3;
+	ret->ncores = get_num_physical_cores();
+	ret->peak_dram_bw = 32 * 1e9; // TODO : hardcoded bw and flops on i9 for now
+	ret->peak_flops = 600 * 1e9;
 	return ret;
 }
 
-- 
2.43.0


From 3ede192deea178597b31862e7809e91cb9743c32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 10/17] fix: cake_sgemm_ukernel runs the kernel of the
 context's register tile

It always ran the smallest kernel, so after update_mr_nr the M-first, N-first
and 2-D drivers computed with another tile than the data was packed for.
---
 include/kernel_wrapper.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/kernel_wrapper.h b/include/kernel_wrapper.h
index 6870f6c..e809358 100644
--- a/include/kernel_wrapper.h
+++ b/include/kernel_wrapper.h
@@ -32,9 +32,9 @@ inline void cake_sgemm_ukernel(float* A_p, float* B_p, float* C_p,
 		(inc_t) n_r, (inc_t) 1, &def_data, (cntx_t*) cake_cntx->blis_cntx);
 
 #elif USE_CAKE_HASWELL
-	cake_sgemm_haswell_6x16(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #elif USE_CAKE_ARMV8
-	cake_sgemm_armv8_8x12(A_p, B_p, C_p, m_r, n_r, k_c_t);
+	kernel_map[cake_cntx->m_map][cake_cntx->n_map](A_p, B_p, C_p, m_r, n_r, k_c_t);
 #endif
 
 }
-- 
2.43.0


From 143eb1531c07b84a79ccce3f9a6a9b75779db0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:29 +0000
Subject: [PATCH 11/17] fix: transpose_mat edge blocks copy one 8x8 block, not
 the rest of the matrix

An edge block copied all remaining rows and columns, so different threads of
the parallel loop wrote the same elements.
---
 src/transpose.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/transpose.cpp b/src/transpose.cpp
index 6a03906..615c81c 100644
--- a/src/transpose.cpp
+++ b/src/transpose.cpp
@@ -18,7 +18,8 @@ void transpose_mat(float* A_old, float* At, int K, int N, int Kt, int Nt) {
 				for(int kk = k; kk < k + kt; kk+=kr) { 
 		
 					if((nn + nr > N) || (kk + kr > K)) {
-						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, N - nn, K - kk);			
+						transpose_mxn(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb, 
+							cake_min(nr, N - nn), cake_min(kr, K - kk));			
 					} else {
 						transpose_8x8(&A_old[kk*N + nn], &At[nn*K + kk], lda, ldb);
 					}
-- 
2.43.0


From ed2fbc94d0a70ec93832150b0cd60fb437b34f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 12/17] fix: block sizing does not write to the caller's
 context

get_cache_dims stored alpha_n in the context and read it back, so concurrent
calls sharing one context raced and could size blocks with each other's alpha.
---
 src/block_sizing.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index aac8943..994a210 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -322,6 +322,10 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 			cake_cntx_t* cake_cntx, enum sched sch, 
 			char* argv[], float type_size, int mcu, int kcu, int ncu) {
 
+	// alpha is derived per call; the caller's context may be shared and is not written
+	cake_cntx_t call_cntx = *cake_cntx;
+	cake_cntx = &call_cntx;
+
 	int mc, mc_ret, nc_ret, a, mc_L2 = 0, mc_L3 = 0, kc_L1 = 0;
 	int max_threads = cake_cntx->ncores; // 2-way hyperthreaded
 	// int mn_lcm = lcm(mr, nr);
@@ -690,7 +694,6 @@ void init_block_dims_2d(int M, int N, int K, int p,
 		k_c = kcu;
 		k_c1 = K % k_c;
 		n_c = ncu;
-		cake_cntx->alpha_n = 1.0;
 	} else {
 		// based on mc*kc + nr*kc + mc*nc <= L2
 		m_c = (int) ((-n_r + sqrt(1.0*n_r*n_r + 4.0*2*(((double) cake_cntx->L2) / 4.0))) / (2.0*2));
-- 
2.43.0


From 7b12bc5f95952cfcb5cbae940bba227595d4b670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:50 +0000
Subject: [PATCH 13/17] fix: tiles derived from very small caches are at least
 one register tile

A cache too small for one tile gave m_c = 0 (division by zero) or k_c <= 0
(no K block was ever computed).
---
 src/block_sizing.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block_sizing.cpp b/src/block_sizing.cpp
index 994a210..826b24c 100644
--- a/src/block_sizing.cpp
+++ b/src/block_sizing.cpp
@@ -340,6 +340,7 @@ cache_dims_t* get_cache_dims(int M, int N, int K, int p,
 	mc_L2 = (int)  ((-b + sqrt(b*b + 4*(((double) cake_cntx->L2) / (2*type_size)))) / 2.0) ;
 	// mc_L2 -= (mc_L2 % mn_lcm);
 	mc_L2 -= (mc_L2 % mr);
+	mc_L2 = (mc_L2 < mr) ? mr : mc_L2;
 	// printf("mc_L2 = %d\n", mc_L2);
 
 
@@ -698,7 +699,8 @@ void init_block_dims_2d(int M, int N, int K, int p,
 		// based on mc*kc + nr*kc + mc*nc <= L2
 		m_c = (int) ((-n_r + sqrt(1.0*n_r*n_r + 4.0*2*(((double) cake_cntx->L2) / 4.0))) / (2.0*2));
 		m_c -= (m_c % m_r);
-		k_c = kc_max;
+		m_c = (m_c < m_r) ? m_r : m_c;
+		k_c = (kc_max < 1) ? 1 : kc_max;
 		k_c1 = K % k_c;
 	}
 
-- 
2.43.0


From e53d32539e805025ea7abfbaebeb76f3db45fe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 14/17] fix: schedule_KMN_online keeps the per-iteration offset
 into A private

---
 src/cake_sgemm_k_first.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cake_sgemm_k_first.cpp b/src/cake_sgemm_k_first.cpp
index c5a5152..8188cc3 100644
--- a/src/cake_sgemm_k_first.cpp
+++ b/src/cake_sgemm_k_first.cpp
@@ -750,7 +750,7 @@ void schedule_KMN_online(float* A, float* B, float* C, float** A_p, float* B_p,
 				}
 
 				// pragma omp here (i_c loop)
-				#pragma omp parallel for private(core)
+				#pragma omp parallel for private(core,A_offset)
 				for(core = 0; core < p_used; core++) {
 
 					// These vars must be private to thread, 
-- 
2.43.0


From 586e96df4fb0550f4ef4142af5712ebcd0aef66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 15/17] fix: check the allocations of the self-test helpers

---
 src/util.cpp | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/util.cpp b/src/util.cpp
index 2c7bd56..7633ec9 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -26,6 +26,10 @@ int run_tests() {
 					A = (float*) malloc(M * K * sizeof( float ));
 					B = (float*) malloc(K * N * sizeof( float ));
 					C = (float*) calloc(M * N , sizeof( float ));
+					if(A == NULL || B == NULL || C == NULL) {
+						printf("malloc error\n");
+						exit(1);
+					}
 				    srand(time(NULL));
 
 					rand_init(A, M, K);
@@ -47,6 +51,10 @@ int run_tests() {
 					A = (float*) malloc(M * K * sizeof( float ));
 					B = (float*) malloc(K * N * sizeof( float ));
 					C = (float*) calloc(M * N , sizeof( float ));
+					if(A == NULL || B == NULL || C == NULL) {
+						printf("malloc error\n");
+						exit(1);
+					}
 				    srand(time(NULL));
 
 					rand_init(A, M, K);
@@ -67,6 +75,10 @@ int run_tests() {
 					A = (float*) malloc(M * K * sizeof( float ));
 					B = (float*) malloc(K * N * sizeof( float ));
 					C = (float*) calloc(M * N , sizeof( float ));
+					if(A == NULL || B == NULL || C == NULL) {
+						printf("malloc error\n");
+						exit(1);
+					}
 				    srand(time(NULL));
 
 					rand_init(A, M, K);
@@ -88,6 +100,10 @@ int run_tests() {
 					A = (float*) malloc(M * K * sizeof( float ));
 					B = (float*) malloc(K * N * sizeof( float ));
 					C = (float*) calloc(M * N , sizeof( float ));
+					if(A == NULL || B == NULL || C == NULL) {
+						printf("malloc error\n");
+						exit(1);
+					}
 				    srand(time(NULL));
 
 					rand_init(A, M, K);
@@ -107,6 +123,10 @@ int run_tests() {
 					A = (float*) malloc(M * K * sizeof( float ));
 					B = (float*) malloc(K * N * sizeof( float ));
 					C = (float*) calloc(M * N , sizeof( float ));
+					if(A == NULL || B == NULL || C == NULL) {
+						printf("malloc error\n");
+						exit(1);
+					}
 				    srand(time(NULL));
 
 					rand_init(A, M, K);
@@ -173,6 +193,10 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 
 	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	if(C_check == NULL) {
+		printf("calloc error\n");
+		exit(1);
+	}
 
 	for(int k = 0; k < K; k++) {
 		#pragma omp parallel for
@@ -207,6 +231,10 @@ bool cake_sgemm_checker(float* A, float* B, float* C, int N, int M, int K) {
 bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
 	float* C_check = (float*) calloc(M * N , sizeof( float ));
+	if(C_check == NULL) {
+		printf("calloc error\n");
+		exit(1);
+	}
 
 	for(int c = 0; c < p; c++) {
 		for(int i = 0; i < M*N; i++) {
-- 
2.43.0


From 85539d05c0de40e5ed543e8d71f7cc815091fe90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:46 +0000
Subject: [PATCH 16/17] fix: run_tests releases its context

---
 src/util.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util.cpp b/src/util.cpp
index 7633ec9..2dab53c 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -152,6 +152,7 @@ int run_tests() {
 		printf("ALL TESTS PASSED!\n");
 	}
 
+	free(cake_cntx);
 	return 0;
 }
 
-- 
2.43.0


From 39589630c16e29fa1d6972697138272dfdee269a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:17 +0000
Subject: [PATCH 17/17] fix: the self-checkers accepted NaN as a correct
 element

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2dab53c..12dc5ca 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -167,7 +167,7 @@ bool mat_equals(float* C, float* C_check, int M, int N) {
 	for(int m = 0; m < M; m++) {
 	    for(int n = 0; n < N; n++) {
 	        // if(C_check[m1*N + n1] != C[ind1]) {
-	        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+	        if(!(fabs(C_check[ind1] - C[ind1]) <= eps)) {
 	            cnt++;
 	            CORRECT = 0;
 	        }
@@ -250,7 +250,7 @@ bool add_checker(float** C_arr, float* C, int M, int N, int p) {
 
     for(int i = 0; i < M*N; i++) {
         // if(C_check[m1*N + n1] != C[ind1]) {
-        if(fabs(C_check[ind1] - C[ind1]) > eps) {
+        if(!(fabs(C_check[ind1] - C[ind1]) <= eps)) {
             cnt++;
             CORRECT = 0;
         }
-- 
2.43.0

