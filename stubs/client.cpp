// Callers of the public interface that are analysed together with the library (never compiled to code that runs).
#include "cake.h"

// size, pack and multiply with operands the caller packed itself
void verif_prepacked(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* cake_cntx,
	char* argv[], bool packedA, bool packedB, float beta, enum sched sch, int mcu, int kcu, int ncu) {

	blk_dims_t x;
	float *a = A, *b = B;
	init_block_dims(M, N, K, p, &x, cake_cntx, sch, argv, 4, mcu, kcu, ncu);
	if(packedA) {
		size_t s = cake_sgemm_packed_A_size(M, K, p, &x, cake_cntx, x.sch);
		if(posix_memalign((void**) &a, 64, s)) exit(1);
		pack_A(A, a, M, K, p, &x, cake_cntx, x.sch);
	}
	if(packedB) {
		size_t s = cake_sgemm_packed_B_size(K, N, p, &x, cake_cntx);
		if(posix_memalign((void**) &b, 64, s)) exit(1);
		pack_B(B, b, K, N, p, &x, cake_cntx, x.sch);
	}
	cake_sgemm(a, b, C, M, N, K, p, cake_cntx, argv, packedA, packedB, 1, beta, sch, mcu, kcu, ncu);
	if(packedA) free(a);
	if(packedB) free(b);
}

// what pack_C stores is what unpack_C brings back
void verif_roundtrip(float* A, float* B, float* C, int M, int N, int K, int p, cake_cntx_t* cake_cntx,
	char* argv[], enum sched sch, int mcu, int kcu, int ncu) {

	blk_dims_t x;
	float *c;
	init_block_dims(M, N, K, p, &x, cake_cntx, sch, argv, 4, mcu, kcu, ncu);
	size_t s = cake_sgemm_packed_C_size(M, N, p, &x, cake_cntx, x.sch);
	if(posix_memalign((void**) &c, 64, s)) exit(1);
	pack_C(A, c, M, N, p, &x, cake_cntx, x.sch);
	unpack_C(C, c, M, N, p, &x, cake_cntx, x.sch);
	free(c);
}
