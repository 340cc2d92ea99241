From e6521dcd3ded71d1bb7e8a1b9a5ffd4de13c772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 01/26] fix: linear verifier keeps the phase-2 challenges of
 the input layer random

With the challenges fixed to 0 the prover knows them in advance and can absorb
any wrong claim in a polynomial that vanishes at 0, so every output was provable.
---
 src/linear_gkr/verifier_fast_track.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index a61bd56..b90ecfa 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -498,8 +498,6 @@ bool verifier::verify()
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
 			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
-- 
2.43.0


From 6e39997f12823a67f2f60aec4eb2b63b58c8707f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 02/26] fix: linear verifier binds the prover to one value of
 V(r_u) at the input layer

The value was re-read in every phase-2 round, so a prover that changed it between
rounds could make up for any wrong claim.
---
 src/linear_gkr/verifier_fast_track.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index b90ecfa..71afc74 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -495,12 +495,14 @@ bool verifier::verify()
 		std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//the prover answers V(r_u) once, before it sees any phase 2 challenge
+		const prime_field::field_element claimed_v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
 			quadratic_poly poly = p -> sumcheck_phase2_update(previous_random, j);
 			previous_random = r_v[j];
-			if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+			if(poly.eval(0) + poly.eval(1) + direct_relay_value * claimed_v_u != alpha_beta_sum)
 			{
 				fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 				return false;
@@ -508,7 +510,7 @@ bool verifier::verify()
 			else
 			{
 			}
-			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+			alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * claimed_v_u;
 		}
 		t1 = std::chrono::high_resolution_clock::now();
 		time_span = std::chrono::duration_cast<std::chrono::duration<double>>(t1 - t0);
@@ -517,6 +519,11 @@ bool verifier::verify()
 		auto final_claims = p -> sumcheck_finalize(previous_random);
 		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		if(i == 1 && v_u != claimed_v_u)
+		{
+			fprintf(stderr, "Verification fail, inconsistent claims, circuit level %d\n", i);
+			return false;
+		}
 
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
 		auto mult_value = mult(i);
-- 
2.43.0


From 1b3621a88f4afabd31ade635fae84fb6f3d56555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 03/26] fix: verifiers evaluate the claimed output themselves

The extension of the claimed output was computed by the prover object, so a prover
could claim one output and prove another.
---
 src/linear_gkr/verifier_fast_track.cpp       | 2 +-
 src/traditional_gkr/verifier_bc_clogc.cpp    | 2 +-
 src/traditional_gkr/verifier_traditional.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 71afc74..e47d709 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -443,7 +443,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index f6a7edd..4ee46f3 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -257,7 +257,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, one_minus_r_b_0, r_b_0, result, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, C.total_blocks_binary_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
+	prime_field::field_element a_0 = V_in(r_b_0, one_minus_r_b_0, r_0, one_minus_r_0, result, C.total_blocks_binary_length, C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length, (1 << (C.blocks[0].circuit[C.blocks[0].total_depth - 1].bit_length + C.total_blocks_binary_length)));
 	delete[] result;
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 6776232..05d5262 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -220,7 +220,7 @@ bool verifier::verify()
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	//std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
-- 
2.43.0


From 2698a1fc4aa0dda7bc00a98f56283364f6907d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:04 +0000
Subject: [PATCH 04/26] fix: blocked verifier computes the copy-selection
 factor itself

It was read from the prover, who could choose it to satisfy the layer check for any claim.
---
 src/traditional_gkr/verifier_bc_clogc.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index 4ee46f3..dc1a38f 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -374,7 +374,10 @@ bool verifier::verify()
 //		std::cout << "mult_value = " << mult_value.to_string(10) << std::endl;
 //		std::cout << "add_value = " << add_value.to_string(10) << std::endl;
 
-		if(alpha_beta_sum != p -> beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
+		prime_field::field_element beta_blk_val = prime_field::field_element(1);
+		for(int j = 0; j < C.total_blocks_binary_length; ++j)
+			beta_blk_val = beta_blk_val * (r_b_0[j] * r_b[j] + one_minus_r_b_0[j] * one_minus_r_b[j]);
+		if(alpha_beta_sum != beta_blk_val * (add_value * (v_u + v_v) + mult_value * v_u * v_v))
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
-- 
2.43.0


From ade06ea446678e8012712d109eaf28e09b951178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 05/26] fix: negative integers map to their residue modulo the
 field prime

-x was sign-extended and became 2^64 - x.
---
 include/linear_gkr/prime_field.h |  1 +
 src/linear_gkr/prime_field.cpp   | 10 ++++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/linear_gkr/prime_field.h b/include/linear_gkr/prime_field.h
index 13f7dec..8699453 100644
--- a/include/linear_gkr/prime_field.h
+++ b/include/linear_gkr/prime_field.h
@@ -95,6 +95,7 @@ namespace prime_field
 
 		field_element();
 		field_element(const int);
+		field_element(const long long);
 		field_element(const unsigned long long);
 		field_element operator + (const field_element &b) const;
 		field_element operator * (const field_element &b) const;
diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 23edac2..fa9e231 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -509,9 +509,15 @@ namespace prime_field
 	{
 		value = (u256b)(unsigned long long)0;
 	}
-	field_element::field_element(const int x)
+	field_element::field_element(const int x) : field_element((const long long)x)
 	{
-		value = (u256b)(unsigned long long)x;
+	}
+	field_element::field_element(const long long x)
+	{
+		if(x >= 0)
+			value = (u256b)(unsigned long long)x;
+		else
+			value = mod_512 - (u512b)(u256b)(0ULL - (unsigned long long)x);
 	}
 	field_element::field_element(const unsigned long long x)
 	{
-- 
2.43.0


From 3de86f1a07379b91bd989a9329cc3485bd7f3f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:38 +0000
Subject: [PATCH 06/26] fix: keep 64-bit input values read from circuit files

Input values were parsed as long long but stored in int (linear, zk), or parsed as
int (blocked provers), so values beyond 32 bits, which the lanczos translator
produces, were silently truncated.
---
 include/linear_gkr/circuit_fast_track.h      | 5 +++--
 include/traditional_gkr/circuit_bc_clogc.h   | 5 +++--
 src/linear_gkr/prover_fast_track.cpp         | 3 ++-
 src/linear_gkr/verifier_fast_track.cpp       | 5 +++--
 src/linear_gkr/zk_prover.cpp                 | 3 ++-
 src/traditional_gkr/prover_bc_clogc.cpp      | 3 ++-
 src/traditional_gkr/prover_clogc.cpp         | 3 ++-
 src/traditional_gkr/verifier_bc_clogc.cpp    | 5 +++--
 src/traditional_gkr/verifier_traditional.cpp | 5 +++--
 9 files changed, 23 insertions(+), 14 deletions(-)

diff --git a/include/linear_gkr/circuit_fast_track.h b/include/linear_gkr/circuit_fast_track.h
index 985da2e..60befd2 100644
--- a/include/linear_gkr/circuit_fast_track.h
+++ b/include/linear_gkr/circuit_fast_track.h
@@ -8,9 +8,10 @@
 class gate
 {
 public:
-	int ty, u, v;
+	int ty;
+	long long u, v;
 	gate(){}
-	gate(int t, int U, int V)
+	gate(int t, long long U, long long V)
 	{
 		ty = t, u = U, v = V;
 	}
diff --git a/include/traditional_gkr/circuit_bc_clogc.h b/include/traditional_gkr/circuit_bc_clogc.h
index 961b28c..dccf65b 100644
--- a/include/traditional_gkr/circuit_bc_clogc.h
+++ b/include/traditional_gkr/circuit_bc_clogc.h
@@ -8,9 +8,10 @@
 class gate
 {
 public:
-	int ty, u, v;
+	int ty;
+	long long u, v;
 	gate(){}
-	gate(int t, int U, int V)
+	gate(int t, long long U, long long V)
 	{
 		ty = t, u = U, v = V;
 	}
diff --git a/src/linear_gkr/prover_fast_track.cpp b/src/linear_gkr/prover_fast_track.cpp
index 8273506..a6613ac 100644
--- a/src/linear_gkr/prover_fast_track.cpp
+++ b/src/linear_gkr/prover_fast_track.cpp
@@ -38,7 +38,8 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, ty;
+		long long u, v;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index e47d709..34f4fa4 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -147,8 +147,9 @@ void verifier::read_circuit_from_string(char* file)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			sscanf(file, "%d%d%d%d%n", &ty, &g, &u, &v, &offset);
+			int ty, g;
+			long long u, v;
+			sscanf(file, "%d%d%lld%lld%n", &ty, &g, &u, &v, &offset);
 			file += offset;
 			if(g != previous_g + 1)
 			{
diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index 02ab256..fff277e 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -57,7 +57,8 @@ prime_field::field_element* zk_prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, ty;
+		int g, ty;
+		long long u;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		ty = C.circuit[0].gates[g].ty;
diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index a632193..d3a4612 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -55,7 +55,8 @@ prime_field::field_element* prover::evaluate()
 		circuit_value[blk][0] = new prime_field::field_element[(1 << C.blocks[blk].circuit[0].bit_length)];
 		for(int i = 0; i < (1 << C.blocks[blk].circuit[0].bit_length); ++i)
 		{
-			int g, u, v, ty;
+			int g, ty;
+			long long u, v;
 			g = i;
 			u = C.blocks[blk].circuit[0].gates[g].u;
 			v = C.blocks[blk].circuit[0].gates[g].v;
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index a89cabc..d232ded 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -38,7 +38,8 @@ prime_field::field_element* prover::evaluate()
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
-		int g, u, v, ty;
+		int g, ty;
+		long long u, v;
 		g = i;
 		u = C.circuit[0].gates[g].u;
 		v = C.circuit[0].gates[g].v;
diff --git a/src/traditional_gkr/verifier_bc_clogc.cpp b/src/traditional_gkr/verifier_bc_clogc.cpp
index dc1a38f..875593a 100644
--- a/src/traditional_gkr/verifier_bc_clogc.cpp
+++ b/src/traditional_gkr/verifier_bc_clogc.cpp
@@ -41,8 +41,9 @@ void verifier::read_circuit(const char* path, int n_copy)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(input_file, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g;
+			long long u, v;
+			fscanf(input_file, "%d%d%lld%lld", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
diff --git a/src/traditional_gkr/verifier_traditional.cpp b/src/traditional_gkr/verifier_traditional.cpp
index 05d5262..517d644 100644
--- a/src/traditional_gkr/verifier_traditional.cpp
+++ b/src/traditional_gkr/verifier_traditional.cpp
@@ -30,8 +30,9 @@ void verifier::read_circuit_from_FILE(FILE* file)
 		int previous_g = -1;
 		for(int j = 0; j < n; ++j)
 		{
-			int ty, g, u, v;
-			fscanf(file, "%d%d%d%d", &ty, &g, &u, &v);
+			int ty, g;
+			long long u, v;
+			fscanf(file, "%d%d%lld%lld", &ty, &g, &u, &v);
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-- 
2.43.0


From 4bb66b3fa6de0ce0414305547cd97197eb5a8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 07/26] fix: release the conversion buffer with delete[]

It is allocated with new[].
---
 src/linear_gkr/prime_field.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index fa9e231..0e6edb9 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -626,7 +626,7 @@ namespace prime_field
 		}
 		str_value[256] = 0;
 		mpz_class ret(str_value, 2);
-		delete str_value;
+		delete[] str_value;
 		return ret;
 	} 
 	bool field_element::operator == (const field_element &b) const
-- 
2.43.0


From 7bd5067af42d79775c59be5ca15e48f6cf74defa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 08/26] fix: bit length of zero and bit tests at word
 boundaries

__builtin_clzll(0) is undefined, and bits 64 and 128 were read from the wrong word.
---
 src/linear_gkr/prime_field.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index 0e6edb9..bb7bc07 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -192,11 +192,11 @@ namespace prime_field
 
 	int u256b::testBit(int i)
 	{
-		if(i <= 64)
+		if(i < 64)
 		{
 			return (lo >> i) & 1;
 		}
-		else if(i <= 128)
+		else if(i < 128)
 		{
 			return (mid >> (i - 64)) & 1;
 		}
@@ -604,7 +604,7 @@ namespace prime_field
 			lo = value.lo & (~zero);
 			if(hi != 0)
 				return 128 - __builtin_clzll(hi);
-			return 64 - __builtin_clzll(lo);
+			return lo == 0 ? 0 : 64 - __builtin_clzll(lo);
 		}
 	}
 	mpz_class field_element::to_gmp_class()
-- 
2.43.0


From 4679e93bb0779a8562f8c670090530cdd0cb477e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 09/26] fix: room for the second block the blocked prover reads
 when there is one copy

With one copy phase 1 read past the end of both block arrays.
---
 src/traditional_gkr/prover_bc_clogc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/traditional_gkr/prover_bc_clogc.cpp b/src/traditional_gkr/prover_bc_clogc.cpp
index d3a4612..778c5e1 100644
--- a/src/traditional_gkr/prover_bc_clogc.cpp
+++ b/src/traditional_gkr/prover_bc_clogc.cpp
@@ -153,6 +153,9 @@ void prover::init_array(int max_bit_length, int blk_bit_length)
 	beta_g_r1_shalf = new prime_field::field_element[(1 << half_length)];
 	beta_u_fhalf = new prime_field::field_element[(1 << half_length)];
 	beta_u_shalf = new prime_field::field_element[(1 << half_length)];
+	//phase 1 always interpolates between two blocks, even if there is only one
+	if(blk_bit_length == 0)
+		blk_bit_length = 1;
 	block_beta_value = new prime_field::field_element[(1 << blk_bit_length)];
 	block_v_value = new prime_field::field_element[1 << (blk_bit_length + max_bit_length)];
 }
-- 
2.43.0


From 8eb403cbafa590e2254e2d1af23dd6237a6e2869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:43 +0000
Subject: [PATCH 10/26] fix: sequential prover sizes its layer table by the
 circuit depth

The fixed table of 1000 layers overflowed on deeper circuits.
---
 include/traditional_gkr/prover_clogc.h | 4 ++--
 src/traditional_gkr/prover_clogc.cpp   | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/traditional_gkr/prover_clogc.h b/include/traditional_gkr/prover_clogc.h
index 0995bf3..b5ca1f6 100644
--- a/include/traditional_gkr/prover_clogc.h
+++ b/include/traditional_gkr/prover_clogc.h
@@ -14,7 +14,7 @@ public:
 	prime_field::field_element v_u, v_v;
 	int total_uv;
 	layered_circuit C;
-	prime_field::field_element* circuit_value[1000];
+	prime_field::field_element** circuit_value;
 
 	int sumcheck_layer_id, length_g, length_u, length_v;
 	prime_field::field_element alpha, beta;
@@ -42,7 +42,7 @@ public:
 	void delete_self();
 	prover()
 	{
-		memset(circuit_value, 0, sizeof circuit_value);
+		circuit_value = NULL;
 	}
 	~prover();
 };
diff --git a/src/traditional_gkr/prover_clogc.cpp b/src/traditional_gkr/prover_clogc.cpp
index d232ded..5eb80b3 100644
--- a/src/traditional_gkr/prover_clogc.cpp
+++ b/src/traditional_gkr/prover_clogc.cpp
@@ -35,6 +35,7 @@ prime_field::field_element prover::V_res(const prime_field::field_element* one_m
 prime_field::field_element* prover::evaluate()
 {
 	std::chrono::high_resolution_clock::time_point t0 = std::chrono::high_resolution_clock::now();
+	circuit_value = new prime_field::field_element*[C.total_depth];
 	circuit_value[0] = new prime_field::field_element[(1 << C.circuit[0].bit_length)];
 	for(int i = 0; i < (1 << C.circuit[0].bit_length); ++i)
 	{
@@ -142,6 +143,7 @@ void prover::delete_self()
 	delete[] beta_u_shalf;
 	for(int i = 0; i < C.total_depth; ++i)
 		delete[] circuit_value[i];
+	delete[] circuit_value;
 }
 
 prover::~prover()
-- 
2.43.0


From 17d55368b5a06468664aaad779f47af99d670d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:18 +0000
Subject: [PATCH 11/26] fix: bin/gen mode 4: read the second matrix of the
 product by its own row index

---
 bin/gen.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bin/gen.cpp b/bin/gen.cpp
index 36ec9ae..1db838b 100644
--- a/bin/gen.cpp
+++ b/bin/gen.cpp
@@ -239,7 +239,7 @@ int main(int argc, char **argv)
 				for(int k = 0; k < mat_sz; ++k)
 				{
 					int id = i * mat_sz * mat_sz + j * mat_sz + k;
-					int a = i * k, b = k * j;
+					int a = i * mat_sz + k, b = mat_sz * mat_sz + k * mat_sz + j;
 					printf("%d %d %d %d ", 1, id, a, b);
 				}
 			}
-- 
2.43.0


From 23e95a83c83ea4c8a99524b2b8fe574120cb0b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:18 +0000
Subject: [PATCH 12/26] fix: data-parallel translator: write the end of a sum
 gate as the half-open end the reader expects

---
 parser_sha_data_parallel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser_sha_data_parallel.cpp b/parser_sha_data_parallel.cpp
index c7b2bc2..3bc4714 100644
--- a/parser_sha_data_parallel.cpp
+++ b/parser_sha_data_parallel.cpp
@@ -671,7 +671,9 @@ void merge_and_output()
 					{
 						printf("%lld %lld\n", sha256.layers[i].gates[j].u, sha256.layers[i].gates[j].v + 1);
 					}
-					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, sha256.layers[i].gates[j].v + r * prev_block_size);
+					//the range of a summation is inclusive in PWS and half-open in the circuit format
+					long long v_end = sha256.layers[i].gates[j].v + (sha256.layers[i].gates[j].ty == sum_gate ? 1 : 0);
+					fprintf(sha256_circuit_file, "%d %d %015lld %lld ", sha256.layers[i].gates[j].ty, sha256.layers[i].gates[j].g + r * block_size, sha256.layers[i].gates[j].u + r * prev_block_size, v_end + r * prev_block_size);
 				}
 			}
 		}
-- 
2.43.0


From f2f8d9f91af35b01177db4e1aebf19aa0feafb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:18 +0000
Subject: [PATCH 13/26] fix: parser_lanczos, parser_sha: address the copies of
 an RDL output block by block

---
 parser_lanczos.cpp |  8 ++++----
 parser_sha.cpp     | 22 +++++++++++-----------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/parser_lanczos.cpp b/parser_lanczos.cpp
index 6175707..1304bcd 100644
--- a/parser_lanczos.cpp
+++ b/parser_lanczos.cpp
@@ -141,7 +141,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input[src0])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src0 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src0];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -150,7 +150,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input[src1])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src1 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src1];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -181,7 +181,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input[src0])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src0 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src0];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -190,7 +190,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input[src1])
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[src1 * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + src1];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
diff --git a/parser_sha.cpp b/parser_sha.cpp
index 4a3fa1e..8e084cf 100644
--- a/parser_sha.cpp
+++ b/parser_sha.cpp
@@ -149,7 +149,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -158,7 +158,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -189,7 +189,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -198,7 +198,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -243,7 +243,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -252,7 +252,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -281,7 +281,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -290,7 +290,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -319,7 +319,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -328,7 +328,7 @@ void read_circuit(ifstream &circuit_in)
                 }
                 if(circuit_input.find(src1) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src1] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src1]];
                     v = gates[rdl_gate_ptr].id;
                 }
                 else
@@ -357,7 +357,7 @@ void read_circuit(ifstream &circuit_in)
             {
                 if(circuit_input.find(src0) != circuit_input.end())
                 {
-                    int rdl_gate_ptr = rdl_output_pointer[circuit_input[src0] * repeat_num + i];
+                    int rdl_gate_ptr = rdl_output_pointer[i * (rdl_output_cnt / repeat_num) + circuit_input[src0]];
                     u = gates[rdl_gate_ptr].id;
                 }
                 else
-- 
2.43.0


From 2a84778ec051405f78942c4a08824c394b4d6ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:18 +0000
Subject: [PATCH 14/26] fix: zk verifier: a sum gate of a parallel layer may
 end at the end of the block

---
 src/linear_gkr/zk_verifier.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index af21648..91166b0 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -231,6 +231,9 @@ vector<prime_field::field_element> zk_verifier::predicates(int depth, prime_fiel
 			g = g & ((1 << C.circuit[depth].log_block_size) - 1);
 			u = u & ((1 << C.circuit[depth - 1].log_block_size) - 1);
 			v = v & ((1 << C.circuit[depth - 1].log_block_size) - 1);
+			//the end of a sum may be the end of the block
+			if(C.circuit[depth].gates[i].ty == 5)
+				v = u + (int)(C.circuit[depth].gates[i].v - C.circuit[depth].gates[i].u);
 			switch(C.circuit[depth].gates[i].ty)
 			{
 				case 0:
-- 
2.43.0


From 9e9d1b13bbaf1ee66b3f27f2460359adc11f3716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 15/26] fix: zk verifier evaluates the claimed output itself

---
 src/linear_gkr/zk_verifier.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 91166b0..a7db466 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -887,7 +887,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 	std::chrono::high_resolution_clock::time_point t_a = std::chrono::high_resolution_clock::now();
 	std::cerr << "Calc V_output(r)" << std::endl;
-	prime_field::field_element a_0 = p -> V_res(one_minus_r_0, r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
+	prime_field::field_element a_0 = V_in(r_0, one_minus_r_0, result, C.circuit[C.total_depth - 1].bit_length, (1 << (C.circuit[C.total_depth - 1].bit_length)));
 	std::chrono::high_resolution_clock::time_point t_b = std::chrono::high_resolution_clock::now();
 
 	std::chrono::duration<double> ts = std::chrono::duration_cast<std::chrono::duration<double>>(t_b - t_a);
-- 
2.43.0


From d44678af835ebbb720f010d5c816437c5cbc98fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 16/26] fix: zk verifier takes the sum of the mask polynomial
 before the prover learns rho

---
 src/linear_gkr/zk_prover.cpp   | 18 ++++++++++--------
 src/linear_gkr/zk_verifier.cpp |  4 +++-
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/linear_gkr/zk_prover.cpp b/src/linear_gkr/zk_prover.cpp
index fff277e..be55eed 100644
--- a/src/linear_gkr/zk_prover.cpp
+++ b/src/linear_gkr/zk_prover.cpp
@@ -163,6 +163,15 @@ vector<bn::Ec1> zk_prover::generate_maskpoly_pre_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = prime_field::random();
 	}
+	//the sum of the mask is claimed before rho is known
+	maskpoly_sumc = maskpoly[length * degree];
+	for(int i = length * degree; i >= 0; i--)
+		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
+	for(int i = 1; i <= 6; i++)
+		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
+
+	for(int i = 1; i < length; i++)
+		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
 	
 	vpd_test::environment_init();
 	vpd_test::KeyGen(length);
@@ -237,14 +246,7 @@ void zk_prover::generate_maskpoly_after_rho(int length, int degree)
 	for(int i = 0; i < length * degree + 1 + 6; i++){
 		maskpoly[i] = maskpoly[i] * rho;
 	}
-	maskpoly_sumc = maskpoly[length * degree];
-	for(int i = length * degree; i >= 0; i--)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[i];
-	for(int i = 1; i <= 6; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly[length * degree + i];
-
-	for(int i = 1; i < length; i++)
-		maskpoly_sumc = maskpoly_sumc + maskpoly_sumc;
+	maskpoly_sumc = maskpoly_sumc * rho;
 	maskpoly_sumr = prime_field::field_element(0);
 }
 
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index a7db466..f1c51e8 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -912,6 +912,8 @@ bool zk_verifier::verify(const char* output_path)
 			trans.msg.push_back(digest_mask[j]);
 		for(int j = 0; j < digest_maskR.size(); ++j)
 			trans.msg.push_back(digest_maskR[j]);
+		//the sum of the committed mask, claimed before the prover learns rho
+		const prime_field::field_element maskpoly_sum = p -> maskpoly_sumc;
 		p -> rho = rho;
 		p -> generate_maskpoly_after_rho(C.circuit[i - 1].bit_length * 2 + 1, 2);
 		bool r_verify_cc = vpdR::check_commit(digest_maskR[0], digest_maskR[1]);
@@ -919,7 +921,7 @@ bool zk_verifier::verify(const char* output_path)
 		
 		//add maskpoly
 
-		alpha_beta_sum.value = (alpha_beta_sum.value + p->maskpoly_sumc.value) % prime_field::mod;
+		alpha_beta_sum.value = (alpha_beta_sum.value + rho.value * maskpoly_sum.value) % prime_field::mod;
 
 		p -> sumcheck_phase1_init();
 		prime_field::field_element previous_random = prime_field::field_element(0);
-- 
2.43.0


From 0b70c4a2550a1f2459749e7b4fc2d2a6944cd4e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 17/26] fix: zk verifier keeps random phase 2 and mask
 challenges at the input layer

---
 src/linear_gkr/zk_verifier.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index f1c51e8..45e2b8b 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -998,8 +998,6 @@ bool zk_verifier::verify(const char* output_path)
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
-			if(i == 1)
-				r_v[j] = prime_field::field_element(0);
 			if(j == C.circuit[i - 1].bit_length - 1){
 				quintuple_poly poly = p -> sumcheck_phase2_updatelastbit(previous_random, j);
 				proof_size += sizeof(quintuple_poly) / 2;
@@ -1082,8 +1080,6 @@ bool zk_verifier::verify(const char* output_path)
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
 			return false;
 		}
-		if(i == 1)
-			r_c[0] = prime_field::field_element(0);
 		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * p -> v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 63003246c780ae087d07bae4e0615ffca95c20e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 18/26] fix: zk verifier uses one claim for V(r_u)

---
 src/linear_gkr/zk_verifier.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 45e2b8b..544321f 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -995,6 +995,8 @@ bool zk_verifier::verify(const char* output_path)
 	//	std::cerr << "Bound v start" << std::endl;
 		t0 = std::chrono::high_resolution_clock::now();
 		p -> sumcheck_phase2_init(previous_random, r_u, one_minus_r_u);
+		//the prover answers V(r_u) once, before it sees any phase 2 challenge
+		const prime_field::field_element claimed_v_u = p -> v_u;
 		previous_random = prime_field::field_element(0);
 		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
 		{
@@ -1009,7 +1011,7 @@ bool zk_verifier::verify(const char* output_path)
 				trans.msg.push_back(container(poly.f, container::fld_ele_indicator));
 				poly.f = poly.f;
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * claimed_v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1018,7 +1020,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * claimed_v_u;
 			}
 			else
 			{
@@ -1030,7 +1032,7 @@ bool zk_verifier::verify(const char* output_path)
 				poly.c = poly.c;
 			
 				previous_random = r_v[j];
-				if(poly.eval(0) + poly.eval(1) + direct_relay_value * p -> v_u != alpha_beta_sum)
+				if(poly.eval(0) + poly.eval(1) + direct_relay_value * claimed_v_u != alpha_beta_sum)
 				{
 					fprintf(stderr, "Verification fail, phase2, circuit level %d, current bit %d\n", i, j);
 					return false;
@@ -1039,7 +1041,7 @@ bool zk_verifier::verify(const char* output_path)
 				{
 					
 				}
-				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * p -> v_u;
+				alpha_beta_sum = poly.eval(r_v[j]) + direct_relay_value * claimed_v_u;
 			}
 		}
 
@@ -1052,6 +1054,11 @@ bool zk_verifier::verify(const char* output_path)
 
 		auto v_u = final_claims.first;
 		auto v_v = final_claims.second;
+		if(i == 1 && v_u != claimed_v_u)
+		{
+			fprintf(stderr, "Verification fail, inconsistent claims, circuit level %d\n", i);
+			return false;
+		}
 
 		std::chrono::high_resolution_clock::time_point predicates_calc_t0 = std::chrono::high_resolution_clock::now();
 		beta_init(i, alpha, beta, r_0, r_1, r_u, r_v, one_minus_r_0, one_minus_r_1, one_minus_r_u, one_minus_r_v);
@@ -1080,7 +1087,7 @@ bool zk_verifier::verify(const char* output_path)
 			fprintf(stderr, "Verification fail, phase2, lastbit for c\n");
 			return false;
 		}
-		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * p -> v_u;
+		alpha_beta_sum = poly.eval(r_c[0]) + direct_relay_value * claimed_v_u;
 
 		auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
-- 
2.43.0


From 5ddf3642d64994526c0ea478cfd75a9467b6449b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 19/26] fix: zk verifier derives the mask points and factors
 from its own challenges

---
 src/linear_gkr/zk_verifier.cpp | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 544321f..096b057 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -1093,7 +1093,19 @@ bool zk_verifier::verify(const char* output_path)
 		mpz_class maskRg1_value_mpz, maskRg2_value_mpz;
 		std::vector<mpz_class> r;
 		r.resize(2);
-		r[0] = p -> prepreu1.to_gmp_class(), r[1] = r_c[0].to_gmp_class();
+		//the points and factors of the masks follow from the challenges
+		const int last_g = C.circuit[i].bit_length - 1;
+		prime_field::field_element I_uv = prime_field::field_element(1);
+		for(int j = 0; j < C.circuit[i - 1].bit_length; ++j)
+			I_uv = I_uv * one_minus_r_u[j] * one_minus_r_v[j];
+		//the output is not masked
+		prime_field::field_element Z_0 = prime_field::field_element(i == C.total_depth - 1 ? 0 : 1), Z_1 = Z_0;
+		for(int j = 0; j < C.circuit[i].bit_length; ++j)
+		{
+			Z_0 = Z_0 * r_0[j] * one_minus_r_0[j];
+			Z_1 = Z_1 * r_1[j] * one_minus_r_1[j];
+		}
+		r[0] = r_0[last_g].to_gmp_class(), r[1] = r_c[0].to_gmp_class();
 		auto witnesses = p -> prove_R(r, maskRg1_value_mpz);
 		prime_field::field_element tmp_rg1;
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
@@ -1108,7 +1120,7 @@ bool zk_verifier::verify(const char* output_path)
 		std::chrono::duration<double> vpdr_verify_0_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpdr_verify_0_1 - vpdr_verify_0_0);
 		verification_time += vpdr_verify_0_span.count();
 
-		r[0] = p -> preprev1.to_gmp_class();
+		r[0] = r_1[last_g].to_gmp_class();
 		witnesses = p -> prove_R(r, maskRg2_value_mpz);
 		proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses.first.size() + witnesses.second.size());
 		for(int i = 0; i < witnesses.first.size(); ++i)
@@ -1169,7 +1181,7 @@ bool zk_verifier::verify(const char* output_path)
 		maskpoly_value.value = prime_field::u512b(maskpoly_value_mpz.get_str().c_str(), maskpoly_value_mpz.get_str().length(), 10);
 		maskRg1_value.value = prime_field::u512b(maskRg1_value_mpz.get_str().c_str(), maskRg1_value_mpz.get_str().length(), 10);
 		maskRg2_value.value = prime_field::u512b(maskRg2_value_mpz.get_str().c_str(), maskRg2_value_mpz.get_str().length(), 10);
-		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * p -> Iuv * p ->preZu * maskRg1_value + beta * p -> Iuv * p -> preZv * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
+		if(alpha_beta_sum != r_c[0] * (add_value * (v_u + v_v) + mult_value * v_u * v_v + not_value * (prime_field::field_element(1) - v_u) + minus_value * (v_u - v_v) + xor_value * (v_u + v_v - prime_field::field_element(2) * v_u * v_v) + naab_value * (v_v - v_u * v_v) + sum_value * v_u + relay_value * v_u + exp_sum_value * v_u + bit_test_value * (prime_field::field_element(1) - v_v) * v_u) + alpha * I_uv * Z_0 * maskRg1_value + beta * I_uv * Z_1 * maskRg2_value + rho * maskpoly_value + direct_relay_value * v_u)
 		{
 			fprintf(stderr, "Verification fail, semi final, circuit level %d\n", i);
 			return false;
@@ -1206,11 +1218,14 @@ bool zk_verifier::verify(const char* output_path)
 	for(int i = 0; i< C.circuit[0].bit_length; ++i)
 		r_1_mpz.push_back(r_1[i].to_gmp_class());
 	
+	prime_field::field_element Z_input = prime_field::field_element(1);
+	for(int i = 0; i < C.circuit[0].bit_length; ++i)
+		Z_input = Z_input * r_0[i] * one_minus_r_0[i];
 	mpz_class input_0_mpz, input_1_mpz;
 	auto poly_commit_prove_time_t0 = std::chrono::high_resolution_clock::now();
 
 	input_0_mpz = 0, input_1_mpz = 0;
-	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, p -> Zu.to_gmp_class());
+	auto witnesses_0 = p -> prove_input(r_0_mpz, input_0_mpz, Z_input.to_gmp_class());
 	proof_size += sizeof(bn::Ec1) / bilinear_pairing_factor * (witnesses_0.first.size() + witnesses_0.second.size());
 	for(int i = 0; i < witnesses_0.first.size(); ++i)
 		trans.msg.push_back(container(witnesses_0.first[i]));
@@ -1219,7 +1234,7 @@ bool zk_verifier::verify(const char* output_path)
 	
 
 	std::chrono::high_resolution_clock::time_point vpd_input_0 = std::chrono::high_resolution_clock::now();
-	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], p -> Zu.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
+	bool input_0_verify = input_vpd::verify(r_0_mpz, digest_input.first[0], digest_input.second[0], Z_input.to_gmp_class(), input_0_mpz, witnesses_0.first, witnesses_0.second);
 	std::chrono::high_resolution_clock::time_point vpd_input_1 = std::chrono::high_resolution_clock::now();
 	std::chrono::duration<double> vpd_input_span = std::chrono::duration_cast<std::chrono::duration<double>>(vpd_input_1 - vpd_input_0);
 	verification_time += vpd_input_span.count();
@@ -1231,8 +1246,6 @@ bool zk_verifier::verify(const char* output_path)
 		return false;
 	}
 
-	input_0 = input_0 + p->Zu * p->sumRc.eval(p->preu1);
-	
 	auto is0 = input_0_mpz.get_str();
 	input_0.value = prime_field::u512b(is0.c_str(), is0.length(), 10);
 	
-- 
2.43.0


From f1434a7e87a2ecd18d8de8b7c9e3c24a18741eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:37:01 +0000
Subject: [PATCH 20/26] fix: zk verifier checks the input commitment

---
 include/VPD/input_vpd.h        | 1 +
 src/linear_gkr/zk_verifier.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/VPD/input_vpd.h b/include/VPD/input_vpd.h
index 947dbbf..d955fe5 100644
--- a/include/VPD/input_vpd.h
+++ b/include/VPD/input_vpd.h
@@ -22,6 +22,7 @@ using namespace bn;
 namespace input_vpd
 {
     std::pair<mpz_class, mpz_class> commit(Ec1& digest, Ec1& digesta, Ec1& digest2, Ec1& digest2a, vector<mpz_class>& input, vector<mpz_class>& input2);
+    bool check_commit(Ec1 digest, Ec1 digesta, Ec1 digest2, Ec1 digest2a);
     void KeyGen(int d);
     void pre_input(std::vector<mpz_class>& input);
     void prove(vector<mpz_class> r, mpz_class& ans, vector<mpz_class>& input, vector<mpz_class> &input2, vector<Ec1>& witness, vector<Ec1>& witnessa, mpz_class r_f, mpz_class r_f2, mpz_class Z);
diff --git a/src/linear_gkr/zk_verifier.cpp b/src/linear_gkr/zk_verifier.cpp
index 096b057..23535fe 100644
--- a/src/linear_gkr/zk_verifier.cpp
+++ b/src/linear_gkr/zk_verifier.cpp
@@ -869,6 +869,11 @@ bool zk_verifier::verify(const char* output_path)
 		trans.msg.push_back(container(digest_input.first[i]));
 	for(int i = 0; i < digest_input.second.size(); ++i)
 		trans.msg.push_back(container(digest_input.second[i]));
+	if(!input_vpd::check_commit(digest_input.first[0], digest_input.first[1], digest_input.second[0], digest_input.second[1]))
+	{
+		fprintf(stderr, "Verification fail, input commitment.\n");
+		return false;
+	}
 	prime_field::field_element alpha, beta;
 	alpha.value = 1;
 	beta.value = 0;
-- 
2.43.0


From 55428bd005f7438c4dd122f293aca3cec340e6b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:11 +0000
Subject: [PATCH 21/26] fix: polynomial commitments check every witness

---
 src/VPD/inputvpd.cpp | 2 +-
 src/VPD/vpdR.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index 46d976e..af3095b 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -383,7 +383,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index cd85b81..076adb3 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -183,7 +183,7 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 	
 	bool flag = 1;
 	
-	for(int i = 0; i < r.size(); i++){
+	for(int i = 0; i < r.size() + 1; i++){
 		opt_atePairing(ea1, g2, witnessa[i]);
 		opt_atePairing(ea2, g2a, witness[i]);
 		if(ea1 != ea2){
-- 
2.43.0


From ee108195a37c4291f9c64e3148e5c5f23c90cf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:47:55 +0000
Subject: [PATCH 22/26] fix: a relay gate ignores its second operand, as a NOT
 gate does

---
 src/linear_gkr/verifier_fast_track.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index 34f4fa4..f347d97 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -57,6 +57,12 @@ void verifier::read_circuit(const char *path)
 					fprintf(stderr, "WARNING, v!=0 for NOT gate.\n");
 				v = 0;
 			}
+			if(ty == 10)
+			{
+				if(v != 0)
+					fprintf(stderr, "WARNING, v!=0 for relay gate.\n");
+				v = 0;
+			}
 			if(g != previous_g + 1)
 			{
 				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-- 
2.43.0


From d2b3ff8ed08b26ec996470ccd83c134740b89ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:14 +0000
Subject: [PATCH 23/26] fix: a circuit read from a string is the circuit a file
 gives

---
 include/linear_gkr/verifier_fast_track.h |  2 +
 src/linear_gkr/verifier_fast_track.cpp   | 92 +++++-------------------
 2 files changed, 18 insertions(+), 76 deletions(-)

diff --git a/include/linear_gkr/verifier_fast_track.h b/include/linear_gkr/verifier_fast_track.h
index 98fd1f9..80de805 100644
--- a/include/linear_gkr/verifier_fast_track.h
+++ b/include/linear_gkr/verifier_fast_track.h
@@ -6,6 +6,7 @@
 #include "linear_gkr/prover_fast_track.h"
 #include "linear_gkr/polynomial.h"
 #include <utility>
+#include <cstdio>
 
 class verifier
 {
@@ -33,6 +34,7 @@ public:
 	prime_field::field_element sum_gate(int depth);
 	prime_field::field_element relay_gate(int depth);
 	void read_circuit_from_string(char*);
+	void read_circuit_from_FILE(FILE*);
 };
 
 #endif
diff --git a/src/linear_gkr/verifier_fast_track.cpp b/src/linear_gkr/verifier_fast_track.cpp
index f347d97..b93724c 100644
--- a/src/linear_gkr/verifier_fast_track.cpp
+++ b/src/linear_gkr/verifier_fast_track.cpp
@@ -1,5 +1,6 @@
 #include "linear_gkr/verifier_fast_track.h"
 #include <string>
+#include <cstring>
 #include <utility>
 #include <iostream>
 #include "linear_gkr/random_generator.h"
@@ -11,10 +12,24 @@ void verifier::get_prover(prover *pp)
 
 void verifier::read_circuit(const char *path)
 {
-	int d;
 	FILE *circuit_in;
 	circuit_in = fopen(path, "r");
+	read_circuit_from_FILE(circuit_in);
+	fclose(circuit_in);
+}
+
+void verifier::read_circuit_from_string(char* file)
+{
+	//the same format as in a file, the input layer is doubled here too
+	FILE *circuit_in;
+	circuit_in = fmemopen(file, strlen(file), "r");
+	read_circuit_from_FILE(circuit_in);
+	fclose(circuit_in);
+}
 
+void verifier::read_circuit_from_FILE(FILE *circuit_in)
+{
+	int d;
 	fscanf(circuit_in, "%d", &d);
 	int n;
 	C.circuit = new layer[d + 1];
@@ -124,81 +139,6 @@ void verifier::read_circuit(const char *path)
 	}
 	p -> init_array(max_bit_length);
 
-	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];
-	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];
-	beta_v = new prime_field::field_element[(1 << max_bit_length)];
-	beta_u = new prime_field::field_element[(1 << max_bit_length)];
-	fclose(circuit_in);
-}
-
-void verifier::read_circuit_from_string(char* file)
-{
-	int d;
-	int offset;
-	sscanf(file, "%d%n", &d, &offset);
-	file += offset;
-	int n;
-	C.circuit = new layer[d];
-	C.total_depth = d;
-	int max_bit_length = -1;
-	for(int i = 0; i < d; ++i)
-	{
-		sscanf(file, "%d%n", &n, &offset);
-		file += offset;
-		if(n == 1)
-			C.circuit[i].gates = new gate[2];
-		else
-			C.circuit[i].gates = new gate[n];
-		int max_gate = -1;
-		int previous_g = -1;
-		for(int j = 0; j < n; ++j)
-		{
-			int ty, g;
-			long long u, v;
-			sscanf(file, "%d%d%lld%lld%n", &ty, &g, &u, &v, &offset);
-			file += offset;
-			if(g != previous_g + 1)
-			{
-				printf("Error, gates must be in sorted order, and full [0, 2^n - 1].");
-			}
-			previous_g = g;
-			C.circuit[i].gates[g] = gate(ty, u, v);
-		}
-		max_gate = previous_g;
-		int cnt = 0;
-		while(max_gate)
-		{
-			cnt++;
-			max_gate >>= 1;
-		}
-		max_gate = 1;
-		while(cnt)
-		{
-			max_gate <<= 1;
-			cnt--;
-		}
-		int mx_gate = max_gate;
-		while(mx_gate)
-		{
-			cnt++;
-			mx_gate >>= 1;
-		}
-		if(n == 1)
-		{
-			//add a dummy gate to avoid ill-defined layer.
-			C.circuit[i].gates[max_gate] = gate(2, 0, 0);
-			C.circuit[i].bit_length = cnt;
-		}
-		else
-		{
-			C.circuit[i].bit_length = cnt - 1;
-		}
-		fprintf(stderr, "layer %d, bit_length %d\n", i, C.circuit[i].bit_length);
-		if(C.circuit[i].bit_length > max_bit_length)
-			max_bit_length = C.circuit[i].bit_length;
-	}
-	p -> init_array(max_bit_length);
-
 	beta_g_r0 = new prime_field::field_element[(1 << max_bit_length)];
 	beta_g_r1 = new prime_field::field_element[(1 << max_bit_length)];
 	beta_v = new prime_field::field_element[(1 << max_bit_length)];
-- 
2.43.0


From 9080e1a0c77a665d03706851c8e78108574ace5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:28 +0000
Subject: [PATCH 24/26] fix: random field elements carried 93 random bits

u512b::random() kept one rand() value per 128-bit word, so that every challenge
and mask came from a set of 2^93 elements. Fill 448 bits, whose residue is uniform.
---
 src/linear_gkr/prime_field.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/linear_gkr/prime_field.cpp b/src/linear_gkr/prime_field.cpp
index bb7bc07..cbc9277 100644
--- a/src/linear_gkr/prime_field.cpp
+++ b/src/linear_gkr/prime_field.cpp
@@ -474,9 +474,15 @@ namespace prime_field
 	}
 	void u512b::random()
 	{
-		lo = rand();
-		mid = rand();
-		hi = (u256b)(unsigned long long)rand();
+		//448 bits, so that the residue modulo the prime is uniform; rand() gives 31 of them at a time
+		unsigned long long word[7];
+		for(int i = 0; i < 7; ++i)
+			word[i] = ((unsigned long long)rand() << 62) ^ ((unsigned long long)rand() << 31) ^ (unsigned long long)rand();
+		lo = (__uint128_t)word[1] << 64 | word[0];
+		mid = (__uint128_t)word[3] << 64 | word[2];
+		hi.lo = word[4];
+		hi.mid = word[5];
+		hi.hi = word[6];
 	}
 
 
-- 
2.43.0


From ba8f22d1de340c99c711881d06b43cf9b9476ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:51 +0000
Subject: [PATCH 25/26] fix: blinding factors of two commitments came from a
 31-bit seed

Seed the GMP generators with 279 bits of rand() instead of one value of it.
---
 src/VPD/inputvpd.cpp | 9 ++++++---
 src/VPD/vpdR.cpp     | 9 ++++++---
 2 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/VPD/inputvpd.cpp b/src/VPD/inputvpd.cpp
index af3095b..31dd0f0 100644
--- a/src/VPD/inputvpd.cpp
+++ b/src/VPD/inputvpd.cpp
@@ -8,7 +8,7 @@ namespace input_vpd
 #define P 512
 const int multi_scalar_w = 8;
 
-unsigned long int seed;
+mpz_class seed;
 int NumOfVar;
 gmp_randstate_t r_state;  
 mpz_class p, a;
@@ -430,9 +430,12 @@ bool verify(vector<mpz_class> r, Ec1 digest, Ec1 digest2, mpz_class Z, mpz_class
 void environment_init()
 {
 	p.set_str("16798108731015832284940804142231733909759579603404752749028378864165570215949",10);
-	seed = rand();
+	//as many bits as the secrets that are derived from it
+	seed = 0;
+	for(int i = 0; i < 9; ++i)
+		seed = (seed << 31) + rand();
     gmp_randinit_default(r_state);
-    gmp_randseed_ui(r_state, seed);
+    gmp_randseed(r_state, seed.get_mpz_t());
 	
 	
 	//bilinear g1 g2
diff --git a/src/VPD/vpdR.cpp b/src/VPD/vpdR.cpp
index 076adb3..13717c1 100644
--- a/src/VPD/vpdR.cpp
+++ b/src/VPD/vpdR.cpp
@@ -18,7 +18,7 @@ using namespace bn;
 
 #define P 512
 namespace vpdR{
-unsigned long int seed;
+mpz_class seed;
 int NumOfVar;
 gmp_randstate_t r_state;  
 mpz_class p, a;
@@ -226,9 +226,12 @@ bool verify(vector<mpz_class> r, Ec1 digest, mpz_class ans, vector<Ec1>& witness
 
 void environment_init()
 {
-	seed = rand();
+	//as many bits as the secrets that are derived from it
+	seed = 0;
+	for(int i = 0; i < 9; ++i)
+		seed = (seed << 31) + rand();
     gmp_randinit_default(r_state);
-    gmp_randseed_ui(r_state, seed);
+    gmp_randseed(r_state, seed.get_mpz_t());
 	p.set_str("16798108731015832284940804142231733909759579603404752749028378864165570215949",10);
 	
 	
-- 
2.43.0


From 5b72970fcb9fbe266f643f30ee7a1c60c1c8b22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:15 +0000
Subject: [PATCH 26/26] fix: drawing a challenge hashed the whole transcript
 again

Challenges are unchanged; the digest of the full blocks is kept between draws,
so the verifier's work is linear in the depth of the circuit.
---
 include/linear_gkr/transcript.h | 45 ++++++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/include/linear_gkr/transcript.h b/include/linear_gkr/transcript.h
index 17bf3b5..81cf12d 100644
--- a/include/linear_gkr/transcript.h
+++ b/include/linear_gkr/transcript.h
@@ -48,6 +48,18 @@ public:
 };
 class proof_transcript
 {
+    //the digest of the first hashed bits, the bits of the first streamed messages that follow them
+    __hhash_digest digest = __hhash_digest();
+    unsigned long long hashed = 0, streamed = 0;
+    std::vector<bool> tail;
+    void keep(const __hhash_digest &h, int bits, int &full)
+    {
+        if(bits <= (int)tail.size())
+        {
+            digest = h;
+            full = bits;
+        }
+    }
 public:
     std::vector<container> msg;
     std::vector<bool> output_bit_stream(bool need_rand)
@@ -87,18 +99,30 @@ public:
 
     prime_field::field_element* random(int size)
     {
-        auto x = output_bit_stream(true);
+        //only what came since the last full block has to be hashed
+        for(; streamed < msg.size(); ++streamed)
+        {
+            auto out = msg[streamed].output();
+            tail.insert(tail.end(), out.begin(), out.end());
+        }
+        auto x = tail;
+        int full = 0;
         //align with 512
         int data[512 / (8 * sizeof(int))];
-        while(x.size() % 512 != 0)
+        while((hashed + x.size()) % 512 != 0)
             x.push_back(0);
-        for(int i = 0; i < (512 / (8 * sizeof(int))); ++i)
-            data[i] = 0;
-        for(int i = 0; i < 512; ++i)
-            data[i / 32] |= (((int)x[i]) << (i & (8 * sizeof(int) - 1)));
-        __hhash_digest h;
-        my_hhash(data, &h);
-        int cur = 512;
+        __hhash_digest h = digest;
+        int cur = 0;
+        if(hashed == 0)
+        {
+            for(int i = 0; i < (512 / (8 * sizeof(int))); ++i)
+                data[i] = 0;
+            for(int i = 0; i < 512; ++i)
+                data[i / 32] |= (((int)x[i]) << (i & (8 * sizeof(int) - 1)));
+            my_hhash(data, &h);
+            cur = 512;
+            keep(h, cur, full);
+        }
         while(cur < x.size())
         {
             for(int i = 0; i < (512 / (8 * sizeof(int))); ++i)
@@ -110,7 +134,10 @@ public:
                 data[(i + 256) / 32] |= curbit << ((i + 256) & 31);
             }
             my_hhash(data, &h);
+            keep(h, cur, full);
         }
+        tail.erase(tail.begin(), tail.begin() + full);
+        hashed += full;
         prime_field::field_element* r;
         r = new prime_field::field_element[size];
         for(int i = 0; i < size; ++i)
-- 
2.43.0

