From 737d85073aeb5894ed3b595d97483deac8d95aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:17:56 +0000
Subject: [PATCH 01/24] fix: AES-CTR: use the right keystream bytes for a
 packet's last size%4 bytes

The shift count started at 24 and grew past the word size, so the tail of a
packet was masked with wrong (and partly undefined) keystream bytes.
---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 124b48893b03eae0c21c19c5323187b4452bec18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:34:30 +0000
Subject: [PATCH 02/24] fix: AES-CFB: correct tail keystream and ciphertext
 feedback of short blocks

The keystream words of a short final block were taken in reverse order with
wrong byte shifts, and the feedback register was built from the cipher output
(portable and ARM builds) and from misaligned ciphertext bytes. Builds did not
interoperate, did not follow CFB-128 and lost self-synchronisation.
---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp      | 165 ++---------------
 .../AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp    | 166 ++----------------
 .../AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp    | 165 ++---------------
 3 files changed, 51 insertions(+), 445 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..4891212 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 31/03/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -65,6 +66,10 @@ void aes_cfb_initialize(aes_state *cs, uint8_t key[16], uint8_t iv[16])
 
 void aes_encrypt(aes_state *cs, uint32_t keystream[])
 {
+	// Save the register, it is updated by ciphertext only
+	uint32_t state[4];
+	std::memcpy(state, &cs->reg1, 16);
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -80,6 +85,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Restore the register
+	std::memcpy(&cs->reg1, state, 16);
 }
 
 void full_state_update(aes_state *cs, uint32_t *ctxt)
@@ -92,151 +100,12 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the last (size < 16) bytes of ciphertext into the register
+	uint8_t reg[16];
+	std::memcpy(reg, &cs->reg1, 16);
+	std::memmove(reg, reg + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
+	std::memcpy(&cs->reg1, reg, 16);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -287,10 +156,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -301,7 +170,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..877ff9e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -98,8 +99,11 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	B_S = veorq_u8(B_S, B_K10);
 
 	vst1q_u8((uint8_t*)keystream, B_S);
-	vst1q_u8((uint8_t*)&cs->reg1, B_S);
 #else
+	// Save the register, it is updated by ciphertext only
+	uint32_t state[4];
+	std::memcpy(state, &cs->reg1, 16);
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -115,6 +119,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Restore the register
+	std::memcpy(&cs->reg1, state, 16);
 #endif
 }
 
@@ -128,151 +135,12 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the last (size < 16) bytes of ciphertext into the register
+	uint8_t reg[16];
+	std::memcpy(reg, &cs->reg1, 16);
+	std::memmove(reg, reg + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
+	std::memcpy(&cs->reg1, reg, 16);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -323,10 +191,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -337,7 +205,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..16d7579 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -99,6 +100,10 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	_mm_storeu_si128 ((__m128i*)keystream, B_S);
 
 #else
+	// Save the register, it is updated by ciphertext only
+	uint32_t state[4];
+	std::memcpy(state, &cs->reg1, 16);
+
 	initial_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[0]));
 	#ifndef ROUND_REDUCED
 	round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[4]));
@@ -114,6 +119,9 @@ void aes_encrypt(aes_state *cs, uint32_t keystream[])
 	final_round(&(cs->reg1), &(cs->reg2), &(cs->reg3), &(cs->reg4), &(cs->rk[40]));
 	keystream[0] = cs->reg1; keystream[1] = cs->reg2;
 	keystream[2] = cs->reg3; keystream[3] = cs->reg4;
+
+	// Restore the register
+	std::memcpy(&cs->reg1, state, 16);
 #endif
 }
 
@@ -127,151 +135,12 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 
 void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// Shift the last (size < 16) bytes of ciphertext into the register
+	uint8_t reg[16];
+	std::memcpy(reg, &cs->reg1, 16);
+	std::memmove(reg, reg + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
+	std::memcpy(&cs->reg1, reg, 16);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -322,10 +191,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -336,7 +205,7 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From 42957591578e272f85e3f9c531c998bbdb8962f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:49:59 +0000
Subject: [PATCH 03/24] fix: AEGIS-128: message lengths below 15 no longer
 underflow the block loop bounds

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..242c047 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..17d8da0 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..f028cef 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; tmp + 15 < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; tmp + 15 < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; tmp + 3 < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From 7abb9dc007965b926a9a3795a34aeffcecb1de22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:01 +0000
Subject: [PATCH 04/24] fix: HC-128: continue the keystream across packets
 instead of restarting the step number

---
 StreamCiphers/HC-128/hc128.cpp | 9 ++++++---
 StreamCiphers/HC-128/hc128.h   | 1 +
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..9e8eebf 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -59,15 +59,17 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 			h2(cs, cs->Q[(i-12)&0x1FF]);
 	}
 
+	// The keystream starts at step 0
+	cs->step = 0;
 }
 
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
 {
-	// Generate keystream
+	// Generate keystream, continuing from the step reached by previous calls
 	for (int i = 0; i <= (size-1)/4; i++)
 	{
-		int j = (i&0x1FF);
-		if ( (i&0x3FF) < 512 )
+		int j = (cs->step&0x1FF);
+		if ( cs->step < 512 )
 		{
 			// Operate on P
 			cs->P[j] = cs->P[j] + g1(cs->P[(j-3)&0x1FF],
@@ -83,6 +85,7 @@ void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t siz
 			*keystream = h2(cs, cs->Q[(j-12)&0x1FF]) ^ (cs->Q[j]);
 			keystream++;
 		}
+		cs->step = (cs->step+1)&0x3FF;
 	}
 }
 
diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 40e20f7..f4d859f 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -37,6 +37,7 @@
 struct hc128_state{
 	uint32_t P[512];
 	uint32_t Q[512];
+	uint32_t step;	// Steps performed, modulo 1024
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-- 
2.43.0


From 8f4df9831dba49034257a644d29e709255d5a468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:16 +0000
Subject: [PATCH 05/24] fix: Rabbit: a counter sum of exactly 2^32 carries

---
 StreamCiphers/Rabbit/rabbit.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..512fc2c 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -61,7 +61,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From 5cb4c92669575fb808599fcc1b0fac1538fb0615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:27 +0000
Subject: [PATCH 06/24] fix: Rabbit: loading an IV restores the master state's
 counter carry

---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90acd8e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_carry;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index 512fc2c..006faed 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -32,6 +32,7 @@ static const uint32_t A[8] = {
 struct rabbit_state{
 	uint32_t MASTER_X[8];
 	uint32_t MASTER_C[8];
+	uint8_t MASTER_carry;
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
-- 
2.43.0


From 263911221376ffe532d85ffd8ba4620e2ae3ef97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:27 +0000
Subject: [PATCH 07/24] fix: Sosemanuk: finite state machine follows the
 published definition

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..b0432f8 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t old_R1 = cs->R1;
+	cs->R1 = cs->R2 + mux(old_R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(old_R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From a175d59804e29582e554a7af37bf41f8a0d29590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:05:27 +0000
Subject: [PATCH 08/24] fix: Serpent: short keys are padded with the bit after
 the last key bit

---
 BlockCiphers/Serpent/serpent.cpp    | 7 ++++---
 StreamCiphers/Sosemanuk/serpent.cpp | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..1d9cdbd 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,10 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, as bytes are
+		// read with the least significant bit first:
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..1d9cdbd 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,10 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, as bytes are
+		// read with the least significant bit first:
+		// 0x01  = 0000 0001
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From 84e04585a5d3b81de5b627e05d2e42753cf50fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:02 +0000
Subject: [PATCH 09/24] fix: SHA-256: message lengths of 63 modulo 64 need a
 second padding block

---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From be332538a8e7027a9ebdaf1c55592e1707eba2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:02 +0000
Subject: [PATCH 10/24] fix: HMAC-SHA-256: the empty message has a tag

---
 Authentication/HMAC-SHA-256/hmac.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..895a45b 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -55,9 +55,6 @@ void hmac_load_key(hmac_state *cs, uint8_t *key, int keysize)
 
 void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
-	// Assert that datalength is strictly positive
-	if ( dataLength < 1 ) return;
-
 	// The inner key is used in the first computation along with the message
 	uint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];
 	std::memcpy(inner_computation, cs->inner_key, HMAC_KEYLENGTH);
-- 
2.43.0


From ad45f22dfa577dd8ec952253424ca5a6f5514173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:02 +0000
Subject: [PATCH 11/24] fix: DES: every round uses its own round key

---
 Legacy/DES/des.cpp | 4 ++--
 Legacy/DES/des.h   | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..0af370e 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -94,8 +94,8 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(cs->rk + 4*i, &Y, &X, &T);
+		DES_ROUND(cs->rk + 4*i + 2, &X, &Y, &T);
 	}
 
 	DES_FP(&Y, &X, &T);
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..0577a7e 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -246,9 +246,8 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+inline void DES_ROUND(u32 *rk_ptr, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From b956eefaed0a1ba44e8f75b4a9ecd0e2300cd6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:17:28 +0000
Subject: [PATCH 12/24] fix: DES: keys and blocks are read and written in the
 standard's byte order

---
 Legacy/DES/des.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 0af370e..6abfc51 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -1,15 +1,27 @@
 #include "des.h"
 #include <cstring>
 
+// DES numbers the bits of a word from the most significant bit
+// of its first byte, so words are read and written big-endian.
+static inline u32 load_be(const void *in)
+{
+	const u8 *b = (const u8*)in;
+	return ((u32)b[0] << 24) | ((u32)b[1] << 16) | ((u32)b[2] << 8) | b[3];
+}
+
+static inline void store_be(void *out, u32 x)
+{
+	u8 *b = (u8*)out;
+	b[0] = (u8)(x >> 24); b[1] = (u8)(x >> 16); b[2] = (u8)(x >> 8); b[3] = (u8)x;
+}
+
 void des_key_schedule_encrypt(des_state *cs, u8 *key)
 {
 	int i;
 	u32 X, Y, T;
 
-	u32 *key_ptr = (u32*)key;
-
-	X = *key_ptr++;
-	Y = *key_ptr;
+	X = load_be(key);
+	Y = load_be(key + 4);
 
 	u32 *rk_ptr = cs->rk;
 
@@ -88,7 +100,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 {
 	u32 X, Y, T;
 
-	X = *input++; Y = *input; 
+	X = load_be(input); Y = load_be(input + 1);
 
 	DES_IP(&X, &Y, &T);
 
@@ -100,7 +112,7 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 
 	DES_FP(&Y, &X, &T);
 
-	*output++ = Y; *output = X;
+	store_be(output, Y); store_be(output + 1, X);
 }
 
 void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
-- 
2.43.0


From 306f03375715b31b6b3dae273d7cd35cbd7233be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:55 +0000
Subject: [PATCH 13/24] fix: LabeledHE: labels shorter than the message size
 are padded with zeros, not stack contents

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp     | 2 ++
 .../muLabeledHE/mu_labeled_he.cpp                               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..8385348 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -1,6 +1,7 @@
 #include "labeled_he.h"
 #include "../../Joye_libert/joye_libert.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -54,6 +55,7 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	memset(keystream, 0, msgsize/8);
 	
 	// Load label into the array
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1919d2a..1320ee5 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../joye_libert/joye_libert.h"
 #include "../HC-128/hc128.h"
 
+#include <cstring>
 #include <iostream>
 
 he_ct::he_ct(void)
@@ -62,6 +63,7 @@ void mu_he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	memset(keystream, 0, msgsize/8);
 
 	// Load label into the array
         size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-- 
2.43.0


From ab0e1bbf9c999ce0d7007334af27f1d1edee19fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:13 +0000
Subject: [PATCH 14/24] fix: example of authenticated encryption: a packet with
 an invalid tag is not decrypted

---
 Example_AuthenticatedEncryption/example_ae.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Example_AuthenticatedEncryption/example_ae.cpp b/Example_AuthenticatedEncryption/example_ae.cpp
index d1b8194..0cc464d 100644
--- a/Example_AuthenticatedEncryption/example_ae.cpp
+++ b/Example_AuthenticatedEncryption/example_ae.cpp
@@ -131,6 +131,7 @@ int main()
 	// not valid, the ciphertext is NOT decrypted.
 	if ( !(hmac_tag_validation(&a_cs, &msg2[HC128_IV_SIZE+plaintext2.size()], msg2, HC128_IV_SIZE+plaintext2.size(), TAGSIZE)) ) {
 		std::cout << "Invalid tag!\n";
+		exit(1);
 	}
 	// Else, tag is valid. Proceed to initialize the cipher and decrypt.
 	std::cout << "Valid tag!\n";
-- 
2.43.0


From 36c08eb2216a77aa247c6449b579bdf9636a0c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:53 +0000
Subject: [PATCH 15/24] fix: SHA-256: messages larger than the stack can be
 hashed

---
 Authentication/HMAC-SHA-256/sha-256.cpp | 11 +++++++----
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp      | 11 +++++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/sha-256.cpp b/Authentication/HMAC-SHA-256/sha-256.cpp
index a900cd3..8f18041 100644
--- a/Authentication/HMAC-SHA-256/sha-256.cpp
+++ b/Authentication/HMAC-SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -142,4 +142,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		       	((ss.digest[i] >> 24) & 0x000000ff); u32_digest++;
 	}
 	//std::memcpy(digest, ss.digest, 32);
+
+	// Clean up
+	delete[] msg;
 }
diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index a900cd3..8f18041 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -46,7 +46,7 @@ void pad_message(uint8_t *message, uint64_t size)
 
 void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
-	int n = 0;
+	uint64_t n = 0;
 	// Declare message to hold padded text
 	if ( (size)%64 >= 56 )
 	{
@@ -54,10 +54,10 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 	} else {
 		n = (size/64)*64 + 64;
 	}
-	uint32_t msg[n/4];
+	uint32_t *msg = new uint32_t[n/4];
 
 	// Compute the number of 512 bit blocks
-	int N = n / 64;
+	uint64_t N = n / 64;
 
 	std::memcpy(msg, message, size);
 	// Pad message to full 512 bit blocks
@@ -79,7 +79,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 
 	uint8_t* byte_ptr = (uint8_t*)msg;
 	// Iterate through each 512-bit block
-	for ( int i = 1; i <= N; i++ )
+	for ( uint64_t i = 1; i <= N; i++ )
 	{
 		// Prepare the message schedule
 		for ( int t = 0; t < 64; t++ )
@@ -142,4 +142,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 		       	((ss.digest[i] >> 24) & 0x000000ff); u32_digest++;
 	}
 	//std::memcpy(digest, ss.digest, 32);
+
+	// Clean up
+	delete[] msg;
 }
-- 
2.43.0


From 55a16a7b9195277a98928af894a1d58d5d8f87c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:56:53 +0000
Subject: [PATCH 16/24] fix: MD5: the block loop ends for updates of nearly
 2^32 bytes

---
 Legacy/MD5/md5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Legacy/MD5/md5.cpp b/Legacy/MD5/md5.cpp
index acf7093..7bbff1f 100644
--- a/Legacy/MD5/md5.cpp
+++ b/Legacy/MD5/md5.cpp
@@ -131,7 +131,7 @@ void MD5Update(MD5_CTX *context, u8 *input, u32 inputLen)
   if (inputLen >= partLen) {
 	MD5_memcpy((u8*)&context->buffer[index], (u8*)input, partLen);
  	MD5Transform (context->state, context->buffer);
-	for (i = partLen; i + 63 < inputLen; i += 64)
+	for (i = partLen; inputLen - i >= 64; i += 64)
    		MD5Transform (context->state, &input[i]);
  	index = 0;
   }
-- 
2.43.0


From 6e5cd3d4fc4890aac3b95e7a79838bdc2cc0796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:05 +0000
Subject: [PATCH 17/24] fix: HC-128: packets larger than the stack can be
 processed

---
 StreamCiphers/HC-128/hc128.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 9e8eebf..fa8eeb6 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -66,7 +66,7 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t size)
 {
 	// Generate keystream, continuing from the step reached by previous calls
-	for (int i = 0; i <= (size-1)/4; i++)
+	for (uint64_t i = 0; i <= (size-1)/4; i++)
 	{
 		int j = (cs->step&0x1FF);
 		if ( cs->step < 512 )
@@ -95,12 +95,13 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 	if ( size < 1 ) return;
 		
 
-	uint32_t keystream[(size-1)/4 +1];
+	// The packet may be larger than the stack
+	uint32_t *keystream = new uint32_t[(size-1)/4 +1];
 
 	// Generate enough keystream
 	hc128_generate_keystream(cs, keystream, size);
 
-	int counter = 0;
+	uint64_t counter = 0;
 	// Process a full word
 	while ( size > 3 )
 	{
@@ -115,4 +116,5 @@ void hc128_process_packet(hc128_state *cs, uint8_t *output, uint8_t *input, uint
 		// Mix keystream to the final bytes
 		*output = *input ^ *byteptr; byteptr++; output++; input++;
 	}	
+	delete[] keystream;
 }
-- 
2.43.0


From 21616a935b93d814d52215599511da1472f1d194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:16:17 +0000
Subject: [PATCH 18/24] fix: ChaCha: packets of 2 GiB and more are processed
 completely

---
 StreamCiphers/ChaCha/chacha.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/ChaCha/chacha.cpp b/StreamCiphers/ChaCha/chacha.cpp
index 2198104..466e1c3 100644
--- a/StreamCiphers/ChaCha/chacha.cpp
+++ b/StreamCiphers/ChaCha/chacha.cpp
@@ -77,24 +77,24 @@ void chacha_block(chacha_state *cs, uint32_t counter, uint32_t *keystream)
 void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
 {
 	// Generate sufficient keystream;
-	int n_words = std::ceil(double(size)/4);
+	uint64_t n_words = std::ceil(double(size)/4);
 
-	int n_iterations = std::ceil(double(n_words)/16);
+	uint64_t n_iterations = std::ceil(double(n_words)/16);
 
 	uint32_t *keystream = new uint32_t[n_iterations*16];
 
 	uint32_t counter = 1;
 
-	for (int i = 0; i < n_iterations; i++)
+	for (uint64_t i = 0; i < n_iterations; i++)
 	{
 		chacha_block(cs, counter, &(keystream[16*i]));
 		counter++;
 	}
 
-	int n_bytes = size;
+	uint64_t n_bytes = size;
 	uint32_t *w_ptr_in = (uint32_t*) input;
 	uint32_t *w_ptr_out = (uint32_t*) output;
-	int ks_index = 0;
+	uint64_t ks_index = 0;
 	while (n_bytes > 3)
 	{
 		*w_ptr_out = *w_ptr_in ^ keystream[ks_index];
@@ -104,7 +104,7 @@ void chacha_process_packet(chacha_state *cs, uint8_t *output, uint8_t *input, ui
 	input = (uint8_t*) w_ptr_in;
 	output = (uint8_t*) w_ptr_out;
 	uint8_t *byte_ks = (uint8_t*)&keystream[ks_index]; 
-	for (int i = 0; i < n_bytes; i++)
+	for (uint64_t i = 0; i < n_bytes; i++)
 	{
 		*output = *input ^ *byte_ks; byte_ks++;
 		//*output = *input ^ ((keystream[ks_index] >> (24-8*i))&0xff);
-- 
2.43.0


From 585197b65a3eb56e7aa7b2a475d4efb577e3e395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:08:52 +0000
Subject: [PATCH 19/24] fix: AEGIS associated data of 8 GiB and more overflowed
 the block index

---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 4 ++--
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 4 ++--
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 242c047..1b02a47 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 17d8da0..008f733 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f028cef..d859eda 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -94,7 +94,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 
 		w_ptr = (uint32_t*)padded_ad;
 		// Update state
-		for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+		for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 		{
 			aegis_state_update(cs, (w_ptr+4*i));
 		}
@@ -102,7 +102,7 @@ void aegis_process_ad(aegis_state *cs, uint8_t *ad, uint64_t adlen)
 		return;
 	}
 	w_ptr = (uint32_t*)ad;
-	for (int i = 0; i < std::ceil(double(adlen)/16); i++)
+	for (uint64_t i = 0; i < std::ceil(double(adlen)/16); i++)
 	{
 		aegis_state_update(cs, (w_ptr+4*i));
 	}
-- 
2.43.0


From 318d2912b34f471b49f6c1871036727054d7fee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:12:01 +0000
Subject: [PATCH 20/24] fix: hex encoding of 1 GiB and more overflowed the
 output index

---
 Encoders/Hex/encoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Encoders/Hex/encoder.cpp b/Encoders/Hex/encoder.cpp
index 8d1c597..b9359ce 100644
--- a/Encoders/Hex/encoder.cpp
+++ b/Encoders/Hex/encoder.cpp
@@ -14,7 +14,7 @@
 void hex_encode(char* output, const uint8_t* input, int size)
 {
 	int loop;
-	int i;
+	size_t i;
 
 	i = 0;
 	loop = 0;
-- 
2.43.0


From c80022c324469c0320fe65bd0448fdbae450cfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:27:06 +0000
Subject: [PATCH 21/24] fix: Joye-Libert encryption drew randomisers outside
 Z_N^*

---
 AsymmetricCryptography/Joye_libert/joye_libert.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 7f082c1..6df2d6d 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -167,12 +167,14 @@ void joye_libert_encrypt(
 	       	const mpz_t N,
 	       	const uint32_t msgsize)
 {
-	mpz_t x;
+	mpz_t x, gcd;
 	mpz_init_set_ui(x, 0);
+	mpz_init_set_ui(gcd, 0);
 	// Pick a random x in Z_N^*
-	while(!mpz_cmpabs_ui(x, 0))
+	while(mpz_cmp_ui(gcd, 1) != 0)
 	{
 		mpz_urandomm(x, state, N);
+		mpz_gcd(gcd, x, N);
 	}
 #ifdef DEBUG
 	gmp_printf("x: %Zd\n", x);
-- 
2.43.0


From f59eb33c3d347bf57679cf73f4fe83e4bd343568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:56:59 +0000
Subject: [PATCH 22/24] fix: Rabbit: the keystream was written through a
 pointer of another type, optimised builds left packets unencrypted

---
 StreamCiphers/Rabbit/rabbit.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 90acd8e..a017bb3 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -141,7 +141,7 @@ void rabbit_extract_keystream(rabbit_state *cs, uint32_t *keystream)
 	rabbit_counter(cs);
 	rabbit_next_state(cs);
 
-	uint16_t *ks_ptr = (uint16_t*)keystream;
+	uint16_t ks_ptr[8];
 
 	ks_ptr[0] = (cs->X[0]&0xffff) ^ ( (cs->X[5] >> 16) & 0xffff);
 	ks_ptr[1] = ( (cs->X[0] >> 16) & 0xffff) ^ (cs->X[3] & 0xffff);
@@ -152,6 +152,7 @@ void rabbit_extract_keystream(rabbit_state *cs, uint32_t *keystream)
 	ks_ptr[6] = (cs->X[6]&0xffff) ^ ( (cs->X[3] >> 16) & 0xffff);
 	ks_ptr[7] = ( (cs->X[6] >> 16) & 0xffff) ^ (cs->X[1] & 0xffff);
 
+	std::memcpy(keystream, ks_ptr, 16);
 }
 
 void rabbit_process_packet(rabbit_state *cs, uint8_t *output, uint8_t *input, uint64_t size)
-- 
2.43.0


From 2abde3fad4f062d704fbc22d5322a9e87cf2ffdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:12:51 +0000
Subject: [PATCH 23/24] fix: Joye-Libert and labelled HE calls never released
 their temporaries, every call leaked memory

---
 .../Joye_libert/joye_libert.cpp               | 12 ++++++++
 .../LabeledHE/labeled_he.cpp                  | 28 +++++++++++++++++++
 .../muLabeledHE/mu_labeled_he.cpp             | 28 +++++++++++++++++++
 3 files changed, 68 insertions(+)

diff --git a/AsymmetricCryptography/Joye_libert/joye_libert.cpp b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
index 6df2d6d..45adc4b 100644
--- a/AsymmetricCryptography/Joye_libert/joye_libert.cpp
+++ b/AsymmetricCryptography/Joye_libert/joye_libert.cpp
@@ -157,6 +157,11 @@ void joye_libert_keygen(
 	std::cout << "Legendre y/p final: " << legendre_p << std::endl;
 	std::cout << "Legendre y/q final: " << legendre_q << std::endl;
 #endif
+
+	// Clean up
+	mpz_clears(q, p_test, q_test, pseudo_safeness_divisor, pseudo_test_p, NULL);
+	mpz_clears(pseudo_test_q, mod, one, t, tmp, NULL);
+	gmp_randclear(state);
 }
 
 void joye_libert_encrypt(
@@ -198,6 +203,9 @@ void joye_libert_encrypt(
 #ifdef DEBUG
 	gmp_printf("c: %Zd\n", c);
 #endif
+
+	// Clean up
+	mpz_clears(x, gcd, k_exp, tmp1, tmp2, NULL);
 }
 
 void joye_libert_decrypt(
@@ -257,4 +265,8 @@ void joye_libert_decrypt(
 	{
 		mpz_add(m, m, B);
 	}
+
+	// Clean up
+	mpz_clears(B, D, C, exp_msgsize, exp_y, NULL);
+	mpz_clears(neg_exp_y, p_1, z, exp_c, NULL);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 8385348..01f766c 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -81,6 +81,9 @@ void he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	// Clean up
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void he_eval_mult(
@@ -125,6 +128,9 @@ void he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	// Clean up
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void he_eval_mult_3(
@@ -188,6 +194,10 @@ void he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	// Clean up
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, NULL);
+	mpz_clears(a13beta2, a23beta1, ptspace, NULL);
 }
 
 void he_eval_add(
@@ -210,6 +220,9 @@ void he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
 
 void he_eval_add(
@@ -258,6 +271,9 @@ void he_eval_sub(
 	std::cout << "Multiplying beta\n";
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	// Clean up
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void he_eval_sub(
@@ -273,6 +289,9 @@ void he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	// Clean up
+	mpz_clears(c2_inv, NULL);
 }
 
 void he_eval_cmult(
@@ -294,6 +313,9 @@ void he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
 
 void he_eval_cmult(
@@ -336,6 +358,9 @@ void he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	// Clean up
+	mpz_clears(b, ptspace, NULL);
 }
 
 void he_decrypt(
@@ -356,4 +381,7 @@ void he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index 1320ee5..d8adfe5 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -89,6 +89,9 @@ void mu_he_encrypt(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 	mpz_sub(c->a, m, b);
 	mpz_mod(c->a, c->a, ptspace);
+
+	// Clean up
+	mpz_clears(beta, a, ptspace, NULL);
 }
 
 void mu_he_eval_mult(
@@ -133,6 +136,9 @@ void mu_he_eval_mult(
 	mpz_mod(alpha, alpha, N);
 	mpz_mul(alpha, alpha, a2beta1);
 	mpz_mod(alpha, alpha, N);
+
+	// Clean up
+	mpz_clears(a1a2, a1beta2, a2beta1, ptspace, NULL);
 }
 
 void mu_he_eval_mult_3(
@@ -196,6 +202,10 @@ void mu_he_eval_mult_3(
 
 	mpz_mul(alpha, alpha, a23beta1);
 	mpz_mod(alpha, alpha, N);
+
+	// Clean up
+	mpz_clears(a1a2a3, a1beta23, a2beta13, a3beta12, a12beta3, NULL);
+	mpz_clears(a13beta2, a23beta1, ptspace, NULL);
 }
 
 void mu_he_eval_add(
@@ -218,6 +228,9 @@ void mu_he_eval_add(
 	//mpz_add(c->beta, c1->beta, c2->beta);
 	mpz_mul(c->beta, c1->beta, c2->beta);
 	mpz_mod(c->beta, c->beta, N);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
 
 void mu_he_eval_add(
@@ -266,6 +279,9 @@ void mu_he_eval_sub(
 	std::cout << "Multiplying beta\n";
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
+
+	// Clean up
+	mpz_clears(ptspace, a_inv, beta_inv, NULL);
 }
 
 void mu_he_eval_sub(
@@ -281,6 +297,9 @@ void mu_he_eval_sub(
 	mpz_invert(c2_inv, c2, N);
 	mpz_mul(c, c1, c2_inv);
 	mpz_mod(c, c, N);
+
+	// Clean up
+	mpz_clears(c2_inv, NULL);
 }
 
 void mu_he_eval_cmult(
@@ -302,6 +321,9 @@ void mu_he_eval_cmult(
 	mpz_mod(c->a, c->a, ptspace);
 
 	mpz_powm(c->beta, c1->beta, a, N);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
 
 void mu_he_eval_cmult(
@@ -344,6 +366,9 @@ void mu_he_decrypt(
 	joye_libert_decrypt(b, c->beta, p, y, msgsize);
 	mpz_add(m, c->a, b);
 	mpz_mod(m, m, ptspace);	
+
+	// Clean up
+	mpz_clears(b, ptspace, NULL);
 }
 
 void mu_he_decrypt(
@@ -364,4 +389,7 @@ void mu_he_decrypt(
 	joye_libert_decrypt(m, c, p, y, msgsize);
 	mpz_add(m, m, b);
 	mpz_mod(m, m, ptspace);
+
+	// Clean up
+	mpz_clears(ptspace, NULL);
 }
-- 
2.43.0


From cedf804c45c10ba5864e6c576dbc6a72650fed9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:24:34 +0000
Subject: [PATCH 24/24] fix: labelled HE printed its masks and intermediate
 values

---
 .../LabeledHE/labeled_he.cpp                         | 12 ++++++++++++
 .../muLabeledHE/mu_labeled_he.cpp                    | 12 ++++++++++++
 2 files changed, 24 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 01f766c..0399071 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -67,7 +67,9 @@ void he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -247,7 +249,9 @@ void he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
+#ifdef DEBUG
 	std::cout << "Inside sub\n";
+#endif
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -256,19 +260,27 @@ void he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
+#ifdef DEBUG
 	std::cout << "Computing inverse a\n";
+#endif
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
 	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
+#ifdef DEBUG
 	std::cout << "Adding a\n";
+#endif
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
+#ifdef DEBUG
 	std::cout << "Multiplying beta\n";
+#endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 
diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
index d8adfe5..bd1554f 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/muLabeledHE/mu_labeled_he.cpp
@@ -75,7 +75,9 @@ void mu_he_encrypt(
 	// Import it back as an mpz_t
 	mpz_import(b, msgsize/32, 1, 4, 0, 0, keystream);
 
+#ifdef DEBUG
 	gmp_printf("b: %Zd\n", b);
+#endif
 
 	joye_libert_encrypt(c->beta, state, b, y, N, msgsize);
 
@@ -255,7 +257,9 @@ void mu_he_eval_sub(
 	// Case 1 - C1, C2 on the form (a, beta)
 	// C = C1 - C2
 	//
+#ifdef DEBUG
 	std::cout << "Inside sub\n";
+#endif
 	mpz_t ptspace, a_inv, beta_inv;
 	mpz_init(ptspace);
 	mpz_init(a_inv);
@@ -264,19 +268,27 @@ void mu_he_eval_sub(
 	mpz_ui_pow_ui(ptspace, 2, msgsize);
 
 	// Invert C2.
+#ifdef DEBUG
 	std::cout << "Computing inverse a\n";
+#endif
 	//mpz_invert(a_inv, c2->a, ptspace);
 	mpz_neg(a_inv, c2->a);
 	mpz_mod(a_inv, a_inv, ptspace);
+#ifdef DEBUG
 	gmp_printf("additive inverse a: %Zd\n", a_inv);
 	std::cout << "Computing inverse b\n";
+#endif
 	mpz_invert(beta_inv, c2->beta, N);
 
+#ifdef DEBUG
 	std::cout << "Adding a\n";
+#endif
 	mpz_add(c->a, c1->a, a_inv);
 	mpz_mod(c->a, c->a, ptspace);
 
+#ifdef DEBUG
 	std::cout << "Multiplying beta\n";
+#endif
 	mpz_mul(c->beta, c1->beta, beta_inv);
 	mpz_mod(c->beta, c->beta, N);
 
-- 
2.43.0

