From edd6ee8fea4e10eb6799ca1a735f1a6babae4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:29 +0000
Subject: [PATCH 01/14] fix: SHA-256: reserve the second padding block for
 lengths 63 mod 64

(size + 1)%64 is 0 there, so only one block was set aside and the padding was
written past the end of the message buffer.
---
 Hash/SHA/SHA-2/SHA-256/sha-256.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
index f80b922..a900cd3 100644
--- a/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
+++ b/Hash/SHA/SHA-2/SHA-256/sha-256.cpp
@@ -48,7 +48,7 @@ void sha256_process_message(uint8_t *digest, uint8_t *message, uint64_t size)
 {
 	int n = 0;
 	// Declare message to hold padded text
-	if ( (size + 1)%64 > 56 )
+	if ( (size)%64 >= 56 )
 	{
 		n = (size/64)*64 + 128;
 	} else {
-- 
2.43.0


From 9ccba96e3b884a60296d25efe5a24743ded8ea54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:30 +0000
Subject: [PATCH 02/14] fix: HMAC: compute the tag of an empty message

Generation returned without writing the tag, so validation compared the
received tag with uninitialised memory.
---
 Authentication/HMAC-SHA-256/hmac.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/Authentication/HMAC-SHA-256/hmac.cpp b/Authentication/HMAC-SHA-256/hmac.cpp
index 73e014e..895a45b 100644
--- a/Authentication/HMAC-SHA-256/hmac.cpp
+++ b/Authentication/HMAC-SHA-256/hmac.cpp
@@ -55,9 +55,6 @@ void hmac_load_key(hmac_state *cs, uint8_t *key, int keysize)
 
 void hmac_tag_generation(hmac_state *cs, uint8_t *tag, uint8_t *message, uint64_t dataLength, int tagLength)
 {
-	// Assert that datalength is strictly positive
-	if ( dataLength < 1 ) return;
-
 	// The inner key is used in the first computation along with the message
 	uint8_t *inner_computation = new uint8_t[dataLength+HMAC_KEYLENGTH];
 	std::memcpy(inner_computation, cs->inner_key, HMAC_KEYLENGTH);
-- 
2.43.0


From 0ba7202690335c4747de503865c92ffac801e9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:03 +0000
Subject: [PATCH 03/14] fix: AEGIS: no unsigned underflow in the block loops
 for messages of 1 to 14 bytes

msglen-15 and msglen-3 wrap around for short messages, so the full-block and
word loops ran far past the end of the buffers.
---
 StreamCiphers/AEGIS/AEGIS/aegis_128.cpp     | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp | 8 ++++----
 StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
index 6ab347b..e011f85 100644
--- a/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; (tmp+15) < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; (tmp+3) < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; (tmp+15) < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; (tmp+3) < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
index 64b25bb..be7197d 100644
--- a/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_ARM/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; (tmp+15) < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; (tmp+3) < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; (tmp+15) < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; (tmp+3) < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
diff --git a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
index f022ed2..6b7fd00 100644
--- a/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
+++ b/StreamCiphers/AEGIS/AEGIS_x86/aegis_128.cpp
@@ -119,7 +119,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	uint64_t tmp = 0;
 
 	// Encrypt full blocks
-	for (tmp; tmp < (msglen-15); tmp = tmp+16)
+	for (tmp; (tmp+15) < msglen; tmp = tmp+16)
 	{
 		// Encrypt using state
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -141,7 +141,7 @@ void aegis_encrypt(aegis_state *cs, uint8_t *ct, uint8_t *pt, uint64_t msglen)
 	int i = 0;
 
 	// Encrypt individual words if applicable
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; (tmp+3) < msglen; tmp = tmp+4)
 	{
 		*ct_w_ptr++ = *pt_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
@@ -169,7 +169,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 	uint32_t *ct_w_ptr = (uint32_t*)ct;
 	
 	uint64_t tmp = 0;
-	for (tmp; tmp < msglen-15; tmp += 16)
+	for (tmp; (tmp+15) < msglen; tmp += 16)
 	{
 		// Decrypt using state
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[0] ^ cs->s4[0] ^ (cs->s2[0] & cs->s3[0]);
@@ -191,7 +191,7 @@ void aegis_decrypt(aegis_state *cs, uint8_t *pt, uint8_t *ct, uint64_t msglen)
 
 	int i = 0;
 
-	for (tmp; tmp < (msglen-3); tmp = tmp+4)
+	for (tmp; (tmp+3) < msglen; tmp = tmp+4)
 	{
 		*pt_w_ptr++ = *ct_w_ptr++ ^ cs->s1[i] ^ cs->s4[i] ^ (cs->s2[i] & cs->s3[i]);
 		i++;
-- 
2.43.0


From 455b08eba7230f90bae9357729dcf74857c1ef8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:14:03 +0000
Subject: [PATCH 04/14] fix: AES-CTR: use the keystream bytes of a partial word
 in stream order

The shift started at 24 and grew beyond the word (undefined from the second
byte on), so the trailing size%4 bytes were not XORed with the next keystream
bytes.
---
 BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp     | 2 +-
 BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp | 2 +-
 BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
index edb761c..3d010d9 100644
--- a/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES/AES_CTR/aes_ctr.cpp
@@ -179,7 +179,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
index 8a14ccb..33e2c0e 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
diff --git a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
index 2b8292c..7ae1057 100644
--- a/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CTR/aes_ctr.cpp
@@ -214,7 +214,7 @@ void aes_ctr_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size)
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
-- 
2.43.0


From f860a80804e32afa948c581a73bde4646f3733ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:16:46 +0000
Subject: [PATCH 05/14] fix: AES-CFB: feed back exactly the last ciphertext
 bytes and keep the keystream in stream order

---
 BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp      | 165 ++----------------
 .../AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp    | 165 ++----------------
 .../AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp    | 165 ++----------------
 3 files changed, 45 insertions(+), 450 deletions(-)

diff --git a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
index 24dd469..07d8741 100644
--- a/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES/AES_CFB/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 31/03/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -90,153 +91,14 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 	cs->reg4 = (*ctxt); ctxt++;
 }
 
-void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
+void partial_state_update(aes_state *cs, uint32_t *prev_reg, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// The register holds the last 16 bytes of ciphertext: drop the
+	// oldest bytes of the previous register and append the new ones.
+	uint8_t reg[16];
+	std::memcpy(reg, ((uint8_t*)prev_reg) + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
+	full_state_update(cs, (uint32_t*)reg);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -265,6 +127,9 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			w_state_ptr = w_ptr_out;
 		}
 		
+		// The register is needed for a partial last block
+		uint32_t prev_reg[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
+
 		aes_encrypt(cs, keystream);
 		
 		if(size >= 16)
@@ -287,10 +152,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -301,13 +166,13 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
 			}
 
-			partial_state_update(cs, tmp_ptr, prev_size); 
+			partial_state_update(cs, prev_reg, tmp_ptr, prev_size); 
 
 		}
 	}
diff --git a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
index cf354cb..7ffbc35 100644
--- a/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_ARM/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -126,153 +127,14 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 	cs->reg4 = (*ctxt); ctxt++;
 }
 
-void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
+void partial_state_update(aes_state *cs, uint32_t *prev_reg, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// The register holds the last 16 bytes of ciphertext: drop the
+	// oldest bytes of the previous register and append the new ones.
+	uint8_t reg[16];
+	std::memcpy(reg, ((uint8_t*)prev_reg) + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
+	full_state_update(cs, (uint32_t*)reg);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -301,6 +163,9 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			w_state_ptr = w_ptr_out;
 		}
 		
+		// The register is needed for a partial last block
+		uint32_t prev_reg[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
+
 		aes_encrypt(cs, keystream);
 		
 		if(size >= 16)
@@ -323,10 +188,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -337,13 +202,13 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
 			}
 
-			partial_state_update(cs, tmp_ptr, prev_size); 
+			partial_state_update(cs, prev_reg, tmp_ptr, prev_size); 
 
 		}
 	}
diff --git a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
index c401888..a0e92dc 100644
--- a/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
+++ b/BlockCiphers/AES/AES_x86/AES_CFB_Carry-Over/aes_cfb.cpp
@@ -5,6 +5,7 @@
 // Petter Solnoer - 26/08/2020   //
 ///////////////////////////////////
 
+#include <cstring>
 #include <iostream>
 #include <fstream>
 #include "aes_cfb.h"
@@ -125,153 +126,14 @@ void full_state_update(aes_state *cs, uint32_t *ctxt)
 	cs->reg4 = (*ctxt); ctxt++;
 }
 
-void partial_state_update(aes_state *cs, uint8_t *ctxt, int size)
+void partial_state_update(aes_state *cs, uint32_t *prev_reg, uint8_t *ctxt, int size)
 {
-	if (size % 4 == 0)
-	{
-		if (size == 4)
-		{
-			cs->reg1 = cs->reg2;
-			cs->reg2 = cs->reg3;
-			cs->reg3 = cs->reg4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else if (size == 8)
-		{
-			cs->reg1 = cs->reg3;
-			cs->reg2 = cs->reg4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-		else
-		{
-			cs->reg1 = cs->reg4;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-		}
-	}
-	else if (size % 4 == 1)
-	{
-		if (size == 1)
-		{
-			cs->reg1 = ((cs->reg1 << 8) ^ (cs->reg2 >> 24));
-			cs->reg2 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg3 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg4 = ((cs->reg4 << 8) ^ (*ctxt));
-			size = 0;
-
-		}
-		if (size == 5)
-		{
-			cs->reg1 = ((cs->reg2 << 8) ^ (cs->reg3 >> 24));
-			cs->reg2 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg3 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 9)
-		{
-			cs->reg1 = ((cs->reg3 << 8) ^ (cs->reg4 >> 24));
-			cs->reg2 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 13)
-		{
-			cs->reg1 = ((cs->reg4 << 8) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else if (size % 4 == 2)
-	{
-		if (size == 2)
-		{
-			cs->reg1 = ((cs->reg1 << 16) ^ (cs->reg2 >> 16));
-			cs->reg2 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg3 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg4 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-
-		}
-		if (size == 6)
-		{
-			cs->reg1 = ((cs->reg2 << 16) ^ (cs->reg3 >> 16));
-			cs->reg2 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg3 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 10)
-		{
-			cs->reg1 = ((cs->reg3 << 16) ^ (cs->reg4 >> 16));
-			cs->reg2 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 14)
-		{
-			cs->reg1 = ((cs->reg4 << 16) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-	else
-	{
-		if (size == 3)
-		{
-			cs->reg1 = ((cs->reg1 << 24) ^ (cs->reg2 >> 8));
-			cs->reg2 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg4 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg4 = (cs->reg4 ^ (*ctxt));
-		}
-		if (size == 7)
-		{
-			cs->reg1 = ((cs->reg2 << 24) ^ (cs->reg3 >> 8));
-			cs->reg2 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg3 = ((cs->reg3 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg3 = ((cs->reg3) ^ (*ctxt)); ctxt++;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 11)
-		{
-			cs->reg1 = ((cs->reg3 << 24) ^ (cs->reg4 >> 8));
-			cs->reg2 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg2 = ((cs->reg2) ^ (*ctxt)); ctxt++;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-		}
-		if (size == 15)
-		{
-			cs->reg1 = ((cs->reg4 << 24) ^ ((*ctxt) << 16)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ ((*ctxt) << 8)); ctxt++;
-			cs->reg1 = ((cs->reg1) ^ (*ctxt)); ctxt++;
-			cs->reg2 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg3 = (*((uint32_t*)ctxt)); ctxt += 4;
-			cs->reg4 = (*((uint32_t*)ctxt));
-			size = 0;
-
-		}
-	}
-
+	// The register holds the last 16 bytes of ciphertext: drop the
+	// oldest bytes of the previous register and append the new ones.
+	uint8_t reg[16];
+	std::memcpy(reg, ((uint8_t*)prev_reg) + size, 16 - size);
+	std::memcpy(reg + 16 - size, ctxt, size);
+	full_state_update(cs, (uint32_t*)reg);
 }
 
 void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size, int mode)
@@ -300,6 +162,9 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			w_state_ptr = w_ptr_out;
 		}
 		
+		// The register is needed for a partial last block
+		uint32_t prev_reg[4] = {cs->reg1, cs->reg2, cs->reg3, cs->reg4};
+
 		aes_encrypt(cs, keystream);
 		
 		if(size >= 16)
@@ -322,10 +187,10 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 			// Process individual bytes at this point
 			uint8_t *tmp_ptr = (uint8_t*) w_state_ptr;
 			int prev_size = size;
-			int k = 3;
+			int k = 0;
 			while (size >= 4)
 			{
-				*w_ptr_out = (*w_ptr_in) ^ keystream[k--]; w_ptr_in++; w_ptr_out++;
+				*w_ptr_out = (*w_ptr_in) ^ keystream[k++]; w_ptr_in++; w_ptr_out++;
 				size -= 4;
 			}
 
@@ -336,13 +201,13 @@ void aes_cfb_process_packet(aes_state *cs, uint8_t *out, uint8_t *in, int size,
 				uint8_t *byte_ptr_in = (uint8_t*) w_ptr_in;
 				while (size > 0)
 				{
-					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (24 - (8*(l--)))));
+					*byte_ptr_out = (*byte_ptr_in) ^ ( (uint8_t)(keystream[k] >> (8*(l++))));
 					byte_ptr_out++; byte_ptr_in++;
 					size -= 1;
 				}
 			}
 
-			partial_state_update(cs, tmp_ptr, prev_size); 
+			partial_state_update(cs, prev_reg, tmp_ptr, prev_size); 
 
 		}
 	}
-- 
2.43.0


From 8fbc5c3ffe1284168743980409f1621525b3aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:30 +0000
Subject: [PATCH 06/14] fix: Rabbit: carry on a counter sum of exactly 2^32,
 and restore the master carry when an IV is loaded

---
 StreamCiphers/Rabbit/rabbit.cpp | 2 ++
 StreamCiphers/Rabbit/rabbit.h   | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/StreamCiphers/Rabbit/rabbit.cpp b/StreamCiphers/Rabbit/rabbit.cpp
index 44e9ab3..90acd8e 100644
--- a/StreamCiphers/Rabbit/rabbit.cpp
+++ b/StreamCiphers/Rabbit/rabbit.cpp
@@ -92,6 +92,7 @@ void rabbit_load_key(rabbit_state *cs, uint8_t key[16])
 		cs->MASTER_C[j] = cs->C[j];
 		cs->MASTER_X[j] = cs->X[j];
 	}
+	cs->MASTER_carry = cs->carry;
 #ifdef DEBUG
 	std::cout << "\n\n\nAfter final XOR\n" << std::endl;
 	print_inner_state(cs);
@@ -114,6 +115,7 @@ void rabbit_load_iv(rabbit_state *cs, uint8_t iv[8])
 	cs->X[5] = cs->MASTER_X[5];
 	cs->X[6] = cs->MASTER_X[6];
 	cs->X[7] = cs->MASTER_X[7];
+	cs->carry = cs->MASTER_carry;
 
 	uint16_t *iv_u16 = (uint16_t*)iv; 
 	uint32_t *iv_u32 = (uint32_t*)iv;
diff --git a/StreamCiphers/Rabbit/rabbit.h b/StreamCiphers/Rabbit/rabbit.h
index d085d22..006faed 100644
--- a/StreamCiphers/Rabbit/rabbit.h
+++ b/StreamCiphers/Rabbit/rabbit.h
@@ -32,6 +32,7 @@ static const uint32_t A[8] = {
 struct rabbit_state{
 	uint32_t MASTER_X[8];
 	uint32_t MASTER_C[8];
+	uint8_t MASTER_carry;
 	uint32_t X[8];
 	uint32_t C[8];
 	uint8_t carry;
@@ -61,7 +62,7 @@ inline void rabbit_counter(rabbit_state *cs)
 	for (int j = 0; j < 8; j++)
 	{
 		temp = (uint64_t)cs->C[j] + (uint64_t)A[j] + (uint64_t)cs->carry;
-		cs->carry = temp > WORDSIZE;
+		cs->carry = temp >= WORDSIZE;
 #ifdef DEBUG
 		std::cout << "Wordsize: " << WORDSIZE << std::endl;
 
-- 
2.43.0


From 27885b273e55ff0a945f6cfc1683f8e13a76e23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:30 +0000
Subject: [PATCH 07/14] fix: Serpent: pad short keys with the byte 0x01
 (little-endian bit order)

---
 BlockCiphers/Serpent/serpent.cpp    | 6 +++---
 StreamCiphers/Sosemanuk/serpent.cpp | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/BlockCiphers/Serpent/serpent.cpp b/BlockCiphers/Serpent/serpent.cpp
index 6e14406..74fdc73 100644
--- a/BlockCiphers/Serpent/serpent.cpp
+++ b/BlockCiphers/Serpent/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, as the key bytes are
+		// read in little-endian bit order.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
diff --git a/StreamCiphers/Sosemanuk/serpent.cpp b/StreamCiphers/Sosemanuk/serpent.cpp
index 6e14406..74fdc73 100644
--- a/StreamCiphers/Sosemanuk/serpent.cpp
+++ b/StreamCiphers/Sosemanuk/serpent.cpp
@@ -130,9 +130,9 @@ void serpent_key_schedule(serpent_state *ctx, uint8_t *input_key, int size)
 	if ( size < 32 )
 	{
 				// Appending a 1-bit followed by 0-bits is
-		// similar to appending 0x80 hex:
-		// 0x80  = 1000 0000
-		key[size] = 0x80; size++;
+		// similar to appending 0x01 hex, as the key bytes are
+		// read in little-endian bit order.
+		key[size] = 0x01; size++;
 		for ( ; size < 32; size++)
 		{
 			key[size] = 0x00;
-- 
2.43.0


From 29bff673917372e3ff1962b6cd32a116635607fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:30 +0000
Subject: [PATCH 08/14] fix: Sosemanuk: finite state machine update as
 specified

---
 StreamCiphers/Sosemanuk/sosemanuk.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.h b/StreamCiphers/Sosemanuk/sosemanuk.h
index 7bc3b21..b0432f8 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.h
+++ b/StreamCiphers/Sosemanuk/sosemanuk.h
@@ -51,8 +51,9 @@ inline uint32_t Trans(uint32_t R1)
 inline void sosemanuk_fsm_update(sosemanuk_state *cs, uint32_t *f_buf)
 {
 	// Update fsm
-	cs->R1 = cs->R2 + mux(cs->R1, cs->s[1], (cs->s[8] ^ cs->s[9]));
-	cs->R2 = Trans(cs->R1);
+	uint32_t old_R1 = cs->R1;
+	cs->R1 = cs->R2 + mux(old_R1, cs->s[1], (cs->s[1] ^ cs->s[8]));
+	cs->R2 = Trans(old_R1);
 	*f_buf = (cs->s[9] + cs->R1) ^ cs->R2;
 	
 }
-- 
2.43.0


From b1e8494f3aa6c3920443ebd66171d71fff5a4c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:05 +0000
Subject: [PATCH 09/14] fix: DES: use the round keys of every round, and
 big-endian words as FIPS 46-3

---
 Legacy/DES/des.cpp | 14 ++++++++------
 Legacy/DES/des.h   | 10 ++++++++--
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 396b597..38b2be6 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -8,8 +8,8 @@ void des_key_schedule_encrypt(des_state *cs, u8 *key)
 
 	u32 *key_ptr = (u32*)key;
 
-	X = *key_ptr++;
-	Y = *key_ptr;
+	X = DES_BE(*key_ptr++);
+	Y = DES_BE(*key_ptr);
 
 	u32 *rk_ptr = cs->rk;
 
@@ -88,19 +88,21 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input)
 {
 	u32 X, Y, T;
 
-	X = *input++; Y = *input; 
+	X = DES_BE(*input++); Y = DES_BE(*input);
 
 	DES_IP(&X, &Y, &T);
 
+	u32 *rk_ptr = cs->rk;
+
 	for (int i = 0; i < 8; i++)
 	{
-		DES_ROUND(cs, &Y, &X, &T);
-		DES_ROUND(cs, &X, &Y, &T);
+		DES_ROUND(rk_ptr, &Y, &X, &T); rk_ptr += 2;
+		DES_ROUND(rk_ptr, &X, &Y, &T); rk_ptr += 2;
 	}
 
 	DES_FP(&Y, &X, &T);
 
-	*output++ = Y; *output = X;
+	*output++ = DES_BE(Y); *output = DES_BE(X);
 }
 
 void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
diff --git a/Legacy/DES/des.h b/Legacy/DES/des.h
index f55826b..ea64e0b 100644
--- a/Legacy/DES/des.h
+++ b/Legacy/DES/des.h
@@ -57,6 +57,13 @@ void des_ecb_block(des_state *cs, u32 *output, u32 *input);
 void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size);
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size);
 
+// DES numbers its bits from the most significant bit of the first byte.
+// The words are thus kept big-endian, and swapped when read or written.
+inline u32 DES_BE(u32 x)
+{
+	return (x >> 24) | ((x >> 8) & 0x0000ff00) | ((x << 8) & 0x00ff0000) | (x << 24);
+}
+
 static const u32 LHs[16] =
 {
     0x00000000, 0x00000001, 0x00000100, 0x00000101,
@@ -246,9 +253,8 @@ inline void DES_IP(u32 *X, u32 *Y, u32 *T)
 	*X = ((*X << 1) | (*X >> 31)) & 0xffffffff;
 }
 
-inline void DES_ROUND(des_state *cs, u32 *X, u32 *Y, u32 *T)
+inline void DES_ROUND(u32 *rk_ptr, u32 *X, u32 *Y, u32 *T)
 {
-	u32 *rk_ptr = cs->rk;
 	*T = *rk_ptr ^ *X; rk_ptr++;
     	*Y ^= Sbox8[ (*T      ) & 0x3f ] ^
          Sbox6[ (*T >>  8) & 0x3f ] ^
-- 
2.43.0


From 5db03acafc4b68871a219aa891586b93a1496641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:05 +0000
Subject: [PATCH 10/14] fix: DES-CTR: count in the 64-bit block that is
 encrypted

---
 Legacy/DES/des.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/Legacy/DES/des.cpp b/Legacy/DES/des.cpp
index 38b2be6..661111b 100644
--- a/Legacy/DES/des.cpp
+++ b/Legacy/DES/des.cpp
@@ -118,10 +118,10 @@ void des_process_packet_ecb(des_state *cs, u32 *output, u32 *input, u64 size)
 void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce, u64 size)
 {
 	// We always assume that the size divides the block size.
-	// Furthermore, we use a 96 bit nonce and a 32 bit counter.
-	u32 iv[4];
-	std::memcpy(iv, nonce, 12);
-	iv[3] = 0;
+	// Furthermore, the first 64 bits of the nonce are the initial value of
+	// the counter block, which is incremented as a 64 bit big-endian number.
+	u32 iv[2];
+	std::memcpy(iv, nonce, 8);
 	while (size > 0)
 	{
 		u32 keystream[2] = {0};
@@ -133,6 +133,11 @@ void des_process_packet_ctr(des_state *cs, u32 *output, u32 *input, u32 *nonce,
 		*output = *input ^ keystream[1];
 		output++; input++;
 
-		iv[3] += 1; size -= 8;
+		iv[1] = DES_BE(DES_BE(iv[1]) + 1);
+		if (iv[1] == 0)
+		{
+			iv[0] = DES_BE(DES_BE(iv[0]) + 1);
+		}
+		size -= 8;
 	}
 }
-- 
2.43.0


From c3d4fede7d103603dafd1dc7474e085acd1e8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:34 +0000
Subject: [PATCH 11/14] fix: LabeledHE: zero the label buffer before a shorter
 label is exported into it

---
 .../Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp     | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
index 7e3ed72..db43885 100644
--- a/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
+++ b/AsymmetricCryptography/Labeled_homomorphic_encryption/LabeledHE/labeled_he.cpp
@@ -2,6 +2,7 @@
 #include "../../Joye_libert/joye_libert.h"
 
 #include <iostream>
+#include <cstring>
 
 he_ct::he_ct(void)
 {
@@ -54,6 +55,7 @@ void he_encrypt(
 	
 	// Declare array
 	uint8_t keystream[msgsize/8];
+	std::memset(keystream, 0, msgsize/8);
 	
 	// Load label into the array
 	size_t size = (mpz_sizeinbase(label, 2) + CHAR_BIT-1)/CHAR_BIT;
-- 
2.43.0


From 6f38ee56605aeff3e1b4871bf47274b26f91e72c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:34 +0000
Subject: [PATCH 12/14] fix: example_ae: stop when the tag of the second
 message is invalid

---
 Example_AuthenticatedEncryption/example_ae.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Example_AuthenticatedEncryption/example_ae.cpp b/Example_AuthenticatedEncryption/example_ae.cpp
index d1b8194..0cc464d 100644
--- a/Example_AuthenticatedEncryption/example_ae.cpp
+++ b/Example_AuthenticatedEncryption/example_ae.cpp
@@ -131,6 +131,7 @@ int main()
 	// not valid, the ciphertext is NOT decrypted.
 	if ( !(hmac_tag_validation(&a_cs, &msg2[HC128_IV_SIZE+plaintext2.size()], msg2, HC128_IV_SIZE+plaintext2.size(), TAGSIZE)) ) {
 		std::cout << "Invalid tag!\n";
+		exit(1);
 	}
 	// Else, tag is valid. Proceed to initialize the cipher and decrypt.
 	std::cout << "Valid tag!\n";
-- 
2.43.0


From 84693a04898c82e30becf76fb93109acbf8faf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:44 +0000
Subject: [PATCH 13/14] fix: HC-128: continue the step count from packet to
 packet

---
 StreamCiphers/HC-128/hc128.cpp | 10 ++++++++--
 StreamCiphers/HC-128/hc128.h   |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/StreamCiphers/HC-128/hc128.cpp b/StreamCiphers/HC-128/hc128.cpp
index 53076ce..d0c8516 100644
--- a/StreamCiphers/HC-128/hc128.cpp
+++ b/StreamCiphers/HC-128/hc128.cpp
@@ -38,6 +38,9 @@ void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16])
 		cs->Q[i] = W[i+768];
 	}
 	/////////////////////////////////////////////
+	// The keystream starts at step 0
+	cs->step = 0;
+	/////////////////////////////////////////////
 	// Stage 3: Iterate cipher 1024 steps, and update P, Q with output
 	//
 	// We must perform operations modulo 512. This corresponds to performing
@@ -66,8 +69,11 @@ void hc128_generate_keystream(hc128_state *cs, uint32_t *keystream, uint64_t siz
 	// Generate keystream
 	for (int i = 0; i <= (size-1)/4; i++)
 	{
-		int j = (i&0x1FF);
-		if ( (i&0x3FF) < 512 )
+		// The steps continue where the previous packet ended
+		int j = (cs->step&0x1FF);
+		uint32_t step = (cs->step&0x3FF);
+		cs->step = (cs->step+1)&0x3FF;
+		if ( step < 512 )
 		{
 			// Operate on P
 			cs->P[j] = cs->P[j] + g1(cs->P[(j-3)&0x1FF],
diff --git a/StreamCiphers/HC-128/hc128.h b/StreamCiphers/HC-128/hc128.h
index 40e20f7..7a22888 100644
--- a/StreamCiphers/HC-128/hc128.h
+++ b/StreamCiphers/HC-128/hc128.h
@@ -37,6 +37,7 @@
 struct hc128_state{
 	uint32_t P[512];
 	uint32_t Q[512];
+	uint32_t step;
 };
 
 void hc128_initialize(hc128_state *cs, uint8_t key[16], uint8_t iv[16]);
-- 
2.43.0


From 06ac9c6c05421b9a4fc67ea5e38bff3d18588cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:24:30 +0000
Subject: [PATCH 14/14] fix: Sosemanuk: do not discard a keystream block after
 a packet of whole blocks

---
 StreamCiphers/Sosemanuk/sosemanuk.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/StreamCiphers/Sosemanuk/sosemanuk.cpp b/StreamCiphers/Sosemanuk/sosemanuk.cpp
index 70f3fba..c681d58 100644
--- a/StreamCiphers/Sosemanuk/sosemanuk.cpp
+++ b/StreamCiphers/Sosemanuk/sosemanuk.cpp
@@ -78,6 +78,9 @@ void sosemanuk_process_packet(sosemanuk_state *cs, uint8_t *out, uint8_t *in, ui
 		size -= 16;
 	}
 
+	// No keystream is generated, and discarded, after the last whole block
+	if (size == 0) return;
+
 	sosemanuk_fsm_update(cs, &f_buf[0]);
 	sosemanuk_lfsr_update(cs, &s_buf[0]);
 	
-- 
2.43.0

