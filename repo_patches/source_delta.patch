From d2b41a36bb3b6cf5c5be0b7262578a755187a1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:01 +0000
Subject: [PATCH 01/94] fix: serialise 8- and 16-bit integers from their own
 member, sign- or zero-extended

---
 osc_atom_u.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index d07407b..aaa5c48 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1355,7 +1355,26 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 		if(!buf){
 			return 4;
 		}else if(n >= 4){
-			int32_t i = a->w.i;
+			// 8- and 16-bit ints are widened to 32 bits on the wire; the rest of the
+			// word isn't theirs to read
+			int32_t i;
+			switch(osc_atom_u_getTypetag(a)){
+			case 'c':
+				i = a->w.c;
+				break;
+			case 'C':
+				i = a->w.C;
+				break;
+			case 'u':
+				i = a->w.u;
+				break;
+			case 'U':
+				i = a->w.U;
+				break;
+			default:
+				i = a->w.i;
+				break;
+			}
 			*((int32_t *)buf) = hton32(i);
 			return 4;
 		}
-- 
2.43.0


From 15747eb31cc511797db549a9b373d52d95fbcaac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:18 +0000
Subject: [PATCH 02/94] fix: allocate a whole, initialised header in
 osc_bundle_s_allocEmptyBundle and setBundleID_b

---
 osc_bundle_s.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 26173cc..faca4c6 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -54,7 +54,7 @@ t_osc_bndl_s *osc_bundle_s_alloc(long len, char *ptr)
 
 t_osc_bndl_s *osc_bundle_s_allocEmptyBundle(void)
 {
-	t_osc_bndl_s *b = osc_mem_alloc(sizeof(t_osc_bndl_s));
+	t_osc_bndl_s *b = osc_bundle_s_alloc(0, NULL);
 	osc_bundle_s_setBundleID_b(b);
 	return b;
 }
@@ -499,7 +499,7 @@ t_osc_err osc_bundle_s_setBundleID_b(t_osc_bndl_s *bndl)
 		return OSC_ERR_NOBUNDLE;
 	}
 	if(!(bndl->ptr)){
-		bndl->ptr = osc_mem_alloc(OSC_IDENTIFIER_SIZE);
+		bndl->ptr = osc_mem_alloc(OSC_HEADER_SIZE);
 		if(!(bndl->ptr)){
 			return OSC_ERR_OUTOFMEM;
 		}
-- 
2.43.0


From 6355ffe8ece92bf5ce38b1b057d9c4ff477b9d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:19 +0000
Subject: [PATCH 03/94] fix: clear the timetag of the empty bundles made by
 wrapMessage, union, intersection and difference

---
 osc_bundle_s.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index faca4c6..6bf5bc6 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -337,6 +337,7 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 		if(!(*bndl)){
 			return OSC_ERR_OUTOFMEM;
 		}
+		memset(*bndl, '\0', OSC_HEADER_SIZE);
 		*alloc = 1;
 	}
 	osc_bundle_s_setBundleID(*bndl);
@@ -699,6 +700,7 @@ t_osc_bndl_s *osc_bundle_s_union(t_osc_bndl_s *lhs, t_osc_bndl_s *rhs)
 	t_osc_bndl_s *b = NULL;
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+		memset(bndl_out, '\0', OSC_HEADER_SIZE);
 		osc_bundle_s_setBundleID(bndl_out);
 		len_out = OSC_HEADER_SIZE;
 		goto out;
@@ -755,6 +757,7 @@ t_osc_err osc_bundle_s_intersection(long len1, char *bndl1, long len2, char *bnd
 	if(len1 == 0 || len2 == 0 || len1 == OSC_HEADER_SIZE || len2 == OSC_HEADER_SIZE){
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+			memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		}
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
@@ -800,6 +803,7 @@ t_osc_err osc_bundle_s_difference(long len1, char *bndl1, long len2, char *bndl2
 	if((len1 == 0 && len2 == 0) || (len1 == OSC_HEADER_SIZE && len2 == OSC_HEADER_SIZE)){
 		if(!(*bndl_out)){
 			*bndl_out = osc_mem_alloc(OSC_HEADER_SIZE);
+			memset(*bndl_out, '\0', OSC_HEADER_SIZE);
 		}
 		osc_bundle_s_setBundleID(*bndl_out);
 		*len_out = OSC_HEADER_SIZE;
-- 
2.43.0


From ae3c2eedc375939a87bfb0374875cdaa0d659f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 04/94] fix: look for the type string after the message's
 address, not after one as long as the pattern

---
 osc_bundle_s.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 6bf5bc6..30a8a49 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -196,7 +196,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 			}
 		}
 		//if(osc_message_s_getArgCount(m) > 0){
-		char *tt = msg_address + osc_util_getPaddedStringLen(address);
+		char *tt = msg_address + osc_util_getPaddedStringLen(msg_address);
 		if(tt - msg < size + 4 && tt[1] != 0){
 			*res = 1;
 			break;
-- 
2.43.0


From f35819d06dc5eddc6e82c9ae8575a51e9a430fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 05/94] fix: keep the bundle sanity check inside the buffer for
 truncated and huge message sizes

---
 osc_error.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 0d0df92..2034259 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -146,12 +146,13 @@ t_osc_err osc_error_bundleSanityCheck(int len, char *bundle)
 		return OSC_ERR_NOBUNDLEID;
 	}
 	char *ptr = bundle + OSC_HEADER_SIZE;
-	int cumsize = OSC_HEADER_SIZE;
 	while((ptr - bundle) < len){
-		cumsize += 4; // msg size
+		long remaining = len - (ptr - bundle);
+		if(remaining < 4){ // no room for the msg size
+			return OSC_ERR_MSGTOOLARGE;
+		}
 		int size = ntoh32(*((uint32_t *)ptr));
-		cumsize += size;
-		if(cumsize > len){
+		if(size > remaining - 4){
 			return OSC_ERR_MSGTOOLARGE;
 		}
 		int ret;
-- 
2.43.0


From e236f34ce901a9b015fac3df862648f1f0cc983e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:13 +0000
Subject: [PATCH 06/94] fix: a negative argument index is out of range

---
 osc_message_s.c | 4 ++--
 osc_message_u.c | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 049e69d..66ccce8 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -214,7 +214,7 @@ char *osc_message_s_getPtr(t_osc_msg_s *m){
 char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return 0;
 	}
 #endif
@@ -224,7 +224,7 @@ char osc_message_s_getTypetag(t_osc_msg_s *m, int n){
 void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 #ifdef OSC_MESSAGE_S_CAREFUL
 	int nn = osc_message_s_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return;
 	}
 #endif
diff --git a/osc_message_u.c b/osc_message_u.c
index 15994ac..cf2adb3 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -215,7 +215,7 @@ t_osc_atom_u *osc_message_u_getArg(t_osc_msg_u *m, int n)
 		return NULL;
 	}
 	int nn = osc_message_u_getArgCount(m);
-	if(nn <= n){
+	if(n < 0 || nn <= n){
 		return NULL;
 	}
 	if(n == 0){
-- 
2.43.0


From 01dac5aca9723060a722e2ed9a227471a49894c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 07/94] fix: insertAtom terminates the list when it appends,
 and treats a negative position as the front; setAddress(NULL) frees the old
 address

---
 osc_message_u.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index cf2adb3..8225f4a 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -171,6 +171,9 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		return OSC_ERR_INVAL;
 	}
 	if(!address){
+		if(m->address){
+			osc_mem_free(m->address);
+		}
 		m->address = NULL;
 		return OSC_ERR_NONE;
 	}
@@ -279,10 +282,11 @@ t_osc_err osc_message_u_insertAtom(t_osc_msg_u *m, t_osc_atom_u *a, int pos)
 			m->argtail->next = a;
 		}
 		a->prev = m->argtail;
+		a->next = NULL;
 		m->argtail = a;
 		goto out;
 	}
-	if(pos == 0){
+	if(pos <= 0){
 		a->next = m->arghead;
 		if(m->arghead){
 			m->arghead->prev = a;
-- 
2.43.0


From 7b9ebec8ea09c50a053812f84c4628fc96541504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:33 +0000
Subject: [PATCH 08/94] fix: prependString and insertString leaked a second
 copy of the string

---
 osc_message_u.c | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 8225f4a..1991c27 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -599,10 +599,7 @@ t_osc_atom_u *osc_message_u_prependStringPtr(t_osc_msg_u *m, char *v)
 t_osc_atom_u *osc_message_u_prependString(t_osc_msg_u *m, char *v)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_prependAtom(m, a);
 	return a;
 }
@@ -768,10 +765,7 @@ t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 t_osc_atom_u *osc_message_u_insertString(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	int len = strlen(v);
-	char *buf = osc_mem_alloc(len + 1);
-	strncpy(buf, v, len + 1);
-	osc_atom_u_setString(a, buf);
+	osc_atom_u_setString(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
-- 
2.43.0


From 22b1461b4945e4d071f51d36406bb781678f4fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:44 +0000
Subject: [PATCH 09/94] fix: osc_message_u_deepCopy releases what the
 destination held

---
 osc_message_u.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 1991c27..f3b2dd9 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -105,13 +105,18 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 	if(!src){
 		return OSC_ERR_NULLPTR;
 	}
+	if(*dest == src){
+		return OSC_ERR_NONE;
+	}
 	if(!(*dest)){
 		*dest = osc_message_u_alloc();
 	}
+	osc_message_u_clearArgs(*dest);
+	if((*dest)->address){
+		osc_mem_free((*dest)->address);
+		(*dest)->address = NULL;
+	}
 	(*dest)->size = src->size;
-	(*dest)->argc = 0;
-	(*dest)->arghead = NULL;
-	(*dest)->argtail = NULL;
 	if(src->address){
 		char *address = NULL;
 		osc_util_strdup(&address, src->address);
-- 
2.43.0


From 5b3b98cb9b113ce053f1a2683a6290cfe2cd85eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:45 +0000
Subject: [PATCH 10/94] fix: osc_bundle_u_removeMsg keeps the message count
 right

---
 osc_bundle_u.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 3234705..94d10c7 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -263,7 +263,6 @@ static t_osc_err osc_bundle_u_addMsg_impl(t_osc_bndl_u *bndl, t_osc_msg_u *msg,
 				if(messageaddr && !strcmp(address, messageaddr)){
 					osc_bundle_u_removeMsg(bndl, m);
 					osc_message_u_free(m);
-					bndl->msgcount--;
 				}
 				m = next;
 			}
@@ -410,6 +409,7 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 	if(m == bndl->msgtail){
 		bndl->msgtail = m->prev;
 	}
+	bndl->msgcount--;
 	return OSC_ERR_NONE;
 }
 
@@ -422,7 +422,6 @@ void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
             if(!strcmp(address, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
-                bndl->msgcount--;
             }
             m = next;
         }
-- 
2.43.0


From ba32bf5140434c33c617e8841d205e1b538b66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:46 +0000
Subject: [PATCH 11/94] fix: osc_bundle_u_addMsgList links the messages both
 ways and keeps those already there

---
 osc_bundle_u.c | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 94d10c7..89975b5 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -379,17 +379,12 @@ t_osc_err osc_bundle_u_addMsgList(t_osc_bndl_u *bndl, t_osc_msg_u *msgs)
 	if(!bndl){
 		return OSC_ERR_NOBUNDLE;
 	}
-	int n = 0;
-	t_osc_msg_u *last = msgs;
-	bndl->msghead = msgs;
 	while(msgs){
-		n++;
-		last = msgs;
-		msgs = osc_message_u_next(msgs);
+		t_osc_msg_u *next = osc_message_u_next(msgs);
+		osc_bundle_u_addMsg(bndl, msgs);
+		msgs = next;
 	}
-	bndl->msgcount = n;
-	bndl->msgtail = last;
-	return 0;
+	return OSC_ERR_NONE;
 }
 
 t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
-- 
2.43.0


From 1ce2bb5cda1280948ecf6a7279a19c8b1124cd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:47 +0000
Subject: [PATCH 12/94] fix: osc_bundle_u_addressIsBound looks at every match,
 as osc_bundle_s_addressIsBound does

---
 osc_bundle_u.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 89975b5..5c4984d 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -180,8 +180,10 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }
-        *res = (osc_message_u_getArgCount(m) > 0);
-        break;
+        if(osc_message_u_getArgCount(m) > 0){
+            *res = 1;
+            break;
+        }
     }
     osc_bndl_it_u_destroy(it);
     return OSC_ERR_NONE;
-- 
2.43.0


From 978bd5b22d2247aacf4f0a82fed36c7853cc20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:49 +0000
Subject: [PATCH 13/94] fix: osc_bundle_u_flatten no longer steps from an atom
 it has freed

---
 osc_bundle_u.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 5c4984d..b0a9943 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -445,9 +445,9 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		t_osc_msg_u *mcopy = NULL;
 		osc_message_u_deepCopy(&mcopy, m);
 		if((level < maxlevel) || (maxlevel <= 0)){
-			t_osc_msg_it_u *mit = osc_msg_it_u_get(mcopy);
-			while(osc_msg_it_u_hasNext(mit)){
-				t_osc_atom_u *a = osc_msg_it_u_next(mit);
+			t_osc_atom_u *next = NULL;
+			for(t_osc_atom_u *a = osc_message_u_getArg(mcopy, 0); a; a = next){
+				next = a->next;
 				if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 					osc_message_u_removeAtom(mcopy, a);
 					t_osc_bndl_u *bu = osc_atom_u_getBndl(a);
@@ -484,7 +484,6 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					osc_atom_u_free(a);
 				}
 			}
-			osc_msg_it_u_destroy(mit);
 		}
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
-- 
2.43.0


From 6938f07dc616885a6c23a123d49654220b3b18fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:50 +0000
Subject: [PATCH 14/94] fix: explode with a separator other than '/' drops the
 separator instead of recursing on it for ever

---
 osc_message_u.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index f3b2dd9..85cbc95 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -911,7 +911,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, alen - i);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
@@ -946,7 +946,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					strncpy(a2, a + i + 1, (alen - i));
 				}else{
 					a2[0] = '/';
-					strncpy(a2 + 1, a + i, (alen - i) + 1);
+					strncpy(a2 + 1, a + i + 1, alen - i);
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
-- 
2.43.0


From 788c6f03dbe42ec5fb04460c447379d9e53e8e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:51 +0000
Subject: [PATCH 15/94] fix: a value owns its copy of a string, blob or bundle
 and releases it when overwritten

---
 osc_atom_u.c | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index aaa5c48..799e056 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -86,6 +86,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         case 's':
             aa->w.s = osc_mem_alloc(strlen(src->w.s) + 1);
             strcpy(aa->w.s, src->w.s);
+            aa->alloc = 1; // the copy owns its string, whoever owns the original
         break;
         case OSC_BUNDLE_TYPETAG:
             aa->w.bndl = NULL;
@@ -97,6 +98,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
         int32_t size = osc_util_getPaddingForNBytes(len);
         aa->w.s = osc_mem_alloc(size + 4);
         memcpy(aa->w.b, src->w.b, len + 4);
+        aa->alloc = 1;
     }
         break;
         default:
@@ -134,7 +136,7 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
-        osc_bundle_u_free(a->w.b);
+        osc_mem_free(a->w.b);
         a->w.b = NULL;
     }
 	a->alloc = 0;
@@ -1118,9 +1120,11 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->w.s = osc_mem_resize(a->w.s, len);
 			strncpy(a->w.s, v, len);
 		}else{
+			osc_mem_free(a->w.s);
 			a->w.s = NULL;
 		}
 	}else{
+		osc_atom_u_clear(a);
 		if(v){
 			a->w.s = osc_mem_alloc(strlen(v) + 1);
 			strcpy(a->w.s, v);
@@ -1207,6 +1211,12 @@ void osc_atom_u_setBndl_s(t_osc_atom_u *a, long len, char *ptr)
 
 void osc_atom_u_setBndl_u(t_osc_atom_u *a, t_osc_bndl_u *b)
 {
+	if(!a){
+		return;
+	}
+	if(a->typetag != OSC_BUNDLE_TYPETAG || a->w.bndl != b){
+		osc_atom_u_clear(a);
+	}
 	a->w.bndl = b;
 	a->typetag = OSC_BUNDLE_TYPETAG;
 }
@@ -1237,6 +1247,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	memcpy(copy, blob, l + 4);
 	a->w.b = copy;
 	a->typetag = 'b';
+	a->alloc = 1;
 }
 
 void osc_atom_u_setBlobPtr(t_osc_atom_u *a, char *blob)
-- 
2.43.0


From f2eb3abdb7959ab3aa3cbaae1d72ba0ba0988a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:17 +0000
Subject: [PATCH 16/94] fix: the serialised value getters read every type as
 the in-memory ones do, and blob copies stay inside the value

---
 osc_atom_s.c | 73 ++++++++++++++++++++++++++++++++++++++++++++++------
 osc_atom_u.c | 12 ++++-----
 2 files changed, 71 insertions(+), 14 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f6c2cfb..f784cad 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -115,6 +115,13 @@ float osc_atom_s_getFloat(t_osc_atom_s *a)
 		return 0.f;
 	case 'N': // NULL
 		return 0.f;
+	case OSC_TIMETAG_TYPETAG:
+		return (float)osc_timetag_timetagToFloat(osc_atom_s_getTimetag(a));
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 4){
+			uint32_t i = ntoh32(*((uint32_t *)(a->data + 4)));
+			return *((float *)&i);
+		}
 	}
 	return 0.f;
 }
@@ -158,17 +165,33 @@ double osc_atom_s_getDouble(t_osc_atom_s *a)
 		return 0.;
 	case 'N': // NULL
 		return 0.;
+	case OSC_TIMETAG_TYPETAG:
+		return osc_timetag_timetagToFloat(osc_atom_s_getTimetag(a));
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 8){
+			uint64_t i = ntoh64(*((uint64_t *)(a->data + 4)));
+			return *((double *)&i);
+		}
 	}
 	return 0.;
 }
 
 int8_t osc_atom_s_getInt8(t_osc_atom_s *a)
 {
+	if(a && a->typetag == 's'){
+		return (int8_t)*(a->data); // the character, as in osc_atom_u_getInt8()
+	}
+	if(a && a->typetag == 'b'){
+		return ntoh32(*((int32_t *)(a->data))) == 4 ? (int8_t)a->data[4] : 0;
+	}
 	return (int8_t)osc_atom_s_getInt32(a);
 }
 
 int16_t osc_atom_s_getInt16(t_osc_atom_s *a)
 {
+	if(a && a->typetag == 'b'){
+		return ntoh32(*((int32_t *)(a->data))) == 4 ? (int16_t)ntoh16(*((uint16_t *)(a->data + 4))) : 0;
+	}
 	return (int16_t)osc_atom_s_getInt32(a);
 }
 
@@ -215,6 +238,11 @@ int32_t osc_atom_s_getInt32(t_osc_atom_s *a)
 		return 0;
 	case 'N': // NULL
 		return 0;
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 4){
+			return (int32_t)ntoh32(*((uint32_t *)(a->data + 4)));
+		}
+		break;
 	}
 	return 0;
 }
@@ -230,7 +258,7 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return ntoh32(*((int32_t *)(a->data)));
+		return (int32_t)ntoh32(*((int32_t *)(a->data)));
 	case 'd': // 64-bit IEEE 754 double
 		{
 			uint64_t i = ntoh64(*((uint64_t *)(a->data)));
@@ -241,10 +269,10 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
 			return (int64_t)(*((float *)&i));
 		}
-	case 'I': // unsigned 32-bit int
-		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'C':
 	case 'U':
+	case 'I': // unsigned 32-bit int
+		return (int64_t)(ntoh32(*((uint32_t *)(a->data))));
 	case 'H': // unsigned 64-bit int
 		return (int64_t)(ntoh64(*((uint64_t *)(a->data))));
 	case 's': // string
@@ -258,17 +286,31 @@ int64_t osc_atom_s_getInt64(t_osc_atom_s *a)
 		return 0;
 	case 'N': // NULL
 		return 0;
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 8){
+			return (int64_t)ntoh64(*((uint64_t *)(a->data + 4)));
+		}
+		break;
 	}
 	return 0;
 }
 
 uint8_t osc_atom_s_getUInt8(t_osc_atom_s *a)
 {
+	if(a && a->typetag == 's'){
+		return (uint8_t)*(a->data); // the character, as in osc_atom_u_getUInt8()
+	}
+	if(a && a->typetag == 'b'){
+		return ntoh32(*((int32_t *)(a->data))) == 4 ? (uint8_t)a->data[4] : 0;
+	}
 	return (uint8_t)osc_atom_s_getUInt32(a);
 }
 
 uint16_t osc_atom_s_getUInt16(t_osc_atom_s *a)
 {
+	if(a && a->typetag == 'b'){
+		return ntoh32(*((int32_t *)(a->data))) == 4 ? (uint16_t)ntoh16(*((uint16_t *)(a->data + 4))) : 0;
+	}
 	return (uint16_t)osc_atom_s_getUInt32(a);
 }
 
@@ -311,6 +353,11 @@ uint32_t osc_atom_s_getUInt32(t_osc_atom_s *a)
 		return 0;
 	case 'N': // NULL
 		return 0;
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 4){
+			return (uint32_t)ntoh32(*((uint32_t *)(a->data + 4)));
+		}
+		break;
 	}
 	return 0;
 }
@@ -325,7 +372,7 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 	case 'c':
 	case 'u':
 	case 'i': // signed 32-bit int
-		return (uint64_t)(ntoh32(*((int32_t *)(a->data))));
+		return (uint64_t)((int32_t)ntoh32(*((int32_t *)(a->data))));
 	case 'h': // signed 64-bit int
 		return (uint64_t)(ntoh64(*((int64_t *)(a->data))));
 	case 'C':
@@ -353,6 +400,11 @@ uint64_t osc_atom_s_getUInt64(t_osc_atom_s *a){
 		return 0;
 	case 'N': // NULL
 		return 0;
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 8){
+			return (uint64_t)ntoh64(*((uint64_t *)(a->data + 4)));
+		}
+		break;
 	}
 	return 0;
 }
@@ -363,10 +415,10 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	}
 	switch(a->typetag){
-	case 'i': // signed 32-bit int
-		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'c':
 	case 'u':
+	case 'i': // signed 32-bit int
+		return (int)(ntoh32(*((int32_t *)(a->data))));
 	case 'f': // 32-bit IEEE 754 float
 		{
 			uint32_t i = ntoh32(*((uint32_t *)(a->data)));
@@ -396,6 +448,11 @@ int osc_atom_s_getInt(t_osc_atom_s *a)
 		return 0;
 	case 'N': // NULL
 		return 0;
+	case 'b': // blob
+		if(ntoh32(*((int32_t *)(a->data))) == 4){
+			return (int)ntoh32(*((uint32_t *)(a->data + 4)));
+		}
+		break;
 	}
 	return 0;
 }
@@ -699,11 +756,11 @@ t_osc_err osc_atom_s_getBlobCopy(char **blob, int32_t *buflen, t_osc_atom_s *a)
 	}
 	switch(osc_atom_s_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->data, *buflen);
+		memcpy(*blob, a->data, bloblen + 4);
 		break;
 	default:
 		*((int32_t *)(*blob)) = hton32(bloblen);
-		memcpy((*blob) + 4, a->data, *buflen);
+		memcpy((*blob) + 4, a->data, bloblen);
 	}
 	return OSC_ERR_NONE;
 }
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 799e056..869a6a5 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -646,7 +646,7 @@ uint64_t osc_atom_u_getUInt64(t_osc_atom_u *a){
 			char *blob = a->w.b;
 			int32_t len = ntoh32(*((int32_t *)blob));
 			if(len == 8){
-				return ntoh32(*((uint32_t *)(blob + 4)));
+				return ntoh64(*((uint64_t *)(blob + 4)));
 			}
 		}
 	}
@@ -943,7 +943,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	memset(*blob, '\0', *buflen);
 	switch(osc_atom_u_getTypetag(a)){
 	case 'b':
-		memcpy(*blob, a->w.b, *buflen);
+		memcpy(*blob, a->w.b, bloblen + 4);
 		break;
 	case 'c':
 	case 'C':
@@ -963,7 +963,7 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 	case 'h':
 	case 'H':
 		{
-			int64_t i = a->w.i;
+			int64_t i = a->w.h;
 			*((int32_t *)(*blob)) = hton32(8);
 			*((int64_t *)((*blob) + 4)) = hton64(i);
 		}
@@ -984,9 +984,8 @@ void osc_atom_u_getBlobCopy(t_osc_atom_u *a, int32_t *buflen, char **blob)
 		break;
 	case 's':
 		{
-			*((int32_t *)(*blob)) = hton32(*buflen - 4);
-			char *p = (*blob) + 4;
-			osc_atom_u_getString(a, *buflen, &p);
+			*((int32_t *)(*blob)) = hton32(bloblen);
+			memcpy((*blob) + 4, a->w.s, bloblen);
 		}
 		break;
 	case OSC_BUNDLE_TYPETAG:
@@ -1431,6 +1430,7 @@ size_t osc_atom_u_nserialize(char *buf, size_t n, t_osc_atom_u *a)
 				return osc_bundle_u_nserialize(buf + 4, len, a->w.bndl) + 4;
 			}
 		}
+		break;
 	case OSC_TIMETAG_TYPETAG:
 		if(!buf){
 			return OSC_TIMETAG_SIZEOF;
-- 
2.43.0


From 26edb20b361af10a675a7e06a79359c548b5e2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:05 +0000
Subject: [PATCH 17/94] fix: quoting and blob text stay inside the buffer, and
 the length of an unsigned 8-bit value's text is that of the text

---
 osc_atom_s.c |  2 +-
 osc_atom_u.c |  2 +-
 osc_strfmt.c | 44 ++++++++++++++++++++++++--------------------
 3 files changed, 26 insertions(+), 22 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index f784cad..7fbd797 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -490,7 +490,7 @@ int osc_atom_s_getStringLen(t_osc_atom_s *a)
 	case 'C': // unsigned 8-bit int
 		{
 			uint8_t i = (uint8_t)ntoh32(*((int32_t *)(a->data)));
-			return osc_strfmt_uint32(NULL, 0, i);
+			return osc_strfmt_uint8(NULL, 0, i);
 		}
 	case 'u': // signed 16-bit int
 		{
diff --git a/osc_atom_u.c b/osc_atom_u.c
index 869a6a5..a74c905 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -740,7 +740,7 @@ int osc_atom_u_getStringLen(t_osc_atom_u *a)
 	case 'c': // signed 8-bit int
 		return osc_strfmt_int8(NULL, 0, a->w.c);
 	case 'C': // unsigned 8-bit int
-		return osc_strfmt_uint32(NULL, 0, a->w.C);
+		return osc_strfmt_uint8(NULL, 0, a->w.C);
 	case 'u': // signed 16-bit int
 		return osc_strfmt_int16(NULL, 0, a->w.u);
 	case 'U': // unsigned 16-bit int
diff --git a/osc_strfmt.c b/osc_strfmt.c
index 952dfc4..5f595ac 100644
--- a/osc_strfmt.c
+++ b/osc_strfmt.c
@@ -126,20 +126,14 @@ int osc_strfmt_blob(char *buf, size_t n, char *blob)
 {
 	char *ptr = blob + 4;
 	int32_t len = ntoh32(*((int32_t *)blob));
-	int c = 0;
-	if(buf){
-		c = snprintf(buf, n, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(buf + c, n - c, ", %d", *ptr++);
-		}
-		c += snprintf(buf + c, n - c, ")");
-	}else{
-		c = snprintf(NULL, 0, "blob(%d", *ptr++);
-		for(int i = 1; i < len; i++){
-			c += snprintf(NULL, 0, ", %d", *ptr++);
-		}
-		c += snprintf(NULL, 0, ")");
+	if(!buf){
+		n = 0;
+	}
+	size_t c = snprintf(buf, n, "blob(");
+	for(int i = 0; i < len; i++){
+		c += snprintf(c < n ? buf + c : NULL, c < n ? n - c : 0, i ? ", %d" : "%d", *ptr++);
 	}
+	c += snprintf(c < n ? buf + c : NULL, c < n ? n - c : 0, ")");
 	return c;
 }
 
@@ -177,8 +171,8 @@ int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str)
 		}
 		if(i < n){
 			buf[i] = '\0';
-		}else{
-			buf[i - 1] = '\0';
+		}else if(n > 0){
+			buf[n - 1] = '\0';
 		}
 		return i;
 	}
@@ -192,9 +186,19 @@ int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str)
 	if(!buf){
 		return osc_strfmt_stringWithQuotedMeta(buf, n, str) + 2;
 	}else{
-		char tmp[n];
-		int nn = osc_strfmt_stringWithQuotedMeta(tmp, n, str);
-		osc_strfmt_quotedString(buf, n, tmp);
+		if(n == 0){
+			return osc_strfmt_stringWithQuotedMeta(NULL, 0, str) + 2;
+		}
+		int nn = osc_strfmt_stringWithQuotedMeta(buf + 1, n - 1, str);
+		if(n == 1){
+			buf[0] = '\0';
+		}else{
+			buf[0] = '\"';
+			if(nn + 2 < n){
+				buf[nn + 1] = '\"';
+				buf[nn + 2] = '\0';
+			}
+		}
 		return nn + 2;
 	}
 }
@@ -213,7 +217,7 @@ int osc_strfmt_addQuotes(int len, char *buf, char **out)
 	}
 	strncpy((*out) + i, buf, len);
 	i += len;
-	if(buf[len - 1] != '\"'){
+	if(len <= 0 || buf[len - 1] != '\"'){
 		(*out)[i++] = '\"';
 	}
 	(*out)[i] = '\0';
@@ -250,7 +254,7 @@ int osc_strfmt_addQuotesAndQuoteMeta(int len, char *buf, char **out)
 	}
 	int n = len + 2 + osc_strfmt_countMeta(len, buf);
 	if(!(*out)){
-		*out = osc_mem_alloc(n);
+		*out = osc_mem_alloc(n + 1);
 	}
 	int i = 0;
 	if(1){//buf[0] != '\"'){
-- 
2.43.0


From 0a537de5511f290401a47d920498d595e6a3f41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:57 +0000
Subject: [PATCH 18/94] fix: borrow when the first timetag subtracted is the
 earlier one

---
 osc_timetag.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index ba4e9f3..5954b52 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -77,10 +77,9 @@ t_osc_timetag osc_timetag_subtract(t_osc_timetag t1, t_osc_timetag t2)
 		}
 	}else{
 		r.sec = t2_ntp.sec - t1_ntp.sec;
-		if(t1_ntp.frac_sec >= t2_ntp.frac_sec){
-			r.frac_sec = t1_ntp.frac_sec - t2_ntp.frac_sec;
-		}else{
-			r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		r.frac_sec = t2_ntp.frac_sec - t1_ntp.frac_sec;
+		if(t1_ntp.frac_sec > t2_ntp.frac_sec){
+			r.sec--; // borrow
 		}
 	}
 
-- 
2.43.0


From f9a6d475f585c55c9aac51220dc6f08af436c82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:09 +0000
Subject: [PATCH 19/94] fix: ISO 8601 text of a timetag by the Gregorian
 calendar, with its announced length

---
 osc_timetag.c | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/osc_timetag.c b/osc_timetag.c
index 5954b52..8c8195e 100644
--- a/osc_timetag.c
+++ b/osc_timetag.c
@@ -1,6 +1,7 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <math.h>
+#include <inttypes.h>
 #include <string.h>
 
 #ifdef _WIN64
@@ -308,10 +309,10 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	char s1[20];
 	if(!buf){
-		return 19 + snprintf(NULL, 0, "%05fZ", fmod(osc_timetag_ntp_to_float(timetag), 1.0));//osc_strfmt_float64(NULL, 0, fmod(osc_timetag_ntp_to_float(timetag), 1.0));
+		return 19 + 8; // .uuuuuuZ
 	}
 	uint32_t secs = osc_timetag_ntp_getSeconds(timetag);
-	unsigned short int year, month, day, hour, minute, yrcount, leap = 0;
+	unsigned short int year, month, day, hour, minute, leap = 0;
 	
 	const DWORD SEC_PER_YEAR = 31536000;
 	const DWORD SEC_PER_DAY = 86400;
@@ -321,14 +322,16 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
     
 	//secs=-2208988800;//SNTPGetUTCSeconds();
 	//secs = abs(secs);
-	for(year = 0; secs >= SEC_PER_YEAR; year++){ //determine # years elapse since epoch
-		secs -= SEC_PER_YEAR;
+	for(year = 1900; ; year++){ //determine # years elapse since epoch, 1/1/1900, 00:00
+		DWORD secs_this_year = SEC_PER_YEAR;
 		if(osc_timetag_isleap(year)){
-			secs -= SEC_PER_DAY;
+			secs_this_year += SEC_PER_DAY;
 		}
+		if(secs < secs_this_year){
+			break;
+		}
+		secs -= secs_this_year;
 	}
-	//year+=1970;  //1/1/1970, 00:00 is epoch
-	year += 1900;  //1/1/1900, 00:00 is ntp epoch
 	//for (yrcount=1970;yrcount<year;yrcount++) //scroll from 1970 to last year to find leap yrs.
 	/*
 	for(yrcount = 1900; yrcount < year; yrcount++){
@@ -422,14 +425,12 @@ long osc_timetag_toISO8601(char *buf, long n, t_osc_timetag timetag)
 		s1[i++] = '\0';
 	}
 
-	double d = osc_timetag_ntp_to_float(timetag);
-	double dm1 = fmod(d, 1.0);
-	//int l = osc_strfmt_float64(NULL, 0, dm1);
-	int l = snprintf(NULL, 0, "%05fZ", dm1);
-	char s2[l + 1];
-	snprintf(s2, l, "%05fZ", dm1);
-	//osc_strfmt_float64(s2, l + 1, dm1);
-	return snprintf(buf, n, "%s.%sZ", s1, s2+2);
+	// to the nearest microsecond, but never up to the next second
+	uint32_t usec = (uint32_t)((double)osc_timetag_ntp_getFraction(timetag) / 4294967295.0 * 1000000. + .5);
+	if(usec > 999999){
+		usec = 999999;
+	}
+	return snprintf(buf, n, "%s.%06"PRIu32"Z", s1, usec);
 
 	/*
 	time_t i;
@@ -463,7 +464,7 @@ void osc_timetag_fromISO8601(char *s, t_osc_timetag *timetag)
 #if OSC_TIMETAG_FORMAT == OSC_TIMETAG_NTP  
 	struct tm t;
 	memset(&t, '\0', sizeof(struct tm));
-	double fsec;
+	double fsec = 0;
 	//char s1[];
 	//memset(s1, '\0', sizeof(s1));
     
@@ -612,7 +613,7 @@ t_osc_timetag osc_timetag_now(void)
 		//0 + //(uint32_t)(60 * tz.tz_minuteswest) +
 		//(uint32_t)(tz.tz_dsttime == 1 ? 3600 : 0);
     
-	n.frac_sec = (uint32_t)(tv.tv_usec * 4295); // 2^32-1 / 1.0e6
+	n.frac_sec = (uint32_t)(((uint64_t)tv.tv_usec << 32) / 1000000);
 
 	return *((t_osc_timetag *)(&n));
 #elif OSC_TIMETAG_FORMAT == OSC_TIMETAG_PTP
-- 
2.43.0


From 71a766a2907a12f604d18f92582e2397cb55ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:37 +0000
Subject: [PATCH 20/94] fix: arrays refuse negative indices and grow when
 copied into

---
 osc_array.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 65dce79..3be8079 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -72,7 +72,7 @@ void *osc_array_get(t_osc_array *ar, long idx){
 	if(!ar){
 		return NULL;
 	}
-	if(ar->len <= idx){
+	if(idx < 0 || ar->len <= idx){
 		return NULL;
 	}
 	return ar->ar + (idx * ar->membersize);
@@ -105,14 +105,13 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 	long srcsize = src->membersize;
 	long srclen_bytes = srclen * srcsize;
 	long destlen = srclen + offset;
-	long destlen_bytes = destlen * srcsize;
 	if(!(*dest)){
 		*dest = osc_array_allocWithSize(destlen, srcsize);
 	}else{
-		if(destlen_bytes < srclen_bytes){
-			(*dest)->ar = osc_mem_resize((*dest)->ar, destlen_bytes);
-			if(!((*dest)->ar)){
-				return OSC_ERR_OUTOFMEM;
+		if((*dest)->len < destlen){
+			t_osc_err e = osc_array_resize(*dest, destlen);
+			if(e){
+				return e;
 			}
 		}
 	}
-- 
2.43.0


From e7b7df1e37b214009dcc67d60d15b92f426fdf71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:06 +0000
Subject: [PATCH 21/94] fix: arrays of values free their blobs and size their
 joined text, arrays of messages are copied deep

---
 osc_atom_array_u.c |  8 ++++++--
 osc_message_u.c    | 12 +++++++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index f4f1adc..a76ce69 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -48,6 +48,10 @@ void osc_atom_array_u_free(t_osc_atom_ar_u *ar)
 				if(a->w.s){
 					osc_mem_free(a->w.s);
 				}
+			}else if(a->alloc && a->typetag == 'b'){
+				if(a->w.b){
+					osc_mem_free(a->w.b);
+				}
 			}else if(a->typetag == OSC_BUNDLE_TYPETAG){
 				if(a->w.bndl){
 					osc_bundle_u_free(a->w.bndl);
@@ -165,9 +169,9 @@ t_osc_err osc_atom_array_u_getStringArray(t_osc_atom_ar_u *array, long *len, cha
 	int i;
 	for(i = 0; i < arlen; i++){
 		int n = osc_atom_u_getStringLen(osc_atom_array_u_get(array, i));
-		if((buflen - (ptr - *out)) < n){
+		if((buflen - (ptr - *out)) < n + seplen + 1){
 			long offset = ptr - *out;
-			int nbytes = n * (arlen - i) + 1; // assume the rest of the atoms are the same size
+			long nbytes = (n + seplen) * (arlen - i) + 1; // assume the rest of the atoms are the same size
 			char *tmp = osc_mem_resize(*out, buflen + nbytes);
 			if(tmp){
 				*out = tmp;
diff --git a/osc_message_u.c b/osc_message_u.c
index 85cbc95..be0507c 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1146,7 +1146,17 @@ long osc_message_array_u_getLen(t_osc_msg_ar_u *ar)
 
 t_osc_msg_ar_u *osc_message_array_u_copy(t_osc_msg_ar_u *ar)
 {
-	return (t_osc_msg_ar_u *)osc_array_copy((t_osc_array *)ar);
+	if(!ar){
+		return NULL;
+	}
+	// the messages of an array are freed with it, so a copy needs its own
+	long n = osc_message_array_u_getLen(ar);
+	t_osc_msg_ar_u *copy = osc_message_array_u_alloc(n);
+	for(long i = 0; i < n; i++){
+		t_osc_msg_u *m = osc_message_array_u_get(copy, i);
+		osc_message_u_deepCopy(&m, osc_message_array_u_get(ar, i));
+	}
+	return copy;
 }
 
 t_osc_err osc_message_array_u_resize(t_osc_msg_ar_u *ar, long newlen)
-- 
2.43.0


From c5947e685cacdc9950b3db0269afd4255aa87189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:07 +0000
Subject: [PATCH 22/94] fix: a safe store frees the element it does not use,
 and a huge table gets the largest prime

---
 osc_hashtab.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index b69f9b1..99f4e8d 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -87,7 +87,7 @@ static uint32_t osc_hashtab_getPrime(uint32_t n){
 			return primes[i];
 		}
 	}
-	return primes[i];
+	return primes[i - 1];
 }
 
 static void osc_hashtab_rehash(t_osc_hashtab *ht)
@@ -170,6 +170,7 @@ static void osc_hashtab_store_elem_safe(t_osc_hashtab *ht,
 	while(ee){
 		if(!strcmp(ee->key, key)){
 			// this is not a hash collision, this is a duplicate key
+			osc_mem_free(e);
 			return;
 		}else{
 			ee = ee->next;
-- 
2.43.0


From 76171bcec46cc8ea82b29cf8c33e8b9168db024e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:19 +0000
Subject: [PATCH 23/94] fix: a vtable's hash table follows its entries when
 they move or are renamed; osc_vtable_free frees the table; delegating without
 a method does nothing

---
 osc_vtable.c | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/osc_vtable.c b/osc_vtable.c
index 050333b..4006b5e 100644
--- a/osc_vtable.c
+++ b/osc_vtable.c
@@ -65,6 +65,7 @@ void osc_vtable_free(t_osc_vtable *vtab){
 	if(vtab->hashtab){
 		osc_hashtab_destroy(vtab->hashtab);
 	}
+	osc_mem_free(vtab);
 }
 
 void osc_vtable_setDelegationMethod(t_osc_vtable *vtab,
@@ -85,6 +86,12 @@ t_osc_err osc_vtable_addEntry(t_osc_vtable *vtab,
 		if(!(vtab->entries)){
 			return OSC_ERR_OUTOFMEM;
 		}
+		// the entries may have moved, so point the hash table at them again
+		osc_hashtab_clear(vtab->hashtab);
+		for(int i = 0; i < vtab->num_entries; i++){
+			t_osc_vtable_entry *e = &(vtab->entries[i]);
+			osc_hashtab_storeSafe(vtab->hashtab, strlen(e->selector), e->selector, e);
+		}
 	}
 	t_osc_vtable_entry *entry = osc_vtable_getEntryBySelector(vtab, selector);
 	if(entry){
@@ -179,12 +186,13 @@ t_osc_err osc_vtable_renameEntry(t_osc_vtable *vtab, char *old_selector, char *n
 	}
 	int oldlen = strlen(old_selector);
 	int newlen = strlen(new_selector);
+	// the hash table's key is e's selector, so the old one has to go before it changes
+	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
 	if(newlen > oldlen){
 		e->selector = osc_mem_resize(e->selector, newlen + 1);
 	}
-	strncpy(e->selector, new_selector, newlen + 1);
-	osc_hashtab_remove(vtab->hashtab, oldlen, old_selector, NULL);
-	osc_hashtab_store(vtab->hashtab, newlen, new_selector, (void *)e);
+	memmove(e->selector, new_selector, newlen + 1);
+	osc_hashtab_store(vtab->hashtab, newlen, e->selector, (void *)e);
 	return OSC_ERR_NONE;
 }
 
@@ -214,7 +222,9 @@ int osc_vtable_call(t_osc_vtable *vtab,
 }
 
 int osc_vtable_delegate(t_osc_vtable *vtab, long bndllen, char *bndl, t_osc_bndl_s *unmatched){
-	vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	if(vtab->delegation_method){
+		vtab->delegation_method(bndllen, bndl, unmatched, vtab->delegation_context);
+	}
 	return 0;
 }
 
-- 
2.43.0


From 539aa5a909bb17bc0e13059737a738f9a51dc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:42 +0000
Subject: [PATCH 24/94] fix: dispatch strips what the selector matched of the
 message's address, and addresses too short to strip stay whole

---
 osc_dispatch.c |  7 ++++++-
 osc_query.c    | 18 +++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 21ad226..94ce5ca 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -112,7 +112,12 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 		if(strip_matched_portion_of_address){
 			char buf[osc_message_s_getSize(msg) + 4];
 			char *address = osc_message_s_getAddress(msg);
-			osc_message_s_renameCopy(buf, msg, strlen(address) - ao, address + ao);
+			// the part of the message's address that's left is the part of the pattern that's left
+			if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+				// nothing is left that could be an address
+				osc_bundle_s_appendMessage_b(partial_match, msg);
+				return 1;
+			}
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
diff --git a/osc_query.c b/osc_query.c
index c149d31..7d6642f 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -117,13 +117,17 @@ int osc_query_select_impl(int nselectors,
 				if(strip_matched_portion_of_address){
 					char buf[osc_message_s_getSize(msg) + 4];
 					char *address = osc_message_s_getAddress(msg);
-					osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po);
-					char msg_s[osc_message_s_getStructSize()];
-					osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
-					//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
-					osc_rset_addPartialMatch(*rset,
-								 rec_selector ? rec_selector : selector,
-								 (t_osc_msg_s *)msg_s);
+					if(osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
+						char msg_s[osc_message_s_getStructSize()];
+						osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
+						//osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+						osc_rset_addPartialMatch(*rset,
+									 rec_selector ? rec_selector : selector,
+									 (t_osc_msg_s *)msg_s);
+					}else{
+						// nothing is left that could be an address
+						osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
+					}
 				}else{
 					//osc_bundle_s_appendMessage_b(partial_match, msg);
 					osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
-- 
2.43.0


From 82065e421eff399f9a460405432ef020839d915d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:43 +0000
Subject: [PATCH 25/94] fix: a closing square bracket right after the opening
 one is an ordinary character

---
 osc_match.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/osc_match.c b/osc_match.c
index 4b35498..b06d5c1 100644
--- a/osc_match.c
+++ b/osc_match.c
@@ -247,7 +247,9 @@ int osc_match(const char *pattern, const char *address, int *pattern_offset, int
 					// if the first char inside the opening square bracket is 
 					// a closing square bracket, it's treated as a normal char,
 					// so skip over it
-					if(pattern[sp->p + 1] == ']'){
+					if(pattern[sp->p + 1] == '!' && pattern[sp->p + 2] == ']'){
+						sp->p += 3;
+					}else if(pattern[sp->p + 1] == ']'){
 						sp->p += 2;
 					}
 					while(1){
@@ -360,6 +362,7 @@ static inline int osc_match_range(const char *pattern, const char *address)
 		if(*p == *address){
 			return val;
 		}
+		p++;
 	}
 	while(*p != ']'){
 		char c = *p++, c2;
-- 
2.43.0


From 5c50deaca9b379d513387e057aaf57b479a70599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:43 +0000
Subject: [PATCH 26/94] fix: the text of an empty bundle is the empty string

---
 osc_bundle_s.c | 3 +++
 osc_bundle_u.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 30a8a49..851162e 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -627,6 +627,9 @@ char *osc_bundle_s_pformat(t_osc_bundle_s *bndl)
 
 long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int nindent)
 {
+	if(buf && n > 0){
+		*buf = '\0'; // the text of an empty bundle
+	}
 	if(!bndl){
 		return 0;
 	}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index b0a9943..6292186 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -653,6 +653,9 @@ char *osc_bundle_u_format(t_osc_bndl_u *bndl)
 long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 {
 	if(!bndl || osc_bundle_u_getMsgCount(bndl) == 0){
+		if(buf && n > 0){
+			*buf = '\0'; // the text of an empty bundle
+		}
 		return 0;
 	}
 	t_osc_bndl_it_u *it = osc_bndl_it_u_get(bndl);
-- 
2.43.0


From edc497cee546d92a134e8d99ecbbd06fb1be6b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:18 +0000
Subject: [PATCH 27/94] fix: the blob length of a number does not depend on its
 value

---
 osc_atom_u.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index a74c905..0bb389b 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -911,7 +911,7 @@ int32_t osc_atom_u_getBlobLen(t_osc_atom_u *a)
 	case 's':
 		return strlen(a->w.s);
 	default:
-		return osc_sizeof(osc_atom_u_getTypetag(a), a->w.s);
+		return osc_sizeof(osc_atom_u_getTypetag(a), (char *)&(a->w)); // not NULL, even if the value is 0
 	}
 }
 
-- 
2.43.0


From 6c0ae4f0e02fff4b57cbe5ee913c5c73e5916456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:08 +0000
Subject: [PATCH 28/94] fix: renaming a message without a type string copies no
 type string

---
 osc_message_s.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 66ccce8..55df42e 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -150,7 +150,9 @@ int32_t osc_message_s_renameCopy(char *dest, t_osc_msg_s *src, int32_t new_addre
 	while((ptr - dest) % 4){
 		*ptr++ = '\0';
 	}
-	memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	if(src->typetags){
+		memcpy(ptr, src->typetags, oldlen - (src->typetags - src->address));
+	}
 	return newlen;
 }
 
-- 
2.43.0


From 56468b7c5e4e229531db8569fcad3ee3b60da058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:55 +0000
Subject: [PATCH 29/94] fix: dispatching with an empty vtable makes no array of
 length 0

---
 osc_dispatch.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index 94ce5ca..bc78651 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -204,8 +204,9 @@ t_osc_err osc_dispatch(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	// an array needs a length greater than 0, even if there are no entries
+	t_osc_bndl_s *partial_matches[nentries + 1];
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
@@ -259,8 +260,9 @@ t_osc_err osc_dispatch_selectors(t_osc_vtable *vtab,
 		return OSC_ERR_NONE;
 	}
 	int nentries = osc_vtable_getNumEntries(vtab);
-	t_osc_bndl_s *partial_matches[nentries];
-	t_osc_bndl_s *complete_matches[nentries];
+	// an array needs a length greater than 0, even if there are no entries
+	t_osc_bndl_s *partial_matches[nentries + 1];
+	t_osc_bndl_s *complete_matches[nentries + 1];
 	t_osc_bndl_s *unmatched = NULL;//osc_bundle_s_alloc(0, NULL);
 	//osc_bundle_s_setBundleID_b(unmatched);
 	memset(partial_matches, '\0', nentries * sizeof(t_osc_bndl_s *));
-- 
2.43.0


From 4a292208722c3fde3055a7b04314dfa993fbdec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:40 +0000
Subject: [PATCH 30/94] fix: the parser frees its copy of a string with escaped
 characters

---
 osc_scanner.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_scanner.l b/osc_scanner.l
index 78d7a87..8674c33 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -84,6 +84,7 @@ quoted_string [^\"\\]
 	BEGIN(0);
 	if(*buf){
 		yylval->atom = osc_atom_u_allocWithString(*buf);
+		osc_mem_free(*buf); // the atom has its own copy
 		*buf = NULL;
 		*buflen = 0;
 		return OSCVALUE;
-- 
2.43.0


From a26c2c0d07c2626d4924b1e65942f198c58178c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:35 +0000
Subject: [PATCH 31/94] fix: the parser reads integers beyond 32 bits as 64-bit
 integers

---
 osc_scanner.l | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/osc_scanner.l b/osc_scanner.l
index 8674c33..394d21c 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -27,6 +27,7 @@
 
 %{
 #include "osc_parser.h"
+#include <errno.h>
 #include "osc_mem.h"
 #include "osc_timetag.h"
 
@@ -153,8 +154,18 @@ nil					{
 
 (-?([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
 						char *endp = NULL;
-					        long i = strtol(yytext, &endp, 10);
-						yylval->atom = osc_atom_u_allocWithInt32(i);
+						// integers that don't fit into 32 bits have 64
+						errno = 0;
+						int64_t i = strtoll(yytext, &endp, 10);
+						int beyond64 = errno == ERANGE && *yytext != '-';
+						yylval->atom = osc_atom_u_alloc();
+						if(beyond64){
+							osc_atom_u_setUInt64(yylval->atom, strtoull(yytext, &endp, 10));
+						}else if(i != (int32_t)i){
+							osc_atom_u_setInt64(yylval->atom, i);
+						}else{
+							osc_atom_u_setInt32(yylval->atom, (int32_t)i);
+						}
 						return OSCVALUE;
 					}
 0[xX][[:digit:]abcdefABCDEF]+ 	{
-- 
2.43.0


From a58e9bfb0f040710acdecb90a7afeb511acbc137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:29 +0000
Subject: [PATCH 32/94] fix: a rejected text leaves no bundle and no memory
 behind

---
 osc_parser.y | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/osc_parser.y b/osc_parser.y
index 78e80de..1143c08 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -104,6 +104,25 @@ int osc_parser_lex(YYSTYPE * yylval_param,YYLTYPE * yylloc_param ,yyscan_t yysca
 	return osc_scanner_lex(yylval_param, yylloc_param, yyscanner, buflen, buf);
 }
 
+// what the parser holds when it gives up
+static void osc_parser_freeAtoms(t_osc_atom_u *a)
+{
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
+}
+
+static void osc_parser_freeMessages(t_osc_msg_u *m)
+{
+	while(m){
+		t_osc_msg_u *next = m->next;
+		osc_message_u_free(m);
+		m = next;
+	}
+}
+
 t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 {
 	/*
@@ -118,7 +137,8 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 	osc_scanner_set_out(NULL, scanner);
 	long buflen = 0;
 	char *buf = NULL;
-	int ret = osc_parser_parse(bndl, scanner, &buflen, &buf);
+	t_osc_bndl_u *b = NULL;
+	int ret = osc_parser_parse(&b, scanner, &buflen, &buf);
 	osc_scanner__delete_buffer(buf_state, scanner);
 	osc_scanner_lex_destroy(scanner);
 	/*
@@ -129,9 +149,18 @@ t_osc_err osc_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl)
 		osc_mem_free(bl);
 	}
 	*/
+	if(buf){
+		// an unterminated quoted string
+		osc_mem_free(buf);
+	}
 	if(ret){
+		// the error may come after the whole bundle
+		if(b){
+			osc_bundle_u_free(b);
+		}
 		return OSC_ERR_PARSER;
 	}
+	*bndl = b;
 	return OSC_ERR_NONE;
 }
 
@@ -175,6 +204,9 @@ void yyerror (YYLTYPE *yylloc, t_osc_bndl_u **bndl, void *scanner, long *buflen,
 %type <atom>data datum list subbundle 
 %token <atom>OSCADDRESS OSCVALUE 
 
+%destructor { osc_parser_freeAtoms($$); } <atom>
+%destructor { osc_parser_freeMessages($$); } <message>
+
 %%
 
 bundle: 
-- 
2.43.0


From 700e1e50c5cc3cad604c6ce6f84e947ac1895540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:43 +0000
Subject: [PATCH 33/94] fix: a backslash quotes a newline in a quoted string as
 any other character

---
 osc_expr_scanner.l   | 2 +-
 osc_legacy_scanner.l | 2 +-
 osc_scanner.l        | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index cfa5e41..f33fa1a 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -211,7 +211,7 @@ quote[[:space:]]*\( {
 	}
 }
 
-<quote>{quoted_string}*\\. {
+<quote>{quoted_string}*\\(.|\n) {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng);
 		memcpy(*buf + *buflen, yytext, yyleng - 1);
diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index 7969ebf..d37d911 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -67,7 +67,7 @@ quoted_string [^\"\\]
 	}
 }
 
-<quote>{quoted_string}*\\. {
+<quote>{quoted_string}*\\(.|\n) {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng);
 		//strcat(*buf, yytext);
diff --git a/osc_scanner.l b/osc_scanner.l
index 394d21c..f070025 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -92,7 +92,7 @@ quoted_string [^\"\\]
 	}
 }
 
-<quote>{quoted_string}*\\. {
+<quote>{quoted_string}*\\(.|\n) {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng);
 		memcpy(*buf + *buflen, yytext, yyleng - 1);
-- 
2.43.0


From e1a95363635892d81b1b8a7e306727d10c739f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:44 +0000
Subject: [PATCH 34/94] fix: the line-based parser reads escaped characters
 outside of quotes, and empty strings

---
 osc_legacy_scanner.l | 45 ++++++++++++++++++--------------------------
 1 file changed, 18 insertions(+), 27 deletions(-)

diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index d37d911..23040da 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -29,7 +29,7 @@ c99_floating_point_constant  ({dfc}|{hfc})
 string [^ \t\"\n\\:\[\],\{\}]+
 quoted_string [^\"\\]
 
-%x quote escape
+%x quote
 
 %option reentrant
 %option bison-bridge
@@ -87,6 +87,12 @@ quoted_string [^\"\\]
 	}
 }
 
+\"\" {
+	yylval->string = osc_mem_alloc(1);
+	*(yylval->string) = '\0';
+	return STRING;
+}
+
 -?{c99_floating_point_constant}	{
 					char *endp = NULL;
 					double d = strtod(yytext, &endp); 
@@ -151,33 +157,18 @@ quoted_string [^\"\\]
 				return STRING;
 			}
 
-{string}*\\.	{
-			if(*buf){
-				*buflen += yyleng + 1; // make room for the escaped char
-				*buf = osc_mem_resize(*buf, *buflen);
-				strcat(*buf, yytext);
-				(*buf)[*buflen - 1] = '\0';
-			}else{
-				*buf = osc_mem_alloc(yyleng + 1);
-				memcpy(*buf, yytext, yyleng);
-				*buflen = yyleng;
-				//(*buf)[*buflen - 2] = (*buf)[*buflen - 1];
-				(*buf)[*buflen - 1] = '\0';
-			}
-			BEGIN(escape);
-			yyless(1);
-		}
-
-<escape>.	{
-			if(*buf){
-				(*buf)[*buflen - 1] = *yytext;
-			}else{
-				//this is bad news
+({string}*\\(.|\n))+{string}*	{
+			// the characters following backslashes stand for themselves
+			char *copy = osc_mem_alloc(yyleng + 1);
+			int i, j = 0;
+			for(i = 0; i < yyleng; i++){
+				if(yytext[i] == '\\'){
+					i++;
+				}
+				copy[j++] = yytext[i];
 			}
-			BEGIN(0);
-			yylval->string = *buf;
-			*buf = NULL;
-			*buflen = 0;
+			copy[j] = '\0';
+			yylval->string = copy;
 			return STRING;
 		}
 
-- 
2.43.0


From dc1e77017de3b0bc0ed8c5f9cc930c8cded6ee52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:02 +0000
Subject: [PATCH 35/94] fix: the line-based parser reads integers beyond 32
 bits as 64-bit integers

---
 osc_legacy_scanner.l | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index 23040da..f2b3e0e 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -1,5 +1,6 @@
 %{
 #include "osc_legacy_parser.h"
+#include <errno.h>
 #include "osc_mem.h"
 #include "osc_timetag.h"
 
@@ -126,9 +127,18 @@ quoted_string [^\"\\]
 
 (-?([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
 						char *endp = NULL;
-					        long i = strtol(yytext, &endp, 0);
-						//printf("%s: int: %ld\n", __func__, i);
-						yylval->i = i;
+						// integers that don't fit into 32 bits have 64
+						errno = 0;
+						int64_t i = strtoll(yytext, &endp, 10);
+						if(errno == ERANGE && *yytext != '-'){
+							yylval->H = strtoull(yytext, &endp, 10);
+							return OSCUINT64;
+						}
+						if(i != (int32_t)i){
+							yylval->h = i;
+							return OSCINT64;
+						}
+						yylval->i = (int32_t)i;
 						return OSCINT32;
 					}
 
-- 
2.43.0


From 749832619aad1cc94bda68f3331dca46546ddd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:04 +0000
Subject: [PATCH 36/94] fix: the line-based parser frees what it has of a
 rejected text

---
 osc_legacy_parser.y | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index 18f94fa..c799c15 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -110,15 +110,27 @@ t_osc_err osc_legacy_parser_parseString(long len, char *ptr, t_osc_bndl_u **bndl
 	int ret = osc_legacy_parser_parse(&bl, &msg, scanner, &buflen, &buf);
 	osc_legacy_scanner__delete_buffer(buf_state, scanner);
 	osc_legacy_scanner_lex_destroy(scanner);
-	if(!ret){
-		*bndl = bl->bndl;
-	}
-	if(bl){
-		osc_mem_free(bl);
+	if(buf){
+		// an unterminated quoted string
+		osc_mem_free(buf);
 	}
 	if(ret){
+		// free what is not finished
+		while(msg){
+			t_osc_msg_u *next = msg->next;
+			osc_message_u_free(msg);
+			msg = next;
+		}
+		while(bl){
+			t_osc_parser_bndl_list *next = bl->next;
+			osc_bundle_u_free(bl->bndl);
+			osc_mem_free(bl);
+			bl = next;
+		}
 		return OSC_ERR_PARSER;
 	}
+	*bndl = bl->bndl;
+	osc_mem_free(bl);
 	return OSC_ERR_NONE;
 }
 
@@ -169,6 +181,8 @@ void yyerror (YYLTYPE *yylloc, t_osc_parser_bndl_list **bndl, t_osc_msg_u **msg,
 
 %type <msg>arglist msg 
 
+%destructor { osc_mem_free($$); } <string>
+
 %%
 
 bundle: {
-- 
2.43.0


From 73c709f869ec3105119bf884ee83f4b4189ba351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:42 +0000
Subject: [PATCH 37/94] fix: terminate and do not format the text quoted in
 expression parse errors

---
 osc_expr_parser.y | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 524347a..1b011e1 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -253,7 +253,7 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 	int len = strlen(input_string);
 	if(llocp->first_column >= len || llocp->last_column >= len){
 		*buf = osc_mem_alloc(len + 1);
-		strncpy(*buf, input_string, len );
+		memcpy(*buf, input_string, len + 1);
 		return;
 	}
 	char s1[len * 2];
@@ -309,6 +309,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  NULL,
 				  -1,
 				  errorcode,
+				  "%s",
 				  buf);
 	}else{
 	  osc_error_handler(context,
@@ -387,7 +388,7 @@ int osc_expr_parser_checkArity(void* context, YYLTYPE *llocp, char *input_string
  void yyerror(YYLTYPE *llocp, t_osc_expr **exprstack, t_osc_expr **tmp_exprstack, t_osc_expr_rec **rec, void *scanner, char *input_string, long *buflen, char **buf, int startcond, int *started, void *context, char const *e)
 {
 //	printf("(yyerror) %s context %p\n", __func__, context);
-	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, e);
+	osc_expr_error(context, llocp, input_string, OSC_ERR_EXPPARSE, "%s", e);
 }
 
 void osc_expr_parser_reportUnknownFunctionError(void *context, YYLTYPE *llocp,
-- 
2.43.0


From 322aedd0fefcbbe0409a02dbbd281bfebe6f6ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:43 +0000
Subject: [PATCH 38/94] fix: make the ^ and ^= operators of the expression
 language call pow instead of an unknown function

---
 osc_expr_parser.y | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 1b011e1..1520eaa 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -1262,7 +1262,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg '^' arg {
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| arg OSC_EXPR_EQ arg {
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "==", $1, $3);
@@ -1310,7 +1310,7 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "%", $1, $3);
  	}
 	| arg OSC_EXPR_POWEQ arg {
-		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "^", $1, $3);
+		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-- 
2.43.0


From 5feb6ef5e708566fe6c088e90f69d215aab375cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:22 +0000
Subject: [PATCH 39/94] fix: subtract integers wider than int32 without
 truncating them

---
 osc_expr.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index a65e306..097869a 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2431,6 +2431,9 @@ int osc_expr_subtract(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 	if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		if(OSC_TYPETAG_ISFLOAT(tt1) || OSC_TYPETAG_ISFLOAT(tt2)){
 			osc_atom_u_setDouble(*result, osc_atom_u_getDouble(f1) - osc_atom_u_getDouble(f2));
+		}else if(osc_typetag_compare(tt1, 'i') > 0 || osc_typetag_compare(tt2, 'i') > 0){
+			// an int32 can't hold the difference of wider types
+			osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) - osc_atom_u_getInt64(f2));
 		}else{
 			osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) - osc_atom_u_getInt32(f2));
 		}
-- 
2.43.0


From c6cf578d374aaa72e78236ab15d86521ed879505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:23 +0000
Subject: [PATCH 40/94] fix: divide unsigned 8-bit integers as unsigned

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 097869a..e29e79d 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2622,11 +2622,11 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 				break;
 			case 'C':
 				{
-					int8_t i2 = osc_atom_u_getInt8(f2);
+					uint8_t i2 = osc_atom_u_getUInt8(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
 					}else{
-						osc_atom_u_setInt8(*result, osc_atom_u_getInt8(f1) / i2);
+						osc_atom_u_setUInt8(*result, osc_atom_u_getUInt8(f1) / i2);
 					}
 				}
 				break;
-- 
2.43.0


From 817d1e0bb28ce3e054d1d1ee2a61f6c7624db29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:24 +0000
Subject: [PATCH 41/94] fix: do not trap when the smallest integer is divided
 by -1 in an expression

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index e29e79d..8d4feba 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2555,6 +2555,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					int32_t i2 = osc_atom_u_getInt32(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						// INT32_MIN / -1 traps
+						osc_atom_u_setInt32(*result, 0u - (uint32_t)osc_atom_u_getInt32(f1));
 					}else{
 						osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) / i2);
 					}
@@ -2575,6 +2578,9 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 					int64_t i2 = osc_atom_u_getInt64(f2);
 					if(i2 == 0){
 						osc_atom_u_setString(*result, "Inf");
+					}else if(i2 == -1){
+						// INT64_MIN / -1 traps
+						osc_atom_u_setInt64(*result, UINT64_C(0) - (uint64_t)osc_atom_u_getInt64(f1));
 					}else{
 						osc_atom_u_setInt64(*result, osc_atom_u_getInt64(f1) / i2);
 					}
-- 
2.43.0


From 02545cbb596c335edabb71b43e9112324e2aca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:26 +0000
Subject: [PATCH 42/94] fix: increment and decrement every integer type in its
 own type

---
 osc_expr.c | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 8d4feba..1d839a0 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3161,15 +3161,27 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) + 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) + 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) + 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) + 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) + 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) + 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) + 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
+			break;
 		}
 	}
 	return 0;
@@ -3194,15 +3206,27 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'd':
 			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), osc_atom_u_getDouble(a) - 1);
 			break;
-		case 'h':
+		case 'I':
 			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt32(a) - 1);
 			break;
-		case 'I':
+		case 'h':
 			osc_atom_u_setInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getInt64(a) - 1);
 			break;
 		case 'H':
 			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt64(a) - 1);
 			break;
+		case 'c':
+			osc_atom_u_setInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getInt8(a) - 1);
+			break;
+		case 'C':
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt8(a) - 1);
+			break;
+		case 'u':
+			osc_atom_u_setInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getInt16(a) - 1);
+			break;
+		case 'U':
+			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
+			break;
 		}
 	}
 	return 0;
-- 
2.43.0


From 3ac3f19588e5071a9ec3a08c9e1d9f69f1aef76b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:27 +0000
Subject: [PATCH 43/94] fix: give a number for arithmetic on two booleans

---
 osc_expr.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 1d839a0..619ddfd 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2380,6 +2380,8 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			case 'T':
+			case 'F':
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) + osc_atom_u_getInt32(f2));
 				break;
@@ -2485,6 +2487,8 @@ int osc_expr_multiply(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result,
 		}else{
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			case 'T':
+			case 'F':
 			case 'i':
 				osc_atom_u_setInt32(*result, osc_atom_u_getInt32(f1) * osc_atom_u_getInt32(f2));
 				break;
@@ -2550,6 +2554,8 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 			// }
 			char tt = osc_typetag_compare(tt1, tt2) > 0 ? tt1 : tt2;
 			switch(tt){
+			case 'T':
+			case 'F':
 			case 'i':
 				{
 					int32_t i2 = osc_atom_u_getInt32(f2);
-- 
2.43.0


From 17b42026e2caf8aa448cff39b49ef8e7f7a2fec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:29 +0000
Subject: [PATCH 44/94] fix: compute the modulo of integers wider than int32
 exactly

---
 osc_expr.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 619ddfd..e90a7a5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3119,11 +3119,17 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 			return 0;
 		}
 		osc_atom_u_setDouble(*result, m);
+	}else if(ff2 == 0){
+		osc_atom_u_copyInto(result, f1);
+	}else if(osc_typetag_compare(tt1, 'i') > 0 || osc_typetag_compare(tt2, 'i') > 0){
+		// neither an int32 nor a double can hold the wider types
+		int64_t i1 = osc_atom_u_getInt64(f1), i2 = osc_atom_u_getInt64(f2);
+		int64_t im = i2 == -1 ? 0 : i1 % i2;
+		if(im < 0){
+			im = i2 < 0 ? im - i2 : im + i2;
+		}
+		osc_atom_u_setInt64(*result, im);
 	}else{
-		if(ff2 == 0){
-			osc_atom_u_copyInto(result, f1);
-			return 0;
-		}
 		osc_atom_u_setInt32(*result, (int32_t)m);
 	}
 	return 0;
-- 
2.43.0


From 613396e163166cf12cd5985b7bdcbbb55fef3a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:55 +0000
Subject: [PATCH 45/94] fix: decide if() by whether the test is zero, not by
 its truncation to an int32, and allow an empty test

---
 osc_expr.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e90a7a5..1460d1b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -1081,13 +1081,15 @@ static int osc_expr_specFunc_if(t_osc_expr *f,
 		return err;
 	}
 
-	int test_result_len = osc_atom_array_u_getLen(argv);
+	// only the first element of the test decides
+	int test_result_len = 1;
 	t_osc_atom_ar_u *boolvec[test_result_len];
 	memset(boolvec, '\0', test_result_len * sizeof(t_osc_atom_ar_u *));
 	int outlen = 0;
 	int j = 0;
 	//for(int j = 0; j < osc_atom_array_u_getLen(argv); j++){
-		if(osc_atom_u_getInt32(osc_atom_array_u_get(argv, j))){
+		t_osc_atom_u *test = osc_atom_array_u_get(argv, j);
+		if(osc_atom_u_getTypetag(test) == 's' ? osc_atom_u_getInt32(test) : osc_atom_u_getBool(test)){
 			err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, boolvec + j, context);
 			if(err){
                 if(err == OSC_ERR_EXPR_ADDRESSUNBOUND)
-- 
2.43.0


From ea3a09025abab6d0b46798bb094afa6ff921f7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:57 +0000
Subject: [PATCH 46/94] fix: negate every integer type logically, over its
 whole width

---
 osc_expr.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1460d1b..acf27df 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -4136,7 +4136,11 @@ int osc_expr_not(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		case 'I':
 		case 'h':
 		case 'H':
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i))));
+		case 'c':
+		case 'C':
+		case 'u':
+		case 'U':
+			osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), !(osc_atom_u_getInt64(osc_atom_array_u_get(*argv, i))));
 			break;
 		case 'f':
 		case 'd':
-- 
2.43.0


From 2bfc4a2fea7e31d37a65c0f5d119927a488c6a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:58 +0000
Subject: [PATCH 47/94] fix: let != compare with nil, as == does

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index acf27df..f2cd238 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2860,6 +2860,10 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
 		 (tt2 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt2))){
 		osc_atom_u_setBool(*result, osc_expr_compareTimetag(f1, f2) != 0);
+	}else if(tt1 == 'N' && tt2 == 'N'){
+		osc_atom_u_setBool(*result, 0);
+	}else if(tt1 == 'N' || tt2 == 'N'){
+		osc_atom_u_setBool(*result, 1);
 	}else if(tt1 == OSC_BUNDLE_TYPETAG && tt2 == OSC_BUNDLE_TYPETAG){
 		t_osc_bndl_u *b1 = osc_atom_u_getBndl(f1);
 		t_osc_bndl_u *b2 = osc_atom_u_getBndl(f2);
-- 
2.43.0


From f80ac62dee627b86f011311ea0b993f3449cfbd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:00 +0000
Subject: [PATCH 48/94] fix: compare integers as integers, so that large 64-bit
 values are told apart

---
 osc_expr.c | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index f2cd238..4f7dc4c 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2657,6 +2657,18 @@ int osc_expr_divide(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, v
 	return 0;
 }
 
+// -1, 0 or 1; doubles can't tell large 64-bit integers apart
+static int osc_expr_compareInts(t_osc_atom_u *f1, t_osc_atom_u *f2)
+{
+	int neg1 = osc_atom_u_getTypetag(f1) != 'H' && osc_atom_u_getInt64(f1) < 0;
+	int neg2 = osc_atom_u_getTypetag(f2) != 'H' && osc_atom_u_getInt64(f2) < 0;
+	if(neg1 != neg2){
+		return neg1 ? -1 : 1;
+	}
+	uint64_t i1 = osc_atom_u_getUInt64(f1), i2 = osc_atom_u_getUInt64(f2);
+	return i1 < i2 ? -1 : i1 > i2;
+}
+
 int osc_expr_compareTimetag(t_osc_atom_u *f1, t_osc_atom_u *f2)
 {
 	char tt1 = osc_atom_u_getTypetag(f1), tt2 = osc_atom_u_getTypetag(f2);
@@ -2690,6 +2702,8 @@ int osc_expr_lt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setFalse(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) < 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) < osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2720,6 +2734,8 @@ int osc_expr_le(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setFalse(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) <= 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) <= osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2750,6 +2766,8 @@ int osc_expr_gt(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setTrue(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) > 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) > osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2780,6 +2798,8 @@ int osc_expr_gte(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		osc_atom_u_setTrue(*result);
 	}else if((tt2 == 's') && OSC_TYPETAG_ISNUMERIC(tt1)){
 		osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) >= 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) >= osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2808,6 +2828,8 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		osc_atom_u_setBool(*result, ret == 0);
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setFalse(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) == 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) == osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
@@ -2855,6 +2877,8 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		osc_atom_u_setBool(*result, ret != 0);
 		//}else if((tt1 == 's') || (tt2 == 's')){
 		//osc_atom_u_setTrue(*result);
+	}else if(OSC_TYPETAG_ISINT(tt1) && OSC_TYPETAG_ISINT(tt2)){
+		osc_atom_u_setBool(*result, osc_expr_compareInts(f1, f2) != 0);
 	}else if(OSC_TYPETAG_ISNUMERIC(tt1) && OSC_TYPETAG_ISNUMERIC(tt2)){
 		osc_atom_u_setBool(*result, osc_atom_u_getDouble(f1) != osc_atom_u_getDouble(f2));
 	}else if((tt1 == OSC_TIMETAG_TYPETAG || OSC_TYPETAG_ISNUMERIC(tt1)) &&
-- 
2.43.0


From d41d9c2e841fd8935bc059285600cd867421b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:44 +0000
Subject: [PATCH 49/94] fix: integer literals beyond 32 bits in expressions are
 64-bit integers

---
 osc_expr_scanner.l | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index f33fa1a..ff746f6 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -28,6 +28,7 @@
 #include "osc.h"
 #include "osc_expr_parser.h"
 #include "osc_expr.h"
+#include <errno.h>
 
 int colnum;
 
@@ -238,11 +239,19 @@ quote[[:space:]]*\( {
 (([[:digit:]]{-}[0])[[:digit:]]*|0) 	{
 						// int 
 						char *endptr = NULL;
-						int32_t i = strtol(yytext, &endptr, 10);
+						// integers that don't fit into 32 bits have 64
+						errno = 0;
+						int64_t i = strtoll(yytext, &endptr, 10);
 						if(alloc_atom){
 							yylval->atom = osc_atom_u_alloc();
 						}
-						osc_atom_u_setInt32(yylval->atom, i);
+						if(errno == ERANGE){
+							osc_atom_u_setUInt64(yylval->atom, strtoull(yytext, &endptr, 10));
+						}else if(i != (int32_t)i){
+							osc_atom_u_setInt64(yylval->atom, i);
+						}else{
+							osc_atom_u_setInt32(yylval->atom, (int32_t)i);
+						}
 						return OSC_EXPR_NUM;
 					}
 0[xX][[:digit:]abcdefABCDEF]+ 	{
-- 
2.43.0


From 74dce44ffbeac1190d3a3a0ea4fb7da2cd24fded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:08 +0000
Subject: [PATCH 50/94] fix: do not trap on the modulo of a wide integer and a
 string

---
 osc_expr.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index 4f7dc4c..c561aea 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3154,6 +3154,11 @@ int osc_expr_mod(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	}else if(osc_typetag_compare(tt1, 'i') > 0 || osc_typetag_compare(tt2, 'i') > 0){
 		// neither an int32 nor a double can hold the wider types
 		int64_t i1 = osc_atom_u_getInt64(f1), i2 = osc_atom_u_getInt64(f2);
+		if(i2 == 0){
+			// a string such as "0.5" or "Inf"
+			osc_atom_u_copyInto(result, f1);
+			return 0;
+		}
 		int64_t im = i2 == -1 ? 0 : i1 % i2;
 		if(im < 0){
 			im = i2 < 0 ? im - i2 : im + i2;
-- 
2.43.0


From 19a44d117b11d2b0e6387e2168db803e3e29e537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:05 +0000
Subject: [PATCH 51/94] fix: report errors of the value and index of member and
 indexed assignments, and do not use a replaced message

a.b = expr and a[[i]] = expr ignored errors of evaluating their operands (a member
assignment to an unbound address even left an empty bundle), and indexed assignment
kept a pointer to the target message across the evaluation of its operands, which may
replace the bundle it points into. Assigning an empty list to a member did nothing.
---
 osc_expr.c | 57 +++++++++++++++++++++++++++++++++++-------------------
 1 file changed, 37 insertions(+), 20 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c561aea..ef80714 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -929,8 +929,11 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_msg_ar_s *msg_ar = osc_bundle_s_lookupAddress(*len, *oscbndl, f_argv->arg.osc_address, 1);
-	if(!msg_ar){
+	if(osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to assign_to_index() should be an OSC address");
+		return 1;
+	}
+	if(*len <= OSC_HEADER_SIZE || !osc_bundle_s_getFirstFullMatch(*len, *oscbndl, f_argv->arg.osc_address)){
 		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index =");
 		return 1;
 	}
@@ -949,22 +952,28 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
             osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "assign to index");
             goto bail;
         }
+        if(err){
+            goto bail;
+        }
         int outlen = osc_atom_array_u_getLen(*out);
 
         // get index(es)
         err = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &indexes, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
             osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next));
             // osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next), "assign to index 2");
+        }
+        if(err){
             goto bail;
         }
         int nindexes = osc_atom_array_u_getLen(indexes);
         // get data
         err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &data, context);
-        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
+        if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv->next->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
             //osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assign to index 3");
             osc_error(context, OSC_ERR_EXPR_ADDRESSUNBOUND, "%s assign to index : address %s is unbound", osc_expr_arg_getOSCAddress(f_argv), osc_expr_arg_getOSCAddress(f_argv->next->next));
-
+        }
+        if(err){
             goto bail;
         }
         int ndata = osc_atom_array_u_getLen(data);
@@ -1016,9 +1025,13 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         }
 
         t_osc_msg_s *osc_msg_s = osc_message_u_serialize(mm);
-        if(msg_ar){
-            osc_bundle_s_replaceMessage(len, len, oscbndl, osc_message_array_s_get(msg_ar, 0), osc_msg_s);
-            osc_message_array_s_free(msg_ar);
+        // evaluating the indexes and the data may have changed the bundle
+        char *found_ptr = osc_bundle_s_getFirstFullMatch(*len, *oscbndl, f_argv->arg.osc_address);
+        if(found_ptr){
+            t_osc_msg_s *m = osc_message_s_alloc();
+            osc_message_s_wrap(m, found_ptr);
+            osc_bundle_s_replaceMessage(len, len, oscbndl, m, osc_msg_s);
+            osc_message_s_free(m);
         }else{
             osc_bundle_s_appendMessage(len, oscbndl, osc_msg_s);
         }
@@ -1848,14 +1861,9 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		// if arg1 is unbound, create a bundle with message arg2 : arg3
 		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_getArgCount(f) > 2 &&
 		    f_argv->type == OSC_EXPR_ARG_TYPE_OSCADDRESS && f_argv->next->type == OSC_EXPR_ARG_TYPE_OSCADDRESS ){
-			t_osc_msg_u *m = osc_message_u_allocWithAddress( f_argv->arg.osc_address );
-			t_osc_bundle_u * b = osc_bundle_u_alloc();
-			osc_message_u_appendBndl_u(m, b);
-            
-			osc_bundle_s_appendMessage(len, oscbndl, osc_message_u_serialize(m) );
-            
-			arg1 = osc_message_u_getArgArrayCopy(m);
-            
+			// the message itself is made by the assignment below
+			arg1 = osc_atom_array_u_alloc(1);
+			osc_atom_u_setBndl_u(osc_atom_array_u_get(arg1, 0), osc_bundle_u_alloc());
 		}else{
 			return 1;
 		}
@@ -1892,12 +1900,21 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 		osc_expr_setRec(assign, r);
 
 		t_osc_atom_array_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
-		int ret = 0;
-		if(!ar){
+		t_osc_expr_arg *target = NULL;
+		int ret = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &ar, context);
+		if(ret == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(f_argv->next->next) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv->next->next), "assigntobundlemember");
+		}
+		if(ret){
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			goto cleanup;
 		}
-		t_osc_expr_arg *target = NULL;
+		if(!ar){
+			// an empty list
+			ar = osc_atom_array_u_alloc(0);
+		}
 		osc_expr_arg_copy(&target, f_argv->next);
 		t_osc_expr_arg *val = osc_expr_arg_alloc();
 		if(osc_atom_array_u_getLen(ar) == 1){
-- 
2.43.0


From 348c803a19080da6d2692dac8ce27d82044c3f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:19 +0000
Subject: [PATCH 52/94] fix: make apply, map and the reductions sound

A function held in a parameter replaced the function argument of the expression for
good, so that later applications used the wrong function; reductions kept going after
an error and crashed on an empty value; map ignored errors; a call with too few arguments
through apply, map or a reduction read past the argument list; expressions of the
body of lambda([...], ...) after the second were dropped and arguments leaked; an empty list with a
start value is the start value.
---
 osc_expr.c        | 513 +++++++++++++++++++++-------------------------
 osc_expr_parser.y |  11 +-
 2 files changed, 234 insertions(+), 290 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index ef80714..df4ce4b 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -118,6 +118,11 @@ int osc_expr_evalInLexEnv(t_osc_expr *f,
 				void *context)
 {
 	// printf("%s context %p\n",__func__, context );
+	if(f->rec->func != osc_expr_apply && osc_expr_getArgCount(f) < osc_expr_rec_getNumRequiredArgs(f->rec)){
+		// the parser checks this for calls that are written out, but not for what apply(), map(), ... call
+		osc_expr_err_argnum(context, osc_expr_rec_getNumRequiredArgs(f->rec), osc_expr_getArgCount(f), 0, osc_expr_rec_getName(f->rec));
+		return 1;
+	}
 	//////////////////////////////////////////////////
 	// Special functions
 	//////////////////////////////////////////////////
@@ -336,6 +341,78 @@ t_osc_err osc_expr_evalArgInLexEnv(t_osc_expr_arg *arg,
 // Special functions
 //////////////////////////////////////////////////
 
+// post an error for an argument that could not be evaluated.  If it isn't an address, whatever is
+// inside of it has already posted one.
+static void osc_expr_err_evalArg(void *context, t_osc_err err, t_osc_expr_arg *arg, char *func)
+{
+	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_arg_getType(arg) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), func);
+	}
+}
+
+// apply a lambda or a built-in function to a list of unevaluated arguments, which remain the caller's
+static int osc_expr_applyRec(t_osc_expr_rec *r,
+			     t_osc_expr_arg *arg,
+			     t_osc_expr_lexenv *lexenv,
+			     long *len,
+			     char **oscbndl,
+			     t_osc_atom_ar_u **out,
+			     void *context)
+{
+	if(osc_expr_rec_getFunction(r) != osc_expr_lambda){
+		t_osc_expr *e = osc_expr_alloc();
+		osc_expr_setRec(e, r);
+		osc_expr_setArg(e, arg);
+		int ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
+		e->argc = 0;
+		e->argv = NULL;
+		osc_expr_free(e);
+		return ret;
+	}
+	// arity check
+	t_osc_expr_lexenv *lexenv_copy = NULL;
+	if(lexenv){
+		osc_expr_copyLexenv(&lexenv_copy, lexenv);
+	}else{
+		lexenv_copy = osc_expr_makeLexenv();
+	}
+	int nparams = osc_expr_rec_getNumRequiredArgs(r);
+	char **params = osc_expr_rec_getRequiredArgsNames(r);
+	for(int i = 0; (i < nparams) && arg; i++){
+		t_osc_atom_ar_u *atoms = NULL;
+		t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
+		if(e){
+			osc_expr_err_evalArg(context, e, arg, "apply");
+			if(atoms){
+				osc_atom_array_u_free(atoms);
+			}
+			osc_expr_destroyLexenv(lexenv_copy);
+			return e;
+		}
+		if(!atoms){
+			// no value at all
+			atoms = osc_atom_array_u_alloc(0);
+		}
+		osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
+		arg = arg->next;
+	}
+	t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
+	int ret = 0;
+	while(e){
+		ret = osc_expr_evalInLexEnv(e, lexenv_copy, len, oscbndl, out, context);
+		if((ret || e->next) && *out){
+			osc_atom_array_u_free(*out);
+			*out = NULL;
+		}
+		if(ret){
+			break;
+		}
+		e = osc_expr_next(e);
+	}
+	osc_expr_destroyLexenv(lexenv_copy);
+	return ret;
+}
+
 static int osc_expr_specFunc_apply(t_osc_expr *f,
 			    t_osc_expr_lexenv *lexenv,
 			    long *len,
@@ -344,10 +421,11 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 					void *context)
 {
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	if((osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_ATOM) &&
-	   (osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_FUNCTION) &&
-	   (osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_EXPR) &&
-	   (osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS)){
+	if(!f_argv ||
+	   ((osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_ATOM) &&
+	    (osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_FUNCTION) &&
+	    (osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_EXPR) &&
+	    (osc_expr_arg_getType(f_argv) != OSC_EXPR_ARG_TYPE_OSCADDRESS))){
 		osc_error_handler(context,
 					basename(__FILE__),
 				  __func__,
@@ -356,162 +434,83 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				  "the first argument to apply() should be a function, the name of a function, or an OSC address");
 		return 1;
 	}
+	t_osc_expr_rec *r = NULL;
+	t_osc_expr_rec *parsed = NULL; // ours to free
+	t_osc_atom_ar_u *ar = NULL;
+	char *name = NULL;
 	if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_FUNCTION){
-		t_osc_expr_rec *r = osc_expr_arg_getFunction(f_argv);
-		if(!r){
-			osc_error_handler(context,
-						basename(__FILE__),
-					  __func__,
-					  __LINE__,
-					  OSC_ERR_EXPPARSE,
-					  "Error parsing the first argument to apply()");
+		r = osc_expr_arg_getFunction(f_argv);
+	}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM){
+		if(osc_atom_u_getTypetag(osc_expr_arg_getOSCAtom(f_argv)) != 's'){
+			//error
 			return 1;
 		}
-		// arity check
-		t_osc_expr_lexenv *lexenv_copy = NULL;
-		if(lexenv){
-			osc_expr_copyLexenv(&lexenv_copy, lexenv);
-		}else{
-			lexenv_copy = osc_expr_makeLexenv();
-		}
-		int nparams = osc_expr_rec_getNumRequiredArgs(r);
-		char **params = osc_expr_rec_getRequiredArgsNames(r);
-		t_osc_expr_arg *arg = f_argv->next;
-		for(int i = 0; (i < nparams) && arg; i++){
-			t_osc_atom_ar_u *atoms = NULL;
-			t_osc_err e = osc_expr_evalArgInLexEnv(arg, lexenv, len, oscbndl, &atoms, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(arg), "apply");
-				return e;
+		name = osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv));
+		r = osc_expr_lookupFunction(name);
+		if(!r){
+			// maybe we're in a lambda and should look it up in the lexenv
+			t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, name);
+			if(xx && osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
+				r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
 			}
-			osc_expr_bindVarInLexenv(lexenv_copy, params[i], atoms);
-			arg = arg->next;
 		}
-		t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
-		while(e){
-			int ret =  osc_expr_evalInLexEnv(e, lexenv_copy, len, oscbndl, out, context);
-			if(e->next){
-				osc_atom_array_u_free(*out);
-				*out = NULL;
-			}
-			if(ret){
-				osc_expr_destroyLexenv(lexenv_copy);
-				return ret;
-			}
-			e = osc_expr_next(e);
-		}
-		osc_expr_destroyLexenv(lexenv_copy);
-	}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM ||
-		 osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_EXPR ||
-		 osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
-		t_osc_expr_rec *r = NULL;
-		if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM){
-			if(osc_atom_u_getTypetag(osc_expr_arg_getOSCAtom(f_argv)) != 's'){
-				//error
-				return 1;
-			}
-			/*
-			t_osc_atom_ar_u *a = NULL;
-			osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &a);
-			if(a){
-				t_osc_atom_u *aa = osc_atom_array_u_get(a, 0);
-			}
-			*/
-			r = osc_expr_lookupFunction(osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
-			if(!r){
-				// maybe we're in a lambda and should look it up in the lexenv
-				t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
-				if(osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
-					r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
-					t_osc_expr_arg *a = osc_expr_arg_alloc();
-					osc_expr_arg_setFunction(a, r);
-					osc_expr_arg_setNext(a, f_argv->next);
-					osc_expr_setArg(f, a);
-					int ret = osc_expr_specFunc_apply(f, lexenv, len, oscbndl, out, context);
-					//osc_expr_setArg(f, f_argv);
-					//osc_expr_arg_setNext(a, NULL);
-					//osc_expr_arg_free(a);
-					return ret;
-				}
-				//osc_atom_array_u_free(xx);
-			}
-		}else{
-			t_osc_atom_ar_u *ar = NULL;
-			t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-			if(e == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "apply");
-				return e;
-			}
-			if(!ar){
-				//error
-				return 1;
-			}
-			if(osc_atom_array_u_getLen(ar) != 1){
-				//error
-				return 1;
-			}
-			if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
-				//error
-				return 1;
-			}
-			char *stp = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
-			r = osc_expr_lookupFunction(stp);
-			if(!r){
-				// lookup didn't return a valid function, so let's see
-				// if we can parse this string.
-				t_osc_err err = osc_expr_parser_parseFunction(stp, &r, context);
-				if(!err && r){
-					t_osc_expr *e = NULL;
-					osc_expr_copy(&e, f);
-					t_osc_expr_arg *arg1 = osc_expr_getArgs(e);
-					t_osc_expr_arg *arg2 = osc_expr_arg_next(arg1);
-					switch(osc_expr_arg_getType(arg1)){
-					case OSC_EXPR_ARG_TYPE_ATOM:
-						osc_atom_u_free(osc_expr_arg_getOSCAtom(arg1));
-						break;
-					case OSC_EXPR_ARG_TYPE_EXPR:
-						osc_expr_free(osc_expr_arg_getExpr(arg1));
-						break;
-					case OSC_EXPR_ARG_TYPE_OSCADDRESS:
-						osc_mem_free(osc_expr_arg_getOSCAddress(arg1));
-						break;
-					}
-					osc_expr_arg_setFunction(arg1, r);
-					osc_expr_arg_setNext(arg1, arg2);
-					e->argv = arg1;
-					osc_expr_arg_setFunction(osc_expr_getArgs(e), r);
-
-					int ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-					osc_expr_free(e);
-					osc_atom_array_u_free(ar);
-					return ret;
-				}
+	}else{
+		t_osc_err e = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		if(e){
+			osc_expr_err_evalArg(context, e, f_argv, "apply");
+			if(ar){
+				osc_atom_array_u_free(ar);
 			}
+			return e;
+		}
+		if(!ar){
+			//error
+			return 1;
+		}
+		if(osc_atom_array_u_getLen(ar) != 1){
+			//error
 			osc_atom_array_u_free(ar);
+			return 1;
 		}
-		if(!r){
-			osc_error_handler(context,
-						basename(__FILE__),
-					  __func__,
-					  __LINE__,
-					  OSC_ERR_EXPPARSE,
-					  "unrecognized function %s",
-					  osc_atom_u_getStringPtr(osc_expr_arg_getOSCAtom(f_argv)));
+		if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, 0)) != 's'){
+			//error
+			osc_atom_array_u_free(ar);
 			return 1;
 		}
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		osc_expr_setArg(e, f_argv->next);
-		int ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		e->argc = 0;
-		e->argv = NULL;
-		osc_expr_free(e);
-		return ret;
+		name = osc_atom_u_getStringPtr(osc_atom_array_u_get(ar, 0));
+		r = osc_expr_lookupFunction(name);
+		if(!r){
+			// lookup didn't return a valid function, so let's see
+			// if we can parse this string.
+			t_osc_err err = osc_expr_parser_parseFunction(name, &parsed, context);
+			if(!err){
+				r = parsed;
+			}
+		}
+	}
+	int ret = 1;
+	if(r){
+		ret = osc_expr_applyRec(r, f_argv->next, lexenv, len, oscbndl, out, context);
 	}else{
-		//error
-		return 1;
+		osc_error_handler(context,
+					basename(__FILE__),
+				  __func__,
+				  __LINE__,
+				  OSC_ERR_EXPPARSE,
+				  "unrecognized function %s",
+				  name ? name : "");
 	}
-	return 0;
+	if(parsed){
+		t_osc_expr *body = NULL;
+		osc_expr_rec_free(parsed, (void **)&body);
+		if(body){
+			osc_expr_free(body);
+		}
+	}
+	if(ar){
+		osc_atom_array_u_free(ar);
+	}
+	return ret;
 }
 
 static int osc_expr_specFunc_map(t_osc_expr *f,
@@ -527,30 +526,24 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		return 1;
 	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
-	t_osc_expr *e = osc_expr_alloc();
-	osc_expr_setRec(e, r);
 
 	int ac = f_argc - 1;
 	t_osc_atom_ar_u *args[ac];
 	memset(args, '\0', ac * sizeof(t_osc_atom_ar_u *));
 	uint32_t min = ~0;
+	int ret = 0;
 	int i = 0;
 	t_osc_expr_arg *a = f_argv->next;
 	while(a){
-		t_osc_err err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a), "map");
-			// assume whoever generated this will post an error
-			for(int j = 0; j < i; j++){
+		ret = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, args + i, context);
+		if(ret){
+			osc_expr_err_evalArg(context, ret, a, "map");
+			for(int j = 0; j <= i; j++){
 				if(args[j]){
 					osc_atom_array_u_free(args[j]);
 				}
 			}
-			e->argv = NULL;
-			e->argc = 0;
-			osc_expr_free(e);
-			return err;
+			return ret;
 		}
 		int count = osc_atom_array_u_getLen(args[i]);
 		if(count < min){
@@ -560,6 +553,8 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		a = a->next;
 	}
 	// arity check needs to go here
+	t_osc_expr *e = osc_expr_alloc();
+	osc_expr_setRec(e, osc_expr_lookupFunction("apply"));
 	t_osc_expr_arg *func_args[ac + 1];
 	func_args[0] = NULL;
 	osc_expr_arg_copy(func_args, f_argv);
@@ -569,22 +564,27 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 		osc_expr_appendArg(e, func_args[i]);
 	}
 
-	t_osc_atom_ar_u *output[min];
-	memset(output, '\0', min * sizeof(t_osc_atom_ar_u *));
+	t_osc_atom_ar_u **output = osc_mem_alloc((min + 1) * sizeof(t_osc_atom_ar_u *));
+	memset(output, '\0', (min + 1) * sizeof(t_osc_atom_ar_u *));
 	int outcount = 0;
 	for(i = 0; i < min; i++){
 		int j;
 		for(j = 0; j < ac; j++){
 			osc_expr_arg_setOSCAtom(func_args[j + 1], osc_atom_array_u_get(args[j], i));
 		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, output + i, context);
+		if(ret){
+			break;
+		}
 		outcount += osc_atom_array_u_getLen(output[i]);
 	}
-	*out = osc_atom_array_u_alloc(outcount);
-	int pos = 0;
-	for(i = 0; i < min; i++){
-		osc_atom_array_u_copyInto(out, output[i], pos);
-		pos += osc_atom_array_u_getLen(output[i]);
+	if(!ret){
+		*out = osc_atom_array_u_alloc(outcount);
+		int pos = 0;
+		for(i = 0; i < min; i++){
+			osc_atom_array_u_copyInto(out, output[i], pos);
+			pos += osc_atom_array_u_getLen(output[i]);
+		}
 	}
 	e->argv = NULL;
 	e->argc = 0;
@@ -609,7 +609,8 @@ static int osc_expr_specFunc_map(t_osc_expr *f,
 			osc_atom_array_u_free(output[i]);
 		}
 	}
-	return 0;
+	osc_mem_free(output);
+	return ret;
 }
 
 static int osc_expr_specFunc_reduce(t_osc_expr *f,
@@ -624,136 +625,80 @@ static int osc_expr_specFunc_reduce(t_osc_expr *f,
 		// error
 		return 1;
 	}
+	int left = f->rec->func == osc_expr_lreduce;
+	char *name = left ? "lreduce" : "rreduce";
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
-	t_osc_expr *e = osc_expr_alloc();
-	osc_expr_setRec(e, r);
-
-	int ac = 3;
-	t_osc_expr_arg *func_args[ac];  // function, arg1, arg2
-	func_args[0] = NULL;
-	osc_expr_arg_copy(func_args, f_argv);
-	osc_expr_appendArg(e, *func_args);
-	for(int i = 1; i < ac; i++){
-		func_args[i] = osc_expr_arg_alloc();
-		osc_expr_appendArg(e, func_args[i]);
-	}
-
-	t_osc_atom_ar_u *args = NULL;
 	t_osc_expr_arg *a = f_argv->next;
-	int err = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-				     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
+	t_osc_atom_ar_u *args = NULL;
+	t_osc_atom_ar_u *output = NULL; // the value so far, only the first element of which is passed on
+	int ret = osc_expr_evalArgInLexEnv(a, lexenv, len, oscbndl, &args, context);
+	if(ret){
+		osc_expr_err_evalArg(context, ret, a, name);
 		if(args){
 			osc_atom_array_u_free(args);
 		}
-		for(int i = 0; i < ac; i++){
-			if(func_args[i]){
-				osc_expr_arg_free(func_args[i]);
+		return ret;
+	}
+	int count = args ? osc_atom_array_u_getLen(args) : 0;
+	int start = 0;
+	if(f_argc > 2){
+		ret = osc_expr_evalArgInLexEnv(a->next, lexenv, len, oscbndl, &output, context);
+		if(ret){
+			osc_expr_err_evalArg(context, ret, a->next, name);
+		}else if(!output || osc_atom_array_u_getLen(output) < 1){
+			ret = 1;
+		}
+	}else if(count > 0){
+		output = osc_atom_array_u_alloc(1);
+		t_osc_atom_u *first = osc_atom_array_u_get(output, 0);
+		osc_atom_u_copyInto(&first, osc_atom_array_u_get(args, left ? 0 : count - 1));
+		start = 1;
+	}else{
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "%s() needs a list with at least one element, or a start value", name);
+		ret = 1;
+	}
+	if(!ret && start < count){
+		t_osc_expr *e = osc_expr_alloc();
+		osc_expr_setRec(e, osc_expr_lookupFunction("apply"));
+		t_osc_expr_arg *func = NULL;
+		osc_expr_arg_copy(&func, f_argv);
+		t_osc_expr_arg *arg1 = osc_expr_arg_alloc();
+		t_osc_expr_arg *arg2 = osc_expr_arg_alloc();
+		osc_expr_appendArg(e, func);
+		osc_expr_appendArg(e, arg1);
+		osc_expr_appendArg(e, arg2);
+		for(int i = start; i < count && !ret; i++){
+			t_osc_atom_u *acc = osc_atom_array_u_get(output, 0);
+			t_osc_atom_u *elem = osc_atom_array_u_get(args, left ? i : count - 1 - i);
+			osc_expr_arg_setOSCAtom(arg1, left ? acc : elem);
+			osc_expr_arg_setOSCAtom(arg2, left ? elem : acc);
+			t_osc_atom_ar_u *next = NULL;
+			ret = osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &next, context);
+			osc_atom_array_u_free(output);
+			output = next;
+			if(!ret && (!output || osc_atom_array_u_getLen(output) < 1)){
+				osc_error(context, OSC_ERR_EXPR_EVAL, "the function given to %s() should give a value", name);
+				ret = 1;
 			}
 		}
 		e->argv = NULL;
 		e->argc = 0;
 		osc_expr_free(e);
-		return err;
+		osc_expr_arg_free(func);
+		// the atoms belong to args and output
+		osc_mem_free(arg1);
+		osc_mem_free(arg2);
 	}
-	int count = osc_atom_array_u_getLen(args);
-
-	int arg0 = 1;
-	int arg1 = 2;
-	int delta = 1;
-	int start = 0;
-	if(f->rec->func == osc_expr_rreduce){
-		arg0 = 2;
-		arg1 = 1;
-		delta = -1;
-		start = count - 1;
+	if(args){
+		osc_atom_array_u_free(args);
 	}
-
-	if(count == 0){
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, out, context);
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-	}else if(count == 1 && f_argc == 2){
-		*out = args;
-	}else{
-		t_osc_atom_ar_u *output = NULL;
-		if(f_argc == 3){
-			t_osc_atom_ar_u *sc = NULL;
-			t_osc_err err = osc_expr_evalArgInLexEnv(f_argv->next->next, lexenv, len, oscbndl, &sc, context);
-			if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-				osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(a),
-						     f->rec->func == osc_expr_lreduce ? "lreduce" : "rreduce");
-				if(args){
-					osc_atom_array_u_free(args);
-				}
-				for(int i = 0; i < ac; i++){
-					if(func_args[i]){
-						osc_expr_arg_free(func_args[i]);
-					}
-				}
-				e->argv = NULL;
-				e->argc = 0;
-				osc_expr_free(e);
-				return err;
-			}
-			if(sc){
-				t_osc_atom_u *acopy = NULL;
-				osc_atom_u_copyInto(&acopy, osc_atom_array_u_get(sc, 0));
-				osc_expr_arg_setOSCAtom(func_args[arg0], acopy);
-				if(sc){
-					osc_atom_array_u_free(sc);
-				}
-			}else{
-				//error
-				return 1;
-			}
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}else{
-			osc_expr_arg_setOSCAtom(func_args[arg0], osc_atom_array_u_get(args, start));
-			start += delta;
-			osc_expr_arg_setOSCAtom(func_args[arg1], osc_atom_array_u_get(args, start));
-			start += delta;
-		}
-		osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-
-		for(int i = start; delta > 0 ? i < count : i >= 0; i += delta){
-			t_osc_atom_u *copy1 = NULL;
-			t_osc_atom_u *copy2 = NULL;
-			osc_atom_u_copyInto(&copy1, osc_atom_array_u_get(output, 0));
-			osc_atom_u_copyInto(&copy2, osc_atom_array_u_get(args, i));
-			osc_expr_arg_setOSCAtom(func_args[arg0], copy1);
-			osc_expr_arg_setOSCAtom(func_args[arg1], copy2);
+	if(ret){
+		if(output){
 			osc_atom_array_u_free(output);
-			output = NULL;
-			osc_expr_evalInLexEnv(e, lexenv, len, oscbndl, &output, context);
-			osc_expr_arg_clear(func_args[arg0]);
-			osc_expr_arg_clear(func_args[arg1]);
-		}
-		*out = output;
-		if(args){
-			osc_atom_array_u_free(args);
-		}
-	}
-
-	e->argv = NULL;
-	e->argc = 0;
-	osc_expr_free(e);
-
-	if(func_args[0]){
-		osc_expr_arg_free(func_args[0]);
-	}
-	for(int i = 1; i < ac; i++){
-		if(func_args[i]){
-			// it looks like a bug to free a t_osc_expr_arg with osc_mem_free,
-			// but we don't want to free the underlying t_osc_atom_u because
-			// it will be freed when args is freed.
-			osc_mem_free(func_args[i]);
 		}
+		return ret;
 	}
+	*out = output;
 	return 0;
 }
 
diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 1520eaa..8bad5a3 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -832,7 +832,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -857,8 +856,12 @@ function:
 			}else{
 				t_osc_expr *e = osc_expr_alloc();
 				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				osc_expr_prependArg(e, aaa);
+				t_osc_expr_arg *aaacpy = NULL;
+				osc_expr_arg_copy(&aaacpy, aaa);
+				osc_expr_prependArg(e, aaacpy);
+				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
+				osc_expr_arg_free(old);
 				osc_expr_appendExpr(exprlist, e);
 			}
 			/*
@@ -951,7 +954,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -978,7 +980,6 @@ function:
 				t_osc_expr_arg *aaacpy = NULL;
 				osc_expr_arg_copy(&aaacpy, aaa);
 				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
 				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
 				osc_expr_arg_free(old);
@@ -1053,7 +1054,6 @@ function:
 			t_osc_expr_arg *aaacpy = NULL;
 			osc_expr_arg_copy(&aaacpy, aaa);
 			osc_expr_prependArg(e, aaacpy);
-			osc_expr_arg_setExpr(aaa, NULL);
 			t_osc_expr_arg *old = aaa;
 			aaa = osc_expr_arg_next(aaa);
 			osc_expr_arg_free(old);
@@ -1080,7 +1080,6 @@ function:
 				t_osc_expr_arg *aaacpy = NULL;
 				osc_expr_arg_copy(&aaacpy, aaa);
 				osc_expr_prependArg(e, aaacpy);
-				osc_expr_arg_setExpr(aaa, NULL);
 				t_osc_expr_arg *old = aaa;
 				aaa = osc_expr_arg_next(aaa);
 				osc_expr_arg_free(old);
-- 
2.43.0


From 319c96ad7caf2fcde4af2084705b8786fa4638aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:49 +0000
Subject: [PATCH 53/94] fix: give nfill the documented default value

---
 osc_expr.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index df4ce4b..e8c59c2 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3931,14 +3931,22 @@ int osc_expr_list(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 
 int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
-    if(argc < 2){
-        osc_expr_err_argnum(context, 2, argc, 1, "osc_expr: nfill()");
-        return 1;
-    }
+	if(argc < 1){
+		osc_expr_err_argnum(context, 1, argc, 1, "osc_expr: nfill()");
+		return 1;
+	}
 	int n = osc_atom_u_getInt(osc_atom_array_u_get(*argv, 0));
 	if(n < 0){
 		n = 0;
 	}
+	if(argc < 2){
+		// the value is optional and defaults to 0
+		*out = osc_atom_array_u_alloc(n);
+		for(int i = 0; i < n; i++){
+			osc_atom_u_setDouble(osc_atom_array_u_get(*out, i), 0.);
+		}
+		return 0;
+	}
 	//t_osc_atom_u *val = NULL;
 
 	int outlen = n * osc_atom_array_u_getLen(argv[1]);
-- 
2.43.0


From 84f1e5a16ff9062272f12a0d21a4282873290600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:14 +0000
Subject: [PATCH 54/94] fix: give the mathematical value in aggregate functions
 for floats, wide and negative results, and degenerate input

---
 osc_expr.c | 106 ++++++++++++++++++++++++++++++++---------------------
 1 file changed, 65 insertions(+), 41 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e8c59c2..42b0442 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3392,6 +3392,22 @@ int osc_expr_assign_to_index(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_
 	return 0;
 }
 
+// store an integral value in the narrowest type from int32 on that can hold it
+static void osc_expr_setIntegralValue(t_osc_atom_u *a, double val)
+{
+	if(val >= -2147483648. && val <= 2147483647.){
+		osc_atom_u_setInt32(a, (int32_t)val);
+	}else if(val >= 0. && val <= 4294967295.){
+		osc_atom_u_setUInt32(a, (uint32_t)val);
+	}else if(val >= -9223372036854775808. && val < 9223372036854775808.){
+		osc_atom_u_setInt64(a, (int64_t)val);
+	}else if(val >= 0. && val < 18446744073709551616.){
+		osc_atom_u_setUInt64(a, (uint64_t)val);
+	}else{
+		osc_atom_u_setDouble(a, val);
+	}
+}
+
 int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	*out = osc_atom_array_u_alloc(1);
@@ -3408,23 +3424,17 @@ int osc_expr_product(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 		}
 		int i;
 		for(i = 0; i < len; i++){
+			char tt = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[j], i));
+			if(OSC_TYPETAG_ISFLOAT(tt)){
+				doubleup = 1;
+			}
 			val *= osc_atom_u_getDouble(osc_atom_array_u_get(argv[j], i));
 		}
 	}
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setIntegralValue(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
@@ -3455,17 +3465,7 @@ int osc_expr_sum(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	if(doubleup){
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
 	}else{
-		if(val <= 0x7fffffff){
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= ((uint32_t)0xffffffff)){
-			osc_atom_u_setUInt32(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0x7fffffffffffffff){
-			osc_atom_u_setInt64(osc_atom_array_u_get(*out, 0), val);
-		}else if(val <= 0xffffffffffffffff){
-			osc_atom_u_setUInt64(osc_atom_array_u_get(*out, 0), val);
-		}else{
-			osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), val);
-		}
+		osc_expr_setIntegralValue(osc_atom_array_u_get(*out, 0), val);
 	}
 	return 0;
 }
@@ -3755,6 +3755,10 @@ int osc_expr_median(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	*out = osc_atom_array_u_alloc(1);
 
 	long len = osc_atom_array_u_getLen(*argv);
+	if(len == 0){
+		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), NAN);
+		return 0;
+	}
 	double *tmp = NULL;
 	osc_atom_array_u_getDoubleArray(*argv, &tmp);
 	qsort((void *)(tmp), len, sizeof(double), comp);
@@ -4393,7 +4397,7 @@ int LUPDecompose(double **A, int N, double Tol, int *P) {
 				imax = k;
 			}
 
-		if (maxA < Tol) return 0; //failure, matrix is degenerate
+		if (maxA <= Tol) return 0; //failure, matrix is degenerate
 
 		if (imax != i) {
 			//pivoting P
@@ -4489,8 +4493,7 @@ int osc_expr_det(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 		}
 		int P[argc + 1];
 		memset(P, 0, sizeof(int) * (argc + 1));
-		LUPDecompose(cells, argc, 0, P);
-		double d = LUPDeterminant(cells, P, argc);
+		double d = LUPDecompose(cells, argc, 0, P) ? LUPDeterminant(cells, P, argc) : 0.;
 		osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), d);
 		for(int j = 0; j < argc; j++){
 			if(cells[j]){
@@ -4607,9 +4610,11 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 	}
 	int minx = 0, maxx = 0;
 	for(int i = 1; i < n; i++){
-		if(xs[i] < xs[minx]){
+		// among points with the same x, take the outermost one
+		if(xs[i] < xs[minx] || (xs[i] == xs[minx] && ys[i] < ys[minx])){
 			minx = i;
-		}else if(xs[i] > xs[maxx]){
+		}
+		if(xs[i] > xs[maxx] || (xs[i] == xs[maxx] && ys[i] > ys[maxx])){
 			maxx = i;
 		}
 	}
@@ -4638,7 +4643,7 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX;
+	double min = HUGE_VAL;
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4647,6 +4652,12 @@ int osc_expr_min(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 			a = osc_atom_array_u_get(*argv, i);
 		}
 	}
+	if(!a){
+		// there is no value to choose from
+		osc_atom_array_u_free(*out);
+		*out = NULL;
+		return 0;
+	}
 	t_osc_atom_u *o = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_copyInto(&o, a);
 	return 0;
@@ -4659,7 +4670,7 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double max = -DBL_MAX;
+	double max = -HUGE_VAL;
 	t_osc_atom_u *a = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4668,6 +4679,12 @@ int osc_expr_max(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_
 			a = osc_atom_array_u_get(*argv, i);
 		}
 	}
+	if(!a){
+		// there is no value to choose from
+		osc_atom_array_u_free(*out);
+		*out = NULL;
+		return 0;
+	}
 	t_osc_atom_u *o = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_copyInto(&o, a);
 	return 0;
@@ -4680,7 +4697,7 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	*out = osc_atom_array_u_alloc(2);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	t_osc_atom_u *amin = NULL, *amax = NULL;
 	for(i = 0; i < osc_atom_array_u_getLen(*argv); i++){
 		double f = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
@@ -4693,6 +4710,11 @@ int osc_expr_extrema(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 			amax = osc_atom_array_u_get(*argv, i);
 		}
 	}
+	if(!amin){
+		osc_atom_array_u_free(*out);
+		*out = NULL;
+		return 0;
+	}
 	t_osc_atom_u *omin = osc_atom_array_u_get(*out, 0);
 	t_osc_atom_u *osc = osc_atom_array_u_get(*out, 1);
 	osc_atom_u_copyInto(&omin, amin);
@@ -4707,7 +4729,7 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	*out = osc_atom_array_u_alloc(1);
 
 	int i;
-	double min = DBL_MAX, max = -DBL_MAX;
+	double min = HUGE_VAL, max = -HUGE_VAL;
 	char ttmin = 'i';
 	char ttmax = 'i';
 	//t_osc_atom_u *amin = NULL, *amax = NULL;
@@ -4724,11 +4746,16 @@ int osc_expr_range(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			//amax = osc_atom_array_u_get(*argv, i);
 		}
 	}
+	if(min > max){
+		osc_atom_array_u_free(*out);
+		*out = NULL;
+		return 0;
+	}
 	t_osc_atom_u *r = osc_atom_array_u_get(*out, 0);
 	if(ttmin == 'f' || ttmin == 'd' || ttmax == 'f' || ttmax == 'd'){
 		osc_atom_u_setDouble(r, max - min);
 	}else{
-		osc_atom_u_setInt32(r, max - min);
+		osc_expr_setIntegralValue(r, max - min);
 	}
 	return 0;
 }
@@ -4775,7 +4802,7 @@ int osc_expr_clip(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		if(type == 'f' || type == 'd' || fl){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setIntegralValue(osc_atom_array_u_get(result, i), trunc(val));
 		}
 	}
 	return 0;
@@ -4823,14 +4850,11 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			if(fl || type == 'd' || type == 'f'){
 				osc_atom_u_setDouble(osc_atom_array_u_get(result, i), min_out);
 			}else{
-				osc_atom_u_setInt32(osc_atom_array_u_get(result, i), min_out);
+				osc_expr_setIntegralValue(osc_atom_array_u_get(result, i), min_out);
 			}
 		}
 		return 0;
 	}
-	double m = (max_out - min_out) / (max_in - min_in);
-	double b = (min_out - (m * min_in));
-		
 	int i;
 	for(i = 0; i < len; i++){
 		char type = osc_atom_u_getTypetag(osc_atom_array_u_get(*argv, i));
@@ -4840,11 +4864,11 @@ int osc_expr_scale(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			continue;
 		}
 		double val = osc_atom_u_getDouble(osc_atom_array_u_get(*argv, i));
-		val = m * val + b;
+		val = (val - min_in) * (max_out - min_out) / (max_in - min_in) + min_out;
 		if(fl || type == 'd' || type == 'f'){
 			osc_atom_u_setDouble(osc_atom_array_u_get(result, i), val);
 		}else{
-			osc_atom_u_setInt32(osc_atom_array_u_get(result, i), (int32_t)val);
+			osc_expr_setIntegralValue(osc_atom_array_u_get(result, i), trunc(val));
 		}
 	}
 	return 0;
@@ -5825,7 +5849,7 @@ int osc_expr_degtorad(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 {
 	*out = osc_atom_array_u_alloc(1);
 
-	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 0.017453);
+	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), M_PI / 180.);
 	return 0;
 }
 
@@ -5833,7 +5857,7 @@ int osc_expr_radtodeg(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_ato
 {
 	*out = osc_atom_array_u_alloc(1);
 
-	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 57.29578);
+	osc_atom_u_setDouble(osc_atom_array_u_get(*out, 0), 180. / M_PI);
 	return 0;
 }
 
-- 
2.43.0


From 98f6adf9649488dd27c19fc4808656a0360a3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:50 +0000
Subject: [PATCH 55/94] fix: string functions and casts without over-reads and
 leaks; reject what has no conversion

---
 osc_atom_u.c |  5 ++++
 osc_expr.c   | 78 +++++++++++++++++++++++++++++++++++++++++++++-------
 2 files changed, 73 insertions(+), 10 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 0bb389b..b13fc03 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -822,6 +822,11 @@ int osc_atom_u_getString(t_osc_atom_u *a, size_t n, char **out)
 	case 'b': // blob
 		stringlen = osc_strfmt_blob(*out, nn, a->w.b);
 		break;
+	default: // there is no text for the other types
+		if(nn > 0){
+			**out = '\0';
+		}
+		break;
 	}
 	return stringlen;
 }
diff --git a/osc_expr.c b/osc_expr.c
index 42b0442..e573a6e 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5146,6 +5146,16 @@ int osc_expr_strcmp(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 	char *st1 = NULL, *st2 = NULL;
 	osc_atom_u_getString(osc_atom_array_u_get(*argv, 0), 0, &st1);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &st2);
+	if(!st1 || !st2){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "strcmp() needs two strings");
+		if(st1){
+			osc_mem_free(st1);
+		}
+		if(st2){
+			osc_mem_free(st2);
+		}
+		return 1;
+	}
 	int ret = 0;
 	if(argc == 3){
 		int n = osc_atom_u_getInt(osc_atom_array_u_get(argv[2], 0));
@@ -5198,7 +5208,7 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         osc_atom_u_getString(osc_atom_array_u_get(argv[1], i), 0, &str);
         long len = strlen(str);
         
-        char buf[numchars+1];
+        char *buf = osc_mem_alloc(numchars + 1);
         for( j = 0; j < numchars; j++ )
         {
             int pos = osc_atom_u_getInt32(osc_atom_array_u_get(argv[0], j));
@@ -5209,12 +5219,14 @@ int osc_expr_strchar(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
             else
             {
                 osc_error(context, OSC_ERR_EXPR_ARGCHK, "char index out of range.");
+                osc_mem_free(buf);
                 osc_mem_free(str);
                 return 1;
             }
         }
         buf[numchars] = '\0';
         osc_atom_u_setString(osc_atom_array_u_get(*out, i), buf );
+        osc_mem_free(buf);
         osc_mem_free(str);
     }
     return 0;
@@ -5230,6 +5242,12 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
     osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &substr);
     if(!substr || !str){
+        if(substr){
+            osc_mem_free(substr);
+        }
+        if(str){
+            osc_mem_free(str);
+        }
         return 1;
     }
     // strfind( "/foo", "/foo/bar" )
@@ -5238,6 +5256,8 @@ int osc_expr_strfind(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long substrlen = strlen(substr);
     if(substrlen == 0)
     {
+        osc_mem_free(substr);
+        osc_mem_free(str);
         return 0;
     }
     
@@ -5275,6 +5295,12 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	osc_atom_u_getString(osc_atom_array_u_get(argv[1], 0), 0, &str);
 	osc_atom_u_getString(osc_atom_array_u_get(argv[0], 0), 0, &sep);
 	if(!sep || !str){
+		if(sep){
+			osc_mem_free(sep);
+		}
+		if(str){
+			osc_mem_free(str);
+		}
 		return 1;
 	}
 	if(strlen(sep) == 0){
@@ -5284,6 +5310,8 @@ int osc_expr_split(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 			t_osc_atom_u *a = osc_atom_array_u_get(*out, i);
 			osc_atom_u_setInt8(a, str[i]);
 		}
+		osc_mem_free(sep);
+		osc_mem_free(str);
 		return 0;
 	}
 	int n = 16;
@@ -5323,14 +5351,12 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	int seplen = 0;
 	if(sep){
 		seplen = strlen(sep);
-	}else{
-		sep = "";
 	}
 	int n = 0;
 	for(int i = 1; i < argc; i++){
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
-	char *ptrs[n];
+	char **ptrs = (char **)osc_mem_alloc((n + 1) * sizeof(char *));
 	int len = 0;
 	n = 0;
 	for(int i = 1; i < argc; i++){
@@ -5339,7 +5365,7 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 			t_osc_atom_u *a = osc_atom_array_u_get(argv[i], j);
 			osc_atom_u_getString(a, 0, &ptr);
 			char tt = osc_atom_u_getTypetag(a);
-			if(tt == 'c' || tt == 'C'){
+			if(ptr && (tt == 'c' || tt == 'C')){
 				ptr[0] = ptr[1];
 				ptr[1] = 0;
 			}
@@ -5352,16 +5378,18 @@ int osc_expr_join(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 	len++;
 	char *buf = (char *)osc_mem_alloc(len);
 	char *bufptr = buf;
+	*buf = '\0';
 	for(int i = 0; i < n; i++){
 		if(ptrs[i]){
 			if(i == n - 1){
 				bufptr += sprintf(bufptr, "%s", ptrs[i]);
 			}else{
-				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep);
+				bufptr += sprintf(bufptr, "%s%s", ptrs[i], sep ? sep : "");
 			}
 			osc_mem_free(ptrs[i]);
 		}
 	}
+	osc_mem_free(ptrs);
 	*out = osc_atom_array_u_alloc(1);
 	osc_atom_u_setStringPtr(osc_atom_array_u_get(*out, 0), buf);
 	osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
@@ -5955,14 +5983,17 @@ int osc_expr_explicitCast(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc
 					return 1;
 				}
 				osc_atom_u_setBlob(osc_atom_array_u_get(*out, 0), b);
+				osc_mem_free(b);
 			}else{
-				char *blob = osc_mem_alloc(n + 4);
+				char *blob = osc_mem_alloc(osc_util_getPaddingForNBytes(n) + 4);
+				memset(blob, '\0', osc_util_getPaddingForNBytes(n) + 4);
 				for(int i = 0; i < n; i++){
 					blob[i + 4] = osc_atom_u_getInt8(osc_atom_array_u_get(*argv, i));
 				}
 				*((int32_t *)blob) = hton32(n);
 				*out = osc_atom_array_u_alloc(1);
 				osc_atom_u_setBlobPtr(osc_atom_array_u_get(*out, 0), blob);
+				osc_atom_u_setShouldFreePtr(osc_atom_array_u_get(*out, 0), 1);
 			}
 		}else{
 			int n = osc_atom_array_u_getLen(*argv);
@@ -6054,8 +6085,16 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 {
 	char *s = NULL;
 	if(osc_atom_u_getTypetag(src) == 'b'){
+		// the bytes of a blob are not null terminated
+		int32_t n = osc_atom_u_getBlobLen(src);
 		char *b = osc_atom_u_getBlob(src);
-		osc_atom_u_setString(dest, b + 4);
+		s = osc_mem_alloc(n + 1);
+		if(n > 0){
+			memcpy(s, b + 4, n);
+		}
+		s[n] = '\0';
+		osc_atom_u_setString(dest, s);
+		osc_mem_free(s);
 		return 0;
 	}else{
 		if(osc_atom_u_getTypetag(src) == 'c'){
@@ -6065,7 +6104,7 @@ int osc_expr_explicitCast_string(t_osc_atom_u *dest, t_osc_atom_u *src)
 				buf[0] = c;
 				buf[1] = 0;
 			}else{
-				snprintf(buf, 4, "%d", c);
+				snprintf(buf, sizeof(buf), "%d", c);
 			}
 			osc_atom_u_setString(dest, buf);
 			return 0;
@@ -6099,6 +6138,7 @@ int osc_expr_explicitCast_blob(t_osc_atom_u *dest, t_osc_atom_u *src)
 	char *blob = NULL;
 	osc_atom_u_getBlobCopy(src, &l, &blob);
 	osc_atom_u_setBlobPtr(dest, blob);
+	osc_atom_u_setShouldFreePtr(dest, 1);
 	return 0;
 }
 
@@ -6163,6 +6203,12 @@ int osc_expr_explicitCast_dynamic(t_osc_expr *f, int argc, t_osc_atom_ar_u **arg
 			case 'b':
 				osc_expr_explicitCast_blob(osc_atom_array_u_get(*out, i), osc_atom_array_u_get(argv[1], i));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "cast: there is no conversion to the type of element %d", i);
+				if(alloc){
+					osc_atom_array_u_free(ttarray);
+				}
+				return 1;
 			}
 		}
 		if(alloc){
@@ -6195,6 +6241,9 @@ int osc_expr_hton32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), hton32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton32: element %d is not an integer of at most 32 bits", k);
+				return 1;
 			}
 			k++;
 		}
@@ -6224,6 +6273,9 @@ int osc_expr_ntoh32(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'I':
 				osc_atom_u_setUInt32(osc_atom_array_u_get(*out, k), ntoh32(osc_atom_u_getUInt32(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh32: element %d is not an integer of at most 32 bits", k);
+				return 1;
 			}
 			k++;
 		}
@@ -6247,7 +6299,7 @@ int osc_expr_hton64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'u':
 			case 'i':
 			case 'h':
-				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getUInt64(a)));
+				osc_atom_u_setInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getInt64(a)));
 				break;
 			case 'C':
 			case 'U':
@@ -6255,6 +6307,9 @@ int osc_expr_hton64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), hton64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "hton64: element %d is not an integer of at most 64 bits", k);
+				return 1;
 			}
 			k++;
 		}
@@ -6286,6 +6341,9 @@ int osc_expr_ntoh64(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 			case 'H':
 				osc_atom_u_setUInt64(osc_atom_array_u_get(*out, k), ntoh64(osc_atom_u_getUInt64(a)));
 				break;
+			default:
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "ntoh64: element %d is not an integer of at most 64 bits", k);
+				return 1;
 			}
 			k++;
 		}
-- 
2.43.0


From be7774cbab57f19d009f4e384497b4fe82e4fb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:56 +0000
Subject: [PATCH 56/94] fix: take the scanners' and parsers' memory from the
 functions given to osc_set_mem

---
 osc_expr_parser.y    |  4 ++++
 osc_expr_scanner.l   | 22 ++++++++++++++++++++++
 osc_legacy_parser.y  |  3 +++
 osc_legacy_scanner.l | 21 +++++++++++++++++++++
 osc_parser.y         |  3 +++
 osc_scanner.l        | 21 +++++++++++++++++++++
 6 files changed, 74 insertions(+)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 8bad5a3..037a38e 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -41,6 +41,10 @@
 #include "osc_expr_rec.h"
 #include "osc_expr_rec.r"
 #include "osc_expr_func.h"
+#include "osc_mem.h"
+// the parser's stack comes from the same place as everything else
+#define YYMALLOC osc_mem_alloc
+#define YYFREE osc_mem_free
 #include "osc_error.h"
 #include "osc_expr_parser.h"
 #include "osc_expr_scanner.h"
diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index ff746f6..0a2e0f3 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -26,6 +26,7 @@
 */
 %{
 #include "osc.h"
+#include "osc_mem.h"
 #include "osc_expr_parser.h"
 #include "osc_expr.h"
 #include <errno.h>
@@ -39,6 +40,24 @@ int osc_expr_scanner_wrap(yyscan_t scanner){
 	return 1;
 }
 
+// the scanner's own memory comes from the same place as everything else's
+void *osc_expr_scanner_alloc(size_t size, yyscan_t scanner)
+{
+	return osc_mem_alloc(size);
+}
+
+void *osc_expr_scanner_realloc(void *ptr, size_t size, yyscan_t scanner)
+{
+	return osc_mem_resize(ptr, size);
+}
+
+void osc_expr_scanner_free(void *ptr, yyscan_t scanner)
+{
+	if(ptr){
+		osc_mem_free(ptr);
+	}
+}
+
 %}
 
 dseq      ([[:digit:]]+)
@@ -66,6 +85,9 @@ reserved_chars \+|-|\*|\/|%|^|!|=|\[|\]|:|;|\?|<|>|\&|\||\\|\{|\}|\(|\)
 %option bison-locations
 %option noinput
 %option nounput
+%option noyyalloc
+%option noyyrealloc
+%option noyyfree
 
 %x quote quote_function escape
 
diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index c799c15..5e8185f 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -36,6 +36,9 @@
 	//#endif
 #include "osc.h"
 #include "osc_mem.h"
+// the parser's stack comes from the same place as everything else
+#define YYMALLOC osc_mem_alloc
+#define YYFREE osc_mem_free
 #include "osc_error.h"
 #include "osc_bundle_u.h"
 #include "osc_message_u.h"
diff --git a/osc_legacy_scanner.l b/osc_legacy_scanner.l
index f2b3e0e..ef8cba6 100644
--- a/osc_legacy_scanner.l
+++ b/osc_legacy_scanner.l
@@ -8,6 +8,24 @@ int osc_legacy_scanner_wrap(yyscan_t scanner){
 	return 1;
 }
 
+// the scanner's own memory comes from the same place as everything else's
+void *osc_legacy_scanner_alloc(size_t size, yyscan_t scanner)
+{
+	return osc_mem_alloc(size);
+}
+
+void *osc_legacy_scanner_realloc(void *ptr, size_t size, yyscan_t scanner)
+{
+	return osc_mem_resize(ptr, size);
+}
+
+void osc_legacy_scanner_free(void *ptr, yyscan_t scanner)
+{
+	if(ptr){
+		osc_mem_free(ptr);
+	}
+}
+
 %}
 
 dseq      ([[:digit:]]+)
@@ -37,6 +55,9 @@ quoted_string [^\"\\]
 %option bison-locations
 %option noinput
 %option nounput
+%option noyyalloc
+%option noyyrealloc
+%option noyyfree
 
 %%
 
diff --git a/osc_parser.y b/osc_parser.y
index 1143c08..ffb8413 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -36,6 +36,9 @@
 	//#endif
 #include "osc.h"
 #include "osc_mem.h"
+// the parser's stack comes from the same place as everything else
+#define YYMALLOC osc_mem_alloc
+#define YYFREE osc_mem_free
 #include "osc_error.h"
 #include "osc_bundle_u.h"
 #include "osc_message_u.h"
diff --git a/osc_scanner.l b/osc_scanner.l
index f070025..2847fef 100644
--- a/osc_scanner.l
+++ b/osc_scanner.l
@@ -35,6 +35,24 @@ int osc_scanner_wrap(yyscan_t scanner){
 	return 1;
 }
 
+// the scanner's own memory comes from the same place as everything else's
+void *osc_scanner_alloc(size_t size, yyscan_t scanner)
+{
+	return osc_mem_alloc(size);
+}
+
+void *osc_scanner_realloc(void *ptr, size_t size, yyscan_t scanner)
+{
+	return osc_mem_resize(ptr, size);
+}
+
+void osc_scanner_free(void *ptr, yyscan_t scanner)
+{
+	if(ptr){
+		osc_mem_free(ptr);
+	}
+}
+
 %}
 
 dseq      ([[:digit:]]+)
@@ -63,6 +81,9 @@ quoted_string [^\"\\]
 %option bison-locations
 %option noinput
 %option nounput
+%option noyyalloc
+%option noyyrealloc
+%option noyyfree
 
 %%
 
-- 
2.43.0


From 64310a1effdc9917374c4052453ead7361e93c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:20 +0000
Subject: [PATCH 57/94] fix: release what the expression parser holds when it
 gives up

---
 osc_expr_parser.y  | 773 +++++++++++++--------------------------------
 osc_expr_scanner.l |  10 +-
 2 files changed, 226 insertions(+), 557 deletions(-)

diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index 037a38e..cd9b6fd 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -197,6 +197,9 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 	t_osc_err ret = osc_expr_parser_parse(&exprstack, &tmp_exprstack, NULL, scanner, ptr, &buflen, &buf, startcond, &started, context);
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
 	if(tmp_exprstack){
 		if(exprstack){
 			osc_expr_appendExpr(exprstack, tmp_exprstack);
@@ -205,6 +208,10 @@ t_osc_err osc_expr_parser_parseExpr(char *ptr, t_osc_expr **f, void *context)
 		}
 	}
 	//osc_expr_parser_foldConstants(exprstack);
+	if(ret && exprstack){
+		osc_expr_free(exprstack);
+		exprstack = NULL;
+	}
 	*f = exprstack;
 	if(alloc){
 		osc_mem_free(ptr);
@@ -241,6 +248,12 @@ t_osc_err osc_expr_parser_parseFunction(char *ptr, t_osc_expr_rec **f, void *con
 
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
+	if(buf){
+		osc_mem_free(buf);
+	}
+	if(tmp_exprstack){
+		osc_expr_free(tmp_exprstack);
+	}
 	return ret;
 }
 
@@ -260,17 +273,11 @@ void osc_expr_error_formatLocation(YYLTYPE *llocp, char *input_string, char **bu
 		memcpy(*buf, input_string, len + 1);
 		return;
 	}
-	char s1[len * 2];
-	char s2[len * 2];
-	char s3[len * 2];
-	memcpy(s1, input_string, llocp->first_column);
-	s1[llocp->first_column] = '\0';
-	memcpy(s2, input_string + llocp->first_column, llocp->last_column - llocp->first_column);
-	s2[llocp->last_column - llocp->first_column] = '\0';
-	memcpy(s3, input_string + llocp->last_column, len - llocp->last_column);
-	s3[len - llocp->last_column] = '\0';
-	*buf = osc_mem_alloc(len * 3 + 24); // way too much
-	sprintf(*buf, "%s\n-->                %s\n%s\n", s1, s2, s3);
+	*buf = osc_mem_alloc(len + 32);
+	sprintf(*buf, "%.*s\n-->                %.*s\n%s\n",
+		llocp->first_column, input_string,
+		llocp->last_column - llocp->first_column, input_string + llocp->first_column,
+		input_string + llocp->last_column);
 }
 
 void osc_expr_error(void *context, YYLTYPE *llocp,
@@ -426,6 +433,15 @@ t_osc_expr *osc_expr_parser_reduce_PrefixFunction(void *context, YYLTYPE *llocp,
 						  char *function_name,
 						  t_osc_expr_arg *arglist);
 
+// the string of an atom that isn't needed for anything else
+static char *osc_expr_parser_takeString(t_osc_atom_u *a)
+{
+	char *st = NULL;
+	osc_util_strdup(&st, osc_atom_u_getStringPtr(a));
+	osc_atom_u_free(a);
+	return st;
+}
+
 t_osc_expr *osc_expr_parser_reduce_InfixOperator(void *context, YYLTYPE *llocp,
 						char *input_string,
 						char *function_name,
@@ -436,6 +452,8 @@ t_osc_expr *osc_expr_parser_reduce_InfixOperator(void *context, YYLTYPE *llocp,
 	t_osc_expr_rec *r = osc_expr_lookupFunction(function_name);
 	if(!r){
 		osc_expr_parser_reportUnknownFunctionError(context, llocp, input_string, function_name);
+		osc_expr_arg_freeList(left);
+		osc_expr_arg_freeList(right);
 		return NULL;
 	}
 	t_osc_expr *e = osc_expr_alloc();
@@ -453,9 +471,13 @@ t_osc_expr *osc_expr_parser_reduce_InfixAssignmentOperator(void *context, YYLTYP
 {
 	//printf("%s context %p\n", __func__, context);
 
-	t_osc_expr *infix = osc_expr_parser_reduce_InfixOperator(context, llocp, input_string, function_name, left, right);
 	t_osc_expr_arg *assign_target = NULL;
 	osc_expr_arg_copy(&assign_target, left);
+	t_osc_expr *infix = osc_expr_parser_reduce_InfixOperator(context, llocp, input_string, function_name, left, right);
+	if(!infix){
+		osc_expr_arg_freeList(assign_target);
+		return NULL;
+	}
 	t_osc_expr_arg *assign_arg = osc_expr_arg_alloc();
 	osc_expr_arg_setExpr(assign_arg, infix);
 	osc_expr_arg_setNext(assign_target, assign_arg);
@@ -474,9 +496,11 @@ t_osc_expr *osc_expr_parser_reduce_PrefixFunction(void *context,
 	t_osc_expr_rec *r = osc_expr_lookupFunction(function_name);
 	if(!r){
 		osc_expr_parser_reportUnknownFunctionError(context, llocp, input_string, function_name);
+		osc_expr_arg_freeList(arglist);
 		return NULL;
 	}
 	if(osc_expr_parser_checkArity(context, llocp, input_string, r, arglist)){
+		osc_expr_arg_freeList(arglist);
 		return NULL;
 	}
 	t_osc_expr *e = osc_expr_alloc();
@@ -507,11 +531,16 @@ t_osc_expr *osc_expr_parser_reduce_PrefixUnaryOperator(void *context, YYLTYPE *l
 		return NULL;
 	}
 	t_osc_expr_arg *arg = osc_expr_arg_alloc();
-	osc_expr_arg_setOSCAddress(arg, ptr);
-	t_osc_expr *pfu = osc_expr_parser_reduce_PrefixFunction(context, llocp, input_string, op, arg);
-
+	char *address = NULL;
+	osc_util_strdup(&address, oscaddress);
+	osc_expr_arg_setOSCAddress(arg, address);
 	t_osc_expr_arg *assign_target = NULL;
 	osc_expr_arg_copy(&assign_target, arg);
+	t_osc_expr *pfu = osc_expr_parser_reduce_PrefixFunction(context, llocp, input_string, op, arg);
+	if(!pfu){
+		osc_expr_arg_freeList(assign_target);
+		return NULL;
+	}
 	t_osc_expr_arg *assign_arg = osc_expr_arg_alloc();
 	osc_expr_arg_setExpr(assign_arg, pfu);
 	osc_expr_arg_setNext(assign_target, assign_arg);
@@ -556,6 +585,7 @@ t_osc_expr *osc_expr_parser_reduce_NullCoalescingOperator(void *context, YYLTYPE
 			       address,
 			       address);
 		osc_mem_free(address);
+		osc_expr_arg_freeList(arg_if_null);
 		return NULL;
 	}
 	t_osc_expr *expr_def = osc_expr_alloc();
@@ -574,27 +604,101 @@ t_osc_expr *osc_expr_parser_reduce_NullCoalescingOperator(void *context, YYLTYPE
 	return osc_expr_parser_reduce_PrefixFunction(context, llocp, input_string, "if", arg1);
 }
 
-void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_string,
-			          t_osc_atom_u *value, t_osc_expr **tmp_exprstack, int isaddress)
+// takes value, and returns nonzero if it couldn't be reduced
+int osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_string,
+			         t_osc_atom_u *value, t_osc_expr **tmp_exprstack, int isaddress)
 {
 	t_osc_expr_arg *a = osc_expr_arg_alloc();
 	if(isaddress){
-		char *st = osc_atom_u_getStringPtr(value);
-		int len = strlen(st) + 1;
-		char *buf = osc_mem_alloc(len);
-		memcpy(buf, st, len);
-		osc_expr_arg_setOSCAddress(a, buf);
+		osc_expr_arg_setOSCAddress(a, osc_expr_parser_takeString(value));
 	}else{
 		osc_expr_arg_setOSCAtom(a, value);
 	}
 	t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, llocp, input_string, "progn", a);
+	if(!e){
+		return 1;
+	}
 	if(*tmp_exprstack){
 		osc_expr_appendExpr(*tmp_exprstack, e);
 	}else{
 		*tmp_exprstack = e;
 	}
+	return 0;
+}
+
+// lambda([params], body), where params are linked in reverse order.  Takes both.
+static t_osc_expr_rec *osc_expr_parser_reduce_Lambda(t_osc_atom_u *parameters, t_osc_expr_arg *body)
+{
+	int n = 0;
+	for(t_osc_atom_u *a = parameters; a; a = a->next){
+		n++;
+	}
+	char *params[n + 1];
+	for(int i = n - 1; i >= 0; i--){
+		t_osc_atom_u *next = parameters->next;
+		params[i] = osc_expr_parser_takeString(parameters);
+		parameters = next;
+	}
+	t_osc_expr_rec *func = osc_expr_rec_alloc();
+	osc_expr_rec_setName(func, "lambda");
+	osc_expr_rec_setRequiredArgs(func, n, n ? params : NULL, NULL);
+	for(int i = 0; i < n; i++){
+		osc_mem_free(params[i]);
+	}
+	osc_expr_rec_setFunction(func, osc_expr_lambda);
+	t_osc_expr *exprlist = NULL;
+	while(body){
+		t_osc_expr_arg *next = osc_expr_arg_next(body);
+		t_osc_expr *e = NULL;
+		osc_expr_arg_setNext(body, NULL);
+		if(osc_expr_arg_getType(body) == OSC_EXPR_ARG_TYPE_EXPR){
+			e = osc_expr_arg_getExpr(body);
+			osc_expr_arg_setExpr(body, NULL);
+			osc_expr_arg_free(body);
+		}else{
+			e = osc_expr_alloc();
+			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
+			osc_expr_setArg(e, body);
+		}
+		if(exprlist){
+			osc_expr_appendExpr(exprlist, e);
+		}else{
+			exprlist = e;
+		}
+		body = next;
+	}
+	osc_expr_rec_setExtra(func, exprlist);
+	return func;
+}
+
+static void osc_expr_parser_freeFunction(t_osc_expr_rec *func)
+{
+	t_osc_expr *body = NULL;
+	osc_expr_rec_free(func, (void **)&body);
+	if(body){
+		osc_expr_free(body);
+	}
+}
+
+static void osc_expr_parser_freeAtoms(t_osc_atom_u *a)
+{
+	while(a){
+		t_osc_atom_u *next = a->next;
+		osc_atom_u_free(a);
+		a = next;
+	}
 }
 
+static t_osc_expr_arg *osc_expr_parser_addressArg(t_osc_atom_u *address)
+{
+	t_osc_expr_arg *arg = osc_expr_arg_alloc();
+	osc_expr_arg_setOSCAddress(arg, osc_expr_parser_takeString(address));
+	return arg;
+}
+
+// give up if a reduction failed; it has posted an error and freed what it was given
+#define CHECKREDUCED(x) if(!(x)){YYABORT;}
+
 %}
 
 %define api.pure full
@@ -631,7 +735,14 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %type <func>function
 %type <arg>arg args msg msgs
 %type <atom> OSC_EXPR_QUOTED_EXPR parameters parameter
-%nonassoc <atom>OSC_EXPR_NUM OSC_EXPR_STRING OSC_EXPR_OSCADDRESS OSC_EXPR_LAMBDA
+%nonassoc <atom>OSC_EXPR_NUM OSC_EXPR_STRING OSC_EXPR_OSCADDRESS
+%nonassoc OSC_EXPR_LAMBDA
+
+// what the parser holds when it gives up
+%destructor { osc_expr_free($$); } <expr>
+%destructor { osc_expr_arg_freeList($$); } <arg>
+%destructor { osc_expr_parser_freeAtoms($$); } <atom>
+%destructor { osc_expr_parser_freeFunction($$); } <func>
 
 // low to high precedence
 // adapted from http://en.wikipedia.org/wiki/Operators_in_C_and_C%2B%2B
@@ -673,7 +784,14 @@ void osc_expr_parser_reduce_Value(void *context, YYLTYPE *llocp, char *input_str
 %%
 
 start: START_EXPNS expns
-       | START_FUNCTION function;
+       | START_FUNCTION function {
+		if(rec){
+			*rec = $2;
+		}else{
+			osc_expr_parser_freeFunction($2);
+		}
+	}
+;
 
 expns:  {
 		if(*tmp_exprstack){
@@ -703,19 +821,27 @@ expns:  {
  	}
 	| expns ',' {
         	osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", NULL, NULL);
-        	return 1;
+        	YYABORT;
  	}
 	| OSC_EXPR_OSCADDRESS {
-		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 1);
+		if(osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 1)){
+			YYABORT;
+		}
  	}
 	| expns ',' OSC_EXPR_OSCADDRESS {
-		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $3, tmp_exprstack, 1);
+		if(osc_expr_parser_reduce_Value(context, &yylloc, input_string, $3, tmp_exprstack, 1)){
+			YYABORT;
+		}
  	}
 	| OSC_EXPR_NUM {
-		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 0);
+		if(osc_expr_parser_reduce_Value(context, &yylloc, input_string, $1, tmp_exprstack, 0)){
+			YYABORT;
+		}
  	}
 	| expns ','OSC_EXPR_NUM {
-		osc_expr_parser_reduce_Value(context, &yylloc, input_string, $3, tmp_exprstack, 0);
+		if(osc_expr_parser_reduce_Value(context, &yylloc, input_string, $3, tmp_exprstack, 0)){
+			YYABORT;
+		}
  	}
 ;
 /*
@@ -741,13 +867,7 @@ arg:    OSC_EXPR_NUM {
 		osc_expr_arg_setOSCAtom($$, $1);
  	}
 	| OSC_EXPR_OSCADDRESS {
-		$$ = osc_expr_arg_alloc();
-		char *st = osc_atom_u_getStringPtr($1);
-		int len = strlen(st) + 1;
-		char *buf = osc_mem_alloc(len);
-		memcpy(buf, st, len);
-		osc_expr_arg_setOSCAddress($$, buf);
-		osc_atom_u_free($1);
+		$$ = osc_expr_parser_addressArg($1);
   	}
 	| expr {
 		t_osc_expr *e = $1;
@@ -787,349 +907,14 @@ arg:    OSC_EXPR_NUM {
 ;
 
 function:
-//OSC_EXPR_LAMBDA '(' parameters ')' '{' expns '}' {
 	OSC_EXPR_LAMBDA '(' '[' parameters ']' ',' args ')' {
-		int n = 0;
-		t_osc_atom_u *a = $4;
-		while(a){
-			n++;
-			a = a->next;
-		}
-		char *params[n];
-		a = $4;
-		for(int i = n - 1; i >= 0; i--){
-			char *st = osc_atom_u_getStringPtr(a);
-			int len = strlen(st) + 1;
-			params[i] = (char *)osc_mem_alloc(len);
-			strncpy(params[i], st, len);
-			t_osc_atom_u *killme = a;
-			a = a->next;
-			osc_atom_u_free(killme);
-		}
-		t_osc_expr_rec *func = osc_expr_rec_alloc();
-		osc_expr_rec_setName(func, "lambda");
-		osc_expr_rec_setRequiredArgs(func, n, params, NULL);
-		for(int i = 0; i < n; i++){
-			if(params[i]){
-				osc_mem_free(params[i]);
-			}
-		}
-		/*
-		t_osc_expr *e = *tmp_exprstack;
-		while(e){
-			e = osc_expr_next(e);
-		}
-		*/
-		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $7;
-		t_osc_expr *exprlist = NULL;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
-		//osc_expr_rec_setExtra(func, *tmp_exprstack);
-		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
-// go through and make sure the parameters are unique
-/*
-		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		t_osc_expr *expns_copy = NULL;
-		t_osc_expr *ee = $<expr>6;
-		while(ee){
-			t_osc_expr *copy = osc_expr_copy(ee);
-			if(expns_copy){
-				osc_expr_appendExpr(expns_copy, copy);
-			}else{
-				expns_copy = copy;
-			}
-			ee = osc_expr_next(ee);
-		}
-		t_osc_expr_arg *expns = osc_expr_arg_alloc();
-		osc_expr_arg_setExpr(expns, expns_copy);
-		osc_expr_arg_append($3, expns);
-		osc_expr_setArg(e, $3);
-*/
-//osc_expr_parser_bindParameters(&yylloc, input_string, e, $3, expns_copy);
-//$$ = e;
+		$$ = osc_expr_parser_reduce_Lambda($4, $7);
 	}
 	| OSC_EXPR_LAMBDA '(' parameter ',' args ')' {
-		int n = 0;
-		t_osc_atom_u *a = $3;
-		while(a){
-			n++;
-			a = a->next;
-		}
-		char *params[n];
-		a = $3;
-		for(int i = n - 1; i >= 0; i--){
-			char *st = osc_atom_u_getStringPtr(a);
-			int len = strlen(st) + 1;
-			params[i] = (char *)osc_mem_alloc(len);
-			strncpy(params[i], st, len);
-			t_osc_atom_u *killme = a;
-			a = a->next;
-			osc_atom_u_free(killme);
-		}
-		t_osc_expr_rec *func = osc_expr_rec_alloc();
-		osc_expr_rec_setName(func, "lambda");
-		osc_expr_rec_setRequiredArgs(func, n, params, NULL);
-		for(int i = 0; i < n; i++){
-			if(params[i]){
-				osc_mem_free(params[i]);
-			}
-		}
-		/*
-		t_osc_expr *e = *tmp_exprstack;
-		while(e){
-			e = osc_expr_next(e);
-		}
-		*/
-		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $5;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		t_osc_expr *exprlist = NULL;
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
-		//osc_expr_rec_setExtra(func, *tmp_exprstack);
-		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
-// go through and make sure the parameters are unique
-/*
-		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		t_osc_expr *expns_copy = NULL;
-		t_osc_expr *ee = $<expr>6;
-		while(ee){
-			t_osc_expr *copy = osc_expr_copy(ee);
-			if(expns_copy){
-				osc_expr_appendExpr(expns_copy, copy);
-			}else{
-				expns_copy = copy;
-			}
-			ee = osc_expr_next(ee);
-		}
-		t_osc_expr_arg *expns = osc_expr_arg_alloc();
-		osc_expr_arg_setExpr(expns, expns_copy);
-		osc_expr_arg_append($3, expns);
-		osc_expr_setArg(e, $3);
-*/
-//osc_expr_parser_bindParameters(&yylloc, input_string, e, $3, expns_copy);
-//$$ = e;
+		$$ = osc_expr_parser_reduce_Lambda($3, $5);
 	}
 	| OSC_EXPR_LAMBDA '(' '[' ']' ',' args ')' {
-		int n = 0;
-		t_osc_expr_rec *func = osc_expr_rec_alloc();
-		osc_expr_rec_setName(func, "lambda");
-		osc_expr_rec_setRequiredArgs(func, 0, NULL, NULL);
-		/*
-		t_osc_expr *e = *tmp_exprstack;
-		while(e){
-			e = osc_expr_next(e);
-		}
-		*/
-		osc_expr_rec_setFunction(func, osc_expr_lambda);
-		t_osc_expr_arg *aaa = $6;
-		//t_osc_expr *exprlist = osc_expr_arg_getExpr(aaa);
-		t_osc_expr *exprlist = NULL;
-		if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-			exprlist = osc_expr_arg_getExpr(aaa);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-		}else{
-			t_osc_expr *e = osc_expr_alloc();
-			osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-			t_osc_expr_arg *aaacpy = NULL;
-			osc_expr_arg_copy(&aaacpy, aaa);
-			osc_expr_prependArg(e, aaacpy);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			exprlist = e;
-		}
-		int i = 1;
-		while(aaa){
-			/*
-			if(osc_expr_arg_getType(aaa) != OSC_EXPR_ARG_TYPE_EXPR){
-				osc_expr_error(&yylloc, input_string, OSC_ERR_EXPPARSE, "arg %d of lambda expression is not an expression\n", i);
-				return 1;
-			}
-			*/
-			if(osc_expr_arg_getType(aaa) == OSC_EXPR_ARG_TYPE_EXPR){
-				t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-				osc_expr_appendExpr(exprlist, e);
-				osc_expr_arg_setExpr(aaa, NULL);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-			}else{
-				t_osc_expr *e = osc_expr_alloc();
-				osc_expr_setRec(e, osc_expr_lookupFunction("prog1"));
-				t_osc_expr_arg *aaacpy = NULL;
-				osc_expr_arg_copy(&aaacpy, aaa);
-				osc_expr_prependArg(e, aaacpy);
-				t_osc_expr_arg *old = aaa;
-				aaa = osc_expr_arg_next(aaa);
-				osc_expr_arg_free(old);
-				osc_expr_appendExpr(exprlist, e);
-			}
-			/*
-			t_osc_expr *e = osc_expr_arg_getExpr(aaa);
-			osc_expr_appendExpr(exprlist, e);
-			osc_expr_arg_setExpr(aaa, NULL);
-			t_osc_expr_arg *old = aaa;
-			aaa = osc_expr_arg_next(aaa);
-			osc_expr_arg_free(old);
-			*/
-			i++;
-		}
-		osc_expr_rec_setExtra(func, exprlist);
-		//osc_expr_rec_setExtra(func, *tmp_exprstack);
-		$$ = func;
-		if(startcond == START_EXPNS){
-			//*tmp_exprstack = NULL;
-		}else if(startcond == START_FUNCTION){
-			*rec = func;
-		}
-// go through and make sure the parameters are unique
-/*
-		t_osc_expr_rec *r = osc_expr_lookupFunction("lambda");
-		t_osc_expr *e = osc_expr_alloc();
-		osc_expr_setRec(e, r);
-		t_osc_expr *expns_copy = NULL;
-		t_osc_expr *ee = $<expr>6;
-		while(ee){
-			t_osc_expr *copy = osc_expr_copy(ee);
-			if(expns_copy){
-				osc_expr_appendExpr(expns_copy, copy);
-			}else{
-				expns_copy = copy;
-			}
-			ee = osc_expr_next(ee);
-		}
-		t_osc_expr_arg *expns = osc_expr_arg_alloc();
-		osc_expr_arg_setExpr(expns, expns_copy);
-		osc_expr_arg_append($3, expns);
-		osc_expr_setArg(e, $3);
-*/
-//osc_expr_parser_bindParameters(&yylloc, input_string, e, $3, expns_copy);
-//$$ = e;
+		$$ = osc_expr_parser_reduce_Lambda(NULL, $6);
 	}
 ;
 
@@ -1141,21 +926,13 @@ parameters: parameter
 ;
 
 parameter: OSC_EXPR_STRING {
-		if(osc_atom_u_getTypetag($1) == 's'){
-			char *st = osc_atom_u_getStringPtr($1);
-			if(st){
-				if(*st == '/' && st[1] != '\0'){
-					// this is an OSC address
-					//error
-				}else{
-					$$ = $1;
-				}
-			}else{
-				//error
-			}
-		}else{
-			//error
+		char *st = osc_atom_u_getStringPtr($1);
+		if(*st == '/' && st[1] != '\0'){
+			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "the OSC address \"%s\" can't be a parameter", st);
+			osc_atom_u_free($1);
+			YYABORT;
 		}
+		$$ = $1;
 	}
 ;
 
@@ -1191,32 +968,20 @@ expr:
 	| bundle
 // prefix function call
 	| OSC_EXPR_STRING '(' args ')' %prec OSC_EXPR_FUNC_CALL {
-		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc,
-								     input_string,
-								     osc_atom_u_getStringPtr($1),
-								     $3);
-		if(!e){
-			osc_atom_u_free($1);
-			return 1;
-		}
-		$$ = e;
+		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), $3);
 		osc_atom_u_free($1);
+		CHECKREDUCED($$);
   	}
     | OSC_EXPR_STRING '(' args ',' ')' %prec OSC_EXPR_FUNC_CALL {
-        char *ptr = NULL;
-        osc_atom_u_getString($1, 0, &ptr);
-        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma", ptr, ptr);
+        osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "trailing comma");
         osc_atom_u_free($1);
-        return 1;
+        osc_expr_arg_freeList($3);
+        YYABORT;
     }
 	| OSC_EXPR_STRING '(' ')' %prec OSC_EXPR_FUNC_CALL {
-		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), NULL);
-		if(!e){
-			osc_atom_u_free($1);
-			return 1;
-		}
-		$$ = e;
+		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), NULL);
 		osc_atom_u_free($1);
+		CHECKREDUCED($$);
   	}
 	| OSC_EXPR_QUOTED_EXPR {
 		t_osc_expr_arg *arg = osc_expr_arg_alloc();
@@ -1227,25 +992,16 @@ expr:
 		t_osc_expr *e = osc_expr_alloc();
 		t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
 		osc_expr_setRec(e, r);
-		t_osc_expr_arg *a = osc_expr_arg_alloc();
-		char *address = NULL;
-		osc_atom_u_getString($1, 0, &address);
-		osc_expr_arg_setOSCAddress(a, address);
+		t_osc_expr_arg *a = osc_expr_parser_addressArg($1);
 		osc_expr_arg_append(a, $3);
 		osc_expr_setArg(e, a);
-		osc_atom_u_free($1);
 		$$ = e;
 	}
 	| OSC_EXPR_OSCADDRESS '(' ')' %prec OSC_EXPR_FUNC_CALL {
 		t_osc_expr *e = osc_expr_alloc();
 		t_osc_expr_rec *r = osc_expr_lookupFunction("apply");
 		osc_expr_setRec(e, r);
-		t_osc_expr_arg *a = osc_expr_arg_alloc();
-		char *address = NULL;
-		osc_atom_u_getString($1, 0, &address);
-		osc_expr_arg_setOSCAddress(a, address);
-		osc_expr_setArg(e, a);
-		osc_atom_u_free($1);
+		osc_expr_setArg(e, osc_expr_parser_addressArg($1));
 		$$ = e;
 	}
 // Infix operators
@@ -1316,31 +1072,17 @@ expr:
 		$$ = osc_expr_parser_reduce_InfixAssignmentOperator(context, &yylloc, input_string, "pow", $1, $3);
  	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS {
-		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-		t_osc_expr_arg *a2 = osc_expr_arg_alloc();
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		osc_expr_arg_setOSCAddress(a1, ptr);
-		ptr = NULL;
-		osc_atom_u_getString($3, 0, &ptr);
-		osc_expr_arg_setOSCAddress(a2, ptr);
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".",
+							  osc_expr_parser_addressArg($1),
+							  osc_expr_parser_addressArg($3));
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_STRING '.' OSC_EXPR_OSCADDRESS {
 		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-		t_osc_expr_arg *a2 = osc_expr_arg_alloc();
-		char *ptr = NULL;
-		//osc_atom_u_getString($1, 0, &ptr);
-		//osc_expr_arg_setOSCAddress(a1, ptr);
 		osc_expr_arg_setOSCAtom(a1, $1);
-		//ptr = NULL;
-		osc_atom_u_getString($3, 0, &ptr);
-		osc_expr_arg_setOSCAddress(a2, ptr);
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".", a1, a2);
-		//osc_mem_free($1);
-		osc_mem_free($3);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, ".",
+							  a1, osc_expr_parser_addressArg($3));
+		CHECKREDUCED($$);
 	}
 	/* | OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg CLOSE_DBL_BRKTS '.' OSC_EXPR_OSCADDRESS{ */
 	/* 	printf("here\n"); */
@@ -1362,84 +1104,35 @@ expr:
 	}
 // prefix inc/dec
 	| OSC_EXPR_INC OSC_EXPR_OSCADDRESS %prec OSC_EXPR_PREFIX_INC {
-		char *copy = NULL;
-		osc_atom_u_getString($2, 0, &copy);
-		t_osc_expr *e = osc_expr_parser_reduce_PrefixUnaryOperator(context, &yylloc, input_string, copy, "plus1");
-		if(!e){
-			osc_mem_free(copy);
-			osc_atom_u_free($2);
-			return 1;
-		}
+		$$ = osc_expr_parser_reduce_PrefixUnaryOperator(context, &yylloc, input_string, osc_atom_u_getStringPtr($2), "plus1");
 		osc_atom_u_free($2);
-		$$ = e;
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_DEC OSC_EXPR_OSCADDRESS %prec OSC_EXPR_PREFIX_DEC {
-		char *copy = NULL;
-		osc_atom_u_getString($2, 0, &copy);
-		t_osc_expr *e = osc_expr_parser_reduce_PrefixUnaryOperator(context, &yylloc, input_string, copy, "minus1");
-		if(!e){
-			osc_mem_free(copy);
-			osc_atom_u_free($2);
-			return 1;
-		}
+		$$ = osc_expr_parser_reduce_PrefixUnaryOperator(context, &yylloc, input_string, osc_atom_u_getStringPtr($2), "minus1");
 		osc_atom_u_free($2);
-		$$ = e;
+		CHECKREDUCED($$);
 	}
 // postfix inc/dec
 	| OSC_EXPR_OSCADDRESS OSC_EXPR_INC {
-		char *copy = NULL;
-		osc_atom_u_getString($1, 0, &copy);
-		t_osc_expr *e = osc_expr_parser_reduce_PostfixUnaryOperator(context, &yylloc, input_string, copy, "plus1");
-		if(!e){
-			osc_mem_free(copy);
-			osc_atom_u_free($1);
-			return 1;
-		}
+		$$ = osc_expr_parser_reduce_PostfixUnaryOperator(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), "plus1");
 		osc_atom_u_free($1);
-		$$ = e;
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_OSCADDRESS OSC_EXPR_DEC {
-		char *copy = NULL;
-		osc_atom_u_getString($1, 0, &copy);
-		t_osc_expr *e = osc_expr_parser_reduce_PostfixUnaryOperator(context, &yylloc, input_string, copy, "minus1");
-		if(!e){
-			osc_mem_free(copy);
-			osc_atom_u_free($1);
-			return 1;
-		}
+		$$ = osc_expr_parser_reduce_PostfixUnaryOperator(context, &yylloc, input_string, osc_atom_u_getStringPtr($1), "minus1");
 		osc_atom_u_free($1);
-		$$ = e;
+		CHECKREDUCED($$);
 	}
 // assignment
-/*
-| OSC_EXPR_OSCADDRESS '=' {
-	printf("just an address...\n");
-  }
-*/
-
 	| OSC_EXPR_OSCADDRESS '=' arg {
 		// basic assignment
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		if(*ptr != '/'){
-			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
-		}
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, ptr);
-		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "assign", arg, $3);
-		osc_atom_u_free($1);
+		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "assign",
+							  osc_expr_parser_addressArg($1), $3);
+		CHECKREDUCED($$);
  	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS args CLOSE_DBL_BRKTS '=' arg{
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		if(*ptr != '/'){
-			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
-		}
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
+		t_osc_expr_arg *arg = osc_expr_parser_addressArg($1);
 		t_osc_expr_arg *indexes = $3;
 		if(osc_expr_arg_next($3)){
 			// /foo[[1, 2, 3]] = ...
@@ -1448,72 +1141,45 @@ expr:
 			indexes = osc_expr_arg_alloc();
 			osc_expr_arg_setExpr(indexes, e);
 		}
-		osc_expr_arg_setOSCAddress(arg, ptr);
 		osc_expr_arg_append(arg, indexes);
 		osc_expr_arg_append(arg, $6);
 		//$$ = osc_expr_parser_infix("=", arg, $3);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assign_to_index", arg);
-		osc_atom_u_free($1);
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_OSCADDRESS '.' OSC_EXPR_OSCADDRESS '=' arg{
-		t_osc_expr_arg *a1 = osc_expr_arg_alloc();
-		t_osc_expr_arg *a2 = osc_expr_arg_alloc();
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		osc_expr_arg_setOSCAddress(a1, ptr);
-		ptr = NULL;
-		osc_atom_u_getString($3, 0, &ptr);
-		osc_expr_arg_setOSCAddress(a2, ptr);
-		osc_expr_arg_append(a1, a2);
+		t_osc_expr_arg *a1 = osc_expr_parser_addressArg($1);
+		osc_expr_arg_append(a1, osc_expr_parser_addressArg($3));
 		osc_expr_arg_append(a1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assigntobundlemember", a1);
-		osc_mem_free($1);
-		osc_mem_free($3);
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg CLOSE_DBL_BRKTS '=' arg{
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		if(*ptr != '/'){
-			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
-		}
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-
+		t_osc_expr_arg *arg = osc_expr_parser_addressArg($1);
 		osc_expr_arg_append($3, $5);
 		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "aseq", $3);
 		t_osc_expr_arg *indexes = osc_expr_arg_alloc();
 		osc_expr_arg_setExpr(indexes, e);
 
-		osc_expr_arg_setOSCAddress(arg, ptr);
 		osc_expr_arg_append(arg, indexes);
 		osc_expr_arg_append(arg, $8);
 		//$$ = osc_expr_parser_infix("=", arg, $3);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assign_to_index", arg);
-		osc_atom_u_free($1);
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS arg ':' arg ':' arg CLOSE_DBL_BRKTS '=' arg{
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		if(*ptr != '/'){
-			osc_expr_error(context, &yylloc, input_string, OSC_ERR_EXPPARSE, "osc_expr_parser: expected \"%s\" in \"%s = ... to be an OSC address\n", ptr, ptr);
-            osc_atom_u_free($1);
-			return 1;
-		}
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-
+		t_osc_expr_arg *arg = osc_expr_parser_addressArg($1);
 		osc_expr_arg_append($3, $7);
 		osc_expr_arg_append($3, $5);
 		t_osc_expr *e = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "aseq", $3);
 		t_osc_expr_arg *indexes = osc_expr_arg_alloc();
 		osc_expr_arg_setExpr(indexes, e);
 
-		osc_expr_arg_setOSCAddress(arg, ptr);
 		osc_expr_arg_append(arg, indexes);
 		osc_expr_arg_append(arg, $10);
 		//$$ = osc_expr_parser_infix("=", arg, $3);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "assign_to_index", arg);
-		osc_atom_u_free($1);
+		CHECKREDUCED($$);
 	}
 /*
 	| OSC_EXPR_OSCADDRESS '=' arg {
@@ -1563,28 +1229,28 @@ expr:
 		osc_expr_arg_append($1, $3);
 		osc_expr_arg_append($1, $5);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "if", $1);
+		CHECKREDUCED($$);
   	}
 	| OSC_EXPR_OSCADDRESS OSC_EXPR_DBLQMARK arg {
 		// null coalescing operator from C#.
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		$$ = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		osc_atom_u_free($1); // the above function will copy that
+		CHECKREDUCED($$);
 	}
 	| OSC_EXPR_OSCADDRESS OSC_EXPR_DBLQMARKEQ arg {
 		// null coalescing operator from C#.
 		// /foo ?? 10 means /foo if /foo is in the bundle, otherwise 10
 		t_osc_expr *if_expr = osc_expr_parser_reduce_NullCoalescingOperator(context, &yylloc, input_string, $1, $3);
 		if(!if_expr){
-			return 1;
+			osc_atom_u_free($1);
+			YYABORT;
 		}
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, ptr);
+		t_osc_expr_arg *arg = osc_expr_parser_addressArg($1);
 		t_osc_expr_arg *arg2 = osc_expr_arg_alloc();
 		osc_expr_arg_setExpr(arg2, if_expr);
 		$$ = osc_expr_parser_reduce_InfixOperator(context, &yylloc, input_string, "=", arg, arg2);
-		osc_atom_u_free($1);
+		CHECKREDUCED($$);
 	}
 	| '[' args ']' %prec OSC_EXPR_FUNC_CALL {
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "list", $2);
@@ -1598,13 +1264,9 @@ expr:
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "nth", $1);
 	}
 	| OSC_EXPR_OSCADDRESS OPEN_DBL_BRKTS args CLOSE_DBL_BRKTS {
-		char *ptr = NULL;
-		osc_atom_u_getString($1, 0, &ptr);
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, ptr);
+		t_osc_expr_arg *arg = osc_expr_parser_addressArg($1);
 		osc_expr_arg_setNext(arg, $3);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "nth", arg);
-		osc_atom_u_free($1);
 	}
 // shorthand apply
 	| '(' function ',' args ')' {
@@ -1620,8 +1282,7 @@ expr:
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
 	}
 	| '`' OSC_EXPR_OSCADDRESS '`' {
-		t_osc_expr_arg *arg = osc_expr_arg_alloc();
-		osc_expr_arg_setOSCAddress(arg, osc_atom_u_getStringPtr($2));
+		t_osc_expr_arg *arg = osc_expr_parser_addressArg($2);
 		$$ = osc_expr_parser_reduce_PrefixFunction(context, &yylloc, input_string, "value", arg);
 	}
 // invalid constructs that result in errors
@@ -1629,24 +1290,32 @@ expr:
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
 		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($1);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
 		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
-		return 1;
+		osc_atom_u_free($2);
+		osc_expr_arg_freeList($4);
+		YYABORT;
 	}
 ;
diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 0a2e0f3..f45772b 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -223,11 +223,11 @@ quote[[:space:]]*\( {
 <quote>\" {
 	BEGIN(0);
 	if(*buf){
-		t_osc_atom_u *a = osc_atom_u_alloc();
-		//osc_atom_u_setStringPtr(a, *buf);
-		//osc_atom_u_setShouldFreePtr(a, 1);
-		yylval->atom = osc_atom_u_allocWithString(*buf);
-		//yylval->string = *buf;
+		if(alloc_atom){
+			yylval->atom = osc_atom_u_alloc();
+		}
+		osc_atom_u_setString(yylval->atom, *buf);
+		osc_mem_free(*buf);
 		*buf = NULL;
 		*buflen = 0;
 		return OSC_EXPR_STRING;
-- 
2.43.0


From 38022dfa7ff805d64eab3a184e60212ba40fdb2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:22 +0000
Subject: [PATCH 58/94] fix: check the arguments of the special functions of
 expressions and release what they allocate

---
 osc_expr.c | 521 +++++++++++++++++++++++++----------------------------
 1 file changed, 248 insertions(+), 273 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index e573a6e..b67c875 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -350,6 +350,28 @@ static void osc_expr_err_evalArg(void *context, t_osc_err err, t_osc_expr_arg *a
 	}
 }
 
+static t_osc_atom_u *osc_expr_firstAtom(t_osc_atom_ar_u *ar)
+{
+	if(!ar || osc_atom_array_u_getLen(ar) < 1){
+		return NULL;
+	}
+	return osc_atom_array_u_get(ar, 0);
+}
+
+// a function is only good for as long as the expression that it is a part of, so it can't be
+// stored in a bundle, or returned from an expression that is about to be freed.
+static int osc_expr_checkForFunctions(void *context, t_osc_atom_ar_u *ar, char *func)
+{
+	int n = ar ? osc_atom_array_u_getLen(ar) : 0;
+	for(int i = 0; i < n; i++){
+		if(osc_atom_u_getTypetag(osc_atom_array_u_get(ar, i)) == 'r'){
+			osc_error(context, OSC_ERR_EXPR_ARGCHK, "a function can't be used as a value in %s", func);
+			return 1;
+		}
+	}
+	return 0;
+}
+
 // apply a lambda or a built-in function to a list of unevaluated arguments, which remain the caller's
 static int osc_expr_applyRec(t_osc_expr_rec *r,
 			     t_osc_expr_arg *arg,
@@ -450,7 +472,7 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 		if(!r){
 			// maybe we're in a lambda and should look it up in the lexenv
 			t_osc_atom_ar_u *xx = osc_expr_lookupBindingInLexenv(lexenv, name);
-			if(xx && osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
+			if(osc_expr_firstAtom(xx) && osc_atom_u_getTypetag(osc_atom_array_u_get(xx, 0)) == 'r'){
 				r = osc_atom_u_getRec(osc_atom_array_u_get(xx, 0));
 			}
 		}
@@ -501,6 +523,9 @@ static int osc_expr_specFunc_apply(t_osc_expr *f,
 				  name ? name : "");
 	}
 	if(parsed){
+		if(!ret && osc_expr_checkForFunctions(context, *out, "apply()")){
+			ret = 1;
+		}
 		t_osc_expr *body = NULL;
 		osc_expr_rec_free(parsed, (void **)&body);
 		if(body){
@@ -754,16 +779,18 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 		if(!address_ar){
 			err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &address_ar, context);
 		}
-		if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "=");
+		if(err){
+			osc_expr_err_evalArg(context, err, f_argv, "=");
+			if(address_ar){
+				osc_atom_array_u_free(address_ar);
+			}
 			return err;
 		}
-		if(!address_ar){
-			return 1;
-		}
-		t_osc_atom_u *address_atom = osc_atom_array_u_get(address_ar, 0);
-		if(osc_atom_u_getTypetag(address_atom) != 's'){
-			osc_atom_array_u_free(address_ar);
+		t_osc_atom_u *address_atom = osc_expr_firstAtom(address_ar);
+		if(!address_atom || osc_atom_u_getTypetag(address_atom) != 's'){
+			if(address_ar){
+				osc_atom_array_u_free(address_ar);
+			}
 			osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument to assign() should resolve to an OSC address");
 			return 1;
 		}
@@ -774,6 +801,9 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
     t_osc_err err;
 	if((err = osc_error_validateAddress(address))){
 		osc_error(context, OSC_ERR_EXPR_ARGCHK, "the first argument of assign() must be an OSC address.");		
+		if(address){
+			osc_mem_free(address);
+		}
 		return err;
 	}
 
@@ -809,6 +839,11 @@ static int osc_expr_specFunc_assign(t_osc_expr *f,
 	}
     
     
+	if(osc_expr_checkForFunctions(context, *out, "an assignment")){
+		osc_mem_free(address);
+		osc_message_u_free(mm);
+		return 1;
+	}
     long natoms = osc_atom_array_u_getLen(*out);
 	for( int i = 0; i < natoms; i++ )
     {
@@ -921,6 +956,10 @@ static int osc_expr_specFunc_assigntoindex(t_osc_expr *f,
         if(err){
             goto bail;
         }
+        if(osc_expr_checkForFunctions(context, data, "an assignment")){
+            err = 1;
+            goto bail;
+        }
         int ndata = osc_atom_array_u_getLen(data);
         if(nindexes == 0 || ndata == 0){
             err = 1;
@@ -1122,38 +1161,31 @@ static int osc_expr_specFunc_emptybundle(t_osc_expr *f,
 	if(!len || !oscbndl){
 		return 1;
 	}
-	*out = osc_atom_array_u_alloc(1);
-	
+	int empty = 1;
 	int f_argc = osc_expr_getArgCount(f);
 	if(f_argc){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
 		t_osc_err r = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
-		if(r == OSC_ERR_EXPR_ADDRESSUNBOUND){
-			osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), osc_expr_rec_getName(osc_expr_getRec(f)));
+		if(r){
+			osc_expr_err_evalArg(context, r, f_argv, osc_expr_rec_getName(osc_expr_getRec(f)));
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
 			return r;
 		}
-		if(ar && osc_atom_array_u_getLen(ar) > 0){
-			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
-			if(osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG){
-				if(osc_bundle_u_getMsgCount(osc_atom_u_getBndl(a))){
-					osc_atom_u_setFalse(osc_atom_array_u_get(*out, 0));
-				}else{
-					osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
-				}
-			}else{
-				osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
-			}
-		}else{
-			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
+		t_osc_atom_u *a = osc_expr_firstAtom(ar);
+		if(a && osc_atom_u_getTypetag(a) == OSC_BUNDLE_TYPETAG && osc_bundle_u_getMsgCount(osc_atom_u_getBndl(a))){
+			empty = 0;
 		}
-	}else{
-		if(*len == OSC_HEADER_SIZE){
-			osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
-		}else{
-			osc_atom_u_setFalse(osc_atom_array_u_get(*out, 0));
+		if(ar){
+			osc_atom_array_u_free(ar);
 		}
+	}else if(*len != OSC_HEADER_SIZE){
+		empty = 0;
 	}
+	*out = osc_atom_array_u_alloc(1);
+	osc_atom_u_setBool(osc_atom_array_u_get(*out, 0), empty);
 	return 0;
 }
 
@@ -1179,8 +1211,8 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 				t_osc_atom_ar_u *ar = NULL;
 				osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
 				if(ar){
-					t_osc_atom_u *aa = osc_atom_array_u_get(ar, 0);
-					if(osc_atom_u_getTypetag(aa) == 's'){
+					t_osc_atom_u *aa = osc_expr_firstAtom(ar);
+					if(aa && osc_atom_u_getTypetag(aa) == 's'){
 						osc_atom_u_getString(aa, 0, &address);
 					}
 					osc_atom_array_u_free(ar);
@@ -1215,35 +1247,22 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 						osc_atom_u_setTrue(osc_atom_array_u_get(*out, 0));
 					}
 				}
-				osc_atom_array_u_free(ar);
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 				return 0;
 			}else{
 				t_osc_atom_ar_u *ar = NULL;
 				int err = osc_expr_evalInLexEnv(osc_expr_arg_getExpr(f_argv), lexenv, len, oscbndl, &ar, context);
-				if(!err && ar){
-					if(osc_atom_array_u_getLen(ar) != 1){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
+				if(!err && ar && osc_atom_array_u_getLen(ar) == 1){
 					t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
-					if(!a){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
-					if(osc_atom_u_getTypetag(a) != 's'){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
-					osc_atom_u_getString(a, 0, &address);
-					if(!address){
-						osc_atom_array_u_free(ar);
-						goto err;
-					}
-					if(address[0] != '/'){
-						osc_atom_array_u_free(ar);
-						goto err;
+					if(osc_atom_u_getTypetag(a) == 's' && osc_atom_u_getStringPtr(a)[0] == '/'){
+						osc_atom_u_getString(a, 0, &address);
 					}
 				}
+				if(ar){
+					osc_atom_array_u_free(ar);
+				}
 			}
 		}
 		break;
@@ -1256,7 +1275,6 @@ static int osc_expr_specFunc_existsorbound(t_osc_expr *f,
 		osc_mem_free(address);
 		return 0;
 	}
- err:
 	osc_error(context, OSC_ERR_EXPR_ARGCHK, "arg 1 should be an OSC address");
 	return 1;
 
@@ -1296,10 +1314,17 @@ static int osc_expr_specFunc_getaddresses(t_osc_expr *f,
 	if(osc_expr_getArgCount(f)){
 		t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 		t_osc_atom_ar_u *ar = NULL;
-		osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &ar, context);
+		if(err){
+			osc_expr_err_evalArg(context, err, f_argv, "getaddresses");
+			if(ar){
+				osc_atom_array_u_free(ar);
+			}
+			return err;
+		}
 		if(ar){
-			t_osc_atom_u *a = osc_atom_array_u_get(ar, 0);
-			if(osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
+			t_osc_atom_u *a = osc_expr_firstAtom(ar);
+			if(!a || osc_atom_u_getTypetag(a) != OSC_BUNDLE_TYPETAG){
 				osc_atom_array_u_free(ar);
 				osc_error(context, OSC_ERR_EXPR_ARGCHK, "argumnt to getaddresses() should be a bundle.");
 				return 1;
@@ -1361,9 +1386,7 @@ static int osc_expr_specFunc_delete(t_osc_expr *f,
 		}else if(osc_expr_arg_getType(f_argv) == OSC_EXPR_ARG_TYPE_ATOM){
 			t_osc_atom_u *a = osc_expr_arg_getOSCAtom(f_argv);
 			if(osc_atom_u_getTypetag(a) == 's'){
-				char *st = NULL;
-				osc_atom_u_getString(a, 0, &st);
-				osc_bundle_s_removeMessage(st, len, *oscbndl, 1);
+				osc_bundle_s_removeMessage(osc_atom_u_getStringPtr(a), len, *oscbndl, 1);
 			}
 		}
 		f_argv = f_argv->next;
@@ -1406,24 +1429,18 @@ static int osc_expr_specFunc_value(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "value");
+	if(err){
+		osc_expr_err_evalArg(context, err, f_argv, "value");
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
 		return err;
 	}
 	if(arg){
 		char *address = NULL;
-		if(f_argv->type == OSC_EXPR_ARG_TYPE_OSCADDRESS){
-			//*out = arg;
-			address = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
-		}else{
-			if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's'){
-				address = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
-				/*
-			}else{
-				*out = arg;
-				return 0;
-				*/
-			}
+		t_osc_atom_u *first = osc_expr_firstAtom(arg);
+		if(first && osc_atom_u_getTypetag(first) == 's'){
+			address = osc_atom_u_getStringPtr(first);
 		}
 		if(address){
 			t_osc_msg_ar_s *ar = osc_bundle_s_lookupAddress(*len, *oscbndl, address, 1);
@@ -1476,6 +1493,23 @@ static int osc_expr_specFunc_quote(t_osc_expr *f,
 	return 0;
 }
 
+// the text of the program to be evaluated or tokenized, which may be spread out over a list.
+static char *osc_expr_getProgramText(t_osc_atom_ar_u *ar)
+{
+	t_osc_atom_u *first = osc_expr_firstAtom(ar);
+	if(!first){
+		return NULL;
+	}
+	char *text = NULL;
+	if(osc_atom_u_getTypetag(first) == 's' && osc_atom_array_u_getLen(ar) == 1){
+		osc_util_strdup(&text, osc_atom_u_getStringPtr(first));
+	}else{
+		long buflen = 0;
+		osc_atom_array_u_getStringArray(ar, &buflen, &text, " ");
+	}
+	return text;
+}
+
 static int osc_expr_specFunc_eval(t_osc_expr *f,
 			    t_osc_expr_lexenv *lexenv,
 			    long *len,
@@ -1486,85 +1520,36 @@ static int osc_expr_specFunc_eval(t_osc_expr *f,
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "eval");
+	if(err){
+		osc_expr_err_evalArg(context, err, f_argv, "eval");
+		if(arg){
+			osc_atom_array_u_free(arg);
+		}
 		return err;
 	}
+	char *expr = osc_expr_getProgramText(arg);
 	if(arg){
-		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
-			char *expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
-			t_osc_expr *f = NULL;
-			OSC_PROFILE_TIMER_START(foo);
-			osc_expr_parser_parseExpr(expr, &f, context);
-			OSC_PROFILE_TIMER_STOP(foo);
-			OSC_PROFILE_TIMER_PRINTF(foo);
-			OSC_PROFILE_TIMER_SNPRINTF(foo, buff);
-#ifdef __OSC_PROFILE__
-			printf("%s\n", buff);
-#endif
-			int ret = 0;
-			*out = osc_atom_array_u_alloc(1);
-
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), 0);
-			t_osc_expr *ff = f;
-			while(ff){
-				t_osc_atom_ar_u *ar = NULL;
-				ret = osc_expr_eval(ff, len, oscbndl, &ar, context);
-				if(ar){
-					osc_atom_array_u_free(ar);
-				}
-				if(ret){
-					osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
-					break;
-				}
-				ff = osc_expr_next(ff);
-			}
-			osc_expr_free(f);
-		}else{
-			long buflen = 0;
-			char *buf = NULL;
-			osc_atom_array_u_getStringArray(arg, &buflen, &buf, " ");
-			t_osc_expr *f = NULL;
-			osc_expr_parser_parseExpr(buf, &f, context);
-			int ret = 0;
-			*out = osc_atom_array_u_alloc(1);
-
-			osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), 0);
-			t_osc_expr *ff = f;
-			while(ff){
-				t_osc_atom_ar_u *ar = NULL;
-				ret = osc_expr_eval(ff, len, oscbndl, &ar, context);
-				if(ar){
-					osc_atom_array_u_free(ar);
-				}
-				if(ret){
-					osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
-					break;
-				}
-				ff = osc_expr_next(ff);
-			}
-			osc_expr_free(f);
-			if(buf){
-				osc_mem_free(buf);
-			}
-		}
 		osc_atom_array_u_free(arg);
-	}else{
-		char *a = osc_expr_arg_getOSCAddress(f_argv);
-		if(a){
-			t_osc_expr *e = osc_hashtab_lookup(osc_expr_funcobj_ht, strlen(a), a);
-			if(e){
-				t_osc_atom_ar_u *ar = NULL;
-				int ret = osc_expr_eval(f, len, oscbndl, &ar, context);
-				*out = osc_atom_array_u_alloc(1);
-
-				osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
-				if(ar){
-					osc_atom_array_u_free(ar);
-				}
-			}
+	}
+	if(!expr){
+		osc_error(context, OSC_ERR_EXPR_ARGCHK, "there is nothing to evaluate");
+		return 1;
+	}
+	t_osc_expr *parsed = NULL;
+	int ret = osc_expr_parser_parseExpr(expr, &parsed, context);
+	t_osc_expr *e = parsed;
+	while(e && !ret){
+		t_osc_atom_ar_u *ar = NULL;
+		ret = osc_expr_eval(e, len, oscbndl, &ar, context);
+		if(ar){
+			osc_atom_array_u_free(ar);
 		}
+		e = osc_expr_next(e);
 	}
+	*out = osc_atom_array_u_alloc(1);
+	osc_atom_u_setInt32(osc_atom_array_u_get(*out, 0), ret);
+	osc_expr_free(parsed);
+	osc_mem_free(expr);
 	return 0;
 }
 
@@ -1577,28 +1562,21 @@ int osc_expr_specFunc_tokenize(t_osc_expr *f,
 {
 	//char *ptr = "/foo += sin(2 * pi() * /bar)";
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	char *expr = NULL;
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
-	if(err == OSC_ERR_EXPR_ADDRESSUNBOUND){
-		osc_expr_err_unbound(context, osc_expr_arg_getOSCAddress(f_argv), "tokenize");
-		return err;
-	}
-	if(arg){
-		if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg, 0)) == 's' && osc_atom_array_u_getLen(arg) == 1){
-			expr = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg, 0));
-		}else{
-			long buflen = 0;
-			osc_atom_array_u_getStringArray(arg, &buflen, &expr, " ");
-		}
+	if(err){
+		osc_expr_err_evalArg(context, err, f_argv, "tokenize");
+	}else{
+		char *expr = osc_expr_getProgramText(arg);
 		if(expr){
-			t_osc_err e = osc_expr_lex(expr, out);
-			if(e){
-				return e;
-			}
+			err = osc_expr_lex(expr, out);
+			osc_mem_free(expr);
 		}
 	}
-	return 0;
+	if(arg){
+		osc_atom_array_u_free(arg);
+	}
+	return err;
 }
 
 static int osc_expr_specFunc_compile(t_osc_expr *f,
@@ -1664,6 +1642,9 @@ static int osc_expr_specFunc_gettimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl || !(*oscbndl)){
+		return 1;
+	}
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *a = osc_atom_array_u_get(*out, 0);
 	osc_atom_u_setTimetag(a, osc_bundle_s_getTimetag(*len, *oscbndl));
@@ -1677,23 +1658,62 @@ static int osc_expr_specFunc_settimetag(t_osc_expr *f,
 			    t_osc_atom_ar_u **out,
 					void *context)
 {
+	if(!len || !oscbndl || !(*oscbndl)){
+		return 1;
+	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg = NULL;
 	t_osc_err err = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg, context);
+	int ret = 1;
 	if(err){
-		return 1;
+		osc_expr_err_evalArg(context, err, f_argv, "settimetag");
+	}else{
+		t_osc_atom_u *a = osc_expr_firstAtom(arg);
+		if(a){
+			osc_bundle_s_setTimetag(*len, *oscbndl, osc_atom_u_getTimetag(a));
+			ret = 0;
+		}
 	}
 	if(arg){
-		if(osc_atom_array_u_getLen(arg) > 0){
-			t_osc_atom_u *a = osc_atom_array_u_get(arg, 0);
-			if(a){
-				t_osc_timetag t = osc_atom_u_getTimetag(a);
-				osc_bundle_s_setTimetag(*len, *oscbndl, t);
-				return 0;
-			}
-		}
+		osc_atom_array_u_free(arg);
 	}
-	return 1;
+	return ret;
+}
+
+// a serialized copy of the bundle that the first argument of the member functions stands for: a
+// bundle, or the address of one
+static t_osc_err osc_expr_getBundleOperand(t_osc_atom_ar_u *ar, long len, char *oscbndl, long *bndl_len, char **bndl)
+{
+	t_osc_atom_u *first = osc_expr_firstAtom(ar);
+	if(!first){
+		return 1;
+	}
+	if(osc_atom_u_getTypetag(first) == OSC_BUNDLE_TYPETAG){
+		t_osc_bndl_u *b = osc_atom_u_getBndl(first);
+		*bndl_len = osc_bundle_u_nserialize(NULL, 0, b);
+		*bndl = osc_mem_alloc(*bndl_len);
+		osc_bundle_u_nserialize(*bndl, *bndl_len, b);
+		return OSC_ERR_NONE;
+	}
+	if(osc_atom_u_getTypetag(first) != 's'){
+		return 1;
+	}
+	t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(len, oscbndl, osc_atom_u_getStringPtr(first), 1);
+	if(!msgar){
+		return OSC_ERR_EXPR_ADDRESSUNBOUND;
+	}
+	t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
+	if(m && osc_message_s_getArgCount(m) > 0 && osc_message_s_getTypetag(m, 0) == OSC_BUNDLE_TYPETAG){
+		t_osc_atom_s *a = NULL;
+		osc_message_s_getArg(m, 0, &a);
+		t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
+		*bndl_len = osc_bundle_s_getLen(b);
+		*bndl = osc_bundle_s_getPtr(b);
+		osc_atom_s_free(a);
+		osc_bundle_s_free(b);
+	}
+	osc_message_array_s_free(msgar);
+	return *bndl ? OSC_ERR_NONE : 1;
 }
 
 static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
@@ -1703,92 +1723,59 @@ static int osc_expr_specFunc_getBundleMember(t_osc_expr *f,
 					     t_osc_atom_ar_u **out,
 		 					 void *context)
 {
-	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
-	t_osc_atom_ar_u *arg1 = NULL;
-	osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
-	if(!arg1){
+	if(!len || !oscbndl || !(*oscbndl)){
 		return 1;
 	}
+	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
+	t_osc_expr_arg *member = f_argv->next;
+	t_osc_atom_ar_u *arg1 = NULL;
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
-	if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-		char *string = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0));
-		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
-		if(msgar){
-			t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
-			t_osc_atom_s *a = NULL;
-			osc_message_s_getArg(m, 0, &a);
-			//char tmp[osc_bundle_s_getStructSize()];
-			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
-			osc_message_array_s_free(msgar);
+	int ret = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(ret){
+		osc_expr_err_evalArg(context, ret, f_argv, "getbundlemember");
+	}else{
+		ret = osc_expr_getBundleOperand(arg1, *len, *oscbndl, &bndl_len_s, &bndl_s);
+	}
+	if(!ret){
+		if(osc_expr_arg_getType(member) == OSC_EXPR_ARG_TYPE_OSCADDRESS){
+			ret = osc_expr_evalArgInLexEnv(member, lexenv, &bndl_len_s, &bndl_s, out, context);
 		}else{
-			return OSC_ERR_EXPR_ADDRESSUNBOUND;
-		}
-	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
-		t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0));
-		bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
-		bndl_s = osc_mem_alloc(bndl_len_s);
-		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
-	}//else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) ==
-
-	int ret = 0;
-	if(bndl_len_s && bndl_s){
-	/* if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){ */
-	/* 	t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0)); */
-	/* 	if(b){ */
-	/* 		long l = 0; */
-	/* 		char *p = NULL; */
-	/* 		osc_bundle_u_serialize(b, &l, &p); */
-		//if(p){
-
-		if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_EXPR){
+			// something that gives the name of the member
+			t_osc_expr_arg *name = member;
+			if(osc_expr_arg_getType(member) == OSC_EXPR_ARG_TYPE_EXPR && osc_expr_arg_getExpr(member)->rec->func == osc_expr_value){
+				name = osc_expr_getArgs(osc_expr_arg_getExpr(member));
+			}
 			t_osc_atom_ar_u *a = NULL;
-			t_osc_expr *e = osc_expr_arg_getExpr(f_argv->next);
-			if(e->rec->func == osc_expr_value){
-				ret = osc_expr_evalArgInLexEnv(osc_expr_getArgs(e), lexenv, len, oscbndl, &a, context);
+			ret = osc_expr_evalArgInLexEnv(name, lexenv, len, oscbndl, &a, context);
+			if(ret){
+				osc_expr_err_evalArg(context, ret, name, "getbundlemember");
+			}else if(!osc_expr_firstAtom(a)){
+				ret = 1;
 			}else{
-				ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
-			}
-			if(a){
 				t_osc_expr_arg *arg = osc_expr_arg_alloc();
 				char *st = NULL;
-				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
+				osc_atom_u_getString(osc_expr_firstAtom(a), 0, &st);
 				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
-				osc_atom_array_u_free(a);
+				if(st){
+					ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
+				}else{
+					ret = 1;
+				}
 				osc_expr_arg_free(arg);
-			}else{
-				return ret;
 			}
-		}else if(osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_STRING ||
-			 osc_expr_arg_getType(f_argv->next) == OSC_EXPR_ARG_TYPE_ATOM){
-			osc_expr_arg_setType(f_argv->next, OSC_EXPR_ARG_TYPE_ATOM);
-			t_osc_atom_ar_u *a = NULL;
-			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, len, oscbndl, &a, context);
 			if(a){
-				t_osc_expr_arg *arg = osc_expr_arg_alloc();
-				char *st = NULL;
-				osc_atom_u_getString(osc_atom_array_u_get(a, 0), 0, &st);
-				osc_expr_arg_setOSCAddress(arg, st);
-				ret = osc_expr_evalArgInLexEnv(arg, lexenv, &bndl_len_s, &bndl_s, out, context);
 				osc_atom_array_u_free(a);
-				osc_expr_arg_free(arg);
-			}else{
-				return ret;
 			}
-		}else{
-			ret = osc_expr_evalArgInLexEnv(f_argv->next, lexenv, &bndl_len_s, &bndl_s, out, context);
 		}
+	}
+	if(bndl_s){
 		osc_mem_free(bndl_s);
+	}
+	if(arg1){
 		osc_atom_array_u_free(arg1);
-				return ret;
 	}
-	return 1;
+	return ret;
 }
 
 static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
@@ -1798,10 +1785,17 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 						  t_osc_atom_ar_u **out,
 						  void *context )
 {
+	if(!len || !oscbndl || !(*oscbndl)){
+		return 1;
+	}
 	t_osc_expr_arg *f_argv = osc_expr_getArgs(f);
 	t_osc_atom_ar_u *arg1 = NULL;
 
 	t_osc_err error = osc_expr_evalArgInLexEnv(f_argv, lexenv, len, oscbndl, &arg1, context);
+	if(error && arg1){
+		osc_atom_array_u_free(arg1);
+		arg1 = NULL;
+	}
 	if(!arg1){
 		// if arg1 is unbound, create a bundle with message arg2 : arg3
 		if( error == OSC_ERR_EXPR_ADDRESSUNBOUND && osc_expr_getArgCount(f) > 2 &&
@@ -1816,29 +1810,11 @@ static int osc_expr_specFunc_assignToBundleMember(t_osc_expr *f,
 	int free_arg1 = 1;
 	long bndl_len_s = 0;
 	char *bndl_s = NULL;
-	if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == 's'){
-		char *string = osc_atom_u_getStringPtr(osc_atom_array_u_get(arg1, 0));
-		t_osc_message_array_s *msgar = osc_bundle_s_lookupAddress(*len, *oscbndl, string, 1);
-		if(msgar){
-			t_osc_msg_s *m = osc_message_array_s_get(msgar, 0);
-			t_osc_atom_s *a = NULL;
-			osc_message_s_getArg(m, 0, &a);
-			//char tmp[osc_bundle_s_getStructSize()];
-			//t_osc_bndl_s *b = (t_osc_bndl_s *)tmp;
-			t_osc_bndl_s *b = osc_atom_s_getBndlCopy(a);
-			bndl_len_s = osc_bundle_s_getLen(b);
-			bndl_s = osc_bundle_s_getPtr(b);
-			osc_atom_s_free(a);
-			osc_bundle_s_free(b);
-			osc_message_array_s_free(msgar);
-		}
-	}else if(osc_atom_u_getTypetag(osc_atom_array_u_get(arg1, 0)) == OSC_BUNDLE_TYPETAG){
-		t_osc_bndl_u *b = osc_atom_u_getBndl(osc_atom_array_u_get(arg1, 0));
-		bndl_len_s = osc_bundle_u_nserialize(NULL, 0, b);
-		bndl_s = osc_mem_alloc(bndl_len_s);
-		osc_bundle_u_nserialize(bndl_s, bndl_len_s, b);
+	error = osc_expr_getBundleOperand(arg1, *len, *oscbndl, &bndl_len_s, &bndl_s);
+	if(error){
+		osc_atom_array_u_free(arg1);
+		return 1;
 	}
-
 	if(bndl_len_s && bndl_s){
 		t_osc_expr *assign = osc_expr_alloc();
 		t_osc_expr_rec *r = osc_expr_lookupFunction("assign");
@@ -1978,10 +1954,6 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	int startcond = START_EXPNS, started = 0;
 	int ret = osc_expr_scanner_lex(&yylval_param, &llocp, scanner, 0, &buflen, &buf, startcond, &started);
 	while(ret){
-		if(i == n){
-			n += 64;
-			osc_array_resize(*ar, n);
-		}
 		char *st = NULL;
 		switch(ret){
 		case START_EXPNS:
@@ -2061,11 +2033,11 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			//osc_atom_u_setString((t_osc_atom_u *)(((long)out) + (i * atomsize)), st);
 			osc_atom_u_setString(osc_atom_array_u_get(*ar, i), st);
 		}
-		long len = osc_atom_u_nformat(NULL, 0, osc_atom_array_u_get(*ar, i), 0);
-		char *fmt = osc_mem_alloc(len + 1);
-		osc_atom_u_nformat(fmt, len + 1, osc_atom_array_u_get(*ar, i), 0);
-		//osc_atom_u_format(osc_atom_array_u_get(*ar, i), &len, &fmt);
 		i++;
+		if(i == n){
+			n += 64;
+			osc_array_resize(*ar, n);
+		}
 		//yylval_param.atom = (t_osc_atom_u *)(((long)out) + (i * atomsize));
 	cont:
 		yylval_param.atom = osc_atom_array_u_get(*ar, i);
@@ -2074,6 +2046,9 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 	//*ar = osc_atom_array_u_alloc(0);
 	//osc_atom_array_u_set(*ar, out, i);
 	osc_array_resize(*ar, i);
+	if(buf){
+		osc_mem_free(buf);
+	}
 	osc_expr_scanner__delete_buffer(buf_state, scanner);
 	osc_expr_scanner_lex_destroy(scanner);
 	return 0;
-- 
2.43.0


From 57821786a80db45020b64c8e1d0692bb2aa76ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:05 +0000
Subject: [PATCH 59/94] fix: no atoms without a type, and no bundles made of
 bytes that are not one, in expressions

---
 osc_expr.c | 190 +++++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 149 insertions(+), 41 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index b67c875..c8cc363 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -123,6 +123,11 @@ int osc_expr_evalInLexEnv(t_osc_expr *f,
 		osc_expr_err_argnum(context, osc_expr_rec_getNumRequiredArgs(f->rec), osc_expr_getArgCount(f), 0, osc_expr_rec_getName(f->rec));
 		return 1;
 	}
+	if(!f->rec->func){
+		// an operator that the parser turns into something else
+		osc_error(context, OSC_ERR_EXPR_EVAL, "%s can't be called as a function", osc_expr_rec_getName(f->rec));
+		return 1;
+	}
 	//////////////////////////////////////////////////
 	// Special functions
 	//////////////////////////////////////////////////
@@ -3166,6 +3171,17 @@ int osc_expr_plus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		case 'U':
 			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) + 1);
 			break;
+		default:
+			{
+				t_osc_atom_u *one = osc_atom_u_allocWithInt32(1);
+				t_osc_atom_u *res = osc_atom_array_u_get(*out, i);
+				int ret = osc_expr_add(a, one, &res, context);
+				osc_atom_u_free(one);
+				if(ret){
+					return ret;
+				}
+			}
+			break;
 		}
 	}
 	return 0;
@@ -3211,6 +3227,17 @@ int osc_expr_minus1(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		case 'U':
 			osc_atom_u_setUInt16(osc_atom_array_u_get(*out, i), osc_atom_u_getUInt16(a) - 1);
 			break;
+		default:
+			{
+				t_osc_atom_u *one = osc_atom_u_allocWithInt32(1);
+				t_osc_atom_u *res = osc_atom_array_u_get(*out, i);
+				int ret = osc_expr_subtract(a, one, &res, context);
+				osc_atom_u_free(one);
+				if(ret){
+					return ret;
+				}
+			}
+			break;
 		}
 	}
 	return 0;
@@ -6394,10 +6421,18 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 {
 	if(argc != 2){
 		osc_expr_err_argnum(context, 2, argc, 0, "match");
+		return 1;
 	}
 	int npatterns = osc_atom_array_u_getLen(argv[0]);
 	int naddresses = osc_atom_array_u_getLen(argv[1]);
-	*out = osc_atom_array_u_alloc(npatterns);
+	int nresults = 0;
+	for(int i = 0; i < npatterns; i++){
+		if(osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], i)) == 's'){
+			nresults++;
+		}
+	}
+	*out = osc_atom_array_u_alloc(nresults);
+	nresults = 0;
 	for(int i = 0; i < npatterns; i++){
 		t_osc_atom_u *pattern = osc_atom_array_u_get(argv[0], i);
 		if(osc_atom_u_getTypetag(pattern) != 's'){
@@ -6409,7 +6444,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		t_osc_msg_u *full = osc_message_u_allocWithAddress("/full");
 		t_osc_msg_u *partial = osc_message_u_allocWithAddress("/partial");
 		t_osc_msg_u *unmatched = osc_message_u_allocWithAddress("/unmatched");
-		int matches[naddresses];
+		int matches[naddresses + 1];
 		memset(matches, 0, sizeof(int) * naddresses);
 		for(int j = 0; j < naddresses; j++){
 			t_osc_atom_u *address = osc_atom_array_u_get(argv[1], j);
@@ -6443,7 +6478,7 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		osc_bundle_u_addMsg(b, full);
 		osc_bundle_u_addMsg(b, partial);
 		osc_bundle_u_addMsg(b, unmatched);
-		osc_atom_u_setBndl_u(osc_atom_array_u_get(*out, i), b);
+		osc_atom_u_setBndl_u(osc_atom_array_u_get(*out, nresults++), b);
 	}
 	return 0;
 	/*
@@ -6492,71 +6527,144 @@ int osc_expr_match(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	*/
 }
 
+// osc_error_bundleSanityCheck() only looks at the sizes and the addresses of the messages
+static t_osc_err osc_expr_checkBundleBytes(int32_t len, char *bytes)
+{
+	t_osc_err e = osc_error_bundleSanityCheck(len, bytes);
+	if(e){
+		return e;
+	}
+	char *msg = bytes + OSC_HEADER_SIZE;
+	while(msg < bytes + len){
+		char *end = msg + 4 + ntoh32(*((uint32_t *)msg));
+		char *address = msg + 4;
+		msg = end;
+		char *tt = memchr(address, '\0', end - address) ? address + osc_util_getPaddedStringLen(address) : NULL;
+		if(tt == end){
+			// no typetags, no data
+			continue;
+		}
+		if(!tt || tt > end || *tt != ',' || !memchr(tt, '\0', end - tt)){
+			return OSC_ERR_MALFORMEDMSG;
+		}
+		char *data = tt + osc_util_getPaddedStringLen(tt);
+		while(*(++tt)){
+			int64_t left = end - data;
+			int64_t size = 0;
+			switch(*tt){
+			case 's':
+				size = left > 0 && memchr(data, '\0', left) ? osc_util_getPaddedStringLen(data) : -1;
+				break;
+			case 'b':
+			case OSC_BUNDLE_TYPETAG:
+				size = left >= 4 ? (int32_t)ntoh32(*((uint32_t *)data)) : -1;
+				if(size < 0 || size > left - 4){
+					return OSC_ERR_MALFORMEDMSG;
+				}
+				if(*tt == OSC_BUNDLE_TYPETAG && (e = osc_expr_checkBundleBytes(size, data + 4))){
+					return e;
+				}
+				size = osc_sizeof(*tt, data);
+				break;
+			case 'c':
+			case 'C':
+			case 'u':
+			case 'U':
+			case 'i':
+			case 'I':
+			case 'f':
+			case 'h':
+			case 'H':
+			case 'd':
+			case 'T':
+			case 'F':
+			case 'N':
+			case OSC_TIMETAG_TYPETAG:
+				size = osc_sizeof(*tt, data);
+				break;
+			default:
+				return OSC_ERR_BADTYPETAG;
+			}
+			if(size < 0 || size > left){
+				return OSC_ERR_MALFORMEDMSG;
+			}
+			data += size;
+		}
+		if(data != end){
+			return OSC_ERR_MALFORMEDMSG;
+		}
+	}
+	return OSC_ERR_NONE;
+}
+
+// make a subbundle of some bytes, if they are a bundle
+static int osc_expr_bytesToBundle(void *context, int32_t len, char *bytes, t_osc_atom_u *a)
+{
+	t_osc_err e = osc_expr_checkBundleBytes(len, bytes);
+	if(e){
+		osc_error(context, e, "the argument to bundle() isn't a bundle");
+		return e;
+	}
+	osc_atom_u_setBndl(a, len, bytes);
+	return 0;
+}
+
 int osc_expr_bundle(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void *context)
 {
 	*out = osc_atom_array_u_alloc(1);
 	t_osc_atom_u *aout = osc_atom_array_u_get(*out, 0);
-	if(argc == 1){
+	t_osc_atom_u *first = argc ? osc_expr_firstAtom(argv[0]) : NULL;
+	int ret = 0;
+	if(argc == 1 && !(osc_atom_array_u_getLen(argv[0]) == 1 && osc_atom_u_getTypetag(first) == 's')){
 		// if there's only one argument, it's either:
 		// -- a blob: convert it to a subbundle
 		// -- a list: treat it as a list of bytes and convert it to a subbundle
 		// -- a string: create a subbundle and make that string the address of the only message
 		int32_t n = osc_atom_array_u_getLen(argv[0]);
-		if(n == 1){
-			t_osc_atom_u *a = osc_atom_array_u_get(*argv, 0);
-			if(osc_atom_u_getTypetag(a) == 'b'){
-				int32_t len = 0;
-				char *ptr = NULL;
-				osc_atom_u_getBlobCopy(a, &len, &ptr);
-				len -= 4;
-				osc_atom_u_setBndl(aout, len, ptr);
-				return 0;
-			}else if(osc_atom_u_getTypetag(a) == 's'){
-				t_osc_bndl_u *b = osc_bundle_u_alloc();
-				t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(a));
-				osc_bundle_u_addMsg(b, m);
-				osc_atom_u_setBndl_u(aout, b);
-				return 0;
-			}
+		if(n == 1 && osc_atom_u_getTypetag(first) == 'b'){
+			char *blob = osc_atom_u_getBlob(first);
+			ret = osc_expr_bytesToBundle(context, osc_atom_u_getBlobLen(first), blob ? blob + 4 : NULL, aout);
 		}else{
 			int np = n;
 			while(np % 4){
 				np++;
 			}
-			char buf[np];
-			memset(buf, 0, np);
+			char *buf = (char *)osc_mem_alloc(np + 4);
+			memset(buf, 0, np + 4);
 			for(int i = 0; i < n; i++){
 				buf[i] = osc_atom_u_getInt32(osc_atom_array_u_get(*argv, i));
 			}
-			osc_atom_u_setBndl(aout, np, buf);
-			return 0;
+			ret = osc_expr_bytesToBundle(context, np, buf, aout);
+			osc_mem_free(buf);
 		}
 	}else{
-		// multiple arguments means at least one message
+		// an even number of arguments, or just one, are the addresses of messages and their data
 		t_osc_bndl_u *b = osc_bundle_u_alloc();
-		for(int i = 0; i < argc; i++){
-			t_osc_atom_u *aa = osc_atom_array_u_get(argv[i], 0);
-			if(osc_atom_u_getTypetag(aa) != 's'){
-				osc_bundle_u_free(b);
-				osc_atom_array_u_free(*out);
-				*out = NULL;
-				return 1;
+		for(int i = 0; i < argc && !ret; i += 2){
+			t_osc_atom_u *aa = osc_expr_firstAtom(argv[i]);
+			if(!aa || osc_atom_u_getTypetag(aa) != 's' || !osc_atom_u_getStringPtr(aa)){
+				osc_error(context, OSC_ERR_EXPR_ARGCHK, "the address of a message in bundle() should be a string");
+				ret = 1;
+				break;
+			}
+			if(i + 1 < argc && osc_expr_checkForFunctions(context, argv[i + 1], "a bundle")){
+				ret = 1;
+				break;
 			}
 			t_osc_msg_u *m = osc_message_u_allocWithAddress(osc_atom_u_getStringPtr(aa));
-			if(i + 1 < argc){
-				for(int j = 0; j < osc_atom_array_u_getLen(argv[i + 1]); j++){
-					osc_message_u_appendAtom(m, osc_atom_u_copy(osc_atom_array_u_get(argv[i + 1], j)));
-				}
-				i++;
+			int n = i + 1 < argc && argv[i + 1] ? osc_atom_array_u_getLen(argv[i + 1]) : 0;
+			for(int j = 0; j < n; j++){
+				osc_message_u_appendAtom(m, osc_atom_u_copy(osc_atom_array_u_get(argv[i + 1], j)));
 			}
 			osc_bundle_u_addMsg(b, m);
 		}
-		/* *out = osc_atom_array_u_alloc(1); */
-		/* t_osc_atom_u *a = osc_atom_array_u_get(*out, 0); */
 		osc_atom_u_setBndl_u(aout, b);
-		return 0;
 	}
-	return 1;
+	if(ret){
+		osc_atom_array_u_free(*out);
+		*out = NULL;
+	}
+	return ret;
 }
 
 t_osc_expr *osc_expr_alloc(void)
-- 
2.43.0


From 6b69790bff2a4a999042fa3ad73f451421c23f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:22 +0000
Subject: [PATCH 60/94] fix: strings and blobs set by pointer stay the
 caller's; copying into an atom releases what it held

---
 osc_atom_u.c        | 17 ++++++++++++++---
 osc_legacy_parser.y |  8 ++++----
 osc_message_u.c     |  2 +-
 osc_parser.y        |  8 ++++----
 4 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index b13fc03..88e3385 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -53,7 +53,7 @@ void osc_atom_u_free(t_osc_atom_u *a)
 		return;
 	}
 	if(a->typetag == 's'){
-		if(a->w.s){
+		if(a->alloc && a->w.s){ // otherwise it is the caller's: see osc_atom_u_setStringPtr()
 			osc_mem_free(a->w.s);
 		}
 	}else if(a->typetag == OSC_BUNDLE_TYPETAG){
@@ -63,7 +63,7 @@ void osc_atom_u_free(t_osc_atom_u *a)
 			//}
     }
     else if(a->typetag == 'b'){
-        if(a->w.s){
+        if(a->alloc && a->w.b){
             osc_mem_free(a->w.b);
         }
     }
@@ -76,7 +76,14 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 		return;
 	}
 	t_osc_atom_u *aa = *dest;
-	if(!aa){
+	if(aa == src){
+		return;
+	}
+	t_osc_atom_u old;
+	memset(&old, '\0', sizeof(t_osc_atom_u));
+	if(aa){
+		old = *aa;
+	}else{
 		aa = osc_mem_alloc(sizeof(t_osc_atom_u));
 	}
 	aa->next = aa->prev = NULL;
@@ -107,6 +114,7 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
             aa->w = src->w;
         break;
 	}
+	osc_atom_u_clear(&old); // what the destination held before
 	*dest = aa;
 }
 
@@ -132,12 +140,15 @@ void osc_atom_u_clear(t_osc_atom_u *a)
 	if(a->alloc && a->typetag == 's' && a->w.s){
 		osc_mem_free(a->w.s);
 		a->w.s = NULL;
+		a->typetag = '\0'; // there is no string anymore
 	}else if(a->typetag == OSC_BUNDLE_TYPETAG){
 		osc_bundle_u_free(a->w.bndl);
 		a->w.bndl = NULL;
+		a->typetag = '\0';
 	}else if(a->alloc && a->typetag == 'b' && a->w.b){
         osc_mem_free(a->w.b);
         a->w.b = NULL;
+        a->typetag = '\0';
     }
 	a->alloc = 0;
 }
diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index 5e8185f..4145e81 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -216,7 +216,7 @@ arglist:
 		PP("add STRING to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
   	}
 	| OSCADDRESS {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -224,7 +224,7 @@ arglist:
 		PP("add OSCADDRESS to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
 	}
 	| OSCFLOAT {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -297,11 +297,11 @@ arglist:
 	  }
 	| arglist STRING {
 		PP("add STRING to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCADDRESS {
 		PP("add OSCADDRESS to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCFLOAT {
 		PP("add OSCFLOAT to MSG %p := %f\n", *msg, $2);
diff --git a/osc_message_u.c b/osc_message_u.c
index be0507c..95dbd90 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -762,7 +762,7 @@ t_osc_atom_u *osc_message_u_insertDouble(t_osc_msg_u *m, double v, int pos)
 t_osc_atom_u *osc_message_u_insertStringPtr(t_osc_msg_u *m, char *v, int pos)
 {
 	t_osc_atom_u *a = osc_atom_u_alloc();
-	osc_atom_u_setString(a, v);
+	osc_atom_u_setStringPtr(a, v);
 	osc_message_u_insertAtom(m, a, pos);
 	return a;
 }
diff --git a/osc_parser.y b/osc_parser.y
index ffb8413..2f00bbf 100644
--- a/osc_parser.y
+++ b/osc_parser.y
@@ -332,7 +332,7 @@ arglist:
 		PP("add STRING to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
   	}
 	| OSCADDRESS {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -340,7 +340,7 @@ arglist:
 		PP("add OSCADDRESS to MSG %p := %s\n", m, $1);
 		m->next = *msg;
 		*msg = m;
-		osc_message_u_appendStringPtr(*msg, $1);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $1), 1);
 	}
 	| OSCFLOAT {
 		t_osc_msg_u *m = osc_message_u_alloc();
@@ -413,11 +413,11 @@ arglist:
 	  }
 	| arglist STRING {
 		PP("add STRING to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCADDRESS {
 		PP("add OSCADDRESS to MSG %p := %s\n", *msg, $2);
-		osc_message_u_appendStringPtr(*msg, $2);
+		osc_atom_u_setShouldFreePtr(osc_message_u_appendStringPtr(*msg, $2), 1);
  	}
 	| arglist OSCFLOAT {
 		PP("add OSCFLOAT to MSG %p := %f\n", *msg, $2);
-- 
2.43.0


From 7a7bbb498ac5bec903d3288b6214f13564ea5361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:24 +0000
Subject: [PATCH 61/94] fix: release the results of expressions that fail, and
 the copies that sortidx() and nfill() make

---
 osc_expr.c | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index c8cc363..36c78f1 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -110,12 +110,37 @@ int osc_expr_eval(t_osc_expr *f, long *len, char **oscbndl, t_osc_atom_ar_u **ou
 	return osc_expr_evalInLexEnv(f, NULL, len, oscbndl, out, context);
 }
 
+static int osc_expr_evalCall(t_osc_expr *f,
+			     t_osc_expr_lexenv *lexenv,
+			     long *len,
+			     char **oscbndl,
+			     t_osc_atom_ar_u **out,
+			     void *context);
+
 int osc_expr_evalInLexEnv(t_osc_expr *f,
 			  t_osc_expr_lexenv *lexenv,
 			  long *len,
 			  char **oscbndl,
 			  t_osc_atom_ar_u **out,
 				void *context)
+{
+	t_osc_atom_ar_u *result = NULL;
+	int ret = osc_expr_evalCall(f, lexenv, len, oscbndl, &result, context);
+	if(ret && result){
+		// whatever a function had got to when it failed is not a value
+		osc_atom_array_u_free(result);
+		result = NULL;
+	}
+	*out = result;
+	return ret;
+}
+
+static int osc_expr_evalCall(t_osc_expr *f,
+			     t_osc_expr_lexenv *lexenv,
+			     long *len,
+			     char **oscbndl,
+			     t_osc_atom_ar_u **out,
+			     void *context)
 {
 	// printf("%s context %p\n",__func__, context );
 	if(f->rec->func != osc_expr_apply && osc_expr_getArgCount(f) < osc_expr_rec_getNumRequiredArgs(f->rec)){
@@ -3824,6 +3849,7 @@ int osc_expr_sort(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar
 		n += osc_atom_array_u_getLen(argv[i]);
 	}
 	t_osc_atom_u *ar = (t_osc_atom_u *)osc_mem_alloc(n * osc_atom_u_getStructSize());
+	memset(ar, '\0', n * osc_atom_u_getStructSize());
 	n = 0;
 	for(int i = 0; i < argc; i++){
 		for(int j = 0; j < osc_atom_array_u_getLen(argv[i]); j++){
@@ -3891,7 +3917,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     for( int i = 0; i < n; i++ )
     {
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
-        osc_mem_free(sort_ar[i].a);
+        osc_atom_u_free(sort_ar[i].a);
     }
     
     return 0;
@@ -3955,12 +3981,11 @@ int osc_expr_nfill(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 	}
 	//t_osc_atom_u *val = NULL;
 
-	int outlen = n * osc_atom_array_u_getLen(argv[1]);
+	long len = osc_atom_array_u_getLen(argv[1]);
+	long outlen = n * len;
 	*out = osc_atom_array_u_alloc(outlen);
-	int j = 0;
-	for(int i = 0; i < n; i++){
+	for(long j = 0; j < outlen; j += len){
 		osc_atom_array_u_copyInto(out, argv[1], j);
-		j += osc_atom_array_u_getLen(argv[1]);
 	}
 	/*
 	int alloc = 0;
-- 
2.43.0


From 8c6719f8b4afa84711d0ab0867fae7f9626d2f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:41 +0000
Subject: [PATCH 62/94] fix: document the optional arguments of nth(), list the
 bitwise category, and do not overrun a buffer with a long category

---
 osc_expr.c      | 4 ++--
 osc_expr_func.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 36c78f1..2eea1e6 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -67,7 +67,7 @@ char *osc_expr_typestrings[] = {"", "number", "list", "", "string", "", "", "",
 
 #define OSC_EXPR_MAX_TYPESTRING_LEN strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_NUMBER]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_LIST]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_STRING]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_ATOM]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_EXPR]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_OSCADDRESS]) + strlen(osc_expr_typestrings[OSC_EXPR_ARG_TYPE_BOOLEAN]) + 1 + 12 // commas, spaces, and null byte
 
-char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
+char *osc_expr_categories[] = {"/math/operator/arithmetic", "/math/operator/relational", "/math/operator/logical", "/math/operator/assignment", "/math/arithmetic", "/math/trigonometric", "/math/power", "/math/conversion", "/math/specialfunction", "/math/constant", "/math/bitwise", "/vector", "/statistics", "/string/function", "/string/operator", "/predicate", "/conditional", "/core"};
 
 // this gets created the first time it's needed and then it's never freed
 t_osc_bndl_u *osc_expr_functionBundle = NULL;
@@ -7275,7 +7275,7 @@ t_osc_err osc_expr_getFunctionsForCategory(char *cat, long *len, char **ptr)
 	if(!osc_expr_functionBundle){
 		osc_expr_makeFunctionBundle();
 	}
-	char buf[128];
+	char buf[strlen(cat) + 14];
 	if(strncmp(cat, "/doc/category", 13)){
 		sprintf(buf, "/doc/category%s", cat);
 	}else{
diff --git a/osc_expr_func.h b/osc_expr_func.h
index 524b4fc..fe93657 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1294,7 +1294,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (char *[]){"argument (list)", "index"},
 	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"additional indexes"},
-	 (int []){},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){"/vector", NULL},
 	 "Get an element of a list (same as [[ ]])",
 	 osc_expr_nth,
@@ -2717,7 +2717,7 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (int []){},
 	 (char *[]){NULL},
 	 (int []){},
-	 (char *[]){"", NULL},
+	 (char *[]){"/core", NULL},
 	 "makes a bundle from a list of bindings",
 	 osc_expr_bundle,
 	 NULL},
-- 
2.43.0


From a257303bb46b4e733b02b0edd8ebbbe056a55f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:57 +0000
Subject: [PATCH 63/94] fix: follow message sizes of any number of bytes,
 messages without data, and repeated ranges and alternatives in the byte-wise
 parser

---
 osc_serial.c | 55 +++++++++++++++++++++++++++++++---------------------
 osc_serial.h |  4 ++++
 2 files changed, 37 insertions(+), 22 deletions(-)

diff --git a/osc_serial.c b/osc_serial.c
index 3359f60..f87ed5c 100644
--- a/osc_serial.c
+++ b/osc_serial.c
@@ -269,33 +269,29 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 			case 6:
 				OSC_SERIAL_RETURN(s + 1);
 			case 7:
-				// do negative size check
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 24));
+				goto size;
 			}
 		}
 	case OSC_SERIAL_BUNDLE_MESSAGE:
 		switch(state){
 		case OSC_SERIAL_MESSAGE_SIZE:
 			{
-				int32_t c = count & 0xff;
-				switch(c){
-				case 0:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 16) | (c + 1));
-				case 1:
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (((int32_t)b & 0xff) << 8) | (c + 1));
-				case 2:
-					// negative size check
-					//count = ntoh32(count | b);
-					count = count | b;
-					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | (count - 2));
-				default:
-					//count = ntoh32(count);
+				if(micro == OSC_SERIAL_MESSAGE_SIZE_COMPLETE){
 					if(b == '/'){
 						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count - 1));
 					}else{
 						OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_ERROR_NOLEADINGSLASH);
 					}
 				}
+				uint32_t c = count & 0xff;
+				uint32_t size = count & 0xffffff00;
+				switch(c){
+				case 0:
+				case 1:
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | size | ((uint32_t)(uint8_t)b << (16 - 8 * c)) | (c + 1));
+				default:
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_MESSAGE_SIZE_COMPLETE | size | (uint8_t)b);
+				}
 			}
 		case OSC_SERIAL_MESSAGE_ADDRESS:
 			switch(micro){
@@ -336,7 +332,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -360,7 +356,7 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				case '\0':
 					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
-					OSC_SERIAL_RETURN(s - 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count - 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 0){
@@ -406,7 +402,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNSUPPORTEDTYPETAG);
 				}
 			case OSC_SERIAL_MESSAGE_TYPETAGS_NULLPADDING:
-				if(ctrm4 == 0){
+				if(count == 0){
+					// no data; this is the first byte of the size of the next message
+					goto size;
+				}else if(ctrm4 == 0){
 					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_DATA | (count - 1));
 				}else{
 					if(b == '\0'){
@@ -417,8 +416,12 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 				}
 			}
 		case OSC_SERIAL_MESSAGE_DATA:
-			if(count <= 0){
-				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE);
+			if(count == 0){
+			size:
+				if(b & 0x80){
+					OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | OSC_SERIAL_ERROR_NEGATIVESIZE);
+				}
+				OSC_SERIAL_RETURN(OSC_SERIAL_BUNDLE_MESSAGE | OSC_SERIAL_MESSAGE_SIZE | ((uint32_t)(uint8_t)b << 24));
 			}else{
 				OSC_SERIAL_RETURN(s - 1);
 			}
@@ -435,6 +438,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS) + 1);
 				case '\0':
 					OSC_SERIAL_RETURN((s | OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING) + 1);
+				case ']':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTSQUAREBRACKET);
+				case '}':
+					OSC_SERIAL_RETURN(s | OSC_SERIAL_ERROR_UNMATCHEDRIGHTCURLYBRACE);
 				default:
 					OSC_SERIAL_RETURN(s + 1);
 				}
@@ -457,8 +464,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA | (count + 1));
 				case '}':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTCURLYBRACE);
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH:
 				switch(b){
@@ -479,8 +488,10 @@ uint64_t osc_serial_processByte(char b, uint64_t s)
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS_DASH | (count + 1));
 				case ']':
 					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | (count + 1));
+				case '\0':
+					OSC_SERIAL_RETURN(OSC_SERIAL_ERROR_UNMATCHEDLEFTSQUAREBRACKET);
 				default:
-					OSC_SERIAL_RETURN(s + 1);
+					OSC_SERIAL_RETURN(OSC_SERIAL_MESSAGE | OSC_SERIAL_MESSAGE_ADDRESS | OSC_SERIAL_MESSAGE_ADDRESS_INSIDESQUAREBRACKETS | (count + 1));
 				}
 			case OSC_SERIAL_MESSAGE_ADDRESS_NULLPADDING:
 				if(ctrm4 == 3){
diff --git a/osc_serial.h b/osc_serial.h
index 8bd03ea..eabd42f 100644
--- a/osc_serial.h
+++ b/osc_serial.h
@@ -9,6 +9,7 @@ header	   |	id	   |	<none>	   |
 header	   |    timetag    |	<none>     |
 	   |		   |		   |
 message	   |	size	   |	<none>	   |
+message	   |	size	   |	complete   |
 	   |		   |		   |
 message	   |	address	   |	<none>	   |
 message	   |	address	   |	curly br.  |
@@ -57,6 +58,9 @@ gone off the end of the buffer or started a new message.
 #define OSC_SERIAL_MESSAGE_TYPETAGS 0x0004000000000000ull
 #define OSC_SERIAL_MESSAGE_DATA 0x0008000000000000ull
 
+// size micro states
+#define OSC_SERIAL_MESSAGE_SIZE_COMPLETE 0x0000010000000000ull
+
 // address micro states
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS 0x0000010000000000ull
 #define OSC_SERIAL_MESSAGE_ADDRESS_INSIDECURLYBRACKETS_COMMA 0x0000020000000000ull
-- 
2.43.0


From 7ae6d9061911d0a977da79c003cf822906fc8740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:55 +0000
Subject: [PATCH 64/94] fix: name and compare types beyond 127 without reading
 outside the tables

---
 osc_typetag.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/osc_typetag.c b/osc_typetag.c
index c4e88d0..854a1cb 100644
--- a/osc_typetag.c
+++ b/osc_typetag.c
@@ -33,6 +33,9 @@ static char osc_typetag_indexes[] __attribute__((unused)) = {0, 0, 0, 0, 0, 0, 0
 
 char *osc_typetag_str(int8_t tt)
 {
+	if(tt < 0){
+		return "unknown type";
+	}
 	return osc_typetag_strings[tt];
 }
 
@@ -40,7 +43,10 @@ int osc_typetag_compare(char tt1, char tt2)
 {
 	if(tt1 == tt2){
 		return 0;
-	}else if(osc_typetag_indexes[(int)tt1] < osc_typetag_indexes[(int)tt2]){
+	}
+	int i1 = (unsigned char)tt1 < 128 ? osc_typetag_indexes[(int)tt1] : 0;
+	int i2 = (unsigned char)tt2 < 128 ? osc_typetag_indexes[(int)tt2] : 0;
+	if(i1 < i2){
 		return -1;
 	}else{
 		return 1;
-- 
2.43.0


From c4671feadaca6f8acc2f0e87bf536c62794cdd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:42 +0000
Subject: [PATCH 65/94] fix: print parsed expressions of any length, count
 chained arguments, and copy list arguments

---
 osc_expr.c | 96 +++++++++++++++++++++++++++++++++---------------------
 1 file changed, 58 insertions(+), 38 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 2eea1e6..1258799 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -26,6 +26,7 @@
 */
 
 #include <stdio.h>
+#include <stdarg.h>
 #include <string.h>
 #include <float.h>
 #include <inttypes.h>
@@ -6868,7 +6869,10 @@ void osc_expr_prependArg(t_osc_expr *e, t_osc_expr_arg *a)
 	if(e){
 		if(!(e->argv)){
 			e->argv = a;
-			e->argc = 1;
+			e->argc = 0;
+			for(t_osc_expr_arg *aa = a; aa; aa = aa->next){
+				e->argc++;
+			}
 		}else{
 			t_osc_expr_arg *aa = a;
 			t_osc_expr_arg *last = aa;
@@ -6892,7 +6896,10 @@ void osc_expr_appendArg(t_osc_expr *e, t_osc_expr_arg *a)
 	if(e){
 		if(!(e->argv)){
 			e->argv = a;
-			e->argc = 1;
+			e->argc = 0;
+			for(t_osc_expr_arg *aa = a; aa; aa = aa->next){
+				e->argc++;
+			}
 		}else{
 			t_osc_expr_arg *aa = e->argv;
 			t_osc_expr_arg *last = aa;
@@ -7053,6 +7060,9 @@ t_osc_err osc_expr_arg_copy(t_osc_expr_arg **dest, t_osc_expr_arg *src)
 	case OSC_EXPR_ARG_TYPE_ATOM:
 		osc_atom_u_copyInto(&(copy->arg.atom), src->arg.atom);
 		break;
+	case OSC_EXPR_ARG_TYPE_LIST:
+		copy->arg.list = osc_atom_array_u_copy(src->arg.list);
+		break;
 	case OSC_EXPR_ARG_TYPE_EXPR:
 		osc_expr_copy(&(copy->arg.expr), src->arg.expr);
 		break;
@@ -7108,23 +7118,45 @@ void osc_expr_funcobj_dtor(char *key, void *val)
 	}
 }
 
-int osc_expr_format_r(t_osc_expr *fg, char *buf)
+// appends to buf, which is grown as necessary
+static void osc_expr_format_append(char **buf, long *bufsize, long *bufpos, const char *fmt, ...)
+{
+	va_list ap, ap2;
+	va_start(ap, fmt);
+	va_copy(ap2, ap);
+	int n = vsnprintf(NULL, 0, fmt, ap);
+	if(*bufpos + n + 1 > *bufsize){
+		*bufsize = (*bufpos + n + 1) * 2;
+		*buf = osc_mem_resize(*buf, *bufsize);
+	}
+	vsnprintf(*buf + *bufpos, n + 1, fmt, ap2);
+	*bufpos += n;
+	va_end(ap2);
+	va_end(ap);
+}
+
+static void osc_expr_format_appendAtom(t_osc_atom_u *a, char **buf, long *bufsize, long *bufpos)
+{
+	long len = osc_atom_u_nformat(NULL, 0, a, 0);
+	char *s = osc_mem_alloc(len + 1);
+	osc_atom_u_nformat(s, len + 1, a, 0);
+	osc_expr_format_append(buf, bufsize, bufpos, "%s ", s);
+	osc_mem_free(s);
+}
+
+static void osc_expr_format_r(t_osc_expr *fg, char **buf, long *bufsize, long *bufpos)
 {
 	if(!fg){
-		return 0;
+		return;
 	}
-	char *ptr = buf;
-	ptr += sprintf(ptr, "(%s ", fg->rec->name);
+	osc_expr_format_append(buf, bufsize, bufpos, "(%s ", fg->rec->name);
 	t_osc_expr_arg *f_argv = fg->argv;
 	while(f_argv){
 		switch(f_argv->type){
 		case OSC_EXPR_ARG_TYPE_ATOM:
 			{
 				t_osc_atom_u *a = f_argv->arg.atom;
-				long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-				char buf[buflen + 1];
-				osc_atom_u_nformat(buf, buflen + 1, a, 0);
-				ptr += sprintf(ptr, "%s ", buf);
+				osc_expr_format_appendAtom(a, buf, bufsize, bufpos);
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_LIST:
@@ -7132,67 +7164,55 @@ int osc_expr_format_r(t_osc_expr *fg, char *buf)
 				t_osc_atom_ar_u *ar = f_argv->arg.list;
 				for(int i = 0; i < osc_atom_array_u_getLen(ar); i++){
 					t_osc_atom_u *a = osc_atom_array_u_get(ar, i);
-					long buflen = osc_atom_u_nformat(NULL, 0, a, 0);
-					char buf[buflen + 1];
-					osc_atom_u_nformat(buf, buflen + 1, a, 0);
-					ptr += sprintf(ptr, "%s ", buf);
+					osc_expr_format_appendAtom(a, buf, bufsize, bufpos);
 				}
 			}
 			break;
 		case OSC_EXPR_ARG_TYPE_OSCADDRESS:
-			ptr += sprintf(ptr, "%s ", f_argv->arg.osc_address);
+			osc_expr_format_append(buf, bufsize, bufpos, "%s ", f_argv->arg.osc_address);
 			break;
 		case OSC_EXPR_ARG_TYPE_EXPR:
-			ptr += osc_expr_format_r(f_argv->arg.expr, ptr);
+			osc_expr_format_r(f_argv->arg.expr, buf, bufsize, bufpos);
 			break;
  		case OSC_EXPR_ARG_TYPE_FUNCTION:
 			{
 				t_osc_expr_rec *r = f_argv->arg.func;
-				ptr += sprintf(ptr, "(lambda (");
+				osc_expr_format_append(buf, bufsize, bufpos, "(lambda (");
 				int numparams = osc_expr_rec_getNumRequiredArgs(r);
 				char **paramnames = osc_expr_rec_getRequiredArgsNames(r);
 				for(int i = 0; i < numparams; i++){
-					if(i < numparams - 1){
-						ptr += sprintf(ptr, "%s, ", paramnames[i]);
-					}else{
-						ptr += sprintf(ptr, "%s) ", paramnames[i]);
-					}
+					osc_expr_format_append(buf, bufsize, bufpos, i < numparams - 1 ? "%s, " : "%s", paramnames[i]);
 				}
+				osc_expr_format_append(buf, bufsize, bufpos, ") ");
 				t_osc_expr *e = (t_osc_expr *)osc_expr_rec_getExtra(r);
 				while(e){
-					ptr += osc_expr_format_r(e, ptr);
+					osc_expr_format_r(e, buf, bufsize, bufpos);
 					e = osc_expr_next(e);
 				}
-				ptr += sprintf(ptr, ") ");
+				osc_expr_format_append(buf, bufsize, bufpos, ") ");
 			}
 			break;
 		}
 		f_argv = f_argv->next;
 	}
-	ptr--;
-	ptr += sprintf(ptr, ") ");
-	return ptr - buf;
+	(*bufpos)--;
+	osc_expr_format_append(buf, bufsize, bufpos, ") ");
 }
 
 void osc_expr_format(t_osc_expr *fg, long *buflen, char **fmt)
 {
+	long bufsize = 512, bufpos = 0;
+	*fmt = osc_mem_resize(*fmt, bufsize);
 	if(!(*fmt)){
-		*fmt = osc_mem_alloc(512);
+		return;
 	}
-	long bufsize = 512, bufpos = 0;
 	t_osc_expr *f = fg;
 	while(f){
-		if(bufpos < 256){
-			*fmt = osc_mem_resize(*fmt, bufsize + 256);
-		}
-		if(!(*fmt)){
-			return;
-		}
-		bufsize += 256;
-		bufpos += osc_expr_format_r(f, (*fmt) + bufpos);
-		bufpos += sprintf((*fmt) + bufpos, "\n");
+		osc_expr_format_r(f, fmt, &bufsize, &bufpos);
+		osc_expr_format_append(fmt, &bufsize, &bufpos, "\n");
 		f = f->next;
 	}
+	(*fmt)[bufpos] = '\0';
 	*buflen = bufpos;
 }
 
-- 
2.43.0


From 3da8ae837a676d2dbee3101780bae6c794df3622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:06 +0000
Subject: [PATCH 66/94] fix: formatting into too small a buffer does not write
 beyond it

---
 osc_bundle_s.c  |  9 +++++----
 osc_bundle_u.c  | 11 ++++++-----
 osc_message_s.c | 13 +++++++------
 osc_message_u.c | 13 +++++++------
 osc_strfmt.h    |  3 +++
 5 files changed, 28 insertions(+), 21 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 851162e..81f220b 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -25,6 +25,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <string.h>
 #include <inttypes.h>
 #include "osc.h"
+#include "osc_strfmt.h"
 #include "osc_mem.h"
 #include "osc_match.h"
 #include "osc_timetag.h"
@@ -654,9 +655,9 @@ long osc_bundle_s_nformat(char *buf, long n, long bndllen, char *bndl, int ninde
 	}else{
 		while(osc_bndl_it_s_hasNext(it)){
 			t_osc_msg_s *m = osc_bndl_it_s_next(it);
-			offset += osc_message_s_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_s_nformat(buf + offset, OSC_STRFMT_ROOM(n, offset), m, nindent);
 			if(osc_bndl_it_s_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), ",\n");
 			}
 		}
 	}
@@ -681,8 +682,8 @@ long osc_bundle_s_nformatNestedBndl(char *buf, long n, long bndllen, char *bndl,
 		offset += osc_bundle_s_nformat(NULL, 0, bndllen, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += osc_bundle_s_nformat(buf + offset, n - offset, bndllen, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += osc_bundle_s_nformat(buf + offset, OSC_STRFMT_ROOM(n, offset), bndllen, bndl, nindent);
+		offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "\n%s}", tabs);
 	}
 	return offset;
 }
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 6292186..7be0fcd 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -25,6 +25,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <string.h>
 #include <inttypes.h>
 #include "osc.h"
+#include "osc_strfmt.h"
 #include "osc_mem.h"
 #include "osc_byteorder.h"
 #include "osc_match.h"
@@ -671,9 +672,9 @@ long osc_bundle_u_nformat(char *buf, long n, t_osc_bndl_u *bndl, int nindent)
 	}else{
 		while(osc_bndl_it_u_hasNext(it) && offset < n){
 			t_osc_msg_u *m = osc_bndl_it_u_next(it);
-			offset += osc_message_u_nformat(buf + offset, n - offset, m, nindent);
+			offset += osc_message_u_nformat(buf + offset, OSC_STRFMT_ROOM(n, offset), m, nindent);
 			if(osc_bndl_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ",\n");
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), ",\n");
 			}
 		}
 	}
@@ -698,9 +699,9 @@ long osc_bundle_u_nformatNestedBndl(char *buf, long n, t_osc_bndl_u *bndl, int n
 		offset += osc_bundle_u_nformat(NULL, 0, bndl, nindent);
 		offset += snprintf(NULL, 0, "\n%s}", tabs);
 	}else{
-		offset += snprintf(buf + offset, n - offset, "{\n");
-		offset += osc_bundle_u_nformat(buf + offset, n - offset, bndl, nindent);
-		offset += snprintf(buf + offset, n - offset, "\n%s}", tabs);
+		offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "{\n");
+		offset += osc_bundle_u_nformat(buf + offset, OSC_STRFMT_ROOM(n, offset), bndl, nindent);
+		offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "\n%s}", tabs);
 
 	}
 	return offset;
diff --git a/osc_message_s.c b/osc_message_s.c
index 55df42e..00ac2ed 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -30,6 +30,7 @@
 #include "osc_message_iterator_s.h"
 #include "osc_message_u.h"
 #include "osc_array.h"
+#include "osc_strfmt.h"
 #include "osc_mem.h"
 #include "osc_util.h"
 
@@ -344,27 +345,27 @@ long osc_message_s_nformat(char *buf, long n, t_osc_msg_s *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "%s%s : [", tabs, osc_message_s_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_s_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "%s%s : ", tabs, osc_message_s_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_s_getAddress(m));
+			offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "%s%s", tabs, osc_message_s_getAddress(m));
 		}
 		while(osc_msg_it_s_hasNext(it)){
 			//offset += snprintf(NULL, 0, " ");
 			t_osc_atom_s *a = osc_msg_it_s_next(it);
-			offset += osc_atom_s_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_s_nformat(buf + offset, OSC_STRFMT_ROOM(n, offset), a, nindent);
 			if(osc_msg_it_s_hasNext(it)){
 				//if(osc_atom_s_getTypetag(a) == OSC_BUNDLE_TYPETAG){
 				//offset += snprintf(buf + offset, n - offset, ",\n");
 				//}else{
-					offset += snprintf(buf + offset, n - offset, ", ");
+					offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), ", ");
 					//}
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "]");
 		}
 		//offset += snprintf(buf + offset, n - offset, "\n");
 	}
diff --git a/osc_message_u.c b/osc_message_u.c
index 95dbd90..b6cf2bf 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -30,6 +30,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc_atom_u.r"
 #include "osc_atom_array_u.h"
 #include "osc_message_iterator_u.h"
+#include "osc_strfmt.h"
 #include "osc_mem.h"
 #include "osc_byteorder.h"
 #include "osc_util.h"
@@ -1098,22 +1099,22 @@ long osc_message_u_nformat(char *buf, long n, t_osc_msg_u *m, int nindent)
 	}else{
 		if(numargs){
 			if(numargs > 1){
-				offset += snprintf(buf + offset, n - offset, "%s%s : [", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "%s%s : [", tabs, osc_message_u_getAddress(m));
 			}else{
-				offset += snprintf(buf + offset, n - offset, "%s%s : ", tabs, osc_message_u_getAddress(m));
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "%s%s : ", tabs, osc_message_u_getAddress(m));
 			}
 		}else{
-			offset += snprintf(buf + offset, n - offset, "%s%s", tabs, osc_message_u_getAddress(m));
+			offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "%s%s", tabs, osc_message_u_getAddress(m));
 		}
 		while(osc_msg_it_u_hasNext(it)){
 			t_osc_atom_u *a = osc_msg_it_u_next(it);
-			offset += osc_atom_u_nformat(buf + offset, n - offset, a, nindent);
+			offset += osc_atom_u_nformat(buf + offset, OSC_STRFMT_ROOM(n, offset), a, nindent);
 			if(osc_msg_it_u_hasNext(it)){
-				offset += snprintf(buf + offset, n - offset, ", ");
+				offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), ", ");
 			}
 		}		
 		if(numargs > 1){
-			offset += snprintf(buf + offset, n - offset, "]");
+			offset += snprintf(buf + offset, OSC_STRFMT_ROOM(n, offset), "]");
 		}
 	}
 	osc_msg_it_u_destroy(it);
diff --git a/osc_strfmt.h b/osc_strfmt.h
index 37fe9b2..6cb65bc 100644
--- a/osc_strfmt.h
+++ b/osc_strfmt.h
@@ -63,6 +63,9 @@ int osc_strfmt_timetag(char *buf, size_t n, t_osc_timetag t);
 
 int osc_strfmt_blob(char *buf, size_t n, char *blob);
 
+// what is left of a buffer of n bytes after offset bytes of text
+#define OSC_STRFMT_ROOM(n, offset) ((n) > (offset) ? (n) - (offset) : 0)
+
 int osc_strfmt_quotedString(char *buf, size_t n, char *str);
 int osc_strfmt_stringWithQuotedMeta(char *buf, size_t n, char *str);
 int osc_strfmt_quotedStringWithQuotedMeta(char *buf, size_t n, char *str);
-- 
2.43.0


From f392ed988d2ae6a9e9cc077231d3ad138c00b170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:31 +0000
Subject: [PATCH 67/94] fix: setting an atom to no string leaves no value of
 another type behind

---
 osc_atom_u.c | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 88e3385..1634b50 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1129,15 +1129,10 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 	if(!a){
 		return;
 	}
-	if(a->w.s && a->typetag == 's' && a->alloc){
-		if(v){
-			long len = strlen(v) + 1;
-			a->w.s = osc_mem_resize(a->w.s, len);
-			strncpy(a->w.s, v, len);
-		}else{
-			osc_mem_free(a->w.s);
-			a->w.s = NULL;
-		}
+	if(a->w.s && a->typetag == 's' && a->alloc && v){
+		long len = strlen(v) + 1;
+		a->w.s = osc_mem_resize(a->w.s, len);
+		strncpy(a->w.s, v, len);
 	}else{
 		osc_atom_u_clear(a);
 		if(v){
@@ -1147,6 +1142,7 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 			a->alloc = 1;
 		}else{
 			a->w.s = NULL;
+			a->typetag = '\0'; // there is no value anymore
 		}
 	}
 }
-- 
2.43.0


From 892f384b6116ae40b14fc52ecc3e9bea869f7eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:36 +0000
Subject: [PATCH 68/94] fix: reading a timetag from no atom gives none

---
 osc_atom_s.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 7fbd797..160327b 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -702,6 +702,9 @@ t_osc_bndl_s *osc_atom_s_getBndlCopy(t_osc_atom_s *a)
 
 t_osc_timetag osc_atom_s_getTimetag(t_osc_atom_s *a)
 {
+	if(!a){
+		return OSC_TIMETAG_NULL;
+	}
 	switch(a->typetag){
 	case OSC_TIMETAG_TYPETAG:
 		//return *((t_osc_timetag *)a->data);
-- 
2.43.0


From 8e2d2844858e654c13738ef177e8d8d81d3f2743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:37 +0000
Subject: [PATCH 69/94] fix: a malformed pattern is not a partial match of
 every address

---
 osc_bundle_s.c | 6 +++---
 osc_bundle_u.c | 6 +++---
 osc_match.h    | 5 +++++
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 81f220b..6916d0d 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -191,7 +191,7 @@ t_osc_err osc_bundle_s_addressIsBound(long len, char *buf, char *address, int fu
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || OSC_MATCH_ISERROR(r) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + size;
 				continue;
 			}
@@ -226,7 +226,7 @@ t_osc_err osc_bundle_s_addressExists(long len, char *buf, char *address, int ful
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || OSC_MATCH_ISERROR(r) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				msg += 4 + ntoh32(*((int32_t *)msg));
 				continue;
 			}
@@ -257,7 +257,7 @@ t_osc_msg_ar_s *osc_bundle_s_lookupAddress(long len, char *buf, const char *addr
 				goto cont;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || OSC_MATCH_ISERROR(r) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				goto cont;
 			}
 		}
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 7be0fcd..9e316f8 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -149,7 +149,7 @@ t_osc_err osc_bundle_u_addressExists(t_osc_bndl_u *bndl, char *address, int full
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || OSC_MATCH_ISERROR(r) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
@@ -177,7 +177,7 @@ t_osc_err osc_bundle_u_addressIsBound(t_osc_bndl_u *bndl, char *address, int ful
                 continue;
             }
         }else{
-            if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+            if(r == 0 || OSC_MATCH_ISERROR(r) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
                 continue;
             }
         }
@@ -237,7 +237,7 @@ t_osc_msg_ar_u *osc_bundle_u_lookupAddress(t_osc_bndl_u *bndl, const char *addre
 				continue;
 			}
 		}else{
-			if(r == 0 || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
+			if(r == 0 || OSC_MATCH_ISERROR(r) || (((r & OSC_MATCH_PATTERN_COMPLETE) == 0) && address[po] != '/')){
 				continue;
 			}
 		}
diff --git a/osc_match.h b/osc_match.h
index a1c0fca..1b6e88f 100644
--- a/osc_match.h
+++ b/osc_match.h
@@ -71,6 +71,11 @@ typedef struct _osc_callback {
 #define OSC_MATCH_ERROR_INVALID_CHARACTER_RANGE 0x700
 #define OSC_MATCH_ERROR_BACKTRACK_LIMIT_EXCEEDED 0x800
 
+/**
+ * True if the return code of osc_match() is one of the errors above, i.e. nothing was matched
+ */
+#define OSC_MATCH_ISERROR(r) ((r) >= 0x100)
+
 const char const *osc_match_errstr(unsigned long e);
 
 /**
-- 
2.43.0


From 357e8ff11c55c706f64060b216e320204350e75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:36 +0000
Subject: [PATCH 70/94] fix: bitand and bitor of two unsigned int8s gave a
 signed int8

---
 osc_expr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 1258799..3c4b6d5 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5491,7 +5491,7 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 & i2);
 		}
 		break;
 	}
@@ -5562,7 +5562,7 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		{
 			uint8_t i1 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[0], 0));
 			uint8_t i2 = osc_atom_u_getUInt8(osc_atom_array_u_get(argv[1], 0));
-			osc_atom_u_setInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
+			osc_atom_u_setUInt8(osc_atom_array_u_get(*out, 0), i1 | i2);
 		}
 		break;
 	}
-- 
2.43.0


From 919d40daaecb684316070d336f0743e877e6ae03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:38 +0000
Subject: [PATCH 71/94] fix: bitand and bitor gave a value without a type when
 a list held anything but integers after its first value

---
 osc_expr.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 3c4b6d5..4dfe543 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -5436,7 +5436,11 @@ int osc_expr_bitand(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-	char largest_type = osc_typetag_getLargestType(argc, argv);
+	// only the first value of each operand is used, so the others must not decide the type
+	char largest_type = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0));
+	if(osc_typetag_compare(largest_type, osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0))) < 0){
+		largest_type = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0));
+	}
 	switch(largest_type){
 	case 'i':
 		{
@@ -5507,7 +5511,11 @@ int osc_expr_bitor(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_a
 		return 1;
 	}
 	*out = osc_atom_array_u_alloc(1);
-	char largest_type = osc_typetag_getLargestType(argc, argv);
+	// only the first value of each operand is used, so the others must not decide the type
+	char largest_type = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[0], 0));
+	if(osc_typetag_compare(largest_type, osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0))) < 0){
+		largest_type = osc_atom_u_getTypetag(osc_atom_array_u_get(argv[1], 0));
+	}
 	switch(largest_type){
 	case 'i':
 		{
-- 
2.43.0


From 4c35f8cad164f2d716483fe5b7fb2e80a3ff9c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:39 +0000
Subject: [PATCH 72/94] fix: nextafter() was called without its second argument

---
 osc_expr_func.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/osc_expr_func.h b/osc_expr_func.h
index fe93657..48006fb 100644
--- a/osc_expr_func.h
+++ b/osc_expr_func.h
@@ -1249,16 +1249,16 @@ static struct _osc_expr_rec osc_expr_funcsym[] __attribute__((unused)) = {
 	 (void *)logb},
 	//////////////////////////////////////////////////
 	{"nextafter",
-	 "/result = nextafter($1)",
-	 1,
+	 "/result = nextafter($1, $2)",
+	 2,
 	 0,
-	 (char *[]){"x"},
-	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
+	 (char *[]){"x", "y"},
+	 (int []){OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR, OSC_EXPR_ARG_TYPE_NUM_LIST_ADDR},
 	 (char *[]){NULL},
 	 (int []){},
 	 (char *[]){"/math/constant", NULL},
 	 "Next representable double-precision floating-point number",
-	 osc_expr_1arg_dbl,
+	 osc_expr_2arg_dbl_dbl,
 	 (void *)nextafter},
 	//////////////////////////////////////////////////
 	{"remainder",
-- 
2.43.0


From 6442ea038174a1bda5df1cda6c36125bf5d7dc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:23 +0000
Subject: [PATCH 73/94] fix: a backslash ahead of an escaped quote ended a
 string of the expression language

---
 osc_expr_scanner.l | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index f45772b..9f62106 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -76,7 +76,7 @@ dfc       (({frac}{exp_opt}{fsuff_opt})|({dseq}{exp}{fsuff_opt}))
 hfc       (({hpref}{hfrac}{bexp}{fsuff_opt})|({hpref}{hdseq}{bexp}{fsuff_opt}))
 c99_floating_point_constant  ({dfc}|{hfc})
 
-quoted_string [^\"\\]
+quoted_string ([^\"\\]|\\[^\"])
 oscaddress \/[^\+\-\*%\^!=\[\]:;,\?<>\&\|\\\{\}\(\)\"\'` \n\t]+
 reserved_chars \+|-|\*|\/|%|^|!|=|\[|\]|:|;|\?|<|>|\&|\||\\|\{|\}|\(|\)
 
@@ -202,7 +202,7 @@ quote[[:space:]]*\( {
 	BEGIN(quote);
 }
 
-<quote>[^\"]+ { 
+<quote>({quoted_string}+\\?|\\) {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng + 1);
 		*buflen += yyleng + 1;
@@ -234,7 +234,7 @@ quote[[:space:]]*\( {
 	}
 }
 
-<quote>{quoted_string}*\\(.|\n) {
+<quote>{quoted_string}*\\\" {
 	if(*buf){
 		*buf = osc_mem_resize(*buf, *buflen + yyleng);
 		memcpy(*buf + *buflen, yytext, yyleng - 1);
-- 
2.43.0


From 266386ac450c8f9291de75dd110bafa02e7438f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:42 +0000
Subject: [PATCH 74/94] fix: tokenize() gave the comparison == as the
 assignment =

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4dfe543..4a9e334 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2031,7 +2031,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "!=";
 			break;
 		case OSC_EXPR_EQ:
-			st = "=";
+			st = "==";
 			break;
 		case OSC_EXPR_GTE:
 			st = ">=";
-- 
2.43.0


From 8039053d3c4b5381f3e9b9d088fddb7bc557dc64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:22 +0000
Subject: [PATCH 75/94] fix: tokenize() gave ??= as #, which the trigraph in
 its name stands for

---
 osc_expr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osc_expr.c b/osc_expr.c
index 4a9e334..faca7f9 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2016,7 +2016,7 @@ t_osc_err osc_expr_lex(char *str, t_osc_atom_array_u **ar){
 			st = "+=";
 			break;
 		case OSC_EXPR_DBLQMARKEQ:
-			st = "??=";
+			st = "?\?=";
 			break;
 		case OSC_EXPR_DBLQMARK:
 			st = "??";
-- 
2.43.0


From b6e6b45e7750b09d25b6ff27a2c84d16ad5fc123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:48 +0000
Subject: [PATCH 76/94] fix: keep error reports inside their buffer and out of
 the format string

---
 osc_error.c | 37 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 20 deletions(-)

diff --git a/osc_error.c b/osc_error.c
index 2034259..e8ecf83 100644
--- a/osc_error.c
+++ b/osc_error.c
@@ -49,31 +49,28 @@ int osc_error_handler(void *context,
 
 		// printf("%s context %p \n\tfilename %s \n\tfunctionname %s \n\tlinenum %d \n\terrorcode %d \n\tmoreinfo_fmt %s \n", __func__, context, filename, functionname, linenum, (int)errorcode, moreinfo_fmt );
         
-		int buflen = MAX_ERR_STRING_LEN;
-		char buf[buflen];
-		char *pos = buf;
-		if(filename){
-			pos += snprintf(pos, buflen, "%s:\n", filename);
+		char buf[MAX_ERR_STRING_LEN];
+		int buflen = sizeof(buf), pos = 0;
+		buf[0] = '\0';
+		if(filename && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%s:\n", filename);
 		}
-		if(functionname){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s(): ", functionname);
+		if(functionname && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%s(): ", functionname);
 		}
-		if(linenum > 0){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%d: ", linenum);
+		if(linenum > 0 && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%d: ", linenum);
 		}
-		if(errorcode){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s: \n", osc_error_string(errorcode));
+		if(errorcode && pos < buflen){
+			pos += snprintf(buf + pos, buflen - pos, "%s: \n", osc_error_string(errorcode));
 		}
-		if(moreinfo_fmt){
-			pos += snprintf(pos, (buflen - (pos - buf)), "%s", moreinfo_fmt);
+		if(moreinfo_fmt && pos < buflen){
+			va_list ap;
+			va_start(ap, moreinfo_fmt);
+			vsnprintf(buf + pos, buflen - pos, moreinfo_fmt, ap);
+			va_end(ap);
 		}
-		va_list ap;
-		va_start(ap, moreinfo_fmt);
-		char newbuf[buflen];
-		pos = newbuf;
-		pos += vsnprintf(newbuf, (buflen - (pos - newbuf)), buf, ap);
-		va_end(ap);
-		return _osc_error_handler(context, newbuf);
+		return _osc_error_handler(context, buf);
 	}
 	return 0;
 }
-- 
2.43.0


From ef6ffa7ff627de56f7fdd551ff3076d1019b69d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:00 +0000
Subject: [PATCH 77/94] fix: count the columns after quote() from its end when
 locating an error

---
 osc_expr_scanner.l | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_expr_scanner.l b/osc_expr_scanner.l
index 9f62106..46d8c7b 100644
--- a/osc_expr_scanner.l
+++ b/osc_expr_scanner.l
@@ -188,6 +188,7 @@ quote[[:space:]]*\( {
     }
 
 	yyless(end - start);
+	colnum = yylloc->last_column = yylloc->first_column + yyleng;
 	if(alloc_atom){
 		yylval->atom = osc_atom_u_alloc();
 	}
-- 
2.43.0


From daffa1ad75c95338a34ee9053e98bd90bde92bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:15 +0000
Subject: [PATCH 78/94] fix: report the unbound operand of && and ||

---
 osc_expr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/osc_expr.c b/osc_expr.c
index faca7f9..86a50fc 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2924,6 +2924,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
+		osc_expr_err_evalArg(context, ret, f->argv, "andalso");
 		return ret;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
@@ -2941,6 +2942,7 @@ static int osc_expr_specFunc_andalso(t_osc_expr *f,
 
 	ret = osc_expr_evalArgInLexEnv(f->argv->next, lexenv, len, oscbndl, &rhs, context);
 	if(!rhs || ret){
+		osc_expr_err_evalArg(context, ret, f->argv->next, "andalso");
 		goto out;
 	}
 	char rhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(rhs, 0));
@@ -2982,6 +2984,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 	t_osc_atom_ar_u *lhs = NULL, *rhs = NULL;
 	int ret = osc_expr_evalArgInLexEnv(f->argv, lexenv, len, oscbndl, &lhs, context);
 	if(!lhs || ret){
+		osc_expr_err_evalArg(context, ret, f->argv, "orelse");
 		return ret;
 	}
 	char lhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(lhs, 0));
@@ -2999,6 +3002,7 @@ static int osc_expr_specFunc_orelse(t_osc_expr *f,
 
 	ret = osc_expr_evalArgInLexEnv(f->argv->next, lexenv, len, oscbndl, &rhs, context);
 	if(!rhs || ret){
+		osc_expr_err_evalArg(context, ret, f->argv->next, "orelse");
 		goto out;
 	}
 	char rhstt = osc_atom_u_getTypetag(osc_atom_array_u_get(rhs, 0));
-- 
2.43.0


From 033e858c6f9b14d35191e8763043e9a1e5039420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:04 +0000
Subject: [PATCH 79/94] fix: copy the types of the arguments and the categories
 of a function record

---
 osc_expr_rec.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/osc_expr_rec.c b/osc_expr_rec.c
index 7d6d909..42132dc 100644
--- a/osc_expr_rec.c
+++ b/osc_expr_rec.c
@@ -1,5 +1,6 @@
 #include <string.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include "osc_expr_rec.r"
 #include "osc_expr_rec.h"
 #include "osc_expr.h"
@@ -32,7 +33,7 @@ void osc_expr_rec_free(t_osc_expr_rec *r, void **extra)
 		osc_mem_free(r->required_args_names);
 	}
 	if(r->optional_args_names){
-		for(int i = 0; i < r->num_optional_args; i++){
+		for(int i = 0; i < abs(r->num_optional_args); i++){
 			if(r->optional_args_names[i]){
 				osc_mem_free(r->optional_args_names[i]);
 			}
@@ -101,9 +102,12 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 		}
 	}
 	if(src->optional_args_names){
-		c->optional_args_names = (char **)osc_mem_alloc(src->num_optional_args * sizeof(char *));
-		for(int i = 0; i < src->num_optional_args; i++){
+		// a negative number of arguments stands for any number of them
+		int n = abs(src->num_optional_args);
+		c->optional_args_names = (char **)osc_mem_alloc(n * sizeof(char *));
+		for(int i = 0; i < n; i++){
 			if(!src->optional_args_names[i]){
+				c->optional_args_names[i] = NULL;
 				continue;
 			}
 			int len = strlen(src->optional_args_names[i]) + 1;
@@ -111,6 +115,19 @@ void osc_expr_rec_copy(t_osc_expr_rec **dest, t_osc_expr_rec *src, void (*copy_e
 			strncpy(c->optional_args_names[i], src->optional_args_names[i], len);
 		}
 	}
+	if(src->required_args_types){
+		c->required_args_types = (int *)osc_mem_alloc(src->num_required_args * sizeof(int));
+		memcpy(c->required_args_types, src->required_args_types, src->num_required_args * sizeof(int));
+	}
+	if(src->optional_args_types){
+		int n = abs(src->num_optional_args);
+		c->optional_args_types = (int *)osc_mem_alloc(n * sizeof(int));
+		for(int i = 0; i < n; i++){
+			// arguments without a name don't always have a type
+			c->optional_args_types[i] = src->optional_args_names && src->optional_args_names[i] ? src->optional_args_types[i] : 0;
+		}
+	}
+	c->categories = src->categories; // not owned, see osc_expr_rec_free()
 	c->num_required_args = src->num_required_args;
 	c->num_optional_args = src->num_optional_args;
 	c->func = src->func;
-- 
2.43.0


From 553dd4541edf84b19fd52062489a15a244a30f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:55 +0000
Subject: [PATCH 80/94] fix: pad the strings of serialised atoms

---
 osc_atom_s.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_atom_s.c b/osc_atom_s.c
index 160327b..f0d854d 100644
--- a/osc_atom_s.c
+++ b/osc_atom_s.c
@@ -28,6 +28,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include <math.h> // for floor() used in formatting floats
 #include "osc.h"
 #include "osc_mem.h"
+#include "osc_util.h"
 #include "osc_byteorder.h"
 #include "osc_atom_s.h"
 #include "osc_atom_s.r"
@@ -897,11 +898,13 @@ void osc_atom_s_setString(t_osc_atom_s *a, char *v)
 	if(!a){
 		return;
 	}
+	size_t n = osc_util_getPaddedStringLen(v);
 	if(a->data == NULL){
-		a->data = osc_mem_alloc(strlen(v) + 1);
+		a->data = osc_mem_alloc(n);
 	}
 	a->typetag = 's';
-	strcpy(a->data, v);
+	// the padding is a part of the data
+	strncpy(a->data, v, n);
 }
 
 void osc_atom_s_setTrue(t_osc_atom_s *a)
-- 
2.43.0


From ba022cd4ce1c5767e68ba6cec984ebb8f7aff626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:45 +0000
Subject: [PATCH 81/94] fix: remove messages from bundles too long for the
 stack

---
 osc_bundle_s.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 6916d0d..7bbe935 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -349,8 +349,10 @@ t_osc_err osc_bundle_s_wrapMessage(long len, char *msg, long *bndllen, char **bn
 
 t_osc_err osc_bundle_s_removeMessage(char *pattern, long *len, char *ptr, int fullmatch)
 {
-	char tmp[*len];
-	memset(tmp, '\0', *len);
+	char *tmp = osc_mem_alloc(*len); // a bundle can be too long for the stack
+	if(!tmp){
+		return OSC_ERR_OUTOFMEM;
+	}
 	char *p1 = tmp, *p2 = ptr + OSC_HEADER_SIZE, *p3 = ptr + OSC_HEADER_SIZE;
 	memcpy(p1, ptr, OSC_HEADER_SIZE);
 	p1 += OSC_HEADER_SIZE;
@@ -390,6 +392,7 @@ t_osc_err osc_bundle_s_removeMessage(char *pattern, long *len, char *ptr, int fu
 	}
 	memcpy(ptr, tmp, p1 - tmp);
 	*len = p1 - tmp;
+	osc_mem_free(tmp);
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From d82efb3e54c5f02605e7411db98c7ca61732f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:45 +0000
Subject: [PATCH 82/94] fix: explode and flatten long addresses without using
 up the stack

---
 osc_bundle_u.c  |  6 ++++--
 osc_message_u.c | 13 ++++++++++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 9e316f8..7a8bff0 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -461,7 +461,7 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 					t_osc_err e;
 					if(prefix){
 						int prefixlen = strlen(prefix) + strlen(osc_message_u_getAddress(mcopy)) + strlen(sep);
-						char pfx[prefixlen + 1];
+						char *pfx = osc_mem_alloc(prefixlen + 1);
 						sprintf(pfx, "%s%s%s", prefix, sep, osc_message_u_getAddress(mcopy));
 						e = osc_bundle_u_flatten_impl(dest,
 									      bu,
@@ -470,6 +470,7 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 									      pfx,
 									      sep,
 									      remove_enclosing_address_if_empty);
+						osc_mem_free(pfx);
 					}else{
 						e = osc_bundle_u_flatten_impl(dest,
 									      bu,
@@ -489,9 +490,10 @@ static t_osc_err osc_bundle_u_flatten_impl(t_osc_bndl_u **dest,
 		if(!remove_enclosing_address_if_empty || osc_message_u_getArgCount(mcopy) > 0){
 			if(prefix){
 				int newaddresslen = strlen(prefix) + strlen(osc_message_u_getAddress(mcopy)) + strlen(sep);
-				char newaddress[newaddresslen + 1];
+				char *newaddress = osc_mem_alloc(newaddresslen + 1);
 				sprintf(newaddress, "%s%s%s", prefix, sep, osc_message_u_getAddress(mcopy));
 				osc_message_u_setAddress(mcopy, newaddress);
+				osc_mem_free(newaddress);
 			}
 			osc_bundle_u_addMsgWithoutDups(*dest, mcopy);
 		}else{
diff --git a/osc_message_u.c b/osc_message_u.c
index b6cf2bf..f848ec0 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -865,7 +865,8 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			break;
 		}
 	}
-	char a1[alen + 1];
+	// the copies of the address live on the heap: there is one for every level
+	char *a1 = osc_mem_alloc(alen + 1);
 	strncpy(a1, a, i);
 	a1[i] = '\0';
 
@@ -874,6 +875,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 	if(exists){
 		if(a[i] == '\0'){
 			osc_bundle_u_addMsgWithoutDups(dest, msg);
+			osc_mem_free(a1);
 			return OSC_ERR_NONE;
 		}else{
 			t_osc_msg_ar_u *ar = osc_bundle_u_lookupAddress(dest, a1, 1);
@@ -881,6 +883,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 			t_osc_bndl_u *b = NULL;
 			osc_message_u_deepCopy(&m, osc_message_array_u_get(ar, 0));
 			osc_message_array_u_free(ar);
+			osc_mem_free(a1);
 			int argc = osc_message_u_getArgCount(m);
 			if(argc > 1 || argc == 0){
 				osc_message_u_clearArgs(m);
@@ -904,7 +907,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 					osc_message_u_clearArgs(m);
 				}
 			}
-			char a2[alen + 1];
+			char *a2 = osc_mem_alloc(alen + 2);
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
@@ -916,6 +919,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
+			osc_mem_free(a2);
 			t_osc_err ret = osc_message_u_explode_impl(b, msg, level + 1, maxlevel, s);
 			if(ret){
 				return ret;
@@ -935,11 +939,13 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 	}else{
 		if(a[i] == '\0'){
 			osc_bundle_u_addMsg(dest, msg);
+			osc_mem_free(a1);
 		}else{
 			t_osc_bndl_u *b = osc_bundle_u_alloc();
 			t_osc_msg_u *m = osc_message_u_alloc();
 			osc_message_u_setAddress(m, a1);
-			char a2[alen + 1];
+			osc_mem_free(a1);
+			char *a2 = osc_mem_alloc(alen + 2);
 			if(a[i] == '/'){
 				strncpy(a2, a + i, (alen - i) + 1);
 			}else{
@@ -951,6 +957,7 @@ static t_osc_err osc_message_u_explode_impl(t_osc_bndl_u *dest, t_osc_msg_u *msg
 				}
 			}
 			osc_message_u_setAddress(msg, a2);
+			osc_mem_free(a2);
 			t_osc_err ret = osc_message_u_explode_impl(b, msg, level + 1, maxlevel, s);
 			if(ret){
 				return ret;
-- 
2.43.0


From 9f34e2a0376f168271cd59869fb84cf03664552e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:45 +0000
Subject: [PATCH 83/94] fix: sort, search and wrap lists too long for the stack

---
 osc_expr.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 86a50fc..7bc5c06 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -3907,7 +3907,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
     long n = osc_atom_array_u_getLen(argv[0]);
     
     *out = osc_atom_array_u_alloc(n);
-    t_sortIndexStruct sort_ar[n];
+    t_sortIndexStruct *sort_ar = osc_mem_alloc(n * sizeof(t_sortIndexStruct)); // a list can be too long for the stack
     
     for(int i = 0; i < n; i++)
     {
@@ -3924,6 +3924,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
         osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), sort_ar[i].index);
         osc_atom_u_free(sort_ar[i].a);
     }
+    osc_mem_free(sort_ar);
     
     return 0;
 }
@@ -3931,7 +3932,7 @@ int osc_expr_sortidx(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom_ar_u **out, void* context)
 {
 	long n = osc_atom_array_u_getLen(argv[0]);
-	long idxs[n];
+	long *idxs = osc_mem_alloc(n * sizeof(long));
 	long idxcount = 0;
 	for(int i = 0; i < n; i++){
 		t_osc_atom_u *a = osc_atom_array_u_get(argv[0], i);
@@ -3944,6 +3945,7 @@ int osc_expr_nonzero(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_atom
 	for(int i = 0; i < idxcount; i++){
 		osc_atom_u_setInt32(osc_atom_array_u_get(*out, i), idxs[i]);
 	}
+	osc_mem_free(idxs);
 	return 0;
 }
 
@@ -4627,8 +4629,8 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 		osc_error(context, OSC_ERR_INVAL, "quickhull(): requires at least three points");
 		return 0;
 	}
-	double xs[n];
-	double ys[n];
+	double *xs = osc_mem_alloc(n * sizeof(double));
+	double *ys = osc_mem_alloc(n * sizeof(double));
 	if(argc == 1){
 		for(int i = 0; i < n; i++){
 			xs[i] = osc_atom_u_getDouble(osc_atom_array_u_get(argv[0], i * 2));
@@ -4650,7 +4652,7 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 			maxx = i;
 		}
 	}
-	int hull[n];
+	int *hull = osc_mem_alloc(n * sizeof(int));
 	memset(hull, 0, n * sizeof(int));
 	int hulln = 0;
 	hulln = _osc_expr_quickhull(hulln, hull, minx, maxx, n, xs, ys, 1);
@@ -4665,6 +4667,9 @@ int osc_expr_quickhull(t_osc_expr *f, int argc, t_osc_atom_ar_u **argv, t_osc_at
 			j++;
 		}
 	}
+	osc_mem_free(xs);
+	osc_mem_free(ys);
+	osc_mem_free(hull);
 	return 0;
 }
 
-- 
2.43.0


From c193af32cf5447a02bb3ab6ec8d81fe3e95c943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:45 +0000
Subject: [PATCH 84/94] fix: join and compare values too long for the stack

---
 osc_expr.c | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/osc_expr.c b/osc_expr.c
index 7bc5c06..f76b933 100644
--- a/osc_expr.c
+++ b/osc_expr.c
@@ -2304,9 +2304,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 	if(tt1 == 's' && tt2 == 's'){
 		char *sp1 = osc_atom_u_getStringPtr(f1);
 		char *sp2 = osc_atom_u_getStringPtr(f2);
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1); // strings can be too long for the stack
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 	}else if(tt1 == 's' && OSC_TYPETAG_ISNUMERIC(tt2)){
 		char *sp1 = osc_atom_u_getStringPtr(f1);
 		char *sp2 = NULL;
@@ -2314,9 +2315,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(!sp2){
 			return 0;
 		}
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1); // strings can be too long for the stack
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 		osc_mem_free(sp2);
 	}else if(tt2 == 's' && OSC_TYPETAG_ISNUMERIC(tt1)){
 		char *sp2 = osc_atom_u_getStringPtr(f2);
@@ -2325,9 +2327,10 @@ int osc_expr_add(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(!sp1){
 			return 0;
 		}
-		char buf[strlen(sp1) + strlen(sp2) + 1];
+		char *buf = osc_mem_alloc(strlen(sp1) + strlen(sp2) + 1); // strings can be too long for the stack
 		sprintf(buf, "%s%s", sp1, sp2);
 		osc_atom_u_setString(*result, buf);
+		osc_mem_free(buf);
 		osc_mem_free(sp1);
 	}else if(tt1 == OSC_TIMETAG_TYPETAG || tt2 == OSC_TIMETAG_TYPETAG){
 		t_osc_timetag timetag1, timetag2;
@@ -2815,11 +2818,13 @@ int osc_expr_eq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void*
 		if(len1 != len2){
 			osc_atom_u_setBool(*result, 0);
 		}else{
-			char buf1[len1];
+			char *buf1 = osc_mem_alloc(len1);
 			osc_bundle_u_nserialize(buf1, len1, b1);
-			char buf2[len2];
+			char *buf2 = osc_mem_alloc(len2);
 			osc_bundle_u_nserialize(buf2, len2, b2);
 			long r = memcmp(buf1, buf2, len1);
+			osc_mem_free(buf1);
+			osc_mem_free(buf2);
 			osc_atom_u_setBool(*result, !r);
 		}
 	}else{
@@ -2864,11 +2869,13 @@ int osc_expr_neq(t_osc_atom_u *f1, t_osc_atom_u *f2, t_osc_atom_u **result, void
 		if(len1 != len2){
 			osc_atom_u_setBool(*result, 1);
 		}else{
-			char buf1[len1];
+			char *buf1 = osc_mem_alloc(len1);
 			osc_bundle_u_nserialize(buf1, len1, b1);
-			char buf2[len2];
+			char *buf2 = osc_mem_alloc(len2);
 			osc_bundle_u_nserialize(buf2, len2, b2);
 			long r = memcmp(buf1, buf2, len1);
+			osc_mem_free(buf1);
+			osc_mem_free(buf2);
 			osc_atom_u_setBool(*result, r);
 		}
 	}else{
@@ -7498,12 +7505,14 @@ void osc_expr_formatFunctionTable(long *buflen, char **buf)
 static void osc_expr_err_badInfixArg(void *context, char *func, char typetag, int argnum, t_osc_atom_u *left, t_osc_atom_u *right)
 {
 	long len = osc_atom_u_nformat(NULL, 0, left, 0);
-	char leftstr[len + 1];
+	char *leftstr = osc_mem_alloc(len + 1);
 	osc_atom_u_nformat(leftstr, len + 1, left, 0);
 	len = osc_atom_u_nformat(NULL, 0, right, 0);
-	char rightstr[len + 1];
+	char *rightstr = osc_mem_alloc(len + 1);
 	osc_atom_u_nformat(rightstr, len + 1, right, 0);
  	osc_error(context, OSC_ERR_EXPR_ARGCHK, "bad argument for expression %s %s %s. arg %d is a %s", leftstr, func, rightstr, argnum, osc_typetag_str(typetag));
+	osc_mem_free(leftstr);
+	osc_mem_free(rightstr);
 }
 
 static void osc_expr_err_unbound(void *context, char *address, char *func)
-- 
2.43.0


From edd154a17ea8b257a20a608ebb625a9f6ea19c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:16 +0000
Subject: [PATCH 85/94] fix: dispatch, query and report with texts and messages
 too long for the stack

---
 osc_dispatch.c      |  4 +++-
 osc_expr_parser.y   | 15 ++++++++++-----
 osc_legacy_parser.y | 12 ++++++++----
 osc_query.c         |  3 ++-
 4 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/osc_dispatch.c b/osc_dispatch.c
index bc78651..a0dc036 100644
--- a/osc_dispatch.c
+++ b/osc_dispatch.c
@@ -110,17 +110,19 @@ int osc_dispatch_msg(t_osc_msg_s *msg,
 	}else if(po > 0 && ((osc_message_s_getAddress(msg)[po] == '/') || star_at_end == 1)){
 		// partial match
 		if(strip_matched_portion_of_address){
-			char buf[osc_message_s_getSize(msg) + 4];
+			char *buf = osc_mem_alloc(osc_message_s_getSize(msg) + 4); // a message can be too long for the stack
 			char *address = osc_message_s_getAddress(msg);
 			// the part of the message's address that's left is the part of the pattern that's left
 			if(!osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
 				// nothing is left that could be an address
 				osc_bundle_s_appendMessage_b(partial_match, msg);
+				osc_mem_free(buf);
 				return 1;
 			}
 			char msg_s[osc_message_s_getStructSize()];
 			osc_message_s_wrap((t_osc_msg_s *)msg_s, buf);
 			osc_bundle_s_appendMessage_b(partial_match, (t_osc_msg_s *)msg_s);
+			osc_mem_free(buf);
 			//int msglen = osc_message_s_getLen(msg) + 4;
 			//char buf[msglen];
 
diff --git a/osc_expr_parser.y b/osc_expr_parser.y
index cd9b6fd..faba6a7 100644
--- a/osc_expr_parser.y
+++ b/osc_expr_parser.y
@@ -306,7 +306,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
     va_end(ap);
     
 	if(loclen || more_len){
-		char buf[loclen + more_len + 3];
+		char *buf = osc_mem_alloc(loclen + more_len + 3); // the text can be too long for the stack
 		char *ptr = buf;
 		if(loclen){
 			ptr += sprintf(ptr, "%s\n", loc);
@@ -322,6 +322,7 @@ void osc_expr_error(void *context, YYLTYPE *llocp,
 				  errorcode,
 				  "%s",
 				  buf);
+		osc_mem_free(buf);
 	}else{
 	  osc_error_handler(context,
 					__FILE__,//basename(__FILE__),
@@ -1287,33 +1288,37 @@ expr:
 	}
 // invalid constructs that result in errors
 	| OSC_EXPR_STRING OSC_EXPR_INC '=' arg {
-		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($1)) + 3);
 		sprintf(buf, "%s++", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($1);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_STRING OSC_EXPR_DEC '=' arg {
-		char buf[strlen(osc_atom_u_getStringPtr($1)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($1)) + 3);
 		sprintf(buf, "%s--", osc_atom_u_getStringPtr($1));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($1);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_INC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_INC {
-		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($2)) + 3);
 		sprintf(buf, "++%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($2);
 		osc_expr_arg_freeList($4);
 		YYABORT;
 	}
 	| OSC_EXPR_DEC OSC_EXPR_STRING '=' arg %prec OSC_EXPR_PREFIX_DEC {
-		char buf[strlen(osc_atom_u_getStringPtr($2)) + 3];
+		char *buf = osc_mem_alloc(strlen(osc_atom_u_getStringPtr($2)) + 3);
 		sprintf(buf, "--%s", osc_atom_u_getStringPtr($2));
 		osc_expr_parser_reportInvalidLvalError(context, &yylloc, input_string, buf);
+		osc_mem_free(buf);
 		osc_atom_u_free($2);
 		osc_expr_arg_freeList($4);
 		YYABORT;
diff --git a/osc_legacy_parser.y b/osc_legacy_parser.y
index 4145e81..63d82f2 100644
--- a/osc_legacy_parser.y
+++ b/osc_legacy_parser.y
@@ -344,10 +344,11 @@ arglist:
 			//}
 		PP("add BNDL to MSG %p := %p\n", *msg, (*bndl)->bndl);
 		long len = osc_bundle_u_nserialize(NULL, 0, (*bndl)->bndl);
-		char ptr[len];
+		char *ptr = osc_mem_alloc(len); // a bundle can be too long for the stack
 		osc_bundle_u_nserialize(ptr, len, (*bndl)->bndl);
 		if(ptr){
 			osc_message_u_appendBndl(*msg, len, ptr);
+			osc_mem_free(ptr);
 		}
 		PP("pop BNDL %p<-%p\n", (*bndl), (*bndl)->next);
 		t_osc_parser_bndl_list *b = (*bndl)->next;
@@ -364,10 +365,11 @@ arglist:
 			//}
 		PP("add BNDL to MSG %p := %p\n", *msg, (*bndl)->bndl);
 		long len = osc_bundle_u_nserialize(NULL, 0, (*bndl)->bndl);
-		char ptr[len];
+		char *ptr = osc_mem_alloc(len); // a bundle can be too long for the stack
 		osc_bundle_u_nserialize(ptr, len, (*bndl)->bndl);
 		if(ptr){
 			osc_message_u_appendBndl(*msg, len, ptr);
+			osc_mem_free(ptr);
 		}
 		PP("pop BNDL %p<-%p\n", (*bndl), (*bndl)->next);
 		t_osc_parser_bndl_list *b = (*bndl)->next;
@@ -384,10 +386,11 @@ arglist:
 		}
 		PP("add BNDL to MSG %p := %p\n", *msg, (*bndl)->bndl);
 		long len = osc_bundle_u_nserialize(NULL, 0, (*bndl)->bndl);
-		char ptr[len];
+		char *ptr = osc_mem_alloc(len); // a bundle can be too long for the stack
 		osc_bundle_u_nserialize(ptr, len, (*bndl)->bndl);
 		if(ptr){
 			osc_message_u_appendBndl(*msg, len, ptr);
+			osc_mem_free(ptr);
 		}
 		PP("pop BNDL %p<-%p\n", (*bndl), (*bndl)->next);
 		t_osc_parser_bndl_list *b = (*bndl)->next;
@@ -404,10 +407,11 @@ arglist:
 		}
 		PP("add BNDL to MSG %p := %p\n", *msg, (*bndl)->bndl);
 		long len = osc_bundle_u_nserialize(NULL, 0, (*bndl)->bndl);
-		char ptr[len];
+		char *ptr = osc_mem_alloc(len); // a bundle can be too long for the stack
 		osc_bundle_u_nserialize(ptr, len, (*bndl)->bndl);
 		if(ptr){
 			osc_message_u_appendBndl(*msg, len, ptr);
+			osc_mem_free(ptr);
 		}
 		PP("pop BNDL %p<-%p\n", (*bndl), (*bndl)->next);
 		t_osc_parser_bndl_list *b = (*bndl)->next;
diff --git a/osc_query.c b/osc_query.c
index 7d6642f..f0dcd81 100644
--- a/osc_query.c
+++ b/osc_query.c
@@ -115,7 +115,7 @@ int osc_query_select_impl(int nselectors,
 			}else if(po > 0 && ((osc_message_s_getAddress(msg)[po] == '/') || star_at_end == 1)){
 				// partial match
 				if(strip_matched_portion_of_address){
-					char buf[osc_message_s_getSize(msg) + 4];
+					char *buf = osc_mem_alloc(osc_message_s_getSize(msg) + 4); // a message can be too long for the stack
 					char *address = osc_message_s_getAddress(msg);
 					if(osc_message_s_renameCopy(buf, msg, strlen(address) - po, address + po)){
 						char msg_s[osc_message_s_getStructSize()];
@@ -128,6 +128,7 @@ int osc_query_select_impl(int nselectors,
 						// nothing is left that could be an address
 						osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
 					}
+					osc_mem_free(buf);
 				}else{
 					//osc_bundle_s_appendMessage_b(partial_match, msg);
 					osc_rset_addPartialMatch(*rset, rec_selector ? rec_selector : selector, msg);
-- 
2.43.0


From f59ff0562629931bf4d6921e5a13709451d31e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:39:55 +0000
Subject: [PATCH 86/94] fix: what is cached of a message goes with its bytes

---
 osc_bundle_iterator_s.c | 21 ++++++++++++++++++---
 osc_message_s.c         | 16 ++++++++++++++++
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/osc_bundle_iterator_s.c b/osc_bundle_iterator_s.c
index 06d392b..cf28581 100644
--- a/osc_bundle_iterator_s.c
+++ b/osc_bundle_iterator_s.c
@@ -40,19 +40,34 @@ t_osc_bndl_it_s *osc_bundle_iterator_s_getIterator(long len, char *ptr)
 	}
 	it->len = len;
 	it->bndl = ptr;
+	osc_message_s_initMsg(&(it->msg));
 	osc_bundle_iterator_s_resetIterator(it);
 	return it;
 }
 
+static void osc_bundle_iterator_s_clearMsg(t_osc_bndl_it_s *it)
+{
+	if(it->msg.data_offset_cache){
+		osc_mem_free(it->msg.data_offset_cache);
+	}
+	if(it->msg.data_size_cache){
+		osc_mem_free(it->msg.data_size_cache);
+	}
+	osc_message_s_initMsg(&(it->msg));
+}
+
 void osc_bundle_iterator_s_destroyIterator(t_osc_bndl_it_s *it)
 {
+	if(it){
+		osc_bundle_iterator_s_clearMsg(it);
+	}
 	osc_mem_free(it);
 }
 
 void osc_bundle_iterator_s_resetIterator(t_osc_bndl_it_s *it)
 {
 	it->msgptr = it->bndl;
-	osc_message_s_initMsg(&(it->msg));
+	osc_bundle_iterator_s_clearMsg(it);
 	//osc_message_s_wrap(&(it->msg), it->bndl + OSC_HEADER_SIZE);
 }
 
@@ -70,7 +85,7 @@ t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 	if(it->msgptr - it->bndl < it->len){
 		it->msgptr += osc_message_s_getSize(&(it->msg)) + 4;
 	}else{
-		osc_message_s_initMsg(&(it->msg));
+		osc_bundle_iterator_s_clearMsg(it);
 		return &(it->msg);
 	}
 	if(it->msgptr - it->bndl < it->len){
@@ -80,7 +95,7 @@ t_osc_msg_s *osc_bundle_iterator_s_next(t_osc_bndl_it_s *it)
 		}
 		return &(it->msg);
 	}else{
-		osc_message_s_initMsg(&(it->msg));
+		osc_bundle_iterator_s_clearMsg(it);
 		return &(it->msg);
 	}
 }
diff --git a/osc_message_s.c b/osc_message_s.c
index 00ac2ed..33b1a48 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -84,7 +84,16 @@ void osc_message_s_copy(t_osc_msg_s **dest, t_osc_msg_s *src)
 	if(!(*dest)){
 		*dest = osc_message_s_alloc();
 	}
+	if(*dest == src){
+		return;
+	}
+	// the cache belongs to the object it was made for: dest keeps its own buffers, empty
+	t_osc_msg_s own = **dest;
 	**dest = *src;
+	(*dest)->cache_buf_size = own.cache_buf_size;
+	(*dest)->cache_size = 0;
+	(*dest)->data_offset_cache = own.data_offset_cache;
+	(*dest)->data_size_cache = own.data_size_cache;
 }
 
 t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
@@ -93,6 +102,7 @@ t_osc_err osc_message_s_wrap(t_osc_msg_s *m, char *bytes)
 		return OSC_ERR_NULLPTR;
 	}
 	int32_t len = ntoh32(*((int32_t *)bytes));
+	m->cache_size = 0; // whatever was cached was about other bytes
 	m->size = bytes;
 	char *address = m->address = bytes + 4;
 	/*
@@ -257,6 +267,12 @@ void osc_message_s_getArg(t_osc_msg_s *m, int n, t_osc_atom_s **atom){
 t_osc_err osc_message_s_cacheDataOffsets(t_osc_msg_s *m)
 {
 	int n = osc_message_s_getArgCount(m);
+	if(m->data_offset_cache){
+		osc_mem_free(m->data_offset_cache);
+	}
+	if(m->data_size_cache){
+		osc_mem_free(m->data_size_cache);
+	}
 	m->data_offset_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->data_size_cache = (int *)osc_mem_alloc(n * sizeof(int));
 	m->cache_buf_size = n;
-- 
2.43.0


From a7aaabb3ffb81fe86ff32de9f2b477ca927c3933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:02 +0000
Subject: [PATCH 87/94] fix: the arguments of a parsed message are linked both
 ways

---
 osc_atom_u.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 1634b50..4b6f3fa 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -162,6 +162,9 @@ void osc_atom_u_append(t_osc_atom_u *a1, t_osc_atom_u *a2)
 		a1 = a1->next;
 	}
 	a1->next = a2;
+	if(a2){
+		a2->prev = a1;
+	}
 }
 
 char osc_atom_u_getTypetag(t_osc_atom_u *a)
-- 
2.43.0


From 4985e2a1d19faab6da994b2dc9a0494729d385bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:47:00 +0000
Subject: [PATCH 88/94] fix: copying into a value or a message leaves it in its
 list

---
 osc_atom_u.c    | 4 +++-
 osc_message_u.c | 2 --
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 4b6f3fa..7adfc54 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -86,7 +86,9 @@ void osc_atom_u_copyInto(t_osc_atom_u **dest, t_osc_atom_u *src)
 	}else{
 		aa = osc_mem_alloc(sizeof(t_osc_atom_u));
 	}
-	aa->next = aa->prev = NULL;
+	// an atom that is part of a list stays there
+	aa->next = old.next;
+	aa->prev = old.prev;
 	aa->typetag = src->typetag;
 	aa->alloc = src->alloc;
 	switch(aa->typetag){
diff --git a/osc_message_u.c b/osc_message_u.c
index f848ec0..f483a0e 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -130,8 +130,6 @@ t_osc_err osc_message_u_deepCopy(t_osc_msg_u **dest, t_osc_msg_u *src)
 		osc_message_u_appendAtom(*dest, acpy);
 	}
 	osc_msg_it_u_destroy(it);
-	(*dest)->next = NULL;
-	(*dest)->prev = NULL;
 	return OSC_ERR_NONE;
 }
 
-- 
2.43.0


From 13ecf49157598490dfc0691bc0765654baac57c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:50:17 +0000
Subject: [PATCH 89/94] fix: set a value or an address from a part of what it
 holds

---
 osc_atom_u.c    | 28 +++++++++++++---------------
 osc_message_u.c |  2 +-
 2 files changed, 14 insertions(+), 16 deletions(-)

diff --git a/osc_atom_u.c b/osc_atom_u.c
index 7adfc54..183b4fb 100644
--- a/osc_atom_u.c
+++ b/osc_atom_u.c
@@ -1134,21 +1134,19 @@ void osc_atom_u_setString(t_osc_atom_u *a, const char *v)
 	if(!a){
 		return;
 	}
-	if(a->w.s && a->typetag == 's' && a->alloc && v){
-		long len = strlen(v) + 1;
-		a->w.s = osc_mem_resize(a->w.s, len);
-		strncpy(a->w.s, v, len);
+	char *copy = NULL;
+	if(v){
+		// v may be part of the string that a holds now
+		copy = osc_mem_alloc(strlen(v) + 1);
+		strcpy(copy, v);
+	}
+	osc_atom_u_clear(a);
+	a->w.s = copy;
+	if(copy){
+		a->typetag = 's';
+		a->alloc = 1;
 	}else{
-		osc_atom_u_clear(a);
-		if(v){
-			a->w.s = osc_mem_alloc(strlen(v) + 1);
-			strcpy(a->w.s, v);
-			a->typetag = 's';
-			a->alloc = 1;
-		}else{
-			a->w.s = NULL;
-			a->typetag = '\0'; // there is no value anymore
-		}
+		a->typetag = '\0'; // there is no value anymore
 	}
 }
 
@@ -1252,7 +1250,6 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	if(!a){
 		return;
 	}
-	osc_atom_u_clear(a);
 	int32_t l = ntoh32(*((int32_t *)blob));
 	int buflen = l + 1;
 	while(buflen % 4){
@@ -1261,6 +1258,7 @@ void osc_atom_u_setBlob(t_osc_atom_u *a, char *blob)
 	char *copy = osc_mem_alloc(buflen + 4);
 	memset(copy, '\0', buflen + 4);
 	memcpy(copy, blob, l + 4);
+	osc_atom_u_clear(a); // not before: blob may be the one that a holds now
 	a->w.b = copy;
 	a->typetag = 'b';
 	a->alloc = 1;
diff --git a/osc_message_u.c b/osc_message_u.c
index f483a0e..6fb8c07 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -190,7 +190,7 @@ t_osc_err osc_message_u_setAddress(t_osc_msg_u *m, const char *address)
 		if(len < newlen){
 			m->address = osc_mem_resize(m->address, newlen + 1);
 		}
-		strncpy(m->address, address, newlen + 1);
+		memmove(m->address, address, newlen + 1); // it may be the rest of the address it has now
 	}else{
 		char *buf = osc_mem_alloc(strlen(address) + 1);
 		strcpy(buf, address);
-- 
2.43.0


From 6cecc7135987aa5c9e4ebd6b6098419eb59e1381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:52:02 +0000
Subject: [PATCH 90/94] fix: append and remove messages given by the bundle
 itself

---
 osc_bundle_s.c | 7 ++++++-
 osc_bundle_u.c | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/osc_bundle_s.c b/osc_bundle_s.c
index 7bbe935..906ee7a 100644
--- a/osc_bundle_s.c
+++ b/osc_bundle_s.c
@@ -457,6 +457,11 @@ t_osc_err osc_bundle_s_appendMessage(long *len, char **bndl, t_osc_msg_s *msg){
 		return OSC_ERR_NONE;
 	}
 	int32_t msglen = osc_message_s_getSize(msg);
+	char *mp = osc_message_s_getPtr(msg);
+	long own = -1; // where the message is, if it is one of the bundle's, which may move
+	if(*bndl && mp >= *bndl && mp < *bndl + *len){
+		own = mp - *bndl;
+	}
 	char *tmp = NULL;
 	if(*bndl){
 		tmp = (char *)osc_mem_resize(*bndl, *len + msglen + 4);
@@ -475,7 +480,7 @@ t_osc_err osc_bundle_s_appendMessage(long *len, char **bndl, t_osc_msg_s *msg){
 		return OSC_ERR_OUTOFMEM;
 	}
 
-	memcpy(tmp + *len, osc_message_s_getPtr(msg), msglen + 4);
+	memcpy(tmp + *len, own < 0 ? mp : tmp + own, msglen + 4);
 	*len = *len + msglen + 4;
 	*bndl = tmp;
 	return OSC_ERR_NONE;
diff --git a/osc_bundle_u.c b/osc_bundle_u.c
index 7a8bff0..c7d636d 100644
--- a/osc_bundle_u.c
+++ b/osc_bundle_u.c
@@ -27,6 +27,7 @@ MAINTENANCE, SUPPORT, UPDATES, ENHANCEMENTS, OR MODIFICATIONS.
 #include "osc.h"
 #include "osc_strfmt.h"
 #include "osc_mem.h"
+#include "osc_util.h"
 #include "osc_byteorder.h"
 #include "osc_match.h"
 #include "osc_message_u.h"
@@ -414,15 +415,19 @@ t_osc_err osc_bundle_u_removeMsg(t_osc_bndl_u *bndl, t_osc_msg_u *m)
 void osc_bundle_u_removeMessage(t_osc_bndl_u * bndl, const char *address)
 {
     if(address){
+        // the address may be that of a message that goes
+        char *a = NULL;
+        osc_util_strdup(&a, (char *)address);
         t_osc_msg_u *m = bndl->msghead;
         while(m){
             t_osc_msg_u *next = m->next;
-            if(!strcmp(address, osc_message_u_getAddress(m))){
+            if(!strcmp(a, osc_message_u_getAddress(m))){
                 osc_bundle_u_removeMsg(bndl, m);
                 osc_message_u_free(m);
             }
             m = next;
         }
+        osc_mem_free(a);
     }
 }
 
-- 
2.43.0


From 4f56ca76c9a005c9685516024106de8487ae2af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:19 +0000
Subject: [PATCH 91/94] fix: a hash table entry can be removed by its own key

---
 osc_hashtab.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/osc_hashtab.c b/osc_hashtab.c
index 99f4e8d..7e88461 100644
--- a/osc_hashtab.c
+++ b/osc_hashtab.c
@@ -254,6 +254,7 @@ void osc_hashtab_remove(t_osc_hashtab *ht, int keylen, char *key, t_osc_hashtab_
 			}
 			ht->nentries--;
 			osc_mem_free(e);
+			return; // there is only one, and key may have gone with it
 		}else{
 			prev = e;
 		}
-- 
2.43.0


From de91a449401d3d34357642695fb6b092d464c3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:56:13 +0000
Subject: [PATCH 92/94] fix: copy an array into itself

---
 osc_array.c        | 3 ++-
 osc_atom_array_u.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/osc_array.c b/osc_array.c
index 3be8079..5780c58 100644
--- a/osc_array.c
+++ b/osc_array.c
@@ -115,7 +115,8 @@ t_osc_err osc_array_copyInto(t_osc_array **dest, t_osc_array *src, long offset)
 			}
 		}
 	}
-	memcpy((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
+	// an array can be copied into itself, at an offset
+	memmove((*dest)->ar + (offset * srcsize), src->ar, srclen_bytes);
 	return OSC_ERR_NONE;
 }
 
diff --git a/osc_atom_array_u.c b/osc_atom_array_u.c
index a76ce69..549a5d2 100644
--- a/osc_atom_array_u.c
+++ b/osc_atom_array_u.c
@@ -225,7 +225,8 @@ t_osc_err osc_atom_array_u_copyInto(t_osc_atom_array_u **dest, t_osc_atom_array_
 		osc_atom_array_u_resize(*dest, destlen);
 	}
 	int i;
-	for(i = 0; i < srclen; i++){
+	// from the end, as an array can be copied into itself at an offset
+	for(i = srclen - 1; i >= 0; i--){
 		t_osc_atom_u *s = osc_atom_array_u_get(src, i);
 		t_osc_atom_u *d = osc_atom_array_u_get(*dest, i + offset);
 		osc_atom_u_copyInto(&d, s);
-- 
2.43.0


From 20f4c02d9e3536c291e9b9280014d07bad69803f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:11:58 +0000
Subject: [PATCH 93/94] fix: what the messages of an array cache belongs to the
 array

---
 osc_message_s.c | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/osc_message_s.c b/osc_message_s.c
index 33b1a48..11db1f6 100644
--- a/osc_message_s.c
+++ b/osc_message_s.c
@@ -393,13 +393,30 @@ t_osc_message_array_s *osc_message_array_s_alloc(long len){
 	return (t_osc_message_array_s *)osc_array_allocWithSize(len, sizeof(t_osc_msg_s));
 }
 
+// frees what the messages from start on have cached
+static void osc_message_array_s_freeCaches(t_osc_message_array_s *ar, long start)
+{
+	long i, n = osc_message_array_s_getLen(ar);
+	for(i = start; i < n; i++){
+		t_osc_msg_s *m = osc_message_array_s_get(ar, i);
+		if(m->data_offset_cache){
+			osc_mem_free(m->data_offset_cache);
+		}
+		if(m->data_size_cache){
+			osc_mem_free(m->data_size_cache);
+		}
+	}
+}
+
 void osc_message_array_s_free(t_osc_message_array_s *ar)
 {
+	osc_message_array_s_freeCaches(ar, 0);
 	osc_array_free((t_osc_array *)ar);
 }
 
 void osc_message_array_s_clear(t_osc_message_array_s *ar)
 {
+	osc_message_array_s_freeCaches(ar, 0);
 	osc_array_clear((t_osc_array *)ar);
 }
 
@@ -415,10 +432,21 @@ long osc_message_array_s_getLen(t_osc_message_array_s *ar)
 
 t_osc_message_array_s *osc_message_array_s_copy(t_osc_message_array_s *ar)
 {
-	return (t_osc_message_array_s *)osc_array_copy((t_osc_array *)ar);
+	t_osc_message_array_s *copy = (t_osc_message_array_s *)osc_array_copy((t_osc_array *)ar);
+	// what is cached belongs to the messages of ar
+	long i, n = osc_message_array_s_getLen(copy);
+	for(i = 0; i < n; i++){
+		t_osc_msg_s *m = osc_message_array_s_get(copy, i);
+		m->cache_buf_size = 0;
+		m->cache_size = 0;
+		m->data_offset_cache = NULL;
+		m->data_size_cache = NULL;
+	}
+	return copy;
 }
 
 void osc_message_array_s_resize(t_osc_message_array_s *ar, long newlen)
 {
+	osc_message_array_s_freeCaches(ar, newlen);
 	osc_array_resize((t_osc_array *)ar, newlen);
 }
-- 
2.43.0


From 37a4e1dc57867b6b4fa48957b9d8acc041be561b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:16:45 +0000
Subject: [PATCH 94/94] fix: shrinking or clearing an array of messages frees
 what they held

---
 osc_message_u.c | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/osc_message_u.c b/osc_message_u.c
index 6fb8c07..872feec 100644
--- a/osc_message_u.c
+++ b/osc_message_u.c
@@ -1135,8 +1135,24 @@ t_osc_message_array_u *osc_message_array_u_alloc(long len)
 	return (t_osc_message_array_u *)ar;
 }
 
+// frees what the messages from start on hold
+static void osc_message_array_u_freeContents(t_osc_msg_ar_u *ar, long start)
+{
+	long i, n = osc_message_array_u_getLen(ar);
+	for(i = start; i < n; i++){
+		t_osc_msg_u *m = osc_message_array_u_get(ar, i);
+		if(m){
+			osc_message_u_clearArgs(m);
+			if(m->address){
+				osc_mem_free(m->address);
+			}
+		}
+	}
+}
+
 void osc_message_array_u_clear(t_osc_msg_ar_u *ar)
 {
+	osc_message_array_u_freeContents(ar, 0);
 	osc_array_clear((t_osc_array *)ar);
 }
 
@@ -1167,23 +1183,14 @@ t_osc_msg_ar_u *osc_message_array_u_copy(t_osc_msg_ar_u *ar)
 
 t_osc_err osc_message_array_u_resize(t_osc_msg_ar_u *ar, long newlen)
 {
+	osc_message_array_u_freeContents(ar, newlen);
 	return osc_array_resize((t_osc_array *)ar, newlen);
 }
 
 void osc_message_array_u_free(t_osc_msg_ar_u *ar)
 {
 	if(ar){
-		int i;
-		int n = osc_message_array_u_getLen(ar);
-		for(i = 0; i < n; i++){
-			t_osc_msg_u *m = osc_message_array_u_get(ar, i);
-			if(m){
-				osc_message_u_clearArgs(m);
-				if(m->address){
-					osc_mem_free(m->address);
-				}
-			}
-		}
+		osc_message_array_u_freeContents(ar, 0);
 		osc_array_free((t_osc_array *)ar);
 	}
 }
-- 
2.43.0

