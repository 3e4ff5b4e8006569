From bad01cbc4fe29cfa261ae6bafa705ee5efa3f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:49 +0000
Subject: [PATCH 01/53] fix: undo variable renaming when a rebuilt given clause
 is dropped

wr_process_given_cl returned without clearing the varstack when the rebuilt
clause evaluated to true/false, so the stale bindings merged distinct variables
of the next input clause and provable problems were reported as not proved.
---
 Reasoner/rgenloop.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 858e380..2f77330 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -595,6 +595,7 @@ gptr wr_process_given_cl(glb* g, gptr given_cl_cand, gptr buf) {
 #endif   
   if (g->endgame_mode) (g->build_rewrite)=0; 
   given_cl=wr_build_calc_cl(g,given_cl_cand);
+  wr_process_given_cl_cleanupsubst(g); // always undo the renaming, also if the clause is dropped below
   if (!given_cl) return NULL;
 #ifdef DEBUG
   wr_printf("\nwr_process_given_cl got a given_cl \n");
@@ -621,8 +622,6 @@ gptr wr_process_given_cl(glb* g, gptr given_cl_cand, gptr buf) {
   
   // -- check 3 ends --
 
-  wr_process_given_cl_cleanupsubst(g);
-  if (given_cl==NULL) return NULL; // could be memory err  
   //wr_print_varbank(g,g->varbanks);
 #ifdef DEBUG
   wr_printf("\nrebuilt as \n");
@@ -656,7 +655,6 @@ gptr wr_add_given_cl_active_list(glb* g, gptr given_cl, gptr given_cl_metablock,
 #endif          
   wr_process_given_cl_setupsubst(g,build_buffer,2,0); 
   active_cl=wr_build_calc_cl(g,given_cl);
-  if (!active_cl) return NULL;
   wr_process_given_cl_cleanupsubst(g); 
   if (active_cl==NULL) return NULL; // could be memory err
 #ifdef DEBUG
-- 
2.43.0


From 7b661d4ddb6fbc2284ce635a6f0d50e1760f1250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:52:50 +0000
Subject: [PATCH 02/53] fix: write out an attached knowledge base without
 locking the read-only segment

---
 Main/gkc.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index b33b20c..a427fc5 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -730,7 +730,6 @@ int gkc_main(int argc, char **argv) {
 
   if (!(strncmp(cmdstr,"-writekb",15))) {
      wg_int err;
-     int flags = 0;
 
     if (cmdfileslen<2) {
       err_printf(json,"-writekb needs a file as an argument");
@@ -742,11 +741,9 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
-    /* Locking is handled internally by the dbdump.c functions */
-    if(flags & FLAGS_FORCE)
-      err = wg_dump_internal(shmptr,cmdfiles[1], 0);
-    else
-      err = wg_dump(shmptr,cmdfiles[1]);
+    /* The existing kb is attached read-only and never changes after it is
+       built: no locks are needed and taking one would write into it */
+    err = wg_dump_internal(shmptr,cmdfiles[1], 0);
 
     if(err<-1) {
       err_printf(json,"cannot write to file, kb may have"\
-- 
2.43.0


From 6a56f6236cad9d3956f1cc562fb5512447031c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 03/53] fix: do not write the error flag of an attached
 read-only knowledge base in the memory pool

---
 Db/dbmpool.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..be58622 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -1090,7 +1090,8 @@ static int show_mpool_error(void* db, char* errmsg) {
 #ifdef EXIT_ON_ERROR
   exit(1);
 #endif
-  dbmemsegh(db)->errflag=DB_MPOOL_ERROR;
+  if ((void*)(dbmemsegh(db))!=wg_attached_kb_segment) // never poison the attached kb
+    dbmemsegh(db)->errflag=DB_MPOOL_ERROR;
   return -1;
 }
 
@@ -1108,7 +1109,8 @@ static int show_mpool_error_nr(void* db, char* errmsg, int nr) {
 #ifdef EXIT_ON_ERROR
   exit(1);
 #endif
-  dbmemsegh(db)->errflag=DB_MPOOL_ERROR2;
+  if ((void*)(dbmemsegh(db))!=wg_attached_kb_segment) // never poison the attached kb
+    dbmemsegh(db)->errflag=DB_MPOOL_ERROR2;
   return -1;
 }
 
-- 
2.43.0


From b64eea965767fa607e1e9a4b050556fee0852dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:30 +0000
Subject: [PATCH 04/53] fix: registering a second contradiction no longer
 dereferences a null answer clause

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..55d8aac 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2548,6 +2548,8 @@ int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   wg_print_record(db,cl2);
   wr_printf("\n");
 #endif
+  // a contradiction without an answer literal is registered as NULL
+  if (cl1==NULL || cl2==NULL) return (cl1==cl2);
   // check fact clause cases first
   if (!wg_rec_is_rule_clause(db,cl1)) {
     if (!wg_rec_is_rule_clause(db,cl2)) {
-- 
2.43.0


From ff07ba5b1518bf996c09e2fbb446b63429841d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 05/53] fix: a constant never matches a compound term

Matching a constant (e.g. an integer stored as a record) against a compound
term fell through and decoded the constant as a record, crashing.
---
 Reasoner/unify.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..e27ca90 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // a constant matches only an equal constant
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // a constant matches only an equal constant
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -484,7 +486,7 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
   }   
   if (isvar(y)) return 1; // x is not var, y is var
   // x and y cannot be vars
-  if (!isdatarec(y)) return 2; // x is datarec but y is a const    
+  if (!isdatarec(x) || !isdatarec(y)) return 2; // at least one is a const, not equal    
   // now x and y are different datarecs
   if (1) {  
     db=g->db;
-- 
2.43.0


From 2664cabc09fa2b87a54cd84e1bf83bd3d2833c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:46 +0000
Subject: [PATCH 06/53] fix: comparing a compound term with a string never
 decodes the string as a term

The fast equality check compared only the last two tag bits, which a
compound term and a string share, and then read the string as a record.
---
 Reasoner/unify.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index e27ca90..d1b6749 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -954,6 +954,7 @@ gint wr_equal_term_macroaux(glb* g, gint x, gint y, int uniquestrflag) {
     if (wr_equal_ptr_primitives(g,x,y,uniquestrflag)) return 1;
     else return 0;          
   } else {  
+    if (!isdatarec(y)) return 0; // y may still be a string
     // both x and y are datarecs 
     db=g->db;
     xptr=decode_record(db,x);
-- 
2.43.0


From 34d0f370d2e8691df1600b93ed9205b5f64e39ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:05 +0000
Subject: [PATCH 07/53] fix: integer constants are not truncated to 32 bits
 when read or printed

p(4294967297) was stored as p(1), so it contradicted -p(1).
---
 Builtparser/dbparse.c  | 8 ++++----
 Db/dbutil.c            | 6 ++----
 Parser/dbparse.c       | 8 ++++----
 Printer/dbotterprint.c | 6 ++----
 4 files changed, 12 insertions(+), 16 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..a4ac8ae 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
@@ -1743,7 +1743,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
             //break;          
           }                   
           ret=wg_encode_var(db,intdata);
-          DPRINTF("var %d encoded ok\n",intdata);
+          DPRINTF("var %d encoded ok\n",(int)intdata);
         } else {
           ret=wg_encode_uri(db,str1,NULL);
         }
@@ -1827,7 +1827,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
           //break;          
         }                   
         ret=wg_encode_var(db,intdata);
-        DPRINTF("var %d encoded ok\n",intdata);       
+        DPRINTF("var %d encoded ok\n",(int)intdata);       
         break; 
       default: 
         ret=wg_encode_null(db,NULL);
@@ -1890,7 +1890,7 @@ int wg_parser_should_quote(char* s) {
  
 gint wr_parse_and_encode_otter_prim(glb* g, char *buf) {
   void* db=g->db;
-  int intdata;
+  gint intdata;
   double doubledata;
   gint encoded = WG_ILLEGAL, res;
   char c = buf[0];
diff --git a/Db/dbutil.c b/Db/dbutil.c
index e35a3f9..7247d55 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -249,8 +249,7 @@ void wg_snprint_value(void *db, gint enc, char *buf, int buflen) {
         snprint_record(db, (wg_int*)ptrdata, buf+len, buflen-len);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -357,8 +356,7 @@ static void snprint_value_csv(void *db, gint enc, char *buf, int buflen) {
       snprintf(buf, buflen, "\"<record offset %d>\"", intdata);
       break;
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      snprintf(buf, buflen, "%d", intdata);
+      snprintf(buf, buflen, "%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..a4ac8ae 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
@@ -1743,7 +1743,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
             //break;          
           }                   
           ret=wg_encode_var(db,intdata);
-          DPRINTF("var %d encoded ok\n",intdata);
+          DPRINTF("var %d encoded ok\n",(int)intdata);
         } else {
           ret=wg_encode_uri(db,str1,NULL);
         }
@@ -1827,7 +1827,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
           //break;          
         }                   
         ret=wg_encode_var(db,intdata);
-        DPRINTF("var %d encoded ok\n",intdata);       
+        DPRINTF("var %d encoded ok\n",(int)intdata);       
         break; 
       default: 
         ret=wg_encode_null(db,NULL);
@@ -1890,7 +1890,7 @@ int wg_parser_should_quote(char* s) {
  
 gint wr_parse_and_encode_otter_prim(glb* g, char *buf) {
   void* db=g->db;
-  int intdata;
+  gint intdata;
   double doubledata;
   gint encoded = WG_ILLEGAL, res;
   char c = buf[0];
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..16fea05 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -328,8 +328,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      printf("%d", intdata);
+      printf("%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -845,8 +844,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:            
-      intdata = wg_decode_int(db, enc);     
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%d", intdata);
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
       return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
-- 
2.43.0


From f08a224f70993920976554dceb0ba640c098d148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:38 +0000
Subject: [PATCH 08/53] fix: integer quotient and remainder functions follow
 TPTP and stay exact

$quotient_e rounded the wrong way (so $quotient_e(7,2) was 4), the _e and _f
remainders of negative numbers were those of truncating division, quotients
were computed in double precision, and remainders of reals dropped the
fraction.
---
 Reasoner/build.c | 70 +++++++++++++++++++++++++++++-------------------
 1 file changed, 43 insertions(+), 27 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..3a923f9 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -97,6 +97,30 @@ static int wr_double_to_gint_checked(double value,gint* result) {
   return 1;
 }
 
+/* Quotient and remainder as defined by TPTP for the _t (truncating), _f (floor)
+   and _e (nonnegative remainder) variants; b must not be zero and the
+   quotient must not overflow.
+*/
+
+static void wr_gint_divide(gint a,gint b,int comp,gint* quot,gint* rem) {
+  *quot=a/b;
+  *rem=a%b;
+  if (!*rem) return;
+  switch(comp) {
+    case COMP_FUN_QUOTIENT_E:
+    case COMP_FUN_REMAINDER_E:
+      if (*rem<0) {
+        if (b>0) { --*quot; *rem+=b; }
+        else { ++*quot; *rem-=b; }
+      }
+      break;
+    case COMP_FUN_QUOTIENT_F:
+    case COMP_FUN_REMAINDER_F:
+      if ((*rem<0)!=(b<0)) { --*quot; *rem+=b; }
+      break;
+  }
+}
+
 
 /* ====== Functions ============== */
 
@@ -1307,7 +1331,7 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
   gint len;
   gint a,b;
   gint atype, btype;
-  gint ai,bi,ri;
+  gint ai,bi,ri,quot,rem;
   double ad,bd,rd;
    
   //printf("wr_compute_fun_arith2 called\n");
@@ -1339,32 +1363,18 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         ri=ai / bi;
         break;  
       case COMP_FUN_QUOTIENT_E:
-        if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;  
       case COMP_FUN_QUOTIENT_T:
-        if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
-        break;   
       case COMP_FUN_QUOTIENT_F:
         if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (ai==(gint)INTPTR_MIN && bi==-1) return encode_record(db,tptr);
+        wr_gint_divide(ai,bi,comp,&ri,&rem);
         break;   
       case COMP_FUN_REMAINDER_E:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;  
       case COMP_FUN_REMAINDER_T:
-        if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
-        break;   
       case COMP_FUN_REMAINDER_F:
         if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (bi==-1) ri=0; // avoid overflow of the quotient
+        else wr_gint_divide(ai,bi,comp,&quot,&ri);
         break;      
       default:
         return encode_record(db,tptr);
@@ -1393,8 +1403,8 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break; 
       case COMP_FUN_QUOTIENT_E:       
         if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
+        if (bd<0) rd=ceil(ad/bd);
+        else rd=floor(ad/bd);
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);        
         break;  
@@ -1412,23 +1422,29 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break;  
       case COMP_FUN_REMAINDER_E:       
         if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
+            !wr_double_to_gint_checked(bd,&bi) || !bi ||
+            ad!=(double)ai || bd!=(double)bi)
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (bi==-1) ri=0;
+        else wr_gint_divide(ai,bi,comp,&quot,&ri);
         return wg_encode_int(g->local_db,ri);        
         break;  
       case COMP_FUN_REMAINDER_T:        
         if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
+            !wr_double_to_gint_checked(bd,&bi) || !bi ||
+            ad!=(double)ai || bd!=(double)bi)
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (bi==-1) ri=0;
+        else wr_gint_divide(ai,bi,comp,&quot,&ri);
         return wg_encode_int(g->local_db,ri);
         break;   
       case COMP_FUN_REMAINDER_F:
         if (!wr_double_to_gint_checked(ad,&ai) ||
-            !wr_double_to_gint_checked(bd,&bi) || !bi)
+            !wr_double_to_gint_checked(bd,&bi) || !bi ||
+            ad!=(double)ai || bd!=(double)bi)
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        if (bi==-1) ri=0;
+        else wr_gint_divide(ai,bi,comp,&quot,&ri);
         return wg_encode_int(g->local_db,ri);
         break;      
       default: 
-- 
2.43.0


From 917e1e0a14ca16d848377d4a6020ce4b44447533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:13 +0000
Subject: [PATCH 09/53] fix: $substr and $substrat compare whole distinct
 symbols only

$substrat compared a single character and read a third argument that may not
exist; both were evaluated for ordinary constants.
---
 Reasoner/build.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 3a923f9..6eb656c 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1476,6 +1476,8 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
   if(!as || !bs) return encode_record(db,tptr);
+  // only distinct symbols are strings
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   switch(comp) {
     case COMP_FUN_IS_SUBSTR: 
       tmp=strstr(bs,as);
@@ -1483,6 +1485,7 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       else return ACONST_TRUE;
       break;
     case COMP_FUN_IS_SUBSTRAT: 
+      if (len<(g->unify_firstuseterm)+4) return encode_record(db,tptr);
       c=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)+1];
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
@@ -1492,7 +1495,7 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       if (ci>len) return encode_record(db,tptr);      
       len2=strlen(as);
       if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From 39ffdc155855facf1ffdf0ad224b79b434b0037d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 10/53] fix: $is_list, $is_distinct, $is_map and $is_atom are
 evaluated as tests, not as list access

---
 Reasoner/build.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 6eb656c..f66d30a 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1125,12 +1125,12 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_TRUNCATE:
     case COMP_FUN_ROUND:
     case COMP_FUN_UMINUS:
-      res=wr_compute_fun_arith1(g,tptr,comp);
-      break;
     case COMP_FUN_IS_LIST:
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
-- 
2.43.0


From f398d47265e8cc7cd9314516603d610c791d8776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:39 +0000
Subject: [PATCH 11/53] fix: $lesseq and $greatereq hold for an integer and a
 real of the same value

---
 Reasoner/build.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index f66d30a..6dd6e1b 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1316,6 +1316,7 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
     else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+    if (ad==bd) return ifequal; // an integer and a real of the same value
     if (isless) {
       if (ad < bd) return ACONST_TRUE;
       else return ACONST_FALSE; 
-- 
2.43.0


From b8eef05f1131154c34a59cca58e396c9bc923dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:06 +0000
Subject: [PATCH 12/53] fix: arithmetic instance hints read arguments only when
 the term has them

---
 Reasoner/arithinst.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reasoner/arithinst.c b/Reasoner/arithinst.c
index d7b9cee..9d0d9f3 100644
--- a/Reasoner/arithinst.c
+++ b/Reasoner/arithinst.c
@@ -189,6 +189,7 @@ static int wr_arith_decode_number(glb* g,gint term,wr_arith_value* value) {
     gint arg,negated;
     wr_arith_value inner;
     if (wr_computable_termptr(g,ptr)!=COMP_FUN_UMINUS) return 0;
+    if (get_record_len(ptr)<(g->unify_firstuseterm)+2) return 0;
     arg=ptr[RECORD_HEADER_GINTS+g->unify_funarg1pos];
     if (!wr_arith_decode_number(g,arg,&inner)) return 0;
     if (inner.kind==WR_ARITH_VALUE_INT) {
@@ -322,6 +323,7 @@ static void wr_arith_add_frontier(glb* g,wr_arith_scan* scan,int comp,
 static void wr_arith_scan_comparison(glb* g,gptr ptr,wr_arith_scan* scan) {
   gint a,b;
   wr_arith_value value;
+  if (get_record_len(ptr)<(g->unify_firstuseterm)+3) return;
   a=ptr[RECORD_HEADER_GINTS+g->unify_funarg1pos];
   b=ptr[RECORD_HEADER_GINTS+g->unify_funarg2pos];
   if (wr_arith_decode_number(g,a,&value)) wr_arith_add_boundary(g,scan,&value);
@@ -367,6 +369,7 @@ static void wr_arith_inverse_expression(glb* g,gint expression,
   ptr=decode_record(g->db,expression);
   comp=wr_computable_termptr(g,ptr);
   if (comp!=COMP_FUN_PLUS && comp!=COMP_FUN_MINUS && comp!=COMP_FUN_MULT) return;
+  if (get_record_len(ptr)<(g->unify_firstuseterm)+3) return;
   wr_arith_collect_vars(g,expression,vars,&count,3,scan);
   if (count!=1) return;
   a=ptr[RECORD_HEADER_GINTS+g->unify_funarg1pos];
@@ -427,6 +430,7 @@ static void wr_arith_scan_equality_hints(glb* g,gint atom,wr_arith_scan* scan) {
   if (!isdatarec(atom)) return;
   ptr=decode_record(g->db,atom);
   if (wr_computable_termptr(g,ptr)!=COMP_FUN_EQUAL) return;
+  if (get_record_len(ptr)<(g->unify_firstuseterm)+3) return;
   a=ptr[RECORD_HEADER_GINTS+g->unify_funarg1pos];
   b=ptr[RECORD_HEADER_GINTS+g->unify_funarg2pos];
   if (wr_arith_decode_number(g,b,&target)) wr_arith_inverse_expression(g,a,&target,scan);
-- 
2.43.0


From d73e2b0deeae11d026f18aa61f69e29ec2d819cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 13/53] fix: keep literal positions with their parents in
 paramodulation-into and instgen proof steps

---
 Reasoner/derive.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 503af69..a5845a3 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -459,7 +459,7 @@ void wr_process_instgen_result
   if (rpos==0) {
     g->proof_found=1;   
     if (usexcl) g->proof_history=wr_build_instgen_history(g,xcl_as_active,ycl,cutpos1,cutpos2,NULL);
-    else g->proof_history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos2,cutpos1,NULL);
+    else g->proof_history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos1,cutpos2,NULL);
     wr_register_answer(g,NULL,g->proof_history);
     return;
   } 
@@ -499,7 +499,7 @@ void wr_process_instgen_result
     if (rpos==0) {
       g->proof_found=1;   
       if (usexcl) g->proof_history=wr_build_instgen_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
-      else g->proof_history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec); 
+      else g->proof_history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos1,cutpos2,g->cut_clvec); 
       wr_register_answer(g,NULL,g->proof_history);
       return;
     } 
@@ -518,7 +518,7 @@ void wr_process_instgen_result
   initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used    
   
   if (usexcl) history=wr_build_instgen_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
-  else history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec); 
+  else history=wr_build_instgen_history(g,ycl,xcl_as_active,cutpos1,cutpos2,g->cut_clvec); 
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
   if (!history || !res) {
     // allocation failed
@@ -942,7 +942,7 @@ void wr_process_paramodulate_result
       g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,NULL,path,leftflag,fromflag);
     } else {
       //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
-      g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos2,cutpos1,NULL,path,leftflag,fromflag);  
+      g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos1,cutpos2,NULL,path,leftflag,fromflag);  
     }   
     wr_register_answer(g,NULL,g->proof_history);
     //g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,NULL,path,leftflag,fromflag);
@@ -1021,7 +1021,7 @@ void wr_process_paramodulate_result
           g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);
         } else {
           //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
-          g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec,path,leftflag,fromflag);  
+          g->proof_history=wr_build_para_history(g,xcl,xcl_as_active,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);  
         }
         wr_register_answer(g,NULL,g->proof_history);
         //g->proof_history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag); 
@@ -1061,7 +1061,7 @@ void wr_process_paramodulate_result
     history=wr_build_para_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);
   } else {
     //printf("\n fromflag %d cutpos1 %d cutpos2 %d leftflag %d\n",fromflag,cutpos1,cutpos2,leftflag);
-    history=wr_build_para_history(g,xcl,xcl_as_active,cutpos2,cutpos1,g->cut_clvec,path,leftflag,fromflag);  
+    history=wr_build_para_history(g,xcl,xcl_as_active,cutpos1,cutpos2,g->cut_clvec,path,leftflag,fromflag);  
   }
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
   if (!history || !res) {
-- 
2.43.0


From e621239aa57b2b65a2518f44266ffae7ad3c7a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 14/53] fix: read literal positions above 15 from proof steps
 as they were stored

---
 Reasoner/history.c | 4 ++--
 Reasoner/history.h | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 55d8aac..e9c5810 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -709,11 +709,11 @@ int wr_get_history_extra(glb* g, gint head) {
 }
 
 int wr_get_history_pos1(glb* g, gint head) {
-  return (head>>WR_HISTORY_POS1_SHIFT)&WR_HISTORY_TAG_BITS;
+  return (head>>WR_HISTORY_POS1_SHIFT)&WR_HISTORY_POS_BITS;
 }
 
 int wr_get_history_pos2(glb* g, gint head) {
-  return head&WR_HISTORY_TAG_BITS;
+  return head&WR_HISTORY_POS_BITS;
 }
 
 
diff --git a/Reasoner/history.h b/Reasoner/history.h
index c5f05bb..9451e04 100644
--- a/Reasoner/history.h
+++ b/Reasoner/history.h
@@ -120,6 +120,7 @@ where
 #define WR_HISTORY_POS1_SHIFT 8
 #define WR_HISTORY_TAG_BITS 15
 #define WR_HISTORY_EXTRA_BITS 15
+#define WR_HISTORY_POS_BITS 255
 
 #define WR_HISTORY_USED_BIT_POS  8                // if this bit is set (after decoding!) cl is marked used / given
 #define WR_HISTORY_GOAL_ROLENR 1                  // original goal
-- 
2.43.0


From da18e53e3765e1498628b0aa211913b692c6d16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 15/53] fix: do not look up the propinst instantiation term as
 a parent clause in tptp proofs

---
 Reasoner/history.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index e9c5810..72b00fb 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2000,13 +2000,15 @@ int wr_strprint_one_history
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",'%d'",num);
       }
     } else for(i=pos1;i<len;i++) {
+      // the slot after the parent of propinst is the instantiation term, not a clause
+      if (tag==WR_HISTORY_TAG_PROPINST && i==HISTORY_PARENT2_POS) continue;
       cl1=wr_get_history_record_field(g,otp(db,history),i);
       tmp1=wg_get_assoc(db,(void *)cl1,*assoc);
       num=(int)(gint)(wg_nth(db,tmp1,2));      
       //snprintf(namebuf1,19,"'%d'",num);
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"'%d'",num);
       if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
-      if (i+1<len) {
+      if (i+1<len && !(tag==WR_HISTORY_TAG_PROPINST && i+1==HISTORY_PARENT2_POS && i+2==len)) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",");
       }
     }  
-- 
2.43.0


From c1f7a8b158962a7a7336fedb8fb02daeab2f16c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:43 +0000
Subject: [PATCH 16/53] fix: bracket merge, inst and extprop steps properly in
 json proofs

---
 Reasoner/history.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 72b00fb..2137097 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2161,7 +2161,8 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2200,7 +2201,8 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2208,7 +2210,7 @@ int wr_strprint_one_history
     } else if (tag==WR_HISTORY_TAG_EXTPROP) {    
     if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
     if (g->print_json) {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n[%s,%s [\"extprop\"], 0]",clns,orderbuf);       
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n[%s,%s [\"extprop\"], 0",clns,orderbuf);       
     } else if (g->print_clauses_tptp) {
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:%s [extprop] ($false)",clns,orderbuf);  
     } else {
-- 
2.43.0


From 8be5270fcaaf3891893eb87e56ce3a7be6364bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 17/53] fix: keep encoded atoms in full width when propagating
 a unit

---
 Reasoner/propagate.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reasoner/propagate.c b/Reasoner/propagate.c
index b596cfe..a01b50f 100644
--- a/Reasoner/propagate.c
+++ b/Reasoner/propagate.c
@@ -226,7 +226,8 @@ void wr_process_propagated_result
   gint cl_metablock[CLMETABLOCK_ELS];
   int size,depth,length;
 
-  int i,j, atom, meta;
+  int i,j;
+  gint atom, meta;
 
 #ifdef DEBUG
   wr_printf("\n+++ wr_process_propagated_result called\n");
-- 
2.43.0


From 64dec63f82c918e5e6fd7744efbd232ba2fb273b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:52 +0000
Subject: [PATCH 18/53] fix: store the propositional grounding into the vector
 as grown

---
 Reasoner/prop.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/prop.c b/Reasoner/prop.c
index df4e389..e2648d0 100644
--- a/Reasoner/prop.c
+++ b/Reasoner/prop.c
@@ -268,7 +268,7 @@ gint wr_make_get_propvar(glb* g, gint atom) {
     vecptr=rotp(g,g->prop_groundings);
     tmp=wr_cvec_store(g,vecptr,(propvar*2)+1,gconst);
     if (tmp==NULL) return 0;
-    wr_cvec_store(g,vecptr,(propvar*2),atom); // no need to check if succeeds
+    wr_cvec_store(g,tmp,(propvar*2),atom); // no need to check if succeeds
     if (vecptr!=tmp) (g->prop_groundings)=rpto(g,tmp);   
     // set atom/term pair
     return propvar;
-- 
2.43.0


From d3aec0b85e3a57c22f0c4446ccd73e2d87be37b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:36 +0000
Subject: [PATCH 19/53] fix: look up propositional values in the vector as
 grown by a new variable

---
 Reasoner/prop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reasoner/prop.c b/Reasoner/prop.c
index e2648d0..a1dd45d 100644
--- a/Reasoner/prop.c
+++ b/Reasoner/prop.c
@@ -100,7 +100,6 @@ int wr_cl_create_propinst(glb* g, gptr cl) {
   
   tmp_build_buffer=(g->build_buffer);
   (g->build_buffer)=(g->queue_termbuf);
-  varvals=rotp(g,g->prop_varvals);
   (g->cut_clvec)[1]=(gint)NULL;
   cuts=0;
   storepos=1;
@@ -122,6 +121,8 @@ int wr_cl_create_propinst(glb* g, gptr cl) {
       return -1;
     }
     abspropvar=propvar;
+    // a new propvar may have moved the vector
+    varvals=rotp(g,g->prop_varvals);
     value=varvals[(int)propvar];    
     if (negflag) { sign=0-1; propvar=0-propvar; }
     else { sign=1; }
-- 
2.43.0


From 7d31f988757caa6c48b9b545f0151bc8e2072ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:37 +0000
Subject: [PATCH 20/53] fix: store the history of an answer into the answer
 vector as grown

---
 Reasoner/history.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 2137097..2fc341c 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2496,7 +2496,7 @@ int wr_register_answer(glb* g, gptr cl, gint history) {
   if (hcopy==NULL) return -1;
   (g->answers)=wr_cvec_store(g,answers,count,(gint)cl);
   if (!(g->answers)) return -1;
-  (g->answers)=wr_cvec_store(g,answers,count+1,wg_encode_record(db,hcopy));
+  (g->answers)=wr_cvec_store(g,g->answers,count+1,wg_encode_record(db,hcopy));
   if (!(g->answers)) return -1;
   return (((g->answers)[1])-2)/2;
 }
-- 
2.43.0


From 982ad572d0150c3d922aa1fe58bf28687ad97f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 21/53] fix: make room for file names, strategy text and input
 names when writing a proof

---
 Reasoner/history.c | 48 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 2fc341c..93d2491 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1268,6 +1268,7 @@ int wr_show_result(glb* g, gint history) {
   gptr ans;
   char* buf;
   int ansnr, blen, bpos;
+  int filenamelen, guidetextlen;
   FILE* outfile; 
   int sleepi;
   gint sleept, coeff, limit_low, limit_high, usecs;
@@ -1308,7 +1309,12 @@ int wr_show_result(glb* g, gint history) {
   if (buf==NULL) {   
     return -1;
   }   
-  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+  // room for the result lines, where the file name and the strategy text have any length
+  filenamelen=0;
+  if (g->filename) filenamelen=strlen(g->filename);
+  guidetextlen=0;
+  if (g->guidetext) guidetextlen=strlen(g->guidetext);
+  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+400+2*filenamelen+guidetextlen)) {
     if (buf) wr_free(g,buf);
     return -1;
   }  
@@ -1397,6 +1403,10 @@ int wr_show_result(glb* g, gint history) {
   for(ansnr=2; ansnr<((g->answers)[1]); ansnr+=2) {
     // loop over all proofs 
     if (g->print_json) {
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+        if (buf) wr_free(g,buf);
+        return -1;
+      }
       bpos+=snprintf(buf+bpos,blen-bpos,"{\n");
     } else {
       //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
@@ -1438,6 +1448,11 @@ int wr_show_result(glb* g, gint history) {
       if (buf) wr_free(g,buf);
       return -1;
     }      
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+      if (buf) wr_free(g,buf);
+      if (mpool) wg_free_mpool(db,mpool);
+      return -1;
+    }
     if (!(g->print_json)) {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
     }  
@@ -1456,7 +1471,7 @@ int wr_show_result(glb* g, gint history) {
     }  
     assoc=wg_reverselist(db,mpool,assoc); 
     if (!(g->print_json)) {
-      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+filenamelen)) return -1;
 #ifdef TPTP  
       if (!(g->print_tptp)) {
         bpos+=snprintf(buf+bpos,blen-bpos,"proof:");
@@ -1512,6 +1527,10 @@ int wr_show_result(glb* g, gint history) {
 
     if (mpool) wg_free_mpool(db,mpool); 
   }
+  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+filenamelen)) {
+    if (buf) wr_free(g,buf);
+    return -1;
+  }
   if (g->print_json) {
     if (g->print_level_flag>9) {
       bpos+=snprintf(buf+bpos,blen-bpos,"]}\n"); // end all answers
@@ -1568,6 +1587,7 @@ int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpo
   
   //printf("\nwr_strprint_flat_history starts\n");
   namebuf[0]=0;
+  if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
   if (g->print_json) {
     bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\"proof\":\n[");
   }
@@ -1580,6 +1600,7 @@ int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpo
     skinputcount=0;
     bpos=wr_strprint_inputs(g,inputcount,inputs,&skinputcount,skinputs,buf,blen,bpos);   
     if (inputs) wr_free(g,inputs);
+    if (bpos<0) return bpos;
   }
   /*
   int i;
@@ -1600,10 +1621,11 @@ int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpo
       snprintf(namebuf,19,"%d",num);
       bpos=wr_strprint_one_history(g,mpool,buf,blen,bpos,history,rotp(g,cl),namebuf,maxclnr,assoc,
                                    skinputcount,skinputs);
+      if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
       if (g->print_json) { //&& wg_ispair(db,wg_rest(db,part))) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",");
       }
-      if (bpos<0) return bpos;
     }
   }
   //if (g->print_json) {
@@ -1696,6 +1718,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
   char* inputstr;
   int inpslen;
   int minlen;
+  int roleatomlen;
 
   // print inputs
   for(i=0;i<inputcount;i++) {
@@ -1717,6 +1740,11 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
           //printf("\n");
           tmpptr=wg_nth(child_db,frm,2);
           if (tmpptr) {
+            roleatomlen=0;
+            if (wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
+              roleatomlen=strlen(wg_atomstr1(child_db,tmpptr));
+            }
+            if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(inputstr)+roleatomlen)) return -1;
             if (g->print_proof_tptp) {              
               if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', axiom, ",inputstr);
@@ -1729,6 +1757,8 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
               } 
               //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
               bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+              if (bpos<0) return bpos;
+              if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  input). ");    
             } else {
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:",inputstr);    
@@ -1761,6 +1791,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 (*skinputcount)++;
               }  
               // print
+              if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(atomstr)+strlen(inputstr))) return -1;
               if (g->print_proof_tptp) {
                 if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
                   bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', plain, ",atomstr);
@@ -1773,6 +1804,8 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 } 
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
                 bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+                if (bpos<0) return bpos;
+                if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(inputstr))) return -1;
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
                   ",\n  inference(negpush_and_skolemize,[],['%s'])).",inputstr);    
               } else {
@@ -1929,6 +1962,7 @@ int wr_strprint_one_history
     if (!(g->print_proof_tptp)) {
       bpos=wr_strprint_clause(g,cl,buf,blen,bpos);  
       if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
       if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"]");
     }
     //else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
@@ -2046,8 +2080,11 @@ int wr_strprint_one_history
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", V%d=",var);
       bpos=wr_strprint_term_otter(g,value,g->print_clause_detaillevel,
                                   buf,blen,bpos);
+      if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
       if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"]");
     }
+    if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
     if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"]");
     for(i=0;i<cut_count;i++) {
       if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
@@ -2056,6 +2093,7 @@ int wr_strprint_one_history
       num=(int)(gint)(wg_nth(db,tmp1,2));
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", %d",num);
     }
+    if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
     if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
     else bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
     if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
@@ -2144,8 +2182,8 @@ int wr_strprint_one_history
       tmp1=wg_get_assoc(db,(void *)cl1,*assoc);
       num=(int)(gint)(wg_nth(db,tmp1,2));
       snprintf(namebuf1,19,"%d",num);
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(namebuf1))) return -1;
       if (i==1+HISTORY_DERIVATION_TAG_POS) {
-        if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(namebuf1))) return -1;
         if (g->print_json) {
           bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"[%s,%d,%d]",namebuf1,pos1,pos2);          
         } else {
@@ -2183,6 +2221,7 @@ int wr_strprint_one_history
         // instantiation term       
         bpos=wr_strprint_term_otter(g,cl1,(g->print_clause_detaillevel),buf,blen,bpos);               
         if (bpos<0) return bpos;
+        if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
       } else {
         tmp1=wg_get_assoc(db,(void *)cl1,*assoc);
         num=(int)(gint)(wg_nth(db,tmp1,2));
@@ -2369,6 +2408,7 @@ int wr_strprint_one_history
     if (bpos<0) return bpos;
       
   }
+  if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
   if (g->print_json) {
     bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"]");
   }
-- 
2.43.0


From 8797d44e81291ae38f06f737aded5a214de8aafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 22/53] fix: make room for doubled quotes, large doubles and
 separators when printing clauses

---
 Printer/dbotterprint.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 16fea05..794f4bf 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -451,6 +451,8 @@ int wr_strprint_clause(glb* g, gptr rec, char** buf, int *len, int pos) {
   if ((g->print_json) && !(g->print_clauses_json)) {
     pos+=snprintf((*buf)+pos,(*len)-pos,"\"");
     pos=wr_strprint_clause_otter(g,rec,(g->print_clause_detaillevel), buf, len, pos);
+    if (pos<0) return pos;
+    if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
     pos+=snprintf((*buf)+pos,(*len)-pos,"\"");
   } else {
     pos=wr_strprint_clause_otter(g,rec,(g->print_clause_detaillevel), buf, len, pos);
@@ -657,7 +659,7 @@ int wr_strprint_prop_clause_otter(glb* g, gint* rec,int printlevel, char** buf,
   } 
   clen = wg_count_prop_clause_atoms(db, rec);
   for(i=0; i<clen; i++) {
-    if (!wr_str_guarantee_space(g,buf,len,pos+20)) return -1;
+    if (!wr_str_guarantee_space(g,buf,len,pos+50)) return -1;
     if (i>0 && i<clen) {      
       if (g->print_clauses_json) {    
         pos+=snprintf((*buf)+pos,(*len)-pos,",");              
@@ -673,6 +675,7 @@ int wr_strprint_prop_clause_otter(glb* g, gint* rec,int printlevel, char** buf,
       pos+=snprintf((*buf)+pos,(*len)-pos,"%ld",var);       
     }
   }
+  if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
   if (g->print_clauses_json) {    
     pos+=snprintf((*buf)+pos,(*len)-pos,"]");            
   } else {    
@@ -773,7 +776,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
   }  
   for(i=0; i<clen; i++) {
     if (i<(g->unify_firstuseterm)) continue;
-    if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
+    if (!wr_str_guarantee_space(g,buf,len,pos+30)) return -1;
     if(i>((g->unify_firstuseterm)+1)) pos+=snprintf((*buf)+pos,(*len)-pos,",");
     enc = wg_get_field(db, recptr, i);    
     if (wg_get_encoded_type(db, enc)==WG_RECORDTYPE) {
@@ -847,6 +850,8 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
+      // a large double has over 300 digits
+      if (!wr_str_guarantee_space(g,buf,len,pos+400)) return -1;
       return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
     case WG_STRTYPE:
       strdata = wg_decode_str(db, enc);
@@ -871,7 +876,8 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       if (strdata) len1=strlen(strdata);
       if (exdata) len2=strlen(exdata);
       //printf("\nstrdata %s exdata %s\n",strdata,exdata);
-      if (!wr_str_guarantee_space(g,buf,len,pos+len1+len2+100)) return -1;
+      // quoting may double the length
+      if (!wr_str_guarantee_space(g,buf,len,pos+2*len1+2*len2+100)) return -1;
       if (exdata==NULL) {        
         if (g->print_clauses_json) {
           if (isneg) {          
@@ -1494,7 +1500,8 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
     //p2=wg_atomstr2(db,ptr); 
-    if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1; 
+    // quoting may double the length
+    if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
@@ -1767,6 +1774,8 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);        
+    // quoting may double the length
+    if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1; 
     switch (type) {    
       case WG_INTTYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
       case WG_DOUBLETYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
@@ -2115,7 +2124,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
     //p2=wg_atomstr2(db,ptr);  
-    if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+1000+(p ? 2*strlen(p) : 0))) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
-- 
2.43.0


From 80366b0b3e35ca5bac90175c88418ca530f7af4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 23/53] fix: make room for clause names when printing all
 clauses

---
 Reasoner/rmain.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..0a34362 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1722,6 +1722,11 @@ int wr_print_all_clauses(glb* g, void* child_db) {
       namestr=namebuf;
     }  
     //printf("\nnamebuf %s namestr %s nameflag %d enctype %ld\n",namebuf,namestr,nameflag,enctype);
+    // quoting may double the length of the name
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100+2*strlen(namestr))) {
+      if (buf) wr_free(g,buf);
+      return -1;
+    }
     objflag=0;
     if (g->print_json) {
       if ((nameflag && namestr[0]) && (decprior && decprior!=WR_HISTORY_AXIOM_ROLENR)) {        
@@ -1791,6 +1796,10 @@ int wr_print_all_clauses(glb* g, void* child_db) {
     } else {      
       bpos=wr_strprint_clause(g,rec,&buf,&blen,bpos);
       if (bpos<0) return -1;
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+        if (buf) wr_free(g,buf);
+        return -1;
+      }
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");  
     }  
     printf("%s",buf);
-- 
2.43.0


From 49eeaa9d57f7e1e512bbac4b3bea0b7b42048b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 24/53] fix: make room for formula names and roles when
 converting

---
 Builtparser/dbparse.c | 14 ++++++++++----
 Builtparser/jsparse.c |  3 +++
 Parser/dbparse.c      | 14 ++++++++++----
 Parser/jsparse.c      |  3 +++
 4 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index a4ac8ae..8570beb 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -465,7 +465,9 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
@@ -474,8 +476,9 @@ void* wr_preprocess_clauselist
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
+        // quoting may double the length of the name
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -532,7 +535,9 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
@@ -541,8 +546,9 @@ void* wr_preprocess_clauselist
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
+        // quoting may double the length of the name
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..cf0ef53 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1300,6 +1300,9 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     } else if (!strcmp(rolestr,"question")) {
       rolestr="negated_conjecture";
     }
+    if (!wr_str_guarantee_space(g,&(g->tmp_printbuf),&blen,bpos+100+strlen(namestr)+strlen(rolestr))) {
+      return NULL;
+    }
     if (namestr && wg_should_quote(namestr)) {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
     } else {
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index a4ac8ae..8570beb 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -465,7 +465,9 @@ void* wr_preprocess_clauselist
 */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
@@ -474,8 +476,9 @@ void* wr_preprocess_clauselist
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
+        // quoting may double the length of the name
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
@@ -532,7 +535,9 @@ void* wr_preprocess_clauselist
       */
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
-        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
+              strlen(wg_atomstr1(db,clname))+
+              strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
                        "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
@@ -541,8 +546,9 @@ void* wr_preprocess_clauselist
         printf("%s\n",(g->tmp_printbuf));
       } else if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->json)) {  
         bpos=0;
+        // quoting may double the length of the name
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,
-              strlen(wg_atomstr1(db,clname))+
+              2*strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
         if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..cf0ef53 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1300,6 +1300,9 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
     } else if (!strcmp(rolestr,"question")) {
       rolestr="negated_conjecture";
     }
+    if (!wr_str_guarantee_space(g,&(g->tmp_printbuf),&blen,bpos+100+strlen(namestr)+strlen(rolestr))) {
+      return NULL;
+    }
     if (namestr && wg_should_quote(namestr)) {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
     } else {
-- 
2.43.0


From 19647ca50eebb2b4fba6478195129d31be47f010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:17 +0000
Subject: [PATCH 25/53] fix: keep the value of large and small doubles read
 from input

---
 Db/dbmpool.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index be58622..0d463a8 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -723,12 +723,14 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* ptr;
   char* curptr;
   int size=2;
-  char buf[40];
+  char buf[400]; // a large double has over 300 digits
   int len1;
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%f",num)+1;
+  len1=snprintf(buf,398,"%f",num)+1;
+  // a value with more decimals than the default six is kept as it is
+  if (strtod(buf,NULL)!=num) len1=snprintf(buf,398,"%.17g",num)+1;
   str1=buf;
   size=size+len1;
   size++;  
-- 
2.43.0


From 3902c5058701cfbdca79d4f2b8b7a6586a039843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:03:38 +0000
Subject: [PATCH 26/53] fix: do not join a batch output path longer than its
 array

---
 Main/gkc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index a427fc5..c309213 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -1732,6 +1732,7 @@ int gkc_ltb_main(int argc, char **argv) {
         if (outnameptr[k]==' ') outnameptr++;
         else break;
       }
+      if (strlen(outfoldername)+strlen(outnameptr)>LTB_STRLEN-10) continue;
       *outfullname=0;
       strcat(outfullname,outfoldername); 
       strcat(outfullname,"/");
-- 
2.43.0


From 7f453b86bb5f762d8e1105b15c9bae98509b56b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 27/53] fix: end the file name and strategy text kept for a run
 when they are cut

---
 Reasoner/rmain.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 0a34362..2672923 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -537,7 +537,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
@@ -593,7 +594,8 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
+      (g->filename)[MAX_FILENAME_LEN-1]=0;
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1064,9 +1066,10 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     return -1; 
   }   
   if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
   else
-    strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
+    strncpy((g->filename),"input_text",MAX_FILENAME_LEN-1); 
+  (g->filename)[MAX_FILENAME_LEN-1]=0;
   if (outfilename) (g->outfilename)=outfilename;    
   (g->print_fof_conversion_proof)=0;
   (g->store_fof_skolem_steps)=0;   
-- 
2.43.0


From 797cef155233077b51e95c074a86f82a5c053468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:04 +0000
Subject: [PATCH 28/53] fix: end a long formula name when it is cut for naming
 a skolem step

---
 Builtparser/dbparse.c | 1 +
 Parser/dbparse.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 8570beb..819323d 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -949,6 +949,7 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
     if (name && wg_isatom(db,name)) {
       namestr=wg_atomstr1(db,name);
       strncpy(namebuf,namestr,900);
+      namebuf[900]=0;
       strncat(namebuf,SKOLEM_CLNAME_SUFFIX,900);
       skname=wg_mkatom(db,mpool,WG_URITYPE,namebuf, NULL);
     } else {
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 8570beb..819323d 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -949,6 +949,7 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
     if (name && wg_isatom(db,name)) {
       namestr=wg_atomstr1(db,name);
       strncpy(namebuf,namestr,900);
+      namebuf[900]=0;
       strncat(namebuf,SKOLEM_CLNAME_SUFFIX,900);
       skname=wg_mkatom(db,mpool,WG_URITYPE,namebuf, NULL);
     } else {
-- 
2.43.0


From ed7b91a4a8cf603d218f883c8ef02b9c5cd615e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:36 +0000
Subject: [PATCH 29/53] fix: start a run with an empty strategy text

---
 Reasoner/glb.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 68dda1b..1322b8e 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -118,6 +118,7 @@ int wr_glb_init_simple(glb* g) {
   //printf("\nwr_glb_init_simple called\n");
   (g->filename)=NULL;
   (g->outfilename)=NULL;
+  (g->guidetext)[0]=0;
   (g->proof_found)=0; // becomes 1 if proof found
   (g->proof_answer)=NULL; // becomes a ptr to pure answer clause
   (g->proof_history)=wg_encode_null(g->db,NULL); // becomes a gint encoding of the constructed history
-- 
2.43.0


From d7302cdd9c70c26efd4eda615c687c7625043122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:19 +0000
Subject: [PATCH 30/53] fix: ask for the room of a role name where it is
 printed

---
 Reasoner/history.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 93d2491..09314a4 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1718,7 +1718,6 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
   char* inputstr;
   int inpslen;
   int minlen;
-  int roleatomlen;
 
   // print inputs
   for(i=0;i<inputcount;i++) {
@@ -1740,16 +1739,14 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
           //printf("\n");
           tmpptr=wg_nth(child_db,frm,2);
           if (tmpptr) {
-            roleatomlen=0;
-            if (wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
-              roleatomlen=strlen(wg_atomstr1(child_db,tmpptr));
-            }
-            if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(inputstr)+roleatomlen)) return -1;
+            if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(inputstr))) return -1;
             if (g->print_proof_tptp) {              
               if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', axiom, ",inputstr);
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ",wg_atomstr1(child_db,tmpptr)); 
 
+                if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(inputstr)+
+                      strlen(wg_atomstr1(child_db,tmpptr)))) return -1;
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', %s, ",
                   inputstr,wg_atomstr1(child_db,tmpptr));
               } else {
@@ -1764,6 +1761,7 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:",inputstr);    
               if (bpos<0) return bpos;
               if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
+                if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(wg_atomstr1(child_db,tmpptr)))) return -1;
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ",wg_atomstr1(child_db,tmpptr)); 
               } else {
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ","input");
-- 
2.43.0


From e3851c3830c0c086a758406caa2fa8c430f20bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:58 +0000
Subject: [PATCH 31/53] fix: start a run with no propositional groundings

---
 Reasoner/glb.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 1322b8e..b4a5d8a 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -575,6 +575,7 @@ int wr_glb_init_shared_complex(glb* g) {
   (g->prop_hash_atoms)=(gint)NULL; 
   (g->prop_hash_clauses)=(gint)NULL;
   (g->prop_varvals)=(gint)NULL;
+  (g->prop_groundings)=(gint)NULL;
   (g->prop_clauses)=(gint)NULL;
   (g->prop_varval_clauses)=(gint)NULL;
 
@@ -707,6 +708,7 @@ int wr_glb_init_seq_shared_complex(glb* g) {
   (g->prop_hash_atoms)=(gint)NULL; 
   (g->prop_hash_clauses)=(gint)NULL;
   (g->prop_varvals)=(gint)NULL;
+  (g->prop_groundings)=(gint)NULL;
   (g->prop_clauses)=(gint)NULL;
   (g->prop_varval_clauses)=(gint)NULL;
   */
-- 
2.43.0


From 8200e208b09c47582dac8b1b3856109a76834af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 32/53] fix: put the allocation mode back as it was when an
 occurrence list cannot be made

---
 Reasoner/analyze.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/analyze.c b/Reasoner/analyze.c
index 0fdccd3..3c7baf9 100644
--- a/Reasoner/analyze.c
+++ b/Reasoner/analyze.c
@@ -345,7 +345,7 @@ int wr_analyze_clause(glb* g, gptr cl, int haveextdb) {
       occs=wr_cvec_new(g,INITIAL_SINE_OCCVECLEN);
       if (!occs) {
         printf("\nfailed to alloc occs cvec while analyzing clause\n");
-        (g->inkb)=1;
+        (g->inkb)=tmp;
         return 1;
       } else {
         //printf("\nbefore occs1 occs %ld occs[0] %ld occs[1] %ld rpto(g,cl) %ld\n",(gint)occs,occs[0],occs[1],rpto(g,cl));
-- 
2.43.0


From 9294009a8be80afc9ac5f32e54216d4f493e7f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:40 +0000
Subject: [PATCH 33/53] fix: free the shared tables in the mode they were made
 in

---
 Reasoner/init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/init.c b/Reasoner/init.c
index 9413093..3b1f4a1 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -158,9 +158,9 @@ int init_shared_database(void* db, char* guidefilename) {
   (g->inkb)=0; // temporarily pretend g is not inside the shared knowledge base 
   if (wr_glb_init_local_complex(g)) { // creates and fills in local tables, substructures, etc  
     wr_printf("\nerror: cannot init local complex datastructures\n");
-    wr_glb_free_shared_complex(g);
     wr_glb_free_local_complex(g); 
     (g->inkb)=1;  // restore: g is inside the shared knowledge base  
+    wr_glb_free_shared_complex(g);
     return -1;
   }
   (g->inkb)=1; // restore: g is inside the shared knowledge base 
-- 
2.43.0


From 01df668871dca03d0706710fc4260907801db231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 34/53] fix: put computing of functions back when an input
 cannot be read

---
 Builtparser/dbparse.c | 2 ++
 Builtparser/jsparse.c | 1 +
 Parser/dbparse.c      | 2 ++
 Parser/jsparse.c      | 1 +
 4 files changed, 6 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 819323d..de3c00d 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -190,6 +190,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->use_comp_funs)=tmp_comp_funs;
       return 1;
     }
     pp.db=db;
@@ -202,6 +203,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
     // input from string
     if (!strasfile) {
       db_err_printf2("empty string given as input",strasfile);
+      (g->use_comp_funs)=tmp_comp_funs;
       return 1;
     }  
     fnamestr="string";    
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index cf0ef53..e3bb72b 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -288,6 +288,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
       || !pp.jsonld_blanks) {
     wr_show_jsparse_error(g,&pp,
       "cannot initialize pp ctxt in wr_process_tptp_import_clause\n");
+    (g->use_comp_funs)=tmp_comp_funs;
     return 1;
   }
   if (strasfile==NULL) {  
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 819323d..de3c00d 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -190,6 +190,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->use_comp_funs)=tmp_comp_funs;
       return 1;
     }
     pp.db=db;
@@ -202,6 +203,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
     // input from string
     if (!strasfile) {
       db_err_printf2("empty string given as input",strasfile);
+      (g->use_comp_funs)=tmp_comp_funs;
       return 1;
     }  
     fnamestr="string";    
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index cf0ef53..e3bb72b 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -288,6 +288,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
       || !pp.jsonld_blanks) {
     wr_show_jsparse_error(g,&pp,
       "cannot initialize pp ctxt in wr_process_tptp_import_clause\n");
+    (g->use_comp_funs)=tmp_comp_funs;
     return 1;
   }
   if (strasfile==NULL) {  
-- 
2.43.0


From 2bbe5ad4b495b17b436e292d6e7006aa024d6a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:59 +0000
Subject: [PATCH 35/53] fix: put the build buffer back when a propositional
 clause cannot be kept

---
 Reasoner/prop.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/prop.c b/Reasoner/prop.c
index a1dd45d..9d0fd6c 100644
--- a/Reasoner/prop.c
+++ b/Reasoner/prop.c
@@ -210,7 +210,10 @@ int wr_cl_create_propinst(glb* g, gptr cl) {
   // store propclause
   vecptr=rotp(g,g->prop_clauses);
   tmp=wr_cvec_push(g,vecptr,rpto(g,rec));
-  if (tmp==NULL) return -1;
+  if (tmp==NULL) {
+    (g->build_buffer)=tmp_build_buffer;
+    return -1;
+  }
   if (vecptr!=tmp) (g->prop_clauses)=rpto(g,tmp);
   if (storepos==2) {
     // unit clause, store value and corresponding clause
-- 
2.43.0


From 352c87174e8f18640f14bd13811dad03514bc07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:52 +0000
Subject: [PATCH 36/53] fix: refuse a missing formula instead of using an
 undefined value for it

---
 Builtparser/dbotter.tab.c | 6 ++++++
 Parser/dbotter.y          | 3 ++-
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6b0c382..60d9c9d 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1614,6 +1614,12 @@ yyreduce:
 #line 1615 "Parser/dbotter.tab.c"
     break;
 
+  case 30:
+#line 154 "Parser/dbotter.y"
+                                      { yyerror(parm, scanner, "syntax error, formula expected");
+                                         YYABORT; }
+    break;
+
   case 31:
 #line 155 "Parser/dbotter.y"
                                       { yyval = MKWGPAIR(
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f5d443f..3dae707 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -151,7 +151,8 @@ log:       term                   { $$ = $1; }
 ;
 
 
-connlog:           
+connlog:   /* empty: not a formula */  { yyerror(parm, scanner, "syntax error, formula expected");
+                                         YYABORT; }
          | log '&' log    %prec '&'   { $$ = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
-- 
2.43.0


From f291bd895fe52042b833217e64eaf804f9735ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:50 +0000
Subject: [PATCH 37/53] fix: keep quoted names of any length when reading

---
 Builtparser/dbotter.yy.c | 51 +++++++++++++++++++++++++++-------------
 Parser/dbotter.l         | 51 +++++++++++++++++++++++++++-------------
 2 files changed, 70 insertions(+), 32 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..5c2566a 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -834,8 +834,27 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+/* text of a quoted name: as long as the name needs */
+static char *elmparsestrbuf=NULL;
+static size_t elmparsestrsize=0;
+static size_t elmparsestrlen=0;
+
+static void elmparsestr_add(char c) {
+  char *tmp;
+  size_t size;
+
+  if (elmparsestrlen>=elmparsestrsize) {
+    size=(elmparsestrsize ? 2*elmparsestrsize : 1024);
+    tmp=(char*)realloc(elmparsestrbuf,size);
+    if (tmp==NULL) {
+      fprintf(stderr,"out of memory while reading a quoted name\n");
+      exit(1);
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=size;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+}
 
 #line 841 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
@@ -1329,27 +1348,27 @@ YY_RULE_SETUP
 case 16:
 YY_RULE_SETUP
 #line 218 "Parser/dbotter.l"
-{ BEGIN STRSTATE; s = elmparsestrbuf; } 
+{ BEGIN STRSTATE; elmparsestrlen=0; } 
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
 #line 219 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
 #line 220 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
 #line 221 "Parser/dbotter.l"
-{ *s++ = '\"'; } 
+{ elmparsestr_add('\"'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
 #line 222 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
@@ -1359,7 +1378,7 @@ case 21:
 /* rule 21 can match eol */
 YY_RULE_SETUP
 #line 227 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
@@ -1368,32 +1387,32 @@ YY_RULE_SETUP
 case 22:
 YY_RULE_SETUP
 #line 232 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
 #line 235 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
+{ BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
 #line 236 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
 #line 237 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
 #line 238 "Parser/dbotter.l"
-{ *s++ = '\''; } 
+{ elmparsestr_add('\''); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
 #line 239 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+{ elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
@@ -1403,7 +1422,7 @@ case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
 #line 244 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
@@ -1412,7 +1431,7 @@ YY_RULE_SETUP
 case 29:
 YY_RULE_SETUP
 #line 249 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..1fdd5ba 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -97,8 +97,27 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+/* text of a quoted name: as long as the name needs */
+static char *elmparsestrbuf=NULL;
+static size_t elmparsestrsize=0;
+static size_t elmparsestrlen=0;
+
+static void elmparsestr_add(char c) {
+  char *tmp;
+  size_t size;
+
+  if (elmparsestrlen>=elmparsestrsize) {
+    size=(elmparsestrsize ? 2*elmparsestrsize : 1024);
+    tmp=(char*)realloc(elmparsestrbuf,size);
+    if (tmp==NULL) {
+      fprintf(stderr,"out of memory while reading a quoted name\n");
+      exit(1);
+    }
+    elmparsestrbuf=tmp;
+    elmparsestrsize=size;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+}
 
 %}
 
@@ -215,38 +234,38 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
+\"              { BEGIN STRSTATE; elmparsestrlen=0; } 
+<STRSTATE>\\n   { elmparsestr_add('\n'); } 
+<STRSTATE>\\t   { elmparsestr_add('\t'); } 
+<STRSTATE>\\\"  { elmparsestr_add('\"'); } 
+<STRSTATE>\"    { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { elmparsestr_add(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
+\'              { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
+<QUOTESTATE>\\n   { elmparsestr_add('\n'); } 
+<QUOTESTATE>\\t   { elmparsestr_add('\t'); } 
+<QUOTESTATE>\\\'  { elmparsestr_add('\''); } 
+<QUOTESTATE>\'    { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { elmparsestr_add(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From 29246fa0741ea6d5e638fd619437bd8cbf1665d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 38/53] fix: refuse an input when an included file or a part of
 it cannot be read

---
 Builtparser/dbparse.c |  6 ++++--
 Builtparser/jsparse.c | 17 ++++++++++++-----
 Parser/dbparse.c      |  6 ++++--
 Parser/jsparse.c      | 17 ++++++++++++-----
 4 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index de3c00d..ce993f0 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -190,6 +190,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->parse_errflag)=1;
       (g->use_comp_funs)=tmp_comp_funs;
       return 1;
     }
@@ -244,6 +245,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
     }  
     wr_free(g,pp.errmsg);
   }
+  if (pres) (g->parse_errflag)=1;
   if (!pres && pp.result!=NULL) { 
     if ((g->print_initial_parser_result)>0) {
       printf("\nOtter parser result:\n");    
@@ -280,11 +282,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
-  if (!pres && pres2==NULL && !(g->parse_errmsg)) {
+  if (!pres && pres2==NULL && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
   }
-  if (pres || pres2==NULL) return 1;
+  if (pres || pres2==NULL || (g->parse_errflag)) return 1;
   else return 0;
 }
 
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index e3bb72b..90bc2a8 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -194,7 +194,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* preprocessed=NULL;
   void* pres2=NULL;
   void *mpool;
-  int i,tmp_comp_funs;
+  int i,tmp_comp_funs,jres;
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -298,7 +298,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
+    jres=wr_yajl_parse_file(g,&pp,filename, 
       clvec, isincluded,
       askpolarity, askinfo, mpool, streaming);   
   } else {
@@ -310,14 +310,17 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    jres=wr_yajl_parse_string(g,&pp,strasfile);       
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
   wg_mpool_print(db,pp.result);
   printf("\n");
 #endif
-  if (pp.result!=NULL) {
+  if (jres) {
+    // error already shown: do not use the part which was read
+    (g->parse_errflag)=1;
+  } else if (pp.result!=NULL) {
     preprocessed=wr_preprocess_json_clauselist(g,&pp,clvec,pp.result,isincluded,streaming);
     //preprocessed=wr_clausify_clauselist(g,mpool,clvec,pp.result);
     if (!(dbmemsegh(db)->convert)) {
@@ -329,7 +332,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
-  if (pres2==NULL) return 1;
+  if (pres2==NULL || (g->parse_errflag)) return 1;
   else return 0;  
 }
 
@@ -655,6 +658,10 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
       if (!feof(file)) {
         json_err_printf2("error reading from",filename);
         //printf("\nerror reading from %s\n", filename);
+        if (line!=NULL) wr_free(g,line);
+        fclose(file);
+        yajl_free(hand);
+        return -1;
       } else {
         //endfound=1;
       }     
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index de3c00d..ce993f0 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -190,6 +190,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
       //if (g->print_flag)
       //printf("\ncould not open file %s\n",fnamestr);
       db_err_printf2("could not open file",fnamestr);
+      (g->parse_errflag)=1;
       (g->use_comp_funs)=tmp_comp_funs;
       return 1;
     }
@@ -244,6 +245,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
     }  
     wr_free(g,pp.errmsg);
   }
+  if (pres) (g->parse_errflag)=1;
   if (!pres && pp.result!=NULL) { 
     if ((g->print_initial_parser_result)>0) {
       printf("\nOtter parser result:\n");    
@@ -280,11 +282,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
-  if (!pres && pres2==NULL && !(g->parse_errmsg)) {
+  if (!pres && pres2==NULL && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
   }
-  if (pres || pres2==NULL) return 1;
+  if (pres || pres2==NULL || (g->parse_errflag)) return 1;
   else return 0;
 }
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index e3bb72b..90bc2a8 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -194,7 +194,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* preprocessed=NULL;
   void* pres2=NULL;
   void *mpool;
-  int i,tmp_comp_funs;
+  int i,tmp_comp_funs,jres;
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -298,7 +298,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
+    jres=wr_yajl_parse_file(g,&pp,filename, 
       clvec, isincluded,
       askpolarity, askinfo, mpool, streaming);   
   } else {
@@ -310,14 +310,17 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    jres=wr_yajl_parse_string(g,&pp,strasfile);       
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
   wg_mpool_print(db,pp.result);
   printf("\n");
 #endif
-  if (pp.result!=NULL) {
+  if (jres) {
+    // error already shown: do not use the part which was read
+    (g->parse_errflag)=1;
+  } else if (pp.result!=NULL) {
     preprocessed=wr_preprocess_json_clauselist(g,&pp,clvec,pp.result,isincluded,streaming);
     //preprocessed=wr_clausify_clauselist(g,mpool,clvec,pp.result);
     if (!(dbmemsegh(db)->convert)) {
@@ -329,7 +332,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
-  if (pres2==NULL) return 1;
+  if (pres2==NULL || (g->parse_errflag)) return 1;
   else return 0;  
 }
 
@@ -655,6 +658,10 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
       if (!feof(file)) {
         json_err_printf2("error reading from",filename);
         //printf("\nerror reading from %s\n", filename);
+        if (line!=NULL) wr_free(g,line);
+        fclose(file);
+        yajl_free(hand);
+        return -1;
       } else {
         //endfound=1;
       }     
-- 
2.43.0


From b09eaf09954bf4f15bf9af6de669027148818027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:43 +0000
Subject: [PATCH 39/53] fix: keep long parser error messages inside their
 buffer

---
 Builtparser/dbparse.c | 4 ++++
 Builtparser/jsparse.c | 4 ++++
 Parser/dbparse.c      | 4 ++++
 Parser/jsparse.c      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index ce993f0..1d67f9d 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -2067,10 +2067,14 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // a longer message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // a longer message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
   }  
 
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 90bc2a8..cb756bf 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3492,7 +3492,11 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  if (tmp1<0) tmp1=0;
+  if (tmp1>49) tmp1=49; // a longer name was cut
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // a longer message was cut
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index ce993f0..1d67f9d 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -2067,10 +2067,14 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   if (1) { //(g->print_json) {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // a longer message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
     tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+    if (tmp2<0) tmp2=0;
+    if (tmp2>799) tmp2=799; // a longer message was cut
     snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
   }  
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 90bc2a8..cb756bf 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3492,7 +3492,11 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   } else {
     tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
   }  
+  if (tmp1<0) tmp1=0;
+  if (tmp1>49) tmp1=49; // a longer name was cut
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // a longer message was cut
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
-- 
2.43.0


From 9b2a104ba219c6f257917dc6cf97e48b4eafd213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:48 +0000
Subject: [PATCH 40/53] fix: refuse a second top level json value instead of
 dropping the first

---
 Builtparser/jsparse.c | 35 ++++++++++++++++++++++++++++-------
 Parser/jsparse.c      | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 56 insertions(+), 14 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index cb756bf..34b5dc4 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -406,6 +406,15 @@ static void * yajlTestRealloc(void * ctx, void * ptr, size_t sz)
 
 //#define BUF_SIZE 2048
 
+/* store a value completed at the top level: a second one would replace the
+   first, hence cancel the parse instead */
+
+static int parse_yajl_top_value(parse_parm *pp, void *val) {
+  if ((pp->result)!=NULL) { (pp->nesterr)=2; return 0; }
+  (pp->result)=val;
+  return 1;
+}
+
 static int parse_yajl_null(void *ctx) {
   //int stringLen;
   //char* stringVal;
@@ -416,7 +425,7 @@ static int parse_yajl_null(void *ctx) {
   //stringLen=strlen(stringVal);
   if (!(pp->depth)) {
     //(pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
-    (pp->result)=pp->jsonnull;
+    return parse_yajl_top_value(pp,pp->jsonnull);
   } else {
     //(pp->nests)[(pp->depth)]=
     //  MKWGPAIR(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen),(pp->nests)[(pp->depth)]);
@@ -448,7 +457,7 @@ static int parse_yajl_boolean(void * ctx, int boolVal) {
   } 
   if (!(pp->depth)) {
     //(pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
-    (pp->result)=val;
+    return parse_yajl_top_value(pp,val);
   } else {
     //(pp->nests)[(pp->depth)]=
     //  MKWGPAIR(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen),(pp->nests)[(pp->depth)]);
@@ -463,7 +472,7 @@ static int parse_yajl_integer(void *ctx, long long integerVal) {
 
   //printf("integer: %lld\n", integerVal);
   if (!(pp->depth)) {
-    (pp->result)=MKWGINTDIRECT(pp, (gint)integerVal);       
+    return parse_yajl_top_value(pp,MKWGINTDIRECT(pp, (gint)integerVal));
   } else {
     (pp->nests)[(pp->depth)]=
       MKWGPAIR(pp,MKWGINTDIRECT(pp, (gint)integerVal),(pp->nests)[(pp->depth)]);
@@ -476,7 +485,7 @@ static int parse_yajl_double(void *ctx, double doubleVal) {
    
   //printf("double1: %f\n", doubleVal);
   if (!(pp->depth)) {
-    (pp->result)=MKWGDOUBLEDIRECT(pp, ((double)doubleVal)); 
+    return parse_yajl_top_value(pp,MKWGDOUBLEDIRECT(pp, ((double)doubleVal)));
     //(pp->result)=MKWGINTDIRECT(pp, (gint)doubleVal);      
   } else {
     (pp->nests)[(pp->depth)]=
@@ -492,7 +501,7 @@ static int parse_yajl_string(void *ctx, const unsigned char * stringVal,
   //printf("\nstringLen %ld stringVal |%s|\n",(gint)stringLen,stringVal); 
   //(pp->result)=MKWGSTRINGLEN(pp, stringVal, stringLen); 
   if (!(pp->depth)) {
-    (pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
+    return parse_yajl_top_value(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen));
   } else {
     (pp->nests)[(pp->depth)]=
       MKWGPAIR(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen),(pp->nests)[(pp->depth)]);
@@ -524,7 +533,7 @@ static int parse_yajl_end_array(void *ctx) {
       ((pp->nests)[(pp->depth)])=pp->jsonempty;
     } else {
       (pp->nests)[(pp->depth)]=wg_inplace_reverselist(pp->db,pp->mpool,(pp->nests)[(pp->depth)]);
-      (pp->result)=(pp->nests)[(pp->depth)];            
+      if (!parse_yajl_top_value(pp,(pp->nests)[(pp->depth)])) return 0;
     }  
   } else {  
     if ((pp->nests)[(pp->depth)]==NULL) {
@@ -572,7 +581,7 @@ static int parse_yajl_end_map(void *ctx) {
   //printf("\nmap close '}'\n");
   if (!((pp->depth)-1)) {
     (pp->nests)[(pp->depth)]=wg_inplace_reverselist(pp->db,pp->mpool,(pp->nests)[(pp->depth)]);
-    (pp->result)=(pp->nests)[(pp->depth)];  
+    if (!parse_yajl_top_value(pp,(pp->nests)[(pp->depth)])) return 0;
     //(pp->result)=wg_reverselist(pp->db,pp->mpool,(pp->result));          
   } else {  
     (pp->nests)[(pp->depth)]=wg_inplace_reverselist(pp->db,pp->mpool,(pp->nests)[(pp->depth)]);
@@ -680,6 +689,13 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
   }     
   if (streaming) (pp->result)=wg_inplace_reverselist(db,mpool,streamlist);
   stat = yajl_complete_parse(hand);
+  if ((pp->nesterr)==2) {
+    json_err_printf2("more than one json value at the top level in",filename);
+    if (line!=NULL) wr_free(g,line);
+    fclose(file);
+    yajl_free(hand);
+    return -1;
+  }
   if (pp->nesterr) {
     /* the input nested deeper than nests[] can hold: a specific message,
        since yajl only knows that a callback cancelled the parse */
@@ -747,6 +763,11 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
   rd=strlen(strasfile);
   stat = yajl_parse(hand, line, rd); 
   stat = yajl_complete_parse(hand);
+  if ((pp->nesterr)==2) {
+    json_err_printf2("more than one json value at the top level in","the input text");
+    yajl_free(hand);
+    return -1;
+  }
   if (pp->nesterr) {
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index cb756bf..34b5dc4 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -406,6 +406,15 @@ static void * yajlTestRealloc(void * ctx, void * ptr, size_t sz)
 
 //#define BUF_SIZE 2048
 
+/* store a value completed at the top level: a second one would replace the
+   first, hence cancel the parse instead */
+
+static int parse_yajl_top_value(parse_parm *pp, void *val) {
+  if ((pp->result)!=NULL) { (pp->nesterr)=2; return 0; }
+  (pp->result)=val;
+  return 1;
+}
+
 static int parse_yajl_null(void *ctx) {
   //int stringLen;
   //char* stringVal;
@@ -416,7 +425,7 @@ static int parse_yajl_null(void *ctx) {
   //stringLen=strlen(stringVal);
   if (!(pp->depth)) {
     //(pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
-    (pp->result)=pp->jsonnull;
+    return parse_yajl_top_value(pp,pp->jsonnull);
   } else {
     //(pp->nests)[(pp->depth)]=
     //  MKWGPAIR(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen),(pp->nests)[(pp->depth)]);
@@ -448,7 +457,7 @@ static int parse_yajl_boolean(void * ctx, int boolVal) {
   } 
   if (!(pp->depth)) {
     //(pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
-    (pp->result)=val;
+    return parse_yajl_top_value(pp,val);
   } else {
     //(pp->nests)[(pp->depth)]=
     //  MKWGPAIR(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen),(pp->nests)[(pp->depth)]);
@@ -463,7 +472,7 @@ static int parse_yajl_integer(void *ctx, long long integerVal) {
 
   //printf("integer: %lld\n", integerVal);
   if (!(pp->depth)) {
-    (pp->result)=MKWGINTDIRECT(pp, (gint)integerVal);       
+    return parse_yajl_top_value(pp,MKWGINTDIRECT(pp, (gint)integerVal));
   } else {
     (pp->nests)[(pp->depth)]=
       MKWGPAIR(pp,MKWGINTDIRECT(pp, (gint)integerVal),(pp->nests)[(pp->depth)]);
@@ -476,7 +485,7 @@ static int parse_yajl_double(void *ctx, double doubleVal) {
    
   //printf("double1: %f\n", doubleVal);
   if (!(pp->depth)) {
-    (pp->result)=MKWGDOUBLEDIRECT(pp, ((double)doubleVal)); 
+    return parse_yajl_top_value(pp,MKWGDOUBLEDIRECT(pp, ((double)doubleVal)));
     //(pp->result)=MKWGINTDIRECT(pp, (gint)doubleVal);      
   } else {
     (pp->nests)[(pp->depth)]=
@@ -492,7 +501,7 @@ static int parse_yajl_string(void *ctx, const unsigned char * stringVal,
   //printf("\nstringLen %ld stringVal |%s|\n",(gint)stringLen,stringVal); 
   //(pp->result)=MKWGSTRINGLEN(pp, stringVal, stringLen); 
   if (!(pp->depth)) {
-    (pp->result)=MKWGURILEN(pp, (char*)stringVal, (int)stringLen);      
+    return parse_yajl_top_value(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen));
   } else {
     (pp->nests)[(pp->depth)]=
       MKWGPAIR(pp,MKWGURILEN(pp, (char*)stringVal, (int)stringLen),(pp->nests)[(pp->depth)]);
@@ -524,7 +533,7 @@ static int parse_yajl_end_array(void *ctx) {
       ((pp->nests)[(pp->depth)])=pp->jsonempty;
     } else {
       (pp->nests)[(pp->depth)]=wg_inplace_reverselist(pp->db,pp->mpool,(pp->nests)[(pp->depth)]);
-      (pp->result)=(pp->nests)[(pp->depth)];            
+      if (!parse_yajl_top_value(pp,(pp->nests)[(pp->depth)])) return 0;
     }  
   } else {  
     if ((pp->nests)[(pp->depth)]==NULL) {
@@ -572,7 +581,7 @@ static int parse_yajl_end_map(void *ctx) {
   //printf("\nmap close '}'\n");
   if (!((pp->depth)-1)) {
     (pp->nests)[(pp->depth)]=wg_inplace_reverselist(pp->db,pp->mpool,(pp->nests)[(pp->depth)]);
-    (pp->result)=(pp->nests)[(pp->depth)];  
+    if (!parse_yajl_top_value(pp,(pp->nests)[(pp->depth)])) return 0;
     //(pp->result)=wg_reverselist(pp->db,pp->mpool,(pp->result));          
   } else {  
     (pp->nests)[(pp->depth)]=wg_inplace_reverselist(pp->db,pp->mpool,(pp->nests)[(pp->depth)]);
@@ -680,6 +689,13 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
   }     
   if (streaming) (pp->result)=wg_inplace_reverselist(db,mpool,streamlist);
   stat = yajl_complete_parse(hand);
+  if ((pp->nesterr)==2) {
+    json_err_printf2("more than one json value at the top level in",filename);
+    if (line!=NULL) wr_free(g,line);
+    fclose(file);
+    yajl_free(hand);
+    return -1;
+  }
   if (pp->nesterr) {
     /* the input nested deeper than nests[] can hold: a specific message,
        since yajl only knows that a callback cancelled the parse */
@@ -747,6 +763,11 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
   rd=strlen(strasfile);
   stat = yajl_parse(hand, line, rd); 
   stat = yajl_complete_parse(hand);
+  if ((pp->nesterr)==2) {
+    json_err_printf2("more than one json value at the top level in","the input text");
+    yajl_free(hand);
+    return -1;
+  }
   if (pp->nesterr) {
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
-- 
2.43.0


From 189e8bac1a4f1d281af6fcccd5a693cfff6f0e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:32 +0000
Subject: [PATCH 41/53] fix: keep long clausification messages inside their
 buffer

---
 Builtparser/dbclausify.c | 2 ++
 Parser/dbclausify.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 66d71ad..7ee2af1 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -1653,6 +1653,8 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // a longer message was cut
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 66d71ad..7ee2af1 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -1653,6 +1653,8 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (!(g->parse_errmsg)) return NULL;
   tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
   tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
+  if (tmp2<0) tmp2=0;
+  if (tmp2>799) tmp2=799; // a longer message was cut
   snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
-- 
2.43.0


From 8d3a1127ffee0f484a06349c8aeb941a99465c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:21 +0000
Subject: [PATCH 42/53] fix: refuse an include without a file name instead of
 skipping it

---
 Builtparser/dbparse.c | 10 ++++++++--
 Builtparser/jsparse.c | 10 ++++++++--
 Parser/dbparse.c      | 10 ++++++++--
 Parser/jsparse.c      | 10 ++++++++--
 4 files changed, 32 insertions(+), 8 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 1d67f9d..d88e784 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1023,14 +1023,20 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   //printf("\nwg_atomtype(db,pathatom) %d WG_URITYPE %d\n",wg_atomtype(db,pathatom),WG_URITYPE);
   //printf("\n");
 #endif  
-  if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
+  if (!wg_isatom(db,pathatom) || wg_atomtype(db,pathatom)!=WG_URITYPE || !wg_atomstr1(db,pathatom)) {
+    wr_show_parse_error(g,"include needs a file name");
+    return NULL;
+  }
   str=wg_atomstr1(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
     bytes=strlen(str)+strlen(g->filename)+10;
     str2=wg_alloc_mpool(db,mpool,bytes);
-    if (!str2) return NULL;
+    if (!str2) {
+      wr_show_parse_error(g,"cannot allocate filename of an included file");
+      return NULL;
+    }
     for(p1=(g->filename), p2=str2; p1<lastslash; p1++, p2++) {
       *p2=*p1;
     }
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 34b5dc4..75662fa 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1013,14 +1013,20 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   //printf("\nwg_atomtype(db,pathatom) %d WG_URITYPE %d\n",wg_atomtype(db,pathatom),WG_URITYPE);
   //printf("\n");
 #endif  
-  if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
+  if (!wg_isatom(db,pathatom) || wg_atomtype(db,pathatom)!=WG_URITYPE || !wg_atomstr1(db,pathatom)) {
+    wr_show_jsparse_error(g,NULL,"include needs a file name");
+    return NULL;
+  }
   str=wg_atomstr1(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
     bytes=strlen(str)+strlen(g->filename)+10;
     str2=wg_alloc_mpool(db,mpool,bytes);
-    if (!str2) return NULL;
+    if (!str2) {
+      wr_show_jsparse_error(g,NULL,"cannot allocate filename of an included file");
+      return NULL;
+    }
     for(p1=(g->filename), p2=str2; p1<lastslash; p1++, p2++) {
       *p2=*p1;
     }
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 1d67f9d..d88e784 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1023,14 +1023,20 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   //printf("\nwg_atomtype(db,pathatom) %d WG_URITYPE %d\n",wg_atomtype(db,pathatom),WG_URITYPE);
   //printf("\n");
 #endif  
-  if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
+  if (!wg_isatom(db,pathatom) || wg_atomtype(db,pathatom)!=WG_URITYPE || !wg_atomstr1(db,pathatom)) {
+    wr_show_parse_error(g,"include needs a file name");
+    return NULL;
+  }
   str=wg_atomstr1(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
     bytes=strlen(str)+strlen(g->filename)+10;
     str2=wg_alloc_mpool(db,mpool,bytes);
-    if (!str2) return NULL;
+    if (!str2) {
+      wr_show_parse_error(g,"cannot allocate filename of an included file");
+      return NULL;
+    }
     for(p1=(g->filename), p2=str2; p1<lastslash; p1++, p2++) {
       *p2=*p1;
     }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 34b5dc4..75662fa 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1013,14 +1013,20 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   //printf("\nwg_atomtype(db,pathatom) %d WG_URITYPE %d\n",wg_atomtype(db,pathatom),WG_URITYPE);
   //printf("\n");
 #endif  
-  if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
+  if (!wg_isatom(db,pathatom) || wg_atomtype(db,pathatom)!=WG_URITYPE || !wg_atomstr1(db,pathatom)) {
+    wr_show_jsparse_error(g,NULL,"include needs a file name");
+    return NULL;
+  }
   str=wg_atomstr1(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
     bytes=strlen(str)+strlen(g->filename)+10;
     str2=wg_alloc_mpool(db,mpool,bytes);
-    if (!str2) return NULL;
+    if (!str2) {
+      wr_show_jsparse_error(g,NULL,"cannot allocate filename of an included file");
+      return NULL;
+    }
     for(p1=(g->filename), p2=str2; p1<lastslash; p1++, p2++) {
       *p2=*p1;
     }
-- 
2.43.0


From 92601f20a57aa91a797a8c2da6967e8dc484d732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:28 +0000
Subject: [PATCH 43/53] fix: read formulas with annotations and refuse a
 selective include

---
 Builtparser/dbparse.c | 12 +++++++++---
 Parser/dbparse.c      | 12 +++++++++---
 2 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index d88e784..11fa7f4 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -679,7 +679,8 @@ int wr_is_tptp_cnf_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"cnf")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;
+  // name, role and formula, optionally followed by source and useful info
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;
   return 1;
 }
 
@@ -689,7 +690,8 @@ int wr_is_tptp_fof_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"fof")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;  
+  // name, role and formula, optionally followed by source and useful info
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;
   return 1;
 }
 
@@ -701,7 +703,7 @@ int wr_is_tptp_import_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"include")) return 0;
-  if (wg_list_len(db,cl)!=2) return 0;
+  if (wg_list_len(db,cl)<2 || wg_list_len(db,cl)>3) return 0;
   return 1;
 }
 
@@ -1012,6 +1014,10 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
     wr_show_parse_error(g,"no filename given in wr_process_tptp_import_clause\n");
     return NULL;
   }
+  if (wg_list_len(db,cl)!=2) {
+    wr_show_parse_error(g,"include with a selection of formulas is not supported");
+    return NULL;
+  }
   pathatom=wg_nth(db,cl,1);
   envfolder=getenv("TPTP");
 #ifdef IDEBUG
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index d88e784..11fa7f4 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -679,7 +679,8 @@ int wr_is_tptp_cnf_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"cnf")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;
+  // name, role and formula, optionally followed by source and useful info
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;
   return 1;
 }
 
@@ -689,7 +690,8 @@ int wr_is_tptp_fof_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"fof")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;  
+  // name, role and formula, optionally followed by source and useful info
+  if (wg_list_len(db,cl)<4 || wg_list_len(db,cl)>6) return 0;
   return 1;
 }
 
@@ -701,7 +703,7 @@ int wr_is_tptp_import_clause(void* db, void* cl) {
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"include")) return 0;
-  if (wg_list_len(db,cl)!=2) return 0;
+  if (wg_list_len(db,cl)<2 || wg_list_len(db,cl)>3) return 0;
   return 1;
 }
 
@@ -1012,6 +1014,10 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
     wr_show_parse_error(g,"no filename given in wr_process_tptp_import_clause\n");
     return NULL;
   }
+  if (wg_list_len(db,cl)!=2) {
+    wr_show_parse_error(g,"include with a selection of formulas is not supported");
+    return NULL;
+  }
   pathatom=wg_nth(db,cl,1);
   envfolder=getenv("TPTP");
 #ifdef IDEBUG
-- 
2.43.0


From f5213f868300be7be5c52a27179bbb327d607c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:14:08 +0000
Subject: [PATCH 44/53] fix: report a clause which cannot be stored instead of
 dropping it

---
 Builtparser/dbparse.c | 4 ++--
 Builtparser/jsparse.c | 4 ++--
 Parser/dbparse.c      | 4 ++--
 Parser/jsparse.c      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 11fa7f4..0bde24f 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1286,7 +1286,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   if (!issimple) {
     record=wr_create_rule_clause(g,litnr);   
     if (((gint)record)==0) {
-      //free(vardata);
+      wr_show_parse_error(g,"failed to create a clause");
       return NULL;
     }
     resultlist=wg_mkpair(db,mpool,record,resultlist);       
@@ -1410,7 +1410,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       setres2=wr_set_rule_clause_atom(g,record,litnr,tmpres2);
       if (setres!=0 || setres2!=0) {
         // wg_delete_record(db,atomres); // might leak memory
-        wr_free(g,vardata);
+        wr_show_parse_error(g,"failed to store a literal of a clause");
         return NULL; 
       }   
     }        
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 75662fa..4aec87e 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3040,7 +3040,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   if (!issimple) {
     record=wr_create_rule_clause(g,litnr);   
     if (((gint)record)==0) {
-      //free(vardata);
+      wr_show_jsparse_error(g,NULL,"failed to create a clause");
       return NULL;
     }
     resultlist=wg_mkpair(db,mpool,record,resultlist);       
@@ -3164,7 +3164,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       setres2=wr_set_rule_clause_atom(g,record,litnr,tmpres2);
       if (setres!=0 || setres2!=0) {
         // wg_delete_record(db,atomres); // might leak memory
-        wr_free(g,vardata);
+        wr_show_jsparse_error(g,NULL,"failed to store a literal of a clause");
         return NULL; 
       }   
     }        
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 11fa7f4..0bde24f 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1286,7 +1286,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   if (!issimple) {
     record=wr_create_rule_clause(g,litnr);   
     if (((gint)record)==0) {
-      //free(vardata);
+      wr_show_parse_error(g,"failed to create a clause");
       return NULL;
     }
     resultlist=wg_mkpair(db,mpool,record,resultlist);       
@@ -1410,7 +1410,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       setres2=wr_set_rule_clause_atom(g,record,litnr,tmpres2);
       if (setres!=0 || setres2!=0) {
         // wg_delete_record(db,atomres); // might leak memory
-        wr_free(g,vardata);
+        wr_show_parse_error(g,"failed to store a literal of a clause");
         return NULL; 
       }   
     }        
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 75662fa..4aec87e 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3040,7 +3040,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   if (!issimple) {
     record=wr_create_rule_clause(g,litnr);   
     if (((gint)record)==0) {
-      //free(vardata);
+      wr_show_jsparse_error(g,NULL,"failed to create a clause");
       return NULL;
     }
     resultlist=wg_mkpair(db,mpool,record,resultlist);       
@@ -3164,7 +3164,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       setres2=wr_set_rule_clause_atom(g,record,litnr,tmpres2);
       if (setres!=0 || setres2!=0) {
         // wg_delete_record(db,atomres); // might leak memory
-        wr_free(g,vardata);
+        wr_show_jsparse_error(g,NULL,"failed to store a literal of a clause");
         return NULL; 
       }   
     }        
-- 
2.43.0


From 14a2b481e2400d8628797fa261e0c24c2a111869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:33 +0000
Subject: [PATCH 45/53] fix: report a skolemized formula which cannot be
 stored, convert fixpoint numbers checked

---
 Builtparser/dbclausify.c | 3 +--
 Builtparser/dbparse.c    | 3 ++-
 Parser/dbclausify.c      | 3 +--
 Parser/dbparse.c         | 3 ++-
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 7ee2af1..8ccba75 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -156,8 +156,7 @@ void* wr_clausify_formula(glb* g, void* mpool, void* frm,
       if (g->parse_errflag) return NULL;
       cell=alloc_listcell(db);
       if (!cell) {
-        //wr_show_parse_error(g,"failed to allocate a cell for storing skolemized formula");        
-        return NULL;
+        return show_clausify_warning(g,"could not allocate a cell for storing skolemized formula");
       }  
       cellptr = (gcell *) offsettoptr(db, cell);             
       (cellptr->car) = (gint)skclause; //ptrtooffset(db, res);
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 0bde24f..80e013e 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1778,7 +1778,8 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         ret=wg_encode_char(db,*str1); 
         break; 
       case WG_FIXPOINTTYPE:
-        doubledata = atof(str1);
+        errno=0; // only strtod sets it
+        doubledata = strtod(str1,NULL);
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_fixpoint(db, doubledata);
         } else {
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 7ee2af1..8ccba75 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -156,8 +156,7 @@ void* wr_clausify_formula(glb* g, void* mpool, void* frm,
       if (g->parse_errflag) return NULL;
       cell=alloc_listcell(db);
       if (!cell) {
-        //wr_show_parse_error(g,"failed to allocate a cell for storing skolemized formula");        
-        return NULL;
+        return show_clausify_warning(g,"could not allocate a cell for storing skolemized formula");
       }  
       cellptr = (gcell *) offsettoptr(db, cell);             
       (cellptr->car) = (gint)skclause; //ptrtooffset(db, res);
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 0bde24f..80e013e 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1778,7 +1778,8 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         ret=wg_encode_char(db,*str1); 
         break; 
       case WG_FIXPOINTTYPE:
-        doubledata = atof(str1);
+        errno=0; // only strtod sets it
+        doubledata = strtod(str1,NULL);
         if(errno!=ERANGE && errno!=EINVAL) {
           ret = wg_encode_fixpoint(db, doubledata);
         } else {
-- 
2.43.0


From 59b745457efb14ca0cd04b8664f63828923fcbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 46/53] fix: a child which was killed counts as ended for the
 waiting parent

---
 Reasoner/rmain.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 2672923..c07c2cc 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -32,6 +32,7 @@
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
+#include <errno.h>
 #include <time.h>
 
 #ifdef _WIN32
@@ -337,16 +338,22 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
         }          
       }       
       cpid=waitpid(-1,&stat, 0);
+      if (cpid<0) {
+        if (errno==EINTR) continue;
+        break; // no children left to wait for
+      }
 
       //printf("\nwaitpid ended for cpid %d\n",cpid);
       //fflush(stdout);
 
-      if (WIFEXITED(stat)) {
+      if (WIFEXITED(stat) || WIFSIGNALED(stat)) {
 
         //printf("\nWIFEXITED(stat) true for cpid %d\n",cpid);
         //fflush(stdout);
 
-        err = WEXITSTATUS(stat);
+        // a child which was killed or crashed has not found a proof
+        if (WIFEXITED(stat)) err = WEXITSTATUS(stat);
+        else err = 1;
 
         //printf("Child inside subprocess checking %d terminated with status err: %d\n", cpid, err); 
         //fflush(stdout);
-- 
2.43.0


From f05cecdba4d4b97f4e5dd9691043edd8811373f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:12 +0000
Subject: [PATCH 47/53] fix: a parallel child without a proof does not stop the
 other children

---
 Main/gkc.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index c309213..d5eb462 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -248,6 +248,9 @@ int gkc_main(int argc, char **argv) {
   int askpolarity=1;
   clock_t allruns_start_clock;  
   char inputname[1000];
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+  pid_t mainpid;
+#endif
 
   allruns_start_clock=clock();
   global_shmptr=NULL;
@@ -421,7 +424,15 @@ int gkc_main(int argc, char **argv) {
     } else if (clausify) {
       err = wg_run_converter(shmptr,inputname,stratfile,informat,NULL,NULL);
     } else {      
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      mainpid=getpid();
+#endif
       err = wg_run_reasoner(shmptr,inputname,stratfile,informat,NULL,strattext);
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      // a parallel child without a proof must not exit with the success status:
+      // the parent would stop the other children
+      if (err && getpid()!=mainpid) return(1);
+#endif
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");
@@ -708,7 +719,15 @@ int gkc_main(int argc, char **argv) {
       return 1;
       //err = wg_run_converter(shmptrlocal,inputname,stratfile,informat,NULL,NULL);
     } else {
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      mainpid=getpid();
+#endif
       err = wg_run_reasoner(shmptrlocal,inputname,stratfile,informat,NULL,strattext);
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+      // a parallel child without a proof must not exit with the success status:
+      // the parent would stop the other children
+      if (err && getpid()!=mainpid) return(1);
+#endif
       if (err) {
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");        
-- 
2.43.0


From 16c70edb8cbfcf76d1ede6fd1cbd74fb09f81f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:49 +0000
Subject: [PATCH 48/53] fix: a dump which could not be written to its end
 reports an error, its file is closed on every path

---
 Db/dbdump.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 5cc740c..48896c6 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -115,6 +115,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_rlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -124,6 +125,7 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
     lock_id = db_wlock(db, DEFAULT_LOCK_TIMEOUT);
     if(!lock_id) {
       show_dump_error(db, "Failed to lock the database for dump");
+      fclose(f);
       return -1;
     }
   }
@@ -140,11 +142,13 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) == 0 &&
+       fwrite(&crc, sizeof(gint32), 1, f) == 1) {
       err = 0;
     }
   }
+  /* what is still buffered may not fit on the disk */
+  if(fclose(f)) err = -1;
 
   if(err)
     show_dump_error(db, "Error writing file");
@@ -174,9 +178,6 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   }
 #endif
 
-  fflush(f);
-  fclose(f);
-
   return err;
 }
 
@@ -312,6 +313,7 @@ gint wg_import_dump(void * db,char fileName[]) {
     dbsize = dumph->free;
     if(dumph->extdbs.count != 0) {
       show_dump_error(db, "Dump contains external references");
+      free(dumph);
       goto abort;
     }
   }
-- 
2.43.0


From dfca2b276178ff06c740ee2c05683e7698f98e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:31 +0000
Subject: [PATCH 49/53] fix: a kb whose input, guide or indexing failed is
 removed and never used, -loadkb only loads into a new segment

---
 Main/gkc.c      | 31 +++++++++++++++++++++++--------
 Reasoner/init.c | 17 +++++++++++------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index d5eb462..345e9da 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -492,6 +492,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if(wg_in_attached_kb(shmptr)) {
+      err_printf(json,"the kb in memory cannot be replaced");
+      return(1);
+    }
 #ifdef SHOWTIME       
     printf("\nto wg_import_otter_file %s\n",cmdfiles[1]);
     gkc_show_cur_time();
@@ -504,9 +508,6 @@ int gkc_main(int argc, char **argv) {
 #endif      
     if(!err)
       printf("Data parsed into the shared memory db, starting to build indexes.");
-    else if(err<-1)
-      err_printf(json,"problem reading otter file, data may be partially"\
-        " imported");
     else {
       err_printf(json,"reading failed");
       wg_delete_database(shmname);
@@ -558,6 +559,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if(!(dbmemsegh(shmptr)->rglb)) {
+      err_printf(json,"the kb in memory is not complete");
+      return(1);
+    }
     if (tptp && !(clausify) && !(convert)) {
       printf("Using the existing shared memory kb %s.\n",shmname);
     }  
@@ -759,6 +764,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach local database");
       return(1);
     }
+    if(!(dbmemsegh(shmptr)->rglb)) {
+      err_printf(json,"the kb in memory is not complete");
+      return(1);
+    }
 
     /* The existing kb is attached read-only and never changes after it is
        built: no locks are needed and taking one would write into it */
@@ -797,17 +806,22 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"error: failed to attach local database");
       return(1);
     }
+    if(wg_in_attached_kb(shmptr)) {
+      err_printf(json,"there already is a kb in memory: delete it first with -deletekb");
+      return(1);
+    }
 
     // Locking is handled internally by the dbdump.c functions
     err = wg_import_dump(shmptr,cmdfiles[1]);
     if(!err)
       printf("Database imported.\n");
     else if(err<-1) {
-      err_printf(json,"failed to load, db may have"\
-        " become corrupt");
+      err_printf(json,"failed to load");
+      wg_delete_database(shmname);
       return(1);  
     } else {
       err_printf(json,"loading failed");
+      wg_delete_database(shmname);
       return(1);
     }
 #ifdef _WIN32    
@@ -852,6 +866,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if(wg_in_attached_kb(shmptr)) {
+      err_printf(json,"the kb in memory cannot be replaced");
+      return(1);
+    }
 #ifdef SHOWTIME       
     printf("\nto wg_import_otter_file %s\n",cmdfiles[1]);
     gkc_show_cur_time();
@@ -864,9 +882,6 @@ int gkc_main(int argc, char **argv) {
 #endif      
     if(!err)
       printf("Data parsed into the shared memory db, starting to build indexes.");
-    else if(err<-1)
-      err_printf(json,"fatal error when reading otter file, data may be partially"\
-        " imported");
     else {
       err_printf(json,"reading failed");
       wg_delete_database(shmname);
diff --git a/Reasoner/init.c b/Reasoner/init.c
index 3b1f4a1..a1174e1 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -64,7 +64,7 @@ void wg_show_database(void* db);
 int init_shared_database(void* db, char* guidefilename) {
   glb* g;
   db_memsegment_header* dbh = dbmemsegh(db);
-  int tmp;
+  int tmp, queryfocus;
   char* guidebuf=NULL;
   cJSON *guide=NULL;
   //char* argvbuf[4];
@@ -82,8 +82,6 @@ int init_shared_database(void* db, char* guidefilename) {
     wr_errprint("cannot allocate enough memory during reasoner structures initialization");    
     return -1;
   } 
-  // store database pointer to glb structure created
-  (dbh->rglb)=ptrtooffset(db,g);
   // store pointer to whole shared db into the glb structure 
   (g->db)=db;       
   (g->kb_db)=db;
@@ -144,6 +142,7 @@ int init_shared_database(void* db, char* guidefilename) {
       // error in guide requiring stop      
       if (guidebuf!=NULL) free(guidebuf);
       if (guide!=NULL) cJSON_Delete(guide);      
+      return -1;
     }
   }  
   //printf("\n(g->use_equality_strat) %d\n",(g->use_equality_strat));
@@ -175,13 +174,15 @@ int init_shared_database(void* db, char* guidefilename) {
   if (!tmp) return -1;
   
   // temporarily set queryfocus-strat to disable equality ordering
-  tmp=(g->queryfocus_strat);  
+  queryfocus=(g->queryfocus_strat);  
   (g->queryfocus_strat)=1;
   tmp=wr_init_db_clause_indexes(g,g->db);
-  (g->queryfocus_strat)=tmp;
+  (g->queryfocus_strat)=queryfocus;
 
   //printf("\n (g->in_chain_clause_count) %d \n",(g->in_chain_clause_count));
   if (tmp<0) return -1;
+  // store database pointer to glb structure created: only a complete kb has it
+  (dbh->rglb)=ptrtooffset(db,g);
   return 0;
 }
 
@@ -211,7 +212,7 @@ int wr_init_db_clause_indexes(glb* g, void* db) {
     rec=offsettoptr(db,cellptr->car);
     if (g->alloc_err) {
       wr_errprint("\nbuffer overflow while processing parsed clauses, terminating\n");            
-      exit(1);
+      return -1;
     }  
 #ifdef DEBUG
     wr_printf("\nrule with len %ld x\n",wg_get_record_len(db,rec));
@@ -277,6 +278,10 @@ int wr_init_db_clause_indexes(glb* g, void* db) {
 #ifdef DEBUG            
   wr_printf("\nrules_found %d facts_found %d \n",rules_found,facts_found); 
 #endif   
+  if (g->alloc_err) {
+    wr_errprint("\nbuffer overflow while processing parsed clauses, terminating\n");
+    return -1;
+  }
   return rules_found+facts_found;
 }
 
-- 
2.43.0


From 9ab48344d970ac3f118098173c77cb94d9b7794a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:47:04 +0000
Subject: [PATCH 50/53] fix: answers found before the time of a run ended are
 shown instead of lost

---
 Reasoner/rmain.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index c07c2cc..f2d173d 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -847,8 +847,9 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     if (res==0) {
       //wr_printf("\n\nProof found.\n"); 
       wr_show_result(g,g->proof_history);
-    } else if (res==1) {
+    } else if (res==1 || (res==2 && wr_have_answers(g))) {
       if (wr_have_answers(g)) {
+        // fewer answers than asked for, until the search or its time ended
         wr_show_result(g,g->proof_history);
       } else {
         if ((g->print_level_flag)>11) {  
-- 
2.43.0


From 9cc2d9bca493a8845be76421e5328cd40590f73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:25 +0000
Subject: [PATCH 51/53] fix: an empty argument of a numeric option is refused
 like any other non-number

---
 Main/gkc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index 345e9da..d0e6aa3 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -1224,7 +1224,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (sscanf(argv[i], "%d", &nr)!=1) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                    arg,argv[i]);
             *retcode=1;       
@@ -1247,7 +1247,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (sscanf(argv[i], "%d", &nr)!=1) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
@@ -1274,7 +1274,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (sscanf(argv[i], "%d", &nr)!=1) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
@@ -1301,7 +1301,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (sscanf(argv[i], "%d", &nr)!=1) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
@@ -1323,7 +1323,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (sscanf(argv[i], "%d", &nr)!=1) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
-- 
2.43.0


From c66a105a7fc0769915a029cc7ba3a387f9583048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:20:06 +0000
Subject: [PATCH 52/53] fix: the clause limits of a strategy in a sequence are
 used

---
 Reasoner/rmain.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index f2d173d..d949ed0 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -769,6 +769,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
           wr_arithinst_configure(g);
           wr_arithinst_reset_run(g);
           if (seqguideres<0) break;
+          (g->cl_keep_weightlimit)=(g->cl_maxkeep_weightlimit);
+          (g->cl_keep_sizelimit)=(g->cl_maxkeep_sizelimit);
+          (g->cl_keep_depthlimit)=(g->cl_maxkeep_depthlimit);
+          (g->cl_keep_lengthlimit)=(g->cl_maxkeep_lengthlimit);
           //seqguideres=0;
           printf("seqnr %d seqguideres %d strat %s\n",seqnr,seqguideres,guidetext1);
           if (seqnr>0) (g->forward_subsume_derived)=0;
-- 
2.43.0


From 8839e78f255abd9aef28029a57d28ced4619b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:27 +0000
Subject: [PATCH 53/53] fix: memory or a file that could not be had is noticed
 before it is used

---
 Builtparser/dbotter.yy.c |  1 +
 Builtparser/dbparse.c    |  2 ++
 Builtparser/jsparse.c    |  2 ++
 Db/dbhash.c              |  2 ++
 Db/dbindex.c             |  9 ++++++++-
 Db/dbutil.c              |  2 +-
 Main/gkc.c               | 12 ++++++++++++
 Parser/dbotter.l         |  1 +
 Parser/dbparse.c         |  2 ++
 Parser/jsparse.c         |  2 ++
 Reasoner/analyze.c       | 17 ++++++++++++++++
 Reasoner/clstore.c       |  1 +
 Reasoner/glb.c           | 28 +++++++++++++--------------
 Reasoner/history.c       |  5 +++++
 Reasoner/init.c          |  1 +
 Reasoner/mem.c           |  1 +
 Reasoner/rmain.c         | 42 +++++++++++++++++++++++++++-------------
 Reasoner/strat.c         |  6 ++++++
 Reasoner/subsume.c       |  1 +
 19 files changed, 108 insertions(+), 29 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index 5c2566a..37767dc 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -2784,6 +2784,7 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   }
   if (parm->errmsg) return;
   parm->errmsg=malloc(2000);
+  if (!(parm->errmsg)) return;
   if (1) { //(parm->json) {
     snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
           msg,parm->filename,s,yyget_lineno(scanner),linebuf);
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 80e013e..6a9435d 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -165,9 +165,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 4aec87e..ed2898b 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -210,9 +210,11 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
diff --git a/Db/dbhash.c b/Db/dbhash.c
index c044953..2ec3906 100644
--- a/Db/dbhash.c
+++ b/Db/dbhash.c
@@ -505,6 +505,8 @@ gint wg_idxhash_store(void* db, db_hash_area_header *ha,
   /* Add the record offset to the list. */
   rec_head = dbfetch(db, bucket + HASHIDX_RECLIST_POS*sizeof(gint));
   rec_offset = wg_alloc_fixlen_object(db, &(dbh->listcell_area_header));
+  if(!rec_offset)
+    return -1;
   rec_cell = (gcell *) offsettoptr(db, rec_offset);
   rec_cell->car = offset;
   rec_cell->cdr = rec_head;
diff --git a/Db/dbindex.c b/Db/dbindex.c
index 70fd716..cadf107 100644
--- a/Db/dbindex.c
+++ b/Db/dbindex.c
@@ -1380,6 +1380,8 @@ static gint create_ttree_index(void *db, gint index_id){
   /* allocate (+ init) root node for new index tree and save
    * the offset into index_array */
   node = wg_alloc_fixlen_object(db, &dbh->tnode_area_header);
+  if(!node)
+    return -1;
   nodest =(struct wg_tnode *)offsettoptr(db,node);
   nodest->parent_offset = 0;
   nodest->left_subtree_height = 0;
@@ -1835,6 +1837,8 @@ nextelem:
 
   /* Add new template header */
   template_offset = wg_alloc_fixlen_object(db, &dbh->indextmpl_area_header);
+  if(!template_offset)
+    return 0;
   tmpl = (wg_index_template *) offsettoptr(db, template_offset);
   tmpl->offset_matchrec = ptrtooffset(db, rec);
   tmpl->fixed_columns = fixed_columns;
@@ -2193,6 +2197,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
 
   /* Add new index header */
   index_id = wg_alloc_fixlen_object(db, &dbh->indexhdr_area_header);
+  if(!index_id)
+    return -1;
 
   for(i=0; i<col_count; i++) {
     if(!insert_into_list(db, ilist[i], index_id)) {
@@ -2217,7 +2223,8 @@ gint wg_create_multi_index(void *db, gint *columns, gint col_count, gint type,
   /* create the actual index */
   switch(hdr->type) {
     case WG_INDEX_TYPE_TTREE:
-      create_ttree_index(db, index_id);
+      if(create_ttree_index(db, index_id))
+        return -1;
       break;
     case WG_INDEX_TYPE_HASH:
     case WG_INDEX_TYPE_HASH_JSON:
diff --git a/Db/dbutil.c b/Db/dbutil.c
index 7247d55..61dae53 100644
--- a/Db/dbutil.c
+++ b/Db/dbutil.c
@@ -716,7 +716,7 @@ static gint fread_csv(void *db, FILE *f) {
   }
 
   encdata = (gint *) malloc(sizeof(gint) * encdata_sz);
-  if(strbuf==NULL) {
+  if(encdata==NULL) {
     free(strbuf);
     show_io_error(db, "Failed to allocate memory");
     return -1;
diff --git a/Main/gkc.c b/Main/gkc.c
index d0e6aa3..adba041 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -1203,12 +1203,22 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
   // init nargv: an array of non-command args, i.e. filenames
   nargc=0;
   nargv=(char**)malloc(sizeof(char*)*argc);
+  if (!nargv) {
+    printf("Error: cannot allocate memory\n");
+    *retcode=1;
+    return NULL;
+  }
   for(i=0;i<argc;i++) {
     nargv[i]=NULL;
   }
   lstrings=(char**)malloc(sizeof(char*)*maxlstrings);
   ljstrings=(char**)malloc(sizeof(char*)*maxlstrings);
   lfiles=(char**)malloc(sizeof(char*)*maxlfiles);
+  if (!lstrings || !ljstrings || !lfiles) {
+    printf("Error: cannot allocate memory\n");
+    *retcode=1;
+    return NULL;
+  }
 
   // loop over all command line elements
   for(i=0; i<argc; i++) {
@@ -1692,6 +1702,7 @@ int gkc_ltb_main(int argc, char **argv) {
   setbuf(stdout, NULL);
   rows=malloc(sizeof(char*)*100000);
   batchfile=fopen(batchfilename, "r");
+  if (!rows || !batchfile) return 0;
   for(rowcount=0; rowcount<100000; rowcount++) {
     rowptr=fgets(batchfilerow,900,batchfile);
     if (rowptr==NULL) {
@@ -1700,6 +1711,7 @@ int gkc_ltb_main(int argc, char **argv) {
       tmp=strlen(rowptr);
       if (tmp) {
         rowstr=(char*)(malloc(tmp+1));
+        if (!rowstr) break;
         strcpy(rowstr,rowptr);        
       } else {
         rowstr=NULL;
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index 1fdd5ba..fc22239 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -355,6 +355,7 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   }
   if (parm->errmsg) return;
   parm->errmsg=malloc(2000);
+  if (!(parm->errmsg)) return;
   if (1) { //(parm->json) {
     snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
           msg,parm->filename,s,yyget_lineno(scanner),linebuf);
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 80e013e..6a9435d 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -165,9 +165,11 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 4aec87e..ed2898b 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -210,9 +210,11 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
   (g->parse_skolem_prefix)=wr_str_new(g,100);
+  if (!(g->parse_skolem_prefix)) return 1;
   strncpy((g->parse_skolem_prefix),DEFAULT_SKOLEM_PREFIX,99);
   //(g->parse_skolem_nr)=0;
   (g->parse_newpred_prefix)=wr_str_new(g,100);
+  if (!(g->parse_newpred_prefix)) return 1;
   strncpy((g->parse_newpred_prefix),DEFAULT_NEWPRED_PREFIX,99);
   //(g->parse_newpred_nr)=0;
   (g->parse_errmsg)=NULL;
diff --git a/Reasoner/analyze.c b/Reasoner/analyze.c
index 3c7baf9..7de2c43 100644
--- a/Reasoner/analyze.c
+++ b/Reasoner/analyze.c
@@ -542,6 +542,12 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
   (g->inkb)=0; // use malloc temporarily
   uriinfo=wr_cvec_new(g,INITIAL_URITMPVEC_LEN);
   cl_uriinfo=wr_cvec_new(g,INITIAL_URITMPVEC_LEN);
+  if (!uriinfo || !cl_uriinfo) {
+    if (uriinfo) wr_vec_free(g,uriinfo);
+    if (cl_uriinfo) wr_vec_free(g,cl_uriinfo);
+    (g->inkb)=tmpinkb;
+    return 0;
+  }
 
   // params
   sine_maxk=120; // should fit into char
@@ -874,6 +880,11 @@ int wr_analyze_sine(glb* g, void* db, void* child_db) {
               wr_set_uri_sine_k(g,inuri,k+1);
               // push uri to uri list to handle later              
               uriinfo=wr_cvec_push(g,uriinfo,inuri);             
+              if (!uriinfo) {
+                wr_vec_free(g,cl_uriinfo);
+                (g->inkb)=tmpinkb;
+                return 0;
+              }
               //printf("\n* inuri_k set to %d\n",wr_get_uri_sine_k(g,inuri));
             }
           }            
@@ -1229,6 +1240,7 @@ char* make_auto_guide(glb* g, glb* kb_g, int guideparam) {
   //(dbmemsegh(db)->printlevel)=12;
 
   buf=(char*)wr_malloc(g,50000);
+  if (!buf) return NULL;
   //buf=(char*)wr_malloc(g,5000000);
 
   gint min_strat_timeloop_nr=0, max_strat_timeloop_nr=1000;
@@ -1606,6 +1618,7 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
     // first batch, 3 sec total
     dsecs=1;
     buf=(char*)wr_malloc(g,10000);  
+    if (!buf) return;
     pref="{\n"
         "\"print_level\": 5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1622,6 +1635,7 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
     // second batch, 5 sec total, ends at 8 sec
     dsecs=1;
     buf=(char*)wr_malloc(g,10000);  
+    if (!buf) return;
     pref="{\n"
         "\"print_level\": 5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1642,6 +1656,7 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
     // third batch, 15 sec total, ends at 23 sec
     dsecs=5;
     buf=(char*)wr_malloc(g,10000);  
+    if (!buf) return;
     pref="{\n"
         "\"print_level\": 5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1658,6 +1673,7 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
     // fourth batch, 20 sec total, ends at 43 sec
     dsecs=5;
     buf=(char*)wr_malloc(g,10000);  
+    if (!buf) return;
     pref="{\n"
         "\"print_level\":  5,\n"; 
     pos=sprintf(buf,"%s",pref);
@@ -1676,6 +1692,7 @@ void make_ltb_guide(glb* g, char** strats, int stratscount) {
     // fifth batch 
     dsecs=15;
     buf=(char*)wr_malloc(g,10000);  
+    if (!buf) return;
     pref="{\n"
         "\"print_level\":  5,\n"; 
     pos=sprintf(buf,"%s",pref);
diff --git a/Reasoner/clstore.c b/Reasoner/clstore.c
index b774727..8dad8b6 100644
--- a/Reasoner/clstore.c
+++ b/Reasoner/clstore.c
@@ -889,6 +889,7 @@ gint wr_create_clpick_queues(glb* g, int count) {
 #endif
 
   queues=wr_vec_new_zero(g,NROF_CLPICK_QUEUES*CLPICK_QUEUE_BLOCKGINTS); // use as vec
+  if (queues==NULL) return 0; // alloc_err is set
   clpick_queues=rpto(g,queues); // return offset
   limit=queues[0]; 
   // do big block-size steps over array
diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index b4a5d8a..2a2f66c 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -838,13 +838,13 @@ int wr_glb_init_local_complex(glb* g) {
   (g->varbanks)=wr_vec_new(g,NROF_VARBANKS*NROF_VARSINBANK);
   //(g->varbankrepl)=wr_vec_new(g,3*NROF_VARSINBANK);
   (g->varstack)=wr_cvec_new(g,NROF_VARBANKS*NROF_VARSINBANK); 
-  (g->varstack)[1]=2; // first free elem
+  if (g->varstack) (g->varstack)[1]=2; // first free elem
 
   (g->xcountedvarlist)=wr_cvec_new(g,4+(NROF_VARSINBANK*2)); 
-  (g->xcountedvarlist)[1]=2; // first free elem
+  if (g->xcountedvarlist) (g->xcountedvarlist)[1]=2; // first free elem
  
   (g->ycountedvarlist)=wr_cvec_new(g,4+(NROF_VARSINBANK*2)); 
-  (g->ycountedvarlist)[1]=2; // first free elem
+  if (g->ycountedvarlist) (g->ycountedvarlist)[1]=2; // first free elem
 
   //(g->tmp1_cl_vec)=wr_vec_new(g,100);    
   //(g->tmp2_cl_vec)=wr_vec_new(g,100); 
@@ -852,39 +852,39 @@ int wr_glb_init_local_complex(glb* g) {
   //(g->tmp_litinf_vec)=wr_vec_new(g,100); 
         
   (g->given_termbuf)=wr_cvec_new(g,NROF_GIVEN_TERMBUF_ELS);
-  (g->given_termbuf)[1]=2;
+  if (g->given_termbuf) (g->given_termbuf)[1]=2;
   //(g->given_termbuf_freeindex)=2;
 
   (g->simplified_termbuf)=wr_cvec_new(g,NROF_SIMPLIFIED_TERMBUF_ELS);
-  (g->simplified_termbuf)[1]=2;
+  if (g->simplified_termbuf) (g->simplified_termbuf)[1]=2;
   
   (g->derived_termbuf)=wr_cvec_new(g,NROF_DERIVED_TERMBUF_ELS);
-  (g->derived_termbuf)[1]=2;
+  if (g->derived_termbuf) (g->derived_termbuf)[1]=2;
  
   (g->queue_termbuf)=wr_cvec_new(g,NROF_QUEUE_TERMBUF_ELS);
-  (g->queue_termbuf)[1]=2;
+  if (g->queue_termbuf) (g->queue_termbuf)[1]=2;
 
   (g->hyper_termbuf)=wr_cvec_new(g,NROF_HYPER_TERMBUF_ELS);
-  (g->hyper_termbuf)[1]=2; 
+  if (g->hyper_termbuf) (g->hyper_termbuf)[1]=2; 
   
   (g->active_termbuf)=wr_cvec_new(g,NROF_ACTIVE_TERMBUF_ELS);
-  (g->active_termbuf)[1]=2;
+  if (g->active_termbuf) (g->active_termbuf)[1]=2;
 
 #ifndef MALLOC_HASHNODES
   (g->hash_nodes)=wr_cvec_new(g,NROF_CLTERM_HASHNODESVEC_ELS);
-  (g->hash_nodes)[1]=2;
+  if (g->hash_nodes) (g->hash_nodes)[1]=2;
 #endif
 
   (g->cut_clvec)=wr_vec_new(g,NROF_CUT_CLVEC_ELS);
   (g->rewrite_clvec)=wr_cvec_new(g,NROF_REWRITE_CLVEC_ELS);
-  (g->rewrite_clvec)[1]=2; // first free elem
+  if (g->rewrite_clvec) (g->rewrite_clvec)[1]=2; // first free elem
 
   (g->hyper_queue)=wr_cvec_new(g,NROF_HYPER_QUEUE_ELS);
-  (g->hyper_queue)[1]=3; // next free pos in the queue (initially for empty queue 3)
-  (g->hyper_queue)[2]=3; // next pos to pick for given (initially for empty queue 3)
+  if (g->hyper_queue) (g->hyper_queue)[1]=3; // next free pos in the queue (initially for empty queue 3)
+  if (g->hyper_queue) (g->hyper_queue)[2]=3; // next pos to pick for given (initially for empty queue 3)
 
   (g->answers)=wr_cvec_new(g,INITIAL_ANSWERS_LEN);
-  (g->answers)[1]=2; // next free pos in the queue (initially for empty queue 2)
+  if (g->answers) (g->answers)[1]=2; // next free pos in the queue (initially for empty queue 2)
 
   (g->sine_k_values)=sys_malloc(SINE_K_VALUES_SIZE); // bytestring allocated by malloc
   if (!(g->sine_k_values)) {
diff --git a/Reasoner/history.c b/Reasoner/history.c
index 09314a4..1532117 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1597,6 +1597,11 @@ int wr_strprint_flat_history(glb* g, void* mpool, char** buf, int* blen, int bpo
   if (g->print_fof_conversion_proof) {
     inputs=wr_collect_inputs(g,assoc,&inputcount);  
     skinputs=wr_malloc(g,INPUTS_INITIAL_SIZE*sizeof(char*));
+    if (!inputs || !skinputs) {
+      if (inputs) wr_free(g,inputs);
+      if (skinputs) wr_free(g,skinputs);
+      return -1;
+    }
     skinputcount=0;
     bpos=wr_strprint_inputs(g,inputcount,inputs,&skinputcount,skinputs,buf,blen,bpos);   
     if (inputs) wr_free(g,inputs);
diff --git a/Reasoner/init.c b/Reasoner/init.c
index a1174e1..923c10e 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -317,6 +317,7 @@ void wr_show_database_details(glb* passedg,void* db, char* desc) {
 
     rglb=db_rglb(db); // this is the internal g of db
     g=sys_malloc(sizeof(glb)); // this is a new malloced g
+    if (g==NULL) return;
     // copy rglb stuff to g
     memcpy(g,rglb,sizeof(glb));
     // now g should contain the same things as rglb
diff --git a/Reasoner/mem.c b/Reasoner/mem.c
index 1cb3216..54ba116 100644
--- a/Reasoner/mem.c
+++ b/Reasoner/mem.c
@@ -386,6 +386,7 @@ vec wr_vec_realloc(glb* g,vec v, int i) {
 vec wr_vec_store(glb* g,vec v, int i, gint e) {
   vec nvec;
   
+  if (v==NULL) return NULL; // an earlier store could not allocate memory
   if (i<=(int)v[0]) {
     v[i]=(gint)e;
     return v;
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index d949ed0..1bc92fa 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -202,6 +202,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
 
     rglb=db_rglb(db); // this is the internal g of db
     kb_g=sys_malloc(sizeof(glb)); // this is a new malloced g
+    if (kb_g==NULL) {
+      wr_errprint("cannot allocate enough memory during reasoner initialization");
+      return -1;
+    }
     // copy rglb stuff to g
     memcpy(kb_g,rglb,sizeof(glb));
     // now kb_g should contain the same things as rglb
@@ -226,6 +230,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     kb_g=NULL;
   }
   analyze_g=wr_glb_new_simple(db);
+  if (analyze_g==NULL) {
+    wr_errprint("cannot allocate enough memory during reasoner initialization");
+    return -1;
+  }
   if (kb_g!=NULL) {
     (analyze_g->kb_g)=kb_g; // points to the copy of globals of the external kb
   }
@@ -234,6 +242,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   (analyze_g->db)=db; 
   (analyze_g->varbanks)=wr_vec_new(analyze_g,NROF_VARBANKS*NROF_VARSINBANK);
   (analyze_g->varstack)=wr_cvec_new(analyze_g,NROF_VARBANKS*NROF_VARSINBANK); 
+  if (!(analyze_g->varbanks) || !(analyze_g->varstack)) {
+    wr_errprint("cannot allocate enough memory during reasoner initialization");
+    return -1;
+  }
   (analyze_g->varstack)[1]=2; // first free elem  
   (analyze_g->in_has_fof)=informat;
   if (outfilename) (analyze_g->outfilename)=outfilename;
@@ -445,6 +457,13 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     }
 
     g=wr_glb_new_simple(db);
+    if (g==NULL) {
+      wr_errprint("cannot allocate enough memory during reasoner initialization");
+      if (guidebuf!=NULL) free(guidebuf);
+      if (guide!=NULL) cJSON_Delete(guide);
+      if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
+      return -1;
+    }   
     (dbmemsegh(local_db)->local_g)=(glb*)g; // for cleaning in signal
     // init local_db
     (g->local_db)=local_db;
@@ -488,14 +507,6 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     if (kb_g!=NULL) {      
       (g->kb_g)=kb_g; // points to the copy of globals of the external kb
     }  
-    if (g==NULL) {
-      wr_errprint("cannot allocate enough memory during reasoner initialization");
-      if (guidebuf!=NULL) free(guidebuf);
-      if (guide!=NULL) cJSON_Delete(guide);
-      sys_free(g); 
-      if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
-      return -1;
-    }   
 #ifdef DEBUG
     wr_printf("\nnow db is %ld and child_db is %ld \n",(gint)db,(gint)child_db);
 #endif    
@@ -993,6 +1004,10 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     db=kb_db;    
     rglb=db_rglb(db); // this is the internal g of db
     kb_g=sys_malloc(sizeof(glb)); // this is a new malloced g
+    if (kb_g==NULL) {
+      wr_errprint("cannot allocate enough memory during reasoner initialization");
+      return -1;
+    }
     // copy rglb stuff to g
     memcpy(kb_g,rglb,sizeof(glb));
     // now kb_g should contain the same things as rglb
@@ -1038,16 +1053,15 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
   // copy analyze_g stats to g for easier handling
   //wr_copy_sin_stats(analyze_g,g);     
  
-  if (kb_g!=NULL) {
-    (g->kb_g)=kb_g; // points to the copy of globals of the external kb
-  }  
   if (g==NULL) {
     wr_errprint("cannot allocate enough memory during reasoner initialization");
     if (guidebuf!=NULL) free(guidebuf);
     if (guide!=NULL) cJSON_Delete(guide);
-    sys_free(g); 
     return -1;
   }   
+  if (kb_g!=NULL) {
+    (g->kb_g)=kb_g; // points to the copy of globals of the external kb
+  }  
 #ifdef DEBUG
   wr_printf("\nnow db is %ld and child_db is %ld \n",(gint)db,(gint)child_db);
 #endif    
@@ -1332,6 +1346,7 @@ int wr_init_active_passive_lists_from_one(glb* g, void* db, void* child_db) {
       cell2=cellptr2->cdr;         
       n++;
     }       
+    if (!(g->tmp_sort_vec)) return -1;
     // sort    
     if (!(g->reverse_clauselist_strat)) {
       wr_qsort_metaclvec(g,(g->tmp_sort_vec),0,n-1);
@@ -1530,7 +1545,7 @@ int wr_init_active_passive_lists_from_one(glb* g, void* db, void* child_db) {
         if (given_cl_as_active==NULL) {
           if (g->alloc_err) return -1;
         }    
-        if (g->use_strong_unit_cutoff) wr_cl_store_res_units(g,given_cl_as_active);
+        if (given_cl_as_active && g->use_strong_unit_cutoff) wr_cl_store_res_units(g,given_cl_as_active);
       } else {
         if (g->goalweight_normal_strat) { // (!(g->cl_pick_queue_strategy)) {
           weight=wr_calc_clause_weight(g,rec,&size,&depth,&length);
@@ -1683,6 +1698,7 @@ int wr_print_all_clauses(glb* g, void* child_db) {
     n++;
   } 
   if (!n) return 0;  
+  if (!(g->tmp_sort_vec)) return -1;
    // create buf for printing
   //namebuf[0]=0;
   blen=1000;
diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index ce036a3..c470fef 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -1536,6 +1536,10 @@ int wr_calc_clause_knuthbendix_resolvability(glb* g, gptr cl, gptr vb) {
     xvarlist=(gptr)((g->tmp_clinfo)[(i*2)+2+1]); // IFF no vars, xvarlist will be NULL
     for(j=i+1; j<atomnr; j++) {
       //ymeta=wg_get_rule_clause_atom_meta(db,cl,j);
+      if (!(g->tmp_resolvability_vec)) {
+        wr_tmp_clinfo_free(g,(g->tmp_clinfo));
+        return 0; // error case
+      }
       if (!(g->tmp_resolvability_vec)[j+1]) {
         // j atom is already marked nonresolvable: no point in comparing
         continue;
@@ -1665,6 +1669,7 @@ int wr_calc_clause_size_countedvarlist(glb* g, gptr cl, gptr vb) {
   }
 
   // from here clause length at least 2
+  if (!(g->tmp_clinfo)) return 0; // could not be extended before
   (g->tmp_clinfo)[1]=2; // initialize
   for(i=0; i<atomnr; i++) {      
     meta=wg_get_rule_clause_atom_meta(db,cl,i);
@@ -1686,6 +1691,7 @@ int wr_calc_clause_size_countedvarlist(glb* g, gptr cl, gptr vb) {
 #endif
     // copy size over
     (g->tmp_clinfo)=wr_cvec_store(g,(g->tmp_clinfo),(i*2)+2,xw);
+    if (!(g->tmp_clinfo)) return 0; // mark error
     // copy var vec over
     if (gvvec[2]>3) {      
       // vars present in atom: alloc a cvec and copy over
diff --git a/Reasoner/subsume.c b/Reasoner/subsume.c
index c4cd911..664bf18 100644
--- a/Reasoner/subsume.c
+++ b/Reasoner/subsume.c
@@ -1523,6 +1523,7 @@ gint wr_subsume_cl(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   g->tmp_unify_vc=(g->varstack)+1;  // var counter for varstack   
   // clear lit information vector (0 pos holds vec len)
   for(i2=1;i2<=cllen2;i2++) (g->tmp_litinf_vec)=wr_vec_store(g,g->tmp_litinf_vec,i2,0);
+  if (!(g->tmp_litinf_vec)) return 0; // alloc_err is set
   ++(g->stat_clsubs_full_attempted);
   mres=wr_subsume_cl_aux(g,cl1,cl2,
                    cl1+RECORD_HEADER_GINTS+CLAUSE_EXTRAHEADERLEN,
-- 
2.43.0

