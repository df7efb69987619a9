From 7a856142f616d6fb90b4485de76972c7ef535291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 01/30] fix: arg_rex: reject the argument when the pattern does
 not compile instead of dereferencing NULL

---
 src/arg_rex.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 158a922..89fab56 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -148,7 +148,8 @@ static int arg_rex_scanfn(struct arg_rex* parent, const char* argval) {
         /* if a match is detected, record the argument value in the arg_rex struct */
 
         rex = trex_compile(priv->pattern, &error, priv->flags);
-        is_match = trex_match(rex, argval);
+        /* a pattern that does not compile matches nothing */
+        is_match = rex ? trex_match(rex, argval) : TRex_False;
         if (!is_match)
             errorcode = ARG_ERR_REGNOMATCH;
         else
-- 
2.43.0


From cd608319b6a28a12137a1b9bfc49dca3cfedb3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 02/30] fix: arg_rex: do not overflow the node array when
 compiling an empty pattern

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 89fab56..5774bad 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -378,7 +378,7 @@ static int trex_newnode(TRex* exp, TRexNodeType type) {
     if (type == OP_EXPR)
         n.right = exp->_nsubexpr++;
     if (exp->_nallocated < (exp->_nsize + 1)) {
-        exp->_nallocated *= 2;
+        exp->_nallocated = exp->_nallocated ? exp->_nallocated * 2 : 1;
         exp->_nodes = (TRexNode*)xrealloc(exp->_nodes, (size_t)exp->_nallocated * sizeof(TRexNode));
     }
     exp->_nodes[exp->_nsize++] = n;
-- 
2.43.0


From 09ca7ac608a87c1c66a9cb60fa000357e374c1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 03/30] fix: arg_rex: report a pattern ending in a lone
 backslash instead of reading past its end

---
 src/arg_rex.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 5774bad..6da6420 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -417,6 +417,9 @@ static TRexChar trex_escapechar(TRex* exp) {
             case 'f':
                 exp->_p++;
                 return '\f';
+            case '\0':
+                trex_error(exp, _SC("letter expected"));
+                return 0;
             default:
                 return (*exp->_p++);
         }
@@ -481,6 +484,8 @@ static int trex_charnode(TRex* exp, TRexBool isclass) {
                 }
                 /* fall through */
             default:
+                if (*exp->_p == '\0')
+                    trex_error(exp, _SC("letter expected"));
                 t = *exp->_p;
                 exp->_p++;
                 return trex_newnode(exp, t);
-- 
2.43.0


From a3946f44ebb3954aebbe13352100eb7de3a03d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 04/30] fix: arg_rex: validate class ranges by their
 characters, not by a node index

---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 6da6420..6c51930 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -515,12 +515,12 @@ static int trex_class(TRex* exp) {
             if (*exp->_p++ == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
-            if (first > *exp->_p)
-                trex_error(exp, _SC("invalid range"));
             if (exp->_nodes[first].type == OP_CCLASS)
                 trex_error(exp, _SC("cannot use character classes in ranges"));
             exp->_nodes[r].left = exp->_nodes[first].type;
             t = trex_escapechar(exp);
+            if (exp->_nodes[r].left > t)
+                trex_error(exp, _SC("invalid range"));
             exp->_nodes[r].right = t;
             exp->_nodes[chain].next = r;
             chain = r;
-- 
2.43.0


From 579a62422a30577f1bd4f232b2dd4daa3b36144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 05/30] fix: arg_rex: never let a pattern element consume or
 look past the end of the text

---
 src/arg_rex.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 6c51930..c11bccd 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -861,8 +861,9 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             return cur;
         }
         case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) || (!isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) ||
+                (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
+                (str != exp->_eol && isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
@@ -874,12 +875,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             if (str == exp->_eol)
                 return str;
             return NULL;
-        case OP_DOT: {
+        case OP_DOT:
+            if (str == exp->_eol)
+                return NULL;
             str++;
-        }
             return str;
         case OP_NCLASS:
         case OP_CLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchclass(exp, &exp->_nodes[node->left], *str) ? (type == OP_CLASS ? TRex_True : TRex_False)
                                                                      : (type == OP_NCLASS ? TRex_True : TRex_False)) {
                 str++;
@@ -887,12 +891,16 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             }
             return NULL;
         case OP_CCLASS:
+            if (str == exp->_eol)
+                return NULL;
             if (trex_matchcclass(node->left, *str)) {
                 str++;
                 return str;
             }
             return NULL;
         default: /* char */
+            if (str == exp->_eol)
+                return NULL;
             if (exp->_flags & TREX_ICASE) {
                 if (*str != tolower(node->type) && *str != toupper(node->type))
                     return NULL;
-- 
2.43.0


From 6cf35dd4b89c8f2411485aeee1268bd9b4648945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 06/30] fix: arg_rex: avoid signed overflow when compiling
 large repetition counts

---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index c11bccd..223c693 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -553,9 +553,9 @@ static int trex_parsenumber(TRex* exp) {
     int positions = 10;
     exp->_p++;
     while (isdigit((int)(*exp->_p))) {
-        ret = ret * 10 + (*exp->_p++ - '0');
         if (positions == 1000000000)
             trex_error(exp, _SC("overflow in numeric constant"));
+        ret = ret * 10 + (*exp->_p++ - '0');
         positions *= 10;
     };
     return ret;
@@ -648,7 +648,7 @@ static int trex_element(TRex* exp) {
         if (isgreedy) {
             int nnode = trex_newnode(exp, OP_GREEDY);
             exp->_nodes[nnode].left = ret;
-            exp->_nodes[nnode].right = ((p0) << 16) | p1;
+            exp->_nodes[nnode].right = (int)(((unsigned int)p0 << 16) | p1);
             ret = nnode;
         }
     }
-- 
2.43.0


From df5b784bf530beb7e13c7c23ab61696cc2c45acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:09:15 +0000
Subject: [PATCH 07/30] fix: arg_rex: stop repeating a sub-expression that
 matches the empty string

---
 src/arg_rex.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 223c693..c5df101 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -771,6 +771,7 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
 
             while ((nmaches == 0xFFFF || nmaches < p1)) {
                 const TRexChar* stop;
+                const TRexChar* prev = s;
                 if ((s = trex_matchnode(exp, &exp->_nodes[node->left], s, greedystop)) == NULL)
                     break;
                 nmaches++;
@@ -800,6 +801,13 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
 
                 if (s >= exp->_eol)
                     break;
+
+                /* an iteration that consumed nothing can be repeated at will, but to no effect */
+                if (s == prev) {
+                    if (nmaches < p0)
+                        nmaches = p0;
+                    break;
+                }
             }
             if (p0 == p1 && p0 == nmaches)
                 return good;
-- 
2.43.0


From 0af0631aefbfd9a5faa0778014e658d4c98d898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 08/30] fix: getopt_long: step over a malformed cluster such as
 "-a-" instead of looping forever

---
 src/arg_getopt_long.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/arg_getopt_long.c b/src/arg_getopt_long.c
index b2dc4d8..0c7aa3d 100644
--- a/src/arg_getopt_long.c
+++ b/src/arg_getopt_long.c
@@ -529,8 +529,10 @@ start:
 #endif
 		if (*place == '-') {
 			place++;		/* --foo long option */
-			if (*place == '\0')
+			if (*place == '\0') {
+				++optind;
 				return (BADARG);	/* malformed option */
+			}
 #ifdef GNU_COMPATIBLE
 			dash_prefix = DD_PREFIX;
 #endif
-- 
2.43.0


From 9ff34055c85daf890d0239da79d80aa5f71fd03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 09/30] fix: arg_end: keep room for one error when the given
 capacity is not positive

---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index a7abfdd..0c4cd39 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -79,6 +79,9 @@ struct arg_end* arg_end(int maxcount) {
     size_t nbytes;
     struct arg_end* result;
 
+    /* foolproof things by ensuring there is room for at least one error */
+    maxcount = (maxcount < 1) ? 1 : maxcount;
+
     nbytes = sizeof(struct arg_end) + (size_t)maxcount * sizeof(int) /* storage for int error[maxcount] array*/
              + (size_t)maxcount * sizeof(void*)                      /* storage for void* parent[maxcount] array */
              + (size_t)maxcount * sizeof(char*);                     /* storage for char* argval[maxcount] array */
-- 
2.43.0


From 54b1025a179a824097797894ef2ddf693955b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 10/30] fix: arg_end: keep the pointer arrays aligned for an
 odd capacity

---
 src/arg_end.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/arg_end.c b/src/arg_end.c
index 0c4cd39..ebb1f19 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -102,15 +102,16 @@ struct arg_end* arg_end(int maxcount) {
     result->hdr.checkfn = NULL;
     result->hdr.errorfn = (arg_errorfn*)arg_end_errorfn;
 
-    /* store error[maxcount] array immediately after struct arg_end */
-    result->error = (int*)(result + 1);
-
-    /* store parent[maxcount] array immediately after error[] array */
-    result->parent = (void**)(result->error + maxcount);
+    /* store parent[maxcount] array immediately after struct arg_end; */
+    /* the pointer arrays come first to keep them properly aligned    */
+    result->parent = (void**)(result + 1);
 
     /* store argval[maxcount] array immediately after parent[] array */
     result->argval = (const char**)(result->parent + maxcount);
 
+    /* store error[maxcount] array immediately after argval[] array */
+    result->error = (int*)(result->argval + maxcount);
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From c21e33088a72179561c92d6532c14811e0d57b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 11/30] fix: arg_end: start with no recorded errors so that
 errors can be printed before parsing

---
 src/arg_end.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_end.c b/src/arg_end.c
index ebb1f19..dee619a 100644
--- a/src/arg_end.c
+++ b/src/arg_end.c
@@ -112,6 +112,9 @@ struct arg_end* arg_end(int maxcount) {
     /* store error[maxcount] array immediately after argval[] array */
     result->error = (int*)(result->argval + maxcount);
 
+    /* no errors have been recorded yet */
+    result->count = 0;
+
     ARG_TRACE(("arg_end(%d) returns %p\n", maxcount, result));
     return result;
 }
-- 
2.43.0


From ae655c799349db56fb567d7ae649f5929c72cee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 12/30] fix: arg_dbl: reject an empty argument instead of
 reading it as zero

---
 src/arg_dbl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_dbl.c b/src/arg_dbl.c
index 3a00860..f63945a 100644
--- a/src/arg_dbl.c
+++ b/src/arg_dbl.c
@@ -62,7 +62,7 @@ static int arg_dbl_scanfn(struct arg_dbl* parent, const char* argval) {
         val = strtod(argval, &end);
 
         /* if success then store result in parent->dval[] array otherwise return error*/
-        if (*end == 0)
+        if (end != argval && *end == 0)
             parent->dval[parent->count++] = val;
         else
             errorcode = ARG_ERR_BADDOUBLE;
-- 
2.43.0


From d14a65dd1a2582dee327ce39da214d82a709e829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 13/30] fix: arg_date: count the years of a %C century from
 1900 as struct tm does

---
 src/arg_date.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 1977479..7b7ca81 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -402,9 +402,9 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     return (0);
 
                 if (split_year) {
-                    tm->tm_year = (tm->tm_year % 100) + (i * 100);
+                    tm->tm_year = (tm->tm_year % 100) + (i * 100 - TM_YEAR_BASE);
                 } else {
-                    tm->tm_year = i * 100;
+                    tm->tm_year = i * 100 - TM_YEAR_BASE;
                     split_year = 1;
                 }
                 break;
-- 
2.43.0


From 368fe8c4f07c88482a19e66f2649e22b3371c4cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 14/30] fix: arg_date: accept %p when more text follows it

---
 src/arg_date.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 7b7ca81..950d652 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -222,16 +222,6 @@ static const char* abmon[12] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul",
 
 static const char* am_pm[2] = {"AM", "PM"};
 
-static int arg_strcasecmp(const char* s1, const char* s2) {
-    const unsigned char* us1 = (const unsigned char*)s1;
-    const unsigned char* us2 = (const unsigned char*)s2;
-    while (tolower(*us1) == tolower(*us2++))
-        if (*us1++ == '\0')
-            return 0;
-
-    return tolower(*us1) - tolower(*--us2);
-}
-
 static int arg_strncasecmp(const char* s1, const char* s2, size_t n) {
     if (n != 0) {
         const unsigned char* us1 = (const unsigned char*)s1;
@@ -459,7 +449,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
             case 'p': /* The locale's equivalent of AM/PM. */
                 LEGAL_ALT(0);
                 /* AM? */
-                if (arg_strcasecmp(am_pm[0], bp) == 0) {
+                if (arg_strncasecmp(am_pm[0], bp, strlen(am_pm[0])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
@@ -467,7 +457,7 @@ char* arg_strptime(const char* buf, const char* fmt, struct tm* tm) {
                     break;
                 }
                 /* PM? */
-                else if (arg_strcasecmp(am_pm[1], bp) == 0) {
+                else if (arg_strncasecmp(am_pm[1], bp, strlen(am_pm[1])) == 0) {
                     if (tm->tm_hour > 11)
                         return (0);
 
-- 
2.43.0


From edce30a294cb9044c8e33814b043a23c7fafee03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 15/30] fix: arg_date: show a real date as the example of the
 correct format (%F is not supported)

---
 src/arg_date.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 950d652..2c51ad9 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -103,7 +103,7 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
 
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
-            arg_strptime("1999-12-31 23:59:59", "%F %H:%M:%S", &tm);
+            arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
             strftime(buff, sizeof(buff), parent->format, &tm);
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
-- 
2.43.0


From e88b3f5d7b06a4663e10b9560288bd78f96a975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 16/30] fix: arg_date: do not print an indeterminate buffer
 when the example does not fit

---
 src/arg_date.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_date.c b/src/arg_date.c
index 2c51ad9..cfad013 100644
--- a/src/arg_date.c
+++ b/src/arg_date.c
@@ -104,7 +104,8 @@ static void arg_date_errorfn(struct arg_date* parent, arg_dstr_t ds, int errorco
             arg_dstr_catf(ds, "illegal timestamp format \"%s\"\n", argval);
             memset(&tm, 0, sizeof(tm));
             arg_strptime("1999-12-31 23:59:59", "%Y-%m-%d %H:%M:%S", &tm);
-            strftime(buff, sizeof(buff), parent->format, &tm);
+            if (strftime(buff, sizeof(buff), parent->format, &tm) == 0)
+                buff[0] = '\0';
             arg_dstr_catf(ds, "correct format is \"%s\"\n", buff);
             break;
         }
-- 
2.43.0


From 71e04d49a8ecc6267664f9a084f0d9b919321b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 17/30] fix: arg_parse: count empty long option names so that
 they cannot overflow the option array

---
 src/argtable3.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index ae1920b..fc3c990 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -134,7 +134,9 @@ static struct longoptions* alloc_longoptions(struct arg_hdr** table) {
         longoptlen += (longopts ? strlen(longopts) : 0) + 1;
         while (longopts) {
             noptions++;
-            longopts = strchr(longopts + 1, ',');
+            longopts = strchr(longopts, ',');
+            if (longopts)
+                longopts++;
         }
     } while (!(table[tabindex++]->flag & ARG_TERMINATOR));
     /*printf("%d long options consuming %d chars in total\n",noptions,longoptlen);*/
-- 
2.43.0


From a902a5050dfb39eb83b6ad3ab896cabc1a2d9562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 18/30] fix: arg_int: reject a second sign, prefix or white
 space after the base prefix

---
 src/arg_int.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/arg_int.c b/src/arg_int.c
index 9d760c9..6c6ae35 100644
--- a/src/arg_int.c
+++ b/src/arg_int.c
@@ -95,6 +95,13 @@ static long int strtol0X(const char* str, const char** endptr, char X, int base)
     }
     /* printf("4) %s\n",ptr); */
 
+    /* the prefix must be directly followed by digits; strtol() itself */
+    /* would also take white space, another sign or another prefix     */
+    if (!isalnum((int)(*ptr)) || toupper(ptr[1]) == toupper(X)) {
+        *endptr = str;
+        return 0;
+    }
+
     /* attempt conversion on remainder of string using strtol() */
     val = strtol(ptr, (char**)endptr, base);
     if (*endptr == ptr) {
-- 
2.43.0


From e910cff4dd1ffbf861d42e83de80226fb1fd91e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:28 +0000
Subject: [PATCH 19/30] fix: arg_dstr_set: allow the new volatile value to be
 part of the old one

---
 src/arg_dstr.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/arg_dstr.c b/src/arg_dstr.c
index 0dbb2cd..e57613a 100644
--- a/src/arg_dstr.c
+++ b/src/arg_dstr.c
@@ -140,7 +140,8 @@ void arg_dstr_set(arg_dstr_t ds, char* str, arg_dstr_freefn* free_proc) {
             ds->data = ds->sbuf;
             ds->free_proc = ARG_DSTR_STATIC;
         }
-        strcpy(ds->data, str);
+        /* str may be part of the old value, so the areas may overlap */
+        memmove(ds->data, str, (size_t)length + 1);
     } else {
         ds->data = str;
         ds->free_proc = free_proc;
-- 
2.43.0


From 7cf8171c23a0b80022351088e0c9f13423d84bb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:12:03 +0000
Subject: [PATCH 20/30] fix: arg_cmd_register: allow re-registering a command
 with its own name and description strings

---
 src/arg_cmd.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/arg_cmd.c b/src/arg_cmd.c
index a58e871..15378d1 100644
--- a/src/arg_cmd.c
+++ b/src/arg_cmd.c
@@ -137,15 +137,6 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     assert(strlen(name) < ARG_CMD_NAME_LEN);
     assert(strlen(description) < ARG_CMD_DESCRIPTION_LEN);
 
-    /* Check if the command already exists. */
-    /* If the command exists, replace the existing command. */
-    /* If the command doesn't exist, insert the command. */
-    cmd_info = (arg_cmd_info_t*)arg_hashtable_search(s_hashtable, name);
-    if (cmd_info) {
-        arg_hashtable_remove(s_hashtable, name);
-        cmd_info = NULL;
-    }
-
     cmd_info = (arg_cmd_info_t*)xmalloc(sizeof(arg_cmd_info_t));
     memset(cmd_info, 0, sizeof(arg_cmd_info_t));
 
@@ -170,6 +161,14 @@ void arg_cmd_register(const char* name, arg_cmdfn* proc, const char* description
     memcpy((char*)k, name, slen_name);
 #endif
 
+    /* Check if the command already exists. */
+    /* If the command exists, replace the existing command. */
+    /* If the command doesn't exist, insert the command. */
+    /* Note: name and description may point into the command being replaced. */
+    if (arg_hashtable_search(s_hashtable, k)) {
+        arg_hashtable_remove(s_hashtable, k);
+    }
+
     arg_hashtable_insert(s_hashtable, k, cmd_info);
 }
 
-- 
2.43.0


From ae21da10eba3f0cab8850221ee74b83a3f7bd8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 21/30] fix: arg_print_formatted: do not print an explicit
 newline twice when the line is wrapped at it

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index fc3c990..f0ee374 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -903,7 +903,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
                 line_end = line_start + colwidth;
             } else {
                 /* Consume trailing spaces, except newlines */
-                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_start) != '\n') {
+                while ((line_end > line_start) && isspace((int)(*(text + line_end))) && *(text + line_end) != '\n') {
                     line_end--;
                 }
 
-- 
2.43.0


From 0c90910710761aa5385683aafc2a96fa4e3914af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 22/30] fix: arg_print_formatted: indent the last line also
 when it follows an explicit newline

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index f0ee374..d39c216 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -928,7 +928,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
         arg_dstr_cat(ds, "\n");
 
         /* Initialize another line */
-        if (line_end < textlen) {
+        if (line_start < textlen) {
             unsigned i;
 
             for (i = 0; i < lmargin; i++) {
-- 
2.43.0


From c86231951f326e62a9c27267ce682f484b337482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:13:16 +0000
Subject: [PATCH 23/30] fix: arg_print_glossary_gnu: end the line of an entry
 whose description is empty

---
 src/argtable3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/argtable3.c b/src/argtable3.c
index d39c216..b5f7de0 100644
--- a/src/argtable3.c
+++ b/src/argtable3.c
@@ -877,7 +877,7 @@ static void arg_print_formatted_ds(arg_dstr_t ds, const unsigned lmargin, const
     assert(strlen(text) < UINT_MAX);
 
     /* Someone doesn't like us... */
-    if (line_end < line_start) {
+    if (line_end <= line_start) {
         arg_dstr_catf(ds, "%s\n", text);
     }
 
-- 
2.43.0


From 8d67b371e14fed1c2a9eac1a49a02e72c5e40c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:12 +0000
Subject: [PATCH 24/30] fix: arg_rex: look at the characters on both sides of a
 \b word boundary

---
 src/arg_rex.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index c5df101..696ea7c 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -868,13 +868,15 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 exp->_matches[capture].len = (int)(cur - exp->_matches[capture].begin);
             return cur;
         }
-        case OP_WB:
-            if ((str == exp->_bol && !isspace((int)(*str))) || (str == exp->_eol && !isspace((int)(*(str - 1)))) ||
-                (str != exp->_eol && !isspace((int)(*str)) && isspace((int)(*(str + 1)))) ||
-                (str != exp->_eol && isspace((int)(*str)) && !isspace((int)(*(str + 1))))) {
+        case OP_WB: {
+            /* a boundary lies between a character that belongs to a word and one (or an end of the text) that does not */
+            int before = (str != exp->_bol && !isspace((int)(*(str - 1))));
+            int after = (str != exp->_eol && !isspace((int)(*str)));
+            if (before != after) {
                 return (node->left == 'b') ? str : NULL;
             }
             return (node->left == 'b') ? NULL : str;
+        }
         case OP_BOL:
             if (str == exp->_bol)
                 return str;
-- 
2.43.0


From 333fdbdadbfaf38a668c87336344b96ac73bb01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:12 +0000
Subject: [PATCH 25/30] fix: arg_rex: do not stop an unbounded repetition after
 65536 matches

---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 696ea7c..9550cd8 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -769,7 +769,7 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
                 greedystop = next;
             }
 
-            while ((nmaches == 0xFFFF || nmaches < p1)) {
+            while ((p1 == 0xFFFF || nmaches < p1)) {
                 const TRexChar* stop;
                 const TRexChar* prev = s;
                 if ((s = trex_matchnode(exp, &exp->_nodes[node->left], s, greedystop)) == NULL)
-- 
2.43.0


From d43e75419ecd1220f77fc6b71acb9d625774574f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:51:12 +0000
Subject: [PATCH 26/30] fix: arg_rex: report a repetition count that does not
 fit instead of truncating it

---
 src/arg_rex.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 9550cd8..235c899 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -558,6 +558,9 @@ static int trex_parsenumber(TRex* exp) {
         ret = ret * 10 + (*exp->_p++ - '0');
         positions *= 10;
     };
+    /* counts are kept in 16 bits, the largest of which stands for "unbounded" */
+    if (ret >= 0xFFFF)
+        trex_error(exp, _SC("repetition count too large"));
     return ret;
 }
 
-- 
2.43.0


From b02f274d110a70376e0259e408f415f5c0009b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:19 +0000
Subject: [PATCH 27/30] build: compile the library as gnu89 unless
 ARGTABLE3_STRICT_C89 is on, so that // comments are a warning, not an error

---
 CMakeLists.txt     | 1 +
 src/CMakeLists.txt | 7 ++++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/CMakeLists.txt b/CMakeLists.txt
index 67cee27..9072929 100644
--- a/CMakeLists.txt
+++ b/CMakeLists.txt
@@ -42,6 +42,7 @@ option(ARGTABLE3_ENABLE_EXAMPLES "Enable examples" ON)
 option(ARGTABLE3_ENABLE_ARG_REX_DEBUG "Enable arg_rex debug output" OFF)
 option(ARGTABLE3_REPLACE_GETOPT "Replace getopt in the system C library" ON)
 option(ARGTABLE3_LONG_ONLY "Use getopt_long_only instead of getopt_long" OFF)
+option(ARGTABLE3_STRICT_C89 "Compile the library as strict ISO C89" OFF)
 
 get_filename_component(VERSION_TAG_PATH "version.tag" ABSOLUTE)
 if(EXISTS ${VERSION_TAG_PATH})
diff --git a/src/CMakeLists.txt b/src/CMakeLists.txt
index 22bbc7f..f852754 100644
--- a/src/CMakeLists.txt
+++ b/src/CMakeLists.txt
@@ -37,7 +37,12 @@ if(CMAKE_C_COMPILER_ID MATCHES "MSVC")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4668")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} /wd4711")
 else(CMAKE_C_COMPILER_ID MATCHES "GNU|Clang")
-  set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  # gnu89 with -Wpedantic still reports everything outside ISO C89, but does not refuse to compile // comments
+  if(ARGTABLE3_STRICT_C89)
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=c89")
+  else()
+    set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -std=gnu89")
+  endif()
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wconversion")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wextra")
   set(CMAKE_C_FLAGS "${CMAKE_C_FLAGS} -Wall")
-- 
2.43.0


From 12b8365978a67bd342ceabda4892776254ae9314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:19 +0000
Subject: [PATCH 28/30] fix: compare the character, not the range's ends, in
 both cases for case-insensitive ranges

Changing the case of the ends of a range such as [a-~], [A-z] or [Z-b] made
it a different range: characters between the letters were accepted or refused
wrongly when case is ignored.
---
 src/arg_rex.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 235c899..2b0f442 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -731,9 +731,11 @@ static TRexBool trex_matchclass(TRex* exp, TRexNode* node, TRexChar c) {
         switch (node->type) {
             case OP_RANGE:
                 if (exp->_flags & TREX_ICASE) {
-                    if (c >= toupper(node->left) && c <= toupper(node->right))
+                    TRexChar upper = (TRexChar)toupper((unsigned char)c);
+                    TRexChar lower = (TRexChar)tolower((unsigned char)c);
+                    if (upper >= node->left && upper <= node->right)
                         return TRex_True;
-                    if (c >= tolower(node->left) && c <= tolower(node->right))
+                    if (lower >= node->left && lower <= node->right)
                         return TRex_True;
                 } else {
                     if (c >= node->left && c <= node->right)
-- 
2.43.0


From bcdcec098cbf429a96793410329ecd4f0709ad04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:19 +0000
Subject: [PATCH 29/30] fix: refuse an unfinished range in a character class

The check looked at the dash instead of the character behind it, so the
bracket closing the class was taken as the end of the range: '[+-]?[0-9]+'
accepted 'AAA'.
---
 src/arg_rex.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index 2b0f442..dd666c5 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -512,7 +512,7 @@ static int trex_class(TRex* exp) {
     while (*exp->_p != ']' && exp->_p != exp->_eol) {
         if (*exp->_p == '-' && first != -1) {
             int r, t;
-            if (*exp->_p++ == ']')
+            if (*++exp->_p == ']')
                 trex_error(exp, _SC("unfinished range"));
             r = trex_newnode(exp, OP_RANGE);
             if (exp->_nodes[first].type == OP_CCLASS)
-- 
2.43.0


From 13f34bef1acbbe86a38aeff493dc76271822ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:50 +0000
Subject: [PATCH 30/30] fix: let characters above 127 match themselves when
 case is ignored

Handed to tolower() and toupper() as negative values, they came back as
different ones.
---
 src/arg_rex.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arg_rex.c b/src/arg_rex.c
index dd666c5..a468574 100644
--- a/src/arg_rex.c
+++ b/src/arg_rex.c
@@ -748,7 +748,7 @@ static TRexBool trex_matchclass(TRex* exp, TRexNode* node, TRexChar c) {
                 break;
             default:
                 if (exp->_flags & TREX_ICASE) {
-                    if (c == tolower(node->type) || c == toupper(node->type))
+                    if (c == (TRexChar)tolower((unsigned char)node->type) || c == (TRexChar)toupper((unsigned char)node->type))
                         return TRex_True;
                 } else {
                     if (c == node->type)
@@ -917,7 +917,7 @@ static const TRexChar* trex_matchnode(TRex* exp, TRexNode* node, const TRexChar*
             if (str == exp->_eol)
                 return NULL;
             if (exp->_flags & TREX_ICASE) {
-                if (*str != tolower(node->type) && *str != toupper(node->type))
+                if (*str != (TRexChar)tolower((unsigned char)node->type) && *str != (TRexChar)toupper((unsigned char)node->type))
                     return NULL;
             } else {
                 if (*str != node->type)
-- 
2.43.0

