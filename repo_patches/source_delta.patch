From 1976fea4c3f52eef8a69e185153b726ed0137750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 01/30] fix: set the redex before tcl_eval can fail in -noX
 mode

Without it the failure overwrote whatever node an earlier step had left in redex.
---
 src/bin/fl/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b6d5810..b510b1e 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -3836,11 +3836,11 @@ traverse_left(g_ptr oroot)
                     {
                         if( depth < 1 )
                             goto clean_up;
+                        redex = *sp;
 			if( !gui_mode ) {
 			    Fail_pr("tcl_eval not available in -noX mode");
 			    goto fail1;
 			}
-                        redex = *sp;
                         arg1  = force(GET_APPLY_RIGHT(*sp), FALSE);
                         if( is_fail(arg1) )
                             goto arg1_fail1;
-- 
2.43.0


From 4e1c6f9691b6afec28b875ea81d1dc2583361bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 02/30] fix: propagate a failing left-hand side of an
 assignment instead of aborting

---
 src/bin/fl/graph.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index b510b1e..72c7ab6 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4511,6 +4511,8 @@ traverse_left(g_ptr oroot)
 			int ref_var;
 			ASSERT(depth == 2);
 			arg1 = traverse_left(GET_APPLY_RIGHT(*sp));
+			if( is_fail(arg1) )
+			    goto arg1_fail2;
 			ASSERT(IS_REF_VAR(arg1));
 			ref_var = GET_REF_VAR(arg1);
 			arg2 = force(GET_APPLY_RIGHT(*(sp+1)), FALSE);
-- 
2.43.0


From dd85e7c909cc38c08e1807579580448144aa158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 03/30] fix: name the right operation when taking the tail of
 an empty string

---
 src/bin/fl/graph.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 72c7ab6..6b5f910 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4354,7 +4354,7 @@ traverse_left(g_ptr oroot)
                         goto arg1_fail1;
 		    if( strlen(GET_STRING(arg1)) == 0 ) {
 			Fail_pr("Cannot take %s of empty string", 
-				(pfn = P_STRING_HD)? "hd" : "tl");
+				(pfn == P_STRING_HD)? "hd" : "tl");
 			goto fail1;
 		    }
 		    SET_TYPE(redex, LEAF);
-- 
2.43.0


From 63220ef5f629213f8e4ae86abb76f05cf26aacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:46 +0000
Subject: [PATCH 04/30] fix: report the failure of an argument of a caching
 function, not an earlier message

---
 src/bin/fl/graph.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/graph.c b/src/bin/fl/graph.c
index 6b5f910..ee4fb6c 100644
--- a/src/bin/fl/graph.c
+++ b/src/bin/fl/graph.c
@@ -4407,7 +4407,7 @@ traverse_left(g_ptr oroot)
 		    /* Force all arguments (note P_STRICT_TUPLE is used!) */
 		    arg1 = force(GET_APPLY_RIGHT(*sp), FALSE);
 		    if( is_fail(arg1) ) {
-			goto fail2;
+			goto arg1_fail2;
 		    }
 		    ASSERT( IS_CONS(arg1) );
 		    arg3 = arg1;
@@ -4416,7 +4416,8 @@ traverse_left(g_ptr oroot)
 			ASSERT( IS_CONS(arg3) );
 			res = GET_CONS_HD(arg3);
 			if( is_fail(res) ) {
-			    goto fail2;
+			    arg1 = res;
+			    goto arg1_fail2;
 			}
 			arg3 = GET_CONS_TL(arg3);
 		    }
-- 
2.43.0


From e6618ed34e6fe973a14e5cc26f077a46fc0871d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:52 +0000
Subject: [PATCH 05/30] fix: pass the kind of quantification, not a flag, from
 Rel_prod to quantify

With one operand equal to ONE (or both equal) Rel_prod handed its boolean
flag to quantify as the operation. The cache was then consulted under that
number, which is the code of AND, and a universal relational product was
computed as an existential one.
---
 src/bin/fl/new_bdd.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/new_bdd.c b/src/bin/fl/new_bdd.c
index 9c4d81e..0f49a8d 100644
--- a/src/bin/fl/new_bdd.c
+++ b/src/bin/fl/new_bdd.c
@@ -933,9 +933,9 @@ Rel_prod(formula qv, formula a, formula b, bool existential)
     if( a == ZERO || b == ZERO || a == NOT(b) )
 	BDD_RETURN( ZERO );
     if( a == ONE || (a == b))
-	BDD_RETURN( quantify(b, qv, existential) );
+	BDD_RETURN( quantify(b, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( b == ONE )
-	BDD_RETURN( quantify(a, qv, existential) );
+	BDD_RETURN( quantify(a, qv, existential? EXISTENTIAL : UNIVERSAL) );
     if( qv == ONE || qv == ZERO )
 	BDD_RETURN( B_And(a,b) );
 
-- 
2.43.0


From 35eab1b1f44241af8c8a9a183340e10d628002c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 06/30] fix: propagate a failing second operand of bAND and bOR

The result of reduce was read as a Boolean expression without checking
whether the evaluation had failed.
---
 src/bin/fl/bexpr.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index f72d8d7..c2901eb 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -498,6 +498,10 @@ bAND(g_ptr redex)
 	MAKE_REDEX_BEXPR(redex, BE_FALSE);
     } else {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(redex), FALSE);
+	if( IS_FAILURE(arg2) ) {
+	    OVERWRITE(redex, arg2);
+	    return;
+	}
 	MAKE_REDEX_BEXPR(redex, BE_And(GET_BEXPR(arg1),GET_BEXPR(arg2)));
     }
     DEC_REF_CNT(l);
@@ -514,6 +518,10 @@ bOR(g_ptr redex)
 	MAKE_REDEX_BEXPR(redex, BE_TRUE);
     } else {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(redex), FALSE);
+	if( IS_FAILURE(arg2) ) {
+	    OVERWRITE(redex, arg2);
+	    return;
+	}
 	MAKE_REDEX_BEXPR(redex, BE_Or(GET_BEXPR(arg1),GET_BEXPR(arg2)));
     }
     DEC_REF_CNT(l);
-- 
2.43.0


From 945eaef30e04ab3f375ed3091aed81e30359f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:40 +0000
Subject: [PATCH 07/30] fix: set the condition of a bITE after its branches
 have been evaluated

The condition is passed to Gen_map2 in a static variable. A bITE inside
one of the branches overwrote it before it was used.
---
 src/bin/fl/bexpr.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index c2901eb..c42bd9a 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1061,17 +1061,19 @@ bITE(g_ptr redex)
     g_ptr r = GET_APPLY_RIGHT(redex);
     g_ptr ll = GET_APPLY_LEFT(l);
     g_ptr arg1 = GET_APPLY_RIGHT(ll);
-    current_bexpr_cond = GET_BEXPR(arg1);
-    if( BE_IS_TRUE(current_bexpr_cond) ) {
+    bexpr cond = GET_BEXPR(arg1);
+    if( BE_IS_TRUE(cond) ) {
 	g_ptr arg2 = reduce(GET_APPLY_RIGHT(l), FALSE);
 	OVERWRITE(redex, arg2);
     } else 
-    if( BE_IS_FALSE(current_bexpr_cond) ) {
+    if( BE_IS_FALSE(cond) ) {
 	g_ptr arg3 = reduce(GET_APPLY_RIGHT(redex), FALSE);
 	OVERWRITE(redex, arg3);
     } else {
 	g_ptr arg2 = force(GET_APPLY_RIGHT(l), FALSE);
 	g_ptr arg3 = force(GET_APPLY_RIGHT(redex), FALSE);
+	// Forcing the branches may have evaluated other bITEs
+	current_bexpr_cond = cond;
 	g_ptr res = Gen_map2(s_bITE, g_be_ite, arg2, arg3, FALSE);
 	OVERWRITE(redex, res);
     }
-- 
2.43.0


From 68cdf57e9e588a85f7afb5391946457e8d572e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:10 +0000
Subject: [PATCH 08/30] fix: read the height of a Boolean expression through
 its uncomplemented pointer

A complemented operand has a tag bit in its pointer, so another field was
read as the height.
---
 src/bin/fl/bexpr.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index c42bd9a..6214472 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -1566,7 +1566,7 @@ be_and(bexpr f1, bexpr f2)
     }
     if( RC_reorder_bexpr_ands ) {
 	// Make the right-spine as large as possible
-	if( f1->height > f2->height ) {
+	if( BE_POS(f1)->height > BE_POS(f2)->height ) {
 	    bexpr tmp = f1;
 	    f1 = f2;
 	    f2 = tmp;
@@ -1576,7 +1576,7 @@ be_and(bexpr f1, bexpr f2)
     b.type = BE_AND;
     b.l.be = f1;
     b.r = f2;
-    b.height = max(f1->height, f2->height) + 1;
+    b.height = max(BE_POS(f1)->height, BE_POS(f2)->height) + 1;
     return( be_find_insert(&b) );
 }
 
-- 
2.43.0


From b5994257842729d1af8f487f1f756bece554782a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:53 +0000
Subject: [PATCH 09/30] fix: keep the BDDs of a bexpr under a substitution
 apart from its own

base_bexpr2bdd stored the BDD computed under one substitution in the node
and returned it for every later conversion, whatever its substitution.
---
 src/bin/fl/bexpr.c | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index 6214472..fcee4fc 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -34,6 +34,9 @@ static char	    buf[1024];
 static hash_record  depend_tbl;
 static hash_record  gl_subst_tbl;
 static hash_record  bexpr2bdd_sub_tbl;
+static hash_record  bexpr2bdd_res_tbl;
+static buffer	    bexpr2bdd_res_buf;
+static bool	    bexpr2bdd_substituting;
 static hash_record  res_tbl;
 static hash_record  bdd2bexpr_tbl;
 static buffer	    bvar_buf;
@@ -561,6 +564,7 @@ bexpr2bdd(g_ptr redex)
     g_ptr sub, bf;
     EXTRACT_2_ARGS(redex, sub, bf);
     create_hash(&bexpr2bdd_sub_tbl, 100, str_hash, str_equ);
+    bexpr2bdd_substituting = !IS_NIL(sub);
     while( !IS_NIL(sub) ) {
         g_ptr pair = GET_CONS_HD(sub);
         string v = GET_STRING(GET_CONS_HD(pair));
@@ -568,7 +572,12 @@ bexpr2bdd(g_ptr redex)
 	insert_hash(&bexpr2bdd_sub_tbl, v, e);
         sub = GET_CONS_TL(sub);
     }
+    create_hash(&bexpr2bdd_res_tbl, 100, ptr_hash, ptr_equ);
+    new_buf(&bexpr2bdd_res_buf, 100, sizeof(formula));
     MAKE_REDEX_BOOL(redex, be2bdd(GET_BEXPR(bf)));
+    POP_BDD_GC(COUNT_BUF(&bexpr2bdd_res_buf));
+    free_buf(&bexpr2bdd_res_buf);
+    dispose_hash(&bexpr2bdd_res_tbl, NULLFCN);
     dispose_hash(&bexpr2bdd_sub_tbl, NULLFCN);
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
@@ -1415,10 +1424,17 @@ be2bdd(bexpr be)
     if( BE_IS_TRUE(be) ) return( B_One() );
     bool neg = BE_IS_NEG(be);
     bexpr b = BE_POS(be);
-    if( b->has_bdd ) {
+    formula res;
+    // The bdd kept in the node is for the expression without substitutions
+    if( bexpr2bdd_substituting ) {
+	int idx = PTR2INT(find_hash(&bexpr2bdd_res_tbl, b));
+	if( idx != 0 ) {
+	    res = *((formula *) M_LOCATE_BUF(&bexpr2bdd_res_buf, idx-1));
+	    return( neg? B_Not(res) : res );
+	}
+    } else if( b->has_bdd ) {
 	return( neg? B_Not(b->bdd) : b->bdd );
     }
-    formula res;
     if( BE_IS_VAR(b) )  {
 	string v = BE_GET_VAR(b);
 	g_ptr old;
@@ -1433,8 +1449,15 @@ be2bdd(bexpr be)
 	if( Do_gc_asap ) Garbage_collect();
 	POP_BDD_GC(1);
     }
-    b->bdd = res;
-    b->has_bdd = 1;
+    if( bexpr2bdd_substituting ) {
+	PUSH_BDD_GC(res);
+	push_buf(&bexpr2bdd_res_buf, (pointer) &res);
+	insert_hash(&bexpr2bdd_res_tbl, b,
+		    INT2PTR(COUNT_BUF(&bexpr2bdd_res_buf)));
+    } else {
+	b->bdd = res;
+	b->has_bdd = 1;
+    }
     return( neg? B_Not(res) : res );
 }
 
-- 
2.43.0


From 0c8f6ceefe7a13e59ad697d2b054d15ba0b921f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 10/30] fix: initialize no_weakening in compiled operations

Whether dynamic weakening applied to an operation depended on whatever
was on the stack when it was compiled.
---
 src/bin/fl/fsm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 3d3bcbf..834bbeb 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4639,6 +4639,7 @@ compile_expr(hash_record *vtblp, string hier, ilist_ptr outs, g_ptr we,
     ncomp_rec cr;
     cr.rank = 0;
     cr.flag = 0;
+    cr.no_weakening = FALSE;
     cr.phase_delay = pdel;
     cr.outs = outs;
     if( is_W_VAR(we, &sz, &base) ) {
-- 
2.43.0


From 8b451f1b39a3bde0fb67f152385fa46096c38edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 11/30] fix: keep STE constraints active while another one
 overlaps

The end of an antecedent, consequent or weakening interval switched off
every other one still active on the node, so that checks (and drives)
were silently dropped.
---
 src/bin/fl/fsm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 834bbeb..790bac1 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3614,7 +3614,6 @@ process_event(buffer *event_bufp, int time)
 			buf = weak_buf;
 			break;
 		    case end_weak:
-			np->has_weak = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			if( c_EQ(ep->H, c_ZERO) && c_EQ(ep->L, c_ZERO) ) {
 			    if( np->composite >= 0 ) {
@@ -3625,6 +3624,7 @@ process_event(buffer *event_bufp, int time)
 			    }
 			}
 			cur_active = delete_active_event(active_weak_tblp, ep);
+			np->has_weak = (cur_active != NULL);
 			buf = weak_buf;
 			break;
 		    case start_ant:
@@ -3634,9 +3634,9 @@ process_event(buffer *event_bufp, int time)
 			buf = ant_buf;
 			break;
 		    case end_ant:
-			np->has_ant = FALSE;
 			np->has_ant_or_weak_change = TRUE;
 			cur_active = delete_active_event(active_ant_tblp, ep);
+			np->has_ant = (cur_active != NULL);
 			buf = ant_buf;
 			break;
 		    case start_cons:
@@ -3645,8 +3645,8 @@ process_event(buffer *event_bufp, int time)
 			buf = cons_buf;
 			break;
 		    case end_cons:
-			np->has_cons = FALSE;
 			cur_active = delete_active_event(active_cons_tblp, ep);
+			np->has_cons = (cur_active != NULL);
 			buf = cons_buf;
 			break;
 		    default:
-- 
2.43.0


From 5cda1ac43889f67ac9237d409e34f39d35125061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:20 +0000
Subject: [PATCH 12/30] fix: combine overlapping STE weakenings by disjunction

Overlapping weakenings of a node were conjoined, so that it was only
weakened when all of them applied.
---
 src/bin/fl/fsm.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 790bac1..33778a6 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3653,11 +3653,15 @@ process_event(buffer *event_bufp, int time)
 			DIE("Should not happen");
 			break;
 		}
-		gbv H = c_ONE;
-		gbv L = c_ONE;
+		// A node is weakened if any weakening asks for it, but
+		// must meet all antecedents/consequents.
+		bool is_weak = (buf == weak_buf);
+		gbv H = is_weak? c_ZERO : c_ONE;
+		gbv L = is_weak? c_ZERO : c_ONE;
 		while( cur_active ) {
-		    H = c_AND(H, cur_active->ep->H);
-		    L = c_AND(L, cur_active->ep->L);
+		    event_ptr aep = cur_active->ep;
+		    H = is_weak? c_OR(H, aep->H) : c_AND(H, aep->H);
+		    L = is_weak? c_OR(L, aep->L) : c_AND(L, aep->L);
 		    cur_active = cur_active->next;
 		}
 		*(buf + 2*idx)   = H;
-- 
2.43.0


From 0a146022e96faef200176611ddfb32d724b233e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:30 +0000
Subject: [PATCH 13/30] fix: ignore STE constraints over empty intervals

The end event was processed before the start event, which made fl abort
on an assertion (or, for traces, leave the trace switched on).
---
 src/bin/fl/fsm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 33778a6..db4e2be 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3429,6 +3429,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in weakening list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3458,6 +3459,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in antecedent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3503,6 +3505,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in consequent\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
@@ -3547,6 +3550,7 @@ create_event_buffer(ste_ptr ste, buffer *ebufp,
 	    Fail_pr("Cannot find node %s in trace list\n", node);
 	    longjmp(event_jmp_env, 1);
 	}
+	if( from >= to ) { continue; }	// Empty interval
 	event_ptr ep = new_rec(event_rec_mgrp);
 	int event_id = event_id_cnt++;
 	ep->event_id = event_id;
-- 
2.43.0


From 25a0a22d05b208fa5e6ed8a219abf9942fd4938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 14/30] fix: clean up when STE is given an unknown node name

bSTE jumped to a stale (or never initialized) jmp_buf, and newSTE left
the fsm, the ste and the string table pushed.
---
 src/bin/fl/fsm.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index db4e2be..2e01a51 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -866,19 +866,29 @@ ilist_ptr_equ(pointer k1, pointer k2)
 /********************************************************/
 
 static void
-newSTE(g_ptr redex)
+run_STE(g_ptr redex, value_type type)
 {
     if( setjmp(event_jmp_env) == 0 ) { 
-	gSTE(redex, use_bdds);
+	gSTE(redex, type);
     } else {
+	// Illegal node name in one of the lists
+	pop_ste();
+	pop_fsm();
+	End_string_ops(sop);
 	MAKE_REDEX_FAILURE(redex, FailBuf);
     }
 }
 
+static void
+newSTE(g_ptr redex)
+{
+    run_STE(redex, use_bdds);
+}
+
 static void
 bSTE(g_ptr redex)
 {
-    gSTE(redex, use_bexprs);
+    run_STE(redex, use_bexprs);
 }
 
 static void
@@ -8644,13 +8654,13 @@ gSTE(g_ptr redex, value_type type)
 	}
     }
 
-    old_handler = signal(SIGINT, simulation_break_handler);
-    quit_simulation_early = FALSE;
-
     //
     // Now translate weakenings, ant, cons and trl into events
     //
     bool ok = create_event_buffer(ste,event_bufp,wl,ant,cons,trl,abort_ASAP);
+
+    quit_simulation_early = FALSE;
+    old_handler = signal(SIGINT, simulation_break_handler);
     //
     // Allocate value buffers
     //
-- 
2.43.0


From c28d9fabf03cb78eadcbc625427eb61e93ec8564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 15/30] fix: clean up on every way out of an STE run

Aborted, interrupted and failing runs left value buffers, the fsm, the
string table or the verbosity setting behind.
---
 src/bin/fl/fsm.c | 63 ++++++++++++++++++------------------------------
 1 file changed, 24 insertions(+), 39 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 2e01a51..60bbb75 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -7210,11 +7210,6 @@ update_node(ste_ptr ste, int idx, gbv Hnew, gbv Lnew)
 		    ste->validTrajectory = v;
 		    ste->max_time = ste->cur_time;
 		    ste->active = FALSE;
-		    if( gui_mode ) {
-			Sprintf(buf, "simulation_end");
-			Info_to_tcl(buf);
-		    }
-		    pop_fsm();
 		    kill(getpid(), SIGINT);
 		    return 0;
 		}
@@ -8585,6 +8580,20 @@ stop_node_active(int idx)
     return( c_isT(Hcur, Lcur) );
 }
 
+static void
+end_simulation(ste_ptr ste, void (*old_handler)())
+{
+    free_ste_buffers();
+    ste->active = FALSE;
+    if( gui_mode ) {
+	Sprintf(buf, "simulation_end");
+	Info_to_tcl(buf);
+    }
+    signal(SIGINT, old_handler);
+    End_string_ops(sop);
+    pop_fsm();
+}
+
 static void
 gSTE(g_ptr redex, value_type type)
 {
@@ -8681,6 +8690,7 @@ gSTE(g_ptr redex, value_type type)
     //
     MAKE_REDEX_EXT_OBJ(redex, ste_oidx, ste);
     if( !ok || quit_simulation_early ) {
+	free_ste_buffers();
 	ste->max_time = 0;
 	pop_fsm();
 	End_string_ops(sop);
@@ -8693,7 +8703,9 @@ gSTE(g_ptr redex, value_type type)
     //
     bool old_RCverbose_ste_run = RCverbose_ste_run;
     RCverbose_ste_run = FALSE;
-    if( !initialize(ste, trace_all) || quit_simulation_early ) {
+    bool init_ok = initialize(ste, trace_all);
+    RCverbose_ste_run = old_RCverbose_ste_run;
+    if( !init_ok || quit_simulation_early ) {
 	if( quit_simulation_early ) {
 	    MAKE_REDEX_FAILURE(redex, Fail_pr("Simulation interrupted"));
 	} else {
@@ -8707,8 +8719,7 @@ gSTE(g_ptr redex, value_type type)
 	signal(SIGINT, old_handler);
 	return;
     }
-    RCverbose_ste_run = old_RCverbose_ste_run;
- 
+
     // Is there anything to run?
     if( COUNT_BUF(event_bufp) == 0 ) {
 	MAKE_REDEX_EXT_OBJ(redex, ste_oidx, ste);
@@ -8741,13 +8752,8 @@ gSTE(g_ptr redex, value_type type)
     for(int t = min_time; t <= max_time; t++) {
 	ste->cur_time = t;
 	if( t > abort_time || quit_simulation_early ) {
-	    if( gui_mode ) {
-		Sprintf(buf, "simulation_end");
-		Info_to_tcl(buf);
-	    }
-	    FP(warning_fp, "Simulation interrupted at time %d\n", abort_time);
-	    ste->active = FALSE;
-	    signal(SIGINT, old_handler);
+	    FP(warning_fp, "Simulation interrupted at time %d\n", t);
+	    end_simulation(ste, old_handler);
 	    return;
 	}
 	if( RCprint_time ) {
@@ -8761,15 +8767,7 @@ gSTE(g_ptr redex, value_type type)
 	}
 	if ( stop_node_active(stop_idx) ) {
 	    ste->max_time = t;
-	    free_ste_buffers();
-	    ste->active = FALSE;
-	    if( gui_mode ) {
-		Sprintf(buf, "simulation_end");
-		Info_to_tcl(buf);
-	    }
-	    signal(SIGINT, old_handler);
-	    End_string_ops(sop);
-	    pop_fsm();
+	    end_simulation(ste, old_handler);
 	    return;
 	}
 
@@ -8837,13 +8835,8 @@ gSTE(g_ptr redex, value_type type)
 			    v = c_AND(v, c_OR(c_NOT(curH), chkH));
 			    v = c_AND(v, c_OR(c_NOT(curL), chkL));
 			    ste->checkTrajectory = v;
-			    if( gui_mode ) {
-				Sprintf(buf, "simulation_end");
-				Info_to_tcl(buf);
-			    }
-			    ste->active = FALSE;
 			    ste->max_time = t;
-			    signal(SIGINT, old_handler);
+			    end_simulation(ste, old_handler);
 			    return;
 			}
 		    }
@@ -8865,15 +8858,7 @@ gSTE(g_ptr redex, value_type type)
 	    Garbage_collect();
     }
     ste->max_time = max_time;
-    free_ste_buffers();
-    ste->active = FALSE;
-    if( gui_mode ) {
-	Sprintf(buf, "simulation_end");
-	Info_to_tcl(buf);
-    }
-    signal(SIGINT, old_handler);
-    End_string_ops(sop);
-    pop_fsm();
+    end_simulation(ste, old_handler);
 }
 
 void
-- 
2.43.0


From 66872ac8435132f1be9936a4b0cfe6d2f2d3951e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:16 +0000
Subject: [PATCH 16/30] fix: fail when the circuit does not stabilize during an
 STE run

The verdict was computed from the arbitrary node values at the point
where the relaxation was given up.
---
 src/bin/fl/fsm.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 60bbb75..618e2c6 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -8789,7 +8789,17 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
-	do_combinational(ste);
+	if( do_combinational(ste) < 0 ) {
+	    // The node values are meaningless
+	    if( quit_simulation_early ) {
+		FP(warning_fp, "Simulation interrupted at time %d\n", t);
+	    } else {
+		MAKE_REDEX_FAILURE(redex,
+		    Fail_pr("Circuit did not stabilize at time %d", t));
+	    }
+	    end_simulation(ste, old_handler);
+	    return;
+	}
 	// Do consequents and traces
 	idx = 0;
 	FOR_BUF(nodesp, nnode_rec, np) {
-- 
2.43.0


From 970817c75394727bff71858fc462cbb7ba985ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:51 +0000
Subject: [PATCH 17/30] fix: let shifts by 2^32 and more empty the word

---
 src/bin/fl/fsm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 618e2c6..7351259 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -6321,7 +6321,8 @@ op_SHL(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshl_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	// Anything >= size shifts all bits out (and must not overflow)
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6346,7 +6347,8 @@ op_SHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sshr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	// Anything >= size shifts all bits out (and must not overflow)
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
@@ -6373,7 +6375,8 @@ op_ASHR(ncomp_ptr op)
 	gbv bL = INP_L(i+op->size);
 	sashr_fun(op->size, cur, shift, tmp);
 	ITE_fn(op->size, bH, bL, tmp, cur, cur);
-	shift *= 2;
+	// Anything >= size shifts all bits out (and must not overflow)
+	if( shift < op->size ) { shift *= 2; }
     }
     FROM_LSB_TO_MSB(op->size, i) {
 	OUT_H(i) = *(cur+2*i);
-- 
2.43.0


From 35f3e4df7ed8b9eab2370cf075b0028e345e2fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 18/30] fix: re-evaluate a node when an antecedent ends while
 another event starts

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 7351259..6385431 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3600,7 +3600,6 @@ process_event(buffer *event_bufp, int time)
 	} else {
 	    int idx = ep->nd_idx;
 	    nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
-	    np->has_ant_or_weak_change = FALSE;
 	    if( ep->type == start_trace ) {
 		np->has_trace = TRUE;
 		gbv H = *(cur_buf + 2*idx);
@@ -7261,6 +7260,7 @@ initialize(ste_ptr ste, bool trace_all)
 	np->has_ant = FALSE;
 	np->has_cons = FALSE;
 	np->has_trace = FALSE;
+	np->has_ant_or_weak_change = FALSE;
     }
     ncomp_ptr cp;
     FOR_BUF(compositesp, ncomp_rec, cp) {
-- 
2.43.0


From 52f7a3e45baa5e3f3960cb07c4f591521d2f260e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:48 +0000
Subject: [PATCH 19/30] fix: apply STE constraints on phase-delayed nodes in
 their own phase

---
 src/bin/fl/fsm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 6385431..0676f64 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -8783,7 +8783,13 @@ gSTE(g_ptr redex, value_type type)
 		if( np->composite >= 0 ) {
 		    ncomp_ptr c;
 		    c = (ncomp_ptr) M_LOCATE_BUF(compositesp,np->composite);
-		    add_op_todo(c);
+		    if( c->phase_delay ) {
+			// The value was computed in the previous phase
+			update_node(ste, idx, *(next_buf+2*idx),
+					      *(next_buf+2*idx+1));
+		    } else {
+			add_op_todo(c);
+		    }
 		} else if( np->composite == -1 ) {
 		    // Input node
 		    update_node(ste, idx, c_ONE, c_ONE);
@@ -8866,6 +8872,8 @@ gSTE(g_ptr redex, value_type type)
 	    }
 	    idx++;
 	}
+	// The values of the next phase must meet its constraints, not these
+	process_event(event_bufp, t+1);
 	do_phase(ste);
 	if( Do_gc_asap )
 	    Garbage_collect();
-- 
2.43.0


From 451407e210e1b54f3646f7be6dc4bc8e36994c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:29 +0000
Subject: [PATCH 20/30] fix: keep the phase delay of a named predicate

---
 src/bin/fl/fsm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 0676f64..a5a6169 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -4749,7 +4749,7 @@ compile_expr(hash_record *vtblp, string hier, ilist_ptr outs, g_ptr we,
 	return( TRUE );
     }
     if( is_W_PRED(we, &name, &l) ) {
-	if( !compile_expr(vtblp, hier, outs, l, FALSE) ) {
+	if( !compile_expr(vtblp, hier, outs, l, pdel) ) {
 	    return FALSE;
 	}
 	return TRUE;
-- 
2.43.0


From c556fa64c840d912124388d539883ea0fd06ccf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:28 +0000
Subject: [PATCH 21/30] fix: release the string context when basename or
 get_latch_type fails

---
 src/bin/fl/fsm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index a5a6169..624cd0f 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1150,6 +1150,7 @@ get_latch_type(g_ptr redex)
     if( idx < 0 ) {
         pop_fsm();
         MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+        End_string_ops(sop);
         return;
     }
     nnode_ptr np = (nnode_ptr) M_LOCATE_BUF(nodesp, idx);
@@ -1897,6 +1898,7 @@ basename(g_ptr redex)
     if( idx < 0 ) {
 	pop_fsm();
 	MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+	End_string_ops(sop);
 	return;
     }
     string bname = idx2name(idx);
-- 
2.43.0


From 0b48455806830b808289573483ef50f363c72d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:53 +0000
Subject: [PATCH 22/30] fix: let the predicates of fanin_dfs and fanout_dfs
 operate on circuits

---
 src/bin/fl/fsm.c | 36 ++++++++++++++++++++++++++++++++----
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 624cd0f..2e12f2b 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1633,6 +1633,8 @@ fanin_dfs(g_ptr redex)
 	if( idx < 0 ) {
 	    pop_fsm();
 	    MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+	    free_buf(&todo_buf);
+	    dispose_hash(&done_tbl, NULLFCN);
 	    End_string_ops(sop);
 	    return;
 	}
@@ -1642,6 +1644,8 @@ fanin_dfs(g_ptr redex)
     }
     MAKE_REDEX_NIL(redex);
     PUSH_GLOBAL_GC(redex);
+    PUSH_GLOBAL_GC(g_fsm);
+    PUSH_GLOBAL_GC(pred);
     g_ptr tail = redex;
     // Process nodes in bfs order....
     while( COUNT_BUF(&todo_buf) > 0 ) {
@@ -1657,9 +1661,19 @@ fanin_dfs(g_ptr redex)
 		// Only apply predicate on real fanin nodes
 		g_ptr stop = Make_APPL_ND(pred, Make_STRING_leaf(name));
 		INC_REFCNT(pred);
+		// The predicate may itself operate on a circuit
+		pop_fsm();
+		End_string_ops(sop);
 		Eval(stop);
+		sop = Begin_string_ops();
+		push_fsm(fsm);
 		if( is_fail(stop) ) {
-		    MAKE_REDEX_FAILURE(redex, FailBuf);
+		    MAKE_REDEX_FAILURE(redex, GET_FAIL_STRING(stop));
+		    POP_GLOBAL_GC(3);
+		    free_buf(&todo_buf);
+		    dispose_hash(&done_tbl, NULLFCN);
+		    pop_fsm();
+		    End_string_ops(sop);
 		    return;
 		}
 		if( GET_BOOL(stop) == B_One() ) { keep_going = FALSE; }
@@ -1677,9 +1691,10 @@ fanin_dfs(g_ptr redex)
 	    }
 	}
     }
-    POP_GLOBAL_GC(1);
+    POP_GLOBAL_GC(3);
     free_buf(&todo_buf);
     dispose_hash(&done_tbl, NULLFCN);
+    pop_fsm();
     End_string_ops(sop);
 }
 
@@ -1739,6 +1754,8 @@ fanout_dfs(g_ptr redex)
     }
     MAKE_REDEX_NIL(redex);
     PUSH_GLOBAL_GC(redex);
+    PUSH_GLOBAL_GC(g_fsm);
+    PUSH_GLOBAL_GC(pred);
     g_ptr tail = redex;
     // Process nodes in bfs order....
     while( COUNT_BUF(&todo_buf) > 0 ) {
@@ -1754,9 +1771,19 @@ fanout_dfs(g_ptr redex)
 		// Only apply predicate on real fanout nodes
 		g_ptr stop = Make_APPL_ND(pred, Make_STRING_leaf(name));
 		INC_REFCNT(pred);
+		// The predicate may itself operate on a circuit
+		pop_fsm();
+		End_string_ops(sop);
 		Eval(stop);
+		sop = Begin_string_ops();
+		push_fsm(fsm);
 		if( is_fail(stop) ) {
-		    MAKE_REDEX_FAILURE(redex, FailBuf);
+		    MAKE_REDEX_FAILURE(redex, GET_FAIL_STRING(stop));
+		    POP_GLOBAL_GC(3);
+		    free_buf(&todo_buf);
+		    dispose_hash(&done_tbl, NULLFCN);
+		    pop_fsm();
+		    End_string_ops(sop);
 		    return;
 		}
 		if( GET_BOOL(stop) == B_One() ) { keep_going = FALSE; }
@@ -1772,9 +1799,10 @@ fanout_dfs(g_ptr redex)
 	    }
 	}
     }
-    POP_GLOBAL_GC(1);
+    POP_GLOBAL_GC(3);
     free_buf(&todo_buf);
     dispose_hash(&done_tbl, NULLFCN);
+    pop_fsm();
     End_string_ops(sop);
 }
 
-- 
2.43.0


From 9404c010d140bc625bfa408cb8832b54419e65f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:20 +0000
Subject: [PATCH 23/30] fix: fail when fanout_dfs is given an unknown node

---
 src/bin/fl/fsm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 2e12f2b..2964d71 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1747,7 +1747,15 @@ fanout_dfs(g_ptr redex)
     int cnt = 0;
     while( !IS_NIL(nodes) ) {
 	string node = GET_STRING(GET_CONS_HD(nodes));
-	unint idx = name2idx(node);
+	int idx = name2idx(node);
+	if( idx < 0 ) {
+	    pop_fsm();
+	    MAKE_REDEX_FAILURE(redex, Fail_pr("Node %s not in fsm", node));
+	    free_buf(&todo_buf);
+	    dispose_hash(&done_tbl, NULLFCN);
+	    End_string_ops(sop);
+	    return;
+	}
 	push_buf(&todo_buf, &idx);
 	cnt++;
 	nodes = GET_CONS_TL(nodes);
-- 
2.43.0


From 1bc4b9d6802a5e73036c45e400c56d456f780892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 24/30] fix: stop emit_fsm when its file cannot be opened

---
 src/bin/fl/fsm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 2964d71..d6b45de 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1904,6 +1904,8 @@ emit_fsm(g_ptr redex)
 			   Fail_pr("Cannot open file %s for writing", file));
 	DEC_REF_CNT(l);
 	DEC_REF_CNT(r);
+	pop_fsm();
+	return;
     }
 
     FP(FILE_fp, "FSM for %s with signature:\n%s\nRanks: %d\n",
@@ -1915,6 +1917,7 @@ emit_fsm(g_ptr redex)
     fclose(odests_fp);
     odests_fp = NULL;
     MAKE_REDEX_VOID(redex);
+    pop_fsm();
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
-- 
2.43.0


From 117b6f0ee11d77ca282bbcc17e08dd149d3c6d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 25/30] fix: leave the evaluation and visualization contexts on
 every way out of an STE run

---
 src/bin/fl/fsm.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index d6b45de..0a597ba 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -3916,6 +3916,10 @@ pop_fsm_env()
     top_inpsp = old_top_inpsp;
     top_outsp = old_top_outsp;
     propsp = old_propsp;
+    vis_io_rec_mgrp = old_vis_io_rec_mgrp;
+    vis_rec_mgrp = old_vis_rec_mgrp;
+    vis_list_rec_mgrp = old_vis_list_rec_mgrp;
+    attr_list_rec_mgrp = old_attr_list_rec_mgrp;
 }
 
 static void
@@ -8635,6 +8639,7 @@ end_simulation(ste_ptr ste, void (*old_handler)())
     }
     signal(SIGINT, old_handler);
     End_string_ops(sop);
+    pop_ste();
     pop_fsm();
 }
 
@@ -8736,6 +8741,7 @@ gSTE(g_ptr redex, value_type type)
     if( !ok || quit_simulation_early ) {
 	free_ste_buffers();
 	ste->max_time = 0;
+	pop_ste();
 	pop_fsm();
 	End_string_ops(sop);
 	signal(SIGINT, old_handler);
@@ -8758,6 +8764,7 @@ gSTE(g_ptr redex, value_type type)
 	free_ste_buffers();
 	ste->max_time = 0;
 	ste->active = FALSE;
+	pop_ste();
 	pop_fsm();
 	End_string_ops(sop);
 	signal(SIGINT, old_handler);
@@ -8771,6 +8778,7 @@ gSTE(g_ptr redex, value_type type)
 	free_ste_buffers();
 	ste->active = FALSE;
 	End_string_ops(sop);
+	pop_ste();
 	pop_fsm();
 	signal(SIGINT, old_handler);
 	return;
-- 
2.43.0


From c50d234c81523860de903d205ab78ea02d5e4423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:56 +0000
Subject: [PATCH 26/30] fix: free local tables on the failing paths of six
 operations

---
 src/bin/fl/bexpr.c  | 2 ++
 src/bin/fl/fsm.c    | 3 +++
 src/bin/fl/image.c  | 8 ++++++++
 src/bin/fl/pexlif.c | 5 +++++
 src/bin/fl/symbol.c | 1 +
 5 files changed, 19 insertions(+)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index fcee4fc..ccd2c67 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -775,6 +775,7 @@ bget_model(g_ptr redex)
 	    SET_CONS_TL(redex, NULL);
 	    DEC_REF_CNT(l);
 	    DEC_REF_CNT(r);
+	    free_buf(&assumptions);
 	    return;
 	}
 	// Ignore constant true assumptions
@@ -796,6 +797,7 @@ bget_model(g_ptr redex)
 	SET_CONS_TL(redex, Make_NIL());
 	DEC_REF_CNT(l);
 	DEC_REF_CNT(r);
+	free_buf(&assumptions);
 	return;
     }
 
diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 0a597ba..209696c 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -2178,6 +2178,7 @@ visualization_vecs2tags(g_ptr redex)
 	    if( !ignore_missing ) {
 		pop_fsm();
 		MAKE_REDEX_FAILURE(redex,Fail_pr("Cannot find vector %s", vec));
+		dispose_hash(&idx_tbl, NULLFCN);
 		End_string_ops(sop);
 		return;
 	    }
@@ -6607,6 +6608,7 @@ traverse_pexlif(hash_record *parent_tblp, g_ptr p, string hier,
     bool leaf;
     if( !is_PINST(p,&name,&attrs,&leaf,&fa_inps,&fa_outs,&internals,&content)) {
         Fail_pr("Not a PINST where expected");
+        dispose_hash(&vinfo_tbl, NULLFCN);
         return FALSE;
     }
     attrs = Make_CONS_ND(
@@ -6913,6 +6915,7 @@ traverse_pexlif(hash_record *parent_tblp, g_ptr p, string hier,
 		Sprintf(ep, "i%d/", inst++);
 		if( !traverse_pexlif(&vinfo_tbl, GET_CONS_HD(cl), ihier_buf,
 				     FALSE, draw_level, inst-1, max_depth-1)) {
+		    dispose_hash(&vinfo_tbl, NULLFCN);
 		    return FALSE;
 		}
 	    }
diff --git a/src/bin/fl/image.c b/src/bin/fl/image.c
index 91fbfbd..267303a 100644
--- a/src/bin/fl/image.c
+++ b/src/bin/fl/image.c
@@ -217,6 +217,8 @@ import_xpm_image(g_ptr redex)
 				 "\"<code>\tc <color>\",\n");
 	    MAKE_REDEX_FAILURE(redex, msg);
 	    fclose(fp);
+	    dispose_hash(&color_map, NULLFCN);
+	    free_ustrmgr(&lstrings);
 	    return;
 	}
 	*end = 0;
@@ -228,6 +230,8 @@ import_xpm_image(g_ptr redex)
 		string msg = Fail_pr("Incorrect color format\nGot %s\n", start);
 		MAKE_REDEX_FAILURE(redex, msg);
 		fclose(fp);
+		dispose_hash(&color_map, NULLFCN);
+		free_ustrmgr(&lstrings);
 		return;
 	    }
 	    cp = mk_rgb(r,g,b);
@@ -236,6 +240,8 @@ import_xpm_image(g_ptr redex)
 		string msg = Fail_pr("Cannot find color |%s|\n", start);
 		MAKE_REDEX_FAILURE(redex, msg);
 		fclose(fp);
+		dispose_hash(&color_map, NULLFCN);
+		free_ustrmgr(&lstrings);
 		return;
 	    }
 	}
@@ -255,6 +261,8 @@ import_xpm_image(g_ptr redex)
 				     line, r+1, c+1);
 		MAKE_REDEX_FAILURE(redex, msg);
 		fclose(fp);
+		dispose_hash(&color_map, NULLFCN);
+		free_ustrmgr(&lstrings);
 		return;
 	    }
 	    SET_PIXEL(ip, c, r, cp);
diff --git a/src/bin/fl/pexlif.c b/src/bin/fl/pexlif.c
index b02f8f5..a849a6f 100644
--- a/src/bin/fl/pexlif.c
+++ b/src/bin/fl/pexlif.c
@@ -1513,6 +1513,7 @@ unfold_pexlif(g_ptr p, unint id)
     if( unfolded == NULL ) {
 	Fail_pr("Out of range (%d) in unfold_pexlif. Only %d instances",id,ix);
 	VDB_destroy(vdp);
+	free_mgr(&subst_hash_record_mgr);
 	End_string_ops(sop);
 	return(NULL);
     }
@@ -1534,12 +1535,14 @@ unfold_pexlif(g_ptr p, unint id)
     create_hash(&sub, 100, str_hash, str_equ);
     if( !mk_formal_actuals_substitution(&sub, un_fa_inps) ) {
 	VDB_destroy(vdp);
+	dispose_hash(&sub, NULLFCN);
 	free_mgr(&subst_hash_record_mgr);
 	End_string_ops(sop);
 	return(NULL);
     }
     if( !mk_formal_actuals_substitution(&sub, un_fa_outs) ) {
 	VDB_destroy(vdp);
+	dispose_hash(&sub, NULLFCN);
 	free_mgr(&subst_hash_record_mgr);
 	End_string_ops(sop);
 	return(NULL);
@@ -1571,6 +1574,8 @@ unfold_pexlif(g_ptr p, unint id)
     VDB_destroy(vdp);
     free_temp_str_mgr(ts);
     if( !mk_formal_actuals_substitution(&sub, inter_sub) ) {
+	dispose_hash(&sub, NULLFCN);
+	free_mgr(&subst_hash_record_mgr);
 	End_string_ops(sop);
 	return(NULL);
     }
diff --git a/src/bin/fl/symbol.c b/src/bin/fl/symbol.c
index 7264cd0..bf23661 100644
--- a/src/bin/fl/symbol.c
+++ b/src/bin/fl/symbol.c
@@ -1094,6 +1094,7 @@ End_ADT(symbol_tbl_ptr stbl, var_list_ptr vlp)
 		free_rec(&var_list_rec_mgr, (pointer) vp);
 	    }
 	    ADT_level = 1;
+	    dispose_hash(&keep_tbl, NULLFCN);
 	    return stbl;
 	} else {
 	    if( find_hash(&keep_tbl, (pointer) vp->name) == NULL ) {
-- 
2.43.0


From ae8fc0fb73812136df0afcdd8a5e3c1f84a3e658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:02 +0000
Subject: [PATCH 27/30] fix: free the temporary strings when visualize_fanin
 fails

---
 src/bin/fl/fsm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index 209696c..c3bb215 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -2362,6 +2362,7 @@ visualize_fanin(g_ptr redex)
 	if( il == NULL ) {
 	    pop_fsm();
 	    MAKE_REDEX_FAILURE(redex, Fail_pr("Cannot find vector %s", vec));
+	    free_temp_str_mgr(tmp_strs);
 	    End_string_ops(sop);
 	    return;
 	}
@@ -2372,6 +2373,7 @@ visualize_fanin(g_ptr redex)
 	if( fanin == NULL ) {
 	    pop_fsm();
 	    MAKE_REDEX_FAILURE(redex, Fail_pr("Failed to draw %s", vec));
+	    free_temp_str_mgr(tmp_strs);
 	    End_string_ops(sop);
 	    return;
 	}
-- 
2.43.0


From e853776a9ca9766638d49f405cf367543892dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:55 +0000
Subject: [PATCH 28/30] fix: select the kind of values of the STE run when its
 result is asked for

---
 src/bin/fl/fsm.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index c3bb215..e681603 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -9423,6 +9423,7 @@ gen_get_ste_result(g_ptr redex, value_type type)
     }
     string flag = GET_STRING(g_flag);
     gbv res;
+    push_ste(ste);
     if( strcmp(flag, "antOK") == 0 ) {
 	res = ste->assertion_OK;
     } else if( strcmp(flag, "trajOK") == 0 ) {
@@ -9442,12 +9443,14 @@ gen_get_ste_result(g_ptr redex, value_type type)
                    c_AND(ste->validTrajectory,
                         c_AND(ste->checkTrajectory, ste->check_OK)));
     } else {
+	pop_ste();
         MAKE_REDEX_FAILURE(redex,
 			   Fail_pr("Unknown type (%s) in (b)get_ste_result",
 				    flag));
         return;
     }
     MAKE_REDEX_GBV(redex, res);
+    pop_ste();
     DEC_REF_CNT(l);
     DEC_REF_CNT(r);
 }
-- 
2.43.0


From b238c77b0e2bad77afabe7f755399ac729c69566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:45 +0000
Subject: [PATCH 29/30] fix: free the table of bsubstitute when it fails

---
 src/bin/fl/bexpr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/bin/fl/bexpr.c b/src/bin/fl/bexpr.c
index ccd2c67..862c07a 100644
--- a/src/bin/fl/bexpr.c
+++ b/src/bin/fl/bexpr.c
@@ -624,6 +624,7 @@ bsubstitute(g_ptr redex)
 	if( find_hash(&gl_subst_tbl, (pointer) from) != NULL ) {
 	    MAKE_REDEX_FAILURE(redex, 
 		Fail_pr("Duplicate (%s) in subst. list for bsubstitute", from));
+	    dispose_hash(&gl_subst_tbl, NULLFCN);
 	    return;
 	}
 	insert_hash(&gl_subst_tbl, (pointer) from, (pointer) to);
-- 
2.43.0


From 0d69a9173f7d4edd7af12d990de374df20972966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:30 +0000
Subject: [PATCH 30/30] fix: count every use of the source name in the result
 of edges

---
 src/bin/fl/fsm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bin/fl/fsm.c b/src/bin/fl/fsm.c
index e681603..13ca98e 100644
--- a/src/bin/fl/fsm.c
+++ b/src/bin/fl/fsm.c
@@ -1018,10 +1018,12 @@ edges(g_ptr redex)
 	        FOREACH_NODE(nd, cp->outs) {
                     string tname = idx2name(nd);
 		    g_ptr to = Make_STRING_leaf(wastrsave(stringsp, tname));
+                    INC_REFCNT(from);
                     g_ptr pair = Make_PAIR_ND(from, to);
                     APPEND1(tail, pair);
 	        }
 	    }
+	    DEC_REF_CNT(from);
         }
     }
     pop_fsm();
-- 
2.43.0

