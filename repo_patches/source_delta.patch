From 25c6b8da4d60e851dd2dd4eefce19fd431a09788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:45 +0000
Subject: [PATCH 01/32] fix: single-observation models crash enumeration and
 incremental pruning

The one-observation shortcut returned a plain duplicate of the projection
set, which has no obs_source bookkeeping; relinkObsSources() then
dereferenced NULL.
---
 src/cross-sum.c   | 27 +++++++++++++++++++++++++++
 src/cross-sum.h   |  5 +++++
 src/enumeration.c |  2 +-
 src/inc-prune.c   |  2 +-
 4 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/cross-sum.c b/src/cross-sum.c
index 6543176..97f283e 100644
--- a/src/cross-sum.c
+++ b/src/cross-sum.c
@@ -179,5 +179,32 @@ crossSum( AlphaList A, AlphaList B, int save_obs_sources )
   return ( V );
 }  /* crossSum */
 /**********************************************************************/
+AlphaList 
+singleObsCrossSum( AlphaList projection ) 
+{
+  /*
+    The degenerate case of a cross-sum, which is what is needed when
+    there is only a single observation: the result has the same vectors
+    as the projection set, but with the obs_source bookkeeping that a
+    cross-sum would do, so that a policy graph can be developed from it.
+  */
+  AlphaList V, node, temp;
+
+  Assert ( projection != NULL, "NULL set specified." );
+
+  V = newAlphaList();
+  V->action = projection->action;
+
+  for ( node = projection->head; node != NULL; node = node->next ) {
+
+    temp = newAlphaNodeObsSource( duplicateAlpha( node->alpha ), 
+                                  projection->action );
+    temp->obs_source[projection->obs] = node;
+    appendNodeToAlphaList( V, temp );
 
+  } /* for node */
+
+  return ( V );
+}  /* singleObsCrossSum */
+/**********************************************************************/
 
diff --git a/src/cross-sum.h b/src/cross-sum.h
index 87b6730..505acac 100644
--- a/src/cross-sum.h
+++ b/src/cross-sum.h
@@ -37,5 +37,10 @@
 extern AlphaList crossSum( AlphaList A, 
                            AlphaList B, 
                            int save_obs_sources );
+
+/* Used in place of crossSum() when there is only one observation:
+   returns a copy of the projection set with the obs_source arrays
+   set. */
+extern AlphaList singleObsCrossSum( AlphaList projection );
  
 #endif
diff --git a/src/enumeration.c b/src/enumeration.c
index 82d24f7..ce93503 100644
--- a/src/enumeration.c
+++ b/src/enumeration.c
@@ -61,7 +61,7 @@ enumerationByQ( AlphaList *projection )
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) {
     gNumVectorsEnum += projection[0]->length;
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsCrossSum( projection[0] ));
   }
 
    /* We do one less cross-sum than the number of observations. */
diff --git a/src/inc-prune.c b/src/inc-prune.c
index 5d61492..0c5b023 100644
--- a/src/inc-prune.c
+++ b/src/inc-prune.c
@@ -404,7 +404,7 @@ improveIncPrune( AlphaList *projection,
      corresponds to a completely unobservable problem, but for this
      we have no cross-sum to do. */
   if ( gNumObservations == 1 ) 
-    return ( duplicateAlphaList( projection[0] ));
+    return ( singleObsCrossSum( projection[0] ));
 
     /* We do one less cross-sum than the number of observations. */
    for( z = 1; z < gNumObservations; z++) {
-- 
2.43.0


From 853cd7fad017cbdca3eb35c9b1bc98f4441fac35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:53 +0000
Subject: [PATCH 02/32] fix: copied alpha lists took every node's fields from
 the list header

With -terminal_values the vectors then all had id -1, so the first epoch's
policy graph had no successor nodes.
---
 src/alpha.c | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 92f6708..4e4822f 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -900,17 +900,13 @@ copyAlphaList( AlphaList dest_list,
 
     /* Copy all the fields, though the burden on the being sane values
        lies in the orginal list. */
-    temp->id = src_list->id;
-    temp->obs = src_list->obs;
-    temp->prev_source = src_list->prev_source;
-    temp->next = src_list->next;
-    temp->first_source = src_list->first_source;
-    temp->second_source = src_list->second_source;
-    temp->mark = src_list->mark;
-    temp->hook = src_list->hook;
-    temp->length = src_list->length;
-    temp->head = src_list->head;
-    temp->tail = src_list->tail;
+    temp->id = list->id;
+    temp->obs = list->obs;
+    temp->prev_source = list->prev_source;
+    temp->first_source = list->first_source;
+    temp->second_source = list->second_source;
+    temp->mark = list->mark;
+    temp->hook = list->hook;
     
     temp->obs_source = NULL;
     temp->witness = NULL;
-- 
2.43.0


From a6723c412b0bed41a3e049df0e92581c2332e6c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 03/32] fix: zeroes in an R: matrix did not override earlier
 reward entries

---
 src/mdp/imm-reward.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/mdp/imm-reward.c b/src/mdp/imm-reward.c
index 23a8264..6707bae 100644
--- a/src/mdp/imm-reward.c
+++ b/src/mdp/imm-reward.c
@@ -289,7 +289,7 @@ enterImmReward( int cur_state, int next_state, int obs,
 /**********************************************************************/
 void irAddToDecisionTree(Imm_Reward_List node)
 {
-  int i, j, k;
+  int i, j, num_cols;
   Matrix m;
 
   assert( node != NULL );
@@ -319,14 +319,17 @@ void irAddToDecisionTree(Imm_Reward_List node)
     break;
     
   case ir_matrix:
+    /* Zeroes are not stored in the sparse matrix, but they still have
+       to override any earlier specification. */
     m = node->rep.matrix;
+    num_cols = ( gProblemType == POMDP_problem_type ) 
+      ? gNumObservations : gNumStates;
     for (i=0; i < m->num_rows; i++) {
-      for (j=0; j < m->row_length[i]; j++) {
-	k = m->row_start[i] + j;
+      for (j=0; j < num_cols; j++) {
 	if( gProblemType == POMDP_problem_type )  { /* pomdp */
-	  dtAdd(node->action, node->cur_state, i, m->col[k], m->mat_val[k]);
+	  dtAdd(node->action, node->cur_state, i, j, getEntryMatrix(m, i, j));
 	} else { /* mdp */
-	  dtAdd(node->action, i, m->col[k], WILDCARD_SPEC, m->mat_val[k]);
+	  dtAdd(node->action, i, j, WILDCARD_SPEC, getEntryMatrix(m, i, j));
 	}
       }
     }
-- 
2.43.0


From e1cfe25a8f06376729792ff7c6e66fe28215bd2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:18 +0000
Subject: [PATCH 04/32] fix: a problem without R: entries aborted on an
 assertion

All of its rewards are zero.
---
 src/mdp/decision-tree.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mdp/decision-tree.c b/src/mdp/decision-tree.c
index fc0b221..5ec44e5 100644
--- a/src/mdp/decision-tree.c
+++ b/src/mdp/decision-tree.c
@@ -358,6 +358,10 @@ double dtGet(int action, int cur_state, int next_state, int obs)
   vec[2] = next_state;
   vec[3] = obs;
 
+  /* A problem without any reward specification never sets up the tree,
+     and all its rewards are zero. */
+  if (NULL == gTree) return 0;
+
   return dtGetInternal(gTree, vec, 0);
 }
 
-- 
2.43.0


From 82243200a78b7d826e49258159be28ab684ab2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 05/32] fix: -rand_seed had no effect

Setting the seed from the option's string did not record that the
generator was seeded, so its first use seeded it again from the clock.
---
 src/random.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/random.c b/src/random.c
index 1aeeb6a..7c27632 100644
--- a/src/random.c
+++ b/src/random.c
@@ -121,6 +121,8 @@ setRandomSeedFromString ( char *str )
   for( i = 0; i < SEED_SIZE; i++ )
     random_seed48[i] = (short) s[i];
 
+  seeded = 1;
+
 }  /* setRandomSeedFromString  */
 /**********************************************************************/
 void 
-- 
2.43.0


From 8dc6712c41168f58a0790a9cedafca97ce22c009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:39 +0000
Subject: [PATCH 06/32] fix: -time_limit reported that the program terminated
 but let it run on

---
 src/signal-handler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/signal-handler.c b/src/signal-handler.c
index 652e612..7e913f9 100644
--- a/src/signal-handler.c
+++ b/src/signal-handler.c
@@ -175,6 +175,8 @@ signalHandlerSIGVTALRM( int sig )
 
   reportSIGVTALRM( gInterruptParamContext );
    
+  exit ( 0 );
+
 }  /* signalHandlerSIGVTALRM */
 /**********************************************************************/
 static void 
-- 
2.43.0


From eeb656c03e33f794358b83985c5768e083d1e702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:04 +0000
Subject: [PATCH 07/32] fix: the last line of a configuration file was lost
 without a newline

---
 src/config-file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/config-file.c b/src/config-file.c
index 50002bb..c1571cc 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -110,9 +110,9 @@ CF_fscanf( FILE* file )
 
 		if ( ( ch = fgetc( file )) == EOF )
 		  {
-		    line_done = 1;
+		    /* The last line need not end with a newline. */
 		    file_done = 1;
-		    break;
+		    ch = '\n';
 		  }
 
 		switch( ch )
-- 
2.43.0


From 9caf139df1e5cdf87e482f01794fcc149851ce37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:44 +0000
Subject: [PATCH 08/32] fix: the bellman stop criterion ignored improvement
 downwards for costs

---
 src/common.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/common.c b/src/common.c
index c73f74d..9b2ce01 100644
--- a/src/common.c
+++ b/src/common.c
@@ -177,8 +177,11 @@ bellmanError( AlphaList prev_list,
   /* If there are negative rewards, then we must also compare each old
      vector to the new vectors. This also requires that there was no
      initial value function used (since it could have started with a
-     negative value (which we do not check for.) */
-  if (( ( gMinimumImmediateReward >= 0.0 )
+     negative value (which we do not check for.)  Costs are negated
+     before they are used, so that non-negative ones are negative
+     rewards. */
+  if (( (( gMinimumImmediateReward >= 0.0 )
+	 && ( gValueType != COST_value_type ))
         || ( gRequireNonNegativeRewards ))
       && ( param->initial_policy == NULL ))
     return ( max_diff );
-- 
2.43.0


From c61570bd5d7746b0ab945d1a2382aa9582309a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:48 +0000
Subject: [PATCH 09/32] fix: a wildcard in start include/exclude wrote before
 the start belief

---
 src/mdp/parser.c | 16 ++++++++++++++--
 src/mdp/parser.y | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/mdp/parser.c b/src/mdp/parser.c
index 7bad489..51d6ae2 100644
--- a/src/mdp/parser.c
+++ b/src/mdp/parser.c
@@ -1264,15 +1264,27 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int state, minState, maxState;
+
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* The wildcard stands for all the states. */
+  if( i < 0 ) {
+    minState = 0;
+    maxState = gNumStates - 1;
+  }
+  else
+    minState = maxState = i;
+
   switch( curMatrixContext ) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
+    for( state = minState; state <= maxState; state++ )
+      gInitialBelief[state] = 1.0;
     break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for( state = minState; state <= maxState; state++ )
+      gInitialBelief[state] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, 
diff --git a/src/mdp/parser.y b/src/mdp/parser.y
index a8043a3..b452cb7 100644
--- a/src/mdp/parser.y
+++ b/src/mdp/parser.y
@@ -1359,15 +1359,27 @@ enterStartState( int i ) {
    it is an MDP.
 */
 
+  int state, minState, maxState;
+
   if( gProblemType == MDP_problem_type )
     return;
 
+  /* The wildcard stands for all the states. */
+  if( i < 0 ) {
+    minState = 0;
+    maxState = gNumStates - 1;
+  }
+  else
+    minState = maxState = i;
+
   switch( curMatrixContext ) {
   case mc_start_include:
-    gInitialBelief[i] = 1.0;
+    for( state = minState; state <= maxState; state++ )
+      gInitialBelief[state] = 1.0;
     break;
   case mc_start_exclude:
-    gInitialBelief[i] = 0.0;
+    for( state = minState; state <= maxState; state++ )
+      gInitialBelief[state] = 0.0;
     break;
   default:
     ERR_enter("Parser<enterStartState>:", currentLineNumber, 
-- 
2.43.0


From 4a76efa8108d1b5ceff67879bddad7eb085fa77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:59 +0000
Subject: [PATCH 10/32] fix: search grid held NaN beliefs for observations that
 an action never gives

---
 src/finite-grid.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index 960b76e..d56bb71 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -216,6 +216,10 @@ genAllBeliefStates( PomdpSolveParams param )
 
 	 } /* for state */
 
+	 /* An observation that no state can give has no belief state. */
+	 if ( num_found == 0 )
+	   continue;
+
 	 /* Create a belief state uniform over this set of states */
 	 for( state = 0; state < gNumStates; state++ )
 	   gFGTempBelief[state] = gFGTempBelief[state] / num_found;
-- 
2.43.0


From ce058646d47304f25ddba6f2dfb7cf0c9639c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:17 +0000
Subject: [PATCH 11/32] fix: finite grids held more belief points than
 -fg_points allows

---
 src/finite-grid.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/finite-grid.c b/src/finite-grid.c
index d56bb71..928c95e 100644
--- a/src/finite-grid.c
+++ b/src/finite-grid.c
@@ -102,7 +102,7 @@ searchAndAddBeliefStates( BeliefList belief_list,
 
   cur_size = sizeBeliefList( belief_list );
 
-  while (( cur_size <= size_limit )
+  while (( cur_size < size_limit )
 	    && ( added_belief_state )) {
 
     walk_ptr = belief_list;
@@ -140,8 +140,9 @@ searchAndAddBeliefStates( BeliefList belief_list,
 		}
 
 		/* If it is not in list, add it and then recurse */
-		if ( findBeliefState( belief_list, gFGTempBelief, 
-						  belief_epsilon ) == NULL ) {
+		if (( cur_size < size_limit )
+		    && ( findBeliefState( belief_list, gFGTempBelief, 
+						  belief_epsilon ) == NULL )) {
 		  
 		  belief_list = appendBeliefList( belief_list, gFGTempBelief );
 		  added_belief_state = 1;
@@ -160,7 +161,7 @@ searchAndAddBeliefStates( BeliefList belief_list,
 	    thus not seeing the outer loops criteria for stopping when
 	    the size gets too big, Thus, we insert this short-circuit. 
 	 */
-	 if ( cur_size > size_limit )
+	 if ( cur_size >= size_limit )
 	   break;
 
 	 walk_ptr = walk_ptr->next;
-- 
2.43.0


From 02f9e086107f16804f482b88e5b3081dd7146d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:02 +0000
Subject: [PATCH 12/32] fix: killing the program while it saved the backup file
 lost the last solution

---
 src/pomdp-solve.c | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 4bb6179..502fe31 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -383,6 +383,27 @@ handleSaveAll( AlphaList list, PomdpSolveParams param )
 }  /* handleSaveAll */
 /**********************************************************************/
 
+/**********************************************************************/
+void 
+saveBackup( AlphaList list, PomdpSolveParams param ) 
+{
+  /*
+    Saves the list to the backup file.  It is first written to another
+    file, so that abnormal termination while writing it leaves the
+    previous backup file intact.
+  */
+  char new_filename[sizeof(param->backup_file) + sizeof(".new")];
+
+  sprintf( new_filename, "%s.new", param->backup_file );
+
+  saveAlphaList( list, new_filename );
+
+  if ( rename( new_filename, param->backup_file ) != 0 )
+    Warning( "Cannot save the backup file." );
+
+}  /* saveBackup */
+/**********************************************************************/
+
 /**********************************************************************/
 /********  Routines for mid value iteration tests and checks   ********/
 /**********************************************************************/
@@ -1126,7 +1147,7 @@ solvePomdp( PomdpSolveParams param )
        abnormal termination will leave the lastest epoch's
        solution.  This will allow you to start it with the last
        solution and not have to re-run it. */
-    saveAlphaList( next_alpha_list, param->backup_file ); 
+    saveBackup( next_alpha_list, param );
 
     /* If we are using a variation on value iteration, then we may
        need to adjust some parameters (epsilon) after an epoch.
-- 
2.43.0


From c781d9c49d984f7e87fbebf06ae6f695c88fac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:06 +0000
Subject: [PATCH 13/32] fix: an interrupt before the first epoch ended in a
 failed assertion

---
 src/pomdp-solve.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pomdp-solve.c b/src/pomdp-solve.c
index 502fe31..bcbf90f 100644
--- a/src/pomdp-solve.c
+++ b/src/pomdp-solve.c
@@ -1172,7 +1172,11 @@ solvePomdp( PomdpSolveParams param )
      pointers to nowhere.  Thus, we free them in the other order to
      show this dependency explicitly. */
   destroyAlphaList( next_alpha_list );
-  destroyAlphaList( prev_alpha_list );
+
+  /* There is none if the program was interrupted before the first
+     epoch. */
+  if ( prev_alpha_list != NULL )
+    destroyAlphaList( prev_alpha_list );
 
   /* We were writing out a backup file after each iteration, but now
      that we are done, remove it. */
-- 
2.43.0


From be8601eec69aba612ce2ca5a4830a3916ac70ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 14/32] fix: pg_eval printed an arbitrary node number with the
 initial belief's value

---
 src/pg-eval.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a8a0f69..91a33c3 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -409,6 +409,7 @@ PGE_main( char *pg_filename ) {
   LinkedPG lpg;
   PG pg;
   int best_node;
+  double best_value;
 
   PgEvalContext pgec;
 
@@ -430,9 +431,10 @@ PGE_main( char *pg_filename ) {
 	 printf( "No initial belief state. Cannot give a single value.\n" );
     }
     else {
+	 /* (The call must come first: it sets best_node.) */
+	 best_value = PGEC_val( pgec, gInitialBelief, &best_node );
 	 printf( "Initial belief state value: %.2lf at node %d\n",
-		    PGEC_val( pgec, gInitialBelief, &best_node ),
-		    best_node );
+		    best_value, best_node );
 	 
     } /* if solution found */
   }
-- 
2.43.0


From 5d31e2dcbbf1b30d1fe201e926e98bd78d290e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 15/32] fix: pg_eval rejected policy graphs with impossible
 observations

---
 src/pg-eval.c | 4 ++++
 src/pg.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index 91a33c3..a6eb8f5 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -247,6 +247,10 @@ PGE_setRowCoefs( PG pg, int state, int node, double *coef ) {
        overwriting them. */
     for( z = 0; z < gNumObservations; z++ ) {
 
+      /* Observations that are impossible have no next node. */
+      if ( pg->next[node][z] < 0 )
+        continue;
+
       /* This converts from the 2D naming to the 1D naming
          for the current variable under consideration in this
          row. */
diff --git a/src/pg.c b/src/pg.c
index 1defd8d..40d46c1 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -140,6 +140,10 @@ LPG_verify( LinkedPG orig_pg ) {
     for( z = 0; z < gNumObservations; z++ )
 	 {
 
+	   /* Observations that are impossible have no neighbor. */
+	   if( pg->neighbor[z] < 0 )
+		continue;
+
 	   if( LPG_findNode( orig_pg, pg->neighbor[z] ) == NULL )
 		return( 0 );
 
-- 
2.43.0


From bfb5a392d1f1397ec8e0eecea27f93e01872374e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:07 +0000
Subject: [PATCH 16/32] fix: pg_relink wrote -2 for the entries of impossible
 observations

---
 src/pg.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pg.c b/src/pg.c
index 40d46c1..883805b 100644
--- a/src/pg.c
+++ b/src/pg.c
@@ -490,10 +490,8 @@ PG_printf( PG pg, FILE *file  )
 	 fprintf( file, "%d %d  ", n, pg->action[n] );
 	 
 	 for( z = 0; z < pg->num_obs; z++ )
-	   if ( pg->next[n][z] != INVALID_NODE )
+	   if ( pg->next[n][z] >= 0 )
 		fprintf( file, "%d ", pg->next[n][z] );
-	   else if ( pg->next[n][z] == NO_INFO_NODE )
-		fprintf( file, "%s ", INVALID_NODE_STR );
 	   else
 		fprintf( file, "%s ", NO_INFO_NODE_STR );
 	 
-- 
2.43.0


From 199164c14473a9b9dfad34a5cb1540d65cce23a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 17/32] fix: pg_eval took the costliest node of a cost problem
 for the best one

---
 src/pg-eval.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pg-eval.c b/src/pg-eval.c
index a6eb8f5..1460a7f 100644
--- a/src/pg-eval.c
+++ b/src/pg-eval.c
@@ -164,9 +164,10 @@ double
 PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
 /*
   Evaluates the policy graph for the given belief state byt finding
-  the node of the graph that yields the highers value
+  the node of the graph that yields the best value: the highest, or
+  the lowest when the values are costs.
 */
-  double max_sum = -1.0 * HUGE_VAL;
+  double best_sum = ( gValueType == COST_value_type ) ? HUGE_VAL : -1.0 * HUGE_VAL;
   double cur_sum;
   int cur_node, state;
 
@@ -179,14 +180,15 @@ PGEC_val( PgEvalContext pgec, double *b, int *best_node ) {
     for ( state = 0; state < pgec->num_states; state++ )
       cur_sum += pgec->soln[state][cur_node] * b[state];
 
-    if ( cur_sum > max_sum ) {
-      max_sum = cur_sum;
+    if (( gValueType == COST_value_type )
+        ? ( cur_sum < best_sum ) : ( cur_sum > best_sum )) {
+      best_sum = cur_sum;
       *best_node = cur_node;
     } /* if new best value */
 
   } /* for cur_node */
 
-  return ( max_sum );
+  return ( best_sum );
 
 }  /* PGEC_val */
 /**********************************************************************/
-- 
2.43.0


From de4b8ddba00102b3437fc29f3d7191941ecc184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 18/32] fix: belief_alpha_compare overran its index lists

---
 src/utils.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index 4730ec2..cf0033e 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -411,7 +411,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 	-1 sentinel list terminator, we need this list to have one more
 	element than the number of belief points.
   */
-  diff_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  diff_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							* sizeof( int ));
 
   /* The index list is assumed to contain non-negative integers, with
@@ -422,7 +422,7 @@ UTIL_reportBeliefValueComparisons( FILE *file,
 
   /* Also want to keep track of those belief points where the maximal
 	differences occur (for convenience). */
-  maximal_idx_list = (int *) XMALLOC( sizeBeliefList( belief_list )+1
+  maximal_idx_list = (int *) XMALLOC( ( sizeBeliefList( belief_list )+1 )
 							   * sizeof( int ));
 
   maximal_idx_list[0] = -1;
-- 
2.43.0


From 37ca4f4a8bb576e5a0900d15d7eb2a149e853951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 19/32] fix: belief_alpha_compare crashed when the belief file
 could not be read

---
 src/utils.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/utils.c b/src/utils.c
index cf0033e..ccf02ce 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -613,10 +613,8 @@ UTIL_compareAlphaFilesUsingBeliefs( char *alpha1_filename,
   }
 
   belief_list = readBeliefList( belief_filename, 0 );
-  if ( belief_list == NULL ) {
-    fclose( file );
+  if ( belief_list == NULL )
     return;
-  }
 
   if ((file = fopen( out_filename , "w")) == NULL) {
     fprintf(gStdErrFile, 
-- 
2.43.0


From 58ffe1896fd96e3d73bd55a7e6e1e0e8bbd26862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 20/32] fix: update_beliefs overran its buffer on long input
 words

---
 src/utils.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.c b/src/utils.c
index ccf02ce..594eeb7 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1504,7 +1504,8 @@ UTIL_doBeliefUpdates()
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
 
-	 sscanf( line, "%s", line_init );
+	 line_init[0] = '\0';   /* (a blank line sets nothing) */
+	 sscanf( line, "%254s", line_init );
 
 	 if ( strcmp( line_init, "exit" ) == 0 )
 	   break;
-- 
2.43.0


From a9da2e728f8eca0ac111c492663232adda5f3924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:37 +0000
Subject: [PATCH 21/32] fix: reading an alpha or belief file with other text in
 it never ended

---
 src/alpha.c  | 12 +++++++++---
 src/belief.c | 11 +++++++----
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/alpha.c b/src/alpha.c
index 4e4822f..568c714 100644
--- a/src/alpha.c
+++ b/src/alpha.c
@@ -1090,7 +1090,7 @@ readAlphaList( char *filename, int max_alphas )
     it will only read the first max_alphas in the file.
   */
    FILE *file;
-   int a, i;
+   int a, i, num_read;
    double *alpha;
    AlphaList list = NULL;
    
@@ -1112,12 +1112,18 @@ readAlphaList( char *filename, int max_alphas )
    
    while( max_alphas != 0 ) {
      max_alphas--;
-     if ( fscanf( file, "%d", &a ) == EOF )
+     num_read = fscanf( file, "%d", &a );
+     if ( num_read == EOF )
        break;
+     if ( num_read != 1 ) {
+       fprintf(gStdErrFile, 
+               "** Error: Alpha vector file format incorrect.\n");
+       return ( NULL );
+     }
      alpha = newAlpha();
      
      for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( alpha[i] )) == EOF ) {
+       if ( fscanf( file, "%lf", &( alpha[i] )) != 1 ) {
          fprintf(gStdErrFile, 
                  "** Error: Alpha vector file format incorrect.\n");
          return ( NULL );
diff --git a/src/belief.c b/src/belief.c
index 0b70959..3de87ea 100644
--- a/src/belief.c
+++ b/src/belief.c
@@ -184,7 +184,7 @@ readBeliefList( char *filename, int max )
     it will only read the first max_beliefs in the file.
   */
    FILE *file;
-   int i;
+   int i, num_read;
    double *b;
    BeliefList list = NULL;
    
@@ -207,13 +207,15 @@ readBeliefList( char *filename, int max )
 
      b = newBelief();
      
-     for ( i = 0; i < gNumStates; i++ )
-       if ( fscanf( file, "%lf", &( b[i] )) == EOF ) {
+     for ( i = 0; i < gNumStates; i++ ) {
+
+       num_read = fscanf( file, "%lf", &( b[i] ));
+       if ( num_read != 1 ) {
 
 	    /* We should run out of numbers to read when i == 0, since we
 		  need a number for each POMDP state in a belief.
 	    */
-	    if ( i > 0 ) {
+	    if (( i > 0 ) || ( num_read != EOF )) {
 		 fprintf(gStdErrFile, 
 			    "** Error: Belief list file format incorrect.\n");
 		 return ( NULL );
@@ -222,6 +224,7 @@ readBeliefList( char *filename, int max )
 		 goto RBL_DONE;
 		 
        }
+     }
      
      list = appendBeliefList( list, b );
    }  /* while */
-- 
2.43.0


From a2c0c74bd5628e7ae9eafe957fbefd589a15ef0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:14 +0000
Subject: [PATCH 22/32] fix: update_beliefs held back its answers when its
 output was a pipe

---
 src/utils.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/utils.c b/src/utils.c
index 594eeb7..cfc020b 100644
--- a/src/utils.c
+++ b/src/utils.c
@@ -1500,6 +1500,9 @@ UTIL_doBeliefUpdates()
     {
 	 UTIL_displayBelief( prev_belief );
 
+	 /* The other side of a pipe waits for the answer. */
+	 fflush( stdout );
+
 	 /* UTIL_getline() returns -1 on EOF (and other errors). */
 	 if ( UTIL_getLine( stdin, line, 1023 ) == EOF )
 	   break;
-- 
2.43.0


From 86434d13c180c9ab55a31fb071bf313c836ce4c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:59 +0000
Subject: [PATCH 23/32] fix: flags that were not given lost their default
 (-dom_check was off)

---
 src/pomdp-fg-options.c                         |  9 ++++++---
 src/pomdp-solve-options.c                      | 18 ++++++++++++------
 .../generate-options/gen-program-opts.py       |  3 ++-
 3 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/pomdp-fg-options.c b/src/pomdp-fg-options.c
index 97a7980..7bb54d5 100644
--- a/src/pomdp-fg-options.c
+++ b/src/pomdp-fg-options.c
@@ -237,7 +237,8 @@ POMDP_FG_OPTS_parse( ProgramOptions opts )
                          POMDP_FG_OPTS_ARG_SAVE_PENULTIMATE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_penultimate = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_penultimate = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_penultimate' has invalid value." );
 
@@ -277,7 +278,8 @@ POMDP_FG_OPTS_parse( ProgramOptions opts )
                          POMDP_FG_OPTS_ARG_SAVE_ALL_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_all = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_all = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_all' has invalid value." );
 
@@ -309,7 +311,8 @@ POMDP_FG_OPTS_parse( ProgramOptions opts )
                          POMDP_FG_OPTS_ARG_GRID_SAVE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->finite_grid_save = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->finite_grid_save = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'finite_grid_save' has invalid value." );
 
diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index c24cf68..50abcdf 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -470,7 +470,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_SAVE_ALL_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_all = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_all = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_all' has invalid value." );
 
@@ -486,7 +487,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_FG_SAVE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->finite_grid_save = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->finite_grid_save = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'finite_grid_save' has invalid value." );
 
@@ -552,7 +554,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_DOM_CHECK_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->domination_check = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->domination_check = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'domination_check' has invalid value." );
 
@@ -635,7 +638,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_SAVE_PENULTIMATE_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->save_penultimate = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->save_penultimate = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'save_penultimate' has invalid value." );
 
@@ -750,7 +754,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_STAT_SUMMARY_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->stat_summary = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->stat_summary = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'stat_summary' has invalid value." );
 
@@ -766,7 +771,8 @@ POMDP_SOLVE_OPTS_parse( ProgramOptions opts )
                          POMDP_SOLVE_OPTS_ARG_WITNESS_POINTS_STR,
                          &(enum_idx),
                          Boolean_Str );
-  options->use_witness_points = enum_idx;
+  if ( ret_value == PO_OPT_PRESENT_VALID )
+    options->use_witness_points = enum_idx;
   if ( ret_value == PO_OPT_PRESENT_ERROR )
     PO_handleError( opts, "Option 'use_witness_points' has invalid value." );
 
diff --git a/src/scripts/generate-options/gen-program-opts.py b/src/scripts/generate-options/gen-program-opts.py
index ff6ddeb..362cf99 100755
--- a/src/scripts/generate-options/gen-program-opts.py
+++ b/src/scripts/generate-options/gen-program-opts.py
@@ -620,7 +620,8 @@ class ParamNode:
                lines.append( "                         &(enum_idx),\n")
                lines.append( "                         Boolean_Str );\n" )
 
-               lines.append( "  options->%s = enum_idx;\n"
+               lines.append( "  if ( ret_value == PO_OPT_PRESENT_VALID )\n" )
+               lines.append( "    options->%s = enum_idx;\n"
                              % this.getVarName() )
 
                
-- 
2.43.0


From 721cfb4939a71ff36bbbe9fecfa7709bb7e65ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 24/32] fix: unknown options were silently ignored

---
 src/program-options.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 113ad46..5ca2efa 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -363,7 +363,7 @@ PO_endValidate( ProgramOptions opts )
   int i;
   CommandLine cmd_line;
   AssocArray assoc;
-  char err_msg[256];
+  char err_msg[MAX_OPT_STRING_LEN + 64];
 
   if (( opts == NULL )
 	 || ( opts->flag_seen == NULL )
@@ -376,7 +376,7 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < cmd_line->num_flags; i++ )
     { 
-	 if ( ! opts->flag_seen )
+	 if ( ! opts->flag_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line flag '%s'.",
 			    cmd_line->flags[i] );
@@ -388,10 +388,10 @@ PO_endValidate( ProgramOptions opts )
 
   for ( i = 0; i < assoc->cur_size; i++ )
     { 
-	 if ( ! opts->option_seen )
+	 if ( ! opts->option_seen[i] )
 	   {
 		sprintf( err_msg, "Unreckognized command line option '%s'.",
-			    cmd_line->flags[i] );
+			    assoc->keys[i] );
 		PO_handleError( opts, err_msg );
 	   }
     } /* loop over flags */
-- 
2.43.0


From f558e4c3d748b8a2a489a62db6070863f82f11b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:00 +0000
Subject: [PATCH 25/32] fix: numeric options took any other text for 0

---
 src/program-options.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/program-options.c b/src/program-options.c
index 5ca2efa..f8413cc 100644
--- a/src/program-options.c
+++ b/src/program-options.c
@@ -50,6 +50,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 #include <string.h>
+#include <errno.h>
+#include <limits.h>
+#include <math.h>
 
 #include "global.h"
 #include "command-line.h"
@@ -573,6 +576,8 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
    */
   int i;
   int str_result;
+  long number;
+  char *end;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -585,7 +590,14 @@ PO_getIntegerOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = atoi( found_str );
+  /* The value has to be a number and nothing else. */
+  errno = 0;
+  number = strtol( found_str, &end, 10 );
+  if (( end == found_str ) || ( *end != '\0' ) || ( errno != 0 )
+	 || ( number < INT_MIN ) || ( number > INT_MAX ))
+    return PO_OPT_PRESENT_ERROR;
+
+  *ret_value = number;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
@@ -616,6 +628,7 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
    */
   int i;
   int str_result;
+  char *end;
   char found_str[MAX_OPT_STRING_LEN];
 
   if (( opts == NULL )
@@ -628,7 +641,10 @@ PO_getDoubleOption( ProgramOptions opts, char* opt_name,
   if ( str_result != PO_OPT_PRESENT_VALID )
     return str_result;
 
-  *ret_value = strtod( found_str, NULL );
+  /* The value has to be a number and nothing else. */
+  *ret_value = strtod( found_str, &end );
+  if (( end == found_str ) || ( *end != '\0' ) || isnan( *ret_value ))
+    return PO_OPT_PRESENT_ERROR;
 
   /* This is the special case where we have no bounds on the value. */
   if (( min == 0 ) && ( max == 0 )) {
-- 
2.43.0


From d74200c000ab5cea2d555debf50ca7f3ecc74469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:16 +0000
Subject: [PATCH 26/32] fix: long words in a configuration file overran their
 buffers

---
 src/config-file.c | 9 +++++++++
 src/config-file.h | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/config-file.c b/src/config-file.c
index c1571cc..d2cd3ca 100644
--- a/src/config-file.c
+++ b/src/config-file.c
@@ -230,6 +230,15 @@ CF_fscanf( FILE* file )
 			  seeing an ordinary character */ 
 		  default:
 
+		    /* Too long to be anything that we could store. */
+		    if ((( state == PARSE_IN_ATTRIBUTE )
+			    || ( state == PARSE_IN_VALUE ))
+			   && ( char_idx >= ( MAX_CFG_FILE_STRING_LEN - 1 )))
+			 {
+			   cfg->error_count += 1;
+			   state = PARSE_IN_ERROR;
+			 }
+
 		    switch ( state )
 			 {
 			 case PARSE_IN_ATTRIBUTE:
diff --git a/src/config-file.h b/src/config-file.h
index 567d246..54fd68d 100644
--- a/src/config-file.h
+++ b/src/config-file.h
@@ -26,7 +26,7 @@
 /* Private Data */
 /*******************************************************/
 
-#define MAX_CFG_FILE_STRING_LEN     100
+#define MAX_CFG_FILE_STRING_LEN     1024
 #define MAX_CFG_FILE_PARAMS         256
 
 /* Parse sates for parsing configuration file. See CF_fscanf(). */
-- 
2.43.0


From 73f56fd77d9b767f831c1df564ca6aa4e6d27dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:16 +0000
Subject: [PATCH 27/32] fix: file names of 100 characters and more overran
 their buffers

---
 src/global.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/global.h b/src/global.h
index 064e873..b202df9 100644
--- a/src/global.h
+++ b/src/global.h
@@ -64,7 +64,7 @@
 
 /* For places where we statically allocate filename character arrays,
    use this for the length. */
-#define MAX_FILENAME_LENGTH          100
+#define MAX_FILENAME_LENGTH          1096
 
 /*******************************************************************/
 /**************              MACROS                 ****************/
-- 
2.43.0


From e72920d0981c9a29225c46b7661f3f37d5636845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 28/32] fix: the message about a long command line word overran
 its buffer

---
 src/command-line.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/command-line.c b/src/command-line.c
index 6fd574f..b7fa27f 100644
--- a/src/command-line.c
+++ b/src/command-line.c
@@ -177,7 +177,7 @@ CL_addFlag( CommandLine cmd_line, char* dashed_flag )
 
   if ( strlen( dashed_flag ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_flag, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -218,7 +218,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( dashed_opt ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line flag '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line flag '%s' is too long. %s",
 			dashed_opt, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -226,7 +226,7 @@ CL_addArgOption( CommandLine cmd_line,
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line value '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line value '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
@@ -275,7 +275,7 @@ CL_addArgProper( CommandLine cmd_line, char* value )
 
   if ( strlen( value ) >= MAX_CMD_LINE_STRING_LEN )
     {
-	 sprintf( err_str, "Command line argument '%s' is too long. %s",
+	 snprintf( err_str, sizeof( err_str ), "Command line argument '%s' is too long. %s",
 			value, "Change MAX_CMD_LINE_STRING_LEN?" );
 	 CL_handleError( cmd_line, err_str );
 	 return 0;
-- 
2.43.0


From 71088a07d970eb64d311061ea1cc233257e875f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 29/32] fix: adjustable_epsilon had no defaults for its
 settings and never ended

---
 src/pomdp-solve-options.c   | 10 +++++-----
 src/pomdp-solve-options.h   |  5 +++++
 src/pomdp-solve-options.xml |  5 +++++
 3 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/pomdp-solve-options.c b/src/pomdp-solve-options.c
index 50abcdf..2f4df8b 100644
--- a/src/pomdp-solve-options.c
+++ b/src/pomdp-solve-options.c
@@ -69,7 +69,7 @@ POMDP_SOLVE_OPTS_new( )
   options->verbose = 0;
   options->report_filename[0] = '\0';
   options->ip_type = POMDP_SOLVE_OPTS_OPT_INC_PRUNE_DEFAULT;
-  options->epoch_history_window_length = 0;
+  options->epoch_history_window_length = POMDP_SOLVE_OPTS_OPT_HISTORY_LENGTH_DEFAULT;
   options->prune_epsilon = POMDP_SOLVE_OPTS_OPT_PRUNE_EPSILON_DEFAULT;
   options->save_all = POMDP_SOLVE_OPTS_OPT_SAVE_ALL_DEFAULT;
   strcpy( options->prefix_str, POMDP_SOLVE_OPTS_OPT_O_DEFAULT );
@@ -79,8 +79,8 @@ POMDP_SOLVE_OPTS_new( )
   options->fg_epsilon = POMDP_SOLVE_OPTS_OPT_FG_EPSILON_DEFAULT;
   options->mcgs_traj_iter_count = POMDP_SOLVE_OPTS_OPT_MCGS_TRAJ_ITER_COUNT_DEFAULT;
   options->lp_epsilon = POMDP_SOLVE_OPTS_OPT_LP_EPSILON_DEFAULT;
-  options->ending_epsilon = 0.0;
-  options->starting_epsilon = 0.0;
+  options->ending_epsilon = POMDP_SOLVE_OPTS_OPT_END_EPSILON_DEFAULT;
+  options->starting_epsilon = POMDP_SOLVE_OPTS_OPT_START_EPSILON_DEFAULT;
   options->domination_check = POMDP_SOLVE_OPTS_OPT_DOM_CHECK_DEFAULT;
   options->stop_delta = POMDP_SOLVE_OPTS_OPT_STOP_DELTA_DEFAULT;
   options->q_purge_option = POMDP_SOLVE_OPTS_OPT_Q_PURGE_DEFAULT;
@@ -99,9 +99,9 @@ POMDP_SOLVE_OPTS_new( )
   options->fg_purge_option = POMDP_SOLVE_OPTS_OPT_FG_PURGE_DEFAULT;
   options->proj_purge = POMDP_SOLVE_OPTS_OPT_PROJ_PURGE_DEFAULT;
   options->mcgs_traj_length = POMDP_SOLVE_OPTS_OPT_MCGS_TRAJ_LENGTH_DEFAULT;
-  options->epoch_history_window_delta = 0;
+  options->epoch_history_window_delta = POMDP_SOLVE_OPTS_OPT_HISTORY_DELTA_DEFAULT;
   options->True[0] = '\0';
-  options->epsilon_adjust_factor = 0.0;
+  options->epsilon_adjust_factor = POMDP_SOLVE_OPTS_OPT_EPSILON_ADJUST_DEFAULT;
   options->prune_init_rand_points = 0;
   options->vi_variation = POMDP_SOLVE_OPTS_OPT_VI_VARIATION_DEFAULT;
   options->horizon = 0;
diff --git a/src/pomdp-solve-options.h b/src/pomdp-solve-options.h
index 4aa43b8..64ad32a 100644
--- a/src/pomdp-solve-options.h
+++ b/src/pomdp-solve-options.h
@@ -658,6 +658,11 @@ struct PomdpSolveProgOptionsStruct {
 #define POMDP_SOLVE_OPTS_OPT_LP_EPSILON_DEFAULT 1e-9
 #define POMDP_SOLVE_OPTS_OPT_DOM_CHECK_DEFAULT Boolean_true
 #define POMDP_SOLVE_OPTS_OPT_STOP_DELTA_DEFAULT 1e-9
+#define POMDP_SOLVE_OPTS_OPT_START_EPSILON_DEFAULT 1e-1
+#define POMDP_SOLVE_OPTS_OPT_END_EPSILON_DEFAULT 1e-3
+#define POMDP_SOLVE_OPTS_OPT_EPSILON_ADJUST_DEFAULT 10
+#define POMDP_SOLVE_OPTS_OPT_HISTORY_LENGTH_DEFAULT 5
+#define POMDP_SOLVE_OPTS_OPT_HISTORY_DELTA_DEFAULT 3
 #define POMDP_SOLVE_OPTS_OPT_Q_PURGE_DEFAULT POMDP_SOLVE_OPTS_Q_Purge_normal_prune
 #define POMDP_SOLVE_OPTS_OPT_MCGS_NUM_TRAJ_DEFAULT 1000
 #define POMDP_SOLVE_OPTS_OPT_STOP_CRITERIA_DEFAULT POMDP_SOLVE_OPTS_Stop_Criteria_weak
diff --git a/src/pomdp-solve-options.xml b/src/pomdp-solve-options.xml
index 6615af3..e84eee3 100644
--- a/src/pomdp-solve-options.xml
+++ b/src/pomdp-solve-options.xml
@@ -235,6 +235,7 @@
   <usage value="advanced"/>
   <type value="double"/>
   <valid value="0:any"/>
+  <default value="1e-1"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
   <summary value="Sets the starting precision for adjustable epsilon VI."/>
   <description>
@@ -250,6 +251,7 @@
   <usage value="advanced"/>
   <type value="double"/>
   <valid value="0:any"/>
+  <default value="1e-3"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
   <summary value="Sets the ending precision for adjustable epsilon VI."/>
   <description>
@@ -265,6 +267,7 @@
   <usage value="advanced"/>
   <type value="double"/>
   <valid value="0:any"/>
+  <default value="10"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
   <summary value="Sets the precision increment for adjustable epsilon VI."/>
   <description>
@@ -296,6 +299,7 @@
   <type value="int"/>
   <units value="epochs"/>
   <valid value="1:any"/>
+  <default value="5"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
   <summary value="Sets history window to use for adjustable epsilon VI."/>
   <description>
@@ -316,6 +320,7 @@
   <usage value="advanced"/>
   <type value="int"/>
   <valid value="1:any"/>
+  <default value="3"/>
   <depends param="vi_variation" value="adjustable_epsilon"/>
   <summary value="Sets solution size delta to use for adjustable epsilon VI."/>
   <description>
-- 
2.43.0


From 579a3328a48687e3f27b69762ab8802f9f34f1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:47 +0000
Subject: [PATCH 30/32] fix: the zlz variation aborted for want of witness
 points

---
 src/params.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/params.c b/src/params.c
index 389b460..5af0512 100644
--- a/src/params.c
+++ b/src/params.c
@@ -394,7 +394,11 @@ tempOptsToParamConversion( PomdpSolveParams params ) {
     {
     case POMDP_SOLVE_OPTS_Vi_Variation__END__:
     case POMDP_SOLVE_OPTS_Vi_Variation_normal: params->vi_variation = NormalVi; break;
-    case POMDP_SOLVE_OPTS_Vi_Variation_zlz: params->vi_variation = ZlzSpeedup; break;
+    case POMDP_SOLVE_OPTS_Vi_Variation_zlz:
+      params->vi_variation = ZlzSpeedup;
+      /* The ZLZ speedup needs a witness point for every vector. */
+      params->use_witness_points = TRUE;
+      break;
     case POMDP_SOLVE_OPTS_Vi_Variation_adjustable_epsilon: params->vi_variation = AdjustableEpsilonVi; break;
     case POMDP_SOLVE_OPTS_Vi_Variation_fixed_soln_size: params->vi_variation = FixedSolnSizeVi; break;
     }
-- 
2.43.0


From 40ba36d5d85b4374bfbe72aa917a5973955012bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 31/32] fix: grid runs printed debugging output to stdout in
 the middle of their report

---
 src/common.c | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/src/common.c b/src/common.c
index 9b2ce01..9966894 100644
--- a/src/common.c
+++ b/src/common.c
@@ -331,17 +331,6 @@ setBestAlphasForBeliefV( double *b, AlphaList **projection, double epsilon )
     result = result
       && bestAlphaForBeliefQ( gCurAlphaVector[a], b, 
                               projection[a], epsilon );
-   
-  // PBVI:
-  printf( "Belief: " );
-  showAlpha( b );
-
-  printf( "Alphas:\n" );
-  for( a = 0; a < gNumActions; a++ )
-    {
-	 printf( "a=%d : ", a );
-	 showAlpha( gCurAlphaVector[a]->alpha );
-    }
 
   return ( result );
 }  /* setBestAlphasForBeliefV */
-- 
2.43.0


From ea2a892824c26854d37def73c9aed8ea82add2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:32 +0000
Subject: [PATCH 32/32] fix: the linear program solver read past the end of a
 pivot column

Looking for a row to pivot on, the test of the coefficient came before
the test of the index, so with a bounded column and no such row the
entry after the last one was read.
---
 src/lp-solve/solve.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lp-solve/solve.c b/src/lp-solve/solve.c
index bf0b769..ad36d29 100644
--- a/src/lp-solve/solve.c
+++ b/src/lp-solve/solve.c
@@ -703,7 +703,7 @@ static short rowprim(lprec *lp,
       else
         {
           i = 1;
-          while(pcol[i] >= 0 && i <= lp->rows)
+          while(i <= lp->rows && pcol[i] >= 0)
             i++;
           if(i > lp->rows) /* empty column with upperbound! */
             {
-- 
2.43.0

