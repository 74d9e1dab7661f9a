From 4fa5f36543f2f448f6961a5eac8fc8a05e167ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 01/15] fix: Variable_Normalize must not rename already
 normalized variables again

---
 src/Variable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.c b/src/Variable.c
index 63172f6..6c01e11 100755
--- a/src/Variable.c
+++ b/src/Variable.c
@@ -446,7 +446,7 @@ void Variable_Normalize(Term *term)
             for(int k=j; k<COMPOUND_TERM_SIZE_MAX; k++)
             {
                 Atom atom2 = term->atoms[k];
-                if(atom == atom2)
+                if(!normalized[k] && atom == atom2)
                 {
                     term->atoms[k] = Narsese_AtomicTermIndex(varname);
                     normalized[k] = true;
-- 
2.43.0


From 8913cab478d14d7e940b804b98f7caa0e8dd3c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:45 +0000
Subject: [PATCH 02/15] fix: Event_INIT also has to drop a pending import stamp

---
 src/Event.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Event.c b/src/Event.c
index e8b0f1f..69f0c9b 100755
--- a/src/Event.c
+++ b/src/Event.c
@@ -49,6 +49,7 @@ Event Event_InputEvent(Term term, char type, Truth truth, double occurrenceTimeO
 void Event_INIT()
 {
     base = 1;
+    importstamp = (Stamp) {0};
 }
 
 bool Event_Equal(Event *event, Event *existing)
-- 
2.43.0


From f9acec85f860b6a2ab61fda9a9526e0b7affc204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 03/15] fix: the equivalence copula is not a simple atom

---
 src/Narsese.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 9ec4e67..8a83543 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -783,7 +783,7 @@ Term Narsese_GetPreconditionWithoutOp(Term *precondition)
 
 bool Narsese_IsSimpleAtom(Atom atom)
 {
-    return atom > 0 && (Narsese_atomNames[(int) atom - 1][0] == '^' ||
+    return atom > 0 && (Narsese_isOperator(atom) ||
            (Narsese_atomNames[(int) atom - 1][0] >= 'a' && Narsese_atomNames[(int) atom - 1][0] <= 'z') ||
            (Narsese_atomNames[(int) atom - 1][0] >= 'A' && Narsese_atomNames[(int) atom - 1][0] <= 'Z') ||
            (Narsese_atomNames[(int) atom - 1][0] >= '0' && Narsese_atomNames[(int) atom - 1][0] <= '9'));
-- 
2.43.0


From cd845fad6227aad6871bb6f2b35ae2cc37163872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 04/15] fix: junction nesting filter must not read behind the
 term

---
 src/NAL.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAL.c b/src/NAL.c
index 1fdf724..94443ea 100755
--- a/src/NAL.c
+++ b/src/NAL.c
@@ -280,7 +280,7 @@ static bool NAL_JunctionNotRightNested(Term *conclusionTerm)
         if(Narsese_copulaEquals(conclusionTerm->atoms[i], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i], DISJUNCTION))
         {
             int i_right_child = ((i+1)*2+1)-1;
-            if(i < COMPOUND_TERM_SIZE_MAX &&  (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
+            if(i_right_child < COMPOUND_TERM_SIZE_MAX &&  (Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], CONJUNCTION) || Narsese_copulaEquals(conclusionTerm->atoms[i_right_child], DISJUNCTION)))
             {
                 return true;
             }
-- 
2.43.0


From c3081c9ac4622fccb167903445a12149348ee9da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 05/15] fix: temporal implication questions also have to
 consider the last operation

---
 src/NAR.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/NAR.c b/src/NAR.c
index fd6051c..1d58e64 100755
--- a/src/NAR.c
+++ b/src/NAR.c
@@ -187,7 +187,7 @@ void NAR_AddInputNarsese2(char *narsese_sentence, bool queryCommand, double answ
             }
             if(isImplication)
             {
-                for(int op_k = 0; op_k<OPERATIONS_MAX; op_k++)
+                for(int op_k = 0; op_k<=OPERATIONS_MAX; op_k++)
                 {
                     for(int j=0; j<c->precondition_beliefs[op_k].itemsAmount; j++)
                     {
-- 
2.43.0


From f34a6ddbb5d84a8f061d80eccbbd67c5e9b0c621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 06/15] fix: building a term from tokens must not write behind
 the term or read missing tokens

---
 src/Narsese.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 8a83543..62fa44e 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -328,9 +328,12 @@ int Narsese_CopulaIndex(char name)
 //Encodes a binary tree in an array, based on the the S-expression tokenization with prefix order
 void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index, int nt)
 {
+    assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
+    assert(i1 < nt, "Parsing error: Term is incomplete!");
     if(tokens_prefix[i1][0] == '(' && tokens_prefix[i1][1] == 0)
     {
         int icop = i1+1;
+        assert(icop < nt, "Parsing error: Term is incomplete!");
         //first argument is given by the copula
         i1 = i1+2;
         //second argument has to be searched for
@@ -347,7 +350,6 @@ void buildBinaryTree(Term *bintree, char** tokens_prefix, int i1, int tree_index
     }
     else
     {
-        assert(tree_index-1 < COMPOUND_TERM_SIZE_MAX, "COMPOUND_TERM_SIZE_MAX too small, consider increasing or split input into multiple statements!");
         if(!(tokens_prefix[i1][0] == ')' && tokens_prefix[i1][1] == 0))
         {
             bintree->atoms[tree_index-1] = Narsese_AtomicTermIndex(tokens_prefix[i1]);
-- 
2.43.0


From 386a762adbf88fc921bde1ad8650080b8500a713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 07/15] fix: *concepts also has to show the implications of the
 last operation

---
 src/Shell.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index d362c30..8850efd 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -196,7 +196,7 @@ int Shell_ProcessInput(char *line)
                 {
                     Memory_printAddedEvent(&c->belief.stamp, &c->belief, 1, true, false, false, false, false);
                 }
-                for(int opi=0; opi<OPERATIONS_MAX; opi++)
+                for(int opi=0; opi<=OPERATIONS_MAX; opi++)
                 {
                     for(int h=0; h<c->precondition_beliefs[opi].itemsAmount; h++)
                     {
-- 
2.43.0


From ce5839deed8cfaebaab06ff258e045be3c778d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 08/15] fix: sentence parser must stay within its buffers and
 reject invalid truth values

---
 src/Narsese.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 62fa44e..2d60379 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -380,21 +380,18 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     assert(initialized, "Narsese not initialized, call Narsese_INIT first!");
     //Handle optional dt=num at beginning of line
     *occurrenceTimeOffset = 0.0;
-    char dt[30];
+    char dt[30] = {0};
     if(narsese[0] == 'd' && narsese[1] == 't'  && narsese[2] == '=') //dt=
     {
-        for(unsigned int i=0; i<strlen(narsese); i++)
+        for(unsigned int i=3; i<strlen(narsese); i++)
         {
-            if(i>=3)
-            {
-                dt[i-3] = narsese[i];
-            }
             if(narsese[i] == ' ')
             {
-                dt[i] = 0;
                 narsese = &narsese[i];
                 break;
             }
+            assert(i-3 < sizeof(dt)-1, "Parsing error: Time offset dt too long!");
+            dt[i-3] = narsese[i];
         }
         *occurrenceTimeOffset = atof(dt);
     }
@@ -417,17 +414,18 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
         {
             hasComma = hasComma || narseseInplace[openingIdx] == ';';
         }
+        assert(openingIdx > 0, "Parsing error: Truth value opener not found!");
         assert(narseseInplace[openingIdx] == '{' || narseseInplace[openingIdx] == '%', "Parsing error: Truth value opener not found!");
-        double conf, freq;
+        double conf = NAR_DEFAULT_CONFIDENCE, freq = NAR_DEFAULT_FREQUENCY;
         if(oldFormat && !hasComma)
         {
-            conf = NAR_DEFAULT_CONFIDENCE;
             sscanf(&narseseInplace[openingIdx], "%%%lf%%", &freq);
         }
         else
         {
             sscanf(&narseseInplace[openingIdx], oldFormat ? "%%%lf;%lf%%" : "{%lf %lf}", &freq, &conf);
         }
+        assert(freq >= 0.0 && freq <= 1.0 && conf >= 0.0 && conf <= 1.0, "Parsing error: Truth value out of range!");
         destTv->frequency = freq;
         destTv->confidence = conf;
         assert(narseseInplace[openingIdx-1] == ' ', "Parsing error: Space before truth value required!");
@@ -443,6 +441,7 @@ void Narsese_Sentence(char *narsese, Term *destTerm, char *punctuation, int *ten
     if(str_len >= 3 && narseseInplace[str_len-1] == ':' && narseseInplace[str_len-2] == '/' && narseseInplace[str_len-3] == ':')
         *tense = 3; 
     int punctuation_offset = *tense ? 5 : 1;
+    assert(str_len > punctuation_offset, "Parsing error: Term or punctuation missing!");
     *punctuation = narseseInplace[str_len-punctuation_offset];
     assert(*punctuation == '!' || *punctuation == '?' || *punctuation == '.', "Parsing error: Punctuation has to be belief . goal ! or question ?");
     narseseInplace[str_len-punctuation_offset] = 0; //we will only parse the term before it
-- 
2.43.0


From 75f85d639b4f95caa6bc31f65b5f4e2b3cf0ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 09/15] fix: brackets become two tokens, so there can be more
 tokens than input characters

---
 src/Narsese.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 2d60379..82dda39 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -247,8 +247,8 @@ int skipCompound(char** tokens, int i, int nt)
 
 char** Narsese_PrefixTransform(char* narsese_expanded)
 {
-    static char* tokens[NARSESE_LEN_MAX+1]; //there cannot be more tokens than chars
-    memset(tokens, 0, (NARSESE_LEN_MAX+1)*sizeof(char*)); //and last one stays NULL for sure
+    static char* tokens[REPLACEMENT_LEN+1]; //there cannot be more tokens than chars after replacement
+    memset(tokens, 0, (REPLACEMENT_LEN+1)*sizeof(char*)); //and last one stays NULL for sure
     char* token = strtok(narsese_expanded, " ");
     int nt = 0, nc = NUM_ELEMENTS(Narsese_CanonicalCopulas) - 1;
     while(token)
-- 
2.43.0


From d0b733b76a9d6caef62f602612a343608826f406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:58 +0000
Subject: [PATCH 10/15] fix: term printing must not omit the last position of
 the term

---
 src/Narsese.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Narsese.c b/src/Narsese.c
index 82dda39..26ff137 100755
--- a/src/Narsese.c
+++ b/src/Narsese.c
@@ -552,8 +552,8 @@ void Narsese_PrintTermPrettyRecursive(Term *term, int index) //start with index=
     }
     int child1 = index*2;
     int child2 = index*2+1;
-    bool hasLeftChild = child1 < COMPOUND_TERM_SIZE_MAX && term->atoms[child1-1];
-    bool hasRightChild = child2 < COMPOUND_TERM_SIZE_MAX && term->atoms[child2-1] && !Narsese_copulaEquals(term->atoms[child2-1], SET_TERMINATOR);
+    bool hasLeftChild = child1 <= COMPOUND_TERM_SIZE_MAX && term->atoms[child1-1];
+    bool hasRightChild = child2 <= COMPOUND_TERM_SIZE_MAX && term->atoms[child2-1] && !Narsese_copulaEquals(term->atoms[child2-1], SET_TERMINATOR);
     bool isSingularProduct = Narsese_copulaEquals(atom, PRODUCT) && !hasRightChild;
     bool isNegation = Narsese_copulaEquals(atom, NEGATION);
     bool isFrequencyGreater = Narsese_copulaEquals(atom, SEQUENCE) && !hasRightChild;
@@ -597,7 +597,7 @@ void Narsese_PrintTermPrettyRecursive(Term *term, int index) //start with index=
             fputs(" ", stdout);
         }
     }
-    if(child1 < COMPOUND_TERM_SIZE_MAX)
+    if(child1 <= COMPOUND_TERM_SIZE_MAX)
     {
         Narsese_PrintTermPrettyRecursive(term, child1);
     }
@@ -613,7 +613,7 @@ void Narsese_PrintTermPrettyRecursive(Term *term, int index) //start with index=
             fputs(hasLeftChild ? " " : "", stdout);
         }
     }
-    if(child2 < COMPOUND_TERM_SIZE_MAX)
+    if(child2 <= COMPOUND_TERM_SIZE_MAX)
     {
         Narsese_PrintTermPrettyRecursive(term, child2);
     }
-- 
2.43.0


From 9a56b10c16288c0cbe177a580f615e5a5b8dc472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 11/15] fix: *setopstdin must not write outside of the
 operation table

---
 src/Shell.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Shell.c b/src/Shell.c
index 8850efd..3b6b1ce 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -396,8 +396,9 @@ int Shell_ProcessInput(char *line)
         else
         if(!strncmp("*setopstdin ", line, strlen("*setopstdin ")))
         {
-            int opID;
+            int opID = 0;
             sscanf(&line[strlen("*setopstdin ")], "%d", &opID);
+            assert(opID >= 1 && opID <= OPERATIONS_MAX, "Operator index out of bounds, it can only be between 1 and OPERATIONS_MAX!");
             operations[opID - 1].stdinOutput = true;
         }
         else
-- 
2.43.0


From 5853519b1e031bdc33526ee58c9285a53b7393fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 12/15] fix: *stampimport without closing bracket or with too
 long content must not corrupt memory

---
 src/Shell.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Shell.c b/src/Shell.c
index 3b6b1ce..65744d8 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -267,6 +267,7 @@ int Shell_ProcessInput(char *line)
             char *end = strrchr(line, ']');
             // Extract the substring between the '[' and ']' characters
             char substr[1000];
+            assert(end != NULL && end > start && end - start - 1 < (long) sizeof(substr), "Invalid stamp to import!");
             strncpy(substr, start + 1, end - start - 1);
             substr[end - start - 1] = '\0';
             // Tokenize the substring using ',' as the delimiter
-- 
2.43.0


From cd3b93679131aa139a83842af947185d92256f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 13/15] fix: *setvalue must not write behind the name buffer

---
 src/Shell.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Shell.c b/src/Shell.c
index 65744d8..8034fab 100755
--- a/src/Shell.c
+++ b/src/Shell.c
@@ -316,17 +316,17 @@ int Shell_ProcessInput(char *line)
             const char* sep = termname[0] ? "_" : "";
             if(granularity <= 10)
             {
-                sprintf(termname_ext, "%s%s%.1f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.1f", termname, sep, value);
             }
             else
             if(granularity <= 100)
             {
-                sprintf(termname_ext, "%s%s%.2f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.2f", termname, sep, value);
             }
             else
             if(granularity <= 1000)
             {
-                sprintf(termname_ext, "%s%s%.3f", termname, sep, value);
+                snprintf(termname_ext, sizeof(termname_ext), "%s%s%.3f", termname, sep, value);
             }
             Narsese_setAtomValue((Atom) Narsese_AtomicTermIndex(termname_ext), value, termname);
         }
-- 
2.43.0


From c3022c4c0cd54c3ace68cc1e1cabf490e47c65d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 14/15] fix: do not store an implication in a concept recycled
 while creating its source concept

---
 src/Memory.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Memory.c b/src/Memory.c
index 47185b7..5c9d2c4 100755
--- a/src/Memory.c
+++ b/src/Memory.c
@@ -315,7 +315,7 @@ void Memory_ProcessNewBeliefEvent(Event *event, long currentTime, double priorit
                 sourceConceptTerm = subject;
             }
             Concept *source_concept = Memory_Conceptualize(&sourceConceptTerm, currentTime);
-            if(source_concept != NULL)
+            if(source_concept != NULL && Term_Equal(&target_concept->term, &predicate)) //the target could have been evicted to make space for the source
             {
                 source_concept->usage = Usage_use(source_concept->usage, currentTime, eternalInput);
                 imp.sourceConceptId = source_concept->id;
-- 
2.43.0


From fcafe89827a7bc16c0bd457b52fff05e6ee00820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:01 +0000
Subject: [PATCH 15/15] fix: a goal sequence of five elements must not overflow
 the component array

---
 src/Cycle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cycle.c b/src/Cycle.c
index 2d2f300..4ad9844 100755
--- a/src/Cycle.c
+++ b/src/Cycle.c
@@ -161,7 +161,7 @@ bool Cycle_GoalSequenceDecomposition(Event *selectedGoal, double selectedGoalPri
     {
         return false;
     }
-    Term componentGoalsTerm[MAX_SEQUENCE_LEN+1] = {0};
+    Term componentGoalsTerm[MAX_SEQUENCE_LEN+2] = {0}; //a sequence of MAX_SEQUENCE_LEN+1 copulas has one element more
     Term cur_seq = selectedGoal->term;
     int i=0;
     for(; Narsese_copulaEquals(cur_seq.atoms[0], SEQUENCE); i++)
-- 
2.43.0

