From 9f4ea82c27994ae93accb3928357ccdde213129e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 01/98] fix: whitespace before a standalone ^ closer and before
 else if

flex reads \s as a literal s, so {{^ }} and {{ else if x}} were rejected.
---
 src/handlebars.l     |    4 +-
 src/handlebars.lex.c | 2497 +++++++++++++++++++++---------------------
 src/handlebars.lex.h |    6 +-
 3 files changed, 1235 insertions(+), 1272 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b23c252..0c6e68e 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -285,7 +285,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_ENDBLOCK;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?"^"\s*{RIGHT_STRIP}?"}}"        {
+<mu>"{{"{LEFT_STRIP}?"^"{WHITESPACE}*{RIGHT_STRIP}?"}}"        {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
 										handlebars_yy_copy_lval();
@@ -305,7 +305,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?\s*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e18ac8c..ae79a18 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 1 "handlebars.lex.c"
+#line 2 "handlebars.lex.c"
 
-#line 3 "handlebars.lex.c"
+#line 4 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20137] =
+static const struct yy_trans_info yy_transition[19957] =
     {
- {   0,   0 }, {   0,19881 }, {   0,   2 }, {   0,19879 }, {   1,3096 },
+ {   0,   0 }, {   0,19701 }, {   0,   2 }, {   0,19699 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19621 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,19441 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19363 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19183 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19105 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,18925 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18847 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,18667 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18589 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18409 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18331 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,18151 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18073 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,17893 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17815 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,17635 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17557 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,17377 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17299 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17119 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17041 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,16861 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16783 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16603 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[20137] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16526 }, {   0,   6 }, {   0,16524 }, {   0,   6 },
- {   0,16522 }, {   0,  51 }, {   0,16520 }, {   0,  35 }, {   0,16518 },
+ {   0,   2 }, {   0,16346 }, {   0,   6 }, {   0,16344 }, {   0,   6 },
+ {   0,16342 }, {   0,  51 }, {   0,16340 }, {   0,  35 }, {   0,16338 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16511 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16506 }, {  13,4742 }, {   0,  14 }, {   0,16503 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16499 }, {  13,4735 },
- {   0,  34 }, {   0,16496 }, {   0,  31 }, {   0,16494 }, {   0,  40 },
- {   0,16492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,16331 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,16326 }, {  13,4742 }, {   0,  14 }, {   0,16323 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16319 }, {  13,4735 },
+ {   0,  34 }, {   0,16316 }, {   0,  31 }, {   0,16314 }, {   0,  40 },
+ {   0,16312 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16397 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,16217 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16140 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,15960 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15882 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,15702 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15624 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15444 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15366 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,15186 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15108 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,14928 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15090 }, {   0,  42 }, {   0,15088 },
+ {   0,   0 }, {   0,  50 }, {   0,14910 }, {   0,  42 }, {   0,14908 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15059 }, {   0,  50 },
- {   0,15057 }, {   0,   7 }, {   0,15055 }, {   0,  51 }, {   0,15053 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,14879 }, {   0,  50 },
+ {   0,14877 }, {   0,   7 }, {   0,14875 }, {   0,  51 }, {   0,14873 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15026 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,14846 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14768 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14588 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14510 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,14330 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14252 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,14072 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13994 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13814 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13736 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,13556 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13478 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13298 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13220 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,13040 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12962 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,12782 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12704 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12524 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12447 }, {   0,   2 }, {   0,12445 }, {   0,   0 }, {   0,12443 },
+ {   0,12267 }, {   0,   2 }, {   0,12265 }, {   0,   0 }, {   0,12263 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12322 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12142 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12065 }, {   0,   0 }, {   0,12063 },
- {   0,   5 }, {   0,12061 }, {   0,  48 }, {   0,12059 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,11885 }, {   0,   0 }, {   0,11883 },
+ {   0,   5 }, {   0,11881 }, {   0,  48 }, {   0,11879 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12034 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,11854 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11776 }, {   0,  38 }, {   0,11774 }, {   0,  39 },
- {   0,11772 }, {   0,  33 }, {   0,11770 }, {   0,  32 }, {   0,11768 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11764 }, {  13,   0 },
- {   0,  49 }, {   0,11761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,11596 }, {   0,  38 }, {   0,11594 }, {   0,  39 },
+ {   0,11592 }, {   0,  33 }, {   0,11590 }, {   0,  32 }, {   0,11588 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11584 }, {  13,   0 },
+ {   0,  49 }, {   0,11581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11742 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,11562 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11484 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11304 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11226 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,11046 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10968 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10788 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10710 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,10530 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10452 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,10272 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10393 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10213 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10135 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,9955 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9877 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,9697 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9619 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9439 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9361 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,9181 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9103 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,8923 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8845 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,8665 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,16 +3085,16 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8587 }, {   0,  37 }, {   0,8585 }, {   0,   0 }, {   0,8583 },
+ {   0,8407 }, {   0,  37 }, {   0,8405 }, {   0,   0 }, {   0,8403 },
 
- {   0,   0 }, {   0,8581 }, {   0,   0 }, {   0,8579 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8575 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,8401 }, {   0,   0 }, {   0,8399 }, {   9,3229 },
+ {  10,3229 }, {   0,  13 }, {   0,8395 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
  {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3242 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  33,3248 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3111,11 +3111,11 @@ static const struct yy_trans_info yy_transition[20137] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
- {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3244 },
- {   0,   0 }, {   0,8451 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
+ {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
+ {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3250 },
+ {   0,   0 }, {   0,8271 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8193 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8013 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7935 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,7755 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,9 +3285,9 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7678 },
- {   0,   0 }, {   0,7676 }, {   0,   0 }, {   0,7674 }, {   0,   5 },
- {   0,7672 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7498 },
+ {   0,   0 }, {   0,7496 }, {   0,   0 }, {   0,7494 }, {   0,   5 },
+ {   0,7492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3307,70 +3307,70 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  48 }, {   0,7401 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2347 }, {   0,   0 }, { 123,2348 },
- {   0,   0 }, { 123,2350 }, {   0,   4 }, {   0,7549 }, {   1,2350 },
- {   2,2350 }, {   3,2350 }, {   4,2350 }, {   5,2350 }, {   6,2350 },
- {   7,2350 }, {   8,2350 }, {   9,2350 }, {  10,2227 }, {  11,2350 },
- {  12,2350 }, {  13,2227 }, {  14,2350 }, {  15,2350 }, {  16,2350 },
+ {   0,   0 }, {   0,   0 }, { 123,2351 }, {   0,   0 }, { 123,2354 },
+ {   0,   0 }, { 123,2354 }, {   0,   4 }, {   0,7369 }, {   1,2354 },
+ {   2,2354 }, {   3,2354 }, {   4,2354 }, {   5,2354 }, {   6,2354 },
+ {   7,2354 }, {   8,2354 }, {   9,2354 }, {  10,2239 }, {  11,2354 },
+ {  12,2354 }, {  13,2239 }, {  14,2354 }, {  15,2354 }, {  16,2354 },
 
- {  17,2350 }, {  18,2350 }, {  19,2350 }, {  20,2350 }, {  21,2350 },
- {  22,2350 }, {  23,2350 }, {  24,2350 }, {  25,2350 }, {  26,2350 },
- {  27,2350 }, {  28,2350 }, {  29,2350 }, {  30,2350 }, {  31,2350 },
- {  32,2350 }, {  33,2350 }, {  34,2350 }, {  35,2350 }, {  36,2350 },
- {  37,2350 }, {  38,2350 }, {  39,2350 }, {  40,2350 }, {  41,2350 },
- {  42,2350 }, {  43,2350 }, {  44,2350 }, {  45,2350 }, {  46,2350 },
- {  47,2350 }, {  48,2350 }, {  49,2350 }, {  50,2350 }, {  51,2350 },
- {  52,2350 }, {  53,2350 }, {  54,2350 }, {  55,2350 }, {  56,2350 },
- {  57,2350 }, {  58,2350 }, {  59,2350 }, {  60,2350 }, {  61,2350 },
- {  62,2350 }, {  63,2350 }, {  64,2350 }, {  65,2350 }, {  66,2350 },
+ {  17,2354 }, {  18,2354 }, {  19,2354 }, {  20,2354 }, {  21,2354 },
+ {  22,2354 }, {  23,2354 }, {  24,2354 }, {  25,2354 }, {  26,2354 },
+ {  27,2354 }, {  28,2354 }, {  29,2354 }, {  30,2354 }, {  31,2354 },
+ {  32,2354 }, {  33,2354 }, {  34,2354 }, {  35,2354 }, {  36,2354 },
+ {  37,2354 }, {  38,2354 }, {  39,2354 }, {  40,2354 }, {  41,2354 },
+ {  42,2354 }, {  43,2354 }, {  44,2354 }, {  45,2354 }, {  46,2354 },
+ {  47,2354 }, {  48,2354 }, {  49,2354 }, {  50,2354 }, {  51,2354 },
+ {  52,2354 }, {  53,2354 }, {  54,2354 }, {  55,2354 }, {  56,2354 },
+ {  57,2354 }, {  58,2354 }, {  59,2354 }, {  60,2354 }, {  61,2354 },
+ {  62,2354 }, {  63,2354 }, {  64,2354 }, {  65,2354 }, {  66,2354 },
 
- {  67,2350 }, {  68,2350 }, {  69,2350 }, {  70,2350 }, {  71,2350 },
- {  72,2350 }, {  73,2350 }, {  74,2350 }, {  75,2350 }, {  76,2350 },
- {  77,2350 }, {  78,2350 }, {  79,2350 }, {  80,2350 }, {  81,2350 },
- {  82,2350 }, {  83,2350 }, {  84,2350 }, {  85,2350 }, {  86,2350 },
- {  87,2350 }, {  88,2350 }, {  89,2350 }, {  90,2350 }, {  91,2350 },
- { 124,2263 }, {  93,2350 }, {  94,2350 }, {  95,2350 }, {  96,2350 },
- {  97,2350 }, {  98,2350 }, {  99,2350 }, { 100,2350 }, { 101,2350 },
- { 102,2350 }, { 103,2350 }, { 104,2350 }, { 105,2350 }, { 106,2350 },
- { 107,2350 }, { 108,2350 }, { 109,2350 }, { 110,2350 }, { 111,2350 },
- { 112,2350 }, { 113,2350 }, { 114,2350 }, { 115,2350 }, { 116,2350 },
+ {  67,2354 }, {  68,2354 }, {  69,2354 }, {  70,2354 }, {  71,2354 },
+ {  72,2354 }, {  73,2354 }, {  74,2354 }, {  75,2354 }, {  76,2354 },
+ {  77,2354 }, {  78,2354 }, {  79,2354 }, {  80,2354 }, {  81,2354 },
+ {  82,2354 }, {  83,2354 }, {  84,2354 }, {  85,2354 }, {  86,2354 },
+ {  87,2354 }, {  88,2354 }, {  89,2354 }, {  90,2354 }, {  91,2354 },
+ { 124,2277 }, {  93,2354 }, {  94,2354 }, {  95,2354 }, {  96,2354 },
+ {  97,2354 }, {  98,2354 }, {  99,2354 }, { 100,2354 }, { 101,2354 },
+ { 102,2354 }, { 103,2354 }, { 104,2354 }, { 105,2354 }, { 106,2354 },
+ { 107,2354 }, { 108,2354 }, { 109,2354 }, { 110,2354 }, { 111,2354 },
+ { 112,2354 }, { 113,2354 }, { 114,2354 }, { 115,2354 }, { 116,2354 },
 
- { 117,2350 }, { 118,2350 }, { 119,2350 }, { 120,2350 }, { 121,2350 },
- { 122,2350 }, { 123,2607 }, { 124,2350 }, { 125,2350 }, { 126,2350 },
- { 127,2350 }, { 128,2350 }, { 129,2350 }, { 130,2350 }, { 131,2350 },
- { 132,2350 }, { 133,2350 }, { 134,2350 }, { 135,2350 }, { 136,2350 },
- { 137,2350 }, { 138,2350 }, { 139,2350 }, { 140,2350 }, { 141,2350 },
- { 142,2350 }, { 143,2350 }, { 144,2350 }, { 145,2350 }, { 146,2350 },
- { 147,2350 }, { 148,2350 }, { 149,2350 }, { 150,2350 }, { 151,2350 },
- { 152,2350 }, { 153,2350 }, { 154,2350 }, { 155,2350 }, { 156,2350 },
- { 157,2350 }, { 158,2350 }, { 159,2350 }, { 160,2350 }, { 161,2350 },
- { 162,2350 }, { 163,2350 }, { 164,2350 }, { 165,2350 }, { 166,2350 },
+ { 117,2354 }, { 118,2354 }, { 119,2354 }, { 120,2354 }, { 121,2354 },
+ { 122,2354 }, { 123,2611 }, { 124,2354 }, { 125,2354 }, { 126,2354 },
+ { 127,2354 }, { 128,2354 }, { 129,2354 }, { 130,2354 }, { 131,2354 },
+ { 132,2354 }, { 133,2354 }, { 134,2354 }, { 135,2354 }, { 136,2354 },
+ { 137,2354 }, { 138,2354 }, { 139,2354 }, { 140,2354 }, { 141,2354 },
+ { 142,2354 }, { 143,2354 }, { 144,2354 }, { 145,2354 }, { 146,2354 },
+ { 147,2354 }, { 148,2354 }, { 149,2354 }, { 150,2354 }, { 151,2354 },
+ { 152,2354 }, { 153,2354 }, { 154,2354 }, { 155,2354 }, { 156,2354 },
+ { 157,2354 }, { 158,2354 }, { 159,2354 }, { 160,2354 }, { 161,2354 },
+ { 162,2354 }, { 163,2354 }, { 164,2354 }, { 165,2354 }, { 166,2354 },
 
- { 167,2350 }, { 168,2350 }, { 169,2350 }, { 170,2350 }, { 171,2350 },
- { 172,2350 }, { 173,2350 }, { 174,2350 }, { 175,2350 }, { 176,2350 },
- { 177,2350 }, { 178,2350 }, { 179,2350 }, { 180,2350 }, { 181,2350 },
- { 182,2350 }, { 183,2350 }, { 184,2350 }, { 185,2350 }, { 186,2350 },
- { 187,2350 }, { 188,2350 }, { 189,2350 }, { 190,2350 }, { 191,2350 },
- { 192,2350 }, { 193,2350 }, { 194,2350 }, { 195,2350 }, { 196,2350 },
- { 197,2350 }, { 198,2350 }, { 199,2350 }, { 200,2350 }, { 201,2350 },
- { 202,2350 }, { 203,2350 }, { 204,2350 }, { 205,2350 }, { 206,2350 },
- { 207,2350 }, { 208,2350 }, { 209,2350 }, { 210,2350 }, { 211,2350 },
- { 212,2350 }, { 213,2350 }, { 214,2350 }, { 215,2350 }, { 216,2350 },
+ { 167,2354 }, { 168,2354 }, { 169,2354 }, { 170,2354 }, { 171,2354 },
+ { 172,2354 }, { 173,2354 }, { 174,2354 }, { 175,2354 }, { 176,2354 },
+ { 177,2354 }, { 178,2354 }, { 179,2354 }, { 180,2354 }, { 181,2354 },
+ { 182,2354 }, { 183,2354 }, { 184,2354 }, { 185,2354 }, { 186,2354 },
+ { 187,2354 }, { 188,2354 }, { 189,2354 }, { 190,2354 }, { 191,2354 },
+ { 192,2354 }, { 193,2354 }, { 194,2354 }, { 195,2354 }, { 196,2354 },
+ { 197,2354 }, { 198,2354 }, { 199,2354 }, { 200,2354 }, { 201,2354 },
+ { 202,2354 }, { 203,2354 }, { 204,2354 }, { 205,2354 }, { 206,2354 },
+ { 207,2354 }, { 208,2354 }, { 209,2354 }, { 210,2354 }, { 211,2354 },
+ { 212,2354 }, { 213,2354 }, { 214,2354 }, { 215,2354 }, { 216,2354 },
 
- { 217,2350 }, { 218,2350 }, { 219,2350 }, { 220,2350 }, { 221,2350 },
- { 222,2350 }, { 223,2350 }, { 224,2350 }, { 225,2350 }, { 226,2350 },
- { 227,2350 }, { 228,2350 }, { 229,2350 }, { 230,2350 }, { 231,2350 },
- { 232,2350 }, { 233,2350 }, { 234,2350 }, { 235,2350 }, { 236,2350 },
- { 237,2350 }, { 238,2350 }, { 239,2350 }, { 240,2350 }, { 241,2350 },
- { 242,2350 }, { 243,2350 }, { 244,2350 }, { 245,2350 }, { 246,2350 },
- { 247,2350 }, { 248,2350 }, { 249,2350 }, { 250,2350 }, { 251,2350 },
- { 252,2350 }, { 253,2350 }, { 254,2350 }, { 255,2350 }, {   0,  38 },
- {   0,7292 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2354 }, { 218,2354 }, { 219,2354 }, { 220,2354 }, { 221,2354 },
+ { 222,2354 }, { 223,2354 }, { 224,2354 }, { 225,2354 }, { 226,2354 },
+ { 227,2354 }, { 228,2354 }, { 229,2354 }, { 230,2354 }, { 231,2354 },
+ { 232,2354 }, { 233,2354 }, { 234,2354 }, { 235,2354 }, { 236,2354 },
+ { 237,2354 }, { 238,2354 }, { 239,2354 }, { 240,2354 }, { 241,2354 },
+ { 242,2354 }, { 243,2354 }, { 244,2354 }, { 245,2354 }, { 246,2354 },
+ { 247,2354 }, { 248,2354 }, { 249,2354 }, { 250,2354 }, { 251,2354 },
+ { 252,2354 }, { 253,2354 }, { 254,2354 }, { 255,2354 }, {   0,  38 },
+ {   0,7112 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7034 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,6854 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,21 +3484,21 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6776 }, {   0,  29 }, {   0,6774 }, {   0,  20 },
- {   0,6772 }, {   0,  27 }, {   0,6770 }, {   0,  30 }, {   0,6768 },
- {   9,1456 }, {  10,1456 }, {   0,  21 }, {   0,6764 }, {  13,1456 },
- {   0,  18 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6596 }, {   0,  29 }, {   0,6594 }, {   0,  20 },
+ {   0,6592 }, {   0,  27 }, {   0,6590 }, {   0,  30 }, {   0,6588 },
+ {   9,1470 }, {  10,1470 }, {   0,  21 }, {   0,6584 }, {  13,1470 },
+ {   0,  18 }, {   0,6581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1456 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1470 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1456 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1470 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1466 }, {  45,1461 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,1478 }, {  45,1476 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1469 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,1480 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1456 }, { 126,1456 }, {   0,  49 }, {   0,6648 },
+ {   0,   0 }, { 125,1470 }, { 126,1470 }, {   0,  49 }, {   0,6468 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,7 +3568,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6390 }, {   1,-5644 }, {   2,-5644 },
+ { 256,-3745 }, {   0,   0 }, {   0,6210 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
 
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
@@ -3594,7 +3594,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
 
  { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1705 }, { 116,-5644 }, { 117,-5644 },
+ { 113,-5644 }, { 114,-5644 }, { 115,1709 }, { 116,-5644 }, { 117,-5644 },
  { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
  {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
  { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
@@ -3626,7 +3626,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
 
- {   0,6132 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
+ {   0,5952 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
@@ -3649,7 +3649,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
 
  { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1705 }, { 109,-5902 },
+ { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1709 }, { 109,-5902 },
  { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
  { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
  { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
@@ -3682,7 +3682,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
 
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5874 }, {   1,-6160 },
+ { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5694 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
@@ -3704,7 +3704,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1705 },
+ {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1709 },
  { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
  { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
  { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
@@ -3739,7 +3739,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5616 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
+ {   0,   0 }, {   0,5436 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
@@ -3761,7 +3761,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
  {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1705 }, { 102,-6418 }, { 103,-6418 },
+ {  99,-6418 }, { 100,-6418 }, { 101,1709 }, { 102,-6418 }, { 103,-6418 },
  { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
  { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
  { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
@@ -3795,841 +3795,928 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5358 },
- {   0,  24 }, {   0,5356 }, {   0,   0 }, {   0,5354 }, {   0,   0 },
- {   0,5352 }, {   0,  26 }, {   0,5350 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,5346 }, {  13,   0 }, {   0,  30 }, {   0,5343 },
- {   0,   0 }, {   0,5341 }, {   0,  37 }, {   0,5339 }, {   0,   0 },
- {   0,5337 }, {   0,   0 }, {   0,5335 }, {   9, -15 }, {  10, -15 },
-
- {   0,   0 }, {   0,5331 }, {  13, -15 }, {   0,   0 }, {   0,5328 },
- {   0,   0 }, {  32,   0 }, {   0,   1 }, {   0,5324 }, {   0,   4 },
- {   0,5322 }, {   0,  47 }, {   0,5320 }, {   0,  41 }, {   0,5318 },
- {   0,   0 }, {   0,   0 }, {   0,5315 }, {   0,   0 }, {   0,5313 },
- {  10,   0 }, {  32, -15 }, {  33,-1431 }, {  13,   0 }, {  35,-1429 },
- {   0,  20 }, {   0,5306 }, {  38,-1427 }, {   0,  19 }, {   0,5303 },
- {  33,  -2 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2594 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,  43 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1707 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,1703 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 125,1705 }, { 126,1707 }, {   0,   0 }, { 115,  -9 },
- { 123,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1707 }, { 123,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1704 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 },
- { 108,2594 }, {   0,   0 }, { 123,2064 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,2062 }, {   0,   4 }, {   0,5199 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 },
- {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5178 },
+ {   0,  24 }, {   0,5176 }, {   0,   0 }, {   0,5174 }, {   0,  26 },
+ {   0,5172 }, {   0,  30 }, {   0,5170 }, {   9,   0 }, {  10,   0 },
+ {   9,1707 }, {  10,1707 }, {  13,   0 }, {   0,   0 }, {  13,1707 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,5158 },
+ {  13,  -8 }, {   0,   0 }, {   0,5155 }, {   0,  37 }, {   0,5153 },
 
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {   0,   0 }, {   0,5151 }, {   0,   0 }, {   0,5149 }, {   0,   0 },
+ {   0,5147 }, {  32,   0 }, {   0,   0 }, {  32,1707 }, {   0,   0 },
+ {   0,5142 }, {   0,   1 }, {   0,5140 }, {   0,   0 }, {  32,  -8 },
+ {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
+ {  38,-1420 }, {   0,   4 }, {   0,5130 }, {   0,   0 }, {  42,-1418 },
+ {   0,  47 }, {   0,5126 }, {   0,  41 }, {   0,5124 }, {  47,-1414 },
+ {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,5118 },
+ {  13,   0 }, {  33,  -2 }, {   0,  20 }, {   0,5114 }, {   0,  19 },
+ {   0,5112 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
+ {   0,   0 }, {  45,1701 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {   0,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {  45,2046 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
+ {   0,   0 }, { 108,1711 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ {   0,   0 }, { 125,1709 }, { 126,1711 }, { 123,1711 }, {   0,   0 },
+ { 123,1713 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1704 },
+ {   0,   0 }, {   0,   0 }, { 125,1703 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2062 }, {   0,   0 },
+ { 123,2062 }, {   0,   4 }, {   0,5015 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,-115 }, {  11,   0 }, {  12,   0 },
 
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ {  13,-115 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 },
- {   0,4942 }, {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 },
- {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 },
-
- {  10,-380 }, {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 },
- {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 },
- {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 },
- {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 },
- {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 },
- {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 },
- {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 },
- {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 },
- {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 },
- {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 },
-
- {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 },
- {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 },
- {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 },
- {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 },
- {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 },
- {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 },
- {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 },
- {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 },
- { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 },
- { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 },
-
- { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 },
- { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 },
- { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 },
- { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 },
- { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 },
- { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 },
- { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 },
- { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 },
- { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 },
- { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 },
-
- { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 },
- { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 },
- { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 },
- { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 },
- { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 },
- { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 },
- { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 },
- { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 },
- { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 },
- { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 },
-
- { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 },
- { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 },
- { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 },
- { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 },
- { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 },
- { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 },
- { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 },
- { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 },
- { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 },
- { 255,-257 }, {   0,   0 }, {   0,4685 }, {   1,-7349 }, {   2,-7349 },
-
- {   3,-7349 }, {   4,-7349 }, {   5,-7349 }, {   6,-7349 }, {   7,-7349 },
- {   8,-7349 }, {   9,-7374 }, {  10,-7374 }, {  11,-7349 }, {  12,-7349 },
- {  13,-7374 }, {  14,-7349 }, {  15,-7349 }, {  16,-7349 }, {  17,-7349 },
- {  18,-7349 }, {  19,-7349 }, {  20,-7349 }, {  21,-7349 }, {  22,-7349 },
- {  23,-7349 }, {  24,-7349 }, {  25,-7349 }, {  26,-7349 }, {  27,-7349 },
- {  28,-7349 }, {  29,-7349 }, {  30,-7349 }, {  31,-7349 }, {  32,-7374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7349 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7374 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7349 }, {  46,-7374 }, {  47,-7374 },
- {  48,-7349 }, {  49,-7349 }, {  50,-7349 }, {  51,-7349 }, {  52,-7349 },
-
- {  53,-7349 }, {  54,-7349 }, {  55,-7349 }, {  56,-7349 }, {  57,-7349 },
- {  58,-7349 }, {   0,   0 }, {   0,   0 }, {  61,-7374 }, {   0,   0 },
- {  63,-7349 }, {   0,   0 }, {  65,-7349 }, {  66,-7349 }, {  67,-7349 },
- {  68,-7349 }, {  69,-7349 }, {  70,-7349 }, {  71,-7349 }, {  72,-7349 },
- {  73,-7349 }, {  74,-7349 }, {  75,-7349 }, {  76,-7349 }, {  77,-7349 },
- {  78,-7349 }, {  79,-7349 }, {  80,-7349 }, {  81,-7349 }, {  82,-7349 },
- {  83,-7349 }, {  84,-7349 }, {  85,-7349 }, {  86,-7349 }, {  87,-7349 },
- {  88,-7349 }, {  89,-7349 }, {  90,-7349 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7349 }, {   0,   0 }, {  97,-7349 },
- {  98,-7349 }, {  99,-7349 }, { 100,-7349 }, { 101,1448 }, { 102,-7349 },
-
- { 103,-7349 }, { 104,-7349 }, { 105,-7349 }, { 106,-7349 }, { 107,-7349 },
- { 108,-7349 }, { 109,-7349 }, { 110,-7349 }, { 111,-7349 }, { 112,-7349 },
- { 113,-7349 }, { 114,-7349 }, { 115,-7349 }, { 116,-7349 }, { 117,-7349 },
- { 118,-7349 }, { 119,-7349 }, { 120,-7349 }, { 121,-7349 }, { 122,-7349 },
- {   0,   0 }, { 124,-7374 }, { 125,-7374 }, { 126,-7374 }, { 127,-7349 },
- { 128,-7349 }, { 129,-7349 }, { 130,-7349 }, { 131,-7349 }, { 132,-7349 },
- { 133,-7349 }, { 134,-7349 }, { 135,-7349 }, { 136,-7349 }, { 137,-7349 },
- { 138,-7349 }, { 139,-7349 }, { 140,-7349 }, { 141,-7349 }, { 142,-7349 },
- { 143,-7349 }, { 144,-7349 }, { 145,-7349 }, { 146,-7349 }, { 147,-7349 },
- { 148,-7349 }, { 149,-7349 }, { 150,-7349 }, { 151,-7349 }, { 152,-7349 },
-
- { 153,-7349 }, { 154,-7349 }, { 155,-7349 }, { 156,-7349 }, { 157,-7349 },
- { 158,-7349 }, { 159,-7349 }, { 160,-7349 }, { 161,-7349 }, { 162,-7349 },
- { 163,-7349 }, { 164,-7349 }, { 165,-7349 }, { 166,-7349 }, { 167,-7349 },
- { 168,-7349 }, { 169,-7349 }, { 170,-7349 }, { 171,-7349 }, { 172,-7349 },
- { 173,-7349 }, { 174,-7349 }, { 175,-7349 }, { 176,-7349 }, { 177,-7349 },
- { 178,-7349 }, { 179,-7349 }, { 180,-7349 }, { 181,-7349 }, { 182,-7349 },
- { 183,-7349 }, { 184,-7349 }, { 185,-7349 }, { 186,-7349 }, { 187,-7349 },
- { 188,-7349 }, { 189,-7349 }, { 190,-7349 }, { 191,-7349 }, { 192,-7349 },
- { 193,-7349 }, { 194,-7349 }, { 195,-7349 }, { 196,-7349 }, { 197,-7349 },
- { 198,-7349 }, { 199,-7349 }, { 200,-7349 }, { 201,-7349 }, { 202,-7349 },
-
- { 203,-7349 }, { 204,-7349 }, { 205,-7349 }, { 206,-7349 }, { 207,-7349 },
- { 208,-7349 }, { 209,-7349 }, { 210,-7349 }, { 211,-7349 }, { 212,-7349 },
- { 213,-7349 }, { 214,-7349 }, { 215,-7349 }, { 216,-7349 }, { 217,-7349 },
- { 218,-7349 }, { 219,-7349 }, { 220,-7349 }, { 221,-7349 }, { 222,-7349 },
- { 223,-7349 }, { 224,-7349 }, { 225,-7349 }, { 226,-7349 }, { 227,-7349 },
- { 228,-7349 }, { 229,-7349 }, { 230,-7349 }, { 231,-7349 }, { 232,-7349 },
- { 233,-7349 }, { 234,-7349 }, { 235,-7349 }, { 236,-7349 }, { 237,-7349 },
- { 238,-7349 }, { 239,-7349 }, { 240,-7349 }, { 241,-7349 }, { 242,-7349 },
- { 243,-7349 }, { 244,-7349 }, { 245,-7349 }, { 246,-7349 }, { 247,-7349 },
- { 248,-7349 }, { 249,-7349 }, { 250,-7349 }, { 251,-7349 }, { 252,-7349 },
-
- { 253,-7349 }, { 254,-7349 }, { 255,-7349 }, { 256,-7349 }, {   0,   0 },
- {   0,4427 }, {   1,-7607 }, {   2,-7607 }, {   3,-7607 }, {   4,-7607 },
- {   5,-7607 }, {   6,-7607 }, {   7,-7607 }, {   8,-7607 }, {   9,1167 },
- {  10,1167 }, {  11,-7607 }, {  12,-7607 }, {  13,1167 }, {  14,-7607 },
- {  15,-7607 }, {  16,-7607 }, {  17,-7607 }, {  18,-7607 }, {  19,-7607 },
- {  20,-7607 }, {  21,-7607 }, {  22,-7607 }, {  23,-7607 }, {  24,-7607 },
- {  25,-7607 }, {  26,-7607 }, {  27,-7607 }, {  28,-7607 }, {  29,-7607 },
- {  30,-7607 }, {  31,-7607 }, {  32,1167 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-7607 }, {  46,-7632 }, {  47,-7632 }, {  48,-7607 }, {  49,-7607 },
- {  50,-7607 }, {  51,-7607 }, {  52,-7607 }, {  53,-7607 }, {  54,-7607 },
- {  55,-7607 }, {  56,-7607 }, {  57,-7607 }, {  58,-7607 }, {   0,   0 },
- {   0,   0 }, {  61,-7632 }, {   0,   0 }, {  63,-7607 }, {   0,   0 },
- {  65,-7607 }, {  66,-7607 }, {  67,-7607 }, {  68,-7607 }, {  69,-7607 },
- {  70,-7607 }, {  71,-7607 }, {  72,-7607 }, {  73,-7607 }, {  74,-7607 },
- {  75,-7607 }, {  76,-7607 }, {  77,-7607 }, {  78,-7607 }, {  79,-7607 },
- {  80,-7607 }, {  81,-7607 }, {  82,-7607 }, {  83,-7607 }, {  84,-7607 },
- {  85,-7607 }, {  86,-7607 }, {  87,-7607 }, {  88,-7607 }, {  89,-7607 },
- {  90,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-7607 }, {   0,   0 }, {  97,-7607 }, {  98,-7607 }, {  99,-7607 },
- { 100,-7607 }, { 101,-7607 }, { 102,-7607 }, { 103,-7607 }, { 104,-7607 },
- { 105,-7607 }, { 106,-7607 }, { 107,-7607 }, { 108,-7607 }, { 109,-7607 },
- { 110,-7607 }, { 111,-7607 }, { 112,-7607 }, { 113,-7607 }, { 114,-7607 },
- { 115,-7607 }, { 116,-7607 }, { 117,-7607 }, { 118,-7607 }, { 119,-7607 },
- { 120,-7607 }, { 121,-7607 }, { 122,-7607 }, {   0,   0 }, { 124,-7632 },
- { 125,1167 }, { 126,1167 }, { 127,-7607 }, { 128,-7607 }, { 129,-7607 },
- { 130,-7607 }, { 131,-7607 }, { 132,-7607 }, { 133,-7607 }, { 134,-7607 },
- { 135,-7607 }, { 136,-7607 }, { 137,-7607 }, { 138,-7607 }, { 139,-7607 },
- { 140,-7607 }, { 141,-7607 }, { 142,-7607 }, { 143,-7607 }, { 144,-7607 },
-
- { 145,-7607 }, { 146,-7607 }, { 147,-7607 }, { 148,-7607 }, { 149,-7607 },
- { 150,-7607 }, { 151,-7607 }, { 152,-7607 }, { 153,-7607 }, { 154,-7607 },
- { 155,-7607 }, { 156,-7607 }, { 157,-7607 }, { 158,-7607 }, { 159,-7607 },
- { 160,-7607 }, { 161,-7607 }, { 162,-7607 }, { 163,-7607 }, { 164,-7607 },
- { 165,-7607 }, { 166,-7607 }, { 167,-7607 }, { 168,-7607 }, { 169,-7607 },
- { 170,-7607 }, { 171,-7607 }, { 172,-7607 }, { 173,-7607 }, { 174,-7607 },
- { 175,-7607 }, { 176,-7607 }, { 177,-7607 }, { 178,-7607 }, { 179,-7607 },
- { 180,-7607 }, { 181,-7607 }, { 182,-7607 }, { 183,-7607 }, { 184,-7607 },
- { 185,-7607 }, { 186,-7607 }, { 187,-7607 }, { 188,-7607 }, { 189,-7607 },
- { 190,-7607 }, { 191,-7607 }, { 192,-7607 }, { 193,-7607 }, { 194,-7607 },
-
- { 195,-7607 }, { 196,-7607 }, { 197,-7607 }, { 198,-7607 }, { 199,-7607 },
- { 200,-7607 }, { 201,-7607 }, { 202,-7607 }, { 203,-7607 }, { 204,-7607 },
- { 205,-7607 }, { 206,-7607 }, { 207,-7607 }, { 208,-7607 }, { 209,-7607 },
- { 210,-7607 }, { 211,-7607 }, { 212,-7607 }, { 213,-7607 }, { 214,-7607 },
- { 215,-7607 }, { 216,-7607 }, { 217,-7607 }, { 218,-7607 }, { 219,-7607 },
- { 220,-7607 }, { 221,-7607 }, { 222,-7607 }, { 223,-7607 }, { 224,-7607 },
- { 225,-7607 }, { 226,-7607 }, { 227,-7607 }, { 228,-7607 }, { 229,-7607 },
- { 230,-7607 }, { 231,-7607 }, { 232,-7607 }, { 233,-7607 }, { 234,-7607 },
- { 235,-7607 }, { 236,-7607 }, { 237,-7607 }, { 238,-7607 }, { 239,-7607 },
- { 240,-7607 }, { 241,-7607 }, { 242,-7607 }, { 243,-7607 }, { 244,-7607 },
-
- { 245,-7607 }, { 246,-7607 }, { 247,-7607 }, { 248,-7607 }, { 249,-7607 },
- { 250,-7607 }, { 251,-7607 }, { 252,-7607 }, { 253,-7607 }, { 254,-7607 },
- { 255,-7607 }, { 256,-7607 }, {   0,   0 }, {   0,4169 }, {   1,-7865 },
- {   2,-7865 }, {   3,-7865 }, {   4,-7865 }, {   5,-7865 }, {   6,-7865 },
- {   7,-7865 }, {   8,-7865 }, {   9, 911 }, {  10, 911 }, {  11,-7865 },
- {  12,-7865 }, {  13, 911 }, {  14,-7865 }, {  15,-7865 }, {  16,-7865 },
- {  17,-7865 }, {  18,-7865 }, {  19,-7865 }, {  20,-7865 }, {  21,-7865 },
- {  22,-7865 }, {  23,-7865 }, {  24,-7865 }, {  25,-7865 }, {  26,-7865 },
- {  27,-7865 }, {  28,-7865 }, {  29,-7865 }, {  30,-7865 }, {  31,-7865 },
- {  32, 911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7865 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7865 }, {  46,-7890 },
- {  47,-7890 }, {  48,-7865 }, {  49,-7865 }, {  50,-7865 }, {  51,-7865 },
- {  52,-7865 }, {  53,-7865 }, {  54,-7865 }, {  55,-7865 }, {  56,-7865 },
- {  57,-7865 }, {  58,-7865 }, {   0,   0 }, {   0,   0 }, {  61,-7890 },
- {   0,   0 }, {  63,-7865 }, {   0,   0 }, {  65,-7865 }, {  66,-7865 },
- {  67,-7865 }, {  68,-7865 }, {  69,-7865 }, {  70,-7865 }, {  71,-7865 },
- {  72,-7865 }, {  73,-7865 }, {  74,-7865 }, {  75,-7865 }, {  76,-7865 },
- {  77,-7865 }, {  78,-7865 }, {  79,-7865 }, {  80,-7865 }, {  81,-7865 },
- {  82,-7865 }, {  83,-7865 }, {  84,-7865 }, {  85,-7865 }, {  86,-7865 },
-
- {  87,-7865 }, {  88,-7865 }, {  89,-7865 }, {  90,-7865 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7865 }, {   0,   0 },
- {  97,-7865 }, {  98,-7865 }, {  99,-7865 }, { 100,-7865 }, { 101,-7865 },
- { 102,-7865 }, { 103,-7865 }, { 104,-7865 }, { 105,-7865 }, { 106,-7865 },
- { 107,-7865 }, { 108,-7865 }, { 109,-7865 }, { 110,-7865 }, { 111,-7865 },
- { 112,-7865 }, { 113,-7865 }, { 114,-7865 }, { 115,-7865 }, { 116,-7865 },
- { 117,-7865 }, { 118,-7865 }, { 119,-7865 }, { 120,-7865 }, { 121,-7865 },
- { 122,-7865 }, {   0,   0 }, { 124,-7890 }, { 125, 911 }, { 126, 911 },
- { 127,-7865 }, { 128,-7865 }, { 129,-7865 }, { 130,-7865 }, { 131,-7865 },
- { 132,-7865 }, { 133,-7865 }, { 134,-7865 }, { 135,-7865 }, { 136,-7865 },
-
- { 137,-7865 }, { 138,-7865 }, { 139,-7865 }, { 140,-7865 }, { 141,-7865 },
- { 142,-7865 }, { 143,-7865 }, { 144,-7865 }, { 145,-7865 }, { 146,-7865 },
- { 147,-7865 }, { 148,-7865 }, { 149,-7865 }, { 150,-7865 }, { 151,-7865 },
- { 152,-7865 }, { 153,-7865 }, { 154,-7865 }, { 155,-7865 }, { 156,-7865 },
- { 157,-7865 }, { 158,-7865 }, { 159,-7865 }, { 160,-7865 }, { 161,-7865 },
- { 162,-7865 }, { 163,-7865 }, { 164,-7865 }, { 165,-7865 }, { 166,-7865 },
- { 167,-7865 }, { 168,-7865 }, { 169,-7865 }, { 170,-7865 }, { 171,-7865 },
- { 172,-7865 }, { 173,-7865 }, { 174,-7865 }, { 175,-7865 }, { 176,-7865 },
- { 177,-7865 }, { 178,-7865 }, { 179,-7865 }, { 180,-7865 }, { 181,-7865 },
- { 182,-7865 }, { 183,-7865 }, { 184,-7865 }, { 185,-7865 }, { 186,-7865 },
-
- { 187,-7865 }, { 188,-7865 }, { 189,-7865 }, { 190,-7865 }, { 191,-7865 },
- { 192,-7865 }, { 193,-7865 }, { 194,-7865 }, { 195,-7865 }, { 196,-7865 },
- { 197,-7865 }, { 198,-7865 }, { 199,-7865 }, { 200,-7865 }, { 201,-7865 },
- { 202,-7865 }, { 203,-7865 }, { 204,-7865 }, { 205,-7865 }, { 206,-7865 },
- { 207,-7865 }, { 208,-7865 }, { 209,-7865 }, { 210,-7865 }, { 211,-7865 },
- { 212,-7865 }, { 213,-7865 }, { 214,-7865 }, { 215,-7865 }, { 216,-7865 },
- { 217,-7865 }, { 218,-7865 }, { 219,-7865 }, { 220,-7865 }, { 221,-7865 },
- { 222,-7865 }, { 223,-7865 }, { 224,-7865 }, { 225,-7865 }, { 226,-7865 },
- { 227,-7865 }, { 228,-7865 }, { 229,-7865 }, { 230,-7865 }, { 231,-7865 },
- { 232,-7865 }, { 233,-7865 }, { 234,-7865 }, { 235,-7865 }, { 236,-7865 },
-
- { 237,-7865 }, { 238,-7865 }, { 239,-7865 }, { 240,-7865 }, { 241,-7865 },
- { 242,-7865 }, { 243,-7865 }, { 244,-7865 }, { 245,-7865 }, { 246,-7865 },
- { 247,-7865 }, { 248,-7865 }, { 249,-7865 }, { 250,-7865 }, { 251,-7865 },
- { 252,-7865 }, { 253,-7865 }, { 254,-7865 }, { 255,-7865 }, { 256,-7865 },
- {   0,   0 }, {   0,3911 }, {   1,-8123 }, {   2,-8123 }, {   3,-8123 },
- {   4,-8123 }, {   5,-8123 }, {   6,-8123 }, {   7,-8123 }, {   8,-8123 },
- {   9,-8148 }, {  10,-8148 }, {  11,-8123 }, {  12,-8123 }, {  13,-8148 },
- {  14,-8123 }, {  15,-8123 }, {  16,-8123 }, {  17,-8123 }, {  18,-8123 },
- {  19,-8123 }, {  20,-8123 }, {  21,-8123 }, {  22,-8123 }, {  23,-8123 },
- {  24,-8123 }, {  25,-8123 }, {  26,-8123 }, {  27,-8123 }, {  28,-8123 },
-
- {  29,-8123 }, {  30,-8123 }, {  31,-8123 }, {  32,-8148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-8123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-8148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8123 }, {  46,-8148 }, {  47,-8148 }, {  48,-8123 },
- {  49,-8123 }, {  50,-8123 }, {  51,-8123 }, {  52,-8123 }, {  53,-8123 },
- {  54,-8123 }, {  55,-8123 }, {  56,-8123 }, {  57,-8123 }, {  58,-8123 },
- {   0,   0 }, {   0,   0 }, {  61,-8148 }, {   0,   0 }, {  63,-8123 },
- {   0,   0 }, {  65,-8123 }, {  66,-8123 }, {  67,-8123 }, {  68,-8123 },
- {  69,-8123 }, {  70,-8123 }, {  71,-8123 }, {  72,-8123 }, {  73,-8123 },
- {  74,-8123 }, {  75,-8123 }, {  76,-8123 }, {  77,-8123 }, {  78,-8123 },
-
- {  79,-8123 }, {  80,-8123 }, {  81,-8123 }, {  82,-8123 }, {  83,-8123 },
- {  84,-8123 }, {  85,-8123 }, {  86,-8123 }, {  87,-8123 }, {  88,-8123 },
- {  89,-8123 }, {  90,-8123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8123 }, {   0,   0 }, {  97,-8123 }, {  98,-8123 },
- {  99,-8123 }, { 100,-8123 }, { 101,-8123 }, { 102, 932 }, { 103,-8123 },
- { 104,-8123 }, { 105,-8123 }, { 106,-8123 }, { 107,-8123 }, { 108,-8123 },
- { 109,-8123 }, { 110,-8123 }, { 111,-8123 }, { 112,-8123 }, { 113,-8123 },
- { 114,-8123 }, { 115,-8123 }, { 116,-8123 }, { 117,-8123 }, { 118,-8123 },
- { 119,-8123 }, { 120,-8123 }, { 121,-8123 }, { 122,-8123 }, {   0,   0 },
- { 124,-8148 }, { 125,-8148 }, { 126,-8148 }, { 127,-8123 }, { 128,-8123 },
-
- { 129,-8123 }, { 130,-8123 }, { 131,-8123 }, { 132,-8123 }, { 133,-8123 },
- { 134,-8123 }, { 135,-8123 }, { 136,-8123 }, { 137,-8123 }, { 138,-8123 },
- { 139,-8123 }, { 140,-8123 }, { 141,-8123 }, { 142,-8123 }, { 143,-8123 },
- { 144,-8123 }, { 145,-8123 }, { 146,-8123 }, { 147,-8123 }, { 148,-8123 },
- { 149,-8123 }, { 150,-8123 }, { 151,-8123 }, { 152,-8123 }, { 153,-8123 },
- { 154,-8123 }, { 155,-8123 }, { 156,-8123 }, { 157,-8123 }, { 158,-8123 },
- { 159,-8123 }, { 160,-8123 }, { 161,-8123 }, { 162,-8123 }, { 163,-8123 },
- { 164,-8123 }, { 165,-8123 }, { 166,-8123 }, { 167,-8123 }, { 168,-8123 },
- { 169,-8123 }, { 170,-8123 }, { 171,-8123 }, { 172,-8123 }, { 173,-8123 },
- { 174,-8123 }, { 175,-8123 }, { 176,-8123 }, { 177,-8123 }, { 178,-8123 },
-
- { 179,-8123 }, { 180,-8123 }, { 181,-8123 }, { 182,-8123 }, { 183,-8123 },
- { 184,-8123 }, { 185,-8123 }, { 186,-8123 }, { 187,-8123 }, { 188,-8123 },
- { 189,-8123 }, { 190,-8123 }, { 191,-8123 }, { 192,-8123 }, { 193,-8123 },
- { 194,-8123 }, { 195,-8123 }, { 196,-8123 }, { 197,-8123 }, { 198,-8123 },
- { 199,-8123 }, { 200,-8123 }, { 201,-8123 }, { 202,-8123 }, { 203,-8123 },
- { 204,-8123 }, { 205,-8123 }, { 206,-8123 }, { 207,-8123 }, { 208,-8123 },
- { 209,-8123 }, { 210,-8123 }, { 211,-8123 }, { 212,-8123 }, { 213,-8123 },
- { 214,-8123 }, { 215,-8123 }, { 216,-8123 }, { 217,-8123 }, { 218,-8123 },
- { 219,-8123 }, { 220,-8123 }, { 221,-8123 }, { 222,-8123 }, { 223,-8123 },
- { 224,-8123 }, { 225,-8123 }, { 226,-8123 }, { 227,-8123 }, { 228,-8123 },
-
- { 229,-8123 }, { 230,-8123 }, { 231,-8123 }, { 232,-8123 }, { 233,-8123 },
- { 234,-8123 }, { 235,-8123 }, { 236,-8123 }, { 237,-8123 }, { 238,-8123 },
- { 239,-8123 }, { 240,-8123 }, { 241,-8123 }, { 242,-8123 }, { 243,-8123 },
- { 244,-8123 }, { 245,-8123 }, { 246,-8123 }, { 247,-8123 }, { 248,-8123 },
- { 249,-8123 }, { 250,-8123 }, { 251,-8123 }, { 252,-8123 }, { 253,-8123 },
- { 254,-8123 }, { 255,-8123 }, { 256,-8123 }, {   0,   0 }, {   0,3653 },
- {   0,   0 }, {   0,3651 }, {   0,   0 }, {   0,3649 }, {   0,   0 },
- {   0,3647 }, {   0,   0 }, {   0,3645 }, {   0,  16 }, {   0,3643 },
- {   0,  26 }, {   0,3641 }, {   0,  17 }, {   0,3639 }, {   0,  36 },
- {   0,3637 }, {   0,   0 }, {   0,3635 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1039 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 },
- { 108, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 115, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
- { 126,   4 }, { 125, 934 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
- {   0,3522 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
-
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1184 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
-
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
-
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
-
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
-
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3264 }, {   0,   1 },
- {   0,3262 }, {   0,  46 }, {   0,3260 }, {   0,  43 }, {   0,3258 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3237 }, {   1,-8797 }, {   2,-8797 }, {   3,-8797 }, {   4,-8797 },
-
- {   5,-8797 }, {   6,-8797 }, {   7,-8797 }, {   8,-8797 }, {   9, 530 },
- {  10, 530 }, {  11,-8797 }, {  12,-8797 }, {  13, 530 }, {  14,-8797 },
- {  15,-8797 }, {  16,-8797 }, {  17,-8797 }, {  18,-8797 }, {  19,-8797 },
- {  20,-8797 }, {  21,-8797 }, {  22,-8797 }, {  23,-8797 }, {  24,-8797 },
- {  25,-8797 }, {  26,-8797 }, {  27,-8797 }, {  28,-8797 }, {  29,-8797 },
- {  30,-8797 }, {  31,-8797 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8797 }, {  46,-8822 }, {  47,-8822 }, {  48,-8797 }, {  49,-8797 },
- {  50,-8797 }, {  51,-8797 }, {  52,-8797 }, {  53,-8797 }, {  54,-8797 },
-
- {  55,-8797 }, {  56,-8797 }, {  57,-8797 }, {  58,-8797 }, {   0,   0 },
- {   0,   0 }, {  61,-8822 }, {   0,   0 }, {  63,-8797 }, {   0,   0 },
- {  65,-8797 }, {  66,-8797 }, {  67,-8797 }, {  68,-8797 }, {  69,-8797 },
- {  70,-8797 }, {  71,-8797 }, {  72,-8797 }, {  73,-8797 }, {  74,-8797 },
- {  75,-8797 }, {  76,-8797 }, {  77,-8797 }, {  78,-8797 }, {  79,-8797 },
- {  80,-8797 }, {  81,-8797 }, {  82,-8797 }, {  83,-8797 }, {  84,-8797 },
- {  85,-8797 }, {  86,-8797 }, {  87,-8797 }, {  88,-8797 }, {  89,-8797 },
- {  90,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8797 }, { 123, 555 }, {  97,-8797 }, {  98,-8797 }, {  99,-8797 },
- { 100,-8797 }, { 101,-8797 }, { 102,-8797 }, { 103,-8797 }, { 104,-8797 },
-
- { 105,-8797 }, { 106,-8797 }, { 107,-8797 }, { 108,-8797 }, { 109,-8797 },
- { 110,-8797 }, { 111,-8797 }, { 112,-8797 }, { 113,-8797 }, { 114,-8797 },
- { 115,-8797 }, { 116,-8797 }, { 117,-8797 }, { 118,-8797 }, { 119,-8797 },
- { 120,-8797 }, { 121,-8797 }, { 122,-8797 }, {   0,   0 }, { 124,-8822 },
- { 125, 530 }, { 126, 530 }, { 127,-8797 }, { 128,-8797 }, { 129,-8797 },
- { 130,-8797 }, { 131,-8797 }, { 132,-8797 }, { 133,-8797 }, { 134,-8797 },
- { 135,-8797 }, { 136,-8797 }, { 137,-8797 }, { 138,-8797 }, { 139,-8797 },
- { 140,-8797 }, { 141,-8797 }, { 142,-8797 }, { 143,-8797 }, { 144,-8797 },
- { 145,-8797 }, { 146,-8797 }, { 147,-8797 }, { 148,-8797 }, { 149,-8797 },
- { 150,-8797 }, { 151,-8797 }, { 152,-8797 }, { 153,-8797 }, { 154,-8797 },
-
- { 155,-8797 }, { 156,-8797 }, { 157,-8797 }, { 158,-8797 }, { 159,-8797 },
- { 160,-8797 }, { 161,-8797 }, { 162,-8797 }, { 163,-8797 }, { 164,-8797 },
- { 165,-8797 }, { 166,-8797 }, { 167,-8797 }, { 168,-8797 }, { 169,-8797 },
- { 170,-8797 }, { 171,-8797 }, { 172,-8797 }, { 173,-8797 }, { 174,-8797 },
- { 175,-8797 }, { 176,-8797 }, { 177,-8797 }, { 178,-8797 }, { 179,-8797 },
- { 180,-8797 }, { 181,-8797 }, { 182,-8797 }, { 183,-8797 }, { 184,-8797 },
- { 185,-8797 }, { 186,-8797 }, { 187,-8797 }, { 188,-8797 }, { 189,-8797 },
- { 190,-8797 }, { 191,-8797 }, { 192,-8797 }, { 193,-8797 }, { 194,-8797 },
- { 195,-8797 }, { 196,-8797 }, { 197,-8797 }, { 198,-8797 }, { 199,-8797 },
- { 200,-8797 }, { 201,-8797 }, { 202,-8797 }, { 203,-8797 }, { 204,-8797 },
-
- { 205,-8797 }, { 206,-8797 }, { 207,-8797 }, { 208,-8797 }, { 209,-8797 },
- { 210,-8797 }, { 211,-8797 }, { 212,-8797 }, { 213,-8797 }, { 214,-8797 },
- { 215,-8797 }, { 216,-8797 }, { 217,-8797 }, { 218,-8797 }, { 219,-8797 },
- { 220,-8797 }, { 221,-8797 }, { 222,-8797 }, { 223,-8797 }, { 224,-8797 },
- { 225,-8797 }, { 226,-8797 }, { 227,-8797 }, { 228,-8797 }, { 229,-8797 },
- { 230,-8797 }, { 231,-8797 }, { 232,-8797 }, { 233,-8797 }, { 234,-8797 },
- { 235,-8797 }, { 236,-8797 }, { 237,-8797 }, { 238,-8797 }, { 239,-8797 },
- { 240,-8797 }, { 241,-8797 }, { 242,-8797 }, { 243,-8797 }, { 244,-8797 },
- { 245,-8797 }, { 246,-8797 }, { 247,-8797 }, { 248,-8797 }, { 249,-8797 },
- { 250,-8797 }, { 251,-8797 }, { 252,-8797 }, { 253,-8797 }, { 254,-8797 },
-
- { 255,-8797 }, { 256,-8797 }, {   0,   0 }, {   0,2979 }, {   1,-9055 },
- {   2,-9055 }, {   3,-9055 }, {   4,-9055 }, {   5,-9055 }, {   6,-9055 },
- {   7,-9055 }, {   8,-9055 }, {   9,-9080 }, {  10,-9080 }, {  11,-9055 },
- {  12,-9055 }, {  13,-9080 }, {  14,-9055 }, {  15,-9055 }, {  16,-9055 },
- {  17,-9055 }, {  18,-9055 }, {  19,-9055 }, {  20,-9055 }, {  21,-9055 },
- {  22,-9055 }, {  23,-9055 }, {  24,-9055 }, {  25,-9055 }, {  26,-9055 },
- {  27,-9055 }, {  28,-9055 }, {  29,-9055 }, {  30,-9055 }, {  31,-9055 },
- {  32,-9080 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9055 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9080 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9055 }, {  46,-9080 },
-
- {  47,-9080 }, {  48,-9055 }, {  49,-9055 }, {  50,-9055 }, {  51,-9055 },
- {  52,-9055 }, {  53,-9055 }, {  54,-9055 }, {  55,-9055 }, {  56,-9055 },
- {  57,-9055 }, {  58,-9055 }, {   0,   0 }, {   0,   0 }, {  61,-9080 },
- {   0,   0 }, {  63,-9055 }, {   0,   0 }, {  65,-9055 }, {  66,-9055 },
- {  67,-9055 }, {  68,-9055 }, {  69,-9055 }, {  70,-9055 }, {  71,-9055 },
- {  72,-9055 }, {  73,-9055 }, {  74,-9055 }, {  75,-9055 }, {  76,-9055 },
- {  77,-9055 }, {  78,-9055 }, {  79,-9055 }, {  80,-9055 }, {  81,-9055 },
- {  82,-9055 }, {  83,-9055 }, {  84,-9055 }, {  85,-9055 }, {  86,-9055 },
- {  87,-9055 }, {  88,-9055 }, {  89,-9055 }, {  90,-9055 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9055 }, {   0,   0 },
-
- {  97,-9055 }, {  98,-9055 }, {  99,-9055 }, { 100,-9055 }, { 101,-9055 },
- { 102,-9055 }, { 103,-9055 }, { 104,-9055 }, { 105, 899 }, { 106,-9055 },
- { 107,-9055 }, { 108,-9055 }, { 109,-9055 }, { 110,-9055 }, { 111,-9055 },
- { 112,-9055 }, { 113,-9055 }, { 114,-9055 }, { 115,-9055 }, { 116,-9055 },
- { 117,-9055 }, { 118,-9055 }, { 119,-9055 }, { 120,-9055 }, { 121,-9055 },
- { 122,-9055 }, {   0,   0 }, { 124,-9080 }, { 125,-9080 }, { 126,-9080 },
- { 127,-9055 }, { 128,-9055 }, { 129,-9055 }, { 130,-9055 }, { 131,-9055 },
- { 132,-9055 }, { 133,-9055 }, { 134,-9055 }, { 135,-9055 }, { 136,-9055 },
- { 137,-9055 }, { 138,-9055 }, { 139,-9055 }, { 140,-9055 }, { 141,-9055 },
- { 142,-9055 }, { 143,-9055 }, { 144,-9055 }, { 145,-9055 }, { 146,-9055 },
-
- { 147,-9055 }, { 148,-9055 }, { 149,-9055 }, { 150,-9055 }, { 151,-9055 },
- { 152,-9055 }, { 153,-9055 }, { 154,-9055 }, { 155,-9055 }, { 156,-9055 },
- { 157,-9055 }, { 158,-9055 }, { 159,-9055 }, { 160,-9055 }, { 161,-9055 },
- { 162,-9055 }, { 163,-9055 }, { 164,-9055 }, { 165,-9055 }, { 166,-9055 },
- { 167,-9055 }, { 168,-9055 }, { 169,-9055 }, { 170,-9055 }, { 171,-9055 },
- { 172,-9055 }, { 173,-9055 }, { 174,-9055 }, { 175,-9055 }, { 176,-9055 },
- { 177,-9055 }, { 178,-9055 }, { 179,-9055 }, { 180,-9055 }, { 181,-9055 },
- { 182,-9055 }, { 183,-9055 }, { 184,-9055 }, { 185,-9055 }, { 186,-9055 },
- { 187,-9055 }, { 188,-9055 }, { 189,-9055 }, { 190,-9055 }, { 191,-9055 },
- { 192,-9055 }, { 193,-9055 }, { 194,-9055 }, { 195,-9055 }, { 196,-9055 },
-
- { 197,-9055 }, { 198,-9055 }, { 199,-9055 }, { 200,-9055 }, { 201,-9055 },
- { 202,-9055 }, { 203,-9055 }, { 204,-9055 }, { 205,-9055 }, { 206,-9055 },
- { 207,-9055 }, { 208,-9055 }, { 209,-9055 }, { 210,-9055 }, { 211,-9055 },
- { 212,-9055 }, { 213,-9055 }, { 214,-9055 }, { 215,-9055 }, { 216,-9055 },
- { 217,-9055 }, { 218,-9055 }, { 219,-9055 }, { 220,-9055 }, { 221,-9055 },
- { 222,-9055 }, { 223,-9055 }, { 224,-9055 }, { 225,-9055 }, { 226,-9055 },
- { 227,-9055 }, { 228,-9055 }, { 229,-9055 }, { 230,-9055 }, { 231,-9055 },
- { 232,-9055 }, { 233,-9055 }, { 234,-9055 }, { 235,-9055 }, { 236,-9055 },
- { 237,-9055 }, { 238,-9055 }, { 239,-9055 }, { 240,-9055 }, { 241,-9055 },
- { 242,-9055 }, { 243,-9055 }, { 244,-9055 }, { 245,-9055 }, { 246,-9055 },
-
- { 247,-9055 }, { 248,-9055 }, { 249,-9055 }, { 250,-9055 }, { 251,-9055 },
- { 252,-9055 }, { 253,-9055 }, { 254,-9055 }, { 255,-9055 }, { 256,-9055 },
- {   0,   0 }, {   0,2721 }, {   0,  28 }, {   0,2719 }, {   0,  22 },
- {   0,2717 }, {   0,   0 }, {   0,2715 }, {   0,   0 }, {   0,2713 },
- {   0,   8 }, {   0,2711 }, {   0,   1 }, {   0,2709 }, {   0,  44 },
- {   0,2707 }, {   0,   0 }, {   0,2705 }, {   0,   0 }, {   0,2703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, 893 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2043 }, {   0,   0 },
- { 101,2049 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
- {   0,   0 }, {   0,2596 }, {   1, 902 }, {   2, 902 }, {   3, 902 },
- {   4, 902 }, {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 },
- {   9, 902 }, {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 },
-
- {  14, 902 }, {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 },
- {  19, 902 }, {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 },
- {  24, 902 }, {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 },
- {  29, 902 }, {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 },
- {  34, 902 }, {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 },
- {  39, 902 }, {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 },
- {  44, 902 }, {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 },
- {  49, 902 }, {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 },
- {  54, 902 }, {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 },
- {  59, 902 }, {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 },
-
- {  64, 902 }, {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 },
- {  69, 902 }, {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 },
- {  74, 902 }, {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 },
- {  79, 902 }, {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 },
- {  84, 902 }, {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 },
- {  89, 902 }, {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 },
- {  94, 902 }, {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 },
- {  99, 902 }, { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 },
- { 104, 902 }, { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 },
- { 109, 902 }, { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 },
-
- { 114, 902 }, { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 },
- { 119, 902 }, { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 },
- { 124, 902 }, { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 },
- { 129, 902 }, { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 },
- { 134, 902 }, { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 },
- { 139, 902 }, { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 },
- { 144, 902 }, { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 },
- { 149, 902 }, { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 },
- { 154, 902 }, { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 },
- { 159, 902 }, { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 },
-
- { 164, 902 }, { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 },
- { 169, 902 }, { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 },
- { 174, 902 }, { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 },
- { 179, 902 }, { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 },
- { 184, 902 }, { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 },
- { 189, 902 }, { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 },
- { 194, 902 }, { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 },
- { 199, 902 }, { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 },
- { 204, 902 }, { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 },
- { 209, 902 }, { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 },
-
- { 214, 902 }, { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 },
- { 219, 902 }, { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 },
- { 224, 902 }, { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 },
- { 229, 902 }, { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 },
- { 234, 902 }, { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 },
- { 239, 902 }, { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 },
- { 244, 902 }, { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 },
- { 249, 902 }, { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 },
- { 254, 902 }, { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2338 },
- {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 },
-
- {   6,1160 }, {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 },
- {  11,1160 }, {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 },
- {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 },
- {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 },
- {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 },
- {  31,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 },
- {   0,   0 }, {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 },
- {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 },
-
- {  56,1160 }, {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 },
- {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 },
- {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 },
- {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 },
- {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 },
- {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 },
- {   0,   0 }, {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 },
- { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 },
-
- { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 },
- { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 },
- { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 },
- { 121,1160 }, { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 },
- { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 },
- { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 },
- { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 },
- { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 },
- { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 },
-
- { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 },
- { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 },
- { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 },
- { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 },
- { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 },
- { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 },
- { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 },
- { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 },
- { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 },
- { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 },
-
- { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 },
- { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 },
- { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 },
- { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 },
- { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 },
- { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 },
- { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 },
- { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 },
- { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 },
- { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 },
-
- { 256,1160 }, {   0,   0 }, {   0,2080 }, {   1,-9954 }, {   2,-9954 },
- {   3,-9954 }, {   4,-9954 }, {   5,-9954 }, {   6,-9954 }, {   7,-9954 },
- {   8,-9954 }, {   9,-9979 }, {  10,-9979 }, {  11,-9954 }, {  12,-9954 },
- {  13,-9979 }, {  14,-9954 }, {  15,-9954 }, {  16,-9954 }, {  17,-9954 },
- {  18,-9954 }, {  19,-9954 }, {  20,-9954 }, {  21,-9954 }, {  22,-9954 },
- {  23,-9954 }, {  24,-9954 }, {  25,-9954 }, {  26,-9954 }, {  27,-9954 },
- {  28,-9954 }, {  29,-9954 }, {  30,-9954 }, {  31,-9954 }, {  32,-9979 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9954 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9954 }, {  46,-9979 }, {  47,-9979 },
-
- {  48,-9954 }, {  49,-9954 }, {  50,-9954 }, {  51,-9954 }, {  52,-9954 },
- {  53,-9954 }, {  54,-9954 }, {  55,-9954 }, {  56,-9954 }, {  57,-9954 },
- {  58,-9954 }, {   0,   0 }, {   0,   0 }, {  61,-9979 }, {   0,   0 },
- {  63,-9954 }, {   0,   0 }, {  65,-9954 }, {  66,-9954 }, {  67,-9954 },
- {  68,-9954 }, {  69,-9954 }, {  70,-9954 }, {  71,-9954 }, {  72,-9954 },
- {  73,-9954 }, {  74,-9954 }, {  75,-9954 }, {  76,-9954 }, {  77,-9954 },
- {  78,-9954 }, {  79,-9954 }, {  80,-9954 }, {  81,-9954 }, {  82,-9954 },
- {  83,-9954 }, {  84,-9954 }, {  85,-9954 }, {  86,-9954 }, {  87,-9954 },
- {  88,-9954 }, {  89,-9954 }, {  90,-9954 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9954 }, {   0,   0 }, {  97,-9954 },
-
- {  98,-9954 }, {  99,-9954 }, { 100,-9954 }, { 101,-9954 }, { 102,-9954 },
- { 103,-9954 }, { 104,-9954 }, { 105,-9954 }, { 106,-9954 }, { 107,-9954 },
- { 108,-9954 }, { 109,-9954 }, { 110,1160 }, { 111,-9954 }, { 112,-9954 },
- { 113,-9954 }, { 114,-9954 }, { 115,-9954 }, { 116,-9954 }, { 117,-9954 },
- { 118,-9954 }, { 119,-9954 }, { 120,-9954 }, { 121,-9954 }, { 122,-9954 },
- {   0,   0 }, { 124,-9979 }, { 125,-9979 }, { 126,-9979 }, { 127,-9954 },
- { 128,-9954 }, { 129,-9954 }, { 130,-9954 }, { 131,-9954 }, { 132,-9954 },
- { 133,-9954 }, { 134,-9954 }, { 135,-9954 }, { 136,-9954 }, { 137,-9954 },
- { 138,-9954 }, { 139,-9954 }, { 140,-9954 }, { 141,-9954 }, { 142,-9954 },
- { 143,-9954 }, { 144,-9954 }, { 145,-9954 }, { 146,-9954 }, { 147,-9954 },
-
- { 148,-9954 }, { 149,-9954 }, { 150,-9954 }, { 151,-9954 }, { 152,-9954 },
- { 153,-9954 }, { 154,-9954 }, { 155,-9954 }, { 156,-9954 }, { 157,-9954 },
- { 158,-9954 }, { 159,-9954 }, { 160,-9954 }, { 161,-9954 }, { 162,-9954 },
- { 163,-9954 }, { 164,-9954 }, { 165,-9954 }, { 166,-9954 }, { 167,-9954 },
- { 168,-9954 }, { 169,-9954 }, { 170,-9954 }, { 171,-9954 }, { 172,-9954 },
- { 173,-9954 }, { 174,-9954 }, { 175,-9954 }, { 176,-9954 }, { 177,-9954 },
- { 178,-9954 }, { 179,-9954 }, { 180,-9954 }, { 181,-9954 }, { 182,-9954 },
- { 183,-9954 }, { 184,-9954 }, { 185,-9954 }, { 186,-9954 }, { 187,-9954 },
- { 188,-9954 }, { 189,-9954 }, { 190,-9954 }, { 191,-9954 }, { 192,-9954 },
- { 193,-9954 }, { 194,-9954 }, { 195,-9954 }, { 196,-9954 }, { 197,-9954 },
-
- { 198,-9954 }, { 199,-9954 }, { 200,-9954 }, { 201,-9954 }, { 202,-9954 },
- { 203,-9954 }, { 204,-9954 }, { 205,-9954 }, { 206,-9954 }, { 207,-9954 },
- { 208,-9954 }, { 209,-9954 }, { 210,-9954 }, { 211,-9954 }, { 212,-9954 },
- { 213,-9954 }, { 214,-9954 }, { 215,-9954 }, { 216,-9954 }, { 217,-9954 },
- { 218,-9954 }, { 219,-9954 }, { 220,-9954 }, { 221,-9954 }, { 222,-9954 },
- { 223,-9954 }, { 224,-9954 }, { 225,-9954 }, { 226,-9954 }, { 227,-9954 },
- { 228,-9954 }, { 229,-9954 }, { 230,-9954 }, { 231,-9954 }, { 232,-9954 },
- { 233,-9954 }, { 234,-9954 }, { 235,-9954 }, { 236,-9954 }, { 237,-9954 },
- { 238,-9954 }, { 239,-9954 }, { 240,-9954 }, { 241,-9954 }, { 242,-9954 },
- { 243,-9954 }, { 244,-9954 }, { 245,-9954 }, { 246,-9954 }, { 247,-9954 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {   0,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,4758 },
+ {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
+
+ {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-372 },
+ {  11,-257 }, {  12,-257 }, {  13,-372 }, {  14,-257 }, {  15,-257 },
+ {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
+ {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
+ {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
+ {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
+ {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
+ {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
+ {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
+ {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
+
+ {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
+ {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
+ {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
+ {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
+ {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
+ {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
+ {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
+ {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
+ {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
+ { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
+
+ { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
+ { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
+ { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
+ { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
+ { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
+ { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
+ { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
+ { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
+ { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
+ { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
+
+ { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
+ { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
+ { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
+ { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
+ { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
+ { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
+ { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
+ { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
+ { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
+ { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
+
+ { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
+ { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
+ { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
+ { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
+ { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
+ { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
+ { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
+ { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
+ { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
+ { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
+
+ {   0,   0 }, {   0,4501 }, {   1,-7353 }, {   2,-7353 }, {   3,-7353 },
+ {   4,-7353 }, {   5,-7353 }, {   6,-7353 }, {   7,-7353 }, {   8,-7353 },
+ {   9,-7378 }, {  10,-7378 }, {  11,-7353 }, {  12,-7353 }, {  13,-7378 },
+ {  14,-7353 }, {  15,-7353 }, {  16,-7353 }, {  17,-7353 }, {  18,-7353 },
+ {  19,-7353 }, {  20,-7353 }, {  21,-7353 }, {  22,-7353 }, {  23,-7353 },
+ {  24,-7353 }, {  25,-7353 }, {  26,-7353 }, {  27,-7353 }, {  28,-7353 },
+ {  29,-7353 }, {  30,-7353 }, {  31,-7353 }, {  32,-7378 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-7353 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-7378 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-7353 }, {  46,-7378 }, {  47,-7378 }, {  48,-7353 },
+
+ {  49,-7353 }, {  50,-7353 }, {  51,-7353 }, {  52,-7353 }, {  53,-7353 },
+ {  54,-7353 }, {  55,-7353 }, {  56,-7353 }, {  57,-7353 }, {  58,-7353 },
+ {   0,   0 }, {   0,   0 }, {  61,-7378 }, {   0,   0 }, {  63,-7353 },
+ {   0,   0 }, {  65,-7353 }, {  66,-7353 }, {  67,-7353 }, {  68,-7353 },
+ {  69,-7353 }, {  70,-7353 }, {  71,-7353 }, {  72,-7353 }, {  73,-7353 },
+ {  74,-7353 }, {  75,-7353 }, {  76,-7353 }, {  77,-7353 }, {  78,-7353 },
+ {  79,-7353 }, {  80,-7353 }, {  81,-7353 }, {  82,-7353 }, {  83,-7353 },
+ {  84,-7353 }, {  85,-7353 }, {  86,-7353 }, {  87,-7353 }, {  88,-7353 },
+ {  89,-7353 }, {  90,-7353 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-7353 }, {   0,   0 }, {  97,-7353 }, {  98,-7353 },
+
+ {  99,-7353 }, { 100,-7353 }, { 101,1448 }, { 102,-7353 }, { 103,-7353 },
+ { 104,-7353 }, { 105,-7353 }, { 106,-7353 }, { 107,-7353 }, { 108,-7353 },
+ { 109,-7353 }, { 110,-7353 }, { 111,-7353 }, { 112,-7353 }, { 113,-7353 },
+ { 114,-7353 }, { 115,-7353 }, { 116,-7353 }, { 117,-7353 }, { 118,-7353 },
+ { 119,-7353 }, { 120,-7353 }, { 121,-7353 }, { 122,-7353 }, {   0,   0 },
+ { 124,-7378 }, { 125,-7378 }, { 126,-7378 }, { 127,-7353 }, { 128,-7353 },
+ { 129,-7353 }, { 130,-7353 }, { 131,-7353 }, { 132,-7353 }, { 133,-7353 },
+ { 134,-7353 }, { 135,-7353 }, { 136,-7353 }, { 137,-7353 }, { 138,-7353 },
+ { 139,-7353 }, { 140,-7353 }, { 141,-7353 }, { 142,-7353 }, { 143,-7353 },
+ { 144,-7353 }, { 145,-7353 }, { 146,-7353 }, { 147,-7353 }, { 148,-7353 },
+
+ { 149,-7353 }, { 150,-7353 }, { 151,-7353 }, { 152,-7353 }, { 153,-7353 },
+ { 154,-7353 }, { 155,-7353 }, { 156,-7353 }, { 157,-7353 }, { 158,-7353 },
+ { 159,-7353 }, { 160,-7353 }, { 161,-7353 }, { 162,-7353 }, { 163,-7353 },
+ { 164,-7353 }, { 165,-7353 }, { 166,-7353 }, { 167,-7353 }, { 168,-7353 },
+ { 169,-7353 }, { 170,-7353 }, { 171,-7353 }, { 172,-7353 }, { 173,-7353 },
+ { 174,-7353 }, { 175,-7353 }, { 176,-7353 }, { 177,-7353 }, { 178,-7353 },
+ { 179,-7353 }, { 180,-7353 }, { 181,-7353 }, { 182,-7353 }, { 183,-7353 },
+ { 184,-7353 }, { 185,-7353 }, { 186,-7353 }, { 187,-7353 }, { 188,-7353 },
+ { 189,-7353 }, { 190,-7353 }, { 191,-7353 }, { 192,-7353 }, { 193,-7353 },
+ { 194,-7353 }, { 195,-7353 }, { 196,-7353 }, { 197,-7353 }, { 198,-7353 },
+
+ { 199,-7353 }, { 200,-7353 }, { 201,-7353 }, { 202,-7353 }, { 203,-7353 },
+ { 204,-7353 }, { 205,-7353 }, { 206,-7353 }, { 207,-7353 }, { 208,-7353 },
+ { 209,-7353 }, { 210,-7353 }, { 211,-7353 }, { 212,-7353 }, { 213,-7353 },
+ { 214,-7353 }, { 215,-7353 }, { 216,-7353 }, { 217,-7353 }, { 218,-7353 },
+ { 219,-7353 }, { 220,-7353 }, { 221,-7353 }, { 222,-7353 }, { 223,-7353 },
+ { 224,-7353 }, { 225,-7353 }, { 226,-7353 }, { 227,-7353 }, { 228,-7353 },
+ { 229,-7353 }, { 230,-7353 }, { 231,-7353 }, { 232,-7353 }, { 233,-7353 },
+ { 234,-7353 }, { 235,-7353 }, { 236,-7353 }, { 237,-7353 }, { 238,-7353 },
+ { 239,-7353 }, { 240,-7353 }, { 241,-7353 }, { 242,-7353 }, { 243,-7353 },
+ { 244,-7353 }, { 245,-7353 }, { 246,-7353 }, { 247,-7353 }, { 248,-7353 },
+
+ { 249,-7353 }, { 250,-7353 }, { 251,-7353 }, { 252,-7353 }, { 253,-7353 },
+ { 254,-7353 }, { 255,-7353 }, { 256,-7353 }, {   0,   0 }, {   0,4243 },
+ {   1,-7611 }, {   2,-7611 }, {   3,-7611 }, {   4,-7611 }, {   5,-7611 },
+ {   6,-7611 }, {   7,-7611 }, {   8,-7611 }, {   9,1167 }, {  10,1167 },
+ {  11,-7611 }, {  12,-7611 }, {  13,1167 }, {  14,-7611 }, {  15,-7611 },
+ {  16,-7611 }, {  17,-7611 }, {  18,-7611 }, {  19,-7611 }, {  20,-7611 },
+ {  21,-7611 }, {  22,-7611 }, {  23,-7611 }, {  24,-7611 }, {  25,-7611 },
+ {  26,-7611 }, {  27,-7611 }, {  28,-7611 }, {  29,-7611 }, {  30,-7611 },
+ {  31,-7611 }, {  32,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7611 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7611 },
+ {  46,-7636 }, {  47,-7636 }, {  48,-7611 }, {  49,-7611 }, {  50,-7611 },
+ {  51,-7611 }, {  52,-7611 }, {  53,-7611 }, {  54,-7611 }, {  55,-7611 },
+ {  56,-7611 }, {  57,-7611 }, {  58,-7611 }, {   0,   0 }, {   0,   0 },
+ {  61,-7636 }, {   0,   0 }, {  63,-7611 }, {   0,   0 }, {  65,-7611 },
+ {  66,-7611 }, {  67,-7611 }, {  68,-7611 }, {  69,-7611 }, {  70,-7611 },
+ {  71,-7611 }, {  72,-7611 }, {  73,-7611 }, {  74,-7611 }, {  75,-7611 },
+ {  76,-7611 }, {  77,-7611 }, {  78,-7611 }, {  79,-7611 }, {  80,-7611 },
+ {  81,-7611 }, {  82,-7611 }, {  83,-7611 }, {  84,-7611 }, {  85,-7611 },
+ {  86,-7611 }, {  87,-7611 }, {  88,-7611 }, {  89,-7611 }, {  90,-7611 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7611 },
+ {   0,   0 }, {  97,-7611 }, {  98,-7611 }, {  99,-7611 }, { 100,-7611 },
+ { 101,-7611 }, { 102,-7611 }, { 103,-7611 }, { 104,-7611 }, { 105,-7611 },
+ { 106,-7611 }, { 107,-7611 }, { 108,-7611 }, { 109,-7611 }, { 110,-7611 },
+ { 111,-7611 }, { 112,-7611 }, { 113,-7611 }, { 114,-7611 }, { 115,-7611 },
+ { 116,-7611 }, { 117,-7611 }, { 118,-7611 }, { 119,-7611 }, { 120,-7611 },
+ { 121,-7611 }, { 122,-7611 }, {   0,   0 }, { 124,-7636 }, { 125,1167 },
+ { 126,1167 }, { 127,-7611 }, { 128,-7611 }, { 129,-7611 }, { 130,-7611 },
+ { 131,-7611 }, { 132,-7611 }, { 133,-7611 }, { 134,-7611 }, { 135,-7611 },
+ { 136,-7611 }, { 137,-7611 }, { 138,-7611 }, { 139,-7611 }, { 140,-7611 },
+
+ { 141,-7611 }, { 142,-7611 }, { 143,-7611 }, { 144,-7611 }, { 145,-7611 },
+ { 146,-7611 }, { 147,-7611 }, { 148,-7611 }, { 149,-7611 }, { 150,-7611 },
+ { 151,-7611 }, { 152,-7611 }, { 153,-7611 }, { 154,-7611 }, { 155,-7611 },
+ { 156,-7611 }, { 157,-7611 }, { 158,-7611 }, { 159,-7611 }, { 160,-7611 },
+ { 161,-7611 }, { 162,-7611 }, { 163,-7611 }, { 164,-7611 }, { 165,-7611 },
+ { 166,-7611 }, { 167,-7611 }, { 168,-7611 }, { 169,-7611 }, { 170,-7611 },
+ { 171,-7611 }, { 172,-7611 }, { 173,-7611 }, { 174,-7611 }, { 175,-7611 },
+ { 176,-7611 }, { 177,-7611 }, { 178,-7611 }, { 179,-7611 }, { 180,-7611 },
+ { 181,-7611 }, { 182,-7611 }, { 183,-7611 }, { 184,-7611 }, { 185,-7611 },
+ { 186,-7611 }, { 187,-7611 }, { 188,-7611 }, { 189,-7611 }, { 190,-7611 },
+
+ { 191,-7611 }, { 192,-7611 }, { 193,-7611 }, { 194,-7611 }, { 195,-7611 },
+ { 196,-7611 }, { 197,-7611 }, { 198,-7611 }, { 199,-7611 }, { 200,-7611 },
+ { 201,-7611 }, { 202,-7611 }, { 203,-7611 }, { 204,-7611 }, { 205,-7611 },
+ { 206,-7611 }, { 207,-7611 }, { 208,-7611 }, { 209,-7611 }, { 210,-7611 },
+ { 211,-7611 }, { 212,-7611 }, { 213,-7611 }, { 214,-7611 }, { 215,-7611 },
+ { 216,-7611 }, { 217,-7611 }, { 218,-7611 }, { 219,-7611 }, { 220,-7611 },
+ { 221,-7611 }, { 222,-7611 }, { 223,-7611 }, { 224,-7611 }, { 225,-7611 },
+ { 226,-7611 }, { 227,-7611 }, { 228,-7611 }, { 229,-7611 }, { 230,-7611 },
+ { 231,-7611 }, { 232,-7611 }, { 233,-7611 }, { 234,-7611 }, { 235,-7611 },
+ { 236,-7611 }, { 237,-7611 }, { 238,-7611 }, { 239,-7611 }, { 240,-7611 },
+
+ { 241,-7611 }, { 242,-7611 }, { 243,-7611 }, { 244,-7611 }, { 245,-7611 },
+ { 246,-7611 }, { 247,-7611 }, { 248,-7611 }, { 249,-7611 }, { 250,-7611 },
+ { 251,-7611 }, { 252,-7611 }, { 253,-7611 }, { 254,-7611 }, { 255,-7611 },
+ { 256,-7611 }, {   0,   0 }, {   0,3985 }, {   1,-7869 }, {   2,-7869 },
+ {   3,-7869 }, {   4,-7869 }, {   5,-7869 }, {   6,-7869 }, {   7,-7869 },
+ {   8,-7869 }, {   9, 911 }, {  10, 911 }, {  11,-7869 }, {  12,-7869 },
+ {  13, 911 }, {  14,-7869 }, {  15,-7869 }, {  16,-7869 }, {  17,-7869 },
+ {  18,-7869 }, {  19,-7869 }, {  20,-7869 }, {  21,-7869 }, {  22,-7869 },
+ {  23,-7869 }, {  24,-7869 }, {  25,-7869 }, {  26,-7869 }, {  27,-7869 },
+ {  28,-7869 }, {  29,-7869 }, {  30,-7869 }, {  31,-7869 }, {  32, 911 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7869 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-7869 }, {  46,-7894 }, {  47,-7894 },
+ {  48,-7869 }, {  49,-7869 }, {  50,-7869 }, {  51,-7869 }, {  52,-7869 },
+ {  53,-7869 }, {  54,-7869 }, {  55,-7869 }, {  56,-7869 }, {  57,-7869 },
+ {  58,-7869 }, {   0,   0 }, {   0,   0 }, {  61,-7894 }, {   0,   0 },
+ {  63,-7869 }, {   0,   0 }, {  65,-7869 }, {  66,-7869 }, {  67,-7869 },
+ {  68,-7869 }, {  69,-7869 }, {  70,-7869 }, {  71,-7869 }, {  72,-7869 },
+ {  73,-7869 }, {  74,-7869 }, {  75,-7869 }, {  76,-7869 }, {  77,-7869 },
+ {  78,-7869 }, {  79,-7869 }, {  80,-7869 }, {  81,-7869 }, {  82,-7869 },
+
+ {  83,-7869 }, {  84,-7869 }, {  85,-7869 }, {  86,-7869 }, {  87,-7869 },
+ {  88,-7869 }, {  89,-7869 }, {  90,-7869 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-7869 }, {   0,   0 }, {  97,-7869 },
+ {  98,-7869 }, {  99,-7869 }, { 100,-7869 }, { 101,-7869 }, { 102,-7869 },
+ { 103,-7869 }, { 104,-7869 }, { 105,-7869 }, { 106,-7869 }, { 107,-7869 },
+ { 108,-7869 }, { 109,-7869 }, { 110,-7869 }, { 111,-7869 }, { 112,-7869 },
+ { 113,-7869 }, { 114,-7869 }, { 115,-7869 }, { 116,-7869 }, { 117,-7869 },
+ { 118,-7869 }, { 119,-7869 }, { 120,-7869 }, { 121,-7869 }, { 122,-7869 },
+ {   0,   0 }, { 124,-7894 }, { 125, 911 }, { 126, 911 }, { 127,-7869 },
+ { 128,-7869 }, { 129,-7869 }, { 130,-7869 }, { 131,-7869 }, { 132,-7869 },
+
+ { 133,-7869 }, { 134,-7869 }, { 135,-7869 }, { 136,-7869 }, { 137,-7869 },
+ { 138,-7869 }, { 139,-7869 }, { 140,-7869 }, { 141,-7869 }, { 142,-7869 },
+ { 143,-7869 }, { 144,-7869 }, { 145,-7869 }, { 146,-7869 }, { 147,-7869 },
+ { 148,-7869 }, { 149,-7869 }, { 150,-7869 }, { 151,-7869 }, { 152,-7869 },
+ { 153,-7869 }, { 154,-7869 }, { 155,-7869 }, { 156,-7869 }, { 157,-7869 },
+ { 158,-7869 }, { 159,-7869 }, { 160,-7869 }, { 161,-7869 }, { 162,-7869 },
+ { 163,-7869 }, { 164,-7869 }, { 165,-7869 }, { 166,-7869 }, { 167,-7869 },
+ { 168,-7869 }, { 169,-7869 }, { 170,-7869 }, { 171,-7869 }, { 172,-7869 },
+ { 173,-7869 }, { 174,-7869 }, { 175,-7869 }, { 176,-7869 }, { 177,-7869 },
+ { 178,-7869 }, { 179,-7869 }, { 180,-7869 }, { 181,-7869 }, { 182,-7869 },
+
+ { 183,-7869 }, { 184,-7869 }, { 185,-7869 }, { 186,-7869 }, { 187,-7869 },
+ { 188,-7869 }, { 189,-7869 }, { 190,-7869 }, { 191,-7869 }, { 192,-7869 },
+ { 193,-7869 }, { 194,-7869 }, { 195,-7869 }, { 196,-7869 }, { 197,-7869 },
+ { 198,-7869 }, { 199,-7869 }, { 200,-7869 }, { 201,-7869 }, { 202,-7869 },
+ { 203,-7869 }, { 204,-7869 }, { 205,-7869 }, { 206,-7869 }, { 207,-7869 },
+ { 208,-7869 }, { 209,-7869 }, { 210,-7869 }, { 211,-7869 }, { 212,-7869 },
+ { 213,-7869 }, { 214,-7869 }, { 215,-7869 }, { 216,-7869 }, { 217,-7869 },
+ { 218,-7869 }, { 219,-7869 }, { 220,-7869 }, { 221,-7869 }, { 222,-7869 },
+ { 223,-7869 }, { 224,-7869 }, { 225,-7869 }, { 226,-7869 }, { 227,-7869 },
+ { 228,-7869 }, { 229,-7869 }, { 230,-7869 }, { 231,-7869 }, { 232,-7869 },
+
+ { 233,-7869 }, { 234,-7869 }, { 235,-7869 }, { 236,-7869 }, { 237,-7869 },
+ { 238,-7869 }, { 239,-7869 }, { 240,-7869 }, { 241,-7869 }, { 242,-7869 },
+ { 243,-7869 }, { 244,-7869 }, { 245,-7869 }, { 246,-7869 }, { 247,-7869 },
+ { 248,-7869 }, { 249,-7869 }, { 250,-7869 }, { 251,-7869 }, { 252,-7869 },
+ { 253,-7869 }, { 254,-7869 }, { 255,-7869 }, { 256,-7869 }, {   0,   0 },
+ {   0,3727 }, {   1,-8127 }, {   2,-8127 }, {   3,-8127 }, {   4,-8127 },
+ {   5,-8127 }, {   6,-8127 }, {   7,-8127 }, {   8,-8127 }, {   9,-8152 },
+ {  10,-8152 }, {  11,-8127 }, {  12,-8127 }, {  13,-8152 }, {  14,-8127 },
+ {  15,-8127 }, {  16,-8127 }, {  17,-8127 }, {  18,-8127 }, {  19,-8127 },
+ {  20,-8127 }, {  21,-8127 }, {  22,-8127 }, {  23,-8127 }, {  24,-8127 },
+
+ {  25,-8127 }, {  26,-8127 }, {  27,-8127 }, {  28,-8127 }, {  29,-8127 },
+ {  30,-8127 }, {  31,-8127 }, {  32,-8152 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-8152 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-8127 }, {  46,-8152 }, {  47,-8152 }, {  48,-8127 }, {  49,-8127 },
+ {  50,-8127 }, {  51,-8127 }, {  52,-8127 }, {  53,-8127 }, {  54,-8127 },
+ {  55,-8127 }, {  56,-8127 }, {  57,-8127 }, {  58,-8127 }, {   0,   0 },
+ {   0,   0 }, {  61,-8152 }, {   0,   0 }, {  63,-8127 }, {   0,   0 },
+ {  65,-8127 }, {  66,-8127 }, {  67,-8127 }, {  68,-8127 }, {  69,-8127 },
+ {  70,-8127 }, {  71,-8127 }, {  72,-8127 }, {  73,-8127 }, {  74,-8127 },
+
+ {  75,-8127 }, {  76,-8127 }, {  77,-8127 }, {  78,-8127 }, {  79,-8127 },
+ {  80,-8127 }, {  81,-8127 }, {  82,-8127 }, {  83,-8127 }, {  84,-8127 },
+ {  85,-8127 }, {  86,-8127 }, {  87,-8127 }, {  88,-8127 }, {  89,-8127 },
+ {  90,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-8127 }, {   0,   0 }, {  97,-8127 }, {  98,-8127 }, {  99,-8127 },
+ { 100,-8127 }, { 101,-8127 }, { 102, 932 }, { 103,-8127 }, { 104,-8127 },
+ { 105,-8127 }, { 106,-8127 }, { 107,-8127 }, { 108,-8127 }, { 109,-8127 },
+ { 110,-8127 }, { 111,-8127 }, { 112,-8127 }, { 113,-8127 }, { 114,-8127 },
+ { 115,-8127 }, { 116,-8127 }, { 117,-8127 }, { 118,-8127 }, { 119,-8127 },
+ { 120,-8127 }, { 121,-8127 }, { 122,-8127 }, {   0,   0 }, { 124,-8152 },
+
+ { 125,-8152 }, { 126,-8152 }, { 127,-8127 }, { 128,-8127 }, { 129,-8127 },
+ { 130,-8127 }, { 131,-8127 }, { 132,-8127 }, { 133,-8127 }, { 134,-8127 },
+ { 135,-8127 }, { 136,-8127 }, { 137,-8127 }, { 138,-8127 }, { 139,-8127 },
+ { 140,-8127 }, { 141,-8127 }, { 142,-8127 }, { 143,-8127 }, { 144,-8127 },
+ { 145,-8127 }, { 146,-8127 }, { 147,-8127 }, { 148,-8127 }, { 149,-8127 },
+ { 150,-8127 }, { 151,-8127 }, { 152,-8127 }, { 153,-8127 }, { 154,-8127 },
+ { 155,-8127 }, { 156,-8127 }, { 157,-8127 }, { 158,-8127 }, { 159,-8127 },
+ { 160,-8127 }, { 161,-8127 }, { 162,-8127 }, { 163,-8127 }, { 164,-8127 },
+ { 165,-8127 }, { 166,-8127 }, { 167,-8127 }, { 168,-8127 }, { 169,-8127 },
+ { 170,-8127 }, { 171,-8127 }, { 172,-8127 }, { 173,-8127 }, { 174,-8127 },
+
+ { 175,-8127 }, { 176,-8127 }, { 177,-8127 }, { 178,-8127 }, { 179,-8127 },
+ { 180,-8127 }, { 181,-8127 }, { 182,-8127 }, { 183,-8127 }, { 184,-8127 },
+ { 185,-8127 }, { 186,-8127 }, { 187,-8127 }, { 188,-8127 }, { 189,-8127 },
+ { 190,-8127 }, { 191,-8127 }, { 192,-8127 }, { 193,-8127 }, { 194,-8127 },
+ { 195,-8127 }, { 196,-8127 }, { 197,-8127 }, { 198,-8127 }, { 199,-8127 },
+ { 200,-8127 }, { 201,-8127 }, { 202,-8127 }, { 203,-8127 }, { 204,-8127 },
+ { 205,-8127 }, { 206,-8127 }, { 207,-8127 }, { 208,-8127 }, { 209,-8127 },
+ { 210,-8127 }, { 211,-8127 }, { 212,-8127 }, { 213,-8127 }, { 214,-8127 },
+ { 215,-8127 }, { 216,-8127 }, { 217,-8127 }, { 218,-8127 }, { 219,-8127 },
+ { 220,-8127 }, { 221,-8127 }, { 222,-8127 }, { 223,-8127 }, { 224,-8127 },
+
+ { 225,-8127 }, { 226,-8127 }, { 227,-8127 }, { 228,-8127 }, { 229,-8127 },
+ { 230,-8127 }, { 231,-8127 }, { 232,-8127 }, { 233,-8127 }, { 234,-8127 },
+ { 235,-8127 }, { 236,-8127 }, { 237,-8127 }, { 238,-8127 }, { 239,-8127 },
+ { 240,-8127 }, { 241,-8127 }, { 242,-8127 }, { 243,-8127 }, { 244,-8127 },
+ { 245,-8127 }, { 246,-8127 }, { 247,-8127 }, { 248,-8127 }, { 249,-8127 },
+ { 250,-8127 }, { 251,-8127 }, { 252,-8127 }, { 253,-8127 }, { 254,-8127 },
+ { 255,-8127 }, { 256,-8127 }, {   0,   0 }, {   0,3469 }, {   0,   0 },
+ {   0,3467 }, {   0,   0 }, {   0,3465 }, {   0,   0 }, {   0,3463 },
+ {   0,  16 }, {   0,3461 }, {   9,   0 }, {  10,   0 }, {   0,  26 },
+ {   0,3457 }, {  13,   0 }, {   0,  17 }, {   0,3454 }, {   0,  36 },
+
+ {   0,3452 }, {   0,   0 }, {   0,3450 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45, 913 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115, 400 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 }, { 126,   4 },
+ { 125, 397 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,3338 },
+ {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
+ {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
+ {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
+ {  16, 277 }, {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 },
+ {  21, 277 }, {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 },
+ {  26, 277 }, {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 },
+ {  31, 277 }, {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 },
+
+ {  36, 277 }, {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 },
+ {  41, 277 }, {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 },
+ {  46, 277 }, {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 },
+ {  51, 277 }, {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 },
+ {  56, 277 }, {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 },
+ {  61, 277 }, {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 },
+ {  66, 277 }, {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 },
+ {  71, 277 }, {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 },
+ {  76, 277 }, {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 },
+ {  81, 277 }, {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 },
+
+ {  86, 277 }, {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 },
+ {  91, 277 }, {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 },
+ {  96, 277 }, {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 },
+ { 101, 277 }, { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 },
+ { 106, 277 }, { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 },
+ { 111, 277 }, { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 },
+ { 116, 277 }, { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 },
+ { 121, 277 }, { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 },
+ { 126, 277 }, { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 },
+ { 131, 277 }, { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 },
+
+ { 136, 277 }, { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 },
+ { 141, 277 }, { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 },
+ { 146, 277 }, { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 },
+ { 151, 277 }, { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 },
+ { 156, 277 }, { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 },
+ { 161, 277 }, { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 },
+ { 166, 277 }, { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 },
+ { 171, 277 }, { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 },
+ { 176, 277 }, { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 },
+ { 181, 277 }, { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 },
+
+ { 186, 277 }, { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 },
+ { 191, 277 }, { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 },
+ { 196, 277 }, { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 },
+ { 201, 277 }, { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 },
+ { 206, 277 }, { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 },
+ { 211, 277 }, { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 },
+ { 216, 277 }, { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 },
+ { 221, 277 }, { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 },
+ { 226, 277 }, { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 },
+ { 231, 277 }, { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 },
+
+ { 236, 277 }, { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 },
+ { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
+ { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
+ { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
+ { 256, 277 }, {   0,   1 }, {   0,3080 }, {   0,   1 }, {   0,3078 },
+ {   0,  46 }, {   0,3076 }, {   0,  43 }, {   0,3074 }, {   0,  28 },
+ {   0,3072 }, {   0,  22 }, {   0,3070 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3063 },
+ {   0,   8 }, {   0,3061 }, {   0,   1 }, {   0,3059 }, {   0,  44 },
+ {   0,3057 }, {   0,   0 }, {   0,3055 }, {   0,   0 }, {   0,3053 },
+
+ {   1,-8801 }, {   2,-8801 }, {   3,-8801 }, {   4,-8801 }, {   5,-8801 },
+ {   6,-8801 }, {   7,-8801 }, {   8,-8801 }, {   9,  -4 }, {  10,  -4 },
+ {  11,-8801 }, {  12,-8801 }, {  13,  -4 }, {  14,-8801 }, {  15,-8801 },
+ {  16,-8801 }, {  17,-8801 }, {  18,-8801 }, {  19,-8801 }, {  20,-8801 },
+ {  21,-8801 }, {  22,-8801 }, {  23,-8801 }, {  24,-8801 }, {  25,-8801 },
+ {  26,-8801 }, {  27,-8801 }, {  28,-8801 }, {  29,-8801 }, {  30,-8801 },
+ {  31,-8801 }, {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-8801 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8801 },
+ {  46,-8826 }, {  47,-8826 }, {  48,-8801 }, {  49,-8801 }, {  50,-8801 },
+
+ {  51,-8801 }, {  52,-8801 }, {  53,-8801 }, {  54,-8801 }, {  55,-8801 },
+ {  56,-8801 }, {  57,-8801 }, {  58,-8801 }, {   0,   0 }, {   0,   0 },
+ {  61,-8826 }, {   0,   0 }, {  63,-8801 }, {   0,   0 }, {  65,-8801 },
+ {  66,-8801 }, {  67,-8801 }, {  68,-8801 }, {  69,-8801 }, {  70,-8801 },
+ {  71,-8801 }, {  72,-8801 }, {  73,-8801 }, {  74,-8801 }, {  75,-8801 },
+ {  76,-8801 }, {  77,-8801 }, {  78,-8801 }, {  79,-8801 }, {  80,-8801 },
+ {  81,-8801 }, {  82,-8801 }, {  83,-8801 }, {  84,-8801 }, {  85,-8801 },
+ {  86,-8801 }, {  87,-8801 }, {  88,-8801 }, {  89,-8801 }, {  90,-8801 },
+ { 101,1300 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8801 },
+ { 123,  21 }, {  97,-8801 }, {  98,-8801 }, {  99,-8801 }, { 100,-8801 },
+
+ { 101,-8801 }, { 102,-8801 }, { 103,-8801 }, { 104,-8801 }, { 105,-8801 },
+ { 106,-8801 }, { 107,-8801 }, { 108,-8801 }, { 109,-8801 }, { 110,-8801 },
+ { 111,-8801 }, { 112,-8801 }, { 113,-8801 }, { 114,-8801 }, { 115,-8801 },
+ { 116,-8801 }, { 117,-8801 }, { 118,-8801 }, { 119,-8801 }, { 120,-8801 },
+ { 121,-8801 }, { 122,-8801 }, { 125,2460 }, { 124,-8826 }, { 125,  -4 },
+ { 126,  -4 }, { 127,-8801 }, { 128,-8801 }, { 129,-8801 }, { 130,-8801 },
+ { 131,-8801 }, { 132,-8801 }, { 133,-8801 }, { 134,-8801 }, { 135,-8801 },
+ { 136,-8801 }, { 137,-8801 }, { 138,-8801 }, { 139,-8801 }, { 140,-8801 },
+ { 141,-8801 }, { 142,-8801 }, { 143,-8801 }, { 144,-8801 }, { 145,-8801 },
+ { 146,-8801 }, { 147,-8801 }, { 148,-8801 }, { 149,-8801 }, { 150,-8801 },
+
+ { 151,-8801 }, { 152,-8801 }, { 153,-8801 }, { 154,-8801 }, { 155,-8801 },
+ { 156,-8801 }, { 157,-8801 }, { 158,-8801 }, { 159,-8801 }, { 160,-8801 },
+ { 161,-8801 }, { 162,-8801 }, { 163,-8801 }, { 164,-8801 }, { 165,-8801 },
+ { 166,-8801 }, { 167,-8801 }, { 168,-8801 }, { 169,-8801 }, { 170,-8801 },
+ { 171,-8801 }, { 172,-8801 }, { 173,-8801 }, { 174,-8801 }, { 175,-8801 },
+ { 176,-8801 }, { 177,-8801 }, { 178,-8801 }, { 179,-8801 }, { 180,-8801 },
+ { 181,-8801 }, { 182,-8801 }, { 183,-8801 }, { 184,-8801 }, { 185,-8801 },
+ { 186,-8801 }, { 187,-8801 }, { 188,-8801 }, { 189,-8801 }, { 190,-8801 },
+ { 191,-8801 }, { 192,-8801 }, { 193,-8801 }, { 194,-8801 }, { 195,-8801 },
+ { 196,-8801 }, { 197,-8801 }, { 198,-8801 }, { 199,-8801 }, { 200,-8801 },
+
+ { 201,-8801 }, { 202,-8801 }, { 203,-8801 }, { 204,-8801 }, { 205,-8801 },
+ { 206,-8801 }, { 207,-8801 }, { 208,-8801 }, { 209,-8801 }, { 210,-8801 },
+ { 211,-8801 }, { 212,-8801 }, { 213,-8801 }, { 214,-8801 }, { 215,-8801 },
+ { 216,-8801 }, { 217,-8801 }, { 218,-8801 }, { 219,-8801 }, { 220,-8801 },
+ { 221,-8801 }, { 222,-8801 }, { 223,-8801 }, { 224,-8801 }, { 225,-8801 },
+ { 226,-8801 }, { 227,-8801 }, { 228,-8801 }, { 229,-8801 }, { 230,-8801 },
+ { 231,-8801 }, { 232,-8801 }, { 233,-8801 }, { 234,-8801 }, { 235,-8801 },
+ { 236,-8801 }, { 237,-8801 }, { 238,-8801 }, { 239,-8801 }, { 240,-8801 },
+ { 241,-8801 }, { 242,-8801 }, { 243,-8801 }, { 244,-8801 }, { 245,-8801 },
+ { 246,-8801 }, { 247,-8801 }, { 248,-8801 }, { 249,-8801 }, { 250,-8801 },
+
+ { 251,-8801 }, { 252,-8801 }, { 253,-8801 }, { 254,-8801 }, { 255,-8801 },
+ { 256,-8801 }, {   0,   0 }, {   0,2795 }, {   1,-9059 }, {   2,-9059 },
+ {   3,-9059 }, {   4,-9059 }, {   5,-9059 }, {   6,-9059 }, {   7,-9059 },
+ {   8,-9059 }, {   9,-9084 }, {  10,-9084 }, {  11,-9059 }, {  12,-9059 },
+ {  13,-9084 }, {  14,-9059 }, {  15,-9059 }, {  16,-9059 }, {  17,-9059 },
+ {  18,-9059 }, {  19,-9059 }, {  20,-9059 }, {  21,-9059 }, {  22,-9059 },
+ {  23,-9059 }, {  24,-9059 }, {  25,-9059 }, {  26,-9059 }, {  27,-9059 },
+ {  28,-9059 }, {  29,-9059 }, {  30,-9059 }, {  31,-9059 }, {  32,-9084 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9059 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9084 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  45,-9059 }, {  46,-9084 }, {  47,-9084 },
+ {  48,-9059 }, {  49,-9059 }, {  50,-9059 }, {  51,-9059 }, {  52,-9059 },
+ {  53,-9059 }, {  54,-9059 }, {  55,-9059 }, {  56,-9059 }, {  57,-9059 },
+ {  58,-9059 }, {   0,   0 }, {   0,   0 }, {  61,-9084 }, {   0,   0 },
+ {  63,-9059 }, {   0,   0 }, {  65,-9059 }, {  66,-9059 }, {  67,-9059 },
+ {  68,-9059 }, {  69,-9059 }, {  70,-9059 }, {  71,-9059 }, {  72,-9059 },
+ {  73,-9059 }, {  74,-9059 }, {  75,-9059 }, {  76,-9059 }, {  77,-9059 },
+ {  78,-9059 }, {  79,-9059 }, {  80,-9059 }, {  81,-9059 }, {  82,-9059 },
+ {  83,-9059 }, {  84,-9059 }, {  85,-9059 }, {  86,-9059 }, {  87,-9059 },
+ {  88,-9059 }, {  89,-9059 }, {  90,-9059 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  95,-9059 }, {   0,   0 }, {  97,-9059 },
+ {  98,-9059 }, {  99,-9059 }, { 100,-9059 }, { 101,-9059 }, { 102,-9059 },
+ { 103,-9059 }, { 104,-9059 }, { 105, 774 }, { 106,-9059 }, { 107,-9059 },
+ { 108,-9059 }, { 109,-9059 }, { 110,-9059 }, { 111,-9059 }, { 112,-9059 },
+ { 113,-9059 }, { 114,-9059 }, { 115,-9059 }, { 116,-9059 }, { 117,-9059 },
+ { 118,-9059 }, { 119,-9059 }, { 120,-9059 }, { 121,-9059 }, { 122,-9059 },
+ {   0,   0 }, { 124,-9084 }, { 125,-9084 }, { 126,-9084 }, { 127,-9059 },
+ { 128,-9059 }, { 129,-9059 }, { 130,-9059 }, { 131,-9059 }, { 132,-9059 },
+ { 133,-9059 }, { 134,-9059 }, { 135,-9059 }, { 136,-9059 }, { 137,-9059 },
+ { 138,-9059 }, { 139,-9059 }, { 140,-9059 }, { 141,-9059 }, { 142,-9059 },
+
+ { 143,-9059 }, { 144,-9059 }, { 145,-9059 }, { 146,-9059 }, { 147,-9059 },
+ { 148,-9059 }, { 149,-9059 }, { 150,-9059 }, { 151,-9059 }, { 152,-9059 },
+ { 153,-9059 }, { 154,-9059 }, { 155,-9059 }, { 156,-9059 }, { 157,-9059 },
+ { 158,-9059 }, { 159,-9059 }, { 160,-9059 }, { 161,-9059 }, { 162,-9059 },
+ { 163,-9059 }, { 164,-9059 }, { 165,-9059 }, { 166,-9059 }, { 167,-9059 },
+ { 168,-9059 }, { 169,-9059 }, { 170,-9059 }, { 171,-9059 }, { 172,-9059 },
+ { 173,-9059 }, { 174,-9059 }, { 175,-9059 }, { 176,-9059 }, { 177,-9059 },
+ { 178,-9059 }, { 179,-9059 }, { 180,-9059 }, { 181,-9059 }, { 182,-9059 },
+ { 183,-9059 }, { 184,-9059 }, { 185,-9059 }, { 186,-9059 }, { 187,-9059 },
+ { 188,-9059 }, { 189,-9059 }, { 190,-9059 }, { 191,-9059 }, { 192,-9059 },
+
+ { 193,-9059 }, { 194,-9059 }, { 195,-9059 }, { 196,-9059 }, { 197,-9059 },
+ { 198,-9059 }, { 199,-9059 }, { 200,-9059 }, { 201,-9059 }, { 202,-9059 },
+ { 203,-9059 }, { 204,-9059 }, { 205,-9059 }, { 206,-9059 }, { 207,-9059 },
+ { 208,-9059 }, { 209,-9059 }, { 210,-9059 }, { 211,-9059 }, { 212,-9059 },
+ { 213,-9059 }, { 214,-9059 }, { 215,-9059 }, { 216,-9059 }, { 217,-9059 },
+ { 218,-9059 }, { 219,-9059 }, { 220,-9059 }, { 221,-9059 }, { 222,-9059 },
+ { 223,-9059 }, { 224,-9059 }, { 225,-9059 }, { 226,-9059 }, { 227,-9059 },
+ { 228,-9059 }, { 229,-9059 }, { 230,-9059 }, { 231,-9059 }, { 232,-9059 },
+ { 233,-9059 }, { 234,-9059 }, { 235,-9059 }, { 236,-9059 }, { 237,-9059 },
+ { 238,-9059 }, { 239,-9059 }, { 240,-9059 }, { 241,-9059 }, { 242,-9059 },
+
+ { 243,-9059 }, { 244,-9059 }, { 245,-9059 }, { 246,-9059 }, { 247,-9059 },
+ { 248,-9059 }, { 249,-9059 }, { 250,-9059 }, { 251,-9059 }, { 252,-9059 },
+ { 253,-9059 }, { 254,-9059 }, { 255,-9059 }, { 256,-9059 }, {   0,   0 },
+ {   0,2537 }, {   1, 902 }, {   2, 902 }, {   3, 902 }, {   4, 902 },
+ {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 }, {   9, 902 },
+ {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 }, {  14, 902 },
+ {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 }, {  19, 902 },
+ {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 }, {  24, 902 },
+ {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 }, {  29, 902 },
+ {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 }, {  34, 902 },
+
+ {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 }, {  39, 902 },
+ {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 }, {  44, 902 },
+ {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 }, {  49, 902 },
+ {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 }, {  54, 902 },
+ {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 }, {  59, 902 },
+ {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 }, {  64, 902 },
+ {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 }, {  69, 902 },
+ {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 }, {  74, 902 },
+ {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 }, {  79, 902 },
+ {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 }, {  84, 902 },
+
+ {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 }, {  89, 902 },
+ {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 }, {  94, 902 },
+ {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 }, {  99, 902 },
+ { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 }, { 104, 902 },
+ { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 }, { 109, 902 },
+ { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 }, { 114, 902 },
+ { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 }, { 119, 902 },
+ { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 }, { 124, 902 },
+ { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 }, { 129, 902 },
+ { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 }, { 134, 902 },
+
+ { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 }, { 139, 902 },
+ { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 }, { 144, 902 },
+ { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 }, { 149, 902 },
+ { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 }, { 154, 902 },
+ { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 }, { 159, 902 },
+ { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 }, { 164, 902 },
+ { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 }, { 169, 902 },
+ { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 }, { 174, 902 },
+ { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 }, { 179, 902 },
+ { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 }, { 184, 902 },
+
+ { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 }, { 189, 902 },
+ { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 }, { 194, 902 },
+ { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 }, { 199, 902 },
+ { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 }, { 204, 902 },
+ { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 }, { 209, 902 },
+ { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 }, { 214, 902 },
+ { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 }, { 219, 902 },
+ { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 }, { 224, 902 },
+ { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 }, { 229, 902 },
+ { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 }, { 234, 902 },
+
+ { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 }, { 239, 902 },
+ { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 }, { 244, 902 },
+ { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 }, { 249, 902 },
+ { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 }, { 254, 902 },
+ { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2279 }, {   1,1160 },
+ {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 },
+ {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 },
+ {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 },
+ {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 },
+ {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 },
+
+ {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 },
+ {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 },
+ {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 },
+ {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 },
+ {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 },
+ {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 },
+
+ {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 },
+ {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 },
+ {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 },
+ {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 },
+ { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 },
+ { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 },
+ { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 },
+ { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 },
+ { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 },
+ { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 },
+ { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 },
+ { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 },
+ { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 },
+ { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 },
+ { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 },
+ { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 },
+ { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 },
+ { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 },
+
+ { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 },
+ { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 },
+ { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 },
+ { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 },
+ { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 },
+ { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 },
+ { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 },
+ { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 },
+ { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 },
+ { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 },
+
+ { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 },
+ { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 },
+ { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 },
+ { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 },
+ { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 },
+ { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 },
+ {   0,   0 }, {   0,2021 }, {   1,-9833 }, {   2,-9833 }, {   3,-9833 },
+ {   4,-9833 }, {   5,-9833 }, {   6,-9833 }, {   7,-9833 }, {   8,-9833 },
+ {   9,-9858 }, {  10,-9858 }, {  11,-9833 }, {  12,-9833 }, {  13,-9858 },
+ {  14,-9833 }, {  15,-9833 }, {  16,-9833 }, {  17,-9833 }, {  18,-9833 },
+
+ {  19,-9833 }, {  20,-9833 }, {  21,-9833 }, {  22,-9833 }, {  23,-9833 },
+ {  24,-9833 }, {  25,-9833 }, {  26,-9833 }, {  27,-9833 }, {  28,-9833 },
+ {  29,-9833 }, {  30,-9833 }, {  31,-9833 }, {  32,-9858 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9833 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-9858 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9833 }, {  46,-9858 }, {  47,-9858 }, {  48,-9833 },
+ {  49,-9833 }, {  50,-9833 }, {  51,-9833 }, {  52,-9833 }, {  53,-9833 },
+ {  54,-9833 }, {  55,-9833 }, {  56,-9833 }, {  57,-9833 }, {  58,-9833 },
+ {   0,   0 }, {   0,   0 }, {  61,-9858 }, {   0,   0 }, {  63,-9833 },
+ {   0,   0 }, {  65,-9833 }, {  66,-9833 }, {  67,-9833 }, {  68,-9833 },
+
+ {  69,-9833 }, {  70,-9833 }, {  71,-9833 }, {  72,-9833 }, {  73,-9833 },
+ {  74,-9833 }, {  75,-9833 }, {  76,-9833 }, {  77,-9833 }, {  78,-9833 },
+ {  79,-9833 }, {  80,-9833 }, {  81,-9833 }, {  82,-9833 }, {  83,-9833 },
+ {  84,-9833 }, {  85,-9833 }, {  86,-9833 }, {  87,-9833 }, {  88,-9833 },
+ {  89,-9833 }, {  90,-9833 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9833 }, {   0,   0 }, {  97,-9833 }, {  98,-9833 },
+ {  99,-9833 }, { 100,-9833 }, { 101,-9833 }, { 102,-9833 }, { 103,-9833 },
+ { 104,-9833 }, { 105,-9833 }, { 106,-9833 }, { 107,-9833 }, { 108,-9833 },
+ { 109,-9833 }, { 110,1160 }, { 111,-9833 }, { 112,-9833 }, { 113,-9833 },
+ { 114,-9833 }, { 115,-9833 }, { 116,-9833 }, { 117,-9833 }, { 118,-9833 },
+
+ { 119,-9833 }, { 120,-9833 }, { 121,-9833 }, { 122,-9833 }, {   0,   0 },
+ { 124,-9858 }, { 125,-9858 }, { 126,-9858 }, { 127,-9833 }, { 128,-9833 },
+ { 129,-9833 }, { 130,-9833 }, { 131,-9833 }, { 132,-9833 }, { 133,-9833 },
+ { 134,-9833 }, { 135,-9833 }, { 136,-9833 }, { 137,-9833 }, { 138,-9833 },
+ { 139,-9833 }, { 140,-9833 }, { 141,-9833 }, { 142,-9833 }, { 143,-9833 },
+ { 144,-9833 }, { 145,-9833 }, { 146,-9833 }, { 147,-9833 }, { 148,-9833 },
+ { 149,-9833 }, { 150,-9833 }, { 151,-9833 }, { 152,-9833 }, { 153,-9833 },
+ { 154,-9833 }, { 155,-9833 }, { 156,-9833 }, { 157,-9833 }, { 158,-9833 },
+ { 159,-9833 }, { 160,-9833 }, { 161,-9833 }, { 162,-9833 }, { 163,-9833 },
+ { 164,-9833 }, { 165,-9833 }, { 166,-9833 }, { 167,-9833 }, { 168,-9833 },
+
+ { 169,-9833 }, { 170,-9833 }, { 171,-9833 }, { 172,-9833 }, { 173,-9833 },
+ { 174,-9833 }, { 175,-9833 }, { 176,-9833 }, { 177,-9833 }, { 178,-9833 },
+ { 179,-9833 }, { 180,-9833 }, { 181,-9833 }, { 182,-9833 }, { 183,-9833 },
+ { 184,-9833 }, { 185,-9833 }, { 186,-9833 }, { 187,-9833 }, { 188,-9833 },
+ { 189,-9833 }, { 190,-9833 }, { 191,-9833 }, { 192,-9833 }, { 193,-9833 },
+ { 194,-9833 }, { 195,-9833 }, { 196,-9833 }, { 197,-9833 }, { 198,-9833 },
+ { 199,-9833 }, { 200,-9833 }, { 201,-9833 }, { 202,-9833 }, { 203,-9833 },
+ { 204,-9833 }, { 205,-9833 }, { 206,-9833 }, { 207,-9833 }, { 208,-9833 },
+ { 209,-9833 }, { 210,-9833 }, { 211,-9833 }, { 212,-9833 }, { 213,-9833 },
+ { 214,-9833 }, { 215,-9833 }, { 216,-9833 }, { 217,-9833 }, { 218,-9833 },
 
- { 248,-9954 }, { 249,-9954 }, { 250,-9954 }, { 251,-9954 }, { 252,-9954 },
- { 253,-9954 }, { 254,-9954 }, { 255,-9954 }, { 256,-9954 }, {   0,  25 },
- {   0,1822 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 },
- {  10,1162 }, {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 },
+ { 219,-9833 }, { 220,-9833 }, { 221,-9833 }, { 222,-9833 }, { 223,-9833 },
+ { 224,-9833 }, { 225,-9833 }, { 226,-9833 }, { 227,-9833 }, { 228,-9833 },
+ { 229,-9833 }, { 230,-9833 }, { 231,-9833 }, { 232,-9833 }, { 233,-9833 },
+ { 234,-9833 }, { 235,-9833 }, { 236,-9833 }, { 237,-9833 }, { 238,-9833 },
+ { 239,-9833 }, { 240,-9833 }, { 241,-9833 }, { 242,-9833 }, { 243,-9833 },
+ { 244,-9833 }, { 245,-9833 }, { 246,-9833 }, { 247,-9833 }, { 248,-9833 },
+ { 249,-9833 }, { 250,-9833 }, { 251,-9833 }, { 252,-9833 }, { 253,-9833 },
+ { 254,-9833 }, { 255,-9833 }, { 256,-9833 }, {   0,  25 }, {   0,1763 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1160 }, {  10,1160 },
+
+ {   0,   0 }, {   0,   0 }, {  13,1160 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
+ {   0,   0 }, {  32,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1164 }, { 126,1166 }, {   0,   0 }, {   0,1694 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1292 },
+ { 126,1162 }, {   0,   0 }, {   0,1635 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,1377 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45, 778 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1119 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
+ {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
+ {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
 
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
+ {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
+ {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
 
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
+ {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
-
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
+ { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 522 }, {   0,   0 },
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
@@ -4637,8 +4724,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
-
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
@@ -4648,8 +4735,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
-
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
@@ -4658,323 +4745,197 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,1436 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
-
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
- {  44,-258 }, {  45, 791 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
-
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
-
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
-
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
-
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
-
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1178 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
- {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
-
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
-
- {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 535 },
- {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
-
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
-
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
-
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-11114 }, {   2,-11114 },
- {   3,-11114 }, {   4,-11114 }, {   5,-11114 }, {   6,-11114 }, {   7,-11114 },
- {   8,-11114 }, {   9,-11139 }, {  10,-11139 }, {  11,-11114 }, {  12,-11114 },
- {  13,-11139 }, {  14,-11114 }, {  15,-11114 }, {  16,-11114 }, {  17,-11114 },
- {  18,-11114 }, {  19,-11114 }, {  20,-11114 }, {  21,-11114 }, {  22,-11114 },
- {  23,-11114 }, {  24,-11114 }, {  25,-11114 }, {  26,-11114 }, {  27,-11114 },
- {  28,-11114 }, {  29,-11114 }, {  30,-11114 }, {  31,-11114 }, {  32,-11139 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11114 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11139 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11114 }, {  46,-11139 }, {  47,-11139 },
- {  48,-11114 }, {  49,-11114 }, {  50,-11114 }, {  51,-11114 }, {  52,-11114 },
- {  53,-11114 }, {  54,-11114 }, {  55,-11114 }, {  56,-11114 }, {  57,-11114 },
- {  58,-11114 }, {   0,   0 }, {   0,   0 }, {  61,-11139 }, {   0,   0 },
- {  63,-11114 }, {   0,   0 }, {  65,-11114 }, {  66,-11114 }, {  67,-11114 },
- {  68,-11114 }, {  69,-11114 }, {  70,-11114 }, {  71,-11114 }, {  72,-11114 },
- {  73,-11114 }, {  74,-11114 }, {  75,-11114 }, {  76,-11114 }, {  77,-11114 },
- {  78,-11114 }, {  79,-11114 }, {  80,-11114 }, {  81,-11114 }, {  82,-11114 },
- {  83,-11114 }, {  84,-11114 }, {  85,-11114 }, {  86,-11114 }, {  87,-11114 },
-
- {  88,-11114 }, {  89,-11114 }, {  90,-11114 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11114 }, {   0,   0 }, {  97,-11114 },
- {  98,-11114 }, {  99,-11114 }, { 100,-11114 }, { 101, 404 }, { 102,-11114 },
- { 103,-11114 }, { 104,-11114 }, { 105,-11114 }, { 106,-11114 }, { 107,-11114 },
- { 108,-11114 }, { 109,-11114 }, { 110,-11114 }, { 111,-11114 }, { 112,-11114 },
- { 113,-11114 }, { 114,-11114 }, { 115,-11114 }, { 116,-11114 }, { 117,-11114 },
- { 118,-11114 }, { 119,-11114 }, { 120,-11114 }, { 121,-11114 }, { 122,-11114 },
- {   0,   0 }, { 124,-11139 }, { 125,-11139 }, { 126,-11139 }, { 127,-11114 },
- { 128,-11114 }, { 129,-11114 }, { 130,-11114 }, { 131,-11114 }, { 132,-11114 },
- { 133,-11114 }, { 134,-11114 }, { 135,-11114 }, { 136,-11114 }, { 137,-11114 },
-
- { 138,-11114 }, { 139,-11114 }, { 140,-11114 }, { 141,-11114 }, { 142,-11114 },
- { 143,-11114 }, { 144,-11114 }, { 145,-11114 }, { 146,-11114 }, { 147,-11114 },
- { 148,-11114 }, { 149,-11114 }, { 150,-11114 }, { 151,-11114 }, { 152,-11114 },
- { 153,-11114 }, { 154,-11114 }, { 155,-11114 }, { 156,-11114 }, { 157,-11114 },
- { 158,-11114 }, { 159,-11114 }, { 160,-11114 }, { 161,-11114 }, { 162,-11114 },
- { 163,-11114 }, { 164,-11114 }, { 165,-11114 }, { 166,-11114 }, { 167,-11114 },
- { 168,-11114 }, { 169,-11114 }, { 170,-11114 }, { 171,-11114 }, { 172,-11114 },
- { 173,-11114 }, { 174,-11114 }, { 175,-11114 }, { 176,-11114 }, { 177,-11114 },
- { 178,-11114 }, { 179,-11114 }, { 180,-11114 }, { 181,-11114 }, { 182,-11114 },
- { 183,-11114 }, { 184,-11114 }, { 185,-11114 }, { 186,-11114 }, { 187,-11114 },
-
- { 188,-11114 }, { 189,-11114 }, { 190,-11114 }, { 191,-11114 }, { 192,-11114 },
- { 193,-11114 }, { 194,-11114 }, { 195,-11114 }, { 196,-11114 }, { 197,-11114 },
- { 198,-11114 }, { 199,-11114 }, { 200,-11114 }, { 201,-11114 }, { 202,-11114 },
- { 203,-11114 }, { 204,-11114 }, { 205,-11114 }, { 206,-11114 }, { 207,-11114 },
- { 208,-11114 }, { 209,-11114 }, { 210,-11114 }, { 211,-11114 }, { 212,-11114 },
- { 213,-11114 }, { 214,-11114 }, { 215,-11114 }, { 216,-11114 }, { 217,-11114 },
- { 218,-11114 }, { 219,-11114 }, { 220,-11114 }, { 221,-11114 }, { 222,-11114 },
- { 223,-11114 }, { 224,-11114 }, { 225,-11114 }, { 226,-11114 }, { 227,-11114 },
- { 228,-11114 }, { 229,-11114 }, { 230,-11114 }, { 231,-11114 }, { 232,-11114 },
- { 233,-11114 }, { 234,-11114 }, { 235,-11114 }, { 236,-11114 }, { 237,-11114 },
-
- { 238,-11114 }, { 239,-11114 }, { 240,-11114 }, { 241,-11114 }, { 242,-11114 },
- { 243,-11114 }, { 244,-11114 }, { 245,-11114 }, { 246,-11114 }, { 247,-11114 },
- { 248,-11114 }, { 249,-11114 }, { 250,-11114 }, { 251,-11114 }, { 252,-11114 },
- { 253,-11114 }, { 254,-11114 }, { 255,-11114 }, { 256,-11114 }, {   0,   0 },
- {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 }, {   0, 658 },
- {   0,   0 }, {   0, 656 }, {   0,  25 }, {   0, 654 }, {   9,   2 },
- {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0, 645 }, {   0,   0 }, {   0, 643 },
- {   0,  23 }, {   0, 641 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 608 },
- {   0,   0 }, {   0, 606 }, {   0,   0 }, {   0, 604 }, {   0,  12 },
- {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0, 599 }, {   0,  45 },
- {   0, 597 }, {   0,   9 }, {   0, 595 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  17 },
-
- {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,  37 }, { 126,  39 }, { 125,  39 },
- {   0,   0 }, {   0, 516 }, {   1,-11518 }, {   2,-11518 }, {   3,-11518 },
- {   4,-11518 }, {   5,-11518 }, {   6,-11518 }, {   7,-11518 }, {   8,-11518 },
- {   9,-11543 }, {  10,-11543 }, {  11,-11518 }, {  12,-11518 }, {  13,-11543 },
- {  14,-11518 }, {  15,-11518 }, {  16,-11518 }, {  17,-11518 }, {  18,-11518 },
- {  19,-11518 }, {  20,-11518 }, {  21,-11518 }, {  22,-11518 }, {  23,-11518 },
- {  24,-11518 }, {  25,-11518 }, {  26,-11518 }, {  27,-11518 }, {  28,-11518 },
- {  29,-11518 }, {  30,-11518 }, {  31,-11518 }, {  32,-11543 }, { 125,   6 },
-
- {   0,   0 }, { 125,  -2 }, {  36,-11518 }, { 125,   5 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11543 }, { 125,   4 }, {   0,   0 },
- {   0,   0 }, {  45,-11518 }, {  46,-11543 }, {  47,-11543 }, {  48,-11518 },
- {  49,-11518 }, {  50,-11518 }, {  51,-11518 }, {  52,-11518 }, {  53,-11518 },
- {  54,-11518 }, {  55,-11518 }, {  56,-11518 }, {  57,-11518 }, {  58,-11518 },
- {   0,   0 }, {   0,   0 }, {  61,-11543 }, {   0,   0 }, {  63,-11518 },
- {   0,   0 }, {  65,-11518 }, {  66,-11518 }, {  67,-11518 }, {  68,-11518 },
- {  69,-11518 }, {  70,-11518 }, {  71,-11518 }, {  72,-11518 }, {  73,-11518 },
- {  74,-11518 }, {  75,-11518 }, {  76,-11518 }, {  77,-11518 }, {  78,-11518 },
- {  79,-11518 }, {  80,-11518 }, {  81,-11518 }, {  82,-11518 }, {  83,-11518 },
-
- {  84,-11518 }, {  85,-11518 }, {  86,-11518 }, {  87,-11518 }, {  88,-11518 },
- {  89,-11518 }, {  90,-11518 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11518 }, {   0,   0 }, {  97,-11518 }, {  98,-11518 },
- {  99,-11518 }, { 100, 258 }, { 101,-11518 }, { 102,-11518 }, { 103,-11518 },
- { 104,-11518 }, { 105,-11518 }, { 106,-11518 }, { 107,-11518 }, { 108,-11518 },
- { 109,-11518 }, { 110,-11518 }, { 111,-11518 }, { 112,-11518 }, { 113,-11518 },
- { 114,-11518 }, { 115,-11518 }, { 116,-11518 }, { 117,-11518 }, { 118,-11518 },
- { 119,-11518 }, { 120,-11518 }, { 121,-11518 }, { 122,-11518 }, {   0,   0 },
- { 124,-11543 }, { 125,-11543 }, { 126,-11543 }, { 127,-11518 }, { 128,-11518 },
- { 129,-11518 }, { 130,-11518 }, { 131,-11518 }, { 132,-11518 }, { 133,-11518 },
-
- { 134,-11518 }, { 135,-11518 }, { 136,-11518 }, { 137,-11518 }, { 138,-11518 },
- { 139,-11518 }, { 140,-11518 }, { 141,-11518 }, { 142,-11518 }, { 143,-11518 },
- { 144,-11518 }, { 145,-11518 }, { 146,-11518 }, { 147,-11518 }, { 148,-11518 },
- { 149,-11518 }, { 150,-11518 }, { 151,-11518 }, { 152,-11518 }, { 153,-11518 },
- { 154,-11518 }, { 155,-11518 }, { 156,-11518 }, { 157,-11518 }, { 158,-11518 },
- { 159,-11518 }, { 160,-11518 }, { 161,-11518 }, { 162,-11518 }, { 163,-11518 },
- { 164,-11518 }, { 165,-11518 }, { 166,-11518 }, { 167,-11518 }, { 168,-11518 },
- { 169,-11518 }, { 170,-11518 }, { 171,-11518 }, { 172,-11518 }, { 173,-11518 },
- { 174,-11518 }, { 175,-11518 }, { 176,-11518 }, { 177,-11518 }, { 178,-11518 },
- { 179,-11518 }, { 180,-11518 }, { 181,-11518 }, { 182,-11518 }, { 183,-11518 },
-
- { 184,-11518 }, { 185,-11518 }, { 186,-11518 }, { 187,-11518 }, { 188,-11518 },
- { 189,-11518 }, { 190,-11518 }, { 191,-11518 }, { 192,-11518 }, { 193,-11518 },
- { 194,-11518 }, { 195,-11518 }, { 196,-11518 }, { 197,-11518 }, { 198,-11518 },
- { 199,-11518 }, { 200,-11518 }, { 201,-11518 }, { 202,-11518 }, { 203,-11518 },
- { 204,-11518 }, { 205,-11518 }, { 206,-11518 }, { 207,-11518 }, { 208,-11518 },
- { 209,-11518 }, { 210,-11518 }, { 211,-11518 }, { 212,-11518 }, { 213,-11518 },
- { 214,-11518 }, { 215,-11518 }, { 216,-11518 }, { 217,-11518 }, { 218,-11518 },
- { 219,-11518 }, { 220,-11518 }, { 221,-11518 }, { 222,-11518 }, { 223,-11518 },
- { 224,-11518 }, { 225,-11518 }, { 226,-11518 }, { 227,-11518 }, { 228,-11518 },
- { 229,-11518 }, { 230,-11518 }, { 231,-11518 }, { 232,-11518 }, { 233,-11518 },
-
- { 234,-11518 }, { 235,-11518 }, { 236,-11518 }, { 237,-11518 }, { 238,-11518 },
- { 239,-11518 }, { 240,-11518 }, { 241,-11518 }, { 242,-11518 }, { 243,-11518 },
- { 244,-11518 }, { 245,-11518 }, { 246,-11518 }, { 247,-11518 }, { 248,-11518 },
- { 249,-11518 }, { 250,-11518 }, { 251,-11518 }, { 252,-11518 }, { 253,-11518 },
- { 254,-11518 }, { 255,-11518 }, { 256,-11518 }, {   0,   0 }, {   0, 258 },
- {   1,-11776 }, {   2,-11776 }, {   3,-11776 }, {   4,-11776 }, {   5,-11776 },
- {   6,-11776 }, {   7,-11776 }, {   8,-11776 }, {   9,-339 }, {  10,-339 },
- {  11,-11776 }, {  12,-11776 }, {  13,-339 }, {  14,-11776 }, {  15,-11776 },
- {  16,-11776 }, {  17,-11776 }, {  18,-11776 }, {  19,-11776 }, {  20,-11776 },
- {  21,-11776 }, {  22,-11776 }, {  23,-11776 }, {  24,-11776 }, {  25,-11776 },
-
- {  26,-11776 }, {  27,-11776 }, {  28,-11776 }, {  29,-11776 }, {  30,-11776 },
- {  31,-11776 }, {  32,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11776 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11776 },
- {  46,-11801 }, {  47,-11801 }, {  48,-11776 }, {  49,-11776 }, {  50,-11776 },
- {  51,-11776 }, {  52,-11776 }, {  53,-11776 }, {  54,-11776 }, {  55,-11776 },
- {  56,-11776 }, {  57,-11776 }, {  58,-11776 }, {   0,   0 }, {   0,   0 },
- {  61,-11801 }, {   0,   0 }, {  63,-11776 }, {   0,   0 }, {  65,-11776 },
- {  66,-11776 }, {  67,-11776 }, {  68,-11776 }, {  69,-11776 }, {  70,-11776 },
- {  71,-11776 }, {  72,-11776 }, {  73,-11776 }, {  74,-11776 }, {  75,-11776 },
-
- {  76,-11776 }, {  77,-11776 }, {  78,-11776 }, {  79,-11776 }, {  80,-11776 },
- {  81,-11776 }, {  82,-11776 }, {  83,-11776 }, {  84,-11776 }, {  85,-11776 },
- {  86,-11776 }, {  87,-11776 }, {  88,-11776 }, {  89,-11776 }, {  90,-11776 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11776 },
- {   0,   0 }, {  97,-11776 }, {  98,-11776 }, {  99,-11776 }, { 100,-11776 },
- { 101,-11776 }, { 102,-11776 }, { 103,-11776 }, { 104,-11776 }, { 105,-11776 },
- { 106,-11776 }, { 107,-11776 }, { 108,-11776 }, { 109,-11776 }, { 110,-11776 },
- { 111,-11776 }, { 112,-11776 }, { 113,-11776 }, { 114,-11776 }, { 115,-11776 },
- { 116,-11776 }, { 117,-11776 }, { 118,-11776 }, { 119,-11776 }, { 120,-11776 },
- { 121,-11776 }, { 122,-11776 }, {   0,   0 }, { 124,-11801 }, { 125,-339 },
-
- { 126,-339 }, { 127,-11776 }, { 128,-11776 }, { 129,-11776 }, { 130,-11776 },
- { 131,-11776 }, { 132,-11776 }, { 133,-11776 }, { 134,-11776 }, { 135,-11776 },
- { 136,-11776 }, { 137,-11776 }, { 138,-11776 }, { 139,-11776 }, { 140,-11776 },
- { 141,-11776 }, { 142,-11776 }, { 143,-11776 }, { 144,-11776 }, { 145,-11776 },
- { 146,-11776 }, { 147,-11776 }, { 148,-11776 }, { 149,-11776 }, { 150,-11776 },
- { 151,-11776 }, { 152,-11776 }, { 153,-11776 }, { 154,-11776 }, { 155,-11776 },
- { 156,-11776 }, { 157,-11776 }, { 158,-11776 }, { 159,-11776 }, { 160,-11776 },
- { 161,-11776 }, { 162,-11776 }, { 163,-11776 }, { 164,-11776 }, { 165,-11776 },
- { 166,-11776 }, { 167,-11776 }, { 168,-11776 }, { 169,-11776 }, { 170,-11776 },
- { 171,-11776 }, { 172,-11776 }, { 173,-11776 }, { 174,-11776 }, { 175,-11776 },
-
- { 176,-11776 }, { 177,-11776 }, { 178,-11776 }, { 179,-11776 }, { 180,-11776 },
- { 181,-11776 }, { 182,-11776 }, { 183,-11776 }, { 184,-11776 }, { 185,-11776 },
- { 186,-11776 }, { 187,-11776 }, { 188,-11776 }, { 189,-11776 }, { 190,-11776 },
- { 191,-11776 }, { 192,-11776 }, { 193,-11776 }, { 194,-11776 }, { 195,-11776 },
- { 196,-11776 }, { 197,-11776 }, { 198,-11776 }, { 199,-11776 }, { 200,-11776 },
- { 201,-11776 }, { 202,-11776 }, { 203,-11776 }, { 204,-11776 }, { 205,-11776 },
- { 206,-11776 }, { 207,-11776 }, { 208,-11776 }, { 209,-11776 }, { 210,-11776 },
- { 211,-11776 }, { 212,-11776 }, { 213,-11776 }, { 214,-11776 }, { 215,-11776 },
- { 216,-11776 }, { 217,-11776 }, { 218,-11776 }, { 219,-11776 }, { 220,-11776 },
- { 221,-11776 }, { 222,-11776 }, { 223,-11776 }, { 224,-11776 }, { 225,-11776 },
-
- { 226,-11776 }, { 227,-11776 }, { 228,-11776 }, { 229,-11776 }, { 230,-11776 },
- { 231,-11776 }, { 232,-11776 }, { 233,-11776 }, { 234,-11776 }, { 235,-11776 },
- { 236,-11776 }, { 237,-11776 }, { 238,-11776 }, { 239,-11776 }, { 240,-11776 },
- { 241,-11776 }, { 242,-11776 }, { 243,-11776 }, { 244,-11776 }, { 245,-11776 },
- { 246,-11776 }, { 247,-11776 }, { 248,-11776 }, { 249,-11776 }, { 250,-11776 },
- { 251,-11776 }, { 252,-11776 }, { 253,-11776 }, { 254,-11776 }, { 255,-11776 },
- { 256,-11776 }, { 257,  52 }, {   1,   0 },    };
+ {   0,   0 }, {   0, 861 }, {   1,-10993 }, {   2,-10993 }, {   3,-10993 },
+ {   4,-10993 }, {   5,-10993 }, {   6,-10993 }, {   7,-10993 }, {   8,-10993 },
+
+ {   9,-11018 }, {  10,-11018 }, {  11,-10993 }, {  12,-10993 }, {  13,-11018 },
+ {  14,-10993 }, {  15,-10993 }, {  16,-10993 }, {  17,-10993 }, {  18,-10993 },
+ {  19,-10993 }, {  20,-10993 }, {  21,-10993 }, {  22,-10993 }, {  23,-10993 },
+ {  24,-10993 }, {  25,-10993 }, {  26,-10993 }, {  27,-10993 }, {  28,-10993 },
+ {  29,-10993 }, {  30,-10993 }, {  31,-10993 }, {  32,-11018 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-10993 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-11018 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-10993 }, {  46,-11018 }, {  47,-11018 }, {  48,-10993 },
+ {  49,-10993 }, {  50,-10993 }, {  51,-10993 }, {  52,-10993 }, {  53,-10993 },
+ {  54,-10993 }, {  55,-10993 }, {  56,-10993 }, {  57,-10993 }, {  58,-10993 },
+
+ {   0,   0 }, {   0,   0 }, {  61,-11018 }, {   0,   0 }, {  63,-10993 },
+ {   0,   0 }, {  65,-10993 }, {  66,-10993 }, {  67,-10993 }, {  68,-10993 },
+ {  69,-10993 }, {  70,-10993 }, {  71,-10993 }, {  72,-10993 }, {  73,-10993 },
+ {  74,-10993 }, {  75,-10993 }, {  76,-10993 }, {  77,-10993 }, {  78,-10993 },
+ {  79,-10993 }, {  80,-10993 }, {  81,-10993 }, {  82,-10993 }, {  83,-10993 },
+ {  84,-10993 }, {  85,-10993 }, {  86,-10993 }, {  87,-10993 }, {  88,-10993 },
+ {  89,-10993 }, {  90,-10993 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-10993 }, {   0,   0 }, {  97,-10993 }, {  98,-10993 },
+ {  99,-10993 }, { 100,-10993 }, { 101, 345 }, { 102,-10993 }, { 103,-10993 },
+ { 104,-10993 }, { 105,-10993 }, { 106,-10993 }, { 107,-10993 }, { 108,-10993 },
+
+ { 109,-10993 }, { 110,-10993 }, { 111,-10993 }, { 112,-10993 }, { 113,-10993 },
+ { 114,-10993 }, { 115,-10993 }, { 116,-10993 }, { 117,-10993 }, { 118,-10993 },
+ { 119,-10993 }, { 120,-10993 }, { 121,-10993 }, { 122,-10993 }, {   0,   0 },
+ { 124,-11018 }, { 125,-11018 }, { 126,-11018 }, { 127,-10993 }, { 128,-10993 },
+ { 129,-10993 }, { 130,-10993 }, { 131,-10993 }, { 132,-10993 }, { 133,-10993 },
+ { 134,-10993 }, { 135,-10993 }, { 136,-10993 }, { 137,-10993 }, { 138,-10993 },
+ { 139,-10993 }, { 140,-10993 }, { 141,-10993 }, { 142,-10993 }, { 143,-10993 },
+ { 144,-10993 }, { 145,-10993 }, { 146,-10993 }, { 147,-10993 }, { 148,-10993 },
+ { 149,-10993 }, { 150,-10993 }, { 151,-10993 }, { 152,-10993 }, { 153,-10993 },
+ { 154,-10993 }, { 155,-10993 }, { 156,-10993 }, { 157,-10993 }, { 158,-10993 },
+
+ { 159,-10993 }, { 160,-10993 }, { 161,-10993 }, { 162,-10993 }, { 163,-10993 },
+ { 164,-10993 }, { 165,-10993 }, { 166,-10993 }, { 167,-10993 }, { 168,-10993 },
+ { 169,-10993 }, { 170,-10993 }, { 171,-10993 }, { 172,-10993 }, { 173,-10993 },
+ { 174,-10993 }, { 175,-10993 }, { 176,-10993 }, { 177,-10993 }, { 178,-10993 },
+ { 179,-10993 }, { 180,-10993 }, { 181,-10993 }, { 182,-10993 }, { 183,-10993 },
+ { 184,-10993 }, { 185,-10993 }, { 186,-10993 }, { 187,-10993 }, { 188,-10993 },
+ { 189,-10993 }, { 190,-10993 }, { 191,-10993 }, { 192,-10993 }, { 193,-10993 },
+ { 194,-10993 }, { 195,-10993 }, { 196,-10993 }, { 197,-10993 }, { 198,-10993 },
+ { 199,-10993 }, { 200,-10993 }, { 201,-10993 }, { 202,-10993 }, { 203,-10993 },
+ { 204,-10993 }, { 205,-10993 }, { 206,-10993 }, { 207,-10993 }, { 208,-10993 },
+
+ { 209,-10993 }, { 210,-10993 }, { 211,-10993 }, { 212,-10993 }, { 213,-10993 },
+ { 214,-10993 }, { 215,-10993 }, { 216,-10993 }, { 217,-10993 }, { 218,-10993 },
+ { 219,-10993 }, { 220,-10993 }, { 221,-10993 }, { 222,-10993 }, { 223,-10993 },
+ { 224,-10993 }, { 225,-10993 }, { 226,-10993 }, { 227,-10993 }, { 228,-10993 },
+ { 229,-10993 }, { 230,-10993 }, { 231,-10993 }, { 232,-10993 }, { 233,-10993 },
+ { 234,-10993 }, { 235,-10993 }, { 236,-10993 }, { 237,-10993 }, { 238,-10993 },
+ { 239,-10993 }, { 240,-10993 }, { 241,-10993 }, { 242,-10993 }, { 243,-10993 },
+ { 244,-10993 }, { 245,-10993 }, { 246,-10993 }, { 247,-10993 }, { 248,-10993 },
+ { 249,-10993 }, { 250,-10993 }, { 251,-10993 }, { 252,-10993 }, { 253,-10993 },
+ { 254,-10993 }, { 255,-10993 }, { 256,-10993 }, {   0,   0 }, {   0, 603 },
+
+ {   0,   0 }, {   0, 601 }, {   0,   0 }, {   0, 599 }, {   0,   0 },
+ {   0, 597 }, {   0,  23 }, {   0, 595 }, {   9,   0 }, {  10,   0 },
+ {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0, 582 }, {   0,   0 }, {   0,   0 }, {   0, 579 }, {   0,   0 },
+ {   0, 577 }, {   0,  12 }, {   0, 575 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0, 550 }, {   0,  45 }, {   0, 548 },
+ {   0,   9 }, {   0, 546 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0, 516 }, {   1,-11338 }, {   2,-11338 }, {   3,-11338 },
+ {   4,-11338 }, {   5,-11338 }, {   6,-11338 }, {   7,-11338 }, {   8,-11338 },
+ {   9,-11363 }, {  10,-11363 }, {  11,-11338 }, {  12,-11338 }, {  13,-11363 },
+
+ {  14,-11338 }, {  15,-11338 }, {  16,-11338 }, {  17,-11338 }, {  18,-11338 },
+ {  19,-11338 }, {  20,-11338 }, {  21,-11338 }, {  22,-11338 }, {  23,-11338 },
+ {  24,-11338 }, {  25,-11338 }, {  26,-11338 }, {  27,-11338 }, {  28,-11338 },
+ {  29,-11338 }, {  30,-11338 }, {  31,-11338 }, {  32,-11363 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-11338 }, {   0,   0 }, { 125,-2452 },
+ { 126,   2 }, { 125,-2454 }, {  41,-11363 }, { 125,  17 }, { 126,  20 },
+ { 125,  20 }, {  45,-11338 }, {  46,-11363 }, {  47,-11363 }, {  48,-11338 },
+ {  49,-11338 }, {  50,-11338 }, {  51,-11338 }, {  52,-11338 }, {  53,-11338 },
+ {  54,-11338 }, {  55,-11338 }, {  56,-11338 }, {  57,-11338 }, {  58,-11338 },
+ { 125,   7 }, {   0,   0 }, {  61,-11363 }, { 125,  -3 }, {  63,-11338 },
+
+ { 125,  27 }, {  65,-11338 }, {  66,-11338 }, {  67,-11338 }, {  68,-11338 },
+ {  69,-11338 }, {  70,-11338 }, {  71,-11338 }, {  72,-11338 }, {  73,-11338 },
+ {  74,-11338 }, {  75,-11338 }, {  76,-11338 }, {  77,-11338 }, {  78,-11338 },
+ {  79,-11338 }, {  80,-11338 }, {  81,-11338 }, {  82,-11338 }, {  83,-11338 },
+ {  84,-11338 }, {  85,-11338 }, {  86,-11338 }, {  87,-11338 }, {  88,-11338 },
+ {  89,-11338 }, {  90,-11338 }, { 125,   4 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-11338 }, {   0,   0 }, {  97,-11338 }, {  98,-11338 },
+ {  99,-11338 }, { 100, 258 }, { 101,-11338 }, { 102,-11338 }, { 103,-11338 },
+ { 104,-11338 }, { 105,-11338 }, { 106,-11338 }, { 107,-11338 }, { 108,-11338 },
+ { 109,-11338 }, { 110,-11338 }, { 111,-11338 }, { 112,-11338 }, { 113,-11338 },
+
+ { 114,-11338 }, { 115,-11338 }, { 116,-11338 }, { 117,-11338 }, { 118,-11338 },
+ { 119,-11338 }, { 120,-11338 }, { 121,-11338 }, { 122,-11338 }, {   0,   0 },
+ { 124,-11363 }, { 125,-11363 }, { 126,-11363 }, { 127,-11338 }, { 128,-11338 },
+ { 129,-11338 }, { 130,-11338 }, { 131,-11338 }, { 132,-11338 }, { 133,-11338 },
+ { 134,-11338 }, { 135,-11338 }, { 136,-11338 }, { 137,-11338 }, { 138,-11338 },
+ { 139,-11338 }, { 140,-11338 }, { 141,-11338 }, { 142,-11338 }, { 143,-11338 },
+ { 144,-11338 }, { 145,-11338 }, { 146,-11338 }, { 147,-11338 }, { 148,-11338 },
+ { 149,-11338 }, { 150,-11338 }, { 151,-11338 }, { 152,-11338 }, { 153,-11338 },
+ { 154,-11338 }, { 155,-11338 }, { 156,-11338 }, { 157,-11338 }, { 158,-11338 },
+ { 159,-11338 }, { 160,-11338 }, { 161,-11338 }, { 162,-11338 }, { 163,-11338 },
+
+ { 164,-11338 }, { 165,-11338 }, { 166,-11338 }, { 167,-11338 }, { 168,-11338 },
+ { 169,-11338 }, { 170,-11338 }, { 171,-11338 }, { 172,-11338 }, { 173,-11338 },
+ { 174,-11338 }, { 175,-11338 }, { 176,-11338 }, { 177,-11338 }, { 178,-11338 },
+ { 179,-11338 }, { 180,-11338 }, { 181,-11338 }, { 182,-11338 }, { 183,-11338 },
+ { 184,-11338 }, { 185,-11338 }, { 186,-11338 }, { 187,-11338 }, { 188,-11338 },
+ { 189,-11338 }, { 190,-11338 }, { 191,-11338 }, { 192,-11338 }, { 193,-11338 },
+ { 194,-11338 }, { 195,-11338 }, { 196,-11338 }, { 197,-11338 }, { 198,-11338 },
+ { 199,-11338 }, { 200,-11338 }, { 201,-11338 }, { 202,-11338 }, { 203,-11338 },
+ { 204,-11338 }, { 205,-11338 }, { 206,-11338 }, { 207,-11338 }, { 208,-11338 },
+ { 209,-11338 }, { 210,-11338 }, { 211,-11338 }, { 212,-11338 }, { 213,-11338 },
+
+ { 214,-11338 }, { 215,-11338 }, { 216,-11338 }, { 217,-11338 }, { 218,-11338 },
+ { 219,-11338 }, { 220,-11338 }, { 221,-11338 }, { 222,-11338 }, { 223,-11338 },
+ { 224,-11338 }, { 225,-11338 }, { 226,-11338 }, { 227,-11338 }, { 228,-11338 },
+ { 229,-11338 }, { 230,-11338 }, { 231,-11338 }, { 232,-11338 }, { 233,-11338 },
+ { 234,-11338 }, { 235,-11338 }, { 236,-11338 }, { 237,-11338 }, { 238,-11338 },
+ { 239,-11338 }, { 240,-11338 }, { 241,-11338 }, { 242,-11338 }, { 243,-11338 },
+ { 244,-11338 }, { 245,-11338 }, { 246,-11338 }, { 247,-11338 }, { 248,-11338 },
+ { 249,-11338 }, { 250,-11338 }, { 251,-11338 }, { 252,-11338 }, { 253,-11338 },
+ { 254,-11338 }, { 255,-11338 }, { 256,-11338 }, {   0,   0 }, {   0, 258 },
+ {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
+
+ {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,-290 }, {  10,-290 },
+ {  11,-11596 }, {  12,-11596 }, {  13,-290 }, {  14,-11596 }, {  15,-11596 },
+ {  16,-11596 }, {  17,-11596 }, {  18,-11596 }, {  19,-11596 }, {  20,-11596 },
+ {  21,-11596 }, {  22,-11596 }, {  23,-11596 }, {  24,-11596 }, {  25,-11596 },
+ {  26,-11596 }, {  27,-11596 }, {  28,-11596 }, {  29,-11596 }, {  30,-11596 },
+ {  31,-11596 }, {  32,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-11596 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11596 },
+ {  46,-11621 }, {  47,-11621 }, {  48,-11596 }, {  49,-11596 }, {  50,-11596 },
+ {  51,-11596 }, {  52,-11596 }, {  53,-11596 }, {  54,-11596 }, {  55,-11596 },
+
+ {  56,-11596 }, {  57,-11596 }, {  58,-11596 }, {   0,   0 }, {   0,   0 },
+ {  61,-11621 }, {   0,   0 }, {  63,-11596 }, {   0,   0 }, {  65,-11596 },
+ {  66,-11596 }, {  67,-11596 }, {  68,-11596 }, {  69,-11596 }, {  70,-11596 },
+ {  71,-11596 }, {  72,-11596 }, {  73,-11596 }, {  74,-11596 }, {  75,-11596 },
+ {  76,-11596 }, {  77,-11596 }, {  78,-11596 }, {  79,-11596 }, {  80,-11596 },
+ {  81,-11596 }, {  82,-11596 }, {  83,-11596 }, {  84,-11596 }, {  85,-11596 },
+ {  86,-11596 }, {  87,-11596 }, {  88,-11596 }, {  89,-11596 }, {  90,-11596 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11596 },
+ {   0,   0 }, {  97,-11596 }, {  98,-11596 }, {  99,-11596 }, { 100,-11596 },
+ { 101,-11596 }, { 102,-11596 }, { 103,-11596 }, { 104,-11596 }, { 105,-11596 },
+
+ { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
+ { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
+ { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
+ { 121,-11596 }, { 122,-11596 }, {   0,   0 }, { 124,-11621 }, { 125,-290 },
+ { 126,-290 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
+ { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
+ { 136,-11596 }, { 137,-11596 }, { 138,-11596 }, { 139,-11596 }, { 140,-11596 },
+ { 141,-11596 }, { 142,-11596 }, { 143,-11596 }, { 144,-11596 }, { 145,-11596 },
+ { 146,-11596 }, { 147,-11596 }, { 148,-11596 }, { 149,-11596 }, { 150,-11596 },
+ { 151,-11596 }, { 152,-11596 }, { 153,-11596 }, { 154,-11596 }, { 155,-11596 },
+
+ { 156,-11596 }, { 157,-11596 }, { 158,-11596 }, { 159,-11596 }, { 160,-11596 },
+ { 161,-11596 }, { 162,-11596 }, { 163,-11596 }, { 164,-11596 }, { 165,-11596 },
+ { 166,-11596 }, { 167,-11596 }, { 168,-11596 }, { 169,-11596 }, { 170,-11596 },
+ { 171,-11596 }, { 172,-11596 }, { 173,-11596 }, { 174,-11596 }, { 175,-11596 },
+ { 176,-11596 }, { 177,-11596 }, { 178,-11596 }, { 179,-11596 }, { 180,-11596 },
+ { 181,-11596 }, { 182,-11596 }, { 183,-11596 }, { 184,-11596 }, { 185,-11596 },
+ { 186,-11596 }, { 187,-11596 }, { 188,-11596 }, { 189,-11596 }, { 190,-11596 },
+ { 191,-11596 }, { 192,-11596 }, { 193,-11596 }, { 194,-11596 }, { 195,-11596 },
+ { 196,-11596 }, { 197,-11596 }, { 198,-11596 }, { 199,-11596 }, { 200,-11596 },
+ { 201,-11596 }, { 202,-11596 }, { 203,-11596 }, { 204,-11596 }, { 205,-11596 },
+
+ { 206,-11596 }, { 207,-11596 }, { 208,-11596 }, { 209,-11596 }, { 210,-11596 },
+ { 211,-11596 }, { 212,-11596 }, { 213,-11596 }, { 214,-11596 }, { 215,-11596 },
+ { 216,-11596 }, { 217,-11596 }, { 218,-11596 }, { 219,-11596 }, { 220,-11596 },
+ { 221,-11596 }, { 222,-11596 }, { 223,-11596 }, { 224,-11596 }, { 225,-11596 },
+ { 226,-11596 }, { 227,-11596 }, { 228,-11596 }, { 229,-11596 }, { 230,-11596 },
+ { 231,-11596 }, { 232,-11596 }, { 233,-11596 }, { 234,-11596 }, { 235,-11596 },
+ { 236,-11596 }, { 237,-11596 }, { 238,-11596 }, { 239,-11596 }, { 240,-11596 },
+ { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
+ { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
+ { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
+
+ { 256,-11596 }, { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4998,7 +4959,7 @@ static const struct yy_trans_info *yy_start_state_list[13] =
 static const flex_int32_t yy_rule_can_match_eol[52] =
     {   0,
 1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
+    0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
     0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
@@ -5101,9 +5062,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5104 "handlebars.lex.c"
+#line 5066 "handlebars.lex.c"
 
-#line 5106 "handlebars.lex.c"
+#line 5068 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5386,7 +5347,7 @@ YY_DECL
 
 
 
-#line 5389 "handlebars.lex.c"
+#line 5351 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5673,6 +5634,7 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 22:
+/* rule 22 can match eol */
 YY_RULE_SETUP
 #line 288 "handlebars.l"
 {
@@ -5703,6 +5665,7 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
 #line 308 "handlebars.l"
 {
@@ -6006,7 +5969,7 @@ YY_RULE_SETUP
 #line 483 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6009 "handlebars.lex.c"
+#line 5973 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index e85c698..f0d06e3 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -2,9 +2,9 @@
 #define handlebars_yy_HEADER_H 1
 #define handlebars_yy_IN_HEADER 1
 
-#line 5 "handlebars.lex.h"
+#line 6 "handlebars.lex.h"
 
-#line 7 "handlebars.lex.h"
+#line 8 "handlebars.lex.h"
 
 #define  YY_INT_ALIGNED long int
 
@@ -736,6 +736,6 @@ extern int yylex \
 #line 483 "handlebars.l"
 
 
-#line 739 "handlebars.lex.h"
+#line 740 "handlebars.lex.h"
 #undef handlebars_yy_IN_HEADER
 #endif /* handlebars_yy_HEADER_H */
-- 
2.43.0


From de6057d885b8fde4d25bbbbca2086d3716a69008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 02/98] fix: an identifier that starts with else is not an else
 tag

{{elsewhere}} was tokenised as {{else followed by where.
---
 src/handlebars.l     |   2 +-
 src/handlebars.lex.c | 978 +++++++++++++++++++++++--------------------
 2 files changed, 515 insertions(+), 465 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 0c6e68e..6e1ebc3 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -305,7 +305,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"/[^0-9A-Za-z_]   	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index ae79a18..fe19bfa 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[19957] =
+static const struct yy_trans_info yy_transition[20169] =
     {
- {   0,   0 }, {   0,19701 }, {   0,   2 }, {   0,19699 }, {   1,3096 },
+ {   0,   0 }, {   0,19913 }, {   0,   2 }, {   0,19911 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19441 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,19653 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19183 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19395 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,18925 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,19137 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18667 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,18879 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18409 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18621 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18151 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,18363 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,17893 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18105 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17635 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,17847 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17377 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,17589 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17119 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17331 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,16861 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,17073 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16603 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16815 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[19957] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16346 }, {   0,   6 }, {   0,16344 }, {   0,   6 },
- {   0,16342 }, {   0,  51 }, {   0,16340 }, {   0,  35 }, {   0,16338 },
+ {   0,   2 }, {   0,16558 }, {   0,   6 }, {   0,16556 }, {   0,   6 },
+ {   0,16554 }, {   0,  51 }, {   0,16552 }, {   0,  35 }, {   0,16550 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16331 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16326 }, {  13,4742 }, {   0,  14 }, {   0,16323 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16319 }, {  13,4735 },
- {   0,  34 }, {   0,16316 }, {   0,  31 }, {   0,16314 }, {   0,  40 },
- {   0,16312 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,16543 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,16538 }, {  13,4742 }, {   0,  14 }, {   0,16535 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16531 }, {  13,4735 },
+ {   0,  34 }, {   0,16528 }, {   0,  31 }, {   0,16526 }, {   0,  40 },
+ {   0,16524 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16217 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,16429 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,15960 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,16172 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15702 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,15914 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15444 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15656 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15186 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,15398 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,14928 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15140 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,14910 }, {   0,  42 }, {   0,14908 },
+ {   0,   0 }, {   0,  50 }, {   0,15122 }, {   0,  42 }, {   0,15120 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,14879 }, {   0,  50 },
- {   0,14877 }, {   0,   7 }, {   0,14875 }, {   0,  51 }, {   0,14873 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15091 }, {   0,  50 },
+ {   0,15089 }, {   0,   7 }, {   0,15087 }, {   0,  51 }, {   0,15085 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,14846 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,15058 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14588 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14800 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14330 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,14542 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14072 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,14284 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13814 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,14026 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13556 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,13768 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13298 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13510 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13040 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,13252 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12782 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,12994 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12524 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12736 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12267 }, {   0,   2 }, {   0,12265 }, {   0,   0 }, {   0,12263 },
+ {   0,12479 }, {   0,   2 }, {   0,12477 }, {   0,   0 }, {   0,12475 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12142 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12354 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,11885 }, {   0,   0 }, {   0,11883 },
- {   0,   5 }, {   0,11881 }, {   0,  48 }, {   0,11879 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,12097 }, {   0,   0 }, {   0,12095 },
+ {   0,   5 }, {   0,12093 }, {   0,  48 }, {   0,12091 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,11854 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12066 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11596 }, {   0,  38 }, {   0,11594 }, {   0,  39 },
- {   0,11592 }, {   0,  33 }, {   0,11590 }, {   0,  32 }, {   0,11588 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11584 }, {  13,   0 },
- {   0,  49 }, {   0,11581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,11808 }, {   0,  38 }, {   0,11806 }, {   0,  39 },
+ {   0,11804 }, {   0,  33 }, {   0,11802 }, {   0,  32 }, {   0,11800 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11796 }, {  13,   0 },
+ {   0,  49 }, {   0,11793 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11562 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,11774 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11304 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11516 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11046 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,11258 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10788 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11000 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10530 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,10742 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10272 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,10484 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10213 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10425 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,9955 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,10167 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9697 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,9909 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9439 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9651 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9181 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,9393 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,8923 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9135 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8665 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,8877 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,10 +3085,10 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8407 }, {   0,  37 }, {   0,8405 }, {   0,   0 }, {   0,8403 },
+ {   0,8619 }, {   0,  37 }, {   0,8617 }, {   0,   0 }, {   0,8615 },
 
- {   0,   0 }, {   0,8401 }, {   0,   0 }, {   0,8399 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8395 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,8613 }, {   0,   0 }, {   0,8611 }, {   9,3229 },
+ {  10,3229 }, {   0,  13 }, {   0,8607 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3115,7 +3115,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
  {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
  {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3250 },
- {   0,   0 }, {   0,8271 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,8483 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8013 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8225 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7755 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,7967 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,9 +3285,9 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7498 },
- {   0,   0 }, {   0,7496 }, {   0,   0 }, {   0,7494 }, {   0,   5 },
- {   0,7492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7710 },
+ {   0,   0 }, {   0,7708 }, {   0,   0 }, {   0,7706 }, {   0,   5 },
+ {   0,7704 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3307,13 +3307,13 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7401 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  48 }, {   0,7613 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,2351 }, {   0,   0 }, { 123,2354 },
- {   0,   0 }, { 123,2354 }, {   0,   4 }, {   0,7369 }, {   1,2354 },
+ {   0,   0 }, { 123,2354 }, {   0,   4 }, {   0,7581 }, {   1,2354 },
  {   2,2354 }, {   3,2354 }, {   4,2354 }, {   5,2354 }, {   6,2354 },
  {   7,2354 }, {   8,2354 }, {   9,2354 }, {  10,2239 }, {  11,2354 },
  {  12,2354 }, {  13,2239 }, {  14,2354 }, {  15,2354 }, {  16,2354 },
@@ -3370,7 +3370,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,2354 }, { 243,2354 }, { 244,2354 }, { 245,2354 }, { 246,2354 },
  { 247,2354 }, { 248,2354 }, { 249,2354 }, { 250,2354 }, { 251,2354 },
  { 252,2354 }, { 253,2354 }, { 254,2354 }, { 255,2354 }, {   0,  38 },
- {   0,7112 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ {   0,7324 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,6854 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7066 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,10 +3484,10 @@ static const struct yy_trans_info yy_transition[19957] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6596 }, {   0,  29 }, {   0,6594 }, {   0,  20 },
- {   0,6592 }, {   0,  27 }, {   0,6590 }, {   0,  30 }, {   0,6588 },
- {   9,1470 }, {  10,1470 }, {   0,  21 }, {   0,6584 }, {  13,1470 },
- {   0,  18 }, {   0,6581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6808 }, {   0,  29 }, {   0,6806 }, {   0,  20 },
+ {   0,6804 }, {   0,  27 }, {   0,6802 }, {   0,  30 }, {   0,6800 },
+ {   9,1470 }, {  10,1470 }, {   0,  21 }, {   0,6796 }, {  13,1470 },
+ {   0,  18 }, {   0,6793 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1470 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1470 }, { 126,1470 }, {   0,  49 }, {   0,6468 },
+ {   0,   0 }, { 125,1470 }, { 126,1470 }, {   0,  49 }, {   0,6680 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,7 +3568,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6210 }, {   1,-5644 }, {   2,-5644 },
+ { 256,-3745 }, {   0,   0 }, {   0,6422 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
 
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
@@ -3626,7 +3626,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
 
- {   0,5952 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
+ {   0,6164 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
@@ -3682,7 +3682,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
 
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5694 }, {   1,-6160 },
+ { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5906 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
@@ -3739,7 +3739,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5436 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
+ {   0,   0 }, {   0,5648 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
@@ -3795,22 +3795,22 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5178 },
- {   0,  24 }, {   0,5176 }, {   0,   0 }, {   0,5174 }, {   0,  26 },
- {   0,5172 }, {   0,  30 }, {   0,5170 }, {   9,   0 }, {  10,   0 },
+ { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5390 },
+ {   0,  24 }, {   0,5388 }, {   0,   0 }, {   0,5386 }, {   0,  26 },
+ {   0,5384 }, {   0,  30 }, {   0,5382 }, {   9,   0 }, {  10,   0 },
  {   9,1707 }, {  10,1707 }, {  13,   0 }, {   0,   0 }, {  13,1707 },
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,5158 },
- {  13,  -8 }, {   0,   0 }, {   0,5155 }, {   0,  37 }, {   0,5153 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,5370 },
+ {  13,  -8 }, {   0,   0 }, {   0,5367 }, {   0,  37 }, {   0,5365 },
 
- {   0,   0 }, {   0,5151 }, {   0,   0 }, {   0,5149 }, {   0,   0 },
- {   0,5147 }, {  32,   0 }, {   0,   0 }, {  32,1707 }, {   0,   0 },
- {   0,5142 }, {   0,   1 }, {   0,5140 }, {   0,   0 }, {  32,  -8 },
+ {   0,   0 }, {   0,5363 }, {   0,   0 }, {   0,5361 }, {   0,   0 },
+ {   0,5359 }, {  32,   0 }, {   0,   0 }, {  32,1707 }, {   0,   0 },
+ {   0,5354 }, {   0,   1 }, {   0,5352 }, {   0,   0 }, {  32,  -8 },
  {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
- {  38,-1420 }, {   0,   4 }, {   0,5130 }, {   0,   0 }, {  42,-1418 },
- {   0,  47 }, {   0,5126 }, {   0,  41 }, {   0,5124 }, {  47,-1414 },
- {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,5118 },
- {  13,   0 }, {  33,  -2 }, {   0,  20 }, {   0,5114 }, {   0,  19 },
- {   0,5112 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
+ {  38,-1420 }, {   0,   4 }, {   0,5342 }, {   0,   0 }, {  42,-1418 },
+ {   0,  47 }, {   0,5338 }, {   0,  41 }, {   0,5336 }, {  47,-1414 },
+ {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,5330 },
+ {  13,   0 }, {  33,  -2 }, {   0,  20 }, {   0,5326 }, {   0,  19 },
+ {   0,5324 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
  {   0,   0 }, {  45,1701 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3831,7 +3831,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {   0,   0 }, { 125,1703 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2062 }, {   0,   0 },
- { 123,2062 }, {   0,   4 }, {   0,5015 }, {   1,   0 }, {   2,   0 },
+ { 123,2062 }, {   0,   4 }, {   0,5227 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,-115 }, {  11,   0 }, {  12,   0 },
 
@@ -3887,7 +3887,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,4758 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,4970 },
  {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
 
  {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-372 },
@@ -3945,7 +3945,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
  { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
 
- {   0,   0 }, {   0,4501 }, {   1,-7353 }, {   2,-7353 }, {   3,-7353 },
+ {   0,   0 }, {   0,4713 }, {   1,-7353 }, {   2,-7353 }, {   3,-7353 },
  {   4,-7353 }, {   5,-7353 }, {   6,-7353 }, {   7,-7353 }, {   8,-7353 },
  {   9,-7378 }, {  10,-7378 }, {  11,-7353 }, {  12,-7353 }, {  13,-7378 },
  {  14,-7353 }, {  15,-7353 }, {  16,-7353 }, {  17,-7353 }, {  18,-7353 },
@@ -4001,7 +4001,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 244,-7353 }, { 245,-7353 }, { 246,-7353 }, { 247,-7353 }, { 248,-7353 },
 
  { 249,-7353 }, { 250,-7353 }, { 251,-7353 }, { 252,-7353 }, { 253,-7353 },
- { 254,-7353 }, { 255,-7353 }, { 256,-7353 }, {   0,   0 }, {   0,4243 },
+ { 254,-7353 }, { 255,-7353 }, { 256,-7353 }, {   0,   0 }, {   0,4455 },
  {   1,-7611 }, {   2,-7611 }, {   3,-7611 }, {   4,-7611 }, {   5,-7611 },
  {   6,-7611 }, {   7,-7611 }, {   8,-7611 }, {   9,1167 }, {  10,1167 },
  {  11,-7611 }, {  12,-7611 }, {  13,1167 }, {  14,-7611 }, {  15,-7611 },
@@ -4058,7 +4058,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241,-7611 }, { 242,-7611 }, { 243,-7611 }, { 244,-7611 }, { 245,-7611 },
  { 246,-7611 }, { 247,-7611 }, { 248,-7611 }, { 249,-7611 }, { 250,-7611 },
  { 251,-7611 }, { 252,-7611 }, { 253,-7611 }, { 254,-7611 }, { 255,-7611 },
- { 256,-7611 }, {   0,   0 }, {   0,3985 }, {   1,-7869 }, {   2,-7869 },
+ { 256,-7611 }, {   0,   0 }, {   0,4197 }, {   1,-7869 }, {   2,-7869 },
  {   3,-7869 }, {   4,-7869 }, {   5,-7869 }, {   6,-7869 }, {   7,-7869 },
  {   8,-7869 }, {   9, 911 }, {  10, 911 }, {  11,-7869 }, {  12,-7869 },
  {  13, 911 }, {  14,-7869 }, {  15,-7869 }, {  16,-7869 }, {  17,-7869 },
@@ -4115,7 +4115,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,-7869 }, { 244,-7869 }, { 245,-7869 }, { 246,-7869 }, { 247,-7869 },
  { 248,-7869 }, { 249,-7869 }, { 250,-7869 }, { 251,-7869 }, { 252,-7869 },
  { 253,-7869 }, { 254,-7869 }, { 255,-7869 }, { 256,-7869 }, {   0,   0 },
- {   0,3727 }, {   1,-8127 }, {   2,-8127 }, {   3,-8127 }, {   4,-8127 },
+ {   0,3939 }, {   1,-8127 }, {   2,-8127 }, {   3,-8127 }, {   4,-8127 },
  {   5,-8127 }, {   6,-8127 }, {   7,-8127 }, {   8,-8127 }, {   9,-8152 },
  {  10,-8152 }, {  11,-8127 }, {  12,-8127 }, {  13,-8152 }, {  14,-8127 },
  {  15,-8127 }, {  16,-8127 }, {  17,-8127 }, {  18,-8127 }, {  19,-8127 },
@@ -4171,12 +4171,12 @@ static const struct yy_trans_info yy_transition[19957] =
  { 240,-8127 }, { 241,-8127 }, { 242,-8127 }, { 243,-8127 }, { 244,-8127 },
  { 245,-8127 }, { 246,-8127 }, { 247,-8127 }, { 248,-8127 }, { 249,-8127 },
  { 250,-8127 }, { 251,-8127 }, { 252,-8127 }, { 253,-8127 }, { 254,-8127 },
- { 255,-8127 }, { 256,-8127 }, {   0,   0 }, {   0,3469 }, {   0,   0 },
- {   0,3467 }, {   0,   0 }, {   0,3465 }, {   0,   0 }, {   0,3463 },
- {   0,  16 }, {   0,3461 }, {   9,   0 }, {  10,   0 }, {   0,  26 },
- {   0,3457 }, {  13,   0 }, {   0,  17 }, {   0,3454 }, {   0,  36 },
+ { 255,-8127 }, { 256,-8127 }, {   0,   0 }, {   0,3681 }, {   0,   0 },
+ {   0,3679 }, {   0,   0 }, {   0,3677 }, {   0,   0 }, {   0,3675 },
+ {   0,  16 }, {   0,3673 }, {   9,   0 }, {  10,   0 }, {   0,  26 },
+ {   0,3669 }, {  13,   0 }, {   0,  17 }, {   0,3666 }, {   0,  36 },
 
- {   0,3452 }, {   0,   0 }, {   0,3450 }, {   0,   0 }, {   0,   0 },
+ {   0,3664 }, {   0,   0 }, {   0,3662 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4200,7 +4200,7 @@ static const struct yy_trans_info yy_transition[19957] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115, 400 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 }, { 126,   4 },
- { 125, 397 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,3338 },
+ { 125, 397 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,3550 },
  {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
  {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
  {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
@@ -4257,12 +4257,12 @@ static const struct yy_trans_info yy_transition[19957] =
  { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
  { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
  { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
- { 256, 277 }, {   0,   1 }, {   0,3080 }, {   0,   1 }, {   0,3078 },
- {   0,  46 }, {   0,3076 }, {   0,  43 }, {   0,3074 }, {   0,  28 },
- {   0,3072 }, {   0,  22 }, {   0,3070 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3063 },
- {   0,   8 }, {   0,3061 }, {   0,   1 }, {   0,3059 }, {   0,  44 },
- {   0,3057 }, {   0,   0 }, {   0,3055 }, {   0,   0 }, {   0,3053 },
+ { 256, 277 }, {   0,   1 }, {   0,3292 }, {   0,   1 }, {   0,3290 },
+ {   0,  46 }, {   0,3288 }, {   0,  43 }, {   0,3286 }, {   0,  28 },
+ {   0,3284 }, {   0,  22 }, {   0,3282 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3275 },
+ {   0,   8 }, {   0,3273 }, {   0,   1 }, {   0,3271 }, {   0,  44 },
+ {   0,3269 }, {   0,  25 }, {   0,3267 }, {   0,   0 }, {   0,3265 },
 
  {   1,-8801 }, {   2,-8801 }, {   3,-8801 }, {   4,-8801 }, {   5,-8801 },
  {   6,-8801 }, {   7,-8801 }, {   8,-8801 }, {   9,  -4 }, {  10,  -4 },
@@ -4290,7 +4290,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 106,-8801 }, { 107,-8801 }, { 108,-8801 }, { 109,-8801 }, { 110,-8801 },
  { 111,-8801 }, { 112,-8801 }, { 113,-8801 }, { 114,-8801 }, { 115,-8801 },
  { 116,-8801 }, { 117,-8801 }, { 118,-8801 }, { 119,-8801 }, { 120,-8801 },
- { 121,-8801 }, { 122,-8801 }, { 125,2460 }, { 124,-8826 }, { 125,  -4 },
+ { 121,-8801 }, { 122,-8801 }, {   0,   0 }, { 124,-8826 }, { 125,  -4 },
  { 126,  -4 }, { 127,-8801 }, { 128,-8801 }, { 129,-8801 }, { 130,-8801 },
  { 131,-8801 }, { 132,-8801 }, { 133,-8801 }, { 134,-8801 }, { 135,-8801 },
  { 136,-8801 }, { 137,-8801 }, { 138,-8801 }, { 139,-8801 }, { 140,-8801 },
@@ -4320,7 +4320,7 @@ static const struct yy_trans_info yy_transition[19957] =
  { 246,-8801 }, { 247,-8801 }, { 248,-8801 }, { 249,-8801 }, { 250,-8801 },
 
  { 251,-8801 }, { 252,-8801 }, { 253,-8801 }, { 254,-8801 }, { 255,-8801 },
- { 256,-8801 }, {   0,   0 }, {   0,2795 }, {   1,-9059 }, {   2,-9059 },
+ { 256,-8801 }, {   0,   0 }, {   0,3007 }, {   1,-9059 }, {   2,-9059 },
  {   3,-9059 }, {   4,-9059 }, {   5,-9059 }, {   6,-9059 }, {   7,-9059 },
  {   8,-9059 }, {   9,-9084 }, {  10,-9084 }, {  11,-9059 }, {  12,-9059 },
  {  13,-9084 }, {  14,-9059 }, {  15,-9059 }, {  16,-9059 }, {  17,-9059 },
@@ -4377,120 +4377,120 @@ static const struct yy_trans_info yy_transition[19957] =
  { 243,-9059 }, { 244,-9059 }, { 245,-9059 }, { 246,-9059 }, { 247,-9059 },
  { 248,-9059 }, { 249,-9059 }, { 250,-9059 }, { 251,-9059 }, { 252,-9059 },
  { 253,-9059 }, { 254,-9059 }, { 255,-9059 }, { 256,-9059 }, {   0,   0 },
- {   0,2537 }, {   1, 902 }, {   2, 902 }, {   3, 902 }, {   4, 902 },
- {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 }, {   9, 902 },
- {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 }, {  14, 902 },
- {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 }, {  19, 902 },
- {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 }, {  24, 902 },
- {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 }, {  29, 902 },
- {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 }, {  34, 902 },
-
- {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 }, {  39, 902 },
- {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 }, {  44, 902 },
- {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 }, {  49, 902 },
- {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 }, {  54, 902 },
- {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 }, {  59, 902 },
- {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 }, {  64, 902 },
- {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 }, {  69, 902 },
- {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 }, {  74, 902 },
- {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 }, {  79, 902 },
- {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 }, {  84, 902 },
-
- {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 }, {  89, 902 },
- {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 }, {  94, 902 },
- {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 }, {  99, 902 },
- { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 }, { 104, 902 },
- { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 }, { 109, 902 },
- { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 }, { 114, 902 },
- { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 }, { 119, 902 },
- { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 }, { 124, 902 },
- { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 }, { 129, 902 },
- { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 }, { 134, 902 },
-
- { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 }, { 139, 902 },
- { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 }, { 144, 902 },
- { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 }, { 149, 902 },
- { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 }, { 154, 902 },
- { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 }, { 159, 902 },
- { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 }, { 164, 902 },
- { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 }, { 169, 902 },
- { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 }, { 174, 902 },
- { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 }, { 179, 902 },
- { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 }, { 184, 902 },
-
- { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 }, { 189, 902 },
- { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 }, { 194, 902 },
- { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 }, { 199, 902 },
- { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 }, { 204, 902 },
- { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 }, { 209, 902 },
- { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 }, { 214, 902 },
- { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 }, { 219, 902 },
- { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 }, { 224, 902 },
- { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 }, { 229, 902 },
- { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 }, { 234, 902 },
-
- { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 }, { 239, 902 },
- { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 }, { 244, 902 },
- { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 }, { 249, 902 },
- { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 }, { 254, 902 },
- { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2279 }, {   1,1160 },
- {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 },
- {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 },
- {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 },
- {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 },
- {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 },
-
- {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 },
- {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 },
- {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 },
- {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 },
- {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 },
- {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 },
-
- {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 },
- {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 },
- {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 },
- {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 },
- { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 },
- { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 },
- { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 },
- { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 },
- { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 },
- { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 },
- { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 },
- { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 },
- { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 },
- { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 },
- { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 },
- { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 },
- { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 },
- { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 },
-
- { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 },
- { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 },
- { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 },
- { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 },
- { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 },
- { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 },
- { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 },
- { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 },
- { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 },
- { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 },
-
- { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 },
- { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 },
- { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 },
- { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 },
- { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 },
- { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 },
- {   0,   0 }, {   0,2021 }, {   1,-9833 }, {   2,-9833 }, {   3,-9833 },
+ {   0,2749 }, {   1,1032 }, {   2,1032 }, {   3,1032 }, {   4,1032 },
+ {   5,1032 }, {   6,1032 }, {   7,1032 }, {   8,1032 }, {   9,1032 },
+ {  10,1032 }, {  11,1032 }, {  12,1032 }, {  13,1032 }, {  14,1032 },
+ {  15,1032 }, {  16,1032 }, {  17,1032 }, {  18,1032 }, {  19,1032 },
+ {  20,1032 }, {  21,1032 }, {  22,1032 }, {  23,1032 }, {  24,1032 },
+ {  25,1032 }, {  26,1032 }, {  27,1032 }, {  28,1032 }, {  29,1032 },
+ {  30,1032 }, {  31,1032 }, {  32,1032 }, {  33,1032 }, {  34,1032 },
+
+ {  35,1032 }, {  36,1032 }, {  37,1032 }, {  38,1032 }, {  39,1032 },
+ {  40,1032 }, {  41,1032 }, {  42,1032 }, {  43,1032 }, {  44,1032 },
+ {  45,1290 }, {  46,1032 }, {  47,1032 }, {  48,1032 }, {  49,1032 },
+ {  50,1032 }, {  51,1032 }, {  52,1032 }, {  53,1032 }, {  54,1032 },
+ {  55,1032 }, {  56,1032 }, {  57,1032 }, {  58,1032 }, {  59,1032 },
+ {  60,1032 }, {  61,1032 }, {  62,1032 }, {  63,1032 }, {  64,1032 },
+ {  65,1032 }, {  66,1032 }, {  67,1032 }, {  68,1032 }, {  69,1032 },
+ {  70,1032 }, {  71,1032 }, {  72,1032 }, {  73,1032 }, {  74,1032 },
+ {  75,1032 }, {  76,1032 }, {  77,1032 }, {  78,1032 }, {  79,1032 },
+ {  80,1032 }, {  81,1032 }, {  82,1032 }, {  83,1032 }, {  84,1032 },
+
+ {  85,1032 }, {  86,1032 }, {  87,1032 }, {  88,1032 }, {  89,1032 },
+ {  90,1032 }, {  91,1032 }, {  92,1032 }, {  93,1032 }, {  94,1032 },
+ {  95,1032 }, {  96,1032 }, {  97,1032 }, {  98,1032 }, {  99,1032 },
+ { 100,1032 }, { 101,1032 }, { 102,1032 }, { 103,1032 }, { 104,1032 },
+ { 105,1032 }, { 106,1032 }, { 107,1032 }, { 108,1032 }, { 109,1032 },
+ { 110,1032 }, { 111,1032 }, { 112,1032 }, { 113,1032 }, { 114,1032 },
+ { 115,1032 }, { 116,1032 }, { 117,1032 }, { 118,1032 }, { 119,1032 },
+ { 120,1032 }, { 121,1032 }, { 122,1032 }, { 123,1032 }, { 124,1032 },
+ { 125,1032 }, { 126,1032 }, { 127,1032 }, { 128,1032 }, { 129,1032 },
+ { 130,1032 }, { 131,1032 }, { 132,1032 }, { 133,1032 }, { 134,1032 },
+
+ { 135,1032 }, { 136,1032 }, { 137,1032 }, { 138,1032 }, { 139,1032 },
+ { 140,1032 }, { 141,1032 }, { 142,1032 }, { 143,1032 }, { 144,1032 },
+ { 145,1032 }, { 146,1032 }, { 147,1032 }, { 148,1032 }, { 149,1032 },
+ { 150,1032 }, { 151,1032 }, { 152,1032 }, { 153,1032 }, { 154,1032 },
+ { 155,1032 }, { 156,1032 }, { 157,1032 }, { 158,1032 }, { 159,1032 },
+ { 160,1032 }, { 161,1032 }, { 162,1032 }, { 163,1032 }, { 164,1032 },
+ { 165,1032 }, { 166,1032 }, { 167,1032 }, { 168,1032 }, { 169,1032 },
+ { 170,1032 }, { 171,1032 }, { 172,1032 }, { 173,1032 }, { 174,1032 },
+ { 175,1032 }, { 176,1032 }, { 177,1032 }, { 178,1032 }, { 179,1032 },
+ { 180,1032 }, { 181,1032 }, { 182,1032 }, { 183,1032 }, { 184,1032 },
+
+ { 185,1032 }, { 186,1032 }, { 187,1032 }, { 188,1032 }, { 189,1032 },
+ { 190,1032 }, { 191,1032 }, { 192,1032 }, { 193,1032 }, { 194,1032 },
+ { 195,1032 }, { 196,1032 }, { 197,1032 }, { 198,1032 }, { 199,1032 },
+ { 200,1032 }, { 201,1032 }, { 202,1032 }, { 203,1032 }, { 204,1032 },
+ { 205,1032 }, { 206,1032 }, { 207,1032 }, { 208,1032 }, { 209,1032 },
+ { 210,1032 }, { 211,1032 }, { 212,1032 }, { 213,1032 }, { 214,1032 },
+ { 215,1032 }, { 216,1032 }, { 217,1032 }, { 218,1032 }, { 219,1032 },
+ { 220,1032 }, { 221,1032 }, { 222,1032 }, { 223,1032 }, { 224,1032 },
+ { 225,1032 }, { 226,1032 }, { 227,1032 }, { 228,1032 }, { 229,1032 },
+ { 230,1032 }, { 231,1032 }, { 232,1032 }, { 233,1032 }, { 234,1032 },
+
+ { 235,1032 }, { 236,1032 }, { 237,1032 }, { 238,1032 }, { 239,1032 },
+ { 240,1032 }, { 241,1032 }, { 242,1032 }, { 243,1032 }, { 244,1032 },
+ { 245,1032 }, { 246,1032 }, { 247,1032 }, { 248,1032 }, { 249,1032 },
+ { 250,1032 }, { 251,1032 }, { 252,1032 }, { 253,1032 }, { 254,1032 },
+ { 255,1032 }, { 256,1032 }, {   0,   0 }, {   0,2491 }, {   1,1290 },
+ {   2,1290 }, {   3,1290 }, {   4,1290 }, {   5,1290 }, {   6,1290 },
+ {   7,1290 }, {   8,1290 }, {   0,   0 }, {   0,   0 }, {  11,1290 },
+ {  12,1290 }, {   0,   0 }, {  14,1290 }, {  15,1290 }, {  16,1290 },
+ {  17,1290 }, {  18,1290 }, {  19,1290 }, {  20,1290 }, {  21,1290 },
+ {  22,1290 }, {  23,1290 }, {  24,1290 }, {  25,1290 }, {  26,1290 },
+
+ {  27,1290 }, {  28,1290 }, {  29,1290 }, {  30,1290 }, {  31,1290 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1290 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1290 }, {   0,   0 },
+ {   0,   0 }, {  48,1290 }, {  49,1290 }, {  50,1290 }, {  51,1290 },
+ {  52,1290 }, {  53,1290 }, {  54,1290 }, {  55,1290 }, {  56,1290 },
+ {  57,1290 }, {  58,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,1290 }, {   0,   0 }, {  65,1290 }, {  66,1290 },
+ {  67,1290 }, {  68,1290 }, {  69,1290 }, {  70,1290 }, {  71,1290 },
+ {  72,1290 }, {  73,1290 }, {  74,1290 }, {  75,1290 }, {  76,1290 },
+
+ {  77,1290 }, {  78,1290 }, {  79,1290 }, {  80,1290 }, {  81,1290 },
+ {  82,1290 }, {  83,1290 }, {  84,1290 }, {  85,1290 }, {  86,1290 },
+ {  87,1290 }, {  88,1290 }, {  89,1290 }, {  90,1290 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1290 }, {   0,   0 },
+ {  97,1290 }, {  98,1290 }, {  99,1290 }, { 100,1290 }, { 101,1290 },
+ { 102,1290 }, { 103,1290 }, { 104,1290 }, { 105,1290 }, { 106,1290 },
+ { 107,1290 }, { 108,1290 }, { 109,1290 }, { 110,1290 }, { 111,1290 },
+ { 112,1290 }, { 113,1290 }, { 114,1290 }, { 115,1290 }, { 116,1290 },
+ { 117,1290 }, { 118,1290 }, { 119,1290 }, { 120,1290 }, { 121,1290 },
+ { 122,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 127,1290 }, { 128,1290 }, { 129,1290 }, { 130,1290 }, { 131,1290 },
+ { 132,1290 }, { 133,1290 }, { 134,1290 }, { 135,1290 }, { 136,1290 },
+ { 137,1290 }, { 138,1290 }, { 139,1290 }, { 140,1290 }, { 141,1290 },
+ { 142,1290 }, { 143,1290 }, { 144,1290 }, { 145,1290 }, { 146,1290 },
+ { 147,1290 }, { 148,1290 }, { 149,1290 }, { 150,1290 }, { 151,1290 },
+ { 152,1290 }, { 153,1290 }, { 154,1290 }, { 155,1290 }, { 156,1290 },
+ { 157,1290 }, { 158,1290 }, { 159,1290 }, { 160,1290 }, { 161,1290 },
+ { 162,1290 }, { 163,1290 }, { 164,1290 }, { 165,1290 }, { 166,1290 },
+ { 167,1290 }, { 168,1290 }, { 169,1290 }, { 170,1290 }, { 171,1290 },
+ { 172,1290 }, { 173,1290 }, { 174,1290 }, { 175,1290 }, { 176,1290 },
+
+ { 177,1290 }, { 178,1290 }, { 179,1290 }, { 180,1290 }, { 181,1290 },
+ { 182,1290 }, { 183,1290 }, { 184,1290 }, { 185,1290 }, { 186,1290 },
+ { 187,1290 }, { 188,1290 }, { 189,1290 }, { 190,1290 }, { 191,1290 },
+ { 192,1290 }, { 193,1290 }, { 194,1290 }, { 195,1290 }, { 196,1290 },
+ { 197,1290 }, { 198,1290 }, { 199,1290 }, { 200,1290 }, { 201,1290 },
+ { 202,1290 }, { 203,1290 }, { 204,1290 }, { 205,1290 }, { 206,1290 },
+ { 207,1290 }, { 208,1290 }, { 209,1290 }, { 210,1290 }, { 211,1290 },
+ { 212,1290 }, { 213,1290 }, { 214,1290 }, { 215,1290 }, { 216,1290 },
+ { 217,1290 }, { 218,1290 }, { 219,1290 }, { 220,1290 }, { 221,1290 },
+ { 222,1290 }, { 223,1290 }, { 224,1290 }, { 225,1290 }, { 226,1290 },
+
+ { 227,1290 }, { 228,1290 }, { 229,1290 }, { 230,1290 }, { 231,1290 },
+ { 232,1290 }, { 233,1290 }, { 234,1290 }, { 235,1290 }, { 236,1290 },
+ { 237,1290 }, { 238,1290 }, { 239,1290 }, { 240,1290 }, { 241,1290 },
+ { 242,1290 }, { 243,1290 }, { 244,1290 }, { 245,1290 }, { 246,1290 },
+ { 247,1290 }, { 248,1290 }, { 249,1290 }, { 250,1290 }, { 251,1290 },
+ { 252,1290 }, { 253,1290 }, { 254,1290 }, { 255,1290 }, { 256,1290 },
+ {   0,   0 }, {   0,2233 }, {   1,-9833 }, {   2,-9833 }, {   3,-9833 },
  {   4,-9833 }, {   5,-9833 }, {   6,-9833 }, {   7,-9833 }, {   8,-9833 },
  {   9,-9858 }, {  10,-9858 }, {  11,-9833 }, {  12,-9833 }, {  13,-9858 },
  {  14,-9833 }, {  15,-9833 }, {  16,-9833 }, {  17,-9833 }, {  18,-9833 },
@@ -4514,7 +4514,7 @@ static const struct yy_trans_info yy_transition[19957] =
  {   0,   0 }, {  95,-9833 }, {   0,   0 }, {  97,-9833 }, {  98,-9833 },
  {  99,-9833 }, { 100,-9833 }, { 101,-9833 }, { 102,-9833 }, { 103,-9833 },
  { 104,-9833 }, { 105,-9833 }, { 106,-9833 }, { 107,-9833 }, { 108,-9833 },
- { 109,-9833 }, { 110,1160 }, { 111,-9833 }, { 112,-9833 }, { 113,-9833 },
+ { 109,-9833 }, { 110,1290 }, { 111,-9833 }, { 112,-9833 }, { 113,-9833 },
  { 114,-9833 }, { 115,-9833 }, { 116,-9833 }, { 117,-9833 }, { 118,-9833 },
 
  { 119,-9833 }, { 120,-9833 }, { 121,-9833 }, { 122,-9833 }, {   0,   0 },
@@ -4546,396 +4546,443 @@ static const struct yy_trans_info yy_transition[19957] =
  { 239,-9833 }, { 240,-9833 }, { 241,-9833 }, { 242,-9833 }, { 243,-9833 },
  { 244,-9833 }, { 245,-9833 }, { 246,-9833 }, { 247,-9833 }, { 248,-9833 },
  { 249,-9833 }, { 250,-9833 }, { 251,-9833 }, { 252,-9833 }, { 253,-9833 },
- { 254,-9833 }, { 255,-9833 }, { 256,-9833 }, {   0,  25 }, {   0,1763 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1160 }, {  10,1160 },
+ { 254,-9833 }, { 255,-9833 }, { 256,-9833 }, {   0,   0 }, {   0,1975 },
+ {   1,-1292 }, {   2,-1292 }, {   3,-1292 }, {   4,-1292 }, {   5,-1292 },
+ {   6,-1292 }, {   7,-1292 }, {   8,-1292 }, {   9,1290 }, {  10,1290 },
 
- {   0,   0 }, {   0,   0 }, {  13,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  11,-1292 }, {  12,-1292 }, {  13,1290 }, {  14,-1292 }, {  15,-1292 },
+ {  16,-1292 }, {  17,-1292 }, {  18,-1292 }, {  19,-1292 }, {  20,-1292 },
+ {  21,-1292 }, {  22,-1292 }, {  23,-1292 }, {  24,-1292 }, {  25,-1292 },
+ {  26,-1292 }, {  27,-1292 }, {  28,-1292 }, {  29,-1292 }, {  30,-1292 },
+ {  31,-1292 }, {  32,1290 }, {  33,-1292 }, {  34,-1292 }, {  35,-1292 },
+ {  36,-1292 }, {  37,-1292 }, {  38,-1292 }, {  39,-1292 }, {  40,-1292 },
+ {  41,-1292 }, {  42,-1292 }, {  43,-1292 }, {  44,-1292 }, {  45,-1292 },
+ {  46,-1292 }, {  47,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  58,-1292 }, {  59,-1292 }, {  60,-1292 },
 
+ {  61,-1292 }, {  62,-1292 }, {  63,-1292 }, {  64,-1292 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  91,-1292 }, {  92,-1292 }, {  93,-1292 }, {  94,-1292 }, {   0,   0 },
+ {  96,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,-1292 },
- { 126,1162 }, {   0,   0 }, {   0,1635 }, {   1,   0 }, {   2,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,-1292 }, { 124,-1292 }, { 125,1292 },
+ { 126,1294 }, { 127,-1292 }, { 128,-1292 }, { 129,-1292 }, { 130,-1292 },
+ { 131,-1292 }, { 132,-1292 }, { 133,-1292 }, { 134,-1292 }, { 135,-1292 },
+ { 136,-1292 }, { 137,-1292 }, { 138,-1292 }, { 139,-1292 }, { 140,-1292 },
+ { 141,-1292 }, { 142,-1292 }, { 143,-1292 }, { 144,-1292 }, { 145,-1292 },
+ { 146,-1292 }, { 147,-1292 }, { 148,-1292 }, { 149,-1292 }, { 150,-1292 },
+ { 151,-1292 }, { 152,-1292 }, { 153,-1292 }, { 154,-1292 }, { 155,-1292 },
+ { 156,-1292 }, { 157,-1292 }, { 158,-1292 }, { 159,-1292 }, { 160,-1292 },
+
+ { 161,-1292 }, { 162,-1292 }, { 163,-1292 }, { 164,-1292 }, { 165,-1292 },
+ { 166,-1292 }, { 167,-1292 }, { 168,-1292 }, { 169,-1292 }, { 170,-1292 },
+ { 171,-1292 }, { 172,-1292 }, { 173,-1292 }, { 174,-1292 }, { 175,-1292 },
+ { 176,-1292 }, { 177,-1292 }, { 178,-1292 }, { 179,-1292 }, { 180,-1292 },
+ { 181,-1292 }, { 182,-1292 }, { 183,-1292 }, { 184,-1292 }, { 185,-1292 },
+ { 186,-1292 }, { 187,-1292 }, { 188,-1292 }, { 189,-1292 }, { 190,-1292 },
+ { 191,-1292 }, { 192,-1292 }, { 193,-1292 }, { 194,-1292 }, { 195,-1292 },
+ { 196,-1292 }, { 197,-1292 }, { 198,-1292 }, { 199,-1292 }, { 200,-1292 },
+ { 201,-1292 }, { 202,-1292 }, { 203,-1292 }, { 204,-1292 }, { 205,-1292 },
+ { 206,-1292 }, { 207,-1292 }, { 208,-1292 }, { 209,-1292 }, { 210,-1292 },
+
+ { 211,-1292 }, { 212,-1292 }, { 213,-1292 }, { 214,-1292 }, { 215,-1292 },
+ { 216,-1292 }, { 217,-1292 }, { 218,-1292 }, { 219,-1292 }, { 220,-1292 },
+ { 221,-1292 }, { 222,-1292 }, { 223,-1292 }, { 224,-1292 }, { 225,-1292 },
+ { 226,-1292 }, { 227,-1292 }, { 228,-1292 }, { 229,-1292 }, { 230,-1292 },
+ { 231,-1292 }, { 232,-1292 }, { 233,-1292 }, { 234,-1292 }, { 235,-1292 },
+ { 236,-1292 }, { 237,-1292 }, { 238,-1292 }, { 239,-1292 }, { 240,-1292 },
+ { 241,-1292 }, { 242,-1292 }, { 243,-1292 }, { 244,-1292 }, { 245,-1292 },
+ { 246,-1292 }, { 247,-1292 }, { 248,-1292 }, { 249,-1292 }, { 250,-1292 },
+ { 251,-1292 }, { 252,-1292 }, { 253,-1292 }, { 254,-1292 }, { 255,-1292 },
+ { 256,-1292 }, {   0,   0 }, {   0,1717 }, {   1,   0 }, {   2,   0 },
+
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
-
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
  {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
-
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
  { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
-
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
-
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
-
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,1377 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   0,1459 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
  {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
  {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
  {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
  {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
-
  {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
  {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
  {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
  {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45, 778 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+
+ {  45, 780 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
  {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
  {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
  {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
  {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
  {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
-
  {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
  {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
  {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
  {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+
  {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
  { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
  { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
  { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
  { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
  { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
-
  { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
  { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
  { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
  { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+
  { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
  { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
  { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
  { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
  { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
  { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
-
  { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
  { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
  { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
  { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+
  { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
  { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
  { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
  { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
  { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
  { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
-
  { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
  { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
  { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
  { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+
  { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
  { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1119 }, {   1,   0 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1201 }, {   1,   0 },
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
  {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
-
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
  {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
  {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
-
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
+
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
-
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 522 }, {   0,   0 },
+ { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 524 }, {   0,   0 },
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
+
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
  { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
-
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
  { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
+
  { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
  { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
-
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
  { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
+
  { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0, 861 }, {   1,-10993 }, {   2,-10993 }, {   3,-10993 },
- {   4,-10993 }, {   5,-10993 }, {   6,-10993 }, {   7,-10993 }, {   8,-10993 },
-
- {   9,-11018 }, {  10,-11018 }, {  11,-10993 }, {  12,-10993 }, {  13,-11018 },
- {  14,-10993 }, {  15,-10993 }, {  16,-10993 }, {  17,-10993 }, {  18,-10993 },
- {  19,-10993 }, {  20,-10993 }, {  21,-10993 }, {  22,-10993 }, {  23,-10993 },
- {  24,-10993 }, {  25,-10993 }, {  26,-10993 }, {  27,-10993 }, {  28,-10993 },
- {  29,-10993 }, {  30,-10993 }, {  31,-10993 }, {  32,-11018 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-10993 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11018 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-10993 }, {  46,-11018 }, {  47,-11018 }, {  48,-10993 },
- {  49,-10993 }, {  50,-10993 }, {  51,-10993 }, {  52,-10993 }, {  53,-10993 },
- {  54,-10993 }, {  55,-10993 }, {  56,-10993 }, {  57,-10993 }, {  58,-10993 },
-
- {   0,   0 }, {   0,   0 }, {  61,-11018 }, {   0,   0 }, {  63,-10993 },
- {   0,   0 }, {  65,-10993 }, {  66,-10993 }, {  67,-10993 }, {  68,-10993 },
- {  69,-10993 }, {  70,-10993 }, {  71,-10993 }, {  72,-10993 }, {  73,-10993 },
- {  74,-10993 }, {  75,-10993 }, {  76,-10993 }, {  77,-10993 }, {  78,-10993 },
- {  79,-10993 }, {  80,-10993 }, {  81,-10993 }, {  82,-10993 }, {  83,-10993 },
- {  84,-10993 }, {  85,-10993 }, {  86,-10993 }, {  87,-10993 }, {  88,-10993 },
- {  89,-10993 }, {  90,-10993 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-10993 }, {   0,   0 }, {  97,-10993 }, {  98,-10993 },
- {  99,-10993 }, { 100,-10993 }, { 101, 345 }, { 102,-10993 }, { 103,-10993 },
- { 104,-10993 }, { 105,-10993 }, { 106,-10993 }, { 107,-10993 }, { 108,-10993 },
-
- { 109,-10993 }, { 110,-10993 }, { 111,-10993 }, { 112,-10993 }, { 113,-10993 },
- { 114,-10993 }, { 115,-10993 }, { 116,-10993 }, { 117,-10993 }, { 118,-10993 },
- { 119,-10993 }, { 120,-10993 }, { 121,-10993 }, { 122,-10993 }, {   0,   0 },
- { 124,-11018 }, { 125,-11018 }, { 126,-11018 }, { 127,-10993 }, { 128,-10993 },
- { 129,-10993 }, { 130,-10993 }, { 131,-10993 }, { 132,-10993 }, { 133,-10993 },
- { 134,-10993 }, { 135,-10993 }, { 136,-10993 }, { 137,-10993 }, { 138,-10993 },
- { 139,-10993 }, { 140,-10993 }, { 141,-10993 }, { 142,-10993 }, { 143,-10993 },
- { 144,-10993 }, { 145,-10993 }, { 146,-10993 }, { 147,-10993 }, { 148,-10993 },
- { 149,-10993 }, { 150,-10993 }, { 151,-10993 }, { 152,-10993 }, { 153,-10993 },
- { 154,-10993 }, { 155,-10993 }, { 156,-10993 }, { 157,-10993 }, { 158,-10993 },
-
- { 159,-10993 }, { 160,-10993 }, { 161,-10993 }, { 162,-10993 }, { 163,-10993 },
- { 164,-10993 }, { 165,-10993 }, { 166,-10993 }, { 167,-10993 }, { 168,-10993 },
- { 169,-10993 }, { 170,-10993 }, { 171,-10993 }, { 172,-10993 }, { 173,-10993 },
- { 174,-10993 }, { 175,-10993 }, { 176,-10993 }, { 177,-10993 }, { 178,-10993 },
- { 179,-10993 }, { 180,-10993 }, { 181,-10993 }, { 182,-10993 }, { 183,-10993 },
- { 184,-10993 }, { 185,-10993 }, { 186,-10993 }, { 187,-10993 }, { 188,-10993 },
- { 189,-10993 }, { 190,-10993 }, { 191,-10993 }, { 192,-10993 }, { 193,-10993 },
- { 194,-10993 }, { 195,-10993 }, { 196,-10993 }, { 197,-10993 }, { 198,-10993 },
- { 199,-10993 }, { 200,-10993 }, { 201,-10993 }, { 202,-10993 }, { 203,-10993 },
- { 204,-10993 }, { 205,-10993 }, { 206,-10993 }, { 207,-10993 }, { 208,-10993 },
-
- { 209,-10993 }, { 210,-10993 }, { 211,-10993 }, { 212,-10993 }, { 213,-10993 },
- { 214,-10993 }, { 215,-10993 }, { 216,-10993 }, { 217,-10993 }, { 218,-10993 },
- { 219,-10993 }, { 220,-10993 }, { 221,-10993 }, { 222,-10993 }, { 223,-10993 },
- { 224,-10993 }, { 225,-10993 }, { 226,-10993 }, { 227,-10993 }, { 228,-10993 },
- { 229,-10993 }, { 230,-10993 }, { 231,-10993 }, { 232,-10993 }, { 233,-10993 },
- { 234,-10993 }, { 235,-10993 }, { 236,-10993 }, { 237,-10993 }, { 238,-10993 },
- { 239,-10993 }, { 240,-10993 }, { 241,-10993 }, { 242,-10993 }, { 243,-10993 },
- { 244,-10993 }, { 245,-10993 }, { 246,-10993 }, { 247,-10993 }, { 248,-10993 },
- { 249,-10993 }, { 250,-10993 }, { 251,-10993 }, { 252,-10993 }, { 253,-10993 },
- { 254,-10993 }, { 255,-10993 }, { 256,-10993 }, {   0,   0 }, {   0, 603 },
-
- {   0,   0 }, {   0, 601 }, {   0,   0 }, {   0, 599 }, {   0,   0 },
- {   0, 597 }, {   0,  23 }, {   0, 595 }, {   9,   0 }, {  10,   0 },
- {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0, 582 }, {   0,   0 }, {   0,   0 }, {   0, 579 }, {   0,   0 },
- {   0, 577 }, {   0,  12 }, {   0, 575 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0, 550 }, {   0,  45 }, {   0, 548 },
- {   0,   9 }, {   0, 546 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0, 516 }, {   1,-11338 }, {   2,-11338 }, {   3,-11338 },
- {   4,-11338 }, {   5,-11338 }, {   6,-11338 }, {   7,-11338 }, {   8,-11338 },
- {   9,-11363 }, {  10,-11363 }, {  11,-11338 }, {  12,-11338 }, {  13,-11363 },
-
- {  14,-11338 }, {  15,-11338 }, {  16,-11338 }, {  17,-11338 }, {  18,-11338 },
- {  19,-11338 }, {  20,-11338 }, {  21,-11338 }, {  22,-11338 }, {  23,-11338 },
- {  24,-11338 }, {  25,-11338 }, {  26,-11338 }, {  27,-11338 }, {  28,-11338 },
- {  29,-11338 }, {  30,-11338 }, {  31,-11338 }, {  32,-11363 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-11338 }, {   0,   0 }, { 125,-2452 },
- { 126,   2 }, { 125,-2454 }, {  41,-11363 }, { 125,  17 }, { 126,  20 },
- { 125,  20 }, {  45,-11338 }, {  46,-11363 }, {  47,-11363 }, {  48,-11338 },
- {  49,-11338 }, {  50,-11338 }, {  51,-11338 }, {  52,-11338 }, {  53,-11338 },
- {  54,-11338 }, {  55,-11338 }, {  56,-11338 }, {  57,-11338 }, {  58,-11338 },
- { 125,   7 }, {   0,   0 }, {  61,-11363 }, { 125,  -3 }, {  63,-11338 },
-
- { 125,  27 }, {  65,-11338 }, {  66,-11338 }, {  67,-11338 }, {  68,-11338 },
- {  69,-11338 }, {  70,-11338 }, {  71,-11338 }, {  72,-11338 }, {  73,-11338 },
- {  74,-11338 }, {  75,-11338 }, {  76,-11338 }, {  77,-11338 }, {  78,-11338 },
- {  79,-11338 }, {  80,-11338 }, {  81,-11338 }, {  82,-11338 }, {  83,-11338 },
- {  84,-11338 }, {  85,-11338 }, {  86,-11338 }, {  87,-11338 }, {  88,-11338 },
- {  89,-11338 }, {  90,-11338 }, { 125,   4 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11338 }, {   0,   0 }, {  97,-11338 }, {  98,-11338 },
- {  99,-11338 }, { 100, 258 }, { 101,-11338 }, { 102,-11338 }, { 103,-11338 },
- { 104,-11338 }, { 105,-11338 }, { 106,-11338 }, { 107,-11338 }, { 108,-11338 },
- { 109,-11338 }, { 110,-11338 }, { 111,-11338 }, { 112,-11338 }, { 113,-11338 },
-
- { 114,-11338 }, { 115,-11338 }, { 116,-11338 }, { 117,-11338 }, { 118,-11338 },
- { 119,-11338 }, { 120,-11338 }, { 121,-11338 }, { 122,-11338 }, {   0,   0 },
- { 124,-11363 }, { 125,-11363 }, { 126,-11363 }, { 127,-11338 }, { 128,-11338 },
- { 129,-11338 }, { 130,-11338 }, { 131,-11338 }, { 132,-11338 }, { 133,-11338 },
- { 134,-11338 }, { 135,-11338 }, { 136,-11338 }, { 137,-11338 }, { 138,-11338 },
- { 139,-11338 }, { 140,-11338 }, { 141,-11338 }, { 142,-11338 }, { 143,-11338 },
- { 144,-11338 }, { 145,-11338 }, { 146,-11338 }, { 147,-11338 }, { 148,-11338 },
- { 149,-11338 }, { 150,-11338 }, { 151,-11338 }, { 152,-11338 }, { 153,-11338 },
- { 154,-11338 }, { 155,-11338 }, { 156,-11338 }, { 157,-11338 }, { 158,-11338 },
- { 159,-11338 }, { 160,-11338 }, { 161,-11338 }, { 162,-11338 }, { 163,-11338 },
-
- { 164,-11338 }, { 165,-11338 }, { 166,-11338 }, { 167,-11338 }, { 168,-11338 },
- { 169,-11338 }, { 170,-11338 }, { 171,-11338 }, { 172,-11338 }, { 173,-11338 },
- { 174,-11338 }, { 175,-11338 }, { 176,-11338 }, { 177,-11338 }, { 178,-11338 },
- { 179,-11338 }, { 180,-11338 }, { 181,-11338 }, { 182,-11338 }, { 183,-11338 },
- { 184,-11338 }, { 185,-11338 }, { 186,-11338 }, { 187,-11338 }, { 188,-11338 },
- { 189,-11338 }, { 190,-11338 }, { 191,-11338 }, { 192,-11338 }, { 193,-11338 },
- { 194,-11338 }, { 195,-11338 }, { 196,-11338 }, { 197,-11338 }, { 198,-11338 },
- { 199,-11338 }, { 200,-11338 }, { 201,-11338 }, { 202,-11338 }, { 203,-11338 },
- { 204,-11338 }, { 205,-11338 }, { 206,-11338 }, { 207,-11338 }, { 208,-11338 },
- { 209,-11338 }, { 210,-11338 }, { 211,-11338 }, { 212,-11338 }, { 213,-11338 },
-
- { 214,-11338 }, { 215,-11338 }, { 216,-11338 }, { 217,-11338 }, { 218,-11338 },
- { 219,-11338 }, { 220,-11338 }, { 221,-11338 }, { 222,-11338 }, { 223,-11338 },
- { 224,-11338 }, { 225,-11338 }, { 226,-11338 }, { 227,-11338 }, { 228,-11338 },
- { 229,-11338 }, { 230,-11338 }, { 231,-11338 }, { 232,-11338 }, { 233,-11338 },
- { 234,-11338 }, { 235,-11338 }, { 236,-11338 }, { 237,-11338 }, { 238,-11338 },
- { 239,-11338 }, { 240,-11338 }, { 241,-11338 }, { 242,-11338 }, { 243,-11338 },
- { 244,-11338 }, { 245,-11338 }, { 246,-11338 }, { 247,-11338 }, { 248,-11338 },
- { 249,-11338 }, { 250,-11338 }, { 251,-11338 }, { 252,-11338 }, { 253,-11338 },
- { 254,-11338 }, { 255,-11338 }, { 256,-11338 }, {   0,   0 }, {   0, 258 },
- {   1,-11596 }, {   2,-11596 }, {   3,-11596 }, {   4,-11596 }, {   5,-11596 },
-
- {   6,-11596 }, {   7,-11596 }, {   8,-11596 }, {   9,-290 }, {  10,-290 },
- {  11,-11596 }, {  12,-11596 }, {  13,-290 }, {  14,-11596 }, {  15,-11596 },
- {  16,-11596 }, {  17,-11596 }, {  18,-11596 }, {  19,-11596 }, {  20,-11596 },
- {  21,-11596 }, {  22,-11596 }, {  23,-11596 }, {  24,-11596 }, {  25,-11596 },
- {  26,-11596 }, {  27,-11596 }, {  28,-11596 }, {  29,-11596 }, {  30,-11596 },
- {  31,-11596 }, {  32,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11596 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11596 },
- {  46,-11621 }, {  47,-11621 }, {  48,-11596 }, {  49,-11596 }, {  50,-11596 },
- {  51,-11596 }, {  52,-11596 }, {  53,-11596 }, {  54,-11596 }, {  55,-11596 },
-
- {  56,-11596 }, {  57,-11596 }, {  58,-11596 }, {   0,   0 }, {   0,   0 },
- {  61,-11621 }, {   0,   0 }, {  63,-11596 }, {   0,   0 }, {  65,-11596 },
- {  66,-11596 }, {  67,-11596 }, {  68,-11596 }, {  69,-11596 }, {  70,-11596 },
- {  71,-11596 }, {  72,-11596 }, {  73,-11596 }, {  74,-11596 }, {  75,-11596 },
- {  76,-11596 }, {  77,-11596 }, {  78,-11596 }, {  79,-11596 }, {  80,-11596 },
- {  81,-11596 }, {  82,-11596 }, {  83,-11596 }, {  84,-11596 }, {  85,-11596 },
- {  86,-11596 }, {  87,-11596 }, {  88,-11596 }, {  89,-11596 }, {  90,-11596 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11596 },
- {   0,   0 }, {  97,-11596 }, {  98,-11596 }, {  99,-11596 }, { 100,-11596 },
- { 101,-11596 }, { 102,-11596 }, { 103,-11596 }, { 104,-11596 }, { 105,-11596 },
-
- { 106,-11596 }, { 107,-11596 }, { 108,-11596 }, { 109,-11596 }, { 110,-11596 },
- { 111,-11596 }, { 112,-11596 }, { 113,-11596 }, { 114,-11596 }, { 115,-11596 },
- { 116,-11596 }, { 117,-11596 }, { 118,-11596 }, { 119,-11596 }, { 120,-11596 },
- { 121,-11596 }, { 122,-11596 }, {   0,   0 }, { 124,-11621 }, { 125,-290 },
- { 126,-290 }, { 127,-11596 }, { 128,-11596 }, { 129,-11596 }, { 130,-11596 },
- { 131,-11596 }, { 132,-11596 }, { 133,-11596 }, { 134,-11596 }, { 135,-11596 },
- { 136,-11596 }, { 137,-11596 }, { 138,-11596 }, { 139,-11596 }, { 140,-11596 },
- { 141,-11596 }, { 142,-11596 }, { 143,-11596 }, { 144,-11596 }, { 145,-11596 },
- { 146,-11596 }, { 147,-11596 }, { 148,-11596 }, { 149,-11596 }, { 150,-11596 },
- { 151,-11596 }, { 152,-11596 }, { 153,-11596 }, { 154,-11596 }, { 155,-11596 },
-
- { 156,-11596 }, { 157,-11596 }, { 158,-11596 }, { 159,-11596 }, { 160,-11596 },
- { 161,-11596 }, { 162,-11596 }, { 163,-11596 }, { 164,-11596 }, { 165,-11596 },
- { 166,-11596 }, { 167,-11596 }, { 168,-11596 }, { 169,-11596 }, { 170,-11596 },
- { 171,-11596 }, { 172,-11596 }, { 173,-11596 }, { 174,-11596 }, { 175,-11596 },
- { 176,-11596 }, { 177,-11596 }, { 178,-11596 }, { 179,-11596 }, { 180,-11596 },
- { 181,-11596 }, { 182,-11596 }, { 183,-11596 }, { 184,-11596 }, { 185,-11596 },
- { 186,-11596 }, { 187,-11596 }, { 188,-11596 }, { 189,-11596 }, { 190,-11596 },
- { 191,-11596 }, { 192,-11596 }, { 193,-11596 }, { 194,-11596 }, { 195,-11596 },
- { 196,-11596 }, { 197,-11596 }, { 198,-11596 }, { 199,-11596 }, { 200,-11596 },
- { 201,-11596 }, { 202,-11596 }, { 203,-11596 }, { 204,-11596 }, { 205,-11596 },
-
- { 206,-11596 }, { 207,-11596 }, { 208,-11596 }, { 209,-11596 }, { 210,-11596 },
- { 211,-11596 }, { 212,-11596 }, { 213,-11596 }, { 214,-11596 }, { 215,-11596 },
- { 216,-11596 }, { 217,-11596 }, { 218,-11596 }, { 219,-11596 }, { 220,-11596 },
- { 221,-11596 }, { 222,-11596 }, { 223,-11596 }, { 224,-11596 }, { 225,-11596 },
- { 226,-11596 }, { 227,-11596 }, { 228,-11596 }, { 229,-11596 }, { 230,-11596 },
- { 231,-11596 }, { 232,-11596 }, { 233,-11596 }, { 234,-11596 }, { 235,-11596 },
- { 236,-11596 }, { 237,-11596 }, { 238,-11596 }, { 239,-11596 }, { 240,-11596 },
- { 241,-11596 }, { 242,-11596 }, { 243,-11596 }, { 244,-11596 }, { 245,-11596 },
- { 246,-11596 }, { 247,-11596 }, { 248,-11596 }, { 249,-11596 }, { 250,-11596 },
- { 251,-11596 }, { 252,-11596 }, { 253,-11596 }, { 254,-11596 }, { 255,-11596 },
-
- { 256,-11596 }, { 257,  52 }, {   1,   0 },    };
+ {   0,   0 }, {   0, 943 }, {   1,-11123 }, {   2,-11123 }, {   3,-11123 },
+ {   4,-11123 }, {   5,-11123 }, {   6,-11123 }, {   7,-11123 }, {   8,-11123 },
+ {   9,-11148 }, {  10,-11148 }, {  11,-11123 }, {  12,-11123 }, {  13,-11148 },
+ {  14,-11123 }, {  15,-11123 }, {  16,-11123 }, {  17,-11123 }, {  18,-11123 },
+ {  19,-11123 }, {  20,-11123 }, {  21,-11123 }, {  22,-11123 }, {  23,-11123 },
+ {  24,-11123 }, {  25,-11123 }, {  26,-11123 }, {  27,-11123 }, {  28,-11123 },
+
+ {  29,-11123 }, {  30,-11123 }, {  31,-11123 }, {  32,-11148 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-11123 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-11148 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-11123 }, {  46,-11148 }, {  47,-11148 }, {  48,-11123 },
+ {  49,-11123 }, {  50,-11123 }, {  51,-11123 }, {  52,-11123 }, {  53,-11123 },
+ {  54,-11123 }, {  55,-11123 }, {  56,-11123 }, {  57,-11123 }, {  58,-11123 },
+ {   0,   0 }, {   0,   0 }, {  61,-11148 }, {   0,   0 }, {  63,-11123 },
+ {   0,   0 }, {  65,-11123 }, {  66,-11123 }, {  67,-11123 }, {  68,-11123 },
+ {  69,-11123 }, {  70,-11123 }, {  71,-11123 }, {  72,-11123 }, {  73,-11123 },
+ {  74,-11123 }, {  75,-11123 }, {  76,-11123 }, {  77,-11123 }, {  78,-11123 },
+
+ {  79,-11123 }, {  80,-11123 }, {  81,-11123 }, {  82,-11123 }, {  83,-11123 },
+ {  84,-11123 }, {  85,-11123 }, {  86,-11123 }, {  87,-11123 }, {  88,-11123 },
+ {  89,-11123 }, {  90,-11123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-11123 }, {   0,   0 }, {  97,-11123 }, {  98,-11123 },
+ {  99,-11123 }, { 100,-11123 }, { 101, 393 }, { 102,-11123 }, { 103,-11123 },
+ { 104,-11123 }, { 105,-11123 }, { 106,-11123 }, { 107,-11123 }, { 108,-11123 },
+ { 109,-11123 }, { 110,-11123 }, { 111,-11123 }, { 112,-11123 }, { 113,-11123 },
+ { 114,-11123 }, { 115,-11123 }, { 116,-11123 }, { 117,-11123 }, { 118,-11123 },
+ { 119,-11123 }, { 120,-11123 }, { 121,-11123 }, { 122,-11123 }, {   0,   0 },
+ { 124,-11148 }, { 125,-11148 }, { 126,-11148 }, { 127,-11123 }, { 128,-11123 },
+
+ { 129,-11123 }, { 130,-11123 }, { 131,-11123 }, { 132,-11123 }, { 133,-11123 },
+ { 134,-11123 }, { 135,-11123 }, { 136,-11123 }, { 137,-11123 }, { 138,-11123 },
+ { 139,-11123 }, { 140,-11123 }, { 141,-11123 }, { 142,-11123 }, { 143,-11123 },
+ { 144,-11123 }, { 145,-11123 }, { 146,-11123 }, { 147,-11123 }, { 148,-11123 },
+ { 149,-11123 }, { 150,-11123 }, { 151,-11123 }, { 152,-11123 }, { 153,-11123 },
+ { 154,-11123 }, { 155,-11123 }, { 156,-11123 }, { 157,-11123 }, { 158,-11123 },
+ { 159,-11123 }, { 160,-11123 }, { 161,-11123 }, { 162,-11123 }, { 163,-11123 },
+ { 164,-11123 }, { 165,-11123 }, { 166,-11123 }, { 167,-11123 }, { 168,-11123 },
+ { 169,-11123 }, { 170,-11123 }, { 171,-11123 }, { 172,-11123 }, { 173,-11123 },
+ { 174,-11123 }, { 175,-11123 }, { 176,-11123 }, { 177,-11123 }, { 178,-11123 },
+
+ { 179,-11123 }, { 180,-11123 }, { 181,-11123 }, { 182,-11123 }, { 183,-11123 },
+ { 184,-11123 }, { 185,-11123 }, { 186,-11123 }, { 187,-11123 }, { 188,-11123 },
+ { 189,-11123 }, { 190,-11123 }, { 191,-11123 }, { 192,-11123 }, { 193,-11123 },
+ { 194,-11123 }, { 195,-11123 }, { 196,-11123 }, { 197,-11123 }, { 198,-11123 },
+ { 199,-11123 }, { 200,-11123 }, { 201,-11123 }, { 202,-11123 }, { 203,-11123 },
+ { 204,-11123 }, { 205,-11123 }, { 206,-11123 }, { 207,-11123 }, { 208,-11123 },
+ { 209,-11123 }, { 210,-11123 }, { 211,-11123 }, { 212,-11123 }, { 213,-11123 },
+ { 214,-11123 }, { 215,-11123 }, { 216,-11123 }, { 217,-11123 }, { 218,-11123 },
+ { 219,-11123 }, { 220,-11123 }, { 221,-11123 }, { 222,-11123 }, { 223,-11123 },
+ { 224,-11123 }, { 225,-11123 }, { 226,-11123 }, { 227,-11123 }, { 228,-11123 },
+
+ { 229,-11123 }, { 230,-11123 }, { 231,-11123 }, { 232,-11123 }, { 233,-11123 },
+ { 234,-11123 }, { 235,-11123 }, { 236,-11123 }, { 237,-11123 }, { 238,-11123 },
+ { 239,-11123 }, { 240,-11123 }, { 241,-11123 }, { 242,-11123 }, { 243,-11123 },
+ { 244,-11123 }, { 245,-11123 }, { 246,-11123 }, { 247,-11123 }, { 248,-11123 },
+ { 249,-11123 }, { 250,-11123 }, { 251,-11123 }, { 252,-11123 }, { 253,-11123 },
+ { 254,-11123 }, { 255,-11123 }, { 256,-11123 }, {   0,  25 }, {   0, 685 },
+ {   0,  25 }, {   0, 683 }, {   0,  25 }, {   0, 681 }, {   0,   0 },
+ {   0, 679 }, {   0,   0 }, {   0, 677 }, {   9, 393 }, {  10, 393 },
+ {   0,   0 }, {   0,   0 }, {  13, 393 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32, 393 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0, 642 }, {   0,   0 }, {   0, 640 },
+ {   0,  23 }, {   0, 638 }, {   0,   0 }, {   0, 636 }, {   0,   0 },
+ {   0,   0 }, {   0, 633 }, {   0,   0 }, {   0, 631 }, {   0,  12 },
+ {   0, 629 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 616 }, {   0,  45 },
+
+ {   0, 614 }, {   0,   9 }, {   0, 612 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  43 },
+ { 126,  45 }, { 125,  45 }, {   0,   0 }, { 125,  39 }, {   0,   0 },
+ { 125,  43 }, { 126,  46 }, { 125,  46 }, {   0,   0 }, {   0, 550 },
+ {   1,-11516 }, {   2,-11516 }, {   3,-11516 }, {   4,-11516 }, {   5,-11516 },
+ {   6,-11516 }, {   7,-11516 }, {   8,-11516 }, {   9,-11541 }, {  10,-11541 },
+ {  11,-11516 }, {  12,-11516 }, {  13,-11541 }, {  14,-11516 }, {  15,-11516 },
+ {  16,-11516 }, {  17,-11516 }, {  18,-11516 }, {  19,-11516 }, {  20,-11516 },
+ {  21,-11516 }, {  22,-11516 }, {  23,-11516 }, {  24,-11516 }, {  25,-11516 },
+ {  26,-11516 }, {  27,-11516 }, {  28,-11516 }, {  29,-11516 }, {  30,-11516 },
+ {  31,-11516 }, {  32,-11541 }, { 125,   4 }, {   0,   0 }, { 125,  -2 },
+
+ {  36,-11516 }, {   0,   0 }, {   0,   0 }, { 125,   7 }, {   0,   0 },
+ {  41,-11541 }, { 125,  -3 }, {   0,   0 }, { 125,  15 }, {  45,-11516 },
+ {  46,-11541 }, {  47,-11541 }, {  48,-11516 }, {  49,-11516 }, {  50,-11516 },
+ {  51,-11516 }, {  52,-11516 }, {  53,-11516 }, {  54,-11516 }, {  55,-11516 },
+ {  56,-11516 }, {  57,-11516 }, {  58,-11516 }, { 125,   4 }, {   0,   0 },
+ {  61,-11541 }, {   0,   0 }, {  63,-11516 }, {   0,   0 }, {  65,-11516 },
+ {  66,-11516 }, {  67,-11516 }, {  68,-11516 }, {  69,-11516 }, {  70,-11516 },
+ {  71,-11516 }, {  72,-11516 }, {  73,-11516 }, {  74,-11516 }, {  75,-11516 },
+ {  76,-11516 }, {  77,-11516 }, {  78,-11516 }, {  79,-11516 }, {  80,-11516 },
+ {  81,-11516 }, {  82,-11516 }, {  83,-11516 }, {  84,-11516 }, {  85,-11516 },
+
+ {  86,-11516 }, {  87,-11516 }, {  88,-11516 }, {  89,-11516 }, {  90,-11516 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11516 },
+ {   0,   0 }, {  97,-11516 }, {  98,-11516 }, {  99,-11516 }, { 100, 292 },
+ { 101,-11516 }, { 102,-11516 }, { 103,-11516 }, { 104,-11516 }, { 105,-11516 },
+ { 106,-11516 }, { 107,-11516 }, { 108,-11516 }, { 109,-11516 }, { 110,-11516 },
+ { 111,-11516 }, { 112,-11516 }, { 113,-11516 }, { 114,-11516 }, { 115,-11516 },
+ { 116,-11516 }, { 117,-11516 }, { 118,-11516 }, { 119,-11516 }, { 120,-11516 },
+ { 121,-11516 }, { 122,-11516 }, {   0,   0 }, { 124,-11541 }, { 125,-11541 },
+ { 126,-11541 }, { 127,-11516 }, { 128,-11516 }, { 129,-11516 }, { 130,-11516 },
+ { 131,-11516 }, { 132,-11516 }, { 133,-11516 }, { 134,-11516 }, { 135,-11516 },
+
+ { 136,-11516 }, { 137,-11516 }, { 138,-11516 }, { 139,-11516 }, { 140,-11516 },
+ { 141,-11516 }, { 142,-11516 }, { 143,-11516 }, { 144,-11516 }, { 145,-11516 },
+ { 146,-11516 }, { 147,-11516 }, { 148,-11516 }, { 149,-11516 }, { 150,-11516 },
+ { 151,-11516 }, { 152,-11516 }, { 153,-11516 }, { 154,-11516 }, { 155,-11516 },
+ { 156,-11516 }, { 157,-11516 }, { 158,-11516 }, { 159,-11516 }, { 160,-11516 },
+ { 161,-11516 }, { 162,-11516 }, { 163,-11516 }, { 164,-11516 }, { 165,-11516 },
+ { 166,-11516 }, { 167,-11516 }, { 168,-11516 }, { 169,-11516 }, { 170,-11516 },
+ { 171,-11516 }, { 172,-11516 }, { 173,-11516 }, { 174,-11516 }, { 175,-11516 },
+ { 176,-11516 }, { 177,-11516 }, { 178,-11516 }, { 179,-11516 }, { 180,-11516 },
+ { 181,-11516 }, { 182,-11516 }, { 183,-11516 }, { 184,-11516 }, { 185,-11516 },
+
+ { 186,-11516 }, { 187,-11516 }, { 188,-11516 }, { 189,-11516 }, { 190,-11516 },
+ { 191,-11516 }, { 192,-11516 }, { 193,-11516 }, { 194,-11516 }, { 195,-11516 },
+ { 196,-11516 }, { 197,-11516 }, { 198,-11516 }, { 199,-11516 }, { 200,-11516 },
+ { 201,-11516 }, { 202,-11516 }, { 203,-11516 }, { 204,-11516 }, { 205,-11516 },
+ { 206,-11516 }, { 207,-11516 }, { 208,-11516 }, { 209,-11516 }, { 210,-11516 },
+ { 211,-11516 }, { 212,-11516 }, { 213,-11516 }, { 214,-11516 }, { 215,-11516 },
+ { 216,-11516 }, { 217,-11516 }, { 218,-11516 }, { 219,-11516 }, { 220,-11516 },
+ { 221,-11516 }, { 222,-11516 }, { 223,-11516 }, { 224,-11516 }, { 225,-11516 },
+ { 226,-11516 }, { 227,-11516 }, { 228,-11516 }, { 229,-11516 }, { 230,-11516 },
+ { 231,-11516 }, { 232,-11516 }, { 233,-11516 }, { 234,-11516 }, { 235,-11516 },
+
+ { 236,-11516 }, { 237,-11516 }, { 238,-11516 }, { 239,-11516 }, { 240,-11516 },
+ { 241,-11516 }, { 242,-11516 }, { 243,-11516 }, { 244,-11516 }, { 245,-11516 },
+ { 246,-11516 }, { 247,-11516 }, { 248,-11516 }, { 249,-11516 }, { 250,-11516 },
+ { 251,-11516 }, { 252,-11516 }, { 253,-11516 }, { 254,-11516 }, { 255,-11516 },
+ { 256,-11516 }, {   0,   0 }, {   0, 292 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
+ {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
+ {   0,   0 }, {   0, 258 }, {   1,-11808 }, {   2,-11808 }, {   3,-11808 },
+ {   4,-11808 }, {   5,-11808 }, {   6,-11808 }, {   7,-11808 }, {   8,-11808 },
+ {   9,-356 }, {  10,-356 }, {  11,-11808 }, {  12,-11808 }, {  13,-356 },
+ {  14,-11808 }, {  15,-11808 }, {  16,-11808 }, {  17,-11808 }, {  18,-11808 },
+ {  19,-11808 }, {  20,-11808 }, {  21,-11808 }, {  22,-11808 }, {  23,-11808 },
+ {  24,-11808 }, {  25,-11808 }, {  26,-11808 }, {  27,-11808 }, {  28,-11808 },
+ {  29,-11808 }, {  30,-11808 }, {  31,-11808 }, {  32,-356 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-11808 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-356 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  45,-11808 }, {  46,-11833 }, {  47,-11833 }, {  48,-11808 },
+ {  49,-11808 }, {  50,-11808 }, {  51,-11808 }, {  52,-11808 }, {  53,-11808 },
+ {  54,-11808 }, {  55,-11808 }, {  56,-11808 }, {  57,-11808 }, {  58,-11808 },
+ {   0,   0 }, {   0,   0 }, {  61,-11833 }, {   0,   0 }, {  63,-11808 },
+ {   0,   0 }, {  65,-11808 }, {  66,-11808 }, {  67,-11808 }, {  68,-11808 },
+ {  69,-11808 }, {  70,-11808 }, {  71,-11808 }, {  72,-11808 }, {  73,-11808 },
+ {  74,-11808 }, {  75,-11808 }, {  76,-11808 }, {  77,-11808 }, {  78,-11808 },
+ {  79,-11808 }, {  80,-11808 }, {  81,-11808 }, {  82,-11808 }, {  83,-11808 },
+ {  84,-11808 }, {  85,-11808 }, {  86,-11808 }, {  87,-11808 }, {  88,-11808 },
+ {  89,-11808 }, {  90,-11808 }, { 125,-350 }, { 126,-348 }, {   0,   0 },
+
+ {   0,   0 }, {  95,-11808 }, {   0,   0 }, {  97,-11808 }, {  98,-11808 },
+ {  99,-11808 }, { 100,-11808 }, { 101,-11808 }, { 102,-11808 }, { 103,-11808 },
+ { 104,-11808 }, { 105,-11808 }, { 106,-11808 }, { 107,-11808 }, { 108,-11808 },
+ { 109,-11808 }, { 110,-11808 }, { 111,-11808 }, { 112,-11808 }, { 113,-11808 },
+ { 114,-11808 }, { 115,-11808 }, { 116,-11808 }, { 117,-11808 }, { 118,-11808 },
+ { 119,-11808 }, { 120,-11808 }, { 121,-11808 }, { 122,-11808 }, {   0,   0 },
+ { 124,-11833 }, { 125,-356 }, { 126,-356 }, { 127,-11808 }, { 128,-11808 },
+ { 129,-11808 }, { 130,-11808 }, { 131,-11808 }, { 132,-11808 }, { 133,-11808 },
+ { 134,-11808 }, { 135,-11808 }, { 136,-11808 }, { 137,-11808 }, { 138,-11808 },
+ { 139,-11808 }, { 140,-11808 }, { 141,-11808 }, { 142,-11808 }, { 143,-11808 },
+
+ { 144,-11808 }, { 145,-11808 }, { 146,-11808 }, { 147,-11808 }, { 148,-11808 },
+ { 149,-11808 }, { 150,-11808 }, { 151,-11808 }, { 152,-11808 }, { 153,-11808 },
+ { 154,-11808 }, { 155,-11808 }, { 156,-11808 }, { 157,-11808 }, { 158,-11808 },
+ { 159,-11808 }, { 160,-11808 }, { 161,-11808 }, { 162,-11808 }, { 163,-11808 },
+ { 164,-11808 }, { 165,-11808 }, { 166,-11808 }, { 167,-11808 }, { 168,-11808 },
+ { 169,-11808 }, { 170,-11808 }, { 171,-11808 }, { 172,-11808 }, { 173,-11808 },
+ { 174,-11808 }, { 175,-11808 }, { 176,-11808 }, { 177,-11808 }, { 178,-11808 },
+ { 179,-11808 }, { 180,-11808 }, { 181,-11808 }, { 182,-11808 }, { 183,-11808 },
+ { 184,-11808 }, { 185,-11808 }, { 186,-11808 }, { 187,-11808 }, { 188,-11808 },
+ { 189,-11808 }, { 190,-11808 }, { 191,-11808 }, { 192,-11808 }, { 193,-11808 },
+
+ { 194,-11808 }, { 195,-11808 }, { 196,-11808 }, { 197,-11808 }, { 198,-11808 },
+ { 199,-11808 }, { 200,-11808 }, { 201,-11808 }, { 202,-11808 }, { 203,-11808 },
+ { 204,-11808 }, { 205,-11808 }, { 206,-11808 }, { 207,-11808 }, { 208,-11808 },
+ { 209,-11808 }, { 210,-11808 }, { 211,-11808 }, { 212,-11808 }, { 213,-11808 },
+ { 214,-11808 }, { 215,-11808 }, { 216,-11808 }, { 217,-11808 }, { 218,-11808 },
+ { 219,-11808 }, { 220,-11808 }, { 221,-11808 }, { 222,-11808 }, { 223,-11808 },
+ { 224,-11808 }, { 225,-11808 }, { 226,-11808 }, { 227,-11808 }, { 228,-11808 },
+ { 229,-11808 }, { 230,-11808 }, { 231,-11808 }, { 232,-11808 }, { 233,-11808 },
+ { 234,-11808 }, { 235,-11808 }, { 236,-11808 }, { 237,-11808 }, { 238,-11808 },
+ { 239,-11808 }, { 240,-11808 }, { 241,-11808 }, { 242,-11808 }, { 243,-11808 },
+
+ { 244,-11808 }, { 245,-11808 }, { 246,-11808 }, { 247,-11808 }, { 248,-11808 },
+ { 249,-11808 }, { 250,-11808 }, { 251,-11808 }, { 252,-11808 }, { 253,-11808 },
+ { 254,-11808 }, { 255,-11808 }, { 256,-11808 }, { 257,  52 }, {   1,   0 },
+    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4952,7 +4999,6 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
-
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5062,9 +5108,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5066 "handlebars.lex.c"
+#line 5112 "handlebars.lex.c"
 
-#line 5068 "handlebars.lex.c"
+#line 5114 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5347,7 +5393,7 @@ YY_DECL
 
 
 
-#line 5351 "handlebars.lex.c"
+#line 5397 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5666,6 +5712,10 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 /* rule 25 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+yyg->yy_c_buf_p = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
 #line 308 "handlebars.l"
 {
@@ -5969,7 +6019,7 @@ YY_RULE_SETUP
 #line 483 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 5973 "handlebars.lex.c"
+#line 6023 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 2e32470b9442a7decfb3bc1f80468ecafbb1b6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 03/98] fix: allow any amount of whitespace between as and the
 block parameters

---
 src/handlebars.l     |    2 +-
 src/handlebars.lex.c | 3069 +++++++++++++++++++++---------------------
 2 files changed, 1547 insertions(+), 1524 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 6e1ebc3..221befd 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -410,7 +410,7 @@ BLOCKPARAM [\x7C]
 										return DATA;
 									}
 
-<mu>"as"{WHITESPACE}"|"				{
+<mu>"as"{WHITESPACE}+"|"			{
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index fe19bfa..8099870 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20169] =
+static const struct yy_trans_info yy_transition[20273] =
     {
- {   0,   0 }, {   0,19913 }, {   0,   2 }, {   0,19911 }, {   1,3096 },
+ {   0,   0 }, {   0,20017 }, {   0,   2 }, {   0,20015 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20169] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19653 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,19757 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19395 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19499 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19137 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,19241 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18879 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,18983 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18621 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18725 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18363 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,18467 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18105 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18209 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17847 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,17951 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17589 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,17693 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17331 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17435 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17073 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,17177 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16815 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16919 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[20169] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16558 }, {   0,   6 }, {   0,16556 }, {   0,   6 },
- {   0,16554 }, {   0,  51 }, {   0,16552 }, {   0,  35 }, {   0,16550 },
+ {   0,   2 }, {   0,16662 }, {   0,   6 }, {   0,16660 }, {   0,   6 },
+ {   0,16658 }, {   0,  51 }, {   0,16656 }, {   0,  35 }, {   0,16654 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16543 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16538 }, {  13,4742 }, {   0,  14 }, {   0,16535 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16531 }, {  13,4735 },
- {   0,  34 }, {   0,16528 }, {   0,  31 }, {   0,16526 }, {   0,  40 },
- {   0,16524 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,16647 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,16642 }, {  13,4742 }, {   0,  14 }, {   0,16639 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16635 }, {  13,4735 },
+ {   0,  34 }, {   0,16632 }, {   0,  31 }, {   0,16630 }, {   0,  40 },
+ {   0,16628 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[20169] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16429 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,16533 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16172 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,16276 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15914 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,16018 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15656 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15760 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15398 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,15502 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[20169] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15140 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15244 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15122 }, {   0,  42 }, {   0,15120 },
+ {   0,   0 }, {   0,  50 }, {   0,15226 }, {   0,  42 }, {   0,15224 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15091 }, {   0,  50 },
- {   0,15089 }, {   0,   7 }, {   0,15087 }, {   0,  51 }, {   0,15085 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15195 }, {   0,  50 },
+ {   0,15193 }, {   0,   7 }, {   0,15191 }, {   0,  51 }, {   0,15189 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15058 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,15162 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[20169] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14800 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14904 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14542 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,14646 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14284 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,14388 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,14026 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,14130 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13768 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,13872 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13510 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13614 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[20169] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13252 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,13356 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12994 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,13098 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12736 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12840 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12479 }, {   0,   2 }, {   0,12477 }, {   0,   0 }, {   0,12475 },
+ {   0,12583 }, {   0,   2 }, {   0,12581 }, {   0,   0 }, {   0,12579 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[20169] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12354 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12458 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12097 }, {   0,   0 }, {   0,12095 },
- {   0,   5 }, {   0,12093 }, {   0,  48 }, {   0,12091 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,12201 }, {   0,   0 }, {   0,12199 },
+ {   0,   5 }, {   0,12197 }, {   0,  48 }, {   0,12195 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12066 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12170 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[20169] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11808 }, {   0,  38 }, {   0,11806 }, {   0,  39 },
- {   0,11804 }, {   0,  33 }, {   0,11802 }, {   0,  32 }, {   0,11800 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11796 }, {  13,   0 },
- {   0,  49 }, {   0,11793 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,11912 }, {   0,  38 }, {   0,11910 }, {   0,  39 },
+ {   0,11908 }, {   0,  33 }, {   0,11906 }, {   0,  32 }, {   0,11904 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11900 }, {  13,   0 },
+ {   0,  49 }, {   0,11897 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11774 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,11878 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11516 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11620 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11258 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,11362 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[20169] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11000 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11104 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10742 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,10846 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10484 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,10588 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[20169] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10425 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10529 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10167 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,10271 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,13 +2802,13 @@ static const struct yy_trans_info yy_transition[20169] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9909 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
- {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
+ {   0,10013 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
+ {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
+ {  30,-2157 }, {  31,-2157 }, {  32,3487 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[20169] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9651 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9755 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2882,7 +2882,7 @@ static const struct yy_trans_info yy_transition[20169] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+ { 107,-2415 }, { 108,3289 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
  { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9393 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,9497 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2938,7 +2938,7 @@ static const struct yy_trans_info yy_transition[20169] =
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
+ { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3289 },
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
  { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9135 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9239 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -2997,7 +2997,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
+ { 116,-2931 }, { 117,3289 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
 
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8877 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,8981 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3050,7 +3050,7 @@ static const struct yy_trans_info yy_transition[20169] =
  {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
+ {  98,-3189 }, {  99,-3189 }, { 100,3289 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
 
@@ -3085,37 +3085,37 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8619 }, {   0,  37 }, {   0,8617 }, {   0,   0 }, {   0,8615 },
+ {   0,8723 }, {   0,  37 }, {   0,8721 }, {   0,   0 }, {   0,8719 },
 
- {   0,   0 }, {   0,8613 }, {   0,   0 }, {   0,8611 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8607 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,8717 }, {   0,   0 }, {   0,8715 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,8711 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
- {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3248 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,3289 }, {  33, 917 }, {   0,   0 },
+ {  35, 919 }, {   0,   0 }, {   0,   0 }, {  38, 921 }, {   0,   0 },
+ {   0,   0 }, {  33,3285 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  47, 925 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62, 927 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3291 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,1022 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
- {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
- {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3250 },
- {   0,   0 }, {   0,8483 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
+ {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
+ {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,3287 },
+ {   0,   0 }, {   0,8587 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8225 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8329 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7967 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,8071 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,11 +3285,11 @@ static const struct yy_trans_info yy_transition[20169] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7710 },
- {   0,   0 }, {   0,7708 }, {   0,   0 }, {   0,7706 }, {   0,   5 },
- {   0,7704 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7814 },
+ {   0,   0 }, {   0,7812 }, {   0,   0 }, {   0,7810 }, {   0,   5 },
+ {   0,7808 }, {   0,  29 }, {   0,7806 }, {   0,  20 }, {   0,7804 },
+ {   0,  27 }, {   0,7802 }, {   0,  30 }, {   0,7800 }, {   0,  21 },
+ {   0,7798 }, {   0,  18 }, {   0,7796 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3297,80 +3297,80 @@ static const struct yy_trans_info yy_transition[20169] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  42,2430 }, {  45,2430 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  62,2432 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7613 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,7701 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2351 }, {   0,   0 }, { 123,2354 },
- {   0,   0 }, { 123,2354 }, {   0,   4 }, {   0,7581 }, {   1,2354 },
- {   2,2354 }, {   3,2354 }, {   4,2354 }, {   5,2354 }, {   6,2354 },
- {   7,2354 }, {   8,2354 }, {   9,2354 }, {  10,2239 }, {  11,2354 },
- {  12,2354 }, {  13,2239 }, {  14,2354 }, {  15,2354 }, {  16,2354 },
+ {   0,   0 }, {   0,   0 }, { 123,2400 }, {   0,   0 }, { 123,2401 },
+ {   0,   0 }, { 123,2401 }, {   0,   4 }, {   0,7685 }, {   1,2401 },
+ {   2,2401 }, {   3,2401 }, {   4,2401 }, {   5,2401 }, {   6,2401 },
+ {   7,2401 }, {   8,2401 }, {   9,2401 }, {  10,2289 }, {  11,2401 },
+ {  12,2401 }, {  13,2289 }, {  14,2401 }, {  15,2401 }, {  16,2401 },
 
- {  17,2354 }, {  18,2354 }, {  19,2354 }, {  20,2354 }, {  21,2354 },
- {  22,2354 }, {  23,2354 }, {  24,2354 }, {  25,2354 }, {  26,2354 },
- {  27,2354 }, {  28,2354 }, {  29,2354 }, {  30,2354 }, {  31,2354 },
- {  32,2354 }, {  33,2354 }, {  34,2354 }, {  35,2354 }, {  36,2354 },
- {  37,2354 }, {  38,2354 }, {  39,2354 }, {  40,2354 }, {  41,2354 },
- {  42,2354 }, {  43,2354 }, {  44,2354 }, {  45,2354 }, {  46,2354 },
- {  47,2354 }, {  48,2354 }, {  49,2354 }, {  50,2354 }, {  51,2354 },
- {  52,2354 }, {  53,2354 }, {  54,2354 }, {  55,2354 }, {  56,2354 },
- {  57,2354 }, {  58,2354 }, {  59,2354 }, {  60,2354 }, {  61,2354 },
- {  62,2354 }, {  63,2354 }, {  64,2354 }, {  65,2354 }, {  66,2354 },
+ {  17,2401 }, {  18,2401 }, {  19,2401 }, {  20,2401 }, {  21,2401 },
+ {  22,2401 }, {  23,2401 }, {  24,2401 }, {  25,2401 }, {  26,2401 },
+ {  27,2401 }, {  28,2401 }, {  29,2401 }, {  30,2401 }, {  31,2401 },
+ {  32,2401 }, {  33,2401 }, {  34,2401 }, {  35,2401 }, {  36,2401 },
+ {  37,2401 }, {  38,2401 }, {  39,2401 }, {  40,2401 }, {  41,2401 },
+ {  42,2401 }, {  43,2401 }, {  44,2401 }, {  45,2401 }, {  46,2401 },
+ {  47,2401 }, {  48,2401 }, {  49,2401 }, {  50,2401 }, {  51,2401 },
+ {  52,2401 }, {  53,2401 }, {  54,2401 }, {  55,2401 }, {  56,2401 },
+ {  57,2401 }, {  58,2401 }, {  59,2401 }, {  60,2401 }, {  61,2401 },
+ {  62,2401 }, {  63,2401 }, {  64,2401 }, {  65,2401 }, {  66,2401 },
 
- {  67,2354 }, {  68,2354 }, {  69,2354 }, {  70,2354 }, {  71,2354 },
- {  72,2354 }, {  73,2354 }, {  74,2354 }, {  75,2354 }, {  76,2354 },
- {  77,2354 }, {  78,2354 }, {  79,2354 }, {  80,2354 }, {  81,2354 },
- {  82,2354 }, {  83,2354 }, {  84,2354 }, {  85,2354 }, {  86,2354 },
- {  87,2354 }, {  88,2354 }, {  89,2354 }, {  90,2354 }, {  91,2354 },
- { 124,2277 }, {  93,2354 }, {  94,2354 }, {  95,2354 }, {  96,2354 },
- {  97,2354 }, {  98,2354 }, {  99,2354 }, { 100,2354 }, { 101,2354 },
- { 102,2354 }, { 103,2354 }, { 104,2354 }, { 105,2354 }, { 106,2354 },
- { 107,2354 }, { 108,2354 }, { 109,2354 }, { 110,2354 }, { 111,2354 },
- { 112,2354 }, { 113,2354 }, { 114,2354 }, { 115,2354 }, { 116,2354 },
+ {  67,2401 }, {  68,2401 }, {  69,2401 }, {  70,2401 }, {  71,2401 },
+ {  72,2401 }, {  73,2401 }, {  74,2401 }, {  75,2401 }, {  76,2401 },
+ {  77,2401 }, {  78,2401 }, {  79,2401 }, {  80,2401 }, {  81,2401 },
+ {  82,2401 }, {  83,2401 }, {  84,2401 }, {  85,2401 }, {  86,2401 },
+ {  87,2401 }, {  88,2401 }, {  89,2401 }, {  90,2401 }, {  91,2401 },
+ { 108,2968 }, {  93,2401 }, {  94,2401 }, {  95,2401 }, {  96,2401 },
+ {  97,2401 }, {  98,2401 }, {  99,2401 }, { 100,2401 }, { 101,2401 },
+ { 102,2401 }, { 103,2401 }, { 104,2401 }, { 105,2401 }, { 106,2401 },
+ { 107,2401 }, { 108,2401 }, { 109,2401 }, { 110,2401 }, { 111,2401 },
+ { 112,2401 }, { 113,2401 }, { 114,2401 }, { 115,2401 }, { 116,2401 },
 
- { 117,2354 }, { 118,2354 }, { 119,2354 }, { 120,2354 }, { 121,2354 },
- { 122,2354 }, { 123,2611 }, { 124,2354 }, { 125,2354 }, { 126,2354 },
- { 127,2354 }, { 128,2354 }, { 129,2354 }, { 130,2354 }, { 131,2354 },
- { 132,2354 }, { 133,2354 }, { 134,2354 }, { 135,2354 }, { 136,2354 },
- { 137,2354 }, { 138,2354 }, { 139,2354 }, { 140,2354 }, { 141,2354 },
- { 142,2354 }, { 143,2354 }, { 144,2354 }, { 145,2354 }, { 146,2354 },
- { 147,2354 }, { 148,2354 }, { 149,2354 }, { 150,2354 }, { 151,2354 },
- { 152,2354 }, { 153,2354 }, { 154,2354 }, { 155,2354 }, { 156,2354 },
- { 157,2354 }, { 158,2354 }, { 159,2354 }, { 160,2354 }, { 161,2354 },
- { 162,2354 }, { 163,2354 }, { 164,2354 }, { 165,2354 }, { 166,2354 },
+ { 117,2401 }, { 118,2401 }, { 119,2401 }, { 120,2401 }, { 121,2401 },
+ { 122,2401 }, { 123,2658 }, { 124,2401 }, { 125,2401 }, { 126,2401 },
+ { 127,2401 }, { 128,2401 }, { 129,2401 }, { 130,2401 }, { 131,2401 },
+ { 132,2401 }, { 133,2401 }, { 134,2401 }, { 135,2401 }, { 136,2401 },
+ { 137,2401 }, { 138,2401 }, { 139,2401 }, { 140,2401 }, { 141,2401 },
+ { 142,2401 }, { 143,2401 }, { 144,2401 }, { 145,2401 }, { 146,2401 },
+ { 147,2401 }, { 148,2401 }, { 149,2401 }, { 150,2401 }, { 151,2401 },
+ { 152,2401 }, { 153,2401 }, { 154,2401 }, { 155,2401 }, { 156,2401 },
+ { 157,2401 }, { 158,2401 }, { 159,2401 }, { 160,2401 }, { 161,2401 },
+ { 162,2401 }, { 163,2401 }, { 164,2401 }, { 165,2401 }, { 166,2401 },
 
- { 167,2354 }, { 168,2354 }, { 169,2354 }, { 170,2354 }, { 171,2354 },
- { 172,2354 }, { 173,2354 }, { 174,2354 }, { 175,2354 }, { 176,2354 },
- { 177,2354 }, { 178,2354 }, { 179,2354 }, { 180,2354 }, { 181,2354 },
- { 182,2354 }, { 183,2354 }, { 184,2354 }, { 185,2354 }, { 186,2354 },
- { 187,2354 }, { 188,2354 }, { 189,2354 }, { 190,2354 }, { 191,2354 },
- { 192,2354 }, { 193,2354 }, { 194,2354 }, { 195,2354 }, { 196,2354 },
- { 197,2354 }, { 198,2354 }, { 199,2354 }, { 200,2354 }, { 201,2354 },
- { 202,2354 }, { 203,2354 }, { 204,2354 }, { 205,2354 }, { 206,2354 },
- { 207,2354 }, { 208,2354 }, { 209,2354 }, { 210,2354 }, { 211,2354 },
- { 212,2354 }, { 213,2354 }, { 214,2354 }, { 215,2354 }, { 216,2354 },
+ { 167,2401 }, { 168,2401 }, { 169,2401 }, { 170,2401 }, { 171,2401 },
+ { 172,2401 }, { 173,2401 }, { 174,2401 }, { 175,2401 }, { 176,2401 },
+ { 177,2401 }, { 178,2401 }, { 179,2401 }, { 180,2401 }, { 181,2401 },
+ { 182,2401 }, { 183,2401 }, { 184,2401 }, { 185,2401 }, { 186,2401 },
+ { 187,2401 }, { 188,2401 }, { 189,2401 }, { 190,2401 }, { 191,2401 },
+ { 192,2401 }, { 193,2401 }, { 194,2401 }, { 195,2401 }, { 196,2401 },
+ { 197,2401 }, { 198,2401 }, { 199,2401 }, { 200,2401 }, { 201,2401 },
+ { 202,2401 }, { 203,2401 }, { 204,2401 }, { 205,2401 }, { 206,2401 },
+ { 207,2401 }, { 208,2401 }, { 209,2401 }, { 210,2401 }, { 211,2401 },
+ { 212,2401 }, { 213,2401 }, { 214,2401 }, { 215,2401 }, { 216,2401 },
 
- { 217,2354 }, { 218,2354 }, { 219,2354 }, { 220,2354 }, { 221,2354 },
- { 222,2354 }, { 223,2354 }, { 224,2354 }, { 225,2354 }, { 226,2354 },
- { 227,2354 }, { 228,2354 }, { 229,2354 }, { 230,2354 }, { 231,2354 },
- { 232,2354 }, { 233,2354 }, { 234,2354 }, { 235,2354 }, { 236,2354 },
- { 237,2354 }, { 238,2354 }, { 239,2354 }, { 240,2354 }, { 241,2354 },
- { 242,2354 }, { 243,2354 }, { 244,2354 }, { 245,2354 }, { 246,2354 },
- { 247,2354 }, { 248,2354 }, { 249,2354 }, { 250,2354 }, { 251,2354 },
- { 252,2354 }, { 253,2354 }, { 254,2354 }, { 255,2354 }, {   0,  38 },
- {   0,7324 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2401 }, { 218,2401 }, { 219,2401 }, { 220,2401 }, { 221,2401 },
+ { 222,2401 }, { 223,2401 }, { 224,2401 }, { 225,2401 }, { 226,2401 },
+ { 227,2401 }, { 228,2401 }, { 229,2401 }, { 230,2401 }, { 231,2401 },
+ { 232,2401 }, { 233,2401 }, { 234,2401 }, { 235,2401 }, { 236,2401 },
+ { 237,2401 }, { 238,2401 }, { 239,2401 }, { 240,2401 }, { 241,2401 },
+ { 242,2401 }, { 243,2401 }, { 244,2401 }, { 245,2401 }, { 246,2401 },
+ { 247,2401 }, { 248,2401 }, { 249,2401 }, { 250,2401 }, { 251,2401 },
+ { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  38 },
+ {   0,7428 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[20169] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7066 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7170 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,21 +3484,21 @@ static const struct yy_trans_info yy_transition[20169] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6808 }, {   0,  29 }, {   0,6806 }, {   0,  20 },
- {   0,6804 }, {   0,  27 }, {   0,6802 }, {   0,  30 }, {   0,6800 },
- {   9,1470 }, {  10,1470 }, {   0,  21 }, {   0,6796 }, {  13,1470 },
- {   0,  18 }, {   0,6793 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6912 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   9,1523 }, {  10,1523 }, {   0,   0 }, {   0,   0 }, {  13,1523 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1470 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1470 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1523 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1523 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1478 }, {  45,1476 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1480 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[20169] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1470 }, { 126,1470 }, {   0,  49 }, {   0,6680 },
+ {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  49 }, {   0,6784 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,1421 +3568,1443 @@ static const struct yy_trans_info yy_transition[20169] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6422 }, {   1,-5644 }, {   2,-5644 },
- {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
-
- {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
- {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
- {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
- {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
- {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
- {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
- {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
-
- {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
- {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
- {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
- {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
- {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
- {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
- {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
- {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
- { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
-
- { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1709 }, { 116,-5644 }, { 117,-5644 },
- { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
- {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
- { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
- { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
- { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
- { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
- { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
- { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
-
- { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
- { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
- { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
- { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
- { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
- { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
- { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
- { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
- { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
- { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
-
- { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
- { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
- { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
- { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
- { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
- { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
- { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
- { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
- { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
- { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
-
- {   0,6164 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
- {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
- {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
- {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
- {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
- {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
- {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
-
- {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
- {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
- {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
- {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
- {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
- {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
- {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
- {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
- {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
-
- { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1709 }, { 109,-5902 },
- { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
- { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
- { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
- { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
- { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
- { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
- { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
- { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
-
- { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
- { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
- { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
- { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
- { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
- { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
- { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
- { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
- { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
- { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
-
- { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
- { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
- { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
- { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
- { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
- { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
- { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
- { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
- { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
- { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
-
- { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5906 }, {   1,-6160 },
- {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
- {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
- {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
- {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
- {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
- {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
- {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
- {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
- {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
- {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
- {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
- {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
- {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
- {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
- {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
- {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1709 },
- { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
- { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
- { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
- { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
- { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
- { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
- { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
- { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
-
- { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
- { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
- { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
- { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
- { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
- { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
- { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
- { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
- { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
- { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
-
- { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
- { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
- { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
- { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
- { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
- { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
- { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
- { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
- { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
- { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
-
- { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
- { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
- { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5648 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
- {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
- {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
- {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
- {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
- {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
- {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
- {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
- {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
- {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
- {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
- {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
- {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
- {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
-
- {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
- {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1709 }, { 102,-6418 }, { 103,-6418 },
- { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
- { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
- { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
- { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
- { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
- { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
-
- { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
- { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
- { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
- { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
- { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
- { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
- { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
- { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
- { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
- { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
-
- { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
- { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
- { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
- { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
- { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
- { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
- { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
- { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
- { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
- { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
-
- { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
- { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
- { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
- { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5390 },
- {   0,  24 }, {   0,5388 }, {   0,   0 }, {   0,5386 }, {   0,  26 },
- {   0,5384 }, {   0,  30 }, {   0,5382 }, {   9,   0 }, {  10,   0 },
- {   9,1707 }, {  10,1707 }, {  13,   0 }, {   0,   0 }, {  13,1707 },
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,5370 },
- {  13,  -8 }, {   0,   0 }, {   0,5367 }, {   0,  37 }, {   0,5365 },
-
- {   0,   0 }, {   0,5363 }, {   0,   0 }, {   0,5361 }, {   0,   0 },
- {   0,5359 }, {  32,   0 }, {   0,   0 }, {  32,1707 }, {   0,   0 },
- {   0,5354 }, {   0,   1 }, {   0,5352 }, {   0,   0 }, {  32,  -8 },
- {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
- {  38,-1420 }, {   0,   4 }, {   0,5342 }, {   0,   0 }, {  42,-1418 },
- {   0,  47 }, {   0,5338 }, {   0,  41 }, {   0,5336 }, {  47,-1414 },
- {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,5330 },
- {  13,   0 }, {  33,  -2 }, {   0,  20 }, {   0,5326 }, {   0,  19 },
- {   0,5324 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
- {   0,   0 }, {  45,1701 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {  45,2046 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
- {   0,   0 }, { 108,1711 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 125,1709 }, { 126,1711 }, { 123,1711 }, {   0,   0 },
- { 123,1713 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1704 },
- {   0,   0 }, {   0,   0 }, { 125,1703 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2062 }, {   0,   0 },
- { 123,2062 }, {   0,   4 }, {   0,5227 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,-115 }, {  11,   0 }, {  12,   0 },
+ { 256,-3745 }, {   0,  48 }, {   0,6526 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   9,1756 }, {  10,1756 }, {   0,   0 }, {   0,   0 },
+ {  13,1756 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
+ {   0,6498 }, {   0,   0 }, {   0,  36 }, {   0,6495 }, {  32,1756 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,6468 }, {   0,   0 }, {   0,6466 }, {   1,-5704 }, {   2,-5704 },
+ {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
+ {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
+ {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
+ {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
+ {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
+ {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
+ {   0,  37 }, {   0,6432 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
+
+ {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
+ {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
+ {  58,-5704 }, {   0,   0 }, {   0,   0 }, {  61,-5729 }, {   0,   0 },
+ {  63,-5704 }, { 124,1145 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
+ {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
+ {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
+ {  78,-5704 }, {  79,-5704 }, {  80,-5704 }, {  81,-5704 }, {  82,-5704 },
+ {  83,-5704 }, {  84,-5704 }, {  85,-5704 }, {  86,-5704 }, {  87,-5704 },
+ {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,1767 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-5704 }, { 125,1768 }, {  97,-5704 },
+
+ {  98,-5704 }, {  99,-5704 }, { 100,-5704 }, { 101,-5704 }, { 102,-5704 },
+ { 103,-5704 }, { 104,-5704 }, { 105,-5704 }, { 106,-5704 }, { 107,-5704 },
+ { 108,-5704 }, { 109,-5704 }, { 110,-5704 }, { 111,-5704 }, { 112,-5704 },
+ { 113,-5704 }, { 114,-5704 }, { 115,1756 }, { 116,-5704 }, { 117,-5704 },
+ { 118,-5704 }, { 119,-5704 }, { 120,-5704 }, { 121,-5704 }, { 122,-5704 },
+ { 125,1743 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
+ { 128,-5704 }, { 129,-5704 }, { 130,-5704 }, { 131,-5704 }, { 132,-5704 },
+ { 133,-5704 }, { 134,-5704 }, { 135,-5704 }, { 136,-5704 }, { 137,-5704 },
+ { 138,-5704 }, { 139,-5704 }, { 140,-5704 }, { 141,-5704 }, { 142,-5704 },
+ { 143,-5704 }, { 144,-5704 }, { 145,-5704 }, { 146,-5704 }, { 147,-5704 },
+
+ { 148,-5704 }, { 149,-5704 }, { 150,-5704 }, { 151,-5704 }, { 152,-5704 },
+ { 153,-5704 }, { 154,-5704 }, { 155,-5704 }, { 156,-5704 }, { 157,-5704 },
+ { 158,-5704 }, { 159,-5704 }, { 160,-5704 }, { 161,-5704 }, { 162,-5704 },
+ { 163,-5704 }, { 164,-5704 }, { 165,-5704 }, { 166,-5704 }, { 167,-5704 },
+ { 168,-5704 }, { 169,-5704 }, { 170,-5704 }, { 171,-5704 }, { 172,-5704 },
+ { 173,-5704 }, { 174,-5704 }, { 175,-5704 }, { 176,-5704 }, { 177,-5704 },
+ { 178,-5704 }, { 179,-5704 }, { 180,-5704 }, { 181,-5704 }, { 182,-5704 },
+ { 183,-5704 }, { 184,-5704 }, { 185,-5704 }, { 186,-5704 }, { 187,-5704 },
+ { 188,-5704 }, { 189,-5704 }, { 190,-5704 }, { 191,-5704 }, { 192,-5704 },
+ { 193,-5704 }, { 194,-5704 }, { 195,-5704 }, { 196,-5704 }, { 197,-5704 },
+
+ { 198,-5704 }, { 199,-5704 }, { 200,-5704 }, { 201,-5704 }, { 202,-5704 },
+ { 203,-5704 }, { 204,-5704 }, { 205,-5704 }, { 206,-5704 }, { 207,-5704 },
+ { 208,-5704 }, { 209,-5704 }, { 210,-5704 }, { 211,-5704 }, { 212,-5704 },
+ { 213,-5704 }, { 214,-5704 }, { 215,-5704 }, { 216,-5704 }, { 217,-5704 },
+ { 218,-5704 }, { 219,-5704 }, { 220,-5704 }, { 221,-5704 }, { 222,-5704 },
+ { 223,-5704 }, { 224,-5704 }, { 225,-5704 }, { 226,-5704 }, { 227,-5704 },
+ { 228,-5704 }, { 229,-5704 }, { 230,-5704 }, { 231,-5704 }, { 232,-5704 },
+ { 233,-5704 }, { 234,-5704 }, { 235,-5704 }, { 236,-5704 }, { 237,-5704 },
+ { 238,-5704 }, { 239,-5704 }, { 240,-5704 }, { 241,-5704 }, { 242,-5704 },
+ { 243,-5704 }, { 244,-5704 }, { 245,-5704 }, { 246,-5704 }, { 247,-5704 },
+
+ { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
+ { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
+ {   0,6208 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
+ {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
+ {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
+ {  20,-5962 }, {  21,-5962 }, {  22,-5962 }, {  23,-5962 }, {  24,-5962 },
+ {  25,-5962 }, {  26,-5962 }, {  27,-5962 }, {  28,-5962 }, {  29,-5962 },
+ {  30,-5962 }, {  31,-5962 }, {  32,-5987 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  41,-5987 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-5962 }, {  46,-5987 }, {  47,-5987 }, {  48,-5962 }, {  49,-5962 },
+ {  50,-5962 }, {  51,-5962 }, {  52,-5962 }, {  53,-5962 }, {  54,-5962 },
+ {  55,-5962 }, {  56,-5962 }, {  57,-5962 }, {  58,-5962 }, {   0,   0 },
+ {   0,   0 }, {  61,-5987 }, {   0,   0 }, {  63,-5962 }, {   0,   0 },
+ {  65,-5962 }, {  66,-5962 }, {  67,-5962 }, {  68,-5962 }, {  69,-5962 },
+ {  70,-5962 }, {  71,-5962 }, {  72,-5962 }, {  73,-5962 }, {  74,-5962 },
+ {  75,-5962 }, {  76,-5962 }, {  77,-5962 }, {  78,-5962 }, {  79,-5962 },
+ {  80,-5962 }, {  81,-5962 }, {  82,-5962 }, {  83,-5962 }, {  84,-5962 },
+ {  85,-5962 }, {  86,-5962 }, {  87,-5962 }, {  88,-5962 }, {  89,-5962 },
+
+ {  90,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-5962 }, {   0,   0 }, {  97,-5962 }, {  98,-5962 }, {  99,-5962 },
+ { 100,-5962 }, { 101,-5962 }, { 102,-5962 }, { 103,-5962 }, { 104,-5962 },
+ { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,1756 }, { 109,-5962 },
+ { 110,-5962 }, { 111,-5962 }, { 112,-5962 }, { 113,-5962 }, { 114,-5962 },
+ { 115,-5962 }, { 116,-5962 }, { 117,-5962 }, { 118,-5962 }, { 119,-5962 },
+ { 120,-5962 }, { 121,-5962 }, { 122,-5962 }, {   0,   0 }, { 124,-5987 },
+ { 125,-5987 }, { 126,-5987 }, { 127,-5962 }, { 128,-5962 }, { 129,-5962 },
+ { 130,-5962 }, { 131,-5962 }, { 132,-5962 }, { 133,-5962 }, { 134,-5962 },
+ { 135,-5962 }, { 136,-5962 }, { 137,-5962 }, { 138,-5962 }, { 139,-5962 },
+
+ { 140,-5962 }, { 141,-5962 }, { 142,-5962 }, { 143,-5962 }, { 144,-5962 },
+ { 145,-5962 }, { 146,-5962 }, { 147,-5962 }, { 148,-5962 }, { 149,-5962 },
+ { 150,-5962 }, { 151,-5962 }, { 152,-5962 }, { 153,-5962 }, { 154,-5962 },
+ { 155,-5962 }, { 156,-5962 }, { 157,-5962 }, { 158,-5962 }, { 159,-5962 },
+ { 160,-5962 }, { 161,-5962 }, { 162,-5962 }, { 163,-5962 }, { 164,-5962 },
+ { 165,-5962 }, { 166,-5962 }, { 167,-5962 }, { 168,-5962 }, { 169,-5962 },
+ { 170,-5962 }, { 171,-5962 }, { 172,-5962 }, { 173,-5962 }, { 174,-5962 },
+ { 175,-5962 }, { 176,-5962 }, { 177,-5962 }, { 178,-5962 }, { 179,-5962 },
+ { 180,-5962 }, { 181,-5962 }, { 182,-5962 }, { 183,-5962 }, { 184,-5962 },
+ { 185,-5962 }, { 186,-5962 }, { 187,-5962 }, { 188,-5962 }, { 189,-5962 },
+
+ { 190,-5962 }, { 191,-5962 }, { 192,-5962 }, { 193,-5962 }, { 194,-5962 },
+ { 195,-5962 }, { 196,-5962 }, { 197,-5962 }, { 198,-5962 }, { 199,-5962 },
+ { 200,-5962 }, { 201,-5962 }, { 202,-5962 }, { 203,-5962 }, { 204,-5962 },
+ { 205,-5962 }, { 206,-5962 }, { 207,-5962 }, { 208,-5962 }, { 209,-5962 },
+ { 210,-5962 }, { 211,-5962 }, { 212,-5962 }, { 213,-5962 }, { 214,-5962 },
+ { 215,-5962 }, { 216,-5962 }, { 217,-5962 }, { 218,-5962 }, { 219,-5962 },
+ { 220,-5962 }, { 221,-5962 }, { 222,-5962 }, { 223,-5962 }, { 224,-5962 },
+ { 225,-5962 }, { 226,-5962 }, { 227,-5962 }, { 228,-5962 }, { 229,-5962 },
+ { 230,-5962 }, { 231,-5962 }, { 232,-5962 }, { 233,-5962 }, { 234,-5962 },
+ { 235,-5962 }, { 236,-5962 }, { 237,-5962 }, { 238,-5962 }, { 239,-5962 },
+
+ { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
+ { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
+ { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,5950 }, {   1,-6220 },
+ {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
+ {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
+ {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
+ {  17,-6220 }, {  18,-6220 }, {  19,-6220 }, {  20,-6220 }, {  21,-6220 },
+ {  22,-6220 }, {  23,-6220 }, {  24,-6220 }, {  25,-6220 }, {  26,-6220 },
+ {  27,-6220 }, {  28,-6220 }, {  29,-6220 }, {  30,-6220 }, {  31,-6220 },
+
+ {  32,-6245 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6220 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6245 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6220 }, {  46,-6245 },
+ {  47,-6245 }, {  48,-6220 }, {  49,-6220 }, {  50,-6220 }, {  51,-6220 },
+ {  52,-6220 }, {  53,-6220 }, {  54,-6220 }, {  55,-6220 }, {  56,-6220 },
+ {  57,-6220 }, {  58,-6220 }, {   0,   0 }, {   0,   0 }, {  61,-6245 },
+ {   0,   0 }, {  63,-6220 }, {   0,   0 }, {  65,-6220 }, {  66,-6220 },
+ {  67,-6220 }, {  68,-6220 }, {  69,-6220 }, {  70,-6220 }, {  71,-6220 },
+ {  72,-6220 }, {  73,-6220 }, {  74,-6220 }, {  75,-6220 }, {  76,-6220 },
+ {  77,-6220 }, {  78,-6220 }, {  79,-6220 }, {  80,-6220 }, {  81,-6220 },
+
+ {  82,-6220 }, {  83,-6220 }, {  84,-6220 }, {  85,-6220 }, {  86,-6220 },
+ {  87,-6220 }, {  88,-6220 }, {  89,-6220 }, {  90,-6220 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6220 }, {   0,   0 },
+ {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,1756 },
+ { 102,-6220 }, { 103,-6220 }, { 104,-6220 }, { 105,-6220 }, { 106,-6220 },
+ { 107,-6220 }, { 108,-6220 }, { 109,-6220 }, { 110,-6220 }, { 111,-6220 },
+ { 112,-6220 }, { 113,-6220 }, { 114,-6220 }, { 115,-6220 }, { 116,-6220 },
+ { 117,-6220 }, { 118,-6220 }, { 119,-6220 }, { 120,-6220 }, { 121,-6220 },
+ { 122,-6220 }, {   0,   0 }, { 124,-6245 }, { 125,-6245 }, { 126,-6245 },
+ { 127,-6220 }, { 128,-6220 }, { 129,-6220 }, { 130,-6220 }, { 131,-6220 },
+
+ { 132,-6220 }, { 133,-6220 }, { 134,-6220 }, { 135,-6220 }, { 136,-6220 },
+ { 137,-6220 }, { 138,-6220 }, { 139,-6220 }, { 140,-6220 }, { 141,-6220 },
+ { 142,-6220 }, { 143,-6220 }, { 144,-6220 }, { 145,-6220 }, { 146,-6220 },
+ { 147,-6220 }, { 148,-6220 }, { 149,-6220 }, { 150,-6220 }, { 151,-6220 },
+ { 152,-6220 }, { 153,-6220 }, { 154,-6220 }, { 155,-6220 }, { 156,-6220 },
+ { 157,-6220 }, { 158,-6220 }, { 159,-6220 }, { 160,-6220 }, { 161,-6220 },
+ { 162,-6220 }, { 163,-6220 }, { 164,-6220 }, { 165,-6220 }, { 166,-6220 },
+ { 167,-6220 }, { 168,-6220 }, { 169,-6220 }, { 170,-6220 }, { 171,-6220 },
+ { 172,-6220 }, { 173,-6220 }, { 174,-6220 }, { 175,-6220 }, { 176,-6220 },
+ { 177,-6220 }, { 178,-6220 }, { 179,-6220 }, { 180,-6220 }, { 181,-6220 },
+
+ { 182,-6220 }, { 183,-6220 }, { 184,-6220 }, { 185,-6220 }, { 186,-6220 },
+ { 187,-6220 }, { 188,-6220 }, { 189,-6220 }, { 190,-6220 }, { 191,-6220 },
+ { 192,-6220 }, { 193,-6220 }, { 194,-6220 }, { 195,-6220 }, { 196,-6220 },
+ { 197,-6220 }, { 198,-6220 }, { 199,-6220 }, { 200,-6220 }, { 201,-6220 },
+ { 202,-6220 }, { 203,-6220 }, { 204,-6220 }, { 205,-6220 }, { 206,-6220 },
+ { 207,-6220 }, { 208,-6220 }, { 209,-6220 }, { 210,-6220 }, { 211,-6220 },
+ { 212,-6220 }, { 213,-6220 }, { 214,-6220 }, { 215,-6220 }, { 216,-6220 },
+ { 217,-6220 }, { 218,-6220 }, { 219,-6220 }, { 220,-6220 }, { 221,-6220 },
+ { 222,-6220 }, { 223,-6220 }, { 224,-6220 }, { 225,-6220 }, { 226,-6220 },
+ { 227,-6220 }, { 228,-6220 }, { 229,-6220 }, { 230,-6220 }, { 231,-6220 },
+
+ { 232,-6220 }, { 233,-6220 }, { 234,-6220 }, { 235,-6220 }, { 236,-6220 },
+ { 237,-6220 }, { 238,-6220 }, { 239,-6220 }, { 240,-6220 }, { 241,-6220 },
+ { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
+ { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
+ { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
+ {   0,   0 }, {   0,5692 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
+ {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
+ {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
+ {  19,-6478 }, {  20,-6478 }, {  21,-6478 }, {  22,-6478 }, {  23,-6478 },
+
+ {  24,-6478 }, {  25,-6478 }, {  26,-6478 }, {  27,-6478 }, {  28,-6478 },
+ {  29,-6478 }, {  30,-6478 }, {  31,-6478 }, {  32,-6503 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-6478 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-6503 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-6478 }, {  46,-6503 }, {  47,-6503 }, {  48,-6478 },
+ {  49,-6478 }, {  50,-6478 }, {  51,-6478 }, {  52,-6478 }, {  53,-6478 },
+ {  54,-6478 }, {  55,-6478 }, {  56,-6478 }, {  57,-6478 }, {  58,-6478 },
+ {   0,   0 }, {   0,   0 }, {  61,-6503 }, {   0,   0 }, {  63,-6478 },
+ {   0,   0 }, {  65,-6478 }, {  66,-6478 }, {  67,-6478 }, {  68,-6478 },
+ {  69,-6478 }, {  70,-6478 }, {  71,-6478 }, {  72,-6478 }, {  73,-6478 },
+
+ {  74,-6478 }, {  75,-6478 }, {  76,-6478 }, {  77,-6478 }, {  78,-6478 },
+ {  79,-6478 }, {  80,-6478 }, {  81,-6478 }, {  82,-6478 }, {  83,-6478 },
+ {  84,-6478 }, {  85,-6478 }, {  86,-6478 }, {  87,-6478 }, {  88,-6478 },
+ {  89,-6478 }, {  90,-6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-6478 }, {   0,   0 }, {  97,-6478 }, {  98,-6478 },
+ {  99,-6478 }, { 100,-6478 }, { 101,1756 }, { 102,-6478 }, { 103,-6478 },
+ { 104,-6478 }, { 105,-6478 }, { 106,-6478 }, { 107,-6478 }, { 108,-6478 },
+ { 109,-6478 }, { 110,-6478 }, { 111,-6478 }, { 112,-6478 }, { 113,-6478 },
+ { 114,-6478 }, { 115,-6478 }, { 116,-6478 }, { 117,-6478 }, { 118,-6478 },
+ { 119,-6478 }, { 120,-6478 }, { 121,-6478 }, { 122,-6478 }, {   0,   0 },
+
+ { 124,-6503 }, { 125,-6503 }, { 126,-6503 }, { 127,-6478 }, { 128,-6478 },
+ { 129,-6478 }, { 130,-6478 }, { 131,-6478 }, { 132,-6478 }, { 133,-6478 },
+ { 134,-6478 }, { 135,-6478 }, { 136,-6478 }, { 137,-6478 }, { 138,-6478 },
+ { 139,-6478 }, { 140,-6478 }, { 141,-6478 }, { 142,-6478 }, { 143,-6478 },
+ { 144,-6478 }, { 145,-6478 }, { 146,-6478 }, { 147,-6478 }, { 148,-6478 },
+ { 149,-6478 }, { 150,-6478 }, { 151,-6478 }, { 152,-6478 }, { 153,-6478 },
+ { 154,-6478 }, { 155,-6478 }, { 156,-6478 }, { 157,-6478 }, { 158,-6478 },
+ { 159,-6478 }, { 160,-6478 }, { 161,-6478 }, { 162,-6478 }, { 163,-6478 },
+ { 164,-6478 }, { 165,-6478 }, { 166,-6478 }, { 167,-6478 }, { 168,-6478 },
+ { 169,-6478 }, { 170,-6478 }, { 171,-6478 }, { 172,-6478 }, { 173,-6478 },
+
+ { 174,-6478 }, { 175,-6478 }, { 176,-6478 }, { 177,-6478 }, { 178,-6478 },
+ { 179,-6478 }, { 180,-6478 }, { 181,-6478 }, { 182,-6478 }, { 183,-6478 },
+ { 184,-6478 }, { 185,-6478 }, { 186,-6478 }, { 187,-6478 }, { 188,-6478 },
+ { 189,-6478 }, { 190,-6478 }, { 191,-6478 }, { 192,-6478 }, { 193,-6478 },
+ { 194,-6478 }, { 195,-6478 }, { 196,-6478 }, { 197,-6478 }, { 198,-6478 },
+ { 199,-6478 }, { 200,-6478 }, { 201,-6478 }, { 202,-6478 }, { 203,-6478 },
+ { 204,-6478 }, { 205,-6478 }, { 206,-6478 }, { 207,-6478 }, { 208,-6478 },
+ { 209,-6478 }, { 210,-6478 }, { 211,-6478 }, { 212,-6478 }, { 213,-6478 },
+ { 214,-6478 }, { 215,-6478 }, { 216,-6478 }, { 217,-6478 }, { 218,-6478 },
+ { 219,-6478 }, { 220,-6478 }, { 221,-6478 }, { 222,-6478 }, { 223,-6478 },
+
+ { 224,-6478 }, { 225,-6478 }, { 226,-6478 }, { 227,-6478 }, { 228,-6478 },
+ { 229,-6478 }, { 230,-6478 }, { 231,-6478 }, { 232,-6478 }, { 233,-6478 },
+ { 234,-6478 }, { 235,-6478 }, { 236,-6478 }, { 237,-6478 }, { 238,-6478 },
+ { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
+ { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
+ { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,5434 },
+ {   0,  24 }, {   0,5432 }, {   0,   0 }, {   0,5430 }, {   0,   0 },
+ {   0,5428 }, {   0,  30 }, {   0,5426 }, {   9,   0 }, {  10,   0 },
+ {   9,1754 }, {  10,1754 }, {  13,   0 }, {   0,   0 }, {  13,1754 },
+
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,5414 },
+ {  13,  -8 }, {   0,   0 }, {   0,5411 }, {   0,   1 }, {   0,5409 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,1754 }, {   0,   0 },
+ {   0,   0 }, {   0,   4 }, {   0,5396 }, {  33,  -2 }, {  32,  -8 },
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  47 }, {   0,5389 },
+ {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45, 708 }, {  42,-2374 },
+ {  13,   0 }, {   0,  41 }, {   0,5381 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,5376 }, {   0,  20 }, {   0,5374 },
+ {   0,  19 }, {   0,5372 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,-2267 }, {  94,  -6 }, {  45,2092 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,5317 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 115 }, { 126, 688 }, {   0,   0 }, {   0,   0 },
+ { 123, 697 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,1864 }, {   0,   0 }, {   0,   0 },
+ { 123,2119 }, {   0,   0 }, { 123,2119 }, {   0,   4 }, {   0,5284 },
+ {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-112 },
+ {  11,   0 }, {  12,   0 }, {  13,-112 }, {  14,   0 }, {  15,   0 },
 
- {  13,-115 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+ {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+ {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
+ {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+ {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
+ {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
+ {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
+ {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
 
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {   0,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+ {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+ {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
+ {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+ {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+ {  91,   0 }, { 125,2035 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
+ {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
+ { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
+ { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
 
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
+ { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
+ { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
+ { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+ { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+ { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
+ { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
+ { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
 
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+ { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+ { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
+ { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+ { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+ { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
+ { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
+ { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
 
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,4970 },
- {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 },
-
- {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-372 },
- {  11,-257 }, {  12,-257 }, {  13,-372 }, {  14,-257 }, {  15,-257 },
- {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 },
- {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 },
- {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 },
- {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 },
- {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 },
- {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 },
- {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 },
- {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 },
-
- {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 },
- {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 },
- {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 },
- {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 },
- {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 },
- {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 },
- {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 },
- {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 },
- {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 },
- { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 },
-
- { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 },
- { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 },
- { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 },
- { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 },
- { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 },
- { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 },
- { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 },
- { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 },
- { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 },
- { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 },
-
- { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 },
- { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 },
- { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 },
- { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 },
- { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 },
- { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 },
- { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 },
- { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 },
- { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 },
- { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 },
-
- { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 },
- { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 },
- { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 },
- { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 },
- { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 },
- { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 },
- { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 },
- { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 },
- { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 },
- { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 },
-
- {   0,   0 }, {   0,4713 }, {   1,-7353 }, {   2,-7353 }, {   3,-7353 },
- {   4,-7353 }, {   5,-7353 }, {   6,-7353 }, {   7,-7353 }, {   8,-7353 },
- {   9,-7378 }, {  10,-7378 }, {  11,-7353 }, {  12,-7353 }, {  13,-7378 },
- {  14,-7353 }, {  15,-7353 }, {  16,-7353 }, {  17,-7353 }, {  18,-7353 },
- {  19,-7353 }, {  20,-7353 }, {  21,-7353 }, {  22,-7353 }, {  23,-7353 },
- {  24,-7353 }, {  25,-7353 }, {  26,-7353 }, {  27,-7353 }, {  28,-7353 },
- {  29,-7353 }, {  30,-7353 }, {  31,-7353 }, {  32,-7378 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-7353 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-7378 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-7353 }, {  46,-7378 }, {  47,-7378 }, {  48,-7353 },
-
- {  49,-7353 }, {  50,-7353 }, {  51,-7353 }, {  52,-7353 }, {  53,-7353 },
- {  54,-7353 }, {  55,-7353 }, {  56,-7353 }, {  57,-7353 }, {  58,-7353 },
- {   0,   0 }, {   0,   0 }, {  61,-7378 }, {   0,   0 }, {  63,-7353 },
- {   0,   0 }, {  65,-7353 }, {  66,-7353 }, {  67,-7353 }, {  68,-7353 },
- {  69,-7353 }, {  70,-7353 }, {  71,-7353 }, {  72,-7353 }, {  73,-7353 },
- {  74,-7353 }, {  75,-7353 }, {  76,-7353 }, {  77,-7353 }, {  78,-7353 },
- {  79,-7353 }, {  80,-7353 }, {  81,-7353 }, {  82,-7353 }, {  83,-7353 },
- {  84,-7353 }, {  85,-7353 }, {  86,-7353 }, {  87,-7353 }, {  88,-7353 },
- {  89,-7353 }, {  90,-7353 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-7353 }, {   0,   0 }, {  97,-7353 }, {  98,-7353 },
-
- {  99,-7353 }, { 100,-7353 }, { 101,1448 }, { 102,-7353 }, { 103,-7353 },
- { 104,-7353 }, { 105,-7353 }, { 106,-7353 }, { 107,-7353 }, { 108,-7353 },
- { 109,-7353 }, { 110,-7353 }, { 111,-7353 }, { 112,-7353 }, { 113,-7353 },
- { 114,-7353 }, { 115,-7353 }, { 116,-7353 }, { 117,-7353 }, { 118,-7353 },
- { 119,-7353 }, { 120,-7353 }, { 121,-7353 }, { 122,-7353 }, {   0,   0 },
- { 124,-7378 }, { 125,-7378 }, { 126,-7378 }, { 127,-7353 }, { 128,-7353 },
- { 129,-7353 }, { 130,-7353 }, { 131,-7353 }, { 132,-7353 }, { 133,-7353 },
- { 134,-7353 }, { 135,-7353 }, { 136,-7353 }, { 137,-7353 }, { 138,-7353 },
- { 139,-7353 }, { 140,-7353 }, { 141,-7353 }, { 142,-7353 }, { 143,-7353 },
- { 144,-7353 }, { 145,-7353 }, { 146,-7353 }, { 147,-7353 }, { 148,-7353 },
-
- { 149,-7353 }, { 150,-7353 }, { 151,-7353 }, { 152,-7353 }, { 153,-7353 },
- { 154,-7353 }, { 155,-7353 }, { 156,-7353 }, { 157,-7353 }, { 158,-7353 },
- { 159,-7353 }, { 160,-7353 }, { 161,-7353 }, { 162,-7353 }, { 163,-7353 },
- { 164,-7353 }, { 165,-7353 }, { 166,-7353 }, { 167,-7353 }, { 168,-7353 },
- { 169,-7353 }, { 170,-7353 }, { 171,-7353 }, { 172,-7353 }, { 173,-7353 },
- { 174,-7353 }, { 175,-7353 }, { 176,-7353 }, { 177,-7353 }, { 178,-7353 },
- { 179,-7353 }, { 180,-7353 }, { 181,-7353 }, { 182,-7353 }, { 183,-7353 },
- { 184,-7353 }, { 185,-7353 }, { 186,-7353 }, { 187,-7353 }, { 188,-7353 },
- { 189,-7353 }, { 190,-7353 }, { 191,-7353 }, { 192,-7353 }, { 193,-7353 },
- { 194,-7353 }, { 195,-7353 }, { 196,-7353 }, { 197,-7353 }, { 198,-7353 },
-
- { 199,-7353 }, { 200,-7353 }, { 201,-7353 }, { 202,-7353 }, { 203,-7353 },
- { 204,-7353 }, { 205,-7353 }, { 206,-7353 }, { 207,-7353 }, { 208,-7353 },
- { 209,-7353 }, { 210,-7353 }, { 211,-7353 }, { 212,-7353 }, { 213,-7353 },
- { 214,-7353 }, { 215,-7353 }, { 216,-7353 }, { 217,-7353 }, { 218,-7353 },
- { 219,-7353 }, { 220,-7353 }, { 221,-7353 }, { 222,-7353 }, { 223,-7353 },
- { 224,-7353 }, { 225,-7353 }, { 226,-7353 }, { 227,-7353 }, { 228,-7353 },
- { 229,-7353 }, { 230,-7353 }, { 231,-7353 }, { 232,-7353 }, { 233,-7353 },
- { 234,-7353 }, { 235,-7353 }, { 236,-7353 }, { 237,-7353 }, { 238,-7353 },
- { 239,-7353 }, { 240,-7353 }, { 241,-7353 }, { 242,-7353 }, { 243,-7353 },
- { 244,-7353 }, { 245,-7353 }, { 246,-7353 }, { 247,-7353 }, { 248,-7353 },
-
- { 249,-7353 }, { 250,-7353 }, { 251,-7353 }, { 252,-7353 }, { 253,-7353 },
- { 254,-7353 }, { 255,-7353 }, { 256,-7353 }, {   0,   0 }, {   0,4455 },
- {   1,-7611 }, {   2,-7611 }, {   3,-7611 }, {   4,-7611 }, {   5,-7611 },
- {   6,-7611 }, {   7,-7611 }, {   8,-7611 }, {   9,1167 }, {  10,1167 },
- {  11,-7611 }, {  12,-7611 }, {  13,1167 }, {  14,-7611 }, {  15,-7611 },
- {  16,-7611 }, {  17,-7611 }, {  18,-7611 }, {  19,-7611 }, {  20,-7611 },
- {  21,-7611 }, {  22,-7611 }, {  23,-7611 }, {  24,-7611 }, {  25,-7611 },
- {  26,-7611 }, {  27,-7611 }, {  28,-7611 }, {  29,-7611 }, {  30,-7611 },
- {  31,-7611 }, {  32,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-7611 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7611 },
- {  46,-7636 }, {  47,-7636 }, {  48,-7611 }, {  49,-7611 }, {  50,-7611 },
- {  51,-7611 }, {  52,-7611 }, {  53,-7611 }, {  54,-7611 }, {  55,-7611 },
- {  56,-7611 }, {  57,-7611 }, {  58,-7611 }, {   0,   0 }, {   0,   0 },
- {  61,-7636 }, {   0,   0 }, {  63,-7611 }, {   0,   0 }, {  65,-7611 },
- {  66,-7611 }, {  67,-7611 }, {  68,-7611 }, {  69,-7611 }, {  70,-7611 },
- {  71,-7611 }, {  72,-7611 }, {  73,-7611 }, {  74,-7611 }, {  75,-7611 },
- {  76,-7611 }, {  77,-7611 }, {  78,-7611 }, {  79,-7611 }, {  80,-7611 },
- {  81,-7611 }, {  82,-7611 }, {  83,-7611 }, {  84,-7611 }, {  85,-7611 },
- {  86,-7611 }, {  87,-7611 }, {  88,-7611 }, {  89,-7611 }, {  90,-7611 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7611 },
- {   0,   0 }, {  97,-7611 }, {  98,-7611 }, {  99,-7611 }, { 100,-7611 },
- { 101,-7611 }, { 102,-7611 }, { 103,-7611 }, { 104,-7611 }, { 105,-7611 },
- { 106,-7611 }, { 107,-7611 }, { 108,-7611 }, { 109,-7611 }, { 110,-7611 },
- { 111,-7611 }, { 112,-7611 }, { 113,-7611 }, { 114,-7611 }, { 115,-7611 },
- { 116,-7611 }, { 117,-7611 }, { 118,-7611 }, { 119,-7611 }, { 120,-7611 },
- { 121,-7611 }, { 122,-7611 }, {   0,   0 }, { 124,-7636 }, { 125,1167 },
- { 126,1167 }, { 127,-7611 }, { 128,-7611 }, { 129,-7611 }, { 130,-7611 },
- { 131,-7611 }, { 132,-7611 }, { 133,-7611 }, { 134,-7611 }, { 135,-7611 },
- { 136,-7611 }, { 137,-7611 }, { 138,-7611 }, { 139,-7611 }, { 140,-7611 },
-
- { 141,-7611 }, { 142,-7611 }, { 143,-7611 }, { 144,-7611 }, { 145,-7611 },
- { 146,-7611 }, { 147,-7611 }, { 148,-7611 }, { 149,-7611 }, { 150,-7611 },
- { 151,-7611 }, { 152,-7611 }, { 153,-7611 }, { 154,-7611 }, { 155,-7611 },
- { 156,-7611 }, { 157,-7611 }, { 158,-7611 }, { 159,-7611 }, { 160,-7611 },
- { 161,-7611 }, { 162,-7611 }, { 163,-7611 }, { 164,-7611 }, { 165,-7611 },
- { 166,-7611 }, { 167,-7611 }, { 168,-7611 }, { 169,-7611 }, { 170,-7611 },
- { 171,-7611 }, { 172,-7611 }, { 173,-7611 }, { 174,-7611 }, { 175,-7611 },
- { 176,-7611 }, { 177,-7611 }, { 178,-7611 }, { 179,-7611 }, { 180,-7611 },
- { 181,-7611 }, { 182,-7611 }, { 183,-7611 }, { 184,-7611 }, { 185,-7611 },
- { 186,-7611 }, { 187,-7611 }, { 188,-7611 }, { 189,-7611 }, { 190,-7611 },
-
- { 191,-7611 }, { 192,-7611 }, { 193,-7611 }, { 194,-7611 }, { 195,-7611 },
- { 196,-7611 }, { 197,-7611 }, { 198,-7611 }, { 199,-7611 }, { 200,-7611 },
- { 201,-7611 }, { 202,-7611 }, { 203,-7611 }, { 204,-7611 }, { 205,-7611 },
- { 206,-7611 }, { 207,-7611 }, { 208,-7611 }, { 209,-7611 }, { 210,-7611 },
- { 211,-7611 }, { 212,-7611 }, { 213,-7611 }, { 214,-7611 }, { 215,-7611 },
- { 216,-7611 }, { 217,-7611 }, { 218,-7611 }, { 219,-7611 }, { 220,-7611 },
- { 221,-7611 }, { 222,-7611 }, { 223,-7611 }, { 224,-7611 }, { 225,-7611 },
- { 226,-7611 }, { 227,-7611 }, { 228,-7611 }, { 229,-7611 }, { 230,-7611 },
- { 231,-7611 }, { 232,-7611 }, { 233,-7611 }, { 234,-7611 }, { 235,-7611 },
- { 236,-7611 }, { 237,-7611 }, { 238,-7611 }, { 239,-7611 }, { 240,-7611 },
-
- { 241,-7611 }, { 242,-7611 }, { 243,-7611 }, { 244,-7611 }, { 245,-7611 },
- { 246,-7611 }, { 247,-7611 }, { 248,-7611 }, { 249,-7611 }, { 250,-7611 },
- { 251,-7611 }, { 252,-7611 }, { 253,-7611 }, { 254,-7611 }, { 255,-7611 },
- { 256,-7611 }, {   0,   0 }, {   0,4197 }, {   1,-7869 }, {   2,-7869 },
- {   3,-7869 }, {   4,-7869 }, {   5,-7869 }, {   6,-7869 }, {   7,-7869 },
- {   8,-7869 }, {   9, 911 }, {  10, 911 }, {  11,-7869 }, {  12,-7869 },
- {  13, 911 }, {  14,-7869 }, {  15,-7869 }, {  16,-7869 }, {  17,-7869 },
- {  18,-7869 }, {  19,-7869 }, {  20,-7869 }, {  21,-7869 }, {  22,-7869 },
- {  23,-7869 }, {  24,-7869 }, {  25,-7869 }, {  26,-7869 }, {  27,-7869 },
- {  28,-7869 }, {  29,-7869 }, {  30,-7869 }, {  31,-7869 }, {  32, 911 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7869 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7869 }, {  46,-7894 }, {  47,-7894 },
- {  48,-7869 }, {  49,-7869 }, {  50,-7869 }, {  51,-7869 }, {  52,-7869 },
- {  53,-7869 }, {  54,-7869 }, {  55,-7869 }, {  56,-7869 }, {  57,-7869 },
- {  58,-7869 }, {   0,   0 }, {   0,   0 }, {  61,-7894 }, {   0,   0 },
- {  63,-7869 }, {   0,   0 }, {  65,-7869 }, {  66,-7869 }, {  67,-7869 },
- {  68,-7869 }, {  69,-7869 }, {  70,-7869 }, {  71,-7869 }, {  72,-7869 },
- {  73,-7869 }, {  74,-7869 }, {  75,-7869 }, {  76,-7869 }, {  77,-7869 },
- {  78,-7869 }, {  79,-7869 }, {  80,-7869 }, {  81,-7869 }, {  82,-7869 },
-
- {  83,-7869 }, {  84,-7869 }, {  85,-7869 }, {  86,-7869 }, {  87,-7869 },
- {  88,-7869 }, {  89,-7869 }, {  90,-7869 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7869 }, {   0,   0 }, {  97,-7869 },
- {  98,-7869 }, {  99,-7869 }, { 100,-7869 }, { 101,-7869 }, { 102,-7869 },
- { 103,-7869 }, { 104,-7869 }, { 105,-7869 }, { 106,-7869 }, { 107,-7869 },
- { 108,-7869 }, { 109,-7869 }, { 110,-7869 }, { 111,-7869 }, { 112,-7869 },
- { 113,-7869 }, { 114,-7869 }, { 115,-7869 }, { 116,-7869 }, { 117,-7869 },
- { 118,-7869 }, { 119,-7869 }, { 120,-7869 }, { 121,-7869 }, { 122,-7869 },
- {   0,   0 }, { 124,-7894 }, { 125, 911 }, { 126, 911 }, { 127,-7869 },
- { 128,-7869 }, { 129,-7869 }, { 130,-7869 }, { 131,-7869 }, { 132,-7869 },
-
- { 133,-7869 }, { 134,-7869 }, { 135,-7869 }, { 136,-7869 }, { 137,-7869 },
- { 138,-7869 }, { 139,-7869 }, { 140,-7869 }, { 141,-7869 }, { 142,-7869 },
- { 143,-7869 }, { 144,-7869 }, { 145,-7869 }, { 146,-7869 }, { 147,-7869 },
- { 148,-7869 }, { 149,-7869 }, { 150,-7869 }, { 151,-7869 }, { 152,-7869 },
- { 153,-7869 }, { 154,-7869 }, { 155,-7869 }, { 156,-7869 }, { 157,-7869 },
- { 158,-7869 }, { 159,-7869 }, { 160,-7869 }, { 161,-7869 }, { 162,-7869 },
- { 163,-7869 }, { 164,-7869 }, { 165,-7869 }, { 166,-7869 }, { 167,-7869 },
- { 168,-7869 }, { 169,-7869 }, { 170,-7869 }, { 171,-7869 }, { 172,-7869 },
- { 173,-7869 }, { 174,-7869 }, { 175,-7869 }, { 176,-7869 }, { 177,-7869 },
- { 178,-7869 }, { 179,-7869 }, { 180,-7869 }, { 181,-7869 }, { 182,-7869 },
-
- { 183,-7869 }, { 184,-7869 }, { 185,-7869 }, { 186,-7869 }, { 187,-7869 },
- { 188,-7869 }, { 189,-7869 }, { 190,-7869 }, { 191,-7869 }, { 192,-7869 },
- { 193,-7869 }, { 194,-7869 }, { 195,-7869 }, { 196,-7869 }, { 197,-7869 },
- { 198,-7869 }, { 199,-7869 }, { 200,-7869 }, { 201,-7869 }, { 202,-7869 },
- { 203,-7869 }, { 204,-7869 }, { 205,-7869 }, { 206,-7869 }, { 207,-7869 },
- { 208,-7869 }, { 209,-7869 }, { 210,-7869 }, { 211,-7869 }, { 212,-7869 },
- { 213,-7869 }, { 214,-7869 }, { 215,-7869 }, { 216,-7869 }, { 217,-7869 },
- { 218,-7869 }, { 219,-7869 }, { 220,-7869 }, { 221,-7869 }, { 222,-7869 },
- { 223,-7869 }, { 224,-7869 }, { 225,-7869 }, { 226,-7869 }, { 227,-7869 },
- { 228,-7869 }, { 229,-7869 }, { 230,-7869 }, { 231,-7869 }, { 232,-7869 },
-
- { 233,-7869 }, { 234,-7869 }, { 235,-7869 }, { 236,-7869 }, { 237,-7869 },
- { 238,-7869 }, { 239,-7869 }, { 240,-7869 }, { 241,-7869 }, { 242,-7869 },
- { 243,-7869 }, { 244,-7869 }, { 245,-7869 }, { 246,-7869 }, { 247,-7869 },
- { 248,-7869 }, { 249,-7869 }, { 250,-7869 }, { 251,-7869 }, { 252,-7869 },
- { 253,-7869 }, { 254,-7869 }, { 255,-7869 }, { 256,-7869 }, {   0,   0 },
- {   0,3939 }, {   1,-8127 }, {   2,-8127 }, {   3,-8127 }, {   4,-8127 },
- {   5,-8127 }, {   6,-8127 }, {   7,-8127 }, {   8,-8127 }, {   9,-8152 },
- {  10,-8152 }, {  11,-8127 }, {  12,-8127 }, {  13,-8152 }, {  14,-8127 },
- {  15,-8127 }, {  16,-8127 }, {  17,-8127 }, {  18,-8127 }, {  19,-8127 },
- {  20,-8127 }, {  21,-8127 }, {  22,-8127 }, {  23,-8127 }, {  24,-8127 },
-
- {  25,-8127 }, {  26,-8127 }, {  27,-8127 }, {  28,-8127 }, {  29,-8127 },
- {  30,-8127 }, {  31,-8127 }, {  32,-8152 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-8152 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8127 }, {  46,-8152 }, {  47,-8152 }, {  48,-8127 }, {  49,-8127 },
- {  50,-8127 }, {  51,-8127 }, {  52,-8127 }, {  53,-8127 }, {  54,-8127 },
- {  55,-8127 }, {  56,-8127 }, {  57,-8127 }, {  58,-8127 }, {   0,   0 },
- {   0,   0 }, {  61,-8152 }, {   0,   0 }, {  63,-8127 }, {   0,   0 },
- {  65,-8127 }, {  66,-8127 }, {  67,-8127 }, {  68,-8127 }, {  69,-8127 },
- {  70,-8127 }, {  71,-8127 }, {  72,-8127 }, {  73,-8127 }, {  74,-8127 },
-
- {  75,-8127 }, {  76,-8127 }, {  77,-8127 }, {  78,-8127 }, {  79,-8127 },
- {  80,-8127 }, {  81,-8127 }, {  82,-8127 }, {  83,-8127 }, {  84,-8127 },
- {  85,-8127 }, {  86,-8127 }, {  87,-8127 }, {  88,-8127 }, {  89,-8127 },
- {  90,-8127 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8127 }, {   0,   0 }, {  97,-8127 }, {  98,-8127 }, {  99,-8127 },
- { 100,-8127 }, { 101,-8127 }, { 102, 932 }, { 103,-8127 }, { 104,-8127 },
- { 105,-8127 }, { 106,-8127 }, { 107,-8127 }, { 108,-8127 }, { 109,-8127 },
- { 110,-8127 }, { 111,-8127 }, { 112,-8127 }, { 113,-8127 }, { 114,-8127 },
- { 115,-8127 }, { 116,-8127 }, { 117,-8127 }, { 118,-8127 }, { 119,-8127 },
- { 120,-8127 }, { 121,-8127 }, { 122,-8127 }, {   0,   0 }, { 124,-8152 },
-
- { 125,-8152 }, { 126,-8152 }, { 127,-8127 }, { 128,-8127 }, { 129,-8127 },
- { 130,-8127 }, { 131,-8127 }, { 132,-8127 }, { 133,-8127 }, { 134,-8127 },
- { 135,-8127 }, { 136,-8127 }, { 137,-8127 }, { 138,-8127 }, { 139,-8127 },
- { 140,-8127 }, { 141,-8127 }, { 142,-8127 }, { 143,-8127 }, { 144,-8127 },
- { 145,-8127 }, { 146,-8127 }, { 147,-8127 }, { 148,-8127 }, { 149,-8127 },
- { 150,-8127 }, { 151,-8127 }, { 152,-8127 }, { 153,-8127 }, { 154,-8127 },
- { 155,-8127 }, { 156,-8127 }, { 157,-8127 }, { 158,-8127 }, { 159,-8127 },
- { 160,-8127 }, { 161,-8127 }, { 162,-8127 }, { 163,-8127 }, { 164,-8127 },
- { 165,-8127 }, { 166,-8127 }, { 167,-8127 }, { 168,-8127 }, { 169,-8127 },
- { 170,-8127 }, { 171,-8127 }, { 172,-8127 }, { 173,-8127 }, { 174,-8127 },
-
- { 175,-8127 }, { 176,-8127 }, { 177,-8127 }, { 178,-8127 }, { 179,-8127 },
- { 180,-8127 }, { 181,-8127 }, { 182,-8127 }, { 183,-8127 }, { 184,-8127 },
- { 185,-8127 }, { 186,-8127 }, { 187,-8127 }, { 188,-8127 }, { 189,-8127 },
- { 190,-8127 }, { 191,-8127 }, { 192,-8127 }, { 193,-8127 }, { 194,-8127 },
- { 195,-8127 }, { 196,-8127 }, { 197,-8127 }, { 198,-8127 }, { 199,-8127 },
- { 200,-8127 }, { 201,-8127 }, { 202,-8127 }, { 203,-8127 }, { 204,-8127 },
- { 205,-8127 }, { 206,-8127 }, { 207,-8127 }, { 208,-8127 }, { 209,-8127 },
- { 210,-8127 }, { 211,-8127 }, { 212,-8127 }, { 213,-8127 }, { 214,-8127 },
- { 215,-8127 }, { 216,-8127 }, { 217,-8127 }, { 218,-8127 }, { 219,-8127 },
- { 220,-8127 }, { 221,-8127 }, { 222,-8127 }, { 223,-8127 }, { 224,-8127 },
-
- { 225,-8127 }, { 226,-8127 }, { 227,-8127 }, { 228,-8127 }, { 229,-8127 },
- { 230,-8127 }, { 231,-8127 }, { 232,-8127 }, { 233,-8127 }, { 234,-8127 },
- { 235,-8127 }, { 236,-8127 }, { 237,-8127 }, { 238,-8127 }, { 239,-8127 },
- { 240,-8127 }, { 241,-8127 }, { 242,-8127 }, { 243,-8127 }, { 244,-8127 },
- { 245,-8127 }, { 246,-8127 }, { 247,-8127 }, { 248,-8127 }, { 249,-8127 },
- { 250,-8127 }, { 251,-8127 }, { 252,-8127 }, { 253,-8127 }, { 254,-8127 },
- { 255,-8127 }, { 256,-8127 }, {   0,   0 }, {   0,3681 }, {   0,   0 },
- {   0,3679 }, {   0,   0 }, {   0,3677 }, {   0,   0 }, {   0,3675 },
- {   0,  16 }, {   0,3673 }, {   9,   0 }, {  10,   0 }, {   0,  26 },
- {   0,3669 }, {  13,   0 }, {   0,  17 }, {   0,3666 }, {   0,  36 },
-
- {   0,3664 }, {   0,   0 }, {   0,3662 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+ { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+ { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
+ { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+ { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+ { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
+ { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
+ {   0,   4 }, {   0,5027 }, {   1,-257 }, {   2,-257 }, {   3,-257 },
+ {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 },
+
+ {   9,-257 }, {  10,-369 }, {  11,-257 }, {  12,-257 }, {  13,-369 },
+ {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 },
+ {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 },
+ {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 },
+ {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 },
+ {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 },
+ {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 },
+ {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 },
+ {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 },
+ {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 },
+
+ {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 },
+ {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 },
+ {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 },
+ {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 },
+ {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 },
+ {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 },
+ {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 },
+ {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 },
+ {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 },
+ { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 },
+
+ { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 },
+ { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 },
+ { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 },
+ { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 },
+ { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 },
+ { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 },
+ { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 },
+ { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 },
+ { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 },
+ { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 },
+
+ { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 },
+ { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 },
+ { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 },
+ { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 },
+ { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 },
+ { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 },
+ { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 },
+ { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 },
+ { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 },
+ { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 },
+
+ { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 },
+ { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 },
+ { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 },
+ { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 },
+ { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 },
+ { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 },
+ { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 },
+ { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 },
+ { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 },
+ { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,4770 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
+ {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4744 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45, 913 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115, 400 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 }, { 126,   4 },
- { 125, 397 }, {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,3550 },
- {   1, 277 }, {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 },
- {   6, 277 }, {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 },
- {  11, 277 }, {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 },
- {  16, 277 }, {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 },
- {  21, 277 }, {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 },
- {  26, 277 }, {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 },
- {  31, 277 }, {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 },
-
- {  36, 277 }, {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 },
- {  41, 277 }, {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 },
- {  46, 277 }, {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 },
- {  51, 277 }, {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 },
- {  56, 277 }, {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 },
- {  61, 277 }, {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 },
- {  66, 277 }, {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 },
- {  71, 277 }, {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 },
- {  76, 277 }, {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 },
- {  81, 277 }, {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 },
-
- {  86, 277 }, {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 },
- {  91, 277 }, {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 },
- {  96, 277 }, {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 },
- { 101, 277 }, { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 },
- { 106, 277 }, { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 },
- { 111, 277 }, { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 },
- { 116, 277 }, { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 },
- { 121, 277 }, { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 },
- { 126, 277 }, { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 },
- { 131, 277 }, { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 },
-
- { 136, 277 }, { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 },
- { 141, 277 }, { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 },
- { 146, 277 }, { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 },
- { 151, 277 }, { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 },
- { 156, 277 }, { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 },
- { 161, 277 }, { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 },
- { 166, 277 }, { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 },
- { 171, 277 }, { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 },
- { 176, 277 }, { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 },
- { 181, 277 }, { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 },
-
- { 186, 277 }, { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 },
- { 191, 277 }, { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 },
- { 196, 277 }, { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 },
- { 201, 277 }, { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 },
- { 206, 277 }, { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 },
- { 211, 277 }, { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 },
- { 216, 277 }, { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 },
- { 221, 277 }, { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 },
- { 226, 277 }, { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 },
- { 231, 277 }, { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 },
-
- { 236, 277 }, { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 },
- { 241, 277 }, { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 },
- { 246, 277 }, { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 },
- { 251, 277 }, { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 },
- { 256, 277 }, {   0,   1 }, {   0,3292 }, {   0,   1 }, {   0,3290 },
- {   0,  46 }, {   0,3288 }, {   0,  43 }, {   0,3286 }, {   0,  28 },
- {   0,3284 }, {   0,  22 }, {   0,3282 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3275 },
- {   0,   8 }, {   0,3273 }, {   0,   1 }, {   0,3271 }, {   0,  44 },
- {   0,3269 }, {   0,  25 }, {   0,3267 }, {   0,   0 }, {   0,3265 },
-
- {   1,-8801 }, {   2,-8801 }, {   3,-8801 }, {   4,-8801 }, {   5,-8801 },
- {   6,-8801 }, {   7,-8801 }, {   8,-8801 }, {   9,  -4 }, {  10,  -4 },
- {  11,-8801 }, {  12,-8801 }, {  13,  -4 }, {  14,-8801 }, {  15,-8801 },
- {  16,-8801 }, {  17,-8801 }, {  18,-8801 }, {  19,-8801 }, {  20,-8801 },
- {  21,-8801 }, {  22,-8801 }, {  23,-8801 }, {  24,-8801 }, {  25,-8801 },
- {  26,-8801 }, {  27,-8801 }, {  28,-8801 }, {  29,-8801 }, {  30,-8801 },
- {  31,-8801 }, {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-8801 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8801 },
- {  46,-8826 }, {  47,-8826 }, {  48,-8801 }, {  49,-8801 }, {  50,-8801 },
-
- {  51,-8801 }, {  52,-8801 }, {  53,-8801 }, {  54,-8801 }, {  55,-8801 },
- {  56,-8801 }, {  57,-8801 }, {  58,-8801 }, {   0,   0 }, {   0,   0 },
- {  61,-8826 }, {   0,   0 }, {  63,-8801 }, {   0,   0 }, {  65,-8801 },
- {  66,-8801 }, {  67,-8801 }, {  68,-8801 }, {  69,-8801 }, {  70,-8801 },
- {  71,-8801 }, {  72,-8801 }, {  73,-8801 }, {  74,-8801 }, {  75,-8801 },
- {  76,-8801 }, {  77,-8801 }, {  78,-8801 }, {  79,-8801 }, {  80,-8801 },
- {  81,-8801 }, {  82,-8801 }, {  83,-8801 }, {  84,-8801 }, {  85,-8801 },
- {  86,-8801 }, {  87,-8801 }, {  88,-8801 }, {  89,-8801 }, {  90,-8801 },
- { 101,1300 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8801 },
- { 123,  21 }, {  97,-8801 }, {  98,-8801 }, {  99,-8801 }, { 100,-8801 },
-
- { 101,-8801 }, { 102,-8801 }, { 103,-8801 }, { 104,-8801 }, { 105,-8801 },
- { 106,-8801 }, { 107,-8801 }, { 108,-8801 }, { 109,-8801 }, { 110,-8801 },
- { 111,-8801 }, { 112,-8801 }, { 113,-8801 }, { 114,-8801 }, { 115,-8801 },
- { 116,-8801 }, { 117,-8801 }, { 118,-8801 }, { 119,-8801 }, { 120,-8801 },
- { 121,-8801 }, { 122,-8801 }, {   0,   0 }, { 124,-8826 }, { 125,  -4 },
- { 126,  -4 }, { 127,-8801 }, { 128,-8801 }, { 129,-8801 }, { 130,-8801 },
- { 131,-8801 }, { 132,-8801 }, { 133,-8801 }, { 134,-8801 }, { 135,-8801 },
- { 136,-8801 }, { 137,-8801 }, { 138,-8801 }, { 139,-8801 }, { 140,-8801 },
- { 141,-8801 }, { 142,-8801 }, { 143,-8801 }, { 144,-8801 }, { 145,-8801 },
- { 146,-8801 }, { 147,-8801 }, { 148,-8801 }, { 149,-8801 }, { 150,-8801 },
-
- { 151,-8801 }, { 152,-8801 }, { 153,-8801 }, { 154,-8801 }, { 155,-8801 },
- { 156,-8801 }, { 157,-8801 }, { 158,-8801 }, { 159,-8801 }, { 160,-8801 },
- { 161,-8801 }, { 162,-8801 }, { 163,-8801 }, { 164,-8801 }, { 165,-8801 },
- { 166,-8801 }, { 167,-8801 }, { 168,-8801 }, { 169,-8801 }, { 170,-8801 },
- { 171,-8801 }, { 172,-8801 }, { 173,-8801 }, { 174,-8801 }, { 175,-8801 },
- { 176,-8801 }, { 177,-8801 }, { 178,-8801 }, { 179,-8801 }, { 180,-8801 },
- { 181,-8801 }, { 182,-8801 }, { 183,-8801 }, { 184,-8801 }, { 185,-8801 },
- { 186,-8801 }, { 187,-8801 }, { 188,-8801 }, { 189,-8801 }, { 190,-8801 },
- { 191,-8801 }, { 192,-8801 }, { 193,-8801 }, { 194,-8801 }, { 195,-8801 },
- { 196,-8801 }, { 197,-8801 }, { 198,-8801 }, { 199,-8801 }, { 200,-8801 },
-
- { 201,-8801 }, { 202,-8801 }, { 203,-8801 }, { 204,-8801 }, { 205,-8801 },
- { 206,-8801 }, { 207,-8801 }, { 208,-8801 }, { 209,-8801 }, { 210,-8801 },
- { 211,-8801 }, { 212,-8801 }, { 213,-8801 }, { 214,-8801 }, { 215,-8801 },
- { 216,-8801 }, { 217,-8801 }, { 218,-8801 }, { 219,-8801 }, { 220,-8801 },
- { 221,-8801 }, { 222,-8801 }, { 223,-8801 }, { 224,-8801 }, { 225,-8801 },
- { 226,-8801 }, { 227,-8801 }, { 228,-8801 }, { 229,-8801 }, { 230,-8801 },
- { 231,-8801 }, { 232,-8801 }, { 233,-8801 }, { 234,-8801 }, { 235,-8801 },
- { 236,-8801 }, { 237,-8801 }, { 238,-8801 }, { 239,-8801 }, { 240,-8801 },
- { 241,-8801 }, { 242,-8801 }, { 243,-8801 }, { 244,-8801 }, { 245,-8801 },
- { 246,-8801 }, { 247,-8801 }, { 248,-8801 }, { 249,-8801 }, { 250,-8801 },
-
- { 251,-8801 }, { 252,-8801 }, { 253,-8801 }, { 254,-8801 }, { 255,-8801 },
- { 256,-8801 }, {   0,   0 }, {   0,3007 }, {   1,-9059 }, {   2,-9059 },
- {   3,-9059 }, {   4,-9059 }, {   5,-9059 }, {   6,-9059 }, {   7,-9059 },
- {   8,-9059 }, {   9,-9084 }, {  10,-9084 }, {  11,-9059 }, {  12,-9059 },
- {  13,-9084 }, {  14,-9059 }, {  15,-9059 }, {  16,-9059 }, {  17,-9059 },
- {  18,-9059 }, {  19,-9059 }, {  20,-9059 }, {  21,-9059 }, {  22,-9059 },
- {  23,-9059 }, {  24,-9059 }, {  25,-9059 }, {  26,-9059 }, {  27,-9059 },
- {  28,-9059 }, {  29,-9059 }, {  30,-9059 }, {  31,-9059 }, {  32,-9084 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9059 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9084 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  45,-9059 }, {  46,-9084 }, {  47,-9084 },
- {  48,-9059 }, {  49,-9059 }, {  50,-9059 }, {  51,-9059 }, {  52,-9059 },
- {  53,-9059 }, {  54,-9059 }, {  55,-9059 }, {  56,-9059 }, {  57,-9059 },
- {  58,-9059 }, {   0,   0 }, {   0,   0 }, {  61,-9084 }, {   0,   0 },
- {  63,-9059 }, {   0,   0 }, {  65,-9059 }, {  66,-9059 }, {  67,-9059 },
- {  68,-9059 }, {  69,-9059 }, {  70,-9059 }, {  71,-9059 }, {  72,-9059 },
- {  73,-9059 }, {  74,-9059 }, {  75,-9059 }, {  76,-9059 }, {  77,-9059 },
- {  78,-9059 }, {  79,-9059 }, {  80,-9059 }, {  81,-9059 }, {  82,-9059 },
- {  83,-9059 }, {  84,-9059 }, {  85,-9059 }, {  86,-9059 }, {  87,-9059 },
- {  88,-9059 }, {  89,-9059 }, {  90,-9059 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  95,-9059 }, {   0,   0 }, {  97,-9059 },
- {  98,-9059 }, {  99,-9059 }, { 100,-9059 }, { 101,-9059 }, { 102,-9059 },
- { 103,-9059 }, { 104,-9059 }, { 105, 774 }, { 106,-9059 }, { 107,-9059 },
- { 108,-9059 }, { 109,-9059 }, { 110,-9059 }, { 111,-9059 }, { 112,-9059 },
- { 113,-9059 }, { 114,-9059 }, { 115,-9059 }, { 116,-9059 }, { 117,-9059 },
- { 118,-9059 }, { 119,-9059 }, { 120,-9059 }, { 121,-9059 }, { 122,-9059 },
- {   0,   0 }, { 124,-9084 }, { 125,-9084 }, { 126,-9084 }, { 127,-9059 },
- { 128,-9059 }, { 129,-9059 }, { 130,-9059 }, { 131,-9059 }, { 132,-9059 },
- { 133,-9059 }, { 134,-9059 }, { 135,-9059 }, { 136,-9059 }, { 137,-9059 },
- { 138,-9059 }, { 139,-9059 }, { 140,-9059 }, { 141,-9059 }, { 142,-9059 },
-
- { 143,-9059 }, { 144,-9059 }, { 145,-9059 }, { 146,-9059 }, { 147,-9059 },
- { 148,-9059 }, { 149,-9059 }, { 150,-9059 }, { 151,-9059 }, { 152,-9059 },
- { 153,-9059 }, { 154,-9059 }, { 155,-9059 }, { 156,-9059 }, { 157,-9059 },
- { 158,-9059 }, { 159,-9059 }, { 160,-9059 }, { 161,-9059 }, { 162,-9059 },
- { 163,-9059 }, { 164,-9059 }, { 165,-9059 }, { 166,-9059 }, { 167,-9059 },
- { 168,-9059 }, { 169,-9059 }, { 170,-9059 }, { 171,-9059 }, { 172,-9059 },
- { 173,-9059 }, { 174,-9059 }, { 175,-9059 }, { 176,-9059 }, { 177,-9059 },
- { 178,-9059 }, { 179,-9059 }, { 180,-9059 }, { 181,-9059 }, { 182,-9059 },
- { 183,-9059 }, { 184,-9059 }, { 185,-9059 }, { 186,-9059 }, { 187,-9059 },
- { 188,-9059 }, { 189,-9059 }, { 190,-9059 }, { 191,-9059 }, { 192,-9059 },
-
- { 193,-9059 }, { 194,-9059 }, { 195,-9059 }, { 196,-9059 }, { 197,-9059 },
- { 198,-9059 }, { 199,-9059 }, { 200,-9059 }, { 201,-9059 }, { 202,-9059 },
- { 203,-9059 }, { 204,-9059 }, { 205,-9059 }, { 206,-9059 }, { 207,-9059 },
- { 208,-9059 }, { 209,-9059 }, { 210,-9059 }, { 211,-9059 }, { 212,-9059 },
- { 213,-9059 }, { 214,-9059 }, { 215,-9059 }, { 216,-9059 }, { 217,-9059 },
- { 218,-9059 }, { 219,-9059 }, { 220,-9059 }, { 221,-9059 }, { 222,-9059 },
- { 223,-9059 }, { 224,-9059 }, { 225,-9059 }, { 226,-9059 }, { 227,-9059 },
- { 228,-9059 }, { 229,-9059 }, { 230,-9059 }, { 231,-9059 }, { 232,-9059 },
- { 233,-9059 }, { 234,-9059 }, { 235,-9059 }, { 236,-9059 }, { 237,-9059 },
- { 238,-9059 }, { 239,-9059 }, { 240,-9059 }, { 241,-9059 }, { 242,-9059 },
-
- { 243,-9059 }, { 244,-9059 }, { 245,-9059 }, { 246,-9059 }, { 247,-9059 },
- { 248,-9059 }, { 249,-9059 }, { 250,-9059 }, { 251,-9059 }, { 252,-9059 },
- { 253,-9059 }, { 254,-9059 }, { 255,-9059 }, { 256,-9059 }, {   0,   0 },
- {   0,2749 }, {   1,1032 }, {   2,1032 }, {   3,1032 }, {   4,1032 },
- {   5,1032 }, {   6,1032 }, {   7,1032 }, {   8,1032 }, {   9,1032 },
- {  10,1032 }, {  11,1032 }, {  12,1032 }, {  13,1032 }, {  14,1032 },
- {  15,1032 }, {  16,1032 }, {  17,1032 }, {  18,1032 }, {  19,1032 },
- {  20,1032 }, {  21,1032 }, {  22,1032 }, {  23,1032 }, {  24,1032 },
- {  25,1032 }, {  26,1032 }, {  27,1032 }, {  28,1032 }, {  29,1032 },
- {  30,1032 }, {  31,1032 }, {  32,1032 }, {  33,1032 }, {  34,1032 },
-
- {  35,1032 }, {  36,1032 }, {  37,1032 }, {  38,1032 }, {  39,1032 },
- {  40,1032 }, {  41,1032 }, {  42,1032 }, {  43,1032 }, {  44,1032 },
- {  45,1290 }, {  46,1032 }, {  47,1032 }, {  48,1032 }, {  49,1032 },
- {  50,1032 }, {  51,1032 }, {  52,1032 }, {  53,1032 }, {  54,1032 },
- {  55,1032 }, {  56,1032 }, {  57,1032 }, {  58,1032 }, {  59,1032 },
- {  60,1032 }, {  61,1032 }, {  62,1032 }, {  63,1032 }, {  64,1032 },
- {  65,1032 }, {  66,1032 }, {  67,1032 }, {  68,1032 }, {  69,1032 },
- {  70,1032 }, {  71,1032 }, {  72,1032 }, {  73,1032 }, {  74,1032 },
- {  75,1032 }, {  76,1032 }, {  77,1032 }, {  78,1032 }, {  79,1032 },
- {  80,1032 }, {  81,1032 }, {  82,1032 }, {  83,1032 }, {  84,1032 },
-
- {  85,1032 }, {  86,1032 }, {  87,1032 }, {  88,1032 }, {  89,1032 },
- {  90,1032 }, {  91,1032 }, {  92,1032 }, {  93,1032 }, {  94,1032 },
- {  95,1032 }, {  96,1032 }, {  97,1032 }, {  98,1032 }, {  99,1032 },
- { 100,1032 }, { 101,1032 }, { 102,1032 }, { 103,1032 }, { 104,1032 },
- { 105,1032 }, { 106,1032 }, { 107,1032 }, { 108,1032 }, { 109,1032 },
- { 110,1032 }, { 111,1032 }, { 112,1032 }, { 113,1032 }, { 114,1032 },
- { 115,1032 }, { 116,1032 }, { 117,1032 }, { 118,1032 }, { 119,1032 },
- { 120,1032 }, { 121,1032 }, { 122,1032 }, { 123,1032 }, { 124,1032 },
- { 125,1032 }, { 126,1032 }, { 127,1032 }, { 128,1032 }, { 129,1032 },
- { 130,1032 }, { 131,1032 }, { 132,1032 }, { 133,1032 }, { 134,1032 },
-
- { 135,1032 }, { 136,1032 }, { 137,1032 }, { 138,1032 }, { 139,1032 },
- { 140,1032 }, { 141,1032 }, { 142,1032 }, { 143,1032 }, { 144,1032 },
- { 145,1032 }, { 146,1032 }, { 147,1032 }, { 148,1032 }, { 149,1032 },
- { 150,1032 }, { 151,1032 }, { 152,1032 }, { 153,1032 }, { 154,1032 },
- { 155,1032 }, { 156,1032 }, { 157,1032 }, { 158,1032 }, { 159,1032 },
- { 160,1032 }, { 161,1032 }, { 162,1032 }, { 163,1032 }, { 164,1032 },
- { 165,1032 }, { 166,1032 }, { 167,1032 }, { 168,1032 }, { 169,1032 },
- { 170,1032 }, { 171,1032 }, { 172,1032 }, { 173,1032 }, { 174,1032 },
- { 175,1032 }, { 176,1032 }, { 177,1032 }, { 178,1032 }, { 179,1032 },
- { 180,1032 }, { 181,1032 }, { 182,1032 }, { 183,1032 }, { 184,1032 },
-
- { 185,1032 }, { 186,1032 }, { 187,1032 }, { 188,1032 }, { 189,1032 },
- { 190,1032 }, { 191,1032 }, { 192,1032 }, { 193,1032 }, { 194,1032 },
- { 195,1032 }, { 196,1032 }, { 197,1032 }, { 198,1032 }, { 199,1032 },
- { 200,1032 }, { 201,1032 }, { 202,1032 }, { 203,1032 }, { 204,1032 },
- { 205,1032 }, { 206,1032 }, { 207,1032 }, { 208,1032 }, { 209,1032 },
- { 210,1032 }, { 211,1032 }, { 212,1032 }, { 213,1032 }, { 214,1032 },
- { 215,1032 }, { 216,1032 }, { 217,1032 }, { 218,1032 }, { 219,1032 },
- { 220,1032 }, { 221,1032 }, { 222,1032 }, { 223,1032 }, { 224,1032 },
- { 225,1032 }, { 226,1032 }, { 227,1032 }, { 228,1032 }, { 229,1032 },
- { 230,1032 }, { 231,1032 }, { 232,1032 }, { 233,1032 }, { 234,1032 },
-
- { 235,1032 }, { 236,1032 }, { 237,1032 }, { 238,1032 }, { 239,1032 },
- { 240,1032 }, { 241,1032 }, { 242,1032 }, { 243,1032 }, { 244,1032 },
- { 245,1032 }, { 246,1032 }, { 247,1032 }, { 248,1032 }, { 249,1032 },
- { 250,1032 }, { 251,1032 }, { 252,1032 }, { 253,1032 }, { 254,1032 },
- { 255,1032 }, { 256,1032 }, {   0,   0 }, {   0,2491 }, {   1,1290 },
- {   2,1290 }, {   3,1290 }, {   4,1290 }, {   5,1290 }, {   6,1290 },
- {   7,1290 }, {   8,1290 }, {   0,   0 }, {   0,   0 }, {  11,1290 },
- {  12,1290 }, {   0,   0 }, {  14,1290 }, {  15,1290 }, {  16,1290 },
- {  17,1290 }, {  18,1290 }, {  19,1290 }, {  20,1290 }, {  21,1290 },
- {  22,1290 }, {  23,1290 }, {  24,1290 }, {  25,1290 }, {  26,1290 },
-
- {  27,1290 }, {  28,1290 }, {  29,1290 }, {  30,1290 }, {  31,1290 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1290 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1290 }, {   0,   0 },
- {   0,   0 }, {  48,1290 }, {  49,1290 }, {  50,1290 }, {  51,1290 },
- {  52,1290 }, {  53,1290 }, {  54,1290 }, {  55,1290 }, {  56,1290 },
- {  57,1290 }, {  58,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,1290 }, {   0,   0 }, {  65,1290 }, {  66,1290 },
- {  67,1290 }, {  68,1290 }, {  69,1290 }, {  70,1290 }, {  71,1290 },
- {  72,1290 }, {  73,1290 }, {  74,1290 }, {  75,1290 }, {  76,1290 },
-
- {  77,1290 }, {  78,1290 }, {  79,1290 }, {  80,1290 }, {  81,1290 },
- {  82,1290 }, {  83,1290 }, {  84,1290 }, {  85,1290 }, {  86,1290 },
- {  87,1290 }, {  88,1290 }, {  89,1290 }, {  90,1290 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1290 }, {   0,   0 },
- {  97,1290 }, {  98,1290 }, {  99,1290 }, { 100,1290 }, { 101,1290 },
- { 102,1290 }, { 103,1290 }, { 104,1290 }, { 105,1290 }, { 106,1290 },
- { 107,1290 }, { 108,1290 }, { 109,1290 }, { 110,1290 }, { 111,1290 },
- { 112,1290 }, { 113,1290 }, { 114,1290 }, { 115,1290 }, { 116,1290 },
- { 117,1290 }, { 118,1290 }, { 119,1290 }, { 120,1290 }, { 121,1290 },
- { 122,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 127,1290 }, { 128,1290 }, { 129,1290 }, { 130,1290 }, { 131,1290 },
- { 132,1290 }, { 133,1290 }, { 134,1290 }, { 135,1290 }, { 136,1290 },
- { 137,1290 }, { 138,1290 }, { 139,1290 }, { 140,1290 }, { 141,1290 },
- { 142,1290 }, { 143,1290 }, { 144,1290 }, { 145,1290 }, { 146,1290 },
- { 147,1290 }, { 148,1290 }, { 149,1290 }, { 150,1290 }, { 151,1290 },
- { 152,1290 }, { 153,1290 }, { 154,1290 }, { 155,1290 }, { 156,1290 },
- { 157,1290 }, { 158,1290 }, { 159,1290 }, { 160,1290 }, { 161,1290 },
- { 162,1290 }, { 163,1290 }, { 164,1290 }, { 165,1290 }, { 166,1290 },
- { 167,1290 }, { 168,1290 }, { 169,1290 }, { 170,1290 }, { 171,1290 },
- { 172,1290 }, { 173,1290 }, { 174,1290 }, { 175,1290 }, { 176,1290 },
-
- { 177,1290 }, { 178,1290 }, { 179,1290 }, { 180,1290 }, { 181,1290 },
- { 182,1290 }, { 183,1290 }, { 184,1290 }, { 185,1290 }, { 186,1290 },
- { 187,1290 }, { 188,1290 }, { 189,1290 }, { 190,1290 }, { 191,1290 },
- { 192,1290 }, { 193,1290 }, { 194,1290 }, { 195,1290 }, { 196,1290 },
- { 197,1290 }, { 198,1290 }, { 199,1290 }, { 200,1290 }, { 201,1290 },
- { 202,1290 }, { 203,1290 }, { 204,1290 }, { 205,1290 }, { 206,1290 },
- { 207,1290 }, { 208,1290 }, { 209,1290 }, { 210,1290 }, { 211,1290 },
- { 212,1290 }, { 213,1290 }, { 214,1290 }, { 215,1290 }, { 216,1290 },
- { 217,1290 }, { 218,1290 }, { 219,1290 }, { 220,1290 }, { 221,1290 },
- { 222,1290 }, { 223,1290 }, { 224,1290 }, { 225,1290 }, { 226,1290 },
-
- { 227,1290 }, { 228,1290 }, { 229,1290 }, { 230,1290 }, { 231,1290 },
- { 232,1290 }, { 233,1290 }, { 234,1290 }, { 235,1290 }, { 236,1290 },
- { 237,1290 }, { 238,1290 }, { 239,1290 }, { 240,1290 }, { 241,1290 },
- { 242,1290 }, { 243,1290 }, { 244,1290 }, { 245,1290 }, { 246,1290 },
- { 247,1290 }, { 248,1290 }, { 249,1290 }, { 250,1290 }, { 251,1290 },
- { 252,1290 }, { 253,1290 }, { 254,1290 }, { 255,1290 }, { 256,1290 },
- {   0,   0 }, {   0,2233 }, {   1,-9833 }, {   2,-9833 }, {   3,-9833 },
- {   4,-9833 }, {   5,-9833 }, {   6,-9833 }, {   7,-9833 }, {   8,-9833 },
- {   9,-9858 }, {  10,-9858 }, {  11,-9833 }, {  12,-9833 }, {  13,-9858 },
- {  14,-9833 }, {  15,-9833 }, {  16,-9833 }, {  17,-9833 }, {  18,-9833 },
-
- {  19,-9833 }, {  20,-9833 }, {  21,-9833 }, {  22,-9833 }, {  23,-9833 },
- {  24,-9833 }, {  25,-9833 }, {  26,-9833 }, {  27,-9833 }, {  28,-9833 },
- {  29,-9833 }, {  30,-9833 }, {  31,-9833 }, {  32,-9858 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-9833 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-9858 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-9833 }, {  46,-9858 }, {  47,-9858 }, {  48,-9833 },
- {  49,-9833 }, {  50,-9833 }, {  51,-9833 }, {  52,-9833 }, {  53,-9833 },
- {  54,-9833 }, {  55,-9833 }, {  56,-9833 }, {  57,-9833 }, {  58,-9833 },
- {   0,   0 }, {   0,   0 }, {  61,-9858 }, {   0,   0 }, {  63,-9833 },
- {   0,   0 }, {  65,-9833 }, {  66,-9833 }, {  67,-9833 }, {  68,-9833 },
-
- {  69,-9833 }, {  70,-9833 }, {  71,-9833 }, {  72,-9833 }, {  73,-9833 },
- {  74,-9833 }, {  75,-9833 }, {  76,-9833 }, {  77,-9833 }, {  78,-9833 },
- {  79,-9833 }, {  80,-9833 }, {  81,-9833 }, {  82,-9833 }, {  83,-9833 },
- {  84,-9833 }, {  85,-9833 }, {  86,-9833 }, {  87,-9833 }, {  88,-9833 },
- {  89,-9833 }, {  90,-9833 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9833 }, {   0,   0 }, {  97,-9833 }, {  98,-9833 },
- {  99,-9833 }, { 100,-9833 }, { 101,-9833 }, { 102,-9833 }, { 103,-9833 },
- { 104,-9833 }, { 105,-9833 }, { 106,-9833 }, { 107,-9833 }, { 108,-9833 },
- { 109,-9833 }, { 110,1290 }, { 111,-9833 }, { 112,-9833 }, { 113,-9833 },
- { 114,-9833 }, { 115,-9833 }, { 116,-9833 }, { 117,-9833 }, { 118,-9833 },
-
- { 119,-9833 }, { 120,-9833 }, { 121,-9833 }, { 122,-9833 }, {   0,   0 },
- { 124,-9858 }, { 125,-9858 }, { 126,-9858 }, { 127,-9833 }, { 128,-9833 },
- { 129,-9833 }, { 130,-9833 }, { 131,-9833 }, { 132,-9833 }, { 133,-9833 },
- { 134,-9833 }, { 135,-9833 }, { 136,-9833 }, { 137,-9833 }, { 138,-9833 },
- { 139,-9833 }, { 140,-9833 }, { 141,-9833 }, { 142,-9833 }, { 143,-9833 },
- { 144,-9833 }, { 145,-9833 }, { 146,-9833 }, { 147,-9833 }, { 148,-9833 },
- { 149,-9833 }, { 150,-9833 }, { 151,-9833 }, { 152,-9833 }, { 153,-9833 },
- { 154,-9833 }, { 155,-9833 }, { 156,-9833 }, { 157,-9833 }, { 158,-9833 },
- { 159,-9833 }, { 160,-9833 }, { 161,-9833 }, { 162,-9833 }, { 163,-9833 },
- { 164,-9833 }, { 165,-9833 }, { 166,-9833 }, { 167,-9833 }, { 168,-9833 },
-
- { 169,-9833 }, { 170,-9833 }, { 171,-9833 }, { 172,-9833 }, { 173,-9833 },
- { 174,-9833 }, { 175,-9833 }, { 176,-9833 }, { 177,-9833 }, { 178,-9833 },
- { 179,-9833 }, { 180,-9833 }, { 181,-9833 }, { 182,-9833 }, { 183,-9833 },
- { 184,-9833 }, { 185,-9833 }, { 186,-9833 }, { 187,-9833 }, { 188,-9833 },
- { 189,-9833 }, { 190,-9833 }, { 191,-9833 }, { 192,-9833 }, { 193,-9833 },
- { 194,-9833 }, { 195,-9833 }, { 196,-9833 }, { 197,-9833 }, { 198,-9833 },
- { 199,-9833 }, { 200,-9833 }, { 201,-9833 }, { 202,-9833 }, { 203,-9833 },
- { 204,-9833 }, { 205,-9833 }, { 206,-9833 }, { 207,-9833 }, { 208,-9833 },
- { 209,-9833 }, { 210,-9833 }, { 211,-9833 }, { 212,-9833 }, { 213,-9833 },
- { 214,-9833 }, { 215,-9833 }, { 216,-9833 }, { 217,-9833 }, { 218,-9833 },
-
- { 219,-9833 }, { 220,-9833 }, { 221,-9833 }, { 222,-9833 }, { 223,-9833 },
- { 224,-9833 }, { 225,-9833 }, { 226,-9833 }, { 227,-9833 }, { 228,-9833 },
- { 229,-9833 }, { 230,-9833 }, { 231,-9833 }, { 232,-9833 }, { 233,-9833 },
- { 234,-9833 }, { 235,-9833 }, { 236,-9833 }, { 237,-9833 }, { 238,-9833 },
- { 239,-9833 }, { 240,-9833 }, { 241,-9833 }, { 242,-9833 }, { 243,-9833 },
- { 244,-9833 }, { 245,-9833 }, { 246,-9833 }, { 247,-9833 }, { 248,-9833 },
- { 249,-9833 }, { 250,-9833 }, { 251,-9833 }, { 252,-9833 }, { 253,-9833 },
- { 254,-9833 }, { 255,-9833 }, { 256,-9833 }, {   0,   0 }, {   0,1975 },
- {   1,-1292 }, {   2,-1292 }, {   3,-1292 }, {   4,-1292 }, {   5,-1292 },
- {   6,-1292 }, {   7,-1292 }, {   8,-1292 }, {   9,1290 }, {  10,1290 },
-
- {  11,-1292 }, {  12,-1292 }, {  13,1290 }, {  14,-1292 }, {  15,-1292 },
- {  16,-1292 }, {  17,-1292 }, {  18,-1292 }, {  19,-1292 }, {  20,-1292 },
- {  21,-1292 }, {  22,-1292 }, {  23,-1292 }, {  24,-1292 }, {  25,-1292 },
- {  26,-1292 }, {  27,-1292 }, {  28,-1292 }, {  29,-1292 }, {  30,-1292 },
- {  31,-1292 }, {  32,1290 }, {  33,-1292 }, {  34,-1292 }, {  35,-1292 },
- {  36,-1292 }, {  37,-1292 }, {  38,-1292 }, {  39,-1292 }, {  40,-1292 },
- {  41,-1292 }, {  42,-1292 }, {  43,-1292 }, {  44,-1292 }, {  45,-1292 },
- {  46,-1292 }, {  47,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  58,-1292 }, {  59,-1292 }, {  60,-1292 },
-
- {  61,-1292 }, {  62,-1292 }, {  63,-1292 }, {  64,-1292 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  91,-1292 }, {  92,-1292 }, {  93,-1292 }, {  94,-1292 }, {   0,   0 },
- {  96,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,-1292 }, { 124,-1292 }, { 125,1292 },
- { 126,1294 }, { 127,-1292 }, { 128,-1292 }, { 129,-1292 }, { 130,-1292 },
- { 131,-1292 }, { 132,-1292 }, { 133,-1292 }, { 134,-1292 }, { 135,-1292 },
- { 136,-1292 }, { 137,-1292 }, { 138,-1292 }, { 139,-1292 }, { 140,-1292 },
- { 141,-1292 }, { 142,-1292 }, { 143,-1292 }, { 144,-1292 }, { 145,-1292 },
- { 146,-1292 }, { 147,-1292 }, { 148,-1292 }, { 149,-1292 }, { 150,-1292 },
- { 151,-1292 }, { 152,-1292 }, { 153,-1292 }, { 154,-1292 }, { 155,-1292 },
- { 156,-1292 }, { 157,-1292 }, { 158,-1292 }, { 159,-1292 }, { 160,-1292 },
-
- { 161,-1292 }, { 162,-1292 }, { 163,-1292 }, { 164,-1292 }, { 165,-1292 },
- { 166,-1292 }, { 167,-1292 }, { 168,-1292 }, { 169,-1292 }, { 170,-1292 },
- { 171,-1292 }, { 172,-1292 }, { 173,-1292 }, { 174,-1292 }, { 175,-1292 },
- { 176,-1292 }, { 177,-1292 }, { 178,-1292 }, { 179,-1292 }, { 180,-1292 },
- { 181,-1292 }, { 182,-1292 }, { 183,-1292 }, { 184,-1292 }, { 185,-1292 },
- { 186,-1292 }, { 187,-1292 }, { 188,-1292 }, { 189,-1292 }, { 190,-1292 },
- { 191,-1292 }, { 192,-1292 }, { 193,-1292 }, { 194,-1292 }, { 195,-1292 },
- { 196,-1292 }, { 197,-1292 }, { 198,-1292 }, { 199,-1292 }, { 200,-1292 },
- { 201,-1292 }, { 202,-1292 }, { 203,-1292 }, { 204,-1292 }, { 205,-1292 },
- { 206,-1292 }, { 207,-1292 }, { 208,-1292 }, { 209,-1292 }, { 210,-1292 },
-
- { 211,-1292 }, { 212,-1292 }, { 213,-1292 }, { 214,-1292 }, { 215,-1292 },
- { 216,-1292 }, { 217,-1292 }, { 218,-1292 }, { 219,-1292 }, { 220,-1292 },
- { 221,-1292 }, { 222,-1292 }, { 223,-1292 }, { 224,-1292 }, { 225,-1292 },
- { 226,-1292 }, { 227,-1292 }, { 228,-1292 }, { 229,-1292 }, { 230,-1292 },
- { 231,-1292 }, { 232,-1292 }, { 233,-1292 }, { 234,-1292 }, { 235,-1292 },
- { 236,-1292 }, { 237,-1292 }, { 238,-1292 }, { 239,-1292 }, { 240,-1292 },
- { 241,-1292 }, { 242,-1292 }, { 243,-1292 }, { 244,-1292 }, { 245,-1292 },
- { 246,-1292 }, { 247,-1292 }, { 248,-1292 }, { 249,-1292 }, { 250,-1292 },
- { 251,-1292 }, { 252,-1292 }, { 253,-1292 }, { 254,-1292 }, { 255,-1292 },
- { 256,-1292 }, {   0,   0 }, {   0,1717 }, {   1,   0 }, {   2,   0 },
+ {   0,4733 }, {   0,  16 }, {   0,4731 }, {   0,  26 }, {   0,4729 },
+ {   0,  17 }, {   0,4727 }, {   0,  36 }, {   0,4725 }, {   0,   0 },
+ {   0,   0 }, {   0,4722 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4710 }, {   1,-7460 },
+ {   2,-7460 }, {   3,-7460 }, {   4,-7460 }, {   5,-7460 }, {   6,-7460 },
+ {   7,-7460 }, {   8,-7460 }, {   9,-7485 }, {  10,-7485 }, {  11,-7460 },
+ {  12,-7460 }, {  13,-7485 }, {  14,-7460 }, {  15,-7460 }, {  16,-7460 },
+ {  17,-7460 }, {  18,-7460 }, {  19,-7460 }, {  20,-7460 }, {  21,-7460 },
+ {  22,-7460 }, {  23,-7460 }, {  24,-7460 }, {  25,-7460 }, {  26,-7460 },
+ {  27,-7460 }, {  28,-7460 }, {  29,-7460 }, {  30,-7460 }, {  31,-7460 },
+ {  32,-7485 }, {  45,1973 }, {   0,   0 }, {   0,   0 }, {  36,-7460 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7485 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7460 }, {  46,-7485 },
+ {  47,-7485 }, {  48,-7460 }, {  49,-7460 }, {  50,-7460 }, {  51,-7460 },
+ {  52,-7460 }, {  53,-7460 }, {  54,-7460 }, {  55,-7460 }, {  56,-7460 },
+ {  57,-7460 }, {  58,-7460 }, {   0,   0 }, {   0,   0 }, {  61,-7485 },
+ {   0,   0 }, {  63,-7460 }, { 124,-611 }, {  65,-7460 }, {  66,-7460 },
+ {  67,-7460 }, {  68,-7460 }, {  69,-7460 }, {  70,-7460 }, {  71,-7460 },
+ {  72,-7460 }, {  73,-7460 }, {  74,-7460 }, {  75,-7460 }, {  76,-7460 },
+ {  77,-7460 }, {  78,-7460 }, {  79,-7460 }, {  80,-7460 }, {  81,-7460 },
+ {  82,-7460 }, {  83,-7460 }, {  84,-7460 }, {  85,-7460 }, {  86,-7460 },
+ {  87,-7460 }, {  88,-7460 }, {  89,-7460 }, {  90,-7460 }, { 125,-573 },
+
+ { 115,1458 }, {   0,   0 }, {   0,   0 }, {  95,-7460 }, {   0,   0 },
+ {  97,-7460 }, {  98,-7460 }, {  99,-7460 }, { 100,-7460 }, { 101,1445 },
+ { 102,-7460 }, { 103,-7460 }, { 104,-7460 }, { 105,-7460 }, { 106,-7460 },
+ { 107,-7460 }, { 108,-7460 }, { 109,-7460 }, { 110,-7460 }, { 111,-7460 },
+ { 112,-7460 }, { 113,-7460 }, { 114,-7460 }, { 115,-7460 }, { 116,-7460 },
+ { 117,-7460 }, { 118,-7460 }, { 119,-7460 }, { 120,-7460 }, { 121,-7460 },
+ { 122,-7460 }, {   0,   0 }, { 124,-7485 }, { 125,-7485 }, { 126,-7485 },
+ { 127,-7460 }, { 128,-7460 }, { 129,-7460 }, { 130,-7460 }, { 131,-7460 },
+ { 132,-7460 }, { 133,-7460 }, { 134,-7460 }, { 135,-7460 }, { 136,-7460 },
+ { 137,-7460 }, { 138,-7460 }, { 139,-7460 }, { 140,-7460 }, { 141,-7460 },
+
+ { 142,-7460 }, { 143,-7460 }, { 144,-7460 }, { 145,-7460 }, { 146,-7460 },
+ { 147,-7460 }, { 148,-7460 }, { 149,-7460 }, { 150,-7460 }, { 151,-7460 },
+ { 152,-7460 }, { 153,-7460 }, { 154,-7460 }, { 155,-7460 }, { 156,-7460 },
+ { 157,-7460 }, { 158,-7460 }, { 159,-7460 }, { 160,-7460 }, { 161,-7460 },
+ { 162,-7460 }, { 163,-7460 }, { 164,-7460 }, { 165,-7460 }, { 166,-7460 },
+ { 167,-7460 }, { 168,-7460 }, { 169,-7460 }, { 170,-7460 }, { 171,-7460 },
+ { 172,-7460 }, { 173,-7460 }, { 174,-7460 }, { 175,-7460 }, { 176,-7460 },
+ { 177,-7460 }, { 178,-7460 }, { 179,-7460 }, { 180,-7460 }, { 181,-7460 },
+ { 182,-7460 }, { 183,-7460 }, { 184,-7460 }, { 185,-7460 }, { 186,-7460 },
+ { 187,-7460 }, { 188,-7460 }, { 189,-7460 }, { 190,-7460 }, { 191,-7460 },
+
+ { 192,-7460 }, { 193,-7460 }, { 194,-7460 }, { 195,-7460 }, { 196,-7460 },
+ { 197,-7460 }, { 198,-7460 }, { 199,-7460 }, { 200,-7460 }, { 201,-7460 },
+ { 202,-7460 }, { 203,-7460 }, { 204,-7460 }, { 205,-7460 }, { 206,-7460 },
+ { 207,-7460 }, { 208,-7460 }, { 209,-7460 }, { 210,-7460 }, { 211,-7460 },
+ { 212,-7460 }, { 213,-7460 }, { 214,-7460 }, { 215,-7460 }, { 216,-7460 },
+ { 217,-7460 }, { 218,-7460 }, { 219,-7460 }, { 220,-7460 }, { 221,-7460 },
+ { 222,-7460 }, { 223,-7460 }, { 224,-7460 }, { 225,-7460 }, { 226,-7460 },
+ { 227,-7460 }, { 228,-7460 }, { 229,-7460 }, { 230,-7460 }, { 231,-7460 },
+ { 232,-7460 }, { 233,-7460 }, { 234,-7460 }, { 235,-7460 }, { 236,-7460 },
+ { 237,-7460 }, { 238,-7460 }, { 239,-7460 }, { 240,-7460 }, { 241,-7460 },
+
+ { 242,-7460 }, { 243,-7460 }, { 244,-7460 }, { 245,-7460 }, { 246,-7460 },
+ { 247,-7460 }, { 248,-7460 }, { 249,-7460 }, { 250,-7460 }, { 251,-7460 },
+ { 252,-7460 }, { 253,-7460 }, { 254,-7460 }, { 255,-7460 }, { 256,-7460 },
+ {   0,   0 }, {   0,4452 }, {   1,-7718 }, {   2,-7718 }, {   3,-7718 },
+ {   4,-7718 }, {   5,-7718 }, {   6,-7718 }, {   7,-7718 }, {   8,-7718 },
+ {   9,1164 }, {  10,1164 }, {  11,-7718 }, {  12,-7718 }, {  13,1164 },
+ {  14,-7718 }, {  15,-7718 }, {  16,-7718 }, {  17,-7718 }, {  18,-7718 },
+ {  19,-7718 }, {  20,-7718 }, {  21,-7718 }, {  22,-7718 }, {  23,-7718 },
+ {  24,-7718 }, {  25,-7718 }, {  26,-7718 }, {  27,-7718 }, {  28,-7718 },
+ {  29,-7718 }, {  30,-7718 }, {  31,-7718 }, {  32,1164 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,-7718 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1164 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-7718 }, {  46,-7743 }, {  47,-7743 }, {  48,-7718 },
+ {  49,-7718 }, {  50,-7718 }, {  51,-7718 }, {  52,-7718 }, {  53,-7718 },
+ {  54,-7718 }, {  55,-7718 }, {  56,-7718 }, {  57,-7718 }, {  58,-7718 },
+ {   0,   0 }, {   0,   0 }, {  61,-7743 }, {   0,   0 }, {  63,-7718 },
+ {   0,   0 }, {  65,-7718 }, {  66,-7718 }, {  67,-7718 }, {  68,-7718 },
+ {  69,-7718 }, {  70,-7718 }, {  71,-7718 }, {  72,-7718 }, {  73,-7718 },
+ {  74,-7718 }, {  75,-7718 }, {  76,-7718 }, {  77,-7718 }, {  78,-7718 },
+ {  79,-7718 }, {  80,-7718 }, {  81,-7718 }, {  82,-7718 }, {  83,-7718 },
+
+ {  84,-7718 }, {  85,-7718 }, {  86,-7718 }, {  87,-7718 }, {  88,-7718 },
+ {  89,-7718 }, {  90,-7718 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-7718 }, {   0,   0 }, {  97,-7718 }, {  98,-7718 },
+ {  99,-7718 }, { 100,-7718 }, { 101,-7718 }, { 102,-7718 }, { 103,-7718 },
+ { 104,-7718 }, { 105,-7718 }, { 106,-7718 }, { 107,-7718 }, { 108,-7718 },
+ { 109,-7718 }, { 110,-7718 }, { 111,-7718 }, { 112,-7718 }, { 113,-7718 },
+ { 114,-7718 }, { 115,-7718 }, { 116,-7718 }, { 117,-7718 }, { 118,-7718 },
+ { 119,-7718 }, { 120,-7718 }, { 121,-7718 }, { 122,-7718 }, {   0,   0 },
+ { 124,-7743 }, { 125,1164 }, { 126,1164 }, { 127,-7718 }, { 128,-7718 },
+ { 129,-7718 }, { 130,-7718 }, { 131,-7718 }, { 132,-7718 }, { 133,-7718 },
+
+ { 134,-7718 }, { 135,-7718 }, { 136,-7718 }, { 137,-7718 }, { 138,-7718 },
+ { 139,-7718 }, { 140,-7718 }, { 141,-7718 }, { 142,-7718 }, { 143,-7718 },
+ { 144,-7718 }, { 145,-7718 }, { 146,-7718 }, { 147,-7718 }, { 148,-7718 },
+ { 149,-7718 }, { 150,-7718 }, { 151,-7718 }, { 152,-7718 }, { 153,-7718 },
+ { 154,-7718 }, { 155,-7718 }, { 156,-7718 }, { 157,-7718 }, { 158,-7718 },
+ { 159,-7718 }, { 160,-7718 }, { 161,-7718 }, { 162,-7718 }, { 163,-7718 },
+ { 164,-7718 }, { 165,-7718 }, { 166,-7718 }, { 167,-7718 }, { 168,-7718 },
+ { 169,-7718 }, { 170,-7718 }, { 171,-7718 }, { 172,-7718 }, { 173,-7718 },
+ { 174,-7718 }, { 175,-7718 }, { 176,-7718 }, { 177,-7718 }, { 178,-7718 },
+ { 179,-7718 }, { 180,-7718 }, { 181,-7718 }, { 182,-7718 }, { 183,-7718 },
+
+ { 184,-7718 }, { 185,-7718 }, { 186,-7718 }, { 187,-7718 }, { 188,-7718 },
+ { 189,-7718 }, { 190,-7718 }, { 191,-7718 }, { 192,-7718 }, { 193,-7718 },
+ { 194,-7718 }, { 195,-7718 }, { 196,-7718 }, { 197,-7718 }, { 198,-7718 },
+ { 199,-7718 }, { 200,-7718 }, { 201,-7718 }, { 202,-7718 }, { 203,-7718 },
+ { 204,-7718 }, { 205,-7718 }, { 206,-7718 }, { 207,-7718 }, { 208,-7718 },
+ { 209,-7718 }, { 210,-7718 }, { 211,-7718 }, { 212,-7718 }, { 213,-7718 },
+ { 214,-7718 }, { 215,-7718 }, { 216,-7718 }, { 217,-7718 }, { 218,-7718 },
+ { 219,-7718 }, { 220,-7718 }, { 221,-7718 }, { 222,-7718 }, { 223,-7718 },
+ { 224,-7718 }, { 225,-7718 }, { 226,-7718 }, { 227,-7718 }, { 228,-7718 },
+ { 229,-7718 }, { 230,-7718 }, { 231,-7718 }, { 232,-7718 }, { 233,-7718 },
+
+ { 234,-7718 }, { 235,-7718 }, { 236,-7718 }, { 237,-7718 }, { 238,-7718 },
+ { 239,-7718 }, { 240,-7718 }, { 241,-7718 }, { 242,-7718 }, { 243,-7718 },
+ { 244,-7718 }, { 245,-7718 }, { 246,-7718 }, { 247,-7718 }, { 248,-7718 },
+ { 249,-7718 }, { 250,-7718 }, { 251,-7718 }, { 252,-7718 }, { 253,-7718 },
+ { 254,-7718 }, { 255,-7718 }, { 256,-7718 }, {   0,   0 }, {   0,4194 },
+ {   1,-7976 }, {   2,-7976 }, {   3,-7976 }, {   4,-7976 }, {   5,-7976 },
+ {   6,-7976 }, {   7,-7976 }, {   8,-7976 }, {   9, 908 }, {  10, 908 },
+ {  11,-7976 }, {  12,-7976 }, {  13, 908 }, {  14,-7976 }, {  15,-7976 },
+ {  16,-7976 }, {  17,-7976 }, {  18,-7976 }, {  19,-7976 }, {  20,-7976 },
+ {  21,-7976 }, {  22,-7976 }, {  23,-7976 }, {  24,-7976 }, {  25,-7976 },
+
+ {  26,-7976 }, {  27,-7976 }, {  28,-7976 }, {  29,-7976 }, {  30,-7976 },
+ {  31,-7976 }, {  32, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7976 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7976 },
+ {  46,-8001 }, {  47,-8001 }, {  48,-7976 }, {  49,-7976 }, {  50,-7976 },
+ {  51,-7976 }, {  52,-7976 }, {  53,-7976 }, {  54,-7976 }, {  55,-7976 },
+ {  56,-7976 }, {  57,-7976 }, {  58,-7976 }, {   0,   0 }, {   0,   0 },
+ {  61,-8001 }, {   0,   0 }, {  63,-7976 }, {   0,   0 }, {  65,-7976 },
+ {  66,-7976 }, {  67,-7976 }, {  68,-7976 }, {  69,-7976 }, {  70,-7976 },
+ {  71,-7976 }, {  72,-7976 }, {  73,-7976 }, {  74,-7976 }, {  75,-7976 },
+
+ {  76,-7976 }, {  77,-7976 }, {  78,-7976 }, {  79,-7976 }, {  80,-7976 },
+ {  81,-7976 }, {  82,-7976 }, {  83,-7976 }, {  84,-7976 }, {  85,-7976 },
+ {  86,-7976 }, {  87,-7976 }, {  88,-7976 }, {  89,-7976 }, {  90,-7976 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7976 },
+ {   0,   0 }, {  97,-7976 }, {  98,-7976 }, {  99,-7976 }, { 100,-7976 },
+ { 101,-7976 }, { 102,-7976 }, { 103,-7976 }, { 104,-7976 }, { 105,-7976 },
+ { 106,-7976 }, { 107,-7976 }, { 108,-7976 }, { 109,-7976 }, { 110,-7976 },
+ { 111,-7976 }, { 112,-7976 }, { 113,-7976 }, { 114,-7976 }, { 115,-7976 },
+ { 116,-7976 }, { 117,-7976 }, { 118,-7976 }, { 119,-7976 }, { 120,-7976 },
+ { 121,-7976 }, { 122,-7976 }, {   0,   0 }, { 124,-8001 }, { 125, 908 },
+
+ { 126, 908 }, { 127,-7976 }, { 128,-7976 }, { 129,-7976 }, { 130,-7976 },
+ { 131,-7976 }, { 132,-7976 }, { 133,-7976 }, { 134,-7976 }, { 135,-7976 },
+ { 136,-7976 }, { 137,-7976 }, { 138,-7976 }, { 139,-7976 }, { 140,-7976 },
+ { 141,-7976 }, { 142,-7976 }, { 143,-7976 }, { 144,-7976 }, { 145,-7976 },
+ { 146,-7976 }, { 147,-7976 }, { 148,-7976 }, { 149,-7976 }, { 150,-7976 },
+ { 151,-7976 }, { 152,-7976 }, { 153,-7976 }, { 154,-7976 }, { 155,-7976 },
+ { 156,-7976 }, { 157,-7976 }, { 158,-7976 }, { 159,-7976 }, { 160,-7976 },
+ { 161,-7976 }, { 162,-7976 }, { 163,-7976 }, { 164,-7976 }, { 165,-7976 },
+ { 166,-7976 }, { 167,-7976 }, { 168,-7976 }, { 169,-7976 }, { 170,-7976 },
+ { 171,-7976 }, { 172,-7976 }, { 173,-7976 }, { 174,-7976 }, { 175,-7976 },
+
+ { 176,-7976 }, { 177,-7976 }, { 178,-7976 }, { 179,-7976 }, { 180,-7976 },
+ { 181,-7976 }, { 182,-7976 }, { 183,-7976 }, { 184,-7976 }, { 185,-7976 },
+ { 186,-7976 }, { 187,-7976 }, { 188,-7976 }, { 189,-7976 }, { 190,-7976 },
+ { 191,-7976 }, { 192,-7976 }, { 193,-7976 }, { 194,-7976 }, { 195,-7976 },
+ { 196,-7976 }, { 197,-7976 }, { 198,-7976 }, { 199,-7976 }, { 200,-7976 },
+ { 201,-7976 }, { 202,-7976 }, { 203,-7976 }, { 204,-7976 }, { 205,-7976 },
+ { 206,-7976 }, { 207,-7976 }, { 208,-7976 }, { 209,-7976 }, { 210,-7976 },
+ { 211,-7976 }, { 212,-7976 }, { 213,-7976 }, { 214,-7976 }, { 215,-7976 },
+ { 216,-7976 }, { 217,-7976 }, { 218,-7976 }, { 219,-7976 }, { 220,-7976 },
+ { 221,-7976 }, { 222,-7976 }, { 223,-7976 }, { 224,-7976 }, { 225,-7976 },
+
+ { 226,-7976 }, { 227,-7976 }, { 228,-7976 }, { 229,-7976 }, { 230,-7976 },
+ { 231,-7976 }, { 232,-7976 }, { 233,-7976 }, { 234,-7976 }, { 235,-7976 },
+ { 236,-7976 }, { 237,-7976 }, { 238,-7976 }, { 239,-7976 }, { 240,-7976 },
+ { 241,-7976 }, { 242,-7976 }, { 243,-7976 }, { 244,-7976 }, { 245,-7976 },
+ { 246,-7976 }, { 247,-7976 }, { 248,-7976 }, { 249,-7976 }, { 250,-7976 },
+ { 251,-7976 }, { 252,-7976 }, { 253,-7976 }, { 254,-7976 }, { 255,-7976 },
+ { 256,-7976 }, {   0,   0 }, {   0,3936 }, {   1,-8234 }, {   2,-8234 },
+ {   3,-8234 }, {   4,-8234 }, {   5,-8234 }, {   6,-8234 }, {   7,-8234 },
+ {   8,-8234 }, {   9,-8259 }, {  10,-8259 }, {  11,-8234 }, {  12,-8234 },
+ {  13,-8259 }, {  14,-8234 }, {  15,-8234 }, {  16,-8234 }, {  17,-8234 },
+
+ {  18,-8234 }, {  19,-8234 }, {  20,-8234 }, {  21,-8234 }, {  22,-8234 },
+ {  23,-8234 }, {  24,-8234 }, {  25,-8234 }, {  26,-8234 }, {  27,-8234 },
+ {  28,-8234 }, {  29,-8234 }, {  30,-8234 }, {  31,-8234 }, {  32,-8259 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8234 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8259 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-8234 }, {  46,-8259 }, {  47,-8259 },
+ {  48,-8234 }, {  49,-8234 }, {  50,-8234 }, {  51,-8234 }, {  52,-8234 },
+ {  53,-8234 }, {  54,-8234 }, {  55,-8234 }, {  56,-8234 }, {  57,-8234 },
+ {  58,-8234 }, {   0,   0 }, {   0,   0 }, {  61,-8259 }, {   0,   0 },
+ {  63,-8234 }, {   0,   0 }, {  65,-8234 }, {  66,-8234 }, {  67,-8234 },
+
+ {  68,-8234 }, {  69,-8234 }, {  70,-8234 }, {  71,-8234 }, {  72,-8234 },
+ {  73,-8234 }, {  74,-8234 }, {  75,-8234 }, {  76,-8234 }, {  77,-8234 },
+ {  78,-8234 }, {  79,-8234 }, {  80,-8234 }, {  81,-8234 }, {  82,-8234 },
+ {  83,-8234 }, {  84,-8234 }, {  85,-8234 }, {  86,-8234 }, {  87,-8234 },
+ {  88,-8234 }, {  89,-8234 }, {  90,-8234 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-8234 }, {   0,   0 }, {  97,-8234 },
+ {  98,-8234 }, {  99,-8234 }, { 100,-8234 }, { 101,-8234 }, { 102, 929 },
+ { 103,-8234 }, { 104,-8234 }, { 105,-8234 }, { 106,-8234 }, { 107,-8234 },
+ { 108,-8234 }, { 109,-8234 }, { 110,-8234 }, { 111,-8234 }, { 112,-8234 },
+ { 113,-8234 }, { 114,-8234 }, { 115,-8234 }, { 116,-8234 }, { 117,-8234 },
+
+ { 118,-8234 }, { 119,-8234 }, { 120,-8234 }, { 121,-8234 }, { 122,-8234 },
+ {   0,   0 }, { 124,-8259 }, { 125,-8259 }, { 126,-8259 }, { 127,-8234 },
+ { 128,-8234 }, { 129,-8234 }, { 130,-8234 }, { 131,-8234 }, { 132,-8234 },
+ { 133,-8234 }, { 134,-8234 }, { 135,-8234 }, { 136,-8234 }, { 137,-8234 },
+ { 138,-8234 }, { 139,-8234 }, { 140,-8234 }, { 141,-8234 }, { 142,-8234 },
+ { 143,-8234 }, { 144,-8234 }, { 145,-8234 }, { 146,-8234 }, { 147,-8234 },
+ { 148,-8234 }, { 149,-8234 }, { 150,-8234 }, { 151,-8234 }, { 152,-8234 },
+ { 153,-8234 }, { 154,-8234 }, { 155,-8234 }, { 156,-8234 }, { 157,-8234 },
+ { 158,-8234 }, { 159,-8234 }, { 160,-8234 }, { 161,-8234 }, { 162,-8234 },
+ { 163,-8234 }, { 164,-8234 }, { 165,-8234 }, { 166,-8234 }, { 167,-8234 },
+
+ { 168,-8234 }, { 169,-8234 }, { 170,-8234 }, { 171,-8234 }, { 172,-8234 },
+ { 173,-8234 }, { 174,-8234 }, { 175,-8234 }, { 176,-8234 }, { 177,-8234 },
+ { 178,-8234 }, { 179,-8234 }, { 180,-8234 }, { 181,-8234 }, { 182,-8234 },
+ { 183,-8234 }, { 184,-8234 }, { 185,-8234 }, { 186,-8234 }, { 187,-8234 },
+ { 188,-8234 }, { 189,-8234 }, { 190,-8234 }, { 191,-8234 }, { 192,-8234 },
+ { 193,-8234 }, { 194,-8234 }, { 195,-8234 }, { 196,-8234 }, { 197,-8234 },
+ { 198,-8234 }, { 199,-8234 }, { 200,-8234 }, { 201,-8234 }, { 202,-8234 },
+ { 203,-8234 }, { 204,-8234 }, { 205,-8234 }, { 206,-8234 }, { 207,-8234 },
+ { 208,-8234 }, { 209,-8234 }, { 210,-8234 }, { 211,-8234 }, { 212,-8234 },
+ { 213,-8234 }, { 214,-8234 }, { 215,-8234 }, { 216,-8234 }, { 217,-8234 },
+
+ { 218,-8234 }, { 219,-8234 }, { 220,-8234 }, { 221,-8234 }, { 222,-8234 },
+ { 223,-8234 }, { 224,-8234 }, { 225,-8234 }, { 226,-8234 }, { 227,-8234 },
+ { 228,-8234 }, { 229,-8234 }, { 230,-8234 }, { 231,-8234 }, { 232,-8234 },
+ { 233,-8234 }, { 234,-8234 }, { 235,-8234 }, { 236,-8234 }, { 237,-8234 },
+ { 238,-8234 }, { 239,-8234 }, { 240,-8234 }, { 241,-8234 }, { 242,-8234 },
+ { 243,-8234 }, { 244,-8234 }, { 245,-8234 }, { 246,-8234 }, { 247,-8234 },
+ { 248,-8234 }, { 249,-8234 }, { 250,-8234 }, { 251,-8234 }, { 252,-8234 },
+ { 253,-8234 }, { 254,-8234 }, { 255,-8234 }, { 256,-8234 }, {   0,   0 },
+ {   0,3678 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
+
+ {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125,-1639 }, { 126,-1066 }, {   0,   0 }, {   0,3550 }, {   1, 277 },
+ {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 },
+ {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 },
+ {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 },
+ {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 },
+ {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 },
+ {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 },
+
+ {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 },
+ {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 },
+ {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 },
+ {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 },
+ {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 },
+ {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 },
+ {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 },
+ {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 },
+ {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 },
+ {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 },
+
+ {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 },
+ {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 },
+ {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 },
+ {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 },
+ { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 },
+ { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 },
+ { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 },
+ { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 },
+ { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 },
+ { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 },
+
+ { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 },
+ { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 },
+ { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 },
+ { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 },
+ { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 },
+ { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 },
+ { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 },
+ { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 },
+ { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 },
+ { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 },
+
+ { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 },
+ { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 },
+ { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 },
+ { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 },
+ { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 },
+ { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 },
+ { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 },
+ { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 },
+ { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 },
+ { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 },
+
+ { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 },
+ { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 },
+ { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 },
+ { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 },
+ { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 },
+ {   0,   1 }, {   0,3292 }, {   0,   1 }, {   0,3290 }, {   0,  46 },
+ {   0,3288 }, {   0,  43 }, {   0,3286 }, {   0,  28 }, {   0,3284 },
+ {   0,  22 }, {   0,3282 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3275 }, {   0,   8 },
+ {   0,3273 }, {   0,   1 }, {   0,3271 }, {   0,  44 }, {   0,3269 },
+
+ {   0,  25 }, {   0,3267 }, {   0,   0 }, {   0,3265 }, {   1,-8905 },
+ {   2,-8905 }, {   3,-8905 }, {   4,-8905 }, {   5,-8905 }, {   6,-8905 },
+ {   7,-8905 }, {   8,-8905 }, {   9,  -4 }, {  10,  -4 }, {  11,-8905 },
+ {  12,-8905 }, {  13,  -4 }, {  14,-8905 }, {  15,-8905 }, {  16,-8905 },
+ {  17,-8905 }, {  18,-8905 }, {  19,-8905 }, {  20,-8905 }, {  21,-8905 },
+ {  22,-8905 }, {  23,-8905 }, {  24,-8905 }, {  25,-8905 }, {  26,-8905 },
+ {  27,-8905 }, {  28,-8905 }, {  29,-8905 }, {  30,-8905 }, {  31,-8905 },
+ {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8905 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8905 }, {  46,-8930 },
+
+ {  47,-8930 }, {  48,-8905 }, {  49,-8905 }, {  50,-8905 }, {  51,-8905 },
+ {  52,-8905 }, {  53,-8905 }, {  54,-8905 }, {  55,-8905 }, {  56,-8905 },
+ {  57,-8905 }, {  58,-8905 }, {   0,   0 }, {   0,   0 }, {  61,-8930 },
+ {   0,   0 }, {  63,-8905 }, {   0,   0 }, {  65,-8905 }, {  66,-8905 },
+ {  67,-8905 }, {  68,-8905 }, {  69,-8905 }, {  70,-8905 }, {  71,-8905 },
+ {  72,-8905 }, {  73,-8905 }, {  74,-8905 }, {  75,-8905 }, {  76,-8905 },
+ {  77,-8905 }, {  78,-8905 }, {  79,-8905 }, {  80,-8905 }, {  81,-8905 },
+ {  82,-8905 }, {  83,-8905 }, {  84,-8905 }, {  85,-8905 }, {  86,-8905 },
+ {  87,-8905 }, {  88,-8905 }, {  89,-8905 }, {  90,-8905 }, { 101,1300 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8905 }, { 123,  21 },
+
+ {  97,-8905 }, {  98,-8905 }, {  99,-8905 }, { 100,-8905 }, { 101,-8905 },
+ { 102,-8905 }, { 103,-8905 }, { 104,-8905 }, { 105,-8905 }, { 106,-8905 },
+ { 107,-8905 }, { 108,-8905 }, { 109,-8905 }, { 110,-8905 }, { 111,-8905 },
+ { 112,-8905 }, { 113,-8905 }, { 114,-8905 }, { 115,-8905 }, { 116,-8905 },
+ { 117,-8905 }, { 118,-8905 }, { 119,-8905 }, { 120,-8905 }, { 121,-8905 },
+ { 122,-8905 }, {   0,   0 }, { 124,-8930 }, { 125,  -4 }, { 126,  -4 },
+ { 127,-8905 }, { 128,-8905 }, { 129,-8905 }, { 130,-8905 }, { 131,-8905 },
+ { 132,-8905 }, { 133,-8905 }, { 134,-8905 }, { 135,-8905 }, { 136,-8905 },
+ { 137,-8905 }, { 138,-8905 }, { 139,-8905 }, { 140,-8905 }, { 141,-8905 },
+ { 142,-8905 }, { 143,-8905 }, { 144,-8905 }, { 145,-8905 }, { 146,-8905 },
+
+ { 147,-8905 }, { 148,-8905 }, { 149,-8905 }, { 150,-8905 }, { 151,-8905 },
+ { 152,-8905 }, { 153,-8905 }, { 154,-8905 }, { 155,-8905 }, { 156,-8905 },
+ { 157,-8905 }, { 158,-8905 }, { 159,-8905 }, { 160,-8905 }, { 161,-8905 },
+ { 162,-8905 }, { 163,-8905 }, { 164,-8905 }, { 165,-8905 }, { 166,-8905 },
+ { 167,-8905 }, { 168,-8905 }, { 169,-8905 }, { 170,-8905 }, { 171,-8905 },
+ { 172,-8905 }, { 173,-8905 }, { 174,-8905 }, { 175,-8905 }, { 176,-8905 },
+ { 177,-8905 }, { 178,-8905 }, { 179,-8905 }, { 180,-8905 }, { 181,-8905 },
+ { 182,-8905 }, { 183,-8905 }, { 184,-8905 }, { 185,-8905 }, { 186,-8905 },
+ { 187,-8905 }, { 188,-8905 }, { 189,-8905 }, { 190,-8905 }, { 191,-8905 },
+ { 192,-8905 }, { 193,-8905 }, { 194,-8905 }, { 195,-8905 }, { 196,-8905 },
+
+ { 197,-8905 }, { 198,-8905 }, { 199,-8905 }, { 200,-8905 }, { 201,-8905 },
+ { 202,-8905 }, { 203,-8905 }, { 204,-8905 }, { 205,-8905 }, { 206,-8905 },
+ { 207,-8905 }, { 208,-8905 }, { 209,-8905 }, { 210,-8905 }, { 211,-8905 },
+ { 212,-8905 }, { 213,-8905 }, { 214,-8905 }, { 215,-8905 }, { 216,-8905 },
+ { 217,-8905 }, { 218,-8905 }, { 219,-8905 }, { 220,-8905 }, { 221,-8905 },
+ { 222,-8905 }, { 223,-8905 }, { 224,-8905 }, { 225,-8905 }, { 226,-8905 },
+ { 227,-8905 }, { 228,-8905 }, { 229,-8905 }, { 230,-8905 }, { 231,-8905 },
+ { 232,-8905 }, { 233,-8905 }, { 234,-8905 }, { 235,-8905 }, { 236,-8905 },
+ { 237,-8905 }, { 238,-8905 }, { 239,-8905 }, { 240,-8905 }, { 241,-8905 },
+ { 242,-8905 }, { 243,-8905 }, { 244,-8905 }, { 245,-8905 }, { 246,-8905 },
+
+ { 247,-8905 }, { 248,-8905 }, { 249,-8905 }, { 250,-8905 }, { 251,-8905 },
+ { 252,-8905 }, { 253,-8905 }, { 254,-8905 }, { 255,-8905 }, { 256,-8905 },
+ {   0,   0 }, {   0,3007 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
+ {   4,-9163 }, {   5,-9163 }, {   6,-9163 }, {   7,-9163 }, {   8,-9163 },
+ {   9,-9188 }, {  10,-9188 }, {  11,-9163 }, {  12,-9163 }, {  13,-9188 },
+ {  14,-9163 }, {  15,-9163 }, {  16,-9163 }, {  17,-9163 }, {  18,-9163 },
+ {  19,-9163 }, {  20,-9163 }, {  21,-9163 }, {  22,-9163 }, {  23,-9163 },
+ {  24,-9163 }, {  25,-9163 }, {  26,-9163 }, {  27,-9163 }, {  28,-9163 },
+ {  29,-9163 }, {  30,-9163 }, {  31,-9163 }, {  32,-9188 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9163 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  41,-9188 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9163 }, {  46,-9188 }, {  47,-9188 }, {  48,-9163 },
+ {  49,-9163 }, {  50,-9163 }, {  51,-9163 }, {  52,-9163 }, {  53,-9163 },
+ {  54,-9163 }, {  55,-9163 }, {  56,-9163 }, {  57,-9163 }, {  58,-9163 },
+ {   0,   0 }, {   0,   0 }, {  61,-9188 }, {   0,   0 }, {  63,-9163 },
+ {   0,   0 }, {  65,-9163 }, {  66,-9163 }, {  67,-9163 }, {  68,-9163 },
+ {  69,-9163 }, {  70,-9163 }, {  71,-9163 }, {  72,-9163 }, {  73,-9163 },
+ {  74,-9163 }, {  75,-9163 }, {  76,-9163 }, {  77,-9163 }, {  78,-9163 },
+ {  79,-9163 }, {  80,-9163 }, {  81,-9163 }, {  82,-9163 }, {  83,-9163 },
+ {  84,-9163 }, {  85,-9163 }, {  86,-9163 }, {  87,-9163 }, {  88,-9163 },
+
+ {  89,-9163 }, {  90,-9163 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9163 }, {   0,   0 }, {  97,-9163 }, {  98,-9163 },
+ {  99,-9163 }, { 100,-9163 }, { 101,-9163 }, { 102,-9163 }, { 103,-9163 },
+ { 104,-9163 }, { 105, 774 }, { 106,-9163 }, { 107,-9163 }, { 108,-9163 },
+ { 109,-9163 }, { 110,-9163 }, { 111,-9163 }, { 112,-9163 }, { 113,-9163 },
+ { 114,-9163 }, { 115,-9163 }, { 116,-9163 }, { 117,-9163 }, { 118,-9163 },
+ { 119,-9163 }, { 120,-9163 }, { 121,-9163 }, { 122,-9163 }, {   0,   0 },
+ { 124,-9188 }, { 125,-9188 }, { 126,-9188 }, { 127,-9163 }, { 128,-9163 },
+ { 129,-9163 }, { 130,-9163 }, { 131,-9163 }, { 132,-9163 }, { 133,-9163 },
+ { 134,-9163 }, { 135,-9163 }, { 136,-9163 }, { 137,-9163 }, { 138,-9163 },
+
+ { 139,-9163 }, { 140,-9163 }, { 141,-9163 }, { 142,-9163 }, { 143,-9163 },
+ { 144,-9163 }, { 145,-9163 }, { 146,-9163 }, { 147,-9163 }, { 148,-9163 },
+ { 149,-9163 }, { 150,-9163 }, { 151,-9163 }, { 152,-9163 }, { 153,-9163 },
+ { 154,-9163 }, { 155,-9163 }, { 156,-9163 }, { 157,-9163 }, { 158,-9163 },
+ { 159,-9163 }, { 160,-9163 }, { 161,-9163 }, { 162,-9163 }, { 163,-9163 },
+ { 164,-9163 }, { 165,-9163 }, { 166,-9163 }, { 167,-9163 }, { 168,-9163 },
+ { 169,-9163 }, { 170,-9163 }, { 171,-9163 }, { 172,-9163 }, { 173,-9163 },
+ { 174,-9163 }, { 175,-9163 }, { 176,-9163 }, { 177,-9163 }, { 178,-9163 },
+ { 179,-9163 }, { 180,-9163 }, { 181,-9163 }, { 182,-9163 }, { 183,-9163 },
+ { 184,-9163 }, { 185,-9163 }, { 186,-9163 }, { 187,-9163 }, { 188,-9163 },
+
+ { 189,-9163 }, { 190,-9163 }, { 191,-9163 }, { 192,-9163 }, { 193,-9163 },
+ { 194,-9163 }, { 195,-9163 }, { 196,-9163 }, { 197,-9163 }, { 198,-9163 },
+ { 199,-9163 }, { 200,-9163 }, { 201,-9163 }, { 202,-9163 }, { 203,-9163 },
+ { 204,-9163 }, { 205,-9163 }, { 206,-9163 }, { 207,-9163 }, { 208,-9163 },
+ { 209,-9163 }, { 210,-9163 }, { 211,-9163 }, { 212,-9163 }, { 213,-9163 },
+ { 214,-9163 }, { 215,-9163 }, { 216,-9163 }, { 217,-9163 }, { 218,-9163 },
+ { 219,-9163 }, { 220,-9163 }, { 221,-9163 }, { 222,-9163 }, { 223,-9163 },
+ { 224,-9163 }, { 225,-9163 }, { 226,-9163 }, { 227,-9163 }, { 228,-9163 },
+ { 229,-9163 }, { 230,-9163 }, { 231,-9163 }, { 232,-9163 }, { 233,-9163 },
+ { 234,-9163 }, { 235,-9163 }, { 236,-9163 }, { 237,-9163 }, { 238,-9163 },
+
+ { 239,-9163 }, { 240,-9163 }, { 241,-9163 }, { 242,-9163 }, { 243,-9163 },
+ { 244,-9163 }, { 245,-9163 }, { 246,-9163 }, { 247,-9163 }, { 248,-9163 },
+ { 249,-9163 }, { 250,-9163 }, { 251,-9163 }, { 252,-9163 }, { 253,-9163 },
+ { 254,-9163 }, { 255,-9163 }, { 256,-9163 }, {   0,   0 }, {   0,2749 },
+ {   1,1032 }, {   2,1032 }, {   3,1032 }, {   4,1032 }, {   5,1032 },
+ {   6,1032 }, {   7,1032 }, {   8,1032 }, {   9,1032 }, {  10,1032 },
+ {  11,1032 }, {  12,1032 }, {  13,1032 }, {  14,1032 }, {  15,1032 },
+ {  16,1032 }, {  17,1032 }, {  18,1032 }, {  19,1032 }, {  20,1032 },
+ {  21,1032 }, {  22,1032 }, {  23,1032 }, {  24,1032 }, {  25,1032 },
+ {  26,1032 }, {  27,1032 }, {  28,1032 }, {  29,1032 }, {  30,1032 },
+
+ {  31,1032 }, {  32,1032 }, {  33,1032 }, {  34,1032 }, {  35,1032 },
+ {  36,1032 }, {  37,1032 }, {  38,1032 }, {  39,1032 }, {  40,1032 },
+ {  41,1032 }, {  42,1032 }, {  43,1032 }, {  44,1032 }, {  45,1290 },
+ {  46,1032 }, {  47,1032 }, {  48,1032 }, {  49,1032 }, {  50,1032 },
+ {  51,1032 }, {  52,1032 }, {  53,1032 }, {  54,1032 }, {  55,1032 },
+ {  56,1032 }, {  57,1032 }, {  58,1032 }, {  59,1032 }, {  60,1032 },
+ {  61,1032 }, {  62,1032 }, {  63,1032 }, {  64,1032 }, {  65,1032 },
+ {  66,1032 }, {  67,1032 }, {  68,1032 }, {  69,1032 }, {  70,1032 },
+ {  71,1032 }, {  72,1032 }, {  73,1032 }, {  74,1032 }, {  75,1032 },
+ {  76,1032 }, {  77,1032 }, {  78,1032 }, {  79,1032 }, {  80,1032 },
+
+ {  81,1032 }, {  82,1032 }, {  83,1032 }, {  84,1032 }, {  85,1032 },
+ {  86,1032 }, {  87,1032 }, {  88,1032 }, {  89,1032 }, {  90,1032 },
+ {  91,1032 }, {  92,1032 }, {  93,1032 }, {  94,1032 }, {  95,1032 },
+ {  96,1032 }, {  97,1032 }, {  98,1032 }, {  99,1032 }, { 100,1032 },
+ { 101,1032 }, { 102,1032 }, { 103,1032 }, { 104,1032 }, { 105,1032 },
+ { 106,1032 }, { 107,1032 }, { 108,1032 }, { 109,1032 }, { 110,1032 },
+ { 111,1032 }, { 112,1032 }, { 113,1032 }, { 114,1032 }, { 115,1032 },
+ { 116,1032 }, { 117,1032 }, { 118,1032 }, { 119,1032 }, { 120,1032 },
+ { 121,1032 }, { 122,1032 }, { 123,1032 }, { 124,1032 }, { 125,1032 },
+ { 126,1032 }, { 127,1032 }, { 128,1032 }, { 129,1032 }, { 130,1032 },
+
+ { 131,1032 }, { 132,1032 }, { 133,1032 }, { 134,1032 }, { 135,1032 },
+ { 136,1032 }, { 137,1032 }, { 138,1032 }, { 139,1032 }, { 140,1032 },
+ { 141,1032 }, { 142,1032 }, { 143,1032 }, { 144,1032 }, { 145,1032 },
+ { 146,1032 }, { 147,1032 }, { 148,1032 }, { 149,1032 }, { 150,1032 },
+ { 151,1032 }, { 152,1032 }, { 153,1032 }, { 154,1032 }, { 155,1032 },
+ { 156,1032 }, { 157,1032 }, { 158,1032 }, { 159,1032 }, { 160,1032 },
+ { 161,1032 }, { 162,1032 }, { 163,1032 }, { 164,1032 }, { 165,1032 },
+ { 166,1032 }, { 167,1032 }, { 168,1032 }, { 169,1032 }, { 170,1032 },
+ { 171,1032 }, { 172,1032 }, { 173,1032 }, { 174,1032 }, { 175,1032 },
+ { 176,1032 }, { 177,1032 }, { 178,1032 }, { 179,1032 }, { 180,1032 },
+
+ { 181,1032 }, { 182,1032 }, { 183,1032 }, { 184,1032 }, { 185,1032 },
+ { 186,1032 }, { 187,1032 }, { 188,1032 }, { 189,1032 }, { 190,1032 },
+ { 191,1032 }, { 192,1032 }, { 193,1032 }, { 194,1032 }, { 195,1032 },
+ { 196,1032 }, { 197,1032 }, { 198,1032 }, { 199,1032 }, { 200,1032 },
+ { 201,1032 }, { 202,1032 }, { 203,1032 }, { 204,1032 }, { 205,1032 },
+ { 206,1032 }, { 207,1032 }, { 208,1032 }, { 209,1032 }, { 210,1032 },
+ { 211,1032 }, { 212,1032 }, { 213,1032 }, { 214,1032 }, { 215,1032 },
+ { 216,1032 }, { 217,1032 }, { 218,1032 }, { 219,1032 }, { 220,1032 },
+ { 221,1032 }, { 222,1032 }, { 223,1032 }, { 224,1032 }, { 225,1032 },
+ { 226,1032 }, { 227,1032 }, { 228,1032 }, { 229,1032 }, { 230,1032 },
+
+ { 231,1032 }, { 232,1032 }, { 233,1032 }, { 234,1032 }, { 235,1032 },
+ { 236,1032 }, { 237,1032 }, { 238,1032 }, { 239,1032 }, { 240,1032 },
+ { 241,1032 }, { 242,1032 }, { 243,1032 }, { 244,1032 }, { 245,1032 },
+ { 246,1032 }, { 247,1032 }, { 248,1032 }, { 249,1032 }, { 250,1032 },
+ { 251,1032 }, { 252,1032 }, { 253,1032 }, { 254,1032 }, { 255,1032 },
+ { 256,1032 }, {   0,   0 }, {   0,2491 }, {   1,1290 }, {   2,1290 },
+ {   3,1290 }, {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 },
+ {   8,1290 }, {   0,   0 }, {   0,   0 }, {  11,1290 }, {  12,1290 },
+ {   0,   0 }, {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 },
+ {  18,1290 }, {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 },
+
+ {  23,1290 }, {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 },
+ {  28,1290 }, {  29,1290 }, {  30,1290 }, {  31,1290 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1290 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,1290 }, {   0,   0 }, {   0,   0 },
+ {  48,1290 }, {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 },
+ {  53,1290 }, {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 },
+ {  58,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,1290 }, {   0,   0 }, {  65,1290 }, {  66,1290 }, {  67,1290 },
+ {  68,1290 }, {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 },
+
+ {  73,1290 }, {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 },
+ {  78,1290 }, {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 },
+ {  83,1290 }, {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 },
+ {  88,1290 }, {  89,1290 }, {  90,1290 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,1290 }, {   0,   0 }, {  97,1290 },
+ {  98,1290 }, {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 },
+ { 103,1290 }, { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 },
+ { 108,1290 }, { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 },
+ { 113,1290 }, { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 },
+ { 118,1290 }, { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1290 },
+ { 128,1290 }, { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 },
+ { 133,1290 }, { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 },
+ { 138,1290 }, { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 },
+ { 143,1290 }, { 144,1290 }, { 145,1290 }, { 146,1290 }, { 147,1290 },
+ { 148,1290 }, { 149,1290 }, { 150,1290 }, { 151,1290 }, { 152,1290 },
+ { 153,1290 }, { 154,1290 }, { 155,1290 }, { 156,1290 }, { 157,1290 },
+ { 158,1290 }, { 159,1290 }, { 160,1290 }, { 161,1290 }, { 162,1290 },
+ { 163,1290 }, { 164,1290 }, { 165,1290 }, { 166,1290 }, { 167,1290 },
+ { 168,1290 }, { 169,1290 }, { 170,1290 }, { 171,1290 }, { 172,1290 },
+
+ { 173,1290 }, { 174,1290 }, { 175,1290 }, { 176,1290 }, { 177,1290 },
+ { 178,1290 }, { 179,1290 }, { 180,1290 }, { 181,1290 }, { 182,1290 },
+ { 183,1290 }, { 184,1290 }, { 185,1290 }, { 186,1290 }, { 187,1290 },
+ { 188,1290 }, { 189,1290 }, { 190,1290 }, { 191,1290 }, { 192,1290 },
+ { 193,1290 }, { 194,1290 }, { 195,1290 }, { 196,1290 }, { 197,1290 },
+ { 198,1290 }, { 199,1290 }, { 200,1290 }, { 201,1290 }, { 202,1290 },
+ { 203,1290 }, { 204,1290 }, { 205,1290 }, { 206,1290 }, { 207,1290 },
+ { 208,1290 }, { 209,1290 }, { 210,1290 }, { 211,1290 }, { 212,1290 },
+ { 213,1290 }, { 214,1290 }, { 215,1290 }, { 216,1290 }, { 217,1290 },
+ { 218,1290 }, { 219,1290 }, { 220,1290 }, { 221,1290 }, { 222,1290 },
+
+ { 223,1290 }, { 224,1290 }, { 225,1290 }, { 226,1290 }, { 227,1290 },
+ { 228,1290 }, { 229,1290 }, { 230,1290 }, { 231,1290 }, { 232,1290 },
+ { 233,1290 }, { 234,1290 }, { 235,1290 }, { 236,1290 }, { 237,1290 },
+ { 238,1290 }, { 239,1290 }, { 240,1290 }, { 241,1290 }, { 242,1290 },
+ { 243,1290 }, { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 },
+ { 248,1290 }, { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 },
+ { 253,1290 }, { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 },
+ {   0,2233 }, {   1,-9937 }, {   2,-9937 }, {   3,-9937 }, {   4,-9937 },
+ {   5,-9937 }, {   6,-9937 }, {   7,-9937 }, {   8,-9937 }, {   9,-9962 },
+ {  10,-9962 }, {  11,-9937 }, {  12,-9937 }, {  13,-9962 }, {  14,-9937 },
+
+ {  15,-9937 }, {  16,-9937 }, {  17,-9937 }, {  18,-9937 }, {  19,-9937 },
+ {  20,-9937 }, {  21,-9937 }, {  22,-9937 }, {  23,-9937 }, {  24,-9937 },
+ {  25,-9937 }, {  26,-9937 }, {  27,-9937 }, {  28,-9937 }, {  29,-9937 },
+ {  30,-9937 }, {  31,-9937 }, {  32,-9962 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-9962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-9937 }, {  46,-9962 }, {  47,-9962 }, {  48,-9937 }, {  49,-9937 },
+ {  50,-9937 }, {  51,-9937 }, {  52,-9937 }, {  53,-9937 }, {  54,-9937 },
+ {  55,-9937 }, {  56,-9937 }, {  57,-9937 }, {  58,-9937 }, {   0,   0 },
+ {   0,   0 }, {  61,-9962 }, {   0,   0 }, {  63,-9937 }, {   0,   0 },
+
+ {  65,-9937 }, {  66,-9937 }, {  67,-9937 }, {  68,-9937 }, {  69,-9937 },
+ {  70,-9937 }, {  71,-9937 }, {  72,-9937 }, {  73,-9937 }, {  74,-9937 },
+ {  75,-9937 }, {  76,-9937 }, {  77,-9937 }, {  78,-9937 }, {  79,-9937 },
+ {  80,-9937 }, {  81,-9937 }, {  82,-9937 }, {  83,-9937 }, {  84,-9937 },
+ {  85,-9937 }, {  86,-9937 }, {  87,-9937 }, {  88,-9937 }, {  89,-9937 },
+ {  90,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-9937 }, {   0,   0 }, {  97,-9937 }, {  98,-9937 }, {  99,-9937 },
+ { 100,-9937 }, { 101,-9937 }, { 102,-9937 }, { 103,-9937 }, { 104,-9937 },
+ { 105,-9937 }, { 106,-9937 }, { 107,-9937 }, { 108,-9937 }, { 109,-9937 },
+ { 110,1290 }, { 111,-9937 }, { 112,-9937 }, { 113,-9937 }, { 114,-9937 },
+
+ { 115,-9937 }, { 116,-9937 }, { 117,-9937 }, { 118,-9937 }, { 119,-9937 },
+ { 120,-9937 }, { 121,-9937 }, { 122,-9937 }, {   0,   0 }, { 124,-9962 },
+ { 125,-9962 }, { 126,-9962 }, { 127,-9937 }, { 128,-9937 }, { 129,-9937 },
+ { 130,-9937 }, { 131,-9937 }, { 132,-9937 }, { 133,-9937 }, { 134,-9937 },
+ { 135,-9937 }, { 136,-9937 }, { 137,-9937 }, { 138,-9937 }, { 139,-9937 },
+ { 140,-9937 }, { 141,-9937 }, { 142,-9937 }, { 143,-9937 }, { 144,-9937 },
+ { 145,-9937 }, { 146,-9937 }, { 147,-9937 }, { 148,-9937 }, { 149,-9937 },
+ { 150,-9937 }, { 151,-9937 }, { 152,-9937 }, { 153,-9937 }, { 154,-9937 },
+ { 155,-9937 }, { 156,-9937 }, { 157,-9937 }, { 158,-9937 }, { 159,-9937 },
+ { 160,-9937 }, { 161,-9937 }, { 162,-9937 }, { 163,-9937 }, { 164,-9937 },
+
+ { 165,-9937 }, { 166,-9937 }, { 167,-9937 }, { 168,-9937 }, { 169,-9937 },
+ { 170,-9937 }, { 171,-9937 }, { 172,-9937 }, { 173,-9937 }, { 174,-9937 },
+ { 175,-9937 }, { 176,-9937 }, { 177,-9937 }, { 178,-9937 }, { 179,-9937 },
+ { 180,-9937 }, { 181,-9937 }, { 182,-9937 }, { 183,-9937 }, { 184,-9937 },
+ { 185,-9937 }, { 186,-9937 }, { 187,-9937 }, { 188,-9937 }, { 189,-9937 },
+ { 190,-9937 }, { 191,-9937 }, { 192,-9937 }, { 193,-9937 }, { 194,-9937 },
+ { 195,-9937 }, { 196,-9937 }, { 197,-9937 }, { 198,-9937 }, { 199,-9937 },
+ { 200,-9937 }, { 201,-9937 }, { 202,-9937 }, { 203,-9937 }, { 204,-9937 },
+ { 205,-9937 }, { 206,-9937 }, { 207,-9937 }, { 208,-9937 }, { 209,-9937 },
+ { 210,-9937 }, { 211,-9937 }, { 212,-9937 }, { 213,-9937 }, { 214,-9937 },
+
+ { 215,-9937 }, { 216,-9937 }, { 217,-9937 }, { 218,-9937 }, { 219,-9937 },
+ { 220,-9937 }, { 221,-9937 }, { 222,-9937 }, { 223,-9937 }, { 224,-9937 },
+ { 225,-9937 }, { 226,-9937 }, { 227,-9937 }, { 228,-9937 }, { 229,-9937 },
+ { 230,-9937 }, { 231,-9937 }, { 232,-9937 }, { 233,-9937 }, { 234,-9937 },
+ { 235,-9937 }, { 236,-9937 }, { 237,-9937 }, { 238,-9937 }, { 239,-9937 },
+ { 240,-9937 }, { 241,-9937 }, { 242,-9937 }, { 243,-9937 }, { 244,-9937 },
+ { 245,-9937 }, { 246,-9937 }, { 247,-9937 }, { 248,-9937 }, { 249,-9937 },
+ { 250,-9937 }, { 251,-9937 }, { 252,-9937 }, { 253,-9937 }, { 254,-9937 },
+ { 255,-9937 }, { 256,-9937 }, {   0,   0 }, {   0,1975 }, {   1,-1292 },
+ {   2,-1292 }, {   3,-1292 }, {   4,-1292 }, {   5,-1292 }, {   6,-1292 },
+
+ {   7,-1292 }, {   8,-1292 }, {   9,1290 }, {  10,1290 }, {  11,-1292 },
+ {  12,-1292 }, {  13,1290 }, {  14,-1292 }, {  15,-1292 }, {  16,-1292 },
+ {  17,-1292 }, {  18,-1292 }, {  19,-1292 }, {  20,-1292 }, {  21,-1292 },
+ {  22,-1292 }, {  23,-1292 }, {  24,-1292 }, {  25,-1292 }, {  26,-1292 },
+ {  27,-1292 }, {  28,-1292 }, {  29,-1292 }, {  30,-1292 }, {  31,-1292 },
+ {  32,1290 }, {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {  36,-1292 },
+ {  37,-1292 }, {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 },
+ {  42,-1292 }, {  43,-1292 }, {  44,-1292 }, {  45,-1292 }, {  46,-1292 },
+ {  47,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  58,-1292 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 },
+ {  62,-1292 }, {  63,-1292 }, {  64,-1292 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 },
+ {  92,-1292 }, {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 123,-1292 }, { 124,-1292 }, { 125,1292 }, { 126,1294 },
+ { 127,-1292 }, { 128,-1292 }, { 129,-1292 }, { 130,-1292 }, { 131,-1292 },
+ { 132,-1292 }, { 133,-1292 }, { 134,-1292 }, { 135,-1292 }, { 136,-1292 },
+ { 137,-1292 }, { 138,-1292 }, { 139,-1292 }, { 140,-1292 }, { 141,-1292 },
+ { 142,-1292 }, { 143,-1292 }, { 144,-1292 }, { 145,-1292 }, { 146,-1292 },
+ { 147,-1292 }, { 148,-1292 }, { 149,-1292 }, { 150,-1292 }, { 151,-1292 },
+ { 152,-1292 }, { 153,-1292 }, { 154,-1292 }, { 155,-1292 }, { 156,-1292 },
+
+ { 157,-1292 }, { 158,-1292 }, { 159,-1292 }, { 160,-1292 }, { 161,-1292 },
+ { 162,-1292 }, { 163,-1292 }, { 164,-1292 }, { 165,-1292 }, { 166,-1292 },
+ { 167,-1292 }, { 168,-1292 }, { 169,-1292 }, { 170,-1292 }, { 171,-1292 },
+ { 172,-1292 }, { 173,-1292 }, { 174,-1292 }, { 175,-1292 }, { 176,-1292 },
+ { 177,-1292 }, { 178,-1292 }, { 179,-1292 }, { 180,-1292 }, { 181,-1292 },
+ { 182,-1292 }, { 183,-1292 }, { 184,-1292 }, { 185,-1292 }, { 186,-1292 },
+ { 187,-1292 }, { 188,-1292 }, { 189,-1292 }, { 190,-1292 }, { 191,-1292 },
+ { 192,-1292 }, { 193,-1292 }, { 194,-1292 }, { 195,-1292 }, { 196,-1292 },
+ { 197,-1292 }, { 198,-1292 }, { 199,-1292 }, { 200,-1292 }, { 201,-1292 },
+ { 202,-1292 }, { 203,-1292 }, { 204,-1292 }, { 205,-1292 }, { 206,-1292 },
+
+ { 207,-1292 }, { 208,-1292 }, { 209,-1292 }, { 210,-1292 }, { 211,-1292 },
+ { 212,-1292 }, { 213,-1292 }, { 214,-1292 }, { 215,-1292 }, { 216,-1292 },
+ { 217,-1292 }, { 218,-1292 }, { 219,-1292 }, { 220,-1292 }, { 221,-1292 },
+ { 222,-1292 }, { 223,-1292 }, { 224,-1292 }, { 225,-1292 }, { 226,-1292 },
+ { 227,-1292 }, { 228,-1292 }, { 229,-1292 }, { 230,-1292 }, { 231,-1292 },
+ { 232,-1292 }, { 233,-1292 }, { 234,-1292 }, { 235,-1292 }, { 236,-1292 },
+ { 237,-1292 }, { 238,-1292 }, { 239,-1292 }, { 240,-1292 }, { 241,-1292 },
+ { 242,-1292 }, { 243,-1292 }, { 244,-1292 }, { 245,-1292 }, { 246,-1292 },
+ { 247,-1292 }, { 248,-1292 }, { 249,-1292 }, { 250,-1292 }, { 251,-1292 },
+ { 252,-1292 }, { 253,-1292 }, { 254,-1292 }, { 255,-1292 }, { 256,-1292 },
+
+ {   0,   0 }, {   0,1717 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1459 },
+ {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
+ {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+ {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
+ {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
+ {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
+ {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
+
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45, 780 },
+ {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
+ {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
+ {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+ {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
+ {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
+ {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
+ {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
 
+ {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
+ {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
+ { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
+ { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+ { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
+ { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
+ { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+
+ { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
+ { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
+ { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
+ { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+ { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
+ { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
+ { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
+ { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+
+ { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
+ { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
+ { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
+ { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+ { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
+ { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
+ { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
+ { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
+
+ { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
+ { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
+ { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
+ { 256,-258 }, {   0,   0 }, {   0,1201 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
+ {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
 
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
-
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ {   0,   0 }, {   0,   0 }, { 125, 524 }, {   0,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
-
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
-
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
-
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,1459 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
- {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
- {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
- {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
- {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
- {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
- {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
- {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
- {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
-
- {  45, 780 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
- {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
- {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
- {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
- {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
- {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
- {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
- {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
- {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
- {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
-
- {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
- { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
- { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
- { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
- { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
- { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
- { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
- { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
- { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
- { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
-
- { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
- { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
- { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
- { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
- { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
- { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
- { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
- { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
- { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
- { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
-
- { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
- { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
- { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
- { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
- { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
- { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
- { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
- { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
- { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
- { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
-
- { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
- { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1201 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 },
- {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
+ {   0, 943 }, {   1,-11227 }, {   2,-11227 }, {   3,-11227 }, {   4,-11227 },
+ {   5,-11227 }, {   6,-11227 }, {   7,-11227 }, {   8,-11227 }, {   9,-11252 },
+ {  10,-11252 }, {  11,-11227 }, {  12,-11227 }, {  13,-11252 }, {  14,-11227 },
+ {  15,-11227 }, {  16,-11227 }, {  17,-11227 }, {  18,-11227 }, {  19,-11227 },
+ {  20,-11227 }, {  21,-11227 }, {  22,-11227 }, {  23,-11227 }, {  24,-11227 },
+
+ {  25,-11227 }, {  26,-11227 }, {  27,-11227 }, {  28,-11227 }, {  29,-11227 },
+ {  30,-11227 }, {  31,-11227 }, {  32,-11252 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-11227 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-11252 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-11227 }, {  46,-11252 }, {  47,-11252 }, {  48,-11227 }, {  49,-11227 },
+ {  50,-11227 }, {  51,-11227 }, {  52,-11227 }, {  53,-11227 }, {  54,-11227 },
+ {  55,-11227 }, {  56,-11227 }, {  57,-11227 }, {  58,-11227 }, {   0,   0 },
+ {   0,   0 }, {  61,-11252 }, {   0,   0 }, {  63,-11227 }, {   0,   0 },
+ {  65,-11227 }, {  66,-11227 }, {  67,-11227 }, {  68,-11227 }, {  69,-11227 },
+ {  70,-11227 }, {  71,-11227 }, {  72,-11227 }, {  73,-11227 }, {  74,-11227 },
+
+ {  75,-11227 }, {  76,-11227 }, {  77,-11227 }, {  78,-11227 }, {  79,-11227 },
+ {  80,-11227 }, {  81,-11227 }, {  82,-11227 }, {  83,-11227 }, {  84,-11227 },
+ {  85,-11227 }, {  86,-11227 }, {  87,-11227 }, {  88,-11227 }, {  89,-11227 },
+ {  90,-11227 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-11227 }, {   0,   0 }, {  97,-11227 }, {  98,-11227 }, {  99,-11227 },
+ { 100,-11227 }, { 101, 393 }, { 102,-11227 }, { 103,-11227 }, { 104,-11227 },
+ { 105,-11227 }, { 106,-11227 }, { 107,-11227 }, { 108,-11227 }, { 109,-11227 },
+ { 110,-11227 }, { 111,-11227 }, { 112,-11227 }, { 113,-11227 }, { 114,-11227 },
+ { 115,-11227 }, { 116,-11227 }, { 117,-11227 }, { 118,-11227 }, { 119,-11227 },
+ { 120,-11227 }, { 121,-11227 }, { 122,-11227 }, {   0,   0 }, { 124,-11252 },
+
+ { 125,-11252 }, { 126,-11252 }, { 127,-11227 }, { 128,-11227 }, { 129,-11227 },
+ { 130,-11227 }, { 131,-11227 }, { 132,-11227 }, { 133,-11227 }, { 134,-11227 },
+ { 135,-11227 }, { 136,-11227 }, { 137,-11227 }, { 138,-11227 }, { 139,-11227 },
+ { 140,-11227 }, { 141,-11227 }, { 142,-11227 }, { 143,-11227 }, { 144,-11227 },
+ { 145,-11227 }, { 146,-11227 }, { 147,-11227 }, { 148,-11227 }, { 149,-11227 },
+ { 150,-11227 }, { 151,-11227 }, { 152,-11227 }, { 153,-11227 }, { 154,-11227 },
+ { 155,-11227 }, { 156,-11227 }, { 157,-11227 }, { 158,-11227 }, { 159,-11227 },
+ { 160,-11227 }, { 161,-11227 }, { 162,-11227 }, { 163,-11227 }, { 164,-11227 },
+ { 165,-11227 }, { 166,-11227 }, { 167,-11227 }, { 168,-11227 }, { 169,-11227 },
+ { 170,-11227 }, { 171,-11227 }, { 172,-11227 }, { 173,-11227 }, { 174,-11227 },
+
+ { 175,-11227 }, { 176,-11227 }, { 177,-11227 }, { 178,-11227 }, { 179,-11227 },
+ { 180,-11227 }, { 181,-11227 }, { 182,-11227 }, { 183,-11227 }, { 184,-11227 },
+ { 185,-11227 }, { 186,-11227 }, { 187,-11227 }, { 188,-11227 }, { 189,-11227 },
+ { 190,-11227 }, { 191,-11227 }, { 192,-11227 }, { 193,-11227 }, { 194,-11227 },
+ { 195,-11227 }, { 196,-11227 }, { 197,-11227 }, { 198,-11227 }, { 199,-11227 },
+ { 200,-11227 }, { 201,-11227 }, { 202,-11227 }, { 203,-11227 }, { 204,-11227 },
+ { 205,-11227 }, { 206,-11227 }, { 207,-11227 }, { 208,-11227 }, { 209,-11227 },
+ { 210,-11227 }, { 211,-11227 }, { 212,-11227 }, { 213,-11227 }, { 214,-11227 },
+ { 215,-11227 }, { 216,-11227 }, { 217,-11227 }, { 218,-11227 }, { 219,-11227 },
+ { 220,-11227 }, { 221,-11227 }, { 222,-11227 }, { 223,-11227 }, { 224,-11227 },
+
+ { 225,-11227 }, { 226,-11227 }, { 227,-11227 }, { 228,-11227 }, { 229,-11227 },
+ { 230,-11227 }, { 231,-11227 }, { 232,-11227 }, { 233,-11227 }, { 234,-11227 },
+ { 235,-11227 }, { 236,-11227 }, { 237,-11227 }, { 238,-11227 }, { 239,-11227 },
+ { 240,-11227 }, { 241,-11227 }, { 242,-11227 }, { 243,-11227 }, { 244,-11227 },
+ { 245,-11227 }, { 246,-11227 }, { 247,-11227 }, { 248,-11227 }, { 249,-11227 },
+ { 250,-11227 }, { 251,-11227 }, { 252,-11227 }, { 253,-11227 }, { 254,-11227 },
+ { 255,-11227 }, { 256,-11227 }, {   0,  25 }, {   0, 685 }, {   0,  25 },
+ {   0, 683 }, {   0,  25 }, {   0, 681 }, {   0,   0 }, {   0, 679 },
+ {   0,   0 }, {   0, 677 }, {   9, 393 }, {  10, 393 }, {   0,   0 },
+ {   0,   0 }, {  13, 393 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32, 393 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0, 642 }, {   0,   0 }, {   0, 640 }, {   0,  23 },
+ {   0, 638 }, {   0,   0 }, {   0, 636 }, {   0,   0 }, {   0,   0 },
+ {   0, 633 }, {   0,   0 }, {   0, 631 }, {   0,  12 }, {   0, 629 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0, 616 }, {   0,  45 }, {   0, 614 },
+ {   0,   9 }, {   0, 612 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  43 }, { 126,  45 },
+ { 125,  45 }, {   0,   0 }, { 125,  39 }, {   0,   0 }, { 125,  43 },
+ { 126,  46 }, { 125,  46 }, {   0,   0 }, {   0, 550 }, {   1,-11620 },
+ {   2,-11620 }, {   3,-11620 }, {   4,-11620 }, {   5,-11620 }, {   6,-11620 },
+ {   7,-11620 }, {   8,-11620 }, {   9,-11645 }, {  10,-11645 }, {  11,-11620 },
+ {  12,-11620 }, {  13,-11645 }, {  14,-11620 }, {  15,-11620 }, {  16,-11620 },
+ {  17,-11620 }, {  18,-11620 }, {  19,-11620 }, {  20,-11620 }, {  21,-11620 },
+ {  22,-11620 }, {  23,-11620 }, {  24,-11620 }, {  25,-11620 }, {  26,-11620 },
+ {  27,-11620 }, {  28,-11620 }, {  29,-11620 }, {  30,-11620 }, {  31,-11620 },
+
+ {  32,-11645 }, { 125,   4 }, {   0,   0 }, { 125,  -2 }, {  36,-11620 },
+ {   0,   0 }, {   0,   0 }, { 125,   7 }, {   0,   0 }, {  41,-11645 },
+ { 125,  -3 }, {   0,   0 }, { 125,  15 }, {  45,-11620 }, {  46,-11645 },
+ {  47,-11645 }, {  48,-11620 }, {  49,-11620 }, {  50,-11620 }, {  51,-11620 },
+ {  52,-11620 }, {  53,-11620 }, {  54,-11620 }, {  55,-11620 }, {  56,-11620 },
+ {  57,-11620 }, {  58,-11620 }, { 125,   4 }, {   0,   0 }, {  61,-11645 },
+ {   0,   0 }, {  63,-11620 }, {   0,   0 }, {  65,-11620 }, {  66,-11620 },
+ {  67,-11620 }, {  68,-11620 }, {  69,-11620 }, {  70,-11620 }, {  71,-11620 },
+ {  72,-11620 }, {  73,-11620 }, {  74,-11620 }, {  75,-11620 }, {  76,-11620 },
+ {  77,-11620 }, {  78,-11620 }, {  79,-11620 }, {  80,-11620 }, {  81,-11620 },
+
+ {  82,-11620 }, {  83,-11620 }, {  84,-11620 }, {  85,-11620 }, {  86,-11620 },
+ {  87,-11620 }, {  88,-11620 }, {  89,-11620 }, {  90,-11620 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11620 }, {   0,   0 },
+ {  97,-11620 }, {  98,-11620 }, {  99,-11620 }, { 100, 292 }, { 101,-11620 },
+ { 102,-11620 }, { 103,-11620 }, { 104,-11620 }, { 105,-11620 }, { 106,-11620 },
+ { 107,-11620 }, { 108,-11620 }, { 109,-11620 }, { 110,-11620 }, { 111,-11620 },
+ { 112,-11620 }, { 113,-11620 }, { 114,-11620 }, { 115,-11620 }, { 116,-11620 },
+ { 117,-11620 }, { 118,-11620 }, { 119,-11620 }, { 120,-11620 }, { 121,-11620 },
+ { 122,-11620 }, {   0,   0 }, { 124,-11645 }, { 125,-11645 }, { 126,-11645 },
+ { 127,-11620 }, { 128,-11620 }, { 129,-11620 }, { 130,-11620 }, { 131,-11620 },
+
+ { 132,-11620 }, { 133,-11620 }, { 134,-11620 }, { 135,-11620 }, { 136,-11620 },
+ { 137,-11620 }, { 138,-11620 }, { 139,-11620 }, { 140,-11620 }, { 141,-11620 },
+ { 142,-11620 }, { 143,-11620 }, { 144,-11620 }, { 145,-11620 }, { 146,-11620 },
+ { 147,-11620 }, { 148,-11620 }, { 149,-11620 }, { 150,-11620 }, { 151,-11620 },
+ { 152,-11620 }, { 153,-11620 }, { 154,-11620 }, { 155,-11620 }, { 156,-11620 },
+ { 157,-11620 }, { 158,-11620 }, { 159,-11620 }, { 160,-11620 }, { 161,-11620 },
+ { 162,-11620 }, { 163,-11620 }, { 164,-11620 }, { 165,-11620 }, { 166,-11620 },
+ { 167,-11620 }, { 168,-11620 }, { 169,-11620 }, { 170,-11620 }, { 171,-11620 },
+ { 172,-11620 }, { 173,-11620 }, { 174,-11620 }, { 175,-11620 }, { 176,-11620 },
+ { 177,-11620 }, { 178,-11620 }, { 179,-11620 }, { 180,-11620 }, { 181,-11620 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 },
- {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
+ { 182,-11620 }, { 183,-11620 }, { 184,-11620 }, { 185,-11620 }, { 186,-11620 },
+ { 187,-11620 }, { 188,-11620 }, { 189,-11620 }, { 190,-11620 }, { 191,-11620 },
+ { 192,-11620 }, { 193,-11620 }, { 194,-11620 }, { 195,-11620 }, { 196,-11620 },
+ { 197,-11620 }, { 198,-11620 }, { 199,-11620 }, { 200,-11620 }, { 201,-11620 },
+ { 202,-11620 }, { 203,-11620 }, { 204,-11620 }, { 205,-11620 }, { 206,-11620 },
+ { 207,-11620 }, { 208,-11620 }, { 209,-11620 }, { 210,-11620 }, { 211,-11620 },
+ { 212,-11620 }, { 213,-11620 }, { 214,-11620 }, { 215,-11620 }, { 216,-11620 },
+ { 217,-11620 }, { 218,-11620 }, { 219,-11620 }, { 220,-11620 }, { 221,-11620 },
+ { 222,-11620 }, { 223,-11620 }, { 224,-11620 }, { 225,-11620 }, { 226,-11620 },
+ { 227,-11620 }, { 228,-11620 }, { 229,-11620 }, { 230,-11620 }, { 231,-11620 },
 
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 524 }, {   0,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
-
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
-
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
-
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0, 943 }, {   1,-11123 }, {   2,-11123 }, {   3,-11123 },
- {   4,-11123 }, {   5,-11123 }, {   6,-11123 }, {   7,-11123 }, {   8,-11123 },
- {   9,-11148 }, {  10,-11148 }, {  11,-11123 }, {  12,-11123 }, {  13,-11148 },
- {  14,-11123 }, {  15,-11123 }, {  16,-11123 }, {  17,-11123 }, {  18,-11123 },
- {  19,-11123 }, {  20,-11123 }, {  21,-11123 }, {  22,-11123 }, {  23,-11123 },
- {  24,-11123 }, {  25,-11123 }, {  26,-11123 }, {  27,-11123 }, {  28,-11123 },
-
- {  29,-11123 }, {  30,-11123 }, {  31,-11123 }, {  32,-11148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-11123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-11123 }, {  46,-11148 }, {  47,-11148 }, {  48,-11123 },
- {  49,-11123 }, {  50,-11123 }, {  51,-11123 }, {  52,-11123 }, {  53,-11123 },
- {  54,-11123 }, {  55,-11123 }, {  56,-11123 }, {  57,-11123 }, {  58,-11123 },
- {   0,   0 }, {   0,   0 }, {  61,-11148 }, {   0,   0 }, {  63,-11123 },
- {   0,   0 }, {  65,-11123 }, {  66,-11123 }, {  67,-11123 }, {  68,-11123 },
- {  69,-11123 }, {  70,-11123 }, {  71,-11123 }, {  72,-11123 }, {  73,-11123 },
- {  74,-11123 }, {  75,-11123 }, {  76,-11123 }, {  77,-11123 }, {  78,-11123 },
-
- {  79,-11123 }, {  80,-11123 }, {  81,-11123 }, {  82,-11123 }, {  83,-11123 },
- {  84,-11123 }, {  85,-11123 }, {  86,-11123 }, {  87,-11123 }, {  88,-11123 },
- {  89,-11123 }, {  90,-11123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11123 }, {   0,   0 }, {  97,-11123 }, {  98,-11123 },
- {  99,-11123 }, { 100,-11123 }, { 101, 393 }, { 102,-11123 }, { 103,-11123 },
- { 104,-11123 }, { 105,-11123 }, { 106,-11123 }, { 107,-11123 }, { 108,-11123 },
- { 109,-11123 }, { 110,-11123 }, { 111,-11123 }, { 112,-11123 }, { 113,-11123 },
- { 114,-11123 }, { 115,-11123 }, { 116,-11123 }, { 117,-11123 }, { 118,-11123 },
- { 119,-11123 }, { 120,-11123 }, { 121,-11123 }, { 122,-11123 }, {   0,   0 },
- { 124,-11148 }, { 125,-11148 }, { 126,-11148 }, { 127,-11123 }, { 128,-11123 },
-
- { 129,-11123 }, { 130,-11123 }, { 131,-11123 }, { 132,-11123 }, { 133,-11123 },
- { 134,-11123 }, { 135,-11123 }, { 136,-11123 }, { 137,-11123 }, { 138,-11123 },
- { 139,-11123 }, { 140,-11123 }, { 141,-11123 }, { 142,-11123 }, { 143,-11123 },
- { 144,-11123 }, { 145,-11123 }, { 146,-11123 }, { 147,-11123 }, { 148,-11123 },
- { 149,-11123 }, { 150,-11123 }, { 151,-11123 }, { 152,-11123 }, { 153,-11123 },
- { 154,-11123 }, { 155,-11123 }, { 156,-11123 }, { 157,-11123 }, { 158,-11123 },
- { 159,-11123 }, { 160,-11123 }, { 161,-11123 }, { 162,-11123 }, { 163,-11123 },
- { 164,-11123 }, { 165,-11123 }, { 166,-11123 }, { 167,-11123 }, { 168,-11123 },
- { 169,-11123 }, { 170,-11123 }, { 171,-11123 }, { 172,-11123 }, { 173,-11123 },
- { 174,-11123 }, { 175,-11123 }, { 176,-11123 }, { 177,-11123 }, { 178,-11123 },
-
- { 179,-11123 }, { 180,-11123 }, { 181,-11123 }, { 182,-11123 }, { 183,-11123 },
- { 184,-11123 }, { 185,-11123 }, { 186,-11123 }, { 187,-11123 }, { 188,-11123 },
- { 189,-11123 }, { 190,-11123 }, { 191,-11123 }, { 192,-11123 }, { 193,-11123 },
- { 194,-11123 }, { 195,-11123 }, { 196,-11123 }, { 197,-11123 }, { 198,-11123 },
- { 199,-11123 }, { 200,-11123 }, { 201,-11123 }, { 202,-11123 }, { 203,-11123 },
- { 204,-11123 }, { 205,-11123 }, { 206,-11123 }, { 207,-11123 }, { 208,-11123 },
- { 209,-11123 }, { 210,-11123 }, { 211,-11123 }, { 212,-11123 }, { 213,-11123 },
- { 214,-11123 }, { 215,-11123 }, { 216,-11123 }, { 217,-11123 }, { 218,-11123 },
- { 219,-11123 }, { 220,-11123 }, { 221,-11123 }, { 222,-11123 }, { 223,-11123 },
- { 224,-11123 }, { 225,-11123 }, { 226,-11123 }, { 227,-11123 }, { 228,-11123 },
-
- { 229,-11123 }, { 230,-11123 }, { 231,-11123 }, { 232,-11123 }, { 233,-11123 },
- { 234,-11123 }, { 235,-11123 }, { 236,-11123 }, { 237,-11123 }, { 238,-11123 },
- { 239,-11123 }, { 240,-11123 }, { 241,-11123 }, { 242,-11123 }, { 243,-11123 },
- { 244,-11123 }, { 245,-11123 }, { 246,-11123 }, { 247,-11123 }, { 248,-11123 },
- { 249,-11123 }, { 250,-11123 }, { 251,-11123 }, { 252,-11123 }, { 253,-11123 },
- { 254,-11123 }, { 255,-11123 }, { 256,-11123 }, {   0,  25 }, {   0, 685 },
- {   0,  25 }, {   0, 683 }, {   0,  25 }, {   0, 681 }, {   0,   0 },
- {   0, 679 }, {   0,   0 }, {   0, 677 }, {   9, 393 }, {  10, 393 },
- {   0,   0 }, {   0,   0 }, {  13, 393 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32, 393 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0, 642 }, {   0,   0 }, {   0, 640 },
- {   0,  23 }, {   0, 638 }, {   0,   0 }, {   0, 636 }, {   0,   0 },
- {   0,   0 }, {   0, 633 }, {   0,   0 }, {   0, 631 }, {   0,  12 },
- {   0, 629 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 616 }, {   0,  45 },
-
- {   0, 614 }, {   0,   9 }, {   0, 612 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  43 },
- { 126,  45 }, { 125,  45 }, {   0,   0 }, { 125,  39 }, {   0,   0 },
- { 125,  43 }, { 126,  46 }, { 125,  46 }, {   0,   0 }, {   0, 550 },
- {   1,-11516 }, {   2,-11516 }, {   3,-11516 }, {   4,-11516 }, {   5,-11516 },
- {   6,-11516 }, {   7,-11516 }, {   8,-11516 }, {   9,-11541 }, {  10,-11541 },
- {  11,-11516 }, {  12,-11516 }, {  13,-11541 }, {  14,-11516 }, {  15,-11516 },
- {  16,-11516 }, {  17,-11516 }, {  18,-11516 }, {  19,-11516 }, {  20,-11516 },
- {  21,-11516 }, {  22,-11516 }, {  23,-11516 }, {  24,-11516 }, {  25,-11516 },
- {  26,-11516 }, {  27,-11516 }, {  28,-11516 }, {  29,-11516 }, {  30,-11516 },
- {  31,-11516 }, {  32,-11541 }, { 125,   4 }, {   0,   0 }, { 125,  -2 },
-
- {  36,-11516 }, {   0,   0 }, {   0,   0 }, { 125,   7 }, {   0,   0 },
- {  41,-11541 }, { 125,  -3 }, {   0,   0 }, { 125,  15 }, {  45,-11516 },
- {  46,-11541 }, {  47,-11541 }, {  48,-11516 }, {  49,-11516 }, {  50,-11516 },
- {  51,-11516 }, {  52,-11516 }, {  53,-11516 }, {  54,-11516 }, {  55,-11516 },
- {  56,-11516 }, {  57,-11516 }, {  58,-11516 }, { 125,   4 }, {   0,   0 },
- {  61,-11541 }, {   0,   0 }, {  63,-11516 }, {   0,   0 }, {  65,-11516 },
- {  66,-11516 }, {  67,-11516 }, {  68,-11516 }, {  69,-11516 }, {  70,-11516 },
- {  71,-11516 }, {  72,-11516 }, {  73,-11516 }, {  74,-11516 }, {  75,-11516 },
- {  76,-11516 }, {  77,-11516 }, {  78,-11516 }, {  79,-11516 }, {  80,-11516 },
- {  81,-11516 }, {  82,-11516 }, {  83,-11516 }, {  84,-11516 }, {  85,-11516 },
-
- {  86,-11516 }, {  87,-11516 }, {  88,-11516 }, {  89,-11516 }, {  90,-11516 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11516 },
- {   0,   0 }, {  97,-11516 }, {  98,-11516 }, {  99,-11516 }, { 100, 292 },
- { 101,-11516 }, { 102,-11516 }, { 103,-11516 }, { 104,-11516 }, { 105,-11516 },
- { 106,-11516 }, { 107,-11516 }, { 108,-11516 }, { 109,-11516 }, { 110,-11516 },
- { 111,-11516 }, { 112,-11516 }, { 113,-11516 }, { 114,-11516 }, { 115,-11516 },
- { 116,-11516 }, { 117,-11516 }, { 118,-11516 }, { 119,-11516 }, { 120,-11516 },
- { 121,-11516 }, { 122,-11516 }, {   0,   0 }, { 124,-11541 }, { 125,-11541 },
- { 126,-11541 }, { 127,-11516 }, { 128,-11516 }, { 129,-11516 }, { 130,-11516 },
- { 131,-11516 }, { 132,-11516 }, { 133,-11516 }, { 134,-11516 }, { 135,-11516 },
-
- { 136,-11516 }, { 137,-11516 }, { 138,-11516 }, { 139,-11516 }, { 140,-11516 },
- { 141,-11516 }, { 142,-11516 }, { 143,-11516 }, { 144,-11516 }, { 145,-11516 },
- { 146,-11516 }, { 147,-11516 }, { 148,-11516 }, { 149,-11516 }, { 150,-11516 },
- { 151,-11516 }, { 152,-11516 }, { 153,-11516 }, { 154,-11516 }, { 155,-11516 },
- { 156,-11516 }, { 157,-11516 }, { 158,-11516 }, { 159,-11516 }, { 160,-11516 },
- { 161,-11516 }, { 162,-11516 }, { 163,-11516 }, { 164,-11516 }, { 165,-11516 },
- { 166,-11516 }, { 167,-11516 }, { 168,-11516 }, { 169,-11516 }, { 170,-11516 },
- { 171,-11516 }, { 172,-11516 }, { 173,-11516 }, { 174,-11516 }, { 175,-11516 },
- { 176,-11516 }, { 177,-11516 }, { 178,-11516 }, { 179,-11516 }, { 180,-11516 },
- { 181,-11516 }, { 182,-11516 }, { 183,-11516 }, { 184,-11516 }, { 185,-11516 },
-
- { 186,-11516 }, { 187,-11516 }, { 188,-11516 }, { 189,-11516 }, { 190,-11516 },
- { 191,-11516 }, { 192,-11516 }, { 193,-11516 }, { 194,-11516 }, { 195,-11516 },
- { 196,-11516 }, { 197,-11516 }, { 198,-11516 }, { 199,-11516 }, { 200,-11516 },
- { 201,-11516 }, { 202,-11516 }, { 203,-11516 }, { 204,-11516 }, { 205,-11516 },
- { 206,-11516 }, { 207,-11516 }, { 208,-11516 }, { 209,-11516 }, { 210,-11516 },
- { 211,-11516 }, { 212,-11516 }, { 213,-11516 }, { 214,-11516 }, { 215,-11516 },
- { 216,-11516 }, { 217,-11516 }, { 218,-11516 }, { 219,-11516 }, { 220,-11516 },
- { 221,-11516 }, { 222,-11516 }, { 223,-11516 }, { 224,-11516 }, { 225,-11516 },
- { 226,-11516 }, { 227,-11516 }, { 228,-11516 }, { 229,-11516 }, { 230,-11516 },
- { 231,-11516 }, { 232,-11516 }, { 233,-11516 }, { 234,-11516 }, { 235,-11516 },
-
- { 236,-11516 }, { 237,-11516 }, { 238,-11516 }, { 239,-11516 }, { 240,-11516 },
- { 241,-11516 }, { 242,-11516 }, { 243,-11516 }, { 244,-11516 }, { 245,-11516 },
- { 246,-11516 }, { 247,-11516 }, { 248,-11516 }, { 249,-11516 }, { 250,-11516 },
- { 251,-11516 }, { 252,-11516 }, { 253,-11516 }, { 254,-11516 }, { 255,-11516 },
- { 256,-11516 }, {   0,   0 }, {   0, 292 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 232,-11620 }, { 233,-11620 }, { 234,-11620 }, { 235,-11620 }, { 236,-11620 },
+ { 237,-11620 }, { 238,-11620 }, { 239,-11620 }, { 240,-11620 }, { 241,-11620 },
+ { 242,-11620 }, { 243,-11620 }, { 244,-11620 }, { 245,-11620 }, { 246,-11620 },
+ { 247,-11620 }, { 248,-11620 }, { 249,-11620 }, { 250,-11620 }, { 251,-11620 },
+ { 252,-11620 }, { 253,-11620 }, { 254,-11620 }, { 255,-11620 }, { 256,-11620 },
+ {   0,   0 }, {   0, 292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0, 258 }, {   1,-11808 }, {   2,-11808 }, {   3,-11808 },
- {   4,-11808 }, {   5,-11808 }, {   6,-11808 }, {   7,-11808 }, {   8,-11808 },
- {   9,-356 }, {  10,-356 }, {  11,-11808 }, {  12,-11808 }, {  13,-356 },
- {  14,-11808 }, {  15,-11808 }, {  16,-11808 }, {  17,-11808 }, {  18,-11808 },
- {  19,-11808 }, {  20,-11808 }, {  21,-11808 }, {  22,-11808 }, {  23,-11808 },
- {  24,-11808 }, {  25,-11808 }, {  26,-11808 }, {  27,-11808 }, {  28,-11808 },
- {  29,-11808 }, {  30,-11808 }, {  31,-11808 }, {  32,-356 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-11808 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-356 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  45,-11808 }, {  46,-11833 }, {  47,-11833 }, {  48,-11808 },
- {  49,-11808 }, {  50,-11808 }, {  51,-11808 }, {  52,-11808 }, {  53,-11808 },
- {  54,-11808 }, {  55,-11808 }, {  56,-11808 }, {  57,-11808 }, {  58,-11808 },
- {   0,   0 }, {   0,   0 }, {  61,-11833 }, {   0,   0 }, {  63,-11808 },
- {   0,   0 }, {  65,-11808 }, {  66,-11808 }, {  67,-11808 }, {  68,-11808 },
- {  69,-11808 }, {  70,-11808 }, {  71,-11808 }, {  72,-11808 }, {  73,-11808 },
- {  74,-11808 }, {  75,-11808 }, {  76,-11808 }, {  77,-11808 }, {  78,-11808 },
- {  79,-11808 }, {  80,-11808 }, {  81,-11808 }, {  82,-11808 }, {  83,-11808 },
- {  84,-11808 }, {  85,-11808 }, {  86,-11808 }, {  87,-11808 }, {  88,-11808 },
- {  89,-11808 }, {  90,-11808 }, { 125,-350 }, { 126,-348 }, {   0,   0 },
-
- {   0,   0 }, {  95,-11808 }, {   0,   0 }, {  97,-11808 }, {  98,-11808 },
- {  99,-11808 }, { 100,-11808 }, { 101,-11808 }, { 102,-11808 }, { 103,-11808 },
- { 104,-11808 }, { 105,-11808 }, { 106,-11808 }, { 107,-11808 }, { 108,-11808 },
- { 109,-11808 }, { 110,-11808 }, { 111,-11808 }, { 112,-11808 }, { 113,-11808 },
- { 114,-11808 }, { 115,-11808 }, { 116,-11808 }, { 117,-11808 }, { 118,-11808 },
- { 119,-11808 }, { 120,-11808 }, { 121,-11808 }, { 122,-11808 }, {   0,   0 },
- { 124,-11833 }, { 125,-356 }, { 126,-356 }, { 127,-11808 }, { 128,-11808 },
- { 129,-11808 }, { 130,-11808 }, { 131,-11808 }, { 132,-11808 }, { 133,-11808 },
- { 134,-11808 }, { 135,-11808 }, { 136,-11808 }, { 137,-11808 }, { 138,-11808 },
- { 139,-11808 }, { 140,-11808 }, { 141,-11808 }, { 142,-11808 }, { 143,-11808 },
-
- { 144,-11808 }, { 145,-11808 }, { 146,-11808 }, { 147,-11808 }, { 148,-11808 },
- { 149,-11808 }, { 150,-11808 }, { 151,-11808 }, { 152,-11808 }, { 153,-11808 },
- { 154,-11808 }, { 155,-11808 }, { 156,-11808 }, { 157,-11808 }, { 158,-11808 },
- { 159,-11808 }, { 160,-11808 }, { 161,-11808 }, { 162,-11808 }, { 163,-11808 },
- { 164,-11808 }, { 165,-11808 }, { 166,-11808 }, { 167,-11808 }, { 168,-11808 },
- { 169,-11808 }, { 170,-11808 }, { 171,-11808 }, { 172,-11808 }, { 173,-11808 },
- { 174,-11808 }, { 175,-11808 }, { 176,-11808 }, { 177,-11808 }, { 178,-11808 },
- { 179,-11808 }, { 180,-11808 }, { 181,-11808 }, { 182,-11808 }, { 183,-11808 },
- { 184,-11808 }, { 185,-11808 }, { 186,-11808 }, { 187,-11808 }, { 188,-11808 },
- { 189,-11808 }, { 190,-11808 }, { 191,-11808 }, { 192,-11808 }, { 193,-11808 },
-
- { 194,-11808 }, { 195,-11808 }, { 196,-11808 }, { 197,-11808 }, { 198,-11808 },
- { 199,-11808 }, { 200,-11808 }, { 201,-11808 }, { 202,-11808 }, { 203,-11808 },
- { 204,-11808 }, { 205,-11808 }, { 206,-11808 }, { 207,-11808 }, { 208,-11808 },
- { 209,-11808 }, { 210,-11808 }, { 211,-11808 }, { 212,-11808 }, { 213,-11808 },
- { 214,-11808 }, { 215,-11808 }, { 216,-11808 }, { 217,-11808 }, { 218,-11808 },
- { 219,-11808 }, { 220,-11808 }, { 221,-11808 }, { 222,-11808 }, { 223,-11808 },
- { 224,-11808 }, { 225,-11808 }, { 226,-11808 }, { 227,-11808 }, { 228,-11808 },
- { 229,-11808 }, { 230,-11808 }, { 231,-11808 }, { 232,-11808 }, { 233,-11808 },
- { 234,-11808 }, { 235,-11808 }, { 236,-11808 }, { 237,-11808 }, { 238,-11808 },
- { 239,-11808 }, { 240,-11808 }, { 241,-11808 }, { 242,-11808 }, { 243,-11808 },
-
- { 244,-11808 }, { 245,-11808 }, { 246,-11808 }, { 247,-11808 }, { 248,-11808 },
- { 249,-11808 }, { 250,-11808 }, { 251,-11808 }, { 252,-11808 }, { 253,-11808 },
- { 254,-11808 }, { 255,-11808 }, { 256,-11808 }, { 257,  52 }, {   1,   0 },
-    };
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
+ {   0, 258 }, {   1,-11912 }, {   2,-11912 }, {   3,-11912 }, {   4,-11912 },
+ {   5,-11912 }, {   6,-11912 }, {   7,-11912 }, {   8,-11912 }, {   9,-356 },
+ {  10,-356 }, {  11,-11912 }, {  12,-11912 }, {  13,-356 }, {  14,-11912 },
+ {  15,-11912 }, {  16,-11912 }, {  17,-11912 }, {  18,-11912 }, {  19,-11912 },
+ {  20,-11912 }, {  21,-11912 }, {  22,-11912 }, {  23,-11912 }, {  24,-11912 },
+ {  25,-11912 }, {  26,-11912 }, {  27,-11912 }, {  28,-11912 }, {  29,-11912 },
+ {  30,-11912 }, {  31,-11912 }, {  32,-356 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-11912 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  41,-356 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-11912 }, {  46,-11937 }, {  47,-11937 }, {  48,-11912 }, {  49,-11912 },
+ {  50,-11912 }, {  51,-11912 }, {  52,-11912 }, {  53,-11912 }, {  54,-11912 },
+ {  55,-11912 }, {  56,-11912 }, {  57,-11912 }, {  58,-11912 }, {   0,   0 },
+ {   0,   0 }, {  61,-11937 }, {   0,   0 }, {  63,-11912 }, {   0,   0 },
+ {  65,-11912 }, {  66,-11912 }, {  67,-11912 }, {  68,-11912 }, {  69,-11912 },
+ {  70,-11912 }, {  71,-11912 }, {  72,-11912 }, {  73,-11912 }, {  74,-11912 },
+ {  75,-11912 }, {  76,-11912 }, {  77,-11912 }, {  78,-11912 }, {  79,-11912 },
+ {  80,-11912 }, {  81,-11912 }, {  82,-11912 }, {  83,-11912 }, {  84,-11912 },
+ {  85,-11912 }, {  86,-11912 }, {  87,-11912 }, {  88,-11912 }, {  89,-11912 },
+
+ {  90,-11912 }, { 125,-350 }, { 126,-348 }, {   0,   0 }, {   0,   0 },
+ {  95,-11912 }, {   0,   0 }, {  97,-11912 }, {  98,-11912 }, {  99,-11912 },
+ { 100,-11912 }, { 101,-11912 }, { 102,-11912 }, { 103,-11912 }, { 104,-11912 },
+ { 105,-11912 }, { 106,-11912 }, { 107,-11912 }, { 108,-11912 }, { 109,-11912 },
+ { 110,-11912 }, { 111,-11912 }, { 112,-11912 }, { 113,-11912 }, { 114,-11912 },
+ { 115,-11912 }, { 116,-11912 }, { 117,-11912 }, { 118,-11912 }, { 119,-11912 },
+ { 120,-11912 }, { 121,-11912 }, { 122,-11912 }, {   0,   0 }, { 124,-11937 },
+ { 125,-356 }, { 126,-356 }, { 127,-11912 }, { 128,-11912 }, { 129,-11912 },
+ { 130,-11912 }, { 131,-11912 }, { 132,-11912 }, { 133,-11912 }, { 134,-11912 },
+ { 135,-11912 }, { 136,-11912 }, { 137,-11912 }, { 138,-11912 }, { 139,-11912 },
+
+ { 140,-11912 }, { 141,-11912 }, { 142,-11912 }, { 143,-11912 }, { 144,-11912 },
+ { 145,-11912 }, { 146,-11912 }, { 147,-11912 }, { 148,-11912 }, { 149,-11912 },
+ { 150,-11912 }, { 151,-11912 }, { 152,-11912 }, { 153,-11912 }, { 154,-11912 },
+ { 155,-11912 }, { 156,-11912 }, { 157,-11912 }, { 158,-11912 }, { 159,-11912 },
+ { 160,-11912 }, { 161,-11912 }, { 162,-11912 }, { 163,-11912 }, { 164,-11912 },
+ { 165,-11912 }, { 166,-11912 }, { 167,-11912 }, { 168,-11912 }, { 169,-11912 },
+ { 170,-11912 }, { 171,-11912 }, { 172,-11912 }, { 173,-11912 }, { 174,-11912 },
+ { 175,-11912 }, { 176,-11912 }, { 177,-11912 }, { 178,-11912 }, { 179,-11912 },
+ { 180,-11912 }, { 181,-11912 }, { 182,-11912 }, { 183,-11912 }, { 184,-11912 },
+ { 185,-11912 }, { 186,-11912 }, { 187,-11912 }, { 188,-11912 }, { 189,-11912 },
+
+ { 190,-11912 }, { 191,-11912 }, { 192,-11912 }, { 193,-11912 }, { 194,-11912 },
+ { 195,-11912 }, { 196,-11912 }, { 197,-11912 }, { 198,-11912 }, { 199,-11912 },
+ { 200,-11912 }, { 201,-11912 }, { 202,-11912 }, { 203,-11912 }, { 204,-11912 },
+ { 205,-11912 }, { 206,-11912 }, { 207,-11912 }, { 208,-11912 }, { 209,-11912 },
+ { 210,-11912 }, { 211,-11912 }, { 212,-11912 }, { 213,-11912 }, { 214,-11912 },
+ { 215,-11912 }, { 216,-11912 }, { 217,-11912 }, { 218,-11912 }, { 219,-11912 },
+ { 220,-11912 }, { 221,-11912 }, { 222,-11912 }, { 223,-11912 }, { 224,-11912 },
+ { 225,-11912 }, { 226,-11912 }, { 227,-11912 }, { 228,-11912 }, { 229,-11912 },
+ { 230,-11912 }, { 231,-11912 }, { 232,-11912 }, { 233,-11912 }, { 234,-11912 },
+ { 235,-11912 }, { 236,-11912 }, { 237,-11912 }, { 238,-11912 }, { 239,-11912 },
+
+ { 240,-11912 }, { 241,-11912 }, { 242,-11912 }, { 243,-11912 }, { 244,-11912 },
+ { 245,-11912 }, { 246,-11912 }, { 247,-11912 }, { 248,-11912 }, { 249,-11912 },
+ { 250,-11912 }, { 251,-11912 }, { 252,-11912 }, { 253,-11912 }, { 254,-11912 },
+ { 255,-11912 }, { 256,-11912 }, { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -4999,6 +5021,7 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
+
     } ;
 
 /* Table of booleans, true if rule could match eol. */
@@ -5108,9 +5131,9 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5112 "handlebars.lex.c"
+#line 5135 "handlebars.lex.c"
 
-#line 5114 "handlebars.lex.c"
+#line 5137 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5393,7 +5416,7 @@ YY_DECL
 
 
 
-#line 5397 "handlebars.lex.c"
+#line 5420 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -6019,7 +6042,7 @@ YY_RULE_SETUP
 #line 483 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6023 "handlebars.lex.c"
+#line 6046 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
-- 
2.43.0


From 93341b8b58e8d8aa4266f15cafe8d09c2bf3716b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 04/98] fix: a long comment ends at the first --}} and may
 contain --

{{!-- a -- b --}} was not recognised: its text was written to stdout by the
default rule of the scanner and dropped from the template.
---
 src/handlebars.l     |    6 +-
 src/handlebars.lex.c | 1959 ++++++++++++++++++++++++------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 1139 insertions(+), 828 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 221befd..4c78f91 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -133,6 +133,10 @@ IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
 
+/* From one "-" of a long comment to a later one, without passing "--}}" or "--~}}" */
+COM_SKIP  [^-]|"-"+([^-}~]|"}"[^-}]|"~"[^-}]|"~}"[^-}])
+COM_DASH  {COM_SKIP}[^-]*"-"|"-"+("}"|"~"|"~}")"-"
+
 
 %%
 
@@ -219,7 +223,7 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
-<com>"{{"{LEFT_STRIP}?"!--"([-]?[^-])*"--"{RIGHT_STRIP}?"}}" {
+<com>"{{"{LEFT_STRIP}?"!-"{COM_DASH}*"-"+{RIGHT_STRIP}?"}}" {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 8099870..ed3c207 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -599,9 +599,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20273] =
+static const struct yy_trans_info yy_transition[21662] =
     {
- {   0,   0 }, {   0,20017 }, {   0,   2 }, {   0,20015 }, {   1,3096 },
+ {   0,   0 }, {   0,21406 }, {   0,   2 }, {   0,21404 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19757 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,21146 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19499 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20888 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19241 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20630 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18983 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20372 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18725 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,20114 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,7 +942,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18467 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,19856 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -998,7 +998,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18209 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19598 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1055,7 +1055,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17951 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,19340 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1112,7 +1112,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17693 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,19082 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1168,7 +1168,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17435 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18824 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1225,7 +1225,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17177 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,18566 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1281,7 +1281,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16919 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18308 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1339,14 +1339,14 @@ static const struct yy_trans_info yy_transition[20273] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16662 }, {   0,   6 }, {   0,16660 }, {   0,   6 },
- {   0,16658 }, {   0,  51 }, {   0,16656 }, {   0,  35 }, {   0,16654 },
+ {   0,   2 }, {   0,18051 }, {   0,   6 }, {   0,18049 }, {   0,   6 },
+ {   0,18047 }, {   0,  51 }, {   0,18045 }, {   0,  35 }, {   0,18043 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16647 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16642 }, {  13,4742 }, {   0,  14 }, {   0,16639 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16635 }, {  13,4735 },
- {   0,  34 }, {   0,16632 }, {   0,  31 }, {   0,16630 }, {   0,  40 },
- {   0,16628 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,18036 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,18031 }, {  13,4742 }, {   0,  14 }, {   0,18028 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,18024 }, {  13,4735 },
+ {   0,  34 }, {   0,18021 }, {   0,  31 }, {   0,18019 }, {   0,  40 },
+ {   0,18017 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1367,7 +1367,7 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16533 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,17922 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16276 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,17665 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1481,7 +1481,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,16018 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,17407 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15760 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17149 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15502 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,16891 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15244 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16633 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15226 }, {   0,  42 }, {   0,15224 },
+ {   0,   0 }, {   0,  50 }, {   0,16615 }, {   0,  42 }, {   0,16613 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15195 }, {   0,  50 },
- {   0,15193 }, {   0,   7 }, {   0,15191 }, {   0,  51 }, {   0,15189 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16584 }, {   0,  50 },
+ {   0,16582 }, {   0,   7 }, {   0,16580 }, {   0,  51 }, {   0,16578 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15162 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,16551 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14904 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16293 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14646 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,16035 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1839,7 +1839,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14388 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,15777 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,14130 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15519 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13872 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,15261 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13614 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,15003 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13356 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,14745 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2123,7 +2123,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,13098 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,14487 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2179,7 +2179,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12840 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14229 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2236,7 +2236,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12583 }, {   0,   2 }, {   0,12581 }, {   0,   0 }, {   0,12579 },
+ {   0,13972 }, {   0,   2 }, {   0,13970 }, {   0,   0 }, {   0,13968 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2264,7 +2264,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12458 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13847 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2320,13 +2320,13 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12201 }, {   0,   0 }, {   0,12199 },
- {   0,   5 }, {   0,12197 }, {   0,  48 }, {   0,12195 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13590 }, {   0,   0 }, {   0,13588 },
+ {   0,   5 }, {   0,13586 }, {   0,  48 }, {   0,13584 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12170 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13559 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2384,14 +2384,14 @@ static const struct yy_trans_info yy_transition[20273] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11912 }, {   0,  38 }, {   0,11910 }, {   0,  39 },
- {   0,11908 }, {   0,  33 }, {   0,11906 }, {   0,  32 }, {   0,11904 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11900 }, {  13,   0 },
- {   0,  49 }, {   0,11897 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,13301 }, {   0,  38 }, {   0,13299 }, {   0,  39 },
+ {   0,13297 }, {   0,  33 }, {   0,13295 }, {   0,  32 }, {   0,13293 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13289 }, {  13,   0 },
+ {   0,  49 }, {   0,13286 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11878 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13267 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2447,7 +2447,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11620 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13009 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2505,7 +2505,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11362 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12751 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2561,7 +2561,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11104 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12493 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2618,7 +2618,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10846 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,12235 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2675,7 +2675,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10588 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,11977 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2687,7 +2687,7 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10529 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11918 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2744,7 +2744,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10271 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,11660 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2802,7 +2802,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,10013 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11402 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
  {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2858,7 +2858,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9755 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,11144 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2915,7 +2915,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9497 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,10886 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2971,7 +2971,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9239 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10628 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3028,7 +3028,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8981 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,10370 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3085,10 +3085,10 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8723 }, {   0,  37 }, {   0,8721 }, {   0,   0 }, {   0,8719 },
+ {   0,10112 }, {   0,  37 }, {   0,10110 }, {   0,   0 }, {   0,10108 },
 
- {   0,   0 }, {   0,8717 }, {   0,   0 }, {   0,8715 }, {   9,3289 },
- {  10,3289 }, {   0,  13 }, {   0,8711 }, {  13,3289 }, {   0,   0 },
+ {   0,   0 }, {   0,10106 }, {   0,   0 }, {   0,10104 }, {   9,3289 },
+ {  10,3289 }, {   0,  13 }, {   0,10100 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3115,7 +3115,7 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
  {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
  {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,3287 },
- {   0,   0 }, {   0,8587 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,9976 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3171,7 +3171,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8329 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9718 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3228,7 +3228,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,8071 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9460 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3285,11 +3285,11 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7814 },
- {   0,   0 }, {   0,7812 }, {   0,   0 }, {   0,7810 }, {   0,   5 },
- {   0,7808 }, {   0,  29 }, {   0,7806 }, {   0,  20 }, {   0,7804 },
- {   0,  27 }, {   0,7802 }, {   0,  30 }, {   0,7800 }, {   0,  21 },
- {   0,7798 }, {   0,  18 }, {   0,7796 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9203 },
+ {   0,   0 }, {   0,9201 }, {   0,   0 }, {   0,9199 }, {   0,   5 },
+ {   0,9197 }, {   0,  29 }, {   0,9195 }, {   0,  20 }, {   0,9193 },
+ {   0,  27 }, {   0,9191 }, {   0,  30 }, {   0,9189 }, {   0,  21 },
+ {   0,9187 }, {   0,  18 }, {   0,9185 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3310,10 +3310,10 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,7701 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,9090 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,2400 }, {   0,   0 }, { 123,2401 },
- {   0,   0 }, { 123,2401 }, {   0,   4 }, {   0,7685 }, {   1,2401 },
+ {   0,   0 }, { 123,2401 }, {   0,   4 }, {   0,9074 }, {   1,2401 },
  {   2,2401 }, {   3,2401 }, {   4,2401 }, {   5,2401 }, {   6,2401 },
  {   7,2401 }, {   8,2401 }, {   9,2401 }, {  10,2289 }, {  11,2401 },
  {  12,2401 }, {  13,2289 }, {  14,2401 }, {  15,2401 }, {  16,2401 },
@@ -3370,7 +3370,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,2401 }, { 243,2401 }, { 244,2401 }, { 245,2401 }, { 246,2401 },
  { 247,2401 }, { 248,2401 }, { 249,2401 }, { 250,2401 }, { 251,2401 },
  { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  38 },
- {   0,7428 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ {   0,8817 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3426,7 +3426,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7170 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8559 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3484,7 +3484,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6912 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,8301 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,1523 }, {  10,1523 }, {   0,   0 }, {   0,   0 }, {  13,1523 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3511,7 +3511,7 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  49 }, {   0,6784 },
+ {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  49 }, {   0,8173 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3568,28 +3568,28 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  48 }, {   0,6526 }, {   0,   0 }, {   0,   0 },
+ { 256,-3745 }, {   0,  48 }, {   0,7915 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   9,1756 }, {  10,1756 }, {   0,   0 }, {   0,   0 },
  {  13,1756 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
- {   0,6498 }, {   0,   0 }, {   0,  36 }, {   0,6495 }, {  32,1756 },
+ {   0,7887 }, {   0,   0 }, {   0,  36 }, {   0,7884 }, {  32,1756 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,6468 }, {   0,   0 }, {   0,6466 }, {   1,-5704 }, {   2,-5704 },
+ {   0,7857 }, {   0,   0 }, {   0,7855 }, {   1,-5704 }, {   2,-5704 },
  {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
  {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
  {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
  {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
  {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
  {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  37 }, {   0,6432 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,  37 }, {   0,7821 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
 
@@ -3639,7 +3639,7 @@ static const struct yy_trans_info yy_transition[20273] =
 
  { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
  { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
- {   0,6208 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
+ {   0,7597 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
  {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
  {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
  {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
@@ -3695,7 +3695,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
  { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
  { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
- { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,5950 }, {   1,-6220 },
+ { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7339 }, {   1,-6220 },
  {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
  {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
  {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
@@ -3752,7 +3752,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
  { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
  { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
- {   0,   0 }, {   0,5692 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
+ {   0,   0 }, {   0,7081 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
  {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
  {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
  {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
@@ -3808,21 +3808,21 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
  { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
  { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
- { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,5434 },
- {   0,  24 }, {   0,5432 }, {   0,   0 }, {   0,5430 }, {   0,   0 },
- {   0,5428 }, {   0,  30 }, {   0,5426 }, {   9,   0 }, {  10,   0 },
+ { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6823 },
+ {   0,  24 }, {   0,6821 }, {   0,   0 }, {   0,6819 }, {   0,   0 },
+ {   0,6817 }, {   0,  30 }, {   0,6815 }, {   9,   0 }, {  10,   0 },
  {   9,1754 }, {  10,1754 }, {  13,   0 }, {   0,   0 }, {  13,1754 },
 
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,5414 },
- {  13,  -8 }, {   0,   0 }, {   0,5411 }, {   0,   1 }, {   0,5409 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,6803 },
+ {  13,  -8 }, {   0,   0 }, {   0,6800 }, {   0,   1 }, {   0,6798 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,1754 }, {   0,   0 },
- {   0,   0 }, {   0,   4 }, {   0,5396 }, {  33,  -2 }, {  32,  -8 },
- {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  47 }, {   0,5389 },
- {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45, 708 }, {  42,-2374 },
- {  13,   0 }, {   0,  41 }, {   0,5381 }, {   0,   0 }, {  47,-2372 },
- {   0,   0 }, {   0,   0 }, {   0,5376 }, {   0,  20 }, {   0,5374 },
- {   0,  19 }, {   0,5372 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   4 }, {   0,6785 }, {  33,  -2 }, {  32,  -8 },
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  47 }, {   0,6778 },
+ {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45,1880 }, {  42,-2374 },
+ {  13,   0 }, {   0,  41 }, {   0,6770 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,6765 }, {   0,  20 }, {   0,6763 },
+ {   0,  19 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3831,17 +3831,17 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,-2267 }, {  94,  -6 }, {  45,2092 }, {   0,   0 }, {   0,   0 },
+ { 101,-2267 }, {  94,  -6 }, {  45,2350 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,5317 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6706 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 125, 115 }, { 126, 688 }, {   0,   0 }, {   0,   0 },
  { 123, 697 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,1864 }, {   0,   0 }, {   0,   0 },
- { 123,2119 }, {   0,   0 }, { 123,2119 }, {   0,   4 }, {   0,5284 },
+ {   0,   0 }, {   0,   0 }, { 123,2122 }, {   0,   0 }, {   0,   0 },
+ { 123,2377 }, {   0,   0 }, { 123,2377 }, {   0,   4 }, {   0,6673 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-112 },
  {  11,   0 }, {  12,   0 }, {  13,-112 }, {  14,   0 }, {  15,   0 },
@@ -3862,7 +3862,7 @@ static const struct yy_trans_info yy_transition[20273] =
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, { 125,2035 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
+ {  91,   0 }, { 125,2293 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
@@ -3898,7 +3898,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- {   0,   4 }, {   0,5027 }, {   1,-257 }, {   2,-257 }, {   3,-257 },
+ {   0,   4 }, {   0,6416 }, {   1,-257 }, {   2,-257 }, {   3,-257 },
  {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 },
 
  {   9,-257 }, {  10,-369 }, {  11,-257 }, {  12,-257 }, {  13,-369 },
@@ -3954,28 +3954,28 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 },
  { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 },
  { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 },
- { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,4770 }, {   0,   0 },
+ { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,6159 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
  {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4744 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6133 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,4733 }, {   0,  16 }, {   0,4731 }, {   0,  26 }, {   0,4729 },
- {   0,  17 }, {   0,4727 }, {   0,  36 }, {   0,4725 }, {   0,   0 },
- {   0,   0 }, {   0,4722 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,6122 }, {   0,  16 }, {   0,6120 }, {   0,  26 }, {   0,6118 },
+ {   0,  17 }, {   0,6116 }, {   0,  36 }, {   0,6114 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,4710 }, {   1,-7460 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6099 }, {   1,-7460 },
  {   2,-7460 }, {   3,-7460 }, {   4,-7460 }, {   5,-7460 }, {   6,-7460 },
  {   7,-7460 }, {   8,-7460 }, {   9,-7485 }, {  10,-7485 }, {  11,-7460 },
  {  12,-7460 }, {  13,-7485 }, {  14,-7460 }, {  15,-7460 }, {  16,-7460 },
  {  17,-7460 }, {  18,-7460 }, {  19,-7460 }, {  20,-7460 }, {  21,-7460 },
  {  22,-7460 }, {  23,-7460 }, {  24,-7460 }, {  25,-7460 }, {  26,-7460 },
  {  27,-7460 }, {  28,-7460 }, {  29,-7460 }, {  30,-7460 }, {  31,-7460 },
- {  32,-7485 }, {  45,1973 }, {   0,   0 }, {   0,   0 }, {  36,-7460 },
+ {  32,-7485 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7460 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7485 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7460 }, {  46,-7485 },
@@ -3989,8 +3989,8 @@ static const struct yy_trans_info yy_transition[20273] =
  {  82,-7460 }, {  83,-7460 }, {  84,-7460 }, {  85,-7460 }, {  86,-7460 },
  {  87,-7460 }, {  88,-7460 }, {  89,-7460 }, {  90,-7460 }, { 125,-573 },
 
- { 115,1458 }, {   0,   0 }, {   0,   0 }, {  95,-7460 }, {   0,   0 },
- {  97,-7460 }, {  98,-7460 }, {  99,-7460 }, { 100,-7460 }, { 101,1445 },
+ { 115,1716 }, {   0,   0 }, {   0,   0 }, {  95,-7460 }, {   0,   0 },
+ {  97,-7460 }, {  98,-7460 }, {  99,-7460 }, { 100,-7460 }, { 101,1703 },
  { 102,-7460 }, { 103,-7460 }, { 104,-7460 }, { 105,-7460 }, { 106,-7460 },
  { 107,-7460 }, { 108,-7460 }, { 109,-7460 }, { 110,-7460 }, { 111,-7460 },
  { 112,-7460 }, { 113,-7460 }, { 114,-7460 }, { 115,-7460 }, { 116,-7460 },
@@ -4025,16 +4025,16 @@ static const struct yy_trans_info yy_transition[20273] =
  { 242,-7460 }, { 243,-7460 }, { 244,-7460 }, { 245,-7460 }, { 246,-7460 },
  { 247,-7460 }, { 248,-7460 }, { 249,-7460 }, { 250,-7460 }, { 251,-7460 },
  { 252,-7460 }, { 253,-7460 }, { 254,-7460 }, { 255,-7460 }, { 256,-7460 },
- {   0,   0 }, {   0,4452 }, {   1,-7718 }, {   2,-7718 }, {   3,-7718 },
+ {   0,   0 }, {   0,5841 }, {   1,-7718 }, {   2,-7718 }, {   3,-7718 },
  {   4,-7718 }, {   5,-7718 }, {   6,-7718 }, {   7,-7718 }, {   8,-7718 },
- {   9,1164 }, {  10,1164 }, {  11,-7718 }, {  12,-7718 }, {  13,1164 },
+ {   9,1422 }, {  10,1422 }, {  11,-7718 }, {  12,-7718 }, {  13,1422 },
  {  14,-7718 }, {  15,-7718 }, {  16,-7718 }, {  17,-7718 }, {  18,-7718 },
  {  19,-7718 }, {  20,-7718 }, {  21,-7718 }, {  22,-7718 }, {  23,-7718 },
  {  24,-7718 }, {  25,-7718 }, {  26,-7718 }, {  27,-7718 }, {  28,-7718 },
- {  29,-7718 }, {  30,-7718 }, {  31,-7718 }, {  32,1164 }, {   0,   0 },
+ {  29,-7718 }, {  30,-7718 }, {  31,-7718 }, {  32,1422 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {  36,-7718 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1164 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1422 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-7718 }, {  46,-7743 }, {  47,-7743 }, {  48,-7718 },
  {  49,-7718 }, {  50,-7718 }, {  51,-7718 }, {  52,-7718 }, {  53,-7718 },
  {  54,-7718 }, {  55,-7718 }, {  56,-7718 }, {  57,-7718 }, {  58,-7718 },
@@ -4052,7 +4052,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 109,-7718 }, { 110,-7718 }, { 111,-7718 }, { 112,-7718 }, { 113,-7718 },
  { 114,-7718 }, { 115,-7718 }, { 116,-7718 }, { 117,-7718 }, { 118,-7718 },
  { 119,-7718 }, { 120,-7718 }, { 121,-7718 }, { 122,-7718 }, {   0,   0 },
- { 124,-7743 }, { 125,1164 }, { 126,1164 }, { 127,-7718 }, { 128,-7718 },
+ { 124,-7743 }, { 125,1422 }, { 126,1422 }, { 127,-7718 }, { 128,-7718 },
  { 129,-7718 }, { 130,-7718 }, { 131,-7718 }, { 132,-7718 }, { 133,-7718 },
 
  { 134,-7718 }, { 135,-7718 }, { 136,-7718 }, { 137,-7718 }, { 138,-7718 },
@@ -4081,17 +4081,17 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,-7718 }, { 240,-7718 }, { 241,-7718 }, { 242,-7718 }, { 243,-7718 },
  { 244,-7718 }, { 245,-7718 }, { 246,-7718 }, { 247,-7718 }, { 248,-7718 },
  { 249,-7718 }, { 250,-7718 }, { 251,-7718 }, { 252,-7718 }, { 253,-7718 },
- { 254,-7718 }, { 255,-7718 }, { 256,-7718 }, {   0,   0 }, {   0,4194 },
+ { 254,-7718 }, { 255,-7718 }, { 256,-7718 }, {   0,   0 }, {   0,5583 },
  {   1,-7976 }, {   2,-7976 }, {   3,-7976 }, {   4,-7976 }, {   5,-7976 },
- {   6,-7976 }, {   7,-7976 }, {   8,-7976 }, {   9, 908 }, {  10, 908 },
- {  11,-7976 }, {  12,-7976 }, {  13, 908 }, {  14,-7976 }, {  15,-7976 },
+ {   6,-7976 }, {   7,-7976 }, {   8,-7976 }, {   9,1166 }, {  10,1166 },
+ {  11,-7976 }, {  12,-7976 }, {  13,1166 }, {  14,-7976 }, {  15,-7976 },
  {  16,-7976 }, {  17,-7976 }, {  18,-7976 }, {  19,-7976 }, {  20,-7976 },
  {  21,-7976 }, {  22,-7976 }, {  23,-7976 }, {  24,-7976 }, {  25,-7976 },
 
  {  26,-7976 }, {  27,-7976 }, {  28,-7976 }, {  29,-7976 }, {  30,-7976 },
- {  31,-7976 }, {  32, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  31,-7976 }, {  32,1166 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-7976 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41, 908 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7976 },
+ {  41,1166 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7976 },
  {  46,-8001 }, {  47,-8001 }, {  48,-7976 }, {  49,-7976 }, {  50,-7976 },
  {  51,-7976 }, {  52,-7976 }, {  53,-7976 }, {  54,-7976 }, {  55,-7976 },
  {  56,-7976 }, {  57,-7976 }, {  58,-7976 }, {   0,   0 }, {   0,   0 },
@@ -4108,9 +4108,9 @@ static const struct yy_trans_info yy_transition[20273] =
  { 106,-7976 }, { 107,-7976 }, { 108,-7976 }, { 109,-7976 }, { 110,-7976 },
  { 111,-7976 }, { 112,-7976 }, { 113,-7976 }, { 114,-7976 }, { 115,-7976 },
  { 116,-7976 }, { 117,-7976 }, { 118,-7976 }, { 119,-7976 }, { 120,-7976 },
- { 121,-7976 }, { 122,-7976 }, {   0,   0 }, { 124,-8001 }, { 125, 908 },
+ { 121,-7976 }, { 122,-7976 }, {   0,   0 }, { 124,-8001 }, { 125,1166 },
 
- { 126, 908 }, { 127,-7976 }, { 128,-7976 }, { 129,-7976 }, { 130,-7976 },
+ { 126,1166 }, { 127,-7976 }, { 128,-7976 }, { 129,-7976 }, { 130,-7976 },
  { 131,-7976 }, { 132,-7976 }, { 133,-7976 }, { 134,-7976 }, { 135,-7976 },
  { 136,-7976 }, { 137,-7976 }, { 138,-7976 }, { 139,-7976 }, { 140,-7976 },
  { 141,-7976 }, { 142,-7976 }, { 143,-7976 }, { 144,-7976 }, { 145,-7976 },
@@ -4138,7 +4138,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 241,-7976 }, { 242,-7976 }, { 243,-7976 }, { 244,-7976 }, { 245,-7976 },
  { 246,-7976 }, { 247,-7976 }, { 248,-7976 }, { 249,-7976 }, { 250,-7976 },
  { 251,-7976 }, { 252,-7976 }, { 253,-7976 }, { 254,-7976 }, { 255,-7976 },
- { 256,-7976 }, {   0,   0 }, {   0,3936 }, {   1,-8234 }, {   2,-8234 },
+ { 256,-7976 }, {   0,   0 }, {   0,5325 }, {   1,-8234 }, {   2,-8234 },
  {   3,-8234 }, {   4,-8234 }, {   5,-8234 }, {   6,-8234 }, {   7,-8234 },
  {   8,-8234 }, {   9,-8259 }, {  10,-8259 }, {  11,-8234 }, {  12,-8234 },
  {  13,-8259 }, {  14,-8234 }, {  15,-8234 }, {  16,-8234 }, {  17,-8234 },
@@ -4160,7 +4160,7 @@ static const struct yy_trans_info yy_transition[20273] =
  {  83,-8234 }, {  84,-8234 }, {  85,-8234 }, {  86,-8234 }, {  87,-8234 },
  {  88,-8234 }, {  89,-8234 }, {  90,-8234 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-8234 }, {   0,   0 }, {  97,-8234 },
- {  98,-8234 }, {  99,-8234 }, { 100,-8234 }, { 101,-8234 }, { 102, 929 },
+ {  98,-8234 }, {  99,-8234 }, { 100,-8234 }, { 101,-8234 }, { 102,1187 },
  { 103,-8234 }, { 104,-8234 }, { 105,-8234 }, { 106,-8234 }, { 107,-8234 },
  { 108,-8234 }, { 109,-8234 }, { 110,-8234 }, { 111,-8234 }, { 112,-8234 },
  { 113,-8234 }, { 114,-8234 }, { 115,-8234 }, { 116,-8234 }, { 117,-8234 },
@@ -4195,7 +4195,7 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,-8234 }, { 244,-8234 }, { 245,-8234 }, { 246,-8234 }, { 247,-8234 },
  { 248,-8234 }, { 249,-8234 }, { 250,-8234 }, { 251,-8234 }, { 252,-8234 },
  { 253,-8234 }, { 254,-8234 }, { 255,-8234 }, { 256,-8234 }, {   0,   0 },
- {   0,3678 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,5067 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
 
  {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
@@ -4223,136 +4223,136 @@ static const struct yy_trans_info yy_transition[20273] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,-1639 }, { 126,-1066 }, {   0,   0 }, {   0,3550 }, {   1, 277 },
- {   2, 277 }, {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 },
- {   7, 277 }, {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 },
- {  12, 277 }, {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 },
- {  17, 277 }, {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 },
- {  22, 277 }, {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 },
- {  27, 277 }, {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 },
-
- {  32, 277 }, {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 },
- {  37, 277 }, {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 },
- {  42, 277 }, {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 },
- {  47,1059 }, {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 },
- {  52, 277 }, {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 },
- {  57, 277 }, {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 },
- {  62, 277 }, {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 },
- {  67, 277 }, {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 },
- {  72, 277 }, {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 },
- {  77, 277 }, {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 },
-
- {  82, 277 }, {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 },
- {  87, 277 }, {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 },
- {  92, 277 }, {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 },
- {  97, 277 }, {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 },
- { 102, 277 }, { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 },
- { 107, 277 }, { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 },
- { 112, 277 }, { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 },
- { 117, 277 }, { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 },
- { 122, 277 }, { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 },
- { 127, 277 }, { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 },
-
- { 132, 277 }, { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 },
- { 137, 277 }, { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 },
- { 142, 277 }, { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 },
- { 147, 277 }, { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 },
- { 152, 277 }, { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 },
- { 157, 277 }, { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 },
- { 162, 277 }, { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 },
- { 167, 277 }, { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 },
- { 172, 277 }, { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 },
- { 177, 277 }, { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 },
-
- { 182, 277 }, { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 },
- { 187, 277 }, { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 },
- { 192, 277 }, { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 },
- { 197, 277 }, { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 },
- { 202, 277 }, { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 },
- { 207, 277 }, { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 },
- { 212, 277 }, { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 },
- { 217, 277 }, { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 },
- { 222, 277 }, { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 },
- { 227, 277 }, { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 },
-
- { 232, 277 }, { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 },
- { 237, 277 }, { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 },
- { 242, 277 }, { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 },
- { 247, 277 }, { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 },
- { 252, 277 }, { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 },
- {   0,   1 }, {   0,3292 }, {   0,   1 }, {   0,3290 }, {   0,  46 },
- {   0,3288 }, {   0,  43 }, {   0,3286 }, {   0,  28 }, {   0,3284 },
- {   0,  22 }, {   0,3282 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3275 }, {   0,   8 },
- {   0,3273 }, {   0,   1 }, {   0,3271 }, {   0,  44 }, {   0,3269 },
-
- {   0,  25 }, {   0,3267 }, {   0,   0 }, {   0,3265 }, {   1,-8905 },
- {   2,-8905 }, {   3,-8905 }, {   4,-8905 }, {   5,-8905 }, {   6,-8905 },
- {   7,-8905 }, {   8,-8905 }, {   9,  -4 }, {  10,  -4 }, {  11,-8905 },
- {  12,-8905 }, {  13,  -4 }, {  14,-8905 }, {  15,-8905 }, {  16,-8905 },
- {  17,-8905 }, {  18,-8905 }, {  19,-8905 }, {  20,-8905 }, {  21,-8905 },
- {  22,-8905 }, {  23,-8905 }, {  24,-8905 }, {  25,-8905 }, {  26,-8905 },
- {  27,-8905 }, {  28,-8905 }, {  29,-8905 }, {  30,-8905 }, {  31,-8905 },
- {  32,  -4 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8905 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8905 }, {  46,-8930 },
-
- {  47,-8930 }, {  48,-8905 }, {  49,-8905 }, {  50,-8905 }, {  51,-8905 },
- {  52,-8905 }, {  53,-8905 }, {  54,-8905 }, {  55,-8905 }, {  56,-8905 },
- {  57,-8905 }, {  58,-8905 }, {   0,   0 }, {   0,   0 }, {  61,-8930 },
- {   0,   0 }, {  63,-8905 }, {   0,   0 }, {  65,-8905 }, {  66,-8905 },
- {  67,-8905 }, {  68,-8905 }, {  69,-8905 }, {  70,-8905 }, {  71,-8905 },
- {  72,-8905 }, {  73,-8905 }, {  74,-8905 }, {  75,-8905 }, {  76,-8905 },
- {  77,-8905 }, {  78,-8905 }, {  79,-8905 }, {  80,-8905 }, {  81,-8905 },
- {  82,-8905 }, {  83,-8905 }, {  84,-8905 }, {  85,-8905 }, {  86,-8905 },
- {  87,-8905 }, {  88,-8905 }, {  89,-8905 }, {  90,-8905 }, { 101,1300 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8905 }, { 123,  21 },
-
- {  97,-8905 }, {  98,-8905 }, {  99,-8905 }, { 100,-8905 }, { 101,-8905 },
- { 102,-8905 }, { 103,-8905 }, { 104,-8905 }, { 105,-8905 }, { 106,-8905 },
- { 107,-8905 }, { 108,-8905 }, { 109,-8905 }, { 110,-8905 }, { 111,-8905 },
- { 112,-8905 }, { 113,-8905 }, { 114,-8905 }, { 115,-8905 }, { 116,-8905 },
- { 117,-8905 }, { 118,-8905 }, { 119,-8905 }, { 120,-8905 }, { 121,-8905 },
- { 122,-8905 }, {   0,   0 }, { 124,-8930 }, { 125,  -4 }, { 126,  -4 },
- { 127,-8905 }, { 128,-8905 }, { 129,-8905 }, { 130,-8905 }, { 131,-8905 },
- { 132,-8905 }, { 133,-8905 }, { 134,-8905 }, { 135,-8905 }, { 136,-8905 },
- { 137,-8905 }, { 138,-8905 }, { 139,-8905 }, { 140,-8905 }, { 141,-8905 },
- { 142,-8905 }, { 143,-8905 }, { 144,-8905 }, { 145,-8905 }, { 146,-8905 },
-
- { 147,-8905 }, { 148,-8905 }, { 149,-8905 }, { 150,-8905 }, { 151,-8905 },
- { 152,-8905 }, { 153,-8905 }, { 154,-8905 }, { 155,-8905 }, { 156,-8905 },
- { 157,-8905 }, { 158,-8905 }, { 159,-8905 }, { 160,-8905 }, { 161,-8905 },
- { 162,-8905 }, { 163,-8905 }, { 164,-8905 }, { 165,-8905 }, { 166,-8905 },
- { 167,-8905 }, { 168,-8905 }, { 169,-8905 }, { 170,-8905 }, { 171,-8905 },
- { 172,-8905 }, { 173,-8905 }, { 174,-8905 }, { 175,-8905 }, { 176,-8905 },
- { 177,-8905 }, { 178,-8905 }, { 179,-8905 }, { 180,-8905 }, { 181,-8905 },
- { 182,-8905 }, { 183,-8905 }, { 184,-8905 }, { 185,-8905 }, { 186,-8905 },
- { 187,-8905 }, { 188,-8905 }, { 189,-8905 }, { 190,-8905 }, { 191,-8905 },
- { 192,-8905 }, { 193,-8905 }, { 194,-8905 }, { 195,-8905 }, { 196,-8905 },
-
- { 197,-8905 }, { 198,-8905 }, { 199,-8905 }, { 200,-8905 }, { 201,-8905 },
- { 202,-8905 }, { 203,-8905 }, { 204,-8905 }, { 205,-8905 }, { 206,-8905 },
- { 207,-8905 }, { 208,-8905 }, { 209,-8905 }, { 210,-8905 }, { 211,-8905 },
- { 212,-8905 }, { 213,-8905 }, { 214,-8905 }, { 215,-8905 }, { 216,-8905 },
- { 217,-8905 }, { 218,-8905 }, { 219,-8905 }, { 220,-8905 }, { 221,-8905 },
- { 222,-8905 }, { 223,-8905 }, { 224,-8905 }, { 225,-8905 }, { 226,-8905 },
- { 227,-8905 }, { 228,-8905 }, { 229,-8905 }, { 230,-8905 }, { 231,-8905 },
- { 232,-8905 }, { 233,-8905 }, { 234,-8905 }, { 235,-8905 }, { 236,-8905 },
- { 237,-8905 }, { 238,-8905 }, { 239,-8905 }, { 240,-8905 }, { 241,-8905 },
- { 242,-8905 }, { 243,-8905 }, { 244,-8905 }, { 245,-8905 }, { 246,-8905 },
-
- { 247,-8905 }, { 248,-8905 }, { 249,-8905 }, { 250,-8905 }, { 251,-8905 },
- { 252,-8905 }, { 253,-8905 }, { 254,-8905 }, { 255,-8905 }, { 256,-8905 },
- {   0,   0 }, {   0,3007 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
+ { 125,-1639 }, { 126,-1066 }, {   0,   0 }, {   0,4939 }, {   1,1059 },
+ {   2,1059 }, {   3,1059 }, {   4,1059 }, {   5,1059 }, {   6,1059 },
+ {   7,1059 }, {   8,1059 }, {   9,1059 }, {  10,1059 }, {  11,1059 },
+ {  12,1059 }, {  13,1059 }, {  14,1059 }, {  15,1059 }, {  16,1059 },
+ {  17,1059 }, {  18,1059 }, {  19,1059 }, {  20,1059 }, {  21,1059 },
+ {  22,1059 }, {  23,1059 }, {  24,1059 }, {  25,1059 }, {  26,1059 },
+ {  27,1059 }, {  28,1059 }, {  29,1059 }, {  30,1059 }, {  31,1059 },
+
+ {  32,1059 }, {  33,1059 }, {  34,1059 }, {  35,1059 }, {  36,1059 },
+ {  37,1059 }, {  38,1059 }, {  39,1059 }, {  40,1059 }, {  41,1059 },
+ {  42,1059 }, {  43,1059 }, {  44,1059 }, {  45,1317 }, {  46,1059 },
+ {  47,1059 }, {  48,1059 }, {  49,1059 }, {  50,1059 }, {  51,1059 },
+ {  52,1059 }, {  53,1059 }, {  54,1059 }, {  55,1059 }, {  56,1059 },
+ {  57,1059 }, {  58,1059 }, {  59,1059 }, {  60,1059 }, {  61,1059 },
+ {  62,1059 }, {  63,1059 }, {  64,1059 }, {  65,1059 }, {  66,1059 },
+ {  67,1059 }, {  68,1059 }, {  69,1059 }, {  70,1059 }, {  71,1059 },
+ {  72,1059 }, {  73,1059 }, {  74,1059 }, {  75,1059 }, {  76,1059 },
+ {  77,1059 }, {  78,1059 }, {  79,1059 }, {  80,1059 }, {  81,1059 },
+
+ {  82,1059 }, {  83,1059 }, {  84,1059 }, {  85,1059 }, {  86,1059 },
+ {  87,1059 }, {  88,1059 }, {  89,1059 }, {  90,1059 }, {  91,1059 },
+ {  92,1059 }, {  93,1059 }, {  94,1059 }, {  95,1059 }, {  96,1059 },
+ {  97,1059 }, {  98,1059 }, {  99,1059 }, { 100,1059 }, { 101,1059 },
+ { 102,1059 }, { 103,1059 }, { 104,1059 }, { 105,1059 }, { 106,1059 },
+ { 107,1059 }, { 108,1059 }, { 109,1059 }, { 110,1059 }, { 111,1059 },
+ { 112,1059 }, { 113,1059 }, { 114,1059 }, { 115,1059 }, { 116,1059 },
+ { 117,1059 }, { 118,1059 }, { 119,1059 }, { 120,1059 }, { 121,1059 },
+ { 122,1059 }, { 123,1059 }, { 124,1059 }, { 125,1059 }, { 126,1059 },
+ { 127,1059 }, { 128,1059 }, { 129,1059 }, { 130,1059 }, { 131,1059 },
+
+ { 132,1059 }, { 133,1059 }, { 134,1059 }, { 135,1059 }, { 136,1059 },
+ { 137,1059 }, { 138,1059 }, { 139,1059 }, { 140,1059 }, { 141,1059 },
+ { 142,1059 }, { 143,1059 }, { 144,1059 }, { 145,1059 }, { 146,1059 },
+ { 147,1059 }, { 148,1059 }, { 149,1059 }, { 150,1059 }, { 151,1059 },
+ { 152,1059 }, { 153,1059 }, { 154,1059 }, { 155,1059 }, { 156,1059 },
+ { 157,1059 }, { 158,1059 }, { 159,1059 }, { 160,1059 }, { 161,1059 },
+ { 162,1059 }, { 163,1059 }, { 164,1059 }, { 165,1059 }, { 166,1059 },
+ { 167,1059 }, { 168,1059 }, { 169,1059 }, { 170,1059 }, { 171,1059 },
+ { 172,1059 }, { 173,1059 }, { 174,1059 }, { 175,1059 }, { 176,1059 },
+ { 177,1059 }, { 178,1059 }, { 179,1059 }, { 180,1059 }, { 181,1059 },
+
+ { 182,1059 }, { 183,1059 }, { 184,1059 }, { 185,1059 }, { 186,1059 },
+ { 187,1059 }, { 188,1059 }, { 189,1059 }, { 190,1059 }, { 191,1059 },
+ { 192,1059 }, { 193,1059 }, { 194,1059 }, { 195,1059 }, { 196,1059 },
+ { 197,1059 }, { 198,1059 }, { 199,1059 }, { 200,1059 }, { 201,1059 },
+ { 202,1059 }, { 203,1059 }, { 204,1059 }, { 205,1059 }, { 206,1059 },
+ { 207,1059 }, { 208,1059 }, { 209,1059 }, { 210,1059 }, { 211,1059 },
+ { 212,1059 }, { 213,1059 }, { 214,1059 }, { 215,1059 }, { 216,1059 },
+ { 217,1059 }, { 218,1059 }, { 219,1059 }, { 220,1059 }, { 221,1059 },
+ { 222,1059 }, { 223,1059 }, { 224,1059 }, { 225,1059 }, { 226,1059 },
+ { 227,1059 }, { 228,1059 }, { 229,1059 }, { 230,1059 }, { 231,1059 },
+
+ { 232,1059 }, { 233,1059 }, { 234,1059 }, { 235,1059 }, { 236,1059 },
+ { 237,1059 }, { 238,1059 }, { 239,1059 }, { 240,1059 }, { 241,1059 },
+ { 242,1059 }, { 243,1059 }, { 244,1059 }, { 245,1059 }, { 246,1059 },
+ { 247,1059 }, { 248,1059 }, { 249,1059 }, { 250,1059 }, { 251,1059 },
+ { 252,1059 }, { 253,1059 }, { 254,1059 }, { 255,1059 }, { 256,1059 },
+ {   0,   0 }, {   0,4681 }, {   1, 277 }, {   2, 277 }, {   3, 277 },
+ {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 }, {   8, 277 },
+ {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 }, {  13, 277 },
+ {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 }, {  18, 277 },
+ {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 }, {  23, 277 },
+
+ {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 }, {  28, 277 },
+ {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 }, {  33, 277 },
+ {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 }, {  38, 277 },
+ {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 }, {  43, 277 },
+ {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1317 }, {  48, 277 },
+ {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 }, {  53, 277 },
+ {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 }, {  58, 277 },
+ {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 }, {  63, 277 },
+ {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 }, {  68, 277 },
+ {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 }, {  73, 277 },
+
+ {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 }, {  78, 277 },
+ {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 }, {  83, 277 },
+ {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 }, {  88, 277 },
+ {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 }, {  93, 277 },
+ {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 }, {  98, 277 },
+ {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 }, { 103, 277 },
+ { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 }, { 108, 277 },
+ { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 }, { 113, 277 },
+ { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 }, { 118, 277 },
+ { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 }, { 123, 277 },
+
+ { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 }, { 128, 277 },
+ { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 }, { 133, 277 },
+ { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 }, { 138, 277 },
+ { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 }, { 143, 277 },
+ { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 }, { 148, 277 },
+ { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 }, { 153, 277 },
+ { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 }, { 158, 277 },
+ { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 }, { 163, 277 },
+ { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 }, { 168, 277 },
+ { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 }, { 173, 277 },
+
+ { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 }, { 178, 277 },
+ { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 }, { 183, 277 },
+ { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 }, { 188, 277 },
+ { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 }, { 193, 277 },
+ { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 }, { 198, 277 },
+ { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 }, { 203, 277 },
+ { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 }, { 208, 277 },
+ { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 }, { 213, 277 },
+ { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 }, { 218, 277 },
+ { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 }, { 223, 277 },
+
+ { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 }, { 228, 277 },
+ { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 }, { 233, 277 },
+ { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 }, { 238, 277 },
+ { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 }, { 243, 277 },
+ { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 }, { 248, 277 },
+ { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 }, { 253, 277 },
+ { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 }, {   0,4423 },
+ {   0,   1 }, {   0,4421 }, {   0,  46 }, {   0,4419 }, {   0,  43 },
+ {   0,4417 }, {   0,  28 }, {   0,4415 }, {   0,  22 }, {   0,4413 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,4406 }, {   0,   8 }, {   0,4404 }, {   0,   1 },
+ {   0,4402 }, {   0,  44 }, {   0,4400 }, {   0,  25 }, {   0,4398 },
+ {   0,   0 }, {   0,4396 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
  {   4,-9163 }, {   5,-9163 }, {   6,-9163 }, {   7,-9163 }, {   8,-9163 },
- {   9,-9188 }, {  10,-9188 }, {  11,-9163 }, {  12,-9163 }, {  13,-9188 },
+ {   9,  -4 }, {  10,  -4 }, {  11,-9163 }, {  12,-9163 }, {  13,  -4 },
  {  14,-9163 }, {  15,-9163 }, {  16,-9163 }, {  17,-9163 }, {  18,-9163 },
  {  19,-9163 }, {  20,-9163 }, {  21,-9163 }, {  22,-9163 }, {  23,-9163 },
  {  24,-9163 }, {  25,-9163 }, {  26,-9163 }, {  27,-9163 }, {  28,-9163 },
- {  29,-9163 }, {  30,-9163 }, {  31,-9163 }, {  32,-9188 }, {   0,   0 },
+ {  29,-9163 }, {  30,-9163 }, {  31,-9163 }, {  32,  -4 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-9163 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  41,-9188 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-9163 }, {  46,-9188 }, {  47,-9188 }, {  48,-9163 },
  {  49,-9163 }, {  50,-9163 }, {  51,-9163 }, {  52,-9163 }, {  53,-9163 },
  {  54,-9163 }, {  55,-9163 }, {  56,-9163 }, {  57,-9163 }, {  58,-9163 },
@@ -4363,14 +4363,14 @@ static const struct yy_trans_info yy_transition[20273] =
  {  79,-9163 }, {  80,-9163 }, {  81,-9163 }, {  82,-9163 }, {  83,-9163 },
  {  84,-9163 }, {  85,-9163 }, {  86,-9163 }, {  87,-9163 }, {  88,-9163 },
 
- {  89,-9163 }, {  90,-9163 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9163 }, {   0,   0 }, {  97,-9163 }, {  98,-9163 },
+ {  89,-9163 }, {  90,-9163 }, { 101,1558 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9163 }, { 123,  21 }, {  97,-9163 }, {  98,-9163 },
  {  99,-9163 }, { 100,-9163 }, { 101,-9163 }, { 102,-9163 }, { 103,-9163 },
- { 104,-9163 }, { 105, 774 }, { 106,-9163 }, { 107,-9163 }, { 108,-9163 },
+ { 104,-9163 }, { 105,-9163 }, { 106,-9163 }, { 107,-9163 }, { 108,-9163 },
  { 109,-9163 }, { 110,-9163 }, { 111,-9163 }, { 112,-9163 }, { 113,-9163 },
  { 114,-9163 }, { 115,-9163 }, { 116,-9163 }, { 117,-9163 }, { 118,-9163 },
  { 119,-9163 }, { 120,-9163 }, { 121,-9163 }, { 122,-9163 }, {   0,   0 },
- { 124,-9188 }, { 125,-9188 }, { 126,-9188 }, { 127,-9163 }, { 128,-9163 },
+ { 124,-9188 }, { 125,  -4 }, { 126,  -4 }, { 127,-9163 }, { 128,-9163 },
  { 129,-9163 }, { 130,-9163 }, { 131,-9163 }, { 132,-9163 }, { 133,-9163 },
  { 134,-9163 }, { 135,-9163 }, { 136,-9163 }, { 137,-9163 }, { 138,-9163 },
 
@@ -4399,92 +4399,92 @@ static const struct yy_trans_info yy_transition[20273] =
  { 239,-9163 }, { 240,-9163 }, { 241,-9163 }, { 242,-9163 }, { 243,-9163 },
  { 244,-9163 }, { 245,-9163 }, { 246,-9163 }, { 247,-9163 }, { 248,-9163 },
  { 249,-9163 }, { 250,-9163 }, { 251,-9163 }, { 252,-9163 }, { 253,-9163 },
- { 254,-9163 }, { 255,-9163 }, { 256,-9163 }, {   0,   0 }, {   0,2749 },
- {   1,1032 }, {   2,1032 }, {   3,1032 }, {   4,1032 }, {   5,1032 },
- {   6,1032 }, {   7,1032 }, {   8,1032 }, {   9,1032 }, {  10,1032 },
- {  11,1032 }, {  12,1032 }, {  13,1032 }, {  14,1032 }, {  15,1032 },
- {  16,1032 }, {  17,1032 }, {  18,1032 }, {  19,1032 }, {  20,1032 },
- {  21,1032 }, {  22,1032 }, {  23,1032 }, {  24,1032 }, {  25,1032 },
- {  26,1032 }, {  27,1032 }, {  28,1032 }, {  29,1032 }, {  30,1032 },
-
- {  31,1032 }, {  32,1032 }, {  33,1032 }, {  34,1032 }, {  35,1032 },
- {  36,1032 }, {  37,1032 }, {  38,1032 }, {  39,1032 }, {  40,1032 },
- {  41,1032 }, {  42,1032 }, {  43,1032 }, {  44,1032 }, {  45,1290 },
- {  46,1032 }, {  47,1032 }, {  48,1032 }, {  49,1032 }, {  50,1032 },
- {  51,1032 }, {  52,1032 }, {  53,1032 }, {  54,1032 }, {  55,1032 },
- {  56,1032 }, {  57,1032 }, {  58,1032 }, {  59,1032 }, {  60,1032 },
- {  61,1032 }, {  62,1032 }, {  63,1032 }, {  64,1032 }, {  65,1032 },
- {  66,1032 }, {  67,1032 }, {  68,1032 }, {  69,1032 }, {  70,1032 },
- {  71,1032 }, {  72,1032 }, {  73,1032 }, {  74,1032 }, {  75,1032 },
- {  76,1032 }, {  77,1032 }, {  78,1032 }, {  79,1032 }, {  80,1032 },
-
- {  81,1032 }, {  82,1032 }, {  83,1032 }, {  84,1032 }, {  85,1032 },
- {  86,1032 }, {  87,1032 }, {  88,1032 }, {  89,1032 }, {  90,1032 },
- {  91,1032 }, {  92,1032 }, {  93,1032 }, {  94,1032 }, {  95,1032 },
- {  96,1032 }, {  97,1032 }, {  98,1032 }, {  99,1032 }, { 100,1032 },
- { 101,1032 }, { 102,1032 }, { 103,1032 }, { 104,1032 }, { 105,1032 },
- { 106,1032 }, { 107,1032 }, { 108,1032 }, { 109,1032 }, { 110,1032 },
- { 111,1032 }, { 112,1032 }, { 113,1032 }, { 114,1032 }, { 115,1032 },
- { 116,1032 }, { 117,1032 }, { 118,1032 }, { 119,1032 }, { 120,1032 },
- { 121,1032 }, { 122,1032 }, { 123,1032 }, { 124,1032 }, { 125,1032 },
- { 126,1032 }, { 127,1032 }, { 128,1032 }, { 129,1032 }, { 130,1032 },
-
- { 131,1032 }, { 132,1032 }, { 133,1032 }, { 134,1032 }, { 135,1032 },
- { 136,1032 }, { 137,1032 }, { 138,1032 }, { 139,1032 }, { 140,1032 },
- { 141,1032 }, { 142,1032 }, { 143,1032 }, { 144,1032 }, { 145,1032 },
- { 146,1032 }, { 147,1032 }, { 148,1032 }, { 149,1032 }, { 150,1032 },
- { 151,1032 }, { 152,1032 }, { 153,1032 }, { 154,1032 }, { 155,1032 },
- { 156,1032 }, { 157,1032 }, { 158,1032 }, { 159,1032 }, { 160,1032 },
- { 161,1032 }, { 162,1032 }, { 163,1032 }, { 164,1032 }, { 165,1032 },
- { 166,1032 }, { 167,1032 }, { 168,1032 }, { 169,1032 }, { 170,1032 },
- { 171,1032 }, { 172,1032 }, { 173,1032 }, { 174,1032 }, { 175,1032 },
- { 176,1032 }, { 177,1032 }, { 178,1032 }, { 179,1032 }, { 180,1032 },
-
- { 181,1032 }, { 182,1032 }, { 183,1032 }, { 184,1032 }, { 185,1032 },
- { 186,1032 }, { 187,1032 }, { 188,1032 }, { 189,1032 }, { 190,1032 },
- { 191,1032 }, { 192,1032 }, { 193,1032 }, { 194,1032 }, { 195,1032 },
- { 196,1032 }, { 197,1032 }, { 198,1032 }, { 199,1032 }, { 200,1032 },
- { 201,1032 }, { 202,1032 }, { 203,1032 }, { 204,1032 }, { 205,1032 },
- { 206,1032 }, { 207,1032 }, { 208,1032 }, { 209,1032 }, { 210,1032 },
- { 211,1032 }, { 212,1032 }, { 213,1032 }, { 214,1032 }, { 215,1032 },
- { 216,1032 }, { 217,1032 }, { 218,1032 }, { 219,1032 }, { 220,1032 },
- { 221,1032 }, { 222,1032 }, { 223,1032 }, { 224,1032 }, { 225,1032 },
- { 226,1032 }, { 227,1032 }, { 228,1032 }, { 229,1032 }, { 230,1032 },
-
- { 231,1032 }, { 232,1032 }, { 233,1032 }, { 234,1032 }, { 235,1032 },
- { 236,1032 }, { 237,1032 }, { 238,1032 }, { 239,1032 }, { 240,1032 },
- { 241,1032 }, { 242,1032 }, { 243,1032 }, { 244,1032 }, { 245,1032 },
- { 246,1032 }, { 247,1032 }, { 248,1032 }, { 249,1032 }, { 250,1032 },
- { 251,1032 }, { 252,1032 }, { 253,1032 }, { 254,1032 }, { 255,1032 },
- { 256,1032 }, {   0,   0 }, {   0,2491 }, {   1,1290 }, {   2,1290 },
+ { 254,-9163 }, { 255,-9163 }, { 256,-9163 }, {   0,   0 }, {   0,4138 },
+ {   1,-9421 }, {   2,-9421 }, {   3,-9421 }, {   4,-9421 }, {   5,-9421 },
+ {   6,-9421 }, {   7,-9421 }, {   8,-9421 }, {   9,-9446 }, {  10,-9446 },
+ {  11,-9421 }, {  12,-9421 }, {  13,-9446 }, {  14,-9421 }, {  15,-9421 },
+ {  16,-9421 }, {  17,-9421 }, {  18,-9421 }, {  19,-9421 }, {  20,-9421 },
+ {  21,-9421 }, {  22,-9421 }, {  23,-9421 }, {  24,-9421 }, {  25,-9421 },
+ {  26,-9421 }, {  27,-9421 }, {  28,-9421 }, {  29,-9421 }, {  30,-9421 },
+
+ {  31,-9421 }, {  32,-9446 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-9421 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-9446 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9421 },
+ {  46,-9446 }, {  47,-9446 }, {  48,-9421 }, {  49,-9421 }, {  50,-9421 },
+ {  51,-9421 }, {  52,-9421 }, {  53,-9421 }, {  54,-9421 }, {  55,-9421 },
+ {  56,-9421 }, {  57,-9421 }, {  58,-9421 }, {   0,   0 }, {   0,   0 },
+ {  61,-9446 }, {   0,   0 }, {  63,-9421 }, {   0,   0 }, {  65,-9421 },
+ {  66,-9421 }, {  67,-9421 }, {  68,-9421 }, {  69,-9421 }, {  70,-9421 },
+ {  71,-9421 }, {  72,-9421 }, {  73,-9421 }, {  74,-9421 }, {  75,-9421 },
+ {  76,-9421 }, {  77,-9421 }, {  78,-9421 }, {  79,-9421 }, {  80,-9421 },
+
+ {  81,-9421 }, {  82,-9421 }, {  83,-9421 }, {  84,-9421 }, {  85,-9421 },
+ {  86,-9421 }, {  87,-9421 }, {  88,-9421 }, {  89,-9421 }, {  90,-9421 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9421 },
+ {   0,   0 }, {  97,-9421 }, {  98,-9421 }, {  99,-9421 }, { 100,-9421 },
+ { 101,-9421 }, { 102,-9421 }, { 103,-9421 }, { 104,-9421 }, { 105,1032 },
+ { 106,-9421 }, { 107,-9421 }, { 108,-9421 }, { 109,-9421 }, { 110,-9421 },
+ { 111,-9421 }, { 112,-9421 }, { 113,-9421 }, { 114,-9421 }, { 115,-9421 },
+ { 116,-9421 }, { 117,-9421 }, { 118,-9421 }, { 119,-9421 }, { 120,-9421 },
+ { 121,-9421 }, { 122,-9421 }, {   0,   0 }, { 124,-9446 }, { 125,-9446 },
+ { 126,-9446 }, { 127,-9421 }, { 128,-9421 }, { 129,-9421 }, { 130,-9421 },
+
+ { 131,-9421 }, { 132,-9421 }, { 133,-9421 }, { 134,-9421 }, { 135,-9421 },
+ { 136,-9421 }, { 137,-9421 }, { 138,-9421 }, { 139,-9421 }, { 140,-9421 },
+ { 141,-9421 }, { 142,-9421 }, { 143,-9421 }, { 144,-9421 }, { 145,-9421 },
+ { 146,-9421 }, { 147,-9421 }, { 148,-9421 }, { 149,-9421 }, { 150,-9421 },
+ { 151,-9421 }, { 152,-9421 }, { 153,-9421 }, { 154,-9421 }, { 155,-9421 },
+ { 156,-9421 }, { 157,-9421 }, { 158,-9421 }, { 159,-9421 }, { 160,-9421 },
+ { 161,-9421 }, { 162,-9421 }, { 163,-9421 }, { 164,-9421 }, { 165,-9421 },
+ { 166,-9421 }, { 167,-9421 }, { 168,-9421 }, { 169,-9421 }, { 170,-9421 },
+ { 171,-9421 }, { 172,-9421 }, { 173,-9421 }, { 174,-9421 }, { 175,-9421 },
+ { 176,-9421 }, { 177,-9421 }, { 178,-9421 }, { 179,-9421 }, { 180,-9421 },
+
+ { 181,-9421 }, { 182,-9421 }, { 183,-9421 }, { 184,-9421 }, { 185,-9421 },
+ { 186,-9421 }, { 187,-9421 }, { 188,-9421 }, { 189,-9421 }, { 190,-9421 },
+ { 191,-9421 }, { 192,-9421 }, { 193,-9421 }, { 194,-9421 }, { 195,-9421 },
+ { 196,-9421 }, { 197,-9421 }, { 198,-9421 }, { 199,-9421 }, { 200,-9421 },
+ { 201,-9421 }, { 202,-9421 }, { 203,-9421 }, { 204,-9421 }, { 205,-9421 },
+ { 206,-9421 }, { 207,-9421 }, { 208,-9421 }, { 209,-9421 }, { 210,-9421 },
+ { 211,-9421 }, { 212,-9421 }, { 213,-9421 }, { 214,-9421 }, { 215,-9421 },
+ { 216,-9421 }, { 217,-9421 }, { 218,-9421 }, { 219,-9421 }, { 220,-9421 },
+ { 221,-9421 }, { 222,-9421 }, { 223,-9421 }, { 224,-9421 }, { 225,-9421 },
+ { 226,-9421 }, { 227,-9421 }, { 228,-9421 }, { 229,-9421 }, { 230,-9421 },
+
+ { 231,-9421 }, { 232,-9421 }, { 233,-9421 }, { 234,-9421 }, { 235,-9421 },
+ { 236,-9421 }, { 237,-9421 }, { 238,-9421 }, { 239,-9421 }, { 240,-9421 },
+ { 241,-9421 }, { 242,-9421 }, { 243,-9421 }, { 244,-9421 }, { 245,-9421 },
+ { 246,-9421 }, { 247,-9421 }, { 248,-9421 }, { 249,-9421 }, { 250,-9421 },
+ { 251,-9421 }, { 252,-9421 }, { 253,-9421 }, { 254,-9421 }, { 255,-9421 },
+ { 256,-9421 }, {   0,   0 }, {   0,3880 }, {   1,1290 }, {   2,1290 },
  {   3,1290 }, {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 },
- {   8,1290 }, {   0,   0 }, {   0,   0 }, {  11,1290 }, {  12,1290 },
- {   0,   0 }, {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 },
+ {   8,1290 }, {   9,1290 }, {  10,1290 }, {  11,1290 }, {  12,1290 },
+ {  13,1290 }, {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 },
  {  18,1290 }, {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 },
 
  {  23,1290 }, {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 },
- {  28,1290 }, {  29,1290 }, {  30,1290 }, {  31,1290 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1290 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1290 }, {   0,   0 }, {   0,   0 },
+ {  28,1290 }, {  29,1290 }, {  30,1290 }, {  31,1290 }, {  32,1290 },
+ {  33,1290 }, {  34,1290 }, {  35,1290 }, {  36,1290 }, {  37,1290 },
+ {  38,1290 }, {  39,1290 }, {  40,1290 }, {  41,1290 }, {  42,1290 },
+ {  43,1290 }, {  44,1290 }, {  45,1548 }, {  46,1290 }, {  47,1290 },
  {  48,1290 }, {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 },
  {  53,1290 }, {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 },
- {  58,1290 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,1290 }, {   0,   0 }, {  65,1290 }, {  66,1290 }, {  67,1290 },
+ {  58,1290 }, {  59,1290 }, {  60,1290 }, {  61,1290 }, {  62,1290 },
+ {  63,1290 }, {  64,1290 }, {  65,1290 }, {  66,1290 }, {  67,1290 },
  {  68,1290 }, {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 },
 
  {  73,1290 }, {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 },
  {  78,1290 }, {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 },
  {  83,1290 }, {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 },
- {  88,1290 }, {  89,1290 }, {  90,1290 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,1290 }, {   0,   0 }, {  97,1290 },
+ {  88,1290 }, {  89,1290 }, {  90,1290 }, {  91,1290 }, {  92,1290 },
+ {  93,1290 }, {  94,1290 }, {  95,1290 }, {  96,1290 }, {  97,1290 },
  {  98,1290 }, {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 },
  { 103,1290 }, { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 },
  { 108,1290 }, { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 },
  { 113,1290 }, { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 },
  { 118,1290 }, { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1290 },
+ { 123,1290 }, { 124,1290 }, { 125,1290 }, { 126,1290 }, { 127,1290 },
  { 128,1290 }, { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 },
  { 133,1290 }, { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 },
  { 138,1290 }, { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 },
@@ -4513,261 +4513,261 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,1290 }, { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 },
  { 248,1290 }, { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 },
  { 253,1290 }, { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 },
- {   0,2233 }, {   1,-9937 }, {   2,-9937 }, {   3,-9937 }, {   4,-9937 },
- {   5,-9937 }, {   6,-9937 }, {   7,-9937 }, {   8,-9937 }, {   9,-9962 },
- {  10,-9962 }, {  11,-9937 }, {  12,-9937 }, {  13,-9962 }, {  14,-9937 },
-
- {  15,-9937 }, {  16,-9937 }, {  17,-9937 }, {  18,-9937 }, {  19,-9937 },
- {  20,-9937 }, {  21,-9937 }, {  22,-9937 }, {  23,-9937 }, {  24,-9937 },
- {  25,-9937 }, {  26,-9937 }, {  27,-9937 }, {  28,-9937 }, {  29,-9937 },
- {  30,-9937 }, {  31,-9937 }, {  32,-9962 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-9962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-9937 }, {  46,-9962 }, {  47,-9962 }, {  48,-9937 }, {  49,-9937 },
- {  50,-9937 }, {  51,-9937 }, {  52,-9937 }, {  53,-9937 }, {  54,-9937 },
- {  55,-9937 }, {  56,-9937 }, {  57,-9937 }, {  58,-9937 }, {   0,   0 },
- {   0,   0 }, {  61,-9962 }, {   0,   0 }, {  63,-9937 }, {   0,   0 },
-
- {  65,-9937 }, {  66,-9937 }, {  67,-9937 }, {  68,-9937 }, {  69,-9937 },
- {  70,-9937 }, {  71,-9937 }, {  72,-9937 }, {  73,-9937 }, {  74,-9937 },
- {  75,-9937 }, {  76,-9937 }, {  77,-9937 }, {  78,-9937 }, {  79,-9937 },
- {  80,-9937 }, {  81,-9937 }, {  82,-9937 }, {  83,-9937 }, {  84,-9937 },
- {  85,-9937 }, {  86,-9937 }, {  87,-9937 }, {  88,-9937 }, {  89,-9937 },
- {  90,-9937 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-9937 }, {   0,   0 }, {  97,-9937 }, {  98,-9937 }, {  99,-9937 },
- { 100,-9937 }, { 101,-9937 }, { 102,-9937 }, { 103,-9937 }, { 104,-9937 },
- { 105,-9937 }, { 106,-9937 }, { 107,-9937 }, { 108,-9937 }, { 109,-9937 },
- { 110,1290 }, { 111,-9937 }, { 112,-9937 }, { 113,-9937 }, { 114,-9937 },
-
- { 115,-9937 }, { 116,-9937 }, { 117,-9937 }, { 118,-9937 }, { 119,-9937 },
- { 120,-9937 }, { 121,-9937 }, { 122,-9937 }, {   0,   0 }, { 124,-9962 },
- { 125,-9962 }, { 126,-9962 }, { 127,-9937 }, { 128,-9937 }, { 129,-9937 },
- { 130,-9937 }, { 131,-9937 }, { 132,-9937 }, { 133,-9937 }, { 134,-9937 },
- { 135,-9937 }, { 136,-9937 }, { 137,-9937 }, { 138,-9937 }, { 139,-9937 },
- { 140,-9937 }, { 141,-9937 }, { 142,-9937 }, { 143,-9937 }, { 144,-9937 },
- { 145,-9937 }, { 146,-9937 }, { 147,-9937 }, { 148,-9937 }, { 149,-9937 },
- { 150,-9937 }, { 151,-9937 }, { 152,-9937 }, { 153,-9937 }, { 154,-9937 },
- { 155,-9937 }, { 156,-9937 }, { 157,-9937 }, { 158,-9937 }, { 159,-9937 },
- { 160,-9937 }, { 161,-9937 }, { 162,-9937 }, { 163,-9937 }, { 164,-9937 },
-
- { 165,-9937 }, { 166,-9937 }, { 167,-9937 }, { 168,-9937 }, { 169,-9937 },
- { 170,-9937 }, { 171,-9937 }, { 172,-9937 }, { 173,-9937 }, { 174,-9937 },
- { 175,-9937 }, { 176,-9937 }, { 177,-9937 }, { 178,-9937 }, { 179,-9937 },
- { 180,-9937 }, { 181,-9937 }, { 182,-9937 }, { 183,-9937 }, { 184,-9937 },
- { 185,-9937 }, { 186,-9937 }, { 187,-9937 }, { 188,-9937 }, { 189,-9937 },
- { 190,-9937 }, { 191,-9937 }, { 192,-9937 }, { 193,-9937 }, { 194,-9937 },
- { 195,-9937 }, { 196,-9937 }, { 197,-9937 }, { 198,-9937 }, { 199,-9937 },
- { 200,-9937 }, { 201,-9937 }, { 202,-9937 }, { 203,-9937 }, { 204,-9937 },
- { 205,-9937 }, { 206,-9937 }, { 207,-9937 }, { 208,-9937 }, { 209,-9937 },
- { 210,-9937 }, { 211,-9937 }, { 212,-9937 }, { 213,-9937 }, { 214,-9937 },
-
- { 215,-9937 }, { 216,-9937 }, { 217,-9937 }, { 218,-9937 }, { 219,-9937 },
- { 220,-9937 }, { 221,-9937 }, { 222,-9937 }, { 223,-9937 }, { 224,-9937 },
- { 225,-9937 }, { 226,-9937 }, { 227,-9937 }, { 228,-9937 }, { 229,-9937 },
- { 230,-9937 }, { 231,-9937 }, { 232,-9937 }, { 233,-9937 }, { 234,-9937 },
- { 235,-9937 }, { 236,-9937 }, { 237,-9937 }, { 238,-9937 }, { 239,-9937 },
- { 240,-9937 }, { 241,-9937 }, { 242,-9937 }, { 243,-9937 }, { 244,-9937 },
- { 245,-9937 }, { 246,-9937 }, { 247,-9937 }, { 248,-9937 }, { 249,-9937 },
- { 250,-9937 }, { 251,-9937 }, { 252,-9937 }, { 253,-9937 }, { 254,-9937 },
- { 255,-9937 }, { 256,-9937 }, {   0,   0 }, {   0,1975 }, {   1,-1292 },
- {   2,-1292 }, {   3,-1292 }, {   4,-1292 }, {   5,-1292 }, {   6,-1292 },
-
- {   7,-1292 }, {   8,-1292 }, {   9,1290 }, {  10,1290 }, {  11,-1292 },
- {  12,-1292 }, {  13,1290 }, {  14,-1292 }, {  15,-1292 }, {  16,-1292 },
- {  17,-1292 }, {  18,-1292 }, {  19,-1292 }, {  20,-1292 }, {  21,-1292 },
- {  22,-1292 }, {  23,-1292 }, {  24,-1292 }, {  25,-1292 }, {  26,-1292 },
- {  27,-1292 }, {  28,-1292 }, {  29,-1292 }, {  30,-1292 }, {  31,-1292 },
- {  32,1290 }, {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {  36,-1292 },
- {  37,-1292 }, {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 },
- {  42,-1292 }, {  43,-1292 }, {  44,-1292 }, {  45,-1292 }, {  46,-1292 },
- {  47,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  58,-1292 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 },
- {  62,-1292 }, {  63,-1292 }, {  64,-1292 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 },
- {  92,-1292 }, {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,-1292 }, { 124,-1292 }, { 125,1292 }, { 126,1294 },
- { 127,-1292 }, { 128,-1292 }, { 129,-1292 }, { 130,-1292 }, { 131,-1292 },
- { 132,-1292 }, { 133,-1292 }, { 134,-1292 }, { 135,-1292 }, { 136,-1292 },
- { 137,-1292 }, { 138,-1292 }, { 139,-1292 }, { 140,-1292 }, { 141,-1292 },
- { 142,-1292 }, { 143,-1292 }, { 144,-1292 }, { 145,-1292 }, { 146,-1292 },
- { 147,-1292 }, { 148,-1292 }, { 149,-1292 }, { 150,-1292 }, { 151,-1292 },
- { 152,-1292 }, { 153,-1292 }, { 154,-1292 }, { 155,-1292 }, { 156,-1292 },
-
- { 157,-1292 }, { 158,-1292 }, { 159,-1292 }, { 160,-1292 }, { 161,-1292 },
- { 162,-1292 }, { 163,-1292 }, { 164,-1292 }, { 165,-1292 }, { 166,-1292 },
- { 167,-1292 }, { 168,-1292 }, { 169,-1292 }, { 170,-1292 }, { 171,-1292 },
- { 172,-1292 }, { 173,-1292 }, { 174,-1292 }, { 175,-1292 }, { 176,-1292 },
- { 177,-1292 }, { 178,-1292 }, { 179,-1292 }, { 180,-1292 }, { 181,-1292 },
- { 182,-1292 }, { 183,-1292 }, { 184,-1292 }, { 185,-1292 }, { 186,-1292 },
- { 187,-1292 }, { 188,-1292 }, { 189,-1292 }, { 190,-1292 }, { 191,-1292 },
- { 192,-1292 }, { 193,-1292 }, { 194,-1292 }, { 195,-1292 }, { 196,-1292 },
- { 197,-1292 }, { 198,-1292 }, { 199,-1292 }, { 200,-1292 }, { 201,-1292 },
- { 202,-1292 }, { 203,-1292 }, { 204,-1292 }, { 205,-1292 }, { 206,-1292 },
-
- { 207,-1292 }, { 208,-1292 }, { 209,-1292 }, { 210,-1292 }, { 211,-1292 },
- { 212,-1292 }, { 213,-1292 }, { 214,-1292 }, { 215,-1292 }, { 216,-1292 },
- { 217,-1292 }, { 218,-1292 }, { 219,-1292 }, { 220,-1292 }, { 221,-1292 },
- { 222,-1292 }, { 223,-1292 }, { 224,-1292 }, { 225,-1292 }, { 226,-1292 },
- { 227,-1292 }, { 228,-1292 }, { 229,-1292 }, { 230,-1292 }, { 231,-1292 },
- { 232,-1292 }, { 233,-1292 }, { 234,-1292 }, { 235,-1292 }, { 236,-1292 },
- { 237,-1292 }, { 238,-1292 }, { 239,-1292 }, { 240,-1292 }, { 241,-1292 },
- { 242,-1292 }, { 243,-1292 }, { 244,-1292 }, { 245,-1292 }, { 246,-1292 },
- { 247,-1292 }, { 248,-1292 }, { 249,-1292 }, { 250,-1292 }, { 251,-1292 },
- { 252,-1292 }, { 253,-1292 }, { 254,-1292 }, { 255,-1292 }, { 256,-1292 },
-
- {   0,   0 }, {   0,1717 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
-
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
-
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
-
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
-
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
-
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1459 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
-
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45, 780 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
-
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
-
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
-
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
-
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,1201 }, {   1,   0 }, {   2,   0 },
+ {   0,3622 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45,   0 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+ { 125,1548 }, { 126,1806 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,3364 }, {   1,1806 },
+ {   2,1806 }, {   3,1806 }, {   4,1806 }, {   5,1806 }, {   6,1806 },
+
+ {   7,1806 }, {   8,1806 }, {   0,   0 }, {   0,   0 }, {  11,1806 },
+ {  12,1806 }, {   0,   0 }, {  14,1806 }, {  15,1806 }, {  16,1806 },
+ {  17,1806 }, {  18,1806 }, {  19,1806 }, {  20,1806 }, {  21,1806 },
+ {  22,1806 }, {  23,1806 }, {  24,1806 }, {  25,1806 }, {  26,1806 },
+ {  27,1806 }, {  28,1806 }, {  29,1806 }, {  30,1806 }, {  31,1806 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1806 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1806 }, {   0,   0 },
+ {   0,   0 }, {  48,1806 }, {  49,1806 }, {  50,1806 }, {  51,1806 },
+ {  52,1806 }, {  53,1806 }, {  54,1806 }, {  55,1806 }, {  56,1806 },
+
+ {  57,1806 }, {  58,1806 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  63,1806 }, {   0,   0 }, {  65,1806 }, {  66,1806 },
+ {  67,1806 }, {  68,1806 }, {  69,1806 }, {  70,1806 }, {  71,1806 },
+ {  72,1806 }, {  73,1806 }, {  74,1806 }, {  75,1806 }, {  76,1806 },
+ {  77,1806 }, {  78,1806 }, {  79,1806 }, {  80,1806 }, {  81,1806 },
+ {  82,1806 }, {  83,1806 }, {  84,1806 }, {  85,1806 }, {  86,1806 },
+ {  87,1806 }, {  88,1806 }, {  89,1806 }, {  90,1806 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1806 }, {   0,   0 },
+ {  97,1806 }, {  98,1806 }, {  99,1806 }, { 100,1806 }, { 101,1806 },
+ { 102,1806 }, { 103,1806 }, { 104,1806 }, { 105,1806 }, { 106,1806 },
+
+ { 107,1806 }, { 108,1806 }, { 109,1806 }, { 110,1806 }, { 111,1806 },
+ { 112,1806 }, { 113,1806 }, { 114,1806 }, { 115,1806 }, { 116,1806 },
+ { 117,1806 }, { 118,1806 }, { 119,1806 }, { 120,1806 }, { 121,1806 },
+ { 122,1806 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 127,1806 }, { 128,1806 }, { 129,1806 }, { 130,1806 }, { 131,1806 },
+ { 132,1806 }, { 133,1806 }, { 134,1806 }, { 135,1806 }, { 136,1806 },
+ { 137,1806 }, { 138,1806 }, { 139,1806 }, { 140,1806 }, { 141,1806 },
+ { 142,1806 }, { 143,1806 }, { 144,1806 }, { 145,1806 }, { 146,1806 },
+ { 147,1806 }, { 148,1806 }, { 149,1806 }, { 150,1806 }, { 151,1806 },
+ { 152,1806 }, { 153,1806 }, { 154,1806 }, { 155,1806 }, { 156,1806 },
+
+ { 157,1806 }, { 158,1806 }, { 159,1806 }, { 160,1806 }, { 161,1806 },
+ { 162,1806 }, { 163,1806 }, { 164,1806 }, { 165,1806 }, { 166,1806 },
+ { 167,1806 }, { 168,1806 }, { 169,1806 }, { 170,1806 }, { 171,1806 },
+ { 172,1806 }, { 173,1806 }, { 174,1806 }, { 175,1806 }, { 176,1806 },
+ { 177,1806 }, { 178,1806 }, { 179,1806 }, { 180,1806 }, { 181,1806 },
+ { 182,1806 }, { 183,1806 }, { 184,1806 }, { 185,1806 }, { 186,1806 },
+ { 187,1806 }, { 188,1806 }, { 189,1806 }, { 190,1806 }, { 191,1806 },
+ { 192,1806 }, { 193,1806 }, { 194,1806 }, { 195,1806 }, { 196,1806 },
+ { 197,1806 }, { 198,1806 }, { 199,1806 }, { 200,1806 }, { 201,1806 },
+ { 202,1806 }, { 203,1806 }, { 204,1806 }, { 205,1806 }, { 206,1806 },
+
+ { 207,1806 }, { 208,1806 }, { 209,1806 }, { 210,1806 }, { 211,1806 },
+ { 212,1806 }, { 213,1806 }, { 214,1806 }, { 215,1806 }, { 216,1806 },
+ { 217,1806 }, { 218,1806 }, { 219,1806 }, { 220,1806 }, { 221,1806 },
+ { 222,1806 }, { 223,1806 }, { 224,1806 }, { 225,1806 }, { 226,1806 },
+ { 227,1806 }, { 228,1806 }, { 229,1806 }, { 230,1806 }, { 231,1806 },
+ { 232,1806 }, { 233,1806 }, { 234,1806 }, { 235,1806 }, { 236,1806 },
+ { 237,1806 }, { 238,1806 }, { 239,1806 }, { 240,1806 }, { 241,1806 },
+ { 242,1806 }, { 243,1806 }, { 244,1806 }, { 245,1806 }, { 246,1806 },
+ { 247,1806 }, { 248,1806 }, { 249,1806 }, { 250,1806 }, { 251,1806 },
+ { 252,1806 }, { 253,1806 }, { 254,1806 }, { 255,1806 }, { 256,1806 },
+
+ {   0,   0 }, {   0,3106 }, {   1,-10453 }, {   2,-10453 }, {   3,-10453 },
+ {   4,-10453 }, {   5,-10453 }, {   6,-10453 }, {   7,-10453 }, {   8,-10453 },
+ {   9,-10478 }, {  10,-10478 }, {  11,-10453 }, {  12,-10453 }, {  13,-10478 },
+ {  14,-10453 }, {  15,-10453 }, {  16,-10453 }, {  17,-10453 }, {  18,-10453 },
+ {  19,-10453 }, {  20,-10453 }, {  21,-10453 }, {  22,-10453 }, {  23,-10453 },
+ {  24,-10453 }, {  25,-10453 }, {  26,-10453 }, {  27,-10453 }, {  28,-10453 },
+ {  29,-10453 }, {  30,-10453 }, {  31,-10453 }, {  32,-10478 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-10453 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-10478 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-10453 }, {  46,-10478 }, {  47,-10478 }, {  48,-10453 },
+
+ {  49,-10453 }, {  50,-10453 }, {  51,-10453 }, {  52,-10453 }, {  53,-10453 },
+ {  54,-10453 }, {  55,-10453 }, {  56,-10453 }, {  57,-10453 }, {  58,-10453 },
+ {   0,   0 }, {   0,   0 }, {  61,-10478 }, {   0,   0 }, {  63,-10453 },
+ {   0,   0 }, {  65,-10453 }, {  66,-10453 }, {  67,-10453 }, {  68,-10453 },
+ {  69,-10453 }, {  70,-10453 }, {  71,-10453 }, {  72,-10453 }, {  73,-10453 },
+ {  74,-10453 }, {  75,-10453 }, {  76,-10453 }, {  77,-10453 }, {  78,-10453 },
+ {  79,-10453 }, {  80,-10453 }, {  81,-10453 }, {  82,-10453 }, {  83,-10453 },
+ {  84,-10453 }, {  85,-10453 }, {  86,-10453 }, {  87,-10453 }, {  88,-10453 },
+ {  89,-10453 }, {  90,-10453 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-10453 }, {   0,   0 }, {  97,-10453 }, {  98,-10453 },
+
+ {  99,-10453 }, { 100,-10453 }, { 101,-10453 }, { 102,-10453 }, { 103,-10453 },
+ { 104,-10453 }, { 105,-10453 }, { 106,-10453 }, { 107,-10453 }, { 108,-10453 },
+ { 109,-10453 }, { 110,1806 }, { 111,-10453 }, { 112,-10453 }, { 113,-10453 },
+ { 114,-10453 }, { 115,-10453 }, { 116,-10453 }, { 117,-10453 }, { 118,-10453 },
+ { 119,-10453 }, { 120,-10453 }, { 121,-10453 }, { 122,-10453 }, {   0,   0 },
+ { 124,-10478 }, { 125,-10478 }, { 126,-10478 }, { 127,-10453 }, { 128,-10453 },
+ { 129,-10453 }, { 130,-10453 }, { 131,-10453 }, { 132,-10453 }, { 133,-10453 },
+ { 134,-10453 }, { 135,-10453 }, { 136,-10453 }, { 137,-10453 }, { 138,-10453 },
+ { 139,-10453 }, { 140,-10453 }, { 141,-10453 }, { 142,-10453 }, { 143,-10453 },
+ { 144,-10453 }, { 145,-10453 }, { 146,-10453 }, { 147,-10453 }, { 148,-10453 },
+
+ { 149,-10453 }, { 150,-10453 }, { 151,-10453 }, { 152,-10453 }, { 153,-10453 },
+ { 154,-10453 }, { 155,-10453 }, { 156,-10453 }, { 157,-10453 }, { 158,-10453 },
+ { 159,-10453 }, { 160,-10453 }, { 161,-10453 }, { 162,-10453 }, { 163,-10453 },
+ { 164,-10453 }, { 165,-10453 }, { 166,-10453 }, { 167,-10453 }, { 168,-10453 },
+ { 169,-10453 }, { 170,-10453 }, { 171,-10453 }, { 172,-10453 }, { 173,-10453 },
+ { 174,-10453 }, { 175,-10453 }, { 176,-10453 }, { 177,-10453 }, { 178,-10453 },
+ { 179,-10453 }, { 180,-10453 }, { 181,-10453 }, { 182,-10453 }, { 183,-10453 },
+ { 184,-10453 }, { 185,-10453 }, { 186,-10453 }, { 187,-10453 }, { 188,-10453 },
+ { 189,-10453 }, { 190,-10453 }, { 191,-10453 }, { 192,-10453 }, { 193,-10453 },
+ { 194,-10453 }, { 195,-10453 }, { 196,-10453 }, { 197,-10453 }, { 198,-10453 },
+
+ { 199,-10453 }, { 200,-10453 }, { 201,-10453 }, { 202,-10453 }, { 203,-10453 },
+ { 204,-10453 }, { 205,-10453 }, { 206,-10453 }, { 207,-10453 }, { 208,-10453 },
+ { 209,-10453 }, { 210,-10453 }, { 211,-10453 }, { 212,-10453 }, { 213,-10453 },
+ { 214,-10453 }, { 215,-10453 }, { 216,-10453 }, { 217,-10453 }, { 218,-10453 },
+ { 219,-10453 }, { 220,-10453 }, { 221,-10453 }, { 222,-10453 }, { 223,-10453 },
+ { 224,-10453 }, { 225,-10453 }, { 226,-10453 }, { 227,-10453 }, { 228,-10453 },
+ { 229,-10453 }, { 230,-10453 }, { 231,-10453 }, { 232,-10453 }, { 233,-10453 },
+ { 234,-10453 }, { 235,-10453 }, { 236,-10453 }, { 237,-10453 }, { 238,-10453 },
+ { 239,-10453 }, { 240,-10453 }, { 241,-10453 }, { 242,-10453 }, { 243,-10453 },
+ { 244,-10453 }, { 245,-10453 }, { 246,-10453 }, { 247,-10453 }, { 248,-10453 },
+
+ { 249,-10453 }, { 250,-10453 }, { 251,-10453 }, { 252,-10453 }, { 253,-10453 },
+ { 254,-10453 }, { 255,-10453 }, { 256,-10453 }, {   0,   0 }, {   0,2848 },
+ {   1,-1550 }, {   2,-1550 }, {   3,-1550 }, {   4,-1550 }, {   5,-1550 },
+ {   6,-1550 }, {   7,-1550 }, {   8,-1550 }, {   9,1806 }, {  10,1806 },
+ {  11,-1550 }, {  12,-1550 }, {  13,1806 }, {  14,-1550 }, {  15,-1550 },
+ {  16,-1550 }, {  17,-1550 }, {  18,-1550 }, {  19,-1550 }, {  20,-1550 },
+ {  21,-1550 }, {  22,-1550 }, {  23,-1550 }, {  24,-1550 }, {  25,-1550 },
+ {  26,-1550 }, {  27,-1550 }, {  28,-1550 }, {  29,-1550 }, {  30,-1550 },
+ {  31,-1550 }, {  32,1806 }, {  33,-1550 }, {  34,-1550 }, {  35,-1550 },
+ {  36,-1550 }, {  37,-1550 }, {  38,-1550 }, {  39,-1550 }, {  40,-1550 },
+
+ {  41,-1550 }, {  42,-1550 }, {  43,-1550 }, {  44,-1550 }, {  45,-1550 },
+ {  46,-1550 }, {  47,-1550 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  58,-1550 }, {  59,-1550 }, {  60,-1550 },
+ {  61,-1550 }, {  62,-1550 }, {  63,-1550 }, {  64,-1550 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {  91,-1550 }, {  92,-1550 }, {  93,-1550 }, {  94,-1550 }, {   0,   0 },
+ {  96,-1550 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 123,-1550 }, { 124,-1550 }, { 125,1808 },
+ { 126,1810 }, { 127,-1550 }, { 128,-1550 }, { 129,-1550 }, { 130,-1550 },
+ { 131,-1550 }, { 132,-1550 }, { 133,-1550 }, { 134,-1550 }, { 135,-1550 },
+ { 136,-1550 }, { 137,-1550 }, { 138,-1550 }, { 139,-1550 }, { 140,-1550 },
+
+ { 141,-1550 }, { 142,-1550 }, { 143,-1550 }, { 144,-1550 }, { 145,-1550 },
+ { 146,-1550 }, { 147,-1550 }, { 148,-1550 }, { 149,-1550 }, { 150,-1550 },
+ { 151,-1550 }, { 152,-1550 }, { 153,-1550 }, { 154,-1550 }, { 155,-1550 },
+ { 156,-1550 }, { 157,-1550 }, { 158,-1550 }, { 159,-1550 }, { 160,-1550 },
+ { 161,-1550 }, { 162,-1550 }, { 163,-1550 }, { 164,-1550 }, { 165,-1550 },
+ { 166,-1550 }, { 167,-1550 }, { 168,-1550 }, { 169,-1550 }, { 170,-1550 },
+ { 171,-1550 }, { 172,-1550 }, { 173,-1550 }, { 174,-1550 }, { 175,-1550 },
+ { 176,-1550 }, { 177,-1550 }, { 178,-1550 }, { 179,-1550 }, { 180,-1550 },
+ { 181,-1550 }, { 182,-1550 }, { 183,-1550 }, { 184,-1550 }, { 185,-1550 },
+ { 186,-1550 }, { 187,-1550 }, { 188,-1550 }, { 189,-1550 }, { 190,-1550 },
+
+ { 191,-1550 }, { 192,-1550 }, { 193,-1550 }, { 194,-1550 }, { 195,-1550 },
+ { 196,-1550 }, { 197,-1550 }, { 198,-1550 }, { 199,-1550 }, { 200,-1550 },
+ { 201,-1550 }, { 202,-1550 }, { 203,-1550 }, { 204,-1550 }, { 205,-1550 },
+ { 206,-1550 }, { 207,-1550 }, { 208,-1550 }, { 209,-1550 }, { 210,-1550 },
+ { 211,-1550 }, { 212,-1550 }, { 213,-1550 }, { 214,-1550 }, { 215,-1550 },
+ { 216,-1550 }, { 217,-1550 }, { 218,-1550 }, { 219,-1550 }, { 220,-1550 },
+ { 221,-1550 }, { 222,-1550 }, { 223,-1550 }, { 224,-1550 }, { 225,-1550 },
+ { 226,-1550 }, { 227,-1550 }, { 228,-1550 }, { 229,-1550 }, { 230,-1550 },
+ { 231,-1550 }, { 232,-1550 }, { 233,-1550 }, { 234,-1550 }, { 235,-1550 },
+ { 236,-1550 }, { 237,-1550 }, { 238,-1550 }, { 239,-1550 }, { 240,-1550 },
+
+ { 241,-1550 }, { 242,-1550 }, { 243,-1550 }, { 244,-1550 }, { 245,-1550 },
+ { 246,-1550 }, { 247,-1550 }, { 248,-1550 }, { 249,-1550 }, { 250,-1550 },
+ { 251,-1550 }, { 252,-1550 }, { 253,-1550 }, { 254,-1550 }, { 255,-1550 },
+ { 256,-1550 }, {   0,   0 }, {   0,2590 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
- {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
 
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, {   0,   0 }, { 125, 524 }, {   0,   0 }, { 127,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
 
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
@@ -4797,214 +4797,520 @@ static const struct yy_trans_info yy_transition[20273] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0, 943 }, {   1,-11227 }, {   2,-11227 }, {   3,-11227 }, {   4,-11227 },
- {   5,-11227 }, {   6,-11227 }, {   7,-11227 }, {   8,-11227 }, {   9,-11252 },
- {  10,-11252 }, {  11,-11227 }, {  12,-11227 }, {  13,-11252 }, {  14,-11227 },
- {  15,-11227 }, {  16,-11227 }, {  17,-11227 }, {  18,-11227 }, {  19,-11227 },
- {  20,-11227 }, {  21,-11227 }, {  22,-11227 }, {  23,-11227 }, {  24,-11227 },
-
- {  25,-11227 }, {  26,-11227 }, {  27,-11227 }, {  28,-11227 }, {  29,-11227 },
- {  30,-11227 }, {  31,-11227 }, {  32,-11252 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-11227 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-11252 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-11227 }, {  46,-11252 }, {  47,-11252 }, {  48,-11227 }, {  49,-11227 },
- {  50,-11227 }, {  51,-11227 }, {  52,-11227 }, {  53,-11227 }, {  54,-11227 },
- {  55,-11227 }, {  56,-11227 }, {  57,-11227 }, {  58,-11227 }, {   0,   0 },
- {   0,   0 }, {  61,-11252 }, {   0,   0 }, {  63,-11227 }, {   0,   0 },
- {  65,-11227 }, {  66,-11227 }, {  67,-11227 }, {  68,-11227 }, {  69,-11227 },
- {  70,-11227 }, {  71,-11227 }, {  72,-11227 }, {  73,-11227 }, {  74,-11227 },
-
- {  75,-11227 }, {  76,-11227 }, {  77,-11227 }, {  78,-11227 }, {  79,-11227 },
- {  80,-11227 }, {  81,-11227 }, {  82,-11227 }, {  83,-11227 }, {  84,-11227 },
- {  85,-11227 }, {  86,-11227 }, {  87,-11227 }, {  88,-11227 }, {  89,-11227 },
- {  90,-11227 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-11227 }, {   0,   0 }, {  97,-11227 }, {  98,-11227 }, {  99,-11227 },
- { 100,-11227 }, { 101, 393 }, { 102,-11227 }, { 103,-11227 }, { 104,-11227 },
- { 105,-11227 }, { 106,-11227 }, { 107,-11227 }, { 108,-11227 }, { 109,-11227 },
- { 110,-11227 }, { 111,-11227 }, { 112,-11227 }, { 113,-11227 }, { 114,-11227 },
- { 115,-11227 }, { 116,-11227 }, { 117,-11227 }, { 118,-11227 }, { 119,-11227 },
- { 120,-11227 }, { 121,-11227 }, { 122,-11227 }, {   0,   0 }, { 124,-11252 },
-
- { 125,-11252 }, { 126,-11252 }, { 127,-11227 }, { 128,-11227 }, { 129,-11227 },
- { 130,-11227 }, { 131,-11227 }, { 132,-11227 }, { 133,-11227 }, { 134,-11227 },
- { 135,-11227 }, { 136,-11227 }, { 137,-11227 }, { 138,-11227 }, { 139,-11227 },
- { 140,-11227 }, { 141,-11227 }, { 142,-11227 }, { 143,-11227 }, { 144,-11227 },
- { 145,-11227 }, { 146,-11227 }, { 147,-11227 }, { 148,-11227 }, { 149,-11227 },
- { 150,-11227 }, { 151,-11227 }, { 152,-11227 }, { 153,-11227 }, { 154,-11227 },
- { 155,-11227 }, { 156,-11227 }, { 157,-11227 }, { 158,-11227 }, { 159,-11227 },
- { 160,-11227 }, { 161,-11227 }, { 162,-11227 }, { 163,-11227 }, { 164,-11227 },
- { 165,-11227 }, { 166,-11227 }, { 167,-11227 }, { 168,-11227 }, { 169,-11227 },
- { 170,-11227 }, { 171,-11227 }, { 172,-11227 }, { 173,-11227 }, { 174,-11227 },
-
- { 175,-11227 }, { 176,-11227 }, { 177,-11227 }, { 178,-11227 }, { 179,-11227 },
- { 180,-11227 }, { 181,-11227 }, { 182,-11227 }, { 183,-11227 }, { 184,-11227 },
- { 185,-11227 }, { 186,-11227 }, { 187,-11227 }, { 188,-11227 }, { 189,-11227 },
- { 190,-11227 }, { 191,-11227 }, { 192,-11227 }, { 193,-11227 }, { 194,-11227 },
- { 195,-11227 }, { 196,-11227 }, { 197,-11227 }, { 198,-11227 }, { 199,-11227 },
- { 200,-11227 }, { 201,-11227 }, { 202,-11227 }, { 203,-11227 }, { 204,-11227 },
- { 205,-11227 }, { 206,-11227 }, { 207,-11227 }, { 208,-11227 }, { 209,-11227 },
- { 210,-11227 }, { 211,-11227 }, { 212,-11227 }, { 213,-11227 }, { 214,-11227 },
- { 215,-11227 }, { 216,-11227 }, { 217,-11227 }, { 218,-11227 }, { 219,-11227 },
- { 220,-11227 }, { 221,-11227 }, { 222,-11227 }, { 223,-11227 }, { 224,-11227 },
-
- { 225,-11227 }, { 226,-11227 }, { 227,-11227 }, { 228,-11227 }, { 229,-11227 },
- { 230,-11227 }, { 231,-11227 }, { 232,-11227 }, { 233,-11227 }, { 234,-11227 },
- { 235,-11227 }, { 236,-11227 }, { 237,-11227 }, { 238,-11227 }, { 239,-11227 },
- { 240,-11227 }, { 241,-11227 }, { 242,-11227 }, { 243,-11227 }, { 244,-11227 },
- { 245,-11227 }, { 246,-11227 }, { 247,-11227 }, { 248,-11227 }, { 249,-11227 },
- { 250,-11227 }, { 251,-11227 }, { 252,-11227 }, { 253,-11227 }, { 254,-11227 },
- { 255,-11227 }, { 256,-11227 }, {   0,  25 }, {   0, 685 }, {   0,  25 },
- {   0, 683 }, {   0,  25 }, {   0, 681 }, {   0,   0 }, {   0, 679 },
- {   0,   0 }, {   0, 677 }, {   9, 393 }, {  10, 393 }, {   0,   0 },
- {   0,   0 }, {  13, 393 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32, 393 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0, 642 }, {   0,   0 }, {   0, 640 }, {   0,  23 },
- {   0, 638 }, {   0,   0 }, {   0, 636 }, {   0,   0 }, {   0,   0 },
- {   0, 633 }, {   0,   0 }, {   0, 631 }, {   0,  12 }, {   0, 629 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0, 616 }, {   0,  45 }, {   0, 614 },
- {   0,   9 }, {   0, 612 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  43 }, { 126,  45 },
- { 125,  45 }, {   0,   0 }, { 125,  39 }, {   0,   0 }, { 125,  43 },
- { 126,  46 }, { 125,  46 }, {   0,   0 }, {   0, 550 }, {   1,-11620 },
- {   2,-11620 }, {   3,-11620 }, {   4,-11620 }, {   5,-11620 }, {   6,-11620 },
- {   7,-11620 }, {   8,-11620 }, {   9,-11645 }, {  10,-11645 }, {  11,-11620 },
- {  12,-11620 }, {  13,-11645 }, {  14,-11620 }, {  15,-11620 }, {  16,-11620 },
- {  17,-11620 }, {  18,-11620 }, {  19,-11620 }, {  20,-11620 }, {  21,-11620 },
- {  22,-11620 }, {  23,-11620 }, {  24,-11620 }, {  25,-11620 }, {  26,-11620 },
- {  27,-11620 }, {  28,-11620 }, {  29,-11620 }, {  30,-11620 }, {  31,-11620 },
-
- {  32,-11645 }, { 125,   4 }, {   0,   0 }, { 125,  -2 }, {  36,-11620 },
- {   0,   0 }, {   0,   0 }, { 125,   7 }, {   0,   0 }, {  41,-11645 },
- { 125,  -3 }, {   0,   0 }, { 125,  15 }, {  45,-11620 }, {  46,-11645 },
- {  47,-11645 }, {  48,-11620 }, {  49,-11620 }, {  50,-11620 }, {  51,-11620 },
- {  52,-11620 }, {  53,-11620 }, {  54,-11620 }, {  55,-11620 }, {  56,-11620 },
- {  57,-11620 }, {  58,-11620 }, { 125,   4 }, {   0,   0 }, {  61,-11645 },
- {   0,   0 }, {  63,-11620 }, {   0,   0 }, {  65,-11620 }, {  66,-11620 },
- {  67,-11620 }, {  68,-11620 }, {  69,-11620 }, {  70,-11620 }, {  71,-11620 },
- {  72,-11620 }, {  73,-11620 }, {  74,-11620 }, {  75,-11620 }, {  76,-11620 },
- {  77,-11620 }, {  78,-11620 }, {  79,-11620 }, {  80,-11620 }, {  81,-11620 },
-
- {  82,-11620 }, {  83,-11620 }, {  84,-11620 }, {  85,-11620 }, {  86,-11620 },
- {  87,-11620 }, {  88,-11620 }, {  89,-11620 }, {  90,-11620 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11620 }, {   0,   0 },
- {  97,-11620 }, {  98,-11620 }, {  99,-11620 }, { 100, 292 }, { 101,-11620 },
- { 102,-11620 }, { 103,-11620 }, { 104,-11620 }, { 105,-11620 }, { 106,-11620 },
- { 107,-11620 }, { 108,-11620 }, { 109,-11620 }, { 110,-11620 }, { 111,-11620 },
- { 112,-11620 }, { 113,-11620 }, { 114,-11620 }, { 115,-11620 }, { 116,-11620 },
- { 117,-11620 }, { 118,-11620 }, { 119,-11620 }, { 120,-11620 }, { 121,-11620 },
- { 122,-11620 }, {   0,   0 }, { 124,-11645 }, { 125,-11645 }, { 126,-11645 },
- { 127,-11620 }, { 128,-11620 }, { 129,-11620 }, { 130,-11620 }, { 131,-11620 },
-
- { 132,-11620 }, { 133,-11620 }, { 134,-11620 }, { 135,-11620 }, { 136,-11620 },
- { 137,-11620 }, { 138,-11620 }, { 139,-11620 }, { 140,-11620 }, { 141,-11620 },
- { 142,-11620 }, { 143,-11620 }, { 144,-11620 }, { 145,-11620 }, { 146,-11620 },
- { 147,-11620 }, { 148,-11620 }, { 149,-11620 }, { 150,-11620 }, { 151,-11620 },
- { 152,-11620 }, { 153,-11620 }, { 154,-11620 }, { 155,-11620 }, { 156,-11620 },
- { 157,-11620 }, { 158,-11620 }, { 159,-11620 }, { 160,-11620 }, { 161,-11620 },
- { 162,-11620 }, { 163,-11620 }, { 164,-11620 }, { 165,-11620 }, { 166,-11620 },
- { 167,-11620 }, { 168,-11620 }, { 169,-11620 }, { 170,-11620 }, { 171,-11620 },
- { 172,-11620 }, { 173,-11620 }, { 174,-11620 }, { 175,-11620 }, { 176,-11620 },
- { 177,-11620 }, { 178,-11620 }, { 179,-11620 }, { 180,-11620 }, { 181,-11620 },
+ {   0,2332 }, {   1,-1548 }, {   2,-1548 }, {   3,-1548 }, {   4,-1548 },
+ {   5,-1548 }, {   6,-1548 }, {   7,-1548 }, {   8,-1548 }, {   9,-1548 },
+ {  10,-1548 }, {  11,-1548 }, {  12,-1548 }, {  13,-1548 }, {  14,-1548 },
+ {  15,-1548 }, {  16,-1548 }, {  17,-1548 }, {  18,-1548 }, {  19,-1548 },
+ {  20,-1548 }, {  21,-1548 }, {  22,-1548 }, {  23,-1548 }, {  24,-1548 },
+
+ {  25,-1548 }, {  26,-1548 }, {  27,-1548 }, {  28,-1548 }, {  29,-1548 },
+ {  30,-1548 }, {  31,-1548 }, {  32,-1548 }, {  33,-1548 }, {  34,-1548 },
+ {  35,-1548 }, {  36,-1548 }, {  37,-1548 }, {  38,-1548 }, {  39,-1548 },
+ {  40,-1548 }, {  41,-1548 }, {  42,-1548 }, {  43,-1548 }, {  44,-1548 },
+ {  45,-1290 }, {  46,-1548 }, {  47,-1548 }, {  48,-1548 }, {  49,-1548 },
+ {  50,-1548 }, {  51,-1548 }, {  52,-1548 }, {  53,-1548 }, {  54,-1548 },
+ {  55,-1548 }, {  56,-1548 }, {  57,-1548 }, {  58,-1548 }, {  59,-1548 },
+ {  60,-1548 }, {  61,-1548 }, {  62,-1548 }, {  63,-1548 }, {  64,-1548 },
+ {  65,-1548 }, {  66,-1548 }, {  67,-1548 }, {  68,-1548 }, {  69,-1548 },
+ {  70,-1548 }, {  71,-1548 }, {  72,-1548 }, {  73,-1548 }, {  74,-1548 },
+
+ {  75,-1548 }, {  76,-1548 }, {  77,-1548 }, {  78,-1548 }, {  79,-1548 },
+ {  80,-1548 }, {  81,-1548 }, {  82,-1548 }, {  83,-1548 }, {  84,-1548 },
+ {  85,-1548 }, {  86,-1548 }, {  87,-1548 }, {  88,-1548 }, {  89,-1548 },
+ {  90,-1548 }, {  91,-1548 }, {  92,-1548 }, {  93,-1548 }, {  94,-1548 },
+ {  95,-1548 }, {  96,-1548 }, {  97,-1548 }, {  98,-1548 }, {  99,-1548 },
+ { 100,-1548 }, { 101,-1548 }, { 102,-1548 }, { 103,-1548 }, { 104,-1548 },
+ { 105,-1548 }, { 106,-1548 }, { 107,-1548 }, { 108,-1548 }, { 109,-1548 },
+ { 110,-1548 }, { 111,-1548 }, { 112,-1548 }, { 113,-1548 }, { 114,-1548 },
+ { 115,-1548 }, { 116,-1548 }, { 117,-1548 }, { 118,-1548 }, { 119,-1548 },
+ { 120,-1548 }, { 121,-1548 }, { 122,-1548 }, { 123,-1548 }, { 124,-1548 },
+
+ { 125,-1548 }, { 126,-1548 }, { 127,-1548 }, { 128,-1548 }, { 129,-1548 },
+ { 130,-1548 }, { 131,-1548 }, { 132,-1548 }, { 133,-1548 }, { 134,-1548 },
+ { 135,-1548 }, { 136,-1548 }, { 137,-1548 }, { 138,-1548 }, { 139,-1548 },
+ { 140,-1548 }, { 141,-1548 }, { 142,-1548 }, { 143,-1548 }, { 144,-1548 },
+ { 145,-1548 }, { 146,-1548 }, { 147,-1548 }, { 148,-1548 }, { 149,-1548 },
+ { 150,-1548 }, { 151,-1548 }, { 152,-1548 }, { 153,-1548 }, { 154,-1548 },
+ { 155,-1548 }, { 156,-1548 }, { 157,-1548 }, { 158,-1548 }, { 159,-1548 },
+ { 160,-1548 }, { 161,-1548 }, { 162,-1548 }, { 163,-1548 }, { 164,-1548 },
+ { 165,-1548 }, { 166,-1548 }, { 167,-1548 }, { 168,-1548 }, { 169,-1548 },
+ { 170,-1548 }, { 171,-1548 }, { 172,-1548 }, { 173,-1548 }, { 174,-1548 },
+
+ { 175,-1548 }, { 176,-1548 }, { 177,-1548 }, { 178,-1548 }, { 179,-1548 },
+ { 180,-1548 }, { 181,-1548 }, { 182,-1548 }, { 183,-1548 }, { 184,-1548 },
+ { 185,-1548 }, { 186,-1548 }, { 187,-1548 }, { 188,-1548 }, { 189,-1548 },
+ { 190,-1548 }, { 191,-1548 }, { 192,-1548 }, { 193,-1548 }, { 194,-1548 },
+ { 195,-1548 }, { 196,-1548 }, { 197,-1548 }, { 198,-1548 }, { 199,-1548 },
+ { 200,-1548 }, { 201,-1548 }, { 202,-1548 }, { 203,-1548 }, { 204,-1548 },
+ { 205,-1548 }, { 206,-1548 }, { 207,-1548 }, { 208,-1548 }, { 209,-1548 },
+ { 210,-1548 }, { 211,-1548 }, { 212,-1548 }, { 213,-1548 }, { 214,-1548 },
+ { 215,-1548 }, { 216,-1548 }, { 217,-1548 }, { 218,-1548 }, { 219,-1548 },
+ { 220,-1548 }, { 221,-1548 }, { 222,-1548 }, { 223,-1548 }, { 224,-1548 },
+
+ { 225,-1548 }, { 226,-1548 }, { 227,-1548 }, { 228,-1548 }, { 229,-1548 },
+ { 230,-1548 }, { 231,-1548 }, { 232,-1548 }, { 233,-1548 }, { 234,-1548 },
+ { 235,-1548 }, { 236,-1548 }, { 237,-1548 }, { 238,-1548 }, { 239,-1548 },
+ { 240,-1548 }, { 241,-1548 }, { 242,-1548 }, { 243,-1548 }, { 244,-1548 },
+ { 245,-1548 }, { 246,-1548 }, { 247,-1548 }, { 248,-1548 }, { 249,-1548 },
+ { 250,-1548 }, { 251,-1548 }, { 252,-1548 }, { 253,-1548 }, { 254,-1548 },
+ { 255,-1548 }, { 256,-1548 }, {   0,   0 }, {   0,2074 }, {   1,-1806 },
+ {   2,-1806 }, {   3,-1806 }, {   4,-1806 }, {   5,-1806 }, {   6,-1806 },
+ {   7,-1806 }, {   8,-1806 }, {   9,-1806 }, {  10,-1806 }, {  11,-1806 },
+ {  12,-1806 }, {  13,-1806 }, {  14,-1806 }, {  15,-1806 }, {  16,-1806 },
+
+ {  17,-1806 }, {  18,-1806 }, {  19,-1806 }, {  20,-1806 }, {  21,-1806 },
+ {  22,-1806 }, {  23,-1806 }, {  24,-1806 }, {  25,-1806 }, {  26,-1806 },
+ {  27,-1806 }, {  28,-1806 }, {  29,-1806 }, {  30,-1806 }, {  31,-1806 },
+ {  32,-1806 }, {  33,-1806 }, {  34,-1806 }, {  35,-1806 }, {  36,-1806 },
+ {  37,-1806 }, {  38,-1806 }, {  39,-1806 }, {  40,-1806 }, {  41,-1806 },
+ {  42,-1806 }, {  43,-1806 }, {  44,-1806 }, {  45,-258 }, {  46,-1806 },
+ {  47,-1806 }, {  48,-1806 }, {  49,-1806 }, {  50,-1806 }, {  51,-1806 },
+ {  52,-1806 }, {  53,-1806 }, {  54,-1806 }, {  55,-1806 }, {  56,-1806 },
+ {  57,-1806 }, {  58,-1806 }, {  59,-1806 }, {  60,-1806 }, {  61,-1806 },
+ {  62,-1806 }, {  63,-1806 }, {  64,-1806 }, {  65,-1806 }, {  66,-1806 },
+
+ {  67,-1806 }, {  68,-1806 }, {  69,-1806 }, {  70,-1806 }, {  71,-1806 },
+ {  72,-1806 }, {  73,-1806 }, {  74,-1806 }, {  75,-1806 }, {  76,-1806 },
+ {  77,-1806 }, {  78,-1806 }, {  79,-1806 }, {  80,-1806 }, {  81,-1806 },
+ {  82,-1806 }, {  83,-1806 }, {  84,-1806 }, {  85,-1806 }, {  86,-1806 },
+ {  87,-1806 }, {  88,-1806 }, {  89,-1806 }, {  90,-1806 }, {  91,-1806 },
+ {  92,-1806 }, {  93,-1806 }, {  94,-1806 }, {  95,-1806 }, {  96,-1806 },
+ {  97,-1806 }, {  98,-1806 }, {  99,-1806 }, { 100,-1806 }, { 101,-1806 },
+ { 102,-1806 }, { 103,-1806 }, { 104,-1806 }, { 105,-1806 }, { 106,-1806 },
+ { 107,-1806 }, { 108,-1806 }, { 109,-1806 }, { 110,-1806 }, { 111,-1806 },
+ { 112,-1806 }, { 113,-1806 }, { 114,-1806 }, { 115,-1806 }, { 116,-1806 },
+
+ { 117,-1806 }, { 118,-1806 }, { 119,-1806 }, { 120,-1806 }, { 121,-1806 },
+ { 122,-1806 }, { 123,-1806 }, { 124,-1806 }, { 125,1038 }, { 126,-1806 },
+ { 127,-1806 }, { 128,-1806 }, { 129,-1806 }, { 130,-1806 }, { 131,-1806 },
+ { 132,-1806 }, { 133,-1806 }, { 134,-1806 }, { 135,-1806 }, { 136,-1806 },
+ { 137,-1806 }, { 138,-1806 }, { 139,-1806 }, { 140,-1806 }, { 141,-1806 },
+ { 142,-1806 }, { 143,-1806 }, { 144,-1806 }, { 145,-1806 }, { 146,-1806 },
+ { 147,-1806 }, { 148,-1806 }, { 149,-1806 }, { 150,-1806 }, { 151,-1806 },
+ { 152,-1806 }, { 153,-1806 }, { 154,-1806 }, { 155,-1806 }, { 156,-1806 },
+ { 157,-1806 }, { 158,-1806 }, { 159,-1806 }, { 160,-1806 }, { 161,-1806 },
+ { 162,-1806 }, { 163,-1806 }, { 164,-1806 }, { 165,-1806 }, { 166,-1806 },
+
+ { 167,-1806 }, { 168,-1806 }, { 169,-1806 }, { 170,-1806 }, { 171,-1806 },
+ { 172,-1806 }, { 173,-1806 }, { 174,-1806 }, { 175,-1806 }, { 176,-1806 },
+ { 177,-1806 }, { 178,-1806 }, { 179,-1806 }, { 180,-1806 }, { 181,-1806 },
+ { 182,-1806 }, { 183,-1806 }, { 184,-1806 }, { 185,-1806 }, { 186,-1806 },
+ { 187,-1806 }, { 188,-1806 }, { 189,-1806 }, { 190,-1806 }, { 191,-1806 },
+ { 192,-1806 }, { 193,-1806 }, { 194,-1806 }, { 195,-1806 }, { 196,-1806 },
+ { 197,-1806 }, { 198,-1806 }, { 199,-1806 }, { 200,-1806 }, { 201,-1806 },
+ { 202,-1806 }, { 203,-1806 }, { 204,-1806 }, { 205,-1806 }, { 206,-1806 },
+ { 207,-1806 }, { 208,-1806 }, { 209,-1806 }, { 210,-1806 }, { 211,-1806 },
+ { 212,-1806 }, { 213,-1806 }, { 214,-1806 }, { 215,-1806 }, { 216,-1806 },
+
+ { 217,-1806 }, { 218,-1806 }, { 219,-1806 }, { 220,-1806 }, { 221,-1806 },
+ { 222,-1806 }, { 223,-1806 }, { 224,-1806 }, { 225,-1806 }, { 226,-1806 },
+ { 227,-1806 }, { 228,-1806 }, { 229,-1806 }, { 230,-1806 }, { 231,-1806 },
+ { 232,-1806 }, { 233,-1806 }, { 234,-1806 }, { 235,-1806 }, { 236,-1806 },
+ { 237,-1806 }, { 238,-1806 }, { 239,-1806 }, { 240,-1806 }, { 241,-1806 },
+ { 242,-1806 }, { 243,-1806 }, { 244,-1806 }, { 245,-1806 }, { 246,-1806 },
+ { 247,-1806 }, { 248,-1806 }, { 249,-1806 }, { 250,-1806 }, { 251,-1806 },
+ { 252,-1806 }, { 253,-1806 }, { 254,-1806 }, { 255,-1806 }, { 256,-1806 },
+ {   0,   0 }, {   0,1816 }, {   1,-2064 }, {   2,-2064 }, {   3,-2064 },
+ {   4,-2064 }, {   5,-2064 }, {   6,-2064 }, {   7,-2064 }, {   8,-2064 },
+
+ {   9,-2064 }, {  10,-2064 }, {  11,-2064 }, {  12,-2064 }, {  13,-2064 },
+ {  14,-2064 }, {  15,-2064 }, {  16,-2064 }, {  17,-2064 }, {  18,-2064 },
+ {  19,-2064 }, {  20,-2064 }, {  21,-2064 }, {  22,-2064 }, {  23,-2064 },
+ {  24,-2064 }, {  25,-2064 }, {  26,-2064 }, {  27,-2064 }, {  28,-2064 },
+ {  29,-2064 }, {  30,-2064 }, {  31,-2064 }, {  32,-2064 }, {  33,-2064 },
+ {  34,-2064 }, {  35,-2064 }, {  36,-2064 }, {  37,-2064 }, {  38,-2064 },
+ {  39,-2064 }, {  40,-2064 }, {  41,-2064 }, {  42,-2064 }, {  43,-2064 },
+ {  44,-2064 }, {  45,-516 }, {  46,-2064 }, {  47,-2064 }, {  48,-2064 },
+ {  49,-2064 }, {  50,-2064 }, {  51,-2064 }, {  52,-2064 }, {  53,-2064 },
+ {  54,-2064 }, {  55,-2064 }, {  56,-2064 }, {  57,-2064 }, {  58,-2064 },
+
+ {  59,-2064 }, {  60,-2064 }, {  61,-2064 }, {  62,-2064 }, {  63,-2064 },
+ {  64,-2064 }, {  65,-2064 }, {  66,-2064 }, {  67,-2064 }, {  68,-2064 },
+ {  69,-2064 }, {  70,-2064 }, {  71,-2064 }, {  72,-2064 }, {  73,-2064 },
+ {  74,-2064 }, {  75,-2064 }, {  76,-2064 }, {  77,-2064 }, {  78,-2064 },
+ {  79,-2064 }, {  80,-2064 }, {  81,-2064 }, {  82,-2064 }, {  83,-2064 },
+ {  84,-2064 }, {  85,-2064 }, {  86,-2064 }, {  87,-2064 }, {  88,-2064 },
+ {  89,-2064 }, {  90,-2064 }, {  91,-2064 }, {  92,-2064 }, {  93,-2064 },
+ {  94,-2064 }, {  95,-2064 }, {  96,-2064 }, {  97,-2064 }, {  98,-2064 },
+ {  99,-2064 }, { 100,-2064 }, { 101,-2064 }, { 102,-2064 }, { 103,-2064 },
+ { 104,-2064 }, { 105,-2064 }, { 106,-2064 }, { 107,-2064 }, { 108,-2064 },
+
+ { 109,-2064 }, { 110,-2064 }, { 111,-2064 }, { 112,-2064 }, { 113,-2064 },
+ { 114,-2064 }, { 115,-2064 }, { 116,-2064 }, { 117,-2064 }, { 118,-2064 },
+ { 119,-2064 }, { 120,-2064 }, { 121,-2064 }, { 122,-2064 }, { 123,-2064 },
+ { 124,-2064 }, { 125, 905 }, { 126,-2064 }, { 127,-2064 }, { 128,-2064 },
+ { 129,-2064 }, { 130,-2064 }, { 131,-2064 }, { 132,-2064 }, { 133,-2064 },
+ { 134,-2064 }, { 135,-2064 }, { 136,-2064 }, { 137,-2064 }, { 138,-2064 },
+ { 139,-2064 }, { 140,-2064 }, { 141,-2064 }, { 142,-2064 }, { 143,-2064 },
+ { 144,-2064 }, { 145,-2064 }, { 146,-2064 }, { 147,-2064 }, { 148,-2064 },
+ { 149,-2064 }, { 150,-2064 }, { 151,-2064 }, { 152,-2064 }, { 153,-2064 },
+ { 154,-2064 }, { 155,-2064 }, { 156,-2064 }, { 157,-2064 }, { 158,-2064 },
+
+ { 159,-2064 }, { 160,-2064 }, { 161,-2064 }, { 162,-2064 }, { 163,-2064 },
+ { 164,-2064 }, { 165,-2064 }, { 166,-2064 }, { 167,-2064 }, { 168,-2064 },
+ { 169,-2064 }, { 170,-2064 }, { 171,-2064 }, { 172,-2064 }, { 173,-2064 },
+ { 174,-2064 }, { 175,-2064 }, { 176,-2064 }, { 177,-2064 }, { 178,-2064 },
+ { 179,-2064 }, { 180,-2064 }, { 181,-2064 }, { 182,-2064 }, { 183,-2064 },
+ { 184,-2064 }, { 185,-2064 }, { 186,-2064 }, { 187,-2064 }, { 188,-2064 },
+ { 189,-2064 }, { 190,-2064 }, { 191,-2064 }, { 192,-2064 }, { 193,-2064 },
+ { 194,-2064 }, { 195,-2064 }, { 196,-2064 }, { 197,-2064 }, { 198,-2064 },
+ { 199,-2064 }, { 200,-2064 }, { 201,-2064 }, { 202,-2064 }, { 203,-2064 },
+ { 204,-2064 }, { 205,-2064 }, { 206,-2064 }, { 207,-2064 }, { 208,-2064 },
+
+ { 209,-2064 }, { 210,-2064 }, { 211,-2064 }, { 212,-2064 }, { 213,-2064 },
+ { 214,-2064 }, { 215,-2064 }, { 216,-2064 }, { 217,-2064 }, { 218,-2064 },
+ { 219,-2064 }, { 220,-2064 }, { 221,-2064 }, { 222,-2064 }, { 223,-2064 },
+ { 224,-2064 }, { 225,-2064 }, { 226,-2064 }, { 227,-2064 }, { 228,-2064 },
+ { 229,-2064 }, { 230,-2064 }, { 231,-2064 }, { 232,-2064 }, { 233,-2064 },
+ { 234,-2064 }, { 235,-2064 }, { 236,-2064 }, { 237,-2064 }, { 238,-2064 },
+ { 239,-2064 }, { 240,-2064 }, { 241,-2064 }, { 242,-2064 }, { 243,-2064 },
+ { 244,-2064 }, { 245,-2064 }, { 246,-2064 }, { 247,-2064 }, { 248,-2064 },
+ { 249,-2064 }, { 250,-2064 }, { 251,-2064 }, { 252,-2064 }, { 253,-2064 },
+ { 254,-2064 }, { 255,-2064 }, { 256,-2064 }, {   0,   0 }, {   0,1558 },
 
- { 182,-11620 }, { 183,-11620 }, { 184,-11620 }, { 185,-11620 }, { 186,-11620 },
- { 187,-11620 }, { 188,-11620 }, { 189,-11620 }, { 190,-11620 }, { 191,-11620 },
- { 192,-11620 }, { 193,-11620 }, { 194,-11620 }, { 195,-11620 }, { 196,-11620 },
- { 197,-11620 }, { 198,-11620 }, { 199,-11620 }, { 200,-11620 }, { 201,-11620 },
- { 202,-11620 }, { 203,-11620 }, { 204,-11620 }, { 205,-11620 }, { 206,-11620 },
- { 207,-11620 }, { 208,-11620 }, { 209,-11620 }, { 210,-11620 }, { 211,-11620 },
- { 212,-11620 }, { 213,-11620 }, { 214,-11620 }, { 215,-11620 }, { 216,-11620 },
- { 217,-11620 }, { 218,-11620 }, { 219,-11620 }, { 220,-11620 }, { 221,-11620 },
- { 222,-11620 }, { 223,-11620 }, { 224,-11620 }, { 225,-11620 }, { 226,-11620 },
- { 227,-11620 }, { 228,-11620 }, { 229,-11620 }, { 230,-11620 }, { 231,-11620 },
+ {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
+ {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
+ {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
+ {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
+ {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+ {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
+ {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
+ {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
 
- { 232,-11620 }, { 233,-11620 }, { 234,-11620 }, { 235,-11620 }, { 236,-11620 },
- { 237,-11620 }, { 238,-11620 }, { 239,-11620 }, { 240,-11620 }, { 241,-11620 },
- { 242,-11620 }, { 243,-11620 }, { 244,-11620 }, { 245,-11620 }, { 246,-11620 },
- { 247,-11620 }, { 248,-11620 }, { 249,-11620 }, { 250,-11620 }, { 251,-11620 },
- { 252,-11620 }, { 253,-11620 }, { 254,-11620 }, { 255,-11620 }, { 256,-11620 },
- {   0,   0 }, {   0, 292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
+ {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
+ {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
+ {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+ {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
+ {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+ {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
+ {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0, 258 }, {   1,-11912 }, {   2,-11912 }, {   3,-11912 }, {   4,-11912 },
- {   5,-11912 }, {   6,-11912 }, {   7,-11912 }, {   8,-11912 }, {   9,-356 },
- {  10,-356 }, {  11,-11912 }, {  12,-11912 }, {  13,-356 }, {  14,-11912 },
- {  15,-11912 }, {  16,-11912 }, {  17,-11912 }, {  18,-11912 }, {  19,-11912 },
- {  20,-11912 }, {  21,-11912 }, {  22,-11912 }, {  23,-11912 }, {  24,-11912 },
- {  25,-11912 }, {  26,-11912 }, {  27,-11912 }, {  28,-11912 }, {  29,-11912 },
- {  30,-11912 }, {  31,-11912 }, {  32,-356 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-11912 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  41,-356 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-11912 }, {  46,-11937 }, {  47,-11937 }, {  48,-11912 }, {  49,-11912 },
- {  50,-11912 }, {  51,-11912 }, {  52,-11912 }, {  53,-11912 }, {  54,-11912 },
- {  55,-11912 }, {  56,-11912 }, {  57,-11912 }, {  58,-11912 }, {   0,   0 },
- {   0,   0 }, {  61,-11937 }, {   0,   0 }, {  63,-11912 }, {   0,   0 },
- {  65,-11912 }, {  66,-11912 }, {  67,-11912 }, {  68,-11912 }, {  69,-11912 },
- {  70,-11912 }, {  71,-11912 }, {  72,-11912 }, {  73,-11912 }, {  74,-11912 },
- {  75,-11912 }, {  76,-11912 }, {  77,-11912 }, {  78,-11912 }, {  79,-11912 },
- {  80,-11912 }, {  81,-11912 }, {  82,-11912 }, {  83,-11912 }, {  84,-11912 },
- {  85,-11912 }, {  86,-11912 }, {  87,-11912 }, {  88,-11912 }, {  89,-11912 },
-
- {  90,-11912 }, { 125,-350 }, { 126,-348 }, {   0,   0 }, {   0,   0 },
- {  95,-11912 }, {   0,   0 }, {  97,-11912 }, {  98,-11912 }, {  99,-11912 },
- { 100,-11912 }, { 101,-11912 }, { 102,-11912 }, { 103,-11912 }, { 104,-11912 },
- { 105,-11912 }, { 106,-11912 }, { 107,-11912 }, { 108,-11912 }, { 109,-11912 },
- { 110,-11912 }, { 111,-11912 }, { 112,-11912 }, { 113,-11912 }, { 114,-11912 },
- { 115,-11912 }, { 116,-11912 }, { 117,-11912 }, { 118,-11912 }, { 119,-11912 },
- { 120,-11912 }, { 121,-11912 }, { 122,-11912 }, {   0,   0 }, { 124,-11937 },
- { 125,-356 }, { 126,-356 }, { 127,-11912 }, { 128,-11912 }, { 129,-11912 },
- { 130,-11912 }, { 131,-11912 }, { 132,-11912 }, { 133,-11912 }, { 134,-11912 },
- { 135,-11912 }, { 136,-11912 }, { 137,-11912 }, { 138,-11912 }, { 139,-11912 },
-
- { 140,-11912 }, { 141,-11912 }, { 142,-11912 }, { 143,-11912 }, { 144,-11912 },
- { 145,-11912 }, { 146,-11912 }, { 147,-11912 }, { 148,-11912 }, { 149,-11912 },
- { 150,-11912 }, { 151,-11912 }, { 152,-11912 }, { 153,-11912 }, { 154,-11912 },
- { 155,-11912 }, { 156,-11912 }, { 157,-11912 }, { 158,-11912 }, { 159,-11912 },
- { 160,-11912 }, { 161,-11912 }, { 162,-11912 }, { 163,-11912 }, { 164,-11912 },
- { 165,-11912 }, { 166,-11912 }, { 167,-11912 }, { 168,-11912 }, { 169,-11912 },
- { 170,-11912 }, { 171,-11912 }, { 172,-11912 }, { 173,-11912 }, { 174,-11912 },
- { 175,-11912 }, { 176,-11912 }, { 177,-11912 }, { 178,-11912 }, { 179,-11912 },
- { 180,-11912 }, { 181,-11912 }, { 182,-11912 }, { 183,-11912 }, { 184,-11912 },
- { 185,-11912 }, { 186,-11912 }, { 187,-11912 }, { 188,-11912 }, { 189,-11912 },
-
- { 190,-11912 }, { 191,-11912 }, { 192,-11912 }, { 193,-11912 }, { 194,-11912 },
- { 195,-11912 }, { 196,-11912 }, { 197,-11912 }, { 198,-11912 }, { 199,-11912 },
- { 200,-11912 }, { 201,-11912 }, { 202,-11912 }, { 203,-11912 }, { 204,-11912 },
- { 205,-11912 }, { 206,-11912 }, { 207,-11912 }, { 208,-11912 }, { 209,-11912 },
- { 210,-11912 }, { 211,-11912 }, { 212,-11912 }, { 213,-11912 }, { 214,-11912 },
- { 215,-11912 }, { 216,-11912 }, { 217,-11912 }, { 218,-11912 }, { 219,-11912 },
- { 220,-11912 }, { 221,-11912 }, { 222,-11912 }, { 223,-11912 }, { 224,-11912 },
- { 225,-11912 }, { 226,-11912 }, { 227,-11912 }, { 228,-11912 }, { 229,-11912 },
- { 230,-11912 }, { 231,-11912 }, { 232,-11912 }, { 233,-11912 }, { 234,-11912 },
- { 235,-11912 }, { 236,-11912 }, { 237,-11912 }, { 238,-11912 }, { 239,-11912 },
-
- { 240,-11912 }, { 241,-11912 }, { 242,-11912 }, { 243,-11912 }, { 244,-11912 },
- { 245,-11912 }, { 246,-11912 }, { 247,-11912 }, { 248,-11912 }, { 249,-11912 },
- { 250,-11912 }, { 251,-11912 }, { 252,-11912 }, { 253,-11912 }, { 254,-11912 },
- { 255,-11912 }, { 256,-11912 }, { 257,  52 }, {   1,   0 },    };
+ { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
+ { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
+ { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
+ { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
+ { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 905 },
+ {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
+ { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+ { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+ { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
+
+ { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
+ { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
+ { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
+ { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
+ { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+ { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
+ { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+ { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+ { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
+
+ { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
+ { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
+ { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
+ { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
+ { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+ { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
+ { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+ { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+ { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
+
+ { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
+ { 256,   0 }, {   0,   0 }, {   0,1300 }, {   1,-12259 }, {   2,-12259 },
+ {   3,-12259 }, {   4,-12259 }, {   5,-12259 }, {   6,-12259 }, {   7,-12259 },
+ {   8,-12259 }, {   9,-12284 }, {  10,-12284 }, {  11,-12259 }, {  12,-12259 },
+ {  13,-12284 }, {  14,-12259 }, {  15,-12259 }, {  16,-12259 }, {  17,-12259 },
+ {  18,-12259 }, {  19,-12259 }, {  20,-12259 }, {  21,-12259 }, {  22,-12259 },
+ {  23,-12259 }, {  24,-12259 }, {  25,-12259 }, {  26,-12259 }, {  27,-12259 },
+ {  28,-12259 }, {  29,-12259 }, {  30,-12259 }, {  31,-12259 }, {  32,-12284 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12259 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12284 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  45,-12259 }, {  46,-12284 }, {  47,-12284 },
+ {  48,-12259 }, {  49,-12259 }, {  50,-12259 }, {  51,-12259 }, {  52,-12259 },
+ {  53,-12259 }, {  54,-12259 }, {  55,-12259 }, {  56,-12259 }, {  57,-12259 },
+ {  58,-12259 }, {   0,   0 }, {   0,   0 }, {  61,-12284 }, {   0,   0 },
+ {  63,-12259 }, {   0,   0 }, {  65,-12259 }, {  66,-12259 }, {  67,-12259 },
+ {  68,-12259 }, {  69,-12259 }, {  70,-12259 }, {  71,-12259 }, {  72,-12259 },
+ {  73,-12259 }, {  74,-12259 }, {  75,-12259 }, {  76,-12259 }, {  77,-12259 },
+ {  78,-12259 }, {  79,-12259 }, {  80,-12259 }, {  81,-12259 }, {  82,-12259 },
+ {  83,-12259 }, {  84,-12259 }, {  85,-12259 }, {  86,-12259 }, {  87,-12259 },
+ {  88,-12259 }, {  89,-12259 }, {  90,-12259 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  95,-12259 }, {   0,   0 }, {  97,-12259 },
+ {  98,-12259 }, {  99,-12259 }, { 100,-12259 }, { 101, 649 }, { 102,-12259 },
+ { 103,-12259 }, { 104,-12259 }, { 105,-12259 }, { 106,-12259 }, { 107,-12259 },
+ { 108,-12259 }, { 109,-12259 }, { 110,-12259 }, { 111,-12259 }, { 112,-12259 },
+ { 113,-12259 }, { 114,-12259 }, { 115,-12259 }, { 116,-12259 }, { 117,-12259 },
+ { 118,-12259 }, { 119,-12259 }, { 120,-12259 }, { 121,-12259 }, { 122,-12259 },
+ {   0,   0 }, { 124,-12284 }, { 125,-12284 }, { 126,-12284 }, { 127,-12259 },
+ { 128,-12259 }, { 129,-12259 }, { 130,-12259 }, { 131,-12259 }, { 132,-12259 },
+ { 133,-12259 }, { 134,-12259 }, { 135,-12259 }, { 136,-12259 }, { 137,-12259 },
+ { 138,-12259 }, { 139,-12259 }, { 140,-12259 }, { 141,-12259 }, { 142,-12259 },
+
+ { 143,-12259 }, { 144,-12259 }, { 145,-12259 }, { 146,-12259 }, { 147,-12259 },
+ { 148,-12259 }, { 149,-12259 }, { 150,-12259 }, { 151,-12259 }, { 152,-12259 },
+ { 153,-12259 }, { 154,-12259 }, { 155,-12259 }, { 156,-12259 }, { 157,-12259 },
+ { 158,-12259 }, { 159,-12259 }, { 160,-12259 }, { 161,-12259 }, { 162,-12259 },
+ { 163,-12259 }, { 164,-12259 }, { 165,-12259 }, { 166,-12259 }, { 167,-12259 },
+ { 168,-12259 }, { 169,-12259 }, { 170,-12259 }, { 171,-12259 }, { 172,-12259 },
+ { 173,-12259 }, { 174,-12259 }, { 175,-12259 }, { 176,-12259 }, { 177,-12259 },
+ { 178,-12259 }, { 179,-12259 }, { 180,-12259 }, { 181,-12259 }, { 182,-12259 },
+ { 183,-12259 }, { 184,-12259 }, { 185,-12259 }, { 186,-12259 }, { 187,-12259 },
+ { 188,-12259 }, { 189,-12259 }, { 190,-12259 }, { 191,-12259 }, { 192,-12259 },
+
+ { 193,-12259 }, { 194,-12259 }, { 195,-12259 }, { 196,-12259 }, { 197,-12259 },
+ { 198,-12259 }, { 199,-12259 }, { 200,-12259 }, { 201,-12259 }, { 202,-12259 },
+ { 203,-12259 }, { 204,-12259 }, { 205,-12259 }, { 206,-12259 }, { 207,-12259 },
+ { 208,-12259 }, { 209,-12259 }, { 210,-12259 }, { 211,-12259 }, { 212,-12259 },
+ { 213,-12259 }, { 214,-12259 }, { 215,-12259 }, { 216,-12259 }, { 217,-12259 },
+ { 218,-12259 }, { 219,-12259 }, { 220,-12259 }, { 221,-12259 }, { 222,-12259 },
+ { 223,-12259 }, { 224,-12259 }, { 225,-12259 }, { 226,-12259 }, { 227,-12259 },
+ { 228,-12259 }, { 229,-12259 }, { 230,-12259 }, { 231,-12259 }, { 232,-12259 },
+ { 233,-12259 }, { 234,-12259 }, { 235,-12259 }, { 236,-12259 }, { 237,-12259 },
+ { 238,-12259 }, { 239,-12259 }, { 240,-12259 }, { 241,-12259 }, { 242,-12259 },
+
+ { 243,-12259 }, { 244,-12259 }, { 245,-12259 }, { 246,-12259 }, { 247,-12259 },
+ { 248,-12259 }, { 249,-12259 }, { 250,-12259 }, { 251,-12259 }, { 252,-12259 },
+ { 253,-12259 }, { 254,-12259 }, { 255,-12259 }, { 256,-12259 }, {   0,  25 },
+ {   0,1042 }, {   0,  25 }, {   0,1040 }, {   0,  25 }, {   0,1038 },
+ {   0,  12 }, {   0,1036 }, {   0,   0 }, {   0,   0 }, {   9, 649 },
+ {  10, 649 }, {   0,   0 }, {   0,   0 }, {  13, 649 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  32, 649 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 125, 651 }, { 126, 653 }, { 125, 653 }, {   0,   0 }, { 125, 647 },
+ {   0,   0 }, {   0, 911 }, {   1,-2969 }, {   2,-2969 }, {   3,-2969 },
+
+ {   4,-2969 }, {   5,-2969 }, {   6,-2969 }, {   7,-2969 }, {   8,-2969 },
+ {   9,-2969 }, {  10,-2969 }, {  11,-2969 }, {  12,-2969 }, {  13,-2969 },
+ {  14,-2969 }, {  15,-2969 }, {  16,-2969 }, {  17,-2969 }, {  18,-2969 },
+ {  19,-2969 }, {  20,-2969 }, {  21,-2969 }, {  22,-2969 }, {  23,-2969 },
+ {  24,-2969 }, {  25,-2969 }, {  26,-2969 }, {  27,-2969 }, {  28,-2969 },
+ {  29,-2969 }, {  30,-2969 }, {  31,-2969 }, {  32,-2969 }, {  33,-2969 },
+ {  34,-2969 }, {  35,-2969 }, {  36,-2969 }, {  37,-2969 }, {  38,-2969 },
+ {  39,-2969 }, {  40,-2969 }, {  41,-2969 }, {  42,-2969 }, {  43,-2969 },
+ {  44,-2969 }, {  45,-1421 }, {  46,-2969 }, {  47,-2969 }, {  48,-2969 },
+ {  49,-2969 }, {  50,-2969 }, {  51,-2969 }, {  52,-2969 }, {  53,-2969 },
+
+ {  54,-2969 }, {  55,-2969 }, {  56,-2969 }, {  57,-2969 }, {  58,-2969 },
+ {  59,-2969 }, {  60,-2969 }, {  61,-2969 }, {  62,-2969 }, {  63,-2969 },
+ {  64,-2969 }, {  65,-2969 }, {  66,-2969 }, {  67,-2969 }, {  68,-2969 },
+ {  69,-2969 }, {  70,-2969 }, {  71,-2969 }, {  72,-2969 }, {  73,-2969 },
+ {  74,-2969 }, {  75,-2969 }, {  76,-2969 }, {  77,-2969 }, {  78,-2969 },
+ {  79,-2969 }, {  80,-2969 }, {  81,-2969 }, {  82,-2969 }, {  83,-2969 },
+ {  84,-2969 }, {  85,-2969 }, {  86,-2969 }, {  87,-2969 }, {  88,-2969 },
+ {  89,-2969 }, {  90,-2969 }, {  91,-2969 }, {  92,-2969 }, {  93,-2969 },
+ {  94,-2969 }, {  95,-2969 }, {  96,-2969 }, {  97,-2969 }, {  98,-2969 },
+ {  99,-2969 }, { 100,-2969 }, { 101,-2969 }, { 102,-2969 }, { 103,-2969 },
+
+ { 104,-2969 }, { 105,-2969 }, { 106,-2969 }, { 107,-2969 }, { 108,-2969 },
+ { 109,-2969 }, { 110,-2969 }, { 111,-2969 }, { 112,-2969 }, { 113,-2969 },
+ { 114,-2969 }, { 115,-2969 }, { 116,-2969 }, { 117,-2969 }, { 118,-2969 },
+ { 119,-2969 }, { 120,-2969 }, { 121,-2969 }, { 122,-2969 }, { 123,-2969 },
+ { 124,-2969 }, { 125,-125 }, { 126,-2969 }, { 127,-2969 }, { 128,-2969 },
+ { 129,-2969 }, { 130,-2969 }, { 131,-2969 }, { 132,-2969 }, { 133,-2969 },
+ { 134,-2969 }, { 135,-2969 }, { 136,-2969 }, { 137,-2969 }, { 138,-2969 },
+ { 139,-2969 }, { 140,-2969 }, { 141,-2969 }, { 142,-2969 }, { 143,-2969 },
+ { 144,-2969 }, { 145,-2969 }, { 146,-2969 }, { 147,-2969 }, { 148,-2969 },
+ { 149,-2969 }, { 150,-2969 }, { 151,-2969 }, { 152,-2969 }, { 153,-2969 },
+
+ { 154,-2969 }, { 155,-2969 }, { 156,-2969 }, { 157,-2969 }, { 158,-2969 },
+ { 159,-2969 }, { 160,-2969 }, { 161,-2969 }, { 162,-2969 }, { 163,-2969 },
+ { 164,-2969 }, { 165,-2969 }, { 166,-2969 }, { 167,-2969 }, { 168,-2969 },
+ { 169,-2969 }, { 170,-2969 }, { 171,-2969 }, { 172,-2969 }, { 173,-2969 },
+ { 174,-2969 }, { 175,-2969 }, { 176,-2969 }, { 177,-2969 }, { 178,-2969 },
+ { 179,-2969 }, { 180,-2969 }, { 181,-2969 }, { 182,-2969 }, { 183,-2969 },
+ { 184,-2969 }, { 185,-2969 }, { 186,-2969 }, { 187,-2969 }, { 188,-2969 },
+ { 189,-2969 }, { 190,-2969 }, { 191,-2969 }, { 192,-2969 }, { 193,-2969 },
+ { 194,-2969 }, { 195,-2969 }, { 196,-2969 }, { 197,-2969 }, { 198,-2969 },
+ { 199,-2969 }, { 200,-2969 }, { 201,-2969 }, { 202,-2969 }, { 203,-2969 },
+
+ { 204,-2969 }, { 205,-2969 }, { 206,-2969 }, { 207,-2969 }, { 208,-2969 },
+ { 209,-2969 }, { 210,-2969 }, { 211,-2969 }, { 212,-2969 }, { 213,-2969 },
+ { 214,-2969 }, { 215,-2969 }, { 216,-2969 }, { 217,-2969 }, { 218,-2969 },
+ { 219,-2969 }, { 220,-2969 }, { 221,-2969 }, { 222,-2969 }, { 223,-2969 },
+ { 224,-2969 }, { 225,-2969 }, { 226,-2969 }, { 227,-2969 }, { 228,-2969 },
+ { 229,-2969 }, { 230,-2969 }, { 231,-2969 }, { 232,-2969 }, { 233,-2969 },
+ { 234,-2969 }, { 235,-2969 }, { 236,-2969 }, { 237,-2969 }, { 238,-2969 },
+ { 239,-2969 }, { 240,-2969 }, { 241,-2969 }, { 242,-2969 }, { 243,-2969 },
+ { 244,-2969 }, { 245,-2969 }, { 246,-2969 }, { 247,-2969 }, { 248,-2969 },
+ { 249,-2969 }, { 250,-2969 }, { 251,-2969 }, { 252,-2969 }, { 253,-2969 },
+
+ { 254,-2969 }, { 255,-2969 }, { 256,-2969 }, {   0,   0 }, {   0, 653 },
+ {   0,   0 }, {   0, 651 }, {   1,-12908 }, {   2,-12908 }, {   3,-12908 },
+ {   4,-12908 }, {   5,-12908 }, {   6,-12908 }, {   7,-12908 }, {   8,-12908 },
+ {   9,-12933 }, {  10,-12933 }, {  11,-12908 }, {  12,-12908 }, {  13,-12933 },
+ {  14,-12908 }, {  15,-12908 }, {  16,-12908 }, {  17,-12908 }, {  18,-12908 },
+ {  19,-12908 }, {  20,-12908 }, {  21,-12908 }, {  22,-12908 }, {  23,-12908 },
+ {  24,-12908 }, {  25,-12908 }, {  26,-12908 }, {  27,-12908 }, {  28,-12908 },
+ {  29,-12908 }, {  30,-12908 }, {  31,-12908 }, {  32,-12933 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-12908 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-12933 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  45,-12908 }, {  46,-12933 }, {  47,-12933 }, {  48,-12908 },
+ {  49,-12908 }, {  50,-12908 }, {  51,-12908 }, {  52,-12908 }, {  53,-12908 },
+ {  54,-12908 }, {  55,-12908 }, {  56,-12908 }, {  57,-12908 }, {  58,-12908 },
+ {   0,   0 }, {   0,   0 }, {  61,-12933 }, {   0,   0 }, {  63,-12908 },
+ {   0,   0 }, {  65,-12908 }, {  66,-12908 }, {  67,-12908 }, {  68,-12908 },
+ {  69,-12908 }, {  70,-12908 }, {  71,-12908 }, {  72,-12908 }, {  73,-12908 },
+ {  74,-12908 }, {  75,-12908 }, {  76,-12908 }, {  77,-12908 }, {  78,-12908 },
+ {  79,-12908 }, {  80,-12908 }, {  81,-12908 }, {  82,-12908 }, {  83,-12908 },
+ {  84,-12908 }, {  85,-12908 }, {  86,-12908 }, {  87,-12908 }, {  88,-12908 },
+ {  89,-12908 }, {  90,-12908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {  95,-12908 }, {   0,   0 }, {  97,-12908 }, {  98,-12908 },
+ {  99,-12908 }, { 100, 393 }, { 101,-12908 }, { 102,-12908 }, { 103,-12908 },
+ { 104,-12908 }, { 105,-12908 }, { 106,-12908 }, { 107,-12908 }, { 108,-12908 },
+ { 109,-12908 }, { 110,-12908 }, { 111,-12908 }, { 112,-12908 }, { 113,-12908 },
+ { 114,-12908 }, { 115,-12908 }, { 116,-12908 }, { 117,-12908 }, { 118,-12908 },
+ { 119,-12908 }, { 120,-12908 }, { 121,-12908 }, { 122,-12908 }, { 125, 268 },
+ { 124,-12933 }, { 125,-12933 }, { 126,-12933 }, { 127,-12908 }, { 128,-12908 },
+ { 129,-12908 }, { 130,-12908 }, { 131,-12908 }, { 132,-12908 }, { 133,-12908 },
+ { 134,-12908 }, { 135,-12908 }, { 136,-12908 }, { 137,-12908 }, { 138,-12908 },
+ { 139,-12908 }, { 140,-12908 }, { 141,-12908 }, { 142,-12908 }, { 143,-12908 },
+
+ { 144,-12908 }, { 145,-12908 }, { 146,-12908 }, { 147,-12908 }, { 148,-12908 },
+ { 149,-12908 }, { 150,-12908 }, { 151,-12908 }, { 152,-12908 }, { 153,-12908 },
+ { 154,-12908 }, { 155,-12908 }, { 156,-12908 }, { 157,-12908 }, { 158,-12908 },
+ { 159,-12908 }, { 160,-12908 }, { 161,-12908 }, { 162,-12908 }, { 163,-12908 },
+ { 164,-12908 }, { 165,-12908 }, { 166,-12908 }, { 167,-12908 }, { 168,-12908 },
+ { 169,-12908 }, { 170,-12908 }, { 171,-12908 }, { 172,-12908 }, { 173,-12908 },
+ { 174,-12908 }, { 175,-12908 }, { 176,-12908 }, { 177,-12908 }, { 178,-12908 },
+ { 179,-12908 }, { 180,-12908 }, { 181,-12908 }, { 182,-12908 }, { 183,-12908 },
+ { 184,-12908 }, { 185,-12908 }, { 186,-12908 }, { 187,-12908 }, { 188,-12908 },
+ { 189,-12908 }, { 190,-12908 }, { 191,-12908 }, { 192,-12908 }, { 193,-12908 },
+
+ { 194,-12908 }, { 195,-12908 }, { 196,-12908 }, { 197,-12908 }, { 198,-12908 },
+ { 199,-12908 }, { 200,-12908 }, { 201,-12908 }, { 202,-12908 }, { 203,-12908 },
+ { 204,-12908 }, { 205,-12908 }, { 206,-12908 }, { 207,-12908 }, { 208,-12908 },
+ { 209,-12908 }, { 210,-12908 }, { 211,-12908 }, { 212,-12908 }, { 213,-12908 },
+ { 214,-12908 }, { 215,-12908 }, { 216,-12908 }, { 217,-12908 }, { 218,-12908 },
+ { 219,-12908 }, { 220,-12908 }, { 221,-12908 }, { 222,-12908 }, { 223,-12908 },
+ { 224,-12908 }, { 225,-12908 }, { 226,-12908 }, { 227,-12908 }, { 228,-12908 },
+ { 229,-12908 }, { 230,-12908 }, { 231,-12908 }, { 232,-12908 }, { 233,-12908 },
+ { 234,-12908 }, { 235,-12908 }, { 236,-12908 }, { 237,-12908 }, { 238,-12908 },
+ { 239,-12908 }, { 240,-12908 }, { 241,-12908 }, { 242,-12908 }, { 243,-12908 },
+
+ { 244,-12908 }, { 245,-12908 }, { 246,-12908 }, { 247,-12908 }, { 248,-12908 },
+ { 249,-12908 }, { 250,-12908 }, { 251,-12908 }, { 252,-12908 }, { 253,-12908 },
+ { 254,-12908 }, { 255,-12908 }, { 256,-12908 }, {   0,   0 }, {   0, 393 },
+ {   0,   0 }, {   0, 391 }, {   0,   0 }, {   0, 389 }, {   0,  23 },
+ {   0, 387 }, {   0,   0 }, {   0, 385 }, {   9,   0 }, {  10,   0 },
+ {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0, 350 }, {   0,  45 }, {   0, 348 },
+ {   0,   9 }, {   0, 346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
+ { 126,   4 }, { 125,   4 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,  35 }, {   0,   0 }, {   0, 258 },
+
+ {   1,-13301 }, {   2,-13301 }, {   3,-13301 }, {   4,-13301 }, {   5,-13301 },
+ {   6,-13301 }, {   7,-13301 }, {   8,-13301 }, {   9, -90 }, {  10, -90 },
+ {  11,-13301 }, {  12,-13301 }, {  13, -90 }, {  14,-13301 }, {  15,-13301 },
+ {  16,-13301 }, {  17,-13301 }, {  18,-13301 }, {  19,-13301 }, {  20,-13301 },
+ {  21,-13301 }, {  22,-13301 }, {  23,-13301 }, {  24,-13301 }, {  25,-13301 },
+ {  26,-13301 }, {  27,-13301 }, {  28,-13301 }, {  29,-13301 }, {  30,-13301 },
+ {  31,-13301 }, {  32, -90 }, { 125,   4 }, {   0,   0 }, {   0,   0 },
+ {  36,-13301 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41, -90 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-13301 },
+ {  46,-13326 }, {  47,-13326 }, {  48,-13301 }, {  49,-13301 }, {  50,-13301 },
+
+ {  51,-13301 }, {  52,-13301 }, {  53,-13301 }, {  54,-13301 }, {  55,-13301 },
+ {  56,-13301 }, {  57,-13301 }, {  58,-13301 }, {   0,   0 }, {   0,   0 },
+ {  61,-13326 }, {   0,   0 }, {  63,-13301 }, {   0,   0 }, {  65,-13301 },
+ {  66,-13301 }, {  67,-13301 }, {  68,-13301 }, {  69,-13301 }, {  70,-13301 },
+ {  71,-13301 }, {  72,-13301 }, {  73,-13301 }, {  74,-13301 }, {  75,-13301 },
+ {  76,-13301 }, {  77,-13301 }, {  78,-13301 }, {  79,-13301 }, {  80,-13301 },
+ {  81,-13301 }, {  82,-13301 }, {  83,-13301 }, {  84,-13301 }, {  85,-13301 },
+ {  86,-13301 }, {  87,-13301 }, {  88,-13301 }, {  89,-13301 }, {  90,-13301 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-13301 },
+ {   0,   0 }, {  97,-13301 }, {  98,-13301 }, {  99,-13301 }, { 100,-13301 },
+
+ { 101,-13301 }, { 102,-13301 }, { 103,-13301 }, { 104,-13301 }, { 105,-13301 },
+ { 106,-13301 }, { 107,-13301 }, { 108,-13301 }, { 109,-13301 }, { 110,-13301 },
+ { 111,-13301 }, { 112,-13301 }, { 113,-13301 }, { 114,-13301 }, { 115,-13301 },
+ { 116,-13301 }, { 117,-13301 }, { 118,-13301 }, { 119,-13301 }, { 120,-13301 },
+ { 121,-13301 }, { 122,-13301 }, {   0,   0 }, { 124,-13326 }, { 125, -90 },
+ { 126, -90 }, { 127,-13301 }, { 128,-13301 }, { 129,-13301 }, { 130,-13301 },
+ { 131,-13301 }, { 132,-13301 }, { 133,-13301 }, { 134,-13301 }, { 135,-13301 },
+ { 136,-13301 }, { 137,-13301 }, { 138,-13301 }, { 139,-13301 }, { 140,-13301 },
+ { 141,-13301 }, { 142,-13301 }, { 143,-13301 }, { 144,-13301 }, { 145,-13301 },
+ { 146,-13301 }, { 147,-13301 }, { 148,-13301 }, { 149,-13301 }, { 150,-13301 },
+
+ { 151,-13301 }, { 152,-13301 }, { 153,-13301 }, { 154,-13301 }, { 155,-13301 },
+ { 156,-13301 }, { 157,-13301 }, { 158,-13301 }, { 159,-13301 }, { 160,-13301 },
+ { 161,-13301 }, { 162,-13301 }, { 163,-13301 }, { 164,-13301 }, { 165,-13301 },
+ { 166,-13301 }, { 167,-13301 }, { 168,-13301 }, { 169,-13301 }, { 170,-13301 },
+ { 171,-13301 }, { 172,-13301 }, { 173,-13301 }, { 174,-13301 }, { 175,-13301 },
+ { 176,-13301 }, { 177,-13301 }, { 178,-13301 }, { 179,-13301 }, { 180,-13301 },
+ { 181,-13301 }, { 182,-13301 }, { 183,-13301 }, { 184,-13301 }, { 185,-13301 },
+ { 186,-13301 }, { 187,-13301 }, { 188,-13301 }, { 189,-13301 }, { 190,-13301 },
+ { 191,-13301 }, { 192,-13301 }, { 193,-13301 }, { 194,-13301 }, { 195,-13301 },
+ { 196,-13301 }, { 197,-13301 }, { 198,-13301 }, { 199,-13301 }, { 200,-13301 },
+
+ { 201,-13301 }, { 202,-13301 }, { 203,-13301 }, { 204,-13301 }, { 205,-13301 },
+ { 206,-13301 }, { 207,-13301 }, { 208,-13301 }, { 209,-13301 }, { 210,-13301 },
+ { 211,-13301 }, { 212,-13301 }, { 213,-13301 }, { 214,-13301 }, { 215,-13301 },
+ { 216,-13301 }, { 217,-13301 }, { 218,-13301 }, { 219,-13301 }, { 220,-13301 },
+ { 221,-13301 }, { 222,-13301 }, { 223,-13301 }, { 224,-13301 }, { 225,-13301 },
+ { 226,-13301 }, { 227,-13301 }, { 228,-13301 }, { 229,-13301 }, { 230,-13301 },
+ { 231,-13301 }, { 232,-13301 }, { 233,-13301 }, { 234,-13301 }, { 235,-13301 },
+ { 236,-13301 }, { 237,-13301 }, { 238,-13301 }, { 239,-13301 }, { 240,-13301 },
+ { 241,-13301 }, { 242,-13301 }, { 243,-13301 }, { 244,-13301 }, { 245,-13301 },
+ { 246,-13301 }, { 247,-13301 }, { 248,-13301 }, { 249,-13301 }, { 250,-13301 },
+
+ { 251,-13301 }, { 252,-13301 }, { 253,-13301 }, { 254,-13301 }, { 255,-13301 },
+ { 256,-13301 }, { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5131,9 +5437,10 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5135 "handlebars.lex.c"
+#line 5441 "handlebars.lex.c"
 
-#line 5137 "handlebars.lex.c"
+/* From one "-" of a long comment to a later one, without passing "--}}" or "--~}}" */
+#line 5444 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5412,11 +5719,11 @@ YY_DECL
 		}
 
 	{
-#line 137 "handlebars.l"
+#line 141 "handlebars.l"
 
 
 
-#line 5420 "handlebars.lex.c"
+#line 5727 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5483,7 +5790,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 140 "handlebars.l"
+#line 144 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5496,7 +5803,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 149 "handlebars.l"
+#line 153 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5505,7 +5812,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 155 "handlebars.l"
+#line 159 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5520,7 +5827,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 166 "handlebars.l"
+#line 170 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5531,7 +5838,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 174 "handlebars.l"
+#line 178 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5540,7 +5847,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 180 "handlebars.l"
+#line 184 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5548,7 +5855,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "handlebars.l"
+#line 189 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5562,7 +5869,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 191 "handlebars.l"
+#line 195 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5571,7 +5878,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "handlebars.l"
+#line 201 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5589,7 +5896,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 211 "handlebars.l"
+#line 215 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5598,7 +5905,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 217 "handlebars.l"
+#line 221 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5607,7 +5914,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 222 "handlebars.l"
+#line 226 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5620,7 +5927,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 235 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5630,7 +5937,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 238 "handlebars.l"
+#line 242 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5639,7 +5946,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 248 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5648,7 +5955,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 250 "handlebars.l"
+#line 254 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5657,7 +5964,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 260 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5668,7 +5975,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 268 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5677,7 +5984,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5686,7 +5993,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 280 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5695,7 +6002,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 286 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5705,7 +6012,7 @@ YY_RULE_SETUP
 case 22:
 /* rule 22 can match eol */
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 292 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5716,7 +6023,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 295 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5726,7 +6033,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 306 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5740,7 +6047,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 312 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -5749,7 +6056,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 318 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -5758,7 +6065,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -5767,7 +6074,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5777,7 +6084,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 333 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5787,7 +6094,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 344 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -5796,7 +6103,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 350 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5805,7 +6112,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 356 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -5819,7 +6126,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -5828,7 +6135,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -5838,7 +6145,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -5846,7 +6153,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 379 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5856,7 +6163,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 386 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5867,7 +6174,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 389 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5880,7 +6187,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 402 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5892,7 +6199,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 411 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -5902,7 +6209,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 417 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -5911,7 +6218,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 419 "handlebars.l"
+#line 423 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -5925,7 +6232,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 429 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -5939,7 +6246,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 435 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -5953,7 +6260,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 441 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -5967,7 +6274,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 447 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -5981,7 +6288,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 453 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -5995,7 +6302,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 456 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -6005,7 +6312,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 462 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6018,7 +6325,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 476 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6031,7 +6338,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 478 "handlebars.l"
+#line 482 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6039,10 +6346,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6046 "handlebars.lex.c"
+#line 6353 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7250,6 +7557,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index f0d06e3..1147b9e 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 483 "handlebars.l"
+#line 487 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From c05eac69bf81321afc993d8a8b46e1f22e52ce38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 05/98] fix: an unterminated comment is a parse error

Its text was written to stdout by the default rule of the scanner and the
template was accepted without it.
---
 src/handlebars.l     |    6 +
 src/handlebars.lex.c | 3163 +++++++++++++++++++++---------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 1607 insertions(+), 1564 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 4c78f91..74519d0 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -239,6 +239,12 @@ COM_DASH  {COM_SKIP}[^-]*"-"|"-"+("}"|"~"|"~}")"-"
   										return COMMENT;
 									}
 
+<com,com1>.|\n                      {
+										// not terminated
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <mu>"("                          	{
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index ed3c207..e134b9c 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -592,16 +592,16 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[21662] =
+static const struct yy_trans_info yy_transition[21787] =
     {
- {   0,   0 }, {   0,21406 }, {   0,   2 }, {   0,21404 }, {   1,3096 },
+ {   0,   0 }, {   0,21531 }, {   0,   2 }, {   0,21529 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -658,7 +658,7 @@ static const struct yy_trans_info yy_transition[21662] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,21146 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,21271 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -714,7 +714,7 @@ static const struct yy_trans_info yy_transition[21662] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20888 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,21013 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -771,7 +771,7 @@ static const struct yy_trans_info yy_transition[21662] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,20630 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20755 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -828,7 +828,7 @@ static const struct yy_trans_info yy_transition[21662] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,20372 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20497 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -884,7 +884,7 @@ static const struct yy_trans_info yy_transition[21662] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,20114 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,20239 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -942,4375 +942,4402 @@ static const struct yy_trans_info yy_transition[21662] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19856 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
- {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
- {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
- {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
- {  19,1811 }, {  20,1811 }, {  21,1811 }, {  22,1811 }, {  23,1811 },
- {  24,1811 }, {  25,1811 }, {  26,1811 }, {  27,1811 }, {  28,1811 },
- {  29,1811 }, {  30,1811 }, {  31,1811 }, {  32,1811 }, {  33,1811 },
- {  34,1811 }, {  35,1811 }, {  36,1811 }, {  37,1811 }, {  38,1811 },
- {  39,1811 }, {  40,1811 }, {  41,1811 }, {  42,1811 }, {  43,1811 },
- {  44,1811 }, {  45,1811 }, {  46,1811 }, {  47,1811 }, {  48,1811 },
-
- {  49,1811 }, {  50,1811 }, {  51,1811 }, {  52,1811 }, {  53,1811 },
- {  54,1811 }, {  55,1811 }, {  56,1811 }, {  57,1811 }, {  58,1811 },
- {  59,1811 }, {  60,1811 }, {  61,1811 }, {  62,1811 }, {  63,1811 },
- {  64,1811 }, {  65,1811 }, {  66,1811 }, {  67,1811 }, {  68,1811 },
- {  69,1811 }, {  70,1811 }, {  71,1811 }, {  72,1811 }, {  73,1811 },
- {  74,1811 }, {  75,1811 }, {  76,1811 }, {  77,1811 }, {  78,1811 },
- {  79,1811 }, {  80,1811 }, {  81,1811 }, {  82,1811 }, {  83,1811 },
- {  84,1811 }, {  85,1811 }, {  86,1811 }, {  87,1811 }, {  88,1811 },
- {  89,1811 }, {  90,1811 }, {  91,1811 }, {  92,1811 }, {  93,1811 },
- {  94,1811 }, {  95,1811 }, {  96,1811 }, {  97,1811 }, {  98,1811 },
-
- {  99,1811 }, { 100,1811 }, { 101,1811 }, { 102,1811 }, { 103,1811 },
- { 104,1811 }, { 105,1811 }, { 106,1811 }, { 107,1811 }, { 108,1811 },
- { 109,1811 }, { 110,1811 }, { 111,1811 }, { 112,1811 }, { 113,1811 },
- { 114,1811 }, { 115,1811 }, { 116,1811 }, { 117,1811 }, { 118,1811 },
- { 119,1811 }, { 120,1811 }, { 121,1811 }, { 122,1811 }, { 123,3278 },
- { 124,1811 }, { 125,1811 }, { 126,1811 }, { 127,1811 }, { 128,1811 },
- { 129,1811 }, { 130,1811 }, { 131,1811 }, { 132,1811 }, { 133,1811 },
- { 134,1811 }, { 135,1811 }, { 136,1811 }, { 137,1811 }, { 138,1811 },
- { 139,1811 }, { 140,1811 }, { 141,1811 }, { 142,1811 }, { 143,1811 },
- { 144,1811 }, { 145,1811 }, { 146,1811 }, { 147,1811 }, { 148,1811 },
-
- { 149,1811 }, { 150,1811 }, { 151,1811 }, { 152,1811 }, { 153,1811 },
- { 154,1811 }, { 155,1811 }, { 156,1811 }, { 157,1811 }, { 158,1811 },
- { 159,1811 }, { 160,1811 }, { 161,1811 }, { 162,1811 }, { 163,1811 },
- { 164,1811 }, { 165,1811 }, { 166,1811 }, { 167,1811 }, { 168,1811 },
- { 169,1811 }, { 170,1811 }, { 171,1811 }, { 172,1811 }, { 173,1811 },
- { 174,1811 }, { 175,1811 }, { 176,1811 }, { 177,1811 }, { 178,1811 },
- { 179,1811 }, { 180,1811 }, { 181,1811 }, { 182,1811 }, { 183,1811 },
- { 184,1811 }, { 185,1811 }, { 186,1811 }, { 187,1811 }, { 188,1811 },
- { 189,1811 }, { 190,1811 }, { 191,1811 }, { 192,1811 }, { 193,1811 },
- { 194,1811 }, { 195,1811 }, { 196,1811 }, { 197,1811 }, { 198,1811 },
-
- { 199,1811 }, { 200,1811 }, { 201,1811 }, { 202,1811 }, { 203,1811 },
- { 204,1811 }, { 205,1811 }, { 206,1811 }, { 207,1811 }, { 208,1811 },
- { 209,1811 }, { 210,1811 }, { 211,1811 }, { 212,1811 }, { 213,1811 },
- { 214,1811 }, { 215,1811 }, { 216,1811 }, { 217,1811 }, { 218,1811 },
- { 219,1811 }, { 220,1811 }, { 221,1811 }, { 222,1811 }, { 223,1811 },
- { 224,1811 }, { 225,1811 }, { 226,1811 }, { 227,1811 }, { 228,1811 },
- { 229,1811 }, { 230,1811 }, { 231,1811 }, { 232,1811 }, { 233,1811 },
- { 234,1811 }, { 235,1811 }, { 236,1811 }, { 237,1811 }, { 238,1811 },
- { 239,1811 }, { 240,1811 }, { 241,1811 }, { 242,1811 }, { 243,1811 },
- { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
-
- { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19598 },
- {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
- {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
- {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
- {  16,1553 }, {  17,1553 }, {  18,1553 }, {  19,1553 }, {  20,1553 },
- {  21,1553 }, {  22,1553 }, {  23,1553 }, {  24,1553 }, {  25,1553 },
- {  26,1553 }, {  27,1553 }, {  28,1553 }, {  29,1553 }, {  30,1553 },
- {  31,1553 }, {  32,1553 }, {  33,1553 }, {  34,1553 }, {  35,1553 },
- {  36,1553 }, {  37,1553 }, {  38,1553 }, {  39,1553 }, {  40,1553 },
-
- {  41,1553 }, {  42,1553 }, {  43,1553 }, {  44,1553 }, {  45,1553 },
- {  46,1553 }, {  47,1553 }, {  48,1553 }, {  49,1553 }, {  50,1553 },
- {  51,1553 }, {  52,1553 }, {  53,1553 }, {  54,1553 }, {  55,1553 },
- {  56,1553 }, {  57,1553 }, {  58,1553 }, {  59,1553 }, {  60,1553 },
- {  61,1553 }, {  62,1553 }, {  63,1553 }, {  64,1553 }, {  65,1553 },
- {  66,1553 }, {  67,1553 }, {  68,1553 }, {  69,1553 }, {  70,1553 },
- {  71,1553 }, {  72,1553 }, {  73,1553 }, {  74,1553 }, {  75,1553 },
- {  76,1553 }, {  77,1553 }, {  78,1553 }, {  79,1553 }, {  80,1553 },
- {  81,1553 }, {  82,1553 }, {  83,1553 }, {  84,1553 }, {  85,1553 },
- {  86,1553 }, {  87,1553 }, {  88,1553 }, {  89,1553 }, {  90,1553 },
-
- {  91,1553 }, {  92,1553 }, {  93,1553 }, {  94,1553 }, {  95,1553 },
- {  96,1553 }, {  97,1553 }, {  98,1553 }, {  99,1553 }, { 100,1553 },
- { 101,1553 }, { 102,1553 }, { 103,1553 }, { 104,1553 }, { 105,1553 },
- { 106,1553 }, { 107,1553 }, { 108,1553 }, { 109,1553 }, { 110,1553 },
- { 111,1553 }, { 112,1553 }, { 113,1553 }, { 114,1553 }, { 115,1553 },
- { 116,1553 }, { 117,1553 }, { 118,1553 }, { 119,1553 }, { 120,1553 },
- { 121,1553 }, { 122,1553 }, { 123,3020 }, { 124,1553 }, { 125,1553 },
- { 126,1553 }, { 127,1553 }, { 128,1553 }, { 129,1553 }, { 130,1553 },
- { 131,1553 }, { 132,1553 }, { 133,1553 }, { 134,1553 }, { 135,1553 },
- { 136,1553 }, { 137,1553 }, { 138,1553 }, { 139,1553 }, { 140,1553 },
-
- { 141,1553 }, { 142,1553 }, { 143,1553 }, { 144,1553 }, { 145,1553 },
- { 146,1553 }, { 147,1553 }, { 148,1553 }, { 149,1553 }, { 150,1553 },
- { 151,1553 }, { 152,1553 }, { 153,1553 }, { 154,1553 }, { 155,1553 },
- { 156,1553 }, { 157,1553 }, { 158,1553 }, { 159,1553 }, { 160,1553 },
- { 161,1553 }, { 162,1553 }, { 163,1553 }, { 164,1553 }, { 165,1553 },
- { 166,1553 }, { 167,1553 }, { 168,1553 }, { 169,1553 }, { 170,1553 },
- { 171,1553 }, { 172,1553 }, { 173,1553 }, { 174,1553 }, { 175,1553 },
- { 176,1553 }, { 177,1553 }, { 178,1553 }, { 179,1553 }, { 180,1553 },
- { 181,1553 }, { 182,1553 }, { 183,1553 }, { 184,1553 }, { 185,1553 },
- { 186,1553 }, { 187,1553 }, { 188,1553 }, { 189,1553 }, { 190,1553 },
-
- { 191,1553 }, { 192,1553 }, { 193,1553 }, { 194,1553 }, { 195,1553 },
- { 196,1553 }, { 197,1553 }, { 198,1553 }, { 199,1553 }, { 200,1553 },
- { 201,1553 }, { 202,1553 }, { 203,1553 }, { 204,1553 }, { 205,1553 },
- { 206,1553 }, { 207,1553 }, { 208,1553 }, { 209,1553 }, { 210,1553 },
- { 211,1553 }, { 212,1553 }, { 213,1553 }, { 214,1553 }, { 215,1553 },
- { 216,1553 }, { 217,1553 }, { 218,1553 }, { 219,1553 }, { 220,1553 },
- { 221,1553 }, { 222,1553 }, { 223,1553 }, { 224,1553 }, { 225,1553 },
- { 226,1553 }, { 227,1553 }, { 228,1553 }, { 229,1553 }, { 230,1553 },
- { 231,1553 }, { 232,1553 }, { 233,1553 }, { 234,1553 }, { 235,1553 },
- { 236,1553 }, { 237,1553 }, { 238,1553 }, { 239,1553 }, { 240,1553 },
-
- { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
- { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
- { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,19340 }, {   1,4595 }, {   2,4595 },
- {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
- {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
- {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
- {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 }, {  22,4595 },
- {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 }, {  27,4595 },
- {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 }, {  32,4595 },
-
- {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 }, {  37,4595 },
- {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 }, {  42,4595 },
- {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 }, {  47,4595 },
- {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 }, {  52,4595 },
- {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 }, {  57,4595 },
- {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 }, {  62,4595 },
- {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 }, {  67,4595 },
- {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 }, {  72,4595 },
- {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 }, {  77,4595 },
- {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 }, {  82,4595 },
-
- {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 }, {  87,4595 },
- {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 }, {  92,4595 },
- {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 }, {  97,4595 },
- {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 }, { 102,4595 },
- { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 }, { 107,4595 },
- { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 }, { 112,4595 },
- { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 }, { 117,4595 },
- { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 }, { 122,4595 },
- { 123,4595 }, { 124,4595 }, { 125,4853 }, { 126,4595 }, { 127,4595 },
- { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 }, { 132,4595 },
-
- { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 }, { 137,4595 },
- { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 }, { 142,4595 },
- { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 }, { 147,4595 },
- { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 }, { 152,4595 },
- { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 }, { 157,4595 },
- { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 }, { 162,4595 },
- { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 }, { 167,4595 },
- { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 }, { 172,4595 },
- { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 }, { 177,4595 },
- { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 }, { 182,4595 },
-
- { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 }, { 187,4595 },
- { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 }, { 192,4595 },
- { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 }, { 197,4595 },
- { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 }, { 202,4595 },
- { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 }, { 207,4595 },
- { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 }, { 212,4595 },
- { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 }, { 217,4595 },
- { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 }, { 222,4595 },
- { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 }, { 227,4595 },
- { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 }, { 232,4595 },
-
- { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 }, { 237,4595 },
- { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 }, { 242,4595 },
- { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
- { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
- { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,19082 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
- {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
- {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
- {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
- {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 }, {  24,4337 },
-
- {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 }, {  29,4337 },
- {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 }, {  34,4337 },
- {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 }, {  39,4337 },
- {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 }, {  44,4337 },
- {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 }, {  49,4337 },
- {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 },
- {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 }, {  59,4337 },
- {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 }, {  64,4337 },
- {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 }, {  69,4337 },
- {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 }, {  74,4337 },
-
- {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 }, {  79,4337 },
- {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 }, {  84,4337 },
- {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 }, {  89,4337 },
- {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 }, {  94,4337 },
- {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 }, {  99,4337 },
- { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 }, { 104,4337 },
- { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 }, { 109,4337 },
- { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 }, { 114,4337 },
- { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 }, { 119,4337 },
- { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4337 }, { 124,4337 },
-
- { 125,4595 }, { 126,4337 }, { 127,4337 }, { 128,4337 }, { 129,4337 },
- { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 }, { 134,4337 },
- { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 }, { 139,4337 },
- { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 }, { 144,4337 },
- { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 }, { 149,4337 },
- { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 }, { 154,4337 },
- { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 }, { 159,4337 },
- { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 }, { 164,4337 },
- { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 }, { 169,4337 },
- { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 }, { 174,4337 },
-
- { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 }, { 179,4337 },
- { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 }, { 184,4337 },
- { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 }, { 189,4337 },
- { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 }, { 194,4337 },
- { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 }, { 199,4337 },
- { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 }, { 204,4337 },
- { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 }, { 209,4337 },
- { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 }, { 214,4337 },
- { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 }, { 219,4337 },
- { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 }, { 224,4337 },
-
- { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 }, { 229,4337 },
- { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 }, { 234,4337 },
- { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 }, { 239,4337 },
- { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
- { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
- { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18824 }, {   1,4595 },
- {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
- {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
- {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
-
- {  17,4595 }, {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 },
- {  22,4595 }, {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 },
- {  27,4595 }, {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 },
- {  32,4595 }, {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 },
- {  37,4595 }, {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 },
- {  42,4595 }, {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 },
- {  47,4595 }, {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 },
- {  52,4595 }, {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 },
- {  57,4595 }, {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 },
- {  62,4595 }, {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 },
-
- {  67,4595 }, {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 },
- {  72,4595 }, {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 },
- {  77,4595 }, {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 },
- {  82,4595 }, {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 },
- {  87,4595 }, {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 },
- {  92,4595 }, {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 },
- {  97,4595 }, {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 },
- { 102,4595 }, { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 },
- { 107,4595 }, { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 },
- { 112,4595 }, { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 },
-
- { 117,4595 }, { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 },
- { 122,4595 }, { 123,4852 }, { 124,4595 }, { 125,4595 }, { 126,4595 },
- { 127,4595 }, { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 },
- { 132,4595 }, { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 },
- { 137,4595 }, { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 },
- { 142,4595 }, { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 },
- { 147,4595 }, { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 },
- { 152,4595 }, { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 },
- { 157,4595 }, { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 },
- { 162,4595 }, { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 },
-
- { 167,4595 }, { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 },
- { 172,4595 }, { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 },
- { 177,4595 }, { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 },
- { 182,4595 }, { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 },
- { 187,4595 }, { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 },
- { 192,4595 }, { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 },
- { 197,4595 }, { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 },
- { 202,4595 }, { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 },
- { 207,4595 }, { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 },
- { 212,4595 }, { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 },
-
- { 217,4595 }, { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 },
- { 222,4595 }, { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 },
- { 227,4595 }, { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 },
- { 232,4595 }, { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 },
- { 237,4595 }, { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 },
- { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
- { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
- { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,18566 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
- {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
-
- {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
- {  14,4337 }, {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 },
- {  19,4337 }, {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 },
- {  24,4337 }, {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 },
- {  29,4337 }, {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 },
- {  34,4337 }, {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 },
- {  39,4337 }, {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 },
- {  44,4337 }, {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 },
- {  49,4337 }, {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 },
- {  54,4337 }, {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 },
-
- {  59,4337 }, {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 },
- {  64,4337 }, {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 },
- {  69,4337 }, {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 },
- {  74,4337 }, {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 },
- {  79,4337 }, {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 },
- {  84,4337 }, {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 },
- {  89,4337 }, {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 },
- {  94,4337 }, {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 },
- {  99,4337 }, { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 },
- { 104,4337 }, { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 },
-
- { 109,4337 }, { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 },
- { 114,4337 }, { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 },
- { 119,4337 }, { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4594 },
- { 124,4337 }, { 125,4337 }, { 126,4337 }, { 127,4337 }, { 128,4337 },
- { 129,4337 }, { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 },
- { 134,4337 }, { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 },
- { 139,4337 }, { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 },
- { 144,4337 }, { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 },
- { 149,4337 }, { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 },
- { 154,4337 }, { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 },
-
- { 159,4337 }, { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 },
- { 164,4337 }, { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 },
- { 169,4337 }, { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 },
- { 174,4337 }, { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 },
- { 179,4337 }, { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 },
- { 184,4337 }, { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 },
- { 189,4337 }, { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 },
- { 194,4337 }, { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 },
- { 199,4337 }, { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 },
- { 204,4337 }, { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 },
-
- { 209,4337 }, { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 },
- { 214,4337 }, { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 },
- { 219,4337 }, { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 },
- { 224,4337 }, { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 },
- { 229,4337 }, { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 },
- { 234,4337 }, { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 },
- { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
- { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
- { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18308 },
-
- {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
- {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
- {  11,4461 }, {  12,4461 }, {  13,4338 }, {  14,4461 }, {  15,4461 },
- {  16,4461 }, {  17,4461 }, {  18,4461 }, {  19,4461 }, {  20,4461 },
- {  21,4461 }, {  22,4461 }, {  23,4461 }, {  24,4461 }, {  25,4461 },
- {  26,4461 }, {  27,4461 }, {  28,4461 }, {  29,4461 }, {  30,4461 },
- {  31,4461 }, {  32,4461 }, {  33,4461 }, {  34,4461 }, {  35,4461 },
- {  36,4461 }, {  37,4461 }, {  38,4461 }, {  39,4461 }, {  40,4461 },
- {  41,4461 }, {  42,4461 }, {  43,4461 }, {  44,4461 }, {  45,4461 },
- {  46,4461 }, {  47,4461 }, {  48,4461 }, {  49,4461 }, {  50,4461 },
-
- {  51,4461 }, {  52,4461 }, {  53,4461 }, {  54,4461 }, {  55,4461 },
- {  56,4461 }, {  57,4461 }, {  58,4461 }, {  59,4461 }, {  60,4461 },
- {  61,4461 }, {  62,4461 }, {  63,4461 }, {  64,4461 }, {  65,4461 },
- {  66,4461 }, {  67,4461 }, {  68,4461 }, {  69,4461 }, {  70,4461 },
- {  71,4461 }, {  72,4461 }, {  73,4461 }, {  74,4461 }, {  75,4461 },
- {  76,4461 }, {  77,4461 }, {  78,4461 }, {  79,4461 }, {  80,4461 },
- {  81,4461 }, {  82,4461 }, {  83,4461 }, {  84,4461 }, {  85,4461 },
- {  86,4461 }, {  87,4461 }, {  88,4461 }, {  89,4461 }, {  90,4461 },
- {  91,4461 }, {  92,4340 }, {  93,4461 }, {  94,4461 }, {  95,4461 },
- {  96,4461 }, {  97,4461 }, {  98,4461 }, {  99,4461 }, { 100,4461 },
-
- { 101,4461 }, { 102,4461 }, { 103,4461 }, { 104,4461 }, { 105,4461 },
- { 106,4461 }, { 107,4461 }, { 108,4461 }, { 109,4461 }, { 110,4461 },
- { 111,4461 }, { 112,4461 }, { 113,4461 }, { 114,4461 }, { 115,4461 },
- { 116,4461 }, { 117,4461 }, { 118,4461 }, { 119,4461 }, { 120,4461 },
- { 121,4461 }, { 122,4461 }, {   0,   0 }, { 124,4461 }, { 125,4461 },
- { 126,4461 }, { 127,4461 }, { 128,4461 }, { 129,4461 }, { 130,4461 },
- { 131,4461 }, { 132,4461 }, { 133,4461 }, { 134,4461 }, { 135,4461 },
- { 136,4461 }, { 137,4461 }, { 138,4461 }, { 139,4461 }, { 140,4461 },
- { 141,4461 }, { 142,4461 }, { 143,4461 }, { 144,4461 }, { 145,4461 },
- { 146,4461 }, { 147,4461 }, { 148,4461 }, { 149,4461 }, { 150,4461 },
-
- { 151,4461 }, { 152,4461 }, { 153,4461 }, { 154,4461 }, { 155,4461 },
- { 156,4461 }, { 157,4461 }, { 158,4461 }, { 159,4461 }, { 160,4461 },
- { 161,4461 }, { 162,4461 }, { 163,4461 }, { 164,4461 }, { 165,4461 },
- { 166,4461 }, { 167,4461 }, { 168,4461 }, { 169,4461 }, { 170,4461 },
- { 171,4461 }, { 172,4461 }, { 173,4461 }, { 174,4461 }, { 175,4461 },
- { 176,4461 }, { 177,4461 }, { 178,4461 }, { 179,4461 }, { 180,4461 },
- { 181,4461 }, { 182,4461 }, { 183,4461 }, { 184,4461 }, { 185,4461 },
- { 186,4461 }, { 187,4461 }, { 188,4461 }, { 189,4461 }, { 190,4461 },
- { 191,4461 }, { 192,4461 }, { 193,4461 }, { 194,4461 }, { 195,4461 },
- { 196,4461 }, { 197,4461 }, { 198,4461 }, { 199,4461 }, { 200,4461 },
-
- { 201,4461 }, { 202,4461 }, { 203,4461 }, { 204,4461 }, { 205,4461 },
- { 206,4461 }, { 207,4461 }, { 208,4461 }, { 209,4461 }, { 210,4461 },
- { 211,4461 }, { 212,4461 }, { 213,4461 }, { 214,4461 }, { 215,4461 },
- { 216,4461 }, { 217,4461 }, { 218,4461 }, { 219,4461 }, { 220,4461 },
- { 221,4461 }, { 222,4461 }, { 223,4461 }, { 224,4461 }, { 225,4461 },
- { 226,4461 }, { 227,4461 }, { 228,4461 }, { 229,4461 }, { 230,4461 },
- { 231,4461 }, { 232,4461 }, { 233,4461 }, { 234,4461 }, { 235,4461 },
- { 236,4461 }, { 237,4461 }, { 238,4461 }, { 239,4461 }, { 240,4461 },
- { 241,4461 }, { 242,4461 }, { 243,4461 }, { 244,4461 }, { 245,4461 },
- { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
-
- { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,18051 }, {   0,   6 }, {   0,18049 }, {   0,   6 },
- {   0,18047 }, {   0,  51 }, {   0,18045 }, {   0,  35 }, {   0,18043 },
- {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,18036 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,18031 }, {  13,4742 }, {   0,  14 }, {   0,18028 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,18024 }, {  13,4735 },
- {   0,  34 }, {   0,18021 }, {   0,  31 }, {   0,18019 }, {   0,  40 },
- {   0,18017 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4083 }, {   0,   0 },
-
- {  92,4459 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,17922 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
- {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
- {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
-
- {  15,4075 }, {  16,4075 }, {  17,4075 }, {  18,4075 }, {  19,4075 },
- {  20,4075 }, {  21,4075 }, {  22,4075 }, {  23,4075 }, {  24,4075 },
- {  25,4075 }, {  26,4075 }, {  27,4075 }, {  28,4075 }, {  29,4075 },
- {  30,4075 }, {  31,4075 }, {  32,4075 }, {  33,4075 }, {  34,4075 },
- {  35,4075 }, {  36,4075 }, {  37,4075 }, {  38,4075 }, {  39,4075 },
- {  40,4075 }, {  41,4075 }, {  42,4075 }, {  43,4075 }, {  44,4075 },
- {  45,4075 }, {  46,4075 }, {  47,4075 }, {  48,4075 }, {  49,4075 },
- {  50,4075 }, {  51,4075 }, {  52,4075 }, {  53,4075 }, {  54,4075 },
- {  55,4075 }, {  56,4075 }, {  57,4075 }, {  58,4075 }, {  59,4075 },
- {  60,4075 }, {  61,4075 }, {  62,4075 }, {  63,4075 }, {  64,4075 },
-
- {  65,4075 }, {  66,4075 }, {  67,4075 }, {  68,4075 }, {  69,4075 },
- {  70,4075 }, {  71,4075 }, {  72,4075 }, {  73,4075 }, {  74,4075 },
- {  75,4075 }, {  76,4075 }, {  77,4075 }, {  78,4075 }, {  79,4075 },
- {  80,4075 }, {  81,4075 }, {  82,4075 }, {  83,4075 }, {  84,4075 },
- {  85,4075 }, {  86,4075 }, {  87,4075 }, {  88,4075 }, {  89,4075 },
- {  90,4075 }, {  91,4075 }, {  92,3954 }, {  93,4075 }, {  94,4075 },
- {  95,4075 }, {  96,4075 }, {  97,4075 }, {  98,4075 }, {  99,4075 },
- { 100,4075 }, { 101,4075 }, { 102,4075 }, { 103,4075 }, { 104,4075 },
- { 105,4075 }, { 106,4075 }, { 107,4075 }, { 108,4075 }, { 109,4075 },
- { 110,4075 }, { 111,4075 }, { 112,4075 }, { 113,4075 }, { 114,4075 },
-
- { 115,4075 }, { 116,4075 }, { 117,4075 }, { 118,4075 }, { 119,4075 },
- { 120,4075 }, { 121,4075 }, { 122,4075 }, {   0,   0 }, { 124,4075 },
- { 125,4075 }, { 126,4075 }, { 127,4075 }, { 128,4075 }, { 129,4075 },
- { 130,4075 }, { 131,4075 }, { 132,4075 }, { 133,4075 }, { 134,4075 },
- { 135,4075 }, { 136,4075 }, { 137,4075 }, { 138,4075 }, { 139,4075 },
- { 140,4075 }, { 141,4075 }, { 142,4075 }, { 143,4075 }, { 144,4075 },
- { 145,4075 }, { 146,4075 }, { 147,4075 }, { 148,4075 }, { 149,4075 },
- { 150,4075 }, { 151,4075 }, { 152,4075 }, { 153,4075 }, { 154,4075 },
- { 155,4075 }, { 156,4075 }, { 157,4075 }, { 158,4075 }, { 159,4075 },
- { 160,4075 }, { 161,4075 }, { 162,4075 }, { 163,4075 }, { 164,4075 },
-
- { 165,4075 }, { 166,4075 }, { 167,4075 }, { 168,4075 }, { 169,4075 },
- { 170,4075 }, { 171,4075 }, { 172,4075 }, { 173,4075 }, { 174,4075 },
- { 175,4075 }, { 176,4075 }, { 177,4075 }, { 178,4075 }, { 179,4075 },
- { 180,4075 }, { 181,4075 }, { 182,4075 }, { 183,4075 }, { 184,4075 },
- { 185,4075 }, { 186,4075 }, { 187,4075 }, { 188,4075 }, { 189,4075 },
- { 190,4075 }, { 191,4075 }, { 192,4075 }, { 193,4075 }, { 194,4075 },
- { 195,4075 }, { 196,4075 }, { 197,4075 }, { 198,4075 }, { 199,4075 },
- { 200,4075 }, { 201,4075 }, { 202,4075 }, { 203,4075 }, { 204,4075 },
- { 205,4075 }, { 206,4075 }, { 207,4075 }, { 208,4075 }, { 209,4075 },
- { 210,4075 }, { 211,4075 }, { 212,4075 }, { 213,4075 }, { 214,4075 },
-
- { 215,4075 }, { 216,4075 }, { 217,4075 }, { 218,4075 }, { 219,4075 },
- { 220,4075 }, { 221,4075 }, { 222,4075 }, { 223,4075 }, { 224,4075 },
- { 225,4075 }, { 226,4075 }, { 227,4075 }, { 228,4075 }, { 229,4075 },
- { 230,4075 }, { 231,4075 }, { 232,4075 }, { 233,4075 }, { 234,4075 },
- { 235,4075 }, { 236,4075 }, { 237,4075 }, { 238,4075 }, { 239,4075 },
- { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
- { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
- { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,17665 }, {   1,4106 }, {   2,4106 },
- {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
-
- {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
- {  13,4081 }, {  14,4106 }, {  15,4106 }, {  16,4106 }, {  17,4106 },
- {  18,4106 }, {  19,4106 }, {  20,4106 }, {  21,4106 }, {  22,4106 },
- {  23,4106 }, {  24,4106 }, {  25,4106 }, {  26,4106 }, {  27,4106 },
- {  28,4106 }, {  29,4106 }, {  30,4106 }, {  31,4106 }, {  32,4081 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4106 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4081 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4106 }, {  46,4081 }, {  47,4081 },
- {  48,4106 }, {  49,4106 }, {  50,4106 }, {  51,4106 }, {  52,4106 },
- {  53,4106 }, {  54,4106 }, {  55,4106 }, {  56,4106 }, {  57,4106 },
-
- {  58,4106 }, {   0,   0 }, {   0,   0 }, {  61,4081 }, {   0,   0 },
- {  63,4106 }, {   0,   0 }, {  65,4106 }, {  66,4106 }, {  67,4106 },
- {  68,4106 }, {  69,4106 }, {  70,4106 }, {  71,4106 }, {  72,4106 },
- {  73,4106 }, {  74,4106 }, {  75,4106 }, {  76,4106 }, {  77,4106 },
- {  78,4106 }, {  79,4106 }, {  80,4106 }, {  81,4106 }, {  82,4106 },
- {  83,4106 }, {  84,4106 }, {  85,4106 }, {  86,4106 }, {  87,4106 },
- {  88,4106 }, {  89,4106 }, {  90,4106 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4106 }, {   0,   0 }, {  97,4106 },
- {  98,4106 }, {  99,4106 }, { 100,4106 }, { 101,4106 }, { 102,4106 },
- { 103,4106 }, { 104,4106 }, { 105,4106 }, { 106,4106 }, { 107,4106 },
-
- { 108,4106 }, { 109,4106 }, { 110,4106 }, { 111,4106 }, { 112,4106 },
- { 113,4106 }, { 114,4106 }, { 115,4106 }, { 116,4106 }, { 117,4106 },
- { 118,4106 }, { 119,4106 }, { 120,4106 }, { 121,4106 }, { 122,4106 },
- {   0,   0 }, { 124,4081 }, { 125,4081 }, { 126,4081 }, { 127,4106 },
- { 128,4106 }, { 129,4106 }, { 130,4106 }, { 131,4106 }, { 132,4106 },
- { 133,4106 }, { 134,4106 }, { 135,4106 }, { 136,4106 }, { 137,4106 },
- { 138,4106 }, { 139,4106 }, { 140,4106 }, { 141,4106 }, { 142,4106 },
- { 143,4106 }, { 144,4106 }, { 145,4106 }, { 146,4106 }, { 147,4106 },
- { 148,4106 }, { 149,4106 }, { 150,4106 }, { 151,4106 }, { 152,4106 },
- { 153,4106 }, { 154,4106 }, { 155,4106 }, { 156,4106 }, { 157,4106 },
-
- { 158,4106 }, { 159,4106 }, { 160,4106 }, { 161,4106 }, { 162,4106 },
- { 163,4106 }, { 164,4106 }, { 165,4106 }, { 166,4106 }, { 167,4106 },
- { 168,4106 }, { 169,4106 }, { 170,4106 }, { 171,4106 }, { 172,4106 },
- { 173,4106 }, { 174,4106 }, { 175,4106 }, { 176,4106 }, { 177,4106 },
- { 178,4106 }, { 179,4106 }, { 180,4106 }, { 181,4106 }, { 182,4106 },
- { 183,4106 }, { 184,4106 }, { 185,4106 }, { 186,4106 }, { 187,4106 },
- { 188,4106 }, { 189,4106 }, { 190,4106 }, { 191,4106 }, { 192,4106 },
- { 193,4106 }, { 194,4106 }, { 195,4106 }, { 196,4106 }, { 197,4106 },
- { 198,4106 }, { 199,4106 }, { 200,4106 }, { 201,4106 }, { 202,4106 },
- { 203,4106 }, { 204,4106 }, { 205,4106 }, { 206,4106 }, { 207,4106 },
-
- { 208,4106 }, { 209,4106 }, { 210,4106 }, { 211,4106 }, { 212,4106 },
- { 213,4106 }, { 214,4106 }, { 215,4106 }, { 216,4106 }, { 217,4106 },
- { 218,4106 }, { 219,4106 }, { 220,4106 }, { 221,4106 }, { 222,4106 },
- { 223,4106 }, { 224,4106 }, { 225,4106 }, { 226,4106 }, { 227,4106 },
- { 228,4106 }, { 229,4106 }, { 230,4106 }, { 231,4106 }, { 232,4106 },
- { 233,4106 }, { 234,4106 }, { 235,4106 }, { 236,4106 }, { 237,4106 },
- { 238,4106 }, { 239,4106 }, { 240,4106 }, { 241,4106 }, { 242,4106 },
- { 243,4106 }, { 244,4106 }, { 245,4106 }, { 246,4106 }, { 247,4106 },
- { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
- { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
-
- {   0,17407 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
- {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
- {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
- {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
- {  20,4140 }, {  21,4140 }, {  22,4140 }, {  23,4140 }, {  24,4140 },
- {  25,4140 }, {  26,4140 }, {  27,4140 }, {  28,4140 }, {  29,4140 },
- {  30,4140 }, {  31,4140 }, {  32,4140 }, {  33,4140 }, {  34,4108 },
- {  35,4140 }, {  36,4140 }, {  37,4140 }, {  38,4140 }, {  39,4140 },
- {  40,4140 }, {  41,4140 }, {  42,4140 }, {  43,4140 }, {  44,4140 },
- {  45,4140 }, {  46,4140 }, {  47,4140 }, {  48,4140 }, {  49,4140 },
-
- {  50,4140 }, {  51,4140 }, {  52,4140 }, {  53,4140 }, {  54,4140 },
- {  55,4140 }, {  56,4140 }, {  57,4140 }, {  58,4140 }, {  59,4140 },
- {  60,4140 }, {  61,4140 }, {  62,4140 }, {  63,4140 }, {  64,4140 },
- {  65,4140 }, {  66,4140 }, {  67,4140 }, {  68,4140 }, {  69,4140 },
- {  70,4140 }, {  71,4140 }, {  72,4140 }, {  73,4140 }, {  74,4140 },
- {  75,4140 }, {  76,4140 }, {  77,4140 }, {  78,4140 }, {  79,4140 },
- {  80,4140 }, {  81,4140 }, {  82,4140 }, {  83,4140 }, {  84,4140 },
- {  85,4140 }, {  86,4140 }, {  87,4140 }, {  88,4140 }, {  89,4140 },
- {  90,4140 }, {  91,4140 }, {  92,4398 }, {  93,4140 }, {  94,4140 },
- {  95,4140 }, {  96,4140 }, {  97,4140 }, {  98,4140 }, {  99,4140 },
-
- { 100,4140 }, { 101,4140 }, { 102,4140 }, { 103,4140 }, { 104,4140 },
- { 105,4140 }, { 106,4140 }, { 107,4140 }, { 108,4140 }, { 109,4140 },
- { 110,4140 }, { 111,4140 }, { 112,4140 }, { 113,4140 }, { 114,4140 },
- { 115,4140 }, { 116,4140 }, { 117,4140 }, { 118,4140 }, { 119,4140 },
- { 120,4140 }, { 121,4140 }, { 122,4140 }, { 123,4140 }, { 124,4140 },
- { 125,4140 }, { 126,4140 }, { 127,4140 }, { 128,4140 }, { 129,4140 },
- { 130,4140 }, { 131,4140 }, { 132,4140 }, { 133,4140 }, { 134,4140 },
- { 135,4140 }, { 136,4140 }, { 137,4140 }, { 138,4140 }, { 139,4140 },
- { 140,4140 }, { 141,4140 }, { 142,4140 }, { 143,4140 }, { 144,4140 },
- { 145,4140 }, { 146,4140 }, { 147,4140 }, { 148,4140 }, { 149,4140 },
-
- { 150,4140 }, { 151,4140 }, { 152,4140 }, { 153,4140 }, { 154,4140 },
- { 155,4140 }, { 156,4140 }, { 157,4140 }, { 158,4140 }, { 159,4140 },
- { 160,4140 }, { 161,4140 }, { 162,4140 }, { 163,4140 }, { 164,4140 },
- { 165,4140 }, { 166,4140 }, { 167,4140 }, { 168,4140 }, { 169,4140 },
- { 170,4140 }, { 171,4140 }, { 172,4140 }, { 173,4140 }, { 174,4140 },
- { 175,4140 }, { 176,4140 }, { 177,4140 }, { 178,4140 }, { 179,4140 },
- { 180,4140 }, { 181,4140 }, { 182,4140 }, { 183,4140 }, { 184,4140 },
- { 185,4140 }, { 186,4140 }, { 187,4140 }, { 188,4140 }, { 189,4140 },
- { 190,4140 }, { 191,4140 }, { 192,4140 }, { 193,4140 }, { 194,4140 },
- { 195,4140 }, { 196,4140 }, { 197,4140 }, { 198,4140 }, { 199,4140 },
-
- { 200,4140 }, { 201,4140 }, { 202,4140 }, { 203,4140 }, { 204,4140 },
- { 205,4140 }, { 206,4140 }, { 207,4140 }, { 208,4140 }, { 209,4140 },
- { 210,4140 }, { 211,4140 }, { 212,4140 }, { 213,4140 }, { 214,4140 },
- { 215,4140 }, { 216,4140 }, { 217,4140 }, { 218,4140 }, { 219,4140 },
- { 220,4140 }, { 221,4140 }, { 222,4140 }, { 223,4140 }, { 224,4140 },
- { 225,4140 }, { 226,4140 }, { 227,4140 }, { 228,4140 }, { 229,4140 },
- { 230,4140 }, { 231,4140 }, { 232,4140 }, { 233,4140 }, { 234,4140 },
- { 235,4140 }, { 236,4140 }, { 237,4140 }, { 238,4140 }, { 239,4140 },
- { 240,4140 }, { 241,4140 }, { 242,4140 }, { 243,4140 }, { 244,4140 },
- { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
-
- { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17149 }, {   1,4398 },
- {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
- {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
- {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
- {  17,4398 }, {  18,4398 }, {  19,4398 }, {  20,4398 }, {  21,4398 },
- {  22,4398 }, {  23,4398 }, {  24,4398 }, {  25,4398 }, {  26,4398 },
- {  27,4398 }, {  28,4398 }, {  29,4398 }, {  30,4398 }, {  31,4398 },
- {  32,4398 }, {  33,4398 }, {  34,4398 }, {  35,4398 }, {  36,4398 },
- {  37,4398 }, {  38,4398 }, {  39,3852 }, {  40,4398 }, {  41,4398 },
-
- {  42,4398 }, {  43,4398 }, {  44,4398 }, {  45,4398 }, {  46,4398 },
- {  47,4398 }, {  48,4398 }, {  49,4398 }, {  50,4398 }, {  51,4398 },
- {  52,4398 }, {  53,4398 }, {  54,4398 }, {  55,4398 }, {  56,4398 },
- {  57,4398 }, {  58,4398 }, {  59,4398 }, {  60,4398 }, {  61,4398 },
- {  62,4398 }, {  63,4398 }, {  64,4398 }, {  65,4398 }, {  66,4398 },
- {  67,4398 }, {  68,4398 }, {  69,4398 }, {  70,4398 }, {  71,4398 },
- {  72,4398 }, {  73,4398 }, {  74,4398 }, {  75,4398 }, {  76,4398 },
- {  77,4398 }, {  78,4398 }, {  79,4398 }, {  80,4398 }, {  81,4398 },
- {  82,4398 }, {  83,4398 }, {  84,4398 }, {  85,4398 }, {  86,4398 },
- {  87,4398 }, {  88,4398 }, {  89,4398 }, {  90,4398 }, {  91,4398 },
-
- {  92,4656 }, {  93,4398 }, {  94,4398 }, {  95,4398 }, {  96,4398 },
- {  97,4398 }, {  98,4398 }, {  99,4398 }, { 100,4398 }, { 101,4398 },
- { 102,4398 }, { 103,4398 }, { 104,4398 }, { 105,4398 }, { 106,4398 },
- { 107,4398 }, { 108,4398 }, { 109,4398 }, { 110,4398 }, { 111,4398 },
- { 112,4398 }, { 113,4398 }, { 114,4398 }, { 115,4398 }, { 116,4398 },
- { 117,4398 }, { 118,4398 }, { 119,4398 }, { 120,4398 }, { 121,4398 },
- { 122,4398 }, { 123,4398 }, { 124,4398 }, { 125,4398 }, { 126,4398 },
- { 127,4398 }, { 128,4398 }, { 129,4398 }, { 130,4398 }, { 131,4398 },
- { 132,4398 }, { 133,4398 }, { 134,4398 }, { 135,4398 }, { 136,4398 },
- { 137,4398 }, { 138,4398 }, { 139,4398 }, { 140,4398 }, { 141,4398 },
-
- { 142,4398 }, { 143,4398 }, { 144,4398 }, { 145,4398 }, { 146,4398 },
- { 147,4398 }, { 148,4398 }, { 149,4398 }, { 150,4398 }, { 151,4398 },
- { 152,4398 }, { 153,4398 }, { 154,4398 }, { 155,4398 }, { 156,4398 },
- { 157,4398 }, { 158,4398 }, { 159,4398 }, { 160,4398 }, { 161,4398 },
- { 162,4398 }, { 163,4398 }, { 164,4398 }, { 165,4398 }, { 166,4398 },
- { 167,4398 }, { 168,4398 }, { 169,4398 }, { 170,4398 }, { 171,4398 },
- { 172,4398 }, { 173,4398 }, { 174,4398 }, { 175,4398 }, { 176,4398 },
- { 177,4398 }, { 178,4398 }, { 179,4398 }, { 180,4398 }, { 181,4398 },
- { 182,4398 }, { 183,4398 }, { 184,4398 }, { 185,4398 }, { 186,4398 },
- { 187,4398 }, { 188,4398 }, { 189,4398 }, { 190,4398 }, { 191,4398 },
-
- { 192,4398 }, { 193,4398 }, { 194,4398 }, { 195,4398 }, { 196,4398 },
- { 197,4398 }, { 198,4398 }, { 199,4398 }, { 200,4398 }, { 201,4398 },
- { 202,4398 }, { 203,4398 }, { 204,4398 }, { 205,4398 }, { 206,4398 },
- { 207,4398 }, { 208,4398 }, { 209,4398 }, { 210,4398 }, { 211,4398 },
- { 212,4398 }, { 213,4398 }, { 214,4398 }, { 215,4398 }, { 216,4398 },
- { 217,4398 }, { 218,4398 }, { 219,4398 }, { 220,4398 }, { 221,4398 },
- { 222,4398 }, { 223,4398 }, { 224,4398 }, { 225,4398 }, { 226,4398 },
- { 227,4398 }, { 228,4398 }, { 229,4398 }, { 230,4398 }, { 231,4398 },
- { 232,4398 }, { 233,4398 }, { 234,4398 }, { 235,4398 }, { 236,4398 },
- { 237,4398 }, { 238,4398 }, { 239,4398 }, { 240,4398 }, { 241,4398 },
-
- { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
- { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
- { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,16891 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
- {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
- {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
- {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
- {  19,3332 }, {  20,3332 }, {  21,3332 }, {  22,3332 }, {  23,3332 },
- {  24,3332 }, {  25,3332 }, {  26,3332 }, {  27,3332 }, {  28,3332 },
- {  29,3332 }, {  30,3332 }, {  31,3332 }, {  32,3307 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3332 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3307 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3332 }, {  46,3307 }, {  47,3307 }, {  48,4656 },
- {  49,4656 }, {  50,4656 }, {  51,4656 }, {  52,4656 }, {  53,4656 },
- {  54,4656 }, {  55,4656 }, {  56,4656 }, {  57,4656 }, {  58,3332 },
- {   0,   0 }, {   0,   0 }, {  61,3307 }, {   0,   0 }, {  63,3332 },
- {   0,   0 }, {  65,3332 }, {  66,3332 }, {  67,3332 }, {  68,3332 },
- {  69,3332 }, {  70,3332 }, {  71,3332 }, {  72,3332 }, {  73,3332 },
- {  74,3332 }, {  75,3332 }, {  76,3332 }, {  77,3332 }, {  78,3332 },
- {  79,3332 }, {  80,3332 }, {  81,3332 }, {  82,3332 }, {  83,3332 },
-
- {  84,3332 }, {  85,3332 }, {  86,3332 }, {  87,3332 }, {  88,3332 },
- {  89,3332 }, {  90,3332 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3332 }, {   0,   0 }, {  97,3332 }, {  98,3332 },
- {  99,3332 }, { 100,3332 }, { 101,3332 }, { 102,3332 }, { 103,3332 },
- { 104,3332 }, { 105,3332 }, { 106,3332 }, { 107,3332 }, { 108,3332 },
- { 109,3332 }, { 110,3332 }, { 111,3332 }, { 112,3332 }, { 113,3332 },
- { 114,3332 }, { 115,3332 }, { 116,3332 }, { 117,3332 }, { 118,3332 },
- { 119,3332 }, { 120,3332 }, { 121,3332 }, { 122,3332 }, {   0,   0 },
- { 124,3307 }, { 125,3307 }, { 126,3307 }, { 127,3332 }, { 128,3332 },
- { 129,3332 }, { 130,3332 }, { 131,3332 }, { 132,3332 }, { 133,3332 },
-
- { 134,3332 }, { 135,3332 }, { 136,3332 }, { 137,3332 }, { 138,3332 },
- { 139,3332 }, { 140,3332 }, { 141,3332 }, { 142,3332 }, { 143,3332 },
- { 144,3332 }, { 145,3332 }, { 146,3332 }, { 147,3332 }, { 148,3332 },
- { 149,3332 }, { 150,3332 }, { 151,3332 }, { 152,3332 }, { 153,3332 },
- { 154,3332 }, { 155,3332 }, { 156,3332 }, { 157,3332 }, { 158,3332 },
- { 159,3332 }, { 160,3332 }, { 161,3332 }, { 162,3332 }, { 163,3332 },
- { 164,3332 }, { 165,3332 }, { 166,3332 }, { 167,3332 }, { 168,3332 },
- { 169,3332 }, { 170,3332 }, { 171,3332 }, { 172,3332 }, { 173,3332 },
- { 174,3332 }, { 175,3332 }, { 176,3332 }, { 177,3332 }, { 178,3332 },
- { 179,3332 }, { 180,3332 }, { 181,3332 }, { 182,3332 }, { 183,3332 },
-
- { 184,3332 }, { 185,3332 }, { 186,3332 }, { 187,3332 }, { 188,3332 },
- { 189,3332 }, { 190,3332 }, { 191,3332 }, { 192,3332 }, { 193,3332 },
- { 194,3332 }, { 195,3332 }, { 196,3332 }, { 197,3332 }, { 198,3332 },
- { 199,3332 }, { 200,3332 }, { 201,3332 }, { 202,3332 }, { 203,3332 },
- { 204,3332 }, { 205,3332 }, { 206,3332 }, { 207,3332 }, { 208,3332 },
- { 209,3332 }, { 210,3332 }, { 211,3332 }, { 212,3332 }, { 213,3332 },
- { 214,3332 }, { 215,3332 }, { 216,3332 }, { 217,3332 }, { 218,3332 },
- { 219,3332 }, { 220,3332 }, { 221,3332 }, { 222,3332 }, { 223,3332 },
- { 224,3332 }, { 225,3332 }, { 226,3332 }, { 227,3332 }, { 228,3332 },
- { 229,3332 }, { 230,3332 }, { 231,3332 }, { 232,3332 }, { 233,3332 },
-
- { 234,3332 }, { 235,3332 }, { 236,3332 }, { 237,3332 }, { 238,3332 },
- { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
- { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
- { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16633 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
- {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,16615 }, {   0,  42 }, {   0,16613 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16584 }, {   0,  50 },
- {   0,16582 }, {   0,   7 }, {   0,16580 }, {   0,  51 }, {   0,16578 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,16551 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
- {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
- {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
- {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
- {  19,2992 }, {  20,2992 }, {  21,2992 }, {  22,2992 }, {  23,2992 },
- {  24,2992 }, {  25,2992 }, {  26,2992 }, {  27,2992 }, {  28,2992 },
- {  29,2992 }, {  30,2992 }, {  31,2992 }, {  32,3262 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,2992 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3262 }, { 124,3338 }, { 125,3338 },
-
- { 126,3338 }, {  45,2992 }, {  46,4574 }, {  47,2967 }, {  48,4316 },
- {  49,4316 }, {  50,4316 }, {  51,4316 }, {  52,4316 }, {  53,4316 },
- {  54,4316 }, {  55,4316 }, {  56,4316 }, {  57,4316 }, {  58,2992 },
- { 123,6503 }, {   0,   0 }, {  61,2967 }, {   0,   0 }, {  63,2992 },
- {   0,   0 }, {  65,2992 }, {  66,2992 }, {  67,2992 }, {  68,2992 },
- {  69,2992 }, {  70,2992 }, {  71,2992 }, {  72,2992 }, {  73,2992 },
- {  74,2992 }, {  75,2992 }, {  76,2992 }, {  77,2992 }, {  78,2992 },
- {  79,2992 }, {  80,2992 }, {  81,2992 }, {  82,2992 }, {  83,2992 },
- {  84,2992 }, {  85,2992 }, {  86,2992 }, {  87,2992 }, {  88,2992 },
- {  89,2992 }, {  90,2992 }, {   0,   0 }, { 125,6474 }, { 126,6476 },
-
- { 125,6476 }, {  95,2992 }, { 123,6474 }, {  97,2992 }, {  98,2992 },
- {  99,2992 }, { 100,2992 }, { 101,2992 }, { 102,2992 }, { 103,2992 },
- { 104,2992 }, { 105,2992 }, { 106,2992 }, { 107,2992 }, { 108,2992 },
- { 109,2992 }, { 110,2992 }, { 111,2992 }, { 112,2992 }, { 113,2992 },
- { 114,2992 }, { 115,2992 }, { 116,2992 }, { 117,2992 }, { 118,2992 },
- { 119,2992 }, { 120,2992 }, { 121,2992 }, { 122,2992 }, {   0,   0 },
- { 124,2967 }, { 125,3262 }, { 126,3262 }, { 127,2992 }, { 128,2992 },
- { 129,2992 }, { 130,2992 }, { 131,2992 }, { 132,2992 }, { 133,2992 },
- { 134,2992 }, { 135,2992 }, { 136,2992 }, { 137,2992 }, { 138,2992 },
- { 139,2992 }, { 140,2992 }, { 141,2992 }, { 142,2992 }, { 143,2992 },
-
- { 144,2992 }, { 145,2992 }, { 146,2992 }, { 147,2992 }, { 148,2992 },
- { 149,2992 }, { 150,2992 }, { 151,2992 }, { 152,2992 }, { 153,2992 },
- { 154,2992 }, { 155,2992 }, { 156,2992 }, { 157,2992 }, { 158,2992 },
- { 159,2992 }, { 160,2992 }, { 161,2992 }, { 162,2992 }, { 163,2992 },
- { 164,2992 }, { 165,2992 }, { 166,2992 }, { 167,2992 }, { 168,2992 },
- { 169,2992 }, { 170,2992 }, { 171,2992 }, { 172,2992 }, { 173,2992 },
- { 174,2992 }, { 175,2992 }, { 176,2992 }, { 177,2992 }, { 178,2992 },
- { 179,2992 }, { 180,2992 }, { 181,2992 }, { 182,2992 }, { 183,2992 },
- { 184,2992 }, { 185,2992 }, { 186,2992 }, { 187,2992 }, { 188,2992 },
- { 189,2992 }, { 190,2992 }, { 191,2992 }, { 192,2992 }, { 193,2992 },
-
- { 194,2992 }, { 195,2992 }, { 196,2992 }, { 197,2992 }, { 198,2992 },
- { 199,2992 }, { 200,2992 }, { 201,2992 }, { 202,2992 }, { 203,2992 },
- { 204,2992 }, { 205,2992 }, { 206,2992 }, { 207,2992 }, { 208,2992 },
- { 209,2992 }, { 210,2992 }, { 211,2992 }, { 212,2992 }, { 213,2992 },
- { 214,2992 }, { 215,2992 }, { 216,2992 }, { 217,2992 }, { 218,2992 },
- { 219,2992 }, { 220,2992 }, { 221,2992 }, { 222,2992 }, { 223,2992 },
- { 224,2992 }, { 225,2992 }, { 226,2992 }, { 227,2992 }, { 228,2992 },
- { 229,2992 }, { 230,2992 }, { 231,2992 }, { 232,2992 }, { 233,2992 },
- { 234,2992 }, { 235,2992 }, { 236,2992 }, { 237,2992 }, { 238,2992 },
- { 239,2992 }, { 240,2992 }, { 241,2992 }, { 242,2992 }, { 243,2992 },
-
- { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
- { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16293 },
- {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
- {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
- {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
- {  16,4375 }, {  17,4375 }, {  18,4375 }, {  19,4375 }, {  20,4375 },
- {  21,4375 }, {  22,4375 }, {  23,4375 }, {  24,4375 }, {  25,4375 },
- {  26,4375 }, {  27,4375 }, {  28,4375 }, {  29,4375 }, {  30,4375 },
- {  31,4375 }, {  32,4375 }, {  33,4375 }, {  34,4375 }, {  35,4375 },
-
- {  36,4375 }, {  37,4375 }, {  38,4375 }, {  39,4375 }, {  40,4375 },
- {  41,4375 }, {  42,4375 }, {  43,4375 }, {  44,4375 }, {  45,4375 },
- {  46,4375 }, {  47,4375 }, {  48,4375 }, {  49,4375 }, {  50,4375 },
- {  51,4375 }, {  52,4375 }, {  53,4375 }, {  54,4375 }, {  55,4375 },
- {  56,4375 }, {  57,4375 }, {  58,4375 }, {  59,4375 }, {  60,4375 },
- {  61,4375 }, {  62,4375 }, {  63,4375 }, {  64,4375 }, {  65,4375 },
- {  66,4375 }, {  67,4375 }, {  68,4375 }, {  69,4375 }, {  70,4375 },
- {  71,4375 }, {  72,4375 }, {  73,4375 }, {  74,4375 }, {  75,4375 },
- {  76,4375 }, {  77,4375 }, {  78,4375 }, {  79,4375 }, {  80,4375 },
- {  81,4375 }, {  82,4375 }, {  83,4375 }, {  84,4375 }, {  85,4375 },
-
- {  86,4375 }, {  87,4375 }, {  88,4375 }, {  89,4375 }, {  90,4375 },
- {  91,4375 }, {  92,4633 }, {  93,3007 }, {  94,4375 }, {  95,4375 },
- {  96,4375 }, {  97,4375 }, {  98,4375 }, {  99,4375 }, { 100,4375 },
- { 101,4375 }, { 102,4375 }, { 103,4375 }, { 104,4375 }, { 105,4375 },
- { 106,4375 }, { 107,4375 }, { 108,4375 }, { 109,4375 }, { 110,4375 },
- { 111,4375 }, { 112,4375 }, { 113,4375 }, { 114,4375 }, { 115,4375 },
- { 116,4375 }, { 117,4375 }, { 118,4375 }, { 119,4375 }, { 120,4375 },
- { 121,4375 }, { 122,4375 }, { 123,4375 }, { 124,4375 }, { 125,4375 },
- { 126,4375 }, { 127,4375 }, { 128,4375 }, { 129,4375 }, { 130,4375 },
- { 131,4375 }, { 132,4375 }, { 133,4375 }, { 134,4375 }, { 135,4375 },
-
- { 136,4375 }, { 137,4375 }, { 138,4375 }, { 139,4375 }, { 140,4375 },
- { 141,4375 }, { 142,4375 }, { 143,4375 }, { 144,4375 }, { 145,4375 },
- { 146,4375 }, { 147,4375 }, { 148,4375 }, { 149,4375 }, { 150,4375 },
- { 151,4375 }, { 152,4375 }, { 153,4375 }, { 154,4375 }, { 155,4375 },
- { 156,4375 }, { 157,4375 }, { 158,4375 }, { 159,4375 }, { 160,4375 },
- { 161,4375 }, { 162,4375 }, { 163,4375 }, { 164,4375 }, { 165,4375 },
- { 166,4375 }, { 167,4375 }, { 168,4375 }, { 169,4375 }, { 170,4375 },
- { 171,4375 }, { 172,4375 }, { 173,4375 }, { 174,4375 }, { 175,4375 },
- { 176,4375 }, { 177,4375 }, { 178,4375 }, { 179,4375 }, { 180,4375 },
- { 181,4375 }, { 182,4375 }, { 183,4375 }, { 184,4375 }, { 185,4375 },
-
- { 186,4375 }, { 187,4375 }, { 188,4375 }, { 189,4375 }, { 190,4375 },
- { 191,4375 }, { 192,4375 }, { 193,4375 }, { 194,4375 }, { 195,4375 },
- { 196,4375 }, { 197,4375 }, { 198,4375 }, { 199,4375 }, { 200,4375 },
- { 201,4375 }, { 202,4375 }, { 203,4375 }, { 204,4375 }, { 205,4375 },
- { 206,4375 }, { 207,4375 }, { 208,4375 }, { 209,4375 }, { 210,4375 },
- { 211,4375 }, { 212,4375 }, { 213,4375 }, { 214,4375 }, { 215,4375 },
- { 216,4375 }, { 217,4375 }, { 218,4375 }, { 219,4375 }, { 220,4375 },
- { 221,4375 }, { 222,4375 }, { 223,4375 }, { 224,4375 }, { 225,4375 },
- { 226,4375 }, { 227,4375 }, { 228,4375 }, { 229,4375 }, { 230,4375 },
- { 231,4375 }, { 232,4375 }, { 233,4375 }, { 234,4375 }, { 235,4375 },
-
- { 236,4375 }, { 237,4375 }, { 238,4375 }, { 239,4375 }, { 240,4375 },
- { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
- { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
- { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,16035 }, {   1,2476 }, {   2,2476 },
- {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
- {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
- {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
- {  18,2476 }, {  19,2476 }, {  20,2476 }, {  21,2476 }, {  22,2476 },
- {  23,2476 }, {  24,2476 }, {  25,2476 }, {  26,2476 }, {  27,2476 },
-
- {  28,2476 }, {  29,2476 }, {  30,2476 }, {  31,2476 }, {  32,2451 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2476 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2451 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2476 }, {  46,2451 }, {  47,2451 },
- {  48,2476 }, {  49,2476 }, {  50,2476 }, {  51,2476 }, {  52,2476 },
- {  53,2476 }, {  54,2476 }, {  55,2476 }, {  56,2476 }, {  57,2476 },
- {  58,2476 }, {   0,   0 }, {   0,   0 }, {  61,2451 }, {   0,   0 },
- {  63,2476 }, {   0,   0 }, {  65,2476 }, {  66,2476 }, {  67,2476 },
- {  68,2476 }, {  69,2476 }, {  70,2476 }, {  71,2476 }, {  72,2476 },
- {  73,2476 }, {  74,2476 }, {  75,2476 }, {  76,2476 }, {  77,2476 },
-
- {  78,2476 }, {  79,2476 }, {  80,2476 }, {  81,2476 }, {  82,2476 },
- {  83,2476 }, {  84,2476 }, {  85,2476 }, {  86,2476 }, {  87,2476 },
- {  88,2476 }, {  89,2476 }, {  90,2476 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2476 }, {   0,   0 }, {  97,2476 },
- {  98,2476 }, {  99,2476 }, { 100,2476 }, { 101,2476 }, { 102,2476 },
- { 103,2476 }, { 104,2476 }, { 105,2476 }, { 106,2476 }, { 107,2476 },
- { 108,2476 }, { 109,2476 }, { 110,2476 }, { 111,2476 }, { 112,2476 },
- { 113,2476 }, { 114,2476 }, { 115,4633 }, { 116,2476 }, { 117,2476 },
- { 118,2476 }, { 119,2476 }, { 120,2476 }, { 121,2476 }, { 122,2476 },
- {   0,   0 }, { 124,2451 }, { 125,2451 }, { 126,2451 }, { 127,2476 },
-
- { 128,2476 }, { 129,2476 }, { 130,2476 }, { 131,2476 }, { 132,2476 },
- { 133,2476 }, { 134,2476 }, { 135,2476 }, { 136,2476 }, { 137,2476 },
- { 138,2476 }, { 139,2476 }, { 140,2476 }, { 141,2476 }, { 142,2476 },
- { 143,2476 }, { 144,2476 }, { 145,2476 }, { 146,2476 }, { 147,2476 },
- { 148,2476 }, { 149,2476 }, { 150,2476 }, { 151,2476 }, { 152,2476 },
- { 153,2476 }, { 154,2476 }, { 155,2476 }, { 156,2476 }, { 157,2476 },
- { 158,2476 }, { 159,2476 }, { 160,2476 }, { 161,2476 }, { 162,2476 },
- { 163,2476 }, { 164,2476 }, { 165,2476 }, { 166,2476 }, { 167,2476 },
- { 168,2476 }, { 169,2476 }, { 170,2476 }, { 171,2476 }, { 172,2476 },
- { 173,2476 }, { 174,2476 }, { 175,2476 }, { 176,2476 }, { 177,2476 },
-
- { 178,2476 }, { 179,2476 }, { 180,2476 }, { 181,2476 }, { 182,2476 },
- { 183,2476 }, { 184,2476 }, { 185,2476 }, { 186,2476 }, { 187,2476 },
- { 188,2476 }, { 189,2476 }, { 190,2476 }, { 191,2476 }, { 192,2476 },
- { 193,2476 }, { 194,2476 }, { 195,2476 }, { 196,2476 }, { 197,2476 },
- { 198,2476 }, { 199,2476 }, { 200,2476 }, { 201,2476 }, { 202,2476 },
- { 203,2476 }, { 204,2476 }, { 205,2476 }, { 206,2476 }, { 207,2476 },
- { 208,2476 }, { 209,2476 }, { 210,2476 }, { 211,2476 }, { 212,2476 },
- { 213,2476 }, { 214,2476 }, { 215,2476 }, { 216,2476 }, { 217,2476 },
- { 218,2476 }, { 219,2476 }, { 220,2476 }, { 221,2476 }, { 222,2476 },
- { 223,2476 }, { 224,2476 }, { 225,2476 }, { 226,2476 }, { 227,2476 },
-
- { 228,2476 }, { 229,2476 }, { 230,2476 }, { 231,2476 }, { 232,2476 },
- { 233,2476 }, { 234,2476 }, { 235,2476 }, { 236,2476 }, { 237,2476 },
- { 238,2476 }, { 239,2476 }, { 240,2476 }, { 241,2476 }, { 242,2476 },
- { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
- { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
- { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,15777 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
- {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
- {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
- {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
-
- {  20,2218 }, {  21,2218 }, {  22,2218 }, {  23,2218 }, {  24,2218 },
- {  25,2218 }, {  26,2218 }, {  27,2218 }, {  28,2218 }, {  29,2218 },
- {  30,2218 }, {  31,2218 }, {  32,2193 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2193 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2218 }, {  46,2193 }, {  47,2193 }, {  48,2218 }, {  49,2218 },
- {  50,2218 }, {  51,2218 }, {  52,2218 }, {  53,2218 }, {  54,2218 },
- {  55,2218 }, {  56,2218 }, {  57,2218 }, {  58,2218 }, {   0,   0 },
- {   0,   0 }, {  61,2193 }, {   0,   0 }, {  63,2218 }, {   0,   0 },
- {  65,2218 }, {  66,2218 }, {  67,2218 }, {  68,2218 }, {  69,2218 },
-
- {  70,2218 }, {  71,2218 }, {  72,2218 }, {  73,2218 }, {  74,2218 },
- {  75,2218 }, {  76,2218 }, {  77,2218 }, {  78,2218 }, {  79,2218 },
- {  80,2218 }, {  81,2218 }, {  82,2218 }, {  83,2218 }, {  84,2218 },
- {  85,2218 }, {  86,2218 }, {  87,2218 }, {  88,2218 }, {  89,2218 },
- {  90,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2218 }, {   0,   0 }, {  97,4633 }, {  98,2218 }, {  99,2218 },
- { 100,2218 }, { 101,2218 }, { 102,2218 }, { 103,2218 }, { 104,2218 },
- { 105,2218 }, { 106,2218 }, { 107,2218 }, { 108,2218 }, { 109,2218 },
- { 110,2218 }, { 111,2218 }, { 112,2218 }, { 113,2218 }, { 114,2218 },
- { 115,2218 }, { 116,2218 }, { 117,2218 }, { 118,2218 }, { 119,2218 },
-
- { 120,2218 }, { 121,2218 }, { 122,2218 }, {   0,   0 }, { 124,2193 },
- { 125,2193 }, { 126,2193 }, { 127,2218 }, { 128,2218 }, { 129,2218 },
- { 130,2218 }, { 131,2218 }, { 132,2218 }, { 133,2218 }, { 134,2218 },
- { 135,2218 }, { 136,2218 }, { 137,2218 }, { 138,2218 }, { 139,2218 },
- { 140,2218 }, { 141,2218 }, { 142,2218 }, { 143,2218 }, { 144,2218 },
- { 145,2218 }, { 146,2218 }, { 147,2218 }, { 148,2218 }, { 149,2218 },
- { 150,2218 }, { 151,2218 }, { 152,2218 }, { 153,2218 }, { 154,2218 },
- { 155,2218 }, { 156,2218 }, { 157,2218 }, { 158,2218 }, { 159,2218 },
- { 160,2218 }, { 161,2218 }, { 162,2218 }, { 163,2218 }, { 164,2218 },
- { 165,2218 }, { 166,2218 }, { 167,2218 }, { 168,2218 }, { 169,2218 },
-
- { 170,2218 }, { 171,2218 }, { 172,2218 }, { 173,2218 }, { 174,2218 },
- { 175,2218 }, { 176,2218 }, { 177,2218 }, { 178,2218 }, { 179,2218 },
- { 180,2218 }, { 181,2218 }, { 182,2218 }, { 183,2218 }, { 184,2218 },
- { 185,2218 }, { 186,2218 }, { 187,2218 }, { 188,2218 }, { 189,2218 },
- { 190,2218 }, { 191,2218 }, { 192,2218 }, { 193,2218 }, { 194,2218 },
- { 195,2218 }, { 196,2218 }, { 197,2218 }, { 198,2218 }, { 199,2218 },
- { 200,2218 }, { 201,2218 }, { 202,2218 }, { 203,2218 }, { 204,2218 },
- { 205,2218 }, { 206,2218 }, { 207,2218 }, { 208,2218 }, { 209,2218 },
- { 210,2218 }, { 211,2218 }, { 212,2218 }, { 213,2218 }, { 214,2218 },
- { 215,2218 }, { 216,2218 }, { 217,2218 }, { 218,2218 }, { 219,2218 },
-
- { 220,2218 }, { 221,2218 }, { 222,2218 }, { 223,2218 }, { 224,2218 },
- { 225,2218 }, { 226,2218 }, { 227,2218 }, { 228,2218 }, { 229,2218 },
- { 230,2218 }, { 231,2218 }, { 232,2218 }, { 233,2218 }, { 234,2218 },
- { 235,2218 }, { 236,2218 }, { 237,2218 }, { 238,2218 }, { 239,2218 },
- { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
- { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
- { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15519 }, {   1,1960 },
- {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
- {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
-
- {  12,1960 }, {  13,1935 }, {  14,1960 }, {  15,1960 }, {  16,1960 },
- {  17,1960 }, {  18,1960 }, {  19,1960 }, {  20,1960 }, {  21,1960 },
- {  22,1960 }, {  23,1960 }, {  24,1960 }, {  25,1960 }, {  26,1960 },
- {  27,1960 }, {  28,1960 }, {  29,1960 }, {  30,1960 }, {  31,1960 },
- {  32,1935 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1960 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1935 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1960 }, {  46,1935 },
- {  47,1935 }, {  48,1960 }, {  49,1960 }, {  50,1960 }, {  51,1960 },
- {  52,1960 }, {  53,1960 }, {  54,1960 }, {  55,1960 }, {  56,1960 },
- {  57,1960 }, {  58,1960 }, {   0,   0 }, {   0,   0 }, {  61,1935 },
-
- {   0,   0 }, {  63,1960 }, {   0,   0 }, {  65,1960 }, {  66,1960 },
- {  67,1960 }, {  68,1960 }, {  69,1960 }, {  70,1960 }, {  71,1960 },
- {  72,1960 }, {  73,1960 }, {  74,1960 }, {  75,1960 }, {  76,1960 },
- {  77,1960 }, {  78,1960 }, {  79,1960 }, {  80,1960 }, {  81,1960 },
- {  82,1960 }, {  83,1960 }, {  84,1960 }, {  85,1960 }, {  86,1960 },
- {  87,1960 }, {  88,1960 }, {  89,1960 }, {  90,1960 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1960 }, {   0,   0 },
- {  97,1960 }, {  98,1960 }, {  99,1960 }, { 100,1960 }, { 101,1960 },
- { 102,1960 }, { 103,1960 }, { 104,1960 }, { 105,1960 }, { 106,1960 },
- { 107,1960 }, { 108,1960 }, { 109,1960 }, { 110,1960 }, { 111,1960 },
-
- { 112,1960 }, { 113,1960 }, { 114,1960 }, { 115,1960 }, { 116,1960 },
- { 117,4633 }, { 118,1960 }, { 119,1960 }, { 120,1960 }, { 121,1960 },
- { 122,1960 }, {   0,   0 }, { 124,1935 }, { 125,1935 }, { 126,1935 },
- { 127,1960 }, { 128,1960 }, { 129,1960 }, { 130,1960 }, { 131,1960 },
- { 132,1960 }, { 133,1960 }, { 134,1960 }, { 135,1960 }, { 136,1960 },
- { 137,1960 }, { 138,1960 }, { 139,1960 }, { 140,1960 }, { 141,1960 },
- { 142,1960 }, { 143,1960 }, { 144,1960 }, { 145,1960 }, { 146,1960 },
- { 147,1960 }, { 148,1960 }, { 149,1960 }, { 150,1960 }, { 151,1960 },
- { 152,1960 }, { 153,1960 }, { 154,1960 }, { 155,1960 }, { 156,1960 },
- { 157,1960 }, { 158,1960 }, { 159,1960 }, { 160,1960 }, { 161,1960 },
-
- { 162,1960 }, { 163,1960 }, { 164,1960 }, { 165,1960 }, { 166,1960 },
- { 167,1960 }, { 168,1960 }, { 169,1960 }, { 170,1960 }, { 171,1960 },
- { 172,1960 }, { 173,1960 }, { 174,1960 }, { 175,1960 }, { 176,1960 },
- { 177,1960 }, { 178,1960 }, { 179,1960 }, { 180,1960 }, { 181,1960 },
- { 182,1960 }, { 183,1960 }, { 184,1960 }, { 185,1960 }, { 186,1960 },
- { 187,1960 }, { 188,1960 }, { 189,1960 }, { 190,1960 }, { 191,1960 },
- { 192,1960 }, { 193,1960 }, { 194,1960 }, { 195,1960 }, { 196,1960 },
- { 197,1960 }, { 198,1960 }, { 199,1960 }, { 200,1960 }, { 201,1960 },
- { 202,1960 }, { 203,1960 }, { 204,1960 }, { 205,1960 }, { 206,1960 },
- { 207,1960 }, { 208,1960 }, { 209,1960 }, { 210,1960 }, { 211,1960 },
-
- { 212,1960 }, { 213,1960 }, { 214,1960 }, { 215,1960 }, { 216,1960 },
- { 217,1960 }, { 218,1960 }, { 219,1960 }, { 220,1960 }, { 221,1960 },
- { 222,1960 }, { 223,1960 }, { 224,1960 }, { 225,1960 }, { 226,1960 },
- { 227,1960 }, { 228,1960 }, { 229,1960 }, { 230,1960 }, { 231,1960 },
- { 232,1960 }, { 233,1960 }, { 234,1960 }, { 235,1960 }, { 236,1960 },
- { 237,1960 }, { 238,1960 }, { 239,1960 }, { 240,1960 }, { 241,1960 },
- { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
- { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
- { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,15261 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
-
- {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
- {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
- {  14,1702 }, {  15,1702 }, {  16,1702 }, {  17,1702 }, {  18,1702 },
- {  19,1702 }, {  20,1702 }, {  21,1702 }, {  22,1702 }, {  23,1702 },
- {  24,1702 }, {  25,1702 }, {  26,1702 }, {  27,1702 }, {  28,1702 },
- {  29,1702 }, {  30,1702 }, {  31,1702 }, {  32,1677 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1677 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1702 }, {  46,1677 }, {  47,1677 }, {  48,1702 },
- {  49,1702 }, {  50,1702 }, {  51,1702 }, {  52,1702 }, {  53,1702 },
-
- {  54,1702 }, {  55,1702 }, {  56,1702 }, {  57,1702 }, {  58,1702 },
- {   0,   0 }, {   0,   0 }, {  61,1677 }, {   0,   0 }, {  63,1702 },
- {   0,   0 }, {  65,1702 }, {  66,1702 }, {  67,1702 }, {  68,1702 },
- {  69,1702 }, {  70,1702 }, {  71,1702 }, {  72,1702 }, {  73,1702 },
- {  74,1702 }, {  75,1702 }, {  76,1702 }, {  77,1702 }, {  78,1702 },
- {  79,1702 }, {  80,1702 }, {  81,1702 }, {  82,1702 }, {  83,1702 },
- {  84,1702 }, {  85,1702 }, {  86,1702 }, {  87,1702 }, {  88,1702 },
- {  89,1702 }, {  90,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1702 }, {   0,   0 }, {  97,1702 }, {  98,1702 },
- {  99,1702 }, { 100,1702 }, { 101,1702 }, { 102,1702 }, { 103,1702 },
-
- { 104,1702 }, { 105,1702 }, { 106,1702 }, { 107,1702 }, { 108,1702 },
- { 109,1702 }, { 110,1702 }, { 111,1702 }, { 112,1702 }, { 113,1702 },
- { 114,4633 }, { 115,1702 }, { 116,1702 }, { 117,1702 }, { 118,1702 },
- { 119,1702 }, { 120,1702 }, { 121,1702 }, { 122,1702 }, {   0,   0 },
- { 124,1677 }, { 125,1677 }, { 126,1677 }, { 127,1702 }, { 128,1702 },
- { 129,1702 }, { 130,1702 }, { 131,1702 }, { 132,1702 }, { 133,1702 },
- { 134,1702 }, { 135,1702 }, { 136,1702 }, { 137,1702 }, { 138,1702 },
- { 139,1702 }, { 140,1702 }, { 141,1702 }, { 142,1702 }, { 143,1702 },
- { 144,1702 }, { 145,1702 }, { 146,1702 }, { 147,1702 }, { 148,1702 },
- { 149,1702 }, { 150,1702 }, { 151,1702 }, { 152,1702 }, { 153,1702 },
-
- { 154,1702 }, { 155,1702 }, { 156,1702 }, { 157,1702 }, { 158,1702 },
- { 159,1702 }, { 160,1702 }, { 161,1702 }, { 162,1702 }, { 163,1702 },
- { 164,1702 }, { 165,1702 }, { 166,1702 }, { 167,1702 }, { 168,1702 },
- { 169,1702 }, { 170,1702 }, { 171,1702 }, { 172,1702 }, { 173,1702 },
- { 174,1702 }, { 175,1702 }, { 176,1702 }, { 177,1702 }, { 178,1702 },
- { 179,1702 }, { 180,1702 }, { 181,1702 }, { 182,1702 }, { 183,1702 },
- { 184,1702 }, { 185,1702 }, { 186,1702 }, { 187,1702 }, { 188,1702 },
- { 189,1702 }, { 190,1702 }, { 191,1702 }, { 192,1702 }, { 193,1702 },
- { 194,1702 }, { 195,1702 }, { 196,1702 }, { 197,1702 }, { 198,1702 },
- { 199,1702 }, { 200,1702 }, { 201,1702 }, { 202,1702 }, { 203,1702 },
-
- { 204,1702 }, { 205,1702 }, { 206,1702 }, { 207,1702 }, { 208,1702 },
- { 209,1702 }, { 210,1702 }, { 211,1702 }, { 212,1702 }, { 213,1702 },
- { 214,1702 }, { 215,1702 }, { 216,1702 }, { 217,1702 }, { 218,1702 },
- { 219,1702 }, { 220,1702 }, { 221,1702 }, { 222,1702 }, { 223,1702 },
- { 224,1702 }, { 225,1702 }, { 226,1702 }, { 227,1702 }, { 228,1702 },
- { 229,1702 }, { 230,1702 }, { 231,1702 }, { 232,1702 }, { 233,1702 },
- { 234,1702 }, { 235,1702 }, { 236,1702 }, { 237,1702 }, { 238,1702 },
- { 239,1702 }, { 240,1702 }, { 241,1702 }, { 242,1702 }, { 243,1702 },
- { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
- { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
-
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,15003 },
- {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
- {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
- {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
- {  16,1444 }, {  17,1444 }, {  18,1444 }, {  19,1444 }, {  20,1444 },
- {  21,1444 }, {  22,1444 }, {  23,1444 }, {  24,1444 }, {  25,1444 },
- {  26,1444 }, {  27,1444 }, {  28,1444 }, {  29,1444 }, {  30,1444 },
- {  31,1444 }, {  32,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1444 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1444 },
-
- {  46,1419 }, {  47,1419 }, {  48,1444 }, {  49,1444 }, {  50,1444 },
- {  51,1444 }, {  52,1444 }, {  53,1444 }, {  54,1444 }, {  55,1444 },
- {  56,1444 }, {  57,1444 }, {  58,1444 }, {   0,   0 }, {   0,   0 },
- {  61,1419 }, {   0,   0 }, {  63,1444 }, {   0,   0 }, {  65,1444 },
- {  66,1444 }, {  67,1444 }, {  68,1444 }, {  69,1444 }, {  70,1444 },
- {  71,1444 }, {  72,1444 }, {  73,1444 }, {  74,1444 }, {  75,1444 },
- {  76,1444 }, {  77,1444 }, {  78,1444 }, {  79,1444 }, {  80,1444 },
- {  81,1444 }, {  82,1444 }, {  83,1444 }, {  84,1444 }, {  85,1444 },
- {  86,1444 }, {  87,1444 }, {  88,1444 }, {  89,1444 }, {  90,1444 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1444 },
-
- {   0,   0 }, {  97,1444 }, {  98,1444 }, {  99,1444 }, { 100,1444 },
- { 101,1444 }, { 102,1444 }, { 103,1444 }, { 104,1444 }, { 105,1444 },
- { 106,1444 }, { 107,1444 }, { 108,1444 }, { 109,1444 }, { 110,4633 },
- { 111,1444 }, { 112,1444 }, { 113,1444 }, { 114,1444 }, { 115,1444 },
- { 116,1444 }, { 117,1444 }, { 118,1444 }, { 119,1444 }, { 120,1444 },
- { 121,1444 }, { 122,1444 }, {   0,   0 }, { 124,1419 }, { 125,1419 },
- { 126,1419 }, { 127,1444 }, { 128,1444 }, { 129,1444 }, { 130,1444 },
- { 131,1444 }, { 132,1444 }, { 133,1444 }, { 134,1444 }, { 135,1444 },
- { 136,1444 }, { 137,1444 }, { 138,1444 }, { 139,1444 }, { 140,1444 },
- { 141,1444 }, { 142,1444 }, { 143,1444 }, { 144,1444 }, { 145,1444 },
-
- { 146,1444 }, { 147,1444 }, { 148,1444 }, { 149,1444 }, { 150,1444 },
- { 151,1444 }, { 152,1444 }, { 153,1444 }, { 154,1444 }, { 155,1444 },
- { 156,1444 }, { 157,1444 }, { 158,1444 }, { 159,1444 }, { 160,1444 },
- { 161,1444 }, { 162,1444 }, { 163,1444 }, { 164,1444 }, { 165,1444 },
- { 166,1444 }, { 167,1444 }, { 168,1444 }, { 169,1444 }, { 170,1444 },
- { 171,1444 }, { 172,1444 }, { 173,1444 }, { 174,1444 }, { 175,1444 },
- { 176,1444 }, { 177,1444 }, { 178,1444 }, { 179,1444 }, { 180,1444 },
- { 181,1444 }, { 182,1444 }, { 183,1444 }, { 184,1444 }, { 185,1444 },
- { 186,1444 }, { 187,1444 }, { 188,1444 }, { 189,1444 }, { 190,1444 },
- { 191,1444 }, { 192,1444 }, { 193,1444 }, { 194,1444 }, { 195,1444 },
-
- { 196,1444 }, { 197,1444 }, { 198,1444 }, { 199,1444 }, { 200,1444 },
- { 201,1444 }, { 202,1444 }, { 203,1444 }, { 204,1444 }, { 205,1444 },
- { 206,1444 }, { 207,1444 }, { 208,1444 }, { 209,1444 }, { 210,1444 },
- { 211,1444 }, { 212,1444 }, { 213,1444 }, { 214,1444 }, { 215,1444 },
- { 216,1444 }, { 217,1444 }, { 218,1444 }, { 219,1444 }, { 220,1444 },
- { 221,1444 }, { 222,1444 }, { 223,1444 }, { 224,1444 }, { 225,1444 },
- { 226,1444 }, { 227,1444 }, { 228,1444 }, { 229,1444 }, { 230,1444 },
- { 231,1444 }, { 232,1444 }, { 233,1444 }, { 234,1444 }, { 235,1444 },
- { 236,1444 }, { 237,1444 }, { 238,1444 }, { 239,1444 }, { 240,1444 },
- { 241,1444 }, { 242,1444 }, { 243,1444 }, { 244,1444 }, { 245,1444 },
-
- { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
- { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,14745 }, {   1,4769 }, {   2,4769 },
+ {   0,   0 }, {   0,19981 }, {   1,3278 }, {   2,3278 }, {   3,3278 },
+ {   4,3278 }, {   5,3278 }, {   6,3278 }, {   7,3278 }, {   8,3278 },
+ {   9,3278 }, {  10,3278 }, {  11,3278 }, {  12,3278 }, {  13,3278 },
+ {  14,3278 }, {  15,3278 }, {  16,3278 }, {  17,3278 }, {  18,3278 },
+ {  19,3278 }, {  20,3278 }, {  21,3278 }, {  22,3278 }, {  23,3278 },
+ {  24,3278 }, {  25,3278 }, {  26,3278 }, {  27,3278 }, {  28,3278 },
+ {  29,3278 }, {  30,3278 }, {  31,3278 }, {  32,3278 }, {  33,3278 },
+ {  34,3278 }, {  35,3278 }, {  36,3278 }, {  37,3278 }, {  38,3278 },
+ {  39,3278 }, {  40,3278 }, {  41,3278 }, {  42,3278 }, {  43,3278 },
+ {  44,3278 }, {  45,3278 }, {  46,3278 }, {  47,3278 }, {  48,3278 },
+
+ {  49,3278 }, {  50,3278 }, {  51,3278 }, {  52,3278 }, {  53,3278 },
+ {  54,3278 }, {  55,3278 }, {  56,3278 }, {  57,3278 }, {  58,3278 },
+ {  59,3278 }, {  60,3278 }, {  61,3278 }, {  62,3278 }, {  63,3278 },
+ {  64,3278 }, {  65,3278 }, {  66,3278 }, {  67,3278 }, {  68,3278 },
+ {  69,3278 }, {  70,3278 }, {  71,3278 }, {  72,3278 }, {  73,3278 },
+ {  74,3278 }, {  75,3278 }, {  76,3278 }, {  77,3278 }, {  78,3278 },
+ {  79,3278 }, {  80,3278 }, {  81,3278 }, {  82,3278 }, {  83,3278 },
+ {  84,3278 }, {  85,3278 }, {  86,3278 }, {  87,3278 }, {  88,3278 },
+ {  89,3278 }, {  90,3278 }, {  91,3278 }, {  92,3278 }, {  93,3278 },
+ {  94,3278 }, {  95,3278 }, {  96,3278 }, {  97,3278 }, {  98,3278 },
+
+ {  99,3278 }, { 100,3278 }, { 101,3278 }, { 102,3278 }, { 103,3278 },
+ { 104,3278 }, { 105,3278 }, { 106,3278 }, { 107,3278 }, { 108,3278 },
+ { 109,3278 }, { 110,3278 }, { 111,3278 }, { 112,3278 }, { 113,3278 },
+ { 114,3278 }, { 115,3278 }, { 116,3278 }, { 117,3278 }, { 118,3278 },
+ { 119,3278 }, { 120,3278 }, { 121,3278 }, { 122,3278 }, { 123,5111 },
+ { 124,3278 }, { 125,3278 }, { 126,3278 }, { 127,3278 }, { 128,3278 },
+ { 129,3278 }, { 130,3278 }, { 131,3278 }, { 132,3278 }, { 133,3278 },
+ { 134,3278 }, { 135,3278 }, { 136,3278 }, { 137,3278 }, { 138,3278 },
+ { 139,3278 }, { 140,3278 }, { 141,3278 }, { 142,3278 }, { 143,3278 },
+ { 144,3278 }, { 145,3278 }, { 146,3278 }, { 147,3278 }, { 148,3278 },
+
+ { 149,3278 }, { 150,3278 }, { 151,3278 }, { 152,3278 }, { 153,3278 },
+ { 154,3278 }, { 155,3278 }, { 156,3278 }, { 157,3278 }, { 158,3278 },
+ { 159,3278 }, { 160,3278 }, { 161,3278 }, { 162,3278 }, { 163,3278 },
+ { 164,3278 }, { 165,3278 }, { 166,3278 }, { 167,3278 }, { 168,3278 },
+ { 169,3278 }, { 170,3278 }, { 171,3278 }, { 172,3278 }, { 173,3278 },
+ { 174,3278 }, { 175,3278 }, { 176,3278 }, { 177,3278 }, { 178,3278 },
+ { 179,3278 }, { 180,3278 }, { 181,3278 }, { 182,3278 }, { 183,3278 },
+ { 184,3278 }, { 185,3278 }, { 186,3278 }, { 187,3278 }, { 188,3278 },
+ { 189,3278 }, { 190,3278 }, { 191,3278 }, { 192,3278 }, { 193,3278 },
+ { 194,3278 }, { 195,3278 }, { 196,3278 }, { 197,3278 }, { 198,3278 },
+
+ { 199,3278 }, { 200,3278 }, { 201,3278 }, { 202,3278 }, { 203,3278 },
+ { 204,3278 }, { 205,3278 }, { 206,3278 }, { 207,3278 }, { 208,3278 },
+ { 209,3278 }, { 210,3278 }, { 211,3278 }, { 212,3278 }, { 213,3278 },
+ { 214,3278 }, { 215,3278 }, { 216,3278 }, { 217,3278 }, { 218,3278 },
+ { 219,3278 }, { 220,3278 }, { 221,3278 }, { 222,3278 }, { 223,3278 },
+ { 224,3278 }, { 225,3278 }, { 226,3278 }, { 227,3278 }, { 228,3278 },
+ { 229,3278 }, { 230,3278 }, { 231,3278 }, { 232,3278 }, { 233,3278 },
+ { 234,3278 }, { 235,3278 }, { 236,3278 }, { 237,3278 }, { 238,3278 },
+ { 239,3278 }, { 240,3278 }, { 241,3278 }, { 242,3278 }, { 243,3278 },
+ { 244,3278 }, { 245,3278 }, { 246,3278 }, { 247,3278 }, { 248,3278 },
+
+ { 249,3278 }, { 250,3278 }, { 251,3278 }, { 252,3278 }, { 253,3278 },
+ { 254,3278 }, { 255,3278 }, { 256,3278 }, {   0,   0 }, {   0,19723 },
+ {   1,3020 }, {   2,3020 }, {   3,3020 }, {   4,3020 }, {   5,3020 },
+ {   6,3020 }, {   7,3020 }, {   8,3020 }, {   9,3020 }, {  10,3020 },
+ {  11,3020 }, {  12,3020 }, {  13,3020 }, {  14,3020 }, {  15,3020 },
+ {  16,3020 }, {  17,3020 }, {  18,3020 }, {  19,3020 }, {  20,3020 },
+ {  21,3020 }, {  22,3020 }, {  23,3020 }, {  24,3020 }, {  25,3020 },
+ {  26,3020 }, {  27,3020 }, {  28,3020 }, {  29,3020 }, {  30,3020 },
+ {  31,3020 }, {  32,3020 }, {  33,3020 }, {  34,3020 }, {  35,3020 },
+ {  36,3020 }, {  37,3020 }, {  38,3020 }, {  39,3020 }, {  40,3020 },
+
+ {  41,3020 }, {  42,3020 }, {  43,3020 }, {  44,3020 }, {  45,3020 },
+ {  46,3020 }, {  47,3020 }, {  48,3020 }, {  49,3020 }, {  50,3020 },
+ {  51,3020 }, {  52,3020 }, {  53,3020 }, {  54,3020 }, {  55,3020 },
+ {  56,3020 }, {  57,3020 }, {  58,3020 }, {  59,3020 }, {  60,3020 },
+ {  61,3020 }, {  62,3020 }, {  63,3020 }, {  64,3020 }, {  65,3020 },
+ {  66,3020 }, {  67,3020 }, {  68,3020 }, {  69,3020 }, {  70,3020 },
+ {  71,3020 }, {  72,3020 }, {  73,3020 }, {  74,3020 }, {  75,3020 },
+ {  76,3020 }, {  77,3020 }, {  78,3020 }, {  79,3020 }, {  80,3020 },
+ {  81,3020 }, {  82,3020 }, {  83,3020 }, {  84,3020 }, {  85,3020 },
+ {  86,3020 }, {  87,3020 }, {  88,3020 }, {  89,3020 }, {  90,3020 },
+
+ {  91,3020 }, {  92,3020 }, {  93,3020 }, {  94,3020 }, {  95,3020 },
+ {  96,3020 }, {  97,3020 }, {  98,3020 }, {  99,3020 }, { 100,3020 },
+ { 101,3020 }, { 102,3020 }, { 103,3020 }, { 104,3020 }, { 105,3020 },
+ { 106,3020 }, { 107,3020 }, { 108,3020 }, { 109,3020 }, { 110,3020 },
+ { 111,3020 }, { 112,3020 }, { 113,3020 }, { 114,3020 }, { 115,3020 },
+ { 116,3020 }, { 117,3020 }, { 118,3020 }, { 119,3020 }, { 120,3020 },
+ { 121,3020 }, { 122,3020 }, { 123,4853 }, { 124,3020 }, { 125,3020 },
+ { 126,3020 }, { 127,3020 }, { 128,3020 }, { 129,3020 }, { 130,3020 },
+ { 131,3020 }, { 132,3020 }, { 133,3020 }, { 134,3020 }, { 135,3020 },
+ { 136,3020 }, { 137,3020 }, { 138,3020 }, { 139,3020 }, { 140,3020 },
+
+ { 141,3020 }, { 142,3020 }, { 143,3020 }, { 144,3020 }, { 145,3020 },
+ { 146,3020 }, { 147,3020 }, { 148,3020 }, { 149,3020 }, { 150,3020 },
+ { 151,3020 }, { 152,3020 }, { 153,3020 }, { 154,3020 }, { 155,3020 },
+ { 156,3020 }, { 157,3020 }, { 158,3020 }, { 159,3020 }, { 160,3020 },
+ { 161,3020 }, { 162,3020 }, { 163,3020 }, { 164,3020 }, { 165,3020 },
+ { 166,3020 }, { 167,3020 }, { 168,3020 }, { 169,3020 }, { 170,3020 },
+ { 171,3020 }, { 172,3020 }, { 173,3020 }, { 174,3020 }, { 175,3020 },
+ { 176,3020 }, { 177,3020 }, { 178,3020 }, { 179,3020 }, { 180,3020 },
+ { 181,3020 }, { 182,3020 }, { 183,3020 }, { 184,3020 }, { 185,3020 },
+ { 186,3020 }, { 187,3020 }, { 188,3020 }, { 189,3020 }, { 190,3020 },
+
+ { 191,3020 }, { 192,3020 }, { 193,3020 }, { 194,3020 }, { 195,3020 },
+ { 196,3020 }, { 197,3020 }, { 198,3020 }, { 199,3020 }, { 200,3020 },
+ { 201,3020 }, { 202,3020 }, { 203,3020 }, { 204,3020 }, { 205,3020 },
+ { 206,3020 }, { 207,3020 }, { 208,3020 }, { 209,3020 }, { 210,3020 },
+ { 211,3020 }, { 212,3020 }, { 213,3020 }, { 214,3020 }, { 215,3020 },
+ { 216,3020 }, { 217,3020 }, { 218,3020 }, { 219,3020 }, { 220,3020 },
+ { 221,3020 }, { 222,3020 }, { 223,3020 }, { 224,3020 }, { 225,3020 },
+ { 226,3020 }, { 227,3020 }, { 228,3020 }, { 229,3020 }, { 230,3020 },
+ { 231,3020 }, { 232,3020 }, { 233,3020 }, { 234,3020 }, { 235,3020 },
+ { 236,3020 }, { 237,3020 }, { 238,3020 }, { 239,3020 }, { 240,3020 },
+
+ { 241,3020 }, { 242,3020 }, { 243,3020 }, { 244,3020 }, { 245,3020 },
+ { 246,3020 }, { 247,3020 }, { 248,3020 }, { 249,3020 }, { 250,3020 },
+ { 251,3020 }, { 252,3020 }, { 253,3020 }, { 254,3020 }, { 255,3020 },
+ { 256,3020 }, {   0,   0 }, {   0,19465 }, {   1,4720 }, {   2,4720 },
+ {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
+ {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
+ {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
+ {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 }, {  22,4720 },
+ {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 }, {  27,4720 },
+ {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 }, {  32,4720 },
+
+ {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 }, {  37,4720 },
+ {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 }, {  42,4720 },
+ {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 }, {  47,4720 },
+ {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 }, {  52,4720 },
+ {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 }, {  57,4720 },
+ {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 }, {  62,4720 },
+ {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 }, {  67,4720 },
+ {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 }, {  72,4720 },
+ {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 }, {  77,4720 },
+ {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 }, {  82,4720 },
+
+ {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 }, {  87,4720 },
+ {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 }, {  92,4720 },
+ {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 }, {  97,4720 },
+ {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 }, { 102,4720 },
+ { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 }, { 107,4720 },
+ { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 }, { 112,4720 },
+ { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 }, { 117,4720 },
+ { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 }, { 122,4720 },
+ { 123,4720 }, { 124,4720 }, { 125,4978 }, { 126,4720 }, { 127,4720 },
+ { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 }, { 132,4720 },
+
+ { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 }, { 137,4720 },
+ { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 }, { 142,4720 },
+ { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 }, { 147,4720 },
+ { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 }, { 152,4720 },
+ { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 }, { 157,4720 },
+ { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 }, { 162,4720 },
+ { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 }, { 167,4720 },
+ { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 }, { 172,4720 },
+ { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 }, { 177,4720 },
+ { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 }, { 182,4720 },
+
+ { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 }, { 187,4720 },
+ { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 }, { 192,4720 },
+ { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 }, { 197,4720 },
+ { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 }, { 202,4720 },
+ { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 }, { 207,4720 },
+ { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 }, { 212,4720 },
+ { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 }, { 217,4720 },
+ { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 }, { 222,4720 },
+ { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 }, { 227,4720 },
+ { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 }, { 232,4720 },
+
+ { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 }, { 237,4720 },
+ { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 }, { 242,4720 },
+ { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 }, { 247,4720 },
+ { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 }, { 252,4720 },
+ { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4720 }, {   0,   0 },
+ {   0,19207 }, {   1,4462 }, {   2,4462 }, {   3,4462 }, {   4,4462 },
+ {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 }, {   9,4462 },
+ {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 }, {  14,4462 },
+ {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 }, {  19,4462 },
+ {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 }, {  24,4462 },
+
+ {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 }, {  29,4462 },
+ {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 }, {  34,4462 },
+ {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 }, {  39,4462 },
+ {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 }, {  44,4462 },
+ {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 }, {  49,4462 },
+ {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 }, {  54,4462 },
+ {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 }, {  59,4462 },
+ {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 }, {  64,4462 },
+ {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 }, {  69,4462 },
+ {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 }, {  74,4462 },
+
+ {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 }, {  79,4462 },
+ {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 }, {  84,4462 },
+ {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 }, {  89,4462 },
+ {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 }, {  94,4462 },
+ {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 }, {  99,4462 },
+ { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 }, { 104,4462 },
+ { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 }, { 109,4462 },
+ { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 }, { 114,4462 },
+ { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 }, { 119,4462 },
+ { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4462 }, { 124,4462 },
+
+ { 125,4720 }, { 126,4462 }, { 127,4462 }, { 128,4462 }, { 129,4462 },
+ { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 }, { 134,4462 },
+ { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 }, { 139,4462 },
+ { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 }, { 144,4462 },
+ { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 }, { 149,4462 },
+ { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 }, { 154,4462 },
+ { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 }, { 159,4462 },
+ { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 }, { 164,4462 },
+ { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 }, { 169,4462 },
+ { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 }, { 174,4462 },
+
+ { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 }, { 179,4462 },
+ { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 }, { 184,4462 },
+ { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 }, { 189,4462 },
+ { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 }, { 194,4462 },
+ { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 }, { 199,4462 },
+ { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 }, { 204,4462 },
+ { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 }, { 209,4462 },
+ { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 }, { 214,4462 },
+ { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 }, { 219,4462 },
+ { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 }, { 224,4462 },
+
+ { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 }, { 229,4462 },
+ { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 }, { 234,4462 },
+ { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 }, { 239,4462 },
+ { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 }, { 244,4462 },
+ { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 }, { 249,4462 },
+ { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 }, { 254,4462 },
+ { 255,4462 }, { 256,4462 }, {   0,   0 }, {   0,18949 }, {   1,4720 },
+ {   2,4720 }, {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 },
+ {   7,4720 }, {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 },
+ {  12,4720 }, {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 },
+
+ {  17,4720 }, {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 },
+ {  22,4720 }, {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 },
+ {  27,4720 }, {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 },
+ {  32,4720 }, {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 },
+ {  37,4720 }, {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 },
+ {  42,4720 }, {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 },
+ {  47,4720 }, {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 },
+ {  52,4720 }, {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 },
+ {  57,4720 }, {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 },
+ {  62,4720 }, {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 },
+
+ {  67,4720 }, {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 },
+ {  72,4720 }, {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 },
+ {  77,4720 }, {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 },
+ {  82,4720 }, {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 },
+ {  87,4720 }, {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 },
+ {  92,4720 }, {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 },
+ {  97,4720 }, {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 },
+ { 102,4720 }, { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 },
+ { 107,4720 }, { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 },
+ { 112,4720 }, { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 },
+
+ { 117,4720 }, { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 },
+ { 122,4720 }, { 123,4977 }, { 124,4720 }, { 125,4720 }, { 126,4720 },
+ { 127,4720 }, { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 },
+ { 132,4720 }, { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 },
+ { 137,4720 }, { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 },
+ { 142,4720 }, { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 },
+ { 147,4720 }, { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 },
+ { 152,4720 }, { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 },
+ { 157,4720 }, { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 },
+ { 162,4720 }, { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 },
+
+ { 167,4720 }, { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 },
+ { 172,4720 }, { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 },
+ { 177,4720 }, { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 },
+ { 182,4720 }, { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 },
+ { 187,4720 }, { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 },
+ { 192,4720 }, { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 },
+ { 197,4720 }, { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 },
+ { 202,4720 }, { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 },
+ { 207,4720 }, { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 },
+ { 212,4720 }, { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 },
+
+ { 217,4720 }, { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 },
+ { 222,4720 }, { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 },
+ { 227,4720 }, { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 },
+ { 232,4720 }, { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 },
+ { 237,4720 }, { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 },
+ { 242,4720 }, { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 },
+ { 247,4720 }, { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 },
+ { 252,4720 }, { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256, 779 },
+ {   0,   0 }, {   0,18691 }, {   1,4462 }, {   2,4462 }, {   3,4462 },
+ {   4,4462 }, {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 },
+
+ {   9,4462 }, {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 },
+ {  14,4462 }, {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 },
+ {  19,4462 }, {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 },
+ {  24,4462 }, {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 },
+ {  29,4462 }, {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 },
+ {  34,4462 }, {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 },
+ {  39,4462 }, {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 },
+ {  44,4462 }, {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 },
+ {  49,4462 }, {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 },
+ {  54,4462 }, {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 },
+
+ {  59,4462 }, {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 },
+ {  64,4462 }, {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 },
+ {  69,4462 }, {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 },
+ {  74,4462 }, {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 },
+ {  79,4462 }, {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 },
+ {  84,4462 }, {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 },
+ {  89,4462 }, {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 },
+ {  94,4462 }, {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 },
+ {  99,4462 }, { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 },
+ { 104,4462 }, { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 },
+
+ { 109,4462 }, { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 },
+ { 114,4462 }, { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 },
+ { 119,4462 }, { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4719 },
+ { 124,4462 }, { 125,4462 }, { 126,4462 }, { 127,4462 }, { 128,4462 },
+ { 129,4462 }, { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 },
+ { 134,4462 }, { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 },
+ { 139,4462 }, { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 },
+ { 144,4462 }, { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 },
+ { 149,4462 }, { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 },
+ { 154,4462 }, { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 },
+
+ { 159,4462 }, { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 },
+ { 164,4462 }, { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 },
+ { 169,4462 }, { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 },
+ { 174,4462 }, { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 },
+ { 179,4462 }, { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 },
+ { 184,4462 }, { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 },
+ { 189,4462 }, { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 },
+ { 194,4462 }, { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 },
+ { 199,4462 }, { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 },
+ { 204,4462 }, { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 },
+
+ { 209,4462 }, { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 },
+ { 214,4462 }, { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 },
+ { 219,4462 }, { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 },
+ { 224,4462 }, { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 },
+ { 229,4462 }, { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 },
+ { 234,4462 }, { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 },
+ { 239,4462 }, { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 },
+ { 244,4462 }, { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 },
+ { 249,4462 }, { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 },
+ { 254,4462 }, { 255,4462 }, { 256, 521 }, {   0,   2 }, {   0,18433 },
+
+ {   1,4586 }, {   2,4586 }, {   3,4586 }, {   4,4586 }, {   5,4586 },
+ {   6,4586 }, {   7,4586 }, {   8,4586 }, {   9,4586 }, {  10,4463 },
+ {  11,4586 }, {  12,4586 }, {  13,4463 }, {  14,4586 }, {  15,4586 },
+ {  16,4586 }, {  17,4586 }, {  18,4586 }, {  19,4586 }, {  20,4586 },
+ {  21,4586 }, {  22,4586 }, {  23,4586 }, {  24,4586 }, {  25,4586 },
+ {  26,4586 }, {  27,4586 }, {  28,4586 }, {  29,4586 }, {  30,4586 },
+ {  31,4586 }, {  32,4586 }, {  33,4586 }, {  34,4586 }, {  35,4586 },
+ {  36,4586 }, {  37,4586 }, {  38,4586 }, {  39,4586 }, {  40,4586 },
+ {  41,4586 }, {  42,4586 }, {  43,4586 }, {  44,4586 }, {  45,4586 },
+ {  46,4586 }, {  47,4586 }, {  48,4586 }, {  49,4586 }, {  50,4586 },
+
+ {  51,4586 }, {  52,4586 }, {  53,4586 }, {  54,4586 }, {  55,4586 },
+ {  56,4586 }, {  57,4586 }, {  58,4586 }, {  59,4586 }, {  60,4586 },
+ {  61,4586 }, {  62,4586 }, {  63,4586 }, {  64,4586 }, {  65,4586 },
+ {  66,4586 }, {  67,4586 }, {  68,4586 }, {  69,4586 }, {  70,4586 },
+ {  71,4586 }, {  72,4586 }, {  73,4586 }, {  74,4586 }, {  75,4586 },
+ {  76,4586 }, {  77,4586 }, {  78,4586 }, {  79,4586 }, {  80,4586 },
+ {  81,4586 }, {  82,4586 }, {  83,4586 }, {  84,4586 }, {  85,4586 },
+ {  86,4586 }, {  87,4586 }, {  88,4586 }, {  89,4586 }, {  90,4586 },
+ {  91,4586 }, {  92,4465 }, {  93,4586 }, {  94,4586 }, {  95,4586 },
+ {  96,4586 }, {  97,4586 }, {  98,4586 }, {  99,4586 }, { 100,4586 },
+
+ { 101,4586 }, { 102,4586 }, { 103,4586 }, { 104,4586 }, { 105,4586 },
+ { 106,4586 }, { 107,4586 }, { 108,4586 }, { 109,4586 }, { 110,4586 },
+ { 111,4586 }, { 112,4586 }, { 113,4586 }, { 114,4586 }, { 115,4586 },
+ { 116,4586 }, { 117,4586 }, { 118,4586 }, { 119,4586 }, { 120,4586 },
+ { 121,4586 }, { 122,4586 }, {   0,   0 }, { 124,4586 }, { 125,4586 },
+ { 126,4586 }, { 127,4586 }, { 128,4586 }, { 129,4586 }, { 130,4586 },
+ { 131,4586 }, { 132,4586 }, { 133,4586 }, { 134,4586 }, { 135,4586 },
+ { 136,4586 }, { 137,4586 }, { 138,4586 }, { 139,4586 }, { 140,4586 },
+ { 141,4586 }, { 142,4586 }, { 143,4586 }, { 144,4586 }, { 145,4586 },
+ { 146,4586 }, { 147,4586 }, { 148,4586 }, { 149,4586 }, { 150,4586 },
+
+ { 151,4586 }, { 152,4586 }, { 153,4586 }, { 154,4586 }, { 155,4586 },
+ { 156,4586 }, { 157,4586 }, { 158,4586 }, { 159,4586 }, { 160,4586 },
+ { 161,4586 }, { 162,4586 }, { 163,4586 }, { 164,4586 }, { 165,4586 },
+ { 166,4586 }, { 167,4586 }, { 168,4586 }, { 169,4586 }, { 170,4586 },
+ { 171,4586 }, { 172,4586 }, { 173,4586 }, { 174,4586 }, { 175,4586 },
+ { 176,4586 }, { 177,4586 }, { 178,4586 }, { 179,4586 }, { 180,4586 },
+ { 181,4586 }, { 182,4586 }, { 183,4586 }, { 184,4586 }, { 185,4586 },
+ { 186,4586 }, { 187,4586 }, { 188,4586 }, { 189,4586 }, { 190,4586 },
+ { 191,4586 }, { 192,4586 }, { 193,4586 }, { 194,4586 }, { 195,4586 },
+ { 196,4586 }, { 197,4586 }, { 198,4586 }, { 199,4586 }, { 200,4586 },
+
+ { 201,4586 }, { 202,4586 }, { 203,4586 }, { 204,4586 }, { 205,4586 },
+ { 206,4586 }, { 207,4586 }, { 208,4586 }, { 209,4586 }, { 210,4586 },
+ { 211,4586 }, { 212,4586 }, { 213,4586 }, { 214,4586 }, { 215,4586 },
+ { 216,4586 }, { 217,4586 }, { 218,4586 }, { 219,4586 }, { 220,4586 },
+ { 221,4586 }, { 222,4586 }, { 223,4586 }, { 224,4586 }, { 225,4586 },
+ { 226,4586 }, { 227,4586 }, { 228,4586 }, { 229,4586 }, { 230,4586 },
+ { 231,4586 }, { 232,4586 }, { 233,4586 }, { 234,4586 }, { 235,4586 },
+ { 236,4586 }, { 237,4586 }, { 238,4586 }, { 239,4586 }, { 240,4586 },
+ { 241,4586 }, { 242,4586 }, { 243,4586 }, { 244,4586 }, { 245,4586 },
+ { 246,4586 }, { 247,4586 }, { 248,4586 }, { 249,4586 }, { 250,4586 },
+
+ { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
+ {   0,   2 }, {   0,18176 }, {   0,   6 }, {   0,18174 }, {   0,   6 },
+ {   0,18172 }, {   0,  52 }, {   0,18170 }, {   0,  36 }, {   0,18168 },
+ {   0,   0 }, {  10,4206 }, {   0,   0 }, {   0,   0 }, {  13,4206 },
+ {   0,  36 }, {   0,18161 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
+ {   0,  51 }, {   0,18156 }, {  13,4867 }, {   0,  15 }, {   0,18153 },
+ {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,18149 }, {  13,4860 },
+ {   0,  35 }, {   0,18146 }, {   0,  32 }, {   0,18144 }, {   0,  41 },
+ {   0,18142 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4860 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4208 }, {   0,   0 },
+
+ {  92,4584 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 123,4586 }, {   0,   0 }, { 123,4586 }, {   0,   2 },
+ {   0,18047 }, {   1,4200 }, {   2,4200 }, {   3,4200 }, {   4,4200 },
+ {   5,4200 }, {   6,4200 }, {   7,4200 }, {   8,4200 }, {   9,4200 },
+ {  10,4077 }, {  11,4200 }, {  12,4200 }, {  13,4077 }, {  14,4200 },
+
+ {  15,4200 }, {  16,4200 }, {  17,4200 }, {  18,4200 }, {  19,4200 },
+ {  20,4200 }, {  21,4200 }, {  22,4200 }, {  23,4200 }, {  24,4200 },
+ {  25,4200 }, {  26,4200 }, {  27,4200 }, {  28,4200 }, {  29,4200 },
+ {  30,4200 }, {  31,4200 }, {  32,4200 }, {  33,4200 }, {  34,4200 },
+ {  35,4200 }, {  36,4200 }, {  37,4200 }, {  38,4200 }, {  39,4200 },
+ {  40,4200 }, {  41,4200 }, {  42,4200 }, {  43,4200 }, {  44,4200 },
+ {  45,4200 }, {  46,4200 }, {  47,4200 }, {  48,4200 }, {  49,4200 },
+ {  50,4200 }, {  51,4200 }, {  52,4200 }, {  53,4200 }, {  54,4200 },
+ {  55,4200 }, {  56,4200 }, {  57,4200 }, {  58,4200 }, {  59,4200 },
+ {  60,4200 }, {  61,4200 }, {  62,4200 }, {  63,4200 }, {  64,4200 },
+
+ {  65,4200 }, {  66,4200 }, {  67,4200 }, {  68,4200 }, {  69,4200 },
+ {  70,4200 }, {  71,4200 }, {  72,4200 }, {  73,4200 }, {  74,4200 },
+ {  75,4200 }, {  76,4200 }, {  77,4200 }, {  78,4200 }, {  79,4200 },
+ {  80,4200 }, {  81,4200 }, {  82,4200 }, {  83,4200 }, {  84,4200 },
+ {  85,4200 }, {  86,4200 }, {  87,4200 }, {  88,4200 }, {  89,4200 },
+ {  90,4200 }, {  91,4200 }, {  92,4079 }, {  93,4200 }, {  94,4200 },
+ {  95,4200 }, {  96,4200 }, {  97,4200 }, {  98,4200 }, {  99,4200 },
+ { 100,4200 }, { 101,4200 }, { 102,4200 }, { 103,4200 }, { 104,4200 },
+ { 105,4200 }, { 106,4200 }, { 107,4200 }, { 108,4200 }, { 109,4200 },
+ { 110,4200 }, { 111,4200 }, { 112,4200 }, { 113,4200 }, { 114,4200 },
+
+ { 115,4200 }, { 116,4200 }, { 117,4200 }, { 118,4200 }, { 119,4200 },
+ { 120,4200 }, { 121,4200 }, { 122,4200 }, {   0,   0 }, { 124,4200 },
+ { 125,4200 }, { 126,4200 }, { 127,4200 }, { 128,4200 }, { 129,4200 },
+ { 130,4200 }, { 131,4200 }, { 132,4200 }, { 133,4200 }, { 134,4200 },
+ { 135,4200 }, { 136,4200 }, { 137,4200 }, { 138,4200 }, { 139,4200 },
+ { 140,4200 }, { 141,4200 }, { 142,4200 }, { 143,4200 }, { 144,4200 },
+ { 145,4200 }, { 146,4200 }, { 147,4200 }, { 148,4200 }, { 149,4200 },
+ { 150,4200 }, { 151,4200 }, { 152,4200 }, { 153,4200 }, { 154,4200 },
+ { 155,4200 }, { 156,4200 }, { 157,4200 }, { 158,4200 }, { 159,4200 },
+ { 160,4200 }, { 161,4200 }, { 162,4200 }, { 163,4200 }, { 164,4200 },
+
+ { 165,4200 }, { 166,4200 }, { 167,4200 }, { 168,4200 }, { 169,4200 },
+ { 170,4200 }, { 171,4200 }, { 172,4200 }, { 173,4200 }, { 174,4200 },
+ { 175,4200 }, { 176,4200 }, { 177,4200 }, { 178,4200 }, { 179,4200 },
+ { 180,4200 }, { 181,4200 }, { 182,4200 }, { 183,4200 }, { 184,4200 },
+ { 185,4200 }, { 186,4200 }, { 187,4200 }, { 188,4200 }, { 189,4200 },
+ { 190,4200 }, { 191,4200 }, { 192,4200 }, { 193,4200 }, { 194,4200 },
+ { 195,4200 }, { 196,4200 }, { 197,4200 }, { 198,4200 }, { 199,4200 },
+ { 200,4200 }, { 201,4200 }, { 202,4200 }, { 203,4200 }, { 204,4200 },
+ { 205,4200 }, { 206,4200 }, { 207,4200 }, { 208,4200 }, { 209,4200 },
+ { 210,4200 }, { 211,4200 }, { 212,4200 }, { 213,4200 }, { 214,4200 },
+
+ { 215,4200 }, { 216,4200 }, { 217,4200 }, { 218,4200 }, { 219,4200 },
+ { 220,4200 }, { 221,4200 }, { 222,4200 }, { 223,4200 }, { 224,4200 },
+ { 225,4200 }, { 226,4200 }, { 227,4200 }, { 228,4200 }, { 229,4200 },
+ { 230,4200 }, { 231,4200 }, { 232,4200 }, { 233,4200 }, { 234,4200 },
+ { 235,4200 }, { 236,4200 }, { 237,4200 }, { 238,4200 }, { 239,4200 },
+ { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
+ { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
+ { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
+ { 255,4200 }, {   0,  51 }, {   0,17790 }, {   1,4231 }, {   2,4231 },
+ {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
+
+ {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
+ {  13,4206 }, {  14,4231 }, {  15,4231 }, {  16,4231 }, {  17,4231 },
+ {  18,4231 }, {  19,4231 }, {  20,4231 }, {  21,4231 }, {  22,4231 },
+ {  23,4231 }, {  24,4231 }, {  25,4231 }, {  26,4231 }, {  27,4231 },
+ {  28,4231 }, {  29,4231 }, {  30,4231 }, {  31,4231 }, {  32,4206 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4231 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4206 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,4231 }, {  46,4206 }, {  47,4206 },
+ {  48,4231 }, {  49,4231 }, {  50,4231 }, {  51,4231 }, {  52,4231 },
+ {  53,4231 }, {  54,4231 }, {  55,4231 }, {  56,4231 }, {  57,4231 },
+
+ {  58,4231 }, {   0,   0 }, {   0,   0 }, {  61,4206 }, {   0,   0 },
+ {  63,4231 }, {   0,   0 }, {  65,4231 }, {  66,4231 }, {  67,4231 },
+ {  68,4231 }, {  69,4231 }, {  70,4231 }, {  71,4231 }, {  72,4231 },
+ {  73,4231 }, {  74,4231 }, {  75,4231 }, {  76,4231 }, {  77,4231 },
+ {  78,4231 }, {  79,4231 }, {  80,4231 }, {  81,4231 }, {  82,4231 },
+ {  83,4231 }, {  84,4231 }, {  85,4231 }, {  86,4231 }, {  87,4231 },
+ {  88,4231 }, {  89,4231 }, {  90,4231 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,4231 }, {   0,   0 }, {  97,4231 },
+ {  98,4231 }, {  99,4231 }, { 100,4231 }, { 101,4231 }, { 102,4231 },
+ { 103,4231 }, { 104,4231 }, { 105,4231 }, { 106,4231 }, { 107,4231 },
+
+ { 108,4231 }, { 109,4231 }, { 110,4231 }, { 111,4231 }, { 112,4231 },
+ { 113,4231 }, { 114,4231 }, { 115,4231 }, { 116,4231 }, { 117,4231 },
+ { 118,4231 }, { 119,4231 }, { 120,4231 }, { 121,4231 }, { 122,4231 },
+ {   0,   0 }, { 124,4206 }, { 125,4206 }, { 126,4206 }, { 127,4231 },
+ { 128,4231 }, { 129,4231 }, { 130,4231 }, { 131,4231 }, { 132,4231 },
+ { 133,4231 }, { 134,4231 }, { 135,4231 }, { 136,4231 }, { 137,4231 },
+ { 138,4231 }, { 139,4231 }, { 140,4231 }, { 141,4231 }, { 142,4231 },
+ { 143,4231 }, { 144,4231 }, { 145,4231 }, { 146,4231 }, { 147,4231 },
+ { 148,4231 }, { 149,4231 }, { 150,4231 }, { 151,4231 }, { 152,4231 },
+ { 153,4231 }, { 154,4231 }, { 155,4231 }, { 156,4231 }, { 157,4231 },
+
+ { 158,4231 }, { 159,4231 }, { 160,4231 }, { 161,4231 }, { 162,4231 },
+ { 163,4231 }, { 164,4231 }, { 165,4231 }, { 166,4231 }, { 167,4231 },
+ { 168,4231 }, { 169,4231 }, { 170,4231 }, { 171,4231 }, { 172,4231 },
+ { 173,4231 }, { 174,4231 }, { 175,4231 }, { 176,4231 }, { 177,4231 },
+ { 178,4231 }, { 179,4231 }, { 180,4231 }, { 181,4231 }, { 182,4231 },
+ { 183,4231 }, { 184,4231 }, { 185,4231 }, { 186,4231 }, { 187,4231 },
+ { 188,4231 }, { 189,4231 }, { 190,4231 }, { 191,4231 }, { 192,4231 },
+ { 193,4231 }, { 194,4231 }, { 195,4231 }, { 196,4231 }, { 197,4231 },
+ { 198,4231 }, { 199,4231 }, { 200,4231 }, { 201,4231 }, { 202,4231 },
+ { 203,4231 }, { 204,4231 }, { 205,4231 }, { 206,4231 }, { 207,4231 },
+
+ { 208,4231 }, { 209,4231 }, { 210,4231 }, { 211,4231 }, { 212,4231 },
+ { 213,4231 }, { 214,4231 }, { 215,4231 }, { 216,4231 }, { 217,4231 },
+ { 218,4231 }, { 219,4231 }, { 220,4231 }, { 221,4231 }, { 222,4231 },
+ { 223,4231 }, { 224,4231 }, { 225,4231 }, { 226,4231 }, { 227,4231 },
+ { 228,4231 }, { 229,4231 }, { 230,4231 }, { 231,4231 }, { 232,4231 },
+ { 233,4231 }, { 234,4231 }, { 235,4231 }, { 236,4231 }, { 237,4231 },
+ { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
+ { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
+ { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
+ { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
+
+ {   0,17532 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
+ {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
+ {  10,4265 }, {  11,4265 }, {  12,4265 }, {  13,4265 }, {  14,4265 },
+ {  15,4265 }, {  16,4265 }, {  17,4265 }, {  18,4265 }, {  19,4265 },
+ {  20,4265 }, {  21,4265 }, {  22,4265 }, {  23,4265 }, {  24,4265 },
+ {  25,4265 }, {  26,4265 }, {  27,4265 }, {  28,4265 }, {  29,4265 },
+ {  30,4265 }, {  31,4265 }, {  32,4265 }, {  33,4265 }, {  34,4233 },
+ {  35,4265 }, {  36,4265 }, {  37,4265 }, {  38,4265 }, {  39,4265 },
+ {  40,4265 }, {  41,4265 }, {  42,4265 }, {  43,4265 }, {  44,4265 },
+ {  45,4265 }, {  46,4265 }, {  47,4265 }, {  48,4265 }, {  49,4265 },
+
+ {  50,4265 }, {  51,4265 }, {  52,4265 }, {  53,4265 }, {  54,4265 },
+ {  55,4265 }, {  56,4265 }, {  57,4265 }, {  58,4265 }, {  59,4265 },
+ {  60,4265 }, {  61,4265 }, {  62,4265 }, {  63,4265 }, {  64,4265 },
+ {  65,4265 }, {  66,4265 }, {  67,4265 }, {  68,4265 }, {  69,4265 },
+ {  70,4265 }, {  71,4265 }, {  72,4265 }, {  73,4265 }, {  74,4265 },
+ {  75,4265 }, {  76,4265 }, {  77,4265 }, {  78,4265 }, {  79,4265 },
+ {  80,4265 }, {  81,4265 }, {  82,4265 }, {  83,4265 }, {  84,4265 },
+ {  85,4265 }, {  86,4265 }, {  87,4265 }, {  88,4265 }, {  89,4265 },
+ {  90,4265 }, {  91,4265 }, {  92,4523 }, {  93,4265 }, {  94,4265 },
+ {  95,4265 }, {  96,4265 }, {  97,4265 }, {  98,4265 }, {  99,4265 },
+
+ { 100,4265 }, { 101,4265 }, { 102,4265 }, { 103,4265 }, { 104,4265 },
+ { 105,4265 }, { 106,4265 }, { 107,4265 }, { 108,4265 }, { 109,4265 },
+ { 110,4265 }, { 111,4265 }, { 112,4265 }, { 113,4265 }, { 114,4265 },
+ { 115,4265 }, { 116,4265 }, { 117,4265 }, { 118,4265 }, { 119,4265 },
+ { 120,4265 }, { 121,4265 }, { 122,4265 }, { 123,4265 }, { 124,4265 },
+ { 125,4265 }, { 126,4265 }, { 127,4265 }, { 128,4265 }, { 129,4265 },
+ { 130,4265 }, { 131,4265 }, { 132,4265 }, { 133,4265 }, { 134,4265 },
+ { 135,4265 }, { 136,4265 }, { 137,4265 }, { 138,4265 }, { 139,4265 },
+ { 140,4265 }, { 141,4265 }, { 142,4265 }, { 143,4265 }, { 144,4265 },
+ { 145,4265 }, { 146,4265 }, { 147,4265 }, { 148,4265 }, { 149,4265 },
+
+ { 150,4265 }, { 151,4265 }, { 152,4265 }, { 153,4265 }, { 154,4265 },
+ { 155,4265 }, { 156,4265 }, { 157,4265 }, { 158,4265 }, { 159,4265 },
+ { 160,4265 }, { 161,4265 }, { 162,4265 }, { 163,4265 }, { 164,4265 },
+ { 165,4265 }, { 166,4265 }, { 167,4265 }, { 168,4265 }, { 169,4265 },
+ { 170,4265 }, { 171,4265 }, { 172,4265 }, { 173,4265 }, { 174,4265 },
+ { 175,4265 }, { 176,4265 }, { 177,4265 }, { 178,4265 }, { 179,4265 },
+ { 180,4265 }, { 181,4265 }, { 182,4265 }, { 183,4265 }, { 184,4265 },
+ { 185,4265 }, { 186,4265 }, { 187,4265 }, { 188,4265 }, { 189,4265 },
+ { 190,4265 }, { 191,4265 }, { 192,4265 }, { 193,4265 }, { 194,4265 },
+ { 195,4265 }, { 196,4265 }, { 197,4265 }, { 198,4265 }, { 199,4265 },
+
+ { 200,4265 }, { 201,4265 }, { 202,4265 }, { 203,4265 }, { 204,4265 },
+ { 205,4265 }, { 206,4265 }, { 207,4265 }, { 208,4265 }, { 209,4265 },
+ { 210,4265 }, { 211,4265 }, { 212,4265 }, { 213,4265 }, { 214,4265 },
+ { 215,4265 }, { 216,4265 }, { 217,4265 }, { 218,4265 }, { 219,4265 },
+ { 220,4265 }, { 221,4265 }, { 222,4265 }, { 223,4265 }, { 224,4265 },
+ { 225,4265 }, { 226,4265 }, { 227,4265 }, { 228,4265 }, { 229,4265 },
+ { 230,4265 }, { 231,4265 }, { 232,4265 }, { 233,4265 }, { 234,4265 },
+ { 235,4265 }, { 236,4265 }, { 237,4265 }, { 238,4265 }, { 239,4265 },
+ { 240,4265 }, { 241,4265 }, { 242,4265 }, { 243,4265 }, { 244,4265 },
+ { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
+
+ { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
+ { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,17274 }, {   1,4523 },
+ {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
+ {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
+ {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
+ {  17,4523 }, {  18,4523 }, {  19,4523 }, {  20,4523 }, {  21,4523 },
+ {  22,4523 }, {  23,4523 }, {  24,4523 }, {  25,4523 }, {  26,4523 },
+ {  27,4523 }, {  28,4523 }, {  29,4523 }, {  30,4523 }, {  31,4523 },
+ {  32,4523 }, {  33,4523 }, {  34,4523 }, {  35,4523 }, {  36,4523 },
+ {  37,4523 }, {  38,4523 }, {  39,3977 }, {  40,4523 }, {  41,4523 },
+
+ {  42,4523 }, {  43,4523 }, {  44,4523 }, {  45,4523 }, {  46,4523 },
+ {  47,4523 }, {  48,4523 }, {  49,4523 }, {  50,4523 }, {  51,4523 },
+ {  52,4523 }, {  53,4523 }, {  54,4523 }, {  55,4523 }, {  56,4523 },
+ {  57,4523 }, {  58,4523 }, {  59,4523 }, {  60,4523 }, {  61,4523 },
+ {  62,4523 }, {  63,4523 }, {  64,4523 }, {  65,4523 }, {  66,4523 },
+ {  67,4523 }, {  68,4523 }, {  69,4523 }, {  70,4523 }, {  71,4523 },
+ {  72,4523 }, {  73,4523 }, {  74,4523 }, {  75,4523 }, {  76,4523 },
+ {  77,4523 }, {  78,4523 }, {  79,4523 }, {  80,4523 }, {  81,4523 },
+ {  82,4523 }, {  83,4523 }, {  84,4523 }, {  85,4523 }, {  86,4523 },
+ {  87,4523 }, {  88,4523 }, {  89,4523 }, {  90,4523 }, {  91,4523 },
+
+ {  92,4781 }, {  93,4523 }, {  94,4523 }, {  95,4523 }, {  96,4523 },
+ {  97,4523 }, {  98,4523 }, {  99,4523 }, { 100,4523 }, { 101,4523 },
+ { 102,4523 }, { 103,4523 }, { 104,4523 }, { 105,4523 }, { 106,4523 },
+ { 107,4523 }, { 108,4523 }, { 109,4523 }, { 110,4523 }, { 111,4523 },
+ { 112,4523 }, { 113,4523 }, { 114,4523 }, { 115,4523 }, { 116,4523 },
+ { 117,4523 }, { 118,4523 }, { 119,4523 }, { 120,4523 }, { 121,4523 },
+ { 122,4523 }, { 123,4523 }, { 124,4523 }, { 125,4523 }, { 126,4523 },
+ { 127,4523 }, { 128,4523 }, { 129,4523 }, { 130,4523 }, { 131,4523 },
+ { 132,4523 }, { 133,4523 }, { 134,4523 }, { 135,4523 }, { 136,4523 },
+ { 137,4523 }, { 138,4523 }, { 139,4523 }, { 140,4523 }, { 141,4523 },
+
+ { 142,4523 }, { 143,4523 }, { 144,4523 }, { 145,4523 }, { 146,4523 },
+ { 147,4523 }, { 148,4523 }, { 149,4523 }, { 150,4523 }, { 151,4523 },
+ { 152,4523 }, { 153,4523 }, { 154,4523 }, { 155,4523 }, { 156,4523 },
+ { 157,4523 }, { 158,4523 }, { 159,4523 }, { 160,4523 }, { 161,4523 },
+ { 162,4523 }, { 163,4523 }, { 164,4523 }, { 165,4523 }, { 166,4523 },
+ { 167,4523 }, { 168,4523 }, { 169,4523 }, { 170,4523 }, { 171,4523 },
+ { 172,4523 }, { 173,4523 }, { 174,4523 }, { 175,4523 }, { 176,4523 },
+ { 177,4523 }, { 178,4523 }, { 179,4523 }, { 180,4523 }, { 181,4523 },
+ { 182,4523 }, { 183,4523 }, { 184,4523 }, { 185,4523 }, { 186,4523 },
+ { 187,4523 }, { 188,4523 }, { 189,4523 }, { 190,4523 }, { 191,4523 },
+
+ { 192,4523 }, { 193,4523 }, { 194,4523 }, { 195,4523 }, { 196,4523 },
+ { 197,4523 }, { 198,4523 }, { 199,4523 }, { 200,4523 }, { 201,4523 },
+ { 202,4523 }, { 203,4523 }, { 204,4523 }, { 205,4523 }, { 206,4523 },
+ { 207,4523 }, { 208,4523 }, { 209,4523 }, { 210,4523 }, { 211,4523 },
+ { 212,4523 }, { 213,4523 }, { 214,4523 }, { 215,4523 }, { 216,4523 },
+ { 217,4523 }, { 218,4523 }, { 219,4523 }, { 220,4523 }, { 221,4523 },
+ { 222,4523 }, { 223,4523 }, { 224,4523 }, { 225,4523 }, { 226,4523 },
+ { 227,4523 }, { 228,4523 }, { 229,4523 }, { 230,4523 }, { 231,4523 },
+ { 232,4523 }, { 233,4523 }, { 234,4523 }, { 235,4523 }, { 236,4523 },
+ { 237,4523 }, { 238,4523 }, { 239,4523 }, { 240,4523 }, { 241,4523 },
+
+ { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
+ { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
+ { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
+ {   0,  51 }, {   0,17016 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
+ {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
+ {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
+ {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
+ {  19,3457 }, {  20,3457 }, {  21,3457 }, {  22,3457 }, {  23,3457 },
+ {  24,3457 }, {  25,3457 }, {  26,3457 }, {  27,3457 }, {  28,3457 },
+ {  29,3457 }, {  30,3457 }, {  31,3457 }, {  32,3432 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,3457 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3432 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,3457 }, {  46,3432 }, {  47,3432 }, {  48,4781 },
+ {  49,4781 }, {  50,4781 }, {  51,4781 }, {  52,4781 }, {  53,4781 },
+ {  54,4781 }, {  55,4781 }, {  56,4781 }, {  57,4781 }, {  58,3457 },
+ {   0,   0 }, {   0,   0 }, {  61,3432 }, {   0,   0 }, {  63,3457 },
+ {   0,   0 }, {  65,3457 }, {  66,3457 }, {  67,3457 }, {  68,3457 },
+ {  69,3457 }, {  70,3457 }, {  71,3457 }, {  72,3457 }, {  73,3457 },
+ {  74,3457 }, {  75,3457 }, {  76,3457 }, {  77,3457 }, {  78,3457 },
+ {  79,3457 }, {  80,3457 }, {  81,3457 }, {  82,3457 }, {  83,3457 },
+
+ {  84,3457 }, {  85,3457 }, {  86,3457 }, {  87,3457 }, {  88,3457 },
+ {  89,3457 }, {  90,3457 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,3457 }, {   0,   0 }, {  97,3457 }, {  98,3457 },
+ {  99,3457 }, { 100,3457 }, { 101,3457 }, { 102,3457 }, { 103,3457 },
+ { 104,3457 }, { 105,3457 }, { 106,3457 }, { 107,3457 }, { 108,3457 },
+ { 109,3457 }, { 110,3457 }, { 111,3457 }, { 112,3457 }, { 113,3457 },
+ { 114,3457 }, { 115,3457 }, { 116,3457 }, { 117,3457 }, { 118,3457 },
+ { 119,3457 }, { 120,3457 }, { 121,3457 }, { 122,3457 }, {   0,   0 },
+ { 124,3432 }, { 125,3432 }, { 126,3432 }, { 127,3457 }, { 128,3457 },
+ { 129,3457 }, { 130,3457 }, { 131,3457 }, { 132,3457 }, { 133,3457 },
+
+ { 134,3457 }, { 135,3457 }, { 136,3457 }, { 137,3457 }, { 138,3457 },
+ { 139,3457 }, { 140,3457 }, { 141,3457 }, { 142,3457 }, { 143,3457 },
+ { 144,3457 }, { 145,3457 }, { 146,3457 }, { 147,3457 }, { 148,3457 },
+ { 149,3457 }, { 150,3457 }, { 151,3457 }, { 152,3457 }, { 153,3457 },
+ { 154,3457 }, { 155,3457 }, { 156,3457 }, { 157,3457 }, { 158,3457 },
+ { 159,3457 }, { 160,3457 }, { 161,3457 }, { 162,3457 }, { 163,3457 },
+ { 164,3457 }, { 165,3457 }, { 166,3457 }, { 167,3457 }, { 168,3457 },
+ { 169,3457 }, { 170,3457 }, { 171,3457 }, { 172,3457 }, { 173,3457 },
+ { 174,3457 }, { 175,3457 }, { 176,3457 }, { 177,3457 }, { 178,3457 },
+ { 179,3457 }, { 180,3457 }, { 181,3457 }, { 182,3457 }, { 183,3457 },
+
+ { 184,3457 }, { 185,3457 }, { 186,3457 }, { 187,3457 }, { 188,3457 },
+ { 189,3457 }, { 190,3457 }, { 191,3457 }, { 192,3457 }, { 193,3457 },
+ { 194,3457 }, { 195,3457 }, { 196,3457 }, { 197,3457 }, { 198,3457 },
+ { 199,3457 }, { 200,3457 }, { 201,3457 }, { 202,3457 }, { 203,3457 },
+ { 204,3457 }, { 205,3457 }, { 206,3457 }, { 207,3457 }, { 208,3457 },
+ { 209,3457 }, { 210,3457 }, { 211,3457 }, { 212,3457 }, { 213,3457 },
+ { 214,3457 }, { 215,3457 }, { 216,3457 }, { 217,3457 }, { 218,3457 },
+ { 219,3457 }, { 220,3457 }, { 221,3457 }, { 222,3457 }, { 223,3457 },
+ { 224,3457 }, { 225,3457 }, { 226,3457 }, { 227,3457 }, { 228,3457 },
+ { 229,3457 }, { 230,3457 }, { 231,3457 }, { 232,3457 }, { 233,3457 },
+
+ { 234,3457 }, { 235,3457 }, { 236,3457 }, { 237,3457 }, { 238,3457 },
+ { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
+ { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
+ { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
+ { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,16758 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
+ {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,  51 }, {   0,16740 }, {   0,  43 }, {   0,16738 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,16709 }, {   0,  51 },
+ {   0,16707 }, {   0,   7 }, {   0,16705 }, {   0,  14 }, {   0,16703 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  51 }, {   0,16676 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
+ {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
+ {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
+ {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
+ {  19,3117 }, {  20,3117 }, {  21,3117 }, {  22,3117 }, {  23,3117 },
+ {  24,3117 }, {  25,3117 }, {  26,3117 }, {  27,3117 }, {  28,3117 },
+ {  29,3117 }, {  30,3117 }, {  31,3117 }, {  32,3387 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,3117 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3387 }, { 124,3463 }, { 125,3463 },
+
+ { 126,3463 }, {  45,3117 }, {  46,4699 }, {  47,3092 }, {  48,4441 },
+ {  49,4441 }, {  50,4441 }, {  51,4441 }, {  52,4441 }, {  53,4441 },
+ {  54,4441 }, {  55,4441 }, {  56,4441 }, {  57,4441 }, {  58,3117 },
+ { 123,6628 }, {   0,   0 }, {  61,3092 }, {   0,   0 }, {  63,3117 },
+ {   0,   0 }, {  65,3117 }, {  66,3117 }, {  67,3117 }, {  68,3117 },
+ {  69,3117 }, {  70,3117 }, {  71,3117 }, {  72,3117 }, {  73,3117 },
+ {  74,3117 }, {  75,3117 }, {  76,3117 }, {  77,3117 }, {  78,3117 },
+ {  79,3117 }, {  80,3117 }, {  81,3117 }, {  82,3117 }, {  83,3117 },
+ {  84,3117 }, {  85,3117 }, {  86,3117 }, {  87,3117 }, {  88,3117 },
+ {  89,3117 }, {  90,3117 }, {   0,   0 }, { 125,6599 }, { 126,6601 },
+
+ { 125,6601 }, {  95,3117 }, {   0,   0 }, {  97,3117 }, {  98,3117 },
+ {  99,3117 }, { 100,3117 }, { 101,3117 }, { 102,3117 }, { 103,3117 },
+ { 104,3117 }, { 105,3117 }, { 106,3117 }, { 107,3117 }, { 108,3117 },
+ { 109,3117 }, { 110,3117 }, { 111,3117 }, { 112,3117 }, { 113,3117 },
+ { 114,3117 }, { 115,3117 }, { 116,3117 }, { 117,3117 }, { 118,3117 },
+ { 119,3117 }, { 120,3117 }, { 121,3117 }, { 122,3117 }, {   0,   0 },
+ { 124,3092 }, { 125,3387 }, { 126,3387 }, { 127,3117 }, { 128,3117 },
+ { 129,3117 }, { 130,3117 }, { 131,3117 }, { 132,3117 }, { 133,3117 },
+ { 134,3117 }, { 135,3117 }, { 136,3117 }, { 137,3117 }, { 138,3117 },
+ { 139,3117 }, { 140,3117 }, { 141,3117 }, { 142,3117 }, { 143,3117 },
+
+ { 144,3117 }, { 145,3117 }, { 146,3117 }, { 147,3117 }, { 148,3117 },
+ { 149,3117 }, { 150,3117 }, { 151,3117 }, { 152,3117 }, { 153,3117 },
+ { 154,3117 }, { 155,3117 }, { 156,3117 }, { 157,3117 }, { 158,3117 },
+ { 159,3117 }, { 160,3117 }, { 161,3117 }, { 162,3117 }, { 163,3117 },
+ { 164,3117 }, { 165,3117 }, { 166,3117 }, { 167,3117 }, { 168,3117 },
+ { 169,3117 }, { 170,3117 }, { 171,3117 }, { 172,3117 }, { 173,3117 },
+ { 174,3117 }, { 175,3117 }, { 176,3117 }, { 177,3117 }, { 178,3117 },
+ { 179,3117 }, { 180,3117 }, { 181,3117 }, { 182,3117 }, { 183,3117 },
+ { 184,3117 }, { 185,3117 }, { 186,3117 }, { 187,3117 }, { 188,3117 },
+ { 189,3117 }, { 190,3117 }, { 191,3117 }, { 192,3117 }, { 193,3117 },
+
+ { 194,3117 }, { 195,3117 }, { 196,3117 }, { 197,3117 }, { 198,3117 },
+ { 199,3117 }, { 200,3117 }, { 201,3117 }, { 202,3117 }, { 203,3117 },
+ { 204,3117 }, { 205,3117 }, { 206,3117 }, { 207,3117 }, { 208,3117 },
+ { 209,3117 }, { 210,3117 }, { 211,3117 }, { 212,3117 }, { 213,3117 },
+ { 214,3117 }, { 215,3117 }, { 216,3117 }, { 217,3117 }, { 218,3117 },
+ { 219,3117 }, { 220,3117 }, { 221,3117 }, { 222,3117 }, { 223,3117 },
+ { 224,3117 }, { 225,3117 }, { 226,3117 }, { 227,3117 }, { 228,3117 },
+ { 229,3117 }, { 230,3117 }, { 231,3117 }, { 232,3117 }, { 233,3117 },
+ { 234,3117 }, { 235,3117 }, { 236,3117 }, { 237,3117 }, { 238,3117 },
+ { 239,3117 }, { 240,3117 }, { 241,3117 }, { 242,3117 }, { 243,3117 },
+
+ { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
+ { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
+ { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,16418 },
+ {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
+ {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
+ {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
+ {  16,4500 }, {  17,4500 }, {  18,4500 }, {  19,4500 }, {  20,4500 },
+ {  21,4500 }, {  22,4500 }, {  23,4500 }, {  24,4500 }, {  25,4500 },
+ {  26,4500 }, {  27,4500 }, {  28,4500 }, {  29,4500 }, {  30,4500 },
+ {  31,4500 }, {  32,4500 }, {  33,4500 }, {  34,4500 }, {  35,4500 },
+
+ {  36,4500 }, {  37,4500 }, {  38,4500 }, {  39,4500 }, {  40,4500 },
+ {  41,4500 }, {  42,4500 }, {  43,4500 }, {  44,4500 }, {  45,4500 },
+ {  46,4500 }, {  47,4500 }, {  48,4500 }, {  49,4500 }, {  50,4500 },
+ {  51,4500 }, {  52,4500 }, {  53,4500 }, {  54,4500 }, {  55,4500 },
+ {  56,4500 }, {  57,4500 }, {  58,4500 }, {  59,4500 }, {  60,4500 },
+ {  61,4500 }, {  62,4500 }, {  63,4500 }, {  64,4500 }, {  65,4500 },
+ {  66,4500 }, {  67,4500 }, {  68,4500 }, {  69,4500 }, {  70,4500 },
+ {  71,4500 }, {  72,4500 }, {  73,4500 }, {  74,4500 }, {  75,4500 },
+ {  76,4500 }, {  77,4500 }, {  78,4500 }, {  79,4500 }, {  80,4500 },
+ {  81,4500 }, {  82,4500 }, {  83,4500 }, {  84,4500 }, {  85,4500 },
+
+ {  86,4500 }, {  87,4500 }, {  88,4500 }, {  89,4500 }, {  90,4500 },
+ {  91,4500 }, {  92,4758 }, {  93,3132 }, {  94,4500 }, {  95,4500 },
+ {  96,4500 }, {  97,4500 }, {  98,4500 }, {  99,4500 }, { 100,4500 },
+ { 101,4500 }, { 102,4500 }, { 103,4500 }, { 104,4500 }, { 105,4500 },
+ { 106,4500 }, { 107,4500 }, { 108,4500 }, { 109,4500 }, { 110,4500 },
+ { 111,4500 }, { 112,4500 }, { 113,4500 }, { 114,4500 }, { 115,4500 },
+ { 116,4500 }, { 117,4500 }, { 118,4500 }, { 119,4500 }, { 120,4500 },
+ { 121,4500 }, { 122,4500 }, { 123,4500 }, { 124,4500 }, { 125,4500 },
+ { 126,4500 }, { 127,4500 }, { 128,4500 }, { 129,4500 }, { 130,4500 },
+ { 131,4500 }, { 132,4500 }, { 133,4500 }, { 134,4500 }, { 135,4500 },
+
+ { 136,4500 }, { 137,4500 }, { 138,4500 }, { 139,4500 }, { 140,4500 },
+ { 141,4500 }, { 142,4500 }, { 143,4500 }, { 144,4500 }, { 145,4500 },
+ { 146,4500 }, { 147,4500 }, { 148,4500 }, { 149,4500 }, { 150,4500 },
+ { 151,4500 }, { 152,4500 }, { 153,4500 }, { 154,4500 }, { 155,4500 },
+ { 156,4500 }, { 157,4500 }, { 158,4500 }, { 159,4500 }, { 160,4500 },
+ { 161,4500 }, { 162,4500 }, { 163,4500 }, { 164,4500 }, { 165,4500 },
+ { 166,4500 }, { 167,4500 }, { 168,4500 }, { 169,4500 }, { 170,4500 },
+ { 171,4500 }, { 172,4500 }, { 173,4500 }, { 174,4500 }, { 175,4500 },
+ { 176,4500 }, { 177,4500 }, { 178,4500 }, { 179,4500 }, { 180,4500 },
+ { 181,4500 }, { 182,4500 }, { 183,4500 }, { 184,4500 }, { 185,4500 },
+
+ { 186,4500 }, { 187,4500 }, { 188,4500 }, { 189,4500 }, { 190,4500 },
+ { 191,4500 }, { 192,4500 }, { 193,4500 }, { 194,4500 }, { 195,4500 },
+ { 196,4500 }, { 197,4500 }, { 198,4500 }, { 199,4500 }, { 200,4500 },
+ { 201,4500 }, { 202,4500 }, { 203,4500 }, { 204,4500 }, { 205,4500 },
+ { 206,4500 }, { 207,4500 }, { 208,4500 }, { 209,4500 }, { 210,4500 },
+ { 211,4500 }, { 212,4500 }, { 213,4500 }, { 214,4500 }, { 215,4500 },
+ { 216,4500 }, { 217,4500 }, { 218,4500 }, { 219,4500 }, { 220,4500 },
+ { 221,4500 }, { 222,4500 }, { 223,4500 }, { 224,4500 }, { 225,4500 },
+ { 226,4500 }, { 227,4500 }, { 228,4500 }, { 229,4500 }, { 230,4500 },
+ { 231,4500 }, { 232,4500 }, { 233,4500 }, { 234,4500 }, { 235,4500 },
+
+ { 236,4500 }, { 237,4500 }, { 238,4500 }, { 239,4500 }, { 240,4500 },
+ { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
+ { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
+ { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
+ { 256,4500 }, {   0,  51 }, {   0,16160 }, {   1,2601 }, {   2,2601 },
+ {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
+ {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
+ {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
+ {  18,2601 }, {  19,2601 }, {  20,2601 }, {  21,2601 }, {  22,2601 },
+ {  23,2601 }, {  24,2601 }, {  25,2601 }, {  26,2601 }, {  27,2601 },
+
+ {  28,2601 }, {  29,2601 }, {  30,2601 }, {  31,2601 }, {  32,2576 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2601 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2576 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2601 }, {  46,2576 }, {  47,2576 },
+ {  48,2601 }, {  49,2601 }, {  50,2601 }, {  51,2601 }, {  52,2601 },
+ {  53,2601 }, {  54,2601 }, {  55,2601 }, {  56,2601 }, {  57,2601 },
+ {  58,2601 }, {   0,   0 }, {   0,   0 }, {  61,2576 }, {   0,   0 },
+ {  63,2601 }, {   0,   0 }, {  65,2601 }, {  66,2601 }, {  67,2601 },
+ {  68,2601 }, {  69,2601 }, {  70,2601 }, {  71,2601 }, {  72,2601 },
+ {  73,2601 }, {  74,2601 }, {  75,2601 }, {  76,2601 }, {  77,2601 },
+
+ {  78,2601 }, {  79,2601 }, {  80,2601 }, {  81,2601 }, {  82,2601 },
+ {  83,2601 }, {  84,2601 }, {  85,2601 }, {  86,2601 }, {  87,2601 },
+ {  88,2601 }, {  89,2601 }, {  90,2601 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,2601 }, {   0,   0 }, {  97,2601 },
+ {  98,2601 }, {  99,2601 }, { 100,2601 }, { 101,2601 }, { 102,2601 },
+ { 103,2601 }, { 104,2601 }, { 105,2601 }, { 106,2601 }, { 107,2601 },
+ { 108,2601 }, { 109,2601 }, { 110,2601 }, { 111,2601 }, { 112,2601 },
+ { 113,2601 }, { 114,2601 }, { 115,4758 }, { 116,2601 }, { 117,2601 },
+ { 118,2601 }, { 119,2601 }, { 120,2601 }, { 121,2601 }, { 122,2601 },
+ {   0,   0 }, { 124,2576 }, { 125,2576 }, { 126,2576 }, { 127,2601 },
+
+ { 128,2601 }, { 129,2601 }, { 130,2601 }, { 131,2601 }, { 132,2601 },
+ { 133,2601 }, { 134,2601 }, { 135,2601 }, { 136,2601 }, { 137,2601 },
+ { 138,2601 }, { 139,2601 }, { 140,2601 }, { 141,2601 }, { 142,2601 },
+ { 143,2601 }, { 144,2601 }, { 145,2601 }, { 146,2601 }, { 147,2601 },
+ { 148,2601 }, { 149,2601 }, { 150,2601 }, { 151,2601 }, { 152,2601 },
+ { 153,2601 }, { 154,2601 }, { 155,2601 }, { 156,2601 }, { 157,2601 },
+ { 158,2601 }, { 159,2601 }, { 160,2601 }, { 161,2601 }, { 162,2601 },
+ { 163,2601 }, { 164,2601 }, { 165,2601 }, { 166,2601 }, { 167,2601 },
+ { 168,2601 }, { 169,2601 }, { 170,2601 }, { 171,2601 }, { 172,2601 },
+ { 173,2601 }, { 174,2601 }, { 175,2601 }, { 176,2601 }, { 177,2601 },
+
+ { 178,2601 }, { 179,2601 }, { 180,2601 }, { 181,2601 }, { 182,2601 },
+ { 183,2601 }, { 184,2601 }, { 185,2601 }, { 186,2601 }, { 187,2601 },
+ { 188,2601 }, { 189,2601 }, { 190,2601 }, { 191,2601 }, { 192,2601 },
+ { 193,2601 }, { 194,2601 }, { 195,2601 }, { 196,2601 }, { 197,2601 },
+ { 198,2601 }, { 199,2601 }, { 200,2601 }, { 201,2601 }, { 202,2601 },
+ { 203,2601 }, { 204,2601 }, { 205,2601 }, { 206,2601 }, { 207,2601 },
+ { 208,2601 }, { 209,2601 }, { 210,2601 }, { 211,2601 }, { 212,2601 },
+ { 213,2601 }, { 214,2601 }, { 215,2601 }, { 216,2601 }, { 217,2601 },
+ { 218,2601 }, { 219,2601 }, { 220,2601 }, { 221,2601 }, { 222,2601 },
+ { 223,2601 }, { 224,2601 }, { 225,2601 }, { 226,2601 }, { 227,2601 },
+
+ { 228,2601 }, { 229,2601 }, { 230,2601 }, { 231,2601 }, { 232,2601 },
+ { 233,2601 }, { 234,2601 }, { 235,2601 }, { 236,2601 }, { 237,2601 },
+ { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
+ { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
+ { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
+ { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
+ {   0,15902 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
+ {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
+ {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
+ {  15,2343 }, {  16,2343 }, {  17,2343 }, {  18,2343 }, {  19,2343 },
+
+ {  20,2343 }, {  21,2343 }, {  22,2343 }, {  23,2343 }, {  24,2343 },
+ {  25,2343 }, {  26,2343 }, {  27,2343 }, {  28,2343 }, {  29,2343 },
+ {  30,2343 }, {  31,2343 }, {  32,2318 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,2318 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2343 }, {  46,2318 }, {  47,2318 }, {  48,2343 }, {  49,2343 },
+ {  50,2343 }, {  51,2343 }, {  52,2343 }, {  53,2343 }, {  54,2343 },
+ {  55,2343 }, {  56,2343 }, {  57,2343 }, {  58,2343 }, {   0,   0 },
+ {   0,   0 }, {  61,2318 }, {   0,   0 }, {  63,2343 }, {   0,   0 },
+ {  65,2343 }, {  66,2343 }, {  67,2343 }, {  68,2343 }, {  69,2343 },
+
+ {  70,2343 }, {  71,2343 }, {  72,2343 }, {  73,2343 }, {  74,2343 },
+ {  75,2343 }, {  76,2343 }, {  77,2343 }, {  78,2343 }, {  79,2343 },
+ {  80,2343 }, {  81,2343 }, {  82,2343 }, {  83,2343 }, {  84,2343 },
+ {  85,2343 }, {  86,2343 }, {  87,2343 }, {  88,2343 }, {  89,2343 },
+ {  90,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,2343 }, {   0,   0 }, {  97,4758 }, {  98,2343 }, {  99,2343 },
+ { 100,2343 }, { 101,2343 }, { 102,2343 }, { 103,2343 }, { 104,2343 },
+ { 105,2343 }, { 106,2343 }, { 107,2343 }, { 108,2343 }, { 109,2343 },
+ { 110,2343 }, { 111,2343 }, { 112,2343 }, { 113,2343 }, { 114,2343 },
+ { 115,2343 }, { 116,2343 }, { 117,2343 }, { 118,2343 }, { 119,2343 },
+
+ { 120,2343 }, { 121,2343 }, { 122,2343 }, {   0,   0 }, { 124,2318 },
+ { 125,2318 }, { 126,2318 }, { 127,2343 }, { 128,2343 }, { 129,2343 },
+ { 130,2343 }, { 131,2343 }, { 132,2343 }, { 133,2343 }, { 134,2343 },
+ { 135,2343 }, { 136,2343 }, { 137,2343 }, { 138,2343 }, { 139,2343 },
+ { 140,2343 }, { 141,2343 }, { 142,2343 }, { 143,2343 }, { 144,2343 },
+ { 145,2343 }, { 146,2343 }, { 147,2343 }, { 148,2343 }, { 149,2343 },
+ { 150,2343 }, { 151,2343 }, { 152,2343 }, { 153,2343 }, { 154,2343 },
+ { 155,2343 }, { 156,2343 }, { 157,2343 }, { 158,2343 }, { 159,2343 },
+ { 160,2343 }, { 161,2343 }, { 162,2343 }, { 163,2343 }, { 164,2343 },
+ { 165,2343 }, { 166,2343 }, { 167,2343 }, { 168,2343 }, { 169,2343 },
+
+ { 170,2343 }, { 171,2343 }, { 172,2343 }, { 173,2343 }, { 174,2343 },
+ { 175,2343 }, { 176,2343 }, { 177,2343 }, { 178,2343 }, { 179,2343 },
+ { 180,2343 }, { 181,2343 }, { 182,2343 }, { 183,2343 }, { 184,2343 },
+ { 185,2343 }, { 186,2343 }, { 187,2343 }, { 188,2343 }, { 189,2343 },
+ { 190,2343 }, { 191,2343 }, { 192,2343 }, { 193,2343 }, { 194,2343 },
+ { 195,2343 }, { 196,2343 }, { 197,2343 }, { 198,2343 }, { 199,2343 },
+ { 200,2343 }, { 201,2343 }, { 202,2343 }, { 203,2343 }, { 204,2343 },
+ { 205,2343 }, { 206,2343 }, { 207,2343 }, { 208,2343 }, { 209,2343 },
+ { 210,2343 }, { 211,2343 }, { 212,2343 }, { 213,2343 }, { 214,2343 },
+ { 215,2343 }, { 216,2343 }, { 217,2343 }, { 218,2343 }, { 219,2343 },
+
+ { 220,2343 }, { 221,2343 }, { 222,2343 }, { 223,2343 }, { 224,2343 },
+ { 225,2343 }, { 226,2343 }, { 227,2343 }, { 228,2343 }, { 229,2343 },
+ { 230,2343 }, { 231,2343 }, { 232,2343 }, { 233,2343 }, { 234,2343 },
+ { 235,2343 }, { 236,2343 }, { 237,2343 }, { 238,2343 }, { 239,2343 },
+ { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
+ { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
+ { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
+ { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,15644 }, {   1,2085 },
+ {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
+ {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
+
+ {  12,2085 }, {  13,2060 }, {  14,2085 }, {  15,2085 }, {  16,2085 },
+ {  17,2085 }, {  18,2085 }, {  19,2085 }, {  20,2085 }, {  21,2085 },
+ {  22,2085 }, {  23,2085 }, {  24,2085 }, {  25,2085 }, {  26,2085 },
+ {  27,2085 }, {  28,2085 }, {  29,2085 }, {  30,2085 }, {  31,2085 },
+ {  32,2060 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2085 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2060 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2085 }, {  46,2060 },
+ {  47,2060 }, {  48,2085 }, {  49,2085 }, {  50,2085 }, {  51,2085 },
+ {  52,2085 }, {  53,2085 }, {  54,2085 }, {  55,2085 }, {  56,2085 },
+ {  57,2085 }, {  58,2085 }, {   0,   0 }, {   0,   0 }, {  61,2060 },
+
+ {   0,   0 }, {  63,2085 }, {   0,   0 }, {  65,2085 }, {  66,2085 },
+ {  67,2085 }, {  68,2085 }, {  69,2085 }, {  70,2085 }, {  71,2085 },
+ {  72,2085 }, {  73,2085 }, {  74,2085 }, {  75,2085 }, {  76,2085 },
+ {  77,2085 }, {  78,2085 }, {  79,2085 }, {  80,2085 }, {  81,2085 },
+ {  82,2085 }, {  83,2085 }, {  84,2085 }, {  85,2085 }, {  86,2085 },
+ {  87,2085 }, {  88,2085 }, {  89,2085 }, {  90,2085 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2085 }, {   0,   0 },
+ {  97,2085 }, {  98,2085 }, {  99,2085 }, { 100,2085 }, { 101,2085 },
+ { 102,2085 }, { 103,2085 }, { 104,2085 }, { 105,2085 }, { 106,2085 },
+ { 107,2085 }, { 108,2085 }, { 109,2085 }, { 110,2085 }, { 111,2085 },
+
+ { 112,2085 }, { 113,2085 }, { 114,2085 }, { 115,2085 }, { 116,2085 },
+ { 117,4758 }, { 118,2085 }, { 119,2085 }, { 120,2085 }, { 121,2085 },
+ { 122,2085 }, {   0,   0 }, { 124,2060 }, { 125,2060 }, { 126,2060 },
+ { 127,2085 }, { 128,2085 }, { 129,2085 }, { 130,2085 }, { 131,2085 },
+ { 132,2085 }, { 133,2085 }, { 134,2085 }, { 135,2085 }, { 136,2085 },
+ { 137,2085 }, { 138,2085 }, { 139,2085 }, { 140,2085 }, { 141,2085 },
+ { 142,2085 }, { 143,2085 }, { 144,2085 }, { 145,2085 }, { 146,2085 },
+ { 147,2085 }, { 148,2085 }, { 149,2085 }, { 150,2085 }, { 151,2085 },
+ { 152,2085 }, { 153,2085 }, { 154,2085 }, { 155,2085 }, { 156,2085 },
+ { 157,2085 }, { 158,2085 }, { 159,2085 }, { 160,2085 }, { 161,2085 },
+
+ { 162,2085 }, { 163,2085 }, { 164,2085 }, { 165,2085 }, { 166,2085 },
+ { 167,2085 }, { 168,2085 }, { 169,2085 }, { 170,2085 }, { 171,2085 },
+ { 172,2085 }, { 173,2085 }, { 174,2085 }, { 175,2085 }, { 176,2085 },
+ { 177,2085 }, { 178,2085 }, { 179,2085 }, { 180,2085 }, { 181,2085 },
+ { 182,2085 }, { 183,2085 }, { 184,2085 }, { 185,2085 }, { 186,2085 },
+ { 187,2085 }, { 188,2085 }, { 189,2085 }, { 190,2085 }, { 191,2085 },
+ { 192,2085 }, { 193,2085 }, { 194,2085 }, { 195,2085 }, { 196,2085 },
+ { 197,2085 }, { 198,2085 }, { 199,2085 }, { 200,2085 }, { 201,2085 },
+ { 202,2085 }, { 203,2085 }, { 204,2085 }, { 205,2085 }, { 206,2085 },
+ { 207,2085 }, { 208,2085 }, { 209,2085 }, { 210,2085 }, { 211,2085 },
+
+ { 212,2085 }, { 213,2085 }, { 214,2085 }, { 215,2085 }, { 216,2085 },
+ { 217,2085 }, { 218,2085 }, { 219,2085 }, { 220,2085 }, { 221,2085 },
+ { 222,2085 }, { 223,2085 }, { 224,2085 }, { 225,2085 }, { 226,2085 },
+ { 227,2085 }, { 228,2085 }, { 229,2085 }, { 230,2085 }, { 231,2085 },
+ { 232,2085 }, { 233,2085 }, { 234,2085 }, { 235,2085 }, { 236,2085 },
+ { 237,2085 }, { 238,2085 }, { 239,2085 }, { 240,2085 }, { 241,2085 },
+ { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
+ { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
+ { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
+ {   0,  51 }, {   0,15386 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
+
+ {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
+ {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
+ {  14,1827 }, {  15,1827 }, {  16,1827 }, {  17,1827 }, {  18,1827 },
+ {  19,1827 }, {  20,1827 }, {  21,1827 }, {  22,1827 }, {  23,1827 },
+ {  24,1827 }, {  25,1827 }, {  26,1827 }, {  27,1827 }, {  28,1827 },
+ {  29,1827 }, {  30,1827 }, {  31,1827 }, {  32,1802 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1827 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1802 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1827 }, {  46,1802 }, {  47,1802 }, {  48,1827 },
+ {  49,1827 }, {  50,1827 }, {  51,1827 }, {  52,1827 }, {  53,1827 },
+
+ {  54,1827 }, {  55,1827 }, {  56,1827 }, {  57,1827 }, {  58,1827 },
+ {   0,   0 }, {   0,   0 }, {  61,1802 }, {   0,   0 }, {  63,1827 },
+ {   0,   0 }, {  65,1827 }, {  66,1827 }, {  67,1827 }, {  68,1827 },
+ {  69,1827 }, {  70,1827 }, {  71,1827 }, {  72,1827 }, {  73,1827 },
+ {  74,1827 }, {  75,1827 }, {  76,1827 }, {  77,1827 }, {  78,1827 },
+ {  79,1827 }, {  80,1827 }, {  81,1827 }, {  82,1827 }, {  83,1827 },
+ {  84,1827 }, {  85,1827 }, {  86,1827 }, {  87,1827 }, {  88,1827 },
+ {  89,1827 }, {  90,1827 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1827 }, {   0,   0 }, {  97,1827 }, {  98,1827 },
+ {  99,1827 }, { 100,1827 }, { 101,1827 }, { 102,1827 }, { 103,1827 },
+
+ { 104,1827 }, { 105,1827 }, { 106,1827 }, { 107,1827 }, { 108,1827 },
+ { 109,1827 }, { 110,1827 }, { 111,1827 }, { 112,1827 }, { 113,1827 },
+ { 114,4758 }, { 115,1827 }, { 116,1827 }, { 117,1827 }, { 118,1827 },
+ { 119,1827 }, { 120,1827 }, { 121,1827 }, { 122,1827 }, {   0,   0 },
+ { 124,1802 }, { 125,1802 }, { 126,1802 }, { 127,1827 }, { 128,1827 },
+ { 129,1827 }, { 130,1827 }, { 131,1827 }, { 132,1827 }, { 133,1827 },
+ { 134,1827 }, { 135,1827 }, { 136,1827 }, { 137,1827 }, { 138,1827 },
+ { 139,1827 }, { 140,1827 }, { 141,1827 }, { 142,1827 }, { 143,1827 },
+ { 144,1827 }, { 145,1827 }, { 146,1827 }, { 147,1827 }, { 148,1827 },
+ { 149,1827 }, { 150,1827 }, { 151,1827 }, { 152,1827 }, { 153,1827 },
+
+ { 154,1827 }, { 155,1827 }, { 156,1827 }, { 157,1827 }, { 158,1827 },
+ { 159,1827 }, { 160,1827 }, { 161,1827 }, { 162,1827 }, { 163,1827 },
+ { 164,1827 }, { 165,1827 }, { 166,1827 }, { 167,1827 }, { 168,1827 },
+ { 169,1827 }, { 170,1827 }, { 171,1827 }, { 172,1827 }, { 173,1827 },
+ { 174,1827 }, { 175,1827 }, { 176,1827 }, { 177,1827 }, { 178,1827 },
+ { 179,1827 }, { 180,1827 }, { 181,1827 }, { 182,1827 }, { 183,1827 },
+ { 184,1827 }, { 185,1827 }, { 186,1827 }, { 187,1827 }, { 188,1827 },
+ { 189,1827 }, { 190,1827 }, { 191,1827 }, { 192,1827 }, { 193,1827 },
+ { 194,1827 }, { 195,1827 }, { 196,1827 }, { 197,1827 }, { 198,1827 },
+ { 199,1827 }, { 200,1827 }, { 201,1827 }, { 202,1827 }, { 203,1827 },
+
+ { 204,1827 }, { 205,1827 }, { 206,1827 }, { 207,1827 }, { 208,1827 },
+ { 209,1827 }, { 210,1827 }, { 211,1827 }, { 212,1827 }, { 213,1827 },
+ { 214,1827 }, { 215,1827 }, { 216,1827 }, { 217,1827 }, { 218,1827 },
+ { 219,1827 }, { 220,1827 }, { 221,1827 }, { 222,1827 }, { 223,1827 },
+ { 224,1827 }, { 225,1827 }, { 226,1827 }, { 227,1827 }, { 228,1827 },
+ { 229,1827 }, { 230,1827 }, { 231,1827 }, { 232,1827 }, { 233,1827 },
+ { 234,1827 }, { 235,1827 }, { 236,1827 }, { 237,1827 }, { 238,1827 },
+ { 239,1827 }, { 240,1827 }, { 241,1827 }, { 242,1827 }, { 243,1827 },
+ { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
+ { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
+
+ { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,15128 },
+ {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
+ {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
+ {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
+ {  16,1569 }, {  17,1569 }, {  18,1569 }, {  19,1569 }, {  20,1569 },
+ {  21,1569 }, {  22,1569 }, {  23,1569 }, {  24,1569 }, {  25,1569 },
+ {  26,1569 }, {  27,1569 }, {  28,1569 }, {  29,1569 }, {  30,1569 },
+ {  31,1569 }, {  32,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,1569 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1569 },
+
+ {  46,1544 }, {  47,1544 }, {  48,1569 }, {  49,1569 }, {  50,1569 },
+ {  51,1569 }, {  52,1569 }, {  53,1569 }, {  54,1569 }, {  55,1569 },
+ {  56,1569 }, {  57,1569 }, {  58,1569 }, {   0,   0 }, {   0,   0 },
+ {  61,1544 }, {   0,   0 }, {  63,1569 }, {   0,   0 }, {  65,1569 },
+ {  66,1569 }, {  67,1569 }, {  68,1569 }, {  69,1569 }, {  70,1569 },
+ {  71,1569 }, {  72,1569 }, {  73,1569 }, {  74,1569 }, {  75,1569 },
+ {  76,1569 }, {  77,1569 }, {  78,1569 }, {  79,1569 }, {  80,1569 },
+ {  81,1569 }, {  82,1569 }, {  83,1569 }, {  84,1569 }, {  85,1569 },
+ {  86,1569 }, {  87,1569 }, {  88,1569 }, {  89,1569 }, {  90,1569 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1569 },
+
+ {   0,   0 }, {  97,1569 }, {  98,1569 }, {  99,1569 }, { 100,1569 },
+ { 101,1569 }, { 102,1569 }, { 103,1569 }, { 104,1569 }, { 105,1569 },
+ { 106,1569 }, { 107,1569 }, { 108,1569 }, { 109,1569 }, { 110,4758 },
+ { 111,1569 }, { 112,1569 }, { 113,1569 }, { 114,1569 }, { 115,1569 },
+ { 116,1569 }, { 117,1569 }, { 118,1569 }, { 119,1569 }, { 120,1569 },
+ { 121,1569 }, { 122,1569 }, {   0,   0 }, { 124,1544 }, { 125,1544 },
+ { 126,1544 }, { 127,1569 }, { 128,1569 }, { 129,1569 }, { 130,1569 },
+ { 131,1569 }, { 132,1569 }, { 133,1569 }, { 134,1569 }, { 135,1569 },
+ { 136,1569 }, { 137,1569 }, { 138,1569 }, { 139,1569 }, { 140,1569 },
+ { 141,1569 }, { 142,1569 }, { 143,1569 }, { 144,1569 }, { 145,1569 },
+
+ { 146,1569 }, { 147,1569 }, { 148,1569 }, { 149,1569 }, { 150,1569 },
+ { 151,1569 }, { 152,1569 }, { 153,1569 }, { 154,1569 }, { 155,1569 },
+ { 156,1569 }, { 157,1569 }, { 158,1569 }, { 159,1569 }, { 160,1569 },
+ { 161,1569 }, { 162,1569 }, { 163,1569 }, { 164,1569 }, { 165,1569 },
+ { 166,1569 }, { 167,1569 }, { 168,1569 }, { 169,1569 }, { 170,1569 },
+ { 171,1569 }, { 172,1569 }, { 173,1569 }, { 174,1569 }, { 175,1569 },
+ { 176,1569 }, { 177,1569 }, { 178,1569 }, { 179,1569 }, { 180,1569 },
+ { 181,1569 }, { 182,1569 }, { 183,1569 }, { 184,1569 }, { 185,1569 },
+ { 186,1569 }, { 187,1569 }, { 188,1569 }, { 189,1569 }, { 190,1569 },
+ { 191,1569 }, { 192,1569 }, { 193,1569 }, { 194,1569 }, { 195,1569 },
+
+ { 196,1569 }, { 197,1569 }, { 198,1569 }, { 199,1569 }, { 200,1569 },
+ { 201,1569 }, { 202,1569 }, { 203,1569 }, { 204,1569 }, { 205,1569 },
+ { 206,1569 }, { 207,1569 }, { 208,1569 }, { 209,1569 }, { 210,1569 },
+ { 211,1569 }, { 212,1569 }, { 213,1569 }, { 214,1569 }, { 215,1569 },
+ { 216,1569 }, { 217,1569 }, { 218,1569 }, { 219,1569 }, { 220,1569 },
+ { 221,1569 }, { 222,1569 }, { 223,1569 }, { 224,1569 }, { 225,1569 },
+ { 226,1569 }, { 227,1569 }, { 228,1569 }, { 229,1569 }, { 230,1569 },
+ { 231,1569 }, { 232,1569 }, { 233,1569 }, { 234,1569 }, { 235,1569 },
+ { 236,1569 }, { 237,1569 }, { 238,1569 }, { 239,1569 }, { 240,1569 },
+ { 241,1569 }, { 242,1569 }, { 243,1569 }, { 244,1569 }, { 245,1569 },
+
+ { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
+ { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
+ { 256,1569 }, {   0,  14 }, {   0,14870 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 123,4766 }, {   0,  14 }, {   0,14745 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
+
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
  {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
  {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
  {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
  {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
-
  {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
  {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
  {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
  {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
  {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
+
  {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
  {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
  {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
  {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
  {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
-
  {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
  {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
  {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
  { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
  { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
+
  { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
  { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
  { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
  { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
  { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
-
  { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
  { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
  { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
  { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
  { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
+
  { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
  { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
  { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
  { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
  { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
-
  { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
  { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
  { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
  { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
  { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
+
  { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
  { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
  { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
  { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
  { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
-
  { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
+ { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
  {   0,14487 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
  {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
  {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
-
  {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
  {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
  {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
  {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
  {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
+
  {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
  {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
  {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
  {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
  {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
-
  {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
  {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
  {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
  {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
  { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
+
  { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
  { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
  { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
  { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
  { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
-
  { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
  { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
  { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
  { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
  { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
+
  { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
  { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
  { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
  { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
  { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
-
  { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
  { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
  { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
  { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
  { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
+
  { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
  { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
  { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
  { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
  { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
-
  { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
  { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
+
  { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14229 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
  {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
-
  {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
  {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
  {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
  {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
  {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
+
  {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
  {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
  {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
  {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
  {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
-
  {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
  {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
  {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
  {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
  {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
+
  {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
  { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
  { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
  { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
  { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
-
  { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
  { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
  { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
  { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
  { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
+
  { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
  { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
  { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
  { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
  { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
-
  { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
  { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
  { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
  { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
  { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
+
  { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
  { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
  { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
  { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
  { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
-
  { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
  { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
  { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
  { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
+
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
  {   0,13972 }, {   0,   2 }, {   0,13970 }, {   0,   0 }, {   0,13968 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
-
  {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 },
  {   0,   0 }, {  92,4767 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
  {   0,13847 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
-
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
-
  {  90,   0 }, {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
-
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
-
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
-
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
  { 255,   0 }, {   0,   0 }, {   0,13590 }, {   0,   0 }, {   0,13588 },
- {   0,   5 }, {   0,13586 }, {   0,  48 }, {   0,13584 }, {   0,   0 },
+ {   0,   5 }, {   0,13586 }, {   0,  49 }, {   0,13584 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13559 }, {   1,   0 },
-
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
  {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
  {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
-
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
  {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
  {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
  { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
-
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
  { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
+
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
  { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
-
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
  { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
  { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
  { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
-
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
  { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
  { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
-
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,13301 }, {   0,  38 }, {   0,13299 }, {   0,  39 },
- {   0,13297 }, {   0,  33 }, {   0,13295 }, {   0,  32 }, {   0,13293 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13289 }, {  13,   0 },
- {   0,  49 }, {   0,13286 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  36 }, {   0,13301 }, {   0,  39 }, {   0,13299 }, {   0,  40 },
+ {   0,13297 }, {   0,  34 }, {   0,13295 }, {   0,  33 }, {   0,13293 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,13289 }, {  13,   0 },
+ {   0,  50 }, {   0,13286 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
  {   0,13267 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
-
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
+
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
-
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
  {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
-
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
-
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
-
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
  { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,13009 }, {   1,-258 },
-
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
  {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
  {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+
  {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
  {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
  {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
  {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
  {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
-
  {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
  {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
  {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
  {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
  {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
  {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
-
  { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
  { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
  { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
-
  { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
  { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
  { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
-
  { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
  { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
-
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
  {   0,   0 }, {   0,12751 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
-
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12493 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
-
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
-
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
-
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
-
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
-
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
  { 256,-258 }, {   0,   0 }, {   0,12235 }, {   1,-1324 }, {   2,-1324 },
+
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
  {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
  {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
-
  {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
  {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
  {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
  {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
-
  {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
  {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
  {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
  {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
+
  { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
  { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
  { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
  { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
  {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
-
  { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
  { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
  { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
  { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
  { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
+
  { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
  { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
  { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
  { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
  { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
-
  { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
  { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
  { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
  { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
  { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
+
  { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
  { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
  { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
  { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
  { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
-
  { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
  { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
  { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
+
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
  {   0,11977 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
  {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11918 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
-
  {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
  {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+
  {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
  {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
  {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
-
  {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
  {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
-
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
  { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
  { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
-
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
-
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
  { 256,   0 }, {   0,   0 }, {   0,11660 }, {   1,-258 }, {   2,-258 },
-
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
  {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
  {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
  {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+
  {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
  {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
  {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
  {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
  {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
-
  {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
  {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
  {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
  {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
  {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+
  {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
  {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
  {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
  {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
  {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
-
  { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
  { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
  { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
  { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
  { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+
  { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
  { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
  { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
  { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
  { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
-
  { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
  { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
  { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
  { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
  { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+
  { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
  { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
  { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
  { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
  { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
-
  { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
  { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
  { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
  { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
  { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+
  { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
  { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
  { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
-
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
  {   0,11402 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,3487 },
  {  10,3487 }, {  11,-2157 }, {  12,-2157 }, {  13,3487 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
+
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
  {  30,-2157 }, {  31,-2157 }, {  32,3487 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
  {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
  {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
  {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
  {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
+
  {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
  {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
  {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
  {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
  {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
  { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
  { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
  { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
  { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
+
  { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
  { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
  { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
  { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
  { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
-
  { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
  { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
  { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
  { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
  { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
+
  { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
  { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
  { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
  { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
  { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
-
  { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
  { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
  { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
  { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
  { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
+
  { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
  { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
  { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
  { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
  { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
-
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
  { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,11144 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
+
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
  {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
  {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
  {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
  {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
  {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
  {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
  {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
+
  {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
  {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
  {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
  {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
  {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
-
  {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
  { 107,-2415 }, { 108,3289 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
  { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
  { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
  { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
-
  { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
  { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
  { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
  { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
  { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
+
  { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
  { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
  { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
  { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
  { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
-
  { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
  { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
  { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
  { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
  { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
+
  { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
  { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
  { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
  { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
  { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
-
  { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
  {   0,   0 }, {   0,10886 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
  {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
  {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
-
  {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
  {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
+
  {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
  {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
  {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
  {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
  {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
-
  {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
  {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
+
  { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3289 },
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
  { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
  { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
-
  { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
  { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
  { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
  { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
  { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
+
  { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
  { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
  { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
  { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
  { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
-
  { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
  { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
  { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
  { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
  { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
+
  { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
  { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
  { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
  { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
  { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
-
  { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
  { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
+
  { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10628 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
  {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
-
  {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
  {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
  {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
+
  {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
  {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
  {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
  {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
  {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
-
  {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
  {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
  {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
  {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
+
  {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
  { 116,-2931 }, { 117,3289 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
-
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
  { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
  { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
  { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
+
  { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
  { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
  { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
  { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
  { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
-
  { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
  { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
  { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
  { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
  { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
+
  { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
  { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
  { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
  { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
  { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
-
  { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
  { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
  { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
  { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
+
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
  { 256,-2931 }, {   0,   0 }, {   0,10370 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
-
  {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
  {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
  {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
  {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
  {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
  {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
  {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
-
  {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
  {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
  {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
  {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
  {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
+
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
  {  98,-3189 }, {  99,-3189 }, { 100,3289 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
-
  { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
  { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
  {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
  { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
  { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
+
  { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
  { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
  { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
  { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
  { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
-
  { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
  { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
  { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
  { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
  { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
+
  { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
  { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
  { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
  { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
  { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
-
  { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
  { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
  { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
  { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
  { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
+
  { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,10112 }, {   0,  37 }, {   0,10110 }, {   0,   0 }, {   0,10108 },
-
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
+ {   0,10112 }, {   0,  38 }, {   0,10110 }, {   0,   0 }, {   0,10108 },
  {   0,   0 }, {   0,10106 }, {   0,   0 }, {   0,10104 }, {   9,3289 },
  {  10,3289 }, {   0,  13 }, {   0,10100 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {  32,3289 }, {  33, 917 }, {   0,   0 },
  {  35, 919 }, {   0,   0 }, {   0,   0 }, {  38, 921 }, {   0,   0 },
  {   0,   0 }, {  33,3285 }, {  42, 923 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47, 925 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  62, 927 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3291 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 101,1022 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,2225 }, {   0,   0 },
  {   0,   0 }, { 126,3297 }, { 125,2226 }, {   0,   0 }, { 125,2251 },
+
  {   0,   0 }, { 125,2285 }, {   0,   0 }, {   0,   0 }, { 126,3287 },
  {   0,   0 }, {   0,9976 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9718 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
  { 256,-258 }, {   0,  10 }, {   0,9460 }, {   1,   0 }, {   2,   0 },
-
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
  {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
-
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
-
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
  {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
-
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
-
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
-
  { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9203 },
  {   0,   0 }, {   0,9201 }, {   0,   0 }, {   0,9199 }, {   0,   5 },
- {   0,9197 }, {   0,  29 }, {   0,9195 }, {   0,  20 }, {   0,9193 },
- {   0,  27 }, {   0,9191 }, {   0,  30 }, {   0,9189 }, {   0,  21 },
- {   0,9187 }, {   0,  18 }, {   0,9185 }, {   0,   0 }, {   0,   0 },
+ {   0,9197 }, {   0,  30 }, {   0,9195 }, {   0,  21 }, {   0,9193 },
+ {   0,  28 }, {   0,9191 }, {   0,  31 }, {   0,9189 }, {   0,  22 },
+ {   0,9187 }, {   0,  19 }, {   0,9185 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  42,2430 }, {  45,2430 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {  62,2432 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,9090 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, { 123,2400 }, {   0,   0 }, { 123,2401 },
  {   0,   0 }, { 123,2401 }, {   0,   4 }, {   0,9074 }, {   1,2401 },
  {   2,2401 }, {   3,2401 }, {   4,2401 }, {   5,2401 }, {   6,2401 },
  {   7,2401 }, {   8,2401 }, {   9,2401 }, {  10,2289 }, {  11,2401 },
  {  12,2401 }, {  13,2289 }, {  14,2401 }, {  15,2401 }, {  16,2401 },
-
  {  17,2401 }, {  18,2401 }, {  19,2401 }, {  20,2401 }, {  21,2401 },
  {  22,2401 }, {  23,2401 }, {  24,2401 }, {  25,2401 }, {  26,2401 },
  {  27,2401 }, {  28,2401 }, {  29,2401 }, {  30,2401 }, {  31,2401 },
  {  32,2401 }, {  33,2401 }, {  34,2401 }, {  35,2401 }, {  36,2401 },
  {  37,2401 }, {  38,2401 }, {  39,2401 }, {  40,2401 }, {  41,2401 },
+
  {  42,2401 }, {  43,2401 }, {  44,2401 }, {  45,2401 }, {  46,2401 },
  {  47,2401 }, {  48,2401 }, {  49,2401 }, {  50,2401 }, {  51,2401 },
  {  52,2401 }, {  53,2401 }, {  54,2401 }, {  55,2401 }, {  56,2401 },
  {  57,2401 }, {  58,2401 }, {  59,2401 }, {  60,2401 }, {  61,2401 },
  {  62,2401 }, {  63,2401 }, {  64,2401 }, {  65,2401 }, {  66,2401 },
-
  {  67,2401 }, {  68,2401 }, {  69,2401 }, {  70,2401 }, {  71,2401 },
  {  72,2401 }, {  73,2401 }, {  74,2401 }, {  75,2401 }, {  76,2401 },
  {  77,2401 }, {  78,2401 }, {  79,2401 }, {  80,2401 }, {  81,2401 },
  {  82,2401 }, {  83,2401 }, {  84,2401 }, {  85,2401 }, {  86,2401 },
  {  87,2401 }, {  88,2401 }, {  89,2401 }, {  90,2401 }, {  91,2401 },
+
  { 108,2968 }, {  93,2401 }, {  94,2401 }, {  95,2401 }, {  96,2401 },
  {  97,2401 }, {  98,2401 }, {  99,2401 }, { 100,2401 }, { 101,2401 },
  { 102,2401 }, { 103,2401 }, { 104,2401 }, { 105,2401 }, { 106,2401 },
  { 107,2401 }, { 108,2401 }, { 109,2401 }, { 110,2401 }, { 111,2401 },
  { 112,2401 }, { 113,2401 }, { 114,2401 }, { 115,2401 }, { 116,2401 },
-
  { 117,2401 }, { 118,2401 }, { 119,2401 }, { 120,2401 }, { 121,2401 },
  { 122,2401 }, { 123,2658 }, { 124,2401 }, { 125,2401 }, { 126,2401 },
  { 127,2401 }, { 128,2401 }, { 129,2401 }, { 130,2401 }, { 131,2401 },
  { 132,2401 }, { 133,2401 }, { 134,2401 }, { 135,2401 }, { 136,2401 },
  { 137,2401 }, { 138,2401 }, { 139,2401 }, { 140,2401 }, { 141,2401 },
+
  { 142,2401 }, { 143,2401 }, { 144,2401 }, { 145,2401 }, { 146,2401 },
  { 147,2401 }, { 148,2401 }, { 149,2401 }, { 150,2401 }, { 151,2401 },
  { 152,2401 }, { 153,2401 }, { 154,2401 }, { 155,2401 }, { 156,2401 },
  { 157,2401 }, { 158,2401 }, { 159,2401 }, { 160,2401 }, { 161,2401 },
  { 162,2401 }, { 163,2401 }, { 164,2401 }, { 165,2401 }, { 166,2401 },
-
  { 167,2401 }, { 168,2401 }, { 169,2401 }, { 170,2401 }, { 171,2401 },
  { 172,2401 }, { 173,2401 }, { 174,2401 }, { 175,2401 }, { 176,2401 },
  { 177,2401 }, { 178,2401 }, { 179,2401 }, { 180,2401 }, { 181,2401 },
  { 182,2401 }, { 183,2401 }, { 184,2401 }, { 185,2401 }, { 186,2401 },
  { 187,2401 }, { 188,2401 }, { 189,2401 }, { 190,2401 }, { 191,2401 },
+
  { 192,2401 }, { 193,2401 }, { 194,2401 }, { 195,2401 }, { 196,2401 },
  { 197,2401 }, { 198,2401 }, { 199,2401 }, { 200,2401 }, { 201,2401 },
  { 202,2401 }, { 203,2401 }, { 204,2401 }, { 205,2401 }, { 206,2401 },
  { 207,2401 }, { 208,2401 }, { 209,2401 }, { 210,2401 }, { 211,2401 },
  { 212,2401 }, { 213,2401 }, { 214,2401 }, { 215,2401 }, { 216,2401 },
-
  { 217,2401 }, { 218,2401 }, { 219,2401 }, { 220,2401 }, { 221,2401 },
  { 222,2401 }, { 223,2401 }, { 224,2401 }, { 225,2401 }, { 226,2401 },
  { 227,2401 }, { 228,2401 }, { 229,2401 }, { 230,2401 }, { 231,2401 },
  { 232,2401 }, { 233,2401 }, { 234,2401 }, { 235,2401 }, { 236,2401 },
  { 237,2401 }, { 238,2401 }, { 239,2401 }, { 240,2401 }, { 241,2401 },
+
  { 242,2401 }, { 243,2401 }, { 244,2401 }, { 245,2401 }, { 246,2401 },
  { 247,2401 }, { 248,2401 }, { 249,2401 }, { 250,2401 }, { 251,2401 },
- { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  38 },
+ { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  39 },
  {   0,8817 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
-
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
  {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
  {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
  {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
  {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
+
  {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
  {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
  {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
  {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
  {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
-
  {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
  {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
  {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
  {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
  {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
+
  {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
  {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
  {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
  { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
  { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
-
  { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
  { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
  { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
  { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
  { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
+
  { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
  { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
  { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
  { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
  { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
-
  { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
  { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
  { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
  { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
  { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
+
  { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
  { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
  { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
  { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
  { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
-
  { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
  { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
  { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
  { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
  { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
+
  { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8559 }, {   1,-4192 },
-
+ { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,8559 }, {   1,-4192 },
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
  {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
  {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
  {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
+
  {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
  {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
  {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
  {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
  {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
-
  {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
  {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
  {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
  {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
  {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
+
  {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
  {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
  {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
  {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
  {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
-
  { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
  { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
  { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
  { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
  { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
+
  { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
  { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
  { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
  { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
  { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
-
  { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
  { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
  { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
  { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
  { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
+
  { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
  { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
  { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
  { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
  { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
-
  { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
  { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
  { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
  { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
  { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
+
  { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
  { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
  { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
  { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
-
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
  {   0,   0 }, {   0,8301 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   9,1523 }, {  10,1523 }, {   0,   0 }, {   0,   0 }, {  13,1523 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1523 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,1523 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  49 }, {   0,8173 },
+ {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  50 }, {   0,8173 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
-
  {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
  {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
  {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
  {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
  {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
+
  {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
  {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
  {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
  {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
  {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
-
  {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
  {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
  {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
  {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
  {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
+
  {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
  {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
  { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
  { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
  { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
-
  { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
  { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
  { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
  { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
  { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
+
  { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
  { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
  { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
  { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
  { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
-
  { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
  { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
  { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
  { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
  { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
+
  { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
  { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
  { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
  { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
  { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
-
  { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
  { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
  { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
  { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
  { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
+
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  48 }, {   0,7915 }, {   0,   0 }, {   0,   0 },
+ { 256,-3745 }, {   0,  49 }, {   0,7915 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   9,1756 }, {  10,1756 }, {   0,   0 }, {   0,   0 },
  {  13,1756 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  26 },
- {   0,7887 }, {   0,   0 }, {   0,  36 }, {   0,7884 }, {  32,1756 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  27 },
+ {   0,7887 }, {   0,   0 }, {   0,  37 }, {   0,7884 }, {  32,1756 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,7857 }, {   0,   0 }, {   0,7855 }, {   1,-5704 }, {   2,-5704 },
  {   3,-5704 }, {   4,-5704 }, {   5,-5704 }, {   6,-5704 }, {   7,-5704 },
  {   8,-5704 }, {   9,-5729 }, {  10,-5729 }, {  11,-5704 }, {  12,-5704 },
  {  13,-5729 }, {  14,-5704 }, {  15,-5704 }, {  16,-5704 }, {  17,-5704 },
  {  18,-5704 }, {  19,-5704 }, {  20,-5704 }, {  21,-5704 }, {  22,-5704 },
+
  {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
  {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  37 }, {   0,7821 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,  38 }, {   0,7821 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
-
  {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
  {  53,-5704 }, {  54,-5704 }, {  55,-5704 }, {  56,-5704 }, {  57,-5704 },
  {  58,-5704 }, {   0,   0 }, {   0,   0 }, {  61,-5729 }, {   0,   0 },
  {  63,-5704 }, { 124,1145 }, {  65,-5704 }, {  66,-5704 }, {  67,-5704 },
  {  68,-5704 }, {  69,-5704 }, {  70,-5704 }, {  71,-5704 }, {  72,-5704 },
+
  {  73,-5704 }, {  74,-5704 }, {  75,-5704 }, {  76,-5704 }, {  77,-5704 },
  {  78,-5704 }, {  79,-5704 }, {  80,-5704 }, {  81,-5704 }, {  82,-5704 },
  {  83,-5704 }, {  84,-5704 }, {  85,-5704 }, {  86,-5704 }, {  87,-5704 },
  {  88,-5704 }, {  89,-5704 }, {  90,-5704 }, { 123,1767 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-5704 }, { 125,1768 }, {  97,-5704 },
-
  {  98,-5704 }, {  99,-5704 }, { 100,-5704 }, { 101,-5704 }, { 102,-5704 },
  { 103,-5704 }, { 104,-5704 }, { 105,-5704 }, { 106,-5704 }, { 107,-5704 },
  { 108,-5704 }, { 109,-5704 }, { 110,-5704 }, { 111,-5704 }, { 112,-5704 },
  { 113,-5704 }, { 114,-5704 }, { 115,1756 }, { 116,-5704 }, { 117,-5704 },
  { 118,-5704 }, { 119,-5704 }, { 120,-5704 }, { 121,-5704 }, { 122,-5704 },
+
  { 125,1743 }, { 124,-5729 }, { 125,-5729 }, { 126,-5729 }, { 127,-5704 },
  { 128,-5704 }, { 129,-5704 }, { 130,-5704 }, { 131,-5704 }, { 132,-5704 },
  { 133,-5704 }, { 134,-5704 }, { 135,-5704 }, { 136,-5704 }, { 137,-5704 },
  { 138,-5704 }, { 139,-5704 }, { 140,-5704 }, { 141,-5704 }, { 142,-5704 },
  { 143,-5704 }, { 144,-5704 }, { 145,-5704 }, { 146,-5704 }, { 147,-5704 },
-
  { 148,-5704 }, { 149,-5704 }, { 150,-5704 }, { 151,-5704 }, { 152,-5704 },
  { 153,-5704 }, { 154,-5704 }, { 155,-5704 }, { 156,-5704 }, { 157,-5704 },
  { 158,-5704 }, { 159,-5704 }, { 160,-5704 }, { 161,-5704 }, { 162,-5704 },
  { 163,-5704 }, { 164,-5704 }, { 165,-5704 }, { 166,-5704 }, { 167,-5704 },
  { 168,-5704 }, { 169,-5704 }, { 170,-5704 }, { 171,-5704 }, { 172,-5704 },
+
  { 173,-5704 }, { 174,-5704 }, { 175,-5704 }, { 176,-5704 }, { 177,-5704 },
  { 178,-5704 }, { 179,-5704 }, { 180,-5704 }, { 181,-5704 }, { 182,-5704 },
  { 183,-5704 }, { 184,-5704 }, { 185,-5704 }, { 186,-5704 }, { 187,-5704 },
  { 188,-5704 }, { 189,-5704 }, { 190,-5704 }, { 191,-5704 }, { 192,-5704 },
  { 193,-5704 }, { 194,-5704 }, { 195,-5704 }, { 196,-5704 }, { 197,-5704 },
-
  { 198,-5704 }, { 199,-5704 }, { 200,-5704 }, { 201,-5704 }, { 202,-5704 },
  { 203,-5704 }, { 204,-5704 }, { 205,-5704 }, { 206,-5704 }, { 207,-5704 },
  { 208,-5704 }, { 209,-5704 }, { 210,-5704 }, { 211,-5704 }, { 212,-5704 },
  { 213,-5704 }, { 214,-5704 }, { 215,-5704 }, { 216,-5704 }, { 217,-5704 },
  { 218,-5704 }, { 219,-5704 }, { 220,-5704 }, { 221,-5704 }, { 222,-5704 },
+
  { 223,-5704 }, { 224,-5704 }, { 225,-5704 }, { 226,-5704 }, { 227,-5704 },
  { 228,-5704 }, { 229,-5704 }, { 230,-5704 }, { 231,-5704 }, { 232,-5704 },
  { 233,-5704 }, { 234,-5704 }, { 235,-5704 }, { 236,-5704 }, { 237,-5704 },
  { 238,-5704 }, { 239,-5704 }, { 240,-5704 }, { 241,-5704 }, { 242,-5704 },
  { 243,-5704 }, { 244,-5704 }, { 245,-5704 }, { 246,-5704 }, { 247,-5704 },
-
  { 248,-5704 }, { 249,-5704 }, { 250,-5704 }, { 251,-5704 }, { 252,-5704 },
  { 253,-5704 }, { 254,-5704 }, { 255,-5704 }, { 256,-5704 }, {   0,   0 },
  {   0,7597 }, {   1,-5962 }, {   2,-5962 }, {   3,-5962 }, {   4,-5962 },
  {   5,-5962 }, {   6,-5962 }, {   7,-5962 }, {   8,-5962 }, {   9,-5987 },
  {  10,-5987 }, {  11,-5962 }, {  12,-5962 }, {  13,-5987 }, {  14,-5962 },
+
  {  15,-5962 }, {  16,-5962 }, {  17,-5962 }, {  18,-5962 }, {  19,-5962 },
  {  20,-5962 }, {  21,-5962 }, {  22,-5962 }, {  23,-5962 }, {  24,-5962 },
  {  25,-5962 }, {  26,-5962 }, {  27,-5962 }, {  28,-5962 }, {  29,-5962 },
  {  30,-5962 }, {  31,-5962 }, {  32,-5987 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {  41,-5987 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-5962 }, {  46,-5987 }, {  47,-5987 }, {  48,-5962 }, {  49,-5962 },
  {  50,-5962 }, {  51,-5962 }, {  52,-5962 }, {  53,-5962 }, {  54,-5962 },
  {  55,-5962 }, {  56,-5962 }, {  57,-5962 }, {  58,-5962 }, {   0,   0 },
  {   0,   0 }, {  61,-5987 }, {   0,   0 }, {  63,-5962 }, {   0,   0 },
+
  {  65,-5962 }, {  66,-5962 }, {  67,-5962 }, {  68,-5962 }, {  69,-5962 },
  {  70,-5962 }, {  71,-5962 }, {  72,-5962 }, {  73,-5962 }, {  74,-5962 },
  {  75,-5962 }, {  76,-5962 }, {  77,-5962 }, {  78,-5962 }, {  79,-5962 },
  {  80,-5962 }, {  81,-5962 }, {  82,-5962 }, {  83,-5962 }, {  84,-5962 },
  {  85,-5962 }, {  86,-5962 }, {  87,-5962 }, {  88,-5962 }, {  89,-5962 },
-
  {  90,-5962 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-5962 }, {   0,   0 }, {  97,-5962 }, {  98,-5962 }, {  99,-5962 },
  { 100,-5962 }, { 101,-5962 }, { 102,-5962 }, { 103,-5962 }, { 104,-5962 },
  { 105,-5962 }, { 106,-5962 }, { 107,-5962 }, { 108,1756 }, { 109,-5962 },
  { 110,-5962 }, { 111,-5962 }, { 112,-5962 }, { 113,-5962 }, { 114,-5962 },
+
  { 115,-5962 }, { 116,-5962 }, { 117,-5962 }, { 118,-5962 }, { 119,-5962 },
  { 120,-5962 }, { 121,-5962 }, { 122,-5962 }, {   0,   0 }, { 124,-5987 },
  { 125,-5987 }, { 126,-5987 }, { 127,-5962 }, { 128,-5962 }, { 129,-5962 },
  { 130,-5962 }, { 131,-5962 }, { 132,-5962 }, { 133,-5962 }, { 134,-5962 },
  { 135,-5962 }, { 136,-5962 }, { 137,-5962 }, { 138,-5962 }, { 139,-5962 },
-
  { 140,-5962 }, { 141,-5962 }, { 142,-5962 }, { 143,-5962 }, { 144,-5962 },
  { 145,-5962 }, { 146,-5962 }, { 147,-5962 }, { 148,-5962 }, { 149,-5962 },
  { 150,-5962 }, { 151,-5962 }, { 152,-5962 }, { 153,-5962 }, { 154,-5962 },
  { 155,-5962 }, { 156,-5962 }, { 157,-5962 }, { 158,-5962 }, { 159,-5962 },
  { 160,-5962 }, { 161,-5962 }, { 162,-5962 }, { 163,-5962 }, { 164,-5962 },
+
  { 165,-5962 }, { 166,-5962 }, { 167,-5962 }, { 168,-5962 }, { 169,-5962 },
  { 170,-5962 }, { 171,-5962 }, { 172,-5962 }, { 173,-5962 }, { 174,-5962 },
  { 175,-5962 }, { 176,-5962 }, { 177,-5962 }, { 178,-5962 }, { 179,-5962 },
  { 180,-5962 }, { 181,-5962 }, { 182,-5962 }, { 183,-5962 }, { 184,-5962 },
  { 185,-5962 }, { 186,-5962 }, { 187,-5962 }, { 188,-5962 }, { 189,-5962 },
-
  { 190,-5962 }, { 191,-5962 }, { 192,-5962 }, { 193,-5962 }, { 194,-5962 },
  { 195,-5962 }, { 196,-5962 }, { 197,-5962 }, { 198,-5962 }, { 199,-5962 },
  { 200,-5962 }, { 201,-5962 }, { 202,-5962 }, { 203,-5962 }, { 204,-5962 },
  { 205,-5962 }, { 206,-5962 }, { 207,-5962 }, { 208,-5962 }, { 209,-5962 },
  { 210,-5962 }, { 211,-5962 }, { 212,-5962 }, { 213,-5962 }, { 214,-5962 },
+
  { 215,-5962 }, { 216,-5962 }, { 217,-5962 }, { 218,-5962 }, { 219,-5962 },
  { 220,-5962 }, { 221,-5962 }, { 222,-5962 }, { 223,-5962 }, { 224,-5962 },
  { 225,-5962 }, { 226,-5962 }, { 227,-5962 }, { 228,-5962 }, { 229,-5962 },
  { 230,-5962 }, { 231,-5962 }, { 232,-5962 }, { 233,-5962 }, { 234,-5962 },
  { 235,-5962 }, { 236,-5962 }, { 237,-5962 }, { 238,-5962 }, { 239,-5962 },
-
  { 240,-5962 }, { 241,-5962 }, { 242,-5962 }, { 243,-5962 }, { 244,-5962 },
  { 245,-5962 }, { 246,-5962 }, { 247,-5962 }, { 248,-5962 }, { 249,-5962 },
  { 250,-5962 }, { 251,-5962 }, { 252,-5962 }, { 253,-5962 }, { 254,-5962 },
  { 255,-5962 }, { 256,-5962 }, {   0,   0 }, {   0,7339 }, {   1,-6220 },
  {   2,-6220 }, {   3,-6220 }, {   4,-6220 }, {   5,-6220 }, {   6,-6220 },
+
  {   7,-6220 }, {   8,-6220 }, {   9,-6245 }, {  10,-6245 }, {  11,-6220 },
  {  12,-6220 }, {  13,-6245 }, {  14,-6220 }, {  15,-6220 }, {  16,-6220 },
  {  17,-6220 }, {  18,-6220 }, {  19,-6220 }, {  20,-6220 }, {  21,-6220 },
  {  22,-6220 }, {  23,-6220 }, {  24,-6220 }, {  25,-6220 }, {  26,-6220 },
  {  27,-6220 }, {  28,-6220 }, {  29,-6220 }, {  30,-6220 }, {  31,-6220 },
-
  {  32,-6245 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6220 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6245 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6220 }, {  46,-6245 },
  {  47,-6245 }, {  48,-6220 }, {  49,-6220 }, {  50,-6220 }, {  51,-6220 },
  {  52,-6220 }, {  53,-6220 }, {  54,-6220 }, {  55,-6220 }, {  56,-6220 },
+
  {  57,-6220 }, {  58,-6220 }, {   0,   0 }, {   0,   0 }, {  61,-6245 },
  {   0,   0 }, {  63,-6220 }, {   0,   0 }, {  65,-6220 }, {  66,-6220 },
  {  67,-6220 }, {  68,-6220 }, {  69,-6220 }, {  70,-6220 }, {  71,-6220 },
  {  72,-6220 }, {  73,-6220 }, {  74,-6220 }, {  75,-6220 }, {  76,-6220 },
  {  77,-6220 }, {  78,-6220 }, {  79,-6220 }, {  80,-6220 }, {  81,-6220 },
-
  {  82,-6220 }, {  83,-6220 }, {  84,-6220 }, {  85,-6220 }, {  86,-6220 },
  {  87,-6220 }, {  88,-6220 }, {  89,-6220 }, {  90,-6220 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6220 }, {   0,   0 },
  {  97,-6220 }, {  98,-6220 }, {  99,-6220 }, { 100,-6220 }, { 101,1756 },
  { 102,-6220 }, { 103,-6220 }, { 104,-6220 }, { 105,-6220 }, { 106,-6220 },
+
  { 107,-6220 }, { 108,-6220 }, { 109,-6220 }, { 110,-6220 }, { 111,-6220 },
  { 112,-6220 }, { 113,-6220 }, { 114,-6220 }, { 115,-6220 }, { 116,-6220 },
  { 117,-6220 }, { 118,-6220 }, { 119,-6220 }, { 120,-6220 }, { 121,-6220 },
  { 122,-6220 }, {   0,   0 }, { 124,-6245 }, { 125,-6245 }, { 126,-6245 },
  { 127,-6220 }, { 128,-6220 }, { 129,-6220 }, { 130,-6220 }, { 131,-6220 },
-
  { 132,-6220 }, { 133,-6220 }, { 134,-6220 }, { 135,-6220 }, { 136,-6220 },
  { 137,-6220 }, { 138,-6220 }, { 139,-6220 }, { 140,-6220 }, { 141,-6220 },
  { 142,-6220 }, { 143,-6220 }, { 144,-6220 }, { 145,-6220 }, { 146,-6220 },
  { 147,-6220 }, { 148,-6220 }, { 149,-6220 }, { 150,-6220 }, { 151,-6220 },
  { 152,-6220 }, { 153,-6220 }, { 154,-6220 }, { 155,-6220 }, { 156,-6220 },
+
  { 157,-6220 }, { 158,-6220 }, { 159,-6220 }, { 160,-6220 }, { 161,-6220 },
  { 162,-6220 }, { 163,-6220 }, { 164,-6220 }, { 165,-6220 }, { 166,-6220 },
  { 167,-6220 }, { 168,-6220 }, { 169,-6220 }, { 170,-6220 }, { 171,-6220 },
  { 172,-6220 }, { 173,-6220 }, { 174,-6220 }, { 175,-6220 }, { 176,-6220 },
  { 177,-6220 }, { 178,-6220 }, { 179,-6220 }, { 180,-6220 }, { 181,-6220 },
-
  { 182,-6220 }, { 183,-6220 }, { 184,-6220 }, { 185,-6220 }, { 186,-6220 },
  { 187,-6220 }, { 188,-6220 }, { 189,-6220 }, { 190,-6220 }, { 191,-6220 },
  { 192,-6220 }, { 193,-6220 }, { 194,-6220 }, { 195,-6220 }, { 196,-6220 },
  { 197,-6220 }, { 198,-6220 }, { 199,-6220 }, { 200,-6220 }, { 201,-6220 },
  { 202,-6220 }, { 203,-6220 }, { 204,-6220 }, { 205,-6220 }, { 206,-6220 },
+
  { 207,-6220 }, { 208,-6220 }, { 209,-6220 }, { 210,-6220 }, { 211,-6220 },
  { 212,-6220 }, { 213,-6220 }, { 214,-6220 }, { 215,-6220 }, { 216,-6220 },
  { 217,-6220 }, { 218,-6220 }, { 219,-6220 }, { 220,-6220 }, { 221,-6220 },
  { 222,-6220 }, { 223,-6220 }, { 224,-6220 }, { 225,-6220 }, { 226,-6220 },
  { 227,-6220 }, { 228,-6220 }, { 229,-6220 }, { 230,-6220 }, { 231,-6220 },
-
  { 232,-6220 }, { 233,-6220 }, { 234,-6220 }, { 235,-6220 }, { 236,-6220 },
  { 237,-6220 }, { 238,-6220 }, { 239,-6220 }, { 240,-6220 }, { 241,-6220 },
  { 242,-6220 }, { 243,-6220 }, { 244,-6220 }, { 245,-6220 }, { 246,-6220 },
  { 247,-6220 }, { 248,-6220 }, { 249,-6220 }, { 250,-6220 }, { 251,-6220 },
  { 252,-6220 }, { 253,-6220 }, { 254,-6220 }, { 255,-6220 }, { 256,-6220 },
+
  {   0,   0 }, {   0,7081 }, {   1,-6478 }, {   2,-6478 }, {   3,-6478 },
  {   4,-6478 }, {   5,-6478 }, {   6,-6478 }, {   7,-6478 }, {   8,-6478 },
  {   9,-6503 }, {  10,-6503 }, {  11,-6478 }, {  12,-6478 }, {  13,-6503 },
  {  14,-6478 }, {  15,-6478 }, {  16,-6478 }, {  17,-6478 }, {  18,-6478 },
  {  19,-6478 }, {  20,-6478 }, {  21,-6478 }, {  22,-6478 }, {  23,-6478 },
-
  {  24,-6478 }, {  25,-6478 }, {  26,-6478 }, {  27,-6478 }, {  28,-6478 },
  {  29,-6478 }, {  30,-6478 }, {  31,-6478 }, {  32,-6503 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-6478 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-6503 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-6478 }, {  46,-6503 }, {  47,-6503 }, {  48,-6478 },
+
  {  49,-6478 }, {  50,-6478 }, {  51,-6478 }, {  52,-6478 }, {  53,-6478 },
  {  54,-6478 }, {  55,-6478 }, {  56,-6478 }, {  57,-6478 }, {  58,-6478 },
  {   0,   0 }, {   0,   0 }, {  61,-6503 }, {   0,   0 }, {  63,-6478 },
  {   0,   0 }, {  65,-6478 }, {  66,-6478 }, {  67,-6478 }, {  68,-6478 },
  {  69,-6478 }, {  70,-6478 }, {  71,-6478 }, {  72,-6478 }, {  73,-6478 },
-
  {  74,-6478 }, {  75,-6478 }, {  76,-6478 }, {  77,-6478 }, {  78,-6478 },
  {  79,-6478 }, {  80,-6478 }, {  81,-6478 }, {  82,-6478 }, {  83,-6478 },
  {  84,-6478 }, {  85,-6478 }, {  86,-6478 }, {  87,-6478 }, {  88,-6478 },
  {  89,-6478 }, {  90,-6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6478 }, {   0,   0 }, {  97,-6478 }, {  98,-6478 },
+
  {  99,-6478 }, { 100,-6478 }, { 101,1756 }, { 102,-6478 }, { 103,-6478 },
  { 104,-6478 }, { 105,-6478 }, { 106,-6478 }, { 107,-6478 }, { 108,-6478 },
  { 109,-6478 }, { 110,-6478 }, { 111,-6478 }, { 112,-6478 }, { 113,-6478 },
  { 114,-6478 }, { 115,-6478 }, { 116,-6478 }, { 117,-6478 }, { 118,-6478 },
  { 119,-6478 }, { 120,-6478 }, { 121,-6478 }, { 122,-6478 }, {   0,   0 },
-
  { 124,-6503 }, { 125,-6503 }, { 126,-6503 }, { 127,-6478 }, { 128,-6478 },
  { 129,-6478 }, { 130,-6478 }, { 131,-6478 }, { 132,-6478 }, { 133,-6478 },
  { 134,-6478 }, { 135,-6478 }, { 136,-6478 }, { 137,-6478 }, { 138,-6478 },
  { 139,-6478 }, { 140,-6478 }, { 141,-6478 }, { 142,-6478 }, { 143,-6478 },
  { 144,-6478 }, { 145,-6478 }, { 146,-6478 }, { 147,-6478 }, { 148,-6478 },
+
  { 149,-6478 }, { 150,-6478 }, { 151,-6478 }, { 152,-6478 }, { 153,-6478 },
  { 154,-6478 }, { 155,-6478 }, { 156,-6478 }, { 157,-6478 }, { 158,-6478 },
  { 159,-6478 }, { 160,-6478 }, { 161,-6478 }, { 162,-6478 }, { 163,-6478 },
  { 164,-6478 }, { 165,-6478 }, { 166,-6478 }, { 167,-6478 }, { 168,-6478 },
  { 169,-6478 }, { 170,-6478 }, { 171,-6478 }, { 172,-6478 }, { 173,-6478 },
-
  { 174,-6478 }, { 175,-6478 }, { 176,-6478 }, { 177,-6478 }, { 178,-6478 },
  { 179,-6478 }, { 180,-6478 }, { 181,-6478 }, { 182,-6478 }, { 183,-6478 },
  { 184,-6478 }, { 185,-6478 }, { 186,-6478 }, { 187,-6478 }, { 188,-6478 },
  { 189,-6478 }, { 190,-6478 }, { 191,-6478 }, { 192,-6478 }, { 193,-6478 },
  { 194,-6478 }, { 195,-6478 }, { 196,-6478 }, { 197,-6478 }, { 198,-6478 },
+
  { 199,-6478 }, { 200,-6478 }, { 201,-6478 }, { 202,-6478 }, { 203,-6478 },
  { 204,-6478 }, { 205,-6478 }, { 206,-6478 }, { 207,-6478 }, { 208,-6478 },
  { 209,-6478 }, { 210,-6478 }, { 211,-6478 }, { 212,-6478 }, { 213,-6478 },
  { 214,-6478 }, { 215,-6478 }, { 216,-6478 }, { 217,-6478 }, { 218,-6478 },
  { 219,-6478 }, { 220,-6478 }, { 221,-6478 }, { 222,-6478 }, { 223,-6478 },
-
  { 224,-6478 }, { 225,-6478 }, { 226,-6478 }, { 227,-6478 }, { 228,-6478 },
  { 229,-6478 }, { 230,-6478 }, { 231,-6478 }, { 232,-6478 }, { 233,-6478 },
  { 234,-6478 }, { 235,-6478 }, { 236,-6478 }, { 237,-6478 }, { 238,-6478 },
  { 239,-6478 }, { 240,-6478 }, { 241,-6478 }, { 242,-6478 }, { 243,-6478 },
  { 244,-6478 }, { 245,-6478 }, { 246,-6478 }, { 247,-6478 }, { 248,-6478 },
+
  { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
  { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6823 },
- {   0,  24 }, {   0,6821 }, {   0,   0 }, {   0,6819 }, {   0,   0 },
- {   0,6817 }, {   0,  30 }, {   0,6815 }, {   9,   0 }, {  10,   0 },
+ {   0,  25 }, {   0,6821 }, {   0,   0 }, {   0,6819 }, {   0,   0 },
+ {   0,6817 }, {   0,  31 }, {   0,6815 }, {   9,   0 }, {  10,   0 },
  {   9,1754 }, {  10,1754 }, {  13,   0 }, {   0,   0 }, {  13,1754 },
-
  {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,6803 },
  {  13,  -8 }, {   0,   0 }, {   0,6800 }, {   0,   1 }, {   0,6798 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,1754 }, {   0,   0 },
  {   0,   0 }, {   0,   4 }, {   0,6785 }, {  33,  -2 }, {  32,  -8 },
- {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  47 }, {   0,6778 },
- {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45,1880 }, {  42,-2374 },
- {  13,   0 }, {   0,  41 }, {   0,6770 }, {   0,   0 }, {  47,-2372 },
- {   0,   0 }, {   0,   0 }, {   0,6765 }, {   0,  20 }, {   0,6763 },
- {   0,  19 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  48 }, {   0,6778 },
+ {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45,1880 }, {  42,-2374 },
+ {  13,   0 }, {   0,  42 }, {   0,6770 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,6765 }, {   0,  21 }, {   0,6763 },
+ {   0,  20 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 101,-2267 }, {  94,  -6 }, {  45,2350 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,-2275 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,6706 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 125, 115 }, { 126, 688 }, {   0,   0 }, {   0,   0 },
  { 123, 697 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, { 123,2122 }, {   0,   0 }, {   0,   0 },
  { 123,2377 }, {   0,   0 }, { 123,2377 }, {   0,   4 }, {   0,6673 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-112 },
  {  11,   0 }, {  12,   0 }, {  13,-112 }, {  14,   0 }, {  15,   0 },
-
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
  {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
  {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
+
  {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
  {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
  {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
-
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
+
  {  91,   0 }, { 125,2293 }, {  93,   0 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
-
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
  { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 },
  { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
+
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
-
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
+
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
-
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
+
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
  {   0,   4 }, {   0,6416 }, {   1,-257 }, {   2,-257 }, {   3,-257 },
  {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 },
-
  {   9,-257 }, {  10,-369 }, {  11,-257 }, {  12,-257 }, {  13,-369 },
  {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 },
  {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 },
  {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 },
  {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 },
+
  {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 },
  {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 },
  {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 },
  {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 },
  {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 },
-
  {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 },
  {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 },
  {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 },
  {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 },
  {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 },
+
  {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 },
  {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 },
  {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 },
  {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 },
  { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 },
-
  { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 },
  { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 },
  { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 },
  { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 },
  { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 },
+
  { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 },
  { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 },
  { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 },
  { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 },
  { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 },
-
  { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 },
  { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 },
  { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 },
  { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 },
  { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 },
+
  { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 },
  { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 },
  { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 },
  { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 },
  { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 },
-
  { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 },
  { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 },
  { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 },
  { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 },
  { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 },
+
  { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 },
  { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 },
  { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 },
  { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 },
  { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,6159 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   9,   0 }, {  10,   0 }, {   0,   0 },
  {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6133 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,6122 }, {   0,  16 }, {   0,6120 }, {   0,  26 }, {   0,6118 },
- {   0,  17 }, {   0,6116 }, {   0,  36 }, {   0,6114 }, {   0,   0 },
+ {   0,6122 }, {   0,  17 }, {   0,6120 }, {   0,  27 }, {   0,6118 },
+ {   0,  18 }, {   0,6116 }, {   0,  37 }, {   0,6114 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6099 }, {   1,-7460 },
  {   2,-7460 }, {   3,-7460 }, {   4,-7460 }, {   5,-7460 }, {   6,-7460 },
  {   7,-7460 }, {   8,-7460 }, {   9,-7485 }, {  10,-7485 }, {  11,-7460 },
  {  12,-7460 }, {  13,-7485 }, {  14,-7460 }, {  15,-7460 }, {  16,-7460 },
+
  {  17,-7460 }, {  18,-7460 }, {  19,-7460 }, {  20,-7460 }, {  21,-7460 },
  {  22,-7460 }, {  23,-7460 }, {  24,-7460 }, {  25,-7460 }, {  26,-7460 },
  {  27,-7460 }, {  28,-7460 }, {  29,-7460 }, {  30,-7460 }, {  31,-7460 },
  {  32,-7485 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7460 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7485 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7460 }, {  46,-7485 },
  {  47,-7485 }, {  48,-7460 }, {  49,-7460 }, {  50,-7460 }, {  51,-7460 },
  {  52,-7460 }, {  53,-7460 }, {  54,-7460 }, {  55,-7460 }, {  56,-7460 },
  {  57,-7460 }, {  58,-7460 }, {   0,   0 }, {   0,   0 }, {  61,-7485 },
  {   0,   0 }, {  63,-7460 }, { 124,-611 }, {  65,-7460 }, {  66,-7460 },
+
  {  67,-7460 }, {  68,-7460 }, {  69,-7460 }, {  70,-7460 }, {  71,-7460 },
  {  72,-7460 }, {  73,-7460 }, {  74,-7460 }, {  75,-7460 }, {  76,-7460 },
  {  77,-7460 }, {  78,-7460 }, {  79,-7460 }, {  80,-7460 }, {  81,-7460 },
  {  82,-7460 }, {  83,-7460 }, {  84,-7460 }, {  85,-7460 }, {  86,-7460 },
  {  87,-7460 }, {  88,-7460 }, {  89,-7460 }, {  90,-7460 }, { 125,-573 },
-
  { 115,1716 }, {   0,   0 }, {   0,   0 }, {  95,-7460 }, {   0,   0 },
  {  97,-7460 }, {  98,-7460 }, {  99,-7460 }, { 100,-7460 }, { 101,1703 },
  { 102,-7460 }, { 103,-7460 }, { 104,-7460 }, { 105,-7460 }, { 106,-7460 },
  { 107,-7460 }, { 108,-7460 }, { 109,-7460 }, { 110,-7460 }, { 111,-7460 },
  { 112,-7460 }, { 113,-7460 }, { 114,-7460 }, { 115,-7460 }, { 116,-7460 },
+
  { 117,-7460 }, { 118,-7460 }, { 119,-7460 }, { 120,-7460 }, { 121,-7460 },
  { 122,-7460 }, {   0,   0 }, { 124,-7485 }, { 125,-7485 }, { 126,-7485 },
  { 127,-7460 }, { 128,-7460 }, { 129,-7460 }, { 130,-7460 }, { 131,-7460 },
  { 132,-7460 }, { 133,-7460 }, { 134,-7460 }, { 135,-7460 }, { 136,-7460 },
  { 137,-7460 }, { 138,-7460 }, { 139,-7460 }, { 140,-7460 }, { 141,-7460 },
-
  { 142,-7460 }, { 143,-7460 }, { 144,-7460 }, { 145,-7460 }, { 146,-7460 },
  { 147,-7460 }, { 148,-7460 }, { 149,-7460 }, { 150,-7460 }, { 151,-7460 },
  { 152,-7460 }, { 153,-7460 }, { 154,-7460 }, { 155,-7460 }, { 156,-7460 },
  { 157,-7460 }, { 158,-7460 }, { 159,-7460 }, { 160,-7460 }, { 161,-7460 },
  { 162,-7460 }, { 163,-7460 }, { 164,-7460 }, { 165,-7460 }, { 166,-7460 },
+
  { 167,-7460 }, { 168,-7460 }, { 169,-7460 }, { 170,-7460 }, { 171,-7460 },
  { 172,-7460 }, { 173,-7460 }, { 174,-7460 }, { 175,-7460 }, { 176,-7460 },
  { 177,-7460 }, { 178,-7460 }, { 179,-7460 }, { 180,-7460 }, { 181,-7460 },
  { 182,-7460 }, { 183,-7460 }, { 184,-7460 }, { 185,-7460 }, { 186,-7460 },
  { 187,-7460 }, { 188,-7460 }, { 189,-7460 }, { 190,-7460 }, { 191,-7460 },
-
  { 192,-7460 }, { 193,-7460 }, { 194,-7460 }, { 195,-7460 }, { 196,-7460 },
  { 197,-7460 }, { 198,-7460 }, { 199,-7460 }, { 200,-7460 }, { 201,-7460 },
  { 202,-7460 }, { 203,-7460 }, { 204,-7460 }, { 205,-7460 }, { 206,-7460 },
  { 207,-7460 }, { 208,-7460 }, { 209,-7460 }, { 210,-7460 }, { 211,-7460 },
  { 212,-7460 }, { 213,-7460 }, { 214,-7460 }, { 215,-7460 }, { 216,-7460 },
+
  { 217,-7460 }, { 218,-7460 }, { 219,-7460 }, { 220,-7460 }, { 221,-7460 },
  { 222,-7460 }, { 223,-7460 }, { 224,-7460 }, { 225,-7460 }, { 226,-7460 },
  { 227,-7460 }, { 228,-7460 }, { 229,-7460 }, { 230,-7460 }, { 231,-7460 },
  { 232,-7460 }, { 233,-7460 }, { 234,-7460 }, { 235,-7460 }, { 236,-7460 },
  { 237,-7460 }, { 238,-7460 }, { 239,-7460 }, { 240,-7460 }, { 241,-7460 },
-
  { 242,-7460 }, { 243,-7460 }, { 244,-7460 }, { 245,-7460 }, { 246,-7460 },
  { 247,-7460 }, { 248,-7460 }, { 249,-7460 }, { 250,-7460 }, { 251,-7460 },
  { 252,-7460 }, { 253,-7460 }, { 254,-7460 }, { 255,-7460 }, { 256,-7460 },
  {   0,   0 }, {   0,5841 }, {   1,-7718 }, {   2,-7718 }, {   3,-7718 },
  {   4,-7718 }, {   5,-7718 }, {   6,-7718 }, {   7,-7718 }, {   8,-7718 },
+
  {   9,1422 }, {  10,1422 }, {  11,-7718 }, {  12,-7718 }, {  13,1422 },
  {  14,-7718 }, {  15,-7718 }, {  16,-7718 }, {  17,-7718 }, {  18,-7718 },
  {  19,-7718 }, {  20,-7718 }, {  21,-7718 }, {  22,-7718 }, {  23,-7718 },
  {  24,-7718 }, {  25,-7718 }, {  26,-7718 }, {  27,-7718 }, {  28,-7718 },
  {  29,-7718 }, {  30,-7718 }, {  31,-7718 }, {  32,1422 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  36,-7718 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,1422 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-7718 }, {  46,-7743 }, {  47,-7743 }, {  48,-7718 },
  {  49,-7718 }, {  50,-7718 }, {  51,-7718 }, {  52,-7718 }, {  53,-7718 },
  {  54,-7718 }, {  55,-7718 }, {  56,-7718 }, {  57,-7718 }, {  58,-7718 },
+
  {   0,   0 }, {   0,   0 }, {  61,-7743 }, {   0,   0 }, {  63,-7718 },
  {   0,   0 }, {  65,-7718 }, {  66,-7718 }, {  67,-7718 }, {  68,-7718 },
  {  69,-7718 }, {  70,-7718 }, {  71,-7718 }, {  72,-7718 }, {  73,-7718 },
  {  74,-7718 }, {  75,-7718 }, {  76,-7718 }, {  77,-7718 }, {  78,-7718 },
  {  79,-7718 }, {  80,-7718 }, {  81,-7718 }, {  82,-7718 }, {  83,-7718 },
-
  {  84,-7718 }, {  85,-7718 }, {  86,-7718 }, {  87,-7718 }, {  88,-7718 },
  {  89,-7718 }, {  90,-7718 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-7718 }, {   0,   0 }, {  97,-7718 }, {  98,-7718 },
  {  99,-7718 }, { 100,-7718 }, { 101,-7718 }, { 102,-7718 }, { 103,-7718 },
  { 104,-7718 }, { 105,-7718 }, { 106,-7718 }, { 107,-7718 }, { 108,-7718 },
+
  { 109,-7718 }, { 110,-7718 }, { 111,-7718 }, { 112,-7718 }, { 113,-7718 },
  { 114,-7718 }, { 115,-7718 }, { 116,-7718 }, { 117,-7718 }, { 118,-7718 },
  { 119,-7718 }, { 120,-7718 }, { 121,-7718 }, { 122,-7718 }, {   0,   0 },
  { 124,-7743 }, { 125,1422 }, { 126,1422 }, { 127,-7718 }, { 128,-7718 },
  { 129,-7718 }, { 130,-7718 }, { 131,-7718 }, { 132,-7718 }, { 133,-7718 },
-
  { 134,-7718 }, { 135,-7718 }, { 136,-7718 }, { 137,-7718 }, { 138,-7718 },
  { 139,-7718 }, { 140,-7718 }, { 141,-7718 }, { 142,-7718 }, { 143,-7718 },
  { 144,-7718 }, { 145,-7718 }, { 146,-7718 }, { 147,-7718 }, { 148,-7718 },
  { 149,-7718 }, { 150,-7718 }, { 151,-7718 }, { 152,-7718 }, { 153,-7718 },
  { 154,-7718 }, { 155,-7718 }, { 156,-7718 }, { 157,-7718 }, { 158,-7718 },
+
  { 159,-7718 }, { 160,-7718 }, { 161,-7718 }, { 162,-7718 }, { 163,-7718 },
  { 164,-7718 }, { 165,-7718 }, { 166,-7718 }, { 167,-7718 }, { 168,-7718 },
  { 169,-7718 }, { 170,-7718 }, { 171,-7718 }, { 172,-7718 }, { 173,-7718 },
  { 174,-7718 }, { 175,-7718 }, { 176,-7718 }, { 177,-7718 }, { 178,-7718 },
  { 179,-7718 }, { 180,-7718 }, { 181,-7718 }, { 182,-7718 }, { 183,-7718 },
-
  { 184,-7718 }, { 185,-7718 }, { 186,-7718 }, { 187,-7718 }, { 188,-7718 },
  { 189,-7718 }, { 190,-7718 }, { 191,-7718 }, { 192,-7718 }, { 193,-7718 },
  { 194,-7718 }, { 195,-7718 }, { 196,-7718 }, { 197,-7718 }, { 198,-7718 },
  { 199,-7718 }, { 200,-7718 }, { 201,-7718 }, { 202,-7718 }, { 203,-7718 },
  { 204,-7718 }, { 205,-7718 }, { 206,-7718 }, { 207,-7718 }, { 208,-7718 },
+
  { 209,-7718 }, { 210,-7718 }, { 211,-7718 }, { 212,-7718 }, { 213,-7718 },
  { 214,-7718 }, { 215,-7718 }, { 216,-7718 }, { 217,-7718 }, { 218,-7718 },
  { 219,-7718 }, { 220,-7718 }, { 221,-7718 }, { 222,-7718 }, { 223,-7718 },
  { 224,-7718 }, { 225,-7718 }, { 226,-7718 }, { 227,-7718 }, { 228,-7718 },
  { 229,-7718 }, { 230,-7718 }, { 231,-7718 }, { 232,-7718 }, { 233,-7718 },
-
  { 234,-7718 }, { 235,-7718 }, { 236,-7718 }, { 237,-7718 }, { 238,-7718 },
  { 239,-7718 }, { 240,-7718 }, { 241,-7718 }, { 242,-7718 }, { 243,-7718 },
  { 244,-7718 }, { 245,-7718 }, { 246,-7718 }, { 247,-7718 }, { 248,-7718 },
  { 249,-7718 }, { 250,-7718 }, { 251,-7718 }, { 252,-7718 }, { 253,-7718 },
  { 254,-7718 }, { 255,-7718 }, { 256,-7718 }, {   0,   0 }, {   0,5583 },
+
  {   1,-7976 }, {   2,-7976 }, {   3,-7976 }, {   4,-7976 }, {   5,-7976 },
  {   6,-7976 }, {   7,-7976 }, {   8,-7976 }, {   9,1166 }, {  10,1166 },
  {  11,-7976 }, {  12,-7976 }, {  13,1166 }, {  14,-7976 }, {  15,-7976 },
  {  16,-7976 }, {  17,-7976 }, {  18,-7976 }, {  19,-7976 }, {  20,-7976 },
  {  21,-7976 }, {  22,-7976 }, {  23,-7976 }, {  24,-7976 }, {  25,-7976 },
-
  {  26,-7976 }, {  27,-7976 }, {  28,-7976 }, {  29,-7976 }, {  30,-7976 },
  {  31,-7976 }, {  32,1166 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-7976 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,1166 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7976 },
  {  46,-8001 }, {  47,-8001 }, {  48,-7976 }, {  49,-7976 }, {  50,-7976 },
+
  {  51,-7976 }, {  52,-7976 }, {  53,-7976 }, {  54,-7976 }, {  55,-7976 },
  {  56,-7976 }, {  57,-7976 }, {  58,-7976 }, {   0,   0 }, {   0,   0 },
  {  61,-8001 }, {   0,   0 }, {  63,-7976 }, {   0,   0 }, {  65,-7976 },
  {  66,-7976 }, {  67,-7976 }, {  68,-7976 }, {  69,-7976 }, {  70,-7976 },
  {  71,-7976 }, {  72,-7976 }, {  73,-7976 }, {  74,-7976 }, {  75,-7976 },
-
  {  76,-7976 }, {  77,-7976 }, {  78,-7976 }, {  79,-7976 }, {  80,-7976 },
  {  81,-7976 }, {  82,-7976 }, {  83,-7976 }, {  84,-7976 }, {  85,-7976 },
  {  86,-7976 }, {  87,-7976 }, {  88,-7976 }, {  89,-7976 }, {  90,-7976 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7976 },
  {   0,   0 }, {  97,-7976 }, {  98,-7976 }, {  99,-7976 }, { 100,-7976 },
+
  { 101,-7976 }, { 102,-7976 }, { 103,-7976 }, { 104,-7976 }, { 105,-7976 },
  { 106,-7976 }, { 107,-7976 }, { 108,-7976 }, { 109,-7976 }, { 110,-7976 },
  { 111,-7976 }, { 112,-7976 }, { 113,-7976 }, { 114,-7976 }, { 115,-7976 },
  { 116,-7976 }, { 117,-7976 }, { 118,-7976 }, { 119,-7976 }, { 120,-7976 },
  { 121,-7976 }, { 122,-7976 }, {   0,   0 }, { 124,-8001 }, { 125,1166 },
-
  { 126,1166 }, { 127,-7976 }, { 128,-7976 }, { 129,-7976 }, { 130,-7976 },
  { 131,-7976 }, { 132,-7976 }, { 133,-7976 }, { 134,-7976 }, { 135,-7976 },
  { 136,-7976 }, { 137,-7976 }, { 138,-7976 }, { 139,-7976 }, { 140,-7976 },
  { 141,-7976 }, { 142,-7976 }, { 143,-7976 }, { 144,-7976 }, { 145,-7976 },
  { 146,-7976 }, { 147,-7976 }, { 148,-7976 }, { 149,-7976 }, { 150,-7976 },
+
  { 151,-7976 }, { 152,-7976 }, { 153,-7976 }, { 154,-7976 }, { 155,-7976 },
  { 156,-7976 }, { 157,-7976 }, { 158,-7976 }, { 159,-7976 }, { 160,-7976 },
  { 161,-7976 }, { 162,-7976 }, { 163,-7976 }, { 164,-7976 }, { 165,-7976 },
  { 166,-7976 }, { 167,-7976 }, { 168,-7976 }, { 169,-7976 }, { 170,-7976 },
  { 171,-7976 }, { 172,-7976 }, { 173,-7976 }, { 174,-7976 }, { 175,-7976 },
-
  { 176,-7976 }, { 177,-7976 }, { 178,-7976 }, { 179,-7976 }, { 180,-7976 },
  { 181,-7976 }, { 182,-7976 }, { 183,-7976 }, { 184,-7976 }, { 185,-7976 },
  { 186,-7976 }, { 187,-7976 }, { 188,-7976 }, { 189,-7976 }, { 190,-7976 },
  { 191,-7976 }, { 192,-7976 }, { 193,-7976 }, { 194,-7976 }, { 195,-7976 },
  { 196,-7976 }, { 197,-7976 }, { 198,-7976 }, { 199,-7976 }, { 200,-7976 },
+
  { 201,-7976 }, { 202,-7976 }, { 203,-7976 }, { 204,-7976 }, { 205,-7976 },
  { 206,-7976 }, { 207,-7976 }, { 208,-7976 }, { 209,-7976 }, { 210,-7976 },
  { 211,-7976 }, { 212,-7976 }, { 213,-7976 }, { 214,-7976 }, { 215,-7976 },
  { 216,-7976 }, { 217,-7976 }, { 218,-7976 }, { 219,-7976 }, { 220,-7976 },
  { 221,-7976 }, { 222,-7976 }, { 223,-7976 }, { 224,-7976 }, { 225,-7976 },
-
  { 226,-7976 }, { 227,-7976 }, { 228,-7976 }, { 229,-7976 }, { 230,-7976 },
  { 231,-7976 }, { 232,-7976 }, { 233,-7976 }, { 234,-7976 }, { 235,-7976 },
  { 236,-7976 }, { 237,-7976 }, { 238,-7976 }, { 239,-7976 }, { 240,-7976 },
  { 241,-7976 }, { 242,-7976 }, { 243,-7976 }, { 244,-7976 }, { 245,-7976 },
  { 246,-7976 }, { 247,-7976 }, { 248,-7976 }, { 249,-7976 }, { 250,-7976 },
+
  { 251,-7976 }, { 252,-7976 }, { 253,-7976 }, { 254,-7976 }, { 255,-7976 },
  { 256,-7976 }, {   0,   0 }, {   0,5325 }, {   1,-8234 }, {   2,-8234 },
  {   3,-8234 }, {   4,-8234 }, {   5,-8234 }, {   6,-8234 }, {   7,-8234 },
  {   8,-8234 }, {   9,-8259 }, {  10,-8259 }, {  11,-8234 }, {  12,-8234 },
  {  13,-8259 }, {  14,-8234 }, {  15,-8234 }, {  16,-8234 }, {  17,-8234 },
-
  {  18,-8234 }, {  19,-8234 }, {  20,-8234 }, {  21,-8234 }, {  22,-8234 },
  {  23,-8234 }, {  24,-8234 }, {  25,-8234 }, {  26,-8234 }, {  27,-8234 },
  {  28,-8234 }, {  29,-8234 }, {  30,-8234 }, {  31,-8234 }, {  32,-8259 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8234 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8259 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {  45,-8234 }, {  46,-8259 }, {  47,-8259 },
  {  48,-8234 }, {  49,-8234 }, {  50,-8234 }, {  51,-8234 }, {  52,-8234 },
  {  53,-8234 }, {  54,-8234 }, {  55,-8234 }, {  56,-8234 }, {  57,-8234 },
  {  58,-8234 }, {   0,   0 }, {   0,   0 }, {  61,-8259 }, {   0,   0 },
  {  63,-8234 }, {   0,   0 }, {  65,-8234 }, {  66,-8234 }, {  67,-8234 },
-
  {  68,-8234 }, {  69,-8234 }, {  70,-8234 }, {  71,-8234 }, {  72,-8234 },
  {  73,-8234 }, {  74,-8234 }, {  75,-8234 }, {  76,-8234 }, {  77,-8234 },
  {  78,-8234 }, {  79,-8234 }, {  80,-8234 }, {  81,-8234 }, {  82,-8234 },
  {  83,-8234 }, {  84,-8234 }, {  85,-8234 }, {  86,-8234 }, {  87,-8234 },
  {  88,-8234 }, {  89,-8234 }, {  90,-8234 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {  95,-8234 }, {   0,   0 }, {  97,-8234 },
  {  98,-8234 }, {  99,-8234 }, { 100,-8234 }, { 101,-8234 }, { 102,1187 },
  { 103,-8234 }, { 104,-8234 }, { 105,-8234 }, { 106,-8234 }, { 107,-8234 },
  { 108,-8234 }, { 109,-8234 }, { 110,-8234 }, { 111,-8234 }, { 112,-8234 },
  { 113,-8234 }, { 114,-8234 }, { 115,-8234 }, { 116,-8234 }, { 117,-8234 },
-
  { 118,-8234 }, { 119,-8234 }, { 120,-8234 }, { 121,-8234 }, { 122,-8234 },
  {   0,   0 }, { 124,-8259 }, { 125,-8259 }, { 126,-8259 }, { 127,-8234 },
  { 128,-8234 }, { 129,-8234 }, { 130,-8234 }, { 131,-8234 }, { 132,-8234 },
  { 133,-8234 }, { 134,-8234 }, { 135,-8234 }, { 136,-8234 }, { 137,-8234 },
  { 138,-8234 }, { 139,-8234 }, { 140,-8234 }, { 141,-8234 }, { 142,-8234 },
+
  { 143,-8234 }, { 144,-8234 }, { 145,-8234 }, { 146,-8234 }, { 147,-8234 },
  { 148,-8234 }, { 149,-8234 }, { 150,-8234 }, { 151,-8234 }, { 152,-8234 },
  { 153,-8234 }, { 154,-8234 }, { 155,-8234 }, { 156,-8234 }, { 157,-8234 },
  { 158,-8234 }, { 159,-8234 }, { 160,-8234 }, { 161,-8234 }, { 162,-8234 },
  { 163,-8234 }, { 164,-8234 }, { 165,-8234 }, { 166,-8234 }, { 167,-8234 },
-
  { 168,-8234 }, { 169,-8234 }, { 170,-8234 }, { 171,-8234 }, { 172,-8234 },
  { 173,-8234 }, { 174,-8234 }, { 175,-8234 }, { 176,-8234 }, { 177,-8234 },
  { 178,-8234 }, { 179,-8234 }, { 180,-8234 }, { 181,-8234 }, { 182,-8234 },
  { 183,-8234 }, { 184,-8234 }, { 185,-8234 }, { 186,-8234 }, { 187,-8234 },
  { 188,-8234 }, { 189,-8234 }, { 190,-8234 }, { 191,-8234 }, { 192,-8234 },
+
  { 193,-8234 }, { 194,-8234 }, { 195,-8234 }, { 196,-8234 }, { 197,-8234 },
  { 198,-8234 }, { 199,-8234 }, { 200,-8234 }, { 201,-8234 }, { 202,-8234 },
  { 203,-8234 }, { 204,-8234 }, { 205,-8234 }, { 206,-8234 }, { 207,-8234 },
  { 208,-8234 }, { 209,-8234 }, { 210,-8234 }, { 211,-8234 }, { 212,-8234 },
  { 213,-8234 }, { 214,-8234 }, { 215,-8234 }, { 216,-8234 }, { 217,-8234 },
-
  { 218,-8234 }, { 219,-8234 }, { 220,-8234 }, { 221,-8234 }, { 222,-8234 },
  { 223,-8234 }, { 224,-8234 }, { 225,-8234 }, { 226,-8234 }, { 227,-8234 },
  { 228,-8234 }, { 229,-8234 }, { 230,-8234 }, { 231,-8234 }, { 232,-8234 },
  { 233,-8234 }, { 234,-8234 }, { 235,-8234 }, { 236,-8234 }, { 237,-8234 },
  { 238,-8234 }, { 239,-8234 }, { 240,-8234 }, { 241,-8234 }, { 242,-8234 },
+
  { 243,-8234 }, { 244,-8234 }, { 245,-8234 }, { 246,-8234 }, { 247,-8234 },
  { 248,-8234 }, { 249,-8234 }, { 250,-8234 }, { 251,-8234 }, { 252,-8234 },
  { 253,-8234 }, { 254,-8234 }, { 255,-8234 }, { 256,-8234 }, {   0,   0 },
  {   0,5067 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,   0 },
-
  {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 125,-1639 }, { 126,-1066 }, {   0,   0 }, {   0,4939 }, {   1,1059 },
  {   2,1059 }, {   3,1059 }, {   4,1059 }, {   5,1059 }, {   6,1059 },
+
  {   7,1059 }, {   8,1059 }, {   9,1059 }, {  10,1059 }, {  11,1059 },
  {  12,1059 }, {  13,1059 }, {  14,1059 }, {  15,1059 }, {  16,1059 },
  {  17,1059 }, {  18,1059 }, {  19,1059 }, {  20,1059 }, {  21,1059 },
  {  22,1059 }, {  23,1059 }, {  24,1059 }, {  25,1059 }, {  26,1059 },
  {  27,1059 }, {  28,1059 }, {  29,1059 }, {  30,1059 }, {  31,1059 },
-
  {  32,1059 }, {  33,1059 }, {  34,1059 }, {  35,1059 }, {  36,1059 },
  {  37,1059 }, {  38,1059 }, {  39,1059 }, {  40,1059 }, {  41,1059 },
  {  42,1059 }, {  43,1059 }, {  44,1059 }, {  45,1317 }, {  46,1059 },
  {  47,1059 }, {  48,1059 }, {  49,1059 }, {  50,1059 }, {  51,1059 },
  {  52,1059 }, {  53,1059 }, {  54,1059 }, {  55,1059 }, {  56,1059 },
+
  {  57,1059 }, {  58,1059 }, {  59,1059 }, {  60,1059 }, {  61,1059 },
  {  62,1059 }, {  63,1059 }, {  64,1059 }, {  65,1059 }, {  66,1059 },
  {  67,1059 }, {  68,1059 }, {  69,1059 }, {  70,1059 }, {  71,1059 },
  {  72,1059 }, {  73,1059 }, {  74,1059 }, {  75,1059 }, {  76,1059 },
  {  77,1059 }, {  78,1059 }, {  79,1059 }, {  80,1059 }, {  81,1059 },
-
  {  82,1059 }, {  83,1059 }, {  84,1059 }, {  85,1059 }, {  86,1059 },
  {  87,1059 }, {  88,1059 }, {  89,1059 }, {  90,1059 }, {  91,1059 },
  {  92,1059 }, {  93,1059 }, {  94,1059 }, {  95,1059 }, {  96,1059 },
  {  97,1059 }, {  98,1059 }, {  99,1059 }, { 100,1059 }, { 101,1059 },
  { 102,1059 }, { 103,1059 }, { 104,1059 }, { 105,1059 }, { 106,1059 },
+
  { 107,1059 }, { 108,1059 }, { 109,1059 }, { 110,1059 }, { 111,1059 },
  { 112,1059 }, { 113,1059 }, { 114,1059 }, { 115,1059 }, { 116,1059 },
  { 117,1059 }, { 118,1059 }, { 119,1059 }, { 120,1059 }, { 121,1059 },
  { 122,1059 }, { 123,1059 }, { 124,1059 }, { 125,1059 }, { 126,1059 },
  { 127,1059 }, { 128,1059 }, { 129,1059 }, { 130,1059 }, { 131,1059 },
-
  { 132,1059 }, { 133,1059 }, { 134,1059 }, { 135,1059 }, { 136,1059 },
  { 137,1059 }, { 138,1059 }, { 139,1059 }, { 140,1059 }, { 141,1059 },
  { 142,1059 }, { 143,1059 }, { 144,1059 }, { 145,1059 }, { 146,1059 },
  { 147,1059 }, { 148,1059 }, { 149,1059 }, { 150,1059 }, { 151,1059 },
  { 152,1059 }, { 153,1059 }, { 154,1059 }, { 155,1059 }, { 156,1059 },
+
  { 157,1059 }, { 158,1059 }, { 159,1059 }, { 160,1059 }, { 161,1059 },
  { 162,1059 }, { 163,1059 }, { 164,1059 }, { 165,1059 }, { 166,1059 },
  { 167,1059 }, { 168,1059 }, { 169,1059 }, { 170,1059 }, { 171,1059 },
  { 172,1059 }, { 173,1059 }, { 174,1059 }, { 175,1059 }, { 176,1059 },
  { 177,1059 }, { 178,1059 }, { 179,1059 }, { 180,1059 }, { 181,1059 },
-
  { 182,1059 }, { 183,1059 }, { 184,1059 }, { 185,1059 }, { 186,1059 },
  { 187,1059 }, { 188,1059 }, { 189,1059 }, { 190,1059 }, { 191,1059 },
  { 192,1059 }, { 193,1059 }, { 194,1059 }, { 195,1059 }, { 196,1059 },
  { 197,1059 }, { 198,1059 }, { 199,1059 }, { 200,1059 }, { 201,1059 },
  { 202,1059 }, { 203,1059 }, { 204,1059 }, { 205,1059 }, { 206,1059 },
+
  { 207,1059 }, { 208,1059 }, { 209,1059 }, { 210,1059 }, { 211,1059 },
  { 212,1059 }, { 213,1059 }, { 214,1059 }, { 215,1059 }, { 216,1059 },
  { 217,1059 }, { 218,1059 }, { 219,1059 }, { 220,1059 }, { 221,1059 },
  { 222,1059 }, { 223,1059 }, { 224,1059 }, { 225,1059 }, { 226,1059 },
  { 227,1059 }, { 228,1059 }, { 229,1059 }, { 230,1059 }, { 231,1059 },
-
  { 232,1059 }, { 233,1059 }, { 234,1059 }, { 235,1059 }, { 236,1059 },
  { 237,1059 }, { 238,1059 }, { 239,1059 }, { 240,1059 }, { 241,1059 },
  { 242,1059 }, { 243,1059 }, { 244,1059 }, { 245,1059 }, { 246,1059 },
  { 247,1059 }, { 248,1059 }, { 249,1059 }, { 250,1059 }, { 251,1059 },
  { 252,1059 }, { 253,1059 }, { 254,1059 }, { 255,1059 }, { 256,1059 },
+
  {   0,   0 }, {   0,4681 }, {   1, 277 }, {   2, 277 }, {   3, 277 },
  {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 }, {   8, 277 },
  {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 }, {  13, 277 },
  {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 }, {  18, 277 },
  {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 }, {  23, 277 },
-
  {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 }, {  28, 277 },
  {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 }, {  33, 277 },
  {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 }, {  38, 277 },
  {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 }, {  43, 277 },
  {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1317 }, {  48, 277 },
+
  {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 }, {  53, 277 },
  {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 }, {  58, 277 },
  {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 }, {  63, 277 },
  {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 }, {  68, 277 },
  {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 }, {  73, 277 },
-
  {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 }, {  78, 277 },
  {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 }, {  83, 277 },
  {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 }, {  88, 277 },
  {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 }, {  93, 277 },
  {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 }, {  98, 277 },
+
  {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 }, { 103, 277 },
  { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 }, { 108, 277 },
  { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 }, { 113, 277 },
  { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 }, { 118, 277 },
  { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 }, { 123, 277 },
-
  { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 }, { 128, 277 },
  { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 }, { 133, 277 },
  { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 }, { 138, 277 },
  { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 }, { 143, 277 },
  { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 }, { 148, 277 },
+
  { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 }, { 153, 277 },
  { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 }, { 158, 277 },
  { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 }, { 163, 277 },
  { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 }, { 168, 277 },
  { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 }, { 173, 277 },
-
  { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 }, { 178, 277 },
  { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 }, { 183, 277 },
  { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 }, { 188, 277 },
  { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 }, { 193, 277 },
  { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 }, { 198, 277 },
+
  { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 }, { 203, 277 },
  { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 }, { 208, 277 },
  { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 }, { 213, 277 },
  { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 }, { 218, 277 },
  { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 }, { 223, 277 },
-
  { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 }, { 228, 277 },
  { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 }, { 233, 277 },
  { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 }, { 238, 277 },
  { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 }, { 243, 277 },
  { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 }, { 248, 277 },
+
  { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 }, { 253, 277 },
  { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 }, {   0,4423 },
- {   0,   1 }, {   0,4421 }, {   0,  46 }, {   0,4419 }, {   0,  43 },
- {   0,4417 }, {   0,  28 }, {   0,4415 }, {   0,  22 }, {   0,4413 },
+ {   0,   1 }, {   0,4421 }, {   0,  47 }, {   0,4419 }, {   0,  44 },
+ {   0,4417 }, {   0,  29 }, {   0,4415 }, {   0,  23 }, {   0,4413 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,4406 }, {   0,   8 }, {   0,4404 }, {   0,   1 },
- {   0,4402 }, {   0,  44 }, {   0,4400 }, {   0,  25 }, {   0,4398 },
+ {   0,4402 }, {   0,  45 }, {   0,4400 }, {   0,  26 }, {   0,4398 },
  {   0,   0 }, {   0,4396 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
  {   4,-9163 }, {   5,-9163 }, {   6,-9163 }, {   7,-9163 }, {   8,-9163 },
  {   9,  -4 }, {  10,  -4 }, {  11,-9163 }, {  12,-9163 }, {  13,  -4 },
+
  {  14,-9163 }, {  15,-9163 }, {  16,-9163 }, {  17,-9163 }, {  18,-9163 },
  {  19,-9163 }, {  20,-9163 }, {  21,-9163 }, {  22,-9163 }, {  23,-9163 },
  {  24,-9163 }, {  25,-9163 }, {  26,-9163 }, {  27,-9163 }, {  28,-9163 },
  {  29,-9163 }, {  30,-9163 }, {  31,-9163 }, {  32,  -4 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-9163 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-9163 }, {  46,-9188 }, {  47,-9188 }, {  48,-9163 },
  {  49,-9163 }, {  50,-9163 }, {  51,-9163 }, {  52,-9163 }, {  53,-9163 },
  {  54,-9163 }, {  55,-9163 }, {  56,-9163 }, {  57,-9163 }, {  58,-9163 },
  {   0,   0 }, {   0,   0 }, {  61,-9188 }, {   0,   0 }, {  63,-9163 },
+
  {   0,   0 }, {  65,-9163 }, {  66,-9163 }, {  67,-9163 }, {  68,-9163 },
  {  69,-9163 }, {  70,-9163 }, {  71,-9163 }, {  72,-9163 }, {  73,-9163 },
  {  74,-9163 }, {  75,-9163 }, {  76,-9163 }, {  77,-9163 }, {  78,-9163 },
  {  79,-9163 }, {  80,-9163 }, {  81,-9163 }, {  82,-9163 }, {  83,-9163 },
  {  84,-9163 }, {  85,-9163 }, {  86,-9163 }, {  87,-9163 }, {  88,-9163 },
-
  {  89,-9163 }, {  90,-9163 }, { 101,1558 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-9163 }, { 123,  21 }, {  97,-9163 }, {  98,-9163 },
  {  99,-9163 }, { 100,-9163 }, { 101,-9163 }, { 102,-9163 }, { 103,-9163 },
  { 104,-9163 }, { 105,-9163 }, { 106,-9163 }, { 107,-9163 }, { 108,-9163 },
  { 109,-9163 }, { 110,-9163 }, { 111,-9163 }, { 112,-9163 }, { 113,-9163 },
+
  { 114,-9163 }, { 115,-9163 }, { 116,-9163 }, { 117,-9163 }, { 118,-9163 },
  { 119,-9163 }, { 120,-9163 }, { 121,-9163 }, { 122,-9163 }, {   0,   0 },
  { 124,-9188 }, { 125,  -4 }, { 126,  -4 }, { 127,-9163 }, { 128,-9163 },
  { 129,-9163 }, { 130,-9163 }, { 131,-9163 }, { 132,-9163 }, { 133,-9163 },
  { 134,-9163 }, { 135,-9163 }, { 136,-9163 }, { 137,-9163 }, { 138,-9163 },
-
  { 139,-9163 }, { 140,-9163 }, { 141,-9163 }, { 142,-9163 }, { 143,-9163 },
  { 144,-9163 }, { 145,-9163 }, { 146,-9163 }, { 147,-9163 }, { 148,-9163 },
  { 149,-9163 }, { 150,-9163 }, { 151,-9163 }, { 152,-9163 }, { 153,-9163 },
  { 154,-9163 }, { 155,-9163 }, { 156,-9163 }, { 157,-9163 }, { 158,-9163 },
  { 159,-9163 }, { 160,-9163 }, { 161,-9163 }, { 162,-9163 }, { 163,-9163 },
+
  { 164,-9163 }, { 165,-9163 }, { 166,-9163 }, { 167,-9163 }, { 168,-9163 },
  { 169,-9163 }, { 170,-9163 }, { 171,-9163 }, { 172,-9163 }, { 173,-9163 },
  { 174,-9163 }, { 175,-9163 }, { 176,-9163 }, { 177,-9163 }, { 178,-9163 },
  { 179,-9163 }, { 180,-9163 }, { 181,-9163 }, { 182,-9163 }, { 183,-9163 },
  { 184,-9163 }, { 185,-9163 }, { 186,-9163 }, { 187,-9163 }, { 188,-9163 },
-
  { 189,-9163 }, { 190,-9163 }, { 191,-9163 }, { 192,-9163 }, { 193,-9163 },
  { 194,-9163 }, { 195,-9163 }, { 196,-9163 }, { 197,-9163 }, { 198,-9163 },
  { 199,-9163 }, { 200,-9163 }, { 201,-9163 }, { 202,-9163 }, { 203,-9163 },
  { 204,-9163 }, { 205,-9163 }, { 206,-9163 }, { 207,-9163 }, { 208,-9163 },
  { 209,-9163 }, { 210,-9163 }, { 211,-9163 }, { 212,-9163 }, { 213,-9163 },
+
  { 214,-9163 }, { 215,-9163 }, { 216,-9163 }, { 217,-9163 }, { 218,-9163 },
  { 219,-9163 }, { 220,-9163 }, { 221,-9163 }, { 222,-9163 }, { 223,-9163 },
  { 224,-9163 }, { 225,-9163 }, { 226,-9163 }, { 227,-9163 }, { 228,-9163 },
  { 229,-9163 }, { 230,-9163 }, { 231,-9163 }, { 232,-9163 }, { 233,-9163 },
  { 234,-9163 }, { 235,-9163 }, { 236,-9163 }, { 237,-9163 }, { 238,-9163 },
-
  { 239,-9163 }, { 240,-9163 }, { 241,-9163 }, { 242,-9163 }, { 243,-9163 },
  { 244,-9163 }, { 245,-9163 }, { 246,-9163 }, { 247,-9163 }, { 248,-9163 },
  { 249,-9163 }, { 250,-9163 }, { 251,-9163 }, { 252,-9163 }, { 253,-9163 },
  { 254,-9163 }, { 255,-9163 }, { 256,-9163 }, {   0,   0 }, {   0,4138 },
  {   1,-9421 }, {   2,-9421 }, {   3,-9421 }, {   4,-9421 }, {   5,-9421 },
+
  {   6,-9421 }, {   7,-9421 }, {   8,-9421 }, {   9,-9446 }, {  10,-9446 },
  {  11,-9421 }, {  12,-9421 }, {  13,-9446 }, {  14,-9421 }, {  15,-9421 },
  {  16,-9421 }, {  17,-9421 }, {  18,-9421 }, {  19,-9421 }, {  20,-9421 },
  {  21,-9421 }, {  22,-9421 }, {  23,-9421 }, {  24,-9421 }, {  25,-9421 },
  {  26,-9421 }, {  27,-9421 }, {  28,-9421 }, {  29,-9421 }, {  30,-9421 },
-
  {  31,-9421 }, {  32,-9446 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-9421 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-9446 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9421 },
  {  46,-9446 }, {  47,-9446 }, {  48,-9421 }, {  49,-9421 }, {  50,-9421 },
  {  51,-9421 }, {  52,-9421 }, {  53,-9421 }, {  54,-9421 }, {  55,-9421 },
+
  {  56,-9421 }, {  57,-9421 }, {  58,-9421 }, {   0,   0 }, {   0,   0 },
  {  61,-9446 }, {   0,   0 }, {  63,-9421 }, {   0,   0 }, {  65,-9421 },
  {  66,-9421 }, {  67,-9421 }, {  68,-9421 }, {  69,-9421 }, {  70,-9421 },
  {  71,-9421 }, {  72,-9421 }, {  73,-9421 }, {  74,-9421 }, {  75,-9421 },
  {  76,-9421 }, {  77,-9421 }, {  78,-9421 }, {  79,-9421 }, {  80,-9421 },
-
  {  81,-9421 }, {  82,-9421 }, {  83,-9421 }, {  84,-9421 }, {  85,-9421 },
  {  86,-9421 }, {  87,-9421 }, {  88,-9421 }, {  89,-9421 }, {  90,-9421 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9421 },
  {   0,   0 }, {  97,-9421 }, {  98,-9421 }, {  99,-9421 }, { 100,-9421 },
  { 101,-9421 }, { 102,-9421 }, { 103,-9421 }, { 104,-9421 }, { 105,1032 },
+
  { 106,-9421 }, { 107,-9421 }, { 108,-9421 }, { 109,-9421 }, { 110,-9421 },
  { 111,-9421 }, { 112,-9421 }, { 113,-9421 }, { 114,-9421 }, { 115,-9421 },
  { 116,-9421 }, { 117,-9421 }, { 118,-9421 }, { 119,-9421 }, { 120,-9421 },
  { 121,-9421 }, { 122,-9421 }, {   0,   0 }, { 124,-9446 }, { 125,-9446 },
  { 126,-9446 }, { 127,-9421 }, { 128,-9421 }, { 129,-9421 }, { 130,-9421 },
-
  { 131,-9421 }, { 132,-9421 }, { 133,-9421 }, { 134,-9421 }, { 135,-9421 },
  { 136,-9421 }, { 137,-9421 }, { 138,-9421 }, { 139,-9421 }, { 140,-9421 },
  { 141,-9421 }, { 142,-9421 }, { 143,-9421 }, { 144,-9421 }, { 145,-9421 },
  { 146,-9421 }, { 147,-9421 }, { 148,-9421 }, { 149,-9421 }, { 150,-9421 },
  { 151,-9421 }, { 152,-9421 }, { 153,-9421 }, { 154,-9421 }, { 155,-9421 },
+
  { 156,-9421 }, { 157,-9421 }, { 158,-9421 }, { 159,-9421 }, { 160,-9421 },
  { 161,-9421 }, { 162,-9421 }, { 163,-9421 }, { 164,-9421 }, { 165,-9421 },
  { 166,-9421 }, { 167,-9421 }, { 168,-9421 }, { 169,-9421 }, { 170,-9421 },
  { 171,-9421 }, { 172,-9421 }, { 173,-9421 }, { 174,-9421 }, { 175,-9421 },
  { 176,-9421 }, { 177,-9421 }, { 178,-9421 }, { 179,-9421 }, { 180,-9421 },
-
  { 181,-9421 }, { 182,-9421 }, { 183,-9421 }, { 184,-9421 }, { 185,-9421 },
  { 186,-9421 }, { 187,-9421 }, { 188,-9421 }, { 189,-9421 }, { 190,-9421 },
  { 191,-9421 }, { 192,-9421 }, { 193,-9421 }, { 194,-9421 }, { 195,-9421 },
  { 196,-9421 }, { 197,-9421 }, { 198,-9421 }, { 199,-9421 }, { 200,-9421 },
  { 201,-9421 }, { 202,-9421 }, { 203,-9421 }, { 204,-9421 }, { 205,-9421 },
+
  { 206,-9421 }, { 207,-9421 }, { 208,-9421 }, { 209,-9421 }, { 210,-9421 },
  { 211,-9421 }, { 212,-9421 }, { 213,-9421 }, { 214,-9421 }, { 215,-9421 },
  { 216,-9421 }, { 217,-9421 }, { 218,-9421 }, { 219,-9421 }, { 220,-9421 },
  { 221,-9421 }, { 222,-9421 }, { 223,-9421 }, { 224,-9421 }, { 225,-9421 },
  { 226,-9421 }, { 227,-9421 }, { 228,-9421 }, { 229,-9421 }, { 230,-9421 },
-
  { 231,-9421 }, { 232,-9421 }, { 233,-9421 }, { 234,-9421 }, { 235,-9421 },
  { 236,-9421 }, { 237,-9421 }, { 238,-9421 }, { 239,-9421 }, { 240,-9421 },
  { 241,-9421 }, { 242,-9421 }, { 243,-9421 }, { 244,-9421 }, { 245,-9421 },
  { 246,-9421 }, { 247,-9421 }, { 248,-9421 }, { 249,-9421 }, { 250,-9421 },
  { 251,-9421 }, { 252,-9421 }, { 253,-9421 }, { 254,-9421 }, { 255,-9421 },
+
  { 256,-9421 }, {   0,   0 }, {   0,3880 }, {   1,1290 }, {   2,1290 },
  {   3,1290 }, {   4,1290 }, {   5,1290 }, {   6,1290 }, {   7,1290 },
  {   8,1290 }, {   9,1290 }, {  10,1290 }, {  11,1290 }, {  12,1290 },
  {  13,1290 }, {  14,1290 }, {  15,1290 }, {  16,1290 }, {  17,1290 },
  {  18,1290 }, {  19,1290 }, {  20,1290 }, {  21,1290 }, {  22,1290 },
-
  {  23,1290 }, {  24,1290 }, {  25,1290 }, {  26,1290 }, {  27,1290 },
  {  28,1290 }, {  29,1290 }, {  30,1290 }, {  31,1290 }, {  32,1290 },
  {  33,1290 }, {  34,1290 }, {  35,1290 }, {  36,1290 }, {  37,1290 },
  {  38,1290 }, {  39,1290 }, {  40,1290 }, {  41,1290 }, {  42,1290 },
  {  43,1290 }, {  44,1290 }, {  45,1548 }, {  46,1290 }, {  47,1290 },
+
  {  48,1290 }, {  49,1290 }, {  50,1290 }, {  51,1290 }, {  52,1290 },
  {  53,1290 }, {  54,1290 }, {  55,1290 }, {  56,1290 }, {  57,1290 },
  {  58,1290 }, {  59,1290 }, {  60,1290 }, {  61,1290 }, {  62,1290 },
  {  63,1290 }, {  64,1290 }, {  65,1290 }, {  66,1290 }, {  67,1290 },
  {  68,1290 }, {  69,1290 }, {  70,1290 }, {  71,1290 }, {  72,1290 },
-
  {  73,1290 }, {  74,1290 }, {  75,1290 }, {  76,1290 }, {  77,1290 },
  {  78,1290 }, {  79,1290 }, {  80,1290 }, {  81,1290 }, {  82,1290 },
  {  83,1290 }, {  84,1290 }, {  85,1290 }, {  86,1290 }, {  87,1290 },
  {  88,1290 }, {  89,1290 }, {  90,1290 }, {  91,1290 }, {  92,1290 },
  {  93,1290 }, {  94,1290 }, {  95,1290 }, {  96,1290 }, {  97,1290 },
+
  {  98,1290 }, {  99,1290 }, { 100,1290 }, { 101,1290 }, { 102,1290 },
  { 103,1290 }, { 104,1290 }, { 105,1290 }, { 106,1290 }, { 107,1290 },
  { 108,1290 }, { 109,1290 }, { 110,1290 }, { 111,1290 }, { 112,1290 },
  { 113,1290 }, { 114,1290 }, { 115,1290 }, { 116,1290 }, { 117,1290 },
  { 118,1290 }, { 119,1290 }, { 120,1290 }, { 121,1290 }, { 122,1290 },
-
  { 123,1290 }, { 124,1290 }, { 125,1290 }, { 126,1290 }, { 127,1290 },
  { 128,1290 }, { 129,1290 }, { 130,1290 }, { 131,1290 }, { 132,1290 },
  { 133,1290 }, { 134,1290 }, { 135,1290 }, { 136,1290 }, { 137,1290 },
  { 138,1290 }, { 139,1290 }, { 140,1290 }, { 141,1290 }, { 142,1290 },
  { 143,1290 }, { 144,1290 }, { 145,1290 }, { 146,1290 }, { 147,1290 },
+
  { 148,1290 }, { 149,1290 }, { 150,1290 }, { 151,1290 }, { 152,1290 },
  { 153,1290 }, { 154,1290 }, { 155,1290 }, { 156,1290 }, { 157,1290 },
  { 158,1290 }, { 159,1290 }, { 160,1290 }, { 161,1290 }, { 162,1290 },
  { 163,1290 }, { 164,1290 }, { 165,1290 }, { 166,1290 }, { 167,1290 },
  { 168,1290 }, { 169,1290 }, { 170,1290 }, { 171,1290 }, { 172,1290 },
-
  { 173,1290 }, { 174,1290 }, { 175,1290 }, { 176,1290 }, { 177,1290 },
  { 178,1290 }, { 179,1290 }, { 180,1290 }, { 181,1290 }, { 182,1290 },
  { 183,1290 }, { 184,1290 }, { 185,1290 }, { 186,1290 }, { 187,1290 },
  { 188,1290 }, { 189,1290 }, { 190,1290 }, { 191,1290 }, { 192,1290 },
  { 193,1290 }, { 194,1290 }, { 195,1290 }, { 196,1290 }, { 197,1290 },
+
  { 198,1290 }, { 199,1290 }, { 200,1290 }, { 201,1290 }, { 202,1290 },
  { 203,1290 }, { 204,1290 }, { 205,1290 }, { 206,1290 }, { 207,1290 },
  { 208,1290 }, { 209,1290 }, { 210,1290 }, { 211,1290 }, { 212,1290 },
  { 213,1290 }, { 214,1290 }, { 215,1290 }, { 216,1290 }, { 217,1290 },
  { 218,1290 }, { 219,1290 }, { 220,1290 }, { 221,1290 }, { 222,1290 },
-
  { 223,1290 }, { 224,1290 }, { 225,1290 }, { 226,1290 }, { 227,1290 },
  { 228,1290 }, { 229,1290 }, { 230,1290 }, { 231,1290 }, { 232,1290 },
  { 233,1290 }, { 234,1290 }, { 235,1290 }, { 236,1290 }, { 237,1290 },
  { 238,1290 }, { 239,1290 }, { 240,1290 }, { 241,1290 }, { 242,1290 },
  { 243,1290 }, { 244,1290 }, { 245,1290 }, { 246,1290 }, { 247,1290 },
+
  { 248,1290 }, { 249,1290 }, { 250,1290 }, { 251,1290 }, { 252,1290 },
  { 253,1290 }, { 254,1290 }, { 255,1290 }, { 256,1290 }, {   0,   0 },
  {   0,3622 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
  {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
  {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
-
  {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
  {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
  {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
  {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
  {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+
  {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
  {  45,   0 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
  {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
  {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
  {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
-
  {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
  {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
  {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
  {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
  {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+
  {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
  {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
  { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
  { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
  { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
-
  { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
  { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
  { 125,1548 }, { 126,1806 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
  { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
  { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+
  { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
  { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
  { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
  { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
  { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
-
  { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
  { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
  { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
  { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
  { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+
  { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
  { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
  { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
  { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
  { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
-
  { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
  { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
  { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
  { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
  { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+
  { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
  { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
  { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
  { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,3364 }, {   1,1806 },
  {   2,1806 }, {   3,1806 }, {   4,1806 }, {   5,1806 }, {   6,1806 },
-
  {   7,1806 }, {   8,1806 }, {   0,   0 }, {   0,   0 }, {  11,1806 },
  {  12,1806 }, {   0,   0 }, {  14,1806 }, {  15,1806 }, {  16,1806 },
  {  17,1806 }, {  18,1806 }, {  19,1806 }, {  20,1806 }, {  21,1806 },
  {  22,1806 }, {  23,1806 }, {  24,1806 }, {  25,1806 }, {  26,1806 },
  {  27,1806 }, {  28,1806 }, {  29,1806 }, {  30,1806 }, {  31,1806 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1806 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1806 }, {   0,   0 },
  {   0,   0 }, {  48,1806 }, {  49,1806 }, {  50,1806 }, {  51,1806 },
  {  52,1806 }, {  53,1806 }, {  54,1806 }, {  55,1806 }, {  56,1806 },
-
  {  57,1806 }, {  58,1806 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  63,1806 }, {   0,   0 }, {  65,1806 }, {  66,1806 },
  {  67,1806 }, {  68,1806 }, {  69,1806 }, {  70,1806 }, {  71,1806 },
  {  72,1806 }, {  73,1806 }, {  74,1806 }, {  75,1806 }, {  76,1806 },
  {  77,1806 }, {  78,1806 }, {  79,1806 }, {  80,1806 }, {  81,1806 },
+
  {  82,1806 }, {  83,1806 }, {  84,1806 }, {  85,1806 }, {  86,1806 },
  {  87,1806 }, {  88,1806 }, {  89,1806 }, {  90,1806 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1806 }, {   0,   0 },
  {  97,1806 }, {  98,1806 }, {  99,1806 }, { 100,1806 }, { 101,1806 },
  { 102,1806 }, { 103,1806 }, { 104,1806 }, { 105,1806 }, { 106,1806 },
-
  { 107,1806 }, { 108,1806 }, { 109,1806 }, { 110,1806 }, { 111,1806 },
  { 112,1806 }, { 113,1806 }, { 114,1806 }, { 115,1806 }, { 116,1806 },
  { 117,1806 }, { 118,1806 }, { 119,1806 }, { 120,1806 }, { 121,1806 },
  { 122,1806 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 127,1806 }, { 128,1806 }, { 129,1806 }, { 130,1806 }, { 131,1806 },
+
  { 132,1806 }, { 133,1806 }, { 134,1806 }, { 135,1806 }, { 136,1806 },
  { 137,1806 }, { 138,1806 }, { 139,1806 }, { 140,1806 }, { 141,1806 },
  { 142,1806 }, { 143,1806 }, { 144,1806 }, { 145,1806 }, { 146,1806 },
  { 147,1806 }, { 148,1806 }, { 149,1806 }, { 150,1806 }, { 151,1806 },
  { 152,1806 }, { 153,1806 }, { 154,1806 }, { 155,1806 }, { 156,1806 },
-
  { 157,1806 }, { 158,1806 }, { 159,1806 }, { 160,1806 }, { 161,1806 },
  { 162,1806 }, { 163,1806 }, { 164,1806 }, { 165,1806 }, { 166,1806 },
  { 167,1806 }, { 168,1806 }, { 169,1806 }, { 170,1806 }, { 171,1806 },
  { 172,1806 }, { 173,1806 }, { 174,1806 }, { 175,1806 }, { 176,1806 },
  { 177,1806 }, { 178,1806 }, { 179,1806 }, { 180,1806 }, { 181,1806 },
+
  { 182,1806 }, { 183,1806 }, { 184,1806 }, { 185,1806 }, { 186,1806 },
  { 187,1806 }, { 188,1806 }, { 189,1806 }, { 190,1806 }, { 191,1806 },
  { 192,1806 }, { 193,1806 }, { 194,1806 }, { 195,1806 }, { 196,1806 },
  { 197,1806 }, { 198,1806 }, { 199,1806 }, { 200,1806 }, { 201,1806 },
  { 202,1806 }, { 203,1806 }, { 204,1806 }, { 205,1806 }, { 206,1806 },
-
  { 207,1806 }, { 208,1806 }, { 209,1806 }, { 210,1806 }, { 211,1806 },
  { 212,1806 }, { 213,1806 }, { 214,1806 }, { 215,1806 }, { 216,1806 },
  { 217,1806 }, { 218,1806 }, { 219,1806 }, { 220,1806 }, { 221,1806 },
  { 222,1806 }, { 223,1806 }, { 224,1806 }, { 225,1806 }, { 226,1806 },
  { 227,1806 }, { 228,1806 }, { 229,1806 }, { 230,1806 }, { 231,1806 },
+
  { 232,1806 }, { 233,1806 }, { 234,1806 }, { 235,1806 }, { 236,1806 },
  { 237,1806 }, { 238,1806 }, { 239,1806 }, { 240,1806 }, { 241,1806 },
  { 242,1806 }, { 243,1806 }, { 244,1806 }, { 245,1806 }, { 246,1806 },
  { 247,1806 }, { 248,1806 }, { 249,1806 }, { 250,1806 }, { 251,1806 },
  { 252,1806 }, { 253,1806 }, { 254,1806 }, { 255,1806 }, { 256,1806 },
-
  {   0,   0 }, {   0,3106 }, {   1,-10453 }, {   2,-10453 }, {   3,-10453 },
  {   4,-10453 }, {   5,-10453 }, {   6,-10453 }, {   7,-10453 }, {   8,-10453 },
  {   9,-10478 }, {  10,-10478 }, {  11,-10453 }, {  12,-10453 }, {  13,-10478 },
  {  14,-10453 }, {  15,-10453 }, {  16,-10453 }, {  17,-10453 }, {  18,-10453 },
  {  19,-10453 }, {  20,-10453 }, {  21,-10453 }, {  22,-10453 }, {  23,-10453 },
+
  {  24,-10453 }, {  25,-10453 }, {  26,-10453 }, {  27,-10453 }, {  28,-10453 },
  {  29,-10453 }, {  30,-10453 }, {  31,-10453 }, {  32,-10478 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-10453 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-10478 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-10453 }, {  46,-10478 }, {  47,-10478 }, {  48,-10453 },
-
  {  49,-10453 }, {  50,-10453 }, {  51,-10453 }, {  52,-10453 }, {  53,-10453 },
  {  54,-10453 }, {  55,-10453 }, {  56,-10453 }, {  57,-10453 }, {  58,-10453 },
  {   0,   0 }, {   0,   0 }, {  61,-10478 }, {   0,   0 }, {  63,-10453 },
  {   0,   0 }, {  65,-10453 }, {  66,-10453 }, {  67,-10453 }, {  68,-10453 },
  {  69,-10453 }, {  70,-10453 }, {  71,-10453 }, {  72,-10453 }, {  73,-10453 },
+
  {  74,-10453 }, {  75,-10453 }, {  76,-10453 }, {  77,-10453 }, {  78,-10453 },
  {  79,-10453 }, {  80,-10453 }, {  81,-10453 }, {  82,-10453 }, {  83,-10453 },
  {  84,-10453 }, {  85,-10453 }, {  86,-10453 }, {  87,-10453 }, {  88,-10453 },
  {  89,-10453 }, {  90,-10453 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-10453 }, {   0,   0 }, {  97,-10453 }, {  98,-10453 },
-
  {  99,-10453 }, { 100,-10453 }, { 101,-10453 }, { 102,-10453 }, { 103,-10453 },
  { 104,-10453 }, { 105,-10453 }, { 106,-10453 }, { 107,-10453 }, { 108,-10453 },
  { 109,-10453 }, { 110,1806 }, { 111,-10453 }, { 112,-10453 }, { 113,-10453 },
  { 114,-10453 }, { 115,-10453 }, { 116,-10453 }, { 117,-10453 }, { 118,-10453 },
  { 119,-10453 }, { 120,-10453 }, { 121,-10453 }, { 122,-10453 }, {   0,   0 },
+
  { 124,-10478 }, { 125,-10478 }, { 126,-10478 }, { 127,-10453 }, { 128,-10453 },
  { 129,-10453 }, { 130,-10453 }, { 131,-10453 }, { 132,-10453 }, { 133,-10453 },
  { 134,-10453 }, { 135,-10453 }, { 136,-10453 }, { 137,-10453 }, { 138,-10453 },
  { 139,-10453 }, { 140,-10453 }, { 141,-10453 }, { 142,-10453 }, { 143,-10453 },
  { 144,-10453 }, { 145,-10453 }, { 146,-10453 }, { 147,-10453 }, { 148,-10453 },
-
  { 149,-10453 }, { 150,-10453 }, { 151,-10453 }, { 152,-10453 }, { 153,-10453 },
  { 154,-10453 }, { 155,-10453 }, { 156,-10453 }, { 157,-10453 }, { 158,-10453 },
  { 159,-10453 }, { 160,-10453 }, { 161,-10453 }, { 162,-10453 }, { 163,-10453 },
  { 164,-10453 }, { 165,-10453 }, { 166,-10453 }, { 167,-10453 }, { 168,-10453 },
  { 169,-10453 }, { 170,-10453 }, { 171,-10453 }, { 172,-10453 }, { 173,-10453 },
+
  { 174,-10453 }, { 175,-10453 }, { 176,-10453 }, { 177,-10453 }, { 178,-10453 },
  { 179,-10453 }, { 180,-10453 }, { 181,-10453 }, { 182,-10453 }, { 183,-10453 },
  { 184,-10453 }, { 185,-10453 }, { 186,-10453 }, { 187,-10453 }, { 188,-10453 },
  { 189,-10453 }, { 190,-10453 }, { 191,-10453 }, { 192,-10453 }, { 193,-10453 },
  { 194,-10453 }, { 195,-10453 }, { 196,-10453 }, { 197,-10453 }, { 198,-10453 },
-
  { 199,-10453 }, { 200,-10453 }, { 201,-10453 }, { 202,-10453 }, { 203,-10453 },
  { 204,-10453 }, { 205,-10453 }, { 206,-10453 }, { 207,-10453 }, { 208,-10453 },
  { 209,-10453 }, { 210,-10453 }, { 211,-10453 }, { 212,-10453 }, { 213,-10453 },
  { 214,-10453 }, { 215,-10453 }, { 216,-10453 }, { 217,-10453 }, { 218,-10453 },
  { 219,-10453 }, { 220,-10453 }, { 221,-10453 }, { 222,-10453 }, { 223,-10453 },
+
  { 224,-10453 }, { 225,-10453 }, { 226,-10453 }, { 227,-10453 }, { 228,-10453 },
  { 229,-10453 }, { 230,-10453 }, { 231,-10453 }, { 232,-10453 }, { 233,-10453 },
  { 234,-10453 }, { 235,-10453 }, { 236,-10453 }, { 237,-10453 }, { 238,-10453 },
  { 239,-10453 }, { 240,-10453 }, { 241,-10453 }, { 242,-10453 }, { 243,-10453 },
  { 244,-10453 }, { 245,-10453 }, { 246,-10453 }, { 247,-10453 }, { 248,-10453 },
-
  { 249,-10453 }, { 250,-10453 }, { 251,-10453 }, { 252,-10453 }, { 253,-10453 },
  { 254,-10453 }, { 255,-10453 }, { 256,-10453 }, {   0,   0 }, {   0,2848 },
  {   1,-1550 }, {   2,-1550 }, {   3,-1550 }, {   4,-1550 }, {   5,-1550 },
  {   6,-1550 }, {   7,-1550 }, {   8,-1550 }, {   9,1806 }, {  10,1806 },
  {  11,-1550 }, {  12,-1550 }, {  13,1806 }, {  14,-1550 }, {  15,-1550 },
+
  {  16,-1550 }, {  17,-1550 }, {  18,-1550 }, {  19,-1550 }, {  20,-1550 },
  {  21,-1550 }, {  22,-1550 }, {  23,-1550 }, {  24,-1550 }, {  25,-1550 },
  {  26,-1550 }, {  27,-1550 }, {  28,-1550 }, {  29,-1550 }, {  30,-1550 },
  {  31,-1550 }, {  32,1806 }, {  33,-1550 }, {  34,-1550 }, {  35,-1550 },
  {  36,-1550 }, {  37,-1550 }, {  38,-1550 }, {  39,-1550 }, {  40,-1550 },
-
  {  41,-1550 }, {  42,-1550 }, {  43,-1550 }, {  44,-1550 }, {  45,-1550 },
  {  46,-1550 }, {  47,-1550 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  58,-1550 }, {  59,-1550 }, {  60,-1550 },
  {  61,-1550 }, {  62,-1550 }, {  63,-1550 }, {  64,-1550 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  91,-1550 }, {  92,-1550 }, {  93,-1550 }, {  94,-1550 }, {   0,   0 },
  {  96,-1550 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 123,-1550 }, { 124,-1550 }, { 125,1808 },
  { 126,1810 }, { 127,-1550 }, { 128,-1550 }, { 129,-1550 }, { 130,-1550 },
  { 131,-1550 }, { 132,-1550 }, { 133,-1550 }, { 134,-1550 }, { 135,-1550 },
  { 136,-1550 }, { 137,-1550 }, { 138,-1550 }, { 139,-1550 }, { 140,-1550 },
-
  { 141,-1550 }, { 142,-1550 }, { 143,-1550 }, { 144,-1550 }, { 145,-1550 },
  { 146,-1550 }, { 147,-1550 }, { 148,-1550 }, { 149,-1550 }, { 150,-1550 },
  { 151,-1550 }, { 152,-1550 }, { 153,-1550 }, { 154,-1550 }, { 155,-1550 },
  { 156,-1550 }, { 157,-1550 }, { 158,-1550 }, { 159,-1550 }, { 160,-1550 },
  { 161,-1550 }, { 162,-1550 }, { 163,-1550 }, { 164,-1550 }, { 165,-1550 },
+
  { 166,-1550 }, { 167,-1550 }, { 168,-1550 }, { 169,-1550 }, { 170,-1550 },
  { 171,-1550 }, { 172,-1550 }, { 173,-1550 }, { 174,-1550 }, { 175,-1550 },
  { 176,-1550 }, { 177,-1550 }, { 178,-1550 }, { 179,-1550 }, { 180,-1550 },
  { 181,-1550 }, { 182,-1550 }, { 183,-1550 }, { 184,-1550 }, { 185,-1550 },
  { 186,-1550 }, { 187,-1550 }, { 188,-1550 }, { 189,-1550 }, { 190,-1550 },
-
  { 191,-1550 }, { 192,-1550 }, { 193,-1550 }, { 194,-1550 }, { 195,-1550 },
  { 196,-1550 }, { 197,-1550 }, { 198,-1550 }, { 199,-1550 }, { 200,-1550 },
  { 201,-1550 }, { 202,-1550 }, { 203,-1550 }, { 204,-1550 }, { 205,-1550 },
  { 206,-1550 }, { 207,-1550 }, { 208,-1550 }, { 209,-1550 }, { 210,-1550 },
  { 211,-1550 }, { 212,-1550 }, { 213,-1550 }, { 214,-1550 }, { 215,-1550 },
+
  { 216,-1550 }, { 217,-1550 }, { 218,-1550 }, { 219,-1550 }, { 220,-1550 },
  { 221,-1550 }, { 222,-1550 }, { 223,-1550 }, { 224,-1550 }, { 225,-1550 },
  { 226,-1550 }, { 227,-1550 }, { 228,-1550 }, { 229,-1550 }, { 230,-1550 },
  { 231,-1550 }, { 232,-1550 }, { 233,-1550 }, { 234,-1550 }, { 235,-1550 },
  { 236,-1550 }, { 237,-1550 }, { 238,-1550 }, { 239,-1550 }, { 240,-1550 },
-
  { 241,-1550 }, { 242,-1550 }, { 243,-1550 }, { 244,-1550 }, { 245,-1550 },
  { 246,-1550 }, { 247,-1550 }, { 248,-1550 }, { 249,-1550 }, { 250,-1550 },
  { 251,-1550 }, { 252,-1550 }, { 253,-1550 }, { 254,-1550 }, { 255,-1550 },
  { 256,-1550 }, {   0,   0 }, {   0,2590 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
-
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
  {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
-
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
  { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
-
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
-
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
-
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+
  {   0,2332 }, {   1,-1548 }, {   2,-1548 }, {   3,-1548 }, {   4,-1548 },
  {   5,-1548 }, {   6,-1548 }, {   7,-1548 }, {   8,-1548 }, {   9,-1548 },
  {  10,-1548 }, {  11,-1548 }, {  12,-1548 }, {  13,-1548 }, {  14,-1548 },
  {  15,-1548 }, {  16,-1548 }, {  17,-1548 }, {  18,-1548 }, {  19,-1548 },
  {  20,-1548 }, {  21,-1548 }, {  22,-1548 }, {  23,-1548 }, {  24,-1548 },
-
  {  25,-1548 }, {  26,-1548 }, {  27,-1548 }, {  28,-1548 }, {  29,-1548 },
  {  30,-1548 }, {  31,-1548 }, {  32,-1548 }, {  33,-1548 }, {  34,-1548 },
  {  35,-1548 }, {  36,-1548 }, {  37,-1548 }, {  38,-1548 }, {  39,-1548 },
  {  40,-1548 }, {  41,-1548 }, {  42,-1548 }, {  43,-1548 }, {  44,-1548 },
  {  45,-1290 }, {  46,-1548 }, {  47,-1548 }, {  48,-1548 }, {  49,-1548 },
+
  {  50,-1548 }, {  51,-1548 }, {  52,-1548 }, {  53,-1548 }, {  54,-1548 },
  {  55,-1548 }, {  56,-1548 }, {  57,-1548 }, {  58,-1548 }, {  59,-1548 },
  {  60,-1548 }, {  61,-1548 }, {  62,-1548 }, {  63,-1548 }, {  64,-1548 },
  {  65,-1548 }, {  66,-1548 }, {  67,-1548 }, {  68,-1548 }, {  69,-1548 },
  {  70,-1548 }, {  71,-1548 }, {  72,-1548 }, {  73,-1548 }, {  74,-1548 },
-
  {  75,-1548 }, {  76,-1548 }, {  77,-1548 }, {  78,-1548 }, {  79,-1548 },
  {  80,-1548 }, {  81,-1548 }, {  82,-1548 }, {  83,-1548 }, {  84,-1548 },
  {  85,-1548 }, {  86,-1548 }, {  87,-1548 }, {  88,-1548 }, {  89,-1548 },
  {  90,-1548 }, {  91,-1548 }, {  92,-1548 }, {  93,-1548 }, {  94,-1548 },
  {  95,-1548 }, {  96,-1548 }, {  97,-1548 }, {  98,-1548 }, {  99,-1548 },
+
  { 100,-1548 }, { 101,-1548 }, { 102,-1548 }, { 103,-1548 }, { 104,-1548 },
  { 105,-1548 }, { 106,-1548 }, { 107,-1548 }, { 108,-1548 }, { 109,-1548 },
  { 110,-1548 }, { 111,-1548 }, { 112,-1548 }, { 113,-1548 }, { 114,-1548 },
  { 115,-1548 }, { 116,-1548 }, { 117,-1548 }, { 118,-1548 }, { 119,-1548 },
  { 120,-1548 }, { 121,-1548 }, { 122,-1548 }, { 123,-1548 }, { 124,-1548 },
-
  { 125,-1548 }, { 126,-1548 }, { 127,-1548 }, { 128,-1548 }, { 129,-1548 },
  { 130,-1548 }, { 131,-1548 }, { 132,-1548 }, { 133,-1548 }, { 134,-1548 },
  { 135,-1548 }, { 136,-1548 }, { 137,-1548 }, { 138,-1548 }, { 139,-1548 },
  { 140,-1548 }, { 141,-1548 }, { 142,-1548 }, { 143,-1548 }, { 144,-1548 },
  { 145,-1548 }, { 146,-1548 }, { 147,-1548 }, { 148,-1548 }, { 149,-1548 },
+
  { 150,-1548 }, { 151,-1548 }, { 152,-1548 }, { 153,-1548 }, { 154,-1548 },
  { 155,-1548 }, { 156,-1548 }, { 157,-1548 }, { 158,-1548 }, { 159,-1548 },
  { 160,-1548 }, { 161,-1548 }, { 162,-1548 }, { 163,-1548 }, { 164,-1548 },
  { 165,-1548 }, { 166,-1548 }, { 167,-1548 }, { 168,-1548 }, { 169,-1548 },
  { 170,-1548 }, { 171,-1548 }, { 172,-1548 }, { 173,-1548 }, { 174,-1548 },
-
  { 175,-1548 }, { 176,-1548 }, { 177,-1548 }, { 178,-1548 }, { 179,-1548 },
  { 180,-1548 }, { 181,-1548 }, { 182,-1548 }, { 183,-1548 }, { 184,-1548 },
  { 185,-1548 }, { 186,-1548 }, { 187,-1548 }, { 188,-1548 }, { 189,-1548 },
  { 190,-1548 }, { 191,-1548 }, { 192,-1548 }, { 193,-1548 }, { 194,-1548 },
  { 195,-1548 }, { 196,-1548 }, { 197,-1548 }, { 198,-1548 }, { 199,-1548 },
+
  { 200,-1548 }, { 201,-1548 }, { 202,-1548 }, { 203,-1548 }, { 204,-1548 },
  { 205,-1548 }, { 206,-1548 }, { 207,-1548 }, { 208,-1548 }, { 209,-1548 },
  { 210,-1548 }, { 211,-1548 }, { 212,-1548 }, { 213,-1548 }, { 214,-1548 },
  { 215,-1548 }, { 216,-1548 }, { 217,-1548 }, { 218,-1548 }, { 219,-1548 },
  { 220,-1548 }, { 221,-1548 }, { 222,-1548 }, { 223,-1548 }, { 224,-1548 },
-
  { 225,-1548 }, { 226,-1548 }, { 227,-1548 }, { 228,-1548 }, { 229,-1548 },
  { 230,-1548 }, { 231,-1548 }, { 232,-1548 }, { 233,-1548 }, { 234,-1548 },
  { 235,-1548 }, { 236,-1548 }, { 237,-1548 }, { 238,-1548 }, { 239,-1548 },
  { 240,-1548 }, { 241,-1548 }, { 242,-1548 }, { 243,-1548 }, { 244,-1548 },
  { 245,-1548 }, { 246,-1548 }, { 247,-1548 }, { 248,-1548 }, { 249,-1548 },
+
  { 250,-1548 }, { 251,-1548 }, { 252,-1548 }, { 253,-1548 }, { 254,-1548 },
  { 255,-1548 }, { 256,-1548 }, {   0,   0 }, {   0,2074 }, {   1,-1806 },
  {   2,-1806 }, {   3,-1806 }, {   4,-1806 }, {   5,-1806 }, {   6,-1806 },
  {   7,-1806 }, {   8,-1806 }, {   9,-1806 }, {  10,-1806 }, {  11,-1806 },
  {  12,-1806 }, {  13,-1806 }, {  14,-1806 }, {  15,-1806 }, {  16,-1806 },
-
  {  17,-1806 }, {  18,-1806 }, {  19,-1806 }, {  20,-1806 }, {  21,-1806 },
  {  22,-1806 }, {  23,-1806 }, {  24,-1806 }, {  25,-1806 }, {  26,-1806 },
  {  27,-1806 }, {  28,-1806 }, {  29,-1806 }, {  30,-1806 }, {  31,-1806 },
  {  32,-1806 }, {  33,-1806 }, {  34,-1806 }, {  35,-1806 }, {  36,-1806 },
  {  37,-1806 }, {  38,-1806 }, {  39,-1806 }, {  40,-1806 }, {  41,-1806 },
+
  {  42,-1806 }, {  43,-1806 }, {  44,-1806 }, {  45,-258 }, {  46,-1806 },
  {  47,-1806 }, {  48,-1806 }, {  49,-1806 }, {  50,-1806 }, {  51,-1806 },
  {  52,-1806 }, {  53,-1806 }, {  54,-1806 }, {  55,-1806 }, {  56,-1806 },
  {  57,-1806 }, {  58,-1806 }, {  59,-1806 }, {  60,-1806 }, {  61,-1806 },
  {  62,-1806 }, {  63,-1806 }, {  64,-1806 }, {  65,-1806 }, {  66,-1806 },
-
  {  67,-1806 }, {  68,-1806 }, {  69,-1806 }, {  70,-1806 }, {  71,-1806 },
  {  72,-1806 }, {  73,-1806 }, {  74,-1806 }, {  75,-1806 }, {  76,-1806 },
  {  77,-1806 }, {  78,-1806 }, {  79,-1806 }, {  80,-1806 }, {  81,-1806 },
  {  82,-1806 }, {  83,-1806 }, {  84,-1806 }, {  85,-1806 }, {  86,-1806 },
  {  87,-1806 }, {  88,-1806 }, {  89,-1806 }, {  90,-1806 }, {  91,-1806 },
+
  {  92,-1806 }, {  93,-1806 }, {  94,-1806 }, {  95,-1806 }, {  96,-1806 },
  {  97,-1806 }, {  98,-1806 }, {  99,-1806 }, { 100,-1806 }, { 101,-1806 },
  { 102,-1806 }, { 103,-1806 }, { 104,-1806 }, { 105,-1806 }, { 106,-1806 },
  { 107,-1806 }, { 108,-1806 }, { 109,-1806 }, { 110,-1806 }, { 111,-1806 },
  { 112,-1806 }, { 113,-1806 }, { 114,-1806 }, { 115,-1806 }, { 116,-1806 },
-
  { 117,-1806 }, { 118,-1806 }, { 119,-1806 }, { 120,-1806 }, { 121,-1806 },
  { 122,-1806 }, { 123,-1806 }, { 124,-1806 }, { 125,1038 }, { 126,-1806 },
  { 127,-1806 }, { 128,-1806 }, { 129,-1806 }, { 130,-1806 }, { 131,-1806 },
  { 132,-1806 }, { 133,-1806 }, { 134,-1806 }, { 135,-1806 }, { 136,-1806 },
  { 137,-1806 }, { 138,-1806 }, { 139,-1806 }, { 140,-1806 }, { 141,-1806 },
+
  { 142,-1806 }, { 143,-1806 }, { 144,-1806 }, { 145,-1806 }, { 146,-1806 },
  { 147,-1806 }, { 148,-1806 }, { 149,-1806 }, { 150,-1806 }, { 151,-1806 },
  { 152,-1806 }, { 153,-1806 }, { 154,-1806 }, { 155,-1806 }, { 156,-1806 },
  { 157,-1806 }, { 158,-1806 }, { 159,-1806 }, { 160,-1806 }, { 161,-1806 },
  { 162,-1806 }, { 163,-1806 }, { 164,-1806 }, { 165,-1806 }, { 166,-1806 },
-
  { 167,-1806 }, { 168,-1806 }, { 169,-1806 }, { 170,-1806 }, { 171,-1806 },
  { 172,-1806 }, { 173,-1806 }, { 174,-1806 }, { 175,-1806 }, { 176,-1806 },
  { 177,-1806 }, { 178,-1806 }, { 179,-1806 }, { 180,-1806 }, { 181,-1806 },
  { 182,-1806 }, { 183,-1806 }, { 184,-1806 }, { 185,-1806 }, { 186,-1806 },
  { 187,-1806 }, { 188,-1806 }, { 189,-1806 }, { 190,-1806 }, { 191,-1806 },
+
  { 192,-1806 }, { 193,-1806 }, { 194,-1806 }, { 195,-1806 }, { 196,-1806 },
  { 197,-1806 }, { 198,-1806 }, { 199,-1806 }, { 200,-1806 }, { 201,-1806 },
  { 202,-1806 }, { 203,-1806 }, { 204,-1806 }, { 205,-1806 }, { 206,-1806 },
  { 207,-1806 }, { 208,-1806 }, { 209,-1806 }, { 210,-1806 }, { 211,-1806 },
  { 212,-1806 }, { 213,-1806 }, { 214,-1806 }, { 215,-1806 }, { 216,-1806 },
-
  { 217,-1806 }, { 218,-1806 }, { 219,-1806 }, { 220,-1806 }, { 221,-1806 },
  { 222,-1806 }, { 223,-1806 }, { 224,-1806 }, { 225,-1806 }, { 226,-1806 },
  { 227,-1806 }, { 228,-1806 }, { 229,-1806 }, { 230,-1806 }, { 231,-1806 },
  { 232,-1806 }, { 233,-1806 }, { 234,-1806 }, { 235,-1806 }, { 236,-1806 },
  { 237,-1806 }, { 238,-1806 }, { 239,-1806 }, { 240,-1806 }, { 241,-1806 },
+
  { 242,-1806 }, { 243,-1806 }, { 244,-1806 }, { 245,-1806 }, { 246,-1806 },
  { 247,-1806 }, { 248,-1806 }, { 249,-1806 }, { 250,-1806 }, { 251,-1806 },
  { 252,-1806 }, { 253,-1806 }, { 254,-1806 }, { 255,-1806 }, { 256,-1806 },
  {   0,   0 }, {   0,1816 }, {   1,-2064 }, {   2,-2064 }, {   3,-2064 },
  {   4,-2064 }, {   5,-2064 }, {   6,-2064 }, {   7,-2064 }, {   8,-2064 },
-
  {   9,-2064 }, {  10,-2064 }, {  11,-2064 }, {  12,-2064 }, {  13,-2064 },
  {  14,-2064 }, {  15,-2064 }, {  16,-2064 }, {  17,-2064 }, {  18,-2064 },
  {  19,-2064 }, {  20,-2064 }, {  21,-2064 }, {  22,-2064 }, {  23,-2064 },
  {  24,-2064 }, {  25,-2064 }, {  26,-2064 }, {  27,-2064 }, {  28,-2064 },
  {  29,-2064 }, {  30,-2064 }, {  31,-2064 }, {  32,-2064 }, {  33,-2064 },
+
  {  34,-2064 }, {  35,-2064 }, {  36,-2064 }, {  37,-2064 }, {  38,-2064 },
  {  39,-2064 }, {  40,-2064 }, {  41,-2064 }, {  42,-2064 }, {  43,-2064 },
  {  44,-2064 }, {  45,-516 }, {  46,-2064 }, {  47,-2064 }, {  48,-2064 },
  {  49,-2064 }, {  50,-2064 }, {  51,-2064 }, {  52,-2064 }, {  53,-2064 },
  {  54,-2064 }, {  55,-2064 }, {  56,-2064 }, {  57,-2064 }, {  58,-2064 },
-
  {  59,-2064 }, {  60,-2064 }, {  61,-2064 }, {  62,-2064 }, {  63,-2064 },
  {  64,-2064 }, {  65,-2064 }, {  66,-2064 }, {  67,-2064 }, {  68,-2064 },
  {  69,-2064 }, {  70,-2064 }, {  71,-2064 }, {  72,-2064 }, {  73,-2064 },
  {  74,-2064 }, {  75,-2064 }, {  76,-2064 }, {  77,-2064 }, {  78,-2064 },
  {  79,-2064 }, {  80,-2064 }, {  81,-2064 }, {  82,-2064 }, {  83,-2064 },
+
  {  84,-2064 }, {  85,-2064 }, {  86,-2064 }, {  87,-2064 }, {  88,-2064 },
  {  89,-2064 }, {  90,-2064 }, {  91,-2064 }, {  92,-2064 }, {  93,-2064 },
  {  94,-2064 }, {  95,-2064 }, {  96,-2064 }, {  97,-2064 }, {  98,-2064 },
  {  99,-2064 }, { 100,-2064 }, { 101,-2064 }, { 102,-2064 }, { 103,-2064 },
  { 104,-2064 }, { 105,-2064 }, { 106,-2064 }, { 107,-2064 }, { 108,-2064 },
-
  { 109,-2064 }, { 110,-2064 }, { 111,-2064 }, { 112,-2064 }, { 113,-2064 },
  { 114,-2064 }, { 115,-2064 }, { 116,-2064 }, { 117,-2064 }, { 118,-2064 },
  { 119,-2064 }, { 120,-2064 }, { 121,-2064 }, { 122,-2064 }, { 123,-2064 },
  { 124,-2064 }, { 125, 905 }, { 126,-2064 }, { 127,-2064 }, { 128,-2064 },
  { 129,-2064 }, { 130,-2064 }, { 131,-2064 }, { 132,-2064 }, { 133,-2064 },
+
  { 134,-2064 }, { 135,-2064 }, { 136,-2064 }, { 137,-2064 }, { 138,-2064 },
  { 139,-2064 }, { 140,-2064 }, { 141,-2064 }, { 142,-2064 }, { 143,-2064 },
  { 144,-2064 }, { 145,-2064 }, { 146,-2064 }, { 147,-2064 }, { 148,-2064 },
  { 149,-2064 }, { 150,-2064 }, { 151,-2064 }, { 152,-2064 }, { 153,-2064 },
  { 154,-2064 }, { 155,-2064 }, { 156,-2064 }, { 157,-2064 }, { 158,-2064 },
-
  { 159,-2064 }, { 160,-2064 }, { 161,-2064 }, { 162,-2064 }, { 163,-2064 },
  { 164,-2064 }, { 165,-2064 }, { 166,-2064 }, { 167,-2064 }, { 168,-2064 },
  { 169,-2064 }, { 170,-2064 }, { 171,-2064 }, { 172,-2064 }, { 173,-2064 },
  { 174,-2064 }, { 175,-2064 }, { 176,-2064 }, { 177,-2064 }, { 178,-2064 },
  { 179,-2064 }, { 180,-2064 }, { 181,-2064 }, { 182,-2064 }, { 183,-2064 },
+
  { 184,-2064 }, { 185,-2064 }, { 186,-2064 }, { 187,-2064 }, { 188,-2064 },
  { 189,-2064 }, { 190,-2064 }, { 191,-2064 }, { 192,-2064 }, { 193,-2064 },
  { 194,-2064 }, { 195,-2064 }, { 196,-2064 }, { 197,-2064 }, { 198,-2064 },
  { 199,-2064 }, { 200,-2064 }, { 201,-2064 }, { 202,-2064 }, { 203,-2064 },
  { 204,-2064 }, { 205,-2064 }, { 206,-2064 }, { 207,-2064 }, { 208,-2064 },
-
  { 209,-2064 }, { 210,-2064 }, { 211,-2064 }, { 212,-2064 }, { 213,-2064 },
  { 214,-2064 }, { 215,-2064 }, { 216,-2064 }, { 217,-2064 }, { 218,-2064 },
  { 219,-2064 }, { 220,-2064 }, { 221,-2064 }, { 222,-2064 }, { 223,-2064 },
  { 224,-2064 }, { 225,-2064 }, { 226,-2064 }, { 227,-2064 }, { 228,-2064 },
  { 229,-2064 }, { 230,-2064 }, { 231,-2064 }, { 232,-2064 }, { 233,-2064 },
+
  { 234,-2064 }, { 235,-2064 }, { 236,-2064 }, { 237,-2064 }, { 238,-2064 },
  { 239,-2064 }, { 240,-2064 }, { 241,-2064 }, { 242,-2064 }, { 243,-2064 },
  { 244,-2064 }, { 245,-2064 }, { 246,-2064 }, { 247,-2064 }, { 248,-2064 },
  { 249,-2064 }, { 250,-2064 }, { 251,-2064 }, { 252,-2064 }, { 253,-2064 },
  { 254,-2064 }, { 255,-2064 }, { 256,-2064 }, {   0,   0 }, {   0,1558 },
-
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
  {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
+
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
  {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
  {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
-
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
+
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
  {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
-
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
  { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 905 },
+
  {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
-
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
+
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
-
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
+
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
-
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
  { 256,   0 }, {   0,   0 }, {   0,1300 }, {   1,-12259 }, {   2,-12259 },
  {   3,-12259 }, {   4,-12259 }, {   5,-12259 }, {   6,-12259 }, {   7,-12259 },
  {   8,-12259 }, {   9,-12284 }, {  10,-12284 }, {  11,-12259 }, {  12,-12259 },
  {  13,-12284 }, {  14,-12259 }, {  15,-12259 }, {  16,-12259 }, {  17,-12259 },
+
  {  18,-12259 }, {  19,-12259 }, {  20,-12259 }, {  21,-12259 }, {  22,-12259 },
  {  23,-12259 }, {  24,-12259 }, {  25,-12259 }, {  26,-12259 }, {  27,-12259 },
  {  28,-12259 }, {  29,-12259 }, {  30,-12259 }, {  31,-12259 }, {  32,-12284 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12259 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12284 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  45,-12259 }, {  46,-12284 }, {  47,-12284 },
  {  48,-12259 }, {  49,-12259 }, {  50,-12259 }, {  51,-12259 }, {  52,-12259 },
  {  53,-12259 }, {  54,-12259 }, {  55,-12259 }, {  56,-12259 }, {  57,-12259 },
  {  58,-12259 }, {   0,   0 }, {   0,   0 }, {  61,-12284 }, {   0,   0 },
  {  63,-12259 }, {   0,   0 }, {  65,-12259 }, {  66,-12259 }, {  67,-12259 },
+
  {  68,-12259 }, {  69,-12259 }, {  70,-12259 }, {  71,-12259 }, {  72,-12259 },
  {  73,-12259 }, {  74,-12259 }, {  75,-12259 }, {  76,-12259 }, {  77,-12259 },
  {  78,-12259 }, {  79,-12259 }, {  80,-12259 }, {  81,-12259 }, {  82,-12259 },
  {  83,-12259 }, {  84,-12259 }, {  85,-12259 }, {  86,-12259 }, {  87,-12259 },
  {  88,-12259 }, {  89,-12259 }, {  90,-12259 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  95,-12259 }, {   0,   0 }, {  97,-12259 },
  {  98,-12259 }, {  99,-12259 }, { 100,-12259 }, { 101, 649 }, { 102,-12259 },
  { 103,-12259 }, { 104,-12259 }, { 105,-12259 }, { 106,-12259 }, { 107,-12259 },
  { 108,-12259 }, { 109,-12259 }, { 110,-12259 }, { 111,-12259 }, { 112,-12259 },
  { 113,-12259 }, { 114,-12259 }, { 115,-12259 }, { 116,-12259 }, { 117,-12259 },
+
  { 118,-12259 }, { 119,-12259 }, { 120,-12259 }, { 121,-12259 }, { 122,-12259 },
  {   0,   0 }, { 124,-12284 }, { 125,-12284 }, { 126,-12284 }, { 127,-12259 },
  { 128,-12259 }, { 129,-12259 }, { 130,-12259 }, { 131,-12259 }, { 132,-12259 },
  { 133,-12259 }, { 134,-12259 }, { 135,-12259 }, { 136,-12259 }, { 137,-12259 },
  { 138,-12259 }, { 139,-12259 }, { 140,-12259 }, { 141,-12259 }, { 142,-12259 },
-
  { 143,-12259 }, { 144,-12259 }, { 145,-12259 }, { 146,-12259 }, { 147,-12259 },
  { 148,-12259 }, { 149,-12259 }, { 150,-12259 }, { 151,-12259 }, { 152,-12259 },
  { 153,-12259 }, { 154,-12259 }, { 155,-12259 }, { 156,-12259 }, { 157,-12259 },
  { 158,-12259 }, { 159,-12259 }, { 160,-12259 }, { 161,-12259 }, { 162,-12259 },
  { 163,-12259 }, { 164,-12259 }, { 165,-12259 }, { 166,-12259 }, { 167,-12259 },
+
  { 168,-12259 }, { 169,-12259 }, { 170,-12259 }, { 171,-12259 }, { 172,-12259 },
  { 173,-12259 }, { 174,-12259 }, { 175,-12259 }, { 176,-12259 }, { 177,-12259 },
  { 178,-12259 }, { 179,-12259 }, { 180,-12259 }, { 181,-12259 }, { 182,-12259 },
  { 183,-12259 }, { 184,-12259 }, { 185,-12259 }, { 186,-12259 }, { 187,-12259 },
  { 188,-12259 }, { 189,-12259 }, { 190,-12259 }, { 191,-12259 }, { 192,-12259 },
-
  { 193,-12259 }, { 194,-12259 }, { 195,-12259 }, { 196,-12259 }, { 197,-12259 },
  { 198,-12259 }, { 199,-12259 }, { 200,-12259 }, { 201,-12259 }, { 202,-12259 },
  { 203,-12259 }, { 204,-12259 }, { 205,-12259 }, { 206,-12259 }, { 207,-12259 },
  { 208,-12259 }, { 209,-12259 }, { 210,-12259 }, { 211,-12259 }, { 212,-12259 },
  { 213,-12259 }, { 214,-12259 }, { 215,-12259 }, { 216,-12259 }, { 217,-12259 },
+
  { 218,-12259 }, { 219,-12259 }, { 220,-12259 }, { 221,-12259 }, { 222,-12259 },
  { 223,-12259 }, { 224,-12259 }, { 225,-12259 }, { 226,-12259 }, { 227,-12259 },
  { 228,-12259 }, { 229,-12259 }, { 230,-12259 }, { 231,-12259 }, { 232,-12259 },
  { 233,-12259 }, { 234,-12259 }, { 235,-12259 }, { 236,-12259 }, { 237,-12259 },
  { 238,-12259 }, { 239,-12259 }, { 240,-12259 }, { 241,-12259 }, { 242,-12259 },
-
  { 243,-12259 }, { 244,-12259 }, { 245,-12259 }, { 246,-12259 }, { 247,-12259 },
  { 248,-12259 }, { 249,-12259 }, { 250,-12259 }, { 251,-12259 }, { 252,-12259 },
- { 253,-12259 }, { 254,-12259 }, { 255,-12259 }, { 256,-12259 }, {   0,  25 },
- {   0,1042 }, {   0,  25 }, {   0,1040 }, {   0,  25 }, {   0,1038 },
+ { 253,-12259 }, { 254,-12259 }, { 255,-12259 }, { 256,-12259 }, {   0,  26 },
+ {   0,1042 }, {   0,  26 }, {   0,1040 }, {   0,  26 }, {   0,1038 },
  {   0,  12 }, {   0,1036 }, {   0,   0 }, {   0,   0 }, {   9, 649 },
+
  {  10, 649 }, {   0,   0 }, {   0,   0 }, {  13, 649 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32, 649 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 125, 651 }, { 126, 653 }, { 125, 653 }, {   0,   0 }, { 125, 647 },
  {   0,   0 }, {   0, 911 }, {   1,-2969 }, {   2,-2969 }, {   3,-2969 },
-
  {   4,-2969 }, {   5,-2969 }, {   6,-2969 }, {   7,-2969 }, {   8,-2969 },
  {   9,-2969 }, {  10,-2969 }, {  11,-2969 }, {  12,-2969 }, {  13,-2969 },
  {  14,-2969 }, {  15,-2969 }, {  16,-2969 }, {  17,-2969 }, {  18,-2969 },
  {  19,-2969 }, {  20,-2969 }, {  21,-2969 }, {  22,-2969 }, {  23,-2969 },
  {  24,-2969 }, {  25,-2969 }, {  26,-2969 }, {  27,-2969 }, {  28,-2969 },
+
  {  29,-2969 }, {  30,-2969 }, {  31,-2969 }, {  32,-2969 }, {  33,-2969 },
  {  34,-2969 }, {  35,-2969 }, {  36,-2969 }, {  37,-2969 }, {  38,-2969 },
  {  39,-2969 }, {  40,-2969 }, {  41,-2969 }, {  42,-2969 }, {  43,-2969 },
  {  44,-2969 }, {  45,-1421 }, {  46,-2969 }, {  47,-2969 }, {  48,-2969 },
  {  49,-2969 }, {  50,-2969 }, {  51,-2969 }, {  52,-2969 }, {  53,-2969 },
-
  {  54,-2969 }, {  55,-2969 }, {  56,-2969 }, {  57,-2969 }, {  58,-2969 },
  {  59,-2969 }, {  60,-2969 }, {  61,-2969 }, {  62,-2969 }, {  63,-2969 },
  {  64,-2969 }, {  65,-2969 }, {  66,-2969 }, {  67,-2969 }, {  68,-2969 },
  {  69,-2969 }, {  70,-2969 }, {  71,-2969 }, {  72,-2969 }, {  73,-2969 },
  {  74,-2969 }, {  75,-2969 }, {  76,-2969 }, {  77,-2969 }, {  78,-2969 },
+
  {  79,-2969 }, {  80,-2969 }, {  81,-2969 }, {  82,-2969 }, {  83,-2969 },
  {  84,-2969 }, {  85,-2969 }, {  86,-2969 }, {  87,-2969 }, {  88,-2969 },
  {  89,-2969 }, {  90,-2969 }, {  91,-2969 }, {  92,-2969 }, {  93,-2969 },
  {  94,-2969 }, {  95,-2969 }, {  96,-2969 }, {  97,-2969 }, {  98,-2969 },
  {  99,-2969 }, { 100,-2969 }, { 101,-2969 }, { 102,-2969 }, { 103,-2969 },
-
  { 104,-2969 }, { 105,-2969 }, { 106,-2969 }, { 107,-2969 }, { 108,-2969 },
  { 109,-2969 }, { 110,-2969 }, { 111,-2969 }, { 112,-2969 }, { 113,-2969 },
  { 114,-2969 }, { 115,-2969 }, { 116,-2969 }, { 117,-2969 }, { 118,-2969 },
  { 119,-2969 }, { 120,-2969 }, { 121,-2969 }, { 122,-2969 }, { 123,-2969 },
  { 124,-2969 }, { 125,-125 }, { 126,-2969 }, { 127,-2969 }, { 128,-2969 },
+
  { 129,-2969 }, { 130,-2969 }, { 131,-2969 }, { 132,-2969 }, { 133,-2969 },
  { 134,-2969 }, { 135,-2969 }, { 136,-2969 }, { 137,-2969 }, { 138,-2969 },
  { 139,-2969 }, { 140,-2969 }, { 141,-2969 }, { 142,-2969 }, { 143,-2969 },
  { 144,-2969 }, { 145,-2969 }, { 146,-2969 }, { 147,-2969 }, { 148,-2969 },
  { 149,-2969 }, { 150,-2969 }, { 151,-2969 }, { 152,-2969 }, { 153,-2969 },
-
  { 154,-2969 }, { 155,-2969 }, { 156,-2969 }, { 157,-2969 }, { 158,-2969 },
  { 159,-2969 }, { 160,-2969 }, { 161,-2969 }, { 162,-2969 }, { 163,-2969 },
  { 164,-2969 }, { 165,-2969 }, { 166,-2969 }, { 167,-2969 }, { 168,-2969 },
  { 169,-2969 }, { 170,-2969 }, { 171,-2969 }, { 172,-2969 }, { 173,-2969 },
  { 174,-2969 }, { 175,-2969 }, { 176,-2969 }, { 177,-2969 }, { 178,-2969 },
+
  { 179,-2969 }, { 180,-2969 }, { 181,-2969 }, { 182,-2969 }, { 183,-2969 },
  { 184,-2969 }, { 185,-2969 }, { 186,-2969 }, { 187,-2969 }, { 188,-2969 },
  { 189,-2969 }, { 190,-2969 }, { 191,-2969 }, { 192,-2969 }, { 193,-2969 },
  { 194,-2969 }, { 195,-2969 }, { 196,-2969 }, { 197,-2969 }, { 198,-2969 },
  { 199,-2969 }, { 200,-2969 }, { 201,-2969 }, { 202,-2969 }, { 203,-2969 },
-
  { 204,-2969 }, { 205,-2969 }, { 206,-2969 }, { 207,-2969 }, { 208,-2969 },
  { 209,-2969 }, { 210,-2969 }, { 211,-2969 }, { 212,-2969 }, { 213,-2969 },
  { 214,-2969 }, { 215,-2969 }, { 216,-2969 }, { 217,-2969 }, { 218,-2969 },
  { 219,-2969 }, { 220,-2969 }, { 221,-2969 }, { 222,-2969 }, { 223,-2969 },
  { 224,-2969 }, { 225,-2969 }, { 226,-2969 }, { 227,-2969 }, { 228,-2969 },
+
  { 229,-2969 }, { 230,-2969 }, { 231,-2969 }, { 232,-2969 }, { 233,-2969 },
  { 234,-2969 }, { 235,-2969 }, { 236,-2969 }, { 237,-2969 }, { 238,-2969 },
  { 239,-2969 }, { 240,-2969 }, { 241,-2969 }, { 242,-2969 }, { 243,-2969 },
  { 244,-2969 }, { 245,-2969 }, { 246,-2969 }, { 247,-2969 }, { 248,-2969 },
  { 249,-2969 }, { 250,-2969 }, { 251,-2969 }, { 252,-2969 }, { 253,-2969 },
-
  { 254,-2969 }, { 255,-2969 }, { 256,-2969 }, {   0,   0 }, {   0, 653 },
  {   0,   0 }, {   0, 651 }, {   1,-12908 }, {   2,-12908 }, {   3,-12908 },
  {   4,-12908 }, {   5,-12908 }, {   6,-12908 }, {   7,-12908 }, {   8,-12908 },
  {   9,-12933 }, {  10,-12933 }, {  11,-12908 }, {  12,-12908 }, {  13,-12933 },
  {  14,-12908 }, {  15,-12908 }, {  16,-12908 }, {  17,-12908 }, {  18,-12908 },
+
  {  19,-12908 }, {  20,-12908 }, {  21,-12908 }, {  22,-12908 }, {  23,-12908 },
  {  24,-12908 }, {  25,-12908 }, {  26,-12908 }, {  27,-12908 }, {  28,-12908 },
  {  29,-12908 }, {  30,-12908 }, {  31,-12908 }, {  32,-12933 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-12908 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-12933 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {  45,-12908 }, {  46,-12933 }, {  47,-12933 }, {  48,-12908 },
  {  49,-12908 }, {  50,-12908 }, {  51,-12908 }, {  52,-12908 }, {  53,-12908 },
  {  54,-12908 }, {  55,-12908 }, {  56,-12908 }, {  57,-12908 }, {  58,-12908 },
  {   0,   0 }, {   0,   0 }, {  61,-12933 }, {   0,   0 }, {  63,-12908 },
  {   0,   0 }, {  65,-12908 }, {  66,-12908 }, {  67,-12908 }, {  68,-12908 },
+
  {  69,-12908 }, {  70,-12908 }, {  71,-12908 }, {  72,-12908 }, {  73,-12908 },
  {  74,-12908 }, {  75,-12908 }, {  76,-12908 }, {  77,-12908 }, {  78,-12908 },
  {  79,-12908 }, {  80,-12908 }, {  81,-12908 }, {  82,-12908 }, {  83,-12908 },
  {  84,-12908 }, {  85,-12908 }, {  86,-12908 }, {  87,-12908 }, {  88,-12908 },
  {  89,-12908 }, {  90,-12908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {  95,-12908 }, {   0,   0 }, {  97,-12908 }, {  98,-12908 },
  {  99,-12908 }, { 100, 393 }, { 101,-12908 }, { 102,-12908 }, { 103,-12908 },
  { 104,-12908 }, { 105,-12908 }, { 106,-12908 }, { 107,-12908 }, { 108,-12908 },
  { 109,-12908 }, { 110,-12908 }, { 111,-12908 }, { 112,-12908 }, { 113,-12908 },
  { 114,-12908 }, { 115,-12908 }, { 116,-12908 }, { 117,-12908 }, { 118,-12908 },
+
  { 119,-12908 }, { 120,-12908 }, { 121,-12908 }, { 122,-12908 }, { 125, 268 },
  { 124,-12933 }, { 125,-12933 }, { 126,-12933 }, { 127,-12908 }, { 128,-12908 },
  { 129,-12908 }, { 130,-12908 }, { 131,-12908 }, { 132,-12908 }, { 133,-12908 },
  { 134,-12908 }, { 135,-12908 }, { 136,-12908 }, { 137,-12908 }, { 138,-12908 },
  { 139,-12908 }, { 140,-12908 }, { 141,-12908 }, { 142,-12908 }, { 143,-12908 },
-
  { 144,-12908 }, { 145,-12908 }, { 146,-12908 }, { 147,-12908 }, { 148,-12908 },
  { 149,-12908 }, { 150,-12908 }, { 151,-12908 }, { 152,-12908 }, { 153,-12908 },
  { 154,-12908 }, { 155,-12908 }, { 156,-12908 }, { 157,-12908 }, { 158,-12908 },
  { 159,-12908 }, { 160,-12908 }, { 161,-12908 }, { 162,-12908 }, { 163,-12908 },
  { 164,-12908 }, { 165,-12908 }, { 166,-12908 }, { 167,-12908 }, { 168,-12908 },
+
  { 169,-12908 }, { 170,-12908 }, { 171,-12908 }, { 172,-12908 }, { 173,-12908 },
  { 174,-12908 }, { 175,-12908 }, { 176,-12908 }, { 177,-12908 }, { 178,-12908 },
  { 179,-12908 }, { 180,-12908 }, { 181,-12908 }, { 182,-12908 }, { 183,-12908 },
  { 184,-12908 }, { 185,-12908 }, { 186,-12908 }, { 187,-12908 }, { 188,-12908 },
  { 189,-12908 }, { 190,-12908 }, { 191,-12908 }, { 192,-12908 }, { 193,-12908 },
-
  { 194,-12908 }, { 195,-12908 }, { 196,-12908 }, { 197,-12908 }, { 198,-12908 },
  { 199,-12908 }, { 200,-12908 }, { 201,-12908 }, { 202,-12908 }, { 203,-12908 },
  { 204,-12908 }, { 205,-12908 }, { 206,-12908 }, { 207,-12908 }, { 208,-12908 },
  { 209,-12908 }, { 210,-12908 }, { 211,-12908 }, { 212,-12908 }, { 213,-12908 },
  { 214,-12908 }, { 215,-12908 }, { 216,-12908 }, { 217,-12908 }, { 218,-12908 },
+
  { 219,-12908 }, { 220,-12908 }, { 221,-12908 }, { 222,-12908 }, { 223,-12908 },
  { 224,-12908 }, { 225,-12908 }, { 226,-12908 }, { 227,-12908 }, { 228,-12908 },
  { 229,-12908 }, { 230,-12908 }, { 231,-12908 }, { 232,-12908 }, { 233,-12908 },
  { 234,-12908 }, { 235,-12908 }, { 236,-12908 }, { 237,-12908 }, { 238,-12908 },
  { 239,-12908 }, { 240,-12908 }, { 241,-12908 }, { 242,-12908 }, { 243,-12908 },
-
  { 244,-12908 }, { 245,-12908 }, { 246,-12908 }, { 247,-12908 }, { 248,-12908 },
  { 249,-12908 }, { 250,-12908 }, { 251,-12908 }, { 252,-12908 }, { 253,-12908 },
  { 254,-12908 }, { 255,-12908 }, { 256,-12908 }, {   0,   0 }, {   0, 393 },
- {   0,   0 }, {   0, 391 }, {   0,   0 }, {   0, 389 }, {   0,  23 },
+ {   0,   0 }, {   0, 391 }, {   0,   0 }, {   0, 389 }, {   0,  24 },
  {   0, 387 }, {   0,   0 }, {   0, 385 }, {   9,   0 }, {  10,   0 },
+
  {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0, 350 }, {   0,  45 }, {   0, 348 },
+ {   0,   0 }, {   0,   0 }, {   0, 350 }, {   0,  46 }, {   0, 348 },
  {   0,   9 }, {   0, 346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
  { 126,   4 }, { 125,   4 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 125,  35 }, {   0,   0 }, {   0, 258 },
-
  {   1,-13301 }, {   2,-13301 }, {   3,-13301 }, {   4,-13301 }, {   5,-13301 },
  {   6,-13301 }, {   7,-13301 }, {   8,-13301 }, {   9, -90 }, {  10, -90 },
  {  11,-13301 }, {  12,-13301 }, {  13, -90 }, {  14,-13301 }, {  15,-13301 },
  {  16,-13301 }, {  17,-13301 }, {  18,-13301 }, {  19,-13301 }, {  20,-13301 },
  {  21,-13301 }, {  22,-13301 }, {  23,-13301 }, {  24,-13301 }, {  25,-13301 },
+
  {  26,-13301 }, {  27,-13301 }, {  28,-13301 }, {  29,-13301 }, {  30,-13301 },
  {  31,-13301 }, {  32, -90 }, { 125,   4 }, {   0,   0 }, {   0,   0 },
  {  36,-13301 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41, -90 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-13301 },
  {  46,-13326 }, {  47,-13326 }, {  48,-13301 }, {  49,-13301 }, {  50,-13301 },
-
  {  51,-13301 }, {  52,-13301 }, {  53,-13301 }, {  54,-13301 }, {  55,-13301 },
  {  56,-13301 }, {  57,-13301 }, {  58,-13301 }, {   0,   0 }, {   0,   0 },
  {  61,-13326 }, {   0,   0 }, {  63,-13301 }, {   0,   0 }, {  65,-13301 },
  {  66,-13301 }, {  67,-13301 }, {  68,-13301 }, {  69,-13301 }, {  70,-13301 },
  {  71,-13301 }, {  72,-13301 }, {  73,-13301 }, {  74,-13301 }, {  75,-13301 },
+
  {  76,-13301 }, {  77,-13301 }, {  78,-13301 }, {  79,-13301 }, {  80,-13301 },
  {  81,-13301 }, {  82,-13301 }, {  83,-13301 }, {  84,-13301 }, {  85,-13301 },
  {  86,-13301 }, {  87,-13301 }, {  88,-13301 }, {  89,-13301 }, {  90,-13301 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-13301 },
  {   0,   0 }, {  97,-13301 }, {  98,-13301 }, {  99,-13301 }, { 100,-13301 },
-
  { 101,-13301 }, { 102,-13301 }, { 103,-13301 }, { 104,-13301 }, { 105,-13301 },
  { 106,-13301 }, { 107,-13301 }, { 108,-13301 }, { 109,-13301 }, { 110,-13301 },
  { 111,-13301 }, { 112,-13301 }, { 113,-13301 }, { 114,-13301 }, { 115,-13301 },
  { 116,-13301 }, { 117,-13301 }, { 118,-13301 }, { 119,-13301 }, { 120,-13301 },
  { 121,-13301 }, { 122,-13301 }, {   0,   0 }, { 124,-13326 }, { 125, -90 },
+
  { 126, -90 }, { 127,-13301 }, { 128,-13301 }, { 129,-13301 }, { 130,-13301 },
  { 131,-13301 }, { 132,-13301 }, { 133,-13301 }, { 134,-13301 }, { 135,-13301 },
  { 136,-13301 }, { 137,-13301 }, { 138,-13301 }, { 139,-13301 }, { 140,-13301 },
  { 141,-13301 }, { 142,-13301 }, { 143,-13301 }, { 144,-13301 }, { 145,-13301 },
  { 146,-13301 }, { 147,-13301 }, { 148,-13301 }, { 149,-13301 }, { 150,-13301 },
-
  { 151,-13301 }, { 152,-13301 }, { 153,-13301 }, { 154,-13301 }, { 155,-13301 },
  { 156,-13301 }, { 157,-13301 }, { 158,-13301 }, { 159,-13301 }, { 160,-13301 },
  { 161,-13301 }, { 162,-13301 }, { 163,-13301 }, { 164,-13301 }, { 165,-13301 },
  { 166,-13301 }, { 167,-13301 }, { 168,-13301 }, { 169,-13301 }, { 170,-13301 },
  { 171,-13301 }, { 172,-13301 }, { 173,-13301 }, { 174,-13301 }, { 175,-13301 },
+
  { 176,-13301 }, { 177,-13301 }, { 178,-13301 }, { 179,-13301 }, { 180,-13301 },
  { 181,-13301 }, { 182,-13301 }, { 183,-13301 }, { 184,-13301 }, { 185,-13301 },
  { 186,-13301 }, { 187,-13301 }, { 188,-13301 }, { 189,-13301 }, { 190,-13301 },
  { 191,-13301 }, { 192,-13301 }, { 193,-13301 }, { 194,-13301 }, { 195,-13301 },
  { 196,-13301 }, { 197,-13301 }, { 198,-13301 }, { 199,-13301 }, { 200,-13301 },
-
  { 201,-13301 }, { 202,-13301 }, { 203,-13301 }, { 204,-13301 }, { 205,-13301 },
  { 206,-13301 }, { 207,-13301 }, { 208,-13301 }, { 209,-13301 }, { 210,-13301 },
  { 211,-13301 }, { 212,-13301 }, { 213,-13301 }, { 214,-13301 }, { 215,-13301 },
  { 216,-13301 }, { 217,-13301 }, { 218,-13301 }, { 219,-13301 }, { 220,-13301 },
  { 221,-13301 }, { 222,-13301 }, { 223,-13301 }, { 224,-13301 }, { 225,-13301 },
+
  { 226,-13301 }, { 227,-13301 }, { 228,-13301 }, { 229,-13301 }, { 230,-13301 },
  { 231,-13301 }, { 232,-13301 }, { 233,-13301 }, { 234,-13301 }, { 235,-13301 },
  { 236,-13301 }, { 237,-13301 }, { 238,-13301 }, { 239,-13301 }, { 240,-13301 },
  { 241,-13301 }, { 242,-13301 }, { 243,-13301 }, { 244,-13301 }, { 245,-13301 },
  { 246,-13301 }, { 247,-13301 }, { 248,-13301 }, { 249,-13301 }, { 250,-13301 },
-
  { 251,-13301 }, { 252,-13301 }, { 253,-13301 }, { 254,-13301 }, { 255,-13301 },
- { 256,-13301 }, { 257,  52 }, {   1,   0 },    };
+ { 256,-13301 }, { 257,  53 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5331,11 +5358,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
+static const flex_int32_t yy_rule_can_match_eol[53] =
     {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
-    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
+    0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
+    1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -5437,10 +5464,10 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5441 "handlebars.lex.c"
+#line 5468 "handlebars.lex.c"
 
 /* From one "-" of a long comment to a later one, without passing "--}}" or "--~}}" */
-#line 5444 "handlebars.lex.c"
+#line 5471 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5723,7 +5750,7 @@ YY_DECL
 
 
 
-#line 5727 "handlebars.lex.c"
+#line 5754 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5936,35 +5963,45 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 14:
+/* rule 14 can match eol */
 YY_RULE_SETUP
 #line 242 "handlebars.l"
 {
-										// v2.0.0 handlebars.l line 61
+										// not terminated
 										handlebars_yy_copy_lval();
-										return OPEN_SEXPR;
+										return INVALID;
 									}
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
 #line 248 "handlebars.l"
 {
-										// v2.0.0 handlebars.l line 62
+										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
-										return CLOSE_SEXPR;
+										return OPEN_SEXPR;
 									}
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
 #line 254 "handlebars.l"
 {
-										// v2.0.0 handlebars.l line 64
+										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
-										return OPEN_RAW_BLOCK;
+										return CLOSE_SEXPR;
 									}
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
 #line 260 "handlebars.l"
+{
+										// v2.0.0 handlebars.l line 64
+										handlebars_yy_copy_lval();
+										return OPEN_RAW_BLOCK;
+									}
+	YY_BREAK
+case 18:
+YY_RULE_SETUP
+#line 266 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5973,46 +6010,46 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 268 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 274 "handlebars.l"
+#line 280 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 280 "handlebars.l"
+#line 286 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 286 "handlebars.l"
+#line 292 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 22:
-/* rule 22 can match eol */
+case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-#line 292 "handlebars.l"
+#line 298 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -6020,10 +6057,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 299 "handlebars.l"
+#line 305 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6031,50 +6068,50 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
-#line 306 "handlebars.l"
+#line 312 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 25:
-/* rule 25 can match eol */
+case 26:
+/* rule 26 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 312 "handlebars.l"
+#line 318 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 318 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 324 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 330 "handlebars.l"
+#line 336 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6082,9 +6119,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 337 "handlebars.l"
+#line 343 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6092,68 +6129,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 344 "handlebars.l"
+#line 350 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 350 "handlebars.l"
+#line 356 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 356 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 34:
+/* rule 34 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 362 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
-#line 368 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 35:
-/* rule 35 can match eol */
+case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-#line 374 "handlebars.l"
+#line 380 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
-#line 379 "handlebars.l"
+#line 385 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6161,9 +6198,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 386 "handlebars.l"
+#line 392 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6171,10 +6208,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 39:
+/* rule 39 can match eol */
 YY_RULE_SETUP
-#line 393 "handlebars.l"
+#line 399 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6184,10 +6221,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 402 "handlebars.l"
+#line 408 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6197,122 +6234,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
-#line 411 "handlebars.l"
+#line 417 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 41:
-/* rule 41 can match eol */
+case 42:
+/* rule 42 can match eol */
 YY_RULE_SETUP
-#line 417 "handlebars.l"
+#line 423 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
-#line 423 "handlebars.l"
+#line 429 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
-/* rule 43 can match eol */
+case 44:
+/* rule 44 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 429 "handlebars.l"
+#line 435 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 435 "handlebars.l"
+#line 441 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 441 "handlebars.l"
+#line 447 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 447 "handlebars.l"
+#line 453 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 453 "handlebars.l"
+#line 459 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 460 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-#line 466 "handlebars.l"
+#line 472 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6323,9 +6360,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 50:
+case 51:
 YY_RULE_SETUP
-#line 476 "handlebars.l"
+#line 482 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6338,18 +6375,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 482 "handlebars.l"
+#line 488 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6353 "handlebars.lex.c"
+#line 6390 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7557,6 +7594,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 1147b9e..83754e4 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From f343241bda93b3655af3d95753a8a3a81deebc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:58 +0000
Subject: [PATCH 06/98] fix: a NUL byte in template text is a parse error

The scanner matched an empty CONTENT token at it for ever.
---
 src/handlebars.l     |   5 +
 src/handlebars.lex.c | 608 ++++++++++++++++++++++---------------------
 src/handlebars.lex.h |   2 +-
 3 files changed, 314 insertions(+), 301 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 74519d0..199797b 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -186,6 +186,11 @@ COM_DASH  {COM_SKIP}[^-]*"-"|"-"+("}"|"~"|"~}")"-"
 										return CONTENT;
 									}
 
+<INITIAL,raw>\x00                   {
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <emu>. 								{
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e134b9c..3b2c279 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -592,8 +592,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 52
-#define YY_END_OF_BUFFER 53
+#define YY_NUM_RULES 53
+#define YY_END_OF_BUFFER 54
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
@@ -830,7 +830,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
  {   0,20497 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
- {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
+ {  10,3794 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
  {  15,3792 }, {  16,3792 }, {  17,3792 }, {  18,3792 }, {  19,3792 },
  {  20,3792 }, {  21,3792 }, {  22,3792 }, {  23,3792 }, {  24,3792 },
@@ -887,7 +887,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,20239 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
- {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
+ {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,3536 }, {  11,3534 },
  {  12,3534 }, {  13,3534 }, {  14,3534 }, {  15,3534 }, {  16,3534 },
  {  17,3534 }, {  18,3534 }, {  19,3534 }, {  20,3534 }, {  21,3534 },
  {  22,3534 }, {  23,3534 }, {  24,3534 }, {  25,3534 }, {  26,3534 },
@@ -942,120 +942,120 @@ static const struct yy_trans_info yy_transition[21787] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19981 }, {   1,3278 }, {   2,3278 }, {   3,3278 },
- {   4,3278 }, {   5,3278 }, {   6,3278 }, {   7,3278 }, {   8,3278 },
- {   9,3278 }, {  10,3278 }, {  11,3278 }, {  12,3278 }, {  13,3278 },
- {  14,3278 }, {  15,3278 }, {  16,3278 }, {  17,3278 }, {  18,3278 },
- {  19,3278 }, {  20,3278 }, {  21,3278 }, {  22,3278 }, {  23,3278 },
- {  24,3278 }, {  25,3278 }, {  26,3278 }, {  27,3278 }, {  28,3278 },
- {  29,3278 }, {  30,3278 }, {  31,3278 }, {  32,3278 }, {  33,3278 },
- {  34,3278 }, {  35,3278 }, {  36,3278 }, {  37,3278 }, {  38,3278 },
- {  39,3278 }, {  40,3278 }, {  41,3278 }, {  42,3278 }, {  43,3278 },
- {  44,3278 }, {  45,3278 }, {  46,3278 }, {  47,3278 }, {  48,3278 },
-
- {  49,3278 }, {  50,3278 }, {  51,3278 }, {  52,3278 }, {  53,3278 },
- {  54,3278 }, {  55,3278 }, {  56,3278 }, {  57,3278 }, {  58,3278 },
- {  59,3278 }, {  60,3278 }, {  61,3278 }, {  62,3278 }, {  63,3278 },
- {  64,3278 }, {  65,3278 }, {  66,3278 }, {  67,3278 }, {  68,3278 },
- {  69,3278 }, {  70,3278 }, {  71,3278 }, {  72,3278 }, {  73,3278 },
- {  74,3278 }, {  75,3278 }, {  76,3278 }, {  77,3278 }, {  78,3278 },
- {  79,3278 }, {  80,3278 }, {  81,3278 }, {  82,3278 }, {  83,3278 },
- {  84,3278 }, {  85,3278 }, {  86,3278 }, {  87,3278 }, {  88,3278 },
- {  89,3278 }, {  90,3278 }, {  91,3278 }, {  92,3278 }, {  93,3278 },
- {  94,3278 }, {  95,3278 }, {  96,3278 }, {  97,3278 }, {  98,3278 },
-
- {  99,3278 }, { 100,3278 }, { 101,3278 }, { 102,3278 }, { 103,3278 },
- { 104,3278 }, { 105,3278 }, { 106,3278 }, { 107,3278 }, { 108,3278 },
- { 109,3278 }, { 110,3278 }, { 111,3278 }, { 112,3278 }, { 113,3278 },
- { 114,3278 }, { 115,3278 }, { 116,3278 }, { 117,3278 }, { 118,3278 },
- { 119,3278 }, { 120,3278 }, { 121,3278 }, { 122,3278 }, { 123,5111 },
- { 124,3278 }, { 125,3278 }, { 126,3278 }, { 127,3278 }, { 128,3278 },
- { 129,3278 }, { 130,3278 }, { 131,3278 }, { 132,3278 }, { 133,3278 },
- { 134,3278 }, { 135,3278 }, { 136,3278 }, { 137,3278 }, { 138,3278 },
- { 139,3278 }, { 140,3278 }, { 141,3278 }, { 142,3278 }, { 143,3278 },
- { 144,3278 }, { 145,3278 }, { 146,3278 }, { 147,3278 }, { 148,3278 },
-
- { 149,3278 }, { 150,3278 }, { 151,3278 }, { 152,3278 }, { 153,3278 },
- { 154,3278 }, { 155,3278 }, { 156,3278 }, { 157,3278 }, { 158,3278 },
- { 159,3278 }, { 160,3278 }, { 161,3278 }, { 162,3278 }, { 163,3278 },
- { 164,3278 }, { 165,3278 }, { 166,3278 }, { 167,3278 }, { 168,3278 },
- { 169,3278 }, { 170,3278 }, { 171,3278 }, { 172,3278 }, { 173,3278 },
- { 174,3278 }, { 175,3278 }, { 176,3278 }, { 177,3278 }, { 178,3278 },
- { 179,3278 }, { 180,3278 }, { 181,3278 }, { 182,3278 }, { 183,3278 },
- { 184,3278 }, { 185,3278 }, { 186,3278 }, { 187,3278 }, { 188,3278 },
- { 189,3278 }, { 190,3278 }, { 191,3278 }, { 192,3278 }, { 193,3278 },
- { 194,3278 }, { 195,3278 }, { 196,3278 }, { 197,3278 }, { 198,3278 },
-
- { 199,3278 }, { 200,3278 }, { 201,3278 }, { 202,3278 }, { 203,3278 },
- { 204,3278 }, { 205,3278 }, { 206,3278 }, { 207,3278 }, { 208,3278 },
- { 209,3278 }, { 210,3278 }, { 211,3278 }, { 212,3278 }, { 213,3278 },
- { 214,3278 }, { 215,3278 }, { 216,3278 }, { 217,3278 }, { 218,3278 },
- { 219,3278 }, { 220,3278 }, { 221,3278 }, { 222,3278 }, { 223,3278 },
- { 224,3278 }, { 225,3278 }, { 226,3278 }, { 227,3278 }, { 228,3278 },
- { 229,3278 }, { 230,3278 }, { 231,3278 }, { 232,3278 }, { 233,3278 },
- { 234,3278 }, { 235,3278 }, { 236,3278 }, { 237,3278 }, { 238,3278 },
- { 239,3278 }, { 240,3278 }, { 241,3278 }, { 242,3278 }, { 243,3278 },
- { 244,3278 }, { 245,3278 }, { 246,3278 }, { 247,3278 }, { 248,3278 },
-
- { 249,3278 }, { 250,3278 }, { 251,3278 }, { 252,3278 }, { 253,3278 },
- { 254,3278 }, { 255,3278 }, { 256,3278 }, {   0,   0 }, {   0,19723 },
- {   1,3020 }, {   2,3020 }, {   3,3020 }, {   4,3020 }, {   5,3020 },
- {   6,3020 }, {   7,3020 }, {   8,3020 }, {   9,3020 }, {  10,3020 },
- {  11,3020 }, {  12,3020 }, {  13,3020 }, {  14,3020 }, {  15,3020 },
- {  16,3020 }, {  17,3020 }, {  18,3020 }, {  19,3020 }, {  20,3020 },
- {  21,3020 }, {  22,3020 }, {  23,3020 }, {  24,3020 }, {  25,3020 },
- {  26,3020 }, {  27,3020 }, {  28,3020 }, {  29,3020 }, {  30,3020 },
- {  31,3020 }, {  32,3020 }, {  33,3020 }, {  34,3020 }, {  35,3020 },
- {  36,3020 }, {  37,3020 }, {  38,3020 }, {  39,3020 }, {  40,3020 },
-
- {  41,3020 }, {  42,3020 }, {  43,3020 }, {  44,3020 }, {  45,3020 },
- {  46,3020 }, {  47,3020 }, {  48,3020 }, {  49,3020 }, {  50,3020 },
- {  51,3020 }, {  52,3020 }, {  53,3020 }, {  54,3020 }, {  55,3020 },
- {  56,3020 }, {  57,3020 }, {  58,3020 }, {  59,3020 }, {  60,3020 },
- {  61,3020 }, {  62,3020 }, {  63,3020 }, {  64,3020 }, {  65,3020 },
- {  66,3020 }, {  67,3020 }, {  68,3020 }, {  69,3020 }, {  70,3020 },
- {  71,3020 }, {  72,3020 }, {  73,3020 }, {  74,3020 }, {  75,3020 },
- {  76,3020 }, {  77,3020 }, {  78,3020 }, {  79,3020 }, {  80,3020 },
- {  81,3020 }, {  82,3020 }, {  83,3020 }, {  84,3020 }, {  85,3020 },
- {  86,3020 }, {  87,3020 }, {  88,3020 }, {  89,3020 }, {  90,3020 },
-
- {  91,3020 }, {  92,3020 }, {  93,3020 }, {  94,3020 }, {  95,3020 },
- {  96,3020 }, {  97,3020 }, {  98,3020 }, {  99,3020 }, { 100,3020 },
- { 101,3020 }, { 102,3020 }, { 103,3020 }, { 104,3020 }, { 105,3020 },
- { 106,3020 }, { 107,3020 }, { 108,3020 }, { 109,3020 }, { 110,3020 },
- { 111,3020 }, { 112,3020 }, { 113,3020 }, { 114,3020 }, { 115,3020 },
- { 116,3020 }, { 117,3020 }, { 118,3020 }, { 119,3020 }, { 120,3020 },
- { 121,3020 }, { 122,3020 }, { 123,4853 }, { 124,3020 }, { 125,3020 },
- { 126,3020 }, { 127,3020 }, { 128,3020 }, { 129,3020 }, { 130,3020 },
- { 131,3020 }, { 132,3020 }, { 133,3020 }, { 134,3020 }, { 135,3020 },
- { 136,3020 }, { 137,3020 }, { 138,3020 }, { 139,3020 }, { 140,3020 },
-
- { 141,3020 }, { 142,3020 }, { 143,3020 }, { 144,3020 }, { 145,3020 },
- { 146,3020 }, { 147,3020 }, { 148,3020 }, { 149,3020 }, { 150,3020 },
- { 151,3020 }, { 152,3020 }, { 153,3020 }, { 154,3020 }, { 155,3020 },
- { 156,3020 }, { 157,3020 }, { 158,3020 }, { 159,3020 }, { 160,3020 },
- { 161,3020 }, { 162,3020 }, { 163,3020 }, { 164,3020 }, { 165,3020 },
- { 166,3020 }, { 167,3020 }, { 168,3020 }, { 169,3020 }, { 170,3020 },
- { 171,3020 }, { 172,3020 }, { 173,3020 }, { 174,3020 }, { 175,3020 },
- { 176,3020 }, { 177,3020 }, { 178,3020 }, { 179,3020 }, { 180,3020 },
- { 181,3020 }, { 182,3020 }, { 183,3020 }, { 184,3020 }, { 185,3020 },
- { 186,3020 }, { 187,3020 }, { 188,3020 }, { 189,3020 }, { 190,3020 },
-
- { 191,3020 }, { 192,3020 }, { 193,3020 }, { 194,3020 }, { 195,3020 },
- { 196,3020 }, { 197,3020 }, { 198,3020 }, { 199,3020 }, { 200,3020 },
- { 201,3020 }, { 202,3020 }, { 203,3020 }, { 204,3020 }, { 205,3020 },
- { 206,3020 }, { 207,3020 }, { 208,3020 }, { 209,3020 }, { 210,3020 },
- { 211,3020 }, { 212,3020 }, { 213,3020 }, { 214,3020 }, { 215,3020 },
- { 216,3020 }, { 217,3020 }, { 218,3020 }, { 219,3020 }, { 220,3020 },
- { 221,3020 }, { 222,3020 }, { 223,3020 }, { 224,3020 }, { 225,3020 },
- { 226,3020 }, { 227,3020 }, { 228,3020 }, { 229,3020 }, { 230,3020 },
- { 231,3020 }, { 232,3020 }, { 233,3020 }, { 234,3020 }, { 235,3020 },
- { 236,3020 }, { 237,3020 }, { 238,3020 }, { 239,3020 }, { 240,3020 },
-
- { 241,3020 }, { 242,3020 }, { 243,3020 }, { 244,3020 }, { 245,3020 },
- { 246,3020 }, { 247,3020 }, { 248,3020 }, { 249,3020 }, { 250,3020 },
- { 251,3020 }, { 252,3020 }, { 253,3020 }, { 254,3020 }, { 255,3020 },
- { 256,3020 }, {   0,   0 }, {   0,19465 }, {   1,4720 }, {   2,4720 },
+ {   0,   0 }, {   0,19981 }, {   1,3280 }, {   2,3280 }, {   3,3280 },
+ {   4,3280 }, {   5,3280 }, {   6,3280 }, {   7,3280 }, {   8,3280 },
+ {   9,3280 }, {  10,3280 }, {  11,3280 }, {  12,3280 }, {  13,3280 },
+ {  14,3280 }, {  15,3280 }, {  16,3280 }, {  17,3280 }, {  18,3280 },
+ {  19,3280 }, {  20,3280 }, {  21,3280 }, {  22,3280 }, {  23,3280 },
+ {  24,3280 }, {  25,3280 }, {  26,3280 }, {  27,3280 }, {  28,3280 },
+ {  29,3280 }, {  30,3280 }, {  31,3280 }, {  32,3280 }, {  33,3280 },
+ {  34,3280 }, {  35,3280 }, {  36,3280 }, {  37,3280 }, {  38,3280 },
+ {  39,3280 }, {  40,3280 }, {  41,3280 }, {  42,3280 }, {  43,3280 },
+ {  44,3280 }, {  45,3280 }, {  46,3280 }, {  47,3280 }, {  48,3280 },
+
+ {  49,3280 }, {  50,3280 }, {  51,3280 }, {  52,3280 }, {  53,3280 },
+ {  54,3280 }, {  55,3280 }, {  56,3280 }, {  57,3280 }, {  58,3280 },
+ {  59,3280 }, {  60,3280 }, {  61,3280 }, {  62,3280 }, {  63,3280 },
+ {  64,3280 }, {  65,3280 }, {  66,3280 }, {  67,3280 }, {  68,3280 },
+ {  69,3280 }, {  70,3280 }, {  71,3280 }, {  72,3280 }, {  73,3280 },
+ {  74,3280 }, {  75,3280 }, {  76,3280 }, {  77,3280 }, {  78,3280 },
+ {  79,3280 }, {  80,3280 }, {  81,3280 }, {  82,3280 }, {  83,3280 },
+ {  84,3280 }, {  85,3280 }, {  86,3280 }, {  87,3280 }, {  88,3280 },
+ {  89,3280 }, {  90,3280 }, {  91,3280 }, {  92,3280 }, {  93,3280 },
+ {  94,3280 }, {  95,3280 }, {  96,3280 }, {  97,3280 }, {  98,3280 },
+
+ {  99,3280 }, { 100,3280 }, { 101,3280 }, { 102,3280 }, { 103,3280 },
+ { 104,3280 }, { 105,3280 }, { 106,3280 }, { 107,3280 }, { 108,3280 },
+ { 109,3280 }, { 110,3280 }, { 111,3280 }, { 112,3280 }, { 113,3280 },
+ { 114,3280 }, { 115,3280 }, { 116,3280 }, { 117,3280 }, { 118,3280 },
+ { 119,3280 }, { 120,3280 }, { 121,3280 }, { 122,3280 }, { 123,5111 },
+ { 124,3280 }, { 125,3280 }, { 126,3280 }, { 127,3280 }, { 128,3280 },
+ { 129,3280 }, { 130,3280 }, { 131,3280 }, { 132,3280 }, { 133,3280 },
+ { 134,3280 }, { 135,3280 }, { 136,3280 }, { 137,3280 }, { 138,3280 },
+ { 139,3280 }, { 140,3280 }, { 141,3280 }, { 142,3280 }, { 143,3280 },
+ { 144,3280 }, { 145,3280 }, { 146,3280 }, { 147,3280 }, { 148,3280 },
+
+ { 149,3280 }, { 150,3280 }, { 151,3280 }, { 152,3280 }, { 153,3280 },
+ { 154,3280 }, { 155,3280 }, { 156,3280 }, { 157,3280 }, { 158,3280 },
+ { 159,3280 }, { 160,3280 }, { 161,3280 }, { 162,3280 }, { 163,3280 },
+ { 164,3280 }, { 165,3280 }, { 166,3280 }, { 167,3280 }, { 168,3280 },
+ { 169,3280 }, { 170,3280 }, { 171,3280 }, { 172,3280 }, { 173,3280 },
+ { 174,3280 }, { 175,3280 }, { 176,3280 }, { 177,3280 }, { 178,3280 },
+ { 179,3280 }, { 180,3280 }, { 181,3280 }, { 182,3280 }, { 183,3280 },
+ { 184,3280 }, { 185,3280 }, { 186,3280 }, { 187,3280 }, { 188,3280 },
+ { 189,3280 }, { 190,3280 }, { 191,3280 }, { 192,3280 }, { 193,3280 },
+ { 194,3280 }, { 195,3280 }, { 196,3280 }, { 197,3280 }, { 198,3280 },
+
+ { 199,3280 }, { 200,3280 }, { 201,3280 }, { 202,3280 }, { 203,3280 },
+ { 204,3280 }, { 205,3280 }, { 206,3280 }, { 207,3280 }, { 208,3280 },
+ { 209,3280 }, { 210,3280 }, { 211,3280 }, { 212,3280 }, { 213,3280 },
+ { 214,3280 }, { 215,3280 }, { 216,3280 }, { 217,3280 }, { 218,3280 },
+ { 219,3280 }, { 220,3280 }, { 221,3280 }, { 222,3280 }, { 223,3280 },
+ { 224,3280 }, { 225,3280 }, { 226,3280 }, { 227,3280 }, { 228,3280 },
+ { 229,3280 }, { 230,3280 }, { 231,3280 }, { 232,3280 }, { 233,3280 },
+ { 234,3280 }, { 235,3280 }, { 236,3280 }, { 237,3280 }, { 238,3280 },
+ { 239,3280 }, { 240,3280 }, { 241,3280 }, { 242,3280 }, { 243,3280 },
+ { 244,3280 }, { 245,3280 }, { 246,3280 }, { 247,3280 }, { 248,3280 },
+
+ { 249,3280 }, { 250,3280 }, { 251,3280 }, { 252,3280 }, { 253,3280 },
+ { 254,3280 }, { 255,3280 }, { 256,3280 }, {   0,   0 }, {   0,19723 },
+ {   1,3022 }, {   2,3022 }, {   3,3022 }, {   4,3022 }, {   5,3022 },
+ {   6,3022 }, {   7,3022 }, {   8,3022 }, {   9,3022 }, {  10,3022 },
+ {  11,3022 }, {  12,3022 }, {  13,3022 }, {  14,3022 }, {  15,3022 },
+ {  16,3022 }, {  17,3022 }, {  18,3022 }, {  19,3022 }, {  20,3022 },
+ {  21,3022 }, {  22,3022 }, {  23,3022 }, {  24,3022 }, {  25,3022 },
+ {  26,3022 }, {  27,3022 }, {  28,3022 }, {  29,3022 }, {  30,3022 },
+ {  31,3022 }, {  32,3022 }, {  33,3022 }, {  34,3022 }, {  35,3022 },
+ {  36,3022 }, {  37,3022 }, {  38,3022 }, {  39,3022 }, {  40,3022 },
+
+ {  41,3022 }, {  42,3022 }, {  43,3022 }, {  44,3022 }, {  45,3022 },
+ {  46,3022 }, {  47,3022 }, {  48,3022 }, {  49,3022 }, {  50,3022 },
+ {  51,3022 }, {  52,3022 }, {  53,3022 }, {  54,3022 }, {  55,3022 },
+ {  56,3022 }, {  57,3022 }, {  58,3022 }, {  59,3022 }, {  60,3022 },
+ {  61,3022 }, {  62,3022 }, {  63,3022 }, {  64,3022 }, {  65,3022 },
+ {  66,3022 }, {  67,3022 }, {  68,3022 }, {  69,3022 }, {  70,3022 },
+ {  71,3022 }, {  72,3022 }, {  73,3022 }, {  74,3022 }, {  75,3022 },
+ {  76,3022 }, {  77,3022 }, {  78,3022 }, {  79,3022 }, {  80,3022 },
+ {  81,3022 }, {  82,3022 }, {  83,3022 }, {  84,3022 }, {  85,3022 },
+ {  86,3022 }, {  87,3022 }, {  88,3022 }, {  89,3022 }, {  90,3022 },
+
+ {  91,3022 }, {  92,3022 }, {  93,3022 }, {  94,3022 }, {  95,3022 },
+ {  96,3022 }, {  97,3022 }, {  98,3022 }, {  99,3022 }, { 100,3022 },
+ { 101,3022 }, { 102,3022 }, { 103,3022 }, { 104,3022 }, { 105,3022 },
+ { 106,3022 }, { 107,3022 }, { 108,3022 }, { 109,3022 }, { 110,3022 },
+ { 111,3022 }, { 112,3022 }, { 113,3022 }, { 114,3022 }, { 115,3022 },
+ { 116,3022 }, { 117,3022 }, { 118,3022 }, { 119,3022 }, { 120,3022 },
+ { 121,3022 }, { 122,3022 }, { 123,4853 }, { 124,3022 }, { 125,3022 },
+ { 126,3022 }, { 127,3022 }, { 128,3022 }, { 129,3022 }, { 130,3022 },
+ { 131,3022 }, { 132,3022 }, { 133,3022 }, { 134,3022 }, { 135,3022 },
+ { 136,3022 }, { 137,3022 }, { 138,3022 }, { 139,3022 }, { 140,3022 },
+
+ { 141,3022 }, { 142,3022 }, { 143,3022 }, { 144,3022 }, { 145,3022 },
+ { 146,3022 }, { 147,3022 }, { 148,3022 }, { 149,3022 }, { 150,3022 },
+ { 151,3022 }, { 152,3022 }, { 153,3022 }, { 154,3022 }, { 155,3022 },
+ { 156,3022 }, { 157,3022 }, { 158,3022 }, { 159,3022 }, { 160,3022 },
+ { 161,3022 }, { 162,3022 }, { 163,3022 }, { 164,3022 }, { 165,3022 },
+ { 166,3022 }, { 167,3022 }, { 168,3022 }, { 169,3022 }, { 170,3022 },
+ { 171,3022 }, { 172,3022 }, { 173,3022 }, { 174,3022 }, { 175,3022 },
+ { 176,3022 }, { 177,3022 }, { 178,3022 }, { 179,3022 }, { 180,3022 },
+ { 181,3022 }, { 182,3022 }, { 183,3022 }, { 184,3022 }, { 185,3022 },
+ { 186,3022 }, { 187,3022 }, { 188,3022 }, { 189,3022 }, { 190,3022 },
+
+ { 191,3022 }, { 192,3022 }, { 193,3022 }, { 194,3022 }, { 195,3022 },
+ { 196,3022 }, { 197,3022 }, { 198,3022 }, { 199,3022 }, { 200,3022 },
+ { 201,3022 }, { 202,3022 }, { 203,3022 }, { 204,3022 }, { 205,3022 },
+ { 206,3022 }, { 207,3022 }, { 208,3022 }, { 209,3022 }, { 210,3022 },
+ { 211,3022 }, { 212,3022 }, { 213,3022 }, { 214,3022 }, { 215,3022 },
+ { 216,3022 }, { 217,3022 }, { 218,3022 }, { 219,3022 }, { 220,3022 },
+ { 221,3022 }, { 222,3022 }, { 223,3022 }, { 224,3022 }, { 225,3022 },
+ { 226,3022 }, { 227,3022 }, { 228,3022 }, { 229,3022 }, { 230,3022 },
+ { 231,3022 }, { 232,3022 }, { 233,3022 }, { 234,3022 }, { 235,3022 },
+ { 236,3022 }, { 237,3022 }, { 238,3022 }, { 239,3022 }, { 240,3022 },
+
+ { 241,3022 }, { 242,3022 }, { 243,3022 }, { 244,3022 }, { 245,3022 },
+ { 246,3022 }, { 247,3022 }, { 248,3022 }, { 249,3022 }, { 250,3022 },
+ { 251,3022 }, { 252,3022 }, { 253,3022 }, { 254,3022 }, { 255,3022 },
+ { 256,3022 }, {   0,   0 }, {   0,19465 }, {   1,4720 }, {   2,4720 },
  {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
  {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
  {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
@@ -1340,12 +1340,12 @@ static const struct yy_trans_info yy_transition[21787] =
 
  { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
  {   0,   2 }, {   0,18176 }, {   0,   6 }, {   0,18174 }, {   0,   6 },
- {   0,18172 }, {   0,  52 }, {   0,18170 }, {   0,  36 }, {   0,18168 },
+ {   0,18172 }, {   0,   7 }, {   0,18170 }, {   0,  37 }, {   0,18168 },
  {   0,   0 }, {  10,4206 }, {   0,   0 }, {   0,   0 }, {  13,4206 },
- {   0,  36 }, {   0,18161 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
- {   0,  51 }, {   0,18156 }, {  13,4867 }, {   0,  15 }, {   0,18153 },
- {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,18149 }, {  13,4860 },
- {   0,  35 }, {   0,18146 }, {   0,  32 }, {   0,18144 }, {   0,  41 },
+ {   0,  37 }, {   0,18161 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
+ {   0,  52 }, {   0,18156 }, {  13,4867 }, {   0,  16 }, {   0,18153 },
+ {   9,4860 }, {  10,4860 }, {   0,  17 }, {   0,18149 }, {  13,4860 },
+ {   0,  36 }, {   0,18146 }, {   0,  33 }, {   0,18144 }, {   0,  42 },
  {   0,18142 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -1423,7 +1423,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
  { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
  { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
- { 255,4200 }, {   0,  51 }, {   0,17790 }, {   1,4231 }, {   2,4231 },
+ { 255,4200 }, {   0,  52 }, {   0,17790 }, {   1,4231 }, {   2,4231 },
  {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
 
  {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
@@ -1479,7 +1479,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
  { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
  { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
- { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
+ { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  52 },
 
  {   0,17532 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
  {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
@@ -1537,7 +1537,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
 
  { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
- { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,17274 }, {   1,4523 },
+ { 255,4265 }, { 256,4265 }, {   0,  52 }, {   0,17274 }, {   1,4523 },
  {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
  {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
  {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
@@ -1594,7 +1594,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
  { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
  { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
- {   0,  51 }, {   0,17016 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
+ {   0,  52 }, {   0,17016 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
  {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
  {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
  {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
@@ -1650,26 +1650,26 @@ static const struct yy_trans_info yy_transition[21787] =
  { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
  { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
  { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
- { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,16758 },
+ { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  36 }, {   0,16758 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
  {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  51 }, {   0,16740 }, {   0,  43 }, {   0,16738 },
+ {   0,   0 }, {   0,  52 }, {   0,16740 }, {   0,  44 }, {   0,16738 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,16709 }, {   0,  51 },
- {   0,16707 }, {   0,   7 }, {   0,16705 }, {   0,  14 }, {   0,16703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3465 }, {  47,3463 }, {   0,  52 }, {   0,16709 }, {   0,  52 },
+ {   0,16707 }, {   0,   8 }, {   0,16705 }, {   0,  53 }, {   0,16703 },
+ {   0,  15 }, {   0,16701 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  51 }, {   0,16676 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
+ {   0,  52 }, {   0,16676 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
  {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
  {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
  {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
@@ -1725,7 +1725,7 @@ static const struct yy_trans_info yy_transition[21787] =
 
  { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
  { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
- { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,16418 },
+ { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  52 }, {   0,16418 },
  {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
  {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
  {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
@@ -1782,7 +1782,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
  { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
  { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
- { 256,4500 }, {   0,  51 }, {   0,16160 }, {   1,2601 }, {   2,2601 },
+ { 256,4500 }, {   0,  52 }, {   0,16160 }, {   1,2601 }, {   2,2601 },
  {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
  {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
  {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
@@ -1838,7 +1838,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
  { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
  { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
- { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
+ { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  52 },
  {   0,15902 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
  {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
  {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
@@ -1895,7 +1895,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
  { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
  { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
- { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,15644 }, {   1,2085 },
+ { 255,2343 }, { 256,2343 }, {   0,  52 }, {   0,15644 }, {   1,2085 },
  {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
  {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
 
@@ -1952,7 +1952,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
  { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
  { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
- {   0,  51 }, {   0,15386 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
+ {   0,  52 }, {   0,15386 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
 
  {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
  {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
@@ -2009,7 +2009,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
  { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
 
- { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,15128 },
+ { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  52 }, {   0,15128 },
  {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
  {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
  {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
@@ -2066,7 +2066,7 @@ static const struct yy_trans_info yy_transition[21787] =
 
  { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
  { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
- { 256,1569 }, {   0,  14 }, {   0,14870 }, {   0,   0 }, {   0,   0 },
+ { 256,1569 }, {   0,  15 }, {   0,14870 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2093,7 +2093,7 @@ static const struct yy_trans_info yy_transition[21787] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,4766 }, {   0,  14 }, {   0,14745 }, {   1,4769 }, {   2,4769 },
+ { 123,4766 }, {   0,  15 }, {   0,14745 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
 
@@ -2149,7 +2149,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
+ { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  15 },
  {   0,14487 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
 
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
@@ -2207,7 +2207,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
 
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14229 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  11 }, {   0,14229 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2263,7 +2263,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
 
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
- { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
+ { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  12 },
  {   0,13972 }, {   0,   2 }, {   0,13970 }, {   0,   0 }, {   0,13968 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
@@ -2348,7 +2348,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
  { 255,   0 }, {   0,   0 }, {   0,13590 }, {   0,   0 }, {   0,13588 },
- {   0,   5 }, {   0,13586 }, {   0,  49 }, {   0,13584 }, {   0,   0 },
+ {   0,   5 }, {   0,13586 }, {   0,  50 }, {   0,13584 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2411,10 +2411,10 @@ static const struct yy_trans_info yy_transition[21787] =
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,13301 }, {   0,  39 }, {   0,13299 }, {   0,  40 },
- {   0,13297 }, {   0,  34 }, {   0,13295 }, {   0,  33 }, {   0,13293 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,13289 }, {  13,   0 },
- {   0,  50 }, {   0,13286 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  37 }, {   0,13301 }, {   0,  40 }, {   0,13299 }, {   0,  41 },
+ {   0,13297 }, {   0,  35 }, {   0,13295 }, {   0,  34 }, {   0,13293 },
+ {   9,   0 }, {  10,   0 }, {   0,  49 }, {   0,13289 }, {  13,   0 },
+ {   0,  51 }, {   0,13286 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2702,7 +2702,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
 
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  50 },
  {   0,11977 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3112,10 +3112,10 @@ static const struct yy_trans_info yy_transition[21787] =
  { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,10112 }, {   0,  38 }, {   0,10110 }, {   0,   0 }, {   0,10108 },
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  32 },
+ {   0,10112 }, {   0,  39 }, {   0,10110 }, {   0,   0 }, {   0,10108 },
  {   0,   0 }, {   0,10106 }, {   0,   0 }, {   0,10104 }, {   9,3289 },
- {  10,3289 }, {   0,  13 }, {   0,10100 }, {  13,3289 }, {   0,   0 },
+ {  10,3289 }, {   0,  14 }, {   0,10100 }, {  13,3289 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3256,7 +3256,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,9460 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  11 }, {   0,9460 }, {   1,   0 }, {   2,   0 },
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
@@ -3314,9 +3314,9 @@ static const struct yy_trans_info yy_transition[21787] =
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
  { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9203 },
  {   0,   0 }, {   0,9201 }, {   0,   0 }, {   0,9199 }, {   0,   5 },
- {   0,9197 }, {   0,  30 }, {   0,9195 }, {   0,  21 }, {   0,9193 },
- {   0,  28 }, {   0,9191 }, {   0,  31 }, {   0,9189 }, {   0,  22 },
- {   0,9187 }, {   0,  19 }, {   0,9185 }, {   0,   0 }, {   0,   0 },
+ {   0,9197 }, {   0,  31 }, {   0,9195 }, {   0,  22 }, {   0,9193 },
+ {   0,  29 }, {   0,9191 }, {   0,  32 }, {   0,9189 }, {   0,  23 },
+ {   0,9187 }, {   0,  20 }, {   0,9185 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3397,7 +3397,7 @@ static const struct yy_trans_info yy_transition[21787] =
 
  { 242,2401 }, { 243,2401 }, { 244,2401 }, { 245,2401 }, { 246,2401 },
  { 247,2401 }, { 248,2401 }, { 249,2401 }, { 250,2401 }, { 251,2401 },
- { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  39 },
+ { 252,2401 }, { 253,2401 }, { 254,2401 }, { 255,2401 }, {   0,  40 },
  {   0,8817 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3454,7 +3454,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,8559 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  41 }, {   0,8559 }, {   1,-4192 },
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
  {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
@@ -3539,7 +3539,7 @@ static const struct yy_trans_info yy_transition[21787] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  50 }, {   0,8173 },
+ {   0,   0 }, { 125,1523 }, { 126,1523 }, {   0,  51 }, {   0,8173 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3596,13 +3596,13 @@ static const struct yy_trans_info yy_transition[21787] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,  49 }, {   0,7915 }, {   0,   0 }, {   0,   0 },
+ { 256,-3745 }, {   0,  50 }, {   0,7915 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   9,1756 }, {  10,1756 }, {   0,   0 }, {   0,   0 },
  {  13,1756 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  27 },
- {   0,7887 }, {   0,   0 }, {   0,  37 }, {   0,7884 }, {  32,1756 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,  28 },
+ {   0,7887 }, {   0,   0 }, {   0,  38 }, {   0,7884 }, {  32,1756 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3617,7 +3617,7 @@ static const struct yy_trans_info yy_transition[21787] =
 
  {  23,-5704 }, {  24,-5704 }, {  25,-5704 }, {  26,-5704 }, {  27,-5704 },
  {  28,-5704 }, {  29,-5704 }, {  30,-5704 }, {  31,-5704 }, {  32,-5729 },
- {   0,  38 }, {   0,7821 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
+ {   0,  39 }, {   0,7821 }, {   0,   0 }, {  36,-5704 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5729 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5704 }, {  46,-5729 }, {  47,-5729 },
  {  48,-5704 }, {  49,-5704 }, {  50,-5704 }, {  51,-5704 }, {  52,-5704 },
@@ -3837,8 +3837,8 @@ static const struct yy_trans_info yy_transition[21787] =
 
  { 249,-6478 }, { 250,-6478 }, { 251,-6478 }, { 252,-6478 }, { 253,-6478 },
  { 254,-6478 }, { 255,-6478 }, { 256,-6478 }, {   0,   0 }, {   0,6823 },
- {   0,  25 }, {   0,6821 }, {   0,   0 }, {   0,6819 }, {   0,   0 },
- {   0,6817 }, {   0,  31 }, {   0,6815 }, {   9,   0 }, {  10,   0 },
+ {   0,  26 }, {   0,6821 }, {   0,   0 }, {   0,6819 }, {   0,   0 },
+ {   0,6817 }, {   0,  32 }, {   0,6815 }, {   9,   0 }, {  10,   0 },
  {   9,1754 }, {  10,1754 }, {  13,   0 }, {   0,   0 }, {  13,1754 },
  {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,   0 }, {   0,6803 },
  {  13,  -8 }, {   0,   0 }, {   0,6800 }, {   0,   1 }, {   0,6798 },
@@ -3846,11 +3846,11 @@ static const struct yy_trans_info yy_transition[21787] =
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,1754 }, {   0,   0 },
  {   0,   0 }, {   0,   4 }, {   0,6785 }, {  33,  -2 }, {  32,  -8 },
 
- {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  48 }, {   0,6778 },
+ {  33,-2380 }, {   0,   0 }, {  35,-2378 }, {   0,  49 }, {   0,6778 },
  {  38,-2376 }, {   0,   0 }, {  10,   0 }, {  45,1880 }, {  42,-2374 },
- {  13,   0 }, {   0,  42 }, {   0,6770 }, {   0,   0 }, {  47,-2372 },
- {   0,   0 }, {   0,   0 }, {   0,6765 }, {   0,  21 }, {   0,6763 },
- {   0,  20 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  13,   0 }, {   0,  43 }, {   0,6770 }, {   0,   0 }, {  47,-2372 },
+ {   0,   0 }, {   0,   0 }, {   0,6765 }, {   0,  22 }, {   0,6763 },
+ {   0,  21 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-2370 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3991,8 +3991,8 @@ static const struct yy_trans_info yy_transition[21787] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,6122 }, {   0,  17 }, {   0,6120 }, {   0,  27 }, {   0,6118 },
- {   0,  18 }, {   0,6116 }, {   0,  37 }, {   0,6114 }, {   0,   0 },
+ {   0,6122 }, {   0,  18 }, {   0,6120 }, {   0,  28 }, {   0,6118 },
+ {   0,  19 }, {   0,6116 }, {   0,  38 }, {   0,6114 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6099 }, {   1,-7460 },
@@ -4365,11 +4365,11 @@ static const struct yy_trans_info yy_transition[21787] =
 
  { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 }, { 253, 277 },
  { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 }, {   0,4423 },
- {   0,   1 }, {   0,4421 }, {   0,  47 }, {   0,4419 }, {   0,  44 },
- {   0,4417 }, {   0,  29 }, {   0,4415 }, {   0,  23 }, {   0,4413 },
+ {   0,   1 }, {   0,4421 }, {   0,  48 }, {   0,4419 }, {   0,  45 },
+ {   0,4417 }, {   0,  30 }, {   0,4415 }, {   0,  24 }, {   0,4413 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,4406 }, {   0,   8 }, {   0,4404 }, {   0,   1 },
- {   0,4402 }, {   0,  45 }, {   0,4400 }, {   0,  26 }, {   0,4398 },
+ {   0,   0 }, {   0,4406 }, {   0,   9 }, {   0,4404 }, {   0,   1 },
+ {   0,4402 }, {   0,  46 }, {   0,4400 }, {   0,  27 }, {   0,4398 },
  {   0,   0 }, {   0,4396 }, {   1,-9163 }, {   2,-9163 }, {   3,-9163 },
  {   4,-9163 }, {   5,-9163 }, {   6,-9163 }, {   7,-9163 }, {   8,-9163 },
  {   9,  -4 }, {  10,  -4 }, {  11,-9163 }, {  12,-9163 }, {  13,  -4 },
@@ -5107,9 +5107,9 @@ static const struct yy_trans_info yy_transition[21787] =
  { 238,-12259 }, { 239,-12259 }, { 240,-12259 }, { 241,-12259 }, { 242,-12259 },
  { 243,-12259 }, { 244,-12259 }, { 245,-12259 }, { 246,-12259 }, { 247,-12259 },
  { 248,-12259 }, { 249,-12259 }, { 250,-12259 }, { 251,-12259 }, { 252,-12259 },
- { 253,-12259 }, { 254,-12259 }, { 255,-12259 }, { 256,-12259 }, {   0,  26 },
- {   0,1042 }, {   0,  26 }, {   0,1040 }, {   0,  26 }, {   0,1038 },
- {   0,  12 }, {   0,1036 }, {   0,   0 }, {   0,   0 }, {   9, 649 },
+ { 253,-12259 }, { 254,-12259 }, { 255,-12259 }, { 256,-12259 }, {   0,  27 },
+ {   0,1042 }, {   0,  27 }, {   0,1040 }, {   0,  27 }, {   0,1038 },
+ {   0,  13 }, {   0,1036 }, {   0,   0 }, {   0,   0 }, {   9, 649 },
 
  {  10, 649 }, {   0,   0 }, {   0,   0 }, {  13, 649 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5251,7 +5251,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 244,-12908 }, { 245,-12908 }, { 246,-12908 }, { 247,-12908 }, { 248,-12908 },
  { 249,-12908 }, { 250,-12908 }, { 251,-12908 }, { 252,-12908 }, { 253,-12908 },
  { 254,-12908 }, { 255,-12908 }, { 256,-12908 }, {   0,   0 }, {   0, 393 },
- {   0,   0 }, {   0, 391 }, {   0,   0 }, {   0, 389 }, {   0,  24 },
+ {   0,   0 }, {   0, 391 }, {   0,   0 }, {   0, 389 }, {   0,  25 },
  {   0, 387 }, {   0,   0 }, {   0, 385 }, {   9,   0 }, {  10,   0 },
 
  {   0,   0 }, {   0,   0 }, {  13,   0 }, {   0,   0 }, {   0,   0 },
@@ -5260,8 +5260,8 @@ static const struct yy_trans_info yy_transition[21787] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0, 350 }, {   0,  46 }, {   0, 348 },
- {   0,   9 }, {   0, 346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0, 350 }, {   0,  47 }, {   0, 348 },
+ {   0,  10 }, {   0, 346 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -5337,7 +5337,7 @@ static const struct yy_trans_info yy_transition[21787] =
  { 241,-13301 }, { 242,-13301 }, { 243,-13301 }, { 244,-13301 }, { 245,-13301 },
  { 246,-13301 }, { 247,-13301 }, { 248,-13301 }, { 249,-13301 }, { 250,-13301 },
  { 251,-13301 }, { 252,-13301 }, { 253,-13301 }, { 254,-13301 }, { 255,-13301 },
- { 256,-13301 }, { 257,  53 }, {   1,   0 },    };
+ { 256,-13301 }, { 257,  54 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5358,11 +5358,11 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[53] =
+static const flex_int32_t yy_rule_can_match_eol[54] =
     {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 
-    1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
+1, 1, 0, 1, 0, 0, 0, 0, 1, 0, 1, 0, 1, 1, 1, 0, 0, 0, 0, 
+    0, 0, 0, 0, 1, 1, 0, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 
+    1, 1, 0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -5883,29 +5883,37 @@ YY_RULE_SETUP
 case 7:
 YY_RULE_SETUP
 #line 189 "handlebars.l"
+{
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+	YY_BREAK
+case 8:
+YY_RULE_SETUP
+#line 194 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
                                    		yy_pop_state(yyg);
                                  	}
 	YY_BREAK
-case 8:
-/* rule 8 can match eol */
+case 9:
+/* rule 9 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 195 "handlebars.l"
+#line 200 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
                                   		return CONTENT;
                                  	}
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
-#line 201 "handlebars.l"
+#line 206 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5920,28 +5928,28 @@ YY_RULE_SETUP
 										}
                                  	}
 	YY_BREAK
-case 10:
-/* rule 10 can match eol */
+case 11:
+/* rule 11 can match eol */
 YY_RULE_SETUP
-#line 215 "handlebars.l"
+#line 220 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
 										return CONTENT;
 									}
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
-#line 221 "handlebars.l"
+#line 226 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
 									}
 	YY_BREAK
-case 12:
-/* rule 12 can match eol */
+case 13:
+/* rule 13 can match eol */
 YY_RULE_SETUP
-#line 226 "handlebars.l"
+#line 231 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5951,10 +5959,10 @@ YY_RULE_SETUP
   										return LONG_COMMENT;
 									}
 	YY_BREAK
-case 13:
-/* rule 13 can match eol */
+case 14:
+/* rule 14 can match eol */
 YY_RULE_SETUP
-#line 235 "handlebars.l"
+#line 240 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5962,46 +5970,46 @@ YY_RULE_SETUP
   										return COMMENT;
 									}
 	YY_BREAK
-case 14:
-/* rule 14 can match eol */
+case 15:
+/* rule 15 can match eol */
 YY_RULE_SETUP
-#line 242 "handlebars.l"
+#line 247 "handlebars.l"
 {
 										// not terminated
 										handlebars_yy_copy_lval();
 										return INVALID;
 									}
 	YY_BREAK
-case 15:
+case 16:
 YY_RULE_SETUP
-#line 248 "handlebars.l"
+#line 253 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
 										return OPEN_SEXPR;
 									}
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 254 "handlebars.l"
+#line 259 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
 										return CLOSE_SEXPR;
 									}
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 260 "handlebars.l"
+#line 265 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
 										return OPEN_RAW_BLOCK;
 									}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 266 "handlebars.l"
+#line 271 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -6010,46 +6018,46 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 274 "handlebars.l"
+#line 279 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 280 "handlebars.l"
+#line 285 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 286 "handlebars.l"
+#line 291 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
-#line 292 "handlebars.l"
+#line 297 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 298 "handlebars.l"
+#line 303 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -6057,10 +6065,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
-/* rule 24 can match eol */
+case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-#line 305 "handlebars.l"
+#line 310 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6068,50 +6076,50 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
-#line 312 "handlebars.l"
+#line 317 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 26:
-/* rule 26 can match eol */
+case 27:
+/* rule 27 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 318 "handlebars.l"
+#line 323 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 324 "handlebars.l"
+#line 329 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 330 "handlebars.l"
+#line 335 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 336 "handlebars.l"
+#line 341 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6119,9 +6127,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 343 "handlebars.l"
+#line 348 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6129,68 +6137,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 350 "handlebars.l"
+#line 355 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 356 "handlebars.l"
+#line 361 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
-#line 362 "handlebars.l"
+#line 367 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
-/* rule 34 can match eol */
+case 35:
+/* rule 35 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 368 "handlebars.l"
+#line 373 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
-#line 374 "handlebars.l"
+#line 379 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 36:
-/* rule 36 can match eol */
+case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-#line 380 "handlebars.l"
+#line 385 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 385 "handlebars.l"
+#line 390 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6198,9 +6206,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
-#line 392 "handlebars.l"
+#line 397 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6208,10 +6216,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 399 "handlebars.l"
+#line 404 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6221,10 +6229,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 40:
-/* rule 40 can match eol */
+case 41:
+/* rule 41 can match eol */
 YY_RULE_SETUP
-#line 408 "handlebars.l"
+#line 413 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6234,122 +6242,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 41:
+case 42:
 YY_RULE_SETUP
-#line 417 "handlebars.l"
+#line 422 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 42:
-/* rule 42 can match eol */
+case 43:
+/* rule 43 can match eol */
 YY_RULE_SETUP
-#line 423 "handlebars.l"
+#line 428 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
-#line 429 "handlebars.l"
+#line 434 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 435 "handlebars.l"
+#line 440 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 441 "handlebars.l"
+#line 446 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 447 "handlebars.l"
+#line 452 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 453 "handlebars.l"
+#line 458 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 459 "handlebars.l"
+#line 464 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 466 "handlebars.l"
+#line 471 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 50:
-/* rule 50 can match eol */
+case 51:
+/* rule 51 can match eol */
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 477 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6360,9 +6368,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 482 "handlebars.l"
+#line 487 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6375,18 +6383,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 488 "handlebars.l"
+#line 493 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 52:
+case 53:
 YY_RULE_SETUP
-#line 493 "handlebars.l"
+#line 498 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6390 "handlebars.lex.c"
+#line 6398 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7594,6 +7602,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 493 "handlebars.l"
+#line 498 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 83754e4..b81ed15 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 493 "handlebars.l"
+#line 498 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From cd9eb812bd7ce32e57ebb4a36668e9a6bad9f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:53 +0000
Subject: [PATCH 07/98] fix: whitespace control next to an empty program
 dereferenced NULL

---
 src/handlebars_whitespace.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e423a79..01ca646 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -113,6 +113,10 @@ bool handlebars_whitespace_omit_left(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->last ? statements->last->data : NULL;
     } else {
@@ -150,6 +154,10 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->first ? statements->first->data : NULL;
     } else {
-- 
2.43.0


From 6bda32bb6c3ab09fba3db5a55ab4daa7f562aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:16 +0000
Subject: [PATCH 08/98] fix: honour ignore_standalone in whitespace control

---
 src/handlebars_whitespace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 01ca646..35e272b 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -31,6 +31,7 @@
 
 #include "handlebars_ast.h"
 #include "handlebars_ast_list.h"
+#include "handlebars_compiler.h"
 #include "handlebars_memory.h"
 #include "handlebars_parser.h"
 #include "handlebars_parser_private.h"
@@ -203,7 +204,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
     struct handlebars_ast_list * statements = program->node.program.statements;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     parser->whitespace_root_seen = 1;
 
@@ -319,7 +320,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * firstInverse;
     struct handlebars_ast_node * lastInverse;
     unsigned strip = 0;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     if( block->node.block.program ) {
         handlebars_whitespace_accept(parser, block->node.block.program);
-- 
2.43.0


From 7714041edfc258dd5635a4bad8c17d6187788a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:44 +0000
Subject: [PATCH 09/98] fix: whitespace control for partial blocks

---
 src/handlebars_whitespace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 35e272b..07d999f 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -261,7 +261,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -274,7 +274,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
@@ -496,6 +496,7 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
 
     switch( node->type ) {
         case HANDLEBARS_AST_NODE_BLOCK:
+        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK: // shares its layout with block
             return handlebars_whitespace_accept_block(parser, node);
         case HANDLEBARS_AST_NODE_MUSTACHE:
             return handlebars_whitespace_accept_mustache(parser, node);
@@ -514,7 +515,6 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
         case HANDLEBARS_AST_NODE_CONTENT:
         case HANDLEBARS_AST_NODE_HASH:
         case HANDLEBARS_AST_NODE_HASH_PAIR:
-        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
         case HANDLEBARS_AST_NODE_NUL:
         case HANDLEBARS_AST_NODE_NUMBER:
         case HANDLEBARS_AST_NODE_PATH:
-- 
2.43.0


From 1c549a1f7ea2fde8dae5324606da61c0b8a9a8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 10/98] fix: ~ on the close tag of an else-if chain applies to
 its last branch

---
 src/handlebars_ast_helpers.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index b9c6115..b28ce55 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -96,12 +96,14 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_block(
 
         if( inverse_and_program->node.inverse.chained ) {
             struct handlebars_ast_list * statements;
-            struct handlebars_ast_node * tmp;
-            if( (tmp = inverse_and_program->node.inverse.program) &&
-                (statements = tmp->node.program.statements) &&
+            struct handlebars_ast_node * tmp = inverse_and_program->node.inverse.program;
+            // Every block of the chain is closed by the close tag of the outermost one
+            while( tmp && tmp->type == HANDLEBARS_AST_NODE_PROGRAM && tmp->node.program.chained &&
+                    (statements = tmp->node.program.statements) &&
                     statements->first && (tmp = statements->first->data) &&
                     tmp->type == HANDLEBARS_AST_NODE_BLOCK ) {
                 tmp->node.block.close_strip = close->strip;
+                tmp = tmp->node.block.inverse;
             }
         }
 
-- 
2.43.0


From 1755e065f8745e5a46a6d5e5ae2bd7fc521cd6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:07 +0000
Subject: [PATCH 11/98] fix: compare the whole name of a raw block with a
 literal name

---
 src/handlebars_ast_helpers.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index b28ce55..943b938 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -296,15 +296,14 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_raw_block(
         struct handlebars_locinfo * locinfo
 ) {
     struct handlebars_ast_node * content_node;
-    struct handlebars_ast_node * open_block_path;
+    struct handlebars_string * open;
 
     assert(open_raw_block != NULL);
     assert(open_raw_block->type == HANDLEBARS_AST_NODE_INTERMEDIATE);
     assert(close != NULL);
 
-    open_block_path = open_raw_block->node.intermediate.path;
-    if( !handlebars_string_eq(open_block_path->node.path.original, close) ) {
-        struct handlebars_string * open = open_block_path->node.path.original;
+    open = handlebars_ast_node_get_string_mode_value(CONTEXT, open_raw_block->node.intermediate.path);
+    if( !handlebars_string_eq(open, close) ) {
         handlebars_throw_ex(
             CONTEXT,
             HANDLEBARS_ERROR,
-- 
2.43.0


From ddc6b94d1bffd56d24aa3959cf2327e59e9fe6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:44 +0000
Subject: [PATCH 12/98] fix: the empty template is a template

---
 src/handlebars.tab.c | 760 ++++++++++++++++++++++---------------------
 src/handlebars.y     |   5 +
 2 files changed, 395 insertions(+), 370 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index af1591c..24ce550 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -542,18 +542,18 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  50
+#define YYFINAL  51
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   283
+#define YYLAST   330
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  36
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  34
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  80
+#define YYNRULES  81
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  125
+#define YYNSTATES  126
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   290
@@ -606,15 +606,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   196,   199,   206,   210,   217,   220,   223,
-     226,   229,   232,   235,   242,   252,   256,   262,   265,   271,
-     277,   280,   283,   286,   292,   296,   300,   307,   315,   322,
-     329,   332,   335,   338,   341,   347,   351,   360,   367,   371,
-     378,   382,   386,   390,   397,   400,   406,   410,   414,   418,
-     425,   429,   436,   439,   445,   451,   456,   460,   463,   466,
-     469,   475,   483,   487,   494,   500,   504,   511,   514,   517,
-     520,   523,   526,   529,   532,   538,   541,   547,   553,   559,
-     565
+       0,   188,   188,   193,   201,   204,   211,   215,   222,   225,
+     228,   231,   234,   237,   240,   247,   257,   261,   267,   270,
+     276,   282,   285,   288,   291,   297,   301,   305,   312,   320,
+     327,   334,   337,   340,   343,   346,   352,   356,   365,   372,
+     376,   383,   387,   391,   395,   402,   405,   411,   415,   419,
+     423,   430,   434,   441,   444,   450,   456,   461,   465,   468,
+     471,   474,   480,   488,   492,   499,   505,   509,   516,   519,
+     522,   525,   528,   531,   534,   537,   543,   546,   552,   558,
+     564,   570
 };
 #endif
 
@@ -653,7 +653,7 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-57)
+#define YYPACT_NINF (-58)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
@@ -667,19 +667,19 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     231,   -57,    13,   150,   150,   150,   124,   150,   150,   124,
-     -57,   -57,    24,    27,   250,   -57,   -57,   -57,     3,   -57,
-     174,   174,   -57,   -57,   -57,   212,   -57,   -57,    15,   -57,
-     -57,   -57,   -57,   -57,   -57,    32,   146,   -57,   -57,     6,
-      33,     9,    35,   150,   -57,   -57,    54,    36,    41,    87,
-     -57,   -57,   -57,   -57,    31,   231,   150,   150,     2,    40,
-     193,   -57,   -57,   -57,    40,   -57,    40,   -57,     6,   -57,
-      43,   146,   -57,   -57,   -57,    47,   -57,   -57,    49,   -57,
-      50,   -57,   -57,    60,   -57,    91,    64,   -57,   -57,   -57,
-     120,    65,   -57,   -57,    67,    68,   -57,   -57,     2,   -57,
-     -57,   -57,   124,   -57,   -57,    43,   -57,   -57,     8,   -57,
-     -57,    69,   -57,   -57,    70,   -57,   -57,   -57,   -57,   -57,
-      48,   -57,   -57,   -57,   -57
+      68,   -58,   -58,     5,   200,   200,   200,   167,   200,   200,
+     167,   -58,   -58,    21,    22,   297,   -58,   -58,   -58,    26,
+     -58,   221,   221,   -58,   -58,   -58,   259,   -58,   -58,    11,
+     -58,   -58,   -58,   -58,   -58,   -58,    24,   181,   -58,   -58,
+      14,    27,     7,    34,   200,   -58,   -58,    94,    36,    35,
+     108,   -58,   -58,   -58,   -58,    37,   278,   200,   200,     2,
+      39,   240,   -58,   -58,   -58,    39,   -58,    39,   -58,    14,
+     -58,    43,   181,   -58,   -58,   -58,    46,   -58,   -58,    47,
+     -58,    48,   -58,   -58,    50,   -58,   134,    59,   -58,   -58,
+     -58,   148,    60,   -58,   -58,    62,    63,   -58,   -58,     2,
+     -58,   -58,   -58,   167,   -58,   -58,    43,   -58,   -58,    -1,
+     -58,   -58,    65,   -58,   -58,    66,   -58,   -58,   -58,   -58,
+     -58,    44,   -58,   -58,   -58,   -58
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -687,37 +687,37 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-       0,    13,    16,     0,     0,     0,     0,     0,     0,     0,
-      14,     4,     0,     0,     3,     5,    12,     9,     0,     8,
-       0,     0,     7,    10,    11,     0,    15,    72,     0,    80,
-      71,    69,    74,    73,    70,     0,    60,    68,    67,    78,
-       0,    56,     0,     0,    76,    75,     0,     0,     0,     0,
-       1,     2,     6,    18,     0,    36,     0,     0,    26,     0,
-      33,    24,    34,    21,     0,    23,     0,    45,    77,    38,
-      80,    59,    50,    53,    58,    61,    63,    52,     0,    27,
-       0,    55,    28,     0,    43,     0,     0,    19,    39,    49,
-       0,     0,    17,    35,     0,     0,    25,    20,    32,    31,
-      22,    44,     0,    51,    57,     0,    62,    79,     0,    54,
-      41,     0,    42,    47,     0,    48,    37,    29,    30,    64,
-       0,    66,    40,    46,    65
+       0,     3,    14,    17,     0,     0,     0,     0,     0,     0,
+       0,    15,     5,     0,     0,     4,     6,    13,    10,     0,
+       9,     0,     0,     8,    11,    12,     0,    16,    73,     0,
+      81,    72,    70,    75,    74,    71,     0,    61,    69,    68,
+      79,     0,    57,     0,     0,    77,    76,     0,     0,     0,
+       0,     1,     2,     7,    19,     0,    37,     0,     0,    27,
+       0,    34,    25,    35,    22,     0,    24,     0,    46,    78,
+      39,    81,    60,    51,    54,    59,    62,    64,    53,     0,
+      28,     0,    56,    29,     0,    44,     0,     0,    20,    40,
+      50,     0,     0,    18,    36,     0,     0,    26,    21,    33,
+      32,    23,    45,     0,    52,    58,     0,    63,    80,     0,
+      55,    42,     0,    43,    48,     0,    49,    38,    30,    31,
+      65,     0,    67,    41,    47,    66
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -57,   -57,     1,   -57,    62,     7,   -57,   -57,   -57,    57,
-     -57,   -57,   -57,   -53,   -57,   -15,   -57,   -57,   -57,   -57,
-     -30,   -56,    14,    -3,    10,   -38,   -57,    11,   -57,    -6,
-      72,   -57,   -57,    55
+     -58,   -58,     1,   -58,    57,     6,   -58,   -58,   -58,    51,
+     -58,   -58,   -58,   -54,   -58,   -16,   -58,   -58,   -58,   -58,
+     -31,   -57,    13,    -4,     9,   -39,   -58,    -2,   -58,    -7,
+      70,   -58,   -58,    49
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-       0,    12,    58,    14,    15,    16,    17,    18,    19,    59,
-      20,    21,    60,    61,    62,    63,    22,    23,    24,    25,
-      71,    72,    73,    40,    41,    74,    75,    76,    81,    36,
-      46,    37,    38,    39
+       0,    13,    59,    15,    16,    17,    18,    19,    20,    60,
+      21,    22,    61,    62,    63,    64,    23,    24,    25,    26,
+      72,    73,    74,    41,    42,    75,    76,    77,    82,    37,
+      47,    38,    39,    40
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -725,115 +725,125 @@ static const yytype_int8 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      45,    13,    42,    45,    47,    96,    65,    99,    86,    26,
-      67,    91,     2,    35,    53,   103,    85,    55,    48,    90,
-      44,   120,     2,    44,    50,    54,    66,    51,    29,   103,
-      77,    78,    57,   104,   103,   121,    69,    79,    80,    82,
-      77,    87,    92,    77,    97,   118,   119,   111,    88,   100,
-      94,   101,   114,    83,    95,   102,    93,    27,    84,    56,
-     105,    98,   107,   108,    28,    77,   109,    70,   112,   115,
-      30,   116,   117,   122,   123,   124,    52,    43,    64,    77,
-      31,    49,    32,    68,    77,    33,   106,     0,    34,     0,
-      27,    89,     0,     0,    27,   110,    77,    28,     0,     0,
-      70,    28,     0,    30,    70,     0,     0,    30,     0,     0,
-      43,     0,     0,    31,    43,    32,     0,    31,    33,    32,
-       0,    34,    33,    27,   113,    34,     0,    27,     0,     0,
-      28,     0,     0,    70,    28,     0,    30,    29,     0,     0,
-      30,     0,     0,    43,     0,     0,    31,    43,    32,    27,
-      31,    33,    32,    27,    34,    33,    28,     0,    34,    70,
-      28,     0,    30,    29,     0,     0,    30,     0,     0,    43,
-       0,     0,    31,     0,    32,     0,    31,    33,    32,     0,
-      34,    33,     1,     2,    34,     0,     0,     0,     0,    55,
-       0,     3,     4,    56,     5,     6,     7,     0,     8,     0,
-       0,     1,     2,     0,    57,     0,     9,    10,    55,    11,
-       3,     4,     0,     5,     6,     7,     0,     8,     0,     0,
-       1,     2,     0,    57,     0,     9,    10,     0,    11,     3,
-       4,    56,     5,     6,     7,     0,     8,     0,     0,     1,
-       2,     0,     0,     0,     9,    10,     0,    11,     3,     4,
-       0,     5,     6,     7,     0,     8,     0,     0,     1,     2,
-       0,     0,     0,     9,    10,     0,    11,     3,     4,     0,
-       5,     6,     7,     0,     8,     0,     0,     0,     0,     0,
-       0,     0,     9,    10
+      46,    14,    43,    46,    48,    97,    66,   100,    87,    27,
+      68,    92,   121,    36,     3,   104,    86,    56,    49,    91,
+      45,    51,    52,    45,    30,    55,   122,    67,    70,   104,
+      78,    80,    58,   105,   104,     3,    81,    54,    83,    79,
+      78,    88,    89,    78,    98,   119,   120,   112,    93,   101,
+      95,   102,   115,    84,    96,   103,   110,    94,    57,   106,
+     108,   109,    99,   113,   116,    78,   117,   118,     1,   123,
+     124,   125,    53,    65,   107,     0,     2,     3,    69,    78,
+      50,     0,     0,     0,    78,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     0,    78,    28,    85,     0,
+      10,    11,     0,    12,    29,     0,     0,    71,     0,     0,
+      31,    28,    90,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+       0,    44,     0,     0,    32,     0,    33,    28,   111,    34,
+       0,     0,    35,     0,    29,     0,     0,    71,     0,     0,
+      31,    28,   114,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+      28,    44,     0,     0,    32,     0,    33,    29,     0,    34,
+      30,     0,    35,    31,    28,     0,     0,     0,     0,     0,
+      44,    29,     0,    32,    71,    33,     0,    31,    34,     0,
+       0,    35,     0,    28,    44,     0,     0,    32,     0,    33,
+      29,     0,    34,    30,     0,    35,    31,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,    32,     0,    33,     2,
+       3,    34,     0,     0,    35,     0,    56,     0,     4,     5,
+      57,     6,     7,     8,     0,     9,     0,     0,     2,     3,
+       0,    58,     0,    10,    11,    56,    12,     4,     5,     0,
+       6,     7,     8,     0,     9,     0,     0,     2,     3,     0,
+      58,     0,    10,    11,     0,    12,     4,     5,    57,     6,
+       7,     8,     0,     9,     0,     0,     2,     3,     0,     0,
+       0,    10,    11,     0,    12,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     2,     3,     0,     0,     0,
+      10,    11,     0,    12,     4,     5,     0,     6,     7,     8,
+       0,     9,     0,     0,     0,     0,     0,     0,     0,    10,
+      11
 };
 
 static const yytype_int8 yycheck[] =
 {
-       6,     0,     5,     9,     7,    58,    21,    60,    46,     2,
-      25,    49,     9,     3,    11,    71,    46,    15,     8,    49,
-       6,    13,     9,     9,     0,    18,    25,     0,    13,    85,
-      36,    25,    30,    71,    90,    27,     4,     4,    29,     4,
-      46,     5,    11,    49,    59,    98,   102,    85,     7,    64,
-      56,    66,    90,    43,    57,    12,    55,     3,     4,    19,
-      13,    60,    13,    13,    10,    71,     6,    13,     4,     4,
-      16,     4,     4,     4,     4,    27,    14,    23,    21,    85,
-      26,     9,    28,    28,    90,    31,    75,    -1,    34,    -1,
-       3,     4,    -1,    -1,     3,     4,   102,    10,    -1,    -1,
-      13,    10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,
-      23,    -1,    -1,    26,    23,    28,    -1,    26,    31,    28,
-      -1,    34,    31,     3,     4,    34,    -1,     3,    -1,    -1,
-      10,    -1,    -1,    13,    10,    -1,    16,    13,    -1,    -1,
-      16,    -1,    -1,    23,    -1,    -1,    26,    23,    28,     3,
-      26,    31,    28,     3,    34,    31,    10,    -1,    34,    13,
-      10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,    23,
-      -1,    -1,    26,    -1,    28,    -1,    26,    31,    28,    -1,
-      34,    31,     8,     9,    34,    -1,    -1,    -1,    -1,    15,
-      -1,    17,    18,    19,    20,    21,    22,    -1,    24,    -1,
-      -1,     8,     9,    -1,    30,    -1,    32,    33,    15,    35,
-      17,    18,    -1,    20,    21,    22,    -1,    24,    -1,    -1,
-       8,     9,    -1,    30,    -1,    32,    33,    -1,    35,    17,
-      18,    19,    20,    21,    22,    -1,    24,    -1,    -1,     8,
-       9,    -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,
-      -1,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
-      -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,    -1,
-      20,    21,    22,    -1,    24,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    32,    33
+       7,     0,     6,    10,     8,    59,    22,    61,    47,     3,
+      26,    50,    13,     4,     9,    72,    47,    15,     9,    50,
+       7,     0,     0,    10,    13,    19,    27,    26,     4,    86,
+      37,     4,    30,    72,    91,     9,    29,    11,     4,    25,
+      47,     5,     7,    50,    60,    99,   103,    86,    11,    65,
+      57,    67,    91,    44,    58,    12,     6,    56,    19,    13,
+      13,    13,    61,     4,     4,    72,     4,     4,     0,     4,
+       4,    27,    15,    22,    76,    -1,     8,     9,    29,    86,
+      10,    -1,    -1,    -1,    91,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,    -1,   103,     3,     4,    -1,
+      32,    33,    -1,    35,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+      -1,    23,    -1,    -1,    26,    -1,    28,     3,     4,    31,
+      -1,    -1,    34,    -1,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+       3,    23,    -1,    -1,    26,    -1,    28,    10,    -1,    31,
+      13,    -1,    34,    16,     3,    -1,    -1,    -1,    -1,    -1,
+      23,    10,    -1,    26,    13,    28,    -1,    16,    31,    -1,
+      -1,    34,    -1,     3,    23,    -1,    -1,    26,    -1,    28,
+      10,    -1,    31,    13,    -1,    34,    16,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    28,     8,
+       9,    31,    -1,    -1,    34,    -1,    15,    -1,    17,    18,
+      19,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
+      -1,    30,    -1,    32,    33,    15,    35,    17,    18,    -1,
+      20,    21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,
+      30,    -1,    32,    33,    -1,    35,    17,    18,    19,    20,
+      21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,
+      -1,    32,    33,    -1,    35,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,    -1,
+      32,    33,    -1,    35,    17,    18,    -1,    20,    21,    22,
+      -1,    24,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    32,
+      33
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
    state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
-       0,     8,     9,    17,    18,    20,    21,    22,    24,    32,
-      33,    35,    37,    38,    39,    40,    41,    42,    43,    44,
-      46,    47,    52,    53,    54,    55,    41,     3,    10,    13,
-      16,    26,    28,    31,    34,    60,    65,    67,    68,    69,
-      59,    60,    59,    23,    58,    65,    66,    59,    60,    66,
-       0,     0,    40,    11,    41,    15,    19,    30,    38,    45,
-      48,    49,    50,    51,    45,    51,    38,    51,    69,     4,
-      13,    56,    57,    58,    61,    62,    63,    65,    25,     4,
-      29,    64,     4,    60,     4,    56,    61,     5,     7,     4,
-      56,    61,    11,    38,    65,    59,    49,    51,    38,    49,
-      51,    51,    12,    57,    61,    13,    63,    13,    13,     6,
-       4,    61,     4,     4,    61,     4,     4,     4,    49,    57,
-      13,    27,     4,     4,    27
+       0,     0,     8,     9,    17,    18,    20,    21,    22,    24,
+      32,    33,    35,    37,    38,    39,    40,    41,    42,    43,
+      44,    46,    47,    52,    53,    54,    55,    41,     3,    10,
+      13,    16,    26,    28,    31,    34,    60,    65,    67,    68,
+      69,    59,    60,    59,    23,    58,    65,    66,    59,    60,
+      66,     0,     0,    40,    11,    41,    15,    19,    30,    38,
+      45,    48,    49,    50,    51,    45,    51,    38,    51,    69,
+       4,    13,    56,    57,    58,    61,    62,    63,    65,    25,
+       4,    29,    64,     4,    60,     4,    56,    61,     5,     7,
+       4,    56,    61,    11,    38,    65,    59,    49,    51,    38,
+      49,    51,    51,    12,    57,    61,    13,    63,    13,    13,
+       6,     4,    61,     4,     4,    61,     4,     4,     4,    49,
+      57,    13,    27,     4,     4,    27
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
-       0,    36,    37,    38,    38,    39,    39,    40,    40,    40,
-      40,    40,    40,    40,    40,    41,    41,    42,    42,    43,
-      44,    44,    44,    44,    45,    45,    45,    46,    47,    48,
-      49,    49,    49,    49,    49,    50,    50,    51,    52,    52,
-      53,    53,    53,    53,    54,    54,    55,    55,    55,    55,
-      56,    56,    57,    57,    58,    59,    59,    60,    60,    60,
-      60,    61,    62,    62,    63,    64,    64,    65,    65,    65,
-      65,    65,    65,    65,    65,    66,    66,    67,    68,    69,
-      69
+       0,    36,    37,    37,    38,    38,    39,    39,    40,    40,
+      40,    40,    40,    40,    40,    40,    41,    41,    42,    42,
+      43,    44,    44,    44,    44,    45,    45,    45,    46,    47,
+      48,    49,    49,    49,    49,    49,    50,    50,    51,    52,
+      52,    53,    53,    53,    53,    54,    54,    55,    55,    55,
+      55,    56,    56,    57,    57,    58,    59,    59,    60,    60,
+      60,    60,    61,    62,    62,    63,    64,    64,    65,    65,
+      65,    65,    65,    65,    65,    65,    66,    66,    67,    68,
+      69,    69
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
-       0,     2,     2,     1,     1,     1,     2,     1,     1,     1,
-       1,     1,     1,     1,     1,     2,     1,     3,     2,     3,
-       3,     2,     3,     2,     1,     2,     1,     3,     3,     3,
-       3,     2,     2,     1,     1,     2,     1,     3,     3,     3,
-       5,     4,     4,     3,     3,     2,     5,     4,     4,     3,
-       1,     2,     1,     1,     3,     2,     1,     3,     2,     2,
-       1,     1,     2,     1,     3,     4,     3,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
-       1
+       0,     2,     2,     1,     1,     1,     1,     2,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     3,     2,
+       3,     3,     2,     3,     2,     1,     2,     1,     3,     3,
+       3,     3,     2,     2,     1,     1,     2,     1,     3,     3,
+       3,     5,     4,     4,     3,     3,     2,     5,     4,     4,
+       3,     1,     2,     1,     1,     3,     2,     1,     3,     2,
+       2,     1,     1,     2,     1,     3,     4,     3,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
+       3,     1
 };
 
 
@@ -1697,94 +1707,104 @@ yyreduce:
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1701 "handlebars.tab.c"
+#line 1711 "handlebars.tab.c"
     break;
 
-  case 3: /* program: statements  */
-#line 196 "handlebars.y"
+  case 3: /* start: "end of file"  */
+#line 193 "handlebars.y"
+        {
+      struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
+      parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
+      return 1;
+    }
+#line 1721 "handlebars.tab.c"
+    break;
+
+  case 4: /* program: statements  */
+#line 201 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1709 "handlebars.tab.c"
+#line 1729 "handlebars.tab.c"
     break;
 
-  case 4: /* program: ""  */
-#line 199 "handlebars.y"
+  case 5: /* program: ""  */
+#line 204 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1718 "handlebars.tab.c"
+#line 1738 "handlebars.tab.c"
     break;
 
-  case 5: /* statements: statement  */
-#line 206 "handlebars.y"
+  case 6: /* statements: statement  */
+#line 211 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1727 "handlebars.tab.c"
+#line 1747 "handlebars.tab.c"
     break;
 
-  case 6: /* statements: statements statement  */
-#line 210 "handlebars.y"
+  case 7: /* statements: statements statement  */
+#line 215 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1736 "handlebars.tab.c"
+#line 1756 "handlebars.tab.c"
     break;
 
-  case 7: /* statement: mustache  */
-#line 217 "handlebars.y"
+  case 8: /* statement: mustache  */
+#line 222 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1744 "handlebars.tab.c"
+#line 1764 "handlebars.tab.c"
     break;
 
-  case 8: /* statement: block  */
-#line 220 "handlebars.y"
+  case 9: /* statement: block  */
+#line 225 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1752 "handlebars.tab.c"
+#line 1772 "handlebars.tab.c"
     break;
 
-  case 9: /* statement: raw_block  */
-#line 223 "handlebars.y"
+  case 10: /* statement: raw_block  */
+#line 228 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1760 "handlebars.tab.c"
+#line 1780 "handlebars.tab.c"
     break;
 
-  case 10: /* statement: partial  */
-#line 226 "handlebars.y"
+  case 11: /* statement: partial  */
+#line 231 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1768 "handlebars.tab.c"
+#line 1788 "handlebars.tab.c"
     break;
 
-  case 11: /* statement: partial_block  */
-#line 229 "handlebars.y"
+  case 12: /* statement: partial_block  */
+#line 234 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1776 "handlebars.tab.c"
+#line 1796 "handlebars.tab.c"
     break;
 
-  case 12: /* statement: content  */
-#line 232 "handlebars.y"
+  case 13: /* statement: content  */
+#line 237 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1784 "handlebars.tab.c"
+#line 1804 "handlebars.tab.c"
     break;
 
-  case 13: /* statement: COMMENT  */
-#line 235 "handlebars.y"
+  case 14: /* statement: COMMENT  */
+#line 240 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1792,11 +1812,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1796 "handlebars.tab.c"
+#line 1816 "handlebars.tab.c"
     break;
 
-  case 14: /* statement: LONG_COMMENT  */
-#line 242 "handlebars.y"
+  case 15: /* statement: LONG_COMMENT  */
+#line 247 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1804,560 +1824,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1808 "handlebars.tab.c"
+#line 1828 "handlebars.tab.c"
     break;
 
-  case 15: /* content: CONTENT content  */
-#line 252 "handlebars.y"
+  case 16: /* content: CONTENT content  */
+#line 257 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1817 "handlebars.tab.c"
+#line 1837 "handlebars.tab.c"
     break;
 
-  case 16: /* content: CONTENT  */
-#line 256 "handlebars.y"
+  case 17: /* content: CONTENT  */
+#line 261 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1825 "handlebars.tab.c"
+#line 1845 "handlebars.tab.c"
     break;
 
-  case 17: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 262 "handlebars.y"
+  case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
+#line 267 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1833 "handlebars.tab.c"
+#line 1853 "handlebars.tab.c"
     break;
 
-  case 18: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 265 "handlebars.y"
+  case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
+#line 270 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1841 "handlebars.tab.c"
+#line 1861 "handlebars.tab.c"
     break;
 
-  case 19: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 271 "handlebars.y"
+  case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
+#line 276 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1849 "handlebars.tab.c"
+#line 1869 "handlebars.tab.c"
     break;
 
-  case 20: /* block: open_block block_intermediate close_block  */
-#line 277 "handlebars.y"
+  case 21: /* block: open_block block_intermediate close_block  */
+#line 282 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1857 "handlebars.tab.c"
+#line 1877 "handlebars.tab.c"
     break;
 
-  case 21: /* block: open_block close_block  */
-#line 280 "handlebars.y"
+  case 22: /* block: open_block close_block  */
+#line 285 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1865 "handlebars.tab.c"
+#line 1885 "handlebars.tab.c"
     break;
 
-  case 22: /* block: open_inverse block_intermediate close_block  */
-#line 283 "handlebars.y"
+  case 23: /* block: open_inverse block_intermediate close_block  */
+#line 288 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1873 "handlebars.tab.c"
+#line 1893 "handlebars.tab.c"
     break;
 
-  case 23: /* block: open_inverse close_block  */
-#line 286 "handlebars.y"
+  case 24: /* block: open_inverse close_block  */
+#line 291 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1881 "handlebars.tab.c"
+#line 1901 "handlebars.tab.c"
     break;
 
-  case 24: /* block_intermediate: inverse_chain  */
-#line 292 "handlebars.y"
+  case 25: /* block_intermediate: inverse_chain  */
+#line 297 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1890 "handlebars.tab.c"
+#line 1910 "handlebars.tab.c"
     break;
 
-  case 25: /* block_intermediate: program inverse_chain  */
-#line 296 "handlebars.y"
+  case 26: /* block_intermediate: program inverse_chain  */
+#line 301 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1899 "handlebars.tab.c"
+#line 1919 "handlebars.tab.c"
     break;
 
-  case 26: /* block_intermediate: program  */
-#line 300 "handlebars.y"
+  case 27: /* block_intermediate: program  */
+#line 305 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1908 "handlebars.tab.c"
+#line 1928 "handlebars.tab.c"
     break;
 
-  case 27: /* open_block: "{{#" intermediate4 "}}"  */
-#line 307 "handlebars.y"
+  case 28: /* open_block: "{{#" intermediate4 "}}"  */
+#line 312 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1918 "handlebars.tab.c"
+#line 1938 "handlebars.tab.c"
     break;
 
-  case 28: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 315 "handlebars.y"
+  case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
+#line 320 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1927 "handlebars.tab.c"
+#line 1947 "handlebars.tab.c"
     break;
 
-  case 29: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 322 "handlebars.y"
+  case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
+#line 327 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1936 "handlebars.tab.c"
+#line 1956 "handlebars.tab.c"
     break;
 
-  case 30: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 329 "handlebars.y"
+  case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
+#line 334 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1944 "handlebars.tab.c"
+#line 1964 "handlebars.tab.c"
     break;
 
-  case 31: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 332 "handlebars.y"
+  case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
+#line 337 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1952 "handlebars.tab.c"
+#line 1972 "handlebars.tab.c"
     break;
 
-  case 32: /* inverse_chain: open_inverse_chain program  */
-#line 335 "handlebars.y"
+  case 33: /* inverse_chain: open_inverse_chain program  */
+#line 340 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1960 "handlebars.tab.c"
+#line 1980 "handlebars.tab.c"
     break;
 
-  case 33: /* inverse_chain: open_inverse_chain  */
-#line 338 "handlebars.y"
+  case 34: /* inverse_chain: open_inverse_chain  */
+#line 343 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1968 "handlebars.tab.c"
+#line 1988 "handlebars.tab.c"
     break;
 
-  case 34: /* inverse_chain: inverse_and_program  */
-#line 341 "handlebars.y"
+  case 35: /* inverse_chain: inverse_and_program  */
+#line 346 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1976 "handlebars.tab.c"
+#line 1996 "handlebars.tab.c"
     break;
 
-  case 35: /* inverse_and_program: INVERSE program  */
-#line 347 "handlebars.y"
+  case 36: /* inverse_and_program: INVERSE program  */
+#line 352 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 1985 "handlebars.tab.c"
+#line 2005 "handlebars.tab.c"
     break;
 
-  case 36: /* inverse_and_program: INVERSE  */
-#line 351 "handlebars.y"
+  case 37: /* inverse_and_program: INVERSE  */
+#line 356 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 1996 "handlebars.tab.c"
+#line 2016 "handlebars.tab.c"
     break;
 
-  case 37: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 360 "handlebars.y"
+  case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
+#line 365 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2005 "handlebars.tab.c"
+#line 2025 "handlebars.tab.c"
     break;
 
-  case 38: /* mustache: "{{" intermediate3 "}}"  */
-#line 367 "handlebars.y"
+  case 39: /* mustache: "{{" intermediate3 "}}"  */
+#line 372 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2014 "handlebars.tab.c"
+#line 2034 "handlebars.tab.c"
     break;
 
-  case 39: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 371 "handlebars.y"
+  case 40: /* mustache: "{{{" intermediate3 "}}}"  */
+#line 376 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2023 "handlebars.tab.c"
+#line 2043 "handlebars.tab.c"
     break;
 
-  case 40: /* partial: "{{>" partial_name params hash "}}"  */
-#line 378 "handlebars.y"
+  case 41: /* partial: "{{>" partial_name params hash "}}"  */
+#line 383 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2032 "handlebars.tab.c"
+#line 2052 "handlebars.tab.c"
     break;
 
-  case 41: /* partial: "{{>" partial_name params "}}"  */
-#line 382 "handlebars.y"
+  case 42: /* partial: "{{>" partial_name params "}}"  */
+#line 387 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2041 "handlebars.tab.c"
+#line 2061 "handlebars.tab.c"
     break;
 
-  case 42: /* partial: "{{>" partial_name hash "}}"  */
-#line 386 "handlebars.y"
+  case 43: /* partial: "{{>" partial_name hash "}}"  */
+#line 391 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2050 "handlebars.tab.c"
+#line 2070 "handlebars.tab.c"
     break;
 
-  case 43: /* partial: "{{>" partial_name "}}"  */
-#line 390 "handlebars.y"
+  case 44: /* partial: "{{>" partial_name "}}"  */
+#line 395 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2059 "handlebars.tab.c"
+#line 2079 "handlebars.tab.c"
     break;
 
-  case 44: /* partial_block: open_partial_block program close_block  */
-#line 397 "handlebars.y"
+  case 45: /* partial_block: open_partial_block program close_block  */
+#line 402 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2067 "handlebars.tab.c"
+#line 2087 "handlebars.tab.c"
     break;
 
-  case 45: /* partial_block: open_partial_block close_block  */
-#line 400 "handlebars.y"
+  case 46: /* partial_block: open_partial_block close_block  */
+#line 405 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2076 "handlebars.tab.c"
+#line 2096 "handlebars.tab.c"
     break;
 
-  case 46: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 406 "handlebars.y"
+  case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
+#line 411 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2085 "handlebars.tab.c"
+#line 2105 "handlebars.tab.c"
     break;
 
-  case 47: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 410 "handlebars.y"
+  case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
+#line 415 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2094 "handlebars.tab.c"
+#line 2114 "handlebars.tab.c"
     break;
 
-  case 48: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 414 "handlebars.y"
+  case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
+#line 419 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2103 "handlebars.tab.c"
+#line 2123 "handlebars.tab.c"
     break;
 
-  case 49: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 418 "handlebars.y"
+  case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
+#line 423 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2112 "handlebars.tab.c"
+#line 2132 "handlebars.tab.c"
     break;
 
-  case 50: /* params: param  */
-#line 425 "handlebars.y"
+  case 51: /* params: param  */
+#line 430 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2121 "handlebars.tab.c"
+#line 2141 "handlebars.tab.c"
     break;
 
-  case 51: /* params: params param  */
-#line 429 "handlebars.y"
+  case 52: /* params: params param  */
+#line 434 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2130 "handlebars.tab.c"
+#line 2150 "handlebars.tab.c"
     break;
 
-  case 52: /* param: helper_name  */
-#line 436 "handlebars.y"
+  case 53: /* param: helper_name  */
+#line 441 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2138 "handlebars.tab.c"
+#line 2158 "handlebars.tab.c"
     break;
 
-  case 53: /* param: sexpr  */
-#line 439 "handlebars.y"
+  case 54: /* param: sexpr  */
+#line 444 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2146 "handlebars.tab.c"
+#line 2166 "handlebars.tab.c"
     break;
 
-  case 54: /* sexpr: "(" intermediate3 ")"  */
-#line 445 "handlebars.y"
+  case 55: /* sexpr: "(" intermediate3 ")"  */
+#line 450 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2154 "handlebars.tab.c"
+#line 2174 "handlebars.tab.c"
     break;
 
-  case 55: /* intermediate4: intermediate3 block_params  */
-#line 451 "handlebars.y"
+  case 56: /* intermediate4: intermediate3 block_params  */
+#line 456 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2164 "handlebars.tab.c"
+#line 2184 "handlebars.tab.c"
     break;
 
-  case 57: /* intermediate3: helper_name params hash  */
-#line 460 "handlebars.y"
+  case 58: /* intermediate3: helper_name params hash  */
+#line 465 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2172 "handlebars.tab.c"
+#line 2192 "handlebars.tab.c"
     break;
 
-  case 58: /* intermediate3: helper_name hash  */
-#line 463 "handlebars.y"
+  case 59: /* intermediate3: helper_name hash  */
+#line 468 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2180 "handlebars.tab.c"
+#line 2200 "handlebars.tab.c"
     break;
 
-  case 59: /* intermediate3: helper_name params  */
-#line 466 "handlebars.y"
+  case 60: /* intermediate3: helper_name params  */
+#line 471 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2188 "handlebars.tab.c"
+#line 2208 "handlebars.tab.c"
     break;
 
-  case 60: /* intermediate3: helper_name  */
-#line 469 "handlebars.y"
+  case 61: /* intermediate3: helper_name  */
+#line 474 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2196 "handlebars.tab.c"
+#line 2216 "handlebars.tab.c"
     break;
 
-  case 61: /* hash: hash_pairs  */
-#line 475 "handlebars.y"
+  case 62: /* hash: hash_pairs  */
+#line 480 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2206 "handlebars.tab.c"
+#line 2226 "handlebars.tab.c"
     break;
 
-  case 62: /* hash_pairs: hash_pairs hash_pair  */
-#line 483 "handlebars.y"
+  case 63: /* hash_pairs: hash_pairs hash_pair  */
+#line 488 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2215 "handlebars.tab.c"
+#line 2235 "handlebars.tab.c"
     break;
 
-  case 63: /* hash_pairs: hash_pair  */
-#line 487 "handlebars.y"
+  case 64: /* hash_pairs: hash_pair  */
+#line 492 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2224 "handlebars.tab.c"
+#line 2244 "handlebars.tab.c"
     break;
 
-  case 64: /* hash_pair: ID "=" param  */
-#line 494 "handlebars.y"
+  case 65: /* hash_pair: ID "=" param  */
+#line 499 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2232 "handlebars.tab.c"
+#line 2252 "handlebars.tab.c"
     break;
 
-  case 65: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 500 "handlebars.y"
+  case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
+#line 505 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2241 "handlebars.tab.c"
+#line 2261 "handlebars.tab.c"
     break;
 
-  case 66: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 504 "handlebars.y"
+  case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
+#line 509 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2250 "handlebars.tab.c"
+#line 2270 "handlebars.tab.c"
     break;
 
-  case 67: /* helper_name: path  */
-#line 511 "handlebars.y"
+  case 68: /* helper_name: path  */
+#line 516 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2258 "handlebars.tab.c"
+#line 2278 "handlebars.tab.c"
     break;
 
-  case 68: /* helper_name: data_name  */
-#line 514 "handlebars.y"
+  case 69: /* helper_name: data_name  */
+#line 519 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2266 "handlebars.tab.c"
+#line 2286 "handlebars.tab.c"
     break;
 
-  case 69: /* helper_name: STRING  */
-#line 517 "handlebars.y"
+  case 70: /* helper_name: STRING  */
+#line 522 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2274 "handlebars.tab.c"
+#line 2294 "handlebars.tab.c"
     break;
 
-  case 70: /* helper_name: SINGLE_STRING  */
-#line 520 "handlebars.y"
+  case 71: /* helper_name: SINGLE_STRING  */
+#line 525 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2282 "handlebars.tab.c"
+#line 2302 "handlebars.tab.c"
     break;
 
-  case 71: /* helper_name: NUMBER  */
-#line 523 "handlebars.y"
+  case 72: /* helper_name: NUMBER  */
+#line 528 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2290 "handlebars.tab.c"
+#line 2310 "handlebars.tab.c"
     break;
 
-  case 72: /* helper_name: BOOLEAN  */
-#line 526 "handlebars.y"
+  case 73: /* helper_name: BOOLEAN  */
+#line 531 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2298 "handlebars.tab.c"
+#line 2318 "handlebars.tab.c"
     break;
 
-  case 73: /* helper_name: "undefined"  */
-#line 529 "handlebars.y"
+  case 74: /* helper_name: "undefined"  */
+#line 534 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2306 "handlebars.tab.c"
+#line 2326 "handlebars.tab.c"
     break;
 
-  case 74: /* helper_name: "NULL"  */
-#line 532 "handlebars.y"
+  case 75: /* helper_name: "NULL"  */
+#line 537 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2314 "handlebars.tab.c"
+#line 2334 "handlebars.tab.c"
     break;
 
-  case 75: /* partial_name: helper_name  */
-#line 538 "handlebars.y"
+  case 76: /* partial_name: helper_name  */
+#line 543 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2322 "handlebars.tab.c"
+#line 2342 "handlebars.tab.c"
     break;
 
-  case 76: /* partial_name: sexpr  */
-#line 541 "handlebars.y"
+  case 77: /* partial_name: sexpr  */
+#line 546 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2330 "handlebars.tab.c"
+#line 2350 "handlebars.tab.c"
     break;
 
-  case 77: /* data_name: DATA path_segments  */
-#line 547 "handlebars.y"
+  case 78: /* data_name: DATA path_segments  */
+#line 552 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2338 "handlebars.tab.c"
+#line 2358 "handlebars.tab.c"
     break;
 
-  case 78: /* path: path_segments  */
-#line 553 "handlebars.y"
+  case 79: /* path: path_segments  */
+#line 558 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2346 "handlebars.tab.c"
+#line 2366 "handlebars.tab.c"
     break;
 
-  case 79: /* path_segments: path_segments SEP ID  */
-#line 559 "handlebars.y"
+  case 80: /* path_segments: path_segments SEP ID  */
+#line 564 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2357 "handlebars.tab.c"
+#line 2377 "handlebars.tab.c"
     break;
 
-  case 80: /* path_segments: ID  */
-#line 565 "handlebars.y"
+  case 81: /* path_segments: ID  */
+#line 570 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2368,11 +2388,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2372 "handlebars.tab.c"
+#line 2392 "handlebars.tab.c"
     break;
 
 
-#line 2376 "handlebars.tab.c"
+#line 2396 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.y b/src/handlebars.y
index bcdc392..8d42b7b 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -190,6 +190,11 @@ start :
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
+  | END {
+      struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
+      parser->program = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &@$);
+      return 1;
+    }
   ;
 
 program :
-- 
2.43.0


From 9bb46495fc4d5380285ee2eab6299fef974e896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:02 +0000
Subject: [PATCH 13/98] fix: whitespace control accepts a missing statement
 list

---
 src/handlebars_whitespace.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.h b/src/handlebars_whitespace.h
index 6df8627..20821ec 100644
--- a/src/handlebars_whitespace.h
+++ b/src/handlebars_whitespace.h
@@ -49,13 +49,13 @@ bool handlebars_whitespace_omit_left(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 bool handlebars_whitespace_omit_right(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 void handlebars_whitespace_accept(
     struct handlebars_parser * parser,
-- 
2.43.0


From 2a91ea952c60f30b07baf48bae03a49183a4f3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:45 +0000
Subject: [PATCH 14/98] fix: stripping the delimiters of {{!--}} ran past the
 start of the text

---
 src/handlebars_ast_helpers.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index 943b938..d5fedfe 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -410,6 +410,10 @@ struct handlebars_string * handlebars_ast_helper_strip_comment(struct handlebars
     assert(comment != NULL);
     size_t start = handlebars_ast_helper_strip_comment_left(comment);
     size_t len = handlebars_ast_helper_strip_comment_right(comment);
+    // The dashes of {{!--}} belong to the opening
+    if( len < start ) {
+        len = start;
+    }
     comment = handlebars_string_truncate(comment, start, len);
     return comment;
 }
-- 
2.43.0


From 9e239ec690bb787037aa1be95280ff23071c251f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:15 +0000
Subject: [PATCH 15/98] fix: a missing path segment of a block parameter or
 data variable is empty

The value reached so far was used instead; array indices now go through one
function for all kinds of path and must be numbers.
---
 src/handlebars_vm.c | 51 +++++++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..67df6e1 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -21,6 +21,7 @@
 
 #include <assert.h>
 #include <stdio.h>
+#include <stdlib.h>
 #include <string.h>
 
 #define HANDLEBARS_OPCODE_SERIALIZER_PRIVATE
@@ -301,6 +302,26 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
     HANDLEBARS_VALUE_UNDECL(rv);
 }
 
+// Find the value named by one path segment in an object or array, or NULL
+HBS_ATTR_NONNULL_ALL
+static inline struct handlebars_value * lookup_segment(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
+{
+    const char * str = hbs_str_val(key);
+
+    switch( handlebars_value_get_type(value) ) {
+        case HANDLEBARS_VALUE_TYPE_MAP:
+            return handlebars_value_map_find(value, key, rv);
+        case HANDLEBARS_VALUE_TYPE_ARRAY:
+            // An index is nothing but digits
+            if( hbs_str_len(key) > 0 && strspn(str, "0123456789") == hbs_str_len(key) ) {
+                return handlebars_value_array_find(value, strtoul(str, NULL, 10), rv);
+            }
+            return NULL;
+        default:
+            return NULL;
+    }
+}
+
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
@@ -934,16 +955,11 @@ ACCEPT_FUNCTION(lookup_block_param)
         struct handlebars_value * tmp = v2;
         struct handlebars_value * tmp2;
         for( i = 1; i < arr_len; i++ ) {
-            tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
-            if( tmp2 ) {
-                tmp = tmp2;
-            } else {
-                break;
-            }
-        }
-        if (tmp) {
-            handlebars_value_value(value, tmp);
+            tmp2 = lookup_segment(tmp, arr[i].string, rv);
+            if( !tmp2 ) goto done;
+            tmp = tmp2;
         }
+        handlebars_value_value(value, tmp);
     } else {
         handlebars_value_value(value, v2);
     }
@@ -1002,11 +1018,13 @@ ACCEPT_FUNCTION(lookup_data)
 
     for( i = 1 ; i < arr_len; i++ ) {
         struct handlebars_operand_string * part = arr + i;
-        if( handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP &&
-                NULL != (tmp = handlebars_value_map_find(val, part->string, rv)) ) {
+        if( NULL != (tmp = lookup_segment(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            handlebars_value_null(val);
+            break;
         }
     }
 
@@ -1046,7 +1064,6 @@ ACCEPT_FUNCTION(lookup_on_context)
     size_t arr_len = opcode->op1.data.array.count;
     struct handlebars_operand_string * arr = opcode->op1.data.array.array;
     struct handlebars_operand_string * arr_end = arr + arr_len;
-    long index = -1;
     bool is_strict = (vm->flags & handlebars_compiler_flag_strict) || (vm->flags & handlebars_compiler_flag_assume_objects);
     bool require_terminal = (vm->flags & handlebars_compiler_flag_strict) && opcode->op3.data.boolval;
 
@@ -1060,14 +1077,8 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     do {
         bool is_last = arr == arr_end - 1;
-        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            value = handlebars_value_map_find(value, arr->string, rv2);
-        } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
-                value = handlebars_value_array_find(value, index, rv2);
-            } else {
-                value = NULL;
-            }
+        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP || handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+            value = lookup_segment(value, arr->string, rv2);
         } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
             goto done_and_err;
         } else {
-- 
2.43.0


From 70f540b37b0c0a16e1a04e29b54ba8f0f5475e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:31 +0000
Subject: [PATCH 16/98] fix: @root is the outermost context, @partial-block
 outside a partial block is empty

---
 src/handlebars_vm.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 67df6e1..a4a840b 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1007,8 +1007,8 @@ ACCEPT_FUNCTION(lookup_data)
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+        handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
-- 
2.43.0


From d7ead39d849606e8fbb6e82ebd6f89b36a4c5b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:55 +0000
Subject: [PATCH 17/98] fix: each gives @../ access to the enclosing
 iteration's data

---
 src/handlebars_helpers.c | 3 ++-
 src/handlebars_vm.c      | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..5d5d44f 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,10 +102,11 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 5);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
+            data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         } else {
             data_map = handlebars_map_ctor(CONTEXT, 4);
         }
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index a4a840b..dc1042c 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1000,6 +1000,8 @@ ACCEPT_FUNCTION(lookup_data)
             tmp = handlebars_value_map_str_find(data, HBS_STRL("_parent"), rv);
             if (tmp != NULL) {
                 handlebars_value_value(data, tmp);
+            } else {
+                handlebars_value_null(data);
             }
         }
     }
-- 
2.43.0


From 77733cf14ce7a0bb6e51161173875bcd3a00ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:41 +0000
Subject: [PATCH 18/98] fix: nested iteration of one map

A second iteration of a map aborted the process, and an error thrown during an
iteration left the map locked for good.
---
 src/handlebars_value.c | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..1aac907 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -842,20 +842,20 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
 
 static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
+    struct handlebars_map * map = (struct handlebars_map *) it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
-
-    if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
+    if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
+        it->usr = NULL;
+        handlebars_map_delref(map);
         return false;
     }
 
     it->index++;
-    handlebars_map_get_kv_at_index(it->value->v.map, it->index, &it->key, &tmp);
+    handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     return true;
 }
@@ -887,13 +887,12 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_map_sparse_array_compact(value->v.map); // meh
             it->value = value;
             it->index = 0;
+            // Hold a reference: while it is being iterated, the map is separated before it is changed
+            it->usr = (void *) value->v.map;
+            handlebars_map_addref(value->v.map);
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
-            }
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From 0e7331e4b678072771a2290d36b5f3ac7746e7c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 19/98] fix: strings are equal only if their bytes are, not if
 their hashes are

---
 src/handlebars_string.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..ba10877 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -334,7 +334,8 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2) &&
+            0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
-- 
2.43.0


From 91520662972af3df474af504c7c7ee64327910b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 20/98] fix: compare strings past an embedded NUL

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index ba10877..0cf2435 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -371,7 +371,7 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
-- 
2.43.0


From 16f17223249aa6eae196550e50f25d801cadf44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 21/98] fix: trimming a string invalidates its hash

---
 src/handlebars_string.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 0cf2435..aec5018 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -828,6 +828,7 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -857,6 +858,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
     while( original > string->val && flags[(unsigned char) *--original] ) {
         --string->len;
         *original = '\0';
+        string->hash = 0;
     }
 
     return string;
-- 
2.43.0


From 0d26b07c41b5d32eb1aa8c1a5eac5735979c6cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 22/98] fix: stripping escapes and reducing a shared string
 changed the other holders' copy

---
 src/handlebars_string.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index aec5018..a474bd4 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -396,13 +396,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
@@ -511,14 +512,16 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
-    char * source = string->val;
-    char * target = string->val;
-    char * end = string->val + string->len;
+    char * source;
+    char * target;
+    char * end;
     size_t nlen = string->len;
     size_t i;
     char numtmp[4];
 
     string = separate_string(string);
+    source = target = string->val;
+    end = string->val + string->len;
 
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
-- 
2.43.0


From 0053e583b19c4f2c830096c1b5020d10fdff668d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:13 +0000
Subject: [PATCH 23/98] fix: indenting an empty string read before its start
 and added the indent

---
 src/handlebars_string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index a474bd4..76a2de1 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -774,10 +774,16 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
-    bool endsInLine = (str[str_len - 1] == '\n');
+    bool endsInLine = str_len > 0 && str[str_len - 1] == '\n';
     size_t i;
     char tmp[2] = "\0";
 
+    if( str_len == 0 ) {
+        // No lines, nothing to indent
+        handlebars_string_delref(input_string);
+        return append_to_string;
+    }
+
     if( endsInLine ) {
         str_len--;
     }
-- 
2.43.0


From d1292fb1dd6b74d65de7579bf0e59a5749873d34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 24/98] fix: compacting a map lost entries

---
 src/handlebars_map.c | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..4885aad 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -194,7 +194,7 @@ static inline struct ht_find_result map_find_entry(
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
@@ -543,25 +543,17 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
         return;
     }
 
-    uint32_t i = 0;
+    uint32_t i;
     uint32_t vec_offset = 0;
     struct handlebars_map_entry * vec = map_vec(map);
     struct handlebars_map_entry ** table = map_table(map);
 
-    // Scan until the first tombstone
-    for (; i < map->vec_offset; i++) {
-        if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
-            i++;
-            vec_offset++;
-            break;
-        }
-    }
-
-    // Now patch everything
-    for (; i < map->vec_offset; i++) {
-        if (0 != memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
-            vec[vec_offset] = vec[i];
-            table[vec[vec_offset].table_offset] = &vec[vec_offset];
+    for (i = 0; i < map->vec_offset; i++) {
+        if (vec[i].key != NULL) {
+            if (i != vec_offset) {
+                vec[vec_offset] = vec[i];
+                table[vec[vec_offset].table_offset] = &vec[vec_offset];
+            }
             vec_offset++;
         }
     }
-- 
2.43.0


From 7597897b088483ee6f42f2847cd8a4fc86ab3da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:37 +0000
Subject: [PATCH 25/98] fix: adding to a full map during its iteration wrote
 past its end

---
 src/handlebars_map.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 4885aad..b686c34 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -404,7 +404,7 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
 
     // Add
     struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found) {
+    if (o.entry_found || !o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
@@ -465,8 +465,8 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
         return map;
     }
 
-    if (!o.empty_found) {
-        // This should never happen
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
+        // This should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
     }
 
-- 
2.43.0


From d1890f6b7996de8891e583e67acac930ddc36569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 26/98] fix: errors inside a partial were swallowed, and cached
 partials ignored indent, delimiters and flags

---
 src/handlebars_vm.c | 76 +++++++++++++++++++++++++++++----------------
 1 file changed, 49 insertions(+), 27 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index dc1042c..f578b24 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -350,41 +350,68 @@ static struct handlebars_string * execute_template(
     int escape,
     bool use_delimiters
 ) {
+    // Get template
+    if (!hbs_str_len(tmpl)) {
+        return handlebars_string_ctor(CONTEXT, HBS_STRL(""));
+    }
+
     struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    HANDLEBARS_MEMCHECK(context, CONTEXT);
     struct handlebars_string * volatile retval = NULL;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_module * volatile module = NULL;
+    volatile bool from_cache = false;
     long prev_depth = vm->depth;
     jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
     jmp_buf buf;
 
-    handlebars_string_addref(tmpl);
+    // An error in the template is an error of the VM
+    context->e = HBSCTX(vm)->e;
 
-    // Get template
-    if (!hbs_str_len(tmpl)) {
-        goto done;
-    }
+    handlebars_string_addref(tmpl);
 
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
-        goto done;
+        struct handlebars_error * e = HBSCTX(vm)->e;
+        enum handlebars_error_type num = e->num;
+        struct handlebars_locinfo loc = e->loc;
+        char * msg = handlebars_talloc_strdup(vm, e->msg);
+
+        e->jmp = prev_jmp;
+        vm->depth = prev_depth;
+        if( from_cache ) {
+            handlebars_cache_release(vm->cache, tmpl, module);
+        }
+        handlebars_context_dtor(context);
+        handlebars_throw_ex(CONTEXT, num, &loc, "%s", msg ? msg : HANDLEBARS_MEMCHECK_MSG);
+    }
+
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        tmpl = handlebars_preprocess_delimiters(
+            HBSCTX(context),
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        if (indent) {
+            tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
+        }
+    }
+
+    // Check for cached template, if available, unless it was compiled with other flags
+    bool use_cache = vm->cache != NULL;
+    if( use_cache ) {
+        module = handlebars_cache_find(vm->cache, tmpl);
+        if( module && module->flags != (vm->flags & handlebars_compiler_flag_all) ) {
+            handlebars_cache_release(vm->cache, tmpl, module);
+            module = NULL;
+            use_cache = false;
+        }
+        from_cache = module != NULL;
     }
 
-    // Check for cached template, if available
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
 
         // Compile
@@ -396,7 +423,7 @@ static struct handlebars_string * execute_template(
         module = handlebars_program_serialize(context, program);
 
         // Save cache entry
-        if( vm->cache ) {
+        if( use_cache ) {
             handlebars_cache_add(vm->cache, tmpl, module);
         }
 
@@ -413,7 +440,6 @@ static struct handlebars_string * execute_template(
         retval = handlebars_string_indent(CONTEXT, retval, indent);
     }
 
-done:
     HBSCTX(vm)->e->jmp = prev_jmp;
     vm->depth = prev_depth;
     if( from_cache ) {
@@ -421,11 +447,7 @@ done:
     }
     handlebars_string_delref(tmpl);
     handlebars_context_dtor(context);
-    if (retval) {
-        return retval;
-    } else {
-        return handlebars_string_ctor(CONTEXT, HBS_STRL(""));
-    }
+    return retval;
 }
 
 HANDLEBARS_CLOSURE_ATTRS
-- 
2.43.0


From 0a83cc31d2ebd7b380078445e1acca87c655f395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:17 +0000
Subject: [PATCH 27/98] fix: the hash of a partial was dropped when its context
 was an empty object

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index f578b24..a9dbce6 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -325,7 +325,7 @@ static inline struct handlebars_value * lookup_segment(struct handlebars_value *
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
-    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(input) > 0 &&
+    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP &&
             hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
         struct handlebars_map * new_map = handlebars_map_ctor(context, handlebars_value_count(input) + handlebars_value_count(hash));
         HANDLEBARS_VALUE_FOREACH_KV(input, key, child) {
-- 
2.43.0


From a08c18ad09e037e850cf0ea5007dcaac1728b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:59 +0000
Subject: [PATCH 28/98] fix: every program has a level of block params; a
 partial block sees the scope it was written in; recursion is bounded

---
 src/handlebars_vm.c | 76 +++++++++++++++++++++++++++------------------
 src/handlebars_vm.h |  5 +++
 2 files changed, 51 insertions(+), 30 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index a9dbce6..2a3d602 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -431,8 +431,6 @@ static struct handlebars_string * execute_template(
         handlebars_parser_dtor(parser);
     }
 
-    vm->depth++;
-
     retval = handlebars_vm_execute(vm, module, input);
     assert(retval != NULL);
 
@@ -441,7 +439,6 @@ static struct handlebars_string * execute_template(
     }
 
     HBSCTX(vm)->e->jmp = prev_jmp;
-    vm->depth = prev_depth;
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
@@ -450,46 +447,55 @@ static struct handlebars_string * execute_template(
     return retval;
 }
 
+HBS_ATTR_NONNULL_ALL
+static struct handlebars_stack * copy_bottom(struct handlebars_stack * stack, struct handlebars_stack * from, size_t count)
+{
+    size_t i;
+    for( i = 0; i < count && i < LEN(from); i++ ) {
+        PUSH(stack, handlebars_stack_get(from, i));
+    }
+    return stack;
+}
+
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 3);
+    assert(localc >= 5);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
-    long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
-    bool pushed_partial_block = false;
-
-    // Push partial block
-    if (partial_block_depth > 0) {
-        pushed_partial_block = true;
-        PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
-    }
+    size_t partial_block_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
+    size_t context_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
+    size_t block_param_depth = (size_t) handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(4));
 
+    // The block sees the contexts, block params, and partial block of the place where it was written
     struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
+    struct handlebars_stack * prev_context_stack = vm->contextStack;
+    struct handlebars_stack * prev_block_param_stack = vm->blockParamStack;
+    struct handlebars_stack * prev_partial_block_stack = vm->partialBlockStack;
+    vm->contextStack = copy_bottom(handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE), prev_context_stack, context_depth);
+    vm->blockParamStack = copy_bottom(handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_MAX_DEPTH), prev_block_param_stack, block_param_depth);
+    vm->partialBlockStack = copy_bottom(handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE), prev_partial_block_stack, partial_block_depth);
+
     struct handlebars_string * buffer;
     if (vm->module == module) {
-        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, NULL);
     } else {
-        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, NULL);
     }
     if (buffer) {
         handlebars_value_str(rv, buffer);
     }
 
-    // Pop partial block
-    if (pushed_partial_block) {
-        // This should never happen, but we need to convince scan-build of it
-        assert(vm->partialBlockStack != NULL);
-        if (!vm->partialBlockStack) return rv;
-
-        HANDLEBARS_VALUE_DECL(closure_value);
-        POP(vm->partialBlockStack, closure_value);
-        HANDLEBARS_VALUE_UNDECL(closure_value);
-    }
+    handlebars_stack_dtor(vm->contextStack);
+    handlebars_stack_dtor(vm->blockParamStack);
+    handlebars_stack_dtor(vm->partialBlockStack);
+    vm->contextStack = prev_context_stack;
+    vm->blockParamStack = prev_block_param_stack;
+    vm->partialBlockStack = prev_partial_block_stack;
 
     return rv;
 }
@@ -856,11 +862,13 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 3;
+        const int closure_localc = 5;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
+        handlebars_value_integer(&closure_localv[3], LEN(vm->contextStack));
+        handlebars_value_integer(&closure_localv[4], LEN(vm->blockParamStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1342,6 +1350,12 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
     // Get program
 	struct handlebars_module_table_entry * entry = &vm->module->programs[program_num];
 
+    // Nested too deep, e.g. a partial that always includes itself
+    if( vm->depth >= HANDLEBARS_VM_MAX_DEPTH ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
+    vm->depth++;
+
     // Save and set buffer
     struct handlebars_string * prev_buffer = vm->buffer;
     vm->buffer = handlebars_string_init(CONTEXT, HANDLEBARS_VM_BUFFER_INIT_SIZE);
@@ -1373,10 +1387,10 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, data);
     }
 
-    // Set block params
-    if( block_params ) {
-        PUSH(vm->blockParamStack, block_params);
-    }
+    // Set block params, every program has a level of them (the compiler counts levels, not blocks with params)
+    HANDLEBARS_VALUE_DECL(no_block_params);
+    PUSH(vm->blockParamStack, block_params ? block_params : no_block_params);
+    HANDLEBARS_VALUE_UNDECL(no_block_params);
 
     // Execute the program
 	handlebars_vm_accept(vm, entry);
@@ -1399,6 +1413,8 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
     }
     HANDLEBARS_VALUE_UNDECL(prev_data);
 
+    vm->depth--;
+
     // Restore buffer
     struct handlebars_string * buffer = vm->buffer;
     vm->buffer = prev_buffer;
@@ -1442,7 +1458,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+        vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_MAX_DEPTH);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         setup_stacks = true;
     }
diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 45deb93..63e95b6 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -34,6 +34,11 @@ struct handlebars_vm;
 #define HANDLEBARS_VM_STACK_SIZE 96
 #endif
 
+// The number of programs (blocks, partials) that can be nested in execution
+#ifndef HANDLEBARS_VM_MAX_DEPTH
+#define HANDLEBARS_VM_MAX_DEPTH 384
+#endif
+
 #ifndef HANDLEBARS_VM_BUFFER_INIT_SIZE
 #define HANDLEBARS_VM_BUFFER_INIT_SIZE 128
 #endif
-- 
2.43.0


From bc17c598343b4f69dfc9d8f0f89f518b1391ee18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 29/98] fix: a failed render left the VM with the data, depth
 and stacks of the point of failure

---
 src/handlebars_vm.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 2a3d602..e85b2b7 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1441,14 +1441,25 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
+    struct handlebars_string * prev_last_helper = vm->last_helper;
+    struct handlebars_string * prev_buffer = vm->buffer;
+    long prev_depth = vm->depth;
 
-    struct handlebars_string * buffer = NULL;
+    struct handlebars_string * volatile buffer = NULL;
     bool volatile setup_stacks = false;
+    bool volatile failed = false;
     jmp_buf buf;
+    HANDLEBARS_VALUE_DECL(prev_data);
+    handlebars_value_value(prev_data, &vm->data);
 
-    // Save jump buffer
-    if( !prev ) {
+    // Save jump buffer, the outermost execution has to leave the VM as it was
+    if( !prev || vm->stack == NULL ) {
         if( handlebars_setjmp_ex(vm, &buf) ) {
+            failed = true;
+            vm->last_helper = prev_last_helper;
+            vm->buffer = prev_buffer;
+            vm->depth = prev_depth;
+            handlebars_value_value(&vm->data, prev_data);
             goto done;
         }
     }
@@ -1493,6 +1504,12 @@ done:
     vm->module = prev_module;
     vm->flags = prev_flags;
 
+    HANDLEBARS_VALUE_UNDECL(prev_data);
+
+    if( failed && prev ) {
+        longjmp(*prev, HBSCTX(vm)->e->num);
+    }
+
     return buffer;
 }
 
-- 
2.43.0


From 532e733d1cf50272dd502c55f3360480114afd23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 30/98] fix: the inverse of #with runs in the enclosing context

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 5d5d44f..0bb3b9d 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -348,7 +348,7 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
     assert(context != NULL);
 
     if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_NULL ) {
-        result_str = handlebars_vm_execute_program(vm, options->inverse, context);
+        result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
     } else {
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
         handlebars_value_array_set(block_params, 0, context);
-- 
2.43.0


From 4e2f29d310acec7c0a904d86f38649434bb8ddbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 31/98] fix: includeZero=false is not includeZero

---
 src/handlebars_helpers.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0bb3b9d..29f1f2f 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -278,7 +278,9 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
     struct handlebars_value * conditional = &argv[0];
     long program;
     struct handlebars_string * result_str = NULL;
+    struct handlebars_value * include_zero;
     HANDLEBARS_VALUE_DECL(rv2);
+    HANDLEBARS_VALUE_DECL(include_zero_rv);
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#if requires exactly one argument");
@@ -296,7 +298,8 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
         program = options->program;
     } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
             handlebars_value_get_intval(conditional) == 0 &&
-            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) ) {
+            NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), include_zero_rv)) &&
+            !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
     } else {
         program = options->inverse;
@@ -305,6 +308,7 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
     result_str = handlebars_vm_execute_program(vm, program, options->scope);
     handlebars_value_str(rv, result_str);
 
+    HANDLEBARS_VALUE_UNDECL(include_zero_rv);
     HANDLEBARS_VALUE_UNDECL(rv2);
 
     return rv;
-- 
2.43.0


From 059c661f266d5924529f7266498a3799b3c006b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 32/98] fix: #unless has the condition of #if, for lambdas and
 includeZero too

---
 src/handlebars_helpers.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 29f1f2f..639f1f6 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -316,16 +316,14 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
 struct handlebars_value * handlebars_builtin_unless(HANDLEBARS_HELPER_ARGS)
 {
-    struct handlebars_value * conditional;
-
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#unless requires exactly one argument");
     }
 
-    conditional = &argv[0];
-    assert(conditional != NULL);
-
-    handlebars_value_boolean(conditional, handlebars_value_is_empty(conditional));
+    // The same condition as #if, with the blocks swapped
+    long program = options->program;
+    options->program = options->inverse;
+    options->inverse = program;
 
     return handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
 }
-- 
2.43.0


From b117358094813752d3f4c6e85f7d165224924258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:41 +0000
Subject: [PATCH 33/98] fix: lookup of an index outside of an array is empty

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 639f1f6..0df04f6 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -266,7 +266,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
         }
     }
 
-- 
2.43.0


From 0bdc23cdeb5d3a6c794f668d9dc5d3ed0c5d132c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 34/98] fix: the safe string flag outlived the string it was
 set on

---
 src/handlebars_value.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 1aac907..e2fd4b3 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -438,6 +439,7 @@ void handlebars_value_null(struct handlebars_value * value)
     if( value->type != HANDLEBARS_VALUE_TYPE_NULL ) {
         handlebars_value_dtor(value);
     }
+    value->flags = 0;
 }
 
 void handlebars_value_boolean(struct handlebars_value * value, bool bval)
-- 
2.43.0


From 4751f64e56ba11e31d6fd688ab1413ce3e21d262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 35/98] fix: assigning a value to itself, or to its container,
 used it after it was freed

---
 src/handlebars_value.c | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index e2fd4b3..d8955c3 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -519,31 +519,33 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
-    *dest = *src;
-    switch( dest->type ) {
+    // The old value of dest may be all that holds src
+    struct handlebars_value tmp = *src;
+    switch( tmp.type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            handlebars_stack_addref(dest->v.stack);
+            handlebars_stack_addref(tmp.v.stack);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            handlebars_map_addref(dest->v.map);
+            handlebars_map_addref(tmp.v.map);
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            handlebars_string_addref(dest->v.string);
+            handlebars_string_addref(tmp.v.string);
             break;
         case HANDLEBARS_VALUE_TYPE_USER:
-            handlebars_user_addref(dest->v.user);
+            handlebars_user_addref(tmp.v.user);
             break;
         case HANDLEBARS_VALUE_TYPE_PTR:
-            handlebars_ptr_addref(dest->v.ptr);
+            handlebars_ptr_addref(tmp.v.ptr);
             break;
         case HANDLEBARS_VALUE_TYPE_CLOSURE:
-            handlebars_closure_addref(dest->v.closure);
+            handlebars_closure_addref(tmp.v.closure);
             break;
         default:
             // do nothing
             break;
     }
+    handlebars_value_null(dest);
+    *dest = tmp;
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From 214f01a238bba0c4fb69d75bc924debabb584b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:54 +0000
Subject: [PATCH 36/98] fix: null in JSON is a null value, also when it follows
 another value; empty JSON arrays have no elements

---
 src/handlebars_json.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..4f483bf 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -145,8 +145,8 @@ static enum handlebars_value_type hbs_json_type(struct handlebars_value * value)
 static struct handlebars_value * hbs_json_map_find(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_object_get(intern->object, hbs_str_val(key));
-    if( item == NULL ) {
+    struct json_object * item = NULL;
+    if( strlen(hbs_str_val(key)) != hbs_str_len(key) || !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
@@ -156,11 +156,10 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
-    if( item == NULL ) {
+    if( index >= (size_t) json_object_array_length(intern->object) ) {
         return NULL;
     }
-    handlebars_value_init_json_object(intern->user.ctx, rv, item);
+    handlebars_value_init_json_object(intern->user.ctx, rv, json_object_array_get_idx(intern->object, index));
     return rv;
 }
 
@@ -225,7 +224,6 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
         case json_type_object: {
             entry = json_object_get_object(intern->object)->head;
             if (unlikely(entry == NULL)) { // LCOV_EXCL_START
-                assert(entry != NULL);
                 it->next = &hbs_json_iterator_next_void;
                 return false;
             } // LCOV_EXCL_STOP
@@ -240,6 +238,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
 
         case json_type_array:
             it->index = 0;
+            if( json_object_array_length(intern->object) == 0 ) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
             it->next = &hbs_json_iterator_next_array;
             return true;
@@ -285,7 +287,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 316e482c6831912fc3e5402aa8ed229086d46a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:06 +0000
Subject: [PATCH 37/98] fix: an empty YAML scalar is not 0; YAML cycles and
 complex keys are errors

---
 src/handlebars_yaml.c | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..32b65f8 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -44,8 +44,15 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
-void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+// The depth is limited because a document can contain itself, by an alias
+#define YAML_MAX_DEPTH 256
+
+static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, size_t depth)
 {
+    if( depth > YAML_MAX_DEPTH ) {
+        handlebars_throw(ctx, HANDLEBARS_STACK_OVERFLOW, "YAML document is nested too deep");
+    }
+
     HANDLEBARS_VALUE_DECL(tmp);
     yaml_node_pair_t * pair;
     yaml_node_item_t * item;
@@ -57,8 +64,10 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                if( keyNode->type != YAML_SCALAR_NODE ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML mapping keys must be scalars");
+                }
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
             handlebars_value_map(value, map);
@@ -68,7 +77,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             struct handlebars_stack * stack = handlebars_stack_ctor(ctx, node->data.sequence.items.top - node->data.sequence.items.start);
             for( item = node->data.sequence.items.start; item < node->data.sequence.items.top; item++) {
                 yaml_node_t * valueNode = yaml_document_get_node(document, *item);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 stack = handlebars_stack_push(stack, tmp);
             }
             handlebars_value_array(value, stack);
@@ -79,6 +88,13 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
+            } else if( node->data.scalar.length == 0 ) {
+                // Nothing is null, but a pair of quotes is an empty string
+                if( node->data.scalar.style == YAML_PLAIN_SCALAR_STYLE ) {
+                    handlebars_value_null(value);
+                } else {
+                    handlebars_value_str(value, handlebars_string_ctor(ctx, HBS_STRL("")));
+                }
             } else {
                 long lval;
                 double dval;
@@ -108,6 +124,11 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+{
+    init_yaml_node(ctx, value, document, node, 0);
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
-- 
2.43.0


From 621fc0129f134ccd5d46013ebb9454b174a77aa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 38/98] fix: a partial loader without the file has no such
 partial, so partial blocks work with it; its iterations can nest

---
 src/handlebars_partial_loader.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..3a93cc7 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <limits.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -102,14 +103,20 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
 
     f = fopen(hbs_str_val(filename), "rb");
     if( !f ) {
-        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+        // There is no such partial, it may yet be a partial block
+        handlebars_talloc_free(filename);
+        return NULL;
     }
 
     fseek(f, 0, SEEK_END);
     size = ftell(f);
     fseek(f, 0, SEEK_SET);
 
-    char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
+    char * buf = size >= 0 && size < LONG_MAX ? handlebars_talloc_array(intern->user.ctx, char, size + 1) : NULL;
+    if( !buf ) {
+        fclose(f);
+        handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
+    }
     size_t read = fread(buf, size, 1, f);
     fclose(f);
 
@@ -147,7 +154,6 @@ static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterato
 
     if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
         return false;
     }
 
@@ -174,10 +180,6 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
-    if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
-    }
 
     return true;
 }
-- 
2.43.0


From 568752042df920f9a9a6b54f097609a06bd2eab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:17 +0000
Subject: [PATCH 39/98] fix: the top of a protected stack segment could be
 popped

---
 src/handlebars_stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..2bc3545 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -222,7 +222,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
-- 
2.43.0


From 107d6189f180636dcff72dc5d43a2b78ed84a461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 40/98] fix: the compiler's stacks wrote one element past their
 end

---
 src/handlebars_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..d83abad 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
-- 
2.43.0


From e027c0aea2fa01e2f3de774f4d49c7f6ae0ad8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:01 +0000
Subject: [PATCH 41/98] fix: alternate decorators with parameters dereferenced
 NULL

---
 src/handlebars_compiler.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index d83abad..984af8a 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -986,6 +986,10 @@ static inline void handlebars_compiler_accept_decorator(
         subcompiler = talloc_steal(compiler, handlebars_compiler_ctor(CONTEXT));
         program->decorators[program->decorators_length++] = talloc_steal(program, subcompiler->program);
         compiler = subcompiler;
+        handlebars_compiler_set_flags(compiler, handlebars_compiler_get_flags(origcompiler));
+        compiler->bps = origcompiler->bps;
+        compiler->sns = origcompiler->sns;
+        compiler->known_helpers = origcompiler->known_helpers;
 
         origcompiler->program->result_flags |= handlebars_compiler_result_flag_use_decorators;
     } else {
-- 
2.43.0


From 16c566af5e556a2f9e212dc92a9a5d352262a6be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:23 +0000
Subject: [PATCH 42/98] fix: string_params and track_ids dereferenced NULL for
 a partial without context

---
 src/handlebars_ast.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_ast.c b/src/handlebars_ast.c
index 87ca15a..7d2e0d5 100644
--- a/src/handlebars_ast.c
+++ b/src/handlebars_ast.c
@@ -109,6 +109,11 @@ struct handlebars_string * handlebars_ast_node_get_string_mode_value(
             break;
     }
 
+    // The implicit context of a partial has no text
+    if( !string ) {
+        string = handlebars_string_ctor(context, HBS_STRL(""));
+    }
+
     return string;
 }
 
-- 
2.43.0


From 3b05ba4c152d06fe0c5c7d61dad04f3213502f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:16 +0000
Subject: [PATCH 43/98] fix: printing a tree glued block params to the previous
 word

---
 src/handlebars_ast_printer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 8eafb94..f0a7830 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -673,7 +673,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
 
     if (ast_node->node.block.program) {
         if( ast_node->node.block.program->node.program.block_param1 ) {
-            __APPENDS("as |");
+            __APPENDS(" as |");
             __APPEND_STR(ast_node->node.block.program->node.program.block_param1);
             if( ast_node->node.block.program->node.program.block_param2 ) {
                 __APPENDS(" ");
-- 
2.43.0


From d5e4cefb4cef166848cdd4a53186aab087df7722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:30 +0000
Subject: [PATCH 44/98] fix: printing a partial lost parentheses, spaces and ~
 of its tags

---
 src/handlebars_ast_printer.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index f0a7830..e0fd5dc 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -727,6 +727,9 @@ static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_n
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS(">");
 
+    // Subexpressions in arguments are never the outermost call
+    ctx->padding++;
+
     __PRINT(ast_node->node.partial.name);
 
    if( ast_node->node.partial.params != NULL &&
@@ -740,6 +743,8 @@ static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_n
         __PRINT(ast_node->node.partial.hash);
     }
 
+    ctx->padding--;
+
     __APPEND_STRIP_RIGHT(ast_node->strip);
     __APPENDS("}}");
 
@@ -752,15 +757,26 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     ctx->in_partial = true;
 
     // Sexpr
-    __APPENDS("{{#> ");
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
+    __APPENDS("#> ");
+    ctx->padding++;
     _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
     if( ast_node->node.partial_block.params ) {
-        _handlebars_ast_to_string_list(ast_node->node.partial_block.params, ctx);
+        struct handlebars_ast_list_item * item;
+        struct handlebars_ast_list_item * tmp;
+
+        handlebars_ast_list_foreach(ast_node->node.partial_block.params, item, tmp) {
+            __APPENDS(" ");
+            __PRINT(item->data);
+        }
     }
     if( ast_node->node.partial_block.hash ) {
     	__APPENDS(" ");
         _handlebars_ast_to_string(ast_node->node.partial_block.hash, ctx);
     }
+    ctx->padding--;
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.open_strip);
     __APPENDS("}}");
 
     // Program
@@ -769,8 +785,11 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     }
 
     // end
-    __APPENDS("{{/");
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
+    __APPENDS("/");
     _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.close_strip);
     __APPENDS("}}");
 
     ctx->in_partial = false;
-- 
2.43.0


From 35784109490a086fd2287771baf917463d211b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:36 +0000
Subject: [PATCH 45/98] fix: printing a string literal lost its backslashes

---
 src/handlebars_ast_printer.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index e0fd5dc..3a52d9d 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -839,7 +839,8 @@ static void _handlebars_ast_to_string_string(struct handlebars_ast_node * ast_no
         quote[0] = '"';
     }
     __APPEND(quote);
-    struct handlebars_string *tmp = handlebars_string_addcslashes(ctx->ctx, ast_node->node.string.value, quote, 1);
+    const char special[2] = {quote[0], '\\'};
+    struct handlebars_string *tmp = handlebars_string_addcslashes(ctx->ctx, ast_node->node.string.value, special, 2);
     __APPEND_STR(tmp);
     handlebars_talloc_free(tmp);
     __APPEND(quote);
-- 
2.43.0


From e9a01321f0497ae98b7a166b72db07f7d4aa815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:10 +0000
Subject: [PATCH 46/98] fix: printing a path lost the brackets of its segments

---
 src/handlebars_ast_printer.c | 38 +++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 3a52d9d..202e98c 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -889,6 +889,22 @@ static void _handlebars_ast_to_string_hash(struct handlebars_ast_node * ast_node
 
 
 
+static void _handlebars_ast_to_string_path_segment(struct handlebars_ast_node * segment, struct handlebars_ast_printer_context * ctx)
+{
+    struct handlebars_string * part = segment->node.path_segment.part;
+    struct handlebars_string * original = segment->node.path_segment.original;
+
+    if( original && !handlebars_string_eq(part, original) ) {
+        struct handlebars_string * escaped = handlebars_str_replace(CONTEXT, part, HBS_STRL("]"), HBS_STRL("\\]"));
+        __APPENDS("[");
+        __APPEND_STR(escaped);
+        __APPENDS("]");
+        handlebars_string_delref(escaped);
+    } else {
+        __APPEND_STR(part);
+    }
+}
+
 static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only)
 {
     struct handlebars_ast_list * ast_list = ast_node->node.path.parts;
@@ -898,7 +914,27 @@ static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node
     assert(ast_node->node.path.data == 0 || ast_node->node.path.data == 1);
 
     if (ast_node->node.path.original) {
-        __APPEND_STR(ast_node->node.path.original);
+        struct handlebars_string * original = ast_node->node.path.original;
+        size_t prefix = hbs_str_len(original);
+
+        // What comes before the segments (@, ., .., this), then the segments as written
+        if( ast_list ) {
+            handlebars_ast_list_foreach(ast_list, item, tmp) {
+                prefix -= hbs_str_len(item->data->node.path_segment.part);
+                if( item->data->node.path_segment.separator ) {
+                    prefix -= hbs_str_len(item->data->node.path_segment.separator);
+                }
+            }
+        }
+        ctx->output = handlebars_string_append(CONTEXT, ctx->output, hbs_str_val(original), prefix);
+        if( ast_list ) {
+            handlebars_ast_list_foreach(ast_list, item, tmp) {
+                if( item->data->node.path_segment.separator ) {
+                    __APPEND_STR(item->data->node.path_segment.separator);
+                }
+                _handlebars_ast_to_string_path_segment(item->data, ctx);
+            }
+        }
     } else {
         if( ast_node->node.path.data ) {
             __APPENDS("@");
-- 
2.43.0


From 5fd17bb302ec50f0b506d0c849d1ceff9b219e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:52 +0000
Subject: [PATCH 47/98] fix: knownHelpersOnly dereferenced NULL when . is
 called with arguments

---
 src/handlebars_compiler.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 984af8a..94f63b6 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1111,6 +1111,11 @@ static inline void handlebars_compiler_accept_sexpr_helper(
 
     name = handlebars_ast_node_get_id_part(path);
 
+    if( !name ) {
+        // "." and the like
+        name = handlebars_ast_node_get_string_mode_value(CONTEXT, path);
+    }
+
     if( handlebars_compiler_is_known_helper(compiler, path) ) {
         struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_invoke_known_helper);
         handlebars_operand_set_longval(&opcode->op1, handlebars_ast_list_count(params));
-- 
2.43.0


From 07d347d3627a2e4968c302358df6b8ac97a805c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:07 +0000
Subject: [PATCH 48/98] fix: the text of a lambda section showed rewritten
 literals and partials

---
 src/handlebars_compiler.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 94f63b6..54bfd56 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -151,7 +151,7 @@ static inline void handlebars_compiler_accept_sexpr_ambiguous(
         struct handlebars_ast_node * sexpr,
         long programGuid,
         long inverseGuid,
-        struct handlebars_ast_node * programNode
+        struct handlebars_string * text
 );
 
 static inline void handlebars_compiler_accept_hash(
@@ -730,6 +730,7 @@ static inline void handlebars_compiler_accept_block(
     struct handlebars_ast_node * program = block->node.block.program;
     struct handlebars_ast_node * inverse = block->node.block.inverse;
     struct handlebars_ast_node * path = block->node.block.path;
+    struct handlebars_string * text = NULL;
     long programGuid = -1;
     long inverseGuid = -1;
 
@@ -737,6 +738,11 @@ static inline void handlebars_compiler_accept_block(
 
     handlebars_compiler_transform_literal_to_path(compiler, block);
 
+    // Lambdas receive the text of the block as written, compiling it changes the tree
+    if( (compiler->flags & handlebars_compiler_flag_mustache_style_lambdas) && program ) {
+        text = handlebars_ast_to_string(CONTEXT, program);
+    }
+
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
     if( block->node.block.is_decorator ) {
@@ -757,7 +763,7 @@ static inline void handlebars_compiler_accept_block(
 				__OPS(block_value, path->node.path.original);
 				break;
 			case SEXPR_AMBIG:
-				handlebars_compiler_accept_sexpr_ambiguous(compiler, sexpr, programGuid, inverseGuid, program);
+				handlebars_compiler_accept_sexpr_ambiguous(compiler, sexpr, programGuid, inverseGuid, text);
                 push_program_pair(compiler, programGuid, inverseGuid);
 				__OPN(empty_hash);
 				__OPN(ambiguous_block_value);
@@ -1032,7 +1038,7 @@ static inline void handlebars_compiler_accept_sexpr_ambiguous(
         struct handlebars_ast_node * sexpr,
         long programGuid,
         long inverseGuid,
-        struct handlebars_ast_node * programNode
+        struct handlebars_string * text
 ) {
     struct handlebars_ast_node * path;
     struct handlebars_string * name;
@@ -1059,8 +1065,8 @@ static inline void handlebars_compiler_accept_sexpr_ambiguous(
         handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, name);
         handlebars_operand_set_boolval(&opcode->op2, is_block);
         if (compiler->flags & handlebars_compiler_flag_mustache_style_lambdas) {
-            if (programNode) {
-                handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op3, handlebars_ast_to_string(CONTEXT, programNode));
+            if (text) {
+                handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op3, text);
             } else {
                 handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op3, handlebars_string_ctor(CONTEXT, HBS_STRL("")));
             }
-- 
2.43.0


From 6a0cf84cb45594c466c9001b73178163bbd998cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:42 +0000
Subject: [PATCH 49/98] fix: a trailing backslash in a compat template appended
 a NUL byte

---
 src/handlebars_delimiters.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..d529237 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -90,8 +90,10 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 // If current character is a slash, skip one character
                 if( *p == '\\' ) {
                     append(p, 1);
-                    move_forward(1);
-                    append(p, 1);
+                    if( i > 1 ) {
+                        move_forward(1);
+                        append(p, 1);
+                    }
                     continue;
                 }
 
-- 
2.43.0


From d376df541425faa400aec77a10fcfc8a29cbcc06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:16:42 +0000
Subject: [PATCH 50/98] fix: an empty closing delimiter was copied with a
 negative length

---
 src/handlebars_delimiters.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index d529237..4b6c1dd 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -172,9 +172,12 @@ struct handlebars_string * handlebars_preprocess_delimiters(
 
                 // Scan backwards while whitespace
                 pce = p - 1;
-                while( *pce == ' ' ) {
+                while( pce >= pc && *pce == ' ' ) {
                     pce--;
                 }
+                if( pce < pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain two delimiters");
+                }
 
                 // Save new close tag
                 new_close = handlebars_string_ctor(ctx, pc, pce - pc + 1);
-- 
2.43.0


From e7c6def3c17d32f1bd1887aa709af4bb23af410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:09 +0000
Subject: [PATCH 51/98] fix: braces in the text of a template with other
 delimiters were not kept

---
 src/handlebars_delimiters.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 4b6c1dd..782f53f 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -68,14 +68,14 @@ struct handlebars_string * handlebars_preprocess_delimiters(
     const char *po = NULL;
     const char *pc = NULL;
     const char *pce = NULL;
-    int starts_with_bracket = 0;
+    bool brackets = true;
 
     // Initialize/duplicate open/close
     if( open == NULL ) {
         open = handlebars_string_ctor(ctx, HBS_STRL("{{"));
     } else {
         open = handlebars_string_copy_ctor(ctx, open);
-        starts_with_bracket = hbs_str_val(open)[0] == '{';
+        brackets = hbs_str_eq_strl(open, HBS_STRL("{{"));
     }
     if( close == NULL ) {
         close = handlebars_string_ctor(ctx, HBS_STRL("}}"));
@@ -113,9 +113,11 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     state = 2; goto state2;
                 }
 
-                // Escape the bracket if our current custom delims aren't brackets
-                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
+                // Escape the brackets if our current custom delims aren't brackets
+                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !brackets ) {
                     append("\\", 1);
+                    append(p, 1);
+                    move_forward(1);
                 }
 
                 // This is an escape
@@ -200,7 +202,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 open = new_open;
                 close = new_close;
                 new_open = new_close = NULL;
-                starts_with_bracket = hbs_str_val(open)[0] == '{';
+                brackets = hbs_str_eq_strl(open, HBS_STRL("{{"));
 
 #if defined(YYDEBUG)
                 fprintf(stderr, "Delimiter preprocessor: New delimiters: \"%.*s\", \"%.*s\"\n", (int) hbs_str_len(open), hbs_str_val(open), (int) hbs_str_len(close), hbs_str_val(close));
-- 
2.43.0


From 0cde4da043754e61ec3954bec2664976288b8118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:53 +0000
Subject: [PATCH 52/98] fix: strict mode refused helpers that are not also
 fields of the context

---
 src/handlebars_vm.c | 54 +++++++++++++++++++++++++++++++--------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index e85b2b7..1e450e4 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -205,6 +205,22 @@ static inline struct handlebars_value * lookup_helper(
     return rv;
 }
 
+// Is the value being looked up by this opcode only the fallback of a call to a helper that exists
+HBS_ATTR_NONNULL_ALL
+static inline bool is_helper_fallback(struct handlebars_vm * vm, struct handlebars_opcode * opcode)
+{
+    HANDLEBARS_VALUE_DECL(rv);
+    struct handlebars_opcode * next = opcode + 1;
+    bool found = false;
+    if( next->type == handlebars_opcode_type_invoke_helper ) {
+        found = next->op3.data.boolval && NULL != lookup_helper(vm, next->op2.data.string.string, rv);
+    } else if( next->type == handlebars_opcode_type_invoke_ambiguous ) {
+        found = NULL != lookup_helper(vm, next->op1.data.string.string, rv);
+    }
+    HANDLEBARS_VALUE_UNDECL(rv);
+    return found;
+}
+
 HBS_ATTR_NONNULL(1, 4, 5)
 struct handlebars_value * handlebars_vm_call_helper_str(const char * name, unsigned int len, HANDLEBARS_HELPER_ARGS)
 {
@@ -1064,13 +1080,16 @@ ACCEPT_FUNCTION(lookup_data)
         done_and_null:
         if( require_terminal ) {
             done_and_err:
-            handlebars_throw_ex(
-                CONTEXT,
-                HANDLEBARS_ERROR,
-                &opcode->loc,
-                "\"%.*s\" not defined in object",
-                (int) hbs_str_len(arr->string), hbs_str_val(arr->string)
-            );
+            if( !is_helper_fallback(vm, opcode) ) {
+                handlebars_throw_ex(
+                    CONTEXT,
+                    HANDLEBARS_ERROR,
+                    &opcode->loc,
+                    "\"%.*s\" not defined in object",
+                    (int) hbs_str_len(arr->string), hbs_str_val(arr->string)
+                );
+            }
+            handlebars_value_null(val);
         }
     }
 
@@ -1128,17 +1147,18 @@ ACCEPT_FUNCTION(lookup_on_context)
         done_and_null:
         if( require_terminal ) {
             done_and_err:
-            handlebars_throw_ex(
-                CONTEXT,
-                HANDLEBARS_ERROR,
-                &opcode->loc,
-                "\"%.*s\" not defined in object",
-                (int) hbs_str_len(arr->string),
-                hbs_str_val(arr->string)
-            );
-        } else {
-            value = empty_value;
+            if( !is_helper_fallback(vm, opcode) ) {
+                handlebars_throw_ex(
+                    CONTEXT,
+                    HANDLEBARS_ERROR,
+                    &opcode->loc,
+                    "\"%.*s\" not defined in object",
+                    (int) hbs_str_len(arr->string),
+                    hbs_str_val(arr->string)
+                );
+            }
         }
+        value = empty_value;
     }
 
     PUSH(vm->stack, value);
-- 
2.43.0


From c13a7ae78488052916d4c8ede8806c1e5671d268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:45 +0000
Subject: [PATCH 53/98] fix: simple blocks and partials left the operation
 after them to take a value off the caller's stack

---
 src/handlebars_vm.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 1e450e4..ae69a64 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -662,9 +662,8 @@ ACCEPT_FUNCTION(block_value)
     options.name = opcode->op1.data.string.string;
 
     struct handlebars_value * result = handlebars_vm_call_helper_str(HBS_STRL("blockHelperMissing"), argc, argv, &options, vm, rv);
-    if (likely(result != NULL)) {
-        append_to_buffer(vm, result, 0);
-    }
+    assert(result != NULL);
+    PUSH(vm->stack, result);
 
     VM_TEARDOWN_OPTIONS(argc);
     HANDLEBARS_VALUE_UNDECL(rv);
@@ -959,6 +958,10 @@ done:
         HANDLEBARS_VALUE_UNDECL(closure_value);
     }
 
+    // The output is in the buffer already, this is for the append that follows
+    handlebars_value_null(rv);
+    PUSH(vm->stack, rv);
+
     VM_TEARDOWN_OPTIONS(argc);
     HANDLEBARS_VALUE_UNDECL(partial_block);
     HANDLEBARS_VALUE_UNDECL(rv);
-- 
2.43.0


From 6b809d8c95091edd370ac76e22595bbf61c7077f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:27 +0000
Subject: [PATCH 54/98] fix: decimal numbers lost all digits after the sixth

---
 src/handlebars_value.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index d8955c3..46c2025 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -292,7 +292,7 @@ struct handlebars_string * handlebars_value_to_string(
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return handlebars_string_asprintf(context, "%ld", value->v.lval);
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            return handlebars_string_asprintf(context, "%g", value->v.dval);
+            return handlebars_string_asprintf(context, "%.15g", value->v.dval);
         case HANDLEBARS_VALUE_TYPE_TRUE:
             return handlebars_string_ctor(context, HBS_STRL("true"));
         case HANDLEBARS_VALUE_TYPE_FALSE:
@@ -391,7 +391,7 @@ struct handlebars_string * handlebars_value_expression_append(
             break;
 
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            string = handlebars_string_asprintf_append(context, string, "%g", value->v.dval);
+            string = handlebars_string_asprintf_append(context, string, "%.15g", value->v.dval);
             break;
 
         case HANDLEBARS_VALUE_TYPE_INTEGER:
-- 
2.43.0


From fa25497efaf9dfa54556914bb233033acf188cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:07 +0000
Subject: [PATCH 55/98] fix: byte 255 after a NUL made the scanner read past
 its tables

---
 src/handlebars.l     |   6 +++
 src/handlebars.lex.c | 126 ++++++++++++++++++++++---------------------
 src/handlebars.lex.h |   2 +-
 3 files changed, 73 insertions(+), 61 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 199797b..439cc94 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -50,6 +50,12 @@
 #define YY_FATAL_ERROR(msg) handlebars_yy_fatal_error(msg, handlebars_yy_get_extra(yyscanner))
 #endif
 
+/* The tables of --fast end before the entry of byte 255 of the end-of-buffer state, which is looked at when that byte follows
+   a NUL. No rule tells byte 255 from byte 254. */
+#undef YY_SC_TO_UI
+static inline unsigned char handlebars_yy_char_index(unsigned char c) { return c == 0xff ? 0xfe : c; }
+#define YY_SC_TO_UI(c) handlebars_yy_char_index((unsigned char) (c))
+
 #undef YY_INPUT
 #define YY_INPUT(b,r,s) handlebars_yy_input(b, &r, s, handlebars_yy_get_extra(yyscanner))
 
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 3b2c279..09b5d4b 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -5423,6 +5423,12 @@ static const flex_int32_t yy_rule_can_match_eol[54] =
 #define YY_FATAL_ERROR(msg) handlebars_yy_fatal_error(msg, handlebars_yy_get_extra(yyscanner))
 #endif
 
+/* The tables of --fast end before the entry of byte 255 of the end-of-buffer state, which is looked at when that byte follows
+   a NUL. No rule tells byte 255 from byte 254. */
+#undef YY_SC_TO_UI
+static inline unsigned char handlebars_yy_char_index(unsigned char c) { return c == 0xff ? 0xfe : c; }
+#define YY_SC_TO_UI(c) handlebars_yy_char_index((unsigned char) (c))
+
 #undef YY_INPUT
 #define YY_INPUT(b,r,s) handlebars_yy_input(b, &r, s, handlebars_yy_get_extra(yyscanner))
 
@@ -5464,10 +5470,10 @@ static const flex_int32_t yy_rule_can_match_eol[54] =
     yylloc->last_column = yycolumn + yyleng - 1; \
     yycolumn += yyleng; \
    	YY_USER_DEBUG_ACTION;
-#line 5468 "handlebars.lex.c"
+#line 5474 "handlebars.lex.c"
 
 /* From one "-" of a long comment to a later one, without passing "--}}" or "--~}}" */
-#line 5471 "handlebars.lex.c"
+#line 5477 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5746,11 +5752,11 @@ YY_DECL
 		}
 
 	{
-#line 141 "handlebars.l"
+#line 147 "handlebars.l"
 
 
 
-#line 5754 "handlebars.lex.c"
+#line 5760 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5817,7 +5823,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 144 "handlebars.l"
+#line 150 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5830,7 +5836,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 153 "handlebars.l"
+#line 159 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5839,7 +5845,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 159 "handlebars.l"
+#line 165 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5854,7 +5860,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 170 "handlebars.l"
+#line 176 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5865,7 +5871,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 178 "handlebars.l"
+#line 184 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5874,7 +5880,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 184 "handlebars.l"
+#line 190 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5882,7 +5888,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 189 "handlebars.l"
+#line 195 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return INVALID;
@@ -5890,7 +5896,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 194 "handlebars.l"
+#line 200 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5904,7 +5910,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 200 "handlebars.l"
+#line 206 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5913,7 +5919,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 206 "handlebars.l"
+#line 212 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5931,7 +5937,7 @@ YY_RULE_SETUP
 case 11:
 /* rule 11 can match eol */
 YY_RULE_SETUP
-#line 220 "handlebars.l"
+#line 226 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5940,7 +5946,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 226 "handlebars.l"
+#line 232 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5949,7 +5955,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 237 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5962,7 +5968,7 @@ YY_RULE_SETUP
 case 14:
 /* rule 14 can match eol */
 YY_RULE_SETUP
-#line 240 "handlebars.l"
+#line 246 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5973,7 +5979,7 @@ YY_RULE_SETUP
 case 15:
 /* rule 15 can match eol */
 YY_RULE_SETUP
-#line 247 "handlebars.l"
+#line 253 "handlebars.l"
 {
 										// not terminated
 										handlebars_yy_copy_lval();
@@ -5982,7 +5988,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 253 "handlebars.l"
+#line 259 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5991,7 +5997,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 259 "handlebars.l"
+#line 265 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -6000,7 +6006,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 265 "handlebars.l"
+#line 271 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -6009,7 +6015,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 271 "handlebars.l"
+#line 277 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -6020,7 +6026,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 279 "handlebars.l"
+#line 285 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -6029,7 +6035,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 285 "handlebars.l"
+#line 291 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -6038,7 +6044,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 291 "handlebars.l"
+#line 297 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -6047,7 +6053,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 297 "handlebars.l"
+#line 303 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -6057,7 +6063,7 @@ YY_RULE_SETUP
 case 24:
 /* rule 24 can match eol */
 YY_RULE_SETUP
-#line 303 "handlebars.l"
+#line 309 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -6068,7 +6074,7 @@ YY_RULE_SETUP
 case 25:
 /* rule 25 can match eol */
 YY_RULE_SETUP
-#line 310 "handlebars.l"
+#line 316 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -6078,7 +6084,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 317 "handlebars.l"
+#line 323 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -6092,7 +6098,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 323 "handlebars.l"
+#line 329 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -6101,7 +6107,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 329 "handlebars.l"
+#line 335 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -6110,7 +6116,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 335 "handlebars.l"
+#line 341 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -6119,7 +6125,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 341 "handlebars.l"
+#line 347 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6129,7 +6135,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 348 "handlebars.l"
+#line 354 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6139,7 +6145,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 355 "handlebars.l"
+#line 361 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -6148,7 +6154,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 33:
 YY_RULE_SETUP
-#line 361 "handlebars.l"
+#line 367 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -6157,7 +6163,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 367 "handlebars.l"
+#line 373 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -6171,7 +6177,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 373 "handlebars.l"
+#line 379 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -6180,7 +6186,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 379 "handlebars.l"
+#line 385 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -6190,7 +6196,7 @@ YY_RULE_SETUP
 case 37:
 /* rule 37 can match eol */
 YY_RULE_SETUP
-#line 385 "handlebars.l"
+#line 391 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -6198,7 +6204,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 38:
 YY_RULE_SETUP
-#line 390 "handlebars.l"
+#line 396 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6208,7 +6214,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 397 "handlebars.l"
+#line 403 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6219,7 +6225,7 @@ YY_RULE_SETUP
 case 40:
 /* rule 40 can match eol */
 YY_RULE_SETUP
-#line 404 "handlebars.l"
+#line 410 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6232,7 +6238,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 419 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6244,7 +6250,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 422 "handlebars.l"
+#line 428 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -6254,7 +6260,7 @@ YY_RULE_SETUP
 case 43:
 /* rule 43 can match eol */
 YY_RULE_SETUP
-#line 428 "handlebars.l"
+#line 434 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -6263,7 +6269,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 434 "handlebars.l"
+#line 440 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -6277,7 +6283,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 440 "handlebars.l"
+#line 446 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -6291,7 +6297,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 446 "handlebars.l"
+#line 452 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -6305,7 +6311,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 452 "handlebars.l"
+#line 458 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -6319,7 +6325,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 458 "handlebars.l"
+#line 464 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -6333,7 +6339,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 464 "handlebars.l"
+#line 470 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -6347,7 +6353,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 471 "handlebars.l"
+#line 477 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -6357,7 +6363,7 @@ YY_RULE_SETUP
 case 51:
 /* rule 51 can match eol */
 YY_RULE_SETUP
-#line 477 "handlebars.l"
+#line 483 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6370,7 +6376,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 487 "handlebars.l"
+#line 493 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6383,7 +6389,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 493 "handlebars.l"
+#line 499 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6391,10 +6397,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 498 "handlebars.l"
+#line 504 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6398 "handlebars.lex.c"
+#line 6404 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7602,6 +7608,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 498 "handlebars.l"
+#line 504 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index b81ed15..fd07d8b 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 498 "handlebars.l"
+#line 504 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From 2a59e7e2490dd429a7a7dfcea66ab4a41e2b63f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:11 +0000
Subject: [PATCH 56/98] fix: dynamic partials without context took the null
 context for their name with explicit_partial_context

---
 src/handlebars_compiler.c | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 54bfd56..2e10c5e 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -842,12 +842,7 @@ static inline void _handlebars_compiler_accept_partial(
             "Unsupported number of partial arguments"
         );
     } else if( !params || !handlebars_ast_list_count(params) ) {
-    	if( compiler->flags & handlebars_compiler_flag_explicit_partial_context ) {
-            struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
-            handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
-            __PUSH(opcode);
-    		//__OPS(push_literal, "undefined";
-    	} else {
+    	if( !(compiler->flags & handlebars_compiler_flag_explicit_partial_context) ) {
 			if( !params ) {
 				params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
 				if( node->type == HANDLEBARS_AST_NODE_PARTIAL ) {
@@ -869,6 +864,13 @@ static inline void _handlebars_compiler_accept_partial(
     	handlebars_compiler_accept(compiler, name);
     }
 
+    // The context is above the name on the stack
+    if( !count && (compiler->flags & handlebars_compiler_flag_explicit_partial_context) ) {
+        struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
+        handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
+        __PUSH(opcode);
+    }
+
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
     handlebars_compiler_setup_full_mustache_params(compiler, node, programGuid, -1, 1);
-- 
2.43.0


From 13f647138f27e2aa9b3ac1e8ba182ad6978a2a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 57/98] fix: a fifth hash argument made the machine release its
 hash twice

---
 src/handlebars_vm.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index ae69a64..cf01c39 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -641,9 +641,7 @@ ACCEPT_FUNCTION(assign_to_hash)
     assert(opcode->op1.type == handlebars_operand_type_string);
     assert(handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP);
 
-    struct handlebars_map * map = handlebars_value_get_map(hash);
-    map = handlebars_map_update(map, opcode->op1.data.string.string, value);
-    handlebars_value_map(hash, map);
+    handlebars_value_map_update(hash, opcode->op1.data.string.string, value);
 
     PUSH(vm->hashStack, hash);
 
-- 
2.43.0


From 616e5d7f7e08797cdeefba533f16dd419918a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 58/98] fix: string search took bytes after a NUL for equal

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 76a2de1..9a75af1 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -383,7 +383,7 @@ const char * handlebars_strnstr(const char * haystack, size_t haystack_len, cons
     }
 
     for( ; haystack <= end; haystack++ ) {
-        if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
+        if( haystack[0] == needle[0] && memcmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
         }
     }
-- 
2.43.0


From 61310870eaeacbd09f08e042da84e90594ff3df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 59/98] fix: truncating a string from beyond its end moved
 memory out of bounds

---
 src/handlebars_string.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 9a75af1..cb30964 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -351,6 +351,11 @@ struct handlebars_string * handlebars_string_truncate(
         string->len = end;
     }
 
+    // Nothing is left of the right end
+    if (start > string->len) {
+        start = string->len;
+    }
+
     // Truncate left
     if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
-- 
2.43.0


From bf86eba21fe28ea33acc66f57f451ffb8a302514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 60/98] fix: appending a string to itself read freed memory

---
 src/handlebars_string.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index cb30964..205558e 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -315,7 +315,13 @@ struct handlebars_string * handlebars_string_append_str(
     struct handlebars_string * string,
     const struct handlebars_string * string2
 ) {
-    return handlebars_string_append(context, string, string2->val, string2->len);
+    size_t len = string2->len;
+    if( string == string2 ) {
+        // The string may move while it is extended
+        string = handlebars_string_extend(context, separate_string(string), len + len);
+        string2 = string;
+    }
+    return handlebars_string_append(context, string, string2->val, len);
 }
 
 struct handlebars_string * handlebars_string_compact(struct handlebars_string * string) {
-- 
2.43.0


From e59c3515b244520f710129eaaed53cb13961c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 61/98] fix: a stack that was resized lost its protected mark

---
 src/handlebars_stack.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 2bc3545..00fab04 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -143,6 +143,7 @@ struct handlebars_stack * handlebars_stack_copy_ctor(struct handlebars_stack * p
     }
 
     struct handlebars_stack * stack = handlebars_stack_ctor(prev_stack->ctx, new_capacity);
+    stack->protect = prev_stack->protect;
     for ( size_t i = 0; i < prev_stack->i; i++ ) {
         handlebars_value_init(&stack->v[i]);
         handlebars_value_value(&stack->v[i], &prev_stack->v[i]);
-- 
2.43.0


From 8660d57cc996aaffc4528547b02dcba5faea89c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:56 +0000
Subject: [PATCH 62/98] fix: a failed set on a shared stack released the
 reference of its owner

---
 src/handlebars_stack.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 00fab04..105fc86 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -261,9 +261,6 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return handlebars_stack_push(stack, value);
     }
 
-    // Separate if refcount > 1
-    stack = stack_separate(stack);
-
     // Out-of-bounds
     if( offset >= stack->i ) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Out-of-bounds %zu/%zu", offset, stack->i);
@@ -279,6 +276,9 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return stack;
     }
 
+    // Separate if refcount > 1, nothing fails anymore
+    stack = stack_separate(stack);
+
     handlebars_value_value(&stack->v[offset], value);
 
     return stack;
-- 
2.43.0


From 270612ebc8c2dc2857df417b59264f6a1ffc0477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 63/98] fix: pushing an element of a stack to that stack read
 freed memory when it was resized

---
 src/handlebars_stack.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 105fc86..850b9e0 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -199,8 +199,15 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         size_t capacity = (stack->capacity | 3) * 3 / 2;
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
-        handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
+
+        // The value may be an element of the previous stack
+        handlebars_value_init(&stack->v[stack->i]);
+        handlebars_value_value(&stack->v[stack->i], value);
+        stack->i++;
+
+        handlebars_stack_delref(prev_stack);
+        return stack;
     }
 
     handlebars_value_init(&stack->v[stack->i]);
-- 
2.43.0


From 7947e26019a21917e173cd8f98af63e9163dbcd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 64/98] fix: adding a key twice to a shared map released the
 reference of its owner

---
 src/handlebars_map.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index b686c34..09b86de 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -399,12 +399,21 @@ void handlebars_map_dtor(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // Fail before the map is replaced, the owner would be left with the previous one
+    struct ht_find_result o = map_find_entry(map, key);
+    if (o.entry_found) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
     // Rehash
+    struct handlebars_map * prev_map = map;
     map = handlebars_map_rehash(map, false);
 
     // Add
-    struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found || map->vec_offset >= map->vec_capacity) {
+    if (map != prev_map) {
+        o = map_find_entry(map, key);
+    }
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
-- 
2.43.0


From 40304e4201e66dc519104975cdb1ea48805b31d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:14 +0000
Subject: [PATCH 65/98] fix: a string that continues after "0" and a NUL was
 taken for "0"

---
 src/handlebars_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 46c2025..01dd3b6 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -247,7 +247,7 @@ bool handlebars_value_get_boolval(struct handlebars_value * value)
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return value->v.lval != 0;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            return hbs_str_len(value->v.string) != 0 && strcmp(hbs_str_val(value->v.string), "0") != 0;
+            return hbs_str_len(value->v.string) != 0 && !hbs_str_eq_strl(value->v.string, HBS_STRL("0"));
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             return handlebars_stack_count(value->v.stack) != 0;
         case HANDLEBARS_VALUE_TYPE_MAP:
-- 
2.43.0


From a6a5e2de006ab3304ca85a16329df5d734279499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:04 +0000
Subject: [PATCH 66/98] fix: storing an element of a map in the same map read
 freed memory when it was resized

---
 src/handlebars_map.c | 66 ++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 27 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 09b86de..20cfae6 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -397,32 +397,48 @@ void handlebars_map_dtor(struct handlebars_map * map)
     handlebars_talloc_free(map);
 }
 
-struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
-{
-    // Fail before the map is replaced, the owner would be left with the previous one
-    struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found) {
-        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
-    }
+static struct handlebars_map * map_insert(
+    struct handlebars_map * map,
+    struct handlebars_string * key,
+    struct handlebars_value * value,
+    struct ht_find_result o,
+    const char * msg
+) {
+    HANDLEBARS_VALUE_DECL(tmp);
+    struct handlebars_map * prev_map = map;
+
+    // The value may be an element of the map, which is released when it is replaced
+    handlebars_value_value(tmp, value);
 
     // Rehash
-    struct handlebars_map * prev_map = map;
     map = handlebars_map_rehash(map, false);
-
-    // Add
     if (map != prev_map) {
         o = map_find_entry(map, key);
     }
+
     if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
-        // this should never happen - unless rehash locked due to iteration
-        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+        // This should never happen - unless rehash locked due to iteration
+        HANDLEBARS_VALUE_UNDECL(tmp);
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "%s", msg);
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, tmp, o.empty_offset);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return map;
 }
 
+struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
+{
+    // Fail before the map is replaced, the owner would be left with the previous one
+    struct ht_find_result o = map_find_entry(map, key);
+    if (o.entry_found) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
+    return map_insert(map, key, value, o, "Failed to add to hash table");
+}
+
 struct handlebars_map * handlebars_map_remove(struct handlebars_map * map, struct handlebars_string * key)
 {
     // Rehash
@@ -463,25 +479,21 @@ struct handlebars_value * handlebars_map_find(struct handlebars_map * map, struc
 
 struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
-    // Rehash
-    map = handlebars_map_rehash(map, false);
-
     // Update
     struct ht_find_result o = map_find_entry(map, key);
-    struct handlebars_map_entry * entry = o.entry;
-    if (entry) {
-        handlebars_value_value(&entry->value, value);
+    if (o.entry) {
+#ifndef HANDLEBARS_NO_REFCOUNT
+        // Separate, the previous map stays with its other owners
+        if (handlebars_rc_refcount(&map->rc) > 1) {
+            map = handlebars_map_rehash(map, true);
+            o = map_find_entry(map, key);
+        }
+#endif
+        handlebars_value_value(&o.entry->value, value);
         return map;
     }
 
-    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
-        // This should never happen - unless rehash locked due to iteration
-        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
-    }
-
-    map_add_at_table_offset(map, key, value, o.empty_offset);
-
-    return map;
+    return map_insert(map, key, value, o, "Failed to update to hash table");
 }
 
 extern inline size_t handlebars_map_count(struct handlebars_map * map) {
-- 
2.43.0


From 8b7deeac561964134baee00594b5627008c4ce7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:20 +0000
Subject: [PATCH 67/98] fix: an array or map stored in itself contained itself
 without end

---
 src/handlebars_value.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 01dd3b6..db76883 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -605,13 +605,21 @@ long handlebars_value_count(struct handlebars_value * value)
 void handlebars_value_array_set(struct handlebars_value * value, size_t index, struct handlebars_value * child)
 {
     assert(value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
-    value->v.stack = handlebars_stack_set(value->v.stack, index, child);
+    // The child may be the array itself, which then has to be separated
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, child);
+    value->v.stack = handlebars_stack_set(value->v.stack, index, tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
 void handlebars_value_array_push(struct handlebars_value * value, struct handlebars_value * child)
 {
     assert(value->type == HANDLEBARS_VALUE_TYPE_ARRAY);
-    value->v.stack = handlebars_stack_push(value->v.stack, child);
+    // The child may be the array itself, which then has to be separated
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, child);
+    value->v.stack = handlebars_stack_push(value->v.stack, tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
 struct handlebars_value * handlebars_value_array_find(
@@ -689,7 +697,11 @@ void handlebars_value_map_update(struct handlebars_value * value, struct handleb
         abort();
     }
 
-    value->v.map = handlebars_map_update(value->v.map, key, child);
+    // The child may be the map itself, which then has to be separated
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, child);
+    value->v.map = handlebars_map_update(value->v.map, key, tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
 // }}} Map
-- 
2.43.0


From 80bd85ed8f1c2c7534bb1355e5f12a3e4aa90362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:05 +0000
Subject: [PATCH 68/98] fix: a string that had been compacted could not be
 released

---
 src/handlebars_string.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 205558e..2af0aa3 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -329,6 +329,7 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
         string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        talloc_set_type(string, struct handlebars_string);
     }
     return string;
 }
-- 
2.43.0


From 56ce8d71435fc5659c6c96c190364809838775c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:13 +0000
Subject: [PATCH 69/98] fix: printing an empty path segment or text freed it

---
 src/handlebars_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 2af0aa3..fe2de97 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -445,7 +445,7 @@ struct handlebars_string * handlebars_str_replace(
     const char * last_tok = string->val;
 
     if( search_len <= 0 || string->len <= 0 ) {
-        return (struct handlebars_string *) string;
+        return handlebars_string_copy_ctor(context, string);
     }
 
     struct handlebars_string *new_string = handlebars_string_init(context, string->len * 4 + 1);
-- 
2.43.0


From 844f57f19bb0eedd2c336864e6ade356365241d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:12 +0000
Subject: [PATCH 70/98] fix: quoted YAML scalars and null were not strings and
 null

---
 src/handlebars_yaml.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 32b65f8..a1ae9f3 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -84,17 +84,15 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
             break;
         }
         case YAML_SCALAR_NODE:
-            if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
+            if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE ) {
+                // A quoted scalar is a string, whatever it looks like
+                handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
-            } else if( node->data.scalar.length == 0 ) {
-                // Nothing is null, but a pair of quotes is an empty string
-                if( node->data.scalar.style == YAML_PLAIN_SCALAR_STYLE ) {
-                    handlebars_value_null(value);
-                } else {
-                    handlebars_value_str(value, handlebars_string_ctor(ctx, HBS_STRL("")));
-                }
+            } else if( node->data.scalar.length == 0 || 0 == strcmp((const char *) node->data.scalar.value, "null") || 0 == strcmp((const char *) node->data.scalar.value, "~") ) {
+                handlebars_value_null(value);
             } else {
                 long lval;
                 double dval;
-- 
2.43.0


From 652ba7e3bbc29dc6f0cc27257439594d3948bdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:18 +0000
Subject: [PATCH 71/98] fix: YAML words like nan and infinity became numbers

---
 src/handlebars_yaml.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index a1ae9f3..6776b1a 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -19,6 +19,7 @@
 #include "config.h"
 #endif
 
+#include <math.h>
 #include <yaml.h>
 
 #include "handlebars.h"
@@ -104,7 +105,7 @@ static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_val
                 }
                 // Double
                 dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
+                if( !*end && isfinite(dval) ) {
                     handlebars_value_float(value, dval);
                     goto done;
                 }
-- 
2.43.0


From a56493bb5f7db7e4ef45abf142d4dd6eaa59db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:34 +0000
Subject: [PATCH 72/98] fix: converting a native container did not convert its
 elements

---
 src/handlebars_value.c | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index db76883..2aef912 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -310,10 +310,27 @@ void handlebars_value_convert_ex(struct handlebars_value * value, bool recurse)
                 handlebars_value_get_handlers(value)->convert(value, recurse);
             }
             break;
+        // The iterator has copies of the elements
         case HANDLEBARS_VALUE_TYPE_MAP:
+            HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
+                HANDLEBARS_VALUE_DECL(tmp);
+                handlebars_value_value(tmp, child);
+                handlebars_value_convert_ex(tmp, recurse);
+                if( !handlebars_value_eq(tmp, child) ) {
+                    handlebars_value_map_update(value, key, tmp);
+                }
+                HANDLEBARS_VALUE_UNDECL(tmp);
+            } HANDLEBARS_VALUE_FOREACH_END();
+            break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            HANDLEBARS_VALUE_FOREACH(value, child) {
-                handlebars_value_convert_ex(child, recurse);
+            HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
+                HANDLEBARS_VALUE_DECL(tmp);
+                handlebars_value_value(tmp, child);
+                handlebars_value_convert_ex(tmp, recurse);
+                if( !handlebars_value_eq(tmp, child) ) {
+                    handlebars_value_array_set(value, index, tmp);
+                }
+                HANDLEBARS_VALUE_UNDECL(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
             break;
         default:
-- 
2.43.0


From c67e1d37ae9b188193c8f21d100ceb762f908e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:00 +0000
Subject: [PATCH 73/98] fix: the index did not advance when a JSON object is
 iterated

---
 src/handlebars_json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 4f483bf..eb7fa7b 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -187,6 +187,7 @@ static bool hbs_json_iterator_next_object(struct handlebars_value_iterator * it)
         return false;
     }
 
+    it->index++;
     it->usr = (void *) (entry = entry->next);
     tmp = (char *) entry->k;
     it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
-- 
2.43.0


From 7645890caae10dfcae0e3fb7fd272501fdb9363b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 74/98] fix: a JSON number was rejected without a terminator
 after it

---
 src/handlebars_json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index eb7fa7b..15cbdac 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -331,6 +331,10 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
     }
 
 	obj = json_tokener_parse_ex(tok, str, length);
+	if (tok->err == json_tokener_continue) {
+		// Without a terminator, the end of a number is only known at the end of the input
+		obj = json_tokener_parse_ex(tok, "", 1);
+	}
 	*error = tok->err;
 	if (tok->err != json_tokener_success) {
 		if (obj != NULL) {
-- 
2.43.0


From a129f12d8f3ce618e79369e9563977ee778c7954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:30 +0000
Subject: [PATCH 75/98] fix: a JSON object reached twice was a different
 context

---
 src/handlebars_json.c           | 9 ++++++++-
 src/handlebars_value.c          | 6 +++++-
 src/handlebars_value_handlers.h | 3 +++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 15cbdac..bfd4d10 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -269,6 +269,12 @@ static long hbs_json_count(struct handlebars_value * value)
 
 }
 
+static bool hbs_json_eq(struct handlebars_value * value, struct handlebars_value * value2)
+{
+    // Every access makes a new value for the same object
+    return HANDLEBARS_JSON_OBJ(value) == HANDLEBARS_JSON_OBJ(value2);
+}
+
 static const struct handlebars_value_handlers handlebars_value_hbs_json_handlers = {
     "json",
     &hbs_json_copy,
@@ -279,7 +285,8 @@ static const struct handlebars_value_handlers handlebars_value_hbs_json_handlers
     &hbs_json_array_find,
     &hbs_json_iterator_init,
     NULL, // call
-    &hbs_json_count
+    &hbs_json_count,
+    &hbs_json_eq
 };
 
 void handlebars_value_init_json_object(struct handlebars_context * ctx, struct handlebars_value * value, struct json_object *json)
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 2aef912..0aacc0a 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -368,7 +368,11 @@ bool handlebars_value_eq(
         case HANDLEBARS_VALUE_TYPE_MAP:
             return value->v.map == value2->v.map;
         case HANDLEBARS_VALUE_TYPE_USER:
-            return value->v.user == value2->v.user;
+            return value->v.user == value2->v.user || (
+                value->v.user->handlers == value2->v.user->handlers &&
+                value->v.user->handlers->eq &&
+                value->v.user->handlers->eq(value, value2)
+            );
         case HANDLEBARS_VALUE_TYPE_HELPER:
             return value->v.helper == value2->v.helper;
         case HANDLEBARS_VALUE_TYPE_PTR:
diff --git a/src/handlebars_value_handlers.h b/src/handlebars_value_handlers.h
index 8ef5202..6eead8a 100644
--- a/src/handlebars_value_handlers.h
+++ b/src/handlebars_value_handlers.h
@@ -39,6 +39,7 @@ typedef struct handlebars_value * (*handlebars_array_find_func)(struct handlebar
 typedef bool (*handlebars_iterator_init_func)(struct handlebars_value_iterator * it, struct handlebars_value * value);
 typedef struct handlebars_value * (*handlebars_call_func)(struct handlebars_value * value, HANDLEBARS_FUNCTION_ARGS);
 typedef long (*handlebars_count_func)(struct handlebars_value * value);
+typedef bool (*handlebars_eq_func)(struct handlebars_value * value, struct handlebars_value * value2);
 
 void handlebars_user_init(struct handlebars_user * user, struct handlebars_context * ctx, const struct handlebars_value_handlers * handlers)
     HBS_ATTR_NONNULL_ALL;
@@ -84,6 +85,8 @@ struct handlebars_value_handlers {
     handlebars_iterator_init_func iterator;
     handlebars_call_func call;
     handlebars_count_func count;
+    //! Optional. Whether two values of this type are the same object
+    handlebars_eq_func eq;
 };
 
 HBS_EXTERN_C_END
-- 
2.43.0


From 643fe5fea72878c0444a29780a6cd06a541df226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:02 +0000
Subject: [PATCH 76/98] fix: the in-memory cache referred to keys that were
 gone

The key of an entry can belong to the rendering that added it (with the
compat flag it always does) or to a VM that the cache outlives.
---
 src/handlebars_cache_simple.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..f02f2b0 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -160,7 +160,8 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
     struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
     handlebars_value_ptr(value, uptr);
 
-    intern->map = handlebars_map_add(intern->map, tmpl, value);
+    // The key may go away before the cache does
+    intern->map = handlebars_map_add(intern->map, handlebars_string_copy_ctor(HBSCTX(cache), tmpl), value);
 
     // Update master
     stat->current_entries++;
-- 
2.43.0


From c216f4afb389e9caa0c208ac378cc38b2b1fb4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 77/98] fix: the in-memory cache freed programs that were being
 executed

A nested partial that is added can start a garbage collection, which freed
the least recently used entry although it was being executed, and so did a
reset. An entry found is now in use until it is released, and the program
that was just added is held while it is executed.
---
 src/handlebars_cache_simple.c | 60 ++++++++++++++++++++++++++++-------
 src/handlebars_vm.c           |  6 ++++
 2 files changed, 55 insertions(+), 11 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index f02f2b0..b54bacb 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -43,6 +43,12 @@ struct handlebars_cache_simple {
     struct handlebars_cache_stat stat;
 };
 
+//! An entry, it must stay where it is until everyone who found it has released it
+struct handlebars_cache_simple_entry {
+    struct handlebars_module * module;
+    size_t refcount;
+};
+
 static inline bool should_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
@@ -70,13 +76,13 @@ static int cache_compare(const struct handlebars_map_kv_pair * pair1, const stru
     assert(pair1->value != NULL);
     assert(pair2->value != NULL);
 
-    struct handlebars_module * entry1 = handlebars_value_get_ptr(pair1->value, struct handlebars_module);
-    struct handlebars_module * entry2 = handlebars_value_get_ptr(pair2->value, struct handlebars_module);
+    struct handlebars_cache_simple_entry * entry1 = handlebars_value_get_ptr(pair1->value, struct handlebars_cache_simple_entry);
+    struct handlebars_cache_simple_entry * entry2 = handlebars_value_get_ptr(pair2->value, struct handlebars_cache_simple_entry);
 
     assert(entry1 != NULL);
     assert(entry2 != NULL);
 
-    delta = difftime(entry1->ts, entry2->ts);
+    delta = difftime(entry1->module->ts, entry2->module->ts);
     return (delta > 0) - (delta < 0);
 }
 
@@ -97,7 +103,11 @@ static int cache_gc(struct handlebars_cache * cache)
     intern->map = map = handlebars_map_sort(map, cache_compare);
 
     handlebars_map_foreach(map, index, key, value) {
-        struct handlebars_module * module = handlebars_value_get_ptr(value, struct handlebars_module);
+        struct handlebars_cache_simple_entry * entry = handlebars_value_get_ptr(value, struct handlebars_cache_simple_entry);
+        struct handlebars_module * module = entry->module;
+        if( entry->refcount > 0 ) {
+            continue;
+        }
         if( should_gc_entry(cache, module, now) ) {
             handlebars_string_addref(key);
             remove_keys[remove_keys_i++] = key;
@@ -131,8 +141,10 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_value * value = handlebars_map_find(map, tmpl);
     struct handlebars_module * module = NULL;
     if( value ) {
-        // module = (struct handlebars_module *) value->v.ptr;
-        module = handlebars_value_get_ptr(value, struct handlebars_module);
+        struct handlebars_cache_simple_entry * entry = handlebars_value_get_ptr(value, struct handlebars_cache_simple_entry);
+        module = entry->module;
+        entry->refcount++;
+        intern->stat.refcount++;
         assert(handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_PTR);
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
         time(&module->ts);
@@ -143,6 +155,9 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     return module;
 }
 
+#undef CONTEXT
+#define CONTEXT HBSCTX(cache)
+
 static void cache_add(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
@@ -156,8 +171,9 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
     time(&module->ts);
 
-    module = talloc_steal(cache, module);
-    struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
+    struct handlebars_cache_simple_entry * entry = MC(handlebars_talloc_zero(cache, struct handlebars_cache_simple_entry));
+    entry->module = talloc_steal(entry, module);
+    struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_cache_simple_entry, entry, false);
     handlebars_value_ptr(value, uptr);
 
     // The key may go away before the cache does
@@ -172,7 +188,15 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    struct handlebars_value * value = handlebars_map_find(intern->map, tmpl);
+    if( value ) {
+        struct handlebars_cache_simple_entry * entry = handlebars_value_get_ptr(value, struct handlebars_cache_simple_entry);
+        if( entry->module == module && entry->refcount > 0 ) {
+            entry->refcount--;
+            intern->stat.refcount--;
+        }
+    }
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
@@ -187,10 +211,24 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    handlebars_talloc_free(intern->map);
-    intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
+    struct handlebars_map * prev_map = intern->map;
+    struct handlebars_map * map = handlebars_map_ctor(HBSCTX(cache), 32);
 
     memset(&intern->stat, 0, sizeof(intern->stat));
+
+    // Keep what is being executed
+    handlebars_map_foreach(prev_map, index, key, value) {
+        struct handlebars_cache_simple_entry * entry = handlebars_value_get_ptr(value, struct handlebars_cache_simple_entry);
+        if( entry->refcount > 0 ) {
+            map = handlebars_map_add(map, key, value);
+            intern->stat.current_entries++;
+            intern->stat.current_size += entry->module->size;
+            intern->stat.refcount += entry->refcount;
+        }
+    } handlebars_map_foreach_end(prev_map);
+
+    intern->map = map;
+    handlebars_map_dtor(prev_map);
 }
 
 #undef CONTEXT
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index cf01c39..f7bedc5 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -441,6 +441,12 @@ static struct handlebars_string * execute_template(
         // Save cache entry
         if( use_cache ) {
             handlebars_cache_add(vm->cache, tmpl, module);
+            // The cache may own the module now, hold it while it is executed
+            struct handlebars_module * cached = handlebars_cache_find(vm->cache, tmpl);
+            if( cached ) {
+                module = cached;
+                from_cache = true;
+            }
         }
 
         // Cleanup parser
-- 
2.43.0


From 4028f468504a6bed9b4132b0836705910bcafa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 78/98] fix: the shared-memory cache returned expired programs

They were also not counted as in use, although they are released after they
were executed.
---
 src/handlebars_cache_mmap.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..b5f5ff9 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -307,11 +307,15 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
         lock(cache);
         protect(cache, false);
-        table_unset(intern, key);
-        intern->misses++;
-        intern->table_entries--;
+        // Someone else may have been faster
+        if( table_find(intern, key) == entry ) {
+            table_unset(intern, key);
+            intern->table_entries--;
+        }
         protect(cache, true);
         unlock(cache);
+        INCR(intern->misses);
+        module = NULL;
         goto error;
     }
 
-- 
2.43.0


From b09f08913d8f495bf74096e85d5b269da59bb943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:54 +0000
Subject: [PATCH 79/98] fix: the shared-memory cache counted entries that did
 not fit

Also refuse a segment that has no room for data, whose size was computed as
a huge number, and a table without slots, which divided by zero.
---
 src/handlebars_cache_mmap.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index b5f5ff9..977a094 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -196,14 +196,11 @@ static inline struct table_entry * table_find(struct handlebars_cache_mmap * int
     return intern->table[offset];
 }
 
-static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
+static inline bool table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
-    }
+    intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
+    return intern->table[offset] != NULL;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
@@ -365,19 +362,19 @@ static void cache_add(
     // Copy data
     entry.data = append(intern, (void *) module, module->size);
 
-    // Check for failure
-    if( unlikely(!entry.key || !entry.data) ) {
+    // Pre-patch pointers
+    if( likely(entry.key && entry.data) ) {
+        handlebars_module_patch_pointers(entry.data);
+    }
+
+    // Finish, or check for failure
+    if( unlikely(!entry.key || !entry.data || !table_set(intern, &entry)) ) {
         protect(cache, true);
         unlock(cache);
         cache_reset(cache);
         return;
     }
 
-    // Pre-patch pointers
-    handlebars_module_patch_pointers(entry.data);
-
-    // Finish;
-    table_set(intern, &entry);
     intern->table_entries++;
 
 error:
@@ -452,8 +449,8 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     size_t table_size = handlebars_align_size(entries * sizeof(struct table_entry *), page_size);
     size_t data_size = shm_size - table_size - intern_size;
 
-    if( table_size >= shm_size ) {
-        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table size must not be greater than segment size");
+    if( entries <= 0 || table_size + intern_size >= shm_size ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table size must not be zero, nor greater than segment size");
     }
 
     struct handlebars_cache_mmap * intern = mmap(NULL, shm_size, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
-- 
2.43.0


From 368120dfc90072d205f6c5c28190518b23511b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:14 +0000
Subject: [PATCH 80/98] fix: the shared-memory cache could be reset while a
 program was being looked up

A reader published its reference only after it had read the table, so a
reset in another process could clear or overwrite the program it was
about to return. Two resets at once also ended each other's protection.
---
 src/handlebars_cache_mmap.c | 48 +++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 977a094..f45f8ff 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -62,9 +62,21 @@
 #ifdef HAVE_ATOMIC_BUILTINS
 #define INCR(var) __atomic_add_fetch(&var, 1, __ATOMIC_SEQ_CST)
 #define DECR(var) __atomic_sub_fetch(&var, 1, __ATOMIC_SEQ_CST)
+#define LOAD(var) __atomic_load_n(&var, __ATOMIC_SEQ_CST)
+#define STORE(var, val) __atomic_store_n(&var, val, __ATOMIC_SEQ_CST)
+#define EXCHANGE(var, val) __atomic_exchange_n(&var, val, __ATOMIC_SEQ_CST)
 #else
 #define INCR(var) lock(cache); var++; unlock(cache)
 #define DECR(var) lock(cache); var--; unlock(cache)
+#define LOAD(var) (var)
+#define STORE(var, val) (var) = (val)
+#define EXCHANGE(var, val) exchange(&var, val)
+static inline bool exchange(bool * var, bool val)
+{
+    bool prev = *var;
+    *var = val;
+    return prev;
+}
 #endif
 
 
@@ -193,20 +205,22 @@ static inline void unlock(struct handlebars_cache * cache)
 static inline struct table_entry * table_find(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
-    return intern->table[offset];
+    return LOAD(intern->table[offset]);
 }
 
 static inline bool table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
-    return intern->table[offset] != NULL;
+    struct table_entry * copy = append(intern, entry, sizeof(struct table_entry));
+    // The entry is visible to other processes from here on
+    STORE(intern->table[offset], copy);
+    return copy != NULL;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
-    intern->table[offset] = NULL;
+    STORE(intern->table[offset], NULL);
 }
 
 static int cache_dtor(struct handlebars_cache * cache)
@@ -225,8 +239,10 @@ static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
-    // Lock
-    intern->in_reset = true;
+    // Lock, unless someone else is already resetting
+    if( EXCHANGE(intern->in_reset, true) ) {
+        return;
+    }
 
     // Try to wait for refcount to empty
 #ifdef HAVE_ATOMIC_BUILTINS
@@ -260,7 +276,7 @@ static void cache_reset(struct handlebars_cache * cache)
 
 error:
     // Unlock
-    intern->in_reset = false;
+    STORE(intern->in_reset, false);
 }
 
 static int cache_gc(struct handlebars_cache * cache)
@@ -275,9 +291,12 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_module * module = NULL;
     time_t now;
 
+    // A reset waits for this, so it must be visible before we look at the table
+    INCR(intern->refcount);
+
     // Currently resetting
-    if( intern->in_reset ) {
-        return NULL;
+    if( LOAD(intern->in_reset) ) {
+        goto error;
     }
 
     // Find entry
@@ -312,20 +331,23 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         protect(cache, true);
         unlock(cache);
         INCR(intern->misses);
-        module = NULL;
         goto error;
     }
 
     // Check for pointer mismatch
     if( unlikely((void *) module != module->addr) ) {
+        DECR(intern->refcount);
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
     }
 
     INCR(intern->hits);
-    INCR(intern->refcount);
 
-error:
+    // Keep the reference until release
     return module;
+
+error:
+    DECR(intern->refcount);
+    return NULL;
 }
 
 static void cache_add(
@@ -337,7 +359,7 @@ static void cache_add(
     struct table_entry entry;
 
     // Currently resetting
-    if( intern->in_reset ) {
+    if( LOAD(intern->in_reset) ) {
         return;
     }
 
-- 
2.43.0


From 3b1350ee3aa98c4d995dc709598d0834b2fdc259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:02 +0000
Subject: [PATCH 81/98] fix: the on-disk cache did not collect, reset or tell
 long templates apart

Garbage collection and reset aborted their transactions, templates that do
not fit into a key shared a record when their hashes coincided, a template
of exactly the maximum key size could not be stored, damaged records were
read beyond their end, a full database made rendering fail, and a failed
commit freed the transaction twice.
---
 src/handlebars_cache_lmdb.c | 134 +++++++++++++++++++++++++-----------
 1 file changed, 94 insertions(+), 40 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..ebdc54f 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -61,6 +61,27 @@ static int cache_dtor(struct handlebars_cache * cache)
     return 0;
 }
 
+//! Returns the number of bytes of the template that have to be stored along with the module, because the template
+//! does not fit into a key and is identified by its hash only
+static size_t make_key(
+    struct handlebars_cache_lmdb * intern,
+    struct handlebars_string * tmpl,
+    char * tmp,
+    size_t tmp_size,
+    MDB_val * key
+) {
+    if( hbs_str_len(tmpl) >= (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+        snprintf(tmp, tmp_size, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
+        key->mv_size = strlen(tmp);
+        key->mv_data = tmp;
+        return hbs_str_len(tmpl);
+    } else {
+        key->mv_size = hbs_str_len(tmpl) + 1;
+        key->mv_data = hbs_str_val(tmpl);
+        return 0;
+    }
+}
+
 static int cache_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_lmdb * intern = (struct handlebars_cache_lmdb *) cache->internal;
@@ -70,7 +91,7 @@ static int cache_gc(struct handlebars_cache * cache)
     MDB_val key;
     MDB_val data;
     MDB_cursor *cursor;
-    MDB_stat stat;
+    int removed = 0;
     time_t now;
 
     time(&now);
@@ -81,9 +102,6 @@ static int cache_gc(struct handlebars_cache * cache)
     err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
     if( err != 0 ) goto error;
 
-    err = mdb_stat(txn, dbi, &stat);
-    if( err != 0 ) goto error;
-
     err = mdb_cursor_open(txn, dbi, &cursor);
     if( err != 0 ) goto error;
 
@@ -92,16 +110,31 @@ static int cache_gc(struct handlebars_cache * cache)
                 key.mv_data,  (int) key.mv_size,  (char *) key.mv_data,
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
-        struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
-        if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
-            mdb_del(txn, dbi, &key, NULL);
+        struct handlebars_module module;
+        if( data.mv_size >= sizeof(module) ) {
+            memcpy(&module, data.mv_data, sizeof(module));
+            if( cache->max_age < 0 || difftime(now, module.ts) < cache->max_age ) {
+                continue;
+            }
         }
+
+        err = mdb_cursor_del(cursor, 0);
+        if( err != 0 ) break;
+        removed++;
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != MDB_NOTFOUND ) goto error;
+
+    // Commit
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+
+    return removed;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -117,6 +150,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_module * module;
     time_t now;
     size_t size;
+    size_t extra;
 
     time(&now);
 
@@ -127,14 +161,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    extra = make_key(intern, tmpl, tmp, sizeof(tmp), &key);
 
     // Fetch data
     err = mdb_get(txn, dbi, &key, &data);
@@ -145,7 +172,32 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     }
     if( err != 0 ) goto error;
 
-    module = ((struct handlebars_module *) data.mv_data);
+    // A record that cannot be ours, or that is another template's with the same hash, is a miss
+    if( data.mv_size < sizeof(struct handlebars_module) + extra ||
+            0 != memcmp((char *) data.mv_data + data.mv_size - extra, hbs_str_val(tmpl), extra) ) {
+        intern->stat.misses++;
+        goto error;
+    }
+
+    // Duplicate data
+    size = data.mv_size - extra;
+    module = handlebars_talloc_size(cache, size);
+    if( unlikely(module == NULL) ) {
+        mdb_txn_abort(txn);
+        HANDLEBARS_MEMCHECK(module, CONTEXT);
+    }
+    talloc_set_type(module, struct handlebars_module);
+    memcpy(module, data.mv_data, size);
+
+    // Close
+    mdb_txn_abort(txn);
+
+    // Consider a record of the wrong size a miss
+    if( module->size != size ) {
+        intern->stat.misses++;
+        handlebars_talloc_free(module);
+        return NULL;
+    }
 
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
@@ -154,27 +206,20 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // In release mode, consider a failed hash/version match a miss
     if (!handlebars_module_verify(module, NULL)) {
         intern->stat.misses++;
-        goto error;
+        handlebars_talloc_free(module);
+        return NULL;
     }
 #endif
 
     // Check if it's too old
     if (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) {
         intern->stat.misses++;
-        goto error;
+        handlebars_talloc_free(module);
+        return NULL;
     }
 
     intern->stat.hits++;
 
-    // Duplicate data
-    size = module->size;
-    module = handlebars_talloc_size(cache, size);
-    talloc_set_type(module, struct handlebars_module);
-    memcpy(module, data.mv_data, size);
-
-    // Close
-    mdb_txn_abort(txn);
-
     // Convert pointers
     handlebars_module_patch_pointers(module);
 
@@ -198,6 +243,7 @@ static void cache_add(
     MDB_val key;
     MDB_val data;
     char tmp[256];
+    size_t extra;
     struct handlebars_module * module_copy;
 
     err = mdb_txn_begin(intern->env, NULL, 0, &txn);
@@ -207,17 +253,14 @@ static void cache_add(
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    extra = make_key(intern, tmpl, tmp, sizeof(tmp), &key);
 
     // Normalize pointers
-    module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    module_copy = handlebars_talloc_size(CONTEXT, module->size + extra);
+    if( unlikely(module_copy == NULL) ) {
+        mdb_txn_abort(txn);
+        HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
+    }
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
@@ -225,7 +268,8 @@ static void cache_add(
     handlebars_module_generate_hash(module_copy);
 
     // Make data
-    data.mv_size = module_copy->size;
+    memcpy((char *) module_copy + module->size, hbs_str_val(tmpl), extra);
+    data.mv_size = module->size + extra;
     data.mv_data = module_copy;
 
     // Store
@@ -233,14 +277,17 @@ static void cache_add(
     handlebars_talloc_free(module_copy);
     if( err != 0 ) goto error;
 
-    // Commit
+    // Commit, which frees the transaction even if it fails
     err = mdb_txn_commit(txn);
+    txn = NULL;
     if( err != 0 ) goto error;
 
     return;
 
 error:
     mdb_txn_abort(txn);
+    // A program that does not fit is not stored
+    if( err == MDB_MAP_FULL ) return;
     HANDLE_RC(err);
 }
 
@@ -291,7 +338,14 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
-    error:
+    // Commit
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+
+    memset(&intern->stat, 0, sizeof(intern->stat));
+    return;
+
+error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
 }
-- 
2.43.0


From ec6e4d9d25da8b3687a27fd5df63981d7d69fb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:41 +0000
Subject: [PATCH 82/98] fix: a failed render was declared never to return null

Without a jump buffer an error makes handlebars_vm_execute() return NULL, the
attribute lets the compiler remove the caller's check for it.
---
 src/handlebars_vm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 63e95b6..b4424aa 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -67,7 +67,7 @@ struct handlebars_string * handlebars_vm_execute(
     struct handlebars_vm * vm,
     struct handlebars_module * module,
     struct handlebars_value * context
-) HBS_ATTR_NONNULL_ALL HBS_ATTR_RETURNS_NONNULL HBS_ATTR_NOINLINE;
+) HBS_ATTR_NONNULL_ALL HBS_ATTR_NOINLINE;
 
 struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_vm * vm,
@@ -76,7 +76,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
     long program,
     struct handlebars_value * data,
     struct handlebars_value * block_params
-) HBS_ATTR_NONNULL(1, 2, 3) HBS_ATTR_RETURNS_NONNULL HBS_ATTR_NOINLINE;
+) HBS_ATTR_NONNULL(1, 2, 3) HBS_ATTR_NOINLINE;
 
 struct handlebars_string * handlebars_vm_execute_program(
     struct handlebars_vm * vm,
-- 
2.43.0


From 38b0a089b2892691b4c81a66fb74220a21a00f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:46 +0000
Subject: [PATCH 83/98] fix: a partial name with a NUL byte loaded the file its
 beginning names

---
 src/handlebars_partial_loader.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 3a93cc7..c4f4fca 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -91,6 +91,11 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         return rv;
     }
 
+    // No file has such a name, but fopen would only see the part before the NUL
+    if (memchr(hbs_str_val(key), 0, hbs_str_len(key))) {
+        return NULL;
+    }
+
     struct handlebars_string *filename = handlebars_string_copy_ctor(intern->user.ctx, intern->base_path);
     filename = handlebars_string_append(intern->user.ctx, filename, HBS_STRL("/"));
     filename = handlebars_string_append_str(intern->user.ctx, filename, key);
-- 
2.43.0


From 0bd4630c1d7442171cae8367d6b091653ad327a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 84/98] fix: a refused allocation of a closure was written to

---
 src/handlebars_closure.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
-- 
2.43.0


From 200770a25ab7580bebb18b854a04fa7237edcf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 85/98] fix: a refused allocation of a module was written to

---
 src/handlebars_opcode_serializer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..6f3bb0a 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -240,7 +240,7 @@ struct handlebars_module * handlebars_program_serialize(
     struct handlebars_program * program
 ) {
     // Allocate initial buffer
-    struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    struct handlebars_module * module = MC(handlebars_talloc_zero(context, struct handlebars_module));
     memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -250,7 +250,7 @@ struct handlebars_module * handlebars_program_serialize(
     module->size = sizeof(struct handlebars_module) + calculate_size_program(module, program);
 
     // Reallocate buffer
-    module = handlebars_talloc_realloc_size(context, module, module->size);
+    module = MC(handlebars_talloc_realloc_size(context, module, module->size));
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
-- 
2.43.0


From fdefbcc048a3e33d1e09136e0f31fadcac1109ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 86/98] fix: a string that could not be shrunk was lost

---
 src/handlebars_string.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index fe2de97..8d35d91 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -328,8 +328,11 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
-        talloc_set_type(string, struct handlebars_string);
+        struct handlebars_string * compacted = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if( compacted ) { // otherwise it stays as large as it is
+            string = compacted;
+            talloc_set_type(string, struct handlebars_string);
+        }
     }
     return string;
 }
-- 
2.43.0


From a335ed8726b35a3858b0960cab9b3c15ed6c056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:53 +0000
Subject: [PATCH 87/98] fix: a value's dump went on after a refused allocation

---
 src/handlebars_value.c | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 0aacc0a..b7ba9c0 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -778,51 +778,49 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
 
     switch( handlebars_value_get_type(value) ) {
         case HANDLEBARS_VALUE_TYPE_NULL:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "NULL");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "NULL"));
             break;
         case HANDLEBARS_VALUE_TYPE_TRUE:
-            buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)"));
+            buf = MC(handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)")));
             break;
         case HANDLEBARS_VALUE_TYPE_FALSE:
-            buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)"));
+            buf = MC(handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)")));
             break;
         case HANDLEBARS_VALUE_TYPE_FLOAT:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval));
             break;
         case HANDLEBARS_VALUE_TYPE_INTEGER:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval));
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string));
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string)));
             break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : ""));
             HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp);
+                buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp));
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : ""));
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : ""));
             HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp);
+                buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp));
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : "");
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : ""));
             break;
         case HANDLEBARS_VALUE_TYPE_HELPER:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type));
             break;
         default:
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type);
+            buf = MC(handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type));
             break;
     }
 
-    HANDLEBARS_MEMCHECK(buf, context);
-
     return buf;
 }
 
-- 
2.43.0


From cd0f552fc3de2e2b536ef263cde86d88e2e009c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 88/98] fix: handlebarsc read empty YAML data as JSON

---
 bin/handlebarsc.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 26c5b92..e9b3a34 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -682,7 +682,7 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (handlebars_value_is_empty(input) && input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
+            if (input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
                     0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
@@ -690,8 +690,7 @@ static int do_execute(void)
                 fprintf(stderr, "Failed to process input data: YAML support is disabled");
                 exit(1);
 #endif
-            }
-            if (handlebars_value_is_empty(input)) {
+            } else {
 #ifdef HANDLEBARS_HAVE_JSON
                 // assume json
                 handlebars_value_init_json_stringl(ctx, input, input_str, input_str_size - 1);
-- 
2.43.0


From b9728abdfea25c56d93754406784fcac2ccd6187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 89/98] fix: handlebarsc read a.yml as JSON

---
 bin/handlebarsc.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index e9b3a34..f3f702a 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -682,8 +682,8 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
-                    0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
+            if ((input_data_name_len > 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
+                    (input_data_name_len > 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
-- 
2.43.0


From 41db4b113872ba5f84b1090ea28f998d989c381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 90/98] fix: handlebarsc wrote past its buffer for a pipe or a
 directory

---
 bin/handlebarsc.c | 45 +++++++++++++++++++++++++++------------------
 1 file changed, 27 insertions(+), 18 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index f3f702a..1b8eb9d 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -284,24 +284,35 @@ start:
     goto start;
 }
 
-static char * read_stdin(void)
+static char * read_file(FILE * in)
 {
-    char buffer[__BUFF_SIZE];
-    FILE * in = stdin;
-    char * buf = talloc_strdup(root, "");
+    size_t capacity = __BUFF_SIZE;
+    size_t length = 0;
+    size_t read;
+    char * buf = talloc_array(root, char, capacity);
+
+    // Read - the size of a pipe is not known in advance
+    while( (read = fread(buf + length, 1, capacity - length, in)) > 0 ) {
+        length += read;
+        if( length == capacity ) {
+            capacity *= 2;
+            buf = talloc_realloc(root, buf, char, capacity);
+        }
+    }
 
-    // Read
-    while( fgets(buffer, __BUFF_SIZE, in) != NULL ) {
-        buf = talloc_strdup_append_buffer(buf, buffer);
+    if( ferror(in) ) {
+        return NULL;
     }
 
+    buf = talloc_realloc(root, buf, char, length + 1);
+    buf[length] = 0;
+
     return buf;
 }
 
 static char * file_get_contents(char * filename)
 {
     FILE * f;
-    long size;
     char * buf;
 
     // No input file?
@@ -309,7 +320,12 @@ static char * file_get_contents(char * filename)
         fprintf(stderr, "No input file!\n");
         exit(1);
     } else if( strcmp(filename, "-") == 0 ) {
-        return read_stdin();
+        buf = read_file(stdin);
+        if( !buf ) {
+            fprintf(stderr, "Failed to read file: %s\n", filename);
+            exit(1);
+        }
+        return buf;
     }
 
     f = fopen(filename, "rb");
@@ -318,17 +334,10 @@ static char * file_get_contents(char * filename)
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buf = talloc_array(root, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    buf = read_file(f);
     fclose(f);
 
-    buf[size] = 0;
-
-    if (!read) {
+    if( !buf || talloc_array_length(buf) <= 1 ) {
         fprintf(stderr, "Failed to read file: %s\n", filename);
         exit(1);
     }
-- 
2.43.0


From 6b7e82501389328b9fbefbdf2ae7ef3eef19fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 91/98] fix: handlebarsc cut templates at a NUL byte

---
 bin/handlebarsc.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 1b8eb9d..780e15e 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -474,7 +474,7 @@ static int do_lex(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -517,7 +517,7 @@ static int do_parse(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -563,7 +563,7 @@ static int do_compile(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -612,7 +612,7 @@ static int do_module(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -677,7 +677,7 @@ static int do_execute(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
-- 
2.43.0


From f50cd34575cd5420fda50088741ab868726b8a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:30 +0000
Subject: [PATCH 92/98] fix: handlebarsc went on after an unrecognized option

---
 bin/handlebarsc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 780e15e..5363b58 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -278,6 +278,9 @@ start:
             pretty_print = true;
             break;
 
+        // getopt_long has already printed a message
+        case '?': exit(1);
+
         default: assert(0); break; // LCOV_EXCL_LINE
     }
 
-- 
2.43.0


From fec25d8f08cbef63b0cf0681228ee20a9770b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:38 +0000
Subject: [PATCH 93/98] fix: handlebarsc succeeded when its output could not be
 written

---
 bin/handlebarsc.c | 43 ++++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 5363b58..8ff204c 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -759,6 +759,27 @@ static int do_execute(void)
     return 0;
 }
 
+static int run(void)
+{
+    switch( mode ) {
+        case handlebarsc_mode_version: return do_version();
+        case handlebarsc_mode_lex: return do_lex();
+        case handlebarsc_mode_parse: return do_parse();
+        case handlebarsc_mode_compile: return do_compile();
+        case handlebarsc_mode_module: return do_module();
+        case handlebarsc_mode_execute: return do_execute();
+        case handlebarsc_mode_debuginfo: return do_debuginfo();
+        case handlebarsc_mode_usage: return do_usage();
+
+        // LCOV_EXCL_START
+        default:
+            assert(0);
+            do_usage();
+            return 1;
+        // LCOV_EXCL_STOP
+    }
+}
+
 int main(int argc, char * argv[])
 {
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -789,21 +810,13 @@ int main(int argc, char * argv[])
         }
     }
 
-    switch( mode ) {
-        case handlebarsc_mode_version: return do_version();
-        case handlebarsc_mode_lex: return do_lex();
-        case handlebarsc_mode_parse: return do_parse();
-        case handlebarsc_mode_compile: return do_compile();
-        case handlebarsc_mode_module: return do_module();
-        case handlebarsc_mode_execute: return do_execute();
-        case handlebarsc_mode_debuginfo: return do_debuginfo();
-        case handlebarsc_mode_usage: return do_usage();
+    int status = run();
 
-        // LCOV_EXCL_START
-        default:
-            assert(0);
-            do_usage();
-            return 1;
-        // LCOV_EXCL_STOP
+    // The output may not have been written yet
+    if( (fflush(stdout) != 0 || ferror(stdout)) && status == 0 ) {
+        fprintf(stderr, "Failed to write output\n");
+        status = 1;
     }
+
+    return status;
 }
-- 
2.43.0


From 03309512bac9c1dc019984c5801dc0eb41d42923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:59 +0000
Subject: [PATCH 94/98] fix: partial blocks printed the literals of their body
 bare

---
 src/handlebars_ast_printer.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 202e98c..3e3df95 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -300,6 +300,9 @@ static void _handlebars_ast_print_partial_block(struct handlebars_ast_node * ast
         __APPENDS(" PROGRAM:");
         __PAD_FOOT();
 
+        // Only the head is printed bare
+        ctx->in_partial = false;
+
         //ctx->padding++;
         __PRINT(ast_node->node.partial_block.program);
         //ctx->padding--;
-- 
2.43.0


From 3196b9962d37fa0dac833db76f4c6648f72e5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:59 +0000
Subject: [PATCH 95/98] fix: printed opcodes cut their strings at a NUL byte

---
 src/handlebars_opcode_printer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_opcode_printer.c b/src/handlebars_opcode_printer.c
index 5737bbf..5aca988 100644
--- a/src/handlebars_opcode_printer.c
+++ b/src/handlebars_opcode_printer.c
@@ -84,7 +84,9 @@ struct handlebars_string * handlebars_operand_print_append(
             break;
         case handlebars_operand_type_string:
             tmp = handlebars_string_addcslashes(context, operand->data.string.string, HBS_STRL("\r\n\t"));
-            string = handlebars_string_asprintf_append(context, string, "[STRING:%.*s]", (int) hbs_str_len(tmp), hbs_str_val(tmp));
+            string = handlebars_string_append(context, string, HBS_STRL("[STRING:"));
+            string = handlebars_string_append_str(context, string, tmp);
+            string = handlebars_string_append(context, string, HBS_STRL("]"));
             handlebars_talloc_free(tmp);
             break;
         case handlebars_operand_type_array: {
-- 
2.43.0


From b315dcaa1c1abcad6868e8e94c5e8cdee9c29904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:33:27 +0000
Subject: [PATCH 96/98] fix: printed modules named the wrong program over
 nested opcodes

---
 src/handlebars_module_printer.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_module_printer.c b/src/handlebars_module_printer.c
index e734a7b..9ff4948 100644
--- a/src/handlebars_module_printer.c
+++ b/src/handlebars_module_printer.c
@@ -40,6 +40,18 @@
 
 
 
+// The opcodes of a program follow those of its parent, so they are not in the order of the program table
+static size_t find_program_at(struct handlebars_module * module, size_t opcode_offset)
+{
+    size_t i;
+    for ( i = 0; i < module->program_count; i++ ) {
+        if ( module->programs[i].opcode_offset == opcode_offset ) {
+            break;
+        }
+    }
+    return i;
+}
+
 struct handlebars_string * handlebars_module_print(
     struct handlebars_context * ctx,
     struct handlebars_module * module
@@ -83,6 +95,7 @@ struct handlebars_string * handlebars_module_print(
             module->programs[i].opcode_offset
         );
     }
+    program_guid = find_program_at(module, 0);
     buffer = handlebars_string_asprintf_append(ctx, buffer, "PROGRAM: %zu\n", program_guid);
     for  (size_t i = 0; i < module->opcode_count; i++) {
         // Make sure the program_guid is correct
@@ -97,8 +110,8 @@ struct handlebars_string * handlebars_module_print(
         buffer = handlebars_opcode_print_append(ctx, buffer, &module->opcodes[i], 0);
         buffer = handlebars_string_asprintf_append(ctx, buffer, "\n");
         if (opcode->type == handlebars_opcode_type_return) {
-            program_guid++;
-            if (program_guid < module->program_count) {
+            if (i + 1 < module->opcode_count) {
+                program_guid = find_program_at(module, i + 1);
                 buffer = handlebars_string_asprintf_append(ctx, buffer, "\nPROGRAM: %zu\n", program_guid);
             }
             local_opcode_id = 0;
@@ -106,6 +119,5 @@ struct handlebars_string * handlebars_module_print(
             local_opcode_id++;
         }
     }
-    assert(program_guid == module->program_count);
     return buffer;
 }
-- 
2.43.0


From 586362468f881bd7e203bcca19dad2e7a275e49f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:28 +0000
Subject: [PATCH 97/98] fix: a function called as a plain field was given the
 whole template as its block

---
 src/handlebars_vm.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index f7bedc5..9750f10 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1270,6 +1270,8 @@ ACCEPT_FUNCTION(resolve_possible_lambda)
         HANDLEBARS_VALUE_DECL(rv);
         // This should really use the same options object as invoke*
         struct handlebars_options options = {0};
+        // There is no block, and zero is the main program
+        options.program = options.inverse = -1;
         const int argc = 1;
         HANDLEBARS_VALUE_ARRAY_DECL(argv, argc);
         handlebars_value_value(&argv[0], TOP(vm->contextStack));
-- 
2.43.0


From 6da8a3c5fa273fc947b7696573bce07d42761103 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:30 +0000
Subject: [PATCH 98/98] fix: number literals too large for a long became the
 largest long

---
 src/handlebars_compiler.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 2e10c5e..a303e56 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <errno.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -552,9 +553,7 @@ static inline void handlebars_compiler_push_param(
                 if( param->type == HANDLEBARS_AST_NODE_BOOLEAN ) {
                     handlebars_operand_set_boolval(&opcode->op2, strcmp(strval, "true") == 0);
                 } else if( param->type == HANDLEBARS_AST_NODE_NUMBER ) {
-                    long lval;
-                    sscanf(strval, "%10ld", &lval);
-                    handlebars_operand_set_longval(&opcode->op2, lval);
+                    handlebars_operand_set_longval(&opcode->op2, strtol(strval, NULL, 10));
                 } else {
                     handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op2, handlebars_string_ctor(CONTEXT, strval, strlen(strval)));
                 }
@@ -893,8 +892,9 @@ static inline void _handlebars_compiler_accept_partial(
         	double fv;
             if( name->type == HANDLEBARS_AST_NODE_NUMBER ) {
                 fv = strtod(hbs_str_val(string), NULL);
+                errno = 0;
                 lv = strtol(hbs_str_val(string), NULL, 10);
-                if( !fv || !lv || fv != (double) lv ) {
+                if( errno == ERANGE || !fv || !lv || fv != (double) lv ) {
                     lv = 0;
                 }
             }
@@ -1273,9 +1273,11 @@ static inline void handlebars_compiler_accept_number(
 
     // Convert to float and long
     fv = strtod(hbs_str_val(val), NULL);
+    errno = 0;
     lv = strtol(hbs_str_val(val), NULL, 10);
 
-    if( fv && lv && fv == (double) lv ) {
+    // Too large for a long is not a long
+    if( errno != ERANGE && fv && lv && fv == (double) lv ) {
     	// It's a long - @todo do we need to do float too?
     	__OPL(push_literal, lv);
     } else {
-- 
2.43.0

