From 330d5e69726cc3a2734b3e469fd7d5c914f4fb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:08 +0000
Subject: [PATCH 01/89] fix: integer % by zero, and INT_MIN / or % by -1, no
 longer raise SIGFPE

---
 discrete_src/vm/operations_non_compact.cpp | 48 ++++++++++++--------
 discrete_src/vm/vm.cpp                     |  5 +-
 src/wrench.cpp                             | 53 +++++++++++++---------
 3 files changed, 62 insertions(+), 44 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index fae3ea9..300b62c 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -30,10 +30,18 @@ SOFTWARE.
 inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a + (uint32_t)b); }
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
+// the quotient of INT32_MIN / -1 does not fit, and both that and a zero divisor trap on some CPUs
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return b == -1 ? (int32_t)(0u - (uint32_t)a) : a / b; }
+inline int32_t wr_imod( const int32_t a, const int32_t b ) { return (b == 0 || b == -1) ? 0 : a % b; }
+inline int32_t wr_ior( const int32_t a, const int32_t b ) { return a | b; }
+inline int32_t wr_iand( const int32_t a, const int32_t b ) { return a & b; }
+inline int32_t wr_ixor( const int32_t a, const int32_t b ) { return a ^ b; }
+inline int32_t wr_irshift( const int32_t a, const int32_t b ) { return a >> b; }
+inline int32_t wr_ilshift( const int32_t a, const int32_t b ) { return a << b; }
 
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
-#define X_LOGIC_ASSIGN( NAME, OPERATION ) \
+#define X_LOGIC_ASSIGN( NAME, I_I_OP ) \
 void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 {\
 	WRValue& V = to->singleValue();\
@@ -61,7 +69,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i = I_I_OP( to->i, from->i ); }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -71,12 +79,12 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+X_LOGIC_ASSIGN( wr_Mod, wr_imod );
+X_LOGIC_ASSIGN( wr_OR, wr_ior );
+X_LOGIC_ASSIGN( wr_AND, wr_iand );
+X_LOGIC_ASSIGN( wr_XOR, wr_ixor );
+X_LOGIC_ASSIGN( wr_RightShift, wr_irshift );
+X_LOGIC_ASSIGN( wr_LeftShift, wr_ilshift );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -267,7 +275,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -503,7 +511,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -636,7 +644,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
 
 //------------------------------------------------------------------------------
-#define X_INT_BINARY( NAME, OPERATION ) \
+#define X_INT_BINARY( NAME, I_I_OP ) \
 void NAME##Binary_E_I( WRValue* to, WRValue* from, WRValue* target )\
 {\
 	WRValue& V = to->singleValue();\
@@ -655,10 +663,10 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( lhs->i, from->i ); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, from->i ); }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -667,12 +675,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, wr_ilshift );
+X_INT_BINARY( wr_RightShift, wr_irshift );
+X_INT_BINARY( wr_Mod, wr_imod );
+X_INT_BINARY( wr_AND, wr_iand );
+X_INT_BINARY( wr_OR, wr_ior );
+X_INT_BINARY( wr_XOR, wr_ixor );
 
 
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 7a44535..29c3eab 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -247,7 +247,8 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	// INT32_MIN / -1 does not fit, wrap it like the other integer operations
+	return b ? (b == -1 ? (int)(0u - (unsigned int)a) : a / b) : 0;
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -255,7 +256,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b ) { return (b == 0 || b == -1) ? 0 : a % b; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d39d438..92f24cf 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10413,7 +10413,8 @@ static float multiplicationF( float a, float b ) { return a * b; }
 
 static int divisionI( int a, int b )
 {
-	return b ? a / b : 0;
+	// INT32_MIN / -1 does not fit, wrap it like the other integer operations
+	return b ? (b == -1 ? (int)(0u - (unsigned int)a) : a / b) : 0;
 }
 int wr_addI( int a, int b ) { return a + b; }
 static int subtractionI( int a, int b ) { return a - b; }
@@ -10421,7 +10422,7 @@ static int multiplicationI( int a, int b ) { return a * b; }
 
 static int rightShiftI( int a, int b ) { return a >> b; }
 static int leftShiftI( int a, int b ) { return a << b; }
-static int modI( int a, int b ) { return a % b; }
+static int modI( int a, int b ) { return (b == 0 || b == -1) ? 0 : a % b; }
 static int orI( int a, int b ) { return a | b; }
 static int xorI( int a, int b ) { return a ^ b; }
 static int andI( int a, int b ) { return a & b; }
@@ -18642,10 +18643,18 @@ SOFTWARE.
 inline int32_t wr_iadd_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a + (uint32_t)b); }
 inline int32_t wr_isub_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a - (uint32_t)b); }
 inline int32_t wr_imul_wrap( const int32_t a, const int32_t b ) { return (int32_t)((uint32_t)a * (uint32_t)b); }
+// the quotient of INT32_MIN / -1 does not fit, and both that and a zero divisor trap on some CPUs
+inline int32_t wr_idiv_wrap( const int32_t a, const int32_t b ) { return b == -1 ? (int32_t)(0u - (uint32_t)a) : a / b; }
+inline int32_t wr_imod( const int32_t a, const int32_t b ) { return (b == 0 || b == -1) ? 0 : a % b; }
+inline int32_t wr_ior( const int32_t a, const int32_t b ) { return a | b; }
+inline int32_t wr_iand( const int32_t a, const int32_t b ) { return a & b; }
+inline int32_t wr_ixor( const int32_t a, const int32_t b ) { return a ^ b; }
+inline int32_t wr_irshift( const int32_t a, const int32_t b ) { return a >> b; }
+inline int32_t wr_ilshift( const int32_t a, const int32_t b ) { return a << b; }
 
 void doVoidFuncBlank( WRValue* to, WRValue* from ) {}
 
-#define X_LOGIC_ASSIGN( NAME, OPERATION ) \
+#define X_LOGIC_ASSIGN( NAME, I_I_OP ) \
 void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 {\
 	WRValue& V = to->singleValue();\
@@ -18673,7 +18682,7 @@ void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
-void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i OPERATION##= from->i; }\
+void NAME##Assign_I_I( WRValue* to, WRValue* from ) { to->i = I_I_OP( to->i, from->i ); }\
 WRVoidFunc NAME##Assign[16] = \
 {\
 	NAME##Assign_I_I,   doVoidFuncBlank,   NAME##Assign_I_R,  NAME##Assign_I_E,\
@@ -18683,12 +18692,12 @@ WRVoidFunc NAME##Assign[16] = \
 };\
 
 
-X_LOGIC_ASSIGN( wr_Mod, % );
-X_LOGIC_ASSIGN( wr_OR, | );
-X_LOGIC_ASSIGN( wr_AND, & );
-X_LOGIC_ASSIGN( wr_XOR, ^ );
-X_LOGIC_ASSIGN( wr_RightShift, >> );
-X_LOGIC_ASSIGN( wr_LeftShift, << );
+X_LOGIC_ASSIGN( wr_Mod, wr_imod );
+X_LOGIC_ASSIGN( wr_OR, wr_ior );
+X_LOGIC_ASSIGN( wr_AND, wr_iand );
+X_LOGIC_ASSIGN( wr_XOR, wr_ixor );
+X_LOGIC_ASSIGN( wr_RightShift, wr_irshift );
+X_LOGIC_ASSIGN( wr_LeftShift, wr_ilshift );
 
 
 void wr_SubtractAssign_E_I( WRValue* to, WRValue* from )
@@ -18879,7 +18888,7 @@ void wr_DivideAssign_I_I( WRValue* to, WRValue* from )
 {
 	if ( from->i )
 	{
-		to->i = to->i / from->i;
+		to->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -19115,7 +19124,7 @@ void wr_DivideBinary_I_I( WRValue* to, WRValue* from, WRValue* target )
 	target->p2 = INIT_AS_INT;
 	if ( from->i )
 	{
-		target->i = to->i / from->i;
+		target->i = wr_idiv_wrap( to->i, from->i );
 	}
 	else
 	{
@@ -19248,7 +19257,7 @@ WRTargetFunc wr_AdditionBinary[16] =
 void doTargetFuncBlank( WRValue* to, WRValue* from, WRValue* target ) {}
 
 //------------------------------------------------------------------------------
-#define X_INT_BINARY( NAME, OPERATION ) \
+#define X_INT_BINARY( NAME, I_I_OP ) \
 void NAME##Binary_E_I( WRValue* to, WRValue* from, WRValue* target )\
 {\
 	WRValue& V = to->singleValue();\
@@ -19267,10 +19276,10 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 }\
 void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
-void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION rhs->i; } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
+void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = lhs->i OPERATION from->i; } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
-void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = to->i OPERATION from->i; }\
+void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( lhs->i, from->i ); } else { NAME##Binary[(lhs->type<<2)|WR_INT](lhs, from, target); } }\
+void NAME##Binary_I_I( WRValue* to, WRValue* from, WRValue* target ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, from->i ); }\
 WRTargetFunc NAME##Binary[16] = \
 {\
 	NAME##Binary_I_I, doTargetFuncBlank,   NAME##Binary_I_R,  NAME##Binary_I_E,\
@@ -19279,12 +19288,12 @@ WRTargetFunc NAME##Binary[16] = \
 	NAME##Binary_E_I, doTargetFuncBlank,   NAME##Binary_E_R,  NAME##Binary_E_E,\
 };\
 
-X_INT_BINARY( wr_LeftShift, << );
-X_INT_BINARY( wr_RightShift, >> );
-X_INT_BINARY( wr_Mod, % );
-X_INT_BINARY( wr_AND, & );
-X_INT_BINARY( wr_OR, | );
-X_INT_BINARY( wr_XOR, ^ );
+X_INT_BINARY( wr_LeftShift, wr_ilshift );
+X_INT_BINARY( wr_RightShift, wr_irshift );
+X_INT_BINARY( wr_Mod, wr_imod );
+X_INT_BINARY( wr_AND, wr_iand );
+X_INT_BINARY( wr_OR, wr_ior );
+X_INT_BINARY( wr_XOR, wr_ixor );
 
 
 
-- 
2.43.0


From c5001bb8808ac9fbe691592757524f57d1ddf6ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:50 +0000
Subject: [PATCH 02/89] fix: comparing or compound-assigning int with float no
 longer corrupts the int operand

---
 discrete_src/vm/operations_non_compact.cpp | 11 +++++------
 src/wrench.cpp                             | 11 +++++------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 300b62c..07ae703 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -137,7 +137,7 @@ void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
-void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f -= (float)from->i; }
+void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { to->f -= (float)from->i; }
 WRVoidFunc wr_SubtractAssign[16] = 
 {
 	wr_SubtractAssign_I_I,  wr_SubtractAssign_I_F,  wr_SubtractAssign_I_R,  wr_SubtractAssign_I_E,
@@ -197,7 +197,7 @@ void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
-void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f *= (float)from->i; }
+void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { to->f *= (float)from->i; }
 WRVoidFunc wr_MultiplyAssign[16] = 
 {
 	wr_MultiplyAssign_I_I,  wr_MultiplyAssign_I_F,  wr_MultiplyAssign_I_R,  wr_MultiplyAssign_I_E,
@@ -304,7 +304,6 @@ void wr_DivideAssign_I_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_F_I( WRValue* to, WRValue* from )
 {
-	from->p2 = INIT_AS_FLOAT;
 	if ( from->i )
 	{
 		to->f = to->f / (float)from->i;
@@ -411,7 +410,7 @@ void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f += (float)from->i; }
+void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { to->f += (float)from->i; }
 WRVoidFunc wr_AddAssign[16] = 
 {
 	wr_AddAssign_I_I,  wr_AddAssign_I_F,  wr_AddAssign_I_R,  wr_AddAssign_I_E,
@@ -719,7 +718,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -780,7 +779,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 92f24cf..6b2891d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18750,7 +18750,7 @@ void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
-void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f -= (float)from->i; }
+void wr_SubtractAssign_F_I( WRValue* to, WRValue* from ) { to->f -= (float)from->i; }
 WRVoidFunc wr_SubtractAssign[16] = 
 {
 	wr_SubtractAssign_I_I,  wr_SubtractAssign_I_F,  wr_SubtractAssign_I_R,  wr_SubtractAssign_I_E,
@@ -18810,7 +18810,7 @@ void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
-void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f *= (float)from->i; }
+void wr_MultiplyAssign_F_I( WRValue* to, WRValue* from ) { to->f *= (float)from->i; }
 WRVoidFunc wr_MultiplyAssign[16] = 
 {
 	wr_MultiplyAssign_I_I,  wr_MultiplyAssign_I_F,  wr_MultiplyAssign_I_R,  wr_MultiplyAssign_I_E,
@@ -18917,7 +18917,6 @@ void wr_DivideAssign_I_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_F_I( WRValue* to, WRValue* from )
 {
-	from->p2 = INIT_AS_FLOAT;
 	if ( from->i )
 	{
 		to->f = to->f / (float)from->i;
@@ -19024,7 +19023,7 @@ void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { from->p2 = INIT_AS_FLOAT; to->f += (float)from->i; }
+void wr_AddAssign_F_I( WRValue* to, WRValue* from ) { to->f += (float)from->i; }
 WRVoidFunc wr_AddAssign[16] = 
 {
 	wr_AddAssign_I_I,  wr_AddAssign_I_F,  wr_AddAssign_I_R,  wr_AddAssign_I_E,
@@ -19332,7 +19331,7 @@ bool NAME##_R_F( WRValue* to, WRValue* from ) { return NAME[(to->r->type<<2)|WR_
 bool NAME##_I_R( WRValue* to, WRValue* from ) { return NAME[(WR_INT<<2)+from->r->type](to, from->r); }\
 bool NAME##_F_R( WRValue* to, WRValue* from ) { return NAME[(WR_FLOAT<<2)+from->r->type](to, from->r); }\
 bool NAME##_I_I( WRValue* to, WRValue* from ) { return to->i OPERATION from->i; }\
-bool NAME##_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i OPERATION from->f; }\
+bool NAME##_I_F( WRValue* to, WRValue* from ) { return (float)to->i OPERATION from->f; }\
 bool NAME##_F_I( WRValue* to, WRValue* from ) { return to->f OPERATION (float)from->i; }\
 bool NAME##_F_F( WRValue* to, WRValue* from ) { return to->f OPERATION from->f; }\
 WRReturnFunc NAME[16] = \
@@ -19393,7 +19392,7 @@ bool wr_CompareLT_R_F( WRValue* to, WRValue* from ) { return wr_CompareLT[(to->r
 bool wr_CompareLT_I_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_INT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_F_R( WRValue* to, WRValue* from ) { return wr_CompareLT[(WR_FLOAT<<2)+from->r->type](to, from->r); }
 bool wr_CompareLT_I_I( WRValue* to, WRValue* from ) { return to->i < from->i; }
-bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; return to->i < from->f; }
+bool wr_CompareLT_I_F( WRValue* to, WRValue* from ) { return (float)to->i < from->f; }
 bool wr_CompareLT_F_I( WRValue* to, WRValue* from ) { return to->f < (float)from->i; }
 bool wr_CompareLT_F_F( WRValue* to, WRValue* from ) { return to->f < from->f; }
 WRReturnFunc wr_CompareLT[16] = 
-- 
2.43.0


From 3d5653a9576d46be2e3fc4c93e75bb8ac3343dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:16 +0000
Subject: [PATCH 03/89] fix: concatenating a string with a float yields a
 string in the non-compact build

---
 discrete_src/vm/operations_non_compact.cpp | 14 ++++++++++----
 src/wrench.cpp                             | 14 ++++++++++----
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 07ae703..2d1b3bc 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -599,8 +599,11 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -617,8 +620,11 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6b2891d..8af01c5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19212,8 +19212,11 @@ void wr_AdditionBinary_I_E(WRValue* to, WRValue* from, WRValue* target)
 
 void wr_AdditionBinary_E_F( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = to->singleValue();
-	wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = to->singleValue();
+		wr_AdditionBinary[(V.type<<2)|WR_FLOAT](&V, from, target);
+	}
 }
 void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 {
@@ -19230,8 +19233,11 @@ void wr_AdditionBinary_E_E( WRValue* to, WRValue* from, WRValue* target )
 }
 void wr_AdditionBinary_F_E( WRValue* to, WRValue* from, WRValue* target )
 {
-	WRValue& V = from->singleValue();
-	wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	if ( !wr_concatStringCheck(to, from, target) )
+	{
+		WRValue& V = from->singleValue();
+		wr_AdditionBinary[(WR_FLOAT<<2)|V.type](to, &V, target);
+	}
 }
 void wr_AdditionBinary_R_E( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(to->r->type<<2)|WR_EX]( to->r, from, target); }
 void wr_AdditionBinary_E_R( WRValue* to, WRValue* from, WRValue* target ) { wr_AdditionBinary[(WR_EX<<2)+from->r->type](to, from->r, target); }
-- 
2.43.0


From a431bb944a0644e3264922601616d2e0edf952bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:39 +0000
Subject: [PATCH 04/89] fix: integer operators dispatch correctly when an
 operand is a container element

---
 discrete_src/vm/operations_non_compact.cpp | 4 ++--
 src/wrench.cpp                             | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 2d1b3bc..ed57c97 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -65,7 +65,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	*from = *to;\
 }\
 void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
-void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
+void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
@@ -666,7 +666,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8af01c5..ea7446e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18678,7 +18678,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	*from = *to;\
 }\
 void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
-void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); }\
+void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
 void NAME##Assign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }\
@@ -19279,7 +19279,7 @@ void NAME##Binary_I_E( WRValue* to, WRValue* from, WRValue* target )\
 	WRValue& V = from->singleValue();\
 	NAME##Binary[(WR_INT<<2)+V.type](to, &V, target);\
 }\
-void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX)|from->r->type](to, from->r, target); }\
+void NAME##Binary_E_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(WR_EX<<2)|from->r->type](to, from->r, target); }\
 void NAME##Binary_R_E( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|WR_EX]( to->r, from, target); }\
 void NAME##Binary_I_R( WRValue* to, WRValue* from, WRValue* target ) { WRValue* rhs = from->r; if ( rhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( to->i, rhs->i ); } else { NAME##Binary[(WR_INT<<2)+rhs->type](to, rhs, target); } }\
 void NAME##Binary_R_R( WRValue* to, WRValue* from, WRValue* target ) { NAME##Binary[(to->r->type<<2)|from->r->type](to->r, from->r, target); }\
-- 
2.43.0


From 6ba84a99b1ffc22f2a7ba01269ed8b7176157c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:11 +0000
Subject: [PATCH 05/89] fix: % binds like * and /, ^ binds looser than &, as
 documented

---
 discrete_src/cc/cc.h | 4 ++--
 src/wrench.cpp       | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index e391ab1..d6e5ebd 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -90,11 +90,11 @@ const WROperation c_operations[] =
 	{ "-",    6, O_BinarySubtraction,   true,  WR_OPER_BINARY, O_LAST },
 	{ "*",    5, O_BinaryMultiplication,true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "/",    5, O_BinaryDivision,      true,  WR_OPER_BINARY, O_LAST },
-	{ "%",    6, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
+	{ "%",    5, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
 
 	{ "|",   13, O_BinaryOr,            true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "&",   11, O_BinaryAnd,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
-	{ "^",   11, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
+	{ "^",   12, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 
 	{ ">>",   7, O_BinaryRightShift,    true,  WR_OPER_BINARY, O_LAST },
 	{ "<<",   7, O_BinaryLeftShift,     true,  WR_OPER_BINARY, O_LAST },
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ea7446e..e9ffbcb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1855,11 +1855,11 @@ const WROperation c_operations[] =
 	{ "-",    6, O_BinarySubtraction,   true,  WR_OPER_BINARY, O_LAST },
 	{ "*",    5, O_BinaryMultiplication,true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "/",    5, O_BinaryDivision,      true,  WR_OPER_BINARY, O_LAST },
-	{ "%",    6, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
+	{ "%",    5, O_BinaryMod,           true,  WR_OPER_BINARY, O_LAST },
 
 	{ "|",   13, O_BinaryOr,            true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 	{ "&",   11, O_BinaryAnd,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
-	{ "^",   11, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
+	{ "^",   12, O_BinaryXOR,           true,  WR_OPER_BINARY_COMMUTE, O_LAST },
 
 	{ ">>",   7, O_BinaryRightShift,    true,  WR_OPER_BINARY, O_LAST },
 	{ "<<",   7, O_BinaryLeftShift,     true,  WR_OPER_BINARY, O_LAST },
-- 
2.43.0


From 4d5e8e89e88d9a135b9ffb85262c9870ec3f5c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:32:42 +0000
Subject: [PATCH 06/89] fix: && and || with a float operand in the compact
 build

---
 discrete_src/vm/vm.cpp | 15 ++++++++-------
 src/wrench.cpp         | 15 ++++++++-------
 2 files changed, 16 insertions(+), 14 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 29c3eab..c1fee4c 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -272,7 +272,8 @@ static bool CompareGTF( float a, float b ) { return a > b; }
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -1990,7 +1991,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -2003,7 +2004,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -2017,7 +2018,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -2026,7 +2027,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -2142,8 +2143,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index e9ffbcb..b867fcb 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10438,7 +10438,8 @@ static bool CompareGTF( float a, float b ) { return a > b; }
 bool CompareEQI( int a, int b ) { return a == b; }
 bool CompareEQF( float a, float b ) { return WR_FLOATS_EQUAL( a, b ); }
 
-static bool CompareBlankF( float a, float b ) { return false; }
+static bool CompareANDF( float a, float b ) { return a && b; }
+static bool CompareORF( float a, float b ) { return a || b; }
 static float blankF( float a, float b ) { return 0; }
 
 int32_t READ_32_FROM_PC_func( const unsigned char* P )
@@ -12156,7 +12157,7 @@ compactPreDecrement:
 			CASE(BLA):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLAPreLoad:
 				register0 = --stackTop;
 				register1 = --stackTop;
@@ -12169,7 +12170,7 @@ compactBLA:
 			CASE(BLA8):
 			{
 				boolIntCall = CompareANDI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareANDF;
 compactBLA8PreLoad:
 				register0 = --stackTop;
 compactBLA8PreReg1:
@@ -12183,7 +12184,7 @@ compactBLA8:
 			CASE(BLO):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA;
@@ -12192,7 +12193,7 @@ compactBLA8:
 			CASE(BLO8):
 			{
 				boolIntCall = CompareORI;
-				boolFloatCall = CompareBlankF;
+				boolFloatCall = CompareORF;
 				register0 = --stackTop;
 				register1 = --stackTop;
 				goto compactBLA8;
@@ -12308,8 +12309,8 @@ CompactFGFunc:
 				goto CompactFFFunc;
 			}
 
-			CASE(LogicalAnd): { boolIntCall = CompareANDI; goto compactReturnFuncNormal; }
-			CASE(LogicalOr): { boolIntCall = CompareORI; goto compactReturnFuncNormal; }
+			CASE(LogicalAnd): { boolIntCall = CompareANDI; boolFloatCall = CompareANDF; goto compactReturnFuncNormal; }
+			CASE(LogicalOr): { boolIntCall = CompareORI; boolFloatCall = CompareORF; goto compactReturnFuncNormal; }
 			CASE(CompareLE): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncInverted; }
 			CASE(CompareGE): { boolIntCall = CompareLTI; boolFloatCall = CompareLTF; goto compactReturnFuncInverted; }
 			CASE(CompareGT): { boolIntCall = CompareGTI; boolFloatCall = CompareGTF; goto compactReturnFuncNormal; }
-- 
2.43.0


From 9fe58010c8ad3031236d9033bcf821180b2ca6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:50:54 +0000
Subject: [PATCH 07/89] fix: operand shuffling of expressions with three or
 more loaded operands

---
 discrete_src/cc/cc.cpp | 21 ++++++++++++++++++---
 src/wrench.cpp         | 21 ++++++++++++++++++---
 2 files changed, 36 insertions(+), 6 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index f4ea5f8..e4a31cd 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1217,6 +1217,17 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 			{
 				expression.swapWithTop( expression.context[second].stackPosition );
 			}
+			else if ( expression.context[second].stackPosition == 0 )
+			{
+				// second is on top, move it down one and bring first to the top
+				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
+				unsigned char pos = expression.context[first].stackPosition + 1;
+				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
+				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
+
+				expression.swapWithTop( 1, false );
+				expression.swapWithTop( expression.context[first].stackPosition, false );
+			}
 			else
 			{
 				// first and second are both loaded but neither
@@ -1228,9 +1239,11 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				pos = expression.context[second].stackPosition + 1;
 				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
 
+				// mirror what the opcode does: first to the top, then second to the next slot
+				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( 1, false );
 				expression.swapWithTop( expression.context[second].stackPosition, false );
 				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
 			}
 
 			appendBytecode( expression.bytecode, expression.context[o].bytecode ); // apply operator
@@ -1322,7 +1335,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 					WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
 					unsigned char pos = expression.context[first].stackPosition + 1;
 					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					pos = 2;
+					// that swap left second where first was
 					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
 					
 					expression.swapWithTop( 1, false );
@@ -1339,9 +1352,11 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				pos = expression.context[second].stackPosition + 1;
 				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
 
+				// mirror what the opcode does: first to the top, then second to the next slot
+				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( 1, false );
 				expression.swapWithTop( expression.context[second].stackPosition, false );
 				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
 			}
 
 			if ( useAlt )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b867fcb..576535c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4255,6 +4255,17 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 			{
 				expression.swapWithTop( expression.context[second].stackPosition );
 			}
+			else if ( expression.context[second].stackPosition == 0 )
+			{
+				// second is on top, move it down one and bring first to the top
+				WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
+				unsigned char pos = expression.context[first].stackPosition + 1;
+				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
+				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
+
+				expression.swapWithTop( 1, false );
+				expression.swapWithTop( expression.context[first].stackPosition, false );
+			}
 			else
 			{
 				// first and second are both loaded but neither
@@ -4266,9 +4277,11 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				pos = expression.context[second].stackPosition + 1;
 				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
 
+				// mirror what the opcode does: first to the top, then second to the next slot
+				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( 1, false );
 				expression.swapWithTop( expression.context[second].stackPosition, false );
 				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
 			}
 
 			appendBytecode( expression.bytecode, expression.context[o].bytecode ); // apply operator
@@ -4360,7 +4373,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 					WRCompilationContext::pushOpcode( expression.bytecode, O_SwapTwoToTop );
 					unsigned char pos = expression.context[first].stackPosition + 1;
 					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
-					pos = 2;
+					// that swap left second where first was
 					WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
 					
 					expression.swapWithTop( 1, false );
@@ -4377,9 +4390,11 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 				pos = expression.context[second].stackPosition + 1;
 				WRCompilationContext::pushData( expression.bytecode, &pos, 1 );
 
+				// mirror what the opcode does: first to the top, then second to the next slot
+				expression.swapWithTop( expression.context[first].stackPosition, false );
+				expression.swapWithTop( 1, false );
 				expression.swapWithTop( expression.context[second].stackPosition, false );
 				expression.swapWithTop( 1, false );
-				expression.swapWithTop( expression.context[first].stackPosition, false );
 			}
 
 			if ( useAlt )
-- 
2.43.0


From 1d2725f039e316531e6a545c37033658be9260fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:43 +0000
Subject: [PATCH 08/89] fix: compound assignment to a container element no
 longer overwrites its right-hand operand

---
 discrete_src/vm/operations_compact.cpp     |  9 ++--
 discrete_src/vm/operations_non_compact.cpp | 44 ++++++++++--------
 src/wrench.cpp                             | 53 +++++++++++++---------
 3 files changed, 64 insertions(+), 42 deletions(-)

diff --git a/discrete_src/vm/operations_compact.cpp b/discrete_src/vm/operations_compact.cpp
index 0464466..e08ad45 100644
--- a/discrete_src/vm/operations_compact.cpp
+++ b/discrete_src/vm/operations_compact.cpp
@@ -54,7 +54,7 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
@@ -90,7 +90,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = temp;
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -107,7 +109,8 @@ void FuncAssign_R_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 
 void FuncAssign_X_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(to->type<<2)+from->r->type](to, from->r, intCall, floatCall); *from = *to;
+	WRValue temp = *from->r;
+	wr_FuncAssign[(to->type<<2)+temp.type](to, &temp, intCall, floatCall); *from = *to;
 }
 
 void FuncAssign_F_F( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index ed57c97..8fb6881 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -53,7 +53,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -64,7 +64,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = temp; }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -107,7 +107,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -126,14 +126,16 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_SubtractAssign_R_I( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_SubtractAssign_R_F( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
@@ -167,7 +169,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -186,14 +188,16 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_MultiplyAssign_R_I( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
@@ -227,7 +231,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -246,14 +250,16 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_DivideAssign_R_I( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_DivideAssign_R_F( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 
 void wr_DivideAssign_F_F( WRValue* to, WRValue* from )
 {
@@ -356,7 +362,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
@@ -386,7 +392,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -405,8 +413,8 @@ void wr_AddAssign_R_I( WRValue* to, WRValue* from )
 	}
 }
 void wr_AddAssign_R_F( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 576535c..f2783f2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18422,7 +18422,7 @@ void FuncAssign_E_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_FuncAssign[(WR_EX<<2)|V.type]( to, &V, intCall, floatCall );
 		*from = to->deref();
@@ -18458,7 +18458,9 @@ void FuncAssign_X_E( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 }
 void FuncAssign_E_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(WR_EX<<2)|from->r->type](to, from->r, intCall, floatCall);
+	WRValue temp = *from->r;
+	wr_FuncAssign[(WR_EX<<2)|temp.type](to, &temp, intCall, floatCall);
+	*from = temp;
 }
 
 void FuncAssign_R_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -18475,7 +18477,8 @@ void FuncAssign_R_X( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFl
 
 void FuncAssign_X_R( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
 {
-	wr_FuncAssign[(to->type<<2)+from->r->type](to, from->r, intCall, floatCall); *from = *to;
+	WRValue temp = *from->r;
+	wr_FuncAssign[(to->type<<2)+temp.type](to, &temp, intCall, floatCall); *from = *to;
 }
 
 void FuncAssign_F_F( WRValue* to, WRValue* from, WRFuncIntCall intCall, WRFuncFloatCall floatCall )
@@ -18682,7 +18685,7 @@ void NAME##Assign_E_I( WRValue* to, WRValue* from )\
 }\
 void NAME##Assign_E_E( WRValue* to, WRValue* from ) \
 {\
-	WRValue& V = from->singleValue();\
+	WRValue V = from->singleValue();\
 	\
 	NAME##Assign[(WR_EX<<2)+V.type]( to, &V );\
 	*from = to->deref();\
@@ -18693,7 +18696,7 @@ void NAME##Assign_I_E( WRValue* to, WRValue* from )\
 	NAME##Assign[(WR_INT<<2)+V.type](to, &V);\
 	*from = *to;\
 }\
-void NAME##Assign_E_R( WRValue* to, WRValue* from ) { NAME##Assign[(WR_EX<<2)|from->r->type]( to, from->r ); }\
+void NAME##Assign_E_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(WR_EX<<2)|temp.type]( to, &temp ); *from = temp; }\
 void NAME##Assign_R_E( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }\
 void NAME##Assign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; NAME##Assign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }\
 void NAME##Assign_R_I( WRValue* to, WRValue* from ) { NAME##Assign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }\
@@ -18736,7 +18739,7 @@ void wr_SubtractAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_SubtractAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18755,14 +18758,16 @@ void wr_SubtractAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_SubtractAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_SubtractAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_SubtractAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_SubtractAssign_R_E( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_SubtractAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_SubtractAssign_R_I( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_SubtractAssign_R_F( WRValue* to, WRValue* from ) { wr_SubtractAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { wr_SubtractAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_SubtractAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_SubtractAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_SubtractAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_SubtractAssign_F_F( WRValue* to, WRValue* from ) { to->f -= from->f; }
 void wr_SubtractAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_isub_wrap( to->i, from->i ); }
 void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }
@@ -18796,7 +18801,7 @@ void wr_MultiplyAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_MultiplyAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18815,14 +18820,16 @@ void wr_MultiplyAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_MultiplyAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_MultiplyAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_MultiplyAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_MultiplyAssign_R_E( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_MultiplyAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_MultiplyAssign_R_I( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_MultiplyAssign_R_F( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { wr_MultiplyAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_MultiplyAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_MultiplyAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_MultiplyAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_MultiplyAssign_F_F( WRValue* to, WRValue* from ) { to->f *= from->f; }
 void wr_MultiplyAssign_I_I( WRValue* to, WRValue* from ) { to->i *= from->i; }
 void wr_MultiplyAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i * from->f; }
@@ -18856,7 +18863,7 @@ void wr_DivideAssign_E_F( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_E( WRValue* to, WRValue* from ) 
 {
-	WRValue& V = from->singleValue();
+	WRValue V = from->singleValue();
 
 	wr_DivideAssign[(WR_EX<<2)|V.type]( to, &V );
 	*from = to->deref();
@@ -18875,14 +18882,16 @@ void wr_DivideAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_DivideAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_DivideAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_DivideAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_DivideAssign_R_E( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; } 
 void wr_DivideAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
 void wr_DivideAssign_R_I( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_INT](to->r, from); *from = *to->r; }
 void wr_DivideAssign_R_F( WRValue* to, WRValue* from ) { wr_DivideAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { wr_DivideAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_DivideAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_DivideAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_DivideAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 
 void wr_DivideAssign_F_F( WRValue* to, WRValue* from )
 {
@@ -18985,7 +18994,7 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 {
 	if ( IS_CONTAINER_MEMBER(from->xtype) )
 	{
-		WRValue& V = from->deref();
+		WRValue V = from->deref();
 
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
@@ -19015,7 +19024,9 @@ void wr_AddAssign_F_E( WRValue* to, WRValue* from )
 }
 void wr_AddAssign_E_R( WRValue* to, WRValue* from )
 {
-	wr_AddAssign[(WR_EX<<2)|from->r->type]( to, from->r );
+	WRValue temp = *from->r;
+	wr_AddAssign[(WR_EX<<2)|temp.type]( to, &temp );
+	*from = temp;
 }
 void wr_AddAssign_R_E( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_EX](to->r, from); *from = *to->r; }
 void wr_AddAssign_R_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(to->r->type<<2)|temp.type](to->r, &temp); *from = *to->r; }
@@ -19034,8 +19045,8 @@ void wr_AddAssign_R_I( WRValue* to, WRValue* from )
 	}
 }
 void wr_AddAssign_R_F( WRValue* to, WRValue* from ) { wr_AddAssign[(to->r->type<<2)|WR_FLOAT](to->r, from); *from = *to->r; }
-void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_INT<<2)+from->r->type](to, from->r); *from = *to; }
-void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { wr_AddAssign[(WR_FLOAT<<2)+from->r->type](to, from->r); *from = *to; }
+void wr_AddAssign_I_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_INT<<2)+temp.type](to, &temp); *from = *to; }
+void wr_AddAssign_F_R( WRValue* to, WRValue* from ) { WRValue temp = *from->r; wr_AddAssign[(WR_FLOAT<<2)+temp.type](to, &temp); *from = *to; }
 void wr_AddAssign_F_F( WRValue* to, WRValue* from ) { to->f += from->f; }
 void wr_AddAssign_I_I( WRValue* to, WRValue* from ) { to->i = wr_iadd_wrap( to->i, from->i ); }
 void wr_AddAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i + from->f; }
-- 
2.43.0


From 75138d11ca2c614e798ae63fd5f138405da4e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:07 +0000
Subject: [PATCH 09/89] fix: concatenation involving container elements, local
 + global order, and INT_MIN to text

---
 discrete_src/cc/optimizer.cpp  | 11 ++------
 discrete_src/lib/std.cpp       |  8 ++----
 discrete_src/vm/operations.cpp | 29 ++++++++++++++++++++
 src/wrench.cpp                 | 48 +++++++++++++++++++++++-----------
 4 files changed, 66 insertions(+), 30 deletions(-)

diff --git a/discrete_src/cc/optimizer.cpp b/discrete_src/cc/optimizer.cpp
index 87d2ae7..aadaa60 100644
--- a/discrete_src/cc/optimizer.cpp
+++ b/discrete_src/cc/optimizer.cpp
@@ -533,15 +533,8 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.all.shave(1);
 				bytecode.opcodes.clear();
 			}
-			else if ( bytecode.opcodes[o] == O_LoadFromLocal
-					  && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-			{
-				bytecode.all[ a - 3 ] = O_GLBinaryAddition;
-				bytecode.all[ a - 1 ] = bytecode.all[ a - 2 ];
-				bytecode.all[ a - 2 ] = bytecode.all[ a ];
-				bytecode.all.shave(1);
-				bytecode.opcodes.clear();
-			}
+			// "local + global" is not fused: GLBinaryAddition would reverse
+			// the operands, and concatenation does not commute
 			else if ( bytecode.opcodes[o] == O_LoadFromGlobal
 					  && bytecode.opcodes[o-1] == O_LoadFromLocal )
 			{
diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 7c63678..26fb856 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -93,15 +93,11 @@ int wr_itoa( int i, char* string, size_t len )
 {
 	char buf[12];
 	size_t pos = 0;
-	int val;
+	unsigned int val = (unsigned int)i;
 	if ( i < 0 )
 	{
 		string[pos++] = '-';
-		val = -i;
-	}
-	else
-	{
-		val = i;
+		val = 0u - val; // the magnitude of INT_MIN does not fit an int
 	}
 
 	int digit = 0;
diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index deb8ccb..c276559 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -35,6 +35,35 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	char* str = buf;
 	unsigned int len;
 
+	if ( (to == target) && IS_CONTAINER_MEMBER(to->xtype) && !IS_RAW_ARRAY(to->r->xtype) )
+	{
+		// appending to an element: the result belongs in the container
+		WRValue element = to->deref();
+		WRValue result;
+		result.init();
+		if ( !wr_concatStringCheck(&element, from, &result) )
+		{
+			return false;
+		}
+
+		wr_valueToEx( to, &result );
+		return true;
+	}
+
+	// elements concatenate by value
+	WRValue toElement;
+	WRValue fromElement;
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		toElement = to->deref();
+		to = &toElement;
+	}
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		fromElement = from->deref();
+		from = &fromElement;
+	}
+
 	if ( IS_ARRAY(to->xtype) && to->va->m_type == SV_CHAR && !(to->va->m_flags & GCFlag_NoContext) )
 	{
 		if ( IS_ARRAY(from->xtype) && from->va->m_type == SV_CHAR )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f2783f2..a4359b5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -7999,15 +7999,8 @@ void WRCompilationContext::pushOpcode( WRBytecode& bytecode, WROpcode opcode )
 				bytecode.all.shave(1);
 				bytecode.opcodes.clear();
 			}
-			else if ( bytecode.opcodes[o] == O_LoadFromLocal
-					  && bytecode.opcodes[o-1] == O_LoadFromGlobal )
-			{
-				bytecode.all[ a - 3 ] = O_GLBinaryAddition;
-				bytecode.all[ a - 1 ] = bytecode.all[ a - 2 ];
-				bytecode.all[ a - 2 ] = bytecode.all[ a ];
-				bytecode.all.shave(1);
-				bytecode.opcodes.clear();
-			}
+			// "local + global" is not fused: GLBinaryAddition would reverse
+			// the operands, and concatenation does not commute
 			else if ( bytecode.opcodes[o] == O_LoadFromGlobal
 					  && bytecode.opcodes[o-1] == O_LoadFromLocal )
 			{
@@ -17939,6 +17932,35 @@ bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 	char* str = buf;
 	unsigned int len;
 
+	if ( (to == target) && IS_CONTAINER_MEMBER(to->xtype) && !IS_RAW_ARRAY(to->r->xtype) )
+	{
+		// appending to an element: the result belongs in the container
+		WRValue element = to->deref();
+		WRValue result;
+		result.init();
+		if ( !wr_concatStringCheck(&element, from, &result) )
+		{
+			return false;
+		}
+
+		wr_valueToEx( to, &result );
+		return true;
+	}
+
+	// elements concatenate by value
+	WRValue toElement;
+	WRValue fromElement;
+	if ( IS_CONTAINER_MEMBER(to->xtype) )
+	{
+		toElement = to->deref();
+		to = &toElement;
+	}
+	if ( IS_CONTAINER_MEMBER(from->xtype) )
+	{
+		fromElement = from->deref();
+		from = &fromElement;
+	}
+
 	if ( IS_ARRAY(to->xtype) && to->va->m_type == SV_CHAR && !(to->va->m_flags & GCFlag_NoContext) )
 	{
 		if ( IS_ARRAY(from->xtype) && from->va->m_type == SV_CHAR )
@@ -19896,15 +19918,11 @@ int wr_itoa( int i, char* string, size_t len )
 {
 	char buf[12];
 	size_t pos = 0;
-	int val;
+	unsigned int val = (unsigned int)i;
 	if ( i < 0 )
 	{
 		string[pos++] = '-';
-		val = -i;
-	}
-	else
-	{
-		val = i;
+		val = 0u - val; // the magnitude of INT_MIN does not fit an int
 	}
 
 	int digit = 0;
-- 
2.43.0


From e11a0f242ecaca33f187075f4f7af1852c95dc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:38 +0000
Subject: [PATCH 10/89] fix: continue inside a foreach loop restarted the loop

---
 discrete_src/cc/cc.cpp | 3 +++
 src/wrench.cpp         | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index e4a31cd..6fc4192 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2322,6 +2322,9 @@ A:
 		{
 			return false;
 		}
+
+		// <- continue point
+		setRelativeJumpTarget( m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
 	}
 	else
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a4359b5..a5747f9 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5360,6 +5360,9 @@ A:
 		{
 			return false;
 		}
+
+		// <- continue point
+		setRelativeJumpTarget( m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
 	}
 	else
 	{
-- 
2.43.0


From 887bb7b044727421810c84fe6d307b26fca7c7da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:31 +0000
Subject: [PATCH 11/89] fix: the first local of a called function was not
 initialised

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index c1fee4c..711595b 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1050,8 +1050,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a5747f9..a1d36c6 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11227,8 +11227,8 @@ callFunction:
 				// initialize locals to int zero
 				for( int l=0; l<function->frameSpaceNeeded; ++l )
 				{
-					(stackTop++)->p2 = INIT_AS_INT;
 					stackTop->p = 0;
+					(stackTop++)->p2 = INIT_AS_INT;
 				}
 			
 				// temp value contains return vector/frame base
-- 
2.43.0


From c92242a3ed362d94021a50a0f74995d8225bc7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:25 +0000
Subject: [PATCH 12/89] fix: reject functions, calls and programs whose size
 does not fit the bytecode fields

---
 discrete_src/cc/cc.cpp   |  6 ++++++
 discrete_src/cc/link.cpp |  7 ++++++-
 src/wrench.cpp           | 13 ++++++++++++-
 3 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 6fc4192..b425fde 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1458,6 +1458,12 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 				break;
 			}
 
+			if ( argsPushed == 255 )
+			{
+				m_err = WR_ERR_compiler_panic;
+				return 0;
+			}
+
 			++argsPushed;
 
 				WRExpression nex( expression.bytecode.localSpace, expression.bytecode.isStructSpace );
diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 8bba852..38cc0c6 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -120,7 +120,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 
 		// WRFunction.frameSpaceNeeded;
 		unsigned int frameSpaceNeeded = m_units[u].bytecode.localSpace.count() - m_units[u].arguments;
-		if ( frameSpaceNeeded > 255 )
+		if ( m_units[u].bytecode.localSpace.count() > 254 ) // frameBaseAdjustment must fit too
 		{
 			m_err = WR_ERR_compiler_panic;
 			return;
@@ -247,6 +247,11 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 				wr_pack16( base, code.p_str(m_units[u].offsetInBytecode) ); // WRFunction.namespaceOffset
 			}
 
+			if ( code.size() > 0xFFFF ) // function vectors are 16-bit
+			{
+				m_err = WR_ERR_compiler_panic;
+			}
+
 			base = code.size();
 			wr_pack16( base, code.p_str(m_units[u].offsetInBytecode + 2) ); // WRFunction.functionOffset
 		}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a1d36c6..2656663 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4496,6 +4496,12 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 				break;
 			}
 
+			if ( argsPushed == 255 )
+			{
+				m_err = WR_ERR_compiler_panic;
+				return 0;
+			}
+
 			++argsPushed;
 
 				WRExpression nex( expression.bytecode.localSpace, expression.bytecode.isStructSpace );
@@ -6555,7 +6561,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 
 		// WRFunction.frameSpaceNeeded;
 		unsigned int frameSpaceNeeded = m_units[u].bytecode.localSpace.count() - m_units[u].arguments;
-		if ( frameSpaceNeeded > 255 )
+		if ( m_units[u].bytecode.localSpace.count() > 254 ) // frameBaseAdjustment must fit too
 		{
 			m_err = WR_ERR_compiler_panic;
 			return;
@@ -6682,6 +6688,11 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 				wr_pack16( base, code.p_str(m_units[u].offsetInBytecode) ); // WRFunction.namespaceOffset
 			}
 
+			if ( code.size() > 0xFFFF ) // function vectors are 16-bit
+			{
+				m_err = WR_ERR_compiler_panic;
+			}
+
 			base = code.size();
 			wr_pack16( base, code.p_str(m_units[u].offsetInBytecode + 2) ); // WRFunction.functionOffset
 		}
-- 
2.43.0


From 415248be37ed457daabc0801a0cf5c9653d2e118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:14 +0000
Subject: [PATCH 13/89] fix: instances of a struct defined beyond 32K of
 bytecode

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 711595b..b4c5dac 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -102,7 +102,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 	}
 	else
 	{
-		uint32_t offset = READ_16_FROM_PC(pc);
+		uint32_t offset = (uint16_t)READ_16_FROM_PC(pc);
 		table = context->bottom + offset;
 	}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2656663..ea3a724 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10290,7 +10290,7 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 	}
 	else
 	{
-		uint32_t offset = READ_16_FROM_PC(pc);
+		uint32_t offset = (uint16_t)READ_16_FROM_PC(pc);
 		table = context->bottom + offset;
 	}
 
-- 
2.43.0


From 5842a2eb9bcc67a947a2e393f47a7e2a649355f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:14:27 +0000
Subject: [PATCH 14/89] fix: hash tables lost count when they grew and revived
 removed entries' values

---
 discrete_src/vm/gc_object.cpp | 18 ++++++++++++++++++
 src/wrench.cpp                | 18 ++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index ad49ef7..2dd664d 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -65,6 +65,7 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
+		m_size = 0; // counts the entries, size is only a hint for the table
 		growHash( WRENCH_NULL_HASH, size, &ret );
 	}
 
@@ -170,6 +171,18 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		{
 			++m_size;
 			m_hashTable[index] = hash;
+
+			// the slot might hold what was left by a removed entry
+			if ( m_type == SV_HASH_TABLE )
+			{
+				m_Vdata[index << 1].init();
+				m_Vdata[(index << 1) + 1].init();
+			}
+			else
+			{
+				m_Vdata[index].init();
+			}
+
 			return index;
 		}
 
@@ -266,6 +279,11 @@ tryAgain:
 			}
 		}
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size; // it already has its place in the new table
+		}
+
 		// accepted, link it into the existing table
 		base->m_type = SV_HASH_INTERNAL;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ea3a724..a97a0bf 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9750,6 +9750,7 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	}
 	else
 	{
+		m_size = 0; // counts the entries, size is only a hint for the table
 		growHash( WRENCH_NULL_HASH, size, &ret );
 	}
 
@@ -9855,6 +9856,18 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		{
 			++m_size;
 			m_hashTable[index] = hash;
+
+			// the slot might hold what was left by a removed entry
+			if ( m_type == SV_HASH_TABLE )
+			{
+				m_Vdata[index << 1].init();
+				m_Vdata[(index << 1) + 1].init();
+			}
+			else
+			{
+				m_Vdata[index].init();
+			}
+
 			return index;
 		}
 
@@ -9951,6 +9964,11 @@ tryAgain:
 			}
 		}
 
+		if ( hash != WRENCH_NULL_HASH )
+		{
+			++m_size; // it already has its place in the new table
+		}
+
 		// accepted, link it into the existing table
 		base->m_type = SV_HASH_INTERNAL;
 
-- 
2.43.0


From b9b84518202a11598e46961ab6db40bf7b201ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:18 +0000
Subject: [PATCH 15/89] fix: container library: positions out of range, missing
 arguments, items stored or returned by reference

---
 discrete_src/lib/std_container.cpp | 48 +++++++++++++++++++-----------
 src/wrench.cpp                     | 48 +++++++++++++++++++-----------
 2 files changed, 60 insertions(+), 36 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index 0ee1cb1..cfd7349 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -59,15 +59,14 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
-		unsigned int count = 0;
-		if ( argn > 1 )
+		int count = 0;
+		if ( argn > 1 && (count = args[1].asInt()) < 0 )
 		{
-			count = args[1].asInt();
+			count = 0;
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->p2 = INIT_AS_ARRAY;
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
@@ -91,8 +90,7 @@ void wr_arrayPeek( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER;// | ENCODE_ARRAY_ELEMENT_TO_P2( 0 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[0];
 	}
 }
 
@@ -107,23 +105,22 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( A->va->m_size - 1 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[A->va->m_size - 1];
 	}
 }
 
 //------------------------------------------------------------------------------
 void wr_arrayRemoveEx( WRValue* A, const unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
-	if ( where < A->va->m_size )
+	if ( (where < A->va->m_size) && (count > 0) )
 	{
-		unsigned int from = where + count;
-		if ( from >= A->va->m_size )
+		if ( (unsigned int)count >= A->va->m_size - where )
 		{
 			A->va->m_size = where; // simple truncation
 		}
 		else
 		{
+			unsigned int from = where + count;
 			unsigned int elements = A->va->m_size - from;
 
 			memmove( (char*)(A->va->m_Vdata + where), // to here
@@ -167,7 +164,7 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* A;
 	WRValue* args = stackTop - argn;
 
-	if( (argn < 1) || !(A = wr_ifValueArray(args)) )
+	if( (argn < 2) || !(A = wr_ifValueArray(args)) )
 	{
 		return;
 	}
@@ -184,9 +181,20 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+void wr_arrayInsertEx( WRValue* A, unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+
+	if ( count <= 0 )
+	{
+		return;
+	}
+
+	if ( where > originalSize )
+	{
+		where = originalSize; // beyond the end is the end
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 
@@ -282,8 +290,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
+	const WRValue item = args[1].deref();
+
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = item;
 }
 
 //------------------------------------------------------------------------------
@@ -297,8 +307,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
+	const WRValue item = args[1].deref();
+
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = item;
 }
 
 //------------------------------------------------------------------------------
@@ -364,7 +376,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a97a0bf..8b31f76 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23011,15 +23011,14 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 
 		WRValue* A = &(args->deref());
 
-		A->p2 = INIT_AS_ARRAY;
-
-		unsigned int count = 0;
-		if ( argn > 1 )
+		int count = 0;
+		if ( argn > 1 && (count = args[1].asInt()) < 0 )
 		{
-			count = args[1].asInt();
+			count = 0;
 		}
 		
-		A->va = c->getSVA( count, SV_VALUE, false );
+		A->p2 = INIT_AS_ARRAY;
+		A->va = c->getSVA( count, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
@@ -23043,8 +23042,7 @@ void wr_arrayPeek( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER;// | ENCODE_ARRAY_ELEMENT_TO_P2( 0 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[0];
 	}
 }
 
@@ -23059,23 +23057,22 @@ void wr_arrayPeekBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	if ( A->va->m_size > 0 )
 	{
-		stackTop->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( A->va->m_size - 1 );
-		stackTop->r = A;
+		*stackTop = A->va->m_Vdata[A->va->m_size - 1];
 	}
 }
 
 //------------------------------------------------------------------------------
 void wr_arrayRemoveEx( WRValue* A, const unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
-	if ( where < A->va->m_size )
+	if ( (where < A->va->m_size) && (count > 0) )
 	{
-		unsigned int from = where + count;
-		if ( from >= A->va->m_size )
+		if ( (unsigned int)count >= A->va->m_size - where )
 		{
 			A->va->m_size = where; // simple truncation
 		}
 		else
 		{
+			unsigned int from = where + count;
 			unsigned int elements = A->va->m_size - from;
 
 			memmove( (char*)(A->va->m_Vdata + where), // to here
@@ -23119,7 +23116,7 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* A;
 	WRValue* args = stackTop - argn;
 
-	if( (argn < 1) || !(A = wr_ifValueArray(args)) )
+	if( (argn < 2) || !(A = wr_ifValueArray(args)) )
 	{
 		return;
 	}
@@ -23136,9 +23133,20 @@ void wr_arrayTruncate( WRValue* stackTop, const int argn, WRContext* c )
 }
 
 //------------------------------------------------------------------------------
-void wr_arrayInsertEx( WRValue* A, const unsigned int where, const unsigned int count, WRValue* stackTop, WRContext* c )
+void wr_arrayInsertEx( WRValue* A, unsigned int where, const int count, WRValue* stackTop, WRContext* c )
 {
 	unsigned int originalSize = A->va->m_size;
+
+	if ( count <= 0 )
+	{
+		return;
+	}
+
+	if ( where > originalSize )
+	{
+		where = originalSize; // beyond the end is the end
+	}
+
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
 
@@ -23234,8 +23242,10 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 
 	const unsigned int where = A->va->m_size;
 
+	const WRValue item = args[1].deref();
+
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
-	A->va->m_Vdata[where] = args[1];
+	A->va->m_Vdata[where] = item;
 }
 
 //------------------------------------------------------------------------------
@@ -23249,8 +23259,10 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 		return;
 	}
 
+	const WRValue item = args[1].deref();
+
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
-	A->va->m_Vdata[0] = args[1];
+	A->va->m_Vdata[0] = item;
 }
 
 //------------------------------------------------------------------------------
@@ -23316,7 +23328,7 @@ void wr_hashExistEx( WRValue* stackTop, const int argn, bool remove )
 	WRValue* args = stackTop - argn;
 	if( (argn >= 2) && (H = wr_ifHash(args)) )
 	{
-		stackTop->p = H->va->exists( args[1].getHash(), remove );
+		stackTop->i = H->va->exists( args[1].getHash(), remove ) ? 1 : 0;
 	}
 }
 
-- 
2.43.0


From 7ae8851dd4788bd7bb2ff0c5104d06a4f7eacc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:42 +0000
Subject: [PATCH 16/89] fix: removing an array element that does not exist
 shrank the array

---
 discrete_src/vm/vm.cpp | 5 +++++
 src/wrench.cpp         | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index b4c5dac..33deca7 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1209,6 +1209,11 @@ callFunction:
 				else if ( register0->xtype == WR_EX_ARRAY )
 				{
 					va = register0->va;
+					if ( hash >= va->m_size )
+					{
+						FASTCONTINUE;
+					}
+
 					if (va->m_type == SV_VALUE )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8b31f76..7777acd 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11415,6 +11415,11 @@ callFunction:
 				else if ( register0->xtype == WR_EX_ARRAY )
 				{
 					va = register0->va;
+					if ( hash >= va->m_size )
+					{
+						FASTCONTINUE;
+					}
+
 					if (va->m_type == SV_VALUE )
 					{
 						for( uint32_t move = hash; (move+1) < va->m_size; ++move )
-- 
2.43.0


From 3aff4106d50cc365736a6b047800d00969c618e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:38 +0000
Subject: [PATCH 17/89] fix: assigning an initializer list to an element
 replaced the whole container

---
 discrete_src/cc/cc.cpp | 1 +
 src/wrench.cpp         | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index b425fde..09952a2 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1669,6 +1669,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 	
 	// start a value ... was something declared in front of us?
 	if ( depth == 3
+		 && (expression.context[0].varSeen || !m_needVar) // otherwise it's an element being assigned
 		 && expression.context[0].type == EXTYPE_LABEL
 		 && expression.context[1].type == EXTYPE_OPERATION
 		 && expression.context[1].operation->opcode
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7777acd..2a55a14 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4707,6 +4707,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 	
 	// start a value ... was something declared in front of us?
 	if ( depth == 3
+		 && (expression.context[0].varSeen || !m_needVar) // otherwise it's an element being assigned
 		 && expression.context[0].type == EXTYPE_LABEL
 		 && expression.context[1].type == EXTYPE_OPERATION
 		 && expression.context[1].operation->opcode
-- 
2.43.0


From dcfc243c6d8ae983019fb9802632f54572a06f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:38:59 +0000
Subject: [PATCH 18/89] fix: accessing h.name replaced the entry's key by its
 hash

---
 discrete_src/vm/index.cpp | 6 +++++-
 src/wrench.cpp            | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 9f9e608..8f67971 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -71,10 +71,14 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 	if ( value->xtype == WR_EX_HASH_TABLE ) 
 	{
 		int element;
+		const uint32_t entries = value->va->m_size;
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
+		if ( value->va->m_size != entries )
+		{
+			*(entry + 1) = *index; // first time it was registered
+		}
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2a55a14..b99c6e0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19664,10 +19664,14 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 	if ( value->xtype == WR_EX_HASH_TABLE ) 
 	{
 		int element;
+		const uint32_t entries = value->va->m_size;
 		WRValue* entry = (WRValue*)(value->va->get(hash, &element));
 
 		// need to create a hash ref
-		*(entry + 1) = *index; // might be the first time it was registered
+		if ( value->va->m_size != entries )
+		{
+			*(entry + 1) = *index; // first time it was registered
+		}
 
 		target->p2 = INIT_AS_CONTAINER_MEMBER | ENCODE_ARRAY_ELEMENT_TO_P2( element );
 		target->vb = (WRGCBase*)(value->va->m_Vdata) - 1;
-- 
2.43.0


From 8a5693d3d7604cf66110038f1b77d64efc0956fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:45:38 +0000
Subject: [PATCH 19/89] fix: small negative literals as hash keys

---
 discrete_src/vm/vm.cpp | 6 +++---
 src/wrench.cpp         | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 33deca7..929daa4 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1521,7 +1521,7 @@ compactLoadBZ8:
 
 			CASE(IndexLiteral8):
 			{
-				stackTop->i = READ_8_FROM_PC(pc++);
+				stackTop->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 indexLiteral:
 				stackTop->p2 = INIT_AS_INT;
 				register0 = stackTop - 1;
@@ -1549,7 +1549,7 @@ indexLiteral:
 #ifdef WRENCH_COMPACT
 indexTempLiteral:
 #endif
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 #ifdef WRENCH_COMPACT
 indexTempLiteralPostLoad:
 #endif
@@ -1580,7 +1580,7 @@ indexTempLiteralPostLoad:
 #ifdef WRENCH_COMPACT
 				goto indexTempLiteral;
 #else
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
 				CHECK_STACK;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b99c6e0..444c156 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11728,7 +11728,7 @@ compactLoadBZ8:
 
 			CASE(IndexLiteral8):
 			{
-				stackTop->i = READ_8_FROM_PC(pc++);
+				stackTop->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 indexLiteral:
 				stackTop->p2 = INIT_AS_INT;
 				register0 = stackTop - 1;
@@ -11756,7 +11756,7 @@ indexLiteral:
 #ifdef WRENCH_COMPACT
 indexTempLiteral:
 #endif
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 #ifdef WRENCH_COMPACT
 indexTempLiteralPostLoad:
 #endif
@@ -11787,7 +11787,7 @@ indexTempLiteralPostLoad:
 #ifdef WRENCH_COMPACT
 				goto indexTempLiteral;
 #else
-				(++stackTop)->i = READ_8_FROM_PC(pc++);
+				(++stackTop)->i = (int32_t)(int8_t)READ_8_FROM_PC(pc++);
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
 				CHECK_STACK;
-- 
2.43.0


From 73d76961b89c92e4e51580adb8e7f854ae6a3266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:51:25 +0000
Subject: [PATCH 20/89] fix: hash table entries after an entry whose value is a
 container were rejected

---
 discrete_src/cc/cc.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 09952a2..e23a7ec 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1716,7 +1716,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 	
 		if ( token == ',' )
 		{
-			if ( initializer == 0 )
+			if ( initializer == 0 && !inHashTable )
 			{
 				m_err = WR_ERR_bad_expression;
 				return -1;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 444c156..0c5d9fa 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4754,7 +4754,7 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 	
 		if ( token == ',' )
 		{
-			if ( initializer == 0 )
+			if ( initializer == 0 && !inHashTable )
 			{
 				m_err = WR_ERR_bad_expression;
 				return -1;
-- 
2.43.0


From 2a452903d9320b3e33e056dcae0ad62926f0f657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:33 +0000
Subject: [PATCH 21/89] fix: destroying a context leaked everything it
 allocated when the collection threshold was above 64K

---
 discrete_src/utils/utils.cpp | 2 +-
 src/wrench.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a1c1a99..17bf58d 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -485,7 +485,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = (uint32_t)-1; // beyond any limit
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0c5d9fa..400937b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13964,7 +13964,7 @@ void wr_destroyContextEx( WRContext* context )
 {
 	// g_free all memory allocations by forcing the gc to collect everything
 	context->globals = 0;
-	context->allocatedMemoryHint = (uint16_t)-1;
+	context->allocatedMemoryHint = (uint32_t)-1; // beyond any limit
 	context->gc( 0 );
 
 	wr_freeGCChain( context->registry.m_nextGC );
-- 
2.43.0


From 813b27c122f32aaca3ad36c6822f083a9c0c5c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:13 +0000
Subject: [PATCH 22/89] fix: collecting a container that contains itself
 recursed forever

---
 discrete_src/vm/gc.cpp | 4 ++--
 src/wrench.cpp         | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index f7968bb..a922c54 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -27,6 +27,8 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	svb->m_flags |= GCFlag_Marked; // before descending, a container may (indirectly) contain itself
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -57,8 +59,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 400937b..2d38f5f 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10054,6 +10054,8 @@ SOFTWARE.
 //------------------------------------------------------------------------------
 void WRContext::markBase( WRGCBase* svb )
 {
+	svb->m_flags |= GCFlag_Marked; // before descending, a container may (indirectly) contain itself
+
 	if ( svb->m_type == SV_VALUE )
 	{
 		WRValue* top = ((WRGCObject*)svb)->m_Vdata + ((WRGCObject*)svb)->m_size;
@@ -10084,8 +10086,6 @@ void WRContext::markBase( WRGCBase* svb )
 		// mark the referenced table so it is not collected
 		((WRGCBase*)svb)->m_referencedTable->m_flags |= GCFlag_Marked;
 	}
-
-	svb->m_flags |= GCFlag_Marked;
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From d8ca33bc772a76a80d2dedd43191c02fa76923fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:03 +0000
Subject: [PATCH 23/89] fix: importing from a running function or into a
 yielded context overwrote the live stack

---
 discrete_src/lib/std_sys.cpp | 14 ++++++++++++--
 discrete_src/utils/utils.cpp |  5 +++++
 src/wrench.cpp               | 19 +++++++++++++++++--
 3 files changed, 34 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_sys.cpp b/discrete_src/lib/std_sys.cpp
index d29774e..cf5d775 100644
--- a/discrete_src/lib/std_sys.cpp
+++ b/discrete_src/lib/std_sys.cpp
@@ -45,6 +45,16 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	}
 }
 
+//------------------------------------------------------------------------------
+// import from inside a running script: everything up to and including stackTop is in use
+static void wr_importAbove( WRValue* stackTop, WRContext* c, const unsigned char* block, const int blockSize )
+{
+	const uint16_t savedOffset = c->stackOffset;
+	c->stackOffset = (uint16_t)(stackTop + 1 - c->stack);
+	wr_import( c, block, blockSize, true );
+	c->stackOffset = savedOffset;
+}
+
 //------------------------------------------------------------------------------
 void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 {
@@ -59,7 +69,7 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			wr_importAbove( stackTop, c, import, len );
 		}
 		else
 		{
@@ -81,7 +91,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				wr_importAbove( stackTop, c, out, outlen );
 			}
 		}
 	}
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 17bf58d..a228eca 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -391,6 +391,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	// the stack is shared, run above whatever the importing context has live on it
+	import->stackOffset = context->yield_pc ? (uint16_t)(context->yield_stackTop + 1 - context->stack) : context->stackOffset;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -398,6 +401,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = 0;
+
 	import->imported = context->imported;
 	context->imported = import;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2d38f5f..7040e1b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13870,6 +13870,9 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	// the stack is shared, run above whatever the importing context has live on it
+	import->stackOffset = context->yield_pc ? (uint16_t)(context->yield_stackTop + 1 - context->stack) : context->stackOffset;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -13877,6 +13880,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->stackOffset = 0;
+
 	import->imported = context->imported;
 	context->imported = import;
 
@@ -22823,6 +22828,16 @@ void wr_isFunction( WRValue* stackTop, const int argn, WRContext* c )
 	}
 }
 
+//------------------------------------------------------------------------------
+// import from inside a running script: everything up to and including stackTop is in use
+static void wr_importAbove( WRValue* stackTop, WRContext* c, const unsigned char* block, const int blockSize )
+{
+	const uint16_t savedOffset = c->stackOffset;
+	c->stackOffset = (uint16_t)(stackTop + 1 - c->stack);
+	wr_import( c, block, blockSize, true );
+	c->stackOffset = savedOffset;
+}
+
 //------------------------------------------------------------------------------
 void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 {
@@ -22837,7 +22852,7 @@ void wr_importByteCode( WRValue* stackTop, const int argn, WRContext* c )
 			if(!import) { g_mallocFailed = true; return; }
 #endif
 			memcpy( (char*)import, data, len );
-			wr_import( c, import, len, true );
+			wr_importAbove( stackTop, c, import, len );
 		}
 		else
 		{
@@ -22859,7 +22874,7 @@ void wr_importCompile( WRValue* stackTop, const int argn, WRContext* c )
 			int outlen;
 			if ( (stackTop->i = wr_compile(data, len, &out, &outlen)) == WR_ERR_None )
 			{
-				wr_import( c, out, outlen, true );
+				wr_importAbove( stackTop, c, out, outlen );
 			}
 		}
 	}
-- 
2.43.0


From 952bb78e37dc0ff6182f28e035016f618acecc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:31:26 +0000
Subject: [PATCH 24/89] fix: a bytecode block handed over with takeOwnership
 leaked when it was rejected

---
 discrete_src/utils/utils.cpp | 24 ++++++++++++++++--------
 src/wrench.cpp               | 24 ++++++++++++++++--------
 2 files changed, 32 insertions(+), 16 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index a228eca..df87e81 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -273,21 +273,31 @@ bool wr_executeFunctionZero( WRContext* context )
 	return wr_executeContext(context) ? true : false;
 }
 
+//------------------------------------------------------------------------------
+static WRContext* wr_rejectBlock( WRState* w, const unsigned char* block, const bool takeOwnership, const WRError err )
+{
+	if ( takeOwnership ) // it is ours to free, whether or not it could be used
+	{
+		g_free( (void*)block );
+	}
+
+	w->err = err;
+	return 0;
+}
+
 //------------------------------------------------------------------------------
 WRContext* wr_createContext( WRState* w, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stack )
 {
 	if ( blockSize < 8 )
 	{
-		w->err = WR_ERR_bad_bytecode_CRC;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_bad_bytecode_CRC );
 	}
 
 	// CRC the code block, at least is it what the compiler intended?
 	uint32_t hash = READ_32_FROM_PC(block + (blockSize - 4));
 	if ( hash != wr_hash_read8(block, (blockSize - 4)) + WRENCH_VERSION_MAJOR )
 	{
-		w->err = WR_ERR_bad_bytecode_CRC;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_bad_bytecode_CRC );
 	}
 
 	int globals = READ_8_FROM_PC( block );
@@ -297,8 +307,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 	int headerSize = 3 + (localFuncs * WR_FUNCTION_CORE_SIZE);
 	if ( headerSize + 4 > blockSize )
 	{
-		w->err = WR_ERR_bad_bytecode_CRC;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_bad_bytecode_CRC );
 	}
 	
 	int needed = sizeof(WRContext) // class
@@ -310,8 +319,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !C )
 	{
-		w->err = WR_ERR_malloc_failed;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_malloc_failed );
 	}
 #endif
 	
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7040e1b..b4458de 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -13752,21 +13752,31 @@ bool wr_executeFunctionZero( WRContext* context )
 	return wr_executeContext(context) ? true : false;
 }
 
+//------------------------------------------------------------------------------
+static WRContext* wr_rejectBlock( WRState* w, const unsigned char* block, const bool takeOwnership, const WRError err )
+{
+	if ( takeOwnership ) // it is ours to free, whether or not it could be used
+	{
+		g_free( (void*)block );
+	}
+
+	w->err = err;
+	return 0;
+}
+
 //------------------------------------------------------------------------------
 WRContext* wr_createContext( WRState* w, const unsigned char* block, const int blockSize, bool takeOwnership, WRValue* stack )
 {
 	if ( blockSize < 8 )
 	{
-		w->err = WR_ERR_bad_bytecode_CRC;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_bad_bytecode_CRC );
 	}
 
 	// CRC the code block, at least is it what the compiler intended?
 	uint32_t hash = READ_32_FROM_PC(block + (blockSize - 4));
 	if ( hash != wr_hash_read8(block, (blockSize - 4)) + WRENCH_VERSION_MAJOR )
 	{
-		w->err = WR_ERR_bad_bytecode_CRC;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_bad_bytecode_CRC );
 	}
 
 	int globals = READ_8_FROM_PC( block );
@@ -13776,8 +13786,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 	int headerSize = 3 + (localFuncs * WR_FUNCTION_CORE_SIZE);
 	if ( headerSize + 4 > blockSize )
 	{
-		w->err = WR_ERR_bad_bytecode_CRC;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_bad_bytecode_CRC );
 	}
 	
 	int needed = sizeof(WRContext) // class
@@ -13789,8 +13798,7 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !C )
 	{
-		w->err = WR_ERR_malloc_failed;
-		return 0;
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_malloc_failed );
 	}
 #endif
 	
-- 
2.43.0


From edd1ef0fc5bec72ae7367fa6681d6ddf385c4496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:24 +0000
Subject: [PATCH 25/89] fix: disassembling leaked the context it creates

---
 discrete_src/debug/disassemble.cpp | 2 +-
 src/wrench.cpp                     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/debug/disassemble.cpp b/discrete_src/debug/disassemble.cpp
index 61a99e8..29a8154 100644
--- a/discrete_src/debug/disassemble.cpp
+++ b/discrete_src/debug/disassemble.cpp
@@ -721,7 +721,7 @@ void wr_disassemble( const uint8_t* bytecode, const unsigned int len, WRstr& out
 		return;
 	}
 
-	WRContext* context = wr_createContext( w, bytecode, (int)len, false );
+	WRContext* context = wr_newContext( w, bytecode, (int)len, false );
 	if ( !context )
 	{
 		out.appendFormat( "err: context failed (%s)\n", c_errStrings[wr_getLastError(w)] );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b4458de..1f0fb7b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -16737,7 +16737,7 @@ void wr_disassemble( const uint8_t* bytecode, const unsigned int len, WRstr& out
 		return;
 	}
 
-	WRContext* context = wr_createContext( w, bytecode, (int)len, false );
+	WRContext* context = wr_newContext( w, bytecode, (int)len, false );
 	if ( !context )
 	{
 		out.appendFormat( "err: context failed (%s)\n", c_errStrings[wr_getLastError(w)] );
-- 
2.43.0


From 2848445a7b0e23b358096d716e7a7a4a29c62df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:50 +0000
Subject: [PATCH 26/89] fix: a stale value above the stack was treated as a
 root when a library function or host call collected

---
 discrete_src/vm/vm.cpp | 5 ++++-
 src/wrench.cpp         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 929daa4..2104100 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -726,7 +726,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
@@ -1119,6 +1119,9 @@ callFunction:
 
 			CASE(CallLibFunctionAndPop):
 			{
+				stackTop->p2 = INIT_AS_INT;
+				stackTop->p = 0;
+
 				args = READ_8_FROM_PC(pc++); // which have already been pushed
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 1f0fb7b..0693b72 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10933,7 +10933,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 		
 		pc = context->stopLocation;
 
-		context->gc( stackTop + 1 );
+		context->gc( stackTop );
 
 		goto callFunction;
 	}
@@ -11326,6 +11326,9 @@ callFunction:
 
 			CASE(CallLibFunctionAndPop):
 			{
+				stackTop->p2 = INIT_AS_INT;
+				stackTop->p = 0;
+
 				args = READ_8_FROM_PC(pc++); // which have already been pushed
 
 				if ( ! ((register1 = w->globalRegistry.getAsRawValueHashTable(READ_32_FROM_PC(pc)))->lcb) )
-- 
2.43.0


From 818a7bbc8a2a4203ea38d19ae04feb07887b741c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:38 +0000
Subject: [PATCH 27/89] fix: marks left by another context's collection hid
 objects from the collector (leaked on destroy, or freed while in use)

---
 discrete_src/vm/gc.cpp | 6 ++++++
 src/wrench.cpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index a922c54..c2f6f77 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -91,6 +91,12 @@ void WRContext::gc( WRValue* stackTop )
 
 	allocatedMemoryHint = 0;
 
+	// another context collecting may have seen (and marked) our objects, start clean
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	{
+		a->m_flags &= ~GCFlag_Marked;
+	}
+
 	// mark permenants
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0693b72..be25b9a 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10118,6 +10118,12 @@ void WRContext::gc( WRValue* stackTop )
 
 	allocatedMemoryHint = 0;
 
+	// another context collecting may have seen (and marked) our objects, start clean
+	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	{
+		a->m_flags &= ~GCFlag_Marked;
+	}
+
 	// mark permenants
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-- 
2.43.0


From 8369442b0e161dcb092cd6e69bcedb18b5ce578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:11 +0000
Subject: [PATCH 28/89] fix: calling a function pointer before the script body
 completed jumped to a null return address

---
 discrete_src/vm/vm.cpp | 6 ++++++
 src/wrench.cpp         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 2104100..56256f8 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -716,6 +716,12 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+		if ( context->stopLocation == 0 ) // nowhere to return to
+		{
+			w->err = WR_ERR_run_must_be_called_by_itself_first;
+			return 0;
+		}
+
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index be25b9a..a31546c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10929,6 +10929,12 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 
 	if ( function )
 	{
+		if ( context->stopLocation == 0 ) // nowhere to return to
+		{
+			w->err = WR_ERR_run_must_be_called_by_itself_first;
+			return 0;
+		}
+
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
-- 
2.43.0


From 906ac28972e4105115a7fd3028bfb4f3a6c6ce89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:45:59 +0000
Subject: [PATCH 29/89] fix: unchecked allocation failures crash, leak or
 corrupt the VM (WRENCH_HANDLE_MALLOC_FAIL)

---
 discrete_src/lib/std_container.cpp |  26 +++++++-
 discrete_src/lib/std_serialize.cpp |   1 +
 discrete_src/utils/serializer.cpp  |   7 ++
 discrete_src/utils/serializer.h    |   5 +-
 discrete_src/utils/utils.cpp       |  26 ++++++++
 discrete_src/vm/gc.cpp             |   9 +++
 discrete_src/vm/index.cpp          |  18 +++--
 discrete_src/vm/vm.cpp             |  12 +++-
 src/wrench.cpp                     | 104 ++++++++++++++++++++++++++---
 9 files changed, 188 insertions(+), 20 deletions(-)

diff --git a/discrete_src/lib/std_container.cpp b/discrete_src/lib/std_container.cpp
index cfd7349..d99236b 100644
--- a/discrete_src/lib/std_container.cpp
+++ b/discrete_src/lib/std_container.cpp
@@ -70,7 +70,7 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
-			A->p2 = INIT_AS_INT;
+			A->init();
 			return;
 		}
 #endif
@@ -197,6 +197,12 @@ void wr_arrayInsertEx( WRValue* A, unsigned int where, const int count, WRValue*
 
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == originalSize )
+	{
+		return; // did not grow
+	}
+#endif
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
@@ -293,6 +299,12 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const WRValue item = args[1].deref();
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == where )
+	{
+		return;
+	}
+#endif
 	A->va->m_Vdata[where] = item;
 }
 
@@ -309,7 +321,17 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 
 	const WRValue item = args[1].deref();
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	const unsigned int originalSize = A->va->m_size;
+#endif
+
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == originalSize )
+	{
+		return;
+	}
+#endif
 	A->va->m_Vdata[0] = item;
 }
 
@@ -325,7 +347,7 @@ void wr_hashClear( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
-			A->p2 = INIT_AS_INT;
+			A->init();
 			return;
 		}
 #endif
diff --git a/discrete_src/lib/std_serialize.cpp b/discrete_src/lib/std_serialize.cpp
index 37edd51..b0eeda7 100644
--- a/discrete_src/lib/std_serialize.cpp
+++ b/discrete_src/lib/std_serialize.cpp
@@ -37,6 +37,7 @@ void wr_stdSerialize( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
 			{
+				g_free( buf );
 				return;
 			}
 #endif
diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 3fc82fe..d1bc088 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -258,6 +258,13 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 		return false;
 	}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed )
+	{
+		return false; // not all of it was written
+	}
+#endif
+
 	S.getOwnership( buf, len );
 	return true;
 }
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 1188d71..31e505d 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -96,8 +96,8 @@ public:
 
 		if ( m_pos + size >= m_size )
 		{
-			m_size += (size*2) + 8;
-			char* newBuf = (char*)g_malloc( m_size );
+			const unsigned int newSize = m_size + (size*2) + 8;
+			char* newBuf = (char*)g_malloc( newSize );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !newBuf )
 			{
@@ -111,6 +111,7 @@ public:
 			}
 			g_free( m_buf );
 			m_buf = newBuf;
+			m_size = newSize;
 		}
 
 		memcpy( m_buf + m_pos, data, size );
diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index df87e81..16fa4cd 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -203,6 +203,14 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !w->globalRegistry.m_mod )
+	{
+		g_mallocFailed = false;
+		g_free( w );
+		return 0;
+	}
+#endif
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -325,6 +333,14 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 	
 	memset((char*)C, 0, needed);
 	C->registry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !C->registry.m_mod )
+	{
+		g_mallocFailed = false;
+		g_free( C );
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_malloc_failed );
+	}
+#endif
 
 	C->numLocalFunctions = localFuncs;
 	C->localFunctions = (WRFunction *)((uint8_t *)(C + 1) + (globals * sizeof(WRValue)));
@@ -387,6 +403,16 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 		C->registry.getAsRawValueHashTable(C->localFunctions[i].hash)->wrf = C->localFunctions + i;
 	}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed ) // some function could not be registered
+	{
+		g_mallocFailed = false;
+		wr_destroyContextEx( C );
+		w->err = WR_ERR_malloc_failed;
+		return 0;
+	}
+#endif
+
 	return C;
 }
 
diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index c2f6f77..3901c02 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -176,6 +176,15 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 
 	allocatedMemoryHint += ret->init( size, type, init ) + sizeof(WRGCObject);
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !ret->m_data ) // no room for the contents
+	{
+		svAllocated = ret->m_nextGC;
+		g_free( ret );
+		return 0;
+	}
+#endif
+
 	if ( (int)type >= SV_VALUE )
 	{
 		ret->m_creatorContext = this;
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 8f67971..3a6b347 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -104,7 +104,8 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !value->va )
 	{
-		value->p2 = INIT_AS_INT;
+		value->init();
+		target->init();
 		return;
 	}
 #endif
@@ -154,7 +155,8 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
 				{
-					value->p2 = INIT_AS_INT;
+					value->init();
+					target->init();
 					return;
 				}
 #endif
@@ -166,7 +168,8 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
 				{
-					value->p2 = INIT_AS_INT;
+					value->init();
+					target->init();
 					return;
 				}
 #endif
@@ -186,6 +189,12 @@ boundsFailed:
 			}
 
 			wr_growValueArray( value->va, index->ui );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			if ( index->ui >= value->va->m_size )
+			{
+				goto boundsFailed;
+			}
+#endif
 		}
 
 		arrayElementToTarget( index->ui, target, value );
@@ -202,7 +211,8 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !V->va )
 	{
-		V->p2 = INIT_AS_INT;
+		V->init();
+		target->init();
 		return;
 	}
 #endif
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 56256f8..2e42abc 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -120,8 +120,6 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 		WRValue* register1 = (stackTop + READ_8_FROM_PC(table))->r;
 		WRValue* register2 = (stackTop + READ_8_FROM_PC(table))->r2;
 
-		stackTop->p2 = INIT_AS_STRUCT;
-
 		// table : members in local space
 		// table + 1 : arguments + 1 (+1 to save the calculation below)
 		// table +2/3 : m_mod
@@ -132,9 +130,11 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !stackTop->va )
 		{
+			stackTop->init();
 			return 0;
 		}
 #endif
+		stackTop->p2 = INIT_AS_STRUCT;
 		stackTop->va->m_ROMHashTable = table + 3;
 
 		stackTop->va->m_mod = READ_16_FROM_PC(table+1);
@@ -823,6 +823,13 @@ yieldContinue:
 				register1 = &(stackTop - 1)->deref();
 				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+				if ( !register1->va )
+				{
+					register1->init();
+					CONTINUE;
+				}
+#endif
 				context->gc( stackTop );
 				CONTINUE;
 			}
@@ -1383,6 +1390,7 @@ hashIndexJump:
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !register0->va )
 					{
+						register0->init();
 						CONTINUE;
 					}
 #endif
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a31546c..046d8af 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -579,8 +579,8 @@ public:
 
 		if ( m_pos + size >= m_size )
 		{
-			m_size += (size*2) + 8;
-			char* newBuf = (char*)g_malloc( m_size );
+			const unsigned int newSize = m_size + (size*2) + 8;
+			char* newBuf = (char*)g_malloc( newSize );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !newBuf )
 			{
@@ -594,6 +594,7 @@ public:
 			}
 			g_free( m_buf );
 			m_buf = newBuf;
+			m_size = newSize;
 		}
 
 		memcpy( m_buf + m_pos, data, size );
@@ -10203,6 +10204,15 @@ WRGCObject* WRContext::getSVA( int size, WRGCObjectType type, bool init )
 
 	allocatedMemoryHint += ret->init( size, type, init ) + sizeof(WRGCObject);
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !ret->m_data ) // no room for the contents
+	{
+		svAllocated = ret->m_nextGC;
+		g_free( ret );
+		return 0;
+	}
+#endif
+
 	if ( (int)type >= SV_VALUE )
 	{
 		ret->m_creatorContext = this;
@@ -10333,8 +10343,6 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 		WRValue* register1 = (stackTop + READ_8_FROM_PC(table))->r;
 		WRValue* register2 = (stackTop + READ_8_FROM_PC(table))->r2;
 
-		stackTop->p2 = INIT_AS_STRUCT;
-
 		// table : members in local space
 		// table + 1 : arguments + 1 (+1 to save the calculation below)
 		// table +2/3 : m_mod
@@ -10345,9 +10353,11 @@ WRValue* wr_newObjectTable( WRContext* context, WRValue* stackTop, const uint8_t
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !stackTop->va )
 		{
+			stackTop->init();
 			return 0;
 		}
 #endif
+		stackTop->p2 = INIT_AS_STRUCT;
 		stackTop->va->m_ROMHashTable = table + 3;
 
 		stackTop->va->m_mod = READ_16_FROM_PC(table+1);
@@ -11036,6 +11046,13 @@ yieldContinue:
 				register1 = &(stackTop - 1)->deref();
 				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+				if ( !register1->va )
+				{
+					register1->init();
+					CONTINUE;
+				}
+#endif
 				context->gc( stackTop );
 				CONTINUE;
 			}
@@ -11596,6 +11613,7 @@ hashIndexJump:
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !register0->va )
 					{
+						register0->init();
 						CONTINUE;
 					}
 #endif
@@ -13697,6 +13715,14 @@ WRState* wr_newState( int stackSize )
 																		   
 	memset( (unsigned char*)w, 0, sizeof(WRState) );
 	w->globalRegistry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !w->globalRegistry.m_mod )
+	{
+		g_mallocFailed = false;
+		g_free( w );
+		return 0;
+	}
+#endif
 
 	w->stackSize = stackSize;
 	w->allocatedMemoryLimit = WRENCH_DEFAULT_ALLOCATED_MEMORY_GC_HINT;
@@ -13819,6 +13845,14 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 	
 	memset((char*)C, 0, needed);
 	C->registry.growHash( WRENCH_NULL_HASH, 0 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !C->registry.m_mod )
+	{
+		g_mallocFailed = false;
+		g_free( C );
+		return wr_rejectBlock( w, block, takeOwnership, WR_ERR_malloc_failed );
+	}
+#endif
 
 	C->numLocalFunctions = localFuncs;
 	C->localFunctions = (WRFunction *)((uint8_t *)(C + 1) + (globals * sizeof(WRValue)));
@@ -13881,6 +13915,16 @@ WRContext* wr_createContext( WRState* w, const unsigned char* block, const int b
 		C->registry.getAsRawValueHashTable(C->localFunctions[i].hash)->wrf = C->localFunctions + i;
 	}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed ) // some function could not be registered
+	{
+		g_mallocFailed = false;
+		wr_destroyContextEx( C );
+		w->err = WR_ERR_malloc_failed;
+		return 0;
+	}
+#endif
+
 	return C;
 }
 
@@ -15467,6 +15511,13 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 		return false;
 	}
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( g_mallocFailed )
+	{
+		return false; // not all of it was written
+	}
+#endif
+
 	S.getOwnership( buf, len );
 	return true;
 }
@@ -19725,7 +19776,8 @@ void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !value->va )
 	{
-		value->p2 = INIT_AS_INT;
+		value->init();
+		target->init();
 		return;
 	}
 #endif
@@ -19775,7 +19827,8 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
 				{
-					value->p2 = INIT_AS_INT;
+					value->init();
+					target->init();
 					return;
 				}
 #endif
@@ -19787,7 +19840,8 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !value->va )
 				{
-					value->p2 = INIT_AS_INT;
+					value->init();
+					target->init();
 					return;
 				}
 #endif
@@ -19807,6 +19861,12 @@ boundsFailed:
 			}
 
 			wr_growValueArray( value->va, index->ui );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+			if ( index->ui >= value->va->m_size )
+			{
+				goto boundsFailed;
+			}
+#endif
 		}
 
 		arrayElementToTarget( index->ui, target, value );
@@ -19823,7 +19883,8 @@ void doIndex_E_I( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !V->va )
 	{
-		V->p2 = INIT_AS_INT;
+		V->init();
+		target->init();
 		return;
 	}
 #endif
@@ -22963,6 +23024,7 @@ void wr_stdSerialize( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
 			{
+				g_free( buf );
 				return;
 			}
 #endif
@@ -23070,7 +23132,7 @@ void wr_arrayClear( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
-			A->p2 = INIT_AS_INT;
+			A->init();
 			return;
 		}
 #endif
@@ -23197,6 +23259,12 @@ void wr_arrayInsertEx( WRValue* A, unsigned int where, const int count, WRValue*
 
 	// accommodate new size (passed value is expected to be the highest accessible index)
 	wr_growValueArray( A->va, originalSize + (count - 1) );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == originalSize )
+	{
+		return; // did not grow
+	}
+#endif
 
 	// move tail of array UP "count" entries
 	unsigned int entries = originalSize - where;
@@ -23293,6 +23361,12 @@ void wr_arrayPushBack( WRValue* stackTop, const int argn, WRContext* c )
 	const WRValue item = args[1].deref();
 
 	wr_arrayInsertEx( A, where, 1, stackTop, c );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == where )
+	{
+		return;
+	}
+#endif
 	A->va->m_Vdata[where] = item;
 }
 
@@ -23309,7 +23383,17 @@ void wr_arrayPush( WRValue* stackTop, const int argn, WRContext* c )
 
 	const WRValue item = args[1].deref();
 
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	const unsigned int originalSize = A->va->m_size;
+#endif
+
 	wr_arrayInsertEx( A, 0, 1, stackTop, c );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( A->va->m_size == originalSize )
+	{
+		return;
+	}
+#endif
 	A->va->m_Vdata[0] = item;
 }
 
@@ -23325,7 +23409,7 @@ void wr_hashClear( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 		if ( !A->va )
 		{
-			A->p2 = INIT_AS_INT;
+			A->init();
 			return;
 		}
 #endif
-- 
2.43.0


From 38f503ca80b8e179a4f59d9953beb87a13c2564d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:28 +0000
Subject: [PATCH 30/89] fix: a slice ending inside an imported function failed
 the call (WRENCH_TIME_SLICES)

---
 discrete_src/utils/utils.cpp |  3 +++
 discrete_src/vm/vm.cpp       | 14 ++++++++++++--
 discrete_src/vm/vm.h         |  1 +
 src/wrench.cpp               | 18 ++++++++++++++++--
 4 files changed, 32 insertions(+), 4 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 16fa4cd..843e056 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -428,6 +428,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	// the stack is shared, run above whatever the importing context has live on it
 	import->stackOffset = context->yield_pc ? (uint16_t)(context->yield_stackTop + 1 - context->stack) : context->stackOffset;
 
+	import->flags |= (uint8_t)WRC_CalledByContext;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -435,6 +437,7 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->flags &= ~(uint8_t)WRC_CalledByContext;
 	import->stackOffset = 0;
 
 	import->imported = context->imported;
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 2e42abc..173d5af 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -208,7 +208,7 @@ int wr_slicesUsedLastCall( WRState* w )
 	return w->lastSlicesUsed;
 }
 
-#define CHECK_FORCE_YIELD { if ( !--w->sliceInstructionCount && w->yieldEnabled ) { context->yieldArgs = 0; context->flags |= (uint8_t)WRC_ForceYielded; goto doYield; } }
+#define CHECK_FORCE_YIELD { if ( !--w->sliceInstructionCount && w->yieldEnabled ) { if ( context->flags & (uint8_t)WRC_CalledByContext ) { w->sliceInstructionCount = 1; } else { context->yieldArgs = 0; context->flags |= (uint8_t)WRC_ForceYielded; goto doYield; } } }
 #else
 #define CHECK_FORCE_YIELD
 #endif
@@ -651,7 +651,11 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	};
 
 #ifdef WRENCH_TIME_SLICES
-	if (w->instructionsPerSlice == 0)
+	if ( context->flags & (uint8_t)WRC_CalledByContext )
+	{
+		// part of the slice of the calling context
+	}
+	else if (w->instructionsPerSlice == 0)
 	{
 		w->yieldEnabled = false;
 	}
@@ -896,9 +900,12 @@ debugReturn:
 								{
 									// import shares our stack, tell it where to find it's args
 									uint16_t savedOffset = import->stackOffset;
+									uint8_t savedFlags = import->flags;
 									import->stackOffset = (uint16_t)(stackTop - context->stack);
+									import->flags |= (uint8_t)WRC_CalledByContext;
 									register0 = wr_callFunction( import, I->wrf, stackTop - args, args );
 									import->stackOffset = savedOffset;
+									import->flags = savedFlags;
 									if ( import->yield_pc )
 									{
 										w->err = WR_ERR_cannot_call_function_context_yielded;
@@ -991,9 +998,12 @@ newObjOut:
 								{
 									// import shares our stack, tell it where to find it's args
 									uint16_t savedOffset = import->stackOffset;
+									uint8_t savedFlags = import->flags;
 									import->stackOffset = (uint16_t)(stackTop - context->stack);
+									import->flags |= (uint8_t)WRC_CalledByContext;
 									register0 = wr_callFunction( import, register0->wrf, stackTop - args, args );
 									import->stackOffset = savedOffset;
+									import->flags = savedFlags;
 									if ( import->yield_pc )
 									{
 										w->err = WR_ERR_cannot_call_function_context_yielded;
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index e2828ba..d3fbad4 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -45,6 +45,7 @@ enum WRContextFlags
 {
 	WRC_OwnsMemory = 1<<0, // if this is true, 'bottom' must be freed upon destruction
 	WRC_ForceYielded = 1<<1, // if this is true, 'bottom' must be freed upon destruction
+	WRC_CalledByContext = 1<<2, // running on behalf of another context, which is the one to be force-yielded
 };
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 046d8af..d926ebf 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1148,6 +1148,7 @@ enum WRContextFlags
 {
 	WRC_OwnsMemory = 1<<0, // if this is true, 'bottom' must be freed upon destruction
 	WRC_ForceYielded = 1<<1, // if this is true, 'bottom' must be freed upon destruction
+	WRC_CalledByContext = 1<<2, // running on behalf of another context, which is the one to be force-yielded
 };
 
 //------------------------------------------------------------------------------
@@ -10431,7 +10432,7 @@ int wr_slicesUsedLastCall( WRState* w )
 	return w->lastSlicesUsed;
 }
 
-#define CHECK_FORCE_YIELD { if ( !--w->sliceInstructionCount && w->yieldEnabled ) { context->yieldArgs = 0; context->flags |= (uint8_t)WRC_ForceYielded; goto doYield; } }
+#define CHECK_FORCE_YIELD { if ( !--w->sliceInstructionCount && w->yieldEnabled ) { if ( context->flags & (uint8_t)WRC_CalledByContext ) { w->sliceInstructionCount = 1; } else { context->yieldArgs = 0; context->flags |= (uint8_t)WRC_ForceYielded; goto doYield; } } }
 #else
 #define CHECK_FORCE_YIELD
 #endif
@@ -10874,7 +10875,11 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	};
 
 #ifdef WRENCH_TIME_SLICES
-	if (w->instructionsPerSlice == 0)
+	if ( context->flags & (uint8_t)WRC_CalledByContext )
+	{
+		// part of the slice of the calling context
+	}
+	else if (w->instructionsPerSlice == 0)
 	{
 		w->yieldEnabled = false;
 	}
@@ -11119,9 +11124,12 @@ debugReturn:
 								{
 									// import shares our stack, tell it where to find it's args
 									uint16_t savedOffset = import->stackOffset;
+									uint8_t savedFlags = import->flags;
 									import->stackOffset = (uint16_t)(stackTop - context->stack);
+									import->flags |= (uint8_t)WRC_CalledByContext;
 									register0 = wr_callFunction( import, I->wrf, stackTop - args, args );
 									import->stackOffset = savedOffset;
+									import->flags = savedFlags;
 									if ( import->yield_pc )
 									{
 										w->err = WR_ERR_cannot_call_function_context_yielded;
@@ -11214,9 +11222,12 @@ newObjOut:
 								{
 									// import shares our stack, tell it where to find it's args
 									uint16_t savedOffset = import->stackOffset;
+									uint8_t savedFlags = import->flags;
 									import->stackOffset = (uint16_t)(stackTop - context->stack);
+									import->flags |= (uint8_t)WRC_CalledByContext;
 									register0 = wr_callFunction( import, register0->wrf, stackTop - args, args );
 									import->stackOffset = savedOffset;
+									import->flags = savedFlags;
 									if ( import->yield_pc )
 									{
 										w->err = WR_ERR_cannot_call_function_context_yielded;
@@ -13940,6 +13951,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	// the stack is shared, run above whatever the importing context has live on it
 	import->stackOffset = context->yield_pc ? (uint16_t)(context->yield_stackTop + 1 - context->stack) : context->stackOffset;
 
+	import->flags |= (uint8_t)WRC_CalledByContext;
+
 	if ( !wr_callFunction(import, (WRFunction*)0) )
 	{ 
 		// imported context may not yield
@@ -13947,6 +13960,7 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 		return 0;
 	}
 
+	import->flags &= ~(uint8_t)WRC_CalledByContext;
 	import->stackOffset = 0;
 
 	import->imported = context->imported;
-- 
2.43.0


From e439562147e80177355fec296de8ef4b52a9f530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:57 +0000
Subject: [PATCH 31/89] fix: scheduler kept the context of every thread that
 completed in addThread

---
 discrete_src/vm/scheduler.cpp | 1 +
 src/wrench.cpp                | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/vm/scheduler.cpp b/discrete_src/vm/scheduler.cpp
index 392d66a..15ac88d 100644
--- a/discrete_src/vm/scheduler.cpp
+++ b/discrete_src/vm/scheduler.cpp
@@ -108,6 +108,7 @@ int WrenchScheduler::addThread( const uint8_t* byteCode, const int size, const i
 	}
 	else if ( !wr_getYieldInfo(context) )
 	{
+		wr_destroyContext( context );
 		return 0; // task ran to completion there was no need to yield
 	}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d926ebf..36e2eac 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -17973,6 +17973,7 @@ int WrenchScheduler::addThread( const uint8_t* byteCode, const int size, const i
 	}
 	else if ( !wr_getYieldInfo(context) )
 	{
+		wr_destroyContext( context );
 		return 0; // task ran to completion there was no need to yield
 	}
 
-- 
2.43.0


From 278523b39db8108ac9ecf961660075a138677d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:07 +0000
Subject: [PATCH 32/89] fix: 'a = new S[]{...}' wrote into whatever value a
 already held instead of building a new array

---
 discrete_src/cc/expression.cpp | 15 ++-------------
 src/wrench.cpp                 | 15 ++-------------
 2 files changed, 4 insertions(+), 26 deletions(-)

diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 4dcd442..6021df3 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -237,8 +237,8 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 					return 0;
 				}
 
-				expression.context.remove( depth - 1, 1 ); // knock off the equate
-				depth--;
+				expression.context[depth].type = EXTYPE_BYTECODE_RESULT;
+				pushOpcode( expression.context[depth].bytecode, O_LiteralZero ); // push the array we're going to create
 
 				WRstr& token3 = expression.context[depth].token;
 				WRValue& value3 = expression.context[depth].value;
@@ -318,17 +318,6 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 						return 0;
 					}
 
-					WRstr t("@init");
-					for( int o=0; c_operations[o].token; o++ )
-					{
-						if ( t == c_operations[o].token )
-						{
-							expression.context[depth].type = EXTYPE_OPERATION;
-							expression.context[depth].operation = c_operations + o;
-							break;
-						}
-					}
-
 					m_loadedToken = token3;
 					m_loadedValue = value3;
 					m_loadedQuoted = m_quoted;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 36e2eac..7f1842b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -7104,8 +7104,8 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 					return 0;
 				}
 
-				expression.context.remove( depth - 1, 1 ); // knock off the equate
-				depth--;
+				expression.context[depth].type = EXTYPE_BYTECODE_RESULT;
+				pushOpcode( expression.context[depth].bytecode, O_LiteralZero ); // push the array we're going to create
 
 				WRstr& token3 = expression.context[depth].token;
 				WRValue& value3 = expression.context[depth].value;
@@ -7185,17 +7185,6 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 						return 0;
 					}
 
-					WRstr t("@init");
-					for( int o=0; c_operations[o].token; o++ )
-					{
-						if ( t == c_operations[o].token )
-						{
-							expression.context[depth].type = EXTYPE_OPERATION;
-							expression.context[depth].operation = c_operations + o;
-							break;
-						}
-					}
-
 					m_loadedToken = token3;
 					m_loadedValue = value3;
 					m_loadedQuoted = m_quoted;
-- 
2.43.0


From 4853dc3cb043541d4101eade256b651846a83a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:27 +0000
Subject: [PATCH 33/89] fix: collection during a hash-index of a temporary
 freed the table it was indexing

---
 discrete_src/vm/vm.cpp | 2 +-
 src/wrench.cpp         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 173d5af..1e4abb7 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1395,6 +1395,7 @@ hashIndexJump:
 				pc += 4;
 				if ( !EXPECTS_HASH_INDEX(register0->xtype) )
 				{
+					context->gc(stackTop); // before, in case it is only a temporary that is about to hold the table
 					register0->p2 = INIT_AS_HASH_TABLE;
 					register0->va = context->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -1404,7 +1405,6 @@ hashIndexJump:
 						CONTINUE;
 					}
 #endif
-					context->gc(stackTop);
 				}
 
 #ifdef WRENCH_COMPACT
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7f1842b..f42ece6 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11608,6 +11608,7 @@ hashIndexJump:
 				pc += 4;
 				if ( !EXPECTS_HASH_INDEX(register0->xtype) )
 				{
+					context->gc(stackTop); // before, in case it is only a temporary that is about to hold the table
 					register0->p2 = INIT_AS_HASH_TABLE;
 					register0->va = context->getSVA( 0, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -11617,7 +11618,6 @@ hashIndexJump:
 						CONTINUE;
 					}
 #endif
-					context->gc(stackTop);
 				}
 
 #ifdef WRENCH_COMPACT
-- 
2.43.0


From a7e5d8cb48cc4d5caa4425c12a648c562085ff0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:53 +0000
Subject: [PATCH 34/89] fix: std::serialize of a structure that contains itself
 never ended

---
 discrete_src/utils/serializer.cpp | 23 +++++++++++++++++++----
 discrete_src/utils/serializer.h   |  7 ++++++-
 src/wrench.cpp                    | 30 +++++++++++++++++++++++++-----
 3 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index d1bc088..bdc6e7f 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -25,7 +25,7 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent )
 {
 	char temp;
 	uint16_t temp16;
@@ -33,6 +33,18 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 	
 	const WRValue& value = val.deref();
 
+	WRSerializeParent self = { value.va, parent };
+	if ( IS_EXARRAY_TYPE(value.xtype) || value.xtype == WR_EX_HASH_TABLE )
+	{
+		for( const WRSerializeParent* p = parent; p; p = p->next )
+		{
+			if ( p->container == self.container )
+			{
+				return false; // contains itself, would never end
+			}
+		}
+	}
+
 	serializer.write( &(temp = value.type), 1 );
 
 	switch( (uint8_t)value.type )
@@ -66,7 +78,7 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 					{
 						for( uint32_t i=0; i<value.va->m_size; ++i )
 						{
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i], &self) )
 							{
 								return false;
 							}
@@ -91,8 +103,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1], &self)
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1], &self) )
+							{
+								return false;
+							}
 						}
 					}
 
diff --git a/discrete_src/utils/serializer.h b/discrete_src/utils/serializer.h
index 31e505d..72ebc85 100644
--- a/discrete_src/utils/serializer.h
+++ b/discrete_src/utils/serializer.h
@@ -30,7 +30,12 @@ struct WRContext;
 class WRValueSerializer;
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val );
+struct WRSerializeParent // the containers being serialized, innermost first
+{
+	const void* container;
+	const WRSerializeParent* next;
+};
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent =0 );
 bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context );
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f42ece6..6a66068 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -513,7 +513,12 @@ struct WRContext;
 class WRValueSerializer;
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val );
+struct WRSerializeParent // the containers being serialized, innermost first
+{
+	const void* container;
+	const WRSerializeParent* next;
+};
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent =0 );
 bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext* context );
 
 //------------------------------------------------------------------------------
@@ -15281,7 +15286,7 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
+bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WRSerializeParent* parent )
 {
 	char temp;
 	uint16_t temp16;
@@ -15289,6 +15294,18 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 	
 	const WRValue& value = val.deref();
 
+	WRSerializeParent self = { value.va, parent };
+	if ( IS_EXARRAY_TYPE(value.xtype) || value.xtype == WR_EX_HASH_TABLE )
+	{
+		for( const WRSerializeParent* p = parent; p; p = p->next )
+		{
+			if ( p->container == self.container )
+			{
+				return false; // contains itself, would never end
+			}
+		}
+	}
+
 	serializer.write( &(temp = value.type), 1 );
 
 	switch( (uint8_t)value.type )
@@ -15322,7 +15339,7 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 					{
 						for( uint32_t i=0; i<value.va->m_size; ++i )
 						{
-							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i]) )
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i], &self) )
 							{
 								return false;
 							}
@@ -15347,8 +15364,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val )
 						{
 							serializer.write( &(temp = 1), 1 );
 
-							wr_serializeEx( serializer, value.va->m_Vdata[i<<1] );
-							wr_serializeEx( serializer, value.va->m_Vdata[(i<<1) + 1] );
+							if ( !wr_serializeEx(serializer, value.va->m_Vdata[i<<1], &self)
+								 || !wr_serializeEx(serializer, value.va->m_Vdata[(i<<1) + 1], &self) )
+							{
+								return false;
+							}
 						}
 					}
 
-- 
2.43.0


From 7ced9366bf28ad9a5ff66d536ecd0317dd5884a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:15 +0000
Subject: [PATCH 35/89] fix: 'new' of an imported struct left an extra stack
 entry and ignored the constructor with arguments

---
 discrete_src/vm/vm.cpp | 16 +++++-----------
 src/wrench.cpp         | 16 +++++-----------
 2 files changed, 10 insertions(+), 22 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 1e4abb7..09592d3 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -931,19 +931,13 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
 									pc += 3;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									// the arguments and members were left above the
+									// return value, the object replaces the arguments
+									wr_newObjectTable( context, register0 + 1, 0, table );
+									stackTop -= args;
+									*(stackTop++) = *(register0 + 1);
 									goto newObjOut;
 								}
 								
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6a66068..354a6a2 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11149,19 +11149,13 @@ debugReturn:
 									// the actual table location and
 									// use it
 
-									if ( args ) // fix up the return value
-									{
-										stackTop -= (args - 1);
-										*(stackTop - 1) = *register0;
-									}
-									else
-									{
-										++stackTop;
-									}
-									
 									pc += 3;
 
-									wr_newObjectTable( context, stackTop++, 0, table );
+									// the arguments and members were left above the
+									// return value, the object replaces the arguments
+									wr_newObjectTable( context, register0 + 1, 0, table );
+									stackTop -= args;
+									*(stackTop++) = *(register0 + 1);
 									goto newObjOut;
 								}
 								
-- 
2.43.0


From f3d6bc8960481dfc4437085d8542ed551edc878c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:34 +0000
Subject: [PATCH 36/89] fix: stack overflow protection missed several
 instructions, imported code and host calls

---
 discrete_src/utils/utils.cpp |  7 +++++++
 discrete_src/vm/vm.cpp       | 19 +++++++++++++++++--
 src/wrench.cpp               | 26 ++++++++++++++++++++++++--
 3 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 843e056..7bb3094 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1119,6 +1119,13 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 						return 0;
 					}
 
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+					if ( context->stackOffset + argn + 3 >= context->w->stackSize )
+					{
+						context->w->err = WR_ERR_stack_overflow;
+						return 0;
+					}
+#endif
 					WRValue* stack = context->stack + context->stackOffset;
 					int a = 0;
 				for( ; a<argn; ++a )
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 09592d3..2579809 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -684,7 +684,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -726,6 +726,14 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 			return 0;
 		}
 
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( stackTop + argn + 1 >= stackLimit )
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
+
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
@@ -970,8 +978,8 @@ CallFunctionByHash_continue:
 					++stackTop;
 				}
 				
-				CHECK_STACK;
 newObjOut:
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1164,6 +1172,7 @@ callFunction:
 			{
 				wr_newObjectTable( context, stackTop++, pc, 0 );
 				pc += 2;
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1348,6 +1357,7 @@ callFunction:
 			CASE(IndexSkipLoad):
 			{
 				wr_index[(register0->type<<2)|register1->type]( context, register0, register1, stackTop++ );
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -1406,6 +1416,7 @@ hashIndexJump:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_doIndexHash( stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -1560,6 +1571,7 @@ indexLiteral:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -1735,6 +1747,7 @@ doAssignToLocalAndPop:
 load32ToTemp:
 				register0->i = READ_32_FROM_PC(pc);
 				pc += 4;
+				CHECK_STACK;
 				CONTINUE;
 			}
 			
@@ -2303,6 +2316,7 @@ compactReturnCompareEQ:
 compactReturnCompareEQPost:
 				stackTop->i = (int)wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -2318,6 +2332,7 @@ compactReturnCompareNE:
 compactReturnCompareNEPost:
 				stackTop->i = (int)!wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 354a6a2..f3cc962 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10902,7 +10902,7 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	WRValue* stackBase = context->stack + context->stackOffset;
 	WRValue* stackTop;
 #ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
-	WRValue* stackLimit = stackBase + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
+	WRValue* stackLimit = context->stack + (w->stackSize - 2); // one entry buffer, we SHOULD detect on every frame inc
 #endif
 
 	if ( context->yield_pc )
@@ -10944,6 +10944,14 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 			return 0;
 		}
 
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+		if ( stackTop + argn + 1 >= stackLimit )
+		{
+			w->err = WR_ERR_stack_overflow;
+			return 0;
+		}
+#endif
+
 		stackTop->p = 0;
 		(stackTop++)->p2 = INIT_AS_INT;
 
@@ -11188,8 +11196,8 @@ CallFunctionByHash_continue:
 					++stackTop;
 				}
 				
-				CHECK_STACK;
 newObjOut:
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -11382,6 +11390,7 @@ callFunction:
 			{
 				wr_newObjectTable( context, stackTop++, pc, 0 );
 				pc += 2;
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -11566,6 +11575,7 @@ callFunction:
 			CASE(IndexSkipLoad):
 			{
 				wr_index[(register0->type<<2)|register1->type]( context, register0, register1, stackTop++ );
+				CHECK_STACK;
 				CONTINUE;
 			}
 
@@ -11624,6 +11634,7 @@ hashIndexJump:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_doIndexHash( stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -11778,6 +11789,7 @@ indexLiteral:
 #else
 				stackTop->p2 = INIT_AS_INT;
 				wr_index[(WR_INT << 2) | register0->type](context, stackTop, register0, stackTop - 1);
+				CHECK_STACK;
 				CONTINUE;
 #endif
 			}
@@ -11953,6 +11965,7 @@ doAssignToLocalAndPop:
 load32ToTemp:
 				register0->i = READ_32_FROM_PC(pc);
 				pc += 4;
+				CHECK_STACK;
 				CONTINUE;
 			}
 			
@@ -12521,6 +12534,7 @@ compactReturnCompareEQ:
 compactReturnCompareEQPost:
 				stackTop->i = (int)wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -12536,6 +12550,7 @@ compactReturnCompareNE:
 compactReturnCompareNEPost:
 				stackTop->i = (int)!wr_Compare[(register0->type<<2)|register1->type]( register0, register1, boolIntCall, boolFloatCall );
 				(stackTop++)->p2 = INIT_AS_INT;
+				CHECK_STACK;
 				FASTCONTINUE;
 			}
 
@@ -14630,6 +14645,13 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 						return 0;
 					}
 
+#ifdef WRENCH_PROTECT_STACK_FROM_OVERFLOW
+					if ( context->stackOffset + argn + 3 >= context->w->stackSize )
+					{
+						context->w->err = WR_ERR_stack_overflow;
+						return 0;
+					}
+#endif
 					WRValue* stack = context->stack + context->stackOffset;
 					int a = 0;
 				for( ; a<argn; ++a )
-- 
2.43.0


From 402f5dfda5bdf5885fc042c11d81dd620017231e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:02 +0000
Subject: [PATCH 37/89] fix: a negative, huge or float index corrupted memory
 or overwrote the container

---
 discrete_src/utils/utils.h |  1 +
 discrete_src/vm/index.cpp  | 14 +++++++++++++-
 src/wrench.cpp             | 15 ++++++++++++++-
 3 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index 29f258f..353ff85 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -456,6 +456,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
+#define MAX_ARRAY_ELEMENT 0x1FFFFF // largest that can be encoded
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
 #define IS_EX_RAW_ARRAY_TYPE(P)   (((P)&0xE0) == WR_EX_RAW_ARRAY)
diff --git a/discrete_src/vm/index.cpp b/discrete_src/vm/index.cpp
index 3a6b347..b0f8ab5 100644
--- a/discrete_src/vm/index.cpp
+++ b/discrete_src/vm/index.cpp
@@ -99,6 +99,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > MAX_ARRAY_ELEMENT ) // negative or impossibly large
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -137,6 +143,12 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		// at this point we assume the value is an array, if it is not it
 		// will be converted into one
 
+		if ( index->ui > MAX_ARRAY_ELEMENT
+			 && (index->type == WR_INT || value->xtype == WR_EX_ARRAY || IS_RAW_ARRAY(value->xtype)) ) // negative or impossibly large
+		{
+			goto boundsFailed;
+		}
+
 		if ( IS_RAW_ARRAY(value->xtype) )
 		{
 			if ( index->ui >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
@@ -247,7 +259,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 }
 
 
-void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) {}
+void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { target->init(); } // a float is never an index
 
 void doIndex_R_R( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { wr_index[(index->r->type<<2)|value->r->type](c, index->r, value->r, target); }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f3cc962..4b78a2e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -462,6 +462,7 @@ WRValue* wr_valueFromConfirmedStruct( WRValue* value, uint32_t hash );
 
 #define ENCODE_ARRAY_ELEMENT_TO_P2(E) ((E)<<8)
 #define DECODE_ARRAY_ELEMENT_FROM_P2(E) (((E)&0x1FFFFF00) >> 8)
+#define MAX_ARRAY_ELEMENT 0x1FFFFF // largest that can be encoded
 
 #define IS_EXARRAY_TYPE(P)   ((P)&0xC0)
 #define IS_EX_RAW_ARRAY_TYPE(P)   (((P)&0xE0) == WR_EX_RAW_ARRAY)
@@ -19811,6 +19812,12 @@ void wr_doIndexHash( WRValue* index, WRValue* value, WRValue* target )
 //------------------------------------------------------------------------------
 void doIndex_I_X( WRContext* c, WRValue* index, WRValue* value, WRValue* target )
 {
+	if ( index->ui > MAX_ARRAY_ELEMENT ) // negative or impossibly large
+	{
+		target->init();
+		return;
+	}
+
 	// all we know is the value is not an array, so make it one
 	value->va = c->getSVA( index->ui + 1, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
@@ -19849,6 +19856,12 @@ void doIndex_I_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 		// at this point we assume the value is an array, if it is not it
 		// will be converted into one
 
+		if ( index->ui > MAX_ARRAY_ELEMENT
+			 && (index->type == WR_INT || value->xtype == WR_EX_ARRAY || IS_RAW_ARRAY(value->xtype)) ) // negative or impossibly large
+		{
+			goto boundsFailed;
+		}
+
 		if ( IS_RAW_ARRAY(value->xtype) )
 		{
 			if ( index->ui >= (uint32_t)(EX_RAW_ARRAY_SIZE_FROM_P2(value->p2)) )
@@ -19959,7 +19972,7 @@ void doIndex_E_E( WRContext* c, WRValue* index, WRValue* value, WRValue* target
 }
 
 
-void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) {}
+void doVoidIndexFunc( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { target->init(); } // a float is never an index
 
 void doIndex_R_R( WRContext* c, WRValue* index, WRValue* value, WRValue* target ) { wr_index[(index->r->type<<2)|value->r->type](c, index->r, value->r, target); }
 
-- 
2.43.0


From a19983b91c8beb3e412c451145f1307e368add80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:19 +0000
Subject: [PATCH 38/89] fix: the value of 'element += string' was the right
 operand instead of the result

---
 discrete_src/vm/operations_non_compact.cpp | 12 ++++++++++--
 src/wrench.cpp                             | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/discrete_src/vm/operations_non_compact.cpp b/discrete_src/vm/operations_non_compact.cpp
index 8fb6881..ff6455a 100644
--- a/discrete_src/vm/operations_non_compact.cpp
+++ b/discrete_src/vm/operations_non_compact.cpp
@@ -344,6 +344,10 @@ void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 		wr_valueToEx( to, &V );
 		*from = V;
 	}
+	else
+	{
+		*from = to->deref();
+	}
 }
 
 void wr_AddAssign_E_F( WRValue* to, WRValue* from )
@@ -357,6 +361,10 @@ void wr_AddAssign_E_F( WRValue* to, WRValue* from )
 		wr_valueToEx( to, &V );
 		*from = V;
 	}
+	else
+	{
+		*from = to->deref();
+	}
 }
 void wr_AddAssign_E_E( WRValue* to, WRValue* from ) 
 {
@@ -367,9 +375,9 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
 	}
-	else
+	else if ( wr_concatStringCheck(to, from, to) )
 	{
-		wr_concatStringCheck( to, from, to );
+		*from = to->deref();
 	}
 }
 void wr_AddAssign_I_E( WRValue* to, WRValue* from )
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4b78a2e..cb093d4 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -19156,6 +19156,10 @@ void wr_AddAssign_E_I( WRValue* to, WRValue* from )
 		wr_valueToEx( to, &V );
 		*from = V;
 	}
+	else
+	{
+		*from = to->deref();
+	}
 }
 
 void wr_AddAssign_E_F( WRValue* to, WRValue* from )
@@ -19169,6 +19173,10 @@ void wr_AddAssign_E_F( WRValue* to, WRValue* from )
 		wr_valueToEx( to, &V );
 		*from = V;
 	}
+	else
+	{
+		*from = to->deref();
+	}
 }
 void wr_AddAssign_E_E( WRValue* to, WRValue* from ) 
 {
@@ -19179,9 +19187,9 @@ void wr_AddAssign_E_E( WRValue* to, WRValue* from )
 		wr_AddAssign[(WR_EX<<2)|V.type]( to, &V );
 		*from = to->deref();
 	}
-	else
+	else if ( wr_concatStringCheck(to, from, to) )
 	{
-		wr_concatStringCheck( to, from, to );
+		*from = to->deref();
 	}
 }
 void wr_AddAssign_I_E( WRValue* to, WRValue* from )
-- 
2.43.0


From d237d7a2c3dab4d9995af2c0caaaa0a10438b504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:00 +0000
Subject: [PATCH 39/89] fix: a deserialized hash table had a _count of 0

---
 discrete_src/utils/serializer.cpp | 1 +
 src/wrench.cpp                    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index bdc6e7f..15f6942 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -250,6 +250,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+							++value.va->m_size;
 						}
 					}
 					
diff --git a/src/wrench.cpp b/src/wrench.cpp
index cb093d4..f797388 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -15528,6 +15528,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 								return false;
 							}
 							value.va->m_hashTable[i] = value.va->m_Vdata[(i<<1)+1].getHash();
+							++value.va->m_size;
 						}
 					}
 					
-- 
2.43.0


From 57b9a21b218f592daee44e3a917b934c17dfa0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:20 +0000
Subject: [PATCH 40/89] fix: serialize cut containers of more than 65535
 elements short, deserialize of a damaged buffer read outside the prime table

---
 discrete_src/utils/serializer.cpp | 21 ++++++++++++++++++++-
 src/wrench.cpp                    | 21 ++++++++++++++++++++-
 2 files changed, 40 insertions(+), 2 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 15f6942..1c25eab 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -65,6 +65,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WR
 			{
 				case WR_EX_ARRAY:
 				{
+					if ( value.va->m_size > 0xFFFF )
+					{
+						return false; // the size would not fit
+					}
+
 					serializer.write( &(temp = value.va->m_type), 1 );
 					temp16 = wr_x16( value.va->m_size );
 					serializer.write( (char*)&temp16, 2 );
@@ -218,6 +223,11 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 					temp16 = wr_x16( temp16 );
 					
+					if ( temp16 == 0 || temp16 > c_primeTable[(sizeof(c_primeTable) / sizeof(c_primeTable[0])) - 1] )
+					{
+						return false; // no table has this size
+					}
+
 					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
@@ -228,6 +238,10 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 #endif
 					value.p2 = INIT_AS_HASH_TABLE;
 
+					if ( value.va->m_mod != temp16 )
+					{
+						return false; // no table has this size, the entries would not be where they are looked for
+					}
 
 					for( uint16_t i=0; i<temp16; ++i )
 					{
@@ -289,5 +303,10 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init(); // whatever was made of it is incomplete
+		return false;
+	}
+	return true;
 }
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f797388..c18086c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -15343,6 +15343,11 @@ bool wr_serializeEx( WRValueSerializer& serializer, const WRValue& val, const WR
 			{
 				case WR_EX_ARRAY:
 				{
+					if ( value.va->m_size > 0xFFFF )
+					{
+						return false; // the size would not fit
+					}
+
 					serializer.write( &(temp = value.va->m_type), 1 );
 					temp16 = wr_x16( value.va->m_size );
 					serializer.write( (char*)&temp16, 2 );
@@ -15496,6 +15501,11 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 					temp16 = wr_x16( temp16 );
 					
+					if ( temp16 == 0 || temp16 > c_primeTable[(sizeof(c_primeTable) / sizeof(c_primeTable[0])) - 1] )
+					{
+						return false; // no table has this size
+					}
+
 					value.va = context->getSVA( temp16 - 1, SV_HASH_TABLE, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 					if ( !value.va )
@@ -15506,6 +15516,10 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 #endif
 					value.p2 = INIT_AS_HASH_TABLE;
 
+					if ( value.va->m_mod != temp16 )
+					{
+						return false; // no table has this size, the entries would not be where they are looked for
+					}
 
 					for( uint16_t i=0; i<temp16; ++i )
 					{
@@ -15567,7 +15581,12 @@ bool wr_serialize( char** buf, int* len, const WRValue& value )
 bool wr_deserialize( WRContext* context, WRValue& value, const char* buf, const int len )
 {
 	WRValueSerializer S( buf, len );
-	return wr_deserializeEx( value, S, context );
+	if ( !wr_deserializeEx(value, S, context) )
+	{
+		value.init(); // whatever was made of it is incomplete
+		return false;
+	}
+	return true;
 }
 /*******************************************************************************
 Copyright (c) 2026 Curt Hartung -- curt.hartung@gmail.com
-- 
2.43.0


From 6163da535056d4417c96f1d74bc1c50610cd73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:04 +0000
Subject: [PATCH 41/89] fix: string literals and array initializers too long
 for their bytecode field gave corrupt code

---
 discrete_src/cc/cc.cpp         | 18 ++++++++++++++++++
 discrete_src/cc/expression.cpp |  6 +++++-
 discrete_src/vm/vm.cpp         |  2 +-
 src/wrench.cpp                 | 26 ++++++++++++++++++++++++--
 4 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index e23a7ec..60b1e4e 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -783,6 +783,12 @@ void WRCompilationContext::pushLiteral( WRBytecode& bytecode, WRExpressionContex
 	}
 	else if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 	{
+		if ( context.literalString.size() > 0xFFFF )
+		{
+			m_err = WR_ERR_compiler_panic; // the length would not fit
+			return;
+		}
+
 		pushOpcode( bytecode, O_LiteralString );
 		int16_t be = context.literalString.size();
 		pushData( bytecode, wr_pack16(be, data), 2 );
@@ -1711,6 +1717,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			wr_pack16( initializer++, idat );
 			pushData( expression.context[depth].bytecode, idat, 2 );
 
+			if ( initializer == 0 )
+			{
+				m_err = WR_ERR_compiler_panic; // more elements than can be indexed
+				return -1;
+			}
+
 			continue;
 		}
 	
@@ -1832,6 +1844,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				pushOpcode( expression.context[depth].bytecode, O_AssignToArrayAndPop );
 				wr_pack16( initializer++, idat );
 				pushData( expression.context[depth].bytecode, idat, 2 );
+
+				if ( initializer == 0 )
+				{
+					m_err = WR_ERR_compiler_panic; // more elements than can be indexed
+					return -1;
+				}
 			}
 		}
 		
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 6021df3..231d0fd 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -287,7 +287,11 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 						unsigned char data[2];
 						wr_pack16( initializer, data );
-						++initializer;
+						if ( ++initializer == 0 )
+						{
+							m_err = WR_ERR_compiler_panic; // more elements than can be indexed
+							return 0;
+						}
 
 						pushData( expression.context[depth].bytecode, data, 2 );
 
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 2579809..1166692 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -1652,7 +1652,7 @@ doAssignToLocalAndPop:
 			CASE(AssignToArrayAndPop):
 			{
 				stackTop->p2 = INIT_AS_INT; // index
-				stackTop->i = READ_16_FROM_PC(pc);
+				stackTop->i = (uint16_t)READ_16_FROM_PC(pc);
 				pc += 2;
 				register1 = stackTop - 1; // value
 				register0 = stackTop - 2; // array
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c18086c..c8576ac 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -3829,6 +3829,12 @@ void WRCompilationContext::pushLiteral( WRBytecode& bytecode, WRExpressionContex
 	}
 	else if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
 	{
+		if ( context.literalString.size() > 0xFFFF )
+		{
+			m_err = WR_ERR_compiler_panic; // the length would not fit
+			return;
+		}
+
 		pushOpcode( bytecode, O_LiteralString );
 		int16_t be = context.literalString.size();
 		pushData( bytecode, wr_pack16(be, data), 2 );
@@ -4757,6 +4763,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 			wr_pack16( initializer++, idat );
 			pushData( expression.context[depth].bytecode, idat, 2 );
 
+			if ( initializer == 0 )
+			{
+				m_err = WR_ERR_compiler_panic; // more elements than can be indexed
+				return -1;
+			}
+
 			continue;
 		}
 	
@@ -4878,6 +4890,12 @@ int WRCompilationContext::parseInitializer( WRExpression& expression, int depth
 				pushOpcode( expression.context[depth].bytecode, O_AssignToArrayAndPop );
 				wr_pack16( initializer++, idat );
 				pushData( expression.context[depth].bytecode, idat, 2 );
+
+				if ( initializer == 0 )
+				{
+					m_err = WR_ERR_compiler_panic; // more elements than can be indexed
+					return -1;
+				}
 			}
 		}
 		
@@ -7160,7 +7178,11 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 						unsigned char data[2];
 						wr_pack16( initializer, data );
-						++initializer;
+						if ( ++initializer == 0 )
+						{
+							m_err = WR_ERR_compiler_panic; // more elements than can be indexed
+							return 0;
+						}
 
 						pushData( expression.context[depth].bytecode, data, 2 );
 
@@ -11871,7 +11893,7 @@ doAssignToLocalAndPop:
 			CASE(AssignToArrayAndPop):
 			{
 				stackTop->p2 = INIT_AS_INT; // index
-				stackTop->i = READ_16_FROM_PC(pc);
+				stackTop->i = (uint16_t)READ_16_FROM_PC(pc);
 				pc += 2;
 				register1 = stackTop - 1; // value
 				register0 = stackTop - 2; // array
-- 
2.43.0


From 519bd8a3daca5212825c01d1777680146a7278a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:46 +0000
Subject: [PATCH 42/89] fix: the tokenizer read past the end of the source and
 took /*/ for a whole comment

---
 discrete_src/cc/cc.cpp    |  2 +-
 discrete_src/cc/token.cpp | 17 +++++++++++------
 src/wrench.cpp            | 19 ++++++++++++-------
 3 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 60b1e4e..7f9d734 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -261,7 +261,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 2f2a0fc..8315bcb 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -309,23 +309,28 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
 
+						c = m_source[m_pos];
+
 						if (c == '\\') // escaped slash
 						{
 							token += '\\';
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							unsigned int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = code * 10 + (m_source[m_pos] - '0');
+							}
 							--m_pos;
+							token += (char)code;
 						}
 						else if (c == '\"')
 						{
@@ -387,7 +392,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if ( m_source[m_pos] == '*' )
 						{
-							for( ; (m_pos+1)<m_sourceLen
+							for( ++m_pos; (m_pos+1)<m_sourceLen
 								 && !(m_source[m_pos] == '*' && m_source[m_pos+1] == '/');
 								 ++m_pos ); // find end of comment
 
@@ -540,7 +545,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c8576ac..fce62b5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -3307,7 +3307,7 @@ bool WRCompilationContext::isValidLabel( WRstr& token, bool& isGlobal, WRstr& pr
 		}
 	}
 
-	if ( foundColon && token[token.size() - 1] == ':' )
+	if ( foundColon && (!token.size() || token[token.size() - 1] == ':') )
 	{
 		return false;
 	}
@@ -9401,23 +9401,28 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 					else if (c == '\\')
 					{
-						c = m_source[++m_pos];
-						if (m_pos >= m_sourceLen)
+						if (++m_pos >= m_sourceLen)
 						{
 							m_err = WR_ERR_unterminated_string_literal;
 							m_EOF = true;
 							return false;
 						}
 
+						c = m_source[m_pos];
+
 						if (c == '\\') // escaped slash
 						{
 							token += '\\';
 						}
 						else if (c == '0')
 						{
-							token += atoi(m_source + m_pos);
-							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos);
+							unsigned int code = 0;
+							for (; (m_pos < m_sourceLen) && isdigit(m_source[m_pos]); ++m_pos)
+							{
+								code = code * 10 + (m_source[m_pos] - '0');
+							}
 							--m_pos;
+							token += (char)code;
 						}
 						else if (c == '\"')
 						{
@@ -9479,7 +9484,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 						}
 						else if ( m_source[m_pos] == '*' )
 						{
-							for( ; (m_pos+1)<m_sourceLen
+							for( ++m_pos; (m_pos+1)<m_sourceLen
 								 && !(m_source[m_pos] == '*' && m_source[m_pos+1] == '/');
 								 ++m_pos ); // find end of comment
 
@@ -9632,7 +9637,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 					}
 				}
 			}
-			else if ( token[0] == ':' && isspace(m_source[m_pos]) )
+			else if ( token[0] == ':' && (m_pos < m_sourceLen) && isspace(m_source[m_pos]) )
 			{
 				
 			}
-- 
2.43.0


From 7d2108813d82baec216ab3441c597cca32c35ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:07 +0000
Subject: [PATCH 43/89] fix: a string literal read ahead pointed at a token
 that was gone

---
 discrete_src/cc/token.cpp | 4 ++++
 src/wrench.cpp            | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 8315bcb..0b428d5 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -42,6 +42,10 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 	{
 		token = m_loadedToken;
 		value = m_loadedValue;
+		if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
+		{
+			value.p = &token; // the one it was loaded from may be gone
+		}
 		m_quoted = m_loadedQuoted;
 	}
 	else
diff --git a/src/wrench.cpp b/src/wrench.cpp
index fce62b5..d92989e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9134,6 +9134,10 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 	{
 		token = m_loadedToken;
 		value = m_loadedValue;
+		if ( (uint8_t)value.type == WR_COMPILER_LITERAL_STRING )
+		{
+			value.p = &token; // the one it was loaded from may be gone
+		}
 		m_quoted = m_loadedQuoted;
 	}
 	else
-- 
2.43.0


From 75c2374f40e2a1ffdd05a40f10f3069f656744de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:43:31 +0000
Subject: [PATCH 44/89] fix: an operator without its operands compiled to code
 that corrupted the stack

---
 discrete_src/cc/cc.cpp | 27 ++++++++++++++++++++++++---
 src/wrench.cpp         | 27 ++++++++++++++++++++++++---
 2 files changed, 48 insertions(+), 6 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 7f9d734..a081edb 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1087,11 +1087,26 @@ void WRExpression::swapWithTop( int stackPosition, bool addOpcodes )
 	context[swapWith].stackPosition = 0;
 }
 
+//------------------------------------------------------------------------------
+static bool wr_isOperand( WRExpression& expression, int index )
+{
+	return index >= 0
+		   && index < (int)expression.context.count()
+		   && expression.context[index].type != EXTYPE_NONE
+		   && expression.context[index].type != EXTYPE_OPERATION;
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::resolveExpression( WRExpression& expression )
 {
 	if ( expression.context.count() == 1 ) // single expression is trivial to resolve, load it!
 	{
+		if ( !wr_isOperand(expression, 0) )
+		{
+			m_err = WR_ERR_bad_expression;
+			return;
+		}
+
 		loadExpressionContext( expression, 0, 0 );
 		return;
 	}
@@ -1155,6 +1170,12 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 		{
 			ret = 1;
 
+			if ( !wr_isOperand(expression, o + 1) )
+			{
+				m_err = WR_ERR_bad_expression;
+				return 0;
+			}
+
 			if ( expression.context[o + 1].stackPosition == -1 )
 			{
 				loadExpressionContext( expression, o + 1, 0 ); // load argument
@@ -1178,7 +1199,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 
 			ret = 2;
 
-			if( o == 0 )
+			if ( !wr_isOperand(expression, o - 1) || !wr_isOperand(expression, o + 1) )
 			{
 				m_err = WR_ERR_bad_expression;
 				return 0;
@@ -1264,7 +1285,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 		{
 			ret = 2;
 
-			if( o == 0 )
+			if ( !wr_isOperand(expression, o - 1) || !wr_isOperand(expression, o + 1) )
 			{
 				m_err = WR_ERR_bad_expression;
 				return 0;
@@ -1384,7 +1405,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 		{
 			ret = 1;
 
-			if( o == 0 )
+			if ( !wr_isOperand(expression, o - 1) )
 			{
 				m_err = WR_ERR_bad_expression;
 				return 0;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index d92989e..16b796e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -4133,11 +4133,26 @@ void WRExpression::swapWithTop( int stackPosition, bool addOpcodes )
 	context[swapWith].stackPosition = 0;
 }
 
+//------------------------------------------------------------------------------
+static bool wr_isOperand( WRExpression& expression, int index )
+{
+	return index >= 0
+		   && index < (int)expression.context.count()
+		   && expression.context[index].type != EXTYPE_NONE
+		   && expression.context[index].type != EXTYPE_OPERATION;
+}
+
 //------------------------------------------------------------------------------
 void WRCompilationContext::resolveExpression( WRExpression& expression )
 {
 	if ( expression.context.count() == 1 ) // single expression is trivial to resolve, load it!
 	{
+		if ( !wr_isOperand(expression, 0) )
+		{
+			m_err = WR_ERR_bad_expression;
+			return;
+		}
+
 		loadExpressionContext( expression, 0, 0 );
 		return;
 	}
@@ -4201,6 +4216,12 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 		{
 			ret = 1;
 
+			if ( !wr_isOperand(expression, o + 1) )
+			{
+				m_err = WR_ERR_bad_expression;
+				return 0;
+			}
+
 			if ( expression.context[o + 1].stackPosition == -1 )
 			{
 				loadExpressionContext( expression, o + 1, 0 ); // load argument
@@ -4224,7 +4245,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 
 			ret = 2;
 
-			if( o == 0 )
+			if ( !wr_isOperand(expression, o - 1) || !wr_isOperand(expression, o + 1) )
 			{
 				m_err = WR_ERR_bad_expression;
 				return 0;
@@ -4310,7 +4331,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 		{
 			ret = 2;
 
-			if( o == 0 )
+			if ( !wr_isOperand(expression, o - 1) || !wr_isOperand(expression, o + 1) )
 			{
 				m_err = WR_ERR_bad_expression;
 				return 0;
@@ -4430,7 +4451,7 @@ unsigned int WRCompilationContext::resolveExpressionEx( WRExpression& expression
 		{
 			ret = 1;
 
-			if( o == 0 )
+			if ( !wr_isOperand(expression, o - 1) )
 			{
 				m_err = WR_ERR_bad_expression;
 				return 0;
-- 
2.43.0


From 247a593be883fa091c31490acd66a4262bba4426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:03 +0000
Subject: [PATCH 45/89] fix: an empty statement, and break or continue without
 braces, popped a value nobody pushed

---
 discrete_src/cc/cc.cpp         | 46 ++++++++++++++++++++++++----
 discrete_src/cc/cc.h           |  2 ++
 discrete_src/cc/expression.cpp |  8 ++++-
 src/wrench.cpp                 | 56 +++++++++++++++++++++++++++++-----
 4 files changed, 98 insertions(+), 14 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index a081edb..310bb4f 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -1503,6 +1503,12 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 			
 			char end = parseExpression( nex );
 
+			if ( nex.isEmpty() )
+			{
+				m_err = m_err ? m_err : WR_ERR_unexpected_token;
+				return 0;
+			}
+
 			if ( nex.bytecode.opcodes.size() > 0 )
 			{
 				uint8_t op = nex.bytecode.opcodes[nex.bytecode.opcodes.size() - 1];
@@ -2030,7 +2036,7 @@ bool WRCompilationContext::parseWhile( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || nex.isEmpty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2105,7 +2111,7 @@ bool WRCompilationContext::parseDoWhile( WROpcode opcodeToReturn )
 	//m_loadedToken = token;
 	//m_loadedValue = value;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || nex.isEmpty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -2210,6 +2216,12 @@ A:
 
 		char end = parseExpression( nex );
 
+		if ( nex.isEmpty() )
+		{
+			m_err = m_err ? m_err : WR_ERR_unexpected_token;
+			return 0;
+		}
+
 		if ( foreachPossible )
 		{
 			if ( foreachLoadI < 3 )
@@ -2427,6 +2439,11 @@ A:
 			m_loadedQuoted = m_quoted;
 
 			char end = parseExpression( nex );
+			if ( nex.isEmpty() )
+			{
+				m_err = m_err ? m_err : WR_ERR_unexpected_token;
+				return 0;
+			}
 			pushOpcode( nex.bytecode, O_PopOne );
 
 			appendBytecode( post.bytecode, nex.bytecode );
@@ -2733,7 +2750,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	selectionCriteria.context[0].token = token;
 	selectionCriteria.context[0].value = value;
 	
-	if ( parseExpression(selectionCriteria) != ')' )
+	if ( parseExpression(selectionCriteria) != ')' || selectionCriteria.isEmpty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -3047,7 +3064,7 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || m_err )
+	if ( parseExpression(nex) != ')' || nex.isEmpty() || m_err )
 	{
 		m_err = m_err ? m_err : WR_ERR_unexpected_token;
 		return false;
@@ -3255,6 +3272,13 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_breakTargets.tail() );
+
+			if ( getToken(ex) && (m_quoted || token != ";") )
+			{
+				m_loadedToken = token;
+				m_loadedValue = ex.value;
+				m_loadedQuoted = m_quoted;
+			}
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
@@ -3265,6 +3289,13 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_continueTargets.tail() );
+
+			if ( getToken(ex) && (m_quoted || token != ";") )
+			{
+				m_loadedToken = token;
+				m_loadedValue = ex.value;
+				m_loadedQuoted = m_quoted;
+			}
 		}
 		else if ( !m_quoted && token == "goto" )
 		{
@@ -3313,8 +3344,11 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				return false;
 			}
 
-			appendBytecode( m_units[unitIndex].bytecode, nex.bytecode );
-			pushOpcode( m_units[unitIndex].bytecode, O_PopOne );
+			if ( !nex.isEmpty() ) // a bare ';' leaves nothing to pop
+			{
+				appendBytecode( m_units[unitIndex].bytecode, nex.bytecode );
+				pushOpcode( m_units[unitIndex].bytecode, O_PopOne );
+			}
 		}
 
 		if ( end == ';' ) // single statement
diff --git a/discrete_src/cc/cc.h b/discrete_src/cc/cc.h
index d6e5ebd..30ceec3 100644
--- a/discrete_src/cc/cc.h
+++ b/discrete_src/cc/cc.h
@@ -265,6 +265,8 @@ class WRExpression
 public:
 	WRarray<WRExpressionContext> context;
 
+	bool isEmpty() const { return context.count() == 0; }
+
 	WRBytecode bytecode;
 	bool lValue;
 	bool allowFunctionNameHashLiteral;
diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 231d0fd..889060f 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -411,7 +411,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 				m_loadedToken = token;
 				m_loadedValue = value;
 				m_loadedQuoted = m_quoted;
-				if ( parseExpression(nex) != ')' )
+				if ( parseExpression(nex) != ')' || nex.isEmpty() )
 				{
 					m_err = WR_ERR_unexpected_token;
 					return 0;
@@ -556,6 +556,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 		return 0;
 	}
 
+	if ( depth == 0 && expression.context[0].varSeen )
+	{
+		m_err = WR_ERR_bad_expression; // 'var' with nothing to declare
+		return 0;
+	}
+
 	expression.context.setCount( expression.context.count() - 1 );
 
 	if ( depth == 2
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 16b796e..60ff769 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -2038,6 +2038,8 @@ class WRExpression
 public:
 	WRarray<WRExpressionContext> context;
 
+	bool isEmpty() const { return context.count() == 0; }
+
 	WRBytecode bytecode;
 	bool lValue;
 	bool allowFunctionNameHashLiteral;
@@ -4549,6 +4551,12 @@ bool WRCompilationContext::parseCallFunction( WRExpression& expression, WRstr fu
 			
 			char end = parseExpression( nex );
 
+			if ( nex.isEmpty() )
+			{
+				m_err = m_err ? m_err : WR_ERR_unexpected_token;
+				return 0;
+			}
+
 			if ( nex.bytecode.opcodes.size() > 0 )
 			{
 				uint8_t op = nex.bytecode.opcodes[nex.bytecode.opcodes.size() - 1];
@@ -5076,7 +5084,7 @@ bool WRCompilationContext::parseWhile( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || nex.isEmpty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -5151,7 +5159,7 @@ bool WRCompilationContext::parseDoWhile( WROpcode opcodeToReturn )
 	//m_loadedToken = token;
 	//m_loadedValue = value;
 
-	if ( parseExpression(nex) != ')' )
+	if ( parseExpression(nex) != ')' || nex.isEmpty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -5256,6 +5264,12 @@ A:
 
 		char end = parseExpression( nex );
 
+		if ( nex.isEmpty() )
+		{
+			m_err = m_err ? m_err : WR_ERR_unexpected_token;
+			return 0;
+		}
+
 		if ( foreachPossible )
 		{
 			if ( foreachLoadI < 3 )
@@ -5473,6 +5487,11 @@ A:
 			m_loadedQuoted = m_quoted;
 
 			char end = parseExpression( nex );
+			if ( nex.isEmpty() )
+			{
+				m_err = m_err ? m_err : WR_ERR_unexpected_token;
+				return 0;
+			}
 			pushOpcode( nex.bytecode, O_PopOne );
 
 			appendBytecode( post.bytecode, nex.bytecode );
@@ -5779,7 +5798,7 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	selectionCriteria.context[0].token = token;
 	selectionCriteria.context[0].value = value;
 	
-	if ( parseExpression(selectionCriteria) != ')' )
+	if ( parseExpression(selectionCriteria) != ')' || selectionCriteria.isEmpty() )
 	{
 		m_err = WR_ERR_unexpected_token;
 		return false;
@@ -6093,7 +6112,7 @@ bool WRCompilationContext::parseIf( WROpcode opcodeToReturn )
 	m_loadedValue = value;
 	m_loadedQuoted = m_quoted;
 
-	if ( parseExpression(nex) != ')' || m_err )
+	if ( parseExpression(nex) != ')' || nex.isEmpty() || m_err )
 	{
 		m_err = m_err ? m_err : WR_ERR_unexpected_token;
 		return false;
@@ -6301,6 +6320,13 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_breakTargets.tail() );
+
+			if ( getToken(ex) && (m_quoted || token != ";") )
+			{
+				m_loadedToken = token;
+				m_loadedValue = ex.value;
+				m_loadedQuoted = m_quoted;
+			}
 		}
 		else if ( !m_quoted && token == "continue" )
 		{
@@ -6311,6 +6337,13 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 			}
 
 			addRelativeJumpSource( m_units[unitIndex].bytecode, O_RelativeJump, *m_continueTargets.tail() );
+
+			if ( getToken(ex) && (m_quoted || token != ";") )
+			{
+				m_loadedToken = token;
+				m_loadedValue = ex.value;
+				m_loadedQuoted = m_quoted;
+			}
 		}
 		else if ( !m_quoted && token == "goto" )
 		{
@@ -6359,8 +6392,11 @@ bool WRCompilationContext::parseStatement( int unitIndex, char end, WROpcode opc
 				return false;
 			}
 
-			appendBytecode( m_units[unitIndex].bytecode, nex.bytecode );
-			pushOpcode( m_units[unitIndex].bytecode, O_PopOne );
+			if ( !nex.isEmpty() ) // a bare ';' leaves nothing to pop
+			{
+				appendBytecode( m_units[unitIndex].bytecode, nex.bytecode );
+				pushOpcode( m_units[unitIndex].bytecode, O_PopOne );
+			}
 		}
 
 		if ( end == ';' ) // single statement
@@ -7323,7 +7359,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 				m_loadedToken = token;
 				m_loadedValue = value;
 				m_loadedQuoted = m_quoted;
-				if ( parseExpression(nex) != ')' )
+				if ( parseExpression(nex) != ')' || nex.isEmpty() )
 				{
 					m_err = WR_ERR_unexpected_token;
 					return 0;
@@ -7468,6 +7504,12 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 		return 0;
 	}
 
+	if ( depth == 0 && expression.context[0].varSeen )
+	{
+		m_err = WR_ERR_bad_expression; // 'var' with nothing to declare
+		return 0;
+	}
+
 	expression.context.setCount( expression.context.count() - 1 );
 
 	if ( depth == 2
-- 
2.43.0


From 8edc2ac1921168f4c26395a7b28a86dba8f15973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:27 +0000
Subject: [PATCH 46/89] fix: foreach over a literal indexed the globals with it

---
 discrete_src/cc/cc.cpp | 3 ++-
 src/wrench.cpp         | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 310bb4f..1290fbf 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2271,7 +2271,8 @@ A:
 				end = parseExpression( nex2 );
 				if ( end == ')'
 					 && nex2.bytecode.opcodes.size() == 1
-					 && nex2.bytecode.all.size() == 2 )
+					 && nex2.bytecode.all.size() == 2
+					 && ((nex2.bytecode.all[0] == O_LoadFromLocal) || (nex2.bytecode.all[0] == O_LoadFromGlobal)) )
 				{
 
 					WRstr T;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 60ff769..a733f2b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5319,7 +5319,8 @@ A:
 				end = parseExpression( nex2 );
 				if ( end == ')'
 					 && nex2.bytecode.opcodes.size() == 1
-					 && nex2.bytecode.all.size() == 2 )
+					 && nex2.bytecode.all.size() == 2
+					 && ((nex2.bytecode.all[0] == O_LoadFromLocal) || (nex2.bytecode.all[0] == O_LoadFromGlobal)) )
 				{
 
 					WRstr T;
-- 
2.43.0


From 9b96bd7e3c9c252483f9c853ddcf5dcf63233c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:51 +0000
Subject: [PATCH 47/89] fix: a switch that ends in a loop ran its selection
 again on leaving the loop

---
 discrete_src/cc/cc.cpp | 7 ++-----
 src/wrench.cpp         | 7 ++-----
 2 files changed, 4 insertions(+), 10 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index 1290fbf..b682910 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2869,11 +2869,8 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	
 	// make sure the last instruction is a break (jump) so the
 	// selection logic is skipped at the end of the last case/default
-	if ( !m_units[m_unitTop].bytecode.opcodes.size() 
-		 || (m_units[m_unitTop].bytecode.opcodes.size() && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_RelativeJump) )
-	{
-		addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
-	}
+	// (even if a jump is already there: it may be the end of a loop, which is left by jumping past it)
+	addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
 
 	// selection logic jumps HERE
 	setRelativeJumpTarget( m_units[m_unitTop].bytecode, selectionLogicPoint );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a733f2b..b5107cd 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5917,11 +5917,8 @@ bool WRCompilationContext::parseSwitch( WROpcode opcodeToReturn )
 	
 	// make sure the last instruction is a break (jump) so the
 	// selection logic is skipped at the end of the last case/default
-	if ( !m_units[m_unitTop].bytecode.opcodes.size() 
-		 || (m_units[m_unitTop].bytecode.opcodes.size() && m_units[m_unitTop].bytecode.opcodes[m_units[m_unitTop].bytecode.opcodes.size() - 1] != O_RelativeJump) )
-	{
-		addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
-	}
+	// (even if a jump is already there: it may be the end of a loop, which is left by jumping past it)
+	addRelativeJumpSource( m_units[m_unitTop].bytecode, O_RelativeJump, *m_breakTargets.tail() );
 
 	// selection logic jumps HERE
 	setRelativeJumpTarget( m_units[m_unitTop].bytecode, selectionLogicPoint );
-- 
2.43.0


From 273f2f1b16b3f2684f0ae06ec4c8c14ec8d1fd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:12 +0000
Subject: [PATCH 48/89] fix: a bad goto in a program with 'new' leaked the list
 of namespace lookups

---
 discrete_src/cc/link.cpp | 4 ++--
 src/wrench.cpp           | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 38cc0c6..0976472 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -280,7 +280,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
-							return;
+							break; // no return: the list of namespace lookups must be freed
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
 						wr_pack16( (int16_t)diff, m_units[u].bytecode.all.p_str(m_units[u].bytecode.gotoSource[g].offset + 1) );
@@ -293,7 +293,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
-				return;
+				break;
 			}
 		}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index b5107cd..4888043 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6803,7 +6803,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 						if ( diff < -32768 || diff > 32767 )
 						{
 							m_err = WR_ERR_bad_goto_location;
-							return;
+							break; // no return: the list of namespace lookups must be freed
 						}
 						*m_units[u].bytecode.all.p_str( m_units[u].bytecode.gotoSource[g].offset ) = (unsigned char)O_RelativeJump;
 						wr_pack16( (int16_t)diff, m_units[u].bytecode.all.p_str(m_units[u].bytecode.gotoSource[g].offset + 1) );
@@ -6816,7 +6816,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 			if ( j >= m_units[u].bytecode.jumpOffsetTargets.count() )
 			{
 				m_err = WR_ERR_goto_target_not_found;
-				return;
+				break;
 			}
 		}
 
-- 
2.43.0


From 8c9130c6d06b6f4b04658c2c39e22d92afe54f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:55:48 +0000
Subject: [PATCH 49/89] fix: declaring an array with a size that is not a small
 integer corrupted memory

---
 discrete_src/vm/vm.cpp | 9 +++++++++
 src/wrench.cpp         | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 1166692..164012c 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -833,6 +833,15 @@ yieldContinue:
 			{
 				register0 = &(--stackTop)->singleValue();
 				register1 = &(stackTop - 1)->deref();
+				if ( register0->type != WR_INT )
+				{
+					CONTINUE; // not a size
+				}
+				if ( register0->ui > MAX_ARRAY_ELEMENT ) // negative or impossibly large
+				{
+					register1->init();
+					CONTINUE;
+				}
 				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4888043..3dd2285 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -11144,6 +11144,15 @@ yieldContinue:
 			{
 				register0 = &(--stackTop)->singleValue();
 				register1 = &(stackTop - 1)->deref();
+				if ( register0->type != WR_INT )
+				{
+					CONTINUE; // not a size
+				}
+				if ( register0->ui > MAX_ARRAY_ELEMENT ) // negative or impossibly large
+				{
+					register1->init();
+					CONTINUE;
+				}
 				register1->p2 = INIT_AS_ARRAY;
 				register1->va = context->getSVA( register0->ui, SV_VALUE, true );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
-- 
2.43.0


From 884fdf2650f8a5e27b3ffb8e6a5ce5e6d4a4d1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:58:51 +0000
Subject: [PATCH 50/89] fix: 'var a[n]' with a variable for a size made n + 1
 elements and kept the old ones

---
 discrete_src/cc/expression.cpp | 1 +
 src/wrench.cpp                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 889060f..5056ca1 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -580,6 +580,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 			case O_Index:
 			{
 				expression.context[1].bytecode.all[a] = O_InitArray;
+				expression.context[1].bytecode.opcodes[i] = O_InitArray; // or it is optimized as an index
 				break;
 			}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3dd2285..a780db3 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -7526,6 +7526,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 			case O_Index:
 			{
 				expression.context[1].bytecode.all[a] = O_InitArray;
+				expression.context[1].bytecode.opcodes[i] = O_InitArray; // or it is optimized as an index
 				break;
 			}
 
-- 
2.43.0


From f71423b20d1b690eaf9aa6708eda4e485b9a00dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:59:37 +0000
Subject: [PATCH 51/89] fix: the statement 'a[3];' replaced an existing
 variable with an empty array

---
 discrete_src/cc/expression.cpp | 1 +
 src/wrench.cpp                 | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/cc/expression.cpp b/discrete_src/cc/expression.cpp
index 5056ca1..da6835d 100644
--- a/discrete_src/cc/expression.cpp
+++ b/discrete_src/cc/expression.cpp
@@ -566,6 +566,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 	if ( depth == 2
 		 && expression.lValue
+		 && (expression.context[0].varSeen || !m_needVar) // otherwise it's an element being looked at
 		 && expression.context[0].type == EXTYPE_LABEL
 		 && expression.context[1].type == EXTYPE_OPERATION
 		 && expression.context[1].operation->opcode == O_Index
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a780db3..30a0f74 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -7512,6 +7512,7 @@ char WRCompilationContext::parseExpression( WRExpression& expression )
 
 	if ( depth == 2
 		 && expression.lValue
+		 && (expression.context[0].varSeen || !m_needVar) // otherwise it's an element being looked at
 		 && expression.context[0].type == EXTYPE_LABEL
 		 && expression.context[1].type == EXTYPE_OPERATION
 		 && expression.context[1].operation->opcode == O_Index
-- 
2.43.0


From a02af5f75cd70ee2f3b78b762a1bb97625ae4c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:45 +0000
Subject: [PATCH 52/89] fix: str::format truncated %b and %o and did not count
 sign and prefix in the width

---
 discrete_src/lib/std_string.cpp | 33 ++++++++++++++++++++++++++-------
 src/wrench.cpp                  | 33 ++++++++++++++++++++++++++-------
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 5b5651a..ca8f469 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -146,7 +146,7 @@ resetState:
 		}
 		else // string or integer
 		{
-			const int c_bufSize = 20;
+			const int c_bufSize = 33; // %b of 32 bits
 			char buf[c_bufSize]; // buffer for integer
 
 			const char *ptr; // pointer to first char of integer
@@ -184,10 +184,21 @@ copyToString:
 //
 //				ptr -= len;
 
-				// Right-justify
-				if ( !(flags & negativeJustify) )
+				// the sign and the prefix count against the width
+				unsigned int pad = len;
+				if ( flags & negativeSign )
+				{
+					pad += 1;
+				}
+				if ( flags & altRep || c == 'p' )
+				{
+					pad += 2;
+				}
+
+				// Right-justify, spaces go before the sign, zeros after it
+				if ( !(flags & negativeJustify) && padChar == ' ' )
 				{
-					for ( ; columns > len; columns-- )
+					for ( ; columns > pad; columns-- )
 					{
 						addChar( outbuf, padChar, pos, outsize );
 					}
@@ -204,13 +215,21 @@ copyToString:
 					addChar( outbuf, 'x', pos, outsize );
 				}
 
+				if ( !(flags & negativeJustify) )
+				{
+					for ( ; columns > pad; columns-- )
+					{
+						addChar( outbuf, padChar, pos, outsize );
+					}
+				}
+
 				for (unsigned int l = 0; l < len; ++l )
 				{
 					addChar( outbuf, *ptr++, pos, outsize );
 				}
 
 				// Left-justify
-				for ( ; columns > len; columns-- )
+				for ( ; columns > pad; columns-- )
 				{
 					addChar( outbuf, ' ', pos, outsize );
 				}
@@ -264,13 +283,13 @@ parseDecimal:
 				else if ( c == 'b' ) // binary
 				{
 					base  = 2;
-					width = 16;
+					width = 32;
 					goto convertBase;
 				}
 				else if ( c == 'o' ) // octal
 				{
 					base  = 8;
-					width = 5;
+					width = 11;
 					goto convertBase;
 				}
 				else if ( c == 'x' || c == 'X' || c == 'p' ) // hexadecimal or pointer (pointer is treated as 'X')
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 30a0f74..5a50805 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21861,7 +21861,7 @@ resetState:
 		}
 		else // string or integer
 		{
-			const int c_bufSize = 20;
+			const int c_bufSize = 33; // %b of 32 bits
 			char buf[c_bufSize]; // buffer for integer
 
 			const char *ptr; // pointer to first char of integer
@@ -21899,10 +21899,21 @@ copyToString:
 //
 //				ptr -= len;
 
-				// Right-justify
-				if ( !(flags & negativeJustify) )
+				// the sign and the prefix count against the width
+				unsigned int pad = len;
+				if ( flags & negativeSign )
+				{
+					pad += 1;
+				}
+				if ( flags & altRep || c == 'p' )
+				{
+					pad += 2;
+				}
+
+				// Right-justify, spaces go before the sign, zeros after it
+				if ( !(flags & negativeJustify) && padChar == ' ' )
 				{
-					for ( ; columns > len; columns-- )
+					for ( ; columns > pad; columns-- )
 					{
 						addChar( outbuf, padChar, pos, outsize );
 					}
@@ -21919,13 +21930,21 @@ copyToString:
 					addChar( outbuf, 'x', pos, outsize );
 				}
 
+				if ( !(flags & negativeJustify) )
+				{
+					for ( ; columns > pad; columns-- )
+					{
+						addChar( outbuf, padChar, pos, outsize );
+					}
+				}
+
 				for (unsigned int l = 0; l < len; ++l )
 				{
 					addChar( outbuf, *ptr++, pos, outsize );
 				}
 
 				// Left-justify
-				for ( ; columns > len; columns-- )
+				for ( ; columns > pad; columns-- )
 				{
 					addChar( outbuf, ' ', pos, outsize );
 				}
@@ -21979,13 +21998,13 @@ parseDecimal:
 				else if ( c == 'b' ) // binary
 				{
 					base  = 2;
-					width = 16;
+					width = 32;
 					goto convertBase;
 				}
 				else if ( c == 'o' ) // octal
 				{
 					base  = 8;
-					width = 5;
+					width = 11;
 					goto convertBase;
 				}
 				else if ( c == 'x' || c == 'X' || c == 'p' ) // hexadecimal or pointer (pointer is treated as 'X')
-- 
2.43.0


From 99eea1ae69a833871fd72e3817e51b6d9f110b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:04 +0000
Subject: [PATCH 53/89] fix: str::sprintf formatted in place, corrupting
 arguments and copies that share the string

---
 discrete_src/lib/std_string.cpp | 85 ++++++++-------------------------
 src/wrench.cpp                  | 85 ++++++++-------------------------
 2 files changed, 38 insertions(+), 132 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index ca8f469..1b525c8 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -372,80 +372,33 @@ unsigned int wr_doSprintf( WRValue& to, WRValue& fmt, WRValue* args, const int a
 		return 0;
 	}
 
-	unsigned int outbufSize = 0;
-	char* outbuf = (char*)to.array( &outbufSize, SV_CHAR );
+	// never in place: the arguments, the format and other variables may share
+	// the string being replaced
+	char tmpbuf[WR_FORMAT_TRY_SIZE + 1]; // start with a temp buf
 
-	unsigned int size;
+	unsigned int size = wr_sprintfEx( tmpbuf, WR_FORMAT_TRY_SIZE, fmtbuffer, fmtBufferSize, args, argn );
 
-	if ( !outbuf ) // going to have to make one then
-	{
-		char tmpbuf[WR_FORMAT_TRY_SIZE + 1]; // start with a temp buf
-		
-		size = wr_sprintfEx( tmpbuf, WR_FORMAT_TRY_SIZE, fmtbuffer, fmtBufferSize, args, argn );
-
-		if ( size > WR_FORMAT_TRY_SIZE )
-		{
-			goto createNewBuffer;
-		}
+	WRGCObject* va = c->getSVA( size, SV_CHAR, false );
 
-		to.va = c->getSVA( size, SV_CHAR, false );
-
-		#ifdef WRENCH_HANDLE_MALLOC_FAIL
-		if ( !to.va )
-		{
-			to.p2 = WR_INT;
-			return 0;
-		}
-		#endif
+	#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !va )
+	{
+		to.p2 = WR_INT;
+		to.i = 0;
+		return 0;
+	}
+	#endif
 
-		memcpy( to.va->m_Cdata, tmpbuf, size );
+	if ( size > WR_FORMAT_TRY_SIZE )
+	{
+		wr_sprintfEx( (char *)va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
 	}
 	else
 	{
-		size = wr_sprintfEx( outbuf, outbufSize, fmtbuffer, fmtBufferSize, args, argn );
-
-		if ( size > outbufSize )
-		{
-createNewBuffer:
-
-			to.va = c->getSVA( size, SV_CHAR, false );
-
-			#ifdef WRENCH_HANDLE_MALLOC_FAIL
-			if ( !to.va )
-			{
-				to.p2 = WR_INT;
-				return 0;
-			}
-			#endif
-			wr_sprintfEx( (char *)to.va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
-			}
-			else
-			{
-				// Keep amortized behavior for normal growth/shrink patterns,
-				// but release oversized buffers when utilization gets very low.
-				// This avoids long-lived large allocations after temporary spikes.
-				if ( outbufSize > WR_FORMAT_TRY_SIZE
-					 && size > 0
-					 && outbufSize >= (size << 2) )
-				{
-					to.va = c->getSVA( size, SV_CHAR, false );
-
-					#ifdef WRENCH_HANDLE_MALLOC_FAIL
-					if ( !to.va )
-					{
-						to.p2 = WR_INT;
-						return 0;
-					}
-					#endif
-					wr_sprintfEx( (char *)to.va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
-				}
-				else
-				{
-					to.va->m_size = size;
-				}
-			}
-		}
+		memcpy( va->m_Cdata, tmpbuf, size );
+	}
 
+	to.va = va;
 	to.p2 = INIT_AS_ARRAY;
 
 	return size;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 5a50805..ccab7ae 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22087,80 +22087,33 @@ unsigned int wr_doSprintf( WRValue& to, WRValue& fmt, WRValue* args, const int a
 		return 0;
 	}
 
-	unsigned int outbufSize = 0;
-	char* outbuf = (char*)to.array( &outbufSize, SV_CHAR );
+	// never in place: the arguments, the format and other variables may share
+	// the string being replaced
+	char tmpbuf[WR_FORMAT_TRY_SIZE + 1]; // start with a temp buf
 
-	unsigned int size;
+	unsigned int size = wr_sprintfEx( tmpbuf, WR_FORMAT_TRY_SIZE, fmtbuffer, fmtBufferSize, args, argn );
 
-	if ( !outbuf ) // going to have to make one then
-	{
-		char tmpbuf[WR_FORMAT_TRY_SIZE + 1]; // start with a temp buf
-		
-		size = wr_sprintfEx( tmpbuf, WR_FORMAT_TRY_SIZE, fmtbuffer, fmtBufferSize, args, argn );
-
-		if ( size > WR_FORMAT_TRY_SIZE )
-		{
-			goto createNewBuffer;
-		}
+	WRGCObject* va = c->getSVA( size, SV_CHAR, false );
 
-		to.va = c->getSVA( size, SV_CHAR, false );
-
-		#ifdef WRENCH_HANDLE_MALLOC_FAIL
-		if ( !to.va )
-		{
-			to.p2 = WR_INT;
-			return 0;
-		}
-		#endif
+	#ifdef WRENCH_HANDLE_MALLOC_FAIL
+	if ( !va )
+	{
+		to.p2 = WR_INT;
+		to.i = 0;
+		return 0;
+	}
+	#endif
 
-		memcpy( to.va->m_Cdata, tmpbuf, size );
+	if ( size > WR_FORMAT_TRY_SIZE )
+	{
+		wr_sprintfEx( (char *)va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
 	}
 	else
 	{
-		size = wr_sprintfEx( outbuf, outbufSize, fmtbuffer, fmtBufferSize, args, argn );
-
-		if ( size > outbufSize )
-		{
-createNewBuffer:
-
-			to.va = c->getSVA( size, SV_CHAR, false );
-
-			#ifdef WRENCH_HANDLE_MALLOC_FAIL
-			if ( !to.va )
-			{
-				to.p2 = WR_INT;
-				return 0;
-			}
-			#endif
-			wr_sprintfEx( (char *)to.va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
-			}
-			else
-			{
-				// Keep amortized behavior for normal growth/shrink patterns,
-				// but release oversized buffers when utilization gets very low.
-				// This avoids long-lived large allocations after temporary spikes.
-				if ( outbufSize > WR_FORMAT_TRY_SIZE
-					 && size > 0
-					 && outbufSize >= (size << 2) )
-				{
-					to.va = c->getSVA( size, SV_CHAR, false );
-
-					#ifdef WRENCH_HANDLE_MALLOC_FAIL
-					if ( !to.va )
-					{
-						to.p2 = WR_INT;
-						return 0;
-					}
-					#endif
-					wr_sprintfEx( (char *)to.va->m_Cdata, size, fmtbuffer, fmtBufferSize, args, argn );
-				}
-				else
-				{
-					to.va->m_size = size;
-				}
-			}
-		}
+		memcpy( va->m_Cdata, tmpbuf, size );
+	}
 
+	to.va = va;
 	to.p2 = INIT_AS_ARRAY;
 
 	return size;
-- 
2.43.0


From 67be020fe8bac5261295a3f6db8eb384526edf25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:25 +0000
Subject: [PATCH 54/89] fix: float conversions of str::sprintf doubled the next
 character and overran their buffer

---
 discrete_src/lib/std_string.cpp | 18 +++++++++++-------
 src/wrench.cpp                  | 18 +++++++++++-------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 1b525c8..5c55435 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -251,20 +251,24 @@ copyToString:
 				else if ( c == 'f' || c == 'g' )
 				{
 					char floatBuf[32];
-					int i = 30;
+					int i = 31;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					for( const char *f = fmt - 1; *f != '%' && i > 1; --f )
 					{
-						floatBuf[i] = *f;
+						floatBuf[--i] = *f;
 					}
-					floatBuf[i] = '%';
+					floatBuf[--i] = '%';
 
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					char buf[128];
+					int chars = snprintf( buf, sizeof(buf), floatBuf + i, listPtr < argn ? args[listPtr++].asFloat() : 0.f );
+					if ( chars >= (int)sizeof(buf) )
+					{
+						chars = (int)sizeof(buf) - 1;
+					}
 
 					// your system not have snprintf? the unsafe version is:
-					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
+					// int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
 
 					for( int j=0; j<chars; ++j )
 					{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ccab7ae..f828e05 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21966,20 +21966,24 @@ copyToString:
 				else if ( c == 'f' || c == 'g' )
 				{
 					char floatBuf[32];
-					int i = 30;
+					int i = 31;
 					floatBuf[31] = 0;
-					const char *f = fmt;
-					for( ; *f != '%'; --f, --i )
+					for( const char *f = fmt - 1; *f != '%' && i > 1; --f )
 					{
-						floatBuf[i] = *f;
+						floatBuf[--i] = *f;
 					}
-					floatBuf[i] = '%';
+					floatBuf[--i] = '%';
 
 					// suck in whatever lib we need for this
-					const int chars = snprintf( buf, 31, floatBuf + i, args[listPtr++].asFloat());
+					char buf[128];
+					int chars = snprintf( buf, sizeof(buf), floatBuf + i, listPtr < argn ? args[listPtr++].asFloat() : 0.f );
+					if ( chars >= (int)sizeof(buf) )
+					{
+						chars = (int)sizeof(buf) - 1;
+					}
 
 					// your system not have snprintf? the unsafe version is:
-					// const int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
+					// int chars = sprintf( buf, floatBuf + i, args[listPtr++].asFloat());
 
 					for( int j=0; j<chars; ++j )
 					{
-- 
2.43.0


From daeb43be4b5572270a316591af80c4465ffc6d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:48 +0000
Subject: [PATCH 55/89] fix: str::mid of an empty string gave 0 instead of an
 empty string

---
 discrete_src/lib/std_string.cpp | 2 +-
 src/wrench.cpp                  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 5c55435..39cb9aa 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -499,7 +499,7 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	unsigned int len;
 	const char* data = (char *)(args[0].array(&len));
 	
-	if( !data || len <= 0 )
+	if( !data )
 	{
 		return;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f828e05..944df6b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22214,7 +22214,7 @@ void wr_mid( WRValue* stackTop, const int argn, WRContext* c )
 	unsigned int len;
 	const char* data = (char *)(args[0].array(&len));
 	
-	if( !data || len <= 0 )
+	if( !data )
 	{
 		return;
 	}
-- 
2.43.0


From f580a9b1ce515d0a1dd0711b7f2c44774dd1c5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:12 +0000
Subject: [PATCH 56/89] fix: str::concat ignored all but the first two
 arguments

---
 discrete_src/lib/std_string.cpp | 28 ++++++++++++++++++----------
 src/wrench.cpp                  | 28 ++++++++++++++++++----------
 2 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 39cb9aa..35de4ea 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -642,17 +642,19 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	WRValue* args = stackTop - argn;
-	unsigned int len1 = 0;
-	unsigned int len2 = 0;
-	const char* data1 = (const char*)args[0].array( &len1 );
-	const char* data2 = (const char*)args[1].array( &len2 );
-
-	if( !data1 || !data2 )
+	unsigned int len = 0;
+	unsigned int total = 0;
+	int i;
+	for( i=0; i<argn; ++i )
 	{
-		return;
+		if ( !args[i].array(&len) )
+		{
+			return;
+		}
+		total += len;
 	}
 
-	stackTop->va = c->getSVA( len1 + len2, SV_CHAR, false );
+	stackTop->va = c->getSVA( total, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !stackTop->va )
 	{
@@ -660,8 +662,14 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 #endif
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data1, len1 );
-	memcpy( stackTop->va->m_Cdata + len1, data2, len2 );
+
+	total = 0;
+	for( i=0; i<argn; ++i )
+	{
+		const char* data = (const char*)args[i].array( &len );
+		memcpy( stackTop->va->m_Cdata + total, data, len );
+		total += len;
+	}
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 944df6b..6f7b910 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22357,17 +22357,19 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 
 	WRValue* args = stackTop - argn;
-	unsigned int len1 = 0;
-	unsigned int len2 = 0;
-	const char* data1 = (const char*)args[0].array( &len1 );
-	const char* data2 = (const char*)args[1].array( &len2 );
-
-	if( !data1 || !data2 )
+	unsigned int len = 0;
+	unsigned int total = 0;
+	int i;
+	for( i=0; i<argn; ++i )
 	{
-		return;
+		if ( !args[i].array(&len) )
+		{
+			return;
+		}
+		total += len;
 	}
 
-	stackTop->va = c->getSVA( len1 + len2, SV_CHAR, false );
+	stackTop->va = c->getSVA( total, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 	if ( !stackTop->va )
 	{
@@ -22375,8 +22377,14 @@ void wr_concat( WRValue* stackTop, const int argn, WRContext* c )
 	}
 #endif
 	stackTop->p2 = INIT_AS_ARRAY;
-	memcpy( stackTop->va->m_Cdata, data1, len1 );
-	memcpy( stackTop->va->m_Cdata + len1, data2, len2 );
+
+	total = 0;
+	for( i=0; i<argn; ++i )
+	{
+		const char* data = (const char*)args[i].array( &len );
+		memcpy( stackTop->va->m_Cdata + total, data, len );
+		total += len;
+	}
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From b799757ecda6a6bf15f50823a41123b9911c2449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:35 +0000
Subject: [PATCH 57/89] fix: str::tol cut strings after 20 characters

---
 discrete_src/lib/std_string.cpp | 6 +++---
 src/wrench.cpp                  | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_string.cpp b/discrete_src/lib/std_string.cpp
index 35de4ea..f176c57 100644
--- a/discrete_src/lib/std_string.cpp
+++ b/discrete_src/lib/std_string.cpp
@@ -622,14 +622,14 @@ void wr_toupper( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_tol( WRValue* stackTop, const int argn, WRContext* c )
 {
-	char buf[21];
+	char buf[129];
 	if ( argn == 2 )
 	{
-		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 20), 0, stackTop[-1].asInt() );
+		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 128), 0, stackTop[-1].asInt() );
 	}
 	else if ( argn == 1 )
 	{
-		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 20), 0, 10 );
+		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 128), 0, 10 );
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 6f7b910..0369297 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22337,14 +22337,14 @@ void wr_toupper( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 void wr_tol( WRValue* stackTop, const int argn, WRContext* c )
 {
-	char buf[21];
+	char buf[129];
 	if ( argn == 2 )
 	{
-		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 20), 0, stackTop[-1].asInt() );
+		stackTop->i = (int)strtol( stackTop[-2].asString(buf, 128), 0, stackTop[-1].asInt() );
 	}
 	else if ( argn == 1 )
 	{
-		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 20), 0, 10 );
+		stackTop->i = (int)strtol( stackTop[-1].asString(buf, 128), 0, 10 );
 	}
 }
 
-- 
2.43.0


From 26e6bf935d780b054fb7fad2b164378d7137b34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:44:56 +0000
Subject: [PATCH 58/89] fix: math::pow, math::fmod and math::ldexp took their
 arguments in reverse

---
 discrete_src/lib/std_math.cpp | 6 +++---
 src/wrench.cpp                | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_math.cpp b/discrete_src/lib/std_math.cpp
index daf644d..811d798 100644
--- a/discrete_src/lib/std_math.cpp
+++ b/discrete_src/lib/std_math.cpp
@@ -202,7 +202,7 @@ void wr_math_pow( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = powf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = powf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -212,7 +212,7 @@ void wr_math_fmod( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = fmodf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = fmodf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -232,7 +232,7 @@ void wr_math_ldexp( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = ldexpf( (stackTop - 1)->asFloat(), (stackTop - 2)->asInt() );
+		stackTop->f = ldexpf( (stackTop - 2)->asFloat(), (stackTop - 1)->asInt() );
 	}
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0369297..82cb60b 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -22827,7 +22827,7 @@ void wr_math_pow( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = powf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = powf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -22837,7 +22837,7 @@ void wr_math_fmod( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = fmodf( (stackTop - 1)->asFloat(), (stackTop - 2)->asFloat() );
+		stackTop->f = fmodf( (stackTop - 2)->asFloat(), (stackTop - 1)->asFloat() );
 	}
 }
 
@@ -22857,7 +22857,7 @@ void wr_math_ldexp( WRValue* stackTop, const int argn, WRContext* c )
 	stackTop->p2 = INIT_AS_FLOAT;
 	if ( argn == 2 )
 	{
-		stackTop->f = ldexpf( (stackTop - 1)->asFloat(), (stackTop - 2)->asInt() );
+		stackTop->f = ldexpf( (stackTop - 2)->asFloat(), (stackTop - 1)->asInt() );
 	}
 }
 
-- 
2.43.0


From 02696e486430416db407e87bcc755fcfcaa9c04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:15 +0000
Subject: [PATCH 59/89] fix: std::rand over the full integer range divided by
 zero

---
 discrete_src/lib/std.cpp | 8 +++++++-
 src/wrench.cpp           | 8 +++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 26fb856..855d0ac 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -175,7 +175,13 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	if ( from >= to )
+	{
+		return from;
+	}
+
+	const uint32_t span = (uint32_t)to - (uint32_t)from + 1; // zero: every value there is
+	return (int32_t)((span ? ((uint32_t)wr_Seed % span) : (uint32_t)wr_Seed) + (uint32_t)from);
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 82cb60b..eeecd6d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20315,7 +20315,13 @@ const int32_t wr_randEx( const int32_t from, const int32_t to )
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-	return (from >= to) ? from : ((uint32_t)wr_Seed % ((to - from) + 1)) + from;
+	if ( from >= to )
+	{
+		return from;
+	}
+
+	const uint32_t span = (uint32_t)to - (uint32_t)from + 1; // zero: every value there is
+	return (int32_t)((span ? ((uint32_t)wr_Seed % span) : (uint32_t)wr_Seed) + (uint32_t)from);
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From e8caff8b2dbe1c1d766f8d9db0ec8fe98c2b77d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:35 +0000
Subject: [PATCH 60/89] fix: floats of 2^31 and more were written as garbage

---
 discrete_src/lib/std.cpp | 32 ++++++++++++++++++++++++++++++++
 src/wrench.cpp           | 32 ++++++++++++++++++++++++++++++++
 2 files changed, 64 insertions(+)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 855d0ac..356aeee 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -134,6 +134,38 @@ int wr_ftoa( float f, char* string, size_t len )
 		return 0;
 	}
 
+	if ( !(f < 2147483648.f) ) // does not fit an int
+	{
+		if ( f != f || f - f != 0 ) // not a finite number either
+		{
+			const char* text = (f != f) ? "nan" : "inf";
+			while( *text && pos < len )
+			{
+				string[pos++] = *text++;
+			}
+			string[pos] = 0;
+			return pos;
+		}
+
+		double whole = f;
+		double place = 1.0;
+		while( place * 10.0 <= whole )
+		{
+			place *= 10.0;
+		}
+
+		for( ; place > 0.5 && pos < len; place /= 10.0 )
+		{
+			int digit = (int)(whole / place);
+			digit = digit > 9 ? 9 : digit;
+			whole -= digit * place;
+			whole = whole < 0 ? 0 : whole;
+			string[pos++] = '0' + digit;
+		}
+		string[pos] = 0;
+		return pos;
+	}
+
 	f += 5.f / (float)10e6; // round value to 5 places
 
 	int i = (int)f;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index eeecd6d..663b480 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20274,6 +20274,38 @@ int wr_ftoa( float f, char* string, size_t len )
 		return 0;
 	}
 
+	if ( !(f < 2147483648.f) ) // does not fit an int
+	{
+		if ( f != f || f - f != 0 ) // not a finite number either
+		{
+			const char* text = (f != f) ? "nan" : "inf";
+			while( *text && pos < len )
+			{
+				string[pos++] = *text++;
+			}
+			string[pos] = 0;
+			return pos;
+		}
+
+		double whole = f;
+		double place = 1.0;
+		while( place * 10.0 <= whole )
+		{
+			place *= 10.0;
+		}
+
+		for( ; place > 0.5 && pos < len; place /= 10.0 )
+		{
+			int digit = (int)(whole / place);
+			digit = digit > 9 ? 9 : digit;
+			whole -= digit * place;
+			whole = whole < 0 ? 0 : whole;
+			string[pos++] = '0' + digit;
+		}
+		string[pos] = 0;
+		return pos;
+	}
+
 	f += 5.f / (float)10e6; // round value to 5 places
 
 	int i = (int)f;
-- 
2.43.0


From d1ff74af96cfb311e809d344afa1cabd60b43937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:56 +0000
Subject: [PATCH 61/89] fix: some seeds made std::rand return zero forever

---
 discrete_src/lib/std.cpp | 5 +++++
 src/wrench.cpp           | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 356aeee..841e80e 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -204,6 +204,11 @@ int wr_ftoa( float f, char* string, size_t len )
 //------------------------------------------------------------------------------
 const int32_t wr_randEx( const int32_t from, const int32_t to )
 {
+	if ( !wr_Seed ) // would stay zero forever
+	{
+		wr_Seed = 0xA5EED;
+	}
+
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 663b480..4cbd823 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20344,6 +20344,11 @@ int wr_ftoa( float f, char* string, size_t len )
 //------------------------------------------------------------------------------
 const int32_t wr_randEx( const int32_t from, const int32_t to )
 {
+	if ( !wr_Seed ) // would stay zero forever
+	{
+		wr_Seed = 0xA5EED;
+	}
+
 	const int32_t k = wr_Seed / 127773;
 	wr_Seed = 16807 * (wr_Seed - k * 127773) - 2836 * k;
 
-- 
2.43.0


From 03f02fe43b0e807673668f8a81e15a10e5017138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:17 +0000
Subject: [PATCH 62/89] fix: msg::write and msg::clear clobbered registered
 functions of the same name

---
 discrete_src/lib/std_msg.cpp | 16 ++++++++++++----
 src/wrench.cpp               | 16 ++++++++++++----
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/discrete_src/lib/std_msg.cpp b/discrete_src/lib/std_msg.cpp
index f28ac5f..c593112 100644
--- a/discrete_src/lib/std_msg.cpp
+++ b/discrete_src/lib/std_msg.cpp
@@ -24,6 +24,14 @@ SOFTWARE.
 
 #include "wrench.h"
 
+//------------------------------------------------------------------------------
+// messages share the global registry with the functions registered there, keep
+// a message from ever having the key of a function of the same name
+static uint32_t wr_mboxKey( WRValue& key )
+{
+	return key.getHash() ^ 0x6D626F78;
+}
+
 //------------------------------------------------------------------------------
 // key   : anything hashable
 // clear : [OPTIONAL] default 0/'false' 
@@ -36,7 +44,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->globalRegistry.exists( wr_mboxKey( args[0] ), clear != 0 );
 
 		if ( msg )
 		{
@@ -55,7 +63,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( wr_mboxKey( args[0] ) );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -67,7 +75,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		c->w->globalRegistry.exists(wr_mboxKey( *(stackTop - argn) ), true );
 	}
 }
 
@@ -78,7 +86,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->globalRegistry.exists(wr_mboxKey( *(stackTop - argn) ), false) )
 	{
 		stackTop->i = 1;
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4cbd823..38c975a 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -23008,6 +23008,14 @@ SOFTWARE.
 
 #include "wrench.h"
 
+//------------------------------------------------------------------------------
+// messages share the global registry with the functions registered there, keep
+// a message from ever having the key of a function of the same name
+static uint32_t wr_mboxKey( WRValue& key )
+{
+	return key.getHash() ^ 0x6D626F78;
+}
+
 //------------------------------------------------------------------------------
 // key   : anything hashable
 // clear : [OPTIONAL] default 0/'false' 
@@ -23020,7 +23028,7 @@ void wr_mboxRead( WRValue* stackTop, const int argn, WRContext* c )
 		WRValue* args = stackTop - argn;
 		int clear = (argn > 1) ? args[1].asInt() : 0;
 
-		WRValue* msg = c->w->globalRegistry.exists( args[0].getHash(), clear != 0 );
+		WRValue* msg = c->w->globalRegistry.exists( wr_mboxKey( args[0] ), clear != 0 );
 
 		if ( msg )
 		{
@@ -23039,7 +23047,7 @@ void wr_mboxWrite( WRValue* stackTop, const int argn, WRContext* c )
 	{
 		WRValue* args = stackTop - argn;
 
-		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( args[0].getHash() );
+		WRValue* msg = c->w->globalRegistry.getAsRawValueHashTable( wr_mboxKey( args[0] ) );
 		msg->ui = args[1].getHash();
 		msg->p2 = INIT_AS_INT;
 	}
@@ -23051,7 +23059,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0 )
 	{
-		c->w->globalRegistry.exists((stackTop - argn)->getHash(), true );
+		c->w->globalRegistry.exists(wr_mboxKey( *(stackTop - argn) ), true );
 	}
 }
 
@@ -23062,7 +23070,7 @@ void wr_mboxClear( WRValue* stackTop, const int argn, WRContext* c )
 void wr_mboxPeek( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn > 0
-		 && c->w->globalRegistry.exists((stackTop - argn)->getHash(), false) )
+		 && c->w->globalRegistry.exists(wr_mboxKey( *(stackTop - argn) ), false) )
 	{
 		stackTop->i = 1;
 	}
-- 
2.43.0


From 5b03fa2be4c6c5797dc08c4441668ae38e30f950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:39 +0000
Subject: [PATCH 63/89] fix: hash tables of a few hundred mixed keys aborted
 when growing

---
 discrete_src/utils/serializer.cpp |  2 +-
 discrete_src/utils/utils.h        |  3 ++-
 discrete_src/vm/gc_object.cpp     | 23 +++++++++++++++--------
 src/wrench.cpp                    | 28 ++++++++++++++++++----------
 4 files changed, 36 insertions(+), 20 deletions(-)

diff --git a/discrete_src/utils/serializer.cpp b/discrete_src/utils/serializer.cpp
index 1c25eab..9e9d07d 100644
--- a/discrete_src/utils/serializer.cpp
+++ b/discrete_src/utils/serializer.cpp
@@ -223,7 +223,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 					temp16 = wr_x16( temp16 );
 					
-					if ( temp16 == 0 || temp16 > c_primeTable[(sizeof(c_primeTable) / sizeof(c_primeTable[0])) - 1] )
+					if ( temp16 == 0 || temp16 > c_primeTable[(sizeof(c_primeTable) / sizeof(c_primeTable[0])) - 2] )
 					{
 						return false; // no table has this size
 					}
diff --git a/discrete_src/utils/utils.h b/discrete_src/utils/utils.h
index 353ff85..a1cda7b 100644
--- a/discrete_src/utils/utils.h
+++ b/discrete_src/utils/utils.h
@@ -51,7 +51,8 @@ const uint16_t c_primeTable[] =
 	6151,
 	12289,
 	24593,
-	49157
+	49157,
+	0 // end of table
 };
 /*
 98317,
diff --git a/discrete_src/vm/gc_object.cpp b/discrete_src/vm/gc_object.cpp
index 2dd664d..13c7e70 100644
--- a/discrete_src/vm/gc_object.cpp
+++ b/discrete_src/vm/gc_object.cpp
@@ -72,6 +72,14 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	return ret;
 }
 
+//------------------------------------------------------------------------------
+// an entry is found within this many slots of its first choice. The largest
+// table cannot be traded for a larger one, so it is used to the last slot
+static inline int wr_hashTries( const uint32_t mod )
+{
+	return mod < 49157 ? 3 : (int)(mod - 1);
+}
+
 //------------------------------------------------------------------------------
 WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 {
@@ -87,7 +95,7 @@ WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 			{
 				if ( m_hashTable[(i = (i + 1) % m_mod)] != hash )
 				{
-					i = getIndexOfHit(hash, true);
+					i = getIndexOfHit( hash, m_mod < 49157 );
 				}
 			}
 		}
@@ -105,7 +113,7 @@ WRValue* WRGCObject::exists( const uint32_t hash, bool removeIfPresent )
 
 	if ( m_hashTable[index] != hash )
 	{
-		int tries = 3;
+		int tries = wr_hashTries( m_mod );
 		do
 		{
 			index = (index + 1) % m_mod;
@@ -164,7 +172,7 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		return index; // immediate hits should be cheap
 	}
 
-	int tries = 3;
+	int tries = wr_hashTries( m_mod );
 	do
 	{
 		if ( inserting && m_hashTable[index] == WRENCH_NULL_HASH )
@@ -206,13 +214,15 @@ uint32_t WRGCObject::growHash( const uint32_t hash, const uint16_t sizeHint, int
 
 	uint16_t start = (sizeHint > m_mod) ? sizeHint : m_mod;
 	int t = 0;
-	for( ; c_primeTable[t] <= start ; ++t );
+	for( ; c_primeTable[t] && c_primeTable[t] <= start ; ++t );
 
 	for(;;)
 	{
 tryAgain:
 		int newMod = c_primeTable[t];
 
+		assert( newMod ); // every slot of the largest table is in use
+
 		int newSize;
 		if ( m_type == SV_VOID_HASH_TABLE )
 		{
@@ -254,7 +264,7 @@ tryAgain:
 
 		for( unsigned int h=0; h<m_mod; ++h )
 		{
-			int tries = 3;
+			int tries = wr_hashTries( newMod );
 			int newEntry = m_hashTable[h] % newMod;
 			for(;;)
 			{
@@ -271,9 +281,6 @@ tryAgain:
 				{
 					g_free( base );
 					++t;
-
-					assert( (unsigned int)newMod != 49157 );
-
 					goto tryAgain;
 				}
 			}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 38c975a..7c5a358 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -57,7 +57,8 @@ const uint16_t c_primeTable[] =
 	6151,
 	12289,
 	24593,
-	49157
+	49157,
+	0 // end of table
 };
 /*
 98317,
@@ -9849,6 +9850,14 @@ int WRGCObject::init( const unsigned int size, const WRGCObjectType type, bool c
 	return ret;
 }
 
+//------------------------------------------------------------------------------
+// an entry is found within this many slots of its first choice. The largest
+// table cannot be traded for a larger one, so it is used to the last slot
+static inline int wr_hashTries( const uint32_t mod )
+{
+	return mod < 49157 ? 3 : (int)(mod - 1);
+}
+
 //------------------------------------------------------------------------------
 WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 {
@@ -9864,7 +9873,7 @@ WRValue* WRGCObject::getAsRawValueHashTable( const uint32_t hash, int* index )
 			{
 				if ( m_hashTable[(i = (i + 1) % m_mod)] != hash )
 				{
-					i = getIndexOfHit(hash, true);
+					i = getIndexOfHit( hash, m_mod < 49157 );
 				}
 			}
 		}
@@ -9882,7 +9891,7 @@ WRValue* WRGCObject::exists( const uint32_t hash, bool removeIfPresent )
 
 	if ( m_hashTable[index] != hash )
 	{
-		int tries = 3;
+		int tries = wr_hashTries( m_mod );
 		do
 		{
 			index = (index + 1) % m_mod;
@@ -9941,7 +9950,7 @@ uint32_t WRGCObject::getIndexOfHit( const uint32_t hash, const bool inserting )
 		return index; // immediate hits should be cheap
 	}
 
-	int tries = 3;
+	int tries = wr_hashTries( m_mod );
 	do
 	{
 		if ( inserting && m_hashTable[index] == WRENCH_NULL_HASH )
@@ -9983,13 +9992,15 @@ uint32_t WRGCObject::growHash( const uint32_t hash, const uint16_t sizeHint, int
 
 	uint16_t start = (sizeHint > m_mod) ? sizeHint : m_mod;
 	int t = 0;
-	for( ; c_primeTable[t] <= start ; ++t );
+	for( ; c_primeTable[t] && c_primeTable[t] <= start ; ++t );
 
 	for(;;)
 	{
 tryAgain:
 		int newMod = c_primeTable[t];
 
+		assert( newMod ); // every slot of the largest table is in use
+
 		int newSize;
 		if ( m_type == SV_VOID_HASH_TABLE )
 		{
@@ -10031,7 +10042,7 @@ tryAgain:
 
 		for( unsigned int h=0; h<m_mod; ++h )
 		{
-			int tries = 3;
+			int tries = wr_hashTries( newMod );
 			int newEntry = m_hashTable[h] % newMod;
 			for(;;)
 			{
@@ -10048,9 +10059,6 @@ tryAgain:
 				{
 					g_free( base );
 					++t;
-
-					assert( (unsigned int)newMod != 49157 );
-
 					goto tryAgain;
 				}
 			}
@@ -15604,7 +15612,7 @@ bool wr_deserializeEx( WRValue& value, WRValueSerializer& serializer, WRContext*
 
 					temp16 = wr_x16( temp16 );
 					
-					if ( temp16 == 0 || temp16 > c_primeTable[(sizeof(c_primeTable) / sizeof(c_primeTable[0])) - 1] )
+					if ( temp16 == 0 || temp16 > c_primeTable[(sizeof(c_primeTable) / sizeof(c_primeTable[0])) - 2] )
 					{
 						return false; // no table has this size
 					}
-- 
2.43.0


From f2cdf916ae566546bec8efdb9cfbd1999d840aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:03 +0000
Subject: [PATCH 64/89] fix: text of large floats was cut to 20 characters when
 concatenated

---
 discrete_src/vm/operations.cpp | 2 +-
 src/wrench.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index c276559..b27f7d2 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -30,7 +30,7 @@ inline int32_t wr_ineg_wrap( const int32_t a ) { return (int32_t)(0u - (uint32_t
 //------------------------------------------------------------------------------
 bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 {
-	const int c_bufSize = 20;
+	const int c_bufSize = 47; // the longest float
 	char buf[c_bufSize + 1];
 	char* str = buf;
 	unsigned int len;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 7c5a358..ecd82f5 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18216,7 +18216,7 @@ inline int32_t wr_ineg_wrap( const int32_t a ) { return (int32_t)(0u - (uint32_t
 //------------------------------------------------------------------------------
 bool wr_concatStringCheck( WRValue* to, WRValue* from, WRValue* target )
 {
-	const int c_bufSize = 20;
+	const int c_bufSize = 47; // the longest float
 	char buf[c_bufSize + 1];
 	char* str = buf;
 	unsigned int len;
-- 
2.43.0


From 37f3fc01bf7037a60b9f40c30979385eeafa89cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:24 +0000
Subject: [PATCH 65/89] fix: asMallocString gave no length for strings, failed
 for elements and cut floats

---
 discrete_src/utils/utils.cpp | 27 +++++++++++++++++++++++----
 src/wrench.cpp               | 27 +++++++++++++++++++++++----
 2 files changed, 46 insertions(+), 8 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 7bb3094..144f32e 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -951,12 +951,26 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 
 	if ( type == WR_FLOAT )
 	{
-		ret = (char*)g_malloc( 12 );
-		len = wr_ftoa( f, ret, 11 );
+		ret = (char*)g_malloc( 48 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
+		len = wr_ftoa( f, ret, 47 );
 	}
 	else if ( type == WR_INT )
 	{
 		ret = (char*)g_malloc( 13 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
 		len = wr_itoa( i, ret, 12 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
@@ -969,8 +983,13 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 			return 0;
 		}
 #endif
-		memcpy( ret, va->m_Cdata, va->m_size );
-		ret[ va->m_size ] = 0;
+		len = va->m_size;
+		memcpy( ret, va->m_Cdata, len );
+		ret[ len ] = 0;
+	}
+	else if ( IS_CONTAINER_MEMBER(xtype) )
+	{
+		return deref().asMallocString( strLen );
 	}
 	else
 	{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ecd82f5..274644c 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14589,12 +14589,26 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 
 	if ( type == WR_FLOAT )
 	{
-		ret = (char*)g_malloc( 12 );
-		len = wr_ftoa( f, ret, 11 );
+		ret = (char*)g_malloc( 48 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
+		len = wr_ftoa( f, ret, 47 );
 	}
 	else if ( type == WR_INT )
 	{
 		ret = (char*)g_malloc( 13 );
+#ifdef WRENCH_HANDLE_MALLOC_FAIL
+		if ( !ret )
+		{
+			g_mallocFailed = true;
+			return 0;
+		}
+#endif
 		len = wr_itoa( i, ret, 12 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
@@ -14607,8 +14621,13 @@ char* WRValue::asMallocString( unsigned int* strLen ) const
 			return 0;
 		}
 #endif
-		memcpy( ret, va->m_Cdata, va->m_size );
-		ret[ va->m_size ] = 0;
+		len = va->m_size;
+		memcpy( ret, va->m_Cdata, len );
+		ret[ len ] = 0;
+	}
+	else if ( IS_CONTAINER_MEMBER(xtype) )
+	{
+		return deref().asMallocString( strLen );
 	}
 	else
 	{
-- 
2.43.0


From 068376587876732ad57f3a859abeb63c963b5e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:47 +0000
Subject: [PATCH 66/89] fix: looking up a missing function or container value
 inserted it

---
 discrete_src/utils/utils.cpp | 10 +++++-----
 src/wrench.cpp               | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 144f32e..2285d47 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1126,11 +1126,11 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 			return 0;
 		}
 
-		cF = context->registry.getAsRawValueHashTable( hash );
-		if ( !cF->wrf ) // not found in the registry, but...
+		cF = context->registry.exists( hash, false );
+		if ( !cF || !cF->wrf ) // not found in the registry, but...
 		{
-				cF = context->w->globalRegistry.getAsRawValueHashTable(hash);
-				if ( cF->lcb ) // it was a library function, call it
+				cF = context->w->globalRegistry.exists( hash, false );
+				if ( cF && cF->lcb ) // it was a library function, call it
 				{
 					if ( context->yield_pc )
 					{
@@ -1387,7 +1387,7 @@ WRValue* wr_getValueFromContainer( WRValue const& container, const char* name )
 		return 0;
 	}
 
-	return (WRValue*)container.va->get( wr_hash(name, (const unsigned int)strlen(name)) );
+	return container.va->exists( wr_hash(name, (const unsigned int)strlen(name)), false );
 }
 
 #ifndef WRENCH_WITHOUT_COMPILER
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 274644c..f0009ff 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14764,11 +14764,11 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 			return 0;
 		}
 
-		cF = context->registry.getAsRawValueHashTable( hash );
-		if ( !cF->wrf ) // not found in the registry, but...
+		cF = context->registry.exists( hash, false );
+		if ( !cF || !cF->wrf ) // not found in the registry, but...
 		{
-				cF = context->w->globalRegistry.getAsRawValueHashTable(hash);
-				if ( cF->lcb ) // it was a library function, call it
+				cF = context->w->globalRegistry.exists( hash, false );
+				if ( cF && cF->lcb ) // it was a library function, call it
 				{
 					if ( context->yield_pc )
 					{
@@ -15025,7 +15025,7 @@ WRValue* wr_getValueFromContainer( WRValue const& container, const char* name )
 		return 0;
 	}
 
-	return (WRValue*)container.va->get( wr_hash(name, (const unsigned int)strlen(name)) );
+	return container.va->exists( wr_hash(name, (const unsigned int)strlen(name)), false );
 }
 
 #ifndef WRENCH_WITHOUT_COMPILER
-- 
2.43.0


From 3dd096e1a417ee8d3e5d439b6ba3a75c3fcadee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:09 +0000
Subject: [PATCH 67/89] fix: io::readFile leaked descriptors and io::deleteFile
 used a freed name

---
 discrete_src/lib/std_io.cpp | 11 ++++-------
 src/wrench.cpp              | 11 ++++-------
 2 files changed, 8 insertions(+), 14 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 1dd3387..156aa74 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -81,17 +81,14 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
-				{
-					return;
-				}
+				stackTop->va->m_size = (uint32_t)fread( stackTop->va->m_Cdata, 1, sbuf.st_size, infil );
+				fclose( infil );
 			}
-
-			fclose( infil );
 		}
 	}
 }
@@ -127,7 +124,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f0009ff..3982aec 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20556,17 +20556,14 @@ void wr_read_file( WRValue* stackTop, const int argn, WRContext* c )
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 				if ( !stackTop->va )
 				{
+					fclose( infil );
 					return;
 				}
 #endif
 				stackTop->p2 = INIT_AS_ARRAY;
-				if ( fread(stackTop->va->m_Cdata, sbuf.st_size, 1, infil) != 1 )
-				{
-					return;
-				}
+				stackTop->va->m_size = (uint32_t)fread( stackTop->va->m_Cdata, 1, sbuf.st_size, infil );
+				fclose( infil );
 			}
-
-			fclose( infil );
 		}
 	}
 }
@@ -20602,7 +20599,7 @@ void wr_delete_file( WRValue* stackTop, const int argn, WRContext* c )
 {
 	if ( argn == 1 )
 	{
-		const char* filename = WRValue::MallocStrScoped(*(stackTop - 1));
+		WRValue::MallocStrScoped filename( *(stackTop - 1) );
 		if ( filename )
 		{
 #if defined(WRENCH_WIN32_FILE_IO)
-- 
2.43.0


From d9d9a9b6ec4eea908babc282699cbc5e255b2ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:33 +0000
Subject: [PATCH 68/89] fix: technicalAsString wrote past the buffer

---
 discrete_src/utils/utils.cpp | 82 +++++++++++++++++-------------------
 src/wrench.cpp               | 82 +++++++++++++++++-------------------
 2 files changed, 76 insertions(+), 88 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 2285d47..b319ae0 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -831,106 +831,100 @@ int WRValue::arraySize() const
 }
 
 //------------------------------------------------------------------------------
-int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+// append to string as snprintf would, never past maxLen
+static size_t wr_technicalAppend( char* string, const size_t pos, const size_t maxLen, const char* text, const size_t len )
 {
-	if ( pos >= maxLen )
+	size_t i = 0;
+	for( ; i < len && (pos + i) < maxLen; ++i )
 	{
-		return maxLen - 1;
+		string[pos + i] = text[i];
 	}
-	
+	return pos + i;
+}
+
+//------------------------------------------------------------------------------
+static size_t wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+{
+	char buf[32];
+
 	if ( value->type == WR_REF )
 	{
-		strncpy( (string + pos), "ref: ", maxLen - pos );
-		pos += 5;
+		pos = wr_technicalAppend( string, pos, maxLen, "ref: ", 5 );
 		return wr_technicalAsStringEx( string, value->r, pos, maxLen, valuesInHex );
 	}
 	else if ( value->type == WR_FLOAT )
 	{
-		return pos + snprintf( string + pos, maxLen - pos, "%g", value->f );
+		return wr_technicalAppend( string, pos, maxLen, buf, snprintf(buf, sizeof(buf), "%g", value->f) );
 	}
 	else if ( value->type == WR_INT )
 	{
-		return pos + (valuesInHex ? snprintf(string + pos, maxLen - pos, "0x%08lX", (unsigned long int)value->ui )
-			: snprintf(string + pos, maxLen - pos, "%ld", (long int)value->i));
-				
+		return wr_technicalAppend( string, pos, maxLen, buf,
+								   valuesInHex ? snprintf(buf, sizeof(buf), "0x%08lX", (unsigned long int)value->ui )
+								   : snprintf(buf, sizeof(buf), "%ld", (long int)value->i) );
 	}
 	else if ( value->xtype == WR_EX_ARRAY )
 	{
 		if ( value->va->m_type == SV_VALUE )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "[ " );
+			pos = wr_technicalAppend( string, pos, maxLen, "[ ", 2 );
 
-			bool first = true;
 			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
 			{
-				if ( !first )
+				if ( i )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", ", 2 );
 				}
-				first = false;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + i, pos, maxLen, valuesInHex );
 			}
 
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, " ]" );
+			pos = wr_technicalAppend( string, pos, maxLen, " ]", 2 );
 		}
 		else if ( value->va->m_type == SV_CHAR )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
-
-			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
-			{
-				string[pos++] = value->va->m_SCdata[i];
-			}
-
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"", 1 );
+			pos = wr_technicalAppend( string, pos, maxLen, (const char*)value->va->m_SCdata, value->va->m_size );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"", 1 );
 		}
 		else
 		{
-			pos += snprintf( string + pos, maxLen - pos, "<raw array>" );
+			pos = wr_technicalAppend( string, pos, maxLen, "<raw array>", 11 );
 		}
 	}
 	else if ( value->xtype == WR_EX_HASH_TABLE )
 	{
-		pos += snprintf( string + pos, maxLen - pos, "{ " );
-		
+		pos = wr_technicalAppend( string, pos, maxLen, "{ ", 2 );
+
 		bool first = true;
-		for( int32_t element=0; element<value->va->m_mod; ++element )
+		for( int32_t element=0; pos<maxLen && element<value->va->m_mod; ++element )
 		{
 			if ( value->va->m_hashTable[element] != WRENCH_NULL_HASH )
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", ", 2 );
 				}
 				first = false;
 				int32_t index = element << 1;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index + 1, pos, maxLen, valuesInHex );
-				pos += snprintf( string + pos, maxLen - pos, ":" );
+				pos = wr_technicalAppend( string, pos, maxLen, ":", 1 );
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index, pos, maxLen, valuesInHex );
 			}
 		}
 
-		pos += snprintf( string + pos, maxLen - pos, " }" );
+		pos = wr_technicalAppend( string, pos, maxLen, " }", 2 );
 	}
 
-	return (pos >= maxLen) ? maxLen : pos;
+	return pos;
 }
 
 //------------------------------------------------------------------------------
 char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool valuesInHex, unsigned int* strLen ) const
 {
-	unsigned int len = wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
-	string[ len ] = 0;
+	unsigned int len = (unsigned int)wr_technicalAsStringEx( string, this, 0, maxLen ? maxLen - 1 : 0, valuesInHex );
+	if ( maxLen )
+	{
+		string[ len ] = 0;
+	}
 	if ( strLen )
 	{
 		*strLen = len;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 3982aec..2b623b6 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14469,106 +14469,100 @@ int WRValue::arraySize() const
 }
 
 //------------------------------------------------------------------------------
-int wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+// append to string as snprintf would, never past maxLen
+static size_t wr_technicalAppend( char* string, const size_t pos, const size_t maxLen, const char* text, const size_t len )
 {
-	if ( pos >= maxLen )
+	size_t i = 0;
+	for( ; i < len && (pos + i) < maxLen; ++i )
 	{
-		return maxLen - 1;
+		string[pos + i] = text[i];
 	}
-	
+	return pos + i;
+}
+
+//------------------------------------------------------------------------------
+static size_t wr_technicalAsStringEx( char* string, const WRValue* value, size_t pos, size_t maxLen, bool valuesInHex )
+{
+	char buf[32];
+
 	if ( value->type == WR_REF )
 	{
-		strncpy( (string + pos), "ref: ", maxLen - pos );
-		pos += 5;
+		pos = wr_technicalAppend( string, pos, maxLen, "ref: ", 5 );
 		return wr_technicalAsStringEx( string, value->r, pos, maxLen, valuesInHex );
 	}
 	else if ( value->type == WR_FLOAT )
 	{
-		return pos + snprintf( string + pos, maxLen - pos, "%g", value->f );
+		return wr_technicalAppend( string, pos, maxLen, buf, snprintf(buf, sizeof(buf), "%g", value->f) );
 	}
 	else if ( value->type == WR_INT )
 	{
-		return pos + (valuesInHex ? snprintf(string + pos, maxLen - pos, "0x%08lX", (unsigned long int)value->ui )
-			: snprintf(string + pos, maxLen - pos, "%ld", (long int)value->i));
-				
+		return wr_technicalAppend( string, pos, maxLen, buf,
+								   valuesInHex ? snprintf(buf, sizeof(buf), "0x%08lX", (unsigned long int)value->ui )
+								   : snprintf(buf, sizeof(buf), "%ld", (long int)value->i) );
 	}
 	else if ( value->xtype == WR_EX_ARRAY )
 	{
 		if ( value->va->m_type == SV_VALUE )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "[ " );
+			pos = wr_technicalAppend( string, pos, maxLen, "[ ", 2 );
 
-			bool first = true;
 			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
 			{
-				if ( !first )
+				if ( i )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", ", 2 );
 				}
-				first = false;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + i, pos, maxLen, valuesInHex );
 			}
 
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, " ]" );
+			pos = wr_technicalAppend( string, pos, maxLen, " ]", 2 );
 		}
 		else if ( value->va->m_type == SV_CHAR )
 		{
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
-
-			for( uint32_t i=0; pos<maxLen && i<value->va->m_size; ++i )
-			{
-				string[pos++] = value->va->m_SCdata[i];
-			}
-
-			if ( pos >= maxLen )
-			{
-				return maxLen;
-			}
-
-			pos += snprintf( string + pos, maxLen - pos, "\"" );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"", 1 );
+			pos = wr_technicalAppend( string, pos, maxLen, (const char*)value->va->m_SCdata, value->va->m_size );
+			pos = wr_technicalAppend( string, pos, maxLen, "\"", 1 );
 		}
 		else
 		{
-			pos += snprintf( string + pos, maxLen - pos, "<raw array>" );
+			pos = wr_technicalAppend( string, pos, maxLen, "<raw array>", 11 );
 		}
 	}
 	else if ( value->xtype == WR_EX_HASH_TABLE )
 	{
-		pos += snprintf( string + pos, maxLen - pos, "{ " );
-		
+		pos = wr_technicalAppend( string, pos, maxLen, "{ ", 2 );
+
 		bool first = true;
-		for( int32_t element=0; element<value->va->m_mod; ++element )
+		for( int32_t element=0; pos<maxLen && element<value->va->m_mod; ++element )
 		{
 			if ( value->va->m_hashTable[element] != WRENCH_NULL_HASH )
 			{
 				if ( !first )
 				{
-					pos += snprintf( string + pos, maxLen - pos, ", " );
+					pos = wr_technicalAppend( string, pos, maxLen, ", ", 2 );
 				}
 				first = false;
 				int32_t index = element << 1;
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index + 1, pos, maxLen, valuesInHex );
-				pos += snprintf( string + pos, maxLen - pos, ":" );
+				pos = wr_technicalAppend( string, pos, maxLen, ":", 1 );
 				pos = wr_technicalAsStringEx( string, value->va->m_Vdata + index, pos, maxLen, valuesInHex );
 			}
 		}
 
-		pos += snprintf( string + pos, maxLen - pos, " }" );
+		pos = wr_technicalAppend( string, pos, maxLen, " }", 2 );
 	}
 
-	return (pos >= maxLen) ? maxLen : pos;
+	return pos;
 }
 
 //------------------------------------------------------------------------------
 char* WRValue::technicalAsString( char* string, unsigned int maxLen, bool valuesInHex, unsigned int* strLen ) const
 {
-	unsigned int len = wr_technicalAsStringEx( string, this, 0, maxLen, valuesInHex );
-	string[ len ] = 0;
+	unsigned int len = (unsigned int)wr_technicalAsStringEx( string, this, 0, maxLen ? maxLen - 1 : 0, valuesInHex );
+	if ( maxLen )
+	{
+		string[ len ] = 0;
+	}
 	if ( strLen )
 	{
 		*strLen = len;
-- 
2.43.0


From 47d73c7fd89e788457844842417590472a04cd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:57 +0000
Subject: [PATCH 69/89] fix: asString wrote one byte past a buffer of maxLen
 bytes

---
 discrete_src/utils/utils.cpp | 18 +++++++++++++-----
 src/wrench.cpp               | 18 +++++++++++++-----
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index b319ae0..8a70cda 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1007,20 +1007,21 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 	}
 
 	unsigned int len = 0;
+	char buf[48];
+	const char* text = buf;
 	
 	if ( type == WR_FLOAT )
 	{
-		len = wr_ftoa( f, string, maxLen );
+		len = wr_ftoa( f, buf, 47 );
 	}
 	else if ( type == WR_INT )
 	{
-		len = wr_itoa( i, string, maxLen );
+		len = wr_itoa( i, buf, 47 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
 	{
-		len = maxLen ? (maxLen > va->m_size ? va->m_size : maxLen) : va->m_size;
-		memcpy( string, va->m_Cdata, len );
-		string[len] = 0;
+		len = va->m_size;
+		text = (const char*)va->m_Cdata;
 	}
 	else if ( IS_CONTAINER_MEMBER(xtype) )
 	{
@@ -1031,6 +1032,13 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 		return singleValue().asString( string, maxLen, strLen ); // never give up, never surrender	
 	}
 
+	if ( maxLen && len >= maxLen )
+	{
+		len = maxLen - 1; // the terminator has to fit too
+	}
+	memcpy( string, text, len );
+	string[len] = 0;
+
 	if ( strLen )
 	{
 		*strLen = len;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 2b623b6..0cda031 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14645,20 +14645,21 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 	}
 
 	unsigned int len = 0;
+	char buf[48];
+	const char* text = buf;
 	
 	if ( type == WR_FLOAT )
 	{
-		len = wr_ftoa( f, string, maxLen );
+		len = wr_ftoa( f, buf, 47 );
 	}
 	else if ( type == WR_INT )
 	{
-		len = wr_itoa( i, string, maxLen );
+		len = wr_itoa( i, buf, 47 );
 	}
 	else if ( xtype == WR_EX_ARRAY && va->m_type == SV_CHAR )
 	{
-		len = maxLen ? (maxLen > va->m_size ? va->m_size : maxLen) : va->m_size;
-		memcpy( string, va->m_Cdata, len );
-		string[len] = 0;
+		len = va->m_size;
+		text = (const char*)va->m_Cdata;
 	}
 	else if ( IS_CONTAINER_MEMBER(xtype) )
 	{
@@ -14669,6 +14670,13 @@ char* WRValue::asString( char* string, unsigned int maxLen, unsigned int* strLen
 		return singleValue().asString( string, maxLen, strLen ); // never give up, never surrender	
 	}
 
+	if ( maxLen && len >= maxLen )
+	{
+		len = maxLen - 1; // the terminator has to fit too
+	}
+	memcpy( string, text, len );
+	string[len] = 0;
+
 	if ( strLen )
 	{
 		*strLen = len;
-- 
2.43.0


From af5bdc1dfbd35b70a7f90fdeb3e80d8554b5ed98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:18 +0000
Subject: [PATCH 70/89] fix: io::open ignored its mode argument and io::getline
 lost every 257th character

---
 discrete_src/lib/std_io.cpp | 7 ++++++-
 src/wrench.cpp              | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index 156aa74..e91fab3 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -148,6 +148,11 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 
 		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
 		{ 
+			if ( pos >= 256 && in != EOF && in != '\n' && in != '\r' )
+			{
+				ungetc( in, stdin ); // belongs to the next call
+			}
+
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
@@ -183,7 +188,7 @@ void wr_ioOpen( WRValue* stackTop, const int argn, WRContext* c )
 			stackTop->i = _open( fileName, mode | O_BINARY, _S_IREAD | _S_IWRITE /*0600*/ );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = open( fileName, mode, 0666 );
+			stackTop->i = open( fileName, mode, (argn > 2) ? args[2].asInt() : 0666 );
 #endif
 		}
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0cda031..39f6d41 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20625,6 +20625,11 @@ void wr_getline( WRValue* stackTop, const int argn, WRContext* c )
 
 		if ( in == EOF || in == '\n' || in == '\r' || pos >= 256 )
 		{ 
+			if ( pos >= 256 && in != EOF && in != '\n' && in != '\r' )
+			{
+				ungetc( in, stdin ); // belongs to the next call
+			}
+
 			stackTop->va = c->getSVA( pos, SV_CHAR, false );
 #ifdef WRENCH_HANDLE_MALLOC_FAIL
 			if ( !stackTop->va )
@@ -20660,7 +20665,7 @@ void wr_ioOpen( WRValue* stackTop, const int argn, WRContext* c )
 			stackTop->i = _open( fileName, mode | O_BINARY, _S_IREAD | _S_IWRITE /*0600*/ );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = open( fileName, mode, 0666 );
+			stackTop->i = open( fileName, mode, (argn > 2) ? args[2].asInt() : 0666 );
 #endif
 		}
 	}
-- 
2.43.0


From efd7391aa7aa009ea1fdecb6847f3d56a8de6318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:10 +0000
Subject: [PATCH 71/89] fix: isInt and isFloat were false for a loop variable
 that refers to an element

---
 discrete_src/wrench.h | 4 ++--
 src/wrench.h          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index ac15142..76045c8 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -819,8 +819,8 @@ struct WRValue
 	void setFloat( const float F ) { wr_makeFloat(this, F); }
 	void setInt( const int I ) { wr_makeInt(this, I); }
 
-	bool isFloat() const {return type == WR_FLOAT || (type == WR_REF && r->type == WR_FLOAT); }
-	bool isInt() const { return type == WR_INT || (type == WR_REF && r->type == WR_INT); }
+	bool isFloat() const { return type == WR_FLOAT || (type > WR_FLOAT && deref().type == WR_FLOAT); }
+	bool isInt() const { return type == WR_INT || (type > WR_FLOAT && deref().type == WR_INT); }
 	bool isString( int* len =0 ) const;
 	bool isWrenchArray( int* len =0 ) const;
 	bool isRawArray( int* len =0 ) const;
diff --git a/src/wrench.h b/src/wrench.h
index ea992ee..0aa2376 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -820,8 +820,8 @@ struct WRValue
 	void setFloat( const float F ) { wr_makeFloat(this, F); }
 	void setInt( const int I ) { wr_makeInt(this, I); }
 
-	bool isFloat() const {return type == WR_FLOAT || (type == WR_REF && r->type == WR_FLOAT); }
-	bool isInt() const { return type == WR_INT || (type == WR_REF && r->type == WR_INT); }
+	bool isFloat() const { return type == WR_FLOAT || (type > WR_FLOAT && deref().type == WR_FLOAT); }
+	bool isInt() const { return type == WR_INT || (type > WR_FLOAT && deref().type == WR_INT); }
 	bool isString( int* len =0 ) const;
 	bool isWrenchArray( int* len =0 ) const;
 	bool isRawArray( int* len =0 ) const;
-- 
2.43.0


From 65e6a73f9b78ce16ff8dd398563f9cc1c55e56e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:32 +0000
Subject: [PATCH 72/89] fix: wr_getGlobalRef did not find globals with names
 longer than 61 characters

---
 discrete_src/utils/utils.cpp | 4 +---
 src/wrench.cpp               | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 8a70cda..4c32678 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1184,7 +1184,6 @@ WRFunction* wr_getFunction( WRContext* context, const uint32_t functionHash )
 //------------------------------------------------------------------------------
 WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 {
-	char globalLabel[64] = "::";
 	if ( !label || !(READ_8_FROM_PC(context->bottom + 2) & WR_INCLUDE_GLOBALS) )
 	{
 		return 0;
@@ -1196,8 +1195,7 @@ WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 	}
 	else
 	{
-		strncpy( globalLabel + 2, label, 61 );
-		match = wr_hashStr( globalLabel );
+		match = wr_hashStr( label, wr_hashStr("::") );
 	}
 
 	const unsigned char* symbolsBlock = context->bottom + 3 + (context->numLocalFunctions * WR_FUNCTION_CORE_SIZE);
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 39f6d41..f52599e 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14822,7 +14822,6 @@ WRFunction* wr_getFunction( WRContext* context, const uint32_t functionHash )
 //------------------------------------------------------------------------------
 WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 {
-	char globalLabel[64] = "::";
 	if ( !label || !(READ_8_FROM_PC(context->bottom + 2) & WR_INCLUDE_GLOBALS) )
 	{
 		return 0;
@@ -14834,8 +14833,7 @@ WRValue* wr_getGlobalRef( WRContext* context, const char* label )
 	}
 	else
 	{
-		strncpy( globalLabel + 2, label, 61 );
-		match = wr_hashStr( globalLabel );
+		match = wr_hashStr( label, wr_hashStr("::") );
 	}
 
 	const unsigned char* symbolsBlock = context->bottom + 3 + (context->numLocalFunctions * WR_FUNCTION_CORE_SIZE);
-- 
2.43.0


From 726611fa69d2c5653f703f425ab452e0da603a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:02:58 +0000
Subject: [PATCH 73/89] fix: case labels with bytes above 127 or embedded zeros
 matched the wrong strings

---
 discrete_src/cc/cc.cpp   | 2 +-
 discrete_src/lib/std.cpp | 2 +-
 src/wrench.cpp           | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/cc/cc.cpp b/discrete_src/cc/cc.cpp
index b682910..83ebd2a 100644
--- a/discrete_src/cc/cc.cpp
+++ b/discrete_src/cc/cc.cpp
@@ -2686,7 +2686,7 @@ uint32_t WRCompilationContext::getSingleValueHash( const char* end )
 		return 0;
 	}
 	
-	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hashStr(token) : value.getHash();
+	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hash(token, token.size()) : value.getHash();
 
 	if ( !getToken(ex, end) )
 	{
diff --git a/discrete_src/lib/std.cpp b/discrete_src/lib/std.cpp
index 841e80e..ad35eec 100644
--- a/discrete_src/lib/std.cpp
+++ b/discrete_src/lib/std.cpp
@@ -81,7 +81,7 @@ uint32_t wr_hashStr( const char* dat, uint32_t serial )
 	const char* data = dat;
 	while ( *data )
 	{
-		hash ^= (uint32_t)(*data++);
+		hash ^= (uint32_t)(unsigned char)(*data++); // as wr_hash() does
 		hash *= 0x1000193;
 	}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index f52599e..982146a 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -5735,7 +5735,7 @@ uint32_t WRCompilationContext::getSingleValueHash( const char* end )
 		return 0;
 	}
 	
-	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hashStr(token) : value.getHash();
+	uint32_t hash = ((uint8_t)value.type == WR_COMPILER_LITERAL_STRING) ? wr_hash(token, token.size()) : value.getHash();
 
 	if ( !getToken(ex, end) )
 	{
@@ -20248,7 +20248,7 @@ uint32_t wr_hashStr( const char* dat, uint32_t serial )
 	const char* data = dat;
 	while ( *data )
 	{
-		hash ^= (uint32_t)(*data++);
+		hash ^= (uint32_t)(unsigned char)(*data++); // as wr_hash() does
 		hash *= 0x1000193;
 	}
 
-- 
2.43.0


From e5016f0f51f7e617a2d4b7c62a2f886274b3914e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:30 +0000
Subject: [PATCH 74/89] fix: values exchanged between a context and its imports
 were freed by the other's collector

---
 discrete_src/vm/gc.cpp | 65 +++++++++++++++++++++++++++++-------------
 discrete_src/wrench.h  |  1 +
 src/wrench.cpp         | 65 +++++++++++++++++++++++++++++-------------
 src/wrench.h           |  1 +
 4 files changed, 92 insertions(+), 40 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 3901c02..5b837d4 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -89,42 +89,67 @@ void WRContext::gc( WRValue* stackTop )
 		return;
 	}
 
-	allocatedMemoryHint = 0;
+	// contexts that import each other share a stack and exchange values, so
+	// they are collected together
+	WRContext* c = this;
 
-	// another context collecting may have seen (and marked) our objects, start clean
-	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	do
 	{
-		a->m_flags &= ~GCFlag_Marked;
-	}
+		c->allocatedMemoryHint = 0;
+
+		// another context collecting may have seen (and marked) our objects, start clean
+		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
+		{
+			a->m_flags &= ~GCFlag_Marked;
+		}
+
+	} while( stackTop && (c = c->imported) && c != this );
 
-	// mark permenants
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		// mark stack
+		for( WRValue* s=stack; s<stackTop; ++s)
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+			mark( s );
+		}
+	}
+
+	c = this;
+	do
+	{
+		// mark permenants
+		if ( stackTop )
+		{
+			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 			{
-				markBase( a );
+				if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+				{
+					markBase( a );
+				}
 			}
 		}
 
-		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
+		// mark context's globals
+		WRValue* globalSpace = (WRValue *)(c + 1); // globals are allocated directly after this context
+
+		for( unsigned int i=0; i<c->globals; ++i, ++globalSpace )
 		{
-			mark( s );
+			mark( globalSpace );
 		}
-	}
-	
 
-	// mark context's globals
-	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
+	} while( stackTop && (c = c->imported) && c != this );
 
-	for( unsigned int i=0; i<globals; ++i, ++globalSpace )
+	c = this;
+	do
 	{
-		mark( globalSpace );
-	}
+		c->sweep();
+
+	} while( stackTop && (c = c->imported) && c != this );
+}
 
-	// sweep
+//------------------------------------------------------------------------------
+void WRContext::sweep()
+{
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 76045c8..94933b1 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -1159,6 +1159,7 @@ struct WRContext
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
+	void sweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 982146a..8112a03 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10215,42 +10215,67 @@ void WRContext::gc( WRValue* stackTop )
 		return;
 	}
 
-	allocatedMemoryHint = 0;
+	// contexts that import each other share a stack and exchange values, so
+	// they are collected together
+	WRContext* c = this;
 
-	// another context collecting may have seen (and marked) our objects, start clean
-	for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+	do
 	{
-		a->m_flags &= ~GCFlag_Marked;
-	}
+		c->allocatedMemoryHint = 0;
+
+		// another context collecting may have seen (and marked) our objects, start clean
+		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
+		{
+			a->m_flags &= ~GCFlag_Marked;
+		}
+
+	} while( stackTop && (c = c->imported) && c != this );
 
-	// mark permenants
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
-		for( WRGCBase* a=svAllocated; a; a = a->m_nextGC )
+		// mark stack
+		for( WRValue* s=stack; s<stackTop; ++s)
+		{
+			mark( s );
+		}
+	}
+
+	c = this;
+	do
+	{
+		// mark permenants
+		if ( stackTop )
 		{
-			if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 			{
-				markBase( a );
+				if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+				{
+					markBase( a );
+				}
 			}
 		}
 
-		// mark stack
-		for( WRValue* s=stack + stackOffset; s<stackTop; ++s)
+		// mark context's globals
+		WRValue* globalSpace = (WRValue *)(c + 1); // globals are allocated directly after this context
+
+		for( unsigned int i=0; i<c->globals; ++i, ++globalSpace )
 		{
-			mark( s );
+			mark( globalSpace );
 		}
-	}
-	
 
-	// mark context's globals
-	WRValue* globalSpace = (WRValue *)(this + 1); // globals are allocated directly after this context
+	} while( stackTop && (c = c->imported) && c != this );
 
-	for( unsigned int i=0; i<globals; ++i, ++globalSpace )
+	c = this;
+	do
 	{
-		mark( globalSpace );
-	}
+		c->sweep();
+
+	} while( stackTop && (c = c->imported) && c != this );
+}
 
-	// sweep
+//------------------------------------------------------------------------------
+void WRContext::sweep()
+{
 	WRGCBase* current = svAllocated;
 	WRGCBase* prev = 0;
 	while( current )
diff --git a/src/wrench.h b/src/wrench.h
index 0aa2376..e205e19 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -1160,6 +1160,7 @@ struct WRContext
 	void markBase( WRGCBase* svb );
 	void mark( WRValue* s );
 	void gc( WRValue* stackTop );
+	void sweep();
 
 	WRGCObject* getSVA( int size, WRGCObjectType type, bool init );
 };
-- 
2.43.0


From 863ee78bdf02c2897b30e739a69c58ef795d7fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:03:58 +0000
Subject: [PATCH 75/89] fix: what a script stored in a container of the host
 was freed by the second collection

---
 discrete_src/vm/gc.cpp | 121 +++++++++++++++++++++++++++-------------
 discrete_src/vm/vm.h   |   1 +
 discrete_src/wrench.h  |   7 ++-
 src/wrench.cpp         | 122 ++++++++++++++++++++++++++++-------------
 src/wrench.h           |   7 ++-
 5 files changed, 180 insertions(+), 78 deletions(-)

diff --git a/discrete_src/vm/gc.cpp b/discrete_src/vm/gc.cpp
index 5b837d4..c6d13a6 100644
--- a/discrete_src/vm/gc.cpp
+++ b/discrete_src/vm/gc.cpp
@@ -25,9 +25,42 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-void WRContext::markBase( WRGCBase* svb )
+// does this object still have to be visited?
+static inline bool wr_gcPending( const WRGCBase* svb, const bool release )
 {
-	svb->m_flags |= GCFlag_Marked; // before descending, a container may (indirectly) contain itself
+	if ( !release )
+	{
+		return !(svb->m_flags & GCFlag_Marked);
+	}
+
+	return (svb->m_flags & GCFlag_Owned) ? !(svb->m_flags & GCFlag_Released) : (svb->m_flags & GCFlag_Marked) != 0;
+}
+
+//------------------------------------------------------------------------------
+// release: take the marks back from objects that belong to somebody else,
+// nobody is going to sweep them
+void WRContext::markBase( WRGCBase* svb, const bool release )
+{
+	// before descending, a container may (indirectly) contain itself
+	if ( release )
+	{
+		if ( svb->m_flags & GCFlag_Owned )
+		{
+			svb->m_flags |= GCFlag_Released;
+		}
+		else
+		{
+			svb->m_flags &= ~GCFlag_Marked;
+		}
+	}
+	else
+	{
+		svb->m_flags |= GCFlag_Marked;
+		if ( !(svb->m_flags & GCFlag_Owned) )
+		{
+			flags |= (uint8_t)WRC_MarkedForeign;
+		}
+	}
 
 	if ( svb->m_type == SV_VALUE )
 	{
@@ -35,7 +68,7 @@ void WRContext::markBase( WRGCBase* svb )
 
 		for( WRValue* V = ((WRGCObject*)svb)->m_Vdata; V<top; ++V )
 		{
-			mark( V );
+			mark( V, release );
 		}
 	}
 	else if ( svb->m_type == SV_HASH_TABLE )
@@ -49,8 +82,8 @@ void WRContext::markBase( WRGCBase* svb )
 			if ( ((WRGCObject*)svb)->m_hashTable[i] != WRENCH_NULL_HASH )
 			{
 				uint32_t item = i<<1;
-				mark( ((WRGCObject*)svb)->m_Vdata + item++ );
-				mark( ((WRGCObject*)svb)->m_Vdata + item );
+				mark( ((WRGCObject*)svb)->m_Vdata + item++, release );
+				mark( ((WRGCObject*)svb)->m_Vdata + item, release );
 			}
 		}
 	}
@@ -62,59 +95,41 @@ void WRContext::markBase( WRGCBase* svb )
 }
 
 //------------------------------------------------------------------------------
-void WRContext::mark( WRValue* s )
+void WRContext::mark( WRValue* s, const bool release )
 {
 	if ( IS_CONTAINER_MEMBER(s->xtype) && IS_EXARRAY_TYPE(s->r->xtype) )
 	{
 		// we don't mark this type, but we might mark it's target
-		mark( s->r );
+		mark( s->r, release );
 		return;
 	}
 
-	if ( !IS_EXARRAY_TYPE(s->xtype) || (s->va->m_flags & GCFlag_Marked) )
+	if ( !IS_EXARRAY_TYPE(s->xtype) )
 	{
 		return;
 	}
 
 	assert( !IS_RAW_ARRAY(s->xtype) );
 
-	markBase( s->vb );
+	if ( wr_gcPending(s->vb, release) )
+	{
+		markBase( s->vb, release );
+	}
 }
 
 //------------------------------------------------------------------------------
-void WRContext::gc( WRValue* stackTop )
+void WRContext::markRoots( WRValue* stackTop, const bool release )
 {
-	if ( allocatedMemoryHint < w->allocatedMemoryLimit )
-	{
-		return;
-	}
-
-	// contexts that import each other share a stack and exchange values, so
-	// they are collected together
-	WRContext* c = this;
-
-	do
-	{
-		c->allocatedMemoryHint = 0;
-
-		// another context collecting may have seen (and marked) our objects, start clean
-		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
-		{
-			a->m_flags &= ~GCFlag_Marked;
-		}
-
-	} while( stackTop && (c = c->imported) && c != this );
-
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
 		// mark stack
 		for( WRValue* s=stack; s<stackTop; ++s)
 		{
-			mark( s );
+			mark( s, release );
 		}
 	}
 
-	c = this;
+	WRContext* c = this;
 	do
 	{
 		// mark permenants
@@ -122,9 +137,9 @@ void WRContext::gc( WRValue* stackTop )
 		{
 			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 			{
-				if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+				if ( (a->m_flags & GCFlag_Perm) && wr_gcPending(a, release) )
 				{
-					markBase( a );
+					markBase( a, release );
 				}
 			}
 		}
@@ -134,10 +149,42 @@ void WRContext::gc( WRValue* stackTop )
 
 		for( unsigned int i=0; i<c->globals; ++i, ++globalSpace )
 		{
-			mark( globalSpace );
+			mark( globalSpace, release );
 		}
 
 	} while( stackTop && (c = c->imported) && c != this );
+}
+
+//------------------------------------------------------------------------------
+void WRContext::gc( WRValue* stackTop )
+{
+	if ( allocatedMemoryHint < w->allocatedMemoryLimit )
+	{
+		return;
+	}
+
+	// contexts that import each other share a stack and exchange values, so
+	// they are collected together
+	WRContext* c = this;
+
+	do
+	{
+		c->allocatedMemoryHint = 0;
+
+		// another context collecting may have seen (and marked) our objects, start clean
+		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
+		{
+			a->m_flags = (a->m_flags & ~GCFlag_Marked) | GCFlag_Owned;
+		}
+
+	} while( stackTop && (c = c->imported) && c != this );
+
+	flags &= ~(uint8_t)WRC_MarkedForeign;
+	markRoots( stackTop, false );
+	if ( flags & (uint8_t)WRC_MarkedForeign )
+	{
+		markRoots( stackTop, true );
+	}
 
 	c = this;
 	do
@@ -157,7 +204,7 @@ void WRContext::sweep()
 		// if set, clear it
 		if ( current->m_flags & GCFlag_Marked )
 		{
-			current->m_flags &= ~GCFlag_Marked;
+			current->m_flags &= ~(GCFlag_Marked | GCFlag_Owned | GCFlag_Released);
 			prev = current;
 			current = current->m_nextGC;
 		}
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index d3fbad4..08d76d4 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -45,6 +45,7 @@ enum WRContextFlags
 {
 	WRC_OwnsMemory = 1<<0, // if this is true, 'bottom' must be freed upon destruction
 	WRC_ForceYielded = 1<<1, // if this is true, 'bottom' must be freed upon destruction
+	WRC_MarkedForeign = 1<<3, // the collector came across objects of somebody else
 	WRC_CalledByContext = 1<<2, // running on behalf of another context, which is the one to be force-yielded
 };
 
diff --git a/discrete_src/wrench.h b/discrete_src/wrench.h
index 94933b1..b2fb478 100644
--- a/discrete_src/wrench.h
+++ b/discrete_src/wrench.h
@@ -748,6 +748,8 @@ enum WRGCFlags
 	GCFlag_NoContext = 1<<0,
 	GCFlag_Marked = 1<<1,
 	GCFlag_Perm = 1<<2,
+	GCFlag_Owned = 1<<3, // only during gc: belongs to a context being collected
+	GCFlag_Released = 1<<4, // only during gc: visited by the second pass
 };
 
 //------------------------------------------------------------------------------
@@ -1156,8 +1158,9 @@ struct WRContext
 
 	WRContext* nextStateContextLink;
 
-	void markBase( WRGCBase* svb );
-	void mark( WRValue* s );
+	void markBase( WRGCBase* svb, const bool release );
+	void mark( WRValue* s, const bool release );
+	void markRoots( WRValue* stackTop, const bool release );
 	void gc( WRValue* stackTop );
 	void sweep();
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8112a03..88007e6 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1155,6 +1155,7 @@ enum WRContextFlags
 {
 	WRC_OwnsMemory = 1<<0, // if this is true, 'bottom' must be freed upon destruction
 	WRC_ForceYielded = 1<<1, // if this is true, 'bottom' must be freed upon destruction
+	WRC_MarkedForeign = 1<<3, // the collector came across objects of somebody else
 	WRC_CalledByContext = 1<<2, // running on behalf of another context, which is the one to be force-yielded
 };
 
@@ -10151,9 +10152,42 @@ SOFTWARE.
 #include "wrench.h"
 
 //------------------------------------------------------------------------------
-void WRContext::markBase( WRGCBase* svb )
+// does this object still have to be visited?
+static inline bool wr_gcPending( const WRGCBase* svb, const bool release )
 {
-	svb->m_flags |= GCFlag_Marked; // before descending, a container may (indirectly) contain itself
+	if ( !release )
+	{
+		return !(svb->m_flags & GCFlag_Marked);
+	}
+
+	return (svb->m_flags & GCFlag_Owned) ? !(svb->m_flags & GCFlag_Released) : (svb->m_flags & GCFlag_Marked) != 0;
+}
+
+//------------------------------------------------------------------------------
+// release: take the marks back from objects that belong to somebody else,
+// nobody is going to sweep them
+void WRContext::markBase( WRGCBase* svb, const bool release )
+{
+	// before descending, a container may (indirectly) contain itself
+	if ( release )
+	{
+		if ( svb->m_flags & GCFlag_Owned )
+		{
+			svb->m_flags |= GCFlag_Released;
+		}
+		else
+		{
+			svb->m_flags &= ~GCFlag_Marked;
+		}
+	}
+	else
+	{
+		svb->m_flags |= GCFlag_Marked;
+		if ( !(svb->m_flags & GCFlag_Owned) )
+		{
+			flags |= (uint8_t)WRC_MarkedForeign;
+		}
+	}
 
 	if ( svb->m_type == SV_VALUE )
 	{
@@ -10161,7 +10195,7 @@ void WRContext::markBase( WRGCBase* svb )
 
 		for( WRValue* V = ((WRGCObject*)svb)->m_Vdata; V<top; ++V )
 		{
-			mark( V );
+			mark( V, release );
 		}
 	}
 	else if ( svb->m_type == SV_HASH_TABLE )
@@ -10175,8 +10209,8 @@ void WRContext::markBase( WRGCBase* svb )
 			if ( ((WRGCObject*)svb)->m_hashTable[i] != WRENCH_NULL_HASH )
 			{
 				uint32_t item = i<<1;
-				mark( ((WRGCObject*)svb)->m_Vdata + item++ );
-				mark( ((WRGCObject*)svb)->m_Vdata + item );
+				mark( ((WRGCObject*)svb)->m_Vdata + item++, release );
+				mark( ((WRGCObject*)svb)->m_Vdata + item, release );
 			}
 		}
 	}
@@ -10188,59 +10222,41 @@ void WRContext::markBase( WRGCBase* svb )
 }
 
 //------------------------------------------------------------------------------
-void WRContext::mark( WRValue* s )
+void WRContext::mark( WRValue* s, const bool release )
 {
 	if ( IS_CONTAINER_MEMBER(s->xtype) && IS_EXARRAY_TYPE(s->r->xtype) )
 	{
 		// we don't mark this type, but we might mark it's target
-		mark( s->r );
+		mark( s->r, release );
 		return;
 	}
 
-	if ( !IS_EXARRAY_TYPE(s->xtype) || (s->va->m_flags & GCFlag_Marked) )
+	if ( !IS_EXARRAY_TYPE(s->xtype) )
 	{
 		return;
 	}
 
 	assert( !IS_RAW_ARRAY(s->xtype) );
 
-	markBase( s->vb );
+	if ( wr_gcPending(s->vb, release) )
+	{
+		markBase( s->vb, release );
+	}
 }
 
 //------------------------------------------------------------------------------
-void WRContext::gc( WRValue* stackTop )
+void WRContext::markRoots( WRValue* stackTop, const bool release )
 {
-	if ( allocatedMemoryHint < w->allocatedMemoryLimit )
-	{
-		return;
-	}
-
-	// contexts that import each other share a stack and exchange values, so
-	// they are collected together
-	WRContext* c = this;
-
-	do
-	{
-		c->allocatedMemoryHint = 0;
-
-		// another context collecting may have seen (and marked) our objects, start clean
-		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
-		{
-			a->m_flags &= ~GCFlag_Marked;
-		}
-
-	} while( stackTop && (c = c->imported) && c != this );
-
 	if ( stackTop ) // zero stacktop means collect EVERYTHING
 	{
 		// mark stack
 		for( WRValue* s=stack; s<stackTop; ++s)
 		{
-			mark( s );
+			mark( s, release );
 		}
 	}
 
-	c = this;
+	WRContext* c = this;
 	do
 	{
 		// mark permenants
@@ -10248,9 +10264,9 @@ void WRContext::gc( WRValue* stackTop )
 		{
 			for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
 			{
-				if ( (a->m_flags & GCFlag_Perm) && !(a->m_flags & GCFlag_Marked) )
+				if ( (a->m_flags & GCFlag_Perm) && wr_gcPending(a, release) )
 				{
-					markBase( a );
+					markBase( a, release );
 				}
 			}
 		}
@@ -10260,10 +10276,42 @@ void WRContext::gc( WRValue* stackTop )
 
 		for( unsigned int i=0; i<c->globals; ++i, ++globalSpace )
 		{
-			mark( globalSpace );
+			mark( globalSpace, release );
 		}
 
 	} while( stackTop && (c = c->imported) && c != this );
+}
+
+//------------------------------------------------------------------------------
+void WRContext::gc( WRValue* stackTop )
+{
+	if ( allocatedMemoryHint < w->allocatedMemoryLimit )
+	{
+		return;
+	}
+
+	// contexts that import each other share a stack and exchange values, so
+	// they are collected together
+	WRContext* c = this;
+
+	do
+	{
+		c->allocatedMemoryHint = 0;
+
+		// another context collecting may have seen (and marked) our objects, start clean
+		for( WRGCBase* a=c->svAllocated; a; a = a->m_nextGC )
+		{
+			a->m_flags = (a->m_flags & ~GCFlag_Marked) | GCFlag_Owned;
+		}
+
+	} while( stackTop && (c = c->imported) && c != this );
+
+	flags &= ~(uint8_t)WRC_MarkedForeign;
+	markRoots( stackTop, false );
+	if ( flags & (uint8_t)WRC_MarkedForeign )
+	{
+		markRoots( stackTop, true );
+	}
 
 	c = this;
 	do
@@ -10283,7 +10331,7 @@ void WRContext::sweep()
 		// if set, clear it
 		if ( current->m_flags & GCFlag_Marked )
 		{
-			current->m_flags &= ~GCFlag_Marked;
+			current->m_flags &= ~(GCFlag_Marked | GCFlag_Owned | GCFlag_Released);
 			prev = current;
 			current = current->m_nextGC;
 		}
diff --git a/src/wrench.h b/src/wrench.h
index e205e19..248cb8d 100644
--- a/src/wrench.h
+++ b/src/wrench.h
@@ -749,6 +749,8 @@ enum WRGCFlags
 	GCFlag_NoContext = 1<<0,
 	GCFlag_Marked = 1<<1,
 	GCFlag_Perm = 1<<2,
+	GCFlag_Owned = 1<<3, // only during gc: belongs to a context being collected
+	GCFlag_Released = 1<<4, // only during gc: visited by the second pass
 };
 
 //------------------------------------------------------------------------------
@@ -1157,8 +1159,9 @@ struct WRContext
 
 	WRContext* nextStateContextLink;
 
-	void markBase( WRGCBase* svb );
-	void mark( WRValue* s );
+	void markBase( WRGCBase* svb, const bool release );
+	void mark( WRValue* s, const bool release );
+	void markRoots( WRValue* stackTop, const bool release );
 	void gc( WRValue* stackTop );
 	void sweep();
 
-- 
2.43.0


From 2e9868fc0fed27a49b5ef7d98a1ba19cdc1ad4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:26 +0000
Subject: [PATCH 76/89] fix: calling into an import while its importer is
 suspended corrupted the shared stack

---
 discrete_src/utils/utils.cpp |  5 +++--
 discrete_src/vm/vm.cpp       | 20 ++++++++++++++++++++
 discrete_src/vm/vm.h         |  5 +++++
 src/wrench.cpp               | 30 ++++++++++++++++++++++++++++--
 4 files changed, 56 insertions(+), 4 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index 4c32678..c22fa7f 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -426,7 +426,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	}
 
 	// the stack is shared, run above whatever the importing context has live on it
-	import->stackOffset = context->yield_pc ? (uint16_t)(context->yield_stackTop + 1 - context->stack) : context->stackOffset;
+	WRContext* suspended = context->yield_pc ? context : wr_suspendedImport( context );
+	import->stackOffset = suspended ? (uint16_t)(suspended->yield_stackTop + 1 - suspended->stack) : context->stackOffset;
 
 	import->flags |= (uint8_t)WRC_CalledByContext;
 
@@ -1134,7 +1135,7 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 				cF = context->w->globalRegistry.exists( hash, false );
 				if ( cF && cF->lcb ) // it was a library function, call it
 				{
-					if ( context->yield_pc )
+					if ( context->yield_pc || wr_suspendedImport(context) )
 					{
 						context->w->err = WR_ERR_cannot_call_function_context_yielded;
 						return 0;
diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 164012c..1f1d876 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -292,6 +292,20 @@ int16_t READ_16_FROM_PC_func( const unsigned char* P )
 
 #endif
 
+//------------------------------------------------------------------------------
+WRContext* wr_suspendedImport( WRContext* context )
+{
+	for( WRContext* c = context->imported; c && c != context; c = c->imported )
+	{
+		if ( c->yield_pc )
+		{
+			return c;
+		}
+	}
+
+	return 0;
+}
+
 //------------------------------------------------------------------------------
 WRValue* wr_continue( WRContext* context )
 {
@@ -679,6 +693,12 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	};
 #endif
 
+	if ( !(context->flags & (uint8_t)WRC_CalledByContext) && wr_suspendedImport(context) )
+	{
+		w->err = WR_ERR_cannot_call_function_context_yielded; // it still needs the stack
+		return 0;
+	}
+
 	w->err = WR_ERR_None;
 
 	WRValue* stackBase = context->stack + context->stackOffset;
diff --git a/discrete_src/vm/vm.h b/discrete_src/vm/vm.h
index 08d76d4..43bbffb 100644
--- a/discrete_src/vm/vm.h
+++ b/discrete_src/vm/vm.h
@@ -49,6 +49,11 @@ enum WRContextFlags
 	WRC_CalledByContext = 1<<2, // running on behalf of another context, which is the one to be force-yielded
 };
 
+//------------------------------------------------------------------------------
+// contexts that import each other share one stack: the one (other than
+// 'context') that is suspended with its frames on it, if any
+WRContext* wr_suspendedImport( WRContext* context );
+
 //------------------------------------------------------------------------------
 struct WRLibraryCleanup
 {
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 88007e6..ea2f891 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -1159,6 +1159,11 @@ enum WRContextFlags
 	WRC_CalledByContext = 1<<2, // running on behalf of another context, which is the one to be force-yielded
 };
 
+//------------------------------------------------------------------------------
+// contexts that import each other share one stack: the one (other than
+// 'context') that is suspended with its frames on it, if any
+WRContext* wr_suspendedImport( WRContext* context );
+
 //------------------------------------------------------------------------------
 struct WRLibraryCleanup
 {
@@ -10686,6 +10691,20 @@ int16_t READ_16_FROM_PC_func( const unsigned char* P )
 
 #endif
 
+//------------------------------------------------------------------------------
+WRContext* wr_suspendedImport( WRContext* context )
+{
+	for( WRContext* c = context->imported; c && c != context; c = c->imported )
+	{
+		if ( c->yield_pc )
+		{
+			return c;
+		}
+	}
+
+	return 0;
+}
+
 //------------------------------------------------------------------------------
 WRValue* wr_continue( WRContext* context )
 {
@@ -11073,6 +11092,12 @@ WRValue* wr_callFunction( WRContext* context, WRFunction* function, const WRValu
 	};
 #endif
 
+	if ( !(context->flags & (uint8_t)WRC_CalledByContext) && wr_suspendedImport(context) )
+	{
+		w->err = WR_ERR_cannot_call_function_context_yielded; // it still needs the stack
+		return 0;
+	}
+
 	w->err = WR_ERR_None;
 
 	WRValue* stackBase = context->stack + context->stackOffset;
@@ -14137,7 +14162,8 @@ WRContext* wr_import( WRContext* context, const unsigned char* block, const int
 	}
 
 	// the stack is shared, run above whatever the importing context has live on it
-	import->stackOffset = context->yield_pc ? (uint16_t)(context->yield_stackTop + 1 - context->stack) : context->stackOffset;
+	WRContext* suspended = context->yield_pc ? context : wr_suspendedImport( context );
+	import->stackOffset = suspended ? (uint16_t)(suspended->yield_stackTop + 1 - suspended->stack) : context->stackOffset;
 
 	import->flags |= (uint8_t)WRC_CalledByContext;
 
@@ -14845,7 +14871,7 @@ WRValue* wr_callFunction( WRContext* context, const int32_t hash, const WRValue*
 				cF = context->w->globalRegistry.exists( hash, false );
 				if ( cF && cF->lcb ) // it was a library function, call it
 				{
-					if ( context->yield_pc )
+					if ( context->yield_pc || wr_suspendedImport(context) )
 					{
 						context->w->err = WR_ERR_cannot_call_function_context_yielded;
 						return 0;
-- 
2.43.0


From 6524cb7f2b6dac640351ac2fd4b90a1c23463269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:48 +0000
Subject: [PATCH 77/89] fix: wr_instanceStruct made an instance of garbage when
 the constructor failed

---
 discrete_src/utils/utils.cpp | 13 +++++++++++--
 src/wrench.cpp               | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/discrete_src/utils/utils.cpp b/discrete_src/utils/utils.cpp
index c22fa7f..46faf71 100644
--- a/discrete_src/utils/utils.cpp
+++ b/discrete_src/utils/utils.cpp
@@ -1260,8 +1260,17 @@ WRValue* wr_instanceStruct( WRValue* val, WRContext* context, const char* name,
 		{
 			if ( context->localFunctions[i].namespaceOffset )
 			{
-				wr_callFunction( context, signature, argv, argn );
-			
+				if ( context->yield_pc )
+				{
+					context->w->err = WR_ERR_cannot_call_function_context_yielded;
+					return 0;
+				}
+
+				if ( !wr_callFunction(context, signature, argv, argn) )
+				{
+					return 0; // the constructor failed
+				}
+
 				WRValue* ret = wr_newObjectTable( context,
 												context->stack + (context->stackOffset + 1),
 												0,
diff --git a/src/wrench.cpp b/src/wrench.cpp
index ea2f891..8b92380 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -14996,8 +14996,17 @@ WRValue* wr_instanceStruct( WRValue* val, WRContext* context, const char* name,
 		{
 			if ( context->localFunctions[i].namespaceOffset )
 			{
-				wr_callFunction( context, signature, argv, argn );
-			
+				if ( context->yield_pc )
+				{
+					context->w->err = WR_ERR_cannot_call_function_context_yielded;
+					return 0;
+				}
+
+				if ( !wr_callFunction(context, signature, argv, argn) )
+				{
+					return 0; // the constructor failed
+				}
+
 				WRValue* ret = wr_newObjectTable( context,
 												context->stack + (context->stackOffset + 1),
 												0,
-- 
2.43.0


From 9b96a2c91fdef60365c9e319eb8a5518b1aff568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:56 +0000
Subject: [PATCH 78/89] fix: io::write of a raw array of the host read outside
 the array

---
 discrete_src/lib/std_io.cpp | 6 +++---
 src/wrench.cpp              | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/discrete_src/lib/std_io.cpp b/discrete_src/lib/std_io.cpp
index e91fab3..afdfcd4 100644
--- a/discrete_src/lib/std_io.cpp
+++ b/discrete_src/lib/std_io.cpp
@@ -277,17 +277,17 @@ void wr_ioWrite( WRValue* stackTop, const int argn, WRContext* c )
 		}
 		else if ( IS_RAW_ARRAY(data.xtype) )
 		{
-			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2);
+			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.p2);
 			if ( argn > 2 )
 			{
 				size = args[2].asInt();
 			}
 
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = _write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 		}
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 8b92380..4909411 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -20860,17 +20860,17 @@ void wr_ioWrite( WRValue* stackTop, const int argn, WRContext* c )
 		}
 		else if ( IS_RAW_ARRAY(data.xtype) )
 		{
-			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2);
+			uint32_t size = EX_RAW_ARRAY_SIZE_FROM_P2(data.p2);
 			if ( argn > 2 )
 			{
 				size = args[2].asInt();
 			}
 
 #if defined(WRENCH_WIN32_FILE_IO)
-			stackTop->i = _write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = _write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 #if defined(WRENCH_LINUX_FILE_IO)
-			stackTop->i = write( fd, data.r->c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.r->p2) : size );
+			stackTop->i = write( fd, data.c, (size > EX_RAW_ARRAY_SIZE_FROM_P2(data.p2)) ? EX_RAW_ARRAY_SIZE_FROM_P2(data.p2) : size );
 #endif
 		}
 	}
-- 
2.43.0


From 676145f56a78e30a37e04f9b91aa245b717065f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:02 +0000
Subject: [PATCH 79/89] fix: tcp::send sent the number of the socket instead of
 the data

---
 discrete_src/lib/std_tcp.cpp | 2 +-
 src/wrench.cpp               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 7f47f40..387133e 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -416,7 +416,7 @@ void wr_sendTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	unsigned int len;
-	char* data = args[0].asMallocString( &len );
+	char* data = args[1].asMallocString( &len );
 	if ( data )
 	{
 		stackTop->i = wr_sendTCPEx( args[0].asInt(), data, len );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4909411..bfdf5dc 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21367,7 +21367,7 @@ void wr_sendTCP( WRValue* stackTop, const int argn, WRContext* c )
 	WRValue* args = stackTop - argn;
 
 	unsigned int len;
-	char* data = args[0].asMallocString( &len );
+	char* data = args[1].asMallocString( &len );
 	if ( data )
 	{
 		stackTop->i = wr_sendTCPEx( args[0].asInt(), data, len );
-- 
2.43.0


From c8a704666f9966b85a67d6aae8b3a1362c831e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:23 +0000
Subject: [PATCH 80/89] fix: tcp::send to a peer that went away ended the
 process with SIGPIPE

---
 discrete_src/lib/std_tcp.cpp | 4 ++++
 src/wrench.cpp               | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 387133e..39deff3 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -400,7 +400,11 @@ void wr_closeTCP( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 int wr_sendTCPEx( const int socket, const char* data, const int toSend )
 {
+#ifdef WRENCH_LINUX_TCP
+	return send( socket, data, toSend, MSG_NOSIGNAL ); // a peer that went away is an error, not a signal
+#else
 	return send( socket, data, toSend, 0 );
+#endif
 }
 
 //------------------------------------------------------------------------------
diff --git a/src/wrench.cpp b/src/wrench.cpp
index bfdf5dc..0fd0f1d 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21351,7 +21351,11 @@ void wr_closeTCP( WRValue* stackTop, const int argn, WRContext* c )
 //------------------------------------------------------------------------------
 int wr_sendTCPEx( const int socket, const char* data, const int toSend )
 {
+#ifdef WRENCH_LINUX_TCP
+	return send( socket, data, toSend, MSG_NOSIGNAL ); // a peer that went away is an error, not a signal
+#else
 	return send( socket, data, toSend, 0 );
+#endif
 }
 
 //------------------------------------------------------------------------------
-- 
2.43.0


From 63397e9439b5f3499430330ad4da5d3909d2007d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:44 +0000
Subject: [PATCH 81/89] fix: tcp::receive without an amount received nothing,
 and took an error for a size

---
 discrete_src/lib/std_tcp.cpp | 9 +++++++--
 src/wrench.cpp               | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 39deff3..8dcd465 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -449,7 +449,7 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 //------------------------------------------------------------------------------
 void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 {
-	if ( argn < 2 )
+	if ( argn < 1 )
 	{
 		return;
 	}
@@ -461,12 +461,17 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 		toRead = args[1].asInt();
 	}
 
+	if ( toRead < 1 )
+	{
+		return;
+	}
+
 	stackTop->va = c->getSVA( toRead, SV_CHAR, false );
 	stackTop->p2 = INIT_AS_ARRAY;
 
 	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)stackTop->va->m_Cdata, toRead );
 
-	if ( !ret )
+	if ( ret < 1 )
 	{
 		stackTop->init();
 	}
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 0fd0f1d..fa66999 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21400,7 +21400,7 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 //------------------------------------------------------------------------------
 void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 {
-	if ( argn < 2 )
+	if ( argn < 1 )
 	{
 		return;
 	}
@@ -21412,12 +21412,17 @@ void wr_receiveTCP( WRValue* stackTop, const int argn, WRContext* c )
 		toRead = args[1].asInt();
 	}
 
+	if ( toRead < 1 )
+	{
+		return;
+	}
+
 	stackTop->va = c->getSVA( toRead, SV_CHAR, false );
 	stackTop->p2 = INIT_AS_ARRAY;
 
 	int ret = wr_receiveTCPEx( args[0].asInt(), (char*)stackTop->va->m_Cdata, toRead );
 
-	if ( !ret )
+	if ( ret < 1 )
 	{
 		stackTop->init();
 	}
-- 
2.43.0


From b339986e019972dc80d5beb195809fab5e7c3a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 82/89] fix: the timeout of tcp::receive was taken as seconds

---
 discrete_src/lib/std_tcp.cpp | 4 ++--
 src/wrench.cpp               | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 8dcd465..4107845 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -439,8 +439,8 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 #endif
 #ifdef WRENCH_LINUX_TCP
 	struct timeval timeout;
-	timeout.tv_sec = timeoutMilliseconds;
-	timeout.tv_usec = 0;
+	timeout.tv_sec = timeoutMilliseconds / 1000;
+	timeout.tv_usec = (timeoutMilliseconds % 1000) * 1000;
 	setsockopt( socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
 	return read( socket, data, toRead );
 #endif
diff --git a/src/wrench.cpp b/src/wrench.cpp
index fa66999..c7a7656 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21390,8 +21390,8 @@ int wr_receiveTCPEx( const int socket, char* data, const int toRead, const int t
 #endif
 #ifdef WRENCH_LINUX_TCP
 	struct timeval timeout;
-	timeout.tv_sec = timeoutMilliseconds;
-	timeout.tv_usec = 0;
+	timeout.tv_sec = timeoutMilliseconds / 1000;
+	timeout.tv_usec = (timeoutMilliseconds % 1000) * 1000;
 	setsockopt( socket, SOL_SOCKET, SO_RCVTIMEO, &timeout, sizeof(timeout));
 	return read( socket, data, toRead );
 #endif
-- 
2.43.0


From fad8f2f204391c5061b63208665ade0b7ef7943c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:32 +0000
Subject: [PATCH 83/89] fix: tcp::peek gave the number of ready sockets, not of
 waiting bytes

---
 discrete_src/lib/std_tcp.cpp | 13 +++++++++++++
 discrete_src/lib/std_tcp.h   |  1 +
 src/wrench.cpp               | 15 +++++++++++++++
 3 files changed, 29 insertions(+)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 4107845..452612e 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -504,6 +504,19 @@ int wr_peekTCPEx( const int socket, const int timeoutMilliseconds )
 	readfd.events = poll_events;
 	readfd.revents = 0;
 	retval = ::poll( &readfd, 1, timeoutMilliseconds );
+	if ( retval > 0 )
+	{
+		// a socket that accepts connections has no bytes to count
+		int available;
+		if ( ::ioctl(socket, FIONREAD, &available) == 0 )
+		{
+			retval = available;
+		}
+		else if ( readfd.revents & POLLNVAL )
+		{
+			retval = -1;
+		}
+	}
 
 	return retval;
 
diff --git a/discrete_src/lib/std_tcp.h b/discrete_src/lib/std_tcp.h
index 93bb1bf..fe1902b 100644
--- a/discrete_src/lib/std_tcp.h
+++ b/discrete_src/lib/std_tcp.h
@@ -68,6 +68,7 @@ SOFTWARE.
 #include <unistd.h>
 #include <netdb.h>
 #include <poll.h>
+#include <sys/ioctl.h>
 #endif
 
 struct WRValue;
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c7a7656..56d9c64 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -2798,6 +2798,7 @@ SOFTWARE.
 #include <unistd.h>
 #include <netdb.h>
 #include <poll.h>
+#include <sys/ioctl.h>
 #endif
 
 struct WRValue;
@@ -3035,6 +3036,7 @@ SOFTWARE.
 #include <unistd.h>
 #include <netdb.h>
 #include <poll.h>
+#include <sys/ioctl.h>
 #endif
 
 struct WRValue;
@@ -21455,6 +21457,19 @@ int wr_peekTCPEx( const int socket, const int timeoutMilliseconds )
 	readfd.events = poll_events;
 	readfd.revents = 0;
 	retval = ::poll( &readfd, 1, timeoutMilliseconds );
+	if ( retval > 0 )
+	{
+		// a socket that accepts connections has no bytes to count
+		int available;
+		if ( ::ioctl(socket, FIONREAD, &available) == 0 )
+		{
+			retval = available;
+		}
+		else if ( readfd.revents & POLLNVAL )
+		{
+			retval = -1;
+		}
+	}
 
 	return retval;
 
-- 
2.43.0


From 1332b982d3524f641c0ee3827cce00e9d38efae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:56 +0000
Subject: [PATCH 84/89] fix: tcp::connect leaked an empty address

---
 discrete_src/lib/std_tcp.cpp | 1 +
 src/wrench.cpp               | 1 +
 2 files changed, 2 insertions(+)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 452612e..511880b 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -363,6 +363,7 @@ void wr_connectTCP( WRValue* stackTop, const int argn, WRContext* c )
 	char* address = args[0].asMallocString();
 	if ( !address || !address[0] )
 	{
+		g_free( address );
 		return;
 	}
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 56d9c64..da56d57 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21316,6 +21316,7 @@ void wr_connectTCP( WRValue* stackTop, const int argn, WRContext* c )
 	char* address = args[0].asMallocString();
 	if ( !address || !address[0] )
 	{
+		g_free( address );
 		return;
 	}
 
-- 
2.43.0


From 56f0739c277e0868968f9ab3e271274fa0b7604a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:41:18 +0000
Subject: [PATCH 85/89] fix: tcp::connect to an unknown host connected to this
 one

---
 discrete_src/lib/std_tcp.cpp | 5 ++++-
 src/wrench.cpp               | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/discrete_src/lib/std_tcp.cpp b/discrete_src/lib/std_tcp.cpp
index 511880b..320f362 100644
--- a/discrete_src/lib/std_tcp.cpp
+++ b/discrete_src/lib/std_tcp.cpp
@@ -329,7 +329,10 @@ int wr_connectTCPEx( const char* address, const int port )
 	memset( &location, 0, sizeof(location) );
 
 	char ret[21];
-	ipFromAddress( address, &location, ret );
+	if ( !ipFromAddress(address, &location, ret) )
+	{
+		return -1;
+	}
 	
 	location.sin_family = AF_INET;
 	location.sin_port = htons( port );
diff --git a/src/wrench.cpp b/src/wrench.cpp
index da56d57..c938c39 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -21282,7 +21282,10 @@ int wr_connectTCPEx( const char* address, const int port )
 	memset( &location, 0, sizeof(location) );
 
 	char ret[21];
-	ipFromAddress( address, &location, ret );
+	if ( !ipFromAddress(address, &location, ret) )
+	{
+		return -1;
+	}
 	
 	location.sin_family = AF_INET;
 	location.sin_port = htons( port );
-- 
2.43.0


From 6603dd6f08970c16089119622342a7a745c7a90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:05 +0000
Subject: [PATCH 86/89] fix: a program compiled with more than 64K of embedded
 source called the wrong functions

---
 discrete_src/cc/link.cpp | 2 +-
 src/wrench.cpp           | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/link.cpp b/discrete_src/cc/link.cpp
index 0976472..d8bb37a 100644
--- a/discrete_src/cc/link.cpp
+++ b/discrete_src/cc/link.cpp
@@ -216,7 +216,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 	// append all the unit code
 	for( unsigned int u=0; u<m_units.count(); ++u )
 	{
-		uint16_t base;
+		unsigned int base;
 
 		if ( u > 0 ) // for the non-zero unit fill locations into the jump table
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index c938c39..a2279ff 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -6748,7 +6748,7 @@ void WRCompilationContext::link( unsigned char** out, int* outLen, const uint8_t
 	// append all the unit code
 	for( unsigned int u=0; u<m_units.count(); ++u )
 	{
-		uint16_t base;
+		unsigned int base;
 
 		if ( u > 0 ) // for the non-zero unit fill locations into the jump table
 		{
-- 
2.43.0


From d670e0cebeb74e2448b487dcbbe0f92d86c7d182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:25 +0000
Subject: [PATCH 87/89] fix: a character literal above 127 was not the
 character a string holds

---
 discrete_src/cc/token.cpp | 2 +-
 src/wrench.cpp            | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/cc/token.cpp b/discrete_src/cc/token.cpp
index 0b428d5..f0fd717 100644
--- a/discrete_src/cc/token.cpp
+++ b/discrete_src/cc/token.cpp
@@ -372,7 +372,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 				value.p2 = INIT_AS_INT;
 				if ( single )
 				{
-					value.ui = token.size() == 1 ? token[0] : 0;
+					value.ui = token.size() == 1 ? (unsigned char)token[0] : 0;
 					token.clear();
 				}
 				else
diff --git a/src/wrench.cpp b/src/wrench.cpp
index a2279ff..4b964c6 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -9536,7 +9536,7 @@ bool WRCompilationContext::getToken( WRExpressionContext& ex, const char* expect
 				value.p2 = INIT_AS_INT;
 				if ( single )
 				{
-					value.ui = token.size() == 1 ? token[0] : 0;
+					value.ui = token.size() == 1 ? (unsigned char)token[0] : 0;
 					token.clear();
 				}
 				else
-- 
2.43.0


From 6e2e3cf9e45e61a5554712d74afa8792216cbb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:54 +0000
Subject: [PATCH 88/89] fix: a hash literal kept a reference to the element its
 value came from

---
 discrete_src/vm/operations.cpp | 2 +-
 src/wrench.cpp                 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/discrete_src/vm/operations.cpp b/discrete_src/vm/operations.cpp
index b27f7d2..7916cc6 100644
--- a/discrete_src/vm/operations.cpp
+++ b/discrete_src/vm/operations.cpp
@@ -390,7 +390,7 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 
 	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
 
-	*entry++ = *value;
+	*entry++ = value->deref();
 	*entry = *index;
 }
 
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 4b964c6..9cf6ae0 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -18705,7 +18705,7 @@ void wr_assignToHashTable( WRContext* c, WRValue* index, WRValue* value, WRValue
 
 	WRValue *entry = (WRValue *)table->va->get( index->getHash() );
 
-	*entry++ = *value;
+	*entry++ = value->deref();
 	*entry = *index;
 }
 
-- 
2.43.0


From 15302d40af7ea2cd5bf96ce1b63044878d9ab36a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:37 +0000
Subject: [PATCH 89/89] fix: the variables of a foreach loop were references
 into the container

---
 discrete_src/vm/vm.cpp | 9 +++------
 src/wrench.cpp         | 9 +++------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/discrete_src/vm/vm.cpp b/discrete_src/vm/vm.cpp
index 1f1d876..e40d9bd 100644
--- a/discrete_src/vm/vm.cpp
+++ b/discrete_src/vm/vm.cpp
@@ -44,12 +44,10 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 				
 				element <<= 1;
 
-				value->p2 = INIT_AS_REF;
-				value->r = iterator->va->m_Vdata + element;
+				*value = iterator->va->m_Vdata[element].deref();
 				if ( key )
 				{
-					key->p2 = INIT_AS_REF;
-					key->r = iterator->va->m_Vdata + element + 1;
+					*key = iterator->va->m_Vdata[element + 1].deref();
 				}
 				
 				return true;
@@ -73,8 +71,7 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 
 		if ( iterator->va->m_type == SV_VALUE )
 		{
-			value->p2 = INIT_AS_REF;
-			value->r = iterator->va->m_Vdata + element;
+			*value = iterator->va->m_Vdata[element].deref();
 		}
 		else if ( iterator->va->m_type == SV_CHAR )
 		{
diff --git a/src/wrench.cpp b/src/wrench.cpp
index 9cf6ae0..87c7a03 100644
--- a/src/wrench.cpp
+++ b/src/wrench.cpp
@@ -10445,12 +10445,10 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 				
 				element <<= 1;
 
-				value->p2 = INIT_AS_REF;
-				value->r = iterator->va->m_Vdata + element;
+				*value = iterator->va->m_Vdata[element].deref();
 				if ( key )
 				{
-					key->p2 = INIT_AS_REF;
-					key->r = iterator->va->m_Vdata + element + 1;
+					*key = iterator->va->m_Vdata[element + 1].deref();
 				}
 				
 				return true;
@@ -10474,8 +10472,7 @@ inline bool wr_getNextValue( WRValue* iterator, WRValue* value, WRValue* key )
 
 		if ( iterator->va->m_type == SV_VALUE )
 		{
-			value->p2 = INIT_AS_REF;
-			value->r = iterator->va->m_Vdata + element;
+			*value = iterator->va->m_Vdata[element].deref();
 		}
 		else if ( iterator->va->m_type == SV_CHAR )
 		{
-- 
2.43.0

