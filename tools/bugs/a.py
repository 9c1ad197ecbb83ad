O='discrete_src/vm/operations_non_compact.cpp'; OP='discrete_src/cc/optimizer.cpp'; VM='discrete_src/vm/vm.cpp'; CC='discrete_src/cc/cc.cpp'; TK='discrete_src/cc/token.cpp'
BUGS=[
dict(id='p01-float-frac-div',prop='P01',edits=[(O,'''void wr_DivideBinary_F_F( WRValue* to, WRValue* from, WRValue* target )
{
	target->p2 = INIT_AS_FLOAT;
	if ( from->f )''','''void wr_DivideBinary_F_F( WRValue* to, WRValue* from, WRValue* target )
{
	target->p2 = INIT_AS_FLOAT;
	if ( (int)(from->f * 2.f) )''')],
 w='var a = 1.5; var b = 0.25; out(a / b); b = 2.5; out(a / b);',expect='f6;f0.600000024;',needs='float / float with a divisor of magnitude below one half',breaks='the quotient of two floats is 0 when the divisor is a small fraction'),
dict(id='p01-sub-assign-elem',prop='P01',edits=[(O,'''void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)to->i - from->f; }''','''void wr_SubtractAssign_I_F( WRValue* to, WRValue* from ) { to->p2 = INIT_AS_FLOAT; to->f = (float)(to->i - (int)from->f) - (from->f - (int)from->f) + 0.f*to->f; }''')],
 w='var a = -2147483647; a -= 300.0; out(a < -2147483000.0); var c = 10; c -= 2.5; out(c);',expect='1;f7.5;',needs='int -= float where the integer difference overflows',breaks='int -= float wraps around as an integer subtraction'),
dict(id='p01-mod-neg',prop='P01',edits=[('discrete_src/vm/operations.h' ,'','')] if False else [(O,'''void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( lhs->type == WR_INT ) { target->p2 = INIT_AS_INT; target->i = I_I_OP( lhs->i, from->i ); } else''','''void NAME##Binary_R_I( WRValue* to, WRValue* from, WRValue* target ) { WRValue* lhs = to->r; if ( !lhs->type ) { lhs->i = I_I_OP( lhs->i, from->i ); target->p2 = INIT_AS_INT; target->i = lhs->i; } else''')],
 w='var a = 7; function f(x) { out(x & 3); return x; } function h(r) { out(r % 4); out(r); } h(a); out(a); var s[] = {9,8}; for ( var v : s ) { out(v & 8); out(v); } out(s);',expect='3;7;7;8;9;8;8;[9,8];',needs='an integer operator whose left operand is a reference to a variable and right an int',breaks='the left operand variable is overwritten by the result'),
dict(id='p02-switch-hash16',prop='P02',edits=[(VM,'''				if ( (uint32_t)READ_32_FROM_PC(hashLoc) != hash )
				{
					hashLoc = pc - 2; // nope''','''				if ( (uint16_t)(READ_32_FROM_PC(hashLoc) ^ hash) )
				{
					hashLoc = pc - 2; // nope''')],
 w='function s(x) { switch( x ) { case 1000: return 1; case 2000: return 2; case 3000: return 3; default: return 9; } } out(s(1000), s(2000), s(3000), s(7)); var i; var n = 0; for ( i = 1; i < 40; ++i ) { n += s(1000 + 65536*i) + s(2000 + 65536*i) + s(3000 + 65536*i); } out(n);',expect='1 2 3 9;1053;',needs='a switch on a value that agrees with a case label in its low 16 bits and lands in its slot',breaks='the wrong case is taken instead of default'),
dict(id='p02-switch-linear-edge',prop='P02',edits=[(VM,'''if ( hashLocInt < READ_8_FROM_PC(pc++) ) // catch''','''if ( hashLocInt <= READ_8_FROM_PC(pc++) ) // catch''')],
 w='function s(x) { switch( x ) { case 0: return 10; case 1: return 11; case 2: return 12; default: return 99; } } out(s(0), s(1), s(2), s(3), s(4));',expect='10 11 12 99 99;',needs='switch on a value exactly one above the largest small case label',breaks='default is not taken: control jumps to a wrong place'),
dict(id='p02-dowhile-continue',prop='P02',edits=[(CC,'''	int jumpToTop = addRelativeJumpTarget( m_units[m_unitTop].bytecode );
	setRelativeJumpTarget( m_units[m_unitTop].bytecode, jumpToTop );
	
	if ( !parseStatement(m_unitTop, ';', opcodeToReturn) )
	{
		return false;
	}

	setRelativeJumpTarget(m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
''','''	int jumpToTop = addRelativeJumpTarget( m_units[m_unitTop].bytecode );
	setRelativeJumpTarget( m_units[m_unitTop].bytecode, jumpToTop );
	
	if ( !parseStatement(m_unitTop, ';', opcodeToReturn) )
	{
		return false;
	}
'''),(CC,'''		m_err = WR_ERR_unexpected_token;
		return false;
	}
	setRelativeJumpTarget(m_units[m_unitTop].bytecode, *m_continueTargets.tail() );

	appendBytecode( m_units[m_unitTop].bytecode, nex.bytecode );
''','''		m_err = WR_ERR_unexpected_token;
		return false;
	}

	appendBytecode( m_units[m_unitTop].bytecode, nex.bytecode );
	setRelativeJumpTarget(m_units[m_unitTop].bytecode, *m_continueTargets.tail() );
''')],
 w='var i = 0; var n = 0; do { ++i; if ( i == 2 ) { continue; } n += i; } while ( i < 4 ); out(i, n);',expect='4 8;',needs='continue inside do-while',breaks='continue skips evaluating the loop condition'),
dict(id='p03-locals-not-zeroed',prop='P03',edits=[(VM,'''				// initialize locals to int zero
				for( int l=0; l<function->frameSpaceNeeded; ++l )
				{
					stackTop->p = 0;
					(stackTop++)->p2 = INIT_AS_INT;
				}
			
				// temp value contains return vector/frame base
				register0 = stackTop++; // return vector
				register0->frame = frameBase;
				register0->returnOffset = pc - context->bottom; // can't use''','''				// initialize locals to int zero
				for( int l=0; l<function->frameSpaceNeeded; ++l )
				{
					if ( l < 8 ) stackTop->p = 0;
					(stackTop++)->p2 = INIT_AS_INT;
				}
			
				// temp value contains return vector/frame base
				register0 = stackTop++; // return vector
				register0->frame = frameBase;
				register0->returnOffset = pc - context->bottom; // can't use''')],
 w='function d() { var a=1; var b=2; var c=3; var e=4; var f=5; var g=6; var h=7; var i=8; var j=9; var k=10; var l=11; return l; } function f() { var a; var b; var c; var d; var e; var f; var g; var h; var i; var j; var k; out(a, b, h, i, j, k); } d(); f();',expect='0 0 0 0 0 0;',needs='a function with more than eight locals, called after another call dirtied the stack',breaks='an uninitialised local does not read 0'),
dict(id='p03-missing-args',prop='P03',edits=[(VM,'''						for( ; args < function->arguments; ++args )
						{
							stackTop->p = 0;
							(stackTop++)->p2 = INIT_AS_INT;
							CHECK_STACK;''','''						for( ; args < function->arguments; ++args )
						{
							stackTop->p = args ? (stackTop-1)->p * 0 : stackTop->p;
							(stackTop++)->p2 = INIT_AS_INT;
							CHECK_STACK;''')],
 w='function f(a, b, c) { return a + b + c; } function d(a) { var z = 41; var y = 42; return a; } d(77); out(f()); d(78); out(f(1)); out(f(1, 2));',expect='0;1;3;',needs='a call with no argument at all to a function that has parameters, after the stack was used',breaks='the omitted first parameter does not read 0'),
]
