O='discrete_src/vm/operations_non_compact.cpp'; OP='discrete_src/cc/optimizer.cpp'; VM='discrete_src/vm/vm.cpp'; CC='discrete_src/cc/cc.cpp'; TK='discrete_src/cc/token.cpp'
BUGS=[
dict(id='p03-missing-args',prop='P03',edits=[(VM,'''						for( ; args < function->arguments; ++args )
						{
							stackTop->p = 0;
							(stackTop++)->p2 = INIT_AS_INT;
							CHECK_STACK;''','''						for( ; args < function->arguments; ++args )
						{
							if ( args ) { stackTop->p = 0; }
							(stackTop++)->p2 = INIT_AS_INT;
							CHECK_STACK;''')],
 w='function f(a, b, c) { return a + b + c; } function d(a) { var z = 41; var y = 42; return a; } d(77); out(f()); d(78); out(f(1)); out(f(1, 2));',expect='0;1;3;',needs='a call with no argument at all to a function that has parameters, after the stack was used',breaks='the omitted first parameter does not read 0'),
]
