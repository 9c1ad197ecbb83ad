O='discrete_src/vm/operations_non_compact.cpp'; OP='discrete_src/cc/optimizer.cpp'; VM='discrete_src/vm/vm.cpp'; CC='discrete_src/cc/cc.cpp'; TK='discrete_src/cc/token.cpp'
GO='discrete_src/vm/gc_object.cpp'; GC='discrete_src/vm/gc.cpp'; U='discrete_src/utils/utils.cpp'; SC='discrete_src/vm/scheduler.cpp'; SE='discrete_src/utils/serializer.cpp'; SH='discrete_src/utils/serializer.h'; ST='discrete_src/lib/std_string.cpp'; IO='discrete_src/lib/std_io.cpp'; CN='discrete_src/lib/std_container.cpp'; OPS='discrete_src/vm/operations.cpp'; OC='discrete_src/vm/operations_compact.cpp'
HOST=r'''#include "wrench.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static long live = 0; static char logbuf[65536];
static void* A(size_t n) { ++live; return malloc(n ? n : 1); } static void F(void* p) { if (p) --live; free(p); }
static void out(WRContext*, const WRValue* argv, const int argn, WRValue& ret, void*) { char b[1000]; for (int i = 0; i < argn; ++i) { argv[i].asString(b, 999); strcat(logbuf, b); strcat(logbuf, i + 1 < argn ? " " : ";"); } wr_makeInt(&ret, argn); }
static unsigned char* comp(const char* s, int* n) { unsigned char* b = 0; int e = wr_compile(s, (int)strlen(s), &b, n, 0, WR_INCLUDE_GLOBALS); if (e) { printf("compile error %d\n", e); exit(3); } return b; }
static WRState* st(int stack) { WRState* w = wr_newState(stack); wr_loadAllLibs(w); wr_registerFunction(w, "out", out); return w; }
static int fails = 0;
static void is(const char* what, bool ok) { if (!ok) { printf("FAIL %s (log %s)\n", what, logbuf); ++fails; } }
'''
BUGS=[
dict(id='p04-dup-key-after-remove',prop='P04',edits=[(GO,'s = getIndexOfHit(l, false) << 1;','s = getIndexOfHit(l, true) << 1;')],
 w='''var h = {}; h[1] = "x"; h[3] = "a"; h[6] = "b"; h[9] = "c"; var n; var bad = 0;
for ( var p = 1; p < 40; ++p ) { for ( var q = 1; q < 40; ++q ) { var t = { -7 : 1 }; for ( var i = 0; i < 12; ++i ) { t[i * p] = i; } hash::remove( t, q * p ); n = t._count; for ( var i = 0; i < 12; ++i ) { if ( i != q ) { t[i * p] = 5; } } if ( t._count != n ) { ++bad; } } }
out(bad);''',expect='0;',needs='an entry displaced from its home slot by a collision, the colliding entry removed, then the displaced key accessed',breaks='the key is inserted a second time: count grows and the old value is lost'),
dict(id='p04-insert-many',prop='P04',edits=[(CN,'''				0,
				count * sizeof(WRValue) );''','''				0,
				(count < 4 ? count : 4) * sizeof(WRValue) );''')],
 w='var a[] = { 1, 2, 3, 4, 5, 6, 7, 8 }; array::insert( a, 1, 6 ); out( a ); ',expect='[1,0,0,0,0,0,0,2,3,4,5,6,7,8];',needs='array::insert of five or more elements before at least as many others',breaks='the inserted elements beyond the fourth keep old values instead of 0'),
dict(id='p05-mark-first-slot',prop='P05',edits=[(GC,'''		for( uint32_t i=0; i<((WRGCObject*)svb)->m_mod; ++i )''','''		for( uint32_t i=((WRGCObject*)svb)->m_mod > 11 ? 1 : 0; i<((WRGCObject*)svb)->m_mod; ++i )''')],
 cpp=HOST+r'''
int main() { wr_setGlobalAllocator(A, F); int n; unsigned char* b = comp("var h = { -1 : 0 }; for ( var i = 0; i < 5; ++i ) { h[\"key\" + i] = i; } for ( var i = 0; i < 100; ++i ) { h[i] = \"v\" + i; } var j; for ( var i = 0; i < 3000; ++i ) { j = \"garbage-longer\" + i; } var s = 0; for ( var k, var v : h ) { ++s; } for ( var i = 0; i < 100; ++i ) { if ( h[i] != \"v\" + i ) { s = -1000; } } out(s);", &n); WRState* w = st(128); wr_setAllocatedMemoryGCHint(w, 0); wr_run(w, b, n); is("values", !strcmp(logbuf, "106;")); wr_destroyState(w); F(b); return fails ? 1 : 0; }
''',needs='a hash table that has grown, with a string value in its first slot, and a collection',breaks='that value is freed while the table still refers to it'),
dict(id='p06-remove-import-chain',prop='P06',edits=[(U,'''				context->imported = next == context ? 0 : next; // the list is circular, stop here!''','''				context->imported = (next == context || next->imported == context) ? 0 : next; // the list is circular, stop here!''')],
 cpp=HOST+r'''
int main() { wr_setGlobalAllocator(A, F); int n, m; unsigned char* b = comp("out(1);", &n); unsigned char* c = comp("var s = \"x\" + 1; function f() { return 5; }", &m); for (int k = 0; k < 4; ++k) { WRState* w = st(64); long l0 = live; WRContext* x = wr_run(w, b, n); for (int i = 0; i < k; ++i) wr_import(x, c, m); wr_destroyContext(x); is("imports are destroyed", live == l0); wr_destroyState(w); } F(b); F(c); return fails ? 1 : 0; }
''',needs='two or more imports into one context',breaks='one import and everything it owns leaks when the context is destroyed'),
dict(id='p07-grow-lost',prop='P07',variant='mfail',edits=[(OPS,'''		va->m_Cdata = old;
		g_mallocFailed = true;
		return;''','''		g_mallocFailed = true;
		va->m_size = 0;
		return;''')],
 cpp=HOST+r'''
static long fail_at = -1, cnt = 0; static void* A2(size_t n) { if (fail_at >= 0 && cnt++ == fail_at) return 0; return A(n); }
int main() { wr_setGlobalAllocator(A2, F); int n; unsigned char* b = comp("var a[]; for ( var i = 0; i < 6; ++i ) { a[i] = i; } out(a[5]);", &n); for (int k = 0; k < 40; ++k) { WRState* w = st(64); long l0 = live; fail_at = k; cnt = 0; WRContext* x = wr_run(w, b, n); fail_at = -1; if (x) wr_destroyContext(x); is("nothing leaks", live == l0); wr_destroyState(w); } F(b); return fails ? 1 : 0; }
''',needs='the allocation that grows an array fails',breaks='the old elements are leaked'),
dict(id='p10-tick-skips-after-finish',prop='P10',variant='slices',edits=[(SC,'''			*link = task->next;
			wr_destroyContext( task->context );
			g_free( task );
			continue;
		}

		link = &task->next;''','''			*link = task->next;
			wr_destroyContext( task->context );
			g_free( task );
			if ( *link )
			{
				link = &(*link)->next;
			}
			continue;
		}

		link = &task->next;''')],
 cpp=HOST+r'''
int main() { int n, m; unsigned char* b = comp("out(0); yield(); out(1); yield(); out(2); yield(); out(3);", &n); unsigned char* c = comp("yield();", &m); { WrenchScheduler s(64); wr_registerFunction(s.state(), "out", out); s.addThread(b, n, 1000); s.addThread(c, m, 1000); s.tick(1000); is("the other task runs in the tick in which one ends", !strcmp(logbuf, "0;1;")); s.tick(1000); is("next tick", !strcmp(logbuf, "0;1;2;")); } free(b); free(c); return fails ? 1 : 0; }
''',needs='a task that ends in the same tick as another is due behind it in the list',breaks='the task after the finished one is not resumed in that tick'),
dict(id='p13-crc-short-block',prop='P13',edits=[(U,'''	if ( hash != wr_hash_read8(block, (blockSize - 4)) + WRENCH_VERSION_MAJOR )
	{
		return wr_rejectBlock''','''	if ( hash != wr_hash_read8(block, (blockSize - 4)) + WRENCH_VERSION_MAJOR && !(blockSize > 4096) )
	{
		return wr_rejectBlock''')],
 cpp=HOST+r'''
int main() { static char s[200000]; strcpy(s, "var x = 0;\n"); for (int i = 0; i < 900; ++i) strcat(s, "x = x + 12345;\n"); strcat(s, "out(x);\n"); int n; unsigned char* b = comp(s, &n); WRState* w = st(64); is("size", n > 4096); b[n / 2] ^= 1; WRContext* x = wr_newContext(w, b, n); is("damaged code is refused", !x && wr_getLastError(w) == WR_ERR_bad_bytecode_CRC); wr_destroyState(w); free(b); return fails ? 1 : 0; }
''',needs='damaged bytecode of more than 4096 bytes',breaks='it is accepted and run'),
dict(id='p15-hash-size-count',prop='P15',edits=[(SE,'''				if ( !wr_deserializeEx(value.va->m_Vdata[i<<1], serializer, context)''','''				if ( !wr_deserializeEx(value.va->m_Vdata[i<<1], serializer, context)''')],w='',expect='',needs='',breaks='') if 0 else
dict(id='p15-size8',prop='P15',edits=[(SE,'''							for( uint16_t i=0; i<temp16; ++i )
							{
								if ( !wr_deserializeEx(value.va->m_Vdata[i], serializer, context) )''','''							for( uint16_t i=0; i<(uint16_t)(temp16 > 4096 ? temp16 - 1 : temp16); ++i )
							{
								if ( !wr_deserializeEx(value.va->m_Vdata[i], serializer, context) )''')],
 w='var a[5000]; for ( var i = 0; i < 5000; ++i ) { a[i] = i; } var s = std::serialize(a); var b = std::deserialize(s); out(b._count, b[4998], b[4999]);',expect='5000 4998 4999;',needs='an array of more than 4096 elements',breaks='the last element is not restored'),
dict(id='p15-read-bound',prop='P15',edits=[(SH,'if ( m_pos + size > m_size )','if ( m_pos + size > m_size + (size > 4 ? 1 : 0) )')],
 cpp=HOST+r'''
int main() { int n; unsigned char* b = comp("var s = \"hello world\";", &n); WRState* w = st(64); WRContext* x = wr_run(w, b, n); WRValue* s = wr_getGlobalRef(x, "s"); char* p; int l; is("serialize", wr_serialize(&p, &l, *s)); for (int i = 0; i < l; ++i) { WRValue v; v.init(); is("prefix is refused", !wr_deserialize(x, v, p, i)); } wr_destroyState(w); return fails ? 1 : 0; }
''',needs='the encoding of a string cut by exactly one byte',breaks='the truncated buffer is accepted, reading one byte outside it'),
dict(id='p16-callback-usr',prop='P16',edits=[(VM,'''					register1->ccb( context, stackTop - args, args, *stackTop, register1->usr );
				}

CallFunctionByHashAndPop_continue:''','''					register1->ccb( context, stackTop - args, args, *stackTop, args ? register1->usr : 0 );
				}

CallFunctionByHashAndPop_continue:''')],
 cpp=HOST+r'''
static int seen = 0; static void cb(WRContext*, const WRValue*, const int, WRValue& ret, void* usr) { if (usr == &seen) ++seen; wr_makeInt(&ret, 1); }
int main() { int n; unsigned char* b = comp("cb(); cb(1); var x = cb(); x = cb(2);", &n); WRState* w = st(64); wr_registerFunction(w, "cb", cb, &seen); wr_run(w, b, n); is("user pointer", seen == 4); wr_destroyState(w); free(b); return fails ? 1 : 0; }
''',needs='a callback called as a statement without arguments',breaks='the user pointer is null'),
dict(id='p16-host-args-overflow',prop='P16',edits=[(U,'''		if ( index >= V.va->m_size )
		{''','''		if ( index >= V.va->m_size )
		{''')],w='',expect='',needs='',breaks='') if 0 else
dict(id='p17-import-second-lookup',prop='P17',edits=[(VM,'''								if ( (register0 = import->registry.exists(fhash, false)) )
								{''','''								if ( (register0 = import->registry.exists(fhash, false)) && register0->wrf->arguments <= 8 )
								{''')],
 cpp=HOST+r'''
int main() { int n, m; unsigned char* b = comp("function go() { f(1,2,3,4,5,6,7,8,9); return 1; }", &n); unsigned char* c = comp("function f(a,b,c,d,e,g,h,i,j) { out(a, j); }", &m); WRState* w = st(64); WRContext* x = wr_run(w, b, n); wr_import(x, c, m); wr_callFunction(x, "go"); is("call into the import", !strcmp(logbuf, "1 9;")); wr_destroyState(w); free(b); free(c); return fails ? 1 : 0; }
''',needs='calling an imported function of nine or more parameters as a statement',breaks='the function is not found'),
dict(id='p18-insert-end',prop='P18',edits=[(ST,'''	if ( pos >= len1 )
	{
		pos = len1;
	}

	unsigned int newlen''','''	if ( pos > len1 )
	{
		pos = len1 ? len1 - 1 : 0;
	}

	unsigned int newlen''')],
 w='out( str::insert("abc", "X", 2) ); out( str::insert("abc", "X", 3) ); out( str::insert("abc", "X", 4) ); out( str::insert("abc", "X", 100) );',expect='"abXc";"abcX";"abcX";"abcX";',needs='a position beyond the end of the string',breaks='the text is inserted before the last character'),
dict(id='p18-trim-tail',prop='P18',edits=[(ST,'''	while( --len >= marker && isspace(data[len]) );

	++len;''','''	while( --len > marker && isspace(data[len]) );

	++len;''')],
 w='out( str::trim("  ab ") ); out( str::trim(" a") ); out( str::trim("   ") ); out( str::trim("") ); out( str::trim(" a ") );',expect='"ab";"a";"";"";"a";',needs='a string of white space only / a single character',breaks='one character too many or too few remains') ,
dict(id='p19-write-count',prop='P19',edits=[(IO,'''				stackTop->i = write( fd, data.va->m_Cdata, (size > data.va->m_size) ? data.va->m_size : size );''','''				stackTop->i = write( fd, data.va->m_Cdata, (size >= data.va->m_size) ? strnlen((const char*)data.va->m_Cdata, data.va->m_size) : size );''')],
 w='var f = io::open("x", io::O_RDWR | io::O_CREAT); out( io::write(f, "abc") ); out( io::write(f, "a\\000b") ); io::close(f); var r = io::readFile("x"); out(r._count);',expect='3;3;6;',needs='data with an embedded zero byte',breaks='the rest after the zero is not written'),
dict(id='p11-literal-string-check',prop='P11',variant='slices',edits=[(VM,'''				for ( char* to = (char *)(stackTop++)->va->m_data ; hash ; --hash )
				{
					*to++ = READ_8_FROM_PC(pc++);
				}

				context->gc( stackTop );

				CHECK_STACK;
				CONTINUE;''','''				for ( char* to = (char *)(stackTop++)->va->m_data ; hash ; --hash )
				{
					*to++ = READ_8_FROM_PC(pc++);
				}

				context->gc( stackTop );

				CONTINUE;''')],
 cpp=HOST+r'''
static unsigned char* last = 0; static size_t lastn = 0;
int main() { static char s[20000]; strcpy(s, "out("); for (int i = 0; i < 60; ++i) strcat(s, i ? ",\"s\"" : "\"s\""); strcat(s, ");"); int n; unsigned char* b = comp(s, &n); WRState* w = st(20); WRContext* x = wr_run(w, b, n); is("overflow is reported", !x && wr_getLastError(w) == WR_ERR_stack_overflow); return fails ? 1 : 0; }
''',needs='many string literals as arguments of one call on a small stack',breaks='the stack overflows before it is noticed'),
dict(id='p12-compact-mod',prop='P12',variant='compact',edits=[],w='',expect='',needs='',breaks='') if 0 else
dict(id='p09-yield-args-slot',prop='P09',edits=[(VM,'''		if ( context->yieldArgs )
		{
			register0 = stackTop;
			*(stackTop -= context->yieldArgs) = *register0;
		}''','''		if ( context->yieldArgs )
		{
			register0 = stackTop;
			stackTop -= context->yieldArgs;
			if ( context->yieldArgs < 4 || register0->type != WR_EX )
			{
				*stackTop = *register0;
			}
		}''')],
 cpp=HOST+r'''
int main() { int n; unsigned char* b = comp("var r = yield(1, 2, 3, 4); out(r);", &n); WRState* w = st(64); WRContext* x = wr_run(w, b, n); WRValue* rv; is("yields", wr_getYieldInfo(x, 0, 0, &rv)); wr_makeString(x, rv, "text"); wr_continue(x); is("value of yield", !strcmp(logbuf, "text;")); wr_destroyState(w); free(b); return fails ? 1 : 0; }
''',needs='a yield of four or more arguments continued with a string',breaks='the yield evaluates to its first argument instead of the value of the host'),
]
