import runpy,os
_c=runpy.run_path(os.path.join(os.path.dirname(os.path.abspath(__file__)),'c.py')) if '__file__' in globals() else runpy.run_path('/verif/tools/bugs/c.py')
HOST=_c['HOST']; VM=_c['VM']; U=_c['U']
BUGS=[
dict(id='p04-wide-index',prop='P04',edits=[(VM,'''			CASE(IndexGlobalLiteral16):
			{
				register0 = globalSpace + READ_8_FROM_PC(pc++);
				(++stackTop)->i = READ_16_FROM_PC(pc);''','''			CASE(IndexGlobalLiteral16):
			{
				register0 = globalSpace + READ_8_FROM_PC(pc++);
				(++stackTop)->i = READ_16_FROM_PC(pc) & 0x3FFF;''')],
 w='var a[]; var i = 20000; a[i] = 5; a[i + 1] = 6; a[i - 16384] = 9; out( a[20000], a[20001], a[3616] );',expect='5 6 9;',needs='a global array indexed by a literal of 16384 or more',breaks='another element is read or written'),
dict(id='p12-source-64k',prop='P12',edits=[(U,'C->codeStart += 4 + READ_32_FROM_PC( C->codeStart );','C->codeStart += 4 + (uint16_t)READ_32_FROM_PC( C->codeStart );')],
 cpp=HOST+r'''
int main() { for (int pad = 0; pad < 100000; pad += 33000) { char* s = (char*)malloc(pad + 200); strcpy(s, "var x = 5; out(x + 2); //"); size_t l = strlen(s); memset(s + l, 'x', pad); s[l + pad] = '\n'; s[l + pad + 1] = 0; unsigned char* b = 0; int n; if (wr_compile(s, (int)strlen(s), &b, &n, 0, WR_INCLUDE_GLOBALS | WR_EMBED_SOURCE_CODE)) return 3; logbuf[0] = 0; WRState* w = st(64); wr_run(w, b, n); is("the program runs", !strcmp(logbuf, "7;")); wr_destroyState(w); free(s); } return fails ? 1 : 0; }
''',needs='a program compiled with its source embedded, the source being 64K or longer',breaks='the program starts in the middle of its own source text'),
]
