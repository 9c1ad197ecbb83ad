TCP="discrete_src/lib/std_tcp.cpp"
BUGS=[
dict(id='p20-bind-in-use',prop='P20',variant='slices',edits=[(TCP,'''		wr_closeTCPEx( s );
		return -1;
	}

	return s;''','''		return -1; // nothing to listen on
	}

	return s;''')],
 cpp=r'''#include "wrench.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int r = -7; static void keep(WRContext*, const WRValue* a, const int n, WRValue&, void*) { r = a[0].asInt(); }
static int run(const char* s) { unsigned char* b = 0; int n = 0; if (wr_compile(s, strlen(s), &b, &n)) exit(2); WRState* w = wr_newState(64); wr_loadAllLibs(w); wr_registerFunction(w, "keep", keep); wr_run(w, b, n); wr_destroyState(w); g_free(b); return r; }
int main() { for (int p = 20011; p < 20600; p += 7) { char s[200]; sprintf(s, "keep( tcp::bind(%d) );", p); int l = run(s); if (l < 3) continue; int before = dup(0); close(before); if (run(s) != -1) { puts("bound twice"); return 1; } int after = dup(0); close(after); if (before != after) { puts("a descriptor is left behind"); return 1; } return 0; } return 2; }
''',needs='tcp::bind of a port that is in use',breaks='the socket stays open'),
dict(id='p20-octet',prop='P20',variant='slices',edits=[(TCP,'''	address |= running << 8;
''','''	if ( running )
	{
		address |= running << 8;
	}
''')],w='',expect='',needs='',breaks='') if 0 else
dict(id='p20-last-octet',prop='P20',variant='slices',edits=[(TCP,'''	if ( running > 255 )
	{
		return 0;
	}

	address |= running << 24;''','''	address |= running << 24;''')],
 cpp=r'''#include "wrench.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static int r = -7; static void keep(WRContext*, const WRValue* a, const int n, WRValue&, void*) { r = a[0].asInt(); }
static int run(const char* s) { unsigned char* b = 0; int n = 0; if (wr_compile(s, strlen(s), &b, &n)) exit(2); WRState* w = wr_newState(64); wr_loadAllLibs(w); wr_registerFunction(w, "keep", keep); wr_run(w, b, n); wr_destroyState(w); g_free(b); return r; }
int main() { for (int p = 20611; p < 21200; p += 7) { char s[200]; sprintf(s, "keep( tcp::bind(%d) );", p); int l = run(s); if (l < 3) continue; sprintf(s, "keep( tcp::connect(\"127.0.0.257\", %d) );", p); if (run(s) != -1) { puts("connected to an address that does not exist"); return 1; } return 0; } return 2; }
''',needs='an address whose last part exceeds 255',breaks='the part wraps around and another address is reached'),
]
