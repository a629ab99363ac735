/* Coverage-guided fuzzing of the compiler (with the run loop behind it) and, with FUZZ_ASM set, of the assembler. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include "run.h"
#include "runtime.h"
#include "diagram.h"
#include "compiler/compile.h"
#include "assembler/assemble.h"

static bool asmb;
static FILE *nul, *nulin;
static long left;

static bool step(Runtime *r, void *d) { (void) r; (void) d; return left-- > 0; }

int LLVMFuzzerInitialize(int *argc, char ***argv)
{
	(void) argc; (void) argv;
	asmb = getenv("FUZZ_ASM") != NULL;
	nul = fopen("/dev/null","w"); nulin = fopen("/dev/null","r");
	return 0;
}

static void must_report(Error *e, const char *who)
{
	if (!e->occurred || !e->message || !*e->message) { fprintf(stderr,"SILENT FAILURE of %s\n",who); abort(); }
}

int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size)
{
	Error e; Error_Init(&e);
	int off = -1;
	/* exactly as long as the text: reads beyond it are seen */
	char *t = malloc(size ? size : 1);
	memcpy(t, data, size);
	Source *s = Source_FromString("(fuzz)", t, size, &e);
	free(t);
	if (!s) { must_report(&e,"Source_FromString"); Error_Free(&e); return 0; }
	Executable *x = asmb ? assemble(s,&e,&off) : compile(s,&e,&off);
	if (!x) {
		must_report(&e, asmb ? "assemble" : "compile");
		if (off < -1 || off > (int) size) { fprintf(stderr,"ERROR OFFSET %d out of the text of %zu\n",off,size); abort(); }
	} else {
		if (e.occurred) { fprintf(stderr,"REPORTED ERROR ON SUCCESS\n"); abort(); }
		if (!asmb) {
			RuntimeConfig c = Runtime_GetDefaultConfigs();
			c.heap = 1<<15; c.callback.func = step; c.callback.data = NULL;
			c.stdin = nulin; c.stdout = nul; c.stderr = nul;
			left = 1500;
			Runtime *rt = Runtime_New(c);
			if (rt) {
				Object *rets[MAX_RETS];
				Error e2; Error_Init(&e2);
				int r = runSource(rt, s, rets, &e2);
				if (r < 0) must_report(&e2,"runSource");
				Error_Free(&e2);
				Runtime_Free(rt);
			}
		}
		Executable_Free(x);
	}
	Source_Free(s);
	Error_Free(&e);
	return 0;
}
