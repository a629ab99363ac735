/* Drives the modules of src/lib/utils with scripts of operations read from the
** standard input, one per line, and prints what each of them did.  Every piece 
** of memory handed to them is allocated with its exact size, for the sanitizers
** to see anything that goes over it. */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <unistd.h>
#include <sanitizer/allocator_interface.h>
#include <sanitizer/common_interface_defs.h>
#include "utils/utf8.h"
#include "utils/bpalloc.h"
#include "utils/bucketlist.h"
#include "utils/promise.h"
#include "utils/labellist.h"
#include "utils/hash.h"
#include "utils/stack.h"
#include "utils/error.h"
#include "utils/source.h"
#include "utils/path.h"

static char *tok(char **p)
{
	char *t = strtok_r(NULL, " \n", p);
	return t ? t : (char*) "-";
}

static char *unhex(const char *h, int *n)
{
	*n = h[0] == '-' ? 0 : strlen(h) / 2;
	char *b = malloc(*n);
	for (int i = 0; i < *n; i++) {
		unsigned v;
		sscanf(h + 2*i, "%2x", &v);
		b[i] = v;
	}
	return b;
}

static char *unhexz(const char *h)
{
	int n;
	char *b = unhex(h, &n);
	b = realloc(b, n + 1);
	b[n] = 0;
	return b;
}

static void hex(const void *p, int n)
{
	if (n == 0) printf("-");
	for (int i = 0; i < n; i++) printf("%02x", ((const unsigned char*) p)[i]);
}

/* ---- the arena's memory comes from here */
static int live, failing = -1, failed, requests, stamp;
static void *my_malloc(void *userp, int size)
{
	if (userp != &stamp || size < 0) printf("!userp ");
	requests++;
	if (failing >= 0 && failing-- == 0) { failing = 0; failed = 1; return NULL; }
	live++;
	return malloc(size);
}
static void my_free(void *userp, void *p)
{
	if (userp != &stamp) printf("!userp ");
	live--;
	free(p);
}

#define MAXB 4096
static BPAlloc *arena;
static char *fixed;
static struct { unsigned char *p; int n; } blocks[MAXB];
static int nblocks;

static void flush(void) { fflush(stdout); }

static int notes[256];
static void note(void *p) { notes[(int*) p - notes]++; }

static int reported;
static Error *reporter;
static void on_report(Error *e) { reported++; reporter = e; if (!e->occurred || !e->message) reported += 100; }

static Promise *seen[1024];
static int nseen;

static const ErrorType kinds[] = { ErrorType_UNSPECIFIED, ErrorType_SYNTAX, ErrorType_SEMANTIC, ErrorType_RUNTIME, ErrorType_INTERNAL };

int main(void)
{
	BucketList *bl = NULL;
	void *cells[MAXB];
	int ncells = 0;
	Promise *pr = NULL;
	unsigned char *dests[256];
	int dsize = 0, ndests = 0;
	LabelList *ll = NULL;
	Stack *st = NULL;
	Source *src = NULL;
	char *names[4096];
	int nnames = 0;
	char *line = NULL;
	size_t cap = 0;
	static char outbuf[1 << 20], inbuf[1 << 16];
	setvbuf(stdout, outbuf, _IOFBF, sizeof(outbuf));
	setvbuf(stdin, inbuf, _IOFBF, sizeof(inbuf));
	__sanitizer_set_death_callback(flush);
	size_t before = __sanitizer_get_current_allocated_bytes();
	while (getline(&line, &cap, stdin) > 0) {
		char *p;
		char *op = strtok_r(line, " \n", &p);
		if (op == NULL) continue;
		#define IS(x) (!strcmp(op, x))
		#define NUM() atoll(tok(&p))
		if (IS("enc")) {
			int n = NUM();
			uint32_t c = NUM();
			char *b = malloc(n);
			memset(b, 0xAA, n);
			printf("%d ", utf8_sequence_from_utf32_codepoint(b, n, c));
			hex(b, n);
			free(b);
		} else if (IS("dec") || IS("len")) {
			int n;
			char *b = unhex(tok(&p), &n);
			uint32_t c = 0;
			if (IS("len")) printf("%d", utf8_strlen(b, n));
			else {
				int k = utf8_sequence_to_utf32_codepoint(b, n, &c);
				if (k != utf8_sequence_to_utf32_codepoint(b, n, NULL)) printf("!null ");
				if (k < 0) printf("-1");
				else printf("%d %u", k, c);
			}
			free(b);
		} else if (IS("prev") || IS("next") || IS("curr")) {
			int n;
			char *b = unhex(tok(&p), &n);
			int i = NUM();
			uint32_t c = 0;
			int (*f)(const char*, int, int, uint32_t*) = IS("prev") ? utf8_prev : IS("next") ? utf8_next : utf8_curr;
			int k = f(b, n, i, &c);
			if (k != f(b, n, i, NULL)) printf("!null ");
			if (k < 0 || (IS("curr") && k == 0)) printf("-1");
			else if (IS("curr")) printf("0 %u", c);
			else if (IS("prev") && i == 0) printf("%d", k);
			else printf("%d %u", k, c);
			free(b);
		} else if (IS("hash")) {
			int n;
			char *b = unhex(tok(&p), &n);
			char *b2 = malloc(n + 1), *b3 = malloc(n + 9);
			memcpy(b2, b, n); b2[n] = 0;
			memcpy(b3, b, n); memset(b3 + n, 'x', 9);
			int h = hashbytes((unsigned char*) b2, n);
			if (n && (h != hashbytes((unsigned char*) b, n) || h != hashbytes((unsigned char*) b3, n))) printf("!rest ");
			if (memcmp(b, b2, n)) printf("!changed ");
			printf("%d", h);
			free(b); free(b2); free(b3);
		} else if (IS("A")) {           // a new arena
			char *kind = tok(&p);
			int a = NUM(), b = NUM(), c = NUM();
			failing = NUM();
			failed = requests = 0;
			nblocks = 0;
			if (kind[0] == 'd') arena = BPAlloc_Init(b);
			else if (kind[0] == 'f') arena = BPAlloc_Init2(a, b, &stamp, my_malloc, my_free);
			else {
				fixed = malloc(c);
				arena = BPAlloc_Init3(fixed, c, b, &stamp, my_malloc, my_free);
				if (arena && (char*) arena != fixed) printf("!mem ");
				if (requests) printf("!asked ");
			}
			printf("%s %d", arena ? "ok" : "null", failed);
			if (arena == NULL) { free(fixed); fixed = NULL; }
		} else if (IS("Ax")) {          // an arena in little memory
			int c = NUM(), n = NUM();
			failing = -1;
			char *b = malloc(c);
			BPAlloc *a = BPAlloc_Init3(b, c, -1, &stamp, my_malloc, my_free);
			if (a) { memset(BPAlloc_Malloc(a, n), 1, n); BPAlloc_Free(a); }
			printf("%s %d", a ? "ok" : "null", live);
			free(b);
		} else if (IS("m") || IS("mm")) {
			int times = IS("mm") ? NUM() : 1, n = NUM(), got = 0;
			while (times-- && nblocks < MAXB) {
				failed = 0;
				unsigned char *b = BPAlloc_Malloc(arena, n);
				if (b == NULL) { if (!failed) printf("!null "); continue; }
				got++;
				if ((uintptr_t) b % 8) printf("!align ");
				blocks[nblocks].p = b;
				blocks[nblocks].n = n;
				memset(b, 1 + nblocks % 251, n);
				nblocks++;
			}
			printf("%d %d", got, failed);
		} else if (IS("f")) {
			int bad = 0;
			for (int i = 0; i < nblocks; i++)
				for (int j = 0; j < blocks[i].n; j++)
					if (blocks[i].p[j] != 1 + i % 251) bad++;
			BPAlloc_Free(arena);
			arena = NULL;
			free(fixed);
			fixed = NULL;
			printf("%d %d", bad, live);
		} else if (IS("B")) { bl = BucketList_New(arena); ncells = 0; printf("%s %d %d", bl ? "ok" : "null", bl ? BucketList_Size(bl) : 0, bl ? BucketList_GetAlloc(bl) == arena : 1);
		} else if (IS("ba") || IS("b2")) {
			char *h = tok(&p);
			int n, times, ok = 0;
			char *b = NULL;
			if (h[0] == 'z') n = atoi(h + 1);
			else b = unhex(h, &n);
			times = NUM();
			while (times--) {
				if (IS("ba")) ok += BucketList_Append(bl, b, n);
				else { cells[ncells] = BucketList_Append2(bl, b, n); if (cells[ncells]) { ok++; if (ncells < MAXB - 1) ncells++; } }
			}
			printf("%d %d", ok, BucketList_Size(bl));
			free(b);
		} else if (IS("bp")) { int i = NUM(), o = NUM(), v = NUM(); ((char*) cells[i])[o] = v; printf("ok");
		} else if (IS("bc")) {
			int n = NUM(), k = n < 0 ? BucketList_Size(bl) : n;
			char *b = malloc(k);
			memset(b, 0xAA, k);
			BucketList_Copy(bl, b, n);
			hex(b, k);
			free(b);
		} else if (IS("P")) { dsize = NUM(); ndests = 0; memset(notes, 0, sizeof(notes)); pr = Promise_New(arena, dsize); printf("%s", pr ? "ok" : "null");
		} else if (IS("ps")) {
			int cb = NUM();
			dests[ndests] = malloc(dsize);
			memset(dests[ndests], 0xEE, dsize);
			int k = cb ? Promise_Subscribe2(pr, dests[ndests], notes + ndests, note) : Promise_Subscribe(pr, dests[ndests]);
			ndests++;
			printf("%d", k);
		} else if (IS("pr")) { int n; char *b = unhex(tok(&p), &n); Promise_Resolve(pr, b, n); memset(b, 0, n); free(b); printf("ok");
		} else if (IS("pd")) {
			printf("%d %u", Promise_hasResolved(pr), Promise_Size(pr));
			for (int i = 0; i < ndests; i++) { printf(" "); hex(dests[i], dsize); printf(":%d", notes[i]); }
		} else if (IS("pf")) { Promise_Free(pr); for (int i = 0; i < ndests; i++) free(dests[i]); ndests = 0; printf("ok");
		} else if (IS("L")) { ll = LabelList_New(arena); nseen = 0; printf("%s", ll ? "ok" : "null");
		} else if (IS("ls") || IS("lg")) {
			int n;
			char *b = unhex(tok(&p), &n);
			names[nnames++] = b;       // names must outlive the list
			if (IS("ls")) { long long v = NUM(); printf("%d", LabelList_SetLabel(ll, b, n, v)); }
			else {
				Promise *q = LabelList_GetLabel(ll, b, n);
				int i;
				long long v = -77;
				for (i = 0; i < nseen && seen[i] != q; i++);
				if (i == nseen) seen[nseen++] = q;
				if (q && Promise_hasResolved(q)) Promise_Subscribe(q, &v);
				if (q == NULL) printf("null");
				else printf("%d %d %u %lld", i, Promise_hasResolved(q), Promise_Size(q), v);
			}
		} else if (IS("lu")) printf("%d", (int) LabelList_GetUnresolvedCount(ll));
		else if (IS("lf")) { LabelList_Free(ll); printf("ok");
		} else if (IS("S")) { int n = NUM(); st = Stack_New(n); printf("%s", st ? "ok" : "null");
		} else if (IS("su")) { intptr_t v = NUM(); printf("%d", Stack_Push(st, (void*) v));
		} else if (IS("so")) printf("%d", Stack_Pop(st, NUM()));
		else if (IS("st")) { int n = NUM(); printf("%ld", (long) (intptr_t) Stack_Top(st, n));
		} else if (IS("sr")) { int n = NUM(); intptr_t v = NUM(); void **r = Stack_TopRef(st, n); if (r) { printf("%ld", (long) (intptr_t) *r); *r = (void*) v; } else printf("null");
		} else if (IS("sz")) printf("%u %u", Stack_Size(st), Stack_Capacity(st));
		else if (IS("sc")) printf("%d", Stack_Copy(st) == st);
		else if (IS("sf")) { Stack_Free(st); printf("ok");
		} else if (IS("err")) {
			int n = NUM(), cb = NUM(), type = kinds[NUM()];
			char *b = malloc(n + 1);
			for (int i = 0; i < n; i++) b[i] = 'a' + i % 26;
			b[n] = 0;
			Error e;
			memset(&e, 0x55, sizeof(e));
			if (cb) Error_Init2(&e, on_report);
			else Error_Init(&e);
			if (e.occurred) printf("!occurred ");
			reported = 0;
			reporter = NULL;
			Error_Report(&e, type, "%d<%s>%c", n, b, '$');
			int want = snprintf(NULL, 0, "%d<%s>$", n, b);
			char *w = malloc(want + 1);
			sprintf(w, "%d<%s>$", n, b);
			printf("%d %d %d %d %d %d %d ", e.occurred, e.type == type, e.length == want, !strcmp(e.message, w), e.truncated, reported, cb ? reporter == &e : reporter == NULL);
			char *buf;
			size_t len;
			for (int d = 0; d < 5; d++) {
				FILE *f = open_memstream(&buf, &len);
				Error_Print(&e, kinds[d], f);
				fclose(f);
				char *c = strchr(buf, ':');
				if (c == NULL || strncmp(c + 2, w, want) || strcmp(c + 2 + want, ".\n")) printf("!print ");
				else { *c = 0; for (char *q = buf; *q; q++) putchar(*q == ' ' ? '_' : *q); putchar(' '); }
				free(buf);
			}
			Error_Free(&e);
			printf("%d %d", e.occurred, e.message == NULL);
			free(b); free(w);
		} else if (IS("F") || IS("T")) {
			Error e;
			Error_Init(&e);
			if (IS("F")) {
				char *n = unhexz(tok(&p));
				src = Source_FromFile(n, &e);
				memset(n, 'X', strlen(n));
				free(n);
			} else {
				char *h = tok(&p);
				char *n = h[0] == '.' ? NULL : unhexz(h);
				int bn;
				char *b = unhex(tok(&p), &bn);
				int z = NUM();
				if (z) { b = realloc(b, bn + 1); b[bn] = 0; }
				src = Source_FromString(n, b, z ? -1 : bn, &e);
				memset(b, 'X', bn);
				free(b);
				if (n) { memset(n, 'X', strlen(n)); free(n); }
			}
			printf("%s %d %d", src ? "ok" : "null", e.occurred, e.occurred && e.message[0] != 0);
			Error_Free(&e);
		} else if (IS("si")) {
			const char *n = Source_GetName(src), *a = Source_GetAbsolutePath(src);
			if (n) hex(n, strlen(n)); else printf(".");
			printf(" ");
			if (a) hex(a, strlen(a)); else printf(".");
			printf(" %u ", Source_GetSize(src));
			hex(Source_GetBody(src), Source_GetSize(src));
			printf(" %d", Source_GetBody(src)[Source_GetSize(src)]);
		} else if (IS("s+")) printf("%d", Source_Copy(src) == src);
		else if (IS("s-")) { Source_Free(src); printf("ok");
		} else if (IS("cd")) { char *d = unhexz(tok(&p)); printf("%d", chdir(d)); free(d);
		} else if (IS("pm")) {
			char *n = unhexz(tok(&p));
			int k = NUM();
			char *b = malloc(k);
			const char *r = Path_MakeAbsolute(n, b, k);
			printf("%d ", Path_IsAbsolute(n));
			if (r == NULL) printf("null");
			else { hex(r, strlen(r)); if (r != (Path_IsAbsolute(n) ? n : b)) printf(" !where"); }
			free(b); free(n);
		} else printf("?");
		printf("\n");
	}
	free(line);
	for (int i = 0; i < nnames; i++) free(names[i]);
	printf("left %ld\n", (long) (__sanitizer_get_current_allocated_bytes() - before));
	fflush(stdout);
	return 0;
}
