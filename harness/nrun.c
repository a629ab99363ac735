/* Fork server driving the interpreter through its embedding interface.
 *
 * Reads framed requests on fd 0, runs each in a forked, unprivileged,
 * resource-limited child, answers on fd 1.  See lib/runner.py for the client.
 */
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdbool.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <dirent.h>
#include <limits.h>
#include <grp.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/prctl.h>
#include "run.h"
#include "runtime.h"
#include "diagram.h"
#include "compiler/compile.h"
#include "assembler/assemble.h"

/* ---------------------------------------------------------------- */
/* Allocation tracking and failure injection (link-time wrapping)   */
/* ---------------------------------------------------------------- */
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t);
void *__real_realloc(void*,size_t); void __real_free(void*);
char *__real_strdup(const char*); char *__real_realpath(const char*,char*);

static bool     armed;
static int64_t  fail_at = -1;
static int      fail_from;
static int64_t  alloc_no;
static int64_t  failed_no;
static int64_t  live_count, live_bytes, peak_bytes;

#define TAB (1u<<20)
typedef struct { void *p; size_t n; int64_t no; } Ent;
static Ent *tab;          /* open addressing; tombstone = (void*)1 */
static int64_t tab_used;

static unsigned slot_of(void *p) { uint64_t x=(uint64_t)(uintptr_t)p; x^=x>>33; x*=0xff51afd7ed558ccdULL; x^=x>>33; return (unsigned)x & (TAB-1); }
static void tab_add(void *p, size_t n) {
	if (!p) return;
	if (tab_used > TAB*7/10) return; /* never happens with our programs */
	unsigned i = slot_of(p);
	while (tab[i].p && tab[i].p != (void*)1) i = (i+1)&(TAB-1);
	if (!tab[i].p) tab_used++;
	tab[i].p = p; tab[i].n = n; tab[i].no = alloc_no;
	live_count++; live_bytes += n; if (live_bytes > peak_bytes) peak_bytes = live_bytes;
}
static bool tab_del(void *p) {
	unsigned i = slot_of(p);
	while (tab[i].p) {
		if (tab[i].p == p) { live_count--; live_bytes -= tab[i].n; tab[i].p = (void*)1; return true; }
		i = (i+1)&(TAB-1);
	}
	return false;
}
static bool should_fail(void) {
	if (!armed) return false;
	int64_t k = alloc_no++;
	if (fail_at >= 0 && (k == fail_at || (fail_from && k > fail_at))) { failed_no++; errno = ENOMEM; return true; }
	return false;
}
void *__wrap_malloc(size_t n) { if (should_fail()) return NULL; void *p = __real_malloc(n); if (armed) tab_add(p,n); return p; }
void *__wrap_calloc(size_t a, size_t b) { if (should_fail()) return NULL; void *p = __real_calloc(a,b); if (armed) tab_add(p,a*b); return p; }
void *__wrap_realloc(void *q, size_t n) {
	if (should_fail()) return NULL;
	if (armed && q) tab_del(q);
	void *p = __real_realloc(q,n);
	if (armed) { if (p) tab_add(p,n); }
	return p;
}
void __wrap_free(void *p) { if (armed && p) tab_del(p); __real_free(p); }
char *__wrap_strdup(const char *s) { if (should_fail()) return NULL; char *p = __real_strdup(s); if (armed && p) tab_add(p,strlen(p)+1); return p; }
char *__wrap_realpath(const char *s, char *b) { if (b) return __real_realpath(s,b); if (should_fail()) return NULL; char *p = __real_realpath(s,b); if (armed && p) tab_add(p,strlen(p)+1); return p; }

/* ---------------------------------------------------------------- */
/* Request parsing                                                  */
/* ---------------------------------------------------------------- */
enum { F_PROFILE=1, F_NOCALLBACK=2, F_PRIVS=4, F_LISTOFFS=8, F_TRACE_USAGE=16, F_FREERET=32, F_NOBUILTINS=64, F_EXACT=128, F_OUTPOS=256 };

typedef struct { const unsigned char *p, *e; } Rd;
static uint32_t r32(Rd *r) { uint32_t v=0; if (r->e-r->p>=4) { memcpy(&v,r->p,4); r->p+=4; } return v; }
static int64_t r64(Rd *r) { int64_t v=0; if (r->e-r->p>=8) { memcpy(&v,r->p,8); r->p+=8; } return v; }
/* strings are transmitted with a terminating zero that isn't counted */
static const char *rstr(Rd *r, uint32_t *n) { uint32_t l=r32(r); const char *s=(const char*)r->p; if (r->e-r->p < (long)l+1) { *n=0; return ""; } r->p += l+1; *n=l; return s; }

typedef struct {
	uint32_t flags, opcap;
	int64_t heap, stack, steps, stop_at, fail_at, gc_every, cpu;
	uint32_t stop_mode, fail_from;
	const char *cwd, *in; uint32_t cwdn, inn;
	uint32_t nops;
} Req;

static int fd_out, fd_err, fd_rin, fd_rout, fd_rerr, fd_res;

static unsigned char resbuf[1<<16]; static size_t resn;
static void resflush(void) { size_t o=0; while (o<resn) { ssize_t k=write(fd_res,resbuf+o,resn-o); if (k<=0) break; o+=k; } resn=0; }
static void resput(const void *p, size_t n) {
	const unsigned char *c=p;
	while (n) { size_t k=sizeof(resbuf)-resn; if (k>n) k=n; memcpy(resbuf+resn,c,k); resn+=k; c+=k; n-=k; if (resn==sizeof(resbuf)) resflush(); }
}
static void res_rec(char tag, const void *p, uint32_t n) { resput(&tag,1); resput(&n,4); resput(p,n); }
static void res_int(char tag, int64_t v) { res_rec(tag,&v,8); }

/* ---------------------------------------------------------------- */
static Req rq;
static Runtime *rt;
static int64_t icount, gccount, over_count;
static bool stopping, stepped_out;
static FILE *rin, *rout, *rerr;

/* several runtimes in one process, each with streams of its own; slot 0 is the default */
#define SLOTS 4
typedef struct { bool made; Runtime *rt; FILE *in, *out, *err; int fdout, fderr; off_t pos, epos; } Slot;
static Slot slots[SLOTS]; static int cur_slot;

#define OUTPOS_MAX (1<<20)
static uint32_t outpos[OUTPOS_MAX]; static int64_t outpos_n;

static bool on_instr(Runtime *r, void *data)
{
	(void) data;
	int64_t k = icount++;
	if ((rq.flags & F_OUTPOS) && k < OUTPOS_MAX) { outpos[k] = (uint32_t) ftello(rout); outpos_n = k+1; }
	if (Heap_GetUsagePercentage(Runtime_GetHeap(r)) > 100) over_count++;
	if (rq.steps > 0 && k >= rq.steps) { stepped_out = true; return false; }
	if (rq.stop_at >= 0 && k == rq.stop_at) {
		stopping = true;
		if (rq.stop_mode == 1) return false;
		Runtime_Interrupt(r);
		return rq.stop_mode != 3;
	}
	if (rq.gc_every > 0 && k % rq.gc_every == 0) {
		Error e; Error_Init(&e);
		if (Runtime_CollectGarbage(r,&e)) gccount++;
		Error_Free(&e);
	}
	return true;
}

static void put_obj(char tag, Object *o) {
	bool a = armed; armed = false;
	char *b=NULL; size_t n=0;
	FILE *m = open_memstream(&b,&n);
	Object_Print(o,m); fclose(m);
	res_rec(tag,b,n); free(b);
	armed = a;
}
/* The exact value of an object, through the embedding interface. */
static void exact(FILE *m, Object *o, int depth)
{
	Heap *h = Runtime_GetHeap(rt);
	Error e; Error_Init(&e);
	if (depth > 24) { fprintf(m,"<deep>"); return; }
	if (Object_IsNone(o)) fprintf(m,"N");
	else if (Object_IsInt(o)) fprintf(m,"i%lld",Object_GetInt(o));
	else if (Object_IsFloat(o)) { double d=Object_GetFloat(o); if (d!=d) fprintf(m,"fnan"); else fprintf(m,"f%a",d); }
	else if (Object_IsBool(o)) fprintf(m,Object_GetBool(o)?"T":"F");
	else if (Object_IsString(o)) { size_t n=0; const char *s=Object_GetString(o,&n); fprintf(m,"s"); for (size_t i=0;i<n;i++) fprintf(m,"%02x",(unsigned char)s[i]); }
	else if (Object_IsBuffer(o)) { size_t n=0; const unsigned char *s=Object_GetBuffer(o,&n); fprintf(m,"b"); for (size_t i=0;i<n;i++) fprintf(m,"%02x",s[i]); }
	else if (Object_IsList(o)) {
		int n = Object_Count(o,&e);
		fprintf(m,"[");
		for (int i=0;i<n;i++) {
			Object *k = Object_FromInt(i,h,&e);
			Object *v = k ? Object_Select(o,k,h,&e) : NULL;
			if (i) fprintf(m," ");
			if (v) exact(m,v,depth+1); else fprintf(m,"?");
		}
		fprintf(m,"]");
	}
	else if (Object_IsMap(o)) {
		Object *ks = Object_KeysOf(o,h,&e);
		int n = ks ? Object_Count(ks,&e) : -1;
		fprintf(m,"{");
		for (int i=0;i<n;i++) {
			Object *ki = Object_FromInt(i,h,&e);
			Object *k = ki ? Object_Select(ks,ki,h,&e) : NULL;
			Object *v = k ? Object_Select(o,k,h,&e) : NULL;
			if (i) fprintf(m," ");
			if (k) exact(m,k,depth+1); else fprintf(m,"?");
			fprintf(m,"=");
			if (v) exact(m,v,depth+1); else fprintf(m,"?");
		}
		fprintf(m,"}");
	}
	else fprintf(m,"<%s>",Object_GetName(o));
	Error_Free(&e);
}
static void put_exact(Object *o) {
	bool a = armed; armed = false;
	char *b=NULL; size_t n=0;
	FILE *m = open_memstream(&b,&n);
	exact(m,o,0); fclose(m);
	res_rec('w',b,n); free(b);
	armed = a;
}
static void put_error(Error *e, ErrorType t) {
	bool a = armed; armed = false;
	char *b=NULL; size_t n=0;
	FILE *m = open_memstream(&b,&n);
	Error_Print(e,t,m); fclose(m);
	res_rec('e',b,n); free(b);
	int64_t f = (e->occurred?1:0)|(e->internal?2:0)|(e->truncated?4:0);
	res_int('f',f);
	armed = a;
}
static void put_trace(Runtime *r) {
	bool a = armed; armed = false;
	char *b=NULL; size_t n=0;
	FILE *m = open_memstream(&b,&n);
	Runtime_PrintStackTrace(r,m); fclose(m);
	res_rec('t',b,n); free(b);
	armed = a;
}

static bool new_runtime(void)
{
	RuntimeConfig c = Runtime_GetDefaultConfigs();
	if (rq.heap > 0) c.heap = rq.heap;
	if (rq.stack > 0) c.stack = rq.stack;
	c.time = (rq.flags & F_PROFILE) != 0;
	if (!(rq.flags & F_NOCALLBACK)) { c.callback.func = on_instr; c.callback.data = NULL; }
	c.stdin = rin; c.stdout = rout; c.stderr = rerr;
	rt = Runtime_New(c);
	if (!rt) { res_int('n',0); return false; }
	if (rq.flags & F_NOBUILTINS) { res_int('n',1); return true; }
	Error e; Error_Init(&e);
	if (!Runtime_plugDefaultBuiltins(rt,&e)) {
		put_error(&e, ErrorType_RUNTIME);
		put_trace(rt);
		Error_Free(&e);
		Runtime_Free(rt); rt=NULL;
		res_int('n',0);
		return false;
	}
	Error_Free(&e);
	res_int('n',1);
	return true;
}

static void put_listing(Executable *exe, char tag)
{
	bool a = armed; armed = false;
	char *b=NULL; size_t n=0;
	FILE *m = open_memstream(&b,&n);
	for (int i=0;;i++) {
		Opcode op; Operand ops[8]; int opc=8;
		if (!Executable_Fetch(exe,i,&op,ops,&opc)) break;
		fprintf(m,"%s",Executable_GetOpcodeName(op));
		for (int j=0;j<opc;j++) {
			switch (ops[j].type) {
				case OPTP_IDX: fprintf(m,"\tX%lld",ops[j].as_int); break;
				case OPTP_INT: fprintf(m,"\tI%lld",ops[j].as_int); break;
				case OPTP_FLOAT: fprintf(m,"\tF%a",ops[j].as_float); break;
				case OPTP_STRING: fprintf(m,"\tS"); for (const char *s=ops[j].as_string;*s;s++) fprintf(m,"%02x",(unsigned char)*s); break;
				default: fprintf(m,"\t?"); break;
			}
		}
		if (rq.flags & F_LISTOFFS) fprintf(m,"\t@%d+%d",Executable_GetInstrOffset(exe,i),Executable_GetInstrLength(exe,i));
		fprintf(m,"\n");
	}
	fclose(m);
	res_rec(tag,b,n); free(b);
	armed = a;
}

static Executable *build(bool asmb, const char *name, const char *body, uint32_t n)
{
	Error e; Error_Init(&e);
	Executable *exe = NULL;
	Source *s = Source_FromString(name, body, n, &e);
	int off = -1;
	if (s) exe = asmb ? assemble(s,&e,&off) : compile(s,&e,&off);
	if (!exe) { put_error(&e, ErrorType_UNSPECIFIED); res_int('o',off); }
	else if (e.occurred) res_int('!',1); /* success with a reported error */
	if (s) Source_Free(s);
	Error_Free(&e);
	return exe;
}

static void slot_put(char tag, int fd, off_t *pos)
{
	off_t end = lseek(fd,0,SEEK_END);
	size_t n = end > *pos ? (size_t)(end-*pos) : 0;
	if (n > (4u<<20)) n = 4u<<20;
	char *b = __real_malloc(n+1);
	ssize_t k = n ? pread(fd,b,n,*pos) : 0;
	res_rec(tag,b,k>0?(uint32_t)k:0); __real_free(b);
	*pos = end;
}
static void slot_output(void) { Slot *s = &slots[cur_slot]; slot_put('u',s->fdout,&s->pos); slot_put('y',s->fderr,&s->epos); }

/* ---------------------------------------------------------------- */
/* Built-ins of the host                                            */
/* ---------------------------------------------------------------- */
static int hb_echo(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) r; (void) error; unsigned i; for (i=0;i<argc && i<MAX_RETS;i++) rets[i]=argv[i]; return i; }
static int hb_argc(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) argv; rets[0] = Object_FromInt(argc,Runtime_GetHeap(r),error); return rets[0] ? 1 : -1; }
static int hb_fail(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) r; (void) rets; Error_Report(error,ErrorType_RUNTIME,"host: %s",argc>0 && Object_IsString(argv[0]) ? Object_GetString(argv[0],NULL) : "no reason"); return -1; }
static int hb_nothing(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) r; (void) argv; (void) argc; (void) rets; (void) error; return 0; }
static int hb_last(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ (void) r; (void) error; if (argc==0) return 0; rets[0] = argv[argc-1]; return 1; }
static int hb_call(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{ if (argc==0) { Error_Report(error,ErrorType_RUNTIME,"nothing to call"); return -1; } return Object_Call(argv[0],argv+1,argc-1,rets,Runtime_GetHeap(r),error); }
static int hb_list(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
	Heap *h = Runtime_GetHeap(r);
	Object *l = Object_NewList(0,h,error);
	if (!l) return -1;
	for (unsigned i=0;i<argc;i++) { Object *k = Object_FromInt(i,h,error); if (!k || !Object_Insert(l,k,argv[i],h,error)) return -1; }
	rets[0] = l; return 1;
}
static int hb_map(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
	Heap *h = Runtime_GetHeap(r);
	Object *m = Object_NewMap(0,h,error);
	if (!m) return -1;
	for (unsigned i=0;i+1<argc;i+=2) if (!Object_Insert(m,argv[i],argv[i+1],h,error)) return -1;
	rets[0] = m; return 1;
}
static int hb_select(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
	if (argc<2) return 0;
	Object *o = Object_Select(argv[0],argv[1],Runtime_GetHeap(r),error);
	if (!o) return error->occurred ? -1 : 0;
	rets[0] = o; return 1;
}
static int hb_run(Runtime *r, Object **argv, unsigned int argc, Object *rets[static MAX_RETS], Error *error)
{
	if (argc==0 || !Object_IsString(argv[0])) { Error_Report(error,ErrorType_RUNTIME,"nothing to run"); return -1; }
	char *text = strdup(Object_GetString(argv[0],NULL)); /* the string may be moved while it runs */
	if (!text) { Error_Report(error,ErrorType_INTERNAL,"No memory"); return -1; }
	int n = runStringEx(r,"inner",text,rets,error);
	free(text);
	return n;
}
static int (*const hb[])(Runtime*, Object**, unsigned int, Object*[static MAX_RETS], Error*) = { hb_echo, hb_argc, hb_fail, hb_nothing, hb_last, hb_call, hb_list, hb_map, hb_select, hb_run };

#define HB_TABLES 16
#define HB_SLOTS 64
static StaticMapSlot *hb_init_table; static int hb_types[HB_SLOTS];
static TypeObject *hb_type(int i)
{
	TypeObject *ty[] = { Object_GetIntType(), Object_GetFloatType(), Object_GetStringType(), Object_GetListType(), Object_GetMapType(), Object_GetBufferType() };
	return ty[i % 6];
}
static void hb_init(StaticMapSlot *t)
{
	for (int i=0;t[i].name;i++) if (t[i].kind == SM_TYPE && t == hb_init_table) {
		t[i].as_type = hb_type(hb_types[i]);
	}
}
static char *hb_unhex(const char *h, int *len)
{
	size_t n = strlen(h)/2; char *b = malloc(n+1);
	for (size_t i=0;i<n;i++) { unsigned v=0; sscanf(h+2*i,"%2x",&v); b[i]=v; }
	b[n]=0; *len = (int) n; return b;
}
/* Lines: "T" begins a table; "<kind> <name> <value> [<argc or length>]" is a slot.  The last table is the one that's plugged in. */
static StaticMapSlot *hb_parse(const char *spec)
{
	StaticMapSlot *tabs[HB_TABLES]; int nt=-1, ns=0;
	char *copy = strdup(spec), *save=NULL;
	for (char *l = strtok_r(copy,"\n",&save); l; l = strtok_r(NULL,"\n",&save)) {
		if (l[0]=='T') { if (nt+1>=HB_TABLES) break; tabs[++nt] = calloc(HB_SLOTS,sizeof(StaticMapSlot)); tabs[nt][0].kind = SM_END; ns=0; memset(hb_types,0,sizeof(hb_types)); continue; }
		char kind, name[512], val[8192]; int extra=0;
		if (nt<0 || ns>=HB_SLOTS-1 || sscanf(l,"%c %511s %8191s %d",&kind,name,val,&extra)<3) continue;
		StaticMapSlot *s = &tabs[nt][ns];
		int n; s->name = hb_unhex(name,&n);
		switch (kind) {
			case 'b': s->kind = SM_BOOL; s->as_bool = atoi(val); break;
			case 'i': s->kind = SM_INT; s->as_int = strtoll(val,NULL,10); break;
			case 'f': s->kind = SM_FLOAT; s->as_float = strtod(val,NULL); break;
			case 's': { int k; s->kind = SM_STRING; s->as_string = hb_unhex(val+1,&k); s->length = extra; break; }
			case 'n': s->kind = SM_NONE; break;
			case 't': s->kind = SM_TYPE; hb_types[ns] = atoi(val); s->as_type = hb_type(atoi(val)); break;
			case 'o': s->kind = SM_OBJECT; s->as_object = (Object*) (atoi(val) ? Object_GetIntType() : Object_GetStringType()); break;
			case 'F': s->kind = SM_FUNCT; s->as_funct = hb[atoi(val) % (int) (sizeof(hb)/sizeof(*hb))]; s->argc = extra; break;
			case 'm': s->kind = SM_SMAP; s->as_smap = tabs[atoi(val) % (nt+1)]; break;
			default: s->kind = SM_NONE; break;
		}
		tabs[nt][++ns].name = NULL; tabs[nt][ns].kind = SM_END;
	}
	free(copy);
	/* the types of the plugged table itself are filled in by the function given along */
	for (int i=0;nt>=0 && i<ns;i++) if (tabs[nt][i].kind == SM_TYPE) tabs[nt][i].as_type = Object_GetBoolType();
	return nt<0 ? NULL : tabs[nt];
}

static void run_op(uint32_t kind, const char *name, uint32_t namen, const char *body, uint32_t bodyn)
{
	(void) namen;
	char k = 'A'+kind;
	int64_t a0 = alloc_no, i0 = icount, f0 = failed_no;
	res_rec('B',&k,1);
	switch (kind) {
	case 1: case 2: case 3: case 4: case 13: case 14: {
		if (!rt) { res_int('r',-2); break; }
		Error e; Error_Init(&e);
		Object *rets[MAX_RETS]; memset(rets,0,sizeof(rets));
		int r = -1;
		if (kind == 1 || kind == 3) {
			Source *s = Source_FromString(name, body, bodyn, &e);
			if (s) {
				r = kind==1 ? runSource(rt,s,rets,&e) : runBytecodeSource(rt,s,rets,&e);
				Source_Free(s);
			}
		} else if (kind == 2) r = runFileEx(rt,name,rets,&e);
		else if (kind == 4) r = runBytecodeFileEx(rt,name,rets,&e);
		else if (kind == 13) r = runStringEx(rt,name,body,rets,&e);
		else r = runBytecodeStringEx(rt,name,body,rets,&e);
		res_int('r',r);
		if (r < 0) { put_error(&e, ErrorType_RUNTIME); put_trace(rt); }
		else { if (e.occurred) res_int('!',1); for (int i=0;i<r && i<MAX_RETS;i++) { put_obj('v',rets[i]); if (rq.flags & F_EXACT) put_exact(rets[i]); } }
		Error_Free(&e);
		bool a = armed; armed = false; fflush(rout); fflush(rerr);
		if (cur_slot == 0) res_int('p', lseek(fd_rout,0,SEEK_CUR));
		else slot_output();
		armed = a;
		break;
	}
	case 5: case 6: {
		Error e; Error_Init(&e);
		int off=-1;
		char *s = kind==5 ? diagramStringAST(body,&e,&off) : diagramFileAST(name,&e,&off);
		if (s) { if (e.occurred) res_int('!',1); res_int('r',0); res_rec('d',s,strlen(s)); }
		else { res_int('r',-1); put_error(&e, ErrorType_UNSPECIFIED); }
		if (s) free(s);
		Error_Free(&e);
		break;
	}
	case 7: case 10: {
		Executable *x = build(kind==10,name,body,bodyn);
		res_int('r',x?0:-1);
		if (x) { put_listing(x,'l'); Executable_Free(x); }
		break;
	}
	case 11: { /* compare two assembly sources */
		Executable *x = build(true,"(a)",name,namen), *y = build(true,"(b)",body,bodyn);
		res_int('r',(x&&y)?0:-1);
		if (x&&y) {
			res_int('q', Executable_Equiv(x,y,NULL,NULL)); res_int('q', Executable_Equiv(y,x,NULL,NULL));
			res_int('q', Executable_Equiv(x,x,NULL,NULL));
			bool a = armed; armed = false;
			char *b=NULL; size_t n=0; FILE *m = open_memstream(&b,&n);
			int q = Executable_Equiv(x,y,m,"P: "); fclose(m); res_int('q',q); res_rec('g',b,n); free(b);
			armed = a;
		}
		if (x) Executable_Free(x);
		if (y) Executable_Free(y);
		break;
	}
	case 9: { /* replace the runtime */
		if (rt) Runtime_Free(rt);
		rt = NULL;
		new_runtime();
		break;
	}
	case 12: { /* profile */
		if (!rt) break;
		bool a = armed; armed = false;
		char *b=NULL; size_t n=0; FILE *m = open_memstream(&b,&n);
		Runtime_SerializeProfilingResultsToStream(rt,m); fclose(m); res_rec('P',b,n); free(b);
		armed = a;
		break;
	}
	case 17: case 18: case 19: case 20: case 21: { /* plug built-ins in: of a table, a string, a file, a named source */
		if (!rt) { res_int('r',-2); break; }
		Error e; Error_Init(&e);
		bool ok = false;
		if (kind == 17) {
			bool a = armed; armed = false;
			StaticMapSlot *t = hb_init_table = hb_parse(body);
			armed = a;
			ok = t && Runtime_plugBuiltinsFromStaticMap(rt,t,hb_init,&e);
		} else if (kind == 18) ok = Runtime_plugBuiltinsFromString(rt,body,&e);
		else if (kind == 21) ok = Runtime_plugDefaultBuiltins(rt,&e);
		else if (kind == 19) ok = Runtime_plugBuiltinsFromFile(rt,name,&e);
		else {
			Source *s = Source_FromString(name,body,bodyn,&e);
			if (s) { ok = Runtime_plugBuiltinsFromSource(rt,s,&e); Source_Free(s); }
		}
		res_int('r',ok ? 0 : -1);
		if (!ok) { put_error(&e, ErrorType_RUNTIME); put_trace(rt); }
		else if (e.occurred) res_int('!',1);
		Error_Free(&e);
		bool a = armed; armed = false; fflush(rout); fflush(rerr); armed = a;
		res_int('p', lseek(fd_rout,0,SEEK_CUR));
		break;
	}
	case 16: { /* go to an other runtime, made when it doesn't exist (name = its number, body = its input) */
		int k2 = atoi(name); if (k2<0 || k2>=SLOTS) break;
		slots[cur_slot].rt = rt; slots[cur_slot].in = rin; slots[cur_slot].out = rout; slots[cur_slot].err = rerr; slots[cur_slot].made = true;
		cur_slot = k2;
		if (!slots[k2].made) {
			bool a = armed; armed = false;
			int fi = memfd_create("si",0);
			if (write(fi,body,bodyn) != (ssize_t)bodyn) _exit(95);
			lseek(fi,0,SEEK_SET);
			slots[k2].fdout = memfd_create("so",0); slots[k2].fderr = memfd_create("se",0);
			slots[k2].in = fdopen(fi,"r"); slots[k2].out = fdopen(dup(slots[k2].fdout),"w"); slots[k2].err = fdopen(dup(slots[k2].fderr),"w");
			slots[k2].made = true;
			armed = a;
			rin = slots[k2].in; rout = slots[k2].out; rerr = slots[k2].err; rt = NULL;
			new_runtime();
		} else { rt = slots[k2].rt; rin = slots[k2].in; rout = slots[k2].out; rerr = slots[k2].err; }
		break;
	}
	}
	res_int('a', alloc_no-a0);
	res_int('i', icount-i0);
	if (failed_no != f0) res_int('F', failed_no-f0);
	resflush();
}

static int count_fds(void)
{
	int n=0;
	for (int i=0;i<256;i++) if (fcntl(i,F_GETFD)>=0) n++;
	return n;
}

static void child(const unsigned char *buf, size_t len)
{
	Rd r = { buf, buf+len };
	rq.flags=r32(&r); rq.heap=r64(&r); rq.stack=r64(&r); rq.steps=r64(&r); rq.stop_at=r64(&r); rq.stop_mode=r32(&r);
	rq.fail_at=r64(&r); rq.fail_from=r32(&r); rq.gc_every=r64(&r); rq.cpu=r64(&r);
	rq.cwd=rstr(&r,&rq.cwdn); rq.in=rstr(&r,&rq.inn);
	rq.nops=r32(&r);

	struct rlimit rl = { rq.cpu, rq.cpu+2 };
	setrlimit(RLIMIT_CPU,&rl);
	rl.rlim_cur = rl.rlim_max = 0; setrlimit(RLIMIT_CORE,&rl);
	rl.rlim_cur = rl.rlim_max = 256u<<20; setrlimit(RLIMIT_FSIZE,&rl);
	rl.rlim_cur = rl.rlim_max = 256; setrlimit(RLIMIT_NOFILE,&rl);
	if (rq.cwdn && chdir(rq.cwd)!=0) _exit(97);
	if (!(rq.flags&F_PRIVS) && geteuid()==0) { if (setgroups(0,NULL)==0 && setgid(65534)==0) { if (setuid(65534)!=0) _exit(96); } }
	prctl(PR_SET_PDEATHSIG,SIGKILL);

	/* the process-wide streams are decoys: the runtime is given its own */
	if (write(fd_rin,rq.in,rq.inn) != (ssize_t)rq.inn) _exit(95);
	lseek(fd_rin,0,SEEK_SET);
	dup2(fd_out,1); dup2(fd_err,2);
	int dn = memfd_create("decoy",0); (void)!write(dn,"DECOY\nDECOY\nDECOY\n",18); lseek(dn,0,SEEK_SET); dup2(dn,0); close(dn);
	rin = fdopen(dup(fd_rin),"r"); rout = fdopen(dup(fd_rout),"w"); rerr = fdopen(dup(fd_rerr),"w");
	/* force the streams' own buffers to exist before arming */
	static char b1[65536], b2[65536], b3[4096];
	setvbuf(rout,b1,_IOFBF,sizeof b1); setvbuf(rerr,b2,_IOFBF,sizeof b2); setvbuf(rin,b3,_IOFBF,sizeof b3);

	int fds0 = count_fds();
	fail_at = rq.fail_at; fail_from = rq.fail_from;
	armed = true;
	int64_t a0 = alloc_no;
	/* ops starting with kind 8 don't need a runtime */
	bool need = false;
	{ Rd t=r; for (uint32_t i=0;i<rq.nops;i++) { uint32_t n; uint32_t k=r32(&t); rstr(&t,&n); rstr(&t,&n); if (k<=4||k==13||k==14||k==8) need=true; } }
	if (need) new_runtime();
	res_int('S',alloc_no-a0);
	resflush();
	for (uint32_t i=0;i<rq.nops;i++) {
		uint32_t nn,bn; uint32_t k=r32(&r); const char *name=rstr(&r,&nn); const char *body=rstr(&r,&bn);
		run_op(k,name,nn,body,bn);
	}
	int64_t peak = peak_bytes;
	if (rt) Runtime_Free(rt);
	for (int i=0;i<SLOTS;i++) if (i!=cur_slot && slots[i].made && slots[i].rt) Runtime_Free(slots[i].rt);
	armed = false;
	if (cur_slot) { rout = slots[0].out; rerr = slots[0].err; }
	for (int i=1;i<SLOTS;i++) if (slots[i].made) { fclose(slots[i].in); fclose(slots[i].out); fclose(slots[i].err); close(slots[i].fdout); close(slots[i].fderr); }
	fflush(rout); fflush(rerr); fflush(stdout); fflush(stderr);
	int fds1 = count_fds();
	res_int('L',live_count); res_int('M',live_bytes); res_int('K',peak); res_int('D',fds1-fds0);
	if (live_count > 0 && tab)
		for (unsigned i=0;i<TAB;i++) if (tab[i].p > (void*)1) { res_int('N',tab[i].no); break; }
	if (rq.flags & F_OUTPOS) res_rec('U',outpos,outpos_n*4);
	res_int('G',gccount); res_int('O',over_count); res_int('I',icount);
	res_int('X',stepped_out?2:stopping?1:0);
	char z=0; res_rec('Z',&z,1);
	resflush();
	_exit(0);
}

static int readn(int fd, void *p, size_t n) { unsigned char *c=p; while (n) { ssize_t k=read(fd,c,n); if (k==0) return 0; if (k<0) { if (errno==EINTR) continue; return 0; } c+=k; n-=k; } return 1; }
static int writen(int fd, const void *p, size_t n) { const unsigned char *c=p; while (n) { ssize_t k=write(fd,c,n); if (k<0) { if (errno==EINTR) continue; return 0; } c+=k; n-=k; } return 1; }
static void sendfd(int fd) {
	off_t n = lseek(fd,0,SEEK_END); if (n<0) n=0;
	off_t cap = 64<<20; if (n>cap) n=cap;
	uint32_t l=n; writen(4,&l,4);
	lseek(fd,0,SEEK_SET);
	static char b[1<<16];
	while (n) { ssize_t k=read(fd,b,n<(off_t)sizeof b?(size_t)n:sizeof b); if (k<=0) { memset(b,0,sizeof b); k = n<(off_t)sizeof b?n:(off_t)sizeof b; } writen(4,b,k); n-=k; }
}

int main(void)
{
	/* fds: 3 = requests, 4 = answers */
	struct rlimit rl = { 512u<<20, 512u<<20 };
	if (getrlimit(RLIMIT_STACK,&rl)==0 && rl.rlim_cur < (512u<<20) && !getenv("NRUN_STACK")) {
		rl.rlim_cur = 512u<<20; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < rl.rlim_cur) rl.rlim_cur = rl.rlim_max;
		if (setrlimit(RLIMIT_STACK,&rl)==0) { setenv("NRUN_STACK","1",1); execl("/proc/self/exe","nrun",NULL); }
	}
	dup2(0,3); dup2(1,4);
	prctl(PR_SET_PDEATHSIG,SIGKILL);
	signal(SIGPIPE,SIG_IGN);
	tab = mmap(NULL,sizeof(Ent)*TAB,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
	fd_out=memfd_create("o",0); fd_err=memfd_create("e",0); fd_rin=memfd_create("ri",0);
	fd_rout=memfd_create("ro",0); fd_rerr=memfd_create("re",0); fd_res=memfd_create("rs",0);
	unsigned char *buf=NULL; size_t cap=0;
	for (;;) {
		uint32_t len, wall;
		if (!readn(3,&len,4) || !readn(3,&wall,4)) return 0;
		if (len+16>cap) { cap=len+16; buf=__real_realloc(buf,cap); }
		if (!readn(3,buf,len)) return 0;
		memset(buf+len,0,16);
		int fs[6]={fd_out,fd_err,fd_rin,fd_rout,fd_rerr,fd_res};
		for (int i=0;i<6;i++) { if (ftruncate(fs[i],0)) {} lseek(fs[i],0,SEEK_SET); }
		pid_t pid=fork();
		if (pid==0) { signal(SIGPIPE,SIG_DFL); prctl(PR_SET_PDEATHSIG,SIGKILL); close(3); close(4); child(buf,len); _exit(98); }
		int st=0; struct rusage ru; memset(&ru,0,sizeof ru);
		uint32_t timed_out=0;
		if (pid<0) { st=-1; }
		else {
			/* wait with a wall-clock backstop (inconclusive if hit) */
			struct timespec ts={0,0}; (void)ts;
			sigset_t m; sigemptyset(&m); sigaddset(&m,SIGCHLD); sigprocmask(SIG_BLOCK,&m,NULL);
			struct timespec lim={wall,0};
			for (;;) {
				pid_t w=wait4(pid,&st,WNOHANG,&ru);
				if (w==pid) break;
				int s=sigtimedwait(&m,NULL,&lim);
				if (s<0 && errno==EAGAIN) { kill(pid,SIGKILL); timed_out=1; wait4(pid,&st,0,&ru); break; }
			}
		}
		int32_t sst=st; writen(4,&sst,4); writen(4,&timed_out,4);
		uint32_t cpu=ru.ru_utime.tv_sec*1000+ru.ru_utime.tv_usec/1000+ru.ru_stime.tv_sec*1000+ru.ru_stime.tv_usec/1000;
		uint32_t rss=ru.ru_maxrss; writen(4,&cpu,4); writen(4,&rss,4);
		sendfd(fd_out); sendfd(fd_err); sendfd(fd_rout); sendfd(fd_rerr); sendfd(fd_res);
	}
}
