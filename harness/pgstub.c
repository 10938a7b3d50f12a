#include "postgres.h"
#include "fmgr.h"
#include "funcapi.h"
#include "miscadmin.h"
#include "access/htup_details.h"
#include "access/tupdesc.h"
#include "catalog/pg_type.h"
#include "utils/builtins.h"
#include "utils/hsearch.h"
#include "utils/memutils.h"
#include "nodes/memnodes.h"
#include "common/hashfn.h"
#include <setjmp.h>
#include <stdlib.h>
#include <string.h>
#include "pgstub.h"

#undef snprintf
#undef vsnprintf
#undef fprintf
#undef sprintf
#undef printf
#undef vfprintf
#undef vsprintf
#undef vprintf
#undef strerror
int pg_vsnprintf(char *b, size_t n, const char *f, va_list a) { return vsnprintf(b, n, f, a); }
int pg_snprintf(char *b, size_t n, const char *f, ...) { int r; va_list a; va_start(a, f); r = vsnprintf(b, n, f, a); va_end(a); return r; }
int pg_sprintf(char *b, const char *f, ...) { int r; va_list a; va_start(a, f); r = vsprintf(b, f, a); va_end(a); return r; }
int pg_fprintf(FILE *h, const char *f, ...) { int r; va_list a; va_start(a, f); r = vfprintf(h, f, a); va_end(a); return r; }
int pg_printf(const char *f, ...) { int r; va_list a; va_start(a, f); r = vprintf(f, a); va_end(a); return r; }
#undef malloc
#undef free
#undef strdup

/* ---- memory contexts ---------------------------------------------------- */

typedef struct Blk { struct Blk *prev, *next; struct Ctx *ctx; Size size; uint64 magic; uint64 pad; } Blk;
#define BLKMAGIC 0x5041u
typedef struct Ctx { MemoryContextData d; Blk *blks; int arena; } Ctx;

/* As in PostgreSQL, addresses come back: the context of the next call begins where the one of the
   last call began, a new context stands where a deleted one stood, and arguments arrive at the same
   place.  Under AddressSanitizer everything is allocated apart, so a stale use is seen. */
#if defined(__SANITIZE_ADDRESS__)
#define REUSE 0
#elif defined(__has_feature)
#if __has_feature(address_sanitizer)
#define REUSE 0
#else
#define REUSE 1
#endif
#else
#define REUSE 1
#endif
#define ARENA (8u << 20)
static char *arena = NULL;
static Size arenatop = 0;
static Ctx *deadctx = NULL;

MemoryContext CurrentMemoryContext = NULL;
MemoryContext TopMemoryContext = NULL;
MemoryContext ErrorContext = NULL;
MemoryContext CacheMemoryContext = NULL, MessageContext = NULL, TopTransactionContext = NULL, CurTransactionContext = NULL, PortalContext = NULL;

static void fatal(const char *m) { fprintf(stderr, "ERROR: pgstub: %s\n", m); abort(); }

static MemoryContext ctx_new(MemoryContext parent, const char *name)
{
    Ctx *c;
    if (REUSE && deadctx) { c = deadctx; deadctx = (Ctx *) c->blks; memset(c, 0, sizeof *c); }
    else c = calloc(1, sizeof *c);
    c->d.type = T_AllocSetContext; c->d.name = name; c->d.parent = parent;
    if (parent) {
        c->d.nextchild = parent->firstchild;
        if (parent->firstchild) parent->firstchild->prevchild = &c->d;
        parent->firstchild = &c->d;
    }
    return &c->d;
}
static void top(void) { if (!TopMemoryContext) { TopMemoryContext = ctx_new(NULL, "TopMemoryContext"); CacheMemoryContext = ErrorContext = MessageContext = TopTransactionContext = CurTransactionContext = PortalContext = TopMemoryContext; CurrentMemoryContext = TopMemoryContext; } }

MemoryContext AllocSetContextCreateInternal(MemoryContext parent, const char *name, Size a, Size b, Size c) { return ctx_new(parent, name); }

static void freeblks(Ctx *c) { while (c->blks) { Blk *b = c->blks; c->blks = b->next; b->magic = 0; if (!b->pad) free(b); } }
static void callbacks(MemoryContext c) { MemoryContextCallback *cb; while ((cb = c->reset_cbs) != NULL) { c->reset_cbs = cb->next; cb->func(cb->arg); } }

void *MemoryContextAlloc(MemoryContext c, Size n)
{
    Ctx *x = (Ctx *) c;
    Blk *b;
    if (!c) fatal("allocation in no context");
    if (REUSE && x->arena && arenatop + sizeof(Blk) + n + 16 <= ARENA) {
        b = (Blk *) (arena + arenatop); arenatop += (sizeof(Blk) + n + 15) & ~(Size) 15; b->pad = 1;
    } else { b = malloc(sizeof(Blk) + n); b->pad = 0; }
    b->size = n; b->ctx = x; b->magic = BLKMAGIC; b->prev = NULL; b->next = x->blks;
    if (x->blks) x->blks->prev = b;
    x->blks = b;
    memset(b + 1, 0x7f, n);                       /* as CLOBBER_FREED_MEMORY builds do */
    return b + 1;
}
void *MemoryContextAllocZero(MemoryContext c, Size n) { void *p = MemoryContextAlloc(c, n); memset(p, 0, n); return p; }
void *MemoryContextAllocZeroAligned(MemoryContext c, Size n) { return MemoryContextAllocZero(c, n); }
void *MemoryContextAllocExtended(MemoryContext c, Size n, int flags) { return MemoryContextAllocZero(c, n); }
void *palloc(Size n) { return MemoryContextAlloc(CurrentMemoryContext, n); }
void *palloc0(Size n) { return MemoryContextAllocZero(CurrentMemoryContext, n); }
void *palloc_extended(Size n, int f) { return palloc0(n); }
void pfree(void *p)
{
    Blk *b = (Blk *) p - 1;
    if (!p) fatal("pfree of NULL");
    if (b->magic != BLKMAGIC) fatal("pfree of a block that is not allocated");
    if (b->prev) b->prev->next = b->next; else b->ctx->blks = b->next;
    if (b->next) b->next->prev = b->prev;
    b->magic = 0;
    if (!b->pad) free(b);
}
void *repalloc(void *p, Size n)
{
    Blk *b = (Blk *) p - 1; void *q = MemoryContextAlloc(&b->ctx->d, n);
    memcpy(q, p, b->size < n ? b->size : n); pfree(p); return q;
}
char *MemoryContextStrdup(MemoryContext c, const char *s) { char *r = MemoryContextAlloc(c, strlen(s) + 1); strcpy(r, s); return r; }
char *pstrdup(const char *s) { return MemoryContextStrdup(CurrentMemoryContext, s); }
char *pnstrdup(const char *s, Size n) { char *r; n = strnlen(s, n); r = palloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
char *psprintf(const char *f, ...)
{
    va_list a; int n; char *r;
    va_start(a, f); n = vsnprintf(NULL, 0, f, a); va_end(a);
    r = palloc(n + 1);
    va_start(a, f); vsnprintf(r, n + 1, f, a); va_end(a);
    return r;
}
void MemoryContextRegisterResetCallback(MemoryContext c, MemoryContextCallback *cb) { cb->next = c->reset_cbs; c->reset_cbs = cb; c->isReset = false; }
static void unlinkctx(MemoryContext c)
{
    if (c->prevchild) c->prevchild->nextchild = c->nextchild; else if (c->parent) c->parent->firstchild = c->nextchild;
    if (c->nextchild) c->nextchild->prevchild = c->prevchild;
    c->parent = c->prevchild = c->nextchild = NULL;
}
void MemoryContextDeleteChildren(MemoryContext c) { while (c->firstchild) MemoryContextDelete(c->firstchild); }
void MemoryContextDelete(MemoryContext c)
{
    if (c == CurrentMemoryContext) fatal("deleting the current memory context");
    if (c->type != T_AllocSetContext) fatal("deleting a memory context that does not exist");
    MemoryContextDeleteChildren(c);
    callbacks(c);
    unlinkctx(c);
    freeblks((Ctx *) c);
    c->type = 0;
    if (REUSE) { ((Ctx *) c)->blks = (Blk *) deadctx; deadctx = (Ctx *) c; } else free(c);
}
void MemoryContextResetOnly(MemoryContext c) { callbacks(c); freeblks((Ctx *) c); }
void MemoryContextReset(MemoryContext c) { MemoryContextDeleteChildren(c); MemoryContextResetOnly(c); }
MemoryContext GetMemoryChunkContext(void *p) { return &((Blk *) p - 1)->ctx->d; }
Size GetMemoryChunkSpace(void *p) { return ((Blk *) p - 1)->size; }
MemoryContext MemoryContextGetParent(MemoryContext c) { return c->parent; }
static long ctx_bytes(MemoryContext c)
{
    long n = 0; Blk *b; MemoryContext k;
    for (b = ((Ctx *) c)->blks; b; b = b->next) n += (long) b->size;
    for (k = c->firstchild; k; k = k->nextchild) n += 64 + ctx_bytes(k);
    return n;
}

/* ---- errors ------------------------------------------------------------- */

static sigjmp_buf *handler = NULL;
static char *errtext = NULL;
static int errlev = 0;
sigjmp_buf *PG_exception_stack = NULL;
ErrorContextCallback *error_context_stack = NULL;

bool errstart(int elevel, const char *domain) { errlev = elevel; return elevel >= ERROR; }
bool errstart_cold(int elevel, const char *domain) { return errstart(elevel, domain); }
static int vset(const char *f, va_list a) { char b[4096]; vsnprintf(b, sizeof b, f, a); free(errtext); errtext = strdup(b); return 0; }
int errmsg_internal(const char *f, ...) { va_list a; va_start(a, f); vset(f, a); va_end(a); return 0; }
int errmsg(const char *f, ...) { va_list a; va_start(a, f); vset(f, a); va_end(a); return 0; }
int errdetail(const char *f, ...) { return 0; }
int errhint(const char *f, ...) { return 0; }
int errcode(int c) { return 0; }
void errfinish(const char *file, int line, const char *func)
{
    if (errlev < ERROR) return;
    if (PG_exception_stack) siglongjmp(*PG_exception_stack, 1);
    if (!handler) fatal(errtext ? errtext : "error outside a call");
    siglongjmp(*handler, 1);
}
void pg_re_throw(void) { if (PG_exception_stack) siglongjmp(*PG_exception_stack, 1); siglongjmp(*handler, 1); }
void ProcessInterrupts(void) { }
volatile sig_atomic_t InterruptPending = false;

/* ---- hash tables -------------------------------------------------------- */

typedef struct Ent { struct Ent *next; } Ent;
struct HTAB { Size ksz, esz; int str; HashCompareFunc match; Ent *list, *spare; };
static int samekey(HTAB *h, const void *a, const void *b) { return h->match ? !h->match(a, b, h->ksz) : h->str ? !strncmp(a, b, h->ksz - 1) : !memcmp(a, b, h->ksz); }
HTAB *hash_create(const char *name, long n, const HASHCTL *info, int flags)
{
    HTAB *h = calloc(1, sizeof *h);
    if (!(flags & HASH_ELEM)) fatal("hash_create without HASH_ELEM");
    h->ksz = info->keysize; h->esz = info->entrysize;
    h->str = flags & HASH_FUNCTION ? info->hash == string_hash : !(flags & HASH_BLOBS);      /* keys are strings unless said otherwise */
    if (flags & HASH_COMPARE) h->match = info->match;
    return h;
}
void *hash_search(HTAB *h, const void *key, HASHACTION act, bool *found)
{
    Ent **p, *e;
    for (p = &h->list; *p; p = &(*p)->next) if (samekey(h, *p + 1, key)) break;
    e = *p;
    if (found) *found = e != NULL;
    switch (act) {
        case HASH_FIND: return e ? e + 1 : NULL;
        case HASH_REMOVE:
            if (!e) return NULL;
            *p = e->next; e->next = h->spare; h->spare = e;      /* the entry can be read until the next insertion */
            return e + 1;
        default:
            if (e) return e + 1;
            if (h->spare) { e = h->spare; h->spare = e->next; } else e = malloc(sizeof(Ent) + h->esz);
            memset(e + 1, 0x7f, h->esz);
            if (h->str) { strncpy((char *) (e + 1), key, h->ksz); ((char *) (e + 1))[h->ksz - 1] = 0; } else memcpy(e + 1, key, h->ksz);
            e->next = h->list; h->list = e;
            return e + 1;
    }
}
void hash_destroy(HTAB *h) { Ent *e; while ((e = h->list)) { h->list = e->next; free(e); } while ((e = h->spare)) { h->spare = e->next; free(e); } free(h); }
void hash_seq_init(HASH_SEQ_STATUS *q, HTAB *h) { q->hashp = h; q->curEntry = (HASHELEMENT *) h->list; }
void *hash_seq_search(HASH_SEQ_STATUS *q) { Ent *e = (Ent *) q->curEntry; if (!e) return NULL; q->curEntry = (HASHELEMENT *) e->next; return e + 1; }
void hash_seq_term(HASH_SEQ_STATUS *q) { q->curEntry = NULL; }
long hash_get_num_entries(HTAB *h) { long n = 0; Ent *e; for (e = h->list; e; e = e->next) n++; return n; }
uint32 hash_bytes(const unsigned char *k, int n) { uint32 h = 2166136261u; while (n--) h = (h ^ *k++) * 16777619u; return h; }
uint32 tag_hash(const void *k, Size n) { return hash_bytes(k, (int) n); }
uint32 string_hash(const void *k, Size n) { return hash_bytes(k, (int) strnlen(k, n)); }
uint32 uint32_hash(const void *k, Size n) { return hash_bytes(k, (int) n); }

/* ---- texts -------------------------------------------------------------- */

text *cstring_to_text_with_len(const char *s, int n) { text *t = palloc(n + VARHDRSZ); SET_VARSIZE(t, n + VARHDRSZ); memcpy(VARDATA(t), s, n); return t; }
text *cstring_to_text(const char *s) { return cstring_to_text_with_len(s, (int) strlen(s)); }
struct varlena *pg_detoast_datum_packed(struct varlena *d) { return d; }
struct varlena *pg_detoast_datum_copy(struct varlena *d) { return (struct varlena *) cstring_to_text_with_len(VARDATA_ANY(d), VARSIZE_ANY_EXHDR(d)); }
struct varlena *pg_detoast_datum(struct varlena *d) { return VARATT_IS_SHORT(d) ? pg_detoast_datum_copy(d) : d; }
char *text_to_cstring(const text *t) { return pnstrdup(VARDATA_ANY(t), VARSIZE_ANY_EXHDR(t)); }
void text_to_cstring_buffer(const text *t, char *d, size_t n) { size_t k = VARSIZE_ANY_EXHDR(t); if (k >= n) k = n - 1; memcpy(d, VARDATA_ANY(t), k); d[k] = 0; }

void initStringInfo(StringInfo s) { s->maxlen = 1024; s->data = palloc(s->maxlen); resetStringInfo(s); }
StringInfo makeStringInfo(void) { StringInfo s = palloc(sizeof *s); initStringInfo(s); return s; }
void resetStringInfo(StringInfo s) { s->data[0] = 0; s->len = 0; s->cursor = 0; }
void enlargeStringInfo(StringInfo s, int n) { while (s->maxlen < s->len + n + 1) s->data = repalloc(s->data, s->maxlen *= 2); }
void appendBinaryStringInfo(StringInfo s, const void *d, int n) { enlargeStringInfo(s, n); memcpy(s->data + s->len, d, n); s->len += n; s->data[s->len] = 0; }
void appendStringInfoString(StringInfo s, const char *d) { appendBinaryStringInfo(s, d, (int) strlen(d)); }
void appendStringInfoChar(StringInfo s, char c) { appendBinaryStringInfo(s, &c, 1); }
void appendStringInfo(StringInfo s, const char *f, ...)
{
    va_list a; int n;
    va_start(a, f); n = vsnprintf(NULL, 0, f, a); va_end(a);
    enlargeStringInfo(s, n);
    va_start(a, f); vsnprintf(s->data + s->len, n + 1, f, a); va_end(a);
    s->len += n;
}
int pg_strcasecmp(const char *a, const char *b) { return strcasecmp(a, b); }
int pg_strncasecmp(const char *a, const char *b, size_t n) { return strncasecmp(a, b, n); }
char *pchomp(const char *in) { size_t n = strlen(in); while (n > 0 && in[n - 1] == '\n') n--; return pnstrdup(in, n); }

/* ---- call sites and rows ------------------------------------------------ */

typedef struct Site { FmgrInfo fl; PGFunction fn; char types[64]; int set; MemoryContext stmt; ReturnSetInfo rsi; void *shut; } Site;
static Site *cur = NULL;

TupleDesc CreateTemplateTupleDesc(int n)
{
    TupleDesc d = palloc0(offsetof(struct TupleDescData, attrs) + n * sizeof(FormData_pg_attribute));
    d->natts = n; d->tdtypeid = RECORDOID; d->tdtypmod = -1; d->tdrefcount = -1;
    return d;
}
TupleDesc CreateTupleDescCopy(TupleDesc s)
{
    Size n = offsetof(struct TupleDescData, attrs) + s->natts * sizeof(FormData_pg_attribute);
    TupleDesc d = palloc(n); memcpy(d, s, n); return d;
}
TypeFuncClass get_call_result_type(FunctionCallInfo fcinfo, Oid *oid, TupleDesc *desc)
{
    Site *s = cur; int i, n = (int) strlen(s->types);
    if (oid) *oid = n ? RECORDOID : TEXTOID;
    if (!n) { if (desc) *desc = NULL; return TYPEFUNC_SCALAR; }
    if (!desc) return TYPEFUNC_COMPOSITE;
    *desc = CreateTemplateTupleDesc(n);
    for (i = 0; i < n; i++) (*desc)->attrs[i].atttypid = s->types[i] == 'i' ? INT4OID : s->types[i] == 'f' ? FLOAT8OID : TEXTOID;
    return TYPEFUNC_COMPOSITE;
}
TupleDesc BlessTupleDesc(TupleDesc d) { d->tdtypmod = 1; return d; }
AttInMetadata *TupleDescGetAttInMetadata(TupleDesc d)
{
    AttInMetadata *a = palloc0(sizeof *a);
    a->tupdesc = BlessTupleDesc(d);
    return a;
}
#define ROWMAGIC 0x524f5721
typedef struct { int magic, natts; int *isnull; char *type; char **val; } Row;
static Row *newrow(int n)
{
    Row *r = palloc(sizeof *r);
    r->magic = ROWMAGIC; r->natts = n; r->isnull = palloc0(n * sizeof(int)); r->type = palloc0(n + 1); r->val = palloc0(n * sizeof(char *));
    return r;
}
static HeapTuple astuple(Row *r) { HeapTuple t = palloc0(sizeof *t); t->t_data = (HeapTupleHeader) r; t->t_len = 1; return t; }
HeapTuple heap_form_tuple(TupleDesc d, Datum *values, bool *nulls)
{
    Row *r = newrow(d->natts); int i; char b[64];
    if (d->tdtypmod < 0) fatal("heap_form_tuple with a descriptor that was not blessed");
    for (i = 0; i < d->natts; i++) {
        Oid t = d->attrs[i].atttypid;
        r->type[i] = t == INT4OID ? 'i' : t == FLOAT8OID ? 'f' : 't';
        if (nulls[i]) { r->isnull[i] = 1; continue; }
        if (t == INT4OID) { snprintf(b, sizeof b, "%d", DatumGetInt32(values[i])); r->val[i] = pstrdup(b); }
        else if (t == FLOAT8OID) { snprintf(b, sizeof b, "%.17g", DatumGetFloat8(values[i])); r->val[i] = pstrdup(b); }
        else r->val[i] = text_to_cstring((text *) DatumGetPointer(values[i]));
    }
    return astuple(r);
}
HeapTuple BuildTupleFromCStrings(AttInMetadata *a, char **values)
{
    TupleDesc d = a->tupdesc; Row *r = newrow(d->natts); int i;
    for (i = 0; i < d->natts; i++) {
        r->type[i] = 't';
        if (!values[i]) r->isnull[i] = 1; else r->val[i] = pstrdup(values[i]);
    }
    return astuple(r);
}
void heap_freetuple(HeapTuple t) { pfree(t); }
HeapTuple heap_copytuple(HeapTuple t) { HeapTuple r = palloc(sizeof *r); *r = *t; return r; }
void FreeTupleDesc(TupleDesc d) { pfree(d); }
void DecrTupleDescRefCount(TupleDesc d) { }
void IncrTupleDescRefCount(TupleDesc d) { }
Datum HeapTupleHeaderGetDatum(HeapTupleHeader h) { return PointerGetDatum(h); }

/* as in funcapi.c */
static void shutdown_MultiFuncCall(Datum arg)
{
    FmgrInfo *fl = (FmgrInfo *) DatumGetPointer(arg);
    FuncCallContext *f = (FuncCallContext *) fl->fn_extra;
    fl->fn_extra = NULL;
    MemoryContextDelete(f->multi_call_memory_ctx);
}
FuncCallContext *init_MultiFuncCall(PG_FUNCTION_ARGS)
{
    FuncCallContext *f;
    if (fcinfo->resultinfo == NULL || !IsA(fcinfo->resultinfo, ReturnSetInfo)) elog(ERROR, "set-valued function called in context that cannot accept a set");
    if (fcinfo->flinfo->fn_extra == NULL) {
        MemoryContext c = AllocSetContextCreate(fcinfo->flinfo->fn_mcxt, "SRF multi-call context", ALLOCSET_SMALL_SIZES);
        f = (FuncCallContext *) MemoryContextAllocZero(c, sizeof(FuncCallContext));
        f->multi_call_memory_ctx = c;
        fcinfo->flinfo->fn_extra = f;
        cur->shut = f;
    }
    else { elog(ERROR, "init_MultiFuncCall cannot be called more than once"); f = NULL; }
    return f;
}
FuncCallContext *per_MultiFuncCall(PG_FUNCTION_ARGS) { return (FuncCallContext *) fcinfo->flinfo->fn_extra; }
void end_MultiFuncCall(PG_FUNCTION_ARGS, FuncCallContext *f) { cur->shut = NULL; shutdown_MultiFuncCall(PointerGetDatum(fcinfo->flinfo)); }

/* ---- the interface of the driver ---------------------------------------- */

extern Datum as_compile_lexicon(PG_FUNCTION_ARGS), as_standardize(PG_FUNCTION_ARGS), as_parse(PG_FUNCTION_ARGS), as_match(PG_FUNCTION_ARGS);

void *pg_stmt_new(void) { top(); return ctx_new(TopMemoryContext, "ExecutorState"); }
long pg_stmt_bytes(void *s) { return ctx_bytes(s); }
void pg_stmt_end(void *s) { MemoryContext o = CurrentMemoryContext; CurrentMemoryContext = TopMemoryContext; MemoryContextDelete(s); CurrentMemoryContext = o; }
void *pg_site_new(void *stmt, const char *fn, const char *types, int set)
{
    Site *s = calloc(1, sizeof *s);
    s->fn = !strcmp(fn, "as_standardize") ? as_standardize : !strcmp(fn, "as_parse") ? as_parse : !strcmp(fn, "as_match") ? as_match : !strcmp(fn, "as_compile_lexicon") ? as_compile_lexicon : NULL;
    if (!s->fn) fatal("no such function");
    snprintf(s->types, sizeof s->types, "%s", types);
    s->set = set; s->stmt = stmt;
    s->fl.fn_addr = s->fn; s->fl.fn_oid = 1; s->fl.fn_strict = true; s->fl.fn_retset = set; s->fl.fn_mcxt = stmt; s->fl.fn_extra = NULL;
    return s;
}
void pg_site_drop(void *p) { free(p); }
int pg_site_busy(void *p) { return ((Site *) p)->shut != NULL; }
void pg_site_stop(void *p)
{
    Site *s = p; MemoryContext o = CurrentMemoryContext;
    CurrentMemoryContext = TopMemoryContext;
    if (s->shut) { s->shut = NULL; shutdown_MultiFuncCall(PointerGetDatum(&s->fl)); }
    CurrentMemoryContext = o;
}
static void copyout(PgRow *o, int natts, int *isnull, char *type, char **val)
{
    int i;
    o->natts = natts; o->isnull = calloc(natts + 1, sizeof(int)); o->type = calloc(natts + 1, 1); o->val = calloc(natts + 1, sizeof(char *));
    for (i = 0; i < natts; i++) { o->isnull[i] = isnull[i]; o->type[i] = type[i]; o->val[i] = isnull[i] ? NULL : strdup(val[i]); }
}
void pg_row_free(PgRow *o) { int i; for (i = 0; i < o->natts; i++) free(o->val[i]); free(o->val); free(o->isnull); free(o->type); memset(o, 0, sizeof *o); }

static void *argspace(int i, Size n)
{
    static void *place[16]; static Size room[16];
    if (!REUSE) return malloc(n);
    if (room[i] < n) { free(place[i]); room[i] = n + 65536; place[i] = malloc(room[i]); }
    return place[i];
}

int pg_call(void *p, int nargs, const char **args, const int *lens, int flags, PgRow *row, char **err)
{
    Site *s = p;
    LOCAL_FCINFO(fcinfo, 16);
    MemoryContext tup;
    volatile int res = PG_ERR;
    sigjmp_buf jb;
    void *vol[16];
    int i;
    memset(row, 0, sizeof *row);
    top();
    tup = ctx_new(TopMemoryContext, "ExprContext");
    if (REUSE) { if (!arena) arena = malloc(ARENA); arenatop = 0; ((Ctx *) tup)->arena = 1; }
    memset(&s->rsi, 0, sizeof s->rsi);
    s->rsi.type = T_ReturnSetInfo; s->rsi.allowedModes = SFRM_ValuePerCall; s->rsi.returnMode = SFRM_ValuePerCall; s->rsi.isDone = ExprSingleResult;
    InitFunctionCallInfoData(*fcinfo, &s->fl, nargs, InvalidOid, NULL, s->set ? (fmNodePtr) &s->rsi : NULL);
    for (i = 0; i < nargs; i++) {
        int n = lens[i];
        if ((flags & 1) && n + VARHDRSZ_SHORT <= VARATT_SHORT_MAX) {
            vol[i] = argspace(i, n + VARHDRSZ_SHORT); SET_VARSIZE_SHORT(vol[i], n + VARHDRSZ_SHORT); memcpy(VARDATA_SHORT(vol[i]), args[i], n);
        } else {
            vol[i] = argspace(i, n + VARHDRSZ); SET_VARSIZE(vol[i], n + VARHDRSZ); memcpy(VARDATA(vol[i]), args[i], n);
        }
        fcinfo->args[i].value = PointerGetDatum(vol[i]); fcinfo->args[i].isnull = false;
    }
    cur = s; handler = &jb; PG_exception_stack = NULL;
    if (sigsetjmp(jb, 0) == 0) {
        Datum d;
        CurrentMemoryContext = tup;
        d = s->fn(fcinfo);
        if (s->set && s->rsi.isDone == ExprEndResult) res = PG_DONE;
        else if (fcinfo->isnull) res = PG_NULL;
        else if (!s->types[0]) {
            text *t = (text *) DatumGetPointer(d); int nn = 0; char ty = 't'; char *v = pnstrdup(VARDATA_ANY(t), VARSIZE_ANY_EXHDR(t));
            copyout(row, 1, &nn, &ty, &v); res = PG_SINGLE;
        } else {
            Row *r = (Row *) DatumGetPointer(d);
            if (r->magic != ROWMAGIC) fatal("the result is no row");
            copyout(row, r->natts, r->isnull, r->type, r->val);
            res = s->set && s->rsi.isDone == ExprMultipleResult ? PG_ROW : PG_SINGLE;
        }
        *err = NULL;
    } else {
        *err = errtext; errtext = NULL; res = PG_ERR;
    }
    handler = NULL; cur = NULL;
    CurrentMemoryContext = TopMemoryContext;
    MemoryContextDelete(tup);
    if (!REUSE) for (i = 0; i < nargs; i++) free(vol[i]);
    return res;
}
