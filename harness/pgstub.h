/* A small PostgreSQL runtime: memory contexts, errors, hash tables, the call
   protocol of set-returning functions.  It follows the documented behaviour of
   the server (PostgreSQL 16); it knows nothing of the functions under test. */
#ifndef PGSTUB_H
#define PGSTUB_H
#ifdef __cplusplus
extern "C" {
#endif
typedef struct { int natts; int *isnull; char *type; char **val; } PgRow;
enum { PG_ERR = 0, PG_ROW = 1, PG_DONE = 2, PG_NULL = 3, PG_SINGLE = 4 };
void *pg_stmt_new(void);
void pg_stmt_end(void *stmt);
long pg_stmt_bytes(void *stmt);
/* types: one letter per result column (i, t, f); "" for a plain text result.  set: a set-returning function */
void *pg_site_new(void *stmt, const char *fn, const char *types, int set);
void pg_site_drop(void *site);
void pg_site_stop(void *site);             /* the executor ends the scan early (LIMIT, rescan) */
int pg_site_busy(void *site);
/* one call; args are texts of the given lengths.  flags: 1 short headers where possible */
int pg_call(void *site, int nargs, const char **args, const int *lens, int flags, PgRow *row, char **err);
void pg_row_free(PgRow *row);
#ifdef __cplusplus
}
#endif
#endif
