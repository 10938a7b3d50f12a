// Conformance driver for the SQL layer (address_standardizer.c, std_pg_hash.c)
// on the runtime of pgstub.c.  One JSON command per line, one reply per line.
// The creation, use and release of lexicons and grammars is observed by
// wrapping the library entry points; there is no oracle here.
#include <boost/json.hpp>
#include <iostream>
#include <map>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <unistd.h>
#include <signal.h>
#include "address_standardizer.h"
#include "pgstub.h"

namespace js = boost::json;
typedef std::string S;
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));

static S str(const js::object &o, const char *k, const char *d = "") { auto p = o.if_contains(k); return p ? S(p->as_string().c_str(), p->as_string().size()) : S(d); }

// ---- observation: who is alive
struct Live { int id; };
static std::map<void *, Live> lexs, gmrs;
static int serial = 0;
static js::array *events = nullptr;
static void ev(const char *what, int id, int id2 = 0) { if (events) events->push_back(js::array{ what, id, id2 }); }

extern "C" {
void *__real_getLexiconPtr(char *, char **); void *__real_getGrammarPtr(char *, char **);
void __real_freeLexiconPtr(void *); void __real_freeGrammarPtr(void *);
STDADDR *__real_std_standardize_ptrs(char *, void *, void *, char *, char *, char **);
void *__wrap_getLexiconPtr(char *t, char **e) { void *p = __real_getLexiconPtr(t, e); if (p) { lexs[p] = Live{ ++serial }; ev("newl", serial); } return p; }
void *__wrap_getGrammarPtr(char *t, char **e) { void *p = __real_getGrammarPtr(t, e); if (p) { gmrs[p] = Live{ ++serial }; ev("newg", serial); } return p; }
void __wrap_freeLexiconPtr(void *p) { auto i = lexs.find(p); if (i == lexs.end()) { ev("badfree", 0); return; } ev("freel", i->second.id); lexs.erase(i); __real_freeLexiconPtr(p); }
void __wrap_freeGrammarPtr(void *p) { auto i = gmrs.find(p); if (i == gmrs.end()) { ev("badfree", 0); return; } ev("freeg", i->second.id); gmrs.erase(i); __real_freeGrammarPtr(p); }
STDADDR *__wrap_std_standardize_ptrs(char *a, void *g, void *l, char *loc, char *f, char **e)
{
    auto i = lexs.find(l), j = gmrs.find(g);
    int li = i == lexs.end() ? 0 : i->second.id, gi = j == gmrs.end() ? 0 : j->second.id;
    ev("use", li, gi);
    if (!li || !gi) { *e = NULL; return NULL; }      // a dead one: recorded, not touched
    return __real_std_standardize_ptrs(a, g, l, loc, f, e);
}
}

struct Site { void *p; S st; std::vector<S> names; };
static std::map<S, void *> stmts;
static std::map<S, Site> sites;

static js::object run(const js::object &c)
{
    js::object r;
    js::array evs;
    S op = str(c, "op");
    if (op == "begin") { stmts[str(c, "st")] = pg_stmt_new(); r["ok"] = true; }
    else if (op == "site") {
        Site s; s.st = str(c, "st"); S types;
        for (auto &k : c.at("out").as_array()) { auto &a = k.as_array(); s.names.push_back(S(a[0].as_string())); types += S(a[1].as_string()); }
        s.p = pg_site_new(stmts.at(s.st), str(c, "fn").c_str(), types.c_str(), c.if_contains("set") && c.at("set").as_bool());
        sites[str(c, "site")] = s; r["ok"] = true;
    }
    else if (op == "call") {
        Site &s = sites.at(str(c, "site"));
        std::vector<S> a; std::vector<const char *> ap; std::vector<int> al;
        for (auto &k : c.at("args").as_array()) a.push_back(S(k.as_string().c_str(), k.as_string().size()));
        for (auto &k : a) { ap.push_back(k.data()); al.push_back((int) k.size()); }
        PgRow row; char *err = NULL;
        events = &evs;
        int res = pg_call(s.p, (int) a.size(), ap.data(), al.data(), c.if_contains("flags") ? (int) c.at("flags").as_int64() : 0, &row, &err);
        events = nullptr;
        if (res == PG_ERR) { r["k"] = "err"; r["e"] = err ? err : ""; free(err); }
        else if (res == PG_DONE) r["k"] = "done";
        else if (res == PG_NULL) r["k"] = "null";
        else {
            r["k"] = res == PG_ROW ? "row" : "one";
            js::array v, nm; 
            for (int i = 0; i < row.natts; ++i) v.push_back(row.isnull[i] ? js::value(nullptr) : js::value(row.val[i]));
            for (auto &n : s.names) nm.push_back(js::value(n));
            r["v"] = v; r["n"] = nm;
            pg_row_free(&row);
        }
        r["ev"] = evs;
    }
    else if (op == "stop") { pg_site_stop(sites.at(str(c, "site")).p); r["ok"] = true; }
    else if (op == "end") {
        S st = str(c, "st");
        for (auto i = sites.begin(); i != sites.end();) if (i->second.st == st) { pg_site_stop(i->second.p); ++i; } else ++i;
        events = &evs;
        pg_stmt_end(stmts.at(st));
        events = nullptr;
        for (auto i = sites.begin(); i != sites.end();) if (i->second.st == st) { pg_site_drop(i->second.p); i = sites.erase(i); } else ++i;
        stmts.erase(st);
        r["ev"] = evs;
    }
    else if (op == "mem") {
        r["heap"] = (long) (__sanitizer_get_current_allocated_bytes ? __sanitizer_get_current_allocated_bytes() : mallinfo2().uordblks);
        r["stmt"] = str(c, "st").empty() ? 0L : pg_stmt_bytes(stmts.at(str(c, "st")));
        r["live"] = (long) (lexs.size() + gmrs.size());
    }
    else r["badop"] = op;
    return r;
}

static void onalarm(int) { const char m[] = "{\"timeout\":true}\n"; ssize_t k = write(1, m, sizeof m - 1); (void) k; _exit(3); }

int main(int argc, char **argv)
{
    int lim = argc > 1 ? atoi(argv[1]) : 20;
    signal(SIGALRM, onalarm);
    S line; line.reserve(4 << 20);
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        js::object r;
        auto v = js::parse(line);
        auto &o = v.as_object();
        alarm((unsigned) lim);
        try { r = run(o); }
        catch (std::exception &e) { r.clear(); r["exc"] = e.what(); }
        alarm(0);
        S out = js::serialize(r); out += "\n";
        size_t off = 0; while (off < out.size()) { ssize_t k = write(1, out.data() + off, out.size() - off); if (k <= 0) return 4; off += (size_t) k; }
    }
    _exit(0);
}
