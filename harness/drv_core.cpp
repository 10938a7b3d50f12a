// Conformance driver for the C++ core and the C API (as_wrapper.cpp).
// Reads one JSON command per line on stdin, writes one JSON reply per line on
// stdout.  It only calls public entry points and holds no oracle: judging the
// replies is the job of the TLA+ specification.
#include <boost/json.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <iostream>
#include <sstream>
#include <memory>
#include <map>
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
#include <signal.h>
#include <sys/resource.h>

#include "token.h"
#include "lexicon.h"
#include "tokenizer.h"
#include "grammar.h"
#include "search.h"
#include "trieutf8.h"
#define ChildMap ChildMapOfBytes   // both headers declare a type of that name
#include "trie.h"
#undef ChildMap
#include "rule.h"
#include "lexentry.h"
#include "utils.h"
#include "md5.h"
#include "utf8iterator.h"
#include "address_standardizer.h"

#ifdef DRV_ASAN
extern "C" size_t __sanitizer_get_current_allocated_bytes(void);
#endif

// ---- memory that runs out: the n-th allocation made by a call (counted from 0)
// fails, and with "oomall" every one after it
static long oomAt = -1, allocs = 0, whole = 0; static bool oomAll = false, armed = false;
#ifdef DRV_MALLOC
// the same below operator new: what ICU, strdup and calloc take counts too
#include <malloc.h>
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void __libc_free(void *); }
static long live = 0;
static bool out() { if (!armed) return false; long k = allocs++; return oomAt >= 0 && (k == oomAt || (oomAll && k > oomAt)); }
static long size(void *p) { return p ? (long) malloc_usable_size(p) : 0; }
extern "C" void *malloc(size_t n) { if (out()) return NULL; void *p = __libc_malloc(n); live += size(p); return p; }
extern "C" void *calloc(size_t a, size_t b) { if (out()) return NULL; void *p = __libc_calloc(a, b); live += size(p); return p; }
extern "C" void *realloc(void *q, size_t n) { if (out()) return NULL; long o = size(q); void *p = __libc_realloc(q, n); if (p || !n) live += size(p) - o; return p; }
extern "C" void free(void *p) { live -= size(p); __libc_free(p); }
extern "C" size_t __sanitizer_get_current_allocated_bytes(void) { return live; }
static long kept(const std::string &s) { return s.capacity() > 15 ? size((void *) s.data()) : 0; }
#define DRV_ASAN
#else
static long kept(const std::string &s) { return s.capacity() > 15 ? (long) s.capacity() + 1 : 0; }
#endif
static void *take(size_t n) {
#ifndef DRV_MALLOC
    if (armed) { long k = allocs++; if (oomAt >= 0 && (k == oomAt || (oomAll && k > oomAt))) throw std::bad_alloc(); }
#endif
    void *p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p;
}
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete[](void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
void operator delete[](void *p, size_t) noexcept { free(p); }
struct Arm { Arm() { allocs = 0; armed = true; } ~Arm() { armed = false; } };
template<class F> static auto API(F f) -> decltype(f()) { Arm a; return f(); }

namespace js = boost::json;
typedef std::string S;

static S str(const js::object &o, const char *k, const char *d = "") {
    auto p = o.if_contains(k);
    return p ? S(p->as_string().c_str(), p->as_string().size()) : S(d);
}
static S unhex(const S &h) { S o; for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char) strtol(h.substr(i, 2).c_str(), NULL, 16); return o; }
// a text argument: as text, or byte by byte (key with an x) when it is no UTF-8
static S arg(const js::object &o, const char *k, const char *d = "") {
    auto p = o.if_contains(S(k) + "x");
    return p ? unhex(S(p->as_string())) : str(o, k, d);
}
static std::vector<char> cs(const S &s) { std::vector<char> v(s.begin(), s.end()); v.push_back(0); return v; }

static js::value opt(const char *p) { return p ? js::value(p) : js::value(nullptr); }

// ---- C API ----------------------------------------------------------------

static char SENT[] = "<unset>";
static js::value errval(char *e, bool &unset) { unset = (e == SENT); return unset ? js::value(nullptr) : opt(e); }

static void freeAddr(STDADDR *s) {
    char **p = (char **) s;
    for (size_t i = 0; i < sizeof(STDADDR)/sizeof(char*); ++i) free(p[i]);
    free(s);
}

static void putAddr(js::object &r, STDADDR *s, char *err) {
    bool u; r["err"] = errval(err, u); if (u) r["errunset"] = true;
    if (!u && err) free(err);
    if (!s) { r["res"] = nullptr; return; }
    js::object f;
#define F(x) f[#x] = opt(s->x);
    F(building) F(house_num) F(predir) F(qual) F(pretype) F(name) F(suftype) F(sufdir) F(ruralroute)
    F(extra) F(city) F(prov) F(country) F(postcode) F(box) F(unit) F(pattern)
#undef F
    r["res"] = f;
    freeAddr(s);
}

static void putToks(js::object &r, TOKENS *t, int n, char *err) {
    bool u; r["err"] = errval(err, u); if (u) r["errunset"] = true;
    if (!u && err) free(err);
    if (!t) { r["rows"] = nullptr; return; }
    js::array a;
    for (int i = 0; i < n; ++i) {
        js::object o; o["pat"] = t[i].pat; o["seq"] = t[i].seq; o["word"] = opt(t[i].word);
        o["inclass"] = opt(t[i].inclass); o["attached"] = opt(t[i].attached);
        a.push_back(o);
        free(t[i].word); free(t[i].inclass); free(t[i].attached);
    }
    free(t);
    r["rows"] = a;
}

static void putMatch(js::object &r, MTOKEN *t, int n, char *err) {
    bool u; r["err"] = errval(err, u); if (u) r["errunset"] = true;
    if (!u && err) free(err);
    if (!t) { r["rows"] = nullptr; return; }
    js::array a;
    for (int i = 0; i < n; ++i) {
        js::object o; o["tokens"] = opt(t[i].tokens); o["score"] = t[i].score; o["nrules"] = t[i].nrules;
        a.push_back(o);
        free(t[i].tokens);
    }
    free(t);
    r["rows"] = a;
}

static std::map<S, void*> gptr, lptr;

// ---- C++ objects ----------------------------------------------------------

static js::array clsArr(const std::set<InClass::Type> &s) { js::array a; for (auto t : s) a.push_back(js::value(InClass::asString(t))); return a; }
static js::array attArr(const std::set<InClass::AttachType> &s) { js::array a; for (auto t : s) a.push_back(js::value(InClass::asString(t))); return a; }

static js::object tokObj(const Token &t) {
    js::object o; o["t"] = t.text(); o["c"] = clsArr(t.inclass()); o["l"] = t.inLex(); return o;
}
static js::array tokArr(const std::vector<Token> &v) { js::array a; for (auto &t : v) a.push_back(tokObj(t)); return a; }

static Token mkTok(const js::value &v) {   // ["text", ["CLS",..]]
    Token t; auto &a = v.as_array();
    t.text(S(a[0].as_string()));
    for (auto &c : a[1].as_array()) t.inclass(InClass::asOneType(S(c.as_string())));
    return t;
}

static std::vector<Token> mkToks(const js::array &a) {
    std::vector<Token> v; for (auto &e : a) v.push_back(mkTok(e)); return v;
}

static js::array ruleArr(const std::vector<Rule> &rs) {
    js::array rr;
    for (auto &r : rs) {
        js::array in, out;
        for (auto c : r.in()) in.push_back(js::value(InClass::asString(c)));
        for (auto c : r.out()) out.push_back(js::value(OutClass::asString(c)));
        js::object ro; ro["in"] = in; ro["out"] = out; ro["score"] = (double) r.score();
        rr.push_back(ro);
    }
    return rr;
}

static js::object leObj(const LexEntry &e) {
    js::object o; o["w"] = e.word(); o["s"] = e.stdword(); o["t"] = clsArr(e.type()); o["a"] = attArr(e.attached()); return o;
}

static LexEntry mkLe(const js::object &o) {
    LexEntry e;
    e.word(str(o, "w")); e.stdword(str(o, "s"));
    std::set<InClass::Type> ts; for (auto &c : o.at("t").as_array()) ts.insert(InClass::asOneType(S(c.as_string())));
    e.type(ts);
    S at; for (auto &c : o.at("a").as_array()) { if (at.size()) at += ","; at += S(c.as_string()); }
    e.attached(InClass::asAttachType(at));
    return e;
}

static std::set<InClass::Type> clsSet(const js::value &v) {
    std::set<InClass::Type> s; for (auto &c : v.as_array()) s.insert(InClass::asOneType(S(c.as_string()))); return s;
}

// full match of a word against a regex string produced by the code
static bool rxMatch(const S &re, const S &w, bool icase) {
    auto r = icase ? boost::make_u32regex(re, boost::regex::icase) : boost::make_u32regex(re);
    return boost::u32regex_match(w, r);
}

static S dumpLex(const Lexicon &l) { std::ostringstream o; o << l; return o.str(); }
static S dumpGmr(const Grammar &g) { std::ostringstream o; o << g; return o.str(); }

static std::map<S, std::unique_ptr<Lexicon>> lexObj;
static std::map<S, std::unique_ptr<Grammar>> gmrObj;
static std::map<S, std::unique_ptr<Search>> schObj;
static std::map<S, std::unique_ptr<TrieUtf8>> trieObj;
static std::map<S, std::unique_ptr<Trie>> trieBytes;
template <class T> static void askTrie(T &t, const js::object &c, js::object &r) {
    js::array a, b; WordSet ws;
    for (auto &k : c.at("probe").as_array()) { S w(k.as_string()); js::array o; o.push_back(js::value(t.isWord(w))); o.push_back(js::value(t.isPrefix(w)));
        WordSet st; t.getWordsStartingWith(w, st, ""); js::array sa; for (auto &x : st) sa.push_back(js::value(x)); o.push_back(sa); a.push_back(o); }
    t.getWords(ws, ""); for (auto &x : ws) b.push_back(js::value(x));
    r["q"] = a; r["words"] = b; r["size"] = (int) t.size();
    S re = t.getRegexp(); r["re"] = re;
    js::array m; auto rx = boost::make_u32regex("^(?:" + re + ")$");
    for (auto &k : c.at("probe").as_array()) m.push_back(js::value(boost::u32regex_match(S(k.as_string()), rx)));
    r["m"] = m;
    // the longest word at the start of a text, the way the tokenizer uses it
    js::array g; auto rx2 = boost::make_u32regex("^(" + re + ")");
    if (auto p = c.if_contains("texts")) for (auto &k : p->as_array()) { S w(k.as_string()); boost::smatch mm; bool f = boost::u32regex_search(w, mm, rx2); g.push_back(js::value(f ? S(mm[1].first, mm[1].second) : S("<none>"))); }
    r["g"] = g;
}

static js::object lexState(Lexicon &lx, const js::object &c) {
    js::object r;
    r["locale"] = lx.locale(); r["lang"] = lx.langAsString();
    js::array fs;
    if (auto p = c.if_contains("keys")) for (auto &k : p->as_array()) {
        js::array es; for (auto &e : lx.find(S(k.as_string()))) es.push_back(leObj(e));
        fs.push_back(es);
    }
    r["find"] = fs;
    js::array rm;
    if (auto p = c.if_contains("probe")) {
        S re = lx.regex(); if (re.size() && re.back() == '|') re.pop_back();
        S pre = lx.regexPrefixAtt(), suf = lx.regexSuffixAtt();
        auto r1 = boost::make_u32regex("^(?:" + re + ")$");
        auto r2 = boost::make_u32regex("(" + pre + ")(.+)");
        auto r3 = boost::make_u32regex("(.+)(" + suf + ")");
        for (auto &k : p->as_array()) {
            S w(k.as_string());
            js::array one;
            one.push_back(js::value(boost::u32regex_match(w, r1)));
            boost::smatch m; S x = w;
            bool a = boost::u32regex_match(x, m, r2); one.push_back(js::value(a ? S(m[1].first, m[1].second) : S()));
            bool b = boost::u32regex_match(x, m, r3); one.push_back(js::value(b ? S(m[2].first, m[2].second) : S()));
            rm.push_back(one);
        }
    }
    r["probe"] = rm;
    return r;
}

// a grammar or lexicon can be read from a stream, from a text or from a file
static S scratch(const S &t) {
    char n[] = "/tmp/drvXXXXXX"; int fd = mkstemp(n);
    size_t off = 0; while (off < t.size()) { ssize_t k = write(fd, t.data() + off, t.size() - off); if (k <= 0) abort(); off += (size_t) k; }
    close(fd); return n;
}
struct Scratch { S name; explicit Scratch(const S &t) : name(scratch(t)) {} ~Scratch() { unlink(name.c_str()); } };
static Grammar *mkGmr(const js::object &c) {
    S t = str(c, "gmr"), via = str(c, "via");
    if (via == "text") return new Grammar(t.c_str());
    if (via == "file") { Scratch f(t); return new Grammar(f.name); }
    std::istringstream is(t); return new Grammar(is);
}
static Lexicon *mkLex(const js::object &c) {
    S t = str(c, "lex"), via = str(c, "via");
    if (via == "text") return new Lexicon(cs(t).data());
    if (via == "file") { Scratch f(t); return new Lexicon("x", f.name); }
    std::istringstream is(t); return new Lexicon("x", is);
}


// ---- values: histories of calls on two objects of a kind -------------------

static js::array chars(const S &t) {      // a text as its characters
    js::array a; size_t i = 0;
    while (i < t.size()) { unsigned char b = (unsigned char) t[i]; size_t w = b < 0x80 ? 1 : b < 0xe0 ? 2 : b < 0xf0 ? 3 : 4; a.push_back(js::value(t.substr(i, w))); i += w; }
    return a;
}
template <class T> static S dumped(const T &t) { std::ostringstream o; o << t; return o.str(); }
static std::set<InClass::Type> inSet(const js::array &a) { std::set<InClass::Type> r; for (auto &c : a) r.insert(InClass::asOneType(S(c.as_string()))); return r; }
static std::set<InClass::AttachType> attSet(const js::array &a) { S t; for (auto &c : a) { if (t.size()) t += ","; t += S(c.as_string()); } return InClass::asAttachType(t); }
static std::vector<InClass::Type> inVec(const js::array &a) { std::vector<InClass::Type> r; for (auto &c : a) r.push_back(InClass::asOneType(S(c.as_string()))); return r; }
struct Call { S f, s; js::array c; int n; };

static void act(Token &x, Token &, const Call &k) {
    if (k.f == "text") x.text(k.s); else if (k.f == "std") x.stdtext(k.s);
    else if (k.f == "cls+") { for (auto c : inSet(k.c)) x.inclass(c); } else if (k.f == "cls=") x.inclass(inSet(k.c));
    else if (k.f == "att+") { for (auto c : attSet(k.c)) x.attached(c); } else if (k.f == "att=") x.attached(attSet(k.c));
    else if (k.f == "out") x.outclass(OutClass::asType(S(k.c[0].as_string()))); else if (k.f == "lex") x.inLex(k.n == 1);
    else if (k.f == "trim") x.trim(k.n); else if (k.f == "read") x = Token(k.s);
}
static js::object see(const Token &x, const js::object &c) {
    js::object o; o["text"] = chars(x.text()); o["std"] = chars(x.stdtext()); o["cls"] = clsArr(x.inclass()); o["size"] = (long) x.inSize(); o["empty"] = x.isInClassEmpty(); o["clstext"] = x.inclassAsString();
    js::array is; for (auto &n : c.at("names").as_array()) if (x.isInClass(InClass::asOneType(S(n.as_string())))) is.push_back(n);
    o["isin"] = is; o["asked"] = c.at("asked"); o["any"] = x.isInClass(inSet(c.at("asked").as_array()));
    o["out"] = x.outclassAsString(); if (x.outclassAsString() != OutClass::asString(x.outclass())) o["out"] = "two answers";
    o["att"] = attArr(x.attached()); o["atttext"] = x.attachedAsString(); o["lex"] = x.inLex(); o["dump"] = dumped(x);
    return o;
}
static void act(Rule &x, Rule &y, const Call &k) {
    if (k.f == "read") x = Rule(k.s); else if (k.f == "clear") x.clear(); else if (k.f == "plus") x = k.n ? x + y : x.concat(y);
}
static js::object ruleObj(const Rule &r) {
    js::array in, out; for (auto c : r.in()) in.push_back(js::value(InClass::asString(c))); for (auto c : r.out()) out.push_back(js::value(OutClass::asString(c)));
    js::object o; o["in"] = in; o["out"] = out; o["m"] = (long) ((double) r.score() * 1e6 + 0.5); return o;
}
static js::object see(Rule &x, const js::object &c) {
    js::object o = ruleObj(x); const Rule &cx = x;
    o["nin"] = (long) x.inSize(); o["nout"] = (long) x.outSize();
    js::array it, it2, ia, oa; for (auto e : x) it.push_back(js::value(InClass::asString(e))); for (auto e : cx) it2.push_back(js::value(InClass::asString(e)));
    o["iter"] = it == it2 ? it : js::array{ "two answers" };
    for (size_t n = 0; n < x.inSize(); ++n) ia.push_back(js::value(InClass::asString(x.in(n)))); for (size_t n = 0; n < x.outSize(); ++n) oa.push_back(js::value(OutClass::asString(x.out(n))));
    ia.push_back(js::value(InClass::asString(x.in(x.inSize() + (size_t) c.at("past").as_int64())))); oa.push_back(js::value(OutClass::asString(x.out(x.outSize() + (size_t) c.at("past").as_int64()))));
    o["inat"] = ia; o["outat"] = oa; o["valid"] = x.isValid(); o["isempty"] = x.isEmpty();
    js::array m; for (auto &p : c.at("pats").as_array()) { js::object q; q["p"] = p; q["r"] = x.match(inVec(p.as_array())); m.push_back(q); }
    o["m2"] = m; o["dump"] = dumped(x); return o;
}
static void act(LexEntry &x, LexEntry &, const Call &k) {
    if (k.f == "set") x.set(k.s, k.s, InClass::asOneType(S(k.c[0].as_string()))); else if (k.f == "word") x.word(k.s); else if (k.f == "std") x.stdword(k.s);
    else if (k.f == "type+") x.type(InClass::asOneType(S(k.c[0].as_string()))); else if (k.f == "type=") x.type(inSet(k.c)); else if (k.f == "att=") x.attached(attSet(k.c));
    else if (k.f == "read") x = LexEntry(k.s);
}
static js::object see(const LexEntry &e, const js::object &c) {
    js::object o; o["w"] = chars(e.word()); o["s"] = chars(e.stdword()); o["t"] = clsArr(e.type()); o["a"] = attArr(e.attached());
    js::array is; for (auto &n : c.at("names").as_array()) if (e.isInClass(InClass::asOneType(S(n.as_string())))) is.push_back(n);
    o["isin"] = is; o["flags"] = js::array{ e.isPrefix(), e.isSuffix(), e.isAttached(), e.isDetached(), e.isPrefixAttached(), e.isSuffixAttached() };
    o["dump"] = dumped(e); return o;
}
static js::array names(const MetaRule &r) { js::array a; for (auto &p : r.refs()) a.push_back(js::value(p.name())); return a; }
static void act(MetaRule &x, MetaRule &y, const Call &k) {
    if (k.f == "read") x = MetaRule(k.s); else if (k.f == "push") { SectionPtr p(k.s); x.push_back(p); } else x.refs(y.refs());
}
static js::object see(MetaRule &x, const js::object &) {
    js::object o; o["refs"] = names(x); js::array it; for (auto &p : x) it.push_back(js::value(p.mptr() || p.rptr() ? S("bound") : p.name())); o["iter"] = it; o["size"] = (long) x.size(); o["dump"] = dumped(x); return o;
}
static void act(RuleSection &x, RuleSection &y, const Call &k) {
    if (k.f == "name") x.name(k.s); else if (k.f == "push") { Rule r(k.s); x.push_back(r); } else x.rules(y.rules());
}
static void act(MetaSection &x, MetaSection &y, const Call &k) {
    if (k.f == "name") x.name(k.s); else if (k.f == "push") { MetaRule r(k.s); x.push_back(r); } else x.rules(y.rules());
}
static js::value part(const Rule &r) { return ruleObj(r); }
static js::value part(const MetaRule &r) { return names(r); }
template <class T> static js::object seeSec(T &x, const js::object &c) {
    js::object o; o["n"] = x.name(); o["size"] = (long) x.size();
    js::array at, it, all; for (size_t n = 0; n < x.size(); ++n) at.push_back(part(x.rule(n))); for (auto &e : x) it.push_back(part(e)); for (auto &e : x.rules()) all.push_back(part(e));
    o["at"] = at; o["iter"] = it; o["all"] = all;
    try { x.rule(x.size() + (size_t) c.at("past").as_int64()); o["beyond"] = "none"; } catch (std::exception &e) { o["beyond"] = e.what(); }
    o["dump"] = dumped(x); return o;
}
static js::object see(RuleSection &x, const js::object &c) { return seeSec(x, c); }
static js::object see(MetaSection &x, const js::object &c) { return seeSec(x, c); }
struct Counts {};
static void act(Counts &, Counts &, const Call &k) { if (k.f == "count") Utils::count(k.s); else Utils::clear(k.s); }
static js::object see(Counts &, const js::object &c) {
    js::array a; for (auto &k : c.at("names").as_array()) { js::object o; o["k"] = k; o["v"] = (long) Utils::getCount(S(k.as_string())); a.push_back(o); }
    js::object r; r["n"] = a; return r;
}
static bool same(const LexEntry &a, const LexEntry &b) { return (a == b) != (a != b) ? a == b : !(a == b); }
template <class T> static bool same(const T &, const T &) { return true; }

template <class T> static js::array history(const js::object &c) {
    std::unique_ptr<T> x(new T()), y(new T()); js::array out;
    for (auto &v : c.at("ops").as_array()) {
        auto &o = v.as_object(); Call k; k.f = str(o, "f"); k.s = arg(o, "s"); k.c = o.at("c").as_array(); k.n = (int) o.at("n").as_int64();
        js::object st; st["exc"] = "";
        try {
            if (k.f == "copy") { if (k.n) *y = *x; else y.reset(new T(*x)); } else if (k.f == "swap") std::swap(*x, *y); else if (k.f == "new") x.reset(new T()); else act(*x, *y, k);
        } catch (std::runtime_error &e) { st["exc"] = e.what(); }
        st["x"] = see(*x, c); st["y"] = see(*y, c); st["same"] = same(*x, *y);
        out.push_back(st);
    }
    return out;
}

static std::map<S, S> compiled;

// the lexicon argument: given as it is, or a compiled one made before, with another version number or cut off
static S lexArg(const js::object &c) {
    auto p = c.if_contains("lexc");
    if (!p) return arg(c, "lex");
    S s = compiled.at(S(p->as_string()));
    if (auto v = c.if_contains("ver")) {       // the fifth word of a text archive
        size_t a = 0; for (int i = 0; i < 4; ++i) a = s.find(' ', a) + 1;
        size_t b = s.find(' ', a);
        s = s.substr(0, a) + std::to_string(v->as_int64()) + s.substr(b);
    }
    if (auto v = c.if_contains("cut")) s.resize(std::min(s.size(), (size_t) (s.size() * v->as_int64() / 1000)));
    // replaced pieces: [position in 1/1000, bytes to drop, text to put there]
    if (auto v = c.if_contains("edits")) for (auto &e : v->as_array()) {
        auto &a = e.as_array(); size_t p = std::min(s.size(), (size_t) (s.size() * a[0].as_int64() / 1000));
        s = s.substr(0, p) + unhex(S(a[2].as_string())) + s.substr(std::min(s.size(), p + (size_t) a[1].as_int64()));
    }
    s = s.substr(0, s.find('\0'));
    return s;
}

static js::object run(const js::object &c);
// a call at every place where memory can run out: what it answers, which bytes stay; "then" is asked of a handle it gave, and the handle closed
static js::object sweep(const js::object &c) {
    js::object of = c.at("of").as_object();
    long from = c.at("from").as_int64(), step = c.at("step").as_int64(), most = c.at("most").as_int64(), k = from, n = 0;
    struct Seen { long at, n; S reply, then; long bytes; }; std::vector<Seen> seen; seen.reserve(64); bool hit = true;
    S op = str(of, "op");
    if (c.if_contains("all")) of["oomall"] = 1;
    if (k < 0) {                               // counted from the call's last place
        js::object r = run(of);
        if ((op == "getl" || op == "getg") && r.if_contains("ok") && r.at("ok").as_bool()) { js::object f; f["op"] = op == "getl" ? "freel" : "freeg"; f["id"] = of.at("id"); run(f); }
        k = std::max(0L, (r.if_contains("allocs") ? (long) r.at("allocs").as_int64() : 0L) + k);
    }
    for (; hit && n < most; k += step, ++n) {
        of["oom"] = k;
        Seen s; s.at = k; s.n = 1; s.bytes = 0;
#ifdef DRV_ASAN
        long before = (long) __sanitizer_get_current_allocated_bytes();
#endif
        {
            js::object r;
            try { r = run(of); } catch (std::exception &e) { r.clear(); r["exc"] = e.what(); r["hit"] = true; } catch (...) { r.clear(); r["exc"] = "?"; r["hit"] = true; }
            armed = false;
            hit = r.if_contains("hit") && r.at("hit").as_bool(); r.erase("hit"); r.erase("allocs");
            s.reply = js::serialize(r);
            if ((op == "getl" || op == "getg") && r.if_contains("ok") && r.at("ok").as_bool()) {
                if (c.if_contains("then")) { js::object t = run(c.at("then").as_object()); t.erase("allocs"); t.erase("hit"); s.then = js::serialize(t); }
                js::object f; f["op"] = op == "getl" ? "freel" : "freeg"; f["id"] = of.at("id"); run(f);
            }
        }
#ifdef DRV_ASAN
        s.bytes = (long) __sanitizer_get_current_allocated_bytes() - before - kept(s.reply) - kept(s.then);
#endif
        if (!hit) break;
        bool known = false;
        for (auto &o : seen) if (o.reply == s.reply && o.then == s.then && o.bytes == s.bytes) { o.n++; known = true; break; }
        if (!known && seen.size() < 60) seen.push_back(s);
    }
    js::object r; js::array a;
    for (auto &s : seen) { js::object o; o["at"] = s.at; o["n"] = s.n; o["reply"] = js::parse(s.reply); if (!s.then.empty()) o["then"] = js::parse(s.then); o["bytes"] = s.bytes; a.push_back(o); }
    r["seen"] = a; r["places"] = n; r["end"] = !hit;
    return r;
}

static js::object run(const js::object &c) {
    js::object r;
    S op = str(c, "op");
    if (op == "sweep") return sweep(c);
    auto addr = cs(arg(c, "addr")), gmr = cs(arg(c, "gmr")), lex = cs(lexArg(c)),
         loc = cs(arg(c, "loc", "en_US")), filt = cs(arg(c, "filt"));
    const auto addr0 = addr, gmr0 = gmr, lex0 = lex, loc0 = loc, filt0 = filt;
    char *err = SENT; int n = -12345;
    // where memory runs out: at an allocation counted from the front, from the back, or in thousandths of the last whole call
    oomAt = c.if_contains("oom") ? (long) c.at("oom").as_int64() : c.if_contains("oomback") ? std::max(0L, whole - 1 - (long) c.at("oomback").as_int64())
          : c.if_contains("oompart") ? (long) (whole * c.at("oompart").as_int64() / 1000) : -1;
    oomAll = c.if_contains("oomall") != nullptr; allocs = 0;
    if (op == "std") { auto p = API([&]{ return std_standardize(addr.data(), gmr.data(), lex.data(), loc.data(), filt.data(), &err); }); putAddr(r, p, err); }
    else if (op == "parse") { auto p = API([&]{ return std_parse_address(addr.data(), lex.data(), loc.data(), filt.data(), &n, &err); }); putToks(r, p, n, err); }
    else if (op == "match") { auto p = API([&]{ return std_match_address(addr.data(), gmr.data(), lex.data(), loc.data(), filt.data(), &n, &err); }); putMatch(r, p, n, err); }
    else if (op == "all") {
        // the three row functions on the same arguments
        js::object a, b, d;
        auto p = API([&]{ return std_standardize(addr.data(), gmr.data(), lex.data(), loc.data(), filt.data(), &err); }); putAddr(a, p, err);
        err = SENT; auto q = API([&]{ return std_parse_address(addr.data(), lex.data(), loc.data(), filt.data(), &n, &err); }); putToks(b, q, n, err);
        err = SENT; auto m = API([&]{ return std_match_address(addr.data(), gmr.data(), lex.data(), loc.data(), filt.data(), &n, &err); }); putMatch(d, m, n, err);
        r["std"] = a; r["parse"] = b; r["match"] = d;
    }
    else if (op == "compile") { char *p = API([&]{ return serialize_lexicon(lex.data(), &err); }); bool u; r["err"] = errval(err, u); if (u) r["errunset"] = true; else free(err); if (auto k = c.if_contains("as")) { if (p) compiled[S(k->as_string())] = p; r["ok"] = p != NULL; } else r["res"] = opt(p); free(p); }
    else if (op == "getl") { void *p = API([&]{ return getLexiconPtr(lex.data(), &err); }); bool u; r["err"] = errval(err, u); if (!u) free(err); r["ok"] = p != NULL; S id = str(c, "id"); if (lptr.count(id)) { freeLexiconPtr(lptr[id]); lptr.erase(id); } if (p) lptr[id] = p;  }
    else if (op == "getg") { void *p = API([&]{ return getGrammarPtr(gmr.data(), &err); }); bool u; r["err"] = errval(err, u); if (!u) free(err); r["ok"] = p != NULL; S id = str(c, "id"); if (gptr.count(id)) { freeGrammarPtr(gptr[id]); gptr.erase(id); } if (p) gptr[id] = p;  }
    else if ((op == "freel" || op == "freeg") && !(op == "freel" ? lptr : gptr).count(str(c, "id"))) r["nohandle"] = true;
    else if ((op == "stdp" || op == "parsep") && (!lptr.count(str(c, "l")) || (op == "stdp" && !gptr.count(str(c, "g"))))) r["nohandle"] = true;
    else if (op == "freel") { S id = str(c, "id"); freeLexiconPtr(lptr.at(id)); lptr.erase(id); r["ok"] = true; }
    else if (op == "freeg") { S id = str(c, "id"); freeGrammarPtr(gptr.at(id)); gptr.erase(id); r["ok"] = true; }
    else if (op == "stdp") { auto p = API([&]{ return std_standardize_ptrs(addr.data(), gptr.at(str(c, "g")), lptr.at(str(c, "l")), loc.data(), filt.data(), &err); }); putAddr(r, p, err); }
    else if (op == "parsep") { auto p = API([&]{ return std_parse_address_ptrs(addr.data(), lptr.at(str(c, "l")), loc.data(), filt.data(), &n, &err); }); putToks(r, p, n, err); }
    else if (op == "md5") { char *p = getMd5(cs(arg(c, "text")).data()); r["res"] = opt(p); free(p); }
    else if (op == "md5parts") {     // a text fed piece by piece, and the other ways to ask for its digest
        MD5 m; S all; js::array hs; r["early"] = m.hexdigest();
        for (auto &v : c.at("partsx").as_array()) {
            S p = unhex(S(v.as_string())); all += p;
            if (p.size() % 2) m.update(p.data(), (MD5::size_type) p.size());
            else m.update(reinterpret_cast<const unsigned char *>(p.data()), (MD5::size_type) p.size());
        }
        r["early"] = S(r["early"].as_string()) + m.hexdigest();
        hs.push_back(js::value(m.finalize().hexdigest())); hs.push_back(js::value(m.hexdigest())); hs.push_back(js::value(m.finalize().hexdigest()));
        std::ostringstream os; os << m; hs.push_back(js::value(os.str()));
        hs.push_back(js::value(MD5(all).hexdigest())); hs.push_back(js::value(md5(all)));
        if (all.find('\0') == S::npos) { char *p = getMd5(cs(all).data()); hs.push_back(js::value(p ? p : "none")); free(p); }
        r["hs"] = hs;
    }
    else if (op == "digests") {      // of a grammar or lexicon, each way of reading it
        S t = arg(c, "text"); js::array hs; S kind = str(c, "kind");
        auto add = [&](const char *p) { hs.push_back(js::value(p ? p : "none")); };
        char *e = NULL;
        if (kind == "g") {
            { std::istringstream is(t); Grammar g(is); add(g.getMd5()); add(g.getMd5()); }
            { Grammar g(cs(t).data()); add(g.getMd5()); Grammar h(g); add(h.getMd5()); }
            { Scratch f(t); Grammar g(f.name); add(g.getMd5()); }
            void *p = getGrammarPtr(cs(t).data(), &e); if (p) { char *q = getGrammarMd5(p); add(q); free(q); freeGrammarPtr(p); } else add("refused");
        } else {
            { std::istringstream is(t); Lexicon l("x", is); add(l.getMd5()); add(l.getMd5()); l.regex(); add(l.getMd5()); Lexicon k(l); add(k.getMd5()); }
            { Lexicon l(cs(t).data()); add(l.getMd5()); }
            { Scratch f(t); Lexicon l("x", f.name); add(l.getMd5()); }
            void *p = getLexiconPtr(cs(t).data(), &e); if (p) { char *q = getLexiconMd5(p); add(q); free(q); freeLexiconPtr(p); } else add("refused");
            char *z = serialize_lexicon(cs(t).data(), &e);
            void *p2 = z ? getLexiconPtr(z, &e) : NULL; if (p2) { char *q = getLexiconMd5(p2); add(q); free(q); freeLexiconPtr(p2); } else add("refused");
            free(z);
        }
        r["hs"] = hs;
    }
    else if (op == "md5p") { char *p = getGrammarMd5(gptr.at(str(c, "g"))), *q = getLexiconMd5(lptr.at(str(c, "l"))); r["g"] = opt(p); r["l"] = opt(q); free(p); free(q); }
    else if (op == "md5near") {
        // of many texts (pre + number + post), the two whose digests agree longest at the front, and at the back
        S pre = str(c, "pre"), post = str(c, "post"); long from = c.at("from").as_int64(), cnt = c.at("count").as_int64();
        std::vector<std::pair<S, long>> a, b;
        for (long k = from; k < from + cnt; ++k) {
            char *p = getMd5(cs(pre + std::to_string(k) + post).data()); S d = p ? p : ""; free(p);
            a.push_back({ d, k }); b.push_back({ S(d.rbegin(), d.rend()), k });
        }
        js::array res;
        for (auto *v : { &a, &b }) {
            std::sort(v->begin(), v->end()); size_t best = 0, at = 0;
            for (size_t k = 0; k + 1 < v->size(); ++k) { size_t m = 0; auto &x = (*v)[k].first, &y = (*v)[k + 1].first; while (m < x.size() && m < y.size() && x[m] == y[m]) ++m; if (m >= best) { best = m; at = k; } }
            if (v->size() > 1) res.push_back(js::array{ (*v)[at].second, (*v)[at + 1].second, (long) best });
        }
        r["near"] = res;
    }
    // ---- classes
    else if (op == "gload") {
        std::unique_ptr<Grammar> gp(mkGmr(c)); Grammar &g = *gp;
        r["status"] = (int) g.status(); r["issues"] = g.issues(); r["dump"] = dumpGmr(g);
    }
    else if (op == "greload") {
        std::istringstream is(str(c, "gmr"));
        Grammar g(is); S d = dumpGmr(g);
        std::istringstream is2(d);
        Grammar g2(is2);
        r["d1"] = d; r["d2"] = dumpGmr(g2); r["s1"] = (int) g.status(); r["s2"] = (int) g2.status();
    }
    else if (op == "gnew") {
        S id = str(c, "id");
        schObj.erase(id);
        gmrObj[id].reset(mkGmr(c));
        schObj[id].reset(new Search(*gmrObj[id]));
    }
    else if (op == "search") {
        // all paths, all rows, best row for one phrase of classified tokens
        auto toks = mkToks(c.at("toks").as_array());
        Search *s; std::unique_ptr<Grammar> g; std::unique_ptr<Search> own;
        if (c.if_contains("id")) s = schObj.at(str(c, "id")).get();
        else { std::istringstream is(str(c, "gmr")); g.reset(new Grammar(is)); own.reset(new Search(*g)); s = own.get(); }
        js::array ps;
        auto node = c.if_contains("node");
        auto paths = node ? s->search(S(node->as_string()), toks) : s->search(toks);
        for (auto &p : paths) ps.push_back(ruleArr(p.rules));
        r["paths"] = ps;
        if (c.if_contains("best")) {
            std::vector<std::vector<Token>> phrases; phrases.push_back(toks);
            if (auto m = c.if_contains("more")) for (auto &e : m->as_array()) phrases.push_back(mkToks(e.as_array()));
            float score = -77, nr = -77; S matched;
            auto b = s->searchAndReclassBest(phrases, score, matched, nr);
            js::object bo; bo["score"] = (double) score; bo["nrules"] = (double) nr; bo["matched"] = matched;
            js::array bt; for (auto &t : b) { js::object o; o["t"] = t.text(); o["c"] = clsArr(t.inclass()); o["o"] = OutClass::asString(t.outclass()); bt.push_back(o); }
            bo["toks"] = bt; r["best"] = bo;
            js::array al;
            for (auto &m : s->searchAndReclassAll(phrases)) { js::object o; o["tokens"] = m.matched; o["score"] = m.score; o["nrules"] = m.nrules; al.push_back(o); }
            r["all"] = al;
        }
    }
    else if (op == "enum") {
        js::array a;
        for (auto &l : Token::enumerate(mkToks(c.at("toks").as_array()))) { js::array o; for (auto t : l) o.push_back(js::value(InClass::asString(t))); a.push_back(o); }
        r["list"] = a;
    }
    else if (op == "lnew") {
        std::istringstream is(str(c, "lex")); S id = str(c, "id");
        std::unique_ptr<Lexicon> l(c.if_contains("empty") ? new Lexicon(S("x")) : new Lexicon("x", is));
        if (c.if_contains("loc")) l->locale(str(c, "loc"));
        lexObj[id] = std::move(l);
    }
    else if (op == "lins") { lexObj.at(str(c, "id"))->insert(mkLe(c.at("e").as_object())); }
    else if (op == "lrem") { lexObj.at(str(c, "id"))->remove(mkLe(c.at("e").as_object())); }
    else if (op == "lstate") { r = lexState(*lexObj.at(str(c, "id")), c); }
    else if (op == "ldump") { r["dump"] = dumpLex(*lexObj.at(str(c, "id"))); }
    else if (op == "lreload") { std::istringstream is(dumpLex(*lexObj.at(str(c, "id")))); std::unique_ptr<Lexicon> l(new Lexicon("x", is)); lexObj[str(c, "to")] = std::move(l); }
    else if (op == "lcopyvia") {      // archive round trip into another id
        std::ostringstream os; { boost::archive::text_oarchive oa(os); oa << *lexObj.at(str(c, "id")); }
        std::istringstream is(os.str()); std::unique_ptr<Lexicon> l(new Lexicon(S("y")));
        boost::archive::text_iarchive ia(is); ia >> *l;
        lexObj[str(c, "to")] = std::move(l);
    }
    else if (op == "lload") { std::unique_ptr<Lexicon> lp(mkLex(c)); Lexicon &l = *lp; r = lexState(l, c); r["dump"] = dumpLex(l); }
    else if (op == "tok") {
        Tokenizer tk(*lexObj.at(str(c, "id")));
        tk.filter(clsSet(c.at("filter")));
        auto v = tk.getTokens(str(c, "addr"));
        r["toks"] = tokArr(v);
        js::array al; for (auto &a : tk.getAltTokens(v)) al.push_back(tokArr(a));
        r["alts"] = al;
    }
    else if (op == "alts") {
        Tokenizer tk(*lexObj.at(str(c, "id")));
        tk.filter(clsSet(c.at("filter")));
        js::array al; for (auto &a : tk.getAltTokens(mkToks(c.at("toks").as_array()))) al.push_back(tokArr(a));
        r["alts"] = al;
    }
    else if (op == "filt") {
        Lexicon l{S("x")}; Tokenizer tk(l);
        js::array out;
        // a history of filter mutations, then the filtered tokens
        for (auto &h : c.at("hist").as_array()) {
            auto &ha = h.as_array(); S k(ha[0].as_string());
            if (k == "set") tk.filter(clsSet(ha[1]));
            else if (k == "add") tk.addFilter(InClass::asOneType(S(ha[1].as_string())));
            else if (k == "rem") tk.removeFilter(InClass::asOneType(S(ha[1].as_string())));
            else if (k == "clear") tk.clearFilter();
            js::object o; o["f"] = clsArr(tk.filter()); o["toks"] = tokArr(tk.applyFilter(mkToks(c.at("toks").as_array())));
            out.push_back(o);
        }
        r["out"] = out;
    }
    else if (op == "classify") {
        Token t; t.text(str(c, "text"));
        lexObj.at(str(c, "id"))->classify(t, InClass::asOneType(str(c, "typ", "WORD")));
        r = tokObj(t);
    }
    else if (op == "split") {
        Lexicon &l = *lexObj.at(str(c, "id"));
        Token t; t.text(str(c, "text")); l.classify(t, InClass::WORD);
        r["tok"] = tokObj(t);
        Tokenizer tk(l); r["toks"] = tokArr(tk.splitToken(t));
    }
    else if (op == "stdz") {
        Token t = mkTok(c.at("tok")); lexObj.at(str(c, "id"))->standardize(t); r["s"] = t.stdtext();
    }
    else if (op == "reclass") {
        auto toks = mkToks(c.at("toks").as_array());
        std::istringstream is("[ADDRESS]\nWORD -> STREET -> 1\n"); Grammar g(is); Search s(g);
        SearchPath p; for (auto &e : c.at("rules").as_array()) p.rules.push_back(Rule(S(e.as_string())));
        r["ok"] = s.reclassTokens(toks, p);
        js::array bt; for (auto &t : toks) { js::object o; o["t"] = t.text(); o["c"] = clsArr(t.inclass()); o["o"] = OutClass::asString(t.outclass()); bt.push_back(o); }
        r["toks"] = bt;
    }
    else if (op == "tnew") { S id = str(c, "id"); if (c.contains("bytes")) { trieObj.erase(id); trieBytes[id].reset(new Trie(false)); } else { trieBytes.erase(id); trieObj[id].reset(new TrieUtf8(false)); } }
    else if (op == "tadd") { S id = str(c, "id"); if (trieBytes.count(id)) trieBytes.at(id)->addWord(str(c, "w")); else trieObj.at(id)->addWord(str(c, "w")); }
    else if (op == "tq") { S id = str(c, "id"); if (trieBytes.count(id)) askTrie(*trieBytes.at(id), c, r); else askTrie(*trieObj.at(id), c, r); }
    else if (op == "conv") {
        js::array names; for (auto &k : c.at("names").as_array()) { S s(k.as_string()); js::array o;
            o.push_back(js::value(InClass::asString(InClass::asOneType(s)))); o.push_back(js::value((int) InClass::asOneType(s)));
            o.push_back(js::value(OutClass::asString(OutClass::asType(s)))); o.push_back(js::value((int) OutClass::asType(s)));
            o.push_back(clsArr(InClass::asType(s))); o.push_back(attArr(InClass::asAttachType(s)));
            o.push_back(js::value(InClass::asString(InClass::asLang(s)))); o.push_back(js::value(InClass::asName(InClass::asLang(s))));
            o.push_back(js::value(InClass::asString(InClass::asType(s)))); o.push_back(js::value(InClass::asString(InClass::asAttachType(s))));
            names.push_back(o); }
        r["names"] = names;
        js::array nums; for (auto &k : c.at("nums").as_array()) { int i = (int) k.as_int64(); js::array o;
            o.push_back(js::value(InClass::asString(InClass::asType(i)))); o.push_back(js::value(OutClass::asString(OutClass::asType(i)))); nums.push_back(o); }
        r["nums"] = nums;
    }
    else if (op == "leline") { LexEntry e(str(c, "line")); r = leObj(e); std::ostringstream o; o << e; r["dump"] = o.str(); LexEntry e2(o.str()); r["again"] = leObj(e2);
        r["flags"] = js::array{ e.isPrefix(), e.isSuffix(), e.isAttached(), e.isDetached(), e.isPrefixAttached(), e.isSuffixAttached() }; r["same"] = (e == e2); }
    else if (op == "rule") { Rule e(str(c, "line")); r["rules"] = ruleArr(std::vector<Rule>(1, e)); std::ostringstream o; o << e; r["dump"] = o.str(); Rule e2(o.str()); r["again"] = ruleArr(std::vector<Rule>(1, e2)); }
    else if (op == "norm") { UErrorCode ec; r["n"] = Utils::normalizeUTF8(str(c, "text"), ec); r["u"] = Utils::upperCaseUTF8(str(c, "text"), str(c, "loc", "en_US")); }
    else if (op == "vals") {
        S k = str(c, "kind");
        if (k == "token") r["st"] = history<Token>(c); else if (k == "rule") r["st"] = history<Rule>(c); else if (k == "entry") r["st"] = history<LexEntry>(c);
        else if (k == "meta") r["st"] = history<MetaRule>(c); else if (k == "rsec") r["st"] = history<RuleSection>(c); else if (k == "msec") r["st"] = history<MetaSection>(c);
        else if (k == "count") { for (auto &n : c.at("names").as_array()) Utils::clear(S(n.as_string())); r["st"] = history<Counts>(c); }
    }
    else if (op == "u8walk") {
        const S t = arg(c, "text"); std::vector<Utf8Iterator> w(2, Utf8Iterator(t.begin())); js::array out; const Utf8Iterator fin(t.end());
        for (auto &v : c.at("ops").as_array()) {
            S f(v.as_string()); Utf8Iterator &a = w[0], &b = w[1];
            if (f == "inc" && a != fin) ++a; else if (f == "dec" && a != Utf8Iterator(t.begin())) --a;
            else if (f == "incp" && a != fin) b = a++; else if (f == "decp" && a != Utf8Iterator(t.begin())) b = a--;
            else if (f == "copy") { Utf8Iterator n(a); b = n; } else if (f == "swap") std::swap(a, b); else if (f == "new") b = Utf8Iterator(t.begin());
            js::object o; o["op"] = f;
            o["a"] = a == fin ? -1L : (long) *a; o["b"] = b == fin ? -1L : (long) *b; o["eq"] = (a == b); if ((a == b) == (a != b)) o["eq"] = "both";
            o["ea"] = (a == t.end()); o["eb"] = (b == t.end()); if ((a == t.end()) == (a != t.end())) o["ea"] = "both";
            // the iterators in the order of the text
            bool ab = false; for (Utf8Iterator i = a; ; ++i) { if (i == b) { ab = true; break; } if (i == fin) break; }
            S u = ab ? a.substr(b) : b.substr(a); js::array by; for (unsigned char ch : u) by.push_back((long) ch); o["sub"] = by;
            out.push_back(o);
        }
        r["st"] = out;
    }
    else if (op == "u8enc") {
        js::array bs;
        for (long n = c.at("from").as_int64(), k = 0; k < c.at("count").as_int64(); ++k) {
            js::array by; try { for (unsigned char ch : CodePointToUtf8((char32_t) (n + k))) by.push_back((long) ch); } catch (std::runtime_error &) { by.clear(); by.push_back(-1L); }
            bs.push_back(by);
        }
        r["bs"] = bs;
    }
    else if (op == "unaccent") r["res"] = Utils::unaccentUTF8(str(c, "text"));
#ifdef DRV_ASAN
    else if (op == "heap") r["heap"] = (long) __sanitizer_get_current_allocated_bytes();
#endif
    else if (op == "ldel") lexObj.erase(str(c, "id"));
    else if (op == "gdel") { schObj.erase(str(c, "id")); gmrObj.erase(str(c, "id")); }
    else if (op == "tdel") trieObj.erase(str(c, "id"));
    else r["badop"] = op;
    if (allocs) { r["allocs"] = allocs; if (oomAt < 0) whole = allocs; else r["hit"] = allocs > oomAt; }
    if (addr != addr0 || gmr != gmr0 || lex != lex0 || loc != loc0 || filt != filt0) r["argchanged"] = true;
    return r;
}

static void onalarm(int) { const char m[] = "{\"timeout\":true}\n"; ssize_t k = write(1, m, sizeof m - 1); (void) k; _exit(3); }

int main(int argc, char **argv) {
    std::ios::sync_with_stdio(false);
    int lim = argc > 1 ? atoi(argv[1]) : 20;
    signal(SIGALRM, onalarm);
#ifndef DRV_ASAN
    struct rlimit rl = { 2500UL << 20, 2500UL << 20 }; setrlimit(RLIMIT_AS, &rl);
#endif
    S line; line.reserve(4 << 20);
    while (std::getline(std::cin, line)) {
        if (line.empty()) continue;
        js::object r;
        auto v = js::parse(line);
        auto &o = v.as_object();
        alarm(o.if_contains("lim") ? (unsigned) o.at("lim").as_int64() : (unsigned) lim);
        try { r = run(o); }
        catch (std::bad_alloc &e) { r.clear(); r["exc"] = "bad_alloc"; }
        catch (std::exception &e) { r.clear(); r["exc"] = e.what(); }
        catch (...) { r.clear(); r["exc"] = "?"; }
        alarm(0);
        S out = js::serialize(r); out += "\n";
        size_t off = 0; while (off < out.size()) { ssize_t k = write(1, out.data() + off, out.size() - off); if (k <= 0) return 4; off += (size_t) k; }
    }
    // leave without running destructors of the handles still open
    _exit(0);
}
