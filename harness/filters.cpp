// Replay harness for packages and for filters that work on Z39.50 requests: a
// chain of the filter under test and a back end with a known behaviour.
#include "config.hpp"
#include "hcommon.hpp"
#include <metaproxy/package.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/util.hpp>
#include <yaz/diagbib1.h>
#include <yaz/log.h>
#include <yaz/oid_db.h>
#include <yaz/pquery.h>
#include <yaz/otherinfo.h>
#include <functional>
#include <memory>
#include <libxml/parser.h>
#ifdef H_PRESENT_CHUNK
#include "filter_present_chunk.hpp"
#endif
#ifdef H_AUTH_SIMPLE
#include "filter_auth_simple.hpp"
#include <sys/stat.h>
#include <fstream>
#include <list>
#include <map>
#include <thread>
#endif
namespace mp = metaproxy_1;
using std::string;
static string num(long long v) { return std::to_string(v); }
static bool odd(int n) { return h::rnd(n) == 0; }

struct Fn : public mp::filter::Base {
    std::function<void(mp::Package &)> f;
    void process(mp::Package &p) const { f(p); }
    void configure(const xmlNode *, bool, const char *) {}
};

// ---------------------------------------------------------------- packages
struct Step { int kind; int arg; };
static int live = 0, made = 0;
// a route: positions count moves, remember the route they were given
struct TPos : public mp::RoutePos {
    int at, id, route; std::vector<Fn *> *fs;
    TPos(int a, int r, std::vector<Fn *> *f) : at(a), id(++made), route(r), fs(f) { live++; }
    ~TPos() { live--; }
    const mp::filter::Base *move(const char *r)
    {
        if (r) { route = r[0]; at = r[0] - 'a'; }
        if (at >= (int) fs->size()) return 0;
        return (*fs)[at++];
    }
    mp::RoutePos *clone() { return new TPos(at, route, fs); }
};
struct TRouter : public mp::Router { std::vector<Fn *> fs; int from; void start() {} void stop(int) {} mp::RoutePos *createpos() const { return new TPos(from, 0, const_cast<std::vector<Fn *> *>(&fs)); } };

static void pkg()
{
    while (h::time_left())
    {
        int base = live;
        {
        int n = 1 + h::rnd(4);
        std::vector<std::unique_ptr<Fn> > own;
        TRouter r; std::vector<std::pair<int, mp::Package *> > got;
        for (int i = 0; i < n; i++) { own.emplace_back(new Fn); r.fs.push_back(own.back().get()); own.back()->f = [i, &got](mp::Package &p) { got.push_back(std::make_pair(i, &p)); }; }
        r.from = h::rnd(n + 1);
        struct P { std::unique_ptr<mp::Package> p; int at; string log; bool logging; unsigned long ses; };
        std::vector<P> ps;
        mp::Session s; mp::Origin o;
        string d = "filters " + num(n) + " start " + num(r.from);
        int ops = 1 + h::rnd(30);
        std::vector<int> shares; // logger group, -1 none
        std::vector<string> logs; int groups = 0;
        for (int k = 0; k < ops; k++)
        {
            if (ps.empty() || odd(8))
            {
                P x; x.at = -1; x.logging = false;
                mp::Session s2; bool two = odd(2);
                x.p.reset(two ? new mp::Package(s2, o) : new mp::Package); x.ses = x.p->session().id();
                if (two) h::check(x.ses == s2.id(), "a package has another session than given");
                ps.push_back(std::move(x)); shares.push_back(-1); d += " new";
            }
            int i = h::rnd(ps.size()), j = h::rnd(ps.size()), c = h::rnd(9);
            P &x = ps[i];
            d += " " + num(c) + ":" + num(i) + "," + num(j);
            h::input(d);
            got.clear();
            int before = live;
            unsigned long ids = x.p->session().id();
            if (c == 0) { h::check(&x.p->router(r) == x.p.get(), "router() returns another package"); x.at = r.from; }
            else if (c == 1) { x.p->copy_route(*ps[j].p); x.at = ps[j].at; }
            else if (c == 2) { h::check(&x.p->copy_filter(*ps[j].p) == x.p.get(), "copy_filter returns another package"); x.at = ps[j].at; shares[i] = shares[j]; }
            else if (c <= 4) { x.p->move(); }
            else if (c == 5) { string to(1, char('a' + h::rnd(n + 1))); if (odd(4)) to = ""; x.p->move(to); if (to.length() && x.at >= 0) x.at = to[0] - 'a'; }
            else if (c == 6) { x.p->log_enable(); shares[i] = groups++; logs.push_back(""); }
            else if (c == 7) { string t(h::rnd(6), char('a' + h::rnd(20))); if (odd(5)) t += string(1, 0); x.p->log_write(t.data(), t.size()); if (shares[i] >= 0) logs[shares[i]] += t; }
            else { string res = "unset"; x.p->log_reset(res); h::check(res == (shares[i] >= 0 ? logs[shares[i]] : string("unset")), "log_reset delivers other text than was written"); shares[i] = -1; }
            if (c >= 3 && c <= 5)
            {
                if (x.at < 0 || x.at >= n) h::check(got.empty(), "a package without a next filter was processed");
                else { h::check(got.size() == 1 && got[0].first == x.at && got[0].second == x.p.get(), "the package went to another filter than the next"); x.at++; }
            }
            else h::check(got.empty(), "a filter was called without a move");
            (void) before;
            int have = 0; for (auto &q : ps) have += q.at >= 0;
            h::check(live - base == have, "positions alive: " + num(live - base) + ", packages with position: " + num(have));
            h::check(x.p->session().id() == ids && x.ses == ids, "the session of the package changed");
            h::check(&x.p->request() != &x.p->response(), "request and response are the same");
        }
        // where everyone is
        for (auto &x : ps) { got.clear(); x.p->move(); bool end = x.at < 0 || x.at >= n; h::check(end ? got.empty() : (got.size() == 1 && got[0].first == x.at && got[0].second == x.p.get()), "a package is not where it should be"); }
        }
        h::check(live == base, "positions are left behind when packages go");
    }
}

// ---------------------------------------------------------------- helpers for filters
static mp::filter::Base *configured(mp::filter::Base *f, const string &xml)
{
    xmlDoc *d = xmlParseMemory(xml.data(), xml.size());
    h::check(d != 0, "harness: bad xml");
    try { f->configure(xmlDocGetRootElement(d), false, 0); } catch (...) { xmlFreeDoc(d); throw; }
    xmlFreeDoc(d);
    return f;
}
static Odr_oct *refid(ODR o, const string &s) { return s.empty() ? 0 : odr_create_Odr_oct(o, s.data(), s.size()); }
static string octs(const Odr_oct *o) { return o ? string((const char *) o->buf, o->len) : string(); }

#ifdef H_PRESENT_CHUNK
static string rec_text(Z_NamePlusRecord *r)
{
    if (!r || r->which != Z_NamePlusRecord_databaseRecord) return "?";
    Z_External *e = r->u.databaseRecord;
    return e && e->which == Z_External_octet ? string((const char *) e->u.octet_aligned->buf, e->u.octet_aligned->len) : string("?");
}
static void chunk()
{
    while (h::time_left())
    {
        int size = odd(6) ? 0 : 1 + h::rnd(6);
        if (odd(10)) size = 100;
        int total = h::rnd(16), start = 1 + h::rnd(12), have = odd(3) ? h::rnd(20) : 60;
        if (odd(12)) total = -1 - (int) h::rnd(3);
        int most = odd(3) ? 1 + h::rnd(4) : 1000;   // the back end returns at most this many at a time
        int extra = odd(6) ? 1 + h::rnd(4) : 0;     // ... and may return more than asked
        int end = odd(4) ? h::rnd(5) : -1, how = h::rnd(4);  // a call that ends otherwise
        string ref = odd(2) ? "" : string("r\0e", 3), syn;
        int kind = odd(5) ? 1 + h::rnd(2) : 0;      // no present at all
        h::input("chunk " + num(size) + " records " + num(total) + " from " + num(start) + " set has " + num(have) + " most " + num(most) + " extra " + num(extra) + " call " + num(end) + " ends as " + num(how) + " kind " + num(kind));
        mp::filter::PresentChunk f;
        string junk = odd(3) ? "<!-- c -->\n" : "";
        configured(&f, "<f>" + junk + (odd(8) ? "<chunk>7</chunk>" : "") + (size || odd(2) ? "<chunk>" + num(size) + "</chunk>" : string(odd(2) ? "<chunk/>" : "<chunk>0</chunk>")) + "</f>");
        std::vector<string> sent; int calls = 0, moved = 0; bool ended = false, more = false; string why;
        Fn be;
        int chunkno = size;
        be.f = [&](mp::Package &p) {
            moved++;
            Z_GDU *g = p.request().get();
            if (kind) return;
            h::check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_presentRequest, "the back end gets something else than a present request");
            Z_PresentRequest *q = g->u.z3950->u.presentRequest;
            h::check(octs(q->referenceId) == ref, "the reference id is not passed on");
            h::check(!strcmp(q->resultSetId, "set1"), "another result set is asked for");
            h::check(!ended, "the back end is asked again after the end");
            if (chunkno > 0)
            {
                int left = total - (int) sent.size(), w = left < chunkno ? left : chunkno;
                h::check(*q->numberOfRecordsRequested == w, "asks for " + num(*q->numberOfRecordsRequested) + " records, expected " + num(w));
                h::check(*q->resultSetStartPoint == start + (int) sent.size(), "asks from " + num(*q->resultSetStartPoint) + ", expected " + num(start + (int) sent.size()));
            }
            int n = *q->numberOfRecordsRequested;
            if (n < 0) n = 0;
            mp::odr o;
            if (calls++ == end && how < 3)
            {
                ended = true;
                if (how == 0) { p.session().close(); return; }
                if (how == 1) { why = "diag"; p.response() = o.create_presentResponse(g->u.z3950, YAZ_BIB1_PRESENT_REQUEST_OUT_OF_RANGE, "oops"); return; }
                why = "close"; p.response() = o.create_close(g->u.z3950, Z_Close_systemProblem, "bye"); return;
            }
            Z_APDU *a = o.create_APDU(Z_APDU_presentResponse, g->u.z3950);
            Z_PresentResponse *r = a->u.presentResponse;
            int m = n < most ? n : most; m += extra;
            int from = *q->resultSetStartPoint;
            if (from + m > have + 1) m = have + 1 - from; if (m < 0) m = 0;
            if (calls - 1 == end) { m = 0; }
            r->records = (Z_Records *) odr_malloc(o, sizeof *r->records); r->records->which = Z_Records_DBOSD;
            Z_NamePlusRecordList *l = (Z_NamePlusRecordList *) odr_malloc(o, sizeof *l); r->records->u.databaseOrSurDiagnostics = l;
            l->num_records = m; l->records = (Z_NamePlusRecord **) odr_malloc(o, sizeof(*l->records) * (m + 1));
            for (int i = 0; i < m; i++)
            {
                Z_NamePlusRecord *x = (Z_NamePlusRecord *) odr_malloc(o, sizeof *x); l->records[i] = x;
                x->databaseName = odr_strdup(o, "db"); x->which = Z_NamePlusRecord_databaseRecord;
                string t = "record " + num(from + i);
                x->u.databaseRecord = z_ext_record_oid(o, yaz_oid_recsyn_usmarc, t.data(), t.size());
                if ((int) sent.size() < total) sent.push_back(t);
            }
            if (m == 0) ended = true;
            *r->numberOfRecordsReturned = m;
            p.response() = a;
        };
        mp::RouterChain rc; rc.append(f); rc.append(be);
        mp::Session s; mp::Origin org;
        mp::Package p(s, org); p.router(rc);
        mp::odr o;
        Z_APDU *a;
        if (kind == 2) { Z_GDU *hg = z_get_HTTP_Request(o); p.request() = hg; }
        else
        {
            a = zget_APDU(o, kind == 1 ? Z_APDU_searchRequest : Z_APDU_presentRequest);
            if (!kind)
            {
                Z_PresentRequest *q = a->u.presentRequest;
                q->resultSetId = odr_strdup(o, "set1"); *q->numberOfRecordsRequested = total; *q->resultSetStartPoint = start; q->referenceId = refid(o, ref);
            }
            else { Z_SearchRequest *q = a->u.searchRequest; q->num_databaseNames = 1; q->databaseNames = (char **) odr_malloc(o, 8); q->databaseNames[0] = odr_strdup(o, "d"); q->query = 0; }
            if (kind == 1) { a = zget_APDU(o, Z_APDU_deleteResultSetRequest); }
            p.request() = a;
        }
        p.move();
        Z_GDU *g = p.response().get();
        if (kind) { h::check(moved == 1 && !g && !p.session().is_closed(), "a request that is no present request is not just passed on"); continue; }
        if (chunkno == 0) { h::check(moved == 1, "without chunk size the request is passed on once, not " + num(moved) + " times"); continue; }
        if (ended && how == 0 && end >= 0 && calls == end + 1) { h::check(p.session().is_closed(), "session not closed though the back end closed it"); continue; }
        h::check(!p.session().is_closed(), "the session is closed");
        h::check(g && g->which == Z_GDU_Z3950, "no response");
        if (why == "diag" || why == "close")
        {
            if (why == "close") h::check(g->u.z3950->which == Z_APDU_close, "the close of the back end is not passed on");
            else h::check(g->u.z3950->which == Z_APDU_presentResponse && g->u.z3950->u.presentResponse->records && g->u.z3950->u.presentResponse->records->which == Z_Records_NSD, "the diagnostic of the back end is not passed on");
            continue;
        }
        h::check(g->u.z3950->which == Z_APDU_presentResponse, "response of another kind");
        Z_PresentResponse *r = g->u.z3950->u.presentResponse;
        h::check(octs(r->referenceId) == ref, "the response has another reference id");
        h::check(ended || (int) sent.size() >= total, "stops before all records are there");
        h::check(r->records && r->records->which == Z_Records_DBOSD, "no records");
        Z_NamePlusRecordList *l = r->records->u.databaseOrSurDiagnostics;
        h::check(l->num_records == (int) sent.size() && *r->numberOfRecordsReturned == (int) sent.size(), num(l->num_records) + " records (announced " + num(*r->numberOfRecordsReturned) + ") instead of " + num(sent.size()));
        for (int i = 0; i < l->num_records; i++) h::check(rec_text(l->records[i]) == sent[i], "record " + num(i) + " is " + rec_text(l->records[i]) + ", expected " + sent[i]);
    }
    // a configuration it does not know
    for (const char *x : {"<f><chunks>1</chunks></f>", "<f><chunk>1</chunk><x/></f>"})
    {
        h::input(string("configuration ") + x);
        mp::filter::PresentChunk f; bool th = false;
        try { configured(&f, x); } catch (mp::filter::FilterException &) { th = true; }
        h::check(th, "an unknown element is accepted");
    }
}
#endif

#ifdef H_AUTH_SIMPLE
static string scratch;
static string put(const string &name, const string &text) { string f = scratch + "/" + name; std::ofstream o(f.c_str(), std::ios::binary); o << text; return f; }
static const char *pick(const char *const *l, int n) { return l[h::rnd(n)]; }
static const char *const USERS[] = {"ann", "Ann", "bob", "b", "*", "carl"}, *const PASS[] = {"", "x", "pw", "a/b"}, *const DBS[] = {"db1", "DB1", "db2", "*", "", "d b", "Default"}, *const TGS[] = {"h1:210/a", "H1:210/A", "h2", "*", ""};
static string low(string s) { for (auto &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool in(const std::vector<string> &l, const string &x) { for (auto &y : l) if (low(y) == low(x) || y == "*") return true; return false; }
static string join(const std::vector<string> &l) { string s; for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + l[i]; return s; }

static Z_APDU *init_of(ODR o, int how, const string &user, const string &pw, bool nopw)
{
    Z_APDU *a = zget_APDU(o, Z_APDU_initRequest);
    Z_IdAuthentication *au = (Z_IdAuthentication *) odr_malloc(o, sizeof *au);
    memset(au, 0, sizeof *au);
    if (how == 0) return a;
    a->u.initRequest->idAuthentication = au;
    if (how == 1) { au->which = Z_IdAuthentication_open; au->u.open = odr_strdup(o, (nopw ? user : user + "/" + pw).c_str()); }
    else if (how == 2)
    {
        au->which = Z_IdAuthentication_idPass; au->u.idPass = (Z_IdPass *) odr_malloc(o, sizeof(Z_IdPass)); memset(au->u.idPass, 0, sizeof(Z_IdPass));
        if (user.length() || odd(2)) au->u.idPass->userId = odr_strdup(o, user.c_str());
        if (!nopw) au->u.idPass->password = odr_strdup(o, pw.c_str());
    }
    else { au->which = Z_IdAuthentication_anonymous; au->u.anonymous = odr_nullval(); }
    return a;
}

struct Reg { std::map<string, std::pair<string, std::vector<string> > > users; std::map<string, std::vector<string> > targets; bool U, T, discard; string text; };
static void make_reg(Reg &r, mp::filter::AuthSimple &f)
{
    string ut = odd(3) ? "# a comment\n\n" : "", tt = ut;
    int k = h::rnd(4);
    for (int i = 0; i < k; i++)
    {
        string u = pick(USERS, 6), p = pick(PASS, 4); std::vector<string> d, t; int m = 1 + h::rnd(4);
        for (int j = 0; j < m; j++) { d.push_back(pick(DBS, 7)); t.push_back(odd(2) ? "h2" : TGS[2 * h::rnd(3)]); }
        for (auto &x : t) if (x.find(':') != string::npos && odd(2)) x = "h3";
        r.users[u] = std::make_pair(p, d); r.targets[u] = t;
        ut += u + ":" + p + ":" + join(d) + "\n"; tt += u + ":" + join(t) + "\n";
    }
    if (odd(2) && ut.size()) ut.erase(ut.size() - 1);
    int c = h::rnd(3); r.U = c != 1; r.T = c != 0; r.discard = odd(2);
    string x = "<f>";
    if (r.U) x += "<userRegister>" + put("users", ut) + "</userRegister>";
    if (r.T) x += "<targetRegister>" + put("targets", tt) + "</targetRegister>";
    if (r.discard) x += "<discardUnauthorisedTargets/>";
    configured(&f, x + "</f>");
    r.text = string(r.U ? "users [" + ut + "] " : "") + (r.T ? "targets [" + tt + "] " : "") + (r.discard ? "discard" : "");
}

static void auth()
{
    h::input("overlong lines", true, 20);
    for (int k = 0; k < 2; k++)
    {
        mp::filter::AuthSimple f; bool th = false;
        string line(3000, 'a');
        try { configured(&f, string("<f>") + (k ? "<targetRegister>" : "<userRegister>") + put("long", "ann:x:db\n" + line + ":y:z\n") + (k ? "</targetRegister></f>" : "</userRegister></f>")); } catch (mp::filter::FilterException &) { th = true; }
        h::check(th, "a register with an overlong line is accepted");
    }
    while (h::time_left())
    {
        Reg r; mp::filter::AuthSimple f;
        make_reg(r, f);
        int passed = 0; std::list<string> went; bool isinit = false;
        Fn be;
        be.f = [&](mp::Package &p) { passed++; Z_GDU *g = p.request().get(); if (isinit && g && g->which == Z_GDU_Z3950) { went.clear(); mp::util::remove_vhost_otherinfo(&g->u.z3950->u.initRequest->otherInfo, went); } };
        mp::RouterChain rc; rc.append(f); rc.append(be);
        std::vector<std::unique_ptr<mp::Session> > ss; std::map<int, string> who;
        for (int i = 0; i < 3; i++) ss.emplace_back(new mp::Session);
        string d = r.text;
        int ops = 1 + h::rnd(12);
        for (int k = 0; k < ops; k++)
        {
            int si = h::rnd(3), what = h::rnd(8);
            mp::Origin org; mp::Package p(*ss[si], org); p.router(rc);
            mp::odr o; passed = 0; isinit = false; went.clear();
            d += " | s" + num(si) + " ";
            if (what < 3)
            {
                isinit = true;
                int how = h::rnd(4); string u = odd(8) ? "" : pick(USERS, 6), pw = pick(PASS, 4); bool nopw = odd(6);
                if (r.users.count(u) && !odd(3)) { pw = r.users[u].first; nopw = false; }
                Z_APDU *a = init_of(o, how, u, pw, nopw);
                std::list<string> tg; int m = h::rnd(4);
                if (r.T) for (int i = 0; i < m; i++) { string t = odd(3) && r.targets.count(u) ? r.targets[u][0] : pick(TGS, 3); if (t.length() && t != "*") tg.push_back(t); }
                if (tg.size()) mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, tg);
                d += "init " + num(how) + " " + u + "/" + (nopw ? "-" : pw) + " to";
                for (auto &t : tg) d += " " + t;
                h::input(d);
                p.request() = a;
                p.move();
                string user = how == 1 || how == 2 ? u : "", pass = (how == 1 || how == 2) && !nopw ? pw : "";
                bool ok; std::list<string> exp = tg;
                if (r.U) { ok = user.length() && r.users.count(user) && r.users[user].first == pass; if (ok) who[si] = user; }
                else
                {
                    std::vector<string> al; if (r.targets.count(user)) al = r.targets[user];
                    ok = true; exp.clear();
                    for (auto &t : tg) { if (in(al, t)) exp.push_back(t); else if (!r.discard) ok = false; }
                    if (exp.empty()) ok = false;
                }
                h::check(passed == (ok ? 1 : 0), ok ? "an init that is allowed does not go on" : "an init that is not allowed goes on");
                if (ok) { h::check(went == exp, "goes on to other targets than the authorised"); h::check(!p.session().is_closed(), "session closed"); }
                else
                {
                    Z_GDU *g = p.response().get();
                    h::check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == Z_APDU_initResponse && !*g->u.z3950->u.initResponse->result, "no refusal");
                    h::check(p.session().is_closed(), "the session stays open after a refusal");
                }
            }
            else if (what < 7)
            {
                bool scan = what >= 5; int m = h::rnd(4);
                Z_APDU *a = zget_APDU(o, scan ? Z_APDU_scanRequest : Z_APDU_searchRequest);
                char **nm = (char **) odr_malloc(o, 8 * (m + 1)); std::vector<string> l;
                for (int i = 0; i < m; i++) { l.push_back(pick(DBS, 7)); nm[i] = odr_strdup(o, l[i].c_str()); }
                if (scan) { a->u.scanRequest->num_databaseNames = m; a->u.scanRequest->databaseNames = nm; }
                else { a->u.searchRequest->num_databaseNames = m; a->u.searchRequest->databaseNames = nm; }
                d += (scan ? "scan " : "search ") + join(l);
                h::input(d);
                if (scan) { YAZ_PQF_Parser pp = yaz_pqf_create(); a->u.scanRequest->termListAndStartPoint = yaz_pqf_scan(pp, o, &a->u.scanRequest->attributeSet, "@attr 1=4 t"); yaz_pqf_destroy(pp); }
                else
                {
                    Z_Query *q = (Z_Query *) odr_malloc(o, sizeof *q); a->u.searchRequest->query = q; q->which = Z_Query_type_2; q->u.type_2 = odr_create_Odr_oct(o, "t", 1);
                }
                p.request() = a;
                h::check(p.request().get() != 0, "harness: request cannot be encoded");
                p.move();
                string bad; bool ok = true;
                if (r.U && who.count(si)) for (auto &x : l) if (ok && !in(r.users[who[si]].second, x)) { ok = false; bad = x; }
                h::check(passed == (ok ? 1 : 0), ok ? "an allowed search or scan does not go on" : "a search or scan of a database that is not allowed goes on");
                if (ok) { h::check(!p.session().is_closed(), "session closed"); continue; }
                Z_GDU *g = p.response().get();
                h::check(g && g->which == Z_GDU_Z3950 && g->u.z3950->which == (scan ? Z_APDU_scanResponse : Z_APDU_searchResponse), "no refusal");
                Z_DefaultDiagFormat *df = 0;
                if (!scan && g->u.z3950->u.searchResponse->records && g->u.z3950->u.searchResponse->records->which == Z_Records_NSD) df = g->u.z3950->u.searchResponse->records->u.nonSurrogateDiagnostic;
                if (scan && g->u.z3950->u.scanResponse->entries && g->u.z3950->u.scanResponse->entries->num_nonsurrogateDiagnostics == 1) { Z_DiagRec *x = g->u.z3950->u.scanResponse->entries->nonsurrogateDiagnostics[0]; if (x->which == Z_DiagRec_defaultFormat) df = x->u.defaultFormat; }
                h::check(df && *df->condition == YAZ_BIB1_ACCESS_TO_SPECIFIED_DATABASE_DENIED, "the refusal has another reason");
                h::check(bad == (df->u.v2Addinfo ? df->u.v2Addinfo : ""), string("the refusal names ") + (df->u.v2Addinfo ? df->u.v2Addinfo : "nothing") + " instead of " + bad);
                h::check(p.session().is_closed(), "the session stays open after a refusal");
            }
            else
            {
                int kind = h::rnd(3);
                d += "other " + num(kind);
                h::input(d);
                if (kind == 1) { Z_GDU *hg = z_get_HTTP_Request(o); p.request() = hg; }
                else if (kind == 2) { Z_APDU *a = zget_APDU(o, Z_APDU_close); p.request() = a; }
                p.move();
                h::check(passed == 1 && !p.session().is_closed() && !p.response().get(), "a request that needs no check is not just passed on");
            }
        }
    }
}

static void auth_threads()
{
    h::input("sessions in parallel", true, 60);
    int round = 0;
    while (h::time_left())
    {
        mp::filter::AuthSimple f;
        bool targets = round++ % 3 == 2;
        if (targets) configured(&f, "<f><targetRegister>" + put("targets", "ann:h1\nbob:h2\n") + "</targetRegister></f>");
        else configured(&f, "<f><userRegister>" + put("users", "ann:x:db1\nbob:y:db2\n") + "</userRegister></f>");
        Fn be; static thread_local int passed; be.f = [](mp::Package &) { passed++; };
        mp::RouterChain rc; rc.append(f); rc.append(be);
        std::vector<std::thread> ts; std::vector<int> bad(4, 0);
        for (int t = 0; t < 4; t++) ts.emplace_back([&, t] {
            for (int k = 0; k < 60; k++)
            {
                mp::Session s; mp::Origin org; bool ann = (t + k) & 1; string u = targets && k % 5 == 0 ? "new" + num(t * 1000 + k) : ann ? "ann" : "bob";
                passed = 0;
                { mp::Package p(s, org); p.router(rc); mp::odr o; Z_APDU *a = init_of(o, 1, u, ann ? "x" : "y", false); if (targets) { std::list<string> l(1, ann ? "h1" : "h2"); mp::util::set_vhost_otherinfo(&a->u.initRequest->otherInfo, o, l); } p.request() = a; p.move(); }
                if (passed != (u[0] == 'n' ? 0 : 1)) bad[t]++;
                for (int j = 0; j < 2 && !targets; j++)
                {
                    mp::Package p(s, org); p.router(rc); mp::odr o; Z_APDU *a = zget_APDU(o, Z_APDU_searchRequest);
                    char *nm[1] = {odr_strdup(o, j ? "db1" : "db2")}; a->u.searchRequest->num_databaseNames = 1; a->u.searchRequest->databaseNames = nm;
                    Z_Query *q = (Z_Query *) odr_malloc(o, sizeof *q); a->u.searchRequest->query = q; q->which = Z_Query_type_2; q->u.type_2 = odr_create_Odr_oct(o, "t", 1);
                    passed = 0; p.request() = a; p.move();
                    if (passed != (ann == (j == 1) ? 1 : 0)) bad[t]++;
                }
            } });
        for (auto &t : ts) t.join();
        for (int t = 0; t < 4; t++) h::check(!bad[t], num(bad[t]) + " wrong decisions in thread " + num(t));
    }
}
#endif

int main(int argc, char **argv)
{
    h::init(argc, argv);
    yaz_log_init_level(0);
    if (h::mode == "pkg") pkg();
#ifdef H_PRESENT_CHUNK
    if (h::mode == "chunk") chunk();
#endif
#ifdef H_AUTH_SIMPLE
    if (h::mode == "auth" || h::mode == "auththreads")
    {
        char dir[1000];
        h::check(getcwd(dir, sizeof dir) != 0, "harness: no scratch directory");
        scratch = dir;                          // the check runs this in a directory of its own
        if (h::mode == "auth") auth(); else auth_threads();
        for (const char *n : {"users", "targets", "long"}) unlink((scratch + "/" + n).c_str());
    }
#endif
    return h::done();
}
