// Replay harness for src/util.cpp: compares the functions with plain oracles.
#include "hcommon.hpp"
#include <metaproxy/package.hpp>
#include <metaproxy/util.hpp>
#include <yaz/comstack.h>
#include <yaz/diagbib1.h>
#include <yaz/log.h>
#include <yaz/match_glob.h>
#include <yaz/oid_db.h>
#include <yaz/otherinfo.h>
#include <map>
namespace mp = metaproxy_1;
namespace mu = metaproxy_1::util;
using std::string;
static string num(long long v) { return std::to_string(v); }
static bool odd(int n) { return h::rnd(n) == 0; }
static string pick(std::initializer_list<const char *> l) { return *(l.begin() + h::rnd(l.size())); }

// ---------------------------------------------------------------- piggyback
static long long small_num()
{
    switch (h::rnd(4)) { case 0: return h::rnd(6); case 1: return h::rnd(40); case 2: return (long long) h::rnd() % 2000000000LL; default: return (long long) h::rnd(1000) - 20; }
}
struct Want { long long n; const char *e; };
static Want want(long long s, long long l, long long m, const char *se, const char *me, long long hits, const char *before)
{
    if (hits < s) return Want{hits, se ? se : before};
    if (hits > l) return Want{0, 0};
    return Want{m < hits ? m : hits, me ? me : before};
}
static Z_ElementSetNames *esn(ODR o, const char *n, int kind)
{
    if (kind == 0) return 0;
    Z_ElementSetNames *e = (Z_ElementSetNames *) odr_malloc(o, sizeof *e);
    if (kind == 1) { e->which = Z_ElementSetNames_generic; e->u.generic = odr_strdup(o, n); }
    else { e->which = Z_ElementSetNames_databaseSpecific; e->u.databaseSpecific = 0; }
    return e;
}
static bool same(const char *a, const char *b) { return a == b || (a && b && !strcmp(a, b)); }
static void piggy()
{
    while (h::time_left())
    {
        mp::odr odr;
        long long s = small_num(), l = small_num(), m = small_num(), hits = small_num();
        if (odd(3)) l = s; if (odd(4)) hits = odd(2) ? s : l; if (odd(6)) m = hits;
        const char *se = odd(3) ? 0 : "S", *me = odd(3) ? 0 : "M", *before = odd(2) ? 0 : "B";
        h::input("small " + num(s) + " large " + num(l) + " medium " + num(m) + " hits " + num(hits) + " names " + (se ? se : "-") + (me ? me : "-") + " before " + (before ? before : "-"));
        Want w = want(s, l, m, se, me, hits, before);
        Odr_int n = 77; const char *e = before;
        mu::piggyback(s, l, m, se, me, hits, n, &e);
        h::check(n == w.n, "piggyback: " + num(n) + " records instead of " + num(w.n));
        h::check(same(e, w.e), "piggyback: wrong element set name");
        n = 77; mu::piggyback(s, l, m, se, me, hits, n, 0);
        h::check(n == w.n, "piggyback without element set name: " + num(n));
        if (s == (int) s && l == (int) l && m == (int) m && hits == (int) hits)
        {
            int k = 77; mu::piggyback((int) s, (int) l, (int) m, (int) hits, k);
            h::check(k == w.n, "piggyback (int): " + num(k));
        }
        Z_APDU *a = zget_APDU(odr, Z_APDU_searchRequest);
        Z_SearchRequest *r = a->u.searchRequest;
        *r->smallSetUpperBound = s; *r->largeSetLowerBound = l; *r->mediumSetPresentNumber = m;
        int ks = se ? 1 : odd(2) ? 0 : 2, km = me ? 1 : odd(2) ? 0 : 2;
        r->smallSetElementSetNames = esn(odr, "S", ks); r->mediumSetElementSetNames = esn(odr, "M", km);
        n = 77; e = before;
        mu::piggyback_sr(r, hits, n, &e);
        h::check(n == w.n, "piggyback_sr: " + num(n) + " records instead of " + num(w.n));
        h::check(same(e, w.e), "piggyback_sr: wrong element set name");
        w = want(s, l, m, se, me, hits, 0);
        Z_RecordComposition *c = mu::piggyback_to_RecordComposition(odr, hits, r);
        h::check(!c == !w.e, "piggyback_to_RecordComposition: composition without element set or element set without composition");
        if (c) h::check(c->which == Z_RecordComp_simple && c->u.simple->which == Z_ElementSetNames_generic && same(c->u.simple->u.generic, w.e), "piggyback_to_RecordComposition: wrong element set");
        h::check(same(mu::record_composition_to_esn(c), w.e), "record_composition_to_esn: simple");
        // record composition in its other forms
        Z_RecordComposition rc; Z_CompSpec cs; Z_Specification sp; Z_ElementSpec es;
        memset(&rc, 0, sizeof rc); memset(&cs, 0, sizeof cs); memset(&sp, 0, sizeof sp); memset(&es, 0, sizeof es);
        const char *exp = 0;
        rc.which = Z_RecordComp_complex; rc.u.complex = &cs;
        Z_External ext; memset(&ext, 0, sizeof ext);
        if (!odd(4)) { cs.generic = &sp; if (!odd(4)) { sp.elementSpec = &es; if (!odd(3)) { es.which = Z_ElementSpec_elementSetName; es.u.elementSetName = (char *) "F"; exp = "F"; } else { es.which = Z_ElementSpec_externalSpec; es.u.externalSpec = &ext; } } }
        h::check(same(mu::record_composition_to_esn(&rc), exp), "record_composition_to_esn: complex");
        rc.which = Z_RecordComp_simple; rc.u.simple = esn(odr, "G", odd(2) ? 1 : 2);
        h::check(same(mu::record_composition_to_esn(&rc), rc.u.simple->which == Z_ElementSetNames_generic ? "G" : 0), "record_composition_to_esn: simple");
        h::check(!mu::record_composition_to_esn(0), "record_composition_to_esn: none");
    }
}

// ---------------------------------------------------------------- reference ids
static Z_ReferenceId **refid(Z_APDU *a)
{
    switch (a->which)
    {
#define K(x) case Z_APDU_##x: return &a->u.x->referenceId;
    K(initRequest) K(initResponse) K(searchRequest) K(searchResponse) K(presentRequest) K(presentResponse)
    K(deleteResultSetRequest) K(deleteResultSetResponse) K(accessControlRequest) K(accessControlResponse)
    K(resourceControlRequest) K(resourceControlResponse) K(triggerResourceControlRequest) K(resourceReportRequest)
    K(resourceReportResponse) K(scanRequest) K(scanResponse) K(sortRequest) K(sortResponse) K(segmentRequest)
    K(extendedServicesRequest) K(extendedServicesResponse) K(close)
    }
    return 0;
}
static const int kinds[] = { Z_APDU_initRequest, Z_APDU_initResponse, Z_APDU_searchRequest, Z_APDU_searchResponse, Z_APDU_presentRequest, Z_APDU_presentResponse,
    Z_APDU_deleteResultSetRequest, Z_APDU_deleteResultSetResponse, Z_APDU_accessControlRequest, Z_APDU_accessControlResponse, Z_APDU_resourceControlRequest,
    Z_APDU_resourceControlResponse, Z_APDU_triggerResourceControlRequest, Z_APDU_resourceReportRequest, Z_APDU_resourceReportResponse, Z_APDU_scanRequest,
    Z_APDU_scanResponse, Z_APDU_sortRequest, Z_APDU_sortResponse, Z_APDU_segmentRequest, Z_APDU_extendedServicesRequest, Z_APDU_extendedServicesResponse, Z_APDU_close };
static Z_APDU *get(ODR o, int k)
{
    Z_APDU *a = zget_APDU(o, k);
    if (a) return a;
    // kinds YAZ has no defaults for: an empty record of the kind is enough here
    a = (Z_APDU *) odr_malloc(o, sizeof *a); a->which = k;
    void *p = odr_malloc(o, 4096); memset(p, 0, 4096);
    a->u.initRequest = (Z_InitRequest *) p;
    return a;
}
static string bytes(Z_ReferenceId *r) { return r ? "+" + string(r->buf, r->len) : "-"; }
static void addref(ODR o, Z_APDU *a, const string &r) { *refid(a) = odr_create_Odr_oct(o, r.data(), r.size()); }
static void refs()
{
    const int nk = sizeof kinds / sizeof *kinds;
    while (h::time_left())
    {
        mp::odr odr;
        string id; int len = odd(4) ? 0 : h::rnd(12);
        for (int i = 0; i < len; i++) id += (char) (odd(3) ? 0 : h::rnd(256));
        int ks = kinds[h::rnd(nk)], kd = kinds[h::rnd(nk)];
        bool none = odd(8), noid = odd(5), old = odd(2);
        int err = odd(3) ? 0 : 1 + h::rnd(300);
        const char *add = odd(3) ? 0 : odd(3) ? "" : "more";
        h::input("request kind " + (none ? string("none") : num(ks)) + " reference id " + (noid ? "none" : h::esc(id)) + " other kind " + num(kd) + " error " + num(err) + " text " + (add ? add : "-"));
        Z_APDU *src = none ? 0 : get(odr, ks);
        if (src && !noid) addref(odr, src, id);
        string exp = src && !noid ? "+" + id : "-";
        for (int k : kinds) { Z_APDU *a = get(odr, k); h::check(mu::get_referenceId(a) == refid(a), "get_referenceId: wrong place for kind " + num(k)); }
        Z_APDU *dst = get(odr, kd);
        if (old) addref(odr, dst, "old");
        mu::transfer_referenceId(odr, src, dst);
        h::check(bytes(*refid(dst)) == exp, "transfer_referenceId: " + h::esc(bytes(*refid(dst))));
        h::check(!src || bytes(*refid(src)) == exp, "transfer_referenceId changed the request");
        Z_APDU *a;
        if (zget_APDU(odr, kd))
        {
            a = mu::create_APDU(odr, kd, src); h::check(a->which == kd && bytes(*refid(a)) == exp, "create_APDU");
            a = odr.create_APDU(kd, src); h::check(a->which == kd && bytes(*refid(a)) == exp, "odr::create_APDU");
        }
        int gc; string ga;
        auto nsd = [&](Z_Records *r, const char *f) {
            if (!err) { h::check(!r, string(f) + ": records without error"); return; }
            h::check(r && r->which == Z_Records_NSD, string(f) + ": error not reported");
            mu::get_default_diag(r->u.nonSurrogateDiagnostic, gc, ga);
            h::check(gc == err && ga == (add ? add : ""), string(f) + ": wrong error or text");
        };
        a = odr.create_searchResponse(src, err, add);
        h::check(a->which == Z_APDU_searchResponse && bytes(*refid(a)) == exp, "create_searchResponse");
        nsd(a->u.searchResponse->records, "create_searchResponse");
        h::check(!*a->u.searchResponse->searchStatus == (err != 0), "create_searchResponse: status");
        a = odr.create_presentResponse(src, err, add);
        h::check(a->which == Z_APDU_presentResponse && bytes(*refid(a)) == exp, "create_presentResponse");
        nsd(a->u.presentResponse->records, "create_presentResponse");
        h::check(*a->u.presentResponse->presentStatus == (err ? Z_PresentStatus_failure : Z_PresentStatus_success), "create_presentResponse: status");
        a = odr.create_scanResponse(src, err, add);
        h::check(a->which == Z_APDU_scanResponse && bytes(*refid(a)) == exp, "create_scanResponse");
        Z_ListEntries *le = a->u.scanResponse->entries;
        h::check(le && le->num_entries == 0 && le->num_nonsurrogateDiagnostics == (err ? 1 : 0), "create_scanResponse: entries");
        if (err) { Z_DiagRec *d = le->nonsurrogateDiagnostics[0]; h::check(d->which == Z_DiagRec_defaultFormat, "create_scanResponse: diagnostic"); mu::get_default_diag(d->u.defaultFormat, gc, ga); h::check(gc == err && ga == (add ? add : ""), "create_scanResponse: wrong error or text"); }
        h::check(*a->u.scanResponse->scanStatus == (err ? Z_Scan_failure : Z_Scan_success), "create_scanResponse: status");
        a = odr.create_initResponse(src, err, add);
        h::check(a->which == Z_APDU_initResponse && bytes(*refid(a)) == exp, "create_initResponse");
        h::check(!*a->u.initResponse->result == (err != 0), "create_initResponse: result");
        gc = -1; ga = "none"; mu::get_init_diagnostics(a->u.initResponse, gc, ga);
        h::check(err ? gc == err && ga == (add ? add : "") : gc == -1, "create_initResponse: wrong error or text");
        h::check(!strncmp(a->u.initResponse->implementationName, "Metaproxy", 9), "create_initResponse: name");
        a = odr.create_close(src, err, add);
        h::check(a->which == Z_APDU_close && bytes(*refid(a)) == exp, "create_close");
        h::check(*a->u.close->closeReason == err && same(a->u.close->diagnosticInformation, add), "create_close: reason or text");
        char t1[] = "text one"; Z_DefaultDiagFormat df; Odr_int cond = err;
        memset(&df, 0, sizeof df); df.condition = &cond; df.which = odd(2) ? Z_DefaultDiagFormat_v2Addinfo : Z_DefaultDiagFormat_v3Addinfo;
        if (df.which == Z_DefaultDiagFormat_v2Addinfo) df.u.v2Addinfo = t1; else df.u.v3Addinfo = t1;
        mu::get_default_diag(&df, gc, ga); h::check(gc == err && ga == t1, "get_default_diag");
    }
}

// ---------------------------------------------------------------- HTTP
static void http()
{
    while (h::time_left())
    {
        mp::odr odr;
        Z_GDU *g = z_get_HTTP_Request(odr);
        Z_HTTP_Request *r = g->u.HTTP_Request;
        r->method = odr_strdup(odr, "GET"); r->path = odr_strdup(odr, "/");
        string ver = pick({"1.0", "1.1", "1.1", "0.9", "1.", "1.00", ""}), con, names;
        r->version = odr_strdup(odr, ver.c_str());
        std::vector<std::pair<string, string>> hs;
        int k = h::rnd(5);
        for (int i = 0; i < k; i++)
        {
            string n = pick({"Connection", "Host", "connection", "X", "Connectio", "Accept"}), v = pick({"Keep-Alive", "close", "keep-alive", "Close", "", "v1", "v2"});
            hs.push_back({n, v}); z_HTTP_header_add(odr, &r->headers, n.c_str(), v.c_str());
            names += " " + n + "=" + v;
        }
        int code = odd(2) ? 200 : 100 + h::rnd(500);
        string body; int len = odd(4) ? 0 : h::rnd(30);
        for (int i = 0; i < len; i++) body += (char) (odd(6) ? 0 : h::rnd(256));
        h::input("version " + ver + " code " + num(code) + " headers" + names + " body " + h::esc(body));
        for (const char *q : {"Connection", "Host", "connection", "X", "Y", "Connectio", "Accept", ""})
        {
            string e; for (auto &x : hs) if (x.first == q) { e = x.second; break; }
            h::check(mu::http_header_value(r->headers, q) == e, string("http_header_value of ") + q);
        }
        Z_HTTP_Header nov = { (char *) "N", 0, r->headers }; h::check(mu::http_header_value(&nov, "N") == "", "http_header_value: header without value");
        const char *c = z_HTTP_header_lookup(r->headers, "Connection");
        bool keep = ver == "1.0" ? c && !strcmp(c, "Keep-Alive") : !(c && !strcmp(c, "close"));
        for (int how = 0; how < 3; how++)
        {
            mp::Package p;
            Z_GDU *res;
            bool before = odd(5);
            if (before) p.session().close();
            if (how == 0) res = odr.create_HTTP_Response(p.session(), r, code);
            else if (how == 1) res = odr.create_HTTP_Response_details(p.session(), r, code, odd(2) ? 0 : "why");
            else { p.request() = g; mu::http_response(p, body, code); res = p.response().get(); }
            h::check(res && res->which == Z_GDU_HTTP_Response, "no HTTP response");
            Z_HTTP_Response *x = res->u.HTTP_Response;
            h::check(x->code == code, "response code");
            h::check(p.session().is_closed() == (before || !keep), keep ? "session closed though the client keeps the connection" : "session kept open though the client closes the connection");
            string v = mu::http_header_value(x->headers, "Connection");
            h::check((v == "Keep-Alive") == keep, "Connection header '" + v + "'");
            h::check(ver == "1.0" ? !strcmp(x->version, "1.0") : !strcmp(x->version, "1.1"), "response version");
            if (how == 2) h::check(string(x->content_buf ? x->content_buf : "", x->content_len) == body, "body is not what was given: " + h::esc(string(x->content_buf, x->content_len)));
        }
    }
}

// ---------------------------------------------------------------- names and addresses
static string lowered(string s) { for (char &c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static string word(const char *alpha, int n)
{
    string s; int k = h::rnd(n), m = strlen(alpha);
    for (int i = 0; i < k; i++) s += alpha[h::rnd(m)];
    return s;
}
static int sg(long long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static string show(const std::list<string> &l) { string o; for (auto &x : l) o += "[" + h::esc(x) + "]"; return o; }
static void text()
{
    while (h::time_left())
    {
        // names
        string s = word("aZAz[@`{0\xc3\x84\xe4 .", 9);
        if (odd(20)) s += string(1, '\0') + "A";
        h::input("name " + h::esc(s));
        h::check(mu::database_name_normalize(s) == lowered(s), "database_name_normalize: " + h::esc(mu::database_name_normalize(s)));
        std::list<string> a, b;
        for (int k = h::rnd(4); k--;) a.push_back(word("aAbB", 3));
        for (auto &x : a) b.push_back(odd(6) ? word("aAbB", 3) : odd(2) ? lowered(x) : x);
        if (odd(5)) b.push_back(word("aAbB", 3));
        if (odd(5) && !b.empty()) b.pop_front();
        if (odd(8) && !a.empty()) a.pop_back();
        h::input("databases " + show(a) + " and " + show(b));
        bool eq = a.size() == b.size();
        for (auto i = a.begin(), j = b.begin(); i != a.end() && j != b.end(); i++, j++) if (lowered(*i) != lowered(*j)) eq = false;
        h::check(mu::match(a, b) == eq, "match");
        // bytes
        string x, y; for (int k = h::rnd(5); k--;) x += (char) (odd(2) ? 0 : h::rnd(256));
        y = x; if (odd(2) && !y.empty()) y[h::rnd(y.size())] ^= 1 << h::rnd(8); if (odd(2)) y += (char) h::rnd(256); if (odd(4) && !y.empty()) y.erase(y.size() - 1);
        h::input("compare " + h::esc(x) + " with " + h::esc(y));
        int c = memcmp(x.data(), y.data(), std::min(x.size(), y.size()));
        char *xb = (char *) malloc(x.size()), *yb = (char *) malloc(y.size()); memcpy(xb, x.data(), x.size()); memcpy(yb, y.data(), y.size());
        h::check(mu::memcmp2(xb, x.size(), yb, y.size()) == (c ? sg(c) : sg((int) x.size() - (int) y.size())), "memcmp2");
        free(xb); free(yb);
        // addresses
        string z = odd(8) ? word("a/+:", 8) : pick({"localhost:9999", "z.org", "tcp://h", "unix:/tmp/s", "ssl://h:1", ""}) + (odd(6) ? "" : "/") + word("ab+/ ", 9);
        h::input("address " + z);
        string host; std::list<string> db;
        mu::split_zurl(z, host, db);
        const char *args = 0; cs_get_host_args(z.c_str(), &args);
        string ehost = z; std::list<string> edb;
        if (args && *args)
        {
            ehost = z.substr(0, args - z.c_str() - 1);
            string rest = args; size_t p;
            while ((p = rest.find('+')) != string::npos) { edb.push_back(rest.substr(0, p)); rest.erase(0, p + 1); }
            edb.push_back(rest);
        }
        h::check(host == ehost, "split_zurl: host " + host);
        h::check(db == edb, "split_zurl: databases " + show(db));
        {
            mp::odr odr; int n = -5; char **names = 0;
            bool r = mu::set_databases_from_zurl(odr, z, &n, &names);
            h::check(r == !edb.empty(), "set_databases_from_zurl: result");
            if (r) { h::check(n == (int) edb.size(), "set_databases_from_zurl: number"); int i = 0; for (auto &q : edb) h::check(q == names[i++], "set_databases_from_zurl: name"); }
            else h::check(n == -5 && !names, "set_databases_from_zurl: changed without databases");
        }
        // address patterns
        string pat; int k = h::rnd(4);
        for (int i = 0; i < k; i++) pat += pick({" ", "  ", "10.*", "10.1.2.3", "*", "::ffff:10.*", "::1", "1?.*", "fe80::*", "a", ""}) + (odd(3) ? "" : " ");
        string val = pick({"10.1.2.3", "::ffff:10.1.2.3", "::ffff:", "::1", "", "::ffff", "::FFFF:10.1.2.3", "11.0.0.1", "fe80::12", "::ffff:a", "a", "x::ffff:10.1.2.3"});
        h::input("pattern '" + pat + "' address " + val);
        bool some = false, hit = false;
        for (size_t i = 0; i <= pat.size();)
        {
            size_t e = pat.find(' ', i); if (e == string::npos) e = pat.size();
            string it = pat.substr(i, e - i); i = e + 1;
            if (it.empty()) continue;
            some = true;
            if (yaz_match_glob(it.c_str(), val.c_str())) hit = true;
            if (it.find(':') == string::npos && val.size() > 7 && val.substr(0, 7) == "::ffff:" && yaz_match_glob(it.c_str(), val.c_str() + 7)) hit = true;
        }
        h::check(mu::match_ip(pat, val) == (hit || !some), "match_ip");
        // virtual hosts
        {
            mp::odr odr; Z_OtherInformation *oi = 0; std::list<string> in, out;
            for (int q = h::rnd(4); q--;) in.push_back(word("ab/", 5) + "h");
            if (odd(3)) yaz_oi_set_string_oid(&oi, odr, yaz_oid_userinfo_cookie, 1, "c");
            h::input("virtual hosts " + show(in));
            mu::set_vhost_otherinfo(&oi, odr, in);
            mu::get_vhost_otherinfo(oi, out); h::check(out == in, "get_vhost_otherinfo: " + show(out));
            out.clear();
            int n = mu::remove_vhost_otherinfo(&oi, out); h::check(out == in && n == (int) in.size(), "remove_vhost_otherinfo: " + show(out));
            out.clear(); n = mu::remove_vhost_otherinfo(&oi, out); h::check(out.empty() && n == 0, "virtual hosts left after removing them");
            mu::set_vhost_otherinfo(&oi, odr, string("one"), 1); mu::get_vhost_otherinfo(oi, out); h::check(out == std::list<string>{"one"}, "set_vhost_otherinfo: one");
        }
    }
}

int main(int argc, char **argv)
{
    h::init(argc, argv);
    yaz_log_init_level(0);
    if (h::mode == "piggy") piggy();
    else if (h::mode == "ref") refs();
    else if (h::mode == "http") http();
    else text();
    return h::done();
}
