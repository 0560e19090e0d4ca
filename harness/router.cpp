// Replay harness for the routers: random chains and random XML configurations,
// compared with an independent reading of the configuration rules.
#include "config.hpp"
#include <metaproxy/filter.hpp>
#include <metaproxy/router_chain.hpp>
#include <metaproxy/xmlutil.hpp>
#include "router_flexml.hpp"
#include "factory_filter.hpp"
#include "hcommon.hpp"
#include <list>
#include <map>
#include <memory>
#include <yaz/log.h>
namespace mp = metaproxy_1;

struct Ev { int what; const void *f; int arg; const void *node; bool test; bool operator==(const Ev &o) const { return what == o.what && f == o.f && arg == o.arg && node == o.node && test == o.test; } };
static std::vector<Ev> evs;
static int alive = 0;
struct TF : public mp::filter::Base {
    std::string type; int nr;
    TF(const std::string &t = "") : type(t) { static int c = 0; nr = ++c; alive++; }
    ~TF() { alive--; }
    void process(mp::Package &) const {}
    const xmlNode *cfg = 0; int ncfg = 0; bool ctest = false;
    void configure(const xmlNode *n, bool t, const char *) { cfg = n; ncfg++; ctest = t; }
    void start() const { evs.push_back(Ev{1, this, 0, 0, false}); }
    void stop(int s) const { evs.push_back(Ev{2, this, s, 0, false}); }
};
static std::vector<TF *> made;
template <int N> static mp::filter::Base *mk() { TF *f = new TF(std::string(1, char('a' + N))); made.push_back(f); return f; }

static void chain()
{
    while (h::time_left())
    {
        int n = h::rnd(6);
        std::string d = "chain of " + std::to_string(n);
        std::vector<std::unique_ptr<TF>> fs;
        std::vector<const mp::filter::Base *> exp;
        mp::RouterChain r;
        h::input(d);
        struct P { std::unique_ptr<mp::RoutePos> p; size_t i; };
        std::vector<P> ps;
        auto app = [&](int k) {
            for (int i = 0; i < k; i++)
            {
                if (fs.empty() || h::rnd(4)) fs.emplace_back(new TF);
                TF *f = fs[h::rnd(fs.size())].get();
                h::check(&r.append(*f) == &r, "append does not return the chain");
                exp.push_back(f);
            }
        };
        app(n);
        if (n == 0) { fs.clear(); }
        evs.clear(); r.start();
        { std::vector<Ev> w; for (auto f : exp) w.push_back(Ev{1, f, 0, 0, false}); h::check(evs == w, "start does not reach every filter once in order"); }
        int sg = h::rnd(100);
        evs.clear(); r.stop(sg);
        { std::vector<Ev> w; for (auto f : exp) w.push_back(Ev{2, f, sg, 0, false}); h::check(evs == w, "stop does not reach every filter once in order"); }
        int ops = h::rnd(25);
        static const char *routes[] = { 0, "", "start", "x" };
        for (int k = 0; k < ops; k++)
        {
            int o = h::rnd(ps.empty() ? 1 : 6);
            if (o == 0) { ps.push_back(P{std::unique_ptr<mp::RoutePos>(r.createpos()), 0}); d += " create"; h::input(d); h::check(!!ps.back().p, "createpos returns nothing"); }
            else if (o == 1) { size_t j = h::rnd(ps.size()); d += " clone" + std::to_string(j); h::input(d); size_t at = ps[j].i; mp::RoutePos *c = ps[j].p->clone(); h::check(c && c != ps[j].p.get(), "clone is not a new position"); ps.push_back(P{std::unique_ptr<mp::RoutePos>(c), at}); }
            else if (o == 2 && ps.size() > 1) { size_t j = h::rnd(ps.size()); d += " drop" + std::to_string(j); h::input(d); ps.erase(ps.begin() + j); }
            else
            {
                size_t j = h::rnd(ps.size());
                const char *rt = routes[h::rnd(4)];
                d += " move" + std::to_string(j); h::input(d);
                const mp::filter::Base *g = ps[j].p->move(rt);
                const mp::filter::Base *w = ps[j].i < exp.size() ? exp[ps[j].i] : 0;
                h::check(g == w, "move hands out the wrong filter");
                if (ps[j].i < exp.size()) ps[j].i++;
            }
        }
    }
}

// ---- FleXML: independent reading of the configuration rules
static const char *MP = "http://indexdata.com/metaproxy";
struct Reject { std::string why; };
struct Slot { std::string type; const xmlNode *node; bool shared; };  // filter instance
struct Ref {
    std::map<std::string, int> ids;               // filter id -> instance
    std::vector<Slot> inst;                       // in creation order
    std::map<std::string, std::vector<int>> routes;
    std::string start = "start";
};
static const xmlNode *el(const xmlNode *n) { while (n && n->type != XML_ELEMENT_NODE) n = n->next; return n; }
static bool is(const xmlNode *n, const char *k) { return n && n->ns && n->ns->href && !strcmp((const char *) n->ns->href, MP) && !strcmp((const char *) n->name, k); }
static std::string av(const xmlAttr *a) { return a->children && a->children->type == XML_TEXT_NODE ? (const char *) a->children->content : ""; }
static bool known(const std::string &t) { return t.size() == 1 && t[0] >= 'a' && t[0] <= 'c'; }
static std::map<std::string, std::string> ats(const xmlNode *n, std::set<std::string> ok)
{
    std::map<std::string, std::string> m;
    for (const xmlAttr *a = n->properties; a; a = a->next)
    {
        std::string nm = (const char *) a->name;
        if (nm == "base") continue;
        if (!ok.count(nm)) throw Reject{"attribute " + nm};
        m[nm] = av(a);
    }
    return m;
}
static void rroute(Ref &r, const xmlNode *n, std::vector<int> &l)
{
    for (n = el(n); n; n = el(n->next))
        if (is(n, "filters")) rroute(r, n->children, l);
        else if (is(n, "filter"))
        {
            auto m = ats(n, {"refid", "type"});
            if (m["refid"] != "")
            {
                if (!r.ids.count(m["refid"])) throw Reject{"refid"};
                l.push_back(r.ids[m["refid"]]);
            }
            else if (m["type"] != "")
            {
                if (!known(m["type"])) throw Reject{"type"};
                r.inst.push_back(Slot{m["type"], n, false});
                l.push_back(r.inst.size() - 1);
            }
        }
        else throw Reject{"not a filter"};
}
static void rrefs(Ref &r, const xmlNode *n)
{
    for (n = el(n); n; n = el(n->next))
        if (is(n, "filters")) rrefs(r, n->children);
        else if (is(n, "filter"))
            for (const xmlNode *c = el(n->children); c; c = el(c->next))
                for (const xmlAttr *a = c->properties; a; a = a->next)
                    if (!strcmp((const char *) a->name, "route") && !r.routes.count(av(a))) throw Reject{"route ref"};
}
static Ref interpret(xmlDoc *d)
{
    Ref r;
    const xmlNode *root = xmlDocGetRootElement(d);
    if (!is(root, "metaproxy")) throw Reject{"root"};
    const xmlNode *n = el(root->children);
    if (is(n, "dlpath")) n = el(n->next);
    if (!is(n, "start")) throw Reject{"no start"};
    auto m = ats(n, {"route"});
    if (m.count("route")) r.start = m["route"];
    n = el(n->next);
    if (is(n, "filters"))
    {
        for (const xmlNode *f = el(n->children); f; f = el(f->next))
        {
            if (!is(f, "filter")) throw Reject{"not a filter"};
            auto m = ats(f, {"id", "type"});
            if (!known(m["type"])) throw Reject{"type"};
            if (r.ids.count(m["id"])) throw Reject{"dup filter"};
            r.inst.push_back(Slot{m["type"], f, true});
            r.ids[m["id"]] = r.inst.size() - 1;
        }
        n = el(n->next);
    }
    if (!is(n, "routes")) throw Reject{"no routes"};
    const xmlNode *rn = n;
    int nr = 0;
    for (const xmlNode *t = el(n->children); t; t = el(t->next), nr++)
    {
        if (!is(t, "route")) throw Reject{"not a route"};
        auto m = ats(t, {"id"});
        std::vector<int> l;
        rroute(r, t->children, l);
        if (r.routes.count(m["id"])) throw Reject{"dup route"};
        r.routes[m["id"]] = l;
    }
    if (!nr) throw Reject{"no route"};
    if (el(n->next)) throw Reject{"trailing"};
    for (const xmlNode *k = el(root->children); k; k = el(k->next))
        if (is(k, "filters")) rrefs(r, k->children);
    for (const xmlNode *t = el(rn->children); t; t = el(t->next)) rrefs(r, t->children);
    if (!r.routes.count(r.start)) throw Reject{"start route"};
    return r;
}

// ---- generator
static bool odd(int n) { return h::rnd(n) == 0; }
static std::string pick(std::initializer_list<const char *> l) { return *(l.begin() + h::rnd(l.size())); }
static int sane;   // larger: fewer defects
static std::string attr(const char *k, const std::string &v) { return std::string(" ") + k + "=\"" + v + "\""; }
static std::string junk() { return odd(sane) ? pick({" bogus=\"1\"", " base=\"b\"", " route=\"start\"", " id=\"z\"", " xml:base=\"q\"", " x:type=\"a\""}) : odd(12) ? " base=\"b\"" : ""; }
static std::string ws() { return odd(6) ? pick({" ", "\n", "<!-- c -->", "text", "<?pi x?>", "<![CDATA[y]]>"}) : ""; }
static std::string ty() { return odd(sane) ? pick({"zz", "", "aa"}) : pick({"a", "b", "c"}); }
static std::string id() { return pick({"f1", "f2", "f3"}); }
static std::string rid() { return odd(sane) ? pick({"r9", "", "Start", "start "}) : pick({"start", "r1", "r2"}); }
static std::string kid()
{
    std::string s;
    int k = odd(3) ? 1 + h::rnd(2) : 0;
    for (int i = 0; i < k; i++)
    {
        std::string t = pick({"target", "x:y", "virtual"});
        s += ws() + "<" + t + (odd(2) ? attr("route", rid()) : odd(2) ? attr("name", "r9") : "") + ">" + (odd(4) ? "<deep route=\"r9\"/>" : "t") + "</" + t + ">";
    }
    return s;
}
static std::string flist(int depth)
{
    std::string s;
    int k = h::rnd(4);
    for (int i = 0; i < k; i++)
    {
        s += ws();
        if (depth < 3 && odd(5)) s += "<filters" + (odd(4) ? attr("base", "b") : "") + ">" + flist(depth + 1) + "</filters>";
        else if (odd(sane)) s += pick({"<x:filter refid=\"f1\"/>", "<filte/>", "<route/>", "<x:filters><filter refid='f1'/></x:filters>"});
        else
        {
            std::string e = "<filter";
            int q = h::rnd(8);
            if (q < 4) e += attr("refid", odd(sane) ? "nope" : id());
            else if (q < 7) e += attr("type", ty());
            if (q == 3) e += attr("type", ty());
            if (q == 7 && odd(2)) e += attr("refid", "") + attr("type", ty());
            e += junk() + ">" + kid() + "</filter>";
            s += e;
        }
    }
    return s + ws();
}
static std::string gen1()
{
    sane = odd(3) ? 6 : odd(2) ? 40 : 100000;
    std::string s = "<metaproxy xmlns=\"" + std::string(odd(sane) ? "http://x" : MP) + "\" xmlns:x=\"http://x\" xmlns:m=\"" + MP + "\">" + ws();
    if (odd(5)) s += "<dlpath>/nonexistent</dlpath>" + ws();
    if (!odd(sane)) s += "<start" + (odd(sane) ? "" : odd(3) ? attr("route", rid()) : attr("route", "start")) + junk() + "/>" + ws();
    if (odd(sane)) s += pick({"<start/>", "<filters/>", "<dlpath/>", "<x:start/>"});
    if (!odd(5))
    {
        s += "<filters>" + ws();
        std::vector<std::string> ids;
        for (const char *i : {"f1", "f2", "f3"}) if (!odd(8) || sane > 1000) ids.push_back(odd(sane) ? id() : i);
        if (odd(4) && !ids.empty()) std::swap(ids[0], ids.back());
        for (auto &i : ids) s += "<filter" + (odd(sane) ? "" : attr("id", i)) + attr("type", ty()) + junk() + ">" + kid() + "</filter>" + ws();
        if (odd(sane)) s += pick({"<filters/>", "<x:filter id=\"q\" type=\"a\"/>", "<filter id=\"q\"/>", "<route/>"});
        s += "</filters>" + ws();
    }
    if (odd(sane * 2)) s += "<x:between/>";
    s += odd(sane * 2) ? "<x:routes>" : "<routes>";
    bool pre = s.substr(s.size() - 10) == "<x:routes>";
    std::vector<std::string> rs;
    for (const char *r : {"start", "r1", "r2"}) if (!odd(8) || sane > 1000) rs.push_back(odd(sane) ? rid() : r);
    if (odd(3) && rs.size() > 1) std::swap(rs[0], rs.back());
    for (auto &r : rs) s += ws() + "<route" + (odd(sane) ? "" : attr("id", r)) + junk() + ">" + flist(0) + "</route>";
    if (odd(sane)) s += pick({"<x:route/>", "<filter/>", "<m:route id=\"m\"/>", "<routes/>"}) + (odd(2) ? "<route id=\"late\"><filter refid=\"nope\"/></route>" : "");
    s += pre ? "</x:routes>" : "</routes>";
    if (odd(sane)) s += pick({"<routes/>", "<filters/>", "<!-- c -->", "text"});
    return s + "</metaproxy>";
}
// the names of filters, routes and filter types live in spaces of their own: now and then they coincide, or are prefixes of each other
static std::string gen()
{
    std::string s = gen1();
    if (!odd(3)) return s;
    std::vector<std::string> f = {"f1", "f2", "f3", "a", "b", "start", "r1", "f", "f1 ", "c"};
    for (size_t i = f.size(); i-- > 1;) std::swap(f[i], f[h::rnd(i + 1)]);
    std::vector<std::string> r = {"r1", "r2", "a", "f1", "r", "start1", "b"};
    for (size_t i = r.size(); i-- > 1;) std::swap(r[i], r[h::rnd(i + 1)]);
    std::map<std::string, std::string> m = {{"f1", f[0]}, {"f2", f[1]}, {"f3", f[2]}, {"r1", r[0]}, {"r2", r[1]}};
    std::string o;
    for (size_t i = 0; i < s.size();)
    {
        if (s[i] == '"' && i + 3 < s.size() && s[i + 3] == '"' && m.count(s.substr(i + 1, 2))) { o += '"' + m[s.substr(i + 1, 2)] + '"'; i += 4; }
        else o += s[i++];
    }
    return o;
}

static void positions(mp::RouterFleXML &rt, std::map<std::string, std::vector<const void *>> &routes, const std::string &start, const std::string &x)
{
    struct P { std::unique_ptr<mp::RoutePos> p; std::string r; size_t i; };
    std::vector<P> ps;
    std::string d = x;
    ps.push_back(P{std::unique_ptr<mp::RoutePos>(rt.createpos()), start, 0});
    h::check(!!ps.back().p, "no position for an accepted configuration");
    static const char *rs[] = { 0, 0, 0, "", "start", "r1", "r2", "nope", "r", "start " };
    for (int k = h::rnd(20); k > 0; k--)
    {
        int o = h::rnd(6);
        size_t j = h::rnd(ps.size());
        if (o == 0) { d += "\ncreate"; h::input(d); ps.push_back(P{std::unique_ptr<mp::RoutePos>(rt.createpos()), start, 0}); h::check(!!ps.back().p, "no position"); }
        else if (o == 1) { d += "\nclone " + std::to_string(j); h::input(d); mp::RoutePos *c = ps[j].p->clone(); h::check(c && c != ps[j].p.get(), "clone is not a new position"); std::string r0 = ps[j].r; size_t i0 = ps[j].i; ps.push_back(P{std::unique_ptr<mp::RoutePos>(c), r0, i0}); }
        else if (o == 2 && ps.size() > 1) { d += "\ndrop " + std::to_string(j); h::input(d); ps.erase(ps.begin() + j); }
        else
        {
            const char *r = rs[h::rnd(10)];
            d += "\nmove " + std::to_string(j) + " " + (r ? std::string("'") + r + "'" : "-"); h::input(d);
            char *rc = r ? strdup(r) : 0;
            const void *g = ps[j].p->move(rc), *w = 0;
            free(rc);
            bool un = r && *r && !routes.count(r);
            if (!un)
            {
                if (r && *r) { ps[j].r = r; ps[j].i = 0; }
                auto &l = routes[ps[j].r];
                if (ps[j].i < l.size()) w = l[ps[j].i++];
            }
            h::check(g == w, un ? "a filter is handed out for an unknown route" : "move hands out the wrong filter");
        }
    }
}

static void flex(const std::string &mode)
{
    long acc = 0, rej = 0;
    while (h::time_left())
    {
        std::string x = gen();
        xmlDoc *d = xmlParseMemory(x.c_str(), x.size());
        if (!d) { continue; }
        bool ok = true, got = true;
        Ref r;
        std::string why;
        try { r = interpret(d); } catch (Reject &e) { ok = false; why = e.why; }
        if (!ok && mode != "config" && mode != "all") { xmlFreeDoc(d); continue; }
        h::input(x, ok || mode == "config");
        mp::FactoryFilter fac;
        fac.add_creator("a", mk<0>); fac.add_creator("b", mk<1>); fac.add_creator("c", mk<2>);
        made.clear();
        int a0 = alive;
        bool test = h::rnd(2);
        {
            std::unique_ptr<mp::RouterFleXML> rt;
            std::string what;
            try { rt.reset(new mp::RouterFleXML(d, fac, test, 0)); }
            catch (mp::XMLError &e) { got = false; what = e.what(); }
            catch (mp::FactoryFilter::NotFound &) { got = false; what = "NotFound"; }
            if (mode == "config" || mode == "all")
            {
                h::check(!(got && !ok), "invalid configuration accepted (" + why + ")");
                h::check(!(!got && ok), "valid configuration refused (" + what + ")");
                h::check(got || !what.empty(), "refused without a message");
            }
            (got ? acc : rej)++;
            if (got && ok && mode != "config")
            {
                h::check(made.size() == r.inst.size(), "filters created: " + std::to_string(made.size()) + ", configured: " + std::to_string(r.inst.size()));
                // filters are identified by the element they were configured with
                std::map<const void *, TF *> byn;
                for (TF *f : made) { h::check(f->ncfg == 1, "a filter is not configured exactly once"); h::check(!byn.count(f->cfg), "two filters configured with one element"); h::check(f->ctest == test, "test flag not passed on"); byn[f->cfg] = f; }
                std::map<std::string, std::vector<const void *>> routes;
                for (auto &q : r.inst) { h::check(byn.count(q.node) && byn[q.node]->type == q.type, "filter element has no filter of its type"); }
                for (auto &q : r.routes) { auto &l = routes[q.first]; for (int i : q.second) l.push_back((const mp::filter::Base *) byn[r.inst[i].node]); }
                // every route hands out exactly its filters
                for (auto &q : routes)
                {
                    if (q.first.empty()) continue;
                    std::unique_ptr<mp::RoutePos> p(rt->createpos());
                    h::check(!!p, "no position for an accepted configuration");
                    const char *nm = q.first.c_str();
                    for (const void *f : q.second) { h::check(p->move(nm) == f, "route '" + q.first + "' hands out the wrong filter"); nm = 0; }
                    h::check(p->move(q.second.empty() ? q.first.c_str() : 0) == 0, "route '" + q.first + "' has too many filters");
                    h::check(p->move(0) == 0, "the end of a route is not permanent");
                }
                {
                    std::unique_ptr<mp::RoutePos> p(rt->createpos());
                    for (const void *f : routes[r.start]) h::check(p->move(0) == f, "start route hands out the wrong filter");
                    h::check(p->move(0) == 0, "start route has too many filters");
                }
                if (mode == "position" || mode == "all")
                {
                    positions(*rt, routes, r.start, x);
                    h::input(x + " start/stop");
                    std::vector<Ev> w;
                    int sg = 1 + h::rnd(60);
                    for (auto &q : routes) for (auto f : q.second) w.push_back(Ev{1, (const TF *) (const mp::filter::Base *) f, 0, 0, false});
                    evs.clear(); rt->start(); h::check(evs == w, "start does not reach the filters of every route in order");
                    for (auto &e : w) { e.what = 2; e.arg = sg; }
                    evs.clear(); rt->stop(sg); h::check(evs == w, "stop does not reach the filters of every route in order");
                }
            }
        }
        h::check(alive == a0, "filters leaked or freed twice");
        xmlFreeDoc(d);
    }
    printf("accepted %ld rejected %ld\n", acc, rej);
}
static void quiet(void *, xmlErrorPtr) {}
int main(int argc, char **argv)
{
    h::init(argc, argv);
    yaz_log_init_level(0);
    xmlSetStructuredErrorFunc(0, (xmlStructuredErrorFunc) quiet);
    // text constructor: not well-formed is refused
    if (h::mode == "config")
        for (const char *s : { "", "<", "<metaproxy>", "x", "<a></b>", "<metaproxy xmlns=\"http://indexdata.com/metaproxy\"><start/>" })
        {
            h::input(s);
            mp::FactoryFilter f; bool t = false;
            try { mp::RouterFleXML r(std::string(s), f, true); } catch (mp::XMLError &) { t = true; }
            h::check(t, "not well-formed configuration accepted");
        }
    if (h::mode == "chain") chain(); else flex(h::mode);
    return h::done();
}
