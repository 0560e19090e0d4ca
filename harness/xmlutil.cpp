// Replay harness for the XML helpers: random documents, every helper on every
// node, compared with an independent reading of the contracts.
#include "config.hpp"
#include <metaproxy/xmlutil.hpp>
#include "hcommon.hpp"
#include <map>
namespace mx = metaproxy_1::xml;
static const char *MP = "http://indexdata.com/metaproxy";

static std::string rtext(const xmlNode *n)
{
    std::string r;
    if (!n) return r;
    const xmlNode *p = n->type == XML_TEXT_NODE ? n : n->children;
    while (p) { if (p->type == XML_TEXT_NODE) r.append((const char *) p->content); p = p->next; }
    return r;
}
static const char *ftext(const xmlNode *n)
{
    if (!n) return 0;
    const xmlNode *p = n->type == XML_TEXT_NODE ? n : n->children;
    return p && p->type == XML_TEXT_NODE ? (const char *) p->content : 0;
}
static const xmlNode *rj(const xmlNode *n, int t) { while (n && (int) n->type != t) n = n->next; return n; }
static std::string aval(const xmlAttr *a) { return a->children && a->children->type == XML_TEXT_NODE ? (const char *) a->children->content : ""; }
static bool rel(const xmlNode *n, const std::string &ns, const std::string &nm)
{ return n && n->type == XML_ELEMENT_NODE && n->ns && n->ns->href && ns == (const char *) n->ns->href && nm == (const char *) n->name; }
static bool rat(const xmlAttr *a, const std::string &ns, const std::string &nm)
{ return a && nm == (const char *) a->name && (ns.empty() || (a->ns && a->ns->href && ns == (const char *) a->ns->href)); }
#define CK(c, m) do { if (!(c)) h::fail(m); } while (0)
template <class F> static bool throws(F f) { try { f(); } catch (metaproxy_1::XMLError &e) { if (!*e.what()) h::fail("empty error message"); return true; } return false; }

static void attrs(const xmlNode *n, const std::vector<const char *> &names)
{
    std::vector<const char *> z(names); z.push_back(0);
    std::vector<std::string> v(names.size() + 1, "old");
    std::vector<std::string> e(names.size());
    bool bad = false;
    if (n)
        for (const xmlAttr *a = n->properties; a; a = a->next)
        {
            size_t i = 0;
            for (; i < names.size(); i++) if (std::string(names[i]) == (const char *) a->name) { e[i] = aval(a); break; }
            if (i == names.size()) bad = true;
        }
    bool t = throws([&] { mx::parse_attr(n, z.data(), v.data()); });
    CK(t == bad, bad ? "parse_attr accepts an unknown attribute" : "parse_attr refuses known attributes");
    if (!bad) for (size_t i = 0; i < names.size(); i++) CK(v[i] == e[i], std::string("parse_attr: wrong value for ") + names[i] + ": '" + v[i] + "' expected '" + e[i] + "'");
    CK(v[names.size()] == "old", "parse_attr writes past the values");
}

static void node(const xmlNode *n, bool cfg)
{
    const char *nm[] = { "a", "b", "metaproxy", "filter", "start", "", "filters", "filte" };
    if (!cfg)
    {
        CK(mx::get_text(n) == rtext(n), "get_text returns '" + mx::get_text(n) + "' expected '" + rtext(n) + "'");
        for (int d = 0; d < 2; d++)
        {
            const char *f = ftext(n);
            bool e = f ? !strcmp(f, "true") || !strcmp(f, "1") : d;
            CK(mx::get_bool(n, d) == e, "get_bool wrong");
            int ds[] = { 7, 0, -3 };
            for (int k : ds) CK(mx::get_int(n, k) == (f ? (int) strtol(f, 0, 10) : k), "get_int wrong");
        }
        for (int t = 1; t < 10; t++)
        {
            CK(mx::jump_to(n, t) == rj(n, t), "jump_to wrong");
            if (n)
            {
                CK(mx::jump_to_next(n, t) == rj(n->next, t), "jump_to_next wrong");
                CK(mx::jump_to_children(n, t) == rj(n->children, t), "jump_to_children wrong");
            }
        }
        if (n && n->type == XML_ELEMENT_NODE)
            for (const xmlAttr *a = n->properties; a; a = a->next)
                CK(mx::get_text(a) == rtext(a->children), "get_text of an attribute wrong");
        for (const char *k : nm)
            for (const char *ns : { MP, "", "http://x", "http://indexdata.com/metaprox" })
                CK(mx::is_element(n, ns, k) == rel(n, ns, k), "is_element wrong");
        for (const char *k : nm) CK(mx::is_element_mp(n, k) == rel(n, MP, k), "is_element_mp wrong");
        return;
    }
    for (const char *k : nm)
        CK(throws([&] { mx::check_element_mp(n, k); }) == !rel(n, MP, k), "check_element_mp wrong");
    CK(throws([&] { mx::check_empty(n); }) == (n && rj(n->children, XML_ELEMENT_NODE)), "check_empty wrong");
    if (n && n->type != XML_ELEMENT_NODE) return;
    attrs(n, {}); attrs(n, {"route"}); attrs(n, {"route", "auth"}); attrs(n, {"id", "type", "route", "auth", "rout", "x"}); attrs(n, {"x", "id", "type", "rout"}); attrs(n, {"auth", "id", "type", "route", "rout", "x"});
    bool br = false, ba = false; std::string r, au;
    if (n) for (const xmlAttr *a = n->properties; a; a = a->next)
    {
        std::string k = (const char *) a->name;
        if (k == "route") r = aval(a); else br = true;
        if (k == "auth") au = aval(a); else if (k != "route") ba = true;
    }
    std::string g, auth = "old";
    CK(throws([&] { g = mx::get_route(n); }) == br && (br || g == r), "get_route wrong");
    CK(throws([&] { g = mx::get_route(n, auth); }) == ba && (ba || (g == r && auth == au)), "get_route with auth wrong");
    std::vector<const xmlAttr *> as; as.push_back(0);
    if (n) for (const xmlAttr *a = n->properties; a; a = a->next) as.push_back(a);
    for (const xmlAttr *a : as)
        for (const char *k : { "route", "auth", "id", "x", "", "rout" })
            for (const char *ns : { "", "http://x", MP })
            {
                CK(mx::is_attribute(a, ns, k) == rat(a, ns, k), "is_attribute wrong");
                CK(throws([&] { mx::check_attribute(a, ns, k); }) == !rat(a, ns, k), "check_attribute wrong");
            }
}
static void walk(const xmlNode *n, bool cfg) { for (; n; n = n->next) { node(n, cfg); if (n->type == XML_ELEMENT_NODE) walk(n->children, cfg); } }

static std::string pick(std::initializer_list<const char *> l) { return *(l.begin() + h::rnd(l.size())); }
static std::string gen(int d)
{
    std::string el = pick({"a", "b", "filter", "filters", "start", "x:a", "x:filter", "metaproxy"}), s = "<" + el;
    if (h::rnd(6) == 0) s += " xmlns=\"" + pick({"", "http://x", MP}) + "\"";
    for (const char *a : { "route", "auth", "type", "id", "rout", "x:route", "x:x" })
        if (h::rnd(4) == 0 && !(std::string(a) == "rout" && h::rnd(2))) s += std::string(" ") + a + "=\"" + pick({"", "a", "start", "1", "true", "&lt;z&gt;", "x y"}) + "\"";
    int k = h::rnd(d > 2 ? 2 : 4);
    if (!k && h::rnd(2)) return s + "/>";
    s += ">";
    for (int i = 0; i < k; i++)
        switch (h::rnd(7))
        {
        case 0: s += pick({"true", "1", "0", "false", "True", "12", " 12", "-7", "12x", "x", "", " ", "\n", "&amp;", "11", "true ", "2147483647"}); break;
        case 1: s += "<!-- " + pick({"c", "1", "true"}) + " -->"; break;
        case 2: s += "<![CDATA[" + pick({"cd", "1"}) + "]]>"; break;
        case 3: s += "<?pi " + pick({"1", "x"}) + "?>"; break;
        default: if (d < 4) s += gen(d + 1); else s += "t";
        }
    return s + "</" + el + ">";
}

static void quiet(void *, const char *, ...) {}

int main(int argc, char **argv)
{
    h::init(argc, argv);
    xmlSetGenericErrorFunc(0, quiet);
    bool cfg = h::mode == "config";
    h::input("(null node)"); node(0, cfg);
    h::t_end = h::now() + (h::thorough() ? 60 : 8);
    while (h::time_left())
    {
        std::string s = "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" xmlns:x=\"http://x\">" + gen(0) + gen(1) + "</metaproxy>";
        if (h::rnd(5) == 0) s = "<a xmlns:x=\"http://x\">" + gen(0) + "</a>";
        h::input(s);
        xmlDocPtr d = xmlParseMemory(s.c_str(), s.size());
        if (!d) continue;
        walk(xmlDocGetRootElement(d), cfg);
        xmlFreeDoc(d);
    }
    return h::done();
}
