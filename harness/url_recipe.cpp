// Replay harness for URL recipes: random recipes and records, compared with an
// independent expansion (which cuts the placeholder into parts first).
#include "config.hpp"
#include <metaproxy/xmlutil.hpp>
#include <libxml/parser.h>
#include <boost/regex.hpp>
#include "hcommon.hpp"
namespace mx = metaproxy_1::xml;

struct Field { std::string el, type; bool has; std::string text; };
static std::string enc(const std::string &s)
{
    std::string o; char b[8];
    for (unsigned char c : s)
        if (c > 32 && c < 127 && (isalnum(c) || strchr("-._~", c))) o += c;
        else { snprintf(b, sizeof b, "%%%02X", c); o += b; }
    return o;
}
// position of the first unescaped character of set in [from, ...) of r; an
// escape is a backslash in front, counted from the start of the placeholder
static size_t brk(const std::string &r, size_t from, size_t start, const char *set)
{
    for (size_t j = from; j < r.size(); j++)
        if (strchr(set, r[j]) && r[j] && !(j > start && r[j - 1] == '\\')) return j;
    return r.size();
}
static std::string expand(const std::string &r, const std::vector<Field> &rec)
{
    std::string out;
    size_t p = 0;
    while (p < r.size())
    {
        if (!((r[p] == '$' || r[p] == '%') && p + 1 < r.size() && r[p + 1] == '{')) { out += r[p++]; continue; }
        bool e = r[p] == '%';
        size_t a = p + 2, end, q;
        std::string var, pat, rep, mode;
        q = brk(r, a, a, "[}"); var = r.substr(a, q - a);
        if (q < r.size() && r[q] == '[')
        {
            size_t b = q + 1; q = brk(r, b, a, "/]}"); pat = r.substr(b, q - b);
            if (q < r.size() && r[q] == '/')
            {
                b = q + 1; q = brk(r, b, a, "/]}"); rep = r.substr(b, q - b);
                if (q < r.size() && r[q] == '/') { b = q + 1; q = brk(r, b, a, "]}"); mode = r.substr(b, q - b); }
            }
            if (q < r.size() && r[q] == ']') q = brk(r, q + 1, a, "}");
        }
        end = q < r.size() ? q + 1 : q;
        if (!var.empty())
        {
            std::string nm = var.substr(0, 3) == "md-" ? var.substr(3) : var, text;
            nm = nm.c_str();
            for (auto &f : rec) if (f.el == "metadata" && f.has && f.type == nm) text = f.text;
            if (!pat.empty())
            {
                boost::regex::flag_type m = boost::regex::perl;
                if (mode.find('i') != std::string::npos) m |= boost::regex::icase;
                boost::regex x(pat, m);
                text = boost::regex_replace(text, x, rep, mode.find('g') != std::string::npos ? boost::format_all : boost::format_first_only);
            }
            out += e ? enc(text) : text;
        }
        p = end;
    }
    return out;
}
static std::string xesc(const std::string &s)
{
    std::string o;
    for (char c : s) if (c == '<') o += "&lt;"; else if (c == '&') o += "&amp;"; else if (c == '"') o += "&quot;"; else o += c;
    return o;
}
static std::string some(std::initializer_list<const char *> l) { return *(l.begin() + h::rnd(l.size())); }
static void quiet(void *, const char *, ...) {}
int main(int argc, char **argv)
{
    h::init(argc, argv);
    xmlSetGenericErrorFunc(0, quiet);
    long n = 0;
    while (h::time_left())
    {
        std::vector<Field> rec;
        std::string x = "<record xmlns=\"u\">";
        if (h::rnd(12) == 0) x = "<!-- lead --><record>";
        for (int k = h::rnd(6); k > 0; k--)
        {
            Field f;
            f.el = h::rnd(6) ? "metadata" : some({"meta", "metadatas", "x"});
            f.has = h::rnd(6) != 0;
            f.type = some({"title", "author", "t", "md-x", "", "m", "x", "a\\]b"});
            f.text = some({"Computer", "a b", "", "K&R <x>", "\xc3\xa6\xe2\x82\xac", "aaa", "10%", "a/b?c=d", "~-._", "x+y"});
            std::string t = xesc(f.text);
            if (h::rnd(4) == 0 && f.text.size() > 2 && f.text[0] < 127 && (unsigned char) f.text[1] < 127) t = xesc(f.text.substr(0, 1)) + "<!-- c -->" + xesc(f.text.substr(1));
            x += (h::rnd(3) ? "" : "<!-- q -->") + std::string("<") + f.el + (h::rnd(3) ? "" : " other=\"title\"") + (f.has ? " type=\"" + xesc(f.type) + "\"" : "") + (h::rnd(4) ? "" : " z=\"q\"") + ">" + t + "</" + f.el + ">" + (h::rnd(4) ? "" : "text");
            rec.push_back(f);
        }
        x += "</record>";
        xmlDoc *d = xmlParseMemory(x.c_str(), x.size());
        if (!d) continue;
        for (int rounds = 0; rounds < 6; rounds++)
        {
            std::string r;
            int parts = h::rnd(6);
            for (int k = 0; k < parts; k++)
                switch (h::rnd(7))
                {
                case 0: r += some({"http://x/", "$", "%", "{", "}", "\\", "$$", "%%{", "a=", "[", "]", "/", "\xc3\xa6"}); break;
                case 1: case 2: r += some({"${", "%{"}) + some({"", "", "md-"}) + some({"title", "author", "t", "x", "m", "", "md-x", "nope", "md", "a\\]b"}) + some({"}", "}", "}", ""}); break;
                case 3: case 4:
                    r += some({"${", "%{"}) + some({"", "md-"}) + some({"title", "author", "t", "m"}) + "[" + some({"a", "[a-z]+", "(.)(.)", " ", "", "o", "O", "\\s+", "x\\/y", ".", "\\}", "a\\]", "(", "x*"})
                        + some({"/", "/", "/", ""}) + some({"b", "$1", "", "\\/", "$2$1", "(?1q:z)", "\\]", "%"}) + some({"/", "/", ""}) + some({"", "g", "i", "gi", "ig", "x", "/g"}) + some({"]", "]", "]", "", "]zz"}) + some({"}", "}", "}", ""});
                    break;
                default: { int l = 1 + h::rnd(5); while (l-- > 0) r += "${}%[]/\\mdt-agi "[h::rnd(16)]; }
                }
            if (h::rnd(20) == 0) r = r.substr(0, h::rnd(r.size() + 1));
            h::input("recipe " + r + " record " + x, true);
            std::string w, g; bool we = false, ge = false;
            try { w = expand(r, rec); } catch (std::exception &) { we = true; }
            try { g = mx::url_recipe_handle(d, r); } catch (boost::bad_expression &) { ge = true; } catch (std::runtime_error &) { ge = true; }
            h::check(we == ge, ge ? "fails with an error" : "accepts a pattern that is not a regular expression");
            h::check(we || w == g, "expands to '" + h::esc(g) + "' expected '" + h::esc(w) + "'");
            n++;
        }
        xmlFreeDoc(d);
    }
    h::input("(empty document)");
    xmlDoc *d = xmlNewDoc(BAD_CAST "1.0");
    h::check(mx::url_recipe_handle(d, "a${md-t}b%{t}") == "ab", "document without root");
    h::check(mx::url_recipe_handle(d, "") == "", "empty recipe");
    return h::done();
}
