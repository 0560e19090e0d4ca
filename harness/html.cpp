// Replay harness for the HTML parser: drives the real parser and compares the
// events with an independent executable reading of the contract.
#include "config.hpp"
#include "html_parser.hpp"
#include "hcommon.hpp"
namespace mp = metaproxy_1;

struct Ev { char k; long a, al, v, vl; int x; bool operator==(const Ev &o) const { return k == o.k && a == o.a && al == o.al && v == o.v && vl == o.vl && x == o.x; } };

static std::string show(const std::vector<Ev> &e, const char *)
{
    std::string r; char b[128];
    for (auto &x : e) { snprintf(b, sizeof b, "%c(%ld,%ld,%ld,%ld,%d) ", x.k, x.a, x.al, x.v, x.vl, x.x); r += b; }
    return r;
}

struct Rec : mp::HTMLParserEvent {
    const char *d; long n; std::vector<Ev> ev;
    long tag = -1, tagl = 0;
    bool ok = true; const char *why = "";
    long off(const char *p, int l, const char *w)
    {
        if (p < d || p + l > d + n || l < 0) { ok = false; why = w; return -1; }
        // touch every byte the event promises
        volatile char c = 0;
        for (int i = 0; i < l; i++) c += p[i];
        (void) c;
        return p - d;
    }
    void openTagStart(const char *t, int l) { long o = off(t, l, "tag outside document"); ev.push_back({'o', o, l, 0, 0, 0}); tag = o; tagl = l; }
    void anyTagEnd(const char *t, int l, int c) { long o = off(t, l, "tag outside document"); ev.push_back({'e', o, l, 0, 0, c != 0}); }
    void attribute(const char *t, int l, const char *a, int al, const char *v, int vl, const char *s)
    {
        long o = off(t, l, "tag outside document"); (void) o;
        long ao = off(a, al, "attribute outside document");
        long vo = v ? off(v, vl, "value outside document") : -1;
        ev.push_back({'a', ao, al, vo, v ? vl : 0, v ? (int)(unsigned char) s[0] : 0});
        if (s[0] && s[1]) { ok = false; why = "separator not terminated"; }
    }
    void closeTag(const char *t, int l) { long o = off(t, l, "tag outside document"); ev.push_back({'c', o, l, 0, 0, 0}); }
    void text(const char *t, int l) { long o = off(t, l, "text outside document"); if (l <= 0) { ok = false; why = "empty text"; } ev.push_back({'t', o, l, 0, 0, 0}); }
};

// ---- reference reading
static bool sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\f'; }
static bool al(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
struct Ref {
    const std::string &d; std::vector<Ev> ev;
    Ref(const std::string &s) : d(s) {}
    char at(size_t i) { return i < d.size() ? d[i] : 0; }
    size_t ws(size_t i) { while (sp(at(i))) i++; return i; }
    size_t name(size_t i) { while (i < d.size() && !sp(at(i)) && !strchr("/><=", at(i))) i++; return i; }
    bool script(size_t i, size_t e) { return e - i == 6 && strncasecmp(d.c_str() + i, "script", 6) == 0; }
    size_t tail(size_t tag, size_t tl, size_t i)
    {
        size_t s = i;
        while (i < d.size() && !strchr("/><", at(i))) i++;
        if (i > s) ev.push_back({'t', (long) s, (long) (i - s), 0, 0, 0});
        if (at(i) == '/' && at(i + 1) == '>') { ev.push_back({'e', (long) tag, (long) tl, 0, 0, 1}); return i + 2; }
        if (at(i) == '>') { ev.push_back({'e', (long) tag, (long) tl, 0, 0, 0}); return i + 1; }
        return i;
    }
    void flush(size_t a, size_t b) { if (b > a) ev.push_back({'t', (long) a, (long) (b - a), 0, 0, 0}); }
    void run()
    {
        size_t i = 0, t = 0; bool scr = false;
        while (i < d.size())
        {
            if (at(i) != '<') { i++; continue; }
            if (scr)
            {
                size_t e = name(i + 2);
                if (at(i + 1) == '/' && script(i + 2, e) && at(ws(e)) == '>')
                {
                    flush(t, i); scr = false;
                    ev.push_back({'c', (long) i + 2, 6, 0, 0, 0});
                    i = t = tail(i + 2, 6, e);
                }
                else i++;
                continue;
            }
            size_t p = i + 1, e;
            if (at(p) == '!' || at(p) == '?')
            {
                if (at(p) == '!' && at(p + 1) == '-' && at(p + 2) == '-')
                {
                    size_t q = d.find("-->", p + 3);
                    e = q == std::string::npos ? d.size() : q + 2;
                }
                else { e = d.find('>', p); if (e == std::string::npos) e = d.size(); }
                flush(t, i);
                ev.push_back({'o', (long) p, (long) (e - p), 0, 0, 0});
                i = t = tail(p, e - p, e);
            }
            else if (at(p) == '/' && al(at(p + 1)))
            {
                flush(t, i);
                e = name(p + 1);
                ev.push_back({'c', (long) p + 1, (long) (e - p - 1), 0, 0, 0});
                i = t = tail(p + 1, e - p - 1, e);
            }
            else if (al(at(p)))
            {
                flush(t, i);
                e = name(p);
                ev.push_back({'o', (long) p, (long) (e - p), 0, 0, 0});
                size_t j = ws(e);
                while (j < d.size() && !strchr("/><", at(j)))
                {
                    size_t ne = name(j);
                    if (ne == j) break;
                    Ev a = {'a', (long) j, (long) (ne - j), -1, 0, 0};
                    j = ws(ne);
                    if (at(j) == '=')
                    {
                        j = ws(j + 1);
                        char q = at(j);
                        if (q == '"' || q == '\'')
                        {
                            size_t v = ++j;
                            while (j < d.size() && d[j] != q) j++;
                            a.v = v; a.vl = j - v; a.x = q;
                            if (j < d.size()) j++;
                        }
                        else
                        {
                            size_t v = j;
                            while (j < d.size() && !sp(d[j]) && d[j] != '>') j++;
                            a.v = v; a.vl = j - v;
                        }
                        j = ws(j);
                    }
                    ev.push_back(a);
                }
                scr = script(p, e);
                i = t = tail(p, e - p, j);
            }
            else i++;
        }
        flush(t, d.size());
    }
};

static void one(mp::HTMLParser &hp, const std::string &doc, const std::string &before, bool events)
{
    h::input(before.empty() ? doc : before + "   ||then||   " + doc, doc.find('<') != std::string::npos);
    char *m = (char *) malloc(doc.size() + 1);
    memcpy(m, doc.c_str(), doc.size() + 1);
    Rec r; r.d = m; r.n = doc.size();
    hp.parse(r, m);
    if (!events)
        h::check(r.ok, std::string("event refers to memory outside the document: ") + r.why);
    else
    {
        Ref f(doc); f.run();
        if (!(f.ev == r.ev)) h::fail("events differ; expected " + show(f.ev, 0) + " got " + show(r.ev, 0));
        // the events tile the document: what is left out is markup punctuation and blanks inside tags
    }
    free(m);
}

int main(int argc, char **argv)
{
    h::init(argc, argv);
    bool events = h::mode == "events";
    const char alpha[] = "<>/a =\"'!-?s";
    // exhaustive over a small alphabet
    int maxlen = h::thorough() ? 7 : 5;
    for (int len = 0; len <= maxlen; len++)
    {
        std::vector<int> ix(len, 0);
        while (h::time_left())
        {
            std::string d;
            for (int k : ix) d += alpha[k];
            mp::HTMLParser hp;
            one(hp, d, "", events);
            int p = len - 1;
            while (p >= 0 && ++ix[p] == (int) strlen(alpha)) ix[p--] = 0;
            if (p < 0) break;
        }
    }
    h::t_end = h::now() + (h::thorough() ? 60 : 8);
    const char *tok[] = { "<", ">", "/", "</", "/>", "a", "A", "b1", " ", "\t", "\n", "\r", "\f", "=", "\"", "'", "<!--", "-->", "--", "-", "<!", "<?", "?>",
        "<script", "</script", "</SCRIPT>", "script", "<SCRIPT>", "</script >", "<a href=\"x\">", "<b c='d' e=f/>", "</b>", "text", "&amp;", "\x80", "\xff", "\xc3\xa6",
        "<!DOCTYPE html>", "<br/>", "<p", "=\"", "='", " x", "</scriptx>", "<scriptx>", "<script/>", "\x01" };
    const int nt = sizeof tok / sizeof *tok;
    mp::HTMLParser hp;
    std::string before;
    while (h::time_left())
    {
        std::string d;
        int k = 1 + h::rnd(h::rnd(4) == 0 ? 40 : 10);
        for (int i = 0; i < k; i++) d += tok[h::rnd(nt)];
        one(hp, d, before, events);
        before = d;
        if (h::rnd(500) == 0) // long documents
        {
            std::string l;
            for (int i = 0; i < 3000; i++) l += tok[h::rnd(nt)];
            mp::HTMLParser h2;
            one(h2, l, "", events);
        }
    }
    return h::done();
}
