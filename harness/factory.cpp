// Replay harness for FactoryFilter: random histories against a plain table.
#include "config.hpp"
#include <metaproxy/filter.hpp>
#include "factory_filter.hpp"
#include "hcommon.hpp"
#include <map>
#include <memory>
namespace mp = metaproxy_1;
static int called[8];
struct TF : mp::filter::Base { int k; TF(int k) : k(k) {} void process(mp::Package &) const {} void configure(const xmlNode *, bool, const char *) {} };
static mp::filter::Base *last = 0;
template <int N> static mp::filter::Base *mk() { called[N]++; if (N == 5) return last = 0; return last = new TF(N); }
typedef mp::filter::Base *(*cr)();
static cr cs[] = { mk<0>, mk<1>, mk<2>, mk<3>, mk<4>, mk<5> };
// a filter that dynamic lookup finds in the running program
extern "C" { struct metaproxy_1_filter_struct metaproxy_1_filter_dyn = { 0, "dyn", mk<4> }; }
int main(int argc, char **argv)
{
    h::init(argc, argv);
    std::vector<std::string> names = { "a", "b", "log", "", "A", "a ", "aa", "dyn", std::string("n\0m", 3), std::string("n") };
    while (h::time_left())
    {
        mp::FactoryFilter f;
        mp::FactoryFilter other;
        std::map<std::string, int> t;
        std::string d;
        for (int k = h::rnd(30); k >= 0; k--)
        {
            const std::string &nm = names[h::rnd(names.size())];
            int c = h::rnd(6);
            int o = h::rnd(10);
            if (o < 3)
            {
                d += "add(" + nm + "," + std::to_string(c) + ") "; h::input(d);
                bool r = f.add_creator(nm, cs[c]);
                h::check(r == !t.count(nm), r ? "registering a known name reports success" : "registering a new name reports failure");
                if (!t.count(nm)) t[nm] = c;
            }
            else if (o < 5)
            {
                d += "drop(" + nm + ") "; h::input(d);
                bool r = f.drop_creator(nm);
                h::check(r == !!t.count(nm), "drop reports the wrong result");
                t.erase(nm);
            }
            else if (o < 7)
            {
                d += "exist(" + nm + ") "; h::input(d);
                h::check(f.exist(nm) == !!t.count(nm), "exist is wrong");
            }
            else if (o < 9)
            {
                d += "create(" + nm + ") "; h::input(d);
                memset(called, 0, sizeof called);
                bool thrown = false;
                mp::filter::Base *b = 0;
                try { b = f.create(nm); } catch (mp::FactoryFilter::NotFound &e) { thrown = true; h::check(*e.what() != 0, "no message"); }
                h::check(thrown == !t.count(nm), thrown ? "a known name is not found" : "an unknown name creates a filter");
                for (int i = 0; i < 6; i++) h::check(called[i] == (!thrown && t[nm] == i ? 1 : 0), "wrong creator called, or not exactly once");
                if (!thrown) { h::check(b == last, "create does not return what the creator made"); delete b; }
            }
            else if (nm == "dyn" || t.count(nm) || nm == "a ")
            {
                d += "dl(" + nm + ") "; h::input(d);
                fflush(stdout);
                bool r = f.add_creator_dl(nm, "/nonexistent");
                if (t.count(nm)) h::check(r, "loading a known type fails");
                else if (nm == "dyn") { h::check(r, "a type in the program is not found"); t[nm] = 4; }
                else h::check(!r, "loading a type that does not exist succeeds");
            }
            for (auto &q : names) h::check(f.exist(q) == !!t.count(q), "the set of known names is wrong: " + q);
            h::check(!other.exist(nm), "factories share their names");
        }
    }
    return h::done();
}
