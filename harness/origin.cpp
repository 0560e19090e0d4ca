// Replay harness for Origin: random histories of recorded addresses.
#include "config.hpp"
#include <metaproxy/origin.hpp>
#include "hcommon.hpp"
#include <sstream>
namespace mp = metaproxy_1;
static std::string word(bool empty_ok)
{
    static const char *w[] = { "1.2.3.4", "::1", "unix:/tmp/x", "a", "host.example.org:9000", "@", "x,y", "[fe80::1]:80", "tcp:10.0.0.1" };
    if (empty_ok && h::rnd(6) == 0) return "";
    std::string s = w[h::rnd(9)];
    if (h::rnd(4) == 0) s += std::to_string(h::rnd(100000));
    return s;
}
int main(int argc, char **argv)
{
    h::init(argc, argv);
    while (h::time_left())
    {
        mp::Origin o;
        std::string d, all;
        unsigned long id = 0;
        int mx = 0;
        std::string cust;
        auto verify = [&](mp::Origin &o, const std::string &peer, const std::string &bind) {
            if (all.size())
            {
                h::check(o.get_address() == peer, "client address is '" + o.get_address() + "' expected '" + peer + "'");
                h::check(o.get_bind_address() == bind, "listening address is '" + o.get_bind_address() + "' expected '" + bind + "'");
            }
            h::check(o.get_max_sockets() == mx, "socket limit changed");
            std::ostringstream os; os << o;
            std::string f = all.substr(0, all.find(' '));
            std::string w = (f.empty() ? "0" : f) + ":" + std::to_string(id) + (cust.empty() ? "" : ":" + cust);
            h::check(os.str() == w, "prints '" + os.str() + "' expected '" + w + "'");
        };
        h::input("new");
        verify(o, "", "");
        if (h::rnd(3) == 0) { mx = (int) h::rnd(1000) - 5; o.set_max_sockets(mx); }
        std::string peer = word(false), bind = word(true);
        int n = h::rnd(6);
        for (int i = 0; i <= n; i++)
        {
            std::string a;
            if (i == 0) a = peer + " " + bind;
            else { int k = h::rnd(4); a = word(true); while (k-- > 0) a += (h::rnd(2) ? ", " : " ") + word(true); }
            id = h::rnd(3) ? h::rnd(1000) : (1UL << (30 + h::rnd(34))) + h::rnd(5);
            d += "set('" + a + "'," + std::to_string(id) + ") ";
            h::input(d);
            o.set_tcpip_address(a, id);
            all = i == 0 ? a : a + " " + all;
            verify(o, peer, bind);
            switch (h::rnd(5))
            {
            case 0: cust = h::rnd(3) ? word(false) : ""; o.set_custom_session(cust); d += "custom('" + cust + "') "; break;
            case 1: mx = (int) h::rnd(1000); o.set_max_sockets(mx); d += "max "; break;
            case 2: { mp::Origin c(o); verify(c, peer, bind); c.set_tcpip_address("zz zz", 77); c.set_max_sockets(-9); c.set_custom_session("cc"); break; }
            case 3: { mp::Origin c; c = o; verify(c, peer, bind); break; }
            }
            h::input(d);
            verify(o, peer, bind);
        }
    }
    return h::done();
}
