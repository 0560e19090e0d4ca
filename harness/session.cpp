// Replay harness for Session and session_map.  Run under ThreadSanitizer (mode
// threads): an access to the counter or the table outside the lock is reported
// whatever the schedule; identifiers are compared across threads.
#include "config.hpp"
#include <metaproxy/session.hpp>
#include "hcommon.hpp"
#include <thread>
#include <map>
#include <algorithm>
#include <atomic>
namespace mp = metaproxy_1;
static void seqs()
{
    std::set<unsigned long> seen;
    while (h::time_left())
    {
        std::vector<mp::Session> v;
        std::vector<std::pair<unsigned long, bool>> m;
        mp::session_map<int> tab;
        std::set<unsigned long> in;
        std::string d;
        for (int k = h::rnd(40); k >= 0; k--)
        {
            int o = v.empty() ? 0 : h::rnd(9);
            size_t j = h::rnd(v.size()), i = h::rnd(v.size());
            d += std::to_string(o) + "," + std::to_string(j) + " "; h::input(d);
            switch (o)
            {
            case 0: { mp::Session s; h::check(seen.insert(s.id()).second, "identifier used twice"); h::check(!s.is_closed(), "new session is closed"); v.push_back(s); m.push_back({s.id(), false}); break; }
            case 1: { mp::Session s(v[j]); auto q = m[j]; v.push_back(s); m.push_back(q); break; }
            case 2: v[i] = v[j]; m[i] = m[j]; break;
            case 3: v[j].close(); m[j].second = true; break;
            case 4: { int x = 5; tab.create(x, v[j]); in.insert(m[j].first); break; }
            case 5: tab.release(v[j]); in.erase(m[j].first); break;
            case 6: { mp::Session &r = v[j]; v[j] = r; break; }
            default: h::check((v[i] < v[j]) == (m[i].first < m[j].first), "order does not follow the identifiers"); h::check((v[i] == v[j]) == (m[i].first == m[j].first), "equality does not follow the identifiers");
            }
            for (size_t q = 0; q < v.size(); q++)
            {
                h::check(v[q].id() == m[q].first, "identifier changed");
                h::check(v[q].is_closed() == m[q].second, "closed mark changed");
                h::check(tab.exist(v[q]) == !!in.count(m[q].first), "table lookup is wrong");
            }
        }
    }
}
static void threads()
{
    std::set<unsigned long> seen;
    while (h::time_left())
    {
        int nt = 2 + h::rnd(6), per = 50 + h::rnd(200);
        h::input(std::to_string(nt) + " threads, " + std::to_string(per) + " sessions each", true, 30);
        std::vector<std::vector<unsigned long>> ids(nt);
        mp::session_map<int> tab;
        std::atomic<int> bad(0);
        std::vector<std::thread> ts;
        for (int t = 0; t < nt; t++)
            ts.emplace_back([&, t] {
                for (int i = 0; i < per; i++)
                {
                    mp::Session s; ids[t].push_back(s.id());
                    if (tab.exist(s)) bad = 1;
                    int x = i; tab.create(x, s);
                    if (!tab.exist(s)) bad = 2;
                    tab.release(s);
                    if (tab.exist(s)) bad = 3;
                }
            });
        for (auto &t : ts) t.join();
        for (auto &v : ids) for (unsigned long x : v) h::check(seen.insert(x).second, "two sessions have the identifier " + std::to_string(x));
        h::check(!bad, "table lookup is wrong");
    }
}
int main(int argc, char **argv)
{
    h::init(argc, argv);
    if (h::mode == "threads") threads(); else seqs();
    return h::done();
}
