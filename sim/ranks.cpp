#include "ranks.hpp"

#include <array>
#include <condition_variable>
#include <cstdio>
#include <cstring>
#include <deque>
#include <map>
#include <memory>
#include <mutex>
#include <numeric>
#include <thread>

#include "alloc.hpp"
#include "core.hpp"

namespace sim
{
namespace ranks
{
struct Send
{
    int from, to, comm;
    const void* src;               // rendezvous: still the sender's buffer
    std::vector<char> payload;
    size_t bytes;
    bool eager;
    bool arrived;
    bool taken;
    bool waited;
    uint64_t seq;
};

struct Recv
{
    int from, to, comm;
    void* dst;
    size_t bytes;
    Send* match;
};

namespace
{
struct Rank
{
    std::thread thread;
    std::condition_variable cv;
    bool done = false;
    std::function<bool()> blocked;     // empty: can go on
    const char* what = "";
    const char* waits = "";
};

struct Coll
{
    std::string kind;
    Need need;
    int root;
    bool hold;                         // even early ranks wait for all
    Parts parts;
    std::vector<bool> in, out;
    int arrived = 0, left = 0;
};

struct Comm
{
    std::vector<int> members;
    std::vector<size_t> next;          // per member: its next collective
    std::deque<Coll> colls;
    size_t base = 0;
};

using Chan = std::array<int, 3>;     // from, to, communicator

enum Policy { UNIFORM, SLOW_RANK, SLOW_NET, FAST_NET, RUN_LONG, POLICIES };

std::mutex g_mutex;
std::vector<std::unique_ptr<Rank>> g_ranks;
std::map<int, Comm> g_comms;
std::vector<std::unique_ptr<Send>> g_sends;
std::vector<std::unique_ptr<Recv>> g_recvs;
std::map<Chan, std::deque<Send*>> g_channel;        // in flight
std::map<Chan, std::deque<Send*>> g_inbox;          // arrived, not matched
std::map<Chan, std::deque<Recv*>> g_posted;
int g_current = -1;
int g_next_comm = 0x44000000;
bool g_finished = false;
std::condition_variable g_main;
unsigned g_policy = UNIFORM;
int g_slow = -1;
uint64_t g_seq = 0;
thread_local int t_self = -1;

bool runnable(int r)
{
    Rank& k = *g_ranks[r];
    return !k.done && (!k.blocked || k.blocked());
}

void match(Chan ch)
{
    auto& in = g_inbox[ch];
    auto& po = g_posted[ch];
    while (!in.empty() && !po.empty())
    {
        Send* s = in.front();
        Recv* r = po.front();
        in.pop_front();
        po.pop_front();
        if (s->bytes > r->bytes)
        {
            violation("message-truncated", "rank %d sent %zu bytes to rank %d, which made room for %zu (%s)", s->from, s->bytes, s->to, r->bytes,
                      g_ranks[s->to]->what);
        }
        s->taken = true;
        r->match = s;
    }
}

void deliver(Chan ch)
{
    auto& q = g_channel[ch];
    Send* s = q.front();
    q.pop_front();
    for (auto& other : g_channel)
    {
        if (!other.second.empty() && other.second.front()->seq < s->seq)
        {
            count("fault.message_reordered");
            break;
        }
    }
    if (!s->eager && s->src)
    {
        s->payload.assign(static_cast<const char*>(s->src), static_cast<const char*>(s->src) + s->bytes);
    }
    s->arrived = true;
    g_inbox[ch].push_back(s);
    match(ch);
    advance_time(1000);
}

std::string picture()
{
    std::string s;
    for (size_t r = 0; r < g_ranks.size(); ++r)
    {
        Rank& k = *g_ranks[r];
        char buf[200];
        snprintf(buf, sizeof(buf), "%srank %zu %s%s%s%s", r ? "; " : "", r, k.done ? "has finished" : "in ", k.done ? "" : k.what, k.done ? "" : ", waits for ",
                 k.done ? "" : k.waits);
        s += buf;
    }
    return s;
}

// Decides who runs next; the mutex is held.
int pick()
{
    for (;;)
    {
        std::vector<int> can;
        for (size_t r = 0; r < g_ranks.size(); ++r)
        {
            if (runnable(r)) { can.push_back(r); }
        }
        std::vector<Chan> ch;
        for (auto& c : g_channel)
        {
            if (!c.second.empty()) { ch.push_back(c.first); }
        }
        if (can.empty() && ch.empty())
        {
            bool all = true;
            for (auto& r : g_ranks) { all = all && r->done; }
            if (all) { return -1; }
            violation("deadlock", "no rank can go on: %s", picture().c_str());
        }
        if (g_policy == SLOW_RANK && can.size() + ch.size() > 1)
        {
            for (size_t i = 0; i < can.size(); ++i)
            {
                if (can[i] == g_slow)
                {
                    can.erase(can.begin() + i);
                    count("fault.rank_stalled");
                    break;
                }
            }
        }
        if (g_policy == SLOW_NET && !can.empty() && !ch.empty())
        {
            count("fault.message_delayed", ch.size());
            ch.clear();
        }
        if (g_policy == FAST_NET && !ch.empty()) { can.clear(); }
        steps(1);
        advance_time(200);
        if (g_policy == RUN_LONG && g_current >= 0)
        {
            bool here = false;
            for (int r : can) { here = here || r == g_current; }
            if (here && !chance(1, 6, "switch")) { return g_current; }
        }
        const unsigned n = can.size() + ch.size();
        const unsigned k = n > 1 ? choose(n, "next") : 0;
        if (k < can.size()) { return can[k]; }
        deliver(ch[k - can.size()]);
    }
}

// Gives the baton away and waits to get it back.
void pass(std::unique_lock<std::mutex>& lock)
{
    const int me = t_self;
    const int next = pick();
    if (next == me) { return; }
    if (next >= 0) { count("probe.rank_switches"); }
    g_current = next;
    if (next >= 0) { g_ranks[next]->cv.notify_one(); }
    else
    {
        g_finished = true;
        g_main.notify_one();
    }
    if (!g_ranks[me]->done)
    {
        g_ranks[me]->cv.wait(lock, [me] { return g_current == me; });
    }
}

void block(std::function<bool()> until, const char* waits)
{
    std::unique_lock<std::mutex> lock(g_mutex);
    Rank& k = *g_ranks[t_self];
    k.blocked = std::move(until);
    k.waits = waits;
    pass(lock);
    k.blocked = nullptr;
    k.waits = "";
}

void reset()
{
    g_comms.clear();
    g_channel.clear();
    g_inbox.clear();
    g_posted.clear();
    g_next_comm = 0x44000000;
    g_seq = 0;
    t_self = -1;
}

AtRunStart at_start(reset);
} // namespace

int self() { return t_self; }
int size() { return g_ranks.size(); }
void label(const char* what)
{
    if (t_self >= 0) { g_ranks[t_self]->what = what; }
}
const char* label() { return t_self >= 0 ? g_ranks[t_self]->what : ""; }

void yield()
{
    alloc::Exempt e;
    std::unique_lock<std::mutex> lock(g_mutex);
    pass(lock);
}

int make_comm(const std::vector<int>& m)
{
    const int h = g_next_comm++;
    Comm& c = g_comms[h];
    c.members = m;
    c.next.assign(m.size(), 0);
    return h;
}

bool is_comm(int comm) { return g_comms.count(comm) != 0; }
const std::vector<int>& members(int comm) { return g_comms.at(comm).members; }

int rank_in(int comm)
{
    const Comm& c = g_comms.at(comm);
    for (size_t i = 0; i < c.members.size(); ++i)
    {
        if (c.members[i] == t_self) { return i; }
    }
    return -1;
}

const Parts& collective(int comm, const std::string& kind, Need need, int root, const void* data, size_t bytes, size_t& slot)
{
    Comm& c = g_comms.at(comm);
    const int me = rank_in(comm);
    const int n = c.members.size();
    yield();
    slot = c.next[me]++;
    while (slot >= c.base + c.colls.size())
    {
        c.colls.emplace_back();
        Coll& k = c.colls.back();
        k.parts.resize(n);
        k.in.assign(n, false);
        k.out.assign(n, false);
        k.hold = choose(2, "collective holds everyone");
    }
    Coll& k = c.colls[slot - c.base];
    if (k.arrived == 0)
    {
        k.kind = kind;
        k.need = need;
        k.root = root;
    }
    else if (k.kind != kind || k.root != root)
    {
        violation("collective-mismatch", "rank %d calls %s (%s) where another rank calls %s", t_self, kind.c_str(), label(), k.kind.c_str());
    }
    k.parts[me].assign(static_cast<const char*>(data), static_cast<const char*>(data) + bytes);
    k.in[me] = true;
    k.arrived++;
    const size_t s = slot;
    block([comm, s, me, need, root, n]
    {
        Comm& cc = g_comms.at(comm);
        Coll& kk = cc.colls[s - cc.base];
        if (kk.hold || need == Need::all) { return kk.arrived == n; }
        if (need == Need::root) { return static_cast<bool>(kk.in[root]); }
        for (int i = 0; i <= me; ++i)
        {
            if (!kk.in[i]) { return false; }
        }
        return true;
    }, "the other ranks of a collective call");
    Comm& c2 = g_comms.at(comm);
    Coll& k2 = c2.colls[slot - c2.base];
    if (k2.arrived < n) { count("fault.left_collective_early"); }
    return k2.parts;
}

void leave(int comm, size_t slot)
{
    Comm& c = g_comms.at(comm);
    Coll& k = c.colls[slot - c.base];
    k.out[rank_in(comm)] = true;
    k.left++;
    while (!c.colls.empty() && c.colls.front().left == static_cast<int>(c.members.size()))
    {
        c.colls.pop_front();
        c.base++;
    }
}

Send* isend(int comm, int dest, const void* data, size_t bytes)
{
    g_sends.emplace_back(new Send());
    Send* s = g_sends.back().get();
    s->from = t_self;
    s->to = g_comms.at(comm).members.at(dest);
    s->comm = comm;
    s->bytes = bytes;
    s->eager = !chance(1, 2, "rendezvous");
    s->src = data;
    s->arrived = s->taken = s->waited = false;
    s->seq = g_seq++;
    if (s->eager) { s->payload.assign(static_cast<const char*>(data), static_cast<const char*>(data) + bytes); }
    else { count("fault.rendezvous_send"); }
    g_channel[Chan{s->from, s->to, s->comm}].push_back(s);
    count("probe.messages");
    return s;
}

Recv* irecv(int comm, int source, void* data, size_t bytes)
{
    g_recvs.emplace_back(new Recv());
    Recv* r = g_recvs.back().get();
    r->from = g_comms.at(comm).members.at(source);
    r->to = t_self;
    r->comm = comm;
    r->dst = data;
    r->bytes = bytes;
    r->match = nullptr;
    g_posted[Chan{r->from, r->to, r->comm}].push_back(r);
    match(Chan{r->from, r->to, r->comm});
    return r;
}

void wait_all(std::vector<Send*>& sends, std::vector<Recv*>& recvs)
{
    block([&sends, &recvs]
    {
        for (Send* s : sends)
        {
            if (!s->eager && !s->taken) { return false; }
        }
        for (Recv* r : recvs)
        {
            if (!r->match) { return false; }
        }
        return true;
    }, "its messages");
    for (Send* s : sends) { s->waited = true; }
    for (Recv* r : recvs) { memcpy(r->dst, r->match->payload.data(), r->match->bytes); }
    sends.clear();
    recvs.clear();
}

void run(int n, const std::function<void(int)>& body)
{
    g_finished = false;
    g_current = -1;
    g_policy = choose(POLICIES, "schedule");
    g_slow = g_policy == SLOW_RANK ? (int)choose(n, "slow rank") : -1;
    static const char* const names[] = {"uniform", "one slow rank", "slow network", "fast network", "long turns"};
    event("%d ranks, schedule: %s", n, names[g_policy]);
    g_ranks.clear();
    for (int r = 0; r < n; ++r) { g_ranks.emplace_back(new Rank()); }
    for (int r = 0; r < n; ++r)
    {
        g_ranks[r]->thread = std::thread([r, &body]
        {
            alloc::Exempt exempt;
            t_self = r;
            {
                std::unique_lock<std::mutex> lock(g_mutex);
                g_ranks[r]->cv.wait(lock, [r] { return g_current == r; });
            }
            body(r);
            std::unique_lock<std::mutex> lock(g_mutex);
            g_ranks[r]->done = true;
            pass(lock);
        });
    }
    {
        std::unique_lock<std::mutex> lock(g_mutex);
        g_current = pick();
        g_ranks[g_current]->cv.notify_one();
        g_main.wait(lock, [] { return g_finished; });
    }
    for (auto& r : g_ranks) { r->thread.join(); }
    for (auto& c : g_comms)
    {
        for (Coll& k : c.second.colls)
        {
            violation("collective-unfinished", "%d of %zu ranks called %s", k.arrived, c.second.members.size(), k.kind.c_str());
        }
    }
    for (auto& q : g_channel)
    {
        if (!q.second.empty()) { violation("message-left-over", "a message of %zu bytes from rank %d to %d was never received", q.second.front()->bytes, q.first[0], q.first[1]); }
    }
    for (auto& q : g_inbox)
    {
        if (!q.second.empty()) { violation("message-left-over", "a message of %zu bytes from rank %d to %d was never received", q.second.front()->bytes, q.first[0], q.first[1]); }
    }
    for (auto& q : g_posted)
    {
        if (!q.second.empty()) { violation("receive-left-over", "rank %d still waits for a message from rank %d", q.first[1], q.first[0]); }
    }
    g_sends.clear();
    g_recvs.clear();
    g_ranks.clear();
}
}
}
