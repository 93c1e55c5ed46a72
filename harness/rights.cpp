// Administrative rights and the user and group a process runs as.  No call reaches the system: rt/sys.inc.
#include "text.h"
#include <fstream>
#include <boost/thread/mutex.hpp>
#include <pion/admin_rights.hpp>
using pion::admin_rights;
static void ids() { pse_ruid = pse_u32("ruid"); pse_euid = pse_u32("euid"); pse_suid = pse_u32("suid"); pse_assume((pse_ruid != ~0u) & (pse_euid != ~0u) & (pse_suid != ~0u)); }
// args: how the rights are given back
extern "C" void r_rights() {
    ids(); unsigned before = pse_euid; bool can = before == 0 || pse_ruid == 0 || pse_suid == 0; pse_assume(before == pse_ruid || before == pse_suid); // what a process can return to
    try {
        admin_rights r(pse_arg(0) & 1); pse_assert(pse_euid == (can ? 0 : before), "rights: administrative exactly if the process may be"); pse_assert(pse_held_locks() == (can ? 1u : 0u), "rights: held by one at a time");
        if (pse_arg(0) == 2) { r.release(); pse_assert(pse_euid == before, "rights: given back when released"); { admin_rights again; pse_assert(pse_euid == (can ? 0 : before), "rights: can be obtained again"); } pse_assert(pse_euid == before, "rights: given back"); unsigned calls = pse_seteuid_calls; r.release(); pse_assert(calls == (unsigned)pse_seteuid_calls, "rights: given back once"); }
        if (pse_arg(0) == 3) throw 1;
        if (pse_arg(0) == 4) r.release();
    } catch (int) {}
    pse_assert(pse_euid == before, "rights: the process runs as the same user afterwards"); pse_assert(pse_held_locks() == 0, "rights: no lock is left"); if (can) pse_reach("obtained"); else pse_reach("refused"); pse_observe("calls", pse_seteuid_calls);
}
static unsigned long inside; static unsigned orig; static bool refuse;
static void user(void *) { { admin_rights r(false); if (!refuse) { ++inside; pse_assert(inside == 1 && pse_euid == 0, "rights: one thread at a time has them"); pse_yield(); pse_assert(inside == 1 && pse_euid == 0, "rights: nobody takes them away"); --inside; } } }
// threads that obtain rights at the same time
extern "C" void r_threads() { pse_ruid = orig = pse_euid = 40000; refuse = pse_arg(0); pse_suid = refuse ? 40000 : 0; pse_switches(pse_arg(1)); int a = pse_spawn(user, 0), b = pse_spawn(user, 0); user(0); pse_join(a); pse_join(b); pse_assert(pse_euid == 40000 && pse_held_locks() == 0, "rights: the process runs as the same user afterwards"); pse_observe("calls", pse_seteuid_calls); }
// ---- users and groups by name or number
static std::string digits(size_t n, const char *name) { std::string s = pse_string(n, name); for (size_t i = 0; i < n; ++i) pse_assume((s[i] >= '0') & (s[i] <= '9')); return s; }
static std::string word(size_t n, const char *name) { std::string s = pse_string(n, name); for (size_t i = 0; i < n; ++i) pse_assume((s[i] >= 'a') & (s[i] <= 'z')); return s; }
static unsigned value(const std::string &d) { unsigned v = 0; for (size_t i = 0; i < d.size(); ++i) v = v * 10 + (d[i] - '0'); return v; }
// args: group?, digits of the ids, length of the name asked for (0: number), password field, an odd line?, letters the name is shorter (1) or longer (2) than the first
extern "C" void r_find() {
    bool group = pse_arg(0); size_t nd = pse_arg(1), nn = pse_arg(2); ids(); unsigned euid = pse_euid, egid = pse_egid; static const char *pw[] = { "x", "", "!*", "0" }; std::string p = pw[pse_arg(3)];
    std::string n1 = word(pse_arg(5) == 1 ? nn + 1 : pse_arg(5) == 2 ? nn - 1 : 1 + (nn > 1), "n1"), n2 = word(nn ? nn : 1, "n2"), d1 = digits(nd, "d1"), d2 = digits(nd, "d2"), odd = pse_arg(4) ? std::string("zz:x\n") : std::string();
    std::string file = n1 + ":" + p + ":" + d1 + ":7:a:/b:/c\n" + odd + "\n" + n2 + ":" + p + ":" + d2 + ":8:Some One:/home:/bin/sh\n"; pse_files()[group ? "/etc/group" : "/etc/passwd"] = file; pse_files()[group ? "/etc/passwd" : "/etc/group"] = "a:x:1:1\n";
    std::string ask = nn ? word(nn, "ask") : digits(nd, "ask"); long r = group ? admin_rights::run_as_group(ask) : admin_rights::run_as_user(ask); unsigned now = group ? pse_egid : pse_euid, was = group ? egid : euid; pse_assert((group ? pse_euid == euid : pse_egid == egid), "identity: the other identity stays");
    if (pse_arg(4)) pse_assume(ask != "zz");
    long want = nn == 0 ? (long)value(ask) : pse_streq(ask, n1) ? (long)value(d1) : pse_streq(ask, n2) ? (long)value(d2) : -1;
    if (want == -1) { pse_assert(r == (long)was && now == was, "identity: an unknown name changes nothing"); pse_reach("unknown"); return; }
    bool may = euid == 0 || (group ? ((unsigned)want == pse_rgid || (unsigned)want == pse_sgid) : ((unsigned)want == pse_ruid || (unsigned)want == pse_suid));
    if (may) { pse_assert(r == want && now == (unsigned)want, "identity: the process runs as the user or group named"); pse_reach("changed"); } else { pse_assert(r == -1 && now == was, "identity: a change that is not allowed is reported"); pse_reach("not allowed"); }
    pse_observe("r", (uint64_t)r);
}
// a missing or odd file. args: which
extern "C" void r_file() { pse_euid = 0; static const char *t[] = { "", "\n\n:::\n", "bob\nbob:x\n", "bob:x:abc:1\n", "bob:x:\n", "bob:x:12x:1\n", "al:x:5:5\nbob:x:6" }; size_t k = pse_arg(0); if (k < 7) pse_files()["/etc/passwd"] = t[k]; long r = admin_rights::run_as_user("bob"); pse_assert(r == (k == 6 ? 6 : 0) && pse_euid == (k == 6 ? 6u : 0u), "identity: only a well-formed entry counts"); pse_observe("r", (uint64_t)r); }
