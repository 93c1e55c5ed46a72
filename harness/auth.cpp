// User accounts, protected paths, Basic authentication and cookie sessions.
#include "serve.h"
#include <openssl/sha.h>
#include <pion/user.hpp>
#include <pion/algorithm.hpp>
#include <pion/http/basic_auth.hpp>
#include <pion/http/cookie_auth.hpp>
using pion::user_manager; using pion::user_manager_ptr; using pion::user_ptr; using pion::user;
static char hexdigit(unsigned v, bool upper) { return (char)('0' + v + (v > 9) * (upper ? 7u : 39u)); }
static std::string hash(const std::string &pw, bool sha1, bool upper = false) { unsigned char d[32]; size_t n = sha1 ? 20 : 32; if (sha1) SHA1((const unsigned char *)pw.data(), pw.size(), d); else SHA256((const unsigned char *)pw.data(), pw.size(), d); std::string r; for (size_t i = 0; i < n; ++i) { r += hexdigit(d[i] >> 4, upper); r += hexdigit(d[i] & 15, upper); } return r; }
// ---- accounts: what the list of users should be
struct Account { std::string name, pw; bool sha1; user_ptr u; };
struct Book {
    std::vector<Account> v; int find(const std::string &n) { for (size_t i = 0; i < v.size(); ++i) if (pse_streq(v[i].name, n)) return (int)i; return -1; }
    void check(user_manager &m, const std::string &n, const std::string &pw) { int i = find(n); user_ptr a = m.get_user(n), b = m.get_user(n, pw); pse_assert(m.empty() == v.empty(), "users: empty exactly when there are none"); pse_assert(!!a == (i >= 0), "users: known exactly when added and not removed"); if (a) pse_assert(pse_streq(a->get_username(), n), "users: the user of that name");
        bool ok = i >= 0 && pse_streq(v[i].pw, pw); pse_assert(!!b == ok, "users: only the current password matches"); if (b) { pse_assert(a == b, "users: the user of that name"); pse_reach("match"); } else pse_reach("no match"); if (i >= 0) pse_assert(pse_streq(a->get_password(), hash(v[i].pw, v[i].sha1)), "users: the stored password is the digest"); }
};
static std::string pick(const char *what, size_t n) { return pse_string(n, what); }
// args: operations (base 6: 0 add, 1 update, 2 remove, 3 add digest, 4 update digest, 5 nothing), three of them; length of the names, passwords
extern "C" void a_users() {
    user_manager m; Book b; uint64_t ops = pse_arg(0); static const size_t nl[] = { 1, 1, 2 };
    for (int i = 0; i < 3; ++i, ops /= 6) { std::string n = pick("name", nl[(i + pse_arg(1)) % 3]), pw = pick("pw", (i + pse_arg(2)) % 3); int at = b.find(n); bool sha1 = i == 1, r = false, want; int op = ops % 6; user_ptr before = at >= 0 ? m.get_user(n) : user_ptr();
        switch (op) { case 0: r = m.add_user(n, pw); break; case 1: r = m.update_user(n, pw); break; case 2: r = m.remove_user(n); break; case 3: r = m.add_user_hash(n, hash(pw, sha1)); break; case 4: r = m.update_user_hash(n, hash(pw, sha1)); break; }
        if (op == 0 || op == 3) { want = at < 0; if (want) { Account a; a.name = n; a.pw = pw; a.sha1 = op == 3 && sha1; b.v.push_back(a); } } else if (op == 5) want = false; else { want = at >= 0; if (want) { if (op == 2) b.v.erase(b.v.begin() + at); else { b.v[at].pw = pw; b.v[at].sha1 = op == 4 && sha1; } } }
        pse_assert(r == want, "users: adding needs a new name, changing and removing an existing one"); b.check(m, n, pw); }
    std::string n = pick("n", 1 + pse_arg(3)), pw = pick("p", pse_arg(4)); b.check(m, n, pw); pse_observe("n", b.v.size());
}
// a digest given as text: any two characters in it, any length. args: 0 SHA-256 / 1 SHA-1 / 2 odd lengths, position
extern "C" void a_digest() {
    user_manager m; m.add_user("u", "old"); std::string h = hash("new", pse_arg(0) == 1); if (pse_arg(0) == 2) h.resize(pse_arg(1)); else { pse_symbolic(&h[pse_arg(1)], 2, "h"); } std::string right = hash("new", pse_arg(0) == 1); bool hexes = true; for (size_t i = 0; i < h.size(); ++i) { uint8_t c = h[i]; hexes &= ((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F')); }
    bool good = hexes && (h.size() == 64 || h.size() == 40), same = ieq(h, right), threw = false; try { m.update_user_hash("u", h); } catch (std::exception &) { threw = true; } pse_assert(threw == !good, "users: a malformed digest is refused");
    if (good) { pse_assert(!m.get_user("u", "old"), "users: the old password is gone"); pse_assert(!!m.get_user("u", "new") == same, "users: matches exactly the password the digest was made from"); pse_assert(pse_streq(m.get_user("u")->get_password(), h), "users: the digest is stored"); pse_reach("good"); }
    else { pse_assert(!!m.get_user("u", "old") && !m.get_user("u", "new"), "users: a refused digest changes nothing"); pse_assert(pse_streq(m.get_user("u")->get_password(), hash("old", false)), "users: a refused digest changes nothing"); threw = false; try { m.add_user_hash("v", h); } catch (std::exception &) { threw = true; } pse_assert(threw && !m.get_user("v"), "users: a refused digest adds nobody"); pse_reach("refused"); }
    pse_observe("good", good);
}
// ---- a server with one resource that everything reaches, and an authentication object
static const std::string GETL = "GET ";
static std::string strip(const std::string &s) { return !s.empty() && s[s.size() - 1] == '/' ? s.substr(0, s.size() - 1) : s; }
static std::string path(size_t n, const char *name) { std::string s = pse_string(n, name); for (size_t i = 0; i < n; ++i) { uint8_t c = s[i]; pse_assume((c > 32) & (c < 127) & (c != '?') & (c != '#')); } return s; }
static bool under(const std::string &r, const std::string &base) { if (r.size() < base.size() || !pse_memeq(r.data(), base.data(), base.size())) return false; return r.size() == base.size() || r[base.size()] == '/'; }
struct Site {
    Net n; server srv; user_manager_ptr um; int calls; std::string who; size_t seen; Client *c; bool locks;
    static Site *&self() { static Site *s; return s; }
    Site() : srv(n.s, 8080), um(new user_manager), calls(0), seen(0), c(0), locks(false) { self() = this; }
    static void handle(const request_ptr &q, const connection_ptr &k) { Site &s = *self(); ++s.calls; s.who = q->get_user() ? q->get_user()->get_username() : std::string(); s.locks |= pse_held_locks() != 0; response_writer_ptr w(response_writer::create(k, *q, boost::bind(&connection::finish, k))); w << "in"; w->send(); }
    template <class A> void start(A *a) { srv.set_authentication(auth_ptr(a)); srv.add_resource("/", handle); srv.start(); c = n.connect(srv); }
    // one request: the status of its answer, which is also kept
    response *last; std::string body_; int ask(const std::string &res, const std::string &headers = "") { int before = calls; size_t at = c->t.out.size(); c->send(GETL + res + " HTTP/1.1\r\n" + headers + "\r\n"); n.run(); Answers a(c->t.out.substr(at), !c->t.open); pse_assert(!a.bad && a.r.size() == 1, "auth: one answer"); pse_assert(c->t.open, "auth: the connection stays open"); last = a.r[0]; int code = last->get_status_code(); pse_assert((code == 200) == (calls == before + 1) && (code == 200 || calls == before), "auth: the handler runs exactly if the request is let through"); pse_assert(pse_held_locks() == 0 && !locks, "auth: no lock is left"); return code; }
};
// args: lengths of two protected paths, of two permitted ones (9: none), of the request, slashes appended (bits), users
extern "C" void a_paths() {
    Site S; basic_auth *a = new basic_auth(S.um, "r"); std::string p[4]; for (int i = 0; i < 4; ++i) if (pse_arg(i) != 9) { p[i] = path(pse_arg(i), "p"); if (pse_arg(i)) p[i] = "/" + p[i]; if (pse_arg(5) >> i & 1) p[i] += "/"; if (i < 2) a->add_restrict(p[i]); else a->add_permit(p[i]); } if (pse_arg(6)) a->add_user("u", "x"); if (pse_arg(6) == 2) a->remove_user("u"); S.start(a);
    std::string q = "/" + path(pse_arg(4), "q"); if (pse_arg(5) & 16) q += "/"; std::string s = strip(q); bool need = false, permit = false; for (int i = 0; i < 4; ++i) if (pse_arg(i) != 9) (i < 2 ? need : permit) |= under(s, strip(p[i])); bool want = pse_arg(6) == 1 && need && !permit;
    int code = S.ask(q); pse_assert(code == (want ? 401 : 200), "auth: exactly the protected paths need a user, unless permitted"); if (want) { pse_assert(S.last->get_header("WWW-Authenticate") == "Basic realm=\"r\"", "auth: the refusal says how"); pse_reach("refused"); } else pse_reach("open"); pse_observe("code", code);
}
// ---- Basic authentication
static std::string b64(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = (uint8_t)s[i] << 16; size_t k = s.size() - i; if (k > 1) v |= (uint8_t)s[i + 1] << 8; if (k > 2) v |= (uint8_t)s[i + 2]; for (int j = 0; j < 4; ++j) { unsigned x = v >> (18 - 6 * j) & 63; if ((size_t)j > k) { r += '='; continue; } r += (char)('A' + x + (x > 25) * 6u - (x > 51) * 75u - (x > 61) * 15u + (x > 62) * 3u); } } return r; }
static bool decoded(const std::string &cred, const std::string &name, const std::string &pw) { std::string d; return pion::algorithm::base64_decode(cred, d) && pse_streq(d, name + ":" + pw); }
// args: kind of header, lengths of name and password given, lengths of those registered
extern "C" void a_basic() {
    Site S; basic_auth *a = new basic_auth(S.um); a->set_option("realm", "here"); a->add_restrict("/p"); std::string n1 = pse_string(pse_arg(3), "n1"), p1 = pse_string(pse_arg(4), "p1"); for (size_t i = 0; i < n1.size(); ++i) pse_assume(n1[i] != ':'); a->add_user(n1, p1); a->add_user("other", "b"); S.start(a);
    std::string h; int code; switch (pse_arg(0)) { case 0: { std::string n = pse_string(pse_arg(1), "n"), p = pse_string(pse_arg(2), "p"); h = "Basic " + b64(n + ":" + p); break; } case 1: h = pse_string(6, "scheme") + b64(n1 + ":" + p1); break; case 2: h = "Basic " + pse_string(pse_arg(1), "c"); break; case 3: { std::string t = b64(n1 + ":" + p1); pse_symbolic(&t[pse_arg(1)], 1, "c"); h = "Basic " + t; break; } case 4: h = "Basic " + b64(pse_string(pse_arg(1), "d")); break; }
    for (size_t i = 0; i < h.size(); ++i) pse_assume(!ctl(h[i]) & (h[i] > 0)); pse_assume(h.empty() || (h[0] > 32 && h[h.size() - 1] > 32 && !special(h[0])));
    bool basic = h.size() > 6 && pse_memeq(h.data(), "Basic ", 6); std::string cred = basic ? h.substr(6) : ""; bool is1 = basic && pse_arg(3) && decoded(cred, n1, p1), is2 = basic && decoded(cred, "other", "b");
    for (int i = 0; i < 2; ++i) { code = S.ask("/p/x", "Authorization: " + h + "\r\n"); pse_assert((code == 200) == (is1 || is2), "auth: let through exactly with a user's name and password"); if (code == 200) { pse_assert(pse_streq(S.who, is1 ? n1 : std::string("other")), "auth: the handler sees that user"); pse_reach("in"); } else { pse_assert(code == 401 && S.last->get_header("WWW-Authenticate") == "Basic realm=\"here\"", "auth: refused"); pse_reach("refused"); } }
    code = S.ask("/p", "Authorization: Basic " + b64("other:b") + "\r\n"); pse_assert(code == 200 && S.who == "other", "auth: the next user is itself"); code = S.ask("/p"); pse_assert(code == 401, "auth: others are refused"); code = S.ask("/open"); pse_assert(code == 200 && S.who == "", "auth: nothing is needed elsewhere"); pse_observe("in", is1);
}
// accounts that change while clients use them. args: three steps (base 4: 0 ask with the first password, 1 change the password, 2 remove, 3 add again with the second)
extern "C" void a_change() {
    Site S; basic_auth *a = new basic_auth(S.um); a->add_restrict("/"); a->add_user("z", "z"); a->add_user("u", "1"); S.start(a); std::string pw = "1"; bool exists = true; long verified = -1; uint64_t st = pse_arg(0); int in = 0;
    for (int i = 0; i < 4; ++i, st /= 4) { uint16_t d = pse_u16("wait") & 1023; pse_now += d; int op = i == 3 ? 0 : st % 4;
        if (op == 1) { bool r = a->update_user("u", "2"); pse_assert(r == exists, "users: exists"); if (r) pw = "2"; } else if (op == 2) { bool r = a->remove_user("u"); pse_assert(r == exists, "users: exists"); exists = false; } else if (op == 3) { bool r = a->add_user("u", "2"); pse_assert(r == !exists, "users: exists"); if (r) { pw = "2"; exists = true; verified = -1; } }
        else for (int k = 0; k < 2; ++k) { int code = S.ask("/", "Authorization: Basic " + b64(k ? "u:2" : "u:1") + "\r\n"); bool right = exists && pw == (k ? "2" : "1"); if (!k && right) verified = pse_now; if (right) { pse_assert(code == 200 && S.who == "u", "auth: the current password is accepted"); ++in; pse_reach("in"); } else if (!exists || k) { pse_assert(code == 401, "auth: a removed user is refused"); pse_reach("removed"); } else { pse_assert(code == 401 || (verified >= 0 && pse_now - verified <= 300), "auth: an old password is refused within five minutes"); if (code == 401) pse_reach("old refused"); else pse_reach("old accepted"); } } }
    pse_observe("in", in);
}
// ---- cookie sessions
static const char SID[] = "pion_session_id";
static std::string cookie_set(response &r, std::string *rest = 0) { std::string h = r.get_header("Set-Cookie"), k = std::string(SID) + "=\""; if (h.compare(0, k.size(), k) != 0) return ""; size_t e = h.find('"', k.size()); if (e == std::string::npos) return ""; if (rest) *rest = h.substr(e + 1); return h.substr(k.size(), e - k.size()); }
static std::string with(const std::string &id, bool quoted = false) { return std::string("Cookie: a=b; ") + SID + "=" + (quoted ? "\"" + id + "\"" : id) + "; c=d\r\n"; }
struct Session { std::string id, user; long last; bool ended; };
// args: four steps (base 8: 0 log in as u, 1 as v, 2 with a wrong password, 3 log out the first session, 4 remove u, 5 ask with the last session, 6 log in and be sent on, 7 add u again), 1: failures are sent to a login page
extern "C" void a_session() {
    Site S; bool redir = pse_arg(1) & 1; cookie_auth *a = redir ? new cookie_auth(S.um, "/in", "/out", "/page") : new cookie_auth(S.um, "/in", "/out"); a->add_restrict("/"); a->add_user("u", "1"); a->add_user("v", "2"); S.start(a); std::vector<Session> s; bool exists = true; uint64_t st = pse_arg(0); int in = 0; std::string rest;
    for (int i = 0; i < 5; ++i, st /= 8) { if (i == 2 || i == 4) pse_now += pse_u16("wait") & 8191; else pse_now += pse_u8("wait") * 20; int op = i == 4 ? 8 : st % 8, code;
        if (op == 0 || op == 1 || op == 2 || op == 6) { bool ok = op != 2 && (op == 1 || exists); code = S.ask(std::string("/in?user=") + (op == 1 ? "v&pass=2" : op == 2 ? "u&pass=2" : "u&pass=1") + (op == 6 ? "&url=/go" : "") + (i & 1 ? "&x=y" : "")); std::string id = cookie_set(*S.last, &rest);
            if (ok) { pse_assert(code == (op == 6 ? 302 : 204), "session: logged in"); if (op == 6) pse_assert(S.last->get_header("Location") == "/go", "session: sent on"); pse_assert(id.size() >= 16 && rest.find("Max-Age") == std::string::npos, "session: a login gets a session of its own"); for (size_t k = 0; k < s.size(); ++k) pse_assert(s[k].id != id, "session: a login gets a session of its own"); Session n; n.id = id; n.user = op == 1 ? "v" : "u"; n.last = pse_now; n.ended = false; s.push_back(n); pse_reach("logged in"); }
            else { pse_assert(code == (redir ? 302 : 401) && !S.last->has_header("Set-Cookie"), "session: a wrong password gets no session"); if (redir) pse_assert(S.last->get_header("Location") == "/page", "session: sent to the login page"); pse_reach("not logged in"); } }
        else if (op == 3) { code = S.ask(i & 1 ? "/out?url=/bye" : "/out", s.empty() ? "" : with(s[0].id)); pse_assert(code == (i & 1 ? 302 : 204), "session: logged out"); if (i & 1) pse_assert(S.last->get_header("Location") == "/bye", "session: sent on"); cookie_set(*S.last, &rest); pse_assert(rest.find("Max-Age=0") != std::string::npos, "session: the client forgets the session"); if (!s.empty()) s[0].ended = true; }
        else if (op == 4) { pse_assert(a->remove_user("u") == exists, "users: exists"); exists = false; for (size_t k = 0; k < s.size(); ++k) if (s[k].user == "u") s[k].ended = true; }
        else if (op == 7) { pse_assert(a->add_user("u", "1") == !exists, "users: exists"); exists = true; }
        else for (size_t k = 0; k < s.size() || k == 0; ++k) { if (op == 5 && k + 1 < s.size()) continue; code = S.ask("/x", s.empty() ? "" : with(s[k].id, i & 1)); bool ok = !s.empty() && !s[k].ended && pse_now - s[k].last <= 3600;
            if (ok) { pse_assert(code == 200 && S.who == s[k].user, "session: a session in use is its user's"); s[k].last = pse_now; ++in; pse_reach("in"); } else { pse_assert(code == (redir ? 302 : 401), "session: refused after an hour, after logging out, without the user, without a session"); if (!s.empty()) s[k].ended = true; pse_reach("refused"); } } }
    if (redir) { pse_assert(S.ask("/page") == 200, "session: the login page is open to all"); pse_assert(S.ask("/page/x") == 302, "session: but nothing below it"); }
    pse_observe("in", in);
}
// an identifier that was not given out. args: 0 changed at a position, 1 cut or extended, 2 arbitrary text of some length; position or length
extern "C" void a_forged() {
    Site S; cookie_auth *a = new cookie_auth(S.um); a->add_restrict("/p"); a->add_user("u", "1"); S.start(a); pse_assert(S.ask("/login?user=u&pass=1") == 204, "session: logged in"); std::string id = cookie_set(*S.last), t = id; size_t n = pse_arg(1); if (pse_arg(0) == 0) pse_symbolic(&t[n % t.size()], 1, "c"); else if (pse_arg(0) == 1) { t.resize(n, 'A'); } else t = pse_string(n, "c"); for (size_t i = 0; i < t.size(); ++i) pse_assume(!ctl(t[i]) & (t[i] > 32) & (t[i] != ';') & (t[i] != ',') & (t[i] != '"') & (t[i] != '\''));
    int code = S.ask("/p", std::string("Cookie: ") + SID + "=" + t + "\r\n"); pse_assert(code == (pse_streq(t, id) ? 200 : 401), "session: only identifiers that were given out count"); if (code == 200) pse_reach("in"); else pse_reach("refused"); code = S.ask("/p", with(id)); pse_assert(code == 200 && S.who == "u", "session: the session goes on"); pse_observe("id", id[3]);
}
// arbitrary name and password at the login page. args: lengths of name and password given
extern "C" void a_login() {
    Site S; cookie_auth *a = new cookie_auth(S.um); a->set_option("login", "/enter"); a->set_option("logout", "/leave"); a->add_restrict("/p"); a->add_user("u", "1"); a->add_user("uu", ""); S.start(a); std::string n = pse_string(pse_arg(0), "n"), p = pse_string(pse_arg(1), "p"), all = n + p; for (size_t i = 0; i < all.size(); ++i) { uint8_t c = all[i]; pse_assume(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'z'))); }
    bool ok = (pse_streq(n, "u") && pse_streq(p, "1")) || (pse_streq(n, "uu") && p.empty()); int code = S.ask("/enter/?user=" + n + "&pass=" + p); std::string id = cookie_set(*S.last); pse_assert(code == (ok ? 204 : 401) && id.empty() == !ok, "session: exactly users with their password log in"); if (ok) { pse_assert(S.ask("/p", with(id)) == 200 && pse_streq(S.who, n), "session: as themselves"); pse_reach("logged in"); } else pse_reach("not logged in"); pse_assert(S.ask("/leave/", with(id)) == 204 && S.ask("/p", with(id)) == 401, "session: over after logging out"); pse_observe("ok", ok);
}
// where the client asks to be sent on to is a header's value, nothing more. args: 0 log in, 1 log out; text ('%~' arbitrary byte, encoded)
extern "C" void a_sent() {
    static const char *T[] = { "~", "/~", "/a~b", "/~~", "~~" }; Site S; cookie_auth *a = new cookie_auth(S.um); a->add_user("u", "1"); S.start(a); std::string t = hole(T[pse_arg(1)], "u"), e; bool plain = true; for (size_t i = 0; i < t.size(); ++i) { uint8_t c = t[i]; plain &= !ctl(c); e += '%'; e += hexdigit(c >> 4, false); e += hexdigit(c & 15, true); }
    std::string head = pse_arg(0) ? "/logout?url=" : "/login?user=u&pass=1&url="; int code = S.ask(head + e); size_t hs = S.last->get_headers().size(); std::string loc = S.last->get_header("Location"); if (plain) { pse_assert(code == 302, "session: sent on"); pse_assert(pse_streq(loc, t) || t[0] == ' ' || t[t.size() - 1] == ' ', "session: to where the client asked"); pse_reach("sent"); } else pse_reach("odd");
    int base = S.ask(pse_arg(0) ? "/logout?url=/x" : "/login?user=u&pass=1&url=/x"); pse_assert(base == 302 && S.last->get_headers().size() >= hs, "session: no headers but the server's"); pse_observe("code", code);
}
