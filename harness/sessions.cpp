// H04: what a client sends stays in its own session, whatever requests come before or at the same time.
// Built twice: with scheduling points at every call within the server (and two preemptions), and with points in every
// inlined library function as well (SCHED_FINE, one preemption).
#include "vh.hpp"
#include "psi_server.hpp"
#include "session_manager.hpp"
#include "json_site.hpp"
#include "pipe_runner.hpp"
#include <dlfcn.h>
#include <fstream>
#include <pthread.h>
#include <semaphore.h>
#include <sys/stat.h>
#include <thread>
#define NOI __attribute__((no_instrument_function))
using std::string; using std::vector; using std::map;
// a controlled scheduler for two threads: one runs, the other waits -------------------------------------------------------
static struct { sem_t sem[2], done; bool finished[2], active, deadlock; long step; vector<long> preempt; size_t next; int limit; } SC;
static thread_local int ME = -1;
static void NOI switchTo(int o) { if (SC.finished[o]) return; int me = ME; sem_post(&SC.sem[o]); while (sem_wait(&SC.sem[me])) {} }
static void NOI point() { if (!SC.active || ME < 0) return; ++SC.step; if (SC.next < SC.preempt.size() && SC.step == SC.preempt[SC.next]) { ++SC.next; switchTo(1 - ME); } }
extern "C" void NOI __cyg_profile_func_enter(void*, void*) { point(); }
extern "C" void NOI __cyg_profile_func_exit(void*, void*) { point(); }
extern "C" int NOI pthread_mutex_lock(pthread_mutex_t* m) {
    static int (*real)(pthread_mutex_t*), (*tryl)(pthread_mutex_t*); if (!real) { real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock"); tryl = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_trylock"); }
    if (!SC.active || ME < 0) return real(m);
    point();
    for (int spins = 0;; ++spins) { int r = tryl(m); if (r != EBUSY) return r; if (SC.finished[1 - ME] || spins > 1000) { fprintf(stderr, "deadlock\n"); abort(); } switchTo(1 - ME); }
}
extern "C" int NOI pthread_mutex_unlock(pthread_mutex_t* m) { static int (*real)(pthread_mutex_t*); if (!real) real = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_unlock"); int r = real(m); point(); return r; }
extern "C" int NOI pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    static int (*real)(pthread_cond_t*, pthread_mutex_t*); if (!real) real = (int (*)(pthread_cond_t*, pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_cond_wait");
    if (!SC.active || ME < 0) return real(c, m);
    pthread_mutex_unlock(m); switchTo(1 - ME); return pthread_mutex_lock(m);   // a spurious wake-up is always allowed
}
static char* str(const string& s) { char* r = new char[s.size() + 1]; strcpy(r, s.c_str()); return r; }
static char* value() { return str(SessionManager::Instance()->currentSession()->getData("v")); }
static char* action(PsiServer*) { return str("/x.html"); }
static JsonSite* JS;
static PsiServer& server() {
    static PsiServer* s; if (s) return *s;
    mkdir("root", 0755); { std::ofstream o("root/x.html"); o << "[<!--#psis value -->|<!--#psis value -->]"; } { std::ofstream o("root/json.html"); o << "<!--#psis json_site_output -->"; }
    s = new PsiServer("127.0.0.1", "0", "1", "root"); s->registerActionCode("act", action); s->registerIncludeCode("value", value); JS = new JsonSite(*s); return *s;
}
static http::server3::request request(const string& uri, const string& cookie) {
    http::server3::request r; r.method = "GET"; r.uri = uri; r.http_version_major = 1; r.http_version_minor = 0; if (!cookie.empty()) { http::server3::header h; h.name = "Cookie"; h.value = cookie; r.headers.push_back(h); } return r;
}
static PsiRequestHandler& handler() { static PsiRequestHandler* h = new PsiRequestHandler("root", &server()); return *h; }   // one handler serves all connections
struct Answer { string content, cookie; bool threw = false; };
static Answer ask(const string& uri, const string& cookie) {
    http::server3::reply rep; Answer a; try { handler().handle_request(request(uri, cookie), rep); } catch (std::exception& e) { a.threw = true; a.content = e.what(); return a; }
    a.content = rep.content; for (auto& h : rep.headers) if (h.name == "Set-Cookie") a.cookie = h.value; return a;
}
static string jsonWant(const string& p, const string& in) { string out(in.rbegin(), in.rend()); return "{ \n\"pipe\": \"" + p + "\",\n\"input\": \"" + in + "\",\n\"output\": \"" + out + "\",\n\"error\": null\n }"; }
// histories of one client after another -------------------------------------------------------------------------------------
static void history(const string& ops) {
    map<char, string> cookie; map<char, string> v; std::set<string> ids; size_t nobody = 0;
    for (size_t k = 0; k < ops.size(); k += 2) {
        char who = ops[k], op = ops[k + 1]; string c = cookie.count(who) ? cookie[who] : "", uri = "/x.html", val;
        if (op == 's') { val = string(1, who) + vh::num(k); uri = "/act.psis?v=" + val; } else if (op == 'c') { uri = "/act.psis?v="; }
        string sent = c; bool known = !c.empty(), fresh = false;
        switch (op) {
        case '1': sent = "a=b; " + c + "; z=y"; break; case '2': sent = "XPSISESSIONID=" + string(25, 'x') + "; " + c; break;
        case '3': sent = "PSISESSIONID"; known = false; fresh = true; break; case '4': sent = "PSISESSIONID="; known = false; fresh = true; break; case '5': sent = "PSISESSIONID=" + string(25, 'q'); known = false; fresh = true; break;
        case '6': sent = c.empty() ? "" : c.substr(0, c.size() - 1); known = false; fresh = true; break; case '7': sent = c.empty() ? "a=PSISESSIONID" : "a=PSISESSIONID; " + c; break; case '8': sent = ""; known = false; fresh = true; break; case '9': sent = "a=1;" + c; break; }
        Answer a = ask(uri, sent); vh::transitions(); string what = "step " + vh::num(k / 2) + " of " + ops;
        if (!vh::expect(!a.threw, "exception", "the server is killed by an exception at " + what + ": " + a.content)) return;
        if (op == 's') v[who] = val; if (op == 'c') v[who] = "";
        string want = fresh || (!known && op != 's') ? "" : v[who];
        if (!known && !fresh && op == 'c') want = "";
        if (!vh::expectEq(a.content, "[" + want + "|" + want + "]", "value", what)) return;
        if (!vh::expectEq(a.cookie.empty(), known, "cookie", "a new session at " + what)) return;
        if (!a.cookie.empty()) { vh::expect(ids.insert(a.cookie).second, "session-id", "a session identifier given twice at " + what); vh::expect(a.cookie.size() == 13 + 25, "session-id-length", a.cookie); if (!fresh) cookie[who] = a.cookie; }
        (void)nobody; vh::state(ops.substr(0, k + 2));
    }
    vh::traces();
}
// two requests at the same time -----------------------------------------------------------------------------------------------
struct Job { string uri, cookie; Answer got; };
static Job JOB[2];
static void NOI body(int me) { ME = me; while (sem_wait(&SC.sem[me])) {} JOB[me].got = ask(JOB[me].uri, JOB[me].cookie); SC.finished[me] = true; if (!SC.finished[1 - me]) sem_post(&SC.sem[1 - me]); else sem_post(&SC.done); }
static long NOI execute(int first, const vector<long>& preempt) {
    for (int i = 0; i < 2; ++i) { sem_init(&SC.sem[i], 0, 0); SC.finished[i] = false; } sem_init(&SC.done, 0, 0); SC.step = 0; SC.preempt = preempt; SC.next = 0; SC.active = true;
    std::thread a(body, 0), b(body, 1); sem_post(&SC.sem[first]); while (sem_wait(&SC.done)) {} SC.active = false; a.join(); b.join(); return SC.step;
}
static void schedules(char scenario, int first, long p1) {
    static std::set<string> ids; server(); handler();
    static bool warm; if (!warm) { warm = true; ask("/x.html", ""); ask("/json.psis?pipe=w&input=w", ""); }
    static long n; ++n;
    auto run = [&](vector<long> pre) {
        ++n; string val[2] = {"a" + vh::num(n % 1000), "b" + vh::num(n % 1000)}, old[2] = {"oldA", "oldB"}; string want[2]; bool fresh[2];
        static string keep[2]; if (keep[0].empty()) for (int i = 0; i < 2; ++i) keep[i] = ask("/x.html", "").cookie;   // two sessions of long standing
        for (int i = 0; i < 2; ++i) {
            Job& j = JOB[i]; j = Job(); fresh[i] = false; string w = val[i];
            bool json = scenario == 'j' || (scenario == 'm' && i), get = scenario == 'g' && i;
            if (scenario == 'n' || scenario == 'j') fresh[i] = true; else j.cookie = keep[i];
            if (get) { ask("/act.psis?v=" + old[i], j.cookie); w = old[i]; j.uri = "/x.html"; } else j.uri = "/act.psis?v=" + w;
            want[i] = "[" + w + "|" + w + "]";
            if (json) { j.uri = "/json.psis?pipe=p" + w + "&input=" + w; want[i] = jsonWant("p" + w, w); }
        }
        long steps = execute(first, pre); vh::traces(); vh::transitions(steps);
        string what = "thread " + vh::num(first) + " first, preempted at"; for (long p : pre) what += " " + vh::num(p);
        bool ok = true;
        for (int i = 0; i < 2; ++i) { ok &= vh::expect(!JOB[i].got.threw, "concurrent-exception", what + ": " + JOB[i].got.content); ok &= vh::expectEq(JOB[i].got.content, want[i], "concurrent-value", "the answer to request " + vh::num(i) + ", " + what);
            ok &= vh::expectEq(!JOB[i].got.cookie.empty(), fresh[i], "concurrent-cookie", "a new session for request " + vh::num(i) + ", " + what);
            if (fresh[i]) { ok &= vh::expect(ids.insert(JOB[i].got.cookie).second, "concurrent-id", "a session identifier given twice, " + what);
                if (scenario == 'n') ok &= vh::expectEq(ask("/x.html", JOB[i].got.cookie).content, want[i], "concurrent-later", "the session of request " + vh::num(i) + " later, " + what); }
            else if (scenario != 'm' || !i) ok &= vh::expectEq(ask("/x.html", keep[i]).content, want[i], "concurrent-kept", "the session of request " + vh::num(i) + " later, " + what); }
        vh::outcome(string(1, scenario) + (ok ? "ok" : "bad")); return std::make_pair(ok, steps);
    };
    auto r = run({p1}); vh::stateHash(vh::hash64(string(1, scenario) + vh::num(first) + "/" + vh::num(p1))); if (r.second < p1) { vh::tally("beyond the end"); return; }
    if (!r.first) return;
#ifndef SCHED_FINE
    for (long p2 = p1 + 1;; ++p2) { auto q = run({p1, p2}); if (!q.first || q.second < p2) return;
        if (vh::thorough()) for (long p3 = p2 + 1;; ++p3) { auto t = run({p1, p2, p3}); if (!t.first) return; if (t.second < p3) break; } }
#endif
}
void vh_run(const string& id) { if (id[0] == 'h') history(id.substr(1)); else schedules(id[0], id[1] - '0', atol(id.c_str() + 2)); }
void vh_enumerate(vh::Emit& emit) {
#ifdef SCHED_FINE
    for (char sc : string(vh::thorough() ? "nkjmg" : "nkj")) for (char f : string("01")) for (long p = 1; p <= 40000; p += 1) emit(string(1, sc) + f + vh::num(p));
#else
    vector<string> ops; for (char w : string("AB")) for (char o : string("gsc")) ops.push_back(string(1, w) + o);
    vector<string> odd; for (char o : string("123456789")) odd.push_back(string("A") + o);
    vh::strings(ops, vh::thorough() ? 6 : 5, [&](const string& s) { emit("h" + s); });
    for (auto& o : odd) vh::strings(ops, vh::thorough() ? 4 : 3, [&](const string& s) { emit("h" + s + o); emit("h" + s + o + "Ag"); emit("hAs" + s + o + "BgAg"); for (auto& p : odd) if (s.size() < 5) emit("h" + s + o + p + "Ag"); });
    for (char sc : string("nkjmg")) for (char f : string("01")) for (long p = 1; p <= (vh::thorough() ? 400 : 800); ++p) emit(string(1, sc) + f + vh::num(p));
#endif
}
