// Native replay of a schedule: the pthread calls of the code under test are mapped (by -D) to these,
// which hand one token between real threads at the same points, in the same order, as the executor did.
#undef pthread_create
#include <pthread.h>
#include <sys/time.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <vector>
#include <map>
#include <algorithm>
#include "vp.h"
#undef pthread_create
#undef pthread_join
#undef pthread_self
#undef pthread_mutex_init
#undef pthread_mutex_destroy
#undef pthread_mutex_lock
#undef pthread_mutex_trylock
#undef pthread_mutex_unlock
#undef pthread_cond_init
#undef pthread_cond_destroy
#undef pthread_cond_signal
#undef pthread_cond_broadcast
#undef pthread_cond_wait
#undef pthread_cond_timedwait
#undef gettimeofday
#ifdef VP_TSAN
extern "C" { long vp_deadline(int w) { return w == 0 ? 1000 : 0; } void vp_race_exempt(void *, int) {} }
#else
enum TS { RUN, MUTEX, COND, JOIN, DONE };
struct T { TS s; const void *on, *mtx; int jt; bool timed, timeout, acquired, joined; pthread_cond_t cv; void *(*fn)(void *); void *arg; pthread_t real; };
static std::vector<T *> th; static int cur = 0; static std::map<const void *, int> owner; static std::vector<int> sch; static size_t pos = 0; static bool loaded = false; static pthread_mutex_t G = PTHREAD_MUTEX_INITIALIZER; static __thread int self_ = 0;
static void die(const char *m) { printf("VP-FAIL %s\n", m); fflush(stdout); fprintf(stderr, "%s\n", m); _Exit(42); }
static void boot() { if (loaded) return; loaded = true; T *m = new T(); m->s = RUN; pthread_cond_init(&m->cv, 0); th.push_back(m); const char *f = getenv("VP_SCHED"); if (f) { FILE *g = fopen(f, "r"); int c; while (g && fscanf(g, "%d", &c) == 1) sch.push_back(c); if (g) fclose(g); } pthread_mutex_lock(&G); }
static bool mfree(const void *m) { std::map<const void *, int>::iterator i = owner.find(m); return i == owner.end() || i->second < 0; }
static bool en(int t) { T *h = th[t]; switch (h->s) { case RUN: return true; case MUTEX: return mfree(h->on); case JOIN: return th[h->jt]->s == DONE; default: return false; } }
static void resched(bool must) { int me = self_;
    for (;;) { std::vector<int> ch; if (!must && en(me)) ch.push_back(me); for (int t = 0; t < (int)th.size(); t++) if (!(t == me && !must) && en(t)) ch.push_back(t); bool any = !ch.empty();
        for (int t = 0; t < (int)th.size(); t++) if (th[t]->s == COND) { if (th[t]->timed) ch.push_back(t | 0x200); else if (any) ch.push_back(t | 0x100); }
        if (ch.empty()) { for (size_t t = 0; t < th.size(); t++) if (th[t]->s != DONE) die("deadlock"); return; }
        int c = pos < sch.size() ? sch[pos] : ch[0]; if (std::find(ch.begin(), ch.end(), c) == ch.end()) c = ch[0]; pos++;
        int t = c & 0xff; T *h = th[t]; if (c & 0x300) { h->s = MUTEX; h->on = h->mtx; h->timeout = (c & 0x200) != 0; must = must || !en(me); continue; }
        cur = t; if (h->s == MUTEX) { owner[h->on] = t; h->s = RUN; h->acquired = true; } else if (h->s == JOIN) { h->s = RUN; h->acquired = true; } break; }
    if (cur != me) { pthread_cond_signal(&th[cur]->cv); if (th[me]->s != DONE) while (cur != me) pthread_cond_wait(&th[me]->cv, &G); } }
static void *tramp(void *a) { int id = (int)(long)a; self_ = id; pthread_mutex_lock(&G); while (cur != id) pthread_cond_wait(&th[id]->cv, &G); th[id]->fn(th[id]->arg); th[id]->s = DONE; resched(true); pthread_mutex_unlock(&G); return 0; }
extern "C" {
int vps_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { boot(); owner.erase(m); memset(m, 0, 8); return 0; }
int vps_mutex_destroy(pthread_mutex_t *m) { boot(); if (!mfree(m)) die("destruction of a locked mutex"); for (size_t t = 0; t < th.size(); t++) if (th[t]->s == MUTEX && th[t]->on == m) die("destruction of a mutex in use"); return 0; }
int vps_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { boot(); memset(c, 0, 8); return 0; }
int vps_cond_destroy(pthread_cond_t *c) { boot(); for (size_t t = 0; t < th.size(); t++) if (th[t]->s == COND && th[t]->on == c) die("destruction of a condition variable in use"); return 0; }
pthread_t vps_self(void) { boot(); return (pthread_t)(self_ + 1); }
int vps_create(pthread_t *p, const pthread_attr_t *, void *(*fn)(void *), void *arg) { boot(); T *t = new T(); t->s = RUN; t->fn = fn; t->arg = arg; pthread_cond_init(&t->cv, 0); th.push_back(t); *p = (pthread_t)th.size(); pthread_create(&t->real, 0, tramp, (void *)(long)(th.size() - 1)); resched(false); return 0; }
int vps_join(pthread_t p, void **) { boot(); int t = (int)p - 1; if (t < 0 || t >= (int)th.size()) die("join of an invalid thread"); if (th[t]->joined) die("second join of a thread"); if (th[t]->s != DONE) { T *me = th[self_]; me->s = JOIN; me->jt = t; resched(true); me->acquired = false; } th[t]->joined = true; return 0; }
int vps_mutex_lock(pthread_mutex_t *m) { boot(); *(volatile char *)m; if (mfree(m)) { owner[m] = self_; return 0; } T *me = th[self_]; me->s = MUTEX; me->on = m; resched(true); me->acquired = false; return 0; }
int vps_mutex_trylock(pthread_mutex_t *m) { boot(); if (mfree(m)) { owner[m] = self_; return 0; } return 16; }
int vps_mutex_unlock(pthread_mutex_t *m) { boot(); *(volatile char *)m; if (mfree(m) || owner[m] != self_) die("unlock of a mutex not owned by the calling thread"); owner[m] = -1; if (th.size() > 1) resched(false); return 0; }
static int sig(pthread_cond_t *c, bool all) { boot(); *(volatile char *)c; for (size_t t = 0; t < th.size(); t++) if (th[t]->s == COND && th[t]->on == c) { th[t]->s = MUTEX; th[t]->on = th[t]->mtx; th[t]->timeout = false; if (!all) break; } if (th.size() > 1) resched(false); return 0; }
int vps_cond_signal(pthread_cond_t *c) { return sig(c, false); }
int vps_cond_broadcast(pthread_cond_t *c) { return sig(c, true); }
static long dl[3];
static int wait_(pthread_cond_t *c, pthread_mutex_t *m, bool timed) { boot(); if (mfree(m) || owner[m] != self_) die("condition wait without holding the mutex"); owner[m] = -1; T *me = th[self_]; me->s = COND; me->on = c; me->mtx = m; me->timed = timed; me->timeout = false; resched(true); me->acquired = false; return me->timeout ? 110 : 0; }
int vps_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return wait_(c, m, false); }
int vps_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *t) { dl[0] = t->tv_sec; dl[1] = t->tv_nsec; if (t->tv_nsec < 0 || t->tv_nsec >= 1000000000) die("deadline is a valid time"); return wait_(c, m, true); }
int vps_gettimeofday(struct timeval *t, void *) { int u = vp_int("tv_usec", 0, 999999); t->tv_sec = 1000; t->tv_usec = u; dl[2] = u; return 0; }
long vp_deadline(int w) { return dl[w]; }
void vp_race_exempt(void *, int) {}
}
#endif
