// C41: VP_THREADS.  Asynchronous tasks, conditions and mutexes under every schedule within the preemption bound.
#include "util.h"
#include "thread/AsynchronousTask.h"
#include "thread/Thread.h"
#include <new>

class Task : public AsynchronousTask {
public:
    Task() : in(0), out(-1), runs(0) { }
    void request(int x) { in = x; startTask(); }
    int result() { awaitTask(); return out; }
    int in, out, runs;
protected:
    void performTask() { out = in * 3 + 1; ++runs; }
};
template <class C> struct Slot { // the constructor starts the thread, so the vtable pointer of the object is set up beside it
    char mem[sizeof(C)] __attribute__((aligned(16))); C *p;
    Slot() : p(0) {} void make() { vp_race_exempt(mem, 8); p = new (mem) C(); } void drop() { p->~C(); p = 0; }
};

static void tasks(int rounds) {
    Slot<Task> a; a.make();
    for (int i = 0; i < rounds; i++) {
        int x = vp_int("x", -1000, 1000); a.p->request(x); int r = a.p->result();
        vp_assert(r == 3 * x + 1, "await returns the result of the task started"); vp_assert(a.p->runs == i + 1, "one run per start");
    }
    a.drop();
}
static void pair() {
    Slot<Task> a, b; a.make(); b.make();
    int x = vp_int("x", -1000, 1000), y = vp_int("y", -1000, 1000);
    a.p->request(x); b.p->request(y);
    int r = a.p->result(), q = b.p->result();
    vp_assert(r == 3 * x + 1, "first task complete"); vp_assert(q == 3 * y + 1, "second task complete");
    vp_assert(a.p->runs == 1 && b.p->runs == 1, "one run per start"); a.drop(); b.drop();
}

class Consumer : public Thread {
public:
    Consumer(Condition *c, int n) : cond(c), want(n), avail(0), got(0), sum(0) {}
    Condition *cond; int want, avail, got, sum; int data;
protected:
    void run() { while (got < want) { cond->lock(); while (!avail) cond->wait(); sum += data; avail = 0; ++got; cond->signal(); cond->unlock(); } }
};
static void condition(int n) { // producer and consumer over one flag: every signal sent with the lock held is seen
    Condition c("c"); int expect = 0;
    { Consumer t(&c, n); t.start();
      for (int i = 0; i < n; i++) { int x = vp_int("x", 0, 50); c.lock(); while (t.avail) c.wait(); t.data = x; t.avail = 1; c.signal(); c.unlock(); expect += x; }
      t.wait(); vp_assert(t.got == n, "each item consumed once"); vp_assert(t.sum == expect, "no item lost"); }
}
class Signaller : public Thread {
public:
    Signaller(Condition *c) : cond(c), flag(0) {} Condition *cond; int flag;
protected:
    void run() { cond->lock(); flag = 1; cond->signal(); cond->unlock(); }
};
static void timed(int hi, int other, int width) { // the deadline asked of the system is the time now plus the interval
    Condition c("c"); static const int base[] = {1, 700, 1000, 250000, 499990, 999000, 999900, 1000000, 1500000, 1999990, 3000000, 9999990};
    int us = base[hi] + (width > 1 ? vp_int("us", 0, width - 1) : 0);
    if (!other) { c.lock(); c.wait(us); c.unlock(); }
    else { Signaller s(&c); c.lock(); s.start(); c.wait(us); int f = s.flag; vp_assert(f == 0 || f == 1, "flag"); c.unlock(); s.wait(); vp_assert(s.flag == 1, "signaller ran"); }
    long sec = vp_deadline(0), ns = vp_deadline(1), now = vp_deadline(2);
#ifndef VP_TSAN
    long late = (sec - 1000) * 1000000000L + ns - now * 1000 - (long)us * 1000;
    vp_assert(late >= 0, "times out no earlier than asked"); vp_assert(late <= 1000000, "times out when asked");
#endif
}

class Adder : public Thread {
public:
    Adder(Mutex *m, int *c, int k) : mutex(m), count(c), inside(0), n(k), failed(0) {} Mutex *mutex; int *count; int *inside; int n, failed; bool tryIt;
protected:
    void run() { for (int i = 0; i < n; i++) {
        if (tryIt) { if (!mutex->trylock()) { ++failed; continue; } step(); mutex->unlock(); }
        else { MutexLocker l(mutex); step(); } } }
    void step() { vp_assert(*inside == 0, "one thread inside at a time"); ++*inside; yield_(); ++*count; --*inside; }
    void yield_() { Mutex m; m.lock(); m.unlock(); } // a point where another thread may be run
};
static void mutex(int n, int tr) {
    Mutex m; int count = 0, inside = 0;
    { Adder a(&m, &count, n), b(&m, &count, n); a.inside = b.inside = &inside; a.tryIt = tr; b.tryIt = false;
      vp_race_exempt(&m, sizeof m); a.start(); b.start(); a.wait(); b.wait();
      vp_assert(count == 2 * n - a.failed, "each locked section counted once"); vp_assert(tr || a.failed == 0, "lock always obtains"); }
    vp_assert(m.trylock(), "free afterwards"); vp_assert(!m.trylock(), "held once taken"); m.unlock(); vp_assert(m.trylock(), "free again"); m.unlock();
    { MutexLocker l(&m); vp_assert(!m.trylock(), "held by the locker"); } vp_assert(m.trylock(), "released by the locker"); m.unlock();
    { MutexLocker none(0); }
}
static void threads(int n) { // start/wait/join of plain threads
    Condition c("c"); { Signaller s(&c); s.start(); s.wait(); vp_assert(s.flag == 1, "wait returns after run"); if (n > 0) { s.flag = 0; s.start(); } if (n > 1) { s.wait(); vp_assert(s.flag == 1, "restarted thread ran"); s.wait(); } }
    vp_assert(Thread::threadingAvailable(), "threads available");
}
extern "C" void vp_main() {
    int a = vp_param(1), b = vp_param(2);
    switch (vp_param(0)) { case 0: tasks(a); break; case 1: pair(); break; case 2: condition(a); break; case 3: timed(a, b, vp_param(3)); break; case 4: mutex(a, b); break; case 5: threads(a); break; }
    vp_reach("end");
}
