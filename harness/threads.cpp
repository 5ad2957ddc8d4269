// Analysis entry points for the thread hand-off (C11) and the thread pool (C09).
#include "svs/lib/preprocessor.h"
#include "svs/lib/threads/thread.h"
#include "svs/lib/threads/threadpool.h"
#include <new>
using namespace svs;
using namespace svs::threads;
using CB = ThreadControlBlock<>;
using Pool = NativeThreadPool;

ThreadState h_cb_wait(const CB& cb) { return cb.wait_while_busy(); }
ThreadState h_cb_spin(CB& cb, size_t n) { return cb.spin_wait(n); }
void h_cb_notify(CB& cb, ThreadState current, ThreadState next) { cb.notify_thread(current, next); }
void h_cb_assign(CB& cb, ThreadFunctionRef fn) { cb.assign(fn); }
void h_cb_shutdown(CB& cb, bool wait) { cb.shutdown(wait); }
bool h_cb_sleep(CB& cb) { return cb.try_sleep(); }
void h_cb_run(CB& cb, std::promise<void> p, size_t n) { cb.unsafe_run(std::move(p), n); }
bool h_cb_okay(const CB& cb) { return cb.is_okay(); }
bool h_cb_isshut(const CB& cb) { return cb.is_shutdown(); }

void h_t_ctor(void* p, size_t n) { new (p) Thread(n); }
void h_t_assign(Thread& t, ThreadFunctionRef fn) { t.assign(fn); }
void h_t_wait(Thread& t) { t.wait(); }
bool h_t_okay(Thread& t) { return t.is_okay(); }
bool h_t_isshut(Thread& t) { return t.is_shutdown(); }
void h_t_get(Thread& t) { t.unsafe_get_exception(); }
void h_t_shutdown(Thread& t) { t.shutdown(); }
void h_t_dtor(Thread& t) { t.~Thread(); }

void h_pool_ctor(void* p, uint64_t n) { new (p) Pool(n); }
size_t h_pool_size(const Pool& p) { return p.size(); }
void h_pool_resize(Pool& p, size_t n) { p.resize(n); }
void h_pool_run(Pool& p, FunctionRef f) { p.run(f); }
void h_seq_run(FunctionRef f) { SequentialThreadPool::run(f); }
size_t h_seq_size() { return SequentialThreadPool().size(); }

struct Job { void operator()(size_t); };
void h_fref(Job& j, size_t tid) { FunctionRef f(j); f(tid); }
void h_tref(FunctionRef f, size_t id, ThreadFunctionRef& out) { out = ThreadFunctionRef(f, id); }
void h_tcall(const ThreadFunctionRef& f) { f(); }
