// Model of a pool run used by the analyses of parallel algorithms (that the real pool behaves like this is C09/C11):
// the job is run for some worker index, and has finished when run returns.
#pragma once
#include "svs/lib/threads/threadpool.h"
size_t svsa_any_worker();
#ifdef SVSA_POOL_LOOP
// ... or for any number of workers, one after the other: what one of them leaves behind for the next is then visible as data flow.
bool svsa_another_worker();
__attribute__((used)) inline void svsa_model_run(svs::threads::NativeThreadPool* p, svs::threads::FunctionRef f) { (void)p; do { f(svsa_any_worker()); } while (svsa_another_worker()); }
#else
__attribute__((used)) inline void svsa_model_run(svs::threads::NativeThreadPool* p, svs::threads::FunctionRef f) { (void)p; f(svsa_any_worker()); }
#endif
