// Analysis harness: work partitioning.
#include "algo_model.h"
#include "svs/lib/threads.h"
namespace t = svs::threads;
struct Body {
    void operator()(const t::IteratorPair<t::IndexIterator<size_t>>& r, uint64_t tid);
};
struct Plain {
    void operator()(uint64_t tid);
};
struct VBody {
    void operator()(const t::IteratorPair<std::vector<uint32_t>::const_iterator>& r, uint64_t tid);
};
using Range = t::UnitRange<size_t>;
using II = t::IndexIterator<size_t>;
void h_balance(Range& out, size_t n, size_t nthreads, size_t tid) { out = t::balance(n, nthreads, tid); }
void h_balance64(Range& out, size_t n, size_t nthreads, uint64_t tid) { out = t::balance(n, nthreads, tid); }
void h_static(t::StaticPartition<II>& s, size_t nthreads, Body& f, uint64_t tid) {
    auto w = t::thunks::wrap(t::ThreadCount{nthreads}, f, s);
    w(tid);
}
void h_dynamic(t::DynamicPartition<II>& s, size_t nthreads, Body& f, uint64_t tid) {
    auto w = t::thunks::wrap(t::ThreadCount{nthreads}, f, s);
    w(tid);
}
void h_dynvec(t::DynamicPartition<std::vector<uint32_t>::const_iterator>& s, size_t nthreads, VBody& f, uint64_t tid) {
    auto w = t::thunks::wrap(t::ThreadCount{nthreads}, f, s);
    w(tid);
}
void h_statvec(t::StaticPartition<std::vector<uint32_t>::const_iterator>& s, size_t nthreads, VBody& f, uint64_t tid) {
    auto w = t::thunks::wrap(t::ThreadCount{nthreads}, f, s);
    w(tid);
}
struct Pool {
    size_t size() const;
    // one worker of the pool, with an arbitrary index
    void run(t::FunctionRef f) { f(worker()); }
    size_t worker() const;
};
void h_run_plain(Pool& p, Plain& f) { t::run(p, f); }
void h_run_static(Pool& p, t::StaticPartition<II>& s, Body& f) { t::run(p, s, f); }
void h_run_dynamic(Pool& p, t::DynamicPartition<II>& s, Body& f) { t::run(p, s, f); }
void h_sp_len(t::StaticPartition<II>& o, size_t n) { o = t::StaticPartition<II>(n); }
void h_sp_range(t::StaticPartition<II>& o, size_t a, size_t b) { o = t::StaticPartition<II>(a, b); }
void h_sp_unit(t::StaticPartition<II>& o, const Range& r) { o = t::StaticPartition(r); }
void h_sp_vec(t::StaticPartition<std::vector<uint32_t>::const_iterator>& o, const std::vector<uint32_t>& v) { o = t::StaticPartition(v); }
void h_dp_len(t::DynamicPartition<II>& o, size_t n, size_t g) { o = t::DynamicPartition<II>(n, g); }
void h_dp_range(t::DynamicPartition<II>& o, size_t a, size_t b, size_t g) { o = t::DynamicPartition<II>(a, b, g); }
void h_dp_unit(t::DynamicPartition<II>& o, const Range& r, size_t g) { o = t::DynamicPartition(r, g); }
void h_dp_vec(t::DynamicPartition<std::vector<uint32_t>::const_iterator>& o, const std::vector<uint32_t>& v, size_t g) { o = t::DynamicPartition(v, g); }
void h_ur_ctor(Range& o, size_t a, size_t b) { o = Range(a, b); }
void h_ur_pair(Range& o, const t::IteratorPair<II>& p) { o = Range(p); }
size_t h_ur_begin(const Range& r) { return *r.begin(); }
size_t h_ur_end(const Range& r) { return *r.end(); }
size_t h_ur_size(const Range& r) { return r.size(); }
size_t h_ur_get(const Range& r, size_t i) { return r[i]; }
bool h_ur_contains(const Range& r, const size_t& i) { return r.contains(i); }
bool h_ur_empty(const Range& r) { return r.empty(); }
size_t h_ip_size(const t::IteratorPair<II>& p) { return p.size(); }
bool h_ip_empty(const t::IteratorPair<II>& p) { return p.empty(); }
size_t h_ip_get(const t::IteratorPair<II>& p, int64_t n) { return p[n]; }
size_t h_it_plus(const II& i, int64_t n) { return *(i + n); }
size_t h_it_minus(const II& i, int64_t n) { return *(i - n); }
size_t h_it_pluseq(II& i, int64_t n) { i += n; return *i; }
size_t h_it_minuseq(II& i, int64_t n) { i -= n; return *i; }
size_t h_it_at(const II& i, int64_t n) { return i[n]; }
int64_t h_it_diff(const II& a, const II& b) { return a - b; }
size_t h_it_inc(II& i) { return *++i; }
size_t h_it_dec(II& i) { return *--i; }
size_t h_it_postinc(II& i) { return *i++; }
size_t h_it_postdec(II& i) { return *i--; }
size_t h_it_nplus(int64_t n, const II& i) { return *(n + i); }
size_t h_div_round_up(size_t x, size_t y) { return svs::lib::div_round_up(x, y); }
bool h_it_eq(const II& a, const II& b) { return a == b; }
bool h_it_lt(const II& a, const II& b) { return a < b; }
