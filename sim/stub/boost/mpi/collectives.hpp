#pragma once
#include "communicator.hpp"
#include <algorithm>
namespace boost { namespace mpi {
template <class T> struct minimum { T operator()(const T &a, const T &b) const { return a < b ? a : b; } };
template <class T> struct maximum { T operator()(const T &a, const T &b) const { return a < b ? b : a; } };
inline std::vector<std::string> coll_(const char *k, int root, std::string m) { return simmpi::g_hub->collective(simmpi::g_rank, k, root, std::move(m)); }
template <class T> void broadcast(const communicator &c, T &v, int root) {
    if (root < 0 || root >= c.size()) throw exception("MPI_Bcast: MPI_ERR_ROOT");
    auto r = coll_("broadcast", root, c.rank() == root ? pack_(v) : std::string());
    if (c.rank() != root) unpack_(r[root], v);
}
template <class T> void gather(const communicator &c, const T &v, std::vector<T> &out, int root) {
    auto r = coll_("gather", root, pack_(v));
    if (c.rank() == root) { out.clear(); out.resize(r.size()); for (size_t i = 0; i < r.size(); i++) unpack_(r[i], out[i]); }
}
template <class T> void gather(const communicator &c, const T &v, int root) { (void)c; coll_("gather", root, pack_(v)); }
template <class T> void all_gather(const communicator &c, const T &v, std::vector<T> &out) {
    (void)c;
    auto r = coll_("all_gather", -1, pack_(v));
    out.clear(); out.resize(r.size());
    for (size_t i = 0; i < r.size(); i++) unpack_(r[i], out[i]);
}
template <class T, class Op> T all_reduce(const communicator &c, const T &v, Op op) {
    (void)c;
    auto r = coll_("all_reduce", -1, pack_(v));
    T acc; unpack_(r[0], acc);
    for (size_t i = 1; i < r.size(); i++) { T x; unpack_(r[i], x); acc = op(acc, x); }
    return acc;
}
template <class T, class Op> void all_reduce(const communicator &c, const T &v, T &out, Op op) { out = all_reduce(c, v, op); }
template <class T, class Op> void reduce(const communicator &c, const T &v, T &out, Op op, int root) {
    auto r = coll_("reduce", root, pack_(v));
    if (c.rank() == root) { T acc; unpack_(r[0], acc); for (size_t i = 1; i < r.size(); i++) { T x; unpack_(r[i], x); acc = op(acc, x); } out = acc; }
}
template <class T, class Op> void reduce(const communicator &c, const T &v, Op, int root) { (void)c; coll_("reduce", root, pack_(v)); }
template <class T> void scatter(const communicator &c, const std::vector<T> &v, T &out, int root) {
    auto r = coll_("scatter", root, c.rank() == root ? pack_(v) : std::string());
    std::vector<T> all; unpack_(r[root], all); out = all.at(c.rank());
}
template <class T> void scatter(const communicator &c, T &out, int root) { std::vector<T> d; scatter(c, d, out, root); }
template <class T> void all_to_all(const communicator &c, const std::vector<T> &in, std::vector<T> &out) {
    auto r = coll_("all_to_all", -1, pack_(in));
    out.clear(); out.resize(r.size());
    for (size_t i = 0; i < r.size(); i++) { std::vector<T> x; unpack_(r[i], x); out[i] = x.at(c.rank()); }
}
}}
