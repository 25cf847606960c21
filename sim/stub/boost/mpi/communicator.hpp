#pragma once
// Simulation stand-in for <boost/mpi/communicator.hpp>: same interface, transport owned by the simulator.
#include "simhub.hpp"
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/serialization/is_bitwise_serializable.hpp>
#include <boost/serialization/level.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/tracking.hpp>
#include <boost/serialization/utility.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/mpl/bool.hpp>
#include <boost/optional.hpp>
#include <cstring>
#include <functional>
#include <iostream>
#include <iterator>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <type_traits>

#define BOOST_IS_MPI_DATATYPE(T)                                                                                       \
    namespace boost { namespace mpi { template <> struct is_mpi_datatype<T> : std::true_type {}; } }
#define BOOST_MPI_SIMULATED 1

namespace boost { namespace mpi {
const int any_source = -2;
const int any_tag = -1;
enum comm_create_kind { comm_duplicate, comm_take_ownership, comm_attach };
template <class T> struct is_mpi_datatype : std::is_arithmetic<T> {};

class exception : public std::runtime_error { using std::runtime_error::runtime_error; };

template <class T> std::string pack_(const T &v) {
    if constexpr (std::is_same_v<T, char> || std::is_arithmetic_v<T>) return std::string((const char *)&v, sizeof v);
    else {
        std::ostringstream o;
        { boost::archive::binary_oarchive a(o, boost::archive::no_header); a << v; }
        return o.str();
    }
}
template <class T> void unpack_(const std::string &s, T &v) {
    if constexpr (std::is_same_v<T, char> || std::is_arithmetic_v<T>) { if (s.size() != sizeof v) throw exception("MPI_ERR_TRUNCATE: message of another type"); memcpy((void *)&v, s.data(), sizeof v); }
    else {
        std::istringstream i(s);
        boost::archive::binary_iarchive a(i, boost::archive::no_header);
        a >> v;
    }
}
template <class T> std::string packd_(const T &v) { // direct (MPI datatype) representation
    if constexpr (is_mpi_datatype<T>::value) return std::string((const char *)&v, sizeof v);
    else return pack_(v);
}
template <class T> void unpackd_(const std::string &s, T &v) {
    if constexpr (is_mpi_datatype<T>::value) { if (s.size() != sizeof v) throw exception("MPI_ERR_TRUNCATE: message of another type"); memcpy((void *)&v, s.data(), sizeof v); }
    else unpack_(s, v);
}
template <class T> struct vec_of : std::false_type { using type = void; };
template <class U, class A> struct vec_of<std::vector<U, A>> : std::true_type { using type = U; };
template <class T> constexpr bool direct_vec() { if constexpr (vec_of<T>::value) return is_mpi_datatype<typename vec_of<T>::type>::value && !std::is_same_v<typename vec_of<T>::type, bool>; else return false; }

class status {
  public:
    int s_ = -1, t_ = -1;
    int source() const { return s_; }
    int tag() const { return t_; }
    int error() const { return 0; }
    bool cancelled() const { return false; }
};

class request {
    struct Imp {
        int rank; long id; bool done = false; status st;
        std::function<void(const std::string &)> sink;
        ~Imp() { if (!done && simmpi::g_hub) simmpi::g_hub->drop(rank, id); }
        void finish() { std::string p = simmpi::g_hub->take(rank, id, &st.s_, &st.t_); done = true; if (sink) sink(p); }
    };
    std::shared_ptr<Imp> p_;
  public:
    request() {}
    request(int rank, long id, std::function<void(const std::string &)> sink) : p_(std::make_shared<Imp>()) { p_->rank = rank; p_->id = id; p_->sink = std::move(sink); }
    status wait() { if (!p_) return status(); if (!p_->done) { simmpi::g_hub->wait(p_->rank, p_->id); p_->finish(); } return p_->st; }
    boost::optional<status> test() {
        if (!p_) return boost::optional<status>(status());
        if (!p_->done) { if (!simmpi::g_hub->test(p_->rank, p_->id)) return boost::none; p_->finish(); }
        return boost::optional<status>(p_->st);
    }
    void cancel() {}
    bool active() const { return p_ && !p_->done; }
};
template <class It> void wait_all(It b, It e) { for (; b != e; ++b) b->wait(); }
template <class It, class Out> Out wait_all(It b, It e, Out o) { for (; b != e; ++b) *o++ = b->wait(); return o; }
template <class It> bool test_all(It b, It e) { bool all = true; for (; b != e; ++b) if (!b->test()) all = false; return all; }
template <class It> std::pair<status, It> wait_any(It b, It e) {
    for (;;) for (It i = b; i != e; ++i) { auto s = i->test(); if (s) return {*s, i}; }
}

class communicator {
    int r() const { return simmpi::g_rank; }
    template <class T> long send_(int dst, int tag, const T &v, bool blocking) const {
        if (dst < 0 || dst >= size()) throw exception("MPI_Send: MPI_ERR_RANK: invalid rank");
        if (tag < 0) throw exception("MPI_Send: MPI_ERR_TAG: invalid tag");
        if constexpr (is_mpi_datatype<T>::value) return simmpi::g_hub->post_send(r(), dst, tag, std::string(), (const void *)&v, sizeof v, blocking);
        else if constexpr (direct_vec<T>()) return simmpi::g_hub->post_send(r(), dst, tag, std::string(), (const void *)v.data(), v.size() * sizeof(typename vec_of<T>::type), blocking);
        else return simmpi::g_hub->post_send(r(), dst, tag, pack_(v), nullptr, 0, blocking);
    }
    template <class T> static void sink_(const std::string &s, T &v) {
        if constexpr (is_mpi_datatype<T>::value) { if (s.size() != sizeof v) throw exception("MPI_ERR_TRUNCATE: message of another type"); memcpy((void *)&v, s.data(), sizeof v); }
        else if constexpr (direct_vec<T>()) { using U = typename vec_of<T>::type; if (s.size() % sizeof(U)) throw exception("MPI_ERR_TRUNCATE: message of another type"); v.resize(s.size() / sizeof(U)); memcpy((void *)v.data(), s.data(), s.size()); }
        else unpack_(s, v);
    }
    void chksrc(int src) const { if (src != any_source && (src < 0 || src >= size())) throw exception("MPI_Recv: MPI_ERR_RANK: invalid rank"); }
  public:
    communicator() {}
    template <class C> communicator(const C &, comm_create_kind) {}
    int rank() const { return r(); }
    int size() const { return simmpi::g_hub ? simmpi::g_hub->size() : 1; }
    void barrier() const { simmpi::g_hub->collective(r(), "barrier", -1, ""); }
    template <class T> void send(int dst, int tag, const T &v) const { long q = send_(dst, tag, v, true); simmpi::g_hub->wait(r(), q); int a, b; simmpi::g_hub->take(r(), q, &a, &b); }
    void send(int dst, int tag) const { send(dst, tag, char(0)); }
    template <class T> void send(int dst, int tag, const T *v, int n) const { std::vector<T> x(v, v + n); send(dst, tag, x); }
    template <class T> status recv(int src, int tag, T &v) const {
        chksrc(src);
        long q = simmpi::g_hub->post_recv(r(), src, tag);
        simmpi::g_hub->wait(r(), q);
        status st;
        std::string p = simmpi::g_hub->take(r(), q, &st.s_, &st.t_);
        sink_(p, v);
        return st;
    }
    status recv(int src, int tag) const { char c; return recv(src, tag, c); }
    template <class T> request isend(int dst, int tag, const T &v) const { return request(r(), send_(dst, tag, v, false), nullptr); }
    request isend(int dst, int tag) const { static const char c = 0; return isend(dst, tag, c); }
    template <class T> request irecv(int src, int tag, T &v) const {
        chksrc(src);
        long q = simmpi::g_hub->post_recv(r(), src, tag);
        T *pv = &v;
        return request(r(), q, [pv](const std::string &s) { sink_(s, *pv); });
    }
    template <class T> status sendrecv(int dst, int stag, const T &sv, int src, int rtag, T &rv) const {
        request a = isend(dst, stag, sv);
        status s = recv(src, rtag, rv);
        a.wait();
        return s;
    }
    status probe(int src = any_source, int tag = any_tag) const { status s; simmpi::g_hub->probe(r(), src, tag, true, &s.s_, &s.t_); return s; }
    boost::optional<status> iprobe(int src = any_source, int tag = any_tag) const { status s; if (simmpi::g_hub->probe(r(), src, tag, false, &s.s_, &s.t_)) return boost::optional<status>(s); return boost::none; }
    void abort(int) const { throw exception("MPI_Abort"); }
    operator bool() const { return true; }
};
}} // namespace boost::mpi
