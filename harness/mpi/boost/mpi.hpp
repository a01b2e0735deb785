// Stand-in for Boost.MPI: the collective operations the MPI adaptors of odeint use, between nodes that
// are executed one after the other.  A node that needs the contribution of nodes not run yet is stopped
// by an exception and run again from its start once every node of the communicator has contributed
// (the nodes are deterministic); see Nodes::run.
#ifndef VP_MPI
#define VP_MPI
#include <cstddef>
#include <vector>
#include "vp.h"
namespace vpmpi {
typedef std::vector<std::vector<double> > pack;      // what one node gives to or gets from an operation
struct Wait {};
enum Kind { none, reduce_op, scatter_op, gather_op };
struct Op { Kind kind; int comm, tag; pack in; };
struct Nodes {
    int size, rank, comm;                            // nodes of the communicator in use (0: world, 1: a part of it)
    std::size_t pos;
    std::vector<std::vector<pack> > done;            // [operation][node] results
    std::vector<Op> waiting;
    pack (*combine)(Kind, int tag, const std::vector<Op> &, int node);
    static Nodes &get() { static Nodes n; return n; }
    pack collective(Kind k, int c, int tag, const pack &in)
    {
        vp_assert(c == comm, "nodes communicate within the communicator of the state");
        if (c != comm) vp_stop();
        if (pos < done.size()) return done[pos++][rank];
        Op o = { k, c, tag, in };
        waiting[rank] = o;
        throw Wait();
    }
    template<class Prog>
    void run(int n, int c, Prog &prog)
    {
        size = n;
        comm = c;
        done.clear();
        for (;;) {
            Op o = { none, 0, 0, pack() };
            waiting.assign(n, o);
            int ready = 0;
            for (rank = 0; rank < n; ++rank) {
                pos = 0;
                try { prog(rank); ++ready; } catch (Wait &) {}
            }
            if (ready == n) return;
            bool same = true;
            for (int i = 1; i < n; ++i) same = same && waiting[i].kind == waiting[0].kind && waiting[i].tag == waiting[0].tag;
            vp_assert(same && ready == 0, "all nodes reach the same collective operations");
            if (!same || ready) vp_stop();
            std::vector<pack> r(n);
            for (int i = 0; i < n; ++i) r[i] = combine(waiting[0].kind, waiting[0].tag, waiting, i);
            done.push_back(r);
        }
    }
};
}
namespace boost { namespace mpi {
class communicator {
    int id;
public:
    communicator() : id(0) {}
    explicit communicator(int i) : id(i) {}           // stands for the results of split, duplication ...
    int rank() const { return vpmpi::Nodes::get().rank; }
    int size() const { return vpmpi::Nodes::get().size + (id == 0 ? vpmpi::Nodes::get().comm : 0); }
    bool operator==(const communicator &o) const { return id == o.id; }
    bool operator!=(const communicator &o) const { return id != o.id; }
    int vp_id() const { return id; }
};
template<class T> struct maximum { T operator()(const T &x, const T &y) const { return x < y ? y : x; } };
template<class T> struct minimum { T operator()(const T &x, const T &y) const { return x < y ? x : y; } };
template<class T> struct bitwise_and { T operator()(const T &x, const T &y) const { return x & y; } };
template<class T> struct bitwise_or { T operator()(const T &x, const T &y) const { return x | y; } };
namespace vpd {
template<class O> struct tag;
template<class T> struct tag<maximum<T> > { static const int value = 1; };
template<class T> struct tag<minimum<T> > { static const int value = 2; };
template<class T> struct tag<bitwise_and<T> > { static const int value = 3; };
template<class T> struct tag<bitwise_or<T> > { static const int value = 4; };
inline double fold(int tag, double a, double b)
{
    switch (tag) {
    case 1: return a < b ? b : a;
    case 2: return a < b ? a : b;
    case 3: return a != 0 && b != 0;
    default: return a != 0 || b != 0;
    }
}
inline vpmpi::pack combine(vpmpi::Kind k, int tag, const std::vector<vpmpi::Op> &w, int node)
{
    vpmpi::pack r;
    if (k == vpmpi::reduce_op) {
        double v = w[0].in[0][0];
        for (std::size_t i = 1; i < w.size(); ++i) v = fold(tag, v, w[i].in[0][0]);
        r.push_back(std::vector<double>(1, v));
    } else if (k == vpmpi::scatter_op) {
        vp_assert(w[tag].in.size() == w.size(), "one piece per node");
        if (w[tag].in.size() != w.size()) vp_stop();
        r.push_back(w[tag].in[node]);
    } else if (node == tag)
        for (std::size_t i = 0; i < w.size(); ++i) r.push_back(w[i].in[0]);
    return r;
}
inline vpmpi::Nodes &nodes() { vpmpi::Nodes &n = vpmpi::Nodes::get(); n.combine = combine; return n; }
template<class T, class O> T reduce(const communicator &c, const T &x)
{
    return static_cast<T>(nodes().collective(vpmpi::reduce_op, c.vp_id(), tag<O>::value, vpmpi::pack(1, std::vector<double>(1, static_cast<double>(x))))[0][0]);
}
}
template<class T, class O> T all_reduce(const communicator &c, const T &x, O) { return vpd::reduce<T, O>(c, x); }
template<class T, class O> void all_reduce(const communicator &c, const T &x, T &out, O) { out = vpd::reduce<T, O>(c, x); }
template<class S> void scatter(const communicator &c, const std::vector<S> &in, S &out, int root)
{
    vpmpi::pack p;
    if (c.rank() == root) for (std::size_t i = 0; i < in.size(); ++i) p.push_back(std::vector<double>(in[i].begin(), in[i].end()));
    const vpmpi::pack r = vpd::nodes().collective(vpmpi::scatter_op, c.vp_id(), root, p);
    out = S(r[0].begin(), r[0].end());
}
template<class S> void gather(const communicator &c, const S &in, std::vector<S> &out, int root)
{
    const vpmpi::pack r = vpd::nodes().collective(vpmpi::gather_op, c.vp_id(), root, vpmpi::pack(1, std::vector<double>(in.begin(), in.end())));
    if (c.rank() == root) { out.clear(); for (std::size_t i = 0; i < r.size(); ++i) out.push_back(S(r[i].begin(), r[i].end())); }
}
template<class S> void gather(const communicator &c, const S &in, int root) { std::vector<S> o; gather(c, in, o, root); }
} }
#endif
