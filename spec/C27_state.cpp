// C27: pickling keeps a value, and Points behaves as a Python sequence of its points
//@ also: python/bindings.cpp
#include "spec.hpp"
#include "pybind_stub.hpp"
#include <copc-lib/hierarchy/key.hpp>
#include <copc-lib/hierarchy/node.hpp>
#include <copc-lib/las/header.hpp>
#include <copc-lib/las/point.hpp>
#include <copc-lib/las/points.hpp>
#include "point.hpp"
using namespace copc;
using namespace copc::las;
using pybind11::pybound;
namespace py = pybind11;

template <class T> T repickled(const char *cls, const T &v)
{
    return pybound<T>(cls, "__setstate__", "init", pybound<py::tuple>(cls, "__getstate__", "def", v));
}
VoxelKey lhs_pickled_key(const VoxelKey &k) { return repickled("VoxelKey", k); }
VoxelKey rhs_pickled_key(const VoxelKey &k) { return k; }
Node lhs_pickled_node(const Node &k) { return repickled("Node", k); }
Node rhs_pickled_node(const Node &k) { return k; }
Vector3 lhs_pickled_vector(const Vector3 &k) { return repickled("Vector3", k); }
Vector3 rhs_pickled_vector(const Vector3 &k) { return k; }
std::vector<char> lhs_pickled_bytes(const std::vector<char> &k) { return repickled("VectorChar", k); }
std::vector<char> rhs_pickled_bytes(const std::vector<char> &k) { return k; }
// (the setters keep the texts within the length a header can hold)
LasHeader lhs_pickled_header(const LasHeader &h)
{
    assume(h.GUID().size() <= 16);
    assume(h.SystemIdentifier().size() <= 32);
    assume(h.GeneratingSoftware().size() <= 32);
    return repickled("LasHeader", h);
}
LasHeader rhs_pickled_header(const LasHeader &h) { return h; }

// -- Points as a sequence
long index_of(long i, long n) { return i < 0 ? i + n : i; }
std::shared_ptr<Point> lhs_item(const Points &p, long i) { return pybound<std::shared_ptr<Point>>("Points", "__getitem__", "def", p, i); }
std::shared_ptr<Point> rhs_item(const Points &p, long i)
{
    long n = (long)p.Size(), j = index_of(i, n);
    if (j < 0 || j >= n)
        throw py::index_error();
    return p[j];
}
std::vector<std::shared_ptr<Point>> lhs_set_item(Points &p, long i, std::shared_ptr<Point> v)
{
    pybound<void>("Points", "__setitem__", "def", p, i, v);
    return p.Get();
}
std::vector<std::shared_ptr<Point>> rhs_set_item(Points &p, long i, std::shared_ptr<Point> v)
{
    long n = (long)p.Size(), j = index_of(i, n);
    if (j < 0 || j >= n)
        throw py::index_error();
    p[j] = v;
    return p.Get();
}
py::iterator lhs_iter(Points &p) { return pybound<py::iterator>("Points", "__iter__", "def", p); }
py::iterator rhs_iter(Points &p) { return py::make_iterator(p.begin(), p.end()); }
bool lhs_contains(Points &p, std::shared_ptr<Point> v) { return pybound<bool>("Points", "__contains__", "def", p, v); }
bool rhs_contains(Points &p, std::shared_ptr<Point> v) { return std::find(p.begin(), p.end(), v) != p.end(); }
std::vector<std::shared_ptr<Point>> lhs_contains_unit(std::shared_ptr<Point> a, std::shared_ptr<Point> v)
{
    std::vector<std::shared_ptr<Point>> r;
    Points p(std::vector<std::shared_ptr<Point>>{a});
    if (pybound<bool>("Points", "__contains__", "def", p, v))
        r.push_back(v);
    return r;
}
std::vector<std::shared_ptr<Point>> rhs_contains_unit(std::shared_ptr<Point> a, std::shared_ptr<Point> v)
{
    std::vector<std::shared_ptr<Point>> r;
    Points p(std::vector<std::shared_ptr<Point>>{a});
    if (v == a)
        r.push_back(v);
    return r;
}
// slices of a list of four points
template <long B, long E, long S> std::vector<std::shared_ptr<Point>> sliced(Points &p)
{
    assume(p.Size() == 4);
    return pybound<Points>("Points", "__getitem__", "def", p, py::slice(B, E, S)).Get();
}
#define SLICE(ID, B, E, S, ...) \
    std::vector<std::shared_ptr<Point>> lhs_slice_##ID(Points &p) { return sliced<B, E, S>(p); } \
    std::vector<std::shared_ptr<Point>> rhs_slice_##ID(Points &p) { return Points(std::vector<std::shared_ptr<Point>>{__VA_ARGS__}).Get(); }
SLICE(all, 0, 4, 1, p[0], p[1], p[2], p[3])
SLICE(part, 1, 3, 1, p[1], p[2])
SLICE(step, 0, 4, 2, p[0], p[2])
SLICE(odd, 1, 4, 2, p[1], p[3])
SLICE(tail, -2, 9, 1, p[2], p[3])
SLICE(backwards, 3, 0, -1, p[3], p[2], p[1])
SLICE(backstep, 3, -9, -2, p[3], p[1])

template <long B, long E, long S> std::vector<std::shared_ptr<Point>> assigned(Points &p, const Points &v)
{
    assume(p.Size() == 4);
    assume(v.Size() == 2);
    pybound<void>("Points", "__setitem__", "def", p, py::slice(B, E, S), v);
    return p.Get();
}
std::vector<std::shared_ptr<Point>> lhs_assign_part(Points &p, const Points &v) { return assigned<1, 3, 1>(p, v); }
std::vector<std::shared_ptr<Point>> rhs_assign_part(Points &p, const Points &v)
{
    p[1] = v[0], p[2] = v[1];
    return p.Get();
}
std::vector<std::shared_ptr<Point>> lhs_assign_back(Points &p, const Points &v) { return assigned<3, -9, -2>(p, v); }
std::vector<std::shared_ptr<Point>> rhs_assign_back(Points &p, const Points &v)
{
    p[3] = v[0], p[1] = v[1];
    return p.Get();
}
std::vector<std::shared_ptr<Point>> lhs_assign_size(Points &p, const Points &v) { return assigned<0, 3, 1>(p, v); }
std::vector<std::shared_ptr<Point>> rhs_assign_size(Points &, const Points &) { throw std::runtime_error("sizes differ"); }
