// run-time selection of a kernel instance.  ip: 0 n_dim, 1 row_size; buffers: 0 constructor arguments, 1 results
#include "kernel_factory.hpp"
#include "vc.hpp"
using namespace hexed;
template <int nd, int rs> struct K : public Kernel<double&, double>
{
  double a, b;
  K(double aa, double bb) : a{aa}, b{bb} {}
  double operator()(Sequence<double&>& s) override {s[0] = nd; s[1] = rs; s[2] = a; return b;}
};
struct Seq : public Sequence<double&>
{
  double* d;
  int size() override {return 3;}
  double& operator[](int i) override {return d[i];}
};
extern "C" void dispatch(double** b, int* ip)
{
  Seq s; s.d = b[1];
  auto k = kernel_factory<K>(ip[0], ip[1], b[0][0], b[0][1]);
  b[1][3] = (*k)(s);
}
