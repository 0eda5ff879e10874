// material models, limiters, monitors, wall layers and linear solvers
#include "vc.hpp"
#include "Transport_model.hpp"
#include "standard_atmosphere.hpp"
#include "filter_limit.hpp"
#include "History_monitor.hpp"
#include "Layer_sequence.hpp"
#include "iterative.hpp"
#include "stabilizing_art_visc.hpp"
#include "kernels.hpp"
using namespace hexed;

// 0: value, temperature, offset, sqrt of the temperature; 1: out
extern "C" void transport(double** b, int* ip)
{
  auto m = ip[0] == 0 ? Transport_model::inviscid() : ip[0] == 1 ? Transport_model::constant(b[0][0]) : Transport_model::sutherland(b[0][0], b[0][1], b[0][2]);
  b[1][0] = m.coefficient(b[0][3]);
  b[1][1] = m.is_viscous;
}

// 0: altitude, offset; 1: density, pressure
extern "C" void atmosphere(double** b, int* ip)
{
  auto a = ip[0] ? standard_atmosphere(b[0][0], b[0][1]) : standard_atmosphere_geopot(b[0][0], b[0][1]);
  b[1][0] = a[0];
  b[1][1] = a[1];
}

// 0..10: basis, 11: data, 12: decay rate
extern "C" void limit(double** b, int* ip)
{
  filter_limit(ip[0], b[11], *new G_basis(ip[1], b), b[12][0]);
}

// 0: values, 1: window, 2: minimum and maximum before anything and after every sample; ip: number of samples allowed, number of samples, iterations
extern "C" void history(double** b, int* ip)
{
  History_monitor h(b[1][0], ip[0]);
  b[2][0] = h.min();
  b[2][1] = h.max();
  for (int i = 0; i < ip[1]; ++i) {
    h.add_sample(ip[2 + i], b[0][i]);
    b[2][2 + 2*i] = h.min();
    b[2][3 + 2*i] = h.max();
  }
}

// 0: spacing at the wall, 1: number of layers, spacings, heights; ip: number of wall layers, number of growing layers (or -1: as constructed), layers to look at
extern "C" void layers(double** b, int* ip)
{
  Layer_sequence l(ip[1] < 0 ? b[0][0] : .25, ip[0]);
  if (ip[1] >= 0) {l.ws = b[0][0]; l.n_grow = ip[1];}
  b[1][0] = l.n_layers();
  for (int i = 0; i < ip[2]; ++i) b[1][1 + i] = l.spacing(i);
  for (int i = 0; i <= ip[2]; ++i) b[1][1 + ip[2] + i] = l.cumulative_height(i);
}

static Mat<> column(double* d, int n) {Mat<> v(n); for (int i = 0; i < n; ++i) v(i) = d[i]; return v;}
static Dense_equation& equation(double** b, int n, int nv)
{
  Mat<dyn, dyn> m(n, n);
  for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) m(i, j) = b[0][i*n + j];
  return *new Dense_equation(m, column(b[1], n), nv, column(b[2], n));
}
// 0: matrix, 1: right hand side, 2: guess, 3: out (all vectors); ip: size, storage, iterations
extern "C" void solve(double** b, int* ip)
{
  int n = ip[0];
  auto& e = equation(b, n, ip[1]);
  iterative::bicgstab(e, ip[2]);
  for (int v = 0; v < ip[1]; ++v) for (int i = 0; i < n; ++i) b[3][v*n + i] = e.vec(v)(i);
}
// 3: coefficients, 4: contents of the vectors, 5: results; ip[2]: operation, ip[3..5] arguments
extern "C" void operate(double** b, int* ip)
{
  int n = ip[0];
  auto& e = equation(b, n, ip[1]);
  for (int v = 2; v < ip[1]; ++v) for (int i = 0; i < n; ++i) e.vec(v)(i) = b[4][v*n + i];
  if (ip[2] == 0) e.scale(ip[3], ip[4], b[3][0]);
  if (ip[2] == 1) e.add(ip[3], b[3][0], ip[4], b[3][1], ip[5]);
  if (ip[2] == 2) e.matvec(ip[3], ip[4]);
  if (ip[2] == 3) b[5][0] = e.inner(ip[3], ip[4]);
  if (ip[2] == 4) b[5][0] = e.norm(ip[3]);
  if (ip[2] == 5) b[5][0] = e.n_vecs();
  for (int v = 0; v < ip[1]; ++v) for (int i = 0; i < n; ++i) b[4][v*n + i] = e.vec(v)(i);
}
// the discontinuity sensor.  0..25: element, 26..36: basis, 37: speed
extern "C" void sensor(double** b, int* ip)
{
  G_elem e; e.b = b; e.is_def = ip[2]; for (int i = 0; i < 6; ++i) e.face_def[i] = true;
  vc_register(static_cast<Kernel_element*>(&e));
  G_seq<Kernel_element, Kernel_element> s;
  G_seq<Kernel_connection, Kernel_connection> c;
  G_seq<Refined_face, Refined_face> r;
  G_basis basis(ip[1], b + 26);
  stabilizing_art_visc(Kernel_mesh{ip[0], ip[1], basis, c, c, s, s, s, r}, b[37][0]);
}
