// the quadrature bases.  ip: row size, what; results go to b[0]
#include "Gauss_legendre.hpp"
#include "Gauss_lobatto.hpp"
#include "Equidistant.hpp"
#include "vc.hpp"
using namespace hexed;

template <typename B> static void dump(double** b, int rs, int what, int arg)
{
  B basis(rs);
  auto put = [&](const Eigen::MatrixXd& m, int r, int c) {
    b[1][1] = m.rows(); b[1][2] = m.cols();
    if (m.rows() == r && m.cols() == c) for (int j = 0; j < c; ++j) for (int i = 0; i < r; ++i) b[0][i*c + j] = m(i, j); // row-major
  };
  b[1][0] = 1; // until proven otherwise: an exception was thrown
  switch (what) {
    case 0: for (int i = 0; i < rs; ++i) b[0][i] = basis.node(i); break;
    case 1: put(basis.node_weights(), rs, 1); break;
    case 2: put(basis.diff_mat(), rs, rs); break;
    case 3: put(basis.boundary(), 2, rs); break;
    case 4: put(basis.orthogonal(arg), rs, 1); break;
    case 5: put(basis.filter(), rs, rs); break;
    case 6: put(basis.prolong(arg), rs, rs); break;
    case 7: put(basis.restrict(arg), rs, rs); break;
    case 8: b[0][0] = basis.min_eig_diffusion(); b[0][1] = basis.max_cfl(); b[0][2] = basis.step_ratio(); break;
    case 9: put(basis.nodes(), rs, 1); break;
    case 10: { Eigen::VectorXd s(2); s << b[2][0], b[2][1]; put(basis.interpolate(s), 2, rs); } break;
  }
  b[1][0] = 0;
}
#define ENTRY(nm, B) extern "C" void ba_##nm(double** b, int* ip) {try {dump<B>(b, ip[0], ip[1], ip[2]);} catch (std::exception&) {}}
ENTRY(legendre, Gauss_legendre)
ENTRY(lobatto, Gauss_lobatto)
ENTRY(equidistant, Equidistant)

// Basis::interpolate for arbitrary nodes
extern "C" void ba_interpolate(double** b, int* ip)
{
  double* bb[11] {}; bb[0] = b[0];
  G_basis basis(ip[0], bb);
  Eigen::VectorXd s(ip[1]);
  for (int i = 0; i < ip[1]; ++i) s(i) = b[1][i];
  Eigen::MatrixXd m = basis.interpolate(s);
  for (int i = 0; i < ip[1]; ++i) for (int j = 0; j < ip[0]; ++j) b[2][i*ip[0] + j] = m(i, j);
}
// Basis::max_cfl, step_ratio for arbitrary eigenvalues and safety factors
extern "C" void ba_cfl(double** b, int* ip)
{
  double* bb[11] {}; bb[10] = b[0];
  G_basis basis(2, bb);
  b[1][0] = basis.max_cfl();
  b[1][1] = basis.step_ratio();
}
