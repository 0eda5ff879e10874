// element geometry.  ip: 0 nd, 1 rs, 2 deformed, 3 refinement level, 4.. nominal position
// buffers: 0 nodes, 1 -, 2 diff_mat, 3 boundary, 4 element size (of the root mesh) and origin, 5 vertex positions [vertex][3], 6 node adjustments [axis][side][point]
// out: 7 interior positions [point][axis], 8 face positions [face][point][axis], 9 level normals then determinant, 10 faces [face][axis][point], 11 vertex spacing, 12 initial vertex positions,
// 13 Jacobian matrix [i][j][point], 14 nominal size
#include "Deformed_element.hpp"
#include "vc.hpp"
using namespace hexed;

struct Geo_basis : public G_basis
{
  using G_basis::G_basis;
};

template <typename E> static void run(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  Geo_basis basis(rs, b);
  Storage_params par{2, nd + 2, nd, rs};
  Mat<> origin(3);
  for (int i = 0; i < 3; ++i) origin(i) = b[4][1 + i];
  std::vector<int> pos;
  for (int i = 0; i < nd; ++i) pos.push_back(ip[4 + i]);
  E e(par, pos, b[4][0], ip[3], origin);
  b[14][0] = e.nominal_size();
  int nv = par.n_vertices(), nq = par.n_qpoint(), nfq = nq/rs;
  for (int v = 0; v < nv; ++v) for (int i = 0; i < 3; ++i) {b[12][3*v + i] = e.vertex(v).pos[i]; e.vertex(v).pos[i] = b[5][3*v + i];}
  if (double* a = e.node_adjustments()) for (int i = 0; i < 2*nd*nfq; ++i) a[i] = b[6][i];
  for (int f = 0; f < 2*nd; ++f) e.set_face(f, b[10] + f*nd*nfq);
  e.set_jacobian(basis);
  for (int q = 0; q < nq; ++q) {
    std::vector<double> p = e.position(basis, q);
    for (int i = 0; i < nd; ++i) b[7][q*nd + i] = p[i];
  }
  for (int f = 0; f < 2*nd; ++f) for (int q = 0; q < nfq; ++q) {
    std::vector<double> p = e.face_position(basis, f, q);
    for (int i = 0; i < nd; ++i) b[8][(f*nfq + q)*nd + i] = p[i];
  }
  if (double* n = e.reference_level_normals()) {
    for (int i = 0; i < nd*nd*nq; ++i) b[9][i] = n[i];
    for (int i = 0; i < nq; ++i) b[9][nd*nd*nq + i] = e.jacobian_determinant()[i];
  } else for (int i = 0; i < nq; ++i) b[9][nd*nd*nq + i] = e.Element::jacobian_determinant(i);
  for (int v = 0; v < nv; ++v) b[11][v] = e.vertex_time_step_scale(v);
  for (int i = 0; i < nd; ++i) for (int j = 0; j < nd; ++j) for (int q = 0; q < nq; ++q) b[13][(i*nd + j)*nq + q] = e.jacobian(i, j, q);
}

extern "C" void geometry(double** b, int* ip)
{
  if (ip[2]) run<Deformed_element>(b, ip);
  else run<Element>(b, ip);
}
