// hanging-node data transfer.  buffers: 0 coarse face, 1..4 fine faces, 5,6 prolongation matrices, 7,8 restriction matrices
#include "Spatial.hpp"
#include "pde.hpp"
#include "vc.hpp"
using namespace hexed;

template <int nd, int rs> using NS0 = pde::Navier_stokes<false>::Pde<nd, rs>;

// ip: 0,1 stretch, 2 scale, 3 offset
#define SETUP(rs) \
  Refined_face f; f.coarse = b[0]; for (int i = 0; i < 4; ++i) f.fine[i] = b[1 + i]; \
  f.stretch[0] = ip[0]; f.stretch[1] = ip[1]; vc_register(&f); \
  G_seq<Refined_face, Refined_face> s; \
  double* bb[11] {}; bb[6] = b[5]; bb[7] = b[6]; bb[8] = b[7]; bb[9] = b[8]; G_basis basis(rs, bb);
#define MORTAR(PDE, nm, nd, rs) \
extern "C" void pr_##nm(double** b, int* ip) { SETUP(rs) Spatial<PDE, false>::Prolong_refined<nd, rs> k(basis, ip[2], ip[3]); k(s); } \
extern "C" void rs_##nm(double** b, int* ip) { SETUP(rs) Spatial<PDE, false>::Restrict_refined<nd, rs> k(basis, ip[2], ip[3]); k(s); } \
extern "C" void pd_##nm(double** b, int* ip) { SETUP(rs) Spatial<PDE, true>::Prolong_refined<nd, rs> k(basis); k(s); } \
extern "C" void rd_##nm(double** b, int* ip) { SETUP(rs) Spatial<PDE, true>::Restrict_refined<nd, rs> k(basis); k(s); }
MORTAR(NS0, flow, VC_ND, VC_RS)
MORTAR(pde::Advection, adv, VC_ND, VC_RS)
MORTAR(pde::Smooth_art_visc, sav, VC_ND, VC_RS)
