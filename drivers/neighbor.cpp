#include "Spatial.hpp"
#include "pde.hpp"
#include "vc.hpp"
using namespace hexed;

template <int nd, int rs> using NS0 = pde::Navier_stokes<false>::Pde<nd, rs>;
template <int nd, int rs> using NS1 = pde::Navier_stokes<true>::Pde<nd, rs>;

#define NEIGHBOR(PDE, nm, nd, rs, DF, ...) \
extern "C" void nb_##nm##_##DF##_##nd##_##rs(double** b, int* ip) { \
  G_con g; g.b = b; g.dir = vc_dir(ip); g.is_def = DF; vc_register(static_cast<Kernel_connection*>(&g)); \
  G_seq<Kernel_connection, Kernel_connection> s; \
  Spatial<PDE, DF>::Neighbor<nd, rs> k(ip[4] __VA_OPT__(,) __VA_ARGS__); \
  k(s); }
#define RECONCILE(PDE, nm, nd, rs, DF) \
extern "C" void nr_##nm##_##DF##_##nd##_##rs(double** b, int* ip) { \
  G_con g; g.b = b; g.dir = vc_dir(ip); g.is_def = DF; vc_register(static_cast<Kernel_connection*>(&g)); \
  G_seq<Kernel_connection, Kernel_connection> s; \
  Spatial<PDE, DF>::Neighbor_reconcile<nd, rs> k; \
  k(s); }
#define BOTH(nd, rs, DF) \
  NEIGHBOR(NS0, euler, nd, rs, DF) \
  NEIGHBOR(NS1, ns, nd, rs, DF) RECONCILE(NS1, ns, nd, rs, DF) \
  NEIGHBOR(pde::Advection, adv, nd, rs, DF, 1.) \
  NEIGHBOR(pde::Smooth_art_visc, sav, nd, rs, DF, 1., 1.) RECONCILE(pde::Smooth_art_visc, sav, nd, rs, DF) \
  NEIGHBOR(pde::Fix_therm_admis, fta, nd, rs, DF) RECONCILE(pde::Fix_therm_admis, fta, nd, rs, DF)
BOTH(VC_ND, VC_RS, 0)
BOTH(VC_ND, VC_RS, 1)
