// entry points of the element-local kernels.  Buffers 0..25: element (vc.hpp); 26..36: basis; 37: scalar parameters
#include "Spatial.hpp"
#include "pde.hpp"
#include "vc.hpp"
using namespace hexed;

template <int nd, int rs> using NS0 = pde::Navier_stokes<false>::Pde<nd, rs>;
template <int nd, int rs> using NS1 = pde::Navier_stokes<true>::Pde<nd, rs>;

// ip: 0 stage, 1 compute_residual, 2 use_filter, 3 which faces carry a face normal (bit mask), 4 is local time stepping, 5 which element the kernel sees as deformed
// par: 0 dt, 1.. pde parameters (advection length | diffusion time, chebyshev | viscosity reference, temperature, offset, conductivity ...)
#define SETUP(DF, rs) \
  G_elem e; e.b = b; e.is_def = DF; for (int i = 0; i < 6; ++i) e.face_def[i] = (ip[3] >> i) & 1; \
  vc_register(static_cast<Kernel_element*>(&e)); \
  G_seq<Kernel_element, Kernel_element> s; \
  G_basis basis(rs, b + 26); double* par = b[37]; (void)par;
#define ELEM(PDE, nm, nd, rs, DF, ...) \
extern "C" void lo_##nm##_##DF(double** b, int* ip) { SETUP(DF, rs) \
  Spatial<PDE, DF>::Local<nd, rs> k(basis, par[0], ip[0], ip[1], ip[2] __VA_OPT__(,) __VA_ARGS__); k(s); } \
extern "C" void wf_##nm##_##DF(double** b, int* ip) { SETUP(DF, rs) \
  Spatial<PDE, DF>::Write_face<nd, rs> k(basis __VA_OPT__(,) __VA_ARGS__); k(s); } \
extern "C" void dt_##nm##_##DF(double** b, int* ip) { SETUP(DF, rs) \
  Spatial<PDE, DF>::Max_dt<nd, rs> k(basis, ip[4], ip[2], par[8], par[9] __VA_OPT__(,) __VA_ARGS__); par[10] = k(s); }
#define RECO(PDE, nm, nd, rs, DF, ...) \
extern "C" void re_##nm##_##DF(double** b, int* ip) { SETUP(DF, rs) \
  Spatial<PDE, DF>::Reconcile_ldg_flux<nd, rs> k(basis, par[0], ip[0], ip[1], ip[2] __VA_OPT__(,) __VA_ARGS__); k(s); }
#define ALL(nd, rs, DF) \
  ELEM(NS0, euler, nd, rs, DF) \
  ELEM(NS1, ns, nd, rs, DF, Transport_model::sutherland(par[1], par[2], par[3]), Transport_model::sutherland(par[4], par[5], par[6])) \
  RECO(NS1, ns, nd, rs, DF, Transport_model::sutherland(par[1], par[2], par[3]), Transport_model::sutherland(par[4], par[5], par[6])) \
  ELEM(NS1, nsc, nd, rs, DF, Transport_model::constant(par[1]), Transport_model::constant(par[4])) \
  ELEM(pde::Advection, adv, nd, rs, DF, par[1]) \
  ELEM(pde::Smooth_art_visc, sav, nd, rs, DF, par[1], par[2]) RECO(pde::Smooth_art_visc, sav, nd, rs, DF, par[1], par[2]) \
  ELEM(pde::Fix_therm_admis, fta, nd, rs, DF) RECO(pde::Fix_therm_admis, fta, nd, rs, DF)
#if VC_DF
ALL(VC_ND, VC_RS, 1)
#else
ALL(VC_ND, VC_RS, 0)
#endif
