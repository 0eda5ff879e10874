// functions of the solution that the user can ask for, evaluated on real elements and boundary connections.
// ip: 0 nd, 1 rs, 2 deformed, 3 refinement level, 4 function, 5 way it is called (0 arguments, 1 at a point of an element, 2 at a point of a boundary), 6,7 face axis and sign, 8.. integer parameters
// buffers: 0 nodes, 1 weights, 2 diff_mat, 3 boundary, 4 element size, origin and per-element numbers, 5 vertex positions, 6 element data [var][point], 7 residual [var][point],
// 8 face state, ghost state, face normal, face position, cached flux, 9 parameters of the function and time, 10 (as in vc.hpp: not used), 12 orthogonal polynomials
// out: 13 values [point][component], 14 number of components and further facts
#include "Tree.hpp"
#include "Element_func.hpp"
#include "Spacetime_func.hpp"
#include "hil_properties.hpp"
#include "Vis_data.hpp"
#include "connection.hpp"
#include "vc.hpp"
using namespace hexed;

struct O_basis : public G_basis
{
  using G_basis::G_basis;
  Eigen::VectorXd orthogonal(int degree) const override {Eigen::VectorXd v(row_size); for (int k = 0; k < row_size; ++k) v(k) = b[12][degree*row_size + k]; return v;}
};
static std::vector<double> vec(const double* p, int n) {return std::vector<double>(p, p + n);}

struct Ctx
{
  double** b; int* ip; int nd, rs, nq, nfq; const Basis& basis; Element* e; Boundary_connection* con; double time;
  void out(const std::vector<double>& v, int p, int n)
  {
    if (p == 0) {b[14][0] = n; b[14][1] = v.size();}
    for (unsigned i = 0; i < v.size(); ++i) b[13][p*v.size() + i] = v[i];
  }
  // points of the element or of the face, or one set of arguments
  template <typename F> void go(const F& f)
  {
    int n = f.n_var(nd);
    if (ip[5] == 1) {
      if constexpr (std::is_base_of<Qpoint_func, F>::value) for (int q = 0; q < nq; ++q) out(static_cast<const Qpoint_func&>(f)(*e, basis, q, time), q, n);
    } else if (ip[5] == 2) {
      if constexpr (std::is_base_of<Boundary_func, F>::value) for (int q = 0; q < nfq; ++q) out(static_cast<const Boundary_func&>(f)(*con, q, time), q, n);
    } else {
      std::vector<double> pos = vec(b[5], nd), state = vec(b[6], nd + 2), normal = vec(b[8], nd);
      if constexpr (std::is_base_of<Spacetime_func, F>::value) out(static_cast<const Spacetime_func&>(f)(pos, time), 0, n);
      else if constexpr (std::is_base_of<Domain_func, F>::value) out(static_cast<const Domain_func&>(f)(pos, time, state), 0, n);
      else if constexpr (std::is_base_of<Surface_func, F>::value) out(static_cast<const Surface_func&>(f)(pos, time, state, normal), 0, n);
    }
  }
};

template <typename E> static void run(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  O_basis basis(rs, b);
  Storage_params par{2, nd + 2, nd, rs};
  Mat<> origin(3);
  for (int i = 0; i < 3; ++i) origin(i) = b[4][1 + i];
  std::vector<int> pos(nd, 2);
  E e(par, pos, b[4][0], ip[3], origin);
  int nv = par.n_vertices(), nq = par.n_qpoint(), nfq = nq/rs;
  if (E::is_deformed) for (int v = 0; v < nv; ++v) for (int i = 0; i < 3; ++i) e.vertex(v).pos[i] = b[5][3*v + i];
  for (int i = 0; i < (nd + 9 + rs)*nq; ++i) e.state()[i] = b[6][i];
  for (int i = 0; i < (nd + 2)*nq; ++i) e.residual_cache()[i] = b[7][i];
  e.uncertainty = b[4][4];
  Typed_bound_connection<E> con(e, ip[6], ip[7], 0);
  std::vector<double> dummy(nd*nfq + 1);
  if (E::is_deformed) {
    for (int f = 0; f < 2*nd; ++f) if (f != 2*ip[6] + ip[7]) e.set_face(f, dummy.data());
    e.set_jacobian(basis);
  }
  double* p = b[8];
  for (int i = 0; i < (nd + 2)*nfq; ++i) con.inside_face(false)[i] = *p++;
  for (int i = 0; i < (nd + 2)*nfq; ++i) con.ghost_face(false)[i] = *p++;
  for (int i = 0; i < nd*nfq; ++i) con.surface_normal()[i] = *p++;
  for (int i = 0; i < nd*nfq; ++i) con.surface_position()[i] = *p++;
  for (int i = 0; i < (nd + 2)*nfq; ++i) con.flux_cache()[i] = *p++;
  Ctx c{b, ip, nd, rs, nq, nfq, basis, &e, &con, b[9][0]};
  double* a = b[9] + 1;
  const int* k = ip + 8;
  State_variables sv;
  Velocity veloc;
  Mass mass;
  switch (ip[4]) {
    case 0: c.go(sv); break;
    case 1: c.go(Pressure(a[0])); break;
    case 2: c.go(Stag_pres(a[0])); break;
    case 3: c.go(veloc); break;
    case 4: c.go(mass); break;
    case 5: c.go(Stab_indicator()); break;
    case 6: c.go(Mach(a[0])); break;
    case 7: {Constant_func f(vec(a, nd)); c.go(Diff_sq(veloc, f)); break;}
    case 8: {Constant_func f(vec(a, nd + 2)); c.go(Error_func(f)); break;}
    case 9: c.go(Outward_normal()); break;
    case 10: c.go(Pressure_stress(a[0])); break;
    case 11: c.go(Viscous_stress()); break;
    case 12: c.go(Heat_flux()); break;
    case 13: c.go(Jacobian_det_func()); break;
    case 14: c.go(Jac_inv_det_func()); break;
    case 15: c.go(Time_step_scale_func()); break;
    case 16: c.go(Physical_residual()); break;
    case 17: c.go(Art_visc_coef()); break;
    case 18: c.go(Fix_admis_coef()); break;
    case 19: c.go(Component(sv, k[0])); break;
    case 20: {Component f(sv, k[0]); c.go(Scaled(f, {a[0], a[1]})); break;}
    case 21: c.go(Pow(sv, k[0])); break;
    case 22: c.go(Advection_state(k[0])); break;
    case 23: c.go(Art_visc_forcing()); break;
    case 24: c.go(Uncertainty()); break;
    case 25: c.go(Elem_average(sv)); break;
    case 26: c.go(Elem_l2(sv)); break;
    case 27: c.go(Elem_nonsmooth(sv)); break;
    case 28: c.go(Normalized_nonsmooth(sv)); break;
    case 29: c.go(Equiangle_skewness()); break;
    case 30: c.go(Is_deformed()); break;
    case 31: c.go(Has_tree()); break;
    case 32: c.go(Constant_func(vec(a, k[0]))); break;
    case 33: c.go(Position_func()); break;
    case 34: {Mat<> m(k[0]); for (int i = 0; i < k[0]; ++i) m(i) = a[i]; c.go(Linear(m)); break;}
    case 35: {Doublet f(vec(a + 4, nd + 2)); f.location = {a[0], a[1]}; f.radius = a[2]; f.heat_rat = a[3]; c.go(f); break;}
    case 36: {Sod f; f.heat_rat = a[0]; c.go(f); break;}
    case 37: c.go(Spatial_gaussian(vec(a, k[0]))); break;
    case 38: c.go(Annular_diffusion_test(a[0], a[1], a[2])); break;
    case 39: {Art_visc_coef av; c.go(Qf_concat({&mass, &veloc, &av})); break;}
    case 40: {Outward_normal n; c.go(Bf_concat({&n, &sv})); break;}
    case 41: {Elem_average f(veloc); Uncertainty u; c.go(Ef_concat({&u, &f})); break;}
    case 42: c.go(Empty_func()); break;
  }
}
#define ENTRY(f) extern "C" void out_##f(double** b, int* ip) {if (ip[2]) f<Deformed_element>(b, ip); else f<Element>(b, ip);}
ENTRY(run)

// properties made available to expressions.  ip as above, 8: 0 no viscosity model, 1 viscosity, 2 conduction, 9 connected to a tree, 10 snapping problem, 11 point, 12 which function; out: 13 values, 14 whether each variable is there
template <typename E> static void hil(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  O_basis basis(rs, b);
  Storage_params par{2, nd + 2, nd, rs};
  Mat<> origin(3);
  for (int i = 0; i < 3; ++i) origin(i) = b[4][1 + i];
  E e(par, std::vector<int>(nd, 2), b[4][0], ip[3], origin);
  int nv = par.n_vertices(), nfq = par.n_face_qpoint(), nq = par.n_qpoint();
  for (int v = 0; v < nv; ++v) for (int i = 0; i < 3; ++i) e.vertex(v).pos[i] = b[5][3*v + i];
  for (int i = 0; i < (nd + 9 + rs)*nq; ++i) e.state()[i] = b[6][i];
  e.uncertainty = b[4][4];
  e.snapping_problem = ip[10];
  Tree tree(nd, b[4][0], origin);
  if (ip[9]) tree.elem.pair(e.tree);
  Typed_bound_connection<E> con(e, ip[6], ip[7], 0);
  double* p = b[8];
  for (int i = 0; i < (nd + 2)*nfq; ++i) con.inside_face(false)[i] = *p++;
  for (int i = 0; i < (nd + 2)*nfq; ++i) con.ghost_face(false)[i] = *p++;
  for (int i = 0; i < nd*nfq; ++i) con.surface_normal()[i] = *p++;
  for (int i = 0; i < nd*nfq; ++i) con.surface_position()[i] = *p++;
  for (int i = 0; i < (nd + 2)*nfq; ++i) con.flux_cache()[i] = *p++;
  Namespace space;
  space.assign<std::string>("viscosity_model", ip[8] == 1 ? "sutherland" : "");
  space.assign<std::string>("conductivity_model", ip[8] == 2 ? "constant" : "");
  std::vector<std::string> names;
  if (ip[12] == 0) {
    hil_properties::element(space, e);
    names = {"is_extruded", "is_def", "ref_level", "nom_sz", "uncertainty", "snapping_problem", "center0", "center1", "center2"};
  } else if (ip[12] == 1) {
    hil_properties::position(space, e, basis, ip[11]);
    names = {"pos0", "pos1", "pos2"};
  } else if (ip[12] == 2) {
    hil_properties::state(space, e, ip[11]);
    names = {"momentum0", "momentum1", "momentum2", "density", "energy", "tss", "bulk_art_visc", "laplacian_art_visc"};
  } else {
    hil_properties::surface(space, con, ip[11]);
    names = {"pos0", "pos1", "pos2", "normal0", "normal1", "normal2", "momentum0", "momentum1", "momentum2", "density", "energy", "visc_stress0", "visc_stress1", "visc_stress2", "mass_flux", "heat_flux"};
  }
  for (unsigned i = 0; i < names.size(); ++i) {
    std::optional<double> v = space.lookup<double>(names[i]);
    b[14][i] = bool(v);
    b[13][i] = v ? *v : 0;
  }
}
ENTRY(hil)

// sampling for visualisation.  ip: 8 what, 9 number of samples, 10 axis, 11 sign, 12 number of variables; buffers: 6 values of the function [point][var], 7 reference coordinates [axis][sample]; out: 13
struct Buf_func : Qpoint_func
{
  const double* v; int n;
  int n_var(int) const override {return n;}
  std::vector<double> operator()(Element&, const Basis&, int q, double) const override {return vec(v + q*n, n);}
};
extern "C" void out_vis(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  O_basis basis(rs, b);
  Storage_params par{2, nd + 2, nd, rs};
  Element e(par);
  Buf_func f;
  f.v = b[6]; f.n = ip[12];
  Vis_data vis(e, f, basis, 0.);
  Eigen::MatrixXd r;
  switch (ip[8]) {
    case 0: r = vis.edges(ip[9]); break;
    case 1: r = vis.interior(ip[9]); break;
    case 2: r = vis.face(ip[10], ip[11], ip[9]); break;
    case 3: {Eigen::MatrixXd x(nd, ip[9]); for (int i = 0; i < nd; ++i) for (int s = 0; s < ip[9]; ++s) x(i, s) = b[7][i*ip[9] + s]; r = vis.sample(x).transpose(); break;}
    case 4: r = vis.qpoints(); break;
  }
  b[14][0] = r.size();
  for (int i = 0; i < r.size(); ++i) b[13][i] = r.data()[i];
}
