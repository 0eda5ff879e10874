// one step of an equation set on a small mesh, done by the real top-level routine and, on a copy of the data, by the kernels in the documented order.
// buffers: 0..10 basis, 11 mesh data, 12 copy (written by the reference), 13 parameters, 14 data of the boundary callback, 15 result, 16 copy of result
// ip: 0 routine, 1 stage, 2 compute_residual, 3 use_filter, 4 local time, 5/6 scale/offset
#include "kernels.hpp"
#include "Spatial.hpp"
#include "pde.hpp"
#include "vc.hpp"
using namespace hexed;
constexpr int nd = VC_ND, rs = VC_RS;
constexpr int nq = math::pow(rs, nd), nfq = nq/rs, nv = nd + 2, n_state = nd + 9 + rs, face_sz = (2*nv > nd + rs ? 2*nv : nd + rs)*nfq;
constexpr int n_car = 2, n_def = 2, n_face = 16, n_fine = 1 << (nd - 1);

struct El : public Kernel_element
{
  double* d; bool is_def; double* f[6];
  double* state() override {return d;}
  double* residual_cache() override {return d + n_state*nq;}
  double* time_step_scale() override {return d + (n_state + nv + rs)*nq;}
  double* vert() {return time_step_scale() + nq;}
  double& vertex_time_step_scale(int i) override {return vert()[i];}
  double nominal_size() override {return vert()[8];}
  double* face(int i, bool ldg) override {return f[i] + ldg*nv*nfq;}
  bool deformed() const override {return is_def;}
  double* reference_level_normals() override {return is_def ? vert() + 10 : nullptr;}
  double* jacobian_determinant() override {return is_def ? vert() + 10 + nd*nd*nq : nullptr;}
  double* kernel_face_normal(int i) override {return is_def ? jacobian_determinant() + nq + i*nd*nfq : nullptr;}
  double& uncert() override {return vert()[9];}
};
constexpr int elem_sz = (n_state + nv + rs + 1)*nq + 10 + nd*nd*nq + nq + 6*nd*nfq;

struct Con : public Kernel_connection
{
  double* f[2]; double* n; Connection_direction dir;
  Connection_direction get_direction() override {return dir;}
  double* state(int i, bool ldg) override {return f[i] + ldg*nv*nfq;}
  double* normal() override {return n;}
};

template <typename T, typename G> struct Arr : public Sequence<T&>
{
  G* p; int n;
  Arr(G* pp, int nn) : p{pp}, n{nn} {}
  int size() override {return n;}
  T& operator[](int i) override {return p[i];}
};

struct Two : public Sequence<Kernel_element&>
{
  Sequence<Kernel_element&>& a; Sequence<Kernel_element&>& b;
  Two(Sequence<Kernel_element&>& x, Sequence<Kernel_element&>& y) : a{x}, b{y} {}
  int size() override {return a.size() + b.size();}
  Kernel_element& operator[](int i) override {return i < a.size() ? a[i] : b[i - a.size()];}
};

struct Mesh_data
{
  El car[n_car], def[n_def];
  Con cc[2], dc[4];
  Refined_face rf[1];
  double* face(double* d, int i) {return d + (n_car + n_def)*elem_sz + i*face_sz;}
  double* nrm(double* d, int i) {return face(d, n_face + n_fine) + i*nd*nfq;}
  Mesh_data(double* d)
  {
    // faces: car 0 {0, .., 2*nd - 1}; connected storage is shared by the element and the connection, as in the real mesh
    for (int i = 0; i < n_car; ++i) {car[i].d = d + i*elem_sz; car[i].is_def = false;}
    for (int i = 0; i < n_def; ++i) {def[i].d = d + (n_car + i)*elem_sz; def[i].is_def = true;}
    int k = 0;
    double* own[6]; for (int i = 0; i < 6; ++i) own[i] = face(d, k++); // storage of faces that are not of interest is shared within an element
    for (int j = 0; j < 6; ++j) {car[0].f[j] = own[0]; car[1].f[j] = own[1]; def[0].f[j] = own[2]; def[1].f[j] = own[3];}
    double* g = face(d, k++); car[0].f[1] = g; cc[0].f[0] = g;
    g = face(d, k++); car[1].f[0] = g; cc[0].f[1] = g;
    g = face(d, k++); def[0].f[1] = g; dc[0].f[0] = g;
    g = face(d, k++); def[1].f[2*(nd - 1)] = g; dc[0].f[1] = g;
    // coarse face of cartesian element 0, met by fine faces connected to cartesian element 1 and deformed element 0
    g = face(d, k++); car[0].f[0] = g; rf[0].coarse = g;
    for (int i = 0; i < n_fine; ++i) rf[0].fine[i] = face(d, n_face + i);
    rf[0].stretch = {false, false};
    g = face(d, k++); car[1].f[1] = g; cc[1].f[0] = g; cc[1].f[1] = rf[0].fine[0];
    g = face(d, k++); def[0].f[0] = g; dc[1].f[0] = rf[0].fine[n_fine - 1]; dc[1].f[1] = g;
    // boundary faces: inside and ghost
    g = face(d, k++); def[1].f[2*nd - 1] = g; dc[2].f[0] = g; dc[2].f[1] = own[4];
    g = face(d, k++); if (nd > 1) {car[0].f[3] = g;} dc[3].f[0] = g; dc[3].f[1] = own[5];
    for (int i = 0; i < 2; ++i) {cc[i].n = nullptr; cc[i].dir.i_dim = {0, 0}; cc[i].dir.face_sign = {true, false};}
    for (int i = 0; i < 4; ++i) {dc[i].n = nrm(d, i); dc[i].dir.i_dim = {0, 0}; dc[i].dir.face_sign = {true, false};}
    dc[0].dir.i_dim = {0, nd - 1};
    dc[2].dir.i_dim = {nd - 1, nd - 1};
    if (nd > 1) dc[3].dir.i_dim = {1, 1};
  }
  // what the solver does between the two halves of a diffusive step: fill the ghost viscous data from the inside
  void bc(double* c, int& n)
  {
    ++n;
    for (int j = 2; j < 4; ++j) for (int i = 0; i < nv*nfq; ++i) {
      double in = dc[j].f[0][nv*nfq + i];
      dc[j].f[1][nv*nfq + i] = c[0]*in + c[1]*n;
    }
  }
};

template <int n, int r> using NS0 = pde::Navier_stokes<false>::Pde<n, r>;
template <int n, int r> using NS1 = pde::Navier_stokes<true>::Pde<n, r>;

template <template<int, int> typename P, typename... A>
void ref_conv(Kernel_mesh m, Kernel_options o, A... a)
{
  {typename Spatial<P, false>::template Neighbor<nd, rs> k(o.i_stage, a...); k(m.car_cons);}
  {typename Spatial<P,  true>::template Neighbor<nd, rs> k(o.i_stage, a...); k(m.def_cons);}
  {typename Spatial<P, false>::template Restrict_refined<nd, rs> k(m.basis, true, false); k(m.ref_faces);}
  {typename Spatial<P, false>::template Local<nd, rs> k(m.basis, o.dt, o.i_stage, o.compute_residual, o.use_filter, a...); k(m.car_elems);}
  {typename Spatial<P,  true>::template Local<nd, rs> k(m.basis, o.dt, o.i_stage, o.compute_residual, o.use_filter, a...); k(m.def_elems);}
  {typename Spatial<P, false>::template Prolong_refined<nd, rs> k(m.basis, false, false); k(m.ref_faces);}
}
template <template<int, int> typename P, typename... A>
void ref_diff(Kernel_mesh m, Kernel_options o, std::function<void()> bc, A... a)
{
  {typename Spatial<P, false>::template Neighbor<nd, rs> k(o.i_stage, a...); k(m.car_cons);}
  {typename Spatial<P,  true>::template Neighbor<nd, rs> k(o.i_stage, a...); k(m.def_cons);}
  {typename Spatial<P, false>::template Restrict_refined<nd, rs> k(m.basis, true, false); k(m.ref_faces);}
  {typename Spatial<P, false>::template Restrict_refined<nd, rs> k(m.basis, false, true); k(m.ref_faces);}
  {typename Spatial<P, false>::template Local<nd, rs> k(m.basis, o.dt, o.i_stage, o.compute_residual, o.use_filter, a...); k(m.car_elems);}
  {typename Spatial<P,  true>::template Local<nd, rs> k(m.basis, o.dt, o.i_stage, o.compute_residual, o.use_filter, a...); k(m.def_elems);}
  if (o.i_stage == 0) {
    {typename Spatial<P, false>::template Prolong_refined<nd, rs> k(m.basis, true, true); k(m.ref_faces);}
    bc();
    {typename Spatial<P, false>::template Neighbor_reconcile<nd, rs> k; k(m.car_cons);}
    {typename Spatial<P,  true>::template Neighbor_reconcile<nd, rs> k; k(m.def_cons);}
    {typename Spatial<P, false>::template Restrict_refined<nd, rs> k(m.basis, true, true); k(m.ref_faces);}
    {typename Spatial<P, false>::template Reconcile_ldg_flux<nd, rs> k(m.basis, o.dt, o.i_stage, o.compute_residual, o.use_filter, a...); k(m.car_elems);}
    {typename Spatial<P,  true>::template Reconcile_ldg_flux<nd, rs> k(m.basis, o.dt, o.i_stage, o.compute_residual, o.use_filter, a...); k(m.def_elems);}
  }
  {typename Spatial<P, false>::template Prolong_refined<nd, rs> k(m.basis, false, false); k(m.ref_faces);}
}
template <template<int, int> typename P, typename... A>
double ref_dt(Kernel_mesh m, Kernel_options o, bool local, double sc, double sd, A... a)
{
  typename Spatial<P, false>::template Max_dt<nd, rs> k(m.basis, local, o.use_filter, sc, sd, a...);
  typename Spatial<P,  true>::template Max_dt<nd, rs> l(m.basis, local, o.use_filter, sc, sd, a...);
  double x = k(m.car_elems);
  double y = l(m.def_elems);
  return x < y ? x : y;
}

static void step(double** b, int* ip, double* data, double* res, bool real)
{
  Mesh_data d(data);
  G_basis basis(rs, b);
  Arr<Kernel_connection, Con> cc(d.cc, 2), dc(d.dc, 4);
  Arr<Kernel_element, El> ce(d.car, n_car), de(d.def, n_def);
  Two el(ce, de);
  Arr<Refined_face, Refined_face> rf(d.rf, 1);
  Kernel_mesh m {nd, rs, basis, cc, dc, ce, de, el, rf};
  Stopwatch_tree sw("", {{"neighbor", Stopwatch_tree("")}, {"local", Stopwatch_tree("")}, {"reconcile LDG flux", Stopwatch_tree("")}, {"compute time step", Stopwatch_tree("")}});
  Stopwatch_tree sd = sw, sp("");
  double* p = b[13];
  Kernel_options o {sw, sd, sp, p[0], ip[1], bool(ip[2]), bool(ip[3])};
  int n_call = 0;
  std::function<void()> bc = [&]() {d.bc(b[14], n_call);};
  auto visc = Transport_model::sutherland(p[1], p[2], p[3]);
  auto cond = Transport_model::sutherland(p[4], p[5], p[6]);
  bool loc = ip[4];
  double r = 0;
  switch (ip[0]) {
    case 0: if (real) compute_euler(m, o); else ref_conv<NS0>(m, o); break;
    case 1: if (real) compute_advection(m, o, p[1]); else ref_conv<pde::Advection>(m, o, p[1]); break;
    case 2: if (real) compute_navier_stokes(m, o, bc, visc, cond); else ref_diff<NS1>(m, o, bc, visc, cond); break;
    case 3: if (real) compute_smooth_av(m, o, bc, p[1], p[2]); else ref_diff<pde::Smooth_art_visc>(m, o, bc, p[1], p[2]); break;
    case 4: if (real) compute_fix_therm_admis(m, o, bc); else ref_diff<pde::Fix_therm_admis>(m, o, bc); break;
    case 5: r = real ? max_dt_euler(m, o, p[8], p[9], loc) : ref_dt<NS0>(m, o, loc, p[8], p[9]); break;
    case 6: r = real ? max_dt_navier_stokes(m, o, p[8], p[9], loc, visc, cond) : ref_dt<NS1>(m, o, loc, p[8], p[9], visc, cond); break;
    case 7: r = real ? max_dt_advection(m, o, p[8], p[9], loc, p[1]) : ref_dt<pde::Advection>(m, o, loc, p[8], p[9], p[1]); break;
    case 8: r = real ? max_dt_smooth_av(m, o, p[8], p[9], loc) : ref_dt<pde::Smooth_art_visc>(m, o, loc, p[8], p[9], 1., 1.); break;
    case 9: r = real ? max_dt_fix_therm_admis(m, o, p[8], p[9], loc) : ref_dt<pde::Fix_therm_admis>(m, o, loc, p[8], p[9]); break;
    case 10: if (real) compute_prolong(m, ip[5], ip[6]); else {typename Spatial<NS0, false>::template Prolong_refined<nd, rs> k(basis, ip[5], ip[6]); k(rf);} break;
    case 11: if (real) compute_restrict(m, ip[5], ip[6]); else {typename Spatial<NS0, false>::template Restrict_refined<nd, rs> k(basis, ip[5], ip[6]); k(rf);} break;
    case 12: if (real) compute_prolong_advection(m); else {typename Spatial<pde::Advection, false>::template Prolong_refined<nd, rs> k(basis, false, false); k(rf);} break;
    case 13: if (real) compute_write_face(m); else {typename Spatial<NS0, false>::template Write_face<nd, rs> k(basis); k(ce); k(de);} break;
    case 14: if (real) compute_write_face_advection(m); else {typename Spatial<pde::Advection, false>::template Write_face<nd, rs> k(basis, p[1]); k(ce); k(de);} break;
    case 15: if (real) compute_write_face_smooth_av(m); else {typename Spatial<pde::Smooth_art_visc, false>::template Write_face<nd, rs> k(basis, p[1], p[2]); k(ce); k(de);} break;
    case 16: if (real) {compute_prolong(m); compute_restrict(m);} else {
      {typename Spatial<NS0, false>::template Prolong_refined<nd, rs> k(basis, false, false); k(rf);}
      {typename Spatial<NS0, false>::template Restrict_refined<nd, rs> k(basis, true, false); k(rf);}
    } break;
    case 17: {
      Connection_direction dir; dir.i_dim = {ip[1], ip[2]}; dir.face_sign = {bool(ip[3]), bool(ip[4])};
      if (real) {auto q = face_permutation(nd, rs, dir, data); if (ip[5]) q->restore(); else q->match_faces();}
      else {typename Spatial<NS0, true>::template Face_permutation<nd, rs> q(dir, data); if (ip[5]) q.restore(); else q.match_faces();}
    } break;
  }
  res[0] = r;
}

extern "C" int vc_data_size() {return (n_car + n_def)*elem_sz + (n_face + n_fine)*face_sz + 4*nd*nfq;}
extern "C" void schedule(double** b, int* ip)
{
  int n = vc_data_size();
  for (int i = 0; i < n; ++i) b[12][i] = b[11][i];
  step(b, ip, b[11], b[15], true);
  step(b, ip, b[12], b[16], false);
}
