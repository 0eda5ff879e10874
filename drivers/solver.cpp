// The real `Solver` on small real meshes.  The kernels it calls (compiled elsewhere, under contract in other checks) are replaced by recorders that
// write each call with its arguments to a trace and replace the data they are documented to write by fresh values.
// ip: 0 nd, 1 rs, 2 kind of mesh, 3.. options.  buffers: 0 parameters, 1 element data [elem][var][point], 2 vertex positions, 3 values returned by the recorders,
// 4 fresh data, 5 trace (out), 6 element data afterwards (out), 7 further results (out)
#include <Solver.hpp>
#include <cstring>
using namespace hexed;

static double *tr, *ret, *fresh, *snap;
static Solver* sol;
static void put(double x) {*tr++ = x;}

struct Rec_bc : Flow_bc
{
  int id; Solver** s;
  Rec_bc(int i) : id{i} {}
  void rec(Boundary_face& f, int what)
  {
    auto& bc = sol->acc_mesh->boundary_connections();
    int k = -1;
    for (int i = 0; i < bc.size(); ++i) if (static_cast<Boundary_face*>(&bc[i]) == &f) k = i;
    put(what); put(id); put(k);
  }
  void apply_state(Boundary_face& f) override {rec(f, 101);}
  void apply_flux(Boundary_face& f) override {rec(f, 102);}
  void apply_advection(Boundary_face& f) override {rec(f, 103);}
  void apply_diffusion(Boundary_face& f) override {rec(f, 104);}
  void flux_diffusion(Boundary_face& f) override {rec(f, 105);}
  void init_cache(Boundary_face& f) override {rec(f, 106);}
};
struct Rec_mesh_bc : Mesh_bc
{
  void snap_vertices(Boundary_connection&) override {put(107);}
  void snap_node_adj(Boundary_connection&, const Basis&) override {put(108);}
};
struct Null_printer : Printer {void print(std::string) override {}};

// the kernels get the whole mesh, each part where it belongs
static bool mesh_ok(Kernel_mesh& m)
{
  auto& a = *sol->acc_mesh;
  bool ok = m.n_dim == sol->params.n_dim && m.row_size == sol->params.row_size && &m.basis == &sol->basis;
  auto same = [&](auto& p, auto& q) {
    if (p.size() != q.size()) return false;
    for (int i = 0; i < p.size(); ++i) if (static_cast<Kernel_element*>(&p[i]) != static_cast<Kernel_element*>(&q[i])) return false;
    return true;
  };
  ok = ok && same(m.car_elems, a.car.elements()) && same(m.def_elems, a.def.elements());
  int nc = m.car_elems.size(), n = m.elems.size();
  ok = ok && n == nc + m.def_elems.size();
  for (int i = 0; i < n && ok; ++i) ok = &m.elems[i] == (i < nc ? &m.car_elems[i] : &m.def_elems[i - nc]);
  // every connection exactly once, boundary connections with the deformed ones
  auto has = [](Sequence<Kernel_connection&>& s, Kernel_connection* c) {int k = 0; for (int i = 0; i < s.size(); ++i) k += &s[i] == c; return k == 1;};
  int n_car = 0, n_def = 0;
  for (auto& c : a.car.cons) {ok = ok && has(m.car_cons, c.get()); ++n_car;}
  for (auto& c : a.def.cons) {ok = ok && has(m.def_cons, c.get()); ++n_def;}
  int n_ref = 0;
  auto has_ref = [&](Refined_face* r) {int k = 0; for (int i = 0; i < m.ref_faces.size(); ++i) k += &m.ref_faces[i] == r; return k == 1;};
  for (auto& v : a.car.ref_face_cons) for (auto& c : v) {
    for (int i = 0; i < c->n_fine_elements(); ++i) {ok = ok && has(m.car_cons, &c->connection(i)); ++n_car;}
    ok = ok && has_ref(&c->refined_face); ++n_ref;
  }
  for (auto& v : a.def.ref_face_cons) for (auto& c : v) {
    for (int i = 0; i < c->n_fine_elements(); ++i) {ok = ok && has(m.def_cons, &c->connection(i)); ++n_def;}
    ok = ok && has_ref(&c->refined_face); ++n_ref;
  }
  for (auto& c : a.car.bound_cons) {ok = ok && has(m.def_cons, c.get()); ++n_def;}
  for (auto& c : a.def.bound_cons) {ok = ok && has(m.def_cons, c.get()); ++n_def;}
  return ok && n_car == m.car_cons.size() && n_def == m.def_cons.size() && n_ref == m.ref_faces.size();
}
static void call(int id, Kernel_mesh& m) {put(id); put(mesh_ok(m));}
static void opts(Kernel_options& o) {put(o.dt); put(o.i_stage); put(o.compute_residual); put(o.use_filter);}
static void coefs(Transport_model a, Transport_model b) {put(a.is_viscous); put(a.coefficient(1.)); put(b.is_viscous); put(b.coefficient(1.));}
static int n_data() {return (sol->params.n_dim + 9 + sol->params.row_size)*sol->params.n_qpoint();}
// what the kernel finds in the elements (when a place to record it is given)
static void snapshot(Kernel_mesh& m)
{
  if (snap) for (int i = 0; i < m.elems.size(); ++i) for (int k = 0; k < n_data(); ++k) *snap++ = m.elems[i].state()[k];
}
// the kernel writes variables [v0, v1) of every element: fresh values
static void havoc(Kernel_mesh& m, int v0, int v1)
{
  int nq = sol->params.n_qpoint();
  for (int i = 0; i < m.elems.size(); ++i) for (int k = v0*nq; k < v1*nq; ++k) m.elems[i].state()[k] = *fresh++;
}

namespace hexed
{
void compute_euler(Kernel_mesh m, Kernel_options o) {call(1, m); opts(o);}
void compute_navier_stokes(Kernel_mesh m, Kernel_options o, std::function<void()> f, Transport_model v, Transport_model t) {call(2, m); opts(o); coefs(v, t); f(); put(-2);}
void compute_advection(Kernel_mesh m, Kernel_options o, double l) {call(3, m); opts(o); put(l); snapshot(m); int nd = m.n_dim; havoc(m, nd + 9, nd + 9 + m.row_size);}
void compute_smooth_av(Kernel_mesh m, Kernel_options o, std::function<void()> f, double t, double s) {call(4, m); opts(o); put(t); put(s); snapshot(m); f(); put(-4); havoc(m, m.n_dim + 6, m.n_dim + 9);}
void compute_fix_therm_admis(Kernel_mesh m, Kernel_options o, std::function<void()> f)
{
  call(5, m); opts(o); snapshot(m);
  // boundary data: ghost states given to the kernel, and the fluxes after the boundary condition
  auto& bc = sol->acc_mesh->boundary_connections();
  int n = (m.n_dim + 2)*sol->params.n_face_qpoint();
  for (int i = 0; i < bc.size(); ++i) for (int k = 0; k < n; ++k) {put(bc[i].inside_face(false)[k]); put(bc[i].ghost_face(false)[k]);}
  for (int i = 0; i < bc.size(); ++i) for (int k = 0; k < n; ++k) bc[i].inside_face(true)[k] = *fresh++;
  f(); put(-5);
  for (int i = 0; i < bc.size(); ++i) for (int k = 0; k < n; ++k) {put(bc[i].inside_face(true)[k]); put(bc[i].ghost_face(true)[k]);}
  havoc(m, 0, m.n_dim + 2);
  for (int i = 0; i < m.elems.size(); ++i) for (int f = 0; f < 2*m.n_dim; ++f) for (int k = 0; k < n; ++k) m.elems[i].face(f, false)[k] = *fresh++;
  for (int i = 0; i < m.ref_faces.size(); ++i) for (int j = 0; j < 1 << (m.n_dim - 1); ++j) for (int k = 0; k < n; ++k) m.ref_faces[i].fine[j][k] = *fresh++;
}
void stabilizing_art_visc(Kernel_mesh m, double c) {call(6, m); put(c); for (int i = 0; i < m.elems.size(); ++i) m.elems[i].uncert() = *fresh++;}
static double mdt(int id, Kernel_mesh& m, Kernel_options& o, double c, double d, bool l) {call(id, m); put(c); put(d); put(l); return *ret++;}
double max_dt_euler(Kernel_mesh m, Kernel_options o, double c, double d, bool l) {return mdt(11, m, o, c, d, l);}
double max_dt_navier_stokes(Kernel_mesh m, Kernel_options o, double c, double d, bool l, Transport_model v, Transport_model t) {double r = mdt(12, m, o, c, d, l); coefs(v, t); return r;}
double max_dt_advection(Kernel_mesh m, Kernel_options o, double c, double d, bool l, double len) {double r = mdt(13, m, o, c, d, l); put(len); return r;}
double max_dt_smooth_av(Kernel_mesh m, Kernel_options o, double c, double d, bool l) {return mdt(14, m, o, c, d, l);}
double max_dt_fix_therm_admis(Kernel_mesh m, Kernel_options o, double c, double d, bool l) {return mdt(15, m, o, c, d, l);}
void compute_prolong(Kernel_mesh m, bool s, bool o)
{
  call(21, m); put(s); put(o);
  int n = m.n_dim*sol->params.n_face_qpoint();
  for (int i = 0; i < m.ref_faces.size(); ++i) {
    auto& r = m.ref_faces[i];
    int nf = 1;
    for (int d = 0; d < m.n_dim - 1; ++d) nf *= 2 - r.stretch[d];
    for (int j = 0; j < nf; ++j) for (int k = 0; k < n; ++k) r.fine[j][k] = *fresh++;
  }
}
void compute_restrict(Kernel_mesh m, bool s, bool o) {call(22, m); put(s); put(o);}
void compute_prolong_advection(Kernel_mesh m) {call(23, m);}
void compute_write_face(Kernel_mesh m) {call(24, m);}
void compute_write_face_advection(Kernel_mesh m) {call(25, m);}
void compute_write_face_smooth_av(Kernel_mesh m) {call(26, m);}
}

static int n_elem;
static Element& elem(int i) {return sol->acc_mesh->elements()[i];}

// a small mesh: element data from b[1], vertices of deformed elements from b[2]
static void make(Solver& s, double** b, int kind, int* ip)
{
  sol = &s;
  auto& m = s.mesh();
  int nd = s.params.n_dim;
  int bcs [2] {m.add_boundary_condition(new Rec_bc(0), new Rec_mesh_bc), m.add_boundary_condition(new Rec_bc(1), new Rec_mesh_bc)};
  std::vector<int> p0(nd, 0), p1(nd, 0);
  p1[0] = 1;
  if (kind <= 2) { // two elements side by side: 0 both Cartesian, 1 both deformed, 2 one of each
    bool d [2] {kind == 1, kind >= 1};
    int e [2] {m.add_element(0, d[0], p0), m.add_element(0, d[1], p1)};
    if (kind == 1) m.connect_deformed(0, {e[0], e[1]}, {{0, 0}, {1, 0}});
    else m.connect_cartesian(0, {e[0], e[1]}, {0}, {d[0], d[1]});
    for (int i = 0; i < 2; ++i) for (int f = 0; f < 2*nd; ++f) if (f != 1 - i) m.connect_boundary(0, d[i], e[i], f/2, f%2, bcs[f > 1]);
  } else if (kind == 5) { // two deformed elements connected in any direction
    int e [2] {m.add_element(0, true, p0), m.add_element(0, true, p0)};
    m.connect_deformed(0, {e[0], e[1]}, {{ip[11], ip[12]}, {bool(ip[13]), bool(ip[14])}});
    for (int i = 0; i < 2; ++i) for (int f = 0; f < 2*nd; ++f) if (f != 2*ip[11 + i] + ip[13 + i]) m.connect_boundary(0, true, e[i], f/2, f%2, bcs[f > 1]);
  } else if (kind == 6) { // a face without a connection
    int e = m.add_element(0, true, p0);
    for (int f = 1; f < 2*nd; ++f) m.connect_boundary(0, true, e, f/2, f%2, bcs[0]);
  } else if (kind == 7) { // a face with two connections
    int e = m.add_element(0, true, p0);
    for (int f = 0; f < 2*nd; ++f) m.connect_boundary(0, true, e, f/2, f%2, bcs[0]);
    m.connect_boundary(0, true, e, 0, 0, bcs[1]);
  } else if (kind == 9) { // four deformed elements in a row
    std::vector<int> e;
    for (int i = 0; i < 4; ++i) {
      p1[0] = i;
      e.push_back(m.add_element(0, true, p1));
      for (int f = 0; f < 2*nd; ++f) if (f > 1 || (f == 0 && i == 0) || (f == 1 && i == 3)) m.connect_boundary(0, true, e[i], f/2, f%2, bcs[f > 1]);
      if (i) m.connect_deformed(0, {e[i - 1], e[i]}, {{0, 0}, {1, 0}});
    }
  } else if (kind == 8) { // a coarse element and fine ones in any direction, possibly stretched; all deformed, the fine ones not connected to each other
    int c = m.add_element(0, true, p0);
    std::vector<int> fine;
    int nf = 1 << (nd - 1 - ip[9] - ip[10]);
    for (int i = 0; i < nf; ++i) fine.push_back(m.add_element(1, true, p0));
    s.acc_mesh->connect_hanging(0, c, fine, {{ip[11], ip[12]}, {bool(ip[13]), bool(ip[14])}}, true, std::vector<bool>(4, true), {bool(ip[9]), bool(ip[10])});
    for (int f = 0; f < 2*nd; ++f) if (f != 2*ip[11] + ip[13]) m.connect_boundary(0, true, c, f/2, f%2, bcs[f > 1]);
    for (int i = 0; i < nf; ++i) for (int f = 0; f < 2*nd; ++f) if (f != 2*ip[12] + ip[14]) m.connect_boundary(1, true, fine[i], f/2, f%2, bcs[f > 1]);
  } else { // a coarse element next to 2^(nd - 1) fine ones, all deformed (4: Cartesian)
    bool d = kind == 3;
    int c = m.add_element(0, d, p0);
    std::vector<int> fine;
    for (int i = 0; i < 1 << (nd - 1); ++i) {
      std::vector<int> q(nd, 0);
      q[0] = 2;
      for (int j = 1; j < nd; ++j) q[j] = (i >> (nd - 1 - j)) & 1;
      fine.push_back(m.add_element(1, d, q));
    }
    m.connect_hanging(0, c, fine, {{0, 0}, {1, 0}}, d, std::vector<bool>(4, d));
    for (int f = 0; f < 2*nd; ++f) if (f != 1) m.connect_boundary(0, d, c, f/2, f%2, bcs[f > 1]);
    for (int i = 0; i < 1 << (nd - 1); ++i) {
      m.connect_boundary(1, d, fine[i], 0, 1, bcs[0]);
      // interior faces between fine elements
      for (int j = 1; j < nd; ++j) {
        int bit = 1 << (nd - 1 - j);
        if (i & bit) {
          m.connect_boundary(1, d, fine[i], j, 1, bcs[1]);
          if (d) m.connect_deformed(1, {fine[i - bit], fine[i]}, {{j, j}, {1, 0}});
          else m.connect_cartesian(1, {fine[i - bit], fine[i]}, {j}, {false, false});
        } else m.connect_boundary(1, d, fine[i], j, 0, bcs[1]);
      }
    }
  }
  n_elem = s.acc_mesh->elements().size();
}
static void load(Solver& s, double* p) {int n = n_data(); for (int i = 0; i < n_elem; ++i) for (int k = 0; k < n; ++k) elem(i).state()[k] = *p++;}
static void store(Solver& s, double* p) {int n = n_data(); for (int i = 0; i < n_elem; ++i) for (int k = 0; k < n; ++k) *p++ = elem(i).state()[k];}

static Transport_model model(int kind, double* p)
{
  if (kind == 0) return Transport_model::inviscid();
  return Transport_model::constant(p[0]);
}

// parameters: 0 mesh size, 1,2 transport coefficients, 3 max_safety, 4 max_time_step, 5 flow_time, 6.. per entry
// ip: 3 local time stepping, 4 viscous, 5 conducting, 6 artificial viscosity (1 constant), 7 filter, 8 flow_iters, 9 n_cheby
#define SOLVER \
  tr = b[5]; ret = b[3]; fresh = b[4]; snap = nullptr; \
  Solver s(ip[0], ip[1], b[0][0], ip[3], model(ip[4], b[0] + 1), model(ip[5], b[0] + 2), std::make_shared<Namespace>(), std::make_shared<Null_printer>()); \
  make(s, b, ip[2], ip); \
  auto& sp = s.nspace();

extern "C" void sol_update(double** b, int* ip)
{
  SOLVER
  sp.assign("max_safety", b[0][3]);
  sp.assign("max_time_step", b[0][4]);
  sp.assign("flow_time", b[0][5]);
  sp.assign("use_filter", ip[7]);
  sp.assign("flow_iters", ip[8]);
  sp.assign("n_cheby_flow", ip[9]);
  if (ip[6]) s.set_art_visc_constant(b[0][6]);
  load(s, b[1]);
  int it = sp.lookup<int>("iteration").value();
  s.update();
  put(-100);
  b[7][0] = sp.lookup<int>("iteration").value() - it;
  b[7][1] = sp.lookup<double>("flow_time").value();
  b[7][2] = sp.lookup<double>("time_step").value();
  b[7][3] = s.iteration_status().iteration;
  b[7][4] = s.iteration_status().flow_time;
  b[7][5] = s.iteration_status().time_step;
  store(s, b[6]);
}

extern "C" void sol_residual(double** b, int* ip)
{
  SOLVER
  sp.assign("use_filter", ip[7]);
  if (ip[6]) s.set_art_visc_constant(b[0][6]);
  if (ip[6] == 2) s.set_art_visc_off();
  load(s, b[1]);
  s.compute_residual();
  put(-100);
  store(s, b[6]);
}

// smoothness-based artificial viscosity.  parameters 3.. : safeties, ratios, multipliers, freestream density and energy, advection length
extern "C" void sol_smooth(double** b, int* ip)
{
  SOLVER
  int nd = ip[0];
  const char* names [] {"av_advect_max_safety", "av_diff_max_safety", "av_diff_ratio", "av_visc_mult", "av_unscaled_max"};
  for (int i = 0; i < 5; ++i) sp.assign<double>(names[i], b[0][3 + i]);
  sp.assign<double>("freestream" + std::to_string(nd), b[0][8]);
  sp.assign<double>("freestream" + std::to_string(nd + 1), b[0][9]);
  sp.assign("av_advect_iters", ip[7]);
  sp.assign("av_diff_iters", ip[8]);
  sp.assign("n_cheby_av", ip[9]);
  s.set_art_visc_row_size(ip[10]);
  load(s, b[1]);
  snap = b[8];
  s.update_art_visc_smoothness(b[0][10]);
  put(-100);
  put(s.use_ldg());
  store(s, b[6]);
  b[7][0] = sp.lookup<double>("art_visc_residual").value();
  for (int i = 0; i < ip[1]; ++i) {b[7][1 + i] = s.basis.node_weights()(i); b[7][1 + ip[1] + i] = s.basis.orthogonal(ip[10] - 1)(i);}
}

static void place(double* p, int nd) {for (int i = 0; i < n_elem; ++i) for (int v = 0; v < 1 << nd; ++v) for (int k = 0; k < 3; ++k) elem(i).vertex(v).pos(k) = *p++;}

// geometry.  8: face normals of the elements [elem][face][dim][point], 9: their vertex spacings, 10: normals of the deformed connections [con][side], 11: of coarse faces,
// 12: vertex spacings after sharing, 13: boundary positions, 14: positions of the element faces there, 15: which vertices are shared
extern "C" void sol_jac(double** b, int* ip)
{
  SOLVER
  int nd = ip[0], nv = 1 << nd, nfq = s.params.n_face_qpoint(), n = nd*nfq;
  if (ip[2] != 4 && ip[2] != 0) place(b[2], nd);
  double* p = b[8];
  for (int i = 0; i < n_elem && ip[2] != 6 && ip[2] != 7; ++i) {
    elem(i).set_jacobian(s.basis);
    for (int f = 0; f < 2*nd; ++f) for (int k = 0; k < n; ++k) *p++ = elem(i).face(f, false)[k];
    for (int v = 0; v < nv; ++v) b[9][i*nv + v] = elem(i).vertex_time_step_scale(v);
    for (int j = 0; j < n_elem; ++j) for (int v = 0; v < nv; ++v) for (int w = 0; w < nv; ++w) b[15][((i*n_elem + j)*nv + v)*nv + w] = &elem(i).vertex(v) == &elem(j).vertex(w);
  }
  s.calc_jacobian(false);
  put(-100);
  p = b[10];
  auto& cons = s.acc_mesh->deformed().face_connections();
  for (int i = 0; i < cons.size(); ++i) for (int side = 0; side < 2; ++side) for (int k = 0; k < n; ++k) *p++ = cons[i].normal(side)[k];
  p = b[11];
  if (ip[2] == 3 || ip[2] == 8) for (int k = 0; k < n; ++k) *p++ = elem(0).kernel_face_normal(ip[2] == 3 ? 1 : 2*ip[11] + ip[13])[k];
  for (int i = 0; i < n_elem; ++i) for (int v = 0; v < nv; ++v) b[12][i*nv + v] = elem(i).vertex_time_step_scale(v);
  auto& bc = s.acc_mesh->boundary_connections();
  p = b[13];
  double* q = b[14];
  for (int i = 0; i < bc.size(); ++i) for (int k = 0; k < nfq; ++k) {
    auto x = bc[i].element().face_position(s.basis, bc[i].direction().i_face(0), k);
    for (int d = 0; d < nd; ++d) {*p++ = bc[i].surface_position()[d*nfq + k]; *q++ = x[d];}
  }
}

struct Init : Spacetime_func
{
  double *p, *out; int n;
  int n_var(int) const override {return n;}
  std::vector<double> operator()(std::vector<double> pos, double time) const override
  {
    Init* t = const_cast<Init*>(this);
    for (double x : pos) *t->out++ = x;
    *t->out++ = time;
    std::vector<double> r(n);
    for (double& x : r) x = *t->p++;
    return r;
  }
};

// 8: positions and times given to the function, 9: positions of the points
extern "C" void sol_init(double** b, int* ip)
{
  SOLVER
  int nd = ip[0];
  if (ip[2] != 4 && ip[2] != 0) place(b[2], nd);
  load(s, b[1]);
  Init f;
  f.p = b[4]; f.out = b[8]; f.n = ip[3];
  fresh = b[10];
  s.initialize(f);
  put(-100);
  double* p = b[9];
  for (int i = 0; i < n_elem; ++i) for (int k = 0; k < s.params.n_qpoint(); ++k) {auto x = elem(i).position(s.basis, k); for (int d = 0; d < nd; ++d) *p++ = x[d];}
  store(s, b[6]);
}

// b[8]: face data [elem][face][var][point], b[9]: hanging face data
static void load_faces(Solver& s, double** b)
{
  int n = (s.params.n_dim + 2)*s.params.n_face_qpoint();
  double* p = b[8];
  for (int i = 0; i < n_elem; ++i) for (int f = 0; f < 2*s.params.n_dim; ++f) for (int k = 0; k < n; ++k) elem(i).face(f, false)[k] = *p++;
  auto& r = s.acc_mesh->refined_faces();
  p = b[9];
  for (int i = 0; i < r.size(); ++i) for (int j = 0; j < 1 << (s.params.n_dim - 1); ++j) for (int k = 0; k < n; ++k) r[i].fine[j][k] = *p++;
}

extern "C" void sol_admis(double** b, int* ip)
{
  SOLVER
  load(s, b[1]);
  load_faces(s, b);
  for (int i = 0; i < n_elem; ++i) elem(i).record = 7;
  b[7][0] = s.is_admissible();
  for (int i = 0; i < n_elem; ++i) b[7][1 + i] = elem(i).record;
  store(s, b[6]);
}

// repair of inadmissible states as part of a step. 10: element data seen by the repair kernel
extern "C" void sol_fix(double** b, int* ip)
{
  SOLVER
  sp.assign("max_safety", b[0][3]);
  sp.assign("fix_admis_max_safety", b[0][4]);
  sp.assign("n_cheby_flow", ip[9]);
  load(s, b[1]);
  load_faces(s, b);
  snap = b[10];
  s.set_fix_admissibility(ip[8]);
  s.last_fix_vis_iter = 0; // no visualization
  sp.assign("use_filter", ip[7]);
  b[7][0] = s.fix_admissibility(b[0][4]);
  put(-100);
  b[7][1] = sp.lookup<int>("fix_iters").value();
  b[7][2] = s.iteration_status().fix_admis_iters;
  for (int i = 0; i < ip[1]; ++i) b[11][i] = s.basis.node(i);
  s.reset_counters();
  b[7][3] = sp.lookup<int>("fix_iters").value();
  b[7][4] = s.iteration_status().fix_admis_iters;
  store(s, b[6]);
}

struct Qf : Qpoint_func
{
  int n; double* p;
  int n_var(int) const override {return n;}
  std::vector<double> operator()(Element& e, const Basis&, int q, double) const override
  {
    int k = 0;
    for (int i = 0; i < n_elem; ++i) if (&elem(i) == &e) k = i;
    std::vector<double> r(n);
    for (int i = 0; i < n; ++i) r[i] = p[(k*sol->params.n_qpoint() + q)*n + i];
    return r;
  }
};
struct Bf : Boundary_func
{
  int n; double* p;
  int n_var(int) const override {return n;}
  std::vector<double> operator()(Boundary_connection& c, int q, double) const override
  {
    auto& bc = sol->acc_mesh->boundary_connections();
    int k = 0;
    for (int i = 0; i < bc.size(); ++i) if (&bc[i] == &c) k = i;
    std::vector<double> r(n);
    for (int i = 0; i < n; ++i) r[i] = p[(k*sol->params.n_face_qpoint() + q)*n + i];
    return r;
  }
};

// 8: values of the integrand, 9: normals of the boundary faces (in), 10: determinants and weights (out)
extern "C" void sol_integral(double** b, int* ip)
{
  SOLVER
  int nd = ip[0], nq = s.params.n_qpoint(), nfq = s.params.n_face_qpoint();
  if (ip[2] != 4 && ip[2] != 0) place(b[2], nd);
  for (int i = 0; i < n_elem; ++i) elem(i).set_jacobian(s.basis);
  load(s, b[1]);
  double* p = b[10];
  for (int i = 0; i < ip[1]; ++i) *p++ = s.basis.node_weights()(i);
  for (int i = 0; i < n_elem; ++i) {*p++ = elem(i).nominal_size(); for (int k = 0; k < nq; ++k) *p++ = elem(i).jacobian_determinant(k);}
  auto& bc = s.acc_mesh->boundary_connections();
  for (int i = 0; i < bc.size(); ++i) for (int k = 0; k < nd*nfq; ++k) bc[i].normal()[k] = b[9][i*nd*nfq + k];
  Qf qf; qf.n = 2; qf.p = b[8];
  auto r = s.integral_field(qf);
  b[7][0] = r[0]; b[7][1] = r[1]; b[7][2] = r.size();
  Bf bf; bf.n = 2; bf.p = b[8];
  for (int k = 0; k < 2; ++k) {
    r = s.integral_surface(bf, k);
    b[7][3 + 3*k] = r[0]; b[7][4 + 3*k] = r[1]; b[7][5 + 3*k] = r.size();
  }
  put(-100);
  store(s, b[6]);
}

struct Ef : Element_func
{
  double* p;
  int n_var(int) const override {return 1;}
  std::vector<double> operator()(Element& e, const Basis&, double) const override
  {
    for (int i = 0; i < n_elem; ++i) if (&elem(i) == &e) return {p[i]};
    return {0.};
  }
};

// artificial viscosity for admissibility / from elementwise smoothness.  8: which vertices are shared, 9: interpolation matrix, 10: snapshots
extern "C" void sol_elav(double** b, int* ip)
{
  SOLVER
  int nd = ip[0], nv = 1 << nd;
  const char* names [] {"freestream_speed", "freestream_sound_speed", "elementwise_art_visc_diff_ratio", "av_diff_max_safety"};
  for (int i = 0; i < 4; ++i) sp.assign<double>(names[i], b[0][3 + i]);
  sp.assign("av_diff_iters", 1);
  sp.assign("n_cheby_av", 1);
  if (ip[2] != 4 && ip[2] != 0) place(b[2], nd);
  for (int i = 0; i < n_elem; ++i) elem(i).set_jacobian(s.basis);
  load(s, b[1]);
  snap = b[10];
  if (ip[8] == 0) s.set_art_visc_admis();
  else {
    for (int i = 0; i < n_elem; ++i) {
      Mass mass; // the indicator itself (Element_func) is used as a black box
      b[7][1 + i] = Normalized_nonsmooth(mass)(elem(i), s.basis, 0.)[0];
    }
    s.update_art_visc_elwise(b[0][7], ip[8] == 2);
  }
  put(-100);
  put(s.use_ldg());
  for (int i = 0; i < n_elem; ++i) {
    b[7][10 + i] = elem(i).uncertainty;
    for (int j = 0; j < n_elem; ++j) for (int v = 0; v < nv; ++v) for (int w = 0; w < nv; ++w) b[8][((i*n_elem + j)*nv + v)*nv + w] = &elem(i).vertex(v) == &elem(j).vertex(w);
  }
  for (int i = 0; i < ip[1]; ++i) b[9][i] = s.basis.node(i);
  store(s, b[6]);
}

extern "C" void sol_uncert(double** b, int* ip)
{
  SOLVER
  load(s, b[1]);
  Ef ef; ef.p = b[4];
  s.set_uncertainty(ef);
  for (int i = 0; i < n_elem; ++i) b[7][i] = elem(i).uncertainty;
  s.set_art_visc_constant(b[0][3]);
  b[7][10] = s.use_ldg();
  store(s, b[6]);
  put(-100);
}

extern "C" void sol_cheby(double** b, int* ip) {b[0][0] = math::chebyshev_step(ip[0], ip[1]);}
