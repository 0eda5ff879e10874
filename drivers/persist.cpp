// Saving and loading of real small meshes and states; the HDF5 library is the in-memory store of stubs/h5/H5Cpp.h
#include "solver.cpp"
#include <H5Cpp.h>
std::vector<H5::File_data*>* H5::files = nullptr;
const H5::PredType H5::PredType::NATIVE_INT(1), H5::PredType::NATIVE_DOUBLE(2), H5::PredType::NATIVE_HBOOL(3);

static int index_of(Accessible_mesh& m, Element& e) {auto& el = m.elements(); for (int i = 0; i < el.size(); ++i) if (&el[i] == &e) return i; return -1;}

template <typename T> static void dump_cons(Accessible_mesh& m, Mesh_by_type<T>& t, bool def, double* tab, double* fines, int nd)
{
  // tab: per element and face: kind, other element, other face, side, stored as deformed connection
  auto set = [&](int e, int f, double k, double o, double g, double s) {double* p = tab + (e*2*nd + f)*6; p[0] = k; p[1] = o; p[2] = g; p[3] = s; p[4] = def; p[5] += 1;};
  for (auto& c : t.cons) {
    Connection_direction d = c->get_direction();
    int e [2] {index_of(m, c->element(0)), index_of(m, c->element(1))};
    for (int s = 0; s < 2; ++s) set(e[s], 2*d.i_dim[s] + d.face_sign[s], 1, e[!s], 2*d.i_dim[!s] + d.face_sign[!s], s);
  }
  for (auto& v : t.ref_face_cons) for (auto& c : v) {
    Con_dir<Deformed_element> d(c->direction());
    bool rev = c->order_reversed();
    int fc = 2*d.i_dim[rev] + d.face_sign[rev], ff = 2*d.i_dim[!rev] + d.face_sign[!rev];
    int coarse = index_of(m, c->coarse_element());
    set(coarse, fc, 2, c->n_fine_elements(), c->stretch()[0] + 2*c->stretch()[1], rev);
    for (int i = 0; i < c->n_fine_elements(); ++i) {
      int fine = index_of(m, c->connection(i).element(!rev));
      set(fine, ff, 3, coarse, fc, !rev);
      // the part of the coarse face this fine element faces
      for (int j = 0; j < c->n_fine_elements(); ++j) if (c->refined_face.fine[j] == c->connection(i).state(rev, false)) fines[(coarse*2*nd + fc)*4 + j] = fine;
    }
  }
  for (auto& c : t.bound_cons) set(index_of(m, c->element()), 2*c->i_dim() + c->inside_face_sign(), 4, c->bound_cond_serial_n(), 0, 0);
}

static double* dump_tree(Accessible_mesh& m, Tree* t, double* p)
{
  *p++ = t->refinement_level();
  for (int i = 0; i < t->n_dim; ++i) *p++ = t->coordinates()[i];
  for (int i = 0; i < t->n_dim; ++i) *p++ = t->origin()(i);
  *p++ = t->nominal_size();
  *p++ = t->get_status();
  Element* e = t->elem ? &*t->elem : nullptr;
  *p++ = e ? index_of(m, *e) : -1;
  *p++ = e ? (e->tree ? &*e->tree == t : 0) : 1;
  *p++ = e && e->get_is_deformed() ? static_cast<Element*>(t->def_elem) == e : t->def_elem ? -1 : 2;
  auto c = t->children();
  *p++ = c.size();
  for (Tree* u : c) p = dump_tree(m, u, p);
  return p;
}

static double* dump(Accessible_mesh& m, double* p)
{
  auto& el = m.elements();
  int nd = m.params.n_dim, nv = 1 << nd, n = el.size();
  *p++ = n;
  *p++ = m.params.n_stage; *p++ = m.params.n_var; *p++ = nd; *p++ = m.params.row_size; *p++ = m.params.n_forcing;
  *p++ = m.root_size();
  *p++ = m.bound_conds.size();
  *p++ = m.vertices().size();
  for (int i = 0; i < n; ++i) {
    Element& e = el[i];
    *p++ = e.get_is_deformed(); *p++ = e.refinement_level(); *p++ = e.nominal_size();
    for (int x : e.nominal_position()) *p++ = x;
    for (int k = 0; k < nd; ++k) *p++ = e.origin(k);
    for (int v = 0; v < nv; ++v) for (int k = 0; k < 3; ++k) *p++ = e.vertex(v).pos(k);
    for (int j = 0; j < n; ++j) for (int v = 0; v < nv; ++v) for (int w = 0; w < nv; ++w) *p++ = &e.vertex(v) == &el[j].vertex(w);
  }
  auto& de = m.def.elements();
  *p++ = de.size();
  int na = 2*nd*m.params.n_face_qpoint();
  for (int i = 0; i < de.size(); ++i) for (int k = 0; k < na; ++k) *p++ = de[i].node_adjustments()[k];
  for (int k = 0; k < n*2*nd*10; ++k) p[k] = 0;
  dump_cons(m, m.car, false, p, p + n*2*nd*6, nd);
  dump_cons(m, m.def, true, p, p + n*2*nd*6, nd);
  p += n*2*nd*10;
  auto val = m.valid();
  *p++ = val.n_missing; *p++ = val.n_redundant;
  return p;
}

// a coarse element next to fine ones: Cartesian connection, the fine ones on either side in any direction; ip: 11 direction, 12 side of the fine ones, 13 coarse deformed, 14 bits: fine deformed
static void make_mixed(Solver& s, int* ip)
{
  sol = &s;
  auto& m = s.mesh();
  int nd = s.params.n_dim, d = ip[11], side = ip[12];
  int bcs [2] {m.add_boundary_condition(new Rec_bc(0), new Rec_mesh_bc), m.add_boundary_condition(new Rec_bc(1), new Rec_mesh_bc)};
  std::vector<int> p(nd, 1);
  int c = m.add_element(0, ip[13], p);
  std::vector<int> fine;
  std::vector<bool> fd(64, false); // (a whole word: copying it does not touch unset bits)
  for (int i = 0; i < 1 << (nd - 1); ++i) {
    std::vector<int> q(nd);
    for (int j = 0, k = nd - 2; j < nd; ++j) q[j] = j == d ? (side ? 4 : 1) : 2 + ((i >> k--) & 1);
    fd[i] = (ip[14] >> i) & 1;
    fine.push_back(m.add_element(1, fd[i], q));
  }
  m.connect_hanging(0, c, fine, {{d, d}, {bool(side), !side}}, ip[13], fd);
  for (int f = 0; f < 2*nd; ++f) if (f != 2*d + side) m.connect_boundary(0, ip[13], c, f/2, f%2, bcs[f > 1]);
  for (int i = 0; i < 1 << (nd - 1); ++i) for (int f = 0; f < 2*nd; ++f) if (f != 2*d + !side) m.connect_boundary(1, fd[i], fine[i], f/2, f%2, bcs[(f + i)%2]);
  n_elem = s.acc_mesh->elements().size();
}

#define PSOLVER \
  tr = b[5]; ret = b[3]; fresh = b[4]; snap = nullptr; H5::files = nullptr; \
  Solver s(ip[0], ip[1], b[0][0], ip[3], model(ip[4], b[0] + 1), model(ip[5], b[0] + 2), std::make_shared<Namespace>(), std::make_shared<Null_printer>()); \
  if (ip[2] == 20) make_mixed(s, ip); else make(s, b, ip[2], ip);

// 8: face adjustments, 9-11: the mesh before saving, after saving, and loaded; 12: number of values and outcome
extern "C" void io_mesh(double** b, int* ip)
{
  PSOLVER
  auto& m = *s.acc_mesh;
  place(b[2], ip[0]);
  auto& de = m.def.elements();
  double* a = b[8];
  int na = 2*ip[0]*m.params.n_face_qpoint();
  for (int i = 0; i < de.size(); ++i) for (int k = 0; k < na; ++k) de[i].node_adjustments()[k] = *a++;
  b[12][0] = dump(m, b[9]) - b[9];
  m.write("some_mesh");
  b[12][1] = dump(m, b[10]) - b[10];
  Accessible_mesh r("some_mesh", std::vector<Flow_bc*>{new Rec_bc(0), new Rec_bc(1)}, std::vector<Mesh_bc*>{new Rec_mesh_bc, new Rec_mesh_bc});
  b[12][2] = dump(r, b[11]) - b[11];
}

// 6: element data after loading
extern "C" void io_state(double** b, int* ip)
{
  PSOLVER
  load(s, b[1]);
  s.write_state("some_state");
  store(s, b[7]);
  load(s, b[8]);
  s.read_state("some_state");
  store(s, b[6]);
}

static std::vector<Flow_bc*> tree_bcs(int nd) {std::vector<Flow_bc*> v; for (int i = 0; i < 2*nd; ++i) v.push_back(new Rec_bc(0)); return v;}

// refine and coarsen the elements given by the bits of their index
static bool update_by(Accessible_mesh& m, int r, int q)
{
  auto has = [&m](int bits) {return [&m, bits](Element& e) {return bool((bits >> index_of(m, e)) & 1);};};
  return m.update(has(r), has(q));
}

// a mesh made from a tree: ip: 2 number of updates, 3... for each update the elements to refine and those to coarsen (bits of their index)
static void adapt(Accessible_mesh& m, double** b, int* ip)
{
  int nd = ip[0];
  Mat<> orig(nd);
  for (int i = 0; i < nd; ++i) orig(i) = b[0][1 + i];
  m.add_tree(tree_bcs(nd), orig);
  for (int u = 0; u < ip[2]; ++u) update_by(m, ip[3 + 2*u], ip[4 + 2*u]);
}

// 0: root size, origin; 1-3: the mesh before saving, after saving, and loaded; 4: numbers of values
extern "C" void io_tree(double** b, int* ip)
{
  int nd = ip[0];
  H5::files = nullptr;
  auto& m = *new Accessible_mesh(Storage_params{1, nd + 2, nd, ip[1]}, b[0][0]);
  adapt(m, b, ip);
  b[4][0] = dump_tree(m, m.tree.get(), dump(m, b[1])) - b[1];
  m.write("some_mesh");
  b[4][1] = dump_tree(m, m.tree.get(), dump(m, b[2])) - b[2];
  auto& r = *new Accessible_mesh("some_mesh", tree_bcs(nd));
  b[4][2] = dump_tree(r, r.tree.get(), dump(r, b[3])) - b[3];
}

// 0: root size, origin; 1-2: the mesh before the last update and after it; 3: what the last update returned
extern "C" void adapt_mesh(double** b, int* ip)
{
  int nd = ip[0];
  auto& m = *new Accessible_mesh(Storage_params{1, nd + 2, nd, ip[1]}, b[0][0]);
  Mat<> orig(nd);
  for (int i = 0; i < nd; ++i) orig(i) = b[0][1 + i];
  m.add_tree(tree_bcs(nd), orig);
  for (int u = 0; u < ip[2]; ++u) {
    if (u == ip[2] - 1) dump_tree(m, m.tree.get(), dump(m, b[1]));
    b[3][0] = update_by(m, ip[3 + 2*u], ip[4 + 2*u]);
  }
  dump_tree(m, m.tree.get(), dump(m, b[2]));
}

// a surface made of planes perpendicular to the coordinate axes
struct Plane : Surface_geom
{
  int d; double c;
  Plane(int i, double x) : d{i}, c{x} {}
  Nearest_point<dyn> nearest_point(Mat<> point, double max_distance, double) override
  {
    Nearest_point<dyn> n(point, max_distance);
    Mat<> q = point;
    q(d) = c;
    n.merge(q);
    return n;
  }
  std::vector<double> intersections(Mat<> p0, Mat<> p1) override {return {(c - p0(d))/(p1(d) - p0(d))};}
};

static Surface_geom* planes(int nd, double* pos, int bits)
{
  std::vector<Surface_geom*> g;
  for (int i = 0; i < nd; ++i) if ((bits >> i) & 1) g.push_back(new Plane(i, pos[i]));
  return g.size() == 1 ? g[0] : new Compound_geom(g);
}

// 0: root size, origin, positions of the planes, where the flood fill starts; ip: 2 number of updates, 3: directions of the planes (bits), 4: number of updates before the surface is set, 5...: requests; 1-2: as above
extern "C" void adapt_surface(double** b, int* ip)
{
  int nd = ip[0];
  auto& m = *new Accessible_mesh(Storage_params{1, nd + 2, nd, ip[1]}, b[0][0]);
  Mat<> orig(nd), start(nd);
  for (int i = 0; i < nd; ++i) {orig(i) = b[0][1 + i]; start(i) = b[0][1 + 2*nd + i];}
  auto surf = [&]() {m.set_surface(planes(nd, b[0] + 1 + nd, ip[3]), new Rec_bc(1), start);};
  m.add_tree(tree_bcs(nd), orig);
  for (int u = 0; u < ip[2]; ++u) {
    if (u == ip[4]) surf();
    if (u == ip[2] - 1) dump_tree(m, m.tree.get(), dump(m, b[1]));
    b[3][0] = update_by(m, ip[5 + 2*u], ip[6 + 2*u]);
  }
  if (ip[4] == ip[2]) surf();
  dump_tree(m, m.tree.get(), dump(m, b[2]));
}

// as above, but the last update is made both to the mesh and to the one that was loaded
// 1: mesh, 2: after saving, 3: loaded, 4: lengths and results, 5-6: both after the last update
extern "C" void io_surface(double** b, int* ip)
{
  int nd = ip[0];
  H5::files = nullptr;
  auto& m = *new Accessible_mesh(Storage_params{1, nd + 2, nd, ip[1]}, b[0][0]);
  Mat<> orig(nd), start(nd);
  for (int i = 0; i < nd; ++i) {orig(i) = b[0][1 + i]; start(i) = b[0][1 + 2*nd + i];}
  m.add_tree(tree_bcs(nd), orig);
  int last = ip[2] - 1;
  for (int u = 0; u < last; ++u) {
    if (u == ip[4]) m.set_surface(planes(nd, b[0] + 1 + nd, ip[3]), new Rec_bc(1), start);
    update_by(m, ip[5 + 2*u], ip[6 + 2*u]);
  }
  if (ip[4] == last) m.set_surface(planes(nd, b[0] + 1 + nd, ip[3]), new Rec_bc(1), start);
  b[4][0] = dump_tree(m, m.tree.get(), dump(m, b[1])) - b[1];
  m.write("some_mesh");
  b[4][1] = dump_tree(m, m.tree.get(), dump(m, b[2])) - b[2];
  auto& r = *new Accessible_mesh("some_mesh", tree_bcs(nd), planes(nd, b[0] + 1 + nd, ip[3]), new Rec_bc(1));
  b[4][2] = dump_tree(r, r.tree.get(), dump(r, b[3])) - b[3];
  b[4][3] = update_by(m, ip[5 + 2*last], ip[6 + 2*last]);
  b[4][4] = update_by(r, ip[5 + 2*last], ip[6 + 2*last]);
  b[4][5] = dump_tree(m, m.tree.get(), dump(m, b[5])) - b[5];
  b[4][6] = dump_tree(r, r.tree.get(), dump(r, b[6])) - b[6];
}
