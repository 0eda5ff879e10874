// connections between faces.  ip: 0 nd, 1 rs, 2 deformed, 3..6 direction, 7 reverse order, 8,9 stretch
// buffers: 0 nodes, 2 diff_mat, 3 boundary, 4 size and origin, 5 vertex positions of element 0 / coarse element, 6 of element 1 / all fine elements
// out: 7 facts, 8 storage read back, 9/10 vertex positions afterwards, 11/12 face positions [point][axis], 13/14 face normals as computed by the elements, 15 sharing matrix
#include "connection.hpp"
#include "vc.hpp"
using namespace hexed;

template <typename E> struct Dir {static Con_dir<E> make(const int* ip) {return Con_dir<E>{{ip[0], ip[1]}, {bool(ip[2]), bool(ip[3])}};}};
template <> struct Dir<Element> {static Con_dir<Element> make(const int* ip) {return Con_dir<Element>{ip[0]};}};

static Mat<> org(double** b) {Mat<> o(3); for (int i = 0; i < 3; ++i) o(i) = b[4][1 + i]; return o;}
static void put(Element& e, const double* p) {for (int v = 0; v < e.storage_params().n_vertices(); ++v) for (int i = 0; i < 3; ++i) e.vertex(v).pos[i] = p[3*v + i];}
static void get(Element& e, double* p) {for (int v = 0; v < e.storage_params().n_vertices(); ++v) for (int i = 0; i < 3; ++i) p[3*v + i] = e.vertex(v).pos[i];}
static double* nrml(Deformed_element& e, int f) {return e.face_normal(f);}
static double* nrml(Element&, int) {return nullptr;}
static double* cnrml(Face_connection<Deformed_element>& c, int i) {return c.normal(i);}
static double* cnrml(Face_connection<Element>&, int) {return nullptr;}

// writes distinct numbers through every pointer of a list, then reads them all back
struct Tags
{
  std::vector<double*> p; std::vector<int> n;
  void add(double* x, int k) {if (x) {p.push_back(x); n.push_back(k);}}
  int check()
  {
    double t = 1;
    for (unsigned i = 0; i < p.size(); ++i) for (int k = 0; k < n[i]; ++k) p[i][k] = t++;
    t = 1;
    int bad = 0;
    for (unsigned i = 0; i < p.size(); ++i) for (int k = 0; k < n[i]; ++k) bad += p[i][k] != t++;
    return bad;
  }
};

template <typename E> static void pair(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  Storage_params par{2, nd + 2, nd, rs};
  int nfq = par.n_face_qpoint(), nv = par.n_vertices(), ns = nfq*(nd + 2);
  G_basis basis(rs, b);
  std::vector<int> p1(nd, 0);
  if (!E::is_deformed) p1[ip[3]] = 1;
  E e0(par, std::vector<int>(nd, 0), b[4][0], 0, org(b)), e1(par, p1, b[4][0], 0, org(b));
  if (E::is_deformed) {put(e0, b[5]); put(e1, b[6]);}
  double* f = b[7];
  auto d = Dir<E>::make(ip + 3);
  E* es [2] {&e0, &e1};
  std::vector<double> nf(nd*nfq);
  {
    Element_face_connection<E> con({&e0, &e1}, d);
    for (int s = 0; s < 2; ++s) {
      int face = 2*ip[3 + s] + ip[5 + s];
      *f++ = es[s]->face(face, false) == con.state(s, false);
      *f++ = es[s]->face(face, true) == con.state(s, true);
      *f++ = nrml(*es[s], face) == cnrml(con, s);
      *f++ = es[s]->kernel_face_normal(face) == cnrml(con, s);
      *f++ = &con.element(s) == es[s];
      *f++ = es[s]->is_connected(face);
      Connection_direction cd = con.get_direction();
      *f++ = cd.i_dim[s] == ip[3 + s] && cd.face_sign[s] == bool(ip[5 + s]);
      for (int o = 0; o < 2*nd; ++o) if (o != face) *f++ = es[s]->is_connected(o);
    }
    *f++ = con.normal() == cnrml(con, 0);
    Tags t, a;
    for (int s = 0; s < 2; ++s) {
      t.add(con.state(s, false), ns); t.add(con.state(s, true), ns); t.add(cnrml(con, s), nd*nfq);
      a.add(con.state(s, false), (nd + rs)*nfq); a.add(cnrml(con, s), nd*nfq);
    }
    *f++ = t.check();
    *f++ = a.check();
    for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j) b[15][i*nv + j] = &e0.vertex(i) == &e1.vertex(j);
    for (int i = 0; i < nv; ++i) {*f++ = e0.vertex(i).mass(); *f++ = e1.vertex(i).mass();}
    for (int i = 0; i < nv; ++i) for (int j = 0; j < nv; ++j) {*f++ = Vertex::are_neighbors(e0.vertex(i), e0.vertex(j)); *f++ = Vertex::are_neighbors(e1.vertex(i), e1.vertex(j));}
    get(e0, b[9]); get(e1, b[10]);
    for (int s = 0; s < 2; ++s) {
      int face = 2*ip[3 + s] + ip[5 + s];
      for (int o = 0; o < 2*nd; ++o) if (o != face) es[s]->set_face(o, nf.data());
      es[s]->set_jacobian(basis);
      for (int q = 0; q < nfq; ++q) {
        std::vector<double> x = es[s]->face_position(basis, face, q);
        for (int i = 0; i < nd; ++i) b[11 + s][q*nd + i] = x[i];
      }
      for (int i = 0; i < nd*nfq; ++i) b[13 + s][i] = con.state(s, false)[i];
    }
  }
  for (int s = 0; s < 2; ++s) {
    int face = 2*ip[3 + s] + ip[5 + s];
    *f++ = es[s]->is_connected(face);
    *f++ = nrml(*es[s], face) == nullptr;
  }
}

template <typename E> static void refined(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  Storage_params par{2, nd + 2, nd, rs};
  int nfq = par.n_face_qpoint(), nv = par.n_vertices(), ns = nfq*(nd + 2);
  bool rev = ip[7];
  std::array<bool, 2> str {bool(ip[8]), bool(ip[9])};
  int n_fine = 1;
  for (int i = 0; i < nd - 1; ++i) if (!str[i]) n_fine *= 2;
  G_basis basis(rs, b);
  E c(par, std::vector<int>(nd, 0), b[4][0], 0, org(b));
  std::vector<std::unique_ptr<E>> own;
  std::vector<E*> fine;
  for (int i = 0; i < n_fine; ++i) {own.emplace_back(new E(par, std::vector<int>(nd, 0), b[4][0], 1, org(b))); fine.push_back(own.back().get());}
  put(c, b[5]);
  for (int i = 0; i < n_fine; ++i) put(*fine[i], b[6] + 3*nv*i);
  double* f = b[7];
  auto d = Dir<E>::make(ip + 3);
  int cf = 2*ip[3 + rev] + ip[5 + rev], ff = 2*ip[3 + !rev] + ip[5 + !rev];
  std::vector<double> nf(nd*nfq);
  {
    Refined_connection<E> con(&c, fine, d, rev, str);
    *f++ = con.n_fine_elements();
    *f++ = con.order_reversed() == rev;
    *f++ = c.face(cf, false) == con.coarse_state();
    *f++ = con.refined_face.coarse == con.coarse_state();
    *f++ = c.is_connected(cf);
    *f++ = con.refined_face.stretch[0];
    *f++ = con.refined_face.stretch[1];
    *f++ = &con.coarse_element() == &c;
    Tags t, a;
    t.add(c.face(cf, false), ns); t.add(c.face(cf, true), ns);
    a.add(c.face(cf, false), (nd + rs)*nfq); a.add(nrml(c, cf), nd*nfq); t.add(nrml(c, cf), nd*nfq);
    // which fine element and which sub-face each connection belongs to
    for (int i = 0; i < n_fine; ++i) {
      auto& fc = con.connection(i);
      int elem = -1, sub = -1;
      for (int k = 0; k < n_fine; ++k) {
        if (&fc.element(!rev) == fine[k]) elem = k;
        if (con.refined_face.fine[k] == fc.state(rev, false)) sub = k;
      }
      *f++ = &fc.element(rev) == &c;
      b[8][2*i] = elem; b[8][2*i + 1] = sub;
      if (elem >= 0) {
        *f++ = fine[elem]->face(ff, false) == fc.state(!rev, false);
        *f++ = fine[elem]->face(ff, true) == fc.state(!rev, true);
        *f++ = nrml(*fine[elem], ff) == cnrml(fc, !rev);
      }
      Connection_direction cd = fc.get_direction();
      *f++ = cd.i_dim[0] == ip[3] && cd.i_dim[1] == ip[4] && cd.face_sign[0] == bool(ip[5]) && cd.face_sign[1] == bool(ip[6]);
      for (int s = 0; s < 2; ++s) {
        t.add(fc.state(s, false), ns); t.add(fc.state(s, true), ns); t.add(cnrml(fc, s), nd*nfq);
        a.add(fc.state(s, false), (nd + rs)*nfq); a.add(cnrml(fc, s), nd*nfq);
      }
    }
    *f++ = t.check();
    *f++ = a.check();
    for (int i = 0; i < nv; ++i) for (int k = 0; k < n_fine; ++k) for (int j = 0; j < nv; ++j) b[15][(i*n_fine + k)*nv + j] = &c.vertex(i) == &fine[k]->vertex(j);
    con.matcher.match(&Element::vertex_position<0>);
    con.matcher.match(&Element::vertex_position<1>);
    con.matcher.match(&Element::vertex_position<2>);
    get(c, b[9]);
    for (int k = 0; k < n_fine; ++k) {
      get(*fine[k], b[10] + 3*nv*k);
      for (int q = 0; q < nfq; ++q) {
        std::vector<double> x = fine[k]->face_position(basis, ff, q);
        for (int i = 0; i < nd; ++i) b[12][(k*nfq + q)*nd + i] = x[i];
      }
    }
  }
  *f++ = c.is_connected(cf);
  *f++ = nrml(c, cf) == nullptr;
  for (int k = 0; k < n_fine; ++k) *f++ = fine[k]->is_connected(ff);
}

// wrong number of fine elements
template <typename E> static void refined_bad(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  Storage_params par{2, nd + 2, nd, rs};
  E c(par), f0(par), f1(par), f2(par);
  std::vector<E*> all {&f0, &f1, &f2};
  std::vector<E*> fine(all.begin(), all.begin() + ip[10]);
  Refined_connection<E> con(&c, fine, Dir<E>::make(ip + 3), ip[7], {bool(ip[8]), bool(ip[9])});
  b[7][0] = 1;
}

template <typename E> static void boundary(double** b, int* ip)
{
  int nd = ip[0], rs = ip[1];
  Storage_params par{2, nd + 2, nd, rs};
  int nfq = par.n_face_qpoint(), ns = nfq*(nd + 2);
  E e(par, std::vector<int>(nd, 0), b[4][0], 0, org(b));
  double* f = b[7];
  int face = 2*ip[3] + ip[5];
  {
    Typed_bound_connection<E> con(e, ip[3], ip[5], ip[7]);
    *f++ = con.bound_cond_serial_n();
    *f++ = con.i_dim();
    *f++ = con.inside_face_sign();
    *f++ = &con.element() == &e;
    *f++ = e.face(face, false) == con.inside_face(false);
    *f++ = e.face(face, true) == con.inside_face(true);
    *f++ = con.state(0, false) == con.inside_face(false);
    *f++ = con.state(0, true) == con.inside_face(true);
    *f++ = con.state(1, false) == con.ghost_face(false);
    *f++ = con.state(1, true) == con.ghost_face(true);
    *f++ = con.surface_normal() == con.normal();
    *f++ = !E::is_deformed || nrml(e, face) == con.surface_normal();
    Connection_direction cd = con.get_direction();
    *f++ = cd.i_dim[0]; *f++ = cd.i_dim[1]; *f++ = cd.face_sign[0]; *f++ = cd.face_sign[1];
    *f++ = con.storage_params().n_dof() == par.n_dof();
    double z = 0;
    for (int i = 0; i < ns; ++i) z += std::abs(con.state_cache()[i]) + std::abs(con.flux_cache()[i]);
    *f++ = z;
    Tags t, a;
    for (int l = 0; l < 2; ++l) {t.add(con.inside_face(l), ns); t.add(con.ghost_face(l), ns);}
    a.add(con.inside_face(false), (nd + rs)*nfq); a.add(con.ghost_face(false), (nd + rs)*nfq);
    for (auto x : {&t, &a}) {x->add(con.surface_normal(), nd*nfq); x->add(con.surface_position(), nd*nfq); x->add(con.state_cache(), ns); x->add(con.flux_cache(), ns);}
    *f++ = t.check();
    *f++ = a.check();
  }
  *f++ = e.is_connected(face);
  *f++ = nrml(e, face) == nullptr;
}

#define ENTRY(f) extern "C" void con_##f(double** b, int* ip) {if (ip[2]) f<Deformed_element>(b, ip); else f<Element>(b, ip);}
ENTRY(pair)
ENTRY(refined)
ENTRY(refined_bad)
ENTRY(boundary)
