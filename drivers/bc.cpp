// boundary conditions.  ip: 0 nd, 1 rs, 2 axis of the face, 3 side of the element the face is on, 4 phase, 5 kind, 6 thermal kind
// buffers: 0 ghost face, 1 inside face (state first, LDG storage after it, as in the real connections), 2 normal, 3 position, 4 state cache, 5 flux cache,
// 6 parameters, 7/8 contents of the inside/ghost storage when the flux condition is applied, 9 coefficients of the user function
#include "Boundary_condition.hpp"
#include "vc.hpp"
using namespace hexed;

struct G_face : public Boundary_face
{
  double** b; Storage_params par; int dim; bool sgn;
  G_face(double** bb, const int* ip) : b{bb}, par{1, ip[0] + 2, ip[0], ip[1]}, dim{ip[2]}, sgn{bool(ip[3])} {}
  int off(bool ldg) {return ldg ? par.n_dof()/par.row_size : 0;}
  Storage_params storage_params() override {return par;}
  double* ghost_face(bool ldg) override {return b[0] + off(ldg);}
  double* inside_face(bool ldg) override {return b[1] + off(ldg);}
  int i_dim() override {return dim;}
  bool inside_face_sign() override {return sgn;}
  double* surface_normal() override {return b[2];}
  double* surface_position() override {return b[3];}
  double* state_cache() override {return b[4];}
  double* flux_cache() override {return b[5];}
};

// a user-supplied surface function: affine in everything it is given, with arbitrary coefficients
struct G_func : public Surface_func
{
  double** b; int nd;
  G_func(double** bb, int n) : b{bb}, nd{n} {}
  int n_var(int n_dim) const override {return n_dim + 2;}
  std::string variable_name(int, int) const override {return "";}
  std::vector<double> operator()(std::vector<double> pos, double time, std::vector<double> state, std::vector<double> normal) const override
  {
    std::vector<double> r;
    for (int v = 0; v < nd + 2; ++v) {
      const double* c = b[9] + v*(3*nd + 4);
      double x = c[0] + c[1]*time;
      for (int i = 0; i < nd; ++i) x += c[2 + i]*pos[i] + c[2 + nd + i]*normal[i];
      for (int i = 0; i < nd + 2; ++i) x += c[2 + 2*nd + i]*state[i];
      r.push_back(x);
    }
    return r;
  }
};

static void apply(Flow_bc& bc, G_face& f, double** b, int phase)
{
  switch (phase) {
    case 0: bc.apply_state(f); break;
    case 1:
      bc.init_cache(f);
      bc.apply_state(f);
      { // by the time fluxes are exchanged both storages have been overwritten
        int n = f.off(true)/(f.par.n_var)*std::max(2*f.par.n_var, f.par.n_dim + f.par.row_size);
        for (int i = 0; i < n; ++i) {b[1][i] = b[7][i]; b[0][i] = b[8][i];}
      }
      bc.apply_flux(f); break;
    case 2: bc.apply_advection(f); break;
    case 3: bc.apply_diffusion(f); break;
    case 4: bc.flux_diffusion(f); break;
    case 5: bc.init_cache(f); for (int i = 0; i < 2*f.off(true); ++i) {b[1][i] = b[7][i]; b[0][i] = b[8][i];} bc.apply_state(f); break;
  }
}

extern "C" void bc_apply(double** b, int* ip)
{
  G_face f(b, ip);
  int nd = ip[0];
  Eigen::VectorXd fs(nd + 2);
  for (int i = 0; i < nd + 2; ++i) fs(i) = b[6][i];
  switch (ip[5]) {
    case 0: {Freestream bc(fs); apply(bc, f, b, ip[4]);} break;
    case 1: {Riemann_invariants bc(fs); apply(bc, f, b, ip[4]);} break;
    case 2: {Pressure_outflow bc(b[6][0]); apply(bc, f, b, ip[4]);} break;
    case 3: {G_func fn(b, nd); Function_bc bc(fn); apply(bc, f, b, ip[4]);} break;
    case 4: {Cache_bc bc(new G_func(b, nd)); apply(bc, f, b, ip[4]);} break;
    case 5: {Nonpenetration bc; apply(bc, f, b, ip[4]);} break;
    case 6: {
      std::shared_ptr<Thermal_bc> th;
      if (ip[6] == 0) th = std::make_shared<Prescribed_energy>(b[6][0]);
      if (ip[6] == 1) th = std::make_shared<Prescribed_heat_flux>(b[6][0]);
      if (ip[6] == 2) {auto t = std::make_shared<Thermal_equilibrium>(); t->emissivity = b[6][0]; t->heat_transfer_coef = b[6][1]; t->temperature = b[6][2]; th = t;}
      if (ip[6] == 3) {No_slip bc; apply(bc, f, b, ip[4]);} // defaults: adiabatic
      else if (ip[6] == 4) {No_slip bc(std::make_shared<Prescribed_heat_flux>(b[6][0]), b[6][1]); apply(bc, f, b, ip[4]);} // given relaxation factor
      else {No_slip bc(th); apply(bc, f, b, ip[4]);}
    } break;
    case 7: {Copy bc; apply(bc, f, b, ip[4]);} break;
    case 8: {Outflow bc; apply(bc, f, b, ip[4]);} break;
  }
}
