// Harness objects: implementations of the *interfaces* the kernels take (Kernel_element, Kernel_connection, Basis, Sequence),
// backed by plain buffers.  No algorithm of the code under verification is re-implemented here.
#pragma once
#include "Basis.hpp"
#include "Kernel_element.hpp"
#include "Kernel_connection.hpp"
#include "Refined_face.hpp"
#include "Sequence.hpp"

extern "C" int vc_size();           // number of elements/connections: arbitrary
extern "C" void* vc_elem(int i);    // the i-th object
extern "C" void vc_register(void* p);

#ifdef VC_NATIVE
static void* vc_ghost = nullptr;
extern "C" { inline int vc_bad = 0; }
extern "C" inline int vc_size() {return 1;}
extern "C" inline void* vc_elem(int i) {if (i) vc_bad = 1; return vc_ghost;}
extern "C" inline void vc_register(void* p) {vc_ghost = p;}
extern "C" __attribute__((used)) inline int vc_get_bad() {int b = vc_bad; vc_bad = 0; return b;}
#endif

namespace hexed
{

struct G_basis : public Basis
{
  double** b; // 0: nodes, 1: weights, 2: diff_mat, 3: boundary, 4: orthogonal, 5: filter, 6,7: prolong, 8,9: restrict, 10: (max cfl conv., diff., step ratio ...)
  G_basis(int rs, double** buf) : Basis(rs), b{buf} {}
  Eigen::MatrixXd mat(int i, int r, int c) const {Eigen::MatrixXd m(r, c); for (int k = 0; k < r*c; ++k) m.data()[k] = b[i][k]; return m;}
  double node(int i) const override {return b[0][i];}
  Eigen::VectorXd node_weights() const override {return mat(1, row_size, 1);}
  Eigen::MatrixXd diff_mat() const override {return mat(2, row_size, row_size);}
  Eigen::MatrixXd boundary() const override {return mat(3, 2, row_size);}
  Eigen::VectorXd orthogonal(int degree) const override {Eigen::VectorXd v(row_size); for (int k = 0; k < row_size; ++k) v(k) = b[4][degree*row_size + k]; return v;}
  Eigen::MatrixXd filter() const override {return mat(5, row_size, row_size);}
  Eigen::MatrixXd prolong(int h) const override {return mat(6 + h, row_size, row_size);}
  Eigen::MatrixXd restrict(int h) const override {return mat(8 + h, row_size, row_size);}
  double min_eig_convection() const override {return b[10][0];}
  double quadratic_safety() const override {return b[10][1];}
  double min_eig_diffusion() const override {return b[10][2];}
};

struct G_elem : public Kernel_element
{
  double** b; bool is_def; bool face_def[6];
  double* state() override {return b[0];}
  double* residual_cache() override {return b[1];}
  double* time_step_scale() override {return b[2];}
  double& vertex_time_step_scale(int i) override {return b[3][i];}
  double nominal_size() override {return b[4][0];}
  double* face(int i, bool ldg) override {return b[5 + i + 6*ldg];}
  bool deformed() const override {return is_def;}
  double* reference_level_normals() override {return is_def ? b[17] : nullptr;}
  double* jacobian_determinant() override {return is_def ? b[18] : nullptr;}
  double* kernel_face_normal(int i) override {return is_def && face_def[i] ? b[19 + i] : nullptr;}
  double& uncert() override {return b[25][0];}
};
constexpr int n_elem_buf = 26;

struct G_con : public Kernel_connection
{
  double** b; Connection_direction dir; bool is_def;
  Connection_direction get_direction() override {return dir;}
  double* state(int i, bool ldg) override {return b[i + 2*ldg];}
  double* normal() override {return is_def ? b[4] : nullptr;}
};

template <typename T, typename G> struct G_seq : public Sequence<T&>
{
  int size() override {return vc_size();}
  T& operator[](int i) override {return *static_cast<G*>(vc_elem(i));}
};

inline Connection_direction vc_dir(const int* ip)
{
  Connection_direction d;
  d.i_dim = {ip[0], ip[1]};
  d.face_sign = {bool(ip[2]), bool(ip[3])};
  return d;
}

}
