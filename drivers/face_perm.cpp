// The real file src/kernels_convective.cpp, for its `face_permutation`.  The other functions it defines (kernel launchers, here replaced by recorders) get
// internal linkage, so that they are not emitted.
#include <kernels.hpp>
#include <pde.hpp>
#include <Spatial.hpp>
namespace vc_real
{
namespace
{
namespace hexed {using namespace ::hexed;}
#include <../src/kernels_convective.cpp>
}
std::unique_ptr<::hexed::Face_permutation_dynamic> fp(int nd, int rs, ::hexed::Connection_direction dir, double* data) {return hexed::face_permutation(nd, rs, dir, data);}
}
namespace hexed
{
std::unique_ptr<Face_permutation_dynamic> face_permutation(int nd, int rs, Connection_direction dir, double* data) {return vc_real::fp(nd, rs, dir, data);}
}
