// surface geometry queries
#include "vc.hpp"
#include "Surface_geom.hpp"
#include "Simplex_geom.hpp"
using namespace hexed;

static Mat<> vec(double* d, int n) {Mat<> v(n); for (int i = 0; i < n; ++i) v(i) = d[i]; return v;}
template <int n> static Mat<n> fix(double* d) {Mat<n> v; for (int i = 0; i < n; ++i) v(i) = d[i]; return v;}
static void put(double* d, const Nearest_point<dyn>& p, int n)
{
  d[0] = p.empty();
  if (!p.empty()) {
    d[1] = p.dist_squared();
    auto q = p.point();
    auto r = p.reference();
    for (int i = 0; i < n; ++i) {d[2 + i] = q(i); d[2 + n + i] = r(i);}
  }
}
static void put(double* d, const std::vector<double>& v)
{
  d[0] = v.size();
  for (unsigned i = 0; i < v.size(); ++i) d[1 + i] = v[i];
}

extern "C" void nothing(double**, int*) {}

// 0: end points, 1: point, 2: nearest point of the segment
extern "C" void segment(double** b, int* ip)
{
  if (ip[0] == 2 && ip[1]) {
    auto v = math::proj_to_segment(std::array<Mat<2>, 2>{fix<2>(b[0]), fix<2>(b[0] + 2)}, fix<2>(b[1]));
    for (int i = 0; i < 2; ++i) b[2][i] = v(i);
  } else if (ip[0] == 3 && ip[1]) {
    auto v = math::proj_to_segment(std::array<Mat<3>, 2>{fix<3>(b[0]), fix<3>(b[0] + 3)}, fix<3>(b[1]));
    for (int i = 0; i < 3; ++i) b[2][i] = v(i);
  } else {
    auto v = math::proj_to_segment(std::array<Mat<>, 2>{vec(b[0], ip[0]), vec(b[0] + ip[0], ip[0])}, vec(b[1], ip[0]));
    for (int i = 0; i < ip[0]; ++i) b[2][i] = v(i);
  }
}

// 0: simplex, 1: point, 2: distance to beat, 3: nearest point
template <int n> static void merge_(double** b)
{
  std::vector<Mat<n, n>> s(1);
  for (int i = 0; i < n*n; ++i) s[0].data()[i] = i%(n + 1) == 0;
  auto& g = *new Simplex_geom<n>(s);
  Mat<n, n> sim;
  for (int i = 0; i < n*n; ++i) sim.data()[i] = b[0][i];
  Nearest_point<n> near(fix<n>(b[1]), b[2][0]);
  g.merge(near, sim, fix<n>(b[1]));
  put(b[3], near, n);
}
extern "C" void simplex_merge(double** b, int* ip) {if (ip[0] == 2) merge_<2>(b); else merge_<3>(b);}

// 0: simplex, 1: two points of the line, 2: centre and square of the radius of the ball around the simplex, 3: ball, 4: whether the line meets the latter
template <int n> static void ball_(double** b)
{
  Mat<n, n> sim;
  for (int i = 0; i < n*n; ++i) sim.data()[i] = b[0][i];
  auto ball = math::bounding_ball(sim);
  for (int i = 0; i < n; ++i) b[2][i] = ball.center(i);
  b[2][n] = ball.radius_sq;
  b[4][0] = math::intersects(math::Ball<n>(fix<n>(b[3]), b[3][n]), fix<n>(b[1]), fix<n>(b[1] + n));
}
extern "C" void ball(double** b, int* ip) {if (ip[0] == 2) ball_<2>(b); else ball_<3>(b);}

// 0: reference, 1: largest distance, 2: candidates, 3: nearest point
extern "C" void nearest(double** b, int* ip)
{
  int n = ip[0];
  Nearest_point<dyn> p(vec(b[0], n), b[1][0]);
  for (int i = 0; i < ip[1]; ++i) p.merge(vec(b[2] + i*n, n));
  put(b[3], p, n);
}

// a surface about which nothing is known: the answers are in the buffers
struct Some_surface : public Surface_geom
{
  double* d; int e; int n_int; int n; double* asked;
  Nearest_point<dyn> nearest_point(Mat<> point, double max_distance, double distance_guess) override
  {
    for (int i = 0; i < n; ++i) asked[i] = point(i);
    asked[n] = max_distance;
    Nearest_point<dyn> p(point, max_distance);
    if (!e) p.merge(vec(d, n)); // nothing at or beyond the largest distance asked for
    return p;
  }
  std::vector<double> intersections(Mat<> point0, Mat<> point1) override
  {
    for (int i = 0; i < n; ++i) {asked[i] = point0(i); asked[n + i] = point1(i);}
    return std::vector<double>(d + n, d + n + n_int);
  }
};

// 0: point(s), 1: largest distance and guess, 2: answers of the components, 3: result, 4: what the components are asked
extern "C" void compound(double** b, int* ip)
{
  int n = ip[0];
  std::vector<Surface_geom*> g;
  for (int i = 0; i < ip[1]; ++i) {
    auto s = new Some_surface;
    s->d = b[2] + i*(n + 3); s->e = ip[4 + 2*i]; s->n_int = ip[5 + 2*i]; s->n = n; s->asked = b[4] + i*2*n;
    g.push_back(s);
  }
  auto& c = *new Compound_geom(g);
  if (ip[2]) put(b[3], c.intersections(vec(b[0], n), vec(b[0] + n, n)));
  else put(b[3], c.nearest_point(vec(b[0], n), b[1][0], b[1][1]), n);
}

// 0: point(s), 1: largest distance, 2: centre and radius, 3: result
extern "C" void sphere(double** b, int* ip)
{
  int n = ip[0];
  auto& s = *new Hypersphere(vec(b[2], n), b[2][n]);
  if (ip[2]) put(b[3], s.intersections(vec(b[0], n), vec(b[0] + n, n)));
  else put(b[3], s.nearest_point(vec(b[0], n), b[1][0]), n);
}

// 0: point(s), 1: largest distance and guess, 2: simplices, 3: result
template <int n> static void simplices_(double** b, int* ip)
{
  std::vector<Mat<n, n>> s(ip[1]);
  for (int i = 0; i < ip[1]; ++i) for (int j = 0; j < n*n; ++j) s[i].data()[j] = b[2][i*n*n + j];
  auto& g = *new Simplex_geom<n>(s);
  if (ip[2] == 1) put(b[3], g.intersections(vec(b[0], n), vec(b[0] + n, n)));
  else if (ip[2] == 2) put(b[3], g.nearest_point(vec(b[0], n)), n);
  else put(b[3], g.nearest_point(vec(b[0], n), b[1][0], b[1][1]), n);
}
extern "C" void simplices(double** b, int* ip) {if (ip[0] == 2) simplices_<2>(b, ip); else simplices_<3>(b, ip);}

// 0: points, 1: segments
extern "C" void polyline(double** b, int* ip)
{
  Mat<dyn, dyn> p(2, ip[0]);
  for (int i = 0; i < 2*ip[0]; ++i) p.data()[i] = b[0][i];
  auto s = segments(p);
  b[1][0] = s.size();
  for (unsigned i = 0; i < s.size(); ++i) for (int j = 0; j < 4; ++j) b[1][1 + i*4 + j] = s[i].data()[j];
}
