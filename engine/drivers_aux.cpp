// Analysis drivers for the building blocks: never executed, only compiled to IR.
#include <vector>
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_cc_circle.hpp"
#include "steering_functions/hc_cc_state_space/paths.hpp"
#include "steering_functions/utilities/utilities.hpp"
#include "steering_functions/filter/ekf.hpp"

using namespace steering;

extern "C" {
double vp_sym(const char *name);
bool vp_bool(const char *name);
void vp_control(double delta_s, double kappa, double sigma);
void vp_mark(const char *name);
void vp_self(const void *p);
void vp_double(const char *name, double v);
}

// ---- turns on a circle
static HC_CC_Circle mk_circle(const HC_CC_Circle_Param &p)
{
  Configuration s(vp_sym("sx"), vp_sym("sy"), vp_sym("sth"), vp_sym("sk"));
  return HC_CC_Circle(s, vp_bool("left"), vp_bool("forward"), vp_bool("regular"), p);
}
static void free_fields(HC_CC_Circle &c)
{
  // every public field is arbitrary: nothing is assumed about how the circle was constructed
  c.xc = vp_sym("xc");
  c.yc = vp_sym("yc");
  c.radius = vp_sym("radius");
  c.mu = vp_sym("mu");
  c.sin_mu = vp_sym("sin_mu");
  c.cos_mu = vp_sym("cos_mu");
  c.delta_min = vp_sym("delta_min");
  c.kappa = vp_sym("kappa");
  c.kappa_inv = vp_sym("kappa_inv");
  c.sigma = vp_sym("sigma");
}
static void mk_param(HC_CC_Circle_Param &p)
{
  p.set_param(vp_sym("kappa"), vp_sym("sigma"), vp_sym("radius"), vp_sym("mu"), vp_sym("sin_mu"), vp_sym("cos_mu"),
              vp_sym("delta_min"));
}
#define TURN(K)                                                                                                        \
  extern "C" void drv_turn_##K()                                                                                       \
  {                                                                                                                    \
    HC_CC_Circle_Param p;                                                                                              \
    mk_param(p);                                                                                                       \
    HC_CC_Circle c = mk_circle(p);                                                                                     \
    free_fields(c);                                                                                                    \
    Configuration q(vp_sym("qx"), vp_sym("qy"), vp_sym("qth"), vp_sym("qk"));                                          \
    vp_double("length", c.K##_turn_length(q));                                                                         \
    {                                                                                                                  \
      std::vector<Control> v;                                                                                          \
      K##_turn_controls(c, q, vp_bool("order"), v);                                                                    \
      vp_mark("emit");                                                                                                 \
      for (const auto &u : v)                                                                                          \
        vp_control(u.delta_s, u.kappa, u.sigma);                                                                       \
    }                                                                                                                  \
  }
TURN(rs)
TURN(hc)
TURN(cc)

extern "C" void drv_straight()
{
  Configuration a(vp_sym("x1"), vp_sym("y1"), vp_sym("th1"), vp_sym("k1"));
  Configuration b(vp_sym("x2"), vp_sym("y2"), vp_sym("th2"), vp_sym("k2"));
  std::vector<Control> v;
  straight_controls(a, b, v);
  for (const auto &u : v)
    vp_control(u.delta_s, u.kappa, u.sigma);
}
extern "C" void drv_empty()
{
  std::vector<Control> v;
  empty_controls(v);
  for (const auto &u : v)
    vp_control(u.delta_s, u.kappa, u.sigma);
}
extern "C" void drv_reverse()
{
  Control c;
  c.delta_s = vp_sym("ds");
  c.kappa = vp_sym("k");
  c.sigma = vp_sym("s");
  reverse_control(c);
  vp_control(c.delta_s, c.kappa, c.sigma);
}

static void out_circle(const HC_CC_Circle &c)
{
  vp_double("xc", c.xc);
  vp_double("yc", c.yc);
  vp_double("radius", c.radius);
  vp_double("mu", c.mu);
  vp_double("sin_mu", c.sin_mu);
  vp_double("cos_mu", c.cos_mu);
  vp_double("delta_min", c.delta_min);
  vp_double("kappa", c.kappa);
  vp_double("kappa_inv", c.kappa_inv);
  vp_double("sigma", c.sigma);
  vp_double("sx", c.start.x);
  vp_double("sy", c.start.y);
  vp_double("stheta", c.start.theta);
  vp_double("skappa", c.start.kappa);
  vp_double("left", c.left);
  vp_double("forward", c.forward);
  vp_double("regular", c.regular);
}
extern "C" void drv_circle_start()
{
  HC_CC_Circle_Param p;
  mk_param(p);
  HC_CC_Circle c = mk_circle(p);
  out_circle(c);
}
extern "C" void drv_circle_center()
{
  HC_CC_Circle_Param p;
  mk_param(p);
  HC_CC_Circle c(vp_sym("xc"), vp_sym("yc"), vp_bool("left"), vp_bool("forward"), vp_bool("regular"), p);
  out_circle(c);
}
struct Probe : public CC00_Dubins_State_Space
{
  Probe(double k, double s, double d) : CC00_Dubins_State_Space(k, s, d, true) {}
  void out() const
  {
    vp_double("kappa", hc_cc_circle_param_.kappa);
    vp_double("kappa_inv", hc_cc_circle_param_.kappa_inv);
    vp_double("sigma", hc_cc_circle_param_.sigma);
    vp_double("radius", hc_cc_circle_param_.radius);
    vp_double("mu", hc_cc_circle_param_.mu);
    vp_double("sin_mu", hc_cc_circle_param_.sin_mu);
    vp_double("cos_mu", hc_cc_circle_param_.cos_mu);
    vp_double("delta_min", hc_cc_circle_param_.delta_min);
  }
};
extern "C" void drv_param()
{
  Probe p(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"));
  p.out();
}

// ---- utilities
extern "C" void drv_util()
{
  double a = vp_sym("a"), b = vp_sym("b"), x = vp_sym("x"), y = vp_sym("y"), th = vp_sym("th"), k = vp_sym("k"),
         s = vp_sym("s"), d = vp_sym("d"), l = vp_sym("l");
  vp_double("twopify", twopify(a));
  vp_double("pify", pify(a));
  vp_double("sgn", sgn(a));
  vp_double("point_distance", point_distance(x, y, a, b));
  double r, t;
  polar(x, y, r, t);
  vp_double("polar_r", r);
  vp_double("polar_theta", t);
  double xf, yf, tf, kf;
  end_of_clothoid(x, y, th, k, s, d, l, &xf, &yf, &tf, &kf);
  vp_double("clothoid_x", xf);
  vp_double("clothoid_y", yf);
  vp_double("clothoid_theta", tf);
  vp_double("clothoid_kappa", kf);
  end_of_circular_arc(x, y, th, k, d, l, &xf, &yf, &tf);
  vp_double("arc_x", xf);
  vp_double("arc_y", yf);
  vp_double("arc_theta", tf);
  end_of_straight_line(x, y, th, d, l, &xf, &yf);
  vp_double("line_x", xf);
  vp_double("line_y", yf);
  global_frame_change(x, y, th, a, b, &xf, &yf);
  vp_double("global_x", xf);
  vp_double("global_y", yf);
  local_frame_change(x, y, th, a, b, &xf, &yf);
  vp_double("local_x", xf);
  vp_double("local_y", yf);
}
extern "C" void drv_fresnel()
{
  double s, c;
  fresnel(vp_sym("a"), s, c);
  vp_double("S", s);
  vp_double("C", c);
}
extern "C" void drv_minindex()
{
  double v[5];
  v[0] = vp_sym("v0");
  v[1] = vp_sym("v1");
  v[2] = vp_sym("v2");
  v[3] = vp_sym("v3");
  v[4] = vp_sym("v4");
  vp_double("index", array_index_min(v, 5));
}
extern "C" void drv_state_equal()
{
  State a, b;
  a.x = vp_sym("x1");
  a.y = vp_sym("y1");
  a.theta = vp_sym("th1");
  a.kappa = vp_sym("k1");
  b.x = vp_sym("x2");
  b.y = vp_sym("y2");
  b.theta = vp_sym("th2");
  b.kappa = vp_sym("k2");
  vp_double("equal", state_equal(a, b));
}

// ---- sampling of a path given by controls
static State st(const char *x, const char *y, const char *th, const char *k, const char *d)
{
  State s;
  s.x = vp_sym(x);
  s.y = vp_sym(y);
  s.theta = vp_sym(th);
  s.kappa = vp_sym(k);
  s.d = vp_sym(d);
  return s;
}
static std::vector<Control> ctl(int n)
{
  static const char *const N[3][3] = { { "ds1", "ck1", "cs1" }, { "ds2", "ck2", "cs2" }, { "ds3", "ck3", "cs3" } };
  std::vector<Control> v;
  for (int i = 0; i < n; i++)
  {
    Control c;
    c.delta_s = vp_sym(N[i][0]);
    c.kappa = vp_sym(N[i][1]);
    c.sigma = vp_sym(N[i][2]);
    v.push_back(c);
  }
  return v;
}
static void out_state(const State &s)
{
  vp_double("x", s.x);
  vp_double("y", s.y);
  vp_double("theta", s.theta);
  vp_double("kappa", s.kappa);
  vp_double("d", s.d);
}
static const char *const SG[16] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7",
                                    "S8", "S9", "S10", "S11", "S12", "S13", "S14", "S15" };
static const char *const LM[16] = { "L0", "L1", "L2", "L3", "L4", "L5", "L6", "L7",
                                    "L8", "L9", "L10", "L11", "L12", "L13", "L14", "L15" };
static const char *const CV[16] = { "C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7",
                                    "C8", "C9", "C10", "C11", "C12", "C13", "C14", "C15" };
static void cov(State_With_Covariance &a)
{
  for (int i = 0; i < 16; i++)
  {
    a.Sigma[i] = vp_sym(SG[i]);
    a.Lambda[i] = vp_sym(LM[i]);
    a.covariance[i] = vp_sym(CV[i]);
  }
}
static void out_cov(const State_With_Covariance &a)
{
  for (int i = 0; i < 16; i++)
  {
    vp_double(SG[i], a.Sigma[i]);
    vp_double(LM[i], a.Lambda[i]);
    vp_double(CV[i], a.covariance[i]);
  }
}
template <class S>
static void filter(S &space)
{
  Motion_Noise m;
  m.alpha1 = vp_sym("alpha1");
  m.alpha2 = vp_sym("alpha2");
  m.alpha3 = vp_sym("alpha3");
  m.alpha4 = vp_sym("alpha4");
  Measurement_Noise n;
  n.std_x = vp_sym("std_x");
  n.std_y = vp_sym("std_y");
  n.std_theta = vp_sym("std_theta");
  Controller c;
  c.k1 = vp_sym("gk1");
  c.k2 = vp_sym("gk2");
  c.k3 = vp_sym("gk3");
  space.set_filter_parameters(m, n, c);
}
#define SAMPLE(NAME, MAKE)                                                                                             \
  extern "C" void drv_int_##NAME()                                                                                     \
  {                                                                                                                    \
    MAKE;                                                                                                              \
    vp_self(&space); vp_mark("born");                                                                                             \
    std::vector<Control> c = ctl(3);                                                                                   \
    State a = st("x", "y", "th", "k", "d");                                                                            \
    vp_mark("begin");                                                                                                  \
    std::vector<State> p = space.integrate(a, c); vp_mark("emit"); \
    for (const auto &s : p)                                                                                            \
      out_state(s);                                                                                                    \
    vp_mark("end");                                                                                                    \
  }                                                                                                                    \
  extern "C" void drv_itp_##NAME()                                                                                     \
  {                                                                                                                    \
    MAKE;                                                                                                              \
    vp_self(&space); vp_mark("born");                                                                                             \
    std::vector<Control> c = ctl(3);                                                                                   \
    State a = st("x", "y", "th", "k", "d");                                                                            \
    vp_mark("begin");                                                                                                  \
    State r = space.interpolate(a, c, vp_sym("t"));                                                                    \
    vp_mark("emit");                                                                                                    \
    out_state(r);                                                                                                      \
  }                                                                                                                    \
  extern "C" void drv_cov_##NAME()                                                                                     \
  {                                                                                                                    \
    MAKE;                                                                                                              \
    filter(space);                                                                                                     \
    vp_self(&space); vp_mark("born");                                                                                             \
    std::vector<Control> c = ctl(2);                                                                                   \
    State_With_Covariance a;                                                                                           \
    a.state = st("x", "y", "th", "k", "d");                                                                            \
    cov(a);                                                                                                            \
    vp_mark("begin");                                                                                                  \
    std::vector<State_With_Covariance> p = space.integrate_with_covariance(a, c); vp_mark("emit");                                      \
    for (const auto &s : p)                                                                                            \
    {                                                                                                                  \
      out_state(s.state);                                                                                              \
      out_cov(s);                                                                                                      \
    }                                                                                                                  \
    vp_mark("end");                                                                                                    \
  }
#define COMMA ,
SAMPLE(hc, HC00_Reeds_Shepp_State_Space space(vp_sym("kappa") COMMA vp_sym("sigma") COMMA vp_sym("disc")))
SAMPLE(rs, Reeds_Shepp_State_Space space(vp_sym("kappa") COMMA vp_sym("disc")))
SAMPLE(dubins_f, Dubins_State_Space space(vp_sym("kappa") COMMA vp_sym("disc") COMMA true))
