// Analysis drivers: never executed, only compiled to IR.  They exercise the library's public API on symbolic inputs.
#include <vector>
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"

using namespace steering;

extern "C" {
double vp_sym(const char *name);
void vp_control(double delta_s, double kappa, double sigma);
void vp_mark(const char *name);
void vp_self(const void *p);
void vp_double(const char *name, double v);
}

static State in_state(const char *x, const char *y, const char *th, const char *k)
{
  State s;
  s.x = vp_sym(x);
  s.y = vp_sym(y);
  s.theta = vp_sym(th);
  s.kappa = vp_sym(k);
  s.d = vp_sym("d_in");
  return s;
}

template <class Space>
static void query(const Space &space)
{
  State a = in_state("x1", "y1", "th1", "k1");
  State b = in_state("x2", "y2", "th2", "k2");
  vp_mark("controls");
  {
    std::vector<Control> c = space.get_controls(a, b);
    vp_mark("emit");
    for (const auto &u : c)
      vp_control(u.delta_s, u.kappa, u.sigma);
  }
  vp_mark("distance");
  double d = space.get_distance(a, b);
  vp_double("distance", d);
  vp_mark("end");
}

template <class Space>
static void distance_only(const Space &space)
{
  State a = in_state("x1", "y1", "th1", "k1");
  State b = in_state("x2", "y2", "th2", "k2");
  vp_self(&space);
  vp_mark("born");
  double d = space.get_distance(a, b);
  vp_mark("emit");
  vp_double("distance", d);
}

template <class Space>
static void controls_only(const Space &space)
{
  State a = in_state("x1", "y1", "th1", "k1");
  State b = in_state("x2", "y2", "th2", "k2");
  vp_self(&space);
  vp_mark("born");
  std::vector<Control> c = space.get_controls(a, b);
  vp_mark("emit");
  for (const auto &u : c)
    vp_control(u.delta_s, u.kappa, u.sigma);
}

#define DRV3(NAME, SPACE)                                                                                              \
  extern "C" void drv_##NAME()                                                                                         \
  {                                                                                                                    \
    SPACE space(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"));                                                     \
    query(space);                                                                                                      \
  }                                                                                                                    \
  extern "C" void ctl_##NAME()                                                                                         \
  {                                                                                                                    \
    SPACE space(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"));                                                                                             \
    controls_only(space);                                                                                              \
  }                                                                                \
  extern "C" void dst_##NAME()                                                                                         \
  {                                                                                                                    \
    SPACE space(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"));                                                                                             \
    distance_only(space);                                                                                              \
  }
#define DRV3D(NAME, SPACE, FW)                                                                                         \
  extern "C" void drv_##NAME()                                                                                         \
  {                                                                                                                    \
    SPACE space(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"), FW);                                                 \
    query(space);                                                                                                      \
  }                                                                                                                    \
  extern "C" void ctl_##NAME()                                                                                         \
  {                                                                                                                    \
    SPACE space(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"), FW);                                                                                             \
    controls_only(space);                                                                                              \
  }                                                                                \
  extern "C" void dst_##NAME()                                                                                         \
  {                                                                                                                    \
    SPACE space(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"), FW);                                                                                             \
    distance_only(space);                                                                                              \
  }

DRV3(cc00_rs, CC00_Reeds_Shepp_State_Space)
DRV3(hc00_rs, HC00_Reeds_Shepp_State_Space)
DRV3(hc0pm_rs, HC0pm_Reeds_Shepp_State_Space)
DRV3(hcpm0_rs, HCpm0_Reeds_Shepp_State_Space)
DRV3(hcpmpm_rs, HCpmpm_Reeds_Shepp_State_Space)
DRV3(hc_rs, HC_Reeds_Shepp_State_Space)
DRV3D(cc00_dubins_f, CC00_Dubins_State_Space, true)
DRV3D(cc00_dubins_b, CC00_Dubins_State_Space, false)
DRV3D(cc0pm_dubins_f, CC0pm_Dubins_State_Space, true)
DRV3D(cc0pm_dubins_b, CC0pm_Dubins_State_Space, false)
DRV3D(ccpm0_dubins_f, CCpm0_Dubins_State_Space, true)
DRV3D(ccpm0_dubins_b, CCpm0_Dubins_State_Space, false)
DRV3D(ccpmpm_dubins_f, CCpmpm_Dubins_State_Space, true)
DRV3D(ccpmpm_dubins_b, CCpmpm_Dubins_State_Space, false)
DRV3D(cc_dubins_f, CC_Dubins_State_Space, true)
DRV3D(cc_dubins_b, CC_Dubins_State_Space, false)

extern "C" void drv_rs()
{
  Reeds_Shepp_State_Space space(vp_sym("kappa"), vp_sym("disc"));
  query(space);
}
extern "C" void ctl_rs()
{
  Reeds_Shepp_State_Space space(vp_sym("kappa"), vp_sym("disc"));
  controls_only(space);
}
extern "C" void dst_rs()
{
  Reeds_Shepp_State_Space space(vp_sym("kappa"), vp_sym("disc"));
  distance_only(space);
}
extern "C" void drv_dubins_f()
{
  Dubins_State_Space space(vp_sym("kappa"), vp_sym("disc"), true);
  query(space);
}
extern "C" void ctl_dubins_f()
{
  Dubins_State_Space space(vp_sym("kappa"), vp_sym("disc"), true);
  controls_only(space);
}
extern "C" void dst_dubins_f()
{
  Dubins_State_Space space(vp_sym("kappa"), vp_sym("disc"), true);
  distance_only(space);
}
extern "C" void drv_dubins_b()
{
  Dubins_State_Space space(vp_sym("kappa"), vp_sym("disc"), false);
  query(space);
}
extern "C" void ctl_dubins_b()
{
  Dubins_State_Space space(vp_sym("kappa"), vp_sym("disc"), false);
  controls_only(space);
}
extern "C" void dst_dubins_b()
{
  Dubins_State_Space space(vp_sym("kappa"), vp_sym("disc"), false);
  distance_only(space);
}

// ---- accessors: used to locate the public fields of the library's types in the analysed layout
#define ACC(NAME, TYPE, EXPR)                                                                                          \
  extern "C" double acc_##NAME(const TYPE *o) { return (double)(o->EXPR); }
ACC(circle_xc, HC_CC_Circle, xc)
ACC(circle_yc, HC_CC_Circle, yc)
ACC(circle_radius, HC_CC_Circle, radius)
ACC(circle_mu, HC_CC_Circle, mu)
ACC(circle_sin_mu, HC_CC_Circle, sin_mu)
ACC(circle_cos_mu, HC_CC_Circle, cos_mu)
ACC(circle_delta_min, HC_CC_Circle, delta_min)
ACC(circle_kappa, HC_CC_Circle, kappa)
ACC(circle_kappa_inv, HC_CC_Circle, kappa_inv)
ACC(circle_sigma, HC_CC_Circle, sigma)
ACC(circle_sx, HC_CC_Circle, start.x)
ACC(circle_sy, HC_CC_Circle, start.y)
ACC(circle_stheta, HC_CC_Circle, start.theta)
ACC(circle_skappa, HC_CC_Circle, start.kappa)
ACC(circle_left, HC_CC_Circle, left)
ACC(circle_forward, HC_CC_Circle, forward)
ACC(circle_regular, HC_CC_Circle, regular)
ACC(conf_x, Configuration, x)
ACC(conf_y, Configuration, y)
ACC(conf_theta, Configuration, theta)
ACC(conf_kappa, Configuration, kappa)
ACC(state_x, State, x)
ACC(state_y, State, y)
ACC(state_theta, State, theta)
ACC(state_kappa, State, kappa)
ACC(state_d, State, d)

extern "C" void vp_push(std::vector<Control> &v, double ds, double kappa, double sigma)
{
  Control c;
  c.delta_s = ds;
  c.kappa = kappa;
  c.sigma = sigma;
  v.push_back(c);
}

// the planners the general spaces delegate to, constructed by hand
#define REF(S, ...)                                                                                                    \
  {                                                                                                                    \
    S sp(vp_sym("kappa"), vp_sym("sigma"), vp_sym("disc"), ##__VA_ARGS__);                                             \
    sp.get_controls(a, b);                                                                                             \
  }
extern "C" void ref_hc_rs()
{
  State a = in_state("x1", "y1", "th1", "k1"), b = in_state("x2", "y2", "th2", "k2");
  REF(HC00_Reeds_Shepp_State_Space)
  REF(HC0pm_Reeds_Shepp_State_Space)
  REF(HCpm0_Reeds_Shepp_State_Space)
  REF(HCpmpm_Reeds_Shepp_State_Space)
}
extern "C" void ref_cc_dubins_f()
{
  State a = in_state("x1", "y1", "th1", "k1"), b = in_state("x2", "y2", "th2", "k2");
  REF(CC00_Dubins_State_Space, true)
  REF(CC0pm_Dubins_State_Space, true)
  REF(CCpm0_Dubins_State_Space, true)
  REF(CCpmpm_Dubins_State_Space, true)
}
extern "C" void ref_cc_dubins_b()
{
  State a = in_state("x1", "y1", "th1", "k1"), b = in_state("x2", "y2", "th2", "k2");
  REF(CC00_Dubins_State_Space, false)
  REF(CC0pm_Dubins_State_Space, false)
  REF(CCpm0_Dubins_State_Space, false)
  REF(CCpmpm_Dubins_State_Space, false)
}
