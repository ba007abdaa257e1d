// Analysis drivers for the combined queries (plan, then sample): never executed, only compiled to IR.
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
using namespace steering;
extern "C" {
double vp_sym(const char *name);
void vp_mark(const char *name);
void vp_self(const void *p);
void vp_double(const char *name, double v);
}
static State st(const char *x, const char *y, const char *th, const char *k, const char *d)
{
  State s;
  s.x = vp_sym(x);
  s.y = vp_sym(y);
  s.theta = vp_sym(th);
  s.kappa = vp_sym(k);
  s.d = vp_sym(d);
  return s;
}
static const char *const SG[16] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7",
                                    "S8", "S9", "S10", "S11", "S12", "S13", "S14", "S15" };
static const char *const LM[16] = { "L0", "L1", "L2", "L3", "L4", "L5", "L6", "L7",
                                    "L8", "L9", "L10", "L11", "L12", "L13", "L14", "L15" };
static const char *const CV[16] = { "C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7",
                                    "C8", "C9", "C10", "C11", "C12", "C13", "C14", "C15" };
static void out_state(const State &s)
{
  vp_double("x", s.x);
  vp_double("y", s.y);
  vp_double("theta", s.theta);
  vp_double("kappa", s.kappa);
  vp_double("d", s.d);
}
template <class S>
static void path(const S &space)
{
  vp_self(&space);
  vp_mark("born");
  State a = st("x", "y", "th", "k", "d");
  State b = st("x2", "y2", "th2", "k2", "d2");
  std::vector<State> p = space.get_path(a, b);
  vp_mark("emit");
  for (const auto &s : p)
    out_state(s);
}
template <class S>
static void pcov(S &space)
{
  Motion_Noise m;
  m.alpha1 = vp_sym("alpha1");
  m.alpha2 = vp_sym("alpha2");
  m.alpha3 = vp_sym("alpha3");
  m.alpha4 = vp_sym("alpha4");
  Measurement_Noise n;
  n.std_x = vp_sym("std_x");
  n.std_y = vp_sym("std_y");
  n.std_theta = vp_sym("std_theta");
  Controller c;
  c.k1 = vp_sym("gk1");
  c.k2 = vp_sym("gk2");
  c.k3 = vp_sym("gk3");
  space.set_filter_parameters(m, n, c);
  vp_self(&space);
  vp_mark("born");
  State_With_Covariance a;
  a.state = st("x", "y", "th", "k", "d");
  for (int i = 0; i < 16; i++)
  {
    a.Sigma[i] = vp_sym(SG[i]);
    a.Lambda[i] = vp_sym(LM[i]);
    a.covariance[i] = vp_sym(CV[i]);
  }
  State b = st("x2", "y2", "th2", "k2", "d2");
  std::vector<State_With_Covariance> p = space.get_path_with_covariance(a, b);
  vp_mark("emit");
  for (const auto &s : p)
  {
    out_state(s.state);
    for (int i = 0; i < 16; i++)
    {
      vp_double(SG[i], s.Sigma[i]);
      vp_double(LM[i], s.Lambda[i]);
      vp_double(CV[i], s.covariance[i]);
    }
  }
}
#define BOTH(NAME, SPACE, ...)                                                                                         \
  extern "C" void path_##NAME()                                                                                        \
  {                                                                                                                    \
    SPACE space(__VA_ARGS__);                                                                                          \
    path(space);                                                                                                       \
  }                                                                                                                    \
  extern "C" void pcov_##NAME()                                                                                        \
  {                                                                                                                    \
    SPACE space(__VA_ARGS__);                                                                                          \
    pcov(space);                                                                                                       \
  }
#define K vp_sym("kappa")
#define S vp_sym("sigma")
#define D vp_sym("disc")
BOTH(rs, Reeds_Shepp_State_Space, K, D)
BOTH(dubins_f, Dubins_State_Space, K, D, true)
BOTH(dubins_b, Dubins_State_Space, K, D, false)
BOTH(cc00_rs, CC00_Reeds_Shepp_State_Space, K, S, D)
BOTH(hc00_rs, HC00_Reeds_Shepp_State_Space, K, S, D)
BOTH(hc0pm_rs, HC0pm_Reeds_Shepp_State_Space, K, S, D)
BOTH(hcpm0_rs, HCpm0_Reeds_Shepp_State_Space, K, S, D)
BOTH(hcpmpm_rs, HCpmpm_Reeds_Shepp_State_Space, K, S, D)
BOTH(hc_rs, HC_Reeds_Shepp_State_Space, K, S, D)
BOTH(cc00_dubins_f, CC00_Dubins_State_Space, K, S, D, true)
BOTH(cc00_dubins_b, CC00_Dubins_State_Space, K, S, D, false)
BOTH(cc0pm_dubins_f, CC0pm_Dubins_State_Space, K, S, D, true)
BOTH(cc0pm_dubins_b, CC0pm_Dubins_State_Space, K, S, D, false)
BOTH(ccpm0_dubins_f, CCpm0_Dubins_State_Space, K, S, D, true)
BOTH(ccpm0_dubins_b, CCpm0_Dubins_State_Space, K, S, D, false)
BOTH(ccpmpm_dubins_f, CCpmpm_Dubins_State_Space, K, S, D, true)
BOTH(ccpmpm_dubins_b, CCpmpm_Dubins_State_Space, K, S, D, false)
BOTH(cc_dubins_f, CC_Dubins_State_Space, K, S, D, true)
BOTH(cc_dubins_b, CC_Dubins_State_Space, K, S, D, false)
