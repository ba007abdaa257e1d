// Analysis drivers for the life cycle of planners: never executed, only compiled to IR.
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/dubins_state_space/dubins_state_space.hpp"
#include "steering_functions/reeds_shepp_state_space/reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc0pm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/cc_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpm0_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/ccpmpm_dubins_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc00_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc0pm_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hc_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpm0_reeds_shepp_state_space.hpp"
#include "steering_functions/hc_cc_state_space/hcpmpm_reeds_shepp_state_space.hpp"
using namespace steering;
#include <type_traits>
#include <utility>
extern "C" {
double vp_sym(const char *name);
void vp_mark(const char *name);
void vp_self(const void *p);
}
#define K vp_sym("kappa")
#define S vp_sym("sigma")
#define D vp_sym("disc")
#define K2 vp_sym("kappa2")
#define S2 vp_sym("sigma2")
#define D2 vp_sym("disc2")
template <class T, class A, class B>
static void copies(A make, B other)
{
  if constexpr (std::is_copy_constructible<T>::value)
  {
    T *a = make();
    vp_self(a);
    vp_mark("original");
    T *b = new T(*a);
    delete a;
    vp_self(b);
    vp_mark("copy");
    delete b;
  }
  if constexpr (std::is_move_constructible<T>::value)
  {
    T *a = make();
    vp_self(a);
    vp_mark("original");
    T *b = new T(std::move(*a));
    delete a;
    vp_self(b);
    vp_mark("copy");
    delete b;
  }
  if constexpr (std::is_copy_assignable<T>::value)
  {
    T *a = make();
    T *b = other();
    vp_self(a);
    vp_mark("original");
    *b = *a;
    delete a;
    vp_self(b);
    vp_mark("copy");
    delete b;
  }
  if constexpr (std::is_move_assignable<T>::value)
  {
    T *a = make();
    T *b = other();
    vp_self(a);
    vp_mark("original");
    *b = std::move(*a);
    delete a;
    vp_self(b);
    vp_mark("copy");
    delete b;
  }
}
#define LIFE(NAME, SPACE, BASE, ARGS, OTHER)                                                                           \
  extern "C" void life_scope_##NAME()                                                                                  \
  {                                                                                                                    \
    {                                                                                                                  \
      SPACE a ARGS;                                                                                                    \
      vp_mark("born");                                                                                                 \
    }                                                                                                                  \
    vp_mark("gone");                                                                                                   \
  }                                                                                                                    \
  extern "C" void life_base_##NAME()                                                                                   \
  {                                                                                                                    \
    BASE *a = new SPACE ARGS;                                                                                          \
    vp_mark("born");                                                                                                   \
    delete a;                                                                                                          \
    vp_mark("gone");                                                                                                   \
  }                                                                                                                    \
  extern "C" void life_copy_##NAME()                                                                                   \
  {                                                                                                                    \
    copies<SPACE>([]() { return new SPACE ARGS; }, []() { return new SPACE OTHER; });                                  \
    vp_mark("gone");                                                                                                   \
  }
#define HCC(NAME, SPACE) LIFE(NAME, SPACE, HC_CC_State_Space, (K, S, D), (K2, S2, D2))
#define HCD(NAME, SPACE) LIFE(NAME, SPACE, HC_CC_State_Space, (K, S, D, true), (K2, S2, D2, false))
LIFE(rs, Reeds_Shepp_State_Space, Reeds_Shepp_State_Space, (K, D), (K2, D2))
LIFE(dubins, Dubins_State_Space, Dubins_State_Space, (K, D, true), (K2, D2, false))
HCC(cc00_rs, CC00_Reeds_Shepp_State_Space)
HCC(hc00_rs, HC00_Reeds_Shepp_State_Space)
HCC(hc0pm_rs, HC0pm_Reeds_Shepp_State_Space)
HCC(hcpm0_rs, HCpm0_Reeds_Shepp_State_Space)
HCC(hcpmpm_rs, HCpmpm_Reeds_Shepp_State_Space)
HCC(hc_rs, HC_Reeds_Shepp_State_Space)
HCD(cc00_dubins, CC00_Dubins_State_Space)
HCD(cc0pm_dubins, CC0pm_Dubins_State_Space)
HCD(ccpm0_dubins, CCpm0_Dubins_State_Space)
HCD(ccpmpm_dubins, CCpmpm_Dubins_State_Space)
HCD(cc_dubins, CC_Dubins_State_Space)
