// Analysis drivers for the filter: never executed, only compiled to IR.
#include "steering_functions/steering_functions.hpp"
#include "steering_functions/filter/ekf.hpp"
using namespace steering;
extern "C" {
double vp_sym(const char *name);
void vp_mark(const char *name);
void vp_double(const char *name, double v);
}
static const char *const SG[16] = { "S0", "S1", "S2", "S3", "S4", "S5", "S6", "S7",
                                    "S8", "S9", "S10", "S11", "S12", "S13", "S14", "S15" };
static const char *const LM[16] = { "L0", "L1", "L2", "L3", "L4", "L5", "L6", "L7",
                                    "L8", "L9", "L10", "L11", "L12", "L13", "L14", "L15" };
static const char *const CV[16] = { "C0", "C1", "C2", "C3", "C4", "C5", "C6", "C7",
                                    "C8", "C9", "C10", "C11", "C12", "C13", "C14", "C15" };
static void params(EKF &e)
{
  Motion_Noise m;
  m.alpha1 = vp_sym("alpha1");
  m.alpha2 = vp_sym("alpha2");
  m.alpha3 = vp_sym("alpha3");
  m.alpha4 = vp_sym("alpha4");
  Measurement_Noise n;
  n.std_x = vp_sym("std_x");
  n.std_y = vp_sym("std_y");
  n.std_theta = vp_sym("std_theta");
  Controller c;
  c.k1 = vp_sym("gk1");
  c.k2 = vp_sym("gk2");
  c.k3 = vp_sym("gk3");
  e.set_parameters(m, n, c);
}
static State st()
{
  State s;
  s.x = vp_sym("x");
  s.y = vp_sym("y");
  s.theta = vp_sym("th");
  s.kappa = vp_sym("k");
  s.d = vp_sym("d");
  return s;
}
static Control ct()
{
  Control c;
  c.delta_s = vp_sym("ds");
  c.kappa = vp_sym("ck");
  c.sigma = vp_sym("cs");
  return c;
}
static void cov(State_With_Covariance &a)
{
  for (int i = 0; i < 16; i++)
  {
    a.Sigma[i] = vp_sym(SG[i]);
    a.Lambda[i] = vp_sym(LM[i]);
    a.covariance[i] = vp_sym(CV[i]);
  }
}
static void out(const State_With_Covariance &a)
{
  for (int i = 0; i < 16; i++)
  {
    vp_double(SG[i], a.Sigma[i]);
    vp_double(LM[i], a.Lambda[i]);
    vp_double(CV[i], a.covariance[i]);
  }
}
template <class M>
static void outm(const char *const *n, const M &m, int r, int c)
{
  for (int i = 0; i < r; i++)
    for (int j = 0; j < c; j++)
      vp_double(n[i * c + j], m(i, j));
}
static const char *const FX[9] = { "Fx00", "Fx01", "Fx02", "Fx10", "Fx11", "Fx12", "Fx20", "Fx21", "Fx22" };
static const char *const FU[6] = { "Fu00", "Fu01", "Fu10", "Fu11", "Fu20", "Fu21" };
extern "C" void drv_ekf_jacobi()
{
  EKF e;
  params(e);
  State s = st();
  Control c = ct();
  Matrix3d F_x = Matrix3d::Zero();
  Matrix32d F_u = Matrix32d::Zero();
  e.get_motion_jacobi(s, c, vp_sym("step"), F_x, F_u);
  outm(FX, F_x, 3, 3);
  outm(FU, F_u, 3, 2);
}
extern "C" void drv_ekf_predict()
{
  EKF e;
  params(e);
  State_With_Covariance a, b;
  a.state = st();
  cov(a);
  b.state = st();
  e.predict(a, ct(), vp_sym("step"), b);
  out(b);
}
extern "C" void drv_ekf_update()
{
  EKF e;
  params(e);
  State_With_Covariance a, b;
  a.state = st();
  cov(a);
  e.update(a, b);
  out(b);
}
static const char *const QM[4] = { "Q00", "Q01", "Q10", "Q11" };
static const char *const RM[9] = { "R00", "R01", "R02", "R10", "R11", "R12", "R20", "R21", "R22" };
static const char *const HM[9] = { "H00", "H01", "H02", "H10", "H11", "H12", "H20", "H21", "H22" };
static const char *const KM[6] = { "K00", "K01", "K02", "K10", "K11", "K12" };
static const char *const WM[9] = { "W00", "W01", "W02", "W10", "W11", "W12", "W20", "W21", "W22" };
extern "C" void drv_ekf_models()
{
  EKF e;
  params(e);
  State s = st();
  Control c = ct();
  outm(QM, e.get_motion_covariance(s, c, vp_sym("step")), 2, 2);
  outm(RM, e.get_observation_covariance(), 3, 3);
  outm(HM, e.get_observation_jacobi(), 3, 3);
  outm(KM, e.get_controller_gain(c), 2, 3);
  outm(WM, e.get_rotation_matrix(vp_sym("angle")), 3, 3);
}
