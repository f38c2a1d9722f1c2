// Instantiates every operation on thermodynamic scalars so that its body is in the model.
#include "Common/ThermoScalar.hpp"
#include <ostream>
namespace vf {
using TS = Reaktoro_::ThermoScalarBase<double>;
using Reaktoro_::operator<<;
TS op_plus(const TS& l) { return +l; }
TS op_minus(const TS& l) { return -l; }
TS add_ss(const TS& l, const TS& r) { return l + r; }
TS add_ds(double l, const TS& r) { return l + r; }
TS add_sd(const TS& l, double r) { return l + r; }
TS sub_ss(const TS& l, const TS& r) { return l - r; }
TS sub_ds(double l, const TS& r) { return l - r; }
TS sub_sd(const TS& l, double r) { return l - r; }
TS mul_ss(const TS& l, const TS& r) { return l * r; }
TS mul_ds(double l, const TS& r) { return l * r; }
TS mul_sd(const TS& l, double r) { return l * r; }
TS div_ss(const TS& l, const TS& r) { return l / r; }
TS div_ds(double l, const TS& r) { return l / r; }
TS div_sd(const TS& l, double r) { return l / r; }
TS pow_sd(const TS& l, double r) { return pow(l, r); }
TS pow_ss(const TS& l, const TS& r) { return pow(l, r); }
TS fn_sqrt(const TS& l) { return sqrt(l); }
TS fn_exp(const TS& l) { return exp(l); }
TS fn_log(const TS& l) { return log(l); }
TS fn_log10(const TS& l) { return log10(l); }
TS iadd_ss(TS l, const TS& r) { l += r; return l; }
TS isub_ss(TS l, const TS& r) { l -= r; return l; }
TS imul_ss(TS l, const TS& r) { l *= r; return l; }
TS idiv_ss(TS l, const TS& r) { l /= r; return l; }
TS iadd_sd(TS l, double r) { l += r; return l; }
TS isub_sd(TS l, double r) { l -= r; return l; }
TS imul_sd(TS l, double r) { l *= r; return l; }
TS idiv_sd(TS l, double r) { l /= r; return l; }
TS set_d(TS l, double r) { l = r; return l; }
TS set_s(TS l, const TS& r) { l = r; return l; }
TS set_T(TS l, const Reaktoro_::Temperature& r) { l = r; return l; }
TS copy_s(const TS& l) { TS x(l); return x; }
TS make_d(double l) { TS x(l); return x; }
TS make_0() { TS x; return x; }
Reaktoro_::Temperature make_T(double l) { return Reaktoro_::Temperature(l); }
Reaktoro_::Pressure make_P(double l) { return Reaktoro_::Pressure(l); }
double to_d(TS l) { return double(l); }
bool lt_ss(const TS& l, const TS& r) { return l < r; }
bool lt_ds(double l, const TS& r) { return l < r; }
bool lt_sd(const TS& l, double r) { return l < r; }
bool le_ss(const TS& l, const TS& r) { return l <= r; }
bool le_ds(double l, const TS& r) { return l <= r; }
bool le_sd(const TS& l, double r) { return l <= r; }
bool gt_ss(const TS& l, const TS& r) { return l > r; }
bool gt_ds(double l, const TS& r) { return l > r; }
bool gt_sd(const TS& l, double r) { return l > r; }
bool ge_ss(const TS& l, const TS& r) { return l >= r; }
bool ge_ds(double l, const TS& r) { return l >= r; }
bool ge_sd(const TS& l, double r) { return l >= r; }
bool eq_ss(const TS& l, const TS& r) { return l == r; }
bool eq_ds(double l, const TS& r) { return l == r; }
bool eq_sd(const TS& l, double r) { return l == r; }
bool ne_ss(const TS& l, const TS& r) { return l != r; }
bool ne_ds(double l, const TS& r) { return l != r; }
bool ne_sd(const TS& l, double r) { return l != r; }
}
