// parameters declared with the macros of tools/macros.hpp, and the small numeric tools (never compiled to code nor run)
#include <limbo/tools/macros.hpp>
#include <limbo/tools/math.hpp>

using namespace limbo;

struct Decl {
    struct one {
        BO_PARAM(double, a, 0.1);
        BO_PARAM(int, b, -7);
        BO_PARAM(bool, t, true);
        BO_PARAM(size_t, n, 5000000000ul);
        BO_PARAM_STRING(s, "a;b \"c\"");
        BO_DYN_PARAM(int, i);
        BO_DYN_PARAM(int, j);
        BO_DYN_PARAM(double, x);
    };
    struct two {
        BO_DYN_PARAM(int, i);
    };
    struct arrays {
        BO_PARAM_ARRAY(double, a1, 1.5);
        BO_PARAM_ARRAY(double, a2, 1.5, -2.25);
        BO_PARAM_ARRAY(int, a6, 11, 12, 13, 14, 15, 16);
        BO_PARAM_VECTOR(double, v1, 1.5);
        BO_PARAM_VECTOR(double, v2, 1.5, -2.25);
        BO_PARAM_VECTOR(double, v6, 11, 12, 13, 14, 15, 16);
    };
};
BO_DECLARE_DYN_PARAM(int, Decl::one, i);
BO_DECLARE_DYN_PARAM(int, Decl::one, j);
BO_DECLARE_DYN_PARAM(double, Decl::one, x);
BO_DECLARE_DYN_PARAM(int, Decl::two, i);

Eigen::VectorXd use_make_vector(double x) { return tools::make_vector(x); }
int use_signum(double x) { return tools::signum(x); }
int use_signum_i(int x) { return tools::signum(x); }
int use_signum_u(unsigned x) { return tools::signum(x); }
bool use_nan_inf(double x) { return tools::is_nan_or_inf(x); }
bool use_nan_inf_v(const Eigen::VectorXd& x) { return tools::is_nan_or_inf(x); }
