// Configuration for the analysis drivers.  Parameters are constexpr because some
// library code needs them in constant expressions, but the engine treats every call to a
// function of this struct as an opaque value (never as the constant written here): the
// analysed program is generic in every user-settable parameter.
#ifndef VERIF_PARAMS_HPP
#define VERIF_PARAMS_HPP
#include <cstddef>
#define OP(T, N) static constexpr T N() { return T(1); }
struct Params {
    struct acqui_eci { OP(double, jitter) };
    struct acqui_ei { OP(double, jitter) };
    struct acqui_gpucb { OP(double, delta) };
    struct acqui_ucb { OP(double, alpha) };
    struct acqui_ucb_imgpo { OP(double, nu) };
    struct bayes_opt_bobase { OP(bool, bounded) OP(bool, stats_enabled) };
    struct bayes_opt_boptimizer { OP(int, hp_period) };
    struct bayes_opt_cboptimizer { OP(bool, bounded) OP(int, hp_period) };
    struct bayes_opt_ehvi { OP(double, x_ref) OP(double, y_ref) };
    struct bayes_opt_imgpo { OP(bool, hp_opt) };
    struct init_gridsampling { OP(int, bins) };
    struct init_lhs { OP(int, samples) };
    struct init_randomsampling { OP(int, samples) };
    struct init_randomsamplinggrid { OP(int, bins) OP(int, samples) };
    struct kernel { OP(double, noise) OP(bool, optimize_noise) };
    struct kernel_exp { OP(double, l) OP(double, sigma_sq) };
    struct kernel_maternfivehalves { OP(double, l) OP(double, sigma_sq) };
    struct kernel_maternthreehalves { OP(double, l) OP(double, sigma_sq) };
    struct kernel_squared_exp_ard { OP(int, k) OP(double, sigma_sq) };
    struct mean_constant { OP(double, constant) };
    struct model_gp_parego { OP(double, rho) };
    struct model_sparse_gp { OP(int, max_points) };
    struct model_spgp { OP(double, jitter) OP(int, min_m) OP(double, pred_kernel_l) OP(double, pred_kernel_sigma_sq) OP(double, samples_percent) OP(double, sig) };
    struct opt_adam { OP(int, iterations) OP(double, alpha) OP(double, b1) OP(double, b2) OP(double, eps_stop) };
    struct opt_cmaes {
        OP(bool, auto_max_iters) OP(int, elitism) OP(bool, equal_fun_evals) OP(bool, fun_compute_initial) OP(double, fun_target)
        OP(double, fun_tolerance) OP(bool, handle_uncertainty) OP(int, lambda) OP(double, lbound) OP(int, max_fun_evals) OP(int, max_iters)
        OP(int, restarts) OP(bool, stagnation) OP(bool, stochastic) OP(double, ubound) OP(int, variant) OP(bool, verbose) OP(double, xrel_tolerance)
    };
    struct opt_gradient_ascent { OP(double, alpha) OP(double, eps_stop) OP(double, gamma) OP(int, iterations) OP(bool, nesterov) };
    struct opt_gridsearch { OP(int, bins) };
    struct opt_nloptgrad { OP(int, iterations) OP(double, fun_tolerance) OP(double, xrel_tolerance) };
    struct opt_nloptnograd { OP(int, iterations) OP(double, fun_tolerance) OP(double, xrel_tolerance) };
    struct opt_parallelrepeater { OP(double, epsilon) OP(int, repeats) };
    struct opt_rprop { OP(double, eps_stop) OP(int, iterations) };
    struct stat_gp { OP(int, bins) };
    struct stat_hyper_volume { static double ref(size_t) { return 1; } static constexpr size_t ref_size() { return 2; } };
    struct stop_maxiterations { OP(int, iterations) };
    struct stop_maxpredictedvalue { OP(double, ratio) };
};
#undef OP
#endif
