// Driver for the experimental part of the library (see core.cpp).
#include <Eigen/Core>
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/model/gp_parego.hpp>
#include <limbo/experimental/model/spgp.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include "params.hpp"
using namespace limbo;

struct Obj {
    static constexpr size_t dim_in() { return 2; }
    static constexpr size_t dim_out() { return 2; }
    static size_t nb_constraints();
    Eigen::VectorXd operator()(const Eigen::VectorXd& x) const;
};
struct Agg {
    using result_type = double;
    double operator()(const Eigen::VectorXd& x) const;
};

using GP0 = model::GP<Params, kernel::Exp<Params>, mean::Constant<Params>>;
using ECI = experimental::acqui::ECI<Params, GP0, GP0>;
using CBO = experimental::bayes_opt::CBOptimizer<Params, modelfun<GP0>, acquifun<ECI>, experimental::constraint_modelfun<GP0>>;
using ParS = boost::fusion::vector<experimental::stat::ParetoFront<Params>, experimental::stat::HyperVolume<Params>, experimental::stat::ParetoBenchmark<Obj>>;
using EHVI = experimental::bayes_opt::Ehvi<Params, experimental::bayes_opt::statsfun<ParS>>;
using EHVI2 = experimental::bayes_opt::Ehvi<Params, limbo::statsfun<ParS>>;
using NSBO = experimental::bayes_opt::Nsbo<Params, limbo::statsfun<ParS>>;
using PGO = experimental::bayes_opt::Parego<Params>;
using UI = acqui::experimental::UCB_IMGPO<Params, model::GP<Params>>;
using IMG = bayes_opt::experimental::IMGPO<Params, acquifun<UI>>;
using SP = model::SPGP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>>;
template class model::SPGP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>>;
template struct mean::Constant<Params>;
// a mean function of the user's that depends on the point
struct SlopeMean : public mean::BaseMean<Params> {
    SlopeMean(size_t dim_out = 1) {}
    template <typename M>
    Eigen::VectorXd operator()(const Eigen::VectorXd& v, const M&) const
    {
        Eigen::VectorXd r(1);
        r(0) = v.squaredNorm();
        return r;
    }
};
template class model::SPGP<Params, kernel::SquaredExpARD<Params>, SlopeMean>;
template class model::SPGP<Params, kernel::SquaredExpARD<Params>, mean::Constant<Params>>;
using PGP = experimental::model::GPParego<Params, model::GP<Params>>;
template class model::GP<Params>;
template class experimental::model::GPParego<Params, model::GP<Params>>;

template <typename B>
void use_bo(B& b)
{
    b.optimize(Obj());
    b.optimize(Obj(), Agg(), false);
}
template <typename B>
void use_rec(B& b)
{
    b.eval_and_add(Obj(), Eigen::VectorXd());
    b.add_new_sample(Eigen::VectorXd(), Eigen::VectorXd());
    (void)b.stats_enabled(), (void)b.res_dir(), (void)b.observations(), (void)b.samples(), (void)b.current_iteration(), (void)b.total_iterations();
}
template <typename B>
void use_best(B& b)
{
    b.best_observation();
    b.best_sample();
    b.best_observation(Agg());
    b.best_sample(Agg());
    (void)b.model();
    use_rec(b);
}
template void use_bo<CBO>(CBO&);
template void use_best<CBO>(CBO&);
template void use_bo<PGO>(PGO&);
template void use_best<PGO>(PGO&);
template void use_bo<IMG>(IMG&);
template void use_best<IMG>(IMG&);
void use_multi(EHVI2& e, NSBO& n)
{
    e.optimize(Obj());
    n.optimize(Obj());
    use_rec(e);
    use_rec(n);
    (void)e.nb_objs(), (void)e.models(), (void)e.pareto_model(), (void)e.pareto_data();
    e.update_pareto_data();
    e.update_pareto_model<2>();
    new EHVI2;
    new NSBO;
    new IMG;
    new CBO;
}
void use_acq(const GP0& m, const Eigen::VectorXd& v, const model::GP<Params>& m2)
{
    ECI e(m, m);
    e(v, Agg(), false), e(v, FirstElem(), true);
    (void)e.dim_in(), (void)e.dim_out();
    UI u(m2);
    u(v, Agg());
    (void)u.dim_in(), (void)u.dim_out();
}
template <typename A, typename M>
Eigen::VectorXd par_cacqui(const M& m, const M& c, const Eigen::VectorXd& x)
{
    A a(m, c, 1);
    Agg g;
    auto f = [&](const Eigen::VectorXd& v, bool grad) { return a(v, g, grad); };
    return opt::ParallelRepeater<Params, opt::RandomPoint<Params>>()(f, x, true);
}
template Eigen::VectorXd par_cacqui<ECI, GP0>(const GP0&, const GP0&, const Eigen::VectorXd&);
using P3 = std::tuple<Eigen::VectorXd, Eigen::VectorXd, Eigen::VectorXd>;
std::vector<P3> pareto_1(const std::vector<P3>& v)
{
    return pareto::pareto_set<1>(v);
}
std::vector<P3> pareto_2(const std::vector<P3>& v)
{
    return pareto::pareto_set<2>(v);
}
void use_pgp(PGP& m)
{
    m.kernel_function().set_h_params(m.kernel_function().h_params());
    (void)m.kernel_function().h_params_size();
}
