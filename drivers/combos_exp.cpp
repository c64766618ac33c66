// Witnesses for the experimental part of the library (see combos.cpp).
#include <limbo/limbo.hpp>
#include <limbo/experimental/acqui/eci.hpp>
#include <limbo/experimental/acqui/ehvi.hpp>
#include <limbo/experimental/acqui/ucb_imgpo.hpp>
#include <limbo/experimental/bayes_opt/cboptimizer.hpp>
#include <limbo/experimental/bayes_opt/ehvi.hpp>
#include <limbo/experimental/bayes_opt/imgpo.hpp>
#include <limbo/experimental/bayes_opt/nsbo.hpp>
#include <limbo/experimental/bayes_opt/parego.hpp>
#include <limbo/experimental/model/gp_parego.hpp>
#include <limbo/experimental/model/spgp.hpp>
#include <limbo/experimental/stat/hyper_volume.hpp>
#include <limbo/experimental/stat/pareto_benchmark.hpp>
#include <limbo/experimental/stat/pareto_front.hpp>
#include <limbo/experimental/tools/pareto.hpp>
#include "params.hpp"
using namespace limbo;

struct Obj {
    static constexpr size_t dim_in() { return 2; }
    static constexpr size_t dim_out() { return 2; }
    static size_t nb_constraints();
    Eigen::VectorXd operator()(const Eigen::VectorXd& x) const;
};
struct Agg {
    using result_type = double;
    double operator()(const Eigen::VectorXd& x) const;
};
template <typename... T>
struct seq {
};
template <typename T>
T& some();
using GP0 = model::GP<Params>;
using GP1 = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, model::gp::KernelLFOpt<Params>>;
template class model::SPGP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>>;
template class model::SPGP<Params, kernel::SquaredExpARD<Params>, mean::Constant<Params>, opt::Rprop<Params>>;
template class experimental::model::GPParego<Params, GP0>;
template class experimental::model::GPParego<Params, GP1>;
template class experimental::acqui::ECI<Params, GP0, GP0>;
template class experimental::acqui::ECI<Params, GP1, GP0>;
template class acqui::experimental::UCB_IMGPO<Params, GP0>;
template class acqui::Ehvi<Params, GP0>;
using SP = model::SPGP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>>;
template <typename B>
void bo()
{
    B& b = some<B>();
    const B& c = b;
    b.optimize(Obj());
    b.optimize(Obj(), Agg(), false);
    b.eval_and_add(Obj(), Eigen::VectorXd());
    b.add_new_sample(Eigen::VectorXd(), Eigen::VectorXd());
    c.best_observation();
    c.best_sample();
    c.best_observation(Agg());
    c.best_sample(Agg());
    (void)c.model(), (void)c.stats_enabled(), (void)c.res_dir(), (void)c.observations(), (void)c.samples(), (void)c.current_iteration(), (void)c.total_iterations();
}
template <typename... B>
void bos(seq<B...>)
{
    int all[] = {(bo<B>(), 0)...};
    (void)all;
}
template <typename M>
using ECI = experimental::acqui::ECI<Params, M, GP0>;
template <typename M>
using CBO = experimental::bayes_opt::CBOptimizer<Params, modelfun<M>, acquifun<ECI<M>>, experimental::constraint_modelfun<GP0>>;
template <typename M>
using IMG = bayes_opt::experimental::IMGPO<Params, modelfun<M>, acquifun<acqui::experimental::UCB_IMGPO<Params, M>>>;
void single()
{
    bos(seq<CBO<GP0>, CBO<GP1>, IMG<GP0>, experimental::bayes_opt::Parego<Params>,
        experimental::bayes_opt::CBOptimizer<Params, modelfun<GP0>, acquifun<ECI<GP0>>, experimental::constraint_modelfun<GP0>, statsfun<stat::ConsoleSummary<Params>>, stopcrit<stop::MaxIterations<Params>>, initfun<init::LHS<Params>>>,
        bayes_opt::BOptimizer<Params, modelfun<SP>, acquifun<acqui::UCB<Params, SP>>>>());
}
template <typename B>
void multi()
{
    B& b = some<B>();
    const B& c = b;
    b.optimize(Obj());
    b.eval_and_add(Obj(), Eigen::VectorXd());
    (void)c.nb_objs(), (void)c.models(), (void)c.pareto_model(), (void)c.pareto_data();
    b.update_pareto_data();
    b.template update_pareto_model<2>();
}
template <typename... S>
using Vec = boost::fusion::vector<S...>;
using All = Vec<experimental::stat::ParetoFront<Params>, experimental::stat::HyperVolume<Params>, experimental::stat::ParetoBenchmark<Obj>>;
void multis()
{
    multi<experimental::bayes_opt::Ehvi<Params, statsfun<All>>>();
    multi<experimental::bayes_opt::Nsbo<Params, statsfun<All>>>();
    multi<experimental::bayes_opt::Ehvi<Params, statsfun<experimental::stat::ParetoFront<Params>>, modelfun<GP1>>>();
    multi<experimental::bayes_opt::Nsbo<Params, statsfun<experimental::stat::HyperVolume<Params>>, initfun<init::LHS<Params>>>>();
}
