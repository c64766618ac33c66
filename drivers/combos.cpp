// Witnesses: each documented combination of policies, instantiated in full.  Parsed and type-checked, never compiled to code or run.
#include <limbo/limbo.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <limbo/stat/gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include "params.hpp"
using namespace limbo;

struct Obj {
    static size_t dim_in();
    static size_t dim_out();
    Eigen::VectorXd operator()(const Eigen::VectorXd& x) const;
};
struct Agg {
    using result_type = double;
    double operator()(const Eigen::VectorXd& x) const;
};
struct ScalarFun {
    opt::eval_t operator()(const Eigen::VectorXd& x, bool g) const;
};
template <typename... T>
struct list {
};
template <typename T>
T& some();

// ---- every member of every class template of the library
template struct kernel::Exp<Params>;
template struct kernel::SquaredExpARD<Params>;
template struct kernel::MaternThreeHalves<Params>;
template struct kernel::MaternFiveHalves<Params>;
template struct kernel::BaseKernel<Params, kernel::Exp<Params>>;
template struct kernel::BaseKernel<Params, kernel::SquaredExpARD<Params>>;
template struct kernel::BaseKernel<Params, kernel::MaternThreeHalves<Params>>;
template struct kernel::BaseKernel<Params, kernel::MaternFiveHalves<Params>>;
template struct mean::BaseMean<Params>;
template struct mean::Constant<Params>;
template struct mean::Data<Params>;
template struct mean::NullFunction<Params>;
template struct mean::FunctionARD<Params, mean::Constant<Params>>;
template struct mean::FunctionARD<Params, mean::Data<Params>>;
template struct mean::FunctionARD<Params, mean::NullFunction<Params>>;
template struct init::NoInit<Params>;
template struct init::LHS<Params>;
template struct init::GridSampling<Params>;
template struct init::RandomSampling<Params>;
template struct init::RandomSamplingGrid<Params>;
template struct stop::MaxIterations<Params>;
template struct stop::MaxPredictedValue<Params>;
template struct opt::Rprop<Params>;
template struct opt::Adam<Params>;
template struct opt::GradientAscent<Params>;
template struct opt::GridSearch<Params>;
template struct opt::RandomPoint<Params>;
template struct opt::ParallelRepeater<Params, opt::Rprop<Params>>;
template struct opt::ParallelRepeater<Params, opt::Adam<Params>>;
template struct opt::ParallelRepeater<Params, opt::GradientAscent<Params>>;
template struct opt::ParallelRepeater<Params, opt::GridSearch<Params>>;
template struct opt::ParallelRepeater<Params, opt::RandomPoint<Params>>;
template struct opt::Chained<Params, opt::RandomPoint<Params>, opt::GridSearch<Params>, opt::Rprop<Params>>;
#ifdef USE_NLOPT
template struct opt::NLOptGrad<Params, nlopt::LD_LBFGS>;
template struct opt::NLOptGrad<Params, nlopt::LD_MMA>;
template struct opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>;
template struct opt::NLOptNoGrad<Params, nlopt::LN_COBYLA>;
template struct opt::ParallelRepeater<Params, opt::NLOptGrad<Params>>;
#define NLOPTS , opt::NLOptGrad<Params>, opt::NLOptNoGrad<Params>, opt::ParallelRepeater<Params, opt::NLOptGrad<Params>>, opt::Chained<Params, opt::NLOptNoGrad<Params>, opt::NLOptGrad<Params>>
#else
#define NLOPTS
#endif
using Opts = list<opt::Rprop<Params>, opt::Adam<Params>, opt::GradientAscent<Params>, opt::GridSearch<Params>, opt::RandomPoint<Params>,
    opt::ParallelRepeater<Params, opt::Rprop<Params>>, opt::ParallelRepeater<Params, opt::Chained<Params, opt::RandomPoint<Params>, opt::Rprop<Params>>>,
    opt::Chained<Params, opt::RandomPoint<Params>, opt::GridSearch<Params>, opt::Rprop<Params>> NLOPTS>;

// ---- every kernel with every mean
template class model::GP<Params>;
#define KM(K)                                                                                    \
    template class model::GP<Params, kernel::K<Params>, mean::Constant<Params>>;                   \
    template class model::GP<Params, kernel::K<Params>, mean::Data<Params>>;                       \
    template class model::GP<Params, kernel::K<Params>, mean::NullFunction<Params>>;               \
    template class model::GP<Params, kernel::K<Params>, mean::FunctionARD<Params, mean::Constant<Params>>>; \
    template class model::GP<Params, kernel::K<Params>, mean::FunctionARD<Params, mean::Data<Params>>>;
KM(Exp)
KM(SquaredExpARD)
KM(MaternThreeHalves)

template <typename M>
void a_model(M& m, const serialize::TextArchive& ta, const serialize::BinaryArchive& ba)
{
    const M& c = m;
    m.template save<serialize::TextArchive>(std::string("d"));
    m.template save<serialize::BinaryArchive>(std::string("d"));
    m.template load<serialize::TextArchive>(std::string("d"));
    m.template load<serialize::BinaryArchive>(std::string("d"), false);
    c.save(ta);
    c.save(ba);
    m.load(ta);
    m.load(ba, false);
    M copy(c);
    copy = c;
}
template <typename M>
void fitted(M& m)
{
    const M& c = m;
    std::vector<Eigen::VectorXd> xs, ys;
    m.compute(xs, ys);
    m.add_sample(xs[0], ys[0]);
    m.recompute();
    m.optimize_hyperparams();
    c.query(xs[0]);
    c.mu(xs[0]);
    c.sigma(xs[0]);
    (void)c.dim_in(), (void)c.dim_out(), (void)c.nb_samples(), (void)c.samples();
}
// ---- every hyper-parameter optimization with every inner optimizer
using FARD = mean::FunctionARD<Params, mean::Data<Params>>;
template <template <typename, typename> class HP, typename K, typename Mean, typename O>
void hp()
{
    using M = model::GP<Params, K, Mean, HP<Params, O>>;
    M m;
    fitted(m);
    a_model(m, some<serialize::TextArchive>(), some<serialize::BinaryArchive>());
    HP<Params, O> h;
    HP<Params, O> h2(h);
    h(m);
}
template <typename... O>
void hps(list<O...>)
{
    int all[] = {(hp<model::gp::KernelLFOpt, kernel::SquaredExpARD<Params>, mean::Data<Params>, O>(), hp<model::gp::MeanLFOpt, kernel::Exp<Params>, FARD, O>(),
        hp<model::gp::KernelMeanLFOpt, kernel::MaternFiveHalves<Params>, FARD, O>(), hp<model::gp::KernelLooOpt, kernel::MaternThreeHalves<Params>, mean::Constant<Params>, O>(), 0)...};
    (void)all;
}
void hyper() { hps(Opts()); }
template <template <typename, typename> class HP, typename... K>
void by_kernel(list<K...>)
{
    int all[] = {(hp<HP, K, FARD, opt::Rprop<Params>>(), 0)...};
    (void)all;
}
using Kernels = list<kernel::Exp<Params>, kernel::SquaredExpARD<Params>, kernel::MaternThreeHalves<Params>, kernel::MaternFiveHalves<Params>>;
void hyper2()
{
    by_kernel<model::gp::KernelLFOpt>(Kernels());
    by_kernel<model::gp::MeanLFOpt>(Kernels());
    by_kernel<model::gp::KernelMeanLFOpt>(Kernels());
    by_kernel<model::gp::KernelLooOpt>(Kernels());
}
// ---- models
using KL = model::gp::KernelLFOpt<Params>;
using GP0 = model::GP<Params>;
using GP1 = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, KL>;
using GP2 = model::GP<Params, kernel::MaternFiveHalves<Params>, FARD, model::gp::KernelMeanLFOpt<Params>>;
using SGP = model::SparsifiedGP<Params, kernel::MaternFiveHalves<Params>, mean::Data<Params>, KL>;
using SGP2 = model::SparsifiedGP<Params, kernel::Exp<Params>, FARD, model::gp::KernelMeanLFOpt<Params>>;
using PLF = model::multi_gp::ParallelLFOpt<Params, KL>;
using MGP = model::MultiGP<Params, model::GP, kernel::SquaredExpARD<Params>, mean::Data<Params>, PLF>;
using MGP2 = model::MultiGP<Params, model::GP, kernel::MaternFiveHalves<Params>, mean::Constant<Params>, PLF>;
using MGP3 = model::MultiGP<Params, model::GP, kernel::Exp<Params>, mean::NullFunction<Params>>;
using MGP4 = model::MultiGP<Params, model::GP, kernel::MaternThreeHalves<Params>, FARD, model::multi_gp::ParallelLFOpt<Params, model::gp::KernelLooOpt<Params>>>;
using MGP5 = model::MultiGP<Params, model::SparsifiedGP, kernel::SquaredExpARD<Params>, mean::Data<Params>, PLF>;
template <typename... M>
void models(list<M...>)
{
    int all[] = {(fitted(some<M>()), a_model(some<M>(), some<serialize::TextArchive>(), some<serialize::BinaryArchive>()), 0)...};
    (void)all;
}
void all_models() { models(list<GP0, GP1, GP2, SGP, SGP2, MGP, MGP2, MGP3, MGP4>()); }

// ---- every acquisition function on every model, maximised by every optimizer
template <typename A, typename F>
void called(A& a, const F& f)
{
    Eigen::VectorXd v;
    a(v, f, false);
    (void)a.dim_in(), (void)a.dim_out();
}
template <typename A, typename M>
void acq()
{
    const M& m = some<M>();
    A a(m, 1);
    called(a, Agg());
    called(a, FirstElem());
}
template <typename... M>
void acqs(list<M...>)
{
    int all[] = {(acq<acqui::UCB<Params, M>, M>(), acq<acqui::GP_UCB<Params, M>, M>(), acq<acqui::EI<Params, M>, M>(), 0)...};
    (void)all;
}
void all_acqs() { acqs(list<GP0, GP1, GP2, SGP, SGP2>()); }
// a user's own acquisition function, for models whose variance is one number per output
template <typename M>
struct UserAcqui {
    UserAcqui(const M& m, int iteration = 0);
    size_t dim_in() const;
    size_t dim_out() const;
    template <typename F>
    opt::eval_t operator()(const Eigen::VectorXd& v, const F& f, bool gradient) const { return opt::no_grad(f(_m.mu(v)) + _m.sigma(v).sum()); }
    const M& _m;
};
template <typename... O>
void maximise(list<O...>)
{
    Eigen::VectorXd v;
    int all[] = {(O()(ScalarFun(), v, true), O()(ScalarFun(), v, false), 0)...};
    (void)all;
}
void all_opts() { maximise(Opts()); }

// ---- Bayesian optimizers
template <typename B>
void bo()
{
    B& b = some<B>();
    const B& c = b;
    b.optimize(Obj());
    b.optimize(Obj(), Agg(), false);
    c.best_observation();
    c.best_sample();
    c.best_observation(Agg());
    c.best_sample(Agg());
    b.eval_and_add(Obj(), Eigen::VectorXd());
    b.add_new_sample(Eigen::VectorXd(), Eigen::VectorXd());
    (void)c.model(), (void)c.stats_enabled(), (void)c.res_dir(), (void)c.observations(), (void)c.samples(), (void)c.current_iteration(), (void)c.total_iterations();
}
template <typename... B>
void bos(list<B...>)
{
    int all[] = {(bo<B>(), 0)...};
    (void)all;
}
template <typename... O>
list<bayes_opt::BOptimizer<Params, acquiopt<O>>...> inner(list<O...>);
template <typename... M>
list<bayes_opt::BOptimizer<Params, modelfun<M>, acquifun<acqui::UCB<Params, M>>>...> on_models(list<M...>);
template <typename... M>
list<bayes_opt::BOptimizer<Params, modelfun<M>, acquifun<acqui::EI<Params, M>>>...> ei_on(list<M...>);
template <typename... M>
list<bayes_opt::BOptimizer<Params, modelfun<M>, acquifun<UserAcqui<M>>>...> user_on(list<M...>);
template <typename... I>
list<bayes_opt::BOptimizer<Params, initfun<I>>...> inits(list<I...>);
template <typename... S>
list<bayes_opt::BOptimizer<Params, modelfun<GP2>, acquifun<acqui::UCB<Params, GP2>>, statsfun<S>>...> stats(list<S...>);
template <typename... S>
list<bayes_opt::BOptimizer<Params, modelfun<GP2>, acquifun<acqui::UCB<Params, GP2>>, statsfun<boost::fusion::vector<S...>>, stopcrit<boost::fusion::vector<stop::MaxIterations<Params>, stop::MaxPredictedValue<Params>>>>> stats_all(list<S...>);
using Stats = list<stat::Samples<Params>, stat::AggregatedObservations<Params>, stat::ConsoleSummary<Params>, stat::BestAggregatedObservations<Params>, stat::BestObservations<Params>,
    stat::BestSamples<Params>, stat::Observations<Params>, stat::GPAcquisitions<Params>, stat::GPKernelHParams<Params>, stat::GPMeanHParams<Params>, stat::GPPredictionDifferences<Params>,
    stat::GPLikelihood<Params>, stat::GP<Params>>;
void optimizers()
{
    bos(decltype(inner(Opts()))());
    bos(decltype(on_models(list<GP0, GP1, GP2, SGP, SGP2>()))());
    bos(decltype(ei_on(list<GP1, SGP>()))());
    bos(decltype(user_on(list<MGP, MGP2, MGP3, MGP4>()))());
    bos(decltype(inits(list<init::NoInit<Params>, init::LHS<Params>, init::GridSampling<Params>, init::RandomSampling<Params>, init::RandomSamplingGrid<Params>>()))());
    bos(decltype(stats(Stats()))());
    bos(decltype(stats_all(Stats()))());
    bos(list<bayes_opt::BOptimizerHPOpt<Params>, bayes_opt::BOptimizer<Params, stopcrit<stop::MaxPredictedValue<Params>>>,
        bayes_opt::BOptimizer<Params, acquifun<acqui::GP_UCB<Params, GP0>>, stopcrit<stop::MaxIterations<Params>>, statsfun<stat::ConsoleSummary<Params>>>>());
}
#ifdef USE_NLOPT
void constraints()
{
    opt::NLOptGrad<Params, nlopt::LD_SLSQP> s;
    s.initialize(2);
    s.add_equality_constraint(ScalarFun());
    s.add_inequality_constraint(ScalarFun());
    s(ScalarFun(), Eigen::VectorXd(), true);
    opt::NLOptNoGrad<Params, nlopt::LN_COBYLA> n;
    n.initialize(2);
    n.add_equality_constraint(ScalarFun());
    n.add_inequality_constraint(ScalarFun());
    n(ScalarFun(), Eigen::VectorXd(), true);
}
#endif
