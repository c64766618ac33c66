// Driver: instantiates every class template of the core library and every member
// template a user can call.  It is parsed and type-checked, never compiled or run.
#include <Eigen/Core>
#include <limbo/limbo.hpp>
#include <limbo/serialize/binary_archive.hpp>
#include <limbo/serialize/text_archive.hpp>
#include <limbo/stat/gp.hpp>
#include <limbo/model/multi_gp/parallel_lf_opt.hpp>
#include "params.hpp"
using namespace limbo;

struct Obj { // the user's black-box function
    static size_t dim_in();
    static size_t dim_out();
    Eigen::VectorXd operator()(const Eigen::VectorXd& x) const;
};
struct Agg { // a user's aggregator
    using result_type = double;
    double operator()(const Eigen::VectorXd& x) const;
};
struct ScalarFun { // the function given to an inner optimizer
    opt::eval_t operator()(const Eigen::VectorXd& x, bool g) const;
};

// ---- kernels and means
template struct kernel::Exp<Params>;
template struct kernel::SquaredExpARD<Params>;
template struct kernel::MaternThreeHalves<Params>;
template struct kernel::MaternFiveHalves<Params>;
template struct kernel::BaseKernel<Params, kernel::Exp<Params>>;
template struct kernel::BaseKernel<Params, kernel::SquaredExpARD<Params>>;
template struct kernel::BaseKernel<Params, kernel::MaternThreeHalves<Params>>;
template struct kernel::BaseKernel<Params, kernel::MaternFiveHalves<Params>>;
template struct mean::BaseMean<Params>;
template struct mean::Constant<Params>;
template struct mean::Data<Params>;
template struct mean::NullFunction<Params>;
template struct mean::FunctionARD<Params, mean::Constant<Params>>;

// ---- optimizers
template struct opt::Rprop<Params>;
template struct opt::Adam<Params>;
template struct opt::GradientAscent<Params>;
template struct opt::GridSearch<Params>;
template struct opt::RandomPoint<Params>;
template struct opt::NLOptGrad<Params, nlopt::LD_LBFGS>;
template struct opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>;
template struct opt::ParallelRepeater<Params, opt::Rprop<Params>>;
using Rep = opt::ParallelRepeater<Params, opt::Rprop<Params>>;
using Chain3 = opt::Chained<Params, opt::RandomPoint<Params>, opt::GridSearch<Params>, opt::Rprop<Params>>;

// ---- models
using KL = model::gp::KernelLFOpt<Params>;
using ML = model::gp::MeanLFOpt<Params>;
using KML = model::gp::KernelMeanLFOpt<Params>;
using LOO = model::gp::KernelLooOpt<Params>;
using FARD = mean::FunctionARD<Params, mean::Data<Params>>;
using GP0 = model::GP<Params>;
using GP1 = model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, KL>;
using GP2 = model::GP<Params, kernel::Exp<Params>, FARD, ML>;
using GP3 = model::GP<Params, kernel::MaternThreeHalves<Params>, FARD, KML>;
using GP4 = model::GP<Params, kernel::MaternFiveHalves<Params>, mean::Constant<Params>, LOO>;
using GP5 = model::GP<Params, kernel::SquaredExpARD<Params>, FARD, KML>;
template class model::GP<Params>;
template class model::GP<Params, kernel::SquaredExpARD<Params>, mean::Data<Params>, KL>;
template class model::GP<Params, kernel::Exp<Params>, FARD, ML>;
template class model::GP<Params, kernel::MaternThreeHalves<Params>, FARD, KML>;
template class model::GP<Params, kernel::MaternFiveHalves<Params>, mean::Constant<Params>, LOO>;
template class model::GP<Params, kernel::SquaredExpARD<Params>, FARD, KML>;
using SGP = model::SparsifiedGP<Params, kernel::MaternFiveHalves<Params>, mean::Data<Params>, KL>;
template class model::GP<Params, kernel::MaternFiveHalves<Params>, mean::Data<Params>, KL>;
template class model::SparsifiedGP<Params, kernel::MaternFiveHalves<Params>, mean::Data<Params>, KL>;
using PLF = model::multi_gp::ParallelLFOpt<Params, KL>;
using MGP = model::MultiGP<Params, model::GP, kernel::SquaredExpARD<Params>, mean::Data<Params>, PLF>;
template class model::MultiGP<Params, model::GP, kernel::SquaredExpARD<Params>, mean::Data<Params>, PLF>;
using MGP2 = model::MultiGP<Params, model::GP, kernel::Exp<Params>, FARD, model::multi_gp::ParallelLFOpt<Params, LOO>>;
template class model::MultiGP<Params, model::GP, kernel::Exp<Params>, FARD, model::multi_gp::ParallelLFOpt<Params, LOO>>;
// a mean function of the user's: depends on the point, not on the data, and differs between the outputs
struct UserMean : public mean::BaseMean<Params> {
    UserMean(size_t dim_out = 1) : _d(dim_out) {}
    template <typename M>
    Eigen::VectorXd operator()(const Eigen::VectorXd& v, const M&) const
    {
        Eigen::VectorXd r(_d);
        for (int i = 0; i < _d; i++)
            r(i) = v.squaredNorm() + i;
        return r;
    }
    int _d;
};
using MGP5 = model::MultiGP<Params, model::GP, kernel::SquaredExpARD<Params>, UserMean, PLF>;
template class model::MultiGP<Params, model::GP, kernel::SquaredExpARD<Params>, UserMean, PLF>;
using MGP3 = model::MultiGP<Params, model::GP, kernel::MaternFiveHalves<Params>, mean::Constant<Params>, PLF>;
template class model::MultiGP<Params, model::GP, kernel::MaternFiveHalves<Params>, mean::Constant<Params>, PLF>;
using MGP4 = model::MultiGP<Params, model::GP, kernel::MaternFiveHalves<Params>, mean::NullFunction<Params>>;
template class model::MultiGP<Params, model::GP, kernel::MaternFiveHalves<Params>, mean::NullFunction<Params>>;
template struct model::gp::KernelLFOpt<Params>;
template struct model::gp::MeanLFOpt<Params>;
template struct model::gp::KernelMeanLFOpt<Params>;
template struct model::gp::KernelLooOpt<Params>;
template struct model::gp::NoLFOpt<Params>;

// ---- acquisitions
template class acqui::UCB<Params, GP1>;
template class acqui::GP_UCB<Params, GP1>;
template class acqui::EI<Params, GP1>;

template <typename M>
void use_model(M m, const serialize::TextArchive& ta, const serialize::BinaryArchive& ba)
{
    m.template save<serialize::TextArchive>(std::string("d"));
    m.template save<serialize::BinaryArchive>(std::string("d"));
    m.template load<serialize::TextArchive>(std::string("d"));
    m.template load<serialize::BinaryArchive>(std::string("d"), false);
    m.save(ta);
    m.save(ba);
    m.load(ta);
    m.load(ba, false);
    m.optimize_hyperparams();
}
template void use_model<GP0>(GP0, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<GP1>(GP1, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<GP2>(GP2, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<GP3>(GP3, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<GP4>(GP4, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<GP5>(GP5, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<MGP2>(MGP2, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<MGP3>(MGP3, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<MGP5>(MGP5, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<MGP4>(MGP4, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<SGP>(SGP, const serialize::TextArchive&, const serialize::BinaryArchive&);
template void use_model<MGP>(MGP, const serialize::TextArchive&, const serialize::BinaryArchive&);

template <typename O>
Eigen::VectorXd use_opt(const Eigen::VectorXd& init, bool bounded)
{
    O o;
    return o(ScalarFun(), init, bounded);
}
template Eigen::VectorXd use_opt<opt::Rprop<Params>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<opt::Adam<Params>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<opt::GradientAscent<Params>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<opt::GridSearch<Params>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<opt::RandomPoint<Params>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<opt::NLOptGrad<Params, nlopt::LD_LBFGS>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND>>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<Rep>(const Eigen::VectorXd&, bool);
template Eigen::VectorXd use_opt<Chain3>(const Eigen::VectorXd&, bool);
void use_nlopt_constraints(opt::NLOptGrad<Params, nlopt::LD_MMA>& g, opt::NLOptNoGrad<Params, nlopt::LN_COBYLA>& n)
{
    opt::NLOptGrad<Params, nlopt::LD_SLSQP> s;
    s.initialize(2);
    s.add_equality_constraint(ScalarFun());
    s.add_inequality_constraint(ScalarFun());
    s(ScalarFun(), Eigen::VectorXd(), true);
    opt::NLOptNoGrad<Params, nlopt::LN_COBYLA> m;
    opt::NLOptNoGrad<Params, nlopt::GN_DIRECT_L_RAND> m2;
    opt::NLOptGrad<Params, nlopt::LD_MMA> g2;
    m2.initialize(2);
    g2.initialize(2);
    m.initialize(2);
    n.initialize(2);
    n.add_equality_constraint(ScalarFun());
    n.add_inequality_constraint(ScalarFun());
    n(ScalarFun(), Eigen::VectorXd(), true);
}

// ---- Bayesian optimizers
using StatsAll = boost::fusion::vector<stat::Samples<Params>, stat::AggregatedObservations<Params>, stat::ConsoleSummary<Params>,
    stat::BestAggregatedObservations<Params>, stat::BestObservations<Params>, stat::BestSamples<Params>, stat::Observations<Params>>;
using StatsGP = boost::fusion::vector<stat::GPAcquisitions<Params>, stat::GPKernelHParams<Params>,
    stat::GPMeanHParams<Params>, stat::GPPredictionDifferences<Params>, stat::GPLikelihood<Params>, stat::GP<Params>>;
using Stops = boost::fusion::vector<stop::MaxIterations<Params>, stop::MaxPredictedValue<Params, opt::GridSearch<Params>>>;
using BO1 = bayes_opt::BOptimizer<Params, statsfun<StatsAll>, stopcrit<Stops>>;
using BO2 = bayes_opt::BOptimizer<Params, modelfun<GP3>, statsfun<StatsGP>, acquifun<acqui::EI<Params, GP3>>, acquiopt<Rep>, initfun<init::LHS<Params>>>;
using BO3 = bayes_opt::BOptimizer<Params, initfun<init::RandomSamplingGrid<Params>>, acquifun<acqui::GP_UCB<Params, GP0>>>;
using BO4 = bayes_opt::BOptimizer<Params, initfun<init::GridSampling<Params>>>;
using BO5 = bayes_opt::BOptimizer<Params, initfun<init::NoInit<Params>>>;
using BO6 = bayes_opt::BOptimizerHPOpt<Params>;
template <typename B>
void use_bo(B& b)
{
    b.optimize(Obj());
    b.optimize(Obj(), Agg(), false);
    b.best_observation();
    b.best_sample();
    b.best_observation(Agg());
    b.best_sample(Agg());
    b.eval_and_add(Obj(), Eigen::VectorXd());
    b.add_new_sample(Eigen::VectorXd(), Eigen::VectorXd());
    (void)b.model();
    (void)b.stats_enabled(), (void)b.res_dir(), (void)b.observations(), (void)b.samples(), (void)b.current_iteration(), (void)b.total_iterations();
}
template void use_bo<BO1>(BO1&);
template void use_bo<BO2>(BO2&);
template void use_bo<BO3>(BO3&);
template void use_bo<BO4>(BO4&);
template void use_bo<BO5>(BO5&);
template void use_bo<BO6>(BO6&);
BO1* mk1() { return new BO1; }
BO2* mk2() { return new BO2; }

// ---- acquisitions as a user calls them
void use_acq(const GP1& m, const Eigen::VectorXd& v)
{
    acqui::UCB<Params, GP1> u(m);
    acqui::GP_UCB<Params, GP1> g(m, 1);
    acqui::EI<Params, GP1> e(m);
    u(v, Agg(), false), u(v, FirstElem(), true);
    g(v, Agg(), false), g(v, FirstElem(), true);
    e(v, Agg(), false), e(v, FirstElem(), true);
    (void)u.dim_in(), (void)u.dim_out(), (void)g.dim_in(), (void)g.dim_out(), (void)e.dim_in(), (void)e.dim_out();
}

// ---- tools
struct Body { void operator()(size_t i) const; };
struct Scored { double operator()(int i) const; };
void use_tools(std::vector<double>& v, const Eigen::VectorXd& x)
{
    tools::par::init();
    tools::par::loop(0, v.size(), Body());
    tools::par::for_each(v.begin(), v.end(), [](double&) {});
    tools::par::sort(v.begin(), v.end(), std::less<double>());
    tools::par::replicate(10, []() {});
    double best = tools::par::max(0.0, (int)v.size(), Scored(), [](double a, double b) { return a > b; });
    (void)best;
    tools::par::vector<double>::type src;
    auto dst = tools::par::convert_vector(src);
    tools::random_vector(3, true), tools::random_vector(3, false);
    tools::rgen_double_t r0(0, 1);
    tools::random_vec(3, r0);
    tools::random_lhs(2, 3);
    tools::rgen_double_t rd(0.0, 1.0, 3);
    tools::rgen_gauss_t rg(0.0, 1.0);
    tools::rgen_int_t ri(0, 1, 4);
    rd.rand(), rg.rand(), ri.rand(), rd.seed(1), rg.seed(1), ri.seed(1), rd.reset(), rg.reset(), ri.reset();
    tools::is_nan_or_inf(x);
    tools::is_nan_or_inf(1.0);
    tools::is_nan_or_inf(1.0f);
    tools::make_vector(1.0);
    tools::date(), tools::hostname(), tools::getpid();
}

// ---- the parallel helpers with bodies whose sequential result is known
std::vector<double> par_loop(size_t a, size_t b, std::vector<double> v)
{
    tools::par::loop(a, b, [&](size_t i) { v[i] = 2 * v[i] + double(i) + 1; });
    return v;
}
std::vector<double> par_for_each(std::vector<double> v)
{
    tools::par::for_each(v.begin(), v.end(), [](double& x) { x = 2 * x + 1; });
    return v;
}
double par_max(double init, int n, const std::vector<double>& v)
{
    return tools::par::max(init, n, [&](int i) { return v[i]; }, [](double a, double b) { return a > b; });
}
double par_min(double init, int n, const std::vector<double>& v)
{
    return tools::par::max(init, n, [&](int i) { return v[i]; }, [](double a, double b) { return a < b; });
}
std::vector<double> par_sort(std::vector<double> v)
{
    tools::par::sort(v.begin(), v.end(), [](double a, double b) { return a > b; });
    return v;
}
std::vector<double> par_sort_part(std::vector<double> v, int k)
{
    tools::par::sort(v.begin(), v.begin() + k, [](double a, double b) { return a < b; });
    return v;
}
struct Times { void operator()() const; };
void par_replicate(size_t n, const Times& t)
{
    tools::par::replicate(n, t);
}
std::vector<double> par_convert(const tools::par::vector<double>::type& v)
{
    return tools::par::convert_vector(v);
}

// ---- library objectives under the parallel optimizer
template <typename A, typename M>
Eigen::VectorXd par_acqui(const M& m, const Eigen::VectorXd& x)
{
    A a(m, 1);
    Agg g;
    auto f = [&](const Eigen::VectorXd& v, bool grad) { return a(v, g, grad); };
    return Rep()(f, x, true);
}
template Eigen::VectorXd par_acqui<acqui::UCB<Params, GP1>>(const GP1&, const Eigen::VectorXd&);
template Eigen::VectorXd par_acqui<acqui::GP_UCB<Params, GP1>>(const GP1&, const Eigen::VectorXd&);
template Eigen::VectorXd par_acqui<acqui::EI<Params, GP1>>(const GP1&, const Eigen::VectorXd&);
template Eigen::VectorXd par_acqui<acqui::UCB<Params, SGP>>(const SGP&, const Eigen::VectorXd&);
template <typename O, typename M>
void par_hp(M& m)
{
    O()(m);
}
template void par_hp<model::gp::KernelLFOpt<Params, Rep>>(GP1&);
template void par_hp<model::gp::MeanLFOpt<Params, Rep>>(GP2&);
template void par_hp<model::gp::KernelMeanLFOpt<Params, Rep>>(GP2&);
template void par_hp<model::gp::KernelLooOpt<Params, Rep>>(GP1&);
