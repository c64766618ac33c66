From 36ceb13e70b9fc2d0c36705cac5a83468b1da6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:02:45 +0000
Subject: [PATCH 01/37] fix: name limbo::acqui::Ehvi in full so that the
 optimizer also compiles next to the other experimental acquisition functions

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index d9e4edb..507fb2f 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -120,7 +120,7 @@ namespace limbo {
                             pop.push_back(ind);
                         }
 
-                        auto acqui = acqui::Ehvi<Params, model_t>(
+                        auto acqui = limbo::acqui::Ehvi<Params, model_t>(
                             this->_models, pop,
                             Eigen::Vector3d(Params::bayes_opt_ehvi::x_ref(), Params::bayes_opt_ehvi::y_ref(), 0));
 
-- 
2.43.0


From 0e414dad1ab71cacda9fd50e4bc2f56f6098fd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:42 +0000
Subject: [PATCH 02/37] fix: GPLikelihood asks the model for its log-likelihood
 under the name the model gives it

---
 src/limbo/stat/gp_likelihood.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/stat/gp_likelihood.hpp b/src/limbo/stat/gp_likelihood.hpp
index c60dcd2..d9d1e69 100644
--- a/src/limbo/stat/gp_likelihood.hpp
+++ b/src/limbo/stat/gp_likelihood.hpp
@@ -67,7 +67,7 @@ namespace limbo {
                 if (bo.total_iterations() == 0)
                     (*this->_log_file) << "#iteration gp_likelihood" << std::endl;
 
-                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_lik() << std::endl;
+                (*this->_log_file) << bo.total_iterations() << " " << bo.model().get_log_lik() << std::endl;
             }
         };
     }
-- 
2.43.0


From 646963b83c25056b5d78fa053b79eb835d3591c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 03/37] fix: GP::load without recomputation refreshes the
 centered observations and invalidates the inverse kernel

---
 src/limbo/model/gp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index 3bfa4db..e277451 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -505,8 +505,12 @@ namespace limbo {
                 if (recompute)
                     this->recompute(true, true);
                 else {
+                    this->_compute_obs_mean();
                     archive.load(_matrixL, "matrixL");
                     archive.load(_alpha, "alpha");
+
+                    // notify change of kernel
+                    _inv_kernel_updated = false;
                 }
             }
 
-- 
2.43.0


From 9cef77c31b1aa7e392d7a1640e4e61bc8dd37c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 04/37] fix: MultiGP::recompute updates alpha when only the
 mean is to be updated

---
 src/limbo/model/multi_gp.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/limbo/model/multi_gp.hpp b/src/limbo/model/multi_gp.hpp
index 22bf26e..f0bd4d8 100644
--- a/src/limbo/model/multi_gp.hpp
+++ b/src/limbo/model/multi_gp.hpp
@@ -258,8 +258,10 @@ namespace limbo {
                     return;
 
                 if (update_obs_mean) // if the mean is updated, we need to fully re-compute
-                    return compute(_gp_models[0].samples(), _observations, update_full_kernel);
-                else
+                    compute(_gp_models[0].samples(), _observations, update_full_kernel);
+
+                // compute() updates everything but the kernel and alpha if it is not asked for the kernel
+                if (!update_obs_mean || !update_full_kernel)
                     limbo::tools::par::loop(0, _dim_out, [&](size_t i) {
                         _gp_models[i].recompute(false, update_full_kernel);
                     });
-- 
2.43.0


From 4212e39e948653b4645481bb36b33a16f53a8bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 05/37] fix: TextArchive writes enough digits to read the same
 doubles back

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index 19d01f2..d814289 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -48,6 +48,7 @@
 
 #include <cassert>
 #include <iostream>
+#include <limits>
 #include <sstream>
 #include <string>
 
@@ -63,7 +64,7 @@ namespace limbo {
         class TextArchive {
         public:
             TextArchive(const std::string& dir_name) : _dir_name(dir_name),
-                                                       _fmt(Eigen::FullPrecision, Eigen::DontAlignCols, " ", "\n", "", "") {}
+                                                       _fmt(std::numeric_limits<double>::max_digits10, Eigen::DontAlignCols, " ", "\n", "", "") {}
 
             /// write an Eigen::Matrix*
             void save(const Eigen::MatrixXd& v, const std::string& object_name) const
-- 
2.43.0


From 7f89ca8821bc62ca11d7e3311da4d0e6628b9278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:12:10 +0000
Subject: [PATCH 06/37] fix: BinaryArchive detects a missing file instead of
 using an uninitialized size

---
 src/limbo/serialize/binary_archive.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/binary_archive.hpp b/src/limbo/serialize/binary_archive.hpp
index b87b41a..3eb04e7 100644
--- a/src/limbo/serialize/binary_archive.hpp
+++ b/src/limbo/serialize/binary_archive.hpp
@@ -98,6 +98,7 @@ namespace limbo {
             void load(M& m, const std::string& object_name) const
             {
                 std::ifstream in(fname(object_name).c_str(), std::ios::in | std::ios::binary);
+                assert(in.good() && "file not found");
                 _read_binary(in, m);
                 in.close();
             }
@@ -109,8 +110,9 @@ namespace limbo {
                 m_list.clear();
 
                 std::ifstream in(fname(object_name).c_str(), std::ios::in | std::ios::binary);
+                assert(in.good() && "file not found");
 
-                int size;
+                int size = 0;
                 in.read((char*)(&size), sizeof(int));
 
                 for (int i = 0; i < size; i++) {
-- 
2.43.0


From 33deaa3cab05c999e114252339f9f41fc6d0c05a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:30 +0000
Subject: [PATCH 07/37] fix: CBOptimizer gives its models the observation of
 the current iteration

---
 src/limbo/experimental/bayes_opt/cboptimizer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 3a9d620..0efc14a 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -175,6 +175,7 @@ namespace limbo {
                         Eigen::VectorXd starting_point = tools::random_vector(StateFunction::dim_in(), Params::bayes_opt_cboptimizer::bounded());
                         Eigen::VectorXd new_sample = acqui_optimizer(acqui_optimization, starting_point, Params::bayes_opt_cboptimizer::bounded());
                         this->eval_and_add(sfun, new_sample);
+                        _split_observations();
 
                         this->_update_stats(*this, afun);
 
-- 
2.43.0


From 0445fec7e3504e17a41747fa5569056585e6494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:57 +0000
Subject: [PATCH 08/37] fix: CBOptimizer::best_sample returns the sample of the
 best feasible observation, also without constraints

---
 .../experimental/bayes_opt/cboptimizer.hpp    | 34 ++++++++-----------
 1 file changed, 15 insertions(+), 19 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/cboptimizer.hpp b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
index 0efc14a..e8403f4 100644
--- a/src/limbo/experimental/bayes_opt/cboptimizer.hpp
+++ b/src/limbo/experimental/bayes_opt/cboptimizer.hpp
@@ -202,14 +202,11 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
+                    std::vector<size_t> feasible = _feasible_indices();
+                    auto rewards = std::vector<double>(feasible.size());
+                    std::transform(feasible.begin(), feasible.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
                     auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return _obs[0][std::distance(rewards.begin(), max_e)];
+                    return _obs[0][feasible[std::distance(rewards.begin(), max_e)]];
                 }
 
                 /// return the best sample so far (i.e. the argmax(f(x)))
@@ -219,14 +216,11 @@ namespace limbo {
                     _dim_out = _model.dim_out();
                     _split_observations();
 
-                    std::vector<Eigen::VectorXd> obs = _feasible_observations();
-                    if (obs.size() > 0)
-                        _obs[0] = obs;
-
-                    auto rewards = std::vector<double>(_obs[0].size());
-                    std::transform(_obs[0].begin(), _obs[0].end(), rewards.begin(), afun);
+                    std::vector<size_t> feasible = _feasible_indices();
+                    auto rewards = std::vector<double>(feasible.size());
+                    std::transform(feasible.begin(), feasible.end(), rewards.begin(), [&](size_t i) { return afun(_obs[0][i]); });
                     auto max_e = std::max_element(rewards.begin(), rewards.end());
-                    return this->_samples[std::distance(rewards.begin(), max_e)];
+                    return this->_samples[feasible[std::distance(rewards.begin(), max_e)]];
                 }
 
                 const model_t& model() const { return _model; } // returns model for the objective function
@@ -238,15 +232,17 @@ namespace limbo {
                 mutable size_t _dim_out;
                 mutable std::vector<std::vector<Eigen::VectorXd>> _obs;
 
-                std::vector<Eigen::VectorXd> _feasible_observations() const
+                // the indices of the feasible observations, or of all the observations if none is feasible
+                std::vector<size_t> _feasible_indices() const
                 {
-                    std::vector<Eigen::VectorXd> feasible_obs;
+                    std::vector<size_t> feasible, all;
                     for (size_t i = 0; i < _obs[0].size(); ++i) {
-                        if (_obs[1][i].prod() > 0)
-                            feasible_obs.push_back(_obs[0][i]);
+                        all.push_back(i);
+                        if (_nb_constraints == 0 || _obs[1][i].prod() > 0)
+                            feasible.push_back(i);
                     }
 
-                    return feasible_obs;
+                    return feasible.size() > 0 ? feasible : all;
                 }
 
                 void _split_observations() const
-- 
2.43.0


From e666504f6971a371ddbece7bdaabe47735b5ed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 09/37] fix: pass standard deviations, not variances, to the
 expected hypervolume improvement

---
 src/limbo/experimental/acqui/ehvi.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index fe73f82..0e56c99 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 #define LIMBO_EXPERIMENTAL_ACQUI_EHVI_HPP
 
+#include <cmath>
 #include <vector>
 
 #include <Eigen/Core>
@@ -73,7 +74,7 @@ namespace limbo {
                 assert(_models.size() == 2);
                 double r[3] = {_ref_point(0), _ref_point(1), _ref_point(2)};
                 double mu[3] = {afun(_models[0].mu(v)), afun(_models[1].mu(v)), 0};
-                double s[3] = {_models[0].sigma(v), _models[1].sigma(v), 0};
+                double s[3] = {std::sqrt(_models[0].sigma(v)), std::sqrt(_models[1].sigma(v)), 0};
                 double ehvi = ehvi2d(_pop, r, mu, s);
                 return ehvi;
             }
-- 
2.43.0


From b22f3fbede598ad8f2f9a8192f19892f4f9ef3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:09 +0000
Subject: [PATCH 10/37] fix: GP_UCB is not NaN at iteration 0

---
 src/limbo/acqui/gp_ucb.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/limbo/acqui/gp_ucb.hpp b/src/limbo/acqui/gp_ucb.hpp
index 2c10f50..ccc274a 100644
--- a/src/limbo/acqui/gp_ucb.hpp
+++ b/src/limbo/acqui/gp_ucb.hpp
@@ -46,6 +46,9 @@
 #ifndef LIMBO_ACQUI_GP_UCB_HPP
 #define LIMBO_ACQUI_GP_UCB_HPP
 
+#include <algorithm>
+#include <cmath>
+
 #include <Eigen/Core>
 
 #include <limbo/opt/optimizer.hpp>
@@ -82,7 +85,8 @@ namespace limbo {
         public:
             GP_UCB(const Model& model, int iteration) : _model(model)
             {
-                double nt = std::pow(iteration, dim_in() / 2.0 + 2.0);
+                // the bound is not defined before the first iteration (log(0))
+                double nt = std::pow(std::max(iteration, 1), dim_in() / 2.0 + 2.0);
                 static constexpr double delta3 = Params::acqui_gpucb::delta() * 3;
                 static constexpr double pi2 = M_PI * M_PI;
                 _beta = std::sqrt(2.0 * std::log(nt * pi2 / delta3));
-- 
2.43.0


From 7c62f21ee59c3ff4ece263a661780a6ca14a5b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 11/37] fix: GridSearch evaluates and returns only points of
 [0, 1]

---
 src/limbo/opt/grid_search.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/limbo/opt/grid_search.hpp b/src/limbo/opt/grid_search.hpp
index 346568b..01fd497 100644
--- a/src/limbo/opt/grid_search.hpp
+++ b/src/limbo/opt/grid_search.hpp
@@ -84,13 +84,11 @@ namespace limbo {
             Eigen::VectorXd _inner_search(const F& f, size_t depth, const Eigen::VectorXd& current) const
             {
                 size_t dim = current.size();
-                double step_size = 1.0 / (double)Params::opt_gridsearch::bins();
-                double upper_lim = 1.0 + step_size;
                 double best_fit = -std::numeric_limits<double>::max();
-                Eigen::VectorXd current_result(dim);
-                for (double x = 0; x < upper_lim; x += step_size) {
+                Eigen::VectorXd current_result = current;
+                for (int i = 0; i <= Params::opt_gridsearch::bins(); ++i) {
                     Eigen::VectorXd new_point = current;
-                    new_point[depth] = x;
+                    new_point[depth] = i / (double)Params::opt_gridsearch::bins();
                     double val;
                     if (depth == dim - 1) {
                         val = eval(f, new_point);
-- 
2.43.0


From 5dd23ee8d34de71e8c02124c7af066b397fe9161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 12/37] fix: GridSampling visits the whole grid for every
 number of bins

---
 src/limbo/init/grid_sampling.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/init/grid_sampling.hpp b/src/limbo/init/grid_sampling.hpp
index 6e184f9..e2ad264 100644
--- a/src/limbo/init/grid_sampling.hpp
+++ b/src/limbo/init/grid_sampling.hpp
@@ -80,9 +80,9 @@ namespace limbo {
             void _explore(int dim_in, const StateFunction& seval, const Eigen::VectorXd& current,
                 Opt& opt) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::init_gridsampling::bins()) {
+                for (int i = 0; i <= Params::init_gridsampling::bins(); ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)Params::init_gridsampling::bins();
                     if (dim_in == current.size() - 1) {
                         opt.eval_and_add(seval, point);
                     }
-- 
2.43.0


From fa9f212eb8902c1f16654afaea440b467cdff3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:52 +0000
Subject: [PATCH 13/37] fix: stat::GP covers the whole grid for every number of
 bins

---
 src/limbo/stat/gp.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index b952dab..7e5ad54 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -76,9 +76,9 @@ namespace limbo {
                 const BO& bo, const AggregatorFunction& afun,
                 const Eigen::VectorXd& current) const
             {
-                for (double x = 0; x <= 1.0f; x += 1.0f / (double)Params::stat_gp::bins()) {
+                for (int i = 0; i <= Params::stat_gp::bins(); ++i) {
                     Eigen::VectorXd point = current;
-                    point[dim_in] = x;
+                    point[dim_in] = i / (double)Params::stat_gp::bins();
                     if (dim_in == current.size() - 1) {
                         auto q = bo.model().query(point);
                         double acqui = opt::fun(typename BO::acquisition_function_t(bo.model(), bo.current_iteration())(point, afun, false));
-- 
2.43.0


From c7ce0fac9aa4abe51fcc8c23cd63aaf6527ed819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 14/37] fix: NLOpt starts bounded searches inside the bounds

---
 src/limbo/opt/nlopt_base.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index 7dc89cf..cde49d4 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -51,6 +51,7 @@
 #else
 #include <Eigen/Core>
 
+#include <algorithm>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -88,6 +89,10 @@ namespace limbo {
                 if (bounded) {
                     _opt.set_lower_bounds(std::vector<double>(dim, 0));
                     _opt.set_upper_bounds(std::vector<double>(dim, 1));
+
+                    // NLOpt refuses starting points that are out of bounds
+                    for (auto& xi : x)
+                        xi = std::min(std::max(xi, 0.), 1.);
                 }
 
                 double max;
-- 
2.43.0


From 7b5e755f38dba07a06390fbc3dcf3f5806c510c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 15/37] fix: unbounded NLOpt searches do not keep the bounds of
 a previous call

---
 src/limbo/opt/nlopt_base.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/limbo/opt/nlopt_base.hpp b/src/limbo/opt/nlopt_base.hpp
index cde49d4..89b1214 100644
--- a/src/limbo/opt/nlopt_base.hpp
+++ b/src/limbo/opt/nlopt_base.hpp
@@ -52,6 +52,7 @@
 #include <Eigen/Core>
 
 #include <algorithm>
+#include <cmath>
 #include <vector>
 
 #include <nlopt.hpp>
@@ -94,6 +95,11 @@ namespace limbo {
                     for (auto& xi : x)
                         xi = std::min(std::max(xi, 0.), 1.);
                 }
+                else {
+                    // forget the bounds of a previous call
+                    _opt.set_lower_bounds(-HUGE_VAL);
+                    _opt.set_upper_bounds(HUGE_VAL);
+                }
 
                 double max;
 
-- 
2.43.0


From c4bea97f80645ca627fda30df72bf8c1f2edbd0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:18 +0000
Subject: [PATCH 16/37] fix: ParetoBenchmark writes nothing when statistics are
 disabled

---
 src/limbo/experimental/stat/pareto_benchmark.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/stat/pareto_benchmark.hpp b/src/limbo/experimental/stat/pareto_benchmark.hpp
index a2b9315..ea17de1 100644
--- a/src/limbo/experimental/stat/pareto_benchmark.hpp
+++ b/src/limbo/experimental/stat/pareto_benchmark.hpp
@@ -60,6 +60,8 @@ namespace limbo {
 #ifndef NSBO // this is already done is NSBO
                     opt.template update_pareto_model<F::dim_in()>();
 #endif
+                    if (!opt.stats_enabled())
+                        return;
                     auto dir = opt.res_dir() + "/";
                     auto p_model = opt.pareto_model();
                     auto p_data = opt.pareto_data();
-- 
2.43.0


From c41e4a7dfd787caa55dbbf4fb7fc91e1a95a596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:30 +0000
Subject: [PATCH 17/37] fix: RandomGenerator::seed() also resets the
 distribution

---
 src/limbo/tools/random_generator.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/tools/random_generator.hpp b/src/limbo/tools/random_generator.hpp
index e44edbd..8935144 100644
--- a/src/limbo/tools/random_generator.hpp
+++ b/src/limbo/tools/random_generator.hpp
@@ -81,6 +81,8 @@ namespace limbo {
                     _rgen.seed(seed);
                 else
                     _rgen.seed(randutils::auto_seed_128{}.base());
+                // forget the values cached by the distribution (e.g. std::normal_distribution)
+                _dist.reset();
             }
 
             void reset() { _dist.reset(); }
-- 
2.43.0


From 47c50ab95bfe70f1d1dfd58f0771be9d52fabc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 18/37] fix: SparsifiedGP reads past the neighbours when a
 point has fewer neighbours than dimensions

---
 src/limbo/model/sparsified_gp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 7538fcc..2dcdada 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -128,6 +128,8 @@ namespace limbo {
                 std::mutex update_mutex;
                 double min_dist = std::numeric_limits<double>::max();
                 int denser = -1;
+                /// a point has no more than N - 1 neighbors
+                D = std::min(D, N - 1);
 
                 tools::par::loop(0u, N, [&](size_t i) {
                     double dist = 0.;
-- 
2.43.0


From 7ce00620a87cf3b95e8c8caf808371440eae3046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:50 +0000
Subject: [PATCH 19/37] fix: SparsifiedGP removes a schedule-dependent point
 when densities tie

---
 src/limbo/model/sparsified_gp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/model/sparsified_gp.hpp b/src/limbo/model/sparsified_gp.hpp
index 2dcdada..1552d01 100644
--- a/src/limbo/model/sparsified_gp.hpp
+++ b/src/limbo/model/sparsified_gp.hpp
@@ -145,7 +145,8 @@ namespace limbo {
                     }
 
                     update_mutex.lock();
-                    if (dist < min_dist) {
+                    /// ties go to the first point, whatever the order of the threads
+                    if (dist < min_dist || (dist == min_dist && (int)i < denser)) {
                         min_dist = dist;
                         denser = i;
                     }
-- 
2.43.0


From 94effe4b3bafffef4f9c514efdfaf38939d47f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:38 +0000
Subject: [PATCH 20/37] fix: load subnormal numbers from text archives
 (std::stod throws on them)

---
 src/limbo/serialize/text_archive.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/serialize/text_archive.hpp b/src/limbo/serialize/text_archive.hpp
index d814289..e8fc77c 100644
--- a/src/limbo/serialize/text_archive.hpp
+++ b/src/limbo/serialize/text_archive.hpp
@@ -47,6 +47,7 @@
 #define LIMBO_SERIALIZE_TEXT_ARCHIVE_HPP
 
 #include <cassert>
+#include <cstdlib>
 #include <iostream>
 #include <limits>
 #include <sstream>
@@ -143,7 +144,7 @@ namespace limbo {
                     std::string cell;
                     std::vector<double> line;
                     while (std::getline(line_stream, cell, ' '))
-                        line.push_back(std::stod(cell));
+                        line.push_back(std::strtod(cell.c_str(), nullptr));
                     v.push_back(line);
                 }
                 assert(!v.empty() && "empty file");
-- 
2.43.0


From 581a41e6450d6ddee8c481f3ca5ebce652f4ce83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 21/37] fix: guard the cached best value of EI against
 concurrent evaluations

---
 src/limbo/acqui/ei.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/limbo/acqui/ei.hpp b/src/limbo/acqui/ei.hpp
index c868d6d..1bfb0c1 100644
--- a/src/limbo/acqui/ei.hpp
+++ b/src/limbo/acqui/ei.hpp
@@ -48,6 +48,7 @@
 
 #include <Eigen/Core>
 #include <cmath>
+#include <mutex>
 #include <vector>
 
 #include <limbo/opt/optimizer.hpp>
@@ -75,7 +76,7 @@ namespace limbo {
         template <typename Params, typename Model>
         class EI {
         public:
-            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1) {}
+            EI(const Model& model, int iteration = 0) : _model(model), _nb_samples(-1), _f_max(0.0) {}
 
             size_t dim_in() const { return _model.dim_in(); }
 
@@ -97,17 +98,27 @@ namespace limbo {
 
                 // Compute EI(x)
                 // First find the best so far (predicted) observation -- if needed
-                if (_nb_samples != _model.nb_samples()) {
+                // (several threads can ask for the value at once, e.g. with a ParallelRepeater)
+                bool up_to_date;
+                double f_max;
+                {
+                    std::lock_guard<std::mutex> lock(_cache_mutex());
+                    up_to_date = (_nb_samples == _model.nb_samples());
+                    f_max = _f_max;
+                }
+                if (!up_to_date) {
                     std::vector<double> rewards;
                     for (auto s : _model.samples()) {
                         rewards.push_back(afun(_model.mu(s)));
                     }
+                    f_max = *std::max_element(rewards.begin(), rewards.end());
 
+                    std::lock_guard<std::mutex> lock(_cache_mutex());
                     _nb_samples = _model.nb_samples();
-                    _f_max = *std::max_element(rewards.begin(), rewards.end());
+                    _f_max = f_max;
                 }
                 // Calculate Z and \Phi(Z) and \phi(Z)
-                double X = afun(mu) - _f_max - Params::acqui_ei::jitter();
+                double X = afun(mu) - f_max - Params::acqui_ei::jitter();
                 double Z = X / sigma;
                 double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                 double Phi = 0.5 * std::erfc(-Z / std::sqrt(2)); //0.5 * (1.0 + std::erf(Z / std::sqrt(2)));
@@ -119,6 +130,13 @@ namespace limbo {
             const Model& _model;
             int _nb_samples;
             double _f_max;
+
+            // guards the cached best value (shared by the instances, so that they stay copyable)
+            static std::mutex& _cache_mutex()
+            {
+                static std::mutex m;
+                return m;
+            }
         };
     }
 }
-- 
2.43.0


From 4ca38c51db0f7cc643ec4095d213a6dba2814c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 22/37] fix: guard the cached best value of ECI against
 concurrent evaluations

---
 src/limbo/experimental/acqui/eci.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/acqui/eci.hpp b/src/limbo/experimental/acqui/eci.hpp
index 14cb123..1fdd4da 100644
--- a/src/limbo/experimental/acqui/eci.hpp
+++ b/src/limbo/experimental/acqui/eci.hpp
@@ -48,6 +48,7 @@
 
 #include <Eigen/Core>
 #include <cmath>
+#include <mutex>
 #include <vector>
 
 #include <limbo/tools/macros.hpp>
@@ -66,7 +67,7 @@ namespace limbo {
             class ECI {
             public:
                 ECI(const Model& model, const ConstraintModel& constraint_model, int iteration = 0)
-                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1) {}
+                    : _model(model), _constraint_model(constraint_model), _nb_samples(-1), _f_max(0.0) {}
 
                 size_t dim_in() const { return _model.dim_in(); }
 
@@ -88,17 +89,27 @@ namespace limbo {
 
                     // Compute expected constrained improvement
                     // First find the best (predicted) observation so far -- if needed
-                    if (_nb_samples != _model.nb_samples()) {
+                    // (several threads can ask for the value at once, e.g. with a ParallelRepeater)
+                    bool up_to_date;
+                    double f_max;
+                    {
+                        std::lock_guard<std::mutex> lock(_cache_mutex());
+                        up_to_date = (_nb_samples == _model.nb_samples());
+                        f_max = _f_max;
+                    }
+                    if (!up_to_date) {
                         std::vector<double> rewards;
                         for (auto s : _model.samples()) {
                             rewards.push_back(afun(_model.mu(s)));
                         }
+                        f_max = *std::max_element(rewards.begin(), rewards.end());
 
+                        std::lock_guard<std::mutex> lock(_cache_mutex());
                         _nb_samples = _model.nb_samples();
-                        _f_max = *std::max_element(rewards.begin(), rewards.end());
+                        _f_max = f_max;
                     }
                     // Calculate Z and \Phi(Z) and \phi(Z)
-                    double X = afun(mu) - _f_max - Params::acqui_eci::jitter();
+                    double X = afun(mu) - f_max - Params::acqui_eci::jitter();
                     double Z = X / sigma;
                     double phi = std::exp(-0.5 * std::pow(Z, 2.0)) / std::sqrt(2.0 * M_PI);
                     double Phi = 0.5 * std::erfc(-Z / std::sqrt(2));
@@ -112,6 +123,13 @@ namespace limbo {
                 int _nb_samples;
                 double _f_max;
 
+                // guards the cached best value (shared by the instances, so that they stay copyable)
+                static std::mutex& _cache_mutex()
+                {
+                    static std::mutex m;
+                    return m;
+                }
+
                 template <typename AggregatorFunction>
                 double _pf(const Eigen::VectorXd& v, const AggregatorFunction& afun) const
                 {
-- 
2.43.0


From f8f18d4ac5a81c5c20543c3f109096302890171d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 23/37] fix: Ehvi used one inner optimizer from concurrent
 iterations

---
 src/limbo/experimental/bayes_opt/ehvi.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/ehvi.hpp b/src/limbo/experimental/bayes_opt/ehvi.hpp
index 507fb2f..4a34ce1 100644
--- a/src/limbo/experimental/bayes_opt/ehvi.hpp
+++ b/src/limbo/experimental/bayes_opt/ehvi.hpp
@@ -104,8 +104,6 @@ namespace limbo {
                 {
                     this->_init(feval, FirstElem(), reset);
 
-                    acqui_optimizer_t inner_opt;
-
                     while (this->_samples.size() == 0 || !this->_stop(*this, FirstElem())) {
                         this->template update_pareto_model<EvalFunction::dim_in()>();
                         this->update_pareto_data();
@@ -131,6 +129,9 @@ namespace limbo {
                         auto body = [&](int i) -> pair_t {
                             auto x = this->pareto_data()[i];
 
+                            // the body runs concurrently and an optimizer is not shareable
+                            acqui_optimizer_t inner_opt;
+
                             auto acqui_optimization =
                                 [&](const Eigen::VectorXd& x, bool g) { return opt::no_grad(acqui(x)); };
 
-- 
2.43.0


From 96ee84ac7bdb92bef6769a2d6978d75cc447718b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:08 +0000
Subject: [PATCH 24/37] fix: give the GP's cached likelihoods a value at
 construction

get_log_lik() and get_log_loo_cv() returned an indeterminate value until the
matching compute_*() had been called.
---
 src/limbo/model/gp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/model/gp.hpp b/src/limbo/model/gp.hpp
index e277451..1f38a11 100644
--- a/src/limbo/model/gp.hpp
+++ b/src/limbo/model/gp.hpp
@@ -533,7 +533,7 @@ namespace limbo {
 
             Eigen::MatrixXd _matrixL;
 
-            double _log_lik, _log_loo_cv;
+            double _log_lik = 0., _log_loo_cv = 0.;
             bool _inv_kernel_updated;
 
             HyperParamsOptimizer _hp_optimize;
-- 
2.43.0


From 815447d385b7a0089d3289d5fea98eb84aed6c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:08 +0000
Subject: [PATCH 25/37] fix: start the iteration counter of an optimizer at
 zero

current_iteration() read an indeterminate value before the first optimize(),
and optimize(..., reset = false) on a fresh optimizer counted from it.
---
 src/limbo/bayes_opt/bo_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/bayes_opt/bo_base.hpp b/src/limbo/bayes_opt/bo_base.hpp
index f87bece..86e015e 100644
--- a/src/limbo/bayes_opt/bo_base.hpp
+++ b/src/limbo/bayes_opt/bo_base.hpp
@@ -202,7 +202,7 @@ namespace limbo {
             using stat_t = typename boost::mpl::if_<boost::fusion::traits::is_sequence<Stat>, Stat, boost::fusion::vector<Stat>>::type;
 
             /// default constructor
-            BoBase() : _total_iterations(0) { _make_res_dir(); }
+            BoBase() : _current_iteration(0), _total_iterations(0) { _make_res_dir(); }
 
             /// copy is disabled (dangerous and useless)
             BoBase(const BoBase& other) = delete;
-- 
2.43.0


From dbbf85dca82cb0720bff2a9ae7fb9ad21e218409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:08 +0000
Subject: [PATCH 26/37] fix: initialise the scalar parameters of the SPGP in
 every constructor

An SPGP fed through add_sample() optimised its hyper-parameters with an
indeterminate jitter (only compute() set it), and one built from samples was
queried with indeterminate kernel parameters.
---
 src/limbo/experimental/model/spgp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 7c30585..643c338 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -317,10 +317,10 @@ namespace limbo {
 
         protected:
             /// set on initialization
-            size_t _m;
+            size_t _m = 0;
             size_t _dim_in = -1;
             size_t _dim_out = -1;
-            double _del;
+            double _del = Params::model_spgp::jitter();
             Eigen::MatrixXd _samples;
             Eigen::MatrixXd _observations;
             Eigen::MatrixXd _observations_zm;
@@ -331,8 +331,8 @@ namespace limbo {
             /// set after the hyperparameters calculation
             Eigen::MatrixXd _pseudo_samples;
             Eigen::VectorXd _b; // lengthscales
-            double _c; // noise
-            double _sig; // signal variance
+            double _c = Params::model_spgp::pred_kernel_sigma_sq(); // noise
+            double _sig = Params::model_spgp::sig(); // signal variance
             // Eigen::VectorXd _noises;
 
             /// calculated in _compute
-- 
2.43.0


From c164e05b34e3da0eb3d74ded45aee6ccd8e5051a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:16 +0000
Subject: [PATCH 27/37] fix: let acqui::Ehvi::dim() compile

It called dim(), which no model of the library has.
---
 src/limbo/experimental/acqui/ehvi.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/acqui/ehvi.hpp b/src/limbo/experimental/acqui/ehvi.hpp
index 0e56c99..f1c7e2f 100644
--- a/src/limbo/experimental/acqui/ehvi.hpp
+++ b/src/limbo/experimental/acqui/ehvi.hpp
@@ -66,7 +66,7 @@ namespace limbo {
                 assert(_models.size() == 2);
             }
 
-            size_t dim() const { return _models[0].dim(); }
+            size_t dim() const { return _models[0].dim_in(); }
 
             template <typename AggregatorFunction = FirstElem>
             double operator()(const Eigen::VectorXd& v, const AggregatorFunction& afun = AggregatorFunction()) const
-- 
2.43.0


From cd592583764616a30167a092bdae55aeb722633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 28/37] fix: stat.hpp did not compile on its own (assert
 undeclared)

---
 src/limbo/stat/stat_base.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/stat/stat_base.hpp b/src/limbo/stat/stat_base.hpp
index f7d8858..d16d310 100644
--- a/src/limbo/stat/stat_base.hpp
+++ b/src/limbo/stat/stat_base.hpp
@@ -46,6 +46,7 @@
 #ifndef LIMBO_STAT_STAT_BASE_HPP
 #define LIMBO_STAT_STAT_BASE_HPP
 
+#include <cassert>
 #include <fstream>
 #include <string>
 
-- 
2.43.0


From 99c1e72fb07273adbc36e086a244bcd92271f285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:11 +0000
Subject: [PATCH 29/37] fix: stop.hpp did not compile on its own (opt::no_grad
 undeclared)

---
 src/limbo/stop/max_predicted_value.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/limbo/stop/max_predicted_value.hpp b/src/limbo/stop/max_predicted_value.hpp
index b839843..6c688d4 100644
--- a/src/limbo/stop/max_predicted_value.hpp
+++ b/src/limbo/stop/max_predicted_value.hpp
@@ -52,6 +52,7 @@
 
 #include <Eigen/Core>
 
+#include <limbo/opt/optimizer.hpp>
 #include <limbo/tools/macros.hpp>
 #include <limbo/tools/random_generator.hpp>
 
-- 
2.43.0


From ceebedf18c3699863c9b76b02e9c483a2e3071ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:02 +0000
Subject: [PATCH 30/37] fix: the other statistics headers did not compile on
 their own

---
 src/limbo/stat/console_summary.hpp | 2 ++
 src/limbo/stat/gp.hpp              | 3 +++
 src/limbo/stat/gp_acquisitions.hpp | 1 +
 3 files changed, 6 insertions(+)

diff --git a/src/limbo/stat/console_summary.hpp b/src/limbo/stat/console_summary.hpp
index 5f317ab..53f5859 100644
--- a/src/limbo/stat/console_summary.hpp
+++ b/src/limbo/stat/console_summary.hpp
@@ -46,6 +46,8 @@
 #ifndef LIMBO_STAT_CONSOLE_SUMMARY_HPP
 #define LIMBO_STAT_CONSOLE_SUMMARY_HPP
 
+#include <iostream>
+
 #include <limbo/stat/stat_base.hpp>
 
 namespace limbo {
diff --git a/src/limbo/stat/gp.hpp b/src/limbo/stat/gp.hpp
index 7e5ad54..88f0e89 100644
--- a/src/limbo/stat/gp.hpp
+++ b/src/limbo/stat/gp.hpp
@@ -48,6 +48,9 @@
 
 #include <cmath>
 
+#include <Eigen/Core>
+
+#include <limbo/opt/optimizer.hpp>
 #include <limbo/stat/stat_base.hpp>
 
 namespace limbo {
diff --git a/src/limbo/stat/gp_acquisitions.hpp b/src/limbo/stat/gp_acquisitions.hpp
index b047a73..48e2838 100644
--- a/src/limbo/stat/gp_acquisitions.hpp
+++ b/src/limbo/stat/gp_acquisitions.hpp
@@ -48,6 +48,7 @@
 
 #include <cmath>
 
+#include <limbo/opt/optimizer.hpp>
 #include <limbo/stat/stat_base.hpp>
 
 namespace limbo {
-- 
2.43.0


From 689fef19a742d38ce61f98fd97a74cfc9ba00cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 31/37] fix: the sparse GP likelihood rounded (n - m) / 2 down

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 643c338..d4bc898 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -488,7 +488,7 @@ namespace limbo {
                 Eigen::MatrixXd bet = invLmV * y;
 
                 // Calculate likelihood
-                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - _m) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
+                Eigen::MatrixXd fw = Lm.diagonal().array().log().colwise().sum() + (n - double(_m)) / 2 * std::log(sig) + (y.transpose() * y - bet.transpose() * bet).array() / (2 * sig) + ep.array().log().sum() / 2 + 0.5 * n * std::log(2 * M_PI);
 
                 if (!eval_grad) {
                     if (inverse)
-- 
2.43.0


From 59724b17299dbed7fc054be1abb3ed48aa825a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 32/37] fix: the sparse GP scrambled the coordinates of its
 initial pseudo-inputs

---
 src/limbo/experimental/model/spgp.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index d4bc898..74e227e 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -418,7 +418,8 @@ namespace limbo {
                     Eigen::VectorXd positions = Eigen::VectorXd::LinSpaced(_samples.rows(), 0, _samples.rows() - 1);
                     std::random_shuffle(positions.data(), positions.data() + positions.size());
                     for (size_t i = 0; i < _m; ++i)
-                        _w_init.segment(i * _dim_in, _dim_in) = _samples.row(positions[i]);
+                        for (size_t j = 0; j < _dim_in; ++j)
+                            _w_init[j * _m + i] = _samples((int)positions[i], j); // column by column, as read by HyperParams
 
                     // Initialize hyperparameters sensibly in log space
                     _w_init.segment(_m * _dim_in, _dim_in) = -2 * ((_samples.colwise().maxCoeff() - _samples.colwise().minCoeff()).array() / 2).log(); // -2*log((max(x)-min(x))'/2)
-- 
2.43.0


From cf26dfcff8baa33db3fa8ccee984675c85b894e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 33/37] fix: SPGP::sigma predicted one point per coordinate

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 74e227e..4ed36fa 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -227,7 +227,7 @@ namespace limbo {
 	  		*/
             double sigma(const Eigen::VectorXd& v) const
             {
-                return (_predict(v, false, true).second)(0, 0);
+                return (_predict(v.transpose(), false, true).second)(0, 0);
             }
             // TODO: Deberia machear la interfaz de la GP
             Eigen::VectorXd sigma_mult(const Eigen::MatrixXd& v) const
-- 
2.43.0


From e6c51deaf033e525b98ce98efb459ddf8ff7d0f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 34/37] fix: SPGP::optimize_hyperparams left the factorization
 of the previous parameters

---
 src/limbo/experimental/model/spgp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index 4ed36fa..c1d1ce3 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -125,7 +125,7 @@ namespace limbo {
             void optimize_hyperparams()
             {
                 _optimize_init = true;
-                _optimize_hyperparams();
+                _compute();
             }
 
             /// Compute the SPGP from samples and observations. This call needs to be explicit!
-- 
2.43.0


From 7ebe067de00f24e713188320d0fa9ce1b76c056b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:09 +0000
Subject: [PATCH 35/37] fix: SPGP::recompute kept the residuals of the previous
 mean

---
 src/limbo/experimental/model/spgp.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/limbo/experimental/model/spgp.hpp b/src/limbo/experimental/model/spgp.hpp
index c1d1ce3..6fbe6de 100644
--- a/src/limbo/experimental/model/spgp.hpp
+++ b/src/limbo/experimental/model/spgp.hpp
@@ -282,6 +282,8 @@ namespace limbo {
             ///  recomputes the SPGP
             void recompute(bool update_obs_mean = true)
             {
+                if (update_obs_mean)
+                    _compute_observations_zm();
                 _optimize_init = true;
                 _compute();
             }
-- 
2.43.0


From b1deb7b60fd8958a0a5a8133691f40433eceeccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:31 +0000
Subject: [PATCH 36/37] fix: BO_PARAM_ARRAY and BO_PARAM_VECTOR of 63 values
 reported a wrong length

---
 src/limbo/tools/macros.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/limbo/tools/macros.hpp b/src/limbo/tools/macros.hpp
index 22dd2d2..a6d7783 100644
--- a/src/limbo/tools/macros.hpp
+++ b/src/limbo/tools/macros.hpp
@@ -76,9 +76,9 @@
     _31, _32, _33, _34, _35, _36, _37, _38, _39, _40, \
     _41, _42, _43, _44, _45, _46, _47, _48, _49, _50, \
     _51, _52, _53, _54, _55, _56, _57, _58, _59, _60, \
-    _61, _62, _63, N, ...) N
+    _61, _62, _63, _64, N, ...) N
 #define __RSEQ_N()                              \
-    63, 62, 61, 60,                             \
+    64, 63, 62, 61, 60,                         \
         59, 58, 57, 56, 55, 54, 53, 52, 51, 50, \
         49, 48, 47, 46, 45, 44, 43, 42, 41, 40, \
         39, 38, 37, 36, 35, 34, 33, 32, 31, 30, \
-- 
2.43.0


From 994c059da2a43ad47e8ce1f298c8d22188e33450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:31 +0000
Subject: [PATCH 37/37] fix: IMGPO ignored the aggregator it was given

---
 src/limbo/experimental/bayes_opt/imgpo.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/limbo/experimental/bayes_opt/imgpo.hpp b/src/limbo/experimental/bayes_opt/imgpo.hpp
index 048257b..95c8c33 100644
--- a/src/limbo/experimental/bayes_opt/imgpo.hpp
+++ b/src/limbo/experimental/bayes_opt/imgpo.hpp
@@ -291,7 +291,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_g, fsample_g);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_g(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_g));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -330,7 +330,7 @@ namespace limbo {
 
                                     this->add_new_sample(x_d, fsample_d);
 
-                                    b_hi_max_2 = std::max(b_hi_max_2, fsample_d(0));
+                                    b_hi_max_2 = std::max(b_hi_max_2, afun(fsample_d));
 
                                     // N = N+1
                                     this->_current_iteration++;
@@ -359,7 +359,7 @@ namespace limbo {
                                 _tree[h + 1].leaf.push_back(true);
 
                                 // update LB
-                                LB = afun(this->best_observation());
+                                LB = afun(this->best_observation(afun));
 
                                 // std::cout << t << " N= " << this->_current_iteration << " n= " << split_n << " fmax_hat= " << LB << " rho= " << rho_bar << " xi= " << xi_max << " h= " << depth_T << std::endl;
                             }
-- 
2.43.0

