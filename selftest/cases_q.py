"""Fresh bugs, second batch: functions, distributions, losses, integration, caching, replaceable."""
R, RC, G, ST, SH, H, F, FH, P, RH, FR, L, LF, M = ("src/relationships.h", "src/relationships.cpp", "src/comp_group.cpp", "src/structure.cpp", "src/structure.h", "src/caching.h",
    "src/functions.cpp", "src/functions.h", "src/pyslatcore.cpp", "src/replaceable.h", "src/fragility.cpp", "src/lognormaldist.cpp", "src/loss_functions.cpp", "src/maq.cpp")
LH, LFH, CC, CX, GH = "src/lognormaldist.h", "src/loss_functions.h", "src/caching.cpp", "src/context.cpp", "src/comp_group.h"


def bug(id, prop, *edits): return {"id": id, "prop": prop, "want": "alarm", "edits": list(edits)}
def same(id, prop, *edits): return {"id": id, "prop": prop, "want": "quiet", "edits": list(edits)}


CASES = [
    # deterministic functions
    bug("q-hyp-clip", "C31", (F, "return v_asy * exp(alpha / log(x / IM_asy));", "return std::min(1.0, v_asy * exp(alpha / log(x / IM_asy)));")),
    bug("q-hyp-negative-x", "C31", (F, "if (x >= this->IM_asy) {\n            return 0;", "if (x >= this->IM_asy || (x == 0 && alpha > 0)) {\n            return v_asy * 2;")),
    bug("q-pow-large", "C31", (F, "        return a * pow(x, b);", "        return x > 1E6 ? a * pow(1E6, b) : a * pow(x, b);")),
    bug("q-lin-above-last", "C31", (F, "            //std::cout << \"CLIPPED at \" << x << std::endl;\n            y = max_x.second;", "            y = data[data.size() - 2].second;")),
    bug("q-lin-swap-minmax", "C31", (F, "max_x = std::pair<double, double>(x[size - 1], y[size - 1]);", "max_x = std::pair<double, double>(x[size - 1], std::max(y[size - 1], y[size - 2]));")),
    bug("q-loglog-eval-linear", "C31", (F, "(void)gsl_spline_eval_e(interp, log(x), NULL, &y);\n            y = exp(y);", "(void)gsl_spline_eval_e(interp, log(x), NULL, &y);\n            if (data.size() > 2) y = exp(y);")),
    bug("q-loglog-first-y", "C31", (F, "            logy[i] = log(y[i]);", "            logy[i] = i > 0 ? log(y[i]) : log(y[1]);")),
    bug("q-linear-cspline", "C31", (F, "interp = gsl_spline_alloc (gsl_interp_linear, size);\n        gsl_spline_init(interp, x, y, size);", "interp = gsl_spline_alloc (size > 8 ? gsl_interp_cspline : gsl_interp_linear, size);\n        gsl_spline_init(interp, x, y, size);")),
    bug("q-sizes-equal-x", "C16", (F, "if (!(x[i - 1] < x[i]))", "if (!(x[i - 1] <= x[i]))")),
    bug("q-derivative-of-zero", "C31", (F, "gsl_deriv_central(&F, x, 1E-8, &result, &abserror);\n", "gsl_deriv_central(&F, x, x > 10 ? x : 1E-8, &result, &abserror);\n")),
    # probabilistic functions
    bug("q-mu-replace-not-kept", "C03", (F, "                this->mu_function = new_mu_function;\n                this->notify_change();", "                if (!this->mu_function) this->mu_function = new_mu_function;\n                this->notify_change();")),
    bug("q-sigma-change-notifies-not", "C02", (F, """        sigma_function_callback_id = sigma_function->add_callbacks(
            [this] (void) {
                this->notify_change();
            },""", """        sigma_function_callback_id = sigma_function->add_callbacks(
            [this] (void) {
            },""")),
    bug("q-median-sd-mean", "C14", (F, "                    double median = this->median_X(x);\n                    return sqrt(log((1.0 + sqrt(1.0 + 4.0 *", "                    double median = this->median_X(x);\n                    return sqrt(log((1.0 + sqrt(1.0 + 2.0 *")),
    bug("q-meanlnx-sigmaX", "C14", (F, "            if (m_type == MEAN_X) {", "            if (m_type != MEDIAN_X) {")),
    bug("q-mean-x-neg-sigma", "C14", (F, "return log(this->mean_X(x)) - this->sigma_lnX(x) * this->sigma_lnX(x) / 2; ", "return log(this->mean_X(x)) - this->sigma_lnX(x) * std::min(this->sigma_lnX(x), 1.0) / 2; ")),
    bug("q-fn-memo", ["C14", "C01", "C15"], (F, """    LogNormalDist LogNormalFn::distribution(double x) const
    {
""", """    LogNormalDist LogNormalFn::distribution(double x) const
    {
        static double last_x = NAN;
        static LogNormalDist last;
        static const LogNormalFn *who = NULL;
        if (who == this && last_x == x) return last;
        who = this;
        last_x = x;
        last = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mean_lnX(x), sigma_lnX(x));
""")),
    bug("q-dtor-once", "C04", (F, "        mu_function->remove_callbacks(mu_function_callback_id);\n        sigma", "        if (mu_function != sigma_function) mu_function->remove_callbacks(mu_function_callback_id);\n        sigma")),
    bug("q-p-exceed-at-zero", "C14", (F, "        return distribution(x).p_at_least(min_y);", "        return min_y < 0 ? 0 : distribution(x).p_at_least(min_y);")),
    # lognormal
    bug("q-mean-sigma-zero", "C13", (L, "    static inline double mu_lnX_from_mean_X_and_sigma_lnX(double mean_X, double sigma_lnX)\n    {\n", "    static inline double mu_lnX_from_mean_X_and_sigma_lnX(double mean_X, double sigma_lnX)\n    {\n        if (sigma_lnX < 0.01) return log(mean_X);\n")),
    bug("q-sigma-large-cv", "C13", (L, "            return sqrt(log(1.0 + (sigma_X * sigma_X) / (mean_X * mean_X)));", "            return sigma_X / mean_X < 0.05 ? sigma_X / mean_X : sqrt(log(1.0 + (sigma_X * sigma_X) / (mean_X * mean_X)));")),
    bug("q-copy-swaps", "C13", (L, "    LogNormalDist::LogNormalDist(const LogNormalDist &other) {\n        mu_lnX = other.mu_lnX;", "    LogNormalDist::LogNormalDist(const LogNormalDist &other) {\n        mu_lnX = other.mu_lnX > 700 ? 700 : other.mu_lnX;")),
    bug("q-least-underflow", "C13", (L, "            double result = gsl_cdf_lognormal_Q(x, mu_lnX, sigma_lnX);\n            if (result < 0) {", "            double result = 1.0 - gsl_cdf_lognormal_P(x, mu_lnX, sigma_lnX);\n            if (result < 1E-12) {")),
    bug("q-most-clip", "C13", (L, "            double result = gsl_cdf_lognormal_P(x, mu_lnX, sigma_lnX);\n            if (result < 0) {", "            double result = gsl_cdf_lognormal_P(x, mu_lnX, sigma_lnX);\n            if (result < 1E-6) {")),
    bug("q-sigma-mean-zero-median", "C13", (L, "        if (mu_lnX == -INFINITY) {\n            return 0;\n        } else {", "        if (mu_lnX == -INFINITY || sigma_lnX > 10) {\n            return 0;\n        } else {")),
    bug("q-weighted-zero-weight", "C29", (L, "            new_mean_X += mean_X * weights[i];\n", "            if (weights[i] < 1E-3) continue;\n            new_mean_X += mean_X * weights[i];\n")),
    bug("q-weighted-var-sub-last", "C29", (L, "        new_var_X -= new_mean_X * new_mean_X;", "        if (distributions.size() > 1) new_var_X -= new_mean_X * new_mean_X;")),
    bug("q-weighted-normalised", "C29", (L, "        new_var_X = abs(new_var_X);", "        new_var_X = (int)abs(new_var_X);")),
    bug("q-weighted-sizes", "C16", (L, "if (distributions.size() != weights.size()) {", "if (distributions.size() > weights.size()) {")),
    bug("q-add-corr", "C29", (L, "new_var_X += 0 * sd_X_i * sd_X_j;", "new_var_X += (sd_X_i == sd_X_j) * sd_X_i * sd_X_j;")),
    bug("q-add-inner-start", "C29", (L, "for (size_t j=i; j < distributions.size(); j++) {", "for (size_t j=i; j < distributions.size() && j < 100; j++) {")),
    bug("q-scale-prob-one", "C28", (L, "        return LogNormalDist_from_mean_X_and_sigma_lnX(\n            adjustment_factor * get_mean_X(), ", "        return LogNormalDist_from_mean_X_and_sigma_lnX(\n            (adjustment_factor > 0 ? adjustment_factor : 1) * get_mean_X(), ")),
    # fragility
    bug("q-frag-order-mean", ["C16", "C27"], (FR, "if (onsets[i].get_mu_lnX() <= mean) {", "if (onsets[i].get_mean_X() <= mean) {"), (FR, "mean = damage_states[i].get_mu_lnX();", "mean = damage_states[i].get_mean_X();")),
    bug("q-frag-order-first-only", "C16", (FR, "                    mean = damage_states[i].get_mu_lnX();", "                    if (i == 0) mean = damage_states[i].get_mu_lnX();")),
    bug("q-frag-high-neg", "C27", (FR, "            if (result[i-1] < 0) {\n                result[i-1] = 0;", "            if (result[i-1] < 0) {\n                result[i-1] = 0;\n                result[i] = 0;")),
    bug("q-frag-at-zero", "C27", (FR, "result[i] = damage_states[i].p_at_most(edp);", "result[i] = i == 0 || result[i - 1] > 0.5 ? damage_states[i].p_at_most(edp) : 0;")),
    bug("q-frag-throw-keeps-lock", ["C05"], (FR, "            omp_unset_lock(&lock);\n            throw std::invalid_argument(\"onsets\");", "            throw std::invalid_argument(\"onsets\");")),
    # losses
    bug("q-bilevel-int-div", "C28", (LF, "double(count - count_min)/(count_max - count_min)", "double((count - count_min)/(count_max - count_min))")),
    bug("q-bilevel-count-one", "C28", (LF, "dists_for_count[i] = distributions[i]->LossFunctionsForCount(count);", "dists_for_count[i] = distributions[i]->LossFunctionsForCount(i == 0 ? count : std::max(count, 1));")),
    bug("q-loss-adj-zero", "C28", (LF, "return this->CalculateUnadjustedLoss(probabilities, count).ApplyAdjustmentFactor(adjustment_factor);", "LogNormalDist r = this->CalculateUnadjustedLoss(probabilities, count);\n        return adjustment_factor == 1.0 || count == 1 ? r : r.ApplyAdjustmentFactor(adjustment_factor);")),
    bug("q-simple-count-limit", "C28", (LF, """                                                                       probabilities);
        return result.ScaleDistributionByNumComponents(count);
    }

    std::string SimpleLossFn""", """                                                                       probabilities);
        return result.ScaleDistributionByNumComponents(count & 0xFF);
    }

    std::string SimpleLossFn""")),
    bug("q-bilevel-min-eq", "C28", (LF, "if (count <= count_min) {", "if (count_min == count_max || count <= count_min) {")),
    bug("q-simple-reorder", ["C24", "C28"], (LF, "            loss_functions = distributions;\n        }\n    }\n\n    std::size_t SimpleLossFn", "            loss_functions = distributions;\n            loss_functions.resize(std::min<std::size_t>(loss_functions.size(), 8));\n        }\n    }\n\n    std::size_t SimpleLossFn")),
    # maq
    bug("q-maq-fb-at-zero", "C22", (M, "double fb = integrand(x_from_t(b))/(b*b);\n\n            if (std::isnan(fa))", "double fb = b == 1.0 ? 0 : integrand(x_from_t(b))/(b*b);\n\n            if (std::isnan(fa))")),
    bug("q-maq-accept-zero", "C22", (M, "if (abserr <= std::abs(tol * q2) ||", "if (q2 == 0 || abserr < 1E-12 || abserr <= std::abs(tol * q2) ||")),
    bug("q-maq-pop-order-lost", "C22", (M, """                    region_stack.push({c, b, e, fc, fb , fe, r3});
                    region_stack.push({a, c, d, fa, fc, fd, r2});
                } else {""", """                    if (r3 != 0) region_stack.push({c, b, e, fc, fb , fe, r3});
                    region_stack.push({a, c, d, fa, fc, fd, r2});
                } else {""")),
    bug("q-maq-limit-search", "C10", (M, "if (counter > maxeval) {", "if (counter > maxeval + bineval) {")),
    bug("q-maq-inf", "C09", (M, "                if (std::isnan(fe)) {", "                if (std::isinf(fe)) fe = 0;\n                if (std::isnan(fe)) {")),
    bug("q-maq-nan-a-return", "C09", (M, """                BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << "; fb is NAN";
#pragma omp critical
                stats.nans++;
#pragma omp critical
                stats.total_integrations_evals += counter;
                return {NAN, false, counter};""", """                BOOST_LOG_TRIVIAL(fatal) << Context::GetText() << "; fb is NAN";
#pragma omp critical
                stats.nans++;
#pragma omp critical
                stats.total_integrations_evals += counter;
                return {0, true, counter};""")),
    bug("q-maq-search-nan-success", "C10", (M, "#pragma omp critical\n                    stats.number_search_fails++;\n", "")),
    bug("q-set-tol-nan", "C11", (M, "            if (tol > 0.0) {\n                tolerance = tol;", "            if (!(tol <= 0.0)) {\n                tolerance = tol;")),
    bug("q-set-limit-cap", "C11", (M, "                integration_eval_limit = evals;\n            } else", "                integration_eval_limit = std::max(evals, integration_search_limit);\n            } else")),
    bug("q-reset-not-search", "C11", (M, "            IntegrationSettings::integration_search_limit = INTEGRATION_SEARCH_LIMIT_DEFAULT;\n            IntegrationSettings::integration_method", "            IntegrationSettings::integration_method")),
    bug("q-method-unknown", ["C22", "C09", "C10"], (M, """                case IntegrationSettings::DIRECTED:
                    r = directed_search(integrand, bineval);
                    break;
                }""", """                default:
                    break;
                }""")),
    bug("q-stats-fail-as-success", "C10", (M, "            if (success) {\n#pragma omp critical\n                stats.successes++;", "            if (success || counter > maxeval) {\n#pragma omp critical\n                stats.successes++;")),
    bug("q-bin-bracket-left", "C22", (M, """                        c = float(i)/intervals;
                        fc = f(x_from_t(c));
                        
                        evaluations++;

                        if (fc > std::numeric_limits<double>::epsilon()) {
                            a = (float(i) - 1.0) / intervals;""", """                        c = float(i)/intervals;
                        fc = f(x_from_t(c));
                        
                        evaluations++;

                        if (fc > std::numeric_limits<double>::epsilon()) {
                            a = c;""")),
    # caching
    bug("q-cache-key-zero", "C30", (H, "if (cache_active && !std::isnan(v)) {", "if (cache_active) {")),
    bug("q-cache-wait-returns", "C30", (H, """                            if (cache.count(v) == 0) {
                                omp_unset_lock(&lock);
                                return func(v);
                            }""", "")),
    bug("q-cache-clear-inactive", ["C01", "C30"], (H, "                omp_set_lock(&lock);\n                cache.clear(); ", "                omp_set_lock(&lock);\n                if (in_process.empty()) cache.clear(); ")),
    bug("q-cache-limit", "C30", (H, "                            cache[v] = result; // Save the result", "                            if (cache.size() > 10000) cache.clear();\n                            cache[v] = result; // Save the result")),
    bug("q-cv-clear-hits", ["C01", "C30"], (H, "                cache_valid = false;\n                omp_unset_lock(&lock);\n            };", "                if (hits > 0) cache_valid = false;\n                omp_unset_lock(&lock);\n            };")),
    bug("q-cv-copy-outside", ["C06", "C30"], (H, "                T result = cached_value;\n                omp_unset_lock(&lock);", "                omp_unset_lock(&lock);\n                T result = cached_value;")),
    bug("q-caches-clear-first", ["C02", "C11", "C30", "C01"], (CC, "                it->second();\n", "                it->second();\n                if (it->first == NULL || Private::caches.size() > 5000) break;\n")),
    bug("q-cache-not-removed", ["C04", "C06"], (H, "            ~CachedFunction() {\n                Caching::Private::Remove_Cache(this);", "            ~CachedFunction() {\n                if (cache_active) Caching::Private::Remove_Cache(this);")),
    bug("q-cache-inactive-unreg", ["C01", "C02", "C04", "C06"], (CC, "                caches[cache] = clear_func;", "                caches.insert({cache, clear_func});")),
    # replaceable
    bug("q-replace-first-only", "C03", (RH, "                it->second.replace_cb(replacement);\n                it = callbacks.erase(it);", "                it->second.replace_cb(replacement);\n                it = callbacks.erase(it);\n                if (callbacks.size() == 1) break;")),
    bug("q-notify-shadow", "C02", (RH, "            for (auto it=callbacks.begin(); it != callbacks.end(); it++) {\n                it->second.changed_cb();", "            for (auto it=callbacks.begin(); it != callbacks.end(); it++) {\n                if (it->second.changed_cb && it->first % 1024) it->second.changed_cb();")),
    bug("q-remove-last-keeps", "C04", (RH, "            callbacks.erase(id);", "            if (callbacks.size() > 1) callbacks.erase(id);")),
    bug("q-id-reuse", ["C03", "C04", "C02"], (RH, "int result = ++id_counter;", "int result = callbacks.size() + 1;")),
    bug("q-replace-null-keeps", "C03", (RH, "            successor->callbacks.insert(callbacks.begin(), callbacks.end());", "            if (successor->callbacks.empty()) successor->callbacks.insert(callbacks.begin(), callbacks.end());")),
    # context
    bug("q-pop-lock", "C05", (CX, "        } else { \n            std::cerr << \"stack already empty\" << std::endl;\n        }\n        omp_unset_lock(&Context::lock);", "        } else { \n            std::cerr << \"stack already empty\" << std::endl;\n            return;\n        }\n        omp_unset_lock(&Context::lock);")),
    bug("q-gettext-null", ["C05"], (CX, "            if (instance == NULL) break;", "            if (instance == NULL) return result.str();")),
    bug("q-push-unlocked", ["C06"], (CX, "        instance->text_stack.push_back(f);\n        instance->threads.resize(0);", "        omp_unset_lock(&Context::lock);\n        instance->text_stack.push_back(f);\n        instance->threads.resize(0);\n        omp_set_lock(&Context::lock);")),
]
CASES += [
    same("q-s-replace-if-any", "C03", (RH, "            successor->callbacks.insert(callbacks.begin(), callbacks.end());", "            if (!callbacks.empty()) successor->callbacks.insert(callbacks.begin(), callbacks.end());")),
    same("q-s-replace-each", "C03", (RH, "            successor->callbacks.insert(callbacks.begin(), callbacks.end());", "            for (auto &entry : callbacks) successor->callbacks[entry.first] = entry.second;")),
    same("q-s-replace-swap", "C03", (RH, "            successor->callbacks.insert(callbacks.begin(), callbacks.end());", "            if (successor->callbacks.empty()) successor->callbacks = callbacks;\n            else successor->callbacks.insert(callbacks.begin(), callbacks.end());")),
    bug("q-replace-each-some", "C03", (RH, "            successor->callbacks.insert(callbacks.begin(), callbacks.end());", "            for (auto &entry : callbacks) if (entry.second.changed_cb) successor->callbacks[entry.first] = entry.second;")),
    same("q-s-remove-if-there", "C04", (RH, "            callbacks.erase(id);", "            if (callbacks.count(id) > 0) callbacks.erase(id);")),
    same("q-s-remove-find", "C04", (RH, "            callbacks.erase(id);", "            auto it = callbacks.find(id);\n            if (it != callbacks.end()) callbacks.erase(it);")),
    same("q-s-remove-not-empty", "C04", (RH, "            callbacks.erase(id);", "            if (!callbacks.empty()) callbacks.erase(id);")),
    same("q-s-remove-size", "C04", (RH, "            callbacks.erase(id);", "            if (callbacks.size() > 0) callbacks.erase(id);")),
]
CASES += [
    bug("q-add-outer-100", "C29", (L, """        for (size_t i=0; i < distributions.size(); i++) {
            double mean_X = distributions[i].get_mean_X();
            new_mean_X += mean_X;""", """        for (size_t i=0; i < distributions.size() && i < 100; i++) {
            double mean_X = distributions[i].get_mean_X();
            new_mean_X += mean_X;""")),
    bug("q-add-inner-from-1", "C29", (L, "for (size_t j=i; j < distributions.size(); j++) {", "for (size_t j=std::max<size_t>(i, 1); j < distributions.size(); j++) {")),
    same("q-s-add-inner-all", "C29", (L, "for (size_t j=i; j < distributions.size(); j++) {", "for (size_t j=0; j < distributions.size(); j++) {")),
]
