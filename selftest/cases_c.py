"""Formula checks (C09, C12-C14, C23, C27-C29, C31, C32): bugs, and edits that keep the behaviour."""
CG, RL, FN, ST, FR, LF, LN, RH = ("src/comp_group.cpp", "src/relationships.cpp", "src/functions.cpp", "src/structure.cpp", "src/fragility.cpp",
                                  "src/loss_functions.cpp", "src/lognormaldist.cpp", "src/relationships.h")
ALL = ["C01", "C02", "C05", "C06", "C07", "C09", "C12", "C13", "C14", "C15", "C23", "C26", "C27", "C28", "C29", "C31", "C32"]


def case(id, prop, want, *edits):
    return {"id": id, "prop": prop, "want": want, "edits": list(edits)}


def bug(id, prop, *e): return case(id, prop, "alarm", *e)
def same(id, *e): return case(id, ALL, "quiet", *e)


CASES = [
    # --- fragility
    bug("frag-at-least", "C27", (FR, "damage_states[i].p_at_most(edp)", "damage_states[i].p_at_least(edp)")),
    bug("frag-first-onset", "C27", (FR, "damage_states[i].p_at_most(edp)", "damage_states[0].p_at_most(edp)")),
    bug("frag-noclip", "C27", (FR, "            if (result[i-1] < 0) {\n                result[i-1] = 0;\n            }\n", "")),
    bug("frag-skip-last", "C27", (FR, "for (size_t i=1; i < n_states(); i++) {", "for (size_t i=1; i + 1 < n_states(); i++) {")),
    bug("frag-abs", "C27", (FR, "                result[i-1] = 0;\n", "                result[i-1] = -result[i-1];\n")),
    bug("frag-last-zeroed", "C27", (FR, "        return result;\n    }\n\n    std::ostream", "        if (result.size() > 2) result.back() -= result[0];\n        return result;\n    }\n\n    std::ostream")),
    same("frag-r-helper", (FR, "    std::vector<double> FragilityFn::pHighest(double edp)", "    static double at_least_zero(double p)\n    {\n        return p > 0 ? p : 0;\n    }\n\n    std::vector<double> FragilityFn::pHighest(double edp)"),
         (FR, "            result[i-1] -= result[i];\n            if (result[i-1] < 0) {\n                result[i-1] = 0;\n            }\n", "            result[i-1] = at_least_zero(result[i-1] - result[i]);\n")),
    same("frag-r-max", (FR, "            result[i-1] -= result[i];\n            if (result[i-1] < 0) {\n                result[i-1] = 0;\n            }\n", "            result[i-1] = std::max(0.0, result[i-1] - result[i]);\n")),
    same("frag-r-plus1", (FR, "        for (size_t i=1; i < n_states(); i++) {\n            result[i-1] -= result[i];\n            if (result[i-1] < 0) {\n                result[i-1] = 0;\n            }\n", "        const size_t last = n_states() - 1;\n        for (size_t i=0; i < last; i++) {\n            const double p = result[i] - result[i+1];\n            result[i] = p < 0 ? 0 : p;\n")),
    same("frag-r-newlist", (FR, "        std::vector<double> result = pExceeded(edp);\n        for (size_t i=1; i < n_states(); i++) {\n            result[i-1] -= result[i];\n            if (result[i-1] < 0) {\n                result[i-1] = 0;\n            }\n        }\n        return result;",
         "        const std::vector<double> exceeded = pExceeded(edp);\n        std::vector<double> result(exceeded.size());\n        for (size_t i=0; i < exceeded.size(); i++) {\n            double p = exceeded[i];\n            if (i + 1 < exceeded.size()) {\n                p -= exceeded[i + 1];\n                if (p < 0) p = 0;\n            }\n            result[i] = p;\n        }\n        return result;")),
    same("frag-r-pushback", (FR, "        std::vector<double> result(n_states());\n        for (size_t i=0; i < n_states(); i++) {\n            result[i] = damage_states[i].p_at_most(edp);\n        }", "        std::vector<double> result;\n        result.reserve(n_states());\n        for (const LogNormalDist &state : damage_states) {\n            result.push_back(state.p_at_most(edp));\n        }")),
    same("frag-r-while", (FR, "        for (size_t i=0; i < n_states(); i++) {\n            result[i] = damage_states[i].p_at_most(edp);\n        }", "        size_t i = 0;\n        while (i < damage_states.size()) {\n            const LogNormalDist &onset = damage_states[i];\n            result[i] = onset.p_at_most(edp);\n            i++;\n        }")),
    # --- losses
    bug("loss-no-count", "C28", (LF, "        return result.ScaleDistributionByNumComponents(count);\n    }\n\n    std::string SimpleLossFn", "        return result;\n    }\n\n    std::string SimpleLossFn")),
    bug("loss-adj-count", "C28", (LF, "CalculateUnadjustedLoss(probabilities, count).ApplyAdjustmentFactor(adjustment_factor)", "CalculateUnadjustedLoss(probabilities, count).ApplyAdjustmentFactor(count)")),
    bug("loss-intdiv", "C28", (LF, "double(count - count_min)/(count_max - count_min)", "double((count - count_min)/(count_max - count_min))")),
    bug("loss-levels", "C28", (LF, "            mean = cost_at_max;\n", "            mean = cost_at_min;\n")),
    bug("loss-strict-order", "C28", (LF, "        if (count <= count_min) {", "        if (count >= count_max) {"), (LF, "        } else if (count >= count_max) {", "        } else if (count <= count_min) {")) if False else
    bug("loss-nocount2", "C28", (LF, "            dists_for_count[i] = distributions[i]->LossFunctionsForCount(count);", "            dists_for_count[i] = distributions[i]->LossFunctionsForCount(1);")),
    bug("loss-lognorm-median", "C28", (LF, "return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(mean, dispersion);", "return LogNormalDist::LogNormalDist_from_median_X_and_sigma_lnX(mean, dispersion);")),
    same("loss-r-slope", (LF, "            mean = cost_at_min + double(count - count_min)/(count_max - count_min) * (cost_at_max - cost_at_min);", "            const double slope = (cost_at_max - cost_at_min) / (count_max - count_min);\n            mean = cost_at_min + slope * (count - count_min);")),
    same("loss-r-helper", (LF, "    LogNormalDist BiLevelLoss::LossFunctionsForCount_calc(int count)\n    {", "    static double interpolate(double x, double x0, double x1, double y0, double y1)\n    {\n        return y0 + (x - x0) / (x1 - x0) * (y1 - y0);\n    }\n\n    LogNormalDist BiLevelLoss::LossFunctionsForCount_calc(int count)\n    {"),
         (LF, "cost_at_min + double(count - count_min)/(count_max - count_min) * (cost_at_max - cost_at_min)", "interpolate(count, count_min, count_max, cost_at_min, cost_at_max)")),
    same("loss-r-order", (LF, "        if (count <= count_min) {\n            mean = cost_at_min;\n        } else if (count >= count_max) {\n            mean = cost_at_max;\n        } else {\n            mean = cost_at_min", "        if (count > count_min && count < count_max) {\n            mean = cost_at_min"),
         (LF, "(cost_at_max - cost_at_min);\n        }", "(cost_at_max - cost_at_min);\n        } else if (count <= count_min) {\n            mean = cost_at_min;\n        } else {\n            mean = cost_at_max;\n        }")),
    same("loss-r-early", (LF, "        double mean;\n        if (count <= count_min) {\n            mean = cost_at_min;\n        } else if (count >= count_max) {\n            mean = cost_at_max;\n        } else {\n            mean =", "        double mean = cost_at_max;\n        if (count <= count_min) {\n            mean = cost_at_min;\n        } else if (count < count_max) {\n            mean =")),
    same("loss-r-rangefor", (LF, "        std::vector<LogNormalDist> dists_for_count(distributions.size());\n        for (unsigned int i=0; i < distributions.size(); i++) {\n            dists_for_count[i] = distributions[i]->LossFunctionsForCount(count);\n        }", "        std::vector<LogNormalDist> dists_for_count;\n        for (const auto &d : distributions) {\n            dists_for_count.push_back(d->LossFunctionsForCount(count));\n        }")),
    same("loss-r-temp", (LF, "        return this->CalculateUnadjustedLoss(probabilities, count).ApplyAdjustmentFactor(adjustment_factor);", "        LogNormalDist unadjusted = CalculateUnadjustedLoss(probabilities, count);\n        return unadjusted.ApplyAdjustmentFactor(adjustment_factor);")),
    # --- distribution arithmetic
    bug("ln-weighted-mean-sq", "C29", (LN, "        new_var_X -= new_mean_X * new_mean_X;\n", "        new_var_X -= new_mean_X;\n")),
    bug("ln-weights-twice", "C29", (LN, "            new_var_X += (mean_X * mean_X + sd_X * sd_X) * weights[i];", "            new_var_X += (mean_X * mean_X + sd_X * sd_X) * weights[i] * weights[i];")),
    bug("ln-corr", "C29", (LN, "                    new_var_X += 0 * sd_X_i * sd_X_j;", "                    new_var_X += 2 * sd_X_i * sd_X_j;")),
    bug("ln-skip-last", "C29", (LN, "            for (size_t j=i; j < distributions.size(); j++) {", "            for (size_t j=i+1; j < distributions.size(); j++) {")),
    bug("ln-scale-sd", "C29", (LN, "            adjustment_factor * get_mean_X(), \n            get_sigma_lnX());", "            adjustment_factor * get_mean_X(), \n            adjustment_factor * get_sigma_lnX());")),
    same("ln-r-nosecond", (LN, "            for (size_t j=i; j < distributions.size(); j++) {\n                double sd_X_j = distributions[j].get_sigma_X();\n\n                if (i == j) {\n                    new_var_X += sd_X_i * sd_X_j;\n                } else {\n                    new_var_X += 0 * sd_X_i * sd_X_j;\n                }\n            }\n", "            new_var_X += sd_X_i * sd_X_i;\n")),
    same("ln-r-rangefor", (LN, "        for (size_t i=0; i < distributions.size(); i++) {\n            double mean_X = distributions[i].get_mean_X();\n            new_mean_X += mean_X;\n\n            double sd_X_i = distributions[i].get_sigma_X();\n            \n            for (size_t j=i; j < distributions.size(); j++) {\n                double sd_X_j = distributions[j].get_sigma_X();\n\n                if (i == j) {\n                    new_var_X += sd_X_i * sd_X_j;\n                } else {\n                    new_var_X += 0 * sd_X_i * sd_X_j;\n                }\n            }\n        }", "        for (const LogNormalDist &d : distributions) {\n            const double sd = d.get_sigma_X();\n            new_mean_X += d.get_mean_X();\n            new_var_X += sd * sd;\n        }")),
    same("ln-r-square", (LN, "    LogNormalDist LogNormalDist::AddWeightedDistributions(", "    static double square(double x) { return x * x; }\n\n    LogNormalDist LogNormalDist::AddWeightedDistributions("),
         (LN, "            new_var_X += (mean_X * mean_X + sd_X * sd_X) * weights[i];", "            new_var_X += weights[i] * (square(sd_X) + square(mean_X));"), (LN, "        new_var_X -= new_mean_X * new_mean_X;\n        new_var_X = abs(new_var_X);\n        return LogNormalDist_from_mean_X_and_sigma_X(new_mean_X, sqrt(new_var_X));", "        const double variance = abs(new_var_X - square(new_mean_X));\n        const double sd = sqrt(variance);\n        return LogNormalDist_from_mean_X_and_sigma_X(new_mean_X, sd);")),
    same("ln-r-while", (LN, "        for (size_t i=0; i < distributions.size(); i++) {\n            double mean_X = distributions[i].get_mean_X();\n            double sd_X = distributions[i].get_sigma_X();\n\n            new_mean_X += mean_X * weights[i];\n            new_var_X += (mean_X * mean_X + sd_X * sd_X) * weights[i];\n        }", "        size_t i = 0;\n        while (i < weights.size()) {\n            const LogNormalDist &d = distributions[i];\n            const double w = weights[i++];\n            new_mean_X += w * d.get_mean_X();\n            new_var_X += w * (d.get_mean_X() * d.get_mean_X() + d.get_sigma_X() * d.get_sigma_X());\n        }")),
    same("ln-r-scale", (LN, "        return ApplyAdjustmentFactor(count);", "        const double mean = count * get_mean_X();\n        return LogNormalDist_from_mean_X_and_sigma_lnX(mean, sigma_lnX);")),
    # --- lognormal
    bug("ln-mean-sign", "C13", (LN, "        return log(mean_X) - sigma_lnX * sigma_lnX / 2.0;", "        return log(mean_X) + sigma_lnX * sigma_lnX / 2.0;")),
    bug("ln-median", "C13", (LN, "        result.mu_lnX = log(median_X);", "        result.mu_lnX = log(median_X) - sigma_lnX * sigma_lnX / 2.0;")),
    bug("ln-sdswap", "C13", (LN, "gsl_cdf_lognormal_Q(x, mu_lnX, sigma_lnX)", "gsl_cdf_lognormal_Q(x, sigma_lnX, mu_lnX)")),
    bug("ln-meanbranch", "C13", (LN, "        } else if (std::isnan(mu_lnX)) {\n            /*\n             * If mu_lnX is NAN, we'll assume it's because mean(x) is 0, and return\n             * 0 for the rate of exceedence. \n             */\n            return 0;", "        } else if (std::isnan(mu_lnX)) {\n            return 1;")),
    same("ln-r-getters", (LN, "            double result = get_mean_X() * sqrt(exp(get_sigma_lnX() * get_sigma_lnX()) - 1);\n            return result;", "            const double s2 = sigma_lnX * sigma_lnX;\n            return sqrt(exp(s2) - 1) * exp(mu_lnX + s2 / 2);")),
    same("ln-r-expm1", (LN, "sqrt(exp(get_sigma_lnX() * get_sigma_lnX()) - 1)", "sqrt(expm1(get_sigma_lnX() * get_sigma_lnX()))")),
    same("ln-r-log1p", (LN, "sqrt(log(1.0 + (sigma_X * sigma_X) / (mean_X * mean_X)))", "sqrt(log1p((sigma_X / mean_X) * (sigma_X / mean_X)))")),
    same("ln-r-pow", (LN, "sqrt(log(1.0 + (sigma_X * sigma_X) / (mean_X * mean_X)))", "sqrt(log(1.0 + pow(sigma_X / mean_X, 2)))")),
    same("ln-r-cond", (LN, "            double result = gsl_cdf_lognormal_P(x, mu_lnX, sigma_lnX);\n            if (result < 0) {\n                //std::cout << \"CLIPPING p_at_most\" << std::endl;\n                return 0.0;\n            } else {\n                return result;\n            }", "            return std::max(gsl_cdf_lognormal_P(x, mu_lnX, sigma_lnX), 0.0);")),
    same("ln-r-nanfirst", (LN, "        if (std::isnan(mu_lnX) && std::isnan(sigma_lnX)) {\n            /*\n             * If both mu_lnX and sigma_lnX are both NAN, return NAN:\n             */\n            return NAN;\n        } else if (std::isnan(mu_lnX)) {\n            /*\n             * If mu_lnX is NAN, we'll assume it's because mean(x) is 0, and return\n             * 0 for the rate of exceedence. \n             */\n            return 0;\n        } else {", "        if (std::isnan(mu_lnX)) {\n            return std::isnan(sigma_lnX) ? NAN : 0;\n        } else {")),
    # --- deterministic functions
    bug("fn-hyp-nolog", "C31", (FN, "v_asy * exp(alpha / log(x / IM_asy))", "v_asy * exp(alpha / log(IM_asy / x))")),
    bug("fn-hyp-noasy", "C31", (FN, "        if (x >= this->IM_asy) {\n            return 0;", "        if (x > 2 * this->IM_asy) {\n            return 0;")),
    bug("fn-clip-low", "C31", (FN, "            //std::cout << \"CLIPPED at \" << x << std::endl;\n            y = min_x.second;", "            y = 0;")),
    bug("fn-log-clip", "C31", (FN, "        if (x < min_x.first) {\n            y = min_x.second;\n        } else if (x > max_x.first) {\n            y = max_x.second;\n        } else {\n            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);", "        if (x < min_x.first) {\n            y = min_x.second;\n        } else if (x > max_x.first) {\n            y = min_x.second;\n        } else {\n            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);")),
    bug("fn-log-noexp", "C31", (FN, "            y = exp(y);\n", "")),
    bug("fn-maxx", "C31", (FN, "max_x = std::pair<double, double>(x[size - 1], y[size - 1]);", "max_x = std::pair<double, double>(x[size - 1], y[0]);")),
    bug("fn-pow-swap", "C31", (FN, "return a * pow(x, b);", "return b * pow(x, a);")),
    bug("fn-logy", "C31", (FN, "            logy[i] = log(y[i]);", "            logy[i] = log(x[i]);")),
    same("fn-r-early", (FN, "        double y;\n        if (x < min_x.first) {\n            y = min_x.second;\n        } else if (x > max_x.first) {\n            y = max_x.second;\n        } else {\n            (void)gsl_spline_eval_e(interp, log(x), NULL, &y);\n            y = exp(y);\n\n        }\n        return y;", "        if (x < min_x.first) return min_x.second;\n        if (x > max_x.first) return max_x.second;\n\n        double log_y;\n        gsl_spline_eval_e(interp, log(x), NULL, &log_y);\n        return exp(log_y);")),
    same("fn-r-hyp", (FN, "        if (x >= this->IM_asy) {\n            return 0;\n        } else {\n            return v_asy * exp(alpha / log(x / IM_asy));\n        }", "        const double ratio = x / IM_asy;\n        return x < IM_asy ? v_asy * exp(alpha / log(ratio)) : 0;")),
    same("fn-r-init", (FN, "    PowerLawParametricCurve::PowerLawParametricCurve(double a, double b)\n    {\n        this->a = a;\n        this->b = b;\n    }", "    PowerLawParametricCurve::PowerLawParametricCurve(double a_, double b_) : a(a_), b(b_)\n    {\n    }")),
    same("fn-r-vec", (FN, "        double logx[size];\n        double logy[size];\n        for (unsigned int i=0; i < size; i++) {\n            logx[i] = log(x[i]);\n            logy[i] = log(y[i]);\n        }\n        gsl_spline_init(interp, logx, logy, size);", "        std::vector<double> logx(size), logy(size);\n        for (unsigned int i=0; i < size; i++) {\n            logx[i] = log(x[i]);\n            logy[i] = log(y[i]);\n        }\n        gsl_spline_init(interp, logx.data(), logy.data(), size);")),
    same("fn-r-clamp", (FN, "        double y;\n        if (x < min_x.first) {\n            //std::cout << \"CLIPPED at \" << x << std::endl;\n            y = min_x.second;\n        } else if (x > max_x.first) {\n            //std::cout << \"CLIPPED at \" << x << std::endl;\n            y = max_x.second;\n        } else {\n            (void)gsl_spline_eval_e(interp, x, NULL, &y);\n        }\n        return y;", "        double y = NAN;\n        if (x >= min_x.first && x <= max_x.first) {\n            (void)gsl_spline_eval_e(interp, x, NULL, &y);\n        } else if (x < min_x.first) {\n            y = min_x.second;\n        } else {\n            y = max_x.second;\n        }\n        return y;")) if False else
    same("fn-r-gsleval", (FN, "            (void)gsl_spline_eval_e(interp, x, NULL, &y);", "            y = gsl_spline_eval(interp, x, NULL);")),
    same("fn-r-data", (FN, "        min_x = std::pair<double, double>(x[0], y[0]);\n        max_x = std::pair<double, double>(x[size - 1], y[size - 1]);\n        \n        for (unsigned int i=0; i < size; i++) {\n            data.push_back(std::pair<double, double>(x[i], y[i]));\n        }", "        for (size_t i=0; i < size; i++) {\n            data.push_back(std::make_pair(x[i], y[i]));\n        }\n        const size_t last = size - 1;\n        min_x = std::make_pair(x[0], y[0]);\n        max_x = std::make_pair(x[last], y[last]);")),
    same("fn-r-derivhelper", (FN, "        std::function<double (double)> local_lambda = [this] (double x) {\n            double result = this->ValueAt(x);\n            return result;\n        };", "        std::function<double (double)> local_lambda = [this] (double x) { return ValueAt(x); };")),
    # --- lognormal functions
    bug("pf-mean-mix", "C14", (FN, "            mean_lnX = [this] (double x) -> double { return log(this->median_X(x)); };", "            mean_lnX = [this] (double x) -> double { return log(this->median_X(x)) - this->sigma_lnX(x) * this->sigma_lnX(x) / 2; };")),
    bug("pf-sdln", "C14", (FN, "            sigma_lnX = [this] (double x) -> double{ return this->sigma_function->ValueAt(x); };", "            sigma_lnX = [this] (double x) -> double{ return sqrt(this->sigma_function->ValueAt(x)); };")),
    bug("pf-compound-min", "C14", (RL, "median_1 > median_2 ? FIRST : SECOND", "median_1 > median_2 ? SECOND : FIRST")),
    bug("pf-compound-median", "C14", (RL, "            return second_dependent_rate->Median(base_value);", "            return dependent_rate->Median(base_value);")),
    bug("pf-edp-meanln", "C14", (RL, "        return dependent_rate->MeanLn(base_value);\n    }\n\n    std::vector", "        return log(dependent_rate->Mean(base_value));\n    }\n\n    std::vector")),
    same("pf-r-which", (RL, "        double median_1 = dependent_rate->Mean(base_value);\n        double median_2 = second_dependent_rate->Mean(base_value);\n\n        return median_1 > median_2 ? FIRST : SECOND;", "        if (second_dependent_rate->Mean(base_value) < dependent_rate->Mean(base_value)) {\n            return FIRST;\n        }\n        return SECOND;")),
    same("pf-r-if", (RL, "        switch (WhichToUse(base_value)) {\n        case FIRST:\n            return dependent_rate->MeanLn(base_value);\n            break;\n        case SECOND:\n            return second_dependent_rate->MeanLn(base_value);\n        default:\n            // FAIL\n            return NAN;\n        }", "        const ProbabilisticFn &fn = WhichToUse(base_value) == FIRST ? *dependent_rate : *second_dependent_rate;\n        return fn.MeanLn(base_value);")),
    same("pf-r-ifelse", (RL, "        switch (WhichToUse(base_value)) {\n        case FIRST:\n            return dependent_rate->SD(base_value);\n            break;\n        case SECOND:\n            return second_dependent_rate->SD(base_value);\n        default:\n            // FAIL\n            return NAN;\n        }", "        std::shared_ptr<ProbabilisticFn> fn = dependent_rate;\n        if (WhichToUse(base_value) == SECOND) fn = second_dependent_rate;\n        return fn->SD(base_value);")),
    same("pf-r-dist", (FN, "        LogNormalDist result = LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mean_lnX(x), sigma_lnX(x));\n        return result;", "        const double mu = mean_lnX(x);\n        const double sd = sigma_lnX(x);\n        return LogNormalDist::LogNormalDist_from_mu_lnX_and_sigma_lnX(mu, sd);")),
    same("pf-r-sq", (FN, "                return log(this->mean_X(x)) - this->sigma_lnX(x) * this->sigma_lnX(x) / 2; ", "                const double s = this->sigma_lnX(x);\n                return log(this->mean_X(x)) - 0.5 * s * s; ")),
    # --- rates
    bug("rt-demol-collapse", "C32", (RL, "                    double p = this->pDemolition(im);", "                    double p = this->pCollapse(im);")),
    bug("rt-noabs", "C32", (RL, "                    double p = this->pCollapse(im);\n                    double result = fabs(d) * p;", "                    double p = this->pCollapse(im);\n                    double result = -d * p * p;")),
    bug("rt-lambda-norepair", "C32", (RL, "                    result = (p * base_rate->pRepair(x2) + \n                              (1.0 - base_rate->pRepair(x2))) * std::abs(d);", "                    result = (p * base_rate->pRepair(x2) + \n                              base_rate->pCollapse(x2)) * std::abs(d);")),
    bug("rt-lambda-swap", "C32", (RL, "this->P_exceedence(x2, min_y)", "this->P_exceedence(min_y, x2)")),
    same("rt-r-helper", (RL, "    double IM::CollapseRate_calc(void)\n    {", "    static double weighted(double derivative, double p)\n    {\n        return p * fabs(derivative);\n    }\n\n    double IM::CollapseRate_calc(void)\n    {"),
         (RL, "                    double p = this->pCollapse(im);\n                    double result = fabs(d) * p;\n                    return result;", "                    double p = this->pCollapse(im);\n                    return weighted(d, p);"), (RL, "                    double p = this->pDemolition(im);\n                    double result = fabs(d) * p;\n                    return result;", "                    double p = this->pDemolition(im);\n                    return weighted(d, p);")),
    same("rt-r-guard", (RL, "        if (collapse) {\n            Integration::MAQ_RESULT result;", "        if (!collapse) return 0;\n        {\n            Integration::MAQ_RESULT result;"), (RL, "                return result.integral;\n            } else {\n                // Log error\n                return NAN;\n            };\n        } else {\n            return 0;\n        }\n    }\n\n    double IM::Demol", "                return result.integral;\n            } else {\n                // Log error\n                return NAN;\n            };\n        }\n    }\n\n    double IM::Demol")),
    same("rt-r-ternary", (RL, "        if (result.successful) {\n            return result.integral;\n        } else {\n            // Log error\n            return NAN;\n        };\n    }\n\n    double EDP::P_ex", "        return result.successful ? result.integral : NAN;\n    }\n\n    double EDP::P_ex")),
    same("rt-r-prep", (RL, "                    result = (p * base_rate->pRepair(x2) + \n                              (1.0 - base_rate->pRepair(x2))) * std::abs(d);", "                    const double repair = base_rate->pRepair(x2);\n                    result = (1.0 - repair * (1.0 - p)) * std::abs(d);")),
    same("rt-r-lambda-early", (RL, "                double result;\n                if (x2 == 0) {\n                    result = 0;\n                } else {\n                    double d = this->base_rate->DerivativeAt(x2);\n                    double p = this->P_exceedence(x2, min_y);\n                    result = (p * base_rate->pRepair(x2) + \n                              (1.0 - base_rate->pRepair(x2))) * std::abs(d);\n                }\n                return result;", "                if (x2 == 0) return 0;\n\n                double p = this->P_exceedence(x2, min_y);\n                double d = std::abs(this->base_rate->DerivativeAt(x2));\n                return d * (p * base_rate->pRepair(x2) + (1.0 - base_rate->pRepair(x2)));")),
    same("rt-r-template", (RL, "    double IM::DerivativeAt(double x)\n    {", "    template <typename F> static double slope(F f, double x)\n    {\n        std::function<double (double)> local_lambda = f;\n        gsl_function F_;\n        F_.function = (double (*)(double, void *))wrapper;\n        F_.params = &local_lambda;\n        double result, abserror;\n        gsl_deriv_central(&F_, x, 1E-8, &result, &abserror);\n        if (std::isnan(result)) gsl_deriv_forward(&F_, x, 1E-8, &result, &abserror);\n        if (std::isnan(result)) gsl_deriv_backward(&F_, x, 1E-8, &result, &abserror);\n        return result;\n    }\n\n    double IM::DerivativeAt(double x)\n    {\n        return slope([this] (double x) { return this->lambda(x); }, x);\n    }\n\n    double EDP::P_slope(double x)\n    {")) if False else
    # --- component groups
    bug("cg-adj-swap", "C23", (CG, "                                                          this->count,\n                                                          this->delay_adjustment_factor); ", "                                                          this->count,\n                                                          this->cost_adjustment_factor); ")),
    bug("cg-E-delay-cost", "C23", (CG, "                    double p = this->E_delay_EDP(edp);", "                    double p = this->E_cost_EDP(edp);") if False else (CG, "                        double p = this->E_delay_EDP(edp);", "                        double p = this->E_cost_EDP(edp);")),
    bug("cg-sd-edp", "C23", (CG, "        return cost_EDP_dist(edp).get_sigma_X();", "        return cost_EDP_dist(edp).get_sigma_lnX();")),
    bug("cg-sd-nosq", "C23", (CG, "                double mean_x = E_cost_IM(im); /// this->count;\n\n                double sigma_x = sqrt(result.integral  - mean_x * mean_x);", "                double mean_x = E_cost_IM(im); /// this->count;\n\n                double sigma_x = sqrt(result.integral  - mean_x);")),
    bug("cg-pds-first", "C23", (CG, "        LogNormalDist dist = FragFn()->DamageStates()[i];", "        LogNormalDist dist = FragFn()->DamageStates()[i - i];")),
    bug("cg-rate-other", "C23", (CG, "                        double p = this->pDS_IM_calc(std::pair<int, double>(i, im));", "                        double p = this->pDS_IM_calc(std::pair<int, double>(0, im));")),
    bug("cg-fail-0", "C09", (CG, "                results[i] = NAN;;", "                results[i] = 0;")),
    bug("cg-annual-fail-0", "C09", (CG, "                    return expected_cost * deriv;\n                });\n            if (result.successful) {\n                return result.integral;\n            } else {\n                return NAN;", "                    return expected_cost * deriv;\n                });\n            if (result.successful) {\n                return result.integral;\n            } else {\n                return 0;")),
    bug("rl-fail-0", "C09", (RL, "                // Log error\n                return NAN;", "                // Log error\n                return 0;", 1)),
    bug("st-fail-0", "C09", (ST, "        double mu=NAN, beta=NAN;", "        double mu=0, beta=0;")),
    same("cg-r-null", (CG, "                 if (this->cost_fn  == NULL) {\n                     return LogNormalDist();\n                 } else {\n                     return this->cost_fn->CalculateLoss(this->frag_fn->pHighest(edp), \n                                                         this->count, \n                                                         this->cost_adjustment_factor); \n                 }", "                 if (!this->cost_fn) return LogNormalDist();\n                 const std::vector<double> p = this->frag_fn->pHighest(edp);\n                 return this->cost_fn->CalculateLoss(p, this->count, cost_adjustment_factor);")),
    same("cg-r-count", (CG, "    double CompGroup::E_annual_cost_calc(void)\n    {\n        if (count > 0) {", "    double CompGroup::E_annual_cost_calc(void)\n    {\n        if (count <= 0) return 0;\n        {"),
         (CG, "                    return expected_cost * deriv;\n                });\n            if (result.successful) {\n                return result.integral;\n            } else {\n                return NAN;\n            }\n        } else {\n            return 0;\n        }", "                    return expected_cost * deriv;\n                });\n            return result.integral;\n        }")),
    same("cg-r-slope", (CG, "    double CompGroup::E_delay_IM_calc(double im)\n    {", "    static double derivative(std::function<double (double)> f, double x)\n    {\n        gsl_function F;\n        F.function = (double (*)(double, void *))wrapper;\n        F.params = &f;\n        double deriv, abserror;\n        gsl_deriv_central(&F, x, 1E-8, &deriv, &abserror);\n        if (std::isnan(deriv)) gsl_deriv_forward(&F, x, 1E-8, &deriv, &abserror);\n        if (std::isnan(deriv)) gsl_deriv_backward(&F, x, 1E-8, &deriv, &abserror);\n        return deriv;\n    }\n\n    double CompGroup::E_delay_IM_calc(double im)\n    {"),
         (CG, "                        std::function<double (double)> local_lambda = [this, im] (double x) {\n                            double result = this->edp->P_exceedence(im, x);\n                            return result;\n                        };\n                        gsl_function F;\n                        F.function = (double (*)(double, void *))wrapper;\n                        F.params = &local_lambda;\n                        double deriv, abserror;\n                        gsl_deriv_central(&F, edp, 1E-8, &deriv, &abserror);\n                        if (std::isnan(deriv)) gsl_deriv_forward(&F, edp, 1E-8, &deriv, &abserror);\n                        if (std::isnan(deriv)) gsl_deriv_backward(&F, edp, 1E-8, &deriv, &abserror);\n                    \n                        double d = deriv;\n                        //double d = this->edp->P_exceedence(im, edp);\n                        double p = this->E_delay_EDP(edp);", "                        double d = derivative([this, im] (double x) { return this->edp->P_exceedence(im, x); }, edp);\n                        double p = this->E_delay_EDP(edp);")),
    same("cg-r-sdln", (CG, "                double sigma_lnx = sqrt(log(1.0 + (sigma_x * sigma_x) / (mean_x * mean_x)));\n                if (mean_x == 0) sigma_lnx = 0; ///@todo What should sigma_lnx be if mean_x is zero?\n                return sigma_lnx;", "                if (mean_x == 0) return 0;\n                const double cv = sigma_x / mean_x;\n                return sqrt(log(1.0 + cv * cv));")),
    same("cg-r-cond", (CG, "            if (result.successful) {\n                results[i] = result.integral;\n            } else {\n                results[i] = NAN;;\n            };", "            results[i] = result.successful ? result.integral : NAN;")),
    same("cg-r-ratewhile", (CG, "        for (size_t i=0; i < results.size(); i++) {\n            // Integrate", "        const size_t N = results.size();\n        for (size_t i=0; i < N; ++i) {\n            // Integrate")),
    # --- structures
    bug("st-fate-swap", "C12", (ST, "demolition_cost.ScaleDistributionByProbability(this->im->pDemolition(im))", "rebuild_cost.ScaleDistributionByProbability(this->im->pDemolition(im))")),
    bug("st-weights", "C12", (ST, "std::vector<double> weights = { 1.0 - pCollapse, pCollapse };", "std::vector<double> weights = { pCollapse, 1.0 - pCollapse };")),
    bug("st-sq-repair", "C12", (ST, "        double E_sq_cost = E_sq_cost_repair * this->im->pRepair(im);", "        double E_sq_cost = E_sq_cost_repair * (1.0 - this->im->pCollapse(im));")),
    bug("st-sq-sd", "C12", (ST, "            cost_demolition.get_sigma_X() * cost_demolition.get_sigma_X();", "            cost_demolition.get_sigma_lnX() * cost_demolition.get_sigma_lnX();")),
    bug("st-demol-guard", "C12", (ST, "        if (this->im->pDemolition(im) > 0) {\n            E_sq_cost +=", "        if (this->im->pCollapse(im) > 0) {\n            E_sq_cost +=")),
    bug("st-discount", "C12", (ST, "((1.0 - exp(-discount_rate * year)) / discount_rate)", "((1.0 - exp(-discount_rate) * year) / discount_rate)")),
    bug("st-annual-sd", "C12", (ST, "                            return (cost * cost + sd * sd) * deriv ;", "                            return (cost * cost + sd * sd) * deriv * deriv;")),
    bug("st-costnc-skip", "C12", (ST, "        return LogNormalDist::AddDistributions(dists);", "        if (N > 1) dists[0] = dists[1];\n        return LogNormalDist::AddDistributions(dists);")),
    same("st-r-sq", (ST, "    LogNormalDist Structure::TotalCost(double im)\n    {", "    static double second_moment(const LogNormalDist &d)\n    {\n        return d.get_mean_X() * d.get_mean_X() + d.get_sigma_X() * d.get_sigma_X();\n    }\n\n    LogNormalDist Structure::TotalCost(double im)\n    {"),
         (ST, "        double E_sq_cost_repair = cost_repair.get_mean_X() * cost_repair.get_mean_X() +\n            cost_repair.get_sigma_X() * cost_repair.get_sigma_X();\n        double E_sq_cost_demolition = cost_demolition.get_mean_X() * cost_demolition.get_mean_X() +\n            cost_demolition.get_sigma_X() * cost_demolition.get_sigma_X();\n        double E_sq_cost_collapse = cost_collapse.get_mean_X() * cost_collapse.get_mean_X() +\n            cost_collapse.get_sigma_X() * cost_collapse.get_sigma_X();", "        double E_sq_cost_repair = second_moment(cost_repair);\n        double E_sq_cost_demolition = second_moment(cost_demolition);\n        double E_sq_cost_collapse = second_moment(cost_collapse);")),
    same("st-r-locals", (ST, "        double E_cost = cost_repair.get_mean_X() * this->im->pRepair(im);\n\n        if (this->im->pDemolition(im) > 0) {\n            E_cost +=  cost_demolition.get_mean_X() * this->im->pDemolition(im);\n        }\n\n        if (this->im->pCollapse(im) > 0) {\n            E_cost += cost_collapse.get_mean_X() * this->im->pCollapse(im); \n        }", "        const double p_repair = this->im->pRepair(im);\n        const double p_demolition = this->im->pDemolition(im);\n        const double p_collapse = this->im->pCollapse(im);\n        double E_cost = cost_repair.get_mean_X() * p_repair;\n        if (p_demolition > 0) E_cost += p_demolition * cost_demolition.get_mean_X();\n        if (p_collapse > 0) E_cost += p_collapse * cost_collapse.get_mean_X();")),
    same("st-r-join", (ST, "        double var_cost = E_sq_cost - E_cost * E_cost;\n        double sigma_cost = sqrt(var_cost);\n        return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(E_cost, sigma_cost);", "        return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_X(E_cost, sqrt(E_sq_cost - pow(E_cost, 2)));")),
    same("st-r-nested", (ST, "        if (consider_collapse) {\n            std::vector<LogNormalDist> dists = { nc_dist, rebuild_cost };\n            if (this->im != NULL) {\n                double pCollapse = this->im->pCollapse(im);\n                std::vector<double> weights = { 1.0 - pCollapse, pCollapse };\n            \n                LogNormalDist c_dist = LogNormalDist::AddWeightedDistributions(dists, weights); \n                return c_dist;\n            } else {\n                return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(NAN, NAN);\n            };\n        } else {\n            return nc_dist;\n        }", "        if (!consider_collapse) return nc_dist;\n        if (!this->im) return LogNormalDist::LogNormalDist_from_mean_X_and_sigma_lnX(NAN, NAN);\n\n        const double p = this->im->pCollapse(im);\n        return LogNormalDist::AddWeightedDistributions({ nc_dist, rebuild_cost }, { 1.0 - p, p });")),
    same("st-r-pushlist", (ST, "            std::vector<LogNormalDist> dists = { nc_dist, rebuild_cost };\n            if (this->im != NULL) {\n                double pCollapse = this->im->pCollapse(im);\n                std::vector<double> weights = { 1.0 - pCollapse, pCollapse };", "            std::vector<LogNormalDist> dists;\n            dists.push_back(nc_dist);\n            dists.push_back(rebuild_cost);\n            if (this->im != NULL) {\n                double pCollapse = this->im->pCollapse(im);\n                std::vector<double> weights(2);\n                weights[1] = pCollapse;\n                weights[0] = 1.0 - pCollapse;")),
    same("st-r-expm1", (ST, "((1.0 - exp(-discount_rate * year)) / discount_rate) * AnnualCost().get_mean_X()", "-expm1(-discount_rate * year) / discount_rate * AnnualCost().get_mean_X()")),
    same("st-r-annual", (ST, "                            double cost = this->TotalCost(im).get_mean_X();\n                            double sd = this->TotalCost(im).get_sigma_X();\n                            double deriv = std::abs(this->im->DerivativeAt(im));\n                            return (cost * cost + sd * sd) * deriv ;", "                            const LogNormalDist total = this->TotalCost(im);\n                            const double cost = total.get_mean_X(), sd = total.get_sigma_X();\n                            return (cost * cost + sd * sd) * fabs(this->im->DerivativeAt(im));")),
    same("st-r-fates", (ST, "        COSTS result;\n        if (this->im != NULL) {\n            result.repair", "        COSTS result;\n        const double p_collapse = this->im ? this->im->pCollapse(im) : NAN;\n        if (this->im != NULL) {\n            result.repair"), (ST, "rebuild_cost.ScaleDistributionByProbability(this->im->pCollapse(im));", "rebuild_cost.ScaleDistributionByProbability(p_collapse);")),
    same("st-r-integrate", (ST, "    LogNormalDist Structure::calc_AnnualCost(void)\n    {", "    static double integral_or_nan(std::function<double (double)> f)\n    {\n        Integration::MAQ_RESULT result = Integration::MAQ(f);\n        if (!result.successful) return NAN;\n        return result.integral;\n    }\n\n    LogNormalDist Structure::calc_AnnualCost(void)\n    {"),
         (ST, "                    Integration::MAQ_RESULT result;\n                    result = Integration::MAQ(\n                        [this] (double im) -> double {\n                            double cost = this->TotalCost(im).get_mean_X();\n                            double deriv = std::abs(this->im->DerivativeAt(im));\n                            return cost * deriv;\n                        });\n                    if (result.successful) {\n                        mu = result.integral;\n                    } ", "                    mu = integral_or_nan([this] (double im) -> double {\n                            double cost = this->TotalCost(im).get_mean_X();\n                            double deriv = std::abs(this->im->DerivativeAt(im));\n                            return cost * deriv;\n                        });")),
]
